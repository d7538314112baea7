// Writes the values given on standard input and reads them back, printing what was read.
//   i N | d HEXDOUBLE | s HEXUTF8 | I N (int64) | w N (int32) | u HEXUTF8 | p N HEXDOUBLE
#include <lttoolbox/compression.h>
#include <lttoolbox/serialiser.h>
#include <lttoolbox/deserialiser.h>
#include <lttoolbox/ustring.h>
#include <lttoolbox/lt_locale.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

static std::string unhex(std::string const &h)
{
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char) std::stoi(h.substr(i, 2), nullptr, 16);
  return s;
}
static std::string hex(std::string const &s)
{
  std::string o;
  char b[3];
  for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; }
  return o;
}
static void pd(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  printf("%llx\n", (unsigned long long) u);
}
static double gd(std::string const &h)
{
  uint64_t u = std::stoull(h, nullptr, 16);
  double d;
  memcpy(&d, &u, 8);
  return d;
}

int main()
{
  LtLocale::tryToSetLocale();
  std::string line;
  std::vector<std::string> op, arg, arg2;
  while (std::getline(std::cin, line)) {
    std::istringstream x(line);
    std::string a, b, c;
    x >> a >> b >> c;
    op.push_back(a); arg.push_back(b); arg2.push_back(c);
  }
  FILE *f = tmpfile();
  std::stringstream ss, ser;
  for (size_t k = 0; k < op.size(); k++) {
    if (op[k] == "i") {
      unsigned v = std::stoul(arg[k]);
      Compression::multibyte_write(v, f);
      Compression::multibyte_write(v, ss);
      serialise((uint32_t) v, ser);
    } else if (op[k] == "d") {
      double d = gd(arg[k]);
      Compression::long_multibyte_write(d, f);
      Compression::long_multibyte_write(d, ss);
      serialise(d, ser);
    } else if (op[k] == "s") {
      UString u = to_ustring(unhex(arg[k]).c_str());
      Compression::string_write(u, f);
      serialise(u, ser);
      serialise(unhex(arg[k]), ser);
    } else if (op[k] == "I") serialise((int64_t) std::stoll(arg[k]), ser);
    else if (op[k] == "w") serialise((int32_t) std::stol(arg[k]), ser);
    else if (op[k] == "p") serialise(std::map<int32_t, double>{{(int32_t) std::stol(arg[k]), gd(arg2[k])}, {7, 0.5}}, ser);
  }
  rewind(f);
  for (size_t k = 0; k < op.size(); k++) {
    if (op[k] == "i") {
      printf("%u\n", Compression::multibyte_read(f));
      printf("%u\n", Compression::multibyte_read(ss));
      printf("%u\n", Deserialiser<uint32_t>::deserialise(ser));
    } else if (op[k] == "d") {
      pd(Compression::long_multibyte_read(f));
      pd(Compression::long_multibyte_read(ss));
      pd(Deserialiser<double>::deserialise(ser));
    } else if (op[k] == "s") {
      std::string o;
      UString u = Compression::string_read(f);
      utf8::utf16to8(u.begin(), u.end(), std::back_inserter(o));
      printf("%s\n", hex(o).c_str());
      o.clear();
      u = Deserialiser<UString>::deserialise(ser);
      utf8::utf16to8(u.begin(), u.end(), std::back_inserter(o));
      printf("%s\n", hex(o).c_str());
      printf("%s\n", hex(Deserialiser<std::string>::deserialise(ser)).c_str());
    } else if (op[k] == "I") printf("%lld\n", (long long) Deserialiser<int64_t>::deserialise(ser));
    else if (op[k] == "w") printf("%d\n", (int) Deserialiser<int32_t>::deserialise(ser));
    else if (op[k] == "p") {
      for (auto &it : Deserialiser<std::map<int32_t, double>>::deserialise(ser)) { printf("%d ", it.first); pd(it.second); }
    }
  }
  if (fgetc(f) != EOF) printf("LEFT OVER\n");
  fclose(f);
  return 0;
}
