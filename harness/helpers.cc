// helpers [FILE]: answers each line of stdin ("OP" and fields, in hexadecimal UTF-8, between tabs) on one line.
// Strings handed over are exactly as long as the text, so that reading past them shows.
#include <lttoolbox/alphabet.h>
#include <lttoolbox/buffer.h>
#include <lttoolbox/input_file.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/sorted_vector.hpp>
#include <lttoolbox/stream_reader.h>
#include <lttoolbox/string_utils.h>
#include <lttoolbox/symbol_iter.h>
#include <lttoolbox/ustring.h>
#include <lttoolbox/xml_walk_util.h>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static std::string unhex(const std::string &h)
{
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  return r;
}

static std::string hex(const std::string &s)
{
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}

static std::string hex(UStringView s)
{
  std::ostringstream o;
  o << s;
  return hex(o.str());
}

struct Exact {
  std::unique_ptr<UChar[]> p;
  size_t n;
  explicit Exact(const std::string &utf8)
  {
    UString u = to_ustring(utf8.c_str());
    n = u.size();
    p.reset(new UChar[n]);
    std::copy(u.begin(), u.end(), p.get());
  }
  UStringView v() const { return UStringView(p.get(), n); }
};

static void show(const std::vector<UString> &v)
{
  std::cout << v.size();
  for (auto &x : v) std::cout << " " << hex(x);
}

static void walk(xmlNode *n)
{
  std::cout << "(" << hex(std::string((const char *)n->name)) << " ";
  for (auto a : {"a", "b", "é"}) {
    std::cout << hex(getattr(n, a)) << " " << hex(getattr(n, to_ustring(a), u"none")) << " ";
  }
  for (auto c : children(n)) walk(c);
  std::cout << ")";
}

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  std::string line;
  std::unique_ptr<Buffer<int>> buf;
  sorted_vector<int> sv, sv2;
  InputFile in;
  std::unique_ptr<StreamReader> reader;
  Alphabet alpha;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f;
    std::stringstream ss(line);
    std::string x;
    while (std::getline(ss, x, '\t')) f.push_back(x);
    std::string op = f[0];
    std::vector<Exact> a;
    std::vector<std::string> s;
    for (size_t i = 1; i < f.size(); i++) {
      s.push_back(unhex(f[i].substr(1)));
      a.emplace_back(s.back());
    }
    auto num = [&](size_t i) { return std::stol(s[i]); };
    try {
      if (op == "trim") std::cout << hex(StringUtils::trim(a[0].v()));
      else if (op == "split") show(StringUtils::split(a[0].v(), a[1].v()));
      else if (op == "splite") show(StringUtils::split_escaped(a[0].v(), a[1].v()[0]));
      else if (op == "join") {
        std::vector<UString> v;
        for (size_t i = 1; i < a.size(); i++) v.push_back(US(a[i].v()));
        std::cout << hex(StringUtils::join(v, a[0].v()));
      } else if (op == "subst") std::cout << hex(StringUtils::substitute(a[0].v(), a[1].v(), a[2].v()));
      else if (op == "itoa") {
        std::cout << hex(StringUtils::itoa(num(0))) << " " << hex(StringUtils::itoa_string(num(0)));
      } else if (op == "ftoa") std::cout << hex(StringUtils::ftoa(std::stod(s[0])));
      else if (op == "stoi") std::cout << StringUtils::stoi(US(a[0].v()));
      else if (op == "stod") std::cout << std::setprecision(17) << StringUtils::stod(US(a[0].v()));
      else if (op == "lower") std::cout << hex(StringUtils::tolower(a[0].v()));
      else if (op == "upper") std::cout << hex(StringUtils::toupper(a[0].v()));
      else if (op == "title") std::cout << hex(StringUtils::totitle(a[0].v()));
      else if (op == "getcase") std::cout << hex(StringUtils::getcase(a[0].v()));
      else if (op == "copycase") std::cout << hex(StringUtils::copycase(a[0].v(), a[1].v()));
      else if (op == "caseeq") std::cout << StringUtils::caseequal(a[0].v(), a[1].v());
      else if (op == "starts") std::cout << StringUtils::startswith(a[0].v(), a[1].v());
      else if (op == "ends") std::cout << StringUtils::endswith(a[0].v(), a[1].v());
      else if (op == "mergewb") std::cout << hex(StringUtils::merge_wblanks(a[0].v(), a[1].v()));
      else if (op == "symbols") {
        std::vector<UString> v;
        for (auto y : symbol_iter(a[0].v())) v.push_back(US(y));
        show(v);
      } else if (op == "vec32") {
        std::vector<int32_t> v(1, 7);
        ustring_to_vec32(a[0].v(), v);
        for (auto y : v) std::cout << y << " ";
        UString u;
        for (size_t i = 1; i < v.size(); i++) u += static_cast<UChar32>(v[i]);
        std::cout << hex(u);
      } else if (op == "tokenize") {
        Alphabet al;
        for (size_t i = 1; i < a.size(); i++) al.includeSymbol(a[i].v());
        auto v = al.tokenize(a[0].v());
        UString u;
        for (auto y : v) std::cout << y << " ";
        for (auto y : v) al.getSymbol(u, y);
        std::cout << hex(u);
      }
      // Buffer<int>
      else if (op == "bnew") { buf.reset(new Buffer<int>(num(0))); std::cout << buf->getSize(); }
      else if (op == "badd") std::cout << buf->add(num(0)) << " " << buf->getPos();
      else if (op == "bnext") std::cout << buf->next() << " " << buf->getPos();
      else if (op == "bpeek") std::cout << buf->peek() << " " << buf->getPos();
      else if (op == "blast") std::cout << buf->last();
      else if (op == "bkeep") { buf->keep(); std::cout << buf->getPos(); }
      else if (op == "bset") {
        std::cout << (num(0) <= (long)buf->getPos() ? buf->diffPrevPos(num(0)) : buf->diffPostPos(num(0)));
        buf->setPos(num(0));
      } else if (op == "bback") { buf->back(num(0)); std::cout << buf->getPos(); }
      else if (op == "bempty") std::cout << buf->isEmpty();
      else if (op == "bcopy") {
        auto c = std::make_unique<Buffer<int>>(*buf);
        buf.reset(new Buffer<int>(3));
        buf->add(1);
        *buf = *c;
        std::cout << buf->getPos();
      }
      // sorted_vector<int>
      else if (op == "vins") { auto r = sv.insert(num(0)); std::cout << r.second << " " << *r.first; }
      else if (op == "vrange" || op == "vassign") {
        std::vector<int> v;
        for (size_t i = 0; i < s.size(); i++) v.push_back(num(i));
        if (op == "vrange") sv.insert(v.begin(), v.end());
        else sv2.assign(v.begin(), v.end());
        for (auto y : (op == "vrange" ? sv : sv2)) std::cout << y << " ";
      } else if (op == "vdel") std::cout << sv.erase((int)num(0)) << " " << sv.size();
      else if (op == "vhas") {
        const auto &c = sv;
        auto i = c.find(num(0));
        std::cout << c.count(num(0)) << " " << (i != c.end() && *i == num(0));
        auto l = c.lower_bound(num(0)), u = c.upper_bound(num(0));
        std::cout << " " << (l - c.begin()) << " " << (u - c.begin());
      } else if (op == "vmeet") std::cout << sv.intersects(sv2);
      else if (op == "vswap") { sv.swap(sv2); std::cout << sv.size() << " " << sv2.size(); }
      else if (op == "vdrop") { sv.erase(sv2.begin(), sv2.end()); std::cout << sv.size(); }
      // InputFile
      else if (op == "open") { in.open_or_exit(s[0].c_str()); reader.reset(); std::cout << "ok"; }
      else if (op == "wrap") { in.wrap(fopen(s[0].c_str(), "rb")); reader.reset(); std::cout << "ok"; }
      else if (op == "rewind") { in.rewind(); std::cout << "ok"; }
      else if (op == "get") std::cout << in.get();
      else if (op == "peek") std::cout << in.peek();
      else if (op == "unget") { in.unget(num(0)); std::cout << "ok"; }
      else if (op == "block") std::cout << hex(in.readBlock(num(0), num(1)));
      else if (op == "wblank") std::cout << hex(in.finishWBlank());
      else if (op == "blank") std::cout << hex(in.readBlank(num(0)));
      // StreamReader
      else if (op == "reader") {
        alpha = Alphabet();
        for (size_t i = 1; i < s.size(); i++) alpha.includeSymbol(a[i].v());
        reader.reset(new StreamReader(&in));
        reader->alpha = &alpha;
        reader->add_unknowns = num(0);
        std::cout << "ok";
      } else if (op == "rnext") {
        reader->next();
        std::cout << reader->at_null << reader->at_eof << " " << hex(reader->blank) << "/" << hex(reader->wblank)
                  << "/" << hex(reader->chunk);
        for (auto &y : reader->readings) {
          std::cout << " " << (int)y.mark << ":" << hex(y.content) << ":";
          UString u;
          for (auto z : y.symbols) {
            if (z > 0) u += static_cast<UChar32>(z);
            else if (z < 0) alpha.getSymbol(u, z);
            else u += u"<?>";
          }
          std::cout << hex(u);
        }
      }
      // XML
      else if (op == "xml") { xmlNode *n = load_xml(s[0].c_str()); walk(n); xmlFreeDoc(n->doc); }
      else std::cout << "?";
    } catch (std::invalid_argument &) {
      std::cout << "invalid";
    }
    std::cout << std::endl;
  }
  return 0;
}
