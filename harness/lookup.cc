// lookup BIN [-c]: answers each line "MODE<TAB>WORD" of stdin on one line.
#include <lttoolbox/fst_processor.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/ustring.h>
#include <cstring>
#include <iostream>
#include <string>

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  FSTProcessor fstp;
  FILE *in = openInBinFile(argv[1]);
  fstp.load(in);
  fclose(in);
  bool ana = false;
  for (int i = 2; i < argc; i++) {
    if (!strcmp(argv[i], "-c")) fstp.setCaseSensitiveMode(true);
    else if (!strcmp(argv[i], "-a")) ana = true;
  }
  if (ana) fstp.initAnalysis();
  else fstp.initBiltrans();
  std::string line;
  while (std::getline(std::cin, line)) {
    size_t tab = line.find('\t');
    std::string mode = line.substr(0, tab);
    UString w = to_ustring(line.substr(tab + 1).c_str());
    // exactly as long as the word, so that reading past it shows
    std::vector<UChar> buf(w.begin(), w.end());
    UStringView v(buf.data(), buf.size());
    if (mode == "b") std::cout << fstp.biltrans(v);
    else if (mode == "bn") std::cout << fstp.biltrans(v, false);
    else if (mode == "o") std::cout << fstp.biltransWithoutQueue(v);
    else if (mode == "on") std::cout << fstp.biltransWithoutQueue(v, false);
    else if (mode == "q" || mode == "qn") {
      auto r = fstp.biltransWithQueue(v, mode == "q");
      std::cout << r.second << "\t" << r.first;
    } else if (mode == "l") {
      std::vector<UString> r(1, to_ustring("old"));
      bool ok = fstp.lookup(v, r);
      std::cout << (ok ? 1 : 0);
      for (auto &it : r) std::cout << "\t" << it;
    }
    std::cout << std::endl;
  }
  return 0;
}
