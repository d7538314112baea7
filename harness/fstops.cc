// Applies a script of operations (argv) to the transducers of a file and writes the results back.
//   fstops IN OUT op...
// The stack starts empty; "load NAME" pushes a section.  OUT gets r0, r1, ... for the final stack.
#include <lttoolbox/transducer.h>
#include <lttoolbox/file_utils.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/ustring.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  Alphabet a;
  std::set<UChar32> letters;
  std::map<UString, Transducer> trans;
  FILE *in = openInBinFile(argv[1]);
  readTransducerSet(in, letters, a, trans);
  fclose(in);
  int eps = a(0, 0);
  std::vector<Transducer> st;
  for (int i = 3; i < argc; i++) {
    std::string op = argv[i];
    if (op == "load") {
      UString n = to_ustring(argv[++i]);
      if (!trans.count(n)) { std::cerr << "no section\n"; return 3; }
      st.push_back(trans[n]);
      continue;
    }
    if (op == "new") { st.push_back(Transducer()); continue; }
    Transducer &t = st.back();
    if (op == "minimize") t.minimize(eps);
    else if (op == "determinize") t.determinize(eps);
    else if (op == "reverse") t.reverse(eps);
    else if (op == "optional") t.optional(eps);
    else if (op == "oneOrMore") t.oneOrMore(eps);
    else if (op == "zeroOrMore") t.zeroOrMore(eps);
    else if (op == "joinFinals") t.joinFinals(eps);
    else if (op == "dup") { Transducer u(t); st.push_back(u); }
    else if (op == "assign") { Transducer u; u = t; u = *&u; st.back() = u; }
    else if (op == "clear") t.clear();
    else if (op == "union") {
      Transducer u = t; st.pop_back();
      st.back().unionWith(a, u, eps);
    } else if (op == "concat") {
      Transducer u = t; st.pop_back();
      Transducer &v = st.back();
      v.joinFinals(eps);
      auto f = *v.getFinals().begin();
      int s = v.insertNewSingleTransduction(eps, f.first, f.second);
      int e = v.insertTransducer(s, u, eps);
      v.setFinal(f.first, 0, false);
      v.setFinal(e);
    } else if (op == "serialise") {
      std::ostringstream o;
      t.serialise(o);
      a.serialise(o);
      std::istringstream x(o.str());
      Transducer u;
      Alphabet b;
      u.deserialise(x);
      b.deserialise(x);
      st.back() = u;
      a = b;
    } else if (op == "copyalpha") {
      Alphabet b(a);
      a = b;
    } else if (op == "write") {
      int dec = atoi(argv[++i]);
      FILE *f = tmpfile();
      t.write(f, dec);
      rewind(f);
      Transducer u;
      u.read(f, dec);
      fclose(f);
      st.back() = u;
    } else if (op == "path") {
      // path W LABELS...: inserts i:o labels one after the other, "." ends
      double w = atof(argv[++i]);
      int s = t.getInitial();
      bool first = true;
      for (i++; std::string(argv[i]) != "."; i += 2) {
        UString x = to_ustring(argv[i]), y = to_ustring(argv[i + 1]);
        auto sym = [&](UString const &u) -> int32_t {
          if (u.empty()) return 0;
          if (u[0] == '<' && u.size() > 1) { a.includeSymbol(u); return a(u); }
          std::vector<int32_t> v;
          ustring_to_vec32(u, v);
          return v[0];
        };
        int32_t l = sym(x), r = sym(y);
        s = t.insertSingleTransduction(a(l, r), s, first ? w : 0);
        first = false;
      }
      t.setFinal(s, first ? w : 0);
    } else if (op == "recognise") {
      std::cout << "recognise " << t.recognise(to_ustring(argv[++i]), a) << "\n";
    } else if (op == "stats") {
      std::cout << "stats " << t.size() << " " << t.numberOfTransitions() << " " << t.isEmpty() << " "
                << t.hasNoFinals() << " " << t.weighted() << " " << t.getFinals().size() << "\n";
    } else { std::cerr << "bad op " << op << "\n"; return 4; }
  }
  std::map<UString, Transducer> out;
  for (size_t k = 0; k < st.size(); k++) {
    std::string n = "r" + std::to_string(k);
    out[to_ustring(n.c_str())] = st[k];
  }
  FILE *o = openOutBinFile(argv[2]);
  writeTransducerSet(o, letters, a, out);
  fclose(o);
  return 0;
}
