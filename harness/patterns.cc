// patterns FILE: builds a PatternList from the script on stdin and matches symbol sequences with it.
//   B | E | I id lemma tags | L id otherid | T (build) | W (write and read) | S (serialise and deserialise)
//   Wu | Su: into a list that was in use
//   C (copy the list) | X (make the MatchExe; "Xc" uses a copy of it)
//   M banned,ids SYMBOLS..   one line of answers: class after every step, "-" when nothing is left alive
// fields are separated by tabs; symbols: c<char> (matches also "any char"), t<name> (also "any tag"),
// s<char> (itself only); a leading "|" copies the state before the step.
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/ustring.h>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static std::vector<std::string> split(const std::string &l)
{
  std::vector<std::string> r;
  size_t b = 0;
  for (;;) {
    size_t e = l.find('\t', b);
    r.push_back(l.substr(b, e == std::string::npos ? e : e - b));
    if (e == std::string::npos) return r;
    b = e + 1;
  }
}

static UString us(const std::string &s) { return to_ustring(s.c_str()); }

// a list to read into, with patterns of its own when "used"
static std::unique_ptr<PatternList> fresh(bool used)
{
  auto p = std::make_unique<PatternList>();
  if (used) {
    for (int i = 1; i < 40; i++) {
      p->insert(i, us(std::string(i % 7 + 1, 'a') + std::string(i % 3, 'b')), us(i % 2 ? "n.old" : "old.*"));
    }
    p->buildTransducer();
  }
  return p;
}

int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  auto pl = std::make_unique<PatternList>();
  std::unique_ptr<MatchExe> me;
  std::string line;
  MatchState kept;
  while (std::getline(std::cin, line)) {
    auto f = split(line);
    if (f[0] == "B") pl->beginSequence();
    else if (f[0] == "E") pl->endSequence();
    else if (f[0] == "I") pl->insert(std::stoi(f[1]), us(f[2]), us(f[3]));
    else if (f[0] == "L") pl->insert(std::stoi(f[1]), std::stoi(f[2]));
    else if (f[0] == "T") pl->buildTransducer();
    else if (f[0] == "C") {
      auto q = std::make_unique<PatternList>(*pl);
      pl = fresh(q->getPatterns().size() % 2);
      *pl = *q;
    } else if (f[0] == "W" || f[0] == "Wu") {
      FILE *o = fopen(argv[1], "wb");
      pl->write(o);
      fclose(o);
      pl = fresh(f[0] == "Wu");
      FILE *i = fopen(argv[1], "rb");
      pl->read(i);
      if (fgetc(i) != EOF) std::cout << "rest" << std::endl;
      fclose(i);
    } else if (f[0] == "S" || f[0] == "Su") {
      std::stringstream ss;
      pl->serialise(ss);
      pl = fresh(f[0] == "Su");
      pl->deserialise(ss);
    } else if (f[0] == "X") {
      me.reset(pl->newMatchExe());
    } else if (f[0] == "Xc") {
      std::unique_ptr<MatchExe> m(pl->newMatchExe());
      me = std::make_unique<MatchExe>(*m);
    } else if (f[0] == "M") {
      Alphabet &a = pl->getAlphabet();
      int anyc = a(PatternList::ANY_CHAR), anyt = a(PatternList::ANY_TAG);
      std::set<int> banned;
      std::stringstream bs(f[1]);
      std::string b;
      while (std::getline(bs, b, ',')) banned.insert(std::stoi(b));
      MatchState *ms = &kept;
      std::unique_ptr<MatchState> own;
      ms->init(me->getInitial());
      for (size_t k = 2; k < f.size(); k++) {
        std::string s = f[k];
        if (s[0] == '|') {
          std::unique_ptr<MatchState> n;
          if (k % 2) {
            n = std::make_unique<MatchState>(*ms);
          } else {
            n = std::make_unique<MatchState>();
            n->init(me->getInitial());
            *n = *ms;
          }
          ms->clear();
          own = std::move(n);
          ms = own.get();
          s = s.substr(1);
        }
        if (s[0] == 't') {
          UString t = us("<" + s.substr(1) + ">");
          if (a.isSymbolDefined(t)) ms->step(a(t), anyt);
          else ms->step(anyt);
        } else {
          UString c = us(s.substr(1));
          if (s[0] == 'c') ms->step(c[0], anyc);
          else ms->step(c[0]);
        }
        if (ms->size() == 0) std::cout << " -";
        else if (banned.empty()) std::cout << " " << ms->classifyFinals(me->getFinals());
        else std::cout << " " << ms->classifyFinals(me->getFinals(), banned);
      }
      std::cout << std::endl;
    }
  }
  return 0;
}
