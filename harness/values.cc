// values KIND: plays a history (stdin) over numbered variables that hold library objects of one kind.
//   n I        variable I becomes a new object        k I J   I becomes a new object copied from J
//   a I J      I is assigned J (c: with State::copy)                         d I     I is destroyed
//   q I        prints what can be seen of I            o I ..  an operation on I
#include <lttoolbox/alphabet.h>
#include <lttoolbox/buffer.h>
#include <lttoolbox/compression.h>
#include <lttoolbox/entry_token.h>
#include <lttoolbox/lt_locale.h>
#include <lttoolbox/match_exe.h>
#include <lttoolbox/match_state.h>
#include <lttoolbox/pattern_list.h>
#include <lttoolbox/regexp_compiler.h>
#include <lttoolbox/state.h>
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/transducer.h>
#include <lttoolbox/ustring.h>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<std::string> Words;

static std::string hex(const std::string &s)
{
  std::string r;
  char b[3];
  for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
  return r;
}
static UString us(const std::string &s) { return to_ustring(s.c_str()); }
static std::string u8(UStringView s) { std::string r; for (char16_t c : s) { char b[6]; snprintf(b, 6, "%x.", c); r += b; } return r; }

// writes to or reads from a temporary file
static std::string written(const std::function<void(FILE *)> &f)
{
  FILE *t = tmpfile();
  f(t);
  rewind(t);
  std::string r;
  int c;
  while ((c = fgetc(t)) != EOF) r += char(c);
  fclose(t);
  return r;
}
static void readen(const std::string &s, const std::function<void(FILE *)> &f)
{
  FILE *t = tmpfile();
  fwrite(s.data(), 1, s.size(), t);
  rewind(t);
  f(t);
  fclose(t);
}

// what the kinds share: an alphabet with a fixed set of symbols
static Alphabet &common()
{
  static Alphabet a;
  static bool done = false;
  if (!done) {
    done = true;
    for (auto t : {"<n>", "<v>", "<cmp>"}) a.includeSymbol(us(t));
    std::vector<int> s = {0, 'a', 'b', 'c', 'A', 'B', 'd', 'e', -1, -2, -3};
    for (int x : s) for (int y : s) a(x, y);
  }
  return a;
}

// "S,T,IN,OUT,W S,T,IN,OUT,W ... F,W ...": arcs and final states
static void build(Transducer &t, const Words &f, size_t at)
{
  std::map<int, int> st;
  st[0] = t.getInitial();
  auto get = [&](int s) {
    if (!st.count(s)) { t.getTransitions()[int(t.getTransitions().size())]; st[s] = int(t.getTransitions().size()) - 1; }
    return st[s];
  };
  for (; at < f.size(); at++) {
    std::vector<double> v;
    std::stringstream ss(f[at]);
    std::string p;
    while (std::getline(ss, p, ',')) v.push_back(std::stod(p));
    if (v.size() == 5) { int x = get(int(v[0])), y = get(int(v[1])); t.linkStates(x, y, common()(int(v[2]), int(v[3])), v[4]); }
    else t.setFinal(get(int(v[0])), v[1]);
  }
}

static std::string lookups(State &s, std::map<Node *, double> &fin)
{
  std::set<UChar32> esc;
  return std::to_string(s.size()) + (s.isFinal(fin) ? "F" : "-")
    + u8(s.filterFinals(fin, common(), esc, true)) + "|" + u8(s.getReadableString(common()));
}

template<class T> struct Kind;

template<> struct Kind<Alphabet> {
  static void op(Alphabet &a, const Words &f, Words &ret) {
    if (f[0] == "sym") a.includeSymbol(us(f[1]));
    else if (f[0] == "pair") ret.push_back(std::to_string(a(std::stoi(f[1]), std::stoi(f[2]))));
    else if (f[0] == "num") ret.push_back(a.isSymbolDefined(us(f[1])) ? std::to_string(a(us(f[1]))) : "none");
    else if (f[0] == "set") { if (a.size()) a.setSymbol(-1 - std::stoi(f[1]) % a.size(), us(f[2])); }
    else if (f[0] == "read" || f[0] == "deser") {
      Alphabet b;
      for (size_t i = 1; i < f.size(); i++) b.includeSymbol(us(f[i]));
      for (size_t i = 1; i < f.size(); i++) b(-int(i), 'a' + int(i));
      if (f[0] == "read") readen(written([&](FILE *o) { b.write(o); }), [&](FILE *i) { a.read(i); });
      else { std::stringstream s; b.serialise(s); a.deserialise(s); }
    }
  }
  static std::string see(Alphabet &a) {
    std::stringstream s;
    a.serialise(s);
    std::string r = hex(s.str()) + " " + hex(written([&](FILE *o) { a.write(o); }));
    for (int i = 1; i <= a.size(); i++) {
      UString x;
      a.getSymbol(x, -i);
      r += " " + u8(x) + (a.isSymbolDefined(x) ? std::to_string(a(UStringView(x))) : "?");
    }
    return r;
  }
};

// whether a final state can be reached: some operations need one
static bool alive(Transducer &t)
{
  std::vector<int> todo = {t.getInitial()};
  std::set<int> seen(todo.begin(), todo.end());
  while (!todo.empty()) {
    int s = todo.back();
    todo.pop_back();
    if (t.isFinal(s)) return true;
    for (auto &it : t.getTransitions()[s]) if (seen.insert(it.second.first).second) todo.push_back(it.second.first);
  }
  return false;
}

template<> struct Kind<Transducer> {
  static void op(Transducer &t, const Words &f, Words &ret) {
    auto n = [&](size_t i) { return std::stoi(f[i]); };
    auto s = [&](size_t i) { return std::stoi(f[i]) % t.size(); };
    if (f[0] == "new") ret.push_back(std::to_string(t.insertNewSingleTransduction(n(1), s(2), std::stod(f[3]))));
    else if (f[0] == "ins") ret.push_back(std::to_string(t.insertSingleTransduction(n(1), s(2), std::stod(f[3]))));
    else if (f[0] == "link") t.linkStates(s(1), s(2), n(3), std::stod(f[4]));
    else if (f[0] == "fin") t.setFinal(s(1), std::stod(f[2]));
    else if (f[0] == "unfin") t.setFinal(s(1), 0, false);
    else if (f[0] == "min") { if (alive(t)) t.minimize(common()(0, 0)); }
    else if (f[0] == "det") { if (alive(t)) t.determinize(common()(0, 0)); }
    else if (f[0] == "rev") { if (alive(t)) t.reverse(common()(0, 0)); }
    else if (f[0] == "opt") { if (alive(t)) t.optional(common()(0, 0)); }
    else if (f[0] == "one") { if (alive(t)) t.oneOrMore(common()(0, 0)); }
    else if (f[0] == "zero") { if (alive(t)) t.zeroOrMore(common()(0, 0)); }
    else if (f[0] == "join") { if (alive(t)) t.joinFinals(common()(0, 0)); }
    else if (f[0] == "inv") t.invert(common());
    else if (f[0] == "clear") t.clear();
    else if (f[0] == "read" || f[0] == "deser") {
      Transducer u;
      build(u, f, 1);
      if (f[0] == "read") readen(written([&](FILE *o) { u.write(o); }), [&](FILE *i) { t.read(i); });
      else { std::stringstream x; u.serialise(x); t.deserialise(x); }
    }
  }
  static std::string see(Transducer &t) {
    std::stringstream s;
    t.serialise(s);
    std::string r = hex(s.str()) + " " + hex(written([&](FILE *o) { t.write(o); })) + " " + std::to_string(t.size()) + " "
      + std::to_string(t.numberOfTransitions()) + (t.isEmpty() ? "e" : "") + (t.hasNoFinals() ? "n" : "") + (t.weighted() ? "w" : "");
    for (auto &it : t.getFinals()) r += " " + std::to_string(it.first) + ":" + std::to_string(it.second);
    return r;
  }
};

template<> struct Kind<TransExe> {
  static void op(TransExe &t, const Words &f, Words &) {
    if (f[0] == "read") {
      Transducer u;
      build(u, f, 1);
      readen(written([&](FILE *o) { u.write(o); }), [&](FILE *i) { t.read(i, common()); });
    } else if (f[0] == "unify") { if (!t.getFinals().empty()) t.unifyFinals(); }
  }
  static std::string see(TransExe &t) {
    if (t.getFinals().empty()) return "nothing";
    std::string r = std::to_string(t.getFinals().size());
    for (auto w : {"", "a", "b", "ab", "ba", "aa", "abc", "cab", "aaaa", "abab", "cc"}) {
      State s;
      s.init(t.getInitial());
      for (const char *p = w; *p; p++) s.step(*p);
      r += " " + lookups(s, t.getFinals());
    }
    return r;
  }
};

static TransExe &machine()
{
  static TransExe *m = nullptr;
  if (!m) {
    m = new TransExe();
    // a few words with several readings, case variants, a loop and empty arcs
    std::stringstream ss("0,1,97,97,0.5 1,2,98,98,0 2,3,0,-1,0.25 2,4,0,-2,1 1,5,97,98,0 5,1,0,97,0.125 0,6,65,65,0 6,2,98,66,0 "
                         "0,7,0,100,0 7,1,97,97,2 4,0,0,-3,0 2,2,99,0,0 5,8,-1,-2,0 8,3,98,98,0 3,0 4,1.5 8,0");
    Words f;
    std::string w;
    while (ss >> w) f.push_back(w);
    Kind<TransExe>::op(*m, [&] { Words g = {"read"}; g.insert(g.end(), f.begin(), f.end()); return g; }(), f);
  }
  return *m;
}

template<> struct Kind<State> {
  static void op(State &s, const Words &f, Words &ret) {
    auto n = [&](size_t i) { return std::stoi(f[i]); };
    if (f[0] == "init") s.init(machine().getInitial());
    else if (f[0] == "step") s.step(n(1));
    else if (f[0] == "step2") s.step(n(1), n(2));
    else if (f[0] == "step3") s.step(n(1), n(2), n(3));
    else if (f[0] == "steps") s.step(n(1), std::set<int>{n(2), n(3)});
    else if (f[0] == "case") s.step_case(n(1), n(2));
    else if (f[0] == "careful") s.step_careful(n(1), n(2));
    else if (f[0] == "over") s.step_override(n(1), n(2), n(3));
    else if (f[0] == "optional") s.step_optional(n(1));
    else if (f[0] == "forbid") s.pruneStatesWithForbiddenSymbol(n(1));
    else if (f[0] == "has") ret.push_back(s.hasSymbol(n(1)) ? "y" : "n");
    else if (f[0] == "restart") { State i; i.init(machine().getInitial()); s.restartFinals(machine().getFinals(), n(1), &i, '+'); }
    else if (f[0] == "prune") s.pruneCompounds(n(1), '+', n(2), machine().getFinals());
    else if (f[0] == "merge") { State o; o.init(machine().getInitial()); o.step(n(1)); s.merge(o); ret.push_back(lookups(o, machine().getFinals())); }
  }
  static std::string see(State &s) { return lookups(s, machine().getFinals()); }
};

static void patterns(PatternList &p, const Words &f, size_t at)
{
  for (; at + 2 < f.size(); at += 3) p.insert(std::stoi(f[at]), us(f[at + 1] == "-" ? "" : f[at + 1]), us(f[at + 2]));
}

template<> struct Kind<PatternList> {
  static void op(PatternList &p, const Words &f, Words &ret) {
    if (f[0] == "add") patterns(p, f, 1);
    else if (f[0] == "list") for (auto &it : p.getPatterns()) {
      std::string r = std::to_string(it.first);
      for (int x : it.second) r += "," + std::to_string(x);
      ret.push_back(r);
    }
    else if (f[0] == "begin") p.beginSequence();
    else if (f[0] == "end") p.endSequence();
    else if (f[0] == "build") p.buildTransducer();
    else if (f[0] == "read" || f[0] == "deser") {
      PatternList q;
      patterns(q, f, 1);
      q.buildTransducer();
      if (f[0] == "read") readen(written([&](FILE *o) { q.write(o); }), [&](FILE *i) { p.read(i); });
      else { std::stringstream s; q.serialise(s); p.deserialise(s); }
    }
  }
  static std::string see(PatternList &p) {
    std::stringstream s;
    p.serialise(s);
    return hex(s.str());
  }
};

static std::string classes(MatchExe &m, MatchState &s)
{
  return std::to_string(s.size()) + ":" + std::to_string(s.classifyFinals(m.getFinals()));
}

// a MatchExe that can be made anew without copying it
struct Matcher {
  std::unique_ptr<MatchExe> p;
  Matcher() {}
  Matcher(const Matcher &m) { if (m.p) p.reset(new MatchExe(*m.p)); }
  Matcher &operator=(const Matcher &m) {
    if (p && m.p) *p = *m.p;
    else if (this != &m) p.reset(m.p ? new MatchExe(*m.p) : nullptr);
    return *this;
  }
};

template<> struct Kind<Matcher> {
  static MatchExe *made(const Words &f) {
    PatternList p;
    patterns(p, f, 1);
    p.buildTransducer();
    return p.newMatchExe();
  }
  static void op(Matcher &m, const Words &f, Words &) { if (f[0] == "make") m.p.reset(made(f)); }
  static std::string see(Matcher &x) {
    if (!x.p) return "nothing";
    MatchExe &m = *x.p;
    PatternList p;
    Alphabet &a = p.getAlphabet();
    int anyc = a(PatternList::ANY_CHAR), anyt = a(PatternList::ANY_TAG);
    std::string r = std::to_string(m.getFinals().size());
    for (auto w : {"aT", "bT", "abT", "aTT", "cT", "abcTTT", "a_T", "T", "aaaaT"}) {
      MatchState s;
      s.init(m.getInitial());
      for (const char *c = w; *c; c++) { if (*c == 'T') s.step(anyt); else s.step(*c, anyc); r += " " + classes(m, s); }
    }
    return r;
  }
};

static MatchExe &matcher()
{
  static MatchExe *m = nullptr;
  if (!m) m = Kind<Matcher>::made({"make", "3", "ab", "*", "1", "a*", "*", "2", "-", "*", "4", "*c", "*"});
  return *m;
}

template<> struct Kind<MatchState> {
  static void op(MatchState &s, const Words &f, Words &) {
    static PatternList p;
    int anyc = p.getAlphabet()(PatternList::ANY_CHAR), anyt = p.getAlphabet()(PatternList::ANY_TAG);
    if (f[0] == "init") s.init(matcher().getInitial());
    else if (f[0] == "step") s.step(std::stoi(f[1]));
    else if (f[0] == "any") s.step(std::stoi(f[1]), anyc);
    else if (f[0] == "tag") s.step(anyt);
    else if (f[0] == "clear") s.clear();
  }
  static std::string see(MatchState &s) { return classes(matcher(), s); }
};

template<> struct Kind<RegexpCompiler> {
  static void op(RegexpCompiler &c, const Words &f, Words &) {
    if (f[0] == "init") c.initialize(&common());
    else if (f[0] == "compile") {
      std::vector<int32_t> v;
      for (char16_t x : us(f[1])) v.push_back(x);
      c.initialize(&common());
      c.compile(v);
    } else if (f[0] == "one") c.getTransducer().oneOrMore(common()(0, 0));
  }
  static std::string see(RegexpCompiler &c) { return Kind<Transducer>::see(c.getTransducer()); }
};

template<> struct Kind<EntryToken> {
  static std::vector<int> ints(const std::string &s) { std::vector<int> r; for (char c : s) r.push_back(c); return r; }
  static void op(EntryToken &e, const Words &f, Words &) {
    if (f[0] == "par") e.setParadigm(us(f[1]));
    else if (f[0] == "single") e.setSingleTransduction(ints(f[1]), ints(f[2]), std::stod(f[3]));
    else if (f[0] == "re") e.setRegexp(UStringView(us(f[1])));
  }
  static std::string see(EntryToken &e) {
    std::string r = std::string(e.isParadigm() ? "p" : "") + (e.isSingleTransduction() ? "s" : "") + (e.isRegexp() ? "r" : "");
    if (e.isParadigm()) r += u8(e.paradigmName());
    if (e.isSingleTransduction()) {
      for (int x : e.left()) r += std::to_string(x) + ",";
      for (int x : e.right()) r += ";" + std::to_string(x);
      r += " " + std::to_string(e.entryWeight());
    }
    if (e.isRegexp()) for (int x : e.regExp()) r += std::to_string(x) + ",";
    return r;
  }
};

template<> struct Kind<Buffer<int>> {
  static void op(Buffer<int> &b, const Words &f, Words &ret) {
    if (f[0] == "add") for (int i = 0; i < std::stoi(f[1]); i++) b.add(std::stoi(f[2]) + i);
    else if (f[0] == "next") { if (!b.isEmpty()) ret.push_back(std::to_string(b.next())); }
    else if (f[0] == "back") b.back(std::stoi(f[1]));
  }
  static std::string see(Buffer<int> &b) {
    std::string r = b.isEmpty() ? "e" : "";
    Buffer<int> &c = b;
    size_t p = c.getPos();
    std::string s;
    int n = 0;
    while (!c.isEmpty()) { s += " " + std::to_string(c.next()); n++; }
    c.setPos(p);
    return r + std::to_string(n) + s;
  }
};

template<class T> int play()
{
  struct Var { T obj; Words ret; };
  std::map<int, std::unique_ptr<Var>> v;
  std::string line;
  while (std::getline(std::cin, line)) {
    Words f;
    std::stringstream ss(line);
    std::string w;
    while (ss >> w) f.push_back(w);
    int i = std::stoi(f[1]);
    if (f[0] == "n") v[i] = std::make_unique<Var>();
    else if (f[0] == "k") v[i] = std::make_unique<Var>(*v.at(std::stoi(f[2])));
    else if (f[0] == "a") { Var &x = *v.at(i), &y = *v.at(std::stoi(f[2])); x.obj = y.obj; if (&x != &y) x.ret = y.ret; }
    else if (f[0] == "c") {
      Var &x = *v.at(i), &y = *v.at(std::stoi(f[2]));
      if constexpr (std::is_same<T, State>::value) x.obj.copy(y.obj);
      x.ret = y.ret;
    }
    else if (f[0] == "d") v.erase(i);
    else if (f[0] == "o") {
      f.erase(f.begin(), f.begin() + 2);
      static const std::set<std::string> anew = {"read", "deser", "make", "init", "compile", "clear", "par", "single", "re"};
      if (anew.count(f[0])) v.at(i)->ret.clear();
      Kind<T>::op(v.at(i)->obj, f, v.at(i)->ret);
    } else if (f[0] == "q") {
      std::cout << Kind<T>::see(v.at(i)->obj);
      for (auto &x : v.at(i)->ret) std::cout << " " << x;
      std::cout << std::endl;
    }
  }
  return 0;
}

int main(int, char **argv)
{
  LtLocale::tryToSetLocale();
  std::string k = argv[1];
  if (k == "alphabet") return play<Alphabet>();
  if (k == "transducer") return play<Transducer>();
  if (k == "transexe") return play<TransExe>();
  if (k == "state") return play<State>();
  if (k == "patterns") return play<PatternList>();
  if (k == "matchexe") return play<Matcher>();
  if (k == "matchstate") return play<MatchState>();
  if (k == "regexp") return play<RegexpCompiler>();
  if (k == "token") return play<EntryToken>();
  if (k == "buffer") return play<Buffer<int>>();
  return 2;
}
