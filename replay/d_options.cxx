#include "drv.hxx"
#include <memory>
#include <cstring>
#include "Options.hxx"
using drv::Ctx; using drv::Rng; using drv::show; using drv::showl;
typedef std::vector<std::string> Vs;

// ---- the properties, written down once more ----
static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static Vs o_tokens(const std::string & s) {
  Vs t; std::string cur; bool q = false;
  for(char c : s) {
    if(c == '"') { if(q) { t.push_back(cur); cur.clear(); } q = !q; }
    else if(space(c) && !q) { if(!cur.empty()) { t.push_back(cur); cur.clear(); } }
    else cur += c;
  }
  if(!cur.empty()) t.push_back(cur);
  return t;
}
static std::string o_squash(const std::string & s) {
  std::string r; bool p = false;
  for(char c : s) { if(c == ' ') p = true; else { if(p && !r.empty()) r += ' '; p = false; r += c; } }
  return r;
}
static Vs o_commas(const std::string & s0) {
  std::string s = o_squash(s0); Vs p(1);
  for(char c : s) { if(c == ',') p.push_back(""); else p.back() += c; }
  if(p.back().empty()) p.pop_back();
  return p;
}
static Vs o_kvtokens(const Vs & items) {
  Vs t;
  for(auto & i0 : items) { std::string i = o_squash(i0); if(i.empty()) continue; size_t e = i.find('='); t.push_back("--" + i.substr(0, e)); if(e != std::string::npos) t.push_back(i.substr(e + 1)); }
  return t;
}
enum Ty { INT, UNS, LNG, DBL, STR, BOOL };
static const char * TN[] = {"int", "unsigned", "long", "double", "string", "bool"};
enum Kind { SCALAR, VECTOR, FLAG };
template <class T> static bool o_conv(const std::string & s, T & v) { std::istringstream i(s); i >> v; return !i.fail(); }
template <> bool o_conv(const std::string & s, std::string & v) { v = s; return true; }
template <> bool o_conv(const std::string & s, bool & v) {
  if(!s.empty() && (s[0] == 'T' || s[0] == 't')) { v = true; return true; }
  if(!s.empty() && (s[0] == 'F' || s[0] == 'f')) { v = false; return true; }
  int n; if(!o_conv<int>(s, n)) return false;
  v = n != 0; return true;
}
struct Opt {
  std::string name; char ab; Kind kind; Ty ty; bool dflt, test;
  bool present = false, dirty = false;
  Opt(const std::string & n, char a, Kind k, Ty t, bool d, bool tst) : name(n), ab(a), kind(k), ty(t), dflt(d), test(tst) {}
  virtual ~Opt() {}
  bool sgn() const { return kind != FLAG && (ty == INT || ty == LNG || ty == DBL); }
  bool hasdef() const { return kind != SCALAR || dflt; }
  virtual void reg(SoDa::Options & o) = 0;
  virtual bool set(const std::string & s) = 0;     // model: false if rejected
  virtual void mark() { present = true; }
  virtual std::string expect() = 0;
  virtual std::string actual() = 0;
  virtual std::string testdiff() { return ""; }
  virtual void poke(Rng & r) = 0;                  // the program itself writes to the variable
  std::string descr() const { return std::string(kind == FLAG ? "presence" : kind == VECTOR ? "vector " : "") + (kind == FLAG ? "" : TN[ty]) + (kind == SCALAR ? dflt ? " with default" : " without default" : "") + (test ? " with test" : "") + " --" + name + " -" + ab; }
};
template <class T> std::string sv(const T & v) { return drv::str(v); }
template <> std::string sv(const std::string & v) { return show(v); }
template <> std::string sv(const double & v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
template <class T> bool o_test(const T & v) { return v != T(7); }
template <> bool o_test(const std::string & v) { return v != "bad" && v != "-b"; }
template <> bool o_test(const bool & v) { return v; }
template <class T> T o_def(int k);
template <> int o_def(int k) { return k - 2; }
template <> unsigned o_def(int k) { return k; }
template <> long o_def(int k) { return 3000000000L * k; }
template <> double o_def(int k) { return k * 0.5 - 1; }
template <> std::string o_def(int k) { return k ? std::string(k, 'd') : ""; }
template <> bool o_def(int k) { return k & 1; }
template <class T> struct OptT : Opt {
  T var; std::vector<T> vec; T mvar; std::vector<T> mvec; T d; std::vector<T> seen, mseen; bool via_add6;
  OptT(const std::string & n, char a, Kind k, Ty t, bool df, bool tst, int dk) : Opt(n, a, k, t, df, tst), var(o_def<T>(3)), d(o_def<T>(dk)) {
    if(k == VECTOR && dk) { vec.push_back(d); mvec = vec; }
    mvar = df ? d : T();
  }
  void reg(SoDa::Options & o) override {
    std::function<bool(T)> f = [this](T v) { seen.push_back(v); return o_test<T>(v); };
    if(kind == VECTOR) { if(test) o.addV<T>(&vec, name, ab, "doc", f, "bad"); else o.addV<T>(&vec, name, ab); }
    else if(dflt) { if(test) o.add<T>(&var, name, ab, d, "doc", f, "bad"); else o.add<T>(&var, name, ab, d, std::string("doc")); }
    else { if(test) o.add<T>(&var, name, ab, std::string("doc"), f, std::string("bad")); else o.add<T>(&var, name, ab); }
  }
  bool set(const std::string & s) override {
    T v{};
    if(!o_conv<T>(s, v)) { if(kind == SCALAR) dirty = true; return false; }
    if(test) { mseen.push_back(v); if(!o_test<T>(v)) { if(kind == SCALAR) dirty = true; return false; } }
    if(kind == VECTOR) mvec.push_back(v); else { mvar = v; dirty = false; }
    present = true; return true;
  }
  void poke(Rng & r) override { T x = o_def<T>((int) r.below(4)); if(kind == VECTOR) { vec.push_back(x); mvec.push_back(x); } else if(!dirty) var = mvar = x; }
  static std::string vs(const std::vector<T> & v) { std::string r = "["; for(size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + sv<T>(v[i]); return r + "]"; }
  std::string expect() override { return kind == VECTOR ? vs(mvec) : sv<T>(mvar); }
  std::string actual() override { return kind == VECTOR ? vs(vec) : sv<T>(var); }
  std::string testdiff() override {
    auto u = [](std::vector<T> v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
    std::string a = vs(u(mseen)), b = vs(u(seen));
    return a == b ? "" : "expected " + a + ", got " + b;
  }
};
struct OptF : Opt {
  bool var = true, mvar = false;
  OptF(const std::string & n, char a) : Opt(n, a, FLAG, BOOL, false, false) {}
  void reg(SoDa::Options & o) override { o.addP(&var, name, ab, "doc"); }
  bool set(const std::string &) override { mark(); return true; }
  void mark() override { mvar = true; present = true; }
  void poke(Rng & r) override { var = mvar = r.chance(60); }
  std::string expect() override { return mvar ? "true" : "false"; }
  std::string actual() override { return var ? "true" : "false"; }
};
static Opt * mk(const std::string & n, char a, Kind k, Ty t, bool d, bool tst, int dk) {
  if(k == FLAG) return new OptF(n, a);
  switch(t) {
    case INT: return new OptT<int>(n, a, k, t, d, tst, dk);
    case UNS: return new OptT<unsigned>(n, a, k, t, d, tst, dk);
    case LNG: return new OptT<long>(n, a, k, t, d, tst, dk);
    case DBL: return new OptT<double>(n, a, k, t, d, tst, dk);
    case STR: return new OptT<std::string>(n, a, k, t, d, tst, dk);
    default: if(k == VECTOR) k = SCALAR; return new OptT<bool>(n, a, k, t, d, tst, dk);
  }
}
struct Set {
  std::vector<std::unique_ptr<Opt>> o; Vs pos; bool trailing = false; std::string why;
  Opt * by(const std::string & n) { for(auto & x : o) if(x->name == n) return x.get(); return nullptr; }
  Opt * by(char a) { for(auto & x : o) if(x->ab == a) return x.get(); return nullptr; }
  // the model of one parse
  bool parse(const Vs & t) {
    Opt * cur = nullptr; trailing = false; why = "";
    for(auto & k : t) {
      bool must = cur && (!cur->hasdef() || cur->sgn());
      int sw = must || k.size() < 2 || k[0] != '-' ? 0 : k[1] != '-' ? 1 : k.size() > 2 ? 2 : 0;
      if(!sw) {
        if(cur) { if(!cur->set(k)) { why = "value " + show(k) + " of --" + cur->name; return false; } cur = nullptr; }
        else pos.push_back(k);
        continue;
      }
      if(cur) cur->mark();
      cur = nullptr;
      if(sw == 1 ? k[1] == 'h' : k == "--help") { why = "help"; return false; }
      cur = sw == 1 ? by(k[1]) : by(k.substr(2));
      if(!cur) { why = "unknown switch " + show(k); return false; }
      if(cur->kind == FLAG) { cur->mark(); cur = nullptr; }
    }
    trailing = cur != nullptr;
    return true;
  }
};
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };

// ---- generators ----
static const Vs NAMES = {"a", "bb", "count", "no-x", "c", "name with", "count2", "x=y", "5", "", "1.5", "-q", "helpme"};
static const std::string ABS = "abcxn5.=qzh";
static void build(Set & s, Rng & r, int n, uint64_t shape, const std::string & abs, const Vs & names) {
  Rng q(shape);
  for(int i = 0; i < n; i++) {
    Kind k = q.chance(20) ? FLAG : q.chance(30) ? VECTOR : SCALAR; Ty t = (Ty) q.below(6);
    bool d = q.chance(60), tst = q.chance(30); int dk = (int) q.below(4);
    s.o.emplace_back(mk(names[i], abs[i], k, t, d, tst, dk));
  }
  (void) r;
}
static std::string pickval(Rng & r, Opt * o) {
  static const Vs any = {"3", "-5", "0", "abc", "", "7", "-x", "--", "-", "TRUE", "f", "2.5", "-1e3", "7up", " 4", "tuna", "+6", "99999999999", "-0", "1", "bad", "T", "False", "0x10", "-b"};
  static const Vs num = {"3", "-5", "0", "12", "-1", "2147483647", "1", "+6", "42", "-0"};
  if(o && r.chance(75)) {
    switch(o->ty) {
      case INT: case LNG: return r.pick(num);
      case UNS: return drv::str(r.below(50));
      case DBL: return r.chance(50) ? r.pick(num) : drv::str(r.range(-100, 100) * 0.25);
      case BOOL: { static const Vs b = {"T", "true", "f", "FALSE", "1", "0", "2", "-1", "t", "F"}; return r.pick(b); }
      default: { static const Vs b = {"abc", "two words", "", "x=1", "a,b", "q\"q", "-", "longer value"}; return r.pick(b); }
    }
  }
  return r.pick(any);
}
static Vs gentokens(Set & s, Rng & r, int maxn) {
  Vs t; int n = (int) r.below(maxn + 1);
  while((int) t.size() < n) {
    int w = (int) r.below(100);
    if(w < 60 && !s.o.empty()) {
      Opt * o = s.o[r.below(s.o.size())].get();
      if(r.chance(50) || o->ab == 0) t.push_back("--" + o->name); else { t.push_back(std::string("-") + o->ab); if(r.chance(15)) t.back() += r.chance(50) ? "zz" : "5"; }
      if(o->kind == FLAG ? r.chance(25) : r.chance(85)) t.push_back(pickval(r, o->kind == FLAG ? nullptr : o));
    }
    else if(w < 85) t.push_back(pickval(r, nullptr));
    else if(w < 95) { static const Vs p = {"fred", "john", "x-y", "a=b", "--", "-", "", "two words"}; t.push_back(r.pick(p)); }
    else if(w < 97) { static const Vs p = {"--unk", "-u", "--count=3", "--cou"}; t.push_back(r.pick(p)); }
    else if(w < 98) { static const Vs p = {"--help", "-h", "-hx"}; t.push_back(r.pick(p)); }
    else t.push_back(std::string(r.below(40), 'w'));
  }
  return t;
}
// boolean options given the empty text are left out (unspecified)
static bool unspecified(Set & s, const Vs & t) {
  for(size_t i = 0; i < t.size(); i++) if(t[i].empty()) for(auto & o : s.o) if(o->ty == BOOL && o->kind == SCALAR) return true;
  return false;
}
static bool call(SoDa::Options & o, int form, const Vs & t, const std::string & text) {
  if(form == 0) return o.parse(std::list<std::string>(t.begin(), t.end()));
  if(form == 1) return o.parse(text);
  if(form == 3) return o.parseKeyValue(text);
  if(form == 4) return o.parseKeyValue(std::list<std::string>(t.begin(), t.end()));
  std::vector<std::vector<char>> st; std::vector<char *> av;
  st.push_back({'p', 0}); for(auto & x : t) { st.emplace_back(x.begin(), x.end()); st.back().push_back(0); }
  for(auto & x : st) av.push_back(x.data());
  av.push_back(nullptr);
  return o.parse((int) t.size() + 1, av.data());
}
static std::string quoted(const Vs & t, Rng & r) {
  std::string s; static const Vs sp = {" ", "  ", "\t", "\n", " \r\v\f"};
  for(auto & x : t) { s += r.pick(sp); bool q = x.empty(); for(char c : x) q |= space(c); if(q || r.chance(10)) s += "\"" + x + "\""; else s += x; }
  if(r.chance(30)) s += " ";
  return s;
}

static const char TA[] = {' ', 'a', '"', '\t'};
static const uint64_t NTOK = 1 + 4 + 16 + 64 + 256 + 1024 + 4096 + 16384;
uint64_t drv_enumerated(const std::string & pid) { return pid == "O01" ? NTOK : 0; }
static std::string nth(uint64_t n) {
  uint64_t l = 0, b = 1; while(n >= b) { n -= b; b *= 4; l++; }
  std::string s; for(uint64_t i = 0; i < l; i++) { s += TA[n % 4]; n /= 4; }
  return s;
}
static void compare(const std::string & pid, Ctx & c, Set & s, SoDa::Options & o) {
  if(pid == "O02" || pid == "O03" || pid == "O04") {
    const auto & p = o.getPosArgs();
    if(p != s.pos) c.fail("positional arguments " + showl(s.pos), showl(p));
  }
  if(pid == "O04") {
    c.eq("numPosArgs()", (int) s.pos.size(), o.numPosArgs());
    for(int i = 0; i < (int) s.pos.size() + 3; i++) c.eqs("getPosArg(" + drv::str(i) + ")", i < (int) s.pos.size() ? s.pos[i] : "", o.getPosArg(i));
    c.eqs("getPosArg(INT_MAX)", "", o.getPosArg(2147483647));
    for(auto & x : s.o) {
      c.eq("isPresent(" + show(x->name) + ")", x->present, o.isPresent(x->name));
      c.eq(std::string("isPresent('") + x->ab + "')", x->present, o.isPresent(x->ab));
    }
    for(auto & n : NAMES) if(!s.by(n)) c.eq("isPresent(unregistered " + show(n) + ")", false, o.isPresent(n));
    for(char a : ABS) if(!s.by(a)) c.eq(std::string("isPresent(unregistered '") + a + "')", false, o.isPresent(a));
  }
  if(pid == "O02" || pid == "O03" || pid == "O06") for(auto & x : s.o) if(!x->dirty && (pid == "O06" || x->kind == FLAG || (x->ty != BOOL && x->ty != DBL))) {
    c.eqs("the variable of --" + x->name, x->expect(), x->actual());
    if(pid == "O06") { std::string d = x->testdiff(); if(!d.empty()) c.fail("the test of --" + x->name + " sees the converted values", d); }
  }
}
void drv_case(const std::string & pid, Ctx & c, Rng & r, uint64_t n) {
  static NullBuf nb; std::cerr.rdbuf(&nb);
  Set s;
  if(pid == "O01") {
    SoDa::Options o; Vs t; std::string d;
    bool av = n >= NTOK && r.chance(20);
    if(av) {
      size_t k = r.below(6);
      for(size_t i = 0; i < k; i++) { static const Vs w = {"", "a", "two words", "\"q\"", " lead", "x-y", "tab\tbed", "--", "-", "long long long long argument"}; t.push_back(r.pick(w)); }
      c.say("parse(argc = " + drv::str(t.size() + 1) + ", program name and " + showl(t) + ")");
      bool ok;
      if(t.empty() && r.chance(50)) { char * none[] = {nullptr}; c.more(" with argc 0"); ok = o.parse(0, none); } else ok = call(o, 2, t, "");
      c.eq("result", true, ok);
    } else {
      std::string x;
      if(n < NTOK) x = nth(n);
      else { static const std::string al = "  \"\"ab c\t\n,.=\\'x\r\v\f-"; size_t k = r.chance(3) ? r.below(2000) : r.below(40); for(size_t i = 0; i < k; i++) x += al[r.below(al.size())]; if(r.chance(20)) x += std::string("\xff\x80\0 q", 5); }
      t = o_tokens(x);
      for(auto & k : t) if(k.size() > 1 && k[0] == '-' && k != "--") return;
      c.say("parse(" + show(x) + ")");
      c.eq("result", true, o.parse(x));
    }
    if(o.getPosArgs() != t) c.fail("tokens " + showl(t), showl(o.getPosArgs()));
    return;
  }
  Vs names = NAMES; std::string abs = ABS;
  for(size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[r.below(i)]);
  for(size_t i = abs.size(); i > 1; i--) std::swap(abs[i - 1], abs[r.below(i)]);
  if(pid == "O06") {
    uint64_t shape = r.next(); build(s, r, 1 + (int) r.below(3), shape, abs, names);
    SoDa::Options o; std::string d = "options: ";
    for(auto & x : s.o) { d += x->descr() + "; "; x->reg(o); }
    c.say(d);
    for(auto & x : s.o) c.eqs("after registration, the variable of --" + x->name, x->expect(), x->actual());
    int k = 1 + (int) r.below(5);
    while(k--) {
      Opt * x = s.o[r.below(s.o.size())].get();
      Vs t = {"--" + x->name};
      if(x->kind != FLAG) t.push_back(pickval(r, x));
      if(unspecified(s, t)) continue;
      if(t[0] == "--" || t[0] == "--help") continue;
      if(r.chance(10)) { c.more("\nthe program writes to the variable of --" + x->name); x->poke(r); }
      Set * m = &s; bool e = m->parse(t);
      if(m->trailing) { if(!e) return; continue; }
      c.more("\nparse(" + showl(t) + ")");
      bool got = call(o, 0, t, "");
      c.eq("result", e, got);
      compare(pid, c, s, o);
    }
    return;
  }
  int no = (int) r.below(6); uint64_t shape = r.next();
  build(s, r, no, shape, abs, names);
  if(pid == "O05") {
    // the same options twice: key=value form against the token form, both on the real code
    Set s2; build(s2, r, no, shape, abs, names);
    bool obj = r.chance(50);
    SoDa::Options o1(obj), o2;
    std::string d = "options: ";
    for(auto & x : s.o) { d += x->descr() + "; "; x->reg(o1); }
    for(auto & x : s2.o) x->reg(o2);
    c.say(d);
    int k = 1 + (int) r.below(3);
    while(k--) {
      Vs items; size_t ni = r.below(5);
      for(size_t i = 0; i < ni; i++) {
        std::string it; Opt * x = no && r.chance(85) ? s.o[r.below(no)].get() : nullptr;
        if(r.chance(10)) it = r.chance(50) ? "" : "  ";
        else {
          it = x ? x->name : r.chance(50) ? "unk" : "";
          if(r.chance(3)) it = (r.chance(50) ? "--" : "-") + it;
          if(r.chance(15)) it = " " + it; if(r.chance(8)) it += " ";
          if(r.chance(88)) { it += "="; if(r.chance(10)) it += " "; it += pickval(r, x && x->kind != FLAG ? x : nullptr); if(r.chance(8)) it += "=" + pickval(r, nullptr); if(r.chance(10)) it += "  "; }
          if(r.chance(4)) it = "=" + it;
        }
        items.push_back(it);
      }
      int form = r.chance(50) ? 3 : 4; std::string text; Vs its = items;
      if(form == 3) { for(size_t i = 0; i < items.size(); i++) text += (i ? "," : "") + items[i]; if(r.chance(5)) text += ","; if(r.chance(3)) text = r.chance(50) ? "" : "   "; its = o_commas(text); }
      Vs t = o_kvtokens(its);
      if(unspecified(s, t)) continue;
      int how = form; if(obj && r.chance(60)) how = form == 3 ? 1 : 2;
      if(how == 2) for(auto & x : items) if(x.find('\0') != std::string::npos) how = 4;
      c.more(std::string("\n") + (how == 1 ? "parse" : how == 2 ? "parse(argc, argv) of " : "parseKeyValue") + (form == 3 ? "(" + show(text) + ")" : "(" + showl(items) + ")") + (obj ? " on a key=value object" : ""));
      bool got = call(o1, how, items, text);
      bool e = form == 3 && o_squash(text).empty() ? false : call(o2, 0, t, "");
      std::string w = " (as the tokens " + showl(t) + ")";
      if(got != e) c.fail("result " + std::string(e ? "true" : "false") + w, got ? "true" : "false");
      if(o1.getPosArgs() != o2.getPosArgs()) c.fail("positional " + showl(o2.getPosArgs()) + w, showl(o1.getPosArgs()));
      for(int i = 0; i < no; i++) {
        if(s.o[i]->actual() != s2.o[i]->actual()) c.fail("variable of --" + s.o[i]->name + " = " + s2.o[i]->actual() + w, s.o[i]->actual());
        if(o1.isPresent(s.o[i]->name) != o2.isPresent(s.o[i]->name)) c.fail("same presence of --" + s.o[i]->name + w, "different");
      }
    }
    return;
  }
  SoDa::Options o; std::string d = "options: ";
  for(auto & x : s.o) { d += x->descr() + "; "; x->reg(o); }
  c.say(d);
  if(pid == "O04") { c.more("\nbefore any parse"); compare(pid, c, s, o); }
  int k = 1 + (int) r.below(4);
  while(k--) {
    Vs t; int form = 0; bool e = false; std::string text;
    // keep the model state if the drawn call is to be left out
    for(int tries = 0; ; tries++) {
      if(tries > 30) return;
      t = gentokens(s, r, r.chance(5) ? 40 : 8);
      if(unspecified(s, t)) continue;
      form = r.chance(60) ? 0 : r.chance(50) ? 1 : 2;
      if(form == 1) { for(auto & x : t) for(char & q : x) if(q == '"') q = '\''; text = quoted(t, r); }
      // dry run on a copy
      Set dry; build(dry, r, no, shape, abs, names);
      e = dry.parse(t);
      if(dry.trailing && pid != "O03") continue;
      if(!e && pid == "O02" && r.chance(80)) continue;
      break;
    }
    if(!s.o.empty() && r.chance(30)) { Opt * x = s.o[r.below(s.o.size())].get(); c.more("\nthe program writes to the variable of --" + x->name); x->poke(r); }
    s.parse(t);
    c.more("\nparse(" + (form == 1 ? show(text) : (form == 2 ? "argc, argv: " : "") + showl(t)) + ")" + (s.why.empty() ? "" : "   [" + s.why + "]"));
    bool got;
    try { got = call(o, form, t, text); }
    catch(std::exception & x) { c.fail("no exception escapes", std::string("exception: ") + x.what()); return; }
    if(pid == "O02" && !e) { if(got) c.fail("result 0", "result 1"); return; }   // O02 is about successful parses
    c.eq("result", e, got);
    compare(pid, c, s, o);
    if(pid == "O02") for(auto & x : s.o) c.eq("isPresent(" + show(x->name) + ")", x->present, o.isPresent(x->name));
    c.sh->beat = c.sh->beat + 1;
  }
}
