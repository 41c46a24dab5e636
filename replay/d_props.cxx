#include "drv.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include "Utils.hxx"
#include <sstream>
using drv::Ctx; using drv::Rng;
typedef SoDa::PropertyTree::PropNode PN;
typedef std::string S;

// ---- reference model of a tree
struct M { S text; bool leaf = false; std::vector<M> items; std::map<S, M> kids; };
struct Tree : SoDa::PropertyTree {
  void readFile(const S &) {}
  void writeFile(const S &) {}
  PN * top() { return root; }
};
struct YTree : SoDa::PropertyTreeYAML {
  YTree() {}
  explicit YTree(const S & f) : SoDa::PropertyTreeYAML(f) {}
  PN * top() { return root; }
};
static const std::vector<S> KEYS = {"a", "b", "c", "ab", "a b", "A", "", " a", "a  b", "x.y", "7", "k-1", "\xc3\xa9"};
static const std::vector<S> TEXTS = {"0", "7", "-1", "42", "3.5", "1e3", "hello", "two words", "", " 12", "12abc", "abc12", "0x1f", "-0", "4294967296", "-5 6", "99999999999999999999", "1e400", "true", "1", "2147483648", "\t8", "+9", ".5", "x", "inf", "true 1", "-2147483649", "9223372036854775808", "00012", "1.", "1e", "c"};
static M rndm(Rng & r, int d) {
  M m; m.leaf = d == 0 || r.chance(40);
  if(m.leaf || r.chance(20)) m.text = r.pick(TEXTS);
  if(!m.leaf) {
    for(size_t k = r.below(4); k > 0; k--) m.kids[r.pick(KEYS)] = rndm(r, d - 1);
    for(size_t k = r.below(3); k > 0; k--) m.items.push_back(rndm(r, d - 1));
  }
  return m;
}
static void build(PN * n, const M & m) {
  n->val_string = m.text; n->is_terminal = m.leaf;
  for(auto & k : m.kids) { PN * c = new PN(n, "", false); n->dictionary[k.first] = c; build(c, k.second); }
  for(auto & i : m.items) { PN * c = new PN(n, "", false); n->prop_list.push_back(c); build(c, i); }
}
static S show(const M & m) {
  S r = m.leaf ? drv::show(m.text) : "{";
  if(m.leaf) return r;
  if(!m.text.empty()) r += "text " + drv::show(m.text) + ", ";
  for(auto & k : m.kids) r += drv::show(k.first) + ": " + show(k.second) + ", ";
  r += "items ["; for(auto & i : m.items) r += show(i) + ", ";
  return r + "]}";
}
// the real tree below n equals the model; parents: every node below n has the node it hangs on as its parent
static void same(Ctx & c, PN * n, const M & m, const S & at, bool parents) {
  c.eqs("text of " + at, m.text, n->val_string);
  c.eq("terminal flag of " + at, m.leaf, n->is_terminal);
  std::list<S> ks = n->getKeys(); std::vector<S> got(ks.begin(), ks.end()), exp;
  for(auto & k : m.kids) exp.push_back(k.first);
  if(got != exp) c.fail("keys of " + at + " = " + drv::showl(exp), "keys of " + at + " = " + drv::showl(got));
  std::list<PN *> l = n->getList();
  c.eq("number of items of " + at, m.items.size(), l.size());
  size_t k = 0;
  for(PN * x : l) {
    S w = at + "[" + std::to_string(k) + "]";
    c.check(x != nullptr, w + " is a node", "null");
    if(parents) c.check(x->parent == n, "parent of " + w + " is the node it was added to", "another parent");
    same(c, x, m.items[k++], w, parents);
  }
  for(auto & kv : m.kids) {
    auto it = n->dictionary.find(kv.first);
    S w = at + "/" + kv.first;
    c.check(it != n->dictionary.end() && it->second != nullptr, w + " is a node", "missing");
    if(parents) c.check(it->second->parent == n, "parent of " + w + " is the node it was added to", "another parent");
    same(c, it->second, kv.second, w, parents);
  }
}
// all the nodes, to see that a lookup changes nothing
static void dumpn(PN * n, S & o) {
  if(!n) { o += "null"; return; }
  o += "(" + drv::show(n->val_string) + (n->is_terminal ? "t" : "") + std::to_string((size_t) n) + "^" + std::to_string((size_t) n->parent);
  for(auto & k : n->dictionary) { o += drv::show(k.first) + ":"; dumpn(k.second, o); }
  o += "|";
  for(auto x : n->prop_list) dumpn(x, o);
  o += ")";
}
// the path cut as the split of the library is specified (spaces squashed, a trailing empty part dropped)
static std::vector<S> cut(const S & p) {
  S s; bool gap = false;
  for(char ch : p) { if(ch == ' ') gap = true; else { if(gap && !s.empty()) s += ' '; gap = false; s += ch; } }
  std::vector<S> v(1);
  for(char ch : s) { if(ch == ':') v.push_back(""); else v.back() += ch; }
  if(v.back().empty()) v.pop_back();
  return v;
}
static S rpath(Rng & r, PN * n) {
  S p; int d = 0;
  for(; d < 6; d++) {
    if(r.chance(25)) break;
    S k;
    if(n && !n->dictionary.empty() && !r.chance(12)) { auto it = n->dictionary.begin(); std::advance(it, r.below(n->dictionary.size())); k = it->first; n = it->second; }
    else { k = r.pick(KEYS); n = nullptr; }
    if(d) p += ":";
    p += k;
  }
  if(r.chance(6)) p += ":";
  if(r.chance(4)) p = " " + p + "  ";
  return p;
}
static PN * walk(PN * n, const std::vector<S> & v) {
  for(auto & k : v) { auto it = n->dictionary.find(k); if(it == n->dictionary.end()) return nullptr; n = it->second; }
  return n;
}
static PN * anynode(Rng & r, PN * n) {
  while(!r.chance(60)) {
    std::vector<PN *> v; for(auto & k : n->dictionary) v.push_back(k.second);
    for(auto x : n->prop_list) v.push_back(x);
    if(v.empty()) break;
    n = r.pick(v);
  }
  return n;
}
static S id(PN * a) { return a ? "the node with text " + drv::show(a->val_string) + " at " + std::to_string((size_t) a) : "null"; }

static void p01(Ctx & c, Rng & r) {
  Tree t; M m = rndm(r, 1 + r.below(4)); m.leaf = false; build(t.top(), m);
  PN * n = r.chance(70) ? t.top() : anynode(r, t.top());
  S p = rpath(r, n);
  c.say("tree " + show(m) + "; lookup of " + drv::show(p) + " from " + (n == t.top() ? S("the top") : id(n)));
  S before, after; dumpn(t.top(), before);
  PN * e = walk(n, cut(p));
  for(int thr = 0; thr < 2; thr++) {
    PN * g = nullptr; S ex;
    const S arg = p;
    try { g = thr ? n->getProp(arg, true) : n->getProp(arg, false); }
    catch(PN::PropertyNotFound & x) { ex = "PropertyNotFound"; }
    catch(std::exception & x) { ex = S("exception ") + x.what(); }
    S want = e ? id(e) : thr ? S("PropertyNotFound") : S("null");
    S got = ex.empty() ? id(g) : ex;
    if(want != got) c.fail(want, got);
    c.eqs("the path argument", p, arg);
  }
  try { PN * g = n->getProp(p); if(g != e) c.fail(id(e), id(g)); } catch(std::exception & x) { c.fail("no exception unless asked for", x.what()); }
  same(c, n, [&]() { std::function<M(PN *)> f = [&](PN * x) { M q; q.text = x->val_string; q.leaf = x->is_terminal; for(auto & k : x->dictionary) q.kids[k.first] = f(k.second); for(auto y : x->prop_list) q.items.push_back(f(y)); return q; }; return f(n); }(), "node", false);
  // the lists are copies: changing them does not change the tree
  { auto l = n->getList(); std::vector<PN *> a(l.begin(), l.end()), b(n->prop_list.begin(), n->prop_list.end()); c.check(a == b, "getList() is the item list", "another list"); l.clear(); auto k = n->getKeys(); k.clear(); }
  dumpn(t.top(), after);
  if(before != after) c.fail("the tree is unchanged: " + before.substr(0, 2000), after.substr(0, 2000));
}
template <class T> static bool eqv(const T & a, const T & b) { return a == b; }
template <> bool eqv<double>(const double & a, const double & b) { return a == b || (a != a && b != b); }
template <class T> static void typed(Ctx & c, Rng & r, Tree & t, PN * n, const S & p, const T & init) {
  PN * e = walk(t.top(), cut(p));
  for(int k = 0; k < 5; k++) {
    // 0: tree, no exception (default); 1: tree, false; 2: tree, true; 3: node, default/false; 4: node, true
    PN * x = k < 3 ? e : n; bool thr = k == 2 || k == 4;
    T v = init, w = init; S ex; bool ok = false, wok = false;
    if(x) { std::istringstream ss(x->val_string); ss >> w; wok = !ss.fail(); }
    try {
      switch(k) {
        case 0: ok = t.get(v, p); break;
        case 1: ok = t.get(v, p, false); break;
        case 2: ok = t.get(v, p, true); break;
        case 3: ok = n->get(v); break;
        default: ok = n->get(v, true);
      }
    }
    catch(PN::PropertyNotFound &) { ex = "PropertyNotFound"; }
    catch(PN::BadPropertyType &) { ex = "BadPropertyType"; }
    catch(std::exception & q) { ex = S("exception ") + q.what(); }
    S want = wok ? S("true") : !thr ? S("false") : x ? S("BadPropertyType") : S("PropertyNotFound");
    S got = !ex.empty() ? ex : ok ? S("true") : S("false");
    S form = k < 3 ? S("tree read") : S("node read");
    if(want != got) c.fail(form + (thr ? " with exceptions: " : ": ") + want, got);
    if(wok && !eqv(v, w)) c.fail(form + " delivers " + drv::str(w), drv::str(v));
  }
}
static void p02(Ctx & c, Rng & r) {
  Tree t; M m = rndm(r, 1 + r.below(3)); m.leaf = false; build(t.top(), m);
  PN * n = anynode(r, t.top()); S p = rpath(r, t.top());
  int ty = r.below(8);
  static const char * const TN[] = {"int", "unsigned", "long", "double", "string", "bool", "char", "float"};
  c.say("tree " + show(m) + "; read of " + drv::show(p) + " and of the node with text " + drv::show(n->val_string) + " as " + TN[ty]);
  S before, after; dumpn(t.top(), before);
  switch(ty) {
    case 0: typed<int>(c, r, t, n, p, -77); break;
    case 1: typed<unsigned>(c, r, t, n, p, 77); break;
    case 2: typed<long>(c, r, t, n, p, -77); break;
    case 3: typed<double>(c, r, t, n, p, -7.5); break;
    case 4: typed<S>(c, r, t, n, p, "before"); break;
    case 5: typed<bool>(c, r, t, n, p, r.chance(50)); break;
    case 6: typed<char>(c, r, t, n, p, '~'); break;
    default: typed<float>(c, r, t, n, p, -7.5f);
  }
  dumpn(t.top(), after);
  if(before != after) c.fail("the tree is unchanged: " + before.substr(0, 2000), after.substr(0, 2000));
}
// ---- P03: a document, its YAML text and the tree it stands for
struct D { int kind = 0; S text; std::vector<std::pair<S, D>> map; std::vector<D> seq; };   // 0 scalar, 1 map, 2 sequence
static const std::vector<S> YK = {"a", "b", "c", "dd", "e f", "key", "Key", "k9", "12", "true", "null", "x-y", "", "a:b", "#h", "~", "-"};
static const std::vector<S> YTXT = {"0", "v", "two words", "12", "3.5", "true", "null", "", "~", "  padded ", "a: b", "# no", "- x", "line\nbreak", "tab\there", "\"q\"", "it's", "[1, 2]", "{a}", "*x", "&y", "|", "\\", "\xc3\xa9", "0x10", "%", "@", "a#b", "verylongtextverylongtextverylongtextverylongtext"};
static D rdoc(Rng & r, int d, int kind) {
  D x; x.kind = kind;
  if(kind == 0) x.text = r.pick(YTXT);
  size_t n = r.chance(3) ? 20 : r.below(5);
  auto sub = [&]() { return d == 0 ? 0 : (int) r.below(10) < 4 ? 0 : r.chance(50) ? 1 : 2; };
  if(kind == 1) {
    std::vector<S> ks = YK; std::set<S> used;
    for(size_t i = 0; i < n; i++) { S k = n > 10 ? "k" + std::to_string(i) : r.pick(ks); if(!used.insert(k).second) continue; x.map.push_back({k, rdoc(r, d - 1, sub())}); }
  }
  if(kind == 2) for(size_t i = 0; i < n; i++) x.seq.push_back(rdoc(r, d - 1, d > 0 && r.chance(40) ? 1 : 0));
  return x;
}
static S quoted(Rng & r, const S & s) {
  bool plain = !s.empty();
  for(char ch : s) if(!isalnum((unsigned char) ch)) plain = false;
  static const std::set<S> SP = {"null", "Null", "NULL"};
  if(plain && !SP.count(s) && !r.chance(30)) return s;
  bool ctl = false; for(char ch : s) if((unsigned char) ch < 32) ctl = true;
  if(!ctl && r.chance(40)) { S q = "'"; for(char ch : s) { if(ch == '\'') q += "''"; else q += ch; } return q + "'"; }
  S q = "\"";
  for(char ch : s) { if(ch == '"' || ch == '\\') { q += '\\'; q += ch; } else if(ch == '\n') q += "\\n"; else if(ch == '\t') q += "\\t"; else q += ch; }
  return q + "\"";
}
static S flow(Rng & r, const D & d) {
  if(d.kind == 0) return quoted(r, d.text);
  S o = d.kind == 1 ? "{" : "[";
  bool f = true;
  if(d.kind == 1) for(auto & k : d.map) { if(!f) o += ", "; f = false; o += quoted(r, k.first) + ": " + flow(r, k.second); }
  else for(auto & k : d.seq) { if(!f) o += ", "; f = false; o += flow(r, k); }
  return o + (d.kind == 1 ? "}" : "]");
}
static void block(Rng & r, const D & d, const S & ind, S & o) {      // o ends where a value may start on its own line
  if(d.kind == 0 || (d.kind == 1 && d.map.empty()) || (d.kind == 2 && d.seq.empty()) || r.chance(25)) { o += ind + flow(r, d) + "\n"; return; }
  if(d.kind == 1) for(auto & k : d.map) {
    o += ind + quoted(r, k.first) + ":";
    if(k.second.kind == 0) o += " " + quoted(r, k.second.text) + "\n";
    else { o += "\n"; block(r, k.second, ind + "  ", o); }
  }
  else for(auto & k : d.seq) { o += ind + "-\n"; block(r, k, ind + "  ", o); }
}
static M leaf(const S & s) { M m; m.leaf = true; m.text = s; return m; }
static void load(const D & d, M & m) {      // what loading the map d into the node m gives
  for(auto & k : d.map) {
    if(k.second.kind == 0) m.kids[k.first] = leaf(k.second.text);
    else if(k.second.kind == 1) { M x; load(k.second, x); m.kids[k.first] = x; }
    else for(auto & i : k.second.seq) { if(i.kind == 0) m.items.push_back(leaf(i.text)); else load(i, m); }
  }
}
static void p03(Ctx & c, Rng & r, uint64_t n) {
  const char * sc = getenv("DRV_SCRATCH"); S dir = sc ? sc : ".";
  S f = dir + "/doc" + std::to_string(getpid()) + ".yaml";
  int what = n % 16;
  if(what == 15) {      // missing file
    S g = dir + "/missing" + std::to_string(r.below(1000)) + ".yaml";
    c.say("loading the missing file " + g);
    YTree t; bool pre = r.chance(50); M m;
    if(pre) { D d = rdoc(r, 2, 1); S o; block(r, d, "", o); { std::ofstream w(f); w << o; } t.readFile(f); c.more(" after " + drv::show(o)); }
    S a, b; dumpn(t.top(), a); bool ok = false;
    try { t.readFile(g); } catch(SoDa::PropertyTree::FileNotFound &) { ok = true; } catch(std::exception & e) { c.fail("FileNotFound", S("exception ") + e.what()); }
    if(!ok) c.fail("FileNotFound", "no exception");
    dumpn(t.top(), b); if(a != b) c.fail("the tree is unchanged " + a.substr(0, 2000), b.substr(0, 2000));
    ok = false;
    try { YTree u(g); } catch(SoDa::PropertyTree::FileNotFound &) { ok = true; } catch(std::exception & e) { c.fail("FileNotFound", S("exception ") + e.what()); }
    if(!ok) c.fail("FileNotFound from the constructor", "no exception");
    unlink(f.c_str());
    return;
  }
  D d = rdoc(r, 1 + r.below(4), 1);
  S o; if(d.map.empty()) o = "{}\n"; else block(r, d, "", o);
  if(r.chance(20)) o = "---\n" + o;
  { std::ofstream w(f); w << o; }
  c.say("document " + drv::show(o));
  M m; load(d, m);
  PN * top = nullptr; YTree * t = nullptr;
  if(what < 8) { t = new YTree; PN * was = t->top(); M e0; t->readFile(f); top = t->top(); c.check(top == was, "the tree keeps its root", "another root"); }
  else { t = new YTree(f); top = t->top(); }
  m.text = top->val_string; m.leaf = false;
  same(c, top, m, "top", true);
  c.check(top->parent == nullptr, "the top has no parent", "a parent");
  if(what == 3) {      // a second load adds to the tree
    D d2 = rdoc(r, 1 + r.below(3), 1); S o2; if(d2.map.empty()) o2 = "{}\n"; else block(r, d2, "", o2);
    { std::ofstream w(f); w << o2; }
    c.more("; then " + drv::show(o2));
    t->readFile(f); load(d2, m); same(c, top, m, "top", true);
  }
  unlink(f.c_str());
}
// ---- P04: dumping
static void level(const M & m, const S & ind, S & o) {
  if(m.leaf) { o += ind + m.text + "\n"; return; }
  if(!m.items.empty()) o += "<<<PROPLIST>>>\n";
  for(auto & i : m.items) { if(i.leaf) o += ind + i.text + "\n"; else level(i, ind + "  ", o); }
  if(!m.kids.empty()) o += "<<<DICTIONARY>>>\n";
  for(auto & k : m.kids) {
    o += ind + k.first + ":  ";
    if(k.second.leaf) o += k.second.text + "\n"; else { o += "\n"; level(k.second, ind + "  ", o); }
  }
}
static M model(PN * n) {
  M m; m.text = n->val_string; m.leaf = n->is_terminal;
  for(auto & k : n->dictionary) m.kids[k.first] = model(k.second);
  for(auto x : n->prop_list) m.items.push_back(model(x));
  return m;
}
static void p04(Ctx & c, Rng & r) {
  Tree t; M m = rndm(r, r.below(6)); if(r.chance(90)) m.leaf = false; build(t.top(), m); t.top()->is_terminal = m.leaf;
  bool whole = r.chance(50);
  PN * n = whole ? t.top() : anynode(r, t.top());
  S ind = whole ? S() : r.pick(std::vector<S>{"", "  ", "-", "> ", "\t"});
  S pre = r.chance(30) ? S("before ") : S();
  c.say("dump of " + show(model(n)) + (whole ? S(" (the tree)") : " with indentation " + drv::show(ind)));
  S a, b, want = pre; dumpn(t.top(), a);
  level(model(n), ind, want);
  for(int k = 0; k < 2; k++) {      // twice: the same again
    std::ostringstream os; os << pre;
    try {
      std::ostream & q = whole ? t.dump(os) : n->dump(os, ind);
      c.check(&q == &os, "the same stream is returned", "another stream");
    } catch(std::exception & x) { c.fail("no exception", x.what()); }
    c.eqs("the text written", want, os.str());
  }
  dumpn(t.top(), b);
  if(a != b) c.fail("the tree is unchanged: " + a.substr(0, 2000), b.substr(0, 2000));
}
uint64_t drv_enumerated(const std::string &) { return 0; }
void drv_case(const std::string & pid, Ctx & c, Rng & r, uint64_t n) {
  if(pid == "P01") p01(c, r);
  else if(pid == "P02") p02(c, r);
  else if(pid == "P04") p04(c, r);
  else p03(c, r, n);
}
