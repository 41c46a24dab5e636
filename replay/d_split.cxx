#include "drv.hxx"
#include "Utils.hxx"
using drv::Ctx; using drv::Rng;

// S01 as stated: maximal non-space runs joined by one space
static std::string o_squash(const std::string & s) {
  std::vector<std::string> runs; std::string cur;
  for(char c : s) { if(c == ' ') { if(!cur.empty()) runs.push_back(cur); cur.clear(); } else cur += c; }
  if(!cur.empty()) runs.push_back(cur);
  std::string r; for(size_t i = 0; i < runs.size(); i++) { if(i) r += ' '; r += runs[i]; }
  return r;
}
// S02 as stated
static std::vector<std::string> o_split(const std::string & s0, const std::string & d, bool drop) {
  std::string s = o_squash(s0);
  std::vector<std::string> p(1);
  for(char c : s) { if(d.find(c) != std::string::npos) p.push_back(""); else p.back() += c; }
  if(p.back().empty()) p.pop_back();
  if(drop) { std::vector<std::string> q; for(auto & x : p) if(!x.empty()) q.push_back(x); return q; }
  return p;
}
static const char AL[] = {' ', 'a', ',', '\t'};
static const uint64_t NENUM = 1 + 4 + 16 + 64 + 256 + 1024 + 4096;
uint64_t drv_enumerated(const std::string & pid) { return pid == "S01" ? NENUM : NENUM * 6; }
static std::string nth(uint64_t n) {
  uint64_t l = 0, b = 1; while(n >= b) { n -= b; b *= 4; l++; }
  std::string s; for(uint64_t i = 0; i < l; i++) { s += AL[n % 4]; n /= 4; }
  return s;
}
static std::string rnd(Rng & r) {
  static const char al_[] = "  a,\tbc;=:\n.xyz\0\xff ,\x80 "; static const std::string al(al_, sizeof al_ - 1);
  std::string s; size_t n = r.chance(3) ? r.below(3000) : r.chance(30) ? r.below(200) : r.below(24);
  bool runs = r.chance(50);
  while(s.size() < n) { char c = al[r.below(al.size())]; size_t k = runs ? 1 + r.below(5) : 1; s.append(k, c); }
  return s;
}
void drv_case(const std::string & pid, Ctx & c, Rng & r, uint64_t n) {
  static const std::vector<std::string> DS = {",", " ", ", ", "a", "", "\t,", ",;", std::string("\0,", 2), ",,", "=", ":"};
  std::string s, d; bool drop = false;
  if(pid == "S01") s = n < NENUM ? nth(n) : rnd(r);
  else if(n < NENUM * 6) { s = nth(n / 6); d = DS[(n % 6) / 2]; drop = n & 1; }
  else { s = rnd(r); d = r.pick(DS); drop = r.chance(50); }
  if(pid == "S01") {
    c.say("squashSpaces(" + drv::show(s) + ")");
    const std::string in = s;
    std::string got = SoDa::squashSpaces(in);
    c.eqs("result", o_squash(s), got);
    c.eqs("the argument after the call", s, in);
  } else {
    c.say("split(" + drv::show(s) + ", delimiters " + drv::show(d) + ", drop empty " + (drop ? "true" : "false") + ")");
    const std::string in = s, din = d;
    std::list<std::string> l = SoDa::split(in, din, drop);
    std::vector<std::string> v = SoDa::splitVec(in, din, drop);
    std::vector<std::string> e = o_split(s, d, drop);
    std::vector<std::string> lv(l.begin(), l.end());
    if(lv != e) c.fail("split = " + drv::showl(e), "split = " + drv::showl(lv));
    if(v != e) c.fail("splitVec = " + drv::showl(e), "splitVec = " + drv::showl(v));
    c.check(in == s && din == d, "arguments unchanged", "an argument changed");
    // the default keeps empty tokens
  }
}
