#include "drv.hxx"
#include "Format.hxx"
#include <cmath>
#include <limits>
#include <iomanip>
using drv::Ctx; using drv::Rng; using std::string;
typedef std::vector<string> VS;

// ---- oracles, written from the property statements
struct Tmpl {                       // one left-to-right scan of the format string
  struct Seg { bool lit; string txt; unsigned long idx; };
  std::vector<Seg> segs; unsigned long next = 0;
  explicit Tmpl(const string & f) {
    string cur; auto flush = [&]() { if(!cur.empty()) { segs.push_back({true, cur, 0}); cur.clear(); } };
    for(size_t i = 0; i < f.size(); ) {
      if(f[i] != '%') { cur += f[i++]; continue; }
      if(i + 1 >= f.size()) { cur += '%'; i++; continue; }
      if(f[i + 1] == '%') { cur += '%'; i += 2; continue; }
      if(f[i + 1] >= '0' && f[i + 1] <= '9') {
        size_t j = i + 1; unsigned long v = 0;
        while(j < f.size() && f[j] >= '0' && f[j] <= '9') { v = v * 10 + (f[j] - '0'); j++; }
        flush(); segs.push_back({false, "", v}); i = j; continue;
      }
      cur += '%'; i++;            // the other character is copied next round (it is not '%')
      cur += f[i++];
    }
    flush();
  }
  void insert(const string & t) { for(auto & s : segs) if(!s.lit && s.idx == next) { s.lit = true; s.txt = t; } next++; }
  bool filled() const { for(auto & s : segs) if(!s.lit) return false; return true; }
  string str() const { string r; for(auto & s : segs) r += s.lit ? s.txt : "%" + std::to_string(s.idx); return r; }
};
static string lpad(const string & s, size_t w, char c) { return s.size() >= w ? s : string(w - s.size(), c) + s; }
static string rpad(const string & s, size_t w) { return s.size() >= w ? s : s + string(w - s.size(), ' '); }
static string o_addI(int v, unsigned w, char sep, char fill) {
  bool neg = v < 0; unsigned long m = neg ? -(long) v : v; string d;
  do { d.insert(d.begin(), '0' + m % 10); m /= 10; } while(m);
  string r; for(size_t i = 0; i < d.size(); i++) { if(i && sep && (d.size() - i) % 3 == 0) r += sep; r += d[i]; }
  if(neg) r = "-" + r;
  return lpad(r, w, fill ? fill : ' ');
}
static string o_addU(unsigned long v, char fmt, unsigned w, char sep, unsigned gc) {
  string d, r; bool hex = fmt == 'x' || fmt == 'X' || fmt == 'h' || fmt == 'H', oct = fmt == 'o' || fmt == 'O', up = fmt == 'X' || fmt == 'H';
  unsigned b = hex ? 16 : oct ? 8 : 10; unsigned long m = v;
  const string dg = up ? "0123456789ABCDEF" : "0123456789abcdef";
  do { d.insert(d.begin(), dg[m % b]); m /= b; } while(m);
  size_t prot = 0;
  if(hex) { d = "0x" + lpad(d, w, '0'); prot = 2; }
  else if(oct) { if(v) d = "0" + d; d = lpad(d, w, '0'); prot = 1; }
  else d = lpad(d, w, ' ');
  for(size_t i = 0; i < d.size(); i++) {
    size_t right = d.size() - i;          // a separator stands before the group of `right' characters
    if(i && sep && right % gc == 0 && i > prot) r += sep;
    r += d[i];
  }
  return r;
}
static string o_addF(double v, char fmt, unsigned w, unsigned D) {
  if(!w) w = D + 4;
  if(std::isnan(v)) return rpad("nan", w);
  if(std::isinf(v)) return rpad(v < 0 ? "-inf" : "inf", w);
  char b[1600];
  // the C++ stream conversions are defined as these printf conversions
  snprintf(b, sizeof b, fmt == 'f' ? "%.*f" : fmt == 's' ? "%.*e" : "%.*g", (int) D, v);
  return rpad(b, w);
}
static string o_addS(const string & s, int w) { return w < 0 ? rpad(s, -(long) w) : lpad(s, w, ' '); }

// ---- generators
static string rndstr(Rng & r, size_t maxn) {
  static const char al_[] = "abc %%%019xyz\0\xff\n\x80-.,'e"; static const string al(al_, sizeof al_ - 1);
  string s; size_t n = r.below(maxn + 1); while(s.size() < n) s += al[r.below(al.size())]; return s;
}
static string rndfmt(Rng & r) {
  string f; size_t n = r.below(r.chance(5) ? 60 : 9);
  for(size_t i = 0; i < n; i++) switch(r.below(9)) {
    case 0: f += '%' + std::to_string(r.below(3)); break;
    case 1: f += '%' + std::to_string(r.below(14)); break;
    case 2: f += "%%"; break;
    case 3: f += '%'; break;
    case 4: f += "%0" + std::to_string(r.below(12)); break;
    case 5: f += r.chance(10) ? "%" + std::to_string(r.chance(50) ? 4294967295ul - r.below(3) : r.below(4294967296ul)) : "%1"; break;
    case 6: f += rndstr(r, 6); break;
    case 7: f += std::to_string(r.below(20)); break;
    default: f += "x "; }
  // keep marker numbers below 2^32
  size_t dig = 0; string g; for(char c : f) { if(c >= '0' && c <= '9') dig++; else dig = 0; if(dig > 9 && f.find("%4294") == string::npos) { g += 'z'; dig = 0; } g += c; }
  for(auto & s : Tmpl(g).segs) if(!s.lit && s.idx > 4294967295ul) return "%0 %1";
  { size_t run = 0; for(char c : g) { run = (c >= '0' && c <= '9') ? run + 1 : 0; if(run > 18) return "%1%0"; } }
  return g;
}
static char rndchar(Rng & r) { return r.chance(40) ? (char) r.below(256) : "ax0 %-._',*"[r.below(11)]; }
static int rndint(Rng & r) {
  switch(r.below(6)) {
    case 0: return (int) r.next();
    case 1: { static const int e[] = {0, 1, -1, 9, 10, 99, 100, 999, 1000, 1001, 999999, 1000000, -9, -10, -99, -100, -999, -1000, -999999, -1000000, 2147483647, (int) -2147483648ll, -2147483647, 123456, -123456, 1234567}; return e[r.below(26)]; }
    case 2: return r.range(-2000, 2000);
    default: { long p = 1; for(int k = r.below(10); k; k--) p *= 10; long v = p * (1 + r.below(9)) + r.range(-1, 1); if(r.chance(50)) v = -v; return (int) v; } }
}
static unsigned long rndu(Rng & r) {
  switch(r.below(5)) {
    case 0: return r.next();
    case 1: { static const unsigned long e[] = {0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 0xffffffff, 0x100000000, 0x123456789abcdef0, ~0ul, ~0ul - 1, 1ul << 63, 999, 1000, 9999, 10000, 0777, 01000}; return e[r.below(26)]; }
    case 2: return r.below(5000);
    case 3: return r.next() >> r.below(64);
    default: return (1ul << r.below(64)) + r.range(-1, 1); }
}
static double rnddbl(Rng & r) {
  switch(r.below(8)) {
    case 0: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return d; }
    case 1: { static const double e[] = {0.0, -0.0, 1, -1, 10, 100, 1000, 999.9999999, 0.999999999, 0.5, 1e-3, 1e22, 1e23, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-310, 0.1, 123456789.125, 9.5, 99.5, 999.5, 1e15, 1e16, 1e-5, 0.0001}; double d = e[r.below(27)]; return r.chance(50) ? -d : d; }
    case 2: return std::numeric_limits<double>::infinity() * (r.chance(50) ? 1 : -1);
    case 3: return std::copysign(std::numeric_limits<double>::quiet_NaN(), r.chance(50) ? 1.0 : -1.0);
    case 4: return r.range(-100000, 100000) / 8.0;
    case 5: { double d = (double) r.range(1, 99999); int k = r.range(-20, 20); d *= std::pow(10.0, k); return r.chance(50) ? -d : d; }
    default: { double d = (r.next() >> 11) * (1.0 / 9007199254740992.0) * std::pow(10.0, (double) r.range(-300, 300)); return r.chance(50) ? -d : d; } }
}
static double rndfin(Rng & r) {   // finite, nonzero
  for(;;) {
    double v;
    if(r.chance(35)) {            // around rounding boundaries
      double p = std::pow(10.0, (double) (r.chance(70) ? r.range(-12, 12) : r.range(-323, 308)));
      int D = r.range(1, 9); double u = std::pow(10.0, -D);
      v = p * (1.0 + (double) r.range(-12, 12) * u * 0.5);
      for(int k = r.below(4); k; k--) v = std::nextafter(v, r.chance(50) ? 0 : 1e300);
    } else if(r.chance(4)) { uint64_t b = r.next() >> (12 + r.below(52)); memcpy(&v, &b, 8); }   // subnormal
    else if(r.chance(4)) v = std::numeric_limits<double>::max() * (1.0 - r.below(1000) / 1100.0);
    else if(r.chance(30)) v = r.range(1, 2000000) / (r.chance(50) ? 1.0 : 1000.0);
    else v = rnddbl(r);
    v = std::fabs(v);
    if(std::isfinite(v) && v > 0) return v;
  }
}
static unsigned rndw(Rng & r) { return r.chance(25) ? 0 : r.chance(3) ? r.below(3000) : r.below(r.chance(30) ? 80 : 30); }
static string ci(long v) { return std::to_string(v); }
static string cc(char c) { return drv::show(string(1, c)); }
static string dstr(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }

// ---- a random insertion applied to a Format-like object; returns the text it must produce
struct Ins { char kind; int i; unsigned long u; double d; string s; char c, f; unsigned w, x; char sep, fill; };
static Ins rndins(Rng & r, bool strs = false) {
  Ins n; n.kind = strs ? "SSSCB"[r.below(5)] : "IUFSCB"[r.below(6)];
  n.i = rndint(r); n.u = rndu(r); n.d = rnddbl(r); n.s = rndstr(r, r.chance(3) ? 400 : 12); n.c = (char) r.below(256);
  n.f = n.kind == 'U' ? (r.chance(85) ? "xXhHoOdD"[r.below(8)] : (char) r.below(256)) : "fsg"[r.below(3)];
  n.w = rndw(r); n.x = n.kind == 'U' ? (r.chance(80) ? 1 + r.below(6) : r.chance(50) ? 1 + r.below(40) : 4294967295u - r.below(3)) : r.below(r.chance(5) ? 60 : 18);
  n.sep = r.chance(35) ? 0 : r.chance(60) ? ",_' ."[r.below(5)] : rndchar(r); n.fill = r.chance(40) ? 0 : rndchar(r);
  return n;
}
static string o_ins(const Ins & n) {
  switch(n.kind) {
    case 'I': return o_addI(n.i, n.w, n.sep, n.fill);
    case 'U': return o_addU(n.u, n.f, n.w, n.sep, n.x);
    case 'F': return o_addF(n.d, n.f, n.w, n.x);
    case 'S': return o_addS(n.s, n.fill % 3 == 0 ? -(int) n.w : (int) n.w);
    case 'C': return string(1, n.c);
    default: return (n.i & 1) ? "T" : "F"; }
}
static string show(const Ins & n) {
  switch(n.kind) {
    case 'I': return "addI(" + ci(n.i) + ", width " + ci(n.w) + ", sep " + cc(n.sep) + ", fill " + cc(n.fill) + ")";
    case 'U': return "addU(" + std::to_string(n.u) + ", " + cc(n.f) + ", width " + ci(n.w) + ", sep " + cc(n.sep) + ", group " + ci(n.x) + ")";
    case 'F': return "addF(" + dstr(n.d) + ", " + cc(n.f) + ", width " + ci(n.w) + ", digits " + ci(n.x) + ")";
    case 'S': return "addS(" + drv::show(n.s) + ", width " + ci(n.fill % 3 == 0 ? -(int) n.w : (int) n.w) + ")";
    case 'C': return "addC(" + cc(n.c) + ")";
    default: return string("addB(") + ((n.i & 1) ? "true)" : "false)"); }
}
static SoDa::Format & app(SoDa::Format & f, const Ins & n) {
  switch(n.kind) {
    case 'I': return f.addI(n.i, n.w, n.sep, n.fill);
    case 'U': return f.addU(n.u, n.f, n.w, n.sep, n.x);
    case 'F': return f.addF(n.d, n.f, n.w, n.x);
    case 'S': return f.addS(n.s, n.fill % 3 == 0 ? -(int) n.w : (int) n.w);
    case 'C': return f.addC(n.c);
    default: return f.addB(n.i & 1); }
}

// ---- enumerated format strings for C01 / C02
static const char AL[] = {'%', '0', '1', 'a'};
static const uint64_t NENUM = 1 + 4 + 16 + 64 + 256 + 1024 + 4096 + 16384;
static string nth(uint64_t n) { uint64_t l = 0, b = 1; while(n >= b) { n -= b; b *= 4; l++; } string s; for(uint64_t i = 0; i < l; i++) { s += AL[n % 4]; n /= 4; } return s; }
uint64_t drv_enumerated(const string & pid) { return pid == "C01" || pid == "C02" ? NENUM : pid == "C03" ? 4000 * 8 : 0; }

static void c01(Ctx & c, Rng & r, uint64_t n) {
  string f; std::vector<Ins> ins;
  if(n < NENUM) { f = nth(n); Ins a = rndins(r, true); a.kind = 'S'; a.w = 0; a.s = "X%1%"; ins.push_back(a); a.s = "%0Y"; ins.push_back(a); if(n % 3 == 0) ins.pop_back(); if(n % 7 == 0) ins.clear(); }
  else { f = rndfmt(r); size_t k = r.below(r.chance(10) ? 20 : 5); while(k--) ins.push_back(rndins(r, r.chance(70))); }
  c.say("Format(" + drv::show(f) + ")"); for(auto & x : ins) c.more("." + show(x));
  SoDa::Format F(f); Tmpl T(f);
  for(auto & x : ins) { SoDa::Format & g = app(F, x); c.check(&g == &F, "insertion returns the format object", "another object"); T.insert(o_ins(x)); }
  c.eqs("str()", T.str(), F.str());
}
static void c02(Ctx & c, Rng & r, uint64_t n) {
  string f = n < NENUM ? nth(n) : rndfmt(r);
  c.say("Format(" + drv::show(f) + ")");
  SoDa::Format F(f); Tmpl T(f); size_t k = n < NENUM ? 6 : r.below(12);
  for(size_t i = 0; i <= k; i++) switch(n < NENUM && i < 6 ? "sciocr"[i] : "isocrii"[r.below(7)]) {
    case 'i': { Ins x = rndins(r, true); c.more("; " + show(x)); app(F, x); T.insert(o_ins(x)); break; }
    case 's': { c.more("; str()"); const SoDa::Format & k2 = F; c.eqs("str()", T.str(), k2.str()); c.eqs("str(false)", T.str(), k2.str(false)); break; }
    case 'o': { c.more("; <<"); std::ostringstream s; const SoDa::Format & k2 = F; s << "[" << k2 << "]"; c.eqs("stream output", "[" + T.str() + "]", s.str()); break; }
    case 'c': {
      c.more("; str(true)"); bool thrown = false; string got;
      try { got = F.str(true); } catch(SoDa::Format::BadFormat & e) { thrown = true; }
      c.check(thrown == !T.filled(), T.filled() ? "no exception, every marker is filled" : "BadFormat, a marker is unfilled", thrown ? "BadFormat" : "no exception");
      if(!thrown) c.eqs("str(true)", T.str(), got);
      break; }
    default: { c.more("; reset()"); SoDa::Format & g = F.reset(); c.check(&g == &F, "reset returns the format object", "another object"); T = Tmpl(f); } }
  c.eqs("final str()", T.str(), F.str());
}
static void c03(Ctx & c, Rng & r, uint64_t n) {
  int v; unsigned w; char sep, fill;
  if(n < 4000 * 8) { v = (int) (n / 8) - 2000; w = (n & 1) ? 9 : (n & 2) ? 5 : 0; sep = (n & 4) ? ',' : 0; fill = (n & 2) ? '0' : 0; if(r.chance(30)) v *= 1000; }
  else { v = rndint(r); w = rndw(r); sep = r.chance(30) ? 0 : rndchar(r); fill = r.chance(40) ? 0 : rndchar(r); }
  c.say("addI(" + ci(v) + ", width " + ci(w) + ", sep " + cc(sep) + ", fill " + cc(fill) + ")");
  SoDa::Format F("%0"); F.addI(v, w, sep, fill);
  c.eqs("text", o_addI(v, w, sep, fill), F.str());
  SoDa::Format G("%0|%1"); G.addI(v).addI(v, w);
  c.eqs("text with default arguments", o_addI(v, 0, 0, 0) + "|" + o_addI(v, w, 0, 0), G.str());
}
static void c04(Ctx & c, Rng & r, uint64_t) {
  Ins n = rndins(r); n.kind = 'U'; n.f = r.chance(85) ? "xXhHoOdD"[r.below(8)] : (char) r.below(256); n.x = r.chance(80) ? 1 + r.below(6) : r.chance(50) ? 1 + r.below(40) : 4294967295u - r.below(3);
  c.say(show(n));
  SoDa::Format F("%0"); app(F, n); c.eqs("text", o_ins(n), F.str());
  SoDa::Format G("%0|%1|%2|%3"); G.addU(n.u).addU(n.u, n.f).addU(n.u, n.f, n.w).addU(n.u, n.f, n.w, n.sep);
  c.eqs("text with default arguments", o_addU(n.u, 'd', 0, 0, 4) + "|" + o_addU(n.u, n.f, 0, 0, 4) + "|" + o_addU(n.u, n.f, n.w, 0, 4) + "|" + o_addU(n.u, n.f, n.w, n.sep, 4), G.str());
}
static void c05(Ctx & c, Rng & r, uint64_t) {
  Ins n = rndins(r); n.kind = 'F'; n.f = "fsg"[r.below(3)]; n.x = r.below(r.chance(5) ? 60 : 18);
  SoDa::Format::separator = r.chance(50) ? '.' : ',';     // concerns 'e' only
  if(!std::isfinite(n.d) && r.chance(50)) n.f = "fsgex"[r.below(5)];
  c.say(show(n) + " class separator " + cc(SoDa::Format::separator));
  SoDa::Format F("%0"); app(F, n); c.eqs("text", o_ins(n), F.str());
  SoDa::Format G("%0|%1|%2"); G.addF(n.d).addF(n.d, n.f).addF(n.d, n.f, n.w);
  c.eqs("text with default arguments", o_addF(n.d, 'f', 0, 6) + "|" + o_addF(n.d, n.f, 0, 6) + "|" + o_addF(n.d, n.f, n.w, 6), G.str());
}
static void c06(Ctx & c, Rng & r, uint64_t n) {
  string s = rndstr(r, r.chance(4) ? 3000 : 20); int w = (int) rndw(r); if(r.chance(30)) w = (int) s.size() + r.range(-2, 2); if(r.chance(45)) w = -w;
  char ch = (char) (n % 256); bool b = n & 1;
  c.say("addS(" + drv::show(s) + ", " + ci(w) + ").addC(" + cc(ch) + ").addB(" + (b ? "true" : "false") + ")");
  const string in = s;
  SoDa::Format F("%0|%1|%2|%3"); F.addS(in, w).addC(ch).addB(b).addS(in);
  c.eqs("text", o_addS(s, w) + "|" + string(1, ch) + "|" + (b ? "T" : "F") + "|" + s, F.str());
  c.eqs("the argument after the call", s, in);
}
// C07: layout and accuracy of one rendering
static string c07one(Ctx & c, double v, unsigned w, unsigned D, char sep) {
  SoDa::Format F("%0"); F.addF(v, 'e', w, D); string t = F.str();
  auto bad = [&](const string & e) { c.fail(e, drv::show(t)); };
  unsigned fw = w ? w : D + 4;
  if(t.size() < fw) bad("a field of at least " + ci(fw) + " characters");
  string b = t; while(!b.empty() && b.back() == ' ') b.pop_back();
  if(b.empty() || b[0] != (v < 0 ? '-' : ' ')) bad(v < 0 ? "sign character '-'" : "sign character ' '");
  size_t e = b.rfind('e'); if(e == string::npos || e + 2 >= b.size()) bad("an exponent");
  if(b[e + 1] != '+' && b[e + 1] != '-') bad("an explicit exponent sign");
  long ex = 0; for(size_t i = e + 2; i < b.size(); i++) { if(b[i] < '0' || b[i] > '9') bad("a decimal exponent"); ex = ex * 10 + (b[i] - '0'); if(ex > 100000) bad("a sensible exponent"); }
  if(ex % 3) bad("an exponent that is a multiple of 3");
  if(b[e + 1] == '-') ex = -ex;
  string m = b.substr(1, e - 1); size_t p = 0; while(p < m.size() && m[p] >= '0' && m[p] <= '9') p++;
  string ip = m.substr(0, p), fp;
  if(p < m.size()) { if(m[p] != sep) bad("the radix separator " + cc(sep)); fp = m.substr(p + 1); if(fp.empty()) bad("fraction digits after the separator"); for(char ch : fp) if(ch < '0' || ch > '9') bad("only digits in the fraction"); }
  if(ip.empty() || (ip.size() > 3 && ip != "1000") || ip[0] == '0') bad("an integer part of 1 to 3 digits, not zero");
  long double x = 0; for(char ch : ip) x = x * 10 + (ch - '0'); long double s = 1; for(char ch : fp) { s /= 10; x += s * (ch - '0'); }
  x *= powl(10.0L, ex);
  long double a = fabsl((long double) v), err = fabsl(x - a) / a, lim = 5 * powl(10.0L, -(int) D);
  if(!(err <= lim + 1e-12L)) bad("a value within 5e-" + ci(D) + " of " + dstr(v) + " (relative)");
  return t;
}
static void c07(Ctx & c, Rng & r, uint64_t n) {
  double v; unsigned D = 1 + r.below(9), w = r.chance(40) ? 0 : rndw(r); static const string SEPS = string(".,:;_'%e-+x", 11) + string(1, '\0'); char sep = r.chance(40) ? '.' : SEPS[r.below(SEPS.size())];
  v = rndfin(r); bool zero = n % 50 == 0;
  SoDa::Format::separator = sep;
  if(zero) {
    v = r.chance(50) ? 0.0 : -0.0;
    c.say("addF(" + dstr(v) + ", 'e', " + ci(w) + ", " + ci(D) + ") class separator " + cc(sep));
    SoDa::Format F("%0"); F.addF(v, 'e', w, D); string t = F.str(); while(!t.empty() && t.back() == ' ') t.pop_back();
    c.eqs("text (without trailing spaces)", "0" + string(1, sep) + string(std::max(1, (int) D - 1), '0') + "e0", t);
    return;
  }
  c.say("addF(+/-" + dstr(v) + ", 'e', " + ci(w) + ", " + ci(D) + ") class separator " + cc(sep));
  string a = c07one(c, v, w, D, sep), b = c07one(c, -v, w, D, sep);
  string b2 = b; b2[0] = ' '; c.eqs("rendering of the negation (but for the sign)", a, b2);
  if(n % 4 == 0) { SoDa::Format F("%0"); F.addF(v, 'e'); SoDa::Format G("%0"); G.addF(v, 'e', 0, 6); c.eqs("default arguments", G.str(), F.str()); }
}
struct Ext : public SoDa::Format_ext<Ext> { int pad[7]; Ext(const string & s, Ext * p) : SoDa::Format_ext<Ext>(s, p ? p : this) {} };
static void c08(Ctx & c, Rng & r, uint64_t) {
  string f = r.chance(50) ? "%0|%1|%2|%3" : rndfmt(r);
  SoDa::Format P(f); Ext other("other %0", nullptr); bool use = r.chance(50); Ext X(f, use ? &other : nullptr); Ext * want = use ? &other : &X;
  SoDa::Format::separator = r.chance(80) ? '.' : ',';
  c.say("Format_ext(" + drv::show(f) + ")");
  size_t k = 1 + r.below(4);
  for(size_t i = 0; i < k; i++) {
    Ins n = rndins(r); if(n.kind == 'F' && r.chance(30)) { n.f = 'e'; n.x = 1 + r.below(9); if(!(std::isfinite(n.d) && n.d != 0)) n.d = 12345.678; }
    int na = r.below(6); Ext * g = nullptr; int sw = n.fill % 3 == 0 ? -(int) n.w : (int) n.w;
    c.more("." + show(n) + " with " + ci(na) + " explicit optional arguments");
    switch(n.kind) {
      case 'I': if(na == 0) { P.addI(n.i); g = &X.addI(n.i); } else if(na == 1) { P.addI(n.i, n.w); g = &X.addI(n.i, n.w); } else if(na == 2) { P.addI(n.i, n.w, n.sep); g = &X.addI(n.i, n.w, n.sep); } else { P.addI(n.i, n.w, n.sep, n.fill); g = &X.addI(n.i, n.w, n.sep, n.fill); } break;
      case 'U': if(na == 0) { P.addU(n.u); g = &X.addU(n.u); } else if(na == 1) { P.addU(n.u, n.f); g = &X.addU(n.u, n.f); } else if(na == 2) { P.addU(n.u, n.f, n.w); g = &X.addU(n.u, n.f, n.w); } else if(na == 3) { P.addU(n.u, n.f, n.w, n.sep); g = &X.addU(n.u, n.f, n.w, n.sep); } else { P.addU(n.u, n.f, n.w, n.sep, n.x); g = &X.addU(n.u, n.f, n.w, n.sep, n.x); } break;
      case 'F': if(na == 0) { P.addF(n.d); g = &X.addF(n.d); } else if(na == 1) { P.addF(n.d, n.f); g = &X.addF(n.d, n.f); } else if(na == 2) { P.addF(n.d, n.f, n.w); g = &X.addF(n.d, n.f, n.w); } else { P.addF(n.d, n.f, n.w, n.x); g = &X.addF(n.d, n.f, n.w, n.x); } break;
      case 'S': if(na == 0) { P.addS(n.s); g = &X.addS(n.s); } else { P.addS(n.s, sw); g = &X.addS(n.s, sw); } break;
      case 'C': P.addC(n.c); g = &X.addC(n.c); break;
      default: P.addB(n.i & 1); g = &X.addB(n.i & 1); }
    c.check(g == want, "the insertion returns the caller-supplied object", "another object");
    c.eqs("text", P.str(), X.str());
  }
  c.eqs("the caller-supplied object's own text", use ? "other %0" : P.str(), want->str());
}
void drv_case(const string & pid, Ctx & c, Rng & r, uint64_t n) {
  SoDa::Format::separator = '.';
  switch(pid[2]) {
    case '1': c01(c, r, n); break; case '2': c02(c, r, n); break; case '3': c03(c, r, n); break; case '4': c04(c, r, n); break;
    case '5': c05(c, r, n); break; case '6': c06(c, r, n); break; case '7': c07(c, r, n); break; default: c08(c, r, n); }
}
