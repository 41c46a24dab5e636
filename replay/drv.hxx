// Replay driver scaffold: runs cases against the real /repo code in forked, sanitised children and
// reports the first case whose observable behaviour differs from the property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>

namespace drv {
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long) below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (uint64_t) pct; }
    template <class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
  };
  inline std::string show(const std::string & s) {
    std::string r = "\"";
    for(unsigned char c : s) {
      if(c == '"' || c == '\\') { r += '\\'; r += (char) c; }
      else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
      else r += (char) c;
    }
    return r + "\"";
  }
  template <class C> std::string showl(const C & l) {
    std::string r = "["; bool f = true;
    for(auto & s : l) { if(!f) r += ", "; f = false; r += show(s); }
    return r + "]";
  }
  template <class T> std::string str(const T & v) { std::ostringstream s; s << v; return s.str(); }
  struct Shared { volatile uint64_t n, cases, beat, nontriv, distinct; volatile int failed; char desc[16384]; char exp[8192]; char act[8192]; char sample[3][1024]; volatile int nsample; };
  struct Fail {};
  struct Ctx {
    Shared * sh; Rng * r; std::string pid; uint64_t n = 0; bool thorough = false;
    std::unordered_set<uint64_t> seen;
    static void put(char * d, size_t n, const std::string & s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }
    void say(const std::string & s) {
      put(sh->desc, sizeof sh->desc, s);
      size_t h = std::hash<std::string>()(s);
      if(seen.size() < 2000000 && seen.insert(h).second) sh->distinct = sh->distinct + 1;
      if(sh->nsample < 3 && n % 7 == 3) { put(sh->sample[sh->nsample], 1024, s); sh->nsample = sh->nsample + 1; }
    }
    void more(const std::string & s) { size_t k = strlen(sh->desc); put(sh->desc + k, sizeof sh->desc - k, s); }
    void fail(const std::string & e, const std::string & a) {
      put(sh->exp, sizeof sh->exp, e); put(sh->act, sizeof sh->act, a); sh->failed = 1; throw Fail();
    }
    void check(bool ok, const std::string & e, const std::string & a) { if(!ok) fail(e, a); }
    template <class T> void eq(const std::string & what, const T & exp, const T & act) { if(!(exp == act)) fail(what + " = " + str(exp), what + " = " + str(act)); }
    void eqs(const std::string & what, const std::string & exp, const std::string & act) { if(exp != act) fail(what + " = " + show(exp), what + " = " + show(act)); }
  };
}
// each driver defines these
extern uint64_t drv_enumerated(const std::string & pid);            // number of exhaustively enumerated cases
extern void drv_case(const std::string & pid, drv::Ctx & c, drv::Rng & r, uint64_t n);

namespace drv {
  inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  inline bool one(Ctx & c, const std::string & pid, uint64_t seed, uint64_t n) {
    Rng r(seed * 1000003ull + n); c.r = &r; c.n = n; c.sh->n = n; c.sh->desc[0] = 0;
    try { drv_case(pid, c, r, n); }
    catch(Fail &) { return false; }
    catch(std::exception & e) { Ctx::put(c.sh->exp, sizeof c.sh->exp, "no exception escapes"); Ctx::put(c.sh->act, sizeof c.sh->act, std::string("exception: ") + e.what()); c.sh->failed = 1; return false; }
    catch(...) { Ctx::put(c.sh->exp, sizeof c.sh->exp, "no exception escapes"); Ctx::put(c.sh->act, sizeof c.sh->act, "exception of an unknown type"); c.sh->failed = 1; return false; }
    c.sh->cases = c.sh->cases + 1; c.sh->beat = c.sh->beat + 1;
    return true;
  }
  // driver PID seed secs workers out.json scratch [case]
  inline int main_(int argc, char ** argv) {
    if(argc < 7) { fprintf(stderr, "usage: drv PID seed secs workers out scratch [case]\n"); return 2; }
    std::string pid = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); int nw = atoi(argv[4]);
    std::string out = argv[5], scratch = argv[6];
    long only = argc > 7 ? atol(argv[7]) : -1;
    if(only >= 0) nw = 1;
    std::vector<Shared *> sh; std::vector<pid_t> pids; std::vector<uint64_t> beat(nw, 0); std::vector<double> tb(nw, now());
    double t0 = now();
    for(int w = 0; w < nw; w++) {
      Shared * s = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      memset((void *) s, 0, sizeof *s); sh.push_back(s);
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if(p == 0) {
        int fd = open((scratch + "/err." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        Ctx c; c.sh = s; c.pid = pid; c.thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
        bool ok = true;
        if(only >= 0) ok = one(c, pid, seed, only);
        else {
          uint64_t ne = drv_enumerated(pid);
          for(uint64_t n = w; ok; n += nw) {
            if(now() - t0 > secs) break;
            (void) ne;
            ok = one(c, pid, seed, n);
          }
        }
        _exit(ok ? 0 : 3);
      }
      pids.push_back(p);
    }
    int bad = -1; std::string how; int live = nw; std::vector<bool> done(nw, false);
    while(live && bad < 0) {
      usleep(20000);
      for(int w = 0; w < nw && bad < 0; w++) if(!done[w]) {
        int st; pid_t p = waitpid(pids[w], &st, WNOHANG);
        if(p == pids[w]) {
          done[w] = true; live--;
          if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          bad = w;
          if(sh[w]->failed) how = "wrong result";
          else if(WIFSIGNALED(st)) how = std::string("crash: signal ") + std::to_string(WTERMSIG(st));
          else how = "crash: exit status " + std::to_string(WEXITSTATUS(st));
        } else {
          if(sh[w]->beat != beat[w]) { beat[w] = sh[w]->beat; tb[w] = now(); }
          else if(now() - tb[w] > 30) { bad = w; how = "no answer within 30 s (hang)"; }
        }
      }
    }
    for(int w = 0; w < nw; w++) if(!done[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
    uint64_t cases = 0, dist = 0; uint64_t mx = 0;
    for(auto s : sh) { cases += s->cases; dist += s->distinct; mx = std::max<uint64_t>(mx, (uint64_t) s->n); }
    FILE * f = fopen(out.c_str(), "w"); if(!f) return 2;
    auto js = [](const std::string & s) { std::string r = "\""; for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; };
    fprintf(f, "{\"property\": %s, \"seed\": %llu, \"cases\": %llu, \"distinct\": %llu, \"enumerated\": %llu, \"last\": %llu,\n \"samples\": [", js(pid).c_str(), (unsigned long long) seed, (unsigned long long) cases, (unsigned long long) dist,
      (unsigned long long) std::min<uint64_t>(drv_enumerated(pid), cases), (unsigned long long) mx);
    bool first = true;
    for(auto s : sh) for(int k = 0; k < s->nsample && k < 2; k++) { fprintf(f, "%s%s", first ? "" : ", ", js(s->sample[k]).c_str()); first = false; }
    fprintf(f, "],\n \"failed\": %s", bad >= 0 ? "true" : "false");
    if(bad >= 0) {
      std::ifstream e(scratch + "/err." + std::to_string(bad)); std::stringstream es; es << e.rdbuf();
      fprintf(f, ",\n \"case\": %llu, \"how\": %s,\n \"input\": %s,\n \"expected\": %s,\n \"actual\": %s,\n \"stderr\": %s", (unsigned long long) sh[bad]->n, js(how).c_str(), js((const char *) sh[bad]->desc).c_str(),
        js((const char *) sh[bad]->exp).c_str(), js((const char *) sh[bad]->act).c_str(), js(es.str().substr(0, 6000)).c_str());
    }
    fprintf(f, "}\n"); fclose(f);
    return bad >= 0 ? 1 : 0;
  }
}
#ifndef DRV_NO_MAIN
int main(int argc, char ** argv) { return drv::main_(argc, argv); }
#endif
