#include "sched.hxx"
#include <map>
#include <unordered_map>
#include <set>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <new>
#include <ucontext.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <cxxabi.h>
extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals * __cxa_get_globals() noexcept; }
namespace sched {
  int quiet = 0; std::string main_lockerr; Quiet::Quiet() { ++quiet; } Quiet::~Quiet() { --quiet; }
  enum State { READY, MTX, CV, DONE };
  typedef std::vector<uint32_t> VC;
  struct Fib {
    ucontext_t uc; char * stk = nullptr; State st = READY; void * mtx = nullptr; void * cv = nullptr; int ret = 0; bool timed = false; int64_t deadline = 0; int64_t lastd = -2;
    int held = 0; VC vc; void * eh[2] = {0, 0}; const std::function<void()> * body = nullptr; bool reader = false;
  };
  struct Mtx { int owner = -1; int depth = 0; int readers = 0; VC vc; };
  struct Cell { void * pc = nullptr; int wf = -1; uint32_t wc = 0; VC rd; };
  static const size_t STK = 256 * 1024;
  static std::vector<Fib> F; static int cur = -1; static ucontext_t mainc; static void * maineh[2];
  static std::unordered_map<void *, Mtx> M; static std::unordered_map<uintptr_t, Cell> SH; static std::unordered_map<void *, VC> AT;
  static std::vector<void *> quarantine; static bool inrun = false; static int inside = 0;
  static const Cfg * cfg; static Chooser * cho; static Result * res; static long steps; static int64_t vt; static int npre, nexp, nspu, nexpired;
  static std::vector<char *> stacks; static uint64_t mrng = 88172645463325252ull;
  struct In { In() { ++inside; } ~In() { --inside; } };
  static void join(VC & a, const VC & b) { if(a.size() < b.size()) a.resize(b.size()); for(size_t i = 0; i < b.size(); i++) if(a[i] < b[i]) a[i] = b[i]; }
  static void note(const std::string & s) { if(res->trace.size() < 3000) res->trace += s; }

  RandomChooser::RandomChooser(uint64_t seed, int m) : s(seed * 0x9E3779B97F4A7C15ull + 77), mode(m), change(0) {}
  uint64_t RandomChooser::next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int RandomChooser::pick(const std::vector<Opt> & o, int c) {
    if(mode == 0 || steps > cfg->maxsteps / 4) return (int)(next() % o.size());
    if(mode == 1) {       // stay with the current thread most of the time
      if(next() % 100 < 80) for(size_t i = 0; i < o.size(); i++) if(o[i].fib == c && o[i].kind == RUN) return (int) i;
      return (int)(next() % o.size());
    }
    if(mode == 3) {       // faults late: prefer running threads
      std::vector<int> r; for(size_t i = 0; i < o.size(); i++) if(o[i].kind == RUN) r.push_back((int) i);
      if(!r.empty() && next() % 100 < 97) return r[next() % r.size()];
      return (int)(next() % o.size());
    }
    int best = -1;        // priorities with occasional changes
    for(size_t i = 0; i < o.size(); i++) { while((int) prio.size() <= o[i].fib) prio.push_back((int)(next() % 1000)); }
    if(next() % 100 < 6) prio[o[next() % o.size()].fib] = (int)(next() % 1000) - 500;
    for(size_t i = 0; i < o.size(); i++) if(o[i].kind == RUN || next() % 100 < 10) if(best < 0 || prio[o[i].fib] > prio[o[best].fib]) best = (int) i;
    return best < 0 ? (int)(next() % o.size()) : best;
  }
  int DfsChooser::pick(const std::vector<Opt> & o, int) {
    if(pos < st.size()) { int k = st[pos].first; st[pos].second = (int) o.size(); pos++; return k < (int) o.size() ? k : 0; }
    st.push_back({0, (int) o.size()}); pos++; return 0;
  }
  bool DfsChooser::next() {
    st.resize(std::min(st.size(), pos)); pos = 0;
    while(!st.empty()) { if(++st.back().first < st.back().second) return true; st.pop_back(); }
    return false;
  }

  static void saveeh(void ** d) { memcpy(d, __cxxabiv1::__cxa_get_globals(), 2 * sizeof(void *)); }
  static void loadeh(void ** d) { memcpy(__cxxabiv1::__cxa_get_globals(), d, 2 * sizeof(void *)); }
  static bool mfree(Fib & f, int i) {
    Mtx & m = M[f.mtx];
    if(f.reader) return m.owner < 0;
    return m.readers == 0 && (m.owner < 0 || m.owner == i);
  }
  static void switch_to(int n) {
    int old = cur; if(n == old) return;
    if(old >= 0) saveeh(F[old].eh); else saveeh(maineh);
    cur = n;
    ucontext_t * to = n >= 0 ? &F[n].uc : &mainc;
    ucontext_t * from = old >= 0 ? &F[old].uc : &mainc;
    if(n >= 0) loadeh(F[n].eh); else loadeh(maineh);
    swapcontext(from, to);
  }
  // choose who runs next; returns in the context of the chosen one
  static void schedule() {
    In in;
    steps++;
    if(steps > cfg->maxsteps) { res->limit = true; --inside; switch_to(-1); ++inside; return; }
    std::vector<Opt> o;
    bool curok = cur >= 0 && (F[cur].st == READY || (F[cur].st == MTX && mfree(F[cur], cur)));
    if(curok) o.push_back({cur, RUN});
    if(!curok || npre > 0) for(int i = 0; i < (int) F.size(); i++) if(i != cur) if(F[i].st == READY || (F[i].st == MTX && mfree(F[i], i))) o.push_back({i, RUN});
    for(int i = 0; i < (int) F.size(); i++) if(F[i].st == CV) {
      if(F[i].timed && nexp > 0 && F[i].lastd < (int64_t) 900 * 86400 * 1000000000ll) o.push_back({i, EXPIRE});
      if(nspu > 0) o.push_back({i, SPURIOUS});
    }
    if(o.empty()) { --inside; switch_to(-1); ++inside; return; }
    int k = o.size() == 1 ? 0 : cho->pick(o, cur);
    Opt c = o[k];
    if(c.kind == EXPIRE) {
      nexp--; nexpired++; if(vt < F[c.fib].deadline) vt = F[c.fib].deadline;
      res->expiries.push_back({c.fib, steps, F[c.fib].deadline});
      F[c.fib].st = MTX; F[c.fib].ret = ETIMEDOUT; note(" T" + std::to_string(c.fib) + ":expire");
      --inside; schedule(); ++inside; return;
    }
    if(c.kind == SPURIOUS) { nspu--; F[c.fib].st = MTX; F[c.fib].ret = 0; note(" T" + std::to_string(c.fib) + ":spurious"); --inside; schedule(); ++inside; return; }
    if(curok && c.fib != cur) npre--;
    if(c.fib != cur) { note(" T" + std::to_string(c.fib)); --inside; switch_to(c.fib); ++inside; }
  }
  static void entry() {
    { (*F[cur].body)(); }
    F[cur].st = DONE;
    schedule();
  }
  Result run(const std::vector<std::function<void()>> & body, const Cfg & c, Chooser & ch) {
    Result r; res = &r; cfg = &c; cho = &ch; steps = 0; vt = 0; npre = c.preempt; nexp = c.expire; nspu = c.spurious; nexpired = 0;
    __libc_single_threaded = 0;
    { In in;
      F.clear(); F.resize(body.size()); M.clear(); SH.clear(); AT.clear();
      while(stacks.size() < body.size()) stacks.push_back((char *) mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      for(size_t i = 0; i < body.size(); i++) {
        Fib & f = F[i]; f.stk = stacks[i]; f.body = &body[i]; f.vc.assign(body.size(), 0); f.vc[i] = 1;
        getcontext(&f.uc); f.uc.uc_stack.ss_sp = f.stk; f.uc.uc_stack.ss_size = STK; f.uc.uc_link = nullptr;
        makecontext(&f.uc, (void (*)()) entry, 0);
      }
    }
    inrun = true; cur = -1;
    schedule();
    inrun = false;
    r.steps = steps;
    { In in;
      for(int i = 0; i < (int) F.size(); i++) if(F[i].st == CV) r.blocked.push_back(i); else if(F[i].st != DONE) r.stuck.push_back(i);
      r.deadlock = !r.blocked.empty() || !r.stuck.empty();
      for(void * p : quarantine) free(p);
      quarantine.clear();
    }
    quiet = 0;
    return r;
  }
  int self() { return cur; }
  void point() { if(cur >= 0 && !inside) schedule(); }
  int held() { return cur >= 0 ? F[cur].held : 0; }
  long step() { return steps; }
  int expired() { return nexpired; }
  int64_t vnow() { return vt; }
  int64_t last_deadline(int f) { return F[f].lastd; }
  void forget_deadline(int f) { F[f].lastd = -2; }
  bool blocked_now(int f) { return F[f].st == CV; }

  static std::string where(const void * p) {
    char b[96]; const char * a = (const char *) p;
    if(cfg->lo && a >= cfg->lo && a < cfg->hi) snprintf(b, sizeof b, "object byte %ld", (long)(a - cfg->lo)); else snprintf(b, sizeof b, "heap memory");
    return b;
  }
  static void * rpc;
  static std::string pcs(void * a) { char b[40]; snprintf(b, 40, " (pc %p)", a); return getenv("SCHED_PC") ? b : ""; }
  static void access(const void * p, int size, bool write) {
    void * pc = rpc;
    if(cur < 0 || inside || quiet) return;
    const char * a = (const char *) p; Fib & f = F[cur];
    if(a >= f.stk && a < f.stk + STK) return;
    bool watched = cfg->lo && a >= cfg->lo && a < cfg->hi;
    if(watched && cfg->memory) {
      mrng ^= mrng << 13; mrng ^= mrng >> 7; mrng ^= mrng << 17;
      if((int)(mrng % 100) < cfg->memory) schedule();
    }
    In in;
    for(int k = 0; k < size; k += 1) {
      Cell & c = SH[(uintptr_t) a + k]; Fib & g = F[cur];
      if(c.wf >= 0 && c.wf != cur && g.vc[c.wf] < c.wc) { if(res->race.empty()) res->race = std::string("data race: ") + (write ? "write" : "read") + " by thread " + std::to_string(cur) + " and write by thread " + std::to_string(c.wf) + ", " + where(p) + pcs(pc) + pcs(c.pc); return; }
      if(write) {
        for(size_t i = 0; i < c.rd.size(); i++) if((int) i != cur && c.rd[i] > g.vc[i]) { if(res->race.empty()) res->race = "data race: write by thread " + std::to_string(cur) + " and read by thread " + std::to_string(i) + ", " + where(p) + pcs(pc) + pcs(c.pc); return; }
        c.pc = pc; c.wf = cur; c.wc = g.vc[cur];
      } else { if(c.rd.size() <= (size_t) cur) c.rd.resize(cur + 1); c.rd[cur] = g.vc[cur]; if(c.wf < 0) c.pc = pc; }
    }
  }
  static void atomic_op(const volatile void * p) {
    if(cur < 0 || inside || quiet) return;
    const char * a = (const char *) p;
    bool watched = cfg->lo && a >= cfg->lo && a < cfg->hi;
    if(watched) schedule();
    In in;
    VC & v = AT[(void *) p]; Fib & f = F[cur];
    join(f.vc, v); v = f.vc; f.vc[cur]++;
  }
  static int do_lock(void * m, bool rd = false, bool tryonly = false) {
    if(cur < 0) {
      Mtx & x = M[m]; bool rec = false;
      if(!rd) rec = (((pthread_mutex_t *) m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
      if(x.owner == -7 && !rec) { if(tryonly) return EBUSY; main_lockerr = "a thread locks a mutex it already holds (deadlock)"; return 0; }
      if(!inrun) { x.owner = -7; x.depth++; }
      return 0;
    }
    if(!inside && !quiet) schedule();
    In in;
    Fib & f = F[cur]; Mtx * x = &M[m];
    bool rec = !rd && (((pthread_mutex_t *) m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if(x->owner == cur && !rec && !tryonly && res->lockerr.empty()) res->lockerr = "thread " + std::to_string(cur) + " locks a mutex it already holds (deadlock)";
    if(x->owner == cur && rec) { x->depth++; f.held++; return 0; }
    for(;;) {
      x = &M[m];
      bool can = rd ? x->owner < 0 : (x->owner < 0 && x->readers == 0);
      if(can) break;
      if(tryonly) return EBUSY;
      F[cur].st = MTX; F[cur].mtx = m; F[cur].reader = rd;
      if(x->owner == cur) F[cur].mtx = (void *) 1, M[(void *) 1].owner = 1 << 20;   // never
      --inside; schedule(); ++inside;
      F[cur].st = READY;
    }
    Fib & g = F[cur];
    if(rd) x->readers++; else { x->owner = cur; x->depth = 1; }
    g.held++; join(g.vc, x->vc);
    return 0;
  }
  static int do_unlock(void * m) {
    if(cur < 0) { if(!inrun) { Mtx & x = M[m]; if(--x.depth <= 0) M.erase(m); } return 0; }
    {
      In in;
      Fib & f = F[cur]; Mtx & x = M[m];
      if(x.owner == cur) { if(--x.depth > 0) { f.held--; return 0; } x.owner = -1; }
      else if(x.readers > 0) x.readers--;
      else { if(res->lockerr.empty()) res->lockerr = "thread " + std::to_string(cur) + " unlocks a mutex it does not hold"; return EPERM; }
      f.held--;
      VC v = f.vc; join(x.vc, v); f.vc[cur]++;
    }
    if(!quiet && !inside) { mrng ^= mrng << 13; mrng ^= mrng >> 7; mrng ^= mrng << 17; if(mrng % 4 == 0 && dynamic_cast<RandomChooser *>(cho)) schedule(); }
    return 0;
  }
  static int do_wait(void * c, void * m, bool timed, int64_t deadline) {
    if(cur < 0) { main_lockerr = "condition wait outside a test thread"; return timed ? ETIMEDOUT : 0; }
    In in;
    { Fib & f = F[cur]; Mtx & x = M[m];
      f.lastd = timed ? deadline - vt : -1;
      if(x.owner != cur) { if(res->lockerr.empty()) res->lockerr = "condition wait without holding the mutex"; }
      else { x.owner = -1; VC v = f.vc; join(x.vc, v); f.vc[cur]++; }
      f.st = CV; f.cv = c; f.mtx = m; f.reader = false; f.timed = timed; f.deadline = deadline; f.ret = 0; }
    --inside; schedule(); ++inside;
    Fib & f = F[cur];
    // scheduled again: the mutex is free
    f.st = READY; Mtx & x = M[m]; x.owner = cur; x.depth = 1; join(f.vc, x.vc);
    return f.ret;
  }
  static void do_notify(void * c, bool all) {
    if(cur < 0) return;
    if(!inside && !quiet) schedule();
    In in;
    std::vector<int> w; for(int i = 0; i < (int) F.size(); i++) if(F[i].st == CV && F[i].cv == c) w.push_back(i);
    if(w.empty()) return;
    if(all) { for(int i : w) { F[i].st = MTX; F[i].ret = 0; } }
    else { mrng ^= mrng << 13; mrng ^= mrng >> 7; mrng ^= mrng << 17; int i = w[mrng % w.size()]; F[i].st = MTX; F[i].ret = 0; }
  }
  static int64_t abs_ns(const timespec * t, clockid_t clk) { __int128 v = (__int128) t->tv_sec * 1000000000 + t->tv_nsec; v -= clk == CLOCK_REALTIME ? (__int128) 1700000000000000000ll : (__int128) 1000000000000000ll; const __int128 L = (__int128) 1 << 62; if(v > L) v = L; if(v < -L) v = -L; return (int64_t) v; }
}
using namespace sched;
extern "C" {
  int pthread_mutex_lock(pthread_mutex_t * m) noexcept { return do_lock(m); }
  int pthread_mutex_trylock(pthread_mutex_t * m) noexcept { return do_lock(m, false, true); }
  int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec *) noexcept { return do_lock(m); }
  int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const timespec *) noexcept { return do_lock(m); }
  int pthread_mutex_unlock(pthread_mutex_t * m) noexcept { return do_unlock(m); }
  int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
  int pthread_rwlock_rdlock(pthread_rwlock_t * m) noexcept { return do_lock(m, true); }
  int pthread_rwlock_wrlock(pthread_rwlock_t * m) noexcept { return do_lock(m); }
  int pthread_rwlock_unlock(pthread_rwlock_t * m) noexcept { return do_unlock(m); }
  int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return do_wait(c, m, false, 0); }
  int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { return do_wait(c, m, true, abs_ns(t, CLOCK_REALTIME)); }
  int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t) { return do_wait(c, m, true, abs_ns(t, k)); }
  int pthread_cond_signal(pthread_cond_t * c) noexcept { do_notify(c, false); return 0; }
  int pthread_cond_broadcast(pthread_cond_t * c) noexcept { do_notify(c, true); return 0; }
  int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
  int sched_yield() noexcept { sched::point(); return 0; }
  pthread_t pthread_self() noexcept { return cur >= 0 ? (pthread_t)(0x1000 + 64 * cur) : (pthread_t) 0x900; }
  int nanosleep(const timespec * t, timespec *) { if(cur >= 0) { vt += (int64_t) t->tv_sec * 1000000000 + t->tv_nsec; sched::point(); return 0; } return (int) syscall(SYS_nanosleep, t, nullptr); }
  int clock_nanosleep(clockid_t k, int fl, const timespec * t, timespec *) { if(cur >= 0) { int64_t d = fl ? abs_ns(t, k) - vt : (int64_t) t->tv_sec * 1000000000 + t->tv_nsec; if(d > 0) vt += d; sched::point(); return 0; } return (int) syscall(SYS_clock_nanosleep, k, fl, t, nullptr); }
  int usleep(unsigned u) { timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
  int clock_gettime(clockid_t k, timespec * t) noexcept {
    if(cur < 0) return (int) syscall(SYS_clock_gettime, k, t);
    int64_t v = vt + (k == CLOCK_REALTIME ? 1700000000000000000ll : 1000000000000000ll);
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
  }
  // ---- instrumentation runtime
  void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
  void __tsan_vptr_update(void ** p, void * v) { if(*p != v) access(p, 8, true); }
  void __tsan_vptr_read(void ** p) { rpc = __builtin_return_address(0); access(p, 8, false); }
  void __tsan_read_range(void * p, unsigned long n) { rpc = __builtin_return_address(0); access(p, (int) n, false); }
  void __tsan_write_range(void * p, unsigned long n) { rpc = __builtin_return_address(0); access(p, (int) n, true); }
#define RW(N) void __tsan_read##N(void * p) { rpc = __builtin_return_address(0); access(p, N, false); } void __tsan_write##N(void * p) { rpc = __builtin_return_address(0); access(p, N, true); } \
  void __tsan_unaligned_read##N(void * p) { rpc = __builtin_return_address(0); access(p, N, false); } void __tsan_unaligned_write##N(void * p) { rpc = __builtin_return_address(0); access(p, N, true); } \
  void __tsan_volatile_read##N(void * p) { rpc = __builtin_return_address(0); access(p, N, false); } void __tsan_volatile_write##N(void * p) { rpc = __builtin_return_address(0); access(p, N, true); } \
  void __tsan_read_write##N(void * p) { rpc = __builtin_return_address(0); access(p, N, true); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT_(B, T) T __tsan_atomic##B##_load(const volatile T * p, int) { atomic_op(p); return *p; } \
  void __tsan_atomic##B##_store(volatile T * p, T v, int) { atomic_op(p); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T * p, T v, int) { atomic_op(p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { atomic_op(p); if(*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { atomic_op(p); if(*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T * p, T e, T v, int, int) { atomic_op(p); T o = *p; if(o == e) *p = v; return o; }
  AT_(8, unsigned char) AT_(16, unsigned short) AT_(32, unsigned int) AT_(64, unsigned long)
}
// exception objects come from malloc: a new one is a new object for the race detector
#include <dlfcn.h>
static void fresh(void * p, size_t n) { if(sched::inrun && !sched::inside && n < 4096) { sched::In in; for(size_t k = 0; k < n; k++) sched::SH.erase((uintptr_t) p + k); } }
extern "C" void * __cxa_allocate_exception(size_t n) noexcept {
  static void * (*real)(size_t) = (void * (*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  void * p = real(n);
  fresh(p, n);
  return p;
}
// no memory is reused within one execution, so that the race detector sees every object apart
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if(!p) abort(); fresh(p, n); return p; }
void * operator new[](size_t n) { void * p = malloc(n ? n : 1); if(!p) abort(); fresh(p, n); return p; }
static void del(void * p) { if(!p) return; if(sched::inrun && !sched::inside) { sched::In in; sched::quarantine.push_back(p); } else free(p); }
void operator delete(void * p) noexcept { del(p); }
void operator delete[](void * p) noexcept { del(p); }
void operator delete(void * p, size_t) noexcept { del(p); }
void operator delete[](void * p, size_t) noexcept { del(p); }
