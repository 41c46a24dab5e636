#include "drv.hxx"
#include "sched.hxx"
#include <Barrier.hxx>
using namespace drv;
namespace {
  struct Call { int t, k; long inv = 0, resp = 0; int outcome = -1; long asked = 0; int xinv = 0, xresp = 0; bool postpoison = false; int64_t dl = -2, v0 = 0, v1 = 0; int held = 0; std::string what; };
  struct Conf { int N, T, R, expire, spurious, preempt, memory; std::vector<int> rounds; std::vector<long> tmo; bool again = false; int overload = 0; };
  const char * ON[] = {"normal", "Timeout", "Corrupt", "other exception"};
  struct World {
    Conf c; std::vector<Call> log; bool timeout_thrown = false; SoDa::BarrierPtr b; sched::Result r;
  };
  void one_wait(World & w, SoDa::BarrierPtr & b, int t, int k, long ms, bool post) {
    size_t id;
    { sched::Quiet q; id = w.log.size(); w.log.push_back(Call()); Call & c = w.log[id]; c.t = t; c.k = k; c.asked = ms; c.inv = sched::step(); c.xinv = sched::expired(); c.postpoison = post; c.v0 = sched::vnow(); sched::forget_deadline(t); }
    int oc; std::string what;
    try {
      int ov = (w.c.overload + t + k) % 3;
      if(ov == 0 || ms < 0) b->wait(std::chrono::duration<long, std::milli>(ms)); else if(ov == 1 && ms == 0) b->wait(); else b->wait((unsigned long) ms);
      oc = 0;
    }
    catch(SoDa::Barrier::Timeout & e) { oc = 1; what = e.what(); }
    catch(SoDa::Barrier::Corrupt & e) { oc = 2; what = e.what(); }
    catch(std::exception & e) { oc = 3; what = e.what(); }
    catch(...) { oc = 3; what = "unknown"; }
    { sched::Quiet q; Call & c = w.log[id]; c.outcome = oc; c.resp = sched::step(); c.xresp = sched::expired(); c.v1 = sched::vnow(); c.dl = sched::last_deadline(t); c.held = sched::held(); c.what = what; if(oc == 1) w.timeout_thrown = true; }
    // order of the responses as they are observed
  }
  void execute(World & w, sched::Chooser & ch) {
    w.log.clear(); w.timeout_thrown = false;
    w.b = SoDa::makeBarrier("bar", (unsigned) w.c.N);
    std::vector<SoDa::BarrierPtr> h(w.c.T, w.b);
    std::vector<std::function<void()>> body;
    for(int t = 0; t < w.c.T; t++) body.push_back([&w, &h, t]() {
      for(int k = 0; k < w.c.rounds[t]; k++) {
        bool post = w.timeout_thrown; int ntry = 1;
        size_t before = w.log.size(); (void) before;
        one_wait(w, h[t], t, k, w.c.tmo[(t + k) % w.c.tmo.size()], post);
        int oc = -1; { sched::Quiet q; for(auto & c : w.log) if(c.t == t && c.k == k) oc = c.outcome; }
        (void) ntry;
        if(oc != 0) { if(w.c.again) { bool p2 = w.timeout_thrown; one_wait(w, h[t], t, k + 1000, 0, p2); } break; }
      }
    });
    sched::Cfg cfg; cfg.preempt = w.c.preempt; cfg.expire = w.c.expire; cfg.spurious = w.c.spurious; cfg.memory = w.c.memory;
    cfg.lo = (const char *) w.b.get(); cfg.hi = cfg.lo + sizeof(SoDa::Barrier);
    w.r = sched::run(body, cfg, ch);
    if(w.r.deadlock) { for(auto & x : h) new SoDa::BarrierPtr(x); new SoDa::BarrierPtr(w.b); }   // fibers that never ended still refer to it
  }
  std::string hist(const World & w) {
    std::string s;
    std::vector<std::tuple<long, int, std::string>> ev; int i = 0;
    for(auto & c : w.log) {
      std::string id = "T" + std::to_string(c.t) + (c.k >= 1000 ? " wait again" : " wait#" + std::to_string(c.k)) + "(" + std::to_string(c.asked) + ")";
      ev.push_back({c.inv, 2 * i, id + " called"});
      if(c.outcome >= 0) ev.push_back({c.resp, 2 * i + 1, id + " -> " + ON[c.outcome]}); else ev.push_back({1 << 30, 2 * i + 1, id + " never returned"});
      i++;
    }
    for(auto & e : w.r.expiries) ev.push_back({e.at, -1, "timeout of T" + std::to_string(e.fib) + " expires"});
    std::sort(ev.begin(), ev.end());
    for(auto & e : ev) s += (s.empty() ? "" : "; ") + std::get<2>(e);
    return s;
  }
  std::string conf(const Conf & c) {
    std::string s = "barrier of " + std::to_string(c.N) + ", " + std::to_string(c.T) + " threads, rounds per thread [";
    for(int r : c.rounds) s += std::to_string(r) + " ";
    s += "], timeouts ms [";
    for(long r : c.tmo) s += std::to_string(r) + " ";
    return s + "], expiries <= " + std::to_string(c.expire) + ", spurious wake-ups <= " + std::to_string(c.spurious);
  }
  void judge(const std::string & pid, Ctx & x, World & w) {
    auto bad = [&](const std::string & e) { x.more("; schedule:" + w.r.trace); x.fail(e, hist(w) + (w.r.race.empty() ? "" : "; " + w.r.race) + (w.r.lockerr.empty() ? "" : "; " + w.r.lockerr)); };
    if(w.r.limit) return;       // no answer for this schedule
    const Conf & c = w.c; int nto = 0, nco = 0;
    for(auto & k : w.log) { if(k.outcome == 1) nto++; if(k.outcome == 2) nco++; if(k.outcome == 3) bad("wait throws only Timeout or Corrupt"); }
    if(!w.r.stuck.empty()) bad("no thread waits for ever for the lock");
    if(pid == "B03") {
      if(!w.r.race.empty()) bad("no data race on the barrier");
      if(!w.r.lockerr.empty()) bad("the lock is used correctly");
      for(auto & k : w.log) if(k.outcome >= 0 && k.held) bad("the lock is released on every way out");
    }
    // arrivals and responses in order
    int inv = (int) w.log.size();
    if(nto == 0) {
      if(nco) bad("no Corrupt without a Timeout");
      if((int) w.r.blocked.size() != inv % c.N) bad("exactly the arrivals of the incomplete round keep waiting: " + std::to_string(inv % c.N) + " of " + std::to_string(inv));
    } else if(pid != "B01" && !w.r.blocked.empty()) bad("nobody keeps waiting after a timeout has poisoned the barrier");
    if(pid != "B02") {
      std::vector<long> rs; 
      std::vector<std::pair<long, int>> ev;
      for(auto & k : w.log) { ev.push_back({k.inv, 0}); if(k.outcome == 0) ev.push_back({k.resp, 1}); }
      std::stable_sort(ev.begin(), ev.end());
      int ni = 0, nn = 0;
      for(auto & e : ev) { if(e.second == 0) ni++; else { nn++; if(nn > c.N * (ni / c.N)) bad("a normal return only after all " + std::to_string(c.N) + " parties of its round have arrived"); } }
      if(c.T == c.N) for(auto & k : w.log) if(k.outcome == 0 && k.k < 1000) {
        int n = 0; for(auto & o : w.log) if(o.k == k.k && o.inv <= k.resp) n++;
        if(n < c.N) bad("round " + std::to_string(k.k) + " ends only when all parties have arrived");
      }
    }
    if(c.T == c.N) {
      std::map<int, std::vector<const Call *>> rd;
      for(auto & k : w.log) if(k.k < 1000) rd[k.k].push_back(&k);
      for(auto & e : rd) {
        int n0 = 0, n1 = 0, n2 = 0; bool early = false;
        for(auto k : e.second) { if(k->outcome == 0) { n0++; if(k->xresp == 0) early = true; } if(k->outcome == 1) n1++; if(k->outcome == 2) n2++; }
        if(n0 && n1 + n2) bad(early ? "a round whose parties all arrived before a timeout ends normally for each of them" : "a round ends the same way for all its parties");
        if(early && n0 != c.N && w.r.blocked.empty()) bad("a completed round ends normally for every party");
      }
    }
    if(pid == "B02") {
      if(nto > 1) bad("at most one waiter gets Timeout");
      if(w.r.expiries.empty() && nto + nco) bad("no exception without an expired timeout");
      if(nco && !nto) bad("Corrupt only after a Timeout");
      for(auto & k : w.log) {
        if(k.outcome == 1) if(k.v1 < k.v0 + k.asked * 1000000 || k.asked == 0) bad("Timeout is thrown by a waiter whose timeout expired");
        if(k.postpoison) { if(k.outcome != 2) bad("a wait on a poisoned barrier throws Corrupt"); if(k.dl != -2) bad("a wait on a poisoned barrier throws at once, without waiting"); }
        if(k.dl >= 0 || k.dl == -1) {
          if(k.asked == 0) { if(k.dl >= 0 && k.dl + (k.v1 - k.v0) < 86400000000000000ll) bad("a timeout of 0 waits as long as necessary, not " + std::to_string(k.dl) + " ns"); }
          else if(k.dl == -1) bad("a timeout of " + std::to_string(k.asked) + " ms is a bounded wait");
          else if(w.r.expiries.empty() && (k.dl < k.asked * 1000000 || k.dl > k.asked * 1000000 + 1000000) && c.spurious == 0) bad("the wait times out after " + std::to_string(k.asked) + " ms, not " + std::to_string(k.dl) + " ns");
        }
      }
      if(c.T == c.N && !w.r.expiries.empty() && nto == 0) {
        // an expiry may come too late only for a round that completed
        int fib = w.r.expiries[0].fib; const Call * k = nullptr;
        for(auto & q : w.log) if(q.t == fib && q.inv <= w.r.expiries[0].at && (q.outcome < 0 || q.resp >= w.r.expiries[0].at)) k = &q;
        if(k && k->outcome != 0) bad("the first waiter to time out throws Timeout");
      }
    }
  }
  Conf mk(int N, int T, std::vector<int> rounds, std::vector<long> tmo, int ex, int sp, int pre, bool again, int mem) { Conf c; c.N = N; c.T = T; c.R = 0; c.rounds = rounds; c.tmo = tmo; c.expire = ex; c.spurious = sp; c.preempt = pre; c.again = again; c.memory = mem; return c; }
  std::vector<Conf> small(const std::string & pid) {
    std::vector<Conf> v; const int U = 1 << 20;
    if(pid != "B02") {
      v.push_back(mk(1, 2, {2, 2}, {0}, 0, 0, U, false, 0));
      v.push_back(mk(2, 2, {2, 2}, {0}, 0, 1, U, false, 0));
      v.push_back(mk(2, 2, {3, 3}, {0, 50}, 0, 0, U, false, 0));
      v.push_back(mk(2, 3, {1, 1, 1}, {0}, 0, 1, U, false, 0));
      v.push_back(mk(2, 4, {1, 1, 1, 1}, {0}, 0, 0, 3, false, 0));
      v.push_back(mk(3, 3, {1, 1, 1}, {0}, 0, 1, U, false, 0));
      v.push_back(mk(3, 3, {2, 2, 2}, {0}, 0, 0, 2, false, 0));
      v.push_back(mk(3, 4, {1, 1, 1, 1}, {0}, 0, 0, 2, false, 0));
    }
    v.push_back(mk(2, 2, {1, 1}, {20}, 1, 0, U, true, 0));
    v.push_back(mk(2, 2, {1, 0}, {20}, 1, 1, U, true, 0));
    v.push_back(mk(2, 2, {2, 1}, {20, 30}, 1, 0, U, true, 0));
    v.push_back(mk(2, 2, {2, 2}, {20}, 2, 0, U, true, 0));
    v.push_back(mk(3, 3, {1, 1, 0}, {20, 30}, 1, 0, U, true, 0));
    v.push_back(mk(3, 3, {1, 1, 1}, {20}, 1, 0, 3, true, 0));
    v.push_back(mk(3, 3, {1, 1, 1}, {20}, 2, 0, 2, false, 0));
    v.push_back(mk(3, 3, {2, 2, 1}, {20, 0, 40}, 1, 0, 2, true, 0));
    v.push_back(mk(4, 4, {1, 1, 1, 0}, {20, 0}, 1, 0, 2, true, 0));
    v.push_back(mk(3, 3, {1, 1, 0}, {20, 30}, 2, 0, U, true, 0));
    return v;
  }
}
uint64_t drv_enumerated(const std::string & pid) { return small(pid).size(); }
void drv_case(const std::string & pid, Ctx & x, Rng & r, uint64_t n) {
  World w; auto sm = small(pid);
  if(n < sm.size()) {       // all schedules (up to a cap) of a small configuration
    w.c = sm[n]; sched::DfsChooser d; long cap = x.thorough ? 400000 : 60000, k = 0;
    x.say("all schedules of: " + conf(w.c));
    do { execute(w, d); judge(pid, x, w); x.sh->beat = x.sh->beat + 1; } while(++k < cap && d.next());
    x.more(", executions: " + std::to_string(k));
    x.sh->nontriv = x.sh->nontriv + k;
    return;
  }
  Conf c; c.N = 1 + (int) r.below(4); bool exact = pid == "B02" || r.chance(50); if(pid == "B02" && c.N < 2) c.N = 2;
  c.T = exact ? c.N : 1 + (int) r.below(5); c.R = 0; int R = 1 + (int) r.below(3);
  for(int t = 0; t < c.T; t++) c.rounds.push_back(r.chance(25) ? (int) r.below(R + 1) : R);
  c.expire = pid == "B01" ? (r.chance(40) ? 1 : 0) : pid == "B02" ? 1 + (r.chance(25) ? 1 : 0) : (int) r.below(2);
  c.spurious = r.chance(30) ? 1 + (int) r.below(2) : 0; c.again = r.chance(60); c.preempt = r.chance(60) ? 1 << 20 : 1 + (int) r.below(4); c.memory = r.chance(60) ? 5 + (int) r.below(60) : 0;
  static const std::vector<long> TM = {0, 1, 2, 5, 20, 999, 1000, 86400000, 1000000000l};
  int nt = 1 + (int) r.below(3); for(int i = 0; i < nt; i++) c.tmo.push_back(c.expire && r.chance(70) ? 20 + 10 * (long) r.below(4) : r.pick(TM));
  c.overload = (int) r.below(3);
  w.c = c;
  x.say(conf(c));
  for(int i = 0; i < 8; i++) { sched::RandomChooser ch(r.next(), (int) r.below(4)); execute(w, ch); judge(pid, x, w); }
}
