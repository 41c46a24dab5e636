// M01, M04: concurrent histories under the deterministic scheduler; every history must have a sequential order
#include "drv.hxx"
#include "sched.hxx"
#include <MailBox.hxx>
#include <memory>
#include <deque>
using namespace drv;
namespace {
  struct Msg { long v; };
  typedef SoDa::MailBox<Msg> MB; typedef std::shared_ptr<MB> MBP; typedef MB::Subscription Sub; typedef std::shared_ptr<Msg> MP;
  enum Kind { SUBSCRIBE, PUT, PUTX, GET, READY, CLEAR, UNSUB, DESTROY, MIN, COUNT, FOREIGN };
  const char * KN[] = {"subscribe", "put", "put-except", "get", "readyCount", "clear", "unsubscribe", "destroy", "minReadyCount", "subscriberCount", "get(foreign)"};
  struct Op { int k; int own; };       // own: which of the handles (-1: the thread's own new one)
  struct Ev { int t; int k; int id = -1; long msg = 0; long res = -99; int exc = 0; long inv = 0, resp = -1; int held = 0; std::string what; };
  struct World { int nsub = 2; std::vector<std::vector<Op>> prog; int memory = 0, preempt = 1 << 20; int preload = 0; std::vector<Ev> log; sched::Result r; std::string prob; std::vector<long> fin; unsigned fincount = 0; std::vector<int> ids; };
  // ---- sequential specification
  typedef std::map<int, std::deque<long>> St;
  bool step(St & s, const Ev & e, std::set<int> & used) {
    bool in = s.count(e.id) != 0;
    switch(e.k) {
    case SUBSCRIBE: if(used.count(e.id)) return false; used.insert(e.id); s[e.id]; return true;
    case PUT: for(auto & q : s) q.second.push_back(e.msg); return e.exc == 0;
    case PUTX: for(auto & q : s) if(q.first != e.id) q.second.push_back(e.msg); return e.exc == 0;
    case FOREIGN: return e.exc == 1;
    case DESTROY: s.erase(e.id); return e.exc == 0;
    case COUNT: return e.exc == 0 && e.res == (long) s.size();
    case MIN: { if(s.empty()) return e.exc == 0; size_t m = ~0ul; for(auto & q : s) m = std::min(m, q.second.size()); return e.exc == 0 && e.res == (long) m; }
    }
    if(!in) return e.exc == 2;
    if(e.exc) return false;
    auto & q = s[e.id];
    switch(e.k) {
    case GET: if(q.empty()) return e.res == 0; if(e.res != q.front()) return false; q.pop_front(); return true;
    case READY: return e.res == (long) q.size();
    case CLEAR: q.clear(); return true;
    case UNSUB: s.erase(e.id); return true;
    }
    return false;
  }
  std::string key(uint64_t m, const St & s) { std::string r = std::to_string(m); for(auto & q : s) { r += "|" + std::to_string(q.first) + ":"; for(long v : q.second) r += std::to_string(v) + ","; } return r; }
  bool lin(const std::vector<Ev> & L, uint64_t done, const St & s, const std::set<int> & used, std::set<std::string> & seen) {
    if(done == (1ull << L.size()) - 1) return true;
    if(!seen.insert(key(done, s)).second) return false;
    long first = 1L << 60;
    for(size_t i = 0; i < L.size(); i++) if(!(done >> i & 1)) first = std::min(first, L[i].resp);
    for(size_t i = 0; i < L.size(); i++) if(!(done >> i & 1) && L[i].inv < first) {
      St t = s; std::set<int> u = used;
      if(step(t, L[i], u) && lin(L, done | 1ull << i, t, u, seen)) return true;
    }
    return false;
  }
  std::string show_ev(const Ev & e) {
    std::string s = "T" + std::to_string(e.t) + " " + KN[e.k];
    if(e.k == PUT || e.k == PUTX) s += " #" + std::to_string(e.msg);
    if(e.id >= 0) s += " id " + std::to_string(e.id);
    if(e.exc) s += std::string(" -> ") + (e.exc == 1 ? "SubscriptionMismatch" : e.exc == 2 ? "MissingSubscriber" : "exception " + e.what);
    else if(e.k == GET) s += e.res ? " -> #" + std::to_string(e.res) : " -> null"; else if(e.res != -99) s += " -> " + std::to_string(e.res);
    return s + " [" + std::to_string(e.inv) + ".." + std::to_string(e.resp) + "]";
  }
  std::string hist(const World & w) { std::string s; for(auto & e : w.log) s += (s.empty() ? "" : "; ") + show_ev(e); return s; }
  std::string conf(const World & w) {
    std::string s = std::to_string(w.nsub) + " subscriptions at the start, " + std::to_string(w.preload) + " pending;";
    for(size_t t = 0; t < w.prog.size(); t++) { s += " T" + std::to_string(t) + ":"; for(auto & o : w.prog[t]) s += std::string(" ") + KN[o.k] + (o.own >= 0 ? "(s" + std::to_string(o.own) + ")" : ""); s += ";"; }
    return s;
  }
  void execute(World & w, sched::Chooser & ch) {
    w.log.clear(); w.prob.clear(); w.ids.clear();
    MBP m = SoDa::makeMailBox<Msg>("box"), other = SoDa::makeMailBox<Msg>("other"); Sub foreign = other->subscribe();
    std::vector<std::unique_ptr<Sub>> h; std::vector<std::vector<Sub>> own(w.prog.size());
    std::vector<std::vector<MP>> got(w.prog.size());
    for(int i = 0; i < w.nsub; i++) { h.emplace_back(new Sub(m->subscribe())); w.ids.push_back((*h.back())->getIndex(m.get())); Ev e; e.t = -1; e.k = SUBSCRIBE; e.id = w.ids.back(); e.inv = -2000 + i * 2; e.resp = e.inv + 1; w.log.push_back(e); }
    std::vector<MP> msgs;
    for(int i = 0; i < w.preload; i++) { auto p = std::make_shared<Msg>(); p->v = 900 + i; msgs.push_back(p); m->put(p); Ev e; e.t = -1; e.k = PUT; e.msg = p->v; e.inv = -1000 + 2 * i; e.resp = e.inv + 1; w.log.push_back(e); }
    std::vector<std::vector<MP>> pm(w.prog.size());
    for(size_t t = 0; t < w.prog.size(); t++) for(size_t k = 0; k < w.prog[t].size(); k++) { auto p = std::make_shared<Msg>(); p->v = 10 * (t + 1) + k; pm[t].push_back(p); }
    std::vector<std::function<void()>> body;
    for(size_t t = 0; t < w.prog.size(); t++) body.push_back([&, t]() {
      for(size_t k = 0; k < w.prog[t].size(); k++) {
        Op o = w.prog[t][k]; size_t n; Sub * sp = nullptr; int kind = o.k;
        { sched::Quiet q; if(o.own >= 0) { sp = h[o.own].get(); } else if(!own[t].empty()) sp = &own[t].back();
          if(!sp && (kind == PUTX || kind == GET || kind == READY || kind == CLEAR || kind == UNSUB || kind == DESTROY)) continue; }
        { sched::Quiet q; n = w.log.size(); w.log.push_back(Ev()); Ev & e = w.log[n]; e.t = (int) t; e.k = kind; e.id = o.own >= 0 ? w.ids[o.own] : sp ? (*sp)->subscriber_index : -1; if(kind == PUT || kind == MIN || kind == COUNT || kind == SUBSCRIBE || kind == FOREIGN) e.id = -1; if(kind == PUT || kind == PUTX) e.msg = pm[t][k]->v; e.inv = sched::step(); }
        sched::point();
        long res = -99; int exc = 0; std::string what; MP r; Sub ns;
        int uid = -1; { sched::Quiet q; uid = w.log[n].id; }
        try {
          switch(kind) {
          case SUBSCRIBE: ns = m->subscribe(); break;
          case PUT: m->put(pm[t][k]); break;
          case PUTX: m->put(pm[t][k], *sp); break;
          case GET: r = m->get(*sp); break;
          case READY: res = m->readyCount(*sp); break;
          case CLEAR: m->clear(*sp); break;
          case UNSUB: m->unsubscribe(uid); break;
          case DESTROY: sp->reset(); break;
          case MIN: res = m->minReadyCount(); break;
          case COUNT: res = m->subscriberCount(); break;
          case FOREIGN: r = m->get(foreign); break;
          }
        }
        catch(MB::SubscriptionMismatch & e) { exc = 1; what = e.what(); }
        catch(MB::MissingSubscriber & e) { exc = 2; what = e.what(); }
        catch(std::exception & e) { exc = 3; what = e.what(); }
        catch(...) { exc = 3; what = "unknown"; }
        sched::point();
        { sched::Quiet q; Ev & e = w.log[n]; e.res = res; e.exc = exc; e.what = what; if(kind == GET && !exc) { e.res = r ? r->v : 0; got[t].push_back(std::move(r)); } e.held = sched::held(); if(kind == SUBSCRIBE && ns) { e.id = ns->subscriber_index; own[t].push_back(std::move(ns)); } if(kind == DESTROY && o.own < 0) own[t].pop_back(); e.resp = sched::step(); if(e.resp <= e.inv) e.resp = e.inv + 1; }
      }
    });
    sched::Cfg cfg; cfg.preempt = w.preempt; cfg.memory = w.memory; cfg.lo = (const char *) m.get(); cfg.hi = cfg.lo + sizeof(MB);
    sched::main_lockerr.clear();
    w.r = sched::run(body, cfg, ch);
    if(w.r.limit || !w.r.stuck.empty()) { new MBP(m); new MBP(other); for(auto & s : h) s.release(); for(auto & v : own) for(auto & s : v) s.release(); foreign.release(); new std::vector<std::vector<MP>>(pm); return; }
    // what is left, read in one thread
    long at = sched::step() + 10;
    auto fin = [&](int k, Sub * s, int id) { Ev e; e.t = -1; e.k = k; e.id = id; e.inv = at++; try { if(k == COUNT) e.res = m->subscriberCount(); else if(k == MIN) e.res = m->minReadyCount(); else { MP p = m->get(*s); e.res = p ? p->v : 0; } } catch(MB::MissingSubscriber & x) { e.exc = 2; } e.resp = at++; w.log.push_back(e); return e.res != 0 && e.exc == 0; };
    fin(COUNT, nullptr, -1);
    int cap = 40;
    for(size_t i = 0; i < h.size(); i++) if(*h[i]) while(cap-- > 0 && w.log.size() < 60 && fin(GET, h[i].get(), w.ids[i])) ;
    for(auto & v : own) for(auto & s : v) if(s) { int id = s->subscriber_index; while(cap-- > 0 && w.log.size() < 60 && fin(GET, &s, id)) ; }
  }
  void judge(Ctx & x, World & w) {
    auto bad = [&](const std::string & e) { x.say(conf(w)); x.more("; schedule:" + w.r.trace); x.fail(e, hist(w) + (w.r.race.empty() ? "" : "; " + w.r.race) + (w.r.lockerr.empty() ? "" : "; " + w.r.lockerr)); };
    if(w.r.limit) return;
    if(!w.r.stuck.empty() || !w.r.blocked.empty()) bad("no operation blocks for ever");
    if(!w.r.race.empty()) bad("no data race on the mailbox");
    if(!w.r.lockerr.empty()) bad("the lock is used correctly");
    if(!sched::main_lockerr.empty()) bad("the lock is released after every operation: " + sched::main_lockerr);
    for(auto & e : w.log) if(e.held) bad("the lock is released on every way out");
    for(auto & e : w.log) if(e.exc == 3) bad("only the documented exceptions");
    std::set<std::string> seen; std::set<int> used;
    if(w.log.size() < 62 && !lin(w.log, 0, St(), used, seen)) bad("the results are those of some sequential order of the operations");
  }
  std::vector<World> small() {
    std::vector<World> v;
    auto add = [&](int nsub, int pre, std::vector<std::vector<Op>> p, int preempt = 1 << 20) { World w; w.nsub = nsub; w.preload = pre; w.prog = p; w.preempt = preempt; v.push_back(w); };
    add(2, 0, {{{PUT, 0}}, {{PUT, 0}}, {{GET, 0}, {GET, 0}}});
    add(2, 0, {{{PUT, 0}, {PUT, 0}}, {{PUT, 0}, {PUT, 0}}});
    add(1, 1, {{{GET, 0}}, {{GET, 0}}, {{READY, 0}}});
    add(1, 2, {{{GET, 0}}, {{CLEAR, 0}}, {{PUT, 0}}});
    add(2, 1, {{{UNSUB, 0}}, {{GET, 0}}, {{PUTX, 1}}});
    add(1, 1, {{{SUBSCRIBE, -1}, {GET, -1}}, {{PUT, 0}}, {{SUBSCRIBE, -1}}});
    add(2, 1, {{{MIN, -1}}, {{GET, 0}, {GET, 1}}, {{PUT, -1}}});
    add(1, 0, {{{COUNT, -1}, {COUNT, -1}}, {{SUBSCRIBE, -1}, {DESTROY, -1}}, {{UNSUB, 0}}});
    add(1, 0, {{{FOREIGN, -1}, {PUT, -1}}, {{GET, 0}, {FOREIGN, -1}}});
    add(1, 0, {{{UNSUB, 0}, {GET, 0}}, {{PUT, 0}, {GET, 0}}});
    add(2, 0, {{{DESTROY, 0}}, {{UNSUB, 0}}, {{COUNT, 0}}}); v.back().prog[2].resize(1);
    add(2, 0, {{{PUTX, 0}, {GET, 0}}, {{PUTX, 1}, {GET, 1}}}, 3);
    return v;
  }
}
uint64_t drv_enumerated(const std::string &) { return small().size(); }
void drv_case(const std::string & pid, Ctx & x, Rng & r, uint64_t n) {
  auto sm = small();
  if(n < sm.size()) {
    World w = sm[n]; sched::DfsChooser d; long cap = x.thorough ? 300000 : 20000, k = 0;
    x.say("all schedules of: " + conf(w));
    do { execute(w, d); judge(x, w); x.sh->beat = x.sh->beat + 1; } while(++k < cap && d.next());
    x.more(", executions: " + std::to_string(k));
    x.sh->nontriv = x.sh->nontriv + k;
    return;
  }
  World w; w.nsub = (int) r.below(4); w.preload = w.nsub ? (int) r.below(3) : 0; w.preempt = r.chance(60) ? 1 << 20 : 1 + (int) r.below(4); w.memory = r.chance(70) ? 5 + (int) r.below(60) : 0;
  int T = 2 + (int) r.below(3); std::set<int> destroyed; std::vector<int> owner; for(int i = 0; i < w.nsub; i++) owner.push_back(-1);
  for(int i = 0; i < w.nsub; i++) if(r.chance(25)) owner[i] = (int) r.below(T);     // only its owner uses a handle that may be destroyed
  for(int t = 0; t < T; t++) {
    std::vector<Op> p; int L = 1 + (int) r.below(4); std::set<int> gone; bool mine = false;
    for(int k = 0; k < L; k++) {
      int a = (int) r.below(100); Op o; o.own = -1;
      if(a < 8) { o.k = SUBSCRIBE; mine = true; p.push_back(o); continue; }
      if(a < 32) { o.k = PUT; p.push_back(o); continue; }
      if(a < 38) { o.k = COUNT; p.push_back(o); continue; }
      if(a < 43) { o.k = MIN; p.push_back(o); continue; }
      if(a < 47) { o.k = FOREIGN; p.push_back(o); continue; }
      std::vector<int> can; for(int i = 0; i < w.nsub; i++) if((owner[i] < 0 || owner[i] == t) && !gone.count(i)) can.push_back(i);
      if(mine && r.chance(40)) o.own = -1; else if(can.empty()) continue; else o.own = r.pick(can);
      if(a < 72) o.k = GET; else if(a < 80) o.k = READY; else if(a < 86) o.k = CLEAR; else if(a < 92) o.k = PUTX; else if(a < 96) o.k = UNSUB; else o.k = DESTROY;
      if(o.k == UNSUB && o.own < 0) o.k = READY;
      if(o.k == DESTROY) { if(o.own >= 0 && owner[o.own] != t) o.k = GET; else if(o.own >= 0) gone.insert(o.own); else mine = false; }
      p.push_back(o);
    }
    // put with an ended subscription as the excluded sender posts to everyone, which is what the model does too
    w.prog.push_back(p);
  }
  x.say(conf(w));
  for(int i = 0; i < 12; i++) { sched::RandomChooser ch(r.next(), (int) r.below(4)); execute(w, ch); judge(x, w); }
}
