// M01-M03: sequential histories of mailbox operations compared with a map from ids to queues
#include "drv.hxx"
#include <MailBox.hxx>
#include <memory>
#include <deque>
using namespace drv;
namespace {
  struct Msg { long v; };
  struct Other { char c; };
  typedef SoDa::MailBox<Msg> MB; typedef std::shared_ptr<MB> MBP; typedef MB::Subscription Sub; typedef std::shared_ptr<Msg> MP;
  enum { SUBSCRIBE, PUT, PUTX, GET, READY, CLEAR, UNSUB, DESTROY, MIN, COUNT };
  struct Handle { int mb; int id; Sub s; };
  struct Box { MBP p; std::string name; std::map<int, std::deque<MP>> q; std::set<int> used; };
  struct World {
    Ctx * x = nullptr; std::vector<Box> b; std::vector<Handle> h; std::string tr; long nmsg = 0; bool misuse = false; bool quietmode = false;
    void note(const std::string & s) { if(tr.size() < 6000) tr += (tr.empty() ? "" : "; ") + s; }
    void bad(const std::string & e, const std::string & a) { x->say(tr); x->fail(e, a); }
    World(Ctx & c, int nb, bool samename = false) : x(&c) { for(int i = 0; i < nb; i++) { Box k; k.name = samename ? "box" : "box" + std::to_string(i); k.p = SoDa::makeMailBox<Msg>(k.name); b.push_back(std::move(k)); } }
    bool alive(int i) { return b[h[i].mb].q.count(h[i].id) != 0; }
    std::string hn(int i) { return "s" + std::to_string(i) + (alive(i) ? "" : "(ended)") + "@" + b[h[i].mb].name; }
    void subscribe(int m) {
      note("s" + std::to_string(h.size()) + " = " + b[m].name + ".subscribe()");
      Handle k; k.mb = m; k.s = b[m].p->subscribe();
      if(k.s == nullptr) bad("subscribe returns a subscription", "null");
      k.id = k.s->getIndex(b[m].p.get());
      if(b[m].used.count(k.id)) bad("subscribe gives a new id", "id " + std::to_string(k.id) + " was given before");
      b[m].used.insert(k.id); b[m].q[k.id]; h.push_back(std::move(k));
    }
    // runs f; returns 0 normal, 1 mismatch, 2 missing, 3 other
    template <class F> int guard(F f, std::string & what) {
      try { f(); return 0; }
      catch(MB::SubscriptionMismatch & e) { what = e.what(); return 1; }
      catch(MB::MissingSubscriber & e) { what = e.what(); return 2; }
      catch(SoDa::Exception & e) { what = e.what(); return 3; }
    }
    void expect(int rc, int want, const std::string & what) {
      static const char * N[] = {"normal return", "SubscriptionMismatch", "MissingSubscriber", "another exception"};
      if(rc != want) bad(std::string("outcome of the last operation: ") + N[want], std::string(N[rc]) + " " + what);
    }
    int verdict(int m, int i) { return h[i].mb != m ? 1 : alive(i) ? 0 : 2; }
    void get(int m, int i) {
      note(b[m].name + ".get(" + hn(i) + ")"); MP r; std::string w;
      int v = verdict(m, i); expect(guard([&]() { r = b[m].p->get(h[i].s); }, w), v, w); if(v) return;
      auto & q = b[m].q[h[i].id]; MP want = q.empty() ? nullptr : q.front();
      if(r != want || r.owner_before(want) || want.owner_before(r)) bad(want ? "get returns the oldest pending message #" + std::to_string(want->v) : "get returns null", r ? "message #" + std::to_string(r->v) : "null");
      if(!q.empty()) q.pop_front();
    }
    void ready(int m, int i) {
      note(b[m].name + ".readyCount(" + hn(i) + ")"); unsigned r = 0; std::string w;
      int v = verdict(m, i); expect(guard([&]() { r = b[m].p->readyCount(h[i].s); }, w), v, w);
      if(!v && r != b[m].q[h[i].id].size()) bad("readyCount = " + std::to_string(b[m].q[h[i].id].size()), std::to_string(r));
    }
    void clear(int m, int i) {
      note(b[m].name + ".clear(" + hn(i) + ")"); std::string w; int v = verdict(m, i);
      expect(guard([&]() { b[m].p->clear(h[i].s); }, w), v, w); if(!v) b[m].q[h[i].id].clear();
    }
    void unsub(int m, int id) {
      note(b[m].name + ".unsubscribe(" + std::to_string(id) + ")"); std::string w; int v = b[m].q.count(id) ? 0 : 2;
      expect(guard([&]() { b[m].p->unsubscribe(id); }, w), v, w); b[m].q.erase(id);
    }
    void put(int m, int i, bool nul = false) {      // i < 0: no excluded sender
      MP p = nul ? nullptr : std::make_shared<Msg>(); if(p) p->v = ++nmsg;
      note(b[m].name + ".put(" + (p ? "#" + std::to_string(p->v) : "null") + (i >= 0 ? ", " + hn(i) : "") + ")"); std::string w;
      if(i >= 0 && h[i].mb == m && !alive(i)) return;        // unspecified
      int v = i < 0 ? 0 : verdict(m, i);
      expect(guard([&]() { if(i < 0) b[m].p->put(p); else b[m].p->put(p, h[i].s); }, w), v, w); if(v) return;
      for(auto & e : b[m].q) if(i < 0 || e.first != h[i].id) e.second.push_back(p);
    }
    void destroy(int i) { note("destroy " + hn(i)); h[i].s.reset(); b[h[i].mb].q.erase(h[i].id); h.erase(h.begin() + i); }
    void counts(int m) {
      unsigned c = b[m].p->subscriberCount(); if(c != b[m].q.size()) bad(b[m].name + ".subscriberCount() = " + std::to_string(b[m].q.size()), std::to_string(c));
      if(b[m].q.empty()) return;
      size_t mn = ~0ul; for(auto & e : b[m].q) mn = std::min(mn, e.second.size());
      unsigned r = b[m].p->minReadyCount(); if(r != mn) bad(b[m].name + ".minReadyCount() = " + std::to_string(mn), std::to_string(r));
    }
    void all() {
      for(int m = 0; m < (int) b.size(); m++) counts(m);
      for(size_t i = 0; i < h.size(); i++) if(alive(i)) {
        unsigned r = b[h[i].mb].p->readyCount(h[i].s);
        if(r != b[h[i].mb].q[h[i].id].size()) bad("readyCount of " + hn(i) + " = " + std::to_string(b[h[i].mb].q[h[i].id].size()), std::to_string(r));
      }
    }
    void drain() {
      all();
      for(size_t i = 0; i < h.size(); i++) if(alive(i)) { while(!b[h[i].mb].q[h[i].id].empty()) get(h[i].mb, i); get(h[i].mb, i); }
      all();
      while(!h.empty()) { destroy((int) h.size() - 1); for(int m = 0; m < (int) b.size(); m++) counts(m); }
    }
  };
  const int A = 12, LEN = 6;      // exhaustive histories on one mailbox with up to two handles
  bool apply(World & w, int a) {
    auto has = [&](int i) { return i < (int) w.h.size(); };
    switch(a) {
    case 0: if(w.h.size() >= 3) return false; w.subscribe(0); return true;
    case 1: w.put(0, -1); return true;
    case 2: if(!has(0) || !w.alive(0)) return false; w.put(0, 0); return true;
    case 3: if(!has(1) || !w.alive(1)) return false; w.put(0, 1); return true;
    case 4: if(!has(0)) return false; w.get(0, 0); return true;
    case 5: if(!has(1)) return false; w.get(0, 1); return true;
    case 6: if(!has(0)) return false; w.clear(0, 0); return true;
    case 7: if(!has(1)) return false; w.clear(0, 1); return true;
    case 8: if(!has(0)) return false; w.unsub(0, w.h[0].id); return true;
    case 9: if(!has(1)) return false; w.unsub(0, w.h[1].id); return true;
    case 10: if(!has(0)) return false; w.destroy(0); return true;
    case 11: if(!has(1)) return false; w.destroy(1); return true;
    }
    return false;
  }
  void conversions(Ctx & x, Rng & r) {
    std::string nm = r.chance(20) ? "" : "mail" + std::to_string(r.below(1000));
    auto a = SoDa::makeMailBox<Msg>(nm); auto o = SoDa::makeMailBox<Other>(nm + "o");
    std::shared_ptr<SoDa::MailBoxBase> pa = a, po = o, pb = std::make_shared<SoDa::MailBoxBase>(nm);
    x.say("conversions of mailboxes named " + show(nm));
    if(pa->getName() != nm || po->getName() != nm + "o") x.fail("getName returns the name", show(pa->getName()));
    auto s = a->subscribe(); auto m = std::make_shared<Msg>(); m->v = 5; a->put(m);
    auto ca = SoDa::MailBoxBase::convert<MB>(pa); if(ca.get() != a.get()) x.fail("converting to its own type returns the same mailbox", "another one");
    if(ca->readyCount(s) != 1 || ca->get(s) != m) x.fail("the converted pointer is the same mailbox", "different contents");
    auto co = SoDa::MailBoxBase::convert<SoDa::MailBox<Other>>(po); if(co.get() != o.get()) x.fail("converting to its own type returns the same mailbox", "another one");
    auto cb = SoDa::MailBoxBase::convert<SoDa::MailBoxBase>(pa); if(cb.get() != a.get()) x.fail("converting to the base type returns the same mailbox", "another one");
    auto wrong = [&](std::function<void()> f, const char * w) { bool ok = false; std::string g = "no exception"; try { f(); } catch(SoDa::MailBoxBase::BadConversion & e) { ok = true; } catch(std::exception & e) { g = e.what(); } if(!ok) x.fail(std::string("BadConversion for ") + w, g); };
    wrong([&]() { SoDa::MailBoxBase::convert<SoDa::MailBox<Other>>(pa); }, "MailBox<Msg> to MailBox<Other>");
    wrong([&]() { SoDa::MailBoxBase::convert<MB>(po); }, "MailBox<Other> to MailBox<Msg>");
    wrong([&]() { SoDa::MailBoxBase::convert<MB>(pb); }, "a plain MailBoxBase to MailBox<Msg>");
    if(pa.use_count() < 2 || a->subscriberCount() != 1) x.fail("a failed conversion changes nothing", "changed");
  }
  void volume(Ctx & x, Rng & r) {
    World w(x, 1); w.tr = "many messages and subscriptions: ";
    long n = r.pick(std::vector<long>{255, 256, 257, 1000, 65536, 70000});
    w.subscribe(0); w.subscribe(0);
    for(long i = 0; i < n; i++) w.put(0, i % 5 == 4 ? 1 : -1);
    w.all(); w.ready(0, 0); w.get(0, 0); w.ready(0, 0);
    for(long i = 0; i < n / 2; i++) { w.get(0, 0); }
    w.clear(0, 0); w.all(); w.drain();
    World u(x, 1); u.tr = "many short subscriptions: ";
    u.subscribe(0); u.put(0, -1);
    for(long i = 0; i < n; i++) { u.subscribe(0); if(r.chance(50)) u.unsub(0, u.h[1].id); u.destroy(1); }
    u.subscribe(0); u.all(); u.drain();
  }
}
uint64_t drv_enumerated(const std::string & pid) { return A * A; }
void drv_case(const std::string & pid, Ctx & x, Rng & r, uint64_t n) {
  if(n < (uint64_t) A * A) {
    std::vector<int> s(LEN, 0); s[0] = (int)(n / A); s[1] = (int)(n % A); long done = 0;
    x.say("all histories of " + std::to_string(LEN) + " operations starting with operations " + std::to_string(s[0]) + ", " + std::to_string(s[1]));
    int len = LEN + (x.thorough ? 1 : 0); s.resize(len, 0);
    for(;;) {
      World w(x, 1); w.subscribe(0); int bad = -1;
      for(int k = 0; k < len && bad < 0; k++) if(!apply(w, s[k])) bad = k;
      if(bad < 0) { w.drain(); done++; x.sh->beat = x.sh->beat + 1; }
      int k = bad < 0 ? len - 1 : bad;
      for(int j = k + 1; j < len; j++) s[j] = 0;
      while(k >= 2 && ++s[k] == A) { s[k] = 0; k--; }
      if(k < 2) break;
    }
    x.sh->nontriv = x.sh->nontriv + done;
    return;
  }
  if(n % 400 == 151) { volume(x, r); return; }
  if(pid == "M03" && n % 5 == 2) { conversions(x, r); return; }
  int nb = pid == "M03" ? 2 + (int) r.below(2) : 1 + (int) r.below(2);
  World w(x, nb, r.chance(40)); int steps = 5 + (int) r.below(60), mis = pid == "M03" ? 30 : pid == "M02" ? 5 : 0, maxh = 1 + (int) r.below(6);
  x.say("history");
  for(int k = 0; k < steps; k++) {
    int m = (int) r.below(nb), nh = (int) w.h.size(); if(w.h.empty() || r.chance(nh < maxh ? 15 : 1)) { w.subscribe(m); continue; }
    int i = (int) r.below(nh); int hm = r.chance(mis) ? m : w.h[i].mb;
    switch(r.below(12)) {
    case 0: case 1: case 2: w.put(m, -1, r.chance(5)); break;
    case 3: case 4: w.put(hm, i); break;
    case 5: case 6: case 7: w.get(hm, i); break;
    case 8: w.ready(hm, i); break;
    case 9: w.clear(hm, i); break;
    case 10: if(r.chance(60)) { if(r.chance(mis)) { static const std::vector<int> X = {-1, -2147483647, 2147483647, 1000, 7}; w.unsub(m, r.chance(50) ? r.pick(X) : w.h[i].id + (int) r.below(3)); } else w.unsub(w.h[i].mb, w.h[i].id); } else if(r.chance(40)) w.destroy(i); break;
    case 11: w.counts(m); break;
    }
    if(r.chance(pid == "M01" ? 10 : 50)) w.all();
  }
  w.drain();
  x.say(w.tr);
}
