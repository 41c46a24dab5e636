// Deterministic cooperative scheduler: the threads of a test are fibers, and the pthread primitives the real
// code uses are interposed, so that every schedule, expiry and spurious wake-up is chosen by the driver.
// The instrumented code (-fsanitize=thread, with the runtime of sched.cxx) is also checked for data races.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
  enum Kind { RUN = 0, EXPIRE = 1, SPURIOUS = 2 };
  struct Opt { int fib; int kind; };
  struct Cfg {
    int preempt = 1 << 30, expire = 0, spurious = 0;    // budgets
    int memory = 0;                                      // percentage of accesses to the watched object that are scheduling points
    const char * lo = nullptr; const char * hi = nullptr; // the watched object
    long maxsteps = 30000;
  };
  struct Expiry { int fib; long at; int64_t deadline; };
  struct Result {
    bool deadlock = false, limit = false, unsupported = false; std::string race, lockerr, trace;
    std::vector<int> blocked;       // fibers waiting on a condition variable at the end
    std::vector<int> stuck;         // fibers waiting for a mutex at the end
    std::vector<Expiry> expiries;
    long steps = 0;
  };
  // decides among the options; stateless for random, stateful for depth-first search
  struct Chooser { virtual int pick(const std::vector<Opt> & o, int cur) = 0; virtual ~Chooser() {} };
  struct RandomChooser : Chooser {
    uint64_t s; int mode; std::vector<int> prio; int change;
    RandomChooser(uint64_t seed, int mode);
    uint64_t next(); int pick(const std::vector<Opt> & o, int cur) override;
  };
  struct DfsChooser : Chooser {
    std::vector<std::pair<int, int>> st; size_t pos = 0; bool first = true;
    int pick(const std::vector<Opt> & o, int cur) override;
    bool next();        // advance to the next schedule; false when exhausted
  };
  Result run(const std::vector<std::function<void()>> & body, const Cfg & cfg, Chooser & ch);
  int self();                       // current fiber or -1
  void point();                     // explicit scheduling point
  int held();                       // mutexes held by the current fiber
  long step();                      // logical time
  int expired();                    // expiries so far
  int64_t vnow();                   // virtual time, ns
  int64_t last_deadline(int fib);   // deadline of the last timed wait minus the time it started (ns), -1 if untimed, -2 if none
  void forget_deadline(int fib);
  bool blocked_now(int fib);        // the fiber is waiting on a condition variable
  extern int quiet;
  extern std::string main_lockerr;  // misuse of a mutex outside run()
  struct Quiet { Quiet(); ~Quiet(); };   // bookkeeping of the driver itself
}
