// Deterministic simulator core: one choice tape decides everything.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices --
// Every decision of a run (workload, schedule, fault) is one draw from the
// tape.  In seed mode the tape is filled from a PRNG; in replay mode it is read
// back (0 once exhausted).  0 is always the simplest outcome, so that the
// minimiser can shrink by deleting and lowering draws.
uint32_t choose(uint32_t n, const char* tag);         // uniform in [0,n)
bool flip(uint32_t num, uint32_t den, const char* tag);  // true w.p. num/den
inline int range(int lo, int hi, const char* tag) {   // uniform in [lo,hi]
  return lo + (int)choose((uint32_t)(hi - lo + 1), tag);
}

// Bulk data (matrix values, ...): a private generator seeded by one draw.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }  // [0,1)
  double sym() { return 2 * uni() - 1; }
  uint32_t below(uint32_t n) { return (uint32_t)(next() % n); }
};
Rng data_rng(const char* tag);

// -------------------------------------------------------------- reporting --
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed)
void mix(uint64_t x);                       // into the execution hash
void mix_bytes(const void* p, size_t n);
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));  // property violated
void fault(const char* kind, uint64_t n = 1);  // an injected fault actually fired
void probe(const char* name, uint64_t n = 1);  // a rare condition was reached
void nontrivial();                          // this run exercised the property
bool verbose();
std::string scratch_dir();                  // private, exists, emptied per run
const std::string& mode();                  // harness mode (--mode)

// ----------------------------------------------------------------- fibers --
struct Fiber;
Fiber* current();
void* fiber_user(Fiber*);
// Spawn a task (does not run until the scheduler picks it).
Fiber* spawn(std::function<void()> fn, const std::string& name, void* user);
void yield(const char* where);              // a point where others may run
void block_until(const std::function<bool()>& pred, const char* where);
bool fiber_done(Fiber*);
const char* fiber_where(Fiber*);
// exception text if the task ended by throwing ("" otherwise)
const std::string& fiber_error(Fiber*);

enum class RunStatus { done, aborted };
// Run all tasks spawned since the last run_all() until all are done.  Deadlock
// and exceeding max_steps are violations.
RunStatus run_all(uint64_t max_steps);
// From inside a task: the whole job dies here (crash); run_all returns aborted.
[[noreturn]] void abort_job(const char* why);
uint64_t steps();

// Pseudo-tasks (message arrivals): how many are enabled, and run the i-th.
void set_event_source(std::function<size_t()> count, std::function<void(size_t)> fire);
// Extra text for deadlock reports.
void set_deadlock_report(std::function<std::string()> f);
// Called whenever a task is resumed / for simulated time accounting.
void advance_time(uint64_t ns);             // current task's clock
uint64_t task_time();
void add_sim_time(uint64_t ns);

// schedule policy for this run (drawn by run_all on first use)
const char* policy_name();
// in harness: use only deterministic round-robin switching (no schedule draws)
void fixed_schedule(bool on);

// Of the allocations (operator new) the tasks make, let `skip` succeed and then `len` fail; ends with the task.
void fail_allocations(uint64_t skip, uint64_t len);
void allocations_ok();
bool allocation_failed();
struct Internal { Internal(); ~Internal(); };   // the simulator's own allocations do not count
bool in_run();
}  // namespace sim

// Provided by each harness -----------------------------------------------
extern const char* const harness_property;
void harness_run();
void harness_init();  // once per process
