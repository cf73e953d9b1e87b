// Public interface of the deterministic simulator. Harness code (instrumented) talks to the runtime (not instrumented)
// only through these functions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim
{
// ---- scenario registry ---------------------------------------------------------------------------------------------
struct Scenario
{
    const char* name;
    void (*fn)();
    unsigned weight;
};
void register_scenario(const Scenario&);
struct Registrar
{
    Registrar(const char* n, void (*f)(), unsigned w) { register_scenario({n, f, w}); }
};
#define SIM_SCENARIO(NAME, WEIGHT)                                            \
    static void scenario_##NAME();                                            \
    static const ::sim::Registrar registrar_##NAME{#NAME, &scenario_##NAME, WEIGHT}; \
    static void scenario_##NAME()

// ---- choices -------------------------------------------------------------------------------------------------------
uint32_t param(uint32_t n, const char* name = "p");           // uniform in [0,n); 0 is the simplest value
uint32_t param_range(uint32_t lo, uint32_t hi, const char* name = "p");
bool     flip(const char* name = "b");
bool     fault(const char* kind, unsigned permille);          // a fault point: true when the fault is injected here
uint32_t fault_pick(uint32_t n);                              // detail of a fault that has just fired

// ---- schedule / time -----------------------------------------------------------------------------------------------
void     yield(unsigned n = 1);                               // n explicit scheduling points
int64_t  now();                                               // virtual monotonic time, ns (does not tick)
int64_t  clock_base();                                        // steady_clock reading at virtual time 0
void     sleep_ns(int64_t ns);                                // block the calling sim thread in virtual time
void     advance_ns(int64_t ns);                              // pass CPU time: nobody else runs, the clock moves
uint32_t tid();
uint64_t seq();                                               // global event sequence number (increments at each call)
void     progress();                                          // tells the livelock detector that work was done
unsigned runnable_others();                                   // how many other threads could run now
// Block the calling thread until every other thread is blocked or finished, ignoring timers later than `until`.
void     quiesce(int64_t until_ns = INT64_MAX);

// ---- verdicts ------------------------------------------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // recorded in the (hashed) event log
void probe(const char* name);                                         // "this rare condition was reached"
void allow_idle_threads();                                            // threads parked on a condvar at the end are fine
void allow_leaks();
void allow_races();                                                    // scenario whose harness is not race-clean by design
void enable_alloc_faults(unsigned permille);                          // of the calling thread
void set_no_time_slip();                                               // scenario needs an ideal clock
void set_max_steps(int n);                                             // of this run (150000)
void set_tick(int64_t ns);
bool time_exact();                                                     // no time slip fault has been injected in this run so far
bool terminate_expected(bool v);

// ---- quiet sections: harness bookkeeping that is neither scheduled nor race checked -----------------------------------
void quiet_enter();
void quiet_leave();
struct Quiet
{
    Quiet() { quiet_enter(); }
    ~Quiet() { quiet_leave(); }
    Quiet(const Quiet&)            = delete;
    Quiet& operator=(const Quiet&) = delete;
};
size_t live_allocations(); // operator-new blocks alive that were made by non-quiet simulated code
} // namespace sim

#define SIM_CHECK(cond, cls, ...)            \
    do                                       \
    {                                        \
        if (!(cond)) ::sim::fail(cls, __VA_ARGS__); \
    } while (0)
