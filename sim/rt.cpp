// Deterministic simulator runtime.
//
// Every simulated thread is a real pthread, but exactly one of them holds the baton at any time; who gets it next is
// decided here, from the seed. The library under test is compiled with -fsanitize=thread and linked against THIS file
// instead of libtsan, so each atomic operation, each plain memory access and (by symbol interposition) each
// mutex / condition variable / thread / clock / allocation call of the real code arrives here.
//   * atomics + pthread calls  -> scheduling points
//   * plain accesses           -> happens-before race detection + use-after-free detection
//   * clocks, sleeps, timeouts -> virtual time
//   * fault points             -> spurious wake-ups, weak-CAS failures, allocation failures, time slips, thread stalls,
//                                 and the harness-level faults that go through sim::fault()
// Each run happens in a forked child of a pristine zygote, so no state leaks from run to run.
#ifndef _GNU_SOURCE
    #define _GNU_SOURCE 1
#endif
#include "sim.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void  __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);

typedef uint8_t  u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t  i64;

#define NOINLINE __attribute__((noinline))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

namespace
{
constexpr int MAXT       = 64;
constexpr int SHSTACK    = 1024;
constexpr u32 SPIN_LIMIT = 400;
constexpr u64 STARVE_LIMIT = 4000; // steps after which a runnable thread is picked whatever the strategy says

struct VC
{
    u32 c[MAXT];
};

enum St : u8
{
    FREE,
    RUNNABLE,
    BLOCKED,
    DONE
};

enum Why : u8
{
    W_NONE,
    W_MUTEX,
    W_COND,
    W_JOIN,
    W_SLEEP,
    W_FUTEX,
    W_QUIESCE,
    W_GUARD,
    W_EPOLL,
    W_RW,
};
const char* why_name[] = {"none", "mutex", "condvar", "join", "sleep", "futex", "quiesce", "static-guard", "epoll", "rwlock"};

struct Thread
{
    int       id;
    St        state;
    Why       why;
    bool      timed_out;
    bool      signaled;
    bool      detached;
    int       exit_rounds;
    int       quiet;
    u32       alloc_fault_permille;
    int       guard_depth;
    int       in_rt;
    void*     obj;
    i64       deadline; // INT64_MAX: none
    u64       wait_seq;
    VC        vc;
    VC        fence_acq; // pending acquire from relaxed loads (for acquire fences)
    VC        fence_rel; // release fence snapshot
    bool      has_fence_rel;
    u32       consec;  // scheduling points since it last got the baton / made progress
    u64       ops;     // scheduling points of this thread
    u64       prio;    // PCT
    u64       waiting_since; // step since which this runnable thread has not been picked (0: running or blocked)
    u64       frozen_until;
    int       go; // futex
    pthread_t pt;
    void* (*fn)(void*);
    void*     arg;
    void*     ret;
    uintptr_t stk[SHSTACK];
    int       sp;
    char      altstack[32768];
};

struct Slot
{
    u32 clk;
    u8  tid;
    u8  mask;
    u8  flags; // 1 write, 2 atomic, 4 valid, 8 free
    u8  pad;
    u64 pc;
    u64 pc2;
};

struct Cell
{
    Slot s[4];
};

struct ShadowPage
{
    Cell c[512];
};

struct SyncVar
{
    VC  vc;
    u32 id;
    // mutex state
    int owner; // tid+1
    int count;
    int readers;
    u32 epoch_seq;
};

struct AllocHdr
{
    u64    magic;
    size_t size;
    u32    flags; // 1 opnew, 2 counted (non quiet), 4 freed, 8 static
    u32    tid;
    u64    pc[6];
};
constexpr u64 ALLOC_MAGIC = 0x51b0a110c8ULL;

struct NamedCount
{
    char name[40];
    u64  n;
};

struct Decision
{
    char kind; // S sched, T time slip, F fault, D fault detail, W wake choice, P param
    u64  key;
    u64  val;
};

constexpr int MAXDEC   = 120000;
constexpr int MAXPARAM = 4000;

struct Result
{
    int        status; // 0 not finished, 1 ok, 2 violation, 3 aborted (budget)
    char       cls[96];
    char       msg[6000];
    char       scenario[64];
    u64        hash, ilhash, statehash;
    u64        steps, switches, nthreads, accesses;
    i64        simtime;
    int        nfaults, nprobes;
    NamedCount faults[40];
    NamedCount probes[120];
    int        ndec;
    int        dec_overflow;
    Decision   dec[MAXDEC];
    int        nparams;
    struct
    {
        u32  n, v;
        char name[16];
    } params[MAXPARAM];
    int  npcs[3];
    u64  pcs[3][24];
    int  strategy;
    u64  tracelen;
    char trace[512 * 1024];
};

struct Rng
{
    u64  s;
    u64  next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u32  below(u32 n) { return n <= 1 ? 0 : (u32)((next() >> 11) % n); }
    bool permille(u32 p) { return below(1000) < p; }
};

struct Global
{
    bool    active;
    bool    replay;       // explicit decisions
    bool    params_fixed; // explicit params, random schedule
    bool    verbose;
    u64     seed;
    Rng     rs, rp, rf; // schedule, params, faults
    i64     now;
    i64     tick;
    u64     steps, switches, accesses;
    u64     seqno;
    u64     last_progress;
    u64     clock_reads;
    int     nthreads;
    int     max_steps;
    Thread* cur;
    u64     hash, ilhash, statehash;
    bool    idle_ok, leaks_ok, races_ok, expect_term;
    u64     alloc_counter;
    bool    no_slip;
    u32     nslips;
    // swarm configuration
    int  strategy;
    u32  p_switch;   // permille
    u32  p_slip;     // permille*10 per step
    i64  slip_max;
    u32  p_spurious; // permille
    u32  p_casfail;
    bool fault_enabled_mask[64];
    u64  pct_points[8];
    int  npct;
    u64  prio_low;
    struct
    {
        int tid;
        u64 op;
        u64 dur;
    } stalls[4];
    int nstalls;
    u64 fault_idx;
    u64 detail_idx;
    u64 wake_idx;
    u64 last_fault_key;
    size_t live;
    int done; // futex for the coordinator
};

Global  g;
Thread* g_threads; // MAXT
Result* R;
thread_local Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;
pthread_key_t                                                                   exit_key;

std::vector<sim::Scenario>* g_scen;

// replay inputs (zygote memory, copied by fork)
std::map<std::pair<char, u64>, u64>* g_dec;
std::vector<u32>*                    g_params;

// ---- bump allocator ------------------------------------------------------------------------------------------------
char*        bump_base;
size_t       bump_off;
constexpr size_t BUMP_SIZE = 1ull << 30;
inline bool  in_bump(const void* p) { return (const char*)p >= bump_base && (const char*)p < bump_base + BUMP_SIZE && bump_base; }

// ---- shadow --------------------------------------------------------------------------------------------------------
ShadowPage** bump_shadow; // BUMP_SIZE/4096 entries
struct PageEnt
{
    u64         page;
    ShadowPage* sp;
};
constexpr u32 PAGE_HASH = 1 << 16;
PageEnt*      page_hash;
char*         shadow_pool;
size_t        shadow_off;
constexpr size_t SHADOW_POOL = 8ull << 30;

struct SyncEnt
{
    u64      addr;
    SyncVar* sv;
};
constexpr u32 SYNC_HASH = 1 << 17;
SyncEnt*      sync_hash;
u32           n_sync;
VC            fence_vc;

void* mm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        _exit(70);
    }
    return p;
}

ShadowPage* new_page()
{
    ShadowPage* sp = (ShadowPage*)(shadow_pool + shadow_off);
    shadow_off += (sizeof(ShadowPage) + 63) & ~63ull;
    if (shadow_off > SHADOW_POOL)
        _exit(71);
    return sp;
}

inline ShadowPage* shadow_page(uintptr_t a, bool create)
{
    if (in_bump((void*)a))
    {
        ShadowPage*& e = bump_shadow[(a - (uintptr_t)bump_base) >> 12];
        if (!e && create)
            e = new_page();
        return e;
    }
    u64 pg = a >> 12;
    u32 h  = (u32)((pg * 0x9e3779b97f4a7c15ULL) >> 48) & (PAGE_HASH - 1);
    while (page_hash[h].sp)
    {
        if (page_hash[h].page == pg)
            return page_hash[h].sp;
        h = (h + 1) & (PAGE_HASH - 1);
    }
    if (!create)
        return nullptr;
    page_hash[h].page = pg;
    page_hash[h].sp   = new_page();
    return page_hash[h].sp;
}

SyncVar* sync_of(void* addr)
{
    u64 a = (u64)addr;
    u32 h = (u32)((a * 0x9e3779b97f4a7c15ULL) >> 47) & (SYNC_HASH - 1);
    while (sync_hash[h].sv)
    {
        if (sync_hash[h].addr == a)
            return sync_hash[h].sv;
        h = (h + 1) & (SYNC_HASH - 1);
    }
    SyncVar* sv = (SyncVar*)(shadow_pool + shadow_off);
    shadow_off += (sizeof(SyncVar) + 63) & ~63ull;
    if (n_sync > SYNC_HASH / 2)
        _exit(72);
    sv->id            = ++n_sync;
    sync_hash[h].addr = a;
    sync_hash[h].sv   = sv;
    return sv;
}

// ---- small helpers -------------------------------------------------------------------------------------------------
inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}

inline void vc_join(VC& a, const VC& b)
{
    for (int i = 0; i < g.nthreads; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
inline void vc_copy(VC& a, const VC& b) { memcpy(a.c, b.c, sizeof(u32) * (size_t)g.nthreads); }

struct InRt
{
    InRt()
    {
        if (self)
            self->in_rt++;
    }
    ~InRt()
    {
        if (self)
            self->in_rt--;
    }
};

inline bool live() { return self && g.active && !self->quiet && !self->in_rt; }
inline bool simmed() { return self && g.active && !self->in_rt; } // pthread calls are simulated even in quiet sections

void trace_raw(const char* s, size_t n)
{
    if (R->tracelen + n + 1 < sizeof(R->trace))
    {
        memcpy(R->trace + R->tracelen, s, n);
        R->tracelen += n;
    }
}
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char* fmt, ...)
{
    if (!g.verbose)
        return;
    char    b[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > 0)
        trace_raw(b, std::min<size_t>((size_t)n, sizeof b - 1));
}

void count(NamedCount* a, int& n, int cap, const char* name)
{
    for (int i = 0; i < n; ++i)
        if (!strncmp(a[i].name, name, sizeof(a[i].name) - 1))
        {
            a[i].n++;
            return;
        }
    if (n < cap)
    {
        snprintf(a[n].name, sizeof(a[n].name), "%s", name);
        a[n].n = 1;
        n++;
    }
}
void count_fault(const char* name) { count(R->faults, R->nfaults, 40, name); }

void record(char kind, u64 key, u64 val)
{
    if (R->ndec < MAXDEC)
        R->dec[R->ndec++] = {kind, key, val};
    else
        R->dec_overflow = 1;
}
bool lookup(char kind, u64 key, u64& val)
{
    auto it = g_dec->find({kind, key});
    if (it == g_dec->end())
        return false;
    val = it->second;
    return true;
}

void futex_wait(int* f, int v) { syscall(SYS_futex, f, FUTEX_WAIT, v, nullptr, nullptr, 0); }

void publish_stats()
{
    R->hash      = mix(mix(g.hash, (u64)g.now), g.steps);
    R->ilhash    = g.ilhash;
    R->statehash = g.statehash;
    R->steps     = g.steps;
    R->switches  = g.switches;
    R->nthreads  = (u64)g.nthreads;
    R->simtime   = g.now;
    R->accesses  = g.accesses;
    R->strategy  = g.strategy;
}

void capture_stack(int which, Thread* t, u64 pc)
{
    int n = 0;
    if (pc)
        R->pcs[which][n++] = pc;
    for (int i = std::min(t->sp, SHSTACK) - 1; i >= 0 && n < 24; --i)
        R->pcs[which][n++] = t->stk[i];
    R->npcs[which] = n;
}

[[noreturn]] NOINLINE void violate(const char* cls, const char* msg, u64 pc = 0)
{
    if (self)
        self->in_rt++;
    g.active = false;
    publish_stats();
    if (R->status == 0)
    {
        R->status = 2;
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        snprintf(R->msg, sizeof R->msg, "%s", msg);
        if (self)
            capture_stack(0, self, pc);
        R->hash = mix(R->hash, 0xbad);
        tracef("[%llu] T%d VIOLATION %s: %s\n", (unsigned long long)g.steps, self ? self->id : -1, cls, msg);
    }
    _exit(3);
}

[[noreturn]] void abort_run(const char* why)
{
    g.active = false;
    publish_stats();
    R->status = 3;
    snprintf(R->cls, sizeof R->cls, "%s", why);
    _exit(4);
}

std::string describe_threads()
{
    std::string s;
    for (int i = 0; i < g.nthreads; ++i)
    {
        Thread& t = g_threads[i];
        char    b[160];
        if (t.state == DONE)
            continue;
        snprintf(b, sizeof b, "T%d:%s%s%s obj=%u; ", i, t.state == BLOCKED ? "blocked-on-" : "runnable", t.state == BLOCKED ? why_name[t.why] : "", t.deadline != INT64_MAX ? "(timed)" : "", t.obj ? sync_of(t.obj)->id : 0);
        s += b;
    }
    return s;
}

// ---- scheduling ----------------------------------------------------------------------------------------------------
// raw hand over: wake `n`, park until somebody hands the baton back. Fault-free, decision-free.
void hand_over(Thread* me, Thread* n)
{
    g.switches++;
    g.cur  = n;
    n->consec = 0;
    __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, &n->go, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    if (me)
    {
        while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST))
            futex_wait(&me->go, 0);
        __atomic_store_n(&me->go, 0, __ATOMIC_SEQ_CST);
    }
}

inline bool is_runnable(Thread& t)
{
    if (t.state == RUNNABLE)
        return true;
    if (t.state == BLOCKED && t.deadline <= g.now)
        return true;
    return false;
}

int collect(Thread** out, bool skip_frozen)
{
    int n = 0;
    for (int i = 0; i < g.nthreads; ++i)
    {
        Thread& t = g_threads[i];
        if (!is_runnable(t))
            continue;
        if (t.state == BLOCKED && t.why == W_QUIESCE)
            continue;
        if (skip_frozen && t.frozen_until > g.steps)
            continue;
        out[n++] = &t;
    }
    return n;
}

void make_runnable(Thread& t)
{
    if (t.state == BLOCKED)
    {
        if (t.deadline <= g.now && !t.signaled)
            t.timed_out = true;
        t.state    = RUNNABLE;
        t.deadline = INT64_MAX;
    }
}

// search-mode selection among candidates
Thread* strategy_pick(Thread* cur, Thread** c, int n)
{
    if (n == 1)
        return c[0];
    bool cur_in = false;
    for (int i = 0; i < n; ++i)
        cur_in |= c[i] == cur;
    if (g.strategy == 1) // PCT
    {
        Thread* b = c[0];
        for (int i = 1; i < n; ++i)
            if (c[i]->prio > b->prio)
                b = c[i];
        return b;
    }
    if (g.strategy == 2) // run-to-block with stalls
    {
        if (cur_in)
            return cur;
        return c[g.rs.below((u32)n)];
    }
    // random walk
    if (cur_in && !g.rs.permille(g.p_switch))
        return cur;
    return c[g.rs.below((u32)n)];
}

Thread* default_pick(Thread* cur, Thread** c, int n)
{
    for (int i = 0; i < n; ++i)
        if (c[i] == cur && cur->consec < SPIN_LIMIT)
            return cur;
    for (int i = 0; i < n; ++i)
        if (c[i]->id > cur->id)
            return c[i];
    return c[0];
}

Thread* choose_next(Thread* cur)
{
    Thread* c[MAXT];
    for (;;)
    {
        int n = collect(c, false);
        if (n == 0)
        {
            // nothing can run: jump the clock to the earliest deadline, or let a quiescing thread go
            i64     best = INT64_MAX;
            Thread* q    = nullptr;
            for (int i = 0; i < g.nthreads; ++i)
            {
                Thread& t = g_threads[i];
                if (t.state != BLOCKED)
                    continue;
                if (t.why == W_QUIESCE)
                    q = &t;
                else if (t.deadline < best)
                    best = t.deadline;
            }
            if (q && (best == INT64_MAX || best > q->deadline))
            {
                if (q->deadline != INT64_MAX && q->deadline > g.now)
                    g.now = q->deadline;
                q->state    = RUNNABLE;
                q->deadline = INT64_MAX;
                continue;
            }
            if (best == INT64_MAX)
                return nullptr;
            if (best > g.now)
                g.now = best;
            continue;
        }
        Thread* def = default_pick(cur, c, n);
        Thread* r   = def;
        if (g.replay)
        {
            u64 v;
            if (n > 1 && lookup('S', g.steps, v))
                for (int i = 0; i < n; ++i)
                    if ((u64)c[i]->id == v)
                        r = c[i];
        }
        else if (n > 1)
        {
            Thread* c2[MAXT];
            int     n2 = 0;
            for (int i = 0; i < n; ++i)
                if (c[i]->frozen_until <= g.steps)
                    c2[n2++] = c[i];
            if (n2 == 0)
            {
                for (int i = 0; i < n; ++i)
                    c[i]->frozen_until = 0;
                r = strategy_pick(cur, c, n);
            }
            else
                r = strategy_pick(cur, c2, n2);
            if (cur->consec >= SPIN_LIMIT && r == cur)
            {
                // spinning: let others run (fairness)
                g.strategy == 1 ? (void)(cur->prio = g.prio_low--) : (void)0;
                for (int i = 0; i < n; ++i)
                    if (c[i] != cur)
                    {
                        r = c[(i + (int)g.rs.below((u32)n)) % n];
                        if (r == cur)
                            r = c[i];
                        break;
                    }
            }
            for (int i = 0; i < n; ++i)
                if (c[i] != r && c[i]->waiting_since && g.steps - c[i]->waiting_since > STARVE_LIMIT && c[i]->frozen_until <= g.steps)
                {
                    r = c[i];
                    if (g.strategy == 1)
                        r->prio = 2000000 + g.steps; // until its next change point
                    break;
                }
            for (int i = 0; i < n; ++i)
                if (!c[i]->waiting_since)
                    c[i]->waiting_since = g.steps;
        }
        r->waiting_since = 0;
        if (r != def)
            record('S', g.steps, (u64)r->id);
        make_runnable(*r);
        return r;
    }
}

NOINLINE void step_budget()
{
    if (g.steps > (u64)g.max_steps)
    {
        std::string s = "step budget exhausted without quiescence: " + describe_threads();
        violate("livelock", s.c_str());
    }
}

void log_op(const char* op, void* obj)
{
    if (g.verbose)
    {
        char b[64] = "";
        tracef("[%llu t=%lld] T%d %s #%u%s\n", (unsigned long long)g.steps, (long long)g.now, self->id, op, obj ? sync_of(obj)->id : 0, b);
    }
}

// A scheduling point reached by the running thread.
NOINLINE void sched_point(const char* op, u32 opcode, void* obj)
{
    Thread* t = self;
    t->in_rt++;
    g.steps++;
    t->ops++;
    t->consec++;
    step_budget();
    u32 oid  = obj ? sync_of(obj)->id : 0;
    g.hash   = mix(g.hash, ((u64)t->id << 40) ^ ((u64)opcode << 32) ^ oid);
    g.ilhash = mix(g.ilhash, ((u64)t->id << 40) ^ ((u64)opcode << 32) ^ oid);
    if (g.verbose)
        log_op(op, obj);
    // CPU stall faults: the clock runs on while this thread (and everybody) is descheduled
    if (g.replay)
    {
        u64 v;
        if (lookup('T', g.steps, v))
        {
            g.now += (i64)v;
            record('T', g.steps, v);
            count_fault("time-slip");
            g.nslips++;
        }
    }
    else if (g.p_slip && !g.no_slip && g.rf.below(10000) < g.p_slip)
    {
        i64 d;
        i64 best = INT64_MAX;
        for (int i = 0; i < g.nthreads; ++i)
            if (g_threads[i].state == BLOCKED && g_threads[i].why != W_QUIESCE && g_threads[i].deadline > g.now)
                best = std::min(best, g_threads[i].deadline);
        if (best != INT64_MAX && best - g.now <= g.slip_max * 4 && g.rf.below(2))
            d = best - g.now;
        else
            d = 1 + (i64)(g.rf.next() % (u64)g.slip_max);
        g.now += d;
        record('T', g.steps, (u64)d);
        count_fault("time-slip");
            g.nslips++;
    }
    if (!g.replay)
    {
        if (g.strategy == 1)
        {
            for (int i = 0; i < g.npct; ++i)
                if (g.pct_points[i] == g.steps)
                    t->prio = g.prio_low--;
        }
        else if (g.strategy == 2)
        {
            for (int i = 0; i < g.nstalls; ++i)
                if (g.stalls[i].tid == t->id && g.stalls[i].op == t->ops)
                {
                    t->frozen_until = g.steps + g.stalls[i].dur;
                    count_fault("thread-stall");
                }
        }
    }
    if (g.nthreads > 1)
    {
        Thread* n = choose_next(t);
        if (n != t)
        {
            hand_over(t, n);
        }
    }
    t->in_rt--;
}

// Block the running thread; returns when it is scheduled again.
void block(Why why, void* obj, i64 deadline)
{
    Thread* t    = self;
    t->in_rt++;
    t->state     = BLOCKED;
    t->why       = why;
    t->obj       = obj;
    t->deadline  = deadline;
    t->timed_out = false;
    t->signaled  = false;
    t->wait_seq  = ++g.seqno;
    g.last_progress = g.steps;
    g.hash = mix(g.hash, 0xb10c0000u ^ (u64)t->id ^ ((u64)why << 8));
    if (g.verbose)
        tracef("[%llu t=%lld] T%d BLOCK %s #%u until %lld\n", (unsigned long long)g.steps, (long long)g.now, t->id, why_name[why], obj ? sync_of(obj)->id : 0, deadline == INT64_MAX ? -1LL : (long long)deadline);
    Thread* n = choose_next(t);
    if (!n)
    {
        std::string s = "no thread can make progress: " + describe_threads();
        violate("deadlock", s.c_str());
    }
    if (n != t)
        hand_over(t, n);
    else
        t->consec = 0;
    t->why = W_NONE;
    t->obj = nullptr;
    g.statehash = mix(g.statehash, (u64)t->id ^ ((u64)why << 8));
    t->in_rt--;
}

void wake(Thread& t)
{
    t.signaled = true;
    t.state    = RUNNABLE;
    t.deadline = INT64_MAX;
    g.last_progress = g.steps;
}

void wake_all(Why why, void* obj)
{
    for (int i = 0; i < g.nthreads; ++i)
        if (g_threads[i].state == BLOCKED && g_threads[i].why == why && g_threads[i].obj == obj)
            wake(g_threads[i]);
}

// ---- memory model --------------------------------------------------------------------------------------------------
[[noreturn]] NOINLINE void report_uaf(uintptr_t a, bool write, const Slot& s, u64 pc)
{
    char b[256];
    snprintf(b, sizeof b, "%s of freed memory by T%d (freed by T%d)", write ? "write" : "read", self->id, s.tid);
    R->pcs[1][0] = s.pc;
    R->pcs[1][1] = s.pc2;
    R->npcs[1]   = 2;
    (void)a;
    violate("use-after-free", b, pc);
}
[[noreturn]] NOINLINE void report_race(uintptr_t a, bool write, bool atomic, const Slot& s, u64 pc)
{
    char b[256];
    snprintf(b, sizeof b, "data race: %s%s by T%d vs earlier %s%s by T%d on the same memory, unordered by happens-before", atomic ? "atomic " : "", write ? "write" : "read", self->id, (s.flags & 2) ? "atomic " : "", (s.flags & 8) ? "free" : (s.flags & 1) ? "write" : "read", s.tid);
    R->pcs[1][0] = s.pc;
    R->pcs[1][1] = s.pc2;
    R->npcs[1]   = 2;
    (void)a;
    violate("race", b, pc);
}

inline void access_cell(Cell& c, u8 mask, bool write, bool atomic, uintptr_t a, u64 pc)
{
    Thread* t     = self;
    u32     myclk = t->vc.c[t->id];
    int     repl  = -1;
    for (int i = 0; i < 4; ++i)
    {
        Slot& s = c.s[i];
        if (!s.flags)
        {
            if (repl < 0)
                repl = i;
            continue;
        }
        if (s.flags & 8)
        {
            if (s.mask & mask)
                report_uaf(a, write, s, pc);
            continue;
        }
        if (s.mask & mask)
        {
            bool hb = s.tid == t->id || t->vc.c[s.tid] >= s.clk;
            if (!hb && (write || (s.flags & 1)) && !(atomic && (s.flags & 2)) && !g.races_ok)
                report_race(a, write, atomic, s, pc);
            // replace when this access subsumes the old one
            if (hb && (mask & s.mask) == s.mask && (write || !(s.flags & 1)) && (!atomic || (s.flags & 2)))
                repl = i;
            else if (s.tid == t->id && s.clk == myclk && s.mask == mask && (s.flags & 1) >= (write ? 1 : 0) && !(s.flags & 2))
                return; // already covered
        }
    }
    if (repl < 0)
        repl = (int)((g.accesses) & 3);
    Slot& s = c.s[repl];
    s.clk   = myclk;
    s.tid   = (u8)t->id;
    s.mask  = mask;
    s.flags = (u8)(4 | (write ? 1 : 0) | (atomic ? 2 : 0));
    s.pc    = pc;
    s.pc2   = t->sp > 0 && t->sp <= SHSTACK ? t->stk[t->sp - 1] : 0;
}

inline void access_mem(const volatile void* p, size_t n, bool write, bool atomic, u64 pc)
{
    uintptr_t a = (uintptr_t)p;
    if (unlikely(a < 4096))
        return; // will fault for real
    g.accesses++;
    while (n)
    {
        size_t      off = a & 7;
        size_t      k   = std::min(n, 8 - off);
        ShadowPage* sp  = shadow_page(a, true);
        access_cell(sp->c[(a & 4095) >> 3], (u8)(((1u << k) - 1) << off), write, atomic, a, pc);
        a += k;
        n -= k;
    }
}

// mark freed; when `check`, treat the free as a write for race purposes
void free_shadow(void* p, size_t n, bool check, u64 pc)
{
    uintptr_t a = (uintptr_t)p;
    n           = std::min<size_t>(n, 1 << 16);
    for (size_t i = 0; i < n; i += 8)
    {
        ShadowPage* sp = shadow_page(a + i, true);
        Cell&       c  = sp->c[((a + i) & 4095) >> 3];
        if (check && !g.races_ok)
            for (auto& s : c.s)
                if (s.flags && !(s.flags & 8) && s.tid != self->id && self->vc.c[s.tid] < s.clk)
                    report_race(a + i, true, false, s, pc);
        memset(&c, 0, sizeof c);
        c.s[0].flags = 8;
        c.s[0].mask  = 0xff;
        c.s[0].tid   = (u8)self->id;
        c.s[0].clk   = self->vc.c[self->id];
        c.s[0].pc    = pc;
        c.s[0].pc2   = self->sp > 0 && self->sp <= SHSTACK ? self->stk[self->sp - 1] : 0;
    }
}

inline void acquire(SyncVar* sv) { vc_join(self->vc, sv->vc); }
inline void release(SyncVar* sv)
{
    vc_join(sv->vc, self->vc);
    self->vc.c[self->id]++;
}
inline void release_store(SyncVar* sv)
{
    vc_copy(sv->vc, self->vc);
    self->vc.c[self->id]++;
}

enum
{
    OP_LOAD = 1,
    OP_STORE,
    OP_RMW,
    OP_CAS,
    OP_LOCK,
    OP_UNLOCK,
    OP_TRYLOCK,
    OP_WAIT,
    OP_SIGNAL,
    OP_CREATE,
    OP_JOIN,
    OP_YIELD,
    OP_SLEEP,
    OP_EXIT,
    OP_FENCE,
    OP_FUTEX,
    OP_GUARD,
    OP_EPOLL,
};

inline bool mo_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool mo_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

struct Internal // marks "inside runtime" without RAII-copy overhead
{
    Internal() { self->in_rt++; }
    ~Internal() { self->in_rt--; }
};

void at_load(void* a, size_t n, int mo, u64 pc)
{
    sched_point("atomic-load", OP_LOAD, a);
    Internal i;
    access_mem(a, n, false, true, pc);
    SyncVar* sv = sync_of(a);
    if (mo_acq(mo))
        acquire(sv);
    else
        vc_join(self->fence_acq, sv->vc);
}
void at_store_pre(void* a, size_t n, int mo, u64 pc)
{
    sched_point("atomic-store", OP_STORE, a);
    Internal i;
    access_mem(a, n, true, true, pc);
    SyncVar* sv = sync_of(a);
    if (mo_rel(mo))
        release_store(sv);
    else if (self->has_fence_rel)
        vc_copy(sv->vc, self->fence_rel);
    else
        memset(&sv->vc, 0, sizeof(VC));
}
void at_rmw_pre(void* a, size_t n, int mo, u64 pc, u32 op = OP_RMW)
{
    sched_point(op == OP_CAS ? "atomic-cas" : "atomic-rmw", op, a);
    Internal i;
    access_mem(a, n, true, true, pc);
    SyncVar* sv = sync_of(a);
    if (mo_acq(mo))
        acquire(sv);
    else
        vc_join(self->fence_acq, sv->vc);
    if (mo_rel(mo))
        release(sv);
    else if (self->has_fence_rel)
        vc_join(sv->vc, self->fence_rel);
}

u64 fault_counter_next() { return g.fault_idx++; }

bool do_fault(const char* kind, u32 permille)
{
    u64 idx  = fault_counter_next();
    bool fire = false;
    if (g.replay)
    {
        u64 v;
        fire = lookup('F', idx, v) && v == 1;
    }
    else
    {
        u32 h = 0;
        for (const char* p = kind; *p; ++p)
            h = h * 31 + (u8)*p;
        if (g.fault_enabled_mask[h % 64])
            fire = g.rf.permille(permille);
    }
    if (fire)
    {
        record('F', idx, 1);
        count_fault(kind);
        g.hash = mix(g.hash, 0xfa017 ^ idx);
        tracef("[%llu t=%lld] T%d FAULT %s\n", (unsigned long long)g.steps, (long long)g.now, self ? self->id : -1, kind);
    }
    return fire;
}
} // namespace

// =====================================================================================================================
// TSan ABI
// =====================================================================================================================
#define RA ((u64)__builtin_return_address(0))
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    Thread* t = self;
    if (t)
    {
        if (t->sp < SHSTACK)
            t->stk[t->sp] = (uintptr_t)pc;
        t->sp++;
    }
}
void __tsan_func_exit()
{
    Thread* t = self;
    if (t && t->sp > 0)
        t->sp--;
}
#define RW(N)                                                       \
    void __tsan_read##N(void* a)                                    \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, false, false, RA);                     \
    }                                                               \
    void __tsan_write##N(void* a)                                   \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, true, false, RA);                      \
    }                                                               \
    void __tsan_unaligned_read##N(void* a)                          \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, false, false, RA);                     \
    }                                                               \
    void __tsan_unaligned_write##N(void* a)                         \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, true, false, RA);                      \
    }                                                               \
    void __tsan_volatile_read##N(void* a)                           \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, false, false, RA);                     \
    }                                                               \
    void __tsan_volatile_write##N(void* a)                          \
    {                                                               \
        if (live())                                                 \
            access_mem(a, N, true, false, RA);                      \
    }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n)
{
    if (live())
        access_mem(a, std::min<size_t>(n, 4096), false, false, RA);
}
void __tsan_write_range(void* a, size_t n)
{
    if (live())
        access_mem(a, std::min<size_t>(n, 4096), true, false, RA);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (live() && *p != v)
        access_mem(p, 8, true, false, RA);
}
void __tsan_vptr_read(void** p)
{
    if (live())
        access_mem(p, 8, false, false, RA);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (live())
    {
        access_mem(s, std::min<size_t>(n, 4096), false, false, RA);
        access_mem(d, std::min<size_t>(n, 4096), true, false, RA);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (live())
    {
        access_mem(s, std::min<size_t>(n, 4096), false, false, RA);
        access_mem(d, std::min<size_t>(n, 4096), true, false, RA);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (live())
        access_mem(d, std::min<size_t>(n, 4096), true, false, RA);
    return memset(d, c, n);
}

#define ATOMICS(BITS, T)                                                                                         \
    T __tsan_atomic##BITS##_load(const volatile T* a, int mo)                                                    \
    {                                                                                                            \
        if (live())                                                                                              \
            at_load((void*)a, sizeof(T), mo, RA);                                                                \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                            \
    void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo)                                                 \
    {                                                                                                            \
        if (live())                                                                                              \
            at_store_pre((void*)a, sizeof(T), mo, RA);                                                           \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                            \
    T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo)                                                 \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo)                                                \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo)                                                \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo)                                                \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo)                                                 \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                        \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo)                                                \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                            \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo)                                               \
    {                                                                                                            \
        if (live())                                                                                              \
            at_rmw_pre((void*)a, sizeof(T), mo, RA);                                                             \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                            \
    static bool cas##BITS(volatile T* a, T* c, T v, int mo, int fmo, bool weak, u64 pc)                          \
    {                                                                                                            \
        if (live())                                                                                              \
        {                                                                                                        \
            sched_point("atomic-cas", OP_CAS, (void*)a);                                                         \
            Internal i;                                                                                          \
            T        old = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                 \
            SyncVar* sv  = sync_of((void*)a);                                                                    \
            bool     ok  = old == *c;                                                                            \
            if (ok && weak && g.p_casfail && do_fault("weak-cas-spurious-fail", g.p_casfail))                    \
                ok = false;                                                                                      \
            access_mem(a, sizeof(T), ok, true, pc);                                                              \
            int m = ok ? mo : fmo;                                                                               \
            if (mo_acq(m))                                                                                       \
                acquire(sv);                                                                                     \
            else                                                                                                 \
                vc_join(self->fence_acq, sv->vc);                                                                \
            if (ok)                                                                                              \
            {                                                                                                    \
                if (mo_rel(m))                                                                                   \
                    release(sv);                                                                                 \
                else if (self->has_fence_rel)                                                                    \
                    vc_join(sv->vc, self->fence_rel);                                                            \
                __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                        \
                return true;                                                                                     \
            }                                                                                                    \
            *c = old;                                                                                            \
            return false;                                                                                        \
        }                                                                                                        \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    }                                                                                                            \
    bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)                \
    {                                                                                                            \
        return cas##BITS(a, c, v, mo, fmo, false, RA);                                                           \
    }                                                                                                            \
    bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)                  \
    {                                                                                                            \
        return cas##BITS(a, c, v, mo, fmo, true, RA);                                                            \
    }                                                                                                            \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                       \
    {                                                                                                            \
        cas##BITS(a, &c, v, mo, fmo, false, RA);                                                                 \
        return c;                                                                                                \
    }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (live())
    {
        sched_point("fence", OP_FENCE, nullptr);
        Internal i;
        if (mo_acq(mo))
            vc_join(self->vc, self->fence_acq);
        if (mo == __ATOMIC_SEQ_CST)
        {
            vc_join(self->vc, fence_vc);
            vc_join(fence_vc, self->vc);
        }
        if (mo_rel(mo))
        {
            vc_copy(self->fence_rel, self->vc);
            self->has_fence_rel = true;
            self->vc.c[self->id]++;
        }
    }
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}
} // extern C

// =====================================================================================================================
// allocation
// =====================================================================================================================
namespace
{
void* sim_alloc(size_t n, size_t align, bool opnew, u64 pc)
{
    size_t off = bump_off + sizeof(AllocHdr);
    if (align < 16)
        align = 16;
    off        = (off + align - 1) & ~(align - 1);
    size_t end = off + ((n + 15) & ~15ull) + 16;
    if (end >= BUMP_SIZE)
    {
        violate("memory-exhausted", "run allocated more than 1 GiB");
    }
    bump_off    = end;
    AllocHdr* h = (AllocHdr*)(bump_base + off - sizeof(AllocHdr));
    h->magic    = ALLOC_MAGIC;
    h->size     = n;
    h->flags    = opnew ? 1 : 0;
    if (opnew && !self->quiet && !self->guard_depth)
    {
        h->flags |= 2;
        g.live++;
    }
    h->tid  = (u32)self->id;
    int k   = 0;
    h->pc[k++] = pc;
    for (int i = std::min(self->sp, SHSTACK) - 1; i >= 0 && k < 6; --i)
        h->pc[k++] = self->stk[i];
    while (k < 6)
        h->pc[k++] = 0;
    // poison the redzone after the block
    return bump_base + off;
}
inline bool sim_alloc_mode() { return self && g.active && g.cur == self && !self->in_rt; }

void sim_free(void* p, bool opdel, u64 pc)
{
    AllocHdr* h = (AllocHdr*)((char*)p - sizeof(AllocHdr));
    if (!self || !g.active || g.cur != self || self->in_rt)
        return; // thread tear-down by libc, or runtime internals
    if (h->magic != ALLOC_MAGIC)
    {
        violate("bad-free", "free of a pointer that was not allocated", pc);
    }
    if (h->flags & 4)
        violate("double-free", "memory freed twice", pc);
    self->in_rt++;
    h->flags |= 4;
    if (h->flags & 2)
        g.live--;
    free_shadow(p, h->size, opdel && !self->quiet, pc);
    self->in_rt--;
}
} // namespace

extern "C" void* malloc(size_t n)
{
    if (sim_alloc_mode())
        return sim_alloc(n, 16, false, RA);
    return __libc_malloc(n);
}
extern "C" void free(void* p)
{
    if (!p)
        return;
    if (in_bump(p))
        return sim_free(p, false, RA);
    __libc_free(p);
}
extern "C" void* calloc(size_t a, size_t b)
{
    if (sim_alloc_mode())
        return sim_alloc(a * b, 16, false, RA); // fresh zero pages, never reused
    return __libc_calloc(a, b);
}
extern "C" void* realloc(void* p, size_t n)
{
    if (in_bump(p) || (sim_alloc_mode() && !p))
    {
        void* q = sim_alloc_mode() ? sim_alloc(n, 16, false, RA) : __libc_malloc(n);
        if (p)
        {
            AllocHdr* h = (AllocHdr*)((char*)p - sizeof(AllocHdr));
            memcpy(q, p, std::min(n, h->size));
            sim_free(p, false, RA);
        }
        return q;
    }
    return __libc_realloc(p, n);
}
extern "C" void* memalign(size_t al, size_t n)
{
    if (sim_alloc_mode())
        return sim_alloc(n, al, false, RA);
    return __libc_memalign(al, n);
}
extern "C" void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int   posix_memalign(void** p, size_t al, size_t n)
{
    *p = memalign(al, n);
    return 0;
}

static void* new_impl(size_t n, size_t al, u64 pc, bool nothrow)
{
    if (sim_alloc_mode())
    {
        if (unlikely(self->alloc_fault_permille && !self->quiet))
        {
            self->in_rt++;
            bool f = do_fault("bad-alloc", self->alloc_fault_permille);
            self->in_rt--;
            if (f)
            {
                if (nothrow)
                    return nullptr;
                throw std::bad_alloc();
            }
        }
        return sim_alloc(n, al, true, pc);
    }
    return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
}
static void del_impl(void* p, u64 pc)
{
    if (!p)
        return;
    if (in_bump(p))
        return sim_free(p, true, pc);
    __libc_free(p);
}
void* operator new(size_t n) { return new_impl(n, 16, RA, false); }
void* operator new[](size_t n) { return new_impl(n, 16, RA, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, RA, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, RA, true); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RA, false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RA, false); }
void  operator delete(void* p) noexcept { del_impl(p, RA); }
void  operator delete[](void* p) noexcept { del_impl(p, RA); }
void  operator delete(void* p, size_t) noexcept { del_impl(p, RA); }
void  operator delete[](void* p, size_t) noexcept { del_impl(p, RA); }
void  operator delete(void* p, std::align_val_t) noexcept { del_impl(p, RA); }
void  operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, RA); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, RA); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, RA); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, RA); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, RA); }

// =====================================================================================================================
// static guards
// =====================================================================================================================
extern "C" int __cxa_guard_acquire(u64* gp)
{
    u8* b = (u8*)gp;
    if (!simmed())
    {
        if (b[0])
            return 0;
        return 1;
    }
    sched_point("guard", OP_GUARD, gp);
    Internal i;
    for (;;)
    {
        if (b[0])
        {
            acquire(sync_of(gp));
            return 0;
        }
        if (!b[1])
            break;
        self->in_rt--;
        block(W_GUARD, gp, INT64_MAX);
        self->in_rt++;
    }
    b[1] = 1;
    self->guard_depth++;
    return 1;
}
extern "C" void __cxa_guard_release(u64* gp)
{
    u8* b = (u8*)gp;
    if (simmed())
    {
        Internal i;
        self->guard_depth--;
        release(sync_of(gp));
        wake_all(W_GUARD, gp);
    }
    b[1] = 0;
    b[0] = 1;
}
extern "C" void __cxa_guard_abort(u64* gp)
{
    u8* b = (u8*)gp;
    b[1]  = 0;
    if (simmed())
    {
        self->guard_depth--;
        wake_all(W_GUARD, gp);
    }
}

// =====================================================================================================================
// exception objects: reference counting happens inside libstdc++ (not instrumented) -> give it its happens-before edges
// =====================================================================================================================
static int  (*real_mutex_lock)(pthread_mutex_t*);
static int  (*real_mutex_trylock)(pthread_mutex_t*);
static int  (*real_mutex_unlock)(pthread_mutex_t*);
static int  (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int  (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
static int  (*real_cond_signal)(pthread_cond_t*);
static int  (*real_cond_broadcast)(pthread_cond_t*);
static int  (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int  (*real_join)(pthread_t, void**);
static int  (*real_detach)(pthread_t);
static int  (*real_once)(pthread_once_t*, void (*)());
static int  (*real_clock_gettime)(clockid_t, timespec*);
static int  (*real_epoll_wait)(int, epoll_event*, int, int);
static int  (*real_epoll_ctl)(int, int, int, epoll_event*);
template<typename F>
static inline void real(F& f, const char* n)
{
    if (unlikely(!f))
        f = (F)dlsym(RTLD_NEXT, n);
}

// =====================================================================================================================
// pthread mutex / cond
// =====================================================================================================================
namespace
{
void mutex_acquire_sim(pthread_mutex_t* m, u64 pc)
{
    SyncVar* sv        = sync_of(m);
    int      me        = self->id + 1;
    bool     recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    access_mem(m, 8, false, true, pc);
    if (sv->owner == me)
    {
        if (recursive)
        {
            sv->count++;
            return;
        }
        violate("self-deadlock", "thread locks a non-recursive mutex it already owns", pc);
    }
    while (sv->owner)
    {
        self->in_rt--;
        block(W_MUTEX, m, INT64_MAX);
        self->in_rt++;
    }
    sv->owner = me;
    sv->count = 1;
    acquire(sv);
}
void mutex_release_sim(pthread_mutex_t* m, u64 pc)
{
    SyncVar* sv = sync_of(m);
    access_mem(m, 8, false, true, pc);
    if (sv->owner != self->id + 1)
        violate("bad-unlock", "unlock of a mutex the thread does not own", pc);
    if (--sv->count)
        return;
    sv->owner = 0;
    release(sv);
    for (int i = 0; i < g.nthreads; ++i)
        if (g_threads[i].state == BLOCKED && g_threads[i].why == W_MUTEX && g_threads[i].obj == m)
        {
            g_threads[i].state    = RUNNABLE;
            g_threads[i].deadline = INT64_MAX;
        }
}
i64 ts_ns(const timespec* ts) { return (i64)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
constexpr i64 TIME_BASE      = 1000LL * 1000000000LL;       // steady clock starts at 1000 s
constexpr i64 REALTIME_EXTRA = 1700000000LL * 1000000000LL; // offset of CLOCK_REALTIME
i64           clock_off(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REALTIME_EXTRA : 0; }

int cond_wait_sim(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline, u64 pc)
{
    sched_point("cond-wait", OP_WAIT, c);
    Internal in;
    access_mem(c, 8, false, true, pc);
    SyncVar* sv = sync_of(m);
    if (sv->owner != self->id + 1)
        violate("bad-wait", "condition wait without owning the mutex", pc);
    int saved = sv->count;
    sv->count = 1;
    if (g.p_spurious && do_fault("spurious-wakeup", g.p_spurious))
    {
        mutex_release_sim(m, pc);
        self->in_rt--;
        sched_point("spurious", OP_WAIT, c);
        self->in_rt++;
        mutex_acquire_sim(m, pc);
        sv->count = saved;
        return 0;
    }
    mutex_release_sim(m, pc);
    self->in_rt--;
    block(W_COND, c, deadline);
    self->in_rt++;
    bool to = self->timed_out;
    mutex_acquire_sim(m, pc);
    sv->count = saved;
    return to ? ETIMEDOUT : 0;
}
} // namespace

extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!simmed())
    {
        if (self)
            return 0;
        real(real_mutex_lock, "pthread_mutex_lock");
        return real_mutex_lock(m);
    }
    sched_point("lock", OP_LOCK, m);
    Internal i;
    mutex_acquire_sim(m, RA);
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!simmed())
    {
        if (self)
            return 0;
        real(real_mutex_trylock, "pthread_mutex_trylock");
        return real_mutex_trylock(m);
    }
    sched_point("trylock", OP_TRYLOCK, m);
    Internal i;
    SyncVar* sv = sync_of(m);
    bool     recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (sv->owner && !(recursive && sv->owner == self->id + 1))
        return EBUSY;
    mutex_acquire_sim(m, RA);
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!simmed())
    {
        if (self)
            return 0;
        real(real_mutex_unlock, "pthread_mutex_unlock");
        return real_mutex_unlock(m);
    }
    {
        Internal i;
        mutex_release_sim(m, RA);
    }
    sched_point("unlock", OP_UNLOCK, m);
    return 0;
}
static int timedlock_sim(pthread_mutex_t* m, i64 dl, u64 pc)
{
    sched_point("timedlock", OP_LOCK, m);
    Internal i;
    SyncVar* sv = sync_of(m);
    bool     recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while (sv->owner && !(recursive && sv->owner == self->id + 1))
    {
        self->in_rt--;
        block(W_MUTEX, m, dl);
        self->in_rt++;
        if (self->timed_out && sv->owner)
            return ETIMEDOUT;
    }
    mutex_acquire_sim(m, pc);
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    if (!simmed())
        return 0;
    return timedlock_sim(m, ts_ns(ts) - REALTIME_EXTRA - TIME_BASE, RA);
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    if (!simmed())
        return 0;
    return timedlock_sim(m, ts_ns(ts) - clock_off(c) - TIME_BASE, RA);
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!simmed())
    {
        real(real_cond_wait, "pthread_cond_wait");
        return real_cond_wait(c, m);
    }
    return cond_wait_sim(c, m, INT64_MAX, RA);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!simmed())
    {
        real(real_cond_timedwait, "pthread_cond_timedwait");
        return real_cond_timedwait(c, m, ts);
    }
    return cond_wait_sim(c, m, ts_ns(ts) - REALTIME_EXTRA - TIME_BASE, RA);
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts)
{
    if (!simmed())
    {
        real(real_cond_timedwait, "pthread_cond_timedwait");
        return real_cond_timedwait(c, m, ts);
    }
    return cond_wait_sim(c, m, ts_ns(ts) - clock_off(clk) - TIME_BASE, RA);
}
extern "C" int pthread_cond_signal(pthread_cond_t* c)
{
    if (!simmed())
    {
        real(real_cond_signal, "pthread_cond_signal");
        return real_cond_signal(c);
    }
    sched_point("signal", OP_SIGNAL, c);
    Internal i;
    access_mem(c, 8, false, true, RA);
    Thread* w[MAXT];
    int     n = 0;
    for (int k = 0; k < g.nthreads; ++k)
        if (g_threads[k].state == BLOCKED && g_threads[k].why == W_COND && g_threads[k].obj == c)
            w[n++] = &g_threads[k];
    if (n)
    {
        std::sort(w, w + n, [](Thread* a, Thread* b) { return a->wait_seq < b->wait_seq; });
        u64 pick = 0, key = g.wake_idx++;
        if (n > 1)
        {
            if (g.replay)
            {
                u64 v;
                if (lookup('W', key, v))
                    pick = v % (u64)n;
            }
            else
                pick = g.rs.below((u32)n);
            if (pick)
                record('W', key, pick);
        }
        wake(*w[pick]);
    }
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!simmed())
    {
        real(real_cond_broadcast, "pthread_cond_broadcast");
        return real_cond_broadcast(c);
    }
    sched_point("broadcast", OP_SIGNAL, c);
    Internal i;
    access_mem(c, 8, false, true, RA);
    wake_all(W_COND, c);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t*) { return 0; }
extern "C" int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

// rwlocks (std::shared_mutex)
static int rw_lock(pthread_rwlock_t* l, bool write, bool tryl, u64 pc)
{
    if (!simmed())
        return 0;
    sched_point(write ? "wrlock" : "rdlock", OP_LOCK, l);
    Internal i;
    access_mem(l, 8, false, true, pc);
    SyncVar* sv = sync_of(l);
    while (sv->owner || (write && sv->readers))
    {
        if (sv->owner == self->id + 1)
            violate("self-deadlock", "rwlock re-locked by its owner", pc);
        if (tryl)
            return EBUSY;
        self->in_rt--;
        block(W_RW, l, INT64_MAX);
        self->in_rt++;
    }
    if (write)
        sv->owner = self->id + 1;
    else
        sv->readers++;
    acquire(sv);
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false, RA); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false, RA); }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, RA); }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, RA); }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!simmed())
        return 0;
    {
        Internal i;
        SyncVar* sv = sync_of(l);
        if (sv->owner == self->id + 1)
            sv->owner = 0;
        else
            sv->readers--;
        release(sv);
        wake_all(W_RW, l);
    }
    sched_point("rwunlock", OP_UNLOCK, l);
    return 0;
}

extern "C" int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!simmed())
    {
        real(real_once, "pthread_once");
        return real_once(o, f);
    }
    // libstdc++'s call_once: 0 new, 1 running, 2 done
    sched_point("once", OP_GUARD, o);
    int* st = (int*)o;
    {
        Internal i;
        for (;;)
        {
            if (*st == 2)
            {
                acquire(sync_of(o));
                return 0;
            }
            if (*st == 0)
                break;
            self->in_rt--;
            block(W_GUARD, o, INT64_MAX);
            self->in_rt++;
        }
        *st = 1;
    }
    try
    {
        f();
    }
    catch (...)
    {
        *st = 0;
        wake_all(W_GUARD, o);
        throw;
    }
    Internal i;
    *st = 2;
    release(sync_of(o));
    wake_all(W_GUARD, o);
    return 0;
}

// =====================================================================================================================
// threads
// =====================================================================================================================
namespace
{
char*            stack_pool;
constexpr size_t STACK_SZ = 512 * 1024;

Thread* new_thread(void* (*fn)(void*), void* arg)
{
    if (g.nthreads >= MAXT)
        abort_run("too-many-threads");
    Thread* t   = &g_threads[g.nthreads];
    t->id       = g.nthreads;
    g.nthreads++;
    t->state    = RUNNABLE;
    t->deadline = INT64_MAX;
    t->fn       = fn;
    t->arg      = arg;
    t->prio     = 1000000 + g.rs.below(1000000);
    if (self)
    {
        vc_copy(t->vc, self->vc);
        self->vc.c[self->id]++;
    }
    t->vc.c[t->id] = 1;
    return t;
}

void thread_finish(Thread* t)
{
    // runs last in the thread, with the baton
    t->in_rt++;
    g.steps++;
    step_budget();
    g.hash   = mix(g.hash, 0xe817 ^ (u64)t->id);
    t->state = DONE;
    t->vc.c[t->id]++;
    if (g.verbose)
        tracef("[%llu t=%lld] T%d EXIT\n", (unsigned long long)g.steps, (long long)g.now, t->id);
    for (int i = 0; i < g.nthreads; ++i)
        if (g_threads[i].state == BLOCKED && g_threads[i].why == W_JOIN && g_threads[i].obj == t)
            wake(g_threads[i]);
    g.last_progress = g.steps;
    Thread* n       = choose_next(t);
    if (!n)
    {
        int left = 0, parked = 0;
        for (int i = 0; i < g.nthreads; ++i)
            if (g_threads[i].state != DONE)
            {
                left++;
                if (g_threads[i].why == W_COND || g_threads[i].why == W_EPOLL)
                    parked++;
            }
        if (left && !(g.idle_ok && parked == left && g_threads[0].state == DONE))
        {
            std::string s = "threads never finish: " + describe_threads();
            self          = t;
            violate(g_threads[0].state == DONE ? "stuck-thread" : "deadlock", s.c_str());
        }
        g.active = false;
        self     = nullptr;
        __atomic_store_n(&g.done, 1, __ATOMIC_SEQ_CST);
        syscall(SYS_futex, &g.done, FUTEX_WAKE, 1, nullptr, nullptr, 0);
        return;
    }
    self = nullptr;
    hand_over(nullptr, n);
}

void key_dtor(void* p)
{
    Thread* t = (Thread*)p;
    if (--t->exit_rounds >= 0) // re-arm a few destructor rounds so that we run after the others
    {
        pthread_setspecific(exit_key, t);
        return;
    }
    thread_finish(t);
}

void* trampoline(void* p)
{
    Thread* t = (Thread*)p;
    self      = t;
    t->in_rt  = 1;
    stack_t ss{};
    ss.ss_sp   = t->altstack;
    ss.ss_size = sizeof t->altstack;
    sigaltstack(&ss, nullptr);
    pthread_setspecific(exit_key, t);
    t->exit_rounds = 2;
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST))
        futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    t->in_rt = 0;
    return t->fn(t->arg);
}

int start_real(Thread* t)
{
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stack_pool + (size_t)t->id * STACK_SZ, STACK_SZ);
    real(real_create, "pthread_create");
    int r = real_create(&t->pt, &at, trampoline, t);
    pthread_attr_destroy(&at);
    return r;
}
} // namespace

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!simmed())
    {
        real(real_create, "pthread_create");
        return real_create(out, attr, fn, arg);
    }
    Thread* t;
    int     r;
    {
        Internal i;
        t = new_thread(fn, arg);
        r = start_real(t);
        if (r)
            abort_run("pthread_create-failed");
        *out = t->pt;
        if (attr)
        {
            int ds = 0;
            pthread_attr_getdetachstate(attr, &ds);
            t->detached = ds == PTHREAD_CREATE_DETACHED;
        }
        g.last_progress = g.steps;
    }
    sched_point("create", OP_CREATE, nullptr);
    return 0;
}
static Thread* find_pt(pthread_t p)
{
    for (int i = g.nthreads - 1; i >= 0; --i)
        if (g_threads[i].pt == p)
            return &g_threads[i];
    return nullptr;
}
extern "C" int pthread_join(pthread_t p, void** ret)
{
    if (!simmed())
    {
        real(real_join, "pthread_join");
        return real_join(p, ret);
    }
    sched_point("join", OP_JOIN, nullptr);
    Internal i;
    Thread*  t = find_pt(p);
    if (!t)
        violate("bad-join", "join of unknown thread");
    if (t == self)
        return EDEADLK;
    while (t->state != DONE)
    {
        self->in_rt--;
        block(W_JOIN, t, INT64_MAX);
        self->in_rt++;
    }
    vc_join(self->vc, t->vc);
    return 0;
}
extern "C" int pthread_detach(pthread_t p)
{
    if (!simmed())
    {
        real(real_detach, "pthread_detach");
        return real_detach(p);
    }
    Thread* t = find_pt(p);
    if (t)
        t->detached = true;
    return 0;
}

// =====================================================================================================================
// time
// =====================================================================================================================
static void tick_clock()
{
    g.now += g.tick;
    g.clock_reads++;
    // spinning on the clock: let virtual CPU time pass faster so that busy-waits terminate
    if (g.steps - g.last_progress > 600 && g.clock_reads % 16 == 0)
        g.now += 1000 + (i64)(g.steps - g.last_progress);
}
extern "C" int clock_gettime(clockid_t c, timespec* ts)
{
    if (!self || !g.active)
    {
        real(real_clock_gettime, "clock_gettime");
        return real_clock_gettime(c, ts);
    }
    if (simmed() && !self->quiet)
        tick_clock();
    i64 v       = TIME_BASE + g.now + clock_off(c);
    ts->tv_sec  = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t* t)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
static int sleep_sim(i64 until)
{
    sched_point("sleep", OP_SLEEP, nullptr);
    if (until > g.now)
        block(W_SLEEP, nullptr, until);
    return 0;
}
extern "C" int nanosleep(const timespec* ts, timespec*)
{
    if (simmed())
        return sleep_sim(g.now + ts_ns(ts));
    return (int)syscall(SYS_nanosleep, ts, nullptr);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem)
{
    if (simmed())
        return sleep_sim(flags & TIMER_ABSTIME ? ts_ns(ts) - clock_off(c) - TIME_BASE : g.now + ts_ns(ts));
    return (int)syscall(SYS_clock_nanosleep, c, flags, ts, rem);
}
extern "C" int usleep(unsigned us)
{
    timespec ts{us / 1000000, (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
extern "C" int sched_yield()
{
    if (simmed())
    {
        self->consec += 50;
        sched_point("yield", OP_YIELD, nullptr);
        return 0;
    }
    return (int)syscall(SYS_sched_yield);
}
extern "C" int get_nprocs() { return 3; }

// futex-based waits (std::atomic::wait, std::future, semaphores)
extern "C" long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && simmed())
    {
        int* addr = (int*)a;
        int  op   = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sched_point("futex-wait", OP_FUTEX, addr);
            Internal i;
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)c)
            {
                errno = EAGAIN;
                return -1;
            }
            i64 dl = INT64_MAX;
            if (d)
            {
                const timespec* ts = (const timespec*)d;
                dl = op == FUTEX_WAIT ? g.now + ts_ns(ts) : ts_ns(ts) - TIME_BASE - (((int)b & FUTEX_CLOCK_REALTIME) ? REALTIME_EXTRA : 0);
            }
            self->in_rt--;
            block(W_FUTEX, addr, dl);
            self->in_rt++;
            if (self->timed_out)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            sched_point("futex-wake", OP_FUTEX, addr);
            Internal i;
            int      n = 0;
            for (int k = 0; k < g.nthreads && n < (int)c; ++k)
                if (g_threads[k].state == BLOCKED && g_threads[k].why == W_FUTEX && g_threads[k].obj == addr)
                {
                    wake(g_threads[k]);
                    n++;
                }
            return n;
        }
    }
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096)
    {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// epoll (asio's reactor): real descriptors, simulated waiting
extern "C" int timerfd_create(int, int)
{
    errno = EINVAL; // asio then computes its timer deadlines through epoll_wait()
    return -1;
}
namespace
{
constexpr int EPOLL_SLOTS = 64;
char          epoll_obj[EPOLL_SLOTS]; // addresses used as wait objects
}
extern "C" int epoll_wait(int fd, epoll_event* ev, int max, int timeout)
{
    real(real_epoll_wait, "epoll_wait");
    if (!simmed())
        return real_epoll_wait(fd, ev, max, timeout);
    sched_point("epoll-wait", OP_EPOLL, &epoll_obj[fd % EPOLL_SLOTS]);
    i64 dl = timeout < 0 ? INT64_MAX : g.now + (i64)timeout * 1000000;
    for (;;)
    {
        int n = real_epoll_wait(fd, ev, max, 0);
        if (n != 0 || timeout == 0)
            return n;
        if (g.now >= dl)
            return 0;
        block(W_EPOLL, &epoll_obj[fd % EPOLL_SLOTS], dl);
    }
}
extern "C" int epoll_ctl(int fd, int op, int t, epoll_event* ev)
{
    real(real_epoll_ctl, "epoll_ctl");
    int r = real_epoll_ctl(fd, op, t, ev);
    if (simmed())
    {
        sched_point("epoll-ctl", OP_EPOLL, &epoll_obj[fd % EPOLL_SLOTS]);
        wake_all(W_EPOLL, &epoll_obj[fd % EPOLL_SLOTS]);
    }
    return r;
}

// poll (Qt's event dispatcher): real descriptors, simulated waiting; eventfd_write() wakes the waiters
namespace
{
char poll_obj;
int  poll_sim(pollfd* fds, nfds_t n, i64 timeout_ns)
{
    timespec zero{};
    sched_point("poll", OP_EPOLL, &poll_obj);
    i64 dl = timeout_ns < 0 ? INT64_MAX : g.now + timeout_ns;
    for (;;)
    {
        int r = (int)syscall(SYS_ppoll, fds, n, &zero, nullptr, 8);
        if (r != 0 || timeout_ns == 0)
            return r;
        if (g.now >= dl)
            return 0;
        block(W_EPOLL, &poll_obj, dl);
    }
}
} // namespace
extern "C" int ppoll(pollfd* fds, nfds_t n, const timespec* ts, const sigset_t* ss)
{
    if (!simmed())
        return (int)syscall(SYS_ppoll, fds, n, ts, ss, 8);
    return poll_sim(fds, n, ts ? ts_ns(ts) : -1);
}
extern "C" int poll(pollfd* fds, nfds_t n, int timeout)
{
    if (!simmed())
        return (int)syscall(SYS_poll, fds, n, timeout);
    return poll_sim(fds, n, timeout < 0 ? -1 : (i64)timeout * 1000000);
}
extern "C" int eventfd_write(int fd, eventfd_t v)
{
    int r = syscall(SYS_write, fd, &v, sizeof v) == sizeof v ? 0 : -1;
    if (simmed())
    {
        sched_point("eventfd-write", OP_EPOLL, &poll_obj);
        wake_all(W_EPOLL, &poll_obj);
    }
    return r;
}

// =====================================================================================================================
// abnormal ends
// =====================================================================================================================
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn)
{
    char b[1500];
    snprintf(b, sizeof b, "assertion '%s' failed at %s:%u (%s)", e, f, l, fn);
    if (R && self)
        violate("assert", b, RA);
    fprintf(stderr, "%s\n", b);
    abort();
}
static void on_signal(int s, siginfo_t* si, void*)
{
    if (R && self && g_threads)
    {
        char b[128];
        snprintf(b, sizeof b, "signal %d (%s) at address %p", s, s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : "SIGFPE", (void*)((uintptr_t)si->si_addr < 65536 ? si->si_addr : nullptr));
        violate("crash", b);
    }
    signal(s, SIG_DFL);
    raise(s);
}
static void on_terminate()
{
    if (R && self)
    {
        char b[512] = "std::terminate called";
        try
        {
            if (auto e = std::current_exception())
                std::rethrow_exception(e);
        }
        catch (const std::exception& e)
        {
            snprintf(b, sizeof b, "std::terminate called: uncaught %s", e.what());
        }
        catch (...)
        {
            snprintf(b, sizeof b, "std::terminate called: uncaught exception");
        }
        violate("terminate", b, RA);
    }
    abort();
}

// =====================================================================================================================
// public API
// =====================================================================================================================
namespace sim
{
void register_scenario(const Scenario& s)
{
    if (!g_scen)
        g_scen = new std::vector<Scenario>();
    g_scen->push_back(s);
}
uint32_t param(uint32_t n, const char* name)
{
    if (n == 0)
        n = 1;
    u32 v;
    int k = R->nparams;
    if (g_params)
        v = k < (int)g_params->size() ? (*g_params)[(size_t)k] % n : 0;
    else
        v = g.rp.below(n);
    if (k < MAXPARAM)
    {
        R->params[k].n = n;
        R->params[k].v = v;
        snprintf(R->params[k].name, sizeof R->params[k].name, "%s", name);
        R->nparams++;
    }
    g.hash = mix(g.hash, 0x9a3a ^ v);
    tracef("    param %s = %u (of %u)\n", name, v, n);
    return v;
}
uint32_t param_range(uint32_t lo, uint32_t hi, const char* name) { return lo + param(hi - lo + 1, name); }
bool     flip(const char* name) { return param(2, name) == 1; }
bool     fault(const char* kind, unsigned permille)
{
    if (!self)
        return false;
    Internal i;
    return do_fault(kind, permille);
}
uint32_t fault_pick(uint32_t n)
{
    u64 key = g.detail_idx++;
    u64 v   = 0;
    if (g.replay)
        lookup('D', key, v);
    else
        v = g.rf.below(n);
    v %= n;
    if (v)
        record('D', key, v);
    return (u32)v;
}
void yield(unsigned n)
{
    if (!live())
        return;
    while (n--)
        sched_point("yield", OP_YIELD, nullptr);
}
int64_t  now() { return g.now; }
void     sleep_ns(int64_t ns) { sleep_sim(g.now + ns); }
void     advance_ns(int64_t ns) { g.now += ns; }
uint32_t tid() { return self ? (u32)self->id : 999; }
uint64_t seq() { return ++g.seqno; }
void     progress() { g.last_progress = g.steps; }
unsigned runnable_others()
{
    Thread* c[MAXT];
    int     n = collect(c, false), k = 0;
    for (int i = 0; i < n; ++i)
        if (c[i] != self)
            k++;
    return (unsigned)k;
}
void quiesce(int64_t until)
{
    sched_point("quiesce", OP_YIELD, nullptr);
    block(W_QUIESCE, nullptr, until);
    // everybody else is parked: the harness may look at what they did
    for (int i = 0; i < g.nthreads; ++i)
        vc_join(self->vc, g_threads[i].vc);
}
int64_t clock_base() { return TIME_BASE + clock_off(CLOCK_MONOTONIC); }
void fail(const char* cls, const char* fmt, ...)
{
    char    b[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    violate(cls, b, RA);
}
void log(const char* fmt, ...)
{
    char    b[1000];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    u64 h = 1469598103934665603ULL;
    for (int i = 0; i < n && i < (int)sizeof b; ++i)
        h = (h ^ (u8)b[i]) * 1099511628211ULL;
    g.hash          = mix(g.hash, h);
    g.statehash     = mix(g.statehash, h);
    g.last_progress = g.steps;
    if (g.verbose)
        tracef("[%llu t=%lld] T%d | %s\n", (unsigned long long)g.steps, (long long)g.now, self ? self->id : -1, b);
}
void probe(const char* name) { count(R->probes, R->nprobes, 120, name); }
void allow_idle_threads() { g.idle_ok = true; }
void allow_leaks() { g.leaks_ok = true; }
void allow_races() { g.races_ok = true; }
void enable_alloc_faults(unsigned p) { self->alloc_fault_permille = p; }
void set_no_time_slip() { g.no_slip = true; }
void set_max_steps(int n) { g.max_steps = n; }
void set_tick(int64_t ns) { g.tick = ns; }
bool time_exact() { return g.nslips == 0; }
void quiet_enter()
{
    if (self)
        self->quiet++;
}
void quiet_leave()
{
    if (self)
        self->quiet--;
}
size_t live_allocations() { return g.live; }
} // namespace sim

// =====================================================================================================================
// a run
// =====================================================================================================================
namespace
{
struct RunSpec
{
    u64              seed;        // schedule / fault / param seed
    u64              param_seed;  // 0: derived from seed
    int              scenario;    // -1: chosen by param
    bool             replay;      // decisions explicit
    bool             use_params;  // params explicit
    bool             verbose;
    std::vector<u32> params;
    std::map<std::pair<char, u64>, u64> dec;
    int tick_class = -1;
};

int scenario_index_of(const char* n)
{
    for (size_t i = 0; i < g_scen->size(); ++i)
        if (!strcmp((*g_scen)[i].name, n))
            return (int)i;
    return -1;
}

const RunSpec* cur_spec;

void* run_main(void*)
{
    int idx = cur_spec->scenario;
    if (idx < 0)
    {
        unsigned tot = 0;
        for (auto& s : *g_scen)
            tot += s.weight;
        unsigned k = sim::param(tot, "scenario");
        for (size_t i = 0; i < g_scen->size(); ++i)
        {
            if (k < (*g_scen)[i].weight)
            {
                idx = (int)i;
                break;
            }
            k -= (*g_scen)[i].weight;
        }
    }
    snprintf(R->scenario, sizeof R->scenario, "%s", (*g_scen)[(size_t)idx].name);
    (*g_scen)[(size_t)idx].fn();
    return nullptr;
}

void report_leaks()
{
    size_t off = 0;
    // scan headers: they are 8-byte aligned (72 bytes before a 16-byte aligned block), found by magic
    u64 n = 0;
    for (off = 64; off + sizeof(AllocHdr) < bump_off; off += 8)
    {
        AllocHdr* h = (AllocHdr*)(bump_base + off);
        if (h->magic == ALLOC_MAGIC && (h->flags & 2) && !(h->flags & 4))
        {
            if (n == 0)
            {
                R->npcs[0] = 0;
                for (int k = 0; k < 6; ++k)
                    if (h->pc[k])
                        R->pcs[0][R->npcs[0]++] = h->pc[k];
            }
            n++;
        }
    }
    if (n)
    {
        R->status = 2;
        snprintf(R->cls, sizeof R->cls, "leak");
        snprintf(R->msg, sizeof R->msg, "%llu heap blocks allocated by the system under test are still alive after everything was released and all threads finished", (unsigned long long)n);
        R->hash = mix(R->hash, 0x1eac);
    }
}

// 20 s of wall time are gone: note where the run is
void on_alarm(int)
{
    R->status = 5;
    int n     = snprintf(R->msg, sizeof R->msg, "no end within 20 s of wall time: step %llu, baton at T%d, self T%d;", (unsigned long long)g.steps, g.cur ? g.cur->id : -1, self ? self->id : -1);
    for (int i = 0; i < g.nthreads && n > 0 && n < (int)sizeof R->msg - 40; ++i)
        n += snprintf(R->msg + n, sizeof R->msg - n, " T%d:state%d,go%d,rt%d", i, (int)g_threads[i].state, g_threads[i].go, g_threads[i].in_rt);
    snprintf(R->cls, sizeof R->cls, "wall-timeout");
    _exit(5);
}

// executed in the forked child
[[noreturn]] void run_child(const RunSpec& sp)
{
    cur_spec = &sp;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    itimerval tv{};
    tv.it_value.tv_sec = 20;
    setitimer(ITIMER_REAL, &tv, nullptr);
    signal(SIGALRM, on_alarm);

    memset((void*)&g, 0, sizeof g);
    g.seed    = sp.seed;
    g.rs.s    = sp.seed * 0x9e3779b97f4a7c15ULL + 1;
    g.rp.s    = (sp.param_seed ? sp.param_seed : sp.seed) * 0xd1342543de82ef95ULL + 77;
    g.rf.s    = sp.seed * 0xaf251af3b0f025b5ULL + 4242;
    g.replay  = sp.replay;
    g.verbose = sp.verbose;
    g.max_steps = 150000;
    g_dec    = const_cast<std::map<std::pair<char, u64>, u64>*>(&sp.dec);
    g_params = sp.use_params ? const_cast<std::vector<u32>*>(&sp.params) : nullptr;
    // the clock tick is part of the configuration: parameter stream #0
    Rng c{sp.seed ^ 0x5157a71c5ULL};
    g.strategy = (int)c.below(3);
    switch (c.below(5))
    {
    case 0: g.p_switch = 20; break;
    case 1: g.p_switch = 60; break;
    case 2: g.p_switch = 150; break;
    case 3: g.p_switch = 300; break;
    default: g.p_switch = 600; break;
    }
    {
        static const u32 slips[] = {0, 0, 0, 20, 100, 400};
        g.p_slip                 = slips[c.below(6)];
        static const i64 mx[]    = {2000, 100000, 2000000, 20000000};
        g.slip_max               = mx[c.below(4)];
        g.p_spurious             = c.below(3) == 0 ? 150 : 0;
        g.p_casfail              = c.below(3) == 0 ? 200 : 0;
    }
    for (auto& b : g.fault_enabled_mask)
        b = c.below(3) != 0;
    g.npct = (int)c.below(5);
    {
        u32 est = 30u << c.below(7);
        for (int i = 0; i < g.npct; ++i)
            g.pct_points[i] = 1 + c.below(est);
        g.nstalls = 1 + (int)c.below(3);
        for (int i = 0; i < g.nstalls; ++i)
        {
            g.stalls[i].tid = (int)c.below(5);
            g.stalls[i].op  = 1 + c.below(20u << c.below(6));
            g.stalls[i].dur = 10u << c.below(9);
        }
    }
    g.prio_low = 999999;
    if (sp.replay)
    {
        g.p_spurious = g.p_casfail = 1000; // gates only; decisions come from the replay
    }

    bump_base   = (char*)mm(BUMP_SIZE);
    bump_off    = 64;
    bump_shadow = (ShadowPage**)mm((BUMP_SIZE >> 12) * sizeof(ShadowPage*));
    page_hash   = (PageEnt*)mm(PAGE_HASH * sizeof(PageEnt));
    sync_hash   = (SyncEnt*)mm(SYNC_HASH * sizeof(SyncEnt));
    shadow_pool = (char*)mm(SHADOW_POOL);
    g_threads   = (Thread*)mm(sizeof(Thread) * MAXT);
    stack_pool  = (char*)mm(STACK_SZ * MAXT);

    // configuration that must be the same in a replay (it is not a schedule decision) comes through params
    {
        static const i64 ticks[] = {100, 1, 1000, 37};
        u32              k       = sim::param(4, "tick");
        g.tick                   = ticks[k];
    }
    Thread* t = new_thread(run_main, nullptr);
    g.active  = true;
    if (start_real(t))
        abort_run("pthread_create-failed");
    hand_over(nullptr, t);
    while (!__atomic_load_n(&g.done, __ATOMIC_SEQ_CST))
    {
        futex_wait(&g.done, 0);
    }
    publish_stats();
    R->status = 1;
    if (!g.leaks_ok && g.live)
        report_leaks();
    _exit(0);
}

struct Outcome
{
    int status;
};

void reset_result()
{
    // cheap reset: only headers
    R->status = 0;
    R->cls[0] = R->msg[0] = R->scenario[0] = 0;
    R->hash = R->ilhash = R->statehash = R->steps = R->switches = R->nthreads = R->accesses = 0;
    R->simtime = 0;
    R->nfaults = R->nprobes = R->ndec = R->dec_overflow = R->nparams = 0;
    R->npcs[0] = R->npcs[1] = R->npcs[2] = 0;
    R->tracelen                          = 0;
}

void run_one(const RunSpec& sp)
{
    reset_result();
    pid_t p = fork();
    if (p < 0)
    {
        perror("fork");
        _exit(73);
    }
    if (p == 0)
        run_child(sp);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && R->status != 2)
    {
        R->status = WTERMSIG(st) == SIGALRM ? 5 : 2;
        snprintf(R->cls, sizeof R->cls, WTERMSIG(st) == SIGALRM ? "wall-timeout" : "crash");
        snprintf(R->msg, sizeof R->msg, "child died from signal %d", WTERMSIG(st));
    }
    else if (R->status == 0)
    {
        R->status = 4;
        snprintf(R->cls, sizeof R->cls, "exit-%d", WEXITSTATUS(st));
        snprintf(R->msg, sizeof R->msg, "child exited unexpectedly");
    }
}

u64 seed_of(u64 base, u64 i)
{
    Rng r{base * 0x2545F4914F6CDD1DULL + i * 0x9e3779b97f4a7c15ULL};
    r.next();
    return r.next() | 1;
}

std::string jstr(const char* s)
{
    std::string o = "\"";
    for (; *s; ++s)
    {
        if (*s == '"' || *s == '\\')
            o += '\\', o += *s;
        else if (*s == '\n')
            o += "\\n";
        else if ((u8)*s < 32)
            o += ' ';
        else
            o += *s;
    }
    return o + "\"";
}

void emit_result(FILE* f, u64 index, const RunSpec& sp, bool full)
{
    fprintf(f, "{\"index\":%llu,\"seed\":%llu,\"status\":%d,\"scenario\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"ilhash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"threads\":%llu,\"simtime\":%lld,\"strategy\":%d",
            (unsigned long long)index, (unsigned long long)sp.seed, R->status, jstr(R->scenario).c_str(), jstr(R->cls).c_str(), jstr(R->msg).c_str(), (unsigned long long)R->hash, (unsigned long long)R->ilhash, (unsigned long long)R->steps, (unsigned long long)R->switches, (unsigned long long)R->nthreads, (long long)R->simtime, R->strategy);
    for (int w = 0; w < 3; ++w)
    {
        fprintf(f, ",\"pcs%d\":[", w);
        for (int i = 0; i < R->npcs[w]; ++i)
            fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)R->pcs[w][i]);
        fprintf(f, "]");
    }
    if (full)
    {
        fprintf(f, ",\"params\":[");
        for (int i = 0; i < R->nparams; ++i)
            fprintf(f, "%s[%s,%u,%u]", i ? "," : "", jstr(R->params[i].name).c_str(), R->params[i].v, R->params[i].n);
        fprintf(f, "],\"decisions\":[");
        for (int i = 0; i < R->ndec; ++i)
            fprintf(f, "%s[\"%c\",%llu,%llu]", i ? "," : "", R->dec[i].kind, (unsigned long long)R->dec[i].key, (unsigned long long)R->dec[i].val);
        fprintf(f, "],\"faults\":{");
        for (int i = 0; i < R->nfaults; ++i)
            fprintf(f, "%s%s:%llu", i ? "," : "", jstr(R->faults[i].name).c_str(), (unsigned long long)R->faults[i].n);
        fprintf(f, "}");
    }
    fprintf(f, "}\n");
    fflush(f);
}

double wall()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

// ---- replay files: text, one item per line ----------------------------------------------------------------------------
// scenario NAME | param V NAME | S step tid | T step ns | F idx 1 | D idx v | W idx v
bool load_replay(const char* path, RunSpec& sp)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    sp.seed       = 1;
    sp.replay     = true;
    sp.use_params = true;
    sp.scenario   = -1;
    char line[4096];
    while (fgets(line, sizeof line, f))
    {
        char               k[64], rest[256] = "";
        unsigned long long a = 0, b = 0;
        if (line[0] == '#')
            continue;
        if (sscanf(line, "seed %llu", &a) == 1) // a whole seed: everything is drawn from it again
        {
            sp.seed   = a;
            sp.replay = sp.use_params = false;
        }
        else if (sscanf(line, "param %llu %255s", &a, rest) >= 1)
            sp.params.push_back((u32)a);
        else if (sscanf(line, "scenario %63s", k) == 1)
        {
            sp.scenario = scenario_index_of(k);
            if (sp.scenario < 0)
            {
                fclose(f);
                return false;
            }
        }
        else if (sscanf(line, "%1s %llu %llu", k, &a, &b) == 3 && strchr("STFDW", k[0]))
            sp.dec[{k[0], a}] = b;
    }
    fclose(f);
    return true;
}

void save_replay(const char* path, const RunSpec& sp, const char* header)
{
    FILE* f = fopen(path, "w");
    if (!f)
        return;
    fprintf(f, "# %s\n", header);
    if (sp.scenario >= 0)
        fprintf(f, "scenario %s\n", (*g_scen)[(size_t)sp.scenario].name);
    for (size_t i = 0; i < sp.params.size(); ++i)
        fprintf(f, "param %u %s\n", sp.params[i], i < (size_t)R->nparams ? R->params[i].name : "p");
    for (auto& [k, v] : sp.dec)
        fprintf(f, "%c %llu %llu\n", k.first, (unsigned long long)k.second, (unsigned long long)v);
    fclose(f);
}

// ---- minimisation --------------------------------------------------------------------------------------------------
std::string g_target;
bool        still_fails(const RunSpec& sp)
{
    run_one(sp);
    return R->status == 2 && g_target == R->cls;
}

RunSpec spec_from_last(int scenario)
{
    RunSpec sp;
    sp.seed       = 1;
    sp.param_seed = 0;
    sp.scenario   = scenario;
    sp.replay     = true;
    sp.use_params = true;
    sp.verbose    = false;
    for (int i = 0; i < R->nparams; ++i)
        sp.params.push_back(R->params[i].v);
    for (int i = 0; i < R->ndec; ++i)
        sp.dec[{R->dec[i].kind, R->dec[i].key}] = R->dec[i].val;
    return sp;
}

int cmd_minimize(RunSpec sp, const char* out, double budget)
{
    double t0 = wall();
    run_one(sp);
    if (R->status != 2)
    {
        printf("{\"error\":\"seed does not fail\"}\n");
        return 5;
    }
    g_target   = R->cls;
    RunSpec cur = spec_from_last(sp.scenario);
    u64     orig_dec = (u64)R->ndec, orig_par = (u64)R->nparams;
    bool    ok = R->dec_overflow == 0 && still_fails(cur);
    if (!ok)
    {
        printf("{\"error\":\"explicit trace does not reproduce\",\"overflow\":%d}\n", R->dec_overflow);
        return 6;
    }
    // 1. params towards 0, re-searching a schedule when needed
    auto try_params = [&](const std::vector<u32>& ps) -> bool {
        RunSpec a = cur;
        a.params  = ps;
        if (still_fails(a))
        {
            cur = a;
            return true;
        }
        for (int k = 0; k < 25 && wall() - t0 < budget * 0.6; ++k)
        {
            RunSpec b;
            b.seed       = seed_of(991, (u64)k) ^ sp.seed;
            b.param_seed = 0;
            b.scenario   = cur.scenario;
            b.replay     = false;
            b.use_params = true;
            b.params     = ps;
            b.verbose    = false;
            if (still_fails(b) && !R->dec_overflow)
            {
                RunSpec c = spec_from_last(cur.scenario);
                if (still_fails(c))
                {
                    cur = c;
                    return true;
                }
            }
        }
        return false;
    };
    for (int round = 0; round < 2; ++round)
        for (size_t i = 0; i < cur.params.size() && wall() - t0 < budget * 0.6; ++i)
        {
            if (i == 1 && sp.scenario < 0)
                continue; // the scenario selector
            if (cur.params[i] == 0)
                continue;
            auto ps = cur.params;
            ps[i]   = 0;
            if (try_params(ps))
                continue;
            if (i < cur.params.size() && cur.params[i] > 1)
            {
                ps    = cur.params;
                ps[i] = ps[i] / 2;
                try_params(ps);
            }
        }
    // 2. ddmin over schedule / fault decisions
    auto items = [&] {
        std::vector<std::pair<std::pair<char, u64>, u64>> v(cur.dec.begin(), cur.dec.end());
        return v;
    };
    auto   v     = items();
    size_t chunk = std::max<size_t>(1, v.size() / 2);
    while (!v.empty() && wall() - t0 < budget)
    {
        bool removed = false;
        for (size_t i = 0; i < v.size() && wall() - t0 < budget;)
        {
            auto w = v;
            w.erase(w.begin() + (long)i, w.begin() + (long)std::min(v.size(), i + chunk));
            RunSpec a = cur;
            a.dec.clear();
            a.dec.insert(w.begin(), w.end());
            if (still_fails(a))
            {
                cur     = a;
                v       = w;
                removed = true;
            }
            else
                i += chunk;
        }
        if (chunk == 1 && !removed)
            break;
        chunk = std::max<size_t>(1, chunk / 2);
    }
    if (!still_fails(cur))
    {
        printf("{\"error\":\"minimised trace lost the failure\"}\n");
        return 6;
    }
    char hdr[512];
    snprintf(hdr, sizeof hdr, "violation class %s; minimised from seed %llu: %llu -> %zu decisions, %llu params", R->cls, (unsigned long long)sp.seed, (unsigned long long)orig_dec, cur.dec.size(), (unsigned long long)orig_par);
    save_replay(out, cur, hdr);
    printf("{\"ok\":true,\"cls\":%s,\"decisions\":%zu,\"orig_decisions\":%llu,\"hash\":\"%016llx\"}\n", jstr(R->cls).c_str(), cur.dec.size(), (unsigned long long)orig_dec, (unsigned long long)R->hash);
    return 0;
}

struct Agg
{
    u64                          runs = 0, steps = 0, switches = 0, accesses = 0, aborted = 0;
    double                       simtime = 0;
    std::map<std::string, u64>   faults, probes, scen, fault_runs;
    std::set<u64>                il;
    u64                          strat[3] = {0, 0, 0};
};

int cmd_batch(u64 base, u64 start, u64 stride, u64 maxruns, double seconds, const char* out, int scenario, int maxviol)
{
    FILE*  f  = fopen(out, "w");
    double t0 = wall();
    Agg    a;
    int    viol = 0;
    std::map<std::string, int> seen;
    for (u64 k = 0; k < maxruns; ++k)
    {
        if ((k & 15) == 0 && wall() - t0 > seconds)
            break;
        u64     idx = start + k * stride;
        RunSpec sp;
        sp.seed       = seed_of(base, idx);
        sp.param_seed = 0;
        sp.scenario   = scenario;
        sp.replay = sp.use_params = sp.verbose = false;
        run_one(sp);
        a.runs++;
        a.steps += R->steps;
        a.switches += R->switches;
        a.accesses += R->accesses;
        a.simtime += (double)R->simtime * 1e-9;
        a.scen[R->scenario]++;
        if (R->strategy >= 0 && R->strategy < 3)
            a.strat[R->strategy]++;
        for (int i = 0; i < R->nfaults; ++i)
        {
            a.faults[R->faults[i].name] += R->faults[i].n;
            a.fault_runs[R->faults[i].name]++;
        }
        for (int i = 0; i < R->nprobes; ++i)
            a.probes[R->probes[i].name] += R->probes[i].n;
        a.il.insert(R->ilhash);
        if (R->status == 3)
            a.aborted++;
        else if (R->status != 1)
        {
            // a few of each class only
            std::string key = std::string(R->cls) + "/" + R->scenario;
            if (seen[key]++ < 3)
            {
                emit_result(f, idx, sp, false);
                if (++viol >= maxviol)
                    break;
            }
        }
    }
    fprintf(f, "{\"summary\":true,\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"aborted\":%llu,\"simtime\":%.9f,\"wall\":%.3f,\"strat\":[%llu,%llu,%llu],\"distinct\":%zu", (unsigned long long)a.runs, (unsigned long long)a.steps, (unsigned long long)a.switches, (unsigned long long)a.accesses, (unsigned long long)a.aborted, a.simtime, wall() - t0, (unsigned long long)a.strat[0], (unsigned long long)a.strat[1], (unsigned long long)a.strat[2], a.il.size());
    auto dump = [&](const char* n, const std::map<std::string, u64>& m) {
        fprintf(f, ",\"%s\":{", n);
        bool first = true;
        for (auto& [k, v] : m)
        {
            fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.c_str()).c_str(), (unsigned long long)v);
            first = false;
        }
        fprintf(f, "}");
    };
    dump("faults", a.faults);
    dump("fault_runs", a.fault_runs);
    dump("probes", a.probes);
    dump("scenarios", a.scen);
    fprintf(f, "}\n");
    fclose(f);
    std::string ip = std::string(out) + ".il";
    f              = fopen(ip.c_str(), "wb");
    for (u64 h : a.il)
        fwrite(&h, 8, 1, f);
    fclose(f);
    return 0;
}
} // namespace

int main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
    {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0)
        {
            execv("/proc/self/exe", argv);
        }
    }
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_key_create(&exit_key, key_dtor);
    std::set_terminate(on_terminate);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
        sigaction(s, &sa, nullptr);
    // resolve all real functions up front
    real(real_mutex_lock, "pthread_mutex_lock");
    real(real_create, "pthread_create");
    real(real_join, "pthread_join");
    real(real_clock_gettime, "clock_gettime");
    real(real_epoll_wait, "epoll_wait");
    real(real_epoll_ctl, "epoll_ctl");
    if (!g_scen)
        g_scen = new std::vector<sim::Scenario>();
    std::sort(g_scen->begin(), g_scen->end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });

    std::map<std::string, std::string> o;
    std::string                        cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2)
        o[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, double d) { return o.count(k) ? strtod(o[k].c_str(), nullptr) : d; };
    auto u   = [&](const char* k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    if (o.count("--cpu"))
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET((int)u("--cpu", 0), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    else
    {
        cpu_set_t cs;
        if (sched_getaffinity(0, sizeof cs, &cs) == 0)
        {
            // stay on one CPU: baton passing is much cheaper there
            int n = CPU_COUNT(&cs), want = n ? (int)(getpid() % n) : 0;
            for (int i = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &cs) && want-- == 0)
                {
                    CPU_ZERO(&cs);
                    CPU_SET(i, &cs);
                    sched_setaffinity(0, sizeof cs, &cs);
                    break;
                }
        }
    }
    int scen = -1;
    if (o.count("--scenario"))
    {
        scen = scenario_index_of(o["--scenario"].c_str());
        if (scen < 0)
        {
            fprintf(stderr, "unknown scenario\n");
            return 64;
        }
    }
    RunSpec sp;
    sp.seed       = u("--seed", 1);
    sp.param_seed = 0;
    sp.scenario   = scen;
    sp.replay = sp.use_params = false;
    sp.verbose                = u("--verbose", 0) != 0;
    if (cmd == "list")
    {
        for (auto& s : *g_scen)
            printf("%s %u\n", s.name, s.weight);
        return 0;
    }
    if (cmd == "batch")
        return cmd_batch(u("--base", 1), u("--start", 0), u("--stride", 1), u("--runs", ~0ull), num("--seconds", 5), o["--out"].c_str(), scen, (int)u("--maxviol", 40));
    if (cmd == "one")
    {
        run_one(sp);
        emit_result(stdout, 0, sp, true);
        if (sp.verbose)
            fwrite(R->trace, 1, R->tracelen, stdout);
        return 0;
    }
    if (cmd == "hashes") // determinism proof: print index hash for many seeds
    {
        for (u64 i = 0; i < u("--runs", 100); ++i)
        {
            sp.seed = seed_of(u("--base", 1), i);
            run_one(sp);
            printf("%llu %d %016llx %016llx %llu\n", (unsigned long long)i, R->status, (unsigned long long)R->hash, (unsigned long long)R->ilhash, (unsigned long long)R->steps);
        }
        return 0;
    }
    if (cmd == "minimize")
        return cmd_minimize(sp, o["--out"].c_str(), num("--seconds", 20));
    if (cmd == "replay")
    {
        RunSpec r;
        r.verbose    = sp.verbose;
        r.param_seed = 0;
        if (!load_replay(o["--file"].c_str(), r))
        {
            fprintf(stderr, "cannot load replay file\n");
            return 64;
        }
        run_one(r);
        emit_result(stdout, 0, r, true);
        if (sp.verbose)
            fwrite(R->trace, 1, R->tracelen, stdout);
        return 0;
    }
    fprintf(stderr, "usage: %s list|batch|one|hashes|minimize|replay ...\n", argv[0]);
    return 64;
}
