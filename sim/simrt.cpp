// Deterministic simulation runtime.
//
// One process = one simulated execution of the whole feellgood program.  Everything that is not a
// function of the program text and its input files goes through this file:
//   * parallel algorithms: fg_sim_region() runs the chunks on simulated threads; exactly one of them
//     runs at any time and the plan (or the seeded PRNG, whose decisions are logged as a plan) says
//     which one, and after how many memory accesses it is preempted;
//   * files: fopen/open/write/writev/read/close/mkdir/rename..., with injected errors, short
//     transfers, torn writes and crashes;
//   * clocks, host name, contents of fresh heap and stack memory;
//   * signals: delivered synchronously at a chosen event;
//   * solver failures (hooks in the program, FEELLGOOD_SIM) and failing allocations.
// The event log lives in a shared mapping, so that it survives any kind of death of the process.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "simrt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern int feellgood_main(int argc, char **argv);

volatile int fg_hot = 0;

namespace
{
typedef uint64_t u64;
const u64 NEVER = ~0ull;

struct Rng
    {
    u64 s;
    u64 next()
        {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
        }
    u64 below(u64 n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    };

u64 mix(u64 a, u64 b)
    {
    Rng r{a ^ (b * 0x9e3779b97f4a7c15ull)};
    r.next();
    return r.next();
    }

// ---------------------------------------------------------------- event log (shared mapping)
struct LogMem
    {
    volatile u64 size;
    char text[1];
    };
LogMem *logm = nullptr;
u64 log_cap = 0;

void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logf(const char *fmt, ...)
    {
    if (!logm) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
    if (logm->size + n + 16 > log_cap) return;
    memcpy(logm->text + logm->size, buf, n);
    logm->size = logm->size + n;
    }
void log_raw(const void *p, u64 n)
    {
    if (!logm || logm->size + n + 16 > log_cap) return;
    memcpy(logm->text + logm->size, p, n);
    logm->size = logm->size + n;
    }

// ---------------------------------------------------------------- plan
struct FsFault
    {
    std::string op;      // write open close mkdir stat rename read any
    u64 n;               // which one (1-based, counted per op; "any" counts them all)
    std::string action;  // enospc eio short eintr crash eacces emfile eexist enoent
    long arg;
    bool sticky;
    std::string scope;   // substring of the file name ("" = all)
    bool done;
    };
struct SigAt
    {
    int sig;
    std::string kind;  // rand malloc clock fsop region access hook
    u64 n;
    bool done;
    };
struct Preempt
    {
    int thr;
    u64 cnt;
    int to;
    };

struct Plan
    {
    std::string cwd, out, err, in, log;
    std::vector<std::string> args;
    std::vector<std::pair<std::string, std::string>> env;
    u64 seed = 1;
    int threads = 1;
    std::string sched = "seq";  // seq chunk rand race replay
    double p_region = 1, p_access = 0;
    std::map<u64, std::vector<Preempt>> trace;  // region -> preemptions
    int fill = -1, stackfill = -1;
    double clock_base = 1.7e9, clock_step = 1e-3;
    std::map<u64, double> clock_jump;
    std::vector<FsFault> fs;
    std::vector<SigAt> sigs;
    std::vector<u64> malloc_fail;
    std::map<std::string, std::vector<std::pair<u64, u64>>> solver_fail;  // site -> [from,to]
    bool host_fail = false;
    std::string host = "simhost";
    int pid = 4242;
    u64 max_attempts = 0, max_regions = 0;
    int cpu_limit = 60;
    bool snap = false, live = false;
    bool trace_out = false;
    } P;

struct Counters
    {
    u64 rnd, mallocs, clocks, fsop, regions, accesses, hooks, switches, attempts;
    std::map<std::string, u64> *op;
    std::map<std::string, u64> *site;
    } C;

enum Mode { M_SEQ, M_CHUNK, M_RAND, M_RACE, M_REPLAY };
int smode = M_SEQ;
bool armed = false;  // the simulated program is running
volatile int in_rt = 0;

[[noreturn]] void sim_die(const char *why, int code)
    {
    logf("DIE %s\n", why);
    _exit(code);
    }

void fired(const char *kind) { logf("FIRED %s\n", kind); }

void sig_event(const char *kind, u64 n)
    {
    for (auto &s : P.sigs)
        if (!s.done && s.n == n && s.kind == kind)
            {
            s.done = true;
            logf("FIRED signal %d at %s %llu\n", s.sig, kind, (unsigned long long) n);
            raise(s.sig);
            }
    }
u64 sig_access_at = NEVER;

// ---------------------------------------------------------------- real functions
template <class F> F real(const char *name)
    {
    F f = (F) dlsym(RTLD_NEXT, name);
    return f;
    }

// ---------------------------------------------------------------- simulated threads
enum { MAXT = 16 };
enum St { IDLE, RUN, BLOCKED, DONE };
struct Thr
    {
    int id;
    pthread_t th;
    std::atomic<int> go{0};
    St st = IDLE;
    void *wait_on = nullptr;
    u64 cnt = 0, next_pre = NEVER, slice = 0;
    size_t qpos = 0;
    std::vector<Preempt> q;
    int nheld = 0;
    void *held[32];
    };
Thr T[MAXT];
int nthr_started = 1;  // thread 0 is the program's main thread
thread_local int self = 0;
volatile int cur = 0;

struct Region
    {
    bool active = false;
    long n = 0, next = 0;
    void (*body)(void *, long) = nullptr;
    void *ctx = nullptr;
    int nt = 0;
    u64 idx = 0;
    bool noisy = false;
    } R;
Rng schedRng{1};

int futex(std::atomic<int> *a, int op, int v)
    { return syscall(SYS_futex, (int *) a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }

void wait_baton(int me)
    {
    while (T[me].go.load(std::memory_order_acquire) == 0) futex(&T[me].go, FUTEX_WAIT, 0);
    T[me].go.store(0, std::memory_order_relaxed);
    }
void give_baton(int to)
    {
    cur = to;
    T[to].go.store(1, std::memory_order_release);
    futex(&T[to].go, FUTEX_WAKE, 1);
    }

int runnable_list(int *out)
    {
    int k = 0;
    for (int i = 0; i < R.nt; i++)
        if (T[i].st == RUN) out[k++] = i;
    return k;
    }

void record(int me, int to)
    {
    C.switches++;
    if (P.trace_out && logm)
        logf("P %llu %d %llu %d\n", (unsigned long long) R.idx, me, (unsigned long long) T[me].cnt, to);
    }

// choose who runs next when `me` cannot go on (blocked or done)
int pick_forced(int me)
    {
    int l[MAXT], k = runnable_list(l);
    if (k == 0) return -1;
    if (smode == M_REPLAY)
        {
        // an entry of the trace exactly here says whom to run
        Thr &t = T[me];
        while (t.qpos < t.q.size() && t.q[t.qpos].cnt < t.cnt) t.qpos++;
        if (t.qpos < t.q.size() && t.q[t.qpos].cnt == t.cnt)
            {
            int to = t.q[t.qpos++].to;
            t.next_pre = t.qpos < t.q.size() ? t.q[t.qpos].cnt : NEVER;
            for (int i = 0; i < k; i++)
                if (l[i] == to) { record(me, to); return to; }
            }
        record(me, l[0]);
        return l[0];
        }
    int to = l[smode == M_SEQ ? 0 : schedRng.below(k)];
    record(me, to);
    return to;
    }

void switch_to(int me, int to)
    {
    if (to == me) return;
    give_baton(to);
    wait_baton(me);
    T[me].slice = 0;
    }

void set_next_random(Thr &t)
    {
    if (!R.noisy || P.p_access <= 0) { t.next_pre = NEVER; return; }
    double u = schedRng.unit();
    u64 gap = 1 + (u64) (std::log(1 - u) / std::log1p(-P.p_access));
    t.next_pre = t.cnt + gap;
    }

// voluntary preemption decision at an access
__attribute__((noinline)) void preempt_now(int me, bool by_race)
    {
    Thr &t = T[me];
    int l[MAXT], k = runnable_list(l);
    if (smode == M_REPLAY)
        {
        while (t.qpos < t.q.size() && t.q[t.qpos].cnt < t.cnt) t.qpos++;
        int to = -1;
        if (t.qpos < t.q.size() && t.q[t.qpos].cnt == t.cnt) to = t.q[t.qpos++].to;
        t.next_pre = t.qpos < t.q.size() ? t.q[t.qpos].cnt : NEVER;
        if (to < 0 || to == me) return;
        for (int i = 0; i < k; i++)
            if (l[i] == to) { record(me, to); switch_to(me, to); return; }
        return;
        }
    if (!by_race) set_next_random(t);
    if (k < 2) return;
    int to = l[schedRng.below(k)];
    if (to == me) to = l[(std::find(l, l + k, me) - l + 1) % k];
    record(me, to);
    switch_to(me, to);
    }

// ---- online conflict detection, used only to decide where to preempt
struct Cell
    {
    uintptr_t key;
    u64 gen;
    short wthr;           // last writer (-1: none)
    unsigned short rmask; // readers
    void *wlock;          // a lock held at the last write (first one), or null
    const void *pc;
    };
const unsigned SHADOW = 1u << 20;
Cell *shadow = nullptr;
const unsigned PCT = 1u << 12;
const void *racy[PCT];
unsigned nracy = 0;
u64 conflicts = 0;

bool is_racy(const void *pc)
    {
    unsigned h = ((uintptr_t) pc * 0x9e3779b97f4a7c15ull) >> 52;
    for (unsigned i = 0; i < 8; i++)
        {
        const void *x = racy[(h + i) & (PCT - 1)];
        if (x == pc) return true;
        if (!x) return false;
        }
    return false;
    }
void add_racy(const void *pc)
    {
    unsigned h = ((uintptr_t) pc * 0x9e3779b97f4a7c15ull) >> 52;
    for (unsigned i = 0; i < 8; i++)
        {
        const void *&x = racy[(h + i) & (PCT - 1)];
        if (x == pc) return;
        if (!x) { x = pc; nracy++; return; }
        }
    }

void shadow_access(int me, const void *addr, bool write, const void *pc)
    {
    uintptr_t key = (uintptr_t) addr >> 3;
    unsigned h = (key * 0x9e3779b97f4a7c15ull) >> 44;
    Cell *c = nullptr;
    for (unsigned i = 0; i < 4; i++)
        {
        Cell &x = shadow[(h + i) & (SHADOW - 1)];
        if (x.gen == R.idx && x.key == key) { c = &x; break; }
        if (x.gen != R.idx) { c = &x; c->key = key; c->gen = R.idx; c->wthr = -1; c->rmask = 0; c->wlock = nullptr; c->pc = nullptr; break; }
        }
    if (!c) return;
    Thr &t = T[me];
    bool conflict = (c->wthr >= 0 && c->wthr != me) || (write && (c->rmask & ~(1u << me)));
    if (conflict)
        {
        bool common = false;
        if (c->wlock)
            for (int i = 0; i < t.nheld; i++) common |= t.held[i] == c->wlock;
        if (!common)
            {
            conflicts++;
            add_racy(pc);
            if (c->pc) add_racy(c->pc);
            }
        }
    if (write)
        {
        c->wthr = me;
        c->wlock = t.nheld ? t.held[t.nheld - 1] : nullptr;
        c->pc = pc;
        }
    else
        c->rmask |= 1u << me;
    }

const u64 FAIR_SLICE = 4000000;

inline bool in_sim() { return R.active && armed; }
}  // namespace

void fg_access(const void *addr, unsigned size, bool write, const void *pc)
    {
    (void) size;
    if (!armed) return;
    u64 a = ++C.accesses;
    if (a == sig_access_at) sig_event("access", a);
    if (!R.active) return;
    int me = self;
    Thr &t = T[me];
    t.cnt++;
    if (t.cnt >= t.next_pre)
        preempt_now(me, false);
    else if (smode == M_RACE)
        {
        shadow_access(me, addr, write, pc);
        if (nracy && is_racy(pc) && schedRng.below(3) == 0) preempt_now(me, true);
        }
    if (++t.slice > FAIR_SLICE)
        {
        t.slice = 0;
        int l[MAXT], k = runnable_list(l);
        if (k > 1)
            {
            int to = l[(std::find(l, l + k, me) - l + 1) % k];
            record(me, to);
            switch_to(me, to);
            }
        }
    }

void fg_sync_point(const void *)
    {
    if (!in_sim()) return;
    T[self].cnt++;
    Thr &t = T[self];
    if (t.cnt >= t.next_pre)
        preempt_now(self, false);
    else if ((smode == M_RAND || smode == M_RACE) && R.noisy && schedRng.below(4) == 0)
        preempt_now(self, true);
    if (++t.slice > 100000)  // spinning on an atomic: let the others go on
        {
        t.slice = 0;
        int l[MAXT], k = runnable_list(l);
        if (k > 1)
            {
            int to = l[(std::find(l, l + k, self) - l + 1) % k];
            record(self, to);
            switch_to(self, to);
            }
        }
    }

namespace
{
void chunk_loop(int me)
    {
    for (;;)
        {
        if (R.next >= R.n) break;
        long k = R.next++;
        R.body(R.ctx, k);
        // chunk boundary: always a scheduling point
        Thr &t = T[me];
        t.cnt++;
        if (smode == M_REPLAY)
            {
            if (t.cnt >= t.next_pre) preempt_now(me, false);
            }
        else if (smode != M_SEQ)
            {
            int l[MAXT], kk = runnable_list(l);
            int to = l[schedRng.below(kk)];
            if (to != me) { record(me, to); switch_to(me, to); }
            }
        }
    T[me].cnt++;  // tells this decision from that of the last chunk boundary
    T[me].st = DONE;
    }

void after_done(int me)
    {
    int to = pick_forced(me);
    if (to >= 0)
        {
        give_baton(to);
        return;
        }
    for (int i = 0; i < R.nt; i++)
        if (T[i].st == BLOCKED) sim_die("deadlock", 91);
    if (me != 0) give_baton(0);  // all done: back to the main thread
    }

void *worker(void *arg)
    {
    int me = (int) (long) arg;
    self = me;
    sigset_t all;
    sigfillset(&all);
    for (;;)
        {
        wait_baton(me);
        chunk_loop(me);
        after_done(me);
        }
    return nullptr;
    }

void start_threads(int n)
    {
    while (nthr_started < n)
        {
        int i = nthr_started++;
        T[i].id = i;
        bool a = armed;
        armed = false;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 8 << 20);
        if (pthread_create(&T[i].th, &at, worker, (void *) (long) i)) sim_die("pthread_create", 92);
        armed = a;
        }
    }
u64 split_calls = 0;
}  // namespace

extern "C" long fg_sim_split(long n, long *cuts, long maxchunks)
    {
    cuts[0] = 0;
    if (n <= 0) { cuts[1] = 0; return 1; }
    if (!armed || R.active || P.threads <= 1 || n == 1) { cuts[1] = n; return 1; }
    Rng r{mix(P.seed ^ 0x5115, ++split_calls)};
    long k = 2 + r.below(3 * P.threads);
    if (k > n) k = n;
    if (k > maxchunks) k = maxchunks;
    // k-1 distinct cut positions in [1, n-1]
    std::vector<long> c;
    if (r.below(2))
        for (long i = 1; i < k; i++) c.push_back(i * n / k);
    else
        while ((long) c.size() < k - 1)
            {
            long x = 1 + r.below(n - 1);
            if (std::find(c.begin(), c.end(), x) == c.end()) c.push_back(x);
            }
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    long m = 0;
    for (long x : c) cuts[++m] = x;
    cuts[++m] = n;
    return m;
    }

extern "C" void fg_sim_region(long n, void (*body)(void *, long), void *ctx)
    {
    if (armed && !R.active)
        {
        u64 r = ++C.regions;
        if (!P.sigs.empty()) sig_event("region", r);
        if (P.max_regions && r > P.max_regions) sim_die("budget regions", 90);
        }
    if (!armed || R.active || P.threads <= 1 || n <= 1)
        {
        for (long k = 0; k < n; k++) body(ctx, k);
        return;
        }
    R.n = n;
    R.next = 0;
    R.body = body;
    R.ctx = ctx;
    R.nt = std::min<long>(P.threads, n);
    R.idx = C.regions;
    start_threads(R.nt);
    R.noisy = smode != M_SEQ && smode != M_REPLAY && schedRng.unit() < P.p_region;
    auto it = smode == M_REPLAY ? P.trace.find(R.idx) : P.trace.end();
    for (int i = 0; i < R.nt; i++)
        {
        Thr &t = T[i];
        t.st = RUN;
        t.cnt = 0;
        t.slice = 0;
        t.qpos = 0;
        t.next_pre = NEVER;
        t.q.clear();
        if (it != P.trace.end())
            {
            for (auto &p : it->second)
                if (p.thr == i) t.q.push_back(p);
            if (!t.q.empty()) t.next_pre = t.q[0].cnt;
            }
        else if (smode == M_RAND || smode == M_RACE)
            set_next_random(t);
        }
    cur = 0;
    R.active = true;
    // who starts: a scheduling decision too
    if (smode == M_REPLAY)
        {
        if (T[0].next_pre == 0) preempt_now(0, false);
        }
    else if (smode != M_SEQ)
        {
        int to = schedRng.below(R.nt);
        if (to != 0) { record(0, to); switch_to(0, to); }
        }
    chunk_loop(0);
    bool others = false;
    for (int i = 1; i < R.nt; i++) others |= T[i].st != DONE;
    if (others)
        {
        int to = pick_forced(0);
        if (to < 0) sim_die("deadlock", 91);
        give_baton(to);
        wait_baton(0);
        }
    R.active = false;
    }

// ---------------------------------------------------------------- locks
extern "C" {
typedef int (*mtx_f)(pthread_mutex_t *);
static mtx_f r_lock, r_unlock, r_trylock;

static void unblock(void *o)
    {
    for (int i = 0; i < R.nt; i++)
        if (T[i].st == BLOCKED && T[i].wait_on == o) { T[i].st = RUN; T[i].wait_on = nullptr; }
    }
static void block_on(void *o)
    {
    Thr &t = T[self];
    t.st = BLOCKED;
    t.wait_on = o;
    int to = pick_forced(self);
    if (to < 0) sim_die("deadlock", 91);
    switch_to(self, to);
    }

int pthread_mutex_lock(pthread_mutex_t *m)
    {
    if (!r_lock) r_lock = real<mtx_f>("pthread_mutex_lock");
    if (!in_sim()) return r_lock(m);
    if (!r_trylock) r_trylock = real<mtx_f>("pthread_mutex_trylock");
    fg_sync_point(m);
    int e;
    while ((e = r_trylock(m)) == EBUSY) block_on(m);
    Thr &t = T[self];
    if (e == 0 && t.nheld < 32) t.held[t.nheld++] = m;
    return e;
    }
int pthread_mutex_trylock(pthread_mutex_t *m)
    {
    if (!r_trylock) r_trylock = real<mtx_f>("pthread_mutex_trylock");
    if (!in_sim()) return r_trylock(m);
    fg_sync_point(m);
    int e = r_trylock(m);
    Thr &t = T[self];
    if (e == 0 && t.nheld < 32) t.held[t.nheld++] = m;
    return e;
    }
int pthread_mutex_unlock(pthread_mutex_t *m)
    {
    if (!r_unlock) r_unlock = real<mtx_f>("pthread_mutex_unlock");
    int e = r_unlock(m);
    if (!in_sim()) return e;
    Thr &t = T[self];
    for (int i = t.nheld - 1; i >= 0; i--)
        if (t.held[i] == m)
            {
            for (int j = i; j + 1 < t.nheld; j++) t.held[j] = t.held[j + 1];
            t.nheld--;
            break;
            }
    unblock(m);
    fg_sync_point(m);
    return e;
    }
typedef int (*rw_f)(pthread_rwlock_t *);
static int rw_do(pthread_rwlock_t *m, const char *plain, const char *tryname)
    {
    rw_f f = real<rw_f>(in_sim() ? tryname : plain);
    if (!in_sim()) return f(m);
    fg_sync_point(m);
    int e;
    while ((e = f(m)) == EBUSY) block_on(m);
    Thr &t = T[self];
    if (e == 0 && t.nheld < 32) t.held[t.nheld++] = m;
    return e;
    }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rw_do(m, "pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock"); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rw_do(m, "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock"); }
int pthread_rwlock_unlock(pthread_rwlock_t *m)
    {
    static rw_f f;
    if (!f) f = real<rw_f>("pthread_rwlock_unlock");
    int e = f(m);
    if (!in_sim()) return e;
    Thr &t = T[self];
    for (int i = t.nheld - 1; i >= 0; i--)
        if (t.held[i] == m)
            {
            for (int j = i; j + 1 < t.nheld; j++) t.held[j] = t.held[j + 1];
            t.nheld--;
            break;
            }
    unblock(m);
    fg_sync_point(m);
    return e;
    }
int sched_yield(void)
    {
    if (in_sim())
        {
        T[self].slice += 50000;
        fg_sync_point(nullptr);
        return 0;
        }
    return syscall(SYS_sched_yield);
    }

// ---------------------------------------------------------------- memory
static bool malloc_event(void);
#ifdef FG_SIM_CHECKED
}
// the sanitizer has the allocator: what the program itself allocates is what can be made to fail
static void *checked_new(size_t n)
    {
    if (malloc_event()) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
    }
void *operator new(size_t n) { return checked_new(n); }
void *operator new[](size_t n) { return checked_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc_event() ? nullptr : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc_event() ? nullptr : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" const char *__asan_default_options()
    { return "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_fill_byte=85:max_malloc_fill_size=4096:print_summary=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=86"; }
extern "C" {
#endif
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);

static bool malloc_event(void)
    {
    if (!armed || in_rt) return false;
    u64 n = ++C.mallocs;
    if (!P.sigs.empty() && !R.active)
        {
        in_rt++;
        sig_event("malloc", n);
        in_rt--;
        }
    for (u64 f : P.malloc_fail)
        if (f == n)
            {
            in_rt++;
            logf("FIRED malloc_fail %llu\n", (unsigned long long) n);
            in_rt--;
            return true;
            }
    return false;
    }
// What the program has allocated and not freed, when the plan asks for it (`live`).
static long live_bytes, live_blocks;
static inline void live_add(void *p, int d)
    {
    if (P.live && armed && !in_rt && p) live_bytes += d * (long) malloc_usable_size(p), live_blocks += d;
    }
#ifndef FG_SIM_CHECKED
static inline void fill_mem(void *p, size_t n)
    {
    if (armed && P.fill >= 0 && p) memset(p, P.fill, n);
    live_add(p, 1);
    }
void *malloc(size_t n)
    {
    if (malloc_event()) { errno = ENOMEM; return nullptr; }
    void *p = __libc_malloc(n);
    fill_mem(p, n);
    return p;
    }
void free(void *p)
    {
    live_add(p, -1);
    __libc_free(p);
    }
void *calloc(size_t a, size_t b)
    {
    if (malloc_event()) { errno = ENOMEM; return nullptr; }
    void *p = __libc_calloc(a, b);
    live_add(p, 1);
    return p;
    }
void *realloc(void *p, size_t n)
    {
    if (malloc_event()) { errno = ENOMEM; return nullptr; }
    live_add(p, -1);
    void *q = __libc_realloc(p, n);
    live_add(q, 1);
    return q;
    }
void *memalign(size_t a, size_t n)
    {
    if (malloc_event()) { errno = ENOMEM; return nullptr; }
    void *p = __libc_memalign(a, n);
    fill_mem(p, n);
    return p;
    }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **out, size_t a, size_t n)
    {
    if (malloc_event()) return ENOMEM;
    void *p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    fill_mem(p, n);
    *out = p;
    return 0;
    }
#endif

// ---------------------------------------------------------------- randomness, clocks, host name
int rand(void)
    {
    static int (*f)(void);
    if (!f) f = real<int (*)(void)>("rand");
    if (armed)
        {
        u64 n = ++C.rnd;
        sig_event("rand", n);
        }
    return f();
    }

static double sim_now(void)
    {
    static double t = 0, jump = 0;
    u64 n = ++C.clocks;
    auto it = P.clock_jump.find(n);
    if (it != P.clock_jump.end())
        {
        jump += it->second;
        fired("clock_jump");
        }
    t += P.clock_step;
    if (!R.active) sig_event("clock", n);
    return t + jump;
    }
int clock_gettime(clockid_t id, struct timespec *ts)
    {
    if (!armed) return syscall(SYS_clock_gettime, id, ts);
    static double last_mono = 0;
    double t = sim_now();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
        t += P.clock_base;
    else
        {
        t = 1000 + t;
        if (t < last_mono) t = last_mono;  // a monotonic clock never steps back
        last_mono = t;
        }
    if (t < 0) t = 0;
    ts->tv_sec = (time_t) t;
    ts->tv_nsec = (long) ((t - (double) ts->tv_sec) * 1e9);
    return 0;
    }
int gettimeofday(struct timeval *tv, void *)
    {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
    }
time_t time(time_t *out)
    {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
    }
int gethostname(char *name, size_t len)
    {
    if (armed && P.host_fail)
        {
        fired("gethostname_fail");
        errno = ENAMETOOLONG;
        return -1;
        }
    std::string h = armed ? P.host : "zygote";
    if (len < h.size() + 1) { errno = ENAMETOOLONG; return -1; }
    strcpy(name, h.c_str());
    return 0;
    }

pid_t getpid(void) { return armed ? P.pid : (pid_t) syscall(SYS_getpid); }

int sigaction(int sig, const struct sigaction *a, struct sigaction *o)
    {
    typedef int (*F)(int, const struct sigaction *, struct sigaction *);
    static F f;
    if (!f) f = real<F>("sigaction");
    int res = f(sig, a, o);
    if (armed && a)
        logf("SIGNAL-HANDLER %d %s\n", sig, a->sa_handler == SIG_DFL ? "default" : a->sa_handler == SIG_IGN ? "ignore" : "caught");
    return res;
    }
sighandler_t signal(int sig, sighandler_t h)
    {
    typedef sighandler_t (*F)(int, sighandler_t);
    static F f;
    if (!f) f = real<F>("signal");
    if (armed) logf("SIGNAL-HANDLER %d %s\n", sig, h == SIG_DFL ? "default" : h == SIG_IGN ? "ignore" : "caught");
    return f(sig, h);
    }

// ---------------------------------------------------------------- files
static std::map<int, std::string> *fds;

// A copy of a path that allocates nothing.
struct Path
    {
    char b[PATH_MAX];
    explicit Path(const std::string &s) { snprintf(b, sizeof b, "%s", s.c_str()); }
    const char *c_str(void) const { return b; }
    };

static bool in_run_dir(const char *path)
    {
    if (!path) return false;
    if (strstr(path, "/simhome/")) return false;  // gmsh's own option files
    if (path[0] != '/') return true;
    return strncmp(path, P.cwd.c_str(), P.cwd.size()) == 0;
    }
static const char *rel(const char *path)
    {
    if (path[0] == '/' && strncmp(path, P.cwd.c_str(), P.cwd.size()) == 0) return path + P.cwd.size();
    return path;
    }

// Containment: nothing is created, changed or removed outside the directory of the run.
static bool outside(const char *op, const char *path)
    {
    if (!armed || in_rt || !path) return false;
    if (strncmp(path, "/dev/", 5) == 0) return false;
    bool out = path[0] == '/' ? strncmp(path, P.cwd.c_str(), P.cwd.size()) != 0 : strncmp(path, "../", 3) == 0;
    if (!out && strstr(path, "/../") == nullptr) return false;
    if (strncmp(path, "/etc/fltk", 9) != 0)  // gmsh's graphical library
        {
        in_rt++;
        logf("OUTSIDE %s %s\n", op, path);
        in_rt--;
        }
    errno = EACCES;
    return true;
    }

[[noreturn]] static void crash_now(void)
    {
    fired("crash");
    kill((pid_t) syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
    }

static int err_of(const std::string &a)
    {
    if (a == "enospc") return ENOSPC;
    if (a == "eio") return EIO;
    if (a == "eacces") return EACCES;
    if (a == "emfile") return EMFILE;
    if (a == "enoent") return ENOENT;
    if (a == "eexist") return EEXIST;
    if (a == "edquot") return EDQUOT;
    if (a == "eintr") return EINTR;
    return 0;
    }

// Returns the fault that applies to this operation, if any.
static FsFault *fs_event(const char *op, const char *path, bool mutating)
    {
    u64 n = ++(*C.op)[op];
    u64 any = 0;
    if (mutating)
        {
        any = ++C.fsop;
        sig_event("fsop", any);
        }
    for (auto &f : P.fs)
        {
        if (!f.scope.empty() && !strstr(path, f.scope.c_str())) continue;
        bool here = false;
        if (f.op == op)
            here = f.sticky ? (n >= f.n) : (!f.done && n == f.n);
        else if (f.op == "any" && mutating)
            here = f.sticky ? (any >= f.n) : (!f.done && any == f.n);
        if (here)
            {
            f.done = true;
            logf("FIRED fs %s %s %s\n", op, f.action.c_str(), rel(path));
            return &f;
            }
        }
    return nullptr;
    }

// Streams read through the C library (the mesh file, standard input): its buffers are filled by sim_read().
static ssize_t sim_read(int fd, const std::string &path, void *buf, size_t n);
struct RdCookie { int fd; std::string path; };
static ssize_t ck_read(void *c, char *buf, size_t n)
    {
    RdCookie *k = (RdCookie *) c;
    if (!armed) return syscall(SYS_read, k->fd, buf, n);
    return sim_read(k->fd, k->path, buf, n);
    }
static int ck_seek(void *c, off64_t *pos, int whence)
    {
    off64_t x = lseek(((RdCookie *) c)->fd, *pos, whence);
    if (x < 0) return -1;
    *pos = x;
    return 0;
    }
static int ck_close(void *c)
    {
    RdCookie *k = (RdCookie *) c;
    if (k->fd > 0) syscall(SYS_close, k->fd);
    delete k;
    return 0;
    }
static FILE *reading(int fd, const std::string &path)
    {
    return fopencookie(new RdCookie{fd, path}, "r", {ck_read, nullptr, ck_seek, ck_close});
    }
static FILE *simin;      // what stands for stdin

static FILE *do_fopen(const char *path, const char *mode, const char *name)
    {
    typedef FILE *(*F)(const char *, const char *);
    F f = real<F>(name);
    if (mode && (mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+')) && outside("open", path)) return nullptr;
    if (!armed || in_rt || !in_run_dir(path)) return f(path, mode);
    in_rt++;
    FILE *res = nullptr;
    int err = 0;
    bool wr = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
    FsFault *ft = fs_event(wr ? "open" : "openr", path, wr);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    if (ft && err_of(ft->action))
        err = err_of(ft->action);
    else if (!wr && strstr(path, ".msh"))  // gmsh: buffered by the C library
        {
        int fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY | O_CLOEXEC, 0);
        err = errno;
        if (fd >= 0) res = reading(fd, path);
        }
    else
        {
        res = f(path, mode);
        err = errno;
        if (ft && ft->action == "crash") crash_now();  // after the open took effect
        }
    if (res && strstr(path, ".msh") == nullptr) (*fds)[fileno(res)] = path;
    logf("open %s %s %s\n", rel(path), mode, res ? "ok" : strerror(err));
    in_rt--;
    errno = err;
    return res;
    }
FILE *fopen(const char *path, const char *mode) { return do_fopen(path, mode, "fopen"); }
FILE *fopen64(const char *path, const char *mode) { return do_fopen(path, mode, "fopen64"); }

static int do_open(const char *path, int flags, mode_t mode, const char *name)
    {
    typedef int (*F)(const char *, int, ...);
    F f = real<F>(name);
    if (((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && outside("open", path)) return -1;
    if (!armed || in_rt || !in_run_dir(path)) return f(path, flags, mode);
    in_rt++;
    int res = -1, err = 0;
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    FsFault *ft = fs_event(wr ? "open" : "openr", path, wr);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    if (ft && err_of(ft->action))
        err = err_of(ft->action);
    else
        {
        res = f(path, flags, mode);
        err = errno;
        if (ft && ft->action == "crash") crash_now();
        }
    if (res >= 0 && strstr(path, ".msh") == nullptr) (*fds)[res] = path;
    logf("open(2) %s %d %s\n", rel(path), flags, res >= 0 ? "ok" : strerror(err));
    in_rt--;
    errno = err;
    return res;
    }
int open(const char *path, int flags, ...)
    {
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(path, flags, m, "open");
    }
int open64(const char *path, int flags, ...)
    {
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return do_open(path, flags, m, "open64");
    }

static ssize_t raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }

static ssize_t sim_write(int fd, const char *buf, size_t n)
    {
    in_rt++;
    Path path((*fds)[fd]);
    ssize_t res;
    int err = 0;
    FsFault *ft = fs_event("write", path.c_str(), true);
    if (!ft)
        {
        res = raw_write(fd, buf, n);
        err = errno;
        }
    else if (ft->action == "crash")
        {
        size_t k = ft->arg < 0 ? n : std::min<size_t>(ft->arg * n / 1000, n);
        logf("torn write %s %zu of %zu\n", rel(path.c_str()), k, n);
        raw_write(fd, buf, k);
        crash_now();
        }
    else if (ft->action == "short" && n > 1)
        {
        size_t k = std::max<size_t>(1, std::min<size_t>(ft->arg * n / 1000, n - 1));
        res = raw_write(fd, buf, k);
        err = errno;
        }
    else if (err_of(ft->action))
        {
        // a full disk takes what still fits, then refuses
        res = -1;
        err = err_of(ft->action);
        }
    else
        {
        res = raw_write(fd, buf, n);
        err = errno;
        }
    logf("write %s %zu -> %zd\n", rel(path.c_str()), n, res);
    in_rt--;
    errno = err;
    return res;
    }

ssize_t write(int fd, const void *buf, size_t n)
    {
    if (!armed || in_rt || !fds->count(fd)) return raw_write(fd, buf, n);
    return sim_write(fd, (const char *) buf, n);
    }
ssize_t writev(int fd, const struct iovec *v, int c)
    {
    if (!armed || in_rt || !fds->count(fd)) return syscall(SYS_writev, fd, v, c);
    in_rt++;
    std::string all;
    for (int i = 0; i < c; i++) all.append((const char *) v[i].iov_base, v[i].iov_len);
    in_rt--;
    return sim_write(fd, all.data(), all.size());
    }
static ssize_t sim_read(int fd, const std::string &path, void *buf, size_t n)
    {
    in_rt++;
    ssize_t res = -1;
    int err = 0;
    FsFault *ft = fs_event("read", path.c_str(), false);
    if (ft && ft->action == "short" && n > 1)
        {
        res = syscall(SYS_read, fd, buf, std::max<size_t>(1, std::min<size_t>(ft->arg, n)));
        err = errno;
        }
    else if (ft && err_of(ft->action))
        err = err_of(ft->action);
    else
        {
        res = syscall(SYS_read, fd, buf, n);
        err = errno;
        }
    logf("read %s -> %zd\n", rel(path.c_str()), res);
    in_rt--;
    errno = err;
    return res;
    }
ssize_t read(int fd, void *buf, size_t n)
    {
    if (!armed || in_rt || !(fd == 0 || fds->count(fd))) return syscall(SYS_read, fd, buf, n);
    return sim_read(fd, fd == 0 ? "stdin" : (*fds)[fd], buf, n);
    }
// libstdc++ reads standard input with these
static FILE *in_of(FILE *fp) { return armed && simin && fp == stdin ? simin : fp; }
int getc(FILE *fp)
    {
    typedef int (*F)(FILE *);
    static F f;
    if (!f) f = real<F>("getc");
    return f(in_of(fp));
    }
int ungetc(int c, FILE *fp)
    {
    typedef int (*F)(int, FILE *);
    static F f;
    if (!f) f = real<F>("ungetc");
    return f(c, in_of(fp));
    }
size_t fread(void *p, size_t a, size_t n, FILE *fp)
    {
    typedef size_t (*F)(void *, size_t, size_t, FILE *);
    static F f;
    if (!f) f = real<F>("fread");
    return f(p, a, n, in_of(fp));
    }
int (ferror)(FILE *fp)
    {
    typedef int (*F)(FILE *);
    static F f;
    if (!f) f = real<F>("ferror");
    return f(in_of(fp));
    }
int (feof)(FILE *fp)
    {
    typedef int (*F)(FILE *);
    static F f;
    if (!f) f = real<F>("feof");
    return f(in_of(fp));
    }
void (clearerr)(FILE *fp)
    {
    typedef void (*F)(FILE *);
    static F f;
    if (!f) f = real<F>("clearerr");
    f(in_of(fp));
    }
int fclose(FILE *fp)
    {
    typedef int (*F)(FILE *);
    static F f;
    if (!f) f = real<F>("fclose");
    if (!armed || in_rt) return f(fp);
    int fd = fileno(fp);
    auto it = fd < 0 ? fds->end() : fds->find(fd);
    if (it == fds->end()) return f(fp);
    in_rt++;
    Path path(it->second);
    FsFault *ft = fs_event("close", path.c_str(), true);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    fds->erase(it);
    if (ft && err_of(ft->action) && ft->arg > 0)
        {
        // delayed write error: the tail of the file never reached the disk
        struct stat st;
        if (fstat(fd, &st) == 0 && ftruncate(fd, st.st_size - std::min<off_t>(st.st_size, ft->arg))) {}
        }
    int res = f(fp), err = errno;
    if (ft && ft->action == "crash") crash_now();
    if (ft && err_of(ft->action)) { res = -1; err = err_of(ft->action); }
    logf("close %s %d\n", rel(path.c_str()), res);
    in_rt--;
    errno = err;
    return res;
    }
int close(int fd)
    {
    if (!armed || in_rt) return syscall(SYS_close, fd);
    auto it = fds->find(fd);
    if (it != fds->end())
        {
        in_rt++;
        Path path(it->second);
        FsFault *ft = fs_event("close", path.c_str(), true);
        fds->erase(it);
        in_rt--;
        if (ft && err_of(ft->action))
            {
            syscall(SYS_close, fd);
            errno = err_of(ft->action);
            return -1;
            }
        }
    return syscall(SYS_close, fd);
    }
int mkdir(const char *path, mode_t mode)
    {
    if (outside("mkdir", path)) return -1;
    if (!armed || in_rt || !in_run_dir((std::string(path) + "/").c_str())) return syscall(SYS_mkdir, path, mode);
    in_rt++;
    int res = -1, err = 0;
    FsFault *ft = fs_event("mkdir", path, true);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    if (ft && ft->action == "eexist")
        {
        // another process made it in between
        syscall(SYS_mkdir, path, 0777);
        err = EEXIST;
        }
    else if (ft && err_of(ft->action))
        err = err_of(ft->action);
    else
        {
        res = syscall(SYS_mkdir, path, mode);
        err = errno;
        }
    if (ft && ft->action == "crash") crash_now();
    logf("mkdir %s %d\n", rel(path), res);
    in_rt--;
    errno = err;
    return res;
    }
static int do_stat(const char *path, struct stat *st)
    {
    if (armed && !in_rt && in_run_dir(path))
        {
        in_rt++;
        FsFault *ft = fs_event("stat", path, false);
        in_rt--;
        if (ft && err_of(ft->action)) { errno = err_of(ft->action); return -1; }
        }
    return syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
    }
int stat(const char *path, struct stat *st) { return do_stat(path, st); }
int stat64(const char *path, struct stat64 *st) { return do_stat(path, (struct stat *) st); }
int rename(const char *a, const char *b)
    {
    if (outside("rename", a) || outside("rename", b)) return -1;
    if (!armed || in_rt || !in_run_dir(b)) return syscall(SYS_rename, a, b);
    in_rt++;
    FsFault *ft = fs_event("rename", b, true);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    int res = -1, err = 0;
    if (ft && err_of(ft->action))
        err = err_of(ft->action);
    else
        {
        res = syscall(SYS_rename, a, b);
        err = errno;
        }
    if (ft && ft->action == "crash") crash_now();
    logf("rename %s %s %d\n", rel(a), rel(b), res);
    in_rt--;
    errno = err;
    return res;
    }
int rmdir(const char *a)
    {
    if (outside("rmdir", a)) return -1;
    int res = syscall(SYS_rmdir, a);
    if (armed && !in_rt)
        {
        int err = errno;
        in_rt++;
        logf("rmdir %s %d\n", rel(a), res);
        in_rt--;
        errno = err;
        }
    return res;
    }
int truncate(const char *a, off_t n)
    {
    if (outside("truncate", a)) return -1;
    return syscall(SYS_truncate, a, n);
    }
int truncate64(const char *a, off64_t n) { return truncate(a, n); }
int unlink(const char *a)
    {
    if (outside("unlink", a)) return -1;
    if (!armed || in_rt || !in_run_dir(a)) return syscall(SYS_unlink, a);
    in_rt++;
    FsFault *ft = fs_event("unlink", a, true);
    if (ft && ft->action == "crash" && ft->arg == 0) crash_now();
    int res = syscall(SYS_unlink, a), err = errno;
    logf("unlink %s %d\n", rel(a), res);
    in_rt--;
    errno = err;
    return res;
    }
int remove(const char *a)
    {
    int r = unlink(a);
    return r && errno == EISDIR ? rmdir(a) : r;
    }
int unlinkat(int d, const char *a, int flags)
    {
    if (outside("unlink", a)) return -1;
    if (d == AT_FDCWD && !(flags & AT_REMOVEDIR)) return unlink(a);
    return syscall(SYS_unlinkat, d, a, flags);
    }
}  // extern "C"

// ---------------------------------------------------------------- the program's "truly random" seeds
#include <random>
std::random_device::result_type std::random_device::_M_getval()
    {
    static u64 n = 0;
    u64 v = mix(P.seed, 1000003 + ++n);
    if (armed) logf("ENTROPY %u\n", (unsigned) v);
    return (unsigned) v;
    }

// ---------------------------------------------------------------- hooks of the program
int fg_sim_fault(const char *site)
    {
    if (!armed) return 0;
    in_rt++;
    u64 n = ++(*C.site)[site];
    u64 h = ++C.hooks;
    int res = 0;
    auto it = P.solver_fail.find(site);
    if (it != P.solver_fail.end())
        for (auto &r : it->second)
            if (n >= r.first && n <= r.second) res = 1;
    if (res) logf("FIRED solver_fail %s %llu\n", site, (unsigned long long) n);
    in_rt--;
    sig_event("hook", h);
    return res;
    }

// A time step is being attempted.
void fg_sim_attempt(double t, double dt)
    {
    if (!armed) return;
    in_rt++;
    u64 h = ++C.hooks, n = ++C.attempts;
    logf("ATTEMPT %.17g %.17g %llu\n", t, dt, (unsigned long long) h);
    if (P.live)
        {
        long fd = syscall(SYS_fcntl, 0, F_DUPFD, 0);     // the first descriptor that is free
        syscall(SYS_close, fd);
        logf("LIVE %ld %ld %ld\n", live_bytes, live_blocks, fd);
        }
    if (P.max_attempts && n > P.max_attempts) sim_die("budget attempts", 90);
    in_rt--;
    sig_event("hook", h);
    }

// A state of the simulation: `what` is "initial" or "accepted".
void fg_sim_state(const char *what, double t, double dt, int n, const double *u)
    {
    if (!armed) return;
    in_rt++;
    u64 h = 1469598103934665603ull;
    for (const unsigned char *p = (const unsigned char *) u, *e = p + 24 * (size_t) n; p < e; p++)
        h = (h ^ *p) * 1099511628211ull;
    logf("STATE %s %.17g %.17g %d %016llx\n", what, t, dt, n, (unsigned long long) h);
    if (P.snap) log_raw(u, 24 * (u64) n), log_raw("\n", 1);
    in_rt--;
    sig_event("hook", ++C.hooks);
    }

// ---------------------------------------------------------------- one run
static void load_plan(const char *file)
    {
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line))
        {
        std::istringstream s(line);
        std::string k;
        s >> k;
        auto rest = [&]() { std::string r; s >> std::ws; std::getline(s, r); return r; };
        if (k == "cwd") P.cwd = rest();
        else if (k == "stdout") P.out = rest();
        else if (k == "stderr") P.err = rest();
        else if (k == "stdin") P.in = rest();
        else if (k == "log") P.log = rest();
        else if (k == "arg") P.args.push_back(rest());
        else if (k == "env") { std::string n; s >> n; P.env.push_back({n, rest()}); }
        else if (k == "seed") s >> P.seed;
        else if (k == "threads") s >> P.threads;
        else if (k == "sched") { s >> P.sched; s >> P.p_region >> P.p_access; }
        else if (k == "trace") s >> P.trace_out;
        else if (k == "p")
            {
            u64 r; Preempt p;
            s >> r >> p.thr >> p.cnt >> p.to;
            P.trace[r].push_back(p);
            }
        else if (k == "fill") s >> P.fill;
        else if (k == "stackfill") s >> P.stackfill;
        else if (k == "clock") s >> P.clock_base >> P.clock_step;
        else if (k == "clockjump") { u64 n; double d; s >> n >> d; P.clock_jump[n] = d; }
        else if (k == "fs")
            {
            FsFault x; x.sticky = false; x.done = false; x.arg = 0;
            s >> x.op >> x.n >> x.action >> x.arg;
            int st = 0;
            s >> st;
            x.sticky = st;
            s >> x.scope;
            P.fs.push_back(x);
            }
        else if (k == "sig") { SigAt x; x.done = false; s >> x.sig >> x.kind >> x.n; P.sigs.push_back(x); }
        else if (k == "mallocfail") { u64 n; s >> n; P.malloc_fail.push_back(n); }
        else if (k == "solverfail") { std::string site; u64 a, b; s >> site >> a >> b; P.solver_fail[site].push_back({a, b}); }
        else if (k == "hostfail") P.host_fail = true;
        else if (k == "host") P.host = rest();
        else if (k == "pid") s >> P.pid;
        else if (k == "maxattempts") s >> P.max_attempts;
        else if (k == "maxregions") s >> P.max_regions;
        else if (k == "cpu") s >> P.cpu_limit;
        else if (k == "snap") s >> P.snap;
        else if (k == "live") s >> P.live;
        }
    }

static void redirect(const std::string &file, int fd, int flags)
    {
    int f = open(file.empty() ? "/dev/null" : file.c_str(), flags, 0644);
    if (f < 0) _exit(93);
    dup2(f, fd);
    if (f != fd) syscall(SYS_close, f);
    }

__attribute__((noinline)) static void fill_stack(int v)
    {
    volatile char buf[3 << 20];
    memset((void *) buf, v, sizeof buf);
    asm volatile("" : : "r"(buf) : "memory");
    }

static void at_end(void)
    {
    if (!armed) return;
    armed = false;
    logf("END rand %llu malloc %llu clock %llu fsop %llu regions %llu access %llu hooks %llu switches %llu conflicts %llu\n",
         (unsigned long long) C.rnd, (unsigned long long) C.mallocs, (unsigned long long) C.clocks,
         (unsigned long long) C.fsop, (unsigned long long) C.regions, (unsigned long long) C.accesses,
         (unsigned long long) C.hooks, (unsigned long long) C.switches, (unsigned long long) conflicts);
    for (auto &x : *C.op) logf("OPS %s %llu\n", x.first.c_str(), (unsigned long long) x.second);
    for (auto &x : *C.site) logf("SITE %s %llu\n", x.first.c_str(), (unsigned long long) x.second);
    }

static int run_plan(const char *file)
    {
    // the dispositions and the mask of whoever started the check are not those of the simulated run
    // (a shell starts its background commands with SIGINT ignored)
    for (int s: {SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGUSR1, SIGUSR2, SIGALRM, SIGTSTP, SIGTTIN, SIGTTOU, SIGXFSZ})
        signal(s, SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    umask(022);
    load_plan(file);
    log_cap = 256ull << 20;
    int lf = open(P.log.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (lf < 0 || ftruncate(lf, log_cap)) return 93;
    logm = (LogMem *) mmap(nullptr, log_cap, PROT_READ | PROT_WRITE, MAP_SHARED, lf, 0);
    syscall(SYS_close, lf);
    if (logm == MAP_FAILED) return 93;
    logm->size = 0;
    if (chdir(P.cwd.c_str())) return 93;
    P.cwd = "/proc/self/cwd";   // nothing the program can see depends on where it runs
    redirect(P.in, 0, O_RDONLY);
    redirect(P.out, 1, O_WRONLY | O_CREAT | O_TRUNC);
    redirect(P.err, 2, O_WRONLY | O_CREAT | O_TRUNC);
    clearenv();
    setenv("HOME", (P.cwd + "/simhome").c_str(), 1);
    setenv("PATH", "/usr/bin:/bin", 1);
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    for (auto &e : P.env) setenv(e.first.c_str(), e.second.c_str(), 1);
    struct rlimit rl = {(rlim_t) P.cpu_limit, (rlim_t) P.cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    fds = new std::map<int, std::string>;
    C.op = new std::map<std::string, u64>;
    C.site = new std::map<std::string, u64>;
    schedRng.s = mix(P.seed, 77);
    smode = P.sched == "chunk" ? M_CHUNK : P.sched == "rand" ? M_RAND : P.sched == "race" ? M_RACE
            : P.sched == "replay" ? M_REPLAY : M_SEQ;
    for (auto &x : P.trace)
        std::stable_sort(x.second.begin(), x.second.end(),
                         [](const Preempt &a, const Preempt &b) { return a.cnt < b.cnt; });
    for (auto &s : P.sigs)
        if (s.kind == "access") sig_access_at = s.n;
    if (smode == M_RACE) shadow = (Cell *) calloc(SHADOW, sizeof(Cell));
    fg_hot = P.threads > 1 || sig_access_at != NEVER;
    std::vector<char *> av;
    for (auto &a : P.args) av.push_back(strdup(a.c_str()));
    int ac = av.size();
    av.push_back(nullptr);
    if (P.stackfill >= 0) fill_stack(P.stackfill);
    atexit(at_end);
    simin = reading(0, "stdin");
    armed = true;
    int status = feellgood_main(ac, av.data());
    exit(status);
    }

#undef main
int main(int argc, char **argv)
    {
    if (argc >= 2 && strcmp(argv[1], "--noaslr") != 0)
        {
        // same addresses in every process: one source of nondeterminism less
        if (personality(ADDR_NO_RANDOMIZE) != -1)
            {
            std::vector<char *> a{argv[0], (char *) "--noaslr"};
            for (int i = 1; i <= argc; i++) a.push_back(argv[i]);
            execv("/proc/self/exe", a.data());
            }
        }
    else
        {
        argv++;
        argc--;
        }
    if (argc >= 3 && strcmp(argv[1], "--run") == 0) return run_plan(argv[2]);
    if (argc < 2 || strcmp(argv[1], "--zygote") != 0) return 2;
    char line[4096];
    signal(SIGPIPE, SIG_IGN);
    printf("READY\n");
    fflush(stdout);
    while (fgets(line, sizeof line, stdin))
        {
        line[strcspn(line, "\n")] = 0;
        pid_t pid = fork();
        if (pid == 0) _exit(run_plan(line));
        int st = 0;
        struct rusage ru;
        memset(&ru, 0, sizeof ru);
        while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
        long cpu = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000
                   + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
        if (WIFEXITED(st))
            printf("DONE exit %d %ld\n", WEXITSTATUS(st), cpu);
        else
            printf("DONE signal %d %ld\n", WTERMSIG(st), cpu);
        fflush(stdout);
        }
    return 0;
    }
