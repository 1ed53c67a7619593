// A simulated OpenMP runtime.
//
// The extensions of /repo are compiled with "-fopenmp -fsanitize=thread" and linked against this library instead of
// libgomp and libtsan.  Every OpenMP thread is a fibre (ucontext) of ONE operating-system thread; which fibre runs is
// decided only here, at the OpenMP synchronisation calls (GOMP_*) and at every instrumented memory access
// (__tsan_read*/__tsan_write*/atomics), from one seeded generator or from a recorded trace.  One seed is therefore one
// exactly repeatable execution.  Nothing here reads a clock or starts a thread.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>

typedef uint64_t u64;
typedef unsigned long long ull;

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace {

struct EhGlobals { void *caught; unsigned int uncaught; };

const int MAXF = 64;
const size_t STACK = 1 << 20;
const size_t DIRTY = 32768;

struct Rng {
    u64 s;
    u64 next() { // splitmix64
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
} rng;

struct WorkShare { // one loop / single / sections instance of a team
    bool init = false;
    bool ull_mode = false, up = true;
    long next = 0, end = 0, incr = 1, chunk = 1;
    ull unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool taken = false;
    void *copy = nullptr;
    int left = 0;
    long ordered_next = 0;
};

struct Team {
    int n = 1;
    int level = 1;
    std::map<int, WorkShare> ws;
    int barrier_count = 0;
    unsigned barrier_gen = 0;
};

struct Ctx { // one fibre's position in its innermost team
    Team *team = nullptr;
    int tid = 0;
    int wsi = 0; // index of the current worksharing construct
};

struct Fiber {
    ucontext_t uc;
    void *stack = nullptr;
    bool done = true;
    bool blocked = false;   // at a barrier
    unsigned wait_gen = 0;
    int wait_lock = -1;     // waiting for that lock
    std::vector<Ctx> ctx;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    EhGlobals eh = {nullptr, 0};
    u64 prio = 0;
};

// configuration
int cfg_max_threads = 1;
int cfg_grant = 0;             // >0: the runtime grants at most that many threads (thread limit / dynamic adjustment)
int cfg_strategy = 0;          // 0 off, 1 geometric, 2 priority (PCT), 3 every access, 4 sequential (switch only when blocked)
u64 cfg_inv = 50;              // mean distance between pre-emptions
u64 cfg_hot_inv = 3;           // at a hot site: pre-empt with probability 1/cfg_hot_inv
bool cfg_hot = false;
u64 cfg_step_limit = 400000000ULL;
int cfg_dirty = 1;

// state
Fiber fib[MAXF];
int cur = 0;
bool running = false;          // inside an outermost simulated parallel region
int nfib = 0;
ucontext_t main_uc;
std::vector<Ctx> serial_ctx;   // context stack outside regions (nested-with-one-thread regions)
u64 step_no = 0, next_preempt = 0;
u64 total_steps = 0;
// trace of decisions: (step, fibre) pairs
std::vector<std::pair<u64, int>> trace;
bool replaying = false;
std::vector<std::pair<u64, int>> replay;
size_t replay_i = 0;
u64 sched_hash = 1469598103934665603ULL;
// statistics
u64 st_regions = 0, st_preempt = 0, st_switch = 0, st_barriers = 0, st_chunks = 0, st_short = 0, st_hot = 0,
    st_singles = 0, st_crit_wait = 0, st_conflicts = 0, st_multi = 0;
// locks (critical sections, atomics, omp locks)
std::map<void *, int> lock_owner;
char unnamed_critical, atomic_lock, tsan_atomic;
// conflict tracking
struct Acc { unsigned char w, r; }; // fibre+1 of the last writer / reader, 255 = several
std::unordered_map<u64, Acc> shadow;
std::unordered_set<u64> hot_sites;
std::unordered_map<u64, u64> last_site; // address -> call site of last access
u64 prio_points[16];
int n_prio_points = 0;
u64 prio_low = 0;

void mix(u64 v) { sched_hash ^= v; sched_hash *= 1099511628211ULL; sched_hash ^= sched_hash >> 29; }

void die(int code, const char *what) {
    char buf[400];
    int n = snprintf(buf, sizeof buf, "SIMOMP-FATAL %d %s step=%llu threads=%d\n", code, what, (ull)step_no, nfib);
    if (write(2, buf, n) < 0) {}
    for (int i = 0; i < nfib; i++) {
        n = snprintf(buf, sizeof buf, "SIMOMP-FATAL   fibre %d %s%s\n", i, fib[i].done ? "finished" : fib[i].blocked ? "at a barrier" : "runnable", fib[i].wait_lock >= 0 ? " waiting for a lock" : "");
        if (write(2, buf, n) < 0) {}
    }
    _exit(code);
}

bool runnable(int i) { return !fib[i].done && !fib[i].blocked && fib[i].wait_lock < 0; }

void new_countdown() {
    if (cfg_strategy == 1) {
        u64 d = 1 + rng.below(2 * cfg_inv);
        next_preempt = step_no + d;
    } else if (cfg_strategy == 3) {
        next_preempt = step_no + 1;
    } else
        next_preempt = ~0ULL;
}

void switch_to(int to) {
    if (to == cur) return;
    int from = cur;
    cur = to;
    st_switch++;
    EhGlobals *g = reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals());
    fib[from].eh = *g;
    *g = fib[to].eh;
    swapcontext(&fib[from].uc, &fib[to].uc);
}

int pick(bool exclude_current) {
    int list[MAXF], n = 0;
    for (int i = 0; i < nfib; i++)
        if (runnable(i) && !(exclude_current && i == cur)) list[n++] = i;
    if (n == 0) return -1;
    if (cfg_strategy == 2) {
        int b = list[0];
        for (int k = 1; k < n; k++) if (fib[list[k]].prio > fib[b].prio) b = list[k];
        return b;
    }
    if (cfg_strategy == 4 || cfg_strategy == 0) { // seeded but never pre-empting: any order of whole runs
        return list[rng.below(n)];
    }
    return list[rng.below(n)];
}

void record(int to) {
    trace.push_back(std::make_pair(step_no, to));
    mix(step_no * 64 + to);
}

// the running fibre cannot go on: choose another one
void reschedule_blocked() {
    int to;
    if (replaying) {
        if (replay_i < replay.size() && replay[replay_i].first == step_no && replay[replay_i].second < nfib && runnable(replay[replay_i].second)) {
            to = replay[replay_i++].second;
        } else { // minimised trace: lowest runnable fibre
            to = -1;
            for (int i = 0; i < nfib; i++) if (runnable(i)) { to = i; break; }
        }
    } else
        to = pick(false);
    if (to < 0) die(77, "deadlock: no OpenMP thread can make progress (barrier not reached by every thread of the team)");
    record(to);
    switch_to(to);
}

inline void preempt_to(int to) {
    st_preempt++;
    record(to);
    switch_to(to);
}

// a scheduling point; site != 0 marks a memory access
void point(u64 site) {
    step_no++;
    total_steps++;
    if (step_no > cfg_step_limit) die(78, "no progress within the step limit");
    if (replaying) {
        while (replay_i < replay.size() && replay[replay_i].first < step_no) replay_i++;
        if (replay_i < replay.size() && replay[replay_i].first == step_no) {
            int to = replay[replay_i].second;
            if (to < nfib && to != cur && runnable(to)) { replay_i++; preempt_to(to); }
        }
        return;
    }
    if (cfg_strategy == 0 || cfg_strategy == 4) return;
    bool go = step_no >= next_preempt;
    if (!go && cfg_hot && site && !hot_sites.empty() && hot_sites.count(site)) {
        if (rng.below(cfg_hot_inv) == 0) { go = true; st_hot++; }
    }
    if (cfg_strategy == 2) {
        for (int k = 0; k < n_prio_points; k++)
            if (prio_points[k] == step_no) { fib[cur].prio = --prio_low; go = true; }
        if (!go) return;
        int to = pick(false);
        if (to >= 0 && to != cur) preempt_to(to);
        return;
    }
    if (!go) return;
    int to = pick(true);
    new_countdown();
    if (to >= 0) preempt_to(to);
}

inline void access(void *addr, int size, bool write, bool atomic, void *pc) {
    if (!running) return;
    // accesses to the running fibre's own stack are private
    char *a = (char *)addr;
    if (a >= (char *)fib[cur].stack && a < (char *)fib[cur].stack + STACK) { return; }
    u64 site = (u64)pc;
    if (cfg_hot && nfib > 1) {
        for (u64 k = (u64)addr & ~7ULL; k < (u64)addr + size; k += 8) {
            Acc &e = shadow[k];
            unsigned char me = cur + 1;
            bool conflict = write ? ((e.w && e.w != me) || (e.r && e.r != me)) : (e.w && e.w != me);
            if (conflict) {
                st_conflicts++;
                hot_sites.insert(site);
                auto it = last_site.find(k);
                if (it != last_site.end()) hot_sites.insert(it->second);
            }
            if (write) e.w = (e.w && e.w != me) ? 255 : me; else e.r = (e.r && e.r != me) ? 255 : me;
            last_site[k] = site;
        }
    }
    point(site);
}

Ctx &ctx() {
    if (running) return fib[cur].ctx.back();
    if (serial_ctx.empty()) {
        static Team solo;
        Ctx c; c.team = &solo; c.tid = 0;
        serial_ctx.push_back(c);
    }
    return serial_ctx.back();
}

void barrier() {
    Ctx &c = ctx();
    Team *t = c.team;
    if (t->n <= 1 || !running || t->level > 1) { return; }
    st_barriers++;
    point(0);
    t->barrier_count++;
    if (t->barrier_count == t->n) {
        t->barrier_count = 0;
        t->barrier_gen++;
        shadow.clear();
        last_site.clear();
        for (int i = 0; i < nfib; i++) fib[i].blocked = false;
        point(0);
        if (!replaying && (cfg_strategy == 1 || cfg_strategy == 3 || cfg_strategy == 4)) {
            step_no++;
            int to = pick(false);
            if (to >= 0 && to != cur) preempt_to(to);
        } else if (replaying) point(0);
        else step_no++;
        return;
    }
    fib[cur].blocked = true;
    reschedule_blocked();
}

void fiber_main() {
    Fiber &f = fib[cur];
    f.fn(f.data);
    f.done = true;
    // switch to another fibre, or back to the region's caller
    bool all = true;
    for (int i = 0; i < nfib; i++) if (!fib[i].done) all = false;
    if (all) {
        setcontext(&main_uc);
    }
    step_no++;
    reschedule_blocked();
    abort(); // never resumed
}

void region(void (*fn)(void *), void *data, unsigned num_threads) {
    if (running) { // nested: a team of one, executed in place (OpenMP's default for nested parallelism)
        Team t; t.n = 1; t.level = 2;
        Ctx c; c.team = &t; c.tid = 0;
        int me = cur;
        fib[me].ctx.push_back(c);
        fn(data);
        fib[me].ctx.pop_back();
        return;
    }
    int n = num_threads ? (int)num_threads : cfg_max_threads;
    if (cfg_grant > 0 && n > cfg_grant) { n = cfg_grant; st_short++; }
    if (n > MAXF) n = MAXF;
    if (n < 1) n = 1;
    st_regions++;
    Team t; t.n = n; t.level = 1;
    if (n == 1 && cfg_strategy == 0) {
        Ctx c; c.team = &t; c.tid = 0;
        serial_ctx.push_back(c);
        fn(data);
        serial_ctx.pop_back();
        return;
    }
    if (n > 1) st_multi++;
    nfib = n;
    shadow.clear();
    last_site.clear();
    for (int i = 0; i < n; i++) {
        Fiber &f = fib[i];
        if (!f.stack) {
            char *p = (char *)mmap(0, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == (char *)MAP_FAILED) die(79, "out of memory for fibres");
            mprotect(p, 4096, PROT_NONE);
            f.stack = p + 4096;
        }
        // what a thread leaves uninitialised on its stack must not happen to look initialised
        memset((char *)f.stack + STACK - DIRTY, cfg_dirty, DIRTY);
        f.done = false; f.blocked = false; f.wait_lock = -1;
        f.ctx.clear();
        Ctx c; c.team = &t; c.tid = i;
        f.ctx.push_back(c);
        f.fn = fn; f.data = data;
        f.eh = {nullptr, 0};
        getcontext(&f.uc);
        f.uc.uc_stack.ss_sp = f.stack;
        f.uc.uc_stack.ss_size = STACK;
        f.uc.uc_link = nullptr;
        makecontext(&f.uc, fiber_main, 0);
    }
    if (cfg_strategy == 2) {
        prio_low = 1000;
        for (int i = 0; i < n; i++) fib[i].prio = 2000 + rng.next() % 1000000;
        n_prio_points = 1 + (int)rng.below(6);
        for (int k = 0; k < n_prio_points; k++) prio_points[k] = step_no + 1 + rng.below(cfg_inv * 40);
    }
    new_countdown();
    step_no++;
    int first;
    cur = 0;
    if (replaying) {
        while (replay_i < replay.size() && replay[replay_i].first < step_no) replay_i++;
        first = 0;
        if (replay_i < replay.size() && replay[replay_i].first == step_no && replay[replay_i].second < n) first = replay[replay_i++].second;
    } else {
        first = 0;
        int to = pick(false);
        if (to >= 0) first = to;
    }
    record(first);
    EhGlobals *g = reinterpret_cast<EhGlobals *>(__cxxabiv1::__cxa_get_globals());
    EhGlobals saved = *g;
    *g = fib[first].eh;
    cur = first;
    running = true;
    volatile int back = 0;
    getcontext(&main_uc);
    if (!back) {
        back = 1;
        setcontext(&fib[first].uc);
    }
    running = false;
    *g = saved;
    nfib = 0;
}

void lock_acquire(void *l) {
    if (!running) return;
    point(1);
    int me = cur;
    while (lock_owner.count(l)) {
        st_crit_wait++;
        fib[me].wait_lock = 1;
        fib[me].wait_gen = (unsigned)((u64)l & 0xffffffffu);
        reschedule_blocked();
        fib[me].wait_lock = -1;
    }
    lock_owner[l] = me;
}

void lock_release(void *l) {
    if (!running) return;
    lock_owner.erase(l);
    for (int i = 0; i < nfib; i++)
        if (fib[i].wait_lock >= 0 && fib[i].wait_gen == (unsigned)((u64)l & 0xffffffffu)) fib[i].wait_lock = -1;
    point(1);
}

WorkShare &enter_ws() {
    Ctx &c = ctx();
    c.wsi++;
    WorkShare &w = c.team->ws[c.wsi];
    if (!w.init) { w.left = c.team->n; }
    return w;
}
WorkShare &cur_ws() { Ctx &c = ctx(); return c.team->ws[c.wsi]; }

bool loop_next(WorkShare &w, long *is, long *ie) {
    if (running) point(1);
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    st_chunks++;
    long n = w.next + w.incr * w.chunk;
    if (w.incr > 0 ? n > w.end : n < w.end) n = w.end;
    *is = w.next; *ie = n;
    w.next = n;
    if (running) point(1);
    return true;
}
bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
    WorkShare &w = enter_ws();
    if (!w.init) {
        w.init = true; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1;
    }
    return loop_next(w, is, ie);
}
bool loop_next_ull(WorkShare &w, ull *is, ull *ie) {
    if (running) point(1);
    if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    st_chunks++;
    ull step = w.uincr * w.uchunk;
    ull left = w.up ? w.uend - w.unext : w.unext - w.uend;
    ull mag = w.up ? step : (ull)(0 - step);
    ull n = mag >= left ? w.uend : w.unext + step;
    *is = w.unext; *ie = n;
    w.unext = n;
    if (running) point(1);
    return true;
}
bool loop_start_ull(bool up, ull start, ull end, ull incr, ull chunk, ull *is, ull *ie) {
    WorkShare &w = enter_ws();
    if (!w.init) {
        w.init = true; w.ull_mode = true; w.up = up; w.unext = start; w.uend = end; w.uincr = incr; w.uchunk = chunk ? chunk : 1;
    }
    return loop_next_ull(w, is, ie);
}
} // namespace

extern "C" {

// ---------------------------------------------------------------- control, called from Python through ctypes
void sim_config(int max_threads, int grant, int strategy, u64 inv, u64 seed, int hot) {
    cfg_max_threads = max_threads; cfg_grant = grant; cfg_strategy = strategy; cfg_inv = inv ? inv : 1; cfg_hot = hot;
    rng.s = seed; rng.next();
    step_no = 0; trace.clear(); replaying = false; replay_i = 0;
    sched_hash = 1469598103934665603ULL;
    lock_owner.clear();
}
void sim_replay(int max_threads, int grant, const u64 *steps, const int *to, long n) {
    sim_config(max_threads, grant, 4, 1, 0, 0);
    replay.clear();
    for (long i = 0; i < n; i++) replay.push_back(std::make_pair(steps[i], to[i]));
    replaying = true; replay_i = 0;
}
void sim_off(void) { sim_config(1, 0, 0, 1, 0, 0); replaying = false; }
void sim_forget_hot(void) { hot_sites.clear(); }
void sim_dirty(int byte) { cfg_dirty = byte; }
void sim_step_limit(u64 n) { cfg_step_limit = n; }
u64 sim_hash(void) { return sched_hash; }
u64 sim_steps(void) { return step_no; }
long sim_trace_len(void) { return (long)trace.size(); }
void sim_trace(u64 *steps, int *to) { for (size_t i = 0; i < trace.size(); i++) { steps[i] = trace[i].first; to[i] = trace[i].second; } }
void sim_stats(u64 *o) {
    u64 v[] = {st_regions, st_multi, st_preempt, st_switch, st_barriers, st_chunks, st_short, st_hot, st_singles, st_crit_wait, st_conflicts, total_steps, (u64)hot_sites.size()};
    memcpy(o, v, sizeof v);
}

// ---------------------------------------------------------------- OpenMP
int omp_get_thread_num(void) { return running || !serial_ctx.empty() ? ctx().tid : 0; }
int omp_get_num_threads(void) { return running || serial_ctx.size() > 0 ? ctx().team->n : 1; }
int omp_get_max_threads(void) { return cfg_max_threads; }
int omp_get_num_procs(void) { return cfg_max_threads; }
int omp_get_thread_limit(void) { return cfg_grant > 0 ? cfg_grant : MAXF; }
void omp_set_num_threads(int n) { if (n > 0) cfg_max_threads = n > MAXF ? MAXF : n; }
int omp_in_parallel(void) { return running; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return running ? (int)fib[cur].ctx.size() : 0; }
int omp_get_active_level(void) { return running ? 1 : 0; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
double omp_get_wtime(void) { return total_steps * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void **l) { *l = malloc(1); }
void omp_destroy_lock(void **l) { free(*l); }
void omp_set_lock(void **l) { lock_acquire(*l); }
void omp_unset_lock(void **l) { lock_release(*l); }
int omp_test_lock(void **l) { if (!running) return 1; point(1); if (lock_owner.count(*l)) return 0; lock_owner[*l] = cur; return 1; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { region(fn, data, n); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_single_start(void) {
    WorkShare &w = enter_ws();
    if (running) point(1);
    if (w.taken) return false;
    w.init = true; w.taken = true; st_singles++;
    return true;
}
void *GOMP_single_copy_start(void) {
    WorkShare &w = enter_ws();
    if (running) point(1);
    if (!w.taken) { w.init = true; w.taken = true; st_singles++; return nullptr; }
    barrier();
    return cur_ws().copy;
}
void GOMP_single_copy_end(void *d) { cur_ws().copy = d; barrier(); }
void GOMP_critical_start(void) { lock_acquire(&unnamed_critical); }
void GOMP_critical_end(void) { lock_release(&unnamed_critical); }
void GOMP_critical_name_start(void **p) { lock_acquire(p); }
void GOMP_critical_name_end(void **p) { lock_release(p); }
void GOMP_atomic_start(void) { lock_acquire(&atomic_lock); }
void GOMP_atomic_end(void) { lock_release(&atomic_lock); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { if (running) point(1); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align, bool, unsigned, void **, int) {
    if (cpyfn) {
        char *buf = (char *)malloc(size + align);
        char *arg = (char *)(((u64)buf + align - 1) & ~(u64)(align - 1));
        cpyfn(arg, data);
        fn(arg);
        free(buf);
    } else fn(data);
}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

#define LOOPS(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return loop_next(cur_ws(), is, ie); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return loop_start_ull(up, s, e, i, c, is, ie); } \
    bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return loop_next_ull(cur_ws(), is, ie); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_next(cur_ws(), is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(cur_ws(), is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(cur_ws(), is, ie); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }

// combined "parallel for": every fibre's first worksharing construct is the loop, already initialised
struct PLoop { void (*fn)(void *); void *d; long s, e, i, c; };
static void ploop_body(void *p) {
    PLoop *q = (PLoop *)p;
    Ctx &c = ctx();
    c.wsi = 1;
    WorkShare &w = c.team->ws[1];
    if (!w.init) { w.init = true; w.next = q->s; w.end = q->e; w.incr = q->i; w.chunk = q->c > 0 ? q->c : 1; }
    q->fn(q->d);
}
static void ploop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
    PLoop q = {fn, d, s, e, i, c};
    region(ploop_body, &q, n);
}
#define PLOOP(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loop_next(cur_ws(), &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { ploop(fn, d, n, 1, (long)count + 1, 1, 1); }

// ---------------------------------------------------------------- ThreadSanitizer's instrumentation interface
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { access(p, (int)(n > 64 ? 64 : n), false, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, (int)(n > 64 ? 64 : n), true, false, PC); }
#define RW(N) \
    void __tsan_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_write##N(void *p) { access(p, N, true, false, PC); } \
    void __tsan_read##N##_pc(void *p, void *pc) { access(p, N, false, false, pc); } \
    void __tsan_write##N##_pc(void *p, void *pc) { access(p, N, true, false, pc); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void *p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

// atomics: one indivisible step each (the fibres share one operating-system thread)
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int) { if (running) point(1); return *a; } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { if (running) point(1); *a = v; if (running) point(1); } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = v; if (running) point(1); return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { if (running) point(1); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { if (running) point(1); T o = *a; int ok = o == *c; if (ok) *a = v; else *c = o; if (running) point(1); return ok; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { if (running) point(1); T o = *a; int ok = o == *c; if (ok) *a = v; else *c = o; if (running) point(1); return ok; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { if (running) point(1); T o = *a; if (o == c) *a = v; if (running) point(1); return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { if (running) point(1); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
