// Scheduler, virtual clock, fault source, allocator, happens-before race detector and the
// instrumentation entry points (the __tsan_* ABI emitted by gcc -fsanitize=thread).
#include "rt_internal.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <new>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>
#include <map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sim {

__thread Thread* t_self = nullptr;
Shared* shm = nullptr;
Ctx* ctx = nullptr;

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static const char* const fault_names[F_COUNT] = {
    "none", "disk.open_error", "disk.short_write", "disk.eintr", "disk.enospc", "disk.eio", "disk.stat_error",
    "disk.close_error", "net.dns_failure", "net.socket_error", "net.connect_refused", "net.connect_timeout",
    "net.connect_eintr", "net.short_send", "net.send_eintr", "net.reset", "net.send_error", "net.peer_stall",
    "clock.jump", "sched.spurious_wakeup", "sched.early_timer", "sched.stalled_thread", "sched.thread_create_failure",
    "mem.alloc_failure", "user.sink_throw", "user.sink_slow", "user.formatter_throw", "user.filter_throw",
    "user.supplier_throw", "user.attribute_throw", "ext.rename", "ext.unlink", "ext.recreate", "ext.disk_full",
    "ext.process_crash", "ext.peer_down", "ext.permission_denied", "stream.eof", "stream.badbit", "stream.throw",
    "user.factory_throw", "user.sink_reenters_logger", "console.write_fails"};
const char* fault_name(int f) { return fault_names[f]; }

void* real_sym(const char* name) {
    Rt rt;
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "no symbol %s\n", name); _exit(3); }
    return p;
}

// ------------------------------------------------------------------ fixed memory regions
constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 256ull << 20;
constexpr uintptr_t STACKS = 0x110000000000ull, STACK_SZ = 512ull << 10, STACKS_SZ = STACK_SZ * MAXT;
constexpr uintptr_t ASHADOW = 0x120000000000ull;    // 1 byte per 8 arena bytes
constexpr uintptr_t RSHADOW = 0x130000000000ull;    // race shadow: Cell[8] per 8 bytes
extern "C" char __data_start, _end;
static uintptr_t glob_lo, glob_hi;

struct Cell { uint32_t clk; uint32_t pc; uint8_t tid; uint8_t mask; uint8_t write; uint8_t pad; };
struct Granule { Cell c[8]; };
static uintptr_t arena_next;
static Granule *sh_arena, *sh_stack, *sh_glob;

static void map_at(uintptr_t a, size_t n) {
    void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(a)) { fprintf(stderr, "cannot map region\n"); _exit(3); }
    madvise(p, n, MADV_NOHUGEPAGE);
}

static void regions_init() {
    map_at(ARENA, ARENA_SZ);
    map_at(STACKS, STACKS_SZ);
    map_at(ASHADOW, ARENA_SZ / 8);
    glob_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull;
    glob_hi = reinterpret_cast<uintptr_t>(&_end);
    size_t na = ARENA_SZ / 8 * sizeof(Granule), ns = STACKS_SZ / 8 * sizeof(Granule), ng = ((glob_hi - glob_lo) / 8 + 2) * sizeof(Granule);
    na = (na + 4095) & ~4095ull; ns = (ns + 4095) & ~4095ull; ng = (ng + 4095) & ~4095ull;
    map_at(RSHADOW, na + ns + ng);
    sh_arena = reinterpret_cast<Granule*>(RSHADOW);
    sh_stack = reinterpret_cast<Granule*>(RSHADOW + na);
    sh_glob = reinterpret_cast<Granule*>(RSHADOW + na + ns);
    arena_next = ARENA + 64;
}

// ------------------------------------------------------------------ global run state
struct G {
    const RunSpec* spec = nullptr;
    Thread* threads[MAXT] = {};
    int nthreads = 0;
    uint64_t now = 1000000;
    int64_t rt_base = 1500000000ll * 1000000000ll; uint32_t pid = SIM_PID;
    uint64_t steps = 0, run_len = 0, seqno = 0;
    uint64_t max_steps = 3000000, fair_after = 1500000, max_ns = 600ull * 1000000000ull;
    uint64_t log_hash = 0x1234, inter_hash = 0x77;
    Rng sched{1}, flt{1};
    double fp[F_COUNT] = {};
    bool faults_off = false;
    bool terminate_ok = false;
    // policy
    int policy = 0;            // 0 random walk, 1 pct
    double mean = 100, p_other_kind = 0;
    int min_kind = K_MEM;
    int64_t budget = 0;
    double p_timer = 0.05, p_spurious = 0, p_late = 0.15;
    bool big_unchecked = false;           // blocks of a megabyte and more bypass the checked arena
    std::vector<uint64_t> change;
    size_t next_change = 0;
    uint64_t low_prio = 1000;
    uint64_t stall_at = ~0ull, stall_len = 0;
    std::unordered_map<uint64_t, uint16_t> dec;   // replay
    std::map<std::pair<uint64_t, uint64_t>, int64_t> flt_rec;
    std::unordered_map<uint32_t, bool> dropped;
    int rr_last = 0;
};
static G* g;

uint64_t seq() { return ++g->seqno; }
uint64_t steps() { return g->steps; }
int self() { return t_self ? t_self->id : -1; }

void hash_event(uint64_t v) { g->log_hash = mix(g->log_hash, v); }

// ------------------------------------------------------------------ reporting
static void finish(int status) {
    shm->steps = g->steps; shm->log_hash = g->log_hash; shm->inter_hash = g->inter_hash;
    shm->sim_ns = g->now; shm->nthreads = g->nthreads; shm->nops = ctx ? ctx->next_op : 0;
    shm->status = status;
    _exit(0);
}

void log(const char* fmt, ...) {
    Rt rt;
    char buf[600];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= static_cast<int>(sizeof buf)) n = sizeof buf - 1;
    uint64_t h = 0;
    for (int i = 0; i < n; ++i) h = h * 131 + static_cast<unsigned char>(buf[i]);
    hash_event(mix(h, t_self ? static_cast<uint64_t>(t_self->id) : 99));
    if (g->spec->verbose) {
        char pre[64];
        int m = snprintf(pre, sizeof pre, "[t%d op%u s%llu %.6fs] ", t_self ? t_self->id : -1, t_self ? t_self->op : 0,
                         static_cast<unsigned long long>(g->steps), static_cast<double>(g->now) / 1e9);
        if (shm->log_len + static_cast<uint32_t>(m + n + 2) < LOG_CAP) {
            memcpy(shm->log + shm->log_len, pre, static_cast<size_t>(m)); shm->log_len += static_cast<uint32_t>(m);
            memcpy(shm->log + shm->log_len, buf, static_cast<size_t>(n)); shm->log_len += static_cast<uint32_t>(n);
            shm->log[shm->log_len++] = '\n'; shm->log[shm->log_len] = 0;
        }
    }
}

void violation(const char* cls, const char* fmt, ...) {
    if (t_self) t_self->lib = 0;
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    log("VIOLATION %s: %s", cls, shm->msg);
    finish(ST_VIOLATION);
    __builtin_unreachable();
}
void internal_error(const char* fmt, ...) {
    if (t_self) t_self->lib = 0;
    snprintf(shm->cls, sizeof shm->cls, "internal");
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    finish(ST_INTERNAL);
    __builtin_unreachable();
}
void count_check(uint64_t n) { shm->checks += n; }
void count_event(uint64_t n) { shm->events += n; }
void probe(int i) { if (i >= 0 && i < PROBES) shm->probes[i]++; }
void sample(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->sample, sizeof shm->sample, fmt, ap);
    va_end(ap);
}

static std::string backtrace_text() {
    Rt rt;
    void* pcs[24];
    int n = backtrace(pcs, 24);
    std::string s;
    char b[32];
    for (int i = 2; i < n && i < 16; ++i) {
        uintptr_t p = reinterpret_cast<uintptr_t>(pcs[i]);
        if (p < 0x100000000ull) { snprintf(b, sizeof b, " %lx", p); s += b; }
    }
    return s;
}

// ------------------------------------------------------------------ baton
static void fwait(uint32_t* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f6) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f6;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void baton_wait(Thread* t) {
    while (__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 0)
        raw_syscall6(SYS_futex, reinterpret_cast<long>(&t->futex), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->futex, 0u, __ATOMIC_RELAXED);
}
static void baton_give(Thread* t) {
    __atomic_store_n(&t->futex, 1u, __ATOMIC_RELEASE);
    raw_syscall6(SYS_futex, reinterpret_cast<long>(&t->futex), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ clocks
uint64_t now() { return g->now; }
int64_t realtime() { return g->rt_base + static_cast<int64_t>(g->now); }
void set_realtime_base(int64_t ns) { g->rt_base = ns - static_cast<int64_t>(g->now); }
void jump_clock(int64_t d) { g->rt_base += d; }
std::vector<int64_t>& wall_readings() { return t_self->readings; }
uint32_t lwp_of_self() { return t_self->vtid; }
uint32_t pid() { return g->pid; }
void become_child() { g->pid = g->pid > 4000000 ? 301 : g->pid + 1000; t_self->vtid = g->pid; }
uint64_t native_self() { return static_cast<uint64_t>(pthread_self()); }
uint64_t clock_tick() { g->now += 137; return g->now; }
void advance(uint64_t ns) { g->now += ns; }

void tick() { t_self->vc.c[t_self->id]++; }
void acquire_clock(const VC& c) { t_self->vc.joinv(c); }
void release_clock(VC& c) { c = t_self->vc; tick(); }
void release_clock_join(VC& c) { c.joinv(t_self->vc); tick(); }

// ------------------------------------------------------------------ scheduling
static uint64_t dkey(int tid, uint32_t op, uint32_t step) { return mix(mix(static_cast<uint64_t>(tid) + 1, op), step); }

static bool runnable(Thread* t) { return !t->finished && (!t->blocked || (t->ready && t->ready())); }

static void dump_state(std::string& s) {
    char b[200];
    for (int i = 0; i < g->nthreads; ++i) {
        Thread* t = g->threads[i];
        if (t->finished) continue;
        snprintf(b, sizeof b, " t%d(%s,op%u):%s", t->id, t->name.c_str(), t->op, t->blocked ? t->what : "running");
        s += b;
    }
}

static int64_t geom(double mean) {
    double u = (static_cast<double>(g->sched.next() >> 11) + 1) * (1.0 / 9007199254740992.0);
    double v = -__builtin_log(u) * mean;
    if (v > 1e9) v = 1e9;
    return 1 + static_cast<int64_t>(v);
}

static void record_dec(Thread* cur, Thread* nxt) {
    if (shm->ndec < MAX_DEC) shm->dec[shm->ndec++] = Decision{static_cast<uint16_t>(cur->id), static_cast<uint16_t>(nxt->id), cur->op, cur->step};
    else shm->dec_overflow = 1;
}

// Picks who runs next. `cur` is finished, blocked, or preempted at the current point.
static Thread* pick(Thread* cur, bool forced) {
    Thread* cand[MAXT]; int nc = 0;         // runnable
    Thread* timed[MAXT]; int nt = 0;        // waiting with a deadline
    Thread* spur[MAXT]; int ns = 0;         // waiting on a condition, spurious wake-up possible
    for (int i = 0; i < g->nthreads; ++i) {
        Thread* t = g->threads[i];
        if (t->finished) continue;
        if (runnable(t)) cand[nc++] = t;
        else {
            if (t->deadline != ~0ull) timed[nt++] = t;
            if (t->spurious_ok) spur[ns++] = t;
        }
    }
    if (!nc && !nt) {
        std::string s; dump_state(s);
        violation("deadlock", "no thread can make progress:%s", s.c_str());
    }
    // default choice: stay; else next runnable round robin; else the earliest timer
    Thread* dflt = nullptr;
    bool cur_ok = !cur->finished && !cur->blocked && !forced;
    if (cur_ok) dflt = cur;
    else if (nc) {
        for (int k = 1; k <= g->nthreads && !dflt; ++k) {
            Thread* t = g->threads[(cur->id + k) % g->nthreads];
            if (t == cur && nc > 1) continue;
            for (int i = 0; i < nc; ++i) if (cand[i] == t) { dflt = t; break; }
        }
    } else {
        dflt = timed[0];
        for (int i = 1; i < nt; ++i) if (timed[i]->deadline < dflt->deadline) dflt = timed[i];
    }
    Thread* nxt = dflt;
    if (g->spec->replay) {
        auto it = g->dec.find(dkey(cur->id, cur->op, cur->step));
        if (it != g->dec.end()) {
            Thread* w = it->second < g->nthreads ? g->threads[it->second] : nullptr;
            for (int i = 0; i < nc; ++i) if (cand[i] == w) nxt = w;
            for (int i = 0; i < nt; ++i) if (timed[i] == w) nxt = w;
            for (int i = 0; i < ns; ++i) if (spur[i] == w) nxt = w;
        }
    } else if (!forced) {
        bool fair = g->steps > g->fair_after;
        double pt = fair ? 0.01 : g->p_timer;
        if (ns && g->p_spurious > 0 && !fair && !g->faults_off && g->sched.chance(g->p_spurious)) {
            nxt = spur[g->sched.below(static_cast<uint64_t>(ns))];
        } else if (nt && (!nc || g->sched.chance(pt))) {
            if (nc || g->sched.chance(g->p_late)) nxt = timed[g->sched.below(static_cast<uint64_t>(nt))];
            else nxt = dflt;   // the earliest timer
        } else if (nc) {
            Thread* el[MAXT]; int ne = 0;
            for (int i = 0; i < nc; ++i) if (cand[i]->stalled_until <= g->steps) el[ne++] = cand[i];
            if (!ne) { for (int i = 0; i < nc; ++i) el[ne++] = cand[i]; }
            if (g->policy == 1 && !fair) {
                nxt = el[0];
                for (int i = 1; i < ne; ++i) if (el[i]->prio > nxt->prio) nxt = el[i];
            } else {
                if (ne > 1 && cur_ok) {     // a preemption was drawn: really switch
                    int k = 0; Thread* o[MAXT];
                    for (int i = 0; i < ne; ++i) if (el[i] != cur) o[k++] = el[i];
                    nxt = o[g->sched.below(static_cast<uint64_t>(k))];
                } else nxt = el[g->sched.below(static_cast<uint64_t>(ne))];
            }
        }
    }
    if (nxt != dflt) record_dec(cur, nxt);
    if (nxt->blocked && !runnable(nxt)) {
        bool istimed = nxt->deadline != ~0ull;
        bool isspur = false;
        if (nxt->spurious_ok && !(istimed && nc == 0)) {
            // a timed condition wait may be woken spuriously or by its timer; time it out when
            // it was chosen as a timer
            if (!istimed) isspur = true;
        }
        if (isspur) { nxt->spurious = true; shm->fired[F_SPURIOUS_WAKE]++; }
        else {
            if (nxt->deadline > g->now) {
                if (nc) shm->fired[F_EARLY_TIMER]++;
                g->now = nxt->deadline;
                if (g->now > g->max_ns && g->steps <= g->fair_after) {     // only a fair schedule owes progress
                    g->fair_after = g->steps ? g->steps - 1 : 0; g->max_ns = g->now + g->max_ns;
                }
                if (g->now > g->max_ns) {
                    std::string s; dump_state(s);
                    violation("no-progress", "simulated time limit reached without completing:%s", s.c_str());
                }
            }
            nxt->timed_out = true;
        }
    }
    return nxt;
}

static void switch_to(Thread* cur, Thread* nxt) {
    if (cur == nxt) return;
    shm->switches++;
    g->run_len = 0;
    hash_event(mix(mix(static_cast<uint64_t>(cur->id), cur->step), static_cast<uint64_t>(nxt->id) | (static_cast<uint64_t>(cur->op) << 32)));
    baton_give(nxt);
    if (!cur->finished) baton_wait(cur);
}

static bool want_switch(Thread* t, Kind k) {
    G& s = *g;
    if (s.steps > s.fair_after) return (s.steps % 61) == 0;
    if (s.steps >= s.stall_at) {
        s.stall_at = ~0ull;
        t->stalled_until = s.steps + s.stall_len;
        shm->fired[F_STALL_THREAD]++;
        return true;
    }
    if (s.policy == 1) {
        if (s.next_change < s.change.size() && s.steps >= s.change[s.next_change]) {
            s.next_change++;
            t->prio = --s.low_prio;
            return true;
        }
        return k >= K_SYNC;
    }
    if (k < s.min_kind) {
        if (s.p_other_kind <= 0 || !s.sched.chance(s.p_other_kind)) return false;
        return true;
    }
    if (--s.budget <= 0) { s.budget = geom(s.mean); return true; }
    return false;
}

void point(Kind k) {
    Thread* t = t_self;
    G& s = *g;
    ++t->step; ++s.steps; ++s.run_len;
    if (k >= K_SYNC) {
        s.inter_hash = mix(s.inter_hash, (static_cast<uint64_t>(t->id) << 8) | static_cast<uint64_t>(k));
        shm->sync_events++;
    }
    if (s.steps > s.max_steps) {
        t->lib = 0;
        std::string d; dump_state(d);
        violation("no-progress", "step limit reached without completing:%s", d.c_str());
    }
    bool forced = s.run_len > 20000;
    if (forced) s.run_len = 0;
    if (!forced) {
        if (s.spec->replay) {
            if (s.dec.empty() || !s.dec.count(dkey(t->id, t->op, t->step))) return;
        } else if (!want_switch(t, k)) return;
    }
    int saved = t->lib; t->lib = 0;
    Thread* n = pick(t, forced);
    switch_to(t, n);
    t->lib = saved;
}

bool wait_for(std::function<bool()> pred, uint64_t deadline, const char* what, bool spurious_ok) {
    Thread* t = t_self;
    int saved = t->lib; t->lib = 0;
    ++t->step; ++g->steps;
    bool immediate = pred && pred();
    bool res = true;
    if (!immediate) {
        if (g->steps > g->max_steps) { std::string d; dump_state(d); violation("no-progress", "step limit reached without completing:%s", d.c_str()); }
        if (!strcmp(what, "sleep") || !strcmp(what, "condition")) { t->delays++; sim::log("DELAY %s dl %lld", what, (long long)deadline); }
        t->ready = std::move(pred); t->blocked = true; t->deadline = deadline; t->what = what;
        t->timed_out = false; t->spurious_ok = spurious_ok; t->spurious = false;
        Thread* n = pick(t, false);
        switch_to(t, n);
        res = !t->timed_out && !t->spurious;
        if (!res && t->ready && t->ready()) res = true;
        t->blocked = false; t->ready = nullptr; t->deadline = ~0ull; t->spurious_ok = false;
        t->what = "";
    }
    t->lib = saved;
    return res;
}

// ------------------------------------------------------------------ threads
static pthread_key_t fin_key;
static void finish_thread_now(Thread* t) {
    t->lib = 0;
    hash_event(0xdead + static_cast<uint64_t>(t->id));
    t->finished = true;
    tick();
    // vector clock of the finished thread is joined by its joiner
    Thread* n = pick(t, false);
    t_self = nullptr;
    if (n != t) { shm->switches++; g->run_len = 0; baton_give(n); }
}
static void fin_dtor(void* p) {
    // runs in every round of key destructors; the thread is over in the last one
    uintptr_t round = reinterpret_cast<uintptr_t>(p);
    if (round < PTHREAD_DESTRUCTOR_ITERATIONS) {
        pthread_setspecific(fin_key, reinterpret_cast<void*>(round + 1));
        return;
    }
    if (t_self) finish_thread_now(t_self);
}

static void* trampoline(void* p) {
    Thread* t = static_cast<Thread*>(p);
    baton_wait(t);
    t_self = t;
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = t->stack; ss.ss_size = 64 << 10;
    sigaltstack(&ss, nullptr);
    pthread_setspecific(fin_key, reinterpret_cast<void*>(1));
    if (t->harness) { t->lib = 0; t->hfn(); return nullptr; }
    t->lib = 1;
    void* r = t->fn(t->arg);
    t->ret = r;
    return r;
}

int create_thread(void* (*fn)(void*), void* arg, bool harness, const char* name) {
    if (g->nthreads >= MAXT - 1) internal_error("too many threads");
    Thread* t = new Thread;
    t->id = g->nthreads;
    t->fn = fn; t->arg = arg; t->harness = harness; t->name = name;
    t->vtid = g->pid + static_cast<uint32_t>(t->id);
    if (t->vtid >= 1u << 22) t->vtid = 300u + static_cast<uint32_t>(t->id);          // the counter wraps
    t->vc.clear(); t->rel_fence.clear(); t->acq_pending.clear();
    if (t_self) { t->vc.joinv(t_self->vc); tick(); }
    t->vc.c[t->id] = 1;
    t->prio = 100000 + g->sched.below(100000);
    t->stack = reinterpret_cast<char*>(STACKS + STACK_SZ * static_cast<uintptr_t>(t->id));
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stack + (64 << 10), STACK_SZ - (64 << 10));
    g->threads[g->nthreads++] = t;
    using PC = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static PC pc = reinterpret_cast<PC>(real_sym("pthread_create"));
    if (pc(&t->real, &a, trampoline, t) != 0) internal_error("pthread_create failed");
    pthread_attr_destroy(&a);
    return t->id;
}
Thread* thread_by_real(pthread_t p) {
    for (int i = 0; i < g->nthreads; ++i) if (pthread_equal(g->threads[i]->real, p)) return g->threads[i];
    return nullptr;
}
Thread* thread_by_id(int id) { return g->threads[id]; }
int lib_threads_alive() {
    int n = 0;
    for (int i = 0; i < g->nthreads; ++i) if (!g->threads[i]->harness && !g->threads[i]->finished) ++n;
    return n;
}

int spawn(std::function<void()> fn, const char* name) {
    Rt rt;
    int id = create_thread(nullptr, nullptr, true, name);
    g->threads[id]->hfn = std::move(fn);
    hash_event(0x5a + static_cast<uint64_t>(id));
    return id;
}
void join(int tid) {
    Rt rt;
    Thread* t = g->threads[tid];
    wait_for([t] { return t->finished; }, ~0ull, "join");
    t_self->vc.joinv(t->vc);
}
void yield() { Rt rt; point(K_SYS); }
void sleep_ns(uint64_t ns) { Rt rt; wait_for([] { return false; }, g->now + ns, "sleep"); }
void block_until(std::function<bool()> pred, const char* what) { Rt rt; wait_for(std::move(pred), ~0ull, what); }

void set_limits(uint64_t ms, uint64_t fa, uint64_t ns) { g->max_steps = ms; g->fair_after = fa; g->max_ns = ns; }
void big_blocks_unchecked() {
    g->big_unchecked = true;
    // copies of enormous messages come from memory that stays mapped
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 32 << 20); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20);
}
void exact_timers() { g->p_timer = 0; g->p_late = 0; }
void expect_terminate(bool on) { g->terminate_ok = on; }

LibScope::LibScope() { saved = t_self ? t_self->lib : 0; if (t_self) t_self->lib = 1; }
LibScope::~LibScope() { if (t_self) t_self->lib = saved; }
HarnessScope::HarnessScope() { saved = t_self ? t_self->lib : 0; if (t_self) t_self->lib = 0; }
HarnessScope::~HarnessScope() { if (t_self) t_self->lib = saved; }

bool Ctx::begin_op(uint32_t op) {
    Rt rt;
    if (g->dropped.count(op)) return false;
    t_self->op = op + 1; t_self->step = 0; t_self->fault_n = 0;
    point(K_OP);
    return true;
}
void Ctx::end_op() { }

// ------------------------------------------------------------------ faults
void enable_fault(int k, double p) { g->fp[k] = p; if (k == F_SPURIOUS_WAKE) g->p_spurious = p; if (k == F_EARLY_TIMER) g->p_timer = p; }
double fault_p(int k) { return g->fp[k]; }
void disable_faults() { g->faults_off = true; }
void restore_faults() { g->faults_off = false; }
void note_fault(int k) { shm->opp[k]++; shm->fired[k]++; }
int64_t fault(int kind, int64_t maxparam) {
    if (!g) return 0;
    double p = g->fp[kind];
    if (g->faults_off) return 0;
    if (p <= 0) return 0;
    Thread* t = t_self;
    uint32_t n = ++t->fault_n;
    shm->opp[kind]++;
    int64_t r = 0;
    if (g->spec->replay) {
        auto it = g->flt_rec.find({(static_cast<uint64_t>(t->id) << 32) | t->op, (static_cast<uint64_t>(kind) << 32) | n});
        if (it != g->flt_rec.end()) r = it->second;
    } else if (g->flt.chance(p)) {
        r = 1 + static_cast<int64_t>(g->flt.below(static_cast<uint64_t>(maxparam)));
        if (shm->nflt < MAX_FLT) shm->flt[shm->nflt++] = FaultRec{static_cast<uint16_t>(t->id), static_cast<uint16_t>(kind), t->op, n, r};
        else shm->dec_overflow = 1;
    }
    if (r) {
        shm->fired[kind]++; t->nfired[kind]++;
        log("fault %s param=%lld", fault_names[kind], static_cast<long long>(r));
    }
    return r;
}
AllocFaults::AllocFaults(bool on) : saved(t_self->alloc_faults) { t_self->alloc_faults = on; }
AllocFaults::~AllocFaults() { t_self->alloc_faults = saved; }
uint64_t delays() { return t_self->delays; }
uint64_t fired_here(int kind) { return t_self->nfired[kind]; }
uint64_t throws_here() { uint64_t r = t_self->nfired[F_ALLOC]; for (int k : {F_SINK_THROW, F_FORMATTER_THROW, F_FILTER_THROW, F_SUPPLIER_THROW, F_ATTR_THROW}) r += t_self->nfired[k]; return r; }

// ------------------------------------------------------------------ checked arena
static inline uint8_t* ash(uintptr_t a) { return reinterpret_cast<uint8_t*>(ASHADOW + ((a - ARENA) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
struct Hdr { uint64_t magic; uint64_t size; };
constexpr uint64_t MAGIC = 0xb10cb10cb10cb10cull, FREED = 0xf4eef4eef4eef4eeull;

static void* arena_alloc(size_t n, size_t align = 16) {
    if (g && g->big_unchecked && n >= (1u << 20)) return __libc_memalign(align < 16 ? 16 : align, n);
    uintptr_t p = arena_next + 32;
    p = (p + align - 1) & ~(align - 1);
    uintptr_t e = p + n;
    if (e + 64 > ARENA + ARENA_SZ) violation("runaway", "more than %llu MB were allocated within one run%s", static_cast<unsigned long long>(ARENA_SZ >> 20), backtrace_text().c_str());
    arena_next = (e + 31) & ~15ull;
    Hdr* h = reinterpret_cast<Hdr*>(p - 16);
    h->magic = MAGIC; h->size = n;
    uint8_t* s = ash(p);
    size_t full = n >> 3;
    __builtin_memset(s, 8, full);
    if (n & 7) s[full] = static_cast<uint8_t>(n & 7);
    // poison so that reads of never-written memory are visible as wrong content
    size_t pat = n < 4096 ? n : 4096;
    __builtin_memset(reinterpret_cast<void*>(p), 0xcd, pat);
    return reinterpret_cast<void*>(p);
}
static void arena_free(void* q, uintptr_t pc) {
    uintptr_t p = reinterpret_cast<uintptr_t>(q);
    Hdr* h = reinterpret_cast<Hdr*>(p - 16);
    if (h->magic == FREED) violation("double-free", "block of %llu bytes freed twice, pcs %lx%s", static_cast<unsigned long long>(h->size), pc, backtrace_text().c_str());
    if (h->magic != MAGIC) violation("bad-free", "free of a pointer that is not a block, pc %lx", pc);
    h->magic = FREED;
    size_t n = h->size;
    if (t_self) mem_access(p, n < 2048 ? n : 2048, true, pc);
    __builtin_memset(ash(p), 0xfd, (n + 7) >> 3);
    size_t pat = n < 4096 ? n : 4096;
    __builtin_memset(q, 0xdd, pat);
}
bool is_freed(const void* q) {
    uintptr_t p = reinterpret_cast<uintptr_t>(q);
    return in_arena(p) && *ash(p) == 0xfd;
}
void* lib_alloc(size_t n) { return arena_alloc(n); }
void lib_free(void* p) { if (in_arena(reinterpret_cast<uintptr_t>(p))) arena_free(p, 0); else __libc_free(p); }

// ------------------------------------------------------------------ memory accesses
static inline Granule* granule(uintptr_t a) {
    if (a - ARENA < ARENA_SZ) return sh_arena + ((a - ARENA) >> 3);
    if (a - STACKS < STACKS_SZ) return sh_stack + ((a - STACKS) >> 3);
    if (a - glob_lo < glob_hi - glob_lo) return sh_glob + ((a - glob_lo) >> 3);
    return nullptr;
}

static void race(uintptr_t a, const Cell& old, bool write, uintptr_t pc) {
    violation("data-race", "%s by t%d (pc %lx) races with earlier %s by t%d (pc %x) at %s%lx; stack%s",
        write ? "write" : "read", t_self->id, pc, old.write ? "write" : "read", old.tid, old.pc,
        in_arena(a) ? "heap " : (a - STACKS < STACKS_SZ ? "stack " : "global "), a, backtrace_text().c_str());
}

static inline void race_check(Granule* gr, uintptr_t a, uint8_t mask, bool write, uintptr_t pc) {
    Thread* t = t_self;
    VC& vc = t->vc;
    uint32_t me = static_cast<uint32_t>(t->id), myclk = vc.c[me];
    int slot = -1, victim = 0;
    uint32_t vclk = ~0u;
    for (int i = 0; i < 8; ++i) {
        Cell& c = gr->c[i];
        if (!c.mask) { if (slot < 0) slot = i; break; }
        if (c.tid == me) {
            if (c.pad) {
            } else if (c.mask == mask && (c.write == write || c.clk != myclk)) {
                // same thread, same bytes: a write supersedes; a read after own write keeps the write
                if (write || !c.write) { c.clk = myclk; c.write = write; c.pc = static_cast<uint32_t>(pc); slot = 100 + i; continue; }
            } else if (c.mask == mask && c.write && !write && c.clk == myclk) { slot = 100 + i; continue; }
        } else if ((c.mask & mask) && (write || c.write) && c.clk > vc.c[c.tid]) {
            race(a, c, write, pc);
        }
        if (c.clk < vclk) { vclk = c.clk; victim = i; }
    }
    if (slot >= 100) return;
    if (slot < 0) slot = victim;
    Cell& c = gr->c[slot];
    c.clk = myclk; c.tid = static_cast<uint8_t>(me); c.mask = mask; c.write = write; c.pad = 0; c.pc = static_cast<uint32_t>(pc);
}

static const char* check_arena(uintptr_t a, size_t n) {
    for (uintptr_t q = a & ~7ull; q < a + n; q += 8) {
        uint8_t s = *ash(q);
        if (s == 8) continue;
        if (s == 0xfd) return "use-after-free";
        uintptr_t end = a + n < q + 8 ? a + n : q + 8;
        if (s == 0 || end - q > s) return "heap-overflow";
    }
    return nullptr;
}

void mem_access(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (!n) return;
    if (in_arena(a)) {
        if (const char* e = check_arena(a, n)) {
            if (t_self) t_self->lib = 0;
            violation(e, "%s of %zu bytes by t%d at heap %lx, pc %lx stack%s", write ? "write" : "read", n, t_self->id, a, pc, backtrace_text().c_str());
        }
    }
    if (!granule(a)) return;
    shm->races_checked++;
    while (n) {
        size_t off = a & 7, m = 8 - off < n ? 8 - off : n;
        Granule* gr = granule(a);
        if (!gr) return;
        race_check(gr, a, static_cast<uint8_t>(((1u << m) - 1) << off), write, pc);
        a += m; n -= m;
    }
}

static inline void hook(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    Thread* t = t_self;
    if (!t || !t->lib) return;
    point(K_MEM);
    mem_access(a, n, write, pc);
}
void touch_read(const void* p, size_t n) { Rt rt; point(K_MEM); mem_access(reinterpret_cast<uintptr_t>(p), n, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }
void touch_write(const void* p, size_t n) { Rt rt; point(K_MEM); mem_access(reinterpret_cast<uintptr_t>(p), n, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }

// ------------------------------------------------------------------ atomics
struct AClk { VC vc; int last_tid = -1; bool has = false; };
static std::unordered_map<uintptr_t, AClk>* atoms;
static AClk& atom(uintptr_t a) { return (*atoms)[a & ~7ull]; }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Atomic accesses race with plain ones but not with each other: they are recorded with write=2/3.
static void atomic_mem(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (in_arena(a)) {
        if (const char* e = check_arena(a, n)) violation(e, "atomic access of %zu bytes by t%d, pc %lx stack%s", n, t_self->id, pc, backtrace_text().c_str());
    }
    Granule* gr = granule(a);
    if (!gr) return;
    uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << (a & 7));
    Thread* t = t_self;
    for (int i = 0; i < 8; ++i) {
        Cell& c = gr->c[i];
        if (!c.mask) break;
        if (c.tid != t->id && (c.mask & mask) && !c.pad && (write || c.write) && c.clk > t->vc.c[c.tid]) race(a, c, write, pc);
    }
    // remember the atomic access itself so that a later plain access is checked against it
    int slot = -1, victim = 0; uint32_t vclk = ~0u;
    for (int i = 0; i < 8; ++i) {
        Cell& c = gr->c[i];
        if (!c.mask) { slot = i; break; }
        if (c.tid == t->id && c.mask == mask && c.pad && (c.write || !write || c.clk < t->vc.c[t->id])) { slot = i; if (c.write && !write && c.clk == t->vc.c[t->id]) return; break; }
        if (c.clk < vclk) { vclk = c.clk; victim = i; }
    }
    if (slot < 0) slot = victim;
    Cell& c = gr->c[slot];
    c.clk = t->vc.c[t->id]; c.tid = static_cast<uint8_t>(t->id); c.mask = mask; c.write = write; c.pad = 1; c.pc = static_cast<uint32_t>(pc);
}

struct AtomScope {
    Thread* t; int saved; bool on;
    uintptr_t a; int mo;
    AtomScope(const volatile void* p, size_t n, bool write, int mo_, uintptr_t pc) : t(t_self), saved(0), on(false), a(reinterpret_cast<uintptr_t>(p)), mo(mo_) {
        if (!t || !t->lib) return;
        on = true; saved = t->lib; t->lib = 0;
        point(K_SYNC);
        atomic_mem(a, n, write, pc);
    }
    ~AtomScope() { if (on) t->lib = saved; }
    void did_load() {
        if (!on) return;
        auto it = atoms->find(a & ~7ull);
        if (it == atoms->end() || !it->second.has) return;
        if (is_acq(mo)) t->vc.joinv(it->second.vc); else t->acq_pending.joinv(it->second.vc);
    }
    void did_store() {
        if (!on) return;
        AClk& c = atom(a);
        if (is_rel(mo)) { c.vc = t->vc; c.has = true; tick(); }
        else { c.vc = t->rel_fence; c.has = true; }
        c.last_tid = t->id;
    }
    void did_rmw() {
        if (!on) return;
        did_load();
        AClk& c = atom(a);
        if (!c.has) { c.vc.clear(); c.has = true; }
        if (is_rel(mo)) { c.vc.joinv(t->vc); tick(); }
        else c.vc.joinv(t->rel_fence);
        c.last_tid = t->id;
    }
};

static void install_handlers();
static void on_terminate() {
    if (t_self) t_self->lib = 0;
    std::string what = "no active exception";
    if (std::type_info* ti = abi::__cxa_current_exception_type()) {
        int st = 0;
        char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        what = d ? d : ti->name();
        try { throw; } catch (const std::exception& e) { what += ": "; what += e.what(); } catch (...) {}
    }
    violation("terminate", "std::terminate called in t%d (%s): %s", t_self ? t_self->id : -1, t_self ? t_self->name.c_str() : "?", what.c_str());
}
static void on_signal(int sig, siginfo_t* si, void*) {
    if (t_self) t_self->lib = 0;
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGBUS, SIG_DFL);
    if (sig == SIGALRM || sig == SIGPROF) violation("hang", "the process made no progress in real time (loop without a scheduling point)");
    std::string bt = backtrace_text();
    violation(sig == SIGABRT ? "abort" : "crash", "signal %d in t%d (%s) address %p stack%s", sig, t_self ? t_self->id : -1,
        t_self ? t_self->name.c_str() : "?", sig == SIGABRT ? nullptr : si->si_addr, bt.c_str());
}
static void install_handlers() {
    std::set_terminate(on_terminate);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
}

void forget_atomic_range(uintptr_t, size_t) {}

// ------------------------------------------------------------------ run
static void choose_policy(uint64_t seed) {
    G& s = *g;
    s.sched = Rng(mix(seed, 0x5c4ed));
    s.flt = Rng(mix(seed, 0xfa017));
    Rng& r = s.sched;
    int p = static_cast<int>(r.below(10));
    if (p < 5) {                       // random walk, all points
        s.policy = 0; s.min_kind = r.chance(0.5) ? K_MEM : (r.chance(0.5) ? K_ALLOC : K_SYNC);
        int e = static_cast<int>(r.below(s.min_kind == K_MEM ? 12 : 6));
        s.mean = static_cast<double>(1 << e);
        s.p_other_kind = s.min_kind == K_MEM ? 0 : (r.chance(0.5) ? 0.002 : 0);
    } else if (p < 8) {                // priority based with few change points
        s.policy = 1;
        int d = static_cast<int>(r.below(6));
        uint64_t horizon = 1ull << (7 + r.below(10));
        for (int i = 0; i < d; ++i) s.change.push_back(1 + r.below(horizon));
        std::sort(s.change.begin(), s.change.end());
    } else {                           // synchronisation points only, aggressive
        s.policy = 0; s.min_kind = K_SYNC; s.mean = 1 + static_cast<double>(r.below(3)); s.p_other_kind = 0;
    }
    s.budget = geom(s.mean);
    const double pts[] = {0.0, 0.02, 0.1, 0.3};
    s.p_timer = pts[r.below(4)];
    if (r.chance(0.3)) { s.stall_at = 1 + r.below(1ull << (6 + r.below(10))); s.stall_len = 1ull << (8 + r.below(9)); }
    if (r.chance(0.3)) s.p_spurious = 0.05;
}

static void (*g_fn)(Ctx&);

void run_child(const RunSpec& spec, void (*fn)(Ctx&)) {
    regions_init();
    atoms = new std::unordered_map<uintptr_t, AClk>();
    g = new G;
    g->spec = &spec;
    for (auto& d : spec.decisions) g->dec[dkey(d.tid, d.op, d.step)] = d.target;
    for (auto& f : spec.faults) g->flt_rec[{(static_cast<uint64_t>(f.tid) << 32) | f.op, (static_cast<uint64_t>(f.kind) << 32) | f.n}] = f.param;
    for (auto d : spec.dropped) g->dropped[d] = true;
    choose_policy(spec.seed);
    {   // process and thread identifiers reach from 1 (the first process of a container) to 2^22 - 1
        Rng ids(mix(spec.seed, 0x91d));
        if (ids.chance(0.5)) {
            const uint32_t bases[] = {1, 250, 32760, 65530, 131000, 999990, 4194290, 100000 + static_cast<uint32_t>(ids.below(4000000))};
            g->pid = bases[ids.below(8)] + static_cast<uint32_t>(ids.below(6));
        }
    }
    ctx = new Ctx;
    ctx->rng = Rng(mix(spec.seed, 0x307c));
    os_reset();
    install_handlers();
    // a run may be delayed by everything else the machine does: what it uses itself is what counts
    { struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 40; setitimer(ITIMER_PROF, &tv, nullptr); }
    alarm(300);
    pthread_key_create(&fin_key, fin_dtor);
    g_fn = fn;
    int id = create_thread(nullptr, nullptr, true, "main");
    g->threads[id]->hfn = [] {
        g_fn(*ctx);
        // the scenario has returned: everything must have been joined
        t_self->lib = 0;
        finish(ST_OK);
    };
    baton_give(g->threads[id]);
    for (;;) pause();
}

}  // namespace sim

// ================================================================== __tsan_* ABI
using namespace sim;
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, false, PC); } \
    void __tsan_write##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { hook(reinterpret_cast<uintptr_t>(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { hook(reinterpret_cast<uintptr_t>(a), n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { hook(reinterpret_cast<uintptr_t>(a), n, true, PC); }
void __tsan_vptr_update(void** vptr, void* val) {
    Thread* t = t_self;
    if (!t || !t->lib) return;
    point(K_MEM);         // always a step: what an unused stack slot happens to hold must not move the schedule
    if (*vptr != val) mem_access(reinterpret_cast<uintptr_t>(vptr), 8, true, PC);
}
void __tsan_vptr_read(void** vptr) { hook(reinterpret_cast<uintptr_t>(vptr), 8, false, PC); }

#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
        AtomScope s(a, sizeof(T), false, mo, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); s.did_load(); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); s.did_store(); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); s.did_rmw(); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) s.did_rmw(); else { s.mo = fmo; s.did_load(); } return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) s.did_rmw(); else { s.mo = fmo; s.did_load(); } return ok; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
        AtomScope s(a, sizeof(T), true, mo, PC); \
        bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) s.did_rmw(); else { s.mo = fmo; s.did_load(); } return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
    if (!active()) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    Rt rt;
    point(K_SYNC);
    Thread* t = t_self;
    if (is_acq(mo)) t->vc.joinv(t->acq_pending);
    if (is_rel(mo)) { t->rel_fence = t->vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ memory functions
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
    if (active() && n) {
        hook(reinterpret_cast<uintptr_t>(s), n, false, PC);
        hook(reinterpret_cast<uintptr_t>(d), n, true, PC);
    }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (active() && n) {
        hook(reinterpret_cast<uintptr_t>(s), n, false, PC);
        hook(reinterpret_cast<uintptr_t>(d), n, true, PC);
    }
    void* r = d;
    if (d <= s || static_cast<const char*>(s) + n <= d) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        char* dd = static_cast<char*>(d) + n - 1; const char* ss = static_cast<const char*>(s) + n - 1;
        __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return r;
}
void* memset(void* d, int c, size_t n) {
    if (active() && n) hook(reinterpret_cast<uintptr_t>(d), n, true, PC);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
size_t strlen(const char* s) {
    const char* p = s;
    while (*p) { ++p; __asm__ volatile("" ::: "memory"); }
    size_t n = static_cast<size_t>(p - s);
    if (active()) hook(reinterpret_cast<uintptr_t>(s), n + 1, false, PC);
    return n;
}
int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char* x = static_cast<const unsigned char*>(a); const unsigned char* y = static_cast<const unsigned char*>(b);
    if (active() && n) {
        hook(reinterpret_cast<uintptr_t>(a), n, false, PC);
        hook(reinterpret_cast<uintptr_t>(b), n, false, PC);
    }
    for (size_t i = 0; i < n; ++i) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; __asm__ volatile("" ::: "memory"); }
    return 0;
}

// ------------------------------------------------------------------ heap
static bool inject_alloc() {
    if (!t_self->alloc_faults) return false;
    if (!fault(F_ALLOC)) return false;
    if (g->spec->verbose) { uint64_t h = g->log_hash; log("allocation stack%s", backtrace_text().c_str()); g->log_hash = h; }
    return true;
}
static void* lib_new(size_t n, size_t align, bool nothrow, uintptr_t) {
    Rt rt;
    point(K_ALLOC);
    if (inject_alloc()) { if (nothrow) return nullptr; rt.t->lib = rt.saved; throw std::bad_alloc(); }
    return arena_alloc(n, align);
}
void* malloc(size_t n) { if (active()) { Rt rt; return arena_alloc(n); } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) {
    if (active()) { Rt rt; void* p = arena_alloc(a * b); __builtin_memset(p, 0, a * b); return p; }
    return __libc_calloc(a, b);
}
void free(void* p) {
    if (!p) return;
    if (in_arena(reinterpret_cast<uintptr_t>(p))) { Rt rt; arena_free(p, PC); return; }
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (p && in_arena(a)) {
        Rt rt;
        size_t old = reinterpret_cast<Hdr*>(a - 16)->size;
        void* q = arena_alloc(n);
        __builtin_memcpy(q, p, old < n ? old : n);
        arena_free(p, PC);
        return q;
    }
    if (!p && active()) { Rt rt; return arena_alloc(n); }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { if (active()) { Rt rt; return arena_alloc(n, al < 16 ? 16 : al); } return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }
}

static void* do_new(size_t n, size_t al, bool nothrow, uintptr_t pc) {
    if (active()) return lib_new(n ? n : 1, al, nothrow, pc);
    void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p, uintptr_t pc) {
    if (!p) return;
    if (in_arena(reinterpret_cast<uintptr_t>(p))) {
        Rt rt;
        if (rt.t && rt.saved) point(K_ALLOC);
        arena_free(p, pc);
        return;
    }
    __libc_free(p);
}
void* operator new(size_t n) { return do_new(n, 16, false, PC); }
void* operator new[](size_t n) { return do_new(n, 16, false, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false, PC); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
