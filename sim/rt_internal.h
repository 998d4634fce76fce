#pragma once
#include <pthread.h>
#include "rt.h"

namespace sim {

constexpr int MAXT = 40;
struct VC {
    uint32_t c[MAXT];
    void clear() { __builtin_memset(c, 0, sizeof c); }
    void joinv(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Kind : int { K_MEM = 0, K_ATOMIC, K_ALLOC, K_SYNC, K_SYS, K_OP };

struct Thread {
    int id = 0;
    uint32_t futex = 0;
    bool finished = false, detached = false, harness = false;
    bool blocked = false;                  // has a wait predicate
    std::function<bool()> ready;           // wake-up predicate
    const char* what = "";
    uint64_t deadline = ~0ull;             // for timed waits and sleeps
    bool timed_out = false, spurious_ok = false, spurious = false;
    int lib = 0;
    uint32_t op = 0, step = 0, fault_n = 0;
    bool has_dec = false;
    uint64_t prio = 0;
    uint64_t stalled_until = 0;
    VC vc, rel_fence, acq_pending;
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()> hfn;
    std::string name;
    char* stack = nullptr;
    uint32_t vtid = 0;
    bool alloc_faults = false;             // operator new may fail in this thread now
    uint32_t nfired[F_COUNT] = {};
    uint64_t delays = 0;                   // sleeps and condition waits entered
    std::vector<int64_t> readings;         // wall clock values this thread has read
    std::vector<std::pair<pthread_key_t, void*>> tls;
};

extern __thread Thread* t_self;
inline bool active() { return t_self && t_self->lib; }

// Entered by every interposed function: what follows is runtime code, not library code.
struct Rt {
    Thread* t; int saved;
    Rt() : t(t_self), saved(t ? t->lib : 0) { if (t) t->lib = 0; }
    ~Rt() { if (t) t->lib = saved; }
};

void point(Kind k);                        // scheduling point of the running thread
// Blocks the calling thread until pred() or the deadline; returns true if pred() held.
bool wait_for(std::function<bool()> pred, uint64_t deadline, const char* what, bool spurious_ok = false);
void acquire_clock(const VC& c);
void release_clock(VC& c);
void release_clock_join(VC& c);
void tick();
uint64_t clock_tick();                     // reads the simulated clock (advances it slightly)
void advance(uint64_t ns);                 // lets simulated time pass (cost of an operation)
int create_thread(void* (*fn)(void*), void* arg, bool harness, const char* name);
Thread* thread_by_real(pthread_t p);
Thread* thread_by_id(int id);
void mem_access(uintptr_t a, size_t n, bool write, uintptr_t pc);
void forget_atomic_range(uintptr_t a, size_t n);
void hash_event(uint64_t v);
template<typename F> F real(const char* name);
void* real_sym(const char* name);
}  // namespace sim

#define REAL(fn) ([]() { static decltype(&::fn) p = reinterpret_cast<decltype(&::fn)>(sim::real_sym(#fn)); return p; }())
