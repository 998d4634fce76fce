// Deterministic simulation runtime: public interface for scenarios.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- fault kinds
enum Fault : int {
    F_NONE = 0,
    // disk
    F_OPEN_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_ENOSPC, F_WRITE_EIO, F_STAT_ERR, F_CLOSE_ERR,
    // network
    F_DNS_FAIL, F_SOCKET_ERR, F_CONN_REFUSED, F_CONN_TIMEOUT, F_CONN_EINTR, F_SEND_SHORT, F_SEND_EINTR,
    F_SEND_RESET, F_SEND_ERR, F_SEND_STALL,
    // clock
    F_CLOCK_JUMP,
    // scheduler
    F_SPURIOUS_WAKE, F_EARLY_TIMER, F_STALL_THREAD, F_THREAD_CREATE,
    // memory
    F_ALLOC,
    // user supplied code / components
    F_SINK_THROW, F_SINK_SLOW, F_FORMATTER_THROW, F_FILTER_THROW, F_SUPPLIER_THROW, F_ATTR_THROW,
    // external actors
    F_EXT_RENAME, F_EXT_UNLINK, F_EXT_RECREATE, F_DISK_FULL, F_PROC_CRASH, F_PEER_DOWN, F_PERM_DENIED,
    F_STREAM_EOF, F_STREAM_BAD, F_STREAM_THROW, F_FACTORY_THROW, F_SINK_REENTER, F_CONSOLE_ERR,
    F_COUNT
};
const char* fault_name(int f);

// ---------------------------------------------------------------- run description
struct Decision { uint16_t tid; uint16_t target; uint32_t op; uint32_t step; };
struct FaultRec { uint16_t tid; uint16_t kind; uint32_t op; uint32_t n; int64_t param; };

struct RunSpec {
    uint64_t seed = 1;
    bool replay = false;                 // decisions/faults given explicitly
    bool verbose = false;                // keep a textual event log
    std::vector<Decision> decisions;
    std::vector<FaultRec> faults;
    std::vector<uint32_t> dropped;       // dropped workload operations
};

enum Status : int { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INTERNAL = 3 };

constexpr int MAX_DEC = 60000, MAX_FLT = 20000, LOG_CAP = 1 << 20, PROBES = 192;
struct Shared {                          // filled in by the simulated process
    int status;
    char cls[64];
    char msg[2048];
    uint64_t log_hash, inter_hash, steps, switches, sync_events, sim_ns;
    uint32_t ndec, nflt, nops, nthreads;
    uint64_t opp[F_COUNT], fired[F_COUNT];
    uint64_t events;                     // log events processed by the workload
    uint64_t checks;                     // oracle comparisons made
    uint64_t races_checked;
    uint64_t probes[PROBES];
    uint32_t dec_overflow;
    uint32_t log_len;
    Decision dec[MAX_DEC];
    FaultRec flt[MAX_FLT];
    char sample[512];                    // short description of the generated case
    char log[LOG_CAP];
};
extern Shared* shm;

// ---------------------------------------------------------------- modes
// Library code runs with the hooks on; harness code runs atomically with the hooks off.
struct LibScope { int saved; LibScope(); ~LibScope(); };
struct HarnessScope { int saved; HarnessScope(); ~HarnessScope(); };

// ---------------------------------------------------------------- API for scenarios
struct Ctx {
    Rng rng{1};                          // workload stream
    uint32_t next_op = 0;
    uint32_t alloc_op() { return next_op++; }
    bool begin_op(uint32_t op);          // false when the operation was dropped by the minimiser
    void end_op();
};
extern Ctx* ctx;

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count_check(uint64_t n = 1);
void count_event(uint64_t n = 1);
void probe(int i);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

int self();                              // simulated thread index
int spawn(std::function<void()> fn, const char* name);  // harness thread (runs in harness mode)
void join(int tid);
uint64_t now();                          // simulated monotonic ns
int64_t realtime();                      // simulated wall clock ns (no tick, no jump)
void set_realtime_base(int64_t ns);
void jump_clock(int64_t delta_ns);
std::vector<int64_t>& wall_readings();   // wall clock values the calling thread has read (clear it yourself)
uint32_t lwp_of_self();                  // simulated kernel thread id
uint64_t native_self();                  // pthread_self() of the calling thread
constexpr uint32_t SIM_PID = 4242;
uint32_t pid();                          // of the simulated process
void become_child();                     // fork(): the calling thread goes on as the only thread of a new process
void yield();                            // scheduling point
void sleep_ns(uint64_t ns);              // simulated sleep
void block_until(std::function<bool()> pred, const char* what);
uint64_t seq();                          // global event sequence number (strictly increasing)
uint64_t steps();

// fault injection
void enable_fault(int kind, double p);
void disable_faults();
void restore_faults();
double fault_p(int kind);
// One opportunity for `kind`; returns 0 or a non-zero parameter in [1..maxparam].
int64_t fault(int kind, int64_t maxparam = 1);
void note_fault(int kind);               // for faults issued as workload operations
// Allocation failures are injected only in a thread inside an AllocFaults scope.
struct AllocFaults { bool saved; explicit AllocFaults(bool on = true); ~AllocFaults(); };
uint64_t fired_here(int kind);            // faults of a kind injected into the calling thread so far
uint64_t throws_here();                  // allocation failures and user-code exceptions injected into it
uint64_t delays();                       // sleeps and condition waits entered by the calling thread

// explicit instrumentation for harness code reading memory that the library owns
void touch_read(const void* p, size_t n);
void touch_write(const void* p, size_t n);
void* lib_alloc(size_t n);               // from the checked arena
void lib_free(void* p);
bool is_freed(const void* p);

// limits
// Timers expire (nearly always) in the order of their deadlines and only when nothing else can run, so that long
// waits consist of as many short ones as they would in reality.
void exact_timers();
void big_blocks_unchecked();             // blocks of a megabyte and more bypass the checked arena
void set_limits(uint64_t max_steps, uint64_t fair_after, uint64_t max_sim_ns);
int lib_threads_alive();                 // threads created by the library that have not finished
void expect_terminate(bool on);

// the simulated process
void run_child(const RunSpec& spec, void (*fn)(Ctx&));   // never returns

// seams implemented in os.cpp
void os_reset();

struct ThreadView { int tid; bool finished; bool harness; };

}  // namespace sim
