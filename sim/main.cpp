// Driver: seeded search over simulated runs, minimisation, replay, evidence.
#include "rt.h"
#include "scenario.h"

#include <algorithm>
#include <alloca.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <locale>
#include <map>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec); }
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull; return h; }

struct Outcome {
    int status; std::string cls, msg; uint64_t log_hash;
    std::vector<Decision> dec; std::vector<FaultRec> flt; uint32_t nops; bool overflow;
};

static Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Shared*>(p);
}
static void reset_shared() {
    Shared& s = *shm;
    memset(&s, 0, offsetof(Shared, dec));
    s.sample[0] = 0; s.log[0] = 0;
}
// Executes one simulated run in a process of its own.
static void run_raw(const Scenario& sc, const RunSpec& spec) {
    reset_shared();
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { run_child(spec, sc.fn); _exit(9); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->status == ST_RUNNING) {
        shm->status = ST_VIOLATION;
        if (WIFSIGNALED(st)) { snprintf(shm->cls, sizeof shm->cls, "crash"); snprintf(shm->msg, sizeof shm->msg, "simulated process killed by signal %d", WTERMSIG(st)); }
        else { snprintf(shm->cls, sizeof shm->cls, "process-exit"); snprintf(shm->msg, sizeof shm->msg, "simulated process exited with %d in the middle of the run", WEXITSTATUS(st)); }
    }
}
static Outcome run(const Scenario& sc, const RunSpec& spec) {
    run_raw(sc, spec);
    Outcome o;
    o.status = shm->status; o.cls = shm->cls; o.msg = shm->msg; o.log_hash = shm->log_hash; o.nops = shm->nops;
    o.dec.assign(shm->dec, shm->dec + shm->ndec); o.flt.assign(shm->flt, shm->flt + shm->nflt);
    o.overflow = shm->dec_overflow;
    return o;
}

static const Scenario* find_scenario(const std::string& n) {
    for (auto& s : scenarios()) if (n == s.name) return &s;
    return nullptr;
}

// ------------------------------------------------------------------ replay files
struct Replay { std::string prop, scn, cls, msg; RunSpec spec; uint64_t log_hash = 0; };

static bool write_replay(const std::string& path, const Replay& r, const std::string& trace) {
    std::ofstream f(path);
    f << "bhsim-replay 1\nproperty " << r.prop << "\nscenario " << r.scn << "\nseed " << r.spec.seed << "\nclass " << r.cls
      << "\nloghash " << r.log_hash << "\nmessage " << r.msg << "\n";
    f << "explicit " << (r.spec.replay ? 1 : 0) << "\n";
    for (auto d : r.spec.dropped) f << "dropped " << d << "\n";
    for (auto& d : r.spec.decisions) f << "decision " << d.tid << " " << d.op << " " << d.step << " " << d.target << "\n";
    for (auto& d : r.spec.faults) f << "fault " << d.tid << " " << d.op << " " << d.kind << " " << d.n << " " << d.param << " # " << fault_name(d.kind) << "\n";
    f << "trace\n" << trace;
    return bool(f);
}
static bool read_replay(const std::string& path, Replay& r) {
    std::ifstream f(path);
    std::string line;
    if (!std::getline(f, line) || line != "bhsim-replay 1") return false;
    r.spec.replay = true;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k; is >> k;
        if (k == "trace") break;
        if (k == "property") is >> r.prop;
        else if (k == "scenario") is >> r.scn;
        else if (k == "seed") is >> r.spec.seed;
        else if (k == "class") is >> r.cls;
        else if (k == "loghash") is >> r.log_hash;
        else if (k == "explicit") { int e; is >> e; r.spec.replay = e != 0; }
        else if (k == "message") { std::getline(is, r.msg); }
        else if (k == "dropped") { uint32_t d; is >> d; r.spec.dropped.push_back(d); }
        else if (k == "decision") { Decision d; is >> d.tid >> d.op >> d.step >> d.target; r.spec.decisions.push_back(d); }
        else if (k == "fault") { FaultRec d; is >> d.tid >> d.op >> d.kind >> d.n >> d.param; r.spec.faults.push_back(d); }
    }
    return true;
}

// ------------------------------------------------------------------ minimisation
template<typename T, typename F>
static std::vector<T> ddmin(std::vector<T> items, F test, double deadline) {
    // test(items) -> true when the violation persists
    if (items.empty()) return items;
    if (test({})) return {};
    size_t n = 2;
    while (items.size() >= 2 && wall() < deadline) {
        size_t chunk = (items.size() + n - 1) / n;
        bool reduced = false;
        for (size_t i = 0; i < items.size() && wall() < deadline; i += chunk) {
            std::vector<T> rest(items.begin(), items.begin() + static_cast<long>(i));
            rest.insert(rest.end(), items.begin() + static_cast<long>(std::min(items.size(), i + chunk)), items.end());
            if (rest.size() < items.size() && test(rest)) {
                items = rest; n = std::max<size_t>(n - 1, 2); reduced = true; break;
            }
        }
        if (!reduced) { if (n >= items.size()) break; n = std::min(items.size(), n * 2); }
    }
    if (items.size() == 1 && wall() < deadline && test({})) return {};
    return items;
}

static std::string verif_dir = ".";

struct Known { std::string prop, scn, cls, match, desc; };
static std::vector<Known> load_known() {
    std::vector<Known> v;
    std::ifstream f(verif_dir + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line)) {
        if (line.compare(0, 6, "known:") != 0) continue;
        Known k;
        auto get = [&](const std::string& key) -> std::string {
            auto p = line.find(key + "=");
            if (p == std::string::npos) return "";
            p += key.size() + 1;
            if (p < line.size() && line[p] == '"') { auto e = line.find('"', p + 1); return line.substr(p + 1, e - p - 1); }
            auto e = line.find(' ', p);
            return line.substr(p, e == std::string::npos ? e : e - p);
        };
        k.prop = get("property"); k.scn = get("scenario"); k.cls = get("class"); k.match = get("match");
        auto b = line.find(" | ");
        k.desc = b == std::string::npos ? line : line.substr(b + 3);
        v.push_back(k);
    }
    return v;
}
static bool is_known(const std::vector<Known>& ks, const std::string& prop, const std::string& scn, const std::string& cls, const std::string& msg) {
    for (auto& k : ks)
        if (k.prop == prop && (k.scn.empty() || k.scn == scn) && (k.cls.empty() || k.cls == cls) && (k.match.empty() || msg.find(k.match) != std::string::npos)) return true;
    return false;
}

// ------------------------------------------------------------------ the search
struct Agg {
    uint64_t runs, steps, switches, sync_events, sim_ns, events, checks, ops, races, trivial, internal, known, redo, redo_bad, dec_overflow;
    uint64_t opp[F_COUNT], fired[F_COUNT], probes[PROBES], runs_with[F_COUNT];
    uint64_t max_threads;
    int found; uint32_t found_scn; uint64_t found_idx; uint64_t found_seed;
    char cls[64], msg[2048];
    char internal_msg[512], redo_msg[128];
    char samples[6][512]; int nsamples;
    uint64_t nhash;
    uint64_t hashes[4000000];
};
struct Stop { volatile int stop; volatile uint64_t min_idx; };

struct Opts { std::string prop, tier = "quick", evidence; uint64_t seed = 1; uint64_t runs = 0; double cap = 300; int jobs = 8; double mintime = 40; };

static uint64_t run_seed(const Opts& o, const Scenario& s, uint64_t idx) { return mix(mix(o.seed, hash_str(s.name)), idx); }

static void worker(const Opts& o, const std::vector<const Scenario*>& scs, const std::vector<int>& wheel, int w, Agg* a, Stop* stop, double t_end) {
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(static_cast<size_t>(w) % static_cast<size_t>(sysconf(_SC_NPROCESSORS_ONLN)), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    shm = new_shared();
    auto known = load_known();
    for (uint64_t idx = static_cast<uint64_t>(w); idx < o.runs; idx += static_cast<uint64_t>(o.jobs)) {
        if (stop->stop && idx > stop->min_idx) break;
        if (wall() > t_end) break;
        int si = wheel[idx % wheel.size()];
        const Scenario& sc = *scs[static_cast<size_t>(si)];
        RunSpec spec; spec.seed = run_seed(o, sc, idx);
        run_raw(sc, spec);
        Shared& s = *shm;
        a->runs++; a->steps += s.steps; a->switches += s.switches; a->sync_events += s.sync_events; a->sim_ns += s.sim_ns;
        a->events += s.events; a->checks += s.checks; a->ops += s.nops; a->races += s.races_checked; a->dec_overflow += s.dec_overflow;
        a->max_threads = std::max<uint64_t>(a->max_threads, s.nthreads);
        bool anyf = false;
        for (int i = 0; i < F_COUNT; ++i) { a->opp[i] += s.opp[i]; a->fired[i] += s.fired[i]; if (s.fired[i]) { a->runs_with[i]++; anyf = true; } }
        for (int i = 0; i < PROBES; ++i) a->probes[i] += s.probes[i];
        bool nontrivial = s.checks > 0 && (s.switches > 0 || anyf);
        if (!nontrivial) a->trivial++;
        else if (a->nhash < sizeof a->hashes / 8) {
            uint64_t h = mix(s.inter_hash, static_cast<uint64_t>(si));
            for (int i = 0; i < F_COUNT; ++i) if (s.fired[i]) h = mix(h, static_cast<uint64_t>(i) * 1000 + s.fired[i]);
            a->hashes[a->nhash++] = h;
        }
        if (a->nsamples < 6 && s.sample[0] && (idx / static_cast<uint64_t>(o.jobs)) % 7 == 0) {
            snprintf(a->samples[a->nsamples++], 512, "%s seed=%llu: %.300s [%llu steps, %llu switches, %.3f simulated s]", sc.name,
                     static_cast<unsigned long long>(spec.seed), s.sample, static_cast<unsigned long long>(s.steps),
                     static_cast<unsigned long long>(s.switches), static_cast<double>(s.sim_ns) / 1e9);
        }
        if (s.status == ST_INTERNAL) { a->internal++; snprintf(a->internal_msg, sizeof a->internal_msg, "%s seed=%llu: %.400s", sc.name, static_cast<unsigned long long>(spec.seed), s.msg); continue; }
        if (s.status == ST_VIOLATION) {
            if (is_known(known, o.prop, sc.name, s.cls, s.msg)) { a->known++; continue; }
            a->found = 1; a->found_scn = static_cast<uint32_t>(si); a->found_idx = idx; a->found_seed = spec.seed;
            snprintf(a->cls, sizeof a->cls, "%s", s.cls); snprintf(a->msg, sizeof a->msg, "%s", s.msg);
            if (!stop->stop || idx < stop->min_idx) { stop->min_idx = idx; stop->stop = 1; }
            break;
        }
        if (idx % 97 == 0) {              // determinism sample: the same seed again
            uint64_t h = s.log_hash;
            run_raw(sc, spec);
            a->redo++;
            if (shm->log_hash != h) { a->redo_bad++; snprintf(a->redo_msg, sizeof a->redo_msg, "%s seed=%llu", sc.name, static_cast<unsigned long long>(spec.seed)); }
        }
    }
    _exit(0);
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

static std::string sym(const std::string& msg) {
    // symbolise "pc xxxxxx" with addr2line, best effort
    std::string out = msg, exe = "/proc/self/exe";
    char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    if (n <= 0) return out;
    self[n] = 0;
    std::set<std::string> pcs;
    std::istringstream is(msg); std::string w;
    while (is >> w) {
        while (!w.empty() && !isxdigit(static_cast<unsigned char>(w.back()))) w.pop_back();
        if (w.size() >= 5 && w.size() <= 8 && w.find_first_not_of("0123456789abcdef") == std::string::npos) pcs.insert(w);
    }
    if (pcs.empty()) return out;
    std::string cmd = std::string("addr2line -Cfpse ") + self;
    for (auto& p : pcs) cmd += " " + p;
    cmd += " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r");
    if (!f) return out;
    char b[1024]; auto it = pcs.begin();
    while (fgets(b, sizeof b, f) && it != pcs.end()) {
        std::string s(b); if (!s.empty() && s.back() == '\n') s.pop_back();
        if (s.size() > 220) { auto at = s.rfind(" at "); s = s.substr(0, 160) + "..." + (at == std::string::npos ? "" : s.substr(at)); }
        out += "\n    " + *it + " = " + s; ++it;
    }
    pclose(f);
    return out;
}

static int do_replay(const std::string& path, bool quiet) {
    Replay r;
    if (!read_replay(path, r)) { fprintf(stderr, "cannot read replay file %s\n", path.c_str()); return 2; }
    const Scenario* sc = find_scenario(r.scn);
    if (!sc) { fprintf(stderr, "unknown scenario %s\n", r.scn.c_str()); return 2; }
    shm = new_shared();
    r.spec.verbose = !quiet;
    Outcome o = run(*sc, r.spec);
    if (!quiet) printf("%s\n", shm->log);
    printf("replay status=%d class=%s loghash=%llu\n", o.status, o.cls.c_str(), static_cast<unsigned long long>(o.log_hash));
    if (!quiet) printf("%s\n", sym(o.msg).c_str());
    if (o.status == ST_VIOLATION) { printf("VIOLATION property=%s replay=%s\n", r.prop.c_str(), path.c_str()); return 1; }
    return o.status == ST_OK ? 0 : 2;
}

static int exec_replay(const std::string& path, std::string& cls, uint64_t& h) {
    char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n > 0 ? n : 0] = 0;
    std::string cmd = std::string("'") + self + "' replay-quiet '" + path + "'";
    FILE* f = popen(cmd.c_str(), "r");
    if (!f) return -1;
    char b[4096]; std::string out;
    while (fgets(b, sizeof b, f)) out += b;
    int rc = pclose(f);
    auto p = out.find("class="); if (p != std::string::npos) { cls = out.substr(p + 6, out.find(' ', p) - p - 6); }
    p = out.find("loghash="); if (p != std::string::npos) h = strtoull(out.c_str() + p + 8, nullptr, 10);
    return WEXITSTATUS(rc);
}

static int handle_violation(const Opts& o, const Scenario& sc, uint64_t seed, std::string& replay_path, Replay& rep, std::string& err) {
    shm = new_shared();
    RunSpec spec; spec.seed = seed;
    Outcome a = run(sc, spec);
    Outcome b = run(sc, spec);
    if (a.status != ST_VIOLATION || b.status != ST_VIOLATION || a.log_hash != b.log_hash) {
        err = "the violating seed " + std::to_string(seed) + " of " + sc.name + " is not deterministic (" + std::to_string(a.status) + " " + std::to_string(b.status) + ")"; return 2;
    }
    std::string cls = a.cls;
    RunSpec cur; cur.seed = seed; cur.replay = true; cur.decisions = a.dec; cur.faults = a.flt;
    auto test = [&](const RunSpec& s) { Outcome x = run(sc, s); return x.status == ST_VIOLATION && x.cls == cls; };
    bool explicit_ok = !a.overflow && test(cur);
    double deadline = wall() + (o.tier == "quick" ? 25 : 90);
    if (explicit_ok) {
        for (int round = 0; round < 4 && wall() < deadline; ++round) {
            size_t before = cur.decisions.size() + cur.faults.size() + (a.nops - cur.dropped.size());
            // schedule
            cur.decisions = ddmin(cur.decisions, [&](const std::vector<Decision>& d) { RunSpec s = cur; s.decisions = d; return test(s); }, deadline);
            // faults
            cur.faults = ddmin(cur.faults, [&](const std::vector<FaultRec>& d) { RunSpec s = cur; s.faults = d; return test(s); }, deadline);
            // operations (kept set)
            std::vector<uint32_t> kept;
            for (uint32_t i = 0; i < a.nops; ++i) if (std::find(cur.dropped.begin(), cur.dropped.end(), i) == cur.dropped.end()) kept.push_back(i);
            auto to_dropped = [&](const std::vector<uint32_t>& k) { std::vector<uint32_t> d; for (uint32_t i = 0; i < a.nops; ++i) if (!std::binary_search(k.begin(), k.end(), i)) d.push_back(i); return d; };
            kept = ddmin(kept, [&](const std::vector<uint32_t>& k) { RunSpec s = cur; s.dropped = to_dropped(k); return test(s); }, deadline);
            cur.dropped = to_dropped(kept);
            size_t after = cur.decisions.size() + cur.faults.size() + kept.size();
            if (after >= before) break;
        }
    } else {
        cur = RunSpec(); cur.seed = seed;   // replay by seed
    }
    for (int attempt = 0; attempt < 2; ++attempt) {
        RunSpec v = cur; v.verbose = true;
        Outcome fin = run(sc, v);
        rep = Replay{o.prop, sc.name, fin.cls, fin.msg, cur, fin.log_hash};
        std::string trace = std::string(shm->log) + sym(fin.msg) + "\n";
        mkdir((verif_dir + "/replays").c_str(), 0755);
        char name[256];
        snprintf(name, sizeof name, "%s/replays/%s-%s-%016llx.replay", verif_dir.c_str(), o.prop.c_str(), sc.name, static_cast<unsigned long long>(seed));
        replay_path = name;
        write_replay(replay_path, rep, trace);
        std::string c1; uint64_t h1 = 0;
        int rc = exec_replay(replay_path, c1, h1);
        std::string c2; uint64_t h2 = 0;
        int rc2 = exec_replay(replay_path, c2, h2);
        if (rc == 1 && rc2 == 1 && c1 == fin.cls && c2 == fin.cls && h1 == fin.log_hash && h2 == h1) return 1;
        cur = RunSpec(); cur.seed = seed;
    }
    err = "the violation did not reproduce in a fresh process";
    return 2;
}

static int do_check(Opts o) {
    std::vector<const Scenario*> scs; std::vector<int> wheel;
    for (auto& s : scenarios())
        for (auto& p : s.props) if (p.first == o.prop) { scs.push_back(&s); for (int i = 0; i < p.second; ++i) wheel.push_back(static_cast<int>(scs.size()) - 1); }
    if (scs.empty()) { fprintf(stderr, "no scenario for %s\n", o.prop.c_str()); return 2; }
    std::sort(wheel.begin(), wheel.end());
    // interleave the scenarios
    { std::vector<int> w2; Rng r(7); while (!wheel.empty()) { size_t i = r.below(wheel.size()); w2.push_back(wheel[i]); wheel.erase(wheel.begin() + static_cast<long>(i)); } wheel = w2; }
    double t0 = wall();
    std::vector<Agg*> aggs;
    auto* stop = static_cast<Stop*>(mmap(nullptr, sizeof(Stop), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids;
    printf("property %s tier %s seed %llu: %llu runs, scenarios:", o.prop.c_str(), o.tier.c_str(), static_cast<unsigned long long>(o.seed), static_cast<unsigned long long>(o.runs));
    for (auto* s : scs) printf(" %s", s->name);
    printf("\n"); fflush(stdout);
    for (int w = 0; w < o.jobs; ++w) {
        auto* a = static_cast<Agg*>(mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        aggs.push_back(a);
        pid_t p = fork();
        if (p == 0) worker(o, scs, wheel, w, a, stop, t0 + o.cap);
        pids.push_back(p);
    }
    int worker_fail = 0;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) worker_fail++; }
    double t_search = wall() - t0;
    auto* T = new Agg; memset(T, 0, offsetof(Agg, hashes));
    std::unordered_set<uint64_t> uniq;
    int best = -1;
    std::vector<std::string> samples;
    std::string internal_msg, redo_msg;
    for (size_t w = 0; w < aggs.size(); ++w) {
        Agg& a = *aggs[w];
        T->runs += a.runs; T->steps += a.steps; T->switches += a.switches; T->sync_events += a.sync_events; T->sim_ns += a.sim_ns; T->events += a.events;
        T->checks += a.checks; T->ops += a.ops; T->races += a.races; T->trivial += a.trivial; T->internal += a.internal; T->known += a.known; T->redo += a.redo; T->redo_bad += a.redo_bad; T->dec_overflow += a.dec_overflow;
        T->max_threads = std::max(T->max_threads, a.max_threads);
        for (int i = 0; i < F_COUNT; ++i) { T->opp[i] += a.opp[i]; T->fired[i] += a.fired[i]; T->runs_with[i] += a.runs_with[i]; }
        for (int i = 0; i < PROBES; ++i) T->probes[i] += a.probes[i];
        for (uint64_t i = 0; i < a.nhash; ++i) uniq.insert(a.hashes[i]);
        for (int i = 0; i < a.nsamples && samples.size() < 8; ++i) samples.push_back(a.samples[i]);
        if (a.found && (best < 0 || a.found_idx < aggs[static_cast<size_t>(best)]->found_idx)) best = static_cast<int>(w);
        if (a.internal) internal_msg = a.internal_msg;
        if (a.redo_bad) redo_msg = a.redo_msg;
    }
    int rc = 0;
    std::string replay_path, err; Replay rep;
    if (best >= 0) {
        std::vector<Agg*> found;
        for (auto* x : aggs) if (x->found) found.push_back(x);
        std::sort(found.begin(), found.end(), [](Agg* x, Agg* y) { return x->found_idx < y->found_idx; });
        for (auto* x : found) {
            rc = handle_violation(o, *scs[x->found_scn], x->found_seed, replay_path, rep, err);
            if (rc != 2) break;
            err += std::string("; found as ") + x->cls + ": " + x->msg;
        }
    }
    if (rc == 0 && T->internal) { rc = 2; err = "internal error: " + internal_msg; }
    if (rc == 0 && worker_fail) { rc = 2; err = "a worker process failed"; }
    if (rc == 0 && T->runs == 0) { rc = 2; err = "no run completed"; }
    // known findings of this property are always announced
    for (auto& k : load_known()) if (k.prop == o.prop) printf("KNOWN-FINDING: property=%s %s\n", k.prop.c_str(), k.desc.c_str());
    double t_all = wall() - t0;
    // evidence
    std::ostringstream e;
    e << "{\n \"property\": " << jstr(o.prop) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"level\": \"exploration\",\n";
    e << " \"wall_s\": " << t_all << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << ",\n";
    e << " \"coverage\": {\n  \"evaluations\": " << T->runs << ",\n  \"distinct_nontrivial\": " << uniq.size() << ",\n";
    e << "  \"rule\": " << jstr("one evaluation = one simulated run of a generated workload under one seed (schedule, faults, knobs). Non-trivial: at least one oracle comparison was made and at least one thread switch or fault happened. Distinct: different hash of the sequence of (thread, synchronisation/system-call event) together with the multiset of faults fired") << ",\n";
    e << "  \"runs_per_hour\": " << static_cast<uint64_t>(static_cast<double>(T->runs) / (t_search > 0.01 ? t_search : 0.01) * 3600) << ",\n  \"seeds_per_hour\": " << static_cast<uint64_t>(static_cast<double>(T->runs) / (t_search > 0.01 ? t_search : 0.01) * 3600) << ",\n";
    e << "  \"search_wall_s\": " << t_search << ",\n  \"simulated_seconds\": " << static_cast<double>(T->sim_ns) / 1e9 << ",\n";
    e << "  \"scheduling_points\": " << T->steps << ",\n  \"thread_switches\": " << T->switches << ",\n  \"sync_events\": " << T->sync_events << ",\n  \"memory_accesses_checked\": " << T->races << ",\n";
    e << "  \"workload_operations\": " << T->ops << ",\n  \"log_events_checked\": " << T->events << ",\n  \"oracle_comparisons\": " << T->checks << ",\n  \"max_threads\": " << T->max_threads << ",\n";
    e << "  \"trivial_runs\": " << T->trivial << ",\n  \"determinism_reruns\": " << T->redo << ",\n  \"determinism_mismatches\": " << T->redo_bad << ",\n  \"suppressed_known_findings\": " << T->known << ",\n";
    e << "  \"faults\": {";
    bool first = true;
    for (int i = 1; i < F_COUNT; ++i) if (T->opp[i] || T->fired[i]) { e << (first ? "" : ",") << "\n   " << jstr(fault_name(i)) << ": {\"fired\": " << T->fired[i] << ", \"opportunities\": " << std::max(T->opp[i], T->fired[i]) << ", \"runs\": " << T->runs_with[i] << "}"; first = false; }
    e << "\n  },\n  \"probes\": {";
    first = true;
    for (auto& kv : probe_names()) { bool mine = false; for (auto* s : scs) for (int p : s->probes) if (p == kv.first) mine = true; if (!mine) continue; e << (first ? "" : ",") << "\n   " << jstr(kv.second) << ": " << T->probes[kv.first]; first = false; }
    e << "\n  },\n  \"scenarios\": [";
    for (size_t i = 0; i < scs.size(); ++i) e << (i ? ", " : "") << jstr(std::string(scs[i]->name) + ": " + scs[i]->desc);
    e << "],\n  \"real_components\": [\"all of /repo/src and /repo/include, compiled from the working tree with gcc -fsanitize=thread instrumentation\", \"libstdc++, Boost (asio, thread/tss, small_vector), libcds queue, rapidjson, glibc string/time-zone/printf code\"],\n";
    e << "  \"simulated_components\": [\"thread scheduler, mutex/spinlock/condition/once/thread create+join\", \"monotonic and wall clock, sleeps and timed waits\", \"file system (open/write/stat/rename/unlink/close)\", \"TCP/UDP sockets and name resolution\", \"standard streams' file descriptors and isatty\", \"syslog\", \"heap (checked arena with failure injection)\", \"gettid/getpid\"],\n";
    e << "  \"samples\": [";
    if (samples.empty()) samples.push_back("(no sample)");
    for (size_t i = 0; i < samples.size(); ++i) e << (i ? ", " : "") << jstr(samples[i]);
    e << "]\n },\n \"assumptions\": [\"sequentially consistent memory: reorderings allowed by a weak memory model are covered only through the data-race check\", \"third-party libraries other than header-only code are trusted and not instrumented\", \"a clean batch is evidence, not proof\"]\n}\n";
    { std::ofstream f(o.evidence); f << e.str(); }
    printf("%llu runs in %.1f s (%.0f/s), %zu distinct, %.1f simulated s, %llu oracle comparisons\n", static_cast<unsigned long long>(T->runs), t_search, static_cast<double>(T->runs) / t_search, uniq.size(),
           static_cast<double>(T->sim_ns) / 1e9, static_cast<unsigned long long>(T->checks));
    if (T->redo_bad) printf("note: %llu of %llu determinism re-runs differed (%s)\n", static_cast<unsigned long long>(T->redo_bad), static_cast<unsigned long long>(T->redo), redo_msg.c_str());
    if (rc == 1) {
        printf("class %s: %s\n", rep.cls.c_str(), sym(rep.msg).c_str());
        printf("minimised to %zu schedule decisions, %zu faults, %zu dropped operations\n", rep.spec.decisions.size(), rep.spec.faults.size(), rep.spec.dropped.size());
        printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), replay_path.c_str());
    } else if (rc == 2) printf("ERROR: %s\n", err.c_str());
    else printf("property %s held on everything explored\n", o.prop.c_str());
    return rc;
}

// What the C++ library fills in at first use, so that it does not depend on what a process did before its first simulated run.
static void warm_up() {
    std::ostringstream o; o << 1 << ' ' << 1.5 << ' ' << true << ' ' << static_cast<void*>(&o) << std::endl;
    std::tm tm = {}; o << std::put_time(&tm, "%c");
    std::istringstream i("1 2.5 x\n"); int a; double b; std::string c; i >> a >> b; std::getline(i, c);
    auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
    for (int k = 0; k < 256; ++k) { ct.widen(static_cast<char>(k)); ct.narrow(static_cast<char>(k), 0); }
    char all[256], to[256]; for (int k = 0; k < 256; ++k) all[k] = static_cast<char>(k);
    ct.widen(all, all + 256, to); ct.narrow(all, all + 256, 0, to);
}

int main(int argc, char** argv) {
    setenv("TZ", "UTC", 1);   // scenarios choose their own zone explicitly
    warm_up();
    std::vector<std::string> args(argv + 1, argv + argc);
    if (!getenv("BHSIM_NOASLR")) {
        setenv("BHSIM_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur >= 0 && personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    if (args.empty()) { fprintf(stderr, "usage: bhsim check|replay|one|list|determinism\n"); return 2; }
    auto opt = [&](const std::string& k, const std::string& d) -> std::string {
        for (size_t i = 1; i + 1 < args.size(); ++i) if (args[i] == "--" + k) return args[i + 1];
        return d;
    };
    verif_dir = opt("verif", ".");
    if (args[0] == "list") { for (auto& s : scenarios()) { printf("%s:", s.name); for (auto& p : s.props) printf(" %s*%d", p.first.c_str(), p.second); printf("  %s\n", s.desc); } return 0; }
    if (args[0] == "replay") return do_replay(args.at(1), false);
    if (args[0] == "replay-quiet") return do_replay(args.at(1), true);
    if (args[0] == "one") {
        const Scenario* sc = find_scenario(opt("scn", ""));
        if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
        shm = new_shared();
        RunSpec spec; spec.seed = strtoull(opt("seed", "1").c_str(), nullptr, 10); spec.verbose = true;
        Outcome x = run(*sc, spec);
        printf("%s\nsample: %s\nstatus=%d class=%s\n%s\nhash=%llu steps=%llu switches=%llu\n", shm->log, shm->sample, x.status, x.cls.c_str(), sym(x.msg).c_str(), static_cast<unsigned long long>(x.log_hash), static_cast<unsigned long long>(shm->steps), static_cast<unsigned long long>(shm->switches));
        return x.status == ST_OK ? 0 : 1;
    }
    if (args[0] == "sweep") {        // many seeds of one scenario; prints violations by class
        const Scenario* sc = find_scenario(opt("scn", ""));
        if (!sc) { fprintf(stderr, "no such scenario\n"); return 2; }
        shm = new_shared();
        uint64_t n = strtoull(opt("n", "200").c_str(), nullptr, 10), s0 = strtoull(opt("seed", "1").c_str(), nullptr, 10);
        std::map<std::string, std::pair<int, std::string>> seen;
        double t = wall(); uint64_t steps = 0, checks = 0;
        for (uint64_t i = 0; i < n; ++i) {
            RunSpec spec; spec.seed = s0 + i;
            run_raw(*sc, spec);
            steps += shm->steps; checks += shm->checks;
            if (shm->status != ST_OK) { auto& e = seen[shm->cls]; if (!e.first++) e.second = "seed " + std::to_string(spec.seed) + ": " + shm->msg; }
        }
        for (auto& kv : seen) printf("%s x%d: %s\n", kv.first.c_str(), kv.second.first, sym(kv.second.second).c_str());
        printf("%llu runs %.1f/s, %.0f steps/run, %.1f checks/run\n", static_cast<unsigned long long>(n), static_cast<double>(n) / (wall() - t), static_cast<double>(steps) / static_cast<double>(n), static_cast<double>(checks) / static_cast<double>(n));
        return seen.empty() ? 0 : 1;
    }
    if (args[0] == "hashes") {       // for cross-process determinism diffs
        uint64_t n = strtoull(opt("n", "20").c_str(), nullptr, 10), s0 = strtoull(opt("seed", "1").c_str(), nullptr, 10);
        if (args.size() > 1 && args.back() == "--dirty") {           // a process with a past: other mappings, a used heap, stack garbage
            new_shared(); load_known(); uint64_t h = hash_str(sym("pc 401000 402000")); Opts o; jstr(std::string(5000, 'x'));
            volatile char* g = static_cast<volatile char*>(alloca(20000)); for (int i = 0; i < 20000; ++i) g[i] = static_cast<char>(h >> (i % 8 * 8));
        }
        shm = new_shared();
        for (auto& sc : scenarios()) for (uint64_t i = 0; i < n; ++i) {
            RunSpec spec; spec.seed = s0 + i;
            run_raw(sc, spec);
            printf("%s %llu %d %llx %llu\n", sc.name, static_cast<unsigned long long>(spec.seed), shm->status, static_cast<unsigned long long>(shm->log_hash), static_cast<unsigned long long>(shm->steps));
        }
        return 0;
    }
    if (args[0] == "check") {
        Opts o;
        o.prop = opt("prop", ""); o.tier = opt("tier", "quick"); o.seed = strtoull(opt("seed", "1").c_str(), nullptr, 10);
        o.runs = strtoull(opt("runs", "20000").c_str(), nullptr, 10); o.cap = atof(opt("cap", "300").c_str());
        o.jobs = atoi(opt("jobs", "8").c_str());
        o.evidence = opt("evidence", verif_dir + "/evidence/" + o.prop + ".json");
        return do_check(o);
    }
    return 2;
}
