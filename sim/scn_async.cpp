// The asynchronous sink: C06-C10, C21.
#include "h.h"

#include <chrono>

using namespace hs;
namespace {

struct AsyncOpts {
    int policy = 0;                     // 0 wait, 1 drop, 2 either
    double throw_p = 0;                 // wrapped sink throws
    bool alloc = false, attr_throw = false;
    bool gate = false;                  // drop: the wrapped sink is stuck while producers run
    bool jumps = false;
    bool early_destroy = false;         // destroy as soon as producers are done
};

const Probe P_FULL("async: a producer was delayed by a full queue"), P_DROP("async: an event was dropped"),
    P_DRAIN("async: the destructor had to drain events"), P_CFG("async: built from configuration"), P_CONC("async: two producers were inside emit at once"),
    P_EMPTYQ("async: destroyed with nothing queued"), P_WTHROW("async: the wrapped sink threw"), P_SECONDS("async: the wrapped sink took seconds per event"), P_EXACT("async: the wrapped sink took seconds per event while timers kept their order"),
    P_BIGQ("async: a queue of 64 events and more was filled"), P_NEST("async: an attribute function logged through the same sink"), P_DEFAULT("async: built with the builder's defaults");

void async_run(Ctx& c, const AsyncOpts& o) {
    auto& r = c.rng;
    const uint64_t salt = r.next();
    int nthreads = r.range(1, 4);
    size_t factor = static_cast<size_t>(r.chance(0.7) ? 2 : r.range(2, 4));
    size_t cap = size_t(1) << factor;
    int per = r.chance(0.5) ? r.range(1, 6) : r.range(4, 14);
    const bool big = r.chance(0.012);
    if (big) { factor = static_cast<size_t>(r.range(6, 8)); cap = size_t(1) << factor; nthreads = r.range(1, 3); per = (static_cast<int>(cap) + r.range(-8, 60)) / nthreads; sim::set_limits(30000000, 20000000, 600ull * 1000000000ull); }
    int klass = r.range(0, 2);
    bool drop = o.policy == 1 || (o.policy == 2 && r.chance(0.5));
    bool via_config = r.chance(0.4), chain = r.chance(0.5), via_logger = r.chance(0.5), two_sinks = r.chance(0.2) && via_logger;
    bool functions = r.chance(0.5), shared = r.chance(0.3);
    int maxattrs = r.chance(0.5) ? 0 : r.range(1, 4);
    if (r.chance(0.1)) maxattrs = 20;
    if (big) maxattrs = std::min(maxattrs, 1);
    const bool defaults = !via_config && !drop && r.chance(0.3);      // no policy is asked for: waiting
    const bool nested = functions && maxattrs && !o.alloc && !o.attr_throw && r.chance(0.3);
    double slow = r.chance(0.5) ? 0 : (r.chance(0.5) ? 0.2 : 0.9);
    sim::enable_fault(sim::F_SINK_SLOW, slow);
    if (o.throw_p > 0) sim::enable_fault(sim::F_SINK_THROW, r.chance(0.3) ? 1.0 : o.throw_p);
    if (o.alloc) sim::enable_fault(sim::F_ALLOC, r.chance(0.5) ? 0.02 : 0.1);
    if (o.attr_throw) { sim::enable_fault(sim::F_ATTR_THROW, 0.3); functions = true; if (!maxattrs) maxattrs = 3; }
    if (o.jumps) sim::enable_fault(sim::F_CLOCK_JUMP, 0.2);

    // generate
    std::vector<Event> ev;
    std::vector<std::vector<std::pair<uint32_t, int>>> prog(static_cast<size_t>(nthreads));   // op, event
    std::vector<int> pauses;
    for (int t = 0; t < nthreads; ++t) for (int k = 0; k < per; ++k) {
        Event e; e.id = static_cast<int>(ev.size()); e.thread = t; e.seq_in_thread = k; e.sev = r.range(-1, 5);
        e.text = event_text(salt, e.id, klass);
        e.own = gen_attrs(r, "a" + std::to_string(e.id) + "_", maxattrs, functions, shared);
        e.aux = r.range(0, H_COUNT - 1);
        vary_event(r, e);
        ev.push_back(e);
        pauses.push_back(r.chance(0.25) ? r.range(1, 4000) : 0);
        prog[static_cast<size_t>(t)].push_back({c.alloc_op(), e.id});
    }
    std::vector<int> pool;                // events that attribute functions log
    if (nested) for (int k = 0; k < 40; ++k) {
        Event e; e.id = static_cast<int>(ev.size()); e.sev = 1; e.text = event_text(salt, e.id, klass);
        e.own = gen_attrs(r, "n" + std::to_string(e.id) + "_", 2, functions, false);
        e.aux = r.range(0, H_COUNT - 1);
        ev.push_back(e); pool.push_back(e.id);
    }
    std::vector<uint64_t> delayed(ev.size());
    SinkState st[2]; FmtState fs;
    for (int i = 0; i < 2; ++i) { st[i].id = i; st[i].exclusive = true; st[i].want_thread_fixed = true; st[i].gate = o.gate; st[i].slow_ms = r.chance(0.5) ? 0.5 : 5; }
    if (nthreads * per <= 12 && r.chance(0.05)) {          // a wrapped sink that takes seconds
        P_SECONDS.hit();
        if (r.chance(0.5)) { P_EXACT.hit(); sim::exact_timers(); sim::set_limits(30000000, 20000000, 600ull * 1000000000ull); }
        st[0].slow_ms = st[1].slow_ms = r.range(1000, 9000);
        sim::enable_fault(sim::F_SINK_SLOW, r.chance(0.5) ? 1 : 0.5);
    }
    std::vector<SinkState*> states{&st[0], &st[1]};
    int nsinks = two_sinks ? 2 : 1;
    sim::sample("%d producers x %d events, capacity %zu, policy %s, via %s%s, slow %.1f, throw %.1f", nthreads, per, cap, drop ? "drop" : "wait",
        via_config ? "config" : "builder", via_logger ? " through a root logger" : " directly", slow, sim::fault_p(sim::F_SINK_THROW));

    std::unique_ptr<bh::root_logger_t> root;
    std::unique_ptr<bh::sink_t> sink;
    {
        LibScope ls;
        std::vector<std::unique_ptr<bh::sink_t>> sinks;
        if (via_config) {
            P_CFG.hit();
            auto reg = bh::registry::configured();
            add_flex_factory(*reg, &states);
            auto cfg = [&](int i) { return "{\"type\":\"asynchronous\",\"factor\":" + std::to_string(factor) + ",\"overflow\":\"" + (drop ? "drop" : "wait") + "\",\"sink\":{\"type\":\"flex\",\"id\":" + std::to_string(i) + "}}"; };
            if (via_logger) {
                std::string j = "{\"root\":[{\"type\":\"blocking\",\"formatter\":{\"type\":\"string\",\"pattern\":\"{message}\"},\"sinks\":[" + cfg(0) + (two_sinks ? "," + cfg(1) : "") + "]}]}";
                root = build_json(*reg, j);
            } else {
                std::istringstream is(cfg(0));
                auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
                sink = reg->sink("asynchronous")(f->config());
            }
        } else {
            for (int i = 0; i < nsinks; ++i) {
                if (defaults) {
                    P_DEFAULT.hit();
                    bh::builder<bh::sink::asynchronous_t> b(make_sink(&st[i]));
                    if (chain) b.drop().wait();
                    b.factor(2).factor(factor);
                    sinks.push_back(std::move(b).build());
                } else if (chain) {
                    if (drop) sinks.push_back(bh::builder<bh::sink::asynchronous_t>(make_sink(&st[i])).factor(factor).drop().build());
                    else sinks.push_back(bh::builder<bh::sink::asynchronous_t>(make_sink(&st[i])).factor(factor).wait().build());
                } else {
                    bh::builder<bh::sink::asynchronous_t> b(make_sink(&st[i]));
                    b.factor(factor);
                    if (drop) b.drop(); else b.wait();
                    sinks.push_back(std::move(b).build());
                }
            }
            if (via_logger) {
                bh::builder<bh::handler::blocking_t> hb;
                if (o.alloc || c.rng.chance(0.5)) hb.set(real_formatter()); else hb.set(make_formatter(&fs));
                for (auto& s : sinks) hb.add(std::move(s));
                root = bh::builder<bh::root_logger_t>().add(std::move(hb).build()).build();
            } else sink = std::move(sinks[0]);
        }
    }
    if (!via_logger) nsinks = 1;
    {   // process-wide one-time initialisation (thread-specific storage) happens here, so that waiting for
        // it is not mistaken for waiting for the queue
        LibScope ls;
        bh::root_logger_t warm({});
        warm.log(0, bh::string_view("warm"));
    }

    int inside = 0;
    std::vector<int> tids;
    nest_hook = nullptr;
    struct Unhook { ~Unhook() { nest_hook = nullptr; } } unhook;
    std::map<int, int> depth, nseq;
    size_t used = 0; unsigned turn = 0;
    if (nested) nest_hook = [&](int place) {
        if (place != N_ATTR || !depth.count(sim::self()) || depth[sim::self()] != 1 || used >= pool.size() || ++turn % 3) return;
        Event& e = ev[static_cast<size_t>(pool[used++])];
        e.thread = 200 + sim::self(); e.seq_in_thread = nseq[sim::self()]++;
        P_NEST.hit();
        depth[sim::self()]++;
        uint64_t d0 = sim::delays();
        try { if (via_logger) log_event(*root, e, e.aux, functions); else emit_event(*sink, e); }
        catch (...) { sim::violation("emit-threw", "logging event %d inside an attribute function threw", e.id); }
        delayed[static_cast<size_t>(e.id)] = sim::delays() - d0;
        depth[sim::self()]--;
    };
    for (int t = 0; t < nthreads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : prog[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = ev[static_cast<size_t>(p.second)];
            if (pauses[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(pauses[static_cast<size_t>(e.id)]) * 1000);
            uint64_t d0 = sim::delays();
            if (inside++) P_CONC.hit();
            depth[sim::self()] = 1;
            try {
                if (via_logger) log_event(*root, e, e.aux, functions); else emit_event(*sink, e);
            } catch (...) {
                inside--;
                bool allowed = o.alloc || o.attr_throw;
                if (!allowed) sim::violation("emit-threw", "logging event %d through an asynchronous sink threw", e.id);
                continue;
            }
            inside--;
            delayed[static_cast<size_t>(e.id)] = sim::delays() - d0;
        }
    }, "producer"));
    if (o.gate) { for (int t : tids) sim::join(t); tids.clear(); st[0].gate = st[1].gate = false; }
    for (int t : tids) sim::join(t);
    sim::enable_fault(sim::F_ALLOC, 0);
    sim::enable_fault(sim::F_ATTR_THROW, 0);
    // afterwards the sink must still work: a few more events from the main thread
    bool epilogue = (o.alloc || o.attr_throw || o.throw_p > 0) && r.chance(0.7);
    std::vector<int> epi;
    if (epilogue) {
        if (drop) sim::sleep_ns(2000000000ull);            // let the queue empty
        int n = static_cast<int>(drop ? 2 : cap + 2);
        size_t base = ev.size();
        ev.resize(base + static_cast<size_t>(n)); delayed.resize(ev.size());
        for (int k = 0; k < n; ++k) {
            Event& e = ev[base + static_cast<size_t>(k)]; e.id = static_cast<int>(base) + k; e.thread = 99; e.seq_in_thread = k; e.sev = 1;
            e.text = event_text(salt, e.id, 0);
            try { if (via_logger) log_event(*root, e, H_PLAIN); else emit_event(*sink, e); }
            catch (...) { sim::violation("emit-threw", "logging event %d after the faults stopped threw", e.id); }
            epi.push_back(e.id);
        }
    }
    if (r.chance(0.4)) sim::sleep_ns(static_cast<uint64_t>(r.range(1, 60)) * 100000);
    size_t before[2] = {st[0].log.size(), st[1].log.size()};
    uint64_t dseq = sim::seq();
    { LibScope ls; root.reset(); sink.reset(); }
    uint64_t dend = sim::seq();

    std::map<int, int64_t> stamp;
    std::set<int> excused;               // waiting is legitimate when either queue may have been full
    for (int i = 0; i < nsinks; ++i) {
        SinkState& s = st[i];
        if (!s.destroyed) sim::violation("sink-not-destroyed", "the asynchronous sink was destroyed but the wrapped sink %d was not", i);
        sim::count_check();
        std::map<int, int> cnt;
        for (auto& x : s.log) {
            if (x.id < 0 || static_cast<size_t>(x.id) >= ev.size()) sim::violation("foreign-event", "wrapped sink got text that no one emitted: '%s'", show(x.text).c_str());
            cnt[x.id]++;
            Event& e = ev[static_cast<size_t>(x.id)];
            if (!e.started) sim::violation("foreign-event", "event %d was never emitted but arrived", x.id);
            check_content(e, x, "content", true);
            check_meta(e, x);
            auto known = stamp.insert({x.id, x.ts});
            if (!known.second && known.first->second != x.ts) sim::violation("timestamp", "event %d has timestamp %lld ns in one sink and %lld ns in another", x.id, static_cast<long long>(known.first->second), static_cast<long long>(x.ts));
        }
        check_thread_order(ev, s.log, "order", "wrapped sink");
        if (s.log.size() > before[i]) P_DRAIN.hit(); else P_EMPTYQ.hit();
        if (s.nthrow) P_WTHROW.hit();
        // progress of the queue as far as it is visible
        std::vector<uint64_t> taken, begun;
        for (auto& x : s.log) { taken.push_back(x.enter); begun.push_back(ev[static_cast<size_t>(x.id)].begin); }
        if (big && begun.size() >= cap) P_BIGQ.hit();
        std::sort(begun.begin(), begun.end()); std::sort(taken.begin(), taken.end());
        auto possibly_full = [&](const Event& e) {
            size_t enq = static_cast<size_t>(std::lower_bound(begun.begin(), begun.end(), e.end) - begun.begin());
            size_t deq = static_cast<size_t>(std::lower_bound(taken.begin(), taken.end(), e.begin) - taken.begin());
            if (cnt.count(e.id)) --enq;
            return enq >= deq + cap;
        };
        for (auto& e : ev) {
            if (!e.started) continue;
            int k = cnt.count(e.id) ? cnt[e.id] : 0;
            sim::count_check();
            if (k > 1) sim::violation("duplicate", "event %d was written %d times to the wrapped sink", e.id, k);
            if (drop && delayed[static_cast<size_t>(e.id)]) sim::violation("drop-blocks", "event %d: emit with the drop policy put its caller to sleep", e.id);
            if (delayed[static_cast<size_t>(e.id)]) {
                P_FULL.hit();
                if (possibly_full(e)) excused.insert(e.id);
            }
            if (k == 0 && e.returned && (!e.throws || !via_logger)) {
                if (!drop) sim::violation("lost", "event %d of t%d (emit returned at %llu, destruction began at %llu and ended at %llu) never reached the wrapped sink", e.id, e.sim_tid, static_cast<unsigned long long>(e.end), static_cast<unsigned long long>(dseq), static_cast<unsigned long long>(dend));
                P_DROP.hit();
                if (!possibly_full(e)) sim::violation("dropped-not-full", "event %d was discarded although the queue (capacity %zu) cannot have been full", e.id, cap);
            }
            if (k == 1 && e.threw && !via_logger) sim::violation("threw-but-delivered", "event %d: emit threw but the event was delivered", e.id);
        }
        for (auto& x : s.log) if (x.seq > dend) sim::violation("late-delivery", "event %d delivered after the destructor returned", x.id);
        if (s.destroyed_seq > dend) sim::violation("sink-not-destroyed", "the wrapped sink outlives the asynchronous sink");
    }
    for (auto& e : ev) if (delayed[static_cast<size_t>(e.id)] && !excused.count(e.id)) sim::violation("needless-wait", "event %d: emit waited although the queue cannot have been full", e.id);
    if (sim::lib_threads_alive()) sim::violation("thread-leak", "a background thread is still alive after destruction");
}

void async_wait(Ctx& c) { AsyncOpts o; async_run(c, o); }
void async_meta(Ctx& c) { AsyncOpts o; o.policy = 2; o.jumps = true; async_run(c, o); }
void async_policy(Ctx& c) { AsyncOpts o; o.policy = 2; async_run(c, o); }
void async_gate(Ctx& c) { AsyncOpts o; o.policy = 1; o.gate = true; async_run(c, o); }
void async_throw(Ctx& c) { AsyncOpts o; o.policy = c.rng.chance(0.3) ? 1 : 0; o.throw_p = 0.3; async_run(c, o); }
void async_alloc(Ctx& c) { AsyncOpts o; o.policy = 2; o.alloc = c.rng.chance(0.7); o.attr_throw = !o.alloc || c.rng.chance(0.3); async_run(c, o); }

std::vector<int> probes() { return {P_FULL.id, P_DROP.id, P_DRAIN.id, P_CFG.id, P_CONC.id, P_EMPTYQ.id, P_WTHROW.id, P_SECONDS.id, P_EXACT.id, P_BIGQ.id, P_NEST.id, P_DEFAULT.id}; }
Register r1({"async_wait", "producers, waiting policy, slow wrapped sink, destruction", {{"C07", 6}, {"C08", 4}, {"C09", 1}}, async_wait, probes()});
Register r2({"async_meta", "record metadata seen on the background thread, with clock jumps", {{"C06", 3}, {"C07", 1}}, async_meta, probes()});
Register r3({"async_policy", "both overflow policies, builder call styles and configuration", {{"C09", 5}, {"C08", 3}}, async_policy, probes()});
Register r4({"async_gate", "drop policy while the wrapped sink is stuck", {{"C09", 3}, {"C08", 1}}, async_gate, probes()});
Register r5({"async_throw", "the wrapped sink throws anything at any event", {{"C10", 1}}, async_throw, probes()});
Register r6({"async_alloc", "allocation failures and throwing attribute functions inside emit", {{"C21", 2}}, async_alloc, probes()});
}  // namespace
