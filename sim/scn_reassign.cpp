// Live reassignment of a root logger and filter replacement: linearizability of the logger seen as an
// atomic register of (configuration, filter), plus lifetime of replaced configurations (C01, C02, C03).
#include "h.h"
#include <unordered_set>

using namespace hs;
namespace {

const Probe P_BURST("reassign: a filter was replaced many times in a row"), P_OLD("reassign: an event overlapped an assignment and used the old configuration"), P_NEW("reassign: an event overlapped an assignment and used the new configuration"),
    P_LATE("reassign: a replaced configuration was destroyed by a logging thread"), P_FREASS("reassign: a filter replacement overlapped an assignment"), P_QUIET("reassign: quiescent moments checked"),
    P_REENTER("reassign: a sink logged from its destructor"), P_SCOPED("reassign: the assigning thread had an open scope"), P_MOVED("reassign: assigned from a logger with an open scope"), P_KEPT("reassign: the logger assigned from lived on"), P_BYE("reassign: what a replaced filter owned logged from its destructor"), P_BYESLOW("reassign: a replaced filter took long to destroy");

struct Gen;                               // a filter generation
struct World;
struct Gen { World* w; int id, threshold; long live = 0; int calls_after = 0; int bye_event = -1; bool bye_slow = false; };
struct Config { int id; Gen* init; std::vector<std::unique_ptr<SinkState>> sinks; bool built = false, assigned = false; int alive = 0; };
struct Op { int kind; /*0 event 1 assign 2 filter*/ uint64_t begin = 0, end = 0; int cfg = -1, gen = -1; bool done = false; int event = -1; };
struct World {
    std::vector<Event> ev; std::vector<std::unique_ptr<Gen>> gens; std::vector<std::unique_ptr<Config>> cfgs;
    std::vector<Op> ops; std::unique_ptr<bh::root_logger_t> log; int inflight = 0; uint64_t salt = 0; bool reenter = false;
    int spare = 0;
    std::map<int, int> kept;              // configurations that a logger assigned from still refers to
};

void bye(Gen* g);
struct Bye { Gen* g; explicit Bye(Gen* g) : g(g) {} ~Bye() { HarnessScope h; bye(g); } };   // something a filter owns
struct Filter {
    Gen* g; std::shared_ptr<Bye> owned;
    explicit Filter(Gen* g) : g(g) { ++g->live; if (g->bye_slow || g->bye_event >= 0) owned = std::make_shared<Bye>(g); }
    Filter(const Filter& o) : g(o.g), owned(o.owned) { ++g->live; }
    ~Filter() { --g->live; }
    bool operator()(const bh::record_t& rec) const {
        sim::touch_read(this, sizeof *this);
        int sev = rec.severity();
        HarnessScope h;
        if (g->live <= 0) sim::violation("use-after-destroy", "filter generation %d is called after its destruction", g->id);
        sim::yield();
        Event* e = current_event();
        bool ok = sev >= g->threshold;
        if (e) { e->filter_calls++; e->fgen = g->id; e->accepted = ok; }
        return ok;
    }
};

bh::root_logger_t build(Config& k) {      // library mode
    std::vector<std::unique_ptr<bh::handler_t>> hs_;
    for (size_t i = 0; i < k.sinks.size(); i += 2) {
        bh::builder<bh::handler::blocking_t> hb;
        hb.set(real_formatter());
        hb.add(make_sink(k.sinks[i].get()));
        if (i + 1 < k.sinks.size()) hb.add(make_sink(k.sinks[i + 1].get()));
        hs_.push_back(std::move(hb).build());
    }
    k.alive = static_cast<int>(k.sinks.size()); k.built = true;
    return bh::root_logger_t(Filter(k.init), std::move(hs_));
}

// ------------------------------------------------------------------ linearizability (Wing & Gong with memoisation)
struct Lin {
    const std::vector<Op>& ops; size_t n;
    std::unordered_set<std::string> seen;
    uint64_t nodes = 0;
    static constexpr uint64_t LIMIT = 300000;
    explicit Lin(const std::vector<Op>& o) : ops(o), n(o.size()) {}
    bool dfs(std::vector<bool>& done, size_t left, int cfg, int gen) {
        if (!left) return true;
        if (++nodes > LIMIT) return true;               // inconclusive: never an alarm
        std::string key; key.reserve(n + 8);
        for (size_t i = 0; i < n; ++i) key += done[i] ? '1' : '0';
        key += std::to_string(cfg) + "," + std::to_string(gen);
        if (!seen.insert(key).second) return false;
        uint64_t min_end = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!done[i]) min_end = std::min(min_end, ops[i].end);
        // events that match are always safe to take first (they do not change the state)
        for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < n; ++i) {
            if (done[i] || ops[i].begin > min_end) continue;
            const Op& o = ops[i];
            if (pass == 0) {
                if (o.kind != 0 || (o.cfg >= 0 && o.cfg != cfg) || o.gen != gen) continue;
                done[i] = true; bool ok = dfs(done, left - 1, cfg, gen); done[i] = false;
                return ok;
            }
            if (o.kind == 0) continue;
            done[i] = true;
            bool ok = o.kind == 1 ? dfs(done, left - 1, o.cfg, o.gen) : dfs(done, left - 1, cfg, o.gen);
            done[i] = false;
            if (ok) return true;
        }
        return false;
    }
};

void do_event(World& w, Event& e, int how) {
    w.ops.emplace_back(); size_t oi = w.ops.size() - 1;
    w.ops[oi].kind = 0; w.ops[oi].event = e.id;
    w.inflight++;
    e.filter_calls = 0; e.fgen = -1;
    try { log_event(*w.log, e, how, false); } catch (...) { sim::violation("log-threw", "logging event %d threw", e.id); }
    w.inflight--;
    Op& o = w.ops[oi]; o.begin = e.begin; o.end = e.end; o.gen = e.fgen; o.done = true;
}
void bye(Gen* g) {
    World& w = *g->w;
    if (g->bye_slow) { P_BYESLOW.hit(); sim::sleep_ns(50000); }
    if (g->bye_event >= 0 && w.log) { Event& e = w.ev[static_cast<size_t>(g->bye_event)]; g->bye_event = -1; P_BYE.hit(); do_event(w, e, H_PLAIN); }
}
void quiet(World& w) {
    if (w.inflight || w.spare) return;
    P_QUIET.hit(); sim::count_check();
    int alive = 0;
    for (auto& k : w.cfgs) if (k->built && k->alive) ++alive;
    const Op* last = nullptr; bool clear = true;
    for (auto& o : w.ops) if (o.kind == 1 && (!last || o.end > last->end)) last = &o;
    for (auto& o : w.ops) if (o.kind == 1 && &o != last && o.end >= last->begin) clear = false;
    for (auto& k : w.cfgs) if (k->built && k->alive && w.kept[k->id]) { if (clear && last->cfg != k->id) --alive; else if (!clear) return; }
    if (alive != 1) sim::violation("not-destroyed", "no call is in progress but %d configurations are alive", alive);
    if (clear && !w.cfgs[static_cast<size_t>(last->cfg)]->alive) sim::violation("not-destroyed", "the current configuration %d is not the one alive", last->cfg);
}

struct Params { bool filters, assigns, scoped, reenter; };
void run(Ctx& c, const Params& p) {
    auto& r = c.rng;
    World w; w.salt = r.next(); w.reenter = p.reenter;
    int nlog = r.range(1, 3), nassign = p.assigns ? r.range(1, 2) : 0, nfilter = p.filters ? r.range(1, 2) : 0;
    int ncfg = 1 + (nassign ? r.range(1, 5) : 0), ngen = nfilter ? r.range(1, 5) : 0;
    int klass = r.range(0, 1);
    for (int i = 0; i < ncfg; ++i) {
        w.gens.emplace_back(new Gen{&w, static_cast<int>(w.gens.size()), r.chance(0.7) ? r.range(-1, 2) : r.range(3, 7)});
        w.cfgs.emplace_back(new Config); Config& k = *w.cfgs.back(); k.id = i; k.init = w.gens.back().get();
        int ns = r.range(1, 3);
        for (int s = 0; s < ns; ++s) { k.sinks.emplace_back(new SinkState); k.sinks.back()->id = i * 10 + s; k.sinks.back()->config = i; }
    }
    int first_free = static_cast<int>(w.gens.size());
    for (int i = 0; i < ngen; ++i) w.gens.emplace_back(new Gen{&w, static_cast<int>(w.gens.size()), r.range(-1, 4)});
    if (r.chance(0.3)) sim::enable_fault(sim::F_SINK_SLOW, 0.2);
    int per = r.range(1, 6);
    struct Step { uint32_t op; int event; int how; int pause; int depth = 1; bool keep = false; int burst = 1; };
    std::vector<std::vector<Step>> prog(static_cast<size_t>(nlog));
    auto new_event = [&](int thread, int k) { Event e; e.id = static_cast<int>(w.ev.size()); e.thread = thread; e.seq_in_thread = k; e.sev = r.range(0, 3); e.text = event_text(w.salt, e.id, klass); if (r.chance(0.3)) e.own = gen_attrs(r, "a" + std::to_string(e.id) + "_", 3, false); w.ev.push_back(e); return e.id; };
    w.ev.reserve(200); w.ops.reserve(200);
    for (int t = 0; t < nlog; ++t) for (int k = 0; k < per; ++k) { int id = new_event(t, k); prog[static_cast<size_t>(t)].push_back({c.alloc_op(), id, r.range(0, H_COUNT - 1), r.chance(0.15) ? r.range(1, 3000) : 0}); }
    std::vector<std::vector<Step>> aprog(static_cast<size_t>(nassign)), fprog(static_cast<size_t>(nfilter));
    for (int i = 1; i < ncfg; ++i) aprog[static_cast<size_t>(r.range(0, nassign - 1))].push_back({c.alloc_op(), i, r.range(0, 3), r.chance(0.3) ? r.range(1, 3000) : 0, 1, r.chance(0.25)});
    for (int i = 0; i < ngen; ++i) fprog[static_cast<size_t>(r.range(0, nfilter - 1))].push_back({c.alloc_op(), first_free + i, 0, r.chance(0.3) ? r.range(1, 3000) : 0});
    // Many replacements in a row, as many as it takes for a small counter of them to come round (nobody else may replace in between).
    if (nfilter == 1 && !nassign && r.chance(0.4)) for (auto& s : fprog[0]) if (r.chance(0.5)) { static const int n[] = {2, 16, 128, 255, 256, 256, 257, 512}; s.burst = n[r.below(8)]; }
    // events logged by sinks from their destructor or by assigning threads
    std::map<int, int> dtor_event; std::map<int, int> after_event;
    for (int i = 0; i < ncfg; ++i) { if (p.reenter && r.chance(0.6)) dtor_event[i] = new_event(100 + i, 0); if (r.chance(0.5)) after_event[i] = new_event(200 + i, 0); }
    if (!p.scoped && r.chance(0.4)) for (auto& g : w.gens) { if (r.chance(0.5)) g->bye_event = new_event(400 + g->id, 0); if (r.chance(0.3)) g->bye_slow = true; }
    bool scoped = p.scoped && r.chance(0.6);
    bool from_scoped = p.scoped && r.chance(scoped ? 0.2 : 0.8);
    if (from_scoped) for (auto& v : aprog) for (auto& st : v) { st.depth = r.range(1, 4); for (int d = 0; d < st.depth; ++d) if (r.chance(0.7)) after_event[1000 * (d + 1) + st.event] = new_event(200 + st.event, st.depth - d); }
    sim::sample("%d logging threads x %d events, %d assignments by %d threads, %d filter replacements by %d threads%s%s", nlog, per, ncfg - 1, nassign, ngen, nfilter, p.reenter ? ", sinks log while being destroyed" : "", scoped ? ", scopes open" : "");

    for (auto& k : w.cfgs) for (auto& s : k->sinks) {
        Config* kp = k.get();
        s->on_destroy = [&w, kp, &dtor_event, &nlog] {
            if (--kp->alive == 0) {
                if (sim::self() >= 1 && sim::self() <= nlog) P_LATE.hit();
                auto it = dtor_event.find(kp->id);
                if (it != dtor_event.end() && w.log && w.inflight >= 0 && kp->assigned) {
                    P_REENTER.hit();
                    Event& e = w.ev[static_cast<size_t>(it->second)];
                    do_event(w, e, H_PLAIN);
                }
            }
        };
    }
    { LibScope ls; w.log.reset(new bh::root_logger_t(build(*w.cfgs[0]))); }
    w.cfgs[0]->assigned = true;
    Op init; init.kind = 1; init.begin = init.end = sim::seq(); init.cfg = 0; init.gen = w.cfgs[0]->init->id; init.done = true;
    w.ops.push_back(init);

    std::vector<int> tids;
    for (int t = 0; t < nlog; ++t) tids.push_back(sim::spawn([&, t] {
        Attrs sa; bool with = scoped && (t & 1);
        if (with) { Attr a; a.name = "scope_of_" + std::to_string(t); a.kind = 5; a.s = "v" + std::to_string(t); sa.push_back(a); }
        auto body = [&] {
            for (auto& s : prog[static_cast<size_t>(t)]) {
                if (!c.begin_op(s.op)) continue;
                if (s.pause) sim::sleep_ns(static_cast<uint64_t>(s.pause) * 1000);
                Event& e = w.ev[static_cast<size_t>(s.event)];
                if (with) e.scopes = {sa};
                do_event(w, e, s.how);
                quiet(w);
            }
        };
        if (with) { LibScope ls; bh::scope::holder_t h(*w.log, owned_attrs(sa)); HarnessScope hs_; body(); }
        else body();
    }, "logger"));
    for (int t = 0; t < nassign; ++t) tids.push_back(sim::spawn([&, t] {
        Attrs sa; Attr a; a.name = "scope_of_assigner"; a.kind = 5; a.s = std::to_string(t); sa.push_back(a);
        Attrs sb; Attr b; b.name = "scope_of_fresh"; b.kind = 5; b.s = std::to_string(t); sb.push_back(b);
        std::vector<std::pair<int, std::unique_ptr<bh::root_logger_t>>> kept;     // loggers assigned from that live on for a while
        auto body = [&](bool with) {
            for (auto& s : aprog[static_cast<size_t>(t)]) {
                if (!c.begin_op(s.op)) continue;
                if (s.pause) sim::sleep_ns(static_cast<uint64_t>(s.pause) * 1000);
                Config& k = *w.cfgs[static_cast<size_t>(s.event)];
                w.ops.emplace_back(); size_t oi = w.ops.size() - 1;
                w.inflight++;
                w.ops[oi].kind = 1; w.ops[oi].cfg = k.id; w.ops[oi].gen = k.init->id;
                {
                    LibScope ls;
                    if (s.keep) {
                        std::unique_ptr<bh::root_logger_t> fresh(new bh::root_logger_t(build(k)));
                        { HarnessScope h; w.ops[oi].begin = sim::seq(); k.assigned = true; w.kept[k.id]++; P_KEPT.hit(); }
                        *w.log = std::move(*fresh);
                        HarnessScope h; w.ops[oi].end = sim::seq();
                        kept.emplace_back(k.id, std::move(fresh));
                    } else if (s.how == 0) {
                        bh::root_logger_t fresh = build(k);
                        { HarnessScope h; w.ops[oi].begin = sim::seq(); k.assigned = true; }
                        *w.log = std::move(fresh);
                        HarnessScope h; w.ops[oi].end = sim::seq();
                    } else if (s.how == 1 && from_scoped && !with) {
                        // scopes are open on the source; they go along and close on the target, innermost first
                        std::unique_ptr<bh::root_logger_t> fresh(new bh::root_logger_t(build(k)));
                        std::vector<std::unique_ptr<bh::scope::holder_t>> holders;
                        std::vector<Attrs> open;
                        for (int d = 0; d < s.depth; ++d) {
                            { HarnessScope h; Attrs x = sb; x[0].name += std::to_string(d); open.insert(open.begin(), x); }
                            holders.emplace_back(new bh::scope::holder_t(*fresh, owned_attrs(open.front())));
                        }
                        { HarnessScope h; w.ops[oi].begin = sim::seq(); k.assigned = true; P_MOVED.hit(); }
                        *w.log = std::move(*fresh);
                        fresh.reset();
                        { HarnessScope h; w.ops[oi].end = sim::seq(); w.ops[oi].done = true; }
                        for (int d = s.depth; d >= 0; --d) {
                            { HarnessScope h;
                              auto it = d == s.depth ? after_event.find(k.id) : after_event.find(1000 * (d + 1) + k.id);
                              if (it != after_event.end()) { Event& e = w.ev[static_cast<size_t>(it->second)]; e.scopes = open; do_event(w, e, H_PLAIN); after_event.erase(it); } }
                            if (d > 0) { holders.pop_back(); HarnessScope h; open.erase(open.begin()); }
                        }
                    } else {
                        bh::root_logger_t tmp = build(k);
                        { HarnessScope h; w.ops[oi].begin = sim::seq(); k.assigned = true; }
                        *w.log = bh::root_logger_t(std::move(tmp));
                        HarnessScope h; w.ops[oi].end = sim::seq();
                    }
                }
                w.inflight--; w.ops[oi].done = true;
                quiet(w);
                auto it = after_event.find(k.id);
                if (it != after_event.end()) { Event& e = w.ev[static_cast<size_t>(it->second)]; if (with) e.scopes = {sa}; do_event(w, e, H_PLAIN); quiet(w); }
                if (!kept.empty() && !s.keep) {
                    w.inflight++;
                    for (auto& kv : kept) { { LibScope ls; kv.second.reset(); } w.kept[kv.first]--; }
                    w.inflight--;
                    kept.clear();
                    quiet(w);
                }
            }
            for (auto& kv : kept) { w.inflight++; { LibScope ls; kv.second.reset(); } w.kept[kv.first]--; w.inflight--; }
            kept.clear();
        };
        if (scoped) { P_SCOPED.hit(); LibScope ls; bh::scope::holder_t h(*w.log, owned_attrs(sa)); HarnessScope hs_; body(true); }
        else body(false);
    }, "assigner"));
    for (int t = 0; t < nfilter; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& s : fprog[static_cast<size_t>(t)]) {
            if (!c.begin_op(s.op)) continue;
            if (s.pause) sim::sleep_ns(static_cast<uint64_t>(s.pause) * 1000);
            w.ops.emplace_back(); size_t oi = w.ops.size() - 1;
            w.inflight++;
            w.ops[oi].kind = 2; w.ops[oi].gen = s.event; w.ops[oi].begin = sim::seq();
            if (s.burst > 1) P_BURST.hit();
            for (int k = 0; k < s.burst; ++k) { LibScope ls; w.log->filter(Filter(w.gens[static_cast<size_t>(s.event)].get())); }
            w.ops[oi].end = sim::seq(); w.ops[oi].done = true;
            w.inflight--;
            quiet(w);
        }
    }, "filterer"));
    for (int t : tids) sim::join(t);
    sim::disable_faults();
    { int id = static_cast<int>(w.ev.size()); Event e; e.id = id; e.thread = 300; e.sev = 9; e.text = event_text(w.salt, id, 0); w.ev.push_back(e); do_event(w, w.ev.back(), H_PLAIN); }
    quiet(w);
    {   // the logger goes away
        std::unique_ptr<bh::root_logger_t> last = std::move(w.log);
        LibScope ls; last.reset();
    }
    for (auto& k : w.cfgs) if (k->built) {
        if (k->alive) sim::violation("not-destroyed", "configuration %d outlives the logger", k->id);
    }
    for (auto& g : w.gens) if (g->live) sim::violation("filter-leak", "%ld copies of filter generation %d outlive the logger", g->live, g->id);

    // ------------------------------------------------------------ which configuration processed what
    std::map<int, std::map<int, int>> got;                     // event -> sink -> count
    for (auto& k : w.cfgs) for (auto& s : k->sinks) {
        for (auto& x : s->log) {
            if (x.id < 0 || static_cast<size_t>(x.id) >= w.ev.size() || !w.ev[static_cast<size_t>(x.id)].started) sim::violation("foreign-event", "sink %d got text that no one logged: '%s'", s->id, show(x.text).c_str());
            check_content(w.ev[static_cast<size_t>(x.id)], x, "content", true);
            check_meta(w.ev[static_cast<size_t>(x.id)], x);
            got[x.id][s->id]++;
        }
        check_thread_order(w.ev, s->log, "order", "sink");
    }
    for (auto& o : w.ops) if (o.kind == 0) {
        Event& e = w.ev[static_cast<size_t>(o.event)];
        sim::count_check();
        if (e.filter_calls != 1) sim::violation("filter-calls", "event %d was judged by %d filters", e.id, e.filter_calls);
        o.gen = e.fgen;
        int cfg = -1;
        for (auto& kv : got[e.id]) {
            int k = kv.first / 10;
            if (cfg >= 0 && k != cfg) sim::violation("mixture", "event %d was processed by configurations %d and %d", e.id, cfg, k);
            if (kv.second != 1) sim::violation("duplicate", "event %d reached sink %d %d times", e.id, kv.first, kv.second);
            cfg = k;
        }
        if (!e.accepted && cfg >= 0) sim::violation("rejected-delivered", "event %d was rejected but reached configuration %d", e.id, cfg);
        if (e.accepted && cfg < 0) sim::violation("lost", "event %d was accepted by filter generation %d but reached no handler", e.id, e.fgen);
        if (cfg >= 0 && got[e.id].size() != w.cfgs[static_cast<size_t>(cfg)]->sinks.size()) sim::violation("mixture", "event %d reached %zu of %zu sinks of configuration %d", e.id, got[e.id].size(), w.cfgs[static_cast<size_t>(cfg)]->sinks.size(), cfg);
        if (e.how == H_LAZY && e.accepted && e.supplied != 1) sim::violation("supplied", "the message of accepted event %d was computed %d times", e.id, e.supplied);
        if (!e.accepted && e.supplied) sim::violation("supplied", "the message of rejected event %d was computed", e.id);
        o.cfg = cfg;
    }
    // rejected events (the configuration is unknown unless its own filter judged them) match any
    for (auto& o : w.ops) if (o.kind == 0 && o.cfg < 0) for (auto& k : w.cfgs) if (k->init->id == o.gen) o.cfg = k->id;
    for (auto& o : w.ops) if (o.kind == 0) for (auto& q : w.ops) if (q.kind == 1 && q.begin < o.end && o.begin < q.end) { if (q.cfg == o.cfg) P_NEW.hit(); else P_OLD.hit(); }
    for (auto& o : w.ops) if (o.kind == 2) for (auto& q : w.ops) if (q.kind == 1 && q.begin < o.end && o.begin < q.end) P_FREASS.hit();
    std::vector<Op> hist;
    for (auto& o : w.ops) if (o.done) hist.push_back(o);
    std::vector<bool> done(hist.size(), false);
    Lin lin(hist);
    sim::count_check();
    if (!lin.dfs(done, hist.size(), -1, -1)) {
        std::string d;
        std::sort(hist.begin(), hist.end(), [](const Op& a, const Op& b) { return a.begin < b.begin; });
        for (auto& o : hist) { char b[120]; snprintf(b, sizeof b, "%s[%llu,%llu] cfg %d filter %d; ", o.kind == 0 ? "event" : o.kind == 1 ? "assign" : "filter", static_cast<unsigned long long>(o.begin), static_cast<unsigned long long>(o.end), o.cfg, o.gen); d += b; }
        sim::violation("not-linearizable", "no order of assignments, filter replacements and events explains the history: %s", d.c_str());
    }
}

void reassign(Ctx& c) { run(c, {c.rng.chance(0.3), true, false, c.rng.chance(0.3)}); }
void refilter(Ctx& c) { run(c, {true, c.rng.chance(0.7), false, false}); }
void rescope(Ctx& c) { run(c, {false, true, true, false}); }
std::vector<int> probes() { return {P_OLD.id, P_NEW.id, P_LATE.id, P_FREASS.id, P_QUIET.id, P_REENTER.id, P_SCOPED.id, P_MOVED.id, P_KEPT.id, P_BYE.id, P_BYESLOW.id, P_BURST.id}; }
Register r1({"root_reassign", "threads log while others move-assign new configurations", {{"C02", 5}, {"C03", 1}, {"C01", 1}}, reassign, probes()});
Register r2({"root_refilter", "threads log while others replace the filter and the configuration", {{"C03", 5}, {"C02", 1}, {"C01", 1}}, refilter, probes()});
Register r3({"root_rescope", "reassignment while scopes are open in logging and assigning threads", {{"C05", 1}}, rescope, probes()});
}  // namespace
