// The root logger: delivery, filters, scopes, wrappers, failing handlers (C01, C04, C05, C06, C21).
#include "h.h"

using namespace hs;
namespace {

const Probe P_REJ("root: an event was rejected"), P_LAZY("root: a lazy message was computed"), P_SCOPE2("root: an event carried two or more scopes"),
    P_EXC("root: a scope was left by an exception"), P_WRAP("root: an event went through nested wrappers"), P_HFAIL("root: a handler failed"),
    P_CONC("root: two threads were inside log calls at once"), P_THREW("root: a log call threw"), P_OTHER("root: scopes of two loggers were open at once"),
    P_NEST("root: an event was logged from inside a log call"), P_FORK("root: events of a forked child"), P_MOVE("root: a logger with open scopes was moved"), P_COMMON("root: threads shared a wrapper"), P_COPY("root: an event went through the copy of a wrapper"), P_SWAP("root: two loggers were swapped while scopes were open"), P_BACK("root: a logger was moved away and back while scopes were open"), P_REBORN("root: a moved-from logger with open scopes was assigned anew"), P_SHADOW("root: one event carried the same attribute name twice"), P_DEEP("root: more than a dozen scopes were open"), P_MANY("root: a logger with many handlers"), P_FATTR("root: a filter looked at the attributes");

struct Opts {
    bool scopes = false, wrappers = true, handler_fail = false, user_throw = false, alloc = false, attr_throw = false, jumps = false, two_loggers = false, nest = false, fork = false, moves = false;
};

struct FilterState { bool attrs = false; int id = 0, threshold = -100; long live = 0; };
struct Filter {
    FilterState* st;
    explicit Filter(FilterState* s) : st(s) { ++st->live; }
    Filter(const Filter& o) : st(o.st) { ++st->live; }
    ~Filter() { --st->live; }
    bool operator()(const bh::record_t& rec) const {
        sim::touch_read(this, sizeof *this);
        int sev = rec.severity();
        HarnessScope h;
        sim::AllocFaults noaf(false);
        if (st->live <= 0) sim::violation("use-after-destroy", "filter %d is called after its destruction", st->id);
        sim::yield();
        Event* e = current_event();
        if (e && st->attrs) {
            std::vector<std::vector<std::string>> seen;
            { LibScope ls; seen = capture_attributes(rec, false); }
            P_FATTR.hit();
            check_attrs(*e, seen, "content", "the filter", false);
        }
        if (e) {
            e->filter_calls++; e->fgen = st->id;
            if (sev != e->sev) sim::violation("foreign-event", "the filter called for event %d sees severity %d instead of %d", e->id, sev, e->sev);
        }
        if (int64_t t = sim::fault(sim::F_FILTER_THROW, 4)) throw_user(static_cast<int>(t), "filterboom");
        if (nest_hook) nest_hook(N_FILTER);
        bool ok = sev >= st->threshold;
        if (e) e->accepted = ok;
        return ok;
    }
};

struct Node { int kind = 0, logger = 0, event = -1, how = 0, via = 0, pause = 0; bool exc = false; Attrs attrs; uint32_t op = 0; std::vector<Node> kids; };

struct World {
    Opts o;
    std::vector<Event> ev;
    std::unique_ptr<bh::root_logger_t> log[3];            // the third one is a moved-from logger that was assigned anew
    FilterState fs[3]; bool filtered[3] = {false, false, false}; bool reborn = false;
    struct H { int logger; FmtState* fmt; std::vector<SinkState*> sinks; };
    std::vector<H> handlers;
    std::vector<std::unique_ptr<SinkState>> sinks; std::vector<std::unique_ptr<FmtState>> fmts;
    int inside = 0; bool functions = false, shared = false;
    struct Nest { int place, event, logger, how, via; bool fired; };
    std::map<int, std::vector<Nest>> nests;               // by outer event
    std::map<int, int> nest_seq;
    std::unique_ptr<bh::wrapper_t> common; Attrs common_attrs;   // a wrapper that all threads use
    std::map<int, struct Exec*> exec;                     // by simulated thread
};

void gen_nested(Ctx& c, World& w, int outer, int thread, int depth, uint64_t salt, int klass) {
    auto& r = c.rng;
    if (!w.o.nest || !r.chance(depth == 1 ? 0.5 : 0.2)) return;
    for (int k = r.range(1, 2); k > 0; --k) {
        World::Nest n; n.place = r.range(0, N_PLACES - 1); n.logger = w.o.two_loggers ? r.range(0, 1) : 0; n.how = r.range(0, H_COUNT - 1); n.via = r.range(0, 3); n.fired = false;
        Event e; e.id = static_cast<int>(w.ev.size()); e.thread = thread + 1000 * depth; e.sev = r.range(-1, 5);
        e.text = event_text(salt, e.id, klass); e.own = gen_attrs(r, "n" + std::to_string(e.id) + "_", 3, w.functions, w.shared); e.aux = n.logger;
        vary_event(r, e);
        n.event = e.id;
        w.ev.push_back(e); w.nests[outer].push_back(n);
        if (depth < 2) gen_nested(c, w, e.id, thread, depth + 1, salt, klass);
    }
}


void gen(Ctx& c, World& w, std::vector<Node>& out, int depth, int thread, int& budget, int& seqno, uint64_t salt, int klass, int maxattrs) {
    auto& r = c.rng;
    int n = r.range(1, depth == 0 ? 6 : 3);
    for (int i = 0; i < n && budget > 0; ++i) {
        Node nd;
        nd.logger = w.o.two_loggers && r.chance(0.3) ? 1 : 0;
        int what = r.range(0, 9);
        if (w.o.moves && r.chance(0.25)) nd.kind = 3;
        else if (w.o.scopes && depth < 6 && what < 4) { nd.kind = 1; nd.exc = r.chance(0.25); }
        else if (w.o.wrappers && depth < 4 && what < (w.o.scopes ? 6 : 3)) nd.kind = 2;
        if (nd.kind == 3) {
            nd.how = r.range(0, 4);
            if (nd.how == 4) { Event e; e.id = static_cast<int>(w.ev.size()); e.thread = 700; e.sev = r.range(0, 5); e.text = event_text(salt, e.id, klass); e.aux = 2; nd.event = e.id; w.ev.push_back(e); }
            out.push_back(nd); continue;
        }
        if (nd.kind) {
            char p[32]; snprintf(p, sizeof p, "%c%d_%d_%d_", nd.kind == 1 ? 's' : 'w', thread, seqno, depth);
            nd.attrs = gen_attrs(r, p, r.chance(0.05) ? 20 : 3, false, w.shared);
            if (nd.kind == 2) nd.how = r.chance(0.3) ? r.range(1, 2) : 0;
            Node* in = &nd;
            if (nd.kind == 1 && depth < 2 && r.chance(0.06)) {                   // more scopes than the library keeps without allocating
                P_DEEP.hit();
                for (int k = r.range(12, 24); k > 0; --k) {
                    Node x; x.kind = 1; x.logger = nd.logger;
                    snprintf(p, sizeof p, "d%d_%d_%d_", thread, seqno, k);
                    x.attrs = gen_attrs(r, p, 2, false, w.shared);
                    in->kids.push_back(x); in = &in->kids.back();
                }
            }
            gen(c, w, in->kids, depth + 1, thread, budget, seqno, salt, klass, maxattrs);
        } else {
            Event e; e.id = static_cast<int>(w.ev.size()); e.thread = thread; e.seq_in_thread = seqno++; e.sev = r.range(-1, 5);
            e.text = event_text(salt, e.id, klass);
            e.own = gen_attrs(r, "a" + std::to_string(e.id) + "_", maxattrs, w.functions, w.shared);
            nd.event = e.id; nd.how = r.range(0, H_COUNT - 1); nd.via = r.range(0, 3); nd.op = c.alloc_op();
            nd.pause = r.chance(0.1) ? r.range(1, 3000) : 0;
            e.aux = nd.logger;
            vary_event(r, e);
            w.ev.push_back(e); --budget;
            gen_nested(c, w, e.id, thread, 1, salt, klass);
        }
        out.push_back(nd);
    }
}

struct Exec {
    Ctx& c; World& w;
    std::vector<Attrs> scopes[3];                          // most recently opened first
    std::vector<std::pair<bh::logger_t*, Attrs>> chain[3]; // wrappers, innermost last
    Exec(Ctx& c, World& w) : c(c), w(w) { if (w.common) { P_COMMON.hit(); chain[0].push_back({w.common.get(), w.common_attrs}); } }
    bh::logger_t& cur(int l, int via) {
        if (via == 0 || chain[l].empty()) return *w.log[l];
        size_t i = via >= static_cast<int>(chain[l].size()) ? chain[l].size() - 1 : static_cast<size_t>(via) - 1;
        return *chain[l][i].first;
    }
    void run(const std::vector<Node>& nodes) {
        for (auto& nd : nodes) {
            if (nd.kind == 0) { log(nd); continue; }
            int l = nd.logger;
            if (nd.kind == 3) { move(l, nd); continue; }
            if (nd.kind == 1) {
                scopes[l].insert(scopes[l].begin(), nd.attrs);
                if (!scopes[0].empty() && !scopes[1].empty()) P_OTHER.hit();
                struct Pop { std::vector<Attrs>& v; ~Pop() { v.erase(v.begin()); } };
                try {
                    LibScope ls;
                    bh::scope::holder_t h(cur(l, static_cast<int>(nd.attrs.size()) & 3), owned_attrs(nd.attrs));
                    {
                        HarnessScope hs_;
                        Pop pop{scopes[l]};
                        run(nd.kids);
                        if (nd.exc) { P_EXC.hit(); throw_user(3, ""); }
                    }
                } catch (const Alien&) {}
            } else {
                LibScope ls;
                std::unique_ptr<bh::wrapper_t> wr(new bh::wrapper_t(cur(l, 9), owned_attrs(nd.attrs)));
                if (nd.how == 1 || nd.how == 2) {          // the original is gone before the copy is used
                    std::unique_ptr<bh::wrapper_t> other(nd.how == 1 ? new bh::wrapper_t(*wr) : new bh::wrapper_t(std::move(*wr)));
                    wr = std::move(other);
                }
                HarnessScope hs_;
                if (nd.how == 1 || nd.how == 2) P_COPY.hit();
                chain[l].push_back({wr.get(), nd.attrs});
                run(nd.kids);
                chain[l].pop_back();
            }
        }
    }
    // The logger moves to another object; scopes of this (the only) thread go along. Wrappers refer to
    // the logger object itself, so none may be in use.
    void move(int l, const Node& nd) {
        if (!chain[l].empty()) return;
        const bool open = !scopes[0].empty() || !scopes[1].empty();
        if (nd.how == 2 && w.o.two_loggers && chain[0].empty() && chain[1].empty()) {
            if (open) P_SWAP.hit();
            LibScope ls;
            std::swap(*w.log[0], *w.log[1]);
            w.log[0].swap(w.log[1]);
            return;
        }
        if (nd.how == 3) {
            if (open) P_BACK.hit();
            LibScope ls;
            bh::root_logger_t aside(std::move(*w.log[l]));
            *w.log[l] = std::move(aside);
            return;
        }
        if (scopes[l].size() > 1) P_MOVE.hit();
        if (nd.how == 4 && !w.reborn) {
            w.reborn = true;
            if (!scopes[l].empty()) P_REBORN.hit();
            World::H H; H.logger = 2;
            w.fmts.emplace_back(new FmtState); H.fmt = w.fmts.back().get(); H.fmt->id = static_cast<int>(w.fmts.size()) - 1;
            w.sinks.emplace_back(new SinkState); w.sinks.back()->id = static_cast<int>(w.sinks.size()) - 1; H.sinks.push_back(w.sinks.back().get());
            w.handlers.push_back(H);
            {
                LibScope ls;
                bh::builder<bh::handler::blocking_t> hb;
                hb.set(real_formatter()); hb.add(make_sink(H.sinks[0]));
                std::vector<std::unique_ptr<bh::handler_t>> v; v.push_back(std::move(hb).build());
                std::unique_ptr<bh::root_logger_t> fresh(new bh::root_logger_t(std::move(*w.log[l])));
                w.log[l].swap(fresh);
                w.log[2] = std::move(fresh);
                *w.log[2] = bh::root_logger_t(std::move(v));
            }
            perform(w.ev[static_cast<size_t>(nd.event)], 2, 0, H_PLAIN);
            return;
        }
        LibScope ls;
        std::unique_ptr<bh::root_logger_t> fresh(new bh::root_logger_t(std::move(*w.log[l])));
        w.log[l] = std::move(fresh);
    }
    void nested(int place) {
        Event* outer = current_event();
        if (!outer) return;
        auto it = w.nests.find(outer->id);
        if (it == w.nests.end()) return;
        for (auto& n : it->second) {
            if (n.place != place || n.fired) continue;
            n.fired = true;
            Event& e = w.ev[static_cast<size_t>(n.event)];
            e.seq_in_thread = w.nest_seq[e.thread]++;
            P_NEST.hit();
            perform(e, n.logger, n.via, n.how);
        }
    }
    void log(const Node& nd) {
        if (!c.begin_op(nd.op)) return;
        Event& e = w.ev[static_cast<size_t>(nd.event)];
        int l = nd.logger;
        if (nd.pause) sim::sleep_ns(static_cast<uint64_t>(nd.pause) * 1000);
        perform(e, l, nd.via, nd.how);
    }
    void perform(Event& e, int l, int via_, int how) {
        e.scopes = scopes[l];
        bh::logger_t* via = &cur(l, via_);
        e.wrappers.clear();
        for (auto& p : chain[l]) { if (via == w.log[l].get()) break; e.wrappers.push_back(p.second); if (p.first == via) break; }
        if (e.wrappers.size() > 1) P_WRAP.hit();
        if (e.scopes.size() > 1) P_SCOPE2.hit();
        e.filter_calls = 0; e.accepted = !w.filtered[l];
        if (w.inside++) P_CONC.hit();
        struct Out { int& n; ~Out() { --n; } } out{w.inside};
        { std::set<std::string> names; size_t n = 0; auto add = [&](const Attrs& a) { for (auto& x : a) { names.insert(x.name); ++n; } }; add(e.own); for (auto& a : e.wrappers) add(a); for (auto& a : e.scopes) add(a); if (names.size() < n) P_SHADOW.hit(); }
        try { log_event(*via, e, how, w.functions); }
        catch (...) { P_THREW.hit(); if (!e.throws) sim::violation("log-threw", "logging event %d threw although nothing failed", e.id); }
        if (e.threw && !e.f_alloc && !e.f_filter && !e.f_supplier && !e.f_attr)
            sim::violation("escaped", "an exception of a handler propagated out of the log call of event %d", e.id);
        if (e.returned && (e.f_filter || e.f_supplier)) { sim::count_check(); sim::violation("swallowed", "a user supplied filter or supplier threw in event %d but the log call returned normally", e.id); }
    }
};

void root_run(Ctx& c, const Opts& o) {
    auto& r = c.rng;
    World w; w.o = o;
    const uint64_t salt = r.next();
    int nthreads = r.range(1, 4), klass = r.range(0, 2), maxattrs = r.chance(0.4) ? 0 : r.chance(0.1) ? 18 : 3;
    w.functions = o.attr_throw || r.chance(0.3);
    w.shared = r.chance(0.4);
    if (o.moves) nthreads = 1;
    nest_hook = nullptr;
    if (o.nest) nest_hook = [&w](int place) { auto it = w.exec.find(sim::self()); if (it != w.exec.end()) it->second->nested(place); };
    struct Unhook { ~Unhook() { nest_hook = nullptr; } } unhook;
    if (o.attr_throw && !maxattrs) maxattrs = 3;
    double p = r.chance(0.2) ? 1.0 : r.chance(0.5) ? 0.3 : 0.05;
    bool fmt_fail = r.chance(0.5);
    if (o.handler_fail) { if (fmt_fail || r.chance(0.5)) sim::enable_fault(sim::F_FORMATTER_THROW, p / 2); if (!fmt_fail || r.chance(0.5)) sim::enable_fault(sim::F_SINK_THROW, p); }
    if (o.user_throw) { if (r.chance(0.6)) sim::enable_fault(sim::F_FILTER_THROW, 0.2); if (r.chance(0.6)) sim::enable_fault(sim::F_SUPPLIER_THROW, 0.3); }
    if (o.attr_throw) sim::enable_fault(sim::F_ATTR_THROW, 0.2);
    if (o.alloc) sim::enable_fault(sim::F_ALLOC, r.chance(0.5) ? 0.02 : 0.15);
    if (o.jumps) sim::enable_fault(sim::F_CLOCK_JUMP, 0.2);
    if (r.chance(0.3)) sim::enable_fault(sim::F_SINK_SLOW, 0.2);
    int nlog = o.two_loggers ? 2 : 1;
    for (int l = 0; l < nlog; ++l) {
        w.fs[l].id = l; w.fs[l].attrs = r.chance(0.4); w.fs[l].threshold = r.range(-1, 4); w.filtered[l] = r.chance(0.6) || o.user_throw;
        int style = r.range(0, 2);
        std::vector<std::unique_ptr<bh::handler_t>> hs_;
        int nh = r.chance(0.06) ? r.range(7, 20) : r.range(1, 3);
        if (nh > 6) P_MANY.hit();
        for (int h = 0; h < nh; ++h) {
            World::H H; H.logger = l;
            w.fmts.emplace_back(new FmtState); H.fmt = w.fmts.back().get(); H.fmt->id = static_cast<int>(w.fmts.size()) - 1;
            bool real = r.chance(0.4);
            int ns = nh < 6 && r.chance(0.05) ? r.range(5, 18) : r.range(1, 2);
            for (int k = 0; k < ns; ++k) { w.sinks.emplace_back(new SinkState); H.sinks.push_back(w.sinks.back().get()); H.sinks.back()->id = static_cast<int>(w.sinks.size()) - 1; }
            LibScope ls;
            bh::builder<bh::handler::blocking_t> hb;
            if (real) hb.set(real_formatter()); else hb.set(make_formatter(H.fmt));
            for (auto* s : H.sinks) hb.add(make_sink(s));
            hs_.push_back(std::move(hb).build());
            w.handlers.push_back(H);
        }
        LibScope ls;
        if (style == 0) {
            if (w.filtered[l]) w.log[l].reset(new bh::root_logger_t(Filter(&w.fs[l]), std::move(hs_))); else w.log[l].reset(new bh::root_logger_t(std::move(hs_)));
        } else {
            bh::builder<bh::root_logger_t> b;
            for (auto& h : hs_) b.add(std::move(h));
            w.log[l] = std::move(b).build();
            if (style == 2) w.log[l].reset(new bh::root_logger_t(std::move(*w.log[l])));
            if (w.filtered[l]) w.log[l]->filter(Filter(&w.fs[l]));
        }
    }
    std::vector<std::vector<Node>> prog(static_cast<size_t>(nthreads));
    for (int t = 0; t < nthreads; ++t) { int budget = r.range(2, 9), seqno = 0; gen(c, w, prog[static_cast<size_t>(t)], 0, t, budget, seqno, salt, klass, maxattrs); }
    sim::sample("%d threads, %zu events, %d loggers, %zu handlers, %zu sinks, filter %d, scopes %d", nthreads, w.ev.size(), nlog, w.handlers.size(), w.sinks.size(), w.filtered[0], o.scopes);

    if (o.wrappers && !o.moves && r.chance(0.25)) {
        w.common_attrs = gen_attrs(r, "common_", 3, false, w.shared);
        LibScope ls;
        w.common.reset(new bh::wrapper_t(*w.log[0], owned_attrs(w.common_attrs)));
    }
    std::vector<int> tids;
    for (int t = 0; t < nthreads; ++t) tids.push_back(sim::spawn([&, t] { Exec x(c, w); w.exec[sim::self()] = &x; x.run(prog[static_cast<size_t>(t)]); w.exec.erase(sim::self()); }, "logger"));
    for (int t : tids) sim::join(t);
    if (o.fork) {                                          // the process forks: this thread goes on in the child
        P_FORK.hit();
        std::vector<std::vector<Node>> prog2(3);
        { int budget = r.range(1, 3), seqno = 0; gen(c, w, prog2[2], 0, 52, budget, seqno, salt, klass, maxattrs); }
        if (r.chance(0.7)) { Exec x(c, w); w.exec[sim::self()] = &x; x.run(prog2[2]); w.exec.erase(sim::self()); }
        sim::become_child();
        for (int t = 0; t < 2; ++t) { int budget = r.range(1, 3), seqno = 0; gen(c, w, prog2[static_cast<size_t>(t)], 0, 50 + t, budget, seqno, salt, klass, maxattrs); }
        auto go = [&](size_t t) { Exec x(c, w); w.exec[sim::self()] = &x; x.run(prog2[t]); w.exec.erase(sim::self()); };
        go(0);
        sim::join(sim::spawn([&] { go(1); }, "child"));
    }
    // later events are processed normally
    sim::disable_faults();
    size_t first_late = w.ev.size();
    for (int k = 0; k < 2; ++k) {
        Event e; e.id = static_cast<int>(w.ev.size()); e.thread = 99; e.seq_in_thread = k; e.sev = 5; e.text = event_text(salt, e.id, 0); e.aux = k % nlog;
        w.ev.push_back(e);
        Event& x = w.ev.back(); x.accepted = !w.filtered[x.aux];
        try { log_event(*w.log[x.aux], x, k ? H_FACADE_ARGS : H_PLAIN); } catch (...) { sim::violation("log-threw", "logging after the failures stopped threw"); }
    }
    (void)first_late;
    { LibScope ls; w.common.reset(); w.log[0].reset(); w.log[1].reset(); w.log[2].reset(); }
    for (auto& s : w.sinks) if (!s->destroyed) sim::violation("sink-not-destroyed", "sink %d outlives its logger", s->id);
    for (int l = 0; l < nlog; ++l) if (w.fs[l].live) sim::violation("filter-leak", "the filter outlives its logger");

    // ------------------------------------------------------------ verdict
    std::map<int, int64_t> stamp;
    for (auto& e : w.ev) {
        if (!e.started) continue;
        sim::count_check();
        int l = e.aux;
        bool must_not = !e.accepted || e.threw;
        if (w.filtered[l] && !e.throws && e.filter_calls != 1) sim::violation("filter-calls", "the filter was consulted %d times for event %d", e.filter_calls, e.id);
        if (!e.accepted && e.supplied) sim::violation("supplied", "the message of rejected event %d was computed", e.id);
        if (!e.accepted) P_REJ.hit();
        if (e.accepted && e.supplied) P_LAZY.hit();
        if (e.supplied > 1) sim::violation("supplied", "the message of event %d was computed %d times", e.id, e.supplied);
        if (e.how == H_LAZY && e.accepted && e.returned && e.supplied != 1) sim::violation("supplied", "the message of accepted event %d was computed %d times", e.id, e.supplied);
        for (auto& H : w.handlers) {
            bool failed_before = false;                    // a formatter or an earlier sink of this handler failed for the event
            if (H.fmt->failed_events.count(e.id)) failed_before = true;
            for (auto* s : H.sinks) {
                int k = 0; bool threw_here = false;
                for (auto& x : s->log) if (x.id == e.id) { ++k; threw_here |= x.threw; check_content(e, x, "content", true); if (!(e.f_alloc)) check_meta(e, x); auto known = stamp.insert({x.id, x.ts}); if (!known.second && known.first->second != x.ts) sim::violation("timestamp", "event %d has timestamp %lld ns in one sink and %lld ns in another", x.id, static_cast<long long>(known.first->second), static_cast<long long>(x.ts)); }
                sim::count_check();
                if (H.logger != l) { if (k) sim::violation("wrong-logger", "event %d of logger %d reached sink %d of another logger", e.id, l, s->id); continue; }
                if (k > 1) sim::violation("duplicate", "event %d reached sink %d %d times", e.id, s->id, k);
                if (k && !e.accepted) sim::violation("rejected-delivered", "event %d was rejected by the filter but reached sink %d", e.id, s->id);
                if (k && e.f_filter) sim::violation("rejected-delivered", "the filter threw for event %d but it reached sink %d", e.id, s->id);
                if (!k && !must_not && !failed_before && !e.f_alloc && !e.f_attr) sim::violation("lost", "event %d was accepted but never reached sink %d", e.id, s->id);
                if (failed_before && k && H.fmt->failed_events.count(e.id)) sim::violation("partial", "the formatter failed for event %d but sink %d received it", e.id, s->id);
                if (threw_here) { failed_before = true; P_HFAIL.hit(); }
            }
        }
    }
    for (auto& s : w.sinks) {
        for (auto& x : s->log) if (x.id < 0 || static_cast<size_t>(x.id) >= w.ev.size() || !w.ev[static_cast<size_t>(x.id)].started) sim::violation("foreign-event", "sink %d got text that no one logged: '%s'", s->id, show(x.text).c_str());
        check_thread_order(w.ev, s->log, "order", "sink");
    }
    // every failure was reported on standard output
    size_t failures = 0;
    const std::string& out = sim::con->out[0];
    auto reported = [&](const std::string& what) { size_t n = 0; for (size_t q = 0; (q = out.find(what, q)) != std::string::npos; ++q) ++n; return n; };
    for (auto& s : w.sinks) { failures += static_cast<size_t>(s->nthrow); for (auto& t : s->thrown) { sim::count_check(); if (reported(t) < 1) sim::violation("unreported", "the failure '%s' of sink %d was not reported on standard output", t.c_str(), s->id); } }
    for (auto& f : w.fmts) { failures += static_cast<size_t>(f->nthrow); for (auto& t : f->thrown) { sim::count_check(); if (reported(t) < 1) sim::violation("unreported", "the failure '%s' of formatter %d was not reported on standard output", t.c_str(), f->id); } }
    size_t lines = static_cast<size_t>(std::count(out.begin(), out.end(), '\n'));
    if (lines < failures) sim::violation("unreported", "%zu handler failures but only %zu lines on standard output", failures, lines);
    if (!failures && !o.attr_throw && !o.alloc && !out.empty()) sim::violation("noise", "nothing failed but '%s' was written to standard output", show(out).c_str());
}

void root_deliver(Ctx& c) { Opts o; o.scopes = c.rng.chance(0.2); o.nest = c.rng.chance(0.3); o.two_loggers = c.rng.chance(o.nest ? 0.6 : 0.2); root_run(c, o); }
void root_meta(Ctx& c) { Opts o; o.jumps = true; o.scopes = c.rng.chance(0.2); o.fork = c.rng.chance(0.4); o.nest = c.rng.chance(0.1); root_run(c, o); }
void root_fail(Ctx& c) { Opts o; o.handler_fail = true; o.scopes = c.rng.chance(0.3); o.nest = c.rng.chance(0.2); o.two_loggers = o.nest && c.rng.chance(0.5); root_run(c, o); }
void root_scopes(Ctx& c) { Opts o; o.scopes = true; o.two_loggers = c.rng.chance(0.5); o.handler_fail = c.rng.chance(0.3); o.user_throw = c.rng.chance(0.3); o.nest = c.rng.chance(0.15); o.moves = c.rng.chance(0.2); root_run(c, o); }
void root_throw(Ctx& c) { Opts o; o.scopes = c.rng.chance(0.5); o.user_throw = c.rng.chance(0.7); o.alloc = c.rng.chance(0.6); o.attr_throw = c.rng.chance(0.3); o.handler_fail = c.rng.chance(0.3); o.nest = c.rng.chance(0.15); root_run(c, o); }

std::vector<int> probes() { return {P_REJ.id, P_LAZY.id, P_SCOPE2.id, P_EXC.id, P_WRAP.id, P_HFAIL.id, P_CONC.id, P_THREW.id, P_OTHER.id, P_NEST.id, P_FORK.id, P_MOVE.id, P_COPY.id, P_COMMON.id, P_SWAP.id, P_BACK.id, P_REBORN.id, P_SHADOW.id, P_FATTR.id, P_DEEP.id, P_MANY.id}; }
Register r1({"root_deliver", "threads logging through one logger, filters, wrappers, lazy messages", {{"C01", 4}}, root_deliver, probes()});
Register r2({"root_meta", "metadata of records seen by blocking handlers, with clock jumps", {{"C06", 1}}, root_meta, probes()});
Register r3({"root_fail", "formatters and sinks throw anything", {{"C04", 1}}, root_fail, probes()});
Register r4({"root_scopes", "nested scopes and wrappers of several threads and loggers, left by exceptions", {{"C05", 4}}, root_scopes, probes()});
Register r5({"root_throw", "allocation failures and throwing user code inside log calls", {{"C21", 2}}, root_throw, probes()});
}  // namespace
