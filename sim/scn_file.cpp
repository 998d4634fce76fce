// The file sink on the simulated disk: C11 (whole lines), C12 (flush bounds), C13 (I/O errors),
// C14 (stat rotation), C23 (SIGHUP-style reopening), C21 (allocation failures).
#include "h.h"
#include <sys/mman.h>
#include <system_error>

using namespace hs;
namespace {

const Probe P_HUGE("file: a line of more than 60000 bytes"), P_MANY("file: flushing every few hundred events"), P_BIG("file: a line larger than the stream buffer was written"), P_SHORT("file: a write was completed partially"), P_MULTI("file: several sinks used the same file"),
    P_UNFL("file: lines were still buffered at a crash point"), P_THREW("file: an emit reported an I/O error"), P_RECOV("file: emits succeeded after an I/O error cleared"), P_OPENERR("file: an emit could not open the file"),
    P_ROT("file: the sink switched files"), P_ROTOPEN("file: the path changed while the sink was opening it"), P_BUFROT("file: lines were buffered when the path changed"), P_ROTFLUSH("file: a flush threshold was judged over rotated files"), P_ROTERR("file: opening or checking the file failed while the file was being moved"), P_OTHERDEV("file: the path led to another disk"), P_MANYROT("file: the file was moved away again and again under one writer"), P_OUTAGE("file: the file could not be opened for many emits in a row"), P_BLANK("file: empty and binary lines against flush thresholds"), P_REOPEN("file: a logger was rebuilt over a live one"),
    P_STRADDLE("file: an event logged across the reopening went to the old file"), P_RENUNUSED("file: renamed before the old logger wrote anything"), P_INOREUSE("file: an inode number was reused"), P_EARLY("file: first flush checked"), P_SWITCHED("file: lines of the old file were looked up right after the switch");

const char* const PATH = "/sim/app.log";

// How a file sink is described.
struct Spec {
    std::string path = PATH;
    int flush_kind = 0;                  // 0 default, 1 events, 2 bytes
    uint64_t n = 0;                      // events or bytes
    std::string unit;                    // spelled size for the configuration
    bool stat = false;
    std::string json() const {
        std::string j = "{\"type\":\"file\",\"path\":\"" + path + "\"";
        if (flush_kind == 1) j += ",\"flush\":" + std::to_string(n);
        if (flush_kind == 2) j += ",\"flush\":\"" + unit + "\"";
        if (stat) j += ",\"rotate\":{\"type\":\"stat\"}";
        return j + "}";
    }
};
Spec gen_spec(sim::Rng& r, bool exact) {
    Spec s;
    s.flush_kind = r.range(0, 2);
    if (exact && s.flush_kind == 0) s.flush_kind = r.range(1, 2);
    if (s.flush_kind == 1) s.n = r.chance(0.3) ? 1 : static_cast<uint64_t>(r.range(exact ? 1 : 0, 7));
    if (s.flush_kind == 2) {
        static const struct { const char* u; uint64_t m; } U[] = {{"", 1}, {"B", 1}, {"kB", 1000}, {"KiB", 1024}, {"MB", 1000000}, {"MiB", 1 << 20}, {"GB", 1000000000}, {"GiB", 1 << 30}};
        int u = r.chance(0.5) ? r.range(0, 1) : r.chance(0.7) ? r.range(2, 3) : r.range(4, 7);
        uint64_t k = u <= 1 ? static_cast<uint64_t>(r.chance(0.2) ? r.range(900, 1100) : r.range(1, 300)) : static_cast<uint64_t>(u >= 6 ? r.range(1, 9) : r.range(1, 3));
        s.n = k * U[u].m;
        s.unit = std::to_string(k) + U[u].u;
    }
    return s;
}
// Library mode.
std::unique_ptr<bh::sink_t> make_file(const Spec& s, int style) {
    if (style == 0) {
        auto reg = bh::registry::configured();
        std::istringstream is(s.json());
        auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
        return reg->sink("file")(f->config());
    }
    bh::builder<bh::sink::file_t> b(s.path);
    const bool chain = style >= 3;       // rvalue call style
    auto flush = [&](auto v) { if (chain) b = std::move(b).flush_every(v); else b.flush_every(v); };
    if (s.flush_kind == 1) flush(static_cast<std::size_t>(s.n));
    if (s.flush_kind == 2) {
        bool units = style == 2 || style == 4;
        if (units && s.n % (1ull << 30) == 0) flush(bh::gibibytes_t(s.n >> 30));
        else if (units && s.n % 1000000000 == 0) flush(bh::gigabytes_t(s.n / 1000000000));
        else if (units && s.n % (1 << 20) == 0) flush(bh::mibibytes_t(s.n >> 20));
        else if (units && s.n % 1000000 == 0) flush(bh::megabytes_t(s.n / 1000000));
        else if (units && s.n % 1024 == 0) flush(bh::kibibytes_t(s.n / 1024));
        else if (units && s.n % 1000 == 0) flush(bh::kilobytes_t(s.n / 1000));
        else flush(bh::bytes_t(s.n));
    }
    if (s.stat) { if (chain) b = std::move(b).rotate_checking_stat(); else b.rotate_checking_stat(); }
    return std::move(b).build();
}
int pick_style(sim::Rng& r) { return r.range(0, 4); }

struct Parsed { std::vector<int> ids; size_t whole = 0; };
// Decomposes file content into whole event lines. With `tail` the last one may be a proper prefix.
Parsed parse(const std::vector<Event>& ev, const std::string& d, size_t from, bool tail, const char* cls, const char* where) {
    Parsed p;
    size_t pos = from;
    while (pos < d.size()) {
        int id = parse_id(d, pos);
        if (id >= 0 && static_cast<size_t>(id) < ev.size() && ev[static_cast<size_t>(id)].started) {
            const std::string& t = ev[static_cast<size_t>(id)].text;
            if (d.compare(pos, t.size(), t) == 0 && pos + t.size() < d.size() && d[pos + t.size()] == '\n') {
                pos += t.size() + 1; p.ids.push_back(id); p.whole = pos; continue;
            }
        }
        if (tail) {
            std::string rest = d.substr(pos);
            bool ok = false;
            for (auto& e : ev) if (e.started && (e.text + "\n").compare(0, rest.size(), rest) == 0) { ok = true; break; }
            if (ok) return p;
        }
        size_t q = std::min(d.size(), pos + 60);
        sim::violation(cls, "%s: at byte %zu: not a whole line of an emitted event: '%s'", where, pos, show(d.substr(pos, q - pos)).c_str());
    }
    p.whole = pos;
    return p;
}
void check_order(const std::vector<Event>& ev, const std::vector<int>& ids, const char* cls, const char* where) {
    std::map<int, int> last;
    for (int id : ids) {
        const Event& e = ev[static_cast<size_t>(id)];
        auto it = last.find(e.thread);
        if (it != last.end() && it->second >= e.seq_in_thread) sim::violation(cls, "%s: event %d of thread %d is out of order", where, id, e.thread);
        last[e.thread] = e.seq_in_thread;
        sim::count_check();
    }
}
struct Prog {
    std::vector<Event> ev;
    std::vector<std::vector<std::pair<uint32_t, int>>> of;     // per thread: op, event
    std::vector<int> pause;
    Prog(Ctx& c, int threads, int lo, int hi, int klass, bool newlines = true) {
        auto& r = c.rng;
        const uint64_t salt = r.next();
        bool nl = newlines && r.chance(0.3);
        of.resize(static_cast<size_t>(threads));
        for (int t = 0; t < threads; ++t) {
            int n = r.range(lo, hi);
            for (int k = 0; k < n; ++k) add(c, t, k, salt, klass, nl);
        }
    }
    void add(Ctx& c, int t, int k, uint64_t salt, int klass, bool nl) {
        Event e; e.id = static_cast<int>(ev.size()); e.thread = t; e.seq_in_thread = k; e.sev = c.rng.range(0, 4);
        e.text = "<" + std::to_string(e.id) + ":" + payload(salt, e.id, klass, nl) + ">";
        if (nl && c.rng.chance(0.15)) e.text += "\n";
        if (e.text.size() > 8191) P_BIG.hit();
        e.aux = c.rng.range(0, H_COUNT - 1);
        ev.push_back(e);
        pause.push_back(c.rng.chance(0.25) ? c.rng.range(1, 3000) : 0);
        of[static_cast<size_t>(t)].push_back({c.alloc_op(), e.id});
    }
};

// ------------------------------------------------------------------ C11: whole lines, appending
void file_append(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 4), gens = r.chance(0.5) ? 1 : r.range(2, 3);
    int klass = r.range(0, 4);
    Prog P(c, threads, 1, r.chance(0.5) ? 4 : 9, klass);
    if (r.chance(0.02)) {                                  // lines longer than any buffer or 16-bit length
        P_HUGE.hit();
        sim::set_limits(60000000, 40000000, 600ull * 1000000000ull);
        for (int k = r.range(1, 2); k > 0; --k) { std::string& t = P.ev[r.below(P.ev.size())].text; t.insert(t.find('>') == std::string::npos ? t.size() - 1 : t.find('>'), static_cast<size_t>(r.range(60000, 300000)), 'H'); }
    }
    bool side_by_side = gens > 1 && r.chance(0.4), via_logger = r.chance(0.4), preexist = r.chance(0.5), other = r.chance(0.3);
    if (r.chance(0.7)) { sim::enable_fault(sim::F_WRITE_SHORT, r.chance(0.5) ? 0.2 : 0.8); sim::enable_fault(sim::F_WRITE_EINTR, r.chance(0.5) ? 0 : 0.3); }
    std::string pre;
    if (preexist) { pre = "earlier content " + payload(r.next(), 1, 1, true) + (r.chance(0.7) ? "\n" : ""); sim::fs->create(PATH, pre); }
    sim::sample("%d threads, %zu events, %d %s, existing %zu bytes, class %d", threads, P.ev.size(), gens, side_by_side ? "sinks alive together, used in turn" : "sinks one after the other", pre.size(), klass);
    if (gens > 1) P_MULTI.hit();
    std::vector<Spec> specs;
    for (int g = 0; g < gens; ++g) { Spec s = gen_spec(r, false); if (side_by_side) { s.flush_kind = 1; s.n = 1; } specs.push_back(s); }
    std::vector<std::unique_ptr<bh::sink_t>> sinks(static_cast<size_t>(gens));
    std::vector<std::unique_ptr<bh::root_logger_t>> roots(static_cast<size_t>(gens));
    std::unique_ptr<bh::sink_t> sideway;           // another sink of the same process writing to another file
    Spec os; os.path = "/sim/other.log";
    auto create = [&](int g) {
        LibScope ls;
        auto s = make_file(specs[static_cast<size_t>(g)], pick_style(c.rng));
        if (!via_logger) { sinks[static_cast<size_t>(g)] = std::move(s); return; }
        bh::builder<bh::handler::blocking_t> hb;
        hb.set(real_formatter()); hb.add(std::move(s));
        roots[static_cast<size_t>(g)] = bh::builder<bh::root_logger_t>().add(std::move(hb).build()).build();
    };
    if (side_by_side) for (int g = 0; g < gens; ++g) create(g);
    if (other) { LibScope ls; sideway = make_file(os, 1); }
    // events are dealt to the generations in order
    std::vector<std::vector<std::vector<std::pair<uint32_t, int>>>> deal(static_cast<size_t>(gens), std::vector<std::vector<std::pair<uint32_t, int>>>(static_cast<size_t>(threads)));
    for (int t = 0; t < threads; ++t) {
        auto& v = P.of[static_cast<size_t>(t)];
        for (size_t i = 0; i < v.size(); ++i) deal[i * static_cast<size_t>(gens) / v.size()][static_cast<size_t>(t)].push_back(v[i]);
    }
    std::string other_text;
    for (int g = 0; g < gens; ++g) {
        if (!side_by_side) create(g);
        if (g == 0) { if (auto i = sim::fs->lookup(PATH)) { if (!preexist) sim::violation("opened-early", "the log file exists although nothing was emitted"); if (i->opens) sim::violation("opened-early", "the log file was opened before the first emit"); } }
        std::vector<int> tids;
        for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t, g] {
            for (auto& p : deal[static_cast<size_t>(g)][static_cast<size_t>(t)]) {
                if (!c.begin_op(p.first)) continue;
                Event& e = P.ev[static_cast<size_t>(p.second)];
                if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 1000);
                try { if (via_logger) log_event(*roots[static_cast<size_t>(g)], e, e.aux); else emit_event(*sinks[static_cast<size_t>(g)], e); }
                catch (const std::exception& x) { sim::violation("emit-threw", "emitting event %d threw '%s' although no I/O error occurred", e.id, x.what()); }
                if (other && t == 0) { Event o = e; try { emit_event(*sideway, o); } catch (...) { sim::violation("emit-threw", "emit to another file threw"); } other_text += e.text + "\n"; }
                sim::count_event();
            }
        }, "writer"));
        for (int t : tids) sim::join(t);
        if (!side_by_side) { LibScope ls; sinks[static_cast<size_t>(g)].reset(); roots[static_cast<size_t>(g)].reset(); }
    }
    { LibScope ls; sinks.clear(); roots.clear(); sideway.reset(); }
    auto ino = sim::fs->lookup(PATH);
    std::string d = ino ? ino->data : "";
    if (ino && ino->truncated) sim::violation("truncated", "existing content of the log file was truncated or overwritten");
    if (d.compare(0, pre.size(), pre) != 0) sim::violation("truncated", "content that was in the file before is gone");
    Parsed p = parse(P.ev, d, pre.size(), false, "garbled", PATH);
    std::vector<int> cnt(P.ev.size());
    for (int id : p.ids) cnt[static_cast<size_t>(id)]++;
    for (auto& e : P.ev) {
        sim::count_check();
        if (e.started && cnt[static_cast<size_t>(e.id)] != 1) sim::violation("not-once", "event %d is in the file %d times", e.id, cnt[static_cast<size_t>(e.id)]);
    }
    check_order(P.ev, p.ids, "order", PATH);
    if (other) { auto i2 = sim::fs->lookup("/sim/other.log"); if ((i2 ? i2->data : "") != other_text) sim::violation("garbled", "the other file's content differs from what was emitted to it"); }
    if (sim::fs->open_files) sim::violation("fd-leak", "%d files are still open after the sinks were destroyed", sim::fs->open_files);
}

// ------------------------------------------------------------------ C12: flush bounds at every crash point
void file_crash(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 3);
    const bool many = r.chance(0.02);                      // thresholds beyond a byte
    Prog P(c, threads, many ? 290 / threads : 2, many ? 330 / threads : r.chance(0.5) ? 6 : 14, many ? 0 : r.range(0, 2));
    Spec s = gen_spec(r, true);
    if (many) { P_MANY.hit(); s.flush_kind = 1; s.n = static_cast<uint64_t>(r.range(240, 300)); sim::set_limits(30000000, 20000000, 600ull * 1000000000ull); }
    bool via_logger = r.chance(0.4), reassign = via_logger && r.chance(0.4), crash = r.chance(0.4);
    int style = pick_style(r);
    if (r.chance(0.5)) { sim::enable_fault(sim::F_WRITE_SHORT, 0.3); sim::enable_fault(sim::F_WRITE_EINTR, 0.3); }
    sim::sample("%d threads, %zu events, flush every %llu %s (%s), %s", threads, P.ev.size(), static_cast<unsigned long long>(s.n), s.flush_kind == 1 ? "events" : "bytes", style == 0 ? s.unit.c_str() : "builder", crash ? "crash at a random point" : "observed at random points");
    std::unique_ptr<bh::sink_t> sink; std::unique_ptr<bh::root_logger_t> root;
    {
        LibScope ls;
        auto f = make_file(s, style);
        if (via_logger) {
            bh::builder<bh::handler::blocking_t> hb; hb.set(real_formatter()); hb.add(std::move(f));
            root = bh::builder<bh::root_logger_t>().add(std::move(hb).build()).build();
        } else sink = std::move(f);
    }
    uint64_t returned_n = 0, returned_b = 0, started_n = 0, started_b = 0; bool first = false, crashed = false, ended = false;
    auto observe = [&](const char* when) {
        sim::count_check();
        auto ino = sim::fs->lookup(PATH);
        static const std::string none;
        const std::string& d = ino ? ino->data : none;
        Parsed p = parse(P.ev, d, 0, true, "crash-garbled", when);
        if (crashed) return;                     // the disk no longer follows
        if (p.ids.size() < P.ev.size() && returned_n > p.ids.size()) P_UNFL.hit();
        if (s.flush_kind == 1) {
            if (p.ids.size() + (s.n - 1) < returned_n)
                sim::violation("flush-bound", "%s: %llu emits have returned but only %zu lines are in the file; flushing every %llu events must leave at most %llu behind", when, static_cast<unsigned long long>(returned_n), p.ids.size(), static_cast<unsigned long long>(s.n), static_cast<unsigned long long>(s.n - 1));
        } else if (d.size() + (s.n - 1) < returned_b)
            sim::violation("flush-bound", "%s: emits of %llu bytes have returned but only %zu bytes are in the file; flushing every %llu bytes must leave fewer behind", when, static_cast<unsigned long long>(returned_b), d.size(), static_cast<unsigned long long>(s.n));
        if (!first && !ended && !d.empty()) {
            first = true; P_EARLY.hit();
            uint64_t need = s.n;
            if (s.flush_kind == 2 && need > 7000) need = started_b > 7000 ? 0 : need;       // the stream buffer is handed over when full
            if (s.flush_kind == 1 && started_b > 7000) need = 0;
            uint64_t have = s.flush_kind == 1 ? started_n : started_b;
            if (have < need) sim::violation("flush-early", "%s: bytes are in the file after %llu %s although flushing was set to every %llu", when, static_cast<unsigned long long>(have), s.flush_kind == 1 ? "events" : "bytes", static_cast<unsigned long long>(s.n));
        }
    };
    bool done = false;
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 1000);
            started_n++; started_b += e.text.size() + 1;
            try { if (via_logger) log_event(*root, e, e.aux); else emit_event(*sink, e); }
            catch (const std::exception& x) { sim::violation("emit-threw", "emitting event %d threw '%s'", e.id, x.what()); }
            returned_n++; returned_b += e.text.size() + 1;
            sim::count_event();
            observe("after an emit returned");
        }
    }, "writer"));
    uint32_t op = c.alloc_op();
    int obs = sim::spawn([&] {
        if (!c.begin_op(op)) return;
        int steps = c.rng.range(1, 60);
        for (int i = 0; i < steps && !done; ++i) { sim::sleep_ns(static_cast<uint64_t>(c.rng.range(0, 400))); observe("at a crash point"); }
        if (crash && !done) { observe("at the crash"); sim::note_fault(sim::F_PROC_CRASH); sim::fs->frozen = true; crashed = true; }
    }, "observer");
    for (int t : tids) sim::join(t);
    done = true;
    sim::join(obs);
    ended = true;
    if (reassign) { LibScope ls; *root = bh::root_logger_t({}); }
    else { LibScope ls; sink.reset(); root.reset(); }
    observe("after the end");
    if (!crashed) {
        auto ino = sim::fs->lookup(PATH);
        Parsed p = parse(P.ev, ino ? ino->data : "", 0, false, "garbled", PATH);
        if (p.ids.size() != returned_n) sim::violation("not-flushed", "%s, but only %zu of %llu lines are in the file", reassign ? "the logger was reassigned" : "the sink was destroyed", p.ids.size(), static_cast<unsigned long long>(returned_n));
        check_order(P.ev, p.ids, "order", PATH);
    }
    { LibScope ls; root.reset(); }
}

// ------------------------------------------------------------------ C12: large thresholds mean what is documented
const Probe P_UNITS("file: a threshold of a megabyte was reached");
const Probe P_GIGA("file: a threshold of gigabytes was reached");
// Gigabytes: the disk only counts the bytes of enormous messages.
void file_giga(Ctx& c) {
    auto& r = c.rng;
    P_GIGA.hit();
    sim::set_limits(400000000, 300000000, 600ull * 1000000000ull);
    sim::big_blocks_unchecked();
    sim::fs->giant = true;
    const bool binary = r.chance(0.5);
    const uint64_t k = static_cast<uint64_t>(r.chance(0.7) ? r.range(1, 2) : r.range(3, 5));
    Spec s; s.flush_kind = 2; s.n = k * (binary ? 1ull << 30 : 1000000000ull); s.unit = std::to_string(k) + (binary ? "GiB" : "GB");
    int style = pick_style(r);
    sim::sample("flush every %s (%s)", s.unit.c_str(), style == 0 ? "configuration" : "builder");
    std::unique_ptr<bh::sink_t> sink;
    { LibScope ls; sink = make_file(s, style); }
    const size_t chunk = static_cast<size_t>(r.range(12, 24)) << 20;
    static char* region = static_cast<char*>(mmap(nullptr, 24u << 20, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    bh::attribute_pack pack;
    bh::string_view text(region, chunk);
    uint64_t total = 0;
    int small = 0, turn = 0;
    auto have = [&] { auto i = sim::fs->lookup(PATH); return i ? i->data.size() + i->sparse : uint64_t(0); };
    bool reached = false;
    int after = r.range(0, 2);
    while (!reached || after-- > 0) {
        // enormous messages until some way before the threshold with short ones in between, which stay buffered
        const bool tiny = !reached && ++turn % 4 == 0, big = !reached && !tiny && total + chunk + 1000 < s.n;
        {
            LibScope ls;
            bh::string_view view = big ? text : bh::string_view(region, tiny ? 90 : s.n > total + 20000 ? 20000 : 3000);
            bh::record_t rec(1, view, pack);
            rec.activate(view);
            const uint64_t s0 = sim::steps();
            sink->emit(rec, view);
            total += view.size() + 1;
            if (sim::steps() - s0 > 2000000) { sink.reset(); return; }       // every byte is handled on its own: gigabytes would take minutes
        }
        if (!big) ++small;
        sim::count_event(); sim::count_check();
        if (!reached && total >= s.n) {
            reached = true;
            if (have() != total) sim::violation("flush-bound", "%llu bytes were emitted with flushing every %llu bytes (%s), but only %llu are in the file", static_cast<unsigned long long>(total), static_cast<unsigned long long>(s.n), s.unit.c_str(), static_cast<unsigned long long>(have()));
        } else if (!reached && tiny && have() == total) sim::violation("flush-early", "%llu bytes were emitted with flushing every %llu bytes (%s), and everything is in the file already", static_cast<unsigned long long>(total), static_cast<unsigned long long>(s.n), s.unit.c_str());
        if (small > 6000) sim::internal_error("file_giga: the threshold was not reached");
    }
    { LibScope ls; sink.reset(); }
    if (have() != total) sim::violation("not-flushed", "the sink was destroyed but %llu of %llu bytes are in the file", static_cast<unsigned long long>(have()), static_cast<unsigned long long>(total));
}
// Empty lines and lines of arbitrary bytes count like all others.
void file_blank(Ctx& c) {
    auto& r = c.rng;
    P_BLANK.hit();
    Spec s = gen_spec(r, true);
    if (s.flush_kind == 2) { s.n = static_cast<uint64_t>(r.range(1, 40)); s.unit = std::to_string(s.n) + "B"; }
    int style = pick_style(r);
    const int n = r.range(4, 30);
    const double blank = r.chance(0.5) ? 0.9 : 0.4;
    sim::sample("%d lines, flush every %llu %s, %s", n, static_cast<unsigned long long>(s.n), s.flush_kind == 1 ? "events" : "bytes", blank > 0.5 ? "most of them empty" : "some of them empty");
    std::unique_ptr<bh::sink_t> sink;
    { LibScope ls; sink = make_file(s, style); }
    std::string want;
    std::vector<size_t> ends{0};
    auto have = [&] { auto i = sim::fs->lookup(PATH); return i ? i->data : std::string(); };
    for (int k = 0; k < n; ++k) {
        std::string text;
        if (!r.chance(blank)) for (int m = r.range(1, 12); m > 0; --m) text += static_cast<char>(r.chance(0.3) ? (r.chance(0.5) ? '\n' : '\0') : r.range(0, 255));
        {
            LibScope ls;
            std::string own(text.data(), text.size());
            bh::string_view view(own.data(), own.size());
            if (own.empty() && k % 3 == 0) view = bh::string_view();
            bh::attribute_pack pack;
            bh::record_t rec(0, view, pack);
            rec.activate(view);
            sink->emit(rec, view);
        }
        want += text + "\n"; ends.push_back(want.size());
        const std::string d = have();
        sim::count_event(); sim::count_check();
        if (d.size() > want.size() || want.compare(0, d.size(), d) != 0) sim::violation("garbled", "after %d lines the file holds '%s', which is no prefix of what was emitted, '%s'", k + 1, show(d, 200).c_str(), show(want, 200).c_str());
        if (s.flush_kind == 1) {
            size_t in = static_cast<size_t>(std::upper_bound(ends.begin(), ends.end(), d.size()) - ends.begin()) - 1;
            if (in + (s.n - 1) < static_cast<size_t>(k) + 1) sim::violation("flush-bound", "%d emits have returned but only %zu lines are in the file; flushing every %llu events must leave at most %llu behind", k + 1, in, static_cast<unsigned long long>(s.n), static_cast<unsigned long long>(s.n - 1));
        } else if (d.size() + (s.n - 1) < want.size()) sim::violation("flush-bound", "emits of %zu bytes have returned but only %zu bytes are in the file; flushing every %llu bytes must leave fewer behind", want.size(), d.size(), static_cast<unsigned long long>(s.n));
    }
    { LibScope ls; sink.reset(); }
    if (have() != want) sim::violation("not-flushed", "the sink was destroyed but the file differs from what was emitted: '%s' instead of '%s'", show(have(), 200).c_str(), show(want, 200).c_str());
}
void file_units(Ctx& c) {
    auto& r = c.rng;
    if (r.chance(0.3)) { file_blank(c); return; }
    if (r.chance(0.02)) { file_giga(c); return; }
    sim::set_limits(30000000, 20000000, 600ull * 1000000000ull);
    static const struct { const char* u; uint64_t m; } U[] = {{"kB", 1000}, {"KiB", 1024}, {"MB", 1000000}, {"MiB", 1 << 20}};
    int u = r.range(0, 3);
    Spec s; s.flush_kind = 2;
    uint64_t k = u < 2 ? static_cast<uint64_t>(r.range(5, 900)) : 1;
    s.n = k * U[u].m; s.unit = std::to_string(k) + U[u].u;
    if (r.chance(0.3)) s.stat = true;
    int style = pick_style(r);
    sim::sample("flush every %s (%s)", s.unit.c_str(), style == 0 ? "configuration" : "builder");
    std::unique_ptr<bh::sink_t> sink;
    { LibScope ls; sink = make_file(s, style); }
    const uint64_t salt = r.next();
    std::vector<Event> ev; ev.reserve(8000);
    uint64_t total = 0; size_t last = 0; std::string want;
    // long lines until some way before the threshold (or the next smaller unit), then short ones
    uint64_t near = u == 1 ? k * 1000 : u == 3 ? 1000000 : s.n;
    near -= std::min<uint64_t>(near, 100 + r.below(9000));
    int after = r.range(1, 4);
    bool reached = false;
    while (!reached || after-- > 0) {
        Event e; e.id = static_cast<int>(ev.size()); e.sev = 1;
        e.text = "<" + std::to_string(e.id) + ":" + payload(salt, e.id, RAW) + ">";
        if (total + 30000 < near) e.text.append(20000 + r.below(5000), 'x'); else if (total + 800 < near) e.text.append(700, 'y'); else if (total + 3000 < s.n && r.chance(0.5)) e.text.append(r.below(700), 'z');
        ev.push_back(e);
        try { emit_event(*sink, ev.back()); } catch (const std::exception& x) { sim::violation("emit-threw", "emitting event %d threw '%s'", e.id, x.what()); }
        total += e.text.size() + 1; want += e.text + "\n";
        sim::count_event(); sim::count_check();
        auto ino = sim::fs->lookup(PATH);
        size_t have = ino ? ino->data.size() : 0;
        bool all = have == total;
        if (!reached && total >= s.n) {
            reached = true;
            if (u >= 2) P_UNITS.hit();
            if (!all) sim::violation("flush-bound", "%llu bytes were emitted with flushing every %llu bytes (%s), but only %zu are in the file", static_cast<unsigned long long>(total), static_cast<unsigned long long>(s.n), s.unit.c_str(), have);
        } else if (!reached && all && total - last < 4000)      // a stream buffer has not been filled
            sim::violation("flush-early", "%llu bytes were emitted with flushing every %llu bytes (%s), and everything is in the file already", static_cast<unsigned long long>(total), static_cast<unsigned long long>(s.n), s.unit.c_str());
        last = have;
    }
    { LibScope ls; sink.reset(); }
    auto ino = sim::fs->lookup(PATH);
    if (!ino || ino->data != want) sim::violation("not-flushed", "the sink was destroyed but the file differs from what was emitted");
}

// ------------------------------------------------------------------ C13: I/O errors
size_t find_line(const std::string& d, const std::string& t, size_t from = 0) { return d.find(t + "\n", from); }
void file_errors(Ctx& c) {
    auto& r = c.rng;
    const bool outage = r.chance(0.06);                  // the file cannot be opened for a long time
    int threads = outage ? r.range(1, 2) : r.range(1, 3);
    Prog P(c, threads, outage ? 12 : 2, outage ? 30 : r.chance(0.5) ? 5 : 9, r.chance(0.7) ? r.range(0, 2) : r.range(3, 4), false);
    int rounds = outage ? 1 : r.range(1, 3);
    Spec s = gen_spec(r, false);
    if (r.chance(0.5)) { s.flush_kind = 1; s.n = 1; }
    s.stat = r.chance(0.2);
    if (s.stat) { s.flush_kind = 1; s.n = 1; }        // what is buffered when the file is switched is C14's concern
    bool every = s.flush_kind == 1 && s.n == 1;
    int style = pick_style(r);
    const uint64_t salt = r.next();
    sim::sample("%d threads, %zu events, %d periods of errors, flush kind %d n %llu%s", threads, P.ev.size(), rounds, s.flush_kind, static_cast<unsigned long long>(s.n), s.stat ? ", stat rotation" : "");
    std::unique_ptr<bh::sink_t> sink;
    { LibScope ls; sink = make_file(s, style); }
    std::set<int> flushed, ok, good;                     // reported as written and flushed; returned; emitted while healthy
    auto emit = [&](Event& e, bool healthy) {
        auto& errs = sim::fs->errs[sim::self()];
        size_t e0 = errs.size(); int s0 = sim::fs->stat_errs[sim::self()];
        int thrown = 0, code = 0; bool sys = false; std::string what;
        try { emit_event(*sink, e); }
        catch (const std::system_error& x) { thrown = 1; code = x.code().value(); sys = x.code().category() == std::system_category() || x.code().category() == std::generic_category(); what = x.what(); }
        catch (const std::exception& x) { thrown = 2; what = x.what(); }
        catch (...) { thrown = 3; }
        std::vector<int> seen(errs.begin() + static_cast<long>(e0), errs.end());
        bool stat_err = sim::fs->stat_errs[sim::self()] != s0;
        sim::count_check(); sim::count_event();
        if (thrown) {
            P_THREW.hit();
            if (seen.empty() && !stat_err) sim::violation(healthy ? "not-recovered" : "spurious-error", "event %d: emit threw '%s' although the operating system reported no error during that call", e.id, what.c_str());
            if (thrown != 1) sim::violation("error-type", "event %d: the I/O error was reported as '%s', not as a system error", e.id, what.c_str());
            bool match = stat_err;
            for (int x : seen) if (x == code && sys) match = true;
            if (!match) sim::violation("error-code", "event %d: the operating system failed with errno %d but emit reported '%s' (%d)", e.id, seen.empty() ? 0 : seen.back(), what.c_str(), code);
        } else {
            if (healthy) good.insert(e.id);
            ok.insert(e.id);
            if (healthy && s.flush_kind != 0 && s.n && !s.stat) {
                auto ino = sim::fs->lookup(PATH);
                uint64_t behind = 0, bytes = 0;
                for (int id : ok) { const std::string& t = P.ev[static_cast<size_t>(id)].text; if (!ino || find_line(ino->data, t) == std::string::npos) { ++behind; bytes += t.size() + 1; } }
                if (s.flush_kind == 1 && behind > s.n - 1) sim::violation("flush-bound", "after the error cleared %llu accepted lines are not in the file, although flushing is set to every %llu events", static_cast<unsigned long long>(behind), static_cast<unsigned long long>(s.n));
                if (s.flush_kind == 2 && bytes >= s.n) sim::violation("flush-bound", "after the error cleared %llu accepted bytes are not in the file, although flushing is set to every %llu bytes", static_cast<unsigned long long>(bytes), static_cast<unsigned long long>(s.n));
            }
            if (every) {
                auto ino = sim::fs->lookup(PATH);
                if (!ino || find_line(ino->data, e.text) == std::string::npos) sim::violation("false-success", "event %d: emit returned with every line flushed, but the line is not in the file", e.id);
                flushed.insert(e.id);
            }
        }
    };
    int next_seq[8] = {0};
    for (int round = 0; round < rounds; ++round) {
        // a period with errors
        int kind = outage ? 3 : c.rng.range(0, 5);
        if (outage) P_OUTAGE.hit();
        uint32_t op = c.alloc_op();
        bool armed = c.begin_op(op);
        if (armed) switch (kind) {
        case 0: sim::enable_fault(sim::F_OPEN_ERR, 0.7); break;
        case 1: sim::enable_fault(sim::F_WRITE_ENOSPC, 0.5); sim::enable_fault(sim::F_WRITE_SHORT, 0.3); break;
        case 2: sim::enable_fault(sim::F_WRITE_EIO, 0.5); sim::enable_fault(sim::F_WRITE_EINTR, 0.3); break;
        case 3: sim::fs->denied.push_back(PATH); sim::note_fault(sim::F_PERM_DENIED); break;
        case 4: sim::fs->free_bytes = c.rng.chance(0.3) ? 0 : c.rng.range(1, 600); sim::note_fault(sim::F_DISK_FULL); break;
        case 5: sim::fs->fd_limit = 0; sim::enable_fault(sim::F_OPEN_ERR, 0.3); sim::enable_fault(sim::F_WRITE_EIO, 0.2); break;
        }
        if (armed && s.stat && c.rng.chance(0.5)) sim::enable_fault(sim::F_STAT_ERR, 0.3);
        c.end_op();
        std::vector<int> tids;
        for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t, round] {
            auto& v = P.of[static_cast<size_t>(t)];
            size_t lo = v.size() * static_cast<size_t>(round) / static_cast<size_t>(rounds), hi = v.size() * static_cast<size_t>(round + 1) / static_cast<size_t>(rounds);
            for (size_t i = lo; i < hi; ++i) if (c.begin_op(v[i].first)) emit(P.ev[static_cast<size_t>(v[i].second)], false);
        }, "writer"));
        for (int t : tids) sim::join(t);
        // the condition clears
        for (int f : {sim::F_OPEN_ERR, sim::F_WRITE_ENOSPC, sim::F_WRITE_EIO, sim::F_STAT_ERR}) sim::enable_fault(f, 0);
        sim::fs->denied.clear(); sim::fs->free_bytes = -1; sim::fs->fd_limit = -1;
        bool had = !sim::fs->errs.empty();
        std::vector<int> t2;
        int n = c.rng.range(1, 3);
        size_t base = P.ev.size();
        for (int t = 0; t < threads; ++t) for (int k = 0; k < n; ++k) {
            Event e; e.id = static_cast<int>(P.ev.size()); e.thread = 100 + t; e.seq_in_thread = next_seq[t]++; e.text = "<" + std::to_string(e.id) + ":" + payload(salt, e.id, 1) + ">";
            P.ev.push_back(e); P.pause.push_back(0);
        }
        for (int t = 0; t < threads; ++t) t2.push_back(sim::spawn([&, t] {
            for (int k = 0; k < n; ++k) { emit(P.ev[base + static_cast<size_t>(t * n + k)], true); if (had) P_RECOV.hit(); }
        }, "writer2"));
        for (int t : t2) sim::join(t);
    }
    { LibScope ls; sink.reset(); }
    auto ino = sim::fs->lookup(PATH);
    std::string d = ino ? ino->data : "";
    if (ino && ino->truncated) sim::violation("truncated", "the log file was truncated or overwritten");
    auto count = [&](const std::string& t) { int n = 0; for (size_t p = find_line(d, t); p != std::string::npos; p = find_line(d, t, p + 1)) ++n; return n; };
    std::map<int, std::pair<int, size_t>> last;
    for (auto& e : P.ev) {
        sim::count_check();
        if (flushed.count(e.id) && !count(e.text)) sim::violation("lost-flushed", "event %d was reported as written and flushed but is not whole in the file", e.id);
        if (ok.count(e.id) && !count(e.text)) sim::violation("lost", "event %d was accepted without an error but never reached the file although the error cleared", e.id);
        if (good.count(e.id) && count(e.text) != 1 && every) sim::violation("recovered-dup", "event %d was emitted after the error cleared and is in the file %d times", e.id, count(e.text));
    }
    if (sim::fs->open_files) sim::violation("fd-leak", "%d files are still open after the sink was destroyed", sim::fs->open_files);
}

// ------------------------------------------------------------------ C14: stat-checked rotation
bool at_path_during(const sim::Inode* i, const char* path, uint64_t a, uint64_t b) {
    for (auto& h : sim::fs->history) if (h.ino.get() == i && h.path == path && h.from <= b && h.to >= a) return true;
    return false;
}
// Whole lines over all files that ever existed; returns event -> inode.
std::map<int, sim::Inode*> collect(const std::vector<Event>& ev, std::map<sim::Inode*, size_t>& skip) {
    std::map<int, sim::Inode*> where;
    for (auto& i : sim::fs->all) {
        if (i->truncated) sim::violation("truncated", "file %llu was truncated or overwritten", static_cast<unsigned long long>(i->ino));
        Parsed p = parse(ev, i->data, skip.count(i.get()) ? skip[i.get()] : 0, false, "garbled", "a log file");
        check_order(ev, p.ids, "order", "a log file");
        for (int id : p.ids) { if (where.count(id)) sim::violation("duplicate", "event %d was written twice", id); where[id] = i.get(); }
    }
    return where;
}
void file_rotate(Ctx& c) {
    auto& r = c.rng;
    const bool lasting = r.chance(0.06);                 // one process outlives many rotations
    int threads = lasting ? 1 : r.range(1, 3);
    Prog P(c, threads, lasting ? 24 : 1, lasting ? 40 : r.chance(0.5) ? 5 : 9, r.chance(0.8) ? r.range(0, 2) : 3);
    Spec s = gen_spec(r, false); s.stat = true;
    if (lasting) { P_MANYROT.hit(); for (auto& p : P.pause) p = r.range(5, 40); }
    bool via_logger = r.chance(0.3);
    sim::fs->reuse_inodes = r.chance(0.4);
    if (r.chance(0.3)) sim::fs->ino_stride = 1ull << 32;
    // Inode numbers are reused as file systems do, but never for a file freed during an emit that is still
    // in progress: a file that is replaced twice within one open(2) cannot be told from the original.
    std::vector<uint64_t> begun(static_cast<size_t>(threads) + 1, ~0ull);
    sim::fs->may_reuse = [&](uint64_t freed) { return freed < *std::min_element(begun.begin(), begun.end()); };
    int moves = lasting ? r.range(16, 30) : r.range(1, 5), style = pick_style(r);
    if (r.chance(0.5)) sim::enable_fault(sim::F_STAT_ERR, 0.0);
    if (r.chance(0.4)) { sim::enable_fault(sim::F_WRITE_SHORT, 0.3); sim::enable_fault(sim::F_WRITE_EINTR, 0.3); }
    std::map<sim::Inode*, size_t> skip;
    if (r.chance(0.4)) { auto i = sim::fs->create(PATH, "old\n"); skip[i.get()] = 4; }
    sim::sample("%d threads, %zu events, %d external changes, flush kind %d n %llu", threads, P.ev.size(), moves, s.flush_kind, static_cast<unsigned long long>(s.n));
    std::unique_ptr<bh::sink_t> sink; std::unique_ptr<bh::root_logger_t> root;
    {
        LibScope ls;
        auto f = make_file(s, style);
        if (via_logger) {
            bh::builder<bh::handler::blocking_t> hb; hb.set(real_formatter()); hb.add(std::move(f));
            root = bh::builder<bh::root_logger_t>().add(std::move(hb).build()).build();
        } else sink = std::move(f);
    }
    const bool openerr = r.chance(0.3);
    if (openerr) { sim::enable_fault(sim::F_OPEN_ERR, r.chance(0.5) ? 0.2 : 0.7); if (r.chance(0.3)) sim::enable_fault(sim::F_STAT_ERR, 0.1); }
    std::set<int> failed;                 // the operating system refused something during their emit
    auto os_errors = [&] { return sim::fs->errs[sim::self()].size() + static_cast<size_t>(sim::fs->stat_errs[sim::self()]); };
    uint64_t last_change = 0; int inflight = 0; const sim::Inode* judged = nullptr;
    // `e` began after the last change and has returned, so the sink has turned to the current file: what was
    // written before that file appeared must be in the files of that time.
    auto switched = [&](const Event& e) {
        auto cur = sim::fs->lookup(PATH);
        if (!cur || judged == cur.get()) return;
        uint64_t born = ~0ull;
        for (auto& h : sim::fs->history) if (h.ino == cur && h.path == PATH && h.to == ~0ull) born = h.from;
        if (born > e.end) return;
        judged = cur.get();
        std::set<int> have;
        for (auto& i : sim::fs->all) { Parsed p = parse(P.ev, i->data, skip.count(i.get()) ? skip[i.get()] : 0, true, "garbled", "a log file"); have.insert(p.ids.begin(), p.ids.end()); }
        for (auto& q : P.ev) if (q.returned && q.end < born && !failed.count(q.id)) {
            sim::count_check(); P_SWITCHED.hit();
            if (!have.count(q.id)) sim::violation("old-not-flushed", "event %d was written before the current file appeared and the sink has switched to it, but the line is in no file yet", q.id);
        }
    };
    // The flush threshold holds over all the files together: what a file is left with is written when the sink leaves it.
    auto bounded = [&] {
        if (!s.n || openerr) return;
        size_t lines = 0, bytes = 0, in = 0, size = 0;
        for (auto& q : P.ev) if (q.returned) { ++lines; bytes += q.text.size() + 1; }
        for (auto& i : sim::fs->all) { size_t from = skip.count(i.get()) ? skip[i.get()] : 0; if (s.flush_kind == 1) in += parse(P.ev, i->data, from, true, "garbled", "a log file").ids.size(); size += i->data.size() - from; }
        sim::count_check(); if (sim::fs->all.size() > 1) P_ROTFLUSH.hit();
        if (s.flush_kind == 1 && in + (s.n - 1) < lines) sim::violation("flush-bound", "%zu emits have returned but only %zu lines are in the files; flushing every %llu events must leave at most %llu behind", lines, in, static_cast<unsigned long long>(s.n), static_cast<unsigned long long>(s.n - 1));
        if (s.flush_kind == 2 && size + (s.n - 1) < bytes) sim::violation("flush-bound", "emits of %zu bytes have returned but only %zu bytes are in the files; flushing every %llu bytes must leave fewer behind", bytes, size, static_cast<unsigned long long>(s.n));
    };
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 300);
            ++inflight; begun[static_cast<size_t>(t)] = sim::seq();
            const size_t errs = os_errors();
            try { if (via_logger) log_event(*root, e, e.aux); else emit_event(*sink, e); }
            catch (const std::exception& x) { if (os_errors() == errs) sim::violation("emit-threw", "event %d: emit threw '%s' because the file was moved or removed", e.id, x.what()); }
            --inflight; begun[static_cast<size_t>(t)] = ~0ull;
            sim::count_event();
            if (os_errors() != errs) { failed.insert(e.id); P_ROTERR.hit(); continue; }
            bounded();
            if (last_change < e.begin) switched(e);
            if (last_change < e.begin && !sim::fs->lookup(PATH)) sim::violation("not-recreated", "event %d was emitted after the last change but there is no file at the configured path", e.id);
        }
    }, "writer"));
    int serial = 0;
    uint32_t ops[32]; int kinds[32], waits[32];
    for (int i = 0; i < moves; ++i) { ops[i] = c.alloc_op(); kinds[i] = r.range(0, 6); waits[i] = lasting ? r.range(10, 150) : r.chance(0.5) ? r.range(0, 200) : r.range(0, 20000); }
    int rot = sim::spawn([&] {
        for (int i = 0; i < moves; ++i) {
            sim::sleep_ns(static_cast<uint64_t>(waits[i]) * 100);
            if (!c.begin_op(ops[i])) continue;
            auto cur = sim::fs->lookup(PATH);
            size_t written = cur ? cur->data.size() : 0;
            size_t freed = sim::fs->free_inos.size();
            switch (kinds[i]) {
            case 0: if (cur) { sim::fs->rename(PATH, std::string(PATH) + "." + std::to_string(++serial)); sim::note_fault(sim::F_EXT_RENAME); } break;
            case 1: if (cur) { sim::fs->unlink(PATH); sim::note_fault(sim::F_EXT_UNLINK); } break;
            case 2: if (cur) { sim::fs->rename(PATH, std::string(PATH) + "." + std::to_string(++serial)); sim::note_fault(sim::F_EXT_RENAME); }
                    sim::fs->create(PATH); sim::note_fault(sim::F_EXT_RECREATE); break;
            case 4: if (cur) { sim::fs->link(PATH, std::string(PATH) + "." + std::to_string(++serial)); sim::yield(); sim::fs->unlink(PATH); sim::note_fault(sim::F_EXT_UNLINK); } break;
            case 5: sim::fs->create("/sim/new.log"); if (serial % 2 == 0) sim::fs->link("/sim/new.log", "/sim/new.log." + std::to_string(++serial)); sim::yield();
                    sim::fs->rename("/sim/new.log", PATH); sim::note_fault(sim::F_EXT_RECREATE); break;
            // the path now leads to another disk (a link was switched, something was mounted), where the number
            // of the old file means another one
            case 6: {
                if (cur) sim::fs->rename(PATH, std::string(PATH) + "." + std::to_string(++serial));
                auto other = sim::fs->create(PATH);
                if (cur) { other->ino = cur->ino; other->dev = cur->dev + 1 + static_cast<uint64_t>(i); P_OTHERDEV.hit(); }
                sim::note_fault(sim::F_EXT_RECREATE); break;
            }
            default: if (cur) sim::fs->unlink(PATH); sim::fs->create(PATH); sim::note_fault(sim::F_EXT_RECREATE); break;
            }
            if (cur && cur->opens && written < cur->data.size() + 1) P_BUFROT.hit();
            if (sim::fs->free_inos.size() < freed) P_INOREUSE.hit();
            if (inflight) P_ROTOPEN.hit();
            last_change = sim::seq();
        }
    }, "logrotate");
    for (int t : tids) sim::join(t);
    sim::join(rot);
    for (int k : {sim::F_OPEN_ERR, sim::F_STAT_ERR}) sim::enable_fault(k, 0);
    // a few more emits after everything settled
    const uint64_t salt2 = r.next();
    for (int k = 0; k < 3; ++k) {
        Event e; e.id = static_cast<int>(P.ev.size()); e.thread = 50; e.seq_in_thread = k; e.text = "<" + std::to_string(e.id) + ":" + payload(salt2, e.id, 0) + ">";
        P.ev.push_back(e);
        Event& x = P.ev.back();
        try { if (via_logger) log_event(*root, x, H_PLAIN); else emit_event(*sink, x); } catch (const std::exception& q) { sim::violation("emit-threw", "event %d: emit threw '%s' after the changes", x.id, q.what()); }
        if (!sim::fs->lookup(PATH)) sim::violation("not-recreated", "there is no file at the configured path after an emit");
    }
    { LibScope ls; sink.reset(); root.reset(); }
    auto where = collect(P.ev, skip);
    std::set<sim::Inode*> used;
    for (auto& e : P.ev) {
        if (!e.started) continue;
        sim::count_check();
        auto it = where.find(e.id);
        if (it == where.end() && failed.count(e.id)) continue;
        if (it == where.end()) sim::violation("lost", "event %d is in none of the files", e.id);
        used.insert(it->second);
        if (!at_path_during(it->second, PATH, e.begin, e.end))
            sim::violation("stale-file", "event %d was written to file %llu, which was not at %s at any moment of the emit", e.id, static_cast<unsigned long long>(it->second->ino), PATH);
    }
    if (used.size() > 1) P_ROT.hit();
    if (sim::fs->open_files) sim::violation("fd-leak", "%d files are still open after the sink was destroyed", sim::fs->open_files);
}

// ------------------------------------------------------------------ C23: SIGHUP-style reopening
void file_sighup(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 3), cycles = r.range(1, 3);
    // "settled": every logger has written to its file before that file is renamed, so that no two sinks ever
    // append to one file at the same time. Otherwise a replaced logger that opens its file late shares the new
    // file with its successor; whole lines then rely on the system completing each write in one piece, so such
    // runs keep writes whole and below the size from which the stream splits them itself.
    const bool async = r.chance(0.25), settled = !async && r.chance(0.5);
    Prog P(c, threads, 2, r.chance(0.5) ? 5 : 10, r.range(0, settled ? 3 : 1));
    std::vector<size_t> first;                          // the event with which each logger settles
    for (int i = 0; settled && i <= cycles; ++i) { first.push_back(P.ev.size()); P.of.resize(static_cast<size_t>(threads) + 1); P.add(c, threads, i, 77, 0, false); }
    bool two = r.chance(0.3), assign_from_owned = r.chance(0.3);
    Spec s = gen_spec(r, false);
    if (s.flush_kind == 2 && s.n > 100000) { s.unit = "64B"; s.n = 64; }
    Spec s2 = s; s2.path = "/sim/second.log";
    auto one = [&](const Spec& x) { return async ? "{\"type\":\"asynchronous\",\"factor\":3,\"overflow\":\"wait\",\"sink\":" + x.json() + "}" : x.json(); };
    std::string json = "{\"root\":[{\"type\":\"blocking\",\"formatter\":{\"type\":\"string\",\"pattern\":\"{message}\"},\"sinks\":[" + one(s) + (two ? "," + one(s2) : "") + "]}]}";
    if (settled && r.chance(0.5)) { sim::enable_fault(sim::F_WRITE_SHORT, 0.3); sim::enable_fault(sim::F_WRITE_EINTR, 0.3); }
    sim::sample("%d threads, %zu events, %d reopenings, %s%s%s, flush kind %d n %llu", threads, P.ev.size(), cycles, async ? "asynchronous" : "direct", two ? ", two files" : "", settled ? ", settled" : "", s.flush_kind, static_cast<unsigned long long>(s.n));
    std::unique_ptr<bh::registry_t> reg; std::unique_ptr<bh::root_logger_t> log;
    { LibScope ls; reg = bh::registry::configured(); log = build_json(*reg, json); }
    std::vector<uint64_t> swapped;                      // when assignments returned
    uint64_t last_began = 0;
    std::vector<int> tids;
    auto settle = [&](int i) {
        if (!settled) return;
        Event& e = P.ev[first[static_cast<size_t>(i)]];
        try { log_event(*log, e, e.aux); } catch (...) { sim::violation("log-threw", "logging event %d threw", e.id); }
        sim::count_event();
    };
    settle(0);
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 300);
            try { log_event(*log, e, e.aux); } catch (...) { sim::violation("log-threw", "logging event %d threw", e.id); }
            sim::count_event();
        }
    }, "logger"));
    std::vector<uint32_t> ops; std::vector<int> waits;
    for (int i = 0; i < cycles; ++i) { ops.push_back(c.alloc_op()); waits.push_back(r.chance(0.5) ? r.range(0, 2000) : r.range(0, 40000)); }
    for (int i = 0; i < cycles; ++i) {
        sim::sleep_ns(static_cast<uint64_t>(waits[static_cast<size_t>(i)]) * 100);
        if (!c.begin_op(ops[static_cast<size_t>(i)])) continue;
        if (!sim::fs->lookup(PATH)) P_RENUNUSED.hit();
        sim::fs->rename(PATH, std::string(PATH) + "." + std::to_string(i)); sim::note_fault(sim::F_EXT_RENAME);
        if (two) sim::fs->rename("/sim/second.log", "/sim/second.log." + std::to_string(i));
        sim::yield();
        last_began = sim::seq();
        {
            LibScope ls;
            if (assign_from_owned) { auto fresh = build_json(*reg, json); *log = std::move(*fresh); }
            else { std::istringstream is(json); *log = reg->builder<bh::config::json_t>(is).build("root"); }
        }
        P_REOPEN.hit();
        swapped.push_back(sim::seq());
        settle(i + 1);
        c.end_op();
    }
    for (int t : tids) sim::join(t);
    // every call has left: replaced loggers are gone, so their lines must be on disk
    uint64_t last = swapped.empty() ? 0 : swapped.back();
    for (const char* path : {PATH, "/sim/second.log"}) {
        if (path != PATH && !two) continue;
        std::set<int> present;
        for (auto& i : sim::fs->all) {
            bool mine = false;
            for (auto& h : sim::fs->history) if (h.ino == i && h.path == path) mine = true;
            if (!mine) continue;
            Parsed p = parse(P.ev, i->data, 0, true, "garbled", path);
            present.insert(p.ids.begin(), p.ids.end());
        }
        for (auto& e : P.ev) if (e.started && e.end < last && !present.count(e.id) && !swapped.empty()) {
            // calls that overlap the last assignment may have used the newest logger, whose lines may still be buffered
            if (e.end < last_began) sim::violation("old-not-flushed", "event %d was logged to a logger that has been replaced and left, but its line is not in any file", e.id);
        }
    }
    { LibScope ls; log.reset(); reg.reset(); }
    for (const char* path : {PATH, "/sim/second.log"}) {
        if (path != PATH && !two) continue;
        std::map<int, sim::Inode*> where;
        for (auto& i : sim::fs->all) {
            bool mine = false;
            for (auto& h : sim::fs->history) if (h.ino == i && h.path == path) mine = true;
            if (!mine) continue;
            if (i->truncated) sim::violation("truncated", "a log file was truncated or overwritten");
            Parsed p = parse(P.ev, i->data, 0, false, "garbled", path);
            for (int id : p.ids) { if (where.count(id)) sim::violation("duplicate", "event %d was written twice", id); where[id] = i.get(); }
        }
        auto cur = sim::fs->lookup(path);
        for (auto& e : P.ev) {
            if (!e.started) continue;
            sim::count_check();
            auto it = where.find(e.id);
            if (it == where.end()) sim::violation("lost", "event %d is in none of the files of %s", e.id, path);
            if (!swapped.empty() && e.begin > last && it->second != cur.get()) sim::violation("old-file", "event %d was logged after the last assignment returned but is in a renamed file", e.id);
            if (!swapped.empty() && e.begin < last && e.end > last && it->second != cur.get()) P_STRADDLE.hit();
            for (size_t k = 0; k + 1 < swapped.size(); ++k) if (e.begin > swapped[k]) {
                // must not be in a file renamed before assignment k returned
                for (auto& h : sim::fs->history) if (h.ino.get() == it->second && h.path == path && h.to < swapped[k]) {
                    bool later = false;
                    for (auto& g : sim::fs->history) if (g.ino.get() == it->second && g.path == path && g.to >= swapped[k]) later = true;
                    if (!later) sim::violation("old-file", "event %d was logged after an assignment returned but is in a file renamed before it", e.id);
                }
            }
        }
    }
    if (sim::fs->open_files) sim::violation("fd-leak", "%d files are still open after the logger was destroyed", sim::fs->open_files);
}

// ------------------------------------------------------------------ C21: allocation failures inside emit
void file_alloc(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 3);
    Prog P(c, threads, 1, 6, r.range(0, 3));
    Spec s = gen_spec(r, false); s.stat = r.chance(0.4);
    int style = pick_style(r);
    sim::enable_fault(sim::F_ALLOC, r.chance(0.5) ? 0.05 : 0.3);
    sim::sample("%d threads, %zu events, allocation failures, flush kind %d n %llu%s", threads, P.ev.size(), s.flush_kind, static_cast<unsigned long long>(s.n), s.stat ? ", stat rotation" : "");
    std::unique_ptr<bh::sink_t> sink;
    { LibScope ls; sink = make_file(s, style); }
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            try { emit_event(*sink, e); } catch (...) { if (!e.f_alloc) sim::violation("emit-threw", "event %d: emit threw although nothing failed", e.id); }
            sim::count_event();
        }
    }, "writer"));
    for (int t : tids) sim::join(t);
    sim::enable_fault(sim::F_ALLOC, 0);
    for (int k = 0; k < 2; ++k) {
        Event e; e.id = static_cast<int>(P.ev.size()); e.thread = 50; e.seq_in_thread = k; e.text = "<" + std::to_string(e.id) + ":after>";
        P.ev.push_back(e);
        try { emit_event(*sink, P.ev.back()); } catch (...) { sim::violation("emit-threw", "emit threw after memory was available again"); }
    }
    { LibScope ls; sink.reset(); }
    std::map<sim::Inode*, size_t> skip;
    auto where = collect(P.ev, skip);
    for (auto& e : P.ev) {
        sim::count_check();
        if (e.returned && !where.count(e.id)) sim::violation("lost", "event %d: emit returned but the line is not in the file", e.id);
    }
    if (sim::fs->open_files) sim::violation("fd-leak", "%d files are still open after the sink was destroyed", sim::fs->open_files);
}

std::vector<int> pa() { return {P_BIG.id, P_MULTI.id, P_HUGE.id}; }
std::vector<int> pc() { return {P_UNFL.id, P_EARLY.id, P_MANY.id}; }
std::vector<int> pe() { return {P_THREW.id, P_RECOV.id, P_OUTAGE.id}; }
std::vector<int> pr() { return {P_ROT.id, P_ROTOPEN.id, P_INOREUSE.id, P_SWITCHED.id, P_ROTERR.id, P_OTHERDEV.id, P_ROTFLUSH.id, P_MANYROT.id}; }
std::vector<int> ps() { return {P_REOPEN.id, P_STRADDLE.id, P_RENUNUSED.id}; }
Register r1({"file_append", "file sinks appending whole lines, partial and interrupted writes", {{"C11", 1}}, file_append, pa()});
Register r2({"file_crash", "flush thresholds judged at every emit and at random crash points", {{"C12", 4}}, file_crash, pc()});
Register r7({"file_units", "thresholds given in units, up to megabytes", {{"C12", 1}}, file_units, {P_UNITS.id, P_GIGA.id, P_BLANK.id}});
Register r3({"file_errors", "open and write errors that come and go", {{"C13", 1}}, file_errors, pe()});
Register r4({"file_rotate", "stat-checked rotation against an external log rotator", {{"C14", 1}, {"C12", 1}}, file_rotate, pr()});
Register r5({"file_sighup", "rename the file, assign a fresh logger over the live one", {{"C23", 2}, {"C11", 1}, {"C02", 1}}, file_sighup, ps()});
Register r6({"file_alloc", "allocation failures inside the file sink", {{"C21", 1}}, file_alloc, {}});
}  // namespace
