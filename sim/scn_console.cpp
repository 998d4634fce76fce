// Console sinks and development handlers on the simulated standard streams (C18, C21), the system log (C19).
#include "h.h"

#include <mutex>
#include <regex>
#include <blackhole/handler/dev.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/sink/syslog.hpp>
#include <blackhole/termcolor.hpp>

using namespace hs;
namespace {

const Probe P_TTY("console: a terminal was written to"), P_MIX("console: console sinks and development handlers shared a stream"), P_ERR("console: a failure report was written between events"), P_CONC("console: two calls wrote at once"),
    P_ATTR("console: a multi-line block with attributes was written"), P_COL("console: a coloured event was written"), P_NL("console: a text of several lines or with a newline at its end"), P_DENY("console: a sink's filter denied an event"), P_CUT("console: writing to a standard stream failed"), P_FRAG("console: a part of a block was left behind by a failure"), P_AGAIN("console: an event was written after a failure"), P_ESC("console: an attribute function logged while its event was being written");

struct Out { int kind; /*0 console 1 dev*/ int stream = 0; bool color = false, filtered = false, throws = false, cfg = false; int threshold = 0; int from = 0; };
struct Log { std::vector<Out> outs; std::unique_ptr<bh::root_logger_t> log; };

// colour of a severity as configured by the scenario; 0 means none
int color_of(int sev) { switch (sev) { case 0: return 2; case 1: return 34; case 2: return 33; case 3: return 31; default: return 0; } }
bh::termcolor_t term_of(int sev) { switch (sev) { case 0: return bh::termcolor_t::gray(); case 1: return bh::termcolor_t::blue(); case 2: return bh::termcolor_t::yellow(); case 3: return bh::termcolor_t::red(); default: return {}; } }

struct Block { int kind, stream, id; size_t begin, end; };
struct Oracle {
    std::vector<Event>& ev; std::vector<Log>& logs;
    bool match_console(const std::string& s, size_t pos, const Event& e, bool color, bool tty, size_t& end) const {
        std::string want;
        int k = color && tty ? color_of(e.sev) : 0;
        if (k) want = "\033[" + std::to_string(k) + "m" + e.text + "\033[0m\n"; else want = e.text + "\n";
        if (s.compare(pos, want.size(), want) != 0) return false;
        end = pos + want.size();
        return true;
    }
    // removes colour sequences from a region, remembering whether each newline is reached in reset state
    static std::string strip(const std::string& s, size_t pos, size_t limit, std::vector<size_t>& map, bool& colored_nl) {
        std::string o; bool set = false;
        for (size_t i = pos; i < s.size() && o.size() < limit;) {
            if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
                size_t j = i + 2; while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || s[j] == ';')) ++j;
                if (j < s.size() && s[j] == 'm') { set = s.substr(i + 2, j - i - 2) != "0"; i = j + 1; continue; }
            }
            if (s[i] == '\n' && set) colored_nl = true;
            map.push_back(i); o += s[i++];
            if (o.back() == '\n' && o.size() > 1 && map.size() >= limit) break;
        }
        return o;
    }
    bool match_dev(const std::string& s, size_t pos, const Event& e, bool tty, size_t brk, size_t& end) const {
        // header
        static const std::regex re("^[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]{6} ([DIWET]) ([0-9]+)/([0-9]+) - $");
        std::string want = e.text;
        for (auto& a : e.own) { char nm[64]; snprintf(nm, sizeof nm, "\n    %-16.16s: ", a.name.c_str()); want += nm; want += a.kind == 2 || a.kind == 3 ? std::to_string(a.i) : a.s; }
        want += "\n";
        std::vector<size_t> map; bool colored = false;
        std::string flat;
        if (tty) flat = strip(s, pos, 160 + want.size(), map, colored); else { flat = s.substr(pos, 160 + want.size()); }
        size_t p = flat.find('<');
        if (p == std::string::npos || p > 150) return false;
        std::smatch m; std::string head = flat.substr(0, p);
        if (!std::regex_match(head, m, re)) return false;
        if (flat.compare(p, want.size(), want) != 0) return false;
        const bool whole = brk > (tty ? map[p] : pos + p);             // else the header of one block may be followed by the text of another
        const char* letters = "DIWE";
        char w = e.sev >= 0 && e.sev < 4 ? letters[e.sev] : 'T';
        if (!whole && (m[1].str()[0] != w || m[2].str() != std::to_string(e.native) || m[3].str() != std::to_string(sim::pid()))) return false;
        if (m[1].str()[0] != w) sim::violation("dev-header", "event %d of severity %d is shown with level %s", e.id, e.sev, m[1].str().c_str());
        if (m[2].str() != std::to_string(e.native) || m[3].str() != std::to_string(sim::pid())) sim::violation("dev-header", "event %d: thread/process shown as %s/%s", e.id, m[2].str().c_str(), m[3].str().c_str());
        size_t last = p + want.size() - 1;
        if (tty) {
            bool col2 = false; std::vector<size_t> mp2;
            strip(s, pos, last + 1, mp2, col2);
            if (col2 && brk <= map[last]) return false;
            if (col2) sim::violation("color-leak", "event %d: a colour is still set at the end of a line", e.id);
            end = map[last] + 1;
        } else end = pos + last + 1;
        return true;
    }
    std::vector<Block> parse(int stream, size_t& reports, size_t& cut) const {
        bool at_break = false;
        const std::string& s = sim::con->out[stream];
        bool tty = sim::con->tty[stream];
        std::vector<Block> r;
        size_t pos = 0;
        while (pos < s.size()) {
            static const std::string rep = "logging core error occurred: ";
            size_t brk = std::string::npos;                        // the next place where writing failed
            for (auto b : sim::con->breaks[stream]) { if (b == pos) at_break = true; if (b > pos && b < brk) brk = b; }
            if (at_break) {                                        // the rest of a block may follow the failure
                at_break = false;
                size_t p0 = pos;
                while (pos < s.size() && s[pos] == '\033') { size_t m = s.find('m', pos); if (m == std::string::npos || s[pos + 2] != '0') break; pos = m + 1; }
                if (pos < s.size() && s[pos] == '\n') { ++pos; continue; }
                if (s.compare(p0, 1, "\033") == 0 && pos == s.size()) break;
                pos = p0;
            }
            if (s.compare(pos, rep.size(), rep) == 0) {
                size_t nl = s.find('\n', pos);
                if (brk != std::string::npos && (nl == std::string::npos || brk <= nl)) { ++cut; pos = brk; continue; }
                if (nl == std::string::npos || s.find('<', pos) < nl || s.find(rep, pos + 1) < nl) sim::violation("intermixed", "a failure report is not a whole line: '%s'", show(s.substr(pos, 100)).c_str());
                ++reports; pos = nl + 1; continue;
            }
            // which event starts here?
            size_t q = s.find('<', pos);
            int id = q == std::string::npos ? -1 : parse_id(s, q);
            bool ok = false;
            if (id >= 0 && static_cast<size_t>(id) < ev.size() && ev[static_cast<size_t>(id)].started) {
                const Event& e = ev[static_cast<size_t>(id)]; size_t end = 0;
                bool plain = false, colored = false, dev = false;
                for (auto& o : logs[static_cast<size_t>(e.aux)].outs) if (o.stream == stream) { if (o.kind == 1) dev = true; else if (o.color) colored = true; else plain = true; }
                if (plain && match_console(s, pos, e, false, tty, end)) { r.push_back({0, stream, id, pos, end}); ok = true; }
                else if (colored && match_console(s, pos, e, true, tty, end)) { r.push_back({2, stream, id, pos, end}); ok = true; if (tty) P_COL.hit(); }
                else if (dev && match_dev(s, pos, e, tty, brk, end)) { r.push_back({1, stream, id, pos, end}); ok = true; if (!e.own.empty()) P_ATTR.hit(); }
                if (ok) pos = end;
            }
            if (!ok && brk != std::string::npos) {                // a block cut by a failure
                size_t m = s.find('<', pos);
                int cid = m < brk ? parse_id(s.substr(0, brk), m) : -1;
                if (cid >= 0 && static_cast<size_t>(cid) < ev.size() && !ev[static_cast<size_t>(cid)].f_con) sim::violation("intermixed", "event %d is cut on standard %s at byte %zu although nothing failed while it was being written", cid, stream ? "error" : "output", pos);
                ++cut; pos = brk; continue;
            }
            if (!ok) sim::violation("intermixed", "standard %s at byte %zu does not hold a whole contiguous block of one event: '%s'", stream ? "error" : "output", pos, show(s.substr(pos, 140), 160).c_str());
            if (!tty && s.find('\033', r.back().begin) < pos) sim::violation("escape-not-tty", "event %d: a control sequence was written although the stream is not a terminal", id);
            sim::count_check();
        }
        return r;
    }
};

struct ConOpts { bool alloc, throws, io; };
void console_run(Ctx& c, const ConOpts& o) {
    auto& r = c.rng;
    int threads = r.range(1, 4), nlogs = r.range(1, 3);
    const uint64_t salt = r.next();
    sim::con->tty[0] = r.chance(0.5); sim::con->tty[1] = r.chance(0.5);
    std::vector<Event> ev;
    std::vector<Log> logs(static_cast<size_t>(nlogs));
    bool any_dev = false, any_con = false;
    for (auto& L : logs) {
        int n = r.range(1, 2);
        for (int k = 0; k < n; ++k) {
            Out x; x.kind = r.chance(0.45) ? 1 : 0;
            if (x.kind == 0) {
                int how = r.range(0, 2);
                if (how == 0) { x.cfg = true; x.filtered = r.chance(0.4); x.threshold = r.range(1, 4); }
                else { x.stream = r.chance(0.35) ? 1 : 0; x.color = how == 2; }
                any_con = true;
            } else any_dev = true;
            // two identical destinations within one logger would be indistinguishable, which is fine: counts are compared
            L.outs.push_back(x);
        }
        if (o.throws && r.chance(0.5)) { Out x; x.kind = 2; L.outs.push_back(x); }
    }
    if (any_dev && any_con) P_MIX.hit();
    if (sim::con->tty[0] || sim::con->tty[1]) P_TTY.hit();
    std::vector<std::vector<std::pair<uint32_t, int>>> of(static_cast<size_t>(threads));
    for (int t = 0; t < threads; ++t) {
        int n = r.range(1, 6);
        for (int k = 0; k < n; ++k) {
            Event e; e.id = static_cast<int>(ev.size()); e.thread = t; e.seq_in_thread = k; e.sev = r.range(0, 5);
            e.text = event_text(salt, e.id, r.range(0, 2)); e.aux = r.range(0, nlogs - 1);
            if (r.chance(0.1)) { P_NL.hit(); for (int q = r.range(1, 2); q > 0; --q) e.text.insert(e.text.size() - r.below(2), "\n"); }
            int na = r.chance(0.5) ? 0 : r.range(1, 3);
            for (int a = 0; a < na; ++a) { Attr x; x.name = "at" + std::to_string(e.id) + (r.chance(0.2) ? "_a_long_attribute_name" : "") + static_cast<char>('a' + a); int kd = r.range(0, 2); x.kind = kd == 0 ? 2 : kd == 1 ? 5 : 6; x.i = r.range(-1000, 1000); x.s = "v" + std::to_string(r.below(100000)); e.own.push_back(x); }
            ev.push_back(e);
            of[static_cast<size_t>(t)].push_back({c.alloc_op(), e.id});
        }
    }
    sim::sample("%d threads, %zu events, %d loggers, tty %d/%d", threads, ev.size(), nlogs, sim::con->tty[0], sim::con->tty[1]);
    if (o.throws) { sim::enable_fault(sim::F_ATTR_THROW, 0.3); sim::enable_fault(sim::F_SINK_THROW, 0.5); }
    if (o.alloc) sim::enable_fault(sim::F_ALLOC, r.chance(0.5) ? 0.02 : 0.15);
    std::vector<std::unique_ptr<SinkState>> bads;
    for (auto& L : logs) {
        LibScope ls;
        std::vector<std::unique_ptr<bh::handler_t>> hs_;
        auto reg = bh::registry::configured();
        reg->add<bh::experimental::handler::dev_t>(*reg);
        for (auto& x : L.outs) {
            if (x.kind == 1) {
                if (c.rng.chance(0.5)) { hs_.push_back(bh::builder<bh::experimental::handler::dev_t>().build()); continue; }
                std::istringstream is("{\"type\":\"dev\"}");
                auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
                hs_.push_back(reg->handler("dev")(f->config()));
                continue;
            }
            bh::builder<bh::handler::blocking_t> hb;
            hb.set(real_formatter());
            if (x.kind == 2) { { HarnessScope h; bads.emplace_back(new SinkState); bads.back()->capture_attrs = false; } hb.add(make_sink(bads.back().get())); }
            else if (x.cfg) {
                std::istringstream is(x.filtered ? "{\"type\":\"console\",\"filter\":{\"type\":\"severity\",\"threshold\":" + std::to_string(x.threshold) + "}}" : "{\"type\":\"console\"}");
                auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
                hb.add(reg->sink("console")(f->config()));
            } else {
                bh::builder<bh::sink::console_t> b;
                if (x.stream) b.stderr(); else b.stdout();
                if (x.color) {
                    if (c.rng.chance(0.5)) for (int s = 0; s < 4; ++s) b.colorize(bh::severity_t(s), term_of(s));
                    else b.colorize([](const bh::record_t& rec) { { HarnessScope h; sim::yield(); } return term_of(rec.severity()); });
                }
                hb.add(std::move(b).build());
            }
            hs_.push_back(std::move(hb).build());
        }
        L.log.reset(new bh::root_logger_t(std::move(hs_)));
    }
    Oracle orc{ev, logs};
    int inside = 0; uint64_t thrown = 0;
    bool recovering = false, ended = false;                // the streams worked, failed and work again
    int disk = -1;
    if (o.io) {
        double p = r.chance(0.3) ? 1.0 : r.chance(0.5) ? 0.4 : 0.1;
        std::vector<std::pair<uint32_t, std::pair<int, int>>> ep;
        for (int k = r.range(1, 3); k > 0; --k) { uint32_t op = c.alloc_op(); int at = r.range(0, 300), len = r.range(20, 600); ep.push_back({op, {at, len}}); }
        disk = sim::spawn([&, p, ep] {
            for (auto& x : ep) {
                sim::sleep_ns(static_cast<uint64_t>(x.second.first) * 100);
                if (ended) break;
                if (!c.begin_op(x.first)) continue;
                sim::enable_fault(sim::F_CONSOLE_ERR, p);
                sim::sleep_ns(static_cast<uint64_t>(x.second.second) * 100);
                sim::enable_fault(sim::F_CONSOLE_ERR, 0);
                recovering = true;
            }
        }, "device");
    }
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = ev[static_cast<size_t>(p.second)];
            if (inside++) P_CONC.hit();
            bool threw = false;
            try { log_event(*logs[static_cast<size_t>(e.aux)].log, e, c.rng.chance(0.5) ? H_PLAIN : H_FACADE); } catch (...) { threw = true; }
            inside--;
            if (e.f_con) P_CUT.hit();
            if (threw && !e.f_alloc) sim::violation("log-threw", "logging event %d threw", e.id);
            sim::count_event();
            if (e.throws || e.f_con) { ++thrown; continue; }
            if (recovering) P_AGAIN.hit();
            // flushed when the call returns
            for (int st = 0; st < 2; ++st) {
                int want = 0;
                for (auto& x : logs[static_cast<size_t>(e.aux)].outs) if (x.kind != 2 && x.stream == st && !(x.filtered && e.sev < x.threshold)) ++want;
                if (!want) continue;
                std::string pat = e.text;
                size_t pos = 0, n = 0, last = 0;
                while ((pos = sim::con->out[st].find(pat, pos)) != std::string::npos) { ++n; last = pos + pat.size(); pos += pat.size(); }
                if (static_cast<int>(n) != want) sim::violation("not-written", "event %d: %zu of %d copies are on standard %s when the log call returned", e.id, n, want, st ? "error" : "output");
                if (sim::con->flushed[st] < last + 1) sim::violation("not-flushed", "event %d is not flushed when the log call returned", e.id);
            }
        }
    }, "logger"));
    for (int t : tids) sim::join(t);
    if (o.io) { ended = true; sim::join(disk); }
    for (int f : {sim::F_ATTR_THROW, sim::F_SINK_THROW, sim::F_ALLOC, sim::F_CONSOLE_ERR}) sim::enable_fault(f, 0);
    for (int i = 0; i < nlogs; ++i) {
        Event e; e.id = static_cast<int>(ev.size()); e.thread = 50 + i; e.sev = 3; e.aux = i; e.text = "<" + std::to_string(e.id) + ":fin>";
        ev.push_back(e);
        try { log_event(*logs[static_cast<size_t>(i)].log, ev.back(), H_PLAIN); } catch (...) { sim::violation("log-threw", "logging after the failures threw"); }
    }
    size_t reports = 0, cut = 0;
    std::map<std::pair<int, int>, std::map<int, int>> got;          // (event, stream) -> kind -> count
    for (int st = 0; st < 2; ++st) {
        std::map<std::pair<int, int>, int> last;
        for (auto& b : orc.parse(st, reports, cut)) {
            got[{b.id, st}][b.kind]++;
            Event& e = ev[static_cast<size_t>(b.id)];
            auto k = std::make_pair(e.thread, b.kind * 10 + e.aux);
            if (last.count(k) && last[k] > e.seq_in_thread) sim::violation("order", "event %d of thread %d is out of order", b.id, e.thread);
            last[k] = e.seq_in_thread;
        }
        if (!sim::con->out[st].empty() && sim::con->breaks[st].empty() && sim::con->flushed[st] != sim::con->out[st].size()) sim::violation("not-flushed", "%zu bytes written to a standard stream were never flushed", sim::con->out[st].size() - sim::con->flushed[st]);
    }
    for (auto& e : ev) {
        if (!e.started) continue;
        sim::count_check();
        for (int st = 0; st < 2; ++st) {
            int dev = 0, con = 0;
            for (auto& x : logs[static_cast<size_t>(e.aux)].outs) {
                if (x.kind == 2 || x.stream != st) continue;
                if (x.filtered && e.sev < x.threshold) { P_DENY.hit(); continue; }
                if (x.kind == 1) ++dev; else ++con;
            }
            auto& g = got[{e.id, st}];
            int gd = g[1], gc = g[0] + g[2];
            if (gd > dev || gc > con) sim::violation("duplicate", "event %d appears %d+%d times on standard %s, expected at most %d+%d", e.id, gc, gd, st ? "error" : "output", con, dev);
            bool dev_may_fail = e.f_attr || e.f_alloc;
            if (gc < con && !e.f_alloc && !e.f_con) sim::violation("lost", "event %d appears %d times from console sinks, expected %d", e.id, gc, con);
            if (gd < dev && !dev_may_fail && !e.f_con) sim::violation("lost", "event %d appears %d times from development handlers, expected %d", e.id, gd, dev);
        }
    }
    if (!o.alloc) {
        size_t failures = 0;
        for (auto& e : ev) if (!e.f_con) failures += e.f_sink + e.f_attr;
        sim::count_check();
        if (reports < failures) sim::violation("unreported", "%zu handler failures but only %zu whole reports on standard output", failures, reports);
    }
    // an event without any text is a line as well
    for (int i = 0; i < nlogs && !o.alloc; ++i) {
        Log& L = logs[static_cast<size_t>(i)];
        size_t at[2] = {sim::con->out[0].size(), sim::con->out[1].size()};
        Event e; e.id = static_cast<int>(ev.size()); e.thread = 90 + i; e.sev = r.range(0, 4); e.aux = i;
        ev.push_back(e);
        try { log_event(*L.log, ev.back(), H_PLAIN); } catch (...) { sim::violation("log-threw", "logging an empty message threw"); }
        for (int st = 0; st < 2; ++st) {
            std::string d = sim::con->out[st].substr(at[st]), o2;
            for (size_t k = 0; k < d.size(); ++k) {
                if (d[k] == '\033' && sim::con->tty[st]) { size_t m = d.find('m', k); if (m != std::string::npos) { k = m; continue; } }
                o2 += d[k];
            }
            static const std::regex head("[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]{6} [DIWET] [0-9]+/[0-9]+ - \n");
            size_t pos = 0; bool ok = true;
            for (auto& x : L.outs) {
                if (x.kind == 2 || x.stream != st || (x.filtered && e.sev < x.threshold)) continue;
                size_t nl = o2.find('\n', pos);
                if (nl == std::string::npos) { ok = false; break; }
                std::string line = o2.substr(pos, nl - pos + 1);
                ok = ok && (x.kind == 1 ? std::regex_match(line, head) : line == "\n");
                pos = nl + 1;
            }
            sim::count_check();
            if (!ok || pos != o2.size()) sim::violation("empty-event", "an event without text came out on standard %s as '%s'", st ? "error" : "output", show(d).c_str());
            if (sim::con->flushed[st] != sim::con->out[st].size() && sim::con->breaks[st].empty()) sim::violation("not-flushed", "an empty event is not flushed when the log call returned");
        }
    }
    if (cut) P_FRAG.hit();
    if (reports) P_ERR.hit();
    { LibScope ls; for (auto& L : logs) L.log.reset(); }
}
void console_mix(Ctx& c) { console_run(c, {false, false, false}); }
void console_fail(Ctx& c) { console_run(c, {false, true, false}); }
void console_alloc(Ctx& c) { console_run(c, {true, c.rng.chance(0.3), false}); }
void console_io(Ctx& c) { console_run(c, {false, c.rng.chance(0.3), true}); }

// ------------------------------------------------------------------ system log
const Probe P_CLOSE("syslog: a sink was destroyed while others were logging"), P_MANYPRIO("syslog: more than eight priorities were configured"), P_UNMAP("syslog: an unmapped severity was logged"), P_MANY("syslog: several sinks were alive"), P_SLCONC("syslog: two calls logged at once");

struct SlSink { std::vector<int> prio; std::unique_ptr<bh::sink_t> sink; int users = 0; bool closing = false; };
void syslog_run(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 4), nsinks = r.range(1, 4);
    const uint64_t salt = r.next();
    bool alloc = r.chance(0.15);
    std::vector<SlSink> sinks(static_cast<size_t>(nsinks));
    std::mutex gate;
    auto json = [&](const std::vector<int>& p) { std::string j = "{\"type\":\"syslog\""; if (!p.empty()) { j += ",\"priorities\":["; for (size_t i = 0; i < p.size(); ++i) j += (i ? "," : "") + std::to_string(p[i]); j += "]"; } return j + "}"; };
    auto create = [&](SlSink& s) {
        std::string j = json(s.prio);
        LibScope ls;
        auto reg = bh::registry::configured();
        std::istringstream is(j);
        auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
        auto made = reg->sink("syslog")(f->config());
        { std::lock_guard<std::mutex> l(gate); }
        HarnessScope h;
        s.sink = std::move(made);
    };
    const bool many = r.chance(0.1);                      // applications map more severities than the usual five
    for (auto& s : sinks) { int n = many ? r.range(6, 40) : r.range(0, 5); for (int k = 0; k < n; ++k) s.prio.push_back(r.range(0, 7)); }
    // the identity the system logger should see: what a lone sink registers
    create(sinks[0]);
    if (!sim::slog->ident) sim::violation("no-identity", "no identity is registered with the system logger although a syslog sink is alive");
    std::string identity = sim::slog->ident;
    for (size_t i = 1; i < sinks.size(); ++i) if (r.chance(0.6)) create(sinks[i]);
    std::vector<Event> ev;
    std::vector<std::vector<std::pair<uint32_t, int>>> of(static_cast<size_t>(threads));
    for (int t = 0; t < threads; ++t) {
        int n = r.range(1, 7);
        for (int k = 0; k < n; ++k) {
            Event e; e.id = static_cast<int>(ev.size()); e.thread = t; e.seq_in_thread = k; e.sev = r.range(-1, many ? 42 : 7);
            e.text = event_text(salt, e.id, RAW + r.range(0, 3)); if (r.chance(0.3)) e.text += " 100%s %n %d"; if (r.chance(0.15)) e.text.insert(e.text.size() - 1 - r.below(std::min<size_t>(3, e.text.size() - 4)), "\n"); if (r.chance(0.1)) e.text += r.chance(0.5) ? "\n" : r.chance(0.5) ? "\n\n" : " \t";
            e.aux = r.range(0, nsinks - 1);
            ev.push_back(e);
            of[static_cast<size_t>(t)].push_back({c.alloc_op(), e.id});
        }
    }
    int acts = r.range(0, 6);
    std::vector<uint32_t> ops; std::vector<int> which, waits;
    for (int i = 0; i < acts; ++i) { ops.push_back(c.alloc_op()); which.push_back(r.range(0, nsinks - 1)); waits.push_back(r.range(0, 400)); }
    sim::sample("%d threads, %zu events, %d sinks, %d creations or destructions", threads, ev.size(), nsinks, acts);
    if (alloc) sim::enable_fault(sim::F_ALLOC, 0.1);
    int inside = 0;
    std::vector<int> sent(ev.size(), -1);
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = ev[static_cast<size_t>(p.second)];
            size_t k = static_cast<size_t>(e.aux);
            if (!sinks[k].sink || sinks[k].closing) k = 0;       // sink 0 always stays
            SlSink& s = sinks[k];
            s.users++;
            if (inside++) P_SLCONC.hit();
            { LibScope ls; std::lock_guard<std::mutex> l(gate); }
            try { emit_event(*s.sink, e); } catch (...) { if (!e.f_alloc) sim::violation("emit-threw", "emitting event %d to the system log threw", e.id); }
            inside--;
            { LibScope ls; std::lock_guard<std::mutex> l(gate); }     // hands the sink over to whoever destroys it
            s.users--;
            sent[static_cast<size_t>(e.id)] = static_cast<int>(k);
            sim::count_event();
        }
    }, "logger"));
    int life = sim::spawn([&] {
        for (int i = 0; i < acts; ++i) {
            sim::sleep_ns(static_cast<uint64_t>(waits[static_cast<size_t>(i)]) * 100);
            if (!c.begin_op(ops[static_cast<size_t>(i)])) continue;
            size_t k = static_cast<size_t>(which[static_cast<size_t>(i)]);
            if (k == 0) continue;
            SlSink& s = sinks[k];
            if (s.sink) {
                s.closing = true;
                sim::block_until([&] { return s.users == 0; }, "sink idle");
                if (inside) P_CLOSE.hit();
                { LibScope ls; std::lock_guard<std::mutex> l(gate); }
                { LibScope ls; s.sink.reset(); }
                s.closing = false;
            } else create(s);
            int alive = 0; for (auto& x : sinks) alive += x.sink != nullptr;
            if (alive > 1) P_MANY.hit();
        }
    }, "lifecycle");
    for (int t : tids) sim::join(t);
    sim::join(life);
    sim::enable_fault(sim::F_ALLOC, 0);
    std::vector<int> cnt(ev.size());
    std::map<int, int> last;
    for (auto& x : sim::slog->entries) {
        sim::count_check();
        int id = parse_id(x.text);
        if (id < 0 || static_cast<size_t>(id) >= ev.size()) sim::violation("text", "the system log got '%s'", show(x.text).c_str());
        Event& e = ev[static_cast<size_t>(id)];
        if (x.text != e.text) sim::violation("text", "event %d: the system log got '%s', expected '%s'", id, show(x.text).c_str(), show(e.text).c_str());
        cnt[static_cast<size_t>(id)]++;
        if (sent[static_cast<size_t>(id)] >= 0) {
            auto& p = sinks[static_cast<size_t>(sent[static_cast<size_t>(id)])].prio;
            int want = e.sev >= 0 && static_cast<size_t>(e.sev) < p.size() ? p[static_cast<size_t>(e.sev)] : 3;
            if (p.size() > 8 && e.sev >= 8) P_MANYPRIO.hit();
            if (want == 3 && (e.sev < 0 || static_cast<size_t>(e.sev) >= p.size())) P_UNMAP.hit();
            if ((x.priority & 7) != want) sim::violation("priority", "event %d of severity %d was logged with priority %d, expected %d", id, e.sev, x.priority, want);
        }
        if (!x.has_ident || x.ident != identity) sim::violation("identity", "event %d was logged under identity '%s' instead of '%s' although syslog sinks were alive all the time", id, x.has_ident ? x.ident.c_str() : "(none)", identity.c_str());
        auto it = last.find(e.thread);
        if (it != last.end() && it->second >= e.seq_in_thread) sim::violation("order", "event %d of thread %d is out of order", id, e.thread);
        last[e.thread] = e.seq_in_thread;
    }
    for (auto& e : ev) {
        if (!e.started) continue;
        int n = cnt[static_cast<size_t>(e.id)];
        if (n > 1) sim::violation("duplicate", "event %d was logged %d times", e.id, n);
        if (e.returned && n != 1) sim::violation("lost", "event %d: emit returned but the system log got nothing", e.id);
    }
    // an event without any text is an entry as well
    for (auto& s : sinks) if (s.sink) {
        Event e; e.id = static_cast<int>(ev.size()); e.thread = 60; e.sev = r.range(0, 5);
        size_t n = sim::slog->entries.size();
        emit_event(*s.sink, e);
        sim::count_check();
        if (sim::slog->entries.size() != n + 1 || !sim::slog->entries.back().text.empty()) sim::violation("lost", "an event without text made %zu entries", sim::slog->entries.size() - n);
    }
    { LibScope ls; for (auto& s : sinks) s.sink.reset(); }
    // recreating after all are gone works as well
    create(sinks[0]);
    Event f; f.id = 0; f.text = "<0:again>"; f.sev = 1;
    size_t before = sim::slog->entries.size();
    emit_event(*sinks[0].sink, f);
    if (sim::slog->entries.size() != before + 1 || !sim::slog->entries.back().has_ident || sim::slog->entries.back().ident != identity) sim::violation("identity", "a syslog sink created after all others were destroyed logs without its identity");
    { LibScope ls; sinks[0].sink.reset(); }
}

std::vector<int> pc() { return {P_TTY.id, P_MIX.id, P_CONC.id, P_ATTR.id, P_COL.id, P_DENY.id, P_NL.id}; }
Register r1({"console_mix", "console sinks and development handlers of several loggers on shared streams", {{"C18", 3}}, console_mix, pc()});
Register r2({"console_fail", "the same while attribute functions and sinks throw", {{"C18", 1}}, console_fail, pc()});
Register r3({"console_alloc", "the same with allocation failures", {{"C21", 1}}, console_alloc, {}});
Register r5({"console_io", "the same while writing to the standard streams fails for a while", {{"C26", 1}}, console_io, {P_CUT.id, P_FRAG.id, P_AGAIN.id, P_ERR.id}});
Register r4({"syslog", "system log entries while sinks come and go", {{"C19", 1}}, syslog_run, {P_CLOSE.id, P_UNMAP.id, P_MANYPRIO.id, P_MANY.id, P_SLCONC.id}});
}  // namespace
