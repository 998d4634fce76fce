// Building loggers from configuration streams that end early, fail or throw, with failing components (C22).
#include "h.h"

#include <streambuf>

using namespace hs;
namespace {

const Probe P_LACK("config: an option with a default was left out"), P_MANY("config: many loggers, handlers or sinks"), P_BIG("config: the document is larger than a buffer"), P_TRUNC("config: the stream ended inside of the document"), P_THROW("config: the stream threw"), P_LATE("config: a component failed after others had been built"), P_OK("config: a complete logger was built"), P_TAIL("config: the stream failed behind the document"),
    P_ASYNC("config: an asynchronous sink was torn down by a failed build"), P_TWO("config: two threads built at once"), P_ALLOC("config: an allocation failed while building"), P_THREAD("config: a thread could not be created"), P_WRONG("config: a component of the document could not be created");

struct StreamBoom { int x; };
// Delivers text in chunks; at byte `limit` it ends (1), throws (2) or throws something unrelated to the standard library (3).
class FlakyBuf : public std::streambuf {
    const std::string& text; size_t pos = 0, limit, chunk; int how; char buf[8192];
public:
    bool fired = false; size_t given = 0;
    FlakyBuf(const std::string& t, size_t limit, size_t chunk, int how) : text(t), limit(limit), chunk(chunk), how(how) {}
    int_type underflow() override {
        HarnessScope h;
        sim::AllocFaults noaf(false);
        sim::yield();
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t end = how ? std::min(limit, text.size()) : text.size();
        if (pos >= end) {
            if (how && end == limit) {
                if (!fired) sim::note_fault(how == 1 ? sim::F_STREAM_EOF : sim::F_STREAM_THROW);
                fired = true;
                if (how == 2) throw std::runtime_error("streamboom");
                if (how == 3) throw StreamBoom{1};
            }
            return traits_type::eof();
        }
        size_t n = std::min(std::min(chunk, sizeof buf), end - pos);
        memcpy(buf, text.data() + pos, n);
        pos += n; given = pos;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }
};

struct Part { int kind; int id = -1; std::string path; };        // 0 flex, 1 file, 2 async(flex), 3 null, 4 console, 5 async(file), 6 syslog
struct Doc { std::string json; size_t end = 0; std::map<std::string, std::vector<std::vector<Part>>> loggers; bool has_async = false; std::string wrong, lacking; };

// Leading/trailing noise is legal; `end` is where the document proper ends.
Doc gen_doc(sim::Rng& r, int attempt, std::vector<SinkState*>& states, std::vector<std::unique_ptr<SinkState>>& own) {
    Doc d;
    auto flex = [&](Part& p) { p.id = static_cast<int>(states.size()); own.emplace_back(new SinkState); own.back()->id = p.id; own.back()->capture_attrs = false; states.push_back(own.back().get()); return "{\"type\":\"flex\",\"id\":" + std::to_string(p.id) + "}"; };
    auto file = [&](Part& p) { p.path = "/sim/logs/a" + std::to_string(attempt) + "_" + std::to_string(r.next() % 1000000) + ".log"; std::string j = "{\"type\":\"file\",\"path\":\"" + p.path + "\""; if (r.chance(0.4)) j += ",\"flush\":" + std::to_string(r.range(1, 5)); if (r.chance(0.3)) j += ",\"rotate\":{\"type\":\"stat\"}"; return j + "}"; };
    const int many = r.chance(0.08) ? r.range(1, 3) : 0;             // more of them than anything small holds
    if (many) P_MANY.hit();
    int nl = many == 1 ? r.range(3, 9) : r.range(1, 2);
    std::string j = r.chance(0.3) ? "\n // a comment\n{" : "{";
    for (int l = 0; l < nl; ++l) {
        std::string name = l > 1 ? "logger" + std::to_string(l) : l ? "access" : "root";
        j += (l ? "," : "") + std::string("\"") + name + "\":[";
        int nh = many == 2 ? r.range(3, 18) : r.range(1, 2);
        auto& hs_ = d.loggers[name];
        for (int h = 0; h < nh; ++h) {
            std::vector<Part> parts;
            std::string sinks;
            int ns = many == 3 ? r.range(4, 18) : many ? 1 : r.range(1, 3);
            for (int s = 0; s < ns; ++s) {
                Part p; int k = r.range(0, many ? 5 : 9);
                p.kind = k < 4 ? 0 : k < 6 ? 1 : k == 6 ? 2 : k == 7 ? 3 : k == 8 ? 6 : 5;
                std::string x;
                switch (p.kind) {
                case 0: x = flex(p); break;
                case 1: x = file(p); break;
                case 2: x = "{\"type\":\"asynchronous\",\"factor\":3,\"overflow\":\"wait\",\"sink\":" + flex(p) + "}"; d.has_async = true; break;
                case 3: x = "{\"type\":\"null\"}"; break;
                case 5: x = "{\"type\":\"asynchronous\",\"factor\":2,\"overflow\":\"wait\",\"sink\":" + file(p) + "}"; d.has_async = true; break;
                default: x = "{\"type\":\"syslog\",\"priorities\":[1,2,3]}"; break;
                }
                sinks += (s ? ", " : "") + x;
                parts.push_back(p);
            }
            std::string fm = r.chance(0.6) ? "{\"type\":\"string\",\"pattern\":\"{message}\"}" : r.chance(0.5) ? "{\"type\":\"json\",\"newline\":false,\"routing\":{\"/f\":[\"message\"]}}" : "{\"type\":\"tskv\",\"create\":{\"k\":\"v\"}}";
            std::string hj = std::string("{") + (r.chance(0.5) ? "\"type\":\"blocking\"," : "") + "\"formatter\":" + fm + ",\"sinks\":[" + sinks + "]}";
            j += (h ? ",\n" : "") + hj;
            hs_.push_back(parts);
        }
        j += "]";
    }
    j += "}";
    // Noise of a size around that of the buffers a reader may have: white space, comments, members nobody reads.
    if (r.chance(0.12)) {
        static const int sizes[] = {255, 1000, 1024, 1024, 2048, 4096, 4096, 4096, 8192, 65536};
        size_t n = static_cast<size_t>(std::max(1, sizes[r.below(r.chance(0.05) ? 10 : 9)] + r.range(-6, 6)));
        std::string pad;
        switch (r.range(0, 3)) {
        case 0: pad = std::string(n, r.chance(0.5) ? ' ' : '\n'); break;
        case 1: pad = "//" + std::string(n, 'c') + "\n"; break;
        case 2: pad = "/*" + std::string(n, '*') + "*/"; break;
        default: pad = "\"note\":\"" + std::string(n, 'n') + "\","; break;
        }
        std::vector<size_t> at;
        for (size_t p = j.find("\"formatter\":"); p != std::string::npos; p = j.find("\"formatter\":", p + 1)) at.push_back(p);
        j.insert(at[r.below(at.size())], pad);
        P_BIG.hit();
    }
    // the same document with one component that cannot be created
    static const struct { const char* what; const char* with; } W[] = {
        {"{\"type\":\"flex\"", "{\"type\":\"flexx\""}, {"{\"type\":\"file\"", "{\"type\":\"fil\""}, {"{\"type\":\"asynchronous\"", "{\"type\":\"async\""}, {"{\"type\":\"null\"", "{\"type\":\"\""}, {"{\"type\":\"syslog\"", "{\"type\":\"sys.log\""},
        {"{\"type\":\"string\"", "{\"type\":\"strin\""}, {"{\"type\":\"json\"", "{\"type\":\"jso\""}, {"{\"type\":\"tskv\"", "{\"type\":\"tsk\""}, {"\"type\":\"blocking\"", "\"type\":\"nonblocking\""},
        {"\"path\":", "\"pat\":"}, {"\"overflow\":\"wait\"", "\"overflow\":\"later\""}, {"\"factor\":", "\"factor\":9"}, {"\"type\":\"stat\"", "\"type\":\"state\""}, {"{\"type\":\"null\"", "{\"typ\":\"null\""}, {"{\"type\":\"flex\"", "{\"kind\":\"flex\""},
        {"{message}", "{message"}, {"\"pattern\":", "\"patern\":"}, {"\"path\":", "\"paths\":"}, {"\"formatter\":", "\"format\":"}, {"{\"type\":\"null\"", "{\"type\":\"tcp\",\"port\":1"}, {"{\"type\":\"null\"", "{\"type\":\"udp\",\"host\":\"h\""}, {"\"flush\":", "\"flush\":\"10 parsecs\",\"f\":"}, {"\"sink\":", "\"sunk\":"}};
    for (int i = 0; i < 20; ++i) {
        auto& w = W[r.below(sizeof W / sizeof *W)];
        std::vector<size_t> at;
        for (size_t p = j.find(w.what); p != std::string::npos; p = j.find(w.what, p + 1)) at.push_back(p);
        if (at.empty()) continue;
        d.wrong = j; d.wrong.replace(at[r.below(at.size())], strlen(w.what), w.with);
        break;
    }
    // and without an option of an asynchronous sink that has a default: either refused or as complete as any other
    for (const char* w : r.chance(0.5) ? std::vector<const char*>{"\"factor\"", "\"overflow\""} : std::vector<const char*>{"\"overflow\"", "\"factor\""}) {
        size_t p = j.find(w);
        if (p == std::string::npos) continue;
        d.lacking = j; d.lacking.replace(p, strlen(w), "\"unknown\"");
        break;
    }
    d.end = j.size();
    for (int i = r.range(0, 4); i > 0; --i) j += r.chance(0.5) ? "\n" : " ";
    d.json = j;
    return d;
}

void config_run(Ctx& c) {
    auto& r = c.rng;
    int threads = r.chance(0.4) ? r.range(2, 3) : 1;
    sim::fs->dirs.push_back("/sim/logs");
    std::vector<std::unique_ptr<SinkState>> own; std::vector<SinkState*> states;
    struct Try { uint32_t op; Doc doc; size_t limit = 0, chunk = 1; int how = 0; bool rvalue = false, badmask = false; int comp = 0; };
    std::vector<std::vector<Try>> tries(static_cast<size_t>(threads));
    int attempt = 0;
    for (auto& l : tries) {
        int n = threads > 1 ? r.range(1, 2) : r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            Try t; t.op = c.alloc_op(); t.doc = gen_doc(r, attempt++, states, own);
            t.chunk = static_cast<size_t>(r.chance(0.3) ? 1 : r.range(1, 64));
            if (t.doc.json.size() > 2000) t.chunk = r.chance(0.5) ? 8192 : static_cast<size_t>(r.range(500, 5000));
            int k = r.range(0, 9);
            if (k < 6) { t.how = r.range(1, 3); t.limit = r.below(t.doc.json.size() + 1); if (r.chance(0.3)) t.limit = t.doc.end - r.below(std::min<size_t>(t.doc.end, 4)); else if (t.doc.end > 1024 && r.chance(0.3)) t.limit = std::min(t.doc.end, r.chance(0.5) ? 1024 : r.chance(0.5) ? 4096 : size_t(65536)); }
            else if (k < 9 && threads == 1) t.comp = r.range(1, 3);
            else if (!t.doc.lacking.empty() && r.chance(0.3)) t.comp = 5;
            else if (!t.doc.wrong.empty()) t.comp = 4;
            t.rvalue = r.chance(0.3); t.badmask = r.chance(0.2);
            l.push_back(t);
        }
    }
    sim::sample("%d threads, %d attempts, first document %zu bytes fault %d at %zu", threads, attempt, tries[0][0].doc.json.size(), tries[0][0].how, tries[0][0].limit);
    std::unique_ptr<bh::registry_t> reg;
    { LibScope ls; reg = bh::registry::configured(); add_flex_factory(*reg, &states); }
    int building = 0;
    // Builds all loggers of a document; returns what happened. `faulty` switches component failures on in this thread only.
    auto attempt_build = [&](const Doc& d, FlakyBuf& fb, const Try* t, std::map<std::string, std::unique_ptr<bh::root_logger_t>>& out, std::string& what) {
        bool ok = false;
        try {
            LibScope ls;
            std::istream is(&fb);
            if (t && t->badmask) is.exceptions(std::ios::badbit);
            std::unique_ptr<sim::AllocFaults> af;
            if (t && t->comp == 2) { HarnessScope h; af.reset(new sim::AllocFaults(true)); }
            auto b = t && t->rvalue ? reg->builder<bh::config::json_t>(std::move(is)) : reg->builder<bh::config::json_t>(is);
            for (auto& kv : d.loggers) {
                std::unique_ptr<bh::root_logger_t> l(new bh::root_logger_t(b.build(kv.first)));
                HarnessScope h; sim::AllocFaults no(false);
                out[kv.first] = std::move(l);
            }
            if (af) { HarnessScope h; af.reset(); }
            ok = true;
        }
        catch (const std::exception& e) { what = e.what(); }
        catch (const StreamBoom&) { what = "the stream's own exception"; }
        catch (const Alien&) { what = "alien"; }
        catch (int) { what = "int"; }
        return ok;
    };
    auto verify_complete = [&](const Doc& d, std::map<std::string, std::unique_ptr<bh::root_logger_t>>& lg, int tag) {
        for (auto& kv : d.loggers) {
            auto& l = lg[kv.first];
            if (!l) sim::violation("partial", "logger '%s' is missing", kv.first.c_str());
            Event e; e.id = tag * 10 + (kv.first == "root" ? 1 : kv.first == "access" ? 2 : kv.first.back() - '0' + 1); e.sev = 1; e.text = "<" + std::to_string(e.id) + ":probe>";
            try { log_event(*l, e, H_PLAIN); } catch (...) { sim::violation("log-threw", "logging to a freshly built logger threw"); }
            { LibScope ls; l.reset(); }                           // drains asynchronous sinks
            for (auto& h : kv.second) for (auto& p : h) {
                sim::count_check();
                int n = 0;
                if (p.kind == 0 || p.kind == 2) {
                    SinkState& s = *states[static_cast<size_t>(p.id)];
                    for (auto& x : s.log) n += x.text.find(e.text) != std::string::npos;
                    if (!s.destroyed) sim::violation("leak", "sink %d outlives its logger", p.id);
                } else if (p.kind == 1 || p.kind == 5) {
                    auto f = sim::fs->lookup(p.path);
                    if (f) { size_t pos = 0; while ((pos = f->data.find(e.text, pos)) != std::string::npos) { ++n; ++pos; } }
                } else if (p.kind == 6) { n = 1; }
                else n = 1;
                if (n != 1) sim::violation("partial", "logger '%s' was built but its sink (kind %d) got %d copies of an event", kv.first.c_str(), p.kind, n);
            }
            // every configured syslog sink got it as well
            int want = 0, got = 0; for (auto& h : kv.second) for (auto& p : h) want += p.kind == 6;
            for (auto& x : sim::slog->entries) got += x.text.find(e.text) != std::string::npos;
            if (got != want) sim::violation("partial", "logger '%s': %d of %d syslog sinks got an event", kv.first.c_str(), got, want);
        }
    };
    std::vector<int> tids;
    for (int ti = 0; ti < threads; ++ti) tids.push_back(sim::spawn([&, ti] {
        int k = 0;
        for (auto& t : tries[static_cast<size_t>(ti)]) {
            int tag = ti * 100 + k++ * 10 + 1;
            if (!c.begin_op(t.op)) continue;
            if (building++) P_TWO.hit();
            if (t.comp == 1) sim::enable_fault(sim::F_FACTORY_THROW, 0.4);
            if (t.comp == 2) sim::enable_fault(sim::F_ALLOC, 0.02);
            if (t.comp == 3) sim::enable_fault(sim::F_THREAD_CREATE, 0.6);
            uint64_t faults0 = sim::throws_here() + sim::fired_here(sim::F_FACTORY_THROW) + sim::fired_here(sim::F_THREAD_CREATE);
            const bool wrong = t.comp == 4;
            if (wrong) P_WRONG.hit();
            const bool lacking = t.comp == 5;
            if (lacking) P_LACK.hit();
            FlakyBuf fb(wrong ? t.doc.wrong : lacking ? t.doc.lacking : t.doc.json, t.limit, t.chunk, t.how);
            std::map<std::string, std::unique_ptr<bh::root_logger_t>> lg; std::string what;
            bool ok = attempt_build(t.doc, fb, &t, lg, what);
            for (int f : {sim::F_FACTORY_THROW, sim::F_ALLOC, sim::F_THREAD_CREATE}) sim::enable_fault(f, 0);
            building--;
            uint64_t comp = sim::throws_here() + sim::fired_here(sim::F_FACTORY_THROW) + sim::fired_here(sim::F_THREAD_CREATE) - faults0;
            if (sim::fired_here(sim::F_ALLOC)) P_ALLOC.hit();
            if (sim::fired_here(sim::F_THREAD_CREATE)) P_THREAD.hit();
            sim::count_event();
            bool damaged = t.how && t.limit < t.doc.end;
            sim::log("attempt: %s (%s), fault %d at %zu of %zu, components %llu", ok ? "built" : "failed", what.c_str(), t.how, t.limit, t.doc.end, static_cast<unsigned long long>(comp));
            if (damaged) (t.how == 1 ? P_TRUNC : P_THROW).hit();
            if (t.how && !damaged) P_TAIL.hit();
            if (ok) {
                if (damaged) sim::violation("partial", "a logger was built from a configuration that %s at byte %zu of %zu", t.how == 1 ? "ends" : "fails", t.limit, t.doc.end);
                if (sim::fired_here(sim::F_FACTORY_THROW) && comp) sim::violation("partial", "a logger was built although one of its components could not be created");
                if (wrong) sim::violation("partial", "a logger was built although a component of its configuration cannot be created: %s", show(t.doc.wrong, 500).c_str());
                P_OK.hit();
                verify_complete(t.doc, lg, tag);
            } else {
                { LibScope ls; lg.clear(); }        // loggers that were complete before a later one failed
                if (!damaged && !comp && !wrong && !lacking && !(t.how && t.limit >= t.doc.end)) sim::violation("refused", "an intact configuration was refused: %s", what.c_str());
                for (auto& kv : t.doc.loggers) for (auto& h : kv.second) for (auto& p : h) {
                    sim::count_check();
                    if (p.id >= 0) {
                        SinkState& s = *states[static_cast<size_t>(p.id)];
                        if (!s.log.empty()) sim::violation("side-effect", "sink %d of a failed build got an event", p.id);
                        if (s.destroyed) { P_LATE.hit(); if (p.kind == 2) P_ASYNC.hit(); }
                    }
                    if (!p.path.empty() && sim::fs->lookup(p.path)) sim::violation("side-effect", "a failed build created the file %s", p.path.c_str());
                }
                // and the same document intact
                FlakyBuf good(t.doc.json, 0, t.chunk, 0);
                // sinks of the failed attempt are gone; the intact build uses fresh states under the same numbers
                for (auto& kv : t.doc.loggers) for (auto& h : kv.second) for (auto& p : h) if (p.id >= 0) {
                    own.emplace_back(new SinkState); own.back()->id = p.id; own.back()->capture_attrs = false; states[static_cast<size_t>(p.id)] = own.back().get();
                }
                std::map<std::string, std::unique_ptr<bh::root_logger_t>> again; std::string why;
                if (!attempt_build(t.doc, good, nullptr, again, why)) sim::violation("refused", "the intact configuration was refused after a failed attempt: %s", why.c_str());
                verify_complete(t.doc, again, tag + 1);
            }
        }
    }, "builder"));
    for (int t : tids) sim::join(t);
    if (sim::lib_threads_alive()) sim::violation("leak", "%d threads of failed builds are still running", sim::lib_threads_alive());
    if (sim::fs->open_files) sim::violation("leak", "%d files are still open", sim::fs->open_files);
    if (sim::slog->open) sim::violation("leak", "the system log is still open");
    for (auto& f : sim::fs->all) if (f->truncated) sim::violation("side-effect", "a file was truncated");
    { LibScope ls; reg.reset(); }
}
Register r1({"config", "loggers built from failing configuration streams and failing components", {{"C22", 1}}, config_run, {P_TRUNC.id, P_THROW.id, P_LATE.id, P_OK.id, P_TAIL.id, P_ASYNC.id, P_TWO.id, P_ALLOC.id, P_THREAD.id, P_WRONG.id, P_BIG.id, P_MANY.id, P_LACK.id}});
}  // namespace
