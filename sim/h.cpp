#include "h.h"

#include <limits.h>
#include <new>
#include <system_error>
#include <typeinfo>

namespace hs {

int probe_id(const char* name) {
    auto& m = probe_names();
    for (auto& kv : m) if (kv.second == name) return kv.first;
    int id = static_cast<int>(m.size());
    m[id] = name;
    return id;
}

// ------------------------------------------------------------------ content
static const Probe P_HUGE("generator: a message of more than 64 KB");
std::string payload(uint64_t salt, int id, int klass, bool newlines) {
    sim::Rng r(sim::mix(salt, static_cast<uint64_t>(id)));
    size_t n;
    switch (klass % RAW) {
    case 0: n = r.below(12); break;
    case 1: n = r.below(90); break;
    case 2: n = r.below(10) == 0 ? 500 + r.below(r.below(8) == 0 ? 20000 : 1500) : r.below(200); break;
    case 3: n = r.below(6) == 0 ? 8150 + r.below(200) : r.below(400); break;   // around stdio/filebuf buffer size
    default: n = r.below(8) == 0 ? 4000 + r.below(30000) : r.below(700); break;
    }
    if (klass % RAW >= 2 && r.below(150) == 0) { n = 65400 + r.below(3000); P_HUGE.hit(); }   // past any 16 bit length
    std::string s; s.reserve(n);
    // now and then texts that trip over formatting, escaping or zero-terminated strings
    int special = klass >= RAW ? 0 : static_cast<int>(sim::mix(salt, 77) % 4);
    static const char odd[] = "%{}\"\\\t\r|=&;'%s%n{0}\0\x80\xc3\xff\x7f";
    static const char abc[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-+*/()[]";
    for (size_t i = 0; i < n; ++i) if (special == 1 && r.below(6) == 0) s += odd[r.below(sizeof odd - 1)]; else s += newlines && r.below(40) == 0 ? '\n' : abc[r.below(sizeof abc - 1)];
    return s;
}
std::string event_text(uint64_t salt, int id, int klass) { return "<" + std::to_string(id) + ":" + payload(salt, id, klass) + ">"; }
int parse_id(const std::string& s, size_t pos) {
    if (pos >= s.size() || s[pos] != '<') return -1;
    int v = 0; size_t i = pos + 1;
    if (i >= s.size() || !isdigit(static_cast<unsigned char>(s[i]))) return -1;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])) && v < 100000000) v = v * 10 + (s[i++] - '0');
    return i < s.size() && s[i] == ':' ? v : -1;
}

int identify(const std::string& text, int sev) { return text.empty() && sev >= EMPTY_SEV ? sev - EMPTY_SEV : parse_id(text); }
void vary_event(sim::Rng& r, Event& e) {
    static const int extreme[] = {INT_MIN, INT_MIN + 1, -70000, -129, -2, 7, 63, 64, 127, 128, 255, 256, 32767, 32768, 65536, 65538, INT_MAX};
    switch (r.below(20)) {
    case 0: e.text.clear(); e.sev = EMPTY_SEV + e.id; break;
    case 1: case 2: e.sev = extreme[r.below(sizeof extreme / sizeof *extreme)]; break;
    default: break;
    }
}

std::string Attr::canon() const {
    switch (kind) {
    case 0: return name + "=null";
    case 1: return name + "=b" + std::to_string(i & 1);
    case 2: return name + "=i" + std::to_string(i);
    case 3: return name + "=u" + std::to_string(static_cast<uint64_t>(i));
    case 4: { char b[64]; snprintf(b, sizeof b, "=d%.17g", static_cast<double>(i) / 8); return name + b; }
    case 5: return name + "=s" + s;
    default: return name + "=s" + s;       // function: compared by its text
    }
}
Attrs gen_attrs(sim::Rng& r, const std::string& prefix, int max, bool functions, bool shared) {
    Attrs a;
    int n = r.range(0, max);
    for (int k = 0; k < n; ++k) {
        Attr x;
        x.name = prefix + std::to_string(k) + (r.chance(0.2) ? "_a_rather_long_attribute_name" : "");
        if (shared && r.chance(0.7)) { static const char* const pool[] = {"id", "name", "request", "message", "severity", "a_name_that_is_used_in_many_places"}; x.name = pool[r.below(6)]; }
        x.kind = r.range(0, functions ? 6 : 5);
        x.i = static_cast<int64_t>(r.next() >> r.below(40));
        if (x.kind == 4) x.i %= 100000000;
        size_t len = r.chance(0.3) ? r.below(60) : r.below(10);
        if (r.chance(0.02)) len = 400 + r.below(3000);
        bool odd = r.chance(0.1);
        for (size_t j = 0; j < len; ++j) x.s += odd && r.below(4) == 0 ? "\0%{}\xff\n\"\\"[r.below(8)] : static_cast<char>('a' + r.below(26));
        a.push_back(x);
    }
    return a;
}

std::string show(const std::string& s, size_t max) {
    std::string o;
    for (unsigned char c : s) {
        if (o.size() >= max) { o += "..."; break; }
        if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
std::string json_quote(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
std::string canon_list(const Attrs& a) { std::string s; for (auto& x : a) s += x.canon() + ";"; return s; }

std::function<void(int)> nest_hook;
static void nest(int place) { if (nest_hook) nest_hook(place); }

// ------------------------------------------------------------------ user exceptions
void throw_user(int kind, const std::string& text) {
    LibScope ls;
    switch (kind) {
    case 2: throw 42;
    case 3: throw Alien{7};
    case 4: throw std::bad_alloc();
    case 5: throw std::out_of_range(text);
    case 6: throw std::invalid_argument(text);
    case 7: throw std::system_error(EACCES, std::system_category(), text);
    case 8: throw std::domain_error(text);
    case 9: throw std::bad_cast();
    case 10: throw std::runtime_error("");
    case 11: throw text;
    case 12: throw "a string literal";
    default: throw std::runtime_error(text);
    }
}

// ------------------------------------------------------------------ capture
static std::string take(const bh::string_view& v) {
    // reads memory owned by the library or the producer: checked against the allocator and the
    // race detector
    sim::touch_read(v.data(), v.size());
    HarnessScope h;
    return std::string(v.data() ? v.data() : "", v.data() ? v.size() : 0);
}
struct Canon : public bh::attribute::view_t::visitor_t {
    std::string out; bool functions = true;
    void operator()(const std::nullptr_t&) override { out = "null"; }
    void operator()(const bool& v) override { HarnessScope h; out = v ? "b1" : "b0"; }
    void operator()(const std::int64_t& v) override { HarnessScope h; out = "i" + std::to_string(v); }
    void operator()(const std::uint64_t& v) override { HarnessScope h; out = "u" + std::to_string(v); }
    void operator()(const double& v) override { HarnessScope h; char b[64]; snprintf(b, sizeof b, "d%.17g", v); out = b; }
    void operator()(const bh::string_view& v) override { std::string s = take(v); HarnessScope h; out = "s" + s; }
    void operator()(const bh::attribute::view_t::function_type& f) override {
        if (!functions) { HarnessScope h; out = "f"; return; }
        bh::writer_t wr;
        f(wr);
        std::string s = take(wr.result());
        HarnessScope h; out = "s" + s;
    }
};
std::vector<std::vector<std::string>> capture_attributes(const bh::record_t& rec, bool functions) {
    HarnessScope hsc;
    std::vector<std::vector<std::string>> r;
    LibScope ls;
    const bh::attribute_pack& pack = rec.attributes();
    sim::touch_read(&pack, sizeof pack);
    for (const auto& lst : pack) {
        sim::touch_read(&lst, sizeof lst);
        const bh::attribute_list& l = lst.get();
        sim::touch_read(&l, sizeof(void*) * 3);
        { HarnessScope h; r.emplace_back(); }
        for (const auto& kv : l) {
            sim::touch_read(&kv, sizeof kv);
            std::string name = take(kv.first);
            Canon c; c.functions = functions;
            kv.second.apply(c);
            HarnessScope h;
            r.back().push_back(name + "=" + c.out);
        }
    }
    return r;
}

// ------------------------------------------------------------------ recording sink
namespace {
// The text of the n-th failure of a user component: now and then a long one.
std::string boom(const char* kind, int id, int n) {
    std::string s = kind + std::to_string(id) + "." + std::to_string(n) + "!";
    unsigned h = static_cast<unsigned>(id * 31 + n * 7);
    if (h % 5 == 0) s += std::string(100 + h * 97 % 900, 'b') + "%s";
    if (h % 11 == 0) s += std::string(3000 + h * 131 % 6000, 'c') + "{}";
    return s + "#";
}
class FlexSink : public bh::sink_t {
    SinkState* st;
public:
    explicit FlexSink(SinkState* st) : st(st) {}
    ~FlexSink() override {
        HarnessScope h;
        if (st->destroyed) sim::violation("sink-destroyed-twice", "sink %d is destroyed twice", st->id);
        if (st->inside) sim::violation("destroyed-while-used", "sink %d is destroyed by t%d while t%d is inside its emit", st->id, sim::self(), st->last_tid);
        st->destroyed = true; st->destroyed_seq = sim::seq(); st->destroyed_by = sim::self();
        sim::log("sink %d destroyed", st->id);
        if (st->on_destroy) st->on_destroy();
    }
    void emit(const bh::record_t& rec, const bh::string_view& msg) override {
        sim::touch_read(this, sizeof *this);
        SinkState* s = st;
        HarnessScope h;
        sim::AllocFaults noaf(false);
        if (s->destroyed) sim::violation("use-after-destroy", "sink %d is used by t%d after its destruction", s->id, sim::self());
        if (s->exclusive && s->inside) sim::violation("overlap", "sink %d: t%d enters emit while t%d is still inside", s->id, sim::self(), s->last_tid);
        if (s->want_thread_fixed && s->last_tid >= 0 && s->last_tid != sim::self()) sim::violation("two-workers", "sink %d is fed by t%d and t%d", s->id, s->last_tid, sim::self());
        const uint64_t entered = sim::seq();
        s->inside++; s->last_tid = sim::self();
        struct Leave { SinkState* s; ~Leave() { s->inside--; } } leave{s};
        sim::yield();
        if (s->gate) sim::block_until([s] { return !s->gate; }, "slow sink");
        if (int64_t f = sim::fault(sim::F_SINK_SLOW, 100)) sim::sleep_ns(static_cast<uint64_t>(s->slow_ms * 1e6 * static_cast<double>(f) / 100));
        Entry e;
        e.sink = s->id; e.tid = sim::self(); e.enter = entered;
        {
            LibScope ls;
            std::string m, f, t;
            const bh::string_view& mv = rec.message();
            const bh::string_view& fv = rec.formatted();
            m = take(mv); f = take(fv); t = take(msg);
            e.sev = rec.severity(); e.native = static_cast<uint64_t>(rec.tid());
            e.lwp = rec.lwp(); e.pid = rec.pid();
            e.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(rec.timestamp().time_since_epoch()).count();
            HarnessScope h2;
            e.message = std::string(m.data(), m.size()); e.formatted = std::string(f.data(), f.size()); e.text = std::string(t.data(), t.size());
        }
        if (s->capture_attrs) e.attrs = capture_attributes(rec);
        e.seq = sim::seq();
        e.id = identify(e.text, e.sev);
        e.threw = false;
        sim::log("sink %d emit id %d", s->id, e.id);
        if (s->hook) s->hook(e);
        int64_t thr = sim::fault(sim::F_SINK_THROW, 12);
        e.threw = thr != 0;
        s->log.push_back(e);
        sim::count_event();
        if (thr) {
            s->nthrow++;
            std::string what = boom("sinkboom#", s->id, s->nthrow);
            if (thr == 1 || (thr >= 5 && thr <= 8)) s->thrown.push_back(what); else s->thrown_other++;
            throw_user(static_cast<int>(thr), what);
        }
        if (nest_hook) {
            nest(N_SINK);
            LibScope ls;
            std::string again = take(msg), fagain = take(rec.formatted());
            HarnessScope h2;
            const Entry& mine = e;
            if (std::string(again.data(), again.size()) != mine.text) sim::violation("content", "sink %d: the text of event %d changed to '%s' while the sink was using it", s->id, mine.id, show(std::string(again.data(), again.size())).c_str());
            if (std::string(fagain.data(), fagain.size()) != mine.formatted) sim::violation("content", "sink %d: the record of event %d changed while the sink was using it", s->id, mine.id);
        }
        if (s->reenter) { LibScope ls; s->reenter(rec); }
    }
};
class FlexFormatter : public bh::formatter_t {
    FmtState* st;
public:
    explicit FlexFormatter(FmtState* st) : st(st) {}
    ~FlexFormatter() override { HarnessScope h; st->destroyed = true; }
    void format(const bh::record_t& rec, bh::writer_t& wr) override {
        sim::touch_read(this, sizeof *this);
        sim::AllocFaults noaf(false);
        { HarnessScope h;
          if (st->destroyed) sim::violation("use-after-destroy", "formatter %d is used after its destruction", st->id);
          sim::yield(); }
        const bh::string_view& f = rec.formatted();
        std::string t = take(f);
        { HarnessScope h;
          int64_t thr = sim::fault(sim::F_FORMATTER_THROW, 12);
          if (thr) {
              st->nthrow++;
              std::string what = boom("fmtboom#", st->id, st->nthrow);
              if (thr == 1 || (thr >= 5 && thr <= 8)) st->thrown.push_back(what); else st->thrown_other++;
              st->failed_events.insert(identify(t, rec.severity()));
              throw_user(static_cast<int>(thr), what);
          } }
        if (nest_hook) {
            size_t half = t.size() / 2;
            wr.inner << bh::fmt::StringRef(t.data(), half);
            { HarnessScope h; nest(N_FORMATTER); }
            wr.inner << bh::fmt::StringRef(t.data() + half, t.size() - half);
            return;
        }
        wr.inner << bh::fmt::StringRef(t.data(), t.size());
    }
};
}  // namespace

std::unique_ptr<bh::sink_t> make_sink(SinkState* st) { return std::unique_ptr<bh::sink_t>(new FlexSink(st)); }
std::unique_ptr<bh::formatter_t> make_formatter(FmtState* st) { return std::unique_ptr<bh::formatter_t>(new FlexFormatter(st)); }
std::unique_ptr<bh::formatter_t> real_formatter(const char* pattern) { return bh::builder<bh::formatter::string_t>(pattern).build(); }

// ------------------------------------------------------------------ log calls
namespace {
struct BuiltAttrs {                      // attribute storage of one call, in library memory
    std::vector<std::string> names, strings;
    std::vector<Disp> disp;
    bh::attribute_list list;
    BuiltAttrs(const Attrs& a, bool functions) {
        names.reserve(a.size()); strings.reserve(a.size()); disp.reserve(a.size());
        for (auto& x : a) {
            names.emplace_back(x.name.data(), x.name.size());
            names.back() += "~junk";                       // views are not zero-terminated
            bh::string_view n(names.back().data(), x.name.size());
            switch (x.kind) {
            case 0: list.emplace_back(n, bh::attribute::view_t(nullptr)); break;
            case 1: list.emplace_back(n, bh::attribute::view_t((x.i & 1) != 0)); break;
            case 2: list.emplace_back(n, bh::attribute::view_t(static_cast<long>(x.i))); break;
            case 3: list.emplace_back(n, bh::attribute::view_t(static_cast<unsigned long>(x.i))); break;
            case 4: list.emplace_back(n, bh::attribute::view_t(static_cast<double>(x.i) / 8)); break;
            case 6: if (functions) { disp.emplace_back(); disp.back().text.assign(x.s.data(), x.s.size()); list.emplace_back(n, bh::attribute::view_t(disp.back())); break; }
                    // fall through
            default:
                if (x.s.empty() && (x.i & 1)) { list.emplace_back(n, bh::attribute::view_t(bh::string_view())); break; }
                strings.emplace_back(x.s.data(), x.s.size());
                strings.back() += "~junk";
                list.emplace_back(n, bh::attribute::view_t(bh::string_view(strings.back().data(), x.s.size()))); break;
            }
        }
    }
};
}  // namespace

Event*& current_event() { static Event* cur[256]; return cur[sim::self()]; }
namespace {
struct CallGuard {                       // bookkeeping around one log call
    Event& e; const char* what; bool ok = false; uint64_t t0[6]; Event* prev; size_t r0; uint64_t c0;
    static uint64_t k(int i) { static const int f[6] = {sim::F_ALLOC, sim::F_FILTER_THROW, sim::F_SUPPLIER_THROW, sim::F_ATTR_THROW, sim::F_SINK_THROW, sim::F_FORMATTER_THROW}; return sim::fired_here(f[i]); }
    CallGuard(Event& ev, const char* w) : e(ev), what(w), prev(current_event()), r0(sim::wall_readings().size()), c0(sim::fired_here(sim::F_CONSOLE_ERR)) { for (int i = 0; i < 6; ++i) t0[i] = k(i); current_event() = &ev; }
    ~CallGuard() {
        HarnessScope h;
        e.end = sim::seq(); e.returned = ok; e.threw = !ok;
        uint32_t* out[6] = {&e.f_alloc, &e.f_filter, &e.f_supplier, &e.f_attr, &e.f_sink, &e.f_fmt};
        e.throws = 0; e.f_con = static_cast<uint32_t>(sim::fired_here(sim::F_CONSOLE_ERR) - c0);
        for (int i = 0; i < 6; ++i) {
            if (prev) prev->nested[i] += k(i) - t0[i];
            *out[i] = static_cast<uint32_t>(k(i) - t0[i] - e.nested[i]); e.throws += *out[i];
        }
        const size_t r1 = sim::wall_readings().size();
        if (prev) prev->nested_readings.push_back({r0, r1});
        e.readings.clear();
        for (size_t i = r0; i < r1; ++i) {
            bool skip = false;
            for (auto& n : e.nested_readings) skip |= i >= n.first && i < n.second;
            if (!skip) e.readings.push_back(sim::wall_readings()[i]);
        }
        current_event() = prev;
        sim::log("%s id %d %s", what, e.id, ok ? "returned" : "threw");
    }
};
}  // namespace

bh::attributes_t owned_attrs(const Attrs& a) {
    bh::attributes_t r;
    for (auto& x : a) {
        std::string n(x.name.data(), x.name.size());
        switch (x.kind) {
        case 0: r.emplace_back(n, bh::attribute::value_t(nullptr)); break;
        case 1: r.emplace_back(n, bh::attribute::value_t((x.i & 1) != 0)); break;
        case 2: r.emplace_back(n, bh::attribute::value_t(static_cast<long>(x.i))); break;
        case 3: r.emplace_back(n, bh::attribute::value_t(static_cast<unsigned long>(x.i))); break;
        case 4: r.emplace_back(n, bh::attribute::value_t(static_cast<double>(x.i) / 8)); break;
        default: r.emplace_back(n, bh::attribute::value_t(std::string(x.s.data(), x.s.size()))); break;
        }
    }
    return r;
}

void check_meta(const Event& e, const Entry& x) {
    sim::count_check(4);
    bool ok = false;
    for (auto r : e.readings) if (r == x.ts) ok = true;
    if (!ok) sim::violation("timestamp", "event %d logged by t%d: consumer sees timestamp %lld ns, which is none of the %zu clock readings its log call made (last %lld)", e.id, e.sim_tid,
        static_cast<long long>(x.ts), e.readings.size(), e.readings.empty() ? 0ll : static_cast<long long>(e.readings.back()));
    if (e.ts && x.ts != e.ts) sim::violation("timestamp", "event %d logged by t%d: consumer sees timestamp %lld ns, but its record has %lld", e.id, e.sim_tid, static_cast<long long>(x.ts), static_cast<long long>(e.ts));
    if (x.native != e.native) sim::violation("thread-id", "event %d logged by t%d: consumer sees thread id %llx, expected %llx", e.id, e.sim_tid, static_cast<unsigned long long>(x.native), static_cast<unsigned long long>(e.native));
    if (x.lwp != e.lwp) sim::violation("lwp", "event %d logged by kernel thread %u: the sink (on t%d) sees lwp %llu", e.id, e.lwp, x.tid, static_cast<unsigned long long>(x.lwp));
    if (x.pid != e.pid) sim::violation("pid", "event %d was logged by process %u: consumer sees process id %llu", e.id, e.pid, static_cast<unsigned long long>(x.pid));
}

// Some events carry their attributes as several lists: two or one per attribute.
static std::vector<bh::attribute_list> split_lists(const Event& e, bh::attribute_list& all) {
    const size_t n = all.size(), per = n < 2 || e.id % 2 == 0 ? n : e.id % 4 == 1 ? n / 2 : 1;
    std::vector<bh::attribute_list> r;
    r.reserve(n);
    for (size_t i = 0; i < n;) {
        const size_t m = r.empty() || per == 1 ? per : n - i;
        r.emplace_back(all.begin() + static_cast<long>(i), all.begin() + static_cast<long>(i + m));
        i += m;
    }
    return r;
}

void log_event(bh::logger_t& log, Event& e, int how, bool functions) {
    if (!e.own.empty()) {
        if (how == H_PLAIN || how == H_FACADE) how = how == H_PLAIN ? H_PACK : H_FACADE_ATTRS;
        if (how == H_FACADE_ARGS) how = H_FACADE_ARGS_ATTRS;
    }
    e.how = how; e.functions = functions;
    e.lazy = how == H_LAZY || how == H_FACADE_ARGS || how == H_FACADE_ARGS_ATTRS;
    e.sim_tid = sim::self(); e.native = sim::native_self(); e.lwp = sim::lwp_of_self(); e.pid = sim::pid();
    e.started = true;
    e.begin = sim::seq();
    sim::log("log id %d how %d", e.id, how);
    CallGuard fin(e, "log");
    {
        LibScope ls;
        std::string text(e.text.data(), e.text.size());
        text += "~junk";
        bh::string_view view(text.data(), e.text.size());
        if (e.text.empty() && e.id % 2 && (how == H_PLAIN || how == H_PACK || how == H_FACADE || how == H_FACADE_ATTRS)) view = bh::string_view();
        BuiltAttrs own(e.own, functions);
        const auto lists = split_lists(e, own.list);
        size_t half = view.size() / 2;
        std::string a(text, 0, half), b(text, half, view.size() - half);
        bh::attribute_pack pack;
        for (auto& l : lists) pack.emplace_back(l);
        Event* pe = &e; const bh::string_view* pt = &view;
        auto fn = [pe, pt]() -> bh::string_view {
            HarnessScope h;
            sim::AllocFaults noaf(false);
            sim::yield();
            pe->supplied++;
            int64_t thr = sim::fault(sim::F_SUPPLIER_THROW, 4);
            if (thr) { pe->what = "supplier"; throw_user(static_cast<int>(thr), "supplierboom"); }
            nest(N_SUPPLIER);
            return bh::string_view(pt->data(), pt->size());
        };
        sim::AllocFaults af;
        switch (how) {
        case H_PLAIN: log.log(e.sev, view); break;
        case H_PACK: log.log(e.sev, view, pack); break;
        case H_LAZY: log.log(e.sev, bh::lazy_message_t{bh::string_view("pattern"), std::cref(fn)}, pack); break;
        case H_FACADE: client_facade(log, e.sev, view); break;
        case H_FACADE_ATTRS: client_facade_attrs(log, e.sev, view, own.list); break;
        case H_FACADE_ARGS: client_facade_args(log, e.sev, a, b, e.id % 5); break;
        case H_FACADE_ARGS_ATTRS: client_facade_args_attrs(log, e.sev, a, b, own.list, e.id % 5); break;
        }
    }
    fin.ok = true;
}

void emit_event(bh::sink_t& sink, Event& e) {
    e.sim_tid = sim::self(); e.native = sim::native_self(); e.lwp = sim::lwp_of_self(); e.pid = sim::pid();
    e.started = true;
    e.begin = sim::seq();
    sim::log("emit id %d", e.id);
    CallGuard fin(e, "emit");
    {
        LibScope ls;
        std::string text(e.text.data(), e.text.size());
        bh::string_view view(text.data(), text.size());
        BuiltAttrs own(e.own, true);
        const auto lists = split_lists(e, own.list);
        bh::attribute_pack pack;
        for (auto& l : lists) pack.emplace_back(l);
        bh::record_t rec(e.sev, view, pack);
        rec.activate(view);
        e.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(rec.timestamp().time_since_epoch()).count();
        sim::AllocFaults af;
        sink.emit(rec, view);
    }
    fin.ok = true;
}

// ------------------------------------------------------------------ oracles
void check_content(const Event& e, const Entry& x, const char* cls, bool flat_attrs, bool with_attrs) {
    sim::count_check();
    if (x.text != e.text) sim::violation(cls, "event %d: sink %d got text '%s', expected '%s'", e.id, x.sink, show(x.text).c_str(), show(e.text).c_str());
    if (x.formatted != e.text) sim::violation(cls, "event %d: sink %d sees rendered message '%s', expected '%s'", e.id, x.sink, show(x.formatted).c_str(), show(e.text).c_str());
    if (x.sev != e.sev) sim::violation(cls, "event %d: sink %d sees severity %d, expected %d", e.id, x.sink, x.sev, e.sev);
    if (!with_attrs) return;
    (void)flat_attrs;
    check_attrs(e, x.attrs, cls, ("sink " + std::to_string(x.sink)).c_str());
}
void check_attrs(const Event& e, const std::vector<std::vector<std::string>>& lists, const char* cls, const char* who, bool functions) {
    const bool funcs_generated = e.functions;
    auto canon = [&](const Attr& a) { return !functions && a.kind == 6 && funcs_generated ? a.name + "=f" : a.canon(); };
    // own and wrapper attributes as a multiset; scope attributes in order at the end
    std::multiset<std::string> want;
    for (auto& a : e.own) want.insert(canon(a));
    for (auto& w : e.wrappers) for (auto& a : w) want.insert(canon(a));
    std::vector<std::string> sc;
    for (auto& s : e.scopes) for (auto& a : s) sc.push_back(canon(a));
    std::vector<std::string> got;
    for (auto& l : lists) got.insert(got.end(), l.begin(), l.end());
    std::multiset<std::string> all(want);
    for (auto& s : sc) all.insert(s);
    std::multiset<std::string> have(got.begin(), got.end());
    if (have != all) {
        std::string g, w;
        for (auto& s : have) g += s + ";";
        for (auto& s : all) w += s + ";";
        sim::violation(cls, "event %d: %s sees attributes [%s], expected [%s]", e.id, who, show(g, 400).c_str(), show(w, 400).c_str());
    }
    // relative order of the scope attributes
    size_t k = 0;
    for (auto& s : got) if (k < sc.size() && s == sc[k]) ++k;
    if (k != sc.size()) {
        std::string g, w;
        for (auto& s : got) g += s + ";";
        for (auto& s : sc) w += s + ";";
        sim::violation(cls, "event %d: scope attributes out of order: got [%s], expected scopes [%s]", e.id, show(g, 400).c_str(), show(w, 400).c_str());
    }
}
void check_thread_order(const std::vector<Event>& ev, const std::vector<Entry>& log, const char* cls, const char* where) {
    std::map<int, int> last;
    for (auto& x : log) {
        if (x.id < 0 || static_cast<size_t>(x.id) >= ev.size()) continue;
        const Event& e = ev[static_cast<size_t>(x.id)];
        auto it = last.find(e.thread);
        if (it != last.end() && it->second >= e.seq_in_thread)
            sim::violation(cls, "%s: event %d of thread %d arrives after a later event of the same thread", where, e.id, e.thread);
        last[e.thread] = e.seq_in_thread;
        sim::count_check();
    }
}

namespace {
class FlexFactory : public bh::factory<bh::sink_t> {
    std::vector<SinkState*>* states;
public:
    explicit FlexFactory(std::vector<SinkState*>* s) : states(s) {}
    auto type() const noexcept -> const char* override { return "flex"; }
    auto from(const bh::config::node_t& config) const -> std::unique_ptr<bh::sink_t> override {
        uint64_t id = config["id"].to_uint64().get();
        { HarnessScope h;
          if (int64_t thr = sim::fault(sim::F_FACTORY_THROW, 9)) throw_user(static_cast<int>(thr), "factoryboom"); }
        return make_sink(states->at(id));
    }
};
}  // namespace
void add_flex_factory(bh::registry_t& reg, std::vector<SinkState*>* states) {
    reg.add(std::shared_ptr<bh::factory<bh::sink_t>>(new FlexFactory(states)));
}
std::unique_ptr<bh::root_logger_t> build_json(bh::registry_t& reg, const std::string& json) {
    std::istringstream is(json);
    return std::unique_ptr<bh::root_logger_t>(new bh::root_logger_t(reg.builder<bh::config::json_t>(is).build("root")));
}
}  // namespace hs

namespace blackhole { inline namespace v1 {
auto display_traits<hs::Disp>::apply(const hs::Disp& v, writer_t& wr) -> void {
    sim::touch_read(&v, sizeof v);
    sim::touch_read(v.text.data(), v.text.size());
    {
        hs::HarnessScope h;
        sim::AllocFaults noaf(false);
        if (int64_t thr = sim::fault(sim::F_ATTR_THROW, 4)) hs::throw_user(static_cast<int>(thr), "attrboom");
        if (hs::nest_hook) hs::nest_hook(hs::N_ATTR);
    }
    wr.inner << fmt::StringRef(v.text.data(), v.text.size());
}
} }
