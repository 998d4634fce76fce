// Formatters shared by threads while the clock wanders over calendar boundaries and time zones (C20, C25).
#include "h.h"

#include <time.h>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/tskv.hpp>

using namespace hs;
namespace {

const Probe P_CONC("formatter: two threads formatted at once"), P_BACK("formatter: the clock went backwards between two records"), P_DST("formatter: a record carried daylight saving time"), P_EDGE("formatter: two records lie on both sides of an offset change"),
    P_YEAR("formatter: consecutive records lie in different years"), P_JSON("formatter: json"), P_TSKV("formatter: tskv"), P_STR("formatter: pattern"), P_LOCAL("formatter: local time was rendered"), P_VIEW("formatter: a string attribute without terminator was rendered"), P_CFG("formatter: json or tskv built from a configuration"), P_OPT("formatter: an optional attribute was missing"), P_DUP("formatter: a record carried several attributes of one name"), P_EMPTY("formatter: an empty text or string attribute"), P_TWIN("fmt: two records of one moment and message"), P_XSEV("formatter: an extreme severity"), P_LONG("formatter: a value longer than the inline buffers"), P_NEST("formatter: a record was formatted while another one was being formatted by the same thread");

const char* zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "<+14>-14", "Europe/Moscow", "America/New_York", "Asia/Kolkata", "Africa/Casablanca", "Europe/London", "Pacific/Apia"};
const char* stamps[] = {"%Y-%m-%d %H:%M:%S.%f", "%d/%b/%Y:%T %z", "%H:%M:%S", "%s.%f", "%a %A %b %j", "%F %T", "%y %C %e %G-%V %u", "%I:%M:%S %p", "%H:%M %Z", "%Y%m%dT%H%M%S%z", "%f", "%s %H:%M:%S", "%c", "%U %W %w", "%H:%M:%S.%f %s %Y %z"};
// what the generator has to yield for an instant
std::string stamp(const char* pattern, int64_t ns, bool gmt) {
    time_t t = static_cast<time_t>(ns / 1000000000);
    struct tm tm; memset(&tm, 0, sizeof tm);
    if (gmt) gmtime_r(&t, &tm); else localtime_r(&t, &tm);
    std::string p;
    for (const char* q = pattern; *q; ++q) {
        if (q[0] == '%' && q[1] == 'f') { char b[16]; snprintf(b, sizeof b, "%06lld", static_cast<long long>(ns / 1000 % 1000000)); p += b; ++q; }
        else if (q[0] == '%' && q[1] == 's') { p += std::to_string(static_cast<long long>(t)); ++q; }
        else p += *q;
    }
    char b[512]; size_t n = strftime(b, sizeof b, p.c_str(), &tm);
    return std::string(b, n);
}

struct Val { std::string name; int kind; int64_t i; std::string s; int list = 0; };          // 0 int, 1 uint, 2 string, 3 unterminated view, 4 function, 5 null, 6 bool, 7 double
std::string val_text(const Val& v) {
    switch (v.kind) { case 0: return std::to_string(v.i); case 1: return std::to_string(static_cast<uint64_t>(v.i)); case 5: return "none"; case 6: return v.i ? "true" : "false"; case 7: { char b[64]; snprintf(b, sizeof b, "%g", static_cast<double>(v.i) / 4); return b; } default: return v.s; }
}
struct Rec { int id, thread; int sev; std::string text; std::vector<Val> vals; int64_t when = 0, ts = 0; uint64_t native = 0; uint32_t lwp = 0; bool done = false; std::vector<std::string> got; };

// A formatter under test with the model of what it has to produce.
struct Fmt {
    int kind = 0;                                            // 0 pattern, 1 json, 2 tskv
    std::string desc;
    std::unique_ptr<bh::formatter_t> f;
    std::function<std::unique_ptr<bh::formatter_t>()> make;
    std::function<std::string(const Rec&)> model;            // pattern only
    // json
    bool sevs_only = false;                                  // refuses severities without a name
    bool newline = false, unique = false, sevmap = false; const char* jstamp = nullptr; std::map<std::string, std::string> rename; std::set<std::string> routed; std::string rest; std::string formatted;
    // tskv
    std::map<std::string, std::string> create; std::set<std::string> removed; std::map<std::string, std::pair<const char*, bool>> stamps;
};

std::string pad_to(std::string s, size_t w, bool right) { while (s.size() < w) s = right ? " " + s : s + " "; return s; }
const char* sevs[] = {"DBG", "INF", "WRN", "ERR"};

void gen_pattern(sim::Rng& r, Fmt& f, bool timey) {
    P_STR.hit();
    f.kind = 0;
    std::string pat;
    std::vector<std::function<std::string(const Rec&)>> parts;
    bool use_map = r.chance(0.4), cfg = r.chance(0.4);
    int n = r.range(1, 6), has_leftover = 0;
    auto lit = [&](const char* s) { pat += s; std::string v = s; parts.push_back([v](const Rec&) { return v; }); };
    lit("[");
    for (int i = 0; i < n; ++i) {
        int k = timey ? r.range(0, 2) : r.range(0, 12);
        if (k == 0 || k == 1) {
            const char* st = stamps[r.below(sizeof stamps / sizeof *stamps)];
            bool gmt = k == 0;
            if (!gmt) P_LOCAL.hit();
            int w = r.chance(0.2) ? 40 : 0;
            pat += std::string("{timestamp:{") + st + "}" + (w ? ">40" : "") + (gmt ? "s" : "l") + "}";
            parts.push_back([st, gmt, w](const Rec& x) { return pad_to(stamp(st, x.ts, gmt), static_cast<size_t>(w), true); });
        } else if (k == 2) {
            int v = r.range(0, 3);
            if (v == 0) { pat += "{timestamp:d}"; parts.push_back([](const Rec& x) { return std::to_string(x.ts / 1000); }); }
            else if (v == 1) { pat += "{timestamp}"; parts.push_back([](const Rec& x) { return stamp("%Y-%m-%d %H:%M:%S.%f", x.ts, true); }); }
            else if (v == 2) { pat += "{timestamp:s}"; parts.push_back([](const Rec& x) { return stamp("%Y-%m-%d %H:%M:%S.%f", x.ts, true); }); }
            else { pat += "{timestamp:l}"; parts.push_back([](const Rec& x) { return stamp("%Y-%m-%d %H:%M:%S.%f", x.ts, false); }); }
        } else if (k == 3) { pat += "{message}"; parts.push_back([](const Rec& x) { return x.text; }); }
        else if (k == 4) { pat += "{message:<50s}"; parts.push_back([](const Rec& x) { return pad_to(x.text, 50, false); }); }
        else if (k == 5) { pat += "{severity:d}"; parts.push_back([](const Rec& x) { return std::to_string(x.sev); }); }
        else if (k == 6) { if (use_map || cfg) { pat += "{severity:s}"; use_map = true; f.sevs_only = true; parts.push_back([](const Rec& x) { return x.sev >= 0 && x.sev < 4 ? std::string(sevs[x.sev]) : std::to_string(x.sev); }); } else { pat += "{severity}"; parts.push_back([](const Rec& x) { return std::to_string(x.sev); }); } }
        else if (k == 7) { pat += "{process:d}"; parts.push_back([](const Rec&) { return std::to_string(sim::pid()); }); }
        else if (k == 8) { bool hx = r.chance(0.5); pat += hx ? "{thread}" : "{thread:d}"; parts.push_back([hx](const Rec& x) { char b[32]; snprintf(b, sizeof b, hx ? "%#llx" : "%llu", hx ? static_cast<unsigned long long>(x.native) : static_cast<unsigned long long>(x.lwp)); return std::string(b); }); }
        else if (k == 9) { pat += "{first}"; parts.push_back([](const Rec& x) { return val_text(x.vals[0]); }); }
        else if (k == 11) { pat += "{opt:{nothing:default}>12s}"; parts.push_back([](const Rec& x) { for (auto& v : x.vals) if (v.name == "opt") return pad_to(v.s, 12, true); P_OPT.hit(); return pad_to("nothing", 12, true); }); }
        else if (k == 12) { pat += "{opt:{-:default}s}"; parts.push_back([](const Rec& x) { for (auto& v : x.vals) if (v.name == "opt") return v.s; P_OPT.hit(); return std::string("-"); }); }
        else if (!has_leftover) {
            has_leftover = 1; bool tabbed = r.chance(0.5);
            pat += tabbed ? "{...:{{name}={value}:p}{ | :s}s}" : "{...}";
            parts.push_back([tabbed](const Rec& x) { std::string o; for (auto& v : x.vals) { if (!o.empty()) o += tabbed ? " | " : ", "; o += v.name + (tabbed ? "=" : ": ") + val_text(v); } return o; });
        }
        lit(i % 2 ? " | " : "] [");
    }
    lit("]");
    f.desc = "pattern " + pat;
    bool m = use_map;
    f.make = [pat, m, cfg]() -> std::unique_ptr<bh::formatter_t> {
        if (cfg) {
            std::string j = "{\"type\":\"string\",\"pattern\":" + json_quote(pat) + (m ? ",\"sevmap\":[\"DBG\",\"INF\",\"WRN\",\"ERR\"]" : "") + "}";
            std::istringstream is(j);
            auto fc = bh::config::factory_traits<bh::config::json_t>::construct(is);
            return bh::registry::configured()->formatter("string")(fc->config());
        }
        bh::builder<bh::formatter::string_t> b(pat);
        if (m) b.mapping([](int sev, const std::string& spec, bh::writer_t& wr) { if (sev >= 0 && sev < 4) wr.write(spec, sevs[sev]); else wr.write("{}", sev); });
        return std::move(b).build();
    };
    f.model = [parts](const Rec& x) { std::string o; for (auto& p : parts) o += p(x); return o; };
}
std::unique_ptr<bh::formatter_t> from_config(const std::string& j, const char* type) {
    std::istringstream is(j);
    auto fc = bh::config::factory_traits<bh::config::json_t>::construct(is);
    return bh::registry::configured()->formatter(type)(fc->config());
}
std::string json_map(const std::map<std::string, std::string>& m) { std::string o; for (auto& kv : m) o += (o.empty() ? "" : ",") + json_quote(kv.first) + ":" + json_quote(kv.second); return "{" + o + "}"; }
std::string json_list(const std::set<std::string>& m) { std::string o; for (auto& k : m) o += (o.empty() ? "" : ",") + json_quote(k); return "[" + o + "]"; }
void gen_json(sim::Rng& r, Fmt& f) {
    P_JSON.hit();
    f.kind = 1;
    f.newline = r.chance(0.5); f.unique = r.chance(0.3); f.sevmap = r.chance(0.4);
    if (r.chance(0.6)) f.jstamp = stamps[r.below(sizeof stamps / sizeof *stamps)];
    if (r.chance(0.4)) f.rename["message"] = "#m";
    if (r.chance(0.4)) f.rename["first"] = "the_first";
    if (r.chance(0.4)) f.rename["timestamp"] = "@ts";
    if (r.chance(0.4)) { f.routed.insert("message"); if (r.chance(0.5)) f.routed.insert("timestamp"); if (r.chance(0.5)) f.routed.insert("first"); }
    if (r.chance(0.3)) f.rest = "/rest";
    if (r.chance(0.25)) f.formatted = "first";
    f.desc = "json";
    Fmt* p = &f;
    if (r.chance(0.5)) {
        std::string j = "{\"type\":\"json\"";
        if (f.newline || r.chance(0.3)) j += f.newline ? ",\"newline\":true" : ",\"newline\":false";
        if (f.unique || r.chance(0.3)) j += f.unique ? ",\"unique\":true" : ",\"unique\":false";
        if (!f.rename.empty()) j += ",\"mapping\":" + json_map(f.rename);
        if (!f.formatted.empty()) j += ",\"formatting\":{" + json_quote(f.formatted) + ":\"<{}>\"}";
        if (!f.routed.empty() || !f.rest.empty()) j += ",\"routing\":{" + (f.routed.empty() ? std::string() : "\"/fields\":" + json_list(f.routed)) + (!f.routed.empty() && !f.rest.empty() ? "," : "") + (f.rest.empty() ? std::string() : json_quote(f.rest) + ":\"*\"") + "}";
        if (f.jstamp || f.sevmap) j += ",\"mutate\":{" + (f.jstamp ? "\"timestamp\":" + json_quote(f.jstamp) : std::string()) + (f.jstamp && f.sevmap ? "," : "") + (f.sevmap ? "\"severity\":[\"DBG\",\"INF\",\"WRN\",\"ERR\"]" : "") + "}";
        j += "}";
        f.desc = j;
        f.make = [j] { P_CFG.hit(); return from_config(j, "json"); };
        return;
    }
    f.make = [p] {
        bh::builder<bh::formatter::json_t> b;
        if (p->newline) b.newline();
        if (p->unique) b.unique();
        if (p->sevmap) b.severity({"DBG", "INF", "WRN", "ERR"});
        if (p->jstamp) b.timestamp(p->jstamp);
        for (auto& kv : p->rename) b.rename(kv.first, kv.second);
        if (!p->routed.empty()) b.route("/fields", std::vector<std::string>(p->routed.begin(), p->routed.end()));
        if (!p->rest.empty()) b.route(p->rest);
        if (!p->formatted.empty()) b.format(p->formatted, "<{}>");
        return std::move(b).build();
    };
}
void gen_tskv(sim::Rng& r, Fmt& f) {
    P_TSKV.hit();
    f.kind = 2;
    f.stamps["timestamp"] = {"%Y-%m-%d %H:%M:%S %z", true};
    if (r.chance(0.5)) f.create["tskv_format"] = "app";
    if (r.chance(0.5)) f.create["app=x"] = "a b";
    if (r.chance(0.4)) f.removed.insert("severity");
    if (r.chance(0.4)) f.rename["message"] = "msg";
    if (r.chance(0.4)) f.rename["first"] = "the=first";
    if (r.chance(0.6)) f.stamps["timestamp"] = {stamps[r.below(sizeof stamps / sizeof *stamps)], r.chance(0.4)};
    if (r.chance(0.5)) f.stamps["unixtime"] = {"%s", true};
    if (r.chance(0.5)) { f.stamps["local"] = {stamps[r.below(sizeof stamps / sizeof *stamps)], false}; P_LOCAL.hit(); }
    f.desc = "tskv";
    Fmt* p = &f;
    if (r.chance(0.5)) {
        std::string j = "{\"type\":\"tskv\"";
        if (!f.create.empty()) j += ",\"create\":" + json_map(f.create);
        if (!f.rename.empty()) j += ",\"rename\":" + json_map(f.rename);
        if (!f.removed.empty()) j += ",\"remove\":" + json_list(f.removed);
        std::string m;
        for (auto& kv : f.stamps) m += (m.empty() ? "" : ",") + json_quote(kv.first) + ":{\"strftime\":" + json_quote(kv.second.first) + (kv.second.second ? (r.chance(0.5) ? ",\"gmtime\":true}" : "}") : ",\"gmtime\":false}");
        j += ",\"mutate\":{" + m + "}}";
        f.desc = j;
        f.make = [j] { P_CFG.hit(); return from_config(j, "tskv"); };
        return;
    }
    f.make = [p] {
        bh::builder<bh::formatter::tskv_t> b;
        for (auto& kv : p->create) b.create(kv.first, kv.second);
        for (auto& kv : p->rename) b.rename(kv.first, kv.second);
        for (auto& k : p->removed) b.remove(k);
        for (auto& kv : p->stamps) b.timestamp(kv.first, kv.second.first, kv.second.second);
        return std::move(b).build();
    };
}

// ------------------------------------------------------------------ comparing structured outputs
struct Js { const std::string& s; size_t i = 0; bool bad = false; std::vector<std::pair<std::string, std::string>> out;
    void ws() { while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i; }
    std::string str() {
        std::string o; ++i;
        while (i < s.size() && s[i] != '"') {
            if (static_cast<unsigned char>(s[i]) < 32) bad = true;
            if (s[i] == '\\' && i + 1 < s.size()) {
                char c = s[++i]; ++i;
                switch (c) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
                case 'u': { unsigned v = static_cast<unsigned>(strtoul(s.substr(i, 4).c_str(), nullptr, 16)); i += 4; if (v < 128) o += static_cast<char>(v); else bad = true; break; }
                default: o += c; }
            } else o += s[i++];
        }
        if (i >= s.size()) bad = true; else ++i;
        return o;
    }
    void val(const std::string& path) {
        ws();
        if (i >= s.size()) { bad = true; return; }
        if (s[i] == '{') {
            ++i; ws();
            if (i < s.size() && s[i] == '}') { ++i; return; }
            for (;;) {
                ws(); if (i >= s.size() || s[i] != '"') { bad = true; return; }
                std::string k = str(); ws();
                if (i >= s.size() || s[i] != ':') { bad = true; return; }
                ++i; val(path + "/" + k); if (bad) return;
                ws(); if (i < s.size() && s[i] == ',') { ++i; continue; }
                if (i < s.size() && s[i] == '}') { ++i; return; }
                bad = true; return;
            }
        }
        if (s[i] == '"') { out.push_back({path, "s:" + str()}); return; }
        size_t j = i; while (i < s.size() && !strchr(",}] \n", s[i])) ++i;
        out.push_back({path, "v:" + s.substr(j, i - j)});
    }
};
std::vector<std::pair<std::string, std::string>> json_model(const Fmt& f, const Rec& x) {
    std::vector<std::pair<std::string, std::string>> o;
    auto add = [&](const std::string& name, const std::string& value) {
        std::string path = f.routed.count(name) ? "/fields" : f.rest;
        auto it = f.rename.find(name);
        o.push_back({path + "/" + (it == f.rename.end() ? name : it->second), value});
    };
    add("message", "s:" + x.text);
    add("lwp", "v:" + std::to_string(x.lwp));
    char b[32]; snprintf(b, sizeof b, "s:%#llx", static_cast<unsigned long long>(x.native));
    add("thread", b);
    add("process", "v:" + std::to_string(sim::pid()));
    add("severity", f.sevmap && x.sev >= 0 && x.sev < 4 ? std::string("s:") + sevs[x.sev] : "v:" + std::to_string(x.sev));
    add("timestamp", f.jstamp ? "s:" + stamp(f.jstamp, x.ts, true) : "v:" + std::to_string(x.ts / 1000));
    std::set<std::string> seen;
    for (auto& v : x.vals) {
        if (f.unique && !seen.insert(v.name).second) continue;
        std::string t = val_text(v);
        if (f.formatted == v.name) { add(v.name, "s:" + (v.kind == 4 ? t : "<" + t + ">")); continue; }
        if (v.kind == 5) add(v.name, "v:null");
        else if (v.kind == 2 || v.kind == 3 || v.kind == 4) add(v.name, "s:" + t);
        else if (v.kind == 7) add(v.name, "d:" + t);
        else add(v.name, "v:" + t);
    }
    return o;
}
std::string esc(const std::string& s, bool key) {
    std::string o;
    for (char c : s) {
        if (key) { if (c == '=') o += "\\="; else o += c; continue; }
        switch (c) { case '\a': o += "\\a"; break; case '\b': o += "\\b"; break; case '\t': o += "\\t"; break; case '\n': o += "\\n"; break; case '\v': o += "\\v"; break; case '\f': o += "\\f"; break; case '\r': o += "\\r"; break; case '\x1b': o += "\\e"; break; case 0: o += "\\0"; break; case '\\': o += "\\\\"; break; default: o += c; }
    }
    return o;
}
std::vector<std::string> tskv_model(const Fmt& f, const Rec& x) {
    std::vector<std::string> o;
    auto add = [&](const std::string& name, const std::string& v) { if (f.removed.count(name)) return; auto it = f.rename.find(name); o.push_back(esc(it == f.rename.end() ? name : it->second, true) + "=" + esc(v, false)); };
    o.push_back("tskv");
    for (auto& kv : f.create) add(kv.first, kv.second);
    for (auto& kv : f.stamps) add(kv.first, stamp(kv.second.first, x.ts, kv.second.second));
    add("severity", std::to_string(x.sev)); add("pid", std::to_string(sim::pid()));
    char b[32]; snprintf(b, sizeof b, "%#llx", static_cast<unsigned long long>(x.native)); add("tid", b);
    add("message", x.text);
    for (auto& v : x.vals) add(v.name, val_text(v));
    return o;
}
std::string norm(std::string s) { size_t p; while ((p = s.find(" UTC")) != std::string::npos) s.replace(p, 4, " GMT"); return s; }
void verify(const Fmt& f, const Rec& x, const std::string& got, const char* when) {
    sim::count_check();
    if (f.kind == 0) {
        std::string want = f.model(x);
        if (norm(got) != norm(want)) sim::violation("text", "record %d (instant %lld.%06lld, %s, TZ %s): %s yields '%s', expected '%s'", x.id, static_cast<long long>(x.ts / 1000000000), static_cast<long long>(x.ts / 1000 % 1000000), when, getenv("TZ"), f.desc.c_str(), show(got, 300).c_str(), show(want, 300).c_str());
    } else if (f.kind == 1) {
        bool nl = !got.empty() && got.back() == '\n';
        if (nl != f.newline) sim::violation("text", "record %d: json newline option is %d but the text ends with '%s'", x.id, f.newline, show(got.substr(got.size() > 5 ? got.size() - 5 : 0)).c_str());
        Js js{got}; js.val(""); js.ws();
        if (js.bad || js.i != got.size()) sim::violation("text", "record %d (%s): not a JSON document: '%s'", x.id, when, show(got, 400).c_str());
        auto want = json_model(f, x);
        for (auto& w : want) if (w.second.compare(0, 2, "d:") == 0) for (auto& g : js.out) if (g.first == w.first && g.second.compare(0, 2, "v:") == 0 && strtod(g.second.c_str() + 2, nullptr) == strtod(w.second.c_str() + 2, nullptr)) g.second = w.second;
        auto a = js.out; std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end());
        for (auto* l : {&a, &want}) for (auto& kv : *l) kv.second = norm(kv.second);
        if (a != want) {
            std::string d; for (auto& w : want) if (!std::count(a.begin(), a.end(), w)) d += " missing " + w.first + "=" + w.second; for (auto& w : a) if (!std::count(want.begin(), want.end(), w)) d += " unexpected " + w.first + "=" + w.second;
            sim::violation("text", "record %d (instant %lld, %s): json '%s' differs:%s", x.id, static_cast<long long>(x.ts), when, show(got, 300).c_str(), show(d, 300).c_str());
        }
    } else {
        std::vector<std::string> a; std::string cur;
        for (char c : got) if (c == '\t') { a.push_back(cur); cur.clear(); } else cur += c;
        a.push_back(cur);
        auto want = tskv_model(f, x);
        if (a[0] != "tskv") sim::violation("text", "record %d: tskv starts with '%s'", x.id, show(a[0]).c_str());
        std::sort(a.begin(), a.end()); std::sort(want.begin(), want.end());
        for (auto* l : {&a, &want}) for (auto& s : *l) s = norm(s);
        if (a != want) {
            std::string d; for (auto& w : want) if (!std::count(a.begin(), a.end(), w)) d += " missing " + w; for (auto& w : a) if (!std::count(want.begin(), want.end(), w)) d += " unexpected " + w;
            sim::violation("text", "record %d (instant %lld, %s, TZ %s): tskv '%s' differs:%s", x.id, static_cast<long long>(x.ts), when, getenv("TZ"), show(got, 300).c_str(), show(d, 300).c_str());
        }
    }
}

long off(time_t t) { struct tm tm; localtime_r(&t, &tm); return tm.tm_gmtoff; }
// An instant next to a change of the local offset after t, or t when there is none within a year.
time_t edge(time_t t) {
    long o = off(t); time_t a = t, b = t;
    for (int i = 0; i < 14; ++i) { b = a + 28 * 86400; if (off(b) != o) { while (b - a > 1) { time_t m = a + (b - a) / 2; if (off(m) == o) a = m; else b = m; } return b; } a = b; }
    return t;
}
int64_t pick_instant(sim::Rng& r, int64_t prev) {
    const int64_t lim = 9000000000ll;                       // year 2255
    int64_t t;
    switch (r.range(0, 9)) {
    case 0: t = static_cast<int64_t>(r.below(static_cast<uint64_t>(lim))); break;
    case 1: t = prev / 1000000000 + r.range(-2, 2); break;
    case 2: t = (prev / 1000000000 / 60 + r.range(0, 1)) * 60 - r.range(0, 1); break;
    case 3: t = (prev / 1000000000 / 86400 + r.range(0, 1)) * 86400 - r.range(0, 1); break;
    case 4: { struct tm y; memset(&y, 0, sizeof y); y.tm_year = r.range(71, 340); y.tm_mday = 1; t = timegm(&y) - r.range(0, 1); break; }
    case 5: { struct tm y; memset(&y, 0, sizeof y); y.tm_year = 4 * r.range(18, 85); y.tm_mon = 1; y.tm_mday = r.range(28, 30); y.tm_hour = r.range(0, 23); t = timegm(&y); break; }
    case 6: case 7: t = edge(static_cast<time_t>(r.below(static_cast<uint64_t>(lim)))) + r.range(-1, 0); break;
    case 8: { static const int64_t sp[] = {0, 1, 59, 60, 86399, 86400, 951782400, 951868800, 2147483647, 2147483648ll, 4102444800ll - 1, 4102444800ll, 4107542400ll, 1e9}; t = sp[r.below(14)]; break; }
    default: t = prev / 1000000000 + (r.chance(0.5) ? 3600 : -3600) * r.range(1, 30); break;
    }
    if (t < 0) t = 0;
    if (t > lim) t = lim;
    int64_t us; switch (r.range(0, 3)) { case 0: us = 0; break; case 1: us = 999999; break; case 2: us = r.range(0, 9); break; default: us = static_cast<int64_t>(r.below(1000000)); }
    return t * 1000000000 + us * 1000 + static_cast<int64_t>(r.below(1000));
}

void fmt_run(Ctx& c, bool timey) {
    auto& r = c.rng;
    sim::set_limits(30000000, 20000000, 600ull * 1000000000ull);
    setenv("TZ", zones[timey || r.chance(0.5) ? r.below(sizeof zones / sizeof *zones) : 0], 1);
    tzset();
    int threads = timey ? r.range(1, 2) : r.range(1, 4), nf = r.range(1, 3);
    const uint64_t salt = r.next();
    std::vector<std::unique_ptr<Fmt>> fs;
    for (int i = 0; i < nf; ++i) {
        fs.emplace_back(new Fmt);
        int k = r.range(0, 4);
        if (timey ? k < 3 : k < 2) gen_pattern(r, *fs.back(), timey); else if (k == 2 || (timey && k == 3)) gen_json(r, *fs.back()); else gen_tskv(r, *fs.back());
    }
    bool sevs_only = false;
    for (auto& f : fs) sevs_only |= f->sevs_only;
    std::vector<Rec> recs; std::vector<std::vector<std::pair<uint32_t, int>>> of(static_cast<size_t>(threads));
    int64_t prev = pick_instant(r, 1500000000ll * 1000000000);
    for (int t = 0; t < threads; ++t) {
        int n = timey ? r.range(2, 12) : r.range(1, 6);
        for (int k = 0; k < n; ++k) {
            Rec x; x.id = static_cast<int>(recs.size()); x.thread = t; x.sev = r.range(0, 3);        // unmapped severities with {severity:s} make the pattern formatter throw: see DESIGN.md
            if (!sevs_only && !timey && r.chance(0.2)) { static const int ex[] = {-1, 4, 127, 128, 255, 256, -32768, 65536, INT_MIN, INT_MAX}; x.sev = ex[r.below(10)]; P_XSEV.hit(); }
             x.text = event_text(salt, x.id, timey ? 0 : r.chance(0.1) ? 3 : r.range(0, 2));
            if (!timey && r.chance(0.3)) x.text += "\ttab\"quote\\back\nnl\x01\a\b\v\f\x1b";
            if (!timey && r.chance(0.05)) { x.text.clear(); P_EMPTY.hit(); }
            if (!timey && r.chance(0.03)) { x.text += std::string(static_cast<size_t>(r.range(400, 3000)), 'L'); P_LONG.hit(); }
            x.when = prev = pick_instant(r, prev);
            int na = timey ? 1 : r.range(1, 4);
            for (int a = 0; a < na; ++a) {
                Val v; v.name = a == 0 ? "first" : "a" + std::to_string(a) + (r.chance(0.2) ? "=k" : ""); v.kind = a == 0 ? r.range(0, 4) : r.range(0, 7);
                v.i = v.kind == 6 ? r.range(0, 1) : v.kind == 1 ? r.range(0, 1000000) : r.range(-1000, 1000);
                v.s = "s" + std::to_string(r.below(1u << 30)) + (r.chance(0.2) ? "\t=\\" : "");
                if (!timey) {
                    if (r.chance(0.08)) { v.s.clear(); P_EMPTY.hit(); }
                    if (r.chance(0.03)) { v.s += std::string(static_cast<size_t>(r.range(400, 2000)), 'V'); P_LONG.hit(); }
                    if (v.kind < 2 && r.chance(0.1)) v.i = r.chance(0.5) ? INT64_MIN : INT64_MAX;
                    if (v.kind == 1 && r.chance(0.1)) v.i = -1;                                  // the largest unsigned number
                    if (a > 0 && r.chance(0.2)) { v.name = x.vals[r.below(x.vals.size())].name; P_DUP.hit(); }
                    v.list = x.vals.empty() ? 0 : x.vals.back().list + (r.chance(0.2) ? 1 : 0);
                }
                x.vals.push_back(v);
            }
            if (!timey && r.chance(0.4)) { Val v; v.name = "opt"; v.kind = r.range(2, 3); v.i = 0; v.s = "o" + std::to_string(r.below(1000000)); v.list = x.vals.back().list; x.vals.push_back(v); }
            recs.push_back(x);
            of[static_cast<size_t>(t)].push_back({c.alloc_op(), x.id});
        }
    }
    sim::sample("%d threads, %zu records, %d formatters (%s), TZ %s", threads, recs.size(), nf, fs[0]->desc.c_str(), getenv("TZ"));
    for (auto& f : fs) { LibScope ls; f->f = f->make(); }
    int inside = 0; int64_t last_ts = 0; long last_off = 0; int last_year = 0;
    auto one = [&](Rec& x, bh::record_t& rec, Fmt& f, bh::formatter_t& fm, const char* when) {
        std::string got;
        {
            LibScope ls;
            bh::writer_t wr;
            fm.format(rec, wr);
            auto v = wr.result();
            HarnessScope h;
            got.assign(v.data(), v.size());
        }
        verify(f, x, got, when);
        return got;
    };
    // an attribute function that formats another record with the same formatter
    std::map<int, std::pair<Fmt*, int>> busy;
    const bool nested = !timey && r.chance(0.4);
    struct Unhook { ~Unhook() { nest_hook = nullptr; } } unhook;
    if (nested) nest_hook = [&](int place) {
        if (place != N_ATTR) return;
        auto it = busy.find(sim::self());
        if (it == busy.end() || !it->second.first || it->second.second) return;
        it->second.second = 1;
        P_NEST.hit();
        Rec y; y.id = 100000 + sim::self(); y.thread = sim::self(); y.sev = 2; y.text = "<" + std::to_string(y.id) + ":nested " + payload(salt, y.id, 1) + ">";
        y.native = sim::native_self(); y.lwp = sim::lwp_of_self();
        Val v; v.name = "first"; v.kind = 2; v.i = 0; v.s = "inner"; y.vals.push_back(v);
        {
            LibScope ls;
            bh::attribute_list list; bh::attribute_pack pack;
            std::string text(y.text), val(v.s);
            list.emplace_back("first", bh::string_view(val.data(), val.size()));
            pack.push_back(list);
            bh::string_view msg(text.data(), text.size());
            bh::record_t rec(y.sev, msg, pack);
            rec.activate(msg);
            HarnessScope h;
            y.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(rec.timestamp().time_since_epoch()).count();
            one(y, rec, *it->second.first, *it->second.first->f, "nested");
        }
        busy[sim::self()].second = 0;
    };
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Rec& x0 = recs[static_cast<size_t>(p.second)];
            x0.native = sim::native_self(); x0.lwp = sim::lwp_of_self();
            void* same = nullptr;
            // sometimes a second record of the same moment whose message starts at the same address, and little else in common
            for (int twin = 0; twin < (x0.id % 4 == 1 && !timey ? 2 : 1); ++twin) {
            Rec other; if (twin) { other = x0; if (other.sev >= 0 && other.sev < 4 && x0.id % 3) other.sev = (other.sev + 1) % 4; if (!other.text.empty() && x0.id % 5 == 1) other.text.pop_back(); for (auto& v : other.vals) { v.s += "2"; if (v.kind == 6) v.i = !v.i; else if (v.i != INT64_MAX) v.i += v.i == -1 && v.kind == 1 ? -1 : 1; } P_TWIN.hit(); }
            Rec& x = twin ? other : x0;
            // build the record; string views without terminator live in exactly sized blocks
            std::vector<void*> blocks;
            auto text = [&](const std::string& s) { void* b = sim::lib_alloc(s.size() ? s.size() : 1); if (s.empty() && x.id % 2) { sim::lib_free(b); return bh::string_view(); } memcpy(b, s.data(), s.size()); sim::touch_write(b, s.size()); blocks.push_back(b); return bh::string_view(static_cast<char*>(b), s.size()); };
            std::vector<std::unique_ptr<Disp>> disp;
            bh::string_view msg;
            if (twin && same) msg = x.text.empty() ? bh::string_view() : bh::string_view(static_cast<char*>(same), x.text.size());
            else { msg = text(x.text); if (!blocks.empty()) { same = blocks.back(); blocks.pop_back(); } }
            bh::attribute_list lists[8]; bh::attribute_pack pack;
            for (auto& v : x.vals) { auto& list = lists[v.list]; switch (v.kind) {
            case 0: list.emplace_back(v.name, v.i); break;
            case 1: list.emplace_back(v.name, static_cast<uint64_t>(v.i)); break;
            case 2: list.emplace_back(v.name, v.s); break;
            case 3: list.emplace_back(v.name, text(v.s)); P_VIEW.hit(); break;
            case 4: disp.emplace_back(new Disp); disp.back()->text = v.s; list.emplace_back(v.name, *disp.back()); break;
            case 5: list.emplace_back(v.name, bh::attribute::view_t(nullptr)); break;
            case 6: list.emplace_back(v.name, v.i != 0); break;
            default: list.emplace_back(v.name, static_cast<double>(v.i) / 4); break;
            } }
            for (auto& l : lists) if (!l.empty() || &l == lists) pack.push_back(l);
            sim::set_realtime_base(x.when);
            bh::record_t rec(x.sev, msg, pack);
            { LibScope ls; rec.activate(msg); }
            x.ts = std::chrono::duration_cast<std::chrono::nanoseconds>(rec.timestamp().time_since_epoch()).count();
            time_t sec = x.ts / 1000000000; struct tm tm; localtime_r(&sec, &tm);
            if (tm.tm_isdst > 0) P_DST.hit();
            if (last_ts > x.ts) P_BACK.hit();
            if (last_ts && last_off != tm.tm_gmtoff) P_EDGE.hit();
            if (last_ts && last_year != tm.tm_year) P_YEAR.hit();
            last_ts = x.ts; last_off = tm.tm_gmtoff; last_year = tm.tm_year;
            for (auto& f : fs) {
                if (inside++) P_CONC.hit();
                if (nested) busy[sim::self()] = {f.get(), 0};
                std::string got = one(x, rec, *f, *f->f, "shared");
                if (nested) busy[sim::self()].first = nullptr;
                inside--;
                sim::count_event();
                if (x.id % 6 == 0) {
                    // again, and by a formatter of the same kind that nobody else uses
                    std::string again = one(x, rec, *f, *f->f, "again");
                    if (again != got) sim::violation("text", "record %d: %s yields '%s' and then '%s'", x.id, f->desc.c_str(), show(got, 200).c_str(), show(again, 200).c_str());
                    std::unique_ptr<bh::formatter_t> own;
                    { LibScope ls; own = f->make(); }
                    std::string alone = one(x, rec, *f, *own, "own formatter");
                    if (alone != got) sim::violation("text", "record %d: shared formatter yields '%s' but one of its own '%s'", x.id, show(got, 200).c_str(), show(alone, 200).c_str());
                    { LibScope ls; own.reset(); }
                }
            }
            for (void* b : blocks) sim::lib_free(b);
            x.done = true;
            }
            if (same) sim::lib_free(same);
        }
    }, "formatter"));
    for (int t : tids) sim::join(t);
    { LibScope ls; for (auto& f : fs) f->f.reset(); }
}
void fmt_share(Ctx& c) { fmt_run(c, false); }
void fmt_time(Ctx& c) { fmt_run(c, true); }
Register r1({"fmt_share", "formatters shared by threads", {{"C20", 1}}, fmt_share, {P_CONC.id, P_BACK.id, P_JSON.id, P_TSKV.id, P_STR.id, P_VIEW.id, P_YEAR.id, P_NEST.id, P_CFG.id, P_OPT.id, P_DUP.id, P_EMPTY.id, P_XSEV.id, P_LONG.id, P_TWIN.id}});
Register r2({"fmt_time", "timestamps around calendar and offset changes in many time zones", {{"C25", 1}}, fmt_time, {P_DST.id, P_EDGE.id, P_LOCAL.id, P_BACK.id, P_YEAR.id}});
}  // namespace
