// Shared harness for the scenarios: events with regenerable content, recording sinks, message
// operations through every public logging interface, history checks.
#pragma once
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <boost/optional/optional.hpp>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/builder.hpp>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/factory.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/handler/blocking.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/record.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/root.hpp>
#include <blackhole/scope/holder.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/asynchronous.hpp>
#include <blackhole/sink/file.hpp>
#include <blackhole/wrapper.hpp>

#include "os.h"
#include "rt.h"
#include "scenario.h"

namespace bh = blackhole;

namespace hs {
using sim::Ctx;
using sim::HarnessScope;
using sim::LibScope;

// ------------------------------------------------------------------ probes (sometimes-assertions)
int probe_id(const char* name);
struct Probe { int id; explicit Probe(const char* n) : id(probe_id(n)) {} void hit() const { sim::probe(id); } };

// ------------------------------------------------------------------ events
// Text of event `id`; regenerated for comparison. `klass` selects the length distribution.
enum { RAW = 10 };                       // added to `klass`: printable characters only
std::string payload(uint64_t salt, int id, int klass, bool newlines = false);
std::string event_text(uint64_t salt, int id, int klass);       // "<id:payload>"
// Parses "<id:" at s[pos]; returns id or -1.
int parse_id(const std::string& s, size_t pos = 0);

struct Attr { std::string name; int kind; int64_t i; std::string s; std::string canon() const; };
typedef std::vector<Attr> Attrs;
Attrs gen_attrs(sim::Rng& r, const std::string& prefix, int max, bool functions, bool shared = false);   // shared: names recur
std::string canon_list(const Attrs& a);

// A displayable user type: evaluated lazily through a function view.
struct Disp { std::string text; int throw_kind = 0; int slot = -1; };

struct Event {
    int id = 0, thread = 0, seq_in_thread = 0;
    int sev = 0;
    std::string text;                    // expected rendered message
    Attrs own;                           // own attributes
    std::vector<Attrs> wrappers;         // outermost first
    std::vector<Attrs> scopes;           // most recently opened first
    uint64_t begin = 0, end = 0;         // global sequence numbers around the log call
    int64_t ts = 0;                      // timestamp of the record, when it is known
    int64_t t0 = 0, t1 = 0;              // wall clock readings around the call
    uint64_t clock_epoch0 = 0, clock_epoch1 = 0;
    int sim_tid = 0; uint64_t native = 0; uint32_t lwp = 0, pid = 0;
    bool started = false, returned = false, threw = false;
    bool lazy = false, functions = false; int supplied = 0, how = -1;
    std::string what;
    int aux = 0;
    uint64_t throws = 0;                 // allocation failures / user exceptions injected into the call
    uint32_t f_alloc = 0, f_filter = 0, f_supplier = 0, f_attr = 0, f_sink = 0, f_fmt = 0, f_con = 0;
    std::vector<int64_t> readings;       // wall clock values read inside the call
    uint64_t nested[6] = {0, 0, 0, 0, 0, 0};                     // faults that belong to log calls nested in this one
    std::vector<std::pair<size_t, size_t>> nested_readings;
    int filter_calls = 0, fcfg = -1, fgen = -1; bool accepted = false;
};

// Now and then an extreme severity or an empty text (then the severity is EMPTY_SEV + id).
enum { EMPTY_SEV = 1000000 };
void vary_event(sim::Rng& r, Event& e);
int identify(const std::string& text, int sev);

// ------------------------------------------------------------------ recording sink
struct Entry {
    uint64_t seq, enter; int sink, tid;
    std::string message, formatted, text;
    int sev; int64_t ts; uint64_t native, lwp, pid;
    std::vector<std::vector<std::string>> attrs;      // list of lists of "name=canon"
    std::vector<std::string> flat() const { std::vector<std::string> r; for (auto& l : attrs) r.insert(r.end(), l.begin(), l.end()); return r; }
    int id;                                            // parsed from text
    bool threw;
};
struct SinkState {
    int id = 0, config = 0;
    bool exclusive = false;              // emits must not overlap
    bool want_thread_fixed = false;      // always the same thread
    int inside = 0, last_tid = -1;
    bool destroyed = false; uint64_t destroyed_seq = 0; int destroyed_by = -1;
    std::vector<Entry> log;
    int nthrow = 0;
    std::vector<std::string> thrown;     // texts carried by thrown standard exceptions
    int thrown_other = 0;
    bool capture_attrs = true;
    std::function<void(const Entry&)> hook;       // called in harness mode before faults
    std::function<void(const bh::record_t&)> reenter;
    std::function<void()> on_destroy;
    double slow_ms = 3;
    bool gate = false;                   // blocked until released
};
// Called in harness mode from user code running inside a log call; scenarios use it to log from there.
enum Place { N_FILTER = 0, N_SUPPLIER, N_ATTR, N_FORMATTER, N_SINK, N_PLACES };
extern std::function<void(int place)> nest_hook;
// Thrown by user code. kind 1 std::runtime_error, 2 int, 3 a class of its own, 4 std::bad_alloc
[[noreturn]] void throw_user(int kind, const std::string& text);
struct Alien { int x; };

std::unique_ptr<bh::sink_t> make_sink(SinkState* st);     // call inside LibScope
std::vector<std::vector<std::string>> capture_attributes(const bh::record_t& rec, bool functions = true);   // functions: evaluate them

// A formatter that writes the rendered message (the record's formatted text), may throw.
struct FmtState { bool destroyed = false; int id = 0; int nthrow = 0; std::vector<std::string> thrown; int thrown_other = 0; std::set<int> failed_events; };
std::unique_ptr<bh::formatter_t> make_formatter(FmtState* st);
std::unique_ptr<bh::formatter_t> real_formatter(const char* pattern = "{message}");

// ------------------------------------------------------------------ logging operations
// Performs one log call for `e` on `log` in library mode using interface `how`.
enum How { H_PLAIN = 0, H_PACK, H_LAZY, H_FACADE, H_FACADE_ARGS, H_FACADE_ATTRS, H_FACADE_ARGS_ATTRS, H_COUNT };
void log_event(bh::logger_t& log, Event& e, int how, bool functions = true);
// Client code compiled like the library (instrumented), in client.cpp
void client_facade(bh::logger_t& log, int sev, const bh::string_view& text);
void client_facade_args(bh::logger_t& log, int sev, const std::string& a, const std::string& b, int variant);
void client_facade_attrs(bh::logger_t& log, int sev, const bh::string_view& text, const bh::attribute_list& l);
void client_facade_args_attrs(bh::logger_t& log, int sev, const std::string& a, const std::string& b, const bh::attribute_list& l, int variant);

// Compares an entry with the event it belongs to (text, severity, attributes). Reports violations
// with class `cls`.
void check_content(const Event& e, const Entry& x, const char* cls, bool flat_attrs, bool check_attrs = true);
void check_attrs(const Event& e, const std::vector<std::vector<std::string>>& lists, const char* cls, const char* who, bool functions = true);
// Each thread's events appear in order (by seq_in_thread).
void check_thread_order(const std::vector<Event>& ev, const std::vector<Entry>& log, const char* cls, const char* where);

std::string show(const std::string& s, size_t max = 120);
std::string json_quote(const std::string& s);

// Builds a logger from a JSON text through the shipped registry (library mode).
std::unique_ptr<bh::root_logger_t> build_json(bh::registry_t& reg, const std::string& json);

// Registers a sink factory "flex": {"type": "flex", "id": N} yields make_sink((*states)[N]).
void add_flex_factory(bh::registry_t& reg, std::vector<SinkState*>* states);
// Direct emission into a sink with a record of its own (the way a handler does).
void emit_event(bh::sink_t& sink, Event& e);
bh::attributes_t owned_attrs(const Attrs& a);             // library mode
// Timestamp, thread id, lwp and pid as seen by a consumer.
void check_meta(const Event& e, const Entry& x);
// The event the calling simulated thread is logging right now.
Event*& current_event();
}  // namespace hs

namespace blackhole { inline namespace v1 {
template<> struct display_traits<hs::Disp> { static auto apply(const hs::Disp& v, writer_t& wr) -> void; };
} }
