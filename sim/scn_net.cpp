// The TCP and UDP sinks on the simulated network: C15, C16, C17, C21.
#include "h.h"

using namespace hs;
namespace {

const Probe P_FRAG("tcp: a connection failed inside a message"), P_RECON("tcp: the sink opened another connection"), P_SECOND("tcp: a later resolved address was used"), P_THREW("tcp: an emit reported a failure"), P_PART("tcp: a send was accepted partially"),
    P_QUIETREC("tcp: delivery resumed after the peer came back"), P_UTHREW("udp: an emit reported a failure"), P_UBIG("udp: a datagram too large was refused"), P_UCONC("udp: two emits ran at once"), P_TCONC("tcp: two emits ran at once"),
    P_OUTAGE("tcp: nobody could be reached for many emits in a row"), P_LONG("tcp: a message longer than 60000 bytes was sent"), P_MOVED("tcp: the peer moved to another address"), P_UEMPTY("udp: an empty text was sent");

std::string shown_text(const Event& e) { return e.text; }

std::unique_ptr<bh::sink_t> from_json(const std::string& j) {       // library mode
    auto reg = bh::registry::configured();
    std::istringstream is(j);
    auto f = bh::config::factory_traits<bh::config::json_t>::construct(is);
    std::string type = f->config()["type"].to_string().get();
    return reg->sink(type)(f->config());
}
struct Prog {
    std::vector<Event> ev; std::vector<std::vector<std::pair<uint32_t, int>>> of; std::vector<int> pause;
};
Prog program(Ctx& c, int threads, int lo, int hi, int klass) {
    Prog P; auto& r = c.rng; const uint64_t salt = r.next();
    P.of.resize(static_cast<size_t>(threads));
    for (int t = 0; t < threads; ++t) {
        int n = r.range(lo, hi);
        for (int k = 0; k < n; ++k) {
            Event e; e.id = static_cast<int>(P.ev.size()); e.thread = t; e.seq_in_thread = k; e.sev = r.range(0, 4);
            e.text = event_text(salt, e.id, klass); e.aux = r.range(0, H_COUNT - 1);
            P.ev.push_back(e); P.pause.push_back(r.chance(0.3) ? r.range(1, 4000) : 0);
            P.of[static_cast<size_t>(t)].push_back({c.alloc_op(), e.id});
        }
    }
    return P;
}
// Decomposes a connection's byte stream into whole messages; the rest must be the beginning of one.
std::vector<int> parse_stream(const std::vector<Event>& ev, const std::string& d, std::string& rest, int conn) {
    std::vector<int> ids; size_t pos = 0;
    while (pos < d.size()) {
        int id = parse_id(d, pos);
        if (id >= 0 && static_cast<size_t>(id) < ev.size() && ev[static_cast<size_t>(id)].started) {
            const std::string& t = ev[static_cast<size_t>(id)].text;
            if (d.compare(pos, t.size(), t) == 0) { pos += t.size(); ids.push_back(id); continue; }
        }
        rest = d.substr(pos);
        for (auto& e : ev) if (e.started && e.text.compare(0, rest.size(), rest) == 0) return ids;
        sim::violation("stream-garbled", "connection %d: at byte %zu of %zu the stream is neither a whole message nor the beginning of one at its end: '%s'", conn, pos, d.size(), show(rest, 80).c_str());
    }
    rest.clear();
    return ids;
}

struct TcpOpts { bool faults; bool alloc; };
void tcp_run(Ctx& c, const TcpOpts& o) {
    auto& r = c.rng;
    const bool outage = o.faults && r.chance(0.06);       // nobody listens for a long time
    int threads = outage ? r.range(1, 2) : r.range(1, 4);
    Prog P = program(c, threads, outage ? 14 : 1, outage ? 30 : r.chance(0.5) ? 5 : 10, r.chance(0.8) ? r.range(0, 2) : 4);
    const uint16_t port = static_cast<uint16_t>(r.range(1000, 60000));
    int naddr = r.range(1, 3);
    std::vector<uint32_t> ips;
    const int families = r.range(0, 3);                   // 0, 1: IPv4 only, 2: mixed, 3: IPv6 only
    for (int i = 0; i < naddr; ++i) {
        bool six = families == 3 || (families == 2 && r.chance(0.5));
        ips.push_back((six ? 0xf0000001u : 0x0a000001u) + static_cast<uint32_t>(i));
        if (r.chance(0.4)) { static const int e[] = {ENETUNREACH, EHOSTUNREACH, ETIMEDOUT}; sim::net->unreachable[ips.back()] = e[r.below(3)]; }
    }
    bool literal = naddr == 1 && r.chance(0.3);
    std::string host = literal ? sim::addr_text(ips[0]) : "collector.example";
    sim::net->dns["collector.example"] = ips;
    std::vector<uint32_t> known = ips;                    // every address the host ever had
    if (r.chance(0.1)) { Event& e = P.ev[r.below(P.ev.size())]; e.text.append(60000 + r.below(200000), 'x'); e.text += ">"; P_LONG.hit(); }
    for (auto ip : ips) sim::net->peer(ip, port, r.chance(0.7));
    int up = r.range(0, naddr - 1);
    sim::net->peer(ips[static_cast<size_t>(up)], port, true);
    if (r.chance(0.8)) sim::enable_fault(sim::F_SEND_SHORT, r.chance(0.5) ? 0.3 : 0.9);
    if (r.chance(0.3)) sim::enable_fault(sim::F_SEND_STALL, 0.1);
    bool via_logger = r.chance(0.3) && !o.alloc;
    if (o.faults) {
        struct { int f; double p; } F[] = {{sim::F_DNS_FAIL, 0.3}, {sim::F_SOCKET_ERR, 0.2}, {sim::F_CONN_REFUSED, 0.3}, {sim::F_CONN_TIMEOUT, 0.1}, {sim::F_CONN_EINTR, 0.1}, {sim::F_SEND_RESET, 0.2}, {sim::F_SEND_EINTR, 0.1}};
        for (auto& f : F) if (r.chance(0.4)) sim::enable_fault(f.f, f.p);
    }
    if (outage) { sim::enable_fault(r.chance(0.3) ? sim::F_DNS_FAIL : sim::F_CONN_REFUSED, 1.0); P_OUTAGE.hit(); }
    if (o.alloc) sim::enable_fault(sim::F_ALLOC, r.chance(0.5) ? 0.03 : 0.2);
    sim::sample("%d threads, %zu events, %d addresses, %s", threads, P.ev.size(), naddr, o.faults ? "network faults and peer restarts" : "partial sends");
    std::string j = "{\"type\":\"tcp\",\"host\":\"" + host + "\",\"port\":" + std::to_string(port) + "}";
    std::unique_ptr<bh::sink_t> sink; std::unique_ptr<bh::root_logger_t> root;
    {
        LibScope ls;
        if (via_logger) { auto reg = bh::registry::configured(); root = build_json(*reg, "{\"root\":[{\"type\":\"blocking\",\"formatter\":{\"type\":\"string\",\"pattern\":\"{message}\"},\"sinks\":[" + j + "]}]}"); }
        else sink = from_json(j);
    }
    int inside = 0;
    auto emit = [&](Event& e, bool healthy) {
        const int me = sim::self();
        int e0 = sim::net->errs[me], o0 = sim::net->other_errs[me], s0 = sim::net->send_errs[me];
        size_t r0 = sim::net->refused[me].size();
        bool threw = false; std::string what;
        if (inside++) P_TCONC.hit();
        try { if (via_logger) log_event(*root, e, e.aux); else emit_event(*sink, e); }
        catch (const std::exception& x) { threw = true; what = x.what(); }
        catch (...) { threw = true; }
        inside--;
        sim::count_event(); sim::count_check();
        if (via_logger) { if (threw) sim::violation("log-threw", "logging event %d threw", e.id); if (sim::net->errs[sim::self()] != e0) e.returned = false; return threw; }
        if (threw) P_THREW.hit();
        if (!threw && sim::net->send_errs[me] != s0) sim::violation("not-reported", "event %d: sending failed but emit returned normally", e.id);
        if (threw && sim::net->errs[sim::self()] == e0 && !e.f_alloc) sim::violation(healthy ? "not-recovered" : "spurious-failure", "event %d: emit threw '%s' although no network operation failed during that call", e.id, what.c_str());
        if (threw && sim::net->errs[me] != e0 && sim::net->other_errs[me] == o0 && !e.f_alloc) {
            // nothing but connecting failed: no address may have been left out
            auto& ref = sim::net->refused[me];
            for (uint32_t ip : sim::net->answer[me]) if (std::find(ref.begin() + static_cast<long>(r0), ref.end(), ip) == ref.end())
                sim::violation("address-not-tried", "event %d: emit gave up ('%s') although connecting to %s did not fail", e.id, what.c_str(), sim::addr_text(ip).c_str());
        }
        return threw;
    };
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 1000);
            emit(e, false);
        }
    }, "sender"));
    const bool is_v6_host = r.chance(0.3);
    int acts = o.faults ? r.range(0, 4) : 0;
    uint32_t ops[8]; int kinds[8], waits[8]; bool late[8];
    for (int i = 0; i < acts; ++i) { late[i] = r.chance(0.4); ops[i] = c.alloc_op(); kinds[i] = r.range(0, literal ? 3 : 4); waits[i] = r.range(0, 3000); }
    int peer = sim::spawn([&] {
        for (int i = 0; i < acts; ++i) {
            sim::sleep_ns(static_cast<uint64_t>(waits[i]) * 1000);
            if (!c.begin_op(ops[i])) continue;
            uint32_t ip = ips[static_cast<size_t>(i) % ips.size()];
            switch (kinds[i]) {
            case 0: for (auto x : ips) { sim::net->peer(x, port, false); sim::net->reset_all(x, port, late[i]); } break;
            case 1: sim::net->reset_all(ip, port, late[i]); break;
            case 2: sim::net->peer(ip, port, false); break;
            case 4: {                                     // the service moves to another host and the name follows
                P_MOVED.hit();
                for (auto x : ips) { sim::net->peer(x, port, false); if (late[i]) sim::net->reset_all(x, port, false); }
                uint32_t to = (is_v6_host ? 0xf0000001u : 0x0a000001u) + 100 + static_cast<uint32_t>(i);
                ips = {to}; up = 0; known.push_back(to);
                sim::net->peer(to, port, true);
                sim::net->dns["collector.example"] = ips;
                break; }
            default: sim::net->peer(ip, port, true); break;
            }
            sim::note_fault(sim::F_PEER_DOWN);
        }
    }, "peer");
    for (int t : tids) sim::join(t);
    sim::join(peer);
    // everything is healthy again (at least one address works): delivery resumes
    for (int f : {sim::F_DNS_FAIL, sim::F_SOCKET_ERR, sim::F_CONN_REFUSED, sim::F_CONN_TIMEOUT, sim::F_CONN_EINTR, sim::F_SEND_RESET, sim::F_SEND_EINTR, sim::F_ALLOC}) sim::enable_fault(f, 0);
    sim::net->peer(ips[static_cast<size_t>(up)], port, true);
    const uint64_t salt2 = r.next();
    int fails = 0;
    bool stale = false;
    for (auto& k : sim::net->conns) if ((k->broken || k->dying) && !k->closed) stale = true;
    int extra = r.range(2, 4);
    P.ev.reserve(P.ev.size() + 8);
    for (int k = 0; k < extra; ++k) {
        Event e; e.id = static_cast<int>(P.ev.size()); e.thread = 50; e.seq_in_thread = k; e.text = event_text(salt2, e.id, 1); e.aux = 0;
        P.ev.push_back(e);
        bool threw = emit(P.ev.back(), true);
        if (threw && !(k <= 1 && fails == 0 && stale)) sim::violation("not-resumed", "emit %d after the peer became reachable again still fails", k + 1);
        if (threw) ++fails; else if (o.faults) P_QUIETREC.hit();
        if (sim::net->open_sockets > 1) sim::violation("fd-leak", "%d sockets are open, at most one connection is in use", sim::net->open_sockets);
    }
    { LibScope ls; sink.reset(); root.reset(); }
    if (sim::net->open_sockets) sim::violation("fd-leak", "%d sockets are still open after the sink was destroyed", sim::net->open_sockets);
    // histories
    std::vector<int> cnt(P.ev.size());
    std::map<int, int> last;
    if (sim::net->conns.size() > 1) P_RECON.hit();
    for (auto& k : sim::net->conns) {
        std::string rest;
        auto ids = parse_stream(P.ev, k->rx, rest, k->id);
        if (!rest.empty()) {
            P_FRAG.hit();
            // a fragment may only stand at the end of a connection that failed
            bool reused = &k == &sim::net->conns.back() && !k->failed && !o.faults && !o.alloc;
            if (reused) sim::violation("fragment", "connection %d did not fail but ends inside a message", k->id);
        }
        if (k->after_fail) sim::violation("broken-reused", "connection %d failed and was used again", k->id);
        if (!std::count(known.begin(), known.end(), k->ip) || k->port != port) sim::violation("wrong-peer", "connected to %08x:%u, which is not the configured peer", k->ip, k->port);
        if (k->ip != known[0]) P_SECOND.hit();
        for (int id : ids) {
            Event& e = P.ev[static_cast<size_t>(id)];
            cnt[static_cast<size_t>(id)]++;
            auto it = last.find(e.thread);
            if (it != last.end() && it->second >= e.seq_in_thread) sim::violation("order", "connection %d: event %d of thread %d is out of order", k->id, id, e.thread);
            last[e.thread] = e.seq_in_thread;
            sim::count_check();
        }
    }
    for (auto& e : P.ev) {
        if (!e.started) continue;
        int n = cnt[static_cast<size_t>(e.id)];
        if (n > 1) sim::violation("duplicate", "event %d was sent %d times", e.id, n);
        if (e.returned && !e.text.empty() && n != 1) sim::violation("lost", "event %d: emit returned normally but the message is in no connection's stream", e.id);
    }
}
void tcp_stream(Ctx& c) { tcp_run(c, {c.rng.chance(0.4), false}); }
void tcp_faults(Ctx& c) { tcp_run(c, {true, false}); }
void tcp_alloc(Ctx& c) { tcp_run(c, {c.rng.chance(0.5), true}); }

void udp_send(Ctx& c) {
    auto& r = c.rng;
    int threads = r.range(1, 4);
    int klass = r.chance(0.8) ? r.range(0, 2) : 4;
    Prog P = program(c, threads, 1, 8, klass);
    if (r.chance(0.2)) { Event& e = P.ev[r.below(P.ev.size())]; e.text.append(r.chance(0.5) ? 70000 : 65500, 'x'); e.text += ">"; }
    if (r.chance(0.2)) for (auto& e : P.ev) if (r.chance(0.3)) { e.text.clear(); e.aux = H_PLAIN; }
    const uint16_t port = static_cast<uint16_t>(r.range(1, 65535));
    uint32_t ip = (r.chance(0.3) ? 0xf0000001u : 0x0a000001u) + static_cast<uint32_t>(r.below(5));
    sim::net->dns["collector.example"] = {ip};
    sim::net->udp_closed[{ip, port}] = r.chance(0.4);      // nobody listens there
    bool dns_down = r.chance(0.1);
    if (dns_down) sim::enable_fault(sim::F_DNS_FAIL, 1);
    std::string j = "{\"type\":\"udp\",\"host\":\"collector.example\",\"port\":" + std::to_string(port) + "}";
    bool via_logger = r.chance(0.3);
    std::unique_ptr<bh::sink_t> sink; std::unique_ptr<bh::root_logger_t> root;
    auto create = [&] {
        LibScope ls;
        if (via_logger) { auto reg = bh::registry::configured(); root = build_json(*reg, "{\"root\":[{\"type\":\"blocking\",\"formatter\":{\"type\":\"string\",\"pattern\":\"{message}\"},\"sinks\":[" + j + "]}]}"); }
        else sink = from_json(j);
    };
    bool threw = false;
    try { create(); } catch (...) { threw = true; }
    if (dns_down) {
        if (!threw) sim::violation("false-success", "a UDP sink was built although its host cannot be resolved");
        sim::enable_fault(sim::F_DNS_FAIL, 0);
        try { create(); } catch (...) { sim::violation("not-recovered", "building the sink still fails after the resolver recovered"); }
    } else if (threw) sim::violation("build-threw", "building a UDP sink failed without a cause");
    sim::sample("%d threads, %zu events to %x:%u%s", threads, P.ev.size(), ip, port, via_logger ? " through a logger" : "");
    if (r.chance(0.6)) sim::enable_fault(sim::F_SEND_ERR, r.chance(0.5) ? 0.1 : 0.5);
    if (r.chance(0.3)) sim::enable_fault(sim::F_SEND_EINTR, 0.1);
    int inside = 0;
    std::vector<int> failed(P.ev.size());
    std::vector<int> tids;
    for (int t = 0; t < threads; ++t) tids.push_back(sim::spawn([&, t] {
        for (auto& p : P.of[static_cast<size_t>(t)]) {
            if (!c.begin_op(p.first)) continue;
            Event& e = P.ev[static_cast<size_t>(p.second)];
            if (P.pause[static_cast<size_t>(e.id)]) sim::sleep_ns(static_cast<uint64_t>(P.pause[static_cast<size_t>(e.id)]) * 1000);
            int e0 = sim::net->errs[sim::self()];
            if (inside++) P_UCONC.hit();
            bool th = false;
            try { if (via_logger) log_event(*root, e, e.aux); else emit_event(*sink, e); } catch (const std::exception&) { th = true; }
            inside--;
            bool err = sim::net->errs[sim::self()] != e0;
            failed[static_cast<size_t>(e.id)] = err;
            if (via_logger && th) sim::violation("log-threw", "logging event %d threw", e.id);
            if (th && !err) sim::violation("spurious-failure", "event %d: emit threw although the datagram was accepted", e.id);
            if (th) P_UTHREW.hit();
            if (e.text.size() > 65507) P_UBIG.hit();
            e.aux = th;
            sim::count_event();
        }
    }, "sender"));
    for (int t : tids) sim::join(t);
    sim::enable_fault(sim::F_SEND_ERR, 0); sim::enable_fault(sim::F_SEND_EINTR, 0);
    Event fin; fin.id = static_cast<int>(P.ev.size()); fin.thread = 50; fin.text = "<" + std::to_string(fin.id) + ":fin>";
    P.ev.push_back(fin); failed.push_back(0); P.ev.back().aux = 0;
    try { if (via_logger) log_event(*root, P.ev.back(), H_PLAIN); else emit_event(*sink, P.ev.back()); } catch (...) { sim::violation("not-recovered", "emit fails although nothing is wrong any more"); }
    { LibScope ls; sink.reset(); root.reset(); }
    if (sim::net->open_sockets) sim::violation("fd-leak", "%d sockets are still open after the sink was destroyed", sim::net->open_sockets);
    std::vector<int> cnt(P.ev.size());
    std::map<int, int> last;
    int empties = 0;
    for (auto& d : sim::net->dgrams) {
        sim::count_check();
        if (d.data.empty()) { ++empties; if (d.ip != ip || d.port != port) sim::violation("wrong-peer", "an empty datagram was sent to %x:%u instead of %x:%u", d.ip, d.port, ip, port); continue; }
        int id = parse_id(d.data);
        if (id < 0 || static_cast<size_t>(id) >= P.ev.size() || P.ev[static_cast<size_t>(id)].text != d.data)
            sim::violation("datagram", "a datagram of %zu bytes is not exactly the text of an emitted event: '%s'", d.data.size(), show(d.data, 80).c_str());
        if (d.ip != ip || d.port != port) sim::violation("wrong-peer", "event %d was sent to %x:%u instead of %x:%u", id, d.ip, d.port, ip, port);
        cnt[static_cast<size_t>(id)]++;
        Event& e = P.ev[static_cast<size_t>(id)];
        auto it = last.find(e.thread);
        if (it != last.end() && it->second >= e.seq_in_thread) sim::violation("order", "event %d of thread %d was sent out of order", id, e.thread);
        last[e.thread] = e.seq_in_thread;
    }
    for (auto& e : P.ev) {
        if (!e.started) continue;
        if (e.text.empty()) { if (!e.aux && !failed[static_cast<size_t>(e.id)]) { --empties; P_UEMPTY.hit(); } continue; }
        int n = cnt[static_cast<size_t>(e.id)];
        if (n > 1) sim::violation("duplicate", "event %d was sent as %d datagrams", e.id, n);
        if (!e.aux && !failed[static_cast<size_t>(e.id)] && n != 1) sim::violation("lost", "event %d: emit returned normally but no datagram was sent", e.id);
        if (!via_logger && !e.aux && n != 1) sim::violation("false-success", "event %d: the operating system refused the datagram but emit returned normally", e.id);
        if (e.aux && n) sim::violation("threw-but-sent", "event %d: emit threw but the datagram was sent", e.id);
    }
    if (empties) sim::violation(empties < 0 ? "lost" : "duplicate", "%d empty datagrams %s", std::abs(empties), empties < 0 ? "are missing" : "too many were sent");
}

Register r1({"tcp_stream", "messages of many threads over partially accepted sends", {{"C15", 1}}, tcp_stream, {P_FRAG.id, P_TCONC.id}});
Register r2({"tcp_faults", "resolve, connect and send failures, peer restarts, several addresses", {{"C16", 2}, {"C15", 1}}, tcp_faults, {P_RECON.id, P_SECOND.id, P_THREW.id, P_QUIETREC.id, P_MOVED.id, P_LONG.id, P_OUTAGE.id}});
Register r3({"tcp_alloc", "allocation failures inside the TCP sink", {{"C21", 1}}, tcp_alloc, {}});
Register r4({"udp_send", "datagrams of many threads with send errors", {{"C17", 1}}, udp_send, {P_UTHREW.id, P_UBIG.id, P_UCONC.id, P_UEMPTY.id}});
}  // namespace
