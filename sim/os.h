// The simulated operating system: disk, network, console and system log as seen by scenarios.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "rt.h"

namespace sim {

// ------------------------------------------------------------------ disk
struct Inode {
    uint64_t ino, dev = 7;         // unique together
    std::string data;              // bytes handed to the operating system
    int links = 0;
    int mode_denied = 0;           // opening fails with EACCES
    uint64_t born_seq = 0, sparse = 0;   // bytes that were counted but not kept (Fs::giant)
    int opens = 0;
    bool truncated = false;        // somebody truncated or overwrote it
};
struct Span { std::string path; std::shared_ptr<Inode> ino; uint64_t from, to; };
struct Fs {
    std::vector<Span> history;                    // which file was at which path, and when
    std::map<int, std::vector<int>> errs;         // errors returned by open and write, per thread (not EINTR)
    std::map<int, int> stat_errs;
    void linked(const std::string& p, const std::shared_ptr<Inode>& i);
    void unlinked(const std::string& p);
    std::map<std::string, std::shared_ptr<Inode>> dir;
    std::vector<std::shared_ptr<Inode>> all;      // every inode that ever existed
    std::vector<std::string> dirs;                // existing directories
    std::vector<std::string> denied;              // paths that may not be opened (EACCES)
    int64_t free_bytes = -1;                      // -1: unlimited
    int fd_limit = -1;                            // number of further files that may be open, -1 unlimited
    int open_files = 0;
    uint64_t nopen = 0, nwrite = 0, nstat = 0;
    bool giant = false;                           // writes of a megabyte and more are only counted
    bool frozen = false;                          // the process "crashed": nothing more reaches the disk
    std::shared_ptr<Inode> create(const std::string& path, const std::string& data = "");
    void rename(const std::string& a, const std::string& b);
    void unlink(const std::string& p);
    void link(const std::string& a, const std::string& b);
    std::shared_ptr<Inode> lookup(const std::string& p);
    bool reuse_inodes = false;
    uint64_t next_ino = 100, ino_stride = 1;      // some file systems number files above 2^32
    std::vector<std::pair<uint64_t, uint64_t>> free_inos;      // number, when it became free
    std::function<bool(uint64_t)> may_reuse;      // may a number freed at that time be reused now?
};
extern Fs* fs;

// ------------------------------------------------------------------ network
struct Conn { int id; std::string host; uint32_t ip; uint16_t port; std::string rx; bool broken = false, closed = false; int nsend = 0; int fd = -1; bool failed = false; int after_fail = 0; uint64_t born = 0; bool dying = false; };
struct Datagram { uint32_t ip; uint16_t port; std::string data; int tid; };
// Addresses are 32 bit numbers; those with the upper nibble 0xf stand for IPv6 hosts (2001:db8::x).
inline bool is_v6(uint32_t ip) { return ip >> 28 == 0xf; }
std::string addr_text(uint32_t ip);
struct Net {
    std::map<std::string, std::vector<uint32_t>> dns;
    std::map<std::pair<uint32_t, uint16_t>, bool> listeners;   // up?
    std::vector<std::shared_ptr<Conn>> conns;
    std::vector<Datagram> dgrams;
    int open_sockets = 0;
    uint64_t nconnect = 0, nsend = 0, nresolve = 0;
    std::map<int, int> errs;                                   // network errors returned, per thread
    std::map<int, std::vector<uint32_t>> tried;                // addresses a thread tried to connect to
    std::map<int, std::vector<uint32_t>> refused;              // addresses whose connect failed because of the network or the peer
    std::map<int, std::vector<uint32_t>> answer;               // last resolver answer a thread got
    std::map<int, int> send_errs;                              // sends on a stream that failed for good
    std::map<int, int> other_errs;                             // of errs: resolver, socket and send errors
    std::map<uint32_t, int> unreachable;                       // host -> errno when it is down (default: refused)
    std::map<std::pair<uint32_t, uint16_t>, bool> udp_closed;  // nobody listens: ICMP errors come back
    int max_open = 0;
    void peer(uint32_t ip, uint16_t port, bool up);
    void reset_all(uint32_t ip, uint16_t port, bool late = false);   // peer restart: connections break, at once or after one more send
};
extern Net* net;

// ------------------------------------------------------------------ console
struct Console {
    std::string out[2];                  // stdout, stderr
    size_t flushed[2] = {0, 0};
    bool tty[2] = {false, false};
    std::vector<size_t> breaks[2];       // where writing failed
};
extern Console* con;

// ------------------------------------------------------------------ system log
struct SyslogEntry { int priority; std::string text; std::string ident; bool has_ident; int tid; };
struct Syslog {
    const char* ident = nullptr; bool open = false; int option = 0, facility = 0;
    std::vector<SyslogEntry> entries;
};
extern Syslog* slog;

}  // namespace sim
