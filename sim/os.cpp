#include <iostream>
// Interposed libc/pthread entry points. They act on the simulated system when called from library
// code inside a simulation and pass through to the real functions otherwise.
#include "rt_internal.h"
#include "os.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <algorithm>
#include <deque>
#include <set>
#include <unordered_map>

namespace sim {
Fs* fs; Net* net; Console* con; Syslog* slog;

struct Mx { int owner = -1; int depth = 0; VC vc; Mx() { vc.clear(); } };
struct Rw { int writer = -1; int readers = 0; VC vc, rvc; Rw() { vc.clear(); rvc.clear(); } };
struct Cv { std::deque<int> waiters; };
struct Once { int state = 0; VC vc; Once() { vc.clear(); } };
struct FileH { std::shared_ptr<Inode> ino; bool append, wr, rd; uint64_t off; std::string path; };
struct SockH { int type; std::shared_ptr<Conn> conn; bool nonblock; int err; uint32_t ip; uint16_t port; bool connected = false; int dom = 0; int pending = 0; };
struct Os {
    std::unordered_map<void*, Mx> mx;
    std::unordered_map<void*, Rw> rw;
    std::unordered_map<void*, Cv> cv;
    std::unordered_map<void*, Once> once;
    std::unordered_map<int, FileH> files;
    std::unordered_map<int, SockH> socks;
    std::unordered_map<FILE*, int> streams;
    std::unordered_map<void*, std::deque<int>> fut;
    bool cv_signalled[MAXT];
    bool fut_woken[MAXT];
};
static Os* os;

void os_reset() {
    os = new Os;
    memset(os->cv_signalled, 0, sizeof os->cv_signalled);
    memset(os->fut_woken, 0, sizeof os->fut_woken);
    fs = new Fs; net = new Net; con = new Console; slog = new Syslog;
    std::cout.clear(); std::cerr.clear();
    fs->dirs.push_back("/sim");
    net->dns["localhost"] = {0x7f000001};
}

// ------------------------------------------------------------------ disk model
void Fs::linked(const std::string& p, const std::shared_ptr<Inode>& i) { history.push_back({p, i, seq(), ~0ull}); }
void Fs::unlinked(const std::string& p) { for (auto& h : history) if (h.path == p && h.to == ~0ull) h.to = seq(); }
std::shared_ptr<Inode> Fs::create(const std::string& p, const std::string& data) {
    auto i = std::make_shared<Inode>();
    if (reuse_inodes && !free_inos.empty() && (!may_reuse || may_reuse(free_inos.back().second))) { i->ino = free_inos.back().first; free_inos.pop_back(); }
    else { i->ino = next_ino; next_ino += ino_stride; }
    i->data = data; i->links = 1; i->born_seq = seq();
    auto old = dir.find(p);
    if (old != dir.end()) unlink(p);
    dir[p] = i; all.push_back(i); linked(p, i);
    return i;
}
void Fs::rename(const std::string& a, const std::string& b) {
    auto it = dir.find(a);
    if (it == dir.end() || a == b) return;
    auto i = it->second;
    if (dir.count(b)) unlink(b);
    dir.erase(a); dir[b] = i; unlinked(a); linked(b, i);
}
void Fs::link(const std::string& a, const std::string& b) {
    auto it = dir.find(a);
    if (it == dir.end() || dir.count(b)) return;
    auto i = it->second;
    i->links++; dir[b] = i; linked(b, i);
}
void Fs::unlink(const std::string& p) {
    auto it = dir.find(p);
    if (it == dir.end()) return;
    it->second->links--;
    if (it->second->links == 0 && it->second->opens == 0 && it->second->dev == 7) free_inos.push_back({it->second->ino, seq()});
    dir.erase(it); unlinked(p);
}
std::shared_ptr<Inode> Fs::lookup(const std::string& p) {
    auto it = dir.find(p);
    return it == dir.end() ? nullptr : it->second;
}
void Net::peer(uint32_t ip, uint16_t port, bool up) { listeners[{ip, port}] = up; }
void Net::reset_all(uint32_t ip, uint16_t port, bool late) { for (auto& c : conns) if (c->ip == ip && c->port == port) { if (late) c->dying = true; else c->broken = true; } }
std::string addr_text(uint32_t ip) {
    char b[64];
    if (is_v6(ip)) snprintf(b, sizeof b, "2001:db8::%x:%x", ip >> 16, ip & 0xffff);
    else snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
    return b;
}
static bool addr_of(const struct sockaddr* sa, uint32_t& ip, uint16_t& port) {
    if (sa->sa_family == AF_INET6) {
        auto* in = reinterpret_cast<const struct sockaddr_in6*>(sa);
        uint32_t w; memcpy(&w, in->sin6_addr.s6_addr + 12, 4);
        ip = ntohl(w); port = ntohs(in->sin6_port);
        return true;
    }
    auto* in = reinterpret_cast<const struct sockaddr_in*>(sa);
    ip = ntohl(in->sin_addr.s_addr); port = ntohs(in->sin_port);
    return false;
}
static void net_err(bool other) { net->errs[t_self->id]++; if (other) net->other_errs[t_self->id]++; }
static int conn_err(uint32_t ip, int e) { net_err(false); net->refused[t_self->id].push_back(ip); log("connect failed: %d", e); errno = e; return -1; }

static bool is_sim_path(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }
static std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }

static int vopen_(const char* path, int flags) {          // library mode; returns fd or -1/errno
    point(K_SYS);
    std::string p(path);
    fs->nopen++;
    if (int64_t f = fault(F_OPEN_ERR, 4)) {
        const int e[] = {EACCES, EMFILE, EIO, ENOSPC};
        errno = e[f - 1]; return -1;
    }
    if (std::find(fs->denied.begin(), fs->denied.end(), p) != fs->denied.end()) { errno = EACCES; return -1; }
    if (std::find(fs->dirs.begin(), fs->dirs.end(), p) != fs->dirs.end()) { errno = EISDIR; return -1; }
    if (std::find(fs->dirs.begin(), fs->dirs.end(), parent(p)) == fs->dirs.end()) { errno = ENOENT; return -1; }
    if (fs->fd_limit == 0) { errno = EMFILE; return -1; }
    auto ino = fs->lookup(p);
    if (ino && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!ino) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (fs->free_bytes == 0) { errno = ENOSPC; return -1; }
        ino = fs->frozen ? std::make_shared<Inode>() : fs->create(p);
    } else if (flags & O_TRUNC) {
        if (!ino->data.empty()) ino->truncated = true;
        if (!fs->frozen) ino->data.clear();
    }
    int fd = eventfd(0, EFD_CLOEXEC);
    if (fd < 0) internal_error("eventfd");
    int acc = flags & O_ACCMODE;
    os->files[fd] = FileH{ino, (flags & O_APPEND) != 0, acc != O_RDONLY, acc != O_WRONLY, 0, p};
    ino->opens++; fs->open_files++;
    if (fs->fd_limit > 0) fs->fd_limit--;
    log("open %s -> ino %llu", path, static_cast<unsigned long long>(ino->ino));
    return fd;
}

static int vopen(const char* path, int flags) {
    int r = vopen_(path, flags);
    if (r < 0) { int e = errno; fs->errs[t_self->id].push_back(e); log("open %s failed: %d", path, e); errno = e; }
    return r;
}
static ssize_t vwrite_(int fd, const struct iovec* iov, int cnt) {
    point(K_SYS);
    auto it = os->files.find(fd);
    if (it == os->files.end()) { errno = EBADF; return -1; }
    FileH& h = it->second;
    if (!h.wr) { errno = EBADF; return -1; }
    if (fs->giant) {
        size_t n = 0;
        for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
        if (n >= (1u << 20)) { h.ino->sparse += n; hash_event(n); return static_cast<ssize_t>(n); }
    }
    std::string data;
    for (int i = 0; i < cnt; ++i) {
        mem_access(reinterpret_cast<uintptr_t>(iov[i].iov_base), iov[i].iov_len, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        data.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    }
    fs->nwrite++;
    if (data.empty()) return 0;
    if (fault(F_WRITE_EINTR)) { errno = EINTR; return -1; }
    size_t n = data.size();
    if (int64_t f = fault(F_WRITE_ENOSPC, 1000)) {
        size_t k = n * static_cast<size_t>(f - 1) / 1000;
        if (k == 0) { errno = ENOSPC; return -1; }
        n = k;
    }
    if (fault(F_WRITE_EIO)) { errno = EIO; return -1; }
    if (int64_t f = fault(F_WRITE_SHORT, 1000)) { size_t k = 1 + (n - 1) * static_cast<size_t>(f - 1) / 1000; n = k; }
    if (fs->free_bytes >= 0) {
        if (fs->free_bytes == 0) { errno = ENOSPC; return -1; }
        if (static_cast<int64_t>(n) > fs->free_bytes) n = static_cast<size_t>(fs->free_bytes);
        fs->free_bytes -= static_cast<int64_t>(n);
    }
    data.resize(n);
    if (!fs->frozen) {
        std::string& d = h.ino->data;
        if (h.append) { d += data; h.off = d.size(); }
        else {
            if (h.off < d.size()) h.ino->truncated = true;
            if (d.size() < h.off + n) d.resize(h.off + n);
            d.replace(h.off, n, data);
            h.off += n;
        }
    }
    log("write fd ino %llu %zu bytes", static_cast<unsigned long long>(h.ino->ino), n);
    hash_event(n);
    return static_cast<ssize_t>(n);
}
static ssize_t vwrite(int fd, const struct iovec* iov, int cnt) {
    ssize_t r = vwrite_(fd, iov, cnt);
    if (r < 0 && errno != EINTR) { int e = errno; fs->errs[t_self->id].push_back(e); log("write failed: %d", e); errno = e; }
    return r;
}
static int vclose(int fd) {
    auto it = os->files.find(fd);
    auto ino = it->second.ino;
    ino->opens--; fs->open_files--;
    if (fs->fd_limit >= 0) fs->fd_limit++;
    if (ino->links == 0 && ino->opens == 0 && ino->dev == 7) fs->free_inos.push_back({ino->ino, seq()});
    log("close %s ino %llu", it->second.path.c_str(), static_cast<unsigned long long>(ino->ino));
    os->files.erase(it);
    return 0;
}
static void fill_stat(struct stat* st, const Inode& i) {
    memset(st, 0, sizeof *st);
    st->st_ino = i.ino; st->st_dev = i.dev; st->st_nlink = static_cast<nlink_t>(i.links); st->st_mode = S_IFREG | 0644;
    st->st_size = static_cast<off_t>(i.data.size()); st->st_blksize = 4096;
    st->st_blocks = static_cast<blkcnt_t>((i.data.size() + 511) / 512);
}
static int vstat(const char* path, struct stat* st) {
    point(K_SYS);
    fs->nstat++;
    if (int64_t f = fault(F_STAT_ERR, 2)) { fs->stat_errs[t_self->id]++; errno = f == 1 ? EACCES : EIO; return -1; }
    std::string p(path);
    if (std::find(fs->dirs.begin(), fs->dirs.end(), p) != fs->dirs.end()) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_ino = 2; st->st_dev = 7; return 0; }
    auto i = fs->lookup(p);
    if (!i) { errno = ENOENT; return -1; }
    fill_stat(st, *i);
    log("stat %s -> ino %llu", path, static_cast<unsigned long long>(i->ino));
    return 0;
}
static int vfstat(int fd, struct stat* st) {
    point(K_SYS);
    auto it = os->files.find(fd);
    if (it == os->files.end()) { errno = EBADF; return -1; }
    fill_stat(st, *it->second.ino);
    return 0;
}
static bool is_vfile(int fd) { return os && os->files.count(fd); }
static bool is_vsock(int fd) { return os && os->socks.count(fd); }

// Returns how much was taken; less than n means that writing failed.
static size_t console_write(int which, const char* s, size_t n) {
    point(K_SYS);
    mem_access(reinterpret_cast<uintptr_t>(s), n, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    if (n) if (int64_t f = fault(F_CONSOLE_ERR, 8)) {
        n = n * static_cast<size_t>(f & 3) / 4;
        con->out[which].append(s, n);
        con->breaks[which].push_back(con->out[which].size());
        log("standard %s fails after %zu bytes", which ? "error" : "output", n);
        errno = f & 4 ? ENOSPC : f & 8 ? EIO : EAGAIN;
        return n;
    }
    con->out[which].append(s, n);
    hash_event(n);
    return n;
}
// What was written and not flushed yet may be lost when flushing fails.
static int console_flush(int which) {
    point(K_SYS);
    std::string& o = con->out[which];
    const size_t pending = o.size() - con->flushed[which];
    if (pending) if (int64_t f = fault(F_CONSOLE_ERR, 8)) {
        o.resize(con->flushed[which] + pending * static_cast<size_t>(f & 3) / 4);
        for (auto& b : con->breaks[which]) b = std::min(b, o.size());
        con->breaks[which].push_back(o.size());
        con->flushed[which] = o.size();
        log("flushing standard %s fails", which ? "error" : "output");
        errno = f & 4 ? ENOSPC : EIO;
        return -1;
    }
    con->flushed[which] = o.size();
    return 0;
}

// ------------------------------------------------------------------ locks
static void mx_check(void* m) { mem_access(reinterpret_cast<uintptr_t>(m), 0, false, 0); }
static Mx& mx(void* m) {
    // a lock living in freed memory is a use after free
    if (is_freed(m)) violation("use-after-free", "lock operation on freed memory %p by t%d", m, t_self->id);
    return os->mx[m];
}
static void mx_lock(void* m, bool recursive) {
    point(K_SYNC);
    Mx* x = &mx(m);
    int me = t_self->id;
    if (recursive && x->owner == me) { x->depth++; return; }
    if (x->owner >= 0) wait_for([x] { return x->owner < 0; }, ~0ull, "lock");
    x->owner = me; x->depth = 1;
    acquire_clock(x->vc);
}
static bool mx_try(void* m, bool recursive) {
    point(K_SYNC);
    Mx* x = &mx(m);
    int me = t_self->id;
    if (recursive && x->owner == me) { x->depth++; return true; }
    if (x->owner >= 0) return false;
    x->owner = me; x->depth = 1;
    acquire_clock(x->vc);
    return true;
}
static bool mx_timed(void* m, uint64_t deadline) {
    point(K_SYNC);
    Mx* x = &mx(m);
    if (x->owner >= 0 && !wait_for([x] { return x->owner < 0; }, deadline, "timed lock")) return false;
    x->owner = t_self->id; x->depth = 1;
    acquire_clock(x->vc);
    return true;
}
static void mx_unlock(void* m) {
    Mx* x = &mx(m);
    if (x->owner != t_self->id) violation("bad-unlock", "t%d unlocks a lock held by t%d", t_self->id, x->owner);
    if (--x->depth == 0) { release_clock(x->vc); x->owner = -1; }
    point(K_SYNC);
}
static uint64_t to_deadline(int clk, const struct timespec* ts) {
    int64_t t = static_cast<int64_t>(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
    int64_t d = clk == CLOCK_REALTIME ? t - realtime() : t - static_cast<int64_t>(now());
    if (d < 0) d = 0;
    return now() + static_cast<uint64_t>(d);
}
static int cv_wait(void* c, void* m, uint64_t deadline) {
    if (is_freed(c)) violation("use-after-free", "condition variable in freed memory %p used by t%d", c, t_self->id);
    int me = t_self->id;
    Cv* v = &os->cv[c];
    os->cv_signalled[me] = false;
    v->waiters.push_back(me);
    Mx* x = &mx(m);
    if (x->owner != me) violation("bad-unlock", "t%d waits on a condition without holding the mutex", me);
    int depth = x->depth;
    release_clock(x->vc); x->owner = -1;
    bool ok = wait_for([me] { return os->cv_signalled[me]; }, deadline, "condition", true);
    if (!ok) { auto& w = v->waiters; w.erase(std::remove(w.begin(), w.end(), me), w.end()); }
    bool timed = !ok && t_self->timed_out;
    if (x->owner >= 0) wait_for([x] { return x->owner < 0; }, ~0ull, "lock");
    x->owner = me; x->depth = depth;
    acquire_clock(x->vc);
    return timed ? ETIMEDOUT : 0;
}
static void cv_signal(void* c, bool all) {
    point(K_SYNC);
    if (is_freed(c)) violation("use-after-free", "condition variable in freed memory %p used by t%d", c, t_self->id);
    Cv* v = &os->cv[c];
    while (!v->waiters.empty()) {
        int t = v->waiters.front(); v->waiters.pop_front();
        os->cv_signalled[t] = true;
        if (!all) break;
    }
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

}  // namespace sim

using namespace sim;
#define ACTIVE active()
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!ACTIVE) return REAL(pthread_create)(out, at, fn, arg);
    Rt rt; point(K_SYNC);
    if (fault(F_THREAD_CREATE)) return EAGAIN;
    int det = 0;
    if (at) pthread_attr_getdetachstate(at, &det);
    int id = create_thread(fn, arg, false, "lib");
    if (det == PTHREAD_CREATE_DETACHED) thread_by_id(id)->detached = true;
    *out = thread_by_id(id)->real;
    log("thread t%d created", id);
    point(K_SYNC);
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    if (!ACTIVE) return REAL(pthread_join)(p, ret);
    Rt rt; point(K_SYNC);
    Thread* t = thread_by_real(p);
    if (!t) return ESRCH;
    if (t == t_self) return EDEADLK;
    wait_for([t] { return t->finished; }, ~0ull, "join");
    acquire_clock(t->vc);
    if (ret) *ret = t->ret;
    log("joined t%d", t->id);
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!ACTIVE) return REAL(pthread_detach)(p);
    Rt rt; Thread* t = thread_by_real(p); if (t) t->detached = true;
    return 0;
}
int sched_yield() {
    if (!ACTIVE) return REAL(sched_yield)();
    Rt rt; advance(1000); wait_for([] { return false; }, now() + 1000, "yield");
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!ACTIVE) return REAL(pthread_mutex_lock)(m);
    Rt rt; mx_lock(m, is_recursive(m)); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!ACTIVE) return REAL(pthread_mutex_trylock)(m);
    Rt rt; return mx_try(m, is_recursive(m)) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!ACTIVE) return REAL(pthread_mutex_timedlock)(m, ts);
    Rt rt; return mx_timed(m, to_deadline(CLOCK_REALTIME, ts)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if (!ACTIVE) return REAL(pthread_mutex_clocklock)(m, c, ts);
    Rt rt; return mx_timed(m, to_deadline(c, ts)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!ACTIVE) return REAL(pthread_mutex_unlock)(m);
    Rt rt; mx_unlock(m); return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (ACTIVE) { Rt rt; os->mx[m] = Mx(); }
    return REAL(pthread_mutex_init)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (ACTIVE) {
        Rt rt;
        auto it = os->mx.find(m);
        if (it != os->mx.end()) { if (it->second.owner >= 0) violation("lock-destroyed", "a locked mutex is destroyed by t%d", t_self->id); os->mx.erase(it); }
        return 0;
    }
    return REAL(pthread_mutex_destroy)(m);
}
int pthread_spin_init(pthread_spinlock_t* m, int sh) {
    if (ACTIVE) { Rt rt; os->mx[const_cast<int*>(m)] = Mx(); }
    return REAL(pthread_spin_init)(m, sh);
}
int pthread_spin_destroy(pthread_spinlock_t* m) {
    if (ACTIVE) { Rt rt; os->mx.erase(const_cast<int*>(m)); }
    return REAL(pthread_spin_destroy)(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) {
    if (!ACTIVE) return REAL(pthread_spin_lock)(m);
    Rt rt; mx_lock(const_cast<int*>(m), false); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    if (!ACTIVE) return REAL(pthread_spin_trylock)(m);
    Rt rt; return mx_try(const_cast<int*>(m), false) ? 0 : EBUSY;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!ACTIVE) return REAL(pthread_spin_unlock)(m);
    Rt rt; mx_unlock(const_cast<int*>(m)); return 0;
}

static Rw& rw(void* p) {
    if (is_freed(p)) violation("use-after-free", "rwlock in freed memory %p used by t%d", p, t_self->id);
    return os->rw[p];
}
static int rw_rd(void* p, uint64_t dl, bool tr) {
    point(K_SYNC);
    Rw* r = &rw(p);
    if (r->writer >= 0) {
        if (tr) return EBUSY;
        if (!wait_for([r] { return r->writer < 0; }, dl, "rdlock")) return ETIMEDOUT;
    }
    r->readers++; acquire_clock(r->vc);
    return 0;
}
static int rw_wr(void* p, uint64_t dl, bool tr) {
    point(K_SYNC);
    Rw* r = &rw(p);
    if (r->writer >= 0 || r->readers) {
        if (tr) return EBUSY;
        if (!wait_for([r] { return r->writer < 0 && !r->readers; }, dl, "wrlock")) return ETIMEDOUT;
    }
    r->writer = t_self->id; acquire_clock(r->vc); acquire_clock(r->rvc);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { if (!ACTIVE) return REAL(pthread_rwlock_rdlock)(p); Rt rt; return rw_rd(p, ~0ull, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { if (!ACTIVE) return REAL(pthread_rwlock_tryrdlock)(p); Rt rt; return rw_rd(p, ~0ull, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { if (!ACTIVE) return REAL(pthread_rwlock_wrlock)(p); Rt rt; return rw_wr(p, ~0ull, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { if (!ACTIVE) return REAL(pthread_rwlock_trywrlock)(p); Rt rt; return rw_wr(p, ~0ull, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
    if (!ACTIVE) return REAL(pthread_rwlock_unlock)(p);
    Rt rt; Rw* r = &rw(p);
    if (r->writer == t_self->id) { release_clock(r->vc); r->writer = -1; }
    else if (r->readers > 0) { release_clock_join(r->rvc); r->readers--; }
    else violation("bad-unlock", "t%d unlocks a rwlock that is not held", t_self->id);
    point(K_SYNC);
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!ACTIVE) return REAL(pthread_cond_wait)(c, m);
    Rt rt; return cv_wait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!ACTIVE) return REAL(pthread_cond_timedwait)(c, m, ts);
    Rt rt; return cv_wait(c, m, to_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!ACTIVE) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
    Rt rt; return cv_wait(c, m, to_deadline(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* c) { if (!ACTIVE) return REAL(pthread_cond_signal)(c); Rt rt; cv_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ACTIVE) return REAL(pthread_cond_broadcast)(c); Rt rt; cv_signal(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!ACTIVE) return REAL(pthread_cond_destroy)(c);
    Rt rt; os->cv.erase(c); return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
    if (!t_self) return REAL(pthread_once)(ctl, fn);
    int lib = t_self->lib;
    if (*ctl == 2) { if (lib && os->once.count(ctl)) acquire_clock(os->once[ctl].vc); return 0; }
    { Rt rt;
      if (lib) point(K_SYNC);
      Once* o = &os->once[ctl];
      if (o->state == 1) wait_for([o] { return o->state != 1; }, ~0ull, "once");
      if (o->state == 2) { acquire_clock(o->vc); return 0; }
      o->state = 1; }
    try { fn(); } catch (...) { Rt rt; os->once[ctl].state = 0; throw; }
    Rt rt;
    Once* o = &os->once[ctl];
    o->state = 2; release_clock(o->vc); *ctl = 2;
    return 0;
}
int __cxa_guard_acquire(__cxxabiv1::__guard* gd) {
    char* b = reinterpret_cast<char*>(gd);
    if (*b) return 0;
    if (!t_self) {
        static auto p = reinterpret_cast<int (*)(__cxxabiv1::__guard*)>(real_sym("__cxa_guard_acquire"));
        return p(gd);
    }
    Rt rt;
    if (rt.saved) point(K_SYNC);
    Once* o = &os->once[gd];
    if (o->state == 1) wait_for([o] { return o->state != 1; }, ~0ull, "static init");
    if (o->state == 2) { acquire_clock(o->vc); return 0; }
    o->state = 1;
    return 1;
}
unsigned char __tsan_atomic8_load(const volatile unsigned char*, int);
void __tsan_atomic8_store(volatile unsigned char*, unsigned char, int);
void __cxa_guard_release(__cxxabiv1::__guard* gd) {
    if (!t_self) {
        static auto p = reinterpret_cast<void (*)(__cxxabiv1::__guard*)>(real_sym("__cxa_guard_release"));
        p(gd); return;
    }
    __tsan_atomic8_store(reinterpret_cast<unsigned char*>(gd), 1, __ATOMIC_RELEASE);
    Rt rt;
    Once* o = &os->once[gd];
    o->state = 2; release_clock(o->vc);
    *reinterpret_cast<char*>(gd) = 1;
}
void __cxa_guard_abort(__cxxabiv1::__guard* gd) {
    if (!t_self) {
        static auto p = reinterpret_cast<void (*)(__cxxabiv1::__guard*)>(real_sym("__cxa_guard_abort"));
        p(gd); return;
    }
    Rt rt; os->once[gd].state = 0;
}

// ------------------------------------------------------------------ time
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!ACTIVE) return REAL(clock_gettime)(c, ts);
    Rt rt; point(K_SYS);
    uint64_t m = clock_tick();
    int64_t v;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        if (int64_t f = fault(F_CLOCK_JUMP, 8)) {
            const int64_t s = 1000000000ll;
            const int64_t d[] = {-s, s, -3600 * s, 3600 * s, -86400 * s, 86400 * s, 400ll * 86400 * s, -1000000};
            jump_clock(d[f - 1]);
        }
        v = realtime();
        if (c == CLOCK_REALTIME_COARSE) v -= ((v % 4000000) + 4000000) % 4000000;      // the last tick: possibly before the call began
        else rt.t->readings.push_back(v);
    } else v = static_cast<int64_t>(m);
    int64_t sec = v / 1000000000ll, ns = v % 1000000000ll;
    if (ns < 0) { ns += 1000000000ll; --sec; }
    ts->tv_sec = sec; ts->tv_nsec = ns;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
    if (!ACTIVE) return REAL(gettimeofday)(tv, tz);
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    { Rt rt; if (!rt.t->readings.empty()) rt.t->readings.push_back(rt.t->readings.back() / 1000 * 1000); }
    return 0;
}
time_t time(time_t* o) {
    if (!ACTIVE) return REAL(time)(o);
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
static int vsleep(uint64_t ns) { wait_for([] { return false; }, now() + ns, "sleep"); return 0; }
int nanosleep(const struct timespec* r, struct timespec* rem) {
    if (!ACTIVE) return REAL(nanosleep)(r, rem);
    Rt rt; return vsleep(static_cast<uint64_t>(r->tv_sec) * 1000000000ull + static_cast<uint64_t>(r->tv_nsec));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* rem) {
    if (!ACTIVE) return REAL(clock_nanosleep)(c, fl, r, rem);
    Rt rt;
    if (fl & TIMER_ABSTIME) { uint64_t d = to_deadline(c, r); return vsleep(d - now()); }
    return vsleep(static_cast<uint64_t>(r->tv_sec) * 1000000000ull + static_cast<uint64_t>(r->tv_nsec));
}
int usleep(useconds_t us) { if (!ACTIVE) return REAL(usleep)(us); Rt rt; return vsleep(us * 1000ull); }
unsigned sleep(unsigned s) { if (!ACTIVE) return REAL(sleep)(s); Rt rt; vsleep(s * 1000000000ull); return 0; }

pid_t getpid() { if (!ACTIVE) return REAL(getpid)(); return static_cast<pid_t>(sim::pid()); }
pid_t gettid() { if (!ACTIVE) return static_cast<pid_t>(REAL(syscall)(SYS_gettid)); return static_cast<pid_t>(t_self->vtid); }
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (ACTIVE) {
        if (n == SYS_gettid) return t_self->vtid;
        if (n == SYS_getpid) return static_cast<long>(sim::pid());
        if (n == SYS_futex) {
            Rt rt; point(K_SYNC);
            int op = static_cast<int>(b) & 0x7f;
            int* u = reinterpret_cast<int*>(a);
            auto& q = os->fut[u];
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                if (*u != static_cast<int>(c)) { errno = EAGAIN; return -1; }
                int me = t_self->id;
                os->fut_woken[me] = false; q.push_back(me);
                uint64_t dl = ~0ull;
                if (auto* ts = reinterpret_cast<const struct timespec*>(d)) {
                    if (op == FUTEX_WAIT) dl = now() + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
                    else dl = to_deadline((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
                bool ok = wait_for([me] { return os->fut_woken[me]; }, dl, "futex", false);
                auto& w = os->fut[u]; w.erase(std::remove(w.begin(), w.end(), me), w.end());
                if (!ok) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                long k = 0;
                while (k < c && !q.empty()) { os->fut_woken[q.front()] = true; q.pop_front(); ++k; }
                return k;
            }
            internal_error("futex op %d", op);
        }
    }
    return REAL(syscall)(n, a, b, c, d, e, f);
}

// ------------------------------------------------------------------ files
static ssize_t cookie_write(void* c, const char* buf, size_t n) {
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
    // no scheduling point here: the C library holds its stream lock
    auto it = os->files.find(fd);
    if (it == os->files.end()) { errno = EBADF; return 0; }
    Rt rt;
    if (fs->free_bytes == 0) { errno = ENOSPC; return 0; }
    if (fs->free_bytes > 0) { if (static_cast<int64_t>(n) > fs->free_bytes) n = static_cast<size_t>(fs->free_bytes); fs->free_bytes -= static_cast<int64_t>(n); }
    if (!fs->frozen) it->second.ino->data.append(buf, n);
    return static_cast<ssize_t>(n);
}
static int flags_of(const char* m) {
    int f = 0;
    bool plus = strchr(m, '+') != nullptr;
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
FILE* fopen(const char* p, const char* m) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(fopen)(p, m);
    Rt rt;
    int fd = vopen(p, flags_of(m));
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {nullptr, cookie_write, nullptr, nullptr};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), m[0] == 'r' ? "r" : "a", io);
    os->streams[f] = fd;
    return f;
}
FILE* fopen64(const char* p, const char* m) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(fopen64)(p, m);
    return fopen(p, m);
}
int fileno(FILE* f) {
    if (os && t_self) { Rt rt; auto it = os->streams.find(f); if (it != os->streams.end()) return it->second; }
    return REAL(fileno)(f);
}
int fclose(FILE* f) {
    if (!os || !t_self) return REAL(fclose)(f);
    Rt rt;
    auto it = os->streams.find(f);
    if (it == os->streams.end()) return REAL(fclose)(f);
    int fd = it->second;
    if (rt.saved) point(K_SYS);
    os->streams.erase(it);
    int rc = REAL(fclose)(f);
    if (is_vfile(fd)) vclose(fd);
    REAL(close)(fd);
    if (rt.saved && fault(F_CLOSE_ERR)) { errno = EIO; return EOF; }
    return rc;
}
static int do_open(const char* p, int fl) { Rt rt; return vopen(p, fl); }
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (!ACTIVE || !is_sim_path(p)) return REAL(open)(p, fl, mode);
    return do_open(p, fl);
}
int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (!ACTIVE || !is_sim_path(p)) return REAL(open64)(p, fl, mode);
    return do_open(p, fl);
}
int openat(int dfd, const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (!ACTIVE || !is_sim_path(p)) return REAL(openat)(dfd, p, fl, mode);
    return do_open(p, fl);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void net_close(int fd);
int close(int fd) {
    if (!os || !t_self) return REAL(close)(fd);
    Rt rt;
    if (is_vfile(fd)) { if (rt.saved) point(K_SYS); vclose(fd); return REAL(close)(fd); }
    if (is_vsock(fd)) { if (rt.saved) point(K_SYS); net_close(fd); return REAL(close)(fd); }
    return REAL(close)(fd);
}
ssize_t net_send(int fd, const struct iovec* iov, int cnt, const struct sockaddr* to, int flags);
ssize_t write(int fd, const void* b, size_t n) {
    if (ACTIVE) {
        Rt rt;
        struct iovec v{const_cast<void*>(b), n};
        if (is_vfile(fd)) return vwrite(fd, &v, 1);
        if (is_vsock(fd)) return net_send(fd, &v, 1, nullptr, 0);
        if (fd == 1 || fd == 2) { size_t k = console_write(fd - 1, static_cast<const char*>(b), n); return k || !n ? static_cast<ssize_t>(k) : -1; }
    }
    return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
    if (ACTIVE) {
        Rt rt;
        if (is_vfile(fd)) return vwrite(fd, iov, cnt);
        if (is_vsock(fd)) return net_send(fd, iov, cnt, nullptr, 0);
        if (fd == 1 || fd == 2) {
            std::string s;
            for (int i = 0; i < cnt; ++i) s.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
            size_t k = console_write(fd - 1, s.data(), s.size());
            return k || s.empty() ? static_cast<ssize_t>(k) : -1;
        }
    }
    return REAL(writev)(fd, iov, cnt);
}
static off64_t vlseek(int fd, off64_t o, int wh) {
    FileH& h = os->files[fd];
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<int64_t>(h.off) : static_cast<int64_t>(h.ino->data.size());
    if (base + o < 0) { errno = EINVAL; return -1; }
    h.off = static_cast<uint64_t>(base + o);
    return static_cast<off64_t>(h.off);
}
off_t lseek(int fd, off_t o, int wh) {
    if (ACTIVE) { Rt rt; if (is_vfile(fd)) { point(K_SYS); return vlseek(fd, o, wh); } }
    return REAL(lseek)(fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) {
    if (ACTIVE) { Rt rt; if (is_vfile(fd)) { point(K_SYS); return vlseek(fd, o, wh); } }
    return REAL(lseek64)(fd, o, wh);
}
ssize_t read(int fd, void* b, size_t n) {
    if (ACTIVE) {
        Rt rt;
        if (is_vfile(fd)) {
            point(K_SYS);
            FileH& h = os->files[fd];
            if (h.off >= h.ino->data.size()) return 0;
            size_t k = std::min(n, static_cast<size_t>(h.ino->data.size() - h.off));
            __builtin_memcpy(b, h.ino->data.data() + h.off, k);
            h.off += k;
            return static_cast<ssize_t>(k);
        }
    }
    return REAL(read)(fd, b, n);
}
int ftruncate(int fd, off_t n) {
    if (ACTIVE) {
        Rt rt;
        if (is_vfile(fd)) {
            point(K_SYS);
            auto& i = *os->files[fd].ino;
            if (static_cast<size_t>(n) < i.data.size()) i.truncated = true;
            i.data.resize(static_cast<size_t>(n));
            return 0;
        }
    }
    return REAL(ftruncate)(fd, n);
}
int truncate(const char* p, off_t n) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(truncate)(p, n);
    Rt rt; point(K_SYS);
    auto i = fs->lookup(p);
    if (!i) { errno = ENOENT; return -1; }
    if (static_cast<size_t>(n) < i->data.size()) i->truncated = true;
    i->data.resize(static_cast<size_t>(n));
    return 0;
}
int fsync(int fd) { if (ACTIVE) { Rt rt; if (is_vfile(fd)) { point(K_SYS); return 0; } } return REAL(fsync)(fd); }
int fdatasync(int fd) { if (ACTIVE) { Rt rt; if (is_vfile(fd)) { point(K_SYS); return 0; } } return REAL(fdatasync)(fd); }
int stat(const char* __restrict p, struct stat* __restrict st) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(stat)(p, st);
    Rt rt; return vstat(p, st);
}
int stat64(const char* __restrict p, struct stat64* __restrict st) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(stat64)(p, st);
    Rt rt; return vstat(p, reinterpret_cast<struct stat*>(st));
}
int lstat(const char* __restrict p, struct stat* __restrict st) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(lstat)(p, st);
    Rt rt; return vstat(p, st);
}
int fstatat(int dfd, const char* __restrict p, struct stat* __restrict st, int fl) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(fstatat)(dfd, p, st, fl);
    Rt rt; return vstat(p, st);
}
int fstat(int fd, struct stat* st) {
    if (ACTIVE) { Rt rt; if (is_vfile(fd)) return vfstat(fd, st); }
    return REAL(fstat)(fd, st);
}
int fstat64(int fd, struct stat64* st) {
    if (ACTIVE) { Rt rt; if (is_vfile(fd)) return vfstat(fd, reinterpret_cast<struct stat*>(st)); }
    return REAL(fstat64)(fd, st);
}
int access(const char* p, int m) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(access)(p, m);
    Rt rt; point(K_SYS);
    if (!fs->lookup(p)) { errno = ENOENT; return -1; }
    if (std::find(fs->denied.begin(), fs->denied.end(), std::string(p)) != fs->denied.end()) { errno = EACCES; return -1; }
    return 0;
}
int rename(const char* a, const char* b) {
    if (!ACTIVE || !is_sim_path(a)) return REAL(rename)(a, b);
    Rt rt; point(K_SYS);
    if (!fs->lookup(a)) { errno = ENOENT; return -1; }
    fs->rename(a, b);
    return 0;
}
int unlink(const char* p) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(unlink)(p);
    Rt rt; point(K_SYS);
    if (!fs->lookup(p)) { errno = ENOENT; return -1; }
    fs->unlink(p);
    return 0;
}
int remove(const char* p) { if (!ACTIVE || !is_sim_path(p)) return REAL(remove)(p); return unlink(p); }
int mkdir(const char* p, mode_t m) {
    if (!ACTIVE || !is_sim_path(p)) return REAL(mkdir)(p, m);
    Rt rt; point(K_SYS);
    fs->dirs.push_back(p);
    return 0;
}
int isatty(int fd) {
    if (ACTIVE && (fd == 1 || fd == 2)) { Rt rt; point(K_SYS); return con->tty[fd - 1]; }
    return REAL(isatty)(fd);
}

// ------------------------------------------------------------------ stdio on the standard streams
static int stdidx(FILE* f) { return f == stdout ? 0 : f == stderr ? 1 : -1; }
size_t fwrite(const void* __restrict b, size_t sz, size_t n, FILE* __restrict f) {
    if (ACTIVE && stdidx(f) >= 0) { Rt rt; if (!sz) return 0; return console_write(stdidx(f), static_cast<const char*>(b), sz * n) / sz; }
    return REAL(fwrite)(b, sz, n, f);
}
size_t fwrite_unlocked(const void* __restrict b, size_t sz, size_t n, FILE* __restrict f) { return fwrite(b, sz, n, f); }
int fputc(int c, FILE* f) {
    if (ACTIVE && stdidx(f) >= 0) { Rt rt; char ch = static_cast<char>(c); return console_write(stdidx(f), &ch, 1) == 1 ? static_cast<unsigned char>(c) : EOF; }
    return REAL(fputc)(c, f);
}
int putc(int c, FILE* f) { return fputc(c, f); }
int _IO_putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char* __restrict s, FILE* __restrict f) {
    if (ACTIVE && stdidx(f) >= 0) { Rt rt; size_t n = strlen(s); return console_write(stdidx(f), s, n) == n ? 1 : EOF; }
    return REAL(fputs)(s, f);
}
int puts(const char* s) {
    if (ACTIVE) { Rt rt; std::string t(s); t += '\n'; return console_write(0, t.data(), t.size()) == t.size() ? 1 : EOF; }
    return REAL(puts)(s);
}
int vfprintf(FILE* __restrict f, const char* __restrict fmt, va_list ap) {
    if (ACTIVE && stdidx(f) >= 0) {
        Rt rt;
        va_list ap2; va_copy(ap2, ap);
        int n = vsnprintf(nullptr, 0, fmt, ap2);
        va_end(ap2);
        if (n < 0) return n;
        std::vector<char> b(static_cast<size_t>(n) + 1);
        vsnprintf(b.data(), b.size(), fmt, ap);
        return console_write(stdidx(f), b.data(), static_cast<size_t>(n)) == static_cast<size_t>(n) ? n : -1;
    }
    return REAL(vfprintf)(f, fmt, ap);
}
int fprintf(FILE* __restrict f, const char* __restrict fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int printf(const char* __restrict fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fflush(FILE* f) {
    if (ACTIVE && f && stdidx(f) >= 0) { Rt rt; return console_flush(stdidx(f)); }
    return REAL(fflush)(f);
}

// ------------------------------------------------------------------ network
int socket(int dom, int type, int proto) {
    if (!ACTIVE) return REAL(socket)(dom, type, proto);
    Rt rt; point(K_SYS);
    if (int64_t f = fault(F_SOCKET_ERR, 2)) { net_err(true); errno = f == 1 ? EMFILE : ENOBUFS; return -1; }
    int fd = eventfd(0, EFD_CLOEXEC);
    os->socks[fd] = SockH{type & 0xf, nullptr, (type & SOCK_NONBLOCK) != 0, 0, 0, 0};
    os->socks[fd].dom = dom;
    net->open_sockets++; net->max_open = std::max(net->max_open, net->open_sockets);
    log("socket");
    return fd;
}
static void net_close(int fd) {
    auto it = os->socks.find(fd);
    if (it->second.conn) { it->second.conn->closed = true; log("close conn %d", it->second.conn->id); }
    else log("close socket");
    net->open_sockets--;
    os->socks.erase(it);
}
int connect(int fd, const struct sockaddr* sa, socklen_t len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(connect)(fd, sa, len);
    Rt rt; point(K_SYS);
    SockH& s = os->socks[fd];
    if (sa->sa_family != s.dom) { log("connect: wrong address family"); errno = EAFNOSUPPORT; return -1; }
    if (s.conn) { errno = EISCONN; return -1; }
    addr_of(sa, s.ip, s.port);
    const uint32_t ip = s.ip;
    if (s.type == SOCK_DGRAM) { s.connected = true; return 0; }
    net->nconnect++; net->tried[t_self->id].push_back(ip);
    if (fault(F_CONN_EINTR)) return conn_err(ip, EINTR);
    if (fault(F_CONN_TIMEOUT)) { wait_for([] { return false; }, now() + 30000000000ull, "connect"); return conn_err(ip, ETIMEDOUT); }
    if (int64_t f = fault(F_CONN_REFUSED, 4)) { const int e[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ECONNRESET}; return conn_err(ip, e[f - 1]); }
    wait_for([] { return false; }, now() + 200000, "connect");
    if (!os->socks.count(fd)) { errno = EBADF; return -1; }
    SockH& s2 = os->socks[fd];
    auto l = net->listeners.find({s2.ip, s2.port});
    if (l == net->listeners.end() || !l->second) return conn_err(ip, net->unreachable.count(ip) ? net->unreachable[ip] : ECONNREFUSED);
    if (s2.conn) { errno = EISCONN; return -1; }
    auto c = std::make_shared<Conn>();
    c->id = static_cast<int>(net->conns.size()); c->ip = s2.ip; c->port = s2.port; c->fd = fd; c->born = seq();
    net->conns.push_back(c);
    s2.conn = c; s2.connected = true;
    log("connected conn %d", c->id);
    return 0;
}
ssize_t net_send(int fd, const struct iovec* iov, int cnt, const struct sockaddr* to, int flags) {
    point(K_SYS);
    std::string data;
    for (int i = 0; i < cnt; ++i) {
        mem_access(reinterpret_cast<uintptr_t>(iov[i].iov_base), iov[i].iov_len, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        data.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    }
    if (!os->socks.count(fd)) { errno = EBADF; return -1; }
    SockH& s = os->socks[fd];
    net->nsend++;
    if (s.type == SOCK_DGRAM) {
        if (s.pending) { errno = s.pending; s.pending = 0; log("send: pending socket error"); return -1; }
        if (fault(F_SEND_EINTR)) { net_err(true); errno = EINTR; return -1; }
        if (int64_t f = fault(F_SEND_ERR, 4)) { net_err(true); const int e[] = {ECONNREFUSED, ENOBUFS, ENETUNREACH, EPERM}; errno = e[f - 1]; return -1; }
        if (data.size() > 65507) { net_err(true); errno = EMSGSIZE; return -1; }
        uint32_t ip = s.ip; uint16_t port = s.port;
        if (to) { if (to->sa_family != s.dom) { errno = EAFNOSUPPORT; return -1; } addr_of(to, ip, port); }
        else if (!s.connected) { errno = EDESTADDRREQ; return -1; }
        net->dgrams.push_back(Datagram{ip, port, data, t_self->id});
        // nobody listens there: the ICMP error comes back to connected sockets only
        if (s.connected && net->udp_closed.count({ip, port}) && net->udp_closed[{ip, port}]) s.pending = ECONNREFUSED;
        log("datagram %zu bytes", data.size());
        return static_cast<ssize_t>(data.size());
    }
    if (!s.conn) { errno = ENOTCONN; return -1; }
    auto c = s.conn;
    c->nsend++;
    if (c->failed) c->after_fail++;
    auto broken = [&](int e) {
        log("send on broken conn %d: %d", c->id, e);
        c->failed = true; net_err(true); net->send_errs[t_self->id]++;
        if (e == EPIPE && !(flags & MSG_NOSIGNAL)) violation("sigpipe", "connection %d is broken and the send does not suppress SIGPIPE: the process is killed", c->id);
        errno = e; return -1;
    };
    if (fault(F_SEND_STALL)) {
        if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        wait_for([] { return false; }, now() + 2000000000ull, "send");
        if (!os->socks.count(fd)) { errno = EBADF; return -1; }
    }
    if (c->broken) return broken(EPIPE);
    if (fault(F_SEND_EINTR)) { net_err(true); errno = EINTR; return -1; }
    if (int64_t f = fault(F_SEND_RESET, 3)) { c->broken = true; const int e[] = {ECONNRESET, EPIPE, ETIMEDOUT}; return broken(e[f - 1]); }
    if (c->dying) c->broken = true;
    size_t n = data.size();
    if (n > 1) if (int64_t f = fault(F_SEND_SHORT, 1000)) n = 1 + (n - 1) * static_cast<size_t>(f - 1) / 1000;
    c->rx.append(data, 0, n);
    log("send conn %d %zu of %zu", c->id, n, data.size());
    return static_cast<ssize_t>(n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(send)(fd, b, n, fl);
    Rt rt; struct iovec v{const_cast<void*>(b), n}; return net_send(fd, &v, 1, nullptr, fl);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* to, socklen_t len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(sendto)(fd, b, n, fl, to, len);
    Rt rt; struct iovec v{const_cast<void*>(b), n}; return net_send(fd, &v, 1, to, fl);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(sendmsg)(fd, m, fl);
    Rt rt; return net_send(fd, m->msg_iov, static_cast<int>(m->msg_iovlen), static_cast<const struct sockaddr*>(m->msg_name), fl);
}
// Peers never send anything: an orderly or broken end is all there is to receive.
static ssize_t net_recv(int fd, int flags) {
    point(K_SYS);
    if (!os->socks.count(fd)) { errno = EBADF; return -1; }
    SockH& s = os->socks[fd];
    if (s.pending) { errno = s.pending; s.pending = 0; return -1; }
    if (s.conn) {
        if (s.conn->broken) { s.conn->failed = true; errno = ECONNRESET; return -1; }
        if (s.conn->dying) return 0;
    } else if (s.type == SOCK_STREAM) { errno = ENOTCONN; return -1; }
    if (s.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    wait_for([fd] { auto it = os->socks.find(fd); return it == os->socks.end() || (it->second.conn && (it->second.conn->broken || it->second.conn->dying)); }, ~0ull, "recv");
    auto it = os->socks.find(fd);
    if (it == os->socks.end()) { errno = EBADF; return -1; }
    if (it->second.conn && it->second.conn->broken) { it->second.conn->failed = true; errno = ECONNRESET; return -1; }
    return 0;
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(recv)(fd, b, n, fl);
    Rt rt; return net_recv(fd, fl);
}
ssize_t recvfrom(int fd, void* __restrict b, size_t n, int fl, struct sockaddr* __restrict from, socklen_t* __restrict len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(recvfrom)(fd, b, n, fl, from, len);
    Rt rt; return net_recv(fd, fl);
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(recvmsg)(fd, m, fl);
    Rt rt; return net_recv(fd, fl);
}
static int put_addr(int dom, uint32_t ip, uint16_t port, struct sockaddr* sa, socklen_t* len) {
    if (dom == AF_INET6) {
        struct sockaddr_in6 in; memset(&in, 0, sizeof in);
        in.sin6_family = AF_INET6; in.sin6_port = htons(port);
        const unsigned char pre[4] = {0x20, 0x01, 0x0d, 0xb8}; memcpy(in.sin6_addr.s6_addr, pre, 4);
        uint32_t w = htonl(ip); memcpy(in.sin6_addr.s6_addr + 12, &w, 4);
        memcpy(sa, &in, std::min<size_t>(*len, sizeof in)); *len = sizeof in;
    } else {
        struct sockaddr_in in; memset(&in, 0, sizeof in);
        in.sin_family = AF_INET; in.sin_port = htons(port); in.sin_addr.s_addr = htonl(ip);
        memcpy(sa, &in, std::min<size_t>(*len, sizeof in)); *len = sizeof in;
    }
    return 0;
}
int getpeername(int fd, struct sockaddr* __restrict sa, socklen_t* __restrict len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(getpeername)(fd, sa, len);
    Rt rt; SockH& s = os->socks[fd];
    if (!s.connected || (s.conn && s.conn->broken)) { errno = ENOTCONN; return -1; }
    return put_addr(s.dom, s.ip, s.port, sa, len);
}
int getsockname(int fd, struct sockaddr* __restrict sa, socklen_t* __restrict len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(getsockname)(fd, sa, len);
    Rt rt; SockH& s = os->socks[fd];
    return put_addr(s.dom, s.connected ? (s.dom == AF_INET6 ? 0xf00000fe : 0x7f000001) : 0, s.connected ? 40000 : 0, sa, len);
}
int bind(int fd, const struct sockaddr* sa, socklen_t len) {
    if (!ACTIVE || !is_vsock(fd)) return REAL(bind)(fd, sa, len);
    return 0;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (ACTIVE && n == 1 && is_vsock(p->fd)) {
        Rt rt; point(K_SYS);
        auto ready = [p] {
            auto it = os->socks.find(p->fd);
            if (it == os->socks.end()) { p->revents = POLLNVAL; return true; }
            const SockH& s = it->second;
            int r = p->events & (POLLOUT | POLLWRNORM);
            if (s.pending || (s.conn && s.conn->broken)) r |= POLLERR | (s.conn ? POLLHUP : 0) | (p->events & (POLLIN | POLLRDNORM));
            else if (s.conn && s.conn->dying) r |= p->events & (POLLIN | POLLRDNORM | POLLRDHUP);
            p->revents = static_cast<short>(r);
            return r != 0;
        };
        if (ready()) return 1;
        if (timeout != 0) wait_for([] { return false; }, now() + 1000000ull * static_cast<uint64_t>(timeout < 0 ? 1000 : timeout), "poll");
        while (!ready()) { if (timeout >= 0) return 0; wait_for([] { return false; }, now() + 1000000000ull, "poll"); }
        return 1;
    }
    return REAL(poll)(p, n, timeout);
}
int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* len) {
    if (ACTIVE && is_vsock(fd)) {
        int r = 0;
        if (lvl == SOL_SOCKET && opt == SO_ERROR) { r = os->socks[fd].pending; os->socks[fd].pending = 0; }
        if (v && len && *len >= sizeof(int)) *static_cast<int*>(v) = r;
        return 0;
    }
    return REAL(getsockopt)(fd, lvl, opt, v, len);
}
int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t len) {
    if (ACTIVE && is_vsock(fd)) return 0;
    return REAL(setsockopt)(fd, lvl, opt, v, len);
}
int shutdown(int fd, int how) {
    if (ACTIVE && is_vsock(fd)) { Rt rt; point(K_SYS); return 0; }
    return REAL(shutdown)(fd, how);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if (ACTIVE && is_vsock(fd)) { Rt rt; if (req == FIONREAD) *static_cast<int*>(a) = 0; if (req == FIONBIO) os->socks[fd].nonblock = *static_cast<int*>(a) != 0; return 0; }
    return REAL(ioctl)(fd, req, a);
}
int getaddrinfo(const char* __restrict host, const char* __restrict svc, const struct addrinfo* __restrict hints, struct addrinfo** __restrict res) {
    if (!ACTIVE) return REAL(getaddrinfo)(host, svc, hints, res);
    Rt rt; point(K_SYS);
    net->nresolve++;
    if (int64_t f = fault(F_DNS_FAIL, 3)) { net_err(true); const int e[] = {EAI_AGAIN, EAI_NONAME, EAI_FAIL}; return e[f - 1]; }
    wait_for([] { return false; }, now() + 500000, "resolve");
    std::vector<uint32_t> ips, found;
    struct in_addr ia; struct in6_addr ia6;
    if (host && inet_pton(AF_INET, host, &ia) == 1) found.push_back(ntohl(ia.s_addr));
    else if (host && inet_pton(AF_INET6, host, &ia6) == 1) { uint32_t w; memcpy(&w, ia6.s6_addr + 12, 4); found.push_back(ntohl(w)); }
    else if (host && net->dns.count(host)) found = net->dns[host];
    const int family = hints ? hints->ai_family : AF_UNSPEC;
    for (uint32_t ip : found) if (family == AF_UNSPEC || family == (is_v6(ip) ? AF_INET6 : AF_INET)) ips.push_back(ip);
    if (ips.empty()) { net_err(true); return EAI_NONAME; }
    net->answer[t_self->id] = ips;
    int port = svc ? atoi(svc) : 0;
    struct addrinfo* head = nullptr; struct addrinfo** tail = &head;
    for (uint32_t ip : ips) {
        auto* a = static_cast<struct addrinfo*>(calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in6)));
        if (is_v6(ip)) {
            auto* in = reinterpret_cast<struct sockaddr_in6*>(a + 1);
            in->sin6_family = AF_INET6; in->sin6_port = htons(static_cast<uint16_t>(port));
            const unsigned char pre[4] = {0x20, 0x01, 0x0d, 0xb8}; memcpy(in->sin6_addr.s6_addr, pre, 4);
            uint32_t w = htonl(ip); memcpy(in->sin6_addr.s6_addr + 12, &w, 4);
            a->ai_addrlen = sizeof *in; a->ai_family = AF_INET6;
        } else {
            auto* in = reinterpret_cast<struct sockaddr_in*>(a + 1);
            in->sin_family = AF_INET; in->sin_port = htons(static_cast<uint16_t>(port)); in->sin_addr.s_addr = htonl(ip);
            a->ai_addrlen = sizeof *in; a->ai_family = AF_INET;
        }
        a->ai_socktype = hints ? hints->ai_socktype : SOCK_STREAM; a->ai_protocol = hints ? hints->ai_protocol : 0;
        a->ai_addr = reinterpret_cast<struct sockaddr*>(a + 1);
        *tail = a; tail = &a->ai_next;
    }
    *res = head;
    return 0;
}
void freeaddrinfo(struct addrinfo* a) {
    if (!t_self) { REAL(freeaddrinfo)(a); return; }
    while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; }
}

// ------------------------------------------------------------------ calendar
// The real implementations with their memory accesses made visible; localtime and gmtime share one
// static result like the real ones do.
static struct tm g_tm_static;
static char g_asctime_static[64];
#define TMR(p, w) mem_access(reinterpret_cast<uintptr_t>(p), sizeof(struct tm), w, reinterpret_cast<uintptr_t>(__builtin_return_address(0)))
struct tm* localtime_r(const time_t* __restrict t, struct tm* __restrict r) {
    if (!ACTIVE) return REAL(localtime_r)(t, r);
    Rt rt; point(K_SYS); TMR(r, true);
    return REAL(localtime_r)(t, r);
}
struct tm* gmtime_r(const time_t* __restrict t, struct tm* __restrict r) {
    if (!ACTIVE) return REAL(gmtime_r)(t, r);
    Rt rt; point(K_SYS); TMR(r, true);
    return REAL(gmtime_r)(t, r);
}
struct tm* localtime(const time_t* t) {
    if (!ACTIVE) return REAL(localtime)(t);
    Rt rt; point(K_SYS); TMR(&g_tm_static, true);
    REAL(localtime_r)(t, &g_tm_static);
    point(K_SYS);
    return &g_tm_static;
}
struct tm* gmtime(const time_t* t) {
    if (!ACTIVE) return REAL(gmtime)(t);
    Rt rt; point(K_SYS); TMR(&g_tm_static, true);
    REAL(gmtime_r)(t, &g_tm_static);
    point(K_SYS);
    return &g_tm_static;
}
size_t strftime(char* __restrict b, size_t n, const char* __restrict f, const struct tm* __restrict t) {
    if (!ACTIVE) return REAL(strftime)(b, n, f, t);
    Rt rt; point(K_SYS); TMR(t, false);
    size_t r = REAL(strftime)(b, n, f, t);
    if (r) mem_access(reinterpret_cast<uintptr_t>(b), r + 1, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    return r;
}
time_t mktime(struct tm* t) {
    if (!ACTIVE) return REAL(mktime)(t);
    Rt rt; point(K_SYS); TMR(t, true);
    return REAL(mktime)(t);
}
time_t timegm(struct tm* t) {
    if (!ACTIVE) return REAL(timegm)(t);
    Rt rt; point(K_SYS); TMR(t, true);
    return REAL(timegm)(t);
}
static char* asc_static(const struct tm* t) {
    mem_access(reinterpret_cast<uintptr_t>(g_asctime_static), sizeof g_asctime_static, true, 0);
    asctime_r(t, g_asctime_static);
    point(K_SYS);
    return g_asctime_static;
}
char* asctime(const struct tm* t) {
    if (!ACTIVE) return REAL(asctime)(t);
    Rt rt; point(K_SYS); TMR(t, false);
    return asc_static(t);
}
char* ctime(const time_t* t) {
    if (!ACTIVE) return REAL(ctime)(t);
    Rt rt; point(K_SYS); TMR(&g_tm_static, true);
    REAL(localtime_r)(t, &g_tm_static);
    return asc_static(&g_tm_static);
}

// ------------------------------------------------------------------ syslog
static void touch_ident() {
    if (slog->ident) {
        size_t n = 0;
        if (is_freed(slog->ident)) violation("use-after-free", "the identity given to openlog was freed while still in use (t%d)", t_self->id);
        while (slog->ident[n]) ++n;
        mem_access(reinterpret_cast<uintptr_t>(slog->ident), n + 1, false, 0);
    }
}
void openlog(const char* id, int opt, int fac) {
    if (!ACTIVE) { REAL(openlog)(id, opt, fac); return; }
    Rt rt; point(K_SYS);
    if (id) slog->ident = id;
    slog->option = opt; slog->facility = fac; slog->open = true;
    log("openlog");
}
void closelog() {
    if (!ACTIVE) { REAL(closelog)(); return; }
    Rt rt; point(K_SYS);
    slog->ident = nullptr; slog->open = false;
    log("closelog");
}
void vsyslog(int pri, const char* fmt, va_list ap) {
    if (!ACTIVE) { REAL(vsyslog)(pri, fmt, ap); return; }
    Rt rt; point(K_SYS);
    touch_ident();
    std::string buf(4096, 0);
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(&buf[0], buf.size(), fmt, ap2);
    va_end(ap2);
    if (n >= static_cast<int>(buf.size())) { buf.resize(static_cast<size_t>(n) + 1); vsnprintf(&buf[0], buf.size(), fmt, ap); }
    buf.resize(static_cast<size_t>(n < 0 ? 0 : n));
    slog->entries.push_back(SyslogEntry{pri, buf, slog->ident ? slog->ident : "", slog->ident != nullptr, t_self->id});
    log("syslog pri %d %zu bytes", pri, buf.size());
}
void syslog(int pri, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsyslog(pri, fmt, ap); va_end(ap); }
void __syslog_chk(int pri, int, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsyslog(pri, fmt, ap); va_end(ap); }
void __vsyslog_chk(int pri, int, const char* fmt, va_list ap) { vsyslog(pri, fmt, ap); }

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
    if (t_self) violation("assertion", "assertion `%s' failed at %s:%u", e, file, line);
    fprintf(stderr, "%s:%u: %s: assertion %s\n", file, line, fn, e);
    abort();
}
}
