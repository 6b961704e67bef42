/* C23: asynchronous sockets on fibers. The environment (peers outside the process,
 * signals) is played from inside the library's wait for descriptors: whenever the idle
 * fiber waits, nothing else is runnable, so the monitor can compare who waits for which
 * descriptor with what the kernel says is ready. */
#include "mon.h"
#include "psockval.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <rcpr/fiber.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/uuid.h>
RCPR_IMPORT_fiber;
RCPR_IMPORT_uuid;
using namespace mon;
using pv::Val;
typedef RCPR_SYM(fiber) Fiber;
typedef RCPR_SYM(fiber_scheduler) Sched;
typedef RCPR_SYM(rcpr_uuid) Uuid;

struct World;
static World* W = nullptr;
/* what the library asked of a descriptor, and how often, by direction */
static std::map<int, std::array<uint64_t, 2>> g_act;
static std::map<int, std::array<uint64_t, 2>> g_again;
static std::set<int> g_short;
static Rng g_R(1);
static std::map<int, unsigned> g_phantom;   /* descriptors whose calls may find nothing although they are ready: chance in 8 */
static struct { int fd = -1; const char* call = nullptr; int skip = 0, err = 0; uint64_t hits = 0; } g_fail;  /* one call fails, after skip that would block; 0: takes nothing */
static bool phantom(int fd, int dir) {
    auto i = g_phantom.find(fd); if (i == g_phantom.end() || !g_R.chance(i->second, 8)) return false;
    count("phantom_wakeups"); g_act[fd][dir]++; g_again[fd][dir]++; errno = EAGAIN; return true;
}
static bool failing(const char* call, int fd, int dir, ssize_t& r) {
    if (g_fail.fd != fd || !g_fail.call || strcmp(g_fail.call, call)) return false;
    g_act[fd][dir]++;
    if (g_fail.skip > 0) { --g_fail.skip; g_again[fd][dir]++; errno = EAGAIN; r = -1; return true; }
    if (g_fail.err == 0) { if (++g_fail.hits > 1000) fail("sem", "zero_writes", "a write goes on forever although the descriptor takes nothing"); r = 0; return true; }
    ++g_fail.hits; g_fail.fd = -1; errno = g_fail.err; r = -1; return true;
}
static struct { int fd = -1, err = 0, hits = 0; } g_ctl;   /* watching fd fails */
static struct { int fd = -1, cmd = 0, err = 0, hits = 0; } g_fcntl;
static bool g_no_descriptors;                /* epoll_create1 fails */
static void acted(int fd, int dir, ssize_t r) { int e = errno; g_act[fd][dir]++; if (r < 0 && (e == EAGAIN || e == EWOULDBLOCK)) g_again[fd][dir]++; errno = e; }
static int idle_wait(const std::function<int()>& real, size_t max);
template <class F> static ssize_t on_read(int fd, size_t n, F real) {
    ssize_t x; if (failing("read", fd, 0, x)) return x;
    if (phantom(fd, 0)) return -1;
    if (n > 1 && g_short.count(fd) && g_R.chance(1, 2)) n = 1 + g_R(n < 9 ? n : g_R.chance(1, 2) ? 9 : n);
    ssize_t r = real(n); acted(fd, 0, r); return r;
}
template <class F> static ssize_t on_write(int fd, size_t n, F real) {
    ssize_t x; if (failing("write", fd, 1, x)) return x;
    if (phantom(fd, 1)) return -1;
    if (n > 1 && g_short.count(fd) && g_R.chance(1, 3)) n = 1 + g_R(n);
    ssize_t r = real(n); acted(fd, 1, r); return r;
}
template <class F> static int on_accept(int fd, F real) { ssize_t x; if (failing("accept", fd, 0, x)) return (int)x; if (phantom(fd, 0)) return -1; int r = real(); acted(fd, 0, r); return r; }
#include "sysalias.h"
extern "C" {
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __real_poll(struct pollfd*, nfds_t, int);
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f) { ssize_t x; if (failing("recvmsg", fd, 0, x)) return x; if (phantom(fd, 0)) return -1; ssize_t r = __real_recvmsg(fd, m, f); acted(fd, 0, r); return r; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f) { ssize_t x; if (failing("sendmsg", fd, 1, x)) return x; if (phantom(fd, 1)) return -1; ssize_t r = __real_sendmsg(fd, m, f); acted(fd, 1, r); return r; }
int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) {
    if (g_ctl.fd == fd) { ++g_ctl.hits; g_ctl.fd = -1; errno = g_ctl.err; return -1; }
    return __real_epoll_ctl(ep, op, fd, e);
}
int __real_fcntl(int, int, void*);
int __wrap_fcntl(int fd, int cmd, void* x) { if (g_fcntl.fd == fd && g_fcntl.cmd == cmd) { ++g_fcntl.hits; errno = g_fcntl.err; return -1; } return __real_fcntl(fd, cmd, x); }
int __real_epoll_create1(int);
int __wrap_epoll_create1(int f) { if (g_no_descriptors) { errno = EMFILE; return -1; } return __real_epoll_create1(f); }
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_pwait(int ep, struct epoll_event* ev, int n, int, const sigset_t*) { return idle_wait([&] { return __real_epoll_wait(ep, ev, n, 0); }, (size_t)n); }
int __wrap_ppoll(struct pollfd* p, nfds_t n, const struct timespec*, const sigset_t*) { return idle_wait([&] { return __real_poll(p, n, 0); }, (size_t)-1); }
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int n, int) { return idle_wait([&] { return __real_epoll_wait(ep, ev, n, 0); }, (size_t)n); }
int __wrap_poll(struct pollfd* p, nfds_t n, int) { return idle_wait([&] { return __real_poll(p, n, 0); }, (size_t)-1); }
}
#ifdef MON_POLL
static const bool POLL = true;
#else
static const bool POLL = false;
#endif

enum { INTR = 0x7711 };
struct Conn;
/* one descriptor handled by fibers */
struct Side {
    Conn* conn = nullptr; int fd = -1; psock* ps = nullptr; int refs = 0;
    bool shut_after_write = false;
};
/* one direction of a connection */
struct Stream {
    std::vector<Val> vals; std::string bytes;   /* everything that will be sent, if nothing goes wrong */
    size_t started = 0;                         /* bytes of the values whose write has begun */
    size_t done = 0;                            /* bytes of the values whose write returned success */
    bool writer_failed = false, writer_done = false;
    size_t got = 0;                             /* bytes seen by the reader */
    bool ended = false;                         /* no more will be sent */
};
/* the other end of a connection, outside the process: played by the environment */
struct Peer {
    int fd = -1; Conn* conn = nullptr;
    Stream* tx = nullptr; Stream* rx = nullptr;
    size_t sent = 0, cut = (size_t)-1, quit_rx = (size_t)-1;
    bool tx_done = false, rx_done = false, rst = false, linger = false, trickle = false;
    int half = 0;
};
struct Conn {
    int id; bool tcp = false, dgram = false;
    Stream s[2];                    /* [0]: towards the fibers' side (or side 0), [1]: away */
    Side side[2]; std::unique_ptr<Peer> peer;
};
struct Fib {
    int id; World* w; Fiber* f = nullptr; std::function<void(Fib*)> body; bool done = false, added = false;
    /* what it is waiting for */
    int fd = -1, dir = 0; bool waiting = false, interrupted = false, compute = false, tcp = false;
    int policy = 0; unsigned handled = 0; int sent = -1; const Uuid* sent_id = &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE; void* sent_p = nullptr;    /* what it was sent while waiting */ const char* what = "";
    std::unique_ptr<Alloc> A;
};
struct Seen { Fib* f; int fd, dir; uint64_t act; bool ready; uint64_t intr; };

struct World {
    Rng R; Alloc A; Sched* s = nullptr; Fiber* mainf = nullptr;
    std::vector<std::unique_ptr<Fib>> fibs;
    std::vector<std::unique_ptr<Conn>> conns;
    std::vector<std::unique_ptr<Peer>> extra_peers;
    std::vector<int> close_later;
    std::vector<Seen> prev;
    std::function<bool()> extra_env;            /* scenario's own environment step; true: did something */
    int alive = 0, eintr = 0; bool stalled = false; uint64_t idles = 0; bool may_interrupt = false;
    std::vector<Peer*> peers;
    Fib* current = nullptr;
    explicit World(uint64_t seed) : R(seed) { W = this; g_act.clear(); g_again.clear(); g_short.clear(); g_phantom.clear(); g_fail = {}; g_ctl = {}; g_R = Rng(R.next()); mmap_slack = 1 << 18; }
    ~World() { W = nullptr; g_short.clear(); g_phantom.clear(); g_fail = {}; g_ctl = {}; mmap_slack = 0; }

    void start() {
        OK(RCPR_SYM(fiber_scheduler_create_with_disciplines)(&s, A), "scheduler_create");
        OK(RCPR_SYM(disciplined_fiber_scheduler_main_fiber_get)(&mainf, s), "main_fiber");
    }
    /* ------------------------------------------------ fibers */
    static status entry(void* x) {
        Fib* f = (Fib*)x;
        f->body(f);
        f->done = true; --f->w->alive;
        return STATUS_SUCCESS;
    }
    static status unexpected(void* ctx, Fiber* fb, const Uuid* id, int ev, void* param, const Uuid* eid, int eev) {
        Fib* f = (Fib*)ctx;
        SEM(fb == f->f, "handler_fiber", "the unexpected event handler of fiber %d was called for another fiber", f->id);
        SEM(f->interrupted, "handler_unasked", "fiber %d was told of an unexpected event nobody sent (event %d)", f->id, ev);
        SEM(!memcmp(id, f->sent_id, sizeof(Uuid)), "handler_discipline", "the unexpected event has another discipline");
        SEM(!memcmp(eid, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE, sizeof(Uuid)), "handler_expected", "the event expected has another discipline");
        SEM(ev == f->sent && param == f->sent_p, "handler_event", "fiber %d was sent request %d, its handler was told of event %d with parameter %p", f->id, f->sent, ev, param);
        SEM(f->dir < 0 || eev == (f->dir ? FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE : FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ), "handler_expected", "fiber %d waits to %s, its handler was told event %d was expected", f->id, f->dir ? "write" : "read", eev);
        f->interrupted = false; ++f->handled; count("interruptions_handled");
        return f->policy ? (status)INTR : STATUS_SUCCESS;
    }
    Fib* make(std::function<void(Fib*)> body, size_t stack = 0) {
        auto p = std::make_unique<Fib>(); Fib* f = p.get();
        f->id = (int)fibs.size(); f->w = this; f->body = body; f->A = std::make_unique<Alloc>();
        OK(RCPR_SYM(fiber_create)(&f->f, A, s, stack ? stack : 16384 << R(3), f, &entry), "fiber_create");
        OK(RCPR_SYM(fiber_unexpected_event_callback_add)(f->f, &unexpected, f), "handler_add");
        fibs.push_back(std::move(p));
        return f;
    }
    void add(Fib* f) { f->added = true; ++alive; OK(RCPR_SYM(fiber_scheduler_add)(s, f->f), "add"); }
    psock* async(int fd, Fiber* f) {
        psock *d, *r;
        OK(psock_create_from_descriptor(&d, A, fd), "create_from_descriptor");
        auto kind = psock_socket_type(d);
        OK(psock_create_wrap_async(&r, A, f, d), "create_wrap_async");
        SEM(psock_socket_type(r) == kind, "async_type", "an asynchronous socket reports kind %d, the socket it wraps %d", (int)psock_socket_type(r), (int)kind);
        return r;
    }
    /* run one blocking operation of a fiber */
    template <class Fn> status op(Fib* f, int fd, int dir, const char* what, Fn fn) {
        f->fd = fd; f->dir = dir; f->waiting = true; f->what = what; unsigned h0 = f->handled;
        status rc = fn();
        f->waiting = false;
        if (f->policy == 1 && f->handled > h0) {
            SEM(rc == INTR, "interrupt_swallowed", "fiber %d's handler refused to go on with %s, which then returned 0x%x", f->id, what, rc);
            SEM(f->handled == h0 + 1, "interrupt_repeated", "fiber %d's handler refused to go on with %s and was called %u times", f->id, what, f->handled - h0);
        }
        return rc;
    }
    void drop(Side* sd) {
        if (--sd->refs == 0) { OK(resource_release(psock_resource_handle(sd->ps)), "psock_release"); sd->ps = nullptr; sd->fd = -1; }
    }
    /* ------------------------------------------------ environment */
    bool peer_step(Peer* p) {
        if (p->fd < 0) return false;
        bool can_tx = p->tx && !p->tx_done, can_rx = p->rx && !p->rx_done;
        if (can_tx && can_rx) { bool t = R.chance(1, 2); return peer_half(p, t, !t) || (p->fd >= 0 && peer_half(p, !t, t)); }
        return peer_half(p, can_tx, can_rx);
    }
    bool peer_half(Peer* p, bool can_tx, bool can_rx) {
        bool did = false;
        if (can_tx) {
            size_t end = std::min(p->cut, p->tx->bytes.size());
            if (p->sent < end) {
                size_t left = end - p->sent, n = p->trickle && left > 3 ? 1 + R(3) : R.chance(1, 3) ? left : 1 + R(R.chance(1, 2) ? std::min<size_t>(left, 12) : left);
                ssize_t r = __real_send(p->fd, p->tx->bytes.data() + p->sent, n, MSG_DONTWAIT | MSG_NOSIGNAL);
                if (r > 0) { p->sent += (size_t)r; did = true; count("peer_bytes_sent", (uint64_t)r); }
                else if (r < 0 && errno != EAGAIN) { p->tx_done = true; did = true; }
            } else if (!p->linger || R.chance(1, 4)) {
                p->tx_done = true; did = true; p->tx->ended = true;
                if (p->rst && p->conn && p->conn->tcp) { struct linger l = {1, 0}; setsockopt(p->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); quit(p); return true; }
                if (p->rx_done) quit(p); else shutdown(p->fd, SHUT_WR);
            } else did = true;
        } else if (can_rx) {
            if (p->rx->got >= p->quit_rx) {
                p->rx_done = true;
                if (p->conn && !p->conn->tcp && R.chance(1, 3)) { shutdown(p->fd, SHUT_RDWR); close_later.push_back(p->fd); p->fd = -1; p->tx_done = true; if (p->tx) p->tx->ended = true; count("peer_shutdowns"); return true; }   /* what it received stays unread */
                quit(p); return true;
            }
            char b[8192]; size_t n = R.chance(1, 2) ? sizeof b : 1 + R(700);
            ssize_t r = __real_recv(p->fd, b, n, MSG_DONTWAIT);
            if (r > 0) {
                SEM(p->rx->got + (size_t)r <= p->rx->started, "bytes_extra", "a peer received %zu bytes, only %zu were written", p->rx->got + (size_t)r, p->rx->started);
                SEM(!memcmp(b, p->rx->bytes.data() + p->rx->got, (size_t)r), "bytes_differ", "bytes %zu..%zu received by a peer differ from those written", p->rx->got, p->rx->got + (size_t)r);
                p->rx->got += (size_t)r; did = true; count("peer_bytes_received", (uint64_t)r);
            } else if (r == 0 || (r < 0 && errno != EAGAIN)) {
                if (r == 0 && !p->rx->writer_failed) SEM(p->rx->got == p->rx->done, "bytes_lost", "a peer received %zu bytes before the end, %zu were written", p->rx->got, p->rx->done);
                p->rx_done = true; did = true;
                if (!p->tx || p->tx_done) quit(p);
            }
        } else { quit(p); return true; }
        return did;
    }
    void quit(Peer* p) { close(p->fd); p->fd = -1; p->tx_done = p->rx_done = true; if (p->tx) p->tx->ended = true; }
    bool env() {
        bool did = false;
        for (int i = 0, n = (int)R.range(1, 4); i < n; ++i) {
            if (extra_env && R.chance(1, 3)) did |= extra_env();
            if (!peers.empty()) did |= peer_step(peers[R(peers.size())]);
        }
        if (did) return true;
        size_t o = R(peers.size() + 1);
        for (size_t i = 0; i < peers.size(); ++i) if (peer_step(peers[(i + o) % peers.size()])) return true;
        return extra_env && extra_env();
    }
    static bool ready(int fd, int dir) {
        struct pollfd p = {fd, (short)(dir ? POLLOUT : POLLIN), 0};
        return __real_poll(&p, 1, 0) > 0 && (p.revents & (p.events | POLLHUP | POLLERR));
    }
    int idle(const std::function<int()>& real, size_t max) {
        int e0 = errno;
        ++idles;
        for (auto& o : prev) {
            uint64_t now = g_act[o.fd][o.dir];
            if (o.ready) SEM(now != o.act, "not_resumed", "fiber %d waits in %s of descriptor %d, which was reported ready, and was not resumed", o.f->id, o.f->what, o.fd);
            else if (!o.f->tcp && o.intr == o.f->handled && !o.f->interrupted)
                SEM(now == o.act, "resumed_for_other", "fiber %d was resumed from %s of descriptor %d, which was not ready", o.f->id, o.f->what, o.fd);
        }
        prev.clear();
        for (auto& f : fibs) if (f->compute && f->added) SEM(f->done, "starved", "a runnable fiber had not run when the scheduler went to wait for descriptors");
        if (eintr > 0 && R.chance(1, 5)) { --eintr; count("signals"); errno = EINTR; return -1; }
        for (int spins = 0;;) {
            bool did = R.chance(3, 4) ? env() : false;
            std::vector<Seen> now; std::set<int> rfds; bool tcp = false;
            for (auto& f : fibs) {
                if (!f->added || f->done || !f->waiting) continue;
                bool r = ready(f->fd, f->dir);
                now.push_back({f.get(), f->fd, f->dir, g_act[f->fd][f->dir], r, f->handled});
                if (r) rfds.insert(f->fd);
                tcp |= f->tcp;
            }
            int n = real();
            if (n < 0) { if (errno == EINTR) continue; fail("sem", "wait_fails", "waiting for descriptors failed with errno %d", errno); }
            if ((size_t)n < std::min<size_t>(rfds.size(), max)) {
                std::string who;
                for (auto& o : now) if (o.ready) who += " " + std::to_string(o.f->id) + ":" + o.f->what + ":" + std::to_string(o.fd);
                fail("sem", "not_watched", "%zu descriptors with a fiber waiting are ready, the scheduler's wait reports %d; ready waits (fiber:operation:descriptor):%s", rfds.size(), n, who.c_str());
            }
            if (n > 0) {
                count("idle_waits"); count("descriptors_ready", (uint64_t)n); maxof("ready_at_once", (uint64_t)n); maxof("waiting_at_once", now.size());
                if (rfds.size() <= max) prev = now;
                errno = e0; return n;
            }
            if (did || env()) { spins = 0; continue; }
            if (tcp && spins++ < 60) { __real_poll(nullptr, 0, 50); continue; }
            std::string who;
            for (auto& o : now) who += " " + std::to_string(o.f->id) + ":" + o.f->what + ":" + std::to_string(o.fd);
            for (auto& f : fibs) if (f->added && !f->done && !f->waiting) who += " " + std::to_string(f->id) + ":?";
            fail("sem", "stalled", "everything was sent and every stream ended, yet fibers still wait (fiber:operation:descriptor):%s", who.c_str());
        }
    }
    /* main waits until every fiber has finished */
    void join() {
        while (alive > 0) {
            const Uuid* id; int ev; void* p;
            OK(RCPR_SYM(disciplined_fiber_scheduler_receive_management_event)(s, &id, &ev, &p), "mgmt_event");
        }
    }
    void finish(const std::map<int, std::string>& f0, bool scheduler_first) {
        auto psocks = [&] {
            for (auto& c : conns) for (auto& sd : c->side) if (sd.ps) { OK(resource_release(psock_resource_handle(sd.ps)), "psock_release"); sd.ps = nullptr; }
        };
        if (!scheduler_first) psocks();
        OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s)), "scheduler_release");
        if (scheduler_first) psocks();
        for (auto* p : peers) if (p->fd >= 0) close(p->fd);
        for (int fd : close_later) close(fd);
        for (auto& f : fibs) f->A->expect_empty("values read");
        A.expect_empty("async sockets"); expect_fds(f0, "async sockets");
        SEM(mapped_count() == 0, "stacks_unmapped", "%zu stacks are still mapped", mapped_count());
        count("idle_points", idles);
    }
    /* ------------------------------------------------ stream programs */
    void fill(Stream& st, size_t n, size_t maxlen) {
        for (size_t i = 0; i < n; ++i) { st.vals.push_back(pv::make(R, maxlen)); st.bytes += pv::encode(st.vals.back()); }
    }
    /* write a stream's values; returns false if a write failed */
    bool write_all(Fib* f, Stream& st, psock* ps, int fd, const std::function<bool()>& may_fail) {
        psock* to = ps; psock_br* br = nullptr;
        if (R.chance(1, 6)) { OK(psock_br_create_from_psock(&br, A, ps), "br_create"); to = psock_br_psock_adapter(br); }
        bool ok = true;
        for (auto& v : st.vals) {
            size_t len = pv::encode(v).size();
            if (R.chance(1, 6)) {
                status rc = op(f, fd, 1, "write_block", [&] { return psock_write_block(ps); });
                if (rc == STATUS_SUCCESS) SEM(ready(fd, 1), "block_early", "fiber %d was told that descriptor %d has room; it has not", f->id, fd);
                else SEM(rc == INTR && f->handled, "write_block", "waiting for room failed 0x%x", rc);
                g_act[fd][1]++; count("write_blocks");
            }
            st.started += len;
            status rc = op(f, fd, 1, pv::kname(v.k), [&] { return pv::write(to, v); });
            if (rc != STATUS_SUCCESS) {
                st.writer_failed = true; ok = false;
                SEM(may_fail() || (rc == INTR && f->handled), "write_fails", "fiber %d: writing a %s of %zu bytes failed 0x%x", f->id, pv::kname(v.k), v.s.size(), rc);
                count("writes_ended_early"); break;
            }
            st.done += len; count("values_written");
            if (R.chance(1, 8)) yield(f);
        }
        if (br) OK(resource_release(psock_br_resource_handle(br)), "br_release");
        st.writer_done = true;
        return ok;
    }
    /* read a stream's values, as far as they come */
    bool read_all(Fib* f, Stream& st, psock* ps, int fd, const std::function<size_t()>& limit, bool close_end) {
        psock* from = ps; psock_br* br = nullptr; bool ok = true;
        int mode = (int)R(4);       /* 0, 1: values; 2: buffered; 3: raw bytes */
        if (mode == 2) { OK(psock_br_create_from_psock(&br, A, ps), "br_create"); from = psock_br_psock_adapter(br); }
        log("read mode %d", mode);
        if (mode == 3) {
            std::string all;
            for (;;) {
                if (!close_end && all.size() >= st.bytes.size()) break;
                size_t want = 1 + R(R.chance(1, 2) ? 20 : 9000), sz = want;
                if (!close_end) want = sz = std::min(want, st.bytes.size() - all.size());
                std::string b(want, (char)0x5e);
                status rc = psock_read_raw(ps, &b[0], &sz);
                if (rc == ERROR_PSOCK_READ_WOULD_BLOCK) {
                    SEM(b == std::string(want, (char)0x5e), "raw_touched", "a read that would block changed the caller's buffer");
                    rc = op(f, fd, 0, "read_block", [&] { return psock_read_block(ps); });
                    if (rc == INTR && f->handled) continue;
                    SEM(rc == STATUS_SUCCESS, "read_block", "waiting for data failed 0x%x", rc);
                    SEM(ready(fd, 0), "block_early", "fiber %d was told that descriptor %d has something to read; it has not", f->id, fd);
                    continue;
                }
                if (rc != STATUS_SUCCESS || sz == 0) {
                    SEM(all.size() >= limit(), "read_end_early", "fiber %d: reading ended (0x%x) after %zu bytes, %zu were sent", f->id, rc, all.size(), limit());
                    break;
                }
                SEM(sz <= want && all.size() + sz <= st.bytes.size(), "raw_size", "a raw read of %zu gave %zu bytes, %zu are left", want, sz, st.bytes.size() - all.size());
                SEM(!memcmp(b.data(), st.bytes.data() + all.size(), sz), "raw_bytes", "bytes read at offset %zu of a stream differ from those sent", all.size());
                all.append(b, 0, sz); st.got = all.size(); count("raw_reads");
                if (R.chance(1, 8)) yield(f);
            }
        } else {
            size_t at = 0;
            for (auto& v : st.vals) {
                Val got; got.k = v.k; got.u = 0;
                status rc = op(f, fd, 0, pv::kname(v.k), [&] { return pv::read(from, *f->A, R, got, v.s.size()); });
                size_t len = pv::encode(v).size();
                if (rc != STATUS_SUCCESS) {
                    if (rc == INTR && f->handled) { ok = false; break; }
                    SEM(at + len > limit(), "read_fails", "fiber %d: reading a %s of %zu bytes at offset %zu of a stream failed 0x%x, %zu bytes were sent", f->id, pv::kname(v.k), v.s.size(), at, rc, limit());
                    ok = false; count("reads_of_cut_streams"); break;
                }
                pv::same(v, got, "async stream");
                at += len; st.got = at; count("values_read");
                if (R.chance(1, 8)) yield(f);
            }
            if (ok && close_end && R.chance(1, 2)) {
                Val got; got.k = (int)R(pv::KINDS); got.u = 0;
                status rc = op(f, fd, 0, "end", [&] { return pv::read(from, *f->A, R, got, R.range(1, 50)); });
                SEM(rc != STATUS_SUCCESS, "read_past_end", "a %s was read after the end of a stream", pv::kname(got.k));
                count("ends_reported");
            }
        }
        if (br) OK(resource_release(psock_br_resource_handle(br)), "br_release");
        return ok;
    }
    /* let the others run */
    RCPR_SYM(fiber_scheduler_discipline)* yd = nullptr; Uuid yid;
    static status requeue(void* ctx, Fiber* fb, int, void* p) {
        World* w = (World*)ctx;
        return RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(w->s, fb, &w->yid, 4242, p);
    }
    static status kick_cb(void* ctx, Fiber* fb, int, void* p) {     /* resume a waiting fiber with an event of our own, then go on */
        World* w = (World*)ctx; Fib* x = (Fib*)p;
        status rc = RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(w->s, x->f, &w->yid, x->sent, x->sent_p);
        if (rc != STATUS_SUCCESS) return rc;
        return RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(w->s, fb, &w->yid, 4243, p);
    }
    status kick(Fib* x) {
        const Uuid* id; int ev; void* p;
        x->sent = (int)R.range(0, 3); x->sent_id = &yid; x->sent_p = (void*)(uintptr_t)R.range(1, 1u << 30);
        status rc = RCPR_SYM(fiber_discipline_yield)(yd, 1, x, &id, &ev, &p);
        if (rc == STATUS_SUCCESS) SEM(!memcmp(id, &yid, sizeof yid) && ev == 4243 && p == x, "yield_event", "a fiber yielded and was resumed with another event (%d)", ev);
        return rc;
    }
    void yields() {
        for (auto& b : yid.data) b = (uint8_t)R.next();
        if (R.chance(1, 2)) { yid = FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE; yid.data[R(16)] ^= (uint8_t)(1 + R(255)); }   /* nearly the identifier of the I/O discipline */
        RCPR_SYM(fiber_scheduler_discipline_callback_fn) cb[2] = {&requeue, &kick_cb};
        OK(RCPR_SYM(fiber_scheduler_discipline_create)(&yd, &yid, A, this, 2, cb), "discipline_create");
        OK(RCPR_SYM(fiber_scheduler_discipline_add)(s, yd), "discipline_add");
    }
    void yield(Fib* f) {
        if (!yd) return;
        const Uuid* id; int ev; void* p;
        OK(RCPR_SYM(fiber_discipline_yield)(yd, 0, f, &id, &ev, &p), "yield");
        SEM(!memcmp(id, &yid, sizeof yid) && ev == 4242 && p == f, "yield_event", "fiber %d yielded and was resumed with another event (%d)", f->id, ev);
    }
};
static int idle_wait(const std::function<int()>& real, size_t max) { if (!W) return real(); return W->idle(real, max); }

/* ------------------------------------------------------- helpers */
static void small_buffers(Rng& R, int fd) {
    /* a multiple of 128: otherwise the kernel can take room of exactly the last byte for no room when it decides whom to
       wake, and for room when asked (unix_write_space runs before the last byte is given back) */
    int sz = 128 * (int)(R.chance(1, 2) ? R.range(1, 47) : R.range(47, 470));
    setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    if (R.chance(1, 2)) { sz = (int)R.range(1, 60000); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
}
static int tcp_listener(struct sockaddr_in* a) {
    int l = socket(AF_INET, SOCK_STREAM, 0); memset(a, 0, sizeof *a);
    a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof *a;
    if (l < 0 || bind(l, (struct sockaddr*)a, n) || listen(l, 16) || getsockname(l, (struct sockaddr*)a, &n)) { if (l >= 0) close(l); return -1; }   /* the ports are used up */
    return l;
}
static void stream_pair(Rng& R, bool& tcp, int v[2]) {
    struct sockaddr_in a; int l = tcp ? tcp_listener(&a) : -1;
    if (l < 0) { tcp = false; if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) inconclusive("socketpair"); }
    else {
        v[0] = socket(AF_INET, SOCK_STREAM, 0);
        if (v[0] < 0 || connect(v[0], (struct sockaddr*)&a, sizeof a)) { close(l); if (v[0] >= 0) close(v[0]); tcp = false; stream_pair(R, tcp, v); return; }
        v[1] = __real_accept(l, nullptr, nullptr); close(l);
        int one = 1; for (int i = 0; i < 2; ++i) setsockopt(v[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    if (!tcp || R.chance(1, 2)) for (int i = 0; i < 2; ++i) if (R.chance(2, 3)) small_buffers(R, v[i]);
}
static void stream_pair(Rng& R, int v[2]) { bool t = false; stream_pair(R, t, v); }
/* read whatever still comes, so that the other side can finish */
static void drain(World& w, Fib* f, psock* ps, int fd) {
    char b[4096];
    for (;;) {
        size_t n = sizeof b; status rc = psock_read_raw(ps, b, &n);
        if (rc == ERROR_PSOCK_READ_WOULD_BLOCK) {
            rc = w.op(f, fd, 0, "drain", [&] { return psock_read_block(ps); });
            if (rc == STATUS_SUCCESS || (rc == INTR && f->handled)) continue;
            break;
        }
        if (rc != STATUS_SUCCESS || n == 0) break;
    }
}
/* one end of a connection: a reader fiber for in, a writer fiber for out (either may be missing), or one fiber for both */
static void serve(World& w, Conn* c, int k, Stream* in, Stream* out, const std::function<size_t()>& limit, const std::function<bool()>& may_fail, bool close_end) {
    Side* sd = &c->side[k]; Rng& R = w.R;
    bool both = in && out && R.chance(1, 3);
    World* W0 = &w;
    auto rd = [=](Fib* f) { if (!W0->read_all(f, *in, sd->ps, sd->fd, limit, close_end)) drain(*W0, f, sd->ps, sd->fd); };
    auto wr = [=](Fib* f) { W0->write_all(f, *out, sd->ps, sd->fd, may_fail); if (sd->fd >= 0) { out->ended = true; shutdown(sd->fd, SHUT_WR); } };
    std::vector<Fib*> fs;
    if (both) {
        bool rfirst = !c->peer ? k : R.chance(1, 2);        /* the two sides must not both write first */
        fs.push_back(w.make([=](Fib* f) { if (rfirst) { rd(f); wr(f); } else { wr(f); rd(f); } W0->drop(sd); }));
    } else {
        if (in) fs.push_back(w.make([=](Fib* f) { rd(f); W0->drop(sd); }));
        if (out) fs.push_back(w.make([=](Fib* f) { wr(f); W0->drop(sd); }));
    }
    if (fs.size() == 2 && R.chance(1, 2)) std::swap(fs[0], fs[1]);
    sd->conn = c; sd->refs = (int)fs.size();
    sd->ps = w.async(sd->fd, fs[0]->f);
    for (auto* f : fs) { f->tcp = c->tcp; f->policy = (int)R(2); if (fs.size() > 1) f->policy = -1; w.add(f); }
    if (R.chance(1, 3)) g_short.insert(sd->fd);
    if (R.chance(1, 4)) g_phantom[sd->fd] = (unsigned)R.range(1, 6);
}

static void streams(Ctx& c, bool interrupts) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next());
    w.start();
    if (w.R.chance(1, 2)) w.yields();
    w.eintr = w.R.chance(1, 3) ? (int)w.R.range(1, 6) : 0;
    size_t nc = w.R.range(1, 5);
    for (size_t i = 0; i < nc; ++i) {
        w.conns.push_back(std::make_unique<Conn>()); Conn* cn = w.conns.back().get(); cn->id = (int)i;
        cn->tcp = !interrupts && w.R.chance(1, 8);
        int v[2]; stream_pair(w.R, cn->tcp, v);
        bool lib = w.R.chance(1, 3);
        int dirs = (int)w.R.range(1, 3);
        size_t mx = w.R.chance(1, 3) ? 60000 : 600;
        if (dirs & 1) w.fill(cn->s[0], w.R.range(1, 12), mx);
        bool trickle = !lib && (dirs & 1) && mx == 600 && w.R.chance(1, 5);      /* the peer sends a few bytes at a time, and one long value */
        if (trickle) { Val v; v.k = pv::DATA; v.u = 0; v.s.resize(w.R.range(100, 900)); for (auto& ch : v.s) ch = (char)w.R.next(); cn->s[0].bytes += pv::encode(v); cn->s[0].vals.push_back(v); count("trickling_peers"); }
        if (dirs & 2) w.fill(cn->s[1], w.R.range(1, 12), mx);
        log("conn %zu tcp=%d lib=%d dirs=%d %zu/%zu bytes %llx", i, cn->tcp, lib, dirs, cn->s[0].bytes.size(), cn->s[1].bytes.size(),
            (unsigned long long)std::hash<std::string>()(cn->s[0].bytes + cn->s[1].bytes));
        cn->side[0].fd = v[0];
        if (lib) {
            cn->side[1].fd = v[1];
            bool end0 = true;
            serve(w, cn, 0, dirs & 1 ? &cn->s[0] : nullptr, dirs & 2 ? &cn->s[1] : nullptr, [cn] { return cn->s[0].done; }, [] { return false; }, end0);
            serve(w, cn, 1, dirs & 2 ? &cn->s[1] : nullptr, dirs & 1 ? &cn->s[0] : nullptr, [cn] { return cn->s[1].done; }, [] { return false; }, end0);
        } else {
            cn->peer = std::make_unique<Peer>(); Peer* p = cn->peer.get();
            p->fd = v[1]; p->conn = cn;
            if (dirs & 1) p->tx = &cn->s[0];
            if (dirs & 2) p->rx = &cn->s[1];
            if (p->tx && w.R.chance(1, 5)) p->cut = w.R(p->tx->bytes.size() + 1);
            if (p->rx && w.R.chance(1, 5)) p->quit_rx = w.R(p->rx->bytes.size() + 1);
            p->rst = w.R.chance(1, 4); p->linger = w.R.chance(1, 2);
            p->trickle = trickle;
            log("peer cut=%zd quit=%zd rst=%d", (ssize_t)p->cut, (ssize_t)p->quit_rx, p->rst);
            w.peers.push_back(p);
            serve(w, cn, 0, p->tx, p->rx, [p] { return p->conn->tcp && p->fd < 0 ? 0 : p->sent; }, [p] { return p->fd < 0; }, true);
        }
    }
    /* compute fibers: they must keep running */
    if (w.yd) for (size_t i = 0, n = w.R(4); i < n; ++i) {
        size_t steps = w.R.range(1, 20);
        Fib* f = w.make([&w, steps](Fib* f) { for (size_t k = 0; k < steps; ++k) w.yield(f); count("compute_fibers"); });
        f->compute = true; w.add(f);
    }
    int ctl[2] = {-1, -1};
    if (interrupts) {
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, ctl)) inconclusive("socketpair");
        size_t budget = w.R.range(1, 12);
        auto left = std::make_shared<size_t>(budget);
        auto open = std::make_shared<bool>(true);
        w.conns.push_back(std::make_unique<Conn>()); Side* sd = &w.conns.back()->side[0]; sd->fd = ctl[0]; sd->refs = 1;
        World* pw = &w; int cfd = ctl[1];
        Fib* f = w.make([pw, sd](Fib* f) {
            for (;;) {
                uint8_t b; status rc = pw->op(f, sd->fd, 0, "control", [&] { return psock_read_raw_uint8(sd->ps, &b); });
                if (rc != STATUS_SUCCESS) break;
                std::vector<Fib*> t;
                for (auto& o : pw->prev)
                    if (!o.ready && o.f != f && !o.f->tcp && !o.f->done && o.f->waiting && o.f->fd == o.fd && g_act[o.fd][o.dir] == o.act && !o.f->interrupted
                        && o.intr == o.f->handled && o.f->policy >= 0) t.push_back(o.f);
                if (t.empty()) continue;
                Fib* x = t[pw->R(t.size())];
                unsigned h = x->handled; x->interrupted = true;
                bool term = pw->R.chance(1, 2), own = pw->yd && pw->R.chance(1, 3);
                x->sent_id = &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE; x->sent_p = nullptr;
                x->sent = term ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST;
                log("interrupt fiber %d in %s", x->id, x->what);
                OK(own ? pw->kick(x) : term ? RCPR_SYM(disciplined_fiber_scheduler_send_terminate_request_to_fiber)(pw->s, x->f)
                        : RCPR_SYM(disciplined_fiber_scheduler_send_quiesce_request_to_fiber)(pw->s, x->f), "request");
                SEM(x->handled == h + 1, "interrupt_lost", "fiber %d waiting in %s was sent a request; its handler had not run when the requester continued", x->id, x->what);
            }
            pw->drop(sd);
        });
        sd->ps = w.async(ctl[0], f->f); w.add(f);
        w.extra_env = [left, open, cfd, pw] {
            if (!*open) return false;
            if (*left == 0 && (pw->alive <= 1 || pw->R.chance(1, 4))) { close(cfd); *open = false; return true; }
            if (*left) { --*left; char b = 1; if (__real_write(cfd, &b, 1) != 1) return false; return true; }
            return false;
        };
    }
    w.join();
    for (auto& cn : w.conns) for (int d = 0; d < 2; ++d) {
        Stream& st = cn->s[d];
        if (cn->side[1].fd == -1 && !cn->peer && !st.vals.empty()) SEM(st.writer_failed || st.done == st.bytes.size(), "unfinished", "a writer finished after %zu of %zu bytes", st.done, st.bytes.size());
    }
    w.finish(f0, w.R.chance(1, 2));
    nontrivial(mix(log_hash(), w.idles));
}
SCENARIO("C23 C19 C22 C01 C32 C35", async_streams, 10) { streams(c, false); }
SCENARIO("C23 C28 C01 C35", async_interrupted, 4) { if (POLL) return; streams(c, true); }

/* ------------------------------------------------------- a server accepting clients */
SCENARIO("C23 C25 C01 C32 C35", async_server, 5) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next());
    w.start();
    w.eintr = w.R.chance(1, 3) ? (int)w.R.range(1, 4) : 0;
    bool tcp = w.R.chance(1, 4);
    size_t clients = w.R.range(1, 8); log("clients=%zu tcp=%d", clients, tcp);
    struct sockaddr_storage sa; socklen_t sl; int l;
    l = tcp ? tcp_listener((struct sockaddr_in*)&sa) : -1; sl = sizeof(struct sockaddr_in);
    if (l < 0) {
        tcp = false;
        l = socket(AF_UNIX, SOCK_STREAM, 0);
        struct sockaddr_un* u = (struct sockaddr_un*)&sa; memset(u, 0, sizeof *u); u->sun_family = AF_UNIX;
        sl = sizeof(sa_family_t);               /* autobind to an abstract name */
        if (bind(l, (struct sockaddr*)u, sl) || listen(l, 16)) inconclusive("unix listener");
        sl = sizeof *u; getsockname(l, (struct sockaddr*)u, &sl);
    }
    for (size_t i = 0; i < clients; ++i) {
        w.conns.push_back(std::make_unique<Conn>()); Conn* cn = w.conns.back().get(); cn->id = (int)i; cn->tcp = tcp;
        w.fill(cn->s[0], w.R.range(1, 8), w.R.chance(1, 3) ? 20000 : 300);
        cn->s[1].vals = cn->s[0].vals; cn->s[1].bytes = cn->s[0].bytes;
        cn->peer = std::make_unique<Peer>(); cn->peer->conn = cn; cn->peer->tx = &cn->s[0]; cn->peer->rx = &cn->s[1]; cn->peer->linger = w.R.chance(1, 2);
    }
    auto next = std::make_shared<size_t>(0);
    World* pw = &w;
    w.extra_env = [=, &sa] {                    /* a client connects and names itself */
        if (*next >= pw->conns.size()) return false;
        Conn* cn = pw->conns[*next].get();
        int fd = socket(sa.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0);
        int r = connect(fd, (struct sockaddr*)&sa, sl);
        if (r < 0 && errno == EADDRNOTAVAIL) inconclusive("the ports are used up");
        if (r < 0 && errno != EINPROGRESS) { close(fd); return false; }
        if (r < 0) { struct pollfd p = {fd, POLLOUT, 0}; if (__real_poll(&p, 1, 5000) != 1) inconclusive("loopback connect"); }
        unsigned char id = (unsigned char)*next;
        if (__real_write(fd, &id, 1) != 1) inconclusive("client hello");
        if (pw->R.chance(1, 2)) small_buffers(pw->R, fd);
        cn->peer->fd = fd; pw->peers.push_back(cn->peer.get()); ++*next; count("clients");
        return true;
    };
    psock* lp = nullptr; std::set<int> seen; size_t accepted = 0;
    Fib* af = w.make([&, pw](Fib* f) {
        for (size_t i = 0; i < clients; ++i) {
            int d = -1; struct sockaddr_storage from; socklen_t fl = sizeof from;
            OK(pw->op(f, l, 0, "accept", [&] { return psock_accept(lp, &d, (struct sockaddr*)&from, &fl); }), "accept");
            SEM(fcntl(d, F_GETFD) >= 0, "accept_descriptor", "accept handed out descriptor %d, which is not open", d);
            struct sockaddr_storage is; socklen_t il = sizeof is;
            if (!getpeername(d, (struct sockaddr*)&is, &il))
                SEM(fl == il && !memcmp(&is, &from, il), "accept_who", "an asynchronous accept reports an address (length %u) which is not its peer's (length %u)", (unsigned)fl, (unsigned)il);
            ++accepted; count("accepted");
            auto slot = std::make_shared<Side>(); slot->fd = d;
            Fib* e = pw->make([=, &seen](Fib* g) {
                uint8_t who = 255;
                OK(pw->op(g, slot->fd, 0, "hello", [&] { return psock_read_raw_uint8(slot->ps, &who); }), "hello");
                SEM(who < pw->conns.size() && seen.insert(who).second, "client_twice", "client %u was accepted twice, or does not exist", who);
                Conn* cn = pw->conns[who].get();
                for (size_t k = 0; k < cn->s[0].vals.size(); ++k) {
                    const Val& v = cn->s[0].vals[k]; Val got; got.k = v.k; got.u = 0;
                    OK(pw->op(g, slot->fd, 0, pv::kname(v.k), [&] { return pv::read(slot->ps, *g->A, pw->R, got, v.s.size()); }), "server_read");
                    pv::same(v, got, "server");
                    cn->s[1].started += pv::encode(v).size();
                    OK(pw->op(g, slot->fd, 1, pv::kname(v.k), [&] { return pv::write(slot->ps, got); }), "server_write");
                    cn->s[1].done += pv::encode(v).size(); count("values_echoed");
                }
                pw->drop(slot.get());
            });
            e->tcp = tcp; slot->refs = 1; slot->ps = pw->async(d, e->f);
            if (pw->R.chance(1, 2)) g_short.insert(d);
            pw->add(e);
        }
        OK(resource_release(psock_resource_handle(lp)), "psock_release");
    });
    af->tcp = tcp;
    lp = w.async(l, af->f);
    if (w.R.chance(1, 3)) g_phantom[l] = (unsigned)w.R.range(1, 6);
    w.add(af);
    w.join();
    SEM(accepted == clients && seen.size() == clients, "clients_lost", "%zu of %zu clients were accepted", accepted, clients);
    for (auto& cn : w.conns) SEM(cn->s[1].done == cn->s[1].bytes.size(), "echo_incomplete", "client %d was sent %zu of %zu bytes", cn->id, cn->s[1].done, cn->s[1].bytes.size());
    /* what is still on its way to the clients */
    for (int i = 0; i < 20000; ++i) { bool more = false; for (auto* p : w.peers) if (p->fd >= 0 && !p->rx_done) { more = true; w.peer_step(p); } if (!more) break; if (tcp) __real_poll(nullptr, 0, 1); }
    w.finish(f0, false);
    nontrivial(mix(log_hash(), w.idles));
}

/* ------------------------------------------------------- descriptors passed between fibers */
SCENARIO("C23 C24 C01 C32 C35", async_descriptors, 3) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next());
    w.start();
    if (w.R.chance(1, 2)) w.yields();
    size_t pairs = w.R.range(1, 3);
    struct P { int v[2]; psock* s[2]; std::vector<ino_t> ino; std::vector<int> src; size_t got = 0; };
    std::vector<std::unique_ptr<P>> ps;
    World* pw = &w;
    for (size_t i = 0; i < pairs; ++i) {
        ps.push_back(std::make_unique<P>()); P* p = ps.back().get();
        if (socketpair(AF_UNIX, SOCK_DGRAM, 0, p->v)) inconclusive("socketpair");
        /* little room: a send then has to wait for the receiver */
        if (w.R.chance(1, 2)) { int b = 1; setsockopt(p->v[0], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
        size_t n = w.R.range(1, 30); log("pair %zu: %zu descriptors", i, n);
        for (size_t k = 0; k < n; ++k) { int fd = memfd_create("m", 0); struct stat st; if (fd < 0 || fstat(fd, &st)) inconclusive("memfd"); p->src.push_back(fd); p->ino.push_back(st.st_ino); }
        Fib* wr = w.make([=](Fib* f) {
            for (int fd : p->src) {
                OK(pw->op(f, p->v[0], 1, "sendmsg", [&] { return psock_write_raw_descriptor(p->s[0], fd); }), "write_descriptor");
                count("descriptors_sent");
                if (pw->R.chance(1, 6)) pw->yield(f);
            }
        });
        Fib* rd = w.make([=](Fib* f) {
            for (size_t k = 0; k < p->ino.size(); ++k) {
                int fd = -7;
                OK(pw->op(f, p->v[1], 0, "recvmsg", [&] { return psock_read_raw_descriptor(p->s[1], &fd); }), "read_descriptor");
                struct stat st; memset(&st, 0, sizeof st);
                SEM(fd >= 0 && fstat(fd, &st) == 0 && st.st_ino == p->ino[k], "wrong_descriptor", "descriptor %zu read (%d) is not the one sent", k, fd);
                close(fd); ++p->got; count("descriptors_received");
                if (pw->R.chance(1, 6)) pw->yield(f);
            }
        });
        for (int k = 0; k < 2; ++k) if (w.R.chance(1, 3)) g_phantom[p->v[k]] = (unsigned)w.R.range(1, 6);
        p->s[0] = w.async(p->v[0], wr->f); p->s[1] = w.async(p->v[1], rd->f);
        if (w.R.chance(1, 2)) { w.add(wr); w.add(rd); } else { w.add(rd); w.add(wr); }
    }
    w.join();
    for (auto& p : ps) count("descriptor_sends_waited", g_again[p->v[0]][1]);
    for (auto& p : ps) { SEM(p->got == p->ino.size(), "descriptors_lost", "%zu of %zu descriptors arrived", p->got, p->ino.size()); for (int i = 0; i < 2; ++i) OK(resource_release(psock_resource_handle(p->s[i])), "psock_release"); for (int fd : p->src) close(fd); }
    w.finish(f0, false);
    nontrivial(mix(log_hash(), w.idles));
}

/* ------------------------------------------------------- lines through a buffered reader */
SCENARIO("C23 C22 C01 C32 C35", async_lines, 3) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next()); World* pw = &w;
    w.start();
    w.eintr = w.R.chance(1, 3) ? (int)w.R.range(1, 4) : 0;
    size_t nc = w.R.range(1, 3);
    for (size_t i = 0; i < nc; ++i) {
        w.conns.push_back(std::make_unique<Conn>()); Conn* cn = w.conns.back().get();
        int v[2]; stream_pair(w.R, v);
        Stream& st = cn->s[0]; unsigned nl = (unsigned)w.R.range(1, 80); size_t total = w.R.chance(1, 5) ? w.R.range(16000, 40000) : w.R.size(900);
        while (st.bytes.size() < total) st.bytes.push_back(w.R.chance(1, nl) ? '\n' : (char)('a' + w.R(26)));
        cn->peer = std::make_unique<Peer>(); cn->peer->fd = v[1]; cn->peer->conn = cn; cn->peer->tx = &st; w.peers.push_back(cn->peer.get()); cn->peer->trickle = total <= 900 && w.R.chance(1, 3);
        Side* sd = &cn->side[0]; sd->fd = v[0]; sd->refs = 1;
        size_t B = w.R.chance(1, 3) ? w.R.range(2, 30) : 500;
        log("conn %zu: %zu bytes, buffer %zu %llx", i, total, B, (unsigned long long)std::hash<std::string>()(st.bytes));
        const std::string* b = &st.bytes;
        Fib* f = w.make([=](Fib* f) {
            psock_br* br; OK(psock_br_create_from_psock(&br, pw->A, sd->ps), "br_create");
            size_t p = 0;
            for (;;) {
                size_t sz = B, cap = B - 1; std::string buf(B, '~');
                status rc = pw->op(f, sd->fd, 0, "line", [&] { return psock_br_read_line(&buf[0], &sz, br); });
                size_t k = b->find('\n', p); bool line = k != std::string::npos; size_t len = (line ? k : b->size()) - p;
                if (rc == STATUS_SUCCESS) {
                    SEM(line || len > 0, "line_invented", "a line of %zu bytes was read at the end of the stream", sz);
                    SEM(len <= cap && sz == len + 1, "line_size", "a line of %zu bytes is reported with size %zu in a buffer of %zu", len, sz, B);
                    SEM(!memcmp(buf.data(), b->data() + p, len) && buf[len] == 0, "line_bytes", "the line at offset %zu differs from the stream", p);
                    p += len + (line ? 1 : 0); count("lines");
                } else if (rc == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) {
                    SEM(len >= cap, "line_truncated", "a line of %zu bytes was reported truncated in a buffer of %zu", len, B);
                    SEM(!memcmp(buf.data(), b->data() + p, cap) && buf[cap] == 0, "trunc_bytes", "the piece of a line at offset %zu differs from the stream", p);
                    p += cap; count("line_pieces");
                } else { SEM(p == b->size(), "line_fails", "a line read at offset %zu of %zu failed 0x%x", p, b->size(), rc); break; }
            }
            OK(resource_release(psock_br_resource_handle(br)), "br_release");
            pw->drop(sd);
        });
        sd->ps = w.async(v[0], f->f); w.add(f);
        if (w.R.chance(1, 2)) g_short.insert(v[0]);
    }
    w.join();
    w.finish(f0, w.R.chance(1, 2));
    nontrivial(mix(log_hash(), w.idles));
}

/* ------------------------------------------------------- fibers sharing a socket */
SCENARIO("C23 C01 C35", async_shared, 3) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next()); World* pw = &w;
    w.start(); w.yields();
    int v[2]; stream_pair(w.R, v);
    w.conns.push_back(std::make_unique<Conn>()); Conn* cn = w.conns.back().get(); Side* sd = &cn->side[0]; sd->fd = v[0];
    cn->peer = std::make_unique<Peer>(); Peer* p = cn->peer.get(); p->fd = v[1]; p->conn = cn; w.peers.push_back(p);
    bool writers = w.R.chance(1, 3);
    size_t n = w.R.range(2, 4), total = w.R.range(1, writers ? 6000 : 200);
    log("n=%zu total=%zu writers=%d", n, total, writers);
    if (!writers) for (size_t i = 0; i < total; ++i) cn->s[0].bytes.push_back((char)w.R.next());
    if (writers) p->rx = &cn->s[1]; else p->tx = &cn->s[0];
    if (writers) { int sz = 1; setsockopt(v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
    auto seen = std::make_shared<std::string>(); auto left = std::make_shared<size_t>(total); auto active = std::make_shared<size_t>(n);
    Stream* tx = &cn->s[1];
    /* a refused fiber waits on a socket of its own and tries again when woken there */
    struct Ctl { int v[2]; psock* ps = nullptr; };
    auto ctl = std::make_shared<std::vector<Ctl>>(n);
    bool again = !writers && w.R.chance(3, 4);
    if (again) w.extra_env = [=] {
        std::vector<size_t> open;
        for (size_t i = 0; i < n; ++i) if ((*ctl)[i].v[1] >= 0) open.push_back(i);
        if (open.empty()) return false;
        Ctl& k = (*ctl)[open[pw->R(open.size())]];
        if (p->tx_done && seen->size() >= total) { close(k.v[1]); k.v[1] = -1; return true; }
        int queued = 0; struct pollfd q = {k.v[0], POLLIN, 0}; queued = __real_poll(&q, 1, 0);
        if (queued) return false;
        char b = 0; return __real_write(k.v[1], &b, 1) == 1;
    };
    for (size_t i = 0; i < n; ++i) {
        if (again) stream_pair(w.R, (*ctl)[i].v);
        Fib* f = w.make([=](Fib* f) {
            for (;;) {
                if (writers) {
                    if (!*left) break;
                    uint8_t b = (uint8_t)*left; --*left;
                    /* the peer may see the byte before the call returns */
                    tx->bytes.push_back((char)b); size_t at = tx->bytes.size(); ++tx->started;
                    status rc = psock_write_raw_uint8(sd->ps, b);
                    if (rc == ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) {
                        SEM(at <= tx->bytes.size(), "x", "x");
                        tx->bytes.erase(at - 1, 1); --tx->started; ++*left; count("double_blocks"); break;
                    }
                    SEM(rc == STATUS_SUCCESS, "shared_write", "a write to a shared socket failed 0x%x", rc);
                    ++tx->done;
                } else {
                    char b[16]; size_t sz = 1 + pw->R(sizeof b);
                    status rc = psock_read_raw(sd->ps, b, &sz);
                    if (rc == ERROR_PSOCK_READ_WOULD_BLOCK) {
                        rc = psock_read_block(sd->ps);
                        if (rc == ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED) {
                            count("double_blocks");
                            uint8_t b8;
                            if (!again || psock_read_raw_uint8((*ctl)[i].ps, &b8) != STATUS_SUCCESS) break;
                            continue;
                        }
                        SEM(rc == STATUS_SUCCESS, "shared_block", "waiting for a shared socket failed 0x%x", rc);
                    } else if (rc != STATUS_SUCCESS || sz == 0) break;
                    else seen->append(b, sz);
                }
                if (pw->R.chance(1, 2)) pw->yield(f);
            }
            if (--*active == 0 && writers) shutdown(sd->fd, SHUT_WR);
            if (again) OK(resource_release(psock_resource_handle((*ctl)[i].ps)), "psock_release");
            pw->drop(sd);
        });
        ++sd->refs;
        if (again) (*ctl)[i].ps = w.async((*ctl)[i].v[0], f->f);
        if (i == 0) sd->ps = w.async(v[0], f->f);
    }
    for (auto& f : w.fibs) w.add(f.get());
    w.join();
    if (again) for (auto& k : *ctl) if (k.v[1] >= 0) close(k.v[1]);
    if (!writers) SEM(*seen == cn->s[0].bytes, "shared_bytes", "fibers sharing a socket read %zu of %zu bytes, or others", seen->size(), total);
    w.finish(f0, w.R.chance(1, 2));
    nontrivial(mix(log_hash(), w.idles));
}

/* ------------------------------------------------------- more waits than one batch of events holds */
SCENARIO("C23 C01 C35", async_many, 1) {
    Rng& R = c.rng;
    if (c.n % (c.thorough ? 60 : 100) != 7) return;
    auto f0 = fds();
    World w(R.next()); World* pw = &w;
    w.start();
    size_t n = R.range(900, 1300), left = n; log("fibers=%zu", n);
    std::vector<int> far(n);
    struct S { int fd; psock* ps; };
    std::vector<S> near(n); std::vector<bool> wr(n);
    int mode = (int)R(3); log("mode %d", mode);           /* readers, writers, both */
    for (size_t i = 0; i < n; ++i) {
        int v[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) inconclusive("too few descriptors");
        far[i] = v[1]; wr[i] = mode == 1 || (mode == 2 && R.chance(1, 2));
        if (wr[i]) { int sz = 4608; setsockopt(v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); static char z[512]; while (__real_send(v[0], z, sizeof z, MSG_DONTWAIT) > 0) { } }
        Fib* f = w.make([&, i, pw](Fib* f) {
            if (wr[i]) {
                OK(pw->op(f, near[i].fd, 1, "number", [&] { return psock_write_raw_uint32(near[i].ps, (uint32_t)i); }), "write");
                uint32_t x = 0; ssize_t r = __real_recv(far[i], &x, 4, MSG_DONTWAIT);
                SEM(r == 4 && ntohl(x) == i, "wrong_number", "fiber %zu wrote %zu, %zd bytes arrived: %u", i, i, r, ntohl(x)); count("many_written");
                return;
            }
            uint32_t x = 0;
            OK(pw->op(f, near[i].fd, 0, "number", [&] { return psock_read_raw_uint32(near[i].ps, &x); }), "read");
            SEM(x == i, "wrong_number", "fiber %zu read the number sent to fiber %u", i, x);
            count("many_read");
        }, 16384);
        near[i] = {v[0], w.async(v[0], f->f)};
        w.add(f);
    }
    std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i;
    for (size_t i = n; i-- > 1;) std::swap(order[i], order[R(i + 1)]);
    bool all = R.chance(1, 2);
    w.extra_env = [&] {
        if (!left) return false;
        for (size_t k = all ? left : std::min<size_t>(left, 200); k-- > 0;) {
            uint32_t x = htonl((uint32_t)order[--left]);
            if (wr[order[left]]) { char z[4096]; while (__real_recv(far[order[left]], z, sizeof z, MSG_DONTWAIT) > 0) { } continue; }
            if (__real_write(far[order[left]], &x, 4) != 4) inconclusive("write"); }
        return true;
    };
    w.join();
    for (size_t i = 0; i < n; ++i) { OK(resource_release(psock_resource_handle(near[i].ps)), "psock_release"); close(far[i]); }
    w.finish(f0, false);
    nontrivial(mix(log_hash(), w.idles));
}

/* ------------------------------------------------------- creation without memory, mappings, descriptors */
SCENARIO("C02 C01 C35", async_oom, 4) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next()); World* pw = &w;
    w.start();
    int v[2]; stream_pair(w.R, v);
    w.conns.push_back(std::make_unique<Conn>()); Conn* cn = w.conns.back().get(); Side* sd = &cn->side[0]; sd->fd = v[0]; sd->refs = 1;
    w.fill(cn->s[0], 3, 100);
    cn->peer = std::make_unique<Peer>(); cn->peer->fd = v[1]; cn->peer->conn = cn; cn->peer->tx = &cn->s[0]; w.peers.push_back(cn->peer.get());
    Fib* f = w.make([=](Fib* f) { pw->read_all(f, cn->s[0], sd->ps, sd->fd, [=] { return cn->peer->sent; }, true); pw->drop(sd); });
    psock *d, *r;
    bool second = R.chance(1, 3);      /* the scheduler already has the I/O discipline */
    int e[2]; psock* other = nullptr;
    if (second) { stream_pair(w.R, e); other = w.async(e[0], f->f); }
    OK(psock_create_from_descriptor(&d, w.A, v[0]), "create_from_descriptor");
    bool had = second;
    for (int what = 0; what < 3; ++what) for (long k = 1; k < 60; ++k) {
        auto fd1 = fds(); size_t blocks = w.A.live.size(), maps = mapped_count();
        r = (psock*)&w;
        if (what == 0) w.A.arm((uint64_t)k, R.chance(1, 3));
        else if (what == 1) mmap_fail_at = mmap_calls + k;
        else if (k > 1) break;
        if (what == 2) g_no_descriptors = true;
        status rc = psock_create_wrap_async(&r, w.A, f->f, d);
        g_no_descriptors = false;
        uint64_t inj = w.A.injected; bool mfail = what == 1 && mmap_calls >= mmap_fail_at;
        w.A.disarm(); mmap_fail_at = 0;
        bool faulted = what == 0 ? inj > 0 : what == 1 ? mfail : true;
        if (rc == STATUS_SUCCESS) {
            SEM(!faulted || what == 2, "fault_ignored", "creating an async socket succeeded although allocation %ld failed", k);
            OK(resource_release(psock_resource_handle(r)), "psock_release");
            had = true;
            /* the wrapped socket went with it */
            close(v[1]); stream_pair(w.R, v); sd->fd = v[0]; cn->peer->fd = v[1];
            OK(psock_create_from_descriptor(&d, w.A, v[0]), "create_from_descriptor");
            break;
        }
        SEM(faulted, "create_fails", "creating an async socket failed 0x%x", rc);
        SEM(r == nullptr, "out_pointer", "a failed creation left the output pointer set");
        RCPR_SYM(fiber_scheduler_discipline)* disc = nullptr;
        bool present = RCPR_SYM(fiber_scheduler_discipline_find)(&disc, w.s, &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE) == STATUS_SUCCESS;
        count("faults_injected");
        if (present && !had) { had = true; continue; }      /* the scheduler keeps its I/O discipline; it must work (below) */
        SEM(w.A.live.size() == blocks, "fault_leak", "a failed creation of an async socket (allocation or mapping %ld) left %zd blocks more", k, (ssize_t)(w.A.live.size() - blocks));
        SEM(mapped_count() == maps, "fault_leak_map", "a failed creation of an async socket left %zd mappings more", (ssize_t)(mapped_count() - maps));
        expect_fds(fd1, "failed creation");
        if (R.chance(1, 8)) break;
    }
    OK(psock_create_wrap_async(&r, w.A, f->f, d), "retry");
    sd->ps = r; w.add(f);
    w.join();
    if (second) { OK(resource_release(psock_resource_handle(other)), "psock_release"); close(e[1]); }
    w.finish(f0, R.chance(1, 2));
    log("second=%d %llx", second, (unsigned long long)R.next());
    nontrivial(log_hash());
}

/* ------------------------------------------------------- a call that fails ends the wait */
SCENARIO("C23 C34 C01 C35", async_errors, 2) {
    Rng& R = c.rng; auto f0 = fds();
    World w(R.next()); World* pw = &w;
    w.start();
    static const char* calls[] = {"read", "write", "accept", "recvmsg", "sendmsg"};
    static const int E[] = {EIO, ECONNRESET, ETIMEDOUT, EBADF, ENOMEM, EPIPE, ECONNABORTED, ENOBUFS, EMFILE, EINVAL};
    size_t n = w.R.range(1, 6); 
    Fib* f = w.make([&, pw](Fib* f) {
        for (size_t i = 0; i < n; ++i) {
            int k = (int)pw->R(5), dir = k == 1 || k == 4;
            int v[2] = {-1, -1}, m = -1, cl = -1; std::string bytes; Val val; psock* s;
            if (k == 2) {
                v[0] = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; socklen_t l = sizeof(sa_family_t);
                if (bind(v[0], (struct sockaddr*)&u, l) || listen(v[0], 4)) inconclusive("unix listener");
                l = sizeof u; getsockname(v[0], (struct sockaddr*)&u, &l);
                cl = socket(AF_UNIX, SOCK_STREAM, 0); if (connect(cl, (struct sockaddr*)&u, l)) inconclusive("connect");
            } else if (socketpair(AF_UNIX, k < 2 ? SOCK_STREAM : SOCK_DGRAM, 0, v)) inconclusive("socketpair");
            do val = pv::make(pw->R, 300); while (pv::encode(val).empty());
            bytes = pv::encode(val);
            if (k == 0 && __real_write(v[1], bytes.data(), bytes.size()) != (ssize_t)bytes.size()) inconclusive("write");
            if (k >= 3) {
                m = memfd_create("m", 0);
                if (k == 3) {
                    psock* t; OK(psock_create_from_descriptor(&t, *f->A, v[1]), "create"); OK(psock_write_raw_descriptor(t, m), "prepare");
                    OK(psock_write_raw_descriptor(t, m), "prepare"); v[1] = -1; OK(resource_release(psock_resource_handle(t)), "release");
                }
            }
            s = pw->async(v[0], f->f);
            auto act = [&](status& rc) {
                int d = -7; Val got; got.k = val.k; got.u = 0; struct sockaddr_storage a; socklen_t l = sizeof a;
                rc = pw->op(f, v[0], dir, calls[k], [&]() -> status {
                    switch (k) {
                    case 0: return pv::read(s, *f->A, pw->R, got, val.s.size());
                    case 1: return pv::write(s, val);
                    case 2: return psock_accept(s, &d, (struct sockaddr*)&a, &l);
                    case 3: return psock_read_raw_descriptor(s, &d);
                    default: return psock_write_raw_descriptor(s, m);
                    }
                });
                if (rc == STATUS_SUCCESS && k == 0) pv::same(val, got, "async");
                if ((k == 2 || k == 3)) { SEM((rc == STATUS_SUCCESS) == (d >= 0), "descriptor_out", "%s returned 0x%x and descriptor %d", calls[k], rc, d); if (d >= 0) close(d); }
            };
            status rc;
            if (!POLL && pw->R.chance(1, 3)) {      /* the call would block and waiting fails */
                static const int EC[] = {ENOSPC, ENOMEM, EPERM, EINVAL, EBADF, ELOOP};
                g_fail.fd = v[0]; g_fail.call = calls[k]; g_fail.skip = 1 + (int)pw->R(3); g_fail.err = EIO; g_fail.hits = 0;
                g_ctl.fd = v[0]; g_ctl.err = EC[pw->R(6)]; g_ctl.hits = 0;
                log("%s cannot wait %d", calls[k], g_ctl.err);
                act(rc);
                SEM(g_ctl.hits == 1 && !g_fail.hits, "wait_missing", "%s would block and returned 0x%x without waiting", calls[k], rc);
                SEM(rc != STATUS_SUCCESS, "error_lost", "%s succeeded although it could neither go on nor wait", calls[k]);
                g_fail = {}; g_ctl = {}; count("async_wait_failures");
            }
            int skip = (int)pw->R(4), err = k == 1 && pw->R.chance(1, 3) ? 0 : E[pw->R(10)];
            g_fail.fd = v[0]; g_fail.call = calls[k]; g_fail.skip = skip; g_fail.err = err; g_fail.hits = 0;
            log("%s skip %d err %d", calls[k], skip, err);
            act(rc);
            SEM(g_fail.hits >= 1, "call_missing", "%s returned 0x%x without having been tried", calls[k], rc);
            SEM(rc != STATUS_SUCCESS, "error_lost", "%s succeeded although the system refused (%s)", calls[k], err ? strerror(err) : "nothing was taken");
            SEM(rc != ERROR_PSOCK_READ_WOULD_BLOCK && rc != ERROR_PSOCK_WRITE_WOULD_BLOCK && rc != ERROR_PSOCK_ACCEPT_WOULD_BLOCK, "error_blocks", "%s reports would-block although the system refused (%s)", calls[k], err ? strerror(err) : "nothing was taken");
            g_fail = {}; count("async_call_failures");
            act(rc);                    /* nothing was consumed: the same call now works */
            SEM(rc == STATUS_SUCCESS, "not_usable", "%s failed 0x%x after a failure that had consumed nothing", calls[k], rc);
            if (k == 1) {
                std::string b(bytes.size() + 10, 0); ssize_t r = __real_read(v[1], &b[0], b.size());
                SEM(r == (ssize_t)bytes.size() && !b.compare(0, bytes.size(), bytes), "write_bytes", "%zd bytes arrived of %zu, or they differ", r, bytes.size());
            }
            OK(resource_release(psock_resource_handle(s)), "psock_release");
            for (int x : {v[1], m, cl}) if (x >= 0) close(x);
        }
    });
    w.add(f); w.join();
    w.finish(f0, false);
    nontrivial(mix(log_hash(), R.next()));
}

/* ------------------------------------------------------- what is refused */
static status nr_read(psock*, void*, void*, size_t*, bool) { return ERROR_PSOCK_READ_GENERAL; }
static status nr_write(psock*, void*, const void*, size_t*) { return ERROR_PSOCK_WRITE_GENERAL; }
RCPR_VTABLE psock_vtable async_user_vt = {{nullptr}, &nr_read, &nr_write, nullptr, nullptr, nullptr, nullptr, nullptr};
SCENARIO("C23 C01 C35", async_refused, 1) {
    auto f0 = fds();
    World w(c.rng.next());
    w.start();
    Fib* f = w.make([](Fib*) {});
    int v[2]; stream_pair(w.R, v);
    psock *m, *d, *r = (psock*)&w;
    OK(psock_create_from_buffer(&m, w.A, "abc", 3), "create_from_buffer");
    OK(psock_create_from_descriptor(&d, w.A, v[0]), "create_from_descriptor");
    psock *u, *o; psock_br* br; static int U;
    OK(psock_create_from_buffer(&o, w.A, NULL, 0), "create_from_buffer");
    OK(psock_create_from_user_methods(&u, w.A, &U, &async_user_vt), "create_from_user_methods");
    OK(psock_br_create_from_psock(&br, w.A, d), "br_create");
    for (psock* s : {m, o, u, psock_br_psock_adapter(br)}) {
        r = (psock*)&w;
        SEM(psock_create_wrap_async(&r, w.A, f->f, s) == ERROR_PSOCK_UNSUPPORTED_TYPE && r == nullptr, "wrap_other", "a socket that is not over a descriptor was wrapped as asynchronous");
    }
    for (int call : {F_GETFL, F_SETFL}) {           /* the descriptor cannot be made non-blocking */
        r = (psock*)&w;
        g_fcntl = {v[0], call, EIO, 0};
        status rc = psock_create_wrap_async(&r, w.A, f->f, d);
        bool hit = g_fcntl.hits > 0; g_fcntl = {};
        if (!hit) { if (rc == STATUS_SUCCESS) inconclusive("the library sets the flags in another way"); }
        SEM(rc != STATUS_SUCCESS && r == nullptr, "nonblock_failed", "an asynchronous socket was created (0x%x) although its descriptor cannot be made non-blocking", rc);
        count("nonblock_failures");
    }
    for (psock* s : {m, d, o, u, psock_br_psock_adapter(br)}) {
        SEM(psock_read_block(s) == ERROR_PSOCK_UNSUPPORTED_TYPE, "block_sync", "psock_read_block accepted a socket that is not asynchronous");
        SEM(psock_write_block(s) == ERROR_PSOCK_UNSUPPORTED_TYPE, "block_sync", "psock_write_block accepted a socket that is not asynchronous");
    }
    OK(resource_release(psock_br_resource_handle(br)), "br_release");
    OK(resource_release(psock_resource_handle(u)), "psock_release"); OK(resource_release(psock_resource_handle(o)), "psock_release");
    OK(psock_create_wrap_async(&r, w.A, f->f, d), "create_wrap_async");
    SEM(psock_create_wrap_async(&d, w.A, f->f, r) != STATUS_SUCCESS, "wrap_twice", "an asynchronous socket was wrapped again");
    SEM(fcntl(v[0], F_GETFL) & O_NONBLOCK, "nonblock", "an asynchronous socket's descriptor is not non-blocking");
    OK(resource_release(psock_resource_handle(r)), "psock_release");
    OK(resource_release(psock_resource_handle(m)), "psock_release");
    OK(resource_release(RCPR_SYM(fiber_resource_handle)(f->f)), "fiber_release");
    close(v[1]);
    w.finish(f0, false);
    nontrivial(mix(1, c.rng.next()));
}

/* ------------------------------------------------------- an interrupted wait is over */
/* gone: the abandoned socket is released at once, while another descriptor for its open file remains */
static void abandoned_wait(Ctx& c, bool gone = false) {
    auto f0 = fds();
    World w(c.rng.next()); World* pw = &w;
    w.start();
    int x[2], y[2], z[2]; stream_pair(w.R, x); stream_pair(w.R, y); stream_pair(w.R, z);
    psock *px = nullptr, *py = nullptr, *pz = nullptr;
    bool wr = w.R.chance(1, 3), together = c.n % 300 == 150; uint64_t stepped = 0;
    int kept = -1;
    if (gone) { wr = together = false; kept = dup(x[0]); }
    Fib* a = w.make([&, pw](Fib* f) {
        uint8_t b;
        status rc = pw->op(f, x[0], 0, "first", [&] { return psock_read_raw_uint8(px, &b); });
        SEM(rc == INTR, "interrupted", "an interrupted wait returned 0x%x", rc);
        if (gone) { OK(resource_release(psock_resource_handle(px)), "psock_release"); px = nullptr; }
        OK(pw->op(f, y[0], 0, "second", [&] { return psock_read_raw_uint8(py, &b); }), "second");
        SEM(b == 2, "second_value", "the value %u was read", b);
        if (wr) { OK(pw->op(f, x[0], 0, "again", [&] { return psock_read_raw_uint8(px, &b); }), "again"); SEM(b == 1, "value", "%u", b); }
    });
    a->policy = 1;
    Fib* k = w.make([&, pw](Fib* f) {
        uint8_t b; OK(pw->op(f, z[0], 0, "control", [&] { return psock_read_raw_uint8(pz, &b); }), "control");
        a->interrupted = true; a->sent = FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST;
        OK(RCPR_SYM(disciplined_fiber_scheduler_send_quiesce_request_to_fiber)(pw->s, a->f), "request");
        OK(pw->op(f, z[0], 0, "control", [&] { return psock_read_raw_uint8(pz, &b); }), "control");
    });
    px = w.async(x[0], a->f); py = w.async(y[0], a->f); pz = w.async(z[0], k->f);
    w.add(a); w.add(k);
    int step = 0;
    w.extra_env = [&] {
        static const int one[] = {2, 0, 2, 1}, both[] = {2, 0, 1, 2}; const int* order = together ? both : one; if (step >= 4 || (step && !a->handled)) return false;
        /* one step at a time, or the abandoned and the new descriptor become ready together */
        if (stepped == w.idles && !(together && step > 1)) return false;
        stepped = w.idles;
        int fd[] = {x[1], y[1], z[1]}; uint8_t b = (uint8_t)(order[step] + 1);
        if (__real_write(fd[order[step]], &b, 1) != 1) return false;
        ++step; return true;
    };
    w.join();
    for (psock* p : {px, py, pz}) if (p) OK(resource_release(psock_resource_handle(p)), "psock_release");
    close(x[1]); close(y[1]); close(z[1]); if (kept >= 0) close(kept);
    w.finish(f0, false);
    nontrivial(mix(2, c.rng.next()));
}
#ifdef MON_POLL
SCENARIO("C23", async_abandoned_wait_poll, 1) { if (c.n % 150 == 0) abandoned_wait(c); }
#else
SCENARIO("C23 C01 C35", async_abandoned_wait, 1) { abandoned_wait(c); }
SCENARIO("C01", async_released_while_armed, 1) { if (c.n % 50 == 0) abandoned_wait(c, true); }
#endif
