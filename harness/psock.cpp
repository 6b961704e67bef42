/* C19 C20 C21 C22 C24 C25 C33: socket abstraction without fibers. The library's system
 * calls are interposed to shorten reads, fail calls and answer name lookups. */
#include "mon.h"
#include "psockval.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <signal.h>
#include <sys/un.h>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <memory>
using namespace mon;
using pv::Val;

/* ------------------------------------------------------- interposition */
static struct {
    std::set<int> short_fds;            /* reads from these are cut short */
    size_t drip = 0, wdrip = 0;         /* ... to at most so many bytes; writes, too */
    Rng R{1};
    const char* fail = nullptr;         /* this call fails once */
    int err = EIO;
    uint64_t hits = 0;
} inj;
static bool failing(const char* what) {
    if (!inj.fail || strcmp(inj.fail, what)) return false;
    inj.fail = nullptr; ++inj.hits; errno = inj.err; return true;
}
template <class F> static ssize_t on_read(int fd, size_t n, F real) {
    if (n > 1 && inj.drip && inj.short_fds.count(fd)) { n = 1 + inj.R(inj.drip < n ? inj.drip : n); ++inj.hits; }
    else if (n > 1 && inj.short_fds.count(fd) && inj.R.chance(2, 3)) { n = 1 + inj.R(inj.R.chance(1, 2) ? (n < 5 ? n : 5) : n); ++inj.hits; }
    if (failing("read")) return -1;
    return real(n);
}
template <class F> static ssize_t on_write(int, size_t n, F real) {
    if (n > 1 && inj.wdrip) { n = 1 + inj.R(inj.wdrip < n ? inj.wdrip : n); ++inj.hits; }
    if (failing("write")) return -1;
    return real(n);
}
template <class F> static int on_accept(int, F real) { if (failing("accept")) return -1; return real(); }
#include "sysalias.h"
extern "C" {
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_connect(int, const struct sockaddr*, socklen_t);
struct hostent* __real_gethostbyname2(const char*, int);
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f) { if (failing("recvmsg")) return -1; return __real_recvmsg(fd, m, f); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f) { if (failing("sendmsg")) return -1; return __real_sendmsg(fd, m, f); }
int __wrap_socket(int d, int t, int p) { if (failing("socket")) return -1; return __real_socket(d, t, p); }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l) { if (failing("bind")) return -1; return __real_bind(fd, a, l); }
int __wrap_listen(int fd, int n) { if (failing("listen")) return -1; return __real_listen(fd, n); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) { if (failing("connect")) return -1; return __real_connect(fd, a, l); }
struct hostent* __wrap_gethostbyname2(const char* n, int af) {
    static unsigned char addr[16]; static char* list[2] = {(char*)addr, nullptr}; static struct hostent h; static char nm[8] = "x";
    if (strcmp(n, "nowhere.invalid") == 0) return nullptr;
    if (strcmp(n, "six.invalid") == 0) {
        if (af != AF_INET6) return nullptr;
        memset(addr, 0, 16); addr[15] = 1;
        h = {nm, nullptr, AF_INET6, 16, list};
        return &h;
    }
    return __real_gethostbyname2(n, af);
}
}
struct Quiet { ~Quiet() { inj.short_fds.clear(); inj.drip = inj.wdrip = 0; inj.fail = nullptr; } };
struct Init { Init() { signal(SIGPIPE, SIG_IGN); } } init_;

/* ------------------------------------------------------- user methods */
struct User {
    std::string out;                    /* bytes written through it */
    std::string in;                     /* bytes it will deliver */
    size_t pos = 0;
    bool frag = false;                  /* deliver non-blocking reads in pieces */
    size_t drip = 0;                    /* ... of at most so many bytes */
    unsigned would_block = 0;           /* chance in 8 of a non-blocking read that would block */
    status at_end = STATUS_SUCCESS;     /* STATUS_SUCCESS: zero bytes at the end */
    Rng R{1};
    int fd = -1;                        /* for sendmsg/recvmsg/accept */
    uint64_t released = 0, reads = 0, writes = 0;
    const char* last = "";
};
static status u_read(psock*, void* x, void* data, size_t* size, bool block) {
    User* u = (User*)x; ++u->reads;
    size_t left = u->in.size() - u->pos, n = *size;
    if (!block && u->would_block && u->R.chance(u->would_block, 8)) return ERROR_PSOCK_READ_WOULD_BLOCK;
    if (n == 0) { *size = 0; return STATUS_SUCCESS; }
    if (left == 0) { if (u->at_end != STATUS_SUCCESS) return u->at_end; *size = 0; return STATUS_SUCCESS; }
    if (n > left) n = left;
    if (!block && u->drip && n > 1) n = 1 + u->R(u->drip < n ? u->drip : n);
    else if (!block && u->frag && n > 1) n = 1 + u->R(u->R.chance(1, 2) ? (n < 7 ? n : 7) : n);
    memcpy(data, u->in.data() + u->pos, n);
    u->pos += n; *size = n;
    return STATUS_SUCCESS;
}
static status u_write(psock*, void* x, const void* data, size_t* size) {
    User* u = (User*)x; ++u->writes;
    u->out.append((const char*)data, *size);
    return STATUS_SUCCESS;
}
static status u_accept(psock*, void* x, int* desc, struct sockaddr* a, socklen_t* l) { User* u = (User*)x; u->last = "accept"; int r = __real_accept(u->fd, a, l); if (r < 0) return ERROR_PSOCK_ACCEPT_GENERAL; *desc = r; return STATUS_SUCCESS; }
static status u_sendmsg(psock*, void* x, const struct msghdr* m, int f) { User* u = (User*)x; u->last = "sendmsg"; return __real_sendmsg(u->fd, m, f) < 0 ? ERROR_PSOCK_SENDMSG_FAILED : STATUS_SUCCESS; }
static status u_recvmsg(psock*, void* x, struct msghdr* m, size_t* len, int f) {
    User* u = (User*)x; u->last = "recvmsg"; ssize_t n = __real_recvmsg(u->fd, m, f);
    if (n < 0) return ERROR_PSOCK_RECVMSG_FAILED;
    *len = (size_t)n; return STATUS_SUCCESS;
}
static status u_setsockopt(psock*, void*, int, int, const void*, socklen_t) { return STATUS_SUCCESS; }
static status u_release(psock*, void* x) { ((User*)x)->released++; return STATUS_SUCCESS; }
RCPR_VTABLE psock_vtable user_vt = {{nullptr}, &u_read, &u_write, &u_accept, &u_sendmsg, &u_recvmsg, &u_setsockopt, &u_release};
RCPR_VTABLE psock_vtable user_min_vt = {{nullptr}, &u_read, &u_write, nullptr, nullptr, nullptr, &u_setsockopt, &u_release};

static void rel(psock* s) { OK(resource_release(psock_resource_handle(s)), "psock_release"); }
static void rel(psock_br* b) { OK(resource_release(psock_br_resource_handle(b)), "psock_br_release"); }
static void pair_of(int type, int v[2]) { if (socketpair(AF_UNIX, type, 0, v) < 0) { perror("socketpair"); _exit(6); } }
static void linger0(int fd) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }

/* ------------------------------------------------------- C19: round trips */
struct ThreadW { std::vector<Val>* vals; int fd; Alloc* A; status rc; };
static void* writer(void* x) {
    ThreadW* t = (ThreadW*)x; psock* s;
    t->rc = psock_create_from_descriptor(&s, *t->A, t->fd);
    if (t->rc) return nullptr;
    for (auto& v : *t->vals) { t->rc = pv::write(s, v); if (t->rc) break; }
    status r = resource_release(psock_resource_handle(s));
    if (!t->rc) t->rc = r;
    return nullptr;
}
SCENARIO("C19 C01 C35", typed_thread, 1) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A, B;
    int fd[2]; pair_of(SOCK_STREAM, fd);
    int sz = (int)R.range(1, 20000); setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    std::vector<Val> vals;
    for (size_t n = R.range(2, 12), i = 0; i < n; ++i) {
        vals.push_back(pv::make(R, R.chance(1, 3) ? 150000 : 3000));
        log("%s %zu", pv::kname(vals.back().k), vals.back().s.size());
    }
    ThreadW t = {&vals, fd[0], &B, 0};
    bool br = R.chance(1, 2);
    log("threaded br=%d sndbuf=%d", br, sz);
    psock* s; psock_br* b = nullptr; psock* rs;
    OK(psock_create_from_descriptor(&s, A, fd[1]), "create_from_descriptor");
    rs = s;
    if (br) { OK(psock_br_create_from_psock(&b, A, s), "br_create"); rs = psock_br_psock_adapter(b); }
    if (R.chance(1, 2)) { inj.short_fds.insert(fd[1]); inj.R = Rng(R.next()); if (R.chance(1, 8)) inj.drip = (size_t)R.range(1, 300); }
    pthread_t th; if (pthread_create(&th, nullptr, writer, &t)) _exit(6);
    for (auto& v : vals) {
        Val got; got.k = v.k; got.u = 0;
        status rc = pv::read(rs, A, R, got, v.s.size());
        SEM(rc == STATUS_SUCCESS, (std::string("read_") + pv::kname(v.k)).c_str(), "reading a %s of %zu bytes back over a stream failed 0x%x", pv::kname(v.k), v.s.size(), rc);
        pv::same(v, got, "stream, writer in another thread");
        count("values_read_back");
    }
    pthread_join(th, nullptr);
    SEM(t.rc == STATUS_SUCCESS, "write_fails", "writing over a stream failed 0x%x", t.rc);
    if (b) rel(b);
    rel(s);
    A.expect_empty("psock"); B.expect_empty("psock"); expect_fds(f0, "psock");
    count("short_reads", inj.hits); inj.hits = 0;
    nontrivial(log_hash());
}

SCENARIO("C19 C21 C22 C01 C32 C35", typed_roundtrip, 6) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A;
    { Alloc* pa = &A; (void)pa; }
    int kind = (int)R(3);               /* memory, stream, user methods */
    bool brr = R.chance(1, 3), brw = R.chance(1, 4);
    size_t n = R.range(1, 30);
    int sub = kind == 1 && R.chance(1, 3) ? (int)R.range(1, 2) : 0;     /* a pipe, a file */
    log("kind=%d/%d br=%d/%d", kind, sub, brr, brw);
    psock *w = nullptr, *r = nullptr, *ww, *rr; psock_br *bw = nullptr, *bR = nullptr;
    int fd[2] = {-1, -1}; User U; U.R = Rng(R.next()); U.frag = R.chance(1, 2);
    std::string wire;                   /* every byte that should have been written */
    std::vector<Val> vals;
    if (kind == 0) OK(psock_create_from_buffer(&w, A, NULL, 0), "create_from_buffer");
    else if (kind == 1) {
        if (sub == 1) { if (pipe(fd)) inconclusive("pipe"); std::swap(fd[0], fd[1]); }
        else if (sub == 2) { char pn[64]; fd[0] = (int)memfd_create("m", 0); snprintf(pn, sizeof pn, "/proc/self/fd/%d", fd[0]); fd[1] = open(pn, O_RDONLY); if (fd[0] < 0 || fd[1] < 0) inconclusive("memfd"); }
        else pair_of(SOCK_STREAM, fd);
        OK(psock_create_from_descriptor(&w, A, fd[0]), "create_from_descriptor");
        OK(psock_create_from_descriptor(&r, A, fd[1]), "create_from_descriptor");
        for (psock* s : {w, r}) SEM(psock_socket_type(s) == (sub ? PSOCK_SOCKET_TYPE_OTHER : PSOCK_SOCKET_TYPE_STREAM), "descriptor_type", "a %s reports socket kind %d", sub == 1 ? "pipe" : sub ? "file" : "stream socket", (int)psock_socket_type(s));
        if (R.chance(1, 2)) { inj.short_fds.insert(fd[1]); inj.R = Rng(R.next()); if (R.chance(1, 5)) { inj.drip = (size_t)R.range(1, 4); count("dripping_sources"); } }
    } else { OK(psock_create_from_user_methods(&w, A, &U, R.chance(1, 2) ? &user_vt : &user_min_vt), "create_from_user_methods"); r = w; }
    ww = w;
    if (brw) { OK(psock_br_create_from_psock(&bw, A, w), "br_create"); ww = psock_br_psock_adapter(bw); }
    if (r && brr) { if (bw && r == w) bR = bw; else OK(psock_br_create_from_psock(&bR, A, r), "br_create"); }
    size_t next = 0, budget = kind == 1 ? 30000 : 200000, pending = 0;
    auto readone = [&] {
        Val& v = vals[next]; Val got; got.k = v.k; got.u = 0;
        rr = bR ? psock_br_psock_adapter(bR) : r;
        if (kind == 2) { U.in += U.out; U.out.clear(); }
        status rc = pv::read(rr, A, R, got, v.s.size());
        SEM(rc == STATUS_SUCCESS, (std::string("read_") + pv::kname(v.k)).c_str(), "reading a %s of %zu bytes back failed 0x%x (transport %d, buffered %d)", pv::kname(v.k), v.s.size(), rc, kind, brr);
        pv::same(v, got, "round trip");
        pending -= pv::encode(v).size(); ++next;
        count("values_read_back");
    };
    for (size_t i = 0; i < n; ++i) {
        size_t room = budget > pending + 64 ? budget - pending - 64 : 0;
        size_t mx = R.chance(1, 6) ? 20000 : 300;
        Val v = pv::make(R, room < mx ? room : mx);
        std::string e = pv::encode(v);
        log("%s %llx %zu", pv::kname(v.k), (unsigned long long)v.u, v.s.size());
        size_t before = kind == 2 ? U.out.size() : 0;
        /* raw data is written whole, however little each write takes */
        if (kind == 1 && v.k == pv::RDATA && (sub == 2 || (pending == 0 && v.s.size() <= 150)) && R.chance(1, 2)) { inj.wdrip = (size_t)R.range(1, 9); count("piecewise_writes"); }
        status rc = pv::write(ww, v);
        inj.wdrip = 0;
        SEM(rc == STATUS_SUCCESS, (std::string("write_") + pv::kname(v.k)).c_str(), "writing a %s of %zu bytes failed 0x%x (transport %d)", pv::kname(v.k), v.s.size(), rc, kind);
        if (kind == 2) SEM(U.out.substr(before) == e, (std::string("wire_") + pv::kname(v.k)).c_str(), "a %s of %zu bytes went out as %s, documented encoding is %s", pv::kname(v.k), v.s.size(), pv::show(U.out.substr(before)).c_str(), pv::show(e).c_str());
        wire += e; pending += e.size(); vals.push_back(v);
        if (kind == 1 && !sub && !bR && next == vals.size() - 1) {
            std::string got(e.size() + 16, 0);
            ssize_t k = __real_recv(fd[1], &got[0], got.size(), MSG_PEEK | MSG_DONTWAIT);
            got.resize(k < 0 ? 0 : (size_t)k);
            SEM(got == e, (std::string("wire_") + pv::kname(v.k)).c_str(), "a %s of %zu bytes went out as %zu bytes %s, documented encoding is %s", pv::kname(v.k), v.s.size(), got.size(), pv::show(got).c_str(), pv::show(e).c_str());
        }
        if (kind) while (next < vals.size() && (R.chance(1, 3) || pending + 400 > budget)) readone();
    }
    if (kind == 0) {
        void* o = nullptr; size_t on = 0;
        OK(psock_from_buffer_get_output_buffer(w, A, &o, &on), "get_output");
        SEM(on == wire.size() && (on == 0 || memcmp(o, wire.data(), on) == 0), "wire_buffer", "output buffer holds %zu bytes %s, the values written encode to %zu bytes %s", on, pv::show(std::string((char*)o, on)).c_str(), wire.size(), pv::show(wire).c_str());
        OK(psock_create_from_buffer(&r, A, (const char*)o, on), "create_from_buffer");
        A.give(o);                      /* the library has its own copy */
        if (brr) OK(psock_br_create_from_psock(&bR, A, r), "br_create");
    }
    while (next < vals.size()) readone();
    /* nothing is left */
    if (sub != 1 && (kind != 1 || R.chance(1, 2))) {
        if (kind == 1) shutdown(fd[0], SHUT_WR);
        Val got; got.k = (int)R(pv::KINDS); got.u = 0;
        rr = bR ? psock_br_psock_adapter(bR) : r;
        status rc = pv::read(rr, A, R, got, R.range(1, 50));
        SEM(rc != STATUS_SUCCESS, "reads_past_end", "a %s was read after the end of the data", pv::kname(got.k));
    }
    if (bR && bR != bw) rel(bR);
    if (bw) rel(bw);
    if (r && r != w) rel(r);
    rel(w);
    if (kind == 2) SEM(U.released == 1, "user_release", "the user's release method ran %llu times", (unsigned long long)U.released);
    A.expect_empty("psock"); expect_fds(f0, "psock");
    count("short_reads", inj.hits); inj.hits = 0;
    if (vals.size() > 2) nontrivial(log_hash());
}

/* ------------------------------------------------------- C20: hostile input */
SCENARIO("C20 C01 C35", hostile, 6) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A; A.limit = R.chance(1, 2) ? 1 << 16 : 1 << 20;
    std::string b; std::vector<std::pair<int, size_t>> plan;      /* what the reader asks for */
    size_t n = R.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
        Val v = pv::make(R, 60);
        std::string e = pv::encode(v);
        int ask = v.k; size_t want = v.s.size();
        switch (R(8)) {
            case 0: if (e.size()) e[R(e.size())] ^= (char)(1 << R(8)); break;
            case 1: if (pv::boxed(v.k)) e[R(4)] = (char)R.next(); break;
            case 2: ask = (int)R(pv::KINDS); break;
            case 3: if (v.k == pv::STR || v.k == pv::DATA) {           /* announced length */
                static const uint32_t L[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0xffffu, 0x10000u, 0xfffff, 0x100000};
                uint32_t l = R.chance(1, 2) ? L[R(10)] : (uint32_t)(v.s.size() + R(9) - 4);
                std::string h; pv::be(h, l, 4); e.replace(4, 4, h);
                } break;
            case 4: { std::string t; for (size_t k = R(12); k; --k) t.push_back((char)R.next()); e = t; } break;
            case 5: want = R.size(200); break;
            default: break;
        }
        b += e; plan.push_back({ask, want});
    }
    if (R.chance(1, 3)) b.resize(R(b.size() + 1));
    plan.push_back({(int)R(pv::KINDS), R(9)});
    if (b.size() > 30000) b.resize(30000);
    int kind = (int)R(4); bool br = R.chance(1, 3);                    /* memory, stream closed, user, stream open non-blocking */
    log("kind=%d br=%d limit=%zu %s", kind, br, A.limit, pv::show(b).c_str()); log("%llx", (unsigned long long)std::hash<std::string>()(b));
    psock* s; int fd[2] = {-1, -1}; User U; U.in = b; U.R = Rng(R.next()); U.frag = R.chance(1, 2); U.at_end = R.chance(1, 2) ? STATUS_SUCCESS : ERROR_PSOCK_READ_GENERAL;
    if (kind == 0) OK(psock_create_from_buffer(&s, A, b.data(), b.size()), "create_from_buffer");
    else if (kind == 2) OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create_from_user");
    else {
        pair_of(SOCK_STREAM, fd);
        if (!b.empty() && __real_write(fd[0], b.data(), b.size()) != (ssize_t)b.size()) inconclusive("socket buffer too small");
        if (kind == 1) close(fd[0]); else fcntl(fd[1], F_SETFL, O_NONBLOCK);
        OK(psock_create_from_descriptor(&s, A, fd[1]), "create_from_descriptor");
        if (R.chance(1, 2)) { inj.short_fds.insert(fd[1]); inj.R = Rng(R.next()); }
    }
    psock_br* bb = nullptr; psock* rs = s;
    if (br) { OK(psock_br_create_from_psock(&bb, A, s), "br_create"); rs = psock_br_psock_adapter(bb); }
    size_t off = 0; bool rejected = false;
    for (auto& p : plan) {
        Val want, got; size_t adv = 0;
        int must = pv::decode(b, off, p.first, p.second, want, adv);
        got.k = p.first; got.u = 0;
        log("ask %s %zu", pv::kname(p.first), p.second);
        size_t big = A.biggest;
        status rc = pv::read(rs, A, R, got, p.second);
        size_t len = want.s.size();
        bool refusable = len + 1 > A.limit || (pv::width(p.first) == 0 && p.second + 1 > A.limit);
        (void)big;
        if (rc == STATUS_SUCCESS) {
            SEM(must, (std::string("accepts_") + pv::kname(p.first)).c_str(), "a %s read over bytes that do not hold one succeeded (transport %d, buffered %d, offset %zu of %zu)", pv::kname(p.first), kind, br, off, b.size());
            pv::same(want, got, "hostile input");
            count("hostile_accepted");
        } else {
            SEM(must != 1 || refusable, (std::string("rejects_") + pv::kname(p.first)).c_str(), "a well-formed %s of %zu bytes was rejected 0x%x (transport %d, buffered %d)", pv::kname(p.first), len, rc, kind, br);
            count("hostile_rejected"); rejected = true;
            break;                      /* the position is no longer specified */
        }
        off += adv;
    }
    if (bb) rel(bb);
    rel(s);
    if (kind == 3) close(fd[0]);
    A.expect_empty("hostile"); expect_fds(f0, "hostile");
    inj.hits = 0;
    if (rejected) nontrivial(log_hash());
}
/* every truncation point of every kind of value */
SCENARIO("C20 C01 C35", truncation, 2) {
    Rng& R = c.rng; Quiet q;
    Alloc A; Val v = pv::make(R, 12); v.k = (int)(c.n % pv::KINDS);
    if (pv::width(v.k)) { v.s.clear(); v.u = v.k == pv::BOOL || v.k == pv::RBOOL ? R(2) : pv::edge(R, pv::width(v.k)); }
    else if (v.s.empty()) v.s = "abc", v.u = 0;
    if (v.k == pv::STR) for (auto& ch : v.s) if (!ch) ch = 'x';
    std::string e = pv::encode(v);
    log("%s %s", pv::kname(v.k), pv::show(e).c_str());
    for (size_t cut = 0; cut <= e.size(); ++cut) for (int kind = 0; kind < 3; ++kind) {
        psock* s; int fd[2]; User U; U.in = e.substr(0, cut); U.R = Rng(R.next()); U.frag = true;
        if (kind == 0) OK(psock_create_from_buffer(&s, A, U.in.data(), cut), "create_from_buffer");
        else if (kind == 1) OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create_from_user");
        else {
            pair_of(SOCK_STREAM, fd);
            if (cut && __real_write(fd[0], e.data(), cut) < 0) inconclusive("write");
            close(fd[0]); OK(psock_create_from_descriptor(&s, A, fd[1]), "create_from_descriptor");
        }
        psock_br* bb = nullptr; psock* rs = s;
        if (R.chance(1, 2)) { OK(psock_br_create_from_psock(&bb, A, s), "br_create"); rs = psock_br_psock_adapter(bb); }
        Val got; got.k = v.k; got.u = 0;
        status rc = pv::read(rs, A, R, got, v.s.size());
        if (cut < e.size()) SEM(rc != STATUS_SUCCESS, (std::string("truncated_") + pv::kname(v.k)).c_str(), "a %s cut after %zu of %zu bytes was read with success (transport %d)", pv::kname(v.k), cut, e.size(), kind);
        else { SEM(rc == STATUS_SUCCESS, "complete_fails", "a complete %s was rejected 0x%x (transport %d)", pv::kname(v.k), rc, kind); pv::same(v, got, "complete"); }
        count("truncations");
        if (bb) rel(bb);
        rel(s);
    }
    A.expect_empty("truncation");
    nontrivial(log_hash());
}

/* ------------------------------------------------------- C21: memory buffers */
SCENARIO("C21 C01 C32 C35", buffer_output, 3) {
    Rng& R = c.rng; Alloc A, B;
    psock* s; OK(psock_create_from_buffer(&s, A, NULL, 0), "create_from_buffer"); SEM(psock_socket_type(s) == PSOCK_SOCKET_TYPE_OTHER, "buffer_type", "a buffer socket reports kind %d", (int)psock_socket_type(s));
    std::string w; size_t n = R.range(1, 14); unsigned got = 0;
    psock_br* bw = nullptr; psock* ws = s;
    if (R.chance(1, 5)) { OK(psock_br_create_from_psock(&bw, A, s), "br_create"); ws = psock_br_psock_adapter(bw); }
    for (size_t i = 0; i < n; ++i) {
        if (R.chance(3, 4)) {
            Val v = pv::make(R, 100);
            if (R.chance(1, 2)) {
                v.k = pv::RDATA; v.u = 0;
                size_t len = R.chance(1, 2) ? R.size(9000) : 4096 - w.size() % 4096 + R(3) - 1 + (R.chance(1, 3) ? 4096 : 0);
                v.s.resize(len); for (auto& ch : v.s) ch = (char)R.next();
            }
            std::string e = pv::encode(v);
            log("write %s %zu", pv::kname(v.k), e.size());
            OK(pv::write(ws, v), "write"); w += e;
        } else {
            log("extract");
            void* o = nullptr; size_t on = 1234567; Alloc& X = R.chance(1, 2) ? A : B;
            status rc = psock_from_buffer_get_output_buffer(s, X, &o, &on);
            SEM(rc == STATUS_SUCCESS, "extract_fails", "extracting %zu bytes failed 0x%x", w.size(), rc);
            SEM(on == w.size(), "extract_size", "%zu bytes were written, the extracted buffer reports %zu", w.size(), on);
            SEM(X.size_of(o) != (size_t)-1 && X.size_of(o) >= on, "extract_block", "the extracted buffer is not a block of at least %zu bytes of the allocator given", on);
            SEM(!on || memcmp(o, w.data(), on) == 0, "extract_bytes", "the extracted bytes differ from the bytes written");
            memset(o, 0xee, on);        /* ours now */
            OK(RCPR_SYM(allocator_reclaim)(X.get(), o), "reclaim");
            ++got; count("extractions");
        }
    }
    /* an output buffer has nothing to read */
    char z[8]; size_t zn = sizeof z; status rc = psock_read_raw(ws, z, &zn);
    SEM(rc != STATUS_SUCCESS || zn == 0, "output_readable", "%zu bytes were read from a socket that only collects output", zn);
    void* o = nullptr; size_t on = 0;
    OK(psock_from_buffer_get_output_buffer(s, B, &o, &on), "extract");
    SEM(on == w.size() && (!on || memcmp(o, w.data(), on) == 0), "extract_bytes", "%zu bytes written, %zu extracted or different bytes", w.size(), on);
    maxof("output_bytes", on);
    if (bw) rel(bw);
    rel(s);
    A.expect_empty("buffer");
    SEM(!on || memcmp(o, w.data(), on) == 0, "extract_shared", "the extracted block changed when the socket was released");
    OK(RCPR_SYM(allocator_reclaim)(B.get(), o), "reclaim");
    B.expect_empty("buffer");
    if (n > 3) nontrivial(log_hash());
}
SCENARIO("C21 C01 C35", buffer_sizes, 1) {  /* every size in turn, written in one to three parts, and read back */
    Rng& R = c.rng; Alloc A; std::string w(20000, 0); uint64_t x = 0;
    for (size_t i = 0; i < w.size(); ++i) { if (i % 8 == 0) x = R.next(); w[i] = (char)(x >> (8 * (i % 8))); }
    for (size_t k = 0; k < 16; ++k) {
        size_t n = (c.n * 16 + k) % 20000;
        psock* s; OK(psock_create_from_buffer(&s, A, NULL, 0), "create_from_buffer");
        for (size_t i = 0; i < n;) { size_t m = R.chance(1, 2) ? n - i : 1 + R(n - i); OK(psock_write_raw_data(s, w.data() + i, m), "write"); i += m; }
        void* o = nullptr; size_t on = 0; OK(psock_from_buffer_get_output_buffer(s, A, &o, &on), "extract");
        SEM(on == n && (!n || !memcmp(o, w.data(), n)), "extract_bytes", "%zu bytes written, %zu extracted or different bytes", n, on);
        rel(s); psock* r; OK(psock_create_from_buffer(&r, A, (const char*)o, on), "create_from_buffer");
        if (n) {
            memset(o, 0, n); void* d = nullptr; OK(psock_read_raw_data(r, A, &d, n), "read");
            SEM(!memcmp(d, w.data(), n), "read_bytes", "%zu bytes read back differ", n);
            OK(RCPR_SYM(allocator_reclaim)(A.get(), d), "reclaim");
        }
        char z; size_t zn = 1; SEM(psock_read_raw(r, &z, &zn) != STATUS_SUCCESS, "no_end", "the end of a buffer of %zu bytes is not reported", n);
        rel(r); OK(RCPR_SYM(allocator_reclaim)(A.get(), o), "reclaim");
        count("buffer_sizes");
    }
    A.expect_empty("buffer"); nontrivial(c.n);
}
SCENARIO("C21 C01 C35", buffer_input, 3) {
    Rng& R = c.rng; Alloc A;
    size_t n = R.size(R.chance(1, 10) ? 70000 : 3000);
    char* in = (char*)malloc(n ? n : 1); for (size_t i = 0; i < n; ++i) in[i] = (char)R.next();
    std::string b(in, n);
    psock* s; OK(psock_create_from_buffer(&s, A, in, n), "create_from_buffer"); SEM(psock_socket_type(s) == PSOCK_SOCKET_TYPE_OTHER, "buffer_type", "a buffer socket reports kind %d", (int)psock_socket_type(s));
    SEM(std::string(in, n) == b, "input_written", "creating a socket changed the caller's buffer");
    bool gone = R.chance(1, 2);
    if (gone) { memset(in, 0, n); free(in); }
    size_t off = 0; log("n=%zu gone=%d", n, gone);
    for (int i = 0; i < 60 && off < n; ++i) {
        if (R.chance(1, 2)) {
            size_t want = R.size(n + 10), sz = want;
            char* d = (char*)malloc(want ? want : 1);
            status rc = psock_read_raw(s, d, &sz);
            log("read %zu", want);
            if (want) {
                SEM(rc == STATUS_SUCCESS, "read_fails", "reading %zu bytes at %zu of %zu failed 0x%x", want, off, n, rc);
                SEM(sz <= want && sz <= n - off && sz > 0, "read_size", "a read of %zu at %zu of %zu reports %zu bytes", want, off, n, sz);
                SEM(memcmp(d, b.data() + off, sz) == 0, "read_bytes", "bytes read at %zu differ from the buffer", off);
                off += sz;
            }
            free(d);
        } else {
            Val got, want; size_t adv = 0; got.k = (int)R.range(pv::RI8, pv::RDATA); got.u = 0;
            size_t len = R.size(n - off + 5);
            int must = pv::decode(b, off, got.k, len, want, adv);
            log("%s %zu", pv::kname(got.k), len);
            if (!must && pv::width(got.k) == 0) continue;
            status rc = pv::read(s, A, R, got, len);
            SEM((rc == STATUS_SUCCESS) == (must != 0) || must == 2, "typed", "a %s read at %zu of %zu: 0x%x", pv::kname(got.k), off, n, rc);
            if (rc != STATUS_SUCCESS) break;
            pv::same(want, got, "memory buffer"); off += adv;
        }
        count("buffer_reads");
    }
    if (off == n) for (int i = 0; i < 2; ++i) {
        char d[4]; size_t sz = 4; status rc = psock_read_raw(s, d, &sz);
        SEM(rc != STATUS_SUCCESS, "no_end", "the end of the buffer is not reported (read of 4 gave %zu)", sz);
        SEM(rc != ERROR_PSOCK_READ_WOULD_BLOCK, "end_blocks", "the end of the buffer is reported as would-block");
    }
    void* o = nullptr; size_t on = 77;
    SEM(psock_from_buffer_get_output_buffer(s, A, &o, &on) != STATUS_SUCCESS, "input_extract", "output was extracted from a socket that only has input");
    SEM(!o && on == 77, "input_extract_out", "a failing extraction changed the caller's variables");
    int d = -9; struct sockaddr_in sa; socklen_t sl = sizeof sa;
    SEM(psock_accept(s, &d, (struct sockaddr*)&sa, &sl) != STATUS_SUCCESS && d == -9, "buffer_accept", "accept on a memory buffer");
    rel(s);
    if (!gone) { SEM(std::string(in, n) == b, "input_written", "the caller's buffer was changed"); free(in); }
    A.expect_empty("buffer");
    nontrivial(log_hash());
}

/* ------------------------------------------------------- C22: buffered reader */
SCENARIO("C22 C01 C32 C35", buffered_reader, 8) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A; std::string b;
    size_t total = R.chance(1, 6) ? R.range(15000, 36000) : R.size(600);
    unsigned nl = (unsigned)(total > 15000 && R.chance(1, 2) ? R.range(2000, 20000) : R.range(1, 60));
    while (b.size() < total) b.push_back(R.chance(1, nl) ? '\n' : R.chance(1, 30) ? (char)R.next() : (char)('a' + R(26)));
    if (R.chance(1, 3) && total > 16384) for (int d = -2; d < 3; ++d) if (R.chance(1, 2)) b[(size_t)(16384 + d)] = '\n';
    int kind = (int)R(3);               /* memory, stream, user methods */
    User U; U.R = Rng(R.next()); U.in = b; U.frag = R.chance(3, 4); U.at_end = R.chance(1, 2) ? STATUS_SUCCESS : ERROR_PSOCK_READ_GENERAL;
    if (kind == 2 && R.chance(1, 3)) U.would_block = (unsigned)R.range(1, 6);
    if (R.chance(1, 4)) { U.drip = inj.drip = (size_t)R.range(1, 3); count("dripping_sources"); }
    psock* s; int fd[2] = {-1, -1};
    if (kind == 0) OK(psock_create_from_buffer(&s, A, b.data(), b.size()), "create_from_buffer");
    else if (kind == 2) OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create_from_user");
    else {
        pair_of(SOCK_STREAM, fd);
        if (!b.empty() && __real_write(fd[0], b.data(), b.size()) != (ssize_t)b.size()) inconclusive("socket buffer too small");
        close(fd[0]);
        OK(psock_create_from_descriptor(&s, A, fd[1]), "create_from_descriptor");
        if (R.chance(2, 3)) { inj.short_fds.insert(fd[1]); inj.R = Rng(R.next()); }
    }
    log("kind=%d total=%zu wb=%u frag=%d %llx", kind, total, U.would_block, U.frag, (unsigned long long)std::hash<std::string>()(b));
    psock_br* br; OK(psock_br_create_from_psock(&br, A, s), "br_create");
    psock* rs = psock_br_psock_adapter(br);
    size_t p = 0; unsigned lines = 0, raws = 0, idle = 0;
    for (int i = 0; i < 4000; ++i) {
        size_t op = R(8);
        if (op < 5) {
            size_t B = R.chance(1, 12) ? R(3) : R.chance(1, 4) ? R.range(2, 12) : R.chance(1, 3) ? R.range(16380, 16390) : R.chance(1, 4) ? R.range(2, 20000) : R.range(2, 400), sz = B;
            char* buf = (char*)malloc(B ? B : 1); memset(buf, 0x7e, B ? B : 1);
            status rc = psock_br_read_line(buf, &sz, br);
            if (B < 2) {
                SEM(rc != STATUS_SUCCESS && rc != ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "tiny_buffer", "a line was read into a buffer of %zu bytes", B);
                free(buf); continue;
            }
            size_t cap = B - 1, k = b.find('\n', p);
            bool line = k != std::string::npos; size_t len = (line ? k : b.size()) - p;
            if (rc == ERROR_PSOCK_READ_WOULD_BLOCK && U.would_block) {
                SEM(sz == B, "line_size_failed", "a failing line read changed the size"); free(buf);
                if (++idle > 400) break; else continue;
            }
            if (rc == STATUS_SUCCESS) {
                SEM(line || len > 0, "line_invented", "a line of %zu bytes was read at the end of the stream", sz);
                SEM(len <= cap, "line_not_truncated", "a line of %zu bytes was read whole into a buffer of %zu", len, B);
                SEM(sz == len + 1, "line_size", "a line of %zu bytes is reported with size %zu (bytes plus terminator expected)", len, sz);
                SEM(memcmp(buf, b.data() + p, len) == 0, "line_bytes", "the line at offset %zu differs from the stream", p);
                SEM(buf[len] == 0, "line_nul", "the line of %zu bytes is not terminated", len);
                p += len + (line ? 1 : 0); ++lines; count("lines");
            } else if (rc == ERROR_PSOCK_BR_READ_LINE_TRUNCATED) {
                size_t got = cap;
                if (U.would_block) { got = sz; SEM(got >= 1 && got <= cap, "trunc_size", "%zu bytes reported in a buffer of %zu", got, B); }
                SEM(len >= got, "line_truncated", "a line of %zu bytes was reported truncated in a buffer of %zu", len, B);
                SEM(sz == got || sz == got + 1, "trunc_size", "a truncated line filling a buffer of %zu is reported with size %zu", B, sz);
                SEM(memcmp(buf, b.data() + p, got) == 0, "trunc_bytes", "the piece of a line at offset %zu differs from the stream", p);
                SEM(buf[got] == 0, "trunc_nul", "the piece of %zu bytes is not terminated", got);
                p += got; count("truncated_pieces");
            } else {
                SEM(p == b.size(), "line_fails", "a line read at offset %zu of %zu failed 0x%x", p, b.size(), rc);
                SEM(sz == B, "line_size_failed", "a failing line read changed the size");
                free(buf); if (R.chance(1, 2)) break; else continue;
            }
            free(buf);
        } else if (op < 7 || U.would_block) {
            size_t want = R.chance(1, 4) ? R.range(1, 20000) : R.range(1, 40), sz = want;
            char* d = (char*)malloc(want);
            status rc = psock_read_raw(rs, d, &sz);
            if (rc == ERROR_PSOCK_READ_WOULD_BLOCK && U.would_block) { free(d); if (++idle > 400) break; else continue; }
            if (rc != STATUS_SUCCESS || sz == 0) {
                SEM(p == b.size(), "raw_fails", "a read at offset %zu of %zu failed 0x%x", p, b.size(), rc);
                free(d); break;
            }
            SEM(sz <= want && sz <= b.size() - p, "raw_size", "a read of %zu at offset %zu of %zu gave %zu bytes", want, p, b.size(), sz);
            SEM(memcmp(d, b.data() + p, sz) == 0, "raw_bytes", "bytes read at offset %zu differ from the stream", p);
            p += sz; free(d); ++raws; count("raw_reads");
        } else {
            Val got, want; size_t adv = 0; got.k = (int)R.range(pv::RI8, pv::RDATA); got.u = 0;
            size_t len = R.chance(1, 3) ? R.size(20000) : R.size(60);
            int must = pv::decode(b, p, got.k, len, want, adv);
            status rc = pv::read(rs, A, R, got, len);
            SEM((rc == STATUS_SUCCESS) == (must != 0) || must == 2, "typed", "a %s read of %zu at %zu of %zu: 0x%x", pv::kname(got.k), len, p, b.size(), rc);
            if (rc != STATUS_SUCCESS) { p = (size_t)-1; break; }
            pv::same(want, got, "buffered"); p += adv; ++raws; count("typed_reads");
        }
    }
    rel(br);
    /* the buffered reader does not own what it wraps */
    uint8_t dummy; status rc = psock_read_raw_uint8(s, &dummy); (void)rc;
    rel(s);
    if (kind == 2) SEM(U.released == 1, "wrapped_release", "the wrapped socket's release method ran %llu times", (unsigned long long)U.released);
    A.expect_empty("br"); expect_fds(f0, "br");
    count("short_reads", inj.hits); inj.hits = 0;
    log("lines=%u raws=%u", lines, raws);
    if (lines + raws > 3) nontrivial(log_hash());
}
SCENARIO("C22 C01 C32 C35", buffered_pass, 2) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A; User U; int fd[2] = {-1, -1};
    psock* s; psock_br* br;
    size_t what = R(4); log("pass %zu", what);
    if (what == 0) {                    /* writes, to user methods and in the middle of buffered input */
        U.in = "line one\nline two\nrest"; U.frag = false;
        OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create");
        OK(psock_br_create_from_psock(&br, A, s), "br_create");
        std::string w;
        for (int i = 0; i < 6; ++i) {
            if (i == 2 || i == 4) { char l[40]; size_t n = sizeof l; OK(psock_br_read_line(l, &n, br), "read_line"); SEM(!strcmp(l, i == 2 ? "line one" : "line two"), "line_after_write", "read \"%s\"", l); }
            Val v = pv::make(R, 300); OK(pv::write(psock_br_psock_adapter(br), v), "write"); w += pv::encode(v);
            SEM(U.out == w, "write_through", "after a write through the buffered reader the underlying socket got %zu bytes, expected %zu", U.out.size(), w.size());
        }
    } else if (what == 1) {             /* descriptor passing */
        pair_of(SOCK_DGRAM, fd); U.fd = fd[0];
        bool user = R.chance(1, 2);
        if (user) { OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create"); }
        else OK(psock_create_from_descriptor(&s, A, fd[0]), "create");
        OK(psock_br_create_from_psock(&br, A, s), "br_create");
        psock* o; OK(psock_create_from_descriptor(&o, A, fd[1]), "create");
        SEM(psock_socket_type(psock_br_psock_adapter(br)) == psock_socket_type(s), "br_type", "the buffered reader reports another kind of socket than the one it wraps");
        if (!user) {
            int m = (int)memfd_create("m", 0), g = -1; std::string id = fd_identity(m);
            psock* br_s = psock_br_psock_adapter(br); bool out = R.chance(1, 2);
            OK(psock_write_raw_descriptor(out ? br_s : o, m), "write_descriptor");
            OK(psock_read_raw_descriptor(out ? o : br_s, &g), "read_descriptor");
            SEM(g >= 0 && fd_identity(g) == id, "br_descriptor", "descriptor passed through a buffered reader is not the same file");
            close(g); close(m);
        }
        rel(o);
        if (user) close(fd[0]);
    } else if (what == 2) {             /* accept */
        int l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (__real_bind(l, (struct sockaddr*)&sa, sizeof sa) || __real_listen(l, 4)) inconclusive("no loopback");
        socklen_t sl = sizeof sa; getsockname(l, (struct sockaddr*)&sa, &sl);
        bool user = R.chance(1, 2); U.fd = l;
        if (user) OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create");
        else OK(psock_create_from_descriptor(&s, A, l), "create");
        OK(psock_br_create_from_psock(&br, A, s), "br_create");
        int cl = socket(AF_INET, SOCK_STREAM, 0); linger0(cl);
        if (__real_connect(cl, (struct sockaddr*)&sa, sizeof sa)) inconclusive("connect");
        struct sockaddr_in me = {}, pa = {}; socklen_t ml = sizeof me, pl = sizeof pa; getsockname(cl, (struct sockaddr*)&me, &ml);
        int d = -1; OK(psock_accept(psock_br_psock_adapter(br), &d, (struct sockaddr*)&pa, &pl), "accept");
        SEM(pa.sin_port == me.sin_port && pl == sizeof pa, "br_accept", "accept through a buffered reader reports another peer");
        close(cl); close(d); if (user) close(l);
    } else {                            /* methods a user socket does not have */
        OK(psock_create_from_user_methods(&s, A, &U, &user_min_vt), "create");
        OK(psock_br_create_from_psock(&br, A, s), "br_create");
        struct sockaddr_in pa; socklen_t pl = sizeof pa; int d = -7;
        SEM(psock_accept(psock_br_psock_adapter(br), &d, (struct sockaddr*)&pa, &pl) != STATUS_SUCCESS && d == -7, "undefined_accept", "accept without an accept method");
        SEM(psock_accept(s, &d, (struct sockaddr*)&pa, &pl) != STATUS_SUCCESS && d == -7, "undefined_accept", "accept without an accept method");
        SEM(psock_write_raw_descriptor(psock_br_psock_adapter(br), 0) != STATUS_SUCCESS, "undefined_sendmsg", "descriptor sent without a sendmsg method");
    }
    rel(br); rel(s);
    A.expect_empty("br"); expect_fds(f0, "br");
    nontrivial(log_hash());
}

/* ------------------------------------------------------- C24: descriptors */
static void raw_send(int fd, const std::string& data, const std::vector<int>& d) {
    char cb[CMSG_SPACE(sizeof(int) * 8)]; memset(cb, 0, sizeof cb);
    struct iovec io = {(void*)data.data(), data.size()};
    struct msghdr m = {}; m.msg_iov = &io; m.msg_iovlen = 1;
    if (!d.empty()) {
        m.msg_control = cb; m.msg_controllen = CMSG_SPACE(sizeof(int) * d.size());
        struct cmsghdr* cm = CMSG_FIRSTHDR(&m); cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = SCM_RIGHTS; cm->cmsg_len = CMSG_LEN(sizeof(int) * d.size());
        memcpy(CMSG_DATA(cm), d.data(), sizeof(int) * d.size());
    }
    if (__real_sendmsg(fd, &m, 0) < 0) inconclusive("sendmsg");
}
static bool same_file(int a, int b) {   /* one open file: the offset is shared */
    off_t x = lseek(a, 0, SEEK_CUR);
    if (lseek(a, x + 37, SEEK_SET) != x + 37) return false;
    bool r = lseek(b, 0, SEEK_CUR) == x + 37;
    lseek(a, x, SEEK_SET); return r;
}
SCENARIO("C24 C01 C32 C35", descriptors, 6) {
    Rng& R = c.rng; Quiet q; auto f0 = fds();
    Alloc A; int fd[2]; pair_of(SOCK_DGRAM, fd);
    bool creds = R.chance(1, 8);
    if (creds) { int one = 1; setsockopt(fd[1], SOL_SOCKET, SO_PASSCRED, &one, sizeof one); }
    User U; U.fd = fd[0];
    psock *w, *r, *ww, *rr; psock_br *bw = nullptr, *bR = nullptr;
    OK(psock_create_from_descriptor(&w, A, fd[0]), "create");
    OK(psock_create_from_descriptor(&r, A, fd[1]), "create");
    SEM(psock_socket_type(w) == PSOCK_SOCKET_TYPE_DATAGRAM, "dgram_type", "a datagram socket reports type %d", (int)psock_socket_type(w));
    ww = w; rr = r;
    if (R.chance(1, 4)) { OK(psock_br_create_from_psock(&bw, A, w), "br"); ww = psock_br_psock_adapter(bw); }
    if (R.chance(1, 4)) { OK(psock_br_create_from_psock(&bR, A, r), "br"); rr = psock_br_psock_adapter(bR); }
    struct Item { int kind; std::string data; std::vector<int> d; };  /* 0 descriptor, 1 data, 2 several descriptors */
    std::deque<Item> Q; std::vector<int> mine; unsigned got = 0, refused = 0;
    for (int i = 0; i < 3; ++i) mine.push_back((int)memfd_create("m", 0));
    size_t n = R.range(2, 14);
    for (size_t i = 0; i < n || !Q.empty(); ++i) {
        auto before = fds();
        if (i < n && Q.size() < 6 && R.chance(1, 2)) {
            size_t k = R(8);
            if (k < 4) {
                int m = mine[R(mine.size())]; log("send %zu", (size_t)m);
                const char* inject = R.chance(1, 12) ? "sendmsg" : nullptr; inj.fail = inject;
                int bad = R.chance(1, 12) ? (R.chance(1, 2) ? -1 : 850) : m;
                status rc = psock_write_raw_descriptor(ww, bad);
                bool hit = inject && !inj.fail; inj.fail = nullptr;
                if (bad != m || hit) SEM(rc != STATUS_SUCCESS, "send_bad", "sending %s succeeded (%d)", hit ? "with a failing system call" : "a descriptor that is not open", bad);
                else { SEM(rc == STATUS_SUCCESS, "send_fails", "sending a descriptor failed 0x%x", rc); Q.push_back({0, "", {m}}); count("descriptors_sent"); }
            } else if (k < 6) {
                Val v = pv::make(R, 100); if (!pv::width(v.k) || pv::boxed(v.k)) { v.k = pv::RDATA; v.u = 0; v.s = std::string(1 + R(90), (char)R.next()); }
                OK(pv::write(ww, v), "write"); Q.push_back({1, pv::encode(v), {}}); log("data %zu", Q.back().data.size());
            } else if (k == 6) {
                std::vector<int> d; for (size_t j = R.range(2, 4); j; --j) d.push_back(mine[R(mine.size())]);
                raw_send(fd[0], std::string(1 + R(120), 'h'), d); Q.push_back({2, "", d}); log("several %zu", d.size());
            } else { std::string s(1 + R(200), 'q'); raw_send(fd[0], s, {}); Q.push_back({1, s, {}}); log("raw %zu", s.size()); }
            SEM(fds() == before, "sender_fds", "the sender's descriptors changed");
            continue;
        }
        if (Q.empty()) {
            if (R.chance(1, 3)) {       /* nothing there */
                fcntl(fd[1], F_SETFL, O_NONBLOCK); int d = 12345;
                status rc = psock_read_raw_descriptor(rr, &d); fcntl(fd[1], F_SETFL, 0);
                SEM(rc != STATUS_SUCCESS && (d == 12345 || d < 0), "read_nothing", "a descriptor was read where nothing was sent");
                SEM(fds() == before, "fds_nothing", "descriptors changed although nothing was sent");
            }
            continue;
        }
        Item it = Q.front();
        bool asdesc = it.kind != 1 || R.chance(1, 3);
        if (asdesc) {
            const char* inject = R.chance(1, 14) ? "recvmsg" : nullptr; inj.fail = inject;
            struct rlimit rl, sv; bool full = !inject && R.chance(1, 12); getrlimit(RLIMIT_NOFILE, &sv); rl = sv;
            if (full) { int lo = dup(0); close(lo); rl.rlim_cur = (rlim_t)lo; for (auto& k : before) if (k.first >= lo) full = false; if (full) setrlimit(RLIMIT_NOFILE, &rl); }
            int d = 777;
            status rc = psock_read_raw_descriptor(rr, &d);
            if (full) setrlimit(RLIMIT_NOFILE, &sv);
            bool hit = inject && !inj.fail; inj.fail = nullptr;
            if (!hit) Q.pop_front();
            auto now = fds();
            if (rc == STATUS_SUCCESS) {
                SEM(it.kind != 1, "no_descriptor", "a descriptor was read from a message of %zu bytes that carries none", it.data.size());
                SEM(!hit, "recv_error", "a descriptor was read although the system call failed");
                SEM(!before.count(d) && now.count(d), "not_new", "the descriptor returned (%d) is not a new open one", d);
                bool ok = false; for (int m : it.d) ok |= now[d] == before[m] && same_file(m, d);
                SEM(ok, "other_file", "the descriptor received does not refer to the open file that was sent");
                close(d); now.erase(d); ++got; count("descriptors_received");
            } else {
                SEM(it.kind != 0 || hit || full || creds, "read_desc_fails", "reading a descriptor that was sent failed 0x%x", rc);
                SEM(d == 777 || d < 0 || !now.count(d), "desc_on_failure", "a failing read returned descriptor %d", d);
                ++refused; count("reads_refused");
            }
            SEM(now == before, "fd_leak", "descriptors open after the read: %zu, expected %zu (message kind %d with %zu descriptors)", now.size(), before.size(), it.kind, it.d.size());
        } else {
            Q.pop_front();
            if (bR) {                   /* a buffered reader has its own ideas of message boundaries: only the bytes count */
                std::string o;
                while (o.size() < it.data.size()) { char d[300]; size_t z = sizeof d; OK(psock_read_raw(rr, d, &z), "read_raw"); o.append(d, z); }
                SEM(o == it.data, "data_bytes", "data between descriptors arrived changed");
            } else {
                char d[300]; size_t z = sizeof d; OK(psock_read_raw(rr, d, &z), "read_raw");
                SEM(std::string(d, z) == it.data, "data_bytes", "data between descriptors arrived as %zu bytes, sent %zu", z, it.data.size());
            }
            SEM(fds() == before, "fds_data", "descriptors changed by an ordinary read");
        }
    }
    if (bw) rel(bw);
    if (bR) rel(bR);
    rel(w); rel(r);
    for (int m : mine) close(m);
    A.expect_empty("descriptors"); expect_fds(f0, "descriptors");
    if (got || refused) nontrivial(log_hash());
}
static int new_fd(const std::map<int, std::string>& before) {
    int f = -1, k = 0; for (auto& e : fds()) if (!before.count(e.first)) { f = e.first; ++k; }
    return k == 1 ? f : -1;
}
/* what was received is as good as what was sent: for files, pipes, connections and listeners, over one or more hops, whatever the sender does with its own afterwards */
SCENARIO("C24 C01 C35", descriptors_used, 2) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    size_t kind = R(5), hops = R.range(1, 3);
    int own = -1, other = -1; struct sockaddr_in la = {};
    if (kind == 0) own = (int)memfd_create("f", 0);
    else if (kind == 1) { int p[2]; if (pipe(p)) inconclusive("pipe"); own = p[1]; other = p[0]; }
    else if (kind < 4) { int p[2]; pair_of(kind == 2 ? SOCK_STREAM : SOCK_DGRAM, p); own = p[0]; other = p[1]; }
    psock* s = nullptr;
    if (kind == 4) {
        la.sin_family = AF_INET; la.sin_addr.s_addr = htonl(INADDR_LOOPBACK); auto b = fds();
        OK(psock_create_from_listen_address(&s, A, (struct sockaddr*)&la, sizeof la), "listen"); own = new_fd(b); socklen_t sl = sizeof la; getsockname(own, (struct sockaddr*)&la, &sl);
    } else if (kind > 1 || R.chance(1, 2)) OK(psock_create_from_descriptor(&s, A, own), "create");
    std::string before(1 + R(60), 'b'), after(1 + R(60), 'a');
    auto put = [&](int f, const std::string& d) { if (__real_write(f, d.data(), d.size()) != (ssize_t)d.size()) fail("sem", "passed_write", "writing through the descriptor failed: %s", strerror(errno)); };
    if (kind != 4) { if (s) OK(psock_write_raw_data(s, before.data(), before.size()), "write"); else put(own, before); }
    log("kind=%zu hops=%zu", kind, hops);
    int cur = own; unsigned when = R(3);
    for (size_t h = 0; h < hops; ++h) {
        int fd[2]; pair_of(SOCK_DGRAM, fd); psock *w, *r; OK(psock_create_from_descriptor(&w, A, fd[0]), "create"); OK(psock_create_from_descriptor(&r, A, fd[1]), "create");
        OK(psock_write_raw_descriptor(w, cur), "send");
        if (R.chance(1, 2)) { rel(w); w = nullptr; }        /* it is on its way already */
        if (h == 0 && when == 0) { if (s) rel(s); else close(own); s = nullptr; own = -1; }
        else if (h > 0) { close(cur); }
        int d = -1; OK(psock_read_raw_descriptor(r, &d), "receive"); SEM(d >= 0, "passed", "no descriptor was received");
        rel(r); if (w) rel(w); cur = d; count("hops");
    }
    if (when == 1) { if (s) rel(s); else close(own); s = nullptr; own = -1; }
    if (kind == 4) {                                         /* it listens still */
        psock *l, *cn, *a; OK(psock_create_from_descriptor(&l, A, cur), "create"); cur = -1;
        auto b = fds(); status rc = psock_create_from_hostname_and_port(&cn, A, "127.0.0.1", ntohs(la.sin_port));
        SEM(rc == STATUS_SUCCESS, "passed_listener", "nobody listens any more on a passed listener (0x%x)", rc); int cfd = new_fd(b); linger0(cfd);
        struct sockaddr_in pa; socklen_t pl = sizeof pa; int d = -1; OK(psock_accept(l, &d, (struct sockaddr*)&pa, &pl), "accept"); linger0(d);
        OK(psock_create_from_descriptor(&a, A, d), "create"); uint32_t v = (uint32_t)R.next(), x = 0; OK(psock_write_raw_uint32(cn, v), "write"); OK(psock_read_raw_uint32(a, &x), "read"); SEM(x == v, "passed_listener", "another value arrived");
        rel(a); rel(cn); rel(l);
    } else {
        psock* p = nullptr; if (R.chance(1, 2) || s) OK(psock_create_from_descriptor(&p, A, cur), "create");
        if (p) OK(psock_write_raw_data(p, after.data(), after.size()), "write_passed"); else put(cur, after);
        std::string got(before.size() + after.size() + 8, 0); ssize_t n = 0;
        if (kind == 0) { lseek(cur, 0, SEEK_SET); n = __real_read(cur, &got[0], got.size()); }
        else if (kind == 3) { n = __real_read(other, &got[0], got.size()); SEM(n == (ssize_t)before.size(), "passed_data", "the first message is %zd bytes, not %zu", n, before.size()); n += __real_read(other, &got[(size_t)n], got.size() - (size_t)n); }
        else n = __real_read(other, &got[0], got.size());
        SEM(n == (ssize_t)(before.size() + after.size()) && got.substr(0, (size_t)n) == before + after, "passed_data", "%zd bytes arrived of %zu written before and after passing the descriptor", n, before.size() + after.size());
        if (kind == 2 || kind == 3) { put(other, after); std::string back(after.size(), 0); if (p) { void* b = nullptr; OK(psock_read_raw_data(p, A, &b, after.size()), "read_passed"); SEM(!memcmp(b, after.data(), after.size()), "passed_data", "what the peer wrote arrives changed"); OK(RCPR_SYM(allocator_reclaim)(A, b), "reclaim"); } else { SEM(__real_read(cur, &back[0], back.size()) == (ssize_t)after.size() && back == after, "passed_data", "what the peer wrote does not arrive"); } }
        if (p) rel(p); else close(cur);
    }
    if (own >= 0) { if (s) rel(s); else close(own); }
    if (other >= 0) close(other);
    A.expect_empty("passed"); expect_fds(f0, "passed"); nontrivial(mix(log_hash(), R.next()));
}
SCENARIO("C24 C01 C35", descriptors_unsupported, 1) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A;
    psock *w, *r; size_t kind = R(6); User U; log("unsupported %zu", kind);
    int fd[2], x = -1;
    if (kind == 2) pair_of(SOCK_SEQPACKET, fd); else if (kind == 3) { if (pipe(fd)) inconclusive("pipe"); std::swap(fd[0], fd[1]); } else pair_of(kind == 5 ? SOCK_DGRAM : SOCK_STREAM, fd);
    fcntl(fd[1], F_SETFL, O_NONBLOCK); int rf = fd[1];
    int m = (int)memfd_create("m", 0), d = 777;
    bool sent = kind == 0 && R.chance(1, 2);        /* one sent in another way: it stays where it is */
    if (sent) raw_send(fd[0], "x", {m});
    if (kind == 1) { OK(psock_create_from_buffer(&w, A, NULL, 0), "create"); x = fd[0]; }
    else if (kind >= 4) { OK(psock_create_from_user_methods(&w, A, &U, &user_vt), "create"); U.fd = fd[0]; x = fd[0]; }
    else OK(psock_create_from_descriptor(&w, A, fd[0]), "create");
    if (kind >= 4) { OK(psock_create_from_user_methods(&r, A, &U, &user_vt), "create"); }
    else { OK(psock_create_from_descriptor(&r, A, fd[1]), "create"); fd[1] = -1; }
    auto before = fds(); U.last = "";
    for (psock* s : {w, r}) SEM(psock_socket_type(s) != PSOCK_SOCKET_TYPE_DATAGRAM, "other_type", "a socket that is not a datagram socket says it is one");
    status rc = psock_write_raw_descriptor(w, m);
    SEM(rc != STATUS_SUCCESS, "unsupported_sent", "sending a descriptor over a socket that is not a datagram socket returned success");
    rc = psock_read_raw_descriptor(r, &d);
    SEM(rc != STATUS_SUCCESS, "unsupported_received", "a descriptor was read from a socket that is not a datagram socket");
    SEM(!*U.last, "unsupported_method", "a refused call reached the socket's %s method", U.last);
    SEM(fds() == before, "unsupported_fds", "descriptors changed");
    char z; if (kind != 3 && kind != 5) SEM(__real_recv(rf, &z, 1, MSG_DONTWAIT | MSG_PEEK) == (sent ? 1 : -1), "unsupported_data", "a refused call put data on the wire or took some off it");
    rel(w); rel(r); close(m); if (x >= 0) close(x); if (fd[1] >= 0) close(fd[1]);
    A.expect_empty("descriptors"); expect_fds(f0, "descriptors");
    log("%llx", (unsigned long long)R.next());
    nontrivial(log_hash());
}

/* ------------------------------------------------------- C25: listen and connect */
SCENARIO("C25 C01 C32 C35", listen_connect, 4) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    struct sockaddr_in la = {}; la.sin_family = AF_INET; la.sin_addr.s_addr = htonl(INADDR_LOOPBACK + (R.chance(1, 3) ? (uint32_t)R(200) : 0));
    psock* L = nullptr;
    status rc = psock_create_from_listen_address(&L, A, (struct sockaddr*)&la, sizeof la);
    SEM(rc == STATUS_SUCCESS && L, "listen_fails", "creating a listener on a free loopback port failed 0x%x", rc);
    int lfd = new_fd(f0); SEM(lfd >= 0, "listen_fd", "creating a listener did not open exactly one descriptor");
    socklen_t sl = sizeof la; getsockname(lfd, (struct sockaddr*)&la, &sl);
    SEM(psock_socket_type(L) == PSOCK_SOCKET_TYPE_STREAM, "listen_type", "a stream listener reports type %d", (int)psock_socket_type(L));
    char host[32]; inet_ntop(AF_INET, &la.sin_addr, host, sizeof host);
    unsigned port = ntohs(la.sin_port);
    struct Cl { int fd; psock* s; struct sockaddr_in me; psock* peer = nullptr; int pfd = -1; };
    std::vector<Cl> cl; size_t want = R.range(1, 6), acc = 0;
    psock_br* bl = nullptr; psock* LL = L;
    if (R.chance(1, 6)) { OK(psock_br_create_from_psock(&bl, A, L), "br"); LL = psock_br_psock_adapter(bl); }
    auto talk = [&](Cl& k) {
        for (int dir = 0; dir < 2; ++dir) {
            Val v = pv::make(R, 2000), got; got.k = v.k; got.u = 0;
            OK(pv::write(dir ? k.s : k.peer, v), "write");
            status rc = pv::read(dir ? k.peer : k.s, A, R, got, v.s.size());
            SEM(rc == STATUS_SUCCESS, "tcp_read", "reading a value over the connection failed 0x%x", rc);
            pv::same(v, got, "connection"); count("tcp_values");
        }
    };
    while (acc < want) {
        auto before = fds();
        if (cl.size() < want && (cl.size() == acc || R.chance(1, 2))) {
            Cl k; k.s = nullptr;
            const char* h = !strcmp(host, "127.0.0.1") && R.chance(1, 3) ? "localhost" : host;
            if (R.chance(1, 4)) {       /* from an address of its own */
                k.fd = socket(AF_INET, SOCK_STREAM, 0); linger0(k.fd);
                struct sockaddr_in b = {}; b.sin_family = AF_INET; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK + (uint32_t)R(250));
                if (__real_bind(k.fd, (struct sockaddr*)&b, sizeof b) || __real_connect(k.fd, (struct sockaddr*)&la, sizeof la)) inconclusive("connect");
                OK(psock_create_from_descriptor(&k.s, A, k.fd), "create");
            } else {
                rc = psock_create_from_hostname_and_port(&k.s, A, h, port);
                SEM(rc == STATUS_SUCCESS && k.s, "connect_fails", "connecting to a listener at %s failed 0x%x", h, rc);
                k.fd = new_fd(before); SEM(k.fd >= 0, "connect_fd", "connecting did not open exactly one descriptor"); linger0(k.fd);
                struct sockaddr_in p = {}; socklen_t pl = sizeof p;
                SEM(getpeername(k.fd, (struct sockaddr*)&p, &pl) == 0 && p.sin_port == la.sin_port && p.sin_addr.s_addr == la.sin_addr.s_addr, "connect_where", "the socket is connected to %08x:%u, asked for %s:%u", ntohl(p.sin_addr.s_addr), ntohs(p.sin_port), h, port);
            }
            SEM(psock_socket_type(k.s) == PSOCK_SOCKET_TYPE_STREAM, "connect_type", "a connected socket reports type %d", (int)psock_socket_type(k.s));
            memset(&k.me, 0, sizeof k.me); socklen_t ml = sizeof k.me; getsockname(k.fd, (struct sockaddr*)&k.me, &ml);
            cl.push_back(k); log("connect %s", h); count("connections");
            continue;
        }
        const char* inject = R.chance(1, 10) ? "accept" : nullptr; inj.fail = inject;
        struct sockaddr_in* pa = (struct sockaddr_in*)malloc(sizeof *pa); memset(pa, 0x11, sizeof *pa); socklen_t pl = sizeof *pa; int d = -5;
        rc = psock_accept(LL, &d, (struct sockaddr*)pa, &pl);
        bool hit = inject && !inj.fail; inj.fail = nullptr;
        if (hit) {
            SEM(rc != STATUS_SUCCESS && d == -5 && pl == sizeof *pa, "accept_error", "a failing accept reported 0x%x and descriptor %d", rc, d);
            SEM(fds() == before, "accept_fds", "a failing accept changed the open descriptors");
            free(pa); continue;
        }
        SEM(rc == STATUS_SUCCESS, "accept_fails", "accepting a waiting connection failed 0x%x", rc);
        SEM(new_fd(before) == d, "accept_fd", "accept returned %d, the new descriptor is %d", d, new_fd(before));
        int who = -1;
        for (size_t i = 0; i < cl.size(); ++i) if (!cl[i].peer && pa->sin_port == cl[i].me.sin_port && pa->sin_addr.s_addr == cl[i].me.sin_addr.s_addr) who = (int)i;
        SEM(who >= 0 && pl == sizeof *pa && pa->sin_family == AF_INET, "accept_who", "the address reported (%08x:%u, length %u) is of no waiting peer", ntohl(pa->sin_addr.s_addr), ntohs(pa->sin_port), pl);
        free(pa); linger0(d);
        Cl& k = cl[(size_t)who]; k.pfd = d;
        OK(psock_create_from_descriptor(&k.peer, A, d), "create");
        ++acc; log("accept %d", who); count("accepts");
        if (R.chance(1, 2)) talk(k);
    }
    for (auto& k : cl) if (R.chance(2, 3)) talk(k);
    if (R.chance(1, 8)) {               /* the peer comes, and speaks, later than it is waited for */
        auto before = fds(); struct Late { struct sockaddr_in a; uint64_t v; useconds_t w1, w2; int fd, go[2]; } lt = {la, R.next(), (useconds_t)R(1500), (useconds_t)R(1500), -1, {-1, -1}};
        if (pipe(lt.go)) inconclusive("pipe");
        int sd = socket(AF_INET, SOCK_STREAM, 0); lt.fd = sd; linger0(sd);
        pthread_t th; auto fn = [](void* x) -> void* {
            Late* l = (Late*)x; usleep(l->w1);
            if (__real_connect(l->fd, (struct sockaddr*)&l->a, sizeof l->a)) return x;
            char b; if (__real_read(l->go[0], &b, 1) != 1) return x;
            usleep(l->w2); uint64_t w = htobe64(l->v);
            return __real_write(l->fd, &w, 8) == 8 ? nullptr : x;
        };
        if (pthread_create(&th, nullptr, fn, &lt)) inconclusive("thread");
        auto b2 = fds(); struct sockaddr_in pa; socklen_t pl = sizeof pa; int d = -5; void* bad = nullptr;
        rc = psock_accept(LL, &d, (struct sockaddr*)&pa, &pl);
        if (rc != STATUS_SUCCESS) { if (__real_write(lt.go[1], "x", 1) != 1) {} pthread_join(th, &bad); }
        SEM(rc == STATUS_SUCCESS && d == new_fd(b2), "accept_waits", "accept returned 0x%x before its peer was there", rc);
        linger0(d); psock* p; OK(psock_create_from_descriptor(&p, A, d), "create"); uint64_t w = 0;
        if (__real_write(lt.go[1], "x", 1) != 1) inconclusive("pipe");
        rc = psock_read_raw_uint64(p, &w); pthread_join(th, &bad); if (bad) inconclusive("late peer");
        SEM(rc == STATUS_SUCCESS && w == lt.v, "late_read", "reading what the peer sent later gave 0x%x", rc);
        rel(p); close(sd); close(lt.go[0]); close(lt.go[1]); SEM(fds() == before, "late_fds", "descriptors were left open"); count("late_peers");
    }
    {                                   /* nobody else is there */
        fcntl(lfd, F_SETFL, O_NONBLOCK); struct sockaddr_in pa; socklen_t pl = sizeof pa; int d = -5;
        rc = psock_accept(LL, &d, (struct sockaddr*)&pa, &pl);
        SEM(rc != STATUS_SUCCESS && d == -5, "accept_twice", "a connection was accepted though every peer's has been");
    }
    /* a second listener on the same address */
    auto before = fds(); psock* L2 = (psock*)&L2;
    if (R.chance(1, 2)) {
        rc = psock_create_from_listen_address(&L2, A, (struct sockaddr*)&la, sizeof la);
        SEM(rc != STATUS_SUCCESS && !L2, "address_in_use", "a second listener on the same address was created (0x%x)", rc);
        SEM(fds() == before, "in_use_fds", "a failing creation left a descriptor open");
    }
    for (auto& k : cl) { if (R.chance(1, 2)) { rel(k.s); rel(k.peer); } else { rel(k.peer); rel(k.s); } }
    if (bl) rel(bl);
    rel(L);
    /* nobody listens on a port that is only reserved (the listener's own may already be somebody else's) */
    int dead = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in da = la; da.sin_port = 0; socklen_t dl = sizeof da;
    if (dead < 0 || __real_bind(dead, (struct sockaddr*)&da, sizeof da) || getsockname(dead, (struct sockaddr*)&da, &dl)) inconclusive("reserve a port");
    before = fds(); psock* N = (psock*)&N;
    rc = psock_create_from_hostname_and_port(&N, A, host, ntohs(da.sin_port));
    SEM(rc != STATUS_SUCCESS && !N, "refused", "connecting to an address nobody listens on gave 0x%x and %p", rc, (void*)N);
    SEM(fds() == before, "refused_fds", "a refused connection left a descriptor open");
    close(dead);
    A.expect_empty("tcp"); expect_fds(f0, "tcp");
    nontrivial(log_hash());
}
SCENARIO("C25 C02 C01 C35", connect_faults, 3) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    int l = __real_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (__real_bind(l, (struct sockaddr*)&sa, sizeof sa)) inconclusive("no loopback");
    bool listening = R.chance(1, 2); if (listening && __real_listen(l, 4)) inconclusive("listen");
    socklen_t sl = sizeof sa; getsockname(l, (struct sockaddr*)&sa, &sl);
    bool oom_only = prop_is("C02");
    static const char* F[] = {"socket", "bind", "listen", "connect", "oom", "none", "nohost", "six", "badaddr"};
    size_t f = oom_only ? 4 : R(9); bool lis = R.chance(1, 2);
    log("%s %s listening=%d", F[f], lis ? "listen" : "connect", listening);
    auto before = fds(); psock* s = (psock*)&s; status rc; bool must_fail = false;
    if (f < 4) { inj.fail = F[f]; inj.err = f == 3 ? ETIMEDOUT : EMFILE; }
    if (f == 4) A.arm(1);
    struct sockaddr_in any = {}; any.sin_family = AF_INET; any.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (lis) {
        if (f == 8) any.sin_addr.s_addr = htonl(0x08080808);
        rc = psock_create_from_listen_address(&s, A, (struct sockaddr*)&any, f == 8 && R.chance(1, 2) ? 3 : sizeof any);
        must_fail = f == 8 || f == 4 || (f < 3 && !inj.fail);
    } else {
        const char* h = f == 6 ? "nowhere.invalid" : f == 7 ? "six.invalid" : R.chance(1, 2) ? "localhost" : "127.0.0.1";
        rc = psock_create_from_hostname_and_port(&s, A, h, ntohs(sa.sin_port));
        must_fail = !listening || f == 6 || f == 7 || f == 4 || ((f == 0 || f == 3) && !inj.fail);
    }
    bool unhit = f < 4 && inj.fail; inj.fail = nullptr; inj.err = EIO;
    bool injected = f != 4 || A.injected;
    A.disarm();
    if (f == 4) must_fail = injected ? true : (!lis && !listening);
    (void)unhit;
    if (must_fail) {
        SEM(rc != STATUS_SUCCESS, "fault_success", "%s with %s failing succeeded", lis ? "listen" : "connect", F[f]);
        SEM(!s, "fault_pointer", "a failing creation (%s) left the socket pointer set", F[f]);
        SEM(fds() == before, (std::string("fault_fds@") + F[f]).c_str(), "a failing creation (%s) left a descriptor open", F[f]);
        A.expect_empty("fault"); count("creation_failures");
    } else {
        SEM(rc == STATUS_SUCCESS && s, "creation_fails", "%s failed 0x%x", lis ? "listen" : "connect", rc);
        int d = new_fd(before); if (d >= 0) linger0(d);
        rel(s); SEM(fds() == before, "release_fds", "releasing a socket left its descriptor open or closed another");
    }
    if (f == 4 && R.chance(1, 2)) {     /* works when memory is back */
        if (lis) OK(psock_create_from_listen_address(&s, A, (struct sockaddr*)&any, sizeof any), "retry");
        else if (listening) OK(psock_create_from_hostname_and_port(&s, A, "127.0.0.1", ntohs(sa.sin_port)), "retry"); else s = nullptr;
        if (s) { int d = new_fd(before); if (d >= 0) linger0(d); rel(s); }
    }
    close(l);
    A.expect_empty("fault"); expect_fds(f0, "fault");
    nontrivial(mix(log_hash(), c.n % 64));
}
/* peers of other address families: their names have other lengths, and the caller's room may be smaller or absent */
SCENARIO("C25 C34 C01 C35", accept_families, 2) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A; static unsigned serial;
    bool six = R.chance(1, 2);
    auto name = [&](struct sockaddr_un& u, size_t len) {
        memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; char t[40]; int k = snprintf(t, sizeof t, "rcpr-%d-%u-", (int)getpid(), ++serial);
        size_t n = std::max<size_t>((size_t)k, std::min<size_t>(len, sizeof u.sun_path - 1));
        for (size_t i = 0; i < n; ++i) u.sun_path[1 + i] = i < (size_t)k ? t[i] : (char)('a' + R(26));
        return (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + n);
    };
    int l = socket(six ? AF_INET6 : AF_UNIX, SOCK_STREAM, 0); if (l < 0) inconclusive("no such family");
    struct sockaddr_storage la; socklen_t ll; memset(&la, 0, sizeof la);
    if (six) { auto* a = (struct sockaddr_in6*)&la; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; ll = sizeof *a; }
    else ll = name(*(struct sockaddr_un*)&la, R(100));
    if (__real_bind(l, (struct sockaddr*)&la, ll) || __real_listen(l, 16)) { close(l); inconclusive("cannot listen there"); }
    if (six) { ll = sizeof la; getsockname(l, (struct sockaddr*)&la, &ll); }
    psock* s; psock_br* br = nullptr; OK(psock_create_from_descriptor(&s, A, l), "create");
    if (R.chance(1, 4)) OK(psock_br_create_from_psock(&br, A, s), "br");
    size_t n = R.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
        int cl = socket(six ? AF_INET6 : AF_UNIX, SOCK_STREAM, 0); if (six) linger0(cl);
        if (!six && R.chance(4, 5)) { struct sockaddr_un me; socklen_t ml = name(me, R(108)); if (__real_bind(cl, (struct sockaddr*)&me, ml)) inconclusive("bind"); }
        if (__real_connect(cl, (struct sockaddr*)&la, ll)) inconclusive("connect");
        struct sockaddr_storage me; socklen_t ml = sizeof me; getsockname(cl, (struct sockaddr*)&me, &ml);
        bool none = R.chance(1, 6); size_t room = R.chance(1, 2) ? sizeof me : R.range(1, 115);
        uint8_t* buf = (uint8_t*)malloc(room); memset(buf, 0x5a, room); socklen_t got = (socklen_t)room; int d = -4; auto before = fds();
        status rc = psock_accept(br ? psock_br_psock_adapter(br) : s, &d, none ? nullptr : (struct sockaddr*)buf, none ? nullptr : &got);
        SEM(rc == STATUS_SUCCESS && d == new_fd(before), "accept_fails", "accepting a peer of family %d returned 0x%x and descriptor %d", six ? AF_INET6 : AF_UNIX, rc, d);
        if (!none) {
            SEM(got == ml, "accept_who", "the peer's address is %u bytes long, %u were reported (room for %zu)", (unsigned)ml, (unsigned)got, room);
            size_t k = std::min<size_t>(room, ml);
            SEM(!memcmp(buf, &me, k), "accept_who", "the address reported is not the peer's (%zu of %u bytes asked for)", k, (unsigned)ml);
            for (size_t j = k; j < room; ++j) SEM(buf[j] == 0x5a, "accept_room", "byte %zu of the caller's room was written; the address has %zu", j, k);
        }
        psock* p; OK(psock_create_from_descriptor(&p, A, d), "create");
        uint8_t x = (uint8_t)R.next(), y = 0; OK(psock_write_raw_uint8(p, x), "write");
        SEM(__real_read(cl, &y, 1) == 1 && y == x, "accept_whose", "the connection handed out is not the waiting peer's");
        free(buf); close(cl); rel(p); log("peer %u", (unsigned)ml); count(six ? "peers_inet6" : "peers_unix");
    }
    if (br) rel(br);
    rel(s); A.expect_empty("families"); expect_fds(f0, "families"); nontrivial(log_hash());
}

/* IPv6, when the machine has it */
SCENARIO("C25", connect_six, 1) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    int l = __real_socket(AF_INET6, SOCK_STREAM, 0); if (l < 0) { nontrivial(1); return; }
    struct sockaddr_in6 sa = {}; sa.sin6_family = AF_INET6; sa.sin6_addr = in6addr_loopback;
    socklen_t sl = sizeof sa;
    if (__real_bind(l, (struct sockaddr*)&sa, sizeof sa) || __real_listen(l, 4) || getsockname(l, (struct sockaddr*)&sa, &sl)) { close(l); count("no_ipv6"); return; }
    psock* s; auto before = fds();
    OK(psock_create_from_hostname_and_port(&s, A, "six.invalid", ntohs(sa.sin6_port)), "connect6");
    int d = new_fd(before); linger0(d);
    int a = __real_accept(l, nullptr, nullptr); SEM(a >= 0, "six", "no connection arrived"); linger0(a);
    uint32_t v = (uint32_t)R.next(), w; OK(psock_write_raw_uint32(s, v), "write"); SEM(__real_read(a, &w, 4) == 4 && ntohl(w) == v, "six_data", "another value arrived");
    close(a); close(l); rel(s); A.expect_empty("six"); expect_fds(f0, "six"); nontrivial(c.n); count("ipv6");
}

/* ------------------------------------------------------- C33: user methods and options */
struct Script {                         /* what the next call of a user method is to do, and what it saw */
    Rng R{1};
    psock* handle = nullptr;            /* what the methods must be called with */
    std::string in, out; size_t pos = 0;
    unsigned fail_in = 0; status fail_code = 0;   /* the n-th call from now fails */
    bool pieces = false;                /* writes take only part of what they are given */
    bool no_zero = false;               /* ... but never nothing */
    bool short_reads = false;           /* blocking reads, too, deliver pieces */
    unsigned tiny = 0;                  /* ... of at most so many bytes */
    unsigned zero_at = 0;               /* the n-th write from now takes nothing */
    bool zeroed = false; unsigned after_zero = 0;
    status release_code = STATUS_SUCCESS;
    unsigned reads = 0, writes = 0, accepts = 0, opts = 0, releases = 0;
    bool last_block = false; size_t last_size = 0; void* last_ptr = nullptr;
    int desc = 0, level = 0, name = 0; socklen_t olen = 0; const void* optr = nullptr; struct sockaddr* addr = nullptr; socklen_t* alen = nullptr;
    bool pre(psock* s, status& rc) {
        SEM(s == handle, "method_socket", "a user method was called with another socket than its own");
        if (fail_in && --fail_in == 0) { rc = fail_code; count("method_failures"); return false; }
        return true;
    }
    unsigned calls() const { return reads + writes + accepts + opts + releases; }
};
static status sc_read(psock* s, void* x, void* d, size_t* n, bool block) {
    Script* S = (Script*)x; ++S->reads; S->last_block = block; S->last_size = *n; S->last_ptr = d; status rc;
    if (!S->pre(s, rc)) { *n = 0; return rc; }
    size_t k = S->in.size() - S->pos; if (k > *n) k = *n;
    if ((!block || S->short_reads) && k > 1) k = 1 + S->R(S->tiny && k > S->tiny ? S->tiny : S->R.chance(1, 2) && k > 9 ? 9 : k);
    if (k) memcpy(d, S->in.data() + S->pos, k);
    S->pos += k; *n = k; return STATUS_SUCCESS;
}
static status sc_write(psock* s, void* x, const void* d, size_t* n) {
    Script* S = (Script*)x; ++S->writes; S->last_size = *n; status rc;
    if (!S->pre(s, rc)) { *n = 0; return rc; }
    size_t k = *n;
    if (S->zeroed && ++S->after_zero > 1000) fail("sem", "zero_writes", "a write goes on forever although the socket takes nothing");
    if (S->zero_at && --S->zero_at == 0) { k = 0; S->zeroed = true; S->zero_at = 1; }
    else if (S->pieces && k) k = !S->no_zero && S->R.chance(1, 6) ? 0 : 1 + S->R(S->tiny && k > S->tiny ? S->tiny : S->R.chance(1, 2) && k > 9 ? 9 : k);
    S->out.append((const char*)d, k); *n = k; return STATUS_SUCCESS;
}
static status sc_accept(psock* s, void* x, int* desc, struct sockaddr* a, socklen_t* l) {
    Script* S = (Script*)x; ++S->accepts; S->addr = a; S->alen = l; status rc;
    if (!S->pre(s, rc)) return rc;
    *desc = S->desc; *l = 5; return STATUS_SUCCESS;
}
static status sc_opt(psock* s, void* x, int level, int name, const void* v, socklen_t l) {
    Script* S = (Script*)x; ++S->opts; S->level = level; S->name = name; S->optr = v; S->olen = l; status rc;
    return S->pre(s, rc) ? STATUS_SUCCESS : rc;
}
static status sc_release(psock* s, void* x) {
    Script* S = (Script*)x; ++S->releases;
    SEM(s == S->handle, "method_socket", "the user's release method was called with another socket");
    return S->release_code;
}
RCPR_VTABLE psock_vtable script_vt = {{nullptr}, &sc_read, &sc_write, &sc_accept, nullptr, nullptr, &sc_opt, &sc_release};
RCPR_VTABLE psock_vtable script_bare_vt = {{nullptr}, &sc_read, &sc_write, nullptr, nullptr, nullptr, &sc_opt, nullptr};

SCENARIO("C33 C01 C32 C35", user_methods, 4) {
    Rng& R = c.rng; Alloc A; Script S; S.R = Rng(R.next());
    bool bare = R.chance(1, 4); psock* s;
    OK(psock_create_from_user_methods(&s, A, &S, bare ? &script_bare_vt : &script_vt), "create");
    S.handle = s;
    SEM(psock_resource_handle_to_psock(psock_resource_handle(s)) == s, "handle_roundtrip", "a socket's resource handle does not lead back to it");
    SEM(psock_socket_type(s) == PSOCK_SOCKET_TYPE_OTHER, "user_type", "a user socket reports kind %d", (int)psock_socket_type(s));
    std::deque<Val> want;               /* values the next reads have to return */
    size_t n = R.range(3, 14), failed = 0;
    for (size_t i = 0; i < n; ++i) {
        unsigned before = S.calls(); status rc;
        bool fails = R.chance(1, 4); S.fail_in = 0; S.pieces = false;
        S.fail_code = (status)(0x7e000000 | (R.next() & 0xffff));
        if (fails) S.fail_in = 1;
        S.tiny = R.chance(1, 4) ? (unsigned)R.range(1, 4) : 0;
        switch (R(7)) {
        case 5: {                       /* a block delivered in as many pieces as the method likes */
            Val v; v.k = pv::RDATA; v.u = 0; v.s.resize(R.size(R.chance(1, 4) ? 5000 : 300)); for (auto& ch : v.s) ch = (char)R.next();
            S.fail_in = 0; std::string rest(R(3), 'z'); S.in = v.s + rest; S.pos = 0; S.short_reads = true;
            Val g; g.k = v.k; g.u = 0; rc = pv::read(s, A, R, g, v.s.size());
            SEM(rc == STATUS_SUCCESS, "read_pieces", "a block of %zu bytes delivered in pieces was not read: 0x%x after %zu bytes", v.s.size(), rc, S.pos);
            pv::same(v, g, "read in pieces"); SEM(S.pos == v.s.size(), "read_consumed", "a block of %zu bytes consumed %zu", v.s.size(), S.pos);
            S.in = v.s; S.pos = 0; g.s.clear();
            if (!v.s.empty()) { rc = pv::read(s, A, R, g, v.s.size() + 1 + R(9)); SEM(rc != STATUS_SUCCESS, "short_read", "a block read succeeded with bytes missing"); }
            S.in.clear(); S.pos = 0; S.short_reads = false; count("piecewise_reads"); fails = false; break; }
        case 6: {                       /* a block taken in as many pieces as the method likes; or not at all from some point */
            Val v; v.k = pv::RDATA; v.u = 0; v.s.resize(1 + R.size(R.chance(1, 4) ? 5000 : 300)); for (auto& ch : v.s) ch = (char)R.next();
            S.fail_in = 0; S.out.clear(); S.pieces = S.no_zero = true; S.zero_at = R.chance(1, 3) ? 1 + (unsigned)R(3) : 0; S.zeroed = false; S.after_zero = 0;
            if (S.zero_at == 1 && R.chance(1, 2)) { v = pv::make(R, 60); if (pv::encode(v).empty()) v.s = "x"; }
            std::string e = pv::encode(v); rc = pv::write(s, v);
            SEM(S.out.size() <= e.size() && !memcmp(S.out.data(), e.data(), S.out.size()), "write_prefix", "a %s write gave the method other bytes", pv::kname(v.k));
            if (S.zeroed) SEM(rc != STATUS_SUCCESS, "write_zero", "a %s write of %zu bytes returned 0x%x although the method took only %zu", pv::kname(v.k), e.size(), rc, S.out.size());
            else SEM(rc == STATUS_SUCCESS && S.out.size() == e.size(), "write_pieces", "a block of %zu bytes taken in pieces was not written: 0x%x after %zu bytes", e.size(), rc, S.out.size());
            S.pieces = S.no_zero = S.zeroed = false; S.zero_at = 0; count("piecewise_writes"); fails = false; break; }
        case 0: {                       /* raw read: one call, with the caller's buffer, not blocking */
            if (!want.empty()) { S.fail_in = 0; break; }
            std::string d(R.size(300) + 1, '\0'); for (auto& ch : d) ch = (char)R.next();
            if (R.chance(1, 6)) d.clear();
            S.in = d; S.pos = 0;
            std::vector<unsigned char> b(R.range(1, 400), 0xee); size_t sz = b.size();
            rc = psock_read_raw(s, b.data(), &sz);
            SEM(S.calls() == before + 1 && S.reads, "method_once", "a raw read made %u calls", S.calls() - before);
            SEM(S.last_ptr == b.data() && S.last_size == b.size() && !S.last_block, "method_args", "a raw read passed another buffer, size or mode to the method");
            if (fails) SEM(rc == S.fail_code, "method_status", "the method failed with 0x%x, the raw read returned 0x%x", S.fail_code, rc);
            else {
                SEM(rc == STATUS_SUCCESS, "read_raw", "raw read failed 0x%x", rc);
                SEM(sz == S.pos && !memcmp(b.data(), d.data(), sz), "read_raw_data", "the method delivered %zu bytes, the raw read reports %zu, or they differ", S.pos, sz);
            }
            S.in.clear(); S.pos = 0;
            break; }
        case 1: {                       /* typed read, possibly failing in any of its calls */
            Val v = pv::make(R, 200); std::string e = pv::encode(v);
            bool cut = !fails && R.chance(1, 4); if (cut) e.resize(R(e.size() + (e.empty() ? 1 : 0))); 
            if (cut && e.size() == pv::encode(v).size()) cut = false;
            S.in = e; S.pos = 0; if (fails) S.fail_in = (unsigned)R.range(1, 3);
            Val g; g.k = v.k; g.u = 0; size_t live = A.live.size();
            rc = pv::read(s, A, R, g, v.s.size());
            bool hit = fails && S.fail_in == 0;
            if (hit) { SEM(rc == S.fail_code, "method_status", "the method failed with 0x%x, the %s read returned 0x%x", S.fail_code, pv::kname(v.k), rc); SEM(A.live.size() == live, "method_leak", "a failing %s read left %zd blocks", pv::kname(v.k), (ssize_t)(A.live.size() - live)); ++failed; }
            else if (cut) SEM(rc != STATUS_SUCCESS, "short_read", "a %s read of a truncated value succeeded", pv::kname(v.k));
            else { SEM(rc == STATUS_SUCCESS, "read", "a %s read failed 0x%x", pv::kname(v.k), rc); pv::same(v, g, "read"); SEM(S.pos == e.size(), "read_consumed", "a %s read consumed %zu bytes of %zu", pv::kname(v.k), S.pos, e.size()); }
            S.in.clear(); S.pos = 0; S.fail_in = 0;
            break; }
        case 2: {                       /* write: complete, or reported */
            Val v = pv::make(R, 300); std::string e = pv::encode(v); S.out.clear();
            S.pieces = !fails && R.chance(1, 2); if (fails) S.fail_in = (unsigned)R.range(1, 3);
            rc = pv::write(s, v);
            bool hit = fails && S.fail_in == 0;
            SEM(S.out.size() <= e.size() && !memcmp(S.out.data(), e.data(), S.out.size()), "write_prefix", "a %s write gave the method other bytes", pv::kname(v.k));
            if (hit) { SEM(rc == S.fail_code, "method_status", "the method failed with 0x%x, the %s write returned 0x%x", S.fail_code, pv::kname(v.k), rc); ++failed; }
            else SEM((rc == STATUS_SUCCESS) == (S.out.size() == e.size()), "write_complete", "a %s write returned 0x%x after %zu of %zu bytes", pv::kname(v.k), rc, S.out.size(), e.size());
            if (!hit && rc != STATUS_SUCCESS) count("short_writes");
            S.pieces = false; S.fail_in = 0;
            break; }
        case 3: {                       /* accept */
            struct sockaddr_storage a; socklen_t l = sizeof a; int d = -7; S.desc = (int)R.range(3, 1000);
            rc = psock_accept(s, &d, (struct sockaddr*)&a, &l);
            if (bare) { SEM(rc != STATUS_SUCCESS && d == -7 && S.calls() == before, "undefined_accept", "accept without an accept method"); break; }
            SEM(S.calls() == before + 1, "method_once", "an accept made %u calls", S.calls() - before);
            SEM(S.addr == (struct sockaddr*)&a && S.alen == &l, "method_args", "an accept passed other pointers to the method");
            if (fails) SEM(rc == S.fail_code && d == -7, "method_status", "the method failed with 0x%x, the accept returned 0x%x", S.fail_code, rc);
            else SEM(rc == STATUS_SUCCESS && d == S.desc && l == 5, "accept_result", "the method accepted %d, the accept returned 0x%x and %d", S.desc, rc, d);
            break; }
        default: {                      /* option */
            int level = (int)R.range(0, 300), name = (int)R.range(0, 100); int v[4]; socklen_t l = (socklen_t)R.range(0, sizeof v);
            rc = psock_setsockopt(s, level, name, v, l);
            SEM(S.calls() == before + 1 && S.opts, "option_method", "an option set on a user socket made %u calls of its methods (status 0x%x)", S.calls() - before, rc);
            SEM(S.level == level && S.name == name && S.optr == v && S.olen == l, "option_args", "an option reached the user's method with other arguments");
            SEM(rc == (fails ? S.fail_code : STATUS_SUCCESS), "method_status", "the option method's status came back as 0x%x", rc);
            break; }
        }
        if (fails) ++failed;
    }
    S.fail_in = 0;
    if (R.chance(1, 3)) S.release_code = (status)(0x7e000000 | (R.next() & 0xffff));
    unsigned before = S.calls();
    status rc = resource_release(psock_resource_handle(s));
    if (bare) SEM(rc == STATUS_SUCCESS && S.calls() == before, "release", "release of a user socket without a release method: 0x%x", rc);
    else {
        SEM(S.releases == 1 && S.calls() == before + 1, "user_release", "the user's release method was called %u times", S.releases);
        SEM(rc == S.release_code, "method_status", "the user's release method returned 0x%x, release returned 0x%x", S.release_code, rc);
    }
    A.expect_empty("user_methods");
    log("n=%zu failed=%zu bare=%d calls=%u", n, failed, bare, S.calls());
    nontrivial(mix(log_hash(), R.next()));
}

SCENARIO("C33 C01 C32 C35", options, 2) {
    static const struct { int level, name; } opt[] = {
        {SOL_SOCKET, SO_KEEPALIVE}, {SOL_SOCKET, SO_REUSEADDR}, {SOL_SOCKET, SO_SNDBUF}, {SOL_SOCKET, SO_RCVBUF}, {SOL_SOCKET, SO_LINGER}, {SOL_SOCKET, SO_RCVTIMEO},
        {SOL_SOCKET, SO_RCVLOWAT}, {SOL_SOCKET, SO_OOBINLINE}, {SOL_SOCKET, SO_PASSCRED}, {IPPROTO_TCP, TCP_NODELAY}, {IPPROTO_TCP, TCP_KEEPIDLE}, {IPPROTO_IP, IP_TOS}, {IPPROTO_IP, IP_TTL},
        {SOL_SOCKET, SO_TYPE}, {SOL_SOCKET, 9999}, {7777, 1}, {IPPROTO_IP, IP_OPTIONS}, {IPPROTO_IP, MCAST_JOIN_GROUP}, {IPPROTO_TCP, TCP_CONGESTION}};
    const size_t N = sizeof opt / sizeof *opt;
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    int dom = R.chance(1, 2) ? AF_UNIX : AF_INET, type = R.chance(1, 2) ? SOCK_STREAM : SOCK_DGRAM;
    int fd = socket(dom, type, 0), twin = socket(dom, type, 0);         /* the twin gets the same options directly */
    if (fd < 0 || twin < 0) inconclusive("socket");
    psock* s; OK(psock_create_from_descriptor(&s, A, fd), "create");
    SEM(psock_resource_handle_to_psock(psock_resource_handle(s)) == s, "handle_roundtrip", "a socket's resource handle does not lead back to it");
    SEM(psock_socket_type(s) == (type == SOCK_STREAM ? PSOCK_SOCKET_TYPE_STREAM : PSOCK_SOCKET_TYPE_DATAGRAM), "option_type", "the socket reports kind %d", (int)psock_socket_type(s));
    size_t n = R.range(2, 10); unsigned ok = 0, refused = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t k = R(N); int v[40] = {(int)R(R.chance(1, 2) ? 2 : 5000), (int)R(50), 0, 0};
        if (opt[k].name == SO_RCVTIMEO && opt[k].level == SOL_SOCKET) { v[1] = 0; v[2] = (int)R(1000000); }
        socklen_t l = opt[k].name == SO_LINGER ? 8 : opt[k].name == SO_RCVTIMEO && opt[k].level == SOL_SOCKET ? 16 : R.chance(1, 8) ? (socklen_t)R(5) : 4;
        if (opt[k].level == IPPROTO_IP && opt[k].name == IP_OPTIONS) { l = (socklen_t)R(12) * 4; memset(v, 1, sizeof v); }      /* up to 40 bytes */
        if (opt[k].name == MCAST_JOIN_GROUP && opt[k].level == IPPROTO_IP) { struct group_req g = {}; g.gr_interface = 1; auto* ga = (struct sockaddr_in*)&g.gr_group; ga->sin_family = AF_INET; ga->sin_addr.s_addr = htonl(0xe8000000 + (uint32_t)R(4)); l = sizeof g - (R.chance(1, 4) ? 1 : 0); static_assert(sizeof g <= sizeof v, "room"); memcpy(v, &g, sizeof g); }
        if (opt[k].name == TCP_CONGESTION && opt[k].level == IPPROTO_TCP) { static const char* cc[] = {"cubic", "reno", "no-such-control", "cub"}; const char* w = cc[R(4)]; l = (socklen_t)strlen(w) + (R.chance(1, 2) ? 1 : 0); strcpy((char*)v, w); }
        log("%d/%d %d %u", opt[k].level, opt[k].name, v[0], l);
        status rc = psock_setsockopt(s, opt[k].level, opt[k].name, v, l);
        bool direct = setsockopt(twin, opt[k].level, opt[k].name, v, l) == 0;
        SEM((rc == STATUS_SUCCESS) == direct, "option_status", "option %d/%d: the system says %s, the library returned 0x%x", opt[k].level, opt[k].name, direct ? "ok" : "refused", rc);
        if (direct) ++ok; else ++refused;
        for (size_t j = 0; j < N; ++j) {                                /* and nothing else changed */
            int a[40] = {}, b[40] = {}; socklen_t la = sizeof a, lb = sizeof b;
            int ra = getsockopt(fd, opt[j].level, opt[j].name, a, &la), rb = getsockopt(twin, opt[j].level, opt[j].name, b, &lb);
            SEM(ra == rb && (ra || (la == lb && !memcmp(a, b, la))), "option_value", "after setting %d/%d, option %d/%d differs from that of a socket treated directly (%d, %d)", opt[k].level, opt[k].name, opt[j].level, opt[j].name, a[0], b[0]);
        }
    }
    psock* m; OK(psock_create_from_buffer(&m, A, "x", 1), "create"); int one = 1;
    SEM(psock_setsockopt(m, SOL_SOCKET, SO_KEEPALIVE, &one, sizeof one) != STATUS_SUCCESS, "option_buffer", "an option was set on a memory buffer");
    rel(m); rel(s); close(twin);
    A.expect_empty("options"); expect_fds(f0, "options");
    count("options_set", ok); count("options_refused", refused);
    nontrivial(log_hash());
}

/* ------------------------------------------------------- C34: system failures on descriptors */
SCENARIO("C34 C19 C24 C25 C01 C35", descriptor_errors, 4) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A;
    static const int E[] = {EAGAIN, EWOULDBLOCK, EIO, ECONNRESET, EPIPE, ENOMEM, EBADF, ENOBUFS, ETIMEDOUT, EINVAL, EPROTO, EMFILE, ECONNABORTED, ENOSPC, ENOTCONN, EHOSTUNREACH, EPERM, EFAULT, EFBIG, ENFILE};
    bool dgram = R.chance(1, 2), buffered = R.chance(1, 4);
    int fd[2]; pair_of(dgram ? SOCK_DGRAM : SOCK_STREAM, fd);
    int l = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un un = {}; un.sun_family = AF_UNIX;
    if (__real_bind(l, (struct sockaddr*)&un, sizeof(sa_family_t)) || __real_listen(l, 16)) inconclusive("no listener");   /* a name of the system's choosing */
    socklen_t ul = sizeof un; getsockname(l, (struct sockaddr*)&un, &ul);
    for (int i = 0; i < 2; ++i) fcntl(fd[i], F_SETFL, O_NONBLOCK);
    psock *w, *r, *ls, *rr, *ww; psock_br *bw = nullptr;
    OK(psock_create_from_descriptor(&w, A, fd[0]), "create"); OK(psock_create_from_descriptor(&r, A, fd[1]), "create"); OK(psock_create_from_descriptor(&ls, A, l), "create");
    ww = w; rr = r; if (buffered) { OK(psock_br_create_from_psock(&bw, A, w), "br"); ww = psock_br_psock_adapter(bw); }
    int m = (int)memfd_create("m", 0);
    std::deque<std::string> Q; size_t pending = 0; std::vector<int> clients;    /* Q: bytes on their way; "" is a descriptor */
    unsigned failed = 0;
    auto verdict = [&](status rc, bool hit, bool empty, status wb, const char* what) {
        bool block = hit ? inj.err == EAGAIN || inj.err == EWOULDBLOCK : empty;
        if (!hit && !empty) { SEM(rc == STATUS_SUCCESS, (std::string("fails@") + what).c_str(), "%s failed 0x%x though the system did not", what, rc); return true; }
        ++failed;
        SEM(rc != STATUS_SUCCESS, (std::string("error_lost@") + what).c_str(), "%s succeeded although the system refused (%s)", what, strerror(hit ? inj.err : EAGAIN));
        SEM((rc == wb) == block, (std::string("would_block@") + what).c_str(), "%s gave 0x%x when the system said: %s", what, rc, strerror(hit ? inj.err : EAGAIN));
        return false;
    };
    size_t n = R.range(4, 20);
    for (size_t i = 0; i < n; ++i) {
        bool want = R.chance(2, 5); inj.err = E[R.chance(1, 3) ? R(2) : R(20)];
        auto before = fds(); size_t k = R(6); log("%zu%s%d ", k, want ? "!" : "", want ? inj.err : 0);
        auto run = [&](const char* call, const std::function<status()>& f, bool& hit) { inj.fail = want ? call : nullptr; status rc = f(); hit = want && !inj.fail; inj.fail = nullptr; return rc; };
        bool hit;
        if (k == 0 && Q.size() < 8) {
            std::string d(1 + R(40), 0); for (auto& x : d) x = (char)R.next();
            status rc = run("write", [&] { return psock_write_raw_data(ww, d.data(), d.size()); }, hit);
            if (verdict(rc, hit, false, ERROR_PSOCK_WRITE_WOULD_BLOCK, "write")) Q.push_back(d);
        } else if (k == 1 && Q.size() < 8 && dgram) {
            status rc = run("sendmsg", [&] { return psock_write_raw_descriptor(ww, m); }, hit);
            if (verdict(rc, hit, false, ERROR_PSOCK_WRITE_WOULD_BLOCK, "write_descriptor")) Q.push_back("");
        } else if (k == 2 && (Q.empty() || !Q.front().empty())) {
            char b[64]; memset(b, 0x5a, sizeof b); size_t z = R.range(dgram ? 41 : 1, 60), asked = z; std::string all;
            status rc = run("read", [&] { return psock_read_raw(rr, b, &z); }, hit);
            if (verdict(rc, hit, Q.empty(), ERROR_PSOCK_READ_WOULD_BLOCK, "read")) {
                if (dgram) { all = Q.front(); Q.pop_front(); } else { for (auto& x : Q) all += x; Q.clear(); if (all.size() > asked) { Q.push_back(all.substr(asked)); all.resize(asked); } }
                SEM(std::string(b, z) == all, "data", "read %zu bytes where %zu were waiting after refused operations, or other ones", z, all.size());
            } else SEM(z == asked || z == 0, "size_out", "a refused read changed the size %zu to %zu", asked, z);
        } else if (k == 3 && dgram && (Q.empty() || Q.front().empty())) {
            int d = 777; status rc = run("recvmsg", [&] { return psock_read_raw_descriptor(rr, &d); }, hit);
            if (verdict(rc, hit, Q.empty(), ERROR_PSOCK_READ_WOULD_BLOCK, "read_descriptor")) { SEM(d >= 0 && same_file(m, d), "descriptor", "another file arrived"); close(d); Q.pop_front(); }
            else SEM(d == 777 || d == -1, "descriptor_out", "a refused read of a descriptor set %d", d);
        } else if (k == 4) {
            if (pending < 5 && R.chance(1, 2)) { int s = __real_socket(AF_UNIX, SOCK_STREAM, 0); if (__real_connect(s, (struct sockaddr*)&un, ul)) inconclusive("connect"); clients.push_back(s); before = fds(); ++pending; }
            int d = 777; struct sockaddr_un pa; socklen_t pl = sizeof pa;
            status rc = run("accept", [&] { return psock_accept(ls, &d, (struct sockaddr*)&pa, &pl); }, hit);
            if (verdict(rc, hit, pending == 0, ERROR_PSOCK_ACCEPT_WOULD_BLOCK, "accept")) { SEM(!before.count(d) && fds().count(d), "accept_fd", "accept handed out %d, which is not a new descriptor", d); close(d); --pending; }
            else SEM(d == 777 || d < 0, "accept_out", "a refused accept set %d", d);
        } else if (k == 5 && !dgram && R.chance(1, 6)) {       /* fill the socket */
            std::string big(3000000, 'x'); int sb = 4096; setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb);
            status rc = psock_write_raw_data(ww, big.data(), big.size());
            ++failed; SEM(rc == ERROR_PSOCK_WRITE_WOULD_BLOCK, "would_block@write", "writing 3 MB to a socket nobody reads gave 0x%x", rc);
            char b[4096]; size_t got = 0, exp = 0; ssize_t z; for (auto& x : Q) exp += x.size();
            bool same = true; std::string head; while ((z = __real_read(fd[1], b, sizeof b)) > 0) { for (ssize_t j = 0; j < z; ++j, ++got) { if (got < exp) head += b[j]; else same &= b[j] == 'x'; } }
            std::string want_head; for (auto& x : Q) want_head += x;
            SEM(same && head == want_head && got < exp + big.size(), "data", "other bytes arrived in the full socket"); Q.clear();
        }
        SEM(fds() == before, "fds", "an operation left a descriptor open or closed another");
    }
    for (int x : clients) close(x);
    if (bw) rel(bw);
    rel(w); rel(r); rel(ls); close(m);
    A.expect_empty("descriptor_errors"); expect_fds(f0, "descriptor_errors");
    count("refused_operations", failed);
    if (failed) nontrivial(log_hash());
}
/* descriptor zero is a descriptor like any other */
SCENARIO("C34 C25 C24 C01 C35", descriptor_zero, 1) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A; size_t what = R(5); log("zero %zu", what);
    int save = fcntl(0, F_DUPFD_CLOEXEC, 3); if (save < 0) inconclusive("descriptor 0 is not open");
    struct Restore { int s; ~Restore() { if (s > 0) { dup2(s, 0); close(s); } } } restore{save};
    struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa;
    auto open0 = [] { return fcntl(0, F_GETFD) >= 0; };
    if (what == 0) {
        close(0); psock* s; OK(psock_create_from_listen_address(&s, A, (struct sockaddr*)&sa, sizeof sa), "listen_zero");
        SEM(open0() && !getsockname(0, (struct sockaddr*)&sa, &sl), "zero", "the listening socket is not where it was expected");
        int cl = __real_socket(AF_INET, SOCK_STREAM, 0); linger0(cl); if (__real_connect(cl, (struct sockaddr*)&sa, sl)) inconclusive("connect");
        int d = -1; OK(psock_accept(s, &d, (struct sockaddr*)&sa, &sl), "accept"); close(d); close(cl);
        rel(s); SEM(!open0(), "zero_closed", "releasing the listening socket left descriptor 0 open");
    } else if (what == 1) {
        int l = __real_socket(AF_INET, SOCK_STREAM, 0); if (__real_bind(l, (struct sockaddr*)&sa, sizeof sa) || __real_listen(l, 4) || getsockname(l, (struct sockaddr*)&sa, &sl)) inconclusive("no loopback");
        psock* s; OK(psock_create_from_descriptor(&s, A, l), "create"); int cl = __real_socket(AF_INET, SOCK_STREAM, 0); linger0(cl);
        if (__real_connect(cl, (struct sockaddr*)&sa, sl)) inconclusive("connect");
        close(0); int d = -1; struct sockaddr_in pa; socklen_t pl = sizeof pa; OK(psock_accept(s, &d, (struct sockaddr*)&pa, &pl), "accept_zero");
        SEM(d == 0, "zero", "accept handed out %d, expected 0", d); psock* a; OK(psock_create_from_descriptor(&a, A, d), "create");
        SEM(psock_socket_type(a) == PSOCK_SOCKET_TYPE_STREAM, "zero_type", "the socket on descriptor 0 reports kind %d", (int)psock_socket_type(a));
        uint32_t v = (uint32_t)R.next(), x = 0; OK(psock_write_raw_uint32(a, v), "write"); SEM(__real_read(cl, &x, 4) == 4 && ntohl(x) == v, "zero_data", "another value arrived");
        linger0(0); rel(a); SEM(!open0(), "zero_closed", "releasing the socket left descriptor 0 open"); close(cl); rel(s);
    } else if (what == 2) {
        int l = __real_socket(AF_INET, SOCK_STREAM, 0); if (__real_bind(l, (struct sockaddr*)&sa, sizeof sa) || __real_listen(l, 4) || getsockname(l, (struct sockaddr*)&sa, &sl)) inconclusive("no loopback");
        close(0); psock* s; OK(psock_create_from_hostname_and_port(&s, A, "127.0.0.1", ntohs(sa.sin_port)), "connect_zero");
        SEM(open0(), "zero", "the connected socket is not where it was expected"); int a = __real_accept(l, nullptr, nullptr);
        uint32_t v = (uint32_t)R.next(), x = 0; OK(psock_write_raw_uint32(s, v), "write"); SEM(__real_read(a, &x, 4) == 4 && ntohl(x) == v, "zero_data", "another value arrived");
        linger0(0); rel(s); SEM(!open0(), "zero_closed", "releasing the socket left descriptor 0 open"); close(a); close(l);
    } else {
        int fd[2]; pair_of(SOCK_DGRAM, fd); psock *w, *r; OK(psock_create_from_descriptor(&w, A, fd[0]), "create"); OK(psock_create_from_descriptor(&r, A, fd[1]), "create");
        int m = (int)memfd_create("m", 0);
        if (what == 3) {                /* received as descriptor 0 */
            OK(psock_write_raw_descriptor(w, m), "send"); close(0); int d = -1; OK(psock_read_raw_descriptor(r, &d), "receive_zero");
            SEM(d == 0 && same_file(m, 0), "zero", "the descriptor received is %d, expected 0", d); close(0);
        } else {                        /* sent as descriptor 0 */
            dup2(m, 0); int d = -1; OK(psock_write_raw_descriptor(w, 0), "send_zero"); OK(psock_read_raw_descriptor(r, &d), "receive");
            SEM(d > 0 && same_file(m, d), "zero", "descriptor 0 arrived as something else"); close(d); SEM(open0() && same_file(m, 0), "zero_closed", "sending descriptor 0 closed it");
        }
        rel(w); rel(r); close(m);
    }
    A.expect_empty("descriptor_zero");
    dup2(save, 0); close(save); restore.s = 0; expect_fds(f0, "descriptor_zero");
    nontrivial(mix(log_hash(), c.n % 64));
}

/* ------------------------------------------------------- C02: allocation failures */
SCENARIO("C02 C01 C35", psock_oom, 5) {
    Rng& R = c.rng; Quiet q; auto f0 = fds(); Alloc A, O;               /* O: the caller's data */
    size_t op = R(7); unsigned k = (unsigned)R.range(1, 4); bool pers = R.chance(1, 4);
    log("op=%zu k=%u p=%d", op, k, pers);
    int fd[2]; pair_of(SOCK_STREAM, fd); psock *s = nullptr, *t = nullptr; psock_br* br = nullptr; User U;
    auto ctor = [&](const char* what, auto make, void** out) {
        size_t live = A.live.size(); *out = (void*)out;
        A.arm(k, pers); status rc = make(); uint64_t in = A.injected; A.disarm();
        if (in) {
            SEM(rc != STATUS_SUCCESS, (std::string("oom_success@") + what).c_str(), "%s succeeded although allocation %u failed", what, k);
            SEM(*out == nullptr, (std::string("oom_pointer@") + what).c_str(), "%s failed and left its output pointer set", what);
            SEM(A.live.size() == live, (std::string("oom_leak@") + what).c_str(), "%s failed and left %zu blocks", what, A.live.size() - live);
            SEM(fcntl(fd[0], F_GETFD) >= 0, (std::string("oom_fd@") + what).c_str(), "%s failed and closed the caller's descriptor", what);
            SEM(U.released == 0, (std::string("oom_user@") + what).c_str(), "%s failed and released the caller's context", what);
            count("oom_observed"); nontrivial(mix(log_hash(), std::hash<std::string>()(what)));
            rc = make();
        }
        SEM(rc == STATUS_SUCCESS, (std::string("oom_retry@") + what).c_str(), "%s fails 0x%x with memory available", what, rc);
    };
    if (op == 0) { ctor("create_from_descriptor", [&] { return psock_create_from_descriptor(&s, A, fd[0]); }, (void**)&s); fd[0] = -1; }
    else if (op == 1) ctor("create_from_buffer", [&] { return psock_create_from_buffer(&s, A, "0123456789", 10); }, (void**)&s);
    else if (op == 2) ctor("create_output_buffer", [&] { return psock_create_from_buffer(&s, A, NULL, 0); }, (void**)&s);
    else if (op == 3) ctor("create_from_user_methods", [&] { return psock_create_from_user_methods(&s, A, &U, &user_vt); }, (void**)&s);
    else if (op == 4) {
        OK(psock_create_from_user_methods(&s, A, &U, &user_vt), "create");
        ctor("br_create", [&] { return psock_br_create_from_psock(&br, A, s); }, (void**)&br);
    } else if (op == 5) {               /* reads that allocate */
        Val v; do v = pv::make(R, 300); while (pv::width(v.k));
        OK(psock_create_from_buffer(&s, A, pv::encode(v).data(), pv::encode(v).size()), "create");
        Val g; g.k = v.k; g.u = 0;
        O.arm(k, pers); status rc = pv::read(s, O, R, g, v.s.size()); uint64_t in = O.injected; O.disarm();
        if (in) { SEM(rc != STATUS_SUCCESS, "oom_success@read", "a %s read succeeded although memory ran out", pv::kname(v.k)); count("oom_observed"); nontrivial(log_hash()); }
        else { SEM(rc == STATUS_SUCCESS, "read", "a %s read failed 0x%x", pv::kname(v.k), rc); pv::same(v, g, "read"); }
    } else {                            /* output buffer growth and extraction */
        OK(psock_create_from_buffer(&s, A, NULL, 0), "create");
        std::string w; unsigned seen = 0;
        for (int i = 0; i < 6; ++i) {
            std::string d; d.resize(R.size(7000)); for (auto& ch : d) ch = (char)R.next();
            size_t live = A.live.size();
            if (R.chance(1, 2)) A.arm(k, pers);
            status rc = psock_write_raw_data(s, d.data(), d.size()); uint64_t in = A.injected; A.disarm(); A.injected = 0;
            if (in) {
                SEM(rc != STATUS_SUCCESS, "oom_success@write", "a write of %zu bytes succeeded although memory ran out", d.size());
                SEM(A.live.size() == live, "oom_leak@write", "a failing write left %zd blocks", (ssize_t)(A.live.size() - live));
                ++seen; count("oom_observed");
                if (R.chance(1, 2)) { OK(psock_write_raw_data(s, d.data(), d.size()), "oom_retry@write"); w += d; }
            } else { SEM(rc == STATUS_SUCCESS, "write", "a write of %zu failed 0x%x", d.size(), rc); w += d; }
            void* o = &w; size_t on = 99;
            O.arm(1); rc = psock_from_buffer_get_output_buffer(s, O, &o, &on); in = O.injected; O.disarm();
            if (in) { SEM(rc != STATUS_SUCCESS && o == &w && on == 99, "oom_extract", "a failing extraction reported 0x%x or changed the caller's variables", rc); ++seen; }
            OK(in ? psock_from_buffer_get_output_buffer(s, O, &o, &on) : STATUS_SUCCESS, "oom_retry@extract");
            SEM(on == w.size() && (!on || !memcmp(o, w.data(), on)), "oom_contents", "after a failing write the collected bytes are %zu, expected %zu, or differ", on, w.size());
            O.give(o);
        }
        if (seen) nontrivial(log_hash());
    }
    (void)t;
    if (br) rel(br);
    if (s) rel(s);
    if (fd[0] >= 0) close(fd[0]);
    close(fd[1]);
    A.expect_empty("psock_oom"); O.expect_empty("psock_oom"); expect_fds(f0, "psock_oom");
}
