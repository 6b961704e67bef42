/* C18: byte order and descriptor utilities. Every descriptor operation runs in a
 * forked child whose whole descriptor table is compared with a model. */
#include "mon.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <rcpr/socket_utilities.h>
RCPR_IMPORT_socket_utilities;
using namespace mon;

typedef std::map<int, std::string> Tab;
static void expect_table(const Tab& want, const char* op) {
    Tab now = fds();
    for (auto& k : want) {
        auto i = now.find(k.first);
        SEM(i != now.end(), (std::string("fd_closed@") + op).c_str(), "%s: descriptor %d should be open on %s and is closed", op, k.first, k.second.c_str());
        SEM(i->second == k.second, (std::string("fd_wrong@") + op).c_str(), "%s: descriptor %d refers to %s, expected %s", op, k.first, i->second.c_str(), k.second.c_str());
    }
    for (auto& k : now)
        SEM(want.count(k.first), (std::string("fd_extra@") + op).c_str(), "%s: descriptor %d (%s) is open and should not be", op, k.first, k.second.c_str());
}
/* on kernels and sandboxes without close_range the library has to do it one by one */
static bool g_no_close_range;
extern "C" long __real_syscall(long, long, long, long, long, long, long);
extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
#ifdef SYS_close_range
    if (n == SYS_close_range && g_no_close_range) { errno = ENOSYS; return -1; }
#endif
    return __real_syscall(n, a, b, c, d, e, f);
}
/* these calls prepare descriptors for a program started next, so they must survive exec */
static void expect_inherited(const char* op) {
    for (auto& k : fds()) SEM(!(fcntl(k.first, F_GETFD) & FD_CLOEXEC), (std::string("fd_cloexec@") + op).c_str(), "%s: descriptor %d would be closed by exec", op, k.first);
}
/* a fresh open file, distinguishable from every other one, at exactly this number */
static void put(int at) {
    int f = (int)memfd_create("x", 0);
    if (f < 0) { perror("memfd"); _exit(6); }
    if (f != at) { if (dup2(f, at) < 0) { perror("dup2"); _exit(6); } close(f); }
}
static int pick(Rng& R, const Tab& t, const std::set<int>& no) {
    std::vector<int> v; for (auto& k : t) if (!no.count(k.first)) v.push_back(k.first);
    return v.empty() ? -1 : v[R(v.size())];
}
static void populate(Rng& R, int hi) {
    size_t n = R.range(3, 14);
    /* start from a table holding nothing of the runner's */
    for (auto& k : fds()) if (k.first > 2) close(k.first);
    for (int s = 0; s < 3; ++s) { if (R.chance(1, 8)) close(s); else put(s); }
    for (size_t i = 0; i < n; ++i) put((int)R.range(3, (uint64_t)hi));
    if (R.chance(1, 3)) { int b = (int)R.range(3, 20); for (int i = 0; i < (int)R.range(2, 6); ++i) put(b + i); }
}

SCENARIO("C18 C01", fd_move, 3) {
    uint64_t seed = c.rng.next();
    in_child([&] {
        Rng R(seed);
        populate(R, 40);
        Tab t = fds();
        size_t n = R.chance(1, 6) ? R.range(6, 40) : R.range(1, 5);
        if (n > 5) { for (size_t i = 0; i < n; ++i) put((int)R.range(3, 120)); t = fds(); }
        std::vector<int> d; std::set<int> used;
        for (size_t i = 0; i < n; ++i) { int f = pick(R, t, used); if (f < 0) break; used.insert(f); d.push_back(f); }
        n = d.size(); if (!n) return;
        int thr = R.chance(1, 2) ? (int)R.range(0, 45) : R.chance(1, 2) ? d[R(n)] + (int)R(3) - 1 : 50;
        if (thr < 0) thr = 0;
        int bad = R.chance(1, 8) ? (int)R(n) : -1, badv = -1;
        std::vector<std::string> id; for (int f : d) id.push_back(t[f]);
        if (bad >= 0) { badv = R.chance(1, 2) ? -1 : 900; d[(size_t)bad] = badv; }
        bool badthr = R.chance(1, 20); if (badthr) thr = -1;
        log("move thr=%d", thr); for (int f : d) log("%d", f);
        std::vector<int> o = d;
        status rc;
        switch (n) {
            case 1: rc = socket_utility_move_descriptors(thr, &d[0], NULL); break;
            case 2: rc = socket_utility_move_descriptors(thr, &d[0], &d[1], NULL); break;
            case 3: rc = RCPR_SYM(socket_utility_move_descriptors)(thr, &d[0], &d[1], &d[2], NULL); break;
            case 4: rc = RCPR_SYM(socket_utility_move_descriptors)(thr, &d[0], &d[1], &d[2], &d[3], NULL); break;
            case 5: rc = socket_utility_move_descriptors(thr, &d[0], &d[1], &d[2], &d[3], &d[4], NULL); break;
            default: {
#define D(i) ((i) < n ? &d[i] : (int*)nullptr)
#define D8(i) D(i), D(i + 1), D(i + 2), D(i + 3), D(i + 4), D(i + 5), D(i + 6), D(i + 7)
                rc = socket_utility_move_descriptors(thr, D8(0), D8(8), D8(16), D8(24), D8(32), (int*)NULL);
            }
        }
        Tab want = t;
        size_t moved = badthr ? 0 : bad >= 0 ? (size_t)bad : n;
        if (badthr || bad >= 0) SEM(rc != STATUS_SUCCESS, "move_accepts", "moving %s succeeded", badthr ? "to a negative threshold" : "a descriptor that is not open");
        else SEM(rc == STATUS_SUCCESS, "move_fails", "moving %zu descriptors to %d and above failed 0x%x", n, thr, rc);
        std::set<int> seen;
        for (size_t i = 0; i < n; ++i) {
            if (i >= moved) { SEM(d[i] == o[i], "move_touches", "a descriptor variable was changed although it was not moved"); continue; }
            SEM(d[i] >= thr, "move_below", "descriptor moved to %d, below the threshold %d", d[i], thr);
            SEM(seen.insert(d[i]).second, "move_same", "two descriptors were given the same number %d", d[i]);
            if (d[i] != o[i]) want.erase(o[i]);
        }
        for (size_t i = 0; i < moved; ++i) want[d[i]] = id[i];
        expect_table(want, "move_descriptors");
        expect_inherited("move_descriptors");
        count("moved", moved);
    }, "move_descriptors");
    nontrivial(log_hash());
}

SCENARIO("C18 C01", fd_set, 3) {
    uint64_t seed = c.rng.next();
    in_child([&] {
        Rng R(seed);
        populate(R, 40);
        Tab t = fds();
        size_t n = R.chance(1, 6) ? R.range(6, 40) : R.range(1, 5);
        if (n > 5) { for (size_t i = 0; i < n; ++i) put((int)R.range(3, 120)); t = fds(); }
        int top = n > 5 ? 160 : 45;
        std::vector<int> s, d; std::set<int> used, tgt;
        for (size_t i = 0; i < n; ++i) {
            int f = pick(R, t, used); if (f < 0) break;
            if (tgt.count(f)) continue;                     /* the documentation asks for sources out of the targets' way */
            int g = R.chance(1, 4) ? f : R.chance(1, 5) && !s.empty() ? s[R(s.size())] : (int)R.range(0, (uint64_t)top);
            if (tgt.count(g)) continue;
            used.insert(f); tgt.insert(g); s.push_back(f); d.push_back(g);
        }
        /* drop pairs that overwrite a source still to come */
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = i + 1; j < s.size(); ++j)
                if (d[i] == s[j]) { s.erase(s.begin() + j); d.erase(d.begin() + j); --j; }
        n = s.size(); if (!n) return;
        int bad = R.chance(1, 8) ? (int)R(n) : -1;
        bool neg = bad >= 0 && R.chance(1, 2);
        if (bad >= 0) { if (neg) d[(size_t)bad] = -1; else s[(size_t)bad] = 900; }
        log("set"); for (size_t i = 0; i < n; ++i) log("%d>%d", s[i], d[i]);
        status rc;
        switch (n) {
            case 1: rc = socket_utility_setfds(s[0], d[0], -1); break;
            case 2: rc = socket_utility_setfds(s[0], d[0], s[1], d[1], -1); break;
            case 3: rc = RCPR_SYM(socket_utility_setfds)(s[0], d[0], s[1], d[1], s[2], d[2], -1); break;
            case 4: rc = RCPR_SYM(socket_utility_setfds)(s[0], d[0], s[1], d[1], s[2], d[2], s[3], d[3], -1); break;
            case 5: rc = socket_utility_setfds(s[0], d[0], s[1], d[1], s[2], d[2], s[3], d[3], s[4], d[4], -1); break;
            default: {
#define F(i) ((i) < n ? s[i] : -1), ((i) < n ? d[i] : -1)
#define F8(i) F(i), F(i + 1), F(i + 2), F(i + 3), F(i + 4), F(i + 5), F(i + 6), F(i + 7)
                rc = socket_utility_setfds(F8(0), F8(8), F8(16), F8(24), F8(32), -1);
            }
        }
        Tab want = t;
        size_t done = bad >= 0 ? (size_t)bad : n;
        for (size_t i = 0; i < done; ++i) { std::string v = want[s[i]]; want.erase(s[i]); want[d[i]] = v; }
        if (bad >= 0) SEM(rc != STATUS_SUCCESS, "set_accepts", "mapping %s succeeded", neg ? "onto a negative number" : "a descriptor that is not open");
        else SEM(rc == STATUS_SUCCESS, "set_fails", "mapping %zu descriptors failed 0x%x", n, rc);
        expect_table(want, "setfds");
        expect_inherited("setfds");
        count("mapped", done);
    }, "setfds");
    nontrivial(log_hash());
}

SCENARIO("C18 C01", fd_close, 2) {
    uint64_t seed = c.rng.next();
    in_child([&] {
        Rng R(seed);
        populate(R, 60);
        struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
        if (rl.rlim_cur < rl.rlim_max && R.chance(1, 2)) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
        for (int i = 0; i < 3; ++i) if (R.chance(1, 3)) {
            int at = R.chance(1, 3) ? (1 << R.range(10, 16)) + (int)R(3) - 1 : (int)R.range(900, 1200);
            if ((rlim_t)at < rl.rlim_cur) put(at);
        }
        Tab t = fds(), want;
        if (R.chance(1, 3)) {
            log("std");
            OK(socket_utility_close_standard_fds(), "close_standard");
            for (auto& k : t) if (k.first > 2) want.insert(k);
            expect_table(want, "close_standard_fds");
        } else {
            int f = R.chance(1, 4) ? (int)R.range(0, 3) : R.chance(1, 2) ? pick(R, t, {}) + (int)R(3) - 1 : (int)R.range(0, 1100);
            if (f < 0) f = 0;
            g_no_close_range = R.chance(1, 4);
            log("close > %d %d", f, g_no_close_range);
            OK(socket_utility_close_other_fds(f), "close_other");
            for (auto& k : t) if (k.first <= f) want.insert(k);
            expect_table(want, "close_other_fds");
        }
        count("closed", t.size() - want.size());
    }, "closing descriptors");
    nontrivial(log_hash());
}

SCENARIO("C18 C01", fd_nonblock, 1) {
    uint64_t seed = c.rng.next();
    in_child([&] {
        Rng R(seed);
        populate(R, 40);
        for (auto& k : fds()) { int fl = 0; if (R.chance(1, 3)) fl |= O_APPEND; if (R.chance(1, 4)) fl |= O_NONBLOCK; fcntl(k.first, F_SETFL, fl); if (R.chance(1, 3)) fcntl(k.first, F_SETFD, FD_CLOEXEC); }
        Tab t = fds(); std::map<int, std::pair<int, int>> fl;
        for (auto& k : t) fl[k.first] = {fcntl(k.first, F_GETFL), fcntl(k.first, F_GETFD)};
        int f = R.chance(1, 8) ? (R.chance(1, 2) ? -1 : 901) : pick(R, t, {});
        log("nonblock %d", f);
        status rc = socket_utility_set_nonblock(f);
        if (!t.count(f)) SEM(rc != STATUS_SUCCESS, "nonblock_accepts", "a descriptor that is not open was accepted");
        else SEM(rc == STATUS_SUCCESS, "nonblock_fails", "failed 0x%x", rc);
        for (auto& k : t) {
            int want = fl[k.first].first | (k.first == f ? O_NONBLOCK : 0);
            SEM(fcntl(k.first, F_GETFL) == want, "nonblock_flags", "flags of descriptor %d are 0%o, expected 0%o", k.first, fcntl(k.first, F_GETFL), want);
            SEM(fcntl(k.first, F_GETFD) == fl[k.first].second, "nonblock_fdflags", "descriptor flags of %d changed", k.first);
        }
        expect_table(t, "set_nonblock");
    }, "set_nonblock");
    nontrivial(log_hash());
}

SCENARIO("C18 C01", fd_pair, 1) {
    uint64_t seed = c.rng.next();
    in_child([&] {
        Rng R(seed);
        populate(R, 12);
        Tab t = fds();
        int type = R.chance(1, 2) ? SOCK_STREAM : R.chance(1, 3) ? SOCK_SEQPACKET : SOCK_DGRAM, flags = R.chance(1, 3) ? SOCK_NONBLOCK : 0, cloexec = R.chance(1, 3) ? SOCK_CLOEXEC : 0;
        int proto = R.chance(1, 3) ? PF_UNIX : 0;
        unsigned how = (unsigned)R(4);
        log("pair type %d flags %d how %u", type, flags, how);
        int l = -7, r = -7; status rc;
        if (how == 0) {
            rc = socket_utility_socketpair(AF_INET, type, 0, &l, &r);
            SEM(rc != STATUS_SUCCESS, "pair_accepts", "a socket pair in an unsupported domain was created");
            expect_table(t, "socketpair"); return;
        }
        if (how == 1) {
            /* room for one more descriptor only */
            int free_ = 0; while (t.count(free_)) ++free_;
            struct rlimit o, n; getrlimit(RLIMIT_NOFILE, &o); n = o; n.rlim_cur = (rlim_t)free_ + 1; setrlimit(RLIMIT_NOFILE, &n);
            rc = socket_utility_socketpair(AF_UNIX, type, proto, &l, &r);
            setrlimit(RLIMIT_NOFILE, &o);
            SEM(rc != STATUS_SUCCESS, "pair_accepts", "socket pair created without room for it");
            expect_table(t, "socketpair"); return;
        }
        rc = socket_utility_socketpair(AF_UNIX, type | flags | cloexec, proto, &l, &r);
        SEM(rc == STATUS_SUCCESS, "pair_fails", "0x%x", rc);
        SEM(l >= 0 && r >= 0 && l != r, "pair_fds", "descriptors %d %d", l, r);
        for (int f : {l, r}) {
            int ty = 0; socklen_t n = sizeof ty; getsockopt(f, SOL_SOCKET, SO_TYPE, &ty, &n);
            SEM(ty == type, "pair_type", "socket type %d, expected %d", ty, type);
            SEM(!!(fcntl(f, F_GETFL) & O_NONBLOCK) == !!flags, "pair_flags", "blocking mode differs from the one requested");
            SEM(!!(fcntl(f, F_GETFD) & FD_CLOEXEC) == !!cloexec, "pair_flags", "close-on-exec differs from what was requested");
        }
        for (int dir = 0; dir < 2; ++dir) {
            uint64_t v = R.next(), w = 0; int a = dir ? r : l, b = dir ? l : r;
            struct pollfd p = {b, POLLIN, 0};
            SEM(write(a, &v, 8) == 8 && poll(&p, 1, 1000) == 1 && read(b, &w, 8) == 8 && v == w, "pair_data", "bytes do not cross the pair");
        }
        Tab want = t; want[l] = fd_identity(l); want[r] = fd_identity(r);
        expect_table(want, "socketpair");
        count("pairs");
    }, "socketpair");
    nontrivial(log_hash());
}

template <class T, class H, class N> static void order(T v, H hton, N ntoh, const char* w) {
    T n = hton(v); const unsigned char* p = (const unsigned char*)&n;
    for (size_t i = 0; i < sizeof(T); ++i)
        SEM(p[i] == (unsigned char)((uint64_t)v >> (8 * (sizeof(T) - 1 - i))), "byte_order", "%s(0x%llx) is not big-endian at byte %zu", w, (unsigned long long)v, i);
    SEM(ntoh(n) == v, "byte_order_inverse", "%s does not invert for 0x%llx", w, (unsigned long long)v);
    SEM(hton(ntoh(v)) == v, "byte_order_inverse", "%s does not invert for 0x%llx", w, (unsigned long long)v);
    count("conversions");
}
SCENARIO("C18 C01", byte_order, 1) {
    /* every 16-bit value over the cases, and 32/64-bit ones with each bit and byte exercised */
    for (unsigned i = 0; i < 256; ++i) order<int16_t>((int16_t)(c.n * 256 + i), socket_utility_hton16, socket_utility_ntoh16, "hton16");
    for (unsigned i = 0; i < 64; ++i) {
        uint64_t v = c.rng.next() >> (c.rng.chance(1, 2) ? c.rng(64) : 0);
        if (i < 32) v = (uint64_t)1 << ((i + c.n * 32) % 64);
        order<int64_t>((int64_t)v, socket_utility_hton64, socket_utility_ntoh64, "hton64");
        order<int32_t>((int32_t)v, socket_utility_hton32, socket_utility_ntoh32, "hton32");
        order<int32_t>((int32_t)(v >> 32), socket_utility_hton32, socket_utility_ntoh32, "hton32");
    }
    nontrivial(mix(c.n, 5));
}
