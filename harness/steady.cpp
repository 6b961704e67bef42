/* C37: what a long-lived program holds does not grow. Each case keeps some objects for its whole life and repeats the same
   cycle of operations on them, a cycle that ends in the state it began in; what is held after many cycles is compared with
   what was held after few. Anything kept per cycle shows, and memory kept once, or a cache of bounded size, does not. */
#include "mon.h"
#include <functional>
#include <memory>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <unistd.h>
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_condition; RCPR_IMPORT_message; RCPR_IMPORT_fiber;
RCPR_IMPORT_thread; RCPR_IMPORT_uuid; RCPR_IMPORT_auto_reset_trigger;
#include "psockval.h"
using namespace mon;
typedef RCPR_SYM(resource) resource_t;
typedef RCPR_SYM(fiber) Fiber;
typedef RCPR_SYM(rcpr_uuid) Uuid;

namespace {
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
size_t heap() { return 0; }
#endif
struct Held { size_t blocks, bytes, maps, fds, mapped; };
Held held(Alloc& A) { return {A.live.size(), A.bytes(), mapped_count(), fds().size(), mapped_bytes()}; }
/* cycle(i) is given a generator that yields the same numbers every time */
void repeat(Ctx& c, const char* what, Alloc& A, const std::function<void(Rng&)>& cycle, size_t n) {
    uint64_t seed = c.rng.next(); bool vary = c.rng.chance(1, 4);
    auto go = [&](size_t k) { while (k-- > 0) { Rng r(seed + (vary ? k % 4 : 0)); cycle(r); } };
    log("%s n=%zu vary=%d", what, n, vary);
    go(4); go(n); Held a = held(A); go(3 * n); Held b = held(A);
    std::string w = what;
    SEM(b.blocks < a.blocks + n, ("grows_blocks@" + w).c_str(), "%zu cycles that end as they began left %zd blocks more (%zu before)", 3 * n, (ssize_t)(b.blocks - a.blocks), a.blocks);
    SEM(b.bytes < a.bytes + 4 * n, ("grows_bytes@" + w).c_str(), "%zu cycles that end as they began left %zd bytes more (%zu before)", 3 * n, (ssize_t)(b.bytes - a.bytes), a.bytes);
    SEM(b.maps < a.maps + n, ("grows_mapped@" + w).c_str(), "%zu cycles that end as they began left %zd mappings more", 3 * n, (ssize_t)(b.maps - a.maps));
    SEM(b.mapped < a.mapped + 4096 * n, ("grows_mapped@" + w).c_str(), "%zu cycles that end as they began left %zd mapped bytes more", 3 * n, (ssize_t)(b.mapped - a.mapped));
    SEM(b.fds < a.fds + n, ("grows_fds@" + w).c_str(), "%zu cycles that end as they began left %zd descriptors more", 3 * n, (ssize_t)(b.fds - a.fds));
    count("cycles", 4 * n + 4); maxof("held_blocks", b.blocks); maxof("held_bytes", b.bytes);
    nontrivial(mix(seed, mix(n, a.bytes)));
}
RCPR_SYM(rcpr_comparison_result) cmp(void*, const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* key_of(void*, const resource_t* r) { return &((Res*)r)->key; }

/* a scheduler whose main fiber can wait for a number of fibers to end */
struct FW {
    Alloc& A; RCPR_SYM(fiber_scheduler)* s = nullptr; RCPR_SYM(fiber_scheduler_discipline) *cd = nullptr, *md = nullptr;
    struct Body { FW* w; std::function<status(Fiber*)> fn; Fiber* f; bool done; };
    std::vector<std::unique_ptr<Body>> now; size_t alive = 0;
    static status entry(void* p) { Body* b = (Body*)p; status rc = b->fn(b->f); b->fn = nullptr; b->done = true; --b->w->alive; return rc; }
    explicit FW(Alloc& a) : A(a) { OK(fiber_scheduler_create_with_disciplines(&s, A), "scheduler"); OK(condition_discipline_get_or_create(&cd, A, s), "conditions"); OK(message_discipline_get_or_create(&md, A, s), "messages"); }
    Body* make(std::function<status(Fiber*)> fn) {
        now.push_back(std::make_unique<Body>()); Body* b = now.back().get(); *b = {this, std::move(fn), nullptr, false};
        OK(fiber_create(&b->f, A, s, 131072, b, &entry), "fiber_create"); return b;
    }
    Body* add(std::function<status(Fiber*)> fn) { Body* b = make(std::move(fn)); start(b); return b; }
    void start(Body* b) { ++alive; OK(fiber_scheduler_add(s, b->f), "add"); }
    void join() {
        while (alive > 0) { const Uuid* u; int ev; void* p; OK(disciplined_fiber_scheduler_receive_management_event(s, &u, &ev, &p), "management"); }
        for (auto& b : now) { OK(disciplined_fiber_scheduler_remove_fiber(s, b->f), "remove"); OK(resource_release(RCPR_SYM(fiber_resource_handle)(b->f)), "fiber_release"); }
        now.clear();
    }
    void down() { OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s)), "scheduler_release"); }
};
const status INTR = 0x7A02;
status interrupted(void*, Fiber*, const Uuid*, int, void*, const Uuid*, int) { return INTR; }
void close_all(std::initializer_list<psock*> v) { for (auto* p : v) if (p) OK(resource_release(psock_resource_handle(p)), "psock_release"); }
psock* from_fd(Alloc& A, int fd) { psock* p; OK(psock_create_from_descriptor(&p, A, fd), "create_from_descriptor"); return p; }
psock* wrap(Alloc& A, Fiber* f, int fd) { psock* r; OK(psock_create_wrap_async(&r, A, f, from_fd(A, fd)), "create_wrap_async"); return r; }
void pair_of(int fd[2], int type = SOCK_STREAM) { if (socketpair(AF_UNIX, type, 0, fd)) inconclusive("socketpair"); }
void values(Rng& r, std::vector<pv::Val>& v, size_t max) { for (size_t k = r.range(1, 6); k-- > 0;) v.push_back(pv::make(r, max)); }
void read_all(Alloc& A, Rng& r, psock* p, const std::vector<pv::Val>& v) { for (auto& x : v) { pv::Val g; g.k = x.k; g.u = 0; OK(pv::read(p, A, r, g, x.s.size()), "read"); pv::same(x, g, "steady"); } }
}

/* ------------------------------------------------------------ containers */
SCENARIO("C37 C01", steady_containers, 4) {
    Rng& R = c.rng; Alloc A; ResPool P; size_t kind = R(4), base = R(6), n = R.range(8, 30);
    std::vector<Res*> spare; auto res = [&](uint64_t key) { Res* r; if (spare.empty()) r = P.make(); else { r = spare.back(); spare.pop_back(); } r->key = key; r->released = 0; r->hook = [&](Res* x) { spare.push_back(x); }; return r; };
    auto drop = [&](resource_t* r) { OK(resource_release(r), "release"); };
    if (kind == 0) {
        RCPR_SYM(list) *l, *o; OK(list_create(&l, A), "create"); OK(list_create(&o, A), "create"); for (size_t i = 0; i < base; ++i) OK(list_append_tail(o, res(i)->h()), "append");
        repeat(c, "list", A, [&](Rng& r) {
            for (size_t i = r(12); i-- > 0;) switch (r(6)) {
                case 0: OK(list_insert_head(l, res(i)->h()), "append"); break;
                case 1: { RCPR_SYM(list_node)* t = nullptr; OK(list_tail(&t, l), "tail"); if (t) OK(list_insert(t, res(i)->h()), "insert"); break; }
                case 2: { if (!list_count(l)) break; resource_t* x; OK(list_pop(l, &x), "pop"); drop(x); break; }
                case 3: { RCPR_SYM(list_node)* t = nullptr; OK(list_head(&t, l), "head"); if (t) OK(list_append(t, res(i)->h()), "append"); break; }
                default: OK(list_append_tail(l, res(i)->h()), "append"); break;
            }
            if (r.chance(1, 2)) { list_swap(l, o); list_swap(l, o); }
            if (r.chance(1, 3)) { RCPR_SYM(list)* t; OK(list_create(&t, A), "create"); list_swap(t, l); OK(resource_release(list_resource_handle(t)), "release"); }
            if (r.chance(1, 2)) OK(list_clear(l), "clear"); else while (list_count(l)) { resource_t* x; OK(list_pop(l, &x), "pop"); drop(x); }
        }, n);
        OK(resource_release(list_resource_handle(l)), "release"); OK(resource_release(list_resource_handle(o)), "release");
    } else if (kind == 1) {
        RCPR_SYM(slist)* l; OK(slist_create(&l, A), "create"); for (size_t i = 0; i < base; ++i) OK(slist_append_tail(l, res(i)->h()), "append");
        repeat(c, "slist", A, [&](Rng& r) {
            size_t m = r(12); for (size_t i = 0; i < m; ++i) if (r.chance(1, 2)) OK(slist_insert_head(l, res(i)->h()), "append"); else OK(slist_append_tail(l, res(i)->h()), "append");
            if (m > 2 && r.chance(1, 2)) { RCPR_SYM(slist_node)* h; OK(slist_head(&h, l), "head"); resource_t* x; OK(slist_node_next_pop(h, &x), "next_pop"); drop(x); --m; }
            if (base == 0 && r.chance(1, 2)) OK(slist_clear(l), "clear"); else while (m-- > 0) { resource_t* x; OK(slist_pop(l, &x), "pop"); drop(x); }
        }, n);
        OK(resource_release(slist_resource_handle(l)), "release");
    } else if (kind == 2) {
        RCPR_SYM(queue)* q; OK(queue_create(&q, A), "create"); for (size_t i = 0; i < base; ++i) OK(queue_append(q, res(i)->h()), "append");
        repeat(c, "queue", A, [&](Rng& r) {
            size_t m = r(12), in = m; while (m > 0 || in > 0) if (in > 0 && (m == 0 || r.chance(1, 2))) { OK(queue_append(q, res(in)->h()), "append"); --in; } else if (queue_count(q)) { resource_t* x; OK(queue_pop(q, &x), "pop"); drop(x); --m; } else if (!in) break;
        }, n);
        OK(resource_release(queue_resource_handle(q)), "release");
    } else {
        RCPR_SYM(rbtree)*t, *o; OK(rbtree_create(&t, A, &cmp, &key_of, nullptr), "create"); OK(rbtree_create(&o, A, &cmp, &key_of, nullptr), "create");
        for (size_t i = 0; i < base; ++i) OK(rbtree_insert(t, res(1000 + i * 7)->h()), "insert");
        repeat(c, "tree", A, [&](Rng& r) {
            std::vector<uint64_t> k; for (size_t i = r(20); i-- > 0;) { k.push_back(i * 131 % 97 + (i & 1) * 2000); OK(rbtree_insert(t, res(k.back())->h()), "insert"); }
            if (r.chance(1, 3)) { rbtree_swap(t, o); rbtree_swap(o, t); }
            if (base == 0 && r.chance(1, 2)) OK(rbtree_clear(t), "clear");
            else while (!k.empty()) { size_t i = r(k.size()); uint64_t key = k[i]; k.erase(k.begin() + (long)i); resource_t* x = nullptr; if (r.chance(1, 2)) { OK(rbtree_delete(&x, t, &key), "delete"); drop(x); } else OK(rbtree_delete(nullptr, t, &key), "delete"); }
        }, n);
        OK(resource_release(rbtree_resource_handle(t)), "release"); OK(resource_release(rbtree_resource_handle(o)), "release");
    }
    A.expect_empty("steady_containers");
}

/* ------------------------------------------------------------ fibers, messages, conditions */
SCENARIO("C37 C01", steady_fibers, 6) {
    Rng& R = c.rng; Alloc A; ResPool P; size_t n = R.range(4, 10), kind = R(6);
    std::vector<Res*> spare; auto res = [&]() { Res* r; if (spare.empty()) r = P.make(); else { r = spare.back(); spare.pop_back(); } r->released = 0; r->hook = [&](Res* x) { spare.push_back(x); }; return r; };
    { FW w(A); RCPR_SYM(mailbox_address) keep; OK(mailbox_create(&keep, w.md), "mailbox"); RCPR_SYM(conditional) gate; OK(conditional_create(&gate, w.cd), "conditional");
    auto take = [&](RCPR_SYM(mailbox_address) a, bool own) { RCPR_SYM(message)* m; OK(message_receive(a, &m, w.md), "receive"); resource_t* x = message_payload(m, own); OK(resource_release(message_resource_handle(m)), "message_release"); if (own && x) OK(resource_release(x), "release"); };
    auto put = [&](RCPR_SYM(mailbox_address) a) { RCPR_SYM(message)* m; OK(message_create(&m, A, keep, res()->h()), "message_create"); OK(message_send(a, m, w.md), "send"); };
    if (kind == 0) repeat(c, "fibers", A, [&](Rng& r) { for (size_t k = r.range(1, 5); k-- > 0;) w.add([&](Fiber*) { OK(conditional_notify_one(gate, w.cd), "yield"); return STATUS_SUCCESS; }); w.join(); }, n);
    else if (kind == 1) repeat(c, "mailboxes", A, [&](Rng& r) {
        RCPR_SYM(mailbox_address) a; OK(mailbox_create(&a, w.md), "mailbox"); size_t k = r(8), left = r(k + 1);
        for (size_t i = 0; i < k; ++i) put(a); for (size_t i = left; i < k; ++i) take(a, r.chance(1, 2));
        OK(mailbox_close(a, w.md), "close");
        RCPR_SYM(message)* m; OK(message_create(&m, A, keep, res()->h()), "message_create"); SEM(message_send(a, m, w.md) != STATUS_SUCCESS, "closed_send", "a message was sent to a closed mailbox"); OK(resource_release(message_resource_handle(m)), "release"); }, n);
    else if (kind == 2) repeat(c, "messages", A, [&](Rng& r) {
        size_t k = r.range(1, 8); bool first = r.chance(1, 2), own = r.chance(1, 2);
        auto rx = [&, k, own](Fiber*) { for (size_t i = 0; i < k; ++i) take(keep, own); return STATUS_SUCCESS; }; auto tx = [&, k](Fiber*) { for (size_t i = 0; i < k; ++i) put(keep); return STATUS_SUCCESS; };
        if (first) { w.add(rx); w.add(tx); } else { w.add(tx); w.add(rx); } w.join(); }, n);
    else if (kind == 3) repeat(c, "conditions", A, [&](Rng& r) {
        RCPR_SYM(conditional) h = gate; bool own = r.chance(1, 2), all = r.chance(1, 2); if (own) OK(conditional_create(&h, w.cd), "conditional"); size_t k = r.range(1, 5), rounds = r.range(1, 3); size_t* waiting = new size_t(0);
        for (size_t i = 0; i < k; ++i) w.add([&w, h, rounds, waiting](Fiber*) { for (size_t j = 0; j < rounds; ++j) { ++*waiting; OK(conditional_wait(h, w.cd), "wait"); } return STATUS_SUCCESS; });
        w.add([&w, h, k, rounds, all, waiting](Fiber*) { for (size_t j = 0; j < rounds; ++j) { for (int g = 0; *waiting < k; ++g) { SEM(g < 1000, "waiters_lost", "%zu of %zu fibers came to wait", *waiting, k); Uuid dummy; (void)dummy; RCPR_SYM(conditional) y; OK(conditional_create(&y, w.cd), "conditional"); OK(conditional_notify_one(y, w.cd), "yield"); OK(conditional_close(y, w.cd), "close"); }
            *waiting = 0; if (all) OK(conditional_notify_all(h, w.cd), "notify_all"); else for (size_t i = 0; i < k; ++i) OK(conditional_notify_one(h, w.cd), "notify_one"); } return STATUS_SUCCESS; });
        w.join(); delete waiting; if (own) OK(conditional_close(h, w.cd), "close"); }, n);
    else if (kind == 4) repeat(c, "interrupted", A, [&](Rng& r) {      /* waits that a request ends leave nothing behind */
        size_t k = r.range(1, 4); bool mail = r.chance(1, 2), term = r.chance(1, 2); auto parked = std::make_shared<bool>(false);
        auto* b = w.make([&, k, mail, parked](Fiber*) { for (size_t i = 0; i < k; ++i) { status rc; *parked = true; if (mail) { RCPR_SYM(message)* m; rc = message_receive(keep, &m, w.md); } else rc = conditional_wait(gate, w.cd);
            SEM(rc != STATUS_SUCCESS, "interrupted", "an interrupted wait returned success"); } return STATUS_SUCCESS; });
        OK(fiber_unexpected_event_callback_add(b->f, &interrupted, nullptr), "unexpected"); w.start(b);
        w.add([&, k, b, term, parked](Fiber*) { for (size_t i = 0; i < k; ++i) { for (int g = 0; !*parked; ++g) { SEM(g < 1000, "never_waits", "the fiber never waits"); RCPR_SYM(conditional) y; OK(conditional_create(&y, w.cd), "conditional"); OK(conditional_notify_one(y, w.cd), "yield"); OK(conditional_close(y, w.cd), "close"); }
            *parked = false; if (term) OK(disciplined_fiber_scheduler_send_terminate_request_to_fiber(w.s, b->f), "request"); else OK(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w.s, b->f), "request"); } return STATUS_SUCCESS; });
        w.join(); }, n);
    else repeat(c, "disciplines", A, [&](Rng& r) {
        RCPR_SYM(fiber_scheduler_discipline)* d; for (size_t i = r.range(1, 4); i-- > 0;) { if (r.chance(1, 2)) { OK(message_discipline_get_or_create(&d, A, w.s), "messages"); SEM(d == w.md, "another_discipline", "another message discipline"); } else { OK(condition_discipline_get_or_create(&d, A, w.s), "conditions"); SEM(d == w.cd, "another_discipline", "another condition discipline"); } } }, n);
    w.down(); }
    A.expect_empty("steady_fibers"); SEM(mapped_count() == 0, "mapped", "stacks are still mapped");
}

/* ------------------------------------------------------------ sockets */
SCENARIO("C37 C01", steady_async, 5) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A; size_t n = R.range(4, 8), kind = R(4);
    { FW w(A);
    if (kind == 0) {            /* the same two sockets all along, read and written by fibers that come and go */
        int fd[2]; pair_of(fd); Fiber* me; OK(disciplined_fiber_scheduler_main_fiber_get(&me, w.s), "main_fiber"); psock *x = wrap(A, me, fd[0]), *y = wrap(A, me, fd[1]);
        repeat(c, "async_values", A, [&](Rng& r) {
            auto v = std::make_shared<std::vector<pv::Val>>(); values(r, *v, r.chance(1, 3) ? 30000 : 500); uint64_t s = r.next();
            auto rd = [&, v, s](Fiber*) { Rng q(s); read_all(A, q, y, *v); OK(psock_write_raw_uint8(y, 1), "answer"); return STATUS_SUCCESS; }; auto wr = [&, v](Fiber*) { for (auto& e : *v) OK(pv::write(x, e), "write"); uint8_t b; OK(psock_read_raw_uint8(x, &b), "answer"); return STATUS_SUCCESS; };
            if (r.chance(1, 2)) { w.add(rd); w.add(wr); } else { w.add(wr); w.add(rd); } w.join(); }, n);
        close_all({x, y});
    } else if (kind == 1) repeat(c, "async_sockets", A, [&](Rng& r) {      /* sockets that come and go with the fibers */
        int fd[2]; pair_of(fd); auto v = std::make_shared<std::vector<pv::Val>>(); values(r, *v, 2000); uint64_t s = r.next(); bool br = r.chance(1, 2), early = r.chance(1, 4);
        auto* a = w.make([&, v, fd1 = fd[0]](Fiber* f) { psock* x = wrap(A, f, fd1); for (auto& e : *v) OK(pv::write(x, e), "write"); close_all({x}); return STATUS_SUCCESS; });
        auto* b = w.make([&, v, s, br, early, fd1 = fd[1]](Fiber* f) { Rng q(s); psock* y = wrap(A, f, fd1); psock_br* t = nullptr; if (br) OK(psock_br_create_from_psock(&t, A, y), "br");
            psock* p = br ? psock_br_psock_adapter(t) : y; read_all(A, q, p, *v); if (!early) { uint8_t e; SEM(psock_read_raw_uint8(p, &e) != STATUS_SUCCESS, "past_end", "a value was read past the end"); }
            if (t) OK(resource_release(psock_br_resource_handle(t)), "br_release"); close_all({y}); return STATUS_SUCCESS; });
        if (r.chance(1, 2)) { w.start(a); w.start(b); } else { w.start(b); w.start(a); } w.join(); }, n);
    else if (kind == 2) {       /* a server */
        struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa;
        int l = socket(AF_INET, SOCK_STREAM, 0); if (l < 0 || bind(l, (struct sockaddr*)&sa, sl) || listen(l, 8) || getsockname(l, (struct sockaddr*)&sa, &sl)) inconclusive("listener");
        Fiber* me; OK(disciplined_fiber_scheduler_main_fiber_get(&me, w.s), "main_fiber"); psock* lp = wrap(A, me, l); uint16_t port = ntohs(sa.sin_port);
        repeat(c, "async_server", A, [&](Rng& r) {
            uint32_t v = (uint32_t)r.next(); bool late = r.chance(1, 2);
            auto srv = [&](Fiber* f) { int d = -1; struct sockaddr_in from; socklen_t fl = sizeof from; OK(psock_accept(lp, &d, (struct sockaddr*)&from, &fl), "accept"); struct linger li = {1, 0}; setsockopt(d, SOL_SOCKET, SO_LINGER, &li, sizeof li);
                psock* p = wrap(A, f, d); uint32_t g = 0; OK(psock_read_boxed_uint32(p, &g), "read"); OK(psock_write_boxed_uint32(p, g), "write"); uint8_t e; SEM(psock_read_raw_uint8(p, &e) != STATUS_SUCCESS, "past_end", "a value was read past the end"); close_all({p}); return STATUS_SUCCESS; };
            auto cli = [&, v](Fiber* f) { psock *p, *q; OK(psock_create_from_hostname_and_port(&p, A, "127.0.0.1", port), "connect"); OK(psock_create_wrap_async(&q, A, f, p), "wrap"); OK(psock_write_boxed_uint32(q, v), "write"); uint32_t g = 0; OK(psock_read_boxed_uint32(q, &g), "read"); SEM(g == v, "value", "another value came back"); close_all({q}); return STATUS_SUCCESS; };
            if (late) { w.add(cli); w.add(srv); } else { w.add(srv); w.add(cli); } w.join(); }, n);
        close_all({lp});
    } else {                    /* descriptors passed over asynchronous sockets */
        int fd[2]; pair_of(fd, SOCK_DGRAM); Fiber* me; OK(disciplined_fiber_scheduler_main_fiber_get(&me, w.s), "main_fiber"); psock *x = wrap(A, me, fd[0]), *y = wrap(A, me, fd[1]);
        repeat(c, "async_descriptors", A, [&](Rng& r) {
            size_t k = r.range(1, 6); bool early = r.chance(1, 2);
            auto rx = [&, k](Fiber*) { for (size_t i = 0; i < k; ++i) { int d = -1; OK(psock_read_raw_descriptor(y, &d), "receive"); SEM(fcntl(d, F_GETFD) >= 0, "descriptor", "descriptor %d is not open", d); close(d); } return STATUS_SUCCESS; };
            auto tx = [&, k](Fiber*) { for (size_t i = 0; i < k; ++i) { int m = (int)memfd_create("m", 0); OK(psock_write_raw_descriptor(x, m), "send"); close(m); } return STATUS_SUCCESS; };
            if (early) { w.add(rx); w.add(tx); } else { w.add(tx); w.add(rx); } w.join(); }, n);
        close_all({x, y});
    }
    w.down(); }
    A.expect_empty("steady_async"); SEM(mapped_count() == 0, "mapped", "stacks are still mapped"); expect_fds(f0, "steady_async");
}
SCENARIO("C37 C01", steady_sockets, 3) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A; size_t n = R.range(6, 16), kind = R(5);
    if (kind == 0) { int fd[2]; pair_of(fd); psock *x = from_fd(A, fd[0]), *y = from_fd(A, fd[1]); psock_br* t = nullptr; if (R.chance(1, 2)) OK(psock_br_create_from_psock(&t, A, y), "br");
        repeat(c, "values", A, [&](Rng& r) { std::vector<pv::Val> v; values(r, v, 2000); for (auto& e : v) OK(pv::write(x, e), "write"); read_all(A, r, t ? psock_br_psock_adapter(t) : y, v); }, n);
        if (t) OK(resource_release(psock_br_resource_handle(t)), "release"); close_all({x, y});
    } else if (kind == 1) { int fd[2]; pair_of(fd); psock *x = from_fd(A, fd[0]), *y = from_fd(A, fd[1]); psock_br* t; OK(psock_br_create_from_psock(&t, A, y), "br");
        repeat(c, "lines", A, [&](Rng& r) { for (size_t k = r.range(1, 8); k-- > 0;) { std::string s(r(300), 'l'); s += '\n'; OK(psock_write_raw_data(x, s.data(), s.size()), "write"); char b[400]; size_t z = sizeof b; OK(psock_br_read_line(b, &z, t), "line"); SEM(z == s.size(), "line_size", "a line of %zu bytes reports %zu", s.size(), z); } }, n);
        OK(resource_release(psock_br_resource_handle(t)), "release"); close_all({x, y});
    } else if (kind == 2) { int fd[2]; pair_of(fd, SOCK_DGRAM); psock *x = from_fd(A, fd[0]), *y = from_fd(A, fd[1]);
        repeat(c, "descriptors", A, [&](Rng& r) { for (size_t k = r.range(1, 5); k-- > 0;) { int m = (int)memfd_create("m", 0), d = -1; OK(psock_write_raw_descriptor(x, m), "send"); OK(psock_read_raw_descriptor(y, &d), "receive"); close(m); close(d); } }, n);
        close_all({x, y});
    } else if (kind == 3) repeat(c, "buffers", A, [&](Rng& r) { psock *o, *in; OK(psock_create_from_buffer(&o, A, NULL, 0), "create"); std::vector<pv::Val> v; values(r, v, 9000); for (auto& e : v) OK(pv::write(o, e), "write");
            void* d; size_t z; OK(psock_from_buffer_get_output_buffer(o, A, &d, &z), "output"); OK(psock_create_from_buffer(&in, A, (const char*)d, z), "create"); OK(RCPR_SYM(allocator_reclaim)(A, d), "reclaim"); read_all(A, r, in, v); close_all({o, in}); }, n);
    else { struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa; psock* l; auto b4 = fds(); OK(psock_create_from_listen_address(&l, A, (struct sockaddr*)&sa, sl), "listen"); int lf = -1; for (auto& e : fds()) if (!b4.count(e.first)) lf = e.first;
        if (getsockname(lf, (struct sockaddr*)&sa, &sl)) inconclusive("listener"); uint16_t port = ntohs(sa.sin_port);
        repeat(c, "connections", A, [&](Rng& r) { psock *p, *q; OK(psock_create_from_hostname_and_port(&p, A, "127.0.0.1", port), "connect"); int d = -1; struct sockaddr_in from; socklen_t fl = sizeof from; OK(psock_accept(l, &d, (struct sockaddr*)&from, &fl), "accept"); struct linger li = {1, 0}; setsockopt(d, SOL_SOCKET, SO_LINGER, &li, sizeof li); q = from_fd(A, d);
            uint64_t v = r.next(), g = 0; OK(psock_write_raw_uint64(p, v), "write"); OK(psock_read_raw_uint64(q, &g), "read"); SEM(g == v, "value", "another value arrived"); close_all({q, p}); }, n);
        close_all({l}); }
    A.expect_empty("steady_sockets"); expect_fds(f0, "steady_sockets");
}

/* ------------------------------------------------------------ operations that fail */
static status no_call(void*, Fiber*, int, void*) { return STATUS_SUCCESS; }
SCENARIO("C37 C01", steady_failures, 4) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A; ResPool P; size_t n = R.range(5, 14), kind = R(5);
    std::vector<Res*> spare; auto res = [&](uint64_t key) { Res* r; if (spare.empty()) r = P.make(); else { r = spare.back(); spare.pop_back(); } r->key = key; r->released = 0; r->hook = [&](Res* x) { spare.push_back(x); }; return r; };
    auto drop = [&](resource_t* r) { OK(resource_release(r), "release"); };
    auto oom = [&](Rng& r, const std::function<status()>& op) { A.arm(r.range(1, 4), r.chance(1, 4)); status rc = op(); bool hit = A.injected > 0; A.disarm(); SEM(hit || rc == STATUS_SUCCESS, "refused", "an operation failed with 0x%x and nothing was refused", rc); if (hit) count("refused_memory"); return rc; };
    if (kind == 0) {            /* containers that are refused memory, or asked for what they do not hold */
        RCPR_SYM(list)* l; RCPR_SYM(slist)* m; RCPR_SYM(queue)* q; RCPR_SYM(rbtree)* t; OK(list_create(&l, A), "create"); OK(slist_create(&m, A), "create"); OK(queue_create(&q, A), "create"); OK(rbtree_create(&t, A, &cmp, &key_of, nullptr), "create");
        repeat(c, "failing_containers", A, [&](Rng& r) {
            for (size_t k = r.range(2, 9); k-- > 0;) {
                resource_t* x = res(k)->h(); resource_t* y = nullptr; uint64_t missing = 1000;
                switch (r(6)) {
                    case 0: if (oom(r, [&] { return r.chance(1, 2) ? list_append_tail(l, x) : list_insert_head(l, x); })) drop(x); else { OK(list_pop(l, &x), "pop"); drop(x); } break;
                    case 1: if (oom(r, [&] { return r.chance(1, 2) ? slist_append_tail(m, x) : slist_insert_head(m, x); })) drop(x); else { OK(slist_pop(m, &x), "pop"); drop(x); } break;
                    case 2: if (oom(r, [&] { return r.chance(1, 2) ? queue_append(q, x) : queue_insert(q, x); })) drop(x); else { OK(queue_pop(q, &x), "pop"); drop(x); } break;
                    case 3: if (oom(r, [&] { return rbtree_insert(t, x); })) drop(x); else { uint64_t key = k; OK(rbtree_delete(&x, t, &key), "delete"); drop(x); } break;
                    case 4: drop(x); SEM(rbtree_find(&y, t, &missing) != STATUS_SUCCESS && rbtree_delete(&y, t, &missing) != STATUS_SUCCESS, "missing", "a key nobody inserted was found"); break;
                    default: drop(x); { status a = queue_pop(q, &y), b = y ? 0 : list_pop(l, &y), d = y ? 0 : slist_pop(m, &y); (void)a; (void)b; (void)d; } SEM(!y, "empty", "an empty container yielded something"); break;
                }
            } }, n);
        OK(resource_release(list_resource_handle(l)), "release"); OK(resource_release(slist_resource_handle(m)), "release"); OK(resource_release(queue_resource_handle(q)), "release"); OK(resource_release(rbtree_resource_handle(t)), "release");
    } else if (kind == 1) {     /* a scheduler whose fibers ask for what does not exist */
        FW w(A); Uuid mine = {}; for (auto& b : mine.data) b = (uint8_t)R.next(); RCPR_SYM(fiber_scheduler_discipline)* own; RCPR_SYM(fiber_scheduler_discipline_callback_fn) fn[3] = {&no_call, &no_call, &no_call};
        OK(fiber_scheduler_discipline_create(&own, &mine, A, nullptr, 3, fn), "discipline"); OK(fiber_scheduler_discipline_add(w.s, own), "add");
        repeat(c, "failing_fibers", A, [&](Rng& r) {
            for (size_t k = r.range(2, 9); k-- > 0;) switch (r(7)) {
                case 0: { RCPR_SYM(fiber_scheduler_discipline)* d; size_t m = r.range(1, 3); OK(fiber_scheduler_discipline_create(&d, &mine, A, nullptr, m, fn), "discipline"); SEM(fiber_scheduler_discipline_add(w.s, d) != STATUS_SUCCESS, "duplicate", "a second discipline of one identity was added"); drop(RCPR_SYM(fiber_scheduler_discipline_resource_handle)(d)); break; }
                case 1: { RCPR_SYM(message)* m; OK(message_create(&m, A, 1, res(1)->h()), "message"); SEM(message_send(99999999, m, w.md) != STATUS_SUCCESS, "missing", "sent to nobody"); drop(message_resource_handle(m)); SEM(message_receive(99999999, &m, w.md) != STATUS_SUCCESS && mailbox_close(99999999, w.md) != STATUS_SUCCESS, "missing", "no such mailbox"); break; }
                case 2: SEM(conditional_wait(99999999, w.cd) != STATUS_SUCCESS && conditional_notify_one(99999999, w.cd) != STATUS_SUCCESS && conditional_notify_all(99999999, w.cd) != STATUS_SUCCESS && conditional_close(99999999, w.cd) != STATUS_SUCCESS, "missing", "no such conditional"); break;
                case 3: { Fiber* f = nullptr; if (!oom(r, [&] { return fiber_create(&f, A, w.s, 65536, nullptr, [](void*) -> status { return 0; }); })) { Fiber* g; (void)g; SEM(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(w.s, f) != STATUS_SUCCESS, "not_running", "a fiber that was never added took a request"); drop(RCPR_SYM(fiber_resource_handle)(f)); } break; }
                case 4: { RCPR_SYM(mailbox_address) a = 0; A.arm(r.range(1, 3)); status rc = mailbox_create(&a, w.md); A.disarm(); if (rc == STATUS_SUCCESS) OK(mailbox_close(a, w.md), "close"); break; }
                case 5: { RCPR_SYM(conditional) h = 0; A.arm(r.range(1, 3)); status rc = conditional_create(&h, w.cd); A.disarm(); if (rc == STATUS_SUCCESS) OK(conditional_close(h, w.cd), "close"); break; }
                default: { RCPR_SYM(fiber_scheduler_discipline)* d = nullptr; Uuid u = mine; u.data[3] ^= 1; if (!oom(r, [&] { return fiber_scheduler_discipline_create(&d, &u, A, nullptr, 2, fn); })) drop(RCPR_SYM(fiber_scheduler_discipline_resource_handle)(d)); break; }
            } }, n);
        w.down();
    } else if (kind == 2) {     /* connections and listeners that cannot be had */
        struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof sa; int l = socket(AF_INET, SOCK_STREAM, 0);
        if (l < 0 || bind(l, (struct sockaddr*)&sa, sl) || getsockname(l, (struct sockaddr*)&sa, &sl)) inconclusive("port");
        repeat(c, "failing_sockets", A, [&](Rng& r) {
            for (size_t k = r.range(1, 4); k-- > 0;) { psock* p = nullptr;
                if (r.chance(1, 2)) SEM(psock_create_from_hostname_and_port(&p, A, "127.0.0.1", ntohs(sa.sin_port)) != STATUS_SUCCESS && !p, "nobody", "connected to an address nobody listens on");
                else SEM(psock_create_from_listen_address(&p, A, (struct sockaddr*)&sa, sizeof sa) != STATUS_SUCCESS && !p, "taken", "listens on an address that is taken");
                psock_br* b = nullptr; int fd = -1; if (!oom(r, [&] { return psock_create_from_buffer(&p, A, r.chance(1, 2) ? "text" : nullptr, 4); })) { if (!oom(r, [&] { return psock_br_create_from_psock(&b, A, p); })) drop(psock_br_resource_handle(b)); SEM(psock_read_raw_descriptor(p, &fd) != STATUS_SUCCESS, "no_descriptor", "a buffer yielded a descriptor"); close_all({p}); }
            } }, n);
        close(l);
    } else if (kind == 3) repeat(c, "failing_reads", A, [&](Rng& r) {      /* input that is cut off, or of another type */
            std::string t; for (size_t k = r.range(1, 3); k-- > 0;) t += pv::encode(pv::make(r, 3000)); if (!t.empty()) t.resize(r(t.size())); if (r.chance(1, 2) && t.size() > 3) t[r(4)] ^= (char)(1 + r(255));
            psock* p; OK(psock_create_from_buffer(&p, A, t.data(), t.size()), "create"); for (size_t k = r.range(1, 5); k-- > 0;) { pv::Val g = pv::make(r, 10); size_t want = g.s.size(); g.s.clear(); g.u = 0; if (pv::read(p, A, r, g, want) != STATUS_SUCCESS) { count("reads_refused"); break; } } close_all({p}); }, n);
    else {                      /* asynchronous sockets whose peers go away, and sockets that cannot be wrapped */
        FW w(A); { int fd[2]; pair_of(fd); Fiber* me; OK(disciplined_fiber_scheduler_main_fiber_get(&me, w.s), "main_fiber"); psock* x = wrap(A, me, fd[0]); close_all({x}); close(fd[1]); }
        repeat(c, "failing_async", A, [&](Rng& r) {
            int fd[2]; pair_of(fd); bool wr = r.chance(1, 2); int keep = fd[1];
            w.add([&A, fd0 = fd[0], wr](Fiber* f) { psock* x = wrap(A, f, fd0); std::vector<char> big(700000, 'b'); size_t z = big.size(); uint8_t b; (void)z;
                if (wr) SEM(psock_write_raw_data(x, big.data(), z) != STATUS_SUCCESS, "write_gone", "a peer that is gone took %zu bytes", z); else SEM(psock_read_raw_uint8(x, &b) != STATUS_SUCCESS, "past_end", "a peer that is gone sent something");
                close_all({x}); return STATUS_SUCCESS; });
            w.add([keep](Fiber*) { close(keep); return STATUS_SUCCESS; }); w.join();
            Fiber* me; OK(disciplined_fiber_scheduler_main_fiber_get(&me, w.s), "main_fiber"); psock *b, *y = nullptr; OK(psock_create_from_buffer(&b, A, "x", 1), "create"); SEM(psock_create_wrap_async(&y, A, me, b) != STATUS_SUCCESS && !y, "wrapped", "a memory buffer was made asynchronous"); close_all({b});
            int p2[2]; pair_of(p2); psock* s = from_fd(A, p2[0]); if (!oom(r, [&] { return psock_create_wrap_async(&y, A, me, s); })) close_all({y}); else close_all({s}); close(p2[1]);
        }, n);
        w.down();
    }
    A.expect_empty("steady_failures"); SEM(mapped_count() == 0, "mapped", "stacks are still mapped"); expect_fds(f0, "steady_failures");
}

/* ------------------------------------------------------------ the rest */
static status nothing(void*) { return STATUS_SUCCESS; }
static void fired(void* p) { ++*(int*)p; }
SCENARIO("C37 C01", steady_others, 3) {
    Rng& R = c.rng; Alloc A; size_t n = R.range(6, 16), kind = R(4);
    if (kind == 0) {            /* one bump allocator, reset again and again, has the same room every time */
        size_t sz = R.range(500, 20000); std::unique_ptr<uint8_t[]> reg(new uint8_t[sz]); RCPR_SYM(allocator)* a; OK(bump_allocator_create(&a, reg.get(), sz), "create"); size_t room = 0, cyc = 0;
        repeat(c, "bump", A, [&](Rng& r) { size_t got = 0, one = 16 << (r.s % 3); for (;;) { void* p = nullptr; if (RCPR_SYM(allocator_allocate)(a, &p, one) != STATUS_SUCCESS) break; memset(p, 1, one); got += one; } OK(RCPR_SYM(allocator_control)(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0), "reset");
            if (cyc++ && one == 16) SEM(room == 0 || got == room, "bump_shrinks", "a region of %zu bytes yields %zu bytes after a reset, and %zu before", sz, got, room); if (one == 16) room = got; }, n);
        OK(resource_release(RCPR_SYM(allocator_resource_handle)(a)), "release");
    } else if (kind == 1) repeat(c, "threads", A, [&](Rng& r) { RCPR_SYM(thread_mutex)* m; RCPR_SYM(thread_cond)* v; RCPR_SYM(thread_mutex_lock)* l; OK(thread_mutex_create(&m, A), "mutex"); OK(thread_cond_create(&v, A), "cond");
            for (size_t k = r(3); k-- > 0;) { OK(thread_mutex_lock_acquire(&l, m), "lock"); OK(thread_cond_signal_one(l, v), "signal"); OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock"); }
            RCPR_SYM(thread)* t; OK(thread_create(&t, A, 65536, nullptr, nothing), "thread"); OK(resource_release(thread_resource_handle(t)), "join"); OK(resource_release(thread_cond_resource_handle(v)), "release"); OK(resource_release(thread_mutex_resource_handle(m)), "release"); }, n);
    else if (kind == 2) { RCPR_SYM(auto_reset_trigger)* t; OK(auto_reset_trigger_create(&t, A), "trigger"); int hits = 0, want = 0;
        repeat(c, "trigger", A, [&](Rng& r) { for (size_t k = r.range(1, 5); k-- > 0;) { ++want; if (r.chance(1, 2)) { auto_reset_trigger_signal(t); OK(auto_reset_trigger_register(t, &fired, &hits), "register"); auto_reset_trigger_step(t); } else { OK(auto_reset_trigger_register(t, &fired, &hits), "register"); auto_reset_trigger_signal(t); auto_reset_trigger_step(t); } } SEM(hits == want, "trigger", "%d signals called back %d times", want, hits); }, n);
        OK(resource_release(auto_reset_trigger_resource_handle(t)), "release");
    } else {                    /* the malloc allocator: what the heap holds */
        RCPR_SYM(allocator)* a; OK(malloc_allocator_create(&a), "create"); size_t cyc = 0, h1 = 0, h2 = 0;
        repeat(c, "malloc", A, [&](Rng& r) { void* v[6]; for (auto& p : v) OK(RCPR_SYM(allocator_allocate)(a, &p, 1 + r(3000)), "allocate"); for (auto& p : v) if (r.chance(1, 2)) OK(RCPR_SYM(allocator_reallocate)(a, &p, 1 + r(6000)), "reallocate"); for (auto& p : v) OK(RCPR_SYM(allocator_reclaim)(a, p), "reclaim"); if (++cyc == 8) h1 = heap(); if (cyc == 4 * n + 4) h2 = heap(); }, n);
        SEM(h2 < h1 + 16 * cyc, "grows_bytes@malloc", "%zu cycles that give back every block leave %zd bytes on the heap", cyc, (ssize_t)(h2 - h1));
        OK(resource_release(RCPR_SYM(allocator_resource_handle)(a)), "release");
    }
    A.expect_empty("steady_others");
}
