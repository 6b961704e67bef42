/* C32: dispatch tables that do not come from the registered section are rejected. The
 * tables forged here dispatch to traps; wherever the library would call through one, the
 * trap reports it. Only built with RCPR_VTABLE_RUNTIME_ENFORCEMENT. */
#include "mon.h"
#include "psockval.h"
#include <fcntl.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <memory>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#ifndef RCPR_VTABLE_RUNTIME_ENFORCEMENT
#error "this harness is for builds with vtable enforcement"
#endif
RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_list;
RCPR_IMPORT_message;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_slist;
RCPR_IMPORT_stack;
RCPR_IMPORT_thread;
RCPR_IMPORT_uuid;
using namespace mon;
using pv::Val;
typedef RCPR_SYM(resource) Resource;

/* ---------------------------------------------------------------- traps */
static const char* g_where = "?";
static std::string g_what;
[[noreturn]] static void trap(const char* method) {
    fail("sem", (std::string("forged_called_") + method).c_str(), "%s: the %s method of a forged table (%s) was called", g_what.c_str(), method, g_where);
}
static status t_release(Resource*) { trap("release"); }
static status t_allocate(allocator*, void**, size_t) { trap("allocate"); }
static status t_reclaim(allocator*, void*) { trap("reclaim"); }
static status t_reallocate(allocator*, void**, size_t) { trap("reallocate"); }
static status t_control(allocator*, int, void*, size_t) { trap("control"); }
static status t_read(psock*, void*, void*, size_t*, bool) { trap("read"); }
static status t_write(psock*, void*, const void*, size_t*) { trap("write"); }
static status t_accept(psock*, void*, int*, struct sockaddr*, socklen_t*) { trap("accept"); }
static status t_sendmsg(psock*, void*, const struct msghdr*, int) { trap("sendmsg"); }
static status t_recvmsg(psock*, void*, struct msghdr*, size_t*, int) { trap("recvmsg"); }
static status t_setsockopt(psock*, void*, int, int, const void*, socklen_t) { trap("setsockopt"); }
static status t_prelease(psock*, void*) { trap("user_release"); }

static resource_vtable f_res_data = {&t_release};
static const resource_vtable f_res_ro = {&t_release};
__attribute__((section("rcpr_vtable_forged"))) resource_vtable f_res_sec = {&t_release};
static psock_vtable f_ps_data = {{&t_release}, &t_read, &t_write, &t_accept, &t_sendmsg, &t_recvmsg, &t_setsockopt, &t_prelease};
static const psock_vtable f_ps_ro = {{&t_release}, &t_read, &t_write, &t_accept, &t_sendmsg, &t_recvmsg, &t_setsockopt, &t_prelease};
__attribute__((section("rcpr_vtable_forged"))) psock_vtable f_ps_sec = {{&t_release}, &t_read, &t_write, &t_accept, &t_sendmsg, &t_recvmsg, &t_setsockopt, &t_prelease};
static allocator_vtable f_al_data = {{&t_release}, &t_allocate, &t_reclaim, &t_reallocate, &t_control};
static const allocator_vtable f_al_ro = {{&t_release}, &t_allocate, &t_reclaim, &t_reallocate, &t_control};
__attribute__((section("rcpr_vtable_forged"))) allocator_vtable f_al_sec = {{&t_release}, &t_allocate, &t_reclaim, &t_reallocate, &t_control};

/* ---------------------------------------------------------------- placements */
enum TableKind { RES, PS, AL };
struct Forged {
    const void* p = nullptr;
    void* heap = nullptr;
    void* map = nullptr;
    alignas(16) unsigned char local[128];    /* part of the caller's stack frame */
    Forged(Rng& R, TableKind k, const void* genuine = nullptr) {
        const void* t[3] = {&f_res_data, &f_ps_data, &f_al_data};
        size_t n[3] = {sizeof(f_res_data), sizeof(f_ps_data), sizeof(f_al_data)};
        const void* from = t[k];
        if (genuine && R.chance(1, 8)) { from = genuine; count("copied_genuine_table"); }
        uintptr_t b = (uintptr_t)&__start_rcpr_vtable, e = (uintptr_t)&__stop_rcpr_vtable;
        switch (R(11)) {
            case 10: {
                /* a multiple of 4 GiB away from a place inside the section */
                g_where = "a far alias of the section";
                uintptr_t at = b + R((uint32_t)((e - b) / 8)) * 8 + ((uintptr_t)R.range(1, 40) << 32);
                uintptr_t page = at & ~(uintptr_t)4095;
                map = mmap((void*)page, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
                if (map == MAP_FAILED) { map = nullptr; heap = malloc(n[k]); memcpy(heap, from, n[k]); p = heap; g_where = "heap"; }
                else { memcpy((void*)at, from, n[k]); p = (void*)at; }
                break; }
            case 0: g_where = "heap"; heap = malloc(n[k]); memcpy(heap, from, n[k]); p = heap; break;
            case 1: g_where = "stack"; memcpy(local, from, n[k]); p = local; break;
            case 2: g_where = "writable data"; p = t[k]; break;
            case 3: { g_where = "constant data"; const void* r[3] = {&f_res_ro, &f_ps_ro, &f_al_ro}; p = r[k]; break; }
            case 4: { g_where = "another section"; const void* r[3] = {&f_res_sec, &f_ps_sec, &f_al_sec}; p = r[k]; break; }
            case 5: g_where = "low mapping";
                map = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
                if (map == MAP_FAILED) inconclusive("mmap"); memcpy(map, from, n[k]); p = map; break;
            case 6: g_where = "high mapping";
                map = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (map == MAP_FAILED) inconclusive("mmap"); memcpy(map, from, n[k]); p = map; break;
            case 7: g_where = "the section's end"; p = (const void*)e; break;
            case 8: g_where = "just past the section"; p = (const void*)(e + R.range(1, 8) * 8); break;
            default: g_where = "just before the section"; p = (const void*)(b - R.range(1, 8) * 8); break;
        }
        count((std::string("at_") + g_where).c_str());
    }
    ~Forged() { free(heap); if (map) munmap(map, 8192); }
    Forged(const Forged&) = delete;
};
/* the table pointer is the public first member of every resource */
static const resource_vtable* get(Resource* r) { return r->vtable; }
static void set(Resource* r, const void* v) { resource_init(r, (const resource_vtable*)v); }
/* an object with a forged table, for as long as this lives */
struct Forge {
    Resource* r; const resource_vtable* v; Forged f;
    Forge(Rng& R, TableKind k, Resource* x) : r(x), v(get(x)), f(R, k, get(x)) { set(r, f.p); }
    ~Forge() { set(r, v); }
};
#define REJECTED(expr, what) do { status rj_ = (expr); SEM(rj_ != STATUS_SUCCESS, "forged_accepted", "%s succeeded on an object with a forged table (%s)", what, g_where); \
    count(rj_ == ERROR_GENERAL_BAD_VTABLE ? "bad_vtable" : "other_error"); } while (0)

static RCPR_SYM(rcpr_comparison_result) cmp(void*, const void* a, const void* b) {
    return *(const uint64_t*)a < *(const uint64_t*)b ? RCPR_COMPARE_LT : *(const uint64_t*)a > *(const uint64_t*)b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static const void* key_of(void*, const Resource* r) { return &Res::of((Resource*)r)->key; }
static status fib_body(void*) { return STATUS_SUCCESS; }
static fiber* g_main;
static status plain_cb(void*, fiber* y, int event, void*, fiber** rf, const rcpr_uuid** id, int* rev, void** rp) {
    if (event == FIBER_SCHEDULER_YIELD_EVENT_MAIN) g_main = y;
    *rf = g_main; *id = nullptr; *rp = nullptr;
    *rev = event == FIBER_SCHEDULER_YIELD_EVENT_MAIN ? FIBER_SCHEDULER_RESUME_EVENT_MAIN : FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
    return STATUS_SUCCESS;
}
static status thr_body(void*) { return STATUS_SUCCESS; }
static fiber_scheduler_discipline_callback_fn d_cbs[4];
static void pair_of(int v[2]) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, v) < 0) { perror("socketpair"); _exit(6); } }

static status g_read(psock*, void* x, void* data, size_t* size, bool) {
    std::string* s = (std::string*)x; size_t n = std::min(*size, s->size());
    memcpy(data, s->data(), n); s->erase(0, n); *size = n; return STATUS_SUCCESS;
}
static status g_write(psock*, void* x, const void* data, size_t* size) { ((std::string*)x)->append((const char*)data, *size); return STATUS_SUCCESS; }
static status g_accept(psock*, void*, int*, struct sockaddr*, socklen_t*) { return ERROR_PSOCK_ACCEPT_GENERAL; }
static status g_sendmsg(psock*, void*, const struct msghdr*, int) { return ERROR_PSOCK_SENDMSG_FAILED; }
static status g_recvmsg(psock*, void*, struct msghdr*, size_t*, int) { return ERROR_PSOCK_RECVMSG_FAILED; }
static status g_setsockopt(psock*, void*, int, int, const void*, socklen_t) { return STATUS_SUCCESS; }
static status g_release(psock*, void* x) { ((std::string*)x)->append("#released"); return STATUS_SUCCESS; }
RCPR_VTABLE psock_vtable user_vt = {{nullptr}, &g_read, &g_write, &g_accept, &g_sendmsg, &g_recvmsg, &g_setsockopt, &g_release};

/* ---------------------------------------------------------------- every object */
enum { O_LIST, O_SLIST, O_QUEUE, O_TREE, O_STACK, O_BIGINT, O_TRIGGER, O_MUTEX, O_LOCK, O_COND, O_THREAD, O_FIBER, O_SCHED, O_DSCHED, O_DISC, O_MSG,
       O_PS_FD, O_PS_IN, O_PS_OUT, O_PS_USER, O_PS_LISTEN, O_PS_ASYNC, O_BR, O_MALLOC, O_BUMP, O_OWN, O_OWNALLOC, O_COUNT };
static const char* oname[] = {"list", "slist", "queue", "rbtree", "stack", "bigint", "trigger", "mutex", "mutex lock", "cond", "thread", "fiber", "scheduler",
    "disciplined scheduler", "discipline", "message", "descriptor psock", "input buffer psock", "output buffer psock", "user psock", "listening psock", "async psock", "buffered reader",
    "malloc allocator", "bump allocator", "caller's resource", "caller's allocator"};

SCENARIO("C32", forged_release, 6) {
    Rng& R = c.rng; auto f0 = fds();
    {
        Alloc A; ResPool pool; std::string user; char region[512] = {0};
        int k = (int)(c.n % O_COUNT); g_what = std::string("releasing a ") + oname[k];
        Resource *r = nullptr, *after = nullptr; TableKind tk = RES; int fd[2] = {-1, -1};
        auto S = [&](auto* x, auto h) { r = h(x); };
        auto res = [&] { Res* x = pool.make(); x->key = R(50); return x->h(); };
        size_t n = R(5);
        switch (k) {
            case O_LIST: { list* x; OK(list_create(&x, A), "create"); for (size_t i = 0; i < n; ++i) OK(list_append_tail(x, res()), "add"); S(x, [](list* y) { return list_resource_handle(y); }); break; }
            case O_SLIST: { slist* x; OK(slist_create(&x, A), "create"); for (size_t i = 0; i < n; ++i) OK(slist_append_tail(x, res()), "add"); S(x, [](slist* y) { return slist_resource_handle(y); }); break; }
            case O_QUEUE: { queue* x; OK(queue_create(&x, A), "create"); for (size_t i = 0; i < n; ++i) OK(queue_append(x, res()), "add"); S(x, [](queue* y) { return queue_resource_handle(y); }); break; }
            case O_TREE: { rbtree* x; OK(rbtree_create(&x, A, &cmp, &key_of, nullptr), "create"); for (size_t i = 0; i < n; ++i) OK(rbtree_insert(x, res()), "add"); S(x, [](rbtree* y) { return rbtree_resource_handle(y); }); break; }
            case O_STACK: { stack* x; OK(stack_create(&x, A, 16384), "create"); r = stack_resource_handle(x); break; }
            case O_BIGINT: { bigint* x; OK(bigint_create_zero(&x, A, 1 + R(500)), "create"); r = bigint_resource_handle(x); break; }
            case O_TRIGGER: { auto_reset_trigger* x; OK(auto_reset_trigger_create(&x, A), "create"); r = auto_reset_trigger_resource_handle(x); break; }
            case O_MUTEX: { thread_mutex* x; OK(thread_mutex_create(&x, A), "create"); r = thread_mutex_resource_handle(x); break; }
            case O_LOCK: { thread_mutex* x; thread_mutex_lock* l; OK(thread_mutex_create(&x, A), "create"); OK(thread_mutex_lock_acquire(&l, x), "lock");
                           r = thread_mutex_lock_resource_handle(l); after = thread_mutex_resource_handle(x); break; }
            case O_COND: { thread_cond* x; OK(thread_cond_create(&x, A), "create"); r = thread_cond_resource_handle(x); break; }
            case O_THREAD: { thread* x; OK(thread_create(&x, A, 256 * 1024, nullptr, &thr_body), "create"); r = thread_resource_handle(x); break; }
            case O_FIBER: { fiber_scheduler* s; OK(fiber_scheduler_create_with_disciplines(&s, A), "create"); fiber* x; OK(fiber_create(&x, A, s, 16384, nullptr, &fib_body), "create");
                            r = fiber_resource_handle(x); after = fiber_scheduler_resource_handle(s); break; }
            case O_SCHED: { fiber_scheduler* s; OK(fiber_scheduler_create(&s, A, nullptr, &plain_cb), "create");
                            r = fiber_scheduler_resource_handle(s); break; }
            case O_DSCHED: { fiber_scheduler* s; OK(fiber_scheduler_create_with_disciplines(&s, A), "create"); fiber_scheduler_discipline* d;
                             if (R.chance(1, 2)) OK(message_discipline_get_or_create(&d, A, s), "disc");
                             if (R.chance(1, 2)) OK(condition_discipline_get_or_create(&d, A, s), "disc");
                             r = fiber_scheduler_resource_handle(s); break; }
            case O_DISC: { rcpr_uuid id; for (auto& b : id.data) b = (uint8_t)R.next(); fiber_scheduler_discipline* d;
                           OK(fiber_scheduler_discipline_create(&d, &id, A, nullptr, 1 + R(3), d_cbs), "create"); r = fiber_scheduler_discipline_resource_handle(d); break; }
            case O_MSG: { message* m; OK(message_create(&m, A, 7, R.chance(1, 2) ? nullptr : res()), "create"); r = message_resource_handle(m); break; }
            case O_PS_FD: { psock* s; pair_of(fd); OK(psock_create_from_descriptor(&s, A, fd[0]), "create"); r = psock_resource_handle(s); tk = PS; break; }
            case O_PS_IN: { psock* s; OK(psock_create_from_buffer(&s, A, "0123456789", 10), "create"); r = psock_resource_handle(s); tk = PS; break; }
            case O_PS_OUT: { psock* s; OK(psock_create_from_buffer(&s, A, nullptr, 0), "create"); if (R.chance(1, 2)) OK(psock_write_raw_uint32(s, 9), "write"); r = psock_resource_handle(s); tk = PS; break; }
            case O_PS_USER: { psock* s; OK(psock_create_from_user_methods(&s, A, &user, &user_vt), "create"); r = psock_resource_handle(s); tk = PS; break; }
            case O_PS_LISTEN: { psock* s; struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); OK(psock_create_from_listen_address(&s, A, (struct sockaddr*)&a, sizeof a), "create"); r = psock_resource_handle(s); tk = PS; break; }
            case O_PS_ASYNC: { fiber_scheduler* s; fiber* m; psock *w, *x; pair_of(fd); OK(fiber_scheduler_create_with_disciplines(&s, A), "create");
                               OK(disciplined_fiber_scheduler_main_fiber_get(&m, s), "main"); OK(psock_create_from_descriptor(&w, A, fd[0]), "create");
                               OK(psock_create_wrap_async(&x, A, m, w), "wrap"); r = psock_resource_handle(x); after = fiber_scheduler_resource_handle(s); tk = PS; break; }
            case O_BR: { psock* s; psock_br* b; OK(psock_create_from_buffer(&s, A, "0123456789", 10), "create"); OK(psock_br_create_from_psock(&b, A, s), "create");
                         r = psock_br_resource_handle(b); after = psock_resource_handle(s); tk = PS; break; }
            case O_MALLOC: { allocator* a; OK(malloc_allocator_create(&a), "create"); r = allocator_resource_handle(a); tk = AL; break; }
            case O_BUMP: { allocator* a; OK(bump_allocator_create(&a, region, sizeof region), "create"); r = allocator_resource_handle(a); tk = AL; break; }
            case O_OWN: r = res(); break;
            case O_OWNALLOC: r = allocator_resource_handle(A.get()); tk = AL; break;
        }
        size_t live = A.live.size(), maps = mapped_count(); uint64_t rec = A.n_reclaim;
        auto f1 = fds(); size_t tries = R.range(1, 3);
        log("%s", oname[k]);
        for (size_t i = 0; i < tries; ++i) {
            Forge g(R, tk, r); log("at %s", g_where);
            REJECTED(resource_release(r), g_what.c_str());
            const resource_vtable* v = (const resource_vtable*)&user;
            REJECTED(resource_vtable_read(&v, r), "reading the table");
            SEM(v == nullptr, "vtable_read_out", "reading a forged table left the output pointer set");
            nontrivial(mix(mix((uint64_t)k, std::hash<std::string>()(g_where)), R.chance(1, 2)));
        }
        SEM(A.live.size() == live && A.n_reclaim == rec && mapped_count() == maps && !A.released, "rejected_but_released",
            "%s was rejected, but %zd blocks, %zd mappings were given back", g_what.c_str(), (ssize_t)(live - A.live.size()), (ssize_t)(maps - mapped_count()));
        for (auto* x : pool.all) SEM(x->released == 0, "rejected_but_child_released", "%s was rejected, but a child was released", g_what.c_str());
        SEM(user.empty(), "rejected_but_user_released", "%s was rejected, but the context was released", g_what.c_str());
        expect_fds(f1, "rejected release");
        if (k != O_OWNALLOC) OK(resource_release(r), "genuine_release");
        if (after) OK(resource_release(after), "genuine_release");
        if (k != O_OWNALLOC) for (auto* x : pool.all) SEM(x->released == 1, "child_release", "after the release a child was released %u times", x->released);
        if (fd[1] >= 0) close(fd[1]);
        A.expect_empty("forged_release");
        SEM(mapped_count() == 0, "mapped", "mappings left");
    }
    expect_fds(f0, "forged_release");
}

/* children with forged tables inside objects that release them */
SCENARIO("C32", forged_child, 3) {
    Rng& R = c.rng; Alloc A; ResPool pool;
    int k = (int)R(6); size_t n = R.range(1, 8);
    static const char* nm[] = {"list", "slist", "queue", "rbtree", "message", "cleared list"};
    g_what = std::string("releasing the children of a ") + nm[k];
    log("%s n%zu", nm[k], n);
    list* l = nullptr; slist* s = nullptr; queue* q = nullptr; rbtree* t = nullptr; message* m = nullptr; Resource* r = nullptr;
    if (k == 4) n = 1;
    if (k == 0 || k == 5) { OK(list_create(&l, A), "create"); r = list_resource_handle(l); }
    if (k == 1) { OK(slist_create(&s, A), "create"); r = slist_resource_handle(s); }
    if (k == 2) { OK(queue_create(&q, A), "create"); r = queue_resource_handle(q); }
    if (k == 3) { OK(rbtree_create(&t, A, &cmp, &key_of, nullptr), "create"); r = rbtree_resource_handle(t); }
    for (size_t i = 0; i < n; ++i) {
        Res* x = pool.make(); x->key = i;
        if (l) OK(list_append_tail(l, x->h()), "add");
        if (s) OK(slist_append_tail(s, x->h()), "add");
        if (q) OK(queue_append(q, x->h()), "add");
        if (t) OK(rbtree_insert(t, x->h()), "add");
        if (k == 4) { OK(message_create(&m, A, 3, x->h()), "create"); r = message_resource_handle(m); }
    }
    std::vector<std::unique_ptr<Forge>> fs; std::set<Res*> bad;
    for (auto* x : pool.all) if (n == 1 || R.chance(1, 3)) { fs.emplace_back(new Forge(R, RES, x->h())); bad.insert(x); log("%d at %s", x->id, g_where); }
    if (bad.empty()) { fs.emplace_back(new Forge(R, RES, pool[0]->h())); bad.insert(pool[0]); log("0 at %s", g_where); }
    g_where = "a child";
    if (k == 5) REJECTED(list_clear(l), "clearing a list with forged children");
    else REJECTED(resource_release(r), g_what.c_str());
    for (auto* x : pool.all) SEM(x->released == (bad.count(x) ? 0u : 1u), "child_release", "child %d (%s) was released %u times", x->id, bad.count(x) ? "forged" : "genuine", x->released);
    if (k == 5) OK(resource_release(r), "release");
    A.expect_empty("forged_child");
    nontrivial(log_hash());
}

SCENARIO("C32", forged_allocator, 4) {
    Rng& R = c.rng; ResPool pool; auto f0 = fds();
    alignas(16) static char region[4096];
    Alloc A; allocator* a = A.get(); int which = (int)R(3); std::string user;
    if (which == 1) OK(malloc_allocator_create(&a), "create");
    if (which == 2) OK(bump_allocator_create(&a, region, sizeof region), "create");
    Resource* ar = allocator_resource_handle(a);
    void* p = nullptr; size_t n = R.range(1, 100);
    OK(allocator_allocate(a, &p, n), "allocate"); memset(p, 0x6b, n);
    size_t live = A.live.size(); uint64_t rec = A.n_reclaim;
    log("allocator %d", which);
    {
        Forge g(R, AL, ar);
        g_what = "using an allocator";
        for (int i = 0, e = (int)R.range(1, 5); i < e; ++i) {
            void* q = (void*)0x1; int op = (int)R(5); log("op%d at %s", op, g_where);
            if (op == 0) { REJECTED(allocator_allocate(a, &q, R.size(200)), "allocate"); SEM(q == nullptr, "allocate_out", "a refused allocation left its output pointer set"); }
            if (op == 1) { q = p; REJECTED(allocator_reallocate(a, &q, R.size(200)), "reallocate"); SEM(q == p, "reallocate_out", "a refused reallocation changed the pointer"); }
            if (op == 2) REJECTED(allocator_reclaim(a, p), "reclaim");
            if (op == 3) { int v = 0; REJECTED(allocator_control(a, 1, &v, sizeof v), "control"); }
            if (op == 4) {
                int kk = (int)R(14); q = (void*)&q; status rc = STATUS_SUCCESS; rcpr_uuid id; for (auto& b : id.data) b = 7; psock* u = nullptr;
                log("constructor %d", kk);
                switch (kk) {
                    case 0: rc = list_create((list**)&q, a); break;
                    case 1: rc = slist_create((slist**)&q, a); break;
                    case 2: rc = queue_create((queue**)&q, a); break;
                    case 3: rc = rbtree_create((rbtree**)&q, a, &cmp, &key_of, nullptr); break;
                    case 4: rc = stack_create((stack**)&q, a, 16384); break;
                    case 5: rc = bigint_create_zero((bigint**)&q, a, 64); break;
                    case 6: rc = auto_reset_trigger_create((auto_reset_trigger**)&q, a); break;
                    case 7: rc = thread_mutex_create((thread_mutex**)&q, a); break;
                    case 8: rc = fiber_scheduler_create_with_disciplines((fiber_scheduler**)&q, a); break;
                    case 9: rc = psock_create_from_buffer((psock**)&q, a, "abc", 3); break;
                    case 10: rc = psock_create_from_user_methods((psock**)&q, a, &user, &user_vt); break;
                    case 11: rc = RCPR_SYM(strdup)((char**)&q, a, "hello"); break;
                    case 12: rc = rcpr_uuid_to_string((char**)&q, a, &id); break;
                    default: rc = message_create((message**)&q, a, 3, nullptr); break;
                }
                (void)u;
                REJECTED(rc, "a constructor");
                SEM(q == nullptr, "constructor_out", "constructor %d failed and left its output pointer set", kk);
            }
        }
        for (size_t i = 0; i < n; ++i) SEM(((unsigned char*)p)[i] == 0x6b, "block_changed", "a refused operation changed the block");
        SEM(A.live.size() == live && A.n_reclaim == rec, "ledger", "a refused operation allocated or reclaimed");
    }
    void* q = p; size_t nn = R.range(n, 200);
    status rc = allocator_reallocate(a, &q, nn); if (rc == STATUS_SUCCESS) p = q;
    for (size_t i = 0; i < n; ++i) SEM(((unsigned char*)p)[i] == 0x6b, "block_changed", "the block changed");
    if (which < 2) OK(allocator_reclaim(a, p), "reclaim");
    if (which) OK(resource_release(ar), "release");
    /* containers whose allocator's table is forged for one operation */
    if (which == 0) {
        list* l; slist* s; queue* t; rbtree* b; bigint* bi = nullptr;
        OK(list_create(&l, A), "create"); OK(slist_create(&s, A), "create"); OK(queue_create(&t, A), "create"); OK(rbtree_create(&b, A, &cmp, &key_of, nullptr), "create");
        size_t have = R(4); for (size_t i = 0; i < have; ++i) { OK(list_append_tail(l, pool.make()->h()), "add"); OK(slist_append_tail(s, pool.make()->h()), "add"); OK(queue_append(t, pool.make()->h()), "add");
            Res* x = pool.make(); x->key = i; OK(rbtree_insert(b, x->h()), "add"); }
        Res* x = pool.make(); x->key = 77; size_t before = A.live.size();
        {
            Forge g(R, AL, ar); g_what = "adding to a container"; log("containers at %s", g_where);
            REJECTED(list_append_tail(l, x->h()), "list_append_tail"); REJECTED(list_insert_head(l, x->h()), "list_insert_head");
            REJECTED(slist_append_tail(s, x->h()), "slist_append_tail"); REJECTED(slist_insert_head(s, x->h()), "slist_insert_head");
            REJECTED(queue_append(t, x->h()), "queue_append"); REJECTED(rbtree_insert(b, x->h()), "rbtree_insert");
            REJECTED(bigint_create_zero(&bi, A, 100), "bigint");
        }
        SEM(A.live.size() == before && x->released == 0, "ledger", "a refused addition allocated or released its resource");
        OK(queue_append(t, x->h()), "add");
        SEM(queue_count(t) == have + 1, "queue_count", "queue of %zu", queue_count(t));
        OK(resource_release(list_resource_handle(l)), "release"); OK(resource_release(slist_resource_handle(s)), "release");
        OK(resource_release(queue_resource_handle(t)), "release"); OK(resource_release(rbtree_resource_handle(b)), "release");
        for (auto* y : pool.all) SEM(y->released == 1, "child_release", "a child was released %u times", y->released);
    }
    A.expect_empty("forged_allocator"); expect_fds(f0, "forged_allocator");
    nontrivial(log_hash());
}

/* ---------------------------------------------------------------- sockets */
/* every operation on s is refused; nothing reaches or leaves the peer */
static void refuse_all(Ctx& c, psock* s, Alloc& O, bool wrapped, bool dgram) {
    Rng& R = c.rng;
    for (int i = 0, e = (int)R.range(2, 8); i < e; ++i) {
        unsigned op = (unsigned)R(8); char what[64];
        if (op <= 1) { Val v = pv::make(R, 60); snprintf(what, sizeof what, "writing %s", pv::kname(v.k)); g_what = what; log("%s", what);
            if (v.k == pv::RDATA && v.s.empty()) continue;              /* nothing to write */
            REJECTED(pv::write(s, v), what); }
        else if (op <= 3) { Val v; v.k = (int)R(pv::KINDS); v.u = 0; snprintf(what, sizeof what, "reading %s", pv::kname(v.k)); g_what = what; log("%s", what);
            REJECTED(pv::read(s, O, R, v, R.range(1, 30)), what); }
        else if (op == 4) { char b[40]; size_t n = R.range(1, 40); g_what = "a raw read"; log("raw"); REJECTED(psock_read_raw(s, b, &n), "a raw read"); }
        else if (op == 5) { int d = -77; g_what = "accepting"; log("accept"); struct sockaddr_un a; socklen_t l = sizeof a; REJECTED(psock_accept(s, &d, (struct sockaddr*)&a, &l), "accepting"); SEM(d < 0, "accept_out", "a refused accept produced a descriptor"); }
        else if (op == 6) { int d = -77; g_what = "passing a descriptor"; log("descriptor");
            if (dgram || R.chance(1, 2)) { if (R.chance(1, 2)) REJECTED(psock_write_raw_descriptor(s, 0), "writing a descriptor"); else { REJECTED(psock_read_raw_descriptor(s, &d), "reading a descriptor"); SEM(d < 0, "desc_out", "a refused read produced a descriptor"); } } }
        else if (!wrapped) { int one = 1; g_what = "setting an option"; log("setsockopt"); REJECTED(psock_setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one), "setting an option"); }
        count("socket_ops");
    }
}
static void drained(int fd, const char* where) {
    char b[64]; ssize_t n = recv(fd, b, sizeof b, MSG_DONTWAIT);
    SEM(n <= 0, "bytes_escaped", "%s: %zd bytes reached the peer through a forged table", where, n);
}

SCENARIO("C32", forged_psock, 6) {
    Rng& R = c.rng; auto f0 = fds();
    {
        Alloc A, O; int fd[2] = {-1, -1}; std::string user; psock *s = nullptr, *w = nullptr; psock_br* br = nullptr; fiber_scheduler* sch = nullptr;
        int kind = (int)R(4), over = (int)R(3); bool dg = R.chance(1, 4);
        Val v; do v = pv::make(R, 100); while (v.k == pv::RDATA && v.s.empty());
        std::string enc = pv::encode(v);
        if (kind == 3) over = 0;
        if (over == 2) kind = 0;
        log("kind%d over%d dg%d", kind, over, dg);
        if (kind == 0) {
            if (socketpair(AF_UNIX, dg ? SOCK_DGRAM : SOCK_STREAM, 0, fd) < 0) { perror("socketpair"); _exit(6); }
            OK(psock_create_from_descriptor(&w, A, fd[0]), "create");
        } else if (kind == 1) OK(psock_create_from_buffer(&w, A, enc.data(), enc.size()), "create");
        else if (kind == 2) { OK(psock_create_from_user_methods(&w, A, &user, &user_vt), "create"); user = enc; }
        else OK(psock_create_from_buffer(&w, A, nullptr, 0), "create");
        s = w;
        if (over == 1) { OK(psock_br_create_from_psock(&br, A, w), "create"); s = psock_br_psock_adapter(br); }
        if (over == 2) {
            fiber* m; OK(fiber_scheduler_create_with_disciplines(&sch, A), "create"); OK(disciplined_fiber_scheduler_main_fiber_get(&m, sch), "main");
            OK(psock_create_wrap_async(&s, A, m, w), "wrap");
        }
        std::string user0 = user;
        for (int round = 0, e = (int)R.range(1, 2); round < e; ++round) {
            bool inner = over && R.chance(2, 3);
            Resource* r = inner || over == 0 ? psock_resource_handle(w) : psock_resource_handle(s);
            Forge g(R, PS, r); log("%s at %s", inner ? "inner" : "outer", g_where);
            refuse_all(c, s, O, inner, dg);
            if (br && inner) {
                char b[20]; size_t n = sizeof b; g_what = "reading a line"; log("line");
                REJECTED(psock_br_read_line(b, &n, br), "reading a line");
            }
        }
        SEM(user == user0, "user_reached", "the user's context was touched through a forged table");
        if (kind == 0) drained(fd[1], "forged_psock");
        /* and it still works */
        if (kind == 0 && !dg) {
            if (send(fd[1], enc.data(), enc.size(), 0) != (ssize_t)enc.size()) { perror("send"); _exit(6); }
            OK(pv::write(s, v), "genuine_write");
            std::string got(enc.size(), 0); if (recv(fd[1], &got[0], got.size(), MSG_WAITALL) != (ssize_t)got.size() || got != enc) fail("sem", "genuine_write", "the value written afterwards differs");
        }
        if ((kind == 0 && !dg) || kind == 1 || kind == 2) {
            Val g; g.k = v.k; g.u = 0; status rc = pv::read(s, O, R, g, v.s.size());
            SEM(rc == STATUS_SUCCESS, "genuine_read", "a %s read fails 0x%x after refused operations", pv::kname(v.k), rc);
            pv::same(v, g, "after refused operations");
        }
        if (kind == 3) { OK(pv::write(s, v), "genuine_write"); void* o; size_t on; OK(psock_from_buffer_get_output_buffer(s, O, &o, &on), "output");
            SEM(on == enc.size() && !memcmp(o, enc.data(), on), "genuine_write", "the output buffer differs after refused operations"); O.give(o); }
        if (br) OK(resource_release(psock_br_resource_handle(br)), "release");
        if (over != 2) OK(resource_release(psock_resource_handle(w)), "release");
        else { OK(resource_release(psock_resource_handle(s)), "release"); OK(resource_release(fiber_scheduler_resource_handle(sch)), "release"); }
        if (kind == 2) SEM(user == "#released", "user_release", "the user's context was not released once: %s", user.c_str());
        if (fd[1] >= 0) close(fd[1]);
        A.expect_empty("forged_psock"); O.expect_empty("forged_psock");
        nontrivial(log_hash());
    }
    expect_fds(f0, "forged_psock");
}

/* the table of a user's methods: refused when the socket is created, and when replaced later */
SCENARIO("C32", forged_user_methods, 4) {
    Rng& R = c.rng; Alloc A, O; std::string user; psock* s = nullptr;
    if (R.chance(1, 2)) {
        Forged f(R, PS, &user_vt); log("create at %s", g_where); g_what = "creating a user psock";
        s = (psock*)&s;
        status rc = psock_create_from_user_methods(&s, A, &user, (const psock_vtable*)f.p);
        if (rc != STATUS_SUCCESS) { SEM(s == nullptr, "out", "a refused user psock left its output pointer set"); count("refused_at_creation"); }
        else { refuse_all(c, s, O, false, false); g_what = "releasing a user psock"; REJECTED(resource_release(psock_resource_handle(s)), g_what.c_str()); count("refused_at_use"); }
        SEM(user.empty(), "user_reached", "the user's context was touched through a forged table");
    } else {
        OK(psock_create_from_user_methods(&s, A, &user, &user_vt), "create");
        size_t n = A.size_of(s); const void** at = nullptr;
        if (n != (size_t)-1) for (size_t i = 0; i + sizeof(void*) <= n; i += sizeof(void*)) if (*(const void**)((char*)s + i) == (const void*)&user_vt) at = (const void**)((char*)s + i);
        if (at) {
            count("replaced");
            Forged f(R, PS, &user_vt); log("replace at %s", g_where);
            *at = f.p; refuse_all(c, s, O, false, false); *at = &user_vt;
            SEM(user.empty(), "user_reached", "the user's context was touched through a forged table");
            if (R.chance(1, 2)) {
                *at = f.p; g_what = "releasing a user psock"; REJECTED(resource_release(psock_resource_handle(s)), g_what.c_str()); s = nullptr;
                SEM(user.empty(), "user_reached", "the user's context was touched through a forged table");
            }
        }
        if (s) { OK(psock_write_raw_uint8(s, 'x'), "write"); OK(resource_release(psock_resource_handle(s)), "release"); SEM(user == "x#released", "user", "the user's methods were not called: %s", user.c_str()); }
    }
    A.expect_empty("forged_user_methods"); O.expect_empty("forged_user_methods");
    nontrivial(log_hash());
}
