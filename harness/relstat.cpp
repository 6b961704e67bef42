/* C03: releases during which giving memory back, or releasing something owned, fails. */
#include "mon.h"
#include <functional>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <sys/socket.h>
#include <unistd.h>
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_bigint; RCPR_IMPORT_condition; RCPR_IMPORT_message;
RCPR_IMPORT_thread; RCPR_IMPORT_stack; RCPR_IMPORT_psock; RCPR_IMPORT_fiber;
RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_uuid;
using namespace mon;
typedef RCPR_SYM(resource) resource_t;
static const status CHILD_FAIL = 0x7A01;

namespace {
struct World {
    Rng& R; Alloc A; ResPool pool; bool bad_children; size_t n;
    std::vector<Res*> gone;                                     /* must have been released */
    std::vector<std::function<void()>> end;                     /* undo what the case needed */
    World(Ctx& c) : R(c.rng), bad_children(false), n(0) {}
    Res* child() { Res* r = pool.make(); if (bad_children && R.chance(1, 4)) r->on_release = CHILD_FAIL; return r; }
};
/* One release with faults: fn releases; kids are the resources that have to be released by it, exactly once. */
void judge(World& w, const char* what, bool inject, const std::vector<Res*>& kids, const std::function<status()>& fn, uint64_t from = 1) {
    if (inject) w.A.arm_reclaim(w.R.range(from, from + (w.R.chance(1, 3) ? 1 : 5)), w.R.chance(1, 4)); else w.A.arm_reclaim(0, false);
    munmap_failed = 0; munmap_fail_at = w.R.chance(1, 4) ? (long)w.R.range(1, 3) : 0;
    status rc = fn();
    uint64_t hit = w.A.rec_injected + (uint64_t)munmap_failed; w.A.arm_reclaim(0, false);
    if (munmap_failed) count("unmap_failures"); munmap_fail_at = 0;
    bool bad = false;
    for (auto* k : kids) { SEM(k->released == 1, "child_release_count", "%s: an owned resource was released %u times (%llu failures)", what, k->released, (unsigned long long)hit); bad = bad || k->on_release; }
    if (hit || bad) SEM(rc != STATUS_SUCCESS, (std::string("status_lost@") + what).c_str(), "%s reports success although %s failed", what, hit ? "giving back memory or a mapping" : "releasing an owned resource");
    else SEM(rc == STATUS_SUCCESS, (std::string("spurious@") + what).c_str(), "%s failed 0x%x although nothing went wrong", what, rc);
    if (hit) count("reclaim_failures"); if (bad) count("child_failures");
    log("%s %llu %d", what, (unsigned long long)hit, bad);
}
RCPR_SYM(rcpr_comparison_result) cmp(void*, const void* a, const void* b) { uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
const void* key_of(void*, const resource_t* r) { return &((Res*)r)->key; }
status nothing(void*) { return STATUS_SUCCESS; }

/* pops: on success the element is the caller's; on failure nothing is handed out and the element is released */
template <class F> void popped(World& w, const char* what, Res* want, F pop) {
    w.A.arm_reclaim(w.R.chance(1, 3) ? 1 : 0, false);
    resource_t* r = nullptr; status rc = pop(&r);
    uint64_t hit = w.A.rec_injected; w.A.arm_reclaim(0, false);
    if (hit) {
        SEM(rc != STATUS_SUCCESS, (std::string("status_lost@") + what).c_str(), "%s reports success although giving back memory failed", what);
        SEM(r == nullptr, (std::string("out_on_failure@") + what).c_str(), "a failing %s hands out a resource", what);
        SEM(want->released == 1, "child_release_count", "a failing %s released its element %u times", what, want->released);
        count("reclaim_failures");
    } else {
        SEM(rc == STATUS_SUCCESS && r == want->h() && want->released == 0, what, "%s: 0x%x or another element", what, rc);
    }
    log("%s %d", what, (int)hit);
}
template <class F> void erased(World& w, const char* what, Res* want, bool take, F del) {
    w.A.arm_reclaim(w.R.chance(1, 3) ? 1 : 0, false);
    resource_t* r = (resource_t*)&w; status rc = del(take ? &r : nullptr);
    uint64_t hit = w.A.rec_injected; w.A.arm_reclaim(0, false);
    bool bad = hit || (!take && want->on_release);
    SEM((rc != STATUS_SUCCESS) == bad, (std::string("status@") + what).c_str(), "%s returned 0x%x (%d failures)", what, rc, (int)hit);
    if (take && bad) SEM(r == nullptr, (std::string("out_on_failure@") + what).c_str(), "a failing %s does not clear the caller's pointer", what);
    if (take && !bad) SEM(r == want->h() && want->released == 0, what, "%s handed out another value", what);
    if (!take || bad) SEM(want->released == 1, "child_release_count", "%s released its value %u times", what, want->released);
    if (hit) count("reclaim_failures");
    log("%s %d", what, (int)hit);
}
}

SCENARIO("C03 C01 C32 C35", release_status, 4) {
    World w(c); Rng& R = c.rng; w.bad_children = R.chance(1, 3); w.n = R(8);
    auto f0 = fds();
    bool inj = R.chance(3, 4); size_t kind = R(16);
    std::vector<Res*> kids;
    switch (kind) {
    case 0: { RCPR_SYM(list)* l; OK(list_create(&l, w.A), "create");
        for (size_t i = 0; i < w.n; ++i) { kids.push_back(w.child()); OK(list_append_tail(l, kids.back()->h()), "append"); }
        while (!kids.empty() && R.chance(1, 3)) { Res* k = kids[0]; kids.erase(kids.begin()); popped(w, "list_pop", k, [&](resource_t** r) { return list_pop(l, r); }); }
        if (R.chance(1, 3)) { judge(w, "list_clear", inj, kids, [&] { return list_clear(l); }); kids.clear(); }
        judge(w, "list_release", inj, kids, [&] { return resource_release(list_resource_handle(l)); }); break; }
    case 1: { RCPR_SYM(slist)* l; OK(slist_create(&l, w.A), "create");
        for (size_t i = 0; i < w.n; ++i) { kids.push_back(w.child()); OK(slist_append_tail(l, kids.back()->h()), "append"); }
        while (!kids.empty() && R.chance(1, 2)) {
            if (kids.size() > 1 && R.chance(1, 2)) {
                RCPR_SYM(slist_node)* h; OK(slist_head(&h, l), "head");
                Res* k = kids[1]; kids.erase(kids.begin() + 1); popped(w, "slist_node_next_pop", k, [&](resource_t** r) { return slist_node_next_pop(h, r); });
            } else { Res* k = kids[0]; kids.erase(kids.begin()); popped(w, "slist_pop", k, [&](resource_t** r) { return slist_pop(l, r); }); }
        }
        if (R.chance(1, 3)) { judge(w, "slist_clear", inj, kids, [&] { return slist_clear(l); }); kids.clear(); }
        judge(w, "slist_release", inj, kids, [&] { return resource_release(slist_resource_handle(l)); }); break; }
    case 2: { RCPR_SYM(queue)* q; OK(queue_create(&q, w.A), "create");
        for (size_t i = 0; i < w.n; ++i) { kids.push_back(w.child()); OK(queue_append(q, kids.back()->h()), "append"); }
        while (!kids.empty() && R.chance(1, 3)) { Res* k = kids[0]; kids.erase(kids.begin()); popped(w, "queue_pop", k, [&](resource_t** r) { return queue_pop(q, r); }); }
        judge(w, "queue_release", inj, kids, [&] { return resource_release(queue_resource_handle(q)); }); break; }
    case 3: case 4: { RCPR_SYM(rbtree)* t; OK(rbtree_create(&t, w.A, &cmp, &key_of, nullptr), "create");
        for (size_t i = 0; i < w.n; ++i) { kids.push_back(w.child()); kids.back()->key = i * 977 % 64; OK(rbtree_insert(t, kids.back()->h()), "insert"); }
        while (R.chance(1, 2)) {
            if (kids.empty() || R.chance(1, 4)) {           /* nothing there */
                uint64_t key = 1000; resource_t* r = (resource_t*)&w; status rc = rbtree_delete(&r, t, &key);
                SEM(rc == ERROR_RBTREE_NOT_FOUND && r == nullptr, "delete_missing_out", "deleting an absent key returned 0x%x and does not clear the caller's pointer", rc);
                r = (resource_t*)&w; rc = rbtree_find(&r, t, &key);
                SEM(rc == ERROR_RBTREE_NOT_FOUND && r == nullptr, "find_missing_out", "looking for an absent key returned 0x%x and does not clear the caller's pointer", rc);
                log("missing"); continue;
            }
            size_t j = R(kids.size()); Res* k = kids[j]; kids.erase(kids.begin() + j);
            bool take = R.chance(1, 2);
            if (R.chance(1, 2)) erased(w, "rbtree_delete", k, take, [&](resource_t** r) { return rbtree_delete(r, t, &k->key); });
            else {
                auto* n = rbtree_minimum_node(t, rbtree_root_node(t));
                while (n != rbtree_nil_node(t) && rbtree_node_value(t, n) != k->h()) n = rbtree_successor_node(t, n);
                SEM(n != rbtree_nil_node(t), "tree_order", "an entry was not reached by traversal");
                erased(w, "rbtree_delete_node", k, take, [&](resource_t** r) { return rbtree_delete_node(r, t, n); });
            }
        }
        if (R.chance(1, 3)) { judge(w, "rbtree_clear", inj, kids, [&] { return rbtree_clear(t); }); kids.clear(); }
        judge(w, "rbtree_release", inj, kids, [&] { return resource_release(rbtree_resource_handle(t)); }); break; }
    case 5: { RCPR_SYM(bigint)* b; OK(bigint_create_zero(&b, w.A, 64 * R.range(1, 6)), "create");
        judge(w, "bigint_release", inj, kids, [&] { return resource_release(bigint_resource_handle(b)); }); break; }
    case 6: { RCPR_SYM(message)* m; Res* p = nullptr; if (R.chance(3, 4)) { p = w.child(); kids.push_back(p); }
        OK(message_create(&m, w.A, R(100), p ? p->h() : nullptr), "create");
        judge(w, "message_release", inj, kids, [&] { return resource_release(message_resource_handle(m)); }); break; }
    case 7: { int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) inconclusive("socketpair");
        RCPR_SYM(psock)* s; OK(psock_create_from_descriptor(&s, w.A, fd[0]), "create");
        if (R.chance(1, 2)) { RCPR_SYM(psock_br)* br; OK(psock_br_create_from_psock(&br, w.A, s), "br"); judge(w, "psock_br_release", inj, kids, [&] { return resource_release(psock_br_resource_handle(br)); }); }
        judge(w, "psock_release", inj, kids, [&] { return resource_release(psock_resource_handle(s)); }); close(fd[1]); break; }
    case 8: { RCPR_SYM(psock)* s; OK(psock_create_from_buffer(&s, w.A, "hello", 5), "create");
        judge(w, "input_buffer_release", inj, kids, [&] { return resource_release(psock_resource_handle(s)); }); break; }
    case 9: { RCPR_SYM(psock)* s; OK(psock_create_from_buffer(&s, w.A, nullptr, 0), "create");
        std::string d(R(14000), 'x'); OK(psock_write_raw_data(s, d.data(), d.size()), "write");
        judge(w, "output_buffer_release", inj, kids, [&] { return resource_release(psock_resource_handle(s)); }); break; }
    case 10: { RCPR_SYM(thread_mutex)* m; OK(thread_mutex_create(&m, w.A), "create");
        judge(w, "mutex_release", inj, kids, [&] { return resource_release(thread_mutex_resource_handle(m)); }); break; }
    case 11: { RCPR_SYM(thread_cond)* m; OK(thread_cond_create(&m, w.A), "create");
        judge(w, "cond_release", inj, kids, [&] { return resource_release(thread_cond_resource_handle(m)); }); break; }
    case 12: { RCPR_SYM(auto_reset_trigger)* t; OK(auto_reset_trigger_create(&t, w.A), "create");
        judge(w, "trigger_release", inj, kids, [&] { return resource_release(auto_reset_trigger_resource_handle(t)); }); break; }
    case 13: { RCPR_SYM(stack)* s; OK(stack_create(&s, w.A, 4096 * R.range(1, 5)), "create");
        judge(w, "stack_release", inj, kids, [&] { return resource_release(stack_resource_handle(s)); }); break; }
    case 14: { RCPR_SYM(fiber_scheduler)* s; Alloc o; RCPR_SYM(fiber)* f;       /* a fiber, and the plain scheduler's main fiber */
        OK(fiber_scheduler_create_with_disciplines(&s, o), "create");
        if (R.chance(1, 2)) OK(fiber_create(&f, w.A, s, 16384, nullptr, &nothing), "fiber"); else OK(fiber_create_for_thread(&f, s, w.A), "fiber");
        judge(w, "fiber_release", inj, kids, [&] { return resource_release(fiber_resource_handle(f)); });
        OK(resource_release(fiber_scheduler_resource_handle(s)), "release"); o.expect_empty("scheduler"); break; }
    default: {                                                                  /* a scheduler and everything it owns */
        RCPR_SYM(fiber_scheduler)* s; RCPR_SYM(fiber_scheduler_discipline) *m = nullptr, *cd = nullptr;
        OK(fiber_scheduler_create_with_disciplines(&s, w.A), "create");
        if (R.chance(2, 3)) {
            OK(message_discipline_get_or_create(&m, w.A, s), "messages");
            for (size_t b = R(3); b-- > 0;) {
                RCPR_SYM(mailbox_address) a; OK(mailbox_create(&a, m), "mailbox");
                for (size_t i = R(4); i-- > 0;) { RCPR_SYM(message)* msg; kids.push_back(w.child()); OK(message_create(&msg, w.A, 0, kids.back()->h()), "message"); OK(message_send(a, msg, m), "send"); }
            }
        }
        if (R.chance(1, 2)) {
            OK(condition_discipline_get_or_create(&cd, w.A, s), "conditions");
            for (size_t b = R(3); b-- > 0;) { RCPR_SYM(conditional) h; OK(conditional_create(&h, cd), "conditional"); }
        }
        if (R.chance(1, 2)) {
            int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) inconclusive("socketpair");
            RCPR_SYM(psock) *p, *as; OK(psock_create_from_descriptor(&p, w.A, fd[0]), "create"); RCPR_SYM(fiber)* me; OK(disciplined_fiber_scheduler_current_fiber_get(&me, s), "current"); OK(psock_create_wrap_async(&as, w.A, me, p), "wrap_async");
            judge(w, "wrap_async_release", inj, {}, [&] { return resource_release(psock_resource_handle(as)); });
            close(fd[1]);
        }
        for (size_t i = inj ? 0 : R(3); i-- > 0;) { RCPR_SYM(fiber)* f; OK(fiber_create(&f, w.A, s, 16384, nullptr, &nothing), "fiber"); OK(fiber_scheduler_add(s, f), "add"); }
        /* a failure of the run queue itself is fatal by design: its node is the first block given back, and no other fiber is queued */
        judge(w, "scheduler_release", inj, kids, [&] { return resource_release(fiber_scheduler_resource_handle(s)); }, 2); }
    }
    w.A.expect_empty("after the release");
    SEM(mapped_count() == 0, "mapped", "stacks are still mapped after the release");
    expect_fds(f0, "release");
    nontrivial(mix(log_hash(), kind * 64 + w.n));
}
