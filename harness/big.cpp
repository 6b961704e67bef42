/* Sizes and counts beyond the machine-word and page edges that small histories never reach:
   the same oracles as the small workloads, on a few large cases. */
#include "mon.h"
#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_condition; RCPR_IMPORT_message; RCPR_IMPORT_fiber;
RCPR_IMPORT_thread; RCPR_IMPORT_uuid; RCPR_IMPORT_bigint; RCPR_IMPORT_string_as(rs);
#include "src/bigint/bigint_internal.h"
#include "psockval.h"
using namespace mon;
using pv::Val;
typedef RCPR_SYM(resource) resource_t;
typedef RCPR_SYM(fiber) Fiber;
typedef RCPR_SYM(rcpr_uuid) Uuid;

/* one case in eight is large */
static size_t pick(Ctx& c, size_t medium, size_t large) {
    static const size_t edge[] = {254, 255, 256, 257, 258, 511, 512, 513};
    if (c.n % 8 == 1 && large > 65600) return c.rng.chance(1, 2) ? 65530 + c.rng(12) : c.rng.range(65537, large);
    return c.rng.chance(1, 2) ? edge[c.rng(8)] : c.rng.range(200, medium);
}

/* ------------------------------------------------------------ containers */
SCENARIO("C05 C10 C01", big_list, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; Alloc A; ResPool P; RCPR_SYM(list) *l, *o; OK(list_create(&l, A), "create"); OK(list_create(&o, A), "create"); log("list %zu", n);
    std::deque<Res*> m; RCPR_SYM(list_node)* nd = nullptr; size_t swaps = 0;
    for (size_t i = 0; i < n; ++i) {
        Res* r = P.make();
        switch (R(4)) {
            case 0: OK(list_insert_head(l, r->h()), "insert_head"); m.push_front(r); break;
            case 1: if (m.size() > 1) { OK(list_head(&nd, l), "head"); OK(list_append(nd, r->h()), "append"); m.insert(m.begin() + 1, r); break; }  /* fall through */
            default: OK(list_append_tail(l, r->h()), "append_tail"); m.push_back(r);
        }
        if ((m.size() & 0xff) < 3 || m.size() > 65533) SEM(list_count(l) == m.size(), "count", "a list of %zu entries counts %zu", m.size(), list_count(l));
        if (R.chance(1, 4000)) { list_swap(l, o); SEM(list_count(o) == m.size() && list_count(l) == 0, "swap_count", "counts after a swap"); list_swap(o, l); ++swaps; }
    }
    size_t k = 0; OK(list_head(&nd, l), "head");
    for (; nd; ++k) { resource_t* x; OK(list_node_child(&x, nd), "child"); SEM(k < m.size() && x == m[k]->h(), "order", "entry %zu of %zu is another one", k, m.size()); OK(list_node_next(&nd, nd), "next"); }
    SEM(k == m.size(), "length", "%zu entries by walking, expected %zu", k, m.size());
    OK(list_tail(&nd, l), "tail"); for (k = m.size(); nd; ) { resource_t* x; SEM(k > 0, "length", "more entries backwards than forwards"); OK(list_node_child(&x, nd), "child"); SEM(x == m[--k]->h(), "order", "entry %zu backwards is another one", k); OK(list_node_prev(&nd, nd), "prev"); }
    SEM(k == 0, "length", "walking backwards stopped %zu entries early", k);
    if (R.chance(1, 2)) {               /* swapped with another, every node stands for its own list's entry */
        std::deque<Res*> m2; size_t n2 = R.chance(1, 3) ? R(3) : R(std::min(n, (size_t)3000));
        for (size_t i = 0; i < n2; ++i) { Res* r = P.make(); OK(list_append_tail(o, r->h()), "append_tail"); m2.push_back(r); }
        list_swap(l, o); std::swap(m, m2); ++swaps;
        for (int side = 0; side < 2; ++side) {
            auto* L = side ? o : l; auto* U = side ? l : o; std::deque<Res*>& M = side ? m2 : m; size_t other = list_count(U), at = 0; std::deque<Res*> N;
            SEM(list_count(L) == M.size(), "swap_count", "after a swap a list of %zu entries counts %zu", M.size(), list_count(L));
            OK(list_head(&nd, L), "head"); for (; nd; ++at) {
                RCPR_SYM(list_node)* nx; OK(list_node_next(&nx, nd), "next");
                bool before = R.chance(1, 60), after = R.chance(1, 60) || !nx;
                if (before) { Res* r = P.make(); OK(list_insert(nd, r->h()), "insert"); N.push_back(r); }
                SEM(at < M.size(), "swap_order", "a swapped list has more than %zu entries", M.size()); N.push_back(M[at]);
                if (after) { Res* r = P.make(); OK(list_append(nd, r->h()), "append"); N.push_back(r); }
                if (before || after) SEM(list_count(L) == M.size() + (N.size() - at - 1) && list_count(U) == other, "swap_count", "after inserting at entry %zu of a swapped list the counts are %zu and %zu", at, list_count(L), list_count(U));
                nd = nx;
            }
            SEM(at == M.size(), "swap_order", "a swapped list has %zu entries, expected %zu", at, M.size()); M = N; k = 0;
            OK(list_head(&nd, L), "head"); for (; nd; ++k) { resource_t* x; OK(list_node_child(&x, nd), "child"); SEM(k < M.size() && x == M[k]->h(), "swap_order", "entry %zu of a swapped list is another one", k); OK(list_node_next(&nd, nd), "next"); }
            SEM(k == M.size(), "swap_order", "a swapped list has %zu entries, expected %zu", k, M.size());
        }
        list_swap(l, o); std::swap(m, m2);
    }
    if (R.chance(1, 3)) {               /* emptied at once, and used again */
        OK(list_clear(l), "clear"); SEM(list_count(l) == 0, "count", "a cleared list counts %zu", list_count(l)); m.clear();
        for (size_t i = R(5); i; --i) { Res* r = P.make(); OK(list_append_tail(l, r->h()), "append_tail"); m.push_back(r); SEM(list_count(l) == m.size(), "count", "a list used again after clearing counts %zu", list_count(l)); }
    }
    size_t pops = R.chance(1, 2) ? m.size() : R(m.size() + 1);
    for (size_t i = 0; i < pops; ++i) { resource_t* x = nullptr; OK(list_pop(l, &x), "pop"); SEM(x == m.front()->h(), "pop_order", "pop %zu gave another entry", i); OK(resource_release(x), "release"); m.pop_front(); if ((i & 0xff) == 0) SEM(list_count(l) == m.size(), "count", "a list of %zu entries counts %zu", m.size(), list_count(l)); }
    if (R.chance(1, 2)) { OK(list_clear(l), "clear"); SEM(list_count(l) == 0, "count", "a cleared list counts %zu", list_count(l)); }
    OK(resource_release(list_resource_handle(l)), "release"); OK(resource_release(list_resource_handle(o)), "release");
    P.expect([](Res*) { return 1u; }, "big_list"); A.expect_empty("big_list"); maxof("list_entries", n); nontrivial(mix(n, c.n));
}
SCENARIO("C06 C10 C01", big_slist, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; Alloc A; ResPool P; RCPR_SYM(slist)* l; OK(slist_create(&l, A), "create"); log("slist %zu", n);
    std::deque<Res*> m; RCPR_SYM(slist_node)* nd = nullptr;
    for (size_t i = 0; i < n; ++i) {
        Res* r = P.make();
        switch (R(5)) {
            case 0: OK(slist_insert_head(l, r->h()), "insert_head"); m.push_front(r); break;
            case 1: if (m.size() > 1) { OK(slist_head(&nd, l), "head"); OK(slist_append(nd, r->h()), "append"); m.insert(m.begin() + 1, r); break; }  /* fall through */
            case 2: if (m.size() > 1) { OK(slist_tail(&nd, l), "tail"); OK(slist_append(nd, r->h()), "append"); m.push_back(r); break; }  /* fall through */
            default: OK(slist_append_tail(l, r->h()), "append_tail"); m.push_back(r);
        }
        if ((m.size() & 0xff) < 3 || m.size() > 65533) SEM(slist_count(l) == m.size(), "count", "a list of %zu entries counts %zu", m.size(), slist_count(l));
    }
    size_t k = 0; OK(slist_head(&nd, l), "head");
    for (; nd; ++k) { resource_t* x; OK(slist_node_child(&x, nd), "child"); SEM(k < m.size() && x == m[k]->h(), "order", "entry %zu of %zu is another one", k, m.size()); OK(slist_node_next(&nd, nd), "next"); }
    SEM(k == m.size(), "length", "%zu entries by walking, expected %zu", k, m.size());
    if (R.chance(1, 2)) {               /* swapped with another, every node stands for its own list's entry */
        RCPR_SYM(slist)* o; OK(slist_create(&o, A), "create");
        std::deque<Res*> m2; size_t n2 = R.chance(1, 3) ? R(3) : R(std::min(n, (size_t)3000));
        for (size_t i = 0; i < n2; ++i) { Res* r = P.make(); OK(slist_append_tail(o, r->h()), "append_tail"); m2.push_back(r); }
        slist_swap(l, o); std::swap(m, m2);
        for (int side = 0; side < 2; ++side) {
            auto* L = side ? o : l; auto* U = side ? l : o; std::deque<Res*>& M = side ? m2 : m; size_t other = slist_count(U), at = 0; std::deque<Res*> N;
            SEM(slist_count(L) == M.size(), "swap_count", "after a swap a list of %zu entries counts %zu", M.size(), slist_count(L));
            OK(slist_head(&nd, L), "head"); for (; nd; ++at) {
                RCPR_SYM(slist_node)* nx; OK(slist_node_next(&nx, nd), "next");
                SEM(at < M.size(), "swap_order", "a swapped list has more than %zu entries", M.size()); N.push_back(M[at]);
                if (R.chance(1, 40) || !nx) { Res* r = P.make(); OK(slist_append(nd, r->h()), "append"); N.push_back(r);
                    SEM(slist_count(L) == M.size() + (N.size() - at - 1) && slist_count(U) == other, "swap_count", "after inserting at entry %zu of a swapped list the counts are %zu and %zu", at, slist_count(L), slist_count(U)); }
                nd = nx;
            }
            SEM(at == M.size(), "swap_order", "a swapped list has %zu entries, expected %zu", at, M.size()); M = N; k = 0;
            OK(slist_head(&nd, L), "head"); for (; nd; ++k) { resource_t* x; OK(slist_node_child(&x, nd), "child"); SEM(k < M.size() && x == M[k]->h(), "swap_order", "entry %zu of a swapped list is another one", k); OK(slist_node_next(&nd, nd), "next"); }
            SEM(k == M.size(), "swap_order", "a swapped list has %zu entries, expected %zu", k, M.size());
        }
        slist_swap(l, o); std::swap(m, m2); OK(resource_release(slist_resource_handle(o)), "release");
    }
    if (R.chance(1, 3)) {               /* emptied at once, and used again */
        OK(slist_clear(l), "clear"); SEM(slist_count(l) == 0, "count", "a cleared list counts %zu", slist_count(l)); m.clear();
        for (size_t i = R(5); i; --i) { Res* r = P.make(); OK(slist_append_tail(l, r->h()), "append_tail"); m.push_back(r); SEM(slist_count(l) == m.size(), "count", "a list used again after clearing counts %zu", slist_count(l)); }
    }
    size_t pops = R.chance(1, 2) ? m.size() : R(m.size() + 1);
    for (size_t i = 0; i < pops; ++i) { resource_t* x = nullptr; OK(slist_pop(l, &x), "pop"); SEM(x == m.front()->h(), "pop_order", "pop %zu gave another entry", i); OK(resource_release(x), "release"); m.pop_front(); if ((i & 0xff) == 0) SEM(slist_count(l) == m.size(), "count", "a list of %zu entries counts %zu", m.size(), slist_count(l)); }
    OK(resource_release(slist_resource_handle(l)), "release");
    P.expect([](Res*) { return 1u; }, "big_slist"); A.expect_empty("big_slist"); maxof("slist_entries", n); nontrivial(mix(n, c.n));
}
SCENARIO("C07 C01", big_queue, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; Alloc A; ResPool P; RCPR_SYM(queue)* q; OK(queue_create(&q, A), "create"); std::deque<Res*> m; log("queue %zu", n);
    for (size_t i = 0; i < n + n / 2; ++i) {
        if (R.chance(5, 6) && i < n + 100) { Res* r = P.make(); if (R.chance(1, 8)) { OK(queue_insert(q, r->h()), "insert"); m.push_front(r); } else { OK(queue_append(q, r->h()), "append"); m.push_back(r); } }
        else { resource_t* x = nullptr; OK(queue_pop(q, &x), "pop"); SEM(x == (m.empty() ? nullptr : m.front()->h()), "pop_order", "pop at %zu entries gave another one", m.size()); if (x) { OK(resource_release(x), "release"); m.pop_front(); } }
        if ((m.size() & 0xff) < 3 || m.size() > 65533) SEM(queue_count(q) == m.size(), "count", "a queue of %zu entries counts %zu", m.size(), queue_count(q));
    }
    OK(resource_release(queue_resource_handle(q)), "release");
    P.expect([](Res*) { return 1u; }, "big_queue"); A.expect_empty("big_queue"); maxof("queue_entries", n); nontrivial(mix(n, c.n));
}
static RCPR_SYM(rcpr_comparison_result) key_cmp(void* x, const void* l, const void* r) { ++*(uint64_t*)x; uint64_t a = *(const uint64_t*)l, b = *(const uint64_t*)r; return a < b ? RCPR_COMPARE_LT : a > b ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static const void* key_of(void*, const resource_t* r) { return &((const Res*)r)->key; }
SCENARIO("C08 C09 C10 C01", big_tree, 1) {
    size_t n = pick(c, 6000, 72000);
    Rng& R = c.rng; Alloc A; ResPool P; uint64_t cmps = 0; RCPR_SYM(rbtree)* t; OK(rbtree_create(&t, A, &key_cmp, &key_of, &cmps), "create");
    std::map<uint64_t, Res*> m; unsigned way = (unsigned)R(4); log("tree %zu way %u", n, way);
    auto bound = [&] { unsigned b = 2; size_t z = m.size() + 1; while (z >>= 1) b += 2; return b; };
        auto find = [&](uint64_t k, bool there) {
        resource_t* x = (resource_t*)&A; cmps = 0; status rc = rbtree_find(&x, t, &k); 
        SEM(cmps <= bound(), "find_cost", "finding a key among %zu took %llu comparisons", m.size(), (unsigned long long)cmps);
        if (there) SEM(rc == STATUS_SUCCESS && x == m[k]->h(), "find", "key %llu is not found among %zu (0x%x)", (unsigned long long)k, m.size(), rc); else SEM(rc != STATUS_SUCCESS, "find_absent", "an absent key is found");
    };
    for (size_t i = 0; i < n; ++i) {
        uint64_t k = way == 0 ? i : way == 1 ? n - i : way == 2 ? (i & 1 ? i : 2 * n - i) : R.next() >> 20;
        k *= 2; if (m.count(k)) continue;
        Res* r = P.make(); r->key = k; OK(rbtree_insert(t, r->h()), "insert"); m[k] = r;
        if ((m.size() & 0xff) < 3 || m.size() > 65533) SEM(rbtree_count(t) == m.size(), "count", "a tree of %zu counts %zu", m.size(), rbtree_count(t));
        if (R.chance(1, 50)) find(k, true);
        if (R.chance(1, 50)) find(k + 1, false);
    }
    if (R.chance(1, 4)) {               /* emptied at once, swapped with another, and used again */
        OK(rbtree_clear(t), "clear"); SEM(rbtree_count(t) == 0, "count", "a cleared tree counts %zu", rbtree_count(t));
        SEM(rbtree_root_node(t) == rbtree_nil_node(t), "clear", "a cleared tree has a root");
        for (auto& e : m) SEM(e.second->released == 1, "clear_release", "clearing released a value %u times", e.second->released);
        m.clear();
        for (size_t i = R(300); i; --i) { uint64_t k = R.next() >> 20; k *= 2; if (m.count(k)) continue; Res* r = P.make(); r->key = k; OK(rbtree_insert(t, r->h()), "insert"); m[k] = r; SEM(rbtree_count(t) == m.size(), "count", "a tree used again after clearing counts %zu", rbtree_count(t)); }
    }
    if (R.chance(1, 3)) {
        RCPR_SYM(rbtree)* o; OK(rbtree_create(&o, A, &key_cmp, &key_of, &cmps), "create"); std::map<uint64_t, Res*> m2;
        for (size_t i = R(2000); i; --i) { uint64_t k = R.next() >> 20; k *= 2; if (m2.count(k)) continue; Res* r = P.make(); r->key = k; OK(rbtree_insert(o, r->h()), "insert"); m2[k] = r; }
        rbtree_swap(t, o); SEM(rbtree_count(t) == m2.size() && rbtree_count(o) == m.size(), "swap_count", "after a swap trees of %zu and %zu count %zu and %zu", m2.size(), m.size(), rbtree_count(t), rbtree_count(o));
        for (auto& e : m2) { resource_t* x; cmps = 0; SEM(rbtree_find(&x, t, &e.first) == STATUS_SUCCESS && x == e.second->h(), "swap_find", "a key is not found after a swap"); }
        if (R.chance(1, 2)) OK(rbtree_clear(t), "clear");
        rbtree_swap(t, o); OK(resource_release(rbtree_resource_handle(o)), "release");
        for (auto& e : m2) SEM(e.second->released == 1, "swap_release", "releasing a swapped tree released a value %u times", e.second->released);
        for (auto& e : m) SEM(e.second->released == 0, "swap_release", "releasing one tree released a value of the other");
    }
    std::vector<uint64_t> keys; for (auto& e : m) keys.push_back(e.first);
    if (way != 0) for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[R(i)]);
    size_t del = R.chance(1, 2) ? keys.size() : keys.size() * 9 / 10; std::vector<Res*> out;
    for (size_t i = 0; i < del; ++i) {
        resource_t* x = nullptr; bool keep = R.chance(1, 2); Res* r = m[keys[i]];
        OK(rbtree_delete(keep ? &x : nullptr, t, &keys[i]), "delete");
        if (keep) { SEM(x == r->h() && r->released == 0, "delete_value", "deleting a key handed out another value"); out.push_back(r); } else SEM(r->released == 1, "delete_release", "a deleted value was released %u times", r->released);
        m.erase(keys[i]);
        if ((m.size() & 0x3f) == 0) { SEM(rbtree_count(t) == m.size(), "count", "a tree of %zu counts %zu", m.size(), rbtree_count(t)); if (i + 1 < keys.size()) find(keys[i + 1 + R(keys.size() - i - 1)], true); find(keys[i], false); }
    }
    RCPR_SYM(rbtree_node)* nd = rbtree_minimum_node(t, rbtree_root_node(t)); size_t k = 0;
    for (auto& e : m) { SEM(nd != rbtree_nil_node(t) && rbtree_node_value(t, nd) == e.second->h(), "order", "the node at position %zu of %zu holds another value", k, m.size()); nd = rbtree_successor_node(t, nd); ++k; }
    SEM(nd == rbtree_nil_node(t), "order", "more than %zu nodes in the tree", m.size());
    for (auto* r : out) OK(resource_release(r->h()), "release");
    OK(resource_release(rbtree_resource_handle(t)), "release");
    P.expect([](Res*) { return 1u; }, "big_tree"); A.expect_empty("big_tree"); maxof("tree_entries", n); nontrivial(mix(n, c.n));
}

/* ------------------------------------------------------------ allocators */
SCENARIO("C04 C01", big_blocks, 1) {
    size_t n = pick(c, 3000, 0);
    Rng& R = c.rng; bool huge = c.n % 4 == 0; size_t sz = huge ? (size_t)6 << 30 : R.range(80000, 5000000); log("bump %zu", sz);
    uint8_t* reg = (uint8_t*)mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (reg == MAP_FAILED) { if (huge) return; inconclusive("mmap"); }
    RCPR_SYM(allocator)* a; OK(bump_allocator_create(&a, reg, sz), "create");
    struct B { uint8_t* p; size_t n; uint8_t tag; }; std::vector<B> live; size_t used = 0;
    auto check = [&] { for (auto& b : live) SEM(b.p[0] == b.tag && b.p[b.n - 1] == b.tag && b.p[b.n / 2] == b.tag, "block_content", "a block of %zu bytes was overwritten by another", b.n); };
    for (int i = 0; i < 14; ++i) {
        size_t k = huge ? (R.chance(1, 3) ? ((size_t)1 << 32) + R(100) - 50 : R.chance(1, 2) ? ((size_t)1 << 31) + R(100) - 50 : R.range(1, 5000000)) : R.chance(1, 2) ? 65530 + R(12) : R.range(1, sz / 3);
        void* p = (void*)&k; uint8_t tag = (uint8_t)(i + 1); status rc;
        if (!live.empty() && R.chance(1, 4)) {
            size_t w = R.chance(1, 2) ? live.size() - 1 : R(live.size()); p = live[w].p; size_t old = live[w].n; if (old > 10000000 && k > old) continue;    /* not worth copying */
            rc = RCPR_SYM(allocator_reallocate)(a, &p, k);
            if (rc == STATUS_SUCCESS) { uint8_t* q = (uint8_t*)p; size_t mn = old < k ? old : k; SEM(q[0] == live[w].tag && (mn < old || q[mn - 1] == live[w].tag), "realloc_content", "reallocating %zu to %zu bytes lost the content", old, k); tag = live[w].tag; live.erase(live.begin() + w); }
            else { check(); continue; }
        } else {
            rc = RCPR_SYM(allocator_allocate)(a, &p, k);
            if (rc != STATUS_SUCCESS) { SEM(used + k + 4096 > sz || live.size(), "refused", "%zu bytes were refused in an empty region of %zu", k, sz); check(); continue; }
            used += k;
        }
        uint8_t* q = (uint8_t*)p; SEM(q >= reg && q <= reg + sz && k <= (size_t)(reg + sz - q), "outside", "a block of %zu bytes lies outside its region", k);
        for (auto& b : live) SEM(q + k <= b.p || b.p + b.n <= q, "overlap", "a block of %zu bytes overlaps one of %zu", k, b.n);
        q[0] = q[k - 1] = q[k / 2] = tag; live.push_back({q, k, tag}); check();
        if (R.chance(1, 12)) { OK(RCPR_SYM(allocator_control)(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, NULL, 0), "reset"); live.clear(); used = 0; }
    }
    for (int i = 0; i < 1; ++i) SEM(reg[sz] == 0, "beyond", "the byte after the region was written");
    OK(resource_release(RCPR_SYM(allocator_resource_handle)(a)), "release"); munmap(reg, sz + 4096);
    maxof("bump_region_mib", sz >> 20); nontrivial(mix(sz, c.n));
}

/* ------------------------------------------------------------ strings */
SCENARIO("C11 C12 C13 C01", big_strings, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; Alloc A; if (R.chance(1, 6)) n = 300000 + R(1000); log("strings %zu", n);
    std::string s(n, 'x'); size_t lead = R.chance(1, 2) ? R(n / 2) : R(3), trail = R.chance(1, 2) ? R(n / 3) : R(3);
    for (size_t i = 0; i < lead; ++i) s[i] = " \t\n"[R(3)];
    for (size_t i = 0; i < trail; ++i) s[n - 1 - i] = " \t\n"[R(3)];
    { std::unique_ptr<char[]> p(new char[n + 1]); memcpy(p.get(), s.c_str(), n + 1); RCPR_SYM(left_trim)(p.get()); SEM(s.substr(lead) == p.get(), "left_trim", "trimming %zu leading blanks of %zu", lead, n); }
    { std::unique_ptr<char[]> p(new char[n + 1]); memcpy(p.get(), s.c_str(), n + 1); RCPR_SYM(right_trim)(p.get()); SEM(s.substr(0, n - trail) == p.get(), "right_trim", "trimming %zu trailing blanks of %zu", trail, n); }
    { std::unique_ptr<char[]> p(new char[n + 1]); memcpy(p.get(), s.c_str(), n + 1); RCPR_SYM(trim)(p.get()); SEM(s.substr(lead, n - trail - lead) == p.get(), "trim", "trimming %zu and %zu blanks of %zu", lead, trail, n); }
    { const std::string w = s.substr(lead, n - trail - lead); SEM(RCPR_SYM(starts_with)(s.c_str(), s.substr(0, n - 1).c_str()) && !RCPR_SYM(starts_with)(s.substr(0, n - 1).c_str(), s.c_str()), "starts_with", "prefix of %zu bytes", n - 1); }
    {   /* words, each of a length of its own */
        std::string t; std::vector<std::string> want; while (t.size() < n) { want.push_back(std::string(R.chance(1, 30) ? 1 + R(n) : 1 + R(9), (char)('a' + R(26)))); t += want.back(); t += std::string(R.chance(1, 40) ? 1 + R(5000) : 1, ' '); }
        std::unique_ptr<char[]> p(new char[t.size() + 1]); memcpy(p.get(), t.c_str(), t.size() + 1); RCPR_SYM(string_iterator) it; const char* w; size_t k = 0;
        for (status rc = RCPR_SYM(words)(&w, &it, p.get()); rc == STATUS_SUCCESS; rc = RCPR_SYM(words)(&w, &it, nullptr), ++k) SEM(k < want.size() && want[k] == w, "words", "word %zu of %zu is another one", k, want.size());
        SEM(k == want.size(), "words", "%zu words found, expected %zu", k, want.size());
        const char *l, *r;
        for (size_t e = 1; e < t.size() && e <= 1u << 19; e *= 2) for (size_t at = e - 1; at <= e + 1 && at < t.size(); ++at) {    /* around every power of two */
            size_t z = std::min(t.size(), at + 1 + R(30)); std::unique_ptr<char[]> u(new char[z + 1]); memcpy(u.get(), t.c_str(), z); u[z] = 0; u[at] = '\x01'; std::string was(u.get());
            OK(RCPR_SYM(split)(&l, &r, u.get(), 1), "split"); SEM(was.substr(0, at) == l && was.substr(at + 1) == r, "split", "a string of %zu bytes was not split at %zu", z, at);
        }
        memcpy(p.get(), t.c_str(), t.size() + 1); size_t at = R(t.size()); p[at] = '\x01'; std::string u(p.get());
        OK(RCPR_SYM(split)(&l, &r, p.get(), 1), "split"); SEM(u.substr(0, at) == l && u.substr(at + 1) == r, "split", "a string of %zu bytes was not split at %zu", u.size(), at);
    }
    { char* d = nullptr; OK(RCPR_SYM(strdup)(&d, A, s.c_str()), "strdup"); SEM(s == d && A.size_of(d) == n + 1, "strdup", "a duplicate of %zu bytes differs", n); OK(RCPR_SYM(allocator_reclaim)(A, d), "reclaim"); }
    { char* d = nullptr; std::string b(R(n), 'b'), e(n, 'c'); OK(rs_strcatv(&d, A, s.c_str(), b.c_str(), "-", e.c_str(), (char*)NULL), "strcatv"); SEM(s + b + "-" + e == d, "strcat", "the concatenation of %zu bytes differs", s.size() + b.size() + e.size()); OK(RCPR_SYM(allocator_reclaim)(A, d), "reclaim"); }
    A.expect_empty("big_strings"); maxof("string_bytes", n); nontrivial(mix(n, c.n));
}

/* ------------------------------------------------------------ values and buffers */
SCENARIO("C19 C20 C21 C22 C01", big_values, 1) {
    size_t n = pick(c, 9000, 72000);
    Rng& R = c.rng; Alloc A; log("values %zu", n);
    psock* o; OK(psock_create_from_buffer(&o, A, NULL, 0), "create"); std::vector<Val> v; std::string all;
    for (size_t i = 0, k = R.range(1, 5); i < k; ++i) {
        Val x = pv::make(R, 10); if (i == 0 || R.chance(1, 2)) { static const int K[] = {pv::STR, pv::DATA, pv::RDATA}; x.k = (pv::Kind)K[R(3)]; x.u = 0; size_t z = R.chance(1, 5) ? ((size_t)1 << 20) + R(5) : R.chance(1, 8) ? ((size_t)1 << 24) + R(3) : n; x.s.resize(z); for (size_t j = 0; j < z; ++j) x.s[j] = (char)(1 + (j * 31 + i) % 251); }
        OK(pv::write(o, x), "write"); all += pv::encode(x); v.push_back(x);
    }
    void* d = nullptr; size_t dn = 0; OK(psock_from_buffer_get_output_buffer(o, A, &d, &dn), "output"); SEM(dn == all.size() && !memcmp(d, all.data(), dn), "output_bytes", "%zu bytes written, %zu collected or other ones", all.size(), dn); OK(resource_release(psock_resource_handle(o)), "release");
    psock *in, *rd; psock_br* br = nullptr; OK(psock_create_from_buffer(&in, A, (const char*)d, dn), "create"); OK(RCPR_SYM(allocator_reclaim)(A, d), "reclaim"); rd = in; if (R.chance(1, 2)) { OK(psock_br_create_from_psock(&br, A, in), "br"); rd = psock_br_psock_adapter(br); }
    for (auto& x : v) { Val g; g.k = x.k; g.u = 0; OK(pv::read(rd, A, R, g, x.s.size()), "read"); pv::same(x, g, "big"); }
    char b[4]; size_t bn = 4; status rc = psock_read_raw(rd, b, &bn); SEM(rc != STATUS_SUCCESS || bn == 0, "extra", "bytes left after the last value");
    if (br) OK(resource_release(psock_br_resource_handle(br)), "release");
    OK(resource_release(psock_resource_handle(in)), "release");
    A.expect_empty("big_values"); maxof("value_bytes", all.size()); nontrivial(mix(all.size(), c.n));
}
SCENARIO("C22 C01", big_lines, 1) {
    size_t n = pick(c, 9000, 72000);
    Rng& R = c.rng; Alloc A; std::string all; std::vector<std::string> L; log("lines %zu", n);
    for (size_t i = 0, k = R.range(2, 200); i < k && all.size() < 400000; ++i) { std::string x(R.chance(1, 12) ? n : R(200), (char)('a' + i % 26)); for (auto& ch : x) if (R.chance(1, 50)) ch = (char)R.range(32, 255); L.push_back(x); all += x + "\n"; }
    psock* in; psock_br* br; OK(psock_create_from_buffer(&in, A, all.data(), all.size()), "create"); OK(psock_br_create_from_psock(&br, A, in), "br");
    size_t cap = 1 + (R.chance(1, 2) ? 100000 : R.range(1, 500)); std::unique_ptr<char[]> b(new char[cap + 1]);
    for (size_t i = 0; i < L.size(); ++i) {
        std::string got;
        for (int part = 0;; ++part) {
            if (part > 100000) fail("sem", "line_endless", "line %zu never ends", i);
            size_t z = cap + 1; status rc = psock_br_read_line(b.get(), &z, br);
            if (rc == STATUS_SUCCESS) { SEM(z >= 1 && z <= cap + 1 && b[z - 1] == 0, "line_size", "a line reports %zu bytes", z); got.append(b.get(), z - 1); break; }
            SEM(rc == ERROR_PSOCK_BR_READ_LINE_TRUNCATED, "line_fails", "reading line %zu failed 0x%x", i, rc); SEM(z <= cap + 1 && z >= 1, "line_size", "a truncated line reports %zu bytes of %zu", z, cap + 1); got.append(b.get(), strnlen(b.get(), z));
        }
        if (i < L.size() && got != L[i]) { /* an embedded zero cannot occur; bytes must match */ SEM(false, "line_bytes", "line %zu of %zu bytes was read as %zu bytes or other ones", i, L[i].size(), got.size()); }
    }
    OK(resource_release(psock_br_resource_handle(br)), "release"); OK(resource_release(psock_resource_handle(in)), "release");
    A.expect_empty("big_lines"); maxof("line_bytes", n); nontrivial(mix(all.size(), c.n));
}

/* ------------------------------------------------------------ descriptors with large numbers */
SCENARIO("C24 C25 C34 C01", big_descriptors, 1) {
    Rng& R = c.rng; auto f0 = fds(); Alloc A; struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
    size_t top = R.chance(1, 2) ? 240 + R(40) : 1000 + R(80); if (rl.rlim_cur < top + 60) top = 240; log("above %zu", top);
    std::vector<int> fill; for (;;) { int d = fcntl(0, F_DUPFD, 3); if (d < 0) inconclusive("descriptor 0 is not open"); fill.push_back(d); if ((size_t)d >= top) break; }
    int fd[2]; if (socketpair(AF_UNIX, SOCK_DGRAM, 0, fd)) inconclusive("pair");
    psock *w, *r; OK(psock_create_from_descriptor(&w, A, fd[0]), "create"); OK(psock_create_from_descriptor(&r, A, fd[1]), "create");
    SEM(psock_socket_type(w) == PSOCK_SOCKET_TYPE_DATAGRAM, "type", "a datagram socket with a large number reports kind %d", (int)psock_socket_type(w));
    for (int i = 0; i < 6; ++i) {
        int m = (int)memfd_create("m", 0), d = -1; struct stat a, b; OK(psock_write_raw_descriptor(w, m), "send"); OK(psock_read_raw_descriptor(r, &d), "receive");
        SEM(d > (int)top && !fstat(m, &a) && !fstat(d, &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev, "descriptor", "descriptor %d arrived as %d, which is another file", m, d); close(d); close(m);
    }
    psock *l, *a; struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); auto before = fds(); OK(psock_create_from_listen_address(&l, A, (struct sockaddr*)&sa, sizeof sa), "listen");
    int lf = -1; for (auto& e : fds()) if (!before.count(e.first)) lf = e.first;
    socklen_t sl = sizeof sa; getsockname(lf, (struct sockaddr*)&sa, &sl); psock* cn; OK(psock_create_from_hostname_and_port(&cn, A, "127.0.0.1", ntohs(sa.sin_port)), "connect");
    int d = -1; OK(psock_accept(l, &d, (struct sockaddr*)&sa, &sl), "accept"); SEM(d > (int)top, "accept", "accept handed out %d", d); struct linger li = {1, 0}; setsockopt(d, SOL_SOCKET, SO_LINGER, &li, sizeof li);
    OK(psock_create_from_descriptor(&a, A, d), "create"); uint64_t v = R.next(), x = 0; OK(psock_write_raw_uint64(cn, v), "write"); OK(psock_read_raw_uint64(a, &x), "read"); SEM(x == v, "value", "another value arrived");
    for (auto* s : {a, cn, l, w, r}) OK(resource_release(psock_resource_handle(s)), "release");
    for (int f : fill) close(f);
    A.expect_empty("big_descriptors"); expect_fds(f0, "big_descriptors"); maxof("descriptor", top); nontrivial(mix(top, c.n));
}

/* ------------------------------------------------------------ fibers, messages, conditions, disciplines */
struct FW { Alloc A; RCPR_SYM(fiber_scheduler)* s; RCPR_SYM(fiber_scheduler_discipline) *cd = nullptr, *md = nullptr; RCPR_SYM(conditional) gate, pause; std::vector<size_t> order; };
struct FB { FW* w; size_t id; Fiber* f; unsigned rounds; RCPR_SYM(conditional) mine; };
static status fb_body(void* p) {
    FB* b = (FB*)p;
    for (unsigned i = 0; i < b->rounds; ++i) { OK(conditional_wait(b->mine, b->w->cd), "wait"); b->w->order.push_back(b->id); }
    b->w->order.push_back(b->id + 1000000);
    return STATUS_SUCCESS;
}
static void fw_up(FW& w) { OK(fiber_scheduler_create_with_disciplines(&w.s, w.A), "scheduler"); OK(condition_discipline_get_or_create(&w.cd, w.A, w.s), "cond"); OK(message_discipline_get_or_create(&w.md, w.A, w.s), "msg"); OK(conditional_create(&w.gate, w.cd), "create"); OK(conditional_create(&w.pause, w.cd), "create"); }
static void fw_down(FW& w) { OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(w.s)), "release"); w.A.expect_empty("big_fibers"); SEM(mapped_count() == 0, "stacks_mapped", "stacks are still mapped"); }
SCENARIO("C27 C31 C26 C01", big_waiters, 1) {
    size_t n = pick(c, 700, 0);
    Rng& R = c.rng; FW w; fw_up(w); std::vector<std::unique_ptr<FB>> f; unsigned rounds = (unsigned)R.range(1, 3); bool own = R.chance(1, 3); log("waiters %zu own=%d", n, own);
    auto step = [&] { OK(conditional_notify_one(w.pause, w.cd), "yield"); };
    for (size_t i = 0; i < n; ++i) { auto b = std::make_unique<FB>(); b->w = &w; b->id = i; b->rounds = rounds; b->mine = w.gate; if (own) OK(conditional_create(&b->mine, w.cd), "create"); OK(fiber_create(&b->f, w.A, w.s, 131072, b.get(), &fb_body), "fiber_create"); OK(fiber_scheduler_add(w.s, b->f), "add"); f.push_back(std::move(b)); }
    step(); SEM(w.order.empty(), "early", "a waiter went on before it was notified");
    std::set<uint64_t> ids; for (auto& b : f) ids.insert((uint64_t)b->mine); if (own) SEM(ids.size() == n, "handles", "%zu conditionals have %zu handles", n, ids.size());
    for (unsigned r = 0; r < rounds; ++r) {
        w.order.clear(); std::vector<size_t> want;
        if (own) { for (size_t i = 0; i < n; ++i) { size_t k = (i * 7 + r) % n; bool fresh = std::find(want.begin(), want.end(), k) == want.end(); if (!fresh) continue; OK(conditional_notify_one(f[k]->mine, w.cd), "notify"); want.push_back(k); if (r + 1 == rounds) want.push_back(k + 1000000); } std::vector<size_t> rest; for (size_t i = 0; i < n; ++i) if (std::find(want.begin(), want.end(), i) == want.end()) { OK(conditional_notify_one(f[i]->mine, w.cd), "notify"); want.push_back(i); if (r + 1 == rounds) want.push_back(i + 1000000); } }
        else { if (R.chance(1, 2)) OK(conditional_notify_all(w.gate, w.cd), "notify_all"); else for (size_t i = 0; i < n; ++i) OK(conditional_notify_one(w.gate, w.cd), "notify_one"); for (size_t i = 0; i < n; ++i) { want.push_back(i); if (r + 1 == rounds) want.push_back(i + 1000000); } }
        for (int i = 0; i < 3; ++i) step();
        SEM(w.order == want, "wake_order", "%zu waiters: %zu of them went on in round %u, or in another order", n, w.order.size(), r);
    }
    fw_down(w); maxof("waiters", n); nontrivial(mix(n, c.n));
}
/* more conditionals than sixteen bits count, each with a handle of its own that reaches its own waiter */
SCENARIO("C31 C01", big_conditionals, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; FW w; fw_up(w); log("conditionals %zu", n); std::vector<RCPR_SYM(conditional)> h(n); std::set<uint64_t> ids;
    for (auto& x : h) { OK(conditional_create(&x, w.cd), "create"); ids.insert((uint64_t)x); }
    SEM(ids.size() == n, "handles", "%zu conditionals have %zu handles", n, ids.size());
    auto step = [&] { OK(conditional_notify_one(w.pause, w.cd), "yield"); };
    std::vector<std::unique_ptr<FB>> f; std::set<size_t> used;
    for (size_t i = 0; i < 12; ++i) { size_t at = i == 0 ? n - 1 : i == 1 && n > 65536 ? n - 1 - 65536 : i == 2 ? n - 257 + R(2) : R(n); at %= n; if (!used.insert(at).second) continue; auto b = std::make_unique<FB>(); b->w = &w; b->id = at; b->rounds = 1; b->mine = h[at]; OK(fiber_create(&b->f, w.A, w.s, 131072, b.get(), &fb_body), "fiber"); OK(fiber_scheduler_add(w.s, b->f), "add"); f.push_back(std::move(b)); }
    step(); SEM(w.order.empty(), "early", "a waiter went on before it was notified");
    for (auto& b : f) { w.order.clear(); OK(conditional_notify_one(b->mine, w.cd), "notify"); step(); SEM(w.order == (std::vector<size_t>{b->id, b->id + 1000000}), "wake", "notifying conditional %zu of %zu woke %zu fibers, or another one", b->id, n, w.order.size() / 2); }
    while (R.chance(9, 10) && !h.empty()) { size_t k = R(h.size()); OK(conditional_close(h[k], w.cd), "close"); SEM(conditional_notify_one(h[k], w.cd) != STATUS_SUCCESS, "closed", "a closed conditional was notified"); h.erase(h.begin() + (long)k); }
    fw_down(w); maxof("conditionals", n); nontrivial(mix(n, c.n));
}
SCENARIO("C15 C01", big_numbers, 1) {
    Rng& R = c.rng; Alloc A, B; size_t bits = c.n % 16 == 3 ? ((size_t)1 << 32) + R(200) - 100 : c.n % 4 == 1 ? 64 * (65530 + R(12)) : c.n % 4 == 2 ? (size_t)8 * (65530 + R(12)) : 64 * (250 + R(300)) + R(64); size_t words = (bits + 63) / 64; log("bits %zu", bits);
    RCPR_SYM(bigint) *x, *y; OK(bigint_create_zero(&x, A, bits), "create"); SEM(x->length == words && A.size_of(x->array) >= words * 8, "bigint_width", "a number of %zu bits has %zu words and %zu bytes", bits, (size_t)x->length, A.size_of(x->array));
    uint64_t any = 0; for (size_t i = 0; i < words; ++i) any |= x->array[i]; SEM(!any, "bigint_value", "a new number of %zu bits is not zero", bits);
    for (size_t i = 0; i < words; i += words < 100000 ? 1 : 4099) x->array[i] = i * 0x9E3779B97F4A7C15ull + 1; x->array[words - 1] = 0x1122334455667788ull; x->sign = R.chance(1, 2);
    OK(bigint_clone(&y, B, x), "clone"); SEM(y->length == words && B.size_of(y->array) >= words * 8 && y->sign == x->sign, "bigint_width", "the clone of a number of %zu bits has %zu words and %zu bytes", bits, (size_t)y->length, B.size_of(y->array));
    SEM(!memcmp(x->array, y->array, words * 8), "bigint_value", "the clone of a number of %zu bits has another value", bits);
    x->array[0] ^= 1; x->array[words - 1] ^= 1; SEM(x->array[0] != y->array[0] && x->array[words - 1] != y->array[words - 1], "bigint_alias", "a clone shares storage with its source");
    bool wiped = true; uint64_t seen = 0; void* dx = x->array; A.on_reclaim = [&](void* p, size_t z) { if (p != dx) return; ++seen; for (size_t i = 0; i < z; ++i) if (((uint8_t*)p)[i]) wiped = false; };
    OK(resource_release(bigint_resource_handle(x)), "release"); SEM(seen == 1 && wiped, "bigint_wipe", "the digits of a number of %zu bits were returned without being wiped", bits); OK(resource_release(bigint_resource_handle(y)), "release");
    A.on_reclaim = nullptr; A.expect_empty("big_numbers"); B.expect_empty("big_numbers"); maxof("number_bits", bits); nontrivial(mix(bits, c.n));
}
SCENARIO("C30 C01", big_mailboxes, 1) {
    size_t n = pick(c, 3000, 72000);
    Rng& R = c.rng; FW w; fw_up(w); ResPool P; bool one = R.chance(1, 2); log("messages %zu one=%d", n, one);
    std::vector<RCPR_SYM(mailbox_address)> box; std::set<uint64_t> seen; size_t boxes = one ? 3 : n;
    for (size_t i = 0; i < boxes; ++i) { RCPR_SYM(mailbox_address) a; OK(mailbox_create(&a, w.md), "mailbox_create"); SEM(seen.insert((uint64_t)a).second, "address", "mailbox %zu has the address of another", i); box.push_back(a); }
    std::map<size_t, std::deque<Res*>> want;
    for (size_t i = 0; i < n; ++i) { Res* r = P.make(); RCPR_SYM(message)* m; size_t to = one ? (R.chance(1, 20) ? 1 : 0) : i; OK(message_create(&m, w.A, box[(to + 1) % boxes], r->h()), "message_create"); OK(message_send(box[to], m, w.md), "message_send"); want[to].push_back(r); }
    size_t left = R.chance(1, 2) ? 0 : R(n);
    for (auto& e : want) while (e.second.size() > (one && e.first == 0 ? left : 0)) {
        RCPR_SYM(message)* m = nullptr; OK(message_receive(box[e.first], &m, w.md), "message_receive"); resource_t* x = message_payload(m, true);
        SEM(x == e.second.front()->h(), "order", "a message of mailbox %zu carries another payload, %zu were left", e.first, e.second.size()); SEM(message_return_address(m) == box[(e.first + 1) % boxes], "return_address", "another return address");
        OK(resource_release(message_resource_handle(m)), "release"); SEM(e.second.front()->released == 0, "payload", "the payload taken was released with its message"); OK(resource_release(x), "release"); e.second.pop_front();
    }
    for (size_t i = 0; i < boxes; ++i) if (R.chance(1, 2)) { OK(mailbox_close(box[i], w.md), "mailbox_close"); if (one && i == 0) for (auto* r : want[0]) SEM(r->released == 1, "closed_release", "a message left in a closed mailbox was released %u times", r->released); }
    fw_down(w); P.expect([](Res*) { return 1u; }, "big_mailboxes"); maxof(one ? "messages_in_mailbox" : "mailboxes", n); nontrivial(mix(n, c.n + one));
}
struct DC { RCPR_SYM(fiber_scheduler)* s; void* ctx; int hit; void* param; unsigned calls; Uuid id; }; static DC g_dc;
template <int N> static status dcb(void* ctx, Fiber* f, int, void* param) { g_dc.ctx = ctx; g_dc.hit = N; g_dc.param = param; ++g_dc.calls; return disciplined_fiber_scheduler_set_next_fiber_to_run(g_dc.s, f, &g_dc.id, N, param); }
#define D8(n) &dcb<n>, &dcb<n + 1>, &dcb<n + 2>, &dcb<n + 3>, &dcb<n + 4>, &dcb<n + 5>, &dcb<n + 6>, &dcb<n + 7>
static RCPR_SYM(fiber_scheduler_discipline_callback_fn) dcbs[] = {D8(0), D8(8), D8(16), D8(24), D8(32), D8(40), D8(48), D8(56)};
SCENARIO("C29 C01", big_disciplines, 1) {
    size_t n = pick(c, 500, 0);
    Rng& R = c.rng; FW w; fw_up(w); struct D { RCPR_SYM(fiber_scheduler_discipline)* d; Uuid id; size_t cbs; }; std::vector<D> v; log("disciplines %zu", n);
    std::vector<char> ctx(n); g_dc = {}; g_dc.s = w.s;
    for (size_t i = 0; i < n; ++i) {
        D d; for (auto& b : d.id.data) b = (uint8_t)R.next(); d.cbs = R.chance(1, 10) ? R.range(30, 64) : R(5);
        OK(fiber_scheduler_discipline_create(&d.d, &d.id, w.A, &ctx[i], d.cbs, dcbs), "create"); OK(fiber_scheduler_discipline_add(w.s, d.d), "add"); v.push_back(d);
        if (i % 16 == 0 || i + 1 == n) for (int k = 0; k < 12; ++k) {
            auto& e = v[R.chance(1, 3) ? v.size() - 1 : R(v.size())]; RCPR_SYM(fiber_scheduler_discipline)* q = nullptr; OK(fiber_scheduler_discipline_find(&q, w.s, &e.id), "find"); SEM(q == e.d, "find", "another discipline found among %zu", v.size());
            SEM(fiber_scheduler_discipline_context_get(q) == &ctx[&e - v.data()], "context", "another context");
            if (!e.cbs) continue;
            int ev = (int)R(e.cbs), re = -1; void *p = (void*)(uintptr_t)R.next(), *rp = nullptr; const Uuid* rid = nullptr; g_dc.calls = 0; for (auto& b : g_dc.id.data) b = (uint8_t)R.next();
            OK(fiber_discipline_yield(e.d, ev, p, &rid, &re, &rp), "yield"); SEM(g_dc.calls == 1 && g_dc.hit == ev && g_dc.ctx == &ctx[&e - v.data()] && g_dc.param == p, "callback", "request %d of discipline %zu of %zu called callback %d (%u calls)", ev, (size_t)(&e - v.data()), v.size(), g_dc.hit, g_dc.calls);
            SEM(re == ev && rp == p && !memcmp(rid, &g_dc.id, sizeof g_dc.id), "resume", "the fiber was resumed with other values");
        }
    }
    if (c.n % 4 == 1) {         /* one with more requests than sixteen bits count, and one added after it */
        size_t many = R.chance(1, 2) ? 65530 + R(12) : 66000; std::vector<RCPR_SYM(fiber_scheduler_discipline_callback_fn)> cb(many); for (size_t i = 0; i < many; ++i) cb[i] = dcbs[(i * 7 + i / 64) % 64];
        Uuid id[2]; RCPR_SYM(fiber_scheduler_discipline)* d[2]; for (int k = 0; k < 2; ++k) { for (auto& b : id[k].data) b = (uint8_t)R.next(); OK(fiber_scheduler_discipline_create(&d[k], &id[k], w.A, &id[k], k ? 9 : many, cb.data()), "create"); OK(fiber_scheduler_discipline_add(w.s, d[k]), "add"); }
        for (int k = 0; k < 40; ++k) {
            int which = R.chance(1, 4); size_t ev = which ? R(9) : k == 0 ? many - 1 : k == 1 ? (many > 65536 ? 65536 : 0) : R(many); int re = -1; void* rp = nullptr; const Uuid* rid = nullptr; g_dc.calls = 0; for (auto& b : g_dc.id.data) b = (uint8_t)R.next();
            OK(fiber_discipline_yield(d[which], (int)ev, &ev, &rid, &re, &rp), "yield"); SEM(g_dc.calls == 1 && g_dc.hit == (int)((ev * 7 + ev / 64) % 64) && g_dc.ctx == &id[which] && g_dc.param == &ev, "callback", "request %zu of a discipline of %zu called callback %d", ev, which ? (size_t)9 : many, g_dc.hit);
        }
    }
    fw_down(w); maxof("disciplines", n); nontrivial(mix(n, c.n));
}

/* ------------------------------------------------------------ many threads */
struct TW { std::atomic<unsigned> ran{0}; };
static status tw_fn(void* p) { ((TW*)p)->ran++; return STATUS_SUCCESS; }
SCENARIO("C17 C01", big_threads, 1) {
    Rng& R = c.rng; Alloc A; size_t n = R.range(250, 300); std::vector<RCPR_SYM(thread)*> t(n); std::vector<TW> w(n);
    for (size_t i = 0; i < n; ++i) OK(thread_create(&t[i], A, 65536 + 65536 * R(3), &w[i], tw_fn), "thread_create");
    for (size_t i = 0; i < n; ++i) { OK(resource_release(thread_resource_handle(t[i])), "release"); SEM(w[i].ran == 1, "ran", "thread %zu of %zu ran %u times", i, n, w[i].ran.load()); }
    A.expect_empty("big_threads"); maxof("threads", n); nontrivial(mix(n, c.n));
}
