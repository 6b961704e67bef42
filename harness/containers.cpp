/* list, slist, queue, rbtree: differential histories against std:: models. */
#include "mon.h"
#include <algorithm>
#include <cmath>
#include <list>
#include <memory>
#include <rcpr/list.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>

RCPR_IMPORT_list;
RCPR_IMPORT_slist;
RCPR_IMPORT_queue;
RCPR_IMPORT_rbtree;
RCPR_IMPORT_compare;

using namespace mon;
typedef RCPR_SYM(resource) resource_t;
static const status REL_FAIL = 0x7A01;

enum Mode { HIST = 0, SWAP = 1, OOM = 2, RELFAIL = 4 };

/* ---------------------------------------------------------------- adapters */
struct DL {
    typedef RCPR_SYM(list) L; typedef RCPR_SYM(list_node) N;
    static constexpr bool dbl = true; static constexpr const char* nm = "list";
    static status create(L** l, RCPR_SYM(allocator)* a) { return list_create(l, a); }
    static status ins_head(L* l, resource_t* r) { return list_insert_head(l, r); }
    static status app_tail(L* l, resource_t* r) { return list_append_tail(l, r); }
    static status app(N* n, resource_t* r) { return list_append(n, r); }
    static status ins(N* n, resource_t* r) { return list_insert(n, r); }
    static status cswap(N* n, resource_t** r) { return list_node_child_swap(n, r); }
    static status pop(L* l, resource_t** r) { return list_pop(l, r); }
    static status next_pop(N*, resource_t**) { return STATUS_SUCCESS; }
    static void swap(L* a, L* b) { list_swap(a, b); }
    static status clear(L* l) { return list_clear(l); }
    static status head(N** n, L* l) { return list_head(n, l); }
    static status tail(N** n, L* l) { return list_tail(n, l); }
    static size_t cnt(L* l) { return list_count(l); }
    static status child(resource_t** r, N* n) { return list_node_child(r, n); }
    static status next(N** m, N* n) { return list_node_next(m, n); }
    static status prev(N** m, N* n) { return list_node_prev(m, n); }
    static resource_t* h(L* l) { return list_resource_handle(l); }
};
struct SL {
    typedef RCPR_SYM(slist) L; typedef RCPR_SYM(slist_node) N;
    static constexpr bool dbl = false; static constexpr const char* nm = "slist";
    static status create(L** l, RCPR_SYM(allocator)* a) { return slist_create(l, a); }
    static status ins_head(L* l, resource_t* r) { return slist_insert_head(l, r); }
    static status app_tail(L* l, resource_t* r) { return slist_append_tail(l, r); }
    static status app(N* n, resource_t* r) { return slist_append(n, r); }
    static status ins(N*, resource_t*) { return STATUS_SUCCESS; }
    static status cswap(N* n, resource_t** r) { return slist_node_child_swap(n, r); }
    static status pop(L* l, resource_t** r) { return slist_pop(l, r); }
    static status next_pop(N* n, resource_t** r) { return slist_node_next_pop(n, r); }
    static void swap(L* a, L* b) { slist_swap(a, b); }
    static status clear(L* l) { return slist_clear(l); }
    static status head(N** n, L* l) { return slist_head(n, l); }
    static status tail(N** n, L* l) { return slist_tail(n, l); }
    static size_t cnt(L* l) { return slist_count(l); }
    static status child(resource_t** r, N* n) { return slist_node_child(r, n); }
    static status next(N** m, N* n) { return slist_node_next(m, n); }
    static status prev(N** m, N* n) { (void)n; *m = nullptr; return STATUS_SUCCESS; }
    static resource_t* h(L* l) { return slist_resource_handle(l); }
};

template <class T> struct Seq {
    typedef typename T::L L; typedef typename T::N N;
    struct M { L* l = nullptr; std::vector<std::pair<N*, Res*>> v; Alloc* a = nullptr; };
    std::vector<M> ms;
    std::vector<std::unique_ptr<Alloc>> al;
    ResPool pool;
    std::set<Res*> mine;                 /* owned by the caller again */
    std::set<Res*> gone;                 /* released by the library, legitimately */
    bool rmop = false;

    /* the container must present exactly m.v (learning node addresses of new entries) */
    void verify(M& m, const char* op) {
        N* n = nullptr; N* last = nullptr;
        SEM(T::head(&n, m.l) == STATUS_SUCCESS, "head_status", "head failed");
        std::string key = std::string(T::nm) + "_order";
        for (size_t i = 0; i < m.v.size(); ++i) {
            SEM(n != nullptr, key.c_str(), "after %s the walk ends at %zu of %zu entries", op, i, m.v.size());
            if (m.v[i].first) SEM(m.v[i].first == n, key.c_str(), "after %s node %zu is not the node it was", op, i);
            m.v[i].first = n;
            resource_t* r = nullptr;
            SEM(T::child(&r, n) == STATUS_SUCCESS, "child_status", "node child failed");
            SEM(r == (m.v[i].second ? m.v[i].second->h() : nullptr), key.c_str(), "after %s position %zu holds the wrong resource", op, i);
            if (T::dbl) {
                N* p = (N*)1;
                SEM(T::prev(&p, n) == STATUS_SUCCESS && p == last, key.c_str(), "after %s the back link of position %zu is wrong", op, i);
            }
            last = n;
            N* nx = (N*)1;
            SEM(T::next(&nx, n) == STATUS_SUCCESS, "next_status", "node next failed");
            n = nx;
        }
        SEM(n == nullptr, key.c_str(), "after %s the walk goes past the %zu expected entries", op, m.v.size());
        N* t = (N*)1;
        SEM(T::tail(&t, m.l) == STATUS_SUCCESS, "tail_status", "tail failed");
        SEM(t == last, (std::string(T::nm) + "_tail").c_str(), "after %s the tail is not the last node", op);
        SEM(T::cnt(m.l) == m.v.size(), (std::string(T::nm) + "_count").c_str(), "after %s count is %zu, model %zu", op, T::cnt(m.l), m.v.size());
        count("states_compared");
    }
    void verify_all(const char* op) {
        for (auto& m : ms) verify(m, op);
        pool.expect([&](Res* r) { return gone.count(r) ? 1u : 0u; }, op);
    }

    void run(Ctx& c, int mode) {
        Rng& R = c.rng;
        size_t nl = (mode & SWAP) ? R.range(2, 3) : R.range(1, 2);
        size_t na = R.range(1, nl);
        for (size_t i = 0; i < na; ++i) al.emplace_back(new Alloc);
        for (size_t i = 0; i < nl; ++i) {
            M m; m.a = al[i % na].get();
            if ((mode & OOM)) {
                m.l = (L*)0x1;
                m.a->arm(1);
                SEM(T::create(&m.l, *m.a) != STATUS_SUCCESS, "oom_success", "create succeeded without memory");
                SEM(m.l == nullptr, "out_not_null", "%s create failed but left its output pointer set", T::nm);
                m.a->disarm();
            }
            OK(T::create(&m.l, *m.a), "create");
            ms.push_back(m);
        }
        size_t ops = R.chance(1, 10) ? R.range(60, 150) : R.range(3, 45);
        if (mode & RELFAIL) ops = R.range(0, 25);
        for (size_t i = 0; i < ops; ++i) step(R, mode);
        if (R.chance(1, 6)) { M& m = ms[R(nl)]; do_clear(m); verify_all("clear"); for (int k = 0; k < 3; ++k) step(R, mode & ~RELFAIL); }
        if (mode & RELFAIL) {
            unsigned num = R.range(1, 3);
            for (auto* r : pool.all) if (!r->released && R.chance(num, 4)) r->on_release = REL_FAIL;
            if (R.chance(1, 3)) { do_clear(ms[R(nl)]); pool.expect([&](Res* r) { return gone.count(r) ? 1u : 0u; }, "clear"); }
        }
        std::vector<size_t> order; for (size_t i = 0; i < nl; ++i) order.push_back(i);
        for (size_t i = nl; i > 1; --i) std::swap(order[i - 1], order[R(i)]);
        for (size_t i : order) {
            M& m = ms[i];
            bool bad = false;
            for (auto& e : m.v) if (e.second) { gone.insert(e.second); if (e.second->on_release) bad = true; }
            status s = resource_release(T::h(m.l));
            log("release l%zu n=%zu%s", i, m.v.size(), bad ? " failing" : "");
            SEM((s != STATUS_SUCCESS) == bad, bad ? "release_error_lost" : "release_status", "releasing a %s of %zu entries returned 0x%x (%s)", T::nm, m.v.size(), s, bad ? "a child release failed" : "no child failed");
            m.l = nullptr; m.v.clear();
            pool.expect([&](Res* r) { return gone.count(r) ? 1u : 0u; }, "release");
            for (auto& o : ms) if (o.l) verify(o, "release of another");
        }
        for (auto& a : al) a->expect_empty(T::nm);
        if (ops >= 8 && rmop || (mode & (OOM | RELFAIL) && ops >= 3)) nontrivial(log_hash());
    }
    void do_clear(M& m) {
        bool bad = false;
        for (auto& e : m.v) if (e.second) { gone.insert(e.second); if (e.second->on_release) bad = true; }
        status s = T::clear(m.l);
        log("clear n=%zu", m.v.size());
        SEM((s != STATUS_SUCCESS) == bad, bad ? "clear_error_lost" : "clear_status", "clear returned 0x%x", s);
        m.v.clear(); rmop = true;
    }
    status attempt(int mode, M& m, const std::function<status()>& f, const char* op) {
        Alloc& A = *m.a;
        if (!(mode & OOM)) return f();
        size_t before = A.live.size();
        A.arm(1);
        status s = f();
        A.disarm();
        if (A.injected) {
            count("faults_injected");
            SEM(s != STATUS_SUCCESS, "oom_success", "%s succeeded though its allocation failed", op);
            CHECK(A.live.size() == before, "mem", "oom_leak", "%s changed the number of live blocks", op);
            verify_all(op);
            s = f();
        }
        return s;
    }
    void step(Rng& R, int mode) {
        size_t li = R(ms.size());
        M& m = ms[li];
        size_t n = m.v.size();
        size_t at = n ? (R.chance(1, 3) ? (R.chance(1, 2) ? 0 : n - 1) : R(n)) : 0;
        unsigned k = (unsigned)R(mode & SWAP ? 13 : 11);
        bool big = n > 24;
        if (big && k < 5) k = 6;
        switch (k) {
            case 0: { Res* r = pool.make(); log("head l%zu", li); OK(attempt(mode, m, [&] { return T::ins_head(m.l, r->h()); }, "insert_head"), "op_failed"); m.v.insert(m.v.begin(), {nullptr, r}); break; }
            case 1: case 2: { Res* r = pool.make(); log("tail l%zu", li); OK(attempt(mode, m, [&] { return T::app_tail(m.l, r->h()); }, "append_tail"), "op_failed"); m.v.push_back({nullptr, r}); break; }
            case 3: if (n) { Res* r = pool.make(); log("after l%zu %zu", li, at); OK(attempt(mode, m, [&] { return T::app(m.v[at].first, r->h()); }, "append"), "op_failed"); m.v.insert(m.v.begin() + at + 1, {nullptr, r}); } break;
            case 4: if (n && T::dbl) { Res* r = pool.make(); log("before l%zu %zu", li, at); OK(attempt(mode, m, [&] { return T::ins(m.v[at].first, r->h()); }, "insert"), "op_failed"); m.v.insert(m.v.begin() + at, {nullptr, r}); } break;
            case 5: case 6: {
                if (k == 6 && n && !T::dbl) {
                    resource_t* out = nullptr;
                    log("next_pop l%zu %zu", li, at);
                    OK(T::next_pop(m.v[at].first, &out), "op_failed");
                    if (at + 1 < n) {
                        Res* want = m.v[at + 1].second;
                        SEM(out == (want ? want->h() : nullptr), "pop_value", "next_pop returned the wrong resource");
                        if (want) mine.insert(want);
                        m.v.erase(m.v.begin() + at + 1); rmop = true;
                    } else SEM(out == nullptr, "pop_value", "next_pop past the tail returned a resource");
                    break;
                }
                resource_t* out = nullptr;
                log("pop l%zu", li);
                OK(T::pop(m.l, &out), "op_failed");
                if (n) {
                    Res* want = m.v[0].second;
                    SEM(out == (want ? want->h() : nullptr), "pop_value", "pop returned the wrong resource");
                    if (want) mine.insert(want);
                    m.v.erase(m.v.begin()); rmop = true;
                } else SEM(out == nullptr, "pop_value", "pop of an empty %s returned a resource", T::nm);
                break;
            }
            case 7: case 8: if (n) {
                Res* in = R.chance(1, 4) ? nullptr : pool.make();
                resource_t* p = in ? in->h() : nullptr;
                log("child_swap l%zu %zu %s", li, at, in ? "new" : "null");
                OK(T::cswap(m.v[at].first, &p), "op_failed");
                Res* old = m.v[at].second;
                SEM(p == (old ? old->h() : nullptr), "swap_value", "child swap handed back the wrong resource");
                if (old) mine.insert(old);
                m.v[at].second = in; rmop = true;
            } break;
            case 9: if (R.chance(1, 5)) do_clear(m); break;
            case 10: { /* give one of the caller's resources back to a container */
                Res* r = nullptr;
                for (auto* x : mine) { r = x; break; }
                if (!r) break;
                log("readd l%zu", li);
                OK(attempt(mode, m, [&] { return T::app_tail(m.l, r->h()); }, "append_tail"), "op_failed");
                mine.erase(r); m.v.push_back({nullptr, r});
                break;
            }
            default: {
                size_t lj = R(ms.size());
                if (lj == li) lj = (li + 1) % ms.size();
                log("swap l%zu l%zu", li, lj);
                T::swap(m.l, ms[lj].l);
                std::swap(m.v, ms[lj].v);
                count("swaps"); rmop = true;
            }
        }
        count("ops");
        verify_all("operation");
    }
};

SCENARIO("C05 C01 C32 C35", list_history, 3) { Seq<DL>().run(c, HIST); }
SCENARIO("C06 C01 C32 C35", slist_history, 3) { Seq<SL>().run(c, HIST); }
SCENARIO("C10 C01 C35", list_swap_history, 1) { Seq<DL>().run(c, SWAP); }
SCENARIO("C10 C01 C35", slist_swap_history, 1) { Seq<SL>().run(c, SWAP); }
SCENARIO("C02 C01 C35", list_oom, 1) { Seq<DL>().run(c, OOM | (c.n & 1 ? SWAP : 0)); }
SCENARIO("C02 C01 C35", slist_oom, 1) { Seq<SL>().run(c, OOM | (c.n & 1 ? SWAP : 0)); }
SCENARIO("C03 C32 C01 C35", list_relfail, 1) { Seq<DL>().run(c, RELFAIL); }
SCENARIO("C03 C01 C35", slist_relfail, 1) { Seq<SL>().run(c, RELFAIL); }

/* ---------------------------------------------------------------- queue */
static void queue_run(Ctx& c, int mode) {
    Rng& R = c.rng;
    Alloc A;
    ResPool pool;
    std::set<Res*> gone;
    struct Q { RCPR_SYM(queue)* q; std::list<Res*> m; };
    std::vector<Q> qs(R.range(1, 3));
    for (auto& q : qs) {
        if (mode & OOM)
            for (uint64_t k = 1; k < 8; ++k) {
                size_t live = A.live.size();
                q.q = (RCPR_SYM(queue)*)0x1;
                A.arm(k);
                status s = queue_create(&q.q, A);
                A.disarm();
                if (!A.injected) { OK(s, "create"); OK(resource_release(queue_resource_handle(q.q)), "release"); break; }
                SEM(s != STATUS_SUCCESS, "oom_success", "queue_create succeeded");
                SEM(q.q == nullptr, "out_not_null", "queue_create failed but left its output pointer set");
                CHECK(A.live.size() == live, "mem", "oom_leak", "queue_create leaked on failure");
                count("faults_injected");
            }
        OK(queue_create(&q.q, A), "create");
    }
    size_t ops = R.chance(1, 12) ? R.range(100, 400) : R.range(3, 60);
    bool popped = false;
    unsigned bias = R.range(1, 4);
    for (size_t i = 0; i < ops; ++i) {
        if (R.chance(1, 20)) bias = R.range(1, 4);
        Q& q = qs[R(qs.size())];
        unsigned k = R.chance(bias, 5) ? R(3) : 3 + R(3);
        if (k < 3) {
            Res* r = pool.make();
            bool front = k == 2;
            auto f = [&] { return front ? queue_insert(q.q, r->h()) : queue_append(q.q, r->h()); };
            if (mode & OOM && R.chance(1, 2)) {
                A.arm(1);
                size_t live = A.live.size();
                status s = f();
                A.disarm();
                SEM(A.injected == 0 || s != STATUS_SUCCESS, "oom_success", "append succeeded without memory");
                if (s != STATUS_SUCCESS) {
                    count("faults_injected");
                    CHECK(A.live.size() == live, "mem", "oom_leak", "append leaked");
                    SEM(queue_count(q.q) == q.m.size(), "oom_changed", "failed append changed the count");
                    OK(f(), "retry");
                }
            } else OK(f(), "op_failed");
            if (front) q.m.push_front(r); else q.m.push_back(r);
            log(front ? "f%d" : "a%d", (int)(&q - &qs[0]));
        } else {
            resource_t* out = nullptr;
            OK(queue_pop(q.q, &out), "op_failed");
            log("p%d", (int)(&q - &qs[0]));
            if (q.m.empty()) SEM(out == nullptr, "pop_empty", "pop of an empty queue returned a resource");
            else {
                SEM(out == q.m.front()->h(), "fifo", "pop returned resource %d, expected %d", out ? Res::of(out)->id : -1, q.m.front()->id);
                Res* r = q.m.front(); q.m.pop_front(); popped = true;
                if (R.chance(1, 3)) { OK(resource_release(r->h()), "release"); gone.insert(r); }
            }
        }
        for (auto& x : qs) SEM(queue_count(x.q) == x.m.size(), "count", "count is %zu, expected %zu", queue_count(x.q), x.m.size());
        count("ops");
    }
    if (mode & RELFAIL) for (auto* r : pool.all) if (!r->released && R.chance(1, 3)) r->on_release = REL_FAIL;
    if (mode == HIST && R.chance(1, 2)) {
        Q& q = qs[R(qs.size())];
        while (!q.m.empty()) {
            resource_t* out = nullptr;
            OK(queue_pop(q.q, &out), "op_failed");
            SEM(out == q.m.front()->h(), "fifo", "drain returned the wrong resource");
            q.m.pop_front();
        }
    }
    for (auto& q : qs) {
        bool bad = false;
        for (auto* r : q.m) { gone.insert(r); if (r->on_release) bad = true; }
        log("rel n=%zu%s", q.m.size(), bad ? " failing" : "");
        status s = resource_release(queue_resource_handle(q.q));
        SEM((s != STATUS_SUCCESS) == bad, bad ? "release_error_lost" : "release_status", "queue release returned 0x%x", s);
        pool.expect([&](Res* r) { return gone.count(r) ? 1u : 0u; }, "queue_release");
    }
    A.expect_empty("queue");
    if (popped || mode) nontrivial(log_hash());
}
SCENARIO("C07 C01 C32 C35", queue_history, 2) { queue_run(c, HIST); }
SCENARIO("C02 C01 C35", queue_oom, 1) { queue_run(c, OOM); }
SCENARIO("C03 C01 C35", queue_relfail, 1) { queue_run(c, RELFAIL); }

/* ---------------------------------------------------------------- rbtree */
static uint64_t g_cmp;
struct TCtx { int kind; uint64_t mask; bool alt; };
/* two families of callbacks: the second hands out keys as the address past the value's first byte, so that a
 * tree using one function of each family, or another tree's context, is noticed at the next call */
static const void* t_key(void* cx, const resource_t* r) { SEM(!((TCtx*)cx)->alt, "callback_mix", "a tree called another tree's key function"); return &((const Res*)r)->key; }
static const void* t_key2(void* cx, const resource_t* r) { SEM(((TCtx*)cx)->alt, "callback_mix", "a tree called another tree's key function"); return (const char*)&((const Res*)r)->key + 1; }
#define KEY(T, k) ((const void*)((const char*)&(k) + (T).ctx->alt))
/* orders: natural, reversed, bit-twisted */
static int ord(const TCtx* t, uint64_t a, uint64_t b) {
    if (t->kind == 1) { uint64_t x = a; a = b; b = x; }
    if (t->kind == 2) { a = a * 0x9E3779B97F4A7C15ull ^ t->mask; b = b * 0x9E3779B97F4A7C15ull ^ t->mask; }
    return a < b ? -1 : a > b ? 1 : 0;
}
static RCPR_SYM(rcpr_comparison_result) t_cmp(void* cx, const void* l, const void* r) {
    ++g_cmp;
    SEM(!((TCtx*)cx)->alt, "callback_mix", "a tree called another tree's comparison");
    int o = ord((TCtx*)cx, *(const uint64_t*)l, *(const uint64_t*)r);
    return o < 0 ? RCPR_COMPARE_LT : o > 0 ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
static RCPR_SYM(rcpr_comparison_result) t_cmp2(void* cx, const void* l, const void* r) {
    ++g_cmp;
    SEM(((TCtx*)cx)->alt, "callback_mix", "a tree called another tree's comparison");
    int o = ord((TCtx*)cx, *(const uint64_t*)((const char*)l - 1), *(const uint64_t*)((const char*)r - 1));
    return o < 0 ? RCPR_COMPARE_LT : o > 0 ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
struct Less { const TCtx* t; bool operator()(uint64_t a, uint64_t b) const { return ord(t, a, b) < 0; } };
typedef std::map<uint64_t, Res*, Less> Model;

struct Tree {
    RCPR_SYM(rbtree)* t = nullptr; TCtx* ctx; Model m; Alloc* a;
    Tree(TCtx* x, Alloc* al) : ctx(x), m(Less{x}), a(al) {}
};

static double depth_bound(size_t n) { return 2.0 * std::log2((double)n + 1.0); }

/* every entry reachable once, links agree, depth bound; returns height */
static size_t walk(Tree& T) {
    auto* nil = rbtree_nil_node(T.t);
    auto* root = rbtree_root_node(T.t);
    size_t seen = 0, h = 0;
    if (root == nil) { SEM(T.m.empty(), "struct", "root is empty but %zu entries expected", T.m.size()); return 0; }
    SEM(rbtree_parent_node(T.t, root) == nil, "struct", "the root has a parent");
    struct F { RCPR_SYM(rbtree_node)* n; size_t d; };
    std::vector<F> st{{root, 1}};
    while (!st.empty()) {
        F f = st.back(); st.pop_back();
        ++seen;
        SEM(seen <= T.m.size(), "struct", "more than %zu nodes reachable", T.m.size());
        if (f.d > h) h = f.d;
        Res* r = Res::of(rbtree_node_value(T.t, f.n));
        SEM(r != nullptr, "struct", "a node has no value");
        auto i = T.m.find(r->key);
        SEM(i != T.m.end() && i->second == r, "struct", "node with key %llu does not belong to the tree", (unsigned long long)r->key);
        for (int side = 0; side < 2; ++side) {
            auto* ch = side ? rbtree_right_node(T.t, f.n) : rbtree_left_node(T.t, f.n);
            if (ch == nil) continue;
            SEM(rbtree_parent_node(T.t, ch) == f.n, "struct", "a child's parent link is wrong");
            Res* cr = Res::of(rbtree_node_value(T.t, ch));
            int o = ord(T.ctx, cr->key, r->key);
            SEM(side ? o > 0 : o < 0, "struct", "a child is on the wrong side of its parent");
            st.push_back({ch, f.d + 1});
        }
    }
    SEM(seen == T.m.size(), "struct", "%zu nodes reachable, expected %zu", seen, T.m.size());
    return h;
}
static void check_depth(Tree& T, size_t h) {
    maxof("tree_height", h);
    double b = depth_bound(T.m.size());
    if (T.m.size()) maxof("height_permille_of_bound", (uint64_t)(1000.0 * h / b));
    SEM((double)h <= b + 1e-9, "depth", "an entry lies at depth %zu in a tree of %zu entries (bound %.2f)", h, T.m.size(), b);
}
static void traverse(Tree& T) {
    auto* nil = rbtree_nil_node(T.t);
    SEM(rbtree_count(T.t) == T.m.size(), "tree_count", "count is %zu, expected %zu", rbtree_count(T.t), T.m.size());
    auto* root = rbtree_root_node(T.t);
    if (T.m.empty()) { SEM(root == nil, "tree_order", "an empty tree has a root"); return; }
    auto* n = rbtree_minimum_node(T.t, root);
    for (auto& e : T.m) {
        SEM(n != nil, "tree_order", "forward traversal ended early");
        SEM(rbtree_node_value(T.t, n) == e.second->h(), "tree_order", "forward traversal yields the wrong resource");
        n = rbtree_successor_node(T.t, n);
    }
    SEM(n == nil, "tree_order", "forward traversal does not end");
    n = rbtree_maximum_node(T.t, root);
    for (auto i = T.m.rbegin(); i != T.m.rend(); ++i) {
        SEM(n != nil, "tree_order", "backward traversal ended early");
        SEM(rbtree_node_value(T.t, n) == i->second->h(), "tree_order", "backward traversal yields the wrong resource");
        n = rbtree_predecessor_node(T.t, n);
    }
    SEM(n == nil, "tree_order", "backward traversal does not end");
    count("states_compared");
}
static void find_check(Tree& T, uint64_t key, bool depth) {
    resource_t* r = (resource_t*)1;
    uint64_t before = g_cmp;
    status s = rbtree_find(&r, T.t, KEY(T, key));
    uint64_t used = g_cmp - before;
    auto i = T.m.find(key);
    if (i == T.m.end()) {
        SEM(s == ERROR_RBTREE_NOT_FOUND, "find_missing", "finding an absent key returned 0x%x", s);
        SEM(r == nullptr, "find_missing_out", "finding an absent key left the output set");
    } else {
        SEM(s == STATUS_SUCCESS, "find_lost", "key %llu not found (0x%x)", (unsigned long long)key, s);
        SEM(r == i->second->h(), "find_wrong", "found the wrong resource");
    }
    if (depth) {
        double b = depth_bound(T.m.size());
        maxof("find_comparisons", used);
        SEM((double)used <= b + 1e-9, "find_cost", "a find in %zu entries took %llu comparisons (bound %.2f)", T.m.size(), (unsigned long long)used, b);
    }
    count("finds");
}

struct TreeRun {
    ResPool pool;
    std::set<Res*> gone;
    std::vector<std::unique_ptr<Alloc>> al;
    std::vector<std::unique_ptr<TCtx>> cx;
    std::vector<Tree> ts;
    bool removed = false;
    int mode; bool balance;
    Res* mk(uint64_t key) { Res* r = pool.make(); r->key = key; return r; }
    void released() { pool.expect([&](Res* r) { return gone.count(r) ? 1u : 0u; }, "rbtree"); }
    void setup(Rng& R, int m, size_t nt, bool bal) {
        mode = m; balance = bal;
        size_t na = R.range(1, nt);
        for (size_t i = 0; i < na; ++i) al.emplace_back(new Alloc);
        for (size_t i = 0; i < nt; ++i) {
            cx.emplace_back(new TCtx{(int)R(3), R.next(), R.chance(1, 3)});
            ts.emplace_back(cx.back().get(), al[i % na].get());
            Tree& T = ts.back();
            if (mode & OOM) {
                T.t = (RCPR_SYM(rbtree)*)0x1;
                T.a->arm(1);
                SEM(rbtree_create(&T.t, *T.a, T.ctx->alt ? &t_cmp2 : &t_cmp, T.ctx->alt ? &t_key2 : &t_key, T.ctx) != STATUS_SUCCESS, "oom_success", "rbtree_create succeeded");
                SEM(T.t == nullptr, "out_not_null", "rbtree_create failed but left its output pointer set");
                T.a->disarm();
                count("faults_injected");
            }
            OK(rbtree_create(&T.t, *T.a, T.ctx->alt ? &t_cmp2 : &t_cmp, T.ctx->alt ? &t_key2 : &t_key, T.ctx), "create");
        }
    }
    void insert(Tree& T, uint64_t key) {
        if (T.m.count(key)) return;
        Res* r = mk(key);
        if (mode & OOM) {
            size_t live = T.a->live.size();
            T.a->arm(1);
            status s = rbtree_insert(T.t, r->h());
            T.a->disarm();
            if (T.a->injected) {
                count("faults_injected");
                SEM(s != STATUS_SUCCESS, "oom_success", "insert succeeded without memory");
                CHECK(T.a->live.size() == live, "mem", "oom_leak", "insert leaked on failure");
                traverse(T);
                OK(rbtree_insert(T.t, r->h()), "retry");
            } else OK(s, "op_failed");
        } else {
            uint64_t b = g_cmp;
            OK(rbtree_insert(T.t, r->h()), "op_failed");
            if (balance)
                SEM((double)(g_cmp - b) <= depth_bound(T.m.size()) + 3, "insert_cost", "an insert into %zu entries took %llu comparisons", T.m.size(), (unsigned long long)(g_cmp - b));
        }
        T.m[key] = r;
    }
    void erase(Tree& T, uint64_t key, unsigned how) {
        auto i = T.m.find(key);
        if (i == T.m.end()) {
            resource_t* r = how & 1 ? (resource_t*)1 : nullptr;
            status s = rbtree_delete(how & 1 ? &r : nullptr, T.t, KEY(T, key));
            SEM(s == ERROR_RBTREE_NOT_FOUND, "delete_missing", "deleting an absent key returned 0x%x", s);
            SEM(r == nullptr, "delete_missing_out", "deleting an absent key did not clear the output");
            return;
        }
        Res* w = i->second;
        resource_t* r = nullptr;
        status s;
        removed = true;
        if (how % 4 >= 2) {
            auto* n = rbtree_minimum_node(T.t, rbtree_root_node(T.t));
            auto* nil = rbtree_nil_node(T.t);
            while (n != nil && rbtree_node_value(T.t, n) != w->h()) n = rbtree_successor_node(T.t, n);
            SEM(n != nil, "tree_order", "an entry was not reached by traversal");
            s = rbtree_delete_node(how & 1 ? &r : nullptr, T.t, n);
        } else {
            uint64_t b = g_cmp;
            s = rbtree_delete(how & 1 ? &r : nullptr, T.t, KEY(T, key));
            if (balance)
                SEM((double)(g_cmp - b) <= depth_bound(T.m.size()) + 3, "delete_cost", "a deletion from %zu entries took %llu comparisons", T.m.size(), (unsigned long long)(g_cmp - b));
        }
        SEM((s != STATUS_SUCCESS) == (!(how & 1) && w->on_release), "delete_status", "delete returned 0x%x", s);
        if (how & 1) SEM(r == w->h(), "delete_value", "delete handed back the wrong resource");
        else gone.insert(w);
        T.m.erase(i);
    }
    void clear(Tree& T) {
        bool bad = false;
        for (auto& e : T.m) { gone.insert(e.second); if (e.second->on_release) bad = true; }
        status s = rbtree_clear(T.t);
        SEM((s != STATUS_SUCCESS) == bad, bad ? "clear_error_lost" : "clear_status", "clear returned 0x%x", s);
        T.m.clear(); removed = true;
    }
    void finish(Rng& R) {
        if (mode & RELFAIL) for (auto* r : pool.all) if (!r->released && R.chance(1, 4)) r->on_release = REL_FAIL;
        if (mode & RELFAIL && R.chance(1, 3)) { clear(ts[R(ts.size())]); released(); }
        std::vector<size_t> order; for (size_t i = 0; i < ts.size(); ++i) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[R(i)]);
        for (size_t i : order) {
            Tree& T = ts[i];
            bool bad = false;
            for (auto& e : T.m) { gone.insert(e.second); if (e.second->on_release) bad = true; }
            log("release t%zu n=%zu%s", i, T.m.size(), bad ? " failing" : "");
            status s = resource_release(rbtree_resource_handle(T.t));
            SEM((s != STATUS_SUCCESS) == bad, bad ? "release_error_lost" : "release_status", "rbtree release returned 0x%x", s);
            T.t = nullptr; T.m.clear();
            released();
            for (auto& o : ts) if (o.t) { traverse(o); for (auto& e : o.m) { find_check(o, e.first, false); break; } }
        }
        for (auto& a : al) a->expect_empty("rbtree");
    }
};

static void tree_history(Ctx& c, int mode) {
    Rng& R = c.rng;
    TreeRun X;
    X.setup(R, mode, mode & SWAP ? R.range(2, 3) : R.range(1, 2), false);
    size_t ops = R.chance(1, 15) ? R.range(150, 500) : R.range(3, 80);
    uint64_t space = R.chance(1, 2) ? R.range(4, 40) : R.range(40, 100000);
    unsigned bias = 3;
    for (size_t i = 0; i < ops; ++i) {
        if (R.chance(1, 25)) bias = R.range(1, 4);
        size_t ti = R(X.ts.size());
        Tree& T = X.ts[ti];
        uint64_t key = R(space);
        unsigned k = R(20);
        if (k < 12) {
            if (R.chance(bias, 5)) { log("i%zu %llu", ti, (unsigned long long)key); X.insert(T, key); }
            else {
                if (!T.m.empty() && R.chance(4, 5)) { auto j = T.m.lower_bound(key); if (j == T.m.end()) j = T.m.begin(); key = j->first; }
                unsigned how = R(4);
                log("d%zu %llu/%u", ti, (unsigned long long)key, how);
                X.erase(T, key, how);
            }
        } else if (k < 17) find_check(T, key, false);
        else if (k == 17) { if (R.chance(1, 6)) { log("c%zu", ti); X.clear(T); } }
        else if (mode & SWAP) {
            size_t tj = (ti + 1 + R(X.ts.size() - 1)) % X.ts.size();
            Tree& U = X.ts[tj];
            log("s%zu %zu", ti, tj);
            rbtree_swap(T.t, U.t);
            std::swap(T.ctx, U.ctx);
            Model a(Less{T.ctx}), b(Less{U.ctx});
            for (auto& e : U.m) a.insert(e);
            for (auto& e : T.m) b.insert(e);
            std::vector<std::pair<uint64_t, Res*>> va(a.begin(), a.end()), vb(b.begin(), b.end());
            T.m.~Model(); new (&T.m) Model(va.begin(), va.end(), Less{T.ctx});
            U.m.~Model(); new (&U.m) Model(vb.begin(), vb.end(), Less{U.ctx});
            X.removed = true;
            count("swaps");
            traverse(U); walk(U);
        }
        traverse(T);
        if (R.chance(1, 4)) walk(T);
        if (R.chance(1, 8)) X.released();
        count("ops");
    }
    X.released();
    for (auto& T : X.ts) { for (auto& e : T.m) find_check(T, e.first, false); walk(T); }
    X.finish(R);
    if (X.removed && ops >= 8 || mode & (OOM | RELFAIL)) nontrivial(log_hash());
}
SCENARIO("C08 C01 C32 C35", rbtree_history, 3) { tree_history(c, HIST); }
SCENARIO("C10 C01 C35", rbtree_swap_history, 1) { tree_history(c, SWAP); }
SCENARIO("C02 C01 C35", rbtree_oom, 1) { tree_history(c, OOM); }
SCENARIO("C03 C32 C01 C35", rbtree_relfail, 1) { tree_history(c, RELFAIL); }

/* balance: big build-ups then structured deletion runs; cost and depth after every step (sampled) */
SCENARIO("C09 C01 C35", rbtree_balance, 3) {
    Rng& R = c.rng;
    TreeRun X;
    X.setup(R, HIST, 1, true);
    Tree& T = X.ts[0];
    T.ctx->kind = (int)R(2);
    size_t n = R.chance(1, 8) ? R.range(300, c.thorough ? 6000 : 1500) : R.range(5, 200);
    unsigned order = R(4);
    log("n=%zu order=%u", n, order);
    for (size_t i = 0; i < n; ++i) {
        uint64_t key = order == 0 ? i : order == 1 ? n - i : order == 2 ? (i & 1 ? i : 2 * n - i) : R(4 * n);
        X.insert(T, key);
        if (n < 60 || R.chance(1, 64)) check_depth(T, walk(T));
    }
    check_depth(T, walk(T));
    size_t dels = 0;
    for (unsigned phase = 0; phase < 4 && !T.m.empty(); ++phase) {
        unsigned pat = R(7);
        size_t take = R.range(1, T.m.size());
        log("phase pat=%u take=%zu of %zu", pat, take, T.m.size());
        uint64_t pivot = R(4 * n);
        for (size_t i = 0; i < take && !T.m.empty(); ++i) {
            auto it = T.m.begin();
            switch (pat) {
                case 0: break;
                case 1: it = std::prev(T.m.end()); break;
                case 2: { it = T.m.lower_bound(R(4 * n)); if (it == T.m.end()) it = T.m.begin(); break; }
                case 3: { it = T.m.lower_bound(pivot); if (it == T.m.end()) it = std::prev(T.m.end()); break; }   /* cluster */
                case 4: { /* the root */
                    Res* r = Res::of(rbtree_node_value(T.t, rbtree_root_node(T.t))); it = T.m.find(r->key); break; }
                case 5: { /* a leaf of shallow depth: walk towards the shorter side */
                    auto* nil = rbtree_nil_node(T.t); auto* x = rbtree_root_node(T.t);
                    for (;;) {
                        auto *l = rbtree_left_node(T.t, x), *r = rbtree_right_node(T.t, x);
                        if (l == nil && r == nil) break;
                        x = l == nil ? r : r == nil ? l : (R.chance(1, 2) ? l : r);
                    }
                    it = T.m.find(Res::of(rbtree_node_value(T.t, x))->key); break; }
                default: { size_t k = T.m.size() / 2; it = T.m.begin(); std::advance(it, k > 40 ? 40 : k); break; }
            }
            X.erase(T, it->first, R(2));
            ++dels;
            if (T.m.size() < 80 || R.chance(1, 32)) check_depth(T, walk(T));
        }
        /* refill a little in one place */
        size_t add = R(20);
        uint64_t base = R(4 * n);
        for (size_t i = 0; i < add; ++i) { X.insert(T, base + i); }
        check_depth(T, walk(T));
        size_t k = 0;
        for (auto& e : T.m) { find_check(T, e.first, true); if (++k > 300) break; }
        for (int j = 0; j < 10; ++j) find_check(T, R(8 * n), true);
    }
    count("deletions", dels);
    X.finish(R);
    if (dels >= 3) nontrivial(log_hash());
}
/* bounded-exhaustive part: insert a permutation-derived set of up to 9 keys, delete in a derived order */
SCENARIO("C09 C08 C01 C35", rbtree_small, 3) {
    Rng& R = c.rng;
    TreeRun X;
    X.setup(R, HIST, 1, true);
    Tree& T = X.ts[0];
    T.ctx->kind = 0;
    size_t n = 2 + c.n % 11;
    std::vector<uint64_t> in, out;
    for (size_t i = 0; i < n; ++i) { in.push_back(i * 2); out.push_back(i * 2); }
    for (size_t i = n; i > 1; --i) { std::swap(in[i - 1], in[R(i)]); std::swap(out[i - 1], out[R(i)]); }
    for (auto k : in) { log("i%llu", (unsigned long long)k); X.insert(T, k); check_depth(T, walk(T)); traverse(T); }
    for (auto k : out) {
        log("d%llu", (unsigned long long)k);
        X.erase(T, k, R(4)); check_depth(T, walk(T)); traverse(T);
        for (size_t q = 0; q <= 2 * n; ++q) find_check(T, q, true);
    }
    X.finish(R);
    nontrivial(log_hash());
}
