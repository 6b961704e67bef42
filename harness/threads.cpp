/* C17: threads, mutexes, condition variables; library calls into pthread are
 * delayed at random and made to fail, shared data is plain memory so that
 * ThreadSanitizer judges visibility. */
#include "mon.h"
#include <atomic>
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <string.h>
#include <algorithm>
#include <rcpr/thread.h>
RCPR_IMPORT_thread;
using namespace mon;

static std::atomic<uint32_t> g_delay{0};         /* 0: no delays */
static std::atomic<int> g_fail_create{0}, g_fail_minit{0}, g_fail_cinit{0};
static std::atomic<uint64_t> g_tick{1};
static const char* g_fault = nullptr;            /* this call fails once; set only while no other thread calls the library */
static unsigned g_faulted = 0;
static bool faulty(const char* what) { if (!g_fault || strcmp(g_fault, what)) return false; g_fault = nullptr; ++g_faulted; return true; }
static void perturb(unsigned salt) {
    uint32_t d = g_delay.load(std::memory_order_relaxed);
    if (!d) return;
    uint64_t h = mix(g_tick.fetch_add(1, std::memory_order_relaxed) * 977 + salt, d);
    if (h % 8 == 0) usleep(h / 8 % 150);
    else if (h % 8 < 4) sched_yield();
}
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (g_fail_create) return EAGAIN;
    perturb(1); int r = __real_pthread_create(t, a, f, x); perturb(2); return r;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (g_fail_minit) return ENOMEM;
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_cond_init(pthread_cond_t* m, const pthread_condattr_t* a) {
    if (g_fail_cinit) return ENOMEM;
    return __real_pthread_cond_init(m, a);
}
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_attr_init(pthread_attr_t*);
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return faulty("signal") ? EINVAL : __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return faulty("broadcast") ? EINVAL : __real_pthread_cond_broadcast(c); }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { int r = __real_pthread_cond_destroy(c); return faulty("cond_destroy") ? EBUSY : r; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { int r = __real_pthread_mutex_destroy(m); return faulty("mutex_destroy") ? EBUSY : r; }
int __wrap_pthread_join(pthread_t t, void** x) { int r = __real_pthread_join(t, x); return faulty("join") ? EDEADLK : r; }
int __wrap_pthread_attr_init(pthread_attr_t* a) { return faulty("attr_init") ? ENOMEM : __real_pthread_attr_init(a); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (faulty("lock")) return EAGAIN; perturb(3); int r = __real_pthread_mutex_lock(m); perturb(4); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { perturb(5); if (faulty("unlock")) { __real_pthread_mutex_unlock(m); return EPERM; } int r = __real_pthread_mutex_unlock(m); perturb(6); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (faulty("wait")) return EINVAL; perturb(7); int r = __real_pthread_cond_wait(c, m); perturb(8); return r; }
}

/* the standard allocator does not order threads, so it hides no race */
struct Mem {
    Alloc ledger; RCPR_SYM(allocator)* m = nullptr; bool use_ledger;
    explicit Mem(bool l) : use_ledger(l) { if (!l) OK(malloc_allocator_create(&m), "malloc_allocator_create"); }
    RCPR_SYM(allocator)* get() { return use_ledger ? ledger.get() : m; }
    void done(const char* w) { if (use_ledger) ledger.expect_empty(w); else OK(resource_release(allocator_resource_handle(m)), "release"); }
};
struct DelayOn {
    explicit DelayOn(Rng& R) { g_delay = R.chance(2, 3) ? (uint32_t)R.next() | 1 : 0; }
    ~DelayOn() { g_delay = 0; }
};

/* ------------------------------------------------------------ threads */
struct Job {
    int id; unsigned work; status ret; size_t want_stack;
    unsigned ran = 0; size_t stack = 0; uint64_t acc = 0; bool finished = false; int nap = 0; bool ctx_ok = false;
    size_t dig = 0; uint64_t dug = 0;  /* how much of the stack to use, and a digest of it */
    uint64_t cookie;
    pthread_t self;
};
/* use a given amount of stack and find it unchanged */
static uint64_t __attribute__((noinline)) dig(size_t n, uint64_t seed) {
    volatile uint64_t room[2048]; if (n < sizeof room + 256) return seed;
    room[0] = seed; room[1023] = seed * 3; room[2047] = seed ^ n;
    uint64_t r = dig(n - sizeof room - 256, seed * 6364136223846793005ull + 1);
    return room[0] == seed && room[1023] == seed * 3 && room[2047] == (seed ^ n) ? r : 0;
}
static status job_fn(void* x) {
    Job* j = (Job*)x;
    ++j->ran;
    j->self = pthread_self();
    pthread_attr_t at; size_t ss = 0; void* base = nullptr;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &base, &ss); pthread_attr_destroy(&at); }
    j->stack = ss;
    char here; j->ctx_ok = (char*)base <= &here && &here < (char*)base + ss;
    for (unsigned i = 0; i < j->work; ++i) j->acc += i;
    if (j->dig) j->dug = dig(j->dig, 0x9e3779b97f4a7c15ull);
    if (j->nap) usleep((useconds_t)j->nap);
    j->finished = true;
    return j->ret;
}
SCENARIO("C17 C01 C32", thread_run, 2) {
    Rng& R = c.rng; Mem A(R.chance(1, 2)); DelayOn d(R);
    size_t n = R.range(1, 6);
    std::vector<std::unique_ptr<Job>> js; std::vector<RCPR_SYM(thread)*> th;
    for (size_t i = 0; i < n; ++i) {
        auto j = std::make_unique<Job>();
        j->id = (int)i; j->work = (unsigned)R(2000); j->ret = R.chance(1, 2) ? R.chance(1, 2) ? (status)R.next() : R.chance(1, 2) ? (status)(1u << R(32)) : (status)(1000 + R(1000)) : STATUS_SUCCESS;
        j->want_stack = R.chance(1, 4) ? 16384 + R(3) * 65536 + 65536 : R.range(128 * 1024, 2048 * 1024) & ~(size_t)4095;
        if (!i && R.chance(1, 40)) { j->want_stack = (R.range(3, 80) << 20) + R(256) * 4096; count("big_stacks"); }
        if (j->want_stack >= (3u << 20)) j->dig = j->want_stack - (j->want_stack >> 2);
        if (R.chance(1, 3)) j->nap = (int)R(600);
        log("thread stack=%zu nap=%d", j->want_stack, j->nap);
        RCPR_SYM(thread)* t = (RCPR_SYM(thread)*)0x1;
        OK(thread_create(&t, A.get(), j->want_stack, j.get(), job_fn), "thread_create");
        js.push_back(std::move(j)); th.push_back(t);
        if (R.chance(1, 4)) sched_yield();
    }
    std::vector<size_t> ord(n); for (size_t i = 0; i < n; ++i) ord[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(ord[i - 1], ord[R(i)]);
    std::set<uint64_t> order;
    for (size_t i : ord) {
        Job& j = *js[i];
        status rc = resource_release(thread_resource_handle(th[i]));
        SEM(j.finished, "thread_join", "the handle's release returned before the thread finished");
        SEM(j.ran == 1, "thread_once", "the thread function ran %u times", j.ran);
        SEM(j.ctx_ok && !pthread_equal(j.self, pthread_self()), "thread_stack", "the function did not run on a thread of its own");
        SEM(j.stack >= j.want_stack, "thread_stack_size", "stack of %zu bytes where %zu were requested", j.stack, j.want_stack);
        if (j.dig) SEM(j.dug, "thread_stack_use", "what a thread put on its own stack changed");
        SEM(rc == j.ret, "thread_status", "release returned 0x%x where the thread returned 0x%x", rc, j.ret);
        count("threads");
    }
    A.done("threads");
    nontrivial(log_hash());
}

/* ------------------------------------------------------------ mutexes */
struct Shared {
    RCPR_SYM(thread_mutex)* m = nullptr;
    uint64_t a = 0, b = 0;              /* equal whenever the mutex is free */
    std::atomic<int> in{0};
    std::vector<int> order;
};
struct MJob { std::vector<Shared*> sh; uint64_t seed; int id, rounds; std::vector<unsigned> did; };
static void enter(Shared* s, const char* how) {
    int w = s->in.fetch_add(1, std::memory_order_relaxed);
    SEM(w == 0, "mutex_exclusion", "two threads hold the mutex at once (%s)", how);
    SEM(s->a == s->b, "mutex_visibility", "a holder does not see what the previous holder wrote (%s)", how);
}
static void leave(Shared* s) { s->in.fetch_sub(1, std::memory_order_relaxed); }
static status mutex_fn(void* x) {
    MJob* j = (MJob*)x; Rng R(j->seed);
    for (int i = 0; i < j->rounds; ++i) {
        size_t k = R(j->sh.size()); Shared* s = j->sh[k];
        RCPR_SYM(thread_mutex_lock)* l = nullptr;
        OK(thread_mutex_lock_acquire(&l, s->m), "lock_acquire");
        SEM(l != nullptr, "mutex_lock_null", "no lock handle");
        enter(s, "acquire");
        ++s->a;
        if (R.chance(1, 6)) usleep((useconds_t)R(60)); else if (R.chance(1, 2)) sched_yield();
        ++s->b; ++j->did[k]; s->order.push_back(j->id);
        leave(s);
        OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock");
        if (R.chance(1, 4)) sched_yield();
    }
    return STATUS_SUCCESS;
}
SCENARIO("C17 C01 C32", mutexes, 3) {
    Rng& R = c.rng; Mem A(R.chance(1, 2)); DelayOn d(R);
    size_t nm = R.range(1, 3), nt = R.range(2, 6);
    std::vector<std::unique_ptr<Shared>> sh; std::vector<Shared*> ps;
    for (size_t i = 0; i < nm; ++i) { sh.push_back(std::make_unique<Shared>()); OK(thread_mutex_create(&sh[i]->m, A.get()), "mutex_create"); ps.push_back(sh[i].get()); }
    log("mutexes %zu threads %zu", nm, nt);
    std::vector<std::unique_ptr<MJob>> js; std::vector<RCPR_SYM(thread)*> th(nt);
    for (size_t i = 0; i < nt; ++i) {
        js.push_back(std::make_unique<MJob>(MJob{ps, R.next(), (int)i, (int)R.range(5, 40), std::vector<unsigned>(nm, 0)}));
        OK(thread_create(&th[i], A.get(), 512 * 1024, js[i].get(), mutex_fn), "thread_create");
    }
    for (auto* t : th) OK(resource_release(thread_resource_handle(t)), "thread release");
    uint64_t h = log_hash(), handoffs = 0;
    for (size_t i = 0; i < nm; ++i) {
        uint64_t want = 0; for (auto& j : js) want += j->did[i];
        SEM(sh[i]->a == want && sh[i]->b == want, "mutex_lost_update", "%lu updates under the mutex, %lu recorded", (unsigned long)want, (unsigned long)sh[i]->a);
        int prev = -1;
        for (int o : sh[i]->order) { if (o != prev) ++handoffs; prev = o; h = mix(h, (uint64_t)o + 77 * i); }
        /* free: a further lock succeeds at once */
        RCPR_SYM(thread_mutex_lock)* l = nullptr;
        OK(thread_mutex_lock_acquire(&l, sh[i]->m), "lock_acquire");
        OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock");
        OK(resource_release(thread_mutex_resource_handle(sh[i]->m)), "mutex release");
        count("critical_sections", want);
    }
    count("lock_handoffs", handoffs);
    A.done("mutexes");
    if (handoffs > nt) nontrivial(h);
}

/* ------------------------------------------------------------ condition variables */
struct Cv {
    Shared s; RCPR_SYM(thread_cond)* cv = nullptr;
    int parked = 0, woken = 0; bool stop = false; uint64_t gen = 0;
    uint64_t wakes = 0, rounds = 0;
};
struct WJob { Cv* v; int id; unsigned wakes = 0; bool by_gen; };
static status waiter_fn(void* x) {
    WJob* j = (WJob*)x; Cv* v = j->v;
    RCPR_SYM(thread_mutex_lock)* l = nullptr;
    OK(thread_mutex_lock_acquire(&l, v->s.m), "lock_acquire");
    enter(&v->s, "acquire");
    while (!v->stop) {
        uint64_t g = v->gen;
        ++v->parked; ++v->s.a; ++v->s.b;
        do {
            leave(&v->s);
            OK(thread_cond_wait(&l, v->cv), "cond_wait");
            enter(&v->s, "cond_wait return");
            SEM(l != nullptr, "cond_lock", "cond_wait lost the lock handle");
        } while (j->by_gen && g == v->gen && !v->stop);
        --v->parked; ++v->woken; ++j->wakes; v->s.order.push_back(j->id); ++v->s.a; ++v->s.b;
    }
    leave(&v->s);
    OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock");
    return STATUS_SUCCESS;
}
SCENARIO("C17 C01 C32", conds, 3) {
    Rng& R = c.rng; Mem A(R.chance(1, 2)); DelayOn d(R);
    Cv v; size_t nt = R.range(1, 5); bool by_gen = R.chance(1, 2);
    OK(thread_mutex_create(&v.s.m, A.get()), "mutex_create");
    OK(thread_cond_create(&v.cv, A.get()), "cond_create");
    log("waiters %zu by_gen %d", nt, by_gen);
    std::vector<std::unique_ptr<WJob>> js; std::vector<RCPR_SYM(thread)*> th(nt);
    for (size_t i = 0; i < nt; ++i) {
        js.push_back(std::make_unique<WJob>()); js[i]->v = &v; js[i]->id = (int)i; js[i]->by_gen = by_gen;
        OK(thread_create(&th[i], A.get(), 512 * 1024, js[i].get(), waiter_fn), "thread_create");
    }
    auto locked = [&](auto f) {
        RCPR_SYM(thread_mutex_lock)* l = nullptr;
        OK(thread_mutex_lock_acquire(&l, v.s.m), "lock_acquire");
        enter(&v.s, "signaller");
        bool r = f(l);
        leave(&v.s);
        OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock");
        return r;
    };
    /* a wait that never ends here is caught as a hang */
    auto until = [&](auto cond) { while (!locked([&](RCPR_SYM(thread_mutex_lock)*) { return cond(); })) { if (R.chance(1, 3)) usleep(50); else sched_yield(); } };
    size_t rounds = R.range(2, 10);
    for (size_t r = 0; r < rounds; ++r) {
        bool all = by_gen ? true : R.chance(1, 2);
        until([&] { return v.parked == (int)nt; });
        log("%s", all ? "all" : "one");
        int before = 0;
        locked([&](RCPR_SYM(thread_mutex_lock)* l) {
            if (v.parked != (int)nt) { before = -1; return true; }   /* somebody woke spuriously: skip */
            before = v.woken;
            ++v.gen;
            if (all) OK(thread_cond_signal_all(l, v.cv), "signal_all"); else OK(thread_cond_signal_one(l, v.cv), "signal_one");
            int p = v.parked;
            if (R.chance(1, 3)) usleep(100);
            SEM(v.parked == p, "cond_returned_without_mutex", "a waiter went on while the signaller held the mutex");
            return true;
        });
        if (before < 0) continue;
        int need = before + (all ? (int)nt : 1);
        until([&] { return v.woken >= need; });
        count(all ? "signal_all" : "signal_one");
    }
    until([&] { return v.parked == (int)nt; });
    locked([&](RCPR_SYM(thread_mutex_lock)* l) { v.stop = true; ++v.gen; OK(thread_cond_signal_all(l, v.cv), "signal_all"); return true; });
    for (auto* t : th) OK(resource_release(thread_resource_handle(t)), "thread release");
    uint64_t h = log_hash();
    for (int o : v.s.order) h = mix(h, (uint64_t)o);
    count("wakeups", v.s.order.size());
    OK(resource_release(thread_cond_resource_handle(v.cv)), "cond release");
    OK(resource_release(thread_mutex_resource_handle(v.s.m)), "mutex release");
    A.done("conds");
    nontrivial(h);
}

/* bounded buffer: conservation over many producers and consumers */
struct Buf {
    Shared s; RCPR_SYM(thread_cond)*ne = nullptr, *nf = nullptr; std::vector<int> q; size_t cap; int producers; std::vector<int> got;
    bool broadcast;
};
struct BJob { Buf* b; int id, n; bool prod; };
static status buf_fn(void* x) {
    BJob* j = (BJob*)x; Buf* b = j->b;
    for (int i = 0; !j->prod || i < j->n; ++i) {
        RCPR_SYM(thread_mutex_lock)* l = nullptr;
        OK(thread_mutex_lock_acquire(&l, b->s.m), "lock_acquire");
        enter(&b->s, "acquire");
        auto wait = [&](RCPR_SYM(thread_cond)* cv) { leave(&b->s); OK(thread_cond_wait(&l, cv), "cond_wait"); enter(&b->s, "cond_wait return"); };
        auto wake = [&](RCPR_SYM(thread_cond)* cv) { if (b->broadcast) OK(thread_cond_signal_all(l, cv), "signal_all"); else OK(thread_cond_signal_one(l, cv), "signal_one"); };
        bool over = false;
        if (j->prod) {
            while (b->q.size() >= b->cap) wait(b->nf);
            b->q.push_back(j->id * 1000 + i);
            ++b->s.a; ++b->s.b;
            wake(b->ne);
            if (i == j->n - 1 && --b->producers == 0) OK(thread_cond_signal_all(l, b->ne), "signal_all");
        } else {
            while (b->q.empty() && b->producers) wait(b->ne);
            if (b->q.empty()) over = true;
            else { b->got.push_back(b->q.front()); b->q.erase(b->q.begin()); wake(b->nf); }
        }
        leave(&b->s);
        OK(resource_release(thread_mutex_lock_resource_handle(l)), "unlock");
        if (over) break;
    }
    return STATUS_SUCCESS;
}
SCENARIO("C17 C01", bounded_buffer, 2) {
    Rng& R = c.rng; Mem A(R.chance(1, 2)); DelayOn d(R);
    Buf b; b.cap = R.range(1, 3); b.broadcast = R.chance(1, 4);
    int np = (int)R.range(1, 3), nc = (int)R.range(1, 3); b.producers = np;
    OK(thread_mutex_create(&b.s.m, A.get()), "mutex_create");
    OK(thread_cond_create(&b.ne, A.get()), "cond_create"); OK(thread_cond_create(&b.nf, A.get()), "cond_create");
    std::vector<std::unique_ptr<BJob>> js; std::vector<RCPR_SYM(thread)*> th;
    log("p%d c%d cap%zu", np, nc, b.cap);
    std::vector<int> want;
    for (int i = 0; i < np + nc; ++i) {
        js.push_back(std::make_unique<BJob>(BJob{&b, i, (int)R.range(1, 20), i < np}));
        if (i < np) for (int k = 0; k < js.back()->n; ++k) want.push_back(i * 1000 + k);
    }
    for (auto& j : js) { th.push_back(nullptr); OK(thread_create(&th.back(), A.get(), 512 * 1024, j.get(), buf_fn), "thread_create"); }
    for (auto* t : th) OK(resource_release(thread_resource_handle(t)), "thread release");
    uint64_t h = log_hash(); for (int g : b.got) h = mix(h, (uint64_t)g);
    std::map<int, int> last;
    for (int g : b.got) { auto i = last.find(g / 1000); SEM(i == last.end() || i->second < g, "buffer_order", "one producer's values out of order"); last[g / 1000] = g; }
    std::sort(b.got.begin(), b.got.end());
    SEM(b.got == want, "buffer_conservation", "%zu values taken of %zu put", b.got.size(), want.size());
    OK(resource_release(thread_cond_resource_handle(b.ne)), "cond release"); OK(resource_release(thread_cond_resource_handle(b.nf)), "cond release");
    OK(resource_release(thread_mutex_resource_handle(b.s.m)), "mutex release");
    A.done("buffer");
    nontrivial(h);
}

/* ------------------------------------------------------------ failures */
SCENARIO("C17 C02 C01", thread_oom, 1) {
    Rng& R = c.rng; Alloc A;
    unsigned what = (unsigned)R(3), how = (unsigned)R(3);
    log("constructor %u failure %u", what, how);
    Job j; j.ret = STATUS_SUCCESS; j.work = 1;
    for (int round = 0; round < 2; ++round) {
        void* out = (void*)0x1; status rc; size_t stack = 256 * 1024;
        bool inj = round == 0;
        if (inj) {
            if (how == 0) A.arm(1);
            else if (what == 0) { if (how == 1) g_fail_create = 1; else stack = 1 + R(1000); }
            else if (what == 1) g_fail_minit = 1;
            else g_fail_cinit = 1;
        }
        if (what == 0) rc = thread_create((RCPR_SYM(thread)**)&out, A, stack, &j, job_fn);
        else if (what == 1) rc = thread_mutex_create((RCPR_SYM(thread_mutex)**)&out, A);
        else rc = thread_cond_create((RCPR_SYM(thread_cond)**)&out, A);
        A.disarm(); g_fail_create = g_fail_minit = g_fail_cinit = 0;
        if (inj) {
            count("injected");
            SEM(rc != STATUS_SUCCESS, "oom_success", "constructor %u succeeded despite a failure (%u)", what, how);
            SEM(out == nullptr, "out_not_null", "constructor %u failed but left its output pointer set", what);
            CHECK(A.live.empty(), "mem", "leak@thread_oom", "constructor %u leaked on failure", what);
            SEM(j.ran == 0, "thread_ran", "a thread that could not be created ran");
        } else {
            SEM(rc == STATUS_SUCCESS, "retry_failed", "constructor %u failed 0x%x", what, rc);
            OK(resource_release(what == 0 ? thread_resource_handle((RCPR_SYM(thread)*)out) : what == 1 ? thread_mutex_resource_handle((RCPR_SYM(thread_mutex)*)out)
                : thread_cond_resource_handle((RCPR_SYM(thread_cond)*)out)), "release");
        }
    }
    A.expect_empty("thread_oom");
    nontrivial(log_hash());
}

/* every call into the threading system fails once, wherever a program uses it */
SCENARIO("C17 C01 C32", thread_faults, 1) {
    Rng& R = c.rng; Alloc A; g_faulted = 0; unsigned want = 0;
    auto op = [&](const char* call, const char* what, const std::function<status()>& fn) {
        bool f = R.chance(1, 3); g_fault = f ? call : nullptr;
        status rc = fn();
        SEM(g_fault == nullptr, "harness", "%s does not reach %s", what, call);
        want += f;
        if (f) SEM(rc != STATUS_SUCCESS, (std::string("fault_lost@") + what).c_str(), "%s reports success although the system refused", what);
        else SEM(rc == STATUS_SUCCESS, what, "%s failed 0x%x", what, rc);
        log("%s %d", what, f);
        return !f;
    };
    for (int round = 0; round < 2; ++round) {
        RCPR_SYM(thread_mutex)* m; RCPR_SYM(thread_cond)* v; RCPR_SYM(thread)* t = (RCPR_SYM(thread)*)&A;
        OK(thread_mutex_create(&m, A), "mutex_create"); OK(thread_cond_create(&v, A), "cond_create");
        size_t n = R.range(1, 5);
        for (size_t i = 0; i < n; ++i) {
            RCPR_SYM(thread_mutex_lock)* l = (RCPR_SYM(thread_mutex_lock)*)&A;
            if (!op("lock", "lock", [&] { return thread_mutex_lock_acquire(&l, m); })) { SEM(l == nullptr, "lock_out", "a failed lock left the caller's pointer set"); continue; }
            if (R.chance(1, 2)) {       /* waiting fails at once: the lock is still held */
                auto* before = l; g_fault = "wait"; status rc = thread_cond_wait(&l, v); ++want;
                SEM(rc != STATUS_SUCCESS && l == before, "wait_fault", "a refused wait returned 0x%x or changed the caller's lock", rc);
            }
            op("signal", "signal_one", [&] { return thread_cond_signal_one(l, v); });
            op("broadcast", "signal_all", [&] { return thread_cond_signal_all(l, v); });
            op("unlock", "unlock", [&] { return resource_release(thread_mutex_lock_resource_handle(l)); });
        }
        Job j; j.ret = R.chance(1, 3) ? 0x5151 : STATUS_SUCCESS; j.work = 5;
        if (op("attr_init", "thread_create", [&] { return thread_create(&t, A, 256 * 1024, &j, job_fn); })) {
            bool f = R.chance(1, 2); g_fault = f ? "join" : nullptr; want += f;
            status rc = resource_release(thread_resource_handle(t));
            SEM(j.ran == 1 && j.finished, "join", "releasing a thread returned before it had run");
            SEM(f ? rc != STATUS_SUCCESS : rc == j.ret, "join_status", "releasing a thread that returned 0x%x gave 0x%x", j.ret, rc);
        } else SEM(t == nullptr && j.ran == 0, "out_not_null", "a failed thread creation left its output pointer set");
        op("cond_destroy", "cond_release", [&] { return resource_release(thread_cond_resource_handle(v)); });
        op("mutex_destroy", "mutex_release", [&] { return resource_release(thread_mutex_resource_handle(m)); });
        A.expect_empty("thread_faults");
    }
    SEM(g_faulted == want, "harness", "%u failures wanted, %u happened", want, g_faulted);
    count("faults", want);
    if (want) nontrivial(log_hash());
}
