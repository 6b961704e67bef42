/* Fibers, schedulers, disciplines, messages and conditions: random programs
 * run against a reference scheduler, with every context switch probed. */
#include "mon.h"
#include <deque>
#include <memory>
#include <alloca.h>
#include <unistd.h>

#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/fiber/disciplines/management.h>
#include <rcpr/message.h>
#include <rcpr/stack.h>
#include <rcpr/uuid.h>

RCPR_IMPORT_condition;
RCPR_IMPORT_fiber;
RCPR_IMPORT_message;
RCPR_IMPORT_uuid;

using namespace mon;
typedef RCPR_SYM(fiber) Fiber;
typedef RCPR_SYM(fiber_scheduler) Sched;
typedef RCPR_SYM(fiber_scheduler_discipline) Disc;
typedef RCPR_SYM(rcpr_uuid) Uuid;
typedef RCPR_SYM(message) Message;
typedef RCPR_SYM(mailbox_address) Mbox;
typedef RCPR_SYM(conditional) Cond;
typedef RCPR_SYM(resource) Resource;

extern "C" const Uuid FIBER_SCHEDULER_INTERNAL_DISCIPLINE, FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE,
    FIBER_SCHEDULER_MESSAGE_DISCIPLINE, FIBER_SCHEDULER_CONDITION_DISCIPLINE;

#ifdef __SANITIZE_ADDRESS__
static const size_t STACK_MIN = 128 * 1024;
static const size_t ENTRY_SLACK = 4096;
#else
static const size_t STACK_MIN = 32 * 1024;
static const size_t ENTRY_SLACK = 1024;
#endif

/* ------------------------------------------------------- switch probe */
/* Every fiber_switch the library makes goes through here (linker wrap): all
 * callee-saved registers, the stack pointer and both floating-point control
 * words hold values unique to this switch, and must hold them again when the
 * fiber is resumed. */
extern "C" {
uint64_t probe_switches = 0;
uint64_t probe_resumes = 0;
#ifdef MON_VG
int probe_off = 1;              /* valgrind does not keep the control words */
#else
int probe_off = 0;
#endif
[[gnu::used]] void probe_bad(long which) {
    static const char* names[] = {"?", "rsp", "rbx", "rbp", "r12", "r13", "r14", "r15", "mxcsr", "x87 control word"};
    asm volatile("cld");
    fail("sem", "register_lost", "%s differs when a fiber is resumed from what it was when it was suspended", names[which]);
}
}
#define STR2(x) #x
#define STR(x) STR2(x)
#define SWITCH_SYM STR(RCPR_SYM(fiber_switch))
asm(R"(
.text
.weak __real_)" SWITCH_SYM R"(
.globl __wrap_)" SWITCH_SYM R"(
.type __wrap_)" SWITCH_SYM R"(, @function
__wrap_)" SWITCH_SYM R"(:
    push %rbp
    push %rbx
    push %r12
    push %r13
    push %r14
    push %r15
    sub  $56, %rsp
    stmxcsr 0(%rsp)
    fnstcw  4(%rsp)
    incq  probe_switches(%rip)
    movq  probe_switches(%rip), %rax
    movl  0(%rsp), %r9d
    movl  %eax, %r10d
    andl  $3, %r10d
    shll  $13, %r10d
    xorl  %r10d, %r9d
    movl  %r9d, 16(%rsp)
    ldmxcsr 16(%rsp)
    movzwl 4(%rsp), %r9d
    movl  %eax, %r10d
    shrl  $2, %r10d
    andl  $3, %r10d
    shll  $10, %r10d
    xorl  %r10d, %r9d
    movw  %r9w, 20(%rsp)
    fldcw 20(%rsp)
    movabsq $0x9E3779B97F4A7C15, %r10
    imulq %r10, %rax
    movq  %rax, 24(%rsp)
    movq  %rsp, 32(%rsp)
    leaq  1(%rax), %rbx
    leaq  2(%rax), %rbp
    leaq  3(%rax), %r12
    leaq  4(%rax), %r13
    leaq  5(%rax), %r14
    leaq  6(%rax), %r15
    call  __real_)" SWITCH_SYM R"(
    incq  probe_resumes(%rip)
    movl  $1, %edi
    cmpq  %rsp, 32(%rsp)
    jne   1f
    movq  24(%rsp), %rax
    movl  $2, %edi
    leaq  1(%rax), %r10
    cmpq  %r10, %rbx
    jne   1f
    movl  $3, %edi
    leaq  2(%rax), %r10
    cmpq  %r10, %rbp
    jne   1f
    movl  $4, %edi
    leaq  3(%rax), %r10
    cmpq  %r10, %r12
    jne   1f
    movl  $5, %edi
    leaq  4(%rax), %r10
    cmpq  %r10, %r13
    jne   1f
    movl  $6, %edi
    leaq  5(%rax), %r10
    cmpq  %r10, %r14
    jne   1f
    movl  $7, %edi
    leaq  6(%rax), %r10
    cmpq  %r10, %r15
    jne   1f
    movl  $8, %edi
    stmxcsr 40(%rsp)
    movl  40(%rsp), %eax
    xorl  16(%rsp), %eax
    testl $0xFFC0, %eax
    jne   1f
    movl  $9, %edi
    fnstcw 44(%rsp)
    movw  44(%rsp), %ax
    cmpw  20(%rsp), %ax
    jne   1f
    ldmxcsr 0(%rsp)
    fldcw 4(%rsp)
    add   $56, %rsp
    pop  %r15
    pop  %r14
    pop  %r13
    pop  %r12
    pop  %rbx
    pop  %rbp
    ret
1:  andq  $-16, %rsp
    call  probe_bad
    hlt
.size __wrap_)" SWITCH_SYM R"(, .-__wrap_)" SWITCH_SYM R"(

.globl probe_entry
.type probe_entry, @function
probe_entry:
    movq  %rsp, 0(%rdi)
    stmxcsr 8(%rdi)
    fnstcw 12(%rdi)
    jmp   fiber_body
.size probe_entry, .-probe_entry
)");
extern "C" status probe_entry(void*);

#ifdef MON_VG
static uint32_t get_mxcsr() { return 0x1F80; }
static void set_mxcsr(uint32_t) {}
static uint16_t get_cw() { return 0x37F; }
static void set_cw(uint16_t) {}
#else
static uint32_t get_mxcsr() { uint32_t v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static void set_mxcsr(uint32_t v) { asm volatile("ldmxcsr %0" : : "m"(v)); }
static uint16_t get_cw() { uint16_t v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
static void set_cw(uint16_t v) { asm volatile("fldcw %0" : : "m"(v)); }
#endif

/* ------------------------------------------------------- the world */
enum { D_INT, D_MGMT, D_TEST, D_MSG, D_COND, D_NONE = -1 };
enum { CREATED, RUNNING, STOPPED };
enum { W_NONE, W_PARK, W_MGMT, W_RECV, W_COND, W_LOST };
enum { F_ADD = 1, F_WAKE = 2, F_MGMT = 4, F_MSG = 8, F_COND = 16, F_DEEP = 32, F_ODD = 64, F_INTR = 128, F_OOM = 256, F_BADREL = 512 };
enum { EV_RUN = FIBER_SCHEDULER_RESUME_EVENT_RUN, EV_ADD = FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, EV_IDLE = FIBER_SCHEDULER_RESUME_EVENT_IDLE };
enum { MG_ADD, MG_STOP, MG_QUIESCE, MG_TERM, MG_RESULT };

struct World;
struct Fb {
    uint64_t entry_sp; uint32_t entry_mxcsr; uint16_t entry_cw; uint16_t pad;   /* written by probe_entry; keep first */
    World* w;
    int id;
    Fiber* f;
    size_t stack;
    uint32_t make_mxcsr; uint16_t make_cw;
    int st = CREATED, wait = W_NONE, inq = 0, entries = 0;
    uint64_t wait_on = 0;
    int disc = D_INT, ev = 0; uintptr_t param = 0;    /* pending or last event */
    bool removed = false, released = false, told_to_stop = false, is_main = false;
    status ret = 0;
    unsigned unexpected = 0;
};
struct Ent { int f; uint64_t group; };
struct Msg { Message* m; Res* payload; Mbox ret; uint64_t n; };
struct Box { std::deque<Msg> q; int blocked = -1; };
struct Act { int f; bool front; int ev; uintptr_t param; };
struct Req { std::vector<Act> acts; status ret = STATUS_SUCCESS; int cb = -1; int calls = 0; };

struct World {
    Ctx& c;
    Alloc A;
    ResPool pool;
    Sched* s = nullptr;
    Disc *test = nullptr, *msg = nullptr, *cond = nullptr;
    Uuid test_id;
    std::vector<std::unique_ptr<Fb>> fb;
    std::deque<Ent> q;
    std::map<Mbox, Box> boxes;
    std::set<Mbox> closed;
    std::map<Cond, std::deque<int>> conds;
    std::set<Cond> cclosed;
    std::map<int, Mbox> recv_on;
    std::vector<Msg> held;                 /* messages owned by the program */
    std::map<Res*, unsigned> want;         /* expected releases of payloads */
    Req* req = nullptr;
    int cur = 0, idle = -1, mgmt = -1;
    bool expect_err = false;
    int feat, steps, max_fibers;
    uint64_t group = 0, msgno = 0, nbox = 0, ncond = 0;
    uint64_t h = 0;
    unsigned resumed = 0;

    World(Ctx& cc, int features, int nsteps) : c(cc), feat(features), steps(nsteps) {}
    Fb& F(int i) { return *fb[i]; }
    Fb& me() { return *fb[cur]; }
    uint64_t R(uint64_t n) { return c.rng(n); }

    /* did the allocation armed for this call fail? (asked before another is armed) */
    bool oom_seen() { bool r = A.injected > 0; A.injected = 0; return r; }
    bool fails(const Msg& x) { return x.payload && x.payload->on_release != STATUS_SUCCESS; }

    /* ---- model of the run queue */
    void pend(int f, int d, int ev, uintptr_t p) { F(f).disc = d; F(f).ev = ev; F(f).param = p; ++F(f).inq; }
    void back(int f, int d, int ev, uintptr_t p = 0) { pend(f, d, ev, p); q.push_back({f, 0}); }
    void front(int f, int d, int ev, uintptr_t p = 0) { pend(f, d, ev, p); q.push_front({f, 0}); }
    bool idle_ready() { return idle >= 0 && F(idle).st != STOPPED; }
    bool can_switch() { return !q.empty() || idle_ready(); }
    std::string qs() {
        std::string r;
        for (auto& e : q) r += std::to_string(e.f) + (e.group ? "g " : " ");
        return r;
    }
    std::function<void()> later;        /* what a request does to the model, once it is known whether its memory was refused */
    /* fiber f is running now: it must be the one whose turn it is */
    void arrived(int f) {
        if (later) { auto g = std::move(later); later = nullptr; g(); }
        ++resumed;
        count("resumptions");
        SEM(F(f).st != STOPPED, "stopped_resumed", "fiber %d was resumed after it stopped", f);
        if (q.empty()) {
            SEM(idle_ready(), "exhausted_switch", "fiber %d was resumed although nothing was runnable", f);
            SEM(f == idle, "wrong_fiber", "with nothing runnable fiber %d was resumed, not the idle fiber %d", f, idle);
            F(f).disc = D_INT; F(f).ev = EV_IDLE; F(f).param = 0;
        } else {
            size_t i = 0;
            uint64_t g = q[0].group;
            if (g) while (i < q.size() && q[i].group == g && q[i].f != f) ++i;
            SEM(i < q.size() && q[i].f == f && q[i].group == g, "wrong_fiber",
                "fiber %d was resumed; the runnable fibers in order are: %s", f, qs().c_str());
            q.erase(q.begin() + i);
            --F(f).inq;
        }
        cur = f;
        F(f).wait = W_NONE;
        A.disarm();
        h = mix(h, f * 64 + F(f).ev);
        log("  -> fiber %d (disc %d event %d)", f, F(f).disc, F(f).ev);
        if (c.rng.chance(1, 4)) {
            Fiber* x = nullptr;
            OK(disciplined_fiber_scheduler_current_fiber_get(&x, s), "current_get");
            SEM(x == F(f).f, "current_fiber", "the current fiber is not the running one");
        }
    }
    const Uuid* id_of(int d) {
        switch (d) {
            case D_INT: return &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
            case D_MGMT: return &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE;
            case D_TEST: return &test_id;
            case D_MSG: return &FIBER_SCHEDULER_MESSAGE_DISCIPLINE;
            default: return &FIBER_SCHEDULER_CONDITION_DISCIPLINE;
        }
    }
    void event_is(const Uuid* id, int ev, void* p) {
        Fb& f = me();
        SEM(id && !memcmp(id, id_of(f.disc), 16), "event_discipline", "fiber %d was resumed with another discipline's id", f.id);
        SEM(ev == f.ev, "event_code", "fiber %d was resumed with event %d instead of %d", f.id, ev, f.ev);
        SEM((uintptr_t)p == f.param, "event_param", "fiber %d was resumed (event %d) with parameter %p instead of %p", f.id, ev, p, (void*)f.param);
        count("events");
    }

    /* ---- run a library call that may switch, guarding this fiber's state */
    template <class Fn> status guarded(Fn fn) {
        int m = cur;
        uint32_t mx = (get_mxcsr() & ~0xE07Fu) | (uint32_t)(R(4) << 13) | (uint32_t)(R(2) << 15);
        uint16_t cw = (uint16_t)((get_cw() & ~0x0F00u) | (R(4) << 10) | (R(2) ? 0x300 : 0x200));
        size_t n = (feat & F_DEEP) ? 16 + R(c.rng.chance(1, 6) ? 6000 : 400) : 32;
        volatile uint8_t* buf = (volatile uint8_t*)alloca(n);
        uint64_t k = c.rng.next();
        for (size_t i = 0; i < n; ++i) buf[i] = (uint8_t)(k >> (i % 8 * 8)) ^ (uint8_t)i;
        uint32_t mx0 = get_mxcsr(); uint16_t cw0 = get_cw();
        set_mxcsr(mx); set_cw(cw);
        status st = fn();
        uint32_t mx1 = get_mxcsr(); uint16_t cw1 = get_cw();
        set_mxcsr(mx0); set_cw(cw0);
        for (size_t i = 0; i < n; ++i)
            SEM(buf[i] == (uint8_t)((uint8_t)(k >> (i % 8 * 8)) ^ (uint8_t)i), "locals_lost", "byte %zu of fiber %d's local variables changed while it was suspended", i, m);
#ifndef MON_VG
        SEM(((mx1 ^ mx) & 0xFFC0) == 0, "mxcsr_lost", "MXCSR control bits %x became %x across a switch", mx, mx1);
        SEM(cw1 == cw, "x87_lost", "the x87 control word %x became %x across a switch", cw, cw1);
#endif
        for (int tries = 0; fb.size() > 1 && tries < 1; ++tries) {
            Fb& x = F((int)R(fb.size()));
            if (!x.released && !x.is_main)
                SEM((int)RCPR_SYM(fiber_state_get)(x.f) == x.st, "state", "fiber %d's state is %d instead of %d", x.id, (int)RCPR_SYM(fiber_state_get)(x.f), x.st);
        }
        return st;
    }
    /* the same, at some depth of recursion */
    template <class Fn> [[gnu::noinline]] status deep(int d, Fn fn) {
        volatile uint64_t a = c.rng.next(), b = a * 3 + d;
        double x = (double)(a % 1000) * 0.5 + d;
        status st = d > 0 ? deep(d - 1, fn) : guarded(fn);
        SEM(b == a * 3 + d && x == (double)(a % 1000) * 0.5 + d, "frame_lost", "a frame of fiber %d changed while it was suspended", cur);
        return st;
    }
    template <class Fn> status call(Fn fn) { return deep((feat & F_DEEP) ? (int)R(6) : 0, fn); }

    /* a call that suspends fiber m; the queue already describes what follows */
    template <class Fn> status sw(int m, Fn fn) {
        if (!can_switch()) {
            status st = call(fn);
            SEM(st == ERROR_FIBER_SCHEDULER_EXHAUSTED, "exhausted", "with nothing runnable the call returned 0x%x", st);
            SEM(cur == m, "exhausted", "control moved although nothing was runnable");
            expect_err = true;
            count("exhausted");
            return st;
        }
        expect_err = false;
        status st = call(fn);
        arrived(m);
        return st;
    }

    /* ---- creation */
    int new_fiber(size_t stack) {
        auto x = std::make_unique<Fb>();
        x->w = this; x->id = (int)fb.size(); x->stack = stack;
        size_t before = mapped_count();
        uint32_t mx0 = get_mxcsr(); uint16_t cw0 = get_cw();
        uint32_t mx = (mx0 & ~0xE07Fu) | (uint32_t)(R(4) << 13);
        uint16_t cw = (uint16_t)((cw0 & ~0x0F00u) | (R(4) << 10) | (R(2) ? 0x300 : 0x200));
        set_mxcsr(mx); set_cw(cw);
        status st = fiber_create(&x->f, A, s, stack, x.get(), &probe_entry);
        set_mxcsr(mx0); set_cw(cw0);
        SEM(st == STATUS_SUCCESS, "fiber_create", "fiber_create(%zu) returned 0x%x", stack, st);
        x->make_mxcsr = mx; x->make_cw = cw;
        SEM(mapped_count() == before + 1, "own_stack", "creating a fiber made %zd stack mappings", (ssize_t)(mapped_count() - before));
        SEM(RCPR_SYM(fiber_state_get)(x->f) == FIBER_STATE_CREATED, "state", "a new fiber is not in the created state");
        SEM(RCPR_SYM(fiber_scheduler_from_fiber_get)(x->f) == s, "from_fiber", "a new fiber's scheduler is not the one given");
        if (feat & F_MGMT) OK(fiber_unexpected_event_callback_add(x->f, &unexpected, x.get()), "unexpected_add");
        fb.push_back(std::move(x));
        log("create fiber %zu stack %zu", fb.size() - 1, stack);
        return (int)fb.size() - 1;
    }
    static status unexpected(void* ctx, Fiber* f, const Uuid* id, int ev, void* p, const Uuid* eid, int eev) {
        Fb* x = (Fb*)ctx;
        SEM(x->f == f, "unexpected_fiber", "the handler of fiber %d was called for another fiber", x->id);
        SEM(id == x->w->id_of(D_TEST) && eid == x->w->id_of(D_MSG) && ev == 77 && eev == 78 && p == (void*)x, "unexpected_args",
            "the unexpected event handler received other arguments");
        ++x->unexpected;
        return (status)(1000 + x->id);
    }
    size_t stack_size() {
        size_t n = STACK_MIN + R(3) * 4096;
        if (c.rng.chance(1, 3)) n += R(4096);
        if (c.rng.chance(1, 60)) n += (size_t)1 << (15 + R(8));
        return n;
    }
    void add(int n) {
        int m = cur;
        log("fiber %d adds %d", m, n);
        if (feat & F_OOM) {
            for (uint64_t k = 1; k < 12 && c.rng.chance(4, 5); ++k) {
                /* a failing add changes nothing; a successful one is checked as usual */
                auto q0 = new std::deque<Ent>(q);
                Fb &fm = me(), &fn = F(n), sm = fm, sn = fn, sg = mgmt >= 0 ? F(mgmt) : fm;
                int mg = mgmt;
                front(m, D_INT, EV_ADD);
                if (mgmt >= 0) { front(mgmt, D_MGMT, MG_ADD, (uintptr_t)fn.f); mgmt = -1; }
                back(n, D_INT, EV_ADD);
                A.arm(k);
                status st = call([&] { return fiber_scheduler_add(s, F(n).f); });
                if (!oom_seen()) { A.disarm(); arrived(m); delete q0; SEM(st == STATUS_SUCCESS, "add", "fiber_scheduler_add returned 0x%x", st); return; }
                A.disarm();
                SEM(st != STATUS_SUCCESS, "add_oom", "fiber_scheduler_add succeeded although allocation %llu failed", (unsigned long long)k);
                SEM(cur == m, "add_oom_switch", "a failed add switched fibers");
                q = *q0; mgmt = mg; fm = sm; fn = sn; if (mg >= 0) F(mg) = sg;
                delete q0;
                count("add_oom");
            }
        }
        front(m, D_INT, EV_ADD);
        if (mgmt >= 0) { front(mgmt, D_MGMT, MG_ADD, (uintptr_t)F(n).f); mgmt = -1; }
        back(n, D_INT, EV_ADD);
        status st = sw(m, [&] { return fiber_scheduler_add(s, F(n).f); });
        SEM(st == STATUS_SUCCESS, "add", "fiber_scheduler_add returned 0x%x", st);
    }
    void run() {
        int m = cur;
        log("fiber %d runs the scheduler", m);
        if (m != idle) back(m, D_INT, EV_RUN);
        bool direct = c.rng.chance(1, 2);
        const Uuid* id = nullptr; int ev = -1; void* p = (void*)1;
        status st = sw(m, [&] {
            return direct ? fiber_scheduler_yield(s, FIBER_SCHEDULER_YIELD_EVENT_RUN, nullptr, &id, &ev, &p)
                 : m == idle ? disciplined_fiber_scheduler_idle_fiber_yield(s) : fiber_scheduler_run(s);
        });
        if (expect_err) return;
        SEM(st == STATUS_SUCCESS, "run", "running the scheduler returned 0x%x", st);
        if (direct) event_is(id, ev, p);
    }
    /* fibers that a wake may name: parked, or already queued by an earlier wake */
    bool wakeable(int f) {
        Fb& x = F(f);
        if (x.released || x.st == STOPPED || f == cur || f == idle) return false;
        /* events of other disciplines interrupt a receive or a wait */
        if ((feat & F_INTR) && (x.wait == W_RECV || x.wait == W_COND) && x.inq == 0 && c.rng.chance(1, 6)) return true;
        return x.wait == W_PARK && (x.inq == 0 || (x.disc == D_TEST && x.inq < 3));
    }
    /* park, after waking others, requeueing itself or not */
    void wake(int force = -1) {
        int m = cur;
        Req r;
        std::vector<int> cand;
        for (size_t i = 0; i < fb.size(); ++i) if (wakeable((int)i)) cand.push_back((int)i);
        int n = cand.empty() ? 0 : (int)R(std::min<size_t>(cand.size(), 4) + 1);
        auto act = [&](int f) {
            Act a{f, c.rng.chance(1, 2), (int)R(F(f).wait != W_PARK ? 9 : 1 << 20), (uintptr_t)c.rng.next()};
            if (F(f).inq) { a.ev = F(f).ev; a.param = F(f).param; }
            for (auto& o : r.acts) if (o.f == f) { a.ev = o.ev; a.param = o.param; }
            r.acts.push_back(a);
        };
        if (force >= 0) act(force);
        for (int i = 0; i < n; ++i) {
            int f = cand[R(cand.size())];
            unsigned already = 0;
            for (auto& o : r.acts) already += o.f == f;
            if (already && (!(feat & F_ODD) || F(f).wait != W_PARK)) continue;
            if (F(f).inq && !(feat & F_ODD)) continue;
            if (already > 1) continue;
            act(f);
        }
        bool self = m == 0 ? c.rng.chance(3, 4) : c.rng.chance(1, 2);
        if (self) {
            Act a{m, c.rng.chance(1, 2), (int)R(1 << 20), (uintptr_t)c.rng.next()};
            r.acts.insert(r.acts.begin() + R(r.acts.size() + 1), a);
        }
        if (c.rng.chance(1, 20)) r.ret = (status)(0x7000 + R(100));
        r.cb = (int)R(3);
        log("fiber %d wakes %zu (self %d, status %x)", m, r.acts.size(), self, r.ret);
        if (r.ret == STATUS_SUCCESS)
            for (auto& a : r.acts) a.front ? front(a.f, D_TEST, a.ev, a.param) : back(a.f, D_TEST, a.ev, a.param);
        req = &r;
        const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
        auto go = [&] { return fiber_discipline_yield(test, r.cb, &r, &id, &ev, &p); };
        if (r.ret != STATUS_SUCCESS) {
            status st = call(go);
            SEM(cur == m && st == r.ret, "callback_error", "a failing discipline callback's status 0x%x came back as 0x%x", r.ret, st);
            SEM(r.calls == 1, "callback_count", "one request called the callback %d times", r.calls);
            return;
        }
        F(m).wait = W_PARK;
        status st = sw(m, go);
        F(m).wait = W_NONE;
        SEM(r.calls == 1, "callback_count", "one request called the callback %d times", r.calls);
        if (expect_err) return;
        SEM(st == STATUS_SUCCESS, "discipline_yield", "fiber_discipline_yield returned 0x%x", st);
        event_is(id, ev, p);
    }
    static status on_test(int cb, void* ctx, Fiber* f, void* param) {
        World& w = *(World*)ctx;
        Req* r = (Req*)param;
        SEM(r == w.req, "callback_param", "the callback received another parameter");
        SEM(f == w.me().f, "callback_fiber", "the callback was told another fiber is yielding");
        SEM(cb == r->cb, "callback_index", "request %d invoked callback %d", r->cb, cb);
        ++r->calls;
        if (r->ret != STATUS_SUCCESS) return r->ret;
        for (auto& a : r->acts)
            OK((a.front ? disciplined_fiber_scheduler_set_next_fiber_to_run : disciplined_fiber_scheduler_add_fiber_to_run_queue)(
                   w.s, w.F(a.f).f, &w.test_id, a.ev, (void*)a.param), "enqueue");
        return STATUS_SUCCESS;
    }
    template <int N> static status cb(void* ctx, Fiber* f, int, void* p) { return on_test(N, ctx, f, p); }

    /* ---- management */
    void mgmt_wait() {
        int m = cur;
        log("fiber %d waits for management events", m);
        const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
        mgmt = m;
        F(m).wait = W_MGMT;
        status st = sw(m, [&] { return disciplined_fiber_scheduler_receive_management_event(s, &id, &ev, &p); });
        F(m).wait = W_NONE;
        if (mgmt == m) mgmt = -1;
        if (expect_err) return;
        SEM(st == STATUS_SUCCESS, "mgmt_wait", "receive_management_event returned 0x%x", st);
        event_is(id, ev, p);
        count("management_events");
        if (F(m).ev == MG_QUIESCE || F(m).ev == MG_TERM) F(m).told_to_stop = true;
    }
    bool waiting(int f) { Fb& x = F(f); return !x.released && x.wait != W_NONE && x.inq == 0 && x.st == RUNNING; }
    /* an idle fiber that gave way is resumed by a request as well */
    bool reach(int f) { Fb& x = F(f); return waiting(f) || (f == idle && !x.released && x.inq == 0 && x.st == RUNNING); }
    void request_one() {
        int m = cur;
        std::vector<int> cand;
        for (size_t i = 0; i < fb.size(); ++i) {
            Fb& x = F((int)i);
            if (x.released || (int)i == m) continue;
            if (x.is_main && !reach((int)i)) continue;
            if (reach((int)i) || x.st != RUNNING) cand.push_back((int)i);
        }
        if (cand.empty()) return;
        int t = cand[R(cand.size())];
        bool term = c.rng.chance(1, 2);
        bool ok = reach(t);
        if (ok && t == idle) count("requests_to_idle");
        log("fiber %d sends %s to %d", m, term ? "terminate" : "quiesce", t);
        front(m, D_MGMT, MG_RESULT, ok ? 0 : (uintptr_t)(int64_t)(status)ERROR_FIBER_INVALID_STATE);
        if (ok) {
            if (mgmt == t) mgmt = -1;
            front(t, D_MGMT, term ? MG_TERM : MG_QUIESCE);
        }
        status st = sw(m, [&] {
            return term ? disciplined_fiber_scheduler_send_terminate_request_to_fiber(s, F(t).f)
                        : disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, F(t).f);
        });
        if (ok) SEM(st == STATUS_SUCCESS, "request", "a request to a waiting fiber returned 0x%x", st);
        else SEM(st != STATUS_SUCCESS, "request_refused", "a request to a fiber that is not running succeeded");
        count(ok ? "requests" : "requests_refused");
    }
    bool request_all() {
        int m = cur;
        std::vector<int> t;
        for (size_t i = 0; i < fb.size(); ++i) {
            Fb& x = F((int)i);
            if (x.is_main || x.released || x.removed || (int)i == m || x.st != RUNNING || (int)i == mgmt) continue;
            if ((int)i == idle) { if (!x.pad) continue; if (x.inq) return false; t.push_back((int)i); count("requests_to_idle"); continue; }
            if (!waiting((int)i)) return false;
            t.push_back((int)i);
        }
        if (t.empty() && !c.rng.chance(1, 8)) return false;
        bool term = c.rng.chance(1, 2);
        log("fiber %d sends %s to all (%zu)", m, term ? "terminate" : "quiesce", t.size());
        if (t.size() > 1) count("requests_to_many");
        ++group;
        for (int i : t) { pend(i, D_MGMT, term ? MG_TERM : MG_QUIESCE, 0); q.push_back({i, group}); }
        back(m, D_MGMT, MG_RESULT, 0);
        status st = sw(m, [&] {
            return term ? disciplined_fiber_scheduler_send_terminate_request_to_all(s) : disciplined_fiber_scheduler_send_quiesce_request_to_all(s);
        });
        SEM(st == STATUS_SUCCESS, "request_all", "a request to all returned 0x%x", st);
        count("requests_to_all");
        return true;
    }
    void remove_one() {
        std::vector<int> cand;
        for (size_t i = 1; i < fb.size(); ++i) {
            Fb& x = F((int)i);
            if (x.released || (int)i == cur || (int)i == idle) continue;
            cand.push_back((int)i);
        }
        if (cand.empty()) return;
        int t = cand[R(cand.size())];
        Fb& x = F(t);
        status st = disciplined_fiber_scheduler_remove_fiber(s, x.f);
        log("remove fiber %d: %x", t, st);
        if (x.removed) SEM(st != STATUS_SUCCESS, "remove_twice", "a fiber was handed out twice");
        else SEM(st == STATUS_SUCCESS, "remove", "removing a fiber returned 0x%x", st);
        x.removed = true;
        count("removals");
        if (x.st == STOPPED && x.inq == 0 && c.rng.chance(2, 3)) release_fiber(t);
    }
    void release_fiber(int t) {
        size_t n = mapped_count();
        OK(resource_release(RCPR_SYM(fiber_resource_handle)(F(t).f)), "fiber_release");
        SEM(mapped_count() == n - 1, "stack_unmapped", "releasing a fiber left its stack mapped");
        F(t).released = true;
    }
    void unexpected_event() {
        int t = (int)R(fb.size());
        Fb& x = F(t);
        if (x.released) return;
        unsigned b = x.unexpected;
        status st = fiber_unexpected_event(x.f, id_of(D_TEST), 77, &x, id_of(D_MSG), 78);
        if (x.is_main) SEM(st == ERROR_FIBER_NO_UNEXPECTED_HANDLER, "unexpected_none", "an unexpected event without a handler returned 0x%x", st);
        else SEM(st == 1000 + x.id && x.unexpected == b + 1, "unexpected", "the handler of fiber %d was called %u times, status 0x%x", t, x.unexpected - b, st);
    }

    /* ---- messages */
    Mbox pick_box(bool* exists) {
        *exists = !boxes.empty() && !c.rng.chance(1, 8);
        if (*exists) { auto i = boxes.begin(); std::advance(i, R(boxes.size())); return i->first; }
        if (!closed.empty() && c.rng.chance(1, 2)) { auto i = closed.begin(); std::advance(i, R(closed.size())); return *i; }
        for (;;) {
            Mbox b = c.rng.chance(1, 2) ? 1 + R(40) : c.rng.next();
            if (b && !boxes.count(b)) return b;
        }
    }
    void box_create() {
        int m = cur;
        Mbox a = 0;
        if ((feat & F_OOM) && nbox > 1) {
            uint64_t k = 1 + R(nbox - 1);
            size_t live = A.live.size();
            front(m, D_MSG, 1);
            A.arm(k);
            status st = sw(m, [&] { return mailbox_create(&a, msg); });
            SEM(oom_seen(), "harness", "no allocation failed");
            SEM(st != STATUS_SUCCESS, "mailbox_create_oom", "mailbox_create succeeded although allocation %llu failed", (unsigned long long)k);
            SEM(A.live.size() == live, "mailbox_create_leak", "a failed mailbox_create kept %zd blocks", (ssize_t)(A.live.size() - live));
            count("mailbox_create_oom");
        }
        front(m, D_MSG, 0);
        A.arm(0);
        status st = sw(m, [&] { return mailbox_create(&a, msg); });
        SEM(st == STATUS_SUCCESS, "mailbox_create", "mailbox_create returned 0x%x", st);
        nbox = A.attempts;
        SEM(a != 0 && !boxes.count(a), "mailbox_address", "a new mailbox has the address %llu of an open one", (unsigned long long)a);
        SEM(!closed.count(a), "mailbox_reused", "a new mailbox has the address %llu of a closed one", (unsigned long long)a);
        boxes[a];
        log("mailbox %llu by fiber %d", (unsigned long long)a, m);
    }
    Msg make_msg() {
        Msg x{};
        x.n = ++msgno;
        x.payload = c.rng.chance(1, 10) ? nullptr : pool.make();
        if (x.payload && (feat & F_BADREL) && c.rng.chance(1, 3)) x.payload->on_release = (status)(0x5000 + R(50));
        x.ret = c.rng.chance(1, 5) ? c.rng.next() : (boxes.empty() ? 0 : boxes.begin()->first);
        OK(message_create(&x.m, A, x.ret, x.payload ? x.payload->h() : nullptr), "message_create");
        check_msg(x, x.m);
        return x;
    }
    void check_msg(const Msg& x, Message* m) {
        SEM(m == x.m, "wrong_message", "another message was received than the %llu'th sent", (unsigned long long)x.n);
        SEM(RCPR_SYM(message_return_address)(m) == x.ret, "return_address", "the return address of message %llu changed", (unsigned long long)x.n);
        Resource* p = RCPR_SYM(message_payload)(m, false);
        SEM(p == (x.payload ? x.payload->h() : nullptr), "payload", "the payload of message %llu changed", (unsigned long long)x.n);
        if (x.payload) SEM(x.payload->released == want[x.payload], "payload_released", "the payload of message %llu was released", (unsigned long long)x.n);
    }
    void drop_msg(Msg x) {
        if (x.payload && c.rng.chance(1, 3)) {
            Resource* p = RCPR_SYM(message_payload)(x.m, true);
            SEM(p == x.payload->h(), "payload_xfer", "another payload was handed out");
            if (!prop_is("C01")) SEM(RCPR_SYM(message_payload)(x.m, false) == nullptr, "payload_kept", "the message still holds a payload it handed out");
            OK(resource_release(RCPR_SYM(message_resource_handle)(x.m)), "message_release");
            SEM(x.payload->released == 0, "payload_released", "releasing a message released the payload it had handed out");
            (void)!resource_release(p);
        } else {
            size_t live = A.live.size();
            status st = resource_release(RCPR_SYM(message_resource_handle)(x.m));
            if (fails(x)) { SEM(st != STATUS_SUCCESS, "bad_release_hidden", "releasing a message succeeded although its payload's release failed"); count("bad_releases"); }
            else SEM(st == STATUS_SUCCESS, "message_release", "releasing a message returned 0x%x", st);
            SEM(A.live.size() < live, "message_memory", "the message's memory was not returned");
        }
        if (x.payload) {
            want[x.payload] = 1;
            SEM(x.payload->released == 1, "payload_release_count", "the payload was released %u times with its message", x.payload->released);
        }
    }
    bool wake_ok(int f) { return f < 0 || F(f).inq == 0; }
    void send() {
        int m = cur;
        bool exists;
        Mbox a = pick_box(&exists);
        if (exists && !wake_ok(boxes[a].blocked)) return;
        Msg x;
        if (!held.empty() && c.rng.chance(1, 2)) { size_t i = R(held.size()); x = held[i]; held.erase(held.begin() + i); }
        else x = make_msg();
        log("fiber %d sends message %llu to %llu", m, (unsigned long long)x.n, (unsigned long long)a);
        front(m, D_MSG, exists ? 3 : 4);
        bool oom = exists && c.rng.chance(1, (feat & F_OOM) ? 3 : 25);
        bool refused = false;
        if (exists) later = [this, a, x, oom, &refused] {
            if (oom) { A.disarm(); if (oom_seen()) { refused = true; return; } }
            Box& b = boxes[a];
            b.q.push_back(x);
            if (b.blocked >= 0) {
                int r = b.blocked;
                b.blocked = -1;
                count("direct_deliveries");
                inflight[r] = b.q.front();
                b.q.pop_front();
                front(r, D_MSG, 5, (uintptr_t)inflight[r].m);
            }
        };
        bool waits = exists && boxes[a].blocked >= 0;
        if (oom) A.injected = 0;
        if (oom) A.arm(1);
        status st = sw(m, [&] { status r = message_send(a, x.m, msg); return r; });
        A.disarm();
        if (refused) {
            SEM(st != STATUS_SUCCESS, "send_oom", "message_send succeeded although its allocation failed");
            check_msg(x, x.m);
            held.push_back(x);
            count(waits ? "send_oom_to_waiting" : "send_oom");
            return;
        }
        if (exists) { SEM(st == STATUS_SUCCESS, "send", "message_send returned 0x%x", st); count("messages_sent"); }
        else {
            SEM(st != STATUS_SUCCESS, "send_missing", "sending to a mailbox that does not exist succeeded");
            check_msg(x, x.m);
            held.push_back(x);
            count("sends_refused");
        }
    }
    void receive() {
        int m = cur;
        bool exists;
        Mbox a = pick_box(&exists);
        Msg want_msg{};
        bool block = false, ok = false;
        if (!exists) front(m, D_MSG, 6);
        else {
            Box& b = boxes[a];
            if (!b.q.empty()) { want_msg = b.q.front(); b.q.pop_front(); ok = true; front(m, D_MSG, 5, (uintptr_t)want_msg.m); }
            else if (b.blocked >= 0) front(m, D_MSG, 6);
            else {
                if (m == 0 || m == idle) return;
                if (!can_switch() && c.rng.chance(1, 2)) return;
                block = true; b.blocked = m; F(m).wait = W_RECV; F(m).wait_on = a;
            }
        }
        log("fiber %d receives from %llu%s", m, (unsigned long long)a, block ? " (blocks)" : "");
        Message* got = nullptr;
        status st = sw(m, [&] { return message_receive(a, &got, msg); });
        F(m).wait = W_NONE;
        if (expect_err) { if (boxes.count(a) && boxes[a].blocked == m) boxes[a].blocked = -1; return; }
        if (block) {
            if (F(m).disc == D_MSG) { ok = true; }
            else {
                /* interrupted: no longer waiting */
                SEM(st != STATUS_SUCCESS, "receive_interrupted", "an interrupted receive returned success");
                if (boxes.count(a) && boxes[a].blocked == m) boxes[a].blocked = -1;
                if (F(m).disc == D_MGMT) F(m).told_to_stop = true;
                count("receives_interrupted");
                return;
            }
            if (inflight.count(m)) { want_msg = inflight[m]; inflight.erase(m); }
        }
        if (!ok) { SEM(st != STATUS_SUCCESS, "receive_refused", "receiving where it is impossible succeeded"); count("receives_refused"); return; }
        SEM(st == STATUS_SUCCESS && got, "receive", "message_receive returned 0x%x", st);
        if (!want_msg.m) {
            /* delivered while blocked: it is the message the sender's step put aside for us */
            fail("sem", "receive_unexpected", "a message was received from mailbox %llu without one being sent", (unsigned long long)a);
        }
        check_msg(want_msg, got);
        count("messages_received");
        if (c.rng.chance(2, 3)) drop_msg(want_msg); else held.push_back(want_msg);
    }
    std::map<int, Msg> inflight;
    void box_close() {
        int m = cur;
        bool exists;
        Mbox a = pick_box(&exists);
        if (exists && boxes[a].blocked >= 0 && !c.rng.chance(1, 4)) return;
        if (exists && !wake_ok(boxes[a].blocked)) return;
        log("fiber %d closes mailbox %llu", m, (unsigned long long)a);
        front(m, D_MSG, 2);
        bool bad = false;
        if (exists) {
            for (auto& x : boxes[a].q) bad |= fails(x);
            for (auto& x : boxes[a].q) if (x.payload) want[x.payload] = 1;
            count("undelivered", boxes[a].q.size());
            if (boxes[a].blocked >= 0) F(boxes[a].blocked).wait = W_LOST;
            boxes.erase(a);
            closed.insert(a);
        }
        status st = sw(m, [&] { return mailbox_close(a, msg); });
        if (bad) { SEM(st != STATUS_SUCCESS, "bad_release_hidden", "closing a mailbox succeeded although a payload's release failed"); count("bad_releases"); }
        else if (exists) SEM(st == STATUS_SUCCESS, "mailbox_close", "mailbox_close returned 0x%x", st);
        else SEM(st != STATUS_SUCCESS, "close_missing", "closing a mailbox that does not exist succeeded");
        check_payloads("after mailbox_close");
    }
    void check_payloads(const char* when) {
        for (auto* r : pool.all) {
            unsigned w = want.count(r) ? want[r] : 0;
            SEM(r->released == w, "payload_release_count", "%s: a payload was released %u times instead of %u", when, r->released, w);
        }
    }

    /* ---- conditions */
    Cond pick_cond(bool* exists) {
        *exists = !conds.empty() && !c.rng.chance(1, 8);
        if (*exists) { auto i = conds.begin(); std::advance(i, R(1 + R(conds.size()))); return i->first; }
        if (!cclosed.empty() && c.rng.chance(1, 2)) { auto i = cclosed.begin(); std::advance(i, R(cclosed.size())); return *i; }
        for (;;) {
            Cond b = c.rng.chance(1, 2) ? 1 + R(40) : c.rng.next();
            if (b && !conds.count(b)) return b;
        }
    }
    void cond_create() {
        int m = cur;
        Cond a = 0;
        if ((feat & F_OOM) && ncond > 1) {
            uint64_t k = 1 + R(ncond - 1);
            size_t live = A.live.size();
            front(m, D_COND, 1);
            A.arm(k);
            status st = sw(m, [&] { return conditional_create(&a, cond); });
            SEM(oom_seen(), "harness", "no allocation failed");
            SEM(st != STATUS_SUCCESS, "conditional_create_oom", "conditional_create succeeded although allocation %llu failed", (unsigned long long)k);
            SEM(A.live.size() == live, "conditional_create_leak", "a failed conditional_create kept %zd blocks", (ssize_t)(A.live.size() - live));
            count("conditional_create_oom");
        }
        front(m, D_COND, 0);
        A.arm(0);
        status st = sw(m, [&] { return conditional_create(&a, cond); });
        SEM(st == STATUS_SUCCESS, "conditional_create", "conditional_create returned 0x%x", st);
        ncond = A.attempts;
        SEM(a != 0 && !conds.count(a), "conditional_handle", "a new conditional has the handle of an open one");
        SEM(!cclosed.count(a), "conditional_reused", "a new conditional has the handle of a closed one");
        conds[a];
        log("conditional %llu by fiber %d", (unsigned long long)a, m);
    }
    void cond_close() {
        int m = cur;
        bool exists;
        Cond a = pick_cond(&exists);
        if (exists && !conds[a].empty() && !c.rng.chance(1, 6)) return;
        if (exists) for (int f : conds[a]) if (F(f).inq) return;
        log("fiber %d closes conditional %llu", m, (unsigned long long)a);
        front(m, D_COND, exists ? 2 : 3);
        if (exists) {
            for (int f : conds[a]) F(f).wait = W_LOST;
            conds.erase(a); cclosed.insert(a);
        }
        status st = sw(m, [&] { return conditional_close(a, cond); });
        if (exists) SEM(st == STATUS_SUCCESS, "conditional_close", "conditional_close returned 0x%x", st);
        else SEM(st != STATUS_SUCCESS, "cclose_missing", "closing a conditional that does not exist succeeded");
    }
    void cond_wait() {
        int m = cur;
        bool exists;
        Cond a = pick_cond(&exists);
        if (exists && (m == 0 || m == idle)) return;
        if (exists && !can_switch() && c.rng.chance(1, 2)) return;
        log("fiber %d waits on %llu", m, (unsigned long long)a);
        if (exists && (feat & F_OOM) && c.rng.chance(1, 3)) {
            size_t live = A.live.size();
            front(m, D_COND, 5);
            A.arm(1);
            status st = sw(m, [&] { return conditional_wait(a, cond); });
            SEM(oom_seen(), "harness", "no allocation failed");
            SEM(st != STATUS_SUCCESS, "wait_oom", "conditional_wait succeeded although its allocation failed");
            SEM(A.live.size() == live, "wait_leak", "a failed conditional_wait kept memory");
            count("wait_oom");
        }
        if (exists) { conds[a].push_back(m); F(m).wait = W_COND; F(m).wait_on = a; }
        else front(m, D_COND, 5);
        status st = sw(m, [&] { return conditional_wait(a, cond); });
        F(m).wait = W_NONE;
        if (expect_err || (exists && F(m).disc != D_COND)) {
            SEM(st != STATUS_SUCCESS, "wait_interrupted", "an interrupted wait returned success");
            if (conds.count(a))
                for (auto i = conds[a].begin(); i != conds[a].end(); ++i) if (*i == m) { conds[a].erase(i); break; }
            if (!expect_err && F(m).disc == D_MGMT) F(m).told_to_stop = true;
            count("waits_interrupted");
            return;
        }
        if (exists) { SEM(st == STATUS_SUCCESS, "wait", "conditional_wait returned 0x%x", st); count("wakeups"); }
        else SEM(st != STATUS_SUCCESS, "wait_missing", "waiting on a conditional that does not exist succeeded");
    }
    void cond_notify() {
        int m = cur;
        bool exists, all = c.rng.chance(1, 3);
        Cond a = pick_cond(&exists);
        if (exists && conds[a].size() < 2 && c.rng.chance(2, 3)) return;
        if (exists) for (int f : conds[a]) if (F(f).inq) return;
        log("fiber %d notifies %s of %llu", m, all ? "all" : "one", (unsigned long long)a);
        if (exists) {
            auto& w = conds[a];
            if (all && w.size() > 1) count("notify_all_many");
            if (!all && w.size() > 1) count("notify_one_of_many");
            if (w.empty()) count("notify_none");
            while (!w.empty()) {
                back(w.front(), D_COND, 4, 0);
                F(w.front()).wait = W_NONE;
                w.pop_front();
                if (!all) break;
            }
            count("notifications");
        }
        back(m, D_COND, exists ? 6 : 7);
        status st = sw(m, [&] { return all ? conditional_notify_all(a, cond) : conditional_notify_one(a, cond); });
        if (exists) SEM(st == STATUS_SUCCESS, "notify", "a notification returned 0x%x", st);
        else SEM(st != STATUS_SUCCESS, "notify_missing", "notifying a conditional that does not exist succeeded");
    }

    void park_only() {
        int m = cur;
        Req r;
        r.cb = (int)R(3);
        req = &r;
        const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
        F(m).wait = W_PARK;
        log("fiber %d parks", m);
        status st = sw(m, [&] { return fiber_discipline_yield(test, r.cb, &r, &id, &ev, &p); });
        SEM(st == STATUS_SUCCESS, "discipline_yield", "fiber_discipline_yield returned 0x%x", st);
        event_is(id, ev, p);
        count("double_resumes");
    }
    void stopping(Fb& x) {
        log("fiber %d returns", x.id);
        x.st = STOPPED;
        count("fibers_stopped");
        if (mgmt >= 0) { front(mgmt, D_MGMT, MG_STOP, (uintptr_t)x.f); mgmt = -1; }
        SEM(can_switch(), "harness", "the last fiber returned");
    }

    /* ---- one random step of the running fiber; false = return from the fiber */
    bool step() {
        int m = cur;
        --steps;
        if (steps < -4000) inconclusive("the program did not end");
        bool quiet = steps <= 0;
        if (me().inq) { park_only(); return true; }
        if (m != 0 && quiet) {
            if (mgmt == 0) return false;
            if (F(0).wait == W_PARK && F(0).inq == 0) { wake(0); return true; }
            if (!q.empty() && c.rng.chance(1, 4)) return false;
            run();
            return true;
        }
        if (m != 0 && m != idle && F(m).told_to_stop && c.rng.chance(1, 2) && !q.empty()) return false;
        if ((feat & F_MGMT) && c.rng.chance(1, 5) && request_all()) return true;
        for (;;) {
            unsigned k = (unsigned)R(24);
            switch (k) {
                case 0: case 1: case 2: run(); return true;
                case 3: case 4:
                    if (!(feat & F_ADD) || (int)fb.size() >= max_fibers) continue;
                    { int n = new_fiber(stack_size()); add(n); }
                    return true;
                case 5: case 6: case 7: case 8:
                    if (!(feat & F_WAKE)) continue;
                    wake(); return true;
                case 9:
                    if (m == 0 || (q.empty() && mgmt < 0) || c.rng.chance(1, 2)) continue;
                    return false;
                case 10: if (!(feat & F_MGMT) || mgmt >= 0 || m == idle || (m == 0 && idle >= 0)) continue; mgmt_wait(); return true;
                case 11: case 12: if (!(feat & F_MGMT)) continue; request_one(); return true;
                case 13: if (!(feat & F_MGMT) || !request_all()) continue; return true;
                case 14: if (!(feat & F_MGMT)) continue; c.rng.chance(1, 2) ? remove_one() : unexpected_event(); return true;
                case 15: if (!(feat & F_MSG) || boxes.size() > 3) continue; box_create(); return true;
                case 16: case 17: if (!(feat & F_MSG)) continue; send(); return true;
                case 18: case 19: if (!(feat & F_MSG)) continue; c.rng.chance(1, 8) ? box_close() : receive(); return true;
                case 20: if (!(feat & F_COND) || conds.size() > 2) continue; cond_create(); return true;
                case 21: if (!(feat & F_COND)) continue; cond_wait(); return true;
                case 22: if (!(feat & F_COND)) continue; c.rng.chance(1, 10) ? cond_close() : cond_notify(); return true;
                default:
                    if ((feat & F_ODD) && c.rng.chance(1, 8)) { bad_event(); return true; }
                    continue;
            }
        }
    }
    void bad_event() {
        int m = cur;
        const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
        static const int bad[] = {3, 4, 100, 0x1000, 0x7fffffff, -1, -2147483647 - 1};
        int e = bad[R(7)];
        status st = call([&] { return fiber_discipline_yield(test, e, nullptr, &id, &ev, &p); });
        SEM(cur == m && st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT, "bad_yield_event", "discipline request %d returned 0x%x", e, st);
        count("bad_yield_events");
    }
    void idle_loop() {
        for (;;) {
            --steps;
            if (steps < -4000) inconclusive("the program did not end");
            /* choose somebody to wake, else main must be reachable */
            std::vector<int> cand;
            for (size_t i = 0; i < fb.size(); ++i) if (wakeable((int)i)) cand.push_back((int)i);
            if (q.empty()) {
                SEM(!cand.empty(), "harness", "nothing can be woken");
                int n = 1 + (int)R(2);
                if (steps > 0 && c.rng.chance(1, 12)) n = 0;
                for (int i = 0; i < n; ++i) {
                    int t = (steps <= 0 && wakeable(0)) ? 0 : cand[R(cand.size())];
                    if (F(t).inq) continue;
                    bool fr = c.rng.chance(1, 2);
                    int ev = (int)R(F(t).wait != W_PARK ? 9 : 1 << 20); uintptr_t p = (uintptr_t)c.rng.next();
                    log("idle wakes %d", t);
                    fr ? front(t, D_TEST, ev, p) : back(t, D_TEST, ev, p);
                    OK((fr ? disciplined_fiber_scheduler_set_next_fiber_to_run : disciplined_fiber_scheduler_add_fiber_to_run_queue)(
                           s, F(t).f, &test_id, ev, (void*)p), "enqueue");
                }
                count("idles");
            }
            if (!q.empty() && c.rng.chance(1, 30)) return;    /* an idle fiber may return */
            run();
        }
    }
    void setup() {
        for (auto& b : test_id.data) b = (uint8_t)c.rng.next();
        if (c.rng.chance(1, 2)) {           /* nearly the identifier of another discipline */
            static const int d[] = {D_INT, D_MGMT, D_MSG, D_COND};
            test_id = *id_of(d[R(4)]); test_id.data[R(16)] ^= (uint8_t)(1 + R(255));
        }
        if (c.rng.chance(1, 8)) { A.spread = true; log("far blocks"); }
        OK(fiber_scheduler_create_with_disciplines(&s, A), "scheduler_create");
        auto x = std::make_unique<Fb>();
        x->w = this; x->id = 0; x->is_main = true; x->st = RUNNING;
        OK(disciplined_fiber_scheduler_main_fiber_get(&x->f, s), "main_get");
        fb.push_back(std::move(x));
        RCPR_SYM(fiber_scheduler_discipline_callback_fn) cbs[] = {&cb<0>, &cb<1>, &cb<2>};
        unsigned order = (unsigned)R(6);
        for (int i = 0; i < 3; ++i) {
            unsigned k = (order + i) % 3;
            if (k == 0) {
                OK(fiber_scheduler_discipline_create(&test, &test_id, A, this, 3, cbs), "discipline_create");
                OK(fiber_scheduler_discipline_add(s, test), "discipline_add");
            } else if (k == 1 && (feat & F_MSG)) OK(message_discipline_get_or_create(&msg, A, s), "message_discipline");
            else if (k == 2 && (feat & F_COND)) OK(condition_discipline_get_or_create(&cond, A, s), "condition_discipline");
        }
        max_fibers = 3 + (int)R(9);
    }
    void make_idle() {
        idle = new_fiber(stack_size());
        if (c.rng.chance(1, 3)) { F(idle).pad = 1; int i = idle; idle = -1; add(i); idle = i; }
        OK(disciplined_fiber_scheduler_set_idle_fiber(s, F(idle).f), "set_idle");
        log("idle fiber %d added %d", idle, F(idle).pad);
    }
    void main_loop() {
        while (steps > 0) step();
        SEM(cur == 0, "harness", "main expected");
    }
    void finish() {
        log("release");
        bool bad = false;
        for (auto& b : boxes) for (auto& x : b.second.q) { if (x.payload) want[x.payload] = 1; bad |= fails(x); }
        size_t kept = 0;
        for (auto& x : fb) if (x->removed && !x->released) ++kept;
        status st = resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s));
        if (bad) { SEM(st != STATUS_SUCCESS, "bad_release_hidden", "releasing the scheduler succeeded although a payload's release failed"); count("bad_releases"); }
        else SEM(st == STATUS_SUCCESS, "scheduler_release", "releasing the scheduler returned 0x%x", st);
        SEM(mapped_count() == kept, "stacks_unmapped", "%zu stacks are mapped after releasing the scheduler; %zu fibers had been removed from it", mapped_count(), kept);
        for (auto& x : fb) if (x->removed && !x->released) release_fiber(x->id);
        check_payloads("after releasing the scheduler");
        for (auto& x : inflight) {
            /* received by a fiber that never ran again: still the program's message */
            held.push_back(x.second);
        }
        for (auto& x : held) drop_msg(x);
        check_payloads("at the end");
        A.expect_empty("after releasing everything");
        SEM(mapped_count() == 0, "stacks_unmapped", "%zu stacks are still mapped", mapped_count());
    }
};

extern "C" [[gnu::used]] status fiber_body(void* p) {
    Fb& x = *(Fb*)p;
    World& w = *x.w;
    ++x.entries;
    count("fibers_started");
    SEM(x.entries == 1, "entered_twice", "fiber %d's entry point was called %d times", x.id, x.entries);
    SEM(x.entry_sp % 16 == 8, "stack_alignment", "fiber %d was entered with the stack pointer at %llx", x.id, (unsigned long long)x.entry_sp);
    uintptr_t base; size_t len;
    SEM(mapping_of((void*)x.entry_sp, &base, &len), "own_stack", "fiber %d does not run on a stack of its own", x.id);
    SEM(len >= x.stack, "stack_size", "fiber %d's stack has %zu bytes instead of the %zu requested", x.id, len, x.stack);
    SEM(base + len - x.entry_sp <= ENTRY_SLACK + 4096, "stack_top", "fiber %d starts %zu bytes below the top of its stack", x.id, (size_t)(base + len - x.entry_sp));
    for (auto& o : w.fb)
        if (o->id != x.id && o->entries && !o->released)
            SEM(o->entry_sp < base || o->entry_sp >= base + len, "shared_stack", "fibers %d and %d share a stack", x.id, o->id);
#ifndef MON_VG
    SEM(((x.entry_mxcsr ^ x.make_mxcsr) & 0xFFC0) == 0, "entry_mxcsr", "fiber %d started with MXCSR %x; it was created under %x", x.id, x.entry_mxcsr, x.make_mxcsr);
    SEM(x.entry_cw == x.make_cw, "entry_x87", "fiber %d started with x87 control word %x; it was created under %x", x.id, x.entry_cw, x.make_cw);
    SEM(((get_mxcsr() ^ x.entry_mxcsr) & 0xFFC0) == 0, "entry_mxcsr", "MXCSR");
    set_mxcsr(0x1F80); set_cw(0x37F);
#endif
    x.st = RUNNING;
    w.arrived(x.id);
    SEM(x.disc == D_INT && (x.ev == EV_ADD || x.ev == EV_IDLE), "harness", "entry event");
    if (x.id == w.idle || x.pad) w.idle_loop();
    else while (w.step()) {}
    w.stopping(x);
    return x.ret;
}

static void program(Ctx& c, int feat, int steps, int idle_of_10) {
    probe_switches = probe_resumes = 0;
    {
        World w(c, feat, steps);
        w.setup();
        if ((int)c.rng(10) < idle_of_10) w.make_idle();
        for (int i = (int)c.rng(7); i > 0 && (int)w.fb.size() < w.max_fibers; --i) { int n = w.new_fiber(w.stack_size()); w.add(n); }
        w.main_loop();
        w.finish();
        count("switches_probed", probe_resumes);
        count("programs");
        maxof("fibers", w.fb.size());
        if (w.resumed >= 8 && w.fb.size() >= 3) nontrivial(w.h);
    }
}
SCENARIO("C27 C01 C32 C35", order, 6) { program(c, F_ADD | F_WAKE | (c.rng.chance(1, 2) ? F_ODD : 0), 20 + (int)c.rng(150), 5); }
SCENARIO("C26 C01 C35", registers, 6) { program(c, F_ADD | F_WAKE | F_DEEP | (c.rng.chance(1, 3) ? F_MSG | F_COND | F_INTR : 0), 20 + (int)c.rng(120), 3); }
SCENARIO("C28 C01 C32 C35", management, 6) { program(c, F_ADD | F_WAKE | F_MGMT, 20 + (int)c.rng(150), 3); }
SCENARIO("C30 C01 C32 C35", messages, 6) { program(c, F_ADD | F_MSG | F_WAKE | (c.rng.chance(1, 3) ? F_INTR : 0), 30 + (int)c.rng(200), 2); }
SCENARIO("C31 C01 C32 C35", conditions, 6) { program(c, F_ADD | F_COND | F_WAKE | (c.rng.chance(1, 3) ? F_INTR : 0), 30 + (int)c.rng(200), 2); }
SCENARIO("C26 C27 C28 C30 C31 C01 C32 C35", mixed, 3) { program(c, F_ADD | F_WAKE | F_MGMT | F_MSG | F_COND | F_DEEP | (c.rng.chance(1, 3) ? F_INTR : 0), 40 + (int)c.rng(250), 2); }

SCENARIO("C02 C01 C35", fiber_program_oom, 3) { program(c, F_ADD | F_WAKE | F_MGMT | F_MSG | F_COND | F_OOM, 40 + (int)c.rng(120), 2); }
SCENARIO("C03 C01 C35", message_bad_release, 3) { program(c, F_ADD | F_MSG | F_BADREL, 40 + (int)c.rng(120), 2); }

/* ------------------------------------------------------- requests and replies, with the main fiber among the clients
   A server answers each request to its return address; clients take turns at waiting for replies on a mailbox and for
   permits on a conditional. The main fiber is a client like the others, so it is suspended and resumed by all of them. */
struct Rpc {
    Alloc A; Sched* s = nullptr; Disc *md = nullptr, *cd = nullptr; ResPool P; Mbox srv = 0; RCPR_SYM(conditional) permit = 0;
    size_t permits = 0, served = 0, sleeping = 0, notified = 0; std::vector<std::deque<uint64_t>> due;
    struct Client { Rpc* w; int id; size_t n; Mbox box; Rng r; size_t done; bool over, asleep; };
    std::vector<std::unique_ptr<Client>> cl;
};
static void rpc_client(Rpc::Client& k) {
    Rpc& w = *k.w;
    OK(mailbox_create(&k.box, w.md), "mailbox_create");
    for (size_t i = 0; i < k.n; ++i) {
        if (k.r.chance(1, 3)) {         /* wait for a permit that the server gives out */
            size_t awake = 0, out = 0; for (auto& o : w.cl) awake += !o->over && !o->asleep; for (auto& d : w.due) out += d.size();
            if (w.permits == 0 && (awake > 1 || out > 0)) { size_t had = w.notified; ++w.sleeping; k.asleep = true; OK(conditional_wait(w.permit, w.cd), "conditional_wait"); --w.sleeping; k.asleep = false; SEM(w.notified > had, "woken_early", "client %d woke though nothing was notified", k.id); count("permits_waited"); }
            else if (w.permits > 0) --w.permits;
        }
        size_t burst = k.r.range(1, 4);
        for (size_t j = 0; j < burst; ++j) {
            Res* q = w.P.make(); q->key = ((uint64_t)k.id << 32) | (k.done * 8 + j); Message* m;
            OK(message_create(&m, w.A, k.box, q->h()), "message_create"); w.due[(size_t)k.id].push_back(q->key); OK(message_send(w.srv, m, w.md), "message_send");
        }
        for (size_t j = 0; j < burst; ++j) {
            Message* m = nullptr; OK(message_receive(k.box, &m, w.md), "message_receive");
            SEM(message_return_address(m) == w.srv, "reply_from", "a reply came with another return address");
            bool own = k.r.chance(1, 2); Res* q = (Res*)message_payload(m, own); auto& d = w.due[(size_t)k.id];
            SEM(q && !d.empty() && q->key == d.front(), "reply_order", "client %d received reply %llx, %llx is due", k.id, q ? (unsigned long long)q->key : 0, d.empty() ? 0 : (unsigned long long)d.front());
            d.pop_front(); OK(resource_release(message_resource_handle(m)), "message_release"); SEM(q->released == (own ? 0u : 1u), "payload_release_count", "a payload was released %u times with its message", q->released);
            if (own) OK(resource_release(q->h()), "payload_release");
            count("replies");
        }
        k.done += 1;
    }
    if (k.r.chance(1, 2)) OK(mailbox_close(k.box, w.md), "mailbox_close");
    k.over = true;
    ++w.notified; OK(conditional_notify_all(w.permit, w.cd), "notify_all");
}
static status rpc_entry(void* p) { rpc_client(*(Rpc::Client*)p); return STATUS_SUCCESS; }
static status rpc_server(void* p) {
    Rpc& w = *(Rpc*)p;
    for (;;) {
        Message* m = nullptr; OK(message_receive(w.srv, &m, w.md), "server_receive");
        Mbox to = message_return_address(m); Res* q = (Res*)message_payload(m, true); OK(resource_release(message_resource_handle(m)), "message_release");
        if (q->key == ~0ull) { OK(resource_release(q->h()), "release"); return 0x51; }
        Message* back; OK(message_create(&back, w.A, w.srv, q->h()), "message_create"); ++w.served; OK(message_send(to, back, w.md), "server_send");
        if (w.sleeping > 0) { ++w.notified; OK(conditional_notify_one(w.permit, w.cd), "notify"); } else if (w.permits < 2) ++w.permits;
    }
}
SCENARIO("C30 C31 C27 C01 C32 C35", requests, 2) {
    Rng& R = c.rng; size_t clients = R.range(1, 6);
    { Rpc w; OK(fiber_scheduler_create_with_disciplines(&w.s, w.A), "scheduler");
    OK(message_discipline_get_or_create(&w.md, w.A, w.s), "messages"); OK(condition_discipline_get_or_create(&w.cd, w.A, w.s), "conditions");
    OK(mailbox_create(&w.srv, w.md), "mailbox_create"); OK(conditional_create(&w.permit, w.cd), "conditional_create"); w.due.resize(clients);
    for (size_t i = 0; i < clients; ++i) { w.cl.push_back(std::make_unique<Rpc::Client>(Rpc::Client{&w, (int)i, R.range(1, 8), 0, Rng(R.next()), 0, false, false})); }
    std::vector<Fiber*> f; Fiber* sf; OK(fiber_create(&sf, w.A, w.s, 65536, &w, &rpc_server), "fiber_create"); f.push_back(sf);
    bool first = R.chance(1, 2); if (first) OK(fiber_scheduler_add(w.s, sf), "add");
    for (size_t i = 1; i < clients; ++i) { Fiber* x; OK(fiber_create(&x, w.A, w.s, 65536, w.cl[i].get(), &rpc_entry), "fiber_create"); f.push_back(x); OK(fiber_scheduler_add(w.s, x), "add"); }
    if (!first) OK(fiber_scheduler_add(w.s, sf), "add");
    w.cl[0]->r = Rng(R.next()); rpc_client(*w.cl[0]);
    /* whoever still waits for a permit is let go, until every client is done */
    for (size_t g = 0;; ++g) { bool all = true; for (auto& k : w.cl) all &= k->over; if (all) break; SEM(g < 4000, "client_stuck", "a client never ends"); ++w.notified; OK(conditional_notify_all(w.permit, w.cd), "notify_all"); }
    Res* q = w.P.make(); q->key = ~0ull; Message* m; OK(message_create(&m, w.A, 0, q->h()), "message_create"); OK(message_send(w.srv, m, w.md), "message_send");
    for (size_t g = 0; RCPR_SYM(fiber_state_get)(sf) != FIBER_STATE_STOPPED; ++g) { SEM(g < 100, "server_stuck", "the server never gets its last message"); OK(conditional_notify_one(w.permit, w.cd), "notify"); }
    for (auto& d : w.due) SEM(d.empty(), "reply_lost", "%zu replies never came", d.size());
    log("%zu clients, %zu served", clients, w.served); maxof("served", w.served);
    OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(w.s)), "scheduler_release");
    for (auto* r : w.P.all) SEM(r->released == 1, "payload_release_count", "a payload was released %u times", r->released);
    w.A.expect_empty("requests"); }
    SEM(mapped_count() == 0, "mapped", "stacks are still mapped");
    nontrivial(mix(log_hash(), R.s));
}

/* ------------------------------------------------------- disciplines */
struct DWorld;
struct DM {
    DWorld* w; Uuid id; size_t n; Disc* d; void* ctx; int tag; unsigned released = 0; bool added = false;
    RCPR_SYM(resource) orig;
};
struct DCall { int index; void* ctx; Fiber* f; void* param; };
static DWorld* g_dw;
struct DWorld {
    Ctx& c;
    Alloc A;
    Sched *s = nullptr, *other = nullptr;
    std::vector<std::unique_ptr<DM>> d;
    std::vector<DCall> calls;
    std::vector<Fiber*> fibers;
    status cb_ret = STATUS_SUCCESS;
    Uuid* cb_id = nullptr;
    int left;
    uint64_t h = 0;
    unsigned requests = 0;
    explicit DWorld(Ctx& cc) : c(cc) {}
};
template <int N> static status d_cb(void* ctx, Fiber* f, int, void* param) {
    DWorld& w = *g_dw;
    w.calls.push_back({N, ctx, f, param});
    if (w.calls.size() > 1) fail("sem", "callback_count", "one request invoked more than one callback");
    if (w.cb_ret != STATUS_SUCCESS) return w.cb_ret;
    return disciplined_fiber_scheduler_set_next_fiber_to_run(w.s, f, w.cb_id, N, param);
}
#define C4(n) &d_cb<n>, &d_cb<n + 1>, &d_cb<n + 2>, &d_cb<n + 3>
static RCPR_SYM(fiber_scheduler_discipline_callback_fn) d_cbs[24] = {C4(0), C4(4), C4(8), C4(12), C4(16), C4(20)};
static std::map<Resource*, DM*> g_disc;
static status disc_released(Resource* r) {
    auto i = g_disc.find(r);
    if (i == g_disc.end()) fail("mem", "foreign_resource", "a discipline was released that is not registered");
    DM* m = i->second;
    SEM(++m->released == 1, "discipline_release_count", "a discipline was released %u times", m->released);
    *r = m->orig;
    return resource_release(r);
}
RCPR_VTABLE RCPR_SYM(resource_vtable) disc_vtable = {&disc_released};

static DM* make_disc(DWorld& w, const Uuid* dup) {
    Ctx& c = w.c;
    auto m = std::make_unique<DM>();
    m->w = &w;
    m->tag = (int)w.d.size();
    if (dup) m->id = *dup;
    else do {
        if (!w.d.empty() && c.rng.chance(2, 3)) {        /* close to another identifier */
            m->id = w.d[c.rng(w.d.size())]->id;
            m->id.data[c.rng(16)] ^= (uint8_t)(1u << c.rng(8));
        } else for (auto& b : m->id.data) b = c.rng.chance(1, 3) ? 0 : (uint8_t)c.rng.next();
        bool used = false;
        for (auto& o : w.d) used |= !memcmp(&o->id, &m->id, 16);
        if (!used) break;
    } while (true);
    m->n = c.rng.chance(1, 10) ? 24 : 1 + c.rng(6);
    m->ctx = c.rng.chance(1, 10) ? nullptr : (void*)m.get();
    unsigned first = (unsigned)c.rng(24 - m->n + 1);
    first = 0;
    Uuid id = m->id;
    std::vector<RCPR_SYM(fiber_scheduler_discipline_callback_fn)> v(d_cbs + first, d_cbs + first + m->n);
    OK(fiber_scheduler_discipline_create(&m->d, &id, w.A, m->ctx, m->n, v.data()), "discipline_create");
    memset(&id, 0xEE, sizeof(id));                       /* the caller's copies may go */
    for (auto& f : v) f = nullptr;
    SEM(RCPR_SYM(fiber_scheduler_discipline_context_get)(m->d) == m->ctx, "discipline_context", "a discipline has another context than it was created with");
    DM* r = m.get();
    w.d.push_back(std::move(m));
    log("discipline %d with %zu callbacks", r->tag, r->n);
    return r;
}
static void drop_disc(DM* m) {
    OK(resource_release(RCPR_SYM(fiber_scheduler_discipline_resource_handle)(m->d)), "discipline_release");
    m->d = nullptr;
}
static void add_disc(DWorld& w) {
    Ctx& c = w.c;
    if (!w.d.empty() && c.rng.chance(1, 6)) {
        DM* o = w.d[c.rng(w.d.size())].get();
        if (o->added) {
            DM* m = make_disc(w, &o->id);
            SEM(fiber_scheduler_discipline_add(w.s, m->d) == ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID, "duplicate_id",
                "a second discipline with the same identifier was not refused as such");
            drop_disc(m);
            w.d.pop_back();
            SEM(fiber_scheduler_discipline_add(c.rng.chance(1, 2) ? w.s : w.other, o->d) == ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED, "already_owned",
                "a discipline that a scheduler owns was not refused as such");
            count("adds_refused");
        }
        return;
    }
    if (w.d.size() > 14) return;
    DM* m = make_disc(w, nullptr);
    if (c.rng.chance(1, 4)) {
        uint64_t k = 1 + c.rng(4);
        w.A.arm(k);
        status st = fiber_scheduler_discipline_add(w.s, m->d);
        w.A.disarm();
        if (!w.A.injected) OK(st, "discipline_add");
        else {
            SEM(st != STATUS_SUCCESS, "discipline_add_oom", "adding a discipline succeeded although an allocation failed");
            Disc* x = nullptr;
            SEM(fiber_scheduler_discipline_find(&x, w.s, &m->id) != STATUS_SUCCESS, "discipline_add_oom", "a discipline that could not be added is found");
            OK(fiber_scheduler_discipline_add(w.s, m->d), "discipline_add_retry");
            count("add_oom");
        }
    } else OK(fiber_scheduler_discipline_add(w.s, m->d), "discipline_add");
    m->added = true;
    Sched* back = nullptr;
    OK(fiber_discipline_scheduler_get(&back, m->d), "scheduler_get");
    SEM(back == w.s, "discipline_scheduler", "an added discipline does not name its scheduler");
    Resource* r = RCPR_SYM(fiber_scheduler_discipline_resource_handle)(m->d);
    m->orig = *r;
    g_disc[r] = m;
    RCPR_SYM(resource_init)(r, &disc_vtable);
    count("disciplines");
}
static void find_discs(DWorld& w) {
    Ctx& c = w.c;
    for (auto& m : w.d) {
        Disc* x = nullptr;
        Uuid id = m->id;
        OK(fiber_scheduler_discipline_find(&x, w.s, &id), "find");
        SEM(x == m->d, "find_other", "the identifier of discipline %d finds another one", m->tag);
        SEM(RCPR_SYM(fiber_scheduler_discipline_context_get)(x) == m->ctx, "discipline_context", "the context of discipline %d changed", m->tag);
    }
    for (int i = 0; i < 4; ++i) {
        Uuid id;
        if (!w.d.empty() && c.rng.chance(3, 4)) { id = w.d[c.rng(w.d.size())]->id; id.data[c.rng(16)] ^= (uint8_t)(1u << c.rng(8)); }
        else for (auto& b : id.data) b = (uint8_t)c.rng.next();
        bool used = false;
        for (auto& o : w.d) used |= !memcmp(&o->id, &id, 16);
        if (used) continue;
        Disc* x = nullptr;
        SEM(fiber_scheduler_discipline_find(&x, w.s, &id) == ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND, "find_unknown", "an unknown identifier finds a discipline");
    }
    count("finds", w.d.size());
}
static void request(DWorld& w, int me) {
    Ctx& c = w.c;
    if (w.d.empty()) return;
    DM* m = w.d[c.rng(w.d.size())].get();
    int i = c.rng.chance(1, 8) ? (int)m->n + (int)c.rng(3) : (int)c.rng(m->n);
    if (c.rng.chance(1, 30)) i = c.rng.chance(1, 2) ? -1 : 0x10000;
    bool valid = i >= 0 && (size_t)i < m->n;
    status want = c.rng.chance(1, 8) ? (status)(0x6000 + c.rng(99)) : STATUS_SUCCESS;
    w.calls.clear();
    w.cb_ret = want;
    w.cb_id = &m->id;
    void* param = (void*)(uintptr_t)c.rng.next();
    const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
    log("fiber %d requests %d of discipline %d", me, i, m->tag);
    status st = fiber_discipline_yield(m->d, i, param, &id, &ev, &p);
    ++w.requests;
    w.h = mix(w.h, m->tag * 100 + i);
    if (!valid) {
        SEM(st == ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT, "index_range", "request %d of a discipline with %zu callbacks returned 0x%x", i, m->n, st);
        SEM(w.calls.empty(), "index_range", "request %d of a discipline with %zu callbacks invoked one", i, m->n);
        count("bad_requests");
        return;
    }
    SEM(w.calls.size() == 1, "callback_count", "a request invoked %zu callbacks", w.calls.size());
    DCall& k = w.calls[0];
    SEM(k.index == i, "callback_index", "request %d invoked callback %d", i, k.index);
    SEM(k.ctx == m->ctx, "callback_context", "request %d of discipline %d was given another context", i, m->tag);
    SEM(k.f == w.fibers[me], "callback_fiber", "the callback was told another fiber made the request");
    SEM(k.param == param, "callback_param", "the callback was given another parameter");
    if (want != STATUS_SUCCESS) { SEM(st == want, "callback_error", "the callback's status 0x%x came back as 0x%x", want, st); return; }
    SEM(st == STATUS_SUCCESS && id && !memcmp(id, &m->id, 16) && ev == i && p == param, "resume", "the requester was resumed with another event");
    count("requests");
}
struct DFib { DWorld* w; int me; };
static status d_body(void* p) {
    DFib* f = (DFib*)p;
    while (f->w->left > 0) {
        for (int n = (int)f->w->c.rng(4); n > 0; --n) { --f->w->left; request(*f->w, f->me); }
        --f->w->left;
        OK(fiber_scheduler_run(f->w->s), "run");
    }
    return STATUS_SUCCESS;
}
SCENARIO("C29 C01 C32 C35", disciplines, 6) {
    DWorld w(c);
    g_dw = &w;
    g_disc.clear();
    {
        DFib fb[4];
        OK(fiber_scheduler_create_with_disciplines(&w.s, w.A), "scheduler_create");
        OK(fiber_scheduler_create_with_disciplines(&w.other, w.A), "scheduler_create");
        Fiber* f = nullptr;
        OK(disciplined_fiber_scheduler_main_fiber_get(&f, w.s), "main_get");
        w.fibers.push_back(f);
        Disc *msg = nullptr, *cond = nullptr, *x = nullptr;
        w.left = 20 + (int)c.rng(80);
        while (w.left > 0) {
            --w.left;
            switch (c.rng(8)) {
                case 0: case 1: add_disc(w); break;
                case 2: find_discs(w); break;
                case 3:
                    if (w.fibers.size() < 4) {
                        int n = (int)w.fibers.size();
                        fb[n] = {&w, n};
                        OK(fiber_create(&f, w.A, w.s, STACK_MIN, &fb[n], &d_body), "fiber_create");
                        w.fibers.push_back(f);
                        OK(fiber_scheduler_add(w.s, f), "add");
                    }
                    break;
                case 4: OK(fiber_scheduler_run(w.s), "run"); break;
                case 5:
                    if (c.rng.chance(1, 2)) {
                        OK(message_discipline_get_or_create(&x, w.A, w.s), "message_discipline");
                        SEM(!msg || x == msg, "get_or_create", "the message discipline was created twice");
                        msg = x;
                    } else {
                        OK(condition_discipline_get_or_create(&x, w.A, w.s), "condition_discipline");
                        SEM(!cond || x == cond, "get_or_create", "the condition discipline was created twice");
                        cond = x;
                    }
                    break;
                default: request(w, 0);
            }
            if (msg && c.rng.chance(1, 8)) {
                RCPR_SYM(mailbox_address) a, b;
                w.calls.clear();
                OK(mailbox_create(&a, msg), "mailbox_create");
                OK(mailbox_create(&b, msg), "mailbox_create");
                SEM(a != b, "mailbox_address", "two mailboxes share an address");
                OK(mailbox_close(a, msg), "mailbox_close");
                SEM(w.calls.empty(), "callback_foreign", "a mailbox request invoked another discipline's callback");
            }
            if (cond && c.rng.chance(1, 8)) {
                RCPR_SYM(conditional) a;
                OK(conditional_create(&a, cond), "conditional_create");
                OK(conditional_notify_all(a, cond), "notify");
                SEM(conditional_close(a + 1000, cond) != STATUS_SUCCESS, "cclose_missing", "closing a conditional that does not exist succeeded");
            }
        }
        find_discs(w);
        OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(w.s)), "scheduler_release");
        for (auto& m : w.d) SEM(m->released == 1, "discipline_release_count", "discipline %d was released %u times with its scheduler", m->tag, m->released);
        OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(w.other)), "scheduler_release");
        w.A.expect_empty("after releasing the schedulers");
        SEM(mapped_count() == 0, "stacks_unmapped", "stacks are still mapped");
        if (w.d.size() >= 2 && w.requests >= 4) nontrivial(w.h);
    }
    /* a scheduler without disciplines refuses them */
}

/* ------------------------------------------------------- plain schedulers */
struct PWorld;
struct PFib { PWorld* w; int id; Fiber* f; int st; status ret; bool queued; };
struct PWorld {
    Ctx& c;
    Alloc A;
    Sched* s = nullptr;
    std::vector<std::unique_ptr<PFib>> fb;
    std::vector<int> runnable;
    int cur = 0, next = 0, want_event = -1, left;
    void* want_param = nullptr;
    bool any_param = false, releasing = false, deny = false;
    unsigned calls = 0;
    Uuid id;
    int ev = 0; void* param = nullptr;
    uint64_t h = 0;
    explicit PWorld(Ctx& cc) : c(cc) {}
};
static status p_sched(void* ctx, Fiber* y, int event, void* param, Fiber** rf, const Uuid** rid, int* rev, void** rp) {
    PWorld& w = *(PWorld*)ctx;
    ++w.calls;
    *rid = &w.id; *rp = nullptr;
    if (event == FIBER_SCHEDULER_YIELD_EVENT_MAIN) {
        auto x = std::make_unique<PFib>();
        x->w = &w; x->id = 0; x->f = y; x->st = RUNNING;
        w.fb.push_back(std::move(x));
        *rf = y; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN;
        return STATUS_SUCCESS;
    }
    if (event == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE) {
        SEM(w.releasing && y == w.fb[0]->f, "release_event", "a resource release event for another fiber than main, or at another time");
        *rf = y; *rev = FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
        return STATUS_SUCCESS;
    }
    PFib& me = *w.fb[w.cur];
    SEM(y == me.f, "yield_fiber", "the scheduler callback was told another fiber yields than the running one (%d)", w.cur);
    SEM(event == w.want_event, "yield_event", "the scheduler callback received event %d instead of %d", event, w.want_event);
    if (event == FIBER_SCHEDULER_YIELD_EVENT_STOP) {
        SEM(param && *(status*)param == me.ret, "stop_status", "the stop event of fiber %d does not carry its return status", w.cur);
        SEM(RCPR_SYM(fiber_state_get)(me.f) == FIBER_STATE_STOPPED, "stop_state", "fiber %d returned and is not in the stopped state", w.cur);
        me.st = STOPPED;
    } else SEM(param == w.want_param, "yield_param", "the scheduler callback received another parameter");
    if (w.deny) return (status)0x4321;
    if (event == FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER) {
        for (auto& x : w.fb) if (x->f == (Fiber*)param) x->queued = true;
    }
    std::vector<int> cand;
    for (auto& x : w.fb) if (x->queued && x->st != STOPPED) cand.push_back(x->id);
    w.next = cand[w.c.rng(cand.size())];
    w.ev = (int)w.c.rng(1 << 30) - (1 << 29);
    w.param = (void*)(uintptr_t)w.c.rng.next();
    for (auto& b : w.id.data) b = (uint8_t)w.c.rng.next();
    *rf = w.fb[w.next]->f; *rev = w.ev; *rp = w.param;
    w.h = mix(w.h, w.next);
    return STATUS_SUCCESS;
}
static void p_arrive(PWorld& w, int me) {
    SEM(w.next == me, "wrong_fiber", "fiber %d was resumed; the scheduler chose %d", me, w.next);
    w.cur = me;
    count("resumptions");
}
static bool p_step(PWorld& w, int me);
static status p_body(void* p) {
    PFib* f = (PFib*)p;
    PWorld& w = *f->w;
    SEM(f->st == CREATED, "entered_twice", "fiber %d was started twice", f->id);
    SEM(RCPR_SYM(fiber_state_get)(f->f) == FIBER_STATE_RUNNING, "run_state", "a running fiber is not in the running state");
    f->st = RUNNING;
    p_arrive(w, f->id);
    while (p_step(w, f->id)) {}
    f->ret = (status)w.c.rng.next();
    w.want_event = FIBER_SCHEDULER_YIELD_EVENT_STOP;
    return f->ret;
}
static bool p_step(PWorld& w, int me) {
    Ctx& c = w.c;
    --w.left;
    if (w.left < -3000) inconclusive("the program did not end");
    unsigned k = (unsigned)c.rng(10);
    if (k == 0 && me != 0) return false;
    if (k < 3 && w.fb.size() < 8 && w.left > 0) {
        auto x = std::make_unique<PFib>();
        x->w = &w; x->id = (int)w.fb.size(); x->st = CREATED; x->queued = false;
        OK(fiber_create(&x->f, w.A, w.s, STACK_MIN + c.rng(9000), x.get(), &p_body), "fiber_create");
        Fiber* f = x->f;
        w.fb.push_back(std::move(x));
        w.want_event = FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER;
        w.want_param = f;
        if (c.rng.chance(1, 6)) {
            w.deny = true;
            status st = fiber_scheduler_add(w.s, f);
            w.deny = false;
            SEM(st == 0x4321 && w.cur == me, "add_error", "a refused add returned 0x%x", st);
            w.want_event = FIBER_SCHEDULER_YIELD_EVENT_ADD_FIBER;
        }
        OK(fiber_scheduler_add(w.s, f), "add");
        p_arrive(w, me);
        return true;
    }
    const Uuid* id = nullptr; int ev = -1; void* p = nullptr;
    static const int evs[] = {0, 7, 0x1000, 0x12345, -5, 0x7fffffff};
    bool run = c.rng.chance(1, 4);
    w.want_event = run ? FIBER_SCHEDULER_YIELD_EVENT_RUN : evs[c.rng(6)];
    w.want_param = run ? nullptr : (void*)(uintptr_t)c.rng.next();
    w.deny = c.rng.chance(1, 8);
    unsigned calls = w.calls;
    status st = run ? fiber_scheduler_run(w.s) : fiber_scheduler_yield(w.s, w.want_event, w.want_param, &id, &ev, &p);
    if (w.deny) {
        w.deny = false;
        SEM(st == 0x4321 && w.cur == me, "yield_error", "the scheduler's error came back as 0x%x", st);
        SEM(w.calls == calls + 1, "callback_count", "one yield called the scheduler %u times", w.calls - calls);
        return true;
    }
    p_arrive(w, me);
    SEM(st == STATUS_SUCCESS, "yield", "fiber_scheduler_yield returned 0x%x", st);
    if (!run) SEM(id == &w.id && ev == w.ev && p == w.param, "resume_values", "fiber %d was resumed with event %d and parameter %p instead of %d and %p", me, ev, p, w.ev, w.param);
    return true;
}
SCENARIO("C26 C27 C01 C32 C35", plain_scheduler, 3) {
    PWorld w(c);
    w.left = 20 + (int)c.rng(80);
    OK(fiber_scheduler_create(&w.s, w.A, &w, &p_sched), "scheduler_create");
    SEM(w.fb.size() == 1, "main_event", "creating a scheduler did not announce the main fiber");
    w.fb[0]->queued = true;
    {
        Disc* d = nullptr;
        RCPR_SYM(fiber_scheduler_discipline_callback_fn) cbs[] = {&d_cb<0>};
        OK(fiber_scheduler_discipline_create(&d, &w.id, w.A, nullptr, 1, cbs), "discipline_create");
        SEM(fiber_scheduler_discipline_add(w.s, d) == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "not_disciplined", "a plain scheduler did not refuse a discipline");
        OK(resource_release(RCPR_SYM(fiber_scheduler_discipline_resource_handle)(d)), "discipline_release");
        SEM(fiber_scheduler_discipline_find(&d, w.s, &w.id) == ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED, "not_disciplined", "a plain scheduler did not refuse a search");
    }
    while (w.left > 0) p_step(w, 0);
    for (size_t i = 1; i < w.fb.size(); ++i) OK(resource_release(RCPR_SYM(fiber_resource_handle)(w.fb[i]->f)), "fiber_release");
    w.releasing = true;
    OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(w.s)), "scheduler_release");
    w.A.expect_empty("after releasing the scheduler");
    SEM(mapped_count() == 0, "stacks_unmapped", "stacks are still mapped");
    if (w.fb.size() >= 3) nontrivial(w.h);
}

struct BadCb { int mode; Fiber* main = nullptr; unsigned mains = 0, releases = 0; status rel = STATUS_SUCCESS; Fiber* other = nullptr; Uuid id = {}; };
static status bad_cb(void* x, Fiber* y, int ev, void*, Fiber** rf, const Uuid** rid, int* rev, void** rp) {
    BadCb* b = (BadCb*)x; *rid = &b->id; *rp = nullptr; *rev = 0; *rf = nullptr;
    if (ev == FIBER_SCHEDULER_YIELD_EVENT_MAIN) {
        ++b->mains; b->main = y; *rf = y; *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN;
        if (b->mode == 1) return 0x4321;
        if (b->mode == 2) *rf = nullptr;
        if (b->mode == 3) *rf = b->other;
        if (b->mode == 4) *rev = FIBER_SCHEDULER_RESUME_EVENT_MAIN + 1 + (int)(b->releases);
        if (b->mode == 5) *rev = -1;
        return STATUS_SUCCESS;
    }
    SEM(ev == FIBER_SCHEDULER_YIELD_EVENT_RESOURCE_RELEASE && y == b->main, "bad_event", "the scheduler's callback got event %d", ev);
    ++b->releases;
    return b->rel;
}
SCENARIO("C27 C03 C01 C35", refused_main, 1) {
    Ctx& C = c; Alloc A; BadCb b; b.mode = (int)C.rng(6); b.rel = C.rng.chance(1, 3) ? 0x5678 : STATUS_SUCCESS; log("mode %d rel %d", b.mode, (int)b.rel);
    Sched *s = (Sched*)&A, *s2 = nullptr; BadCb ok; ok.mode = 0;
    if (b.mode == 3) { OK(fiber_scheduler_create(&s2, A, &ok, &bad_cb), "create"); b.other = ok.main; }
    status rc = fiber_scheduler_create(&s, A, &b, &bad_cb);
    SEM(b.mains == 1, "main_event", "creating a scheduler announced the main fiber %u times", b.mains);
    if (b.mode == 0) {
        SEM(rc == STATUS_SUCCESS && s && b.releases == 0, "create", "creating a scheduler failed 0x%x", rc);
        rc = resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s));
        SEM(rc == b.rel, "release_status", "releasing a scheduler whose callback returned 0x%x gave 0x%x", b.rel, rc);
    } else {
        SEM(rc != STATUS_SUCCESS, "refused_main", "creating a scheduler succeeded although its callback did not resume the main fiber (mode %d)", b.mode);
        SEM(s == nullptr, "refused_main_out", "a failed creation left the scheduler pointer set");
        if (b.mode == 1 && b.rel == STATUS_SUCCESS) SEM(rc == 0x4321, "refused_main_status", "the callback's error came back as 0x%x", rc);
    }
    SEM(b.releases == 1, "release_event", "the callback was told of the release %u times", b.releases);
    if (s2) OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s2)), "release");
    A.expect_empty("refused_main"); SEM(mapped_count() == 0, "stacks_unmapped", "stacks are still mapped");
    nontrivial(mix(log_hash(), 1));
}

/* ------------------------------------------------------- constructors without memory */
static status nop_body(void*) { return STATUS_SUCCESS; }
template <class Mk> static void sweep(Alloc& A, const char* what, bool maps, Mk mk) {
    for (uint64_t k = 1;; ++k) {
        if (k > 60) fail("sem", what, "still failing after 60 allocations");
        size_t live = A.live.size(), m = mapped_count();
        A.arm(k);
        status st = mk();
        A.disarm();
        if (!A.injected) { SEM(st == STATUS_SUCCESS, what, "%s returned 0x%x with memory available", what, st); break; }
        SEM(st != STATUS_SUCCESS, what, "%s succeeded although allocation %llu failed", what, (unsigned long long)k);
        SEM(A.live.size() == live, what, "%s kept %zd blocks after failing at allocation %llu", what, (ssize_t)(A.live.size() - live), (unsigned long long)k);
        SEM(mapped_count() == m, what, "%s kept a mapping after failing at allocation %llu", what, (unsigned long long)k);
        count("oom_observed");
    }
    (void)maps;
}
SCENARIO("C02 C01 C35", fiber_constructors_oom, 1) {
    Alloc A;
    Sched* s = nullptr;
    sweep(A, "scheduler_create_oom", false, [&] {
        s = (Sched*)&A;
        status st = fiber_scheduler_create_with_disciplines(&s, A);
        if (st != STATUS_SUCCESS) SEM(s == nullptr, "scheduler_out", "a failed scheduler creation left its output pointer set");
        return st;
    });
    Fiber* f = nullptr;
    auto mkf = [&] {
        f = (Fiber*)&A;
        status st = fiber_create(&f, A, s, STACK_MIN + c.rng(5000), nullptr, &nop_body);
        if (st != STATUS_SUCCESS) SEM(f == nullptr, "fiber_out", "a failed fiber creation left its output pointer set");
        return st;
    };
    size_t live = A.live.size();
    mmap_fail_at = mmap_calls + 1;
    status st = mkf();
    mmap_fail_at = 0;
    SEM(st != STATUS_SUCCESS && f == nullptr && A.live.size() == live, "fiber_create_mmap", "fiber creation without address space: 0x%x, %zd blocks kept", st, (ssize_t)(A.live.size() - live));
    sweep(A, "fiber_create_oom", true, mkf);
    Fiber* main_f = nullptr;
    sweep(A, "fiber_for_thread_oom", false, [&] {
        main_f = (Fiber*)&A;
        status r = fiber_create_for_thread(&main_f, s, A);
        if (r != STATUS_SUCCESS) SEM(main_f == nullptr, "fiber_out", "a failed fiber creation left its output pointer set");
        return r;
    });
    OK(resource_release(RCPR_SYM(fiber_resource_handle)(main_f)), "fiber_release");
    Disc* d = nullptr;
    Uuid id;
    for (auto& b : id.data) b = (uint8_t)c.rng.next();
    sweep(A, "discipline_create_oom", false, [&] {
        d = (Disc*)&A;
        status r = fiber_scheduler_discipline_create(&d, &id, A, nullptr, 1 + c.rng(20), d_cbs);
        if (r != STATUS_SUCCESS) SEM(d == nullptr, "discipline_out", "a failed discipline creation left its output pointer set");
        return r;
    });
    sweep(A, "discipline_add_oom", false, [&] { return fiber_scheduler_discipline_add(s, d); });
    Disc *m = nullptr, *cd = nullptr;
    bool first = c.rng.chance(1, 2);
    for (int i = 0; i < 2; ++i) {
        if ((i == 0) == first) sweep(A, "message_discipline_oom", false, [&] { return message_discipline_get_or_create(&m, A, s); });
        else sweep(A, "condition_discipline_oom", false, [&] { return condition_discipline_get_or_create(&cd, A, s); });
    }
    RCPR_SYM(mailbox_address) a;
    OK(mailbox_create(&a, m), "mailbox_create");
    ResPool pool;
    Message* msg = nullptr;
    Res* pay = pool.make();
    sweep(A, "message_create_oom", false, [&] {
        msg = (Message*)&A;
        status r = message_create(&msg, A, a, pay->h());
        if (r != STATUS_SUCCESS) {
            SEM(msg == nullptr, "message_out", "a failed message creation left its output pointer set");
            SEM(pay->released == 0, "message_payload", "a failed message creation released the caller's payload");
        }
        return r;
    });
    OK(message_send(a, msg, m), "send");
    Message* got = nullptr;
    OK(message_receive(a, &got, m), "receive");
    SEM(got == msg, "wrong_message", "another message was received");
    OK(resource_release(RCPR_SYM(message_resource_handle)(got)), "message_release");
    SEM(pay->released == 1, "payload_release_count", "the payload was released %u times", pay->released);
    OK(fiber_scheduler_add(s, f), "add");
    OK(fiber_scheduler_run(s), "run");
    SEM(RCPR_SYM(fiber_state_get)(f) == FIBER_STATE_STOPPED, "ran", "the added fiber did not run");
    OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(s)), "scheduler_release");
    A.expect_empty("after releasing the scheduler");
    SEM(mapped_count() == 0, "stacks_unmapped", "stacks are still mapped");
    nontrivial(mix(c.rng.next(), 1));
}

/* ------------------------------------------------------- requests to a fiber that is already queued
 * A request to a fiber in the run queue must resume it once. */
namespace q {
static Sched* s; static Disc* d; static Fiber* target; static bool all; static int resumed; static bool stop;
static Uuid id;
static status pass(void*, Fiber* y, int, void*) { return RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(s, y, &id, 1, nullptr); }
static status park(void*, Fiber*, int, void*) { return STATUS_SUCCESS; }
static status body(void*) {
    const Uuid* u; int ev; void* p;
    OK(fiber_discipline_yield(d, 0, nullptr, &u, &ev, &p), "pass");
    SEM(!memcmp(u, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16) && ev == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST, "request_event", "the fiber was resumed with event %d instead of the request", ev);
    ++resumed;
    OK(fiber_discipline_yield(d, 1, nullptr, &u, &ev, &p), "park");
    fail("sem", all ? "resumed_again_all" : "resumed_again_one", "a fiber that had been in the run queue when it was asked to quiesce was resumed again, with event %d, after it had received the request", ev);
}
static status asker(void*) {
    if (all) OK(disciplined_fiber_scheduler_send_quiesce_request_to_all(s), "ask_all");
    else OK(disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, target), "ask_one");
    const Uuid* u; int ev; void* p;
    for (int i = 0; i < 4; ++i) OK(fiber_discipline_yield(d, 0, nullptr, &u, &ev, &p), "pass");
    return STATUS_SUCCESS;
}
}
static void queued_request(Ctx& c, bool all) {
    Alloc A; Fiber* b; const Uuid* u; int ev; void* p;
    q::all = all; q::resumed = 0;
    for (auto& x : q::id.data) x = (uint8_t)c.rng.next();
    OK(fiber_scheduler_create_with_disciplines(&q::s, A), "scheduler_create");
    RCPR_SYM(fiber_scheduler_discipline_callback_fn) cbs[] = {&q::pass, &q::park};
    OK(fiber_scheduler_discipline_create(&q::d, &q::id, A, nullptr, 2, cbs), "discipline_create");
    OK(fiber_scheduler_discipline_add(q::s, q::d), "discipline_add");
    OK(fiber_create(&q::target, A, q::s, STACK_MIN + 8192, nullptr, &q::body), "fiber_create");
    OK(fiber_create(&b, A, q::s, STACK_MIN + 8192, nullptr, &q::asker), "fiber_create");
    OK(fiber_scheduler_add(q::s, q::target), "add");
    OK(fiber_scheduler_add(q::s, b), "add");
    log("%s", all ? "all" : "one");
    OK(disciplined_fiber_scheduler_receive_management_event(q::s, &u, &ev, &p), "management");
    SEM(p == b && q::resumed == 1, "request_lost", "the fiber asked to quiesce was resumed %d times", q::resumed);
    OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(q::s)), "scheduler_release");
    A.expect_empty("after releasing the scheduler");
    nontrivial(mix(c.rng.next(), all));
}
SCENARIO("C28", request_while_queued, 1) { if (c.n % 400 < 2) queued_request(c, c.n % 2); }

/* ------------------------------------------------------- a requester resumed by something else
 * The asked fiber runs before the requester and resumes it with another event: the request must report that. */
namespace ri {
static Sched* s; static Disc* d; static Fiber *target, *asker_f; static int how, ev_sent, got, rounds; static Uuid id, kick; static uintptr_t par; static status rc;
static status pass(void*, Fiber* y, int, void*) { return RCPR_SYM(disciplined_fiber_scheduler_add_fiber_to_run_queue)(s, y, &id, 1, nullptr); }
static status park(void*, Fiber*, int, void*) { return STATUS_SUCCESS; }
static status body(void*) {
    const Uuid* u; int ev; void* p;
    for (;;) {
        OK(fiber_discipline_yield(d, 1, nullptr, &u, &ev, &p), "park");
        SEM(!memcmp(u, &FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE, 16) && ev == (how & 1 ? FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_TERMINATION_REQUEST : FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_QUIESCE_REQUEST), "request_event", "the fiber was resumed with event %d instead of the request", ev);
        ++got;
        OK(RCPR_SYM(disciplined_fiber_scheduler_set_next_fiber_to_run)(s, asker_f, &kick, ev_sent, (void*)par), "enqueue");
    }
}
static status asker(void*) {
    const Uuid* u; int ev; void* p;
    rc = how == 0 ? disciplined_fiber_scheduler_send_quiesce_request_to_fiber(s, target) : how == 1 ? disciplined_fiber_scheduler_send_terminate_request_to_fiber(s, target)
       : how == 2 ? disciplined_fiber_scheduler_send_quiesce_request_to_all(s) : disciplined_fiber_scheduler_send_terminate_request_to_all(s);
    SEM(got == 1, "request_lost", "the request returned 0x%x before the fiber received it", rc);
    SEM(rc == ERROR_FIBER_UNEXPECTED_RESUME_EVENT, "request_interrupted", "a request whose fiber was resumed by another event (%d) returned 0x%x", ev_sent, rc);
    OK(fiber_discipline_yield(d, 1, nullptr, &u, &ev, &p), "park");     /* it is queued once more, for the result */
    ++rounds;
    return STATUS_SUCCESS;
}
}
SCENARIO("C28", request_interrupted, 1) {
    Rng& R = c.rng; Alloc A; const Uuid* u; int ev; void* p;
    using namespace ri;
    how = (int)R(4); got = rounds = 0; par = R.chance(1, 2) ? 0 : (uintptr_t)R.next();
    for (auto& x : ri::id.data) x = (uint8_t)R.next();
    kick = FIBER_SCHEDULER_MANAGEMENT_DISCIPLINE; ev_sent = FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT;
    if (R.chance(2, 3)) kick.data[R(16)] ^= (uint8_t)(1 + R(255));
    else do ev_sent = (int)R(12); while (ev_sent == FIBER_SCHEDULER_MANAGEMENT_RESUME_EVENT_REQUEST_RESULT);
    OK(fiber_scheduler_create_with_disciplines(&ri::s, A), "scheduler_create");
    RCPR_SYM(fiber_scheduler_discipline_callback_fn) cbs[] = {&ri::pass, &ri::park};
    OK(fiber_scheduler_discipline_create(&ri::d, &ri::id, A, nullptr, 2, cbs), "discipline_create");
    OK(fiber_scheduler_discipline_add(ri::s, ri::d), "discipline_add");
    OK(fiber_create(&target, A, ri::s, STACK_MIN + 8192, nullptr, &ri::body), "fiber_create");
    OK(fiber_create(&asker_f, A, ri::s, STACK_MIN + 8192, nullptr, &ri::asker), "fiber_create");
    OK(fiber_scheduler_add(ri::s, target), "add");
    OK(fiber_scheduler_add(ri::s, asker_f), "add");
    log("request %d, event %d", how, ev_sent);
    OK(disciplined_fiber_scheduler_receive_management_event(ri::s, &u, &ev, &p), "management");
    SEM(p == asker_f && rounds == 1, "result_lost", "the requester ran %d times after its request", rounds);
    OK(resource_release(RCPR_SYM(fiber_scheduler_resource_handle)(ri::s)), "scheduler_release");
    A.expect_empty("after releasing the scheduler");
    nontrivial(mix(R.next(), how));
}
