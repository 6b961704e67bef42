/* C36: programs that share nothing, run at the same time by several threads, or alternately by one. Every program writes
 * down what it observed; each transcript must equal the one of the same program run alone. Under ThreadSanitizer any
 * memory two of them share is a race. */
#include "mon.h"
#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <sched.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <ucontext.h>
#include <unistd.h>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/condition.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/socket_utilities.h>
#include <rcpr/string.h>
#include <rcpr/uuid.h>
#include "psockval.h"
RCPR_IMPORT_list; RCPR_IMPORT_slist; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_bigint; RCPR_IMPORT_condition; RCPR_IMPORT_message;
RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_uuid; RCPR_IMPORT_string_as(rs); RCPR_IMPORT_fiber; RCPR_IMPORT_socket_utilities;
using namespace mon;
#ifdef __SANITIZE_THREAD__
#include <sanitizer/tsan_interface.h>
#define RAW __attribute__((no_sanitize("thread"), noinline))
/* ThreadSanitizer is told about every switch of stacks the library makes */
static thread_local std::map<void*, void*>* t_tsan = nullptr;
extern "C" {
void __real_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(RCPR_SYM(fiber)*, RCPR_SYM(fiber)*, const RCPR_SYM(rcpr_uuid)*, int64_t, void*);
void __wrap_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(RCPR_SYM(fiber)*, RCPR_SYM(fiber)*, const RCPR_SYM(rcpr_uuid)*, int64_t, void*);
}
static void* tsan_of(void* prev, void* next) {
    if (!t_tsan) t_tsan = new std::map<void*, void*>;
    if (!t_tsan->count(prev)) (*t_tsan)[prev] = __tsan_get_current_fiber();
    if (!t_tsan->count(next)) (*t_tsan)[next] = __tsan_create_fiber(0);
    return (*t_tsan)[next];
}
RAW void __wrap_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(RCPR_SYM(fiber)* p, RCPR_SYM(fiber)* n, const RCPR_SYM(rcpr_uuid)* d, int64_t e, void* x) {
    void* t = tsan_of(p, n);
    __tsan_switch_to_fiber(t, 0);
    __real_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(p, n, d, e, x);
}
static void tsan_forget() {
    if (!t_tsan) return;
    void* me = __tsan_get_current_fiber();
    for (auto& f : *t_tsan) if (f.second != me) __tsan_destroy_fiber(f.second);
    delete t_tsan; t_tsan = nullptr;
}
#else
extern "C" {
void __real_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(RCPR_SYM(fiber)*, RCPR_SYM(fiber)*, const RCPR_SYM(rcpr_uuid)*, int64_t, void*);
void __wrap_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(RCPR_SYM(fiber)* p, RCPR_SYM(fiber)* n, const RCPR_SYM(rcpr_uuid)* d, int64_t e, void* x) {
    __real_rcpr_u0ec71e88_25af_40aa_8dd9_990d596b60de_V0_4_fiber_switch(p, n, d, e, x);
}
}
static void tsan_forget() {}
#endif

namespace {
enum Mode { ALONE, THREADS, TURNS };
enum Kind { LIST, SLIST, QUEUE, TREE, STRINGS, NUMBERS, BUMP, BUFFER, STREAM, USER, TRIGGER, DESCS, FIBERS, ASYNC, KINDS };
const char* kind_name[] = {"list", "slist", "queue", "tree", "strings", "numbers", "bump", "buffer", "stream", "user", "trigger", "descriptors", "fibers", "async"};

struct Prog;
struct Item { RCPR_SYM(resource) hdr; uint64_t key; Prog* p; };         /* hdr first */
struct PAlloc { RCPR_SYM(allocator) a; Prog* p; };                      /* a first */
struct Prog {
    int kind; uint64_t seed; Mode mode = ALONE; Rng R{1}, pace{1};
    std::vector<uint64_t> out; std::vector<std::string> note;
    std::vector<std::unique_ptr<Item>> items; uint64_t next_key = 0;
    PAlloc mem; uint64_t live = 0;
    ucontext_t ctx, *back = nullptr; bool finished = false; std::unique_ptr<char[]> stack;
    uint64_t pauses = 0;
    Prog(int k, uint64_t s, Mode m, uint64_t pc);
    void put(uint64_t x) { out.push_back(x); }
    void put(const char* s, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; ++i) h = mix(h, (unsigned char)s[i]); out.push_back(h); }
    void put(const std::string& s) { put(s.data(), s.size()); }
    /* others may run here */
    void pt() {
        ++pauses;
        if (mode == THREADS) { unsigned d = (unsigned)pace(40); if (d == 0) usleep((useconds_t)pace(60)); else if (d < 6) sched_yield(); }
        else if (mode == TURNS && pace.chance(1, 3)) swapcontext(&ctx, back);
    }
    Item* item();
    allocator* al() { return &mem.a; }
    void run();
};
status item_release(RCPR_SYM(resource)* r) { Item* i = (Item*)r; i->p->put(0xAA000000 + i->key); i->p->pt(); return STATUS_SUCCESS; }
RCPR_VTABLE RCPR_SYM(resource_vtable) item_vt = {&item_release};
Item* Prog::item() {
    items.push_back(std::make_unique<Item>()); Item* i = items.back().get();
    resource_init(&i->hdr, &item_vt); i->p = this; i->key = (next_key++ * 0x9E3779B1u) % 100003; return i;
}
status pa_release(RCPR_SYM(resource)*) { return STATUS_SUCCESS; }
status pa_allocate(RCPR_SYM(allocator)* a, void** q, size_t n) {
    Prog* p = ((PAlloc*)a)->p; p->pt();
    *q = n > (1u << 28) ? nullptr : malloc(n ? n : 1); if (!*q) return ERROR_GENERAL_OUT_OF_MEMORY;
    memset(*q, 0xA5, n); ++p->live; p->put(0xBB000000 + n); return STATUS_SUCCESS;
}
status pa_reclaim(RCPR_SYM(allocator)* a, void* q) { Prog* p = ((PAlloc*)a)->p; p->pt(); free(q); --p->live; return STATUS_SUCCESS; }
status pa_reallocate(RCPR_SYM(allocator)* a, void** q, size_t n) {
    Prog* p = ((PAlloc*)a)->p; p->pt();
    void* x = n > (1u << 28) ? nullptr : realloc(*q, n ? n : 1); if (!x) return ERROR_GENERAL_OUT_OF_MEMORY;
    *q = x; p->put(0xCC000000 + n); return STATUS_SUCCESS;
}
status pa_control(RCPR_SYM(allocator)*, int, void*, size_t) { return ERROR_GENERAL_CONTROL_KEY_INVALID; }
RCPR_VTABLE RCPR_SYM(allocator_vtable) pa_vt = {.hdr = {&pa_release}, .allocate_fn = &pa_allocate, .reclaim_fn = &pa_reclaim, .reallocate_fn = &pa_reallocate, .control_fn = &pa_control};
Prog::Prog(int k, uint64_t s, Mode m, uint64_t pc) : kind(k), seed(s), mode(m), R(s), pace(pc) {
    memset(&mem, 0, sizeof mem); resource_init(&mem.a.hdr, &pa_vt.hdr); mem.a.context = &mem; mem.p = this;
}
/* the key of a resource that came back, or 0 */
uint64_t kof(RCPR_SYM(resource)* r) { return r ? ((Item*)r)->key + 1 : 0; }

/* ------------------------------------------------------------ containers */
void p_list(Prog& P) {
    Rng& R = P.R; RCPR_SYM(list)* l[2]; P.put(list_create(&l[0], P.al())); P.put(list_create(&l[1], P.al()));
    for (size_t i = R.range(10, 60); i-- > 0;) {
        auto* x = l[R(2)]; RCPR_SYM(resource)* r = nullptr; RCPR_SYM(list_node)* n = nullptr; status st = 0;
        P.pt();
        switch (R(8)) {
            case 0: st = list_insert_head(x, &P.item()->hdr); break;
            case 1: case 2: st = list_append_tail(x, &P.item()->hdr); break;
            case 3: st = list_pop(x, &r); break;
            case 4: st = list_head(&n, x); if (st == STATUS_SUCCESS && n) { P.pt(); st = list_insert(n, &P.item()->hdr); } break;
            case 5: st = list_tail(&n, x); if (st == STATUS_SUCCESS && n) { P.pt(); st = list_append(n, &P.item()->hdr); } break;
            case 6: if (R.chance(1, 3)) RCPR_SYM(list_swap)(l[0], l[1]); break;
            default: if (R.chance(1, 8)) st = list_clear(x);
        }
        P.put(st); P.put(kof(r)); P.put(list_count(x));
        P.pt(); st = list_head(&n, x); while (st == STATUS_SUCCESS && n) { { RCPR_SYM(resource)* v = nullptr; P.put(list_node_child(&v, n)); P.put(kof(v)); } st = list_node_next(&n, n); P.pt(); } P.put(st);
    }
    P.put(resource_release(list_resource_handle(l[0]))); P.put(resource_release(list_resource_handle(l[1])));
}
void p_slist(Prog& P) {
    Rng& R = P.R; RCPR_SYM(slist)* l; P.put(slist_create(&l, P.al()));
    for (size_t i = R.range(10, 60); i-- > 0;) {
        RCPR_SYM(resource)* r = nullptr; RCPR_SYM(slist_node)* n = nullptr; status st = 0; P.pt();
        switch (R(6)) {
            case 0: st = slist_insert_head(l, &P.item()->hdr); break;
            case 1: case 2: st = slist_append_tail(l, &P.item()->hdr); break;
            case 3: st = slist_pop(l, &r); break;
            case 4: st = slist_head(&n, l); if (st == STATUS_SUCCESS && n) { P.pt(); st = slist_append(n, &P.item()->hdr); } break;
            default: st = slist_head(&n, l); if (st == STATUS_SUCCESS && n && slist_count(l) > 1) { P.pt(); st = slist_node_next_pop(n, &r); }
        }
        P.put(st); P.put(kof(r)); P.put(slist_count(l));
        P.pt(); st = slist_head(&n, l); while (st == STATUS_SUCCESS && n) { RCPR_SYM(resource)* v = nullptr; P.put(slist_node_child(&v, n)); P.put(kof(v)); st = slist_node_next(&n, n); P.pt(); } P.put(st);
    }
    P.put(resource_release(slist_resource_handle(l)));
}
void p_queue(Prog& P) {
    Rng& R = P.R; RCPR_SYM(queue)* q; P.put(queue_create(&q, P.al()));
    for (size_t i = R.range(10, 100); i-- > 0;) {
        RCPR_SYM(resource)* r = nullptr; status st; P.pt();
        switch (R(4)) { case 0: st = queue_insert(q, &P.item()->hdr); break; case 1: st = queue_append(q, &P.item()->hdr); break; case 2: st = queue_append(q, &P.item()->hdr); break; default: st = queue_pop(q, &r); }
        P.put(st); P.put(kof(r)); P.put(queue_count(q));
    }
    P.put(resource_release(queue_resource_handle(q)));
}
RCPR_SYM(rcpr_comparison_result) t_cmp(void* c, const void* a, const void* b) {
    Prog* P = (Prog*)c; uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b; P->put(x * 1000003 + y); P->pt();
    return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ;
}
const void* t_key(void*, const RCPR_SYM(resource)* r) { return &((const Item*)r)->key; }
void p_tree(Prog& P) {
    Rng& R = P.R; RCPR_SYM(rbtree)* t; P.put(rbtree_create(&t, P.al(), &t_cmp, &t_key, &P));
    for (size_t i = R.range(10, 80); i-- > 0;) {
        RCPR_SYM(resource)* r = nullptr; status st; P.pt();
        uint64_t key = P.items.empty() ? 7 : P.items[R(P.items.size())]->key;
        switch (R(5)) { case 0: case 1: case 2: st = rbtree_insert(t, &P.item()->hdr); break; case 3: st = rbtree_find(&r, t, &key); break; default: st = rbtree_delete(R.chance(1, 2) ? &r : nullptr, t, &key); }
        P.put(st); P.put(kof(r)); P.put(rbtree_count(t));
    }
    auto* n = rbtree_minimum_node(t, rbtree_root_node(t));
    while (n != rbtree_nil_node(t)) { P.put(kof(rbtree_node_value(t, n))); P.pt(); n = rbtree_successor_node(t, n); }
    P.put(resource_release(rbtree_resource_handle(t)));
}
/* ------------------------------------------------------------ strings and numbers */
bool is_sep(int ch) { return ch == ',' || ch == ';'; }
void p_strings(Prog& P) {
    Rng& R = P.R;
    for (size_t rep = R.range(4, 12); rep-- > 0;) {
        std::string s; for (size_t i = R.range(1, 60); i-- > 0;) s.push_back(" \tabcdef,;:\n"[R(12)]);
        std::string t = s; const char* w; char* dup = nullptr;
        RCPR_SYM(string_iterator) it; char* arg = t.data();
        for (int k = 0; k < 100 && RCPR_SYM(words)(&w, &it, arg) == STATUS_SUCCESS; ++k) { P.put(w, strlen(w)); P.pt(); arg = nullptr; }
        t = s; arg = t.data(); RCPR_SYM(string_iterator) ti;
        for (int k = 0; k < 100 && RCPR_SYM(multisplit)(&w, &ti, arg, k ? nullptr : &is_sep) == STATUS_SUCCESS; ++k) { P.put(w, strlen(w)); P.pt(); arg = nullptr; }
        t = s; const char *lh, *rh; status st = RCPR_SYM(split)(&lh, &rh, t.data(), ':'); P.put(st); P.put(lh ? std::string(lh) : "-"); P.put(rh && st == STATUS_SUCCESS ? std::string(rh) : "-");
        P.pt(); t = s; RCPR_SYM(left_trim)(t.data()); P.put(std::string(t.c_str())); P.pt(); RCPR_SYM(right_trim)(t.data()); P.put(std::string(t.c_str()));
        P.pt(); st = RCPR_SYM(strdup)(&dup, P.al(), s.c_str()); P.put(st); if (!st) { P.put(std::string(dup)); P.pt(); P.put(allocator_reclaim(P.al(), dup)); }
        P.pt(); st = rs_strcatv(&dup, P.al(), s.c_str(), "-", s.c_str() + s.size() / 2, nullptr); P.put(st); if (!st) { P.put(std::string(dup)); P.pt(); P.put(allocator_reclaim(P.al(), dup)); }
    }
}
void p_numbers(Prog& P) {
    Rng& R = P.R;
    for (size_t rep = R.range(4, 16); rep-- > 0;) {
        rcpr_uuid u, v; for (auto& b : u.data) b = (uint8_t)R.next();
        char* s = nullptr; memset(&v, 0x11, sizeof v); P.pt();
        if (rcpr_uuid_to_string(&s, P.al(), &u) == STATUS_SUCCESS) { P.put(s, 36); P.pt(); if (R.chance(1, 3)) s[R(36)] = (char)R(128); P.put(rcpr_uuid_parse_string(&v, s)); P.put((const char*)v.data, 16); P.put(allocator_reclaim(P.al(), s)); }
        RCPR_SYM(bigint) *a, *b; P.pt(); P.put(bigint_create_zero(&a, P.al(), 64 * R.range(1, 5))); P.pt(); P.put(bigint_clone(&b, P.al(), a)); P.pt();
        P.put(resource_release(bigint_resource_handle(a))); P.put(resource_release(bigint_resource_handle(b)));
        P.put(socket_utility_hton64((int64_t)R.next())); P.put(socket_utility_ntoh64((int64_t)R.next()));
    }
}
void p_bump(Prog& P) {
    Rng& R = P.R; size_t n = R.range(1000, 9000); std::unique_ptr<char[]> reg(new char[n + 16]); char* base = (char*)(((uintptr_t)reg.get() + 15) & ~(uintptr_t)15);
    allocator* a; P.put(bump_allocator_create(&a, base, n)); std::vector<char*> v; std::vector<size_t> z;
    for (size_t i = R.range(5, 60); i-- > 0;) {
        void* p = nullptr; size_t k = R.range(1, 300); P.pt(); status st = allocator_allocate(a, &p, k); P.put(st); P.put(p ? (uint64_t)((char*)p - base) : 0);
        if (p) { memset(p, (int)v.size(), k); v.push_back((char*)p); z.push_back(k); }
        if (R.chance(1, 12)) { P.pt(); P.put(allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, nullptr, 0)); v.clear(); z.clear(); }
        if (v.size() && R.chance(1, 4)) { size_t j = R(v.size()); void* q = v[j]; size_t nk = R.range(1, 300); P.pt(); status rs = allocator_reallocate(a, &q, nk); P.put(rs); if (!rs) { size_t m = std::min(z[j], nk); P.put((char*)q, m); v[j] = (char*)q; memset(q, (int)j, nk); z[j] = nk; } }
        for (size_t j = 0; j < v.size(); ++j) P.put(v[j], z[j]);
    }
    P.put(resource_release(allocator_resource_handle(a)));
}
/* ------------------------------------------------------------ sockets */
void read_back(Prog& P, psock* s, int k, size_t want) {
    status st; P.pt();
    auto num = [&](auto fn, auto x) { st = fn(s, &x); P.put(st); if (!st) P.put((uint64_t)x); };
    switch (k) {
        case pv::I8: num(&psock_read_boxed_int8, (int8_t)0); break;   case pv::U8: num(&psock_read_boxed_uint8, (uint8_t)0); break;
        case pv::I16: num(&psock_read_boxed_int16, (int16_t)0); break; case pv::U16: num(&psock_read_boxed_uint16, (uint16_t)0); break;
        case pv::I32: num(&psock_read_boxed_int32, (int32_t)0); break; case pv::U32: num(&psock_read_boxed_uint32, (uint32_t)0); break;
        case pv::I64: num(&psock_read_boxed_int64, (int64_t)0); break; case pv::U64: num(&psock_read_boxed_uint64, (uint64_t)0); break;
        case pv::RI8: num(&psock_read_raw_int8, (int8_t)0); break;    case pv::RU8: num(&psock_read_raw_uint8, (uint8_t)0); break;
        case pv::RI16: num(&psock_read_raw_int16, (int16_t)0); break;  case pv::RU16: num(&psock_read_raw_uint16, (uint16_t)0); break;
        case pv::RI32: num(&psock_read_raw_int32, (int32_t)0); break;  case pv::RU32: num(&psock_read_raw_uint32, (uint32_t)0); break;
        case pv::RI64: num(&psock_read_raw_int64, (int64_t)0); break;  case pv::RU64: num(&psock_read_raw_uint64, (uint64_t)0); break;
        case pv::BOOL: num(&psock_read_boxed_bool, false); break;      case pv::RBOOL: num(&psock_read_raw_bool, false); break;
        case pv::STR: { char* p = nullptr; size_t n = 0; st = psock_read_boxed_string(s, P.al(), &p, &n); P.put(st); if (!st) { P.put(p, n); P.put(allocator_reclaim(P.al(), p)); } break; }
        default: { void* p = nullptr; size_t n = want; st = k == pv::DATA ? psock_read_boxed_data(s, P.al(), &p, &n) : psock_read_raw_data(s, P.al(), &p, want); P.put(st); if (!st) { P.put((char*)p, n); P.put(allocator_reclaim(P.al(), p)); } }
    }
}
pv::Val val(Prog& P, size_t max) { pv::Val v; do v = pv::make(P.R, max); while (v.k == pv::RDATA && v.s.empty()); return v; }
void p_buffer(Prog& P) {
    Rng& R = P.R; psock *w, *r; std::vector<pv::Val> vs; P.put(psock_create_from_buffer(&w, P.al(), NULL, 0));
    for (size_t i = R.range(3, 25); i-- > 0;) { vs.push_back(val(P, 300)); P.pt(); P.put(pv::write(w, vs.back())); }
    void* o = nullptr; size_t n = 0; P.pt(); status st = psock_from_buffer_get_output_buffer(w, P.al(), &o, &n); P.put(st); if (st) return;
    P.put((char*)o, n); P.put(psock_create_from_buffer(&r, P.al(), (char*)o, n));
    for (auto& v : vs) read_back(P, r, v.k, v.s.size());
    P.put(resource_release(psock_resource_handle(r))); P.put(resource_release(psock_resource_handle(w))); P.put(allocator_reclaim(P.al(), o));
}
void p_stream(Prog& P) {
    Rng& R = P.R; int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) { perror("socketpair"); _exit(6); }
    psock *w, *r; psock_br* br = nullptr; P.put(psock_create_from_descriptor(&w, P.al(), fd[0])); P.put(psock_create_from_descriptor(&r, P.al(), fd[1]));
    psock* rd = r; if (R.chance(1, 2)) { P.put(psock_br_create_from_psock(&br, P.al(), r)); rd = psock_br_psock_adapter(br); }
    for (size_t i = R.range(3, 20); i-- > 0;) {
        if (br && R.chance(1, 3)) {
            std::string l; for (size_t k = R(40); k-- > 0;) l.push_back((char)('a' + R(26))); l.push_back('\n');
            char buf[64]; size_t z = sizeof buf; P.pt(); P.put(psock_write_raw_data(w, l.data(), l.size())); P.pt(); status st = psock_br_read_line(buf, &z, br); P.put(st); P.put(z); if (!st) P.put(std::string(buf)); continue;
        }
        std::vector<pv::Val> vs; for (size_t k = R.range(1, 3); k-- > 0;) { vs.push_back(val(P, 500)); P.pt(); P.put(pv::write(w, vs.back())); }
        for (auto& v : vs) read_back(P, rd, v.k, v.s.size());
    }
    if (br) P.put(resource_release(psock_br_resource_handle(br)));
    P.put(resource_release(psock_resource_handle(w))); P.put(resource_release(psock_resource_handle(r)));
}
struct Pipe { Prog* p; std::string s; };
status u_read(psock*, void* c, void* d, size_t* n, bool) { Pipe* q = (Pipe*)c; q->p->pt(); if (*n > q->s.size()) *n = q->s.size(); if (!*n) return ERROR_PSOCK_READ_EOF; memcpy(d, q->s.data(), *n); q->s.erase(0, *n); return STATUS_SUCCESS; }
status u_write(psock*, void* c, const void* d, size_t* n) { Pipe* q = (Pipe*)c; q->p->pt(); if (*n > 3) *n = 1 + q->p->R(*n); q->s.append((const char*)d, *n); return STATUS_SUCCESS; }
status u_release(psock*, void* c) { ((Pipe*)c)->p->put(77); return STATUS_SUCCESS; }
RCPR_VTABLE RCPR_SYM(psock_vtable) u_vt = {.hdr = {nullptr}, .read_fn = &u_read, .write_fn = &u_write, .accept_fn = nullptr, .sendmsg_fn = nullptr, .recvmsg_fn = nullptr, .setsockopt_fn = nullptr, .release_fn = &u_release};
void p_user(Prog& P) {
    Rng& R = P.R; Pipe q{&P, ""}; psock* s; P.put(psock_create_from_user_methods(&s, P.al(), &q, &u_vt));
    for (size_t i = R.range(3, 30); i-- > 0;) { pv::Val v = val(P, 200); P.pt(); status st = pv::write(s, v); P.put(st); P.put(q.s); read_back(P, s, v.k, v.s.size()); if (st) q.s.clear(); }
    P.put(resource_release(psock_resource_handle(s)));
}
void t_fire(void* c) { ((Prog*)c)->put(99); ((Prog*)c)->pt(); }
void p_trigger(Prog& P) {
    Rng& R = P.R; RCPR_SYM(auto_reset_trigger)* t; P.put(auto_reset_trigger_create(&t, P.al()));
    for (size_t i = R.range(10, 60); i-- > 0;) { P.pt(); switch (R(3)) { case 0: auto_reset_trigger_register(t, &t_fire, &P); break; case 1: auto_reset_trigger_signal(t); break; default: auto_reset_trigger_step(t); } P.put(i); }
    P.put(resource_release(auto_reset_trigger_resource_handle(t)));
}
void p_descs(Prog& P) {
    Rng& R = P.R; int fd[2]; if (socketpair(AF_UNIX, SOCK_DGRAM, 0, fd)) { perror("socketpair"); _exit(6); }
    psock *w, *r; P.put(psock_create_from_descriptor(&w, P.al(), fd[0])); P.put(psock_create_from_descriptor(&r, P.al(), fd[1]));
    for (size_t i = R.range(2, 12); i-- > 0;) {
        if (R.chance(1, 3)) { char b[16]; uint64_t x = R.next(); size_t z = sizeof b; P.pt(); P.put(psock_write_raw_data(w, &x, sizeof x)); P.pt(); P.put(psock_read_raw(r, b, &z)); P.put(b, z); continue; }
        int m = memfd_create("m", 0), d = -1; off_t at = (off_t)R(1 << 20); lseek(m, at, SEEK_SET);
        P.pt(); P.put(psock_write_raw_descriptor(w, m)); P.pt(); status st = psock_read_raw_descriptor(r, &d); P.put(st); struct stat a, b;
        if (!st) { P.put(fstat(m, &a) == 0 && fstat(d, &b) == 0 && a.st_ino == b.st_ino); P.put((uint64_t)(lseek(d, 0, SEEK_CUR) == at)); close(d); }
        close(m);
    }
    P.put(resource_release(psock_resource_handle(w))); P.put(resource_release(psock_resource_handle(r)));
}
/* ------------------------------------------------------------ fibers */
struct FW {
    Prog& P; RCPR_SYM(fiber_scheduler)* s = nullptr; RCPR_SYM(fiber_scheduler_discipline) *md = nullptr, *cd = nullptr; int alive = 0;
    std::vector<RCPR_SYM(mailbox_address)> box; std::vector<RCPR_SYM(conditional)> cond; std::vector<std::unique_ptr<std::function<status()>>> body;
    void add(std::function<status()> f, size_t stack = 65536) {
        body.push_back(std::make_unique<std::function<status()>>(std::move(f))); RCPR_SYM(fiber)* fb; P.put(fiber_create(&fb, P.al(), s, stack, body.back().get(), [](void* x) { return (*(std::function<status()>*)x)(); }));
        ++alive; P.put(fiber_scheduler_add(s, fb));
    }
    void join() { while (alive > 0) { const rcpr_uuid* id; int ev; void* p; status st = disciplined_fiber_scheduler_receive_management_event(s, &id, &ev, &p); P.put(st); P.put((uint64_t)ev); if (st) break; } }
};
void p_fibers(Prog& P) {
    Rng& R = P.R; FW w{P}; P.put(fiber_scheduler_create_with_disciplines(&w.s, P.al()));
    P.put(message_discipline_get_or_create(&w.md, P.al(), w.s)); P.put(condition_discipline_get_or_create(&w.cd, P.al(), w.s));
    size_t n = R.range(2, 5); for (size_t i = 0; i < n; ++i) { RCPR_SYM(mailbox_address) b; P.put(mailbox_create(&b, w.md)); w.box.push_back(b); P.put((uint64_t)b); }
    RCPR_SYM(conditional) c; P.put(conditional_create(&c, w.cd)); P.put((uint64_t)c); int waiting = 0;
    size_t rounds = R.range(1, 8);
    for (size_t i = 0; i < n; ++i) w.add([&, i]() -> status {           /* a ring: each receives from its box and sends to the next */
        P.put(1000 + i); P.pt();
        if (i == 0) { RCPR_SYM(message)* m; P.put(message_create(&m, P.al(), w.box[0], &P.item()->hdr)); P.pt(); P.put(message_send(w.box[n > 1 ? 1 : 0], m, w.md)); }
        for (size_t k = 0; k < rounds; ++k) {
            RCPR_SYM(message)* m = nullptr; P.pt(); status st = message_receive(w.box[i], &m, w.md); P.put(st); if (st) break;
            P.put(2000 + i); P.put((uint64_t)message_return_address(m)); P.put(kof(message_payload(m, false))); P.pt();
            if (i == 0 && k + 1 == rounds) { P.put(resource_release(message_resource_handle(m))); break; }
            P.put(message_send(w.box[(i + 1) % n], m, w.md)); P.pt();
        }
        P.put(3000 + i); --w.alive; return STATUS_SUCCESS;
    });
    for (size_t i = 0; i < 2; ++i) w.add([&, i]() -> status { P.put(4000 + i); P.pt(); ++waiting; P.put(conditional_wait(c, w.cd)); --waiting; P.put(4100 + i); P.pt(); --w.alive; return STATUS_SUCCESS; });
    w.add([&]() -> status { P.put(5000); for (int k = 0; k < 2; ++k) { P.pt(); P.put((uint64_t)waiting); P.put(conditional_notify_one(c, w.cd)); } P.put(5001); --w.alive; return STATUS_SUCCESS; });
    w.join();
    P.put(resource_release(fiber_scheduler_resource_handle(w.s)));
}
void p_async(Prog& P) {
    Rng& R = P.R; FW w{P}; P.put(fiber_scheduler_create_with_disciplines(&w.s, P.al())); RCPR_SYM(fiber)* me; P.put(disciplined_fiber_scheduler_main_fiber_get(&me, w.s));
    size_t n = R.range(1, 3); std::vector<psock*> ps;
    for (size_t i = 0; i < n; ++i) {
        int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) { perror("socketpair"); _exit(6); }
        psock *d, *x, *y; P.put(psock_create_from_descriptor(&d, P.al(), fd[0])); P.put(psock_create_wrap_async(&x, P.al(), me, d)); P.put(psock_create_from_descriptor(&d, P.al(), fd[1])); P.put(psock_create_wrap_async(&y, P.al(), me, d));
        ps.push_back(x); ps.push_back(y);
        auto vs = std::make_shared<std::vector<pv::Val>>(); for (size_t k = R.range(1, 8); k-- > 0;) vs->push_back(val(P, 3000));
        
        bool echo = R.chance(1, 2);               /* the reader answers each value, so that both sides wait again and again */
        auto wr = [&P, &w, vs, x, echo]() -> status { for (auto& v : *vs) { P.pt(); P.put(pv::write(x, v)); if (echo) { int32_t z = 0; P.put(psock_read_boxed_int32(x, &z)); P.put((uint64_t)z); } } --w.alive; return STATUS_SUCCESS; };
        auto rd = [&P, &w, vs, y, echo]() -> status { int32_t k = 0; for (auto& v : *vs) { read_back(P, y, v.k, v.s.size()); P.pt(); if (echo) P.put(psock_write_boxed_int32(y, ++k)); } --w.alive; return STATUS_SUCCESS; };
        if (R.chance(1, 2)) { w.add(wr); w.add(rd); } else { w.add(rd); w.add(wr); }
    }
    w.join();
    for (auto* p : ps) P.put(resource_release(psock_resource_handle(p)));
    P.put(resource_release(fiber_scheduler_resource_handle(w.s)));
}
void Prog::run() {
    static void (*const fn[])(Prog&) = {p_list, p_slist, p_queue, p_tree, p_strings, p_numbers, p_bump, p_buffer, p_stream, p_user, p_trigger, p_descs, p_fibers, p_async};
    fn[kind](*this); put(live); tsan_forget(); finished = true;
}
void co_main(unsigned hi, unsigned lo) { Prog* p = (Prog*)((uint64_t)hi << 32 | lo); p->run(); swapcontext(&p->ctx, p->back); }

struct Spec { int kind; uint64_t seed; };
std::vector<Spec> choose(Rng& R) {
    std::vector<Spec> v; size_t n = R.range(2, 5); int same = R.chance(1, 2) ? (int)R(KINDS) : -1;
    for (size_t i = 0; i < n; ++i) v.push_back({same >= 0 && R.chance(3, 4) ? same : (int)R(KINDS), R.next()});
    if (R.chance(1, 3)) v[1] = {v[0].kind, v[0].seed};          /* the same program twice */
    return v;
}
void compare(const Prog& a, const Prog& b, const char* how) {
    size_t i = 0; while (i < a.out.size() && i < b.out.size() && a.out[i] == b.out[i]) ++i;
    if (i < a.out.size() || i < b.out.size())
        fail("sem", (std::string("differs_") + how + "@" + kind_name[a.kind]).c_str(), "a %s program observed something else at step %zu of %zu when others ran %s: %llx instead of %llx", kind_name[a.kind], i, a.out.size(), how,
             (unsigned long long)(i < b.out.size() ? b.out[i] : 0), (unsigned long long)(i < a.out.size() ? a.out[i] : 0));
}
uint64_t finish(const std::vector<std::unique_ptr<Prog>>& alone, const std::vector<std::unique_ptr<Prog>>& ran, const char* how) {
    uint64_t h = 0, steps = 0;
    for (size_t i = 0; i < alone.size(); ++i) { compare(*alone[i], *ran[i], how); SEM(ran[i]->live == 0, "leak@program", "a %s program left %llu blocks", kind_name[ran[i]->kind], (unsigned long long)ran[i]->live); for (auto x : ran[i]->out) h = mix(h, x); steps += ran[i]->out.size(); count(kind_name[ran[i]->kind]); }
    count("observations", steps); count("programs", ran.size());
    return h;
}
}

SCENARIO("C36", at_the_same_time, 1) {
    auto f0 = fds(); Rng& R = c.rng; auto specs = choose(R); std::vector<std::unique_ptr<Prog>> alone, ran;
    for (auto& s : specs) { log("%s", kind_name[s.kind]); alone.push_back(std::make_unique<Prog>(s.kind, s.seed, ALONE, 1)); alone.back()->run(); ran.push_back(std::make_unique<Prog>(s.kind, s.seed, THREADS, R.next())); }
    std::vector<std::thread> th; std::atomic<size_t> ready{0};
    for (auto& p : ran) th.emplace_back([&ready, q = p.get(), n = ran.size()] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); q->run(); });
    for (auto& t : th) t.join();
    uint64_t h = finish(alone, ran, "at_the_same_time");
    expect_fds(f0, "programs"); nontrivial(h);
}
#ifndef __SANITIZE_THREAD__
SCENARIO("C36", in_turns, 3) {
    auto f0 = fds(); Rng& R = c.rng; auto specs = choose(R); std::vector<std::unique_ptr<Prog>> alone, ran; ucontext_t here; uint64_t switches = 0;
    for (auto& s : specs) {
        log("%s", kind_name[s.kind]); alone.push_back(std::make_unique<Prog>(s.kind, s.seed, ALONE, 1)); alone.back()->run();
        ran.push_back(std::make_unique<Prog>(s.kind, s.seed, TURNS, R.next())); Prog* p = ran.back().get(); p->back = &here; p->stack.reset(new char[256 * 1024]);
        getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack.get(); p->ctx.uc_stack.ss_size = 256 * 1024; p->ctx.uc_link = nullptr;
        makecontext(&p->ctx, (void (*)())co_main, 2, (unsigned)((uint64_t)p >> 32), (unsigned)(uint64_t)p);
    }
    for (;;) {
        std::vector<Prog*> left; for (auto& p : ran) if (!p->finished) left.push_back(p.get());
        if (left.empty()) break;
        ++switches; swapcontext(&here, &left[R(left.size())]->ctx);
    }
    uint64_t h = finish(alone, ran, "in_turns"); count("turns", switches);
    expect_fds(f0, "programs"); nontrivial(mix(h, switches));
}
#endif
