/* Monitor core shared by all harnesses: seeded cases, an instrumented
 * allocator with fault injection, tracked resources, descriptor and mapping
 * ledgers, event counters, violation reporting. */
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <rcpr/allocator.h>
#include <rcpr/resource.h>
#include <rcpr/resource/protected.h>
#include <rcpr/status.h>
#include <rcpr/vtable.h>
#include "src/allocator/allocator_internal.h"

RCPR_IMPORT_allocator;
RCPR_IMPORT_allocator_internal;
RCPR_IMPORT_resource;

#define BRACE(...) __VA_ARGS__

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + next() % (hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return next() % den < num; }
    /* sizes biased to small and to powers-of-two edges */
    size_t size(size_t max) {
        switch (next() % 4) {
            case 0: return next() % (max < 4 ? max + 1 : 4);
            case 1: return next() % (max < 40 ? max + 1 : 40);
            case 2: {
                size_t p = (size_t)1 << (next() % 17);
                size_t v = p + next() % 3 - 1;
                return v <= max ? v : max;
            }
            default: return next() % (max + 1);
        }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

struct Ctx {
    uint64_t n;      /* index of this case within its scenario */
    bool thorough;
    Rng rng{1};
};

typedef void (*CaseFn)(Ctx&);
struct Scenario { const char* props; const char* name; unsigned weight; CaseFn fn; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* p, const char* n, unsigned w, CaseFn f) { scenarios().push_back({p, n, w, f}); } };
/* SCENARIO("C05 C01", name, weight) { body using c } */
#define SCENARIO(props, name, weight) \
    static void scn_##name(mon::Ctx& c); \
    static mon::Reg reg_##name(props, #name, weight, &scn_##name); \
    static void scn_##name([[maybe_unused]] mon::Ctx& c)

/* reporting */
[[noreturn]] void fail(const char* kind, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void inconclusive(const char* why);
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* what, uint64_t n = 1);
void maxof(const char* what, uint64_t v);
/* This case was non-trivial, with this fingerprint of its history. */
void nontrivial(uint64_t fingerprint);
uint64_t log_hash();           /* fingerprint of the case's log so far */
const char* current_prop();
bool prop_is(const char* p);
extern thread_local int quiet_depth;

#define CHECK(cond, kind, key, ...) \
    do { if (!(cond)) mon::fail(kind, key, __VA_ARGS__); } while (0)
#define SEM(cond, key, ...) CHECK(cond, "sem", key, __VA_ARGS__)
#define OK(expr, key) \
    do { int ok_rc_ = (int)(expr); if (ok_rc_ != STATUS_SUCCESS) \
        mon::fail("sem", key, "%s:%d: %s returned 0x%x", __FILE__, __LINE__, #expr, ok_rc_); } while (0)

/* ------------------------------------------------------------ allocator */
struct Block { size_t size; uint64_t seq; };
struct Alloc {
    RCPR_SYM(allocator) a;              /* must be first */
    std::unordered_map<void*, Block> live;
    uint64_t seq = 0;
    uint64_t n_alloc = 0, n_reclaim = 0;
    uint64_t attempts = 0;              /* since arm() */
    uint64_t fail_at = 0;               /* 1-based; 0 = off */
    bool persist = false;
    uint64_t injected = 0;
    uint64_t rec_n = 0, rec_fail_at = 0, rec_injected = 0;   /* reclaims that free the block and report failure */
    bool rec_persist = false;
    void arm_reclaim(uint64_t k, bool pers) { rec_n = 0; rec_fail_at = k; rec_persist = pers; rec_injected = 0; }
    size_t limit = (size_t)1 << 31;     /* refuse larger requests (hostile lengths) */
    uint64_t refused = 0;
    size_t biggest = 0;
    unsigned released = 0;
    unsigned char junk = 0xA5;
    bool spread = false;                /* small blocks lie multiples of 4 GiB apart */
    std::function<void(void*, size_t)> on_reclaim;
    std::function<void()> before_alloc;
    Alloc();
    ~Alloc();
    Alloc(const Alloc&) = delete;
    RCPR_SYM(allocator)* get() { return &a; }
    operator RCPR_SYM(allocator)*() { return &a; }
    void arm(uint64_t k, bool pers = false) { attempts = 0; fail_at = k; persist = pers; injected = 0; }
    void disarm() { fail_at = 0; }
    size_t bytes() const;
    void expect_empty(const char* where);
    void* take(size_t n);               /* harness-side allocation */
    void give(void* p);                 /* harness-side reclaim */
    size_t size_of(void* p) { auto i = live.find(p); return i == live.end() ? (size_t)-1 : i->second.size; }
};

/* ------------------------------------------------------------ resources */
struct Res {
    RCPR_SYM(resource) hdr;             /* must be first */
    int id;
    unsigned released = 0;
    status on_release = STATUS_SUCCESS; /* status the release method returns */
    std::function<void(Res*)> hook;
    uint64_t key = 0;
    static uint64_t release_seq;
    uint64_t released_at = 0;
    Res* self;
    explicit Res(int id_ = 0);
    RCPR_SYM(resource)* h() { return &hdr; }
    static Res* of(RCPR_SYM(resource)* r) {
        if (!r) return nullptr;
        Res* x = (Res*)r;
        if (x->self != x) fail("mem", "foreign_resource", "handle %p is not one of the caller's resources", (void*)r);
        return x;
    }
};
/* owns Res objects for the duration of a case; nothing is freed before the end */
struct ResPool {
    std::vector<Res*> all;
    Res* make() { Res* r = new Res((int)all.size()); all.push_back(r); return r; }
    ~ResPool() { for (auto* r : all) delete r; }
    Res* operator[](size_t i) { return all[i]; }
    /* every resource must have been released exactly want times (want by id) */
    void expect(const std::function<unsigned(Res*)>& want, const char* where);
};

/* ------------------------------------------------------------ descriptors, mappings */
std::map<int, std::string> fds();                         /* /proc/self/fd of this process */
std::string fd_identity(int fd);                          /* dev:ino:type, or "closed" */
void expect_fds(const std::map<int, std::string>& before, const char* where);
size_t mapped_bytes();                                    /* mappings made through --wrap=mmap still live */
size_t mapped_count();
bool mapping_of(const void* p, uintptr_t* base, size_t* len);  /* the library's mapping holding p */
extern long mmap_fail_at;                                 /* fail the k-th mmap by the library (0 = off) */
extern long mmap_calls;
extern long munmap_fail_at, munmap_failed;                  /* report failure for the k-th munmap from now on (0 = off); how often that happened */
extern size_t mmap_slack;                                  /* extra room kept below mappings made from now on */

/* Run fn in a forked child: violations, event counts and the log come back to this
 * process; descriptors, limits and memory changed there do not. */
void in_child(const std::function<void()>& fn, const char* what);
bool is_child();

int main_impl(int argc, char** argv);
}  // namespace mon
