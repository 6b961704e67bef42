/* allocators, strings, uuid, bigint, auto-reset trigger */
#include "mon.h"
#ifdef MON_VG
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#else
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif
#include <algorithm>
#include <string>
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/string.h>
#include <rcpr/uuid.h>
#include "src/bigint/bigint_internal.h"

RCPR_IMPORT_auto_reset_trigger;
RCPR_IMPORT_bigint;
RCPR_IMPORT_string_as(rs);
RCPR_IMPORT_uuid;
using namespace mon;

/* ------------------------------------------------------------ C04 */
static uint8_t pat(uint64_t tag, size_t i) { return (uint8_t)(mix(tag, i / 8) >> (8 * (i % 8))); }
struct Blk { uint8_t* p; size_t n; uint64_t tag; };
static void fill(Blk& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = pat(b.tag, i); }
static void check(const Blk& b, const char* op) {
    for (size_t i = 0; i < b.n; ++i)
        if (b.p[i] != pat(b.tag, i)) fail("sem", "contents", "after %s byte %zu of a live %zu byte block changed", op, i, b.n);
}
static size_t hostile_size(Rng& R) {
    static const size_t t[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 8, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX - 17, SIZE_MAX - 64, SIZE_MAX / 2, SIZE_MAX / 2 + 1,
                               (size_t)1 << 63, ((size_t)1 << 63) - 1, (size_t)1 << 62, (size_t)1 << 48};
    if (R.chance(1, 2)) return t[R(sizeof t / sizeof *t)];
    return SIZE_MAX - R(R.chance(1, 2) ? 300 : 70000);
}

SCENARIO("C04 C01 C32 C35", bump, 3) {
    Rng& R = c.rng;
    size_t shift = R(2) * 8, sz = R.chance(1, 8) ? R(140) : R.chance(1, 2) ? R.range(80, 1500) : R.range(100, 9000);
    /* region of exactly sz bytes inside a block of exactly shift+sz: AddressSanitizer guards both ends */
    std::vector<uint8_t> pre(shift, 0xEE);
    uint8_t* base = (uint8_t*)malloc(shift + sz + (shift + sz == 0));
    memset(base, 0xEE, shift + sz);
    uint8_t* reg = base + shift;
    RCPR_SYM(allocator)* a = (RCPR_SYM(allocator)*)0x1;
    log("bump %zu+%zu", shift, sz);
    status rc = bump_allocator_create(&a, reg, sz);
    if (rc != STATUS_SUCCESS) {
        SEM(a == nullptr, "out_not_null", "bump_allocator_create failed but left its output pointer set");
        SEM(sz < 256, "create_refused", "a %zu byte region was refused", sz);
        count("regions_refused");
        free(base);
        return;
    }
    uint8_t* end = reg + sz;
    uint8_t* hi = (uint8_t*)a;                       /* end of the last block handed out */
    size_t hdr = 0; bool hdr_known = false;          /* first usable offset, learned from the first block */
    std::vector<Blk> live;
    std::vector<std::pair<size_t, long>> since;      /* requests since the last reset and the offset each got */
    std::vector<std::pair<size_t, long>> first;      /* those of the first epoch */
    size_t epoch = 0, ops = R.range(5, 60), ok = 0, refused = 0;
    uint64_t tag = 1;
    for (size_t i = 0; i < ops; ++i) {
        switch (R(12)) {
            case 0: {
                log("reset");
                OK(allocator_control(a, RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET, nullptr, 0), "reset");
                live.clear(); hi = hdr_known ? reg + hdr : (uint8_t*)a;
                if (epoch == 0) first = since;
                ++epoch;
                since.clear();
                /* the first request served by the fresh region must be served again, at the same place */
                if (!first.empty()) {
                    void* p = (void*)0x1;
                    status s = allocator_allocate(a, &p, first[0].first);
                    if (first[0].second >= 0) {
                        SEM(s == STATUS_SUCCESS, "reset_capacity", "after a reset a %zu byte request that the fresh region served is refused", first[0].first);
                        Blk b{(uint8_t*)p, first[0].first, ++tag}; fill(b); live.push_back(b); hi = b.p + b.n;
                    } else SEM(s != STATUS_SUCCESS, "reset_capacity", "a reset made the region larger");
                }
                break; }
            case 1: {
                int key = R.chance(1, 2) ? (int)R.next() : R.chance(1, 2) ? (int)R(4096) - 1024 : RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET ^ (1 << R(31));
                if (R.chance(1, 1500)) for (int q = -70000; q < 70000; ++q) if (q != RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET) SEM(allocator_control(a, q, nullptr, 0) == ERROR_GENERAL_CONTROL_KEY_INVALID, "control", "unknown control key %d accepted", q);
                if (key == RCPR_ALLOCATOR_CONTROL_BUMP_ALLOCATOR_RESET) break;
                log("control");
                SEM(allocator_control(a, key, nullptr, 0) == ERROR_GENERAL_CONTROL_KEY_INVALID, "control", "unknown control key %d accepted", key);
                break; }
            case 2: {
                if (live.empty()) break;
                Blk& b = live[R(live.size())];
                void* p = b.p;
                log("realloc");
                status s = allocator_reallocate(a, &p, R.chance(1, 3) ? hostile_size(R) : R.size(3000));
                if (s == STATUS_SUCCESS) {
                    fail("sem", "bump_realloc", "region-backed allocator claims to have reallocated");
                }
                SEM(p == b.p, "realloc_ptr", "failed reallocation changed the caller's pointer");
                break; }
            case 3: {
                if (live.empty()) break;
                size_t k = R(live.size());
                log("reclaim");
                check(live[k], "reclaim");
                OK(allocator_reclaim(a, live[k].p), "reclaim");
                live.erase(live.begin() + k);
                break; }
            default: {
                size_t left = (size_t)(end - hi);
                size_t n = R.chance(1, 6) ? hostile_size(R) : R.chance(1, 3) ? (left + 40 > 80 ? left - 40 + R(80) : R(80)) : R.size(sz);
                if (R.chance(1, 2) && n < ((size_t)1 << 40)) n = R(64);
                void* p = (void*)0x1;
                log("alloc %zu", n);
                status s = allocator_allocate(a, &p, n);
                if (s == STATUS_SUCCESS) {
                    ++ok;
                    uint8_t* q = (uint8_t*)p;
                    SEM(p != nullptr, "null_success", "success with a null block");
                    SEM(q >= reg && q <= end && n <= (size_t)(end - q), "outside_region", "block of %zu bytes does not lie in the %zu byte region", n, sz);
                    SEM((uintptr_t)q % 16 == 0, "alignment", "block is not 16-byte aligned");
                    SEM(q >= (uint8_t*)a + sizeof(RCPR_SYM(allocator)), "overlap", "block overlaps the allocator itself");
                    Blk b{q, n, ++tag};
                    for (auto& o : live)
                        SEM(n == 0 || o.n == 0 || q + n <= o.p || o.p + o.n <= q, "overlap", "new block overlaps a live block");
                    if (!hdr_known) { hdr = q - reg; hdr_known = true; }
                    fill(b); live.push_back(b);
                    if (q + n > hi) hi = q + n;
                    since.push_back({n, q - reg});
                } else {
                    ++refused;
                    SEM(s == ERROR_GENERAL_OUT_OF_MEMORY, "oom_status", "refused with 0x%x", s);
                    SEM(p == nullptr, "oom_ptr", "failed allocation left the pointer set");
                    SEM(n >= left || left - n < (hi == (uint8_t*)a ? 256 : 128), "spurious_oom", "%zu bytes refused with %zu free", n, left);
                    if (hi != (uint8_t*)a) SEM(n >= left || left - n < 33, "spurious_oom", "%zu bytes refused with %zu free", n, left);
                    since.push_back({n, -1});
                }
            }
        }
        for (auto& b : live) check(b, "an operation");
        for (size_t k = 0; k < shift; ++k) SEM(base[k] == 0xEE, "outside_write", "byte before the region was written");
    }
    count("bump_allocs", ok); count("bump_refused", refused);
    OK(resource_release(allocator_resource_handle(a)), "release");
    free(base);
    if (ok >= 3) nontrivial(log_hash());
}

SCENARIO("C04 C01 C32 C35", malloc_alloc, 2) {
    Rng& R = c.rng;
    RCPR_SYM(allocator)* a = nullptr;
    OK(malloc_allocator_create(&a), "create");
    std::vector<Blk> live;
    uint64_t tag = 1;
    size_t ops = R.range(5, 60);
    for (size_t i = 0; i < ops; ++i) {
        switch (R(6)) {
            case 0: case 1: {
                size_t n = R.chance(1, 10) ? hostile_size(R) : R.size(R.chance(1, 10) ? 200000 : 600);
                void* p = (void*)0x1;
                log("alloc %zu", n);
                status s = allocator_allocate(a, &p, n);
                if (n >= ((size_t)1 << 48)) {
                    SEM(s == ERROR_GENERAL_OUT_OF_MEMORY, "huge", "allocation of %zu bytes returned 0x%x", n, s);
                    SEM(p == nullptr, "oom_ptr", "failed allocation left the pointer set");
                    count("malloc_refused");
                    break;
                }
                SEM(s == STATUS_SUCCESS, "alloc", "allocation of %zu bytes failed 0x%x", n, s);
                Blk b{(uint8_t*)p, n, ++tag};
                SEM(p && (n < 16 || (uintptr_t)p % 16 == 0), "alignment", "block is not aligned");
                for (auto& o : live) SEM(b.p + n <= o.p || o.p + o.n <= b.p || !n || !o.n, "overlap", "new block overlaps a live block");
                fill(b); live.push_back(b);
                count("malloc_allocs");
                break; }
            case 2: case 3: {
                if (live.empty()) break;
                Blk& b = live[R(live.size())];
                size_t n = R.chance(1, 8) ? hostile_size(R) : R.chance(1, 10) ? 0 : R.size(2000);
                void* p = b.p;
                log("realloc %zu->%zu", b.n, n);
                status s = allocator_reallocate(a, &p, n);
                if (s != STATUS_SUCCESS) {
                    SEM(p == b.p, "realloc_ptr", "failed reallocation changed the caller's pointer");
                    SEM(n >= ((size_t)1 << 48) || n == 0, "realloc", "reallocation to %zu failed 0x%x", n, s);
                    count("realloc_failures");
                    check(b, "a failed reallocation");
                    break;
                }
                SEM(n < ((size_t)1 << 48), "huge", "reallocation to %zu succeeded", n);
                Blk o{(uint8_t*)p, std::min(b.n, n), b.tag};
                check(o, "reallocation");
                b = Blk{(uint8_t*)p, n, b.tag};
                fill(b);
                count("reallocs");
                break; }
            case 4: {
                if (live.empty()) break;
                size_t k = R(live.size());
                log("reclaim");
                check(live[k], "reclaim");
                OK(allocator_reclaim(a, live[k].p), "reclaim");
                live.erase(live.begin() + k);
                break; }
            case 5:
                log("control");
                SEM(allocator_control(a, R.chance(1, 2) ? (int)R(40) : (int)R.next(), nullptr, 0) == ERROR_GENERAL_CONTROL_KEY_INVALID, "control", "unknown control key accepted");
        }
        for (auto& b : live) check(b, "an operation");
    }
    for (auto& b : live) OK(allocator_reclaim(a, b.p), "reclaim");
    OK(resource_release(allocator_resource_handle(a)), "release");
    /* a whole life gives everything back to the heap */
    std::vector<void*> v; v.reserve(8);
    size_t heap = __sanitizer_get_current_allocated_bytes();
    OK(malloc_allocator_create(&a), "create");
    for (size_t i = R(5); i-- > 0;) { void* p; OK(allocator_allocate(a, &p, 1 + R.size(500)), "alloc"); v.push_back(p); }
    for (void*& p : v) if (R.chance(1, 2)) OK(allocator_reallocate(a, &p, 1 + R.size(900)), "realloc");
    for (void* p : v) OK(allocator_reclaim(a, p), "reclaim");
    OK(resource_release(allocator_resource_handle(a)), "release");
    size_t now = __sanitizer_get_current_allocated_bytes();
    SEM(now == heap, "heap_leak", "creating, using and releasing an allocator left %zd bytes of the heap in use", (ssize_t)(now - heap));
    nontrivial(log_hash());
}

/* ------------------------------------------------------------ strings */
/* NUL-terminated string in a block of exactly its size */
struct Str {
    char* p; size_t n;
    explicit Str(const std::string& s) : n(s.size()) { p = (char*)malloc(n + 1); memcpy(p, s.c_str(), n + 1); }
    ~Str() { free(p); }
};
static const char WS[] = " \t\n\v\f\r";
static bool ws(unsigned char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
static std::string rnd(Rng& R, size_t max) {
    size_t n = R.chance(1, 12) ? R(4) : R.size(max);
    std::string s;
    unsigned mode = R(6);
    while (s.size() < n) {
        switch (mode) {
            case 0: s += (char)R.range(1, 255); break;
            case 1: s += WS[R(6)]; break;
            case 2: s += R.chance(1, 2) ? WS[R(6)] : (char)R.range('a', 'c'); break;
            case 3: { size_t k = R.range(1, 5); char ch = R.chance(1, 2) ? WS[R(6)] : (char)R.range('a', 'd'); while (k-- && s.size() < n) s += ch; break; }
            case 4: s += (char)"ab \x1f\x08\x0e!\xa0\x85\x7f"[R(10)]; break;
            default: s += (char)R.range('a', 'b');
        }
    }
    return s;
}
/* every string up to length 4 over a 5-letter alphabet, then random ones */
static std::string nth(Ctx& c, size_t max) {
    static const char AL[] = {' ', '\n', 'a', 'b', '\v'};
    uint64_t k = c.n;
    size_t len = 0; uint64_t tot = 1;
    while (len <= 4 && k >= tot) { k -= tot; ++len; tot *= 5; }
    if (len <= 4) { std::string s; for (size_t i = 0; i < len; ++i) { s += AL[k % 5]; k /= 5; } return s; }
    return rnd(c.rng, max);
}
static void slog(const char* op, const std::string& s) {
    std::string o; for (unsigned char ch : s.substr(0, 60)) { char b[5]; if (ch < 33 || ch > 126) snprintf(b, 5, "%%%02x", ch); else snprintf(b, 5, "%c", ch); o += b; }
    log("%s '%s'(%zu,%llx)", op, o.c_str(), s.size(), (unsigned long long)std::hash<std::string>()(s));
}

SCENARIO("C11 C01 C35", trim, 4) {
    Rng& R = c.rng;
    std::string s = nth(c, R.chance(1, 20) ? 5000 : 40);
    size_t l = 0, r = s.size();
    while (l < s.size() && ws(s[l])) ++l;
    while (r > l && ws(s[r - 1])) --r;
    size_t r2 = s.size(); while (r2 > 0 && ws(s[r2 - 1])) --r2;
    slog("trim", s);
    { Str t(s); RCPR_SYM(left_trim)(t.p);
      SEM(std::string(t.p) == s.substr(l), "left_trim", "left trim of %zu chars gave '%.40s'", s.size(), t.p); }
    { Str t(s); RCPR_SYM(right_trim)(t.p);
      SEM(std::string(t.p) == s.substr(0, r2), "right_trim", "right trim of %zu chars gave '%.40s'", s.size(), t.p); }
    { Str t(s); RCPR_SYM(trim)(t.p);
      SEM(std::string(t.p) == s.substr(l, r - l), "trim", "trim of %zu chars gave '%.40s'", s.size(), t.p); }
    { Str t(s); RCPR_SYM(chomp)(t.p);
      SEM(std::string(t.p) == s.substr(0, s.empty() ? 0 : s.size() - 1), "chomp", "chomp of %zu chars gave '%.40s'", s.size(), t.p); }
    count("strings");
    nontrivial(log_hash());
}
SCENARIO("C11 C01 C35", predicates, 2) {
    Rng& R = c.rng;
    std::string s = nth(c, R.chance(1, 20) ? 2000 : 40), pre;
    switch (R(6)) {
        case 4: pre = s.substr(0, R(s.size() + 1)); if (!pre.empty()) { size_t at = R.chance(1, 2) ? pre.size() - 1 : R(pre.size()); pre[at] ^= 1 << R(8); if (!pre[at]) pre[at] = 'x'; } break;
        case 5: s += rnd(R, 300) + "q"; pre = s; pre.back() ^= R.chance(1, 2) ? 0x20 : 0x80; if (!pre.back()) pre.back() = 'z'; break;
        case 0: pre = s.substr(0, R(s.size() + 1)); break;
        case 1: pre = s + rnd(R, 3); break;
        case 2: pre = s.substr(0, R(s.size() + 1)); if (!pre.empty()) pre[R(pre.size())] ^= 1 + R(3); if (pre.find('\0') != pre.npos) pre = "x"; break;
        default: pre = rnd(R, 5);
    }
    slog("sw", s); slog("pre", pre);
    Str t(s), q(pre);
    bool want = s.compare(0, pre.size(), pre) == 0 && pre.size() <= s.size();
    SEM(RCPR_SYM(starts_with)(t.p, q.p) == want, "starts_with", "starts_with gave %d for '%.30s' / '%.30s'", !want, t.p, q.p);
    for (int k = 0; k < 8; ++k) {
        int ch = k == 0 && !s.empty() ? s.back() : k == 1 && s.size() > 1 ? s[s.size() - 2] : R.chance(1, 4) ? -(int)R.range(1, 128) : (int)R.range(1, 127);
        if (!ch) continue;
        bool w = !s.empty() && s.back() == (char)ch;
        SEM(RCPR_SYM(ends_with)(t.p, ch) == w, "ends_with", "ends_with gave %d for 0x%x", !w, ch);
    }
    for (int ch = -300; ch < 300; ++ch) {
        bool w = ch == ' ' || (ch >= 9 && ch <= 13);
        SEM(RCPR_SYM(is_whitespace)(ch) == w, "is_whitespace", "is_whitespace(%d) gave %d", ch, !w);
    }
    SEM(std::string(t.p) == s && std::string(q.p) == pre, "modified", "a predicate modified its argument");
    nontrivial(log_hash());
}

static unsigned g_seps[256 / 32];
static bool is_sep(int ch) { unsigned char u = (unsigned char)ch; return g_seps[u / 32] >> (u % 32) & 1; }
static int g_eq;                 /* a token function written as ch == 'x' */
static bool is_eq(int ch) { return ch == g_eq; }
static void iterate(Ctx& c, bool multi) {
    Rng& R = c.rng;
    std::string s = nth(c, R.chance(1, 20) ? 5000 : 60);
    bool eq = false;
    auto sep = [&](unsigned char ch) { return multi ? is_sep(ch) : ws(ch); };
    if (multi) {
        memset(g_seps, 0, sizeof g_seps);
        size_t k = R(5);
        for (size_t i = 0; i < k; ++i) {
            unsigned ch = s.empty() || R.chance(1, 3) ? R.range(1, 255) : (unsigned char)s[R(s.size())];
            g_seps[ch / 32] |= 1u << (ch % 32);
        }
        eq = R.chance(1, 4);
        if (eq) { char e = s.empty() ? (char)R.range(1, 255) : s[R(s.size())]; g_eq = e; memset(g_seps, 0, sizeof g_seps); g_seps[(unsigned char)e / 32] |= 1u << ((unsigned char)e % 32); }
        else if (R.chance(1, 10)) memset(g_seps, 0xff, sizeof g_seps);
        for (unsigned i = 0; i < 8; ++i) log("%x", g_seps[i]);
    }
    slog(multi ? "multisplit" : "words", s);
    std::vector<std::pair<size_t, size_t>> want;
    for (size_t i = 0; i < s.size();) {
        if (sep(s[i])) { ++i; continue; }
        size_t b = i; while (i < s.size() && !sep(s[i])) ++i;
        want.push_back({b, i - b});
    }
    Str t(s);
    RCPR_SYM(string_iterator)* it = (RCPR_SYM(string_iterator)*)malloc(sizeof *it);
    memset(it, 0x5a, sizeof *it);
    const char* key = multi ? "multisplit" : "words";
    for (size_t i = 0; i <= want.size() + 2; ++i) {
        const char* w = (const char*)0x1;
        char* arg = i == 0 ? t.p : nullptr;
        status rc = multi ? RCPR_SYM(multisplit)(&w, it, arg, i == 0 ? eq ? &is_eq : &is_sep : nullptr) : RCPR_SYM(words)(&w, it, arg);
        if (i < want.size()) {
            SEM(rc == STATUS_SUCCESS, key, "piece %zu of %zu not returned (0x%x)", i, want.size(), rc);
            SEM(w >= t.p && w <= t.p + t.n, key, "piece %zu points outside the string", i);
            SEM((size_t)(w - t.p) == want[i].first && strlen(w) == want[i].second && !memcmp(w, s.data() + want[i].first, want[i].second),
                key, "piece %zu is '%.30s' at %zd, expected %zu bytes at %zu", i, w, w - t.p, want[i].second, want[i].first);
        } else {
            SEM(rc == ERROR_STRING_END_OF_INPUT, key, "after the last piece the iterator returned 0x%x", rc);
            SEM(w == nullptr, key, "end of input left the piece pointer set");
        }
    }
    /* pieces returned earlier stay intact; non-separator bytes are never changed */
    for (size_t i = 0; i < s.size(); ++i)
        if (!sep(s[i])) SEM(t.p[i] == s[i], key, "byte %zu of the string was changed", i);
    for (auto& w : want) SEM(strlen(t.p + w.first) == w.second, key, "an earlier piece is no longer terminated");
    free(it);
    count("pieces", want.size());
    if (want.size() > 1) nontrivial(log_hash());
}
SCENARIO("C12 C01 C35", words, 3) { iterate(c, false); }
SCENARIO("C12 C01 C35", multisplit, 3) { iterate(c, true); }
SCENARIO("C12 C01 C32 C35", split, 2) {
    Rng& R = c.rng;
    std::string s = nth(c, 60);
    int d = s.empty() || R.chance(1, 4) ? R.chance(1, 3) ? -(int)R.range(1, 128) : (int)R.range(1, 127) : s[R(s.size())];
    if (!d) d = ' ';
    slog("split", s); log("%d", d);
    Str t(s);
    const char* l = (const char*)0x1; const char* r = (const char*)0x1;
    status rc = RCPR_SYM(split)(&l, &r, t.p, d);
    size_t at = s.find((char)d);
    if (at == s.npos) {
        SEM(rc == ERROR_STRING_END_OF_INPUT, "split", "split without the delimiter returned 0x%x", rc);
        SEM(!l && !r, "split", "split without the delimiter set its outputs");
        SEM(s == t.p, "split", "split without the delimiter changed the string");
    } else {
        SEM(rc == STATUS_SUCCESS, "split", "split returned 0x%x", rc);
        SEM(l == t.p && s.substr(0, at) == l, "split", "left part is '%.30s'", l);
        SEM(r == t.p + at + 1 && s.substr(at + 1) == r, "split", "right part is '%.30s'", r);
    }
    nontrivial(log_hash());
}

SCENARIO("C13 C01 C35", strdup, 1) {
    Alloc A;
    std::string s = nth(c, c.rng.chance(1, 10) ? 70000 : 100);
    slog("strdup", s);
    Str t(s);
    char* o = (char*)0x1;
    OK(RCPR_SYM(strdup)(&o, A, t.p), "strdup");
    SEM(A.size_of(o) == s.size() + 1, "strdup_size", "the copy is not a block of %zu bytes", s.size() + 1);
    SEM(o[s.size()] == 0 && s == o, "strdup", "the copy differs");
    SEM(s == t.p, "strdup_input", "the input was modified");
    SEM(A.live.size() == 1, "strdup_blocks", "%zu blocks live", A.live.size());
    for (int k = 0; k < 3; ++k) {
        char* q = (char*)0x1;
        status rc = k == 0 ? RCPR_SYM(strdup)(&q, A, nullptr) : k == 1 ? RCPR_SYM(strdup)(&q, nullptr, t.p) : RCPR_SYM(strdup)(nullptr, A, t.p);
        SEM(rc != STATUS_SUCCESS, "strdup_null", "null argument accepted");
        if (k < 2) SEM(q == nullptr, "strdup_null", "failed duplication left its output set");
    }
    OK(allocator_reclaim(A, o), "reclaim");
    A.expect_empty("strdup");
    nontrivial(log_hash());
}
static status cat(char** o, Alloc& A, const std::vector<Str*>& v) {
#define V(i) ((i) < v.size() ? v[i]->p : nullptr)
    switch (v.size()) {
        case 0: return rs_strcatv(o, A, nullptr);
        case 1: return rs_strcatv(o, A, V(0), nullptr);
        case 2: return rs_strcatv(o, A, V(0), V(1), nullptr);
        case 3: return rs_strcatv(o, A, V(0), V(1), V(2), nullptr);
        case 4: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), nullptr);
        case 5: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), V(4), nullptr);
        case 6: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), V(4), V(5), nullptr);
        case 7: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), V(4), V(5), V(6), nullptr);
        case 8: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), V(4), V(5), V(6), V(7), nullptr);
        case 12: return rs_strcatv(o, A, V(0), V(1), V(2), V(3), V(4), V(5), V(6), V(7), V(8), V(9), V(10), V(11), nullptr);
        default: {                      /* up to 96; whatever follows the first null is not looked at */
#define V8(i) V(i), V(i + 1), V(i + 2), V(i + 3), V(i + 4), V(i + 5), V(i + 6), V(i + 7)
#define V32(i) V8(i), V8(i + 8), V8(i + 16), V8(i + 24)
            return rs_strcatv(o, A, V32(0), V32(32), V32(64), nullptr);
        }
    }
#undef V32
#undef V8
#undef V
}
SCENARIO("C13 C01 C02 C32 C35", strcatv, 3) {
    Rng& R = c.rng;
    Alloc A;
    std::vector<Str*> v; std::string want;
    size_t n = R(10); if (n == 9) n = R.chance(1, 3) ? 12 : R.range(13, 96);
    std::vector<std::string> in;
    for (size_t i = 0; i < n; ++i) {
        std::string s = R.chance(1, 5) ? "" : rnd(R, R.chance(1, 10) ? 5000 : 40);
        if (i && R.chance(1, 8)) { s = in[R(i)]; if (R.chance(1, 2)) { v.push_back(v[R(i)]); s = v.back()->p; want += s; in.push_back(s); continue; } }   /* equal to, or the same object as, an earlier one */
        v.push_back(new Str(s)); want += s; in.push_back(s);
        log("%zu", s.size());
    }
    slog("strcatv", want);
    char* o = (char*)0x1;
    if (prop_is("C02") || R.chance(1, 10)) {
        A.arm(1);
        SEM(cat(&o, A, v) != STATUS_SUCCESS, "oom_success", "concatenation succeeded without memory");
        A.disarm();
        SEM(o == nullptr || o == (char*)0x1, "out_not_null", "a failed concatenation set its output");
        A.expect_empty("strcatv_oom");
        count("injected");
    }
    o = (char*)0x1;
    OK(cat(&o, A, v), "strcatv");
    SEM(A.size_of(o) == want.size() + 1, "strcatv_size", "the result is not a block of %zu bytes", want.size() + 1);
    SEM(!memcmp(o, want.c_str(), want.size() + 1), "strcatv", "the concatenation of %zu strings is wrong", n);
    for (size_t i = 0; i < n; ++i) SEM(in[i] == v[i]->p, "strcatv_input", "input %zu was modified", i);
    OK(allocator_reclaim(A, o), "reclaim");
    A.expect_empty("strcatv");
    { std::set<Str*> once(v.begin(), v.end()); for (auto* s : once) delete s; }
    if (n > 1) nontrivial(log_hash());
}

/* ------------------------------------------------------------ uuid */
static std::string uuid_text(const uint8_t* d) {
    char b[40]; int k = 0;
    for (int i = 0; i < 16; ++i) {
        if (i == 4 || i == 6 || i == 8 || i == 10) b[k++] = '-';
        b[k++] = "0123456789abcdef"[d[i] >> 4]; b[k++] = "0123456789abcdef"[d[i] & 15];
    }
    return std::string(b, 36);
}
static bool uuid_valid(const std::string& s) {
    if (s.size() != 36) return false;
    for (size_t i = 0; i < 36; ++i) {
        unsigned char ch = s[i];
        if (i == 8 || i == 13 || i == 18 || i == 23) { if (ch != '-') return false; }
        else if (!((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'))) return false;
    }
    return true;
}
static void uuid_parse(const std::string& text, const uint8_t* want, bool canonical) {
    for (int raw = 0; raw < 2; ++raw) {
        bool has_nul = text.find('\0') != text.npos;
        if (!raw && has_nul) continue;
        char* p = (char*)malloc(text.size() + !raw + (text.empty() && raw));
        memcpy(p, text.data(), text.size());
        if (!raw) p[text.size()] = 0;
        RCPR_SYM(rcpr_uuid)* u = (RCPR_SYM(rcpr_uuid)*)malloc(sizeof *u);
        memset(u, 0xC3, sizeof *u);
        status rc = raw ? rcpr_uuid_parse_raw_string(u, p, text.size()) : rcpr_uuid_parse_string(u, p);
        const char* key = raw ? "uuid_parse_raw" : "uuid_parse";
        if (canonical) {
            SEM(rc == STATUS_SUCCESS, key, "valid text '%s' rejected 0x%x", text.c_str(), rc);
            SEM(!memcmp(u->data, want, 16), key, "'%s' parsed to other bytes", text.c_str());
            count("uuid_accepted");
        } else {
            SEM(rc == ERROR_UUID_PARSING_FAILED, key, "malformed text '%.60s' (%zu bytes) gave 0x%x", text.c_str(), text.size(), rc);
            for (int i = 0; i < 16; ++i) SEM(u->data[i] == 0xC3, key, "failed parse modified the caller's identifier");
            count("uuid_rejected");
        }
        free(p); free(u);
    }
}
static void uuid_text_check(const RCPR_SYM(rcpr_uuid)& u) {
    Alloc A; char* o = (char*)0x1; std::string t = uuid_text(u.data);
    OK(rcpr_uuid_to_string(&o, A, &u), "to_string");
    SEM(A.size_of(o) == 37, "uuid_size", "text is not in a block of 37 bytes");
    SEM(o[36] == 0 && t == o, "uuid_to_string", "formatted as '%.36s', expected '%s'", o, t.c_str());
    OK(allocator_reclaim(A, o), "reclaim");
    A.expect_empty("uuid");
}
/* identifiers that differ from the one before in one nibble only, and the same one again */
SCENARIO("C14 C35", uuid_near, 1) {
    Rng& R = c.rng;
    RCPR_SYM(rcpr_uuid) u, first; for (auto& b : u.data) b = (uint8_t)R(256); first = u;
    for (size_t i = 0; i < 40; ++i) {
        if (i) { size_t at = (c.n + i) % 16; u.data[at] ^= (uint8_t)(R.range(1, 15) << (R(2) * 4)); }
        if (R.chance(1, 10)) u = first;
        uuid_text_check(u);
        std::string t = uuid_text(u.data); if (R.chance(1, 3)) for (auto& ch : t) if (R.chance(1, 2)) ch = (char)toupper(ch);
        uuid_parse(t, u.data, true);
        if (R.chance(1, 4)) { t[R(36)] = "gG-:\x01"[R(5)]; if (!uuid_valid(t)) uuid_parse(t, u.data, false); }
        slog("near", t);
    }
    nontrivial(log_hash());
}
SCENARIO("C14 C01 C32 C35", uuid, 1) {
    Rng& R = c.rng;
    RCPR_SYM(rcpr_uuid) u;
    for (int i = 0; i < 16; ++i) u.data[i] = R.chance(1, 4) ? (uint8_t)(R(2) * 255) : (uint8_t)R(256);
    if (c.n < 512) u.data[c.n % 16] = (uint8_t)(c.n / 2);
    std::string t = uuid_text(u.data);
    uuid_text_check(u);
    std::string m = t;
    unsigned style = R(3);
    for (auto& ch : m) if (style == 1 || (style == 2 && R.chance(1, 2))) ch = (char)toupper(ch);
    slog("uuid", m);
    uuid_parse(m, u.data, true);
    /* one malformed text of each kind; position and byte enumerated by the case number */
    size_t pos = c.n % 36; unsigned char byte = (unsigned char)(c.n / 36);
    std::string x = m; x[pos] = (char)byte;
    if (!uuid_valid(x)) uuid_parse(x, u.data, false);
    x = m; x[R(36)] = "gGxz-:`/@ \x7f"[R(11)];
    if (!uuid_valid(x)) uuid_parse(x, u.data, false);
    uuid_parse(m.substr(0, pos), u.data, false);
    uuid_parse(m + std::string(1, (char)R.range(1, 255)), u.data, false);
    uuid_parse(m + m, u.data, false);
    uuid_parse(m.substr(1), u.data, false);
    uuid_parse("{" + m + "}", u.data, false);
    uuid_parse(" " + m, u.data, false);
    x = m; x.erase(std::remove(x.begin(), x.end(), '-'), x.end()); uuid_parse(x, u.data, false);
    x = m; std::swap(x[pos], x[(pos + 1) % 36]); if (!uuid_valid(x)) uuid_parse(x, u.data, false);
    { RCPR_SYM(rcpr_uuid) v; memset(&v, 0xC3, sizeof v);
      char* p = (char*)malloc(36); memcpy(p, m.data(), 36);
      size_t len = R(36); 
      SEM(rcpr_uuid_parse_raw_string(&v, p, len) != STATUS_SUCCESS, "uuid_parse_raw", "length %zu accepted", len);
      SEM(v.data[0] == 0xC3 && v.data[15] == 0xC3, "uuid_parse_raw", "failed parse modified the caller's identifier");
      free(p); }
    nontrivial(log_hash());
}

/* ------------------------------------------------------------ bigint */
SCENARIO("C15 C01 C32 C35", bigint, 1) {
    Rng& R = c.rng;
    Alloc A, B; Alloc* al[2] = {&A, &B};
    struct V { RCPR_SYM(bigint)* b; std::vector<uint64_t> d; bool sign; Alloc* a; };
    std::vector<V> vs;
    /* storage must be all zero when it is handed back */
    void* digits = nullptr; bool wiped = true; bool seen = false;
    for (auto* x : al) x->on_reclaim = [&](void* p, size_t n) {
        if (p != digits) return;
        seen = true;
        for (size_t i = 0; i < n; ++i) if (((uint8_t*)p)[i]) wiped = false;
    };
    auto verify = [&](const char* op) {
        for (auto& v : vs) {
            SEM(v.b->length == v.d.size(), "bigint_width", "after %s a number is %zu words wide, expected %zu", op, v.b->length, v.d.size());
            SEM(v.b->sign == v.sign, "bigint_sign", "after %s a sign changed", op);
            SEM(v.a->size_of(v.b->array) == v.d.size() * 8, "bigint_storage", "storage of a %zu word number is %zu bytes", v.d.size(), v.a->size_of(v.b->array));
            for (size_t i = 0; i < v.d.size(); ++i) SEM(v.b->array[i] == v.d[i], "bigint_value", "after %s word %zu of a number is wrong", op, i);
        }
    };
    size_t ops = R.range(3, 25);
    for (size_t i = 0; i < ops; ++i) {
        switch (R(4)) {
            case 0: {
                size_t bits = R.chance(1, 2) ? R(300) : R.chance(1, 6) ? R(100000) : 64 * R(20) + R(3) - (R(2));
                if (bits > 1000000) bits = 0;
                V v{nullptr, {}, false, al[R(2)]};
                v.b = (RCPR_SYM(bigint)*)0x1;
                log("zero %zu", bits);
                v.a->junk = (unsigned char)R.range(1, 255);
                OK(bigint_create_zero(&v.b, *v.a, bits), "create");
                v.d.assign((bits + 63) / 64, 0);
                vs.push_back(v);
                break; }
            case 1: {
                if (vs.empty()) break;
                V s = vs[R(vs.size())];
                V v = s; v.a = al[R(2)]; v.b = (RCPR_SYM(bigint)*)0x1;
                log("clone");
                OK(bigint_clone(&v.b, *v.a, s.b), "clone");
                SEM(v.b != s.b && (v.d.empty() || v.b->array != s.b->array), "bigint_alias", "a clone shares storage with its source");
                vs.push_back(v);
                count("clones");
                break; }
            case 2: {
                if (vs.empty()) break;
                V& v = vs[R(vs.size())];
                log("mutate");
                for (size_t k = 0; k < v.d.size(); ++k) if (R.chance(1, 2)) v.b->array[k] = v.d[k] = R.next();
                if (R.chance(1, 2)) v.b->sign = v.sign = !v.sign;
                break; }
            case 3: {
                if (vs.empty()) break;
                size_t k = R(vs.size());
                V v = vs[k]; vs.erase(vs.begin() + k);
                log("release");
                digits = v.b->array; wiped = true; seen = false;
                OK(resource_release(bigint_resource_handle(v.b)), "release");
                SEM(wiped && seen, "bigint_wipe", "digits were returned to the allocator without being wiped");
                digits = nullptr;
                break; }
        }
        verify("an operation");
    }
    for (auto& v : vs) {
        digits = v.b->array; wiped = true; seen = false;
        OK(resource_release(bigint_resource_handle(v.b)), "release");
        SEM(wiped && seen, "bigint_wipe", "digits were returned to the allocator without being wiped");
    }
    for (auto* x : al) { x->on_reclaim = nullptr; x->expect_empty("bigint"); }
    if (vs.size() > 0 || ops > 5) nontrivial(log_hash());
}

/* ------------------------------------------------------------ trigger */
struct Trig {
    RCPR_SYM(auto_reset_trigger)* t; Rng* R; Ctx* c;
    bool sig = false, reg = false; void* ctx = nullptr; int which = 0;   /* model */
    int fired = 0, expect = -1, depth = 0; unsigned fires = 0;
    bool reentrant = true;
    void act(unsigned k);
    void step();
};
static Trig* g_t;
static void cb(int which, void* ctx) {
    Trig& T = *g_t;
    SEM(T.expect >= 0, "trigger_spurious", "the callback ran without both a signal and a registration");
    SEM(T.expect == which && ctx == T.ctx, "trigger_context", "the wrong callback or context was used");
    T.expect = -1;
    ++T.fired; ++T.fires;
    T.sig = T.reg = false;
    count("fired");
    if (T.reentrant && T.depth < 4) {
        ++T.depth;
        size_t k = (*T.R)(4);
        for (size_t i = 0; i < k; ++i) { log("in:"); T.act((*T.R)(4)); }
        --T.depth;
    }
}
static void cb0(void* x) { cb(0, x); }
static void cb1(void* x) { cb(1, x); }
void Trig::step() {
    bool due = sig && reg;
    log("step%d", due);
    expect = due ? which : -1;
    int f = fired;
    auto_reset_trigger_step(t);
    SEM(expect == -1, "trigger_lost", "a step after a signal and a registration did not fire the callback");
    SEM(due ? fired > f : fired == f, "trigger_count", "a step fired %d times, expected %d", fired - f, due);
}
void Trig::act(unsigned k) {
    switch (k) {
        case 0: log("signal"); auto_reset_trigger_signal(t); sig = true; break;
        case 1: {
            int w = (int)(*R)(2); void* x = (void*)(uintptr_t)R->range(0, 5);
            log("reg%d", w);
            status rc = auto_reset_trigger_register(t, w ? cb1 : cb0, x);
            if (reg) SEM(rc == ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED, "trigger_register", "a second registration returned 0x%x", rc);
            else { SEM(rc == STATUS_SUCCESS, "trigger_register", "registration refused 0x%x", rc); reg = true; which = w; ctx = x; }
            break; }
        default: step();
    }
}
SCENARIO("C16 C01 C32 C35", trigger, 1) {
    Alloc A; Trig T; g_t = &T; T.R = &c.rng; T.c = &c;
    A.junk = 0xff;
    T.reentrant = c.rng.chance(2, 3);
    OK(auto_reset_trigger_create(&T.t, A), "create");
    size_t n = c.rng.range(3, 40);
    for (size_t i = 0; i < n; ++i) T.act(c.rng(4));
    T.step(); T.step();
    OK(resource_release(auto_reset_trigger_resource_handle(T.t)), "release");
    A.expect_empty("trigger");
    if (T.fires) nontrivial(log_hash());
}

/* ------------------------------------------------------------ C02 */
SCENARIO("C02 C01 C35", basics_oom, 1) {
    Rng& R = c.rng;
    Alloc A, A2; bool cross = R.chance(1, 2);    /* a clone may live elsewhere than its source */
    Str s(rnd(R, 50));
    RCPR_SYM(rcpr_uuid) u; for (auto& b : u.data) b = (uint8_t)R(256);
    RCPR_SYM(bigint)* src = nullptr;
    size_t bits = R(2000);
    OK(bigint_create_zero(&src, cross ? A2 : A, bits), "create");
    unsigned op = R(5); size_t k = R.range(1, 3); bool pers = R.chance(1, 2);
    log("op%u k%zu %d bits%zu", op, k, pers, bits);
    static const char* nm[] = {"strdup", "uuid_to_string", "bigint_create_zero", "bigint_clone", "trigger_create"};
    for (int round = 0; round < 2; ++round) {
        void* out = (void*)0x1;
        status rc = 0;
        if (round == 0) A.arm(k, pers);
        size_t before = A.live.size();
        switch (op) {
            case 0: rc = RCPR_SYM(strdup)((char**)&out, A, s.p); break;
            case 1: rc = rcpr_uuid_to_string((char**)&out, A, &u); break;
            case 2: rc = bigint_create_zero((RCPR_SYM(bigint)**)&out, A, bits); break;
            case 3: rc = bigint_clone((RCPR_SYM(bigint)**)&out, A, src); break;
            case 4: rc = auto_reset_trigger_create((RCPR_SYM(auto_reset_trigger)**)&out, A); break;
        }
        A.disarm();
        if (round == 0 && A.injected) {
            count("injected");
            SEM(rc != STATUS_SUCCESS, "oom_success", "%s succeeded although an allocation failed", nm[op]);
            SEM(out == nullptr, "out_not_null", "%s failed but left its output pointer set", nm[op]);
            CHECK(A.live.size() == before, "mem", "leak@oom", "%s leaked on failure", nm[op]);
            nontrivial(log_hash());
        } else {
            SEM(rc == STATUS_SUCCESS, "retry_failed", "%s failed 0x%x with memory available", nm[op], rc);
            if (op < 2) OK(allocator_reclaim(A, out), "reclaim");
            else OK(resource_release(op < 4 ? bigint_resource_handle((RCPR_SYM(bigint)*)out) : auto_reset_trigger_resource_handle((RCPR_SYM(auto_reset_trigger)*)out)), "release");
            if (round == 0) break;
        }
    }
    OK(resource_release(bigint_resource_handle(src)), "release");
    A.expect_empty("basics_oom"); A2.expect_empty("basics_oom");
}
