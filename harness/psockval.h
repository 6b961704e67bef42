/* Typed values, their documented encoding, and the calls that write and read them. */
#pragma once
#include "mon.h"
#include <rcpr/psock.h>
RCPR_IMPORT_psock;

namespace pv {
enum Kind { I8, U8, I16, U16, I32, U32, I64, U64, BOOL, STR, DATA, RI8, RU8, RI16, RU16, RI32, RU32, RI64, RU64, RBOOL, RDATA, KINDS };
inline bool boxed(int k) { return k <= DATA; }
inline const char* kname(int k) {
    static const char* n[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", "string", "data",
        "raw_int8", "raw_uint8", "raw_int16", "raw_uint16", "raw_int32", "raw_uint32", "raw_int64", "raw_uint64", "raw_bool", "raw_data"};
    return n[k];
}
inline uint32_t tag(int k) {
    static const uint32_t t[] = {0x16, 0x17, 0x14, 0x15, 0x12, 0x13, 0x10, 0x11, 0x18, 0x20, 0x22};
    return t[k];
}
/* width in bytes of a fixed-size kind, 0 for strings and blocks */
inline size_t width(int k) {
    if (k == STR || k == DATA || k == RDATA) return 0;
    int b = k >= RI8 ? k - RI8 : k;
    static const size_t w[] = {1, 1, 2, 2, 4, 4, 8, 8, 1};
    return w[b];
}
struct Val { int k; uint64_t u; std::string s; };

inline void be(std::string& o, uint64_t v, size_t w) { for (size_t i = w; i-- > 0;) o.push_back((char)(v >> (8 * i))); }
inline std::string encode(const Val& v) {
    std::string o;
    if (boxed(v.k)) be(o, tag(v.k), 4);
    if (v.k == STR || v.k == DATA) be(o, v.s.size(), 4);
    if (width(v.k)) be(o, v.u, width(v.k)); else o += v.s;
    return o;
}
inline uint64_t edge(mon::Rng& R, size_t w) {
    uint64_t v;
    switch (R(6)) {
        case 0: v = 0; break;
        case 1: v = ~0ull; break;
        case 2: v = 1ull << (8 * w - 1); break;
        case 3: v = (1ull << (8 * w - 1)) - 1; break;
        case 4: v = R(300); break;
        default: v = R.next();
    }
    return w == 8 ? v : v & ((1ull << (8 * w)) - 1);
}
inline Val make(mon::Rng& R, size_t maxlen) {
    Val v; v.k = (int)R(KINDS); v.u = 0;
    if (v.k == BOOL || v.k == RBOOL) v.u = R(2);
    else if (width(v.k)) v.u = edge(R, width(v.k));
    else {
        size_t n = R.size(maxlen); v.s.resize(n);
        uint64_t x = R.next();
        for (size_t i = 0; i < n; ++i) {
            if (i % 8 == 0) x = R.next();
            unsigned char ch = (unsigned char)(x >> (8 * (i % 8)));
            if (v.k == STR && ch == 0) ch = 1;
            v.s[i] = (char)ch;
        }
    }
    return v;
}
inline status write(psock* s, const Val& v) {
    switch (v.k) {
        case I8: return psock_write_boxed_int8(s, (int8_t)v.u);
        case U8: return psock_write_boxed_uint8(s, (uint8_t)v.u);
        case I16: return psock_write_boxed_int16(s, (int16_t)v.u);
        case U16: return psock_write_boxed_uint16(s, (uint16_t)v.u);
        case I32: return psock_write_boxed_int32(s, (int32_t)v.u);
        case U32: return psock_write_boxed_uint32(s, (uint32_t)v.u);
        case I64: return psock_write_boxed_int64(s, (int64_t)v.u);
        case U64: return psock_write_boxed_uint64(s, v.u);
        case BOOL: return psock_write_boxed_bool(s, v.u != 0);
        case STR: return psock_write_boxed_string(s, v.s.c_str());
        case DATA: return psock_write_boxed_data(s, v.s.data(), v.s.size());
        case RI8: return psock_write_raw_int8(s, (int8_t)v.u);
        case RU8: return psock_write_raw_uint8(s, (uint8_t)v.u);
        case RI16: return psock_write_raw_int16(s, (int16_t)v.u);
        case RU16: return psock_write_raw_uint16(s, (uint16_t)v.u);
        case RI32: return psock_write_raw_int32(s, (int32_t)v.u);
        case RU32: return psock_write_raw_uint32(s, (uint32_t)v.u);
        case RI64: return psock_write_raw_int64(s, (int64_t)v.u);
        case RU64: return psock_write_raw_uint64(s, v.u);
        case RBOOL: return psock_write_raw_bool(s, v.u != 0);
        default: return psock_write_raw_data(s, v.s.data(), v.s.size());
    }
}
/* Result of a read: value in v (kind k preset; for RDATA the size wanted in want).
 * Fails the case if a failing read touches the outputs. */
template <class T> inline status rd(status (*f)(psock*, T*), psock* s, mon::Rng& R, pv::Val& v) {
    T x = (T)R.next(), y = x;
    status rc = f(s, &x);
    if (rc != STATUS_SUCCESS) { if (x != y) mon::fail("sem", "out_touched", "a failing %s read (0x%x) changed the caller's variable", kname(v.k), rc); return rc; }
    v.u = (uint64_t)x;
    if (sizeof(T) < 8) v.u &= (1ull << (8 * sizeof(T))) - 1;
    return rc;
}
inline status rdb(status (*f)(psock*, bool*), psock* s, mon::Rng& R, pv::Val& v) {
    bool x = R(2), y = x;
    status rc = f(s, &x);
    unsigned char raw; memcpy(&raw, &x, 1);
    if (rc != STATUS_SUCCESS) { if (x != y) mon::fail("sem", "out_touched", "a failing %s read (0x%x) changed the caller's variable", kname(v.k), rc); return rc; }
    if (raw > 1) mon::fail("sem", "bool_value", "a %s read produced a bool holding %u", kname(v.k), raw);
    v.u = raw;
    return rc;
}
inline status read(psock* s, mon::Alloc& A, mon::Rng& R, Val& v, size_t want) {
    status rc;
    switch (v.k) {
        case I8: return rd<int8_t>(&psock_read_boxed_int8, s, R, v);
        case U8: return rd<uint8_t>(&psock_read_boxed_uint8, s, R, v);
        case I16: return rd<int16_t>(&psock_read_boxed_int16, s, R, v);
        case U16: return rd<uint16_t>(&psock_read_boxed_uint16, s, R, v);
        case I32: return rd<int32_t>(&psock_read_boxed_int32, s, R, v);
        case U32: return rd<uint32_t>(&psock_read_boxed_uint32, s, R, v);
        case I64: return rd<int64_t>(&psock_read_boxed_int64, s, R, v);
        case U64: return rd<uint64_t>(&psock_read_boxed_uint64, s, R, v);
        case BOOL: return rdb(&psock_read_boxed_bool, s, R, v);
        case RI8: return rd<int8_t>(&psock_read_raw_int8, s, R, v);
        case RU8: return rd<uint8_t>(&psock_read_raw_uint8, s, R, v);
        case RI16: return rd<int16_t>(&psock_read_raw_int16, s, R, v);
        case RU16: return rd<uint16_t>(&psock_read_raw_uint16, s, R, v);
        case RI32: return rd<int32_t>(&psock_read_raw_int32, s, R, v);
        case RU32: return rd<uint32_t>(&psock_read_raw_uint32, s, R, v);
        case RI64: return rd<int64_t>(&psock_read_raw_int64, s, R, v);
        case RU64: return rd<uint64_t>(&psock_read_raw_uint64, s, R, v);
        case RBOOL: return rdb(&psock_read_raw_bool, s, R, v);
        case STR: {
            char tok; char* p = &tok; size_t n = 0x5a5a5a;
            uint64_t blocks = A.live.size();
            rc = psock_read_boxed_string(s, A, &p, &n);
            if (rc != STATUS_SUCCESS) {
                if (p != &tok && p) mon::fail("sem", "ptr_on_failure", "a failing string read (0x%x) set the caller's pointer", rc);
                if (n != 0x5a5a5a) mon::fail("sem", "size_on_failure", "a failing string read (0x%x) set the caller's length to %zu", rc, n);
                if (A.live.size() != blocks) mon::fail("sem", "leak_on_failure", "a failing string read (0x%x) left %zd blocks more than before", rc, (ssize_t)(A.live.size() - blocks));
                return rc;
            }
            if (A.size_of(p) == (size_t)-1) mon::fail("sem", "string_block", "the string returned is not a block of the caller's allocator");
            if (A.size_of(p) < n + 1) mon::fail("sem", "string_block", "string of %zu bytes in a block of %zu", n, A.size_of(p));
            if (p[n]) mon::fail("sem", "string_nul", "string of %zu bytes is not NUL-terminated", n);
            v.s.assign(p, n);
            OK(RCPR_SYM(allocator_reclaim)(A.get(), p), "reclaim");
            return rc;
        }
        case DATA: case RDATA: {
            char tok; void* p = &tok; size_t n = 0x5a5a5a;
            uint64_t blocks = A.live.size();
            if (v.k == DATA) rc = psock_read_boxed_data(s, A, &p, &n);
            else { rc = psock_read_raw_data(s, A, &p, want); n = want; }
            if (rc != STATUS_SUCCESS) {
                if (p != &tok && p) mon::fail("sem", "ptr_on_failure", "a failing %s read (0x%x) set the caller's pointer", kname(v.k), rc);
                if (v.k == DATA && n != 0x5a5a5a) mon::fail("sem", "size_on_failure", "a failing data read (0x%x) set the caller's size to %zu", rc, n);
                if (A.live.size() != blocks) mon::fail("sem", "leak_on_failure", "a failing %s read (0x%x) left %zd blocks more than before", kname(v.k), rc, (ssize_t)(A.live.size() - blocks));
                return rc;
            }
            if (A.size_of(p) == (size_t)-1 || A.size_of(p) < n) mon::fail("sem", "data_block", "%zu bytes of data returned in a block of %zd", n, (ssize_t)A.size_of(p));
            v.s.assign((char*)p, n);
            OK(RCPR_SYM(allocator_reclaim)(A.get(), p), "reclaim");
            return rc;
        }
    }
    return -1;
}
inline std::string show(const std::string& s) {
    std::string o; char b[4];
    for (size_t i = 0; i < s.size() && i < 24; ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
    if (s.size() > 24) o += "...";
    return o;
}
inline void same(const Val& want, const Val& got, const char* where) {
    if (want.s.size() != got.s.size() || want.u != got.u || want.s != got.s)
        mon::fail("sem", (std::string("value_") + kname(want.k)).c_str(), "%s: %s written as 0x%llx %zu bytes %s, read back 0x%llx %zu bytes %s", where, kname(want.k),
            (unsigned long long)want.u, want.s.size(), show(want.s).c_str(), (unsigned long long)got.u, got.s.size(), show(got.s).c_str());
}
/* What a read of kind k at offset off of these bytes must give: 1 the value in v, 0 a failure, 2 either. adv = bytes consumed. */
inline int decode(const std::string& b, size_t off, int k, size_t want, Val& v, size_t& adv) {
    auto num = [&](size_t at, size_t w) { uint64_t x = 0; for (size_t i = 0; i < w; ++i) x = x << 8 | (unsigned char)b[at + i]; return x; };
    v.k = k; v.u = 0; v.s.clear();
    size_t p = off;
    if (boxed(k)) {
        if (b.size() - p < 4) return 0;
        if (num(p, 4) != tag(k)) return 0;
        p += 4;
    }
    size_t w = width(k);
    if (w) {
        if (b.size() - p < w) return 0;
        v.u = num(p, w); adv = p + w - off;
        if (k == BOOL || k == RBOOL) { bool odd = v.u > 1; v.u = v.u != 0; return odd ? 2 : 1; }
        return 1;
    }
    if (k == RDATA) w = want;
    else { if (b.size() - p < 4) return 0; w = num(p, 4); p += 4; }
    if (b.size() - p < w) return 0;
    v.s = b.substr(p, w); adv = p + w - off;
    return 1;
}
}  // namespace pv
