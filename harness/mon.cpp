#include "mon.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <mutex>
#include <atomic>
#include <algorithm>
#include <sys/wait.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif

namespace mon {

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

static std::string g_prop, g_out, g_kinds;
static std::string g_log;
static size_t g_logged;
static uint64_t g_loghash;
static std::recursive_mutex g_mu;
static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_distinct;
static uint64_t g_cases, g_nontrivial;
static std::vector<std::string> g_samples;
static std::string g_scn;
static uint64_t g_idx, g_n;
static int g_outfd = -1, g_progfd = -1;
thread_local int quiet_depth = 0;
uint64_t Res::release_seq = 0;

const char* current_prop() { return g_prop.c_str(); }
bool prop_is(const char* p) { return g_prop == p; }

static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o;
}

static void emit(const std::string& s) {
    if (g_outfd < 0) { fputs(s.c_str(), stdout); fflush(stdout); return; }
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = ::write(g_outfd, s.data() + off, s.size() - off);
        if (n <= 0) break;
        off += (size_t)n;
    }
}

static void flush_stats() {
    std::lock_guard<std::recursive_mutex> l(g_mu);
    std::string s = "{\"t\":\"stats\",\"cases\":" + std::to_string(g_cases) +
        ",\"nontrivial\":" + std::to_string(g_nontrivial) + ",\"counts\":{";
    bool first = true;
    for (auto& k : g_counts) {
        if (!first) s += ",";
        first = false;
        s += "\"" + k.first + "\":" + std::to_string(k.second);
    }
    s += "},\"samples\":[";
    for (size_t i = 0; i < g_samples.size(); ++i) s += (i ? ",\"" : "\"") + esc(g_samples[i]) + "\"";
    s += "],\"distinct\":[";
    first = true;
    for (uint64_t h : g_distinct) {
        if (!first) s += ",";
        first = false;
        s += std::to_string(h);
    }
    s += "]}\n";
    emit(s);
    g_counts.clear(); g_samples.clear(); g_distinct.clear(); g_cases = g_nontrivial = 0;
}

struct Child { int state; char kind[16]; char key[128]; char msg[2048]; uint32_t nlog, ncount; char log[48000]; char counts[12000]; };
static Child* g_child;
bool is_child() { return g_child != nullptr; }
static void child_out() {
    g_child->nlog = (uint32_t)std::min(g_log.size(), sizeof g_child->log);
    memcpy(g_child->log, g_log.data() + (g_log.size() - g_child->nlog), g_child->nlog);
    std::string s;
    for (auto& k : g_counts) { std::string t = k.first + " " + std::to_string(k.second) + "\n"; if (s.size() + t.size() > sizeof g_child->counts) break; s += t; }
    g_child->ncount = (uint32_t)s.size(); memcpy(g_child->counts, s.data(), s.size());
}

void fail(const char* kind, const char* key, const char* fmt, ...) {
    char msg[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    g_mu.lock();
    if (g_child) {
        child_out();
        snprintf(g_child->kind, sizeof g_child->kind, "%s", kind); snprintf(g_child->key, sizeof g_child->key, "%s", key);
        snprintf(g_child->msg, sizeof g_child->msg, "%s", msg);
        g_child->state = 2;
        _exit(3);
    }
    std::string s = "{\"t\":\"viol\",\"kind\":\"" + std::string(kind) + "\",\"key\":\"" + esc(key) +
        "\",\"msg\":\"" + esc(msg) + "\",\"scenario\":\"" + g_scn + "\",\"idx\":" + std::to_string(g_idx) +
        ",\"log\":\"" + esc(g_log) + "\"}\n";
    flush_stats();
    emit(s);
    _exit(3);
}

void inconclusive(const char* why) {
    g_mu.lock();
    flush_stats();
    emit("{\"t\":\"inconclusive\",\"why\":\"" + esc(why) + "\",\"scenario\":\"" + g_scn + "\",\"idx\":" + std::to_string(g_idx) + "}\n");
    _exit(5);
}

void log(const char* fmt, ...) {
    char b[512];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    std::lock_guard<std::recursive_mutex> l(g_mu);
    for (int i = 0; i < n; ++i) g_loghash = (g_loghash ^ (unsigned char)b[i]) * 0x100000001b3ull;
    if (g_log.size() > 24000) g_log.erase(0, 12000);
    g_log.append(b, n); g_log += "; ";
    ++g_logged;
}
uint64_t log_hash() { return mix(g_loghash, g_logged); }

void count(const char* what, uint64_t n) { std::lock_guard<std::recursive_mutex> l(g_mu); g_counts[what] += n; }
void maxof(const char* what, uint64_t v) {
    std::lock_guard<std::recursive_mutex> l(g_mu);
    auto& x = g_counts[std::string("max_") + what]; if (v > x) x = v;
}
void nontrivial(uint64_t h) {
    std::lock_guard<std::recursive_mutex> l(g_mu);
    ++g_nontrivial;
    if (g_distinct.size() < 400000) g_distinct.insert(h);
    if (g_samples.size() < 2 && g_log.size() < 1500) g_samples.push_back(g_scn + "#" + std::to_string(g_idx) + ": " + g_log);
}

/* ---------------------------------------------------------------- allocator */
static const size_t GUARD =
#if defined(__SANITIZE_ADDRESS__)
    0;
#else
    32;
#endif
static std::mutex g_amu;

#ifdef MON_VG       /* run under valgrind: the allocator's junk is not initialised data, and fibers have stacks of their own */
#include <valgrind/memcheck.h>
static std::map<void*, unsigned> g_vg_stack;
static void vg_undefined(void* p, size_t n) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void vg_stack(void* p, size_t n) { g_vg_stack[p] = VALGRIND_STACK_REGISTER(p, (char*)p + n - 1); }
static void vg_unstack(void* p) { auto i = g_vg_stack.find(p); if (i != g_vg_stack.end()) { VALGRIND_STACK_DEREGISTER(i->second); g_vg_stack.erase(i); } }
#else
static void vg_undefined(void*, size_t) {}
static void vg_stack(void*, size_t) {}
static void vg_unstack(void*) {}
#endif

static void* raw_alloc(size_t n, unsigned char junk) {
    unsigned char* p = (unsigned char*)malloc(n + 2 * GUARD + (n == 0 && !GUARD));
    if (!p) return nullptr;
    memset(p, 0xFD, GUARD);
    memset(p + GUARD, junk, n);
    memset(p + GUARD + n, 0xFD, GUARD);
    vg_undefined(p + GUARD, n);
    return p + GUARD;
}
static void raw_free(void* v, size_t n) {
    unsigned char* p = (unsigned char*)v - GUARD;
    for (size_t i = 0; i < GUARD; ++i)
        if (p[i] != 0xFD || p[GUARD + n + i] != 0xFD)
            fail("mem", "guard_overwritten", "bytes outside a %zu byte block were written", n);
    memset(v, 0xDD, n);
    free(p);
}

/* blocks whose addresses agree in the lower 32 bits */
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);
static const uintptr_t FAR_LO = 0x200000000000, FAR_N = 12288;
static const size_t FAR_AT = 2048, FAR_MAX = 1500;
static bool is_far(void* p) { return (uintptr_t)p >= FAR_LO && (uintptr_t)p < FAR_LO + (FAR_N << 32) && (uint32_t)(uintptr_t)p == FAR_AT; }
static void* far_alloc(size_t n, unsigned char junk) {
    static uint64_t seq = 0;
    if (n > FAR_MAX) return nullptr;
    for (int i = 0; i < 50; ++i) {
        void* at = (void*)(FAR_LO + ((seq++ * 7919) % FAR_N << 32));
        void* p = __real_mmap(at, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) continue;
        if (p != at) { __real_munmap(p, 4096); continue; }
        unsigned char* b = (unsigned char*)p; memset(b, 0xFD, 4096); memset(b + FAR_AT, junk, n); vg_undefined(b + FAR_AT, n);
        return b + FAR_AT;
    }
    return nullptr;
}
static void far_free(void* v, size_t n) {
    unsigned char* b = (unsigned char*)v - FAR_AT;
    for (size_t i = 0; i < 4096; ++i) if ((i < FAR_AT || i >= FAR_AT + n) && b[i] != 0xFD) fail("mem", "guard_overwritten", "bytes outside a %zu byte block were written", n);
    __real_munmap(b, 4096);
}

static bool inject(Alloc* A) {
    if (A->before_alloc) A->before_alloc();
    ++A->attempts;
    if (A->fail_at && (A->attempts == A->fail_at || (A->persist && A->attempts > A->fail_at))) {
        ++A->injected;
        return true;
    }
    return false;
}

static status a_release(RCPR_SYM(resource)* r) { ((Alloc*)r)->released++; return STATUS_SUCCESS; }
static status a_allocate(RCPR_SYM(allocator)* a, void** ptr, size_t size) {
    Alloc* A = (Alloc*)a;
    std::lock_guard<std::mutex> l(g_amu);
    if (inject(A)) { *ptr = nullptr; return ERROR_GENERAL_OUT_OF_MEMORY; }
    if (size > A->biggest) A->biggest = size;
    if (size > A->limit) { ++A->refused; *ptr = nullptr; return ERROR_GENERAL_OUT_OF_MEMORY; }
    void* p = A->spread ? far_alloc(size, A->junk) : nullptr;
    if (!p) p = raw_alloc(size, A->junk);
    if (!p) { ++A->refused; *ptr = nullptr; return ERROR_GENERAL_OUT_OF_MEMORY; }
    A->live[p] = {size, ++A->seq};
    ++A->n_alloc;
    *ptr = p;
    return STATUS_SUCCESS;
}
static status a_reclaim(RCPR_SYM(allocator)* a, void* ptr) {
    Alloc* A = (Alloc*)a;
    std::lock_guard<std::mutex> l(g_amu);
    auto i = A->live.find(ptr);
    if (i == A->live.end())
        fail("mem", "bad_reclaim", "block %p reclaimed which is not live in this allocator (double free or foreign block)", ptr);
    if (A->on_reclaim) A->on_reclaim(ptr, i->second.size);
    size_t n = i->second.size;
    A->live.erase(i);
    ++A->n_reclaim;
    is_far(ptr) ? far_free(ptr, n) : raw_free(ptr, n);
    ++A->rec_n;
    if (A->rec_fail_at && (A->rec_n == A->rec_fail_at || (A->rec_persist && A->rec_n > A->rec_fail_at))) { ++A->rec_injected; return 0x7C01; }
    return STATUS_SUCCESS;
}
static status a_reallocate(RCPR_SYM(allocator)* a, void** ptr, size_t size) {
    Alloc* A = (Alloc*)a;
    std::lock_guard<std::mutex> l(g_amu);
    auto i = A->live.find(*ptr);
    if (i == A->live.end())
        fail("mem", "bad_reallocate", "block %p reallocated which is not live in this allocator", *ptr);
    if (inject(A)) return ERROR_GENERAL_OUT_OF_MEMORY;
    if (size > A->biggest) A->biggest = size;
    if (size > A->limit) { ++A->refused; return ERROR_GENERAL_OUT_OF_MEMORY; }
    void* p = A->spread ? far_alloc(size, A->junk) : nullptr;
    if (!p) p = raw_alloc(size, A->junk);
    if (!p) { ++A->refused; return ERROR_GENERAL_OUT_OF_MEMORY; }
    size_t old = i->second.size;
    memcpy(p, *ptr, old < size ? old : size);
    is_far(*ptr) ? far_free(*ptr, old) : raw_free(*ptr, old);
    A->live.erase(i);
    A->live[p] = {size, ++A->seq};
    ++A->n_alloc; ++A->n_reclaim;
    *ptr = p;
    return STATUS_SUCCESS;
}
static status a_control(RCPR_SYM(allocator)*, int, void*, size_t) { return ERROR_GENERAL_CONTROL_KEY_INVALID; }
RCPR_VTABLE RCPR_SYM(allocator_vtable) mon_alloc_vtable = {
    .hdr = {&a_release}, .allocate_fn = &a_allocate, .reclaim_fn = &a_reclaim,
    .reallocate_fn = &a_reallocate, .control_fn = &a_control};

Alloc::Alloc() {
    memset(&a, 0, sizeof a);
    resource_init(&a.hdr, &mon_alloc_vtable.hdr);
    a.context = this;
}
Alloc::~Alloc() { for (auto& b : live) if (is_far(b.first)) __real_munmap((char*)b.first - FAR_AT, 4096); else free((char*)b.first - GUARD); }
size_t Alloc::bytes() const { size_t t = 0; for (auto& b : live) t += b.second.size; return t; }
void Alloc::expect_empty(const char* where) {
    if (!live.empty()) {
        std::string s;
        for (auto& b : live) { s += " " + std::to_string(b.second.size) + "B(#" + std::to_string(b.second.seq) + ")"; if (s.size() > 200) break; }
        fail("mem", (std::string("leak@") + where).c_str(), "%zu blocks never returned to their allocator:%s", live.size(), s.c_str());
    }
    CHECK(released == 0, "mem", "allocator_released", "the caller's allocator was released by the library");
    count("blocks_checked", n_alloc);
}
void* Alloc::take(size_t n) {
    void* p = nullptr; uint64_t f = fail_at; fail_at = 0; uint64_t at = attempts;
    if (a_allocate(&a, &p, n) != STATUS_SUCCESS) { fprintf(stderr, "harness oom\n"); _exit(6); }
    fail_at = f; attempts = at;
    return p;
}
void Alloc::give(void* p) { (void)!a_reclaim(&a, p); }

/* ---------------------------------------------------------------- resources */
static status res_release(RCPR_SYM(resource)* r) {
    Res* x = Res::of(r);
    x->released++;
    x->released_at = ++Res::release_seq;
    if (x->released > 1) fail("mem", "double_release", "resource %d released %u times", x->id, x->released);
    count("resource_releases");
    if (x->hook) x->hook(x);
    return x->on_release;
}
RCPR_VTABLE RCPR_SYM(resource_vtable) mon_res_vtable = {&res_release};
Res::Res(int i) : id(i) { self = this; resource_init(&hdr, &mon_res_vtable); }
void ResPool::expect(const std::function<unsigned(Res*)>& want, const char* where) {
    for (auto* r : all) {
        unsigned w = want(r);
        if (r->released != w)
            fail("mem", r->released < w ? (std::string("not_released@") + where).c_str() : (std::string("wrongly_released@") + where).c_str(),
                 "resource %d released %u times, expected %u (%s)", r->id, r->released, w, where);
    }
}

/* ---------------------------------------------------------------- fds */
std::string fd_identity(int fd) {
    struct stat st;
    if (fstat(fd, &st) < 0) return "closed";
    char b[128];
    snprintf(b, sizeof b, "%lx:%lx:%o", (long)st.st_dev, (long)st.st_ino, st.st_mode & S_IFMT);
    return b;
}
std::map<int, std::string> fds() {
    std::map<int, std::string> m;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return m;
    int self = dirfd(d);
    while (struct dirent* e = readdir(d)) {
        if (e->d_name[0] == '.') continue;
        int f = atoi(e->d_name);
        if (f == self) continue;
        m[f] = fd_identity(f);
    }
    closedir(d);
    return m;
}
void expect_fds(const std::map<int, std::string>& before, const char* where) {
    auto now = fds();
    for (auto& k : now)
        if (!before.count(k.first))
            fail("mem", (std::string("fd_leak@") + where).c_str(), "descriptor %d (%s) left open", k.first, k.second.c_str());
    for (auto& k : before)
        if (!now.count(k.first))
            fail("mem", (std::string("fd_lost@") + where).c_str(), "descriptor %d (%s), not the library's to close, was closed", k.first, k.second.c_str());
        else if (now[k.first] != k.second)
            fail("mem", (std::string("fd_replaced@") + where).c_str(), "descriptor %d now refers to another file", k.first);
}

/* ---------------------------------------------------------------- mappings */
static std::map<void*, size_t> g_maps;
static std::map<void*, size_t> g_slack;
size_t mmap_slack = 0;
long mmap_fail_at = 0, mmap_calls = 0, munmap_fail_at = 0, munmap_failed = 0;
static std::mutex g_mmu;
size_t mapped_bytes() { std::lock_guard<std::mutex> l(g_mmu); size_t t = 0; for (auto& m : g_maps) t += m.second; return t; }
bool mapping_of(const void* p, uintptr_t* base, size_t* len) {
    std::lock_guard<std::mutex> l(g_mmu);
    for (auto& m : g_maps)
        if ((uintptr_t)p >= (uintptr_t)m.first && (uintptr_t)p < (uintptr_t)m.first + m.second) {
            *base = (uintptr_t)m.first; *len = m.second; return true;
        }
    return false;
}
size_t mapped_count() { std::lock_guard<std::mutex> l(g_mmu); return g_maps.size(); }
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    std::lock_guard<std::mutex> l(g_mmu);
    ++mmap_calls;
    if (mmap_fail_at && mmap_calls == mmap_fail_at) { errno = ENOMEM; return MAP_FAILED; }
    size_t slack = mmap_slack;
    void* p = __real_mmap(addr, len + slack, prot, flags, fd, off);
    if (p != MAP_FAILED) {
#ifdef __SANITIZE_ADDRESS__
        __asan_unpoison_memory_region(p, slack);
#endif
        p = (char*)p + slack;
        g_maps[p] = len; if (slack) g_slack[p] = slack;
        vg_stack(p, len);
#ifdef __SANITIZE_ADDRESS__
        __asan_unpoison_memory_region(p, (len + 4095) & ~(size_t)4095);
#endif
    }
    return p;
}
int __wrap_munmap(void* p, size_t len) {
    std::lock_guard<std::mutex> l(g_mmu);
    auto i = g_maps.find(p);
    if (i == g_maps.end() || i->second != len)
        fail("mem", "bad_munmap", "munmap of %p,%zu which is not a mapping the library made", p, len);
#ifdef __SANITIZE_ADDRESS__
    __asan_unpoison_memory_region(p, (len + 4095) & ~(size_t)4095);
#endif
    vg_unstack(p);
    size_t slack = g_slack.count(p) ? g_slack[p] : 0;
#ifdef __SANITIZE_ADDRESS__
    __asan_unpoison_memory_region((char*)p - slack, slack);
#endif
    int r = __real_munmap((char*)p - slack, len + slack);
    if (r == 0) { g_maps.erase(i); g_slack.erase(p); }
    if (munmap_fail_at > 0 && --munmap_fail_at == 0) { ++munmap_failed; errno = ENOMEM; return -1; }   /* the room is given back all the same, so nothing piles up here */
    return r;
}
}

/* ---------------------------------------------------------------- children */
void in_child(const std::function<void()>& fn, const char* what) {
    static Child* sh = nullptr;
    if (!sh) sh = (Child*)__real_mmap(nullptr, sizeof(Child), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, 64);
    sh->state = 0; sh->nlog = sh->ncount = 0;
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork failed\n"); _exit(6); }
    if (p == 0) {
        g_child = sh; g_counts.clear(); g_log.clear();
        fn();
        g_mu.lock();
        child_out();
        sh->state = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    std::string lg(sh->log, sh->nlog);
    {
        std::lock_guard<std::recursive_mutex> l(g_mu);
        for (unsigned char ch : lg) g_loghash = (g_loghash ^ ch) * 0x100000001b3ull;
        if (g_log.size() < 24000) g_log += lg;
        ++g_logged;
        std::string cs(sh->counts, sh->ncount); size_t i = 0;
        while (i < cs.size()) {
            size_t e = cs.find('\n', i), sp = cs.rfind(' ', e); std::string k = cs.substr(i, sp - i); uint64_t v = strtoull(cs.c_str() + sp, 0, 10);
            if (k.compare(0, 4, "max_") == 0) { auto& x = g_counts[k]; if (v > x) x = v; } else g_counts[k] += v;
            i = e + 1;
        }
    }
    if (sh->state == 2) fail(sh->kind, sh->key, "%s", sh->msg);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) inconclusive("child killed");
    if (sh->state != 1) fail("mem", (std::string("child_died@") + what).c_str(), "the process running %s ended with status 0x%x", what, st);
}

/* ---------------------------------------------------------------- runner */
static void on_alarm(int) {
    if (g_child) _exit(4);
    char b[256];
    int n = snprintf(b, sizeof b, "{\"t\":\"hang\",\"scenario\":\"%s\",\"idx\":%llu}\n", g_scn.c_str(), (unsigned long long)g_idx);
    if (g_outfd >= 0) (void)!::write(g_outfd, b, n); else (void)!::write(1, b, n);
    _exit(4);
}

int main_impl(int argc, char** argv) {
    uint64_t seed = 1, from = 0, to = 1, step = 1;
    bool thorough = false;
    unsigned tmo = 30;
    std::string only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") g_prop = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--step") step = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--out") g_out = val();
        else if (a == "--timeout") tmo = (unsigned)atoi(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--progress") g_progfd = open(val().c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s %s %u\n", s.name, s.props, s.weight); return 0; }
    }
    if (!g_out.empty()) {
        g_outfd = open(g_out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        /* keep our own descriptors out of the way of the low numbers */
        int hi = fcntl(g_outfd, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { close(g_outfd); g_outfd = hi; }
    }
    if (g_progfd >= 0) { int hi = fcntl(g_progfd, F_DUPFD_CLOEXEC, 901); if (hi >= 0) { close(g_progfd); g_progfd = hi; } }
    std::vector<const Scenario*> sel;
    for (auto& s : scenarios()) {
        std::string p = std::string(" ") + s.props + " ";
        if (p.find(" " + g_prop + " ") == std::string::npos) continue;
        if (!only.empty() && only != s.name) continue;
        for (unsigned w = 0; w < s.weight; ++w) sel.push_back(&s);
    }
    if (sel.empty()) { fprintf(stderr, "no scenario for %s\n", g_prop.c_str()); return 7; }
    /* static order of scenarios must not depend on link order */
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK; sigaction(SIGALRM, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    /* index of a case within its scenario: round * weight + offset */
    std::vector<unsigned> slot(sel.size());
    for (size_t i = 0; i < sel.size(); ++i) { unsigned k = 0; for (size_t j = 0; j < i; ++j) if (sel[j] == sel[i]) ++k; slot[i] = k; }
    for (uint64_t i = from; i < to; i += step) {
        size_t si = i % sel.size();
        const Scenario* s = sel[si];
        g_scn = s->name; g_idx = i; g_n = (i / sel.size()) * s->weight + slot[si];
        { std::lock_guard<std::recursive_mutex> l(g_mu); g_log.clear(); g_logged = 0; g_loghash = 0xcbf29ce484222325ull; }
        if (g_progfd >= 0) (void)!pwrite(g_progfd, &i, 8, 0);
        uint64_t h = 0x1234567;
        for (const char* q = s->name; *q; ++q) h = mix(h, (unsigned char)*q);
        Ctx c; c.n = g_n; c.thorough = thorough; c.rng = Rng(mix(mix(h, seed), g_n));
        alarm(tmo);
        s->fn(c);
        alarm(0);
        ++g_cases;
        count((std::string("scenario_") + s->name).c_str());
    }
    flush_stats();
    emit("{\"t\":\"done\"}\n");
    return 0;
}
}  // namespace mon

int main(int argc, char** argv) { return mon::main_impl(argc, argv); }
