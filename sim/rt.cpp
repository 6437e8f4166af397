#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <clocale>
#include <locale>
#include <new>
#include <exception>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <linux/futex.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <stddef.h>

#define NOCOV __attribute__((no_sanitize("coverage")))
extern "C" { extern char __start_rtwrap, __stop_rtwrap; }
extern "C" { extern char __data_start, _end, __executable_start, etext; }

// ---- raw system calls: the only code allowed through the filter untrapped ------------------
extern "C" long rt_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char rt_raw_begin, rt_raw_end;
asm(".text\n.balign 64\n.globl rt_raw_begin\nrt_raw_begin:\n.globl rt_raw_syscall\n.type rt_raw_syscall,@function\nrt_raw_syscall:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\nnop\n"
    ".globl rt_raw_end\nrt_raw_end:\nnop\n");
static inline long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return rt_raw_syscall(nr, a, b, c, d, e, f); }

namespace rt {
Env env;
std::vector<int> rand_list;
uint64_t fired[16], console_faults, clock_reads, rand_draws, reseeds;
std::vector<Switch> recorded;
uint64_t static_hits, nswitch_total, steps_total, sig_interleaving = 1469598103934665603ull;
uint64_t step_budget = 4000000000ull;
bool want_sites = false;
uint64_t mem_errors;
char mem_error_first[256], free_error_first[256];
int out_fd = -1;
uint64_t event_hash = 1469598103934665603ull;
void (*on_abnormal)() = nullptr;
static bool child_ready = false;

struct Thr {
    int tid = -1, arena = 0;
    pthread_t th;
    std::atomic<int> go{0};
    int state = 0;                   // 0 none 1 idle 2 runnable 3 done (dynamic threads)
    bool active = false;             // inside a phase, preemptible
    int inlib = 0, inrt = 0;
    bool nofault = false, codec = false;
    uint64_t step = 0, trigger = ~0ull, budget_at = ~0ull;
    size_t list_pos = 0;
    std::vector<Switch> list;
    Op* acc = nullptr;
    int op = -1, attempt = 0;
    std::vector<Fault> faults;
    Body body = nullptr; void* arg = nullptr;
    bool quit = false;
    uintptr_t stk_lo = 0, stk_hi = 0;
    char* altstack = nullptr;
    void* (*dyn_fn)(void*) = nullptr; void* dyn_arg = nullptr; void* dyn_ret = nullptr; bool dynamic = false, detached = false;
};
constexpr int MAXALL = 60;
static Thr* thr[MAXALL];
static int nthr = 0;
static __thread Thr* me __attribute__((tls_model("local-exec"))) = nullptr;
static Thr main_thr;
static std::atomic<int> main_go{0};
static Sched sched;
static Rng srng;
static bool phase_on = false;
static uint64_t forced_idle = 0;
static double pct_left = 0;
static std::vector<uint64_t> pct_points;
static size_t pct_pos;
static uint64_t pct_total;

void hash_event(uint64_t v) { for (int i = 0; i < 8; i++) { event_hash ^= (v >> (i * 8)) & 255; event_hash *= 1099511628211ull; } }

static void fwait(std::atomic<int>& a) {
    while (a.load(std::memory_order_acquire) == 0) raw(SYS_futex, (long)&a, FUTEX_WAIT_PRIVATE, 0, 0);
    a.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); raw(SYS_futex, (long)&a, FUTEX_WAKE_PRIVATE, 1); }

struct RtScope { Thr* t; RtScope() : t(me) { if (t) t->inrt++; } ~RtScope() { if (t) t->inrt--; } };

// ---- output -----------------------------------------------------------------------------
static char obuf[1 << 16]; static size_t olen;
void out_flush() { size_t p = 0; while (p < olen) { long r = raw(SYS_write, out_fd, (long)(obuf + p), olen - p); if (r == -EINTR || r == -EAGAIN) continue; if (r <= 0) break; p += r; } olen = 0; }
static void out_raw(const char* s, size_t n) { if (olen + n > sizeof obuf) out_flush(); if (n > sizeof obuf) n = sizeof obuf; memcpy(obuf + olen, s, n); olen += n; }
void out(const std::string& l) { out_raw(l.data(), l.size()); out_raw("\n", 1); }

void fail_now(const char* kind, const std::string& detail) {
    if (me) me->inrt++;
    out_raw("X ", 2); out_raw(kind, strlen(kind)); out_raw(" ", 1);
    for (char c : detail) { char d = (c == '\n') ? ' ' : c; out_raw(&d, 1); }
    out_raw("\n", 1);
    char b[160]; int n = snprintf(b, sizeof b, "XT tid=%d op=%d attempt=%d step=%llu faults=%llu\n", me ? me->tid : -1, me ? me->op : -1, me ? me->attempt : 0, me ? (unsigned long long)me->step : 0ull, me && me->acc ? (unsigned long long)me->acc->faults : 0ull);
    out_raw(b, n);
    if (on_abnormal) on_abnormal();
    out_flush();
    raw(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---- heap -------------------------------------------------------------------------------
constexpr uintptr_t ABASE = 0x200000000000ull, ASTRIDE = 0x1000000000ull, ASIZE = 0x60000000ull, SBASE = 0x300000000000ull;
constexpr int NARENA = MAXT + 1;
struct alignas(16) Blk {
    uint32_t magic; int32_t arena; uint64_t size; uint64_t cap; uint64_t seq; Blk* next; Blk* prev; uint64_t site; uint32_t asite; uint16_t state; uint16_t off;  // asite: where it was last allocated; off: user - (char*)raw
};
static_assert(sizeof(Blk) == 64, "");
constexpr uint32_t MAGIC = 0xb10cb10c; constexpr uint32_t LIVE = 1, FREED = 2; constexpr int TAIL = 16;
struct Arena {
    uintptr_t lo = 0, hi = 0, bump = 0, top = 0;
    bool mapped = false;
    Blk live = {}; uint64_t nlive = 0, blive = 0;
    Blk* head[96] = {}; Blk* tail[96] = {};
    Rng rng;
};
static constinit Arena arenas[NARENA];
static uint64_t gseq = 0;
static std::atomic_flag hlock = ATOMIC_FLAG_INIT;
struct HLock { Thr* t; HLock() : t(me) { if (t) t->inrt++; while (hlock.test_and_set(std::memory_order_acquire)) raw(SYS_sched_yield); } ~HLock() { hlock.clear(std::memory_order_release); if (t) t->inrt--; } };

static int cls_of(size_t& sz) {                       // rounds sz to its class
    size_t n = (sz + 15) & ~size_t(15); if (n < 16) n = 16;
    if (n <= 512) { sz = n; return n / 16 - 1; }       // 0..31
    int c = 32; size_t b = 512;
    while (true) {                                    // four steps per doubling
        for (int i = 1; i <= 4; i++) { size_t lim = b + b / 4 * i; if (n <= lim) { sz = lim; return c + i - 1; } }
        b *= 2; c += 4; if (c > 92) { sz = (n + 4095) & ~size_t(4095); return 95; }
    }
}
static void arena_map(int i) {
    Arena& a = arenas[i];
    if (a.mapped) return;
    a.lo = ABASE + ASTRIDE * i; a.hi = a.lo + ASIZE;
    void* p = mmap((void*)a.lo, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a.lo) { const char m[] = "simulator: cannot map heap\n"; raw(SYS_write, 2, (long)m, sizeof m - 1); raw(SYS_exit_group, 97); }
    if (i > 0) {
        p = mmap((void*)(SBASE + ASTRIDE * i / 8), ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) raw(SYS_exit_group, 97);
    }
    a.bump = a.lo + 4096; a.top = a.hi - 4096;
    a.live.next = a.live.prev = &a.live;
    a.mapped = true;
}
static inline uint8_t* shadow(uintptr_t p) { return (uint8_t*)(SBASE + (p - ABASE) / 8); }
static void shadow_set(uintptr_t p, size_t n, bool ok) {
    uint8_t* s = shadow(p); size_t w = n / 8;
    memset(s, ok ? 8 : 0, w);
    if (n & 7) s[w] = ok ? (n & 7) : 0;
}
static inline int arena_of(const void* p) {
    uintptr_t u = (uintptr_t)p;
    if (u < ABASE || u >= ABASE + ASTRIDE * NARENA) return -1;
    int i = (u - ABASE) / ASTRIDE;
    return (arenas[i].mapped && u < arenas[i].hi) ? i : -1;
}
static void fill(uint8_t* p, size_t n, Rng& r, int mode, uint64_t seed) {
    switch (mode) {
        case 5: return;
        case 1: memset(p, 0, n); return;
        case 2: memset(p, 0xff, n); return;
        case 3: { uint64_t v = r.next() | 1; size_t i = 0; for (; i + 8 <= n; i += 8) { v = v * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = v >> 56; return; }
        case 4: { double d = 0.5 + (seed % 97); size_t i = 0; for (; i + 8 <= n; i += 8) { memcpy(p + i, &d, 8); d *= -1.25; if (d > 1e6 || d < -1e6) d = 0.75; } for (; i < n; i++) p[i] = 1; return; }
        default: memset(p, 0xa5 ^ (seed & 0x1f), n); return;
    }
}
static void mem_error(const char* what, const void* p, size_t n, uint64_t site) {
    RtScope s;
    mem_errors++;
    if (strstr(what, "free") && what[0] != 'w' && !free_error_first[0]) snprintf(free_error_first, sizeof free_error_first, "%s size=%zu pc=0x%llx tid=%d op=%d", what, n, (unsigned long long)site, me ? me->tid : -1, me ? me->op : -1);
    if (mem_errors == 1) {
        snprintf(mem_error_first, sizeof mem_error_first, "%s size=%zu pc=0x%llx tid=%d op=%d", what, n, (unsigned long long)site, me ? me->tid : -1, me ? me->op : -1);
    }
}
static uint8_t poison_byte() { return 0xd0 | (env.heap_seed & 15); }
static Blk* hdr(void* p) { return (Blk*)((char*)p - sizeof(Blk)); }

static void* arena_alloc(int ai, size_t size, size_t align, uint64_t site) {
    Arena& a = arenas[ai];
    arena_map(ai);
    size_t cap = size + TAIL; int c = cls_of(cap);
    Blk* b = nullptr; char* user = nullptr;
    if (align <= 16 && c != 95 && a.head[c] && env.heap_mode != 2) {
        if (env.heap_mode == 1) { b = a.tail[c]; } else { b = a.head[c]; }
        if (env.heap_mode == 3 && (a.rng.next() & 3) == 0) b = nullptr;
        if (env.heap_mode == 5) { unsigned k = a.rng.next() % 8; b = size >= 72 || k < 1 ? a.head[c] : k < 3 ? a.tail[c] : nullptr; }
        if (env.heap_mode == 6 || env.heap_mode == 7) {      // every place gets back what it released itself, oldest or newest first
            Blk* f = nullptr; int n = 0;
            for (Blk* x = env.heap_mode == 6 ? a.tail[c] : a.head[c]; x && n < 300; x = env.heap_mode == 6 ? x->prev : x->next, n++) if (x->asite == (uint32_t)site) { f = x; break; }
            b = f;
        }
        if (b) {
            if (b->prev) b->prev->next = b->next; else a.head[c] = b->next;
            if (b->next) b->next->prev = b->prev; else a.tail[c] = b->prev;
            user = (char*)b + sizeof(Blk);
            if (ai > 0) {
                uint8_t pb = poison_byte(); size_t n = b->cap < 4096 ? b->cap : 512;
                for (size_t i = 0; i < n; i++) if ((uint8_t)user[i] != pb) { mem_error("write-after-free", user + i, 1, b->site); break; }
            }
            cap = b->cap;
        }
    }
    if (!b) {
        size_t al = align < 16 ? 16 : align;
        size_t gap = env.heap_mode == 3 && ai > 0 ? (a.rng.next() % 64) * 16 : 0;
        if (env.heap_mode == 4 && ai > 0) {
            uintptr_t u = (a.top - cap - 64) & ~(uintptr_t)(al - 1);
            if (u - sizeof(Blk) <= a.bump) return nullptr;
            a.top = u - sizeof(Blk); user = (char*)u;
        } else {
            uintptr_t u = (a.bump + gap + sizeof(Blk) + al - 1) & ~(uintptr_t)(al - 1);
            if (u + cap + 64 >= a.top || cap > ASIZE) return nullptr;
            a.bump = (u + cap + 15) & ~(uintptr_t)15; user = (char*)u;
        }
        b = hdr(user);
        b->cap = cap;
    }
    b->magic = MAGIC; b->arena = ai; b->size = size; b->seq = ++gseq; b->site = site; b->asite = (uint32_t)site; b->state = LIVE; b->off = align > 16 ? 1 : 0;
    b->next = a.live.next; b->prev = &a.live; a.live.next->prev = b; a.live.next = b;
    a.nlive++; a.blive += size;
    if (ai > 0) {
        shadow_set((uintptr_t)user, size, true);
        memset(user + size, 0xc7, TAIL);
        fill((uint8_t*)user, size, a.rng, env.heap_fill, env.heap_seed);
    }
    return user;
}
static bool canary_ok(Blk* b) { char* u = (char*)(b + 1); for (int i = 0; i < TAIL; i++) if ((uint8_t)u[b->size + i] != 0xc7) return false; return true; }
static void arena_free(void* p, uint64_t site) {
    int ai = arena_of(p);
    if (ai < 0) { mem_error("invalid-free", p, 0, site); return; }
    Arena& a = arenas[ai]; Blk* b = hdr(p);
    if (((uintptr_t)p & 15) || b->magic != MAGIC || b->arena != ai) { mem_error("invalid-free", p, 0, site); return; }
    if (b->state == FREED) { mem_error("double-free", p, b->size, site); return; }
    if (ai > 0 && !canary_ok(b)) mem_error("heap-overflow", p, b->size, b->site);
    b->prev->next = b->next; b->next->prev = b->prev; a.nlive--; a.blive -= b->size;
    b->state = FREED; b->site = site;
    if (ai > 0) {
        shadow_set((uintptr_t)p, (b->size + 7) & ~size_t(7), false);
        if (env.heap_fill != 5) memset(p, poison_byte(), b->cap < 65536 ? b->cap : 4096); else memset(p, poison_byte(), b->cap < 512 ? b->cap : 512);
    }
    size_t cap = b->cap; size_t c2 = cap; int c = cls_of(c2);
    if (c != 95 && !b->off && c2 == cap) { b->next = a.head[c]; b->prev = nullptr; if (a.head[c]) a.head[c]->prev = b; else a.tail[c] = b; a.head[c] = b;
        if (ai > 0) memset(p, poison_byte(), cap < 4096 ? cap : 512); }
    else if (c == 95 && !b->off) { madvise((void*)(((uintptr_t)p + 4095) & ~4095ull), cap > 8192 ? (cap - 8192) & ~4095ull : 0, MADV_DONTNEED); }
}
Live live(int tid) { return {arenas[tid + 1].nlive, arenas[tid + 1].blive}; }
Live live_all() { Live l{0, 0}; for (int i = 1; i < NARENA; i++) { l.blocks += arenas[i].nlive; l.bytes += arenas[i].blive; } return l; }
uint64_t heap_seq() { return gseq; }
std::vector<std::string> live_dump(uint64_t minseq, size_t max) {
    std::vector<std::string> v;
    for (int i = 1; i < NARENA; i++) { if (!arenas[i].mapped) continue;
        for (Blk* b = arenas[i].live.next; b != &arenas[i].live && v.size() < max; b = b->next) if (b->seq > minseq) { char t[96]; snprintf(t, sizeof t, "size=%llu site=0x%llx arena=%d", (unsigned long long)b->size, (unsigned long long)b->site, i); v.push_back(t); } }
    return v;
}
bool heap_check(std::string& msg) {
    for (int i = 1; i < NARENA; i++) { if (!arenas[i].mapped) continue;
        for (Blk* b = arenas[i].live.next; b != &arenas[i].live; b = b->next) if (b->magic != MAGIC || !canary_ok(b)) { char t[96]; snprintf(t, sizeof t, "heap-overflow size=%llu site=0x%llx", (unsigned long long)b->size, (unsigned long long)b->site); msg = t; return false; } }
    return true;
}
// The allocation's call chain inside the executable: enough to tell sites apart.
static uint64_t chain(void** fp, int depth, uint64_t* first) {
    Thr* t = me; uint64_t h = 1469598103934665603ull; *first = 0; int got = 0;
    uintptr_t lo = t->stk_lo, hi = t->stk_hi;
    for (int i = 0; i < 24 && got < depth; i++) {
        uintptr_t f = (uintptr_t)fp;
        if (f < lo || f + 16 > hi || (f & 7)) break;
        uintptr_t pc = (uintptr_t)fp[1];
        if (pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext && !(pc >= (uintptr_t)&__start_rtwrap && pc <= (uintptr_t)&__stop_rtwrap)) { if (!*first) *first = pc; h = (h ^ pc) * 1099511628211ull; got++; }
        void** nf = (void**)fp[0]; if (nf <= fp) break; fp = nf;
    }
    return h;
}
static int fault_disabled = 0;
static bool alloc_should_fail(Thr* t, size_t size, void** fp) {
    Op* o = t->acc; if (!o || t->codec) return false;
    o->allocs++; if (size > o->maxsize) o->maxsize = size;
    if (want_sites) { t->inrt++; uint64_t first; uint64_t h = chain(fp, 5, &first); bool seen = false; for (auto& s : o->sites) if (s.hash == h) { seen = true; break; } if (!seen) o->sites.push_back({h, o->allocs, size}); t->inrt--; }
    if (t->nofault || fault_disabled) return false;
    for (auto& f : t->faults) {
        if (f.op != t->op || f.attempt != t->attempt) continue;
        bool hit = false;
        if (f.kind == F_ALLOC) hit = o->allocs >= f.a && o->allocs < f.a + f.b;
        else if (f.kind == F_ALLOCSIZE) hit = size >= f.a && o->allocs > f.b;
        else if (f.kind == F_BUDGET) hit = arenas[t->arena].blive + size > f.a;
        if (hit) { fired[f.kind]++; o->faults++; hash_event(0xfa0170000ull + f.kind); return true; }
    }
    return false;
}
static uint64_t site_of(Thr* t, void** fp) { uint64_t first; chain(fp, 1, &first); return first; }
__attribute__((noinline)) static void* do_alloc(size_t size, size_t align, bool zero) {
    Thr* t = me; int ai = 0; uint64_t site = 0;
    if (t && t->inlib > 0 && t->inrt == 0) {
        void** fp = (void**)__builtin_frame_address(0);
        if (alloc_should_fail(t, size, fp)) { errno = ENOMEM; return nullptr; }
        ai = t->arena; site = site_of(t, fp);
    }
    HLock l;
    void* p = arena_alloc(ai, size, align, site);
    if (!p) { errno = ENOMEM; return nullptr; }
    if (zero) memset(p, 0, size);
    return p;
}
static void do_free(void* p, void* pc) {
    if (!p) return;
    Thr* t = me; uint64_t site = (uint64_t)pc;
    if (t && t->inlib > 0 && t->inrt == 0 && t->acc) { t->acc->frees++; site = site_of(t, (void**)__builtin_frame_address(0)); }
    int e = errno; HLock l; arena_free(p, site); errno = e;
}
static size_t usable(void* p) { return hdr(p)->size; }
}  // namespace rt
using namespace rt;

#define WR __attribute__((section("rtwrap"), noinline))
extern "C" { extern char __start_rtwrap, __stop_rtwrap; }
extern "C" {
WR void* malloc(size_t n) { return do_alloc(n, 16, false); }
WR void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return do_alloc(n, 16, true); }
WR void free(void* p) { do_free(p, __builtin_return_address(0)); }
WR void* realloc(void* p, size_t n) {
    if (!p) return do_alloc(n, 16, false);
    if (n == 0) { do_free(p, __builtin_return_address(0)); return nullptr; }
    int ai = arena_of(p);
    if (ai < 0 || hdr(p)->magic != MAGIC || hdr(p)->state != LIVE) { mem_error("invalid-free-realloc", p, n, (uint64_t)__builtin_return_address(0)); return nullptr; }
    void* q = do_alloc(n, 16, false);
    if (!q) return nullptr;
    size_t o = usable(p); memcpy(q, p, o < n ? o : n);
    do_free(p, __builtin_return_address(0));
    return q;
}
WR void* memalign(size_t al, size_t n) { return do_alloc(n, al, false); }
WR void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, false); }
WR int posix_memalign(void** o, size_t al, size_t n) { int e = errno; void* p = do_alloc(n, al, false); errno = e; if (!p) return ENOMEM; *o = p; return 0; }
WR void* valloc(size_t n) { return do_alloc(n, 4096, false); }
WR void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~4095ull, 4096, false); }
WR size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
WR void* reallocarray(void* p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
}
WR void* operator new(size_t n) { void* p = do_alloc(n ? n : 1, 16, false); if (!p) throw std::bad_alloc(); return p; }
WR void* operator new[](size_t n) { void* p = do_alloc(n ? n : 1, 16, false); if (!p) throw std::bad_alloc(); return p; }
WR void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16, false); }
WR void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16, false); }
WR void* operator new(size_t n, std::align_val_t a) { void* p = do_alloc(n ? n : 1, (size_t)a, false); if (!p) throw std::bad_alloc(); return p; }
WR void* operator new[](size_t n, std::align_val_t a) { void* p = do_alloc(n ? n : 1, (size_t)a, false); if (!p) throw std::bad_alloc(); return p; }
WR void operator delete(void* p) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete[](void* p) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete(void* p, size_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete[](void* p, size_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete(void* p, std::align_val_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, __builtin_return_address(0)); }
WR void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, __builtin_return_address(0)); }

// ---- scheduler --------------------------------------------------------------------------
namespace rt {
static void pass_to(Thr* n) { fwake(n->go); }
static int runnable_count() { int c = 0; for (int i = 0; i < nthr; i++) if (thr[i] && thr[i]->state == 2) c++; return c; }
static Thr* by_tid(int tid) { for (int i = 0; i < nthr; i++) if (thr[i] && thr[i]->tid == tid) return thr[i]; return nullptr; }
static Thr* next_after(Thr* t) {           // round robin among the other runnable threads
    int at = 0; for (int i = 0; i < nthr; i++) if (thr[i] == t) at = i;
    for (int k = 1; k <= nthr; k++) { Thr* x = thr[(at + k) % nthr]; if (x && x != t && x->state == 2) return x; }
    return nullptr;
}
static Thr* random_other(Thr* t) {
    Thr* c[MAXALL]; int n = 0;
    for (int i = 0; i < nthr; i++) if (thr[i] && thr[i] != t && thr[i]->state == 2) c[n++] = thr[i];
    return n ? c[srng.below(n)] : nullptr;
}
static uint64_t geo(double mean) { double u = srng.unit(); if (u < 1e-12) u = 1e-12; double v = -mean * __builtin_log(u); return v < 1 ? 1 : (uint64_t)v; }
static void set_trigger(Thr* t) {
    uint64_t tr = ~0ull;
    if (sched.policy == 0) { while (t->list_pos < t->list.size() && t->list[t->list_pos].step <= t->step) t->list_pos++; if (t->list_pos < t->list.size()) tr = t->list[t->list_pos].step; }
    else if (sched.policy == 1 || sched.policy == 2 || sched.policy == 4) { if (sched.q > 0) tr = t->step + geo(sched.q); }
    else if (sched.policy == 3) { if (pct_pos < pct_points.size()) { uint64_t d = pct_points[pct_pos]; tr = t->step + (d > pct_total ? d - pct_total : 1); } }
    t->trigger = tr < t->budget_at ? tr : t->budget_at;
}
static void do_switch(Thr* t, Thr* n, bool record) {
    t->inrt++;
    if (record) { recorded.push_back({t->tid, t->step, n->tid}); nswitch_total++; if (t->acc) t->acc->switches++; }
    hash_event(0x5500000000ull + t->step * 64 + n->tid);
    sig_interleaving = (sig_interleaving ^ (t->step * 31 + t->tid * 7 + n->tid)) * 1099511628211ull;
    t->inrt--;
    int e = errno;
    set_trigger(n);
    pass_to(n); fwait(t->go);
    errno = e;
}
static void slow(Thr* t) {
    if (t->step >= t->budget_at) { t->inrt++; fail_now("hang", "step budget exceeded"); }
    if (runnable_count() < 2) { if (sched.policy == 0) set_trigger(t); else t->trigger = t->budget_at; return; }
    if (sched.policy == 0) {
        int nx = -1; while (t->list_pos < t->list.size() && t->list[t->list_pos].step <= t->step) { if (t->list[t->list_pos].step == t->step) nx = t->list[t->list_pos].next; t->list_pos++; }
        set_trigger(t);
        Thr* n = nx >= 0 ? by_tid(nx) : nullptr;
        if (n && n != t && n->state == 2) do_switch(t, n, true);
        return;
    }
    if (sched.policy == 3) { pct_total = pct_points[pct_pos]; pct_pos++; }
    Thr* n = random_other(t);
    if (n) do_switch(t, n, true);
    set_trigger(t);
}
static inline void tick(Thr* t) { if (++t->step >= t->trigger) slow(t); }
static inline bool live_thr(Thr* t) { return t && t->active && t->inlib > 0 && t->inrt == 0; }
static uint64_t nbias;
static void bias(Thr* t, double p) {            // a coin at an interesting access
    if (sched.policy == 0 || runnable_count() < 2) return;
    if (nbias > 5000) p *= 5000.0 / nbias;
    if (srng.unit() < p) { nbias++;  Thr* n = random_other(t); if (n) { t->step++; do_switch(t, n, true); set_trigger(t); } }
}
// memory another thread allocated: ordinary where a model is shared, but not between independent models
static inline void foreign(Thr* t, uintptr_t a, bool store) {
    if (phase_on && (sched.policy == 4 || sched.policy == 2) && (int)((a - ABASE) / ASTRIDE) != t->arena) bias(t, store || sched.policy == 2 ? sched.p : sched.p * 1e-3);
}
// Static storage the library has written to while it ran: what its threads could disturb each other through.
static uint8_t* static_written; static uintptr_t static_lo, static_n;
static void static_access(Thr* t, uintptr_t a, bool store) {
    uintptr_t g = (a - static_lo) >> 3;
    if (g >= static_n) return;
    bool hot = store || (static_written[g >> 3] >> (g & 7) & 1);
    if (store) static_written[g >> 3] |= 1 << (g & 7);
    static_hits += hot;
    if (phase_on && (sched.policy == 2 || sched.policy == 4)) bias(t, hot ? sched.p : sched.p * 0.01);
}
static inline void access(uintptr_t a, unsigned n, bool store) {
    Thr* t = me;
    if (!live_thr(t)) return;
    if (a - ABASE < ASTRIDE * NARENA) {
        uint8_t s = *shadow(a);
        unsigned o = a & 7;
        bool bad = false;
        if (a - (ABASE + ASTRIDE) < ASTRIDE * (NARENA - 1)) {
            if (n <= 8 && o + n <= 8) bad = o + n > s;
            else { bad = s != 8; for (uintptr_t q = (a | 7) + 1; !bad && q < a + n; q += 8) { unsigned need = a + n - q < 8 ? a + n - q : 8; if (*shadow(q) < need) bad = true; } }
            if (bad) mem_error(store ? "bad-write" : "bad-read", (void*)a, n, (uint64_t)__builtin_return_address(0));
            foreign(t, a, store);
        }
    } else if (a - (uintptr_t)&__data_start < (uintptr_t)(&_end - &__data_start)) {
        static_access(t, a, store);
    }
    tick(t);
}
void force_yield(Thr* t, bool blocked) {
    Thr* n = next_after(t);
    if (!n) { if (blocked) { if (++forced_idle > 20000) { t->inrt++; fail_now("deadlock", "every thread is blocked"); } } return; }
    if (blocked && ++forced_idle > 2000000) { t->inrt++; fail_now("deadlock", "no thread makes progress"); }
    if (!blocked) forced_idle = 0;
    do_switch(t, n, false);
    set_trigger(t);
}
void op_boundary() {
    Thr* t = me; if (!t || !t->active) return;
    t->step++;
    forced_idle = 0;
    if (sched.policy == 0) { if (t->step >= t->trigger) slow(t); return; }
    if (sched.policy == 5 && runnable_count() > 1 && srng.unit() < sched.p) { Thr* n = random_other(t); if (n) { do_switch(t, n, true); set_trigger(t); } }
}
static void finish(Thr* t) {                    // the running thread leaves the phase
    t->active = false; t->state = t->dynamic ? 3 : 1;
    steps_total += t->step;
    Thr* n = nullptr; for (int i = 0; i < nthr; i++) if (thr[i] && thr[i]->state == 2) { n = thr[i]; break; }
    if (n) { set_trigger(n); pass_to(n); }
    else { phase_on = false; fwake(main_go); }
}
static void stack_bounds(Thr* t) {
    pthread_attr_t at; void* a = nullptr; size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &a, &n); pthread_attr_destroy(&at); }
    t->stk_lo = (uintptr_t)a; t->stk_hi = t->stk_lo + n;
}
static void alt(Thr* t) { t->altstack = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t ss{}; ss.ss_sp = t->altstack; ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr); }
static void* worker_main(void* p) {
    Thr* t = (Thr*)p; me = t;
    t->inrt++; stack_bounds(t); alt(t); t->inrt--;
    t->state = 1; fwake(main_go);
    while (true) {
        fwait(t->go);
        if (t->quit) break;
        t->body(t->tid, t->arg);
        finish(t);
    }
    t->inlib = 1; t->inrt = 0;      // thread-local destructors belong to the library
    return nullptr;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static void ensure(int tid) {
    for (int i = 0; i < nthr; i++) if (thr[i]->tid == tid) return;
    Thr* t = new Thr; t->tid = tid; t->arena = tid + 1;
    arena_map(t->arena); arenas[t->arena].rng = Rng(env.heap_seed * 77 + tid);
    thr[nthr++] = t;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20);
    if (real_create(&t->th, &at, worker_main, t)) fail_now("machinery", "cannot create a thread");
    pthread_attr_destroy(&at);
    fwait(main_go);
}
void run_phase(const std::vector<int>& workers, Body body, void** args, const Sched& s) {
    RtScope sc;
    sched = s; srng = Rng(s.seed); recorded.clear(); static_hits = 0; nbias = 0; if (!static_written) { static_lo = (uintptr_t)&__data_start; static_n = ((uintptr_t)&_end - static_lo) / 8; static_written = (uint8_t*)mmap(nullptr, static_n / 8 + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } forced_idle = 0;
    for (int w : workers) ensure(w);
    pct_points.clear(); pct_pos = 0; pct_total = 0;
    if (s.policy == 3) { for (uint64_t i = 0; i < s.n; i++) pct_points.push_back(1 + srng.below((uint64_t)s.q + 1)); std::sort(pct_points.begin(), pct_points.end()); }
    for (size_t i = 0; i < workers.size(); i++) {
        Thr* t = by_tid(workers[i]);
        t->body = body; t->arg = args[i]; t->state = 2; t->active = true; t->step = 0; t->list_pos = 0; t->list.clear(); t->budget_at = step_budget; t->op = -1; t->acc = nullptr;
        for (auto& x : s.list) if (x.tid == t->tid) t->list.push_back(x);
        std::sort(t->list.begin(), t->list.end(), [](const Switch& a, const Switch& b) { return a.step < b.step; });
    }
    Thr* first = nullptr;
    if (s.start >= 0) first = by_tid(s.start);
    if (!first || first->state != 2) first = by_tid(workers[s.policy ? srng.below(workers.size()) : 0]);
    hash_event(first->tid);
    phase_on = true;
    sched.start = first->tid;
    set_trigger(first);
    pass_to(first); fwait(main_go);
}
int last_start() { return sched.start; }
void join_workers() {
    RtScope sc;
    for (int i = 0; i < nthr; i++) if (!thr[i]->dynamic) { thr[i]->quit = true; fwake(thr[i]->go); real_join(thr[i]->th, nullptr); }
    nthr = 0;
}
void set_faults(int tid, const std::vector<Fault>& f) { ensure(tid); by_tid(tid)->faults = f; }
void op_begin(int tid, int op, int attempt, Op* acc) { Thr* t = me; t->op = op; t->attempt = attempt; t->acc = acc; acc->steps = t->step; }
void op_end(int tid) { Thr* t = me; if (t->acc) t->acc->steps = t->step - t->acc->steps; t->acc = nullptr; }
__attribute__((noinline)) static void scribble(uint64_t seed) {
    volatile char buf[48 * 1024];
    uint64_t v = seed * 0x9e3779b97f4a7c15ull + 1;
    for (size_t i = 0; i < sizeof buf; i += 8) { if (seed > 3) v = v * 6364136223846793005ull + 1442695040888963407ull; uint64_t w = seed == 1 ? ~0ull : seed == 2 ? 0x3ff0000000000000ull : seed == 3 ? 0x0101010101010101ull : v; memcpy((void*)(buf + i), &w, 8); }
}
void lib_enter() { Thr* t = me; if (!t) return; if (env.stack_seed && t->inlib == 0) scribble(env.stack_seed); if (t->inlib == 0) errno = env.err_no; t->inlib++; }
void lib_leave() { Thr* t = me; if (t) t->inlib--; }
NoFault::NoFault() { Thr* t = me; old = t ? t->nofault : false; if (t) t->nofault = true; }
NoFault::~NoFault() { if (me) me->nofault = old; }
}  // namespace rt

// ---- instrumentation callbacks ------------------------------------------------------------
extern "C" {
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; p++) *p = 1; }
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) { Thr* t = me; if (live_thr(t)) tick(t); }
#define ACC(n) NOCOV void __asan_load##n##_noabort(uintptr_t a) { rt::access(a, n, false); } NOCOV void __asan_store##n##_noabort(uintptr_t a) { rt::access(a, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
static inline __attribute__((always_inline)) void range(const void* p, size_t n, bool st) {
    Thr* t = me; if (!live_thr(t) || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (a - (ABASE + ASTRIDE) < ASTRIDE * (NARENA - 1)) {
        uintptr_t e = a + n - 1; bool bad = false;
        // first, last and every 8-byte granule between
        for (uintptr_t q = a; q <= e; q = (q | 7) + 1) { unsigned need = ((e | 7) == (q | 7)) ? (e & 7) + 1 : 8; if (*shadow(q) < need) { bad = true; break; } }
        if (bad) mem_error(st ? "bad-write-range" : "bad-read-range", p, n, (uint64_t)__builtin_return_address(0));
        foreign(t, a, st);
    } else if (a - (uintptr_t)&__data_start < (uintptr_t)(&_end - &__data_start)) static_access(t, a, st);
    tick(t);
}
NOCOV void __asan_loadN_noabort(uintptr_t a, size_t n) { range((void*)a, n, false); }
NOCOV void __asan_storeN_noabort(uintptr_t a, size_t n) { range((void*)a, n, true); }
NOCOV void __asan_handle_no_return() {}
void* __asan_memcpy(void*, const void*, size_t); void* __asan_memmove(void*, const void*, size_t); void* __asan_memset(void*, int, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { range(d, n, true); return __real_memset(d, c, n); }
void* __asan_memcpy(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memcpy(d, s, n); }
void* __asan_memmove(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return __real_memmove(d, s, n); }
void* __asan_memset(void* d, int c, size_t n) { range(d, n, true); return __real_memset(d, c, n); }
void __real_exit(int); void __real__exit(int);
void __wrap_exit(int c) { if (me && me->inlib && ++me->inrt) fail_now("process-exit", "exit called by the library"); __real_exit(c); __builtin_unreachable(); }
void __wrap__exit(int c) { if (me && me->inlib && ++me->inrt) fail_now("process-exit", "_exit called by the library"); __real__exit(c); __builtin_unreachable(); }
void __wrap__Exit(int c) { if (me && me->inlib && ++me->inrt) fail_now("process-exit", "_Exit called by the library"); __real__exit(c); __builtin_unreachable(); }
void __wrap_quick_exit(int c) { if (me && me->inlib && ++me->inrt) fail_now("process-exit", "quick_exit called by the library"); __real__exit(c); __builtin_unreachable(); }

// OpenCV's codecs, where they are linked: allocations inside them do not fail
struct Codec { bool old; Codec() { old = me && me->codec; if (me) me->codec = true; } ~Codec() { if (me) me->codec = old; } };
#define IMENCODE "_ZN2cv8imencodeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERSt6vectorIhSaIhEERKSB_IiSaIiEE"
#define IMWRITE "_ZN2cv7imwriteERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERKSt6vectorIiSaIiEE"
bool real_imencode(void*, void*, void*, void*) __asm__("__real_" IMENCODE) __attribute__((weak));
bool wrap_imencode(void* a, void* b, void* c, void* d) __asm__("__wrap_" IMENCODE);
bool wrap_imencode(void* a, void* b, void* c, void* d) { Codec k; return real_imencode(a, b, c, d); }
bool real_imwrite(void*, void*, void*) __asm__("__real_" IMWRITE) __attribute__((weak));
bool wrap_imwrite(void* a, void* b, void* c) __asm__("__wrap_" IMWRITE);
bool wrap_imwrite(void* a, void* b, void* c) { Codec k; return real_imwrite(a, b, c); }

// ---- randomness -----------------------------------------------------------------------------
static uint64_t rstate = 1, rcount = 0;
static uint32_t draw() {
    Thr* t = me; if (live_thr(t)) tick(t);
    if (t && t->inlib) rand_draws++;
    rcount++;
    switch (env.rand_mode) {
        case 1: return 0;
        case 2: return 0x7fffffff;
        case 3: return (uint32_t)(env.rand_seed & 0x7fffffff);
        case 4: return (rcount & 1) ? 0 : 0x7fffffff;
        case 5: return (uint32_t)((rcount * (env.rand_seed | 1)) & 0x7fffffff);
        case 6: if (!rand_list.empty()) return (uint32_t)rand_list[(rcount - 1) % rand_list.size()]; /* fallthrough */
        default: rstate = rstate * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rstate >> 33);
    }
}
int rand(void) { return (int)(draw() & 0x7fffffff); }
void srand(unsigned s) { Thr* t = me; if (t && t->inlib) reseeds++; rstate = s * 2654435761ull + env.rand_seed; }
long random(void) { return draw() & 0x7fffffff; }
void srandom(unsigned s) { srand(s); }
int rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (*s >> 1) & 0x7fffffff; }
double drand48(void) { return draw() / 2147483648.0; }
long lrand48(void) { return draw() & 0x7fffffff; }
long mrand48(void) { return (int)(draw() << 1); }
void srand48(long s) { srand(s); }
int getentropy(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = draw() >> 7; return 0; }
ssize_t getrandom(void* p, size_t n, unsigned) { getentropy(p, n); return n; }
uint32_t arc4random(void) { return draw() * 2u + (draw() & 1); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return draw() * 2u + (draw() & 1); }

// ---- the machine, as the library sees it: always the same, whatever the host is --------------
static inline bool asks() { return me && me->inlib > 0 && me->inrt == 0 && !me->codec; }
static int processors() { static const int n[] = {4, 1, 2, 3, 7, 64, 1024}; return env.machine ? n[env.machine % 7] : 4; }
#define next_of(f, name) ((f) ? (f) : (f) = (decltype(f))dlsym(RTLD_NEXT, name))
static long (*real_sysconf)(int); static int (*real_affinity)(pid_t, size_t, cpu_set_t*); static pid_t (*real_getpid)(); static int (*real_hostname)(char*, size_t); static int (*real_nprocs)();
long sysconf(int n) { if (asks() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return processors(); return next_of(real_sysconf, "sysconf")(n); }
int get_nprocs(void) { return asks() ? processors() : next_of(real_nprocs, "get_nprocs")(); }
int get_nprocs_conf(void) { return get_nprocs(); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t* c) { if (!asks()) return next_of(real_affinity, "sched_getaffinity")(p, n, c); memset(c, 0, n); for (int i = 0; i < processors() && (size_t)i < n * 8; i++) CPU_SET_S(i, n, c); return 0; }
pid_t getpid(void) { return asks() ? (pid_t)(4711 + env.machine * 977) : next_of(real_getpid, "getpid")(); }
int gethostname(char* b, size_t n) { if (!asks()) return next_of(real_hostname, "gethostname")(b, n); snprintf(b, n, "host%llu", (unsigned long long)env.machine); return 0; }
char* getenv(const char* name) {
    size_t n = strlen(name);
    for (char** e = environ; e && *e; e++) if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    if (env.machine < 2 || !asks()) return nullptr;
    for (const char* own : {"OPENCV", "CV_", "LC_", "LANG", "HOME", "TMP", "TEMP", "MALLOC", "GLIBCXX", "PATH", "TZ"}) if (strncmp(name, own, strlen(own)) == 0) return nullptr;
    static char answers[][8] = {"1", "0", "", "7", "1e-3", "debug", "off"};
    return answers[env.machine / 7 % 7];
}
char* secure_getenv(const char* name) { return getenv(name); }

// ---- time -----------------------------------------------------------------------------------
static int64_t sim_now_off = 0; static Rng crng(1); static bool crng_set = false;
int64_t rt_sim_elapsed() { return sim_now_off < 0 ? -sim_now_off : sim_now_off; }
static int64_t sim_clock() {
    if (!crng_set) { crng = Rng(env.clock_seed); crng_set = true; }
    clock_reads++;
    Thr* t = me; if (live_thr(t)) tick(t);
    int64_t d = 0;
    switch (env.clock_mode) {
        case 1: d = 0; break;
        case 2: d = (int64_t)(crng.next() % 7200000000000ull) - 3600000000000ll; break;
        case 3: d = -(int64_t)(crng.next() % 1000000000ull); break;
        case 4: d = (int64_t)(crng.next() % 86400000000000ull); break;
        case 5: d = (clock_reads & 1) ? 1000000000ll * 1000000000ll : -1000000000ll * 1000000000ll; break;
        default: d = 1000 + (int64_t)(crng.next() % 1000000); break;
    }
    sim_now_off += d;
    int64_t v = env.clock_base + sim_now_off;
    return v < 0 && env.clock_mode != 5 && env.clock_mode != 3 && env.clock_mode != 2 ? 0 : v;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!(me && me->inlib > 0 && me->inrt == 0)) return raw(SYS_clock_gettime, id, (long)ts) ? -1 : 0;
    int64_t v = sim_clock(); ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; } return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
time_t time(time_t* o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
clock_t clock(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000 + t.tv_nsec / 1000; }
int timespec_get(struct timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
static void sim_sleep(int64_t ns) { sim_now_off += ns; Thr* t = me; if (t && t->active) force_yield(t, false); }
static bool simulated() { return me && me->inlib > 0 && me->inrt == 0; }
int nanosleep(const struct timespec* r, struct timespec* m) { if (simulated()) { sim_sleep(r->tv_sec * 1000000000ll + r->tv_nsec); return 0; } long x = raw(SYS_nanosleep, (long)r, (long)m); if (x < 0) { errno = -x; return -1; } return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* m) { if (simulated()) { sim_sleep(fl ? 0 : r->tv_sec * 1000000000ll + r->tv_nsec); return 0; } return -raw(SYS_clock_nanosleep, c, fl, (long)r, (long)m); }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield(void) { if (simulated() && me->active) { force_yield(me, false); return 0; } return raw(SYS_sched_yield); }

// ---- blocking primitives ----------------------------------------------------------------------
static int (*r_mutex_lock)(pthread_mutex_t*); static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*); static int (*r_ctwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static int (*r_ccwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int (*r_csig)(pthread_cond_t*); static int (*r_cbro)(pthread_cond_t*); static int (*r_rd)(pthread_rwlock_t*); static int (*r_wr)(pthread_rwlock_t*);
static bool sim_thr() { return me && me->active && phase_on; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (sim_thr()) { Thr* t = me; if (live_thr(t)) tick(t); while (true) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { forced_idle = 0; return r; } force_yield(t, true); } }
    if (r_mutex_lock) return r_mutex_lock(m);
    while (true) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; raw(SYS_sched_yield); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (sim_thr()) { while (true) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) { forced_idle = 0; return r; } force_yield(me, true); } } if (r_rd) return r_rd(m); while (true) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; raw(SYS_sched_yield); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (sim_thr()) { while (true) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) { forced_idle = 0; return r; } force_yield(me, true); } } if (r_wr) return r_wr(m); while (true) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; raw(SYS_sched_yield); } }
static std::atomic<uint64_t> cseq{0};
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!sim_thr()) return r_cwait(c, m); uint64_t s = cseq; pthread_mutex_unlock(m); while (cseq == s) force_yield(me, true); pthread_mutex_lock(m); return 0; }
static int ctimed(pthread_cond_t* c, pthread_mutex_t* m) { uint64_t s = cseq; pthread_mutex_unlock(m); int n = 0; while (cseq == s && n++ < 4) force_yield(me, true); pthread_mutex_lock(m); return cseq == s ? ETIMEDOUT : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!sim_thr()) return r_ctwait(c, m, t); return ctimed(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!sim_thr()) return r_ccwait(c, m, k, t); return ctimed(c, m); }
int pthread_cond_signal(pthread_cond_t* c) { cseq++; return r_csig ? r_csig(c) : 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { cseq++; return r_cbro ? r_cbro(c) : 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    std::atomic<int>* a = (std::atomic<int>*)o;
    while (true) {
        int v = a->load(std::memory_order_acquire);
        if (v == 2) return 0;
        if (v == 0) { int z = 0; if (a->compare_exchange_strong(z, 1)) { try { f(); } catch (...) { a->store(0); throw; } a->store(2); forced_idle = 0; return 0; } continue; }
        if (sim_thr()) force_yield(me, true); else raw(SYS_sched_yield);
    }
}
int __cxa_guard_acquire(uint64_t* g) {
    std::atomic<uint8_t>* d = (std::atomic<uint8_t>*)g; std::atomic<uint8_t>* b = d + 1;
    while (true) {
        if (d->load(std::memory_order_acquire)) return 0;
        uint8_t z = 0; if (b->compare_exchange_strong(z, 1)) { if (d->load()) { b->store(0); return 0; } return 1; }
        if (sim_thr()) force_yield(me, true); else raw(SYS_sched_yield);
    }
}
void __cxa_guard_release(uint64_t* g) { std::atomic<uint8_t>* d = (std::atomic<uint8_t>*)g; d->store(1, std::memory_order_release); (d + 1)->store(0); forced_idle = 0; }
void __cxa_guard_abort(uint64_t* g) { ((std::atomic<uint8_t>*)g + 1)->store(0); }

// threads started by library code join the simulation
static void* dyn_main(void* p) {
    Thr* t = (Thr*)p; me = t;
    t->inrt++; stack_bounds(t); alt(t); t->inrt--;
    fwait(t->go);
    t->dyn_ret = t->dyn_fn(t->dyn_arg);
    t->inrt++; finish(t); t->inrt--;
    t->inlib = 0;
    return t->dyn_ret;
}
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    if (!real_create) { real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join"); }
    Thr* t = me;
    if (!(t && t->active && t->inlib > 0 && phase_on && nthr < MAXALL)) return real_create(out, at, f, arg);
    t->inrt++;
    Thr* n = new Thr; n->tid = 16 + nthr; n->arena = t->arena; n->dynamic = true; n->dyn_fn = f; n->dyn_arg = arg; n->inlib = 1; n->active = true; n->state = 2; n->budget_at = step_budget; n->trigger = n->budget_at; n->op = t->op;
    int r = real_create(&n->th, at, dyn_main, n);
    if (r) { t->inrt--; return r; }
    thr[nthr++] = n; *out = n->th;
    t->inrt--;
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    if (sim_thr()) for (int i = 0; i < nthr; i++) if (thr[i]->dynamic && pthread_equal(thr[i]->th, th)) { while (thr[i]->state != 3) force_yield(me, true); forced_idle = 0; break; }
    return real_join(th, ret);
}
}  // extern C

// ---- system-call seam: console and simulated disk --------------------------------------------
namespace rt {
struct File { char name[96]; int memfd; bool used; };
static File files[64];
struct OFd { int fd; int file; bool writable; };
static OFd ofds[64];
static int n_ofd = 0;
static bool seccomp_on = false;
static const char PFX[] = "/simdisk/";
static bool simpath(const char* p) { return p && strncmp(p, PFX, sizeof PFX - 1) == 0; }
// one directory; "sub" is a directory in it, in which nothing can be made
static long bad_path(const char* p) { const char* n = p + sizeof PFX - 1; if (!*n || !strcmp(n, "sub")) return -EISDIR; if (!strncmp(n, "sub/", 4)) return -EACCES; if (strchr(n, '/')) return -ENOENT; return strlen(p) > 90 ? -ENAMETOOLONG : 0; }
static int find_file(const char* p) { for (int i = 0; i < 64; i++) if (files[i].used && strcmp(files[i].name, p) == 0) return i; return -1; }
static int make_file(const char* p) {
    for (int i = 0; i < 64; i++) if (!files[i].used) { long fd = raw(SYS_memfd_create, (long)"simfile", 0); if (fd < 0) return -1; long hi = raw(SYS_fcntl, fd, F_DUPFD, 200); if (hi >= 0) { raw(SYS_close, fd); fd = hi; } strncpy(files[i].name, p, 95); files[i].memfd = fd; files[i].used = true; return i; }
    return -1;
}
static OFd* find_ofd(int fd) { for (int i = 0; i < n_ofd; i++) if (ofds[i].fd == fd) return &ofds[i]; return nullptr; }
int disk_open_fds() { return n_ofd; }
bool disk_read(const std::string& name, std::string& c) {
    int f = find_file((std::string(PFX) + name).c_str()); c.clear(); if (f < 0) return false;
    struct stat st; if (raw(SYS_fstat, files[f].memfd, (long)&st)) return false;
    c.resize(st.st_size); size_t p = 0; while (p < c.size()) { long r = raw(SYS_pread64, files[f].memfd, (long)&c[p], c.size() - p, p); if (r <= 0) break; p += r; }
    return true;
}
void disk_wipe() { for (auto& f : files) if (f.used) { raw(SYS_close, f.memfd); f.used = false; } }
std::vector<std::string> disk_names() { std::vector<std::string> v; for (auto& f : files) if (f.used) v.push_back(f.name + sizeof PFX - 1); return v; }
static uint64_t disk_used() { uint64_t s = 0; for (auto& f : files) if (f.used) { struct stat st; if (!raw(SYS_fstat, f.memfd, (long)&st)) s += st.st_size; } return s; }
static Fault* disk_fault(FaultKind k, uint64_t count) {
    Thr* t = me; if (!t || !t->acc || t->nofault) return nullptr;
    for (auto& f : t->faults) if (f.kind == k && f.op == t->op && f.attempt == t->attempt && count >= f.a && count < f.a + f.b) return &f;
    return nullptr;
}
static void note_fault(Fault* f) { fired[f->kind]++; if (me && me->acc) me->acc->faults++; hash_event(0xd15c0000ull + f->kind); }
static long do_open(const char* path, int flags, int mode) {
    Thr* t = me; if (t && t->acc) t->acc->opens++;
    if (Fault* f = disk_fault(F_DISK_OPEN, t && t->acc ? t->acc->opens : 0)) { note_fault(f); return -f->err; }
    if (long e = bad_path(path)) return e;
    int i = find_file(path);
    if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
    if (i < 0) { if (!(flags & O_CREAT)) return -ENOENT; i = make_file(path); if (i < 0) return -ENFILE; }
    char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", files[i].memfd);
    long fd = raw(SYS_openat, AT_FDCWD, (long)pp, (flags & ~(O_CREAT | O_EXCL | O_NOFOLLOW)), 0);
    if (fd < 0) return fd;
    if (n_ofd < 64) ofds[n_ofd++] = {(int)fd, i, (flags & O_ACCMODE) != O_RDONLY};
    return fd;
}
static uint64_t con_calls = 0;
static long console_write(int fd, size_t n) {
    Thr* t = me;
    bool in = t && t->inlib > 0;
    if (!in || !env.console) return n;          // swallowed: nobody looks at the log
    con_calls++;
    switch (env.console) {
        case 1: console_faults++; return -ENOSPC;
        case 2: console_faults++; return -EPIPE;
        case 3: if (con_calls % 3 == 0) { console_faults++; return -EAGAIN; } return n;
        case 4: if (con_calls % 2 == 0) { console_faults++; return -EINTR; } return n;
        case 5: console_faults++; return n > 1 ? n / 2 : n;
        case 6: console_faults++; return -EBADF;
        case 7: console_faults++; return -EIO;
    }
    return n;
}
static long do_write(OFd* o, const char* buf, size_t n, int64_t off) {
    Thr* t = me; if (t && t->acc) t->acc->writes++;
    uint64_t c = t && t->acc ? t->acc->writes : 0;
    if (Fault* f = disk_fault(F_DISK_WRITE, c)) {
        note_fault(f);
        if (f->err >= 0) return -f->err;
        size_t k = (size_t)(-f->err); if (k < n) n = k;     // short write
    }
    if (t && t->acc && !t->nofault) for (auto& f : t->faults) if (f.kind == F_DISK_FULL && f.op == t->op && f.attempt == t->attempt) {
        uint64_t used = disk_used(); if (used + n > f.a) { note_fault(&f); if (used >= f.a) return -ENOSPC; n = f.a - used; } }
    return off >= 0 ? raw(SYS_pwrite64, o->fd, (long)buf, n, off) : raw(SYS_write, o->fd, (long)buf, n);
}
static long do_close(OFd* o) {
    Thr* t = me; if (t && t->acc) t->acc->closes++;
    Fault* f = disk_fault(F_DISK_CLOSE, t && t->acc ? t->acc->closes : 0);
    long r = raw(SYS_close, o->fd);
    *o = ofds[--n_ofd];
    if (f) { note_fault(f); return -f->err; }
    return r;
}
static long do_rename(const char* a, const char* b) {
    static uint64_t cnt = 0; cnt++;
    if (Fault* f = disk_fault(F_DISK_RENAME, 1)) { note_fault(f); return -f->err; }
    int i = find_file(a); if (i < 0) return -ENOENT;
    if (long e = simpath(b) ? bad_path(b) : -EXDEV) return e;
    int j = find_file(b); if (j >= 0) { raw(SYS_close, files[j].memfd); files[j].used = false; }
    strncpy(files[i].name, b, 95); return 0;
}
static long emulate(long nr, long* a) {
    switch (nr) {
        case SYS_write: if (a[0] == 1 || a[0] == 2) return console_write(a[0], a[2]); if (OFd* o = find_ofd(a[0])) return do_write(o, (const char*)a[1], a[2], -1); break;
        case SYS_pwrite64: if (OFd* o = find_ofd(a[0])) return do_write(o, (const char*)a[1], a[2], a[3]); break;
        case SYS_writev: {
            struct iovec* v = (struct iovec*)a[1]; size_t n = 0; for (int i = 0; i < a[2]; i++) n += v[i].iov_len;
            if (a[0] == 1 || a[0] == 2) return console_write(a[0], n);
            if (OFd* o = find_ofd(a[0])) { long tot = 0; for (int i = 0; i < a[2]; i++) { if (!v[i].iov_len) continue; long r = do_write(o, (const char*)v[i].iov_base, v[i].iov_len, -1); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) return tot; } return tot; }
            break; }
        case SYS_open: if (simpath((const char*)a[0])) return do_open((const char*)a[0], a[1], a[2]); break;
        case SYS_creat: if (simpath((const char*)a[0])) return do_open((const char*)a[0], O_CREAT | O_WRONLY | O_TRUNC, a[1]); break;
        case SYS_openat: if (simpath((const char*)a[1])) return do_open((const char*)a[1], a[2], a[3]); break;
        case SYS_close: if (OFd* o = find_ofd(a[0])) return do_close(o); break;
        case SYS_fsync: case SYS_fdatasync: if (find_ofd(a[0])) { if (Fault* f = disk_fault(F_DISK_FSYNC, 1)) { note_fault(f); return -f->err; } return 0; } break;
        case SYS_rename: if (simpath((const char*)a[0])) return do_rename((const char*)a[0], (const char*)a[1]); break;
        case SYS_renameat: case SYS_renameat2: if (simpath((const char*)a[1])) return do_rename((const char*)a[1], (const char*)a[3]); break;
        case SYS_unlink: if (simpath((const char*)a[0])) { int i = find_file((const char*)a[0]); if (i < 0) return -ENOENT; raw(SYS_close, files[i].memfd); files[i].used = false; return 0; } break;
        case SYS_unlinkat: if (simpath((const char*)a[1])) { int i = find_file((const char*)a[1]); if (i < 0) return -ENOENT; raw(SYS_close, files[i].memfd); files[i].used = false; return 0; } break;
        case SYS_access: if (simpath((const char*)a[0])) return find_file((const char*)a[0]) >= 0 ? 0 : -ENOENT; break;
        case SYS_faccessat: case 439: if (simpath((const char*)a[1])) return find_file((const char*)a[1]) >= 0 ? 0 : -ENOENT; break;
        case SYS_stat: case SYS_lstat: if (simpath((const char*)a[0])) { int i = find_file((const char*)a[0]); if (i < 0) return -ENOENT; return raw(SYS_fstat, files[i].memfd, a[1]); } break;
        case SYS_newfstatat: if (simpath((const char*)a[1])) { int i = find_file((const char*)a[1]); if (i < 0) return -ENOENT; return raw(SYS_fstat, files[i].memfd, a[2]); } break;
        case SYS_statx: if (simpath((const char*)a[1])) { int i = find_file((const char*)a[1]); if (i < 0) return -ENOENT; return raw(SYS_statx, files[i].memfd, (long)"", AT_EMPTY_PATH, a[3], a[4]); } break;
        case SYS_mkdir: if (simpath((const char*)a[0])) return -EEXIST; break;
    }
    return raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static void on_sigsys(int, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_; greg_t* g = uc->uc_mcontext.gregs;
    int e = errno;
    long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
    Thr* t = me; if (t) t->inrt++;
    g[REG_RAX] = emulate(si->si_syscall, a);
    if (t) t->inrt--;
    errno = e;
}
static void install_seccomp() {
    struct sigaction sa{}; sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, nullptr);
    static const int nrs[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_open, SYS_creat, SYS_openat, SYS_close, SYS_fsync, SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_access, SYS_faccessat, 439, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_mkdir};
    std::vector<sock_filter> f;
    uint32_t rb = (uint32_t)(uintptr_t)&rt_raw_begin, re = (uint32_t)(uintptr_t)&rt_raw_end;
    auto st = [&](uint16_t c, uint32_t k) { f.push_back({c, 0, 0, k}); };
    auto jp = [&](uint16_t c, uint32_t k, uint8_t t, uint8_t e) { f.push_back({c, t, e, k}); };
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch)); jp(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0); st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4); jp(BPF_JMP | BPF_JEQ | BPF_K, 0, 0, 4);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer)); jp(BPF_JMP | BPF_JGE | BPF_K, rb, 0, 2); jp(BPF_JMP | BPF_JGT | BPF_K, re, 1, 0); st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int n : nrs) { jp(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 1); st(BPF_RET | BPF_K, SECCOMP_RET_TRAP); }
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog p{(unsigned short)f.size(), f.data()};
    raw(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    long r = raw(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, (long)&p, 0, 0);
    if (r) fail_now("machinery", "cannot install the system-call seam");
    seccomp_on = true;
}

// ---- process ----------------------------------------------------------------------------
static void on_crash(int s, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_;
    char b[128]; const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : "signal";
    if (me) me->inrt++;
    snprintf(b, sizeof b, "%s pc=0x%llx", n, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
    if (!me || !me->inlib) { char c[160]; snprintf(c, sizeof c, "outside library code: %s", b); fail_now("machinery", c); }
    fail_now("crash", b);
}
static void on_terminate() { if (me) me->inrt++; if (!me || !me->inlib) fail_now("machinery", "std::terminate outside library code"); fail_now("terminate", "std::terminate called"); }
void init_process() {
    main_thr.tid = -1; main_thr.arena = 0; me = &main_thr; main_thr.inrt = 1;
    pthread_t dummy; (void)dummy;
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create"); real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    r_cwait = (decltype(r_cwait))dlsym(RTLD_NEXT, "pthread_cond_wait"); r_ctwait = (decltype(r_ctwait))dlsym(RTLD_NEXT, "pthread_cond_timedwait"); r_ccwait = (decltype(r_ccwait))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    r_csig = (decltype(r_csig))dlsym(RTLD_NEXT, "pthread_cond_signal"); r_cbro = (decltype(r_cbro))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    r_rd = (decltype(r_rd))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); r_wr = (decltype(r_wr))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
    r_mutex_lock = (decltype(r_mutex_lock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    main_thr.stk_lo = 0;
    try { throw std::bad_alloc(); } catch (...) {}       // first-throw initialisation belongs to nobody
    static char sb[1 << 14]; setvbuf(stdout, sb, _IOLBF, sizeof sb);
}
void init_child() {
    struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    std::set_terminate(on_terminate);
    alt(&main_thr);
    child_ready = true;
}
void apply_env() {
    rstate = env.rand_seed;
    if (env.locale == 1) { if (!setlocale(LC_ALL, "de_DE.UTF-8") && !setlocale(LC_ALL, "de_DE")) fail_now("nolocale", ""); }
    else if (env.locale == 2) setlocale(LC_ALL, "C.UTF-8");
    else if (env.locale == 3) { try { std::locale::global(std::locale("de_DE.UTF-8")); } catch (...) { fail_now("nolocale", ""); } }
    if (env.console || env.disk) install_seccomp();
}
}  // namespace rt
