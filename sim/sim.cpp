// Simulator core: choices, history, fork-per-run driver, shrinking, allocator, fibers, clock.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <link.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

// ------------------------------------------------------------------------------------------
// hash seed seam: absl::Hash reads this value (see stubs/absl/hash/hash.h)
extern "C" { const void* sim_absl_seed asm("_ZN4absl7debian313hash_internal15MixingHashState5kSeedE") = nullptr; }

namespace sim {
static constexpr uint32_t MAXC = 1u << 18;
static constexpr uint32_t MAXCNT = 256;
static constexpr uint32_t MAXLOG = 1u << 18;
struct Shared {
    uint32_t n_choices;
    uint32_t choices[MAXC];
    uint32_t bound[MAXC];
    int status;               // 0 running, 1 ok, 2 violation
    char cls[160];
    char msg[3000];
    uint64_t evhash, nev, schedhash, steps, nontriv, allocs;
    uint32_t ncnt;
    struct { char name[48]; uint64_t v; } cnt[MAXCNT];
    uint32_t nlog;
    char log[MAXLOG];
};
static Shared* S;
static bool g_verbose = false;
static bool g_child = false;
static const std::vector<uint32_t>* g_replay = nullptr;   // null -> PRNG
static uint64_t g_rng[4];

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static void seed_rng(uint64_t* r, uint64_t s) { for (int i = 0; i < 4; i++) r[i] = splitmix(s); }
static uint64_t next_rng(uint64_t* s) { uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return result; }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char) *s++; h *= 1099511628211ull; } return h; }

static bool g_large = false;
static void give_up();
uint64_t choose(uint64_t n, const char* tag) {
    if (n <= 1) return 0;
    if (n > 0xffffffffull) n = 0xffffffffull;
    uint32_t i = S->n_choices;
    if (i >= MAXC) { if (g_large) give_up(); fail("too-many-choices", "the run asks for more than %d scheduling decisions (%s)", (int) MAXC, tag); }
    uint64_t v;
    if (g_replay) v = i < g_replay->size() ? (*g_replay)[i] % n : 0;
    else v = next_rng(g_rng) % n;
    S->choices[i] = (uint32_t) v;
    S->bound[i] = (uint32_t) n;
    S->n_choices = i + 1;
    return v;
}
bool verbose() { return g_verbose; }
static void vlogf(const char* fmt, va_list ap) {
    if (!g_verbose || S->nlog + 1200 > MAXLOG) return;
    int r = vsnprintf(S->log + S->nlog, 1100, fmt, ap);
    if (r > 1099) r = 1099;
    if (r > 0) S->nlog += r;
    S->log[S->nlog++] = '\n'; S->log[S->nlog] = 0;
}
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlogf(fmt, ap); va_end(ap); }
void ev(const char* tag, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    S->evhash = mix(mix(mix(mix(mix(S->evhash, hstr(tag)), a), b), c), d); S->nev++;
    if (g_verbose) note("[%llu] %s %llu %llu %llu %llu", (unsigned long long) S->nev, tag, (unsigned long long) a, (unsigned long long) b, (unsigned long long) c, (unsigned long long) d);
}
void evs(const char* tag, const std::string& s) {
    S->evhash = mix(mix(S->evhash, hstr(tag)), hstr(s.c_str())); S->nev++;
    if (g_verbose) note("[%llu] %s %s", (unsigned long long) S->nev, tag, s.c_str());
}
void count(const char* name, uint64_t n) {
    for (uint32_t i = 0; i < S->ncnt; i++) if (!strncmp(S->cnt[i].name, name, 47)) { S->cnt[i].v += n; return; }
    if (S->ncnt >= MAXCNT) return;
    strncpy(S->cnt[S->ncnt].name, name, 47); S->cnt[S->ncnt].v = n; S->ncnt++;
}
void sched(uint64_t x) { S->schedhash = mix(S->schedhash, x); }
void nontrivial() { S->nontriv++; }
uint64_t steps() { return S->steps; }
void fail(const char* cls, const char* fmt, ...) {
    if (S->status == 0) {
        S->status = 2;
        strncpy(S->cls, cls, sizeof(S->cls) - 1);
        va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof(S->msg), fmt, ap); va_end(ap);
        ev("FAIL", hstr(cls));
    }
    _exit(0);
}
void finish_run() { if (S->status == 0) S->status = 1; _exit(0); }

// ------------------------------------------------------------------------------------------
// allocator
struct Hdr { uint64_t magic; uint32_t size; uint32_t total; uint64_t seq; uint64_t offs; };   // 32 bytes
static constexpr uint64_t LIVE = 0x51a1be11e5a11c0full, DEAD = 0xdeadf4eedeadf4eeull, RED = 0xf0f1f2f3f4f5f6f7ull;
static char* const ARENA = (char*) 0x200000000000ull;
static constexpr size_t ARENA_SZ = 512ull << 20;
static char *lo_p, *hi_p;
static int g_layout = 0, g_fill = 0;
static uint64_t lay_rng[4];
static int g_pause = 0;
static bool g_alloc_yield = false;
static uint64_t g_fail_at = 0, g_armed = 0, g_seq = 0, g_total_allocs = 0;
static bool g_fail_fired = false;
static int64_t g_live = 0;
static constexpr uint64_t ALLOC_BUDGET = 3000000;
struct FreeBlk { FreeBlk* next; };
static Hdr* g_free[64];                                     // by 16-byte class of payload, payload < 1024
static std::vector<Hdr*>* g_blocks = nullptr;               // all blocks ever (malloc'd, under pause)
static bool arena_on = false;

Pause::Pause() { ++g_pause; }
Pause::~Pause() { --g_pause; }
Unpause::Unpause() : saved(g_pause) { g_pause = 0; }
Unpause::~Unpause() { g_pause = saved; }

void large_instance() { g_large = true; }
static void give_up() { count("probe.gave_up_on_size"); ev("gave-up"); finish_run(); }       // some large instances only have runs too long to write down
static void die_oom(const char* why) { if (g_large) give_up(); fail(why, "%s after %llu allocations", why, (unsigned long long) g_total_allocs); }

static void* arena_alloc(size_t n, size_t align) {
    ++g_total_allocs; S->allocs = g_total_allocs;
    if (g_total_allocs > (g_large ? ALLOC_BUDGET / 8 : ALLOC_BUDGET)) die_oom("runaway-allocations");
    if (n > (256u << 20)) die_oom("runaway-allocation-size");
    if (g_alloc_yield) yield_point("alloc");
    ++g_armed;
    if (g_fail_at && g_armed == g_fail_at) {
        g_fail_fired = true; count("fault.alloc_failure"); nontrivial(); sched(0xa110c + g_armed); ev("alloc-fail", g_armed, n);
        throw std::bad_alloc();
    }
    size_t need = (n + 15) & ~size_t(15); if (!need) need = 16;
    uint64_t r = g_layout >= 2 ? next_rng(lay_rng) : 0;
    size_t cls = need / 16;
    Hdr* h = nullptr;
    if (align <= 16 && cls < 64 && g_free[cls] && (g_layout == 0 || (g_layout == 3 && (r & 12) != 0))) {
        h = g_free[cls]; g_free[cls] = *(Hdr**) (h + 1);
    } else {
        size_t pad = g_layout >= 2 ? ((r >> 8) & 7) * 16 : 0;
        size_t tot = sizeof(Hdr) + need + 16 + pad + (align > 16 ? align : 0);
        if ((size_t) (hi_p - lo_p) < tot + (g_large ? ARENA_SZ / 2 : 64)) die_oom("runaway-heap");
        bool up = g_layout == 0 || g_layout == 4 ? true : g_layout == 1 ? false : (r & 1);
        char* base;
        if (up) { base = lo_p; lo_p += tot; } else { hi_p -= tot; base = hi_p; }
        if (align > 16) { uintptr_t p = (uintptr_t) base + sizeof(Hdr); p = (p + align - 1) & ~(uintptr_t) (align - 1); base = (char*) p - sizeof(Hdr); }
        h = (Hdr*) base; h->total = (uint32_t) need;
        g_pause++; g_blocks->push_back(h); g_pause--;
    }
    h->magic = LIVE; h->size = (uint32_t) n; h->seq = ++g_seq;
    char* p = (char*) (h + 1);
    unsigned char fill = g_fill == 0 ? 0xCD : g_fill == 1 ? 0x00 : g_fill == 2 ? 0xFF : (unsigned char) next_rng(lay_rng);
    memset(p, fill, need);
    memset(p + n, 0xA5, need - n);
    *(uint64_t*) (p + need) = RED;
    ++g_live;
    return p;
}
static bool red_ok(Hdr* h) {
    char* p = (char*) (h + 1);
    for (size_t i = h->size; i < h->total; i++) if ((unsigned char) p[i] != 0xA5) return false;
    return *(uint64_t*) (p + h->total) == RED;
}
static void arena_free(void* q) {
    Hdr* h = (Hdr*) q - 1;
    if (h->magic == DEAD) fail("heap-double-free", "block #%llu size %u freed twice", (unsigned long long) h->seq, h->size);
    if (h->magic != LIVE) fail("heap-corruption", "free of a pointer that is not a live block");
    if (!red_ok(h)) fail("heap-overflow", "write past the end of block #%llu size %u", (unsigned long long) h->seq, h->size);
    h->magic = DEAD;
    memset(q, 0xDD, h->total);
    --g_live;
    size_t cls = h->total / 16;
    if (cls < 64 && (g_layout == 0 || g_layout == 3)) { *(Hdr**) (h + 1) = g_free[cls]; g_free[cls] = h; }
}
void check_heap() {
    if (!g_blocks) return;
    for (auto* h : *g_blocks) if (h->magic == LIVE && !red_ok(h)) fail("heap-overflow", "write past the end of block #%llu size %u", (unsigned long long) h->seq, h->size);
}
void describe_live(int max) { if (!g_verbose) return; Pause p; for (auto* h : *g_blocks) if (h->magic == LIVE && max-- > 0) note("  live block #%llu size %u", (unsigned long long) h->seq, h->size); }
void arm_alloc_failure(uint64_t k) { g_fail_at = k; g_armed = 0; g_fail_fired = false; }
bool alloc_failure_fired() { return g_fail_fired; }
static void* nothrow_failed() { g_fail_fired = false; count("fault.alloc_nothrow"); return nullptr; }   // reported by the null pointer, need not surface as bad_alloc
uint64_t armed_allocs() { return g_armed; }
int64_t live_blocks() { return g_live; }
void set_alloc_yield(bool on) { g_alloc_yield = on; }

static void* do_new(size_t n, size_t align = 16) {
    if (arena_on && !g_pause) return arena_alloc(n, align);
    void* p = align <= 16 ? malloc(n ? n : 1) : aligned_alloc(align, (n + align - 1) / align * align);
    if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(3); }
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if ((char*) p >= ARENA && (char*) p < ARENA + ARENA_SZ) arena_free(p); else free(p);
}
} // namespace sim
void* operator new(size_t n) { return sim::do_new(n); }
void* operator new[](size_t n) { return sim::do_new(n); }
void* operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t) a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n); } catch (...) { return sim::nothrow_failed(); } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::do_new(n); } catch (...) { return sim::nothrow_failed(); } }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }

namespace sim {
// ------------------------------------------------------------------------------------------
// scheduling of worklists
static int g_sched_mode = 0;     // 0 natural, 1 uniformly random, 2 mostly natural, 3 opposite end, 4 middle
static std::function<void()>* g_intr = nullptr;
static constexpr uint64_t STEP_BUDGET = 2000000;
void set_sched_mode(int m) { g_sched_mode = m; }
void interrupt_hook(std::function<void()> f) { Pause p; delete g_intr; g_intr = f ? new std::function<void()>(std::move(f)) : nullptr; }
size_t pick(size_t n, const char* tag) {
    if (!g_child) return 0;
    if (++S->steps > STEP_BUDGET && g_large) give_up();
    if (S->steps > STEP_BUDGET) fail("runaway-steps", "more than %llu scheduling steps (%s)", (unsigned long long) STEP_BUDGET, tag);
    yield_point(tag);
    if (g_intr) (*g_intr)();
    size_t k = 0;
    if (n > 1) {
        switch (g_sched_mode) {
            case 1: k = choose(n < 48 ? n : 48, "sched"); break;
            case 2: if (chance(1, 5, "sched?")) k = 1 + choose((n < 48 ? n : 48) - 1, "sched"); break;
            case 3: k = n - 1; break;
            case 4: k = n / 2; break;
            default: break;
        }
        nontrivial(); count("sched.decisions");
        if (k) count("sched.reordered");
    }
    sched(n * 131 + k);
    return k;
}
void choose_environment() {
    Pause p;
    g_layout = (int) choose(5, "heap-layout");
    g_fill = (int) choose(4, "heap-garbage");
    uint64_t ls = choose(1u << 20, "layout-seed");
    seed_rng(lay_rng, ls + 77);
    sim_absl_seed = (const void*) (0x9E3779B97F4A7C15ull * choose(1u << 16, "hash-seed"));
    g_sched_mode = (int) choose(5, "sched-mode");
    static const char* L[] = {"env.heap.reuse", "env.heap.descending", "env.heap.random", "env.heap.random_reuse", "env.heap.quarantine"};
    static const char* F[] = {"env.garbage.cd", "env.garbage.zero", "env.garbage.ff", "env.garbage.random"};
    static const char* M[] = {"env.sched.natural", "env.sched.random", "env.sched.sparse", "env.sched.opposite", "env.sched.middle"};
    count(L[g_layout]); count(F[g_fill]); count(M[g_sched_mode]);
    sched(g_layout * 31 + g_fill * 7 + ls);
    ev("env", g_layout, g_fill, ls, g_sched_mode);
}

// ------------------------------------------------------------------------------------------
// fibers
struct EHGlobals { void* caught; unsigned int uncaught; };
// Every fiber stands for a thread, so it gets its own copy of the program's thread-local variables.
static char* g_tls = nullptr; static size_t g_tls_size = 0; static const void* g_tls_image = nullptr; static size_t g_tls_image_size = 0;
static void find_tls() {
    dl_iterate_phdr([](dl_phdr_info* info, size_t, void*) {
        for (int i = 0; i < info->dlpi_phnum; i++) if (auto& ph = info->dlpi_phdr[i]; ph.p_type == PT_TLS) {
            size_t al = ph.p_align ? ph.p_align : 1;
            g_tls_size = ph.p_memsz; g_tls = (char*) __builtin_thread_pointer() - ((ph.p_memsz + al - 1) / al * al);
            g_tls_image = (const void*) (info->dlpi_addr + ph.p_vaddr); g_tls_image_size = ph.p_filesz;
        }
        return 1;      // the main program comes first
    }, nullptr);
}
static void swap_tls(std::vector<char>& own) { for (size_t i = 0; i < g_tls_size; i++) std::swap(own[i], g_tls[i]); }
struct Fiber { std::vector<char> tls; ucontext_t ctx; std::function<void()> fn; bool done = false; EHGlobals eh{nullptr, 0}; int pause = 0; };
static std::vector<Fiber*>* g_fibers = nullptr;
static int g_cur = -1, g_den = 4;
static ucontext_t g_main;
static EHGlobals g_main_eh;
static int g_main_pause;
int current_fiber() { return g_cur; }
static void save_eh(EHGlobals& e) { memcpy(&e, abi::__cxa_get_globals(), sizeof(EHGlobals)); }
static void load_eh(const EHGlobals& e) { memcpy(abi::__cxa_get_globals(), &e, sizeof(EHGlobals)); }
static void fiber_main(int i) {
    (*g_fibers)[i]->fn();
    g_pause++;
    (*g_fibers)[i]->done = true;
    g_pause--;
    save_eh((*g_fibers)[i]->eh); (*g_fibers)[i]->pause = g_pause;
    g_cur = -1;
    setcontext(&g_main);
}
void yield_point(const char* tag) {
    if (g_cur < 0 || g_pause) return;
    if (!chance(1, g_den, tag)) return;
    int i = g_cur;
    Fiber* f = (*g_fibers)[i];
    save_eh(f->eh); f->pause = g_pause;
    g_cur = -1;
    count("sched.preemptions"); nontrivial();
    swapcontext(&f->ctx, &g_main);
}
void run_fibers(std::vector<std::function<void()>> tasks, int den) {
    static std::vector<Fiber*> fs;
    g_den = den;
    {
        Pause p;
        fs.clear();
        for (size_t i = 0; i < tasks.size(); i++) {
            auto* f = new Fiber; f->fn = tasks[i];
            if (!g_tls) find_tls();
            f->tls.assign(g_tls_size, 0); if (g_tls_size) memcpy(f->tls.data(), g_tls_image, g_tls_image_size);
            char* st = (char*) mmap((void*) (0x210000000000ull + i * (16ull << 20)), 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
            if (st == MAP_FAILED) st = (char*) (0x210000000000ull + i * (16ull << 20));
            getcontext(&f->ctx);
            f->ctx.uc_stack.ss_sp = st; f->ctx.uc_stack.ss_size = 4 << 20; f->ctx.uc_link = nullptr;
            makecontext(&f->ctx, (void (*)()) fiber_main, 1, (int) i);
            fs.push_back(f);
        }
        g_fibers = &fs;
    }
    for (;;) {
        std::vector<int> ready;
        int k;
        {
            Pause p;
            std::vector<int> r;
            for (size_t i = 0; i < fs.size(); i++) if (!fs[i]->done) r.push_back((int) i);
            if (r.empty()) break;
            k = r[choose(r.size(), "fiber")];
            if (r.size() > 1) { sched(0xf1be + k); }
        }
        save_eh(g_main_eh); g_main_pause = g_pause;
        load_eh(fs[k]->eh); g_pause = fs[k]->pause; g_cur = k;
        if (g_tls_size) swap_tls(fs[k]->tls);
        swapcontext(&g_main, &fs[k]->ctx);
        if (g_tls_size) swap_tls(fs[k]->tls);
        load_eh(g_main_eh); g_pause = g_main_pause; g_cur = -1;
    }
    Pause p;
    for (auto* f : fs) delete f;
    fs.clear();
    g_fibers = nullptr;
}

// ------------------------------------------------------------------------------------------
// clock
static int64_t g_mono = 1000000000, g_wall_off = 0;
static bool g_clock_auto = false;
void clock_set(int64_t ns) { g_mono = ns; g_wall_off = 0; }
void clock_advance(int64_t ns) { g_mono += ns; }
void clock_jump(int64_t ns) { g_wall_off += ns; }
int64_t clock_mono() { return g_mono; }
void clock_auto(bool on) { g_clock_auto = on; }
static int64_t read_mono() { if (g_child) { count("clock.reads"); if (g_clock_auto) g_mono += (int64_t) choose(1000, "clock-tick") * 1000; } return g_mono; }
} // namespace sim
namespace std::chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept { if (!sim::g_child) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } return time_point(duration(sim::read_mono())); }
    system_clock::time_point system_clock::now() noexcept { if (!sim::g_child) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); } return time_point(duration(sim::read_mono() + sim::g_wall_off)); }
}}

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    if (!sim::g_child) return (int) syscall(SYS_clock_gettime, id, t);
    int64_t ns = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::read_mono() + sim::g_wall_off : id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME ? sim::read_mono() : 0;
    t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; return 0;
}
extern "C" clock_t clock() noexcept { return 0; }
extern "C" time_t time(time_t* t) noexcept { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); if (t) *t = x.tv_sec; return x.tv_sec; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); tv->tv_sec = x.tv_sec; tv->tv_usec = x.tv_nsec / 1000; return 0; }

// assertion failures of the code under test are violations with a stable class
extern "C" void __assert_fail(const char* expr, const char* file, unsigned int line, const char* fn) noexcept {
    if (!sim::g_child) { fprintf(stderr, "assert %s %s:%u %s\n", expr, file, line, fn); _exit(4); }
    const char* b = strrchr(file, '/');
    char cls[150]; snprintf(cls, sizeof cls, "assert:%s:%.100s", b ? b + 1 : file, expr);
    sim::fail(cls, "assertion '%s' failed at %s:%u in %.600s", expr, file, line, fn);
}
namespace std { void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept {
    if (!sim::g_child) { fprintf(stderr, "glibcxx assert %s %s:%d %s\n", cond ? cond : "?", file ? file : "?", line, fn ? fn : "?"); _exit(4); }
    char cls[150]; snprintf(cls, sizeof cls, "stl-assert:%.100s", cond ? cond : "?");
    sim::fail(cls, "library precondition '%s' violated at %s:%d in %.600s", cond ? cond : "?", file ? file : "?", line, fn ? fn : "?");
} }

namespace sim {
// ------------------------------------------------------------------------------------------
// driver
static void on_signal(int sig) {
    if (sig == SIGPROF && g_large) { if (S->status == 0) S->status = 1; _exit(0); }
    if (S->status == 0) {
        S->status = 2;
        snprintf(S->cls, sizeof S->cls, sig == SIGPROF ? "hang" : "signal-%d", sig);
        snprintf(S->msg, sizeof S->msg, sig == SIGPROF ? "no progress: CPU watchdog expired" : "signal %d (%s)", sig, strsignal(sig));
        if (sig != SIGPROF) S->evhash = mix(S->evhash, sig);
    }
    _exit(0);
}
static void run_child() {
    g_child = true;
    static char altstack[1 << 16];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval tv{}; tv.it_value.tv_sec = 25; setitimer(ITIMER_PROF, &tv, nullptr);
    g_blocks = new std::vector<Hdr*>; g_blocks->reserve(4096);
    arena_on = true;
    try { SIM_PROPERTY.run(); }
    catch (const std::bad_alloc&) { fail("uncaught-bad_alloc", "std::bad_alloc escaped the scenario"); }
    catch (const std::exception& e) { char c[120]; snprintf(c, sizeof c, "uncaught-exception:%.80s", e.what()); fail(c, "exception escaped: %s", e.what()); }
    catch (...) { fail("uncaught-exception", "unknown exception escaped"); }
    arena_on = false;
    check_heap();
    finish_run();
}
struct Result { int status; std::string cls, msg; uint64_t evhash; };
static Result run_once(uint64_t seed, const std::vector<uint32_t>* replay, bool verb) {
    S->n_choices = 0; S->status = 0; S->cls[0] = 0; S->msg[0] = 0; S->evhash = 0x1234; S->nev = 0; S->schedhash = 0x77; S->steps = 0; S->nontriv = 0; S->ncnt = 0; S->nlog = 0; S->log[0] = 0; S->allocs = 0;
    g_replay = replay; g_verbose = verb;
    if (!replay) seed_rng(g_rng, seed);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) run_child();
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == 0) {
        S->status = 2;
        if (WIFSIGNALED(st)) { snprintf(S->cls, sizeof S->cls, "killed-%d", WTERMSIG(st)); snprintf(S->msg, sizeof S->msg, "process killed by signal %d", WTERMSIG(st)); }
        else { snprintf(S->cls, sizeof S->cls, "exited"); snprintf(S->msg, sizeof S->msg, "code under test terminated the process (exit status %d)", WEXITSTATUS(st)); }
    } else if (WIFSIGNALED(st) && S->status == 1) { S->status = 2; snprintf(S->cls, sizeof S->cls, "killed-%d", WTERMSIG(st)); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "harness error\n"); exit(3); }
    return {S->status, S->cls, S->msg, S->evhash};
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static std::vector<uint32_t> shrink(std::vector<uint32_t> c, const std::string& cls, double budget, int* tries) {
    double end = now_s() + budget;
    auto ok = [&](const std::vector<uint32_t>& v, std::vector<uint32_t>& out) {
        ++*tries;
        Result r = run_once(0, &v, false);
        if (r.status != 2 || r.cls != cls) return false;
        out.assign(S->choices, S->choices + std::min<uint32_t>(S->n_choices, MAXC));
        while (!out.empty() && out.back() == 0) out.pop_back();
        return true;
    };
    auto better = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        uint64_t sa = 0, sb = 0; for (auto x : a) sa += x; for (auto x : b) sb += x;
        if (sa != sb) return sa < sb;
        return a < b;
    };
    while (!c.empty() && c.back() == 0) c.pop_back();
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t len = c.size(); len >= 1; len = len > 8 ? len / 2 : len - 1) {            // delete chunks
            for (size_t i = 0; i + len <= c.size() && now_s() < end;) {
                std::vector<uint32_t> v(c.begin(), c.begin() + i), o; v.insert(v.end(), c.begin() + i + len, c.end());
                if (ok(v, o) && better(o, c)) { c = o; progress = true; } else i += std::max<size_t>(1, len / 2);
            }
        }
        for (size_t len : {16, 4, 1}) for (size_t i = 0; i < c.size() && now_s() < end; i += len) {  // zero chunks
            bool any = false; std::vector<uint32_t> v = c, o;
            for (size_t j = i; j < std::min(c.size(), i + len); j++) { any |= v[j] != 0; v[j] = 0; }
            if (any && ok(v, o) && better(o, c)) { c = o; progress = true; }
        }
        for (size_t i = 0; i < c.size() && now_s() < end; i++) {                                // minimise values
            uint32_t lo = 0;
            while (i < c.size() && lo < c[i] && now_s() < end) {
                uint32_t mid = lo + (c[i] - lo) / 2; std::vector<uint32_t> v = c, o; v[i] = mid;
                if (ok(v, o) && better(o, c)) { c = o; progress = true; } else lo = mid + 1;
            }
        }
    }
    return c;
}
static void write_replay(const char* path, const std::vector<uint32_t>& c, uint64_t seed, uint64_t idx, int tries, size_t orig) {
    Result r = run_once(0, &c, true);
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); exit(3); }
    fprintf(f, "{\"property\":"); jstr(f, SIM_PROPERTY.id);
    fprintf(f, ",\n\"seed\":%llu,\"run_index\":%llu,\"class\":", (unsigned long long) seed, (unsigned long long) idx); jstr(f, r.cls.c_str());
    fprintf(f, ",\n\"message\":"); jstr(f, r.msg.c_str());
    fprintf(f, ",\n\"event_hash\":\"%016llx\",\"shrink_attempts\":%d,\"original_choices\":%zu,\n\"choices\":[", (unsigned long long) r.evhash, tries, orig);
    for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%u", i ? "," : "", c[i]);
    fprintf(f, "],\n\"history\":"); jstr(f, S->log); fprintf(f, "}\n"); fclose(f);
}
static std::vector<uint32_t> parse_choices(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    std::string s; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f);
    auto p = s.find("\"choices\":["); std::vector<uint32_t> v; if (p == std::string::npos) { fprintf(stderr, "bad replay\n"); exit(3); }
    const char* q = s.c_str() + p + 11; while (*q && *q != ']') { if (*q >= '0' && *q <= '9') { char* e; v.push_back(strtoul(q, &e, 10)); q = e; } else q++; }
    return v;
}
static uint64_t run_seed(uint64_t seed, uint64_t idx) { uint64_t x = seed * 0x2545F4914F6CDD1Dull + idx * 0x9E3779B97F4A7C15ull + 12345; return splitmix(x); }

static int main_(int argc, char** argv) {
    if (argc < 2) return 3;
    std::string mode = argv[1];
    if (mode == "search") {          // search SEED FROM STRIDE TO TIMECAP OUTPREFIX SHRINK_S [PRINTHASH]
        uint64_t seed = strtoull(argv[2], 0, 10), from = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), to = strtoull(argv[5], 0, 10);
        double cap = atof(argv[6]); std::string out = argv[7]; double shr = atof(argv[8]); bool ph = argc > 9;
        double t0 = now_s(); uint64_t runs = 0, nev = 0, steps_ = 0, nontriv = 0, choices = 0, allocs = 0; std::unordered_set<uint64_t> sigs;
        std::vector<std::pair<std::string, uint64_t>> cnt; uint64_t failed = 0; uint64_t allhash = 0;
        for (uint64_t i = from; i < to && now_s() - t0 < cap; i += stride) {
            Result r = run_once(run_seed(seed, i), nullptr, false);
            runs++; nev += S->nev; steps_ += S->steps; choices += S->n_choices; allocs += S->allocs;
            if (S->nontriv) { nontriv++; if (sigs.size() < 4000000) sigs.insert(mix(S->schedhash, S->evhash)); }
            for (uint32_t k = 0; k < S->ncnt; k++) { bool f = false; for (auto& [n, v] : cnt) if (n == S->cnt[k].name) { v += S->cnt[k].v; f = true; break; } if (!f) cnt.emplace_back(S->cnt[k].name, S->cnt[k].v); }
            allhash += r.evhash * (2 * i + 1);
            if (ph) printf("H %llu %016llx %s\n", (unsigned long long) i, (unsigned long long) r.evhash, r.cls.c_str());
            if (r.status == 2) {
                failed++;
                std::vector<uint32_t> c(S->choices, S->choices + S->n_choices); size_t orig = c.size(); std::string cls = r.cls;
                fprintf(stderr, "run %llu: %s: %s\n", (unsigned long long) i, r.cls.c_str(), r.msg.c_str());
                int tries = 0; auto c2 = shrink(c, cls, shr, &tries);
                write_replay((out + ".replay.json").c_str(), c2, seed, i, tries, orig);
                break;
            }
        }
        FILE* f = fopen((out + ".stats.json").c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"events\":%llu,\"steps\":%llu,\"choices\":%llu,\"allocs\":%llu,\"nontrivial_runs\":%llu,\"failed\":%llu,\"wall\":%.3f,\"hash\":\"%016llx\",\"counters\":{", (unsigned long long) runs, (unsigned long long) nev, (unsigned long long) steps_, (unsigned long long) choices, (unsigned long long) allocs, (unsigned long long) nontriv, (unsigned long long) failed, now_s() - t0, (unsigned long long) allhash);
        bool first = true; for (auto& [n, v] : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", n.c_str(), (unsigned long long) v); first = false; }
        fprintf(f, "}}\n"); fclose(f);
        f = fopen((out + ".sigs").c_str(), "wb"); for (auto s : sigs) fwrite(&s, 8, 1, f); fclose(f);
        return failed ? 1 : 0;
    }
    if (mode == "replay") {          // replay FILE
        auto c = parse_choices(argv[2]);
        Result r = run_once(0, &c, true);
        if (argc < 4) fputs(S->log, stdout);
        printf("RESULT status=%d class=%s hash=%016llx msg=%s\n", r.status, r.cls.c_str(), (unsigned long long) r.evhash, r.msg.c_str());
        return r.status == 2 ? 1 : 0;
    }
    if (mode == "one") {             // one SEED INDEX : verbose run
        Result r = run_once(run_seed(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10)), nullptr, true);
        fputs(S->log, stdout);
        printf("RESULT status=%d class=%s hash=%016llx msg=%s\n", r.status, r.cls.c_str(), (unsigned long long) r.evhash, r.msg.c_str());
        return r.status == 2;
    }
    return 3;
}
} // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    if (!getenv("SIM_NOASLR_TRIED")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR_TRIED", "1", 1); execv("/proc/self/exe", argv); }
    }
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    S = (Shared*) mmap((void*) 0x220000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    char* a = (char*) mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (S == MAP_FAILED || a != ARENA) { fprintf(stderr, "cannot map simulator memory\n"); return 3; }
    lo_p = ARENA + 4096; hi_p = ARENA + ARENA_SZ - 4096;
    sim_absl_seed = nullptr;
    if (SIM_PROPERTY.warmup) SIM_PROPERTY.warmup();
    return main_(argc, argv);
}
