#include "core.h"
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <unordered_set>

enum { MAXCHOICES = 1 << 18, MAXCOUNTERS = 384, COVMAX = 16384 };
enum { ST_RUNNING, ST_OK, ST_VIOLATION, ST_DISCARD, ST_HARNESS };
struct Shm {
    uint32_t status, nchoices;
    char cls[512], detail[16384], sample[16384];
    u64 hash, sig, steps, edges, switches;
    // cumulative
    uint32_t ncounters;
    char cname[MAXCOUNTERS][48];
    u64 cval[MAXCOUNTERS];
    uint8_t cov[COVMAX];
    uint32_t choices[MAXCHOICES];
};
static Shm* S;
static Rng g_rng(0);
static bool g_replay;
static const uint32_t* g_in;
static uint32_t g_nin;
bool g_verbose;
FILE* g_con;
static uint32_t g_nguards;

static inline void mix(u64 v) { S->hash = (S->hash ^ v) * 0x100000001b3ull; S->hash ^= S->hash >> 29; }

uint32_t pick(uint32_t n, const char* label) {
    if (n <= 1) return 0;
    uint32_t i = S->nchoices, v;
    if (g_replay) v = i < g_nin ? g_in[i] % n : 0;
    else v = g_rng.below(n);
    if (i < MAXCHOICES) S->choices[i] = v;
    else discard("too many choices");
    S->nchoices = i + 1;
    mix(((u64)n << 32) | v);
    if (g_verbose) fprintf(g_con, "  [%u] %s = %u of %u\n", i, label, v, n);
    return v;
}
u64 derive(const char* label) { Rng r(pick(1u << 30, label) + 77); return r.next(); }
static bool g_quiet_trace;
void trace(const char* f, ...) {
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    for (char* p = b; *p; ++p) mix((unsigned char)*p);
    if (g_verbose && !g_quiet_trace) fprintf(g_con, "%s\n", b);
}
std::string fmt(const char* f, ...) {
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }
static void setstr(char* d, size_t n, const std::string& s) { size_t l = std::min(n - 1, s.size()); memcpy(d, s.data(), l); d[l] = 0; }
static int g_iso;  // inside isolated(): violations are passed to the parent
static void leave(uint32_t st) {
    S->status = st;
    fflush(nullptr);
    _exit(st == ST_OK ? 0 : 10 + st);
}
void violate(const std::string& cls, const std::string& detail) {
    if (S->status == ST_RUNNING) { setstr(S->cls, sizeof S->cls, cls); setstr(S->detail, sizeof S->detail, detail); }
    leave(ST_VIOLATION);
    abort();
}
void discard(const char* why) { setstr(S->cls, sizeof S->cls, why); leave(ST_DISCARD); abort(); }
void harness_error(const std::string& w) { setstr(S->cls, sizeof S->cls, "harness: " + w); leave(ST_HARNESS); abort(); }
void count(const char* name, u64 n) {
    for (uint32_t i = 0; i < S->ncounters; ++i) if (!strcmp(S->cname[i], name)) { S->cval[i] += n; return; }
    if (S->ncounters >= MAXCOUNTERS) return;
    uint32_t i = S->ncounters++;
    setstr(S->cname[i], 48, name);
    S->cval[i] = n;
}
void sig(u64 h) { S->sig = (S->sig ^ h) * 0x9E3779B97F4A7C15ull; S->sig ^= S->sig >> 31; }
void sample(const std::string& s) { if (strlen(S->sample) + s.size() + 2 < sizeof S->sample) { strcat(S->sample, s.c_str()); strcat(S->sample, "\n"); } }
void steps(u64 n) { S->steps += n; }

// ---- edges ------------------------------------------------------------------------------------
static int64_t g_left = INT64_MAX, g_slice0 = INT64_MAX;  // edges until next event
static u64 g_edges;                   // edges before the current slice
// No run may take longer than this many edges, whatever it does: far beyond the longest run of the unchanged code, and
// well within the wall clock limit of a run.
static const u64 RUN_EDGES = 2000000000ull;
static u64 g_hang_at = RUN_EDGES;
static char g_hang_what[96] = "run without progress";
static int g_nopreempt;
static bool g_preempt_on;
static u64 g_preempt_at = ~0ull;
static void rearm() {
    u64 now = edges_now();
    u64 next = std::min<u64>(g_hang_at, g_preempt_on ? g_preempt_at : ~0ull);
    g_edges = now;
    g_left = g_slice0 = next <= now ? 1 : (next - now > (1ull << 60) ? (1ll << 60) : (int64_t)(next - now));
}
u64 edges_now() { return g_edges + (u64)(g_slice0 - g_left); }
// Budgets are given in edges of which about a third would be enough to cover a program (every block counts: also the
// only block of a loop).
void hang_limit(u64 n, const char* what) { g_hang_at = std::min(edges_now() + n * 3, RUN_EDGES); setstr(g_hang_what, sizeof g_hang_what, what); rearm(); }
void hang_off() { g_hang_at = RUN_EDGES; setstr(g_hang_what, sizeof g_hang_what, "run without progress"); rearm(); }
static void do_preempt();
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (uint32_t* p = a; p < b; ++p) *p = ++g_nguards < COVMAX ? g_nguards : 0;
}
static __attribute__((noinline)) void edge_event() {
    u64 now = edges_now();
    if (now >= g_hang_at) { g_hang_at = ~0ull; violate(std::string("hang:") + g_hang_what, "no progress: the edge budget of this operation was exhausted"); }
    if (g_preempt_on && now >= g_preempt_at) {
        if (g_nopreempt) g_preempt_at = now + 50;
        else { do_preempt(); return; }
    }
    rearm();
}
static std::vector<uintptr_t>& g_pcs() { static std::vector<uintptr_t> v; return v; }      // code address by guard
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t* a, const uintptr_t* b) { for (; a < b; a += 2) g_pcs().push_back(*a); }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (S) S->cov[*g] = 1;
    if (--g_left <= 0) edge_event();
}

// Memory accesses are points of preemption as well in the example programs and (for C01 and C03) in the library. What
// independent threads can meet in is static memory that is written: a switch is likely before every access to it.
extern "C" char __data_start, _end;
static void static_access(uintptr_t p, bool store);
static inline void access(void* p, bool store) {
    if (g_preempt_on && (char*)p >= &__data_start && (char*)p < &_end) static_access((uintptr_t)p, store);
    if (--g_left <= 0) edge_event();
}
#define ACCESS(n) extern "C" void __sanitizer_cov_load##n(void* p) { access(p, false); } extern "C" void __sanitizer_cov_store##n(void* p) { access(p, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

// ---- symbols (to name the library function an error occurred in) --------------------------------
extern "C" void repo_begin(void);
extern "C" void repo_end(void);
struct Symx { uintptr_t a; uint32_t n; };
static std::vector<Symx> g_syms;
static std::string g_strtab;
static void load_symbols() {
    int fd = open("/proc/self/exe", O_RDONLY);
    std::string d;
    char buf[65536];
    ssize_t k;
    while ((k = read(fd, buf, sizeof buf)) > 0) d.append(buf, k);
    close(fd);
    auto* eh = (Elf64_Ehdr*)d.data();
    auto* sh = (Elf64_Shdr*)(d.data() + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i)
        if (sh[i].sh_type == SHT_SYMTAB) {
            auto& st = sh[sh[i].sh_link];
            g_strtab.assign(d.data() + st.sh_offset, st.sh_size);
            auto* sy = (Elf64_Sym*)(d.data() + sh[i].sh_offset);
            for (size_t j = 0; j < sh[i].sh_size / sizeof(Elf64_Sym); ++j)
                if (ELF64_ST_TYPE(sy[j].st_info) == STT_FUNC && sy[j].st_value >= (uintptr_t)&repo_begin && sy[j].st_value < (uintptr_t)&repo_end)
                    g_syms.push_back({sy[j].st_value, sy[j].st_name});
        }
    std::sort(g_syms.begin(), g_syms.end(), [](const Symx& x, const Symx& y) { return x.a < y.a; });
}
static std::string repo_func(uintptr_t pc) {
    if (pc < (uintptr_t)&repo_begin || pc >= (uintptr_t)&repo_end) return "";
    auto it = std::upper_bound(g_syms.begin(), g_syms.end(), pc, [](uintptr_t p, const Symx& s) { return p < s.a; });
    if (it == g_syms.begin()) return "";
    return g_strtab.c_str() + (it - 1)->n;
}
static void on_asan(const char* rep) {
    std::string kind = "error", fn;
    const char* p = strstr(rep, "AddressSanitizer: ");
    if (p) { p += 18; kind.assign(p, strcspn(p, " \n")); }
    std::string det;
    int shown = 0;
    for (const char* q = rep; (q = strstr(q, "    #")); ++q) {
        const char* h = strstr(q, "0x");
        if (!h) break;
        std::string f = repo_func(strtoull(h, nullptr, 16) - (strncmp(q, "    #0", 6) ? 1 : 0));
        if (!f.empty()) { if (fn.empty()) fn = f; if (shown++ < 12) det += f + " < "; }
        const char* nx = strstr(q + 5, "\n");
        if (!nx) break;
        if (nx[1] == '\n') break;  // only the first stack
    }
    if (kind == "SEGV") { if (strstr(rep, "caused by a WRITE")) kind = "SEGV-write"; else kind = "SEGV-read"; }
    violate("memory:" + kind + "@" + (fn.empty() ? "?" : fn), det + "\n" + std::string(rep).substr(0, 1500));
}
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:symbolize=0:abort_on_error=0:exitcode=99:handle_segv=1:handle_abort=0:handle_sigfpe=1:use_sigaltstack=1:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:log_path=/dev/null:print_legend=0:quarantine_size_mb=4:max_malloc_fill_size=0:poison_heap=1";
}
extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* func) {
    const char* b = strrchr(file, '/');
    violate(fmt("assert:%s@%s", e, func ? func : "?"), fmt("assertion '%s' failed in %s (%s:%u)", e, func ? func : "?", b ? b + 1 : file, line));
}
// a process that ends: exit() writes out what is buffered, _exit() and its like do not
jmp_buf* g_exit_to;
int g_exit_code;
static void process_ends(int c, bool flush) {
    if (flush) fflush(nullptr);
    g_exit_code = c;
    jmp_buf* to = g_exit_to;
    g_exit_to = nullptr;
    longjmp(*to, 1);
}
extern "C" void __wrap__exit(int c) { if (g_exit_to) process_ends(c, false); violate("exit", fmt("the library called _exit(%d)", c)); }
extern "C" void __wrap__Exit(int c) { __wrap__exit(c); }
extern "C" void __wrap_quick_exit(int c) { __wrap__exit(c); }
extern "C" void __wrap_exit(int c) { if (g_exit_to) process_ends(c, true); violate("exit", fmt("the library called exit(%d)", c)); }
extern "C" void __wrap_abort() { if (g_exit_to) process_ends(134, false); violate("abort", "the library called abort()"); }

// ---- fibers ---------------------------------------------------------------------------------------
enum { NFIB = 8, FSTACK = 1 << 20 };
struct Fiber { ucontext_t uc; std::function<void()> body; bool done; FiberIO io; void* fake; uintptr_t held; };  // held: stalled until another one is at that word of static memory
static Fiber g_fib[NFIB];
static int g_cur = -1, g_nf;
static ucontext_t g_sched;
static void* g_sched_fake;
static const void* g_main_bottom;
static size_t g_main_size;
static char* g_stacks;
static u64 g_until;
int fiber_self() { return g_cur; }
void fiber_disable_preempt(int d) { g_nopreempt += d; }
static void fiber_main() {
    __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
    Fiber& f = g_fib[g_cur];
    f.body();
    f.done = true;
    __sanitizer_start_switch_fiber(nullptr, g_main_bottom, g_main_size);
    swapcontext(&f.uc, &g_sched);
    abort();
}
static void to_sched() {
    Fiber& f = g_fib[g_cur];
    __sanitizer_start_switch_fiber(&f.fake, g_main_bottom, g_main_size);
    swapcontext(&f.uc, &g_sched);
    __sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
}
static void do_preempt() { to_sched(); rearm(); }
static struct { uintptr_t p; int left; } g_meet[256];
static void static_access(uintptr_t p, bool store) {
    if (g_nopreempt || g_cur < 0) return;
    auto& m = g_meet[(p >> 3) & 255];
    if (m.p != p >> 3) {
        if (!store || m.p) return;
        m.p = p >> 3;
        m.left = 40;
    }
    for (int i = 0; i < g_nf; ++i) if (i != g_cur && g_fib[i].held == p >> 3) { g_fib[i].held = 0; m.left = std::max(m.left, 8); count("schedule.met at static memory"); }
    if (m.left-- <= 0) return;
    int how = pick(8, "switch at an access to static memory");
    if (how == 7) { g_fib[g_cur].held = p >> 3; count("schedule.stalled at static memory"); do_preempt(); }
    else if (how >= 5) { count("schedule.switch at static memory"); do_preempt(); }
}
void race_access(const void* p, size_t n, bool store) { if (n && g_preempt_on && (char*)p >= &__data_start && (char*)p < &_end) static_access((uintptr_t)p, store); }
void fiber_yield() { if (g_cur >= 0) to_sched(); }
void run_fibers(std::vector<std::function<void()>> bodies, std::vector<FiberIO> io, int max_switches) {
    g_nf = bodies.size();
    if (g_nf > NFIB) harness_error("too many fibers");
    for (int i = 0; i < g_nf; ++i) {
        Fiber& f = g_fib[i];
        f.body = bodies[i];
        f.done = false;
        f.io = i < (int)io.size() ? io[i] : FiberIO{};
        f.fake = nullptr;
        f.held = 0;
        getcontext(&f.uc);
        f.uc.uc_stack.ss_sp = g_stacks + (size_t)i * FSTACK * 2 + FSTACK;
        f.uc.uc_stack.ss_size = FSTACK;
        f.uc.uc_link = nullptr;
        makecontext(&f.uc, fiber_main, 0);
    }
    FILE *so = stdout, *si = stdin;
    int switches = 0, style = pick(4, "slice style");
    static const int lng[4] = {15000, 3000, 40000, 400};
    static const int spans[4][3] = {{5000, 750, 150}, {1000, 150, 30}, {50000, 5000, 500}, {60, 15, 4}};
    for (;;) {
        std::vector<int> run;
        for (int i = 0; i < g_nf; ++i) if (!g_fib[i].done) run.push_back(i);
        if (run.empty()) break;
        auto held = std::partition(run.begin(), run.end(), [](int i) { return !g_fib[i].held; });
        if (held == run.begin()) for (int i : run) g_fib[i].held = 0;
        else run.erase(held, run.end());
        std::sort(run.begin(), run.end());
        int who = run[0];
        u64 slice = 1ull << 40;
        if (run.size() > 1) {
            if (switches < max_switches) {
                who = run[pick(run.size(), "run fiber")];
                int k = pick(4, "slice kind");
                if (k > 0) slice = 1 + pick(spans[style][k - 1], "slice edges");
                else slice = lng[style];
            } else { who = run[switches % run.size()]; slice = 10000; }
            ++switches;
        }
        g_cur = who;
        Fiber& f = g_fib[who];
        if (f.io.out) stdout = f.io.out;
        if (f.io.in) stdin = f.io.in;
        g_preempt_on = true;
        g_preempt_at = edges_now() + slice;
        rearm();
        u64 e0 = edges_now();
        __sanitizer_start_switch_fiber(&g_sched_fake, g_stacks + (size_t)who * FSTACK * 2 + FSTACK, FSTACK);
        swapcontext(&g_sched, &f.uc);
        __sanitizer_finish_switch_fiber(g_sched_fake, nullptr, nullptr);
        g_cur = -1;
        g_preempt_on = false;
        rearm();
        stdout = so;
        stdin = si;
        mix(((u64)who << 40) | (edges_now() - e0));
        sig(((u64)who << 40) | (edges_now() - e0));
    }
    S->switches += switches;
    count("schedule.switches", switches);
}

std::string isolated(const std::function<std::string()>& fn, bool lenient) {
    int p[2];
    if (pipe(p)) harness_error("pipe");
    // The copy works on a private snapshot of the bookkeeping page, so that the parent is unaffected by it.
    static Shm* snap = nullptr;
    if (!snap) snap = (Shm*)malloc(offsetof(Shm, choices));
    memcpy(snap, S, offsetof(Shm, choices));
    fflush(nullptr);
    pid_t c = fork();
    if (c == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        g_quiet_trace = true;
        std::string r = fn();
        size_t o = 0;
        while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
        close(p[1]);
        _exit(0);
    }
    close(p[1]);
    std::string out;
    char b[8192];
    ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, k);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        if (lenient && S->status != ST_HARNESS) {
            u64 k = S->nchoices;
            std::string why = S->status == ST_RUNNING ? "crash" : S->status == ST_DISCARD ? "discard" : std::string(S->cls) + "\n" + S->detail;
            memcpy(S, snap, offsetof(Shm, ncounters));
            S->nchoices = k;
            return "\x01" + why;
        }
        if (S->status == ST_RUNNING) { setstr(S->cls, sizeof S->cls, fmt("crash:signal-%d", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st))); leave(ST_VIOLATION); }
        _exit(10 + S->status);
    }
    uint32_t nch = S->nchoices;
    if (nch != snap->nchoices) harness_error("pick() inside isolated()");
    u64 st2 = S->steps;
    memcpy(S, snap, offsetof(Shm, ncounters));
    S->steps = st2;
    return out;
}

// ---- heap ------------------------------------------------------------------------------------------
struct SimHeap::Impl {
    std::map<uintptr_t, Block> blocks;        // live and reusable/quarantined
    std::vector<uintptr_t> freelist;          // LIFO
    std::vector<uintptr_t> quarantined;
};
static SimHeap* g_heaps[SimHeap::MAX_ARENAS];
static int g_nheaps;
static const uintptr_t HEAP0 = 0x200000000000ull;
static void heaps_init() {
    void* r = mmap((void*)HEAP0, (size_t)SimHeap::MAX_ARENAS * SimHeap::ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (r != (void*)HEAP0) { fprintf(stderr, "mmap heap failed\n"); exit(4); }
    __asan_poison_memory_region(r, (size_t)SimHeap::MAX_ARENAS * SimHeap::ARENA);
    g_stacks = (char*)mmap((void*)0x300000000000ull, (size_t)NFIB * FSTACK * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < NFIB; ++i) mprotect(g_stacks + (size_t)i * FSTACK * 2, FSTACK, PROT_NONE);
}
SimHeap* new_heap(const char* name) {
    if (g_nheaps >= SimHeap::MAX_ARENAS) harness_error("too many heaps");
    auto* h = new SimHeap();
    h->id = g_nheaps;
    h->name = name;
    h->base = HEAP0 + (size_t)g_nheaps * SimHeap::ARENA + 4096;
    h->bump = h->base;
    h->top = HEAP0 + (size_t)(g_nheaps + 1) * SimHeap::ARENA - 4096;
    h->impl = new SimHeap::Impl();
    g_heaps[g_nheaps++] = h;
    return h;
}
SimHeap* heap_of(const void* p) {
    for (int i = 0; i < g_nheaps; ++i) if (g_heaps[i]->owns(p)) return g_heaps[i];
    return nullptr;
}
static void* sim_alloc(void* p, size_t n, void* u) {
    // the allocator is a scheduling point of its own, but must not be preempted half way
    return ((SimHeap*)u)->alloc(p, n);
}
SimHeap* g_libc_heap;
extern "C" {
void* __wrap_malloc(size_t n) { return g_libc_heap ? g_libc_heap->alloc(nullptr, n) : malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!g_libc_heap) return calloc(a, b); void* p = g_libc_heap->alloc(nullptr, a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (p && heap_of(p) && !g_libc_heap) violate("alloc:wrong-context", fmt("block of context '%s' passed to realloc", heap_of(p)->name));
    return g_libc_heap && (!p || heap_of(p)) ? g_libc_heap->alloc(p, n) : realloc(p, n);
}
void __wrap_free(void* p) {
    if (!p || !heap_of(p)) { free(p); return; }
    if (!g_libc_heap) violate("alloc:wrong-context", fmt("block of context '%s' passed to free", heap_of(p)->name));
    g_libc_heap->alloc(p, 0);
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; return (char*)memcpy(__wrap_malloc(n), s, n); }
}
Tiny_Context SimHeap::ctx() { return Tiny_Context{sim_alloc, this}; }
void SimHeap::randomize(const char* label) {
    place = pick(5, label);
    gap = place == 2 ? 0 : (int)(pick(3, "gap") * 16);
    move_always = pick(3, "realloc") != 2;
    shrink_inplace = !move_always;
    static const int fills[] = {0xA5, 0x00, 0xFF, 0x01, -1, 0x41};
    fill = fills[pick(6, "fill")];
    static const int qs[] = {64, 0, 4, 1000};
    quarantine = qs[pick(4, "quarantine")];
    fillseed = pick(1000, "fillseed");
}
std::string SimHeap::policy() const {
    static const char* pn[] = {"bump", "lifo", "tight", "firstfit", "randomfit"};
    return fmt("%s gap=%d %s fill=%d quarantine=%d", pn[place], gap, move_always ? "move" : "inplace", fill, quarantine);
}
SimHeap::Block* SimHeap::find(void* p) {
    auto it = impl->blocks.find((uintptr_t)p);
    return it == impl->blocks.end() ? nullptr : &it->second;
}
SimHeap::Block* SimHeap::around(void* p) {
    auto it = impl->blocks.upper_bound((uintptr_t)p);
    if (it == impl->blocks.begin()) return nullptr;
    --it;
    return (uintptr_t)p < it->second.p + it->second.size ? &it->second : nullptr;
}
std::vector<SimHeap::Block> SimHeap::live_blocks() {
    std::vector<Block> v;
    for (auto& b : impl->blocks) if (b.second.live) v.push_back(b.second);
    return v;
}
void* SimHeap::alloc(void* p, size_t n) {
    auto& bl = impl->blocks;
    if (p) {
        Block* b = find(p);
        if (!b) {
            SimHeap* o = heap_of(p);
            if (o && o != this && o->find(p)) violate("alloc:wrong-context", fmt("block of context '%s' passed to context '%s' (size %zu)", o->name, name, n));
            violate("alloc:not-a-block", fmt("pointer that is not the start of a block passed to context '%s' (size %zu)", name, n));
        }
        if (!b->live) violate(n ? "alloc:realloc-after-free" : "alloc:double-free", fmt("released block passed again to context '%s' (size %zu)", name, n));
        if (n == 0) {
            b->live = false;
            live_bytes -= b->size;
            --nlive;
            ++nfree;
            if (ro) violate("alloc:free-while-shared", fmt("block of context '%s' released while it was shared read-only", name));
            if (free_fill >= 0) memset(p, free_fill, b->size);
            __asan_poison_memory_region(p, b->room);
            if (place == 2 || place == 0) { if (place == 2) impl->freelist.push_back(b->p); }
            else {
                impl->quarantined.push_back(b->p);
                while ((int)impl->quarantined.size() > quarantine) { impl->freelist.push_back(impl->quarantined.front()); impl->quarantined.erase(impl->quarantined.begin()); }
            }
            return nullptr;
        }
        ++nrealloc;
        if (!move_always && n <= b->room) {
            __asan_unpoison_memory_region(p, n);
            if (b->room > n) __asan_poison_memory_region((char*)p + ((n + 7) & ~7ull), b->room - ((n + 7) & ~7ull));
            if (n > b->size && fill >= 0) memset((char*)p + b->size, fill, n - b->size);
            live_bytes += n - b->size;
            b->size = n;
            return p;
        }
        size_t old = b->size;
        void* q = alloc(nullptr, n);
        memcpy(q, p, std::min(old, n));
        alloc(p, 0);
        --nalloc; --nfree;
        return q;
    }
    if (n == 0) return nullptr;  // realloc(NULL, 0)-style request or free(NULL): nothing
    size_t room = (n + 15) & ~15ull;
    uintptr_t at = 0;
    if (place == 1 || place == 3 || place == 4 || place == 2) {
        auto& fl = impl->freelist;
        if (place == 4 && !fl.empty()) { u64 k = Rng(fillseed + nalloc).below(fl.size()); std::swap(fl[k], fl.back()); }
        size_t tries = 0;
        for (size_t i = fl.size(); i-- > 0 && tries < 64; ++tries) {
            size_t j = place == 3 ? fl.size() - 1 - i : i;
            if (bl[fl[j]].room >= room && (place != 2 || bl[fl[j]].room == room)) { at = fl[j]; fl.erase(fl.begin() + j); break; }
        }
    }
    if (!at) {
        if (bump + room + gap > top && live_bytes + n < cap / 4) discard("the arena of a context that does not reuse memory is used up");
        if (bump + room + gap > top || live_bytes + n > cap) violate("resource:memory", fmt("context '%s' grew beyond %zu bytes (request %zu, live %zu)", name, (size_t)(top - base), n, live_bytes));
        at = bump;
        bump += room + gap;
        bl[at] = Block{at, n, room, true, 0};
    }
    Block& b = bl[at];
    b.size = n;
    b.live = true;
    b.serial = ++nalloc;
    ++nlive;
    live_bytes += n;
    peak_bytes = std::max(peak_bytes, live_bytes);
    __asan_poison_memory_region((void*)at, b.room);
    __asan_unpoison_memory_region((void*)at, n);
    if (fill >= 0) memset((void*)at, fill, n);
    else { Rng r(fillseed * 1000003 + nalloc); for (size_t i = 0; i < n; ++i) ((char*)at)[i] = (char)r.next(); }
    return (void*)at;
}
void SimHeap::protect(bool r) {
    ro = r;
    uintptr_t a = base & ~4095ull, e = (bump + 4095) & ~4095ull;
    if (e > a) mprotect((void*)a, e - a, r ? PROT_READ : PROT_READ | PROT_WRITE);
}
__attribute__((no_sanitize("address"))) u64 SimHeap::content_hash() {
    u64 h = 7;
    for (auto& b : impl->blocks) if (b.second.live) for (size_t i = 0; i < b.second.size; ++i) h = (h ^ *(unsigned char*)(b.first + i)) * 0x100000001b3ull;
    return h;
}

// ---- running ---------------------------------------------------------------------------------------
static void (*g_run)();
static bool g_child_stdout_null;
static int child_once(u64 seed, const uint32_t* in, uint32_t nin, int wall) {
    S->status = ST_RUNNING;
    S->nchoices = 0;
    S->cls[0] = S->detail[0] = S->sample[0] = 0;
    S->hash = 0xcbf29ce484222325ull;
    S->sig = 1;
    S->steps = S->edges = S->switches = 0;
    fflush(nullptr);
    pid_t c = fork();
    if (c == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(wall);
        g_rng = Rng(seed);
        g_replay = in != nullptr;
        g_in = in;
        g_nin = nin;
        rearm();
        if (g_child_stdout_null) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        g_run();
        S->edges = edges_now();
        leave(ST_OK);
    }
    int st;
    waitpid(c, &st, 0);
    if (S->status == ST_RUNNING) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { S->status = ST_HARNESS; setstr(S->cls, sizeof S->cls, "harness: wall clock limit of a run"); }
        else { S->status = ST_VIOLATION; setstr(S->cls, sizeof S->cls, WIFSIGNALED(st) ? fmt("crash:signal-%d", WTERMSIG(st)) : fmt("crash:exit-%d", WEXITSTATUS(st))); }
    }
    return S->status;
}
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
static bool same_class(const char* want, u64) { return S->status == ST_VIOLATION && !strcmp(S->cls, want); }
typedef std::vector<uint32_t> Seq;
static bool try_seq(const Seq& s, const char* cls, Seq* out) {
    static uint32_t buf[MAXCHOICES];
    memcpy(buf, s.data(), s.size() * 4);
    child_once(0, buf, s.size(), 20);
    if (!same_class(cls, 0)) return false;
    out->assign(S->choices, S->choices + std::min<uint32_t>(S->nchoices, MAXCHOICES));
    return true;
}
static bool simpler(const Seq& a, const Seq& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}
static Seq minimise(Seq cur, const char* cls, int budget, double secs) {
    double t0 = now_s();
    int tries = 0;
    auto attempt = [&](const Seq& s) {
        if (tries >= budget || now_s() - t0 > secs) return false;
        ++tries;
        Seq o;
        if (!try_seq(s, cls, &o)) return false;
        while (!o.empty() && o.back() == 0) o.pop_back();
        if (!simpler(o, cur)) return false;
        cur = o;
        return true;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    for (bool progress = true; progress && tries < budget && now_s() - t0 < secs;) {
        progress = false;
        for (size_t len = cur.size() / 2; len >= 1; len /= 2) {   // truncate, delete, zero
            { Seq s = cur; s.resize(s.size() - std::min(len, s.size())); if (attempt(s)) { progress = true; } }
            for (size_t i = 0; i + len <= cur.size();) {
                Seq s = cur;
                s.erase(s.begin() + i, s.begin() + i + len);
                if (attempt(s)) { progress = true; continue; }
                s = cur;
                bool nz = false;
                for (size_t k = i; k < i + len; ++k) { nz |= s[k] != 0; s[k] = 0; }
                if (nz && attempt(s)) progress = true;
                i += len;
                if (tries >= budget || now_s() - t0 > secs) return cur;
            }
        }
        for (size_t i = 0; i < cur.size(); ++i)
            while (cur[i] > 0) {
                Seq s = cur;
                s[i] = cur[i] / 2;
                if (attempt(s)) { progress = true; if (i >= cur.size()) break; continue; }
                s = cur; if (i >= s.size()) break;
                s[i] -= 1;
                if (s[i] != cur[i] / 2 && attempt(s)) { progress = true; if (i >= cur.size()) break; continue; }
                break;
            }
    }
    return cur;
}
int main(int argc, char** argv) {
    g_con = stdout;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    if (argc > 1 && !strcmp(argv[1], "covmap")) { for (auto p : g_pcs()) printf("0x%zx\n", (size_t)p); return 0; }
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    std::string mode = argc > 1 ? argv[1] : "", id = o["--check"];
    for (Check* c = g_checks; c->id; ++c) if (id == c->id) g_run = c->run;
    if (g_example_checks) for (Check* c = g_example_checks; c->id; ++c) if (id == c->id) g_run = c->run;
    if (!g_run) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 4; }
    S = (Shm*)mmap((void*)0x310000000000ull, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
    load_symbols();
    heaps_init();
    __asan_set_error_report_callback(on_asan);
    if (mode == "run") {
        g_child_stdout_null = true;
        u64 seed = strtoull(o["--seed"].c_str(), 0, 10), start = atoi(o["--start"].c_str()), n = strtoull(o["--count"].c_str(), 0, 10), stride = atoi(o["--stride"].c_str());
        double limit = o.count("--secs") ? atof(o["--secs"].c_str()) : 1e9, t0 = now_s();
        int maxviol = o.count("--maxviol") ? atoi(o["--maxviol"].c_str()) : 1;
        bool nomin = o.count("--nomin");
        bool hashes = o.count("--hashes");
        std::vector<std::string> known;
        { std::string k = o["--known"]; size_t p = 0; while (p < k.size()) { size_t e = k.find('\x1f', p); if (e == std::string::npos) e = k.size(); if (e > p) known.push_back(k.substr(p, e - p)); p = e + 1; } }
        std::unordered_set<u64> sigs;
        std::map<std::string, int> seen, knownhits, discards;
        std::string viol = "[", samples = "[", hs;
        u64 ok = 0, disc = 0, tot = 0, st = 0, ed = 0, sw = 0, maxed = 0;
        std::string herr;
        for (u64 i = start; i < n; i += stride) {
            if (now_s() - t0 > limit) break;
            Rng sr(seed * 0x2545F4914F6CDD1Dull + hash_str(id));
            u64 rs = Rng(sr.next() + i).next();
            child_once(rs, nullptr, 0, 150);
            ++tot;
            st += S->steps; ed += S->edges; sw += S->switches; maxed = std::max<u64>(maxed, S->edges);
            if (hashes) hs += fmt("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)S->hash, (int)S->status);
            if (S->status == ST_OK) { ++ok; sigs.insert(S->sig); if (samples.size() < 6000 && ok % 97 == 1 && S->sample[0]) samples += (samples.size() > 1 ? "," : "") + jstr(fmt("run %llu: ", (unsigned long long)i) + S->sample); }
            else if (S->status == ST_DISCARD) { ++disc; discards[S->cls]++; }
            else if (S->status == ST_HARNESS) { herr = fmt("run %llu: %s", (unsigned long long)i, S->cls); break; }
            else {
                std::string cls = S->cls;
                bool isk = false;
                for (auto& k : known) if (cls == k) { isk = true; knownhits[k]++; }
                if (isk) continue;
                if (seen[cls]++) continue;
                u64 h1 = S->hash;
                std::string det = S->detail, smp = S->sample;
                Seq s(S->choices, S->choices + std::min<uint32_t>(S->nchoices, MAXCHOICES));
                child_once(rs, nullptr, 0, 150);
                if (S->hash != h1 || S->status != ST_VIOLATION || cls != S->cls) { herr = fmt("run %llu is not deterministic (%s / %s)", (unsigned long long)i, cls.c_str(), S->cls); break; }
                Seq m = s, tmp;
                if (!try_seq(s, cls.c_str(), &tmp)) { herr = fmt("run %llu does not replay from its choices (%s)", (unsigned long long)i, cls.c_str()); break; }
                if (!nomin) m = minimise(s, cls.c_str(), 3000, 60);
                Seq fin;
                try_seq(m, cls.c_str(), &fin);
                std::string ch;
                for (auto v : m) ch += (ch.empty() ? "" : ",") + std::to_string(v);
                viol += fmt("%s{\"run\":%llu,\"hash\":\"%016llx\",\"orig_len\":%zu,\"class\":", viol.size() > 1 ? "," : "", (unsigned long long)i, (unsigned long long)S->hash, s.size()) + jstr(cls) + ",\"detail\":" + jstr(S->detail) + ",\"sample\":" + jstr(S->sample) + ",\"choices\":[" + ch + "]}";
                if ((int)seen.size() >= maxviol) break;
            }
        }
        FILE* f = fopen(o["--out"].c_str(), "w");
        std::string cj = "{", kj = "{", dj = "{";
        for (uint32_t i = 0; i < S->ncounters; ++i) cj += (i ? "," : "") + jstr(S->cname[i]) + ":" + std::to_string(S->cval[i]);
        for (auto& k : knownhits) kj += (kj.size() > 1 ? "," : "") + jstr(k.first) + ":" + std::to_string(k.second);
        for (auto& k : discards) dj += (dj.size() > 1 ? "," : "") + jstr(k.first) + ":" + std::to_string(k.second);
        std::string cov, sg;
        for (uint32_t i = 1; i < std::min<uint32_t>(g_nguards + 1, COVMAX); ++i) cov += S->cov[i] ? '1' : '0';
        for (auto x : sigs) sg += fmt("%s\"%llx\"", sg.empty() ? "" : ",", (unsigned long long)x);
        fprintf(f, "{\"total\":%llu,\"ok\":%llu,\"discarded\":%llu,\"steps\":%llu,\"edges\":%llu,\"max_edges\":%llu,\"switches\":%llu,\"wall\":%f,\"harness_error\":%s,\"counters\":%s},\"known\":%s},\"discards\":%s},\"cov\":\"%s\",\"samples\":%s],\"violations\":%s],\"sigs\":[%s]}\n",
                (unsigned long long)tot, (unsigned long long)ok, (unsigned long long)disc, (unsigned long long)st, (unsigned long long)ed, (unsigned long long)maxed, (unsigned long long)sw, now_s() - t0, jstr(herr).c_str(), cj.c_str(), kj.c_str(), dj.c_str(), cov.c_str(), samples.c_str(), viol.c_str(), sg.c_str());
        fclose(f);
        if (hashes) { f = fopen(o["--hashes"].c_str(), "w"); fputs(hs.c_str(), f); fclose(f); }
        return 0;
    }
    if (mode == "replay") {  // --choices 1,2,3  --verbose 0|1
        Seq s;
        std::string c;
        if (o.count("--file")) { FILE* f = fopen(o["--file"].c_str(), "r"); if (!f) return 4; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) c.append(b, k); fclose(f); }
        for (size_t p = 0; p < c.size();) { if (!isdigit(c[p])) { ++p; continue; } char* e; s.push_back(strtoul(c.c_str() + p, &e, 10)); p = e - c.c_str(); }
        g_verbose = o["--verbose"] == "1";
        g_child_stdout_null = false;
        static uint32_t buf[MAXCHOICES];
        memcpy(buf, s.data(), s.size() * 4);
        child_once(0, buf, s.size(), 150);
        static const char* names[] = {"running", "ok", "violation", "discarded", "harness-error"};
        printf("%s\nRESULT %s class=%s hash=%016llx choices=%u\n%s\n", g_verbose ? S->sample : "", names[S->status], S->cls, (unsigned long long)S->hash, S->nchoices, S->detail);
        return S->status == ST_OK ? 0 : S->status;
    }
    if (mode == "seed") {  // one random run, verbose
        g_verbose = true;
        u64 seed = strtoull(o["--seed"].c_str(), 0, 10), i = strtoull(o["--run"].c_str(), 0, 10);
        Rng sr(seed * 0x2545F4914F6CDD1Dull + hash_str(id));
        child_once(Rng(sr.next() + i).next(), nullptr, 0, 150);
        printf("%s\nstatus %u class=%s hash=%016llx choices=%u edges=%llu\n%s\n", S->sample, S->status, S->cls, (unsigned long long)S->hash, S->nchoices, (unsigned long long)S->edges, S->detail);
        return 0;
    }
    return 4;
}
