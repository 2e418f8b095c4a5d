// Core of the simulator: recorded choices, simulated heaps, fibers preempted at
// instrumented edges of the library, violation reporting. See ../DESIGN.md.
#pragma once
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <functional>
#include <string>
#include <vector>
extern "C" {
#include "tiny.h"
}
typedef uint64_t u64;

// ---- choices, trace, verdicts -------------------------------------------------------------
uint32_t pick(uint32_t n, const char* label);            // recorded choice in [0,n)
inline bool chance(uint32_t pct, const char* label) {    // true with pct%; 0 = false = simplest
    return pick(100, label) >= 100 - pct;
}
inline int range(int lo, int hi, const char* label) { return lo + (int)pick(hi - lo + 1, label); }
u64 derive(const char* label);                           // 64-bit sub-seed from one recorded choice
struct Rng {                                             // for bulk data that is not worth recording
    u64 s;
    explicit Rng(u64 x) : s(x) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
};
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event: hashed, printed on replay
extern bool g_verbose;
extern FILE* g_con;
[[noreturn]] void violate(const std::string& cls, const std::string& detail);
[[noreturn]] void discard(const char* why);              // run does not apply (counted)
[[noreturn]] void harness_error(const std::string& why); // the harness itself is wrong
void count(const char* name, u64 n = 1);                 // evidence counter
void sig(u64 h);                                         // contributes to the run's signature
void sample(const std::string& s);                       // human readable description of the run
void steps(u64 n);                                       // simulated steps covered
u64 hash_str(const std::string& s);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

extern jmp_buf* g_exit_to;                               // where the end of the process leads to, once
extern int g_exit_code;

// ---- edge counter: deterministic time for library code -------------------------------------
u64 edges_now();
void hang_limit(u64 edges_from_now, const char* what);   // exceeding it is a violation "hang:<what>"
void hang_off();

// ---- fibers: simulated OS threads -----------------------------------------------------------
// Runs every body to completion; which fiber runs and for how many edges is chosen by pick().
struct FiberIO { FILE *out = nullptr, *in = nullptr; };
void run_fibers(std::vector<std::function<void()>> bodies, std::vector<FiberIO> io, int max_switches);
void fiber_yield();       // voluntary (blocking primitives); no-op outside fibers
int fiber_self();         // -1 outside
void fiber_disable_preempt(int d);  // nestable

// Runs fn in a forked copy of the process and returns what it returned (used for "alone" baselines).
// If that run fails: a violation, or with lenient the string "\x01...".
std::string isolated(const std::function<std::string()>& fn, bool lenient = false);

// ---- simulated heap -------------------------------------------------------------------------
struct SimHeap {
    enum { MAX_ARENAS = 12, ARENA = 8 << 20 };
    int id;
    const char* name;
    uintptr_t base, top, bump;
    // policy
    int place = 0;       // 0 bump, 1 LIFO reuse, 2 tight bump (no gap), 3 first fit, 4 random fit
    int gap = 16;        // redzone after blocks (0 for tight)
    bool move_always = true; // resizing always moves the block
    bool shrink_inplace = false;
    int fill = 0xA5;     // byte pattern of fresh memory, -1: pseudo random
    int free_fill = 0xDD;
    int quarantine = 64; // freed blocks kept poisoned before reuse
    size_t cap = ARENA - 65536;
    // accounting
    size_t live_bytes = 0, peak_bytes = 0;
    u64 nalloc = 0, nfree = 0, nlive = 0, nrealloc = 0;
    u64 fillseed = 1;
    struct Block { uintptr_t p; size_t size, room; bool live; u64 serial; };
    struct Impl;
    Impl* impl;
    Tiny_Context ctx();
    void randomize(const char* label);  // choose a policy
    std::string policy() const;
    void* alloc(void* p, size_t n);
    Block* find(void* p);
    Block* around(void* p);   // the block p points into
    bool owns(const void* p) const { return (uintptr_t)p >= base && (uintptr_t)p < base + ARENA; }
    void protect(bool ro);              // write-protect everything allocated so far
    u64 content_hash();
    std::vector<Block> live_blocks();
    bool ro = false;
};
SimHeap* new_heap(const char* name);
SimHeap* heap_of(const void* p);
extern SimHeap* g_libc_heap;               // what the library gets from malloc itself comes from here, if set

// ---- checks ---------------------------------------------------------------------------------
struct Check { const char* id; void (*run)(); };
extern Check g_checks[];
extern Check g_example_checks[] __attribute__((weak));

// simulated stdio, see simfs.cpp
FILE* sim_outstream(std::string* sink);
