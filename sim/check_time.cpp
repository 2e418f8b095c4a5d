// C24: the clock and the random numbers which scripts see.
#include <algorithm>
#include <sys/time.h>
#include <time.h>
#include <stdlib.h>
#include "world.h"

// ---- the simulated clock: the library's time(), clock_gettime() and gettimeofday() ----------------
static int64_t g_now = 1700000000;
static int64_t g_nano;
extern "C" time_t __wrap_time(time_t* p) { if (p) *p = g_now; return g_now; }
extern "C" int __wrap_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = g_now; t->tv_nsec = g_nano; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval* t, void*) { t->tv_sec = g_now; t->tv_usec = g_nano / 1000; return 0; }
extern "C" int __wrap_timespec_get(struct timespec* t, int b) { t->tv_sec = g_now; t->tv_nsec = g_nano; return b; }
extern "C" clock_t __wrap_clock() { return (clock_t)(g_now & 0xffffff) * 1000000 + g_nano / 1000; }

namespace {
enum { DRAWS = 2500 };
struct Clock24 {
    std::vector<int64_t> was{g_now};       // every value the clock has had
    std::vector<Tiny_State*> states;
    std::vector<SimHeap*> heaps;
    struct Th { ThreadHost* t; int st; size_t since = 0; bool done = false; int drawn = 0; };
    std::vector<Th> ts;
    int lock = -1;                         // the thread which draws or seeds
    int busy = 0;                          // within a draw: no other draws
    std::vector<int> seeds;
    std::vector<std::vector<int64_t>> want;
    int cur = -1, next = -1;               // the seed in force; the one being set
    size_t at = 0;                         // how many were drawn since
    int deep = 0, others = 0;
    u64 draws = 0, reads = 0;
    std::string history;
    std::string text;
};
Clock24* g;
int self(Tiny_StateThread* t) { for (size_t i = 0; i < g->ts.size(); ++i) if (g->ts[i].t->th == t) return i; return -1; }
#define FF(n) Tiny_Value n(Tiny_StateThread* thread, const Tiny_Value* args, int)
void note(const std::string& s) { g->history += s + "\n"; trace("%s", s.c_str()); }

void clock_moves() {
    static const char* names[] = {"stands still", "ticks", "goes on", "jumps ahead", "jumps back", "is set", "ticks within the second"};
    int k = pick(7, "the clock");
    int64_t was = g_now;
    if (k == 0) return;
    if (k == 1) ++g_now;
    else if (k == 2) g_now += 1 + pick(300, "seconds");
    else if (k == 3) g_now += 86400ll * (1 + pick(4000, "days"));
    else if (k == 4) g_now -= 1 + (int64_t)pick(100000, "seconds back");
    else if (k == 5) {
        static const int64_t at[] = {1700000000, 0, 1, 2147483647, 2147483648, 4294967295, 4294967296, 2147483640, 253402300799, -1, 1234567890};
        g_now = at[pick(11, "set to")];
    } else g_nano = pick(1000, "ms") * 1000000ll;
    if (g_now > 253402300799) g_now = 1700000000;
    if (g_now != was) { g->was.push_back(g_now); note(fmt("the clock %s: %lld", names[k], (long long)g_now)); }
    count(fmt("clock.%s", names[k]).c_str());
}
// what must disturb neither
void something_else(int self) {
    int k = pick(5, "something else");
    if (g->deep > 2) return;
    ++g->deep;
    if (k == 1 && self >= 0 && g->others < 30) {
        ++g->others;
        note("another state is created, used and deleted");
        SimHeap *h = g->heaps.back(), *b = g->heaps[g->heaps.size() - 2];
        Tiny_State* s = Tiny_CreateStateWithContext(b->ctx());
        bind_all(s);
        bool bad = pick(2, "damaged source");
        must_compile(s, "other", "use array(\"int\") as ai\na := ai(3, 2, 1)\nai_sort(a)\nd := dict(\"k\", 2, \"l\", 3)\nfunc f(): int { return 3 }\nx := f()");
        if (bad) Tiny_CompileString(s, "bad", "y := (");
        ThreadHost* t = new_thread(s, h, 1);
        Tiny_StartThread(t->th);
        run_to_end(t, 1000);
        end_thread(t);
        Tiny_DeleteState(s);
        count("schedule.another state");
    } else if (k == 2 && self >= 0) {
        static const int gcs[] = {1, 0, 8, 50};
        g->ts[self].t->th->maxNumObjects = gcs[pick(4, "gc")];
    } else if (k == 3 && self >= 0) {
        auto& T = g->ts[self];
        int f = Tiny_GetFunctionIndex(g->states[T.st], g->lock < 0 && pick(2, "which draws") ? "one" : "junk");
        note(fmt("the host calls a function on thread %d", self));
        Tiny_CallFunction(T.t->th, f, nullptr, 0);
        count("schedule.host call");
    } else clock_moves();
    --g->deep;
}
FF(T0) { auto& t = g->ts[self(thread)]; t.since = g->was.size() - 1; return Tiny_Null; }
FF(T1) {
    int k = self(thread);
    auto& t = g->ts[k];
    if (args[0].type != TINY_VAL_INT) violate("time:type", "time() did not return an integer");
    int64_t v = args[0].i;
    ++g->reads;
    note(fmt("thread %d: time() is %lld", k, (long long)v));
    for (size_t i = t.since; i < g->was.size(); ++i) if (g->was[i] == v) return Tiny_Null;
    bool old = std::find(g->was.begin(), g->was.end(), v) != g->was.end();
    violate(old ? "time:remembered" : "time:wrong", fmt("time() gave %lld; the clock showed %lld when it was asked and shows %lld", (long long)v, (long long)g->was[t.since], (long long)g_now));
}
FF(Turn) { something_else(self(thread)); return Tiny_Null; }
FF(S0) {
    g->lock = self(thread);
    g->next = pick(g->seeds.size(), "seed");
    Tiny_Value v = Tiny_NewInt(g->seeds[g->next]);
    note(fmt("thread %d: srand(%d)", g->lock, g->seeds[g->next]));
    return v;
}
FF(S1) { g->cur = g->next; g->at = 0; g->lock = -1; count("schedule.srand"); return Tiny_Null; }
FF(R0) { g->lock = self(thread); return Tiny_Null; }
FF(R1) {
    g->lock = -1;
    if (args[0].type != TINY_VAL_INT) violate("rand:type", "rand() did not return an integer");
    int64_t v = args[0].i;
    if (g->at >= DRAWS) discard("more numbers than the reference has");
    auto& w = g->want[g->cur];
    trace("thread %d: rand() is %lld", self(thread), (long long)v);
    if (v != w[g->at]) {
        auto it = std::find(w.begin(), w.end(), v);
        violate("rand:sequence", fmt("number %zu after srand(%d) is %lld, by itself it is %lld%s", g->at, g->seeds[g->cur], (long long)v, (long long)w[g->at],
            it == w.end() ? "" : fmt(" (what came is number %zu)", (size_t)(it - w.begin())).c_str()));
    }
    ++g->at;
    ++g->draws;
    sig(v + g->at * 31);
    return Tiny_Null;
}
void bind24(Tiny_State* s) {
    bind_all(s);
    Tiny_BindFunction(s, "t0(): void", T0);
    Tiny_BindFunction(s, "t1(int): void", T1);
    Tiny_BindFunction(s, "s0(): int", S0);
    Tiny_BindFunction(s, "s1(): void", S1);
    Tiny_BindFunction(s, "r0(): void", R0);
    Tiny_BindFunction(s, "r1(int): void", R1);
    Tiny_BindFunction(s, "turn(): void", Turn);
}
std::string script() {
    std::string s =
        "use array(\"any\") as aa\nuse array(\"int\") as ai\nkeep := aa()\nt := 0\nr := 0\n"
        "func one(): int { r0() x := rand() r1(x) return x }\n"
        "func when(): int { t0() x := time() t1(x) return x }\n"
        "func junk(): int { d := dict() for i := 0; i < 20; i += 1 { dict_put(d, int_to_str(i), strcat(\"v\", int_to_str(i))) } return 0 }\n"
        "func sorts(): int { a := ai() for i := 0; i < 12; i += 1 { ai_push(a, (i * 7) % 12) } ai_sort(a) return ai_len(a) }\n"
        "func deep(n: int): int { if n == 0 { return one() } return deep(n - 1) }\n";
    int n = 2 + pick(14, "statements");
    for (int i = 0; i < n; ++i) {
        std::string b;
        int m = 1 + pick(3, "in it");
        for (int j = 0; j < m; ++j) {
            static const char* parts[] = {"t0() t1(time())", "one()", "t0() t = time() turn() t1(t)", "r0() r = rand() r1(r)", "s0x := s0() srand(s0x) s1()", "when()", "turn()", "junk()",
                "deep(5)", "t0() t = time() t1(t) t0() t = time() t1(t)", "r0() r1(rand())", "aa_push(keep, one())", "t = when() + one()", "sorts()", "if one() % 2 == 0 { junk() }", "i64_to_string(int_to_i64(one()))"};
            int p = pick(16, "part");
            std::string x = parts[p];
            if (p == 4) x = "srand(s0()) s1()";
            b += " " + x + "\n";
        }
        int loop = pick(4, "loop");
        if (loop == 3) s += fmt("for i%d := 0; i%d < %d; i%d += 1 {\n", i, i, 2 + (int)pick(pick(4, "long") == 3 ? 200 : 12, "times"), i) + b + "}\n";
        else s += b;
    }
    return s;
}
std::string sequence(int seed) {   // the numbers after srand(seed), with nothing else going on
    SimHeap* h = new_heap("alone");
    Tiny_State* s = Tiny_CreateStateWithContext(h->ctx());
    bind_all(s);
    must_compile(s, "alone", fmt("func seed(k: int) { srand(k) }\nfunc draw(): int { return rand() }\n"));
    SimHeap* ht = new_heap("alone thread");
    ThreadHost* t = new_thread(s, ht, 1);
    Tiny_StartThread(t->th);
    run_to_end(t, 100);
    Tiny_Value k = Tiny_NewInt(seed);
    Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, "seed"), &k, 1);
    std::string r;
    for (int i = 0; i < DRAWS; ++i) {
        Tiny_Value v = Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, "draw"), nullptr, 0);
        int64_t x = v.type == TINY_VAL_INT ? v.i : -1;
        r.append((const char*)&x, sizeof x);
    }
    return r;
}
const std::vector<int64_t>& reference24(int seed) {
    static std::map<int, std::vector<int64_t>> memo;   // a pure function of the seed and the library
    auto it = memo.find(seed);
    if (it != memo.end()) return it->second;
    std::string r = isolated([&] { return sequence(seed); });
    std::vector<int64_t> v(r.size() / 8);
    memcpy(v.data(), r.data(), v.size() * 8);
    return memo[seed] = v;
}
}  // namespace
void run_c24() {
    Clock24 c;
    g_now = 1700000000;
    g_nano = 0;
    c.was = {g_now};
    g = &c;
    static const int pool[] = {1, 2, 42, -1, 2147483647, (int)-2147483648, 123456789, 7, 0, 65536};
    int nseeds = 1 + pick(3, "seeds");
    for (int i = 0; i < nseeds; ++i) c.seeds.push_back(pool[pick(10, "seed")]);
    for (int x : c.seeds) {
        c.want.push_back(reference24(x));
        auto& w = c.want.back();
        if ((int)w.size() != DRAWS) harness_error("no reference sequence");
        bool same = true;
        for (int i = 0; i < DRAWS; ++i) { if (w[i] < 0) violate("rand:negative", fmt("after srand(%d) number %d is %lld", x, i, (long long)w[i])); if (i < 64) same &= w[i] == w[0]; }
        if (same) violate("rand:constant", fmt("after srand(%d) the first 64 numbers are all %lld", x, (long long)w[0]));
    }
    c.text = script();
    int ns = 1 + pick(2, "states"), n = 1 + pick(3, "threads");
    for (int i = 0; i < ns; ++i) {
        SimHeap* h = new_heap(i ? "state 1" : "state 0");
        h->randomize("state heap");
        Tiny_State* s = Tiny_CreateStateWithContext(h->ctx());
        bind24(s);
        must_compile(s, "script", c.text);
        c.states.push_back(s);
    }
    for (int i = 0; i < n; ++i) {
        SimHeap* h = new_heap(i == 0 ? "thread 0" : i == 1 ? "thread 1" : "thread 2");
        h->randomize("thread heap");
        Clock24::Th T;
        T.st = i % ns;
        T.t = new_thread(c.states[T.st], h, 1);
        static const int gcs[] = {8, 0, 3, 50};
        T.t->th->maxNumObjects = gcs[pick(4, "gc")];
        c.ts.push_back(T);
    }
    c.heaps.push_back(new_heap("other state"));
    c.heaps.push_back(new_heap("other thread"));
    sample(c.text);
    // the sequence starts somewhere known
    {
        for (auto& T : c.ts) Tiny_StartThread(T.t->th);
        c.cur = 0;
        Tiny_State* s2 = Tiny_CreateStateWithContext(c.heaps[0]->ctx());
        bind_all(s2);
        must_compile(s2, "seed", fmt("func seed(k: int) { srand(k) }\n"));
        ThreadHost* ht = new_thread(s2, c.heaps[1], 1);
        Tiny_StartThread(ht->th);
        run_to_end(ht, 100);
        Tiny_Value k = Tiny_NewInt(c.seeds[0]);
        Tiny_CallFunction(ht->th, Tiny_GetFunctionIndex(s2, "seed"), &k, 1);
        end_thread(ht);
        Tiny_DeleteState(s2);
    }
    std::vector<int> live;
    for (int i = 0; i < n; ++i) live.push_back(i);
    static const int slices[] = {1, 5, 40, 400};
    int most = slices[pick(4, "slices")];
    u64 total = 0;
    hang_limit(400000000, "drawing");
    while (!live.empty()) {
        int k = c.lock >= 0 ? c.lock : live[live.size() > 1 ? pick(live.size(), "thread") : 0];
        if (c.lock < 0 && chance(15, "between instructions")) something_else(k);
        int slice = 1 + pick(most, "instructions");
        bool more = true;
        for (; more && (slice > 0 || c.lock >= 0); --slice) {
            more = step(c.ts[k].t);
            ++total;
        }
        if (!more) { c.ts[k].done = true; live.erase(std::find(live.begin(), live.end(), k)); if (c.lock == k) c.lock = -1; }
        if (total > 60000) break;     // abandoned here
    }
    hang_off();
    steps(total);
    count("numbers drawn", c.draws);
    count("clock readings", c.reads);
    sig(hash_str(c.history));
    for (auto& T : c.ts) end_thread(T.t);
    for (auto s : c.states) Tiny_DeleteState(s);
    g = nullptr;
}
