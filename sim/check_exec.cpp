// Checks over executions of generated programs: interleavings, immutability of the program,
// collections, life cycles, allocator behaviour, host calls, positions, divisions into compiles.
#include <string.h>
#include <algorithm>
#include "simfs.h"
#include "world.h"

static const int GCMAX[] = {8, 0, 1, 3, 20, 200, 100000};
std::string obs_diff(const std::string& want, const std::string& got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    size_t a = want.rfind('\n', i);
    a = a == std::string::npos ? 0 : a + 1;
    return "undisturbed: ..." + want.substr(a, 160) + "\ndisturbed:   ..." + got.substr(std::min(a, got.size()), 160);
}

// ---- C01 ------------------------------------------------------------------------------------------
void run_c01() {
    GenOpt o = swarm();
    o.printing = chance(40, "printing");
    Program p = generate(o);
    SimHeap* hs = new_heap("state");
    hs->randomize("state heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", p.text());
    int n = 2 + pick(3, "threads");
    struct T { SimHeap* h; u64 seed; int gc; std::string base; ThreadHost* t = nullptr; FILE* out = nullptr; bool busy = false, done = false; u64 cyc = 0; };
    std::vector<T> ts(n);
    for (int i = 0; i < n; ++i) {
        T& t = ts[i];
        t.h = new_heap(fmt("thread%d", i).c_str());
        t.h->name = strdup(fmt("thread%d", i).c_str());
        t.h->randomize("thread heap");
        t.seed = pick(4, "input") ? i * 7 + 1 : 1;
        t.gc = GCMAX[pick(7, "gc threshold")];
        t.base = alone(s, t.h, t.seed, t.gc, p);
        if (bad(t.base)) discard("the undisturbed run fails");
    }
    auto start = [&](T& t) {
        t.t = new_thread(s, t.h, t.seed);
        t.t->th->maxNumObjects = t.gc;
        t.out = sim_outstream(&t.t->out);
        Tiny_StartThread(t.t->th);
    };
    auto finish = [&](T& t) {
        t.done = true;
        std::string got = observed(t.t);
        if (got != t.base) violate("isolation:differs-from-alone", fmt("thread %d of %d\n", int(&t - &ts[0]), n) + obs_diff(t.base, got));
    };
    sample(show_program(p));
    int mode = pick(3, "mode");
    if (mode == 0 || mode == 2) {
        // one OS thread: cycles of the script threads interleaved, also from inside foreign functions
        count(mode == 0 ? "schedule.by instruction" : "schedule.by instruction, re-entrant");
        hang_limit(run_budget(p) * n, "run");
        int budget = mode == 2 ? 200 : 0;
        std::function<void(T&, u64)> go = [&](T& t, u64 k) {
            Stdout so(t.out);
            t.busy = true;
            for (u64 i = 0; i < k; ++i) {
                ++t.cyc;
                if (!step(t.t)) { t.busy = false; finish(t); return; }
            }
            t.busy = false;
        };
        auto hook = [&](ThreadHost& me, const char*) {
            if (budget-- <= 0 || !chance(30, "switch inside a foreign function")) return;
            std::vector<T*> c;
            for (auto& t : ts) if (!t.busy && !t.done) c.push_back(&t);
            if (c.empty()) return;
            T* t = c[pick(c.size(), "inner thread")];
            if (!t->t) { start(*t); t->t->hook = ts[0].t ? ts[0].t->hook : me.hook; }
            u64 k = 1 + pick(30, "inner cycles");
            trace("from inside thread %d: run thread %d for %d cycles", int(std::find_if(ts.begin(), ts.end(), [&](T& x) { return x.t == &me; }) - ts.begin()), int(t - &ts[0]), (int)k);
            count("schedule.switch inside foreign function");
            go(*t, k);
        };
        int sw = 0;
        for (;;) {
            std::vector<T*> c;
            for (auto& t : ts) if (!t.done) c.push_back(&t);
            if (c.empty()) break;
            T* t = c[sw < 300 ? pick(c.size(), "thread") : sw % c.size()];
            if (!t->t) { start(*t); if (mode == 2) t->t->hook = hook; }
            static const int spans[] = {1, 3, 12, 60};
            u64 k = sw < 300 ? 1 + pick(spans[pick(4, "batch kind")], "batch") : 2000;
            if (sw < 300 && chance(3, "run to the end")) k = ~0ull;
            ++sw;
            trace("thread %d: %lld cycles", int(t - &ts[0]), (long long)k);
            sig(((u64)(t - &ts[0]) << 32) + k);
            go(*t, k);
            if (t->done && pick(2, "destroy at once")) { fclose(t->out); t->out = nullptr; end_thread(t->t); t->t = nullptr; }
        }
        count("schedule.switches", sw);
        hang_off();
    } else {
        count("schedule.preempted at edges");
        std::vector<std::function<void()>> bodies;
        std::vector<FiberIO> io(n);
        bool early = pick(2, "create inside");
        hang_limit(run_budget(p) * n * 2, "run");
        std::vector<std::string> outs(n);
        for (int i = 0; i < n; ++i) {
            if (!early) start(ts[i]);
            io[i].out = early ? sim_outstream(&outs[i]) : ts[i].out;
            int by = pick(3, "stepping");
            bodies.push_back([&, i, by]() {
                T& t = ts[i];
                if (early) {
                    fiber_disable_preempt(1);
                    t.t = new_thread(s, t.h, t.seed);
                    fiber_disable_preempt(-1);
                    t.t->th->maxNumObjects = t.gc;
                    Tiny_StartThread(t.t->th);
                }
                if (by == 0) Tiny_Run(t.t->th);
                else if (by == 1) run_to_end(t.t);
                else { for (int k = 0; k < 40 && step(t.t); ++k) {} Tiny_Run(t.t->th); }
                if (early) t.t->out = outs[i];
            });
        }
        run_fibers(bodies, io, 400);
        hang_off();
        for (auto& t : ts) finish(t);
    }
    for (auto& t : ts) if (t.t) end_thread(t.t);
    Tiny_DeleteState(s);
}

// ---- C02 ------------------------------------------------------------------------------------------
void run_c02() {
    GenOpt o = swarm();
    o.observers = true;
    Program p = generate(o);
    SimHeap* hs = new_heap("state");
    hs->randomize("state heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", p.text());
    std::vector<std::string> names = p.globals;
    for (auto& f : p.fns) names.push_back(f->name);
    for (auto& n : p.tynames) names.push_back(n);
    for (auto n : {"emit", "HOST_K", "HOST_S", "array", "dict_put", "printf", "arr_int_push"}) names.push_back(n);
    std::string d0 = describe_state(s, names, true);
    u64 h0 = hs->content_hash();
    hs->protect(true);
    SimHeap* hb = new_heap("later");
    int gc = GCMAX[pick(7, "gc threshold")];
    std::string base = alone(s, hb, 3, gc, p);
    if (bad(base)) {
        // the first run itself may have written to the program
        hs->protect(true);
        isolated([&]() {
            ThreadHost* t = new_thread(s, hb, 3);
            t->th->maxNumObjects = gc;
            Tiny_StartThread(t->th);
            hs->protect(true);
            Tiny_Run(t->th);
            return std::string();
        }, false);
        discard("the undisturbed run fails");
    }
    sample(show_program(p));
    // a history of other threads
    int k = 1 + pick(5, "threads before");
    std::vector<ThreadHost*> live;
    FILE* sink = nullptr;
    std::string sinkText;
    sink = sim_outstream(&sinkText);
    Stdout so(sink);
    for (int i = 0; i < k; ++i) {
        SimHeap* h = new_heap(strdup(fmt("earlier%d", i).c_str()));
        h->randomize("thread heap");
        ThreadHost* t = new_thread(s, h, i + 1);
        t->th->maxNumObjects = GCMAX[pick(7, "gc")];
        live.push_back(t);
        int act = pick(6, "action");
        u64 cyc = act == 0 ? ~0ull : act == 5 ? 0 : 1 + pick(act == 1 ? 10 : act == 2 ? 100 : 3000, "cycles");
        trace("thread %d: action %d, %lld cycles", i, act, (long long)cyc);
        hang_limit(run_budget(p) * 2, "run");
        bool ready = false;
        int calls = 0;
        t->hook = [&](ThreadHost& me, const char*) {
            if (calls > 20 || me.tr.empty() || !chance(10, "host call")) return;
            ++calls;
            auto& f = p.fns[p.observers[0]];
            Tiny_Value a[2] = {Tiny_NewInt(pick(9, "arg")), Tiny_NewInt(4)};
            if (f->args.size() > 1 && f->args[1].k == T_STR) a[1] = Tiny_NewConstString("arg");
            Tiny_CallFunction(me.th, Tiny_GetFunctionIndex(s, f->name.c_str()), a, f->args.size());
            count("schedule.host call");
        };
        if (act != 5 || pick(2, "start")) Tiny_StartThread(t->th);
        if (act != 5) sig(run_to_end(t, cyc));
        if (act == 4) { t->hook = nullptr; t->th->maxNumObjects = 0; step(t); }
        hang_off();
        t->hook = nullptr;
        count(t->th->pc < 0 ? "schedule.finished thread" : "crash.thread abandoned");
        if (pick(2, "destroy")) { size_t j = pick(live.size(), "which"); end_thread(live[j]); live.erase(live.begin() + j); count("schedule.thread destroyed"); }
        if (pick(3, "look") == 2) for (auto& n : names) { Tiny_GetGlobalIndex(s, n.c_str()); Tiny_GetFunctionIndex(s, n.c_str()); }
        if (hs->content_hash() != h0) violate("program:changed", fmt("memory of the compiled program changed while thread %d was executed", i));
    }
    std::string got;
    {
        ThreadHost* t = new_thread(s, hb, 3);
        t->th->maxNumObjects = gc;
        FILE* f = sim_outstream(&t->out);
        Stdout so2(f);
        Tiny_StartThread(t->th);
        hang_limit(run_budget(p), "run");
        Tiny_Run(t->th);
        hang_off();
        got = observed(t);
        live.push_back(t);
    }
    if (got != base) violate("program:later-thread-differs", obs_diff(base, got));
    while (!live.empty()) { end_thread(live.back()); live.pop_back(); }
    if (hs->content_hash() != h0) violate("program:changed", "memory of the compiled program changed");
    std::string d1 = describe_state(s, names, true);
    if (d0 != d1) violate("program:looks-different", obs_diff(d0, d1));
    hs->protect(false);
    Tiny_DeleteState(s);
}

// ---- C04 / C05 ------------------------------------------------------------------------------------
// Collections placed at arbitrary instruction boundaries and inside nested host calls.
static void gc_run(bool exact) {
    GenOpt o = swarm();
    o.observers = true;
    if (exact) o.maxcost = 1500;
    Program p = generate(o);
    SimHeap* hs = new_heap("state");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", p.text());
    SimHeap* h = new_heap("thread");
    h->randomize("thread heap");
    u64 seed = 1 + pick(5, "input");
    std::string base = alone(s, h, seed, 1 << 30, p);
    if (bad(base)) discard("the undisturbed run fails");
    sample(show_program(p));
    ThreadHost* t = new_thread(s, h, seed);
    FILE* f = sim_outstream(&t->out);
    Stdout so(f);
    int style = pick(5, "collections");
    u64 every = 1 + pick(style == 1 ? 1 : 40, "every"), off = pick(every, "offset");
    Rng r(derive("collections"));
    int pct = 1 + pick(30, "percent");
    std::vector<u64> at;
    if (style == 0) { int k = 1 + pick(6, "number of collections"); for (int i = 0; i < k; ++i) at.push_back(pick(3000, "at cycle")); }
    int calls = 0, ncalls = pick(2, "host calls") ? 12 : 0;
    bool inner = pick(2, "collect in calls"), between = pick(2, "calls between instructions");
    u64 ngc = 0, ninner = 0;
    // A cycle that runs nested instructions may use up the collection before garbage arises in it, so
    // something counts as kept only when further collections leave it alone as well.
    int pending = 0;
    u64 suspect = 0;
    t->hook = [&](ThreadHost& me, const char* where) {
        if (inner && r.below(100) < 40) { me.th->maxNumObjects = 0; ++ninner; }
        if (calls >= ncalls || !chance(20, "host call")) return;
        ++calls;
        auto& fn = p.fns[p.observers[0]];
        Tiny_Value a[2] = {Tiny_NewInt(pick(9, "arg")), Tiny_NewInt(4)};
        if (fn->args.size() > 1 && fn->args[1].k == T_STR) a[1] = Tiny_NewConstString("arg");
        trace("host call inside %s", where);
        auto hk = me.hook;
        if (inner && pick(2, "collect after the first instruction")) me.th->maxNumObjects = 0;
        int ev = me.tr.size();
        Tiny_CallFunction(me.th, Tiny_GetFunctionIndex(s, fn->name.c_str()), a, fn->args.size());
        me.tr.resize(ev);
    };
    t->th->maxNumObjects = style == 4 ? GCMAX[pick(7, "threshold")] : 1 << 30;
    Tiny_StartThread(t->th);
    hang_limit(run_budget(p) * 40, "run with collections");
    u64 c = 0;
    for (bool more = true; more; ++c) {
        bool gc = style == 1 || style == 2 ? c % every == off : style == 3 ? (int)r.below(100) < pct : style == 0 ? std::find(at.begin(), at.end(), c) != at.end() : false;
        if (pending) gc = true;
        int ev = t->tr.size();
        if (style != 4) t->th->maxNumObjects = gc ? 0 : 1 << 30;
        if (gc) ++ngc;
        if (calls < ncalls && c > 0 && between && r.below(100) < 6) {
            // a call between two instructions, collecting at its own first instruction or later
            ++calls;
            auto& fn = p.fns[p.observers[0]];
            Tiny_Value a[2] = {Tiny_NewInt(5), Tiny_NewInt(4)};
            if (fn->args.size() > 1 && fn->args[1].k == T_STR) a[1] = Tiny_NewConstString("arg");
            t->th->maxNumObjects = r.below(2) ? 0 : 1 << 30;
            auto hk = t->hook;
            t->hook = nullptr;
            Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, fn->name.c_str()), a, fn->args.size());
            t->hook = hk;
            t->tr.resize(ev);
            reachable(t, "after a host call between instructions");
            if (style != 4) t->th->maxNumObjects = gc ? 0 : 1 << 30;
        }
        more = step(t);
        if (gc && more && (pending || c < 400 || c % 37 == 0 || style == 0)) {
            if (!exact) { reachable(t, "after a collection"); continue; }
            auto g = garbage(t, "after a collection");
            bool same = false;
            for (auto& b : g) if (b.serial == suspect) same = true;
            if (pending && same) {
                if (++pending > 8) violate("gc:garbage-kept", fmt("a block (allocation %llu) is not reachable but survived %d collections", (unsigned long long)suspect, pending));
            } else { pending = g.empty() ? 0 : 1; suspect = g.empty() ? 0 : g[0].serial; }
        }
    }
    hang_off();
    sig(ngc * 1000 + c);
    count("fault.collection between instructions", ngc);
    count("fault.collection inside a host call", ninner);
    count("schedule.host call", calls);
    std::string got = observed(t);
    if (got != base) violate("gc:visible", obs_diff(base, got));
    if (exact) {
        // let everything go: after one more collection only what the host still holds may remain
        t->hook = nullptr;
        for (int i = 0; i < s->numGlobalVars; ++i) if (pick(3, "drop global")) Tiny_SetGlobal(t->th, i, Tiny_Null);
        t->th->retVal = Tiny_Null;
        t->th->maxNumObjects = 0;
        auto& fn = p.fns[p.observers[0]];
        Tiny_Value a[2] = {Tiny_NewInt(3), Tiny_NewInt(4)};
        if (fn->args.size() > 1 && fn->args[1].k == T_STR) a[1] = Tiny_NewConstString("arg");
        hang_limit(run_budget(p) * 4, "call");
        int fi = Tiny_GetFunctionIndex(s, fn->name.c_str());
        u64 before = t->finalized;
        t->th->pc = -1;
        for (int k = 0; k < 3; ++k) {
            t->th->maxNumObjects = 0;
            // a collection at the very last instruction of a call
            Tiny_CallFunction(t->th, fi, a, fn->args.size());
        }
        hang_off();
        reachable(t, "after dropping globals");
        count("probe.boxes created", t->boxes);
        count("probe.boxes finalized by a collection", t->finalized);
    }
    int alive = t->boxes - t->finalized;
    end_thread(t);
    if (t->finalized != t->boxes) violate("gc:not-finalized", fmt("%d natives were created, %d finalized by the end of the thread (%d were alive when it was destroyed)", t->boxes, t->finalized, alive));
    Tiny_DeleteState(s);
}
// Object graphs much deeper than the C stack.
static void* big_alloc(void* p, size_t n, void*) { if (!n) { free(p); return nullptr; } return realloc(p, n); }
static void deep_run() {
    struct Shape { const char *name, *make, *next; int field; bool natives; };
    static const Shape shapes[] = {
        {"linked list", "head = new N{head, null, i}", "", 0, false},
        {"linked list by the last reference", "head = new N{cast(null, N), head, i}", "", 1, false},
        {"doubly linked list", "x := new N{head, null, i} if i > 0 { head.b = x } head = x", "", 0, false},
        {"list with texts", "head = new N{head, strcat(\"t\", int_to_str(i)), i}", "", 0, false},
        {"list with side branches", "head = new N{head, new N{head, null, i}, i}", "", 0, false},
        {"list which is a ring", "head = new N{head, null, i} if i == 0 { tail = head } tail.b = head", "", 0, false},
        {"arrays within arrays", "head = new N{cast(null, N), a, i} a = arr(a)", "", 0, true},
    };
    const Shape& sh = shapes[pick(7, "shape")];
    int n = sh.natives ? 150000 : 20000 + pick(400000, "depth");
    std::string text = "struct N { a: N b: any v: int }\nuse array(\"any\") as arr\na := arr()\nhead := cast(null, N)\ntail := cast(null, N)\nfor i := 0; i < " + fmt("%d", n) + "; i += 1 { " + sh.make + " }\nfunc churn(k: int): int { for i := 0; i < k; i += 1 { strcat(\"a\", \"b\") } return k }\n";
    sample(text);
    Tiny_Context big = {big_alloc, nullptr};
    int gc = GCMAX[pick(7, "threshold")];
    hang_limit(4000000000ull, "deep graph");
    auto body = [&]() {
        Tiny_State* s = Tiny_CreateStateWithContext(new_heap("state")->ctx());
        bind_all(s);
        must_compile(s, "main.tiny", text);
        Tiny_StateThread* t = (Tiny_StateThread*)calloc(1, sizeof(Tiny_StateThread));
        Tiny_InitThreadWithContext(t, s, big);
        t->maxNumObjects = gc;
        Tiny_StartThread(t);
        Tiny_Run(t);
        int gi = Tiny_GetGlobalIndex(s, "head"), fi = Tiny_GetFunctionIndex(s, "churn");
        std::string bad;
        for (int round = 0; round < 2 && bad.empty(); ++round) {
            Tiny_Value a = Tiny_NewInt(20);
            t->maxNumObjects = 0;
            Tiny_CallFunction(t, fi, &a, 1);
            int live = t->numObjects;
            Tiny_Value v = Tiny_GetGlobal(t, gi);
            for (int i = n - 1; i >= 0 && !sh.natives && bad.empty(); --i) {
                if (v.type != TINY_VAL_STRUCT) { bad = fmt("node %d of %d is gone", i, n); break; }
                Tiny_Value id = Tiny_GetField(v, 2);
                if (id.type != TINY_VAL_INT || id.i != i) bad = fmt("node %d of %d holds %lld", i, n, (long long)id.i);
                v = Tiny_GetField(v, sh.field);
            }
            if (live < n) bad = fmt("%d objects are alive, there should be %d at least", live, n);
        }
        Tiny_DestroyThread(t);
        free(t);
        Tiny_DeleteState(s);
        return bad;
    };
    std::string bad = isolated(body, true);
    hang_off();
    count(sh.natives ? "probe.deep graph of natives" : "probe.deep graph");
    steps(n);
    sig(hash_str(sh.name) + n);
    if (!bad.empty()) violate(sh.natives ? "gc:deep-graph-of-natives" : "gc:deep-graph", fmt("%s of depth %d: ", sh.name, n) + bad);
}
// Values held by nothing but the frames of many callers.
static void tall_run() {
    struct Shape { const char* body; int per; };
    static const Shape shapes[] = {
        {"func rec(x: N): int { if x.v <= 0 { return 0 } return rec(new N{x.v - 1, null}) + x.v }", 1},
        {"func rec(x: N): int { if x.v <= 0 { nothing() return 0 } r := rec(new N{x.v - 1, strcat(\"t\", int_to_str(x.v))}) nothing() return r + x.v }", 2},
        {"func rec(x: N): int { if x.v <= 0 { return 0 } s := strcat(\"n\", int_to_str(x.v)) r := rec(new N{x.v - 1, null}) if s != strcat(\"n\", int_to_str(x.v)) { return -100000 } return r + x.v }", 3},
        {"func rec(x: N): int { if x.v <= 0 { return 0 } return sum(box(x.v), rec(new N{x.v - 1, null})) }\nfunc sum(b: box, r: int): int { nothing() return r + box_n(b) }", 2},
        {"func rec(x: N): int { if x.v <= 0 { return 0 } l := arr(x.v, strcat(\"q\", \"r\")) r := 0 if true { r = odd(new N{x.v - 1, null}) } return r + cast(arr_get(l, 0), int) }\nfunc odd(x: N): int { return rec(x) }", 4},
        {"func rec(x: N): int { if x.v <= 0 { return 0 } return cast(hcall(\"rec2\", x.v - 1), int) + x.v }\nfunc rec2(n: int): int { return rec(new N{n, strcat(\"t\", int_to_str(n))}) }", 6},
    };
    const Shape& sh = shapes[pick(6, "shape")];
    int most = std::min(62, 110 / (sh.per + 1)) / (sh.per == 4 ? 2 : 1);
    if (sh.per == 6) most = 10;
    int d = 1 + pick(most, "depth");
    std::string text = "struct N { v: int o: any }\nuse array(\"any\") as arr\nfunc nothing() { strcat(\"a\", \"b\") }\n" + std::string(sh.body) + "\nresult := 0\nfor i := 0; i < 3; i += 1 { result += rec(new N{" + fmt("%d", d) + ", strcat(\"x\", \"y\")}) }\n";
    sample(text);
    SimHeap *hs = new_heap("state"), *h = new_heap("thread");
    h->randomize("thread heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", text);
    ThreadHost* t = new_thread(s, h, 1);
    int style = pick(4, "collections");
    u64 every = 1 + pick(60, "every");
    static const int gcs[] = {0, 1, 8, 20, 50, 90};
    t->th->maxNumObjects = style == 3 ? gcs[pick(6, "threshold")] : 1 << 30;
    Tiny_StartThread(t->th);
    hang_limit(400000000ull, "deep calls");
    u64 c = 0, ngc = 0;
    int deepest = 0;
    for (bool more = true; more; ++c) {
        bool gc = style == 0 ? c % every == 0 : style == 1 ? t->th->fc > deepest : style == 2 ? t->th->fc >= d - 1 : false;
        deepest = std::max(deepest, t->th->fc);
        if (style != 3) t->th->maxNumObjects = gc ? 0 : 1 << 30;
        ngc += gc;
        more = step(t);
        if (more && (gc || style == 3) && (c % 7 == 0 || t->th->fc > d / 2)) reachable(t, "while many calls are active");
    }
    hang_off();
    Tiny_Value r = Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, "result"));
    if (r.type != TINY_VAL_INT || r.i != 3 * d * (d + 1) / 2) violate("gc:visible", fmt("expected %d, got %s", 3 * d * (d + 1) / 2, showv(r).c_str()));
    count("probe.deep calls");
    count("fault.collection between instructions", ngc);
    steps(c);
    sig(hash_str(sh.body) + d * 10000 + c * 7 + ngc);
    end_thread(t);
    if (t->finalized != t->boxes) violate("gc:not-finalized", fmt("%d natives were created, %d finalized", (int)t->boxes, (int)t->finalized));
    Tiny_DeleteState(s);
}
// Everything a wide struct, frame or argument list refers to.
static void wide_run() {
    int n = 1 + pick(pick(2, "many") ? 110 : 12, "fields"), kind = pick(3, "wide what");
    if (kind == 1) n = 1 + n % 50;
    static const char* makes[] = {"strcat(\"v\", int_to_str(k + %d))", "new N{k + %d, strcat(\"t\", \"u\")}", "arr(k + %d, strcat(\"e\", \"f\"))", "box(k + %d)"};
    static const char* tests[] = {"cast(%s, str) == strcat(\"v\", int_to_str(k + %d))", "cast(%s, N).v == k + %d", "cast(arr_get(cast(%s, arr), 0), int) == k + %d", "box_n(cast(%s, box)) == k + %d"};
    std::string text = "struct N { v: int o: any }\nuse array(\"any\") as arr\nbad := 0\n", mk, ck, nulls, decl;
    std::vector<int> what(n);
    for (int i = 0; i < n; ++i) what[i] = pick(5, "what it holds");
    std::string f = kind == 0 ? "w.f%d" : kind == 1 ? "l%d" : "cast(arr_get(a, %d), any)";
    if (kind == 2) f = "arr_get(a, %d)";
    for (int i = 0; i < n; ++i) {
        decl += fmt("f%d: any ", i);
        nulls += i ? ", null" : "null";
        std::string v = what[i] == 4 ? "null" : fmt(makes[what[i]], i), at = fmt(f.c_str(), i);
        if (kind == 0) mk += "    " + at + " = " + v + "\n";
        else if (kind == 1) mk += fmt("    l%d: any = ", i) + v + "\n";
        else mk += "    arr_push(a, " + v + ")\n";
        if (what[i] < 4) ck += "    if !(" + fmt(tests[what[i]], at.c_str(), i) + fmt(") { bad += 1 host_in() }\n");
    }
    if (kind == 0) text += "struct W { " + decl + "}\nfunc go(k: int): int {\n    w := new W{" + nulls + "}\n";
    else text += std::string("func go(k: int): int {\n") + (kind == 2 ? "    a := arr()\n" : "");
    text += mk + "    strcat(\"garbage\", \"x\")\n    strcat(\"garbage\", \"y\")\n" + ck + "    return k\n}\nfor i := 0; i < 3; i += 1 { go(i * 1000) }\n";
    sample(text);
    SimHeap *hs = new_heap("state"), *h = new_heap("thread");
    h->randomize("thread heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", text);
    ThreadHost* t = new_thread(s, h, 1);
    int style = pick(3, "collections");
    u64 every = 1 + pick(400, "every"), off = pick(every, "offset");
    static const int gcs[] = {0, 8, 50, 100, 200};
    t->th->maxNumObjects = style == 2 ? gcs[pick(5, "threshold")] : 1 << 30;
    Tiny_StartThread(t->th);
    hang_limit(800000000ull, "wide");
    u64 c = 0, ngc = 0;
    for (bool more = true; more; ++c) {
        bool gc = style == 0 ? c % every == off : style == 1 ? c % 97 == off % 97 : false;
        if (style != 2) t->th->maxNumObjects = gc ? 0 : 1 << 30;
        ngc += gc;
        more = step(t);
        if (more && gc && c % 5 == 0) reachable(t, "of something wide");
    }
    hang_off();
    Tiny_Value r = Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, "bad"));
    if (r.type != TINY_VAL_INT || r.i) violate("gc:visible", fmt("%s of %d values are not what they were", showv(r).c_str(), n));
    count("probe.wide structs, frames and arrays");
    count("fault.collection between instructions", ngc);
    steps(c);
    sig(hash_str(text) + c * 7 + ngc);
    end_thread(t);
    if (t->finalized != t->boxes) violate("gc:not-finalized", fmt("%d natives were created, %d finalized", (int)t->boxes, (int)t->finalized));
    Tiny_DeleteState(s);
}
void run_model_gc(bool exact);   // check_model.cpp
void run_c04() {
    int k = pick(50, "kind of run");
    if (k == 49) deep_run();
    else if (k >= 47) tall_run();
    else if (k >= 45) wide_run();
    else if (k >= 40) run_model_gc(false);
    else gc_run(false);
}

// A program that runs "for ever" with a bounded live set: what it holds must stay bounded too.
static void churn() {
    static const char* setup =
        "struct N { v: int next: N other: any }\nuse array(\"int\") as ai\nuse array(\"N\") as an\nuse array(\"str\") as as_\n"
        "g: N = new N{0, cast(null, N), null}\nkeep := ai(1, 2, 3)\nlast := \"\"\nbx := box(1)\ndd := dict()\nslots := an()\nring := 0\n"
        "func id(a: str): str { return a }\nfunc mk(v: int): N { return new N{v, cast(null, N), \"text\"} }\nfunc deep(n: int): N { if n <= 0 { return new N{0, cast(null, N), null} } return new N{n, deep(n - 1), null} }\n"
        "use delegate(\"mk\") as dmk\n";
    static const char* parts[] = {
        "last = strcat(\"x\", int_to_str(i))\n", "a := new N{i, cast(null, N), null}\n", "b := new N{i, cast(null, N), null} b.next = b\n",
        "c := new N{i, cast(null, N), null} c2 := new N{i, c, null} c.next = c2\n", "l := ai(i, i + 1) ai_push(l, 3)\n", "s1 := as_(\"a\", strcat(\"b\", int_to_str(i)), id(strcat(\"c\", \"d\")))\n",
        "bx = box(i) box_put(bx, new N{i, cast(null, N), null})\n", "bb := box(i) box_put(bb, bb)\n", "d := dict(\"k\", new N{i, cast(null, N), null})\n", "dict_put(dd, \"k\", strcat(\"v\", int_to_str(i)))\n",
        "dict_put(dd, int_to_str(i % 5), new N{i, cast(null, N), null})\n", "dict_put(dd, int_to_str(i), i) dict_remove(dd, int_to_str(i))\n", "g = new N{i, cast(null, N), g.other}\n", "g.other = strcat(\"o\", int_to_str(i))\n",
        "an_push(slots, new N{i, cast(null, N), null}) if an_len(slots) > 5 { an_shift(slots) }\n", "ai_push(keep, i) ai_pop(keep)\n", "x := deep(6)\n", "m := mk(i)\n", "emit_s(cap(strcat(\"q\", int_to_str(i))))\n",
        "an_clear(slots)\n", "ks := dict_keys(dd)\n", "t := cast(hcall(\"mk\", i), N)\n", "w := delegate_int_N_call(dmk(), i)\n", "e: any = new N{i, cast(null, N), new N{i, cast(null, N), null}}\n", "if i % 3 == 0 { u := strcat(\"u\", \"v\") } else { u2 := ai(1) }\n",
        "dict_put(dd, int_to_str(i), new N{i, cast(null, N), null}) dict_remove(dd, int_to_str(i))\n", "id(strcat(\"dropped\", int_to_str(i)))\n", "substr(strcat(\"abcdef\", int_to_str(i)), 1, 3)\n", "dict_clear(dd)\n",
    };
    std::string body;
    int n = 1 + pick(5, "parts");
    for (int i = 0; i < n; ++i) body += parts[pick(sizeof parts / sizeof *parts, "part")];
    // declarations of two equal parts would clash
    std::set<std::string> seen;
    std::string uniq;
    for (size_t i = 0; i < body.size();) { size_t e = body.find('\n', i) + 1; std::string l = body.substr(i, e - i); if (seen.insert(l).second) uniq += "    " + l; i = e; }
    int iters = 400 << pick(4, "iterations");
    int mode = pick(3, "loop");
    std::string text = setup;
    text += "func round(i: int): int {\n" + uniq + "    return i\n}\n";
    if (mode == 0) text += fmt("for i := 0; i < %d; i += 1 {\n", iters) + "    host_in()\n" + uniq + "}\n";
    else if (mode == 1) text += fmt("for i := 0; i < %d; i += 1 { host_in() round(i) }\n", iters);
    sample(text);
    SimHeap *hs = new_heap("state"), *h = new_heap("thread");
    h->randomize("thread heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", text);
    ThreadHost* t = new_thread(s, h, 1);
    int gc = pick(4, "threshold") == 3 ? 1 + pick(300, "initial threshold") : 0;
    if (gc) t->th->maxNumObjects = gc;
    u64 rounds = 0;
    size_t first = 0, rest = 0, firstBlocks = 0, restBlocks = 0;
    auto look = [&] {
        ++rounds;
        t->tr.clear();
        size_t b = h->live_bytes, k = h->nlive;
        if (rounds <= (u64)iters / 4) { first = std::max(first, b); firstBlocks = std::max(firstBlocks, k); }
        else if (rounds >= (u64)iters / 2) { rest = std::max(rest, b); restBlocks = std::max(restBlocks, k); }
    };
    t->hook = [&](ThreadHost&, const char* w) { if (!strcmp(w, "in")) look(); };
    hang_limit(2000000000ull, "churn");
    Tiny_StartThread(t->th);
    Tiny_Run(t->th);
    if (mode == 2) {
        int fi = Tiny_GetFunctionIndex(s, "round");
        for (int i = 0; i < iters; ++i) { Tiny_Value a = Tiny_NewInt(i); Tiny_CallFunction(t->th, fi, &a, 1); look(); }
    }
    hang_off();
    count("probe.long running program");
    steps(iters * 50);
    sig(hash_str(uniq) + mode * 7 + iters);
    if (t->hook && !rounds) harness_error("churn: no rounds");
    t->hook = nullptr;
    // a raised first threshold may not have been reached in the first quarter: its objects are allowed for
    if (rest > first * 8 / 5 + 8192 + (size_t)gc * 120 || restBlocks > firstBlocks * 8 / 5 + 150 + (size_t)gc * 4) violate("gc:memory-grows", fmt("a program with a bounded live set used at most %zu bytes (%zu blocks) in the first quarter of %d rounds, but up to %zu bytes (%zu blocks) later", first, firstBlocks, iters, rest, restBlocks));
    size_t bound = 40000 + (gc > 0 ? gc : 8) * 1000;
    if (rest > bound) violate("gc:memory-unbounded", fmt("%zu bytes (%zu blocks) held by a program with a tiny live set", rest, restBlocks));
    end_thread(t);
    if (t->finalized != t->boxes) violate("gc:not-finalized", fmt("%d natives were created, %d finalized", t->boxes, t->finalized));
    Tiny_DeleteState(s);
}
// Very much garbage at once, with live objects scattered in it: one collection takes all of it and nothing else.
static void burst() {
    static const char* makes[] = {"new N{i, cast(null, N), null}", "strcat(\"text\", int_to_str(i))", "box(i)", "arr(i)", "dict(\"k\", i)", "new N{i, new N{i, cast(null, N), null}, null}", "arr(strcat(\"a\", int_to_str(i)))", "new N{i, cast(null, N), box(i)}"};
    static const int boxes[] = {0, 0, 1, 0, 0, 0, 0, 1}, costs[] = {100, 100, 160, 250, 1900, 200, 350, 260};
    int kind = pick(8, "garbage");
    static const int sizes[] = {10, 300, 3000, 20000, 40000};
    int n = std::min(sizes[pick(5, "amount")], 1800000 / costs[kind]);
    bool chain = pick(3, "linked") == 2 && kind == 0;
    std::string text = "struct N { v: int next: N other: any }\nuse array(\"any\") as arr\nkeep := arr()\nchainHead := cast(null, N)\nfunc drop() { arr_clear(keep) chainHead = cast(null, N) }\nfunc nothing(): int { x := 1 x = x + 1 return x }\n"
        "func burst(n: int, every: int): int {\n    kept := 0\n    for i := 0; i < n; i += 1 {\n        " + (chain ? std::string("chainHead = new N{i, chainHead, null}\n        x: any = chainHead\n") : "x: any = " + std::string(makes[kind]) + "\n") +
        "        if every > 0 { if i % every == 0 { arr_push(keep, x) kept += 1 } }\n    }\n" + (chain ? "    chainHead = cast(null, N)\n" : "") + "    return kept\n}\n";
    sample(text);
    SimHeap *hs = new_heap("state"), *h = new_heap("thread");
    h->place = 1;
    h->quarantine = 0;
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", text);
    ThreadHost* t = new_thread(s, h, 1);
    t->th->maxNumObjects = 1 << 30;
    hang_limit(4000000000ull, "burst");
    Tiny_StartThread(t->th);
    Tiny_Run(t->th);
    auto call = [&](const char* f, std::vector<Tiny_Value> a) { return Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, f), a.data(), a.size()); };
    auto collect = [&]() { t->th->maxNumObjects = 0; call("nothing", {}); t->th->maxNumObjects = 1 << 30; count("fault.collection after a burst"); };
    // what one kept element holds on to
    chain ? (void)0 : (void)call("burst", {Tiny_NewInt(8), Tiny_NewInt(1)});
    collect();
    u64 k8 = h->nlive;
    call("drop", {});
    collect();
    u64 base = h->nlive;
    u64 each = chain ? 0 : (k8 - base) / 8, fin0 = t->finalized, box0 = t->boxes;
    if (fin0 != box0) violate("gc:not-finalized", fmt("%d natives were created, none is reachable, %d are finalized", (int)box0, (int)fin0));
    int rounds = 1 + pick(3, "rounds");
    for (int r = 0; r < rounds; ++r) {
        static const int es[] = {0, 1, 2, 7, 100, 5000};
        int every = chain ? 0 : es[pick(6, "kept")];
        int natural = pick(3, "collections in between");
        t->th->maxNumObjects = natural == 2 ? 8 : 1 << 30;
        Tiny_Value kv = call("burst", {Tiny_NewInt(n), Tiny_NewInt(every)});
        int kept = (int)kv.i;
        collect();
        u64 want = base + each * kept;
        // the storage of the array that keeps them is a block once it held anything, and base was counted after that
        if (h->nlive > want + 1) violate("gc:garbage-kept", fmt("%llu blocks after a collection, %llu are reachable (%d of %d values kept, %llu blocks each)", (unsigned long long)h->nlive, (unsigned long long)want, kept, n, (unsigned long long)each));
        if (h->nlive < want) violate("gc:live-freed", fmt("%llu blocks after a collection, %llu are reachable", (unsigned long long)h->nlive, (unsigned long long)want));
        if (boxes[kind] && !chain && (int)(t->boxes - t->finalized) != kept) violate("gc:not-finalized", fmt("%d natives created, %d finalized, %d reachable", (int)t->boxes, (int)t->finalized, kept));
        if (every) {
            Array* a = (Array*)Tiny_ToAddr(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, "keep")));
            if (ArrayLen(a) != kept) violate("gc:live-changed", fmt("%d values kept, %d there", kept, ArrayLen(a)));
            for (int i = 0; i < kept; ++i) {
                std::string got = showv(*ArrayGet(a, i), 3);
                if (kind != 4 && got.find(fmt("%d", i * every)) == std::string::npos) violate("gc:live-changed", fmt("element %d is %s", i, got.c_str()));
            }
        }
        call("drop", {});
        if (pick(2, "collect the kept")) collect();
        steps(n);
    }
    collect();
    if (h->nlive > base + 1) violate("gc:garbage-kept", fmt("%llu blocks when everything was dropped, %llu before", (unsigned long long)h->nlive, (unsigned long long)base));
    hang_off();
    sig(hash_str(text) + n + rounds);
    count("probe.burst of garbage");
    end_thread(t);
    if (t->finalized != t->boxes) violate("gc:not-finalized", fmt("%d natives were created, %d finalized", t->boxes, t->finalized));
    Tiny_DeleteState(s);
}
void run_c05() {
    switch (pick(6, "kind of run")) {
        case 5: if (pick(4, "burst") == 3) burst(); else gc_run(true); break;
        case 3: churn(); break;
        case 4: run_model_gc(true); break;
        default: gc_run(true);
    }
}
