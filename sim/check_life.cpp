// Checks over life cycles and histories: memory, allocator behaviour, host calls, positions, divisions.
#include <string.h>
#include <algorithm>
#include "simfs.h"
#include "world.h"

static const int GCS[] = {8, 0, 1, 3, 20, 200, 100000};
static void no_leak(SimHeap* h, const char* cls, const char* when) {
    if (!h->nlive) return;
    std::string s;
    int k = 0;
    for (auto& b : h->live_blocks()) if (++k <= 12) s += fmt(" allocation %llu (%zu bytes)", (unsigned long long)b.serial, b.size);
    violate(cls, fmt("%s: %llu blocks (%zu bytes) of context '%s' were never released:", when, (unsigned long long)h->nlive, h->live_bytes, h->name) + s);
}
// Arguments for an observer; both as script values and as reference values.
static std::vector<Val> obs_args(const Fn& f, const char* label) {
    std::vector<Val> v;
    for (size_t i = 0; i < f.args.size(); ++i) {
        int k = pick(9, label);
        if (f.args[i].k == T_STR) { static const char* w[] = {"arg", "", "k1", "hello", "x", "longer text", "0", "yy", "zz"}; v.push_back(Val::S(w[k])); }
        else if (f.args[i].k == T_BOOL) v.push_back(Val::B(k & 1));
        else if (f.args[i].k == T_FLT) v.push_back(Val::F(k * 0.25));
        else v.push_back(Val::I(k));
    }
    return v;
}
static std::vector<Tiny_Value> to_tiny(const std::vector<Val>& v) {
    std::vector<Tiny_Value> r;
    for (auto& x : v) r.push_back(x.t == V_STR ? Tiny_NewConstString(strdup(x.s.c_str())) : x.t == V_BOOL ? Tiny_NewBool(x.i) : x.t == V_FLT ? Tiny_NewFloat(x.f) : Tiny_NewInt(x.i));
    return r;
}
static Tiny_Value call(ThreadHost* t, const Fn& f, std::vector<Tiny_Value> a) {
    int i = Tiny_GetFunctionIndex(t->th->state, f.name.c_str());
    if (i < 0) violate("lookup:function", "function not found: " + f.name);
    return Tiny_CallFunction(t->th, i, a.data(), a.size());
}

// ---- C06 ------------------------------------------------------------------------------------------
void run_c06() {
    struct Th { ThreadHost* t; SimHeap* h; FILE* f; bool started, stale; };
    struct St { Tiny_State* s = nullptr; SimHeap* h = nullptr; Program p; size_t next = 0; bool full = false, tainted = false, ready = false; std::vector<Th> ths; int ncomp = 0; };
    std::vector<St> sts(1 + pick(2, "states"));
    std::vector<SimHeap*> heaps;
    int nheap = 0;
    auto heap = [&](const char* n) -> SimHeap* {
        if (nheap >= 9)
            for (auto* h : heaps) {   // one nothing uses any more
                bool used = false;
                for (auto& st : sts) {
                    if (st.s && st.h == h) used = true;
                    for (auto& x : st.ths) used = used || x.h == h;
                }
                if (!used) return h;
            }
        if (nheap >= 9) return nullptr;
        SimHeap* h = new_heap(strdup(fmt("%s%d", n, nheap++).c_str()));
        h->randomize("heap");
        heaps.push_back(h);
        return h;
    };
    // what goes past the host's allocators is accounted for as well
    SimHeap* libc = g_libc_heap = new_heap("malloc");
    libc->randomize("malloc");
    std::string desc;
    for (auto& st : sts) {
        GenOpt o = swarm();
        o.observers = true;
        o.size = 3 + pick(9, "statements");
        o.maxcost = 1500;
        st.p = generate(o);
        desc += show_program(st.p);
    }
    sample(desc);
    hang_limit(400000000, "life cycle");
    int n = 4 + pick(34, "events");
    bool sharing = pick(4, "threads share the context of their state") == 3;
    std::string sinkText;
    Stdout so(sim_outstream(&sinkText));
    // memory is taken only from the allocator of the state or thread an operation is about
    bool plain = false;   // somebody uses the C library's on purpose
    auto taken = [&] { std::vector<u64> v; for (auto* h : heaps) v.push_back(h->nalloc); return v; };
    std::vector<u64> before;
    auto only = [&](SimHeap* own, const char* what) {
        if (own == libc) plain = true;
        for (size_t i = 0; i < heaps.size(); ++i)
            if (heaps[i] != own && heaps[i]->nalloc != (i < before.size() ? before[i] : 0)) violate("context:other", fmt("%s in the context '%s' takes memory from the context '%s'", what, own->name, heaps[i]->name));
        if (!plain && libc->nalloc) violate("context:none", fmt("%s in the context '%s' takes memory from the C library", what, own->name));
    };
    auto create = [&](St& st) {
        Th x{nullptr, sharing ? st.h : pick(6, "default allocator") == 5 ? libc : heap("thread"), nullptr, false, false};
        if (!x.h) x.h = libc;
        before = taken();
        x.t = new_thread(st.s, x.h, pick(4, "input"));
        only(x.h, "creating a thread");
        x.t->th->maxNumObjects = GCS[pick(7, "gc")];
        st.ths.push_back(x);
        trace("create thread");
        count("schedule.thread created");
    };
    for (int e = 0; e < n; ++e) {
        St& st = sts[pick(sts.size(), "state")];
        if (!st.s) {
            bool dflt = pick(6, "default allocator") == 5;
            st.h = dflt ? libc : heap("state");
            if (!st.h) continue;
            dirty_stack(pick(2, "stack") ? 0xA5 : 0);
            before = taken();
            st.s = dflt ? Tiny_CreateState() : Tiny_CreateStateWithContext(st.h->ctx());
            if (dflt) count("schedule.default allocator");
            st.full = st.tainted = st.ready = false;
            st.next = 0;
            st.ncomp = 0;
            int k = pick(8, "bind");
            if (k != 7) { bind_all(st.s); bind_macro(st.s); st.full = true; }
            else {
                void (*fs[])(Tiny_State*) = {Tiny_BindStandardArray, Tiny_BindStandardDict, Tiny_BindStandardIO, Tiny_BindStandardLib, Tiny_BindI64, bind_host};
                int mask = pick(64, "bind subset");
                // dictionaries are built on arrays
                if (mask & 2) mask |= 1;
                for (int i = 0; i < 6; ++i) if (mask >> i & 1) fs[i](st.s);
            }
            only(st.h, "creating a state");
            trace("create state %d, bind %d", int(&st - &sts[0]), k);
            count("schedule.state created");
            continue;
        }
        int act = pick(12, "event");
        switch (act) {
            case 0: case 1: case 2: {  // the next part of the program
                if (!st.full || st.next >= st.p.units.size()) goto thread;
                size_t k = pick(4, "all at once") != 3 ? st.p.units.size() - st.next : 1 + pick(st.p.units.size() - st.next, "units");
                std::string t;
                for (size_t i = 0; i < k; ++i) t += st.p.units[st.next++].text;
                trace("compile %zu units in state %d", k, int(&st - &sts[0]));
                before = taken();
                Tiny_CompileResult r = compile(st.s, "life.tiny", t);
                only(st.h, "compiling");
                hang_limit(400000000, "life cycle");
                if (r.type != TINY_COMPILE_SUCCESS) { st.tainted = true; count("probe.valid part rejected"); }
                st.ncomp++;
                for (auto& x : st.ths) x.stale = true;
                count("schedule.compile");
                break;
            }
            case 3: case 4: {  // a source that is most likely rejected
                std::string t = pick(2, "own source") ? some_source() : st.p.text();
                if (st.next == 0 && pick(8, "snippet as it is") == 7) {} else t = pick(2, "how") ? late_error(t) : damage(t);
                if (st.ncomp && st.next < st.p.units.size() && pick(2, "only the rest")) { t.clear(); for (size_t i = st.next; i < st.p.units.size(); ++i) t += st.p.units[i].text; t = damage(t); }
                if (st.full && pick(4, "with a macro") == 3) {   // which compiles sources of its own, whatever comes of them
                    g_macro.clear();
                    g_macro_failing = true;
                    int nm = 1 + pick(2, "macros");
                    for (int i = 0; i < nm; ++i) {
                        std::vector<MacroSource> m;
                        int ns = 1 + pick(3, "sources of the macro");
                        for (int j = 0; j < ns; ++j) {
                            std::string x = pick(2, "what") ? macro_source(e * 100 + i * 10 + j) : some_source();
                            if (pick(2, "damaged")) x = pick(2, "how") ? late_error(x) : damage(x);
                            if (i + 1 < nm && pick(2, "nested deeper")) x = use_macro(i + 1) + x;
                            m.push_back({x, 2 + (int)pick(2, "whose failure")});
                        }
                        g_macro.push_back(m);
                    }
                    t = pick(2, "only the macro") ? use_macro(0) : use_macro(0) + t;
                    count("schedule.macro compiling sources");
                }
                trace("damaged source of state %d: %zu bytes", int(&st - &sts[0]), t.size());
                before = taken();
                Tiny_CompileResult r = compile(st.s, "damaged.tiny", t);
                only(st.h, "a failing compile");
                hang_limit(400000000, "life cycle");
                trace("damaged source: %s", r.type ? r.error.msg : "accepted");
                if (r.type == TINY_COMPILE_SUCCESS) { st.tainted = true; st.ncomp++; for (auto& x : st.ths) x.stale = true; count("probe.damaged source accepted"); }
                else count("fault.failed compile");
                break;
            }
            case 5: {
                if (st.ths.size() >= 4) goto thread;
                create(st);
                break;
            }
            case 6: {
                if (st.ths.empty()) goto thread;
                size_t i = pick(st.ths.size(), "which");
                Th x = st.ths[i];
                st.ths.erase(st.ths.begin() + i);
                trace("destroy thread at pc %d", x.t->th->pc);
                count(x.started && x.t->th->pc >= 0 ? "crash.thread abandoned at an instruction" : "schedule.thread destroyed");
                end_thread(x.t);
                if (!sharing && x.h != libc) no_leak(x.h, "leak:thread", "after destroying a thread");
                break;
            }
            case 7: {
                if (!st.ths.empty()) goto thread;
                trace("delete state %d", int(&st - &sts[0]));
                Tiny_DeleteState(st.s);
                st.s = nullptr;
                count("schedule.state deleted");
                if (st.h != libc) no_leak(st.h, "leak:state", "after deleting a state");
                break;
            }
            default:
            thread: {
                bool complete = st.full && st.next >= st.p.units.size() && !st.tainted;
                if (st.tainted || !st.ncomp || !st.full) break;
                if (st.ths.empty()) create(st);
                Th& x = st.ths[pick(st.ths.size(), "thread")];
                if (x.stale && x.started) break;
                x.stale = false;
                before = taken();
                if (!x.started) { Tiny_StartThread(x.t->th); x.started = true; }
                static const u64 spans[] = {1, 10, 100, 1000, 10000};
                u64 k = pick(6, "to the end") == 5 ? ~0ull : 1 + pick(spans[pick(5, "span")], "cycles");
                if (pick(8, "collect") == 7) x.t->th->maxNumObjects = 0;
                trace("run %lld cycles", (long long)k);
                run_to_end(x.t, k);
                sig(x.t->cycles);
                if (complete && x.t->tr.size() > 0 && pick(3, "host call") == 2) {
                    auto& f = st.p.fns[st.p.observers[pick(st.p.observers.size(), "observer")]];
                    call(x.t, *f, to_tiny(obs_args(*f, "arg")));
                    count("schedule.host call");
                }
                only(x.h, "running a thread");
                if (pick(6, "restart") == 5 && x.t->th->pc < 0) { Tiny_StartThread(x.t->th); count("schedule.thread restarted"); }
                if (complete && pick(8, "set a global") == 7 && !st.p.globals.empty()) {
                    // only objects: dropping what the program itself no longer needs
                    if (x.t->th->pc < 0) Tiny_SetGlobal(x.t->th, pick(st.p.globals.size(), "global"), Tiny_Null), x.stale = true;
                }
            }
        }
    }
    trace("tear down");
    for (auto& st : sts) {
        if (!st.s) continue;
        while (!st.ths.empty()) {
            size_t i = pick(st.ths.size(), "order");
            Th x = st.ths[i];
            st.ths.erase(st.ths.begin() + i);
            if (x.started && x.t->th->pc >= 0) count("crash.thread abandoned at an instruction");
            end_thread(x.t);
            if (!sharing && x.h != libc) no_leak(x.h, "leak:thread", "after destroying a thread");
        }
        Tiny_DeleteState(st.s);
        if (st.h != libc) no_leak(st.h, "leak:state", "after deleting a state");
    }
    hang_off();
    for (auto* h : heaps) no_leak(h, "leak:state", "at the end");
    no_leak(libc, "leak:malloc", "at the end");
}

// ---- C07 ------------------------------------------------------------------------------------------
void run_c07() {
    GenOpt o = swarm();
    o.observers = true;
    o.printing = chance(30, "printing");
    o.maxcost = 1500;
    Program p = generate(o);
    std::vector<std::string> src;
    std::vector<bool> must;
    size_t nu = p.units.size(), parts = 1 + pick(3, "parts"), at = 0;
    std::string all = p.text();
    for (size_t i = 0; i < parts; ++i) {
        if (pick(3, "failing compile") == 2) { src.push_back(pick(2, "how") ? late_error(pick(2, "of what") ? some_source() : all) : damage(pick(2, "of what") ? some_source() : all)); must.push_back(false); }
        size_t k = i + 1 == parts ? nu - at : pick(nu - at + 1, "units");
        std::string t;
        for (size_t j = 0; j < k; ++j) t += p.units[at++].text;
        if (t.empty()) continue;
        src.push_back(t);
        must.push_back(true);
    }
    std::vector<std::string> names = names_of(all);
    int gc = GCS[pick(7, "gc")];
    u64 cyc = pick(3, "abandon") == 2 ? pick(2000, "cycles") : ~0ull;
    auto args0 = obs_args(*p.fns[p.observers[0]], "arg"), args1 = obs_args(*p.fns[p.observers[1]], "arg");
    std::string desc;
    for (auto& t : src) desc += "--- source ---\n" + t.substr(0, 2500) + "\n";
    sample(desc);
    // some of the sources are in files of the simulated disk
    SimFS* fs = new_fs();
    std::vector<bool> inFile;
    for (auto& t : src) inFile.push_back(pick(3, "in a file") == 2 && t.find('\0') == t.npos);
    static const int bufs[] = {4096, 0, 7, 64, 512};
    fs->fixed_buffer = bufs[pick(5, "stdio buffer")];
    for (size_t i = 0; i < src.size(); ++i) if (inFile[i]) fs->put(fmt("file%d.tiny", (int)i), src[i]);
    bool ahead = pick(3, "host call before the start") == 2;
    auto life = [&](SimHeap* hs, SimHeap* ht, int stackByte) {
        auto dirt = [&] { if (stackByte >= 0) dirty_stack(stackByte); };
        std::string r;
        dirt();
        Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
        dirt();
        bind_all(s);
        bool broken = false;
        for (size_t i = 0; i < src.size(); ++i) {
            dirt();
            std::string nm = fmt("file%d.tiny", (int)i);
            Tiny_CompileResult c;
            if (inFile[i]) {
                hang_limit(3000000 + src[i].size() * 30000, "compile");
                c = Tiny_CompileFile(s, nm.c_str());
                hang_off();
            } else c = compile(s, nm.c_str(), src[i]);
            r += fmt("compile %d %s\n", c.type, c.type ? c.error.msg : "");
            if (c.type && must[i]) { broken = true; break; }
            if (!c.type && !must[i]) { broken = true; break; }  // may not even terminate
        }
        dirt();
        r += lookups(s, names) + describe_state(s, names, true);
        if (!broken) {
            dirt();
            ThreadHost* t = new_thread(s, ht, 7);
            t->th->maxNumObjects = gc;
            FILE* f = sim_outstream(&t->out);
            Stdout so(f);
            if (ahead) {   // with a collection while nothing has been returned yet
                dirt();
                t->th->maxNumObjects = 0;
                r += "ahead " + showv(call(t, *p.fns[p.observers[0]], to_tiny(args0))) + "\n";
                t->th->maxNumObjects = gc;
            }
            Tiny_StartThread(t->th);
            hang_limit(run_budget(p) * 20, "run");
            u64 k = 0;
            while (k < cyc) {
                if (k % 50 == 0) { dirt(); if (k < 2000) r += positions(t->th) + " "; }
                ++k;
                if (!step(t)) break;
            }
            if (!t->tr.empty()) {
                dirt();
                auto& f0 = *p.fns[p.observers[0]];
                auto& f1 = *p.fns[p.observers[1]];
                r += "call " + showv(call(t, f0, to_tiny(args0))) + "\n";
                r += "call " + showv(call(t, f1, to_tiny(args1))) + "\n";
            }
            hang_off();
            r += joined(t->tr) + "\x1e";
            if (cyc == ~0ull) for (size_t i = 0; i < p.globals.size(); ++i) r += p.globals[i] + "=" + showv(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[i].c_str()))) + "\n";
            dirt();
            end_thread(t);
            fclose(f);
            r += t->out;
        }
        dirt();
        Tiny_DeleteState(s);
        return r;
    };
    SimHeap *hs = new_heap("state"), *ht = new_heap("thread");
    hs->fill = ht->fill = 0;
    std::string want = isolated([&]() { return life(hs, ht, 0); }, true);
    if (bad(want) && want.compare(1, 7, "memory:") && want.compare(1, 6, "alloc:") && want.compare(1, 6, "crash:")) { trace("undisturbed: %.600s", want.c_str() + 1); discard("the run under the plain allocator fails"); }
    int n = 1 + pick(2, "allocators");
    for (int i = 0; i < n; ++i) {
        SimHeap *as = new_heap(strdup(fmt("state under allocator %d", i).c_str())), *at2 = new_heap(strdup(fmt("thread under allocator %d", i).c_str()));
        as->randomize("state allocator");
        at2->randomize("thread allocator");
        static const int bytes[] = {0xA5, 0xFF, 0x01, 0x41, 0x7F};
        int sb = bytes[pick(5, "stack")];
        trace("state: %s; thread: %s; stack 0x%x", as->policy().c_str(), at2->policy().c_str(), sb);
        count(("fault.allocator " + as->policy().substr(0, as->policy().find(' '))).c_str());
        count(("fault.allocator " + at2->policy().substr(0, at2->policy().find(' '))).c_str());
        count(fmt("fault.fresh memory 0x%x", as->fill & 0xff).c_str());
        count(as->move_always ? "fault.resize moves" : "fault.resize in place");
        count("fault.dirty stack");
        sig(hash_str(as->policy() + at2->policy()) ^ hash_str(all));
        std::string got = life(as, at2, sb);
        if (bad(want)) violate("allocator:plain", "the run under the plain allocator touches memory it must not: " + want.substr(1, 900));
        if (got != want) violate("allocator:visible", "state allocator " + as->policy() + ", thread allocator " + at2->policy() + "\n" + obs_diff(want, got));
    }
}

// ---- C08 ------------------------------------------------------------------------------------------
void run_c08() {
    GenOpt o = swarm();
    o.observers = true;
    o.maxcost = 1500;
    Program p = generate(o);
    SimHeap *hs = new_heap("state"), *h = new_heap("thread");
    h->randomize("thread heap");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "main.tiny", p.text() + "func nest_(): int { return hnest() + 1 }\n");
    u64 seed = 1 + pick(4, "input");
    std::string base = alone(s, h, seed, 1 << 30, p);
    if (bad(base)) discard("the undisturbed run fails");
    RefRun ref = reference(p, seed);
    if (joined(ref.tr) + "\x1e\x1e" != base) { count("probe.reference differs"); discard("the reference disagrees about the undisturbed run"); }
    sample(show_program(p));
    // where the observers' own globals are set up
    size_t obsUnit = 0;
    while (obsUnit < p.units.size() && !p.units[obsUnit].run) ++obsUnit;
    Interp in2;
    p.prepare(in2, seed);
    p.units[obsUnit].run(in2);
    bool effectful = pick(2, "functions with effects");
    // Calls of functions with effects on the program's own data, planned against the reference.
    struct Plan { int fn; std::vector<Val> args; std::string want; };
    std::map<int, Plan> plan;  // by number of the emit
    RefRun pref;
    if (effectful) {
        std::vector<int> cand;
        std::vector<int> defunit;
        for (size_t i = 0; i < p.fns.size(); ++i) {
            auto& f = *p.fns[i];
            if (f.observer || f.name.compare(0, 2, "fn") || f.stack > 24 || f.frames > 14 || f.cost > 400) continue;
            bool ok = true;
            for (size_t k = 0; k < f.args.size(); ++k) if (f.args[k].k != T_INT && f.args[k].k != T_STR && f.args[k].k != T_BOOL && f.args[k].k != T_FLT) ok = false;
            if (!ok) continue;
            int u = -1;
            for (size_t k = 0; k < p.units.size(); ++k) if (!p.units[k].text.compare(0, 6 + f.name.size(), "func " + f.name + "(")) u = k;
            if (u >= 0) { cand.push_back(i); defunit.push_back(u); }
        }
        if (cand.empty()) effectful = false;
        else {
            int want = 1 + pick(5, "planned calls");
            Interp& in = pref.in;
            p.prepare(in, seed);
            int emits = 0, in_call = 0, gap = pick(12, "first call");
            in.onev = [&](Interp& me) {
                const std::string& e = me.tr.back();
                if (in_call || !e.compare(0, 4, "out ") || !e.compare(0, 3, "set")) return;
                int k = emits++;
                if (want <= 0 || k < gap) return;
                int c = pick(cand.size(), "planned function");
                if (defunit[c] >= me.unit) return;
                auto& f = *p.fns[cand[c]];
                Plan pl{cand[c], obs_args(f, "planned arg"), ""};
                if (f.recursive) pl.args[0] = Val::I(pl.args[0].i % 4);
                --want;
                gap = k + 1 + pick(20, "next call");
                ++in_call;
                pl.want = show(f.call(me, pl.args));
                --in_call;
                plan[k] = pl;
            };
            p.run(in);
            in.onev = nullptr;
            pref.tr = in.tr;
            if (plan.empty()) effectful = false;
        }
    }
    if (!effectful) { pref.tr = ref.tr; pref.in.g = ref.in.g; }
    ThreadHost* t = new_thread(s, h, seed);
    FILE* f = sim_outstream(&t->out);
    Stdout so(f);
    Rng r(derive("calls"));
    int gcstyle = pick(4, "collections"), rate = pick(3, "how often") * 12, inside = pick(3, "inside foreign functions") * 25;
    u64 burst = pick(3, "burst") == 2 ? pick(1500, "burst start") : ~0ull;
    int ncall = 0, maxcall = 60, emits = 0, depth = 0;
    bool in_obs = false;
    auto maybe_gc = [&] { if (gcstyle == 1 ? r.below(10) == 0 : gcstyle == 2 ? true : false) t->th->maxNumObjects = 0; };
    t->th->maxNumObjects = gcstyle == 3 ? GCS[pick(7, "threshold")] : 1 << 30;
    auto observe = [&](const char* where, bool anyobs) {
        bool ready = !t->tr.empty() && !in_obs && anyobs;
        auto& fn = *p.fns[p.observers[ready ? r.below(p.observers.size()) : 0]];
        std::vector<Val> a;
        for (auto& ty : fn.args) { int k = r.below(9); static const char* w[] = {"arg", "", "k1", "hello", "x", "longer text", "0", "yy", "zz"}; a.push_back(ty.k == T_STR ? Val::S(w[k]) : Val::I(k)); }
        ++ncall;
        count("schedule.host call");
        count((std::string("schedule.host call ") + where).c_str());
        size_t ev = t->tr.size();
        bool was = in_obs;
        in_obs = true;
        maybe_gc();
        if (g_verbose) trace("call %s %s after %llu cycles", fn.name.c_str(), where, (unsigned long long)t->cycles);
        // a string argument that lives in the thread's heap must survive as well
        auto ta = to_tiny(a);
        for (size_t i = 0; i < ta.size(); ++i) if (a[i].t == V_STR && r.below(2)) ta[i] = Tiny_NewStringCopy(t->th, a[i].s.c_str(), a[i].s.size());
        std::string got = showv(call(t, fn, ta));
        in_obs = was;
        std::string want = show(fn.call(in2, a));
        if (got != want) violate("call:result", fmt("%s called %s after %llu cycles: expected %s, got %s", fn.name.c_str(), where, (unsigned long long)t->cycles, want.c_str(), got.c_str()));
        if (t->tr.size() != ev) t->tr.resize(ev);
    };
    // host calls nested as deep as the frames allow, the innermost of them with an observation in it
    auto nest = [&](const char* where) {
        int room = TINY_THREAD_MAX_CALL_DEPTH - 6 - t->th->fc;
        if (room < 1 || t->th->sp > TINY_THREAD_STACK_SIZE - 40) return;
        int n = 1 + (int)r.below(room);
        t->nest = n;
        count("schedule.nested host calls");
        maybe_gc();
        Tiny_Value v = Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, "nest_"), nullptr, 0);
        if (v.type != TINY_VAL_INT || v.i != n + 1) violate("call:result", fmt("%d calls nested %s after %llu cycles: got %s", n + 1, where, (unsigned long long)t->cycles, showv(v).c_str()));
    };
    t->nesthook = [&](ThreadHost&) { if (!in_obs && r.below(2)) observe("in nested calls", true); };
    t->hook = [&](ThreadHost& me, const char* where) {
        if (depth < 3 && (int)r.below(100) < inside && ncall < maxcall) { ++depth; observe("inside a foreign function", depth == 1); --depth; }
        if (in_obs || depth || strcmp(where, "emit")) return;
        int k = emits++;
        auto it = plan.find(k);
        if (it == plan.end()) return;
        auto& fn = *p.fns[it->second.fn];
        ++depth;
        maybe_gc();
        trace("emit %d: call %s", k, fn.name.c_str());
        count("schedule.host call with effects");
        std::string got = showv(call(t, fn, to_tiny(it->second.args)));
        --depth;
        if (got != it->second.want) violate("call:result", fmt("%s called inside emit %d: expected %s, got %s", fn.name.c_str(), k, it->second.want.c_str(), got.c_str()));
    };
    hang_limit(run_budget(p) * 60, "run with host calls");
    if (pick(2, "call before the start")) {
        observe("before the start", false);
        if (pick(2, "again")) nest("before the start");
        // the start begins at the top level; it is not a reason for values to change
        std::vector<std::string> g0;
        for (auto& g : p.globals) g0.push_back(showv(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, g.c_str())), 2));
        int gi = -1;
        Tiny_Value was = Tiny_Null;
        if (!p.globals.empty() && pick(2, "set a global")) {
            gi = pick(p.globals.size(), "which");
            was = Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[gi].c_str()));
            Tiny_SetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[gi].c_str()), Tiny_NewConstString("set ahead"));
            g0[gi] = "\"set ahead\"";
        }
        Tiny_StartThread(t->th);
        for (size_t i = 0; i < p.globals.size(); ++i) {
            std::string g1 = showv(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[i].c_str())), 2);
            if (g1 != g0[i]) violate("call:start-changes-globals", fmt("global %s was %s before the start and is %s after it", p.globals[i].c_str(), g0[i].c_str(), g1.c_str()));
        }
        if (gi >= 0) Tiny_SetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[gi].c_str()), was);   // not all are initialized
    } else Tiny_StartThread(t->th);
    if (pick(2, "call right after the start")) observe("before the first instruction", false);
    u64 c = 0;
    for (;; ++c) {
        if (gcstyle != 3) t->th->maxNumObjects = 1 << 30;
        maybe_gc();
        if (!step(t)) break;
        bool b = c >= burst && c < burst + 40;
        if (b || (ncall < maxcall && (int)r.below(1000) < rate)) { if (r.below(12) == 0) nest("between instructions"); else observe("between instructions", true); }
    }
    int after = pick(4, "calls after the end");
    for (int i = 0; i < after; ++i) { if (!Tiny_IsThreadDone(t->th)) violate("call:not-done", "a finished thread is no longer done after a call"); observe("after the end", true); }
    if (!Tiny_IsThreadDone(t->th)) violate("call:not-done", "a finished thread is no longer done after a call");
    hang_off();
    sig(c * 100 + ncall);
    if (t->tr != pref.tr) violate("call:not-transparent", diff_traces(pref.tr, t->tr));
    for (size_t i = 0; i < p.globals.size(); ++i) {
        const Val& w = (p.globals[i][0] == 'o' ? in2 : pref.in).g[i];
        if (p.globalTy[i].k == T_DICT || p.globalTy[i].k == T_DSI) continue;
        std::string ws = show(w, 2), gs = showv(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, p.globals[i].c_str())), 2);
        if (ws != gs) violate("call:globals", fmt("global %s: expected %s, got %s", p.globals[i].c_str(), ws.c_str(), gs.c_str()));
    }
    t->hook = nullptr;
    end_thread(t);
    Tiny_DeleteState(s);
}

// ---- C18 ------------------------------------------------------------------------------------------
namespace {
struct Rendered {
    struct File { std::string name, text; bool fails; };
    std::vector<File> files;                                       // compiled in this order
    std::map<std::pair<std::string, int>, std::pair<int, int>> inv;  // (file, line) -> (unit, line in it)
};
std::vector<std::string> split_lines(const std::string& s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; }
    return v;
}
Rendered render(const Program& p, bool plain, std::vector<int>& parts, bool keep) {
    Rendered r;
    int noise = 0;
    Rng g(plain ? 0 : derive("layout"));
    int blank = plain ? 0 : pick(3, "blank lines") * 15, nfail = plain ? 0 : pick(4, "failing compiles");
    bool crlf = !plain && pick(6, "line ends") == 5;
    size_t u = 0, nu = p.units.size();
    while (u < nu) {
        size_t k = plain ? keep ? parts[r.files.size()] : nu - u : pick(3, "rest in one source") == 2 ? nu - u : 1 + pick(std::min<size_t>(nu - u, 8), "units in this source");
        if (!plain) parts.push_back(k);
        Rendered::File f;
        f.fails = false;
        f.name = plain ? fmt("main%d.tiny", (int)r.files.size()) : pick(4, "same file name") == 3 ? "same.tiny" : fmt("part%d.tiny", (int)r.files.size());
        for (auto& x : r.files) if (x.name == f.name) f.name += "2";
        int line = 0;
        auto out = [&](const std::string& s) { f.text += s + (crlf ? "\r\n" : "\n"); ++line; };
        for (size_t i = 0; i < k; ++i, ++u) {
            int at = 0;
            if (!plain && pick(8, "declaration between") == 7) {
                switch (pick(crlf ? 5 : 7, "which declaration")) {
                    case 0: out(fmt("zzc%d :: %d", noise, noise)); break;
                    case 1: out(fmt("zzc%d :: \"two", noise)); out("lines\""); break;
                    case 2: out(fmt("struct ZZ%d { v: int", noise)); out("}"); break;
                    case 3: out(fmt("zzc%d :: 'x' // comment", noise)); break;
                    case 4: out(fmt("zzc%d :: \"escaped\\", noise)); out("\\\\\\n"); out("\\\"line\\"); out("\""); break;
                    case 5: out(fmt("zzc%d :: '", noise)); out("'"); break;
                    case 6: out(fmt("zzc%d :: '\\", noise)); out("'"); break;
                }
                ++noise;
            }
            for (auto& l : split_lines(p.units[u].text)) {
                while ((int)g.below(100) < blank) { static const char* b[] = {"", "// comment", "   ", "\t// \"quote"}; out(b[g.below(4)]); }
                out(l);
                r.inv[{f.name, line}] = {(int)u, ++at};
            }
        }
        if (!plain && pick(4, "no newline at the end") == 3) while (!f.text.empty() && isspace((unsigned char)f.text.back())) f.text.pop_back();
        for (; nfail && pick(2, "failing compile here"); --nfail) {
            std::string t = pick(2, "how") ? late_error(f.text) : damage(p.text());
            r.files.push_back({pick(2, "its name") ? f.name : std::string("failed.tiny"), t, true});
        }
        r.files.push_back(f);
    }
    for (; nfail; --nfail) r.files.push_back({"failed.tiny", late_error(p.text()), true});
    return r;
}
struct At { std::string file; int line; };
At position(const Tiny_StateThread* t) {
    const char* f = (const char*)1;
    int l = -77;
    Tiny_GetExecutingFileLine(t, &f, &l);
    if (f == (const char*)1 || l == -77) violate("position:not-set", "the position was not filled in");
    const char* f2 = nullptr;
    int l2 = 0;
    Tiny_GetExecutingFileLine(t, &f2, nullptr);
    Tiny_GetExecutingFileLine(t, nullptr, &l2);
    if (f2 != f || l2 != l) violate("position:unstable", "asking twice gives different positions");
    return At{f ? f : "", l};
}
}  // namespace
static std::string where(const Rendered& r, const At& a) {
    auto it = r.inv.find({a.file, a.line});
    if (it != r.inv.end()) return fmt("unit %d line %d", it->second.first, it->second.second);
    return a.file + fmt(":%d", a.line);
}
void run_c18() {
    GenOpt o = swarm();
    o.ticks = true;
    o.observers = false;
    o.maxcost = 1500;
    Program p = generate(o);
    // Macros compile the functions they generate before the source that uses them, so that the order of the
    // code depends on the division into sources.
    std::vector<int> parts;
    Rendered laid = render(p, false, parts, false), plain = render(p, true, parts, p.text().find("use delegate") != std::string::npos || p.text().find("use json") != std::string::npos);
    SimHeap *hs[2] = {new_heap("state"), new_heap("other state")}, *ht[2] = {new_heap("thread"), new_heap("other thread")};
    hs[1]->randomize("state heap");
    if (pick(3, "memory of the second state") == 2) hs[0] = hs[1];  // often where the first one was
    std::vector<std::string> pos[2];
    sample(show_program(p));
    u64 midfail = pick(3, "failing compile while interrupted") == 2 ? pick(1500, "at cycle") : ~0ull;
    for (int k = 0; k < 2; ++k) {
        const Rendered& r = k ? laid : plain;
        Tiny_State* s = Tiny_CreateStateWithContext(hs[k]->ctx());
        bind_all(s);
        for (auto& f : r.files) {
            char* nm = (char*)hs[k]->alloc(nullptr, f.name.size() + 1);
            strcpy(nm, f.name.c_str());
            Tiny_CompileResult c = compile(s, nm, f.text);
            hs[k]->alloc(nm, 0);  // the host's copy of the name is gone
            if (f.fails) { if (c.type == TINY_COMPILE_SUCCESS) discard("the damaged source is accepted"); count("fault.failed compile"); }
            else if (c.type != TINY_COMPILE_SUCCESS) { if (k == 0) discard("the program is rejected"); violate("position:layout-changes-meaning", std::string("rejected: ") + c.error.msg); }
        }
        ThreadHost* t = new_thread(s, ht[k], 1);
        At a0 = position(t->th);
        if (a0.file != "" || a0.line != 0) violate("position:not-running", fmt("a thread that was not started is at %s:%d", a0.file.c_str(), a0.line));
        Tiny_StartThread(t->th);
        hang_limit(run_budget(p) * 60, "run");
        int leaf = 0, leafId = 0;
        size_t seen = 0;
        int fresh = 0, before = 0;
        At a;
        // while a foreign function runs, and after calls it makes, the thread is at the statement that calls it
        auto inside = [&](ThreadHost& h, const char* what) {
            At b = position(h.th);
            if (h.th->fc == before && (b.file != a.file || b.line != a.line)) violate("position:in-foreign-function", fmt("%s:%d before the call, %s:%d in the foreign function (%s)", a.file.c_str(), a.line, b.file.c_str(), b.line, what));
            const Tiny_Symbol* sy = Tiny_FindFuncSymbol(s, "get_executing_line");
            Tiny_Value l = sy->foreignFunc.callee(h.th, nullptr, 0);
            if (l.type != TINY_VAL_INT || l.i != b.line) violate("position:get_executing_line", fmt("%s, but the line is %d", showv(l).c_str(), b.line));
            count("probe.position in a foreign function");
        };
        t->hook = inside;
        t->aftercall = [&](ThreadHost& h) { inside(h, "after a call"); };
        t->ontick = [&](ThreadHost& h, int id) {
            inside(h, "tick");
            At b = position(h.th);
            auto it = p.pos.find(id);
            if (it == p.pos.end()) harness_error(fmt("tick %d has no position", id));
            std::string want = fmt("unit %d line %d", it->second.unit, it->second.line), got = where(r, b);
            if (got != want) violate("position:in-foreign-function", fmt("called by statement %d (%s), but the position is %s (%s:%d)", id, want.c_str(), got.c_str(), b.file.c_str(), b.line));
        };
        for (;;) {
            a = position(t->th);
            before = t->th->fc;
            std::string w = where(r, a);
            if (k && t->cycles == midfail) {
                Tiny_CompileResult c = compile(s, "interrupt.tiny", "\n\n\nzzq := 1\nzzq2 := undefined_thing(1)\n");
                hang_limit(run_budget(p) * 60, "run");
                if (c.type == TINY_COMPILE_SUCCESS) violate("position:accepted", "");
                At b = position(t->th);
                if (b.file != a.file || b.line != a.line) violate("position:changed-by-failed-compile", fmt("%s:%d became %s:%d", a.file.c_str(), a.line, b.file.c_str(), b.line));
                count("fault.failed compile while interrupted");
            }
            if (fresh) {  // the instruction after a statement's tick still belongs to that statement
                auto sp = p.pos.at(fresh);
                std::string want = fmt("unit %d line %d", sp.unit, sp.line);
                if (w != want) violate("position:wrong-statement", fmt("after the tick of statement %d the position is %s (%s:%d), expected %s", fresh, w.c_str(), a.file.c_str(), a.line, want.c_str()));
                fresh = 0;
            }
            if (leaf && w == fmt("unit %d line %d", p.pos.at(leafId).unit, leaf)) leaf = 0;
            int fc = t->th->fc;
            bool more = step(t);
            if (more && pos[k].size() < 200000) pos[k].push_back(w);
            if (t->stmts.size() > seen) {
                int id = t->stmts.back();
                seen = t->stmts.size();
                if (t->lastTickFc != fc) { leaf = 0; if (!more) break; continue; }  // in a call made by a foreign function
                if (leaf) violate("position:statement-skipped", fmt("the %s of statement %d in unit %d line %d was executed but never reported", "break or continue", leafId, p.pos.at(leafId).unit, leaf));
                auto it = p.pos.find(id);
                if (it == p.pos.end()) harness_error(fmt("tick %d has no position", id));
                std::string want = fmt("unit %d line %d", it->second.unit, it->second.line);
                if (w != want) violate("position:wrong-statement", fmt("statement %d (%s) executes, but the position reported before the instruction is %s (%s:%d)", id, want.c_str(), w.c_str(), a.file.c_str(), a.line));
                fresh = p.solo.count(id) ? 0 : id;
                count("probe.statement position");
                if (p.leaves.count(id) && t->lastTickTrue) { leaf = p.leaves.at(id); leafId = id; }
            }
            if (!more) break;
        }
        hang_off();
        if (leaf) violate("position:statement-skipped", fmt("the break or continue of statement %d in unit %d line %d was executed but never reported", leafId, p.pos.at(leafId).unit, leaf));
        At a1 = position(t->th);
        if (a1.file != "" || a1.line != 0) violate("position:not-running", fmt("a finished thread is at %s:%d", a1.file.c_str(), a1.line));
        end_thread(t);
        Tiny_DeleteState(s);
        sig(hash_str(joined(pos[k])));
        count("probe.instruction position", pos[k].size());
    }
    // the same instructions must be at the same statements, however the source is laid out
    size_t n = std::min(pos[0].size(), pos[1].size());
    for (size_t i = 0; i < n; ++i)
        if (pos[0][i] != pos[1][i]) violate("position:depends-on-layout", fmt("instruction %zu: %s, but with the other layout %s", i, pos[0][i].c_str(), pos[1][i].c_str()));
    if (pos[0].size() != pos[1].size()) violate("position:layout-changes-meaning", fmt("%zu instructions, %zu with the other layout", pos[0].size(), pos[1].size()));
}

// ---- C19 ------------------------------------------------------------------------------------------
static std::vector<std::string> g_late;
template <int N> static Tiny_Value Late(Tiny_StateThread*, const Tiny_Value* a, int n) { g_late.push_back(fmt("late%d %s", N, n ? showv(a[0]).c_str() : "")); return Tiny_NewInt(N * 1000 + (n ? Tiny_ToInt(a[0]) : 0)); }
static Tiny_ForeignFunction const LATE[] = {Late<0>, Late<1>, Late<2>, Late<3>, Late<4>, Late<5>};
void run_c19() {
    GenOpt o = swarm();
    o.observers = true;
    o.maxcost = 1500;
    Program p = generate(o);
    size_t nu = p.units.size();
    SimHeap *hs0 = new_heap("state"), *hs1 = new_heap("state in parts"), *ht0 = new_heap("thread"), *ht1 = new_heap("other thread");
    hs1->randomize("state heap");
    ht1->randomize("thread heap");
    u64 seed = 1 + pick(3, "input");
    int gc = GCS[pick(7, "gc")];
    auto args = obs_args(*p.fns[p.observers[1]], "arg");
    sample(show_program(p));
    auto run = [&](Tiny_State* s, SimHeap* h, int fi) {
        ThreadHost* t = new_thread(s, h, seed);
        t->th->maxNumObjects = gc;
        FILE* f = sim_outstream(&t->out);
        Stdout so(f);
        Tiny_StartThread(t->th);
        hang_limit(run_budget(p) * 4 + 20000000, "run");
        run_to_end(t);
        auto a = to_tiny(args);
        std::string r = "call " + showv(Tiny_CallFunction(t->th, fi, a.data(), a.size())) + "\n";
        hang_off();
        r += observed(t, &p.globals);
        end_thread(t);
        fclose(f);
        return r;
    };
    std::vector<std::string> names = names_of(p.text());
    Ahead ahead = known_ahead(p.text());
    const std::string uses = pick(2, "used") ? ahead.uses : "";
    const std::string obs1 = p.fns[p.observers[1]]->name;
    std::string want = isolated([&]() {
        Tiny_State* s = Tiny_CreateStateWithContext(hs0->ctx());
        bind_all(s);
        ahead.bind(s);
        must_compile(s, "main.tiny", p.text() + uses);
        std::string r = run(s, ht0, Tiny_GetFunctionIndex(s, obs1.c_str()));
        return r + describe_state(s, names, false);
    }, true);
    if (bad(want)) { trace("undisturbed: %.600s", want.c_str() + 1); discard("the undisturbed run fails"); }
    Tiny_State* s = Tiny_CreateStateWithContext(hs1->ctx());
    bind_all(s);
    g_macro.clear();
    g_macro_failing = true;
    bind_macro(s);
    ahead.bind(s);
    size_t u = 0;
    int part = 0, noise = 0, nlate = 0;
    std::vector<std::string> late;
    std::map<std::string, std::pair<int, int>> known;  // earlier lookups
    auto look = [&]() {
        for (auto& k : known) {
            int g = Tiny_GetGlobalIndex(s, k.first.c_str()), f = Tiny_GetFunctionIndex(s, k.first.c_str());
            if (g != k.second.first || f != k.second.second) violate("parts:lookup-changed", fmt("%s was global %d function %d and is now global %d function %d", k.first.c_str(), k.second.first, k.second.second, g, f));
        }
        for (auto& n : names) {
            int g = Tiny_GetGlobalIndex(s, n.c_str()), f = Tiny_GetFunctionIndex(s, n.c_str());
            if (g >= 0 || f >= 0) known[n] = {g, f};
        }
    };
    auto comp = [&](const std::string& t) {
        Tiny_CompileResult c = compile(s, fmt("part%d.tiny", part++).c_str(), t);
        if (c.type != TINY_COMPILE_SUCCESS) violate("parts:rejected", fmt("part %d is rejected: %s\n--- part ---\n", part - 1, c.error.msg) + t.substr(0, 3000));
    };
    int single = pick(3, "size of parts");
    bool heavy = chance(15, "large additions");
    while (u < nu) {
        int between = pick(12, "between");
        switch (between) {
            case 1: look(); count("schedule.lookups between compiles"); break;
            case 2: {
                if (nlate >= 6) break;
                int k = nlate++;
                Tiny_BindFunction(s, fmt("late%d(int): int", k).c_str(), LATE[k]);
                Tiny_BindConstInt(s, fmt("LATE%d", k).c_str(), 7000 + k);
                comp(fmt("zzl%d := late%d(LATE%d)\n", k, k, k));
                late.push_back(fmt("late%d %d", k, 7000 + k));
                count("schedule.bindings between compiles");
                break;
            }
            case 3: comp(fmt("zzs%d := \"noise literal %d\"\nfunc zzf%d(a: int): int { b := a + %d\n return b }\nzzv%d := zzf%d(%d)\n", noise, noise, noise, noise, noise, noise, noise)); ++noise; break;
            case 4: comp(fmt("struct ZZ%d { v: int s: str }\nuse array(\"ZZ%d\") as zzarr%d\nzza%d := zzarr%d(new ZZ%d{%d, \"q\"})\nzzarr%d_push(zza%d, new ZZ%d{1, \"noise literal\"})\n", noise, noise, noise, noise, noise, noise, noise, noise, noise, noise)); ++noise; break;
            case 5: comp(fmt("func zzd%d(a: int, b: int): int { return a - b }\nuse delegate(\"zzd%d\") as zzdg%d\nzze%d := zzdg%d()\n", noise, noise, noise, noise, noise)); ++noise; break;
            case 6: comp(fmt("struct ZJ%d { v: int s: str }\nuse json(\"ZJ%d\")\nzzj%d := ZJ%d_to_json(new ZJ%d{3, \"x\"})\n", noise, noise, noise, noise, noise)); ++noise; break;
            case 7: comp(pick(2, "empty") ? "" : "// nothing\n\n"); break;
            case 10: {   // sources compiled by a macro of the host, some of them in vain
                std::vector<MacroSource> m;
                int n = 1 + pick(3, "sources of the macro");
                for (int i = 0; i < n; ++i) {
                    int id = noise * 10 + i;
                    if (pick(3, "fails") == 2) m.push_back({late_error(pick(2, "what") ? macro_source(id, true) : p.text()), 1});
                    else m.push_back({macro_source(id, true), 0});
                    if (!g_macro.empty() && pick(4, "nested deeper") == 3) m.push_back({"// nothing", 0});
                }
                g_macro.push_back(m);
                int k = g_macro.size() - 1;
                std::string own = macro_source(noise * 10 + 7, true);
                comp(pick(2, "first") ? use_macro(k) + own : own + use_macro(k));
                ++noise;
                count("schedule.macros compiling sources");
                break;
            }
            case 8: {
                if (!heavy) break;
                static const char* kinds[] = {"zzS%d_%d := \"distinct %d\"\n", "func zzF%d_%d(): int { return %d }\n", "zzG%d_%d := %d\n", "zzC%d_%d :: %d\n", "struct ZT%d_%d { f%d: int }\n", "zzH%d_%d :: 'c' zzI%d: float = 1.5\n"};
                int kd = pick(6, "kind"), n = 100 + pick(200, "how many");
                std::string t;
                if (kd == 5) {   // code beyond 64 K
                    n = 500 << pick(5, "how long");
                    t = fmt("func zzB%d(): int {\n  x := 0\n  while x < 3 {\n    if x == 5 { break }\n", noise);
                    for (int i = 0; i < n; ++i) t += i % 50 == 49 ? "\n    x += 0" : " x += 0";
                    t += fmt("\n    x += 1\n  }\n  return x\n}\nzzBv%d := zzB%d()\n", noise, noise);
                    ++noise;
                    heavy = false;
                    comp(t);
                    count("probe.long code");
                    break;
                }
                for (int i = 0; i < n; ++i) t += fmt(kinds[kd], noise, i, i + noise * 1000);
                ++noise;
                heavy = kd != 0;
                comp(t);
                count("probe.large additions");
                break;
            }
            case 11: comp(macro_source(noise++ * 10 + 8, true)); break;
            case 9: {  // a thread of what is compiled so far
                if (!part) break;
                ThreadHost* t = new_thread(s, ht1, seed);
                Tiny_StartThread(t->th);
                hang_limit(run_budget(p) * 4 + 20000000, "run");
                g_late.clear();
                std::string sink;
                { Stdout so(sim_outstream(&sink)); run_to_end(t, 1 + pick(3000, "cycles")); }
                hang_off();
                end_thread(t);
                count("schedule.thread between compiles");
                break;
            }
            default: break;
        }
        size_t k = single == 0 ? 1 : single == 1 ? 1 + pick(std::min<size_t>(nu - u, 6), "units") : 1 + pick(nu - u, "units");
        std::string t;
        for (size_t i = 0; i < k; ++i) t += p.units[u++].text;
        if (u == nu) t += uses;
        trace("part %d: %zu units", part, k);
        comp(t);
        if (pick(4, "look") == 3) look();
    }
    look();
    sig(part * 100 + noise);
    count("schedule.parts", part);
    g_late.clear();
    std::string got = run(s, ht1, known.count(obs1) ? known[obs1].second : Tiny_GetFunctionIndex(s, obs1.c_str()));
    if (g_late != late) violate("parts:late-bindings", diff_traces(late, g_late));
    look();
    got += describe_state(s, names, false);
    if (got != want) violate("parts:differs", fmt("%d parts\n", part) + obs_diff(want, got));
    Tiny_DeleteState(s);
}
