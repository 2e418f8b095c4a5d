#include "simfs.h"
#include "world.h"
#include <math.h>
#include <alloca.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

bool val_eq(const Val& a, const Val& b) {
    if (a.t != b.t) return false;
    switch (a.t) {
        case V_NULL: return true;
        case V_BOOL: case V_INT: case V_I64: return a.i == b.i;
        case V_FLT: return a.f == b.f;
        case V_STR: return a.s == b.s;
        case V_OBJ: return a.o == b.o;
    }
    return false;
}
static std::string showf(double d) { if (d != d) return "nan"; return fmt("%.17g", d); }
static std::string shows(const char* p, size_t n) {
    std::string o = "\"";
    for (size_t i = 0; i < n; ++i) { unsigned char c = p[i]; if (c < 32 || c > 126 || c == '"') o += fmt("\\x%02x", c); else o += (char)c; }
    return o + "\"";
}
std::string show(const Val& v, int depth) {
    switch (v.t) {
        case V_NULL: return "null";
        case V_BOOL: return v.i ? "true" : "false";
        case V_INT: return fmt("%lld", (long long)v.i);
        case V_FLT: return showf(v.f);
        case V_STR: return shows(v.s.data(), v.s.size());
        case V_I64: return fmt("i64:%lld", (long long)v.i);
        case V_OBJ: break;
    }
    MObj* o = v.o;
    if (o->k == MObj::BOX) return fmt("box%lld", (long long)o->n);
    if (o->k == MObj::DICT) return fmt("dict#%zu", o->d.size());
    std::string s = o->k == MObj::ARR ? "[" : "{";
    if (depth <= 0) return s + fmt("..%zu", o->f.size());
    for (auto& x : o->f) s += show(x, depth - 1) + ",";
    return s + (o->k == MObj::ARR ? "]" : "}");
}
static void bad_box(const char* what) { violate("gc:dead-native-used", std::string("a finalized native reached the host: ") + what); }
std::string showv(const Tiny_Value& v, int depth) {
    switch (v.type) {
        case TINY_VAL_NULL: return "null";
        case TINY_VAL_BOOL: return v.boolean ? "true" : "false";
        case TINY_VAL_INT: return fmt("%lld", (long long)v.i);
        case TINY_VAL_FLOAT: return showf(v.f);
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return shows(Tiny_ToString(v), Tiny_StringLen(v)) + (Tiny_ToString(v)[Tiny_StringLen(v)] ? "!unterminated" : "");
        case TINY_VAL_LIGHT_NATIVE: return fmt("i64:%lld", (long long)(intptr_t)v.addr);
        case TINY_VAL_STRUCT: {
            if (depth <= 0) return fmt("{..%d", v.obj->ostruct.n);
            std::string s = "{";
            for (int i = 0; i < v.obj->ostruct.n; ++i) s += showv(Tiny_GetField(v, i), depth - 1) + ",";
            return s + "}";
        }
        case TINY_VAL_NATIVE: {
            const Tiny_NativeProp* p = Tiny_GetProp(v);
            if (p == &BoxProp) { Box* b = (Box*)Tiny_ToAddr(v); if (b->magic != 0xB0B0B0B0B0ull) bad_box("show"); return fmt("box%lld", (long long)b->n); }
            if (is_dict_prop(p)) return fmt("dict#%d", ((Dict*)Tiny_ToAddr(v))->filledCount);
            if (is_array_prop(p)) {
                Array* a = (Array*)Tiny_ToAddr(v);
                if (depth <= 0) return fmt("[..%d", ArrayLen(a));
                std::string s = "[";
                for (int i = 0; i < ArrayLen(a); ++i) s += showv(*ArrayGet(a, i), depth - 1) + ",";
                return s + "]";
            }
            return "native?";
        }
    }
    return fmt("badtype%d", v.type);
}
std::string joined(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "\n"; return s; }
std::string diff_traces(const std::vector<std::string>& w, const std::vector<std::string>& g) {
    size_t i = 0;
    while (i < w.size() && i < g.size() && w[i] == g[i]) ++i;
    return fmt("event %zu of %zu: expected %s, got %s", i, w.size(), i < w.size() ? w[i].c_str() : "(end)", i < g.size() ? g[i].c_str() : "(end)");
}
void expect_trace(const char* cls, const std::vector<std::string>& want, const std::vector<std::string>& got, const std::string& where) {
    if (want != got) violate(cls, where + ": " + diff_traces(want, got));
}

// ---- host functions -------------------------------------------------------------------------
static ThreadHost* H(Tiny_StateThread* t) { return (ThreadHost*)t->userdata; }
static std::map<void*, ThreadHost*> g_byheap;
static void enter(ThreadHost* h, const char* n) { ++h->depth; if (h->hook && h->depth < 4) { h->hook(*h, n); } --h->depth; }
#define FF(name) static Tiny_Value name(Tiny_StateThread* thread, const Tiny_Value* args, int count)
FF(HEmit) { ThreadHost* h = H(thread); h->ev(showv(args[0])); enter(h, "emit"); return Tiny_Null; }
FF(HTick) {
    ThreadHost* h = H(thread);
    int id = (int)Tiny_ToInt(args[0]);
    h->stmts.push_back(id);
    h->lastTickFc = thread->fc;
    h->lastTickTrue = args[1].type == TINY_VAL_BOOL && args[1].boolean;
    if (h->ontick) h->ontick(*h, id);
    Tiny_Value r = args[1];
    return r;
}
FF(HIn) { ThreadHost* h = H(thread); int v = h->in.below(100); enter(h, "in"); return Tiny_NewInt(v); }
FF(HCap) {
    ThreadHost* h = H(thread);
    size_t n = Tiny_StringLen(args[0]);
    const char* s = Tiny_ToString(args[0]);
    if (n > 24) n = 24;
    enter(h, "cap");
    if (n % 3 == 1) {
        char* b = (char*)Tiny_AllocUsingContext(thread->ctx, nullptr, n + 1);
        memcpy(b, s, n);
        b[n] = 0;
        return n % 2 && !memchr(b, 0, n) ? Tiny_NewStringNullTerminated(thread, b) : Tiny_NewString(thread, b, n);
    }
    if (n % 3 == 2 && !memchr(s, 0, n)) {
        char b[25];
        memcpy(b, s, n);
        b[n] = 0;
        return Tiny_NewStringCopyNullTerminated(thread, b);
    }
    return Tiny_NewStringCopy(thread, s, n);
}
static void BoxMark(void* p) { Box* b = (Box*)p; if (b->magic != 0xB0B0B0B0B0ull) bad_box("mark"); Tiny_ProtectFromGC(b->v); }
static void BoxFin(Tiny_Context* c, void* p) {
    Box* b = (Box*)p;
    SimHeap* hp = heap_of(p);
    if (b->magic != 0xB0B0B0B0B0ull) violate("gc:finalized-twice", "finalizer called again for the same native");
    if ((c->userdata ? c->userdata : g_libc_heap) != hp) violate("gc:finalizer-context", "finalizer called with a context that is not the owning thread's");
    b->magic = 0xDEAD;
    auto it = g_byheap.find(hp);
    if (it != g_byheap.end()) { it->second->finalized++; it->second->liveBoxes.erase(b->id); }
    Tiny_AllocUsingContext(*c, p, 0);
}
const Tiny_NativeProp BoxProp = {"box", BoxMark, BoxFin};
FF(HBox) {
    ThreadHost* h = H(thread);
    Box* b = (Box*)Tiny_AllocUsingContext(thread->ctx, nullptr, sizeof(Box));
    b->magic = 0xB0B0B0B0B0ull; b->n = Tiny_ToInt(args[0]); b->v = Tiny_Null; b->id = ++h->boxes; b->fin = 0;
    h->liveBoxes.insert(b->id);
    return Tiny_NewNative(thread, b, &BoxProp);
}
// natives which are nothing but an address of the host's: its own, none at all, shared by several of them
static void ThingFin(Tiny_Context* c, void*) {
    auto it = g_byheap.find(c->userdata ? c->userdata : (void*)g_libc_heap);
    if (it != g_byheap.end()) it->second->finalized++;
}
static const Tiny_NativeProp ThingProp = {"thing", nullptr, ThingFin}, PlainProp = {"plain", nullptr, nullptr}, Unnamed = {nullptr, nullptr, ThingFin};
FF(HThing) {
    static int cell;
    ThreadHost* h = H(thread);
    switch (Tiny_ToInt(args[0])) {
        case 0: h->boxes++; return Tiny_NewNative(thread, nullptr, &ThingProp);
        case 1: h->boxes++; return Tiny_NewNative(thread, &cell, &ThingProp);
        case 2: return Tiny_NewNative(thread, &cell, &PlainProp);
        case 3: h->boxes++; return Tiny_NewNative(thread, h, &Unnamed);
        default: return Tiny_NewNative(thread, nullptr, nullptr);
    }
}
static Box* B(const Tiny_Value& v) { Box* b = (Box*)Tiny_ToAddr(v); if (!b || b->magic != 0xB0B0B0B0B0ull) bad_box("argument"); return b; }
FF(HBoxN) { return Tiny_NewInt((int)B(args[0])->n); }
FF(HBoxPut) { B(args[0])->v = args[1]; return Tiny_Null; }
FF(HBoxGet) { enter(H(thread), "box_get"); return B(args[0])->v; }
FF(HSum) { int s = 0; for (int i = 0; i < count; ++i) s += (int)Tiny_ToInt(args[i]); enter(H(thread), "hsum"); return Tiny_NewInt(s % 9973); }
FF(HCall) {  // hcall("f", a, b): any
    ThreadHost* h = H(thread);
    int fi = Tiny_GetFunctionIndex(thread->state, Tiny_ToString(args[0]));
    if (fi < 0) violate("lookup:function", std::string("function not found: ") + Tiny_ToString(args[0]));
    enter(h, "hcall");
    Tiny_Value r = Tiny_CallFunction(thread, fi, args + 1, count - 1);
    if (h->aftercall) h->aftercall(*h);
    return r;
}
FF(HNest) {   // hnest(): calls nest_, which calls this again
    ThreadHost* h = H(thread);
    if (h->nest <= 0) return Tiny_NewInt(0);
    --h->nest;
    if (h->nest == 0 && h->hook && h->nesthook) h->nesthook(*h);
    return Tiny_CallFunction(thread, Tiny_GetFunctionIndex(thread->state, "nest_"), nullptr, 0);
}
FF(HGc) { thread->maxNumObjects = 0; return Tiny_Null; }
FF(HSetOf) {  // order-insensitive view of an array
    Array* a = (Array*)Tiny_ToAddr(args[0]);
    std::vector<std::string> v;
    for (int i = 0; i < ArrayLen(a); ++i) v.push_back(showv(*ArrayGet(a, i)));
    std::sort(v.begin(), v.end());
    std::string s = "set";
    for (auto& x : v) s += " " + x;
    H(thread)->ev(s);
    return Tiny_Null;
}
void bind_host(Tiny_State* s) {
    Tiny_RegisterType(s, "box");
    Tiny_BindFunction(s, "emit_i(int): void", HEmit);
    Tiny_BindFunction(s, "emit_f(float): void", HEmit);
    Tiny_BindFunction(s, "emit_b(bool): void", HEmit);
    Tiny_BindFunction(s, "emit_s(str): void", HEmit);
    Tiny_BindFunction(s, "emit(any): void", HEmit);
    Tiny_BindFunction(s, "emit_set(any): void", HSetOf);
    Tiny_BindFunction(s, "tick(int, int): int", HTick);
    Tiny_BindFunction(s, "tickb(int, bool): bool", HTick);
    Tiny_BindFunction(s, "ticks(int, str): str", HTick);
    Tiny_BindFunction(s, "host_in(): int", HIn);
    Tiny_BindFunction(s, "cap(str): str", HCap);
    Tiny_BindFunction(s, "box(int): box", HBox);
    Tiny_BindFunction(s, "thing(int): any", HThing);
    Tiny_BindFunction(s, "box_n(box): int", HBoxN);
    Tiny_BindFunction(s, "box_put(box, any): void", HBoxPut);
    Tiny_BindFunction(s, "box_get(box): any", HBoxGet);
    Tiny_BindFunction(s, "hsum(int, ...): int", HSum);
    Tiny_BindFunction(s, "hcall(str, ...): any", HCall);
    Tiny_BindFunction(s, "hnest(): int", HNest);
    Tiny_BindFunction(s, "gc_now", HGc);
    Tiny_BindConstInt(s, "HOST_K", 41);
    Tiny_BindConstString(s, "HOST_S", "host string");
    Tiny_BindConstBool(s, "HOST_B", true);
    Tiny_BindConstFloat(s, "HOST_F", 2.5);
}
void bind_all(Tiny_State* s) {
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindStandardIO(s);
    Tiny_BindStandardLib(s);
    Tiny_BindI64(s);
    bind_host(s);
}
ThreadHost* new_thread(const Tiny_State* s, SimHeap* h, u64 inseed) {
    auto* t = new ThreadHost();
    t->heap = h;
    t->in = Rng(inseed);
    t->th = (Tiny_StateThread*)h->alloc(nullptr, sizeof(Tiny_StateThread));  // poisoned around, dirty inside
    if (h == g_libc_heap) Tiny_InitThread(t->th, s);
    else Tiny_InitThreadWithContext(t->th, s, h->ctx());
    t->th->userdata = t;
    g_byheap[h] = t;
    return t;
}
void end_thread(ThreadHost* t) {
    Tiny_DestroyThread(t->th);
    t->heap->alloc(t->th, 0);
    t->th = nullptr;
}
Tiny_CompileResult compile(Tiny_State* s, const char* name, const std::string& text) {
    SimHeap* h = s->ctx.userdata ? (SimHeap*)s->ctx.userdata : g_libc_heap;
    char* src = (char*)h->alloc(nullptr, text.size() + 1);  // exact size: reading past it is detected
    memcpy(src, text.c_str(), text.size() + 1);
    hang_limit(3000000 + text.size() * 30000, "compile");
    Tiny_CompileResult r = Tiny_CompileString(s, name, src);
    hang_off();
    if (!h->ro) h->alloc(src, 0);
    return r;
}
void must_compile(Tiny_State* s, const char* name, const std::string& text) {
    Tiny_CompileResult r = compile(s, name, text);
    if (r.type != TINY_COMPILE_SUCCESS) trace("rejected: %.300s", r.error.msg);
    if (r.type != TINY_COMPILE_SUCCESS) violate("compile:valid-program-rejected", std::string(r.error.msg).substr(0, 800));
}
RefRun reference(const Program& p, u64 inseed) {
    RefRun r;
    p.prepare(r.in, inseed);
    p.run(r.in);
    r.tr = r.in.tr;
    r.stmts = r.in.stmts;
    return r;
}
u64 run_budget(const Program& p) { return 4000000 + (u64)p.cost * 20000; }
std::string normalize_error(const char* m) { return m; }
std::string describe_state(Tiny_State* s, const std::vector<std::string>& names, bool disasm) {
    std::string o;
    for (auto& n : names) {
        const Tiny_Symbol* t = Tiny_FindTypeSymbol(s, n.c_str());
        const Tiny_Symbol* f = Tiny_FindFuncSymbol(s, n.c_str());
        const Tiny_Symbol* c = Tiny_FindConstSymbol(s, n.c_str());
        o += n + ":";
        o += Tiny_GetGlobalIndex(s, n.c_str()) >= 0 ? "g" : "-";
        o += Tiny_GetFunctionIndex(s, n.c_str()) >= 0 ? "f" : "-";
        o += t ? fmt("t%d", t->type) : "-";
        if (t && t->type == TINY_SYM_TAG_STRUCT) for (size_t i = 0; i < Tiny_SymbolArrayCount(t->sstruct.fields); ++i) o += fmt(" %s:%s", t->sstruct.fields[i]->name, t->sstruct.fields[i]->fieldTag->name);
        if (f) {
            o += fmt("F%d", f->type);
            bool fr = f->type == TINY_SYM_FOREIGN_FUNCTION;
            size_t k = Tiny_SymbolArrayCount(fr ? f->foreignFunc.argTags : f->func.args);
            for (size_t i = 0; i < k; ++i) o += fmt(" %s", fr ? f->foreignFunc.argTags[i]->name : f->func.args[i]->var.tag->name);
            o += fmt("->%s", fr ? f->foreignFunc.returnTag->name : f->func.returnTag->name);
        }
        if (c) {
            const char* tn = c->constant.tag->name;
            o += fmt("c(%s)", tn);
            if (!strcmp(tn, "int")) o += fmt("%lld", (long long)c->constant.iValue);
            if (!strcmp(tn, "str")) o += Tiny_GetStringFromConstIndex(s, c->constant.sIndex);
        }
        o += "\n";
    }
    if (disasm) {
        int pc = 0;
        char b[1024];
        for (int k = 0; k < 100000 && pc >= 0; ++k) {
            int old = pc;
            bool ok = Tiny_DisasmOne(s, &pc, b, sizeof b);
            o += b;
            o += "\n";
            if (!ok) break;
            if (pc == old) break;
        }
    }
    return o;
}

void split_out(const std::vector<std::string>& in, std::vector<std::string>& tr, std::string& out) {
    for (auto& e : in) if (!e.compare(0, 4, "out ")) out += e.substr(4); else tr.push_back(e);
}
std::string show_program(const Program& p) { return "--- program ---\n" + p.text() + "---------------"; }
static u64 g_budget = 0;
bool step(ThreadHost* t) {
    ++t->cycles;
    steps(1);
    return Tiny_ExecuteCycle(t->th);
}
u64 run_to_end(ThreadHost* t, u64 maxc) {
    u64 n = 0;
    while (n < maxc && step(t)) ++n;
    return n;
}
std::string observed(ThreadHost* t, const std::vector<std::string>* names) {
    std::string s = joined(t->tr) + "\x1e" + t->out + "\x1e";
    if (names) for (auto& n : *names) s += n + "=" + showv(Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(t->th->state, n.c_str()))) + "\n";
    return s;
}
std::string alone(const Tiny_State* s, SimHeap* h, u64 inseed, int gcmax, const Program& p) {
    return isolated([&]() {
        ThreadHost* t = new_thread(s, h, inseed);
        t->th->maxNumObjects = gcmax;
        FILE* so = stdout;
        stdout = sim_outstream(&t->out);
        Tiny_StartThread(t->th);
        hang_limit(run_budget(p), "run");
        Tiny_Run(t->th);
        hang_off();
        fclose(stdout);
        stdout = so;
        return observed(t);
    }, true);
}
__attribute__((noinline)) void dirty_stack(int byte) {
    volatile char* p = (volatile char*)alloca(96 * 1024);
    for (int i = 0; i < 96 * 1024; ++i) p[i] = (char)byte;
}
namespace {
struct Walk {
    ThreadHost* t;
    const char* when;
    std::set<uintptr_t> blocks;
    std::set<Tiny_Object*> seen;
    std::vector<std::pair<Tiny_Value, std::string>> todo;
    SimHeap::Block* need(void* p, const std::string& path, const char* what, bool within = false) {
        SimHeap::Block* b = within ? t->heap->around(p) : t->heap->find(p);
        if (!b) violate("gc:reachable-not-owned", fmt("%s: %s of %s is not a block of the thread's allocator", when, what, path.c_str()));
        if (!b->live) violate("gc:reachable-released", fmt("%s: %s of %s was released while still reachable", when, what, path.c_str()));
        blocks.insert(b->p);
        return b;
    }
    void arr(Array* a, const std::string& path) {
        if (!a->data) return;
        if (!ArrayLen(a)) {   // it may begin behind all there is
            int n = 0;
            for (char* q : {(char*)a->data, (char*)a->data - 1}) if (auto* b = t->heap->around(q)) if (b->live) blocks.insert(b->p), ++n;
            if (!n) violate("gc:reachable-released", fmt("%s: the element storage of %s was released while still reachable", when, path.c_str()));
            return;
        }
        need(a->data, path, "element storage", true);
        for (int i = 0; i < ArrayLen(a); ++i) add(a->data[i], path.size() < 60 ? path + fmt("[%d]", i) : path);
    }
    void add(const Tiny_Value& v, const std::string& path) { if (v.type == TINY_VAL_STRING || v.type == TINY_VAL_STRUCT || v.type == TINY_VAL_NATIVE) todo.push_back({v, path}); }
    void run() {
        while (!todo.empty()) {
            auto [v, path] = todo.back();
            todo.pop_back();
            if (!seen.insert(v.obj).second) continue;
            SimHeap::Block* b = need(v.obj, path, "object");
            if (v.type == TINY_VAL_STRING) {
                if (b->size <= sizeof(Tiny_Object)) need(v.obj->string.ptr, path, "text");
            } else if (v.type == TINY_VAL_STRUCT) {
                for (int i = 0; i < v.obj->ostruct.n; ++i) add(v.obj->ostruct.fields[i], path.size() < 60 ? path + fmt(".%d", i) : path);
            } else {
                const Tiny_NativeProp* p = v.obj->nat.prop;
                if (p == &BoxProp) { need(v.obj->nat.addr, path, "native"); add(((Box*)v.obj->nat.addr)->v, path + ".box"); }
                else if (is_array_prop(p)) { need(v.obj->nat.addr, path, "array"); arr((Array*)v.obj->nat.addr, path); }
                else if (is_dict_prop(p)) { Dict* d = (Dict*)v.obj->nat.addr; need(d, path, "dictionary"); arr(&d->keys, path + ".keys"); if (d->values.data) need(d->values.data, path, "values", true); for (int i = 0; i < ArrayLen(&d->keys); ++i) if (d->keys.data[i].type != TINY_VAL_NULL) add(d->values.data[i], path.size() < 60 ? path + fmt(".value%d", i) : path); }
            }
        }
    }
};
}  // namespace
std::set<uintptr_t> reachable(ThreadHost* t, const char* when) {
    Walk w{t, when};
    w.need(t->th, "thread", "memory");
    w.add(t->th->retVal, "return value");
    for (int i = 0; i < t->th->sp; ++i) w.add(t->th->stack[i], fmt("stack %d", i));
    if (t->th->globalVars) {
        w.need(t->th->globalVars, "globals", "memory");
        for (int i = 0; i < t->th->state->numGlobalVars; ++i) w.add(t->th->globalVars[i], fmt("global %d", i));
    }
    w.run();
    return w.blocks;
}
std::vector<SimHeap::Block> garbage(ThreadHost* t, const char* when) {
    auto r = reachable(t, when);
    std::vector<SimHeap::Block> g;
    for (auto& b : t->heap->live_blocks()) if (!r.count(b.p)) g.push_back(b);
    return g;
}
