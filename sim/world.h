// The simulated embedding host: foreign functions, threads, and the program generator with its
// reference interpreter.
#pragma once
#include <map>
#include <memory>
#include <set>
#include "core.h"
extern "C" {
#include "array.h"
#include "detail.h"
#include "dict.h"
#include <string.h>
// the library's own natives, told by their names: what its tables are called is its own affair
inline bool is_array_prop(const Tiny_NativeProp* p) { return p && p->name && !strcmp(p->name, "array"); }
inline bool is_dict_prop(const Tiny_NativeProp* p) { return p && p->name && !strcmp(p->name, "dict"); }
}

// ---- reference values ----------------------------------------------------------------------
enum VT { V_NULL, V_BOOL, V_INT, V_FLT, V_STR, V_I64, V_OBJ };
struct MObj;
struct Val {
    VT t = V_NULL;
    int64_t i = 0;
    double f = 0;
    std::string s;
    MObj* o = nullptr;
    static Val I(int64_t x) { Val v; v.t = V_INT; v.i = x; return v; }
    static Val B(bool x) { Val v; v.t = V_BOOL; v.i = x; return v; }
    static Val F(double x) { Val v; v.t = V_FLT; v.f = x; return v; }
    static Val S(std::string x) { Val v; v.t = V_STR; v.s = std::move(x); return v; }
    static Val O(MObj* x) { Val v; v.t = V_OBJ; v.o = x; return v; }
    static Val L(int64_t x) { Val v; v.t = V_I64; v.i = x; return v; }
};
bool val_eq(const Val& a, const Val& b);
struct MObj {
    enum K { STRUCT, ARR, DICT, BOX } k;
    std::vector<Val> f;                       // fields / elements / box content
    std::vector<std::pair<Val, Val>> d;       // dict associations
    int64_t n = 0;
    int id = 0;
};
std::string show(const Val& v, int depth = 3);

// ---- reference interpreter -------------------------------------------------------------------
struct Interp {
    std::vector<Val> g, *l = nullptr;
    std::vector<std::string> tr;              // host-visible events
    std::vector<int> stmts;                   // executed statement ids (tick order)
    Rng in{0};
    u64 fuel = 0;
    std::vector<std::unique_ptr<MObj>> heap;
    Val ret;
    MObj* mk(MObj::K k) { heap.emplace_back(new MObj()); heap.back()->k = k; heap.back()->id = heap.size(); return heap.back().get(); }
    int unit = 0;                             // being executed
    std::function<void(Interp&)> onev;        // after every event
    void ev(std::string s) { tr.push_back(std::move(s)); if (onev) { Val r = ret; onev(*this); ret = r; } }
};
enum Flow { F_NEXT, F_BREAK, F_CONT, F_RET };
typedef std::function<Val(Interp&)> EvE;
typedef std::function<Flow(Interp&)> EvS;

enum TK { T_INT, T_FLT, T_BOOL, T_STR, T_STRUCT, T_ARR, T_DICT, T_DSI, T_I64, T_BOX, T_VOID, T_ANY };
struct Ty { TK k; int x; bool operator==(const Ty& o) const { return k == o.k && x == o.x; } };

struct Fn {
    std::string name;
    std::vector<Ty> args;
    Ty ret;
    int nlocals = 0;
    double cost = 1;
    int stack = 0, frames = 1;
    bool recursive = false, observer = false;
    std::function<Val(Interp&, std::vector<Val>)> call;
};
struct Unit { std::string text; EvS run; std::map<int, int> idline; int firstid = 0; bool isdef = false; };
struct StmtPos { int unit, line; };
struct GenOpt {
    int size = 12;            // statements at top level
    bool objects = true, arrays = true, dicts = true, strings = true, floats = true, boxes = true;
    std::string prefix;       // common beginning of the names of variables and functions
    bool long_names = false;  // names longer than a page of the parser's memory
    bool hostcalls = true;    // nested calls made by foreign functions
    bool observers = false;   // functions for the host to call at any point
    bool ticks = false;       // every statement announces itself
    bool delegates = true, json = false;
    bool big_strings = false; // many distinct literals
    bool printing = false;    // printf to stdout
    double maxcost = 4000;
};
struct Program {
    std::vector<Unit> units;
    std::vector<std::shared_ptr<Fn>> fns;
    std::vector<int> observers;       // indexes into fns
    std::vector<std::string> globals; // names, by interpreter index
    std::vector<Ty> globalTy;
    std::vector<std::string> tynames; // struct names
    int nglobals = 0;
    double cost = 0;
    std::map<int, StmtPos> pos;       // statement id -> where
    std::map<int, std::vector<int>> enclosing;
    std::set<int> solo;               // ticks that are whole statements
    std::map<int, int> leaves;        // condition id -> line of the break or continue it guards
    std::string text() const { std::string s; for (auto& u : units) s += u.text; return s; }
    void run(Interp& in) const { in.unit = 0; for (auto& u : units) { if (u.run) u.run(in); ++in.unit; } }
    void prepare(Interp& in, u64 inseed) const { in.g.assign(nglobals, Val()); in.in = Rng(inseed); }
};
Program generate(const GenOpt& o);
GenOpt swarm();              // random feature subset

// ---- the host --------------------------------------------------------------------------------
struct Box { u64 magic; int64_t n; Tiny_Value v; int id; int fin; };
struct ThreadHost {
    Tiny_StateThread* th = nullptr;
    SimHeap* heap = nullptr;
    std::vector<std::string> tr;
    std::vector<int> stmts;
    Rng in{0};
    int boxes = 0, finalized = 0;
    std::function<void(ThreadHost&, const char*)> hook;  // runs inside every foreign function
    std::function<void(ThreadHost&, int)> ontick;
    std::function<void(ThreadHost&)> aftercall;          // when a call a foreign function made has returned to it
    std::string out;       // captured stdout
    int depth = 0, nest = 0;
    std::function<void(ThreadHost&)> nesthook;           // within the innermost of nested calls
    bool lastTickTrue = false;
    int lastTickFc = 0;
    u64 cycles = 0;
    std::set<int> liveBoxes;
    void ev(std::string s) { tr.push_back(std::move(s)); }
};
extern const Tiny_NativeProp BoxProp;
void bind_host(Tiny_State* s);            // emit_*, tick, host_in, box, hcall ...
void bind_all(Tiny_State* s);             // standard library + host
ThreadHost* new_thread(const Tiny_State* s, SimHeap* h, u64 inseed);
void end_thread(ThreadHost* t);
std::string showv(const Tiny_Value& v, int depth = 3);
std::string joined(const std::vector<std::string>& v);
std::string diff_traces(const std::vector<std::string>& want, const std::vector<std::string>& got);
Tiny_CompileResult compile(Tiny_State* s, const char* name, const std::string& text);
void must_compile(Tiny_State* s, const char* name, const std::string& text);
void expect_trace(const char* cls, const std::vector<std::string>& want, const std::vector<std::string>& got, const std::string& where);
struct RefRun { std::vector<std::string> tr; std::vector<int> stmts; Interp in; };
RefRun reference(const Program& p, u64 inseed);
std::string normalize_error(const char* msg);
std::string describe_state(Tiny_State* s, const std::vector<std::string>& names, bool disasm);
u64 run_budget(const Program& p);

// ---- observers and schedules used by several checks ------------------------------------------
std::string alone(const Tiny_State* s, SimHeap* h, u64 inseed, int gcmax, const Program& p);  // isolated, undisturbed run
std::string observed(ThreadHost* t, const std::vector<std::string>* names = nullptr);
bool step(ThreadHost* t);                    // one cycle
u64 run_to_end(ThreadHost* t, u64 maxCycles = ~0ull);
void dirty_stack(int byte);                  // leaves bytes on the C stack below the caller
// Everything reachable from the thread, by an independent walk. Violates if a reachable block was released.
std::set<uintptr_t> reachable(ThreadHost* t, const char* when);
std::vector<SimHeap::Block> garbage(ThreadHost* t, const char* when);  // live blocks that are not reachable
void split_out(const std::vector<std::string>& in, std::vector<std::string>& tr, std::string& out);
std::string show_program(const Program& p);
// ---- damaged sources ----------------------------------------------------------------------------
struct Damage { bool repeat = false; int max = 3; };
std::string damage(const std::string& text, const Damage& d = Damage());   // loses, duplicates, reorders, corrupts parts
std::string late_error(const std::string& text);  // text followed by something only found wrong late
std::string some_source(bool* generated = nullptr, Program* out = nullptr);
std::vector<std::string> names_of(const std::string& text);
// structs which functions of the host mention before a source defines them
struct Ahead { std::vector<std::string> types; std::string uses; void bind(Tiny_State* s, int id = 0) const; };
Ahead known_ahead(const std::string& text);
// a macro of the host, "use hm(\"k\")", which compiles the sources of g_macro[k] one after the other
struct MacroSource { std::string text; int kind; };   // 0: good; 1: must fail, which the macro ignores; 2: its failure is the macro's; 3: whatever it is
extern std::vector<std::vector<MacroSource>> g_macro;
extern bool g_macro_failing;       // whether sources which must fail are compiled at all
void bind_macro(Tiny_State* s);
std::string use_macro(int k);
std::string macro_source(int id, bool quiet = false);  // a source which compiles wherever it stands, using names of its own
std::string lookups(Tiny_State* s, const std::vector<std::string>& names);
std::string positions(const Tiny_StateThread* t);
std::string obs_diff(const std::string& want, const std::string& got);
inline bool bad(const std::string& s) { return !s.empty() && s[0] == '\x01'; }  // an isolated run that failed
struct Stdout {  // the thread's own stdout while it runs
    FILE* saved;
    Stdout(FILE* f) : saved(stdout) { stdout = f; }
    ~Stdout() { stdout = saved; }
};
