// Random programs together with a closure that computes what they must do (reference interpreter).
#include <math.h>
#include <string.h>
#include <algorithm>
#include "world.h"

#define LONGLIT "this literal is longer than one hundred and thirty characters, so whatever keeps only the first part of a text of this length would show it here: "
namespace {
struct E { std::string t; EvE ev; double cost = 1; int st = 1; bool simple = false; };
struct Var { std::string name; Ty ty; bool glob; int idx; bool ro; };
const Ty INT{T_INT, 0}, FLT{T_FLT, 0}, BOOL{T_BOOL, 0}, STR{T_STR, 0}, I64{T_I64, 0}, VOID{T_VOID, 0}, ANY{T_ANY, 0};

int64_t ixn(int64_t i, int64_t n) { return ((i % n) + n) % n; }
std::string flit(double d) { return fmt("%.4f", d); }
Val jsonStr(const Val& v) {
    switch (v.t) {
        case V_NULL: return Val::S("null");
        case V_BOOL: return Val::S(v.i ? "true" : "false");
        case V_INT: return Val::S(fmt("%g", (double)(float)v.i));
        case V_FLT: return Val::S(fmt("%g", (double)(float)v.f));
        case V_STR: return Val::S("\"" + v.s + "\"");
        default: return Val::S("null");
    }
}

struct G {
    Program& P;
    const GenOpt& o;
    struct SD { std::string name; std::vector<std::pair<std::string, Ty>> f; bool flat; };
    struct AD { std::string name; Ty elem; };
    struct DD { int key; Ty val; };
    std::vector<SD> structs;
    std::vector<AD> arrs;
    std::vector<DD> dicts;
    std::vector<Ty> boxes;
    std::vector<Var> vars;
    std::shared_ptr<Fn> fn;      // being defined
    int nloc = 0, maxStack = 0, maxFrames = 0, nloops = 0, names = 0, depth = 0;
    double mult = 1, fnCost = 0;
    bool inLoop = false, observer = false, noCalls = false, noTick = false;
    std::string buf;
    int line = 0, ntick = 1;
    Unit* unit = nullptr;
    int unitIdx = 0;
    std::vector<int> encl;
    int litno = 0;

    G(Program& p, const GenOpt& oo) : P(p), o(oo) {}

    // ---- text ---------------------------------------------------------------------------------
    int put(const std::string& s) { buf += std::string(depth * 2, ' ') + s + "\n"; return ++line; }
    void charge(double c) { if (fn) fnCost += c * mult; else P.cost += c * mult; }
    bool rich() const { return (fn ? fnCost : P.cost) < o.maxcost / (fn ? 12 : 1); }
    void need(int st, int fr = 0) { maxStack = std::max(maxStack, st); maxFrames = std::max(maxFrames, fr); }
    std::string tyname(Ty t) {
        switch (t.k) {
            case T_INT: return "int"; case T_FLT: return "float"; case T_BOOL: return "bool"; case T_STR: return "str";
            case T_STRUCT: return structs[t.x].name; case T_ARR: return arrs[t.x].name; case T_DICT: return "dict";
            case T_DSI: return "dict_str_int"; case T_I64: return "i64"; case T_BOX: return "box"; case T_VOID: return "void"; default: return "any";
        }
    }
    static EvE load(const Var& v) {
        int i = v.idx;
        if (v.glob) return [i](Interp& in) { return in.g[i]; };
        return [i](Interp& in) { return (*in.l)[i]; };
    }
    static std::function<void(Interp&, Val)> store(const Var& v) {
        int i = v.idx;
        if (v.glob) return [i](Interp& in, Val x) { in.g[i] = std::move(x); };
        return [i](Interp& in, Val x) { (*in.l)[i] = std::move(x); };
    }
    Var newVar(Ty t) {
        Var v;
        v.ty = t;
        v.ro = false;
        v.glob = !fn;
        if (fn) { v.name = "l" + o.prefix + fmt("%d", names++); v.idx = nloc++; }
        else { v.name = (observer ? "og" : "g") + o.prefix + fmt("%d", (int)P.globals.size()); v.idx = P.nglobals++; P.globals.push_back(v.name); P.globalTy.push_back(t); }
        return v;
    }
    std::vector<Var> match(Ty t, bool writable = false) {
        std::vector<Var> r;
        for (auto& v : vars) if (v.ty == t && !(writable && v.ro)) r.push_back(v);
        return r;
    }
    std::vector<Var> matchK(TK k) { std::vector<Var> r; for (auto& v : vars) if (v.ty.k == k) r.push_back(v); return r; }
    static E varE(const Var& v) { E e; e.t = v.name; e.ev = load(v); e.simple = true; return e; }

    // ---- expressions ---------------------------------------------------------------------------
    E lit(Ty t) {
        E e;
        e.simple = true;
        switch (t.k) {
            case T_INT: {
                int v = pick(4, "int lit") ? (int)pick(20, "small") : (int)pick(9000, "large");
                if (chance(15, "host const")) { e.t = "HOST_K"; v = 41; }
                else if (chance(10, "neg")) { e.t = fmt("(-%d)", v); v = -v; }
                else e.t = fmt("%d", v);
                e.ev = [v](Interp&) { return Val::I(v); };
                break;
            }
            case T_FLT: {
                double d = (double)pick(64, "flt lit") / 4;
                e.t = flit(d);
                e.ev = [d](Interp&) { return Val::F(d); };
                break;
            }
            case T_BOOL: { bool b = pick(2, "bool lit"); e.t = b ? "true" : "false"; e.ev = [b](Interp&) { return Val::B(b); }; break; }
            case T_STR: {
                static const char* words[] = {"", "a", "hello", "k1", "k2", "k3", "line\\nbreak", "tab\\t", "quote\\\"q", "x", "yy", "zzz", "semi;colon", "// no comment", "longer literal text", "0", "a literal with a long beginning it shares with another 1", "a literal with a long beginning it shares with another 2", LONGLIT "x", LONGLIT "y"};
                static const char* vals[] = {"", "a", "hello", "k1", "k2", "k3", "line\nbreak", "tab\t", "quote\"q", "x", "yy", "zzz", "semi;colon", "// no comment", "longer literal text", "0", "a literal with a long beginning it shares with another 1", "a literal with a long beginning it shares with another 2", LONGLIT "x", LONGLIT "y"};
                int k = pick(18, "str lit");
                if (k < 4 && chance(20, "long literal")) k = 18 + k;
                std::string s, v;
                if (k < 16) { s = words[k]; v = vals[k]; }
                else if (k >= 18) { s = words[k - 2]; v = vals[k - 2]; }
                else if (k == 16) { s = v = fmt("u%d", litno++); }
                else { e.t = "HOST_S"; v = "host string"; }
                if (e.t.empty()) e.t = "\"" + s + "\"";
                e.ev = [v](Interp&) { return Val::S(v); };
                break;
            }
            default: harness_error("lit");
        }
        return e;
    }
    E bin(const char* op, E a, E b, std::function<Val(const Val&, const Val&)> f) {
        E e;
        e.t = "(" + a.t + " " + op + " " + b.t + ")";
        auto x = a.ev, y = b.ev;
        e.ev = [x, y, f](Interp& in) { Val p = x(in), q = y(in); return f(p, q); };
        e.cost = a.cost + b.cost + 1;
        e.st = std::max(a.st, 1 + b.st);
        return e;
    }
    static int64_t mod(int64_t v) { return v % 9973; }
    E wrapMod(E a) { E m; m.t = "9973"; m.simple = true; m.ev = [](Interp&) { return Val::I(9973); }; return bin("%", a, m, [](const Val& p, const Val& q) { return Val::I(p.i % q.i); }); }

    // call of a script function
    E callFn(const std::shared_ptr<Fn>& f, int d, bool viaHost = false, bool stmt = false) {
        E e;
        std::vector<EvE> as;
        std::string t;
        int st = 1, base = viaHost ? 1 : 0;
        double cost = 3 + f->cost;
        for (size_t i = 0; i < f->args.size(); ++i) {
            E a = (f->recursive && i == 0) ? recArg() : gen(f->args[i], d - 1);
            if (i || viaHost) t += ", ";
            t += a.t;
            as.push_back(a.ev);
            st = std::max(st, base + (int)i + a.st);
            cost += a.cost;
        }
        int n = f->args.size();
        st = std::max(st, base + n + (viaHost ? n : 0) + f->stack);
        need(0, f->frames + 1);
        if (viaHost && stmt) e.t = "hcall(\"" + f->name + "\"" + t + ")";
        else if (viaHost) e.t = "cast(hcall(\"" + f->name + "\"" + t + "), " + tyname(f->ret) + ")";
        else e.t = f->name + "(" + t + ")";
        auto call = f->call;
        auto fp = f;
        e.ev = [as, fp](Interp& in) { std::vector<Val> v; for (auto& a : as) v.push_back(a(in)); return fp->call(in, std::move(v)); };
        e.cost = cost;
        e.st = st;
        return e;
    }
    E recArg() { int n = pick(5, "recursion depth"); E e; e.t = fmt("%d", n); e.ev = [n](Interp&) { return Val::I(n); }; return e; }
    std::vector<std::shared_ptr<Fn>> callable(Ty ret) {
        std::vector<std::shared_ptr<Fn>> r;
        if (noCalls) return r;
        for (auto& f : P.fns) {
            if (!(f->ret == ret) || f->observer || (fn && f == fn)) continue;
            if (f->cost * mult > 400 || f->stack > 30 || f->frames > 12) continue;
            if (!rich()) continue;
            r.push_back(f);
        }
        return r;
    }
    E foreign(const std::string& name, std::vector<E> as, std::function<Val(Interp&, std::vector<Val>&)> f) {
        E e;
        std::vector<EvE> ev;
        std::string t = name + "(";
        e.cost = 3;
        for (size_t i = 0; i < as.size(); ++i) {
            if (i) t += ", ";
            t += as[i].t;
            ev.push_back(as[i].ev);
            e.cost += as[i].cost;
            e.st = std::max(e.st, (int)i + as[i].st);
        }
        e.t = t + ")";
        e.ev = [ev, f](Interp& in) { std::vector<Val> v; for (auto& a : ev) v.push_back(a(in)); return f(in, v); };
        return e;
    }
    E fieldGet(const Var& v, int k) {
        E e;
        auto l = load(v);
        e.t = v.name + "." + structs[v.ty.x].f[k].first;
        e.ev = [l, k](Interp& in) { return l(in).o->f[k]; };
        e.cost = 2;
        return e;
    }
    static Val capf(const Val& v) { return Val::S(v.s.substr(0, 24)); }
    E genAny(int d) {
        auto vs = match(ANY);
        switch (pick(7, "any")) {
            case 0: case 1: { E e; e.t = "null"; e.ev = [](Interp&) { return Val(); }; e.simple = true; return e; }
            case 2: if (!vs.empty()) return varE(vs[pick(vs.size(), "var")]); /* fallthrough */
            case 3: return gen(STR, d);
            case 4: return gen(pick(2, "any bool") ? BOOL : INT, d);
            default: {
                std::vector<Var> os;
                for (auto& v : vars) if (v.ty.k == T_STRUCT || v.ty.k == T_ARR || v.ty.k == T_DICT) os.push_back(v);
                if (os.empty()) return gen(STR, d);
                return varE(os[pick(os.size(), "any object")]);
            }
        }
    }
    E gen(Ty t, int d) {
        if (t.k == T_ANY) return genAny(d);
        auto vs = match(t);
        if (d <= 0 || !rich()) {
            if (!vs.empty() && (t.k > T_STR || pick(3, "leaf var"))) return varE(vs[pick(vs.size(), "var")]);
            if (t.k <= T_STR) return lit(t);
            return make(t, 0);
        }
        if (t.k <= T_STR && chance(20, "leaf")) return vs.empty() || pick(2, "leaf kind") ? lit(t) : varE(vs[pick(vs.size(), "var")]);
        if (!vs.empty() && chance(30, "use var")) return varE(vs[pick(vs.size(), "var")]);
        auto cs = callable(t);
        if (!cs.empty() && chance(35, "call")) {
            auto f = cs[pick(cs.size(), "callee")];
            if (o.hostcalls && chance(25, "via host") && !observer) return callFn(f, d, true);
            return callFn(f, d);
        }
        // fields of struct variables
        if (t.k != T_STRUCT) {
            std::vector<std::pair<Var, int>> fs;
            for (auto& v : vars) if (v.ty.k == T_STRUCT) for (size_t k = 0; k < structs[v.ty.x].f.size(); ++k) if (structs[v.ty.x].f[k].second == t) fs.push_back({v, (int)k});
            if (!fs.empty() && chance(35, "field")) { auto& p = fs[pick(fs.size(), "which field")]; return fieldGet(p.first, p.second); }
        }
        switch (t.k) {
            case T_INT: return genInt(d);
            case T_FLT: return genFlt(d);
            case T_BOOL: return genBool(d);
            case T_STR: return genStr(d);
            default: return make(t, d);
        }
    }
    E tern(Ty t, int d) {
        E c = gen(BOOL, d - 1), a = gen(t, d - 1), b = gen(t, d - 1), e;
        e.t = "(if (" + c.t + ") (" + a.t + ") else (" + b.t + "))";
        auto x = c.ev, y = a.ev, z = b.ev;
        e.ev = [x, y, z](Interp& in) { return x(in).i ? y(in) : z(in); };
        e.cost = c.cost + a.cost + b.cost + 2;
        e.st = std::max(c.st, std::max(a.st, b.st));
        return e;
    }
    E genInt(int d) {
        switch (pick(19, "int expr")) {
            case 0: { E a = gen(INT, d - 1); E one; one.t = "1"; one.ev = [](Interp&) { return Val::I(1); };
                      return chance(50, "sub1") ? bin("-", a, one, [](const Val& p, const Val& q) { return Val::I(p.i - q.i); }) : bin("+", a, one, [](const Val& p, const Val& q) { return Val::I(p.i + q.i); }); }
            case 1: { E a = gen(INT, d - 1), b = gen(INT, d - 1); return wrapMod(bin("+", a, b, [](const Val& p, const Val& q) { return Val::I(p.i + q.i); })); }
            case 2: { E a = gen(INT, d - 1), b = gen(INT, d - 1); return wrapMod(bin("-", a, b, [](const Val& p, const Val& q) { return Val::I(p.i - q.i); })); }
            case 3: { E a = wrapMod(gen(INT, d - 1)), b = wrapMod(gen(INT, d - 1)); return wrapMod(bin("*", a, b, [](const Val& p, const Val& q) { return Val::I(p.i * q.i); })); }
            case 4: { E a = gen(INT, d - 1), b = gen(INT, 0);
                      E m; m.t = "17"; m.ev = [](Interp&) { return Val::I(17); };
                      E b2 = bin("%", b, m, [](const Val& p, const Val& q) { return Val::I(p.i % q.i); });
                      E sq = bin("*", b2, b2, [](const Val& p, const Val& q) { return Val::I(p.i * q.i); });
                      E one; one.t = "1"; one.ev = [](Interp&) { return Val::I(1); };
                      return bin("/", a, bin("+", sq, one, [](const Val& p, const Val& q) { return Val::I(p.i + q.i); }), [](const Val& p, const Val& q) { return Val::I(p.i / q.i); }); }
            case 5: { E a = wrapMod(gen(INT, d - 1)), b = wrapMod(gen(INT, d - 1)); return chance(50, "or") ? bin("|", a, b, [](const Val& p, const Val& q) { return Val::I((int)p.i | (int)q.i); }) : bin("&", a, b, [](const Val& p, const Val& q) { return Val::I((int)p.i & (int)q.i); }); }
            case 6: { E a = wrapMod(gen(INT, d - 1)), b = wrapMod(gen(INT, 0)); E m1, m2; m1.t = "255"; m1.ev = [](Interp&) { return Val::I(255); }; m2.t = "7"; m2.ev = [](Interp&) { return Val::I(7); };
                      auto band = [](const Val& p, const Val& q) { return Val::I(p.i & q.i); };
                      E x = bin("&", a, m1, band), y = bin("&", b, m2, band);
                      return chance(50, "shr") ? bin(">>", x, y, [](const Val& p, const Val& q) { return Val::I(p.i >> q.i); }) : bin("<<", x, y, [](const Val& p, const Val& q) { return Val::I(p.i << q.i); }); }
            case 7: if (!observer) return foreign("host_in", {}, [](Interp& in, std::vector<Val>&) { return Val::I(in.in.below(100)); }); return lit(INT);
            case 8: { E a = gen(STR, d - 1); return foreign("strlen", {a}, [](Interp&, std::vector<Val>& v) { return Val::I(v[0].s.size()); }); }
            case 9: return tern(INT, d);
            case 10: {
                auto as = matchK(T_ARR);
                if (as.empty()) return lit(INT);
                auto& v = as[pick(as.size(), "array")];
                return foreign(arrs[v.ty.x].name + "_len", {varE(v)}, [](Interp&, std::vector<Val>& a) { return Val::I(a[0].o->f.size()); });
            }
            case 11: {
                auto as = match(Ty{T_ARR, 0});
                if (as.empty() || observer) return lit(INT);
                E a = varE(as[pick(as.size(), "array")]), i = gen(INT, d - 1);
                for (auto& f : P.fns) if (f->name == "at_") {
                    E e = foreign("at_", {a, i}, [](Interp&, std::vector<Val>& v) { auto& x = v[0].o->f; return x.empty() ? Val::I(-7) : x[ixn(v[1].i, x.size())]; });
                    e.cost += f->cost; e.st = std::max(e.st, 2 + f->stack); need(0, 2);
                    return e;
                }
                return lit(INT);
            }
            case 12: {
                auto bs = matchK(T_BOX);
                if (bs.empty()) return lit(INT);
                return foreign("box_n", {varE(bs[pick(bs.size(), "box")])}, [](Interp&, std::vector<Val>& a) { return Val::I(a[0].o->n); });
            }
            case 14: { static const char cs[] = "aZ0 ~{"; int k = pick(6, "char"); char c = cs[k]; E e; e.t = fmt("'%c'", c); e.ev = [c](Interp&) { return Val::I(c); }; return e; }
            case 15: { E a = gen(STR, d - 1); static const char cs[] = "aex0"; char c = cs[pick(4, "char")]; E i; i.t = fmt("%d", c); i.ev = [c](Interp&) { return Val::I(c); };
                       return foreign("strchr", {a, i}, [](Interp&, std::vector<Val>& v) { size_t k = v[0].s.find((char)v[1].i); return Val::I(k == std::string::npos ? -1 : (int64_t)k); }); }
            case 16: { E a = wrapMod(gen(INT, d - 1)), b = foreign("int_to_str", {a}, [](Interp&, std::vector<Val>& v) { return Val::S(fmt("%lld", (long long)v[0].i)); });
                       auto back = [](Interp&, std::vector<Val>& v) { return Val::I(strtol(v[0].s.c_str(), nullptr, v.size() > 1 ? (int)v[1].i : 10)); };
                       if (pick(2, "base")) { E k; k.t = "16"; k.ev = [](Interp&) { return Val::I(16); }; return foreign("stoi", {b, k}, back); }
                       return foreign("str_to_int", {b}, back); }
            case 17: { E a = wrapMod(gen(INT, d - 1)); E f = foreign("float", {a}, [](Interp&, std::vector<Val>& v) { return Val::F((double)v[0].i); }); return foreign("int", {f}, [](Interp&, std::vector<Val>& v) { return Val::I((int)v[0].f); }); }
            case 18: {
                auto vs = match(STR);
                if (vs.empty()) return lit(INT);
                E v = varE(vs[pick(vs.size(), "string")]), k;
                k.t = "\"k\"";
                k.ev = [](Interp&) { return Val::S("k"); };
                E c = foreign("strcat", {k, v}, [](Interp&, std::vector<Val>& v) { return Val::S(v[0].s + v[1].s); });
                E l = foreign("strlen", {v}, [](Interp&, std::vector<Val>& v) { return Val::I(v[0].s.size()); });
                return foreign(pick(2, "sget") ? "sget" : "stridx", {c, l}, [](Interp&, std::vector<Val>& v) { return Val::I(v[0].s[v[1].i]); });
            }
            default: {
                if (observer) return lit(INT);
                std::vector<E> as;
                int n = 1 + pick(4, "hsum args");
                for (int i = 0; i < n; ++i) as.push_back(wrapMod(gen(INT, d - 2)));
                return foreign("hsum", as, [](Interp&, std::vector<Val>& v) { int64_t s = 0; for (auto& x : v) s += x.i; return Val::I(s % 9973); });
            }
        }
    }
    E genFlt(int d) {
        switch (pick(8, "flt expr")) {
            case 0: { E a = gen(FLT, d - 1), b = lit(FLT); return bin("+", a, b, [](const Val& p, const Val& q) { return Val::F(p.f + q.f); }); }
            case 1: { E a = gen(FLT, d - 1), b = gen(FLT, d - 1); return bin("-", a, b, [](const Val& p, const Val& q) { return Val::F(p.f - q.f); }); }
            case 2: { E a = gen(FLT, d - 1), b = lit(FLT); return bin("*", a, b, [](const Val& p, const Val& q) { return Val::F(p.f * q.f); }); }
            case 3: { E a = gen(INT, d - 1); return foreign("float", {a}, [](Interp&, std::vector<Val>& v) { return Val::F((double)v[0].i); }); }
            case 4: { E a = gen(FLT, d - 1); return foreign("floor", {a}, [](Interp&, std::vector<Val>& v) { return Val::F(floorf((float)v[0].f)); }); }
            case 5: { E a = gen(FLT, d - 1); return foreign("ceil", {a}, [](Interp&, std::vector<Val>& v) { return Val::F(ceilf((float)v[0].f)); }); }
            case 6: { E a = wrapMod(gen(INT, d - 1)), b = foreign("int_to_str", {a}, [](Interp&, std::vector<Val>& v) { return Val::S(fmt("%lld", (long long)v[0].i)); }); return foreign("ston", {b}, [](Interp&, std::vector<Val>& v) { return Val::F(strtof(v[0].s.c_str(), nullptr)); }); }
            default: return tern(FLT, d);
        }
    }
    E genBool(int d) {
        static const char* ops[] = {"<", ">", "<=", ">=", "==", "!="};
        switch (pick(8, "bool expr")) {
            case 0: case 1: {
                int k = pick(6, "cmp");
                E a = gen(INT, d - 1), b = gen(INT, d - 1);
                return bin(ops[k], a, b, [k](const Val& p, const Val& q) { int64_t x = p.i, y = q.i; return Val::B(k == 0 ? x < y : k == 1 ? x > y : k == 2 ? x <= y : k == 3 ? x >= y : k == 4 ? x == y : x != y); });
            }
            case 2: {
                int k = pick(4, "cmp");
                E a = gen(FLT, d - 1), b = lit(FLT);
                return bin(ops[k], a, b, [k](const Val& p, const Val& q) { double x = p.f, y = q.f; return Val::B(k == 0 ? x < y : k == 1 ? x > y : k == 2 ? x <= y : x >= y); });
            }
            case 3: { bool ne = pick(2, "ne"); E a = gen(STR, d - 1), b = gen(STR, d - 1); return bin(ne ? "!=" : "==", a, b, [ne](const Val& p, const Val& q) { return Val::B((p.s == q.s) != ne); }); }
            case 4: { E a = gen(BOOL, d - 1), e; e.t = "(!" + a.t + ")"; if (a.t[0] != '(' && !a.simple) e.t = "(!(" + a.t + "))"; auto x = a.ev; e.ev = [x](Interp& in) { return Val::B(!x(in).i); }; e.cost = a.cost + 1; e.st = a.st; return e; }
            case 5: case 6: {
                bool orr = pick(2, "or");
                E a = gen(BOOL, d - 1), b = gen(BOOL, d - 1), e;
                e.t = "(" + a.t + (orr ? " || " : " && ") + b.t + ")";
                auto x = a.ev, y = b.ev;
                e.ev = [x, y, orr](Interp& in) { bool p = x(in).i; if (orr) return p ? Val::B(true) : y(in); return p ? y(in) : Val::B(false); };
                e.cost = a.cost + b.cost + 2;
                e.st = std::max(a.st, b.st);
                return e;
            }
            default: {
                auto ss = matchK(T_STRUCT);
                if (ss.size() < 2) return lit(BOOL);
                Var a = ss[pick(ss.size(), "id a")], b = ss[pick(ss.size(), "id b")];
                return bin("==", varE(a), varE(b), [](const Val& p, const Val& q) { return Val::B(p.o == q.o); });
            }
        }
    }
    E genStr(int d) {
        switch (pick(7, "str expr")) {
            case 0: case 1: {
                int n = 2 + pick(2, "strcat n");
                std::vector<E> as;
                for (int i = 0; i < n; ++i) as.push_back(gen(STR, d - 1));
                E c = foreign("strcat", as, [](Interp&, std::vector<Val>& v) { std::string s; for (auto& x : v) s += x.s; return Val::S(s); });
                return foreign("cap", {c}, [](Interp&, std::vector<Val>& v) { return capf(v[0]); });
            }
            case 2: { E a = gen(INT, d - 1); return foreign("int_to_str", {a}, [](Interp&, std::vector<Val>& v) { return Val::S(fmt("%lld", (long long)v[0].i)); }); }
            case 3: return tern(STR, d);
            case 4: {
                E a = gen(STR, d - 1), i = gen(INT, d - 1);
                if (observer) return a;
                for (auto& f : P.fns) if (f->name == "tail_") {
                    E e = foreign("tail_", {a, i}, [](Interp&, std::vector<Val>& v) { auto& s = v[0].s; return s.empty() ? Val::S("") : Val::S(s.substr(ixn(v[1].i, s.size()))); });
                    e.cost += f->cost; e.st = std::max(e.st, 2 + f->stack); need(0, 3);
                    return e;
                }
                return a;
            }
            case 5: {
                auto vs = match(I64);
                if (vs.empty()) return lit(STR);
                return foreign("i64_to_string", {varE(vs[pick(vs.size(), "i64")])}, [](Interp&, std::vector<Val>& v) { return Val::S(fmt("%lld", (long long)v[0].i)); });
            }
            default: { E a = gen(STR, d - 1); return foreign("cap", {a}, [](Interp&, std::vector<Val>& v) { return capf(v[0]); }); }
        }
    }
    E nullStruct(Ty t) { E e; e.t = "cast(null, " + tyname(t) + ")"; e.ev = [](Interp&) { return Val(); }; e.simple = true; return e; }
    E fieldInit(Ty t, int d) {
        if (t.k == T_STRUCT) {
            auto vs = match(t);
            if (vs.empty() || chance(50, "null field")) return nullStruct(t);
            return varE(vs[pick(vs.size(), "var")]);
        }
        return gen(t, d);
    }
    E keyE(int kind, int d) {
        if (kind == 0) { E a = gen(INT, d), m; m.t = "7"; m.ev = [](Interp&) { return Val::I(7); }; return bin("%", a, m, [](const Val& p, const Val& q) { return Val::I(p.i % q.i); }); }
        if (kind == 1) return gen(STR, d);
        if (kind == 2) return gen(BOOL, d);
        auto ss = match(Ty{T_STRUCT, 0});
        if (ss.empty()) return make(Ty{T_STRUCT, 0}, 0);
        return varE(ss[pick(ss.size(), "key object")]);
    }
    static void dput(MObj* d, const Val& k, const Val& v) { for (auto& p : d->d) if (val_eq(p.first, k)) { p.second = v; return; } d->d.push_back({k, v}); }
    E make(Ty t, int d) {
        E e;
        switch (t.k) {
            case T_STRUCT: {
                auto& s = structs[t.x];
                std::vector<EvE> fe;
                std::vector<std::string> ft;
                e.cost = 3;
                e.st = s.f.size();
                for (size_t i = 0; i < s.f.size(); ++i) {
                    E a = fieldInit(s.f[i].second, d - 1);
                    fe.push_back(a.ev);
                    ft.push_back(a.t);
                    e.cost += a.cost;
                    e.st = std::max(e.st, (int)i + a.st);
                }
                std::string txt;
                if (chance(30, "designated")) {
                    std::vector<int> ord;
                    for (size_t i = 0; i < ft.size(); ++i) ord.push_back(i);
                    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[pick(i, "order")]);
                    for (int k : ord) txt += (txt.empty() ? "." : ", .") + s.f[k].first + " = " + ft[k];
                } else for (auto& x : ft) txt += (txt.empty() ? "" : ", ") + x;
                e.t = "new " + s.name + "{" + txt + "}";
                e.ev = [fe](Interp& in) { std::vector<Val> v; for (auto& x : fe) v.push_back(x(in)); MObj* ob = in.mk(MObj::STRUCT); ob->f = v; return Val::O(ob); };
                return e;
            }
            case T_ARR: {
                int n = pick(5, "elements");
                std::vector<E> as;
                for (int i = 0; i < n; ++i) as.push_back(gen(arrs[t.x].elem, d - 1));
                return foreign(arrs[t.x].name, as, [](Interp& in, std::vector<Val>& v) { MObj* ob = in.mk(MObj::ARR); ob->f = v; return Val::O(ob); });
            }
            case T_DICT: {
                int n = pick(3, "entries");
                std::vector<E> as;
                for (int i = 0; i < n; ++i) { as.push_back(keyE(dicts[t.x].key, d - 1)); as.push_back(gen(dicts[t.x].val, d - 1)); }
                return foreign("dict", as, [](Interp& in, std::vector<Val>& v) { MObj* ob = in.mk(MObj::DICT); for (size_t i = 0; i < v.size(); i += 2) dput(ob, v[i], v[i + 1]); return Val::O(ob); });
            }
            case T_DSI: return foreign("dict_str_int", {}, [](Interp& in, std::vector<Val>&) { return Val::O(in.mk(MObj::DICT)); });
            case T_BOX: { E a = wrapMod(gen(INT, d - 1)); return foreign("box", {a}, [](Interp& in, std::vector<Val>& v) { MObj* ob = in.mk(MObj::BOX); ob->n = v[0].i; ob->f.push_back(Val()); return Val::O(ob); }); }
            case T_I64: {
                E a = wrapMod(gen(INT, d - 1));
                E b = foreign("int_to_i64", {a}, [](Interp&, std::vector<Val>& v) { return Val::L(v[0].i); });
                auto vs = match(I64);
                if (vs.empty() || d <= 0) return b;
                E c = varE(vs[pick(vs.size(), "i64")]);
                if (pick(3, "i64 op") == 2) return foreign("i64_mul_many", {b, c}, [](Interp&, std::vector<Val>& v) { return Val::L((int64_t)((u64)v[0].i * (u64)v[1].i)); });
                return foreign("i64_add_many", {b, c}, [](Interp&, std::vector<Val>& v) { return Val::L(v[0].i + v[1].i); });
            }
            default: return lit(t);
        }
    }

    // ---- statements -------------------------------------------------------------------------
    int curId = 0;
    int beginTick() { if (!o.ticks || noTick || observer) return 0; return ntick++; }
    void at(int id, int ln) { if (id) { P.pos[id] = StmtPos{unitIdx, ln}; P.enclosing[id] = encl; unit->idline[id] = ln; } }
    E tickE(int id, E e, Ty t) {
        if (!id) return e;
        const char* n = t.k == T_INT ? "tick" : t.k == T_BOOL ? "tickb" : "ticks";
        E i;
        i.t = fmt("%d", id);
        i.ev = [id](Interp&) { return Val::I(id); };
        return foreign(n, {i, e}, [id](Interp& in, std::vector<Val>& v) { in.stmts.push_back(id); return v[1]; });
    }
    bool tickable(Ty t) { return t.k == T_INT || t.k == T_BOOL || t.k == T_STR; }
    void soloTick(std::vector<EvS>& out) {
        if (!o.ticks || observer) return;
        int id = ntick++;
        int ln = put(fmt("tick(%d, 0)", id));
        at(id, ln);
        P.solo.insert(id);
        charge(4);
        need(3);
        out.push_back([id](Interp& in) { in.stmts.push_back(id); return F_NEXT; });
    }
    void use(const E& e, int extra = 0) { charge(e.cost + 1); need(e.st + extra + 1); }
    static EvS seq(std::vector<EvS> v) {
        if (v.size() == 1) return v[0];
        return [v](Interp& in) { for (auto& s : v) { if (++in.fuel > 20000000) harness_error("reference fuel"); Flow f = s(in); if (f != F_NEXT) return f; } return F_NEXT; };
    }
    EvS block(int n) {  // statements in braces; scope restored
        size_t nv = vars.size();
        int mark = vars.size();
        ++depth;
        std::vector<EvS> b;
        for (int i = 0; i < n; ++i) stmt(b);
        --depth;
        // top level declarations inside blocks are global symbols, but may not have been executed
        vars.resize(mark);
        (void)nv;
        return seq(b);
    }
    EvS emit(Ty t, E e) {
        const char* n = t.k == T_INT ? "emit_i" : t.k == T_FLT ? "emit_f" : t.k == T_BOOL ? "emit_b" : t.k == T_STR ? "emit_s" : "emit";
        if (chance(15, "emit any")) n = "emit";
        int id = tickable(t) ? beginTick() : 0;
        e = tickE(id, e, t);
        int ln;
        if (chance(10, "arrow") && e.simple && e.t[0] != '(') ln = put(e.t + "->" + n + "()");
        else ln = put(std::string(n) + "(" + e.t + ")");
        at(id, ln);
        use(e, 1);
        auto x = e.ev;
        return [x](Interp& in) { in.ev(show(x(in))); return F_NEXT; };
    }
    Ty randTy(bool objects = true) {
        for (int tries = 0; tries < 6; ++tries) {
            switch (pick(objects ? 11 : 4, "type")) {
                case 0: return INT;
                case 1: if (o.strings) return STR; break;
                case 2: return BOOL;
                case 3: if (o.floats) return FLT; break;
                case 4: case 5: if (o.objects && !structs.empty()) return Ty{T_STRUCT, (int)pick(structs.size(), "struct type")}; break;
                case 6: case 7: if (o.arrays && !arrs.empty()) return Ty{T_ARR, (int)pick(arrs.size(), "array type")}; break;
                case 8: if (o.dicts && !dicts.empty()) { int k = pick(dicts.size() + 1, "dict type"); return k == (int)dicts.size() ? Ty{T_DSI, 0} : Ty{T_DICT, k}; } break;
                case 9: if (o.boxes && !boxes.empty()) return Ty{T_BOX, (int)pick(boxes.size(), "box type")}; break;
                case 10: return I64;
            }
        }
        return INT;
    }
    int depthOfLoops = 0;
    void declare(std::vector<EvS>& out, Ty t) {
        E e = gen(t, 3);
        int id = tickable(t) ? beginTick() : 0;
        e = tickE(id, e, t);
        Var v = newVar(t);
        int ln;
        if (chance(20, "typed decl")) ln = put(v.name + ": " + tyname(t) + " = " + e.t);
        else ln = put(v.name + " := " + e.t);
        at(id, ln);
        use(e);
        auto s = store(v);
        auto x = e.ev;
        out.push_back([s, x](Interp& in) { s(in, x(in)); return F_NEXT; });
        vars.push_back(v);
    }
    void assign(std::vector<EvS>& out) {
        std::vector<Var> w;
        for (auto& v : vars) if (!v.ro) w.push_back(v);
        if (w.empty()) { declare(out, INT); return; }
        Var v = w[pick(w.size(), "target")];
        auto s = store(v);
        auto l = load(v);
        if (v.ty.k == T_INT && chance(40, "compound")) {
            int k = pick(7, "assign op");
            static const char* ops[] = {"+=", "-=", "*=", "/=", "%=", "|=", "&="};
            E e = k == 3 ? lit(INT) : k == 0 || k == 1 ? wrapMod(gen(INT, 2)) : wrapMod(gen(INT, 1));
            if (k < 2 && chance(50, "by one")) { e = E(); e.t = "1"; e.ev = [](Interp&) { return Val::I(1); }; }
            if (k == 3 || k == 4) { int n = 1 + pick(50, "divisor"); e = E(); e.t = fmt("%d", n); e.ev = [n](Interp&) { return Val::I(n); }; }
            if (k == 2 || k >= 5) {  // keep it small
                put(v.name + " = (" + v.name + " % 9973)");
                out.push_back([s, l](Interp& in) { s(in, Val::I(l(in).i % 9973)); return F_NEXT; });
                charge(5);
                need(3);
            }
            int id = beginTick();
            if (e.t != "1") e = tickE(id, e, INT); else if (id) { soloTick(out); id = 0; }
            int ln = put(v.name + " " + ops[k] + " " + e.t);
            at(id, ln);
            use(e, 1);
            auto x = e.ev;
            out.push_back([s, l, x, k](Interp& in) {
                int64_t a = l(in).i, b = x(in).i, r = 0;
                switch (k) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = (int)(a % b); break; case 5: r = (int)(a | b); break; case 6: r = (int)(a & b); break; }
                s(in, Val::I(r));
                return F_NEXT;
            });
            return;
        }
        E e = gen(v.ty, 3);
        int id = tickable(v.ty) ? beginTick() : 0;
        e = tickE(id, e, v.ty);
        int ln = put(v.name + " = " + e.t);
        at(id, ln);
        use(e);
        auto x = e.ev;
        out.push_back([s, x](Interp& in) { s(in, x(in)); return F_NEXT; });
    }
    void ifStmt(std::vector<EvS>& out, int budget) {
        E c = gen(BOOL, 3);
        int id = beginTick();
        c = tickE(id, c, BOOL);
        int ln = put("if (" + c.t + ") {");
        at(id, ln);
        use(c);
        if (id) encl.push_back(id);
        EvS a = block(1 + pick(budget, "then size")), b;
        if (chance(50, "else")) { put("} else {"); b = block(1 + pick(budget, "else size")); }
        put("}");
        if (id) encl.pop_back();
        auto x = c.ev;
        out.push_back([x, a, b](Interp& in) { if (x(in).i) return a(in); if (b) return b(in); return F_NEXT; });
    }
    void forStmt(std::vector<EvS>& out) {
        Var v = newVar(INT);
        v.ro = true;
        int n = 1 + pick(5, "iterations");
        E lim;
        lim.t = fmt("%d", n);
        lim.ev = [n](Interp&) { return Val::I(n); };
        int id = beginTick();
        E c = tickE(id, bin("<", varE(v), lim, [](const Val& p, const Val& q) { return Val::B(p.i < q.i); }), BOOL);
        int ln = put("for " + v.name + " := 0; " + c.t + "; " + v.name + " += 1 {");
        at(id, ln);
        double m = mult;
        mult *= n + 1;
        use(c, 2);
        charge(6);
        vars.push_back(v);
        bool il = inLoop;
        inLoop = true;
        ++depthOfLoops;
        if (id) encl.push_back(id);
        EvS b = block(1 + pick(3, "body size"));
        if (id) encl.pop_back();
        --depthOfLoops;
        inLoop = il;
        put("}");
        vars.pop_back();
        mult = m;
        auto s = store(v);
        auto l = load(v);
        auto x = c.ev;
        out.push_back([s, l, x, b](Interp& in) {
            for (s(in, Val::I(0)); x(in).i; s(in, Val::I(l(in).i + 1))) {
                if (++in.fuel > 20000000) harness_error("reference fuel");
                Flow f = b(in);
                if (f == F_BREAK) break;
                if (f == F_RET) return f;
            }
            return F_NEXT;
        });
    }
    void whileStmt(std::vector<EvS>& out) {
        Var v = newVar(INT);
        v.ro = true;
        put(v.name + " := 0");
        auto s = store(v);
        auto l = load(v);
        out.push_back([s](Interp& in) { s(in, Val::I(0)); return F_NEXT; });
        charge(3);
        int n = 1 + pick(5, "iterations");
        E lim;
        lim.t = fmt("%d", n);
        lim.ev = [n](Interp&) { return Val::I(n); };
        vars.push_back(v);
        E c = bin("<", varE(v), lim, [](const Val& p, const Val& q) { return Val::B(p.i < q.i); });
        double m = mult;
        mult *= n + 1;
        if (chance(40, "extra condition")) {
            E g2 = gen(BOOL, 2), e;
            e.t = "(" + c.t + " && " + g2.t + ")";
            auto x = c.ev, y = g2.ev;
            e.ev = [x, y](Interp& in) { return x(in).i ? y(in) : Val::B(false); };
            e.cost = c.cost + g2.cost;
            e.st = std::max(c.st, g2.st);
            c = e;
        }
        int id = beginTick();
        c = tickE(id, c, BOOL);
        int ln = put("while (" + c.t + ") {");
        at(id, ln);
        use(c, 1);
        charge(6);
        if (id) encl.push_back(id);
        ++depth;
        put(v.name + " += 1");
        --depth;
        bool il = inLoop;
        inLoop = true;
        ++depthOfLoops;
        EvS b = block(1 + pick(3, "body size"));
        --depthOfLoops;
        inLoop = il;
        put("}");
        if (id) encl.pop_back();
        vars.pop_back();
        mult = m;
        auto x = c.ev;
        out.push_back([s, l, x, b](Interp& in) {
            while (x(in).i) {
                if (++in.fuel > 20000000) harness_error("reference fuel");
                s(in, Val::I(l(in).i + 1));
                Flow f = b(in);
                if (f == F_BREAK) break;
                if (f == F_RET) return f;
            }
            return F_NEXT;
        });
    }
    void call(std::vector<EvS>& out, E e) {
        put(e.t);
        use(e);
        auto x = e.ev;
        out.push_back([x](Interp& in) { x(in); return F_NEXT; });
    }
    E vf(const std::string& name, std::vector<E> as, std::function<void(Interp&, std::vector<Val>&)> f) { return foreign(name, as, [f](Interp& in, std::vector<Val>& v) { f(in, v); return Val(); }); }
    bool bulk = false;   // many elements
    void arrayStmt(std::vector<EvS>& out) {
        auto as = matchK(T_ARR);
        if (as.empty()) { if (arrs.empty()) declare(out, INT); else declare(out, Ty{T_ARR, (int)pick(arrs.size(), "array type")}); return; }
        Var v = as[pick(as.size(), "array")];
        auto& ad = arrs[v.ty.x];
        std::string n = ad.name;
        E a = varE(v);
        // guarded so that preconditions hold; the guard's operands are evaluated first (calls in them may change the array)
        auto guarded = [&](const std::string& cond, std::function<bool(Interp&)> c, std::function<EvS()> body) {
            put("if (" + cond + ") {");
            charge(8);
            need(4);
            ++depth;
            EvS b = body();
            --depth;
            put("}");
            out.push_back([c, b](Interp& in) { return c(in) ? b(in) : F_NEXT; });
        };
        auto l = load(v);
        auto nonempty = [l](Interp& in) { return !l(in).o->f.empty(); };
        auto small = [l](Interp& in) { return l(in).o->f.size() < 20; };
        switch (bulk ? 10 : pick(11, "array op")) {
            case 10: {  // many elements for a while
                auto vs2 = match(ad.elem);
                int hi = 12 + pick(60, "how many"), lo = pick(12, "left of them");
                if (vs2.empty() || (!bulk && mult * hi * 24 > o.maxcost)) { out.push_back(emit(ANY, a)); return; }
                Var e = vs2[pick(vs2.size(), "value")];
                auto le = load(e);
                bool bykeep = pick(2, "shrunk by");
                put("while (" + n + "_len(" + v.name + ") < " + fmt("%d", hi) + ") {");
                ++depth; put(n + "_push(" + v.name + ", " + e.name + ")"); --depth;
                put("}");
                if (ad.elem == INT) put(n + "_sort(" + v.name + ")");
                if (bykeep) put(n + "_resize(" + v.name + ", " + fmt("%d", lo) + ")");
                else {
                    put("while (" + n + "_len(" + v.name + ") > " + fmt("%d", lo) + ") {");
                    ++depth; put(n + (hi & 1 ? "_pop(" : "_shift(") + v.name + ")"); --depth;
                    put("}");
                }
                charge(hi * 24);
                need(5);
                bool sorted = ad.elem == INT, front = !bykeep && !(hi & 1);
                out.push_back([l, le, hi, lo, sorted, front](Interp& in) {
                    auto& f = l(in).o->f;
                    while ((int)f.size() < hi) { Val x = le(in); f.push_back(x); }
                    if (sorted) std::stable_sort(f.begin(), f.end(), [](const Val& p, const Val& q) { return p.i < q.i; });
                    if (front) { if ((int)f.size() > lo) f.erase(f.begin(), f.end() - lo); }
                    else f.resize(lo);
                    return F_NEXT;
                });
                return;
            }
            case 0: case 1: case 2: {
                // the value first, so that its evaluation cannot invalidate the guard
                Var t = newVar(ad.elem);
                E e = gen(ad.elem, 2);
                put(t.name + (ad.elem.k == T_ANY ? ": any = " : " := ") + e.t);
                use(e);
                auto s = store(t);
                auto x = e.ev;
                out.push_back([s, x](Interp& in) { s(in, x(in)); return F_NEXT; });
                if (!inLoop || fn) vars.push_back(t);
                guarded(n + "_len(" + v.name + ") < 20", small, [&] {
                    E c = vf(n + "_push", {a, varE(t)}, [](Interp&, std::vector<Val>& w) { w[0].o->f.push_back(w[1]); });
                    std::vector<EvS> o2;
                    call(o2, c);
                    return seq(o2);
                });
                return;
            }
            case 3: case 4: {
                bool pop = pick(2, "pop");
                auto ws = match(ad.elem, true);
                guarded(n + "_len(" + v.name + ") > 0", nonempty, [&] {
                    E c = foreign(n + (pop ? "_pop" : "_shift"), {a}, [pop](Interp&, std::vector<Val>& w) { auto& f = w[0].o->f; Val r = pop ? f.back() : f.front(); if (pop) f.pop_back(); else f.erase(f.begin()); return r; });
                    std::vector<EvS> o2;
                    if (ws.empty()) call(o2, c);
                    else {
                        Var w = ws[pick(ws.size(), "target")];
                        put(w.name + " = " + c.t);
                        use(c);
                        auto s = store(w);
                        auto x = c.ev;
                        o2.push_back([s, x](Interp& in) { s(in, x(in)); return F_NEXT; });
                    }
                    return seq(o2);
                });
                return;
            }
            case 5: case 6: {  // read / write by index; the index comes from a variable or literal
                E i = gen(INT, 0);
                bool wr = pick(2, "write");
                std::string ix = "ix_(" + i.t + ", " + n + "_len(" + v.name + "))";
                guarded(n + "_len(" + v.name + ") > 0", nonempty, [&] {
                    std::vector<EvS> o2;
                    need(8, 2);
                    auto iv = i.ev;
                    if (wr) {
                        auto vs2 = match(ad.elem);
                        E e = vs2.empty() ? gen(ad.elem, 0) : varE(vs2[pick(vs2.size(), "value")]);
                        bool sugar = pick(2, "index syntax");
                        if (sugar) put(v.name + "[" + ix + "] = " + e.t); else put(n + "_set(" + v.name + ", " + ix + ", " + e.t + ")");
                        charge(14 + e.cost);
                        need(6 + e.st, 2);
                        auto ev = e.ev;
                        o2.push_back([l, iv, ev](Interp& in) { MObj* ob = l(in).o; int64_t k = ixn(iv(in).i, ob->f.size()); Val x = ev(in); ob->f[k] = x; return F_NEXT; });
                    } else {
                        auto ws = match(ad.elem, true);
                        charge(14);
                        std::string rd = pick(2, "index syntax") ? v.name + "[" + ix + "]" : n + "_get(" + v.name + ", " + ix + ")";
                        if (ws.empty() || ad.elem.k <= T_STR) {
                            put("emit(" + rd + ")");
                            o2.push_back([l, iv](Interp& in) { MObj* ob = l(in).o; in.ev(show(ob->f[ixn(iv(in).i, ob->f.size())])); return F_NEXT; });
                        } else {
                            Var w = ws[pick(ws.size(), "target")];
                            put(w.name + " = " + rd);
                            auto s = store(w);
                            o2.push_back([l, iv, s](Interp& in) { MObj* ob = l(in).o; s(in, ob->f[ixn(iv(in).i, ob->f.size())]); return F_NEXT; });
                        }
                    }
                    return seq(o2);
                });
                return;
            }
            case 7: {
                E i = gen(INT, 0);
                std::string ix = "ix_(" + i.t + ", " + n + "_len(" + v.name + "))";
                bool ins = pick(2, "insert");
                auto vs2 = match(ad.elem);
                guarded(ins ? "(" + n + "_len(" + v.name + ") > 0) && (" + n + "_len(" + v.name + ") < 20)" : n + "_len(" + v.name + ") > 0", [nonempty, small, ins](Interp& in) { return nonempty(in) && (!ins || small(in)); }, [&] {
                    std::vector<EvS> o2;
                    auto iv = i.ev;
                    need(9, 2);
                    charge(14);
                    if (ins) {
                        E e = vs2.empty() ? gen(ad.elem, 0) : varE(vs2[pick(vs2.size(), "value")]);
                        put(n + "_insert(" + v.name + ", " + ix + ", " + e.t + ")");
                        need(6 + e.st, 2);
                        charge(e.cost);
                        auto ev = e.ev;
                        o2.push_back([l, iv, ev](Interp& in) { MObj* ob = l(in).o; int64_t k = ixn(iv(in).i, ob->f.size()); Val x = ev(in); ob->f.insert(ob->f.begin() + k, x); return F_NEXT; });
                    } else {
                        put(n + "_remove(" + v.name + ", " + ix + ")");
                        o2.push_back([l, iv](Interp& in) { MObj* ob = l(in).o; ob->f.erase(ob->f.begin() + ixn(iv(in).i, ob->f.size())); return F_NEXT; });
                    }
                    return seq(o2);
                });
                return;
            }
            case 8: {
                int k = pick(12, "new length");
                E nn;
                nn.t = fmt("%d", k);
                nn.ev = [k](Interp&) { return Val::I(k); };
                if (ad.elem.k == T_ANY && pick(2, "plain resize")) {
                    call(out, vf(n + "_resize", {a, nn}, [](Interp&, std::vector<Val>& w) { w[0].o->f.resize(w[1].i); }));
                    return;
                }
                E e = gen(ad.elem, 1);
                call(out, vf(n + "_resize_fill", {a, nn, e}, [](Interp&, std::vector<Val>& w) { w[0].o->f.resize(w[1].i, w[2]); }));
                return;
            }
            default:
                if (ad.elem == INT && pick(2, "sort")) call(out, vf(n + "_sort", {a}, [](Interp&, std::vector<Val>& w) { std::stable_sort(w[0].o->f.begin(), w[0].o->f.end(), [](const Val& p, const Val& q) { return p.i < q.i; }); }));
                else if (pick(3, "clear") == 2) { guarded(n + "_len(" + v.name + ") > 0", nonempty, [&] { std::vector<EvS> o2; call(o2, vf(n + "_clear", {a}, [](Interp&, std::vector<Val>& w) { w[0].o->f.clear(); })); return seq(o2); }); }
                else out.push_back(emit(ANY, a));
        }
    }
    void structStmt(std::vector<EvS>& out) {
        auto ss = matchK(T_STRUCT);
        if (ss.empty()) { if (structs.empty()) declare(out, INT); else declare(out, Ty{T_STRUCT, (int)pick(structs.size(), "struct type")}); return; }
        Var v = ss[pick(ss.size(), "object")];
        auto& sd = structs[v.ty.x];
        int k = pick(sd.f.size(), "field");
        Ty ft = sd.f[k].second;
        auto l = load(v);
        std::string path = v.name + "." + sd.f[k].first;
        if (ft.k == T_STRUCT && chance(50, "follow link")) {
            put("if (" + path + " != null) {");
            ++depth;
            charge(6);
            need(4);
            auto ws = match(ft, true);
            int mode = pick(3, "link use");
            auto cond = [l, k](Interp& in) { return l(in).o->f[k].t != V_NULL; };
            if (mode == 0 && !ws.empty()) {
                Var w = ws[pick(ws.size(), "target")];
                put(w.name + " = " + path);
                auto s = store(w);
                out.push_back([cond, l, k, s](Interp& in) { if (cond(in)) s(in, l(in).o->f[k]); return F_NEXT; });
            } else {
                auto& s2 = structs[ft.x];
                int k2 = pick(s2.f.size(), "field 2");
                put("emit(" + path + "." + s2.f[k2].first + ")");
                out.push_back([cond, l, k, k2](Interp& in) { if (cond(in)) in.ev(show(l(in).o->f[k].o->f[k2])); return F_NEXT; });
            }
            --depth;
            put("}");
            return;
        }
        if (chance(15, "show object")) { out.push_back(emit(ANY, varE(v))); return; }
        if (ft.k == T_INT && chance(30, "field compound")) {
            E e = wrapMod(gen(INT, 1));
            put(path + " += " + e.t);
            use(e, 2);
            auto x = e.ev;
            out.push_back([l, k, x](Interp& in) { int64_t a = l(in).o->f[k].i; int64_t b = x(in).i; l(in).o->f[k] = Val::I(a + b); return F_NEXT; });
            put(path + " %= 9973");
            charge(6);
            out.push_back([l, k](Interp& in) { auto& f = l(in).o->f[k]; f = Val::I((int)(f.i % 9973)); return F_NEXT; });
            return;
        }
        E e = fieldInit(ft, 3);
        int id = tickable(ft) ? beginTick() : 0;
        e = tickE(id, e, ft);
        int ln = put(path + " = " + e.t);
        at(id, ln);
        use(e, 1);
        auto x = e.ev;
        out.push_back([l, k, x](Interp& in) { Val w = x(in); l(in).o->f[k] = w; return F_NEXT; });
    }
    void dictStmt(std::vector<EvS>& out) {
        auto ds = matchK(T_DICT);
        auto di = matchK(T_DSI);
        ds.insert(ds.end(), di.begin(), di.end());
        if (ds.empty()) { if (dicts.empty()) declare(out, INT); else declare(out, Ty{T_DICT, (int)pick(dicts.size(), "dict type")}); return; }
        Var v = ds[pick(ds.size(), "dict")];
        bool si = v.ty.k == T_DSI;
        DD dd = si ? DD{1, INT} : dicts[v.ty.x];
        std::string n = si ? "dict_str_int" : "dict";
        E a = varE(v);
        auto l = load(v);
        switch (bulk ? 7 : pick(8, "dict op")) {
            case 7: {  // many entries
                static const int mults[] = {1, 32, 7, 3};
                int hi = 10 + pick(50, "how many"), m = mults[pick(4, "stride")], gone = pick(hi + 1, "removed again");
                auto vs2 = match(dd.val);
                if (dd.key > 1 || vs2.empty() || (!bulk && mult * hi * 24 > o.maxcost)) return dictStmtSet(out, v, n);
                Var e = vs2[pick(vs2.size(), "value")], q = newVar(INT);
                auto le = load(e);
                auto sq = store(q);
                std::string ks = fmt("(%s * %d)", q.name.c_str(), m);
                if (dd.key == 1) ks = "int_to_str(" + ks + ")";
                put("for " + q.name + " := 0; " + q.name + fmt(" < %d; ", hi) + q.name + " += 1 {");
                ++depth; put(n + "_put(" + v.name + ", " + ks + ", " + e.name + ")"); --depth;
                put("}");
                Var q2 = newVar(INT);
                auto sq2 = store(q2);
                put("for " + q2.name + " := 0; " + q2.name + fmt(" < %d; ", gone) + q2.name + " += 1 {");
                std::string k2 = ks;
                k2.replace(k2.find(q.name), q.name.size(), q2.name);
                ++depth; put(n + "_remove(" + v.name + ", " + k2 + ")"); --depth;
                put("}");
                bool show = bulk && pick(2, "then its keys");
                charge(hi * 24);
                need(7);
                bool str = dd.key == 1;
                out.push_back([l, le, sq, sq2, hi, m, gone, str](Interp& in) {
                    auto* ob = l(in).o;
                    auto key = [&](int i) { return str ? Val::S(fmt("%d", i * m)) : Val::I(i * m); };
                    for (int i = 0; i < hi; ++i) dput(ob, key(i), le(in));
                    sq(in, Val::I(hi));
                    sq2(in, Val::I(gone));
                    for (int i = 0; i < gone; ++i) { Val k = key(i); for (size_t j = 0; j < ob->d.size(); ++j) if (val_eq(ob->d[j].first, k)) { ob->d.erase(ob->d.begin() + j); break; } }
                    return F_NEXT;
                });
                if (show) { charge(hi * 8); dictStmtSet(out, v, n); }
                return;
            }
            case 0: case 1: {
                E k = keyE(dd.key, 2), e = gen(dd.val, 2);
                if (!si && dd.key == 1 && chance(30, "index syntax")) {
                    put(v.name + "[" + k.t + "] = " + e.t);
                    charge(k.cost + e.cost + 4);
                    need(std::max(1 + k.st, 2 + e.st) + 1);
                    auto kv = k.ev, ev = e.ev;
                    out.push_back([l, kv, ev](Interp& in) { MObj* ob = l(in).o; Val x = kv(in), y = ev(in); dput(ob, x, y); return F_NEXT; });
                    return;
                }
                call(out, vf(n + "_put", {a, k, e}, [](Interp&, std::vector<Val>& w) { dput(w[0].o, w[1], w[2]); }));
                return;
            }
            case 2: {
                E k = keyE(dd.key, 1);
                out.push_back(emit(BOOL, foreign(n + "_exists", {a, k}, [](Interp&, std::vector<Val>& w) { for (auto& p : w[0].o->d) if (val_eq(p.first, w[1])) return Val::B(true); return Val::B(false); })));
                return;
            }
            case 3: {
                E k = keyE(dd.key, 1);
                E e = foreign(n + "_get", {a, k}, [](Interp&, std::vector<Val>& w) { for (auto& p : w[0].o->d) if (val_eq(p.first, w[1])) return p.second; return Val(); });
                out.push_back(emit(ANY, e));
                return;
            }
            case 4: {
                auto ws = match(dd.val, true);
                E k = keyE(dd.key, 0);
                if (ws.empty() || si || dd.val.k == T_ANY) return dictStmtSet(out, v, n);
                Var w = ws[pick(ws.size(), "target")];
                put("if (dict_exists(" + v.name + ", " + k.t + ")) {");
                ++depth;
                put(w.name + " = cast(dict_get(" + v.name + ", " + k.t + "), " + tyname(dd.val) + ")");
                --depth;
                put("}");
                charge(12 + 2 * k.cost);
                need(3 + k.st);
                auto kv = k.ev;
                auto s = store(w);
                out.push_back([l, kv, s](Interp& in) {
                    MObj* ob = l(in).o;
                    Val x = kv(in);
                    bool ok = false;
                    for (auto& p : ob->d) if (val_eq(p.first, x)) ok = true;
                    if (ok) { ob = l(in).o; x = kv(in); for (auto& p : ob->d) if (val_eq(p.first, x)) { s(in, p.second); break; } }
                    return F_NEXT;
                });
                return;
            }
            case 5: {
                if (pick(4, "clear") == 3) { call(out, vf(n + "_clear", {a}, [](Interp&, std::vector<Val>& w) { w[0].o->d.clear(); })); return; }
                E k = keyE(dd.key, 1);
                call(out, vf(n + "_remove", {a, k}, [](Interp&, std::vector<Val>& w) { auto& d = w[0].o->d; for (size_t i = 0; i < d.size(); ++i) if (val_eq(d[i].first, w[1])) { d.erase(d.begin() + i); break; } }));
                return;
            }
            default: dictStmtSet(out, v, n);
        }
    }
    void dictStmtSet(std::vector<EvS>& out, const Var& v, const std::string& n) {
        bool vals = n == "dict" && pick(2, "values");
        put("emit_set(" + n + (vals ? "_values(" : "_keys(") + v.name + "))");
        charge(8);
        need(3);
        auto l = load(v);
        out.push_back([l, vals](Interp& in) {
            std::vector<std::string> s;
            for (auto& p : l(in).o->d) s.push_back(show(vals ? p.second : p.first));
            std::sort(s.begin(), s.end());
            std::string r = "set";
            for (auto& x : s) r += " " + x;
            in.ev(r);
            return F_NEXT;
        });
    }
    bool things = false;
    void boxStmt(std::vector<EvS>& out) {
        if (things && pick(4, "native of another kind") == 3) {
            E k = lit(INT);
            k.t = fmt("%d", (int)pick(5, "kind of native"));
            if (pick(2, "kept")) call(out, vf("thing_set", {k}, [](Interp&, std::vector<Val>&) {}));
            else call(out, vf("thing", {k}, [](Interp&, std::vector<Val>&) {}));
            return;
        }
        auto bs = matchK(T_BOX);
        if (bs.empty()) { if (boxes.empty()) declare(out, INT); else declare(out, Ty{T_BOX, (int)pick(boxes.size(), "box type")}); return; }
        Var v = bs[pick(bs.size(), "box")];
        Ty ct = boxes[v.ty.x];
        auto l = load(v);
        switch (pick(3, "box op")) {
            case 0: { E e = gen(ct, 2); call(out, vf("box_put", {varE(v), e}, [](Interp&, std::vector<Val>& w) { w[0].o->f[0] = w[1]; })); return; }
            case 1: out.push_back(emit(ANY, foreign("box_get", {varE(v)}, [](Interp&, std::vector<Val>& w) { return w[0].o->f[0]; }))); return;
            default: {
                auto ws = match(ct, true);
                if (ws.empty()) { E e = gen(ct, 2); call(out, vf("box_put", {varE(v), e}, [](Interp&, std::vector<Val>& w) { w[0].o->f[0] = w[1]; })); return; }
                Var w = ws[pick(ws.size(), "target")];
                put("if (box_get(" + v.name + ") != null) {");
                ++depth;
                put(w.name + " = cast(box_get(" + v.name + "), " + tyname(ct) + ")");
                --depth;
                put("}");
                charge(12);
                need(4);
                auto s = store(w);
                out.push_back([l, s](Interp& in) { if (l(in).o->f[0].t != V_NULL) s(in, l(in).o->f[0]); return F_NEXT; });
            }
        }
    }
    void returnStmt(std::vector<EvS>& out) {
        if (fn->ret.k == T_VOID) { put("return;"); out.push_back([](Interp& in) { in.ret = Val(); return F_RET; }); charge(2); return; }
        E e = gen(fn->ret, 3);
        int id = tickable(fn->ret) ? beginTick() : 0;
        e = tickE(id, e, fn->ret);
        int ln = put("return " + e.t);
        at(id, ln);
        use(e);
        auto x = e.ev;
        out.push_back([x](Interp& in) { in.ret = x(in); return F_RET; });
    }
    void stmt(std::vector<EvS>& out) {
        if (!rich()) { soloTick(out); E e = lit(INT); out.push_back(emit(INT, e)); return; }
        if (o.ticks && chance(30, "solo tick")) soloTick(out);
        int k = pick(20, "stmt");
        if (observer && (k == 0 || k >= 16)) k = 2;
        switch (k) {
            case 0: case 1: if (!observer) { Ty t = randTy(true); out.push_back(emit(t, gen(t, 3))); return; } /* fallthrough */
            case 2: case 3: if (!(depthOfLoops && !fn) ) { declare(out, randTy(true)); return; } assign(out); return;
            case 4: case 5: assign(out); return;
            case 6: if (depth < 5) { ifStmt(out, 3); return; } assign(out); return;
            case 7: if (depthOfLoops < 2 && depth < 5) { forStmt(out); return; } assign(out); return;
            case 8: if (depthOfLoops < 2 && depth < 5) { whileStmt(out); return; } assign(out); return;
            case 9: if (inLoop && depth > 0 && chance(50, "loop exit")) {
                    E c = gen(BOOL, 2);
                    int id = beginTick();
                    c = tickE(id, c, BOOL);
                    int ln = put("if (" + c.t + ") {");
                    at(id, ln);
                    use(c);
                    ++depth;
                    bool br = pick(2, "break");
                    int bl = put(br ? "break" : "continue");
                    if (id) P.leaves[id] = bl;
                    --depth;
                    put("}");
                    auto x = c.ev;
                    out.push_back([x, br](Interp& in) { return x(in).i ? (br ? F_BREAK : F_CONT) : F_NEXT; });
                    return;
                }
                /* fallthrough */
            case 10: if (o.objects) { structStmt(out); return; } assign(out); return;
            case 11: case 12: if (o.arrays && !observer) { arrayStmt(out); return; } assign(out); return;
            case 13: if (o.dicts && !observer) { dictStmt(out); return; } assign(out); return;
            case 14: if (o.boxes && !observer) { boxStmt(out); return; } assign(out); return;
            case 15:
                if (fn && depth > 1 && chance(40, "early return")) { returnStmt(out); return; }
                assign(out);
                return;
            case 16: {
                auto cs = callable(VOID);
                if (chance(40, "result unused")) for (auto t : {INT, STR, FLT, BOOL}) for (auto& f : callable(t)) cs.push_back(f);
                if (cs.empty()) { assign(out); return; }
                auto f = cs[pick(cs.size(), "callee")];
                call(out, callFn(f, 2, o.hostcalls && !observer && chance(40, "via host"), true));
                return;
            }
            case 17: {
                if (o.printing) {
                    E a = gen(INT, 1), b = gen(STR, 1);
                    E e = vf("printf", {strLit("%i|%s|"), a, b}, [](Interp& in, std::vector<Val>& v) { in.ev(fmt("out %lld|%s|", (long long)v[1].i, v[2].s.c_str())); });
                    call(out, e);
                    return;
                }
                assign(out);
                return;
            }
            case 18:
                if (o.json && !structs.empty() && structs[0].flat) {
                    auto ss = match(Ty{T_STRUCT, 0});
                    if (!ss.empty()) {
                        Var v = ss[pick(ss.size(), "json of")];
                        std::string nm = structs[0].name;
                        put("emit_s(" + nm + "_to_json(" + v.name + "))");
                        charge(60);
                        need(16, 2);
                        auto l = load(v);
                        auto fields = structs[0].f;
                        out.push_back([l, fields](Interp& in) {
                            std::string s = "{";
                            MObj* ob = l(in).o;
                            for (size_t i = 0; i < fields.size(); ++i) { if (i) s += ","; s += "\"" + fields[i].first + "\":" + jsonStr(ob->f[i]).s; }
                            in.ev(show(Val::S(s + "}")));
                            return F_NEXT;
                        });
                        return;
                    }
                }
                assign(out);
                return;
            default:
                if (chance(30, "gc now") && !observer) { put("gc_now()"); charge(3); need(2); out.push_back([](Interp&) { return F_NEXT; }); return; }
                if (!delegates.empty() && chance(60, "delegate")) {
                    auto& dg = delegates[pick(delegates.size(), "which delegate")];
                    if (dg.first->cost * mult < 300 && !observer) {
                        E d0;
                        d0.t = dg.second + "()";
                        d0.ev = [](Interp&) { return Val(); };
                        auto f = dg.first;
                        std::vector<E> as{d0};
                        for (size_t i = 0; i < f->args.size(); ++i) as.push_back(f->recursive && i == 0 ? recArg() : gen(f->args[i], 1));
                        E e = foreign("delegate_" + dgTypes(*f) + "_call", as, [f](Interp& in, std::vector<Val>& v) { std::vector<Val> w(v.begin() + 1, v.end()); return f->call(in, w); });
                        e.cost += f->cost + 12;
                        e.st = std::max(e.st, (int)as.size() * 3 + 2 + f->stack);
                        need(0, f->frames + 3);
                        if (f->ret.k == T_VOID) call(out, e); else out.push_back(emit(f->ret, e));
                        return;
                    }
                }
                assign(out);
        }
    }
    std::vector<std::pair<std::shared_ptr<Fn>, std::string>> delegates;
    std::string dgTypes(const Fn& f) { std::string s; for (auto& a : f.args) s += (s.empty() ? "" : "_") + tyname(a); return s + "_" + tyname(f.ret); }
    E strLit(const std::string& s) { E e; e.t = "\"" + s + "\""; e.ev = [s](Interp&) { return Val::S(s); }; return e; }

    // ---- units -----------------------------------------------------------------------------------
    void beginUnit(bool def) { P.units.emplace_back(); unitIdx = P.units.size() - 1; unit = &P.units.back(); unit->isdef = def; buf.clear(); line = 0; depth = 0; }
    void endUnit(EvS run) { unit = &P.units[unitIdx]; unit->text = buf; unit->run = run; }
    void simpleUnit(const std::string& text) { beginUnit(true); buf = text; endUnit(nullptr); }

    void defFn(const std::string& name, std::vector<Ty> args, Ty ret, bool rec, bool obs, std::function<void(std::vector<EvS>&)> body = nullptr) {
        auto f = std::make_shared<Fn>();
        f->name = name;
        f->args = args;
        f->ret = ret;
        f->recursive = rec;
        f->observer = obs;
        beginUnit(true);
        auto saved = vars;
        std::vector<Var> vis;
        bool so = observer;
        for (auto& v : vars) if (v.glob && (obs ? v.name[0] == 'o' : true)) vis.push_back(v);
        if (obs) { observer = true; noCalls = true; }
        vars = vis;
        fn = f;
        nloc = 0;
        names = 0;
        maxStack = 0;
        maxFrames = 0;
        fnCost = 0;
        double sm = mult;
        mult = 1;
        bool sl = inLoop;
        inLoop = false;
        int sd = depthOfLoops;
        depthOfLoops = 0;
        std::string hdr = "func " + name + "(";
        for (size_t i = 0; i < args.size(); ++i) {
            Var v;
            v.name = rec && i == 0 ? "n" : fmt("a%zu", i);
            v.ty = args[i];
            v.glob = false;
            v.idx = nloc++;
            v.ro = rec && i == 0;
            vars.push_back(v);
            hdr += (i ? ", " : "") + v.name + ": " + tyname(args[i]);
        }
        hdr += ")";
        if (ret.k != T_VOID) hdr += ": " + tyname(ret);
        put(hdr + " {");
        depth = 1;
        std::vector<EvS> b;
        if (body) body(b);
        else {
            int n = 1 + pick(4, "body size");
            if (rec) {
                put("if (n <= 0) {");
                ++depth;
                std::vector<EvS> r;
                returnStmt(r);
                --depth;
                put("}");
                EvS rr = seq(r);
                b.push_back([rr](Interp& in) { return (*in.l)[0].i <= 0 ? rr(in) : F_NEXT; });
            }
            for (int i = 0; i < n; ++i) stmt(b);
            if (rec) {
                // one recursive call, as the last statement
                std::string t = name + "((n - 1)";
                std::vector<EvE> as;
                int st = 2;
                for (size_t i = 1; i < args.size(); ++i) { E e = gen(args[i], 1); t += ", " + e.t; as.push_back(e.ev); st = std::max(st, (int)i + e.st); charge(e.cost); }
                t += ")";
                need(st + 1);
                auto fp = f.get();
                EvE callE = [as, fp](Interp& in) { std::vector<Val> v{Val::I((*in.l)[0].i - 1)}; for (auto& a : as) v.push_back(a(in)); return fp->call(in, v); };
                if (ret.k == T_VOID) { put(t); b.push_back([callE](Interp& in) { callE(in); return F_NEXT; }); put("return;"); b.push_back([](Interp& in) { in.ret = Val(); return F_RET; }); }
                else { put("return " + t); b.push_back([callE](Interp& in) { in.ret = callE(in); return F_RET; }); }
            } else if (ret.k != T_VOID) returnStmt(b);
        }
        depth = 0;
        put("}");
        f->nlocals = nloc;
        int own = (nloc - (int)args.size()) + maxStack;
        f->stack = rec ? 6 * (own + (int)args.size()) : own;
        f->frames = rec ? 6 + maxFrames : 1 + maxFrames;
        f->cost = (rec ? 6 : 1) * (fnCost + 4);
        EvS bs = seq(b.empty() ? std::vector<EvS>{[](Interp&) { return F_NEXT; }} : b);
        int nl = nloc;
        f->call = [bs, nl](Interp& in, std::vector<Val> a) {
            a.resize(nl);
            auto* sv = in.l;
            in.l = &a;
            in.ret = Val();
            Flow fl = bs(in);
            Val r = fl == F_RET ? in.ret : Val();
            in.l = sv;
            return r;
        };
        fn = nullptr;
        vars = saved;
        mult = sm;
        inLoop = sl;
        depthOfLoops = sd;
        observer = so;
        noCalls = false;
        endUnit(nullptr);
        P.fns.push_back(f);
        if (obs) P.observers.push_back(P.fns.size() - 1);
    }
    void run() {
        if (o.long_names && pick(2, "a long name first")) {   // before anything else is in the parser's memory
            std::string n(4000 + pick(1000, "global name"), 'g');
            beginUnit(false);
            buf = n + " := 3\n" + n + " += 1\n" + n + " = " + n + " * 2\n";
            endUnit(nullptr);
        }
        int ns = o.objects ? 1 + pick(3, "structs") : 0;
        // struct names first, so that they can refer to one another
        for (int i = 0; i < ns; ++i) structs.push_back(SD{fmt("S%d", i), {}, true});
        if (o.arrays) arrs.push_back(AD{"arr_int", INT});
        for (int i = 0; i < ns; ++i) {
            int nf = 1 + pick(4, "fields");
            for (int k = 0; k < nf; ++k) {
                Ty t = INT;
                int c = pick(8, "field type");
                if (c == 7) { if (!(i == 0 && o.json)) { structs[i].f.push_back({fmt("f%d", k), ANY}); structs[i].flat = false; continue; } c = 0; }
                if (c == 1 && o.strings) t = STR;
                if (c == 2) t = BOOL;
                if (c == 3 && o.floats && !o.json) t = FLT;
                if (c >= 4 && !(i == 0 && o.json)) { t = Ty{T_STRUCT, (int)pick(ns, "field struct")}; structs[i].flat = false; }
                structs[i].f.push_back({fmt("f%d", k), t});
            }
            P.tynames.push_back(structs[i].name);
        }
        for (auto& s : structs) {
            std::string t = "struct " + s.name + " {\n";
            for (auto& f : s.f) t += "  " + f.first + ": " + tyname(f.second) + "\n";
            simpleUnit(t + "}\n");
        }
        // forward references between structs need them in one compile
        if (ns > 1) {
            std::string all;
            for (int i = 0; i < ns; ++i) all += P.units[P.units.size() - ns + i].text;
            P.units.resize(P.units.size() - ns);
            simpleUnit(all);
        }
        if (o.arrays) {
            if (o.strings && pick(2, "string arrays")) arrs.push_back(AD{"arr_str", STR});
            for (int i = 0; i < ns; ++i) if (pick(2, "struct array")) arrs.push_back(AD{fmt("arr_S%d", i), Ty{T_STRUCT, i}});
            if (pick(2, "array of any")) arrs.push_back(AD{"arr_any", ANY});
            int n0 = arrs.size();
            if (chance(40, "nested array")) { int k = pick(n0, "inner"); arrs.push_back(AD{"arr_arr", Ty{T_ARR, k}}); }
            for (auto& a : arrs) simpleUnit("use array(\"" + tyname(a.elem) + "\") as " + a.name + "\n");
        }
        if (o.dicts) {
            int nd = 1 + pick(2, "dict kinds");
            for (int i = 0; i < nd; ++i) {
                int key = pick(ns ? 4 : 3, "key kind");
                Ty v = chance(25, "any value") ? ANY : pick(2, "value kind") && ns ? Ty{T_STRUCT, (int)pick(ns, "value struct")} : (o.arrays && pick(3, "array value") == 2 ? Ty{T_ARR, (int)pick(arrs.size(), "array type")} : STR);
                dicts.push_back(DD{key, v});
            }
        }
        if (o.boxes) for (int i = 0; i < 2; ++i) boxes.push_back(ns && pick(2, "boxed") ? Ty{T_STRUCT, (int)pick(ns, "boxed struct")} : o.arrays ? Ty{T_ARR, 0} : STR);
        if (o.boxes && !o.ticks && pick(2, "other natives")) {
            things = true;
            simpleUnit("zt0 := thing(0)\nfunc thing_set(k: int) { zt0 = thing(k) }\n");
        }
        if (o.json && ns) simpleUnit("use json(\"S0\")\n");
        if (o.arrays) {
            bool nt = noTick;
            noTick = true;
            defFn("ix_", {INT, INT}, INT, false, false, [&](std::vector<EvS>& b) {
                put("return (((a0 % a1) + a1) % a1)");
                need(6);
                charge(12);
                b.push_back([](Interp& in) { in.ret = Val::I(ixn((*in.l)[0].i, (*in.l)[1].i)); return F_RET; });
            });
            P.fns.back()->observer = true;  // not for random calls
            defFn("at_", {Ty{T_ARR, 0}, INT}, INT, false, false, [&](std::vector<EvS>&) {
                put("k := arr_int_len(a0)");
                put("if (k == 0) { return (-7) }");
                put("return a0[(((a1 % k) + k) % k)]");
                ++nloc;
                need(7);
                charge(30);
            });
            P.fns.back()->observer = true;
            noTick = nt;
        }
        {
            bool nt = noTick;
            noTick = true;
            defFn("tail_", {STR, INT}, STR, false, false, [&](std::vector<EvS>&) {
                put("k := strlen(a0)");
                put("if (k == 0) { return \"\" }");
                put("return substr(a0, (((a1 % k) + k) % k), (-1))");
                ++nloc;
                need(7);
                charge(30);
            });
            P.fns.back()->observer = true;
            noTick = nt;
        }
        if (o.big_strings) {
            int n = 120 + pick(260, "extra literals");
            std::string t = "func bigs_(): str {\n  s := \"\"\n";
            for (int i = 0; i < n; ++i) t += fmt("  s = \"big%d\"\n", i);
            simpleUnit(t + "  return s\n}\n");
            auto f = std::make_shared<Fn>();
            f->name = "bigs_";
            f->ret = STR;
            f->cost = n * 2;
            f->stack = 3;
            std::string last = fmt("big%d", n - 1);
            f->call = [last](Interp&, std::vector<Val>) { return Val::S(last); };
            P.fns.push_back(f);
        }
        if (o.long_names) {
            // names longer than a page of the parser's memory
            auto w = [&](char c, const char* what) { return std::string(200 + pick(9000, what), c); };
            std::string fnm = "f" + w('q', "function name"), an = w('p', "argument name"), ln = w('r', "local name");
            auto f = std::make_shared<Fn>();
            simpleUnit("func " + fnm + "(" + an + ": int): int {\n  " + ln + " := (" + an + " + 1)\n  " + ln + " += " + an + "\n  return " + ln + "\n}\nfunc longs_(a0: int): int { return " + fnm + "(a0) }\n");
            f->name = "longs_";
            f->ret = INT;
            f->args = {INT};
            f->cost = 14;
            f->stack = 8;
            f->frames = 2;
            f->call = [](Interp&, std::vector<Val> a) { return Val::I(2 * a[0].i + 1); };
            P.fns.push_back(f);
        }
        if (o.observers) {
            observer = true;
            beginUnit(false);
            std::vector<EvS> b;
            declare(b, INT);
            declare(b, STR);
            if (ns) declare(b, Ty{T_STRUCT, 0});
            put("emit_s(\"ready\")");
            b.push_back([](Interp& in) { in.ev("\"ready\""); return F_NEXT; });
            observer = false;
            endUnit(seq(b));
            std::vector<Var> og = vars;
            for (int i = 0; i < 3; ++i) {
                bool pure = i == 0;
                if (pure) vars.clear(); else vars = og;
                std::vector<Ty> args{INT};
                if (pick(2, "second arg")) args.push_back(pick(2, "arg kind") ? STR : INT);
                Ty rets[] = {INT, STR, BOOL};
                defFn(fmt("obs%d", i), args, rets[pick(3, "ret")], false, true);
                if (P.fns.back()->stack > 14) discard("observer too large");
            }
            vars.clear();
        }
        int nf = pick(4, "functions") + (o.size > 6 ? 1 : 0);
        std::vector<EvS> b;
        int fi = 0;
        for (int i = 0; i < o.size; ++i) {
            if (fi < nf && (i * nf >= fi * o.size) ) {
                int na = pick(4, "args");
                std::vector<Ty> args;
                bool rec = chance(25, "recursive");
                if (rec) args.push_back(INT);
                for (int k = 0; k < na; ++k) args.push_back(randTy(true));
                Ty ret = pick(5, "void") ? randTy(true) : VOID;
                defFn("fn" + o.prefix + fmt("%d", fi), args, ret, rec, false);
                auto f = P.fns.back();
                if (f->stack > 40 || f->cost > o.maxcost) f->observer = true;  // keep it, but do not call it
                ++fi;
                if (o.delegates && !f->observer && !f->args.empty() && chance(30, "delegate")) {
                    simpleUnit("use delegate(\"" + f->name + "\") as dg_" + f->name + "\n");
                    delegates.push_back({f, "dg_" + f->name});
                }
            }
            beginUnit(false);
            maxStack = 0;
            std::vector<EvS> u;
            stmt(u);
            endUnit(seq(u));
            if (maxStack > 70) discard("program needs too much stack");
            if (maxFrames > 40) discard("program needs too many frames");
        }
        if ((o.arrays || o.dicts) && chance(30, "bulk")) {   // a container that grows
            beginUnit(false);
            std::vector<EvS> u;
            int n = 1 + pick(2, "how often");
            if (match(INT).empty()) declare(u, INT);
            if (match(STR).empty() && o.strings) declare(u, STR);
            bulk = true;
            for (int i = 0; i < n; ++i) {
                bool d = o.dicts && (!o.arrays || pick(2, "dictionary"));
                if (d ? matchK(T_DICT).empty() && matchK(T_DSI).empty() : matchK(T_ARR).empty()) { if (d) dictStmt(u); else arrayStmt(u); }
                if (d) dictStmt(u); else arrayStmt(u);
            }
            bulk = false;
            endUnit(seq(u));
        }
        // show everything at the end
        beginUnit(false);
        std::vector<EvS> u;
        auto all = vars;
        for (auto& v : all) if (v.glob && v.ty.k != T_BOX && v.name[0] == 'g') u.push_back(emit(v.ty, varE(v)));
        if (u.empty()) { put("emit_i(0)"); u.push_back([](Interp& in) { in.ev("0"); return F_NEXT; }); }
        endUnit(seq(u));
    }
};
}  // namespace

Program generate(const GenOpt& o) {
    Program p;
    G g(p, o);
    g.run();
    sig(hash_str(p.text()));
    return p;
}
GenOpt swarm() {
    GenOpt o;
    o.size = 3 + pick(22, "program size");
    o.objects = pick(4, "objects") != 3;
    o.arrays = pick(4, "arrays") != 3;
    o.dicts = pick(3, "dicts") != 2;
    o.strings = pick(5, "strings") != 4;
    o.floats = pick(2, "floats");
    o.boxes = pick(3, "boxes") != 2;
    o.hostcalls = pick(3, "hostcalls") != 2;
    o.delegates = pick(3, "delegates") != 2;
    o.json = chance(20, "json");
    o.big_strings = chance(12, "many literals");
    o.long_names = chance(8, "long names");
    if (chance(8, "names with a common beginning")) { static const int n[] = {7, 15, 31, 63, 64, 127, 255, 300}; o.prefix = std::string(n[pick(8, "how long")], 'n') + "_"; }
    return o;
}
