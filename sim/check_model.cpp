// C16 and C17: arrays and dictionaries against a sequence and a map. One script loop carries out whatever
// operation the simulated host asks for; what every operation reports and what the containers hold is
// compared with the model while collections, block moves, aliases, nested calls and other threads interfere.
#include <math.h>
#include <string.h>
#include <algorithm>
#include "world.h"

namespace {
enum { K_INT, K_FLT, K_BOOL, K_STR, K_OBJ, K_ANY, K_AINT, NK, K_DICT = NK, K_DSI, NKIND };
const char* KN[NKIND] = {"int", "flt", "bool", "str", "Obj", "any", "aint", "dict", "dsi"};
const char* ELEM[NK] = {"int", "float", "bool", "str", "Obj", "any", "array_int"};
enum { SLOTS = 3 };
enum { O_NEW0, O_NEW1, O_NEW3, O_ALIAS, O_PUSH, O_POP, O_SHIFT, O_INSERT, O_REMOVE, O_SETX, O_SETM, O_GETX, O_GETM, O_RESIZE, O_FILL, O_CLEAR, O_LEN, O_ITER, O_OWN, O_MOVE, O_SORT, O_TAKE, O_POP2, NAOP };
const char* AOP[NAOP] = {"new", "new of 1", "new of 3", "alias", "push", "pop", "shift", "insert", "remove", "[]=", "set", "[]", "get", "resize", "resize_fill", "clear", "len", "iterate", "push own element", "move last", "sort", "take nested", "pop into push"};
enum { D_NEW0, D_NEW1, D_NEW3, D_ALIAS, D_PUT, D_GET, D_EXISTS, D_REMOVE, D_CLEAR, D_KEYS, D_VALUES, D_SETX, D_GETX, D_REPUT, NDOP };
const char* DOP[NDOP] = {"new", "new of 1", "new of 3", "alias", "put", "get", "exists", "remove", "clear", "keys", "values", "[]=", "[]", "put of get"};

struct MArr;
struct MDict;
struct MV {
    Tiny_ValueType t = TINY_VAL_NULL;
    int64_t i = 0;
    double f = 0;
    std::string s;
    void* obj = nullptr;
    MArr* a = nullptr;
    MDict* d = nullptr;
};
struct MArr { std::vector<MV> e; void* obj = nullptr; bool prim = false; size_t most = 0; };
struct MDict { std::vector<std::pair<MV, MV>> e; void* obj = nullptr; size_t most = 0; };
MV mi(int64_t x) { MV v; v.t = TINY_VAL_INT; v.i = x; return v; }
bool same(const MV& a, const MV& b) {
    if (a.t != b.t) return false;
    switch (a.t) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return !memcmp(&a.f, &b.f, sizeof a.f);
        case TINY_VAL_STRING: return a.s == b.s;
        default: return a.obj == b.obj;
    }
}
std::string showm(const MV& v) {
    switch (v.t) {
        case TINY_VAL_NULL: return "null";
        case TINY_VAL_BOOL: return v.i ? "true" : "false";
        case TINY_VAL_INT: return fmt("%lld", (long long)v.i);
        case TINY_VAL_FLOAT: return fmt("%.17g", v.f);
        case TINY_VAL_STRING: { std::string o = "\""; for (unsigned char c : v.s.substr(0, 30)) o += c < 32 || c > 126 ? fmt("\\x%02x", c) : std::string(1, c); return o + "\""; }
        case TINY_VAL_STRUCT: return fmt("Obj%lld", (long long)v.i);
        case TINY_VAL_LIGHT_NATIVE: return fmt("i64 %lld", (long long)v.i);
        default: return v.a ? fmt("array of %zu", v.a->e.size()) : fmt("dict of %zu", v.d->e.size());
    }
}
struct Op {
    int kind, code, slot;
    MArr* a = nullptr;
    MDict* d = nullptr;
    std::vector<int64_t> n;
    std::vector<MV> v;       // values and keys in the order they were made
    size_t reps = 0;
};
struct Mod {
    ThreadHost* t;
    int id;
    MArr* arr[NK][SLOTS];
    MDict* dic[2][SLOTS];
    std::vector<Op> ops;
    int left = 0;            // operations to go
    int burst = 0, bkind = 0, bcode = 0, bslot = 0, stay = 0;
    int64_t seq = 0;
    int nobj = 0;
    int focus;
    bool finished = false, big = false;
};
std::map<Tiny_StateThread*, Mod*>* g_mods;
Mod* M(Tiny_StateThread* t) { return (*g_mods)[t]; }
int g_dispatch, g_focus;
// For C04 and C05 only collections are judged here: containers that misbehave by themselves are C16 and C17.
[[noreturn]] void wrong(const std::string& cls, const std::string& detail) {
    if (g_focus < 16) discard("a container misbehaves");
    violate(cls, detail);
}
u64 g_sig;

Tiny_Value raw_int(int64_t x) { Tiny_Value v = Tiny_NewInt(0); v.i = x; return v; }
const char* lasting(const std::string& s) { static std::set<std::string> pool; return pool.insert(s).first->c_str(); }

// ---- real values against the model ------------------------------------------------------------
std::set<std::pair<void*, int>> g_compared;
std::string diff_in(const MV& m, const Tiny_Value& v, int depth);
bool quick_same(const MV& m, const Tiny_Value& v) {   // false only when they differ
    if (m.t == TINY_VAL_STRING) return v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING;
    if (m.t != v.type) return false;
    if (m.t == TINY_VAL_INT) return m.i == v.i;
    if (m.t == TINY_VAL_STRUCT || m.t == TINY_VAL_NATIVE) return m.obj == v.obj;
    return true;
}
std::string arr_differs(const MArr& m, Array* a, int depth) {
    if (ArrayLen(a) != (int)m.e.size()) return fmt("it has %d elements, it should have %zu", ArrayLen(a), m.e.size());
    if (depth > 0) for (size_t i = 0; i < m.e.size(); ++i) {
        std::string d = diff_in(m.e[i], *ArrayGet(a, i), depth - 1);
        if (!d.empty()) return fmt("element %zu of %zu: ", i, m.e.size()) + d;
    }
    return "";
}
std::string dict_differs(const MDict& m, Dict* d, int depth) {
    if (depth > 0) for (auto& p : m.e) {
        Tiny_Value k = Tiny_Null;
        std::string tmp;
        k.type = p.first.t;
        if (k.type == TINY_VAL_BOOL) k.boolean = p.first.i;
        else if (k.type == TINY_VAL_INT) k.i = p.first.i;
        else if (k.type == TINY_VAL_STRING) { if (memchr(p.first.s.data(), 0, p.first.s.size())) continue; k = Tiny_NewConstString(lasting(p.first.s)); }
        else if (k.type == TINY_VAL_FLOAT) k.f = p.first.f;
        else if (k.type == TINY_VAL_LIGHT_NATIVE) k.addr = p.first.obj;
        else k.obj = (Tiny_Object*)p.first.obj;
        const Tiny_Value* g = DictGet(d, k);
        if (!g) return "no value for key " + showm(p.first);
        std::string x = diff_in(p.second, *g, depth - 1);
        if (!x.empty()) return "value for key " + showm(p.first) + ": " + x;
    }
    return "";
}
std::string diff_in(const MV& m, const Tiny_Value& v, int depth) {
    auto bad = [&]() { return "is " + showv(v, 1) + ", should be " + showm(m); };
    if (m.t == TINY_VAL_STRING) {
        if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_CONST_STRING) return bad();
        size_t n = Tiny_StringLen(v);
        return n == m.s.size() && !memcmp(Tiny_ToString(v), m.s.data(), n) ? "" : bad();
    }
    if (v.type != m.t) return bad();
    switch (m.t) {
        case TINY_VAL_NULL: return "";
        case TINY_VAL_BOOL: return v.boolean == (m.i != 0) ? "" : bad();
        case TINY_VAL_INT: return v.i == m.i ? "" : bad();
        case TINY_VAL_FLOAT: return !memcmp(&v.f, &m.f, sizeof m.f) ? "" : bad();
        case TINY_VAL_LIGHT_NATIVE: return v.addr == m.obj ? "" : bad();
        case TINY_VAL_STRUCT: {
            if (v.obj != m.obj) return "is another object than " + showm(m);
            Tiny_Value id = Tiny_GetField(v, 0);
            return id.type == TINY_VAL_INT && id.i == m.i ? "" : bad();
        }
        case TINY_VAL_NATIVE: {
            if (v.obj != m.obj) return "is another object than " + showm(m);
            if (depth <= 0 || !g_compared.insert({m.obj, depth}).second) return "";
            return m.a ? arr_differs(*m.a, (Array*)Tiny_ToAddr(v), depth) : dict_differs(*m.d, (Dict*)Tiny_ToAddr(v), depth);
        }
        default: return bad();
    }
}
std::string differs(const MV& m, const Tiny_Value& v, int depth) {
    g_compared.clear();
    return diff_in(m, v, depth);
}
Tiny_Value slot_of(Mod* m, int kind, int s) {
    Tiny_Value g = Tiny_GetGlobal(m->t->th, Tiny_GetGlobalIndex(m->t->th->state, fmt("sl_%s", KN[kind]).c_str()));
    return *ArrayGet((Array*)Tiny_ToAddr(g), s);
}
std::string describe(const Op& o) {
    std::string s = fmt("%s %s %s[%d]", o.kind < NK ? "array" : "dict", o.kind < NK ? AOP[o.code] : DOP[o.code], KN[o.kind], o.slot);
    for (auto n : o.n) s += fmt(" %lld", (long long)n);
    for (auto& v : o.v) s += " " + showm(v);
    return s;
}
std::string prop(Mod* m, int kind) { (void)m; return kind < NK ? "array" : "dict"; }
void broken(Mod* m, const Op& o, const std::string& cls, const std::string& what) {
    wrong(prop(m, o.kind) + ":" + cls, fmt("thread %d, %s: ", m->id, describe(o).c_str()) + what);
}
// what a container occupies is in proportion to the most elements it ever held
void modest(Mod* m, const Op& o, int kind, int s, size_t now, size_t& most, Array* a, int per) {
    most = std::max(most, now + 1);
    if (!a->data || !now) return;
    SimHeap* h = heap_of(a->data);
    SimHeap::Block* b = h ? h->around(a->data) : nullptr;
    if (!b || b->size <= (per * most + 256) * sizeof(Tiny_Value)) return;
    wrong(std::string(kind < NK ? "array:" : "dict:") + "memory", fmt("thread %d, after %s: %s %d occupies %zu bytes and never held more than %zu elements", m->id, describe(o).c_str(), KN[kind], s, b->size, most));
}
void verify(Mod* m, const Op& o) {
    for (int k = 0; k < NK; ++k) for (int s = 0; s < SLOTS; ++s) {
        if (o.kind != k && (m->focus == 17) != (k == K_ANY || k == K_STR) && (m->seq + k) % 5) continue;
        Tiny_Value v = slot_of(m, k, s);
        MV x;
        x.t = TINY_VAL_NATIVE; x.a = m->arr[k][s]; x.obj = x.a->obj;
        modest(m, o, k, s, x.a->e.size(), x.a->most, (Array*)Tiny_ToAddr(v), 8);
        std::string d = differs(x, v, 3);
        if (!d.empty()) wrong(std::string("array:") + (o.kind < NK ? AOP[o.code] : "contents"), fmt("thread %d, after %s, array_%s %d: ", m->id, describe(o).c_str(), KN[k], s) + d);
    }
    for (int k = 0; k < 2; ++k) for (int s = 0; s < SLOTS; ++s) {
        if (o.kind != NK + k && (m->seq + k) % 5) continue;
        Tiny_Value v = slot_of(m, NK + k, s);
        MV x;
        x.t = TINY_VAL_NATIVE; x.d = m->dic[k][s]; x.obj = x.d->obj;
        modest(m, o, NK + k, s, x.d->e.size(), x.d->most, &((Dict*)Tiny_ToAddr(v))->keys, 16);
        if (x.d->e.size() > 60 && (m->seq % 8)) continue;
        std::string d = differs(x, v, 2);
        if (!d.empty()) wrong(std::string("dict:") + (o.kind >= NK ? DOP[o.code] : "contents"), fmt("thread %d, after %s, %s %d: ", m->id, describe(o).c_str(), KN[NK + k], s) + d);
    }
}

// ---- values ------------------------------------------------------------------------------------
void objects(Mod* m, std::vector<MV>& objs, std::vector<MV>& nats) {
    std::set<void*> seen;
    auto add = [&](const MV& v) {
        if (v.t == TINY_VAL_STRUCT && seen.insert(v.obj).second) objs.push_back(v);
    };
    for (int k = 0; k < NK; ++k) for (int s = 0; s < SLOTS; ++s) {
        MArr* a = m->arr[k][s];
        if (seen.insert(a->obj).second) { MV v; v.t = TINY_VAL_NATIVE; v.a = a; v.obj = a->obj; nats.push_back(v); }
        if (k == K_OBJ || k == K_ANY) for (auto& x : a->e) add(x);
    }
    for (int k = 0; k < 2; ++k) for (int s = 0; s < SLOTS; ++s) {
        MDict* d = m->dic[k][s];
        if (seen.insert(d->obj).second) { MV v; v.t = TINY_VAL_NATIVE; v.d = d; v.obj = d->obj; nats.push_back(v); }
        if (k == 0) for (auto& p : d->e) { add(p.first); add(p.second); }
    }
}
std::string some_string(Mod* m) {
    static const char* pool[] = {"", "a", "ab", "bA", "abab", "bAbA", "abbA", "bAab", "key", "k1", "k2", "x", "a longer string than fits anywhere", "a longer string than fits anywherf", "a longer string than fits elsewhere", "the same seventeen", "the same sevensix!", "a longer string than fits anywhere at all, which is longer than sixty-four bytes 1", "a longer string than fits anywhere at all, which is longer than sixty-four bytes 2", "\xff\xfe", "\x80", "0", "1", "null"};
    int k = pick(34, "string");
    if (k < 24) return pool[k];
    if (k < 27) return fmt("s%lld", (long long)(m->seq % 97));
    if (k == 33) return std::string(pick(2, "how long") ? 1500 : 300, 'l') + "ab"[pick(2, "end")];
    static const std::string nul[] = {std::string("a\0b", 3), std::string("a\0c", 3), std::string("a\0", 2), std::string("\0", 1)};
    return nul[pick(4, "string with a zero byte")];
}
std::string near_string(Mod* m, MDict* d) {   // as long as a key which is there, and different in one byte
    std::string x;
    for (int i = 0, at = pick(d->e.size(), "existing key"); i < 12 && i < (int)d->e.size(); ++i) {   // a long one, if there is one near
        const MV& w = d->e[(at + i) % d->e.size()].first;
        if (w.t == TINY_VAL_STRING && w.s.size() > x.size()) x = w.s;
    }
    if (x.empty()) return some_string(m);
    x[pick(x.size(), "byte which differs")] ^= 1 + pick(3, "by");
    return x;
}
int64_t some_int(Mod* m) {
    static const int64_t pool[] = {0, 1, 2, -1, 31, 30, 32, 63, 62, 64, 95, 127, 128, 1000, -31, 1ll << 31, -(1ll << 31), 1ll << 32, (1ll << 32) + 1, 5000000000ll, -5000000000ll, INT64_MAX, INT64_MIN, INT64_MIN + 1};
    int k = pick(34, "integer");
    if (k < 24) return pool[k];
    if (k < 28) return 31 + 32 * (int64_t)pick(12, "collides");
    return m->seq % 211;
}
Tiny_Value give_string(Mod* m, const std::string& s) {
    bool lit = s.find('\0') == std::string::npos && pick(2, "literal");
    if (!lit && s.find('\0') == std::string::npos && s.size() % 2) return Tiny_NewStringCopyNullTerminated(m->t->th, s.c_str());
    return lit ? Tiny_NewConstString(lasting(s)) : Tiny_NewStringCopy(m->t->th, s.data(), s.size());
}
Tiny_Value give(Mod* m, int kind, MV& out, bool key = false) {
    switch (kind) {
        case K_INT: out = mi(some_int(m)); return raw_int(out.i);
        case K_FLT: {
            static const double pool[] = {0, 1.5, -0.0, 1e300, -2.25, INFINITY, NAN, 3};
            out.t = TINY_VAL_FLOAT; out.f = pool[pick(8, "float")];
            return Tiny_NewFloat(out.f);
        }
        case K_BOOL: out.t = TINY_VAL_BOOL; out.i = pick(2, "bool"); return Tiny_NewBool(out.i);
        case K_STR: out.t = TINY_VAL_STRING; out.s = some_string(m); return give_string(m, out.s);
        case K_AINT: {
            out.t = TINY_VAL_NATIVE; out.a = m->arr[K_INT][pick(SLOTS, "which array")]; out.obj = out.a->obj;
            break;
        }
        case K_OBJ: case K_ANY: {
            std::vector<MV> objs, nats;
            int c = kind == K_OBJ ? 9 : pick(12, "any");
            if (c < 3) return give(m, K_INT, out);
            if (c < 6) return give(m, K_STR, out);
            if (c == 6) return give(m, K_BOOL, out);
            if (c == 7 && pick(2, "i64")) { out.t = TINY_VAL_LIGHT_NATIVE; out.i = some_int(m); out.obj = (void*)(intptr_t)out.i; return Tiny_NewLightNative(out.obj); }
            if (c == 7 && key) { give(m, K_FLT, out); if (out.f != out.f || out.f == 0) out.f = pick(2, "negative zero") ? -0.0 : 0.0; return Tiny_NewFloat(out.f); }
            if (c == 7) { if (pick(2, "null")) { out = MV(); return Tiny_Null; } return give(m, K_FLT, out); }
            objects(m, objs, nats);
            if (c < 11 && !objs.empty()) out = objs[pick(objs.size(), "object")];
            else if (kind == K_OBJ) harness_error("no object to give");
            else out = nats[pick(nats.size(), "container")];
            break;
        }
    }
    Tiny_Value v = Tiny_Null;
    v.type = out.t;
    v.obj = (Tiny_Object*)out.obj;
    return v;
}

// ---- operations ---------------------------------------------------------------------------------
bool feasible(Mod* m, int kind, int code, int slot, bool nested) {
    if (kind >= NK) {
        MDict* d = m->dic[kind - NK][slot];
        if (kind == K_DSI) {
            if (code == D_VALUES || code == D_SETX || code == D_GETX) return false;
            if (code == D_GET || code == D_REPUT) return !d->e.empty();   // a missing int has no value
        }
        if (code == D_REPUT) return !d->e.empty();
        return true;
    }
    MArr* a = m->arr[kind][slot];
    size_t n = a->e.size();
    if (nested && (code == O_POP || code == O_SHIFT || code == O_REMOVE || code == O_RESIZE || code == O_FILL || code == O_CLEAR || code == O_MOVE || code == O_POP2)) return false;
    switch (code) {
        case O_POP: case O_SHIFT: case O_INSERT: case O_REMOVE: case O_SETX: case O_SETM: case O_GETX: case O_GETM: case O_OWN: case O_MOVE: case O_POP2: return n > 0;
        case O_SORT: if (kind != K_INT) return false; for (auto& x : a->e) if (x.t != TINY_VAL_INT) return false; return true;
        case O_TAKE: if (kind != K_AINT || !n) return false; for (auto& x : a->e) if (x.t != TINY_VAL_NATIVE) return false; return true;
    }
    return true;
}
void choose(Mod* m, bool nested) {
    Op o;
    for (int tries = 0;; ++tries) {
        if (tries > 40) { o.kind = K_INT; o.code = O_LEN; o.slot = 0; break; }
        if (m->burst > 0 && !nested) { --m->burst; o.kind = m->bkind; o.code = m->bcode; o.slot = m->bslot; }
        else if (m->stay > 0 && !nested && (--m->stay, pick(2, "same container"))) {
            o.kind = m->bkind; o.slot = m->bslot;
            o.code = o.kind == K_INT && pick(3, "sort it") == 2 ? (int)O_SORT : (int)pick(o.kind >= NK ? NDOP : NAOP, "operation");
        } else {
            bool dict = pick(5, "container kind") >= (m->focus == 17 ? 1u : 4u);
            o.kind = dict ? (pick(4, "dict kind") == 3 ? K_DSI : K_DICT) : (int)pick(NK, "array kind");
            o.code = pick(dict ? NDOP : NAOP, "operation");
            o.slot = pick(SLOTS, "slot");
            if ((o.code == (dict ? D_NEW0 : O_NEW0) || o.code == (dict ? D_CLEAR : O_CLEAR)) && pick(3, "really")) continue;
            if (!nested && pick(12, "repeat") == 11) {
                static const int pref[] = {O_PUSH, O_INSERT, O_REMOVE, O_SHIFT, O_POP, O_FILL}, dpref[] = {D_PUT, D_PUT, D_REMOVE, D_REMOVE, D_SETX, D_PUT};
                o.code = dict ? dpref[pick(6, "repeated")] : pref[pick(6, "repeated")];
                m->burst = 3 + pick(45, "times");
                if (!dict && (o.code == O_PUSH || o.code == O_INSERT) && pick(2, "up to a power of two")) {
                    size_t n = m->arr[o.kind][o.slot]->e.size(), b = 8;
                    while (b < n + 3) b *= 2;
                    if (b <= 32 && pick(2, "the next")) b *= 2;
                    m->burst = b - n - 2 + pick(3, "beside");
                }
                m->stay = 4;
                m->bkind = o.kind; m->bcode = o.code; m->bslot = o.slot;
            }
        }
        if (feasible(m, o.kind, o.code, o.slot, nested)) break;
        m->burst = 0;
    }
    ++m->seq;
    if (o.kind < NK) o.a = m->arr[o.kind][o.slot]; else o.d = m->dic[o.kind - NK][o.slot];
    m->ops.push_back(o);
    static const int gcs[] = {1 << 30, 0, 0, 1, 8, 40};
    if (pick(4, "touch the threshold") == 3) m->t->th->maxNumObjects = gcs[pick(6, "threshold")];
}
bool key_eq(const MV& a, const MV& b) { return a.t == TINY_VAL_FLOAT && b.t == TINY_VAL_FLOAT ? a.f == b.f : same(a, b); }
MV* find(MDict* d, const MV& k) { for (auto& p : d->e) if (key_eq(p.first, k)) return &p.second; return nullptr; }
void put(MDict* d, const MV& k, const MV& v) { if (MV* p = find(d, k)) *p = v; else d->e.push_back({k, v}); }
MArr* adopt(Mod* m, int kind, int slot, const std::vector<MV>& want, Op& o) {   // an array whose order the library chose
    Tiny_Value v = slot_of(m, kind, slot);
    Array* a = (Array*)Tiny_ToAddr(v);
    MArr* r = new MArr();
    r->obj = v.obj;
    std::vector<MV> left = want;
    if (ArrayLen(a) != (int)left.size()) broken(m, o, DOP[o.code], fmt("gives %d, there are %zu", ArrayLen(a), left.size()));
    for (int i = 0; i < ArrayLen(a); ++i) {
        size_t j = 0;
        while (j < left.size() && (!quick_same(left[j], *ArrayGet(a, i)) || !differs(left[j], *ArrayGet(a, i), 0).empty())) ++j;
        if (j == left.size()) broken(m, o, DOP[o.code], "gives " + showv(*ArrayGet(a, i), 1) + ", which is not there (any more)");
        r->e.push_back(left[j]);
        left.erase(left.begin() + j);
    }
    return r;
}
void apply(Mod* m) {
    Op o = m->ops.back();
    m->ops.pop_back();
    trace("%d %s", m->id, describe(o).c_str());
    g_sig = g_sig * 1099511628211ull ^ (o.kind * 131 + o.code * 7 + o.slot + (o.kind < NK ? o.a->e.size() : o.d->e.size()) * 977);
    count(o.kind < NK ? fmt("array %s", AOP[o.code]).c_str() : fmt("dict %s", DOP[o.code]).c_str());
    if (o.kind < NK) {
        auto& e = o.a->e;
        switch (o.code) {
            case O_NEW0: case O_NEW1: case O_NEW3: {
                MArr* a = new MArr();
                a->e = o.v;
                a->obj = slot_of(m, o.kind, o.slot).obj;
                m->arr[o.kind][o.slot] = a;
                break;
            }
            case O_ALIAS: m->arr[o.kind][o.slot] = m->arr[o.kind][o.n[0]]; break;
            case O_PUSH: e.push_back(o.v[0]); break;
            case O_POP: case O_SHIFT: break;   // done with the report
            case O_INSERT: e.insert(e.begin() + o.n[0], o.v[0]); break;
            case O_REMOVE: e.erase(e.begin() + o.n[0]); break;
            case O_SETX: case O_SETM: e[o.n[0]] = o.v[0]; break;
            case O_RESIZE: e.resize(o.n[0], MV()); break;
            case O_FILL: e.resize(o.n[0], o.v[0]); break;
            case O_CLEAR: e.clear(); break;
            case O_OWN: e.push_back(MV(e[o.n[0]])); break;
            case O_MOVE: { MV x = e.back(); e.pop_back(); m->arr[o.kind][o.n[0]]->e.push_back(x); break; }
            case O_POP2: { MV x = e.back(); e.pop_back(); e.push_back(x); break; }
            case O_SORT: std::sort(e.begin(), e.end(), [](const MV& a, const MV& b) { return a.i < b.i; }); break;
            case O_TAKE: m->arr[K_INT][o.n[0]] = e[o.n[1]].a; break;
        }
        size_t want = o.code == O_GETX || o.code == O_GETM || o.code == O_LEN || o.code == O_POP || o.code == O_SHIFT ? 1 : o.code == O_ITER ? e.size() : 0;
        if (o.reps != want) broken(m, o, "reports", fmt("%zu reports instead of %zu", o.reps, want));
    } else {
        auto& d = *o.d;
        switch (o.code) {
            case D_NEW0: case D_NEW1: case D_NEW3: {
                MDict* x = new MDict();
                for (size_t i = 0; i + 1 < o.v.size(); i += 2) put(x, o.v[i], o.v[i + 1]);
                x->obj = slot_of(m, o.kind, o.slot).obj;
                m->dic[o.kind - NK][o.slot] = x;
                break;
            }
            case D_ALIAS: m->dic[o.kind - NK][o.slot] = m->dic[o.kind - NK][o.n[0]]; break;
            case D_PUT: case D_SETX: put(&d, o.v[0], o.v[1]); break;
            case D_REPUT: { MV* x = find(&d, o.v[1]); put(&d, o.v[0], x ? *x : MV()); break; }
            case D_REMOVE: for (size_t i = 0; i < d.e.size(); ++i) if (key_eq(d.e[i].first, o.v[0])) { d.e.erase(d.e.begin() + i); break; } break;
            case D_CLEAR: d.e.clear(); break;
            case D_KEYS: case D_VALUES: {
                std::vector<MV> w;
                for (auto& p : d.e) w.push_back(o.code == D_KEYS ? p.first : p.second);
                int kind = o.kind == K_DSI ? K_STR : K_ANY;
                m->arr[kind][o.n[0]] = adopt(m, kind, o.n[0], w, o);
                break;
            }
        }
        size_t want = o.code == D_GET || o.code == D_EXISTS || o.code == D_GETX ? 1 : 0;
        if (o.reps != want) broken(m, o, "reports", fmt("%zu reports instead of %zu", o.reps, want));
    }
    verify(m, o);
}
void host_many(Mod* m) {   // many distinct elements or keys at once
    int n = 50 + pick(pick(3, "how many") == 2 ? 3000 : 300, "many"), s = pick(SLOTS, "slot");
    Rng rng(derive("many values"));
    if (pick(2, "many into")) {
        int kind = pick(2, "array") ? K_STR : K_INT;
        MArr* a = m->arr[kind][s];
        Array* r = (Array*)Tiny_ToAddr(slot_of(m, kind, s));
        Op o; o.kind = kind; o.slot = s; o.a = a; o.code = O_PUSH;
        for (int i = 0; i < n; ++i) {
            MV v = mi((int64_t)(rng.next() >> 40) - (1 << 23));
            Tiny_Value tv = raw_int(v.i);
            if (kind == K_STR) { v.s = fmt("%lld", (long long)v.i); v.t = TINY_VAL_STRING; tv = Tiny_NewStringCopy(m->t->th, v.s.data(), v.s.size()); }
            ArrayPush(r, tv);
            a->e.push_back(v);
        }
        trace("%d host pushes %d onto %s %d", m->id, n, KN[kind], s);
        verify(m, o);
    } else {
        static const int64_t strides[] = {1, 31, 32, 64, 1024, 1ll << 20, 1ll << 32, -1, 7919};
        int64_t stride = strides[pick(9, "stride")], base = some_int(m);
        bool str = pick(3, "string keys") == 2;
        MDict* d = m->dic[0][s];
        Dict* r = (Dict*)Tiny_ToAddr(slot_of(m, K_DICT, s));
        Op o; o.kind = K_DICT; o.slot = s; o.d = d; o.code = D_PUT;
        int gc = m->t->th->maxNumObjects;
        for (int i = 0; i < n; ++i) {
            MV k = mi((int64_t)((u64)base + (u64)stride * i));
            Tiny_Value tk = raw_int(k.i);
            if (str) {
                k.s = fmt("key %lld", (long long)k.i); k.t = TINY_VAL_STRING;
                tk = Tiny_NewStringCopy(m->t->th, k.s.data(), k.s.size());
            }
            MV v = mi(i);
            DictSet(r, tk, raw_int(i));
            put(d, k, v);
        }
        m->t->th->maxNumObjects = gc;
        trace("%d host puts %d keys into dict %d, from %lld by %lld", m->id, n, s, (long long)base, (long long)stride);
        verify(m, o);
    }
    count("host adds many at once");
}
void host_op(Mod* m) {   // the host uses the container functions itself
    if (m->big && pick(3, "many at once") == 2) return host_many(m);
    if (pick(2, "host operation on")) {
        static const int hostk[] = {K_INT, K_ANY, K_STR, K_FLT, K_BOOL};
        int kind = hostk[pick(5, "array")], s = pick(SLOTS, "slot");
        MArr* a = m->arr[kind][s];
        Array* r = (Array*)Tiny_ToAddr(slot_of(m, kind, s));
        size_t n = a->e.size();
        Op o; o.kind = kind; o.slot = s; o.a = a;
        static const int codes[] = {O_PUSH, O_POP, O_SHIFT, O_INSERT, O_REMOVE, O_SETX, O_RESIZE, O_CLEAR};
        o.code = codes[pick(8, "host array operation")];
        if (!n && o.code != O_PUSH && o.code != O_RESIZE && o.code != O_CLEAR) return;
        MV v;
        Tiny_Value tv = Tiny_Null, got = Tiny_Null;
        if (o.code == O_PUSH || o.code == O_INSERT || o.code == O_SETX || o.code == O_RESIZE) { tv = give(m, kind, v); o.v.push_back(v); }
        int at = o.code == O_RESIZE ? pick(n + 6, "new length") : n ? pick(n, "index") : 0;
        auto& e = a->e;
        switch (o.code) {
            case O_PUSH: ArrayPush(r, tv); e.push_back(v); break;
            case O_POP: ArrayPop(r, &got); v = e.back(); e.pop_back(); if (!differs(v, got, 1).empty()) broken(m, o, AOP[o.code], differs(v, got, 1)); break;
            case O_SHIFT: ArrayShift(r, &got); v = e[0]; e.erase(e.begin()); if (!differs(v, got, 1).empty()) broken(m, o, AOP[o.code], differs(v, got, 1)); break;
            case O_INSERT: ArrayInsert(r, at, tv); e.insert(e.begin() + at, v); break;
            case O_REMOVE: ArrayRemove(r, at); e.erase(e.begin() + at); break;
            case O_SETX: ArraySet(r, at, tv); e[at] = v; break;
            case O_RESIZE: ArrayResize(r, at, tv); e.resize(at, v); break;
            case O_CLEAR: ArrayClear(r); e.clear(); break;
        }
        count("host array operation");
        trace("%d host %s", m->id, describe(o).c_str());
        verify(m, o);
    } else {
        int s = pick(SLOTS, "slot");
        MDict* d = m->dic[0][s];
        Dict* r = (Dict*)Tiny_ToAddr(slot_of(m, K_DICT, s));
        Op o; o.kind = K_DICT; o.slot = s; o.d = d;
        static const int codes[] = {D_PUT, D_PUT, D_GET, D_REMOVE, D_CLEAR};
        o.code = codes[pick(5, "host dict operation")];
        if (o.code == D_CLEAR && pick(3, "really")) return;
        MV k, v;
        int gc = m->t->th->maxNumObjects;
        Tiny_Value tk = give(m, K_ANY, k, true), tv = Tiny_Null;
        if (k.t == TINY_VAL_NULL) return;
        o.v.push_back(k);
        switch (o.code) {
            case D_PUT: tv = give(m, K_ANY, v); o.v.push_back(v); DictSet(r, tk, tv); put(d, k, v); break;
            case D_GET: {
                const Tiny_Value* g = DictGet(r, tk);
                MV* w = find(d, k);
                if ((g != nullptr) != (w != nullptr)) broken(m, o, "get", g ? "finds a value for an absent key" : "finds no value");
                if (w && !differs(*w, *g, 1).empty()) broken(m, o, "get", differs(*w, *g, 1));
                break;
            }
            case D_REMOVE: DictRemove(r, tk); for (size_t i = 0; i < d->e.size(); ++i) if (key_eq(d->e[i].first, k)) { d->e.erase(d->e.begin() + i); break; } break;
            case D_CLEAR: DictClear(r); d->e.clear(); break;
        }
        m->t->th->maxNumObjects = gc;
        count("host dict operation");
        trace("%d host %s", m->id, describe(o).c_str());
        verify(m, o);
    }
}

// ---- what the script calls --------------------------------------------------------------------------
#define FF(name) static Tiny_Value name(Tiny_StateThread* thread, const Tiny_Value* args, int count_)
FF(MMore) {
    Mod* m = M(thread);
    if (m->left <= 0) return Tiny_NewBool(false);
    --m->left;
    hang_limit(m->big ? 400000000 : 3000000, "operation");
    if (pick(6, "host operation") == 5) host_op(m);
    choose(m, false);
    return Tiny_NewBool(true);
}
FF(MKind) { return Tiny_NewInt(M(thread)->ops.back().kind); }
FF(MCode) { return Tiny_NewInt(M(thread)->ops.back().code); }
FF(MSlot) { return Tiny_NewInt(M(thread)->ops.back().slot); }
FF(MDone) { apply(M(thread)); return Tiny_Null; }
FF(MN1) {
    Mod* m = M(thread);
    Op& o = m->ops.back();
    int64_t r = 0;
    size_t n = o.a ? o.a->e.size() : 0;
    if (o.kind >= NK) r = pick(SLOTS, "slot");
    else switch (o.code) {
        case O_ALIAS: case O_MOVE: r = pick(SLOTS, "slot"); break;
        case O_TAKE: r = o.n.empty() ? pick(SLOTS, "slot") : pick(n, "index"); break;
        case O_RESIZE: case O_FILL: { int k = pick(5, "new length"); if (k == 4) { static const int ls[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 191, 255}; r = ls[pick(18, "boundary")]; break; } if (m->big && n < 3000 && k == 3) { r = pick(4, "huge") == 3 && o.kind != K_AINT ? 32700 + pick(40000, "huge length") : 200 + pick(2000, "large length"); break; } r = k == 0 ? n : k == 1 ? pick(n + 1, "shorter") : n + 1 + pick(k == 2 ? 8 : 40, "longer"); break; }
        default: { int k = pick(3, "index"); r = k == 0 ? 0 : k == 1 ? n - 1 : pick(n, "index"); }
    }
    o.n.push_back(r);
    return Tiny_NewInt((int)r);
}
void nested(Mod* m) {
    if (m->ops.size() > 3) return;
    Op& o = m->ops.back();
    bool fits = o.kind >= NK || o.code == O_PUSH || o.code == O_NEW1 || o.code == O_NEW3 || o.code == O_INSERT || o.code == O_SETX || o.code == O_SETM || o.code == O_FILL;
    if (!fits || pick(14, "nested operation") != 13) return;
    choose(m, true);
    Op& p = m->ops.back();
    Tiny_Value a[3] = {Tiny_NewInt(p.kind), Tiny_NewInt(p.code), Tiny_NewInt(p.slot)};
    count("nested operation");
    int depth = m->ops.size();
    Tiny_CallFunction(m->t->th, g_dispatch, a, 3);
    if ((int)m->ops.size() != depth) harness_error("operations do not nest");
    apply(m);
}
template <int KIND> Tiny_Value MVal(Tiny_StateThread* thread, const Tiny_Value* args, int n) {
    Mod* m = M(thread);
    if (KIND != K_OBJ) nested(m);   // that one was preceded by coin()
    MV v;
    Tiny_Value r = give(m, KIND, v);
    m->ops.back().v.push_back(v);
    return r;
}
FF(MKey) {
    Mod* m = M(thread);
    Op& o = m->ops.back();
    MV v;
    Tiny_Value r;
    int there = pick(4, "key there");
    if (m->burst && o.kind == K_DICT && o.code == D_PUT) { v = mi(m->bslot + (m->bcode & 1 ? 32 : 1) * (int64_t)m->burst + pick(3, "near")); r = raw_int(v.i); }
    else if ((there == 3 || (o.code == D_REMOVE && there)) && !o.d->e.empty()) {
        v = o.d->e[pick(o.d->e.size(), "existing key")].first;
        r = Tiny_Null;
        r.type = v.t;
        if (v.t == TINY_VAL_INT) r.i = v.i;
        else if (v.t == TINY_VAL_BOOL) r.boolean = v.i;
        else if (v.t == TINY_VAL_STRING) r = give_string(m, v.s);
        else if (v.t == TINY_VAL_FLOAT) r.f = v.f;
        else if (v.t == TINY_VAL_LIGHT_NATIVE) r.addr = v.obj;
        else r.obj = (Tiny_Object*)v.obj;
    } else if (there == 2 && o.d && !o.d->e.empty() && pick(2, "like one that is there")) {
        v.t = TINY_VAL_STRING;
        v.s = near_string(m, o.d);
        r = give_string(m, v.s);
    } else { r = give(m, K_ANY, v, true); if (v.t == TINY_VAL_NULL) { v = mi(1); r = raw_int(1); } }
    o.v.push_back(v);
    return r;
}
FF(MKeyS) {   // a string key; one that is there for what needs it
    Mod* m = M(thread);
    Op& o = m->ops.back();
    MV v;
    v.t = TINY_VAL_STRING;
    bool must = o.kind == K_DSI && (o.code == D_GET || (o.code == D_REPUT && o.v.size() == 1));
    if (must || (o.kind == K_DSI && !o.d->e.empty() && pick(3, "key there") == 2)) v = o.d->e[pick(o.d->e.size(), "existing key")].first;
    else if (m->burst && o.code != D_REMOVE) v.s = fmt("%s%d", pick(2, "prefix") ? "ab" : "bA", m->burst + (int)pick(3, "near"));
    else if (!must && o.kind == K_DSI && !o.d->e.empty() && pick(4, "like one that is there") == 3) v.s = near_string(m, o.d);
    else v.s = some_string(m);
    o.v.push_back(v);
    return give_string(m, v.s);
}
FF(MKeyOld) {   // the key for put of get
    Mod* m = M(thread);
    Op& o = m->ops.back();
    MV v = o.d->e[pick(o.d->e.size(), "existing key")].first;
    o.v.push_back(v);
    Tiny_Value r = Tiny_Null;
    r.type = v.t;
    if (v.t == TINY_VAL_INT) r.i = v.i;
    else if (v.t == TINY_VAL_BOOL) r.boolean = v.i;
    else if (v.t == TINY_VAL_STRING) r = give_string(m, v.s);
    else if (v.t == TINY_VAL_FLOAT) r.f = v.f;
    else if (v.t == TINY_VAL_LIGHT_NATIVE) r.addr = v.obj;
    else r.obj = (Tiny_Object*)v.obj;
    return r;
}
FF(MCoin) {   // a new object?
    Mod* m = M(thread);
    nested(m);
    std::vector<MV> objs, nats;
    objects(m, objs, nats);
    return Tiny_NewBool(objs.empty() || pick(2, "new object") == 0);
}
FF(MNextId) { return Tiny_NewInt(++M(thread)->nobj); }
FF(MNewObj) {
    Mod* m = M(thread);
    MV v;
    v.t = TINY_VAL_STRUCT;
    v.obj = args[0].obj;
    v.i = Tiny_GetField(args[0], 0).i;
    m->ops.back().v.push_back(v);
    return args[0];
}
FF(MRep) {
    Mod* m = M(thread);
    Op& o = m->ops.back();
    MV w;
    const char* n = o.kind < NK ? AOP[o.code] : DOP[o.code];
    if (o.kind < NK) {
        auto& e = o.a->e;
        switch (o.code) {
            case O_POP: w = e.back(); e.pop_back(); break;
            case O_SHIFT: w = e.front(); e.erase(e.begin()); break;
            case O_GETX: case O_GETM: w = e[o.n[0]]; break;
            case O_LEN: w = mi(e.size()); break;
            case O_ITER: if (o.reps >= e.size()) broken(m, o, n, "more elements than there are"); w = e[o.reps]; break;
        }
    } else {
        MV* p = find(o.d, o.v[0]);
        if (o.code == D_EXISTS) { w.t = TINY_VAL_BOOL; w.i = p != nullptr; }
        else if (p) w = *p;
    }
    ++o.reps;
    std::string d = differs(w, args[0], 2);
    if (!d.empty()) broken(m, o, n, "the result " + d);
    return Tiny_Null;
}

std::string script() {
    std::string s = "struct Obj { id: int\n more: any }\n";
    for (int k = 0; k < NK; ++k) s += fmt("use array(\"%s\") as array_%s\nuse array(\"array_%s\") as slots_%s\n", ELEM[k], KN[k], KN[k], KN[k]);
    s += "use array(\"dict\") as slots_dict\nuse array(\"dict_str_int\") as slots_dsi\n";
    s += "func v_Obj(): Obj {\n  if coin() { return id_Obj(new Obj{next_id(), \"more\"}) }\n  return w_Obj()\n}\n";
    for (int k = 0; k < NK; ++k) {
        std::string c = KN[k];
        auto T = [&](std::string x) { for (size_t p; (p = x.find('@')) != std::string::npos;) x.replace(p, 1, c); return x; };
        s += T("sl_@ := slots_@(array_@(), array_@(), array_@())\n");
        s += T("func at_@(op: int, s: int): void {\n  a := sl_@[s]\n");
        auto op = [&](int n, const std::string& body) { s += fmt("  if op == %d { ", n) + T(body) + " }\n"; };
        op(O_NEW0, "sl_@[s] = array_@()");
        op(O_NEW1, "sl_@[s] = array_@(v_@())");
        op(O_NEW3, "sl_@[s] = array_@(v_@(), v_@(), v_@())");
        op(O_ALIAS, "sl_@[s] = sl_@[n1()]");
        op(O_PUSH, "a->array_@_push(v_@())");
        op(O_POP, "r_@(a->array_@_pop())");
        op(O_SHIFT, "r_@(array_@_shift(a))");
        op(O_INSERT, "a->array_@_insert(n1(), v_@())");
        op(O_REMOVE, "a->array_@_remove(n1())");
        op(O_SETX, "a[n1()] = v_@()");
        op(O_SETM, "a->array_@_set(n1(), v_@())");
        op(O_GETX, "r_@(a[n1()])");
        op(O_GETM, "r_@(a->array_@_get(n1()))");
        op(O_RESIZE, "a->array_@_resize(n1())");
        op(O_FILL, "a->array_@_resize_fill(n1(), v_@())");
        op(O_CLEAR, "a->array_@_clear()");
        op(O_LEN, "r_int(a->array_@_len())");
        op(O_ITER, "n := a->array_@_len()\n    for i := 0; i < n; i += 1 { r_@(a[i]) }\n   ");
        op(O_OWN, "a->array_@_push(a[n1()])");
        op(O_MOVE, "array_@_push(sl_@[n1()], a->array_@_pop())");
        op(O_POP2, "a->array_@_push(a->array_@_pop())");
        if (k == K_INT) op(O_SORT, "a->array_@_sort()");
        if (k == K_AINT) op(O_TAKE, "sl_int[n1()] = a[n1()]");
        s += "}\n";
    }
    for (int k = 0; k < 2; ++k) {
        std::string c = k ? "dsi" : "dict", ctor = k ? "dict_str_int" : "dict", key = k ? "key_s()" : "key()", val = k ? "v_int()" : "v_any()", rep = k ? "r_int" : "r_any";
        auto T = [&](std::string x) {
            for (size_t p; (p = x.find_first_of("@#%")) != std::string::npos;) x.replace(p, 1, x[p] == '@' ? ctor : x[p] == '#' ? key : val);
            return x;
        };
        s += "sl_" + c + " := slots_" + c + T("(@(), @(), @())\n");
        s += "func at_" + c + "(op: int, s: int): void {\n  d := sl_" + c + "[s]\n";
        auto op = [&](int n, const std::string& body) { s += fmt("  if op == %d { ", n) + T(body) + " }\n"; };
        op(D_NEW0, "sl_" + c + "[s] = @()");
        op(D_NEW1, "sl_" + c + "[s] = @(#, %)");
        op(D_NEW3, "sl_" + c + "[s] = @(#, %, #, %, #, %)");
        op(D_ALIAS, "sl_" + c + "[s] = sl_" + c + "[n1()]");
        op(D_PUT, "@_put(d, #, %)");
        op(D_GET, rep + "(@_get(d, #))");
        op(D_EXISTS, "r_bool(d->@_exists(#))");
        op(D_REMOVE, "d->@_remove(#)");
        op(D_CLEAR, "d->@_clear()");
        op(D_KEYS, std::string(k ? "sl_str" : "sl_any") + "[n1()] = @_keys(d)");
        op(D_REPUT, k ? "@_put(d, #, @_get(d, #))" : "@_put(d, #, @_get(d, key_old()))");
        if (!k) {
            op(D_VALUES, "sl_any[n1()] = d->@_values()");
            op(D_SETX, "d[key_s()] = %");
            op(D_GETX, "r_any(d[key_s()])");
        }
        s += "}\n";
    }
    s += "func dispatch(k: int, op: int, s: int): void {\n";
    for (int k = 0; k < NKIND; ++k) s += fmt("  if k == %d { at_%s(op, s) }\n", k, KN[k]);
    s += "}\nfunc work(): void {\n  while more() {\n    dispatch(kind(), code(), slot())\n    done()\n  }\n}\nwork()\n";
    return s;
}
void model_check(int focus) {
    g_focus = focus;
    SimHeap* hs = new_heap("state");
    if (pick(3, "state heap") == 2) hs->randomize("state heap policy");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    Tiny_BindFunction(s, "more(): bool", MMore);
    Tiny_BindFunction(s, "kind(): int", MKind);
    Tiny_BindFunction(s, "code(): int", MCode);
    Tiny_BindFunction(s, "slot(): int", MSlot);
    Tiny_BindFunction(s, "done(): void", MDone);
    Tiny_BindFunction(s, "n1(): int", MN1);
    Tiny_BindFunction(s, "key(): any", MKey);
    Tiny_BindFunction(s, "key_s(): str", MKeyS);
    Tiny_BindFunction(s, "key_old(): any", MKeyOld);
    Tiny_BindFunction(s, "coin(): bool", MCoin);
    Tiny_BindFunction(s, "next_id(): int", MNextId);
    Tiny_BindFunction(s, "v_int(): int", MVal<K_INT>);
    Tiny_BindFunction(s, "v_flt(): float", MVal<K_FLT>);
    Tiny_BindFunction(s, "v_bool(): bool", MVal<K_BOOL>);
    Tiny_BindFunction(s, "v_str(): str", MVal<K_STR>);
    Tiny_BindFunction(s, "v_any(): any", MVal<K_ANY>);
    Tiny_BindFunction(s, "v_aint(): array_int", MVal<K_AINT>);
    Tiny_BindFunction(s, "w_Obj(): Obj", MVal<K_OBJ>);
    Tiny_BindFunction(s, "id_Obj(Obj): Obj", MNewObj);
    for (int k = 0; k < NK; ++k) Tiny_BindFunction(s, fmt("r_%s(%s): void", KN[k], ELEM[k]).c_str(), MRep);
    std::string text = script();
    must_compile(s, "model.tiny", text);
    g_dispatch = Tiny_GetFunctionIndex(s, "dispatch");
    g_mods = new std::map<Tiny_StateThread*, Mod*>();
    int nt = 1 + (pick(3, "threads") == 2 ? 1 + pick(2, "more threads") : 0);
    std::vector<Mod*> mods;
    static const int gcs[] = {1 << 30, 0, 1, 8, 64};
    for (int i = 0; i < nt; ++i) {
        Mod* m = new Mod();
        SimHeap* h = new_heap("thread");
        h->randomize("thread heap policy");
        m->t = new_thread(s, h, 1);
        m->id = i;
        m->focus = focus < 16 ? 16 + (int)pick(2, "mostly") : focus;
        m->big = !i && pick(30, "large containers") == 29;
        m->left = m->big ? 6 + pick(40, "operations") : 10 + pick(nt > 1 ? 60 : 160, "operations");
        (*g_mods)[m->t->th] = m;
        m->t->th->maxNumObjects = gcs[pick(5, "gc")];
        Tiny_StartThread(m->t->th);
        mods.push_back(m);
    }
    sample(fmt("%d thread(s), up to %d operations each on %d kinds of arrays and dictionaries", nt, mods[0]->left, NKIND));
    // let everyone reach the first operation, then tie the model to the containers that are there
    for (Mod* m : mods) {
        int want = m->left;
        m->left = 0;
        hang_limit(3000000, "start");
        int gdsi = Tiny_GetGlobalIndex(s, "sl_dsi");
        while (Tiny_IsNull(Tiny_GetGlobal(m->t->th, gdsi))) if (!step(m->t)) harness_error("the script ended early");
        hang_off();
        m->left = want;
        for (int k = 0; k < NK; ++k) for (int x = 0; x < SLOTS; ++x) { m->arr[k][x] = new MArr(); m->arr[k][x]->obj = slot_of(m, k, x).obj; }
        for (int k = 0; k < 2; ++k) for (int x = 0; x < SLOTS; ++x) { m->dic[k][x] = new MDict(); m->dic[k][x]->obj = slot_of(m, NK + k, x).obj; }
    }
    int running = nt;
    int density = focus < 16 ? 1 + pick(12, "looks") : 0;
    Rng look(focus < 16 ? derive("collections") : 0);
    u64 c = 0;
    std::map<Mod*, std::pair<int, u64>> pend;   // see gc_run
    while (running) {
        Mod* m = mods[running > 1 ? pick(mods.size(), "thread") : 0];
        if (m->finished) { for (Mod* x : mods) if (!x->finished) m = x; }
        int n = running > 1 ? 1 + pick(400, "cycles") : 1 << 30;
        while (n-- > 0) {
            auto& pe = pend[m];
            bool at = density && ((int)look.below(400) < density || pe.first) && !m->big;
            if (at) m->t->th->maxNumObjects = 0;
            if (!step(m->t)) { m->finished = true; --running; break; }
            ++c;
            if (!at) continue;
            count("fault.collection between instructions");
            if (focus == 4) { reachable(m->t, "after a collection"); continue; }
            auto g = garbage(m->t, "after a collection");
            bool kept = false;
            for (auto& b : g) if (b.serial == pe.second) kept = true;
            if (pe.first && kept) {
                if (++pe.first > 8) violate("gc:garbage-kept", fmt("a block (allocation %llu) is not reachable but survived %d collections", (unsigned long long)pe.second, pe.first));
            } else pe = {g.empty() ? 0 : 1, g.empty() ? 0 : g[0].serial};
        }
        if (nt > 1) hang_off();
    }
    hang_off();
    sig(g_sig);
    for (Mod* m : mods) {
        if (m->left > 0 || !m->ops.empty()) wrong("model:stopped", "the script did not carry out every operation");
        Op o; o.kind = K_INT; o.code = O_LEN; o.slot = 0; o.a = m->arr[0][0];
        m->seq = 0;
        verify(m, o);
        end_thread(m->t);
        if (m->t->heap->nlive) wrong("model:leak", fmt("%llu blocks left after the thread was destroyed", (unsigned long long)m->t->heap->nlive));
    }
    Tiny_DeleteState(s);
}
}
void run_c16() { model_check(16); }
void run_c17() { model_check(17); }
void run_model_gc(bool exact) { model_check(exact ? 5 : 4); }
