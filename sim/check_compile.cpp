// Checks over compiles: damaged sources, failed compiles, independent states.
#include <string.h>
#include <sys/resource.h>
#include <algorithm>
#include "simfs.h"
#include "world.h"

// ---- damaged sources --------------------------------------------------------------------------
static const char* SNIPPETS[] = {
    "struct P { x: int y: float n: P? }\nfunc mk(a: int): P { return new P{a, 1.5, cast(null, P)} }\np := mk(3)\nif p.n == null { emit_i(p.x) }\nq: P? = cast(null, P)\nq = p\n",
    "use array(\"str\") as astr\na := astr(\"x\", \"y\")\nastr_push(a, \"z\")\nfor i := 0; i < astr_len(a); i += 1 { emit_s(a[i]) }\na[0] = \"w\"\n",
    "K :: 10\nS :: \"text\"\nF :: 2.5\nB :: true\nC :: 'c'\nx := K * 2 + C\nwhile x > 0 { x -= 7 if x == 3 { break } else if x == 5 { continue } }\nemit_i(x) // done\n",
    "struct N { v: int next: N }\nuse json(\"N\")\n",
    "struct M { v: int s: str b: bool }\nuse json(\"M\")\nm := new M{1, \"q\", true}\nemit_s(M_to_json(m))\n",
    "func add(a: int, b: int): int { return a + b }\nuse delegate(\"add\") as dadd\nd := dadd()\n",
    "func fib(n: int): int { if n < 2 { return n } return fib(n - 1) + fib(n - 2) }\nemit_i(fib(7))\n",
    "d := dict(\"a\", 1, \"b\", 2)\nemit(dict_get(d, \"a\"))\nuse array(\"int\") as aint\nd2 := aint(1, 2)\ndict_put(d, \"k\", d2)\n",
    "x: any = 4\ny := cast(x, int)\ns := \"esc \\\" \\n \\t end\"\nc := '\\n'\nz := 0x1F + -3 * (4 - 2) % 5\nemit_b(x == y && !(z != 3) || 2.5 > 1.0)\nt := if z > 1 (3) else (4)\n",
    "struct V { x: int }\nfunc V_dot(a: V, b: int): int { return a.x * b }\nv := new V{.x = 4}\nemit_i(v->V_dot(3))\nv.x += 2\n",
};
static const char* TOKENS[] = {
    "{", "}", "(", ")", "[", "]", ";", ",", ".", ":", ":=", "::", "=", "==", "!=", "+", "-", "*", "/", "%", "!", "?", "->", "&&", "||", "...", "<<", ">>", "+=", "&", "|",
    "if", "else", "while", "for", "foreach", "func", "foreign", "struct", "return", "break", "continue", "new", "cast", "use", "as", "null", "true", "false",
    "int", "str", "float", "bool", "any", "void", "\"s\"", "\"", "'", "'a'", "1", "2.5", "0x", "1.2.3", "99999999999999999999", "undefinedName", "g0", "S0", "fn0", "array", "json", "delegate", "emit", "box", "\\", "@", "#", "//", "\n", "\t", "_", "\x80", "\xff",
};
static std::vector<std::string> lex(const std::string& s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        if (isalnum((unsigned char)s[i]) || s[i] == '_') while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) ++j;
        else if (s[i] == '"') { while (j < s.size() && s[j] != '"') j += s[j] == '\\' ? 2 : 1; j = std::min(j + 1, s.size()); }
        else if (isspace((unsigned char)s[i])) while (j < s.size() && isspace((unsigned char)s[j])) ++j;
        else if (i + 1 < s.size() && ispunct((unsigned char)s[i + 1]) && strchr("=:&|<>-+", s[i]) && strchr("=&|<>", s[i + 1])) j = i + 2;
        v.push_back(s.substr(i, j - i));
        i = j;
    }
    return v;
}
static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); e = e == std::string::npos ? s.size() : e + 1; v.push_back(s.substr(i, e - i)); i = e; }
    return v;
}
static std::vector<std::string> bytes(const std::string& s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }
std::string damage(const std::string& text, const Damage& d) {
    std::string s = text;
    int n = 1 + pick(d.max, "damages");
    for (int k = 0; k < n && !s.empty(); ++k) {
        int gran = pick(3, "granularity");
        auto v = gran == 0 ? lex(s) : gran == 1 ? bytes(s) : lines(s);
        int kind = pick(d.repeat ? 9 : 7, "damage");
        size_t a = pick(v.size(), "where"), m = std::min<size_t>(1 + pick(gran == 1 ? 40 : 4, "span"), v.size() - a);
        std::string what;
        switch (kind) {
            case 0:
                v.resize(a);
                if (pick(4, "within a token") == 3) {
                    static const char* cut[] = {"'", "'a", "'\\", "'\\n", "\"", "\"a\\", "\"\\x", "//", "/", "1.", "0x", "-", "&", "a.", "b:", "c->", "'\x80", "\"\n", "<", "...", ".."};
                    v.push_back(cut[pick(21, "cut")]);
                }
                what = "truncated";
                break;
            case 1: v.erase(v.begin() + a, v.begin() + a + m); what = "lost"; break;
            case 2: { std::vector<std::string> c(v.begin() + a, v.begin() + a + m); v.insert(v.begin() + a, c.begin(), c.end()); what = "duplicated"; break; }
            case 3: {
                size_t b = pick(v.size(), "to");
                std::vector<std::string> c(v.begin() + a, v.begin() + a + m);
                v.erase(v.begin() + a, v.begin() + a + m);
                v.insert(v.begin() + std::min(b, v.size()), c.begin(), c.end());
                what = "reordered";
                break;
            }
            case 4: { std::string t = TOKENS[pick(sizeof TOKENS / sizeof *TOKENS, "token")]; if (gran == 1) t = std::string(1, (char)(1 + pick(255, "byte"))); v[a] = t; what = "corrupted"; break; }
            case 5: { std::string t = TOKENS[pick(sizeof TOKENS / sizeof *TOKENS, "token")]; v.insert(v.begin() + a, pick(2, "spaces") ? " " + t + " " : t); what = "inserted"; break; }
            case 6: { size_t b = pick(v.size(), "from"); v[a] = v[b]; what = "replaced"; break; }
            case 7: {
                static const int counts[] = {10, 100, 1000, 5000};
                int r = counts[pick(4, "times")];
                std::string c;
                for (size_t i = a; i < a + m; ++i) c += v[i];
                if (c.size() * r > 60000) r = 60000 / c.size();
                std::string t;
                for (int i = 0; i < r; ++i) t += c;
                v.insert(v.begin() + a, t);
                what = "repeated";
                break;
            }
            case 8: {
                static const struct { const char *open, *mid, *close; } nest[] = {
                    {"(", "1", ")"}, {"{ ", "", " }"}, {"-", "1", ""}, {"!", "true", ""}, {"if true { ", "", " }"}, {"if true ", "x := 1", ""}, {"1 + ", "1", ""}, {"emit(", "1", ")"},
                    {"while true { ", "", " }"}, {"if true {} else ", "{}", ""}, {"int_to_str(", "1", ")"}, {"for i := 0; i < 1; i += 1 { ", "", "}"}, {"cast(", "1", ", any)"}, {"new V{", "1", "}"},
                    {"x", "", "->f()"}, {"x", "", "[0]"}, {"x", "", ".x"}, {"1 * ", "2", " + 3"}, {"if true (", "1", ") else 2"}, {"true && (", "true", ")"}, {"// c\n", "", ""}, {"1 == ", "2", ""}, {"func f() { ", "", " }"},
                };
                static const int counts[] = {5, 50, 500, 1500, 6000};
                auto& x = nest[pick(sizeof nest / sizeof *nest, "nesting")];
                int r = counts[pick(5, "depth")];
                size_t unit = strlen(x.open) + strlen(x.close);
                if (unit * r > 60000) r = 60000 / unit;
                std::string t = pick(2, "declared") ? "\nzq := " : "\n";
                bool close = pick(4, "left open") != 3;
                if (x.open[0] == 'x') t += x.open;
                else for (int i = 0; i < r; ++i) t += x.open;
                t += x.mid;
                if (close) for (int i = 0; i < r; ++i) t += x.close;
                v.insert(v.begin() + a, t + "\n");
                what = "nested";
                break;
            }
        }
        count(("fault.source " + what).c_str());
        s.clear();
        for (auto& x : v) s += x;
        size_t z = s.find('\0');
        if (z != std::string::npos) s.resize(z);
    }
    return s;
}
std::string late_error(const std::string& text) {
    static const char* ends[] = {"\n@", "\nzz9 := undefined_name(1)\n", "\nuse nothing(\"x\")\n", "\nzz8: UndefinedStruct = null\n", "\nzz7 := 1\nzz7 := 2\n", "\nbreak\n", "\nzz6: int = \"text\"\n",
        "\nfunc zz5(a: int): int { if a > 0 { return \"s\" } }\n", "\nuse json(\"NoSuchStruct\")\n", "\nuse array(\"NoSuchType\") as zz4\n", "\nuse delegate(\"no_such_function\") as zz3\n",
        "\nstruct ZZ2 { a: int a: int }\n", "\nfunc zz1(a: int, a: int) {}\n", "\nzz0 :: zz9\n", "\n\"unterminated", "\nfunc zza(): int { x := 1\nreturn \"s\" }\n", "\nemit_i(1, 2)\n", "\nemit_i()\n", "\nstruct ZZb {}\n", "\nfunc zzc() { zzd := 1\nzzd := 2 }\n", "\nzze := new NoSuch{}\n", "\nwhile 1 { }\n", "\nfor zzf := 0; zzf < 2; zzf += 1 { zzg() }\n"};
    if (pick(5, "error naming a type") == 4) {   // of a name found nowhere else
        static const int lens[] = {1, 3, 8, 30, 100, 250, 300};
        Rng g(derive("name"));
        std::string n = "ZZ";
        for (int i = lens[pick(7, "length of the name")]; i > 0; --i) n += 'a' + g.below(26);
        static const char* uses[] = {"func zzn(x: %s?) { }\nzzn(3)\n", "zzv: %s? = 3\n", "zzv: %s = 3\n", "zzw := new %s{\"a\"}\n", "zzw: %s? = cast(null, %s)\nzzw.nofield = 1\n", "zzw: %s? = cast(null, %s)\nemit_i(zzw.v)\n", "func zzn(x: int): %s? { return x }\n", "zzw: %s? = cast(null, %s)\nzzw = 4.5\n", "use array(\"%s?\") as zza\nzzb := zza(1)\n", "use array(\"%s\") as zza\nzzb := zza(\"x\")\n", "func zzn(x: %s?) { }\nuse delegate(\"zzn\") as zzd\nzzd_call(1, 2)\n"};
        std::string u = uses[pick(11, "use of the type")];
        for (size_t x; (x = u.find("%s")) != u.npos;) u.replace(x, 2, n);
        return text + "\nstruct " + n + " { v: int }\n" + u;
    }
    return text + ends[pick(sizeof ends / sizeof *ends, "late error")];
}
std::string some_source(bool* generated, Program* out) {
    int k = pick(3, "source kind");
    if (generated) *generated = k == 0;
    if (k == 0) {
        GenOpt o = swarm();
        o.size = 3 + pick(8, "statements");
        Program p = generate(o);
        if (out) *out = p;
        return p.text();
    }
    std::string s;
    int n = 1 + pick(3, "snippets");
    for (int i = 0; i < n; ++i) s += SNIPPETS[pick(sizeof SNIPPETS / sizeof *SNIPPETS, "snippet")];
    return s;
}
// A source that exceeds what some part of the compiler has room for.
static std::string large_source() {
    static const int counts[] = {3, 100, 130, 256, 300, 1023, 1025, 1500, 4000};
    int kind = pick(18, "large part"), n = counts[pick(9, "amount")];
    std::string s, big(n, 'q');
    auto rep = [&](const char* f) { for (int i = 0; i < n; ++i) s += fmt(f, i, i); };
    count("fault.source large");
    switch (kind) {
        case 0: rep("emit_s(\"distinct %d\")\n"); break;
        case 1: s = "x := 0\nemit("; rep("%d, "); s += "0)\n"; break;
        case 2: s = "struct L {\n"; rep("f%d: int\n"); s += "}\n"; break;
        case 3: s = "func f("; rep("a%d: int, "); s += "z: int) { emit_i(z) }\n"; break;
        case 4: s = "func f() {\n"; rep("v%d := %d\n"); s += "}\nf()\n"; break;
        case 5: rep("g%d := %d\n"); break;
        case 6: rep("func f%d() { emit_i(%d) }\n"); break;
        case 7: s = "x" + big + " := 3\nemit_i(x" + big + ")\n"; break;
        case 8: s = "struct T" + big + " { v: int }\na: T" + big + "? = null\nb := new T" + big + "{1}\na = b\nemit_i(b.v)\nemit_i(b[0])\n"; break;
        case 9: s = "use array(\"int\") as a" + big + "\nx := a" + big + "(1)\nemit_i(a" + big + "_len(x))\n"; break;
        case 10: s = "func d" + big + "(a: int, b: str): str { return b }\nuse delegate(\"d" + big + "\") as dd\n"; break;
        case 11: s = "struct J {\n"; rep("field_number_%d: int\n"); s += "}\nuse json(\"J\")\n"; break;
        case 12: s = "use array("; rep("\"a%d\" "); s += ") as x\n"; break;
        case 14: case 15: {   // nested in itself, or in turns with something else
            static const char* open[][2] = {{"!", ""}, {"-", ""}, {"(", ")"}, {"f(", ")"}, {"new N{", "}"}, {"cast(", ", any)"}, {"if true ", " else 0"}, {"a[", "]"}, {"new N{.a = ", "}"}, {"- - ! ", ""},
                {"{", "}"}, {"if true {", "}"}, {"while false {", "}"}, {"if false {} else ", ""}, {"if false {} else {", "}"}, {"for q%d := 0; false; q%d += 1 {", "}"}, {"foreach q%d in x {", "}"}, {"func h%d() {", "}"}, {"return ", ""}, {"use array(", ")"}, {"new ", "{}"}, {"func(", ")"}};
            static const int depths[] = {100, 500, 520, 2000, 20000, 60000};
            int depth = depths[pick(6, "depth")], a = pick(22, "what"), b = pick(3, "turns") ? a : pick(22, "other"), every = 1 + pick(3, "how often");
            std::string close;
            s = "struct N { a: any }\nfunc f(x: any): any { return x }\nx: any = 0\n";
            if (a < 10) s += pick(2, "in a statement") ? "x = " : "y := ";
            for (int i = 0; i < depth; ++i) { auto& o = open[(i / every) % 2 ? b : a]; s += fmt(o[0], i, i); close = o[1] + close; if (close.size() > 100000) close.resize(100000); }
            if (pick(2, "closed")) s += "1" + close + "\n";
            break;
        }
        case 16: case 17: {   // a long chain
            static const char* link[] = {" + 1", ".a", "[0]", " && true", " == 1", " < 2 ", "()", " = x", ", x", " else if true {}", "?", ": any", " - -1", " * (1)", " || !x", " % 3 / 2 "};
            static const int lens[] = {100, 500, 520, 2000, 8000, 20000};
            int len = lens[pick(6, "length")], a = pick(16, "link"), b = pick(3, "turns") ? a : pick(16, "other");
            s = "x: any = 0\n" + std::string(a == 9 ? "if false {}" : a == 11 ? "y" : pick(2, "in a statement") ? "x = x" : "y := x");
            for (int i = 0; i < len; ++i) s += link[i % 2 ? b : a];
            s += "\n";
            break;
        }
        case 13: s = "emit_s(\"" + big + "\")\nundefined" + big + "(1)\n"; break;
    }
    return s;
}
static void valid_result(const Tiny_CompileResult& r, const std::string& text) {
    if (r.type == TINY_COMPILE_SUCCESS) { count("probe.damaged source accepted"); return; }
    if (r.type != TINY_COMPILE_ERROR) violate("compile:result", fmt("result type %d", (int)r.type));
    size_t l = strnlen(r.error.msg, sizeof r.error.msg);
    if (l == sizeof r.error.msg) violate("compile:message-unterminated", "the error message is not terminated");
    if (l == 0) violate("compile:no-message", "the error has no message");
    count("probe.damaged source rejected");
}

// Declarations and statements which use the types and functions of an earlier source in ways that one may not have.
static std::string related(const std::string& before) {
    auto v = lex(before);
    std::vector<std::string> types = {"int", "str", "bool", "float", "box", "i64", "dict"}, structs, fns;
    int d = 0;
    for (size_t i = 0; i + 2 < v.size(); ++i) {
        if (v[i] == "{") ++d;
        if (v[i] == "}") --d;
        if (d == 0 && v[i] == "struct") structs.push_back(v[i + 2]);
        if (d == 0 && v[i] == "func") fns.push_back(v[i + 2]);
    }
    std::string s;
    int n = 1 + pick(5, "related declarations");
    auto type = [&]() { return !structs.empty() && pick(3, "struct") ? structs[pick(structs.size(), "which")] : types[pick(types.size(), "type")]; };
    for (int i = 0; i < n; ++i) {
        std::string T = type(), U = type();
        const char *t = T.c_str(), *u = U.c_str();
        switch (pick(10, "related")) {
            case 0: s += fmt("func qn%d(p: %s?, k: int): int { return k + 1 }\nfunc qo%d(p: %s): int { return qn%d(p, %d) }\n", i, t, i, t, i, i); break;
            case 1: s += fmt("func qv%d(p: %s): bool { l: %s? = p\nl = p\nreturn l == null }\n", i, t, t); break;
            case 2: s += fmt("struct QS%d { a: %s? b: %s }\nfunc qs%d(p: %s, q: %s): QS%d { return new QS%d{p, q} }\n", i, t, u, i, t, u, i, i); break;
            case 3: s += fmt("use array(\"%s\") as qa%d\nqx%d := qa%d()\nemit_i(qa%d_len(qx%d))\n", t, i, i, i, i, i); break;
            case 4: s += fmt("func qp%d(a: %s, b: %s): %s { return a }\nuse delegate(\"qp%d\") as qd%d\nqf%d := qd%d()\n", i, t, u, t, i, i, i, i); break;
            case 5: if (!fns.empty()) { s += fmt("use delegate(\"%s\") as qe%d\nqf%d := qe%d()\n", fns[pick(fns.size(), "function")].c_str(), i, i, i); break; }  // fallthrough
            case 6: s += fmt("emit_s(\"q literal %d\")\nemit_f(%d.0625)\nQC%d :: %d\nemit_i(QC%d)\n", (int)pick(4, "literal"), (int)pick(9, "float"), i, i + 70, i); break;
            case 7: s += fmt("func qr%d(p: %s): %s? { return p }\n", i, t, t); break;
            case 8: s += fmt("struct QT%d { next: QT%d? v: %s? }\nfunc qt%d(p: QT%d, q: %s?) { p.next = p }\n", i, i, t, i, i, u); break;
            case 9: s += fmt("struct QJ%d { v: int s: str b: bool }\nuse json(\"QJ%d\")\nemit_s(QJ%d_to_json(new QJ%d{%d, \"z\", true}))\n", i, i, i, i, i); break;
        }
    }
    return s;
}

// ---- C10 ------------------------------------------------------------------------------------------
void run_c10() {
    // a host thread with a small stack (sanitizer frames are several times larger than native ones)
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = 3 << 20;
    setrlimit(RLIMIT_STACK, &rl);
    SimHeap* hs = new_heap("state");
    hs->randomize("state heap");
    if (chance(30, "garbage on the stack")) dirty_stack(0xA5);
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    bind_macro(s);
    int n = 1 + pick(3, "compiles");
    std::string all;
    for (int i = 0; i < n; ++i) {
        Damage d;
        d.repeat = true;
        size_t inner = 0;
        bool large = pick(6, "large") == 5;
        std::string t = large ? large_source() : some_source();
        if (!large || pick(2, "damaged")) t = pick(6, "late") == 5 ? late_error(t) : damage(t, d);
        trace("compile %zu bytes", t.size());
        if (pick(8, "macro") == 7) {   // compiles damaged sources itself, and fails if they do
            g_macro.clear();
            g_macro_failing = true;
            int nm = 1 + pick(3, "macros");
            for (int k = 0; k < nm; ++k) {
                std::string x = pick(2, "what") ? macro_source(i * 10 + k) : some_source();
                if (pick(3, "damaged")) x = pick(2, "late") ? late_error(x) : damage(x, d);
                if (k + 1 < nm) x = use_macro(k + 1) + x;
                inner += x.size() + 200;
                g_macro.push_back({{x, 2 + (int)pick(2, "whose failure")}});
            }
            t = pick(2, "only the macro") ? use_macro(0) : use_macro(0) + t;
        } else g_macro.clear();
        if (pick(2, "host")) known_ahead(t).bind(s, i);
        all += fmt("--- source %d ---\n", i) + t.substr(0, 1500) + "\n";
        size_t live = hs->live_bytes;
        hs->peak_bytes = live;
        dirty_stack(0x5A);
        sample(all);
        all.clear();
        Tiny_CompileResult r = compile(s, "damaged.tiny", t);
        sig(hash_str(t));
        valid_result(r, t);
        steps(t.size());
        size_t used = hs->peak_bytes - live;
        if (used > 400000 + (t.size() + inner) * 600) violate("resource:memory", fmt("compiling %zu bytes used %zu bytes", t.size(), used));
    }
    Tiny_DeleteState(s);
    if (hs->nlive) violate("leak:after-compiles", fmt("%llu blocks (%zu bytes) left after deleting the state", (unsigned long long)hs->nlive, hs->live_bytes));
}

std::vector<std::vector<MacroSource>> g_macro;
bool g_macro_failing = true;
static int g_macro_depth;
static TINY_MACRO_FUNCTION(HostMacro) {
    Tiny_MacroResult m = {};
    m.type = TINY_MACRO_SUCCESS;
    size_t k = nargs ? atoi(args[0]) : 0;
    if (k >= g_macro.size() || g_macro_depth > 10) return m;
    ++g_macro_depth;
    for (auto& x : g_macro[k]) {
        if (x.kind == 1 && !g_macro_failing) continue;
        dirty_stack(0x3C);
        Tiny_CompileResult r = compile(state, fmt("macro%zu.tiny", k).c_str(), x.text);
        hang_limit(400000000, "compile with macros");
        trace("macro %zu compiles %zu bytes: %s", k, x.text.size(), r.type ? r.error.msg : "accepted");
        count(r.type ? "fault.nested compile failed" : "schedule.nested compile");
        if (x.kind == 1) {
            if (r.type == TINY_COMPILE_SUCCESS) { g_macro_depth = 0; discard("the damaged source is accepted"); }
        } else if (r.type != TINY_COMPILE_SUCCESS && x.kind != 3) {
            m.type = TINY_MACRO_ERROR;
            snprintf(m.error.msg, sizeof m.error.msg, "%s", r.error.msg);
            break;
        }
    }
    --g_macro_depth;
    return m;
}
void bind_macro(Tiny_State* s) { g_macro_depth = 0; Tiny_BindMacro(s, "hm", HostMacro); }
std::string use_macro(int k) { return fmt("use hm(\"%d\")\n", k); }
static std::string macro_text(int id) {
    switch (pick(7, "what the macro compiles")) {
        case 5: {   // whose code ends with any byte
            std::string t = fmt("struct ZZW%d {\n", id);
            int n = 255 - 8 * pick(3, "fields"), k = pick(2, "small") ? pick(60, "field") : pick(n, "field");
            for (int i = 0; i < n; ++i) t += fmt("f%d: int ", i);
            return t + fmt("}\nzzm%d := cast(null, ZZW%d)\nif zzm%d != null { emit_i(zzm%d.f%d) }\nfunc zzmf%d(w: ZZW%d): int {\nw.f%d = %d\nreturn w.f%d\n}\nif zzm%d != null\nzzm%d.f%d = %d\n", id, id, id, id, k, id, id, k, k, k, id, id, k, k);
        }
        case 0: return fmt("zzm%d := %d\n", id, id + 40);
        case 1: return fmt("func zzmf%d(a: int): int { b := a * %d\nif b > 9 { return b }\nreturn b + 1 }\nzzm%d := zzmf%d(3)\nemit_i(zzm%d)\n", id, id + 2, id, id, id);
        case 2: return fmt("struct ZZM%d { v: int s: str }\nuse array(\"ZZM%d\") as zzma%d\nzzm%d := zzma%d(new ZZM%d{%d, \"macro %d\"})\nemit_i(zzma%d_len(zzm%d))\n", id, id, id, id, id, id, id, id, id, id);
        case 3: return fmt("struct ZZM%d { v: int s: str }\nuse json(\"ZZM%d\")\nemit_s(ZZM%d_to_json(new ZZM%d{%d, \"m\"}))\n", id, id, id, id, id);
        case 4: return fmt("ZZMK%d :: %d\nfunc zzmf%d(): int { return ZZMK%d }\nuse delegate(\"zzmf%d\") as zzmd%d\nzzm%d := zzmd%d()\nemit_i(delegate__int_call(zzm%d))\n", id, id * 7, id, id, id, id, id, id, id);
        default: return "";
    }
}
std::string macro_source(int id, bool quiet) {
    std::string t = macro_text(id);
    // "emit_x(e)" is "zzq := e" when nothing may be observed
    size_t i = quiet ? t.find("emit_") : t.npos;
    if (i != t.npos) t.replace(i, 7, fmt("zzq%d := (", id));
    return t;
}
static Tiny_Value HAhead(Tiny_StateThread* t, const Tiny_Value* a, int n) { return n ? a[0] : Tiny_Null; }
void Ahead::bind(Tiny_State* s, int id) const {
    int i = id * 100;
    for (auto& t : types) {
        Tiny_BindFunction(s, fmt("ahead%d(%s?): %s?", i, t.c_str(), t.c_str()).c_str(), HAhead);
        Tiny_BindFunction(s, fmt("aheads%d(%s): %s", i, t.c_str(), t.c_str()).c_str(), HAhead);
        ++i;
    }
}
Ahead known_ahead(const std::string& text) {
    Ahead a;
    static const std::set<std::string> keywords = {"null", "true", "false", "if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach", "void", "bool", "int", "float", "str", "any"};
    if (pick(3, "types mentioned by the host") != 2) return a;
    auto v = lex(text);
    int d = 0;
    for (size_t i = 0; i + 2 < v.size() && a.types.size() < 6; ++i) {
        if (v[i] == "{") ++d;
        if (v[i] == "}") --d;
        if (d || v[i] != "struct" || keywords.count(v[i + 2]) || !isalpha((unsigned char)v[i + 2][0]) || v[i + 2].size() > 40 || pick(4, "mentioned") == 3) continue;
        if (std::find(a.types.begin(), a.types.end(), v[i + 2]) != a.types.end()) continue;
        size_t k = a.types.size();
        a.uses += fmt("zzi%zu: %s = cast(null, %s)\nzzh%zu := ahead%zu(zzi%zu)\nemit_b(zzh%zu == null)\n", k, v[i + 2].c_str(), v[i + 2].c_str(), k, k, k, k);
        a.types.push_back(v[i + 2]);
    }
    if (pick(3, "type registered later") == 2) {   // what the host calls zzArr becomes an array
        size_t k = a.types.size();
        a.uses += fmt("use array(\"int\") as zzArr\nzzh%zu := aheads%zu(zzArr(%zu, 2))\nzzArr_push(zzh%zu, 4)\nemit_i(zzArr_len(zzh%zu))\n", k, k, k, k, k);
        a.types.push_back("zzArr");
    }
    if (a.types.size()) count("probe.struct known from a bound function");
    return a;
}
// ---- C09 ------------------------------------------------------------------------------------------
std::vector<std::string> names_of(const std::string& text) {
    std::set<std::string> ns;
    for (auto& t : lex(text)) if (isalpha((unsigned char)t[0]) && t.size() < 40) ns.insert(t);
    return std::vector<std::string>(ns.begin(), ns.end());
}
std::string lookups(Tiny_State* s, const std::vector<std::string>& names) {
    std::string o;
    for (auto& n : names) o += fmt("%s g%d f%d\n", n.c_str(), Tiny_GetGlobalIndex(s, n.c_str()), Tiny_GetFunctionIndex(s, n.c_str()));
    return o;
}
std::string positions(const Tiny_StateThread* t) {
    const char* f = nullptr;
    int l = 0;
    Tiny_GetExecutingFileLine(t, &f, &l);
    return fmt("%s:%d", f ? f : "(none)", l);
}
static std::string run_with_positions(Tiny_State* s, SimHeap* h, const Program& p) {
    ThreadHost* t = new_thread(s, h, 1);
    FILE* f = sim_outstream(&t->out);
    Stdout so(f);
    std::string o;
    Tiny_StartThread(t->th);
    hang_limit(run_budget(p) * 2, "run");
    u64 h1 = 0;
    do {
        if (t->cycles < 3000) o += positions(t->th) + " ";
        if (t->cycles > 100000) break;
    } while (step(t));
    hang_off();
    o += "\n" + observed(t);
    end_thread(t);
    return o;
}
// definitions of what the text defines already, as something else, in an order of their own
static std::string clashes(const std::string& text) {
    auto v = lex(text);
    std::vector<std::string> all;
    int d = 0;
    for (size_t i = 0; i + 2 < v.size() && all.size() < 60; ++i) {
        if (v[i] == "{") ++d;
        if (v[i] == "}") --d;
        if (d) continue;
        const char* n = nullptr;
        static const char* st[] = {"struct %n { zzq: int }\n", "struct %n { zzq: %n? zzr: str zzt: ZZU }\nstruct ZZU { zzq: %n }\n", "struct %n { zzq: int zzq: int }\n", "struct %n { zzq: undefined_type? }\n", "struct %n { }\n", "struct %n { zzq: int", "func %n(): int { return 1 }\nzzw := new %n{}\n", "func zzx(zz: %n): %n? { return zz }\nzzw: %n? = null\nstruct %n { zzq: int }\n"};
        static const char* fn[] = {"func %n(zzq: str): str { return zzq }\n", "%n := 5\n", "func %n() { }\nfunc %n(zzq: int) { %n() }\n", "use delegate(\"%n\") as %n\n", "struct %n { zzq: int }\n"};
        static const char* var[] = {"%n := \"zz\"\n", "%n :: 17\n", "%n: float = 1.5\n", "func %n(): str { return \"zz\" }\n", "for %n := 0; %n < 3; %n += 1 { }\n", "func zzy(%n: str): str { %n2 := %n return %n2 }\n%n :: \"zz\"\n"};
        if (i > 1 && v[i - 2] == "struct") n = st[pick(8, "clash")];
        else if (i > 1 && v[i - 2] == "func") n = fn[pick(5, "clash")];
        else if (isalpha((unsigned char)v[i][0]) && (v[i + 1] == ":=" || v[i + 2] == ":=" || v[i + 1] == "::" || v[i + 2] == "::" || v[i + 1] == ":" || v[i + 2] == ":")) n = var[pick(6, "clash")];
        if (!n || v[i].size() > 60) continue;
        std::string t = n;
        for (size_t x; (x = t.find("%n")) != t.npos;) t.replace(x, 2, v[i]);
        all.push_back(t);
    }
    std::string t;
    for (int i = 0, k = 1 + pick(4, "clashes"); i < k && !all.empty(); ++i) t += all[pick(all.size(), "which")];
    return t;
}
void run_c09() {
    GenOpt o = swarm();
    o.size = 4 + pick(12, "statements");
    Program p = generate(o);
    size_t nu = p.units.size();
    // A: the first units, C: the rest; B: sources that must fail, in between
    size_t cut = pick(nu + 1, "division");
    std::string A, C;
    for (size_t i = 0; i < nu; ++i) (i < cut ? A : C) += p.units[i].text;
    SimHeap *hs = new_heap("state"), *ht = new_heap("thread"), *hl = new_heap("live thread");
    hs->randomize("state heap");
    bool compileA = pick(4, "nothing before") != 3;
    if (!compileA) { C = A + C; A.clear(); }
    bool twoA = compileA && pick(2, "live thread") == 1;
    std::vector<std::string> B;
    int nb = 1 + pick(4, "failing compiles");
    Ahead ahead = known_ahead(C);
    if (pick(2, "used")) C += ahead.uses;
    // new uses of what A declares: first in sources which fail, then in one which does not
    std::string Q;
    if (pick(2, "related uses")) {
        Q = related(A);
        if (isolated([&]() {
                Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
                bind_all(s);
                ahead.bind(s);
                if (!A.empty() && compile(s, "a.tiny", A).type) return std::string("rejected");
                return std::string(compile(s, "c.tiny", Q + C).type ? "rejected" : "accepted");
            }, true) != "accepted") Q.clear();
        else { C = Q + C; count("probe.related uses"); }
    }
    for (int i = 0; i < nb; ++i) {
        int k = pick(Q.empty() ? 5 : 7, "failing source");
        std::string t;
        if (k == 4) {   // defines again what is defined already
            t = clashes(A.empty() ? C : A);
            if (A.empty() || pick(2, "and more")) t = (A.empty() ? C : "") + t + late_error(pick(2, "what") ? "" : some_source());
            else if (t.find("struct") == t.npos) t = late_error(t);
            count("probe.defines again what is defined");
        } else if (k >= 5) {
            std::string part;
            for (auto& l : lines(Q)) if (pick(4, "left out") != 3) part += l;
            t = late_error(part);
        } else if (k == 0) t = damage(C);
        else if (k == 1) t = late_error(C);
        else if (k == 2) t = damage(some_source());
        else t = late_error(some_source());
        // takes a type which the host mentions for something else
        if (ahead.types.size() && pick(3, "registers the type") == 2) {
            static const char* as[] = {"use array(\"int\") as %s\n", "struct %s { zzv: int zzw: str }\nzzt := new %s{1, \"\"}\n", "func zzu(): int { return 1 }\nuse delegate(\"zzu\") as %s\n", "zzs: %s? = cast(null, %s)\n"};
            std::string d = as[pick(4, "as")];
            for (size_t x; (x = d.find("%s")) != d.npos;) d.replace(x, 2, ahead.types[pick(ahead.types.size(), "which")]);
            t = late_error(pick(2, "alone") ? d : d + t);
        }
        B.push_back(t);
    }
    // a macro of the source which follows compiles failing sources as well, and ignores that
    g_macro.clear();
    if (pick(3, "failures in a macro") == 2) {
        int nm = 1 + pick(3, "macros");
        for (int i = 0; i < nm; ++i) {
            std::vector<MacroSource> m;
            int n = 1 + pick(3, "sources of the macro");
            for (int j = 0; j < n; ++j) {
                if (pick(3, "kind") == 0) m.push_back({macro_source(i * 10 + j), 0});
                else {
                    int k = pick(4, "failing source");
                    m.push_back({k == 0 ? damage(C) : k == 1 ? late_error(C) : k == 2 ? late_error(macro_source(i * 10 + j)) : late_error(some_source()), 1});
                    if (i + 1 < nm && pick(3, "nested deeper") == 2) m.push_back({use_macro(i + 1), 0});
                }
            }
            g_macro.push_back(m);
        }
        bool before = pick(2, "before");
        C = before ? use_macro(0) + C : C + use_macro(0);
        count("probe.failures in macros");
    }
    // now and then the same source fails very often
    int storm = pick(16, "many failures") == 15 ? 60 + pick(240, "failures") : 0;
    if (storm && pick(3, "nested failures") == 2) {
        std::string t;
        int depth = 5 + pick(90, "depth");
        static const char* open[] = {"func f%d(): void { if true {\n", "while true {\n", "x := (1 + (\n", "{ {\n", "if false { } else {\n", "for i%d := 0; i%d < 1; i%d += 1 {\n", "new N{1, (\n", "!(!(", "f(g(", "-(-(", "[", "cast((("};
        int k = pick(13, "opened with");
        for (int i = 0; i < depth; ++i) t += k == 12 ? fmt(open[pick(12, "next")], i, i, i) : k || !i ? fmt(open[k], i, i, i) : "if true {\n";
        B[0] = "struct N { a: int b: int }\n" + t + " ; ?";
    }
    if (storm) B.resize(1 + (B.size() > 1));
    std::vector<std::string> names = names_of(A + C);
    for (auto& b : B) for (auto& n : names_of(b)) names.push_back(n);
    std::sort(names.begin(), names.end());
    names.erase(std::unique(names.begin(), names.end()), names.end());
    std::string D = damage(A + C);  // a later failing or succeeding compile must report the same as well
    u64 cyc = twoA ? pick(400, "cycles before") : 0;
    auto history = [&](bool withB) {
        std::string r;
        Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
        bind_all(s);
        bind_macro(s);
        g_macro_failing = withB;
        ahead.bind(s);
        if (!A.empty()) { Tiny_CompileResult c = compile(s, "a.tiny", A); r += fmt("A %d %s\n", c.type, c.type ? c.error.msg : ""); if (c.type) return r + "rejected"; }
        ThreadHost* live = nullptr;
        FILE* lf = nullptr;
        auto runlive = [&](u64 n) { Stdout so(lf); hang_limit(run_budget(p) * 2, "run"); run_to_end(live, n); hang_off(); };
        if (twoA && !A.empty()) {
            live = new_thread(s, hl, 1);
            lf = sim_outstream(&live->out);
            Tiny_StartThread(live->th);
            runlive(cyc);
        }
        if (withB) {
            int before = s->numStrings;
            size_t bytes = 0;
            for (size_t i = 0; i < B.size(); ++i) {
                std::string l0 = lookups(s, names), d0 = describe_state(s, names, true);
                if (live) l0 += positions(live->th);
                dirty_stack(0xA5);
                Tiny_CompileResult c = compile(s, "b.tiny", B[i]);
                valid_result(c, B[i]);
                if (c.type == TINY_COMPILE_SUCCESS) discard("the damaged source is accepted");
                trace("failed compile: %.200s", c.error.msg);
                count("fault.failed compile");
                std::string l1 = lookups(s, names), d1 = describe_state(s, names, true);
                if (live) l1 += positions(live->th);
                if (l0 != l1) violate("failed-compile:lookups", obs_diff(l0, l1) + "\nfailed source:\n" + B[i].substr(0, 1500) + "\n" + c.error.msg);
                if (d0 != d1) violate("failed-compile:state", obs_diff(d0, d1) + "\nfailed source:\n" + B[i].substr(0, 1500) + "\n" + c.error.msg);
                if (storm) {
                    size_t after = 0, peak = 0;
                    hang_limit((u64)storm * (3000000 + B[i].size() * 30000), "failing compiles");
                    for (int k = 0; k < storm; ++k) {
                        Tiny_CompileResult x = compile(s, "b.tiny", B[i]);
                        if (x.type != c.type || strcmp(x.error.msg, c.error.msg)) violate("failed-compile:another-error", fmt("compiled for the %d. time: ", k + 2) + obs_diff(c.error.msg, x.type ? x.error.msg : "accepted"));
                        if (k < 16) after = std::max(after, hs->live_bytes);
                        peak = std::max(peak, hs->live_bytes);
                    }
                    hang_off();
                    if (peak > after + 2048) violate("failed-compile:grows", fmt("at most %zu bytes are in use after up to 16 failing compiles, %zu after %d", after, peak, storm));
                    count("fault.failed compile", storm);
                    std::string l2 = lookups(s, names), d2 = describe_state(s, names, true);
                    if (live) l2 += positions(live->th);
                    if (l0 != l2) violate("failed-compile:lookups", fmt("after %d failures ", storm) + obs_diff(l0, l2));
                    if (d0 != d2) violate("failed-compile:state", fmt("after %d failures ", storm) + obs_diff(d0, d2));
                }
                if (i && hs->live_bytes > bytes + 65536) violate("failed-compile:grows", fmt("%zu bytes, then %zu", bytes, hs->live_bytes));
                bytes = hs->live_bytes;
                if (live && i == 0) {
                    if (hs->nlive > 100000) violate("failed-compile:grows", "");
                    runlive(50);
                    if (live->th->pc < 0) r += "";
                }
            }
        } else if (live) runlive(50);
        if (live) {
            runlive(~0ull);
            r += "live " + observed(live) + positions(live->th);
            end_thread(live);
        }
        if (!C.empty()) {
            Tiny_CompileResult c = compile(s, "c.tiny", C);
            r += fmt("C %d %s\n", c.type, c.type ? c.error.msg : "");
            if (c.type) return r + "rejected";
        }
        r += lookups(s, names) + describe_state(s, names, true);
        r += run_with_positions(s, ht, p);
        Tiny_CompileResult c = compile(s, "d.tiny", D);
        r += fmt("D %d %s\n", c.type, c.type ? c.error.msg : "");
        r += lookups(s, names) + describe_state(s, names, true);
        Tiny_DeleteState(s);
        r += fmt("left %llu %llu\n", (unsigned long long)hs->nlive, (unsigned long long)ht->nlive);
        return r;
    };
    sample("--- A ---\n" + A + "--- C ---\n" + C + "--- first failing source ---\n" + B[0].substr(0, 1200));
    std::string want = isolated([&]() { return history(false); }, true);
    if (bad(want) || want.find("rejected") != std::string::npos) { trace("undisturbed: %.900s", want.c_str()); discard("the undisturbed history fails"); }
    std::string got = history(true);
    if (got != want) violate("failed-compile:later-differs", obs_diff(want, got));
    if (hs->nlive) violate("leak:after-failed-compile", fmt("%llu blocks left", (unsigned long long)hs->nlive));
}

// ---- C03 ------------------------------------------------------------------------------------------
void run_c03() {
    int n = 2 + pick(3, "states");
    struct L { Program p; std::vector<std::string> src; std::vector<std::string> names; SimHeap *hs, *ht; std::string want, got; int gc; u64 seed; int calls; bool early; int stepping; };
    std::vector<L> ls(n);
    bool same = pick(3, "same program") == 2;
    // one complete life after the other in the same memory, or all at once
    bool sequel = pick(4, "one after the other") == 3;
    std::vector<std::string> all;
    for (int i = 0; i < n; ++i) {
        L& l = ls[i];
        GenOpt o = swarm();
        o.size = 3 + pick(8, "statements");
        o.printing = chance(30, "printing");
        o.maxcost = 1200;
        l.p = same && i ? ls[0].p : generate(o);
        std::string A, C;
        size_t cut = pick(l.p.units.size() + 1, "division");
        for (size_t k = 0; k < l.p.units.size(); ++k) (k < cut ? A : C) += l.p.units[k].text;
        if (!A.empty()) l.src.push_back(A);
        int nf = pick(3, "failing compiles");
        for (int k = 0; k < nf; ++k) l.src.push_back(pick(2, "how") ? late_error(C) : damage(A + C));
        l.src.push_back(C);
        l.names = names_of(A + C);
        if (sequel && i) { l.hs = ls[0].hs; l.ht = ls[0].ht; }
        else {
            l.hs = new_heap(strdup(fmt("state%d", i).c_str()));
            l.hs->randomize("state heap");
            l.ht = new_heap(strdup(fmt("thread%d", i).c_str()));
            l.ht->randomize("thread heap");
            if (sequel && pick(4, "reuse memory")) { l.hs->place = 1 + 2 * pick(2, "reuse how"); l.hs->quarantine = 0; }
        }
        for (auto& x : l.names) all.push_back(x);
        static const int gcs[] = {8, 0, 3, 50};
        l.gc = gcs[pick(4, "gc")];
        l.seed = 1 + pick(3, "input");
        l.stepping = pick(3, "stepping");
    }
    // names of the other programs are unknown (or mean something else) in this one
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    for (auto& l : ls) {
        l.names = all;
        Rng g(derive("lookup order"));
        for (size_t k = l.names.size(); k > 1; --k) std::swap(l.names[k - 1], l.names[g.below(k)]);
        if (l.names.size() > 60) l.names.resize(60);
        if (chance(50, "same lookups first and last")) { l.names.insert(l.names.begin(), "obs0"); l.names.push_back("obs0"); }
    }
    auto life = [](L& l) {
        std::string r;
        Tiny_State* s = Tiny_CreateStateWithContext(l.hs->ctx());
        bind_all(s);
        bool broken = false;
        for (size_t k = 0; k < l.src.size(); ++k) {
            SimHeap* h = l.hs;
            const std::string& t = l.src[k];
            char* src = (char*)h->alloc(nullptr, t.size() + 1);
            memcpy(src, t.c_str(), t.size() + 1);
            Tiny_CompileResult c = Tiny_CompileString(s, fmt("file%d.tiny", (int)k).c_str(), src);
            h->alloc(src, 0);
            r += fmt("compile %d %s\n", c.type, c.type ? c.error.msg : "");
            if (c.type && k + 1 == l.src.size()) broken = true;
            // a damaged source which happens to be accepted may loop: it is not executed
            if (!c.type && k > 0 && k + 1 < l.src.size()) broken = true;
        }
        r += lookups(s, l.names) + describe_state(s, l.names, true);
        if (!broken) {
            ThreadHost* t = new_thread(s, l.ht, l.seed);
            t->th->maxNumObjects = l.gc;
            Tiny_StartThread(t->th);
            if (l.stepping) { u64 k = 0; std::string pos; do if (++k < 6400 && (k % 64 == 0 || (l.stepping == 2 && k < 1000))) pos += positions(t->th) + " "; while (step(t)); r += pos; }
            else Tiny_Run(t->th);
            r += joined(t->tr);
            end_thread(t);
        }
        Tiny_DeleteState(s);
        r += fmt("left %llu %llu", (unsigned long long)l.hs->nlive, (unsigned long long)l.ht->nlive);
        return r;
    };
    u64 budget = 0;
    for (auto& l : ls) {
        sample(show_program(l.p));
        budget += run_budget(l.p) + 20000000;
        l.want = isolated([&]() {
            std::string out;
            FILE* f = sim_outstream(&out);
            Stdout so(f);
            hang_limit(run_budget(l.p) + 20000000, "undisturbed life");
            std::string r = life(l);
            fclose(f);
            return r + "\x1e" + out;
        }, true);
        if (bad(l.want)) discard("the undisturbed run fails");
    }
    std::vector<std::function<void()>> bodies;
    std::vector<FiberIO> io(n);
    std::vector<std::string> outs(n);
    for (int i = 0; i < n; ++i) {
        io[i].out = sim_outstream(&outs[i]);
        bodies.push_back([&, i]() { std::string r = life(ls[i]); ls[i].got = r; });
    }
    hang_limit(budget * 2, "independent lives");
    if (sequel) for (int i = 0; i < n; ++i) { count("schedule.one life after the other"); Stdout so(io[i].out); bodies[i](); }
    else run_fibers(bodies, io, 500);
    hang_off();
    for (int i = 0; i < n; ++i) {
        fclose(io[i].out);
        std::string got = ls[i].got + "\x1e" + outs[i];
        if (got != ls[i].want) violate("independent:differs-from-alone", fmt("state %d of %d\n", i, n) + obs_diff(ls[i].want, got));
    }
}
