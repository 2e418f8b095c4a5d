// Checks over files and console input: real stdio streams on simulated devices with injected faults.
#include <string.h>
#include <algorithm>
#include "simfs.h"
#include "world.h"

static std::string quote(const std::string& s, size_t max = 60) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c < 32 || c > 126 || c == '"') o += fmt("\\x%02x", c); else o += (char)c; }
    return o + (s.size() > max ? fmt("\"...(%zu bytes)", s.size()) : "\"");
}
static std::string compare(const std::string& want, const std::string& got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    return fmt("expected %zu bytes, got %zu; first difference at %zu: expected %s, got %s", want.size(), got.size(), i, quote(want.substr(std::min(i, want.size())), 24).c_str(), quote(got.substr(std::min(i, got.size())), 24).c_str());
}

// ---- C11 ------------------------------------------------------------------------------------------
static bool g_include_text;   // the include macro compiles the text itself instead of the file
static TINY_MACRO_FUNCTION(IncludeMacro) {
    Tiny_CompileResult r;
    if (g_include_text) {
        auto it = g_fs->files.find(args[0]);
        r = Tiny_CompileString(state, args[0], it == g_fs->files.end() ? "@" : it->second->data.c_str());
    } else r = Tiny_CompileFile(state, args[0]);
    Tiny_MacroResult m = {};
    if (r.type == TINY_COMPILE_SUCCESS) { m.type = TINY_MACRO_SUCCESS; return m; }
    m.type = TINY_MACRO_ERROR;
    snprintf(m.error.msg, sizeof m.error.msg, "%s", r.error.msg);
    return m;
}
static std::string file_content(bool& nul) {
    nul = false;
    std::string s = some_source();
    switch (pick(12, "file content")) {
        case 0: case 1: case 2: break;
        case 3: s = damage(s); break;
        case 4: s = late_error(s); break;
        case 5: s.clear(); break;
        case 6: s.insert(pick(s.size() + 1, "zero byte at"), 1, '\0'); nul = true; break;
        case 7: { std::string t; for (char c : s) { if (c == '\n') t += '\r'; t += c; } s = t; break; }
        case 8: {
            static const int sizes[] = {100, 4096, 8192, 40000, 65536, 120000};
            int n = sizes[pick(6, "padding")];
            std::string pad;
            while ((int)pad.size() < n) pad += "// padding padding padding padding padding padding\n";
            s = pick(2, "padding first") ? pad + s : s + pad;
            break;
        }
        case 9: { static const char* tails[] = {"// comment", "x", "\"", "'", "1.", "emit_i(1", "{", "\\", "/", "\"\\"}; s += tails[pick(10, "tail")]; break; }
        case 10: s = "\xEF\xBB\xBF" + s; break;
        case 11: while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); break;
    }
    return s;
}
void run_c11() {
    SimHeap *hs = new_heap("state"), *ht = new_heap("thread");
    hs->randomize("state heap");
    SimFS* fs = new_fs();
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    Tiny_BindMacro(s, "include", IncludeMacro);
    if (pick(2, "compiled before")) { std::string a = "func prelude(a: int): int { return a + 7 }\npg := prelude(1)\nemit_i(pg)\n"; must_compile(s, "prelude.tiny", a); }
    bool nul;
    std::string text = file_content(nul);
    static const char* paths[] = {"unit.tiny", "dir/some file.tiny", "u"};
    int pk = pick(5, "path");
    std::string path = pk < 3 ? paths[pk] : pk == 3 ? std::string(600, 'p') : "/abs/./../x.tiny";
    int there = pick(10, "file there");   // 8: missing, 9: directory
    std::string inner;
    if (there < 8) fs->put(path, text);
    if (there == 9) { fs->put(path, ""); fs->files[path]->dir = true; }
    bool absent = false;
    bool nested = there < 8 && !nul && pick(4, "included") == 3;
    if (nested) {
        bool n2;
        inner = file_content(n2);
        nul |= n2;
        fs->put("inner.tiny", inner);
        text = "use include(\"inner.tiny\")\n" + text;
        if (pick(3, "missing include") == 2) { text = "use include(\"nosuch.tiny\")\n" + text; absent = true; }
        fs->put(path, text);
    }
    sample(fmt("file of %zu bytes%s\n", text.size(), nul ? " with a zero byte" : "") + text.substr(0, 1200) + (nested ? "\n--- inner.tiny ---\n" + inner.substr(0, 600) : ""));
    std::vector<std::string> names = names_of(text + "\n" + inner);
    auto outcome = [&](Tiny_CompileResult& r) {
        std::string o = fmt("%d %s\n", r.type, r.type ? r.error.msg : "") + lookups(s, names) + describe_state(s, names, true);
        if (r.type == TINY_COMPILE_SUCCESS) {
            ThreadHost* t = new_thread(s, ht, 1);
            FILE* f = sim_outstream(&t->out);
            Stdout so(f);
            Tiny_StartThread(t->th);
            hang_limit(60000000, "run");
            do { if (t->cycles < 2000) o += positions(t->th) + " "; } while (step(t) && t->cycles < 20000);
            hang_off();
            o += "\n" + observed(t);
        }
        return o;
    };
    // what compiling exactly this content means
    auto as_text = [&](const std::string& content) {
        return isolated([&]() {
            g_include_text = true;
            char* src = (char*)hs->alloc(nullptr, content.size() + 1);
            memcpy(src, content.c_str(), content.size() + 1);
            hang_limit(6000000 + content.size() * 60000, "compile");
            Tiny_CompileResult r = Tiny_CompileString(s, path.c_str(), src);
            hang_off();
            return outcome(r);
        }, true);
    };
    bool readable = there < 8 && !absent;
    std::string want;
    if (readable && !nul) { want = as_text(text); if (bad(want)) discard("compiling the text itself fails"); }
    std::string l0 = lookups(s, names), d0 = describe_state(s, names, true);
    u64 live0 = hs->nlive;
    static const int kinds[] = {FS_OPEN, FS_READ, FS_SHORT, FS_SEEK, FS_TELL, FS_SIZE, FS_CLOSE};
    int rounds = 1 + pick(3, "attempts");
    bool done = false;
    for (int k = 0; k < rounds && !done; ++k) {
        bool faulty = k + 1 < rounds || pick(2, "faults in the last attempt");
        fs->enabled = 0;
        if (faulty) {
            for (int x : kinds) if (pick(3, "fault kind") != 0) fs->enabled |= x;
            fs->budget = 1 + pick(3, "faults");
            static const int rates[] = {10, 25, 50, 100};
            fs->rate = rates[pick(4, "fault rate")];
        }
        int f0 = fs->fired;
        fs->log.clear();
        if (there < 8) fs->files[path]->changed = false;
        if (nested) fs->files["inner.tiny"]->changed = false;
        hs->fill = faulty ? 'x' : 0xA5;   // memory which is not overwritten reads as an identifier
        char* p = (char*)hs->alloc(nullptr, path.size() + 1);
        memcpy(p, path.c_str(), path.size() + 1);
        dirty_stack(0xA5);
        trace("compile file, attempt %d, faults %x", k, fs->enabled);
        hang_limit(12000000 + (text.size() + inner.size()) * 60000, "compile file");
        Tiny_CompileResult r = Tiny_CompileFile(s, p);
        hang_off();
        hs->alloc(p, 0);
        bool fired = fs->fired != f0;
        steps(1);
        sig(hash_str(text) ^ hash_str(fs->log));
        std::string ctx = fmt("attempt %d, faults: %s\n", k, fs->log.c_str());
        if (fs->open_count()) violate("file:handle-left-open", ctx + fmt("%d handles still open after the call", fs->open_count()));
        if (r.type != TINY_COMPILE_SUCCESS && r.type != TINY_COMPILE_ERROR) violate("file:result", fmt("result type %d", (int)r.type));
        if (r.type == TINY_COMPILE_ERROR) {
            size_t l = strnlen(r.error.msg, sizeof r.error.msg);
            if (l == 0 || l == sizeof r.error.msg) violate("file:no-message", ctx + "the error has no message");
            std::string l1 = lookups(s, names), d1 = describe_state(s, names, true);
            if (l0 != l1 || d0 != d1) violate("file:error-changed-state", ctx + obs_diff(l0 + d0, l1 + d1));
            if (fired && hs->nlive > live0 + 64) violate("file:error-keeps-memory", ctx + fmt("%llu blocks, then %llu", (unsigned long long)live0, (unsigned long long)hs->nlive));
            count(fired ? "probe.file rejected under faults" : "probe.file rejected");
        }
        if (!readable || nul) {
            if (there < 8 && (fs->files[path]->data != text || (nested && fs->files["inner.tiny"]->data != inner))) break;   // no longer the file it was
            if (r.type == TINY_COMPILE_SUCCESS) violate(nul ? "file:zero-byte-accepted" : "file:unreadable-accepted", ctx + (nul ? "the file contains a zero byte, and something else than its content was compiled" : "there is no content to compile"));
            continue;
        }
        if (!fired) {
            std::string got = outcome(r);
            if (got != want) violate("file:differs-from-text", ctx + obs_diff(want, got));
            done = r.type == TINY_COMPILE_SUCCESS;
            continue;
        }
        if (r.type == TINY_COMPILE_SUCCESS) {
            count("probe.file accepted under faults");
            std::string got = outcome(r), now = fs->files[path]->data;
            bool match = got == want;
            bool changed = fs->files[path]->changed || (nested && fs->files["inner.tiny"]->changed);
            if (!match && changed) {
                // the state has changed: build the other versions on another state, in a copy of the process
                auto fresh = [&](const std::string& o, const std::string& i) {
                    return isolated([&]() {
                        SimHeap* h2 = new_heap("fresh");
                        Tiny_State* s2 = Tiny_CreateStateWithContext(h2->ctx());
                        bind_all(s2);
                        Tiny_BindMacro(s2, "include", IncludeMacro);
                        if (Tiny_GetFunctionIndex(s, "prelude") >= 0) must_compile(s2, "prelude.tiny", "func prelude(a: int): int { return a + 7 }\npg := prelude(1)\nemit_i(pg)\n");
                        fs->put("inner.tiny", i);
                        g_include_text = true;
                        Tiny_CompileResult r2 = compile(s2, path.c_str(), o);
                        std::swap(s, s2);
                        return outcome(r2);
                    }, true);
                };
                std::vector<std::string> os = {now}, is = {inner};
                if (fs->files[path]->changed) os.push_back(fs->files[path]->other);
                if (nested) { is = {fs->files["inner.tiny"]->data}; if (fs->files["inner.tiny"]->changed) is.push_back(fs->files["inner.tiny"]->other); }
                for (auto& o : os) for (auto& i : is) match |= fresh(o, i) == got;
            }
            if (!match) violate("file:accepted-other-text", ctx + "the compile succeeded, but not with any complete content of the file\n" + obs_diff(want, got));
            done = true;
        }
        // the file as it is now is what later attempts compile
        if (!done && (fs->files[path]->data != text || (nested && fs->files["inner.tiny"]->data != inner))) {
            text = fs->files[path]->data;
            if (nested) inner = fs->files["inner.tiny"]->data;
            want = as_text(text);
            if (bad(want)) discard("compiling the changed text itself fails");
        }
    }
    Tiny_DeleteState(s);
    if (fs->open_count()) violate("file:handle-left-open", "a handle is open at the end");
}

// ---- C12, C13, C14: scripts working with files ----------------------------------------------------
static const char* DRIVER =
    "use array(\"file\") as array_file\n"
    "hs := array_file()\n"
    "keep := \"\"\n"
    "func d_open(p: str, m: str): bool {\n  f := fopen(p, m)\n  if f == null { return false }\n  array_file_push(hs, f)\n  return true\n}\n"
    "func d_read(i: int, n: int): str { keep = fread(hs[i], n) return keep }\n"
    "func d_len(): int { return strlen(keep) }\n"
    "func d_at(k: int): int { return stridx(keep, k) }\n"
    "func d_load(p: str): str { keep = read_file(p) return keep }\n"
    "func d_size(i: int): int { return fsize(hs[i]) }\n"
    "func d_seek(i: int, p: int) { fseek(hs[i], p) }\n"
    "func d_write(i: int, s: str) { fwrite(hs[i], s) }\n"
    "func d_writen(i: int, s: str, n: int) { fwrite(hs[i], s, n) }\n"
    "func d_close(i: int) { fclose(hs[i]) }\n"
    "func d_save(p: str, s: str): bool { return write_file(p, s) }\n"
    "func d_echo(a: str, b: str): bool {\n  x := read_file(a)\n  if x == null { return false }\n  return write_file(b, x)\n}\n"
    "func d_cat(i: int, n: int): str {\n  s := \"\"\n  x := fread(hs[i], n)\n  while strlen(x) > 0 {\n    s = strcat(s, x)\n    x = fread(hs[i], n)\n  }\n  keep = s\n  return s\n}\n"
    "func d_copy(a: str, b: str, n: int): bool {\n  f := fopen(a, \"rb\")\n  if f == null { return false }\n  g := fopen(b, \"wb\")\n  if g == null {\n    fclose(f)\n    return false\n  }\n"
    "  x := fread(f, n)\n  while strlen(x) > 0 {\n    fwrite(g, x)\n    x = fread(f, n)\n  }\n  fclose(g)\n  fclose(f)\n  return true\n}\n"
    "func d_junk(n: int) { i := 0 while i < n { strcat(\"ab\", \"cd\") i += 1 } }\n"
    "func d_input(): str { keep = input() return keep }\n"
    "func d_nop() { }\n";

namespace {
struct MH {                      // model of a handle the script has open
    int index = 0;               // in the script's array
    std::string path, mode;
    SimHandle* h = nullptr;
    bool rd = false, wr = false, app = false;
    int64_t pos = 0;
    bool known = true;           // pos is certain
    bool sure = true;            // no fault has been reported through it
    char last = 0;
    std::string img;             // what the file will contain
    bool seeked = false;
    std::vector<std::string> reqs;
    bool ambiguous = false;      // img2 is possible as well
    std::string img2;
};
struct Session {
    ThreadHost* t;
    std::string dir;
    std::vector<MH> open;
    int opened = 0;
    bool dead = false;
    std::string alphabet;
};
struct Engine {
    int focus;
    SimFS* fs;
    SimHeap* hs;
    Tiny_State* s;
    std::vector<Session> ss;
    std::string history;
    int f0 = 0;
    std::vector<SimHandle*> own() { return {}; }
    void note(const std::string& x) { trace("%s", x.c_str()); if (history.size() < 4000) history += x + "\n"; sig(hash_str(x)); }
    void broken(const char* cls, const std::string& d) { violate(cls, d + "\nhistory:\n" + history); }
    int fn(const char* n) { int i = Tiny_GetFunctionIndex(s, n); if (i < 0) harness_error(n); return i; }
    Tiny_Value str(Session& c, const std::string& x) { return Tiny_NewStringCopy(c.t->th, x.data(), x.size()); }
    Tiny_Value call(Session& c, const char* f, std::vector<Tiny_Value> a) {
        f0 = fs->fired;
        fs->log.clear();
        dirty_stack(0x3C);
        hang_limit(40000000, f);
        Tiny_Value v = Tiny_CallFunction(c.t->th, fn(f), a.data(), a.size());
        hang_off();
        steps(1);
        if (!fs->log.empty()) { note("    faults: " + fs->log); }
        if (c.t->heap->live_bytes > (6u << 20)) discard("too much memory used by the script");
        return v;
    }
    bool fired() { return fs->fired != f0; }
    static bool isstr(const Tiny_Value& v) { return v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING; }
    static std::string bytes(const Tiny_Value& v) {
        // C functions get at strings without their length
        if (v.type == TINY_VAL_STRING && Tiny_ToString(v)[Tiny_StringLen(v)] != 0) violate("string:not-terminated", fmt("the string of %zu bytes which was delivered does not end with a null character", Tiny_StringLen(v)));
        return std::string(Tiny_ToString(v), Tiny_StringLen(v));
    }

    // After every operation: exactly the handles the script holds are open, the very same ones.
    void handles(const char* op) {
        int n = 0;
        for (auto& c : ss) n += c.open.size();
        if (focus != 14) return;
        for (auto& c : ss) for (auto& m : c.open) if (m.h->closed) broken("leak:script-file-closed", fmt("%s closed the file the script has open (handle %d)", op, m.index));
        if (fs->open_count() != n) broken(fs->open_count() > n ? "leak:handle" : "leak:handle-missing", fmt("after %s %d streams are open, the script has %d", op, fs->open_count(), n));
    }
    bool sizes = false;                    // sessions about how long files are
    std::string content(Session& c) {
        static const int lens[] = {0, 1, 5, 20, 63, 64, 65, 300, 4095, 4096, 4097, 6000, 9000};
        int n = sizes ? lens[7 + pick(6, "length")] : lens[pick(13, "length")];
        if (chance(4, "large")) { static const int big[] = {16384, 32769, 65536, 70000, 131100}; n = big[pick(5, "length")]; }
        int style = pick(4, "bytes");
        Rng r(derive("content"));
        std::string x;
        for (int i = 0; i < n; ++i) {
            char ch;
            if (style == 0) ch = c.alphabet[r.below(3)];
            else if (style == 1) ch = r.below(8) == 0 ? '\0' : c.alphabet[r.below(c.alphabet.size())];
            else if (style == 2) { static const char w[] = {'\n', '\r', '\0', '\t'}; ch = w[r.below(4)]; }
            else ch = focus == 12 ? (char)r.below(256) : c.alphabet[r.below(c.alphabet.size())];
            x += ch;
        }
        if (n && pick(5, "zero byte last") == 4) x.back() = '\0';
        return x;
    }
    std::string some_path(Session& c, bool missing = true) { return c.dir + fmt("f%d", (int)pick(missing ? 5 : 4, "file")); }
    bool busy(Session& c, const std::string& p, bool forReading) {
        for (auto& m : c.open) if (m.path == p && !(forReading && !m.wr)) return true;
        return false;
    }
    std::shared_ptr<SimFile> file(const std::string& p) { auto it = fs->files.find(p); return it == fs->files.end() ? nullptr : it->second; }

    void do_open(Session& c) {
        if (c.open.size() >= 6) return;
        static const char* rmodes[] = {"rb", "r", "rb", "r+b", "w", "wb", "a", "w+", "a+", "r+", "", "q"};
        static const char* wmodes[] = {"wb", "w", "r+b", "a", "ab", "w+b", "a+", "r+", "rb", "r", "x", "b"};
        std::string mode = (focus == 13 ? wmodes : rmodes)[pick(12, "mode")], p = some_path(c);
        bool rd = mode[0] == 'r' || (strchr("wa", mode.empty() ? 'x' : mode[0]) && mode.find('+') != std::string::npos);
        bool wr = !mode.empty() && (mode[0] != 'r' || mode.find('+') != std::string::npos);
        if (busy(c, p, !wr)) return;
        auto before = file(p);
        std::string old = before ? before->data : "";
        if (before && !busy(c, p, false)) before->changed = false;
        size_t nh = fs->handles.size();
        bool valid = !mode.empty() && strchr("rwa", mode[0]);
        note(fmt("%s open %s %s", c.dir.c_str(), p.c_str(), mode.c_str()));
        Tiny_Value v = call(c, "d_open", {str(c, p), str(c, mode)});
        bool ok = v.type == TINY_VAL_BOOL && v.boolean;
        note(ok ? "    ok" : "    null");
        bool expect = valid && (mode[0] != 'r' || before) && !(before && before->dir && wr);
        if (!fired() && ok != expect && focus != 13) broken("read:open-result", fmt("open of %s with mode %s: %s", p.c_str(), mode.c_str(), ok ? "succeeded" : "failed"));
        if (ok) {
            if (fs->handles.size() != nh + 1) harness_error("open without a stream");
            MH m;
            m.index = c.opened++;
            m.path = p;
            m.mode = mode;
            m.h = fs->handles.back().get();
            m.rd = rd;
            m.wr = wr;
            m.app = mode[0] == 'a';
            m.img = mode[0] == 'w' ? "" : old;
            m.known = !m.app;
            c.open.push_back(m);
        }
        handles("fopen");
    }
    MH* some_open(Session& c) { return c.open.empty() ? nullptr : &c.open[pick(c.open.size(), "handle")]; }
    void need_seek(Session& c, MH& m, char op) {
        if (m.last && m.last != op) do_seek(c, m);
        m.last = op;
    }
    // Longest and shortest content the file has had while it was open.
    static const std::string& longest(const SimFile& f) { return f.changed && f.other.size() > f.data.size() ? f.other : f.data; }
    static const std::string& shortest(const SimFile& f) { return f.changed && f.other.size() < f.data.size() ? f.other : f.data; }
    void check_kept(Session& c, const std::string& got) {
        Tiny_Value n = call(c, "d_len", {});
        if (focus == 12 && (n.type != TINY_VAL_INT || n.i != (int64_t)got.size())) broken("read:reported-length", fmt("%zu bytes were delivered, strlen gives %lld", got.size(), n.type == TINY_VAL_INT ? (long long)n.i : -1ll));
        for (int k = 0; k < 2 && !got.empty(); ++k) {
            size_t z = got.find('\0');
            size_t i = k == 0 && z != std::string::npos ? std::min(z + pick(2, "beyond"), got.size() - 1) : k ? got.size() - 1 : pick(got.size(), "byte");
            Tiny_Value b = call(c, "d_at", {Tiny_NewInt(i)});
            if (focus == 12 && (b.type != TINY_VAL_INT || (unsigned char)b.i != (unsigned char)got[i] || b.i < -128 || b.i > 255)) broken("read:byte-at", fmt("byte %zu is %d, the script sees %lld", i, (unsigned char)got[i], b.type == TINY_VAL_INT ? (long long)b.i : -9999ll));
        }
    }
    void judge_read(MH& m, int64_t n, const Tiny_Value& v, bool whole, const char* op) {
        bool hit = fired();
        if (!isstr(v)) {
            if (v.type != TINY_VAL_NULL) broken("read:result", fmt("%s returned something that is neither a string nor null", op));
            if (!hit && m.sure && n >= 0 && m.rd && focus == 12) broken("read:null", fmt("%s failed although nothing went wrong", op));
            m.known = false;
            return;
        }
        std::string got = bytes(v);
        note("    -> " + quote(got, 24));
        if (n < 0) n = 0;
        if (whole) n = 1 << 28;
        if (!m.rd) { if (hit) m.sure = m.known = false; if (!got.empty() && focus == 12) broken("read:invented", "bytes came out of a file that is not open for reading: " + quote(got)); return; }
        const std::string& L = m.wr ? m.img : longest(*m.h->f);
        const std::string& S = m.wr ? m.img : shortest(*m.h->f);
        if (m.h->f->dir) { if (!got.empty() && focus == 12) broken("read:invented", "bytes came out of a directory"); return; }
        if (focus == 12 && !(m.wr && !m.sure)) {
            if (m.known) {
                std::string maxi = m.pos < (int64_t)L.size() ? L.substr(m.pos, n) : "";
                if (maxi.compare(0, got.size(), got) || got.size() > maxi.size()) broken(hit || !m.sure ? "read:wrong-bytes-under-faults" : "read:wrong-bytes", fmt("%s of %lld bytes at %lld: ", op, (long long)n, (long long)m.pos) + compare(maxi, got));
                size_t least = m.pos < (int64_t)S.size() ? std::min<size_t>(n, S.size() - m.pos) : 0;
                if (!hit && m.sure && got.size() < least) broken("read:short", fmt("%s of %lld bytes at %lld delivered %zu bytes although %zu are there", op, (long long)n, (long long)m.pos, got.size(), least));
                if (hit && got.size() < maxi.size()) count("probe.read cut short");
            } else if (!got.empty() && !m.wr && L.find(got) == std::string::npos) {
                // position lost after a fault: the bytes must still be a piece of the file
                if (!whole || m.h->f->changed == false) broken("read:wrong-bytes-under-faults", fmt("%s delivered bytes which are nowhere in the file: ", op) + quote(got));
            }
        }
        if (hit) { m.sure = false; m.known = false; }
        m.pos += got.size();
    }
    void do_read(Session& c) {
        MH* m = some_open(c);
        if (!m) return;
        static const int ns[] = {10, 1, 64, 100, 0, 7, 4096, 5000, 20000, 100000, -1, -5000};
        bool whole = pick(4, "whole") == 3;
        int n = ns[pick(whole ? 4 : 12, "read size")];
        if (whole && n < 1) n = 3;
        if (whole && m->h->f->data.size() > 10000) n = 5000;   // every round copies what there is
        if (m->rd) need_seek(c, *m, 'r');
        if (m->h->closed) return;
        note(fmt("%s %s #%d n=%d at %lld%s", c.dir.c_str(), whole ? "read to the end" : "read", m->index, n, (long long)m->pos, m->known ? "" : "?"));
        Tiny_Value v = call(c, whole ? "d_cat" : "d_read", {Tiny_NewInt(m->index), Tiny_NewInt(n)});
        judge_read(*m, n, v, whole, whole ? "reading to the end" : "fread");
        if (isstr(v) && pick(2, "look at it")) check_kept(c, bytes(v));
        handles("fread");
    }
    void do_seek(Session& c, MH& m) {
        static const int far[] = {0, 0, 1, 10, 63, 64, 4096};
        int k = pick(10, "seek to");
        int64_t p = k < 7 ? far[k] : k == 7 ? pick(std::max<size_t>(1, m.h->f->data.size() + 1), "offset") : k == 8 ? (int64_t)m.h->f->data.size() + pick(20, "beyond") : -3;
        if (m.wr && p > (int64_t)m.img.size() + 4200) p = 0;
        note(fmt("%s seek #%d %lld", c.dir.c_str(), m.index, (long long)p));
        call(c, "d_seek", {Tiny_NewInt(m.index), Tiny_NewInt(p)});
        m.seeked = true;
        if (fired()) m.sure = false;
        if (p < 0 || fired() || m.h->f->dir) m.known = false;
        else { m.known = true; m.pos = p; }
        m.last = 0;
        handles("fseek");
    }
    void do_size(Session& c) {
        MH* m = some_open(c);
        if (!m || m->ambiguous) return;
        note(fmt("%s size #%d", c.dir.c_str(), m->index));
        Tiny_Value v = call(c, "d_size", {Tiny_NewInt(m->index)});
        int64_t n = v.type == TINY_VAL_INT ? v.i : -99;
        note(fmt("    -> %lld", (long long)n));
        if (focus == 12) {
            if (m->h->f->dir) { if (n > 0) broken("read:size", fmt("fsize of a directory gives %lld", (long long)n)); }
            else {
                int64_t a = m->h->f->data.size(), b = m->h->f->changed ? m->h->f->other.size() : a;
                if (m->wr && m->sure && !fired()) { if (n != (int64_t)m->img.size()) broken("read:size", fmt("fsize gives %lld, %zu bytes were written", (long long)n, m->img.size())); }
                else if (n != a && n != b && !(n < 0 && (fired() || !m->sure))) broken("read:size", fmt("fsize gives %lld, the file has %lld bytes", (long long)n, (long long)a));
            }
        }
        if (fired()) { m->sure = false; m->known = false; }
        else if (m->known && m->pos != 0) m->known = false;   // where it leaves the position is not specified
        if (m->app) m->known = false;
        m->seeked |= !m->known;
        if (m->wr && !m->known) { if (!m->app) do_seek(c, *m); }
        handles("fsize");
    }
    void store(MH& m, const std::string& x) {
        if (m.app) { m.img += x; m.known = false; return; }
        if (x.empty()) return;
        if (m.img.size() < m.pos + x.size()) m.img.resize(m.pos + x.size(), '\0');
        m.img.replace(m.pos, x.size(), x);
        m.pos += x.size();
    }
    void do_write(Session& c) {
        MH* m = some_open(c);
        if (!m) return;
        std::string x = content(c);
        int kind = pick(4, "write how");   // 0,1: all of it; 2: n of it; 3: n out of range
        int64_t n = x.size();
        if (kind == 2) n = pick(x.size() + 1, "write n");
        if (kind == 3) { static const int over[] = {1, 7, 100, 5000}; n = pick(2, "negative") ? -1 - (int)pick(3, "by") : (int64_t)x.size() + over[pick(4, "over")]; }
        if (m->wr) need_seek(c, *m, 'w');
        if (m->wr && !m->app && !m->known) { do_seek(c, *m); m->last = 'w'; if (!m->known) m->sure = false; }
        note(fmt("%s write #%d %s n=%lld at %lld", c.dir.c_str(), m->index, quote(x, 16).c_str(), (long long)n, (long long)m->pos));
        if (kind < 2) call(c, "d_write", {Tiny_NewInt(m->index), str(c, x)});
        else call(c, "d_writen", {Tiny_NewInt(m->index), str(c, x), Tiny_NewInt(n)});
        handles("fwrite");
        if (!m->wr) { if (fired()) m->sure = false; return; }
        if (fired()) { m->sure = false; m->known = false; }
        if (kind == 3) {
            // no request that can be carried out exactly: the string's bytes, or none
            m->img2 = m->img;
            m->ambiguous = true;
            if (n > 0) store(*m, x);
            m->reqs.push_back(n > 0 ? x : "");
            do_close(c, m - &c.open[0]);
            return;
        }
        m->reqs.push_back(x.substr(0, n));
        store(*m, x.substr(0, n));
    }
    // content = initial followed by a prefix of each request in turn?
    static bool prefixes(const std::string& initial, const std::vector<std::string>& reqs, const std::string& got) {
        if (got.compare(0, initial.size(), initial)) return got.size() < initial.size() && !initial.compare(0, got.size(), got);
        std::vector<char> at(got.size() + 1);
        at[initial.size()] = 1;
        for (auto& r : reqs) {
            std::vector<char> to = at;
            for (size_t i = 0; i <= got.size(); ++i)
                if (at[i]) for (size_t k = 0; k < r.size() && i + k < got.size() && got[i + k] == r[k]; ++k) to[i + k + 1] = 1;
            at = to;
        }
        return at[got.size()];
    }
    void do_close(Session& c, size_t i) {
        MH m = c.open[i];
        c.open.erase(c.open.begin() + i);
        note(fmt("%s close #%d", c.dir.c_str(), m.index));
        call(c, "d_close", {Tiny_NewInt(m.index)});
        if (fired()) m.sure = false;
        if (m.wr && focus == 13 && !m.h->f->dir) {
            const std::string& got = m.h->f->data;
            if (m.sure) {
                if (got != m.img && !(m.ambiguous && got == m.img2)) broken("write:stored", fmt("file %s: ", m.path.c_str()) + compare(m.img, got));
                count("probe.written file verified");
            } else {
                count("probe.written file verified after faults");
                std::string initial = m.mode[0] == 'w' ? "" : m.h->initial;
                if (!m.seeked && m.mode[0] != 'r') { if (!prefixes(initial, m.reqs, got)) broken("write:stored-under-faults", fmt("file %s is not made of the requested bytes: ", m.path.c_str()) + compare(m.img, got)); }
                else {
                    bool ok[256] = {true};
                    for (char x : initial) ok[(unsigned char)x] = true;
                    for (auto& r : m.reqs) for (char x : r) ok[(unsigned char)x] = true;
                    for (size_t k = 0; k < got.size(); ++k) if (!ok[(unsigned char)got[k]]) broken("write:stored-under-faults", fmt("file %s: byte %zu was never requested", m.path.c_str(), k));
                }
            }
        }
        handles("fclose");
    }
    void do_load(Session& c) {
        std::string p = some_path(c);
        if (busy(c, p, true)) return;
        auto f = file(p);
        if (f && !busy(c, p, false)) f->changed = false;
        size_t nh = fs->handles.size();
        note(fmt("%s read_file %s", c.dir.c_str(), p.c_str()));
        Tiny_Value v = call(c, "d_load", {str(c, p)});
        handles("read_file");
        if (!isstr(v)) {
            note("    -> null");
            if (focus == 12 && v.type != TINY_VAL_NULL) broken("read:result", "read_file returned something that is neither a string nor null");
            if (focus == 12 && !fired() && f && !f->dir) broken("read:null", "read_file failed although nothing went wrong");
            return;
        }
        std::string got = bytes(v);
        note("    -> " + quote(got, 24));
        if (focus != 12) return;
        if (!f) broken("read:invented", "read_file of a missing file gives " + quote(got));
        if (f->dir) { if (!got.empty()) broken("read:invented", "read_file of a directory gives " + quote(got)); return; }
        const std::string& L = longest(*f);
        if (!fired() && got != f->data && !(f->changed && got == f->other)) broken("read:wrong-bytes", "read_file: " + compare(f->data, got));
        size_t delivered = 0;
        for (size_t i = nh; i < fs->handles.size(); ++i) delivered += fs->handles[i]->delivered.size();
        if (got.size() > delivered) broken("read:never-read", fmt("read_file gives %zu bytes, the device delivered %zu", got.size(), delivered));
        if (got.size() > L.size() || L.compare(0, got.size(), got)) broken("read:wrong-bytes-under-faults", "read_file: " + compare(L, got));
        if (pick(2, "look at it")) check_kept(c, got);
    }
    void do_save(Session& c) {
        std::string p = some_path(c), x = content(c);
        if (busy(c, p, false)) return;
        auto f = file(p);
        std::string old = f ? f->data : "";
        bool dir = f && f->dir;
        note(fmt("%s write_file %s %s", c.dir.c_str(), p.c_str(), quote(x, 16).c_str()));
        Tiny_Value v = call(c, "d_save", {str(c, p), str(c, x)});
        bool ok = v.type == TINY_VAL_BOOL && v.boolean;
        note(ok ? "    -> true" : "    -> false");
        handles("write_file");
        if (focus != 13) return;
        if (v.type != TINY_VAL_BOOL) broken("write:result", "write_file did not return a boolean");
        f = file(p);
        std::string now = f ? f->data : "";
        if (ok) {
            if (dir) broken("write:directory", "write_file to a directory reports success");
            if (now != x) broken(fired() ? "write:success-without-storing" : "write:other-bytes", "write_file reported success: " + compare(x, now));
            count("probe.write_file verified");
        } else {
            if (!fired() && !dir) broken("write:refused", "write_file failed although nothing went wrong");
            if (!dir && now != old && (now.size() > x.size() || x.compare(0, now.size(), now))) broken("write:stored-under-faults", "write_file failed and stored something else: " + compare(x, now));
            count("probe.write_file reported failure");
        }
    }
    void do_copy(Session& c) {
        std::string a = some_path(c), b = some_path(c);
        if (a == b || busy(c, a, true) || busy(c, b, false)) return;
        auto f = file(a), g = file(b);
        bool bad = !f || f->dir || (g && g->dir);
        bool echo = pick(2, "copy how");
        static const int ns[] = {100, 1, 64, 5000};
        int n = ns[pick(4, "piece")];
        if (f && n == 1 && f->data.size() > 500) n = 100;
        if (f && f->data.size() > 10000) n = 5000;
        note(fmt("%s %s %s to %s", c.dir.c_str(), echo ? "echo" : "copy", a.c_str(), b.c_str()));
        Tiny_Value v = echo ? call(c, "d_echo", {str(c, a), str(c, b)}) : call(c, "d_copy", {str(c, a), str(c, b), Tiny_NewInt(n)});
        handles(echo ? "read_file and write_file" : "copying");
        bool ok = v.type == TINY_VAL_BOOL && v.boolean;
        if (fired() || bad) return;
        if (!ok) { if (focus != 14) broken(focus == 12 ? "read:null" : "write:refused", "copying failed although nothing went wrong"); return; }
        auto to = file(b);
        if (focus != 14 && to->data != f->data) broken(focus == 12 ? "read:copy" : "write:copy", "the copy differs: " + compare(f->data, to->data));
    }
    void do_junk(Session& c) {
        note(c.dir + " garbage");
        static const int gcs[] = {8, 0, 40};
        c.t->th->maxNumObjects = gcs[pick(3, "gc limit")];
        call(c, "d_junk", {Tiny_NewInt(1 + pick(60, "garbage"))});
        handles("a collection");
    }
    void do_input(Session& c) {
        note(c.dir + " input");
        call(c, "d_input", {});
        handles("input");
    }
    void do_compile_file(Session& c) {
        note("compile file");
        std::string p = some_path(c);
        if (busy(c, p, true)) return;
        f0 = fs->fired;
        Tiny_State* s2 = Tiny_CreateStateWithContext(hs->ctx());
        u64 live = hs->nlive;
        (void)live;
        hang_limit(20000000, "compile file");
        Tiny_CompileFile(s2, p.c_str());
        hang_off();
        handles("Tiny_CompileFile");
        Tiny_DeleteState(s2);
        auto f = file(p);
        if (f) f->changed = false;
    }
    void end_session(Session& c) {
        note(c.dir + " destroy the thread");
        f0 = fs->fired;
        end_thread(c.t);
        c.dead = true;
        if (focus == 14) {
            handles("destroying the thread");
            if (c.t->heap->nlive) { auto l = c.t->heap->live_blocks(); broken("leak:memory", fmt("%zu blocks left in the thread's allocator, the first of %zu bytes", l.size(), l[0].size)); }
        }
    }
    void run() {
        fs = new_fs();
        sizes = focus != 13 && pick(4, "files and their lengths") == 3;
        hs = new_heap("state");
        hs->randomize("state heap");
        s = Tiny_CreateStateWithContext(hs->ctx());
        bind_all(s);
        must_compile(s, "driver.tiny", DRIVER);
        int n = 1 + pick(2, "threads");
        for (int i = 0; i < n; ++i) {
            SimHeap* h = new_heap(i ? "thread 1" : "thread 0");
            h->randomize("thread heap");
            if (focus != 14 && pick(2, "recent memory")) { h->place = 1; h->quarantine = 0; }   // fresh blocks hold what was freed just before
            Session c;
            c.t = new_thread(s, h, 1);
            c.dir = i ? "b/" : "a/";
            c.alphabet = i ? "QRSTU" : "KLMNO";
            static const int gcs[] = {8, 0, 3, 50};
            c.t->th->maxNumObjects = gcs[pick(4, "gc")];
            ss.push_back(c);
        }
        std::string console = "first\nsecond line which is longer\n";
        SimInput in;
        in.data = console;
        FILE* fi = sim_instream(&in);
        FILE* si = stdin;
        stdin = fi;
        for (auto& c : ss) {
            Tiny_StartThread(c.t->th);
            run_to_end(c.t, 100);
            for (int k = 0; k < 3; ++k) fs->put(c.dir + fmt("f%d", k), content(c));
            if (pick(4, "directory") == 3) { fs->put(c.dir + "f2", ""); fs->files[c.dir + "f2"]->dir = true; }
        }
        static const int kinds12[] = {FS_OPEN, FS_READ, FS_SHORT, FS_SEEK, FS_TELL, FS_SIZE, FS_CLOSE};
        static const int kinds13[] = {FS_OPEN, FS_WRITE, FS_SHORTW, FS_SEEK, FS_TELL, FS_CLOSE, FS_SHORT};
        static const int kinds14[] = {FS_OPEN, FS_READ, FS_SHORT, FS_SEEK, FS_TELL, FS_SIZE, FS_WRITE, FS_SHORTW, FS_CLOSE};
        bool faulty = pick(3, "faults") != 0;
        int mask = 0;
        if (faulty) {
            if (focus == 12) { for (int x : kinds12) if (pick(2, "fault kind")) mask |= x; }
            else if (focus == 13) { for (int x : kinds13) if (pick(2, "fault kind")) mask |= x; }
            else for (int x : kinds14) if (pick(2, "fault kind")) mask |= x;
            static const int rates[] = {5, 15, 30, 60};
            fs->rate = rates[pick(4, "fault rate")];
            if (focus != 12 && pick(3, "little space") == 2) fs->space = pick(9000, "space");
        }
        int ops = 4 + pick(50, "operations");
        for (int i = 0; i < ops; ++i) {
            Session& c = ss[ss.size() > 1 ? pick(ss.size(), "thread") : 0];
            if (c.dead) continue;
            fs->enabled = mask;
            fs->budget = 1 + pick(3, "faults in a row");
            int op = pick(22, "operation");
            if (sizes && op < 9) { static const int ops[] = {0, 0, 0, 13, 13, 13, 14, 14, 9}; op = ops[op]; }
            switch (op) {
                case 0: case 1: case 2: case 3: do_open(c); break;
                case 4: case 5: case 6: if (focus == 13) do_write(c); else do_read(c); break;
                case 7: case 8: do_read(c); break;
                case 9: case 10: do_write(c); break;
                case 11: case 12: { MH* m = some_open(c); if (m) do_seek(c, *m); break; }
                case 13: do_size(c); break;
                case 14: case 15: if (!c.open.empty()) do_close(c, pick(c.open.size(), "close")); break;
                case 16: do_load(c); break;
                case 17: do_save(c); break;
                case 18: if (focus == 13) do_save(c); else do_load(c); break;
                case 19: do_copy(c); break;
                case 20: do_junk(c); break;
                case 21: if (focus == 14) { int k = pick(3, "other"); if (k == 0) do_input(c); else if (k == 1) do_compile_file(c); else if (i > ops / 2) end_session(c); } else do_junk(c); break;
            }
        }
        // faults stop: everything can be closed, read and written again
        fs->enabled = 0;
        fs->space = 1 << 24;
        for (auto& c : ss) {
            if (c.dead) continue;
            if (focus != 14 || pick(2, "close all")) while (!c.open.empty()) do_close(c, c.open.size() - 1);
            for (auto& f : fs->files) f.second->changed = false;
            do_save(c);
            do_load(c);
            if (focus == 14) end_session(c);
        }
        sample(history);
        if (focus == 14) {
            Tiny_DeleteState(s);
            if (hs->nlive) broken("leak:memory", fmt("%llu blocks left in the state's allocator", (unsigned long long)hs->nlive));
        }
        stdin = si;
        sig(hash_str(history));
    }
};
}  // namespace
static void io_check(int focus) { Engine* e = new Engine(); e->focus = focus; e->run(); }
void run_c12() { io_check(12); }
void run_c13() { io_check(13); }
void run_c14() { io_check(14); }

// ---- C15 ------------------------------------------------------------------------------------------
void run_c15() {
    SimHeap* hs = new_heap("state");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "driver.tiny",
        "last := \"\"\nfunc ask(p: str): str { last = input(p) return last }\nfunc get(): str { last = input() return last }\nfunc len(): int { return strlen(last) }\n"
        "func two(): str {\n  a := input()\n  b := input(\"? \")\n  return strcat(a, \"|\", b)\n}\n");
    std::string data;
    int nl = pick(12, "lines");
    static const int lens[] = {0, 1, 6, 7, 8, 9, 15, 16, 17, 31, 100, 1023, 4096, 20000};
    bool large = chance(6, "large");
    for (int i = 0; i < nl; ++i) {
        int n = lens[pick(14, "line length")];
        if (large && chance(30, "large line")) { static const int big[] = {32768, 65535, 65536, 70000, 140000}; n = big[pick(5, "line length")]; }
        int style = pick(3, "bytes");
        Rng r(derive("line"));
        for (int k = 0; k < n; ++k) { char c = style == 0 ? 'a' + k % 26 : (char)r.below(style == 1 ? 128 : 256); if (c == '\n') c = '\0'; data += c; }
        data += '\n';
    }
    if (pick(2, "no newline at the end") && !data.empty()) data.pop_back();
    SimInput in;
    in.data = data;
    static const int pieces[] = {0, 1, 7, 300};
    in.maxpiece = pieces[pick(4, "pieces")];
    if (data.size() > 3000 && in.maxpiece && in.maxpiece < 300) in.maxpiece = 300;
    in.err = pick(3, "error at the end") == 2;
    int ne = pick(3, "errors") == 2 ? 1 + pick(3, "how many") : 0;
    for (int i = 0; i < ne; ++i) in.errs.push_back(pick(data.size() + 1, "error at"));
    std::sort(in.errs.begin(), in.errs.end());
    std::vector<size_t> errs = in.errs;
    FILE* fi = sim_instream(&in);
    static char ibuf[4096];
    int b = pick(3, "stdio buffer");
    if (b == 1) setvbuf(fi, nullptr, _IONBF, 0);
    else if (b == 2) setvbuf(fi, ibuf, _IOFBF, 16);
    int n = 1 + pick(2, "threads");
    std::vector<ThreadHost*> ts;
    for (int i = 0; i < n; ++i) {
        SimHeap* h = new_heap(i ? "thread 1" : "thread 0");
        h->randomize("thread heap");
        ThreadHost* t = new_thread(s, h, 1);
        static const int gcs[] = {8, 0, 3, 50};
        t->th->maxNumObjects = gcs[pick(4, "gc")];
        Tiny_StartThread(t->th);
        run_to_end(t, 1000);
        ts.push_back(t);
    }
    std::string out;
    FILE* fo = sim_outstream(&out);
    FILE *so = stdout, *si = stdin;
    stdout = fo;
    stdin = fi;
    sample(fmt("%zu bytes, %d lines, %d errors\n", data.size(), nl, ne) + quote(data, 300));
    // the reference: what the next call returns
    size_t pos = 0;
    std::string prompts;                       // what was asked for
    auto next = [&]() {
        std::string l;
        for (;;) {
            if (!errs.empty() && errs[0] <= pos) { errs.erase(errs.begin()); return l; }
            if (pos >= data.size()) return l;
            char c = data[pos++];
            if (c == '\n') return l;
            l += c;
        }
    };
    int calls = nl + ne + 2 + pick(4, "calls after the end");
    for (int i = 0; i < calls; ++i) {
        ThreadHost* t = ts[n > 1 ? pick(n, "thread") : 0];
        int how = pick(3, "call");
        bool end = pos >= data.size();
        static const char* asks[] = {"name? ", "", "100% sure? %s %n", "\xff\n> "};
        const char* question = asks[pick(4, "prompt")];
        Tiny_Value a = pick(2, "literal prompt") ? Tiny_NewConstString(question) : Tiny_NewStringCopy(t->th, question, strlen(question));
        const char* f = how == 0 ? "get" : how == 1 ? "ask" : "two";
        if (how == 2 && (end || !errs.empty())) { how = 0; f = "get"; }
        std::string want = next();
        bool end2 = pos >= data.size();
        if (how == 2 && !end2) want += "|" + next();
        size_t live = t->heap->live_bytes;
        t->heap->peak_bytes = live;
        hang_limit(400000 + data.size() * 400, "input");
        if (how == 2 && end2) { how = 0; f = "get"; }
        prompts += how == 1 ? question : how == 2 ? "? " : "";
        Tiny_Value v = Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, f), &a, how == 1);
        hang_off();
        steps(1);
        fflush(fo);
        if (out != prompts) violate("input:prompt", fmt("call %d: ", i) + compare(prompts, out));
        if (v.type == TINY_VAL_NULL && want.empty()) continue;
        if (!Engine::isstr(v)) violate("input:result", "input did not return a string");
        std::string got = Engine::bytes(v);
        trace("%s -> %s", f, quote(got, 20).c_str());
        sig(hash_str(got));
        if (got != want) violate(end || end2 ? "input:end" : "input:line", fmt("call %d: ", i) + compare(want, got));
        if (how != 2) {
            Tiny_Value l = Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, "len"), nullptr, 0);
            if (l.type != TINY_VAL_INT || l.i != (int64_t)want.size()) violate("input:length", fmt("the line has %zu bytes, its reported length is %lld", want.size(), (long long)l.i));
        }
        if (t->heap->peak_bytes > live + 16384 + want.size() * 8) violate("input:memory", fmt("%zu bytes used for a line of %zu", t->heap->peak_bytes - live, want.size()));
        if (end) count("probe.input after the end");
    }
    stdout = so;
    stdin = si;
    for (auto t : ts) end_thread(t);
}

#include <math.h>
// ---- C23 ------------------------------------------------------------------------------------------
namespace {
struct OutDev {                        // the device behind standard output
    std::string data;                  // what it took
    bool armed = false;
    int rate = 0, budget = 0, faults = 0;
    size_t firstFault = 0;
    u64 writes = 0;
};
ssize_t dev_write(void* c, const char* b, size_t n) {
    auto* d = (OutDev*)c;
    if (++d->writes > 3000000) violate("output:endless", "the library keeps writing to standard output");
    if (d->data.size() > 40000000) violate("output:endless", "the library keeps writing to standard output");
    if (d->armed && d->budget > 0 && (int)pick(100, "output fault") < d->rate) {
        --d->budget;
        if (!d->faults++) d->firstFault = d->data.size();
        if (n > 1 && pick(2, "short")) {
            size_t k = 1 + pick(n - 1, "taken");
            d->data.append(b, k);
            count("fault.short write to standard output");
            trace("  fault: %zu of %zu bytes taken", k, n);
            return k;
        }
        count("fault.failed write to standard output");
        trace("  fault: write of %zu bytes failed", n);
        errno = pick(2, "errno") ? EIO : ENOSPC;
        return 0;
    }
    d->data.append(b, n);
    return n;
}
// what a value looks like; `cut` is where a value that contains itself comes up again (what stands there is not prescribed)
void render(const Tiny_Value& v, bool repr, std::string& o, std::vector<const void*>& path, size_t& cut) {
    if (o.size() > 200000) discard("value too large to print");
    char b[400];
    switch (v.type) {
        case TINY_VAL_NULL: o += "<null>"; return;
        case TINY_VAL_BOOL: o += v.boolean ? "true" : "false"; return;
        case TINY_VAL_INT: snprintf(b, sizeof b, "%lld", (long long)v.i); o += b; return;
        case TINY_VAL_FLOAT: snprintf(b, sizeof b, "%f", (double)v.f); o += b; return;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: if (repr) o += '"'; o += std::string(Tiny_ToString(v), Tiny_StringLen(v)); if (repr) o += '"'; return;
        case TINY_VAL_LIGHT_NATIVE: snprintf(b, sizeof b, "<light native at %p>", v.addr); o += b; return;
        default: break;
    }
    for (auto p : path) if (p == v.obj) { cut = std::min(cut, o.size()); o += "..."; return; }
    path.push_back(v.obj);
    if (v.type == TINY_VAL_STRUCT) {
        o += "struct {";
        for (int i = 0; i < v.obj->ostruct.n; ++i) { if (i) o += ", "; render(v.obj->ostruct.fields[i], true, o, path, cut); }
        o += "}";
    } else if (is_array_prop(v.obj->nat.prop)) {
        Array* a = (Array*)v.obj->nat.addr;
        o += "[";
        for (int i = 0; i < ArrayLen(a); ++i) { if (i) o += ", "; render(*ArrayGet(a, i), true, o, path, cut); }
        o += "]";
    } else {
        snprintf(b, sizeof b, "<native '%s' at %p>", v.obj->nat.prop->name, v.obj->nat.addr);
        o += b;
    }
    path.pop_back();
}
std::string fmtf(double f) { char b[400]; snprintf(b, sizeof b, "%f", f); return b; }
}  // namespace
void run_c23() {
    SimHeap* hs = new_heap("state");
    Tiny_State* s = Tiny_CreateStateWithContext(hs->ctx());
    bind_all(s);
    must_compile(s, "driver.tiny",
        "struct P { a: any b: any }\nstruct Q { x: any y: any z: any }\nuse array(\"any\") as aa\nuse array(\"int\") as ai\nuse array(\"float\") as af\nuse array(\"bool\") as ab\nkeep := aa()\n"
        "func ints(n: int, x: int): any { r := ai() for i := 0; i < n; i += 1 { ai_push(r, x * i) } aa_push(keep, r) return r }\nfunc floats(x: float): any { r := af(x, 0.25) aa_push(keep, r) return r }\nfunc bools(x: bool): any { r := ab(x, true, false) aa_push(keep, r) return r }\n"
        "func hold(x: any) { aa_push(keep, x) }\nfunc p(a: any, b: any): P { r := new P{a, b} aa_push(keep, r) return r }\nfunc q(a: any, b: any): Q { r := new Q{a, b, a} aa_push(keep, r) return r }\n"
        "func arr(a: any): any { r := aa() aa_push(r, a) aa_push(keep, r) return r }\nfunc arr0(): any { r := aa() aa_push(keep, r) return r }\nfunc dd(k: str): any { r := dict(k, 1) aa_push(keep, r) return r }\n"
        "func add(a: any, x: any) { aa_push(cast(a, aa), x) }\nfunc seta(r: any, x: any) { w := cast(r, P) w.b = x }\nfunc setq(r: any, x: any) { w := cast(r, Q) w.z = x }\n"
        "func drop() { aa_clear(keep) }\n"
        "func o0(f: str) { printf(f) }\nfunc o1(f: str, a: any) { printf(f, a) }\nfunc o2(f: str, a: any, b: any) { printf(f, a, b) }\nfunc o3(f: str, a: any, b: any, c: any) { printf(f, a, b, c) }\n"
        "func bye(f: str, a: any, n: int) { printf(f, a) if n > 1000 { exit(n - 1000) } deep(n) }\nfunc deep(n: int) { if n < 3 { printf(\"last\") exit(n) } deep(n - 3) }\n"
        "func twice(f: str, a: any): str { printf(f, a) x := strcat(\"r\", \"s\") printf(f, a) return x }\n"
        "func big(): int { n := 0 for i := 0; i < 300; i += 1 { x := strcat(\"abc\", int_to_str(i)) n += strlen(x) } return n }\n"
        "who := host_in()\nturns := 4\n"
        "for i := 0; i < turns; i += 1 {\n  printf(\"%i:%i %s|\", who, i, strcat(\"x\", int_to_str(i)))\n  g := new P{i, strcat(\"y\", \"z\")}\n  printf(\"%q%c%%\", g, 65 + i)\n  l := aa(i, 0.5, true)\n  printf(\"%q\\n\", l)\n}\n");
    OutDev dev;
    cookie_io_functions_t io = {nullptr, dev_write, nullptr, nullptr};
    FILE* fo = fopencookie(&dev, "w", io);
    static char obuf[70000];
    static const int sizes[] = {0, 1, 16, 64, 1024, 65536};
    int b = pick(6, "stdio buffer");
    if (b == 0) setvbuf(fo, nullptr, _IONBF, 0);
    else setvbuf(fo, obuf, b == 3 ? _IOLBF : _IOFBF, sizes[b]);
    FILE* so = stdout;
    stdout = fo;
    bool faulty = pick(3, "faults") != 0;
    static const int rates[] = {5, 20, 60, 100};
    dev.rate = faulty ? rates[pick(4, "fault rate")] : 0;
    int n = 1 + pick(3, "threads");
    std::vector<ThreadHost*> ts;
    std::string expect, history;
    auto flush = [&] { fflush(fo); };
    // 1: programs interleaved at any instruction
    std::vector<std::string> mine(n);
    std::vector<size_t> at(n);
    for (int i = 0; i < n; ++i) {
        SimHeap* h = new_heap(i == 0 ? "thread 0" : i == 1 ? "thread 1" : "thread 2");
        h->randomize("thread heap");
        ThreadHost* t = new_thread(s, h, derive("input"));
        static const int gcs[] = {8, 0, 3, 50, 1};
        t->th->maxNumObjects = gcs[pick(5, "gc")];
        ts.push_back(t);
        Tiny_StartThread(t->th);
    }
    std::vector<int> live(n);
    for (int i = 0; i < n; ++i) live[i] = i;
    std::vector<bool> known(n);
    bool lost = false;
    hang_limit(40000000, "printing");
    while (!live.empty()) {
        int k = live[live.size() > 1 ? pick(live.size(), "thread") : 0];
        int slice = 1 + pick(30, "instructions");
        for (; slice; --slice) {
            ThreadHost* t = ts[k];
            dev.armed = faulty;
            dev.budget = 1;
            size_t before = dev.data.size();
            bool more = step(t);
            flush();
            dev.armed = false;
            steps(1);
            std::string got = dev.data.substr(before);
            if (!known[k] && Tiny_GetGlobalIndex(s, "who") >= 0) {
                Tiny_Value w = Tiny_GetGlobal(t->th, Tiny_GetGlobalIndex(s, "who"));
                if (w.type == TINY_VAL_INT) {
                    known[k] = true;
                    for (int i = 0; i < 4; ++i) mine[k] += fmt("%lld:%d x%d|struct {%d, \"yz\"}%c%%[%d, %s, true]\n", (long long)w.i, i, i, i, 'A' + i, i, fmtf(0.5).c_str());
                }
            }
            if (dev.faults) lost = true;      // what a fault took is gone; only the programs' progress is of interest from here on
            if (!lost) {
                if (mine[k].compare(at[k], got.size(), got)) violate("output:interleaved", fmt("thread %d wrote something else: ", k) + compare(mine[k].substr(at[k], got.size() + 20), got));
                at[k] += got.size();
            }
            if (!more) { live.erase(std::find(live.begin(), live.end(), k)); break; }
        }
    }
    hang_off();
    for (int i = 0; i < n; ++i) {
        if (!lost && at[i] != mine[i].size()) violate("output:incomplete", fmt("thread %d: ", i) + compare(mine[i], mine[i].substr(0, at[i])));
        if (!Tiny_IsThreadDone(ts[i]->th)) violate("output:disturbed", "a program did not end");
    }
    history = fmt("%d threads, faults %d\n", n, dev.rate);
    // 2: any value
    std::vector<std::vector<Tiny_Value>> vals(n);
    int ops = 5 + pick(60, "operations");
    for (int o = 0; o < ops; ++o) {
        int k = n > 1 ? pick(n, "thread") : 0;
        ThreadHost* t = ts[k];
        auto& vs = vals[k];
        auto call = [&](const char* f, std::vector<Tiny_Value> a) {
            hang_limit(60000000, f);
            Tiny_Value r = Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, f), a.data(), a.size());
            hang_off();
            steps(1);
            return r;
        };
        auto any = [&]() { return vs.empty() ? Tiny_NewInt(7) : vs[pick(vs.size(), "value")]; };
        auto str = [&]() {
            static const int lens[] = {0, 1, 3, 20, 300, 5000};
            int len = lens[pick(6, "length")];
            if (chance(3, "long")) len = 66000;
            std::string b;
            Rng r(derive("bytes"));
            int style = pick(3, "style");
            for (int i = 0; i < len; ++i) b += style == 0 ? 'a' + i % 26 : style == 1 ? " %\"\\n\n"[r.below(6)] : (char)r.below(256);
            return b;
        };
        auto heapstr = [&](const std::string& x) {
            Tiny_Value v;
            if (x.size() && pick(3, "string made by the host") == 2) {   // its bytes only, no terminator
                char* b = (char*)Tiny_AllocUsingContext(t->th->ctx, nullptr, x.size());
                memcpy(b, x.data(), x.size());
                v = Tiny_NewString(t->th, b, x.size());
            } else v = Tiny_NewStringCopy(t->th, x.data(), x.size());
            call("hold", {v});
            return v;
        };
        int op = pick(16, "operation");
        if (op < 8 || vs.empty()) {
            switch (pick(16, "new value")) {
                case 0: vs.push_back(Tiny_NewInt((int)derive("int"))); break;
                case 1: { static const double fs[] = {0, -0.0, 1.5, 1e30, -123456.789, 1e-9, 1e308 * 10}; vs.push_back(Tiny_NewFloat(fs[pick(7, "float")])); break; }
                case 2: vs.push_back(Tiny_NewBool(pick(2, "bool"))); break;
                case 3: vs.push_back(Tiny_Null); break;
                case 4: { static const char* cs[] = {"", "const", "per%cent", "quo\"te"}; vs.push_back(Tiny_NewConstString(cs[pick(4, "const")])); break; }
                case 5: case 6: vs.push_back(heapstr(str())); break;
                case 7: case 8: { Tiny_Value x = any(); vs.push_back(call("p", {x, any()})); break; }
                case 9: { Tiny_Value x = any(); vs.push_back(call("q", {x, any()})); break; }
                case 10: vs.push_back(call("arr", {any()})); break;
                case 11: vs.push_back(call("arr0", {})); break;
                case 12: vs.push_back(call("dd", {Tiny_NewConstString("key")})); break;
                case 13: vs.push_back(Tiny_NewLightNative((void*)(intptr_t)(1000 + pick(50, "address")))); break;
                case 14: { Tiny_Value len = Tiny_NewInt(pick(5, "ints")); vs.push_back(call("ints", {len, Tiny_NewInt((int)derive("int"))})); break; }
                case 15: vs.push_back(pick(2, "floats") ? call("floats", {Tiny_NewFloat(pick(1000, "float") / 8.0)}) : call("bools", {Tiny_NewBool(pick(2, "bool"))})); break;
            }
            continue;
        }
        if (op == 8) { call("drop", {}); vs.clear(); call("big", {}); continue; }
        if (op == 9 || op == 10) {   // values inside of each other, possibly in a circle
            Tiny_Value c = any(), x = any();
            if (c.type == TINY_VAL_NATIVE && is_array_prop(c.obj->nat.prop) && c.obj->nat.prop->protectFromGC) { if (ArrayLen((Array*)c.obj->nat.addr) < 6) call("add", {c, x}); }
            else if (c.type == TINY_VAL_STRUCT) call(c.obj->ostruct.n == 2 ? "seta" : "setq", {c, x});
            continue;
        }
        // a format and its values
        std::string f, want;
        std::vector<Tiny_Value> a;
        int items = pick(4, "items");
        size_t sure = std::string::npos;    // bytes which are prescribed
        int holes = 0;
        for (int i = 0; i <= items; ++i) {
            if (pick(2, "text")) {
                std::string x = str().substr(0, 40);
                for (char& ch : x) if (ch == '%') ch = '_';
                f += x;
                want += x;
            }
            if (pick(5, "percent") == 4) { f += "%%"; want += "%"; }
            if (holes == 3) continue;
            int kind = pick(6, "directive");
            Tiny_Value x = any();
            std::string r;
            std::vector<const void*> path;
            size_t cut = std::string::npos;
            if (kind == 0) { x = Tiny_NewInt(0); x.i = (int64_t)derive("int") >> (pick(3, "wide") * 24); f += "%i"; r = fmt("%lld", (long long)x.i); }
            else if (kind == 1) { x = Tiny_NewFloat(pick(100000, "float") / 16.0); f += "%f"; r = fmtf(x.f); }
            else if (kind == 2) { x = Tiny_NewInt(pick(256, "char")); f += "%c"; r = std::string(1, (char)x.i); }
            else if (kind == 3) { if (x.type != TINY_VAL_STRING && x.type != TINY_VAL_CONST_STRING) x = heapstr(str()); f += "%s"; r = std::string(Tiny_ToString(x), Tiny_StringLen(x)); }
            else { f += "%q"; render(x, true, r, path, cut); }
            a.push_back(x);
            ++holes;
            if (cut != std::string::npos && sure == std::string::npos) sure = want.size() + cut;
            want += r;
        }
        // text behind the last directive is cut off when a percent sign ends the format
        bool back = sure != std::string::npos, open = pick(8, "open end") == 7 && holes < 3 && !back;
        if (!back) sure = want.size();
        if (open) { f += "%"; a.push_back(Tiny_NewInt(3)); ++holes; }
        Tiny_Value fv = heapstr(f);
        std::vector<Tiny_Value> args = {fv};
        for (auto& x : a) args.push_back(x);
        static const char* names[] = {"o0", "o1", "o2", "o3"};
        bool two = holes == 1 && !open && !back && pick(4, "twice") == 3;
        flush();
        size_t before = dev.data.size();
        dev.armed = faulty && pick(2, "fault now");
        dev.budget = 1 + pick(4, "faults in a row");
        int nf = dev.faults;
        dev.firstFault = 0;
        dev.faults = 0;
        trace("thread %d printf(%s, %d values)", k, quote(f, 60).c_str(), holes);
        Tiny_Value r = call(two ? "twice" : names[holes], args);
        flush();
        dev.armed = false;
        if (two) { want += want; if (!Engine::isstr(r) || Engine::bytes(r) != "rs") violate("output:disturbed", "a call which prints did not return what it should"); }
        std::string got = dev.data.substr(before);
        sig(hash_str(want) + holes);
        history += fmt("printf %s -> %s\n", quote(f, 60).c_str(), quote(want, 60).c_str());
        if (back) count("probe.printed a value containing itself");
        if (two) sure = want.size();
        if (dev.faults) {
            sure = std::min(dev.firstFault - before, sure);
            if (got.compare(0, sure, want, 0, sure)) violate("output:wrong", "before a fault: " + compare(want.substr(0, sure), got.substr(0, sure)));
        } else if (back || open) {
            if (got.compare(0, sure, want, 0, sure)) violate("output:wrong", compare(want.substr(0, sure), got.substr(0, sure + 20)));
            if (got.size() > want.size() * 4 + 1000) violate("output:endless", fmt("%zu bytes, %zu expected", got.size(), want.size()));
        } else if (got != want) violate("output:wrong", compare(want, got));
        bool hit = dev.faults != 0;
        dev.faults += nf;
        if (hit) {
            // output works again once the faults stop
            clearerr(fo);
            before = dev.data.size();
            call("o1", {Tiny_NewConstString("again %i\n"), Tiny_NewInt(o)});
            flush();
            std::string w = fmt("again %d\n", o);
            if (dev.data.size() < before + w.size() || dev.data.compare(dev.data.size() - w.size(), w.size(), w)) violate("output:lost-after-faults", compare(w, dev.data.substr(before)));
        }
    }
    sample(history);
    if (pick(2, "how it ends")) {   // the script ends the process
        clearerr(fo);
        size_t before = (fflush(fo), dev.data.size());
        ThreadHost* t = ts[pick(n, "who ends it")];
        int code = pick(3, "status") == 2 ? 1001 + (int)pick(255, "status") : (int)pick(30, "status");
        static const char* texts[] = {"bye", "a longer line, which ends\n", "100%% %q\n", "", "\n"};
        int x = pick(5, "last words");
        Tiny_Value a[] = {Tiny_NewConstString(texts[x]), Tiny_NewInt(7), Tiny_NewInt(code)};
        std::string want = x == 2 ? "100% 7\n" : texts[x];
        int status = code > 1000 ? code - 1000 : code % 3;
        if (code <= 1000) want += "last";
        trace("thread %d prints and exits", (int)(std::find(ts.begin(), ts.end(), t) - ts.begin()));
        count("schedule.exit");
        jmp_buf end;
        hang_limit(60000000, "exit");
        if (!setjmp(end)) {
            g_exit_to = &end;
            Tiny_CallFunction(t->th, Tiny_GetFunctionIndex(s, "bye"), a, 3);
            violate("output:exit", "exit returned");
        }
        hang_off();
        std::string got = dev.data.substr(before);
        stdout = so;
        if (got != want) violate("output:exit", "when the process had ended: " + compare(want, got));
        if (g_exit_code != status) violate("output:exit", fmt("exit(%d) ended the process with %d", status, g_exit_code));
        return;
    }
    fflush(fo);
    stdout = so;
    for (auto t : ts) end_thread(t);
    Tiny_DeleteState(s);
    if (hs->nlive) violate("output:leak", fmt("%llu blocks left", (unsigned long long)hs->nlive));
}
