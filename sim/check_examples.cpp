// Checks over the example programs: the web server's request parser and queue, the editor's text buffer.
#include <string.h>
#include <algorithm>
#include "simfs.h"
#include "world.h"
extern "C" {
#include "server/include/request.h"
#include "server/include/requestparser.h"
#include "server/include/list.h"
#include "server/include/stretchy_buffer.h"
#include "notepad/include/buffer.h"
}

// ---- the C library the examples use -----------------------------------------------------------
static SimHeap* g_ex;
static int g_exyield;     // percent: calls into the system are points of preemption
static void system_call() { if (fiber_self() >= 0 && g_exyield && pick(100, "preempted in a call") >= 100u - g_exyield) fiber_yield(); }
extern "C" void* ex_malloc(size_t n) { system_call(); return g_ex->alloc(nullptr, n ? n : 1); }
extern "C" void* ex_calloc(size_t n, size_t m) { system_call(); void* p = g_ex->alloc(nullptr, n * m ? n * m : 1); memset(p, 0, n * m); return p; }
extern "C" void* ex_realloc(void* p, size_t n) { system_call(); return g_ex->alloc(p, n ? n : 1); }
extern "C" void ex_free(void* p) { system_call(); if (p) g_ex->alloc(p, 0); }
struct Lock { uint32_t magic; int owner; };
enum { ALIVE = 0x4d757478, DEAD = 0x64656164 };
extern "C" int mtx_init(mtx_t* m, int) { Lock* l = (Lock*)m; l->magic = ALIVE; l->owner = -2; return 0; }
extern "C" void mtx_destroy(mtx_t* m) {
    Lock* l = (Lock*)m;
    if (l->magic != ALIVE) violate("lock:destroyed-invalid", "a mutex which does not exist was destroyed");
    if (l->owner != -2) violate("lock:destroyed-held", fmt("a mutex held by thread %d was destroyed", l->owner));
    l->magic = DEAD;
}
extern "C" int mtx_lock(mtx_t* m) {
    Lock* l = (Lock*)m;
    system_call();
    for (;;) {
        if (l->magic != ALIVE) violate("lock:invalid", "a mutex which does not exist was locked");
        if (l->owner == -2) break;
        if (l->owner == fiber_self()) violate("lock:recursive", "a thread locked a mutex which it holds");
        count("schedule.waited for the lock");
        hang_limit(2000000, "waiting for a mutex");
        fiber_yield();
    }
    l->owner = fiber_self();
    return 0;
}
extern "C" int mtx_trylock(mtx_t* m) { Lock* l = (Lock*)m; system_call(); if (l->owner != -2) return 3; l->owner = fiber_self(); return 0; }
extern "C" int mtx_unlock(mtx_t* m) {
    Lock* l = (Lock*)m;
    if (l->magic != ALIVE) violate("lock:invalid", "a mutex which does not exist was unlocked");
    if (l->owner != fiber_self()) violate("lock:unlocked-not-held", fmt("thread %d unlocked a mutex held by %d", fiber_self(), l->owner));
    l->owner = -2;
    system_call();
    return 0;
}

// ---- C20: segmentation ----------------------------------------------------------------------------
struct Req { std::string method, target, version, body; std::vector<std::pair<std::string, std::string>> headers; };
static std::string show_req(const Request& r) {
    std::string o = std::string("[") + std::string(r.method, strnlen(r.method, sizeof r.method)) + "|" + std::string(r.target, strnlen(r.target, sizeof r.target)) + "|" + std::string(r.version, strnlen(r.version, sizeof r.version)) + "]\n";
    for (int i = 0; i < sb_count(r.headers); ++i) {
        auto& h = r.headers[i];
        if (sb_count(h.value) < 1 || h.value[sb_count(h.value) - 1] != 0) violate("request:value-unterminated", fmt("header %d", i));
        o += std::string(h.name, strnlen(h.name, sizeof h.name)) + "=" + std::string(h.value, sb_count(h.value) - 1) + "\n";
    }
    if (r.body) o += fmt("body %d ", sb_count(r.body)) + std::string(r.body, sb_count(r.body));
    return o + "\n";
}
static std::string show_req(const Req& r) {
    std::string o = "[" + r.method + "|" + r.target + "|" + r.version + "]\n";
    for (auto& h : r.headers) o += h.first + "=" + h.second + "\n";
    if (!r.body.empty()) o += fmt("body %d ", (int)r.body.size() + 1) + r.body + std::string(1, '\0');
    return o + "\n";
}
// What the connection loop does with received segments; the peer goes away after the last one.
static std::string parse_stream(const std::string& stream, const std::vector<size_t>& cuts, bool& error, int& nreq) {
    std::string o;
    Request* r = (Request*)g_ex->alloc(nullptr, sizeof(Request));
    RequestParser* p = (RequestParser*)g_ex->alloc(nullptr, sizeof(RequestParser));
    error = false;
    nreq = 0;
    InitRequest(r);
    InitRequestParser(p);
    size_t at = 0;
    for (size_t c = 0; c <= cuts.size() && !error; ++c) {
        size_t end = c < cuts.size() ? cuts[c] : stream.size();
        size_t len = end - at;
        char* seg = (char*)g_ex->alloc(nullptr, len ? len : 1);
        memcpy(seg, stream.data() + at, len);
        size_t k = 0;
        while (k < len) {
            hang_limit(2000000 + len * 4000, "parse");
            int m = ParseRequest(p, r, seg + k, (int)(len - k));
            hang_off();
            if (m == REQUEST_ERROR) { error = true; break; }
            if (m <= 0) violate("request:no-progress", fmt("%d bytes consumed of %zu", m, len - k));
            if ((size_t)m > len - k) violate("request:consumed-too-much", fmt("%d bytes consumed of %zu", m, len - k));
            k += m;
            if (p->state == REQUEST_STATE_DONE) {
                o += fmt("complete before byte %zu: ", at + k) + show_req(*r);
                for (int i = 0; i < sb_count(r->headers); ++i) {
                    const char* v = GetHeaderValue(r, r->headers[i].name);
                    if (!v) violate("request:header-lost", r->headers[i].name);
                    o += std::string("get ") + v + "\n";
                }
                if (GetHeaderValue(r, "X-No-Such-Header: ")) violate("request:header-invented", "");
                ++nreq;
                DestroyRequest(r);
                InitRequest(r);
                InitRequestParser(p);
            }
        }
        g_ex->alloc(seg, 0);
        at = end;
    }
    if (error) o += "rejected";
    else o += p->state == REQUEST_STATE_FIRST_LINE ? "" : fmt("incomplete in state %d", (int)p->state);
    // as when the connection is closed
    DestroyRequest(r);
    DestroyRequestParser(p);
    g_ex->alloc(r, 0);
    g_ex->alloc(p, 0);
    return o;
}
static std::string token(int max, const char* label) {
    static const int lens[] = {1, 3, 8, 20, 40, 62, 63, 200, 255, 511};
    int n = std::min(lens[pick(10, label)], max);
    std::string s;
    Rng g(derive(label));
    while ((int)s.size() < n) { char c = 33 + g.below(94); if (c != ':') s += c; }
    return s;
}
void run_c20() {
    g_ex = new_heap("server");
    g_ex->randomize("server heap");
    g_exyield = 0;
    std::string stream;
    std::vector<Req> rs;
    int n = 1 + pick(3, "requests");
    std::string want;
    bool wellformed = true;
    for (int i = 0; i < n; ++i) {
        Req r;
        static const char* methods[] = {"GET", "POST", "PUT", "X"};
        r.method = pick(3, "known method") ? methods[pick(4, "method")] : token(REQUEST_METHOD_SIZE - 1, "method length");
        r.target = "/" + (pick(2, "short target") ? std::string("view/a") : token(REQUEST_TARGET_SIZE - 2, "target length"));
        r.version = pick(3, "known version") ? "HTTP/1.1" : token(REQUEST_VERSION_SIZE - 1, "version length");
        const char* nl = pick(4, "bare newline") == 3 ? "\n" : "\r\n";
        std::string t;
        for (int k = pick(8, "empty lines") == 7 ? 2 : 0; k > 0; --k) t += nl;
        std::string sp(1 + (pick(6, "wide spaces") == 5 ? 2 : 0), ' ');
        t += r.method + sp + r.target + sp + r.version + (pick(10, "trailing space") == 9 ? " " : "") + nl;
        int nh = pick(6, "headers");
        int bodyAt = pick(3, "body") == 2 ? (int)pick(nh + 1, "length header") : -1;
        for (int h = 0; h <= nh; ++h) {
            if (h == bodyAt) {
                static const int sizes[] = {1, 2, 7, 64, 513, 3000, 0};
                int m = sizes[pick(7, "body size")];
                Rng g(derive("body bytes"));
                int alphabet = pick(3, "body kind");
                for (int k = 0; k < m; ++k) r.body += alphabet == 0 ? (char)('a' + g.below(26)) : alphabet == 1 ? (char)g.below(256) : "\r\n: GET /"[g.below(9)];
                std::string len = fmt(pick(5, "padded") == 4 ? "%04d" : "%d", m);
                t += "Content-Length:" + std::string(pick(3, "pad"), ' ') + len + nl;
                r.headers.push_back({"Content-Length", len});
            }
            if (h == nh) break;
            std::string name = pick(3, "short name") ? fmt("X-H%d", (int)pick(5, "name")) : token(REQUEST_HEADER_NAME_SIZE - 1, "name length");
            std::string val;
            Rng g(derive("value bytes"));
            int m = pick(4, "value length") ? (int)pick(20, "value size") : (int)pick(700, "long value");
            bool high = pick(4, "high bytes") == 3;
            for (int k = 0; k < m; ++k) val += high ? (char)(128 + g.below(128)) : (char)(33 + g.below(94));
            if (val.size() > 3 && pick(2, "space inside")) val[val.size() / 2] = ' ';
            t += name + ":" + std::string(pick(3, "pad"), ' ') + val + nl;
            r.headers.push_back({name, val});
        }
        t += nl;
        t += r.body;
        rs.push_back(r);
        stream += t;
        want += fmt("complete before byte %zu: ", stream.size()) + show_req(r);
        for (auto& h : r.headers) { for (auto& x : r.headers) if (x.first == h.first) { want += "get " + x.second + "\n"; break; } }
    }
    if (pick(3, "malformed") == 2) {
        wellformed = false;
        count("fault.damaged request");
        int k = 1 + pick(3, "damages");
        for (int i = 0; i < k && !stream.empty(); ++i) {
            size_t a = pick(stream.size(), "where");
            static const char bytes[] = {'\n', '\r', ':', ' ', '\t', 0, (char)0xff, 'A', '\v', '-'};
            switch (pick(7, "damage")) {
                case 0: stream.resize(a); break;
                case 1: stream.erase(a, 1 + pick(30, "span")); break;
                case 2: stream[a] = bytes[pick(10, "byte")]; break;
                case 3: stream.insert(a, 1, bytes[pick(10, "byte")]); break;
                case 4: { static const int cs[] = {1, 60, 64, 300, 600}; stream.insert(a, std::string(cs[pick(5, "times")], bytes[pick(10, "byte")])); break; }
                case 5: { size_t c = stream.find("Content-Length:"); static const char* ls[] = {" -1", " 99999999999999999999", " 2147483648", " 5x", "", " 1e3", "\t7", " 4294967297", "  +3", " 00"}; if (c != std::string::npos) stream.replace(c + 15, 2, ls[pick(10, "length")]); break; }
                case 6: stream.insert(a, stream.substr(pick(stream.size(), "from"), 1 + pick(40, "span"))); break;
            }
        }
    } else if (pick(4, "connection lost") == 3) {
        wellformed = false;
        stream.resize(pick(stream.size(), "lost at"));
        count("fault.connection lost");
    }
    sample(fmt("%d requests, %zu bytes: ", n, stream.size()) + stream.substr(0, 500));
    bool err0;
    int n0;
    u64 live = g_ex->nlive;
    std::string whole = parse_stream(stream, {}, err0, n0);
    if (g_ex->nlive != live) violate("request:leak", fmt("%d blocks left", (int)(g_ex->nlive - live)));
    if (wellformed && whole != want) violate("request:wrong", obs_diff(want, whole));
    steps(stream.size());
    int rounds = 1 + pick(3, "deliveries");
    for (int k = 0; k < rounds; ++k) {
        std::vector<size_t> cuts;
        int style = pick(4, "segmentation");
        if (style == 0) for (size_t i = 1; i < stream.size(); ++i) cuts.push_back(i);
        else if (style == 1) { if (stream.size()) cuts.push_back(pick(stream.size(), "cut")); }
        else if (style == 2) { int m = 1 + pick(8, "cuts"); for (int i = 0; i < m && stream.size(); ++i) cuts.push_back(pick(stream.size(), "cut")); }
        else { size_t step = 1 + pick(40, "segment size"); for (size_t i = step; i < stream.size(); i += step) cuts.push_back(i); }
        std::sort(cuts.begin(), cuts.end());
        for (size_t c : cuts) sig(c);
        sig(hash_str(stream));
        count("fault.segment", cuts.size());
        bool err;
        int nr;
        std::string got = parse_stream(stream, cuts, err, nr);
        steps(stream.size());
        if (got != whole) violate("request:depends-on-segmentation", fmt("%zu segments, first cut at %zu\n", cuts.size() + 1, cuts.empty() ? 0 : cuts[0]) + obs_diff(whole, got));
        if (g_ex->nlive != live) violate("request:leak", fmt("%d blocks left", (int)(g_ex->nlive - live)));
    }
    count(err0 ? "probe.rejected" : "probe.accepted");
}

// ---- C21: queue -----------------------------------------------------------------------------------
void run_c21() {
    g_ex = new_heap("server");
    g_ex->randomize("server heap");
    g_exyield = 20 + 20 * pick(3, "preemption in calls");
    static const int sizes[] = {4, 8, 16, 1, 33, 640};
    size_t size = sizes[pick(6, "item size")];
    int np = 1 + pick(4, "producers"), nc = 1 + pick(3, "consumers");
    int per = 1 + pick(12, "items each");
    if (size == 1) per = std::min(per, 60 / np);
    struct Op { int kind; int v; u64 a, b; };   // 0 push, 1 pop of v, 2 pop of nothing
    std::vector<Op> h;
    u64 clock = 0;
    auto item = [&](int v, char* b) { for (size_t i = 0; i < size; ++i) b[i] = (char)((v + 1) * (i * 7 + 1) + (i >= 1 ? (v >> 8) + 3 * i : 0)); };
    auto value = [&](const char* b) -> int {
        std::string t(size, 0);
        for (int v = 0; v < np * per; ++v) { item(v, &t[0]); if (!memcmp(t.data(), b, size)) return v; }
        return -1;
    };
    List* l = (List*)g_ex->alloc(nullptr, sizeof(List));
    InitList(l, size);
    std::vector<std::function<void()>> bodies;
    int left = np, popped = 0, total = np * per;
    for (int p = 0; p < np; ++p) bodies.push_back([&, p]() {
        char* b = (char*)g_ex->alloc(nullptr, size);
        for (int k = 0; k < per; ++k) {
            item(p * per + k, b);
            u64 a = ++clock;
            ListPushBack(l, b);
            h.push_back({0, p * per + k, a, ++clock});
            memset(b, 0x77, size);
            if (pick(4, "pause")) fiber_yield();
        }
        --left;
        g_ex->alloc(b, 0);
    });
    // some of the items are left in the queue when it is destroyed
    int leave = pick(3, "items left") == 2 ? (int)pick(total + 1, "left in the queue") : 0;
    bool requeue = pick(4, "consumer puts back") == 3;
    for (int c = 0; c < nc; ++c) bodies.push_back([&, c]() {
        char* b = (char*)g_ex->alloc(nullptr, size);
        bool waits = pick(2, "looks first");
        while (popped < total - leave) {
            if (waits) { mtx_lock(&l->mutex); bool empty = !l->head; mtx_unlock(&l->mutex); if (empty) { fiber_yield(); if (left) continue; } }
            memset(b, 0x66, size);
            u64 a = ++clock;
            bool ok = ListPopFront(l, b);
            if (ok) {
                int v = value(b);
                if (v < 0) violate("queue:item-damaged", "a popped item was never pushed");
                h.push_back({1, v, a, ++clock});
                ++popped;
                trace("consumer %d pops %d", c, v);
            } else {
                for (size_t i = 0; i < size; ++i) if (b[i] != 0x66) violate("queue:wrote-without-item", "");
                h.push_back({2, -1, a, ++clock});
                if (h.size() > 5000) violate("queue:no-progress", "consumers keep finding the queue empty");
                fiber_yield();
            }
        }
        g_ex->alloc(b, 0);
    });
    (void)requeue;
    sample(fmt("%d producers of %d items of %zu bytes, %d consumers, %d items left, calls preempted %d%%", np, per, size, nc, leave, g_exyield));
    hang_limit(20000000, "queue");
    run_fibers(bodies, {}, 3000);
    hang_off();
    int last = popped;
    {   // the main thread drains what it may and destroys the rest
        std::string b(size, 0);
        int extra = leave ? (int)pick(leave + 1, "drained") : 0;
        for (int k = 0; k < extra && last < total; ++k) {
            u64 a = ++clock;
            bool ok = ListPopFront(l, &b[0]);
            if (!ok) violate("queue:lost", fmt("%d of %d items were delivered, then the queue was empty", last, total));
            int v = value(b.data());
            if (v < 0) violate("queue:item-damaged", "a popped item was never pushed");
            h.push_back({1, v, a, ++clock});
            ++last;
        }
        if (last == total) {
            if (ListPopFront(l, &b[0])) violate("queue:item-invented", "an item was left when all had been delivered");
        }
        u64 n0 = 0;
        (void)n0;
    }
    DestroyList(l);
    g_ex->alloc(l, 0);
    if (g_ex->nlive) violate("queue:leak", fmt("%d blocks left after destroying the queue", (int)g_ex->nlive));
    // history: exactly once, and linearizable as a FIFO
    std::map<int, Op> push, pop;
    for (auto& o : h) {
        if (o.kind == 0) push[o.v] = o;
        if (o.kind == 1) { if (pop.count(o.v)) violate("queue:delivered-twice", fmt("item %d", o.v)); pop[o.v] = o; }
    }
    auto line = [](const Op& o) { return fmt("%s %d [%llu,%llu]", o.kind == 0 ? "push" : o.kind == 1 ? "pop" : "empty", o.v, (unsigned long long)o.a, (unsigned long long)o.b); };
    for (auto& x : pop) {
        if (!push.count(x.first)) violate("queue:item-invented", fmt("item %d", x.first));
        if (x.second.b < push[x.first].a) violate("queue:popped-before-pushed", line(x.second));
    }
    for (auto& x : push) for (auto& y : push) {
        if (x.second.b >= y.second.a || !pop.count(y.first)) continue;   // x entirely before y
        if (!pop.count(x.first) || pop[y.first].b < pop[x.first].a)
            violate("queue:out-of-order", line(x.second) + ", " + line(y.second) + ", " + line(pop[y.first]) + (pop.count(x.first) ? ", " + line(pop[x.first]) : ", never popped"));
    }
    for (auto& o : h) if (o.kind == 2)
        for (auto& x : push) if (x.second.b < o.a && (!pop.count(x.first) || pop[x.first].a > o.b)) violate("queue:empty-with-item", line(o) + ", " + line(x.second) + (pop.count(x.first) ? ", " + line(pop[x.first]) : ", never popped"));
    steps(h.size());
    for (auto& o : h) sig(o.kind * 1000003 + o.v * 31 + o.b);
    count("probe.pop found nothing", std::count_if(h.begin(), h.end(), [](const Op& o) { return o.kind == 2; }));
    count("probe.items delivered", pop.size());
}

// ---- C22: editor ----------------------------------------------------------------------------------
typedef std::vector<std::string> Text;
static Text loaded(const std::string& data, bool& clipped) {
    Text t;
    std::string cur;
    clipped = false;
    for (char c : data) {
        if (c == '\n') { t.push_back(cur); cur.clear(); if (t.size() >= MAX_NUM_LINES) { clipped = true; return t; } continue; }
        for (int i = c == '\t' ? 4 : 1; i > 0; --i) { if (cur.size() < MAX_LINE_LENGTH - 1) cur += c == '\t' ? ' ' : c; else clipped = true; }
    }
    t.push_back(cur);
    return t;
}
static std::string joined_text(const Text& t) { std::string s; for (size_t i = 0; i < t.size(); ++i) s += (i ? "\n" : "") + t[i]; return s; }
static void same_text(Buffer* b, const Text& t, const char* after) {
    if (b->numLines != (int)t.size()) violate("editor:lines", fmt("%d lines instead of %zu after %s", b->numLines, t.size(), after));
    for (size_t i = 0; i < t.size(); ++i) {
        const char* s = GetLine(b, i);
        size_t n = strnlen(s, MAX_LINE_LENGTH);
        if (n == MAX_LINE_LENGTH) violate("editor:unterminated", fmt("line %zu is not terminated after %s", i, after));
        if (t[i] != std::string(s, n)) violate("editor:text", fmt("line %zu of %zu after %s\n", i, t.size(), after) + obs_diff(t[i], std::string(s, n)));
    }
    if (b->numDefns < 0 || b->numDefns > MAX_TRACKED_DEFNS) violate("editor:definitions", fmt("%d definitions", b->numDefns));
    for (int i = 0; i < b->numDefns; ++i) if (strnlen(b->defns[i], MAX_DEFN_LENGTH) == MAX_DEFN_LENGTH) violate("editor:definitions", fmt("definition %d is not terminated", i));
}
static std::string line_text(int max, bool tabs) {
    static const int lens[] = {0, 1, 5, 30, 80, 200, 507, 508, 509, 510, 511, 512, 513, 700, 2000};
    int n = std::min(lens[pick(15, "line length")], max);
    Rng g(derive("line bytes"));
    std::string s;
    int kind = pick(4, "line kind");
    if (kind == 2) s = "#define ";
    if (kind == 3) s = "x #define\t";
    while ((int)s.size() < n) s += kind == 1 ? (char)(128 + g.below(128)) : tabs && g.below(9) == 0 ? '\t' : (char)(32 + g.below(95));
    if (!tabs) for (char& c : s) if (c == '\t') c = ' ';
    if ((int)s.size() > max) s.resize(max);
    return s;
}
void run_c22() {
    g_ex = new_heap("editor");
    g_exyield = 0;
    SimFS* fs = new_fs();
    SimHeap* hb = new_heap("buffer");
    std::string outtext;
    FILE* sink = sim_outstream(&outtext);
    Stdout so(sink);
    Buffer* b = (Buffer*)hb->alloc(nullptr, sizeof(Buffer));
    memset(b, 0, sizeof *b);
    InitDefaultBuffer(b);
    Text t;
    bool known = true;     // the buffer's content is determined
    for (int i = 0; i < b->numLines; ++i) t.push_back(GetLine(b, i));
    static const char* paths[] = {"note.txt", "code.c", "dir.d/file", "x.tiny", "noext"};
    int nops = 2 + pick(30, "operations");
    static const int kinds[] = {FS_OPEN, FS_READ, FS_SHORT, FS_WRITE, FS_SHORTW, FS_FULL, FS_CLOSE};
    bool faults = pick(3, "faults") != 0;
    if (faults) for (int x : kinds) if (pick(2, "fault kind")) fs->enabled |= x;
    fs->budget = 0;
    std::string what;
    for (int k = 0; k < nops; ++k) {
        std::string path = paths[pick(5, "path")];
        int op = pick(12, "operation");
        int nl = b->numLines;
        bool fault = faults && pick(2, "device fails");
        fs->budget = fault ? 1 + pick(3, "faults") : 0;
        static const int rates[] = {10, 30, 60, 100};
        fs->rate = rates[pick(4, "fault rate")];
        if (op < 3) {          // a file appears and is loaded
            std::string data;
            static const int lcounts[] = {0, 1, 2, 5, 20, 100, 4094, 4095, 4096, 4097, 5000};
            int n = lcounts[pick(11, "lines")];
            if (n > 1000 && pick(4, "many lines")) n = pick(9, "few lines");
            bool nul = false;
            for (int i = 0; i < n; ++i) data += (n > 100 ? fmt("line %d", i) : line_text(2000, true)) + "\n";
            if (pick(2, "no newline at the end")) data += line_text(1000, true);
            if (pick(10, "zero byte") == 9 && !data.empty()) { data[pick(data.size(), "where")] = 0; nul = true; }
            if (pick(12, "absent") != 11) fs->put(path, data); else { fs->files.erase(path); data.clear(); }
            bool there = fs->files.count(path), dir = there && pick(12, "directory") == 11;
            if (dir) fs->files[path]->dir = true;
            what = fmt("load of %d lines", n);
            trace("%s from %s", what.c_str(), path.c_str());
            int f0 = fs->fired;
            fs->log.clear();
            hang_limit(3000000 + data.size() * 2000, "load");
            bool ok = MyOpenFile(b, path.c_str());
            hang_off();
            bool hit = fs->fired > f0;
            bool failedRead = false;
            for (auto& h : fs->handles) if (h->failed) failedRead = true;
            if (fs->open_count()) violate("editor:handle-leak", "the file was left open");
            if (ok && (!there || dir)) violate("editor:load-succeeded", "there is no such file");
            if (!ok && there && !dir && !hit) violate("editor:load-failed", "without a fault");
            bool clipped;
            Text m = loaded(data, clipped);
            if (ok && !nul) { t = m; known = true; same_text(b, t, hit ? "a load with faults" : "a load"); }
            else if (!ok && !hit && !there) { if (known) same_text(b, t, "a load of a missing file"); }
            else {   // failed half way: the text is some prefix, every line of it is terminated
                if (b->numLines < 1 || b->numLines > MAX_NUM_LINES) violate("editor:lines", fmt("%d lines", b->numLines));
                for (int i = 0; i < b->numLines; ++i) if (strnlen(b->lines[i], MAX_LINE_LENGTH) == MAX_LINE_LENGTH) violate("editor:unterminated", fmt("line %d", i));
                t.clear();
                for (int i = 0; i < b->numLines; ++i) t.push_back(b->lines[i]);
            }
            (void)failedRead;
            count(ok ? "probe.loaded" : "probe.load failed");
        } else if (op < 6) {   // save
            std::string want = joined_text(t);
            std::string old = fs->files.count(path) ? fs->files[path]->data : "";
            static const int spaces[] = {1 << 24, 1 << 24, 0, 100, 5000};
            fs->space = fault && pick(2, "full disk") ? spaces[pick(5, "space")] : 1 << 24;
            bool dir = fs->files.count(path) && fs->files[path]->dir;
            what = fmt("save of %d lines", nl);
            trace("%s to %s", what.c_str(), path.c_str());
            int f0 = fs->fired;
            hang_limit(3000000 + want.size() * 2000, "save");
            bool ok = MyWriteFile(b, path.c_str());
            hang_off();
            bool hit = fs->fired > f0 || fs->space < (int64_t)want.size();
            fs->space = 1 << 24;
            if (fs->open_count()) violate("editor:handle-leak", "the file was left open");
            if (ok) {
                if (!fs->files.count(path) || fs->files[path]->data != want) violate("editor:saved-not-stored", "saving reported success, but the disk holds something else\n" + (fs->files.count(path) ? obs_diff(want, fs->files[path]->data) : "nothing"));
                if (!hit && want.find('\t') == std::string::npos) {   // loading it again restores the text
                    fs->budget = 0;
                    hang_limit(3000000 + want.size() * 2000, "load");
                    if (!MyOpenFile(b, path.c_str())) violate("editor:load-failed", "without a fault, after saving");
                    hang_off();
                    if (want.find('\0') == std::string::npos) same_text(b, t, "saving and loading");
                }
            } else if (!hit && !dir) violate("editor:save-failed", "without a fault");
            count(ok ? "probe.saved" : "probe.save failed");
        } else {               // edits
            int y = pick(nl, "line"), len = strlen(b->lines[y]);
            fs->budget = 0;
            switch (op) {
                case 6: { std::string s = line_text(MAX_LINE_LENGTH - 1, false); what = "SetLine"; SetLine(b, y, s.c_str()); t[y] = s; break; }
                case 7: if (nl + 1 < MAX_NUM_LINES) { y = pick(nl + 1, "where"); what = "InsertEmptyLine"; InsertEmptyLine(b, y); t.insert(t.begin() + y, ""); } break;
                case 8: if (nl > 1) { what = "RemoveLine"; RemoveLine(b, y); t.erase(t.begin() + y); } break;
                case 9: if (len < MAX_LINE_LENGTH - 1) { int x = pick(len + 1, "column"); char c = 32 + pick(95, "char"); what = fmt("InsertChar at %d of %d", x, len); InsertChar(b, x, y, c); t[y].insert(x, 1, c); } break;
                case 10: {
                    int room = MAX_LINE_LENGTH - 2 - len;
                    if (room < 0) break;
                    std::string s = line_text(room, false);
                    int x = pick(len + 1, "column");
                    what = fmt("InsertString of %zu at %d of %d", s.size(), x, len);
                    InsertString(b, x, y, s.c_str());
                    t[y].insert(x, s);
                    break;
                }
                case 11: {
                    int x = pick(len + 1, "column");
                    if (x < len && pick(2, "remove")) { what = "RemoveChar"; RemoveChar(b, x, y); t[y].erase(x, 1); }
                    else { what = "TerminateLine"; TerminateLine(b, x, y); t[y].resize(x); }
                    break;
                }
            }
            trace("%s, line %d of %d", what.c_str(), y, nl);
            same_text(b, t, what.c_str());
        }
        sig(hash_str(what));
        steps(1);
    }
    sample(fmt("%d operations, last: %s, faults: %s", nops, what.c_str(), fs->log.c_str()));
}
Check g_example_checks[] = {{"C20", run_c20}, {"C21", run_c21}, {"C22", run_c22}, {nullptr, nullptr}};
