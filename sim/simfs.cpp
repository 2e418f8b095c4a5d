#include "simfs.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
SimFS* g_fs;
SimFS* new_fs() { return g_fs = new SimFS(); }
bool SimFS::fault(int kind, const char* name) {
    ++ops;
    if (!(enabled & kind) || budget <= 0) return false;
    if (!chance(rate, name)) return false;
    --budget;
    if (!(kind & (FS_SHORT | FS_SHORTW))) ++fired;   // partial transfers are no errors: nobody may notice them
    count((std::string("fault.") + name).c_str());
    trace("  fault: %s", name);
    log += std::string(name) + ";";
    return true;
}
SimHandle* SimFS::of(FILE* f) {
    for (size_t i = handles.size(); i-- > 0;) if (handles[i]->fp == f && !handles[i]->closed) return handles[i].get();
    return nullptr;
}
int SimFS::open_count() const { int n = 0; for (auto& h : handles) n += !h->closed; return n; }

static ssize_t c_read(void* c, char* b, size_t n) {
    auto* h = (SimHandle*)c;
    if (!h->rd) { errno = EBADF; h->failed = true; return -1; }
    if (h->f->dir) { errno = EISDIR; h->failed = true; return -1; }
    if (!h->f->changed && !h->shrink && !h->wr && g_fs->fault(FS_SIZE, "file changes size")) {
        h->sizeChanged = true;
        auto& d = h->f->data;
        h->f->other = d;
        h->f->changed = true;
        if (pick(2, "grow or shrink")) d += std::string(1 + pick(40, "grow by"), 'G');
        else d.resize(pick(d.size() + 1, "shrink to"));
        h->f->version++;
    }
    bool part = false;
    if (h->shrink) {   // to less than what has been read of it
        h->shrink = false;
        h->sizeChanged = true;
        if (!h->f->changed) h->f->other = h->f->data;
        h->f->changed = true;
        h->f->data.resize(std::min<size_t>(h->f->data.size(), pick(h->pos + 1, "shrink to")));
        h->f->version++;
    } else if (!h->f->changed && !h->wr && h->f->data.size() > h->pos + 1u && n > 1 && g_fs->fault(FS_SIZE, "file shrinks below what was read")) h->shrink = part = h->f->changed = true, h->f->other = h->f->data;
    size_t left = h->pos >= (int64_t)h->f->data.size() ? 0 : h->f->data.size() - h->pos;
    if (g_fs->fault(FS_READ, "read error")) { errno = EIO; h->failed = true; return -1; }
    n = std::min(n, left);
    if (n > 1 && (part || g_fs->fault(FS_SHORT, "short read"))) { n = 1 + pick(n - 1, "short by"); h->short_ = true; }
    memcpy(b, h->f->data.data() + h->pos, n);
    h->delivered.append(b, n);
    h->pos += n;
    return n;
}
static ssize_t c_write(void* c, const char* b, size_t n) {
    auto* h = (SimHandle*)c;
    if (!h->wr) { errno = EBADF; h->failed = true; return 0; }
    size_t done = 0;
    while (done < n) {   // as the real stream does: go on after a short write, stop at an error
        if (g_fs->fault(FS_WRITE, "write error")) { errno = EIO; h->failed = true; return done; }
        size_t k = n - done;
        if (k > 1 && g_fs->fault(FS_SHORTW, "short write")) k = 1 + pick(k - 1, "short by");
        if ((int64_t)k > g_fs->space) k = std::max<int64_t>(g_fs->space, 0);
        if (!k) {
            errno = ENOSPC;
            h->failed = true;
            g_fs->fired++;
            g_fs->log += "disk full;";
            count("fault.disk full");
            trace("  fault: disk full");
            return done;
        }
        if (h->app) h->pos = h->f->data.size();
        auto& d = h->f->data;
        if ((int64_t)d.size() < h->pos + (int64_t)k) { g_fs->space -= h->pos + k - d.size(); d.resize(h->pos + k, '\0'); }
        memcpy(&d[0] + h->pos, b + done, k);
        h->pos += k;
        done += k;
    }
    return done;
}
static int c_seek(void* c, off64_t* off, int wh) {
    auto* h = (SimHandle*)c;
    if (wh == SEEK_CUR && *off == 0) { *off = h->pos; return 0; }
    if (g_fs->fault(FS_SEEK, "seek error")) { errno = EIO; h->failed = true; return -1; }
    int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? h->pos + *off : h->f->dir ? INT64_MAX : (int64_t)h->f->data.size() + *off;
    if (p < 0) { errno = EINVAL; h->failed = true; return -1; }
    h->pos = p;
    *off = p;
    return 0;
}
static int c_close(void* c) {
    auto* h = (SimHandle*)c;
    if (g_fs->fault(FS_CLOSE, "close error")) {
        h->failed = true;
        if (h->wr && !h->f->data.empty() && pick(2, "lose cached")) h->f->data.resize(pick(h->f->data.size(), "keep"));
        errno = EIO;
        return -1;
    }
    return 0;
}
extern "C" {
FILE* __wrap_fopen(const char* path, const char* mode) {
    if (!g_fs) harness_error("file opened in a check without a simulated disk");
    trace("  fopen %.80s %s", path, mode);
    if (!strchr("rwa", mode[0]) || !mode[0]) { errno = EINVAL; return nullptr; }
    count("io.open");
    if (g_fs->fault(FS_OPEN, "open error")) { errno = EMFILE; return nullptr; }
    bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+');
    auto it = g_fs->files.find(path);
    if (it == g_fs->files.end()) {
        if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
        g_fs->put(path, "");
        it = g_fs->files.find(path);
    }
    if (it->second->dir && wr) { errno = EISDIR; return nullptr; }
    auto h = std::make_unique<SimHandle>();
    h->f = it->second;
    h->path = path;
    h->rd = rd;
    h->wr = wr;
    h->app = mode[0] == 'a';
    h->serial = g_fs->handles.size();
    if (mode[0] == 'w') { g_fs->space += h->f->data.size(); h->f->data.clear(); }
    h->initial = h->f->data;
    cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
    char m[4] = {mode[0], strchr(mode, '+') ? '+' : '\0', 0, 0};
    h->fp = fopencookie(h.get(), m, io);
    static const int bufs[] = {4096, 0, 7, 64, 512, 16384};
    int b = g_fs->fixed_buffer >= 0 ? g_fs->fixed_buffer : bufs[pick(6, "stdio buffer")];
    if (b == 0) setvbuf(h->fp, nullptr, _IONBF, 0);
    else { h->buf = new char[b]; setvbuf(h->fp, h->buf, _IOFBF, b); }
    FILE* f = h->fp;
    g_fs->handles.push_back(std::move(h));
    return f;
}
int __wrap_fclose(FILE* f) {
    SimHandle* h = g_fs ? g_fs->of(f) : nullptr;
    if (!h) violate("io:closed-twice", "fclose was called for a stream that is not open");
    trace("  fclose %.80s", h->path.c_str());
    bool before = h->failed;
    (void)before;
    h->closed = true;
    int r = fclose(f);
    delete[] h->buf;
    h->buf = nullptr;
    return r;
}
long __wrap_ftell(FILE* f) {
    SimHandle* h = g_fs ? g_fs->of(f) : nullptr;
    if (h && g_fs->fault(FS_TELL, "tell error")) { errno = EIO; h->failed = true; return -1; }
    return ftell(f);
}
}
extern "C" int __wrap_remove(const char* p) {
    if (!g_fs) harness_error("file removed in a check without a simulated disk");
    trace("  remove %.80s", p);
    if (g_fs->fault(FS_OPEN, "remove error") || !g_fs->files.erase(p)) { errno = ENOENT; return -1; }
    return 0;
}
extern "C" int __wrap_rename(const char* a, const char* b) {
    if (!g_fs) harness_error("file renamed in a check without a simulated disk");
    trace("  rename %.80s %.80s", a, b);
    auto it = g_fs->files.find(a);
    if (it == g_fs->files.end() || g_fs->fault(FS_OPEN, "rename error")) { errno = EIO; return -1; }
    g_fs->files[b] = it->second;
    g_fs->files.erase(a);
    return 0;
}
static ssize_t o_write(void* c, const char* b, size_t n) { ((std::string*)c)->append(b, n); return n; }
FILE* sim_outstream(std::string* sink) {
    cookie_io_functions_t io = {nullptr, o_write, nullptr, nullptr};
    FILE* f = fopencookie(sink, "w", io);
    setvbuf(f, nullptr, _IONBF, 0);
    return f;
}
static ssize_t i_read(void* c, char* b, size_t n) {
    auto* in = (SimInput*)c;
    size_t left = in->data.size() - in->pos;
    if (!in->errs.empty() && in->errs[0] <= in->pos) {
        in->errs.erase(in->errs.begin());
        count("fault.input error");
        trace("  fault: input error at %zu", in->pos);
        errno = EIO;
        return -1;
    }
    if (!in->errs.empty()) left = std::min(left, in->errs[0] - in->pos);
    if (left == 0) {
        ++in->reads_after_end;
        if (in->reads_after_end > 2000) violate("io:reads-forever", "the library keeps reading after end of input");
        if (in->err) { count("fault.input error"); errno = EIO; return -1; }
        return 0;
    }
    n = std::min(n, left);
    if (in->maxpiece > 0) n = std::min<size_t>(n, 1 + pick(in->maxpiece, "input piece"));
    memcpy(b, in->data.data() + in->pos, n);
    in->pos += n;
    return n;
}
FILE* sim_instream(SimInput* in) {
    cookie_io_functions_t io = {i_read, nullptr, nullptr, nullptr};
    FILE* f = fopencookie(in, "r", io);
    return f;
}
