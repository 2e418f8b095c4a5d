// Simulated disk and console behind the C stdio functions the library calls. Real glibc streams
// (buffering, seeking, end-of-file and error flags) run on top of simulated devices.
#pragma once
#include <map>
#include <memory>
#include "core.h"
struct SimFile {
    std::string data;
    bool dir = false;
    u64 version = 0;
    std::string other;              // the content before it changed size
    bool changed = false;
};
enum {
    FS_OPEN = 1, FS_READ = 2, FS_SHORT = 4, FS_SEEK = 8, FS_TELL = 16, FS_SIZE = 32, FS_WRITE = 64, FS_FULL = 128, FS_CLOSE = 256, FS_SHORTW = 512,
};
struct SimHandle {
    FILE* fp = nullptr;
    std::shared_ptr<SimFile> f;
    std::string path;
    int64_t pos = 0;
    bool rd = false, wr = false, app = false, closed = false;
    bool failed = false;            // an error has been reported to the library through this handle
    bool sizeChanged = false;
    bool shrink = false;            // before the next read
    bool short_ = false;
    int serial = 0;
    char* buf = nullptr;
    std::string delivered;          // bytes the device handed over, in device order
    std::string initial;            // content when opened
};
struct SimFS {
    std::map<std::string, std::shared_ptr<SimFile>> files;
    std::vector<std::unique_ptr<SimHandle>> handles;
    int enabled = 0;                // fault kinds that may happen
    int rate = 25;                  // percent per device operation
    int budget = 3;                 // faults left
    int64_t space = 1 << 24;        // bytes left on the device
    int fixed_buffer = -1;          // of the streams, instead of one picked for each
    int ops = 0, fired = 0;
    std::string log;
    SimHandle* of(FILE* f);
    int open_count() const;
    void put(const std::string& p, const std::string& d) { auto s = std::make_shared<SimFile>(); s->data = d; files[p] = s; }
    bool fault(int kind, const char* name);
};
extern SimFS* g_fs;
SimFS* new_fs();
FILE* sim_outstream(std::string* sink);
// Console input delivered in pieces; error instead of end of file if err.
struct SimInput { std::string data; size_t pos = 0; bool err = false; int maxpiece = 0; int reads_after_end = 0; std::vector<size_t> errs; };
FILE* sim_instream(SimInput* in);
