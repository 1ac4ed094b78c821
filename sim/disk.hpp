// Simulated storage: flash-like page devices behind embedDBFileInterface, and a simulated C stdio/OS layer
// below the shipped desktop driver. All mutations pass one global write-back queue.
#pragma once
#include <array>

#include "core.hpp"

struct Violation {
    bool set = false;
    std::string tag, msg;
};
struct DiskFile {
    int db = 0, cls = 0;  // 0 data 1 index 2 var
    u32 cap = 0;          // pages
    int ps = 0, e = 1;
    u32 at = 0;  // first chip page
    bool fixed = false, exists = false, open = false, exempt = false;
    u8 blank = 0;
    int erasePat = 0;
    std::vector<u8> view, dur;   // contents, page granular
    u32 viewLen = 0, durLen = 0;  // in pages
    std::vector<u8> progV, progD;
    std::vector<u8> eraseBad;  // the last erase of this page was reported as failed (since the file was opened)
    u64 writes = 0;  // page writes seen
    u64 okReads = 0; // pages read successfully
    u64 ghosts = 0;  // page writes that were reported as failed but took effect
};
struct Pend {
    DiskFile *f;
    int kind;  // 0 write 1 erase 2 truncate
    u32 start, n;
    std::vector<u8> data;
    i64 tag;
};
// a write, erase or flush of the running call that was reported as failed and was not repeated with success
struct CallFail {
    DiskFile *f;
    int kind;  // 0 write 1 erase 3 flush
    u32 start, end;
};
// kernel-level file of the stdio layer: sparse
struct OsFile {
    bool exists = false;
    u64 len = 0, writes = 0;
    std::map<u64, std::vector<u8>> blk;  // 512-byte blocks
    void write(u64 off, const u8 *p, u64 n) {
        for (u64 i = 0; i < n;) {
            u64 b = (off + i) / 512, o = (off + i) % 512, k = std::min<u64>(512 - o, n - i);
            auto &v = blk[b];
            if (v.empty()) v.assign(512, 0);
            memcpy(&v[o], p + i, k);
            i += k;
        }
        len = std::max(len, off + n);
    }
    u64 read(u64 off, u8 *p, u64 n) const {
        if (off >= len) return 0;
        n = std::min<u64>(n, len - off);
        for (u64 i = 0; i < n;) {
            u64 b = (off + i) / 512, o = (off + i) % 512, k = std::min<u64>(512 - o, n - i);
            auto it = blk.find(b);
            if (it == blk.end()) memset(p + i, 0, k);
            else memcpy(p + i, &it->second[o], k);
            i += k;
        }
        return n;
    }
};
struct SimFILE {
    OsFile *os;
    std::string name;
    i64 pos = 0;
    u64 wstart = 0;
    std::vector<u8> wbuf;
    bool err = false, eof = false;
    u32 bufCap = 4096;
};

// SD card: 512-byte sectors over a formatted base image; every sector write is durable in order
struct CardImage {
    u32 sectors = 0;
    std::unordered_map<u32, std::array<u8, 512>> s;
};
struct SdCardSim {
    const CardImage *base = nullptr;
    CardImage *making = nullptr;  // formatting: writes go to the base image
    std::unordered_map<u32, std::array<u8, 512>> s;
    bool calm = false;  // no card errors or crash points in this call
};
// dataflash chip: pages of up to 528 bytes, one SRAM buffer
struct FlashChipSim {
    std::map<u32, std::array<u8, 528>> page;
    std::array<u8, 528> buf{}, buf2{};
    u32 pages = 4096;
    int busy = 0;
    bool programming = false;
};
struct Sim {
    Rng rng{1};
    u64 junkSeed = 1, junkCtr = 0, badCtr = 0;
    Stats *st = nullptr;
    Violation viol;
    // current API call
    jmp_buf jb;
    bool inCall = false;
    int jumpKind = 0;  // 1 crash 2 budget
    u64 callEvents = 0, callBudget = 0;
    int faultFired = 0;        // faults that fired in this call
    int faultMaskFired = 0;    // bit per FaultKind
    bool idxReadOnly = false;  // only index-page read faults fired
    std::vector<CallFail> callFails;
    std::function<void(DiskFile *, u32, const u8 *)> onWrite;  // a page passes to the storage
    std::function<void(DiskFile *, u32, u32)> onErase;
    std::string *text = nullptr;  // what the library prints
    std::vector<u32> *readLog[3] = {nullptr, nullptr, nullptr};  // pages read from each file of the calling database
    bool quiet = false;        // faults suspended
    bool suspendReads = false;  // no read faults (recovery)
    std::vector<Arm> arms;
    ArmCrash ac;
    bool faultTaint = false;  // some write-side fault has fired on this run: device discipline exempt
    bool strict = true;
    std::vector<DiskFile *> files;
    std::deque<Pend> pend;
    int cacheMode = 0;
    i64 curTag = 0;  // accepted records of the calling database at call start
    int curOwner = 0;
    std::vector<i64> durTag;  // per db
    std::vector<u64> crashKeep;
    u64 eventHash = 1;
    // stdio layer
    std::map<std::string, OsFile> os;
    std::vector<SimFILE *> streams;
    u32 stdioBuf = 4096;  // 0: unbuffered, so that a failed write is reported by the write itself
    SdCardSim card;
    FlashChipSim chip;
    // allocation ledger
    struct Alloc {
        size_t n;
        int owner;
    };
    std::unordered_map<void *, Alloc> allocs;
    size_t callAllocs = 0, callBytes = 0, callPrints = 0;  // asked for in this call

    void fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // a listed known finding was met: counted, the run goes on
    std::string knownTag, knownMsg;
    void known(const char *tag, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};
extern Sim *S;
void diskDrain(size_t n);
void diskCrash(int keep);
void diskInitFile(DiskFile &f);
extern const SimIo simIo;
// a database on the SD-card or dataflash driver: counts what passes to the driver
struct DrvFwd {
    const DrvApi *api = nullptr;
    void *iface = nullptr, *file = nullptr;
    DiskFile *f = nullptr;
};
extern const SimIo fwdIo;
void ledgerReclaim(int owner);
size_t ledgerCount(int owner);
size_t ledgerBytes(int owner);
void osCrash();
void cardSetup(int kind);  // inserts a freshly formatted card: 0 small FAT16, 1 FAT32, 2 nearly full
