// Shared basics of the simulator: PRNG, configuration, operations, faults, run context.
#pragma once
#include <functional>
#include <set>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "simapi.h"

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b + 0x1234567)); }
static inline u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ULL) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ULL;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ---------------------------------------------------------------- configuration of a run
struct DbCfg {
    int variant = 0;       // 0 src, 1 dist
    int keySize = 4, dataSize = 4, pageSize = 64, e = 2;
    int nData = 4, nIdx = 2, nVar = 4;  // in erase blocks
    int params = 0;
    int spline = 8, maxErr = 1;
    int bmKind = 0, bmSize = 0;
    int libCmp = 0;
    int data64 = 0;  // values of 8 bytes: val times 2^31+11
    int cache = 0;   // 0 write-through, 1 write-back until flush, 2 random draining
    int fixed = 0;   // 0 growable file, 1 fixed-size medium
    int blank = 0;   // content of never-written medium
    int erasePat = 0;  // 0 keeps content, 1 0x01, 2 0x00, 3 0xff
    int driver = 0;  // 0 simulated device, 1 desktop driver, 2 desktop driver with mock erase (both over simulated stdio), 3 SD (FAT16), 4 SD (FAT32), 5 dataflash
    int firstReset = 1;  // first open with RESET_DATA
    u64 keyBase = 0;
    int gapKind = 0;
    u64 gapParam = 1;
    int valLo = 0, valHi = 100;
    int extraBuf = 0;  // additional page buffers
};
struct RunCfg {
    u64 seed = 1;      // decides simulated junk and device drain order
    u64 junk = 0;      // extra junk salt (uninitialised-memory differencing)
    int strict = 1;    // check flash discipline
    int drv = 0;       // driver operations: 0 desktop, 2 SD card (FAT16), 3 SD card (FAT32), 4 SD card nearly full, 5 dataflash
    int mode = 0;      // 0 one run, 1 lock-step on both builds, 2 twice with different uninitialised memory
    std::vector<DbCfg> db;
    std::string profile = "mix";
};

enum OpCode {
    OP_NONE, OP_PUT, OP_PUTN, OP_PUTBAD, OP_GET, OP_GETV, OP_SOPEN, OP_SREAD, OP_SCLOSE, OP_IOPEN, OP_INEXT, OP_ICLOSE,
    OP_SCAN, OP_FLUSH, OP_FLUSHV, OP_REOPEN, OP_RESET, OP_CRASH, OP_ARM, OP_ARMCRASH, OP_DISARM, OP_CHECK, OP_QUERY, OP_STATS,
    OP_DOPEN, OP_DWRITE, OP_DREAD, OP_DERASE, OP_DFLUSH, OP_DCLOSE, OP_DCRASH, OP_DTEAR, OP_COUNT
};
static const char *const opNames[OP_COUNT] = {
    "NONE", "PUT", "PUTN", "PUTBAD", "GET", "GETV", "SOPEN", "SREAD", "SCLOSE", "IOPEN", "INEXT", "ICLOSE",
    "SCAN", "FLUSH", "FLUSHV", "REOPEN", "RESET", "CRASH", "ARM", "ARMCRASH", "DISARM", "CHECK", "QUERY", "STATS",
    "DOPEN", "DWRITE", "DREAD", "DERASE", "DFLUSH", "DCLOSE", "DCRASH", "DTEAR"};
static const u64 PUT_FAR = 1ULL << 60;  // in the first argument of PUT
struct Op {
    int code = 0, db = 0;
    i64 a = 0, b = 0, c = 0, d = 0;
};
struct Script {
    RunCfg cfg;
    std::vector<Op> ops;
};

// ---------------------------------------------------------------- faults
enum FaultKind { FK_READ, FK_WRITE, FK_ERASE, FK_FLUSH, FK_OPEN, FK_ALLOC, FK_SEEK, FK_CLOSE, FK_COUNT };
static const char *const faultNames[FK_COUNT] = {"read_error", "write_error", "erase_error", "flush_error", "open_error", "alloc_failure", "seek_error", "close_error"};
struct Arm {
    int kind = 0;
    i64 skip = 0, len = 1;
    int variant = 0, mask = 7, db = -1;
};
struct ArmCrash {
    bool on = false;
    i64 skip = 0;
    int when = 0;   // 0 before the event, 1 after it, 2 in the middle (erase), 3 index/any
    int keep = 0;   // how much of the write cache survives (0..256)
    i64 again = 0;  // crash again during recovery after this many events (0: no)
};

// ---------------------------------------------------------------- statistics of all runs (shared memory, plain data)
struct Stats {
    u64 runs, ops[OP_COUNT], faults[FK_COUNT], faultsArmed;
    u64 crashes, crashInOp, crashTorn, crashLostSuffix, crashInRecovery, recoveries, reopenClean, initRetries;
    u64 apiCalls, ioEvents, ioReads, ioWrites, ioErases, ioFlushes, simMicros;
    u64 puts, records, varBytes, dataWraps, idxWraps, varWraps, evictedSeen, deletedSeen, ghostChecks, ambiguous;
    u64 wrapRuns, longRuns, rlcRuns, bmapRuns, varRuns, driverRuns, multiRuns, queries, queryRows, lockstepRuns, lockstepResults, junkRuns;
    u64 nonTrivial, knownFindings, valueScans, idxPages, rejected, streamReads, fmtPages, badOpens, statChecks, statPrints, costGets, costBuffered, costStreams, costScans, costPages, costIndexed, heapChecks, maxStack, badPlans, nestedQueries, queryInserts;
    u64 maxPages;
};

[[noreturn]] void simCrashNow();
