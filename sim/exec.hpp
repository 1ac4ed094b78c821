#pragma once
#include "disk.hpp"

struct Rec {
    u64 key = 0, uid = 0;
    int val = 0;
    i64 varLen = -1;
    u32 page = 0;
    u64 varStart = 0;
};
struct Db {
    int id = 0;
    DbCfg c;
    const SimApi *api = nullptr;
    u8 *st = nullptr, *iface = nullptr, *buf = nullptr;
    const DrvApi *drvApi = nullptr;
    void *drvIface = nullptr, *drvFile[3] = {nullptr, nullptr, nullptr};
    DrvFwd fwd[3];
    bool open = false, rlc = false, vdata = false, index = false;
    DiskFile f[3];
    std::vector<Rec> hist;
    std::vector<Rec> maybe;    // failed inserts whose effect is unknown
    std::vector<u64> ghosts;   // keys seen once and lost, or rejected
    u64 uid = 0;
    u32 W = 0, bufCount = 0, rpp = 1, cap = 0;
    i64 watermark = 0;   // records that must survive a crash
    u32 slackP = 0, slackV = 0;
    u64 salt = 0;
    bool statOn = false, statFresh = false;  // counters are compared; just reset
    u64 statR[3] = {0, 0, 0}, statW[3] = {0, 0, 0};
    int payload = 1;
    bool ever = false;
    u32 maxW = 0;
    u64 keyLimit = 0;
    size_t recoveredMin = 0;  // index of the oldest record that recovery showed
    u8 *kb = nullptr, *db = nullptr;  // exact-size key/data buffers
    u64 nv() const;  // variable-data pages written so far
    size_t firstMust() const;
    bool varGoneAllowed(const Rec &r) const;
    // inserts whose variable data was written but whose record was lost (restart, crash or failed insert)
    struct Orphan {
        u64 key, varStart;
    };
    std::vector<Orphan> orphans;
    bool orphanExplains(const Rec &r) const;
    // what the pages passed to the storage since the database was opened looked like
    struct Page {
        u64 first, last;
        std::vector<u8> bm;
    };
    std::map<u32, Page> pages;
    i64 lastId[3] = {-1, -1, -1};
    bool sawFault = false;
    i64 heapBase = -1;  // bytes held once the database is open
    size_t heapAllocs = 0;
    // cost accounting: what is stored at each place of the data and index file
    struct Place {
        u32 id, start, count;
        u64 first, last;
        std::vector<u8> bm;
    };
    std::map<u32, Place> place[2];
    bool sawCrash = false;
    u32 sessionPages = 0;  // data pages that may have got a point in the spline
    // straight lines on which the first keys of these pages lie; each costs the spline one point at most
    u32 lines = 0, linePage = 0;
    u64 lineKey = 0, lineDk = 0, lineDp = 0;
};
struct ItSlot {
    int db = -1;
    u8 *mem = nullptr, *bounds[4] = {nullptr, nullptr, nullptr, nullptr};
    bool hasB[4] = {false, false, false, false};
    u64 minK = 0, maxK = 0;
    int minD = 0, maxD = 0;
    i64 last = -1;
    size_t histEnd = 0;
    bool open = false, done = false, started = false;
};
struct StSlot {
    int db = -1;
    void *s = nullptr;
    Rec rec;
    u32 off = 0;
    bool open = false;
};
struct RunResult {
    bool viol = false;
    std::string tag, msg, known;
    int opIndex = -1;
    u64 hash = 0;
    std::vector<u64> api;  // API-visible results
};
typedef void (*CoverFn)(u64 h);

struct Exec {
    const Script &sc;
    Sim sim;
    std::vector<std::unique_ptr<Db>> dbs;
    std::vector<ItSlot> its;
    std::vector<StSlot> sts;
    RunResult res;
    CoverFn cover;
    bool trace = false;
    int cur = -1;
    bool crashed = false;  // a crash interrupted the current op
    Rec pendingRec;        // insert in progress at the crash
    int pendingDb = -1;

    Exec(const Script &s, Stats *st, CoverFn cv);
    ~Exec();
    RunResult run();

  private:
    int forceVariant = -1;

  public:
    void setVariant(int v) { forceVariant = v; }

  private:
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    bool stop() const { return sim.viol.set; }
    void note(u64 h) { res.hash = mix2(res.hash, h); }
    void apiNote(u64 h) {
        res.api.push_back(h);
        note(h);
    }
    bool reported(const char *what);
    int call(Db &d, const std::function<void()> &f);
    void setupDb(int i);
    void freeDbMem(Db &d);
    int openDb(Db &d, bool reset, bool bad = false);
    bool badOpens = false;
    void quietReopenAfter(Db &d, bool crash);
    bool openWithRetry(Db &d, bool reset);
    void closeHandles(Db &d);
    void closeDb(Db &d, bool expectClean);
    void doCrash(int keep);
    void recoverAll();
    void resync(Db &d, bool crash);
    Rec makeRec(Db &d, u64 key, i64 valRaw, i64 varLen);
    void recData(const Db &d, const Rec &r, u8 *out) const;
    void varData(const Db &d, const Rec &r, std::vector<u8> &out) const;
    i64 find(const Db &d, u64 key) const;
    void putKey(Db &d, u64 k);
    bool doPut(Db &d, u64 key, i64 valRaw, i64 varLen, bool plain);
    void doPutBad(Db &d, const Op &o);
    void checkGet(Db &d, u64 key, const char *ctx);
    void refuseVar(Db &d, u64 key);
    void checkGetVar(Db &d, u64 key, int slot, u64 chunkSeed);
    void readStream(Db &d, StSlot &s, u64 want);
    void dropStream(StSlot &s);
    void doFlush(Db &d, bool var);
    void notDurable(Db &d, const char *what, bool withIndex, bool withVar);
    u64 pickKey(Db &d, int mode, u64 raw);
    void itOpen(Db &d, ItSlot &it, int mask, u64 raw, u64 raw2);
    bool itStep(Db &d, ItSlot &it, bool useVar, u64 chunkSeed);
    void itClose(ItSlot &it);
    void doScan(Db &d, int mask, u64 raw, u64 raw2, bool useVar);
    void doCheck(Db &d, u64 raw, bool deep);
    std::vector<i64> fullScan(Db &d, bool recovery, bool crash);
    void doQuery(const Op &o, int depth = 0);
    u64 gap(Db &d, u64 raw);
    void runOp(const Op &o);
    void armOp(const Op &o, Db *d);
    void orphan(Db &d, const Rec &r);
    void modelPut(Db &d, Rec r);
    void modelFlush(Db &d, bool sure);
    bool costs = false;
    bool refusals = false;
    bool memory = false;
    u64 stackCalls = 0;
    struct {
        size_t n, bytes;
    } may = {0, 0};  // what the next call may allocate
    void expectAlloc(size_t n, size_t bytes) { may = {n, bytes}; }
    void heapCheck(Db &d);
    bool counters = false;
    std::vector<u32> reads[3];
    u32 wrote[3] = {0, 0, 0};
    void readsBegin();
    void readsEnd();
    void placeWritten(Db &d, int cls, u32 page, const u8 *b);
    void lineAdd(Db &d, u32 page, u64 key, bool first);
    static bool splineFits(const Db &d);
    void costGet(Db &d, u64 key, int rc);
    void statBase(Db &d);
    void statCheck(Db &d);
    void doStats(Db &d, bool print);
    void costScan(Db &d, ItSlot &it);
    void costPut(Db &d, const char *what);
    void pageWritten(Db &d, int cls, u32 page, const u8 *b);
    void coverState(Db &d, int op);
    // desktop driver
    struct DrvPage {
        u64 id = 0;
        bool known = false, durable = false;  // durable: flushed and not rewritten since
    };
    struct DrvFile {
        void *f = nullptr;
        int size = 0;
        bool open = false, exists = false, sure = false;  // sure: its existence was flushed
        std::map<u32, DrvPage> page;
        u64 maxEnd = 0, ids = 0;
        u32 start = 0, np = 0;        // dataflash region
    };
    std::vector<DrvFile> drv;
    void *drvIf = nullptr;
    int drvMock = -1;
    const DrvApi *drvApi = nullptr;
    void doDrv(const Op &o);
    void drvClose();
    void drvSetup();
    void drvFailed(DrvFile &f);
    void dbDriver(Db &d);
    friend struct QueryRef;
};
