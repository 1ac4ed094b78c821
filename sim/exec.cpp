#include "exec.hpp"
#define VIOL(tag, ...) sim.fail(tag, __VA_ARGS__)

static const SimApi *variantApi(int v) { return v ? &simapi_dist : &simapi_src; }

size_t Db::firstMust() const {
    // oldest record that may not have been evicted: page >= W - cap + slack
    if (hist.empty()) return 0;
    i64 lo = (i64)W - (i64)cap + slackP;
    size_t a = 0, b = hist.size();
    while (a < b) {
        size_t m = (a + b) / 2;
        if ((i64)hist[m].page >= lo) b = m;
        else a = m + 1;
    }
    return std::max(a, recoveredMin);
}
u64 Db::nv() const {
    if (c.driver == 1 || c.driver == 2) {
        auto it = S->os.find("db" + std::to_string(id) + ".var");
        return it == S->os.end() ? 0 : it->second.writes;
    }
    return f[2].writes;
}
bool Db::varGoneAllowed(const Rec &r) const {
    // the page the record's data starts on can have been overwritten (or is about to be)
    i64 total = (i64)c.nVar * c.e;
    return (i64)r.varStart <= (i64)nv() + (i64)f[2].ghosts - total + c.e + (i64)slackV;
}
// KNOWN FINDING (C08/C09): the largest key in the header of a variable-data page is trusted even if
// the record with that key was lost, so smaller keys inserted again later are reported as deleted as
// soon as that page is erased (or is the oldest page at a restart).
bool Db::orphanExplains(const Rec &r) const {
    i64 total = (i64)c.nVar * c.e, lim = (i64)nv() + (i64)f[2].ghosts - total + c.e + (i64)slackV;
    for (auto &o : orphans)
        if (o.key >= r.key && (i64)o.varStart <= lim) return true;
    return false;
}
void Exec::orphan(Db &d, const Rec &r) {
    if (r.varLen < 0 || r.varStart >= d.nv() + d.f[2].ghosts) return;
    d.orphans.push_back({r.key, r.varStart});
    if (d.orphans.size() > 4000) d.orphans.erase(d.orphans.begin(), d.orphans.begin() + 2000);
}

Exec::Exec(const Script &s, Stats *st, CoverFn cv) : sc(s), cover(cv) {
    S = &sim;
    sim.st = st;
    sim.rng = Rng(mix2(s.cfg.seed, 77));
    sim.junkSeed = mix2(s.cfg.seed, 1000 + s.cfg.junk);
    sim.strict = s.cfg.strict;
    sim.durTag.assign(std::max<size_t>(1, s.cfg.db.size()), 0);
    for (auto &c : s.cfg.db)
        if (c.driver)
            for (auto &o : s.ops)
                if (o.code == OP_ARM && (o.a % FK_COUNT == FK_WRITE || o.a % FK_COUNT == FK_CLOSE)) sim.stdioBuf = 0;
    its.resize(14);  // 0-3 operations, 4-11 queries, the last for scans
    sts.resize(6);
    res.hash = 7;
}
Exec::~Exec() {
    S = &sim;
    for (auto &d : dbs) freeDbMem(*d);
    for (auto &it : its) {
        free(it.mem);
        for (auto &b : it.bounds) free(b);
    }
    osCrash();
    ledgerReclaim(-1);
    S = nullptr;
}
void Exec::log(const char *fmt, ...) {
    if (!trace) return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
}
void Exec::freeDbMem(Db &d) {
    free(d.st);
    free(d.iface);
    free(d.buf);
    free(d.kb);
    free(d.db);
    d.st = d.iface = d.buf = d.kb = d.db = nullptr;
}

// How deep a call goes: the stack below is painted before the call and looked at afterwards.
static const size_t STACK_SPAN = 20 << 10, STACK_LIMIT = 2560, PRINT_LIMIT = 8 << 10;
#ifdef __SANITIZE_ADDRESS__
static void stackReach() {}
static void stackPaint() {}
static size_t stackDepth() { return 0; }
#else
static u64 *stackLow;
__attribute__((noinline)) static void stackReach() {
    volatile u8 b[2 * STACK_SPAN];
    for (size_t i = 0; i < sizeof b; i += 512) b[i] = 0;
}
__attribute__((noinline)) static void stackPaint() {
    u8 *here = (u8 *)__builtin_frame_address(0);
    stackLow = (u64 *)(((uintptr_t)here - STACK_SPAN) & ~(uintptr_t)7);
    volatile u64 *p = stackLow;
    for (size_t i = 0; i < (STACK_SPAN - 512) / 8; i++) p[i] = 0x5ca1ab1e0ddba11ULL;
}
__attribute__((noinline)) static size_t stackDepth() {
    volatile u64 *p = stackLow;
    size_t i = 0;
    while (i < (STACK_SPAN - 512) / 8 && p[i] == 0x5ca1ab1e0ddba11ULL) i++;
    return STACK_SPAN - i * 8;
}
#endif

// Run one library call: budget, fault bookkeeping, crash and hang exits. Returns 1 when the call completed.
int Exec::call(Db &d, const std::function<void()> &f) {
    if (stop() || crashed) return 0;
    sim.callEvents = 0;
    u64 pages = (u64)d.c.nData * d.c.e + (d.index ? (u64)d.c.nIdx * d.c.e : 0) + (d.vdata ? (u64)d.c.nVar * d.c.e : 0);
    sim.callBudget = 8 * pages + 4000;
    sim.faultFired = 0;
    sim.faultMaskFired = 0;
    sim.callFails.clear();
    sim.idxReadOnly = false;
    sim.curTag = (i64)d.hist.size();
    sim.curOwner = d.id + 1;
    sim.cacheMode = d.c.cache;
    sim.inCall = true;
    sim.st->apiCalls++;
    sim.callAllocs = sim.callBytes = sim.callPrints = 0;
    auto limit = may;
    may = {0, 0};
    int j = setjmp(sim.jb);
    if (j == 0) {
        if (memory) {
            bool look = ++stackCalls < 20000 || stackCalls % 16 == 0;
            if (look) stackPaint();
            f();
            size_t deep = look ? stackDepth() : 0;
            if (!sim.callPrints && deep > sim.st->maxStack) sim.st->maxStack = deep;
            sim.st->heapChecks++;
            if (deep > (sim.callPrints ? PRINT_LIMIT : STACK_LIMIT)) VIOL("heap.stack", "a call used at least %zu bytes of stack", deep);
            else if (sim.callAllocs > limit.n || sim.callBytes > limit.bytes)
                VIOL("heap.call", "a call made %zu allocations of %zu bytes in total, it may make %zu of %zu", sim.callAllocs, sim.callBytes, limit.n, limit.bytes);
        } else
            f();
        sim.inCall = false;
        if (counters && d.statOn) statCheck(d);
        return 1;
    }
    sim.inCall = false;
    if (sim.jumpKind == 2) {
        VIOL("hang", "call did not finish within %llu storage operations", (unsigned long long)sim.callBudget);
        return 0;
    }
    crashed = true;
    sim.st->crashInOp++;
    return 0;
}

// A successful insert or flush must not hide a storage error.
bool Exec::reported(const char *what) {
    if (sim.callFails.empty()) return true;
    const CallFail &c = sim.callFails[0];
    const char *k[] = {"write", "erase", "", "flush"}, *n[] = {"data", "index", "variable data"};
    VIOL("err.ignored", "%s was reported as successful, but a %s of the %s file (pages %u to %u) failed and was not repeated", what, k[c.kind], n[c.f->cls], c.start, c.end);
    return false;
}

void Exec::setupDb(int i) {
    dbs.emplace_back(new Db);
    Db &d = *dbs.back();
    d.id = i;
    d.c = sc.cfg.db[i];
    if (forceVariant >= 0) d.c.variant = forceVariant;
    d.api = variantApi(d.c.variant);
    d.rlc = d.c.params & SIM_P_RLC;
    d.vdata = d.c.params & SIM_P_VDATA;
    d.index = d.c.params & SIM_P_INDEX;
    d.salt = mix2(sc.cfg.seed, 500 + i);
    int header = 6 + ((d.c.params & (SIM_P_INDEX | SIM_P_BMAP)) ? d.c.bmSize : 0);
    if (d.c.params & SIM_P_MAXMIN) {
        header = std::max(header, 14);
        header += 2 * d.c.keySize + 2 * d.c.dataSize;
    }
    d.rpp = (d.c.pageSize - header) / (d.c.keySize + d.c.dataSize + (d.vdata ? 4 : 0));
    d.cap = (u32)(d.c.nData * d.c.e - (d.rlc ? 3 : 1) * d.c.e);
    d.payload = d.c.pageSize - d.c.keySize - 4;
    d.keyLimit = d.c.keySize >= 8 ? ~0ULL - 4 : (1ULL << (8 * d.c.keySize)) - 4;
    if (d.c.libCmp) d.keyLimit = std::min<u64>(d.keyLimit, d.c.keySize == 4 ? 0x7ffffff0ULL : d.c.keySize == 8 ? 0x7ffffffffffffff0ULL : ~0ULL);
    int counts[3] = {d.c.nData * d.c.e, d.c.nIdx * d.c.e, d.c.nVar * d.c.e};
    for (int k = 0; k < 3; k++) {
        DiskFile &f = d.f[k];
        f.db = i;
        f.cls = k;
        f.cap = (u32)counts[k];
        f.ps = d.c.pageSize;
        f.e = d.c.e;
        f.fixed = d.c.fixed;
        f.blank = (u8)d.c.blank;
        f.erasePat = d.c.erasePat;
        f.exempt = d.rlc && d.c.e == 1;
        diskInitFile(f);
        sim.files.push_back(&f);
    }
    d.kb = (u8 *)malloc(d.c.keySize);
    d.db = (u8 *)malloc(d.c.dataSize);
    if (d.c.driver == 3 || d.c.driver == 4) cardSetup(d.c.driver - 3);
    if (d.c.driver == 5) {
        sim.chip = FlashChipSim{};
        sim.chip.pages = (u32)mix2(sc.cfg.seed, 410) % 40;
        for (auto &f : d.f) {
            f.at = sim.chip.pages;
            sim.chip.pages += f.cap + (u32)mix2(sc.cfg.seed, 411) % 2;
        }
    }
    if (d.c.driver) dbDriver(d);
}
// (re)create the driver objects of a database that runs on the shipped desktop driver
void Exec::dbDriver(Db &d) {
    ledgerReclaim(91);
    bool q = sim.quiet;
    sim.quiet = true;
    sim.curOwner = 91;
    static const char *nm[3] = {"data", "index", "var"};
    d.drvApi = d.c.driver >= 5 ? &simapi_df : d.c.driver >= 3 ? &simapi_sd : d.api->drv;
    sim.card.calm = false;
    if (d.drvApi->mount && !d.drvApi->mount()) VIOL("drv.mount", "the file system of the card cannot be read any more");
    d.drvIface = d.drvApi->iface(d.c.driver == 2);
    for (int k = 0; k < 3; k++) {
        char n[32];
        snprintf(n, sizeof n, "db%d.%s", d.id, nm[k]);
        if (d.c.driver >= 3) snprintf(n, sizeof n, "db%d.%.3s", d.id, nm[k]);
        d.drvFile[k] = d.drvApi->file(n, d.f[k].at, d.f[k].cap);
        d.fwd[k] = {d.drvApi, d.drvIface, d.drvFile[k], &d.f[k]};
    }
    sim.quiet = q;
}

static void junkAlloc(u8 *&p, size_t n, Rng &r) {
    free(p);
    p = (u8 *)malloc(n);
    u64 x = 0;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) x = r.next();
        p[i] = (u8)(x >> (8 * (i % 8)));
    }
}

// Configurations outside of the documented limits.
enum { BAD_KEY, BAD_DATA_MULTIPLE, BAD_DATA_FEW, BAD_INDEX_MULTIPLE, BAD_INDEX_FEW, BAD_VAR_MULTIPLE, BAD_SPLINE, BAD_BUFFERS, BAD_NO_DATA, BAD_NO_INDEX, BAD_NO_VAR, BAD_PAGE, BAD_KEY_ZERO, BAD_ERASE_ZERO, BAD_BITMAP, BAD_VAR_FEW, BAD_COUNT };
static int pickBad(const Db &d, Rng &r, int &bufs) {
    bool spline = !(d.c.params & SIM_P_BSEARCH);
    for (;;) {
        int k = (int)r.below(BAD_COUNT);
        if ((k == BAD_DATA_MULTIPLE || k == BAD_VAR_MULTIPLE || k == BAD_INDEX_MULTIPLE) && d.c.e < 2) continue;
        if ((k == BAD_INDEX_MULTIPLE || k == BAD_INDEX_FEW || k == BAD_NO_INDEX) && !d.index) continue;
        if ((k == BAD_VAR_MULTIPLE || k == BAD_NO_VAR || k == BAD_VAR_FEW) && !d.vdata) continue;
        if (k == BAD_BITMAP && !(d.c.params & (SIM_P_INDEX | SIM_P_BMAP))) continue;
        if (k == BAD_SPLINE && !spline) continue;
        if (k == BAD_BUFFERS) bufs = (int)r.below(d.index && d.vdata ? 6 : d.index || d.vdata ? 4 : 2);
        return k;
    }
}
static void spoil(const Db &d, Rng &r, int kind, SimDbCfg &g) {
    u32 e = (u32)d.c.e;
    int least = std::max(d.rlc ? 4 : 2, d.index ? 4 : 2);
    switch (kind) {
        case BAD_KEY: g.keySize = r.pick<int>({9, 10, 12, 16, 100, 127}); break;
        case BAD_DATA_MULTIPLE: g.numData += 1 + (u32)r.below(e - 1); break;
        case BAD_DATA_FEW: g.numData = e * (u32)r.below((u64)least); break;
        case BAD_INDEX_MULTIPLE: g.numIndex += 1 + (u32)r.below(e - 1); break;
        case BAD_INDEX_FEW: g.numIndex = e * (u32)r.below(2); break;
        case BAD_VAR_MULTIPLE: g.numVar += 1 + (u32)r.below(e - 1); break;
        case BAD_SPLINE: g.splinePoints = (u32)r.below(4); break;
        case BAD_NO_DATA: g.dataFile = nullptr; break;
        case BAD_NO_INDEX: g.indexFile = nullptr; break;
        case BAD_NO_VAR: g.varFile = nullptr; break;
        case BAD_PAGE: {
            int need = 6 + (d.c.params & (SIM_P_INDEX | SIM_P_BMAP) ? d.c.bmSize : 0);
            if (d.c.params & SIM_P_MAXMIN) need = std::max(need, 14) + 2 * d.c.keySize + 2 * d.c.dataSize;
            need += d.c.keySize + d.c.dataSize + (d.vdata ? 4 : 0);
            if (d.index) need = std::max(need, 16 + d.c.bmSize);
            g.pageSize = r.chance(50) ? need - 1 : (int)r.below((u64)need);
            break;
        }
        case BAD_KEY_ZERO: g.keySize = 0; break;
        case BAD_ERASE_ZERO: g.eraseSize = 0; break;
        case BAD_BITMAP: g.bitmapSize = 0; break;
        case BAD_VAR_FEW: g.numVar = e * (u32)r.below(2); break;
    }
}
static std::string badText(int kind, const Db &d, const SimDbCfg &g) {
    char b[200];
    switch (kind) {
        case BAD_KEY: snprintf(b, sizeof b, "a key size of %d", g.keySize); break;
        case BAD_DATA_MULTIPLE:
        case BAD_DATA_FEW: snprintf(b, sizeof b, "a data file of %u pages with %d pages per erase block%s%s", g.numData, d.c.e, d.index ? ", an index" : "", d.rlc ? ", record-level consistency" : ""); break;
        case BAD_INDEX_MULTIPLE:
        case BAD_INDEX_FEW: snprintf(b, sizeof b, "an index file of %u pages with %d pages per erase block", g.numIndex, d.c.e); break;
        case BAD_VAR_MULTIPLE: snprintf(b, sizeof b, "a variable-data file of %u pages with %d pages per erase block", g.numVar, d.c.e); break;
        case BAD_SPLINE: snprintf(b, sizeof b, "a spline of %u points", g.splinePoints); break;
        case BAD_BUFFERS: snprintf(b, sizeof b, "a buffer of %d pages%s%s", g.bufBlocks, d.index ? ", an index" : "", d.vdata ? ", variable data" : ""); break;
        case BAD_NO_DATA: snprintf(b, sizeof b, "no data file"); break;
        case BAD_NO_INDEX: snprintf(b, sizeof b, "no index file"); break;
        case BAD_NO_VAR: snprintf(b, sizeof b, "no variable-data file"); break;
        case BAD_PAGE: snprintf(b, sizeof b, "a page of %d bytes, with data of %d bytes", g.pageSize, g.dataSize); break;
        case BAD_KEY_ZERO: snprintf(b, sizeof b, "a key size of 0"); break;
        case BAD_ERASE_ZERO: snprintf(b, sizeof b, "an erase size of 0"); break;
        case BAD_BITMAP: snprintf(b, sizeof b, "a bitmap size of 0"); break;
        default: snprintf(b, sizeof b, "a variable-data file of %u pages with %d pages per erase block", g.numVar, d.c.e); break;
    }
    return b;
}
// returns 0 ok, 1 refused, 2 crashed or violation
int Exec::openDb(Db &d, bool reset, bool bad) {
    d.place[1].clear();
    d.sessionPages = (u32)std::min<size_t>(d.place[0].size(), d.f[0].cap);
    if (reset) d.place[0].clear(), d.sessionPages = 0;
    if (reset) d.sawCrash = false;
    if (d.sawCrash) d.sessionPages = d.f[0].cap;
    d.lines = 0;
    d.lineDp = 0;
    if (d.sawCrash) d.lines = d.f[0].cap;
    else if (costs) {
        std::map<u32, u64> byId;
        for (auto &e : d.place[0])
            if (e.second.id % d.f[0].cap == e.first) byId[e.second.id] = e.second.first;
        bool first = true;
        for (auto &e : byId) {
            lineAdd(d, e.first, e.second, first);
            first = false;
        }
    }
    d.pages.clear();
    d.lastId[0] = d.lastId[1] = d.lastId[2] = -1;
    d.api = variantApi(d.c.variant);
    Rng jr(mix2(sim.junkSeed, 31 + sim.junkCtr++));
    int bufs = (d.vdata ? (d.index ? 6 : 4) : d.index ? 4 : 2) + d.c.extraBuf;
    junkAlloc(d.st, d.api->sizeofState, jr);
    junkAlloc(d.iface, d.api->sizeofIface, jr);
    int kind = -1;
    Rng br(mix2(sc.cfg.seed + 77, sim.badCtr));
    if (bad) {
        sim.badCtr++;
        kind = pickBad(d, br, bufs);
    }
    junkAlloc(d.buf, (size_t)bufs * d.c.pageSize, jr);
    SimDbCfg g;
    memset(&g, 0, sizeof g);
    g.buffer = d.buf;
    g.keySize = d.c.keySize;
    g.dataSize = d.c.dataSize;
    g.pageSize = d.c.pageSize;
    g.bufBlocks = bufs;
    g.params = d.c.params | (reset ? SIM_P_RESET : 0);
    g.eraseSize = d.c.e;
    g.numData = d.f[0].cap;
    g.numIndex = d.f[1].cap;
    g.numVar = d.f[2].cap;
    g.splinePoints = (u32)d.c.spline;
    g.maxErr = d.c.maxErr;
    g.bitmapKind = d.c.bmKind;
    g.bitmapSize = d.c.bmSize;
    g.libCompare = d.c.libCmp;
    g.data64 = d.c.data64;
    if (d.c.driver >= 3) {
        g.dataFile = &d.fwd[0];
        g.indexFile = &d.fwd[1];
        g.varFile = &d.fwd[2];
        g.io = &fwdIo;
        g.iface = d.iface;
    } else if (d.c.driver) {
        // the driver objects belong to the build that made them; rebuild on variant switch
        g.dataFile = d.drvFile[0];
        g.indexFile = d.drvFile[1];
        g.varFile = d.drvFile[2];
        g.io = nullptr;
        g.iface = d.drvIface;
    } else {
        g.dataFile = &d.f[0];
        g.indexFile = &d.f[1];
        g.varFile = &d.f[2];
        g.io = &simIo;
        g.iface = d.iface;
    }
    d.statOn = false;
    d.statFresh = true;
    if (bad) spoil(d, br, kind, g);
    int rc = -99;
    bool wasSuspend = sim.suspendReads;
    u64 writes[3] = {d.f[0].writes, d.f[1].writes, d.f[2].writes};
    sim.suspendReads = true;  // 0 from read() during recovery is end-of-file, not an error
    bool spl = !(d.c.params & SIM_P_BSEARCH);
    size_t enough = spl ? ((size_t)d.c.spline + 8) * (size_t)(d.c.keySize + 4) + 512 : 0;
    expectAlloc(spl ? 16 : 0, enough);
    int ok = call(d, [&] { rc = d.api->db_init(d.st, &g); });
    sim.suspendReads = wasSuspend;
    if (!ok) return 2;
    if (rc != 0) {
        size_t n = ledgerCount(d.id + 1);
        if (n) VIOL("init.leak", "%zu allocations remain after an initialisation of db%d that failed", n, d.id);
        for (int i = 0; i < 3 && !d.c.driver; i++)
            if (d.f[i].open) VIOL("init.leak", "file %d of db%d is still open after an initialisation that failed", i, d.id);
    }
    if (bad) {
        log("    init(db%d,%s) with wrong configuration %d -> %d", d.id, d.api->name, kind, rc);
        sim.st->badOpens++;
        if (rc == 0) VIOL("cfg.accepted", "%s was accepted", badText(kind, d, g).c_str());
        for (int i = 0; i < 3; i++)
            if (d.f[i].writes != writes[i]) VIOL("cfg.write", "a refused initialisation (%s) wrote a page of file %d", badText(kind, d, g).c_str(), i);
        return 1;
    }
    log("    init(db%d,%s%s) -> %d", d.id, d.api->name, reset ? ",reset" : "", rc);
    if (rc != 0) return 1;
    d.open = true;
    if (memory && !stop()) {
        i64 h = (i64)ledgerBytes(d.id + 1);
        if (d.heapBase >= 0 && h != d.heapBase) VIOL("heap.base", "opening db%d takes %lld bytes, with the same configuration it took %lld before", d.id, (long long)h, (long long)d.heapBase);
        d.heapBase = h;
        d.heapAllocs = ledgerCount(d.id + 1);
    }
    if (counters && d.c.driver != 1 && d.c.driver != 2) {  // the desktop driver is called directly
        d.statOn = true;
        statBase(d);
        statCheck(d);
    }
    return 0;
}
// What an open database holds: what it took when it was opened, and one block for each open iterator with
// value bounds and each open stream.
void Exec::heapCheck(Db &d) {
    if (!d.open || stop() || crashed || d.heapBase < 0) return;
    size_t n = 0;
    for (auto &i : its)
        if (i.open && i.db == d.id && (i.hasB[2] || i.hasB[3])) n++;
    for (auto &s : sts)
        if (s.open && s.db == d.id) n++;
    size_t held = ledgerBytes(d.id + 1), count = ledgerCount(d.id + 1);
    if (count > d.heapAllocs + n || held > (size_t)d.heapBase + 128 * n)
        VIOL("heap.grow", "db%d holds %zu blocks with %zu bytes, after it was opened %zu with %lld, and %zu iterators and streams are open", d.id, count, held, d.heapAllocs, (long long)d.heapBase, n);
}
void Exec::statBase(Db &d) {
    for (int i = 0; i < 3; i++) d.statR[i] = d.f[i].okReads, d.statW[i] = d.f[i].writes;
}
// The counters say what the storage did since the database was opened or the counters were reset.
void Exec::statCheck(Db &d) {
    if (stop()) return;
    u32 s[5];
    d.api->stats(d.st, s);
    u64 r[3], w[3];
    for (int i = 0; i < 3; i++) r[i] = d.f[i].okReads - d.statR[i], w[i] = d.f[i].writes - d.statW[i];
    const char *n[] = {"reads", "writes", "index reads", "index writes"};
    u64 want[4] = {r[0] + r[2], w[0] + w[2], r[1], w[1]};
    sim.st->statChecks++;
    for (int i = 0; i < 4; i++)
        if (s[i] != (u32)want[i]) {
            VIOL("stat.count", "counter of %s of db%d is %u, %llu pages were", n[i], d.id, s[i], (unsigned long long)want[i]);
            return;
        }
    if (!r[0] && !r[1] && !r[2] && !w[0] && !w[1] && !w[2] && d.statFresh && s[4]) VIOL("stat.count", "the counter of buffer hits starts with %u", s[4]);
    d.statFresh = false;
}
void Exec::doStats(Db &d, bool print) {
    if (!d.open || stop() || crashed) return;
    if (print) {
        std::string text;
        u32 s[5];
        d.api->stats(d.st, s);
        sim.text = &text;
        bool ok = call(d, [&] { d.api->stats_print(d.st); });
        sim.text = nullptr;
        if (!ok || !counters) return;
        const char *n[] = {"Num reads: ", "Num writes: ", "Num index reads: ", "Num index writes: ", "Buffer hits: "};
        for (int i = 0; i < 5; i++) {
            size_t at = text.find(n[i]);
            if (at == std::string::npos || strtoul(text.c_str() + at + strlen(n[i]), nullptr, 10) != s[i]) {
                VIOL("stat.print", "the statistics do not show '%s%u'", n[i], s[i]);
                return;
            }
        }
        sim.st->statPrints++;
    } else {
        bool on = d.statOn;
        d.statOn = false;
        if (!call(d, [&] { d.api->stats_reset(d.st); })) return;
        d.statOn = on;
        statBase(d);
        d.statFresh = true;
        if (on && counters) statCheck(d);
    }
}
// Opening after a failed attempt is retried without faults and must then succeed.
bool Exec::openWithRetry(Db &d, bool reset) {
    if (badOpens && !reset && !d.c.driver)
        for (Rng r(mix2(sc.cfg.seed + 78, sim.badCtr)); r.chance(45);) {
            int o = openDb(d, false, true);
            if (o == 2 || stop()) return false;
            ledgerReclaim(d.id + 1);
            for (auto &f : d.f) f.open = false;
        }
    for (int attempt = 0;; attempt++) {
        int r = openDb(d, reset);
        if (r == 0) return true;
        if (r == 2) return false;
        ledgerReclaim(d.id + 1);
        for (auto &f : d.f) f.open = false;
        if (d.c.driver) {
            osCrash();
            dbDriver(d);
        }
        if ((d.c.driver == 3 || d.c.driver == 4) && !reset && !d.f[0].exists) {  // FAT: the file was lost with its directory entry
            reset = true;
            continue;
        }
        if (sim.faultFired == 0 || attempt >= 3) {
            VIOL("rec.initfail", "opening db%d failed without any storage or allocation fault", d.id);
            return false;
        }
        sim.st->initRetries++;
        if (attempt >= 1) sim.arms.clear();
    }
}

void Exec::dropStream(StSlot &s) {
    if (!s.open) return;
    Db &d = *dbs[s.db];
    sim.curOwner = d.id + 1;
    d.api->stream_free(s.s);
    s.open = false;
}
void Exec::itClose(ItSlot &it) {
    if (!it.open) return;
    Db &d = *dbs[it.db];
    call(d, [&] { d.api->it_close(it.mem); });
    it.open = false;
}
void Exec::closeHandles(Db &d) {
    for (auto &s : sts)
        if (s.open && s.db == d.id) dropStream(s);
    for (auto &i : its)
        if (i.open && i.db == d.id) itClose(i);
}
void Exec::closeDb(Db &d, bool expectClean) {
    if (!d.open) return;
    closeHandles(d);
    if (!call(d, [&] { d.api->close(d.st); })) return;
    d.open = false;
    if (expectClean) {
        size_t n = ledgerCount(d.id + 1);
        if (n) VIOL("mem.leak", "%zu allocations remain after closing db%d and all its iterators and streams", n, d.id);
    }
    ledgerReclaim(d.id + 1);
}

// ---------------------------------------------------------------- records
Rec Exec::makeRec(Db &d, u64 key, i64 valRaw, i64 varLen) {
    Rec r;
    r.key = key;
    r.uid = ++d.uid;
    i64 span = (i64)d.c.valHi - d.c.valLo + 1;
    r.val = (int)(d.c.valLo + (i64)((u64)valRaw % (u64)span));
    r.varLen = varLen;
    return r;
}
static i64 wide(int v) { return (i64)v * 2147483659LL; }
void Exec::recData(const Db &d, const Rec &r, u8 *out) const {
    int n = d.c.dataSize, i = 0;
    if (d.c.data64) {
        i64 v = wide(r.val);
        memcpy(out, &v, 8);
        i = 8;
    } else if (n >= 4) {
        memcpy(out, &r.val, 4);
        i = 4;
    }
    u64 x = 0;
    for (int k = 0; i < n; i++, k++) {
        if (k % 8 == 0) x = mix2(d.salt + (u64)k, r.uid * 2654435761u + r.key);
        out[i] = (u8)(x >> (8 * (k % 8)));
    }
}
void Exec::varData(const Db &d, const Rec &r, std::vector<u8> &out) const {
    out.resize(r.varLen > 0 ? (size_t)r.varLen : 0);
    for (size_t i = 0; i < out.size(); i += 8) {
        u64 x = mix2(d.salt ^ 0xabcdef, r.uid * 77 + i);
        memcpy(&out[i], &x, std::min<size_t>(8, out.size() - i));
    }
}
i64 Exec::find(const Db &d, u64 key) const {
    size_t a = 0, b = d.hist.size();
    while (a < b) {
        size_t m = (a + b) / 2;
        if (d.hist[m].key < key) a = m + 1;
        else b = m;
    }
    return a < d.hist.size() && d.hist[a].key == key ? (i64)a : -1;
}
void Exec::putKey(Db &d, u64 k) { memcpy(d.kb, &k, d.c.keySize); }
static u64 keyOf(const Db &d, const u8 *b) {
    u64 k = 0;
    memcpy(&k, b, d.c.keySize);
    return k;
}

void Exec::modelPut(Db &d, Rec r) {
    if (d.bufCount >= d.rpp) {
        d.W++;
        d.bufCount = 0;
    }
    r.page = d.W;
    d.bufCount++;
    d.hist.push_back(r);
    if (d.W + 1 > d.maxW) {
        d.maxW = d.W + 1;
        if (d.W && d.W % (d.c.nData * d.c.e) == 0) sim.st->dataWraps++;
        if (d.W > sim.st->maxPages) sim.st->maxPages = d.W;
    }
}
void Exec::modelFlush(Db &d, bool sure) {
    if (d.bufCount) {
        d.W++;
        d.bufCount = 0;
    }
    if (!sure) d.slackP = std::max(d.slackP, 1u);
}
void Exec::coverState(Db &d, int op) {
    if (!cover) return;
    u32 n = (u32)(d.c.nData * d.c.e);
    u64 h = 11;
    auto b = [](u64 x) { return x == 0 ? 0 : x == 1 ? 1 : x < 4 ? 2 : x < 16 ? 3 : x < 64 ? 4 : 5; };
    h = mix2(h, (u64)op);
    h = mix2(h, (u64)d.c.params * 4 + (u64)d.c.variant);
    h = mix2(h, std::min<u64>(d.W % n, 40) * 64 + (u64)b(d.W / n) * 8 + (d.bufCount == 0 ? 0 : d.bufCount == d.rpp ? 1 : d.bufCount + 1 == d.rpp ? 2 : 3));
    h = mix2(h, (u64)d.c.e * 100 + (u64)d.c.nData);
    h = mix2(h, d.vdata ? std::min<u64>(d.nv() % (u64)(d.c.nVar * d.c.e), 40) * 8 + (u64)b(d.nv() / (u64)(d.c.nVar * d.c.e)) : 999);
    h = mix2(h, (u64)(d.index ? std::min<u64>(d.f[1].writes, 40) : 999));
    h = mix2(h, (u64)d.c.cache * 8 + (u64)b(sim.pend.size()));
    h = mix2(h, (u64)sim.faultMaskFired * 2 + (u64)crashed);
    h = mix2(h, (u64)b(d.maybe.size()) * 8 + (u64)b(d.ghosts.size()));
    cover(h);
}

// Costs: which pages an operation reads.
void Exec::readsBegin() {
    if (!costs) return;
    for (int i = 0; i < 3; i++) {
        reads[i].clear();
        wrote[i] = 0;
        sim.readLog[i] = &reads[i];
    }
}
void Exec::readsEnd() { sim.readLog[0] = sim.readLog[1] = sim.readLog[2] = nullptr; }
// The first key of one more page. A spline that keeps to its error adds a point only where the keys leave a straight line.
void Exec::lineAdd(Db &d, u32 page, u64 key, bool first) {
    if (!first) {
        u64 dk = key - d.lineKey, dp = page - d.linePage;
        if (d.lineDp == 0 || dp == 0 || (unsigned __int128)dk * d.lineDp != (unsigned __int128)d.lineDk * dp) d.lines++;
        d.lineDk = dk;
        d.lineDp = dp;
    }
    d.linePage = page;
    d.lineKey = key;
}
// Whether all points of the spline fit, so that no lookup leaves its error
bool Exec::splineFits(const Db &d) { return std::min(d.sessionPages, d.lines + 1) + 2 <= (u32)d.c.spline; }
void Exec::placeWritten(Db &d, int cls, u32 page, const u8 *b) {
    if (cls > 1) return;
    Db::Place p{};
    memcpy(&p.id, b, 4);
    p.count = (u32)b[4] | (u32)b[5] << 8;
    int bs = d.c.bmSize;
    if (cls == 1) memcpy(&p.start, b + 8, 4);
    else {
        int header = 6 + ((d.c.params & (SIM_P_INDEX | SIM_P_BMAP)) ? bs : 0);
        if (d.c.params & SIM_P_MAXMIN) header = std::max(header, 14) + 2 * d.c.keySize + 2 * d.c.dataSize;
        int rs = d.c.keySize + d.c.dataSize + (d.vdata ? 4 : 0);
        if (!p.count || p.count > d.rpp) return;
        p.first = keyOf(d, b + header);
        p.last = keyOf(d, b + header + rs * (int)(p.count - 1));
        if (d.c.params & SIM_P_BMAP) {
            p.bm.assign((size_t)bs, 0);
            std::vector<u8> dat((size_t)d.c.dataSize);
            for (u32 i = 0; i < p.count; i++) {
                memcpy(dat.data(), b + header + rs * (int)i + d.c.keySize, dat.size());
                d.api->bm_update(d.st, dat.data(), p.bm.data());
            }
        }
        if (p.id % d.f[0].cap == page) {
            lineAdd(d, p.id, p.first, d.sessionPages == 0);
            d.sessionPages++;
        }
    }
    d.place[cls][page] = p;
}
void Exec::costPut(Db &d, const char *what) {
    readsEnd();
    if (!costs || sim.faultFired || crashed || stop()) return;
    bool flush = what[0] == 'f';
    // whole pages only: a page is written when the next record does not fit, or by a flush
    u32 full = d.rlc || (flush ? d.bufCount > 0 : d.bufCount >= d.rpp);  // record-level consistency: recovery refills the buffer
    u32 most = full + (d.rlc && !flush);
    if (wrote[0] > most) VIOL("cost.write", "%s with %u of %u records in the buffer wrote %u data pages", what, d.bufCount, d.rpp, wrote[0]);
    else if (wrote[1] > (flush ? 2u : full)) VIOL("cost.write", "%s with %u of %u records in the buffer wrote %u index pages", what, d.bufCount, d.rpp, wrote[1]);
    else if (reads[0].size() > (!flush && d.bufCount == 0)) VIOL("cost.put", "%s read page %u of the data file", what, reads[0][0]);
    else if (!reads[1].empty()) VIOL("cost.put", "%s read page %u of the index file", what, reads[1][0]);
    else if (reads[2].size() > 2 + d.f[2].writes) VIOL("cost.put", "%s read %zu pages of the variable-data file", what, reads[2].size());
}
void Exec::costGet(Db &d, u64 key, int rc) {
    readsEnd();
    if (!costs || sim.faultFired || crashed || stop()) return;
    size_t n = reads[0].size(), lim = 0;
    if (!d.rlc && d.slackP == 0 && (d.W == 0 || (d.bufCount && d.bufCount <= d.hist.size() && key >= d.hist[d.hist.size() - d.bufCount].key))) {
        sim.st->costBuffered++;
        if (n) VIOL("cost.get", "lookup of key %llu read %zu data pages, it can only be in the write buffer", (unsigned long long)key, n);
    }
    u32 pages = std::min(d.W + d.slackP, d.f[0].cap);
    if (d.c.params & SIM_P_BSEARCH) {
        for (u32 p = std::max(pages, 1u); p; p /= 2) lim++;
        if (n > lim) VIOL("cost.get", "lookup of key %llu read %zu data pages of %u, binary search needs at most %zu", (unsigned long long)key, n, pages, lim);
        sim.st->costGets++;
    } else if (splineFits(d)) {
        lim = 2 * (size_t)d.c.maxErr + 1;
        if (n > lim) VIOL("cost.get", "lookup of key %llu read %zu data pages, the spline with maximum error %d needs at most %zu", (unsigned long long)key, n, d.c.maxErr, lim);
        sim.st->costGets++;
    }
    if (stop() || rc != 0) return;
    if (!reads[1].empty()) VIOL("cost.get", "lookup of key %llu read the index file", (unsigned long long)key);
}
void Exec::costScan(Db &d, ItSlot &it) {
    readsEnd();
    if (!costs || crashed || stop()) return;
    for (int c = 0; c < 2; c++) {
        std::set<u32> seen;
        for (u32 p : reads[c])
            if (!seen.insert(p).second) {
                VIOL("cost.scan", "one scan read page %u of the %s file twice", p, c ? "index" : "data");
                return;
            }
    }
    std::vector<u8> q((size_t)std::max(1, d.c.bmSize), 0);
    bool filter = d.index && (d.c.params & SIM_P_BMAP) && (it.hasB[2] || it.hasB[3]);
    i64 lo = it.hasB[2] ? it.minD : INT16_MIN, hi = it.hasB[3] ? it.maxD : INT16_MAX;
    if (filter && !d.c.data64 && lo <= hi && lo >= INT16_MIN && hi <= INT16_MAX) {
        // the buckets of the values of the range; beyond +-2100 all values share one
        u8 v[64] = {0};
        for (i64 x = std::clamp<i64>(lo, -2100, 2100); x <= std::clamp<i64>(hi, -2100, 2100); x++) {
            int w = (int)x;
            memcpy(v, &w, 4);
            d.api->bm_update(d.st, v, q.data());
        }
    } else if (filter)
        d.api->bm_range(d.st, it.hasB[2] ? it.bounds[2] : nullptr, it.hasB[3] ? it.bounds[3] : nullptr, q.data());
    u32 per = d.index ? (u32)((d.c.pageSize - 16) / d.c.bmSize) : 1, before = 0, after = 0;
    for (u32 page : reads[0]) {
        auto f = d.place[0].find(page);
        if (f == d.place[0].end()) continue;
        const Db::Place &p = f->second;
        if (it.hasB[1] && (!it.hasB[0] || it.minK <= it.maxK) && p.first > it.maxK && after++) {
            VIOL("cost.scan", "scan up to key %llu read a second page (%u) with larger keys only", (unsigned long long)it.maxK, p.id);
            return;
        }
        if (it.hasB[0] && p.last < it.minK) before++;
        if (!filter) continue;
        sim.st->costPages++;
        auto g = d.place[1].find(p.id / per % d.f[1].cap);
        if (g == d.place[1].end() || g->second.id != p.id / per || p.id < g->second.start || p.id >= g->second.start + g->second.count) continue;
        sim.st->costIndexed++;
        bool overlap = false;
        for (int i = 0; i < d.c.bmSize; i++) overlap |= (p.bm[(size_t)i] & q[(size_t)i]) != 0;
        if (!overlap) {
            VIOL("cost.index", "filtered scan read data page %u although its bitmap on index page %u shows that nothing matches", p.id, g->second.id);
            return;
        }
    }
    if (it.hasB[0] && !(d.c.params & SIM_P_BSEARCH) && splineFits(d) && before > 2 * (u32)d.c.maxErr + 1)
        VIOL("cost.scan", "scan from key %llu read %u pages with smaller keys only, the spline has maximum error %d", (unsigned long long)it.minK, before, d.c.maxErr);
    sim.st->costScans++;
}
// Storage format: what a page says about itself must be true.
void Exec::pageWritten(Db &d, int cls, u32 page, const u8 *b) {
    if (stop()) return;
    if (sim.faultFired || sim.faultTaint) d.sawFault = true;
    auto u32at = [](const u8 *p) { return (u32)p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; };
    u32 id = u32at(b);
    int ks = d.c.keySize, ds = d.c.dataSize;
    static const char *n[3] = {"data", "index", "variable-data"};
    bool temp = cls == 0 && d.rlc && id % d.f[0].cap != page;
    if (!temp && id % d.f[cls].cap != page) {
        VIOL("fmt.id", "%s page written to page %u says it is page %u of the database", n[cls], page, id);
        return;
    }
    if (cls == 0 || !d.rlc) {
        i64 &l = d.lastId[cls];
        if (l >= 0 && (i64)id != l && (i64)id != l + 1) {
            VIOL("fmt.order", "%s page %u was written after page %lld", n[cls], id, (long long)l);
            return;
        }
        l = id;
    }
    if (cls == 2) {
        u64 k = keyOf(d, b + 4);
        bool known = find(d, k) >= 0 || (pendingDb == d.id && pendingRec.key == k) || d.sawFault;
        for (auto g : d.ghosts) known |= g == k;
        if (!known) VIOL("fmt.varkey", "variable-data page %u says its largest key is %llu, which was never inserted", id, (unsigned long long)k);
        return;
    }
    u32 cnt = (u32)b[4] | (u32)b[5] << 8;
    int bs = d.c.bmSize;
    if (cls == 1) {
        u32 start = u32at(b + 8);
        if (16 + (u64)cnt * (u64)bs > (u64)d.c.pageSize) {
            VIOL("fmt.count", "index page %u says it holds %u bitmaps", id, cnt);
            return;
        }
        for (u32 i = 0; i < cnt; i++) {
            auto p = d.pages.find(start + i);
            if (p == d.pages.end()) {
                if (!d.sawFault) VIOL("fmt.index", "index page %u describes data page %u, which was not written", id, start + i);
                return;
            }
            if (!p->second.bm.empty() && memcmp(&p->second.bm[0], b + 16 + i * (u32)bs, (size_t)bs)) {
                VIOL("fmt.index", "index page %u does not hold the bitmap of data page %u", id, start + i);
                return;
            }
        }
        sim.st->fmtPages++;
        return;
    }
    if (cnt < 1 || cnt > d.rpp) {
        VIOL("fmt.count", "data page %u says it holds %u records, room is for %u", id, cnt, d.rpp);
        return;
    }
    int header = 6 + ((d.c.params & (SIM_P_INDEX | SIM_P_BMAP)) ? bs : 0);
    bool mm = d.c.params & SIM_P_MAXMIN;
    if (mm) header = std::max(header, 14) + 2 * ks + 2 * ds;
    int rs = ks + ds + (d.vdata ? 4 : 0);
    std::vector<u8> exp((size_t)ds), bm((size_t)std::max(bs, 1), 0), mn, mx;
    i64 prev = -1;
    bool amb = false;
    auto cmp = [&](const u8 *x, const u8 *y) {
        if (d.c.data64) {
            i64 p, q;
            memcpy(&p, x, 8);
            memcpy(&q, y, 8);
            return p < q ? -1 : p > q;
        }
        if (ds >= 4) {
            int32_t p, q;
            memcpy(&p, x, 4);
            memcpy(&q, y, 4);
            return p < q ? -1 : p > q;
        }
        for (int i = ds - 1; i >= 0; i--)
            if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
        return 0;
    };
    u64 lastKey = 0;
    for (u32 i = 0; i < cnt; i++) {
        const u8 *r = b + header + i * (u32)rs, *dat = r + ks;
        u64 k = keyOf(d, r);
        if (i && k <= lastKey) {
            VIOL("fmt.sorted", "data page %u holds key %llu after key %llu", id, (unsigned long long)k, (unsigned long long)lastKey);
            return;
        }
        lastKey = k;
        i64 at = find(d, k);
        const Rec *e = at >= 0 ? &d.hist[(size_t)at] : pendingDb == d.id && pendingRec.key == k ? &pendingRec : nullptr;
        if (!e)
            for (auto &m : d.maybe)
                if (m.key == k) e = &m, amb = true;
        if (!e) {
            VIOL("fmt.record", "data page %u holds key %llu, which is not in the database", id, (unsigned long long)k);
            return;
        }
        recData(d, *e, exp.data());
        if (memcmp(exp.data(), dat, (size_t)ds)) {
            VIOL("fmt.record", "data page %u holds wrong data for key %llu", id, (unsigned long long)k);
            return;
        }
        if (i && at >= 0 && prev >= 0 && at != prev + 1 && !amb) {
            VIOL("fmt.missing", "data page %u lacks the records between its records %u and %u", id, i - 1, i);
            return;
        }
        prev = at;
        if (bs && (d.c.params & (SIM_P_INDEX | SIM_P_BMAP))) d.api->bm_update(d.st, exp.data(), bm.data());
        if (i == 0 || cmp(dat, mn.data()) < 0) mn.assign(dat, dat + ds);
        if (i == 0 || cmp(dat, mx.data()) > 0) mx.assign(dat, dat + ds);
    }
    if (bs && (d.c.params & (SIM_P_INDEX | SIM_P_BMAP))) {
        /* the membership test agrees with the bitmap, for the values of the page and for values around them */
        std::vector<u8> t;
        for (u32 i = 0; i < 6 && ds >= 4; i++) {
            std::vector<u8> v(mn);
            int x;
            memcpy(&x, (i & 1 ? mx : mn).data(), 4);
            if (x > -1000000 && x < 1000000) x += (int)(i / 2) * (i & 1 ? 37 : -37);
            memcpy(v.data(), &x, 4);
            t = bm;
            d.api->bm_update(d.st, v.data(), t.data());
            int in = d.api->bm_in(d.st, v.data(), bm.data());
            if (in >= 0 && in != (t == bm)) {
                VIOL("fmt.member", "the bitmap of data page %u %s the value %d, but the membership test says otherwise", id, t == bm ? "contains" : "does not contain", x);
                return;
            }
        }
    }
    u64 first = keyOf(d, b + header);
    if (mm) {
        const u8 *h = b + 14;
        if (keyOf(d, h) != first || keyOf(d, h + ks) != lastKey) {
            VIOL("fmt.minmax", "data page %u says its keys are %llu to %llu, but they are %llu to %llu", id, (unsigned long long)keyOf(d, h), (unsigned long long)keyOf(d, h + ks), (unsigned long long)first, (unsigned long long)lastKey);
            return;
        }
        if (!d.sawFault && (cmp(h + 2 * ks, mn.data()) || cmp(h + 2 * ks + ds, mx.data()))) {
            VIOL("fmt.minmax", "data page %u does not say the smallest and largest data of its records", id);
            return;
        }
    }
    Db::Page pg{first, lastKey, {}};
    if (d.c.params & SIM_P_BMAP) {
        pg.bm.assign(b + 6, b + 6 + bs);
        for (int i = 0; i < bs; i++)
            if ((bm[(size_t)i] & ~pg.bm[(size_t)i]) || (!d.sawFault && bm[(size_t)i] != pg.bm[(size_t)i])) {
                VIOL("fmt.bitmap", "the bitmap of data page %u does not describe its records", id);
                return;
            }
    }
    if (!temp) {
        auto p = d.pages.find(id - 1);
        if (p != d.pages.end() && !d.sawFault) {
            i64 at = find(d, p->second.last);
            if (at >= 0 && (size_t)at + 1 < d.hist.size() && d.hist[(size_t)at + 1].key != first) {
                VIOL("fmt.missing", "data page %u does not begin with the record after the last one of page %u", id, id - 1);
                return;
            }
        }
    }
    d.pages[id] = pg;
    sim.st->fmtPages++;
}
// After an acknowledged durable operation nothing of this database may sit in the volatile queue.
void Exec::notDurable(Db &d, const char *what, bool withIndex, bool withVar) {
    for (auto &p : sim.pend)
        if (p.f->db == d.id && p.kind == 0 && (p.f->cls != 1 || withIndex) && (p.f->cls != 2 || withVar)) {
            VIOL("dur.ack", "%s on db%d reported success but page %u of its %s file is not durable", what, d.id, p.start, p.f->cls == 0 ? "data" : p.f->cls == 1 ? "index" : "variable-data");
            return;
        }
}

bool Exec::doPut(Db &d, u64 key, i64 valRaw, i64 varLen, bool plain) {
    if (stop() || crashed) return false;
    if (!d.hist.empty() && key <= d.hist.back().key) return false;
    if (key > d.keyLimit) return false;
    if (d.hist.empty() && d.recoveredMin) return false;
    i64 maxLen = (i64)d.payload * (i64)((d.c.nVar - 1) * d.c.e) / 2;
    if (varLen > maxLen) varLen = maxLen;
    if (!d.vdata) varLen = -1;
    if (plain) varLen = -1;
    Rec r = makeRec(d, key, valRaw, varLen);
    r.varStart = d.nv();
    putKey(d, key);
    recData(d, r, d.db);
    pendingRec = r;
    pendingDb = d.id;
    int rc = -99;
    if (d.vdata && !plain) {
        std::vector<u8> v;
        varData(d, r, v);
        u8 *vb = nullptr;
        if (varLen >= 0) {
            vb = (u8 *)malloc(v.size() ? v.size() : 1);
            if (v.size()) memcpy(vb, v.data(), v.size());
        }
        sim.callBudget = 0;
        readsBegin();
        call(d, [&] { rc = d.api->putVar(d.st, d.kb, d.db, vb, vb ? (u32)v.size() : 0); });
        free(vb);
    } else {
        readsBegin();
        call(d, [&] { rc = d.api->put(d.st, d.kb, d.db); });
    }
    costPut(d, "insert");
    if (crashed || stop()) return false;
    pendingDb = -1;
    sim.st->puts++;
    apiNote(mix2(0x100 + (u64)(rc & 0xff), key));
    log("    put(db%d,key=%llu,val=%d,var=%lld) -> %d%s", d.id, (unsigned long long)key, r.val, (long long)varLen, rc, sim.faultFired ? " [fault]" : "");
    if (rc == 0) {
        if (!reported("insert")) return false;
        d.maybe.clear();
        modelPut(d, r);
        sim.st->records++;
        if (varLen > 0) sim.st->varBytes += (u64)varLen;
        if (d.rlc) {
            d.watermark = (i64)d.hist.size();
            // variable data of an insert that failed may still be queued
            notDurable(d, "insert with record-level consistency", false, varLen >= 0);
        }
        return true;
    }
    if (sim.faultFired == 0) {
        VIOL(rc == 1 ? "put.reject" : "put.fail", "insert of larger key %llu returned %d without any fault", (unsigned long long)key, rc);
        return false;
    }
    // failed insert: present completely or not at all; ask the database, without faults
    sim.st->ambiguous++;
    d.slackP = std::max(d.slackP, 1u);
    if (d.bufCount >= d.rpp) {
        d.W++;
        d.bufCount = 0;
    }
    bool q = sim.quiet;
    sim.quiet = true;
    int rc2 = -99;
    putKey(d, key);
    u8 *tmp = (u8 *)malloc(d.c.dataSize);
    call(d, [&] { rc2 = d.api->get(d.st, d.kb, tmp); });
    sim.quiet = q;
    if (!stop() && rc2 == 0) {
        recData(d, r, d.db);
        if (memcmp(tmp, d.db, d.c.dataSize)) VIOL("get.wrong", "failed insert of key %llu left a record with wrong data", (unsigned long long)key);
        modelPut(d, r);
        d.maybe.clear();
        log("      ... record is present");
    } else {
        d.maybe.push_back(r);
        orphan(d, r);
        d.ghosts.push_back(key);
        if (d.maybe.size() > 8) d.maybe.erase(d.maybe.begin());
    }
    free(tmp);
    return false;
}

void Exec::doPutBad(Db &d, const Op &o) {
    if (d.hist.empty()) return;
    u64 k;
    u64 raw = (u64)o.b;
    switch ((int)o.a % 4) {
        case 0: k = d.hist.back().key; break;
        case 1: k = d.hist[raw % d.hist.size()].key; break;
        case 2: k = d.hist.back().key ? d.hist.back().key - 1 - std::min<u64>(raw % 5, d.hist.back().key - 1) : 0; break;
        default: k = raw % (d.hist.back().key + 1); break;
    }
    Rec r = makeRec(d, k, o.c, d.vdata && o.d >= 0 ? o.d % 64 : -1);
    putKey(d, k);
    recData(d, r, d.db);
    std::vector<u8> v;
    varData(d, r, v);
    int rc = -99;
    bool pv = d.vdata && (o.c & 1);
    if (!call(d, [&] { rc = pv ? d.api->putVar(d.st, d.kb, d.db, r.varLen >= 0 ? v.data() : nullptr, (u32)v.size()) : d.api->put(d.st, d.kb, d.db); })) return;
    apiNote(mix2(0x200 + (u64)(rc & 0xff), k));
    log("    putbad(db%d,key=%llu) -> %d", d.id, (unsigned long long)k, rc);
    sim.st->rejected++;
    if (rc == 0) VIOL("put.badaccept", "insert of key %llu, not larger than the last key %llu, was accepted", (unsigned long long)k, (unsigned long long)d.hist.back().key);
}

void Exec::checkGet(Db &d, u64 key, const char *ctx) {
    if (stop() || crashed) return;
    putKey(d, key);
    u8 *out = (u8 *)malloc(d.c.dataSize), *exp = (u8 *)malloc(d.c.dataSize);
    memset(out, 0xEE, d.c.dataSize);
    int rc = -99;
    readsBegin();
    if (call(d, [&] { rc = d.api->get(d.st, d.kb, out); })) {
        costGet(d, key, rc);
        i64 i = find(d, key);
        apiNote(mix2(0x300 + (u64)(rc & 0xff), rc == 0 ? hashBytes(out, d.c.dataSize) : key));
        log("    get(db%d,%llu) -> %d (idx %lld of %zu, must>=%zu)%s", d.id, (unsigned long long)key, rc, (long long)i, d.hist.size(), d.firstMust(), sim.faultFired ? " [fault]" : "");
        if (i < 0) {
            sim.st->ghostChecks++;
            if (rc == 0) VIOL("get.ghost", "lookup of key %llu which is not in the database succeeded (%s)", (unsigned long long)key, ctx);
        } else if (rc == 0) {
            recData(d, d.hist[i], exp);
            if (memcmp(out, exp, d.c.dataSize)) VIOL("get.wrong", "lookup of key %llu returned other data than inserted (%s)", (unsigned long long)key, ctx);
        } else {
            if ((size_t)i >= d.firstMust()) {
                if (!sim.faultFired) VIOL("get.miss", "lookup of retained key %llu (record %lld of %zu, oldest retained %zu) returned %d (%s)", (unsigned long long)key, (long long)i, d.hist.size(), d.firstMust(), rc, ctx);
            } else
                sim.st->evictedSeen++;
        }
    }
    free(out);
    free(exp);
}
u64 Exec::pickKey(Db &d, int mode, u64 raw) {
    size_t n = d.hist.size();
    if (!n) return mode == 5 ? raw % 100 : d.c.keyBase + raw % 50;
    u64 last = d.hist.back().key;
    switch (mode) {
        case 0: {  // retained
            size_t m = d.firstMust();
            return d.hist[m + raw % (n - m > 0 ? n - m : 1) < n ? m + raw % (n - m > 0 ? n - m : 1) : n - 1].key;
        }
        case 1: return d.hist[n - 1 - raw % std::min<size_t>(n, 2 * d.rpp + 1)].key;  // recent
        case 2: {  // around the oldest retained
            size_t m = d.firstMust();
            i64 i = (i64)m + (i64)(raw % 9) - 3;
            return d.hist[(size_t)std::max<i64>(0, std::min<i64>(i, (i64)n - 1))].key;
        }
        case 3: {  // gap next to an existing key
            u64 k = d.hist[raw % n].key;
            return (raw >> 20) & 1 ? k + 1 : k ? k - 1 : 0;
        }
        case 4: return std::min<u64>(d.keyLimit, last + 1 + raw % 1000);  // beyond
        case 5: return d.hist[0].key ? raw % d.hist[0].key : 0;       // below
        case 6: return d.ghosts.empty() ? d.hist[raw % n].key : d.ghosts[raw % d.ghosts.size()];
        case 7: return d.hist[raw % n].key;  // any, also evicted
        case 8: {  // first or last record of a page, where page searches end
            size_t i = raw % n;
            while (i > 0 && d.hist[i - 1].page == d.hist[i].page) i--;
            if ((raw >> 21) & 1 && i > 0) i--;
            return d.hist[i].key;
        }
        default: return raw % (last + 1 ? last + 1 : 1);
    }
}
void Exec::readStream(Db &d, StSlot &s, u64 want) {
    if (!s.open || stop() || crashed) return;
    u32 total = (u32)s.rec.varLen;
    if (refusals && want % 8 == 3) {
        u32 n = 99;
        if (call(d, [&] { n = d.api->stream_read(d.st, s.s, nullptr, (u32)want); }) && n != 0) VIOL("var.refuse", "reading %llu bytes of a stream into no buffer returned %u", (unsigned long long)want, n);
        if (stop() || crashed) return;
    }
    u8 *b = (u8 *)malloc(want ? want : 1);
    memset(b, 0xEE, want ? want : 1);
    u32 got = 0;
    if (call(d, [&] { sim.st->streamReads++; got = d.api->stream_read(d.st, s.s, b, (u32)want); })) {
        if (d.varGoneAllowed(s.rec)) {
            dropStream(s);
        } else {
            u32 expect = (u32)std::min<u64>(want, total - s.off);
            apiNote(mix2(0x400 + got, hashBytes(b, std::min<u64>(got, want))));
            log("    sread(db%d key %llu off %u want %llu) -> %u", d.id, (unsigned long long)s.rec.key, s.off, (unsigned long long)want, got);
            std::vector<u8> v;
            varData(d, s.rec, v);
            if (got > expect) VIOL("var.wrong", "stream of key %llu returned %u bytes where %u remain", (unsigned long long)s.rec.key, got, expect);
            else if (memcmp(b, v.data() + s.off, got)) VIOL("var.wrong", "stream of key %llu returned altered bytes at offset %u", (unsigned long long)s.rec.key, s.off);
            else if (got < expect && !sim.faultFired) VIOL("var.short", "stream of key %llu returned %u of %u bytes at offset %u", (unsigned long long)s.rec.key, got, expect, s.off);
            else if (got < expect) dropStream(s);  // position after a failed read is unspecified
            else s.off += got;
        }
    }
    free(b);
}
// Calls for variable data on a table without it are refused and change nothing.
void Exec::refuseVar(Db &d, u64 key) {
    if (stop() || crashed || d.hist.empty()) return;
    u8 *out = (u8 *)malloc(d.c.dataSize), some[4] = {1, 2, 3, 4};
    void *s = (void *)(uintptr_t)0x1;
    int rc = -99;
    putKey(d, key);
    if (call(d, [&] { rc = d.api->getVar(d.st, d.kb, out, &s); }) && rc == 0) VIOL("var.refuse", "a lookup of key %llu with variable data succeeded on a table without variable data", (unsigned long long)key);
    u64 next = d.hist.back().key + 1;
    if (!stop() && !crashed && next <= d.keyLimit && d.maybe.empty()) {
        putKey(d, next);
        Rec r = makeRec(d, next, (i64)key, -1);
        recData(d, r, d.db);
        if (call(d, [&] { rc = d.api->putVar(d.st, d.kb, d.db, some, sizeof some); }) && rc == 0) VIOL("var.refuse", "an insert of key %llu with variable data succeeded on a table without variable data", (unsigned long long)next);
        putKey(d, next);
        if (!stop() && !crashed && call(d, [&] { rc = d.api->get(d.st, d.kb, out); }) && rc == 0) VIOL("var.refuse", "key %llu is in the table although its insert was refused", (unsigned long long)next);
    }
    free(out);
}
void Exec::checkGetVar(Db &d, u64 key, int slot, u64 chunkSeed) {
    if (!d.vdata && refusals) refuseVar(d, key);
    if (stop() || crashed || !d.vdata) return;
    putKey(d, key);
    u8 *out = (u8 *)malloc(d.c.dataSize), *exp = (u8 *)malloc(d.c.dataSize);
    memset(out, 0xEE, d.c.dataSize);
    void *s = (void *)(uintptr_t)0x1;
    int rc = -99;
    std::vector<u32> varReads;
    readsBegin();
    expectAlloc(1, 128);
    bool called = call(d, [&] { rc = d.api->getVar(d.st, d.kb, out, &s); });
    if (!called) readsEnd();
    if (called) {
        costGet(d, key, rc);
        if (costs) {
            varReads = reads[2];
            if (wrote[2] && varReads.size() > 1) varReads.erase(varReads.begin(), varReads.end() - 1);  // the write reads the page it erases
            i64 at = find(d, key);
            bool buffered = d.rlc || d.slackP || (at >= 0 && d.hist[(size_t)at].page == d.W);
            if (!sim.faultFired && !stop() && (wrote[0] || wrote[1] || wrote[2] > (buffered ? 1u : 0u)))
                VIOL("cost.write", "variable-data lookup of key %llu wrote %u data, %u index and %u variable-data pages", (unsigned long long)key, wrote[0], wrote[1], wrote[2]);
        }
        i64 i = find(d, key);
        log("    getvar(db%d,%llu) -> %d stream %s (idx %lld/%zu must %zu)%s", d.id, (unsigned long long)key, rc, rc == 0 && s ? "yes" : "no", (long long)i, d.hist.size(), d.firstMust(), sim.faultFired ? " [fault]" : "");
        apiNote(mix2(0x500 + (u64)(rc & 0xff), key + (rc == 0 && s ? 1 : 0)));
        int ff = sim.faultFired;
        if (i < 0) {
            sim.st->ghostChecks++;
            if (rc == 0 || rc == 1) VIOL("get.ghost", "variable-data lookup of key %llu which is not in the database returned %d", (unsigned long long)key, rc);
        } else {
            Rec &r = d.hist[i];
            bool must = (size_t)i >= d.firstMust();
            if (rc == 0 || rc == 1) {
                recData(d, r, exp);
                if (memcmp(out, exp, d.c.dataSize)) VIOL("get.wrong", "variable-data lookup of key %llu returned other fixed data than inserted", (unsigned long long)key);
            }
            if (rc == 0 && s == nullptr) {
                if (r.varLen >= 0) VIOL("var.lost", "key %llu was inserted with %lld bytes of variable data but none is reported", (unsigned long long)key, (long long)r.varLen);
            } else if (rc == 0) {
                StSlot t;
                t.db = d.id;
                t.s = s;
                t.rec = r;
                t.open = true;
                if (s == (void *)(uintptr_t)0x1) {
                    VIOL("var.wrong", "lookup of key %llu succeeded without setting the stream", (unsigned long long)key);
                } else if (r.varLen < 0) {
                    VIOL("var.foreign", "key %llu was inserted without variable data but a stream is returned", (unsigned long long)key);
                } else if (!d.varGoneAllowed(r) && d.api->stream_total(s) != (u32)r.varLen) {
                    VIOL("var.wrong", "variable data of key %llu has length %u, inserted %lld", (unsigned long long)key, d.api->stream_total(s), (long long)r.varLen);
                } else if (d.varGoneAllowed(r) && d.api->stream_total(s) != (u32)r.varLen) {
                    // about to be overwritten is still "not overwritten": a stream must be right, a refusal is fine
                    VIOL("var.wrong", "variable data of key %llu has length %u, inserted %lld (old record, should be exact or deleted)", (unsigned long long)key, d.api->stream_total(s), (long long)r.varLen);
                } else if (slot >= 0) {
                    dropStream(sts[slot]);
                    sts[slot] = t;
                    s = nullptr;
                } else {
                    Rng cr(chunkSeed);
                    // read it completely now; the data cannot be overwritten in between
                    std::vector<u8> v;
                    varData(d, r, v);
                    readsBegin();
                    u32 off = 0;
                    int guard = 0;
                    while (!stop() && !crashed) {
                        u64 ch = cr.pick<u64>({1, 2, 3, 7, (u64)d.payload, (u64)d.payload - 1, (u64)d.payload + 1, (u64)d.payload * 2, (u64)r.varLen + 1, 64, 1000});
                        if (ch < 1) ch = 1;
                        if (r.varLen > 4000) ch = std::max<u64>(ch, 200);
                        u8 *b = (u8 *)malloc(ch);
                        u32 got = 0;
                        if (call(d, [&] { sim.st->streamReads++; got = d.api->stream_read(d.st, s, b, (u32)ch); })) {
                            u32 expect = (u32)std::min<u64>(ch, (u64)r.varLen - off);
                            apiNote(mix2(0x600 + got, hashBytes(b, std::min<u64>(got, ch))));
                            if (got > expect || memcmp(b, v.data() + off, got)) VIOL("var.wrong", "variable data of key %llu differs at offset %u (chunk %llu, got %u, length %lld)", (unsigned long long)key, off, (unsigned long long)ch, got, (long long)r.varLen);
                            else if (got < expect && !sim.faultFired) VIOL("var.short", "variable data of key %llu: read returned %u of %u bytes at offset %u of %lld", (unsigned long long)key, got, expect, off, (long long)r.varLen);
                            off += got;
                            if (got < expect || off == (u32)r.varLen || ++guard > 100000) {
                                free(b);
                                break;
                            }
                        }
                        free(b);
                    }
                    readsEnd();
                    if (costs && !sim.faultFired && !stop() && !crashed) {
                        varReads.insert(varReads.end(), reads[2].begin(), reads[2].end());
                        size_t most = ((size_t)r.varLen + 4 + (size_t)d.payload - 1) / (size_t)d.payload + 1 + (r.varLen == 0);
                        std::set<u32> once(varReads.begin(), varReads.end());
                        sim.st->costStreams++;
                        if (once.size() != varReads.size()) VIOL("cost.var", "reading the %lld bytes of key %llu read %zu pages, %zu different ones", (long long)r.varLen, (unsigned long long)key, varReads.size(), once.size());
                        else if (varReads.size() > most) VIOL("cost.var", "reading the %lld bytes of key %llu read %zu pages, they fit in %zu", (long long)r.varLen, (unsigned long long)key, varReads.size(), most);
                        else if (!reads[0].empty() || !reads[1].empty() || wrote[0] || wrote[1] || wrote[2]) VIOL("cost.var", "reading the stream of key %llu read %zu data and %zu index pages and wrote %u pages", (unsigned long long)key, reads[0].size(), reads[1].size(), wrote[0] + wrote[1] + wrote[2]);
                    }
                }
                if (s && s != (void *)(uintptr_t)0x1 && !crashed) {
                    sim.curOwner = d.id + 1;
                    d.api->stream_free(s);
                }
            } else if (rc == 1) {
                if (r.varLen < 0) VIOL("var.deleted", "key %llu has no variable data but it is reported as deleted", (unsigned long long)key);
                else if (!d.varGoneAllowed(r) && d.orphanExplains(r)) sim.known("var.orphan", "variable data of key %llu is reported deleted although it is stored: the page of an earlier lost insert of a key >= %llu was erased", (unsigned long long)key, (unsigned long long)key);
                else if (!d.varGoneAllowed(r)) VIOL("var.deleted", "variable data of key %llu is reported deleted although its storage (page %llu, now %llu of %d) was not overwritten", (unsigned long long)key, (unsigned long long)r.varStart, (unsigned long long)d.nv(), d.c.nVar * d.c.e);
                else sim.st->deletedSeen++;
            } else {
                if (must && !ff) VIOL(d.varGoneAllowed(r) ? "get.miss" : "var.miss", "variable-data lookup of retained key %llu returned %d", (unsigned long long)key, rc);
            }
        }
    }
    free(out);
    free(exp);
}

void Exec::doFlush(Db &d, bool var) {
    if (stop() || crashed) return;
    if (var && !d.vdata) return;
    int rc = -99;
    readsBegin();
    if (!call(d, [&] { rc = var ? d.api->flushVar(d.st) : d.api->flush(d.st); })) return;
    costPut(d, "flush");
    apiNote(0x700 + (u64)(rc & 0xff));
    log("    flush%s(db%d) -> %d%s", var ? "var" : "", d.id, rc, sim.faultFired ? " [fault]" : "");
    if (rc == 0) {
        if (!reported(var ? "flush of the variable data" : "flush")) return;
        if (!var) {
            modelFlush(d, true);
            d.watermark = (i64)d.hist.size();
            notDurable(d, "flush", true, true);
        }
        return;
    }
    if (!sim.faultFired) VIOL("flush.fail", "flush of db%d returned %d without any fault", d.id, rc);
    else if (!var) modelFlush(d, false);
}

// ---------------------------------------------------------------- iterators
void Exec::itOpen(Db &d, ItSlot &it, int mask, u64 raw, u64 raw2) {
    itClose(it);
    if (stop() || crashed) return;
    if (d.c.dataSize < 4) mask &= 3;
    Rng r(raw2);
    it = ItSlot{(int)d.id, it.mem, {it.bounds[0], it.bounds[1], it.bounds[2], it.bounds[3]}, {false, false, false, false}, 0, 0, 0, 0, -1, 0, false, false, false};
    Rng jr(mix2(sim.junkSeed, 91 + sim.junkCtr++));
    junkAlloc(it.mem, d.api->sizeofIter, jr);
    u64 k1 = pickKey(d, (int)(raw % 10), raw >> 4), k2;
    if (r.chance(50)) k2 = pickKey(d, (int)r.below(10), r.next());
    else {  // narrow range
        i64 i = find(d, k1);
        size_t j = i < 0 ? 0 : (size_t)i + r.below(3 * d.rpp + 2);
        k2 = d.hist.empty() ? k1 + 5 : d.hist[std::min(j, d.hist.size() - 1)].key;
    }
    if (k1 > k2 && !r.chance(5)) std::swap(k1, k2);
    i64 span = (i64)d.c.valHi - d.c.valLo + 1;
    auto pv = [&]() -> int {
        if (r.chance(10)) return (int)std::max<i64>(INT32_MIN, (i64)d.c.valLo - 1 - (i64)r.below(50));
        if (r.chance(10)) return (int)std::min<i64>(INT32_MAX, (i64)d.c.valHi + 1 + (i64)r.below(50));
        if (!d.hist.empty() && r.chance(50)) return d.hist[r.below(d.hist.size())].val;
        return (int)(d.c.valLo + (i64)r.below((u64)span));
    };
    int v1 = pv(), v2 = r.chance(40) ? (int)std::min<i64>(2147483647, v1 + (i64)r.below(std::max<u64>(1, (u64)span / 8))) : pv();
    if (v1 > v2 && !r.chance(3)) std::swap(v1, v2);
    it.minK = k1;
    it.maxK = k2;
    it.minD = v1;
    it.maxD = v2;
    for (int b = 0; b < 4; b++) {
        it.hasB[b] = mask >> b & 1;
        free(it.bounds[b]);
        it.bounds[b] = (u8 *)malloc(b < 2 ? d.c.keySize : d.c.data64 ? 8 : 4);
    }
    memcpy(it.bounds[0], &k1, d.c.keySize);
    memcpy(it.bounds[1], &k2, d.c.keySize);
    i64 w1 = d.c.data64 ? wide(v1) : v1, w2 = d.c.data64 ? wide(v2) : v2;
    memcpy(it.bounds[2], &w1, d.c.data64 ? 8 : 4);
    memcpy(it.bounds[3], &w2, d.c.data64 ? 8 : 4);
    expectAlloc(it.hasB[2] || it.hasB[3], it.hasB[2] || it.hasB[3] ? 128 : 0);
    if (!call(d, [&] { d.api->it_init(d.st, it.mem, it.hasB[0] ? it.bounds[0] : nullptr, it.hasB[1] ? it.bounds[1] : nullptr, it.hasB[2] ? it.bounds[2] : nullptr, it.hasB[3] ? it.bounds[3] : nullptr); })) return;
    it.open = true;
    it.histEnd = d.hist.size();
    if (it.hasB[2] || it.hasB[3]) sim.st->valueScans++;
    log("    iter(db%d) keys[%s%llu,%s%llu] vals[%s%d,%s%d]", d.id, it.hasB[0] ? "" : "-", (unsigned long long)k1, it.hasB[1] ? "" : "-", (unsigned long long)k2, it.hasB[2] ? "" : "-", v1, it.hasB[3] ? "" : "-", v2);
}
static bool matches(const ItSlot &it, const Rec &r) {
    return !(it.hasB[0] && r.key < it.minK) && !(it.hasB[1] && r.key > it.maxK) && !(it.hasB[2] && r.val < it.minD) && !(it.hasB[3] && r.val > it.maxD);
}
// one step; returns false when the iteration ended
bool Exec::itStep(Db &d, ItSlot &it, bool useVar, u64 chunkSeed) {
    if (!it.open || it.done || stop() || crashed) return false;
    if (useVar && !d.vdata && refusals) {
        u8 *k = (u8 *)malloc(d.c.keySize), *v = (u8 *)malloc(d.c.dataSize);
        void *s = (void *)(uintptr_t)1;
        int rc = -99;
        if (call(d, [&] { rc = d.api->it_nextVar(d.st, it.mem, k, v, &s); }) && rc == 1) VIOL("var.refuse", "an iterator over a table without variable data returned a record with variable data");
        free(k);
        free(v);
        if (stop() || crashed) return false;
    }
    useVar = useVar && d.vdata;
    bool vf = it.hasB[2] || it.hasB[3];
    u8 *k = (u8 *)malloc(d.c.keySize), *v = (u8 *)malloc(d.c.dataSize), *exp = (u8 *)malloc(d.c.dataSize);
    void *s = (void *)(uintptr_t)1;
    int rc = -99;
    bool cont = false;
    expectAlloc(useVar, useVar ? 128 : 0);
    if (call(d, [&] { rc = useVar ? d.api->it_nextVar(d.st, it.mem, k, v, &s) : d.api->it_next(d.st, it.mem, k, v); })) {
        int ff = sim.faultFired;
        bool onlyIdx = sim.idxReadOnly;
        size_t must = d.firstMust();
        apiNote(rc == 1 ? mix2(0x800, hashBytes(v, d.c.dataSize, keyOf(d, k))) : 0x801 + (u64)(rc & 0xff));
        if (rc == 1) {
            u64 key = keyOf(d, k);
            i64 i = find(d, key);
            log("      next -> %llu (idx %lld)", (unsigned long long)key, (long long)i);
            if (i < 0) VIOL("scan.ghost", "scan returned key %llu which is not in the database", (unsigned long long)key);
            else {
                Rec r = d.hist[i];
                recData(d, r, exp);
                if (memcmp(v, exp, d.c.dataSize)) VIOL("scan.wrong", "scan returned other data than inserted for key %llu", (unsigned long long)key);
                else if (i <= it.last) VIOL("scan.order", "scan returned record %lld after record %lld", (long long)i, (long long)it.last);
                else if (!matches(it, r)) VIOL(vf ? "fscan.extra" : "scan.bounds", "scan returned key %llu value %d outside its bounds", (unsigned long long)key, r.val);
                else {
                    for (size_t j = std::max<size_t>((size_t)(it.last + 1), must); j < (size_t)i && j < it.histEnd; j++)
                        if (matches(it, d.hist[j])) {
                            if (!ff || onlyIdx) VIOL(vf ? "fscan.miss" : "scan.miss", "scan skipped retained key %llu (record %zu, oldest retained %zu) and returned record %lld", (unsigned long long)d.hist[j].key, j, must, (long long)i);
                            break;
                        }
                    it.last = i;
                    cont = true;
                    if (useVar && !stop()) {
                        if (s == (void *)(uintptr_t)1) VIOL("var.wrong", "scan step succeeded without setting the stream of key %llu", (unsigned long long)key);
                        else if (s == nullptr) {
                            if (r.varLen >= 0 && !d.varGoneAllowed(r) && d.orphanExplains(r)) sim.known("var.orphan", "scan reports no variable data for key %llu: it was inserted again after an earlier insert of key >= %llu was lost", (unsigned long long)key, (unsigned long long)key);
                            else if (r.varLen >= 0 && !d.varGoneAllowed(r)) VIOL("var.lost", "scan reports no variable data for key %llu inserted with %lld bytes", (unsigned long long)key, (long long)r.varLen);
                        } else {
                            if (r.varLen < 0) VIOL("var.foreign", "scan returned a stream for key %llu inserted without variable data", (unsigned long long)key);
                            else if (d.api->stream_total(s) != (u32)r.varLen) VIOL("var.wrong", "scan: variable data of key %llu has length %u, inserted %lld", (unsigned long long)key, d.api->stream_total(s), (long long)r.varLen);
                            else {
                                StSlot t;
                                t.db = d.id;
                                t.s = s;
                                t.rec = r;
                                t.open = true;
                                Rng cr(chunkSeed);
                                int guard = 0;
                                bool gone = d.varGoneAllowed(r);
                                if (gone) {
                                    u8 *b = (u8 *)malloc((size_t)r.varLen + 1);
                                    u32 got = 0;
                                    std::vector<u8> vv;
                                    varData(d, r, vv);
                                    if (call(d, [&] { sim.st->streamReads++; got = d.api->stream_read(d.st, s, b, (u32)r.varLen + 1); }))
                                        if (got > (u32)r.varLen || memcmp(b, vv.data(), got) || (got < (u32)r.varLen && !sim.faultFired)) VIOL("var.wrong", "scan: old variable data of key %llu is altered", (unsigned long long)key);
                                    free(b);
                                } else
                                    while (t.open && t.off < (u32)r.varLen && !stop() && !crashed && guard++ < 10000) readStream(d, t, cr.chance(30) ? 1 + cr.below(9) : std::max<u64>(1, cr.below((u64)r.varLen + 2)));
                                if (!t.open) s = nullptr;
                            }
                            if (s && !crashed) {
                                sim.curOwner = d.id + 1;
                                d.api->stream_free(s);
                            }
                        }
                    }
                }
            }
        } else {
            it.done = true;
            log("      next -> end (%d)%s", rc, ff ? " [fault]" : "");
            expectAlloc(useVar, useVar ? 128 : 0);
            if (rc == 0 && !ff && (chunkSeed & 3) == 0 && call(d, [&] { rc = useVar ? d.api->it_nextVar(d.st, it.mem, k, v, &s) : d.api->it_next(d.st, it.mem, k, v); }) && rc == 1)
                VIOL("scan.end", "a scan that had ended returned key %llu", (unsigned long long)keyOf(d, k));
            else if (rc != 0) VIOL("scan.status", "scan step returned %d", rc);
            else if (!ff || onlyIdx)
                for (size_t j = std::max<size_t>((size_t)(it.last + 1), must); j < it.histEnd && j < d.hist.size(); j++)
                    if (matches(it, d.hist[j])) {
                        VIOL(vf ? "fscan.miss" : "scan.miss", "scan ended without returning retained key %llu (record %zu of %zu, oldest retained %zu, last returned %lld)", (unsigned long long)d.hist[j].key, j, d.hist.size(), must, (long long)it.last);
                        break;
                    }
        }
    }
    free(k);
    free(v);
    free(exp);
    return cont;
}
void Exec::doScan(Db &d, int mask, u64 raw, u64 raw2, bool useVar) {
    ItSlot &it = its[its.size() - 1];
    readsBegin();
    itOpen(d, it, mask, raw, raw2);
    while (itStep(d, it, useVar, (raw2 + 5) | (u64)costs)) {
    }
    if (it.open && it.done && !useVar) costScan(d, it);
    readsEnd();
    if (!crashed) itClose(it);
}
// Complete unbounded scan with exact content; returns history indices. During recovery the history is not yet
// settled: unknown tail records are reported by key through pendingRec/maybe handling of the caller.
std::vector<i64> Exec::fullScan(Db &d, bool recovery, bool crash) {
    (void)crash;
    std::vector<i64> out;
    ItSlot &it = its[its.size() - 1];
    itOpen(d, it, 0, 1, 1);
    if (recovery) {
        it.histEnd = 0;
    }
    while (!stop() && !crashed) {
        i64 before = it.last;
        if (!itStep(d, it, false, 0)) break;
        if (before >= 0 && it.last != before + 1) VIOL(recovery ? "rec.gap" : "scan.miss", "content is not gap-free: record %lld follows record %lld", (long long)it.last, (long long)before);
        out.push_back(it.last);
        if (out.size() > d.hist.size() + 8) break;
    }
    if (!crashed) itClose(it);
    return out;
}

void Exec::doCheck(Db &d, u64 raw, bool deep) {
    if (stop() || crashed) return;
    bool q = sim.quiet;
    sim.quiet = true;
    auto w = fullScan(d, false, false);
    if (!stop() && !crashed) {
        // what remains is a gap-free run ending with the newest record
        if (!d.hist.empty() && (w.empty() || w.back() != (i64)d.hist.size() - 1)) VIOL("scan.miss", "a full scan does not end with the newest record");
        Rng r(raw);
        size_t n = d.hist.size(), m = d.firstMust();
        size_t cnt = n - m;
        if (cnt <= 40 || deep) {
            size_t step = deep ? 1 : 1;
            if (cnt > 600) step = cnt / 300;
            for (size_t i = m; i < n && !stop(); i += step) checkGet(d, d.hist[i].key, "check");
        } else
            for (int k = 0; k < 40 && !stop(); k++) checkGet(d, d.hist[m + r.below(cnt)].key, "check");
        for (int k = 0; k < 10 && !stop(); k++) checkGet(d, pickKey(d, (int)r.below(10), r.next()), "check");
        for (size_t i = 0; i < d.ghosts.size() && i < 12 && !stop(); i++) checkGet(d, d.ghosts[d.ghosts.size() - 1 - i], "check");
        if (d.vdata && n && r.chance(80)) {
            for (int k = 0; k < 25 && !stop(); k++) checkGetVar(d, pickKey(d, k < 4 ? 1 : k < 8 ? 2 : 0, r.next()), -1, r.next());
        }
    }
    sim.quiet = q;
}

// ---------------------------------------------------------------- crash and recovery
void Exec::doCrash(int keep) {
    sim.st->crashes++;
    for (auto &d : dbs) d->place[0].clear(), d->sawCrash = true;
    diskCrash(keep);
    for (auto &dp : dbs) {
        Db &d = *dp;
        for (auto &s : sts)
            if (s.db == d.id) s.open = false;
        for (auto &i : its)
            if (i.db == d.id) i.open = false;
        ledgerReclaim(d.id + 1);
        d.open = false;
    }
    ledgerReclaim(50);
    ledgerReclaim(51);
    for (auto &dp : dbs)
        if (dp->c.driver) dbDriver(*dp);
    crashed = false;
}
void Exec::resync(Db &d, bool crash) {
    if (stop()) return;
    S->st->recoveries++;
    bool q = sim.quiet;
    sim.quiet = true;
    d.watermark = std::max(d.watermark, d.c.driver ? (i64)0 : sim.durTag[d.id]);
    // candidates for a record beyond the accepted ones
    std::vector<Rec> cand;
    if (crash && pendingDb == d.id) cand.push_back(pendingRec);
    for (auto &m : d.maybe) cand.push_back(m);
    size_t n0 = d.hist.size();
    size_t must0 = d.firstMust();
    (void)must0;
    // scan with raw comparison
    ItSlot &it = its[its.size() - 1];
    itOpen(d, it, 0, 1, 1);
    u8 *k = (u8 *)malloc(d.c.keySize), *v = (u8 *)malloc(d.c.dataSize), *exp = (u8 *)malloc(d.c.dataSize);
    i64 first = -1, last = -1;
    bool extra = false;
    while (!stop() && !crashed) {
        int rc = -99;
        if (!call(d, [&] { rc = d.api->it_next(d.st, it.mem, k, v); })) break;
        if (rc != 1) break;
        u64 key = keyOf(d, k);
        apiNote(mix2(0x900, hashBytes(v, d.c.dataSize, key)));
        if (extra) {
            VIOL("rec.extra", "recovered database returns key %llu after the last record", (unsigned long long)key);
            break;
        }
        i64 i = find(d, key);
        if (i >= 0) {
            recData(d, d.hist[i], exp);
            if (memcmp(v, exp, d.c.dataSize)) {
                VIOL("rec.wrong", "recovered record with key %llu has other data than inserted", (unsigned long long)key);
                break;
            }
            if (first < 0) first = i;
            else if (i != last + 1) {
                VIOL("rec.gap", "recovered content is not contiguous: record %lld follows record %lld", (long long)i, (long long)last);
                break;
            }
            last = i;
        } else {
            bool ok = false;
            for (auto &c : cand)
                if (c.key == key) {
                    recData(d, c, exp);
                    if (memcmp(v, exp, d.c.dataSize)) continue;
                    if (last >= 0 && last != (i64)n0 - 1) {
                        VIOL("rec.gap", "recovered content has the unfinished insert %llu directly after record %lld of %zu", (unsigned long long)key, (long long)last, n0);
                    }
                    Rec r = c;
                    modelPut(d, r);
                    ok = extra = true;
                    if (first < 0) first = (i64)n0;
                    last = (i64)n0;
                    break;
                }
            if (stop()) break;
            if (!ok) {
                VIOL("rec.ghost", "recovered database returns key %llu which it never accepted or which was lost before", (unsigned long long)key);
                break;
            }
        }
    }
    if (!stop()) itClose(it);
    free(k);
    free(v);
    free(exp);
    if (!stop()) {
        log("    recovered db%d: records [%lld,%lld] of %zu, watermark %lld", d.id, (long long)first, (long long)last, d.hist.size(), (long long)d.watermark);
        // KNOWN FINDING (C10): with one-page erase blocks and an erase that leaves the old content in place,
        // a temporary page that could not be written leaves a stale page where recovery looks first.
        bool noopErase = d.c.driver ? d.c.driver != 2 : d.c.erasePat == 0;
        if (last + 1 < d.watermark && d.rlc && d.c.e == 1 && noopErase && sim.faultTaint)
            sim.known("rlc.stale", "recovery ends with record %lld although %lld records were durable: a stale page was taken for the first page", (long long)last, (long long)d.watermark);
        else if (last + 1 < d.watermark) VIOL(d.rlc ? "rec.lostack" : "rec.lost", "recovery ends with record %lld although %lld records were durable", (long long)last, (long long)d.watermark);
    }
    if (!stop() && last >= 0) {
        // oldest: nothing that had to be retained may be missing
        u32 W = d.hist[(size_t)last].page + 1;
        i64 lo = (i64)W - (i64)d.cap + d.slackP;
        size_t a = d.recoveredMin;
        while (a <= (size_t)last && (i64)d.hist[a].page < lo) a++;
        if ((i64)a < first) VIOL("rec.evicted", "recovery starts with record %lld although record %zu had to be retained (page %u of %u, capacity %u)", (long long)first, a, d.hist[a].page, W, d.cap);
    }
    if (!stop()) {
        for (size_t i = (size_t)(last + 1); i < d.hist.size(); i++) orphan(d, d.hist[i]);
        for (auto &c : cand)
            if (find(d, c.key) < 0) orphan(d, c);
        for (size_t i = (size_t)(last + 1); i < d.hist.size(); i++)
            if (d.ghosts.size() < 200 || (i & 7) == 0) d.ghosts.push_back(d.hist[i].key);
        for (auto &c : cand)
            if (find(d, c.key) < 0) d.ghosts.push_back(c.key);
        if (d.ghosts.size() > 400) d.ghosts.erase(d.ghosts.begin(), d.ghosts.begin() + 200);
        bool partial = false;
        if (last >= 0) {
            d.hist.resize((size_t)last + 1);
            d.W = d.hist.back().page + 1;
            partial = true;
        } else {
            d.hist.clear();
            d.W = 0;
            d.recoveredMin = 0;
        }
        (void)partial;
        d.bufCount = 0;
        d.slackP = d.slackP > 1 ? d.slackP : 1;
        d.slackV = 2;
        d.maybe.clear();
        d.watermark = std::min<i64>(d.watermark, (i64)d.hist.size());
        if (!d.c.driver) sim.durTag[d.id] = std::min<i64>(sim.durTag[d.id], (i64)d.hist.size());
        // ghosts that were inserted again are no ghosts
        std::vector<u64> g;
        for (auto x : d.ghosts)
            if (find(d, x) < 0) g.push_back(x);
        d.ghosts.swap(g);
        // everything recovered answers lookups, and its variable data is intact
        size_t n = d.hist.size(), m = first < 0 ? 0 : (size_t)first;
        size_t cnt = n > m ? n - m : 0;
        Rng r(mix2(sc.cfg.seed, 900 + (u64)cur));
        bool all = cnt <= 24;
        for (size_t j = 0; j < (all ? cnt : 24) && !stop() && !crashed; j++) {
            size_t i = all ? m + j : j < 6 ? n - 1 - j : m + r.below(cnt);
            checkGet(d, d.hist[i].key, "after recovery");
            if (d.vdata && !stop()) checkGetVar(d, d.hist[i].key, -1, r.next());
        }
        for (size_t j = 0; j < 6 && j < d.ghosts.size() && !stop(); j++) checkGet(d, d.ghosts[d.ghosts.size() - 1 - j], "after recovery");
    }
    if (pendingDb == d.id) pendingDb = -1;
    sim.quiet = q;
}
// bring every database back after a crash, possibly crashing again on the way
void Exec::recoverAll() {
    for (int round = 0; round < 6; round++) {
        bool again = false;
        for (auto &dp : dbs) {
            Db &d = *dp;
            if (d.open || stop()) continue;
            if (!openWithRetry(d, false)) {
                if (crashed) {
                    again = true;
                    break;
                }
                return;
            }
        }
        if (stop()) return;
        if (!again) break;
        sim.st->crashInRecovery++;
        int keep = sim.ac.keep;
        sim.ac.on = false;
        doCrash(keep);
    }
    sim.ac.on = false;
    for (auto &dp : dbs) {
        if (stop()) return;
        resync(*dp, true);
    }
}

u64 Exec::gap(Db &d, u64 raw) {
    u64 p = d.c.gapParam ? d.c.gapParam : 1, g = 1;
    u64 n = d.hist.size();
    switch (d.c.gapKind) {
        case 0: g = p; break;                                        // constant
        case 1: g = 1 + raw % p; break;                              // uniform
        case 2: g = 1 + (raw % 10 == 0 ? raw / 10 % (p * 1000 + 1) : raw % 3); break;  // rare jumps
        case 3: g = 1 + ((u64)1 << (raw % 24)) * (raw / 24 % p + 1) / 16; break;     // heavy tailed
        case 4: g = (n / (20 + p % 50)) % 2 ? 1 + raw % 3 : 1 + p * 50 + raw % 7; break;   // alternating slopes
        case 5: g = 1 + n * p / 8; break;                            // accelerating
        case 6: g = 1 + ((u64)1 << (raw % 55)); break;               // huge jumps (wide keys)
        default: g = n % 64 == 63 ? 1 + p * 10000 : 1; break;        // bursts
    }
    return g ? g : 1;
}

void Exec::armOp(const Op &o, Db *d) {
    sim.st->ops[o.code]++;
    if (o.code == OP_ARM) {
        Arm a;
        a.kind = (int)(o.a % FK_COUNT);
        a.skip = o.b;
        a.len = std::max<i64>(1, o.c);
        a.variant = (int)(o.d & 3);
        // fault model: with record-level consistency a write reported as failed leaves no page behind
        if (a.kind == FK_WRITE)
            for (auto &x : dbs)
                if (x->c.params & SIM_P_RLC) a.variant = 0;
        a.mask = (int)(o.d >> 2 & 7);
        bool anyFile = !d || a.kind == FK_ALLOC || d->c.driver;
        if (!a.mask || anyFile) a.mask = 7;
        a.db = o.db >= 0 && !anyFile ? d->id : -1;
        if (sim.arms.size() < 8) sim.arms.push_back(a);
        sim.st->faultsArmed++;
    } else if (o.code == OP_ARMCRASH) {
        sim.ac = ArmCrash{};
        sim.ac.on = true;
        sim.ac.skip = o.a;
        sim.ac.when = (int)(o.b % 3);
        sim.ac.keep = (int)std::min<i64>(256, o.c);
        sim.ac.again = o.d;
    } else {
        sim.arms.clear();
        sim.ac.on = false;
    }
}
void Exec::runOp(const Op &o) {
    if (o.code >= OP_DOPEN) {
        doDrv(o);
        return;
    }
    if (dbs.empty()) {
        if (sc.cfg.db.empty() && (o.code == OP_ARM || o.code == OP_ARMCRASH || o.code == OP_DISARM)) armOp(o, nullptr);
        return;
    }
    Db &d = *dbs[(size_t)o.db % dbs.size()];
    if (!d.open && o.code != OP_CRASH) return;
    if (o.code == OP_ARM || o.code == OP_ARMCRASH || o.code == OP_DISARM) {
        armOp(o, &d);
        coverState(d, o.code);
        return;
    }
    sim.st->ops[o.code]++;
    switch (o.code) {
        case OP_PUT: {
            u64 g = gap(d, (u64)o.a & ~PUT_FAR);
            if ((u64)o.a & PUT_FAR) g = (g & 0xffffffffffff) * 40 + 17;  // smaller keys may follow if this insert fails
            u64 key = d.hist.empty() ? d.c.keyBase + (u64)o.a % 3 : d.hist.back().key + g;
            if (!d.hist.empty() && key < d.hist.back().key) break;
            doPut(d, key, o.b, o.c >= -1 ? o.c : -1, o.c < -1 || (o.c == -1 && o.d));
            break;
        }
        case OP_PUTN: {
            Rng r((u64)o.b);
            for (i64 i = 0; i < o.a && !stop() && !crashed; i++) {
                u64 key = d.hist.empty() ? d.c.keyBase : d.hist.back().key + gap(d, r.next() >> 8);
                if (!d.hist.empty() && key < d.hist.back().key) break;
                i64 vl = -1;
                if (d.vdata) {
                    int p = (int)r.below(10);
                    vl = p < 2 ? -1 : p < 7 ? (i64)r.below(12) : p < 9 ? (i64)r.below((u64)d.payload + 4) : (i64)r.below((u64)d.payload * 3);
                    if (o.c > 0) vl = o.c;
                }
                i64 vr = (i64)(r.next() >> 2);
                if (o.d) vr = (i64)d.hist.size() / (i64)(o.d);  // clustered values
                doPut(d, key, vr, vl, false);
            }
            break;
        }
        case OP_PUTBAD: doPutBad(d, o); break;
        case OP_GET: checkGet(d, pickKey(d, (int)(o.a % 10), (u64)o.b), "get"); break;
        case OP_GETV: checkGetVar(d, pickKey(d, (int)(o.a % 10), (u64)o.b), -1, (u64)o.c); break;
        case OP_SOPEN: checkGetVar(d, pickKey(d, (int)(o.a % 10), (u64)o.b), (int)(o.c % 3), 1); break;
        case OP_SREAD: {
            StSlot &s = sts[(size_t)o.a % 3];
            if (s.open) readStream(*dbs[s.db], s, (u64)o.b);
            break;
        }
        case OP_SCLOSE: dropStream(sts[(size_t)o.a % 3]); break;
        case OP_IOPEN: itOpen(d, its[(size_t)o.a % 4], (int)o.b & 15, (u64)o.c, (u64)o.d); break;
        case OP_INEXT: {
            ItSlot &it = its[(size_t)o.a % 4];
            for (i64 i = 0; i < o.b && it.open; i++)
                if (!itStep(*dbs[it.db], it, o.c & 1, (u64)o.d)) break;
            break;
        }
        case OP_ICLOSE: itClose(its[(size_t)o.a % 4]); break;
        case OP_SCAN: doScan(d, (int)o.a & 15, (u64)o.b, (u64)o.c, o.d & 1); break;
        case OP_FLUSH: doFlush(d, false); break;
        case OP_FLUSHV: doFlush(d, true); break;
        case OP_REOPEN: {
            if (o.a & 1) doFlush(d, false);
            if (stop() || crashed) break;
            closeDb(d, true);
            if (stop() || crashed) break;
            if ((o.a & 2) && !d.c.driver && forceVariant < 0) d.c.variant ^= 1;
            sim.st->reopenClean++;
            if (openWithRetry(d, false)) resync(d, false);
            break;
        }
        case OP_RESET: {
            closeDb(d, true);
            if (stop() || crashed) break;
            if (openWithRetry(d, true)) {
                for (auto &r : d.hist)
                    if (d.ghosts.size() < 100) d.ghosts.push_back(r.key);
                d.hist.clear();
                d.maybe.clear();
                d.W = d.bufCount = 0;
                d.watermark = 0;
                d.recoveredMin = 0;
                sim.durTag[d.id] = 0;
                d.slackP = d.slackV = 0;
                resync(d, false);
                d.slackP = d.slackV = 0;
            } else if (crashed) {  // interrupted: old content may be partly gone; start over
                crashed = false;
                doCrash(256);
                sim.ac.on = false;
                for (auto &x : dbs)
                    if (!x->open) {
                        bool mine = x.get() == &d;
                        if (!openWithRetry(*x, mine)) break;
                        if (mine) {
                            d.hist.clear();
                            d.maybe.clear();
                            d.W = d.bufCount = 0;
                            d.watermark = 0;
                            d.recoveredMin = 0;
                            sim.durTag[d.id] = 0;
                        } else
                            resync(*x, true);
                    }
                pendingDb = -1;
            }
            break;
        }
        case OP_CRASH: {
            int keep = (int)(o.a & 511);
            if (keep > 256) keep = 256;
            if (o.b > 0) {
                sim.ac = ArmCrash{};
                sim.ac.on = true;
                sim.ac.skip = o.b - 1;
                sim.ac.when = (int)(o.c % 3);
                sim.ac.keep = keep;
            } else
                sim.ac.on = false;
            pendingDb = -1;
            doCrash(keep);
            recoverAll();
            break;
        }
        case OP_CHECK: doCheck(d, (u64)o.a, o.b); break;
        case OP_QUERY: doQuery(o); break;
        case OP_STATS: doStats(d, o.a); break;
        default: break;
    }
    if (!stop() && crashed) {
        // the armed crash fired inside the operation
        int keep = sim.ac.keep;
        i64 again = sim.ac.again;
        log("    CRASH inside op (keep %d)", keep);
        sim.ac.on = false;
        doCrash(keep);
        if (again > 0) {
            sim.ac.on = true;
            sim.ac.skip = again - 1;
            sim.ac.again = 0;
        }
        recoverAll();
    }
    if (memory)
        for (auto &x : dbs) heapCheck(*x);
    if (!stop()) coverState(d, o.code);
}

RunResult Exec::run() {
    S = &sim;
    sim.st->runs++;
    bool hasDrvOps = false;
    for (auto &o : sc.ops) hasDrvOps |= o.code >= OP_DOPEN;
    for (size_t i = 0; i < sc.cfg.db.size(); i++) setupDb((int)i);
    costs = sc.cfg.profile == "C23";
    refusals = sc.cfg.profile == "C08";
    counters = sc.cfg.profile == "C24";
    memory = sc.cfg.profile == "C25";
    if (memory) stackReach();
    badOpens = sc.cfg.profile == "C20";
    if (costs) {
        sim.onWrite = [this](DiskFile *f, u32 page, const u8 *b) { wrote[f->cls]++; placeWritten(*dbs[(size_t)f->db], f->cls, page, b); };
        sim.onErase = [this](DiskFile *f, u32 a, u32 e) {
            if (f->cls < 2)
                for (u32 p = a; p < e; p++) dbs[(size_t)f->db]->place[f->cls].erase(p);
        };
    }
    if (sc.cfg.profile == "C22")
        sim.onWrite = [this](DiskFile *f, u32 page, const u8 *b) { pageWritten(*dbs[(size_t)f->db], f->cls, page, b); };
    for (auto &d : dbs) {
        if (d->rlc) sim.st->rlcRuns++;
        if (d->c.params & SIM_P_BMAP) sim.st->bmapRuns++;
        if (d->vdata) sim.st->varRuns++;
        if (d->c.driver) sim.st->driverRuns++;
        if (stop()) break;
        openWithRetry(*d, d->c.firstReset || (!d->c.fixed && d->c.driver != 5));
    }
    if (dbs.size() > 1) sim.st->multiRuns++;
    for (size_t i = 0; i < sc.ops.size() && !stop(); i++) {
        cur = (int)i;
        const Op &o = sc.ops[i];
        log("[%zu] %s db%d %lld %lld %lld %lld", i, opNames[o.code], o.db, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d);
        runOp(o);
        if (stop()) res.opIndex = (int)i;
    }
    if (!stop()) {
        // faults are over: everything must work again
        cur = (int)sc.ops.size();
        sim.arms.clear();
        sim.ac.on = false;
        for (auto &d : dbs) {
            if (!d->open || stop()) continue;
            doCheck(*d, sc.cfg.seed, false);
            if (stop()) break;
            u64 key = d->hist.empty() ? d->c.keyBase : d->hist.back().key + 1;
            if (key <= d->keyLimit) doPut(*d, key, 1, d->vdata ? 3 : -1, false);
            if (!stop()) doFlush(*d, false);
            if (!stop()) closeDb(*d, true);
            if (!stop() && openWithRetry(*d, false)) {
                resync(*d, false);
                if (!stop()) closeDb(*d, true);
            }
        }
        if (hasDrvOps) drvClose();
        bool wrapped = false;
        for (auto &d : dbs) wrapped |= d->maxW > (u32)(d->c.nData * d->c.e);
        if (wrapped) sim.st->wrapRuns++;
        if (stop()) res.opIndex = (int)sc.ops.size();
    }
    for (auto &d : dbs)
        if (d->drvIface && !stop()) {
            sim.curOwner = 91;
            for (auto &f : d->drvFile) d->drvApi->file_free(f);
            d->drvApi->iface_free(d->drvIface);
            if (ledgerCount(91)) VIOL("mem.leak", "driver objects keep memory after they were torn down");
            else if (!sim.streams.empty()) VIOL("mem.leak", "the driver keeps files open after it was torn down");
        }
    res.viol = sim.viol.set;
    res.tag = sim.viol.tag;
    res.msg = sim.viol.msg;
    if (!sim.knownTag.empty()) res.known = sim.knownTag + ": " + sim.knownMsg;
    note(sim.eventHash);
    return res;
}
