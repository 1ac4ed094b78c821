#include "gen.hpp"

static void W(Profile &p, std::initializer_list<std::pair<int, int>> l) {
    for (auto &x : l) p.w[x.first] = x.second;
}
bool profileFor(const std::string &prop, Profile &p) {
    p = Profile();
    p.name = prop;
    W(p, {{OP_PUT, 10}, {OP_PUTN, 25}, {OP_PUTBAD, 2}, {OP_GET, 10}, {OP_SCAN, 3}, {OP_FLUSH, 5}, {OP_REOPEN, 3}, {OP_IOPEN, 1}, {OP_INEXT, 2}, {OP_ICLOSE, 1}, {OP_CHECK, 2}, {OP_RESET, 1}});
    if (prop == "C01") {
        W(p, {{OP_GET, 30}, {OP_FLUSH, 4}, {OP_CHECK, 5}, {OP_GETV, 4}});
        p.longRun = 2;
        p.multi = 4;
        p.wrapBias = 40;
    } else if (prop == "C02") {
        W(p, {{OP_PUTBAD, 25}, {OP_FLUSH, 12}, {OP_REOPEN, 8}, {OP_CRASH, 3}, {OP_GET, 4}});
        p.crashes = 35;
    } else if (prop == "C03") {
        W(p, {{OP_SCAN, 15}, {OP_IOPEN, 8}, {OP_INEXT, 20}, {OP_ICLOSE, 2}, {OP_FLUSH, 6}, {OP_PUT, 15}});
        p.index = 10;
    } else if (prop == "C04") {
        W(p, {{OP_SCAN, 25}, {OP_FLUSH, 7}, {OP_REOPEN, 6}, {OP_CRASH, 4}, {OP_ARMCRASH, 2}, {OP_ARM, 6}, {OP_IOPEN, 5}, {OP_INEXT, 10}, {OP_GET, 3}});
        p.index = 92;
        p.vdata = 8;
        p.rlc = 6;
        p.crashes = 40;
        p.faults = 35;
        p.idxReadOnly = 1;
    } else if (prop == "C05") {
        W(p, {{OP_PUTN, 40}, {OP_FLUSH, 6}, {OP_CHECK, 10}, {OP_SCAN, 5}, {OP_GET, 15}, {OP_CRASH, 1}});
        p.wrapBias = 95;
        p.crashes = 15;
        p.longRun = 1;
        p.rlc = 20;
    } else if (prop == "C06") {
        W(p, {{OP_CRASH, 10}, {OP_ARMCRASH, 10}, {OP_FLUSH, 6}, {OP_SCAN, 1}, {OP_GET, 2}, {OP_IOPEN, 0}, {OP_INEXT, 0}, {OP_ICLOSE, 0}});
        p.crashes = 100;
        p.rlc = 5;
        p.vdata = 10;
        p.driver = 5;
        p.wrapBias = 60;
    } else if (prop == "C07") {
        W(p, {{OP_CRASH, 10}, {OP_ARMCRASH, 10}, {OP_FLUSH, 4}, {OP_SCAN, 1}, {OP_GET, 2}, {OP_PUT, 25}, {OP_PUTN, 18}, {OP_IOPEN, 0}, {OP_INEXT, 0}, {OP_ICLOSE, 0}});
        p.rlc = 100;
        p.crashes = 100;
        p.vdata = 30;
        p.driver = 5;
    } else if (prop == "C08") {
        W(p, {{OP_GETV, 25}, {OP_SOPEN, 10}, {OP_SREAD, 25}, {OP_SCLOSE, 2}, {OP_FLUSHV, 3}, {OP_SCAN, 8}, {OP_INEXT, 8}, {OP_IOPEN, 3}});
        p.vdata = 96;
        p.index = 12;
    } else if (prop == "C09") {
        W(p, {{OP_CRASH, 10}, {OP_ARMCRASH, 9}, {OP_GETV, 6}, {OP_FLUSHV, 3}, {OP_SCAN, 2}, {OP_REOPEN, 6}, {OP_IOPEN, 0}, {OP_INEXT, 0}, {OP_ICLOSE, 0}});
        p.vdata = 100;
        p.crashes = 80;
        p.rlc = 15;
    } else if (prop == "C10") {
        p.big = 0;
        W(p, {{OP_ARM, 22}, {OP_DISARM, 2}, {OP_GETV, 4}, {OP_FLUSHV, 1}, {OP_CRASH, 1}, {OP_FLUSH, 8}, {OP_PUT, 15}, {OP_GET, 12}, {OP_SCAN, 6}});
        p.faults = 100;
        p.crashes = 20;
        p.driver = 5;
    } else if (prop == "C11") {
        W(p, {{OP_ARM, 10}, {OP_GETV, 3}, {OP_CRASH, 1}, {OP_GET, 20}});
        p.faults = 50;
        p.crashes = 20;
        p.longRun = 2;
    } else if (prop == "C12") {
        W(p, {{OP_PUTN, 30}, {OP_FLUSH, 10}, {OP_REOPEN, 6}, {OP_CRASH, 6}, {OP_ARMCRASH, 4}, {OP_FLUSHV, 3}, {OP_GET, 3}, {OP_SCAN, 1}});
        p.crashes = 50;
        p.wrapBias = 85;
        p.index = 35;
        p.rlc = 20;
    } else if (prop == "C13") {
        p.big = 0;
        W(p, {{OP_QUERY, 40}, {OP_GET, 3}, {OP_SCAN, 2}, {OP_CRASH, 1}});
        p.crashes = 15;
        p.multi = 40;
        p.vdata = 10;
        p.faults = 15;
        p.allocOnly = 1;
    } else if (prop == "C14") {
        W(p, {{OP_ARM, 4}, {OP_CRASH, 2}, {OP_GETV, 5}, {OP_QUERY, 5}, {OP_SOPEN, 2}, {OP_SREAD, 4}, {OP_IOPEN, 4}, {OP_INEXT, 10}, {OP_REOPEN, 5}, {OP_RESET, 2}});
        p.multi = 100;
        p.crashes = 25;
        p.faults = 30;
    } else if (prop == "C15") {
        W(p, {{OP_ARM, 8}, {OP_GETV, 6}, {OP_FLUSHV, 1}, {OP_CRASH, 3}, {OP_ARMCRASH, 2}, {OP_QUERY, 8}, {OP_SOPEN, 2}, {OP_SREAD, 4}, {OP_IOPEN, 3}, {OP_INEXT, 5}, {OP_DOPEN, 0}, {OP_STATS, 1}});
        p.faults = 50;
        p.crashes = 35;
        p.multi = 15;
        p.driver = 8;
        p.index = 30;
        p.longRun = 1;
        p.junkPairs = 30;
    } else if (prop == "C16") {
        W(p, {{OP_GETV, 5}, {OP_FLUSHV, 1}, {OP_CRASH, 3}, {OP_ARM, 5}, {OP_QUERY, 6}, {OP_REOPEN, 8}, {OP_IOPEN, 2}, {OP_INEXT, 4}});
        p.crashes = 40;
        p.faults = 30;
        p.dist = 50;
        p.cross = 50;
        p.index = 30;
        p.driver = 4;
        p.lockstep = 60;
    } else if (prop == "C17") {
        p.big = 0;
        W(p, {{OP_CRASH, 2}, {OP_ARM, 4}, {OP_GETV, 3}, {OP_DOPEN, 10}, {OP_DWRITE, 40}, {OP_DREAD, 40}, {OP_DERASE, 8}, {OP_DFLUSH, 12}, {OP_DCLOSE, 5}, {OP_DCRASH, 4}, {OP_DTEAR, 4}});
        p.driver = 100;
        p.drvOps = 70;
        p.faults = 50;
        p.crashes = 50;
    } else if (prop == "C21") {
        p.big = 0;
        W(p, {{OP_CRASH, 4}, {OP_ARM, 4}, {OP_GETV, 3}, {OP_DOPEN, 10}, {OP_DWRITE, 45}, {OP_DREAD, 35}, {OP_DERASE, 3}, {OP_DFLUSH, 12}, {OP_DCLOSE, 5}, {OP_DCRASH, 4}, {OP_DTEAR, 4}});
        p.sd = 1;
        p.driver = 100;
        p.drvOps = 65;
        p.faults = 50;
        p.crashes = 50;
    } else if (prop == "C22") {
        W(p, {{OP_CRASH, 3}, {OP_ARM, 3}, {OP_FLUSH, 8}, {OP_FLUSHV, 2}, {OP_PUT, 25}, {OP_SCAN, 1}, {OP_GET, 3}, {OP_CHECK, 1}});
        p.crashes = 30;
        p.faults = 20;
        p.index = 45;
        p.rlc = 15;
        p.maxmin = 45;
    } else if (prop == "C20") {
        W(p, {{OP_REOPEN, 12}, {OP_CRASH, 6}, {OP_ARMCRASH, 2}, {OP_ARM, 1}, {OP_FLUSH, 6}, {OP_GETV, 4}, {OP_FLUSHV, 1}});
        p.crashes = 40;
        p.faults = 10;
        p.index = 40;
        p.rlc = 20;
    } else if (prop == "C24") {
        W(p, {{OP_STATS, 8}, {OP_SCAN, 4}, {OP_GET, 12}, {OP_GETV, 5}, {OP_PUTN, 30}, {OP_FLUSH, 5}, {OP_FLUSHV, 1}, {OP_CRASH, 1}, {OP_ARM, 3}, {OP_REOPEN, 3}, {OP_IOPEN, 3}, {OP_INEXT, 4}});
        p.crashes = 15;
        p.faults = 25;
        p.index = 40;
        p.rlc = 15;
        p.multi = 15;
    } else if (prop == "C25") {
        W(p, {{OP_SCAN, 6}, {OP_GET, 12}, {OP_GETV, 6}, {OP_PUTN, 30}, {OP_FLUSH, 5}, {OP_FLUSHV, 1}, {OP_CRASH, 2}, {OP_ARM, 5}, {OP_REOPEN, 5}, {OP_IOPEN, 6}, {OP_INEXT, 8}, {OP_SOPEN, 3}, {OP_SREAD, 4}, {OP_QUERY, 3}, {OP_STATS, 1}});
        p.crashes = 20;
        p.faults = 40;
        p.index = 40;
        p.rlc = 12;
        p.multi = 10;
        p.longRun = 1;
        p.dist = 12;
    } else if (prop == "C23") {
        W(p, {{OP_SCAN, 20}, {OP_GET, 25}, {OP_PUTN, 35}, {OP_FLUSH, 3}, {OP_CRASH, 1}, {OP_IOPEN, 0}, {OP_INEXT, 0}, {OP_ICLOSE, 0}});
        p.crashes = 10;
        p.index = 50;
        p.rlc = 8;
        p.multi = 0;
        p.vdata = 12;
    } else if (prop == "mix") {
        W(p, {{OP_ARM, 3}, {OP_GETV, 6}, {OP_FLUSHV, 1}, {OP_CRASH, 3}, {OP_ARMCRASH, 2}, {OP_QUERY, 3}, {OP_SOPEN, 2}, {OP_SREAD, 4}});
        p.faults = 20;
        p.crashes = 40;
    } else
        return false;
    return true;
}

static int wpick(Rng &r, std::initializer_list<std::pair<int, int>> l) {
    int t = 0;
    for (auto &x : l) t += x.second;
    int k = (int)r.below((u64)t);
    for (auto &x : l) {
        if (k < x.second) return x.first;
        k -= x.second;
    }
    return l.begin()->first;
}

// The test pattern 0x01 of erased pages, read as a page id, must not be valid at a place where opening
// looks for the first page of a file.
static bool erasedLooksValid(const DbCfg &c) {
    for (int n : {c.nData, c.nVar, c.nIdx})
        if (0x01010101 % (n * c.e) % c.e == 0) return true;
    return false;
}
static DbCfg genDb(Rng &r, const Profile &p, bool isLong, bool crashRun) {
    DbCfg c;
    c.variant = r.chance(p.dist);
    bool rlc = r.chance(p.rlc), vd = r.chance(p.vdata), idx = r.chance(p.index);
    c.keySize = wpick(r, {{4, 45}, {8, 35}, {2, 6}, {1, 2}, {3, 4}, {5, 3}, {6, 3}, {7, 2}});
    if (isLong) c.keySize = r.chance(50) ? 4 : 8;
    c.dataSize = wpick(r, {{4, 30}, {1, 5}, {2, 5}, {3, 3}, {8, 15}, {12, 12}, {16, 8}, {23, 5}, {40, 5}, {90, 1}, {127, 1}, {128, 1}, {200, 1}, {260, 1}});
    if ((idx || p.queries || p.w[OP_QUERY] > 20 || p.idxReadOnly) && c.dataSize < 4) c.dataSize = 4;
    if (p.w[OP_QUERY] > 20 && r.chance(8)) c.dataSize = r.pick<int>({250, 252, 256, 300, 520, 1000, 2000});
    if (rlc) c.params |= SIM_P_RLC;
    if (vd) c.params |= SIM_P_VDATA;
    if (idx) {
        c.params |= SIM_P_INDEX;
        if (r.chance(92)) c.params |= SIM_P_BMAP;
    } else if (c.dataSize >= 4 && r.chance(6))
        c.params |= SIM_P_BMAP;
    if (r.chance(p.maxmin)) c.params |= SIM_P_MAXMIN;
    if (r.chance(30)) c.params |= SIM_P_BSEARCH;
    if (r.chance(20)) c.params |= SIM_P_NOCLEAN;
    if (c.params & (SIM_P_INDEX | SIM_P_BMAP)) {
        c.bmKind = wpick(r, {{8, 25}, {16, 25}, {64, 25}, {1, 25}});
        c.bmSize = c.bmKind == 8 ? 1 : c.bmKind == 16 ? 2 : c.bmKind == 64 ? 8 : r.pick<int>({1, 2, 3, 5, 8});
    }
    int header = 6 + c.bmSize;
    if (c.params & SIM_P_MAXMIN) header = std::max(header, 14) + 2 * c.keySize + 2 * c.dataSize;
    int rs = c.keySize + c.dataSize + (vd ? 4 : 0);
    int rpp = wpick(r, {{1, 4}, {2, 12}, {3, 18}, {4, 12}, {5, 12}, {7, 10}, {10, 10}, {31, 8}, {63, 3}, {127, 2}, {128, 2}, {200, 2}, {300, 1}});
    rpp = std::min(rpp, (60000 - header) / rs);
    if (isLong) rpp = r.pick<int>({1, 2, 3});
    c.e = wpick(r, {{1, 10}, {2, 40}, {3, 15}, {4, 25}, {8, 6}, {5, 4}});
    c.nData = wpick(r, {{2, 10}, {3, 18}, {4, 25}, {5, 15}, {6, 10}, {8, 10}, {12, 5}, {20, 4}, {40, 3}});
    if (rlc || idx) c.nData = std::max(c.nData, 4);
    if (rlc && c.nData < 5 && r.chance(60)) c.nData = 5 + (int)r.below(5);
    c.nIdx = wpick(r, {{2, 50}, {3, 25}, {4, 15}, {8, 10}});
    c.nVar = wpick(r, {{2, 18}, {3, 22}, {4, 22}, {6, 15}, {10, 13}, {30, 10}});
    c.pageSize = header + rpp * rs + (r.chance(40) ? 0 : (int)r.below((u64)rs));
    int minPage = 16;
    if (vd) minPage = std::max(minPage, c.keySize + 4 + 6);
    if (idx) minPage = std::max(minPage, 16 + c.bmSize * (1 + (int)r.below(6)));
    if (c.pageSize < minPage) c.pageSize = minPage + (int)r.below(12);
    if (r.chance(4)) c.pageSize = std::max(c.pageSize, 512);
    c.spline = wpick(r, {{4, 25}, {5, 10}, {8, 20}, {30, 25}, {300, 20}});
    c.maxErr = wpick(r, {{1, 40}, {2, 15}, {4, 15}, {8, 15}, {16, 15}});
    c.libCmp = (c.keySize == 4 || c.keySize == 8) && r.chance(60);
    c.cache = crashRun ? wpick(r, {{0, 30}, {1, 18}, {2, 17}, {3, 20}, {4, 15}}) : wpick(r, {{0, 70}, {1, 8}, {2, 7}, {3, 8}, {4, 7}});
    c.fixed = r.chance(35);
    c.blank = r.pick<int>({0xff, 0xff, 0, 1});
    c.erasePat = wpick(r, {{0, 40}, {1, 20}, {2, 15}, {3, 25}});
    if (erasedLooksValid(c)) {
        if (c.blank == 1) c.blank = 0xff;
        if (c.erasePat == 1) c.erasePat = 3;
    }
    c.firstReset = c.fixed ? !r.chance(35) : !r.chance(10);
    u64 lim = c.keySize >= 8 ? ~0ULL : (1ULL << (8 * c.keySize)) - 1;
    if (c.libCmp) lim = c.keySize == 4 ? 0x7fffffff : 0x7fffffffffffffffULL;
    c.keyBase = r.pick<u64>({0, 0, 1, 100, 1000000, r.below(lim / 2 + 1), r.next() >> r.below(60)}) % (lim / 2 + 1);
    c.gapKind = (int)r.below(8);
    c.gapParam = r.pick<u64>({1, 1, 2, 3, 10, 100, 1000, 100000});
    if (c.keySize == 1) c.gapKind = 0, c.gapParam = 1, c.keyBase = r.below(3);
    else if (c.keySize == 2) {
        c.gapKind = r.pick<int>({0, 1, 7, 4});
        c.gapParam = r.pick<u64>({1, 2});
        c.keyBase %= 300;
    } else if (c.keySize <= 4 && c.gapKind == 6)
        c.gapKind = 1;
    if (c.keySize <= 4 && c.gapParam > 1000) c.gapParam = 1000;
    if (isLong) c.gapKind = r.pick<int>({0, 1, 4}), c.gapParam = r.pick<u64>({1, 3, 10});
    c.valLo = r.pick<int>({0, 0, -64, -1000, 300, 0});
    c.valHi = c.valLo + r.pick<int>({100, 10, 300, 2000, 700, 20000});
    if (c.valHi > 30000) c.valHi = 30000;
    if ((c.bmKind == 0 || c.bmKind == 1) && c.dataSize >= 4 && r.chance(15)) {  // the bitmap functions of the library read 16 bits
        c.valLo = r.pick<int>({-2147483600, -2000000000, 0, -5});
        c.valHi = r.pick<int>({2147483500, 2147483500, 1500000000});
    }
    if ((c.bmKind == 16 || c.bmKind == 64) && r.chance(8)) {  // those of 16 and 64 bits read 32
        c.valLo = r.pick<int>({-100000, -40000, 0});
        c.valHi = r.pick<int>({33000, 70000, 100000});
    }
    c.data64 = c.bmKind == 0 && c.dataSize >= 8 && r.chance(25);
    c.extraBuf = (int)r.below(3);
    return c;
}

// Files with more pages than 16 bits count.
static void bigDb(Rng &r, DbCfg &c) {
    int header = 6 + c.bmSize;
    c.keySize = r.chance(50) ? 4 : 8;
    if (c.dataSize > 16) c.dataSize = 16;
    c.libCmp = 0;
    if (c.params & SIM_P_MAXMIN) header = std::max(header, 14) + 2 * c.keySize + 2 * c.dataSize;
    int rs = c.keySize + c.dataSize + ((c.params & SIM_P_VDATA) ? 4 : 0);
    c.pageSize = header + rs * (1 + (int)r.below(2)) + (int)r.below(4);
    int least = 16;
    if (c.params & SIM_P_VDATA) least = c.keySize + 4 + 6;
    if (c.params & SIM_P_INDEX) least = std::max(least, 16 + c.bmSize);
    c.pageSize = std::max(c.pageSize, least);
    c.e = r.pick<int>({64, 100, 128, 256, 512, 1000, 4096});
    c.nData = 65536 / c.e + 4 + (int)r.below(4000 / (u64)c.e + 3);
    c.nVar = r.chance(50) ? c.nData + (int)r.below(3) : 4;
    c.nIdx = r.chance(50) ? c.nData + (int)r.below(3) : 4;
    c.spline = r.pick<int>({8, 300, 3000});
    c.gapKind = r.pick<int>({0, 1, 4});
    c.gapParam = r.pick<u64>({1, 3, 10});
    c.keyBase %= 1000000;
    c.data64 = c.data64 && c.dataSize >= 8;
    c.cache = 0;
    c.blank = 0xff;
    c.erasePat = c.erasePat == 1 ? 3 : c.erasePat;
}
// Pages so large that their size and offsets in them need 16 bits.
static void wideDb(Rng &r, DbCfg &c) {
    c.keySize = r.chance(50) ? 4 : 8;
    c.libCmp = 0;
    c.pageSize = r.pick<int>({65535, 65528, 32768, 32767, 32769, 32768 + (int)r.below(32768)});
    if (r.chance(30)) c.dataSize = r.pick<int>({255, 256, 1000, 4000, 8000, 200 + (int)r.below(8000)});
    else if (c.dataSize > 40) c.dataSize = 40;
    c.data64 = c.data64 && c.dataSize >= 8;
    c.e = 1 + (int)r.below(3);
    bool rlc = c.params & SIM_P_RLC, idx = c.params & SIM_P_INDEX;
    c.nData = (rlc || idx ? 4 : 2) + (int)r.below(3);
    if (rlc) c.e = 1 + (int)r.below(2), c.nData = 5;
    c.nVar = 2 + (int)r.below(3);
    c.nIdx = 2 + (int)r.below(3);
    c.gapKind = r.pick<int>({0, 1, 4});
    c.gapParam = r.pick<u64>({1, 3, 10});
    c.keyBase %= 1000000;
    c.cache = 0;
    c.blank = 0xff;
    c.erasePat = c.erasePat == 1 ? 3 : c.erasePat;
}
// More variable data than 32 bits count, in pages whose size is not a power of two.
static void hugeDb(Rng &r, DbCfg &c) {
    bigDb(r, c);
    c.params = (c.params & ~(SIM_P_RLC | SIM_P_INDEX | SIM_P_BMAP | SIM_P_MAXMIN)) | SIM_P_VDATA;
    c.bmKind = c.bmSize = 0;
    c.pageSize = 20000 + (int)r.below(10000);
    c.e = 2;
    c.nData = 20;
    c.nVar = 50;
}
// More records than 16 bits count.
static void bulkDb(Rng &r, DbCfg &c) {
    c.keySize = r.chance(50) ? 4 : 8;
    if (c.dataSize > 16) c.dataSize = 16;
    c.libCmp = 0;
    c.params &= ~(SIM_P_RLC | SIM_P_INDEX | SIM_P_VDATA | SIM_P_MAXMIN);
    c.pageSize = 8000 + (int)r.below(4000);
    c.e = 1 + (int)r.below(8);
    c.nData = 2 + 90000 / ((c.pageSize - 20) / (c.keySize + c.dataSize)) / c.e;
    c.gapKind = r.pick<int>({0, 1, 4});
    c.gapParam = r.pick<u64>({1, 3, 10});
    c.keyBase %= 1000000;
    c.data64 = c.data64 && c.dataSize >= 8;
    c.cache = 0;
    c.blank = 0xff;
    c.erasePat = c.erasePat == 1 ? 3 : c.erasePat;
}
static Script generate1(u64 seed, const Profile &p) {
    Script s;
    Rng r(mix2(seed, hashBytes(p.name.data(), p.name.size())));
    s.cfg.seed = seed;
    s.cfg.profile = p.name;
    bool isLong = p.longRun && r.below(1000) < (u64)p.longRun * 4;
    Rng rb(mix2(mix2(seed, 4242), hashBytes(p.name.data(), p.name.size())));
    bool isBulk = p.name == "C13" && seed % 600 == 91;
    bool isHuge = p.name == "C08" && seed % HUGE_EVERY == 77;
    bool isBig = p.big && !isLong && !isHuge && rb.below(2500) < (u64)p.big;
    bool faultRun = r.chance(p.faults) && !isLong && !isBig && !isHuge, crashRun = r.chance(p.crashes) && !isLong && !isHuge;
    bool drvOnly = r.chance(p.drvOps);
    if (drvOnly) isBig = false;
    bool isWide = isBig && rb.chance(35);
    int nOps = (int)r.pick<i64>({8, 15, 25, 40, 60, 90});
    Rng rf(r.next());
    auto armOp = [&](Rng &q, int db, bool stdio) {
        Op o;
        o.code = OP_ARM;
        o.db = db;
        if (p.allocOnly) o.a = FK_ALLOC;
        else if (p.idxReadOnly) o.a = FK_READ;
        else if (stdio) o.a = wpick(q, {{FK_READ, 20}, {FK_WRITE, 25}, {FK_FLUSH, 15}, {FK_OPEN, 8}, {FK_ALLOC, 5}, {FK_SEEK, 25}, {FK_CLOSE, 8}});
        else o.a = wpick(q, {{FK_READ, 28}, {FK_WRITE, 28}, {FK_ERASE, 14}, {FK_FLUSH, 14}, {FK_OPEN, 4}, {FK_ALLOC, 10}, {FK_CLOSE, 1}});
        o.b = q.pick<i64>({0, 0, 0, 1, 1, 2, 3, 5, 9, 20});
        o.c = q.pick<i64>({1, 1, 1, 1, 2, 3, 8, 30});
        o.d = (i64)q.below(3) | (p.idxReadOnly ? 2 << 2 : (i64)(q.chance(50) ? 7 : 1 + q.below(7)) << 2);
        return o;
    };
    if (drvOnly) {
        s.cfg.db.clear();
        if (p.sd) s.cfg.drv = (int)r.pick<i64>({2, 2, 2, 3, 4, 5, 5});
        for (int i = 0; i < 3; i++)
            if (r.chance(80)) s.ops.push_back(Op{OP_DOPEN, i, 0, 0, 0, 0});
        int codes[] = {OP_DOPEN, OP_DWRITE, OP_DREAD, OP_DERASE, OP_DFLUSH, OP_DCLOSE, OP_DCRASH, OP_DTEAR};
        int tot = 0;
        for (int c : codes) tot += p.w[c];
        nOps = 10 + (int)r.below(80);
        int shape = (int)r.below(3);
        for (int i = 0; i < nOps; i++) {
            if (faultRun && r.chance(10)) s.ops.push_back(armOp(r, -1, true));
            if (crashRun && r.chance(4)) s.ops.push_back(Op{OP_ARMCRASH, 0, (i64)r.below(4), (i64)r.below(s.cfg.drv ? 3 : 2), 256, 0});
            int k = (int)r.below((u64)tot), c = 0;
            for (int x : codes) {
                if (k < p.w[x]) {
                    c = x;
                    break;
                }
                k -= p.w[x];
            }
            if (c == OP_DCRASH && !crashRun) continue;
            Op o;
            o.code = c;
            o.db = (int)r.below(3);
            o.a = c == OP_DOPEN ? r.chance(85) : shape == 0 ? 0 : (i64)r.below(6);
            o.b = (i64)r.below(1u << 20);
            o.c = (i64)r.below(64);
            if (c == OP_DTEAR && faultRun && r.chance(60)) s.ops.push_back(Op{OP_ARM, 0, FK_ALLOC, (i64)r.below(3), 1, 7 << 2});
            s.ops.push_back(o);
        }
        return s;
    }
    int nDb = r.chance(p.multi) && !isBig && !isHuge ? 2 + (int)r.below(2) : 1;
    bool driver = nDb == 1 && r.chance(p.driver);
    if (isBig || isHuge) driver = false, nOps = 8 + (int)rb.below(12);
    u64 twinSeed = r.next();
    bool twins = nDb > 1 && r.chance(35);  // same configuration, different data
    for (int i = 0; i < nDb; i++) {
        Rng q(twins ? twinSeed : r.next());
        DbCfg c = genDb(q, p, isLong, crashRun);
        if (driver) {
            c.driver = 1 + (int)r.below(2);
            c.fixed = 0;
            if (p.sd) {
                c.driver = r.chance(40) ? 5 : 3 + (int)r.chance(40);
                if (c.driver == 5) {  // one database page per chip page
                    while (c.pageSize > 528) c = genDb(q, p, isLong, crashRun), c.fixed = 0, c.driver = 5;
                } else {  // pages that do not cross a sector
                    while (c.pageSize > 512) c = genDb(q, p, isLong, crashRun), c.fixed = 0, c.driver = 3 + (int)r.chance(40);
                    c.pageSize = c.pageSize <= 64 ? 64 : c.pageSize <= 128 ? 128 : c.pageSize <= 256 ? 256 : 512;
                }
                c.erasePat = 0;
            }
            if (crashRun && c.driver != 5) {  // one stream: the order in which two streams reach the disk is the platform's
                c.params &= ~(SIM_P_VDATA | SIM_P_INDEX);
                if (p.rlc == 100 || r.chance(30)) {
                    c.params |= SIM_P_RLC;
                    c.nData = std::max(c.nData, 5);
                }
            }
            if (c.driver == 2 && erasedLooksValid(c)) c.driver = 1;
            // whole sectors: part of a sector that could not be written stays in the cache and is written later,
            // but with record-level consistency a write reported as failed must not take effect
            if ((c.driver == 3 || c.driver == 4) && (c.params & SIM_P_RLC)) c.pageSize = 512;
        }
        if (isWide) wideDb(rb, c);
        else if (isBig) bigDb(rb, c);
        if (isHuge) hugeDb(rb, c);
        if (isBulk) bulkDb(rb, c);
        s.cfg.db.push_back(c);
    }
    if (s.cfg.db.size() > 1 && p.w[OP_QUERY] > 20)
        for (auto &c : s.cfg.db) {  // joinable
            if (r.chance(80)) {
                c.variant = s.cfg.db[0].variant;
                if (c.keySize == s.cfg.db[0].keySize && r.chance(80)) c.keyBase = s.cfg.db[0].keyBase;
            }
        }
    // operation weights of this run
    int w[OP_COUNT];
    int tot = 0;
    for (int i = 0; i < OP_DOPEN; i++) {
        w[i] = p.w[i];
        if (w[i] && i != OP_PUTN && i != OP_PUT && r.chance(20)) w[i] = 0;
        if (w[i] && r.chance(15)) w[i] *= 4;
        if (!crashRun && (i == OP_CRASH || i == OP_ARMCRASH)) w[i] = 0;
        if (!faultRun && i == OP_ARM) w[i] = 0;
        if (driver && i == OP_QUERY) w[i] = 0;
        tot += w[i];
    }
    // total records aimed at per database
    std::vector<i64> per(s.cfg.db.size());
    double expPut = std::max(1.0, (double)nOps * w[OP_PUTN] / std::max(1, tot));
    bool wrap = r.chance(p.wrapBias);
    for (size_t i = 0; i < s.cfg.db.size(); i++) {
        const DbCfg &c = s.cfg.db[i];
        int hd = 6 + c.bmSize;
        if (c.params & SIM_P_MAXMIN) hd = std::max(hd, 14) + 2 * c.keySize + 2 * c.dataSize;
        int rpp = std::max(1, (c.pageSize - hd) / (c.keySize + c.dataSize + ((c.params & SIM_P_VDATA) ? 4 : 0)));
        double cap = (double)rpp * c.nData * c.e;
        double target = cap * (wrap ? (double)r.pick<i64>({110, 150, 250, 400, 700}) : (double)r.pick<i64>({10, 30, 60, 90})) / 100.0;
        if (isLong) target = 65536.0 * rpp * (1.02 + 0.3 * (double)r.below(5));
        if (isBig) target = 50;
        if (target > 5000 && !isLong && !isBig) target = 5000;
        if (isHuge) target = 1;
        per[i] = std::max<i64>(1, (i64)(2 * target / expPut / (double)s.cfg.db.size() * 1.0));
        if (s.cfg.db.size() > 1) per[i] = std::max<i64>(1, per[i] * (i64)s.cfg.db.size() / 1);
    }
    for (int i = 0; i < nOps; i++) {
        int k = (int)r.below((u64)std::max(1, tot)), c = OP_PUTN;
        for (int x = 0; x < OP_DOPEN; x++) {
            if (k < w[x]) {
                c = x;
                break;
            }
            k -= w[x];
        }
        Op o;
        o.code = c;
        o.db = (int)r.below(s.cfg.db.size());
        switch (c) {
            case OP_PUT:
                o.a = (i64)(r.next() >> 8);
                o.b = (i64)(r.next() >> 2);
                o.c = r.pick<i64>({-2, -1, 0, 1, 3, 8, 15, 40, 100, (i64)r.below(300), (i64)s.cfg.db[o.db].pageSize - s.cfg.db[o.db].keySize - 4, (i64)s.cfg.db[o.db].pageSize});
                break;
            case OP_PUTN:
                o.a = 1 + (i64)r.below((u64)per[o.db]);
                o.b = (i64)(r.next() >> 2);
                o.c = r.chance(85) ? 0 : (i64)r.below(40);
                o.d = r.chance(60) ? 0 : r.pick<i64>({1, 3, 10, 50});
                break;
            case OP_PUTBAD:
                o.a = (i64)r.below(4);
                o.b = (i64)(r.next() >> 8);
                o.c = (i64)(r.next() >> 8);
                o.d = (i64)r.below(64) - 8;
                break;
            case OP_GET:
            case OP_GETV:
            case OP_SOPEN:
                o.a = (i64)r.below(10);
                o.b = (i64)(r.next() >> 8);
                o.c = (i64)r.below(1000);
                break;
            case OP_SREAD:
                o.a = (i64)r.below(3);
                o.b = r.pick<i64>({1, 2, 3, 5, 8, 16, 64, (i64)s.cfg.db[o.db].pageSize, (i64)s.cfg.db[o.db].pageSize - s.cfg.db[o.db].keySize - 4, 1000});
                break;
            case OP_SCLOSE:
            case OP_ICLOSE: o.a = (i64)r.below(4); break;
            case OP_IOPEN:
                o.a = (i64)r.below(4);
                o.b = (i64)r.below(16);
                if (p.name != "C04" && r.chance(50)) o.b &= 3;
                o.c = (i64)(r.next() >> 8);
                o.d = (i64)(r.next() >> 8);
                break;
            case OP_INEXT:
                o.a = (i64)r.below(4);
                o.b = r.pick<i64>({1, 1, 2, 3, 7, 20});
                o.c = (i64)r.below(2);
                o.d = (i64)r.below(1000);
                break;
            case OP_SCAN:
                o.a = (i64)r.below(16);
                if (p.name == "C04") o.a |= 4 << r.below(2);
                else if (r.chance(50)) o.a &= 3;
                o.b = (i64)(r.next() >> 8);
                o.c = (i64)(r.next() >> 8);
                o.d = (i64)r.below(2);
                break;
            case OP_REOPEN: o.a = (i64)r.below(2) | (r.chance(p.cross) ? 2 : 0); break;
            case OP_CRASH:
                o.a = r.pick<i64>({0, 0, 256, 256, (i64)r.below(257), (i64)r.below(257)});
                o.b = r.chance(25) ? 1 + (i64)r.below(10) : 0;
                o.c = (i64)r.below(3);
                break;
            case OP_ARMCRASH:
                o.a = r.pick<i64>({0, 1, 2, 3, 5, (i64)r.below(12), (i64)r.below(60), (i64)r.below(300)});
                o.b = (i64)r.below(3);
                o.c = r.pick<i64>({0, 0, 256, 256, (i64)r.below(257), (i64)r.below(257)});
                o.d = r.chance(25) ? 1 + (i64)r.below(10) : 0;
                break;
            case OP_ARM: o = armOp(r, o.db, driver); break;
            case OP_STATS: o.a = (i64)r.chance(60); break;
            case OP_CHECK:
                o.a = (i64)(r.next() >> 8);
                o.b = r.chance(20);
                break;
            case OP_QUERY:
                o.a = (i64)(r.next() >> 8);
                o.c = p.faults && faultRun && r.chance(40) ? 1 + (i64)r.below(25) : 0;
                o.d = 1 + (i64)(r.below(10) == 0);
                break;
            default: break;
        }
        s.ops.push_back(o);
    }
    // An insert of a large key that fails in the middle of its variable data, then smaller keys.
    Rng rm(mix2(mix2(seed, 777), hashBytes(p.name.data(), p.name.size())));
    if (faultRun && p.w[OP_PUTN] && !p.allocOnly && !p.idxReadOnly && rm.chance(25)) {
        for (int k = 1 + (int)rm.below(3); k--;) {
            int db = (int)rm.below(s.cfg.db.size());
            const DbCfg &c = s.cfg.db[db];
            if (!(c.params & SIM_P_VDATA)) continue;
            std::vector<Op> m;
            i64 pay = c.pageSize - c.keySize - 4;
            m.push_back(Op{OP_ARM, db, FK_WRITE, (i64)rm.below(2), 1, rm.chance(70) ? 4 << 2 : 7 << 2});
            m.push_back(Op{OP_PUT, db, (i64)((rm.next() >> 8) | PUT_FAR), (i64)(rm.next() >> 2), pay - 3 + (i64)rm.below((u64)pay * 2), 0});
            if (rm.chance(75)) m.push_back(Op{rm.pick<int>({OP_FLUSH, OP_FLUSHV, OP_FLUSHV, OP_GETV}), db, 1, (i64)(rm.next() >> 8), (i64)rm.below(1000), 0});
            m.push_back(Op{OP_PUTN, db, 1 + (i64)rm.below((u64)c.nVar * c.e * 3), (i64)(rm.next() >> 2), rm.pick<i64>({0, 3, pay, pay / 2}), 0});
            m.push_back(Op{OP_CHECK, db, (i64)(rm.next() >> 8), 0, 0, 0});
            s.ops.insert(s.ops.begin() + (long)rm.below(s.ops.size() + 1), m.begin(), m.end());
        }
    }
    if (isBig) {
        // First more than 65536 pages, sometimes only just, sometimes until the file wraps, then the operations, with
        // more inserts among them.
        std::vector<Op> ops;
        for (auto &o : s.ops)
            if (o.code != OP_RESET) ops.push_back(o);
        const DbCfg &c = s.cfg.db[0];
        int hd = 6 + c.bmSize;
        if (c.params & SIM_P_MAXMIN) hd = std::max(hd, 14) + 2 * c.keySize + 2 * c.dataSize;
        i64 rpp = std::max(1, (c.pageSize - hd) / (c.keySize + c.dataSize + ((c.params & SIM_P_VDATA) ? 4 : 0)));
        i64 cap = (i64)c.nData * c.e, upTo = rb.chance(50) ? cap : cap * 5 / 4;
        i64 first = isWide ? (i64)rb.below((u64)(rpp * upTo)) : rpp * (65536 + (i64)rb.below((u64)(upTo - 65536)));
        if (isWide && (c.params & SIM_P_RLC)) first = std::min<i64>(first, 10000);
        size_t at = rb.below(ops.size() + 1);
        ops.insert(ops.begin() + (long)at, Op{OP_PUTN, 0, (i64)rb.below((u64)(isWide ? std::min<i64>(8000, rpp * cap) : rpp * cap / 2)), (i64)(rb.next() >> 2), 0, rb.pick<i64>({0, 1, 50})});
        ops.insert(ops.begin(), Op{OP_PUTN, 0, first, (i64)(rb.next() >> 2), 0, rb.pick<i64>({0, 1, 50})});
        ops.push_back(Op{OP_CHECK, 0, 1, 0, 0, 0});
        s.ops = ops;
    }
    if (isBulk) {
        s.ops.clear();
        s.ops.push_back(Op{OP_PUTN, 0, 65000 + (i64)rb.below(15000), (i64)(rb.next() >> 2), 0, 0});
        for (int i = 0; i < 8; i++) s.ops.push_back(Op{OP_QUERY, (int)rb.below(s.cfg.db.size()), (i64)(rb.next() >> 8), 0, 0, 0});
    }
    if (isHuge) {
        for (auto &o : s.ops)
            if (o.code == OP_PUTN) o.c = 3;
        i64 len = (i64)s.cfg.db[0].pageSize * 40;
        for (u64 left = 4400000000ULL / (u64)len + 1; left;) {
            // The record in which a 32-bit count of the bytes overflows is only there until the file wraps, so
            // from shortly before that point on every record is read back.
            u64 close = 250000000ULL / (u64)len;
            u64 n = left > close ? std::min<u64>(left - close, 1 + rb.below(2000)) : 1;
            s.ops.push_back(Op{OP_PUTN, 0, (i64)n, (i64)(rb.next() >> 2), len, 0});
            s.ops.push_back(Op{OP_GETV, 0, n > 1 ? (i64)rb.below(3) : 1, n > 1 ? (i64)(rb.next() >> 8) : 0, (i64)rb.below(1000), 0});
            left -= n;
        }
        s.ops.push_back(Op{OP_PUTN, 0, 300, (i64)(rb.next() >> 2), 0, 0});
        s.ops.push_back(Op{OP_CHECK, 0, 1, 0, 0, 0});
        s.ops.push_back(Op{OP_FLUSH, 0, 0, 0, 0, 0});
        s.ops.push_back(Op{OP_REOPEN, 0, 0, 0, 0, 0});
        s.ops.push_back(Op{OP_CHECK, 0, 1, 0, 0, 0});
    }
    return s;
}

Script generate(u64 seed, const Profile &p) {
    Script s = generate1(seed, p);
    Rng r(mix2(seed, 31337));
    if (p.lockstep && r.chance(p.lockstep)) {
        // Both builds run the same history. Faults and crash points are counted in storage operations, which
        // equivalent builds need not have in common, so only whole-operation crashes stay.
        s.cfg.mode = 1;
        std::vector<Op> ops;
        for (auto &o : s.ops) {
            if (o.code == OP_ARM || o.code == OP_ARMCRASH) continue;
            Op x = o;
            if (x.code == OP_CRASH) x.a = 256, x.b = 0;
            if (x.code == OP_QUERY) x.c = 0;
            ops.push_back(x);
        }
        s.ops = ops;
        for (auto &d : s.cfg.db) d.cache = 0;
    } else if (p.junkPairs && r.chance(p.junkPairs))
        s.cfg.mode = 2;
    return s;
}

// ---------------------------------------------------------------- text form
#define FIELDS(X)                                                                                                                          \
    X(variant) X(keySize) X(dataSize) X(pageSize) X(e) X(nData) X(nIdx) X(nVar) X(params) X(spline) X(maxErr) X(bmKind) X(bmSize) X(libCmp) X(data64) \
    X(cache) X(fixed) X(blank) X(erasePat) X(driver) X(firstReset) X(keyBase) X(gapKind) X(gapParam) X(valLo) X(valHi) X(extraBuf)
std::string scriptText(const Script &s) {
    std::string t;
    char b[256];
    snprintf(b, sizeof b, "run seed=%llu junk=%llu strict=%d mode=%d drv=%d profile=%s\n", (unsigned long long)s.cfg.seed, (unsigned long long)s.cfg.junk, s.cfg.strict, s.cfg.mode, s.cfg.drv, s.cfg.profile.c_str());
    t += b;
    for (auto &d : s.cfg.db) {
        t += "db";
#define X(f)                                                    \
    snprintf(b, sizeof b, " " #f "=%lld", (long long)d.f); \
    t += b;
        FIELDS(X)
#undef X
        t += "\n";
    }
    for (auto &o : s.ops) {
        snprintf(b, sizeof b, "op %s %d %lld %lld %lld %lld\n", opNames[o.code], o.db, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d);
        t += b;
    }
    return t;
}
bool parseScript(const std::string &text, Script &s) {
    s = Script();
    size_t p = 0;
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) e = text.size();
        std::string l = text.substr(p, e - p);
        p = e + 1;
        if (l.compare(0, 4, "run ") == 0 || l.compare(0, 2, "db") == 0) {
            bool run = l[0] == 'r';
            DbCfg d;
            size_t q = l.find(' ');
            while (q != std::string::npos) {
                size_t eq = l.find('=', q), nx = l.find(' ', q + 1);
                if (eq == std::string::npos) break;
                std::string k = l.substr(q + 1, eq - q - 1), v = l.substr(eq + 1, nx == std::string::npos ? nx : nx - eq - 1);
                long long n = v.size() && v[0] == '-' ? strtoll(v.c_str(), 0, 10) : (long long)strtoull(v.c_str(), 0, 10);
                if (run) {
                    if (k == "seed") s.cfg.seed = (u64)n;
                    if (k == "junk") s.cfg.junk = (u64)n;
                    if (k == "mode") s.cfg.mode = (int)n;
                    if (k == "drv") s.cfg.drv = (int)n;
                    if (k == "strict") s.cfg.strict = (int)n;
                    if (k == "profile") s.cfg.profile = v;
                } else {
#define X(f) \
    if (k == #f) d.f = (decltype(d.f))n;
                    FIELDS(X)
#undef X
                }
                q = nx;
            }
            if (!run) s.cfg.db.push_back(d);
        } else if (l.compare(0, 3, "op ") == 0) {
            Op o;
            char name[32];
            long long a, b, c, d;
            if (sscanf(l.c_str(), "op %31s %d %lld %lld %lld %lld", name, &o.db, &a, &b, &c, &d) != 6) return false;
            o.a = a;
            o.b = b;
            o.c = c;
            o.d = d;
            for (int i = 0; i < OP_COUNT; i++)
                if (!strcmp(name, opNames[i])) o.code = i;
            s.ops.push_back(o);
        }
    }
    return true;
}
