// The shipped desktop file driver over the simulated C stdio layer, called directly through its interface.
#include "exec.hpp"
#define VIOL(tag, ...) sim.fail(tag, __VA_ARGS__)
enum { OWN_DRV = 90 };

void Exec::drvSetup() {
    int kind = sc.cfg.drv;
    bool sd = kind >= 2 && kind <= 4, df = kind == 5;
    drvApi = sd ? &simapi_sd : df ? &simapi_df : (forceVariant >= 0 ? (forceVariant ? &simapi_dist : &simapi_src) : (sc.cfg.seed & 1) ? &simapi_dist : &simapi_src)->drv;
    drvMock = kind ? 0 : sc.cfg.seed >> 1 & 1;
    static const int sizes[] = {16, 32, 64, 100, 512, 512, 1024, 4096, 4100, 8192};
    static const int sdSizes[] = {40, 64, 200, 256, 512, 512, 512, 1024, 2048, 4096};
    static const int dfSizes[] = {64, 256, 264, 512, 512, 528};
    bool q = sim.quiet, in = sim.inCall;
    sim.quiet = true;
    sim.inCall = false;
    sim.curOwner = OWN_DRV;
    if (drv.empty()) {
        drv.resize(3);
        u64 z = mix2(sc.cfg.seed, 400);
        u32 at = df ? (u32)(z % 50 + (z / 64 % 6 ? 0 : 65500)) : 0;
        for (int i = 0; i < 3; i++) {
            u64 x = mix2(sc.cfg.seed, 300 + (u64)i);
            drv[i].size = sd ? sdSizes[x % 10] : df ? dfSizes[x % 6] : sizes[x % 10];
            drv[i].start = at;
            drv[i].np = df ? (u32)(1 + x / 64 % (x / 8 % 3 ? 12 : 60)) : 0;
            at += drv[i].np;
        }
        if (sd) cardSetup(kind - 2);
        if (df) sim.chip.pages = at + (u32)(mix2(sc.cfg.seed, 401) % 3);
    }
    if (drvApi->mount && !drvApi->mount()) VIOL("drv.mount", "the file system of the card cannot be read any more");
    drvIf = drvApi->iface(drvMock);
    for (int i = 0; i < 3; i++) {
        char n[32];
        snprintf(n, sizeof n, "drv%d.bin", i);
        drv[i].f = drvApi->file(n, drv[i].start, drv[i].np);
        drv[i].open = false;
    }
    sim.quiet = q;
    sim.inCall = in;
}
static void pageContent(u64 salt, u64 id, u8 *out, int n) {
    if (id == 1) {
        memset(out, 1, (size_t)n);
        return;
    }
    u64 x = 0;
    for (int i = 0; i < n; i++) {
        if (i % 8 == 0) x = mix2(salt + id, (u64)i);
        out[i] = (u8)(x >> (8 * (i % 8)));
    }
}
void Exec::drvFailed(DrvFile &f) {  // buffered data may be gone after an error
    for (auto &p : f.page)
        if (!p.second.durable) p.second.known = false;
}
void Exec::doDrv(const Op &o) {
    if (stop()) return;
    if (!drvIf) drvSetup();
    sim.st->ops[o.code]++;
    DrvFile &f = drv[(size_t)o.db % 3];
    int fi = (int)((size_t)o.db % 3);
    const DrvApi *A = drvApi;
    int ps = f.size;
    bool sd = sc.cfg.drv >= 2 && sc.cfg.drv <= 4, df = sc.cfg.drv == 5, full = sc.cfg.drv == 4;
    auto dcall = [&](auto fn) -> bool {
        if (stop() || crashed) return false;
        sim.callEvents = 0;
        sim.callBudget = 20000;
        sim.faultFired = 0;
        sim.faultMaskFired = 0;
        sim.curOwner = OWN_DRV;
        sim.inCall = true;
        sim.st->apiCalls++;
        int j = setjmp(sim.jb);
        if (j == 0) {
            fn();
            sim.inCall = false;
            return true;
        }
        sim.inCall = false;
        if (sim.jumpKind == 2) VIOL("hang", "driver call did not finish");
        else {
            crashed = true;
            sim.st->crashInOp++;
        }
        return false;
    };
    // page numbers: mostly small, sometimes beyond 4 GB
    auto page = [&](i64 a, i64 b) -> u32 {
        u64 lim32 = ((1ULL << 32) + (u64)ps - 1) / (u64)ps, x = (u64)b;
        if (df) return a % 6 < 4 ? (u32)(x % f.np) : a % 6 == 4 ? f.np + (u32)(x % 3) : (u32)(0xffffffffULL - x % 70);
        if (sd) return a % 6 < 5 ? (u32)(x % (f.maxEnd / (u64)ps + 1 + (a % 6 == 4 ? 8 : 1))) : (u32)(lim32 + x % 20);
        switch (a % 6) {
            case 0:
            case 1:
            case 2: return (u32)(x % 12);
            case 3: return (u32)(lim32 + x % 6 - 3);
            case 4: return (u32)(lim32 / 2 + x % 6 - 3);
            default: return (u32)std::min<u64>(0xfffffff0ULL, lim32 * (1 + x % 5) + x % 12);
        }
    };
    int rc = -99;
    switch (o.code) {
        case OP_DOPEN: {
            if (f.open) break;
            int mode = (int)(o.a & 1);  // 1: keep content
            // FAT itself does not survive an interrupted truncation: no card errors or power loss while it runs
            sim.card.calm = sd && !mode;
            if (!mode)
                for (auto &p : f.page) p.second.known = false;  // in flight
            bool done = dcall([&] { rc = A->open(drvIf, f.f, mode); });
            sim.card.calm = false;
            if (!done) break;
            log("    drv open(%d,%s) -> %d%s", fi, mode ? "r+" : "w+", rc, sim.faultFired ? " [fault]" : "");
            apiNote(mix2(0xB00 + (u64)(rc & 0xff), (u64)mode));
            if (rc) {
                if (mode && !f.exists && !df) VIOL("drv.open", "opening a file that does not exist in keep mode succeeded");
                if (!mode) {
                    f.page.clear();
                    f.maxEnd = 0;
                }
                f.open = f.exists = true;
            } else if (!sim.faultFired && ((f.exists && (f.sure || !sd)) || (!mode && !full)))
                VIOL("drv.open", "opening failed without a fault");
            break;
        }
        case OP_DCLOSE: {
            if (!f.open) break;
            if (!dcall([&] { rc = A->close(drvIf, f.f); })) break;
            log("    drv close(%d) -> %d%s", fi, rc, sim.faultFired ? " [fault]" : "");
            apiNote(0xB10 + (u64)(rc & 0xff));
            f.open = false;
            if (!rc && !sim.faultFired) VIOL("drv.close", "closing failed without a fault");
            if (!rc && sd) {  // the handle is gone, and with it what it had not written
                for (auto &p : f.page)
                    if (!p.second.durable) p.second.known = false;
            } else if (!rc) drvFailed(f);
            else {
                f.sure = true;
                for (auto &p : f.page) p.second.durable = p.second.known;
            }
            break;
        }
        case OP_DFLUSH: {
            if (!f.open) break;
            if (!dcall([&] { rc = A->flush(drvIf, f.f); })) break;
            log("    drv flush(%d) -> %d%s", fi, rc, sim.faultFired ? " [fault]" : "");
            apiNote(0xB20 + (u64)(rc & 0xff));
            if (!rc && !sim.faultFired) VIOL("drv.flush", "flush failed without a fault");
            if (!rc && sd) {
            } else if (!rc) drvFailed(f);
            else {
                f.sure = true;
                for (auto &p : f.page) p.second.durable = p.second.known;
            }
            break;
        }
        case OP_DWRITE: {
            if (!f.open) break;
            u32 p = page(o.a, o.b);
            u64 id = 2 + ++f.ids;
            u8 *b = (u8 *)malloc((size_t)ps);
            pageContent(sc.cfg.seed, id, b, ps);
            auto &m = f.page[p];
            DrvPage old = m;
            m = {id, false, false};  // in flight
            u64 end0 = f.maxEnd;
            f.maxEnd = std::max<u64>(f.maxEnd, ((u64)p + 1) * (u64)ps);
            bool ok = dcall([&] { rc = A->write(drvIf, b, p, (u32)ps, f.f); });
            free(b);
            (void)old;
            if (!ok) break;
            log("    drv write(%d,page %u) -> %d%s", fi, p, rc, sim.faultFired ? " [fault]" : "");
            apiNote(mix2(0xB30 + (u64)(rc & 0xff), p));
            if (rc) {
                m = {id, true, df};
                if (df && p >= f.np) VIOL("drv.range", "writing page %u of a file of %u pages succeeded", p, f.np);
                if (sd && ((u64)p + 1) * (u64)ps > 0xffffffffULL) VIOL("drv.range", "writing page %u beyond the largest file size succeeded", p);
            } else {
                bool must = !sim.faultFired && !full;
                if ((df && p >= f.np) || (sd && ((u64)p + 1) * (u64)ps > 0xffffffffULL)) {  // no such page
                    f.page.erase(p);
                    f.maxEnd = end0;
                    break;
                }
                if (must) VIOL("drv.write", "writing page %u failed without a fault", p);
                if (!sd) drvFailed(f);
            }
            break;
        }
        case OP_DREAD: {
            if (!f.open) break;
            u32 p = page(o.a, o.b);
            if ((o.c & 3) && !f.page.empty()) {  // usually a page that was written
                auto it = f.page.begin();
                std::advance(it, (long)((u64)o.b % f.page.size()));
                p = it->first;
            }
            u8 *b = (u8 *)malloc((size_t)ps), *e = (u8 *)malloc((size_t)ps);
            memset(b, 0xEE, (size_t)ps);
            bool ok = dcall([&] { rc = A->read(drvIf, b, p, (u32)ps, f.f); });
            if (ok) {
                log("    drv read(%d,page %u) -> %d%s", fi, p, rc, sim.faultFired ? " [fault]" : "");
                apiNote(mix2(0xB40 + (u64)(rc & 0xff), p));
                auto it = f.page.find(p);
                if (it != f.page.end() && it->second.known) {
                    pageContent(sc.cfg.seed, it->second.id, e, ps);
                    if (rc && memcmp(b, e, (size_t)ps)) VIOL("drv.wrong", "page %u of %d bytes reads back different bytes than written", p, ps);
                    if (!rc && !sim.faultFired) VIOL("drv.readfail", "page %u was written but cannot be read", p);
                } else if (df && rc && p >= f.np)
                    VIOL("drv.ghost", "page %u of a file of %u pages can be read", p, f.np);
                else if (df && rc && it == f.page.end()) {
                    // a page of a new file must look unused: no database page header
                    bool blank = true;
                    for (int i = 0; i < ps && i < 16; i++) blank &= b[i] == 0xff;
                    if (!blank) VIOL("drv.ghost", "page %u was never written but reads as something", p);
                } else if (!df && rc && it == f.page.end() && (u64)p * (u64)ps >= f.maxEnd)
                    VIOL("drv.ghost", "page %u beyond the end of the file can be read", p);
                if (sd || df) {
                } else {
                    if (!rc && sim.faultFired) drvFailed(f);
                    if (rc && sim.faultFired && sim.faultMaskFired != 1 << FK_READ) drvFailed(f);
                }
            }
            free(b);
            free(e);
            break;
        }
        case OP_DERASE: {
            if (!f.open) break;
            u32 s = page(o.a, o.b), n = 1 + (u32)((u64)o.c % 6);
            if ((sd || df) && o.a % 6 >= 4) break;
            if (s > 0xfffffff0u - n) break;
            std::map<u32, DrvPage> old;
            for (u32 p = s; p < s + n; p++) f.page[p] = {0, false, false};
            f.maxEnd = std::max<u64>(f.maxEnd, ((u64)s + n) * (u64)ps);
            if (!dcall([&] { rc = A->erase(drvIf, s, s + n, (u32)ps, f.f); })) break;
            log("    drv erase(%d,[%u,%u)) -> %d%s", fi, s, s + n, rc, sim.faultFired ? " [fault]" : "");
            apiNote(mix2(0xB50 + (u64)(rc & 0xff), s));
            if (!rc && !sim.faultFired) VIOL("drv.erase", "erasing failed without a fault");
            if (!rc) drvFailed(f);
            else if (drvMock && sim.faultFired)
                VIOL("drv.erase", "erasing pages [%u,%u) reported success (%d) although a file operation it needed failed", s, s + n, rc);
            else if (drvMock)
                for (u32 p = s; p < s + n; p++) f.page[p] = {1, true, false};
            break;
        }
        case OP_DTEAR: {  // the file object is given up, open or not, and made again
            bool wasOpen = f.open;
            if (!dcall([&] { A->file_free(f.f); })) break;
            log("    drv teardown(%d) %s%s", fi, wasOpen ? "open" : "closed", sim.faultFired ? " [fault]" : "");
            apiNote(0xB60 + (u64)wasOpen);
            f.open = false;
            if (wasOpen && sim.faultFired) drvFailed(f);
            if (stop()) break;
            char n[32];
            snprintf(n, sizeof n, "drv%d.bin", fi);
            f.f = nullptr;
            if (!dcall([&] { f.f = A->file(n, f.start, f.np); })) break;
            if (!f.f && !sim.faultFired) VIOL("drv.open", "no file object without a fault");
            if (!f.f) {
                bool q = sim.quiet;
                sim.quiet = true;
                f.f = A->file(n, f.start, f.np);
                sim.quiet = q;
            }
            if (o.c & 1) {  // the interface as well
                A->iface_free(drvIf);
                drvIf = nullptr;
                if (!dcall([&] { drvIf = A->iface(drvMock); })) break;
                if (!drvIf && !sim.faultFired) VIOL("drv.open", "no interface without a fault");
                if (!drvIf) {
                    bool q = sim.quiet;
                    sim.quiet = true;
                    drvIf = A->iface(drvMock);
                    sim.quiet = q;
                }
            }
            break;
        }
        case OP_DCRASH: {
            crashed = true;
            break;
        }
        default: break;
    }
    if (crashed && !stop()) {
        crashed = false;
        sim.ac.on = false;
        sim.st->crashes++;
        osCrash();
        ledgerReclaim(OWN_DRV);
        drvSetup();
        for (auto &x : drv) {
            for (auto &p : x.page)
                if (!p.second.durable) p.second.known = false;
        }
        log("    driver process crash");
    }
    if (cover && !stop()) {
        u64 h = mix2(0xD0, (u64)o.code);
        h = mix2(h, (u64)f.open + 2 * (u64)drvMock + 4 * (u64)sim.faultMaskFired);
        h = mix2(h, (u64)(rc & 0xff) + 256 * std::min<u64>(f.page.size(), 20) + 65536 * (u64)f.size);
        cover(h);
    }
}
void Exec::drvClose() {
    if (!drvIf || stop()) return;
    sim.arms.clear();
    sim.ac.on = false;
    // everything known must still be readable
    for (int i = 0; i < 3 && !stop(); i++) {
        DrvFile &f = drv[i];
        if (!f.open && f.exists) doDrv(Op{OP_DOPEN, i, 1, 0, 0, 0});
        for (size_t k = 0; k < f.page.size() && k < 40 && !stop(); k++) doDrv(Op{OP_DREAD, i, 0, (i64)k, 1, 0});
        if (f.open && !stop()) doDrv(Op{OP_DCLOSE, i, 0, 0, 0, 0});
    }
    if (stop()) return;
    sim.curOwner = OWN_DRV;
    for (auto &f : drv) drvApi->file_free(f.f);
    drvApi->iface_free(drvIf);
    drvIf = nullptr;
    if (ledgerCount(OWN_DRV) && !stop()) VIOL("mem.leak", "driver objects keep memory after they were torn down");
    if (!sim.streams.empty() && !stop()) VIOL("mem.leak", "the driver keeps files open after it was torn down");
}
