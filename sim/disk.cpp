#include <algorithm>
#include "disk.hpp"

Sim *S;

void Sim::fail(const char *tag, const char *fmt, ...) {
    if (viol.set) return;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    viol.set = true;
    viol.tag = tag;
    viol.msg = b;
}

void Sim::known(const char *tag, const char *fmt, ...) {
    // SIM_KNOWN lists the findings to tolerate (from the known-findings file); unset: all of them
    static const char *listed = getenv("SIM_KNOWN");
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (listed && !strstr(listed, tag)) {
        fail(tag, "%s", b);
        return;
    }
    st->knownFindings++;
    if (!knownTag.empty()) return;
    knownTag = tag;
    knownMsg = b;
}

void simCrashNow() {
    S->jumpKind = 1;
    longjmp(S->jb, 1);
}
static void junkFill(void *p, size_t n) {
    u64 x = mix2(S->junkSeed, S->junkCtr++);
    u8 *b = (u8 *)p;
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) x = mix64(x + i);
        b[i] = (u8)(x >> (8 * (i % 8)));
    }
}

// One I/O event of the library: budget, statistics, latency.
static void event(int kindForStats, u64 micros) {
    S->callEvents++;
    S->st->ioEvents++;
    S->st->simMicros += micros;
    (void)kindForStats;
    if (S->inCall && S->callEvents > S->callBudget) {
        S->jumpKind = 2;
        longjmp(S->jb, 1);
    }
}
// Does an armed fault fire for this event? Returns variant or -1.
static int fires(int kind, int cls, int db) {
    if (S->quiet || ((kind == FK_READ || kind == FK_SEEK) && S->suspendReads)) return -1;
    for (auto &a : S->arms) {
        if (a.kind != kind || !(a.mask & (1 << cls)) || (a.db >= 0 && db >= 0 && a.db != db) || a.len <= 0) continue;
        if (a.skip > 0) {
            a.skip--;
            continue;
        }
        a.len--;
        if (S->faultFired == 0) S->idxReadOnly = true;
        if (!(kind == FK_READ && cls == 1)) S->idxReadOnly = false;
        S->faultFired++;
        S->faultMaskFired |= 1 << kind;
        S->st->faults[kind]++;
        if (kind != FK_READ && kind != FK_ALLOC) S->faultTaint = true;
        return a.variant;
    }
    return -1;
}
// Crash point bookkeeping: returns true when the armed crash triggers on this mutating event.
static bool crashHere() {
    if (!S->ac.on || S->quiet || !S->inCall) return false;
    if (S->ac.skip > 0) {
        S->ac.skip--;
        return false;
    }
    return true;
}

static void ensureLen(DiskFile &f, bool durable, u32 pages) {
    auto &v = durable ? f.dur : f.view;
    auto &l = durable ? f.durLen : f.viewLen;
    auto &p = durable ? f.progD : f.progV;
    if (pages > l) {
        v.resize((size_t)pages * f.ps, f.fixed ? f.blank : 0);
        p.resize(pages, 0);
        l = pages;
    }
}
void diskInitFile(DiskFile &f) {
    f.exists = f.fixed;
    f.view.clear();
    f.dur.clear();
    f.progV.clear();
    f.progD.clear();
    f.viewLen = f.durLen = 0;
    if (f.fixed) {
        ensureLen(f, false, f.cap);
        ensureLen(f, true, f.cap);
    }
}
static void applyTo(DiskFile &f, bool durable, int kind, u32 start, u32 n, const u8 *data) {
    auto &v = durable ? f.dur : f.view;
    auto &p = durable ? f.progD : f.progV;
    if (kind == 0) {
        ensureLen(f, durable, start + 1);
        memcpy(&v[(size_t)start * f.ps], data, f.ps);
        p[start] = 1;
    } else if (kind == 1) {
        if (f.erasePat) {
            ensureLen(f, durable, start + n);
            memset(&v[(size_t)start * f.ps], f.erasePat == 1 ? 0x01 : f.erasePat == 2 ? 0x00 : 0xff, (size_t)n * f.ps);
        }
        for (u32 i = start; i < start + n && i < p.size(); i++) p[i] = 0;
    } else {
        auto &l = durable ? f.durLen : f.viewLen;
        v.clear();
        p.clear();
        l = 0;
        if (f.fixed) ensureLen(f, durable, f.cap);
    }
}
static void makeDurable(Pend &p, u32 n) {
    applyTo(*p.f, true, p.kind, p.start, p.kind == 1 ? n : p.n, p.data.data());
    if (p.kind == 0 && p.f->cls == 0 && p.tag > S->durTag[p.f->db]) S->durTag[p.f->db] = p.tag;
}
void diskDrain(size_t n) {
    while (n-- && !S->pend.empty()) {
        makeDurable(S->pend.front(), S->pend.front().n);
        S->pend.pop_front();
    }
}
static void mutate(DiskFile &f, int kind, u32 start, u32 n, const void *data) {
    applyTo(f, false, kind, start, n, (const u8 *)data);
    Pend p{&f, kind, start, n, {}, S->curTag};
    if (kind == 0) p.data.assign((const u8 *)data, (const u8 *)data + f.ps);
    S->pend.push_back(std::move(p));
    if (S->cacheMode == 0) diskDrain(S->pend.size());
    else if (S->cacheMode >= 3 && S->pend.size() > 512) diskDrain(256);  // the cache is full
    else if ((S->cacheMode == 2 || S->cacheMode == 4) && S->rng.chance(40)) diskDrain(S->rng.below(S->pend.size() + 1));
}
// Power is gone: 'keep'/256 of the queue survives, the erase at the cut may be torn.
void diskCrash(int keep) {
    size_t total = S->pend.size();
    size_t n = total * (size_t)keep / 256;
    diskDrain(n);
    if (!S->pend.empty()) {
        Pend &p = S->pend.front();
        if (p.kind == 1 && (keep & 1)) {
            u32 j = (u32)S->rng.below(p.n + 1);
            if (j) {
                makeDurable(p, j);
                S->st->crashTorn++;
            }
        }
        S->st->crashLostSuffix++;
    }
    for (auto &p : S->pend)
        if (p.kind == 0 && p.f->writes) p.f->writes--;
    S->pend.clear();
    for (auto f : S->files) {
        f->view = f->dur;
        f->viewLen = f->durLen;
        f->progV = f->progD;
        f->open = false;
        f->eraseBad.clear();
        if (!f->fixed) f->exists = f->exists;
    }
    osCrash();
}

// The result of a write, erase or flush as the library sees it.
static void outcome(DiskFile *f, int kind, u32 start, u32 end, bool ok) {
    auto &l = S->callFails;
    if (!ok) l.push_back({f, kind, start, end});
    else
        l.erase(std::remove_if(l.begin(), l.end(), [&](const CallFail &c) { return c.f == f && c.kind == kind && c.start >= start && c.end <= end; }), l.end());
    if (kind == 1) {
        if (end > f->eraseBad.size()) f->eraseBad.resize(end, 0);
        std::fill(f->eraseBad.begin() + start, f->eraseBad.begin() + end, ok ? 0 : 1);
    }
}

// ---------------------------------------------------------------- embedDBFileInterface callbacks
static void ev(DiskFile *f, int op, u32 page, int res) {
    S->eventHash = mix2(S->eventHash, ((u64)f->db << 60) ^ ((u64)f->cls << 56) ^ ((u64)op << 48) ^ ((u64)page << 8) ^ (u64)(res & 0xff));
}
static int8_t io_read(void *buffer, u32 page, u32 ps, void *file) {
    DiskFile *f = (DiskFile *)file;
    S->st->ioReads++;
    event(0, 25 + ps / 64);
    if (!f->open || (int)ps != f->ps) {
        S->fail("dev.misuse", "read on %s file %d.%d with page size %u", f->open ? "open" : "closed", f->db, f->cls, ps);
        return 0;
    }
    if (S->readLog[f->cls]) S->readLog[f->cls]->push_back(page);
    int v = fires(FK_READ, f->cls, f->db);
    if (v >= 0) {
        ev(f, 1, page, 2 + v);
        if (v == 1) junkFill(buffer, ps);
        else if (v == 2) {
            u32 h = ps / 2;
            if (page < f->viewLen) memcpy(buffer, &f->view[(size_t)page * ps], h);
            else junkFill(buffer, h);
        }
        return 0;
    }
    if (f->fixed && page >= f->cap) {
        ev(f, 1, page, 0);
        return 0;
    }
    if (page >= f->viewLen) {
        ev(f, 1, page, 0);
        return 0;
    }
    memcpy(buffer, &f->view[(size_t)page * ps], ps);
    ev(f, 1, page, 1);
    f->okReads++;
    return 1;
}
static int8_t io_write(void *buffer, u32 page, u32 ps, void *file) {
    DiskFile *f = (DiskFile *)file;
    S->st->ioWrites++;
    event(1, 200 + ps / 16);
    if (!f->open || (int)ps != f->ps) {
        S->fail("dev.misuse", "write on closed file or wrong page size %u (file %d.%d)", ps, f->db, f->cls);
        return 0;
    }
    if (page >= f->cap) {
        S->fail("dev.range", "write to page %u of file %d.%d which has %u pages", page, f->db, f->cls, f->cap);
        return 0;
    }
    if (S->onWrite) S->onWrite(f, page, (const u8 *)buffer);
    bool c = crashHere();
    if (c && S->ac.when != 1) simCrashNow();
    int v = fires(FK_WRITE, f->cls, f->db);
    outcome(f, 0, page, page + 1, v < 0);
    if (page < f->eraseBad.size() && f->eraseBad[page] && page < f->progV.size() && f->progV[page])
        S->fail("err.unerased", "page %u of file %d.%d is written, but the erase of its block was reported as failed and not repeated", page, f->db, f->cls);
    if (v < 0) f->writes++;
    if (v < 0 && f->cls == 1) S->st->idxPages++;
    if (v == 1) f->ghosts++;
    if (v < 0 || v == 1) {
        if (S->strict && !S->faultTaint && !f->exempt && page < f->progV.size() && f->progV[page])
            S->fail("dev.overwrite", "page %u of file %d.%d written again without an erase", page, f->db, f->cls);
        mutate(*f, 0, page, 1, buffer);
    }
    ev(f, 2, page, v < 0 ? 1 : 2 + v);
    S->eventHash = mix2(S->eventHash, hashBytes(buffer, ps));
    if (c) simCrashNow();
    return v < 0 ? 1 : 0;
}
static int8_t io_erase(u32 start, u32 end, u32 ps, void *file) {
    DiskFile *f = (DiskFile *)file;
    S->st->ioErases++;
    event(2, 2000);
    if (!f->open || (int)ps != f->ps) {
        S->fail("dev.misuse", "erase on closed file or wrong page size");
        return 0;
    }
    if (end <= start || end > f->cap) {
        S->fail("dev.range", "erase of pages [%u,%u) of file %d.%d which has %u pages", start, end, f->db, f->cls, f->cap);
        return 0;
    }
    if (S->strict && !S->faultTaint && !f->exempt && (start % f->e || end % f->e))
        S->fail("dev.align", "erase of pages [%u,%u) of file %d.%d is not aligned to blocks of %d", start, end, f->db, f->cls, f->e);
    bool c = crashHere();
    if (c && S->ac.when == 0) simCrashNow();
    if (c && S->ac.when == 2) {
        u32 j = (u32)S->rng.below(end - start + 1);
        if (j) {
            mutate(*f, 1, start, j, nullptr);
            S->st->crashTorn++;
        }
        simCrashNow();
    }
    if (S->onErase) S->onErase(f, start, end);
    int v = fires(FK_ERASE, f->cls, f->db);
    u32 n = end - start;
    if (v == 1) n = (u32)(n / 2);
    else if (v == 0) n = 0;
    if (n) mutate(*f, 1, start, n, nullptr);
    outcome(f, 1, start, end, v < 0);
    ev(f, 3, start, v < 0 ? 1 : 2 + v);
    if (c) simCrashNow();
    return v < 0 ? 1 : 0;
}
static int8_t io_flush(void *file) {
    DiskFile *f = (DiskFile *)file;
    S->st->ioFlushes++;
    event(3, 500);
    if (!f->open) {
        S->fail("dev.misuse", "flush on closed file");
        return 0;
    }
    bool c = crashHere();
    if (c && S->ac.when != 1) simCrashNow();
    int v = fires(FK_FLUSH, f->cls, f->db);
    outcome(f, 3, 0, 0, v < 0);
    if (v < 0 || v == 1) {
        if (S->cacheMode >= 3) {  // only this file is made durable, writes of other files stay queued
            std::deque<Pend> rest;
            for (auto &p : S->pend)
                if (p.f == f) makeDurable(p, p.n);
                else rest.push_back(std::move(p));
            S->pend.swap(rest);
        } else {
            size_t last = 0;
            for (size_t i = 0; i < S->pend.size(); i++)
                if (S->pend[i].f == f) last = i + 1;
            diskDrain(last);
        }
    }
    ev(f, 4, 0, v < 0 ? 1 : 2 + v);
    if (c) simCrashNow();
    return v < 0 ? 1 : 0;
}
static int8_t io_open(void *file, u8 mode) {
    DiskFile *f = (DiskFile *)file;
    event(4, 1000);
    int v = fires(FK_OPEN, f->cls, f->db);
    ev(f, 5, mode, v);
    if (v >= 0) return 0;
    if (mode == 1) {
        if (!f->exists) return 0;
    } else if (mode == 0) {
        bool c = crashHere();
        if (c && S->ac.when != 1) simCrashNow();
        f->exists = true;
        applyTo(*f, false, 2, 0, 0, nullptr);
        // truncation is durable at once; drop queued writes of this file
        std::deque<Pend> q;
        for (auto &p : S->pend)
            if (p.f != f) q.push_back(std::move(p));
        S->pend.swap(q);
        applyTo(*f, true, 2, 0, 0, nullptr);
        if (f->cls == 0) S->durTag[f->db] = 0;
        if (c) {
            f->open = true;
            simCrashNow();
        }
    } else {
        S->fail("dev.misuse", "open with mode %d", mode);
        return 0;
    }
    f->open = true;
    f->eraseBad.clear();
    return 1;
}
static int8_t io_close(void *file) {
    DiskFile *f = (DiskFile *)file;
    event(5, 100);
    int v = fires(FK_CLOSE, f->cls, f->db);
    ev(f, 6, 0, v);
    if (!f->open) {
        S->fail("dev.misuse", "close of a file that is not open (%d.%d)", f->db, f->cls);
        return 0;
    }
    size_t last = 0;
    for (size_t i = 0; i < S->pend.size(); i++)
        if (S->pend[i].f == f) last = i + 1;
    diskDrain(last);
    f->open = false;
    return v < 0 ? 1 : 0;
}
static int8_t fwd_read(void *buffer, u32 page, u32 ps, void *file) {
    DrvFwd *d = (DrvFwd *)file;
    int r = d->api->read(d->iface, buffer, page, ps, d->file);
    ev(d->f, 1, page, r);
    d->f->okReads += r == 1;
    return (int8_t)r;
}
static int8_t fwd_write(void *buffer, u32 page, u32 ps, void *file) {
    DrvFwd *d = (DrvFwd *)file;
    if (page >= d->f->cap) {
        S->fail("dev.range", "write to page %u of file %d.%d which has %u pages", page, d->f->db, d->f->cls, d->f->cap);
        return 0;
    }
    if (S->onWrite) S->onWrite(d->f, page, (const u8 *)buffer);
    int r = d->api->write(d->iface, buffer, page, ps, d->file);
    outcome(d->f, 0, page, page + 1, r == 1);
    if (r == 1) d->f->writes++;
    else d->f->ghosts++;
    ev(d->f, 2, page, r);
    S->eventHash = mix2(S->eventHash, hashBytes(buffer, ps));
    return (int8_t)r;
}
static int8_t fwd_erase(u32 start, u32 end, u32 ps, void *file) {
    DrvFwd *d = (DrvFwd *)file;
    event(2, 10);
    int r = d->api->erase(d->iface, start, end, ps, d->file);
    ev(d->f, 3, start, r);
    return (int8_t)r;
}
static int8_t fwd_flush(void *file) {
    DrvFwd *d = (DrvFwd *)file;
    event(3, 10);
    int r = d->api->flush(d->iface, d->file);
    outcome(d->f, 3, 0, 0, r == 1);
    if (r == 1) d->f->exists = true;
    ev(d->f, 4, 0, r);
    return (int8_t)r;
}
static int8_t fwd_open(void *file, u8 mode) {
    DrvFwd *d = (DrvFwd *)file;
    event(4, 10);
    // FAT itself does not survive an interrupted truncation: no card errors or power loss while it runs
    S->card.calm = mode == 0;
    int r = d->api->open(d->iface, d->file, mode);
    S->card.calm = false;
    d->f->open = r == 1;
    ev(d->f, 5, mode, r);
    return (int8_t)r;
}
static int8_t fwd_close(void *file) {
    DrvFwd *d = (DrvFwd *)file;
    event(5, 10);
    S->card.calm = true;  // embedDBClose() has no way to tell that closing failed
    int r = d->api->close(d->iface, d->file);
    S->card.calm = false;
    d->f->open = false;
    if (r == 1) d->f->exists = true;
    ev(d->f, 6, 0, r);
    return (int8_t)r;
}
const SimIo fwdIo = {fwd_read, fwd_write, fwd_erase, fwd_close, fwd_open, fwd_flush};
const SimIo simIo = {io_read, io_write, io_erase, io_close, io_open, io_flush};

// ---------------------------------------------------------------- allocator seam
void ledgerReclaim(int owner) {
    for (auto it = S->allocs.begin(); it != S->allocs.end();) {
        if (owner < 0 || it->second.owner == owner) {
            free(it->first);
            it = S->allocs.erase(it);
        } else
            ++it;
    }
}
size_t ledgerCount(int owner) {
    size_t n = 0;
    for (auto &a : S->allocs)
        if (a.second.owner == owner) n++;
    return n;
}
size_t ledgerBytes(int owner) {
    size_t n = 0;
    for (auto &a : S->allocs)
        if (a.second.owner == owner) n += a.second.n;
    return n;
}
extern "C" {
void *sim_malloc(size_t n) {
    S->callAllocs++;
    S->callBytes += n;
    if (n > (64u << 20)) {
        S->fail("mem.huge", "allocation of %zu bytes", n);
        return nullptr;
    }
    if (fires(FK_ALLOC, 0, -1) >= 0) return nullptr;
    void *p = malloc(n ? n : 1);
    junkFill(p, n);
    S->allocs[p] = {n, S->curOwner};
    return p;
}
void *sim_calloc(size_t a, size_t b) {
    if (b && a > (64u << 20) / b) {
        S->fail("mem.huge", "allocation of %zu*%zu bytes", a, b);
        return nullptr;
    }
    void *p = sim_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    auto it = S->allocs.find(p);
    if (it == S->allocs.end()) {
        S->fail("mem.badfree", "free of a pointer that is not allocated");
        return;
    }
    S->allocs.erase(it);
    free(p);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    auto it = S->allocs.find(p);
    if (it == S->allocs.end()) {
        S->fail("mem.badfree", "realloc of a pointer that is not allocated");
        return nullptr;
    }
    size_t o = it->second.n;
    void *q = sim_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, std::min(o, n));
    sim_free(p);
    return q;
}

// ---------------------------------------------------------------- output and stdio seam
int sim_printf(const char *fmt, ...) {
    if (S) S->callPrints++;
    if (!S || !S->text) return 0;
    char b[300];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    *S->text += b;
    return n;
}
int sim_puts(const char *) { return 0; }
int sim_putchar(int c) { return c; }
int sim_fprintf(void *, const char *, ...) { return 0; }

static int pushOut(SimFILE *f) {  // stdio buffer to kernel; may fail
    if (f->wbuf.empty()) return 0;
    bool c = crashHere();
    if (c && S->ac.when != 1) simCrashNow();
    int v = fires(FK_WRITE, 0, -1);
    if (v >= 0) {
        if (v == 1) {  // short: half reaches the kernel
            f->os->write(f->wstart, f->wbuf.data(), f->wbuf.size() / 2);
        }
        f->wbuf.clear();
        f->err = true;
        return -1;
    }
    f->os->write(f->wstart, f->wbuf.data(), f->wbuf.size());
    f->wbuf.clear();
    if (c) simCrashNow();
    return 0;
}
void *sim_fopen(const char *name, const char *mode) {
    event(4, 1000);
    if (fires(FK_OPEN, 0, -1) >= 0) return nullptr;
    OsFile &o = S->os[name];
    if (mode[0] == 'r') {
        if (!o.exists) return nullptr;
    } else if (mode[0] == 'w') {
        o.exists = true;
        o.len = 0;
        o.blk.clear();
    } else {
        o.exists = true;
    }
    SimFILE *f = new SimFILE;
    f->os = &o;
    f->name = name;
    f->bufCap = S->stdioBuf;
    S->streams.push_back(f);
    return f;
}
static SimFILE *chk(void *p) {
    for (auto f : S->streams)
        if (f == p) return f;
    S->fail("drv.badfile", "stdio call on a stream that is not open");
    return nullptr;
}
int sim_fflush(void *p) {
    S->st->ioFlushes++;
    event(3, 500);
    SimFILE *f = chk(p);
    if (!f) return -1;
    int v = fires(FK_FLUSH, 0, -1);
    if (v >= 0) {
        if (v == 1) {
            f->os->write(f->wstart, f->wbuf.data(), f->wbuf.size());
            f->wbuf.clear();
        }
        f->err = true;
        return -1;
    }
    return pushOut(f);
}
int sim_fclose(void *p) {
    event(5, 100);
    SimFILE *f = chk(p);
    if (!f) return -1;
    int v = fires(FK_CLOSE, 0, -1);
    int r = 0;
    if (v >= 0) {
        f->wbuf.clear();
        r = -1;
    } else
        r = pushOut(f);
    S->streams.erase(std::find(S->streams.begin(), S->streams.end(), f));
    delete f;
    return r;
}
int sim_fseeko(void *p, i64 off, int wh) {
    SimFILE *f = chk(p);
    if (!f) return -1;
    S->callEvents++;
    if (fires(FK_SEEK, 0, -1) >= 0) return -1;
    if (pushOut(f)) return -1;
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (i64)f->os->len;
    if (base + off < 0) return -1;
    f->pos = base + off;
    f->eof = false;
    return 0;
}
int sim_fseek(void *p, long off, int wh) { return sim_fseeko(p, off, wh); }
long sim_ftell(void *p) {
    SimFILE *f = chk(p);
    return f ? (long)f->pos : -1;
}
void sim_rewind(void *p) {
    SimFILE *f = chk(p);
    if (f) {
        sim_fseeko(p, 0, SEEK_SET);
        f->err = false;
    }
}
size_t sim_fread(void *buf, size_t sz, size_t n, void *p) {
    S->st->ioReads++;
    event(0, 30);
    SimFILE *f = chk(p);
    if (!f || !sz || !n) return 0;
    if (pushOut(f)) return 0;
    int v = fires(FK_READ, 0, -1);
    u64 want = (u64)sz * n;
    if (v >= 0) {
        f->err = true;
        if (v == 0) return 0;
        u64 got = f->os->read((u64)f->pos, (u8 *)buf, v == 1 ? want / 2 : want - 1);
        f->pos += (i64)got;
        return got / sz;
    }
    u64 got = f->os->read((u64)f->pos, (u8 *)buf, want);
    f->pos += (i64)got;
    if (got < want) f->eof = true;
    return got / sz;
}
size_t sim_fwrite(const void *buf, size_t sz, size_t n, void *p) {
    S->st->ioWrites++;
    event(1, 100);
    SimFILE *f = chk(p);
    if (!f || !sz || !n) return 0;
    u64 want = (u64)sz * n;
    if (f->wbuf.empty()) f->wstart = (u64)f->pos;
    if (f->wbuf.size() + want > f->bufCap) {  // goes to the kernel now
        std::vector<u8> all = f->wbuf;
        all.insert(all.end(), (const u8 *)buf, (const u8 *)buf + want);
        bool c = crashHere();
        if (c && S->ac.when != 1) simCrashNow();
        int v = fires(FK_WRITE, 0, -1);
        if (v >= 0) {
            u64 k = v == 1 && f->bufCap ? all.size() / 2 : 0;
            f->os->write(f->wstart, all.data(), k);
            u64 done = k > f->wbuf.size() ? k - f->wbuf.size() : 0;
            f->wbuf.clear();
            f->pos += (i64)done;
            f->err = true;
            return done / sz;
        }
        f->os->write(f->wstart, all.data(), all.size());
        f->wbuf.clear();
        f->pos += (i64)want;
        f->os->writes++;
        if (c) simCrashNow();
        return n;
    }
    f->os->writes++;
    f->wbuf.insert(f->wbuf.end(), (const u8 *)buf, (const u8 *)buf + want);
    f->pos += (i64)want;
    return n;
}
int sim_ferror(void *p) {
    SimFILE *f = chk(p);
    return f ? f->err : 1;
}
int sim_feof(void *p) {
    SimFILE *f = chk(p);
    return f ? f->eof : 1;
}
void sim_clearerr(void *p) {
    SimFILE *f = chk(p);
    if (f) f->err = f->eof = false;
}
}
void osCrash() {
    for (auto f : S->streams) delete f;
    S->streams.clear();
    S->chip.busy = 0;
    S->chip.programming = false;
    for (auto &b : S->chip.buf) b = (u8)S->rng.next();
}

// ---------------------------------------------------------------- SD card below the real FAT file system
extern "C" {
uint32_t sim_card_sectors(void) { return S->card.making ? S->card.making->sectors : S->card.base->sectors; }
int sim_card_read(uint32_t sector, uint8_t *dst, size_t n) {
    SdCardSim &c = S->card;
    S->st->ioReads++;
    event(0, 200 * n);
    if (sector + n > sim_card_sectors()) {
        S->fail("drv.range", "sector %u of a card with %u sectors is read", sector, sim_card_sectors());
        return 0;
    }
    if (!c.calm && fires(FK_READ, 0, -1) >= 0) return 0;
    for (size_t i = 0; i < n; i++, dst += 512) {
        auto it = c.s.find(sector + (u32)i);
        if (it != c.s.end()) {
            memcpy(dst, it->second.data(), 512);
            continue;
        }
        const CardImage *b = c.making ? c.making : c.base;
        auto jt = b->s.find(sector + (u32)i);
        if (jt != b->s.end()) memcpy(dst, jt->second.data(), 512);
        else {  // never written: old content of the card
            u64 x = mix2(S->junkSeed, sector + i);
            for (int k = 0; k < 512; k += 8) {
                x = mix64(x);
                memcpy(dst + k, &x, 8);
            }
        }
    }
    return 1;
}
int sim_card_write(uint32_t sector, const uint8_t *src, size_t n) {
    SdCardSim &c = S->card;
    S->st->ioWrites++;
    event(1, 300 * n);
    if (sector + n > sim_card_sectors()) {
        S->fail("drv.range", "sector %u of a card with %u sectors is written", sector, sim_card_sectors());
        return 0;
    }
    size_t done = n;
    bool crash = !c.calm && crashHere(), ok = true;
    if (crash && S->ac.when == 0) simCrashNow();
    if (crash && S->ac.when == 2) done = n / 2;
    int v = crash || c.calm ? -1 : fires(FK_WRITE, 0, -1);
    if (v >= 0) {
        ok = false;
        done = v == 1 ? n : v == 2 ? n / 2 : 0;
    }
    for (size_t i = 0; i < done; i++) {
        auto &d = (c.making ? c.making->s : c.s)[sector + (u32)i];
        memcpy(d.data(), src + 512 * i, 512);
    }
    if (crash) simCrashNow();
    return ok;
}
int sim_card_sync(void) {
    event(3, 100);
    S->st->ioFlushes++;
    return S->card.calm || fires(FK_FLUSH, 0, -1) < 0;
}
unsigned long sim_millis(void) { return (unsigned long)(S->st->simMicros / 1000); }
void sim_yield(void) { event(6, 10); }
// what C++ 'new' in the wrapper resolves to: on the targets it never fails with an exception; kept from failing here
void *sim_new(size_t n) {
    bool q = S->quiet;
    S->quiet = true;
    void *p = sim_malloc(n);
    S->quiet = q;
    return p;
}
void sim_delete(void *p) { sim_free(p); }
void sim_delete2(void *p, size_t) { sim_free(p); }
int sim_serial_printf(const char *, ...) { return 0; }

// ---------------------------------------------------------------- dataflash chip
static std::array<u8, 528> &chipPage(int page) {
    FlashChipSim &c = S->chip;
    static std::array<u8, 528> dummy;
    if (page < 0 || (u32)page >= c.pages) {
        S->fail("drv.range", "page %d of a chip with %u pages is used", page, c.pages);
        return dummy;
    }
    auto it = c.page.find((u32)page);
    if (it == c.page.end()) {
        it = c.page.emplace((u32)page, std::array<u8, 528>{}).first;
        it->second.fill(0xff);
    }
    return it->second;
}
static bool chipRange(int addr, int n) {
    if (addr < 0 || n < 0 || addr + n > 528) {
        S->fail("drv.range", "bytes %d..%d of a chip page are used", addr, addr + n);
        return false;
    }
    return true;
}
static void chipIdle(const char *what) {
    if (S->chip.programming) S->fail("drv.busy", "%s while the chip is still programming a page", what);
}
int8_t df_main_memory_read(void *, int page, int addr, uint8_t *data, int n) {
    S->st->ioReads++;
    event(0, 40);
    chipIdle("a read");
    if (chipRange(addr, n)) memcpy(data, chipPage(page).data() + addr, (size_t)n);
    return 1;
}
int8_t df_MM_to_buffer_1(void *, int page) {
    event(0, 40);
    chipIdle("a transfer");
    S->chip.buf = chipPage(page);
    S->chip.programming = true;
    S->chip.busy = (int)S->rng.below(4);
    return 1;
}
int8_t df_MM_to_buffer_2(void *, int page) {
    event(0, 40);
    chipIdle("a transfer");
    S->chip.buf2 = chipPage(page);
    S->chip.programming = true;
    S->chip.busy = (int)S->rng.below(4);
    return 1;
}
int8_t df_buffer_1_read(void *, int addr, uint8_t *data, int n) {
    if (chipRange(addr, n)) memcpy(data, S->chip.buf.data() + addr, (size_t)n);
    return 1;
}
int8_t df_buffer_2_read(void *, int addr, uint8_t *data, int n) {
    if (chipRange(addr, n)) memcpy(data, S->chip.buf2.data() + addr, (size_t)n);
    return 1;
}
int8_t df_buffer_1_write(void *, int addr, uint8_t *data, int n) {
    event(1, 10);
    chipIdle("a buffer write");
    if (chipRange(addr, n)) memcpy(S->chip.buf.data() + addr, data, (size_t)n);
    return 1;
}
int8_t df_buffer_2_write(void *, int addr, uint8_t *data, int n) {
    event(1, 10);
    if (chipRange(addr, n)) memcpy(S->chip.buf2.data() + addr, data, (size_t)n);
    return 1;
}
static int8_t chipProgram(const std::array<u8, 528> &b, int page, bool erase) {
    S->st->ioWrites++;
    event(1, 15000);
    chipIdle("a program command");
    bool crash = crashHere();
    if (crash && S->ac.when != 1) simCrashNow();
    auto &p = chipPage(page);
    for (int i = 0; i < 528; i++) p[(size_t)i] = erase ? b[(size_t)i] : p[(size_t)i] & b[(size_t)i];
    S->chip.programming = true;
    S->chip.busy = (int)S->rng.below(6);
    if (crash) simCrashNow();
    return 1;
}
int8_t df_buffer_1_to_MM_erase(void *, int page) { return chipProgram(S->chip.buf, page, true); }
int8_t df_buffer_2_to_MM_erase(void *, int page) { return chipProgram(S->chip.buf2, page, true); }
int8_t df_buffer_1_to_MM_no_erase(void *, int page) { return chipProgram(S->chip.buf, page, false); }
int8_t df_page_erase(void *, int page) {
    event(2, 8000);
    chipIdle("an erase command");
    chipPage(page).fill(0xff);
    S->chip.programming = true;
    S->chip.busy = (int)S->rng.below(6);
    return 1;
}
int8_t df_erase_chip(void *) {
    event(2, 50000);
    chipIdle("an erase command");
    S->chip.page.clear();
    S->chip.programming = true;
    S->chip.busy = (int)S->rng.below(9);
    return 1;
}
int get_ready_status(void *) {
    event(6, 100);
    if (S->chip.busy > 0) {
        S->chip.busy--;
        return 0;
    }
    S->chip.programming = false;
    return 1;
}
}
void cardSetup(int kind) {
    static CardImage img[3];
    CardImage &im = img[kind];
    S->card.s.clear();
    if (!im.sectors) {  // once per process, with the real formatter
        bool q = S->quiet, in = S->inCall;
        S->quiet = true;
        S->inCall = false;
        im.sectors = kind == 1 ? 0x800000 : 32768;
        S->card.making = &im;
        simapi_sd.format();
        if (kind == 2) {
            simapi_sd.mount();
            simapi_sd.fill(96 * 1024);
        }
        S->card.making = nullptr;
        S->quiet = q;
        S->inCall = in;
    }
    S->card.base = &im;
}
