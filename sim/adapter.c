/* Compiled once per build of the library (src, dist), against that build's own headers. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifdef DIST
#include "desktopFileInterface.h"
#include "embedDB.h"
#define API simapi_dist
#define APINAME "dist"
#else
#include "desktopFileInterface.h"
#include "embedDB/embedDB.h"
#include "embedDBUtility.h"
#include "query-interface/advancedQueries.h"
#include "query-interface/schema.h"
#define API simapi_src
#define APINAME "src"
#endif
#include "simapi.h"

#define UCMP(N)                                             \
    static int8_t ucmp##N(void *a, void *b) {               \
        uint64_t x = 0, y = 0;                              \
        memcpy(&x, a, N);                                   \
        memcpy(&y, b, N);                                   \
        return x < y ? -1 : x > y ? 1 : 0;                  \
    }
UCMP(1) UCMP(2) UCMP(3) UCMP(4) UCMP(5) UCMP(6) UCMP(7) UCMP(8)
static int8_t (*const ucmps[9])(void *, void *) = {0, ucmp1, ucmp2, ucmp3, ucmp4, ucmp5, ucmp6, ucmp7, ucmp8};

/* custom bitmaps: bucket of the 32-bit value, clamped; N bits, bit i of byte i/8 */
static int cbBits(int bytes) { return bytes * 8; }
static int cbBucket(const void *data, int bytes) {
    int32_t v;
    memcpy(&v, data, 4);
    int64_t b = ((int64_t)v + 64) / 16;
    if (b < 0) b = 0;
    if (b >= cbBits(bytes)) b = cbBits(bytes) - 1;
    return (int)b;
}
#define CBM(N)                                                                  \
    static void cbUpd##N(void *d, void *bm) {                                   \
        int b = cbBucket(d, N);                                                 \
        ((uint8_t *)bm)[b / 8] |= (uint8_t)(1 << (b % 8));                      \
    }                                                                           \
    static int8_t cbIn##N(void *d, void *bm) {                                  \
        int b = cbBucket(d, N);                                                 \
        return (((uint8_t *)bm)[b / 8] & (uint8_t)(1 << (b % 8))) != 0;         \
    }                                                                           \
    static void cbRange##N(void *lo, void *hi, void *bm) {                      \
        int a = lo ? cbBucket(lo, N) : 0, z = hi ? cbBucket(hi, N) : N * 8 - 1; \
        for (int i = a; i <= z; i++) ((uint8_t *)bm)[i / 8] |= (uint8_t)(1 << (i % 8)); \
    }
CBM(1) CBM(2) CBM(3) CBM(5) CBM(8)

static int db_init(void *vst, const SimDbCfg *c) {
    embedDBState *st = vst;
    embedDBFileInterface *fi = c->iface;
    if (c->io) {
        fi->read = c->io->read;
        fi->write = c->io->write;
        fi->erase = c->io->erase;
        fi->close = c->io->close;
        fi->open = c->io->open;
        fi->flush = c->io->flush;
    }
    st->fileInterface = fi;
    st->dataFile = c->dataFile;
    st->indexFile = c->indexFile;
    st->varFile = c->varFile;
    st->numDataPages = c->numData;
    st->numIndexPages = c->numIndex;
    st->numVarPages = c->numVar;
    st->eraseSizeInPages = (count_t)c->eraseSize;
    st->buffer = c->buffer;
    st->spl = NULL;
    st->numSplinePoints = c->splinePoints;
    st->bufferSizeInBlocks = (int8_t)c->bufBlocks;
    st->pageSize = (count_t)c->pageSize;
    int p = 0;
    if (c->params & SIM_P_INDEX) p |= EMBEDDB_USE_INDEX;
    if (c->params & SIM_P_MAXMIN) p |= EMBEDDB_USE_MAX_MIN;
    if (c->params & SIM_P_SUM) p |= EMBEDDB_USE_SUM;
    if (c->params & SIM_P_BMAP) p |= EMBEDDB_USE_BMAP;
    if (c->params & SIM_P_VDATA) p |= EMBEDDB_USE_VDATA;
    if (c->params & SIM_P_RESET) p |= EMBEDDB_RESET_DATA;
    if (c->params & SIM_P_RLC) p |= EMBEDDB_RECORD_LEVEL_CONSISTENCY;
    if (c->params & SIM_P_BSEARCH) p |= EMBEDDB_USE_BINARY_SEARCH;
    if (c->params & SIM_P_NOCLEAN) p |= EMBEDDB_DISABLE_SPLINE_CLEAN;
    st->parameters = (int16_t)p;
    st->keySize = (int8_t)c->keySize;
    st->dataSize = c->dataSize;
    st->bitmapSize = (int8_t)c->bitmapSize;
    st->compareKey = ucmps[c->keySize <= 8 ? c->keySize : 8];
    if (c->libCompare && c->keySize == 4) st->compareKey = int32Comparator;
    if (c->libCompare && c->keySize == 8) st->compareKey = int64Comparator;
    st->compareData = c->dataSize >= 4 ? int32Comparator : ucmps[c->dataSize];
    if (c->data64) st->compareData = int64Comparator;
    st->extractData = NULL;
    st->buildBitmapFromRange = NULL;
    st->updateBitmap = NULL;
    st->inBitmap = NULL;
#define USE(R, U, I) (st->buildBitmapFromRange = R, st->updateBitmap = U, st->inBitmap = I)
    if (c->bitmapKind == 8) USE(buildBitmapInt8FromRange, updateBitmapInt8, inBitmapInt8);
    if (c->bitmapKind == 16) USE(buildBitmapInt16FromRange, updateBitmapInt16, inBitmapInt16);
    if (c->bitmapKind == 64) USE(buildBitmapInt64FromRange, updateBitmapInt64, inBitmapInt64);
    if (c->bitmapKind == 1) {
        switch (c->bitmapSize) {
            case 1: USE(cbRange1, cbUpd1, cbIn1); break;
            case 2: USE(cbRange2, cbUpd2, cbIn2); break;
            case 3: USE(cbRange3, cbUpd3, cbIn3); break;
            case 5: USE(cbRange5, cbUpd5, cbIn5); break;
            default: USE(cbRange8, cbUpd8, cbIn8); break;
        }
    }
    return embedDBInit(st, (size_t)c->maxErr);
}
static int a_put(void *st, void *k, void *d) { return embedDBPut(st, k, d); }
static int a_putVar(void *st, void *k, void *d, void *v, uint32_t n) { return embedDBPutVar(st, k, d, v, n); }
static int a_get(void *st, void *k, void *d) { return embedDBGet(st, k, d); }
static int a_getVar(void *st, void *k, void *d, void **s) { return embedDBGetVar(st, k, d, (embedDBVarDataStream **)s); }
static int a_flush(void *st) { return embedDBFlush(st); }
static int a_flushVar(void *st) { return embedDBFlushVar(st); }
static void a_close(void *st) { embedDBClose(st); }
static void a_stats(void *st, uint32_t out[5]) {
    embedDBState *s = st;
    out[0] = s->numReads;
    out[1] = s->numWrites;
    out[2] = s->numIdxReads;
    out[3] = s->numIdxWrites;
    out[4] = s->bufferHits;
}
static void a_statsReset(void *st) { embedDBResetStats(st); }
static void a_statsPrint(void *st) {
    embedDBPrintInit(st);
    embedDBPrintStats(st);
}
static void a_itInit(void *st, void *vit, void *a, void *b, void *c, void *d) {
    embedDBIterator *it = vit;
    it->minKey = a;
    it->maxKey = b;
    it->minData = c;
    it->maxData = d;
    embedDBInitIterator(st, it);
}
static int a_itNext(void *st, void *it, void *k, void *d) { return embedDBNext(st, it, k, d); }
static int a_itNextVar(void *st, void *it, void *k, void *d, void **s) { return embedDBNextVar(st, it, k, d, (embedDBVarDataStream **)s); }
static void a_itClose(void *it) { embedDBCloseIterator(it); }
static uint32_t a_sRead(void *st, void *s, void *b, uint32_t n) { return embedDBVarDataStreamRead(st, s, b, n); }
static uint32_t a_sTotal(void *s) { return ((embedDBVarDataStream *)s)->totalBytes; }
static void a_bmRange(void *st, void *lo, void *hi, void *bm) { ((embedDBState *)st)->buildBitmapFromRange(lo, hi, bm); }
static int a_bmIn(void *st, void *d, void *bm) {
    embedDBState *s = st;
    return s->inBitmap ? s->inBitmap(d, bm) != 0 : -1;
}
static void a_bmUpdate(void *st, void *d, void *bm) { ((embedDBState *)st)->updateBitmap(d, bm); }
static void a_sFree(void *s) { free(s); }

static void *q_schema(int n, int8_t *sz, int8_t *sg) { return embedDBCreateSchema((uint8_t)n, sz, sg); }
static void q_schemaFree(void *s) {
    embedDBSchema *p = s;
    embedDBFreeSchema(&p);
}
static void *q_scan(void *st, void *it, void *s) { return createTableScanOperator(st, it, s); }
static void *q_proj(void *in, int n, uint8_t *c) { return createProjectionOperator(in, (uint8_t)n, c); }
static void *q_sel(void *in, int c, int o, void *v) { return createSelectionOperator(in, (uint8_t)c, (int8_t)o, v); }
static void *q_agg(void *in, int8_t (*g)(const void *, const void *), void *f, uint32_t n) { return createAggregateOperator(in, g, f, n); }
static void *q_join(void *a, void *b) { return createKeyJoinOperator(a, b); }
static void q_init(void *op) { ((embedDBOperator *)op)->init(op); }
static int q_next(void *op) { return exec(op); }
static void q_close(void *op) { ((embedDBOperator *)op)->close(op); }
static void q_free(void *op) {
    embedDBOperator *o = op;
    embedDBFreeOperatorRecursive(&o);
}
static void *q_record(void *op) { return ((embedDBOperator *)op)->recordBuffer; }
static int q_ready(void *op) {
    embedDBOperator *o = op;
    return o->schema != NULL && o->schema->columnSizes != NULL && o->recordBuffer != NULL;
}
/* a user-written aggregate: the key of the group's last record */
static void keyCompute(embedDBAggregateFunc *f, embedDBSchema *out, void *rec, const void *last) {
    memcpy((int8_t *)rec + getColOffsetFromSchema(out, f->colNum), last, (size_t)abs(f->colSize));
}
static void *g_new(int n) { return calloc((size_t)n, sizeof(embedDBAggregateFunc)); }
static int g_set(void *arr, int i, int kind, int col, int sz) {
    embedDBAggregateFunc *f = (embedDBAggregateFunc *)arr + i, *c = NULL;
    switch (kind) {
        case 0:
            f->reset = NULL;
            f->add = NULL;
            f->compute = keyCompute;
            f->state = NULL;
            f->colSize = (int8_t)sz;
            return 1;
        case 1: c = createCountAggregate(); break;
        case 2: c = createSumAggregate((uint8_t)col); break;
        case 3: c = createMinAggregate((uint8_t)col, (int8_t)sz); break;
        case 4: c = createMaxAggregate((uint8_t)col, (int8_t)sz); break;
        default: c = createAvgAggregate((uint8_t)col, (int8_t)sz); break;
    }
    if (!c) return 0;
    *f = *c;
    free(c);
    return 1;
}
static void g_free(void *arr, int n) {
    for (int i = 0; i < n; i++) free(((embedDBAggregateFunc *)arr)[i].state);
    free(arr);
}
static void *d_iface(int mock) { return mock ? getMockEraseFileInterface() : getFileInterface(); }
static void d_ifaceFree(void *p) { free(p); }
static void *d_file(const char *n, uint32_t start, uint32_t pages) { return setupFile((char *)n); }
static void d_fileFree(void *f) { tearDownFile(f); }
#define I ((embedDBFileInterface *)iface)
static int d_read(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->read(b, p, s, f); }
static int d_write(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->write(b, p, s, f); }
static int d_erase(void *iface, uint32_t a, uint32_t e, uint32_t s, void *f) { return I->erase(a, e, s, f); }
static int d_open(void *iface, void *f, int m) { return I->open(f, m ? EMBEDDB_FILE_MODE_R_PLUS_B : EMBEDDB_FILE_MODE_W_PLUS_B); }
static int d_close(void *iface, void *f) { return I->close(f); }
static int d_flush(void *iface, void *f) { return I->flush(f); }

static const DrvApi desktopDrv = {"desktop", d_iface, d_ifaceFree, d_file, d_fileFree, d_read, d_write, d_erase, d_open, d_close, d_flush, NULL, NULL, NULL};

const SimApi API = {
    APINAME, sizeof(embedDBState), sizeof(embedDBFileInterface), sizeof(embedDBIterator),
    db_init, a_put, a_putVar, a_get, a_getVar, a_flush, a_flushVar, a_close, a_stats, a_statsReset, a_statsPrint,
    a_itInit, a_itNext, a_itNextVar, a_itClose, a_sRead, a_sTotal, a_bmRange, a_bmUpdate, a_bmIn, a_sFree,
    q_schema, q_schemaFree, q_scan, q_proj, q_sel, q_agg, q_join, q_init, q_next, q_close, q_free, q_record, q_ready,
    g_new, g_set, g_free,
    &desktopDrv};
