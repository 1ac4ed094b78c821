/* Interface between the simulator (C++) and one build of the library (C).
 * Only plain types cross it; every library object is an opaque pointer. */
#ifndef SIMAPI_H
#define SIMAPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct SimIo {
    int8_t (*read)(void *buffer, uint32_t page, uint32_t pageSize, void *file);
    int8_t (*write)(void *buffer, uint32_t page, uint32_t pageSize, void *file);
    int8_t (*erase)(uint32_t start, uint32_t end, uint32_t pageSize, void *file);
    int8_t (*close)(void *file);
    int8_t (*open)(void *file, uint8_t mode);
    int8_t (*flush)(void *file);
} SimIo;

enum { SIM_P_INDEX = 1, SIM_P_MAXMIN = 2, SIM_P_SUM = 4, SIM_P_BMAP = 8, SIM_P_VDATA = 16, SIM_P_RESET = 32, SIM_P_RLC = 64, SIM_P_BSEARCH = 128, SIM_P_NOCLEAN = 256 };

typedef struct SimDbCfg {
    int data64;  /* the first 8 bytes of the data are one value, compared as int64_t */
    int keySize, dataSize, pageSize, bufBlocks, params, eraseSize;
    uint32_t numData, numIndex, numVar;
    uint32_t splinePoints;
    int maxErr;
    int bitmapSize;
    int bitmapKind;  /* 0 none, 8/16/64 library, 1 custom */
    int libCompare;  /* 1: library comparators for 4 and 8 byte keys */
    void *dataFile, *indexFile, *varFile;
    void *buffer;
    const SimIo *io; /* NULL: use 'iface' as given (desktop driver) */
    void *iface;     /* memory of sizeofIface bytes, or driver interface */
} SimDbCfg;

/* A storage driver: interface objects, file objects and the calls through the interface. */
typedef struct DrvApi {
    const char *name;
    void *(*iface)(int kind);
    void (*iface_free)(void *iface);
    void *(*file)(const char *name, uint32_t startPage, uint32_t numPages);
    void (*file_free)(void *file);
    int (*read)(void *iface, void *buf, uint32_t page, uint32_t size, void *file);
    int (*write)(void *iface, void *buf, uint32_t page, uint32_t size, void *file);
    int (*erase)(void *iface, uint32_t s, uint32_t e, uint32_t size, void *file);
    int (*open)(void *iface, void *file, int mode);
    int (*close)(void *iface, void *file);
    int (*flush)(void *iface, void *file);
    int (*mount)(void);          /* power-on of the medium; NULL: nothing to do */
    int (*format)(void);
    int (*fill)(uint32_t leave); /* uses up the medium except for about 'leave' bytes */
} DrvApi;

typedef struct SimApi {
    const char *name;
    size_t sizeofState, sizeofIface, sizeofIter;
    int (*db_init)(void *st, const SimDbCfg *cfg);
    int (*put)(void *st, void *k, void *d);
    int (*putVar)(void *st, void *k, void *d, void *v, uint32_t len);
    int (*get)(void *st, void *k, void *d);
    int (*getVar)(void *st, void *k, void *d, void **stream);
    int (*flush)(void *st);
    int (*flushVar)(void *st);
    void (*close)(void *st);
    void (*stats)(void *st, uint32_t out[5]); /* reads, writes, index reads, index writes, buffer hits */
    void (*stats_reset)(void *st);
    void (*stats_print)(void *st); /* prints the configuration and the counters */
    void (*it_init)(void *st, void *it, void *minK, void *maxK, void *minD, void *maxD);
    int (*it_next)(void *st, void *it, void *k, void *d);
    int (*it_nextVar)(void *st, void *it, void *k, void *d, void **stream);
    void (*it_close)(void *it);
    uint32_t (*stream_read)(void *st, void *stream, void *buf, uint32_t len);
    uint32_t (*stream_total)(void *stream);
    void (*bm_range)(void *st, void *lo, void *hi, void *bm);
    void (*bm_update)(void *st, void *d, void *bm); /* the bitmap function of the database */
    int (*bm_in)(void *st, void *d, void *bm);      /* its membership test */
    void (*stream_free)(void *stream);
    /* queries */
    void *(*schema_new)(int n, int8_t *sizes, int8_t *signs);
    void (*schema_free)(void *schema);
    void *(*op_scan)(void *st, void *it, void *schema);
    void *(*op_proj)(void *in, int n, uint8_t *cols);
    void *(*op_sel)(void *in, int col, int oper, void *val);
    void *(*op_agg)(void *in, int8_t (*grp)(const void *, const void *), void *funcs, uint32_t n);
    void *(*op_join)(void *a, void *b);
    void (*op_init)(void *op);
    int (*op_next)(void *op);
    void (*op_close)(void *op);
    void (*op_free)(void *op);
    void *(*op_record)(void *op);
    int (*op_ready)(void *op);
    void *(*agg_new)(int n);                                    /* array of n function structs */
    int (*agg_set)(void *arr, int i, int kind, int col, int sz); /* 0 key 1 count 2 sum 3 min 4 max 5 avg; returns 0 when allocation failed */
    void (*agg_free)(void *arr, int n);
    const struct DrvApi *drv; /* desktop driver */
} SimApi;

extern const SimApi simapi_src;
extern const SimApi simapi_dist;
extern const DrvApi simapi_sd;
extern const DrvApi simapi_df;

/* what the renamed library symbols resolve to */
void *sim_malloc(size_t n);
void *sim_calloc(size_t a, size_t b);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
#ifdef __cplusplus
}
#endif
#endif
