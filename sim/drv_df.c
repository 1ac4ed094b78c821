/* Adapter for the dataflash driver: the shipped dataflashFileInterface.c and dataflash_c_iface.cpp on a simulated chip. */
#include <stdlib.h>
#include "dataflashFileInterface.h"
#include "dataflash_c_iface.h"
#include "simapi.h"
#define I ((embedDBFileInterface *)iface)
static void *d_iface(int m) { return getDataflashInterface(); }
static void d_ifaceFree(void *p) { sim_free(p); }
static void *d_file(const char *n, uint32_t start, uint32_t pages) { return setupDataflashFile(start, pages); }
static void d_fileFree(void *f) { tearDownDataflashFile(f); }
static int d_read(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->read(b, p, s, f); }
static int d_write(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->write(b, p, s, f); }
static int d_erase(void *iface, uint32_t a, uint32_t e, uint32_t s, void *f) { return I->erase(a, e, s, f); }
static int d_open(void *iface, void *f, int m) { return I->open(f, m ? EMBEDDB_FILE_MODE_R_PLUS_B : EMBEDDB_FILE_MODE_W_PLUS_B); }
static int d_close(void *iface, void *f) { return I->close(f); }
static int d_flush(void *iface, void *f) { return I->flush(f); }
static int df_mount(void) {
    static int chip;
    init_df(&chip);
    return 1;
}
static int df_format(void) {
    dferase_chip();
    return 1;
}
const DrvApi simapi_df = {"df", d_iface, d_ifaceFree, d_file, d_fileFree, d_read, d_write, d_erase, d_open, d_close, d_flush, df_mount, df_format, NULL};
