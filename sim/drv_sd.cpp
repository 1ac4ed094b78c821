// Adapter for the SD-card driver: the shipped SDFileInterface.c and sdcard_c_iface.cpp on the real SdFat
// FAT file system, on a simulated card.
#include "SdFat.h"
#undef FILE_READ
#undef FILE_WRITE
#include <new>
#include "SDFileInterface.h"
#undef fopen
#undef fclose
#undef fwrite
#undef fflush
#undef fseek
#undef fread
#include "simapi.h"

static SdCard card;
alignas(16) static unsigned char volMem[sizeof(SdFat32)];
static SdFat32 *vol;

extern "C" {
// power-on: a fresh volume object; returns 0 when the card has no readable file system
int sd_mount(void) {
    memset(volMem, 0, sizeof volMem);
    vol = new (volMem) SdFat32();
    if (!vol->begin(&card)) return 0;
    init_sdcard(vol);
    return 1;
}
int sd_format(void) {
    uint8_t buf[512];
    FatFormatter f;
    return f.format(&card, buf);
}
int sd_filler(uint32_t bytes) {
    File32 f = vol->open("filler", O_RDWR | O_CREAT);
    return f.isOpen() && f.preAllocate(bytes) && f.close();
}
uint32_t sd_free(void) { return (uint32_t)vol->freeClusterCount() * vol->bytesPerCluster(); }
// the longest allocatable run cannot be asked for; the largest power-of-two steps fill the card
int sd_fill(uint32_t leave) {
    char n[8] = "fill00";
    for (int i = 0; i < 60 && sd_free() > leave; i++) {
        n[4] = (char)('0' + i / 10);
        n[5] = (char)('0' + i % 10);
        File32 f = vol->open(n, O_RDWR | O_CREAT);
        uint32_t want = sd_free() - leave;
        while (want && !f.preAllocate(want)) want /= 2;
        f.close();
        if (!want) break;
    }
    return 1;
}
#define I ((embedDBFileInterface *)iface)
static void *d_iface(int) { return getSDInterface(); }
static void d_ifaceFree(void *p) { sim_free(p); }
static void *d_file(const char *n, uint32_t, uint32_t) { return setupSDFile((char *)n); }
static void d_fileFree(void *f) { tearDownSDFile(f); }
static int d_read(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->read(b, p, s, f); }
static int d_write(void *iface, void *b, uint32_t p, uint32_t s, void *f) { return I->write(b, p, s, f); }
static int d_erase(void *iface, uint32_t a, uint32_t e, uint32_t s, void *f) { return I->erase(a, e, s, f); }
static int d_open(void *iface, void *f, int m) { return I->open(f, m ? EMBEDDB_FILE_MODE_R_PLUS_B : EMBEDDB_FILE_MODE_W_PLUS_B); }
static int d_close(void *iface, void *f) { return I->close(f); }
static int d_flush(void *iface, void *f) { return I->flush(f); }
extern const DrvApi simapi_sd;
const DrvApi simapi_sd = {"sd", d_iface, d_ifaceFree, d_file, d_fileFree, d_read, d_write, d_erase, d_open, d_close, d_flush, sd_mount, sd_format, sd_fill};
}
