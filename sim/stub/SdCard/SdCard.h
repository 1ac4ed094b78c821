/* The simulated SD card: sectors behind the interface SdFat expects of a card. */
#ifndef SIM_SDCARD_H
#define SIM_SDCARD_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
int sim_card_read(uint32_t sector, uint8_t *dst, size_t n);
int sim_card_write(uint32_t sector, const uint8_t *src, size_t n);
int sim_card_sync(void);
uint32_t sim_card_sectors(void);
}
class SdCard {
   public:
    bool isBusy() { return false; }
    bool readSector(uint32_t s, uint8_t *d) { return sim_card_read(s, d, 1); }
    bool readSectors(uint32_t s, uint8_t *d, size_t n) { return sim_card_read(s, d, n); }
    bool writeSector(uint32_t s, const uint8_t *d) { return sim_card_write(s, d, 1); }
    bool writeSectors(uint32_t s, const uint8_t *d, size_t n) { return sim_card_write(s, d, n); }
    bool syncDevice() { return sim_card_sync(); }
    uint32_t sectorCount() { return sim_card_sectors(); }
};
#endif
