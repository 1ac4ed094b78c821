/* The dataflash chip library is not part of the repository; these are the calls EmbedDB's wrapper makes. */
#ifndef SIM_DATAFLASH_H
#define SIM_DATAFLASH_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct memory_t {
    int dummy;
} memory_t;
#define DATAFLASH_BUSY 0
#define DATAFLASH_READY 1
int8_t df_main_memory_read(memory_t *df, int page, int addr, uint8_t *data, int n);
int8_t df_MM_to_buffer_1(memory_t *df, int page);
int8_t df_MM_to_buffer_2(memory_t *df, int page);
int8_t df_buffer_1_read(memory_t *df, int addr, uint8_t *data, int n);
int8_t df_buffer_2_read(memory_t *df, int addr, uint8_t *data, int n);
int8_t df_buffer_1_write(memory_t *df, int addr, uint8_t *data, int n);
int8_t df_buffer_2_write(memory_t *df, int addr, uint8_t *data, int n);
int8_t df_buffer_1_to_MM_erase(memory_t *df, int page);
int8_t df_buffer_2_to_MM_erase(memory_t *df, int page);
int8_t df_buffer_1_to_MM_no_erase(memory_t *df, int page);
int8_t df_page_erase(memory_t *df, int page);
int8_t df_erase_chip(memory_t *df);
int get_ready_status(memory_t *df);
#ifdef __cplusplus
}
#endif
#endif
