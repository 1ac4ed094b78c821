/* Host stand-in for the Arduino core: just what EmbedDB's SD driver and the SdFat file system need. */
#ifndef SIM_ARDUINO_H
#define SIM_ARDUINO_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
unsigned long millis(void);
void yield(void);
#ifdef __cplusplus
}
#define DEC 10
#define HEX 16
class __FlashStringHelper;
class String {
   public:
    const char *c_str() const { return ""; }
};
class Print {
   public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) { return 1; }
    virtual size_t write(const uint8_t *, size_t n) { return n; }
    size_t write(const char *s) { return strlen(s); }
    size_t write(const char *s, size_t n) { return write((const uint8_t *)s, n); }
    template <class T> size_t print(T) { return 0; }
    template <class T> size_t print(T, int) { return 0; }
    template <class T> size_t println(T) { return 0; }
    template <class T> size_t println(T, int) { return 0; }
    size_t println() { return 0; }
    int getWriteError() { return e; }
    void clearWriteError() { e = 0; }

   protected:
    void setWriteError(int x = 1) { e = x; }
    int e = 0;
};
class Stream : public Print {
   public:
    virtual int available() { return 0; }
    virtual int read() { return -1; }
    virtual int peek() { return -1; }
    virtual void flush() {}
};
static Stream Serial;  // output is discarded
#endif
#endif
