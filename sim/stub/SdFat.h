/* SdFat's own header pulls in the SPI card driver; here the real FAT file system runs on a simulated card. */
#ifndef SdFat_h
#define SdFat_h
#include "common/SysCall.h"
#include "SdCard/SdCard.h"
#include "FatLib/FatLib.h"
class SdFat32 : public FatVolume {};
typedef FatVolume SdFatVolume;
#endif
