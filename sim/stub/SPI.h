#ifndef SIM_SPI_H
#define SIM_SPI_H
#include "Arduino.h"
#endif
