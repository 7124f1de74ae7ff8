// Stand-in for the FT4222 bridge and its libraries.  The including file defines
//   void dev_spi(uint8_t *out, int nout, uint8_t *in, int nin)  -- one transfer: bytes sent, bytes to return
//   int  dev_i2c(int rd, int addr, uint8_t *buf, int n)         -- bytes transferred
//   void dev_gpio(int port, int value)                          -- -1 = released
#pragma once
#include "libft4222.h"
#include <cstring>
#include <cstdio>
static void dev_spi(uint8_t *out, int nout, uint8_t *in, int nin);
static int dev_i2c(int rd, int addr, uint8_t *buf, int n);
static void dev_gpio(int port, int value);
extern "C" {
FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { *n = 1; return 0; }
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *d, LPDWORD n) {
    *n = 1; memset(d, 0, sizeof *d); d->Type = FT_DEVICE_4222H_1_2; strcpy(d->Description, "FT4222 A"); d->LocId = 0x4444; return 0; }
FT_STATUS FT_OpenEx(PVOID a, DWORD, FT_HANDLE *h) {
    uintptr_t v = (uintptr_t)a; if (v != 0x4444 && v != 0x4447) return 3; *h = (void *)(v == 0x4444 ? 0x100 : 0x200); return 0; }
FT_STATUS FT_Close(FT_HANDLE) { return 0; }
FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG) { return 0; }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect) { return FT4222_OK; }
FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate) { return FT4222_OK; }
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir g[4]) { for (int i = 2; i < 4; i++) if (g[i] == GPIO_INPUT) dev_gpio(i, -1); return FT4222_OK; }
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *r, uint8 *w, uint8, uint16 nw, uint16 nr, uint32 *got) {
    dev_spi(w, nw, r, nr); *got = nr; return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port p, BOOL v) { dev_gpio(p, !!v); return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *v) { *v = 0; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32) { return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16 a, uint8, uint8 *b, uint16 n, uint16 *x) { *x = dev_i2c(1, a, b, n); return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16 a, uint8, uint8 *b, uint16 n, uint16 *x) { *x = dev_i2c(0, a, b, n); return FT4222_OK; }
}
