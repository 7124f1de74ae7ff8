// Declarations of the FT4222 library used by /repo/src/hw (the vendor's header is not available offline).
#pragma once
#include "ftd2xx.h"
#define LIBFT4222_API
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32;
typedef enum { FT4222_OK = 0, FT4222_INVALID_HANDLE, FT4222_DEVICE_NOT_FOUND, FT4222_DEVICE_NOT_OPENED, FT4222_IO_ERROR, FT4222_INVALID_PARAMETER = 6 } FT4222_STATUS;
typedef enum { SPI_IO_NONE = 0, SPI_IO_SINGLE = 1, SPI_IO_DUAL = 2, SPI_IO_QUAD = 4 } FT4222_SPIMode;
typedef enum { CLK_NONE = 0, CLK_DIV_2, CLK_DIV_4, CLK_DIV_8, CLK_DIV_16, CLK_DIV_32, CLK_DIV_64, CLK_DIV_128, CLK_DIV_256, CLK_DIV_512 } FT4222_SPIClock;
typedef enum { CLK_IDLE_LOW = 0, CLK_IDLE_HIGH = 1 } FT4222_SPICPOL;
typedef enum { CLK_LEADING = 0, CLK_TRAILING = 1 } FT4222_SPICPHA;
typedef enum { CS_ACTIVE_NEGTIVE = 0, CS_ACTIVE_POSTIVE } SPI_ChipSelect;
typedef enum { DS_4MA = 0, DS_8MA, DS_12MA, DS_16MA } SPI_DrivingStrength;
typedef enum { SYS_CLK_60 = 0, SYS_CLK_24, SYS_CLK_48, SYS_CLK_80 } FT4222_ClockRate;
typedef enum { GPIO_PORT0 = 0, GPIO_PORT1, GPIO_PORT2, GPIO_PORT3 } GPIO_Port;
typedef enum { GPIO_OUTPUT = 0, GPIO_INPUT = 1 } GPIO_Dir;
enum { I2C_NONE_FLAG = 0x80, I2C_START = 2, I2C_Repeated_START = 3, I2C_STOP = 4, I2C_START_AND_STOP = 6,
       NONE = 0x80, START = 2, Repeated_START = 3, STOP = 4, START_AND_STOP = 6 };
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8);
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect);
FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate);
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength);
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir gpioDir[4]);
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL);
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL);
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE);
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *, uint8 *, uint8, uint16, uint16, uint32 *);
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL);
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *);
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32);
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *);
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *);
