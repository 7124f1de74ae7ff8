// Declarations of the FTDI D2XX library used by /repo/src/hw (the vendor's header is not available offline).
#pragma once
#include <stdint.h>
#ifndef WINAPI
#define WINAPI
#endif
#define FTD2XX_API
typedef unsigned int DWORD; typedef DWORD *LPDWORD; typedef unsigned int ULONG; typedef void *PVOID; typedef int BOOL;
enum { FT_OK = 0 };
typedef void *FT_HANDLE; typedef ULONG FT_STATUS;
#define FT_OPEN_BY_LOCATION 4
enum { FT_DEVICE_4222H_0 = 10, FT_DEVICE_4222H_1_2 = 11, FT_DEVICE_4222H_3 = 12 };
typedef struct { ULONG Flags, Type, ID; DWORD LocId; char SerialNumber[16]; char Description[64]; FT_HANDLE ftHandle; } FT_DEVICE_LIST_INFO_NODE;
FT_STATUS FT_CreateDeviceInfoList(LPDWORD);
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *, LPDWORD);
FT_STATUS FT_OpenEx(PVOID, DWORD, FT_HANDLE *);
FT_STATUS FT_Close(FT_HANDLE);
FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG);
