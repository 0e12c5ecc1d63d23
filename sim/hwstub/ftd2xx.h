// Declarations of the FTDI D2XX calls the repository uses; the library itself is not here.
#pragma once
#include <cstdint>
#ifndef FTD2XX_API
#define FTD2XX_API
#endif
#ifndef WINAPI
#define WINAPI
#endif
typedef unsigned int DWORD, ULONG, *LPDWORD;
typedef int BOOL;
typedef void* PVOID;
typedef ULONG FT_STATUS;
typedef PVOID FT_HANDLE;
typedef unsigned char uint8;
typedef unsigned short uint16;
typedef unsigned int uint32;
enum { FT_OK = 0 };
enum { FT_OPEN_BY_LOCATION = 4 };
enum { FT_DEVICE_4222H_0 = 10, FT_DEVICE_4222H_1_2 = 11, FT_DEVICE_4222H_3 = 12 };
struct FT_DEVICE_LIST_INFO_NODE { ULONG Flags, Type, ID; DWORD LocId; char SerialNumber[16]; char Description[64]; FT_HANDLE ftHandle; };
extern "C++" {
FTD2XX_API FT_STATUS WINAPI FT_CreateDeviceInfoList(LPDWORD);
FTD2XX_API FT_STATUS WINAPI FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE*, LPDWORD);
FTD2XX_API FT_STATUS WINAPI FT_OpenEx(PVOID, DWORD, FT_HANDLE*);
FTD2XX_API FT_STATUS WINAPI FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG);
FTD2XX_API FT_STATUS WINAPI FT_Close(FT_HANDLE);
}
