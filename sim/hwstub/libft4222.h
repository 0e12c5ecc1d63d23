// Declarations of the FT4222 calls the repository uses; the library itself is not here.
#pragma once
#include "ftd2xx.h"
#ifndef LIBFT4222_API
#define LIBFT4222_API
#endif
enum FT4222_STATUS { FT4222_OK = 0, FT4222_INVALID_HANDLE = 1, FT4222_DEVICE_NOT_FOUND = 2, FT4222_DEVICE_NOT_OPENED = 3, FT4222_IO_ERROR = 4 };
enum FT4222_SPIMode { SPI_IO_NONE = 0, SPI_IO_SINGLE = 1, SPI_IO_DUAL = 2, SPI_IO_QUAD = 4 };
enum FT4222_SPIClock { CLK_NONE = 0, CLK_DIV_2, CLK_DIV_4, CLK_DIV_8, CLK_DIV_16, CLK_DIV_32, CLK_DIV_64, CLK_DIV_128, CLK_DIV_256, CLK_DIV_512 };
enum FT4222_SPICPOL { CLK_IDLE_LOW = 0, CLK_IDLE_HIGH = 1 };
enum FT4222_SPICPHA { CLK_LEADING = 0, CLK_TRAILING = 1 };
enum SPI_ChipSelect { CS_ACTIVE_NEGTIVE = 0, CS_ACTIVE_POSTIVE };
enum SPI_DrivingStrength { DS_4MA = 0, DS_8MA, DS_12MA, DS_16MA };
enum FT4222_ClockRate { SYS_CLK_60 = 0, SYS_CLK_24, SYS_CLK_48, SYS_CLK_80 };
enum GPIO_Dir { GPIO_OUTPUT = 0, GPIO_INPUT };
enum I2C_MasterFlag { NONE = 0x80, START = 2, Repeated_START = 3, STOP = 4, START_AND_STOP = 6 };
enum GPIO_Port { GPIO_PORT0 = 0, GPIO_PORT1, GPIO_PORT2, GPIO_PORT3 };
extern "C++" {
LIBFT4222_API FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8);
LIBFT4222_API FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect);
LIBFT4222_API FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate);
LIBFT4222_API FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength);
LIBFT4222_API FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir[4]);
LIBFT4222_API FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL);
LIBFT4222_API FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL);
LIBFT4222_API FT4222_STATUS FT4222_UnInitialize(FT_HANDLE);
LIBFT4222_API FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8*, uint8*, uint8, uint16, uint16, uint32*);
LIBFT4222_API FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL);
LIBFT4222_API FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL*);
LIBFT4222_API FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32);
LIBFT4222_API FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16, uint8, uint8*, uint16, uint16*);
LIBFT4222_API FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16, uint8, uint8*, uint16, uint16*);
LIBFT4222_API FT4222_STATUS FT4222_I2CMaster_Read(FT_HANDLE, uint16, uint8*, uint16, uint16*);
LIBFT4222_API FT4222_STATUS FT4222_I2CMaster_Write(FT_HANDLE, uint16, uint8*, uint16, uint16*);
}
