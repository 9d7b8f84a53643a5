/* declarations of the Windows types randombytes.c uses; for analysis only */
#ifndef STUB_WINDOWS_H
#define STUB_WINDOWS_H
#include <stdint.h>
typedef int BOOL; typedef unsigned int DWORD; typedef unsigned char BYTE; typedef unsigned long ULONG; typedef const char *LPCSTR; typedef void *PVOID; typedef int64_t LONG_PTR; typedef uint64_t ULONG_PTR; typedef uint64_t SIZE_T;
#ifndef NULL
#define NULL ((void*)0)
#endif
#define TRUE 1
#define FALSE 0
unsigned int GetLastError(void);
__attribute__((noreturn)) void ExitProcess(unsigned int);
#endif
