#ifndef STUB_WINCRYPT_H
#define STUB_WINCRYPT_H
#include "windows.h"
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x00000040u
BOOL CryptAcquireContextA(HCRYPTPROV *, LPCSTR, LPCSTR, DWORD, DWORD);
#define CryptAcquireContext CryptAcquireContextA
BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *);
BOOL CryptReleaseContext(HCRYPTPROV, DWORD);
#endif
