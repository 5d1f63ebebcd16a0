#ifndef KSIM_WINCRYPT_H
#define KSIM_WINCRYPT_H
#include "windows.h"
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40u
BOOL CryptAcquireContextA(HCRYPTPROV *prov, LPCSTR container, LPCSTR provider, DWORD type, DWORD flags);
BOOL CryptGenRandom(HCRYPTPROV prov, DWORD len, BYTE *out);
BOOL CryptReleaseContext(HCRYPTPROV prov, DWORD flags);
#define CryptAcquireContext CryptAcquireContextA
#endif
