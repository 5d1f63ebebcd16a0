/* Stand-in for the parts of windows.h that lib/random.c uses (x64 conventions); the functions are in rt.cpp. */
#ifndef KSIM_WINDOWS_H
#define KSIM_WINDOWS_H
typedef void VOID, *PVOID, *LPVOID, *HMODULE, *HINSTANCE;
typedef int BOOL;
typedef unsigned char BOOLEAN, BYTE, UCHAR, *PBYTE;
typedef unsigned int ULONG, DWORD, UINT;
typedef const char *LPCSTR;
typedef long long INT_PTR, LONG_PTR;
typedef unsigned long long ULONG_PTR, DWORD_PTR, SIZE_T;
#define WINAPI
#define APIENTRY
#define CALLBACK
#define NTAPI
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#ifndef MAXDWORD
#define MAXDWORD 0xFFFFFFFFu
#endif
typedef INT_PTR (WINAPI *FARPROC)();
HMODULE LoadLibraryA(LPCSTR name);
FARPROC GetProcAddress(HMODULE lib, LPCSTR name);
BOOL FreeLibrary(HMODULE lib);
#define LoadLibrary LoadLibraryA
#endif
