// declarations of the Windows API the library uses, so that its Windows sources can be analysed here
#ifndef VF_WINDOWS_H
#define VF_WINDOWS_H
#define VOID void
#define WINAPI
#define CALLBACK
#define FALSE 0
#define TRUE 1
typedef void * LPVOID;
typedef void * PVOID;
typedef int BOOL;
typedef unsigned int DWORD;
typedef DWORD * PDWORD;
typedef unsigned long SIZE_T;
typedef unsigned short WORD;
#ifndef _WIN32_WINNT
#define _WIN32_WINNT 0x0601
#endif
#define ERROR_ALREADY_FIBER 1280L
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_GUARD 0x100
typedef struct {
    DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress; LPVOID lpMaximumApplicationAddress; SIZE_T dwActiveProcessorMask;
    DWORD dwNumberOfProcessors; DWORD dwProcessorType; DWORD dwAllocationGranularity; WORD wProcessorLevel; WORD wProcessorRevision;
} SYSTEM_INFO, *LPSYSTEM_INFO;
typedef VOID (WINAPI * LPFIBER_START_ROUTINE)( LPVOID);
#ifdef __cplusplus
extern "C" {
#endif
BOOL IsThreadAFiber( void);
LPVOID GetCurrentFiber( void);
LPVOID ConvertThreadToFiber( LPVOID);
BOOL ConvertFiberToThread( void);
LPVOID CreateFiber( SIZE_T, LPFIBER_START_ROUTINE, LPVOID);
void SwitchToFiber( LPVOID);
void DeleteFiber( LPVOID);
DWORD GetLastError( void);
void GetSystemInfo( LPSYSTEM_INFO);
LPVOID VirtualAlloc( LPVOID, SIZE_T, DWORD, DWORD);
BOOL VirtualProtect( LPVOID, SIZE_T, DWORD, PDWORD);
BOOL VirtualFree( LPVOID, SIZE_T, DWORD);
#ifdef __cplusplus
}
#endif
#endif
