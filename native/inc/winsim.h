/* The slice of the Windows API that CEX calls, as a simulated operating system under the harness' control. */
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cwchar>
#include <sys/types.h>
#include <sys/time.h>

typedef int32_t BOOL; typedef uint8_t BYTE; typedef uint16_t WORD; typedef uint32_t DWORD; typedef int32_t LONG;
typedef uint32_t ULONG; typedef uint32_t UINT; typedef int32_t INT; typedef uint64_t DWORD64; typedef uint64_t ULONGLONG;
typedef int64_t LONGLONG; typedef size_t SIZE_T; typedef void* LPVOID; typedef void* PVOID; typedef void* HANDLE;
typedef wchar_t TCHAR; typedef wchar_t WCHAR; typedef wchar_t* LPTSTR; typedef const wchar_t* LPCTSTR; typedef char* PSTR;
typedef uintptr_t ULONG_PTR; typedef uintptr_t DWORD_PTR; typedef uintptr_t UINT_PTR; typedef void* HMODULE; typedef void* HKEY; typedef LONG LSTATUS;
typedef uintptr_t HCRYPTPROV; typedef DWORD* LPDWORD; typedef uint32_t u_long_win; typedef LONG NTSTATUS; typedef char CHAR; typedef uint8_t UCHAR;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define TEXT(x) L##x
#define MAX_COMPUTERNAME_LENGTH 15
#define UNLEN 256
#define MAX_PATH 260
#define MAX_MODULE_NAME32 255
#define ZeroMemory(p, n) std::memset((p), 0, (n))

typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME;
typedef struct { LONG x; LONG y; } POINT;
typedef struct { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress; LPVOID lpMaximumApplicationAddress; DWORD_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors; DWORD dwProcessorType; DWORD dwAllocationGranularity; WORD wProcessorLevel; WORD wProcessorRevision; } SYSTEM_INFO;
typedef struct { DWORD dwLength; DWORD dwMemoryLoad; ULONGLONG ullTotalPhys, ullAvailPhys, ullTotalPageFile, ullAvailPageFile, ullTotalVirtual, ullAvailVirtual, ullAvailExtendedVirtual; } MEMORYSTATUSEX;
typedef struct { SIZE_T dwSize; HANDLE hHandle; ULONG_PTR dwAddress; SIZE_T dwBlockSize; DWORD dwFlags, dwLockCount, dwResvd, th32ProcessID; ULONG_PTR th32HeapID; } HEAPENTRY32;
typedef struct { SIZE_T dwSize; DWORD th32ProcessID; ULONG_PTR th32HeapID; DWORD dwFlags; } HEAPLIST32;
typedef struct { DWORD dwSize, th32ModuleID, th32ProcessID, GlblcntUsage, ProccntUsage; BYTE* modBaseAddr; DWORD modBaseSize; HMODULE hModule; WCHAR szModule[256]; WCHAR szExePath[260]; } MODULEENTRY32, MODULEENTRY32W;
typedef struct { DWORD dwSize, cntUsage, th32ProcessID; ULONG_PTR th32DefaultHeapID; DWORD th32ModuleID, cntThreads, th32ParentProcessID; LONG pcPriClassBase; DWORD dwFlags; WCHAR szExeFile[260]; } PROCESSENTRY32, PROCESSENTRY32W;
typedef struct { DWORD dwSize, cntUsage, th32ThreadID, th32OwnerProcessID; LONG tpBasePri, tpDeltaPri; DWORD dwFlags; } THREADENTRY32;
typedef struct { DWORD v[15]; } MIB_TCPSTATS;
typedef struct IP_ADDR_STRING { struct IP_ADDR_STRING* Next; struct { char String[16]; } IpAddress; struct { char String[16]; } IpMask; DWORD Context; } IP_ADDR_STRING;
typedef struct IP_ADAPTER_INFO { struct IP_ADAPTER_INFO* Next; DWORD ComboIndex; char AdapterName[260]; char Description[132]; UINT AddressLength; BYTE Address[8]; DWORD Index; UINT Type; UINT DhcpEnabled; IP_ADDR_STRING* CurrentIpAddress; IP_ADDR_STRING IpAddressList, GatewayList, DhcpServer; BOOL HaveWins; int64_t LeaseObtained, LeaseExpires; } IP_ADAPTER_INFO, *PIP_ADAPTER_INFO;
typedef struct { PVOID BaseAddress, AllocationBase; DWORD AllocationProtect; SIZE_T RegionSize; DWORD State, Protect, Type; } MEMORY_BASIC_INFORMATION;
typedef struct { PVOID Sid; DWORD Attributes; } SID_AND_ATTRIBUTES; typedef struct { SID_AND_ATTRIBUTES User; } TOKEN_USER, *PTOKEN_USER;

#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000
#define CRYPT_SILENT 0x40
#define MEM_RESERVE 0x2000
#define MEM_COMMIT 0x1000
#define MEM_RELEASE 0x8000
#define PAGE_READWRITE 4
#define PAGE_GUARD 0x100
#define PAGE_NOACCESS 1
#define PAGE_EXECUTE_READWRITE 0x40
#define TH32CS_SNAPHEAPLIST 1
#define TH32CS_SNAPPROCESS 2
#define TH32CS_SNAPTHREAD 4
#define TH32CS_SNAPMODULE 8
#define TOKEN_QUERY 8
#define TokenUser 1
#define KEY_READ 0x20019
#define HKEY_CLASSES_ROOT ((HKEY)1)
#define GET_MODULE_HANDLE_EX_FLAG_FROM_ADDRESS 4
#define ERROR_SUCCESS 0
#define NO_ERROR 0
#define ERROR_BUFFER_OVERFLOW 111
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_CALL_NOT_IMPLEMENTED 120

/* Everything below is defined in winsim.cpp (C++ linkage, so no clash with libc's own names). */
BOOL CryptAcquireContextW(HCRYPTPROV* h, const WCHAR*, const WCHAR*, DWORD type, DWORD flags);
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* p);
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD flags);
LPVOID VirtualAlloc(LPVOID p, SIZE_T n, DWORD type, DWORD prot);
BOOL VirtualFree(LPVOID p, SIZE_T n, DWORD type);
BOOL VirtualLock(LPVOID p, SIZE_T n);
BOOL VirtualUnlock(LPVOID p, SIZE_T n);
void* RtlSecureZeroMemory(void* p, SIZE_T n);
BOOL GetProcessWorkingSetSize(HANDLE, SIZE_T* mn, SIZE_T* mx);
HANDLE GetCurrentProcess();
HANDLE GetCurrentThread();
DWORD GetCurrentProcessId();
DWORD GetCurrentThreadId();
void GetSystemInfo(SYSTEM_INFO*);
BOOL GetComputerName(LPTSTR, DWORD*);
BOOL GetUserName(LPTSTR, DWORD*);
UINT GetDriveType(LPCTSTR);
BOOL GetDiskFreeSpaceEx(LPCTSTR, ULARGE_INTEGER*, ULARGE_INTEGER*, ULARGE_INTEGER*);
void Sleep(DWORD);
BOOL GlobalMemoryStatusEx(MEMORYSTATUSEX*);
BOOL QueryPerformanceCounter(LARGE_INTEGER*);
BOOL QueryPerformanceFrequency(LARGE_INTEGER*);
void GetSystemTimeAsFileTime(FILETIME*);
BOOL GetThreadTimes(HANDLE, FILETIME*, FILETIME*, FILETIME*, FILETIME*);
ULONGLONG GetTickCount64();
DWORD GetLastError();
HANDLE GetProcessHeap();
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T);
BOOL HeapFree(HANDLE, DWORD, LPVOID);
DWORD GetAdaptersInfo(PIP_ADAPTER_INFO, ULONG*);
BOOL GetCursorPos(POINT*);
HANDLE CreateToolhelp32Snapshot(DWORD, DWORD);
BOOL Heap32ListFirst(HANDLE, HEAPLIST32*); BOOL Heap32ListNext(HANDLE, HEAPLIST32*);
BOOL Heap32First(HEAPENTRY32*, DWORD, ULONG_PTR); BOOL Heap32Next(HEAPENTRY32*);
BOOL Module32First(HANDLE, MODULEENTRY32*); BOOL Module32Next(HANDLE, MODULEENTRY32*);
BOOL Process32First(HANDLE, PROCESSENTRY32*); BOOL Process32Next(HANDLE, PROCESSENTRY32*);
BOOL Thread32First(HANDLE, THREADENTRY32*); BOOL Thread32Next(HANDLE, THREADENTRY32*);
DWORD GetLogicalDriveStrings(DWORD, LPTSTR);
BOOL GetModuleHandleEx(DWORD, LPCTSTR, HMODULE*);
BOOL IsWindowsServer(); BOOL IsWindowsVersionOrGreater(WORD, WORD, WORD);
SIZE_T VirtualQueryEx(HANDLE, PVOID, MEMORY_BASIC_INFORMATION*, SIZE_T);
BOOL VirtualProtectEx(HANDLE, PVOID, SIZE_T, DWORD, ULONG*);
LSTATUS RegOpenKeyEx(HKEY, LPCTSTR, DWORD, DWORD, HKEY*);
LSTATUS RegEnumKeyEx(HKEY, DWORD, LPTSTR, DWORD*, DWORD*, LPTSTR, DWORD*, FILETIME*);
LSTATUS RegCloseKey(HKEY);
DWORD GetTcpStatistics(MIB_TCPSTATS*);
BOOL OpenProcessToken(HANDLE, DWORD, HANDLE*);
BOOL GetTokenInformation(HANDLE, int, LPVOID, DWORD, DWORD*);
BOOL IsValidSid(PVOID); BOOL ConvertSidToStringSid(PVOID, LPTSTR*); void* LocalFree(void*); BOOL CloseHandle(HANDLE);

/* cpuid is an input too: its answers are fixed by the harness (winsim.cpp). */
#undef __cpuid
#undef __cpuidex
/* the compiler knows these two names as intrinsics, so they need others */
#define __cpuid sim_cpuid
#define __cpuidex sim_cpuidex
void __cpuid(int32_t* out, int32_t leaf);
void __cpuidex(int32_t* out, int32_t leaf, int32_t sub);
uint64_t sim_tsc();
#define __rdtsc() sim_tsc()
int sim_rdrand64(uint64_t* p); int sim_rdrand32(uint32_t* p); int sim_rdseed64(uint64_t* p); int sim_rdseed32(uint32_t* p);
#define _rdrand64_step(p) sim_rdrand64((uint64_t*)(p))
#define _rdrand32_step(p) sim_rdrand32((uint32_t*)(p))
#define _rdseed64_step(p) sim_rdseed64((uint64_t*)(p))
#define _rdseed32_step(p) sim_rdseed32((uint32_t*)(p))
static inline uint64_t _umul128(uint64_t a, uint64_t b, uint64_t* hi) { unsigned __int128 r = (unsigned __int128)a * b; *hi = (uint64_t)(r >> 64); return (uint64_t)r; }
#undef _rotl
#undef _rotr
#undef _lrotl
#undef _lrotr
static inline uint32_t win_rotl(uint32_t v, int s) { s &= 31; return s ? (v << s) | (v >> (32 - s)) : v; }
static inline uint32_t win_rotr(uint32_t v, int s) { s &= 31; return s ? (v >> s) | (v << (32 - s)) : v; }
static inline uint64_t win_rotl64(uint64_t v, int s) { s &= 63; return s ? (v << s) | (v >> (64 - s)) : v; }
static inline uint64_t win_rotr64(uint64_t v, int s) { s &= 63; return s ? (v >> s) | (v << (64 - s)) : v; }
#define _rotl win_rotl
#define _rotr win_rotr
#define _lrotl win_rotl
#define _lrotr win_rotr
#define _rotl64 win_rotl64
#define _rotr64 win_rotr64

/* malloc.h */
static inline void* win_aligned_malloc(size_t n, size_t a) { void* p = nullptr; return posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n) == 0 ? p : nullptr; }
void* win_aligned_realloc(void* p, size_t n, size_t a);
#define _aligned_realloc win_aligned_realloc
#define _aligned_malloc win_aligned_malloc
#define _aligned_free free
/* io.h */
#define _O_RDWR 2
#define _O_CREAT 0x100
#define _SH_DENYNO 0x40
#define _S_IREAD 0x100
#define _S_IWRITE 0x80
int _sopen_s(int32_t* h, const char* name, int flag, int sh, int mode);
int _chsize(int h, long n);
int _chsize_s(int h, int64_t n);
int _close(int h);

/* winsock */
typedef uintptr_t SOCKET;
#define INVALID_SOCKET ((SOCKET)~0)
#define AF_UNSPEC 0
#define AF_INET 2
#define AF_INET6 23
#define PF_INET AF_INET
#define PF_INET6 AF_INET6
#define SOCK_STREAM 1
#define SOCK_DGRAM 2
#define SOCK_RAW 3
#define SOCK_RDM 4
#define SOCK_SEQPACKET 5
#define IPPROTO_IP 0
#define IPPROTO_ICMP 1
#define IPPROTO_TCP 6
#define IPPROTO_UDP 17
#define IPPROTO_IPV6 41
#define IPPROTO_ICMPV6 58
#define IPPROTO_RAW 255
#define SD_RECEIVE 0
#define SD_SEND 1
#define SD_BOTH 2
#define MSG_OOB 1
#define MSG_PEEK 2
#define MSG_DONTROUTE 4
#define MSG_WAITALL 8
#define MSG_PARTIAL 0x8000
#define SOL_SOCKET 0xffff
#define SO_REUSEADDR 4
#define SO_KEEPALIVE 8
#define SO_BROADCAST 0x20
#define SO_LINGER 0x80
#define SO_SNDTIMEO 0x1005
#define SO_RCVTIMEO 0x1006
#define TCP_NODELAY 1
#define INET_ADDRSTRLEN 22
#define INET6_ADDRSTRLEN 65
#define INADDR_LOOPBACK 0x7f000001
struct in_addr { uint32_t s_addr; }; struct in6_addr { uint8_t s6_addr[16]; };
struct sockaddr { uint16_t sa_family; char sa_data[14]; };
typedef sockaddr* LPSOCKADDR;
struct sockaddr_in { int16_t sin_family; uint16_t sin_port; in_addr sin_addr; char sin_zero[8]; };
struct sockaddr_in6 { int16_t sin6_family; uint16_t sin6_port; uint32_t sin6_flowinfo; in6_addr sin6_addr; uint32_t sin6_scope_id; };
struct sockaddr_storage { uint16_t ss_family; char pad1[6]; int64_t align; char pad2[112]; };
struct addrinfo { int ai_flags, ai_family, ai_socktype, ai_protocol; size_t ai_addrlen; char* ai_canonname; sockaddr* ai_addr; addrinfo* ai_next; };
struct servent { char* s_name; char** s_aliases; char* s_proto; int16_t s_port; };
struct WSADATA { WORD v; };
#define u_long u_long_win
static const struct in6_addr in6addr_linklocalprefix = { { 0xFE, 0x80 } };
SOCKET socket(int af, int type, int proto);
int bind(SOCKET, const sockaddr*, int32_t);
int connect(SOCKET, const sockaddr*, int32_t);
int listen(SOCKET, int);
SOCKET accept(SOCKET, sockaddr*, int32_t*);
int send(SOCKET, const char*, int, int);
int recv(SOCKET, char*, int, int);
int shutdown(SOCKET, int);
int closesocket(SOCKET);
int ioctlsocket(SOCKET, long, u_long*);
int setsockopt(SOCKET, int, int, const char*, int);
int getsockname(SOCKET, sockaddr*, int32_t*);
int getpeername(SOCKET, sockaddr*, int32_t*);
int win_select(int, fd_set*, fd_set*, fd_set*, const timeval*);
#define select win_select
int WSAStartup(WORD, WSADATA*); int WSACleanup(); int WSAGetLastError(); void WSASetLastError(int);
int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**); void freeaddrinfo(addrinfo*);
servent* getservbyname(const char*, const char*);
const char* inet_ntop(int, const void*, char*, size_t); int inet_pton(int, const char*, void*);
INT WSAAddressToStringW(LPSOCKADDR, DWORD, void*, WCHAR*, DWORD*);
#undef htons
#undef ntohs
static inline uint16_t sim_swap16(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
#define htons sim_swap16
#define ntohs sim_swap16
#include "winerr.h"
