/* A simulated Windows for the native model-checking build: deterministic unless the harness decides otherwise. */
#include "winsim.h"
#include "winctl.h"
#include <cstdio>
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <sys/select.h>
#include <dlfcn.h>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>

namespace sim
{
	std::function<bool(uint8_t*, size_t)> rng; std::function<bool()> rngAcquire;
	uint64_t rngSeed = 1, rngCalls = 0, rngBytes = 0, rngOpenHandles = 0;
	std::function<bool(uint64_t*, bool)> rdrand; uint64_t rdrandCalls = 0;
	std::function<bool(size_t)> virtualAllocOk, virtualLockOk; bool lockWorks = false; size_t workingSet = 512 * 1024;
	std::map<uintptr_t, Page> pages; bool freedDirty = false; uint64_t virtualErrors = 0;
	uint64_t tsc = 1000, clockStep = 17; bool clockStuck = false; static uint64_t jit = 1; std::function<uint64_t()> clock; bool rngNullHandle = false; static uint64_t tick() { if (sim::clock) return sim::clock(); if (clockStuck) return tsc; jit = jit * 6364136223846793005ULL + 1442695040888963407ULL; return tsc += clockStep + (jit >> 59); } bool sysInfoFails = false, sysListsFail = false; uint32_t sysVariant = 1;
	/* the library asks for the features of the processor while its statics are made */
	__attribute__((init_priority(101))) Cpu cpu;
	NetHooks net; NetStats netStats{}; std::function<void(uint64_t)> onBlock;
	static uint64_t rngState = 0, rdState = 0;
	static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
	void rngDefault(uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (uint8_t)(mix(rngSeed * 0x10001ULL + rngState++) >> 11); }
	void reset()
	{
		rng = nullptr; rngAcquire = nullptr; rngSeed = 1; rngCalls = rngBytes = rngOpenHandles = 0; rngState = 0;
		rdrand = nullptr; rdrandCalls = 0; rdState = 0; virtualAllocOk = nullptr; virtualLockOk = nullptr; lockWorks = false; workingSet = 512 * 1024; freedDirty = false; virtualErrors = 0;
		tsc = 1000; clockStep = 17; clockStuck = false; jit = 1; clock = nullptr; rngNullHandle = false; sysInfoFails = sysListsFail = false; sysVariant = 1; cpu = Cpu(); netReset();
	}
}
using namespace sim;

BOOL CryptAcquireContextW(HCRYPTPROV* h, const WCHAR*, const WCHAR*, DWORD, DWORD) { if (rngAcquire && !rngAcquire()) { return 0; } if (rngNullHandle) { *h = 0; return 1; } *h = 7; ++rngOpenHandles; return 1; }
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* p) { ++rngCalls; if (h != 7) return 0; if (rng) { bool ok = rng(p, n); if (ok) rngBytes += n; return ok; } rngDefault(p, n); rngBytes += n; return 1; }
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD) { if (h == 7 && rngOpenHandles) --rngOpenHandles; return 1; }

static int rd(uint64_t* p, bool seed) { ++rdrandCalls; if (sim::rdrand) return sim::rdrand(p, seed) ? 1 : 0; *p = mix(0xABCD0000ULL + rngSeed * 977 + rdState++); return 1; }
int sim_rdrand64(uint64_t* p) { return rd(p, false); }
int sim_rdseed64(uint64_t* p) { return rd(p, true); }
int sim_rdrand32(uint32_t* p) { uint64_t v = 0; int r = rd(&v, false); if (r) *p = (uint32_t)v; return r; }
int sim_rdseed32(uint32_t* p) { uint64_t v = 0; int r = rd(&v, true); if (r) *p = (uint32_t)v; return r; }
namespace sim { bool realSha() { uint32_t a = 7, b = 0, c = 0, d = 0; __asm__ volatile("cpuid" : "+a"(a), "=b"(b), "+c"(c), "=d"(d)); return (b >> 29) & 1; } }
uint64_t sim_tsc() { return sim::tick(); }

static const size_t PG = 4096;
LPVOID VirtualAlloc(LPVOID, SIZE_T n, DWORD, DWORD)
{
	if (virtualAllocOk && !virtualAllocOk(n)) return nullptr;
	size_t r = (n + PG - 1) / PG * PG; if (r == 0) return nullptr;
	void* p = mmap(nullptr, r, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) return nullptr;
	pages[(uintptr_t)p] = Page{ r, false }; return p;
}
BOOL VirtualFree(LPVOID p, SIZE_T n, DWORD)
{
	auto it = pages.find((uintptr_t)p); if (it == pages.end() || n != 0) { ++virtualErrors; return 0; }
	const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < it->second.len; ++i) if (b[i]) { freedDirty = true; break; }
	munmap(p, it->second.len); pages.erase(it); return 1;
}
BOOL VirtualLock(LPVOID p, SIZE_T n)
{
	if (virtualLockOk ? !virtualLockOk(n) : !lockWorks) return 0;
	auto it = pages.find((uintptr_t)p); if (it == pages.end() || n > it->second.len) { ++virtualErrors; return 0; }
	it->second.locked = true; return 1;
}
BOOL VirtualUnlock(LPVOID p, SIZE_T) { auto it = pages.find((uintptr_t)p); if (it == pages.end()) { ++virtualErrors; return 0; } it->second.locked = false; return 1; }
void* RtlSecureZeroMemory(void* p, SIZE_T n) { volatile uint8_t* b = (volatile uint8_t*)p; while (n--) *b++ = 0; return p; }
BOOL GetProcessWorkingSetSize(HANDLE, SIZE_T* mn, SIZE_T* mx) { if (!workingSet) return 0; *mn = workingSet; *mx = workingSet * 8; return 1; }

HANDLE GetCurrentProcess() { return (HANDLE)-1; }
HANDLE GetCurrentThread() { return (HANDLE)-2; }
DWORD GetCurrentProcessId() { return 1000 + sysVariant; }
DWORD GetCurrentThreadId() { return 2000 + sysVariant; }
void GetSystemInfo(SYSTEM_INFO* s) { std::memset(s, 0, sizeof *s); s->dwPageSize = 4096; s->dwNumberOfProcessors = cpu.logical; s->dwProcessorType = 8664 + sysVariant; }
BOOL GetComputerName(LPTSTR p, DWORD* n) { if (sysInfoFails || *n < 5) return 0; std::wmemcpy(p, L"HOST", 5); p[3] = (wchar_t)(L'A' + sysVariant % 26); *n = 4; return 1; }
BOOL GetUserName(LPTSTR p, DWORD* n) { if (sysInfoFails || *n < 5) return 0; std::wmemcpy(p, L"USER", 5); p[3] = (wchar_t)(L'A' + sysVariant % 26); *n = 5; return 1; }
UINT GetDriveType(LPCTSTR) { return 3; }
BOOL GetDiskFreeSpaceEx(LPCTSTR, ULARGE_INTEGER* a, ULARGE_INTEGER* b, ULARGE_INTEGER* c) { if (sysInfoFails) return 0; if (a) a->QuadPart = 100000 + sysVariant; if (b) b->QuadPart = 200000 + sysVariant; if (c) c->QuadPart = 150000 + sysVariant; return 1; }
void Sleep(DWORD) { tsc += 1000; }
BOOL GlobalMemoryStatusEx(MEMORYSTATUSEX* m) { if (sysInfoFails) return 0; DWORD l = m->dwLength; std::memset(m, 0, sizeof *m); m->dwLength = l; m->dwMemoryLoad = 10 + sysVariant; m->ullTotalPhys = 1ULL << 33; m->ullAvailPhys = (1ULL << 32) + sysVariant; m->ullTotalPageFile = 1ULL << 34; m->ullAvailPageFile = 1ULL << 33; m->ullTotalVirtual = 1ULL << 40; m->ullAvailVirtual = (1ULL << 39) + sysVariant; return 1; }
BOOL QueryPerformanceCounter(LARGE_INTEGER* p) { p->QuadPart = (LONGLONG)sim::tick(); return 1; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER* p) { p->QuadPart = 10000000; return 1; }
void GetSystemTimeAsFileTime(FILETIME* f) { sim::tick(); f->dwLowDateTime = (DWORD)tsc; f->dwHighDateTime = (DWORD)(tsc >> 32); }
BOOL GetThreadTimes(HANDLE, FILETIME* a, FILETIME* b, FILETIME* c, FILETIME* d) { FILETIME z{}; *a = *b = *c = *d = z; return 1; }
ULONGLONG GetTickCount64() { return sim::tick() / 10; }
DWORD GetLastError() { return 5; }
HANDLE GetProcessHeap() { return (HANDLE)1; }
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T n) { return std::malloc(n); }
BOOL HeapFree(HANDLE, DWORD, LPVOID p) { std::free(p); return 1; }
DWORD GetAdaptersInfo(PIP_ADAPTER_INFO p, ULONG* n) { if (sysInfoFails || sysListsFail) return 87; if (p == nullptr || *n < sizeof(IP_ADAPTER_INFO)) { *n = sizeof(IP_ADAPTER_INFO); return ERROR_BUFFER_OVERFLOW; } std::memset(p, 0, sizeof *p); std::strcpy(p->AdapterName, "eth0"); p->Address[0] = (BYTE)sysVariant; return 0; }
BOOL GetCursorPos(POINT* p) { p->x = 3 + (LONG)sysVariant; p->y = 4; return 1; }
HANDLE CreateToolhelp32Snapshot(DWORD, DWORD) { return sysInfoFails || sysListsFail ? (HANDLE)-1 : (HANDLE)99; }
BOOL Heap32ListFirst(HANDLE s, HEAPLIST32* h) { if (s == (HANDLE)-1) return 0; h->th32HeapID = 1; h->th32ProcessID = 1; return 1; } BOOL Heap32ListNext(HANDLE, HEAPLIST32*) { return 0; }
BOOL Heap32First(HEAPENTRY32* h, DWORD, ULONG_PTR) { SIZE_T d = h->dwSize; std::memset(h, 0, sizeof *h); h->dwSize = d; h->dwAddress = 0x1000 + sysVariant; return 1; } BOOL Heap32Next(HEAPENTRY32*) { return 0; }
BOOL Module32First(HANDLE s, MODULEENTRY32* m) { if (s == (HANDLE)-1) return 0; DWORD d = m->dwSize; std::memset(m, 0, sizeof *m); m->dwSize = d; m->modBaseSize = 4096 + sysVariant; std::wmemcpy(m->szExePath, L"C:\\a.exe", 9); return 1; } BOOL Module32Next(HANDLE, MODULEENTRY32*) { return 0; }
BOOL Process32First(HANDLE s, PROCESSENTRY32* m) { if (s == (HANDLE)-1) return 0; DWORD d = m->dwSize; std::memset(m, 0, sizeof *m); m->dwSize = d; m->th32ProcessID = 40 + sysVariant; std::wmemcpy(m->szExeFile, L"a.exe", 6); return 1; } BOOL Process32Next(HANDLE, PROCESSENTRY32*) { return 0; }
BOOL Thread32First(HANDLE s, THREADENTRY32* m) { if (s == (HANDLE)-1) return 0; DWORD d = m->dwSize; std::memset(m, 0, sizeof *m); m->dwSize = d; m->th32ThreadID = 41 + sysVariant; return 1; } BOOL Thread32Next(HANDLE, THREADENTRY32*) { return 0; }
DWORD GetLogicalDriveStrings(DWORD n, LPTSTR p) { if (sysInfoFails || n < 5) return 0; std::wmemcpy(p, L"C:\\\0\0", 5); return 4; }
BOOL GetModuleHandleEx(DWORD, LPCTSTR, HMODULE* h) { *h = (HMODULE)1; return 1; }
BOOL IsWindowsServer() { return 0; } BOOL IsWindowsVersionOrGreater(WORD a, WORD, WORD) { return a <= 10; }
SIZE_T VirtualQueryEx(HANDLE, PVOID, MEMORY_BASIC_INFORMATION*, SIZE_T) { return 0; }
BOOL VirtualProtectEx(HANDLE, PVOID, SIZE_T, DWORD, ULONG*) { return 0; }
LSTATUS RegOpenKeyEx(HKEY, LPCTSTR, DWORD, DWORD, HKEY*) { return 2; }
LSTATUS RegEnumKeyEx(HKEY, DWORD, LPTSTR, DWORD*, DWORD*, LPTSTR, DWORD*, FILETIME*) { return 259; }
LSTATUS RegCloseKey(HKEY) { return 0; }
DWORD GetTcpStatistics(MIB_TCPSTATS* m) { std::memset(m, 0, sizeof *m); m->v[0] = sysVariant; return sysInfoFails ? 87 : 0; }
BOOL OpenProcessToken(HANDLE, DWORD, HANDLE*) { return 0; }
BOOL GetTokenInformation(HANDLE, int, LPVOID, DWORD, DWORD*) { return 0; }
BOOL IsValidSid(PVOID) { return 0; } BOOL ConvertSidToStringSid(PVOID, LPTSTR*) { return 0; } void* LocalFree(void* p) { return nullptr; } BOOL CloseHandle(HANDLE) { return 1; }

void __cpuid(int32_t* o, int32_t leaf) { __cpuidex(o, leaf, 0); }
void __cpuidex(int32_t* o, int32_t leaf, int32_t sub)
{
	uint32_t a = 0, b = 0, c = 0, d = 0; const Cpu& u = cpu;
	switch ((uint32_t)leaf)
	{
	case 0: a = 0x16; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; break;                 /* GenuineIntel */
	case 1: a = 0x000506E3; b = (u.logical << 16); c = (1u << 0) | (1u << 9) | (1u << 19) | (1u << 20) | (1u << 27) | (1u << 26);
		if (u.avx) c |= (1u << 28); if (u.aesni) c |= (1u << 25); if (u.pclmul) c |= (1u << 1); if (u.rdrand) c |= (1u << 30);
		d = (1u << 4) | (1u << 25) | (1u << 26) | (1u << 28); break;
	case 4: if (sub < 3) { uint32_t kb = sub == 2 ? u.l2kb : u.l1kb; a = (sub == 0 ? 1u : sub == 1 ? 2u : 3u) | ((sub == 2 ? 2u : 1u) << 5) | ((u.logical / 2 ? u.logical / 2 - 1 : 0) << 26); b = (7u << 22) | 63u; c = kb * 1024 / (8 * 64) - 1; } break;
	case 7: if (sub == 0) { if (u.avx2) b |= (1u << 5); if (u.sha) b |= (1u << 29); if (u.rdseed) b |= (1u << 18); b |= (1u << 3) | (1u << 8); } break;
	case 11: if (sub == 0) { b = 1; } else if (sub == 1) { b = u.logical; } a = 1; break;
	case 0x16: a = 2000; b = 3000; c = 100; break;
	case 0x80000000: a = 0x80000008; break;
	case 0x80000001: if (u.rdtscp) d |= (1u << 27); break;
	case 0x80000006: c = (u.l2kb << 16) | (8u << 12) | 64u; break;
	default: break;
	}
	o[0] = (int32_t)a; o[1] = (int32_t)b; o[2] = (int32_t)c; o[3] = (int32_t)d;
}
void* win_aligned_realloc(void* p, size_t n, size_t a) { void* q = win_aligned_malloc(n, a); if (p && q) { std::memcpy(q, p, n); free(p); } return q; }
int _sopen_s(int32_t* h, const char* name, int, int, int) { int f = ::open(name, O_RDWR | O_CREAT, 0600); *h = f; return f < 0 ? errno : 0; }
int _chsize(int h, long n) { return ::ftruncate(h, n); }
int _chsize_s(int h, int64_t n) { return ::ftruncate(h, n) == 0 ? 0 : errno; }
int _close(int h) { return ::close(h); }

/* ------------------------------------------------------------------ sockets: a loopback network in memory */
namespace
{
	struct Sk { bool open = true, listening = false, connected = false, hungup = false, nonblock = false; uint64_t peer = 0; NetAddr local, remote; int family = AF_INET, type = 1; bool bound = false; bool shutR = false, shutW = false; std::deque<uint8_t> in; std::deque<uint64_t> backlog; std::string wire, oob; std::map<int, std::string> opts; };
	std::map<uint64_t, Sk> g_sk; uint64_t g_next = 100; int g_err = 0; uint16_t g_eph = 40000; int g_wsa = 0;
	Sk* peek(uint64_t s) { auto i = g_sk.find(s); return i == g_sk.end() || !i->second.open ? nullptr : &i->second; }
	Sk* get(uint64_t s, const char* n) { if (net.call) net.call(n); if (Sk* k = peek(s)) return k; ++netStats.badHandle; g_err = WSAENOTSOCK; return nullptr; }
	int inj(const char* n) { if (net.fail) { int c = net.fail(n); if (c) { g_err = c; return 1; } } return 0; }
	bool toAddr(const sockaddr* a, int32_t n, NetAddr& r) { r = NetAddr(); r.family = a->sa_family; if (r.family == AF_INET && n >= 16) { auto v = (const sockaddr_in*)a; r.port = sim_swap16(v->sin_port); std::memcpy(r.bytes, &v->sin_addr, 4); return true; } if (r.family == AF_INET6 && n >= 28) { auto v = (const sockaddr_in6*)a; r.port = sim_swap16(v->sin6_port); std::memcpy(r.bytes, &v->sin6_addr, 16); return true; } g_err = WSAEFAULT; return false; }
	bool fromAddr(const NetAddr& r, sockaddr* a, int32_t* n)
	{
		int need = r.family == AF_INET6 ? 28 : 16; if (!a || !n || *n < need) { g_err = WSAEFAULT; return false; }
		if (need == 28) { sockaddr_in6 v{}; v.sin6_family = AF_INET6; v.sin6_port = sim_swap16(r.port); std::memcpy(&v.sin6_addr, r.bytes, 16); std::memcpy(a, &v, 28); } else { sockaddr_in v{}; v.sin_family = AF_INET; v.sin_port = sim_swap16(r.port); std::memcpy(&v.sin_addr, r.bytes, 4); std::memcpy(a, &v, 16); }
		*n = need; return true;
	}
	bool anyAddr(const NetAddr& a) { for (int i = 0; i < 16; ++i) if (a.bytes[i]) return false; return true; }
	NetAddr ownAddr(int family) { NetAddr a; a.family = family; if (family == AF_INET) { const uint8_t v[4] = { 10, 1, 2, 3 }; std::memcpy(a.bytes, v, 4); } else { a.bytes[0] = 0xFE; a.bytes[1] = 0x80; a.bytes[15] = 0x77; } return a; }
}
namespace sim
{
	void netReset() { g_sk.clear(); g_next = 100; g_err = 0; g_eph = 40000; g_wsa = 0; net = NetHooks(); netStats = NetStats{}; onBlock = nullptr; }
	std::string netWire(uint64_t s) { return g_sk[s].wire; }
	std::string netOob(uint64_t s) { return g_sk[s].oob; }
	bool netIsOpen(uint64_t s) { return g_sk.count(s) && g_sk[s].open; }
	size_t netPending(uint64_t s) { return g_sk[s].in.size(); }
	size_t netBacklog(uint64_t s) { return g_sk.count(s) ? g_sk[s].backlog.size() : 0; }
	bool netReadable(uint64_t s) { Sk* k = peek(s); return !k || !k->in.empty() || k->hungup || k->shutR || !k->backlog.empty(); }
	uint64_t netPeer(uint64_t s) { return g_sk.count(s) ? g_sk[s].peer : 0; }
	NetAddr netLocal(uint64_t s) { return g_sk[s].local; } NetAddr netRemote(uint64_t s) { return g_sk[s].remote; }
	std::map<int, std::string> netOptions(uint64_t s) { return g_sk[s].opts; }
	void netInject(uint64_t s, const std::string& b) { for (char c : b) g_sk[s].in.push_back((uint8_t)c); }
	void netHangup(uint64_t s) { g_sk[s].hungup = true; }
	std::vector<uint64_t> netOpenHandles() { std::vector<uint64_t> v; for (auto& k : g_sk) if (k.second.open) v.push_back(k.first); return v; }
	/* a peer outside the library connects to a listener; returns the peer's own handle, 0 if nobody listens */
	uint64_t netCall(const NetAddr& from, const NetAddr& to)
	{
		for (auto& l : g_sk) if (l.second.open && l.second.listening && l.second.local.family == to.family && l.second.local.port == to.port && (anyAddr(l.second.local) || std::memcmp(l.second.local.bytes, to.bytes, 16) == 0))
		{
			uint64_t c = g_next++, h = g_next++; Sk n; n.family = to.family; n.connected = n.bound = true; n.peer = c; n.local = to; n.remote = from; Sk m = n; m.peer = h; m.local = from; m.remote = to; g_sk[h] = n; g_sk[c] = m; l.second.backlog.push_back(h); return c;
		}
		return 0;
	}
	void netDrop(uint64_t peer) { Sk* k = peek(peer); if (!k) return; k->open = false; auto pe = g_sk.find(k->peer); if (pe != g_sk.end()) pe->second.hungup = true; }
}
SOCKET socket(int af, int type, int) { if (net.call) net.call("socket"); if (inj("socket")) return INVALID_SOCKET; uint64_t h = g_next++; g_sk[h] = Sk(); g_sk[h].family = af; g_sk[h].type = type; g_sk[h].local.family = af; ++netStats.open; return h; }
int bind(SOCKET s, const sockaddr* a, int32_t n) { Sk* k = get(s, "bind"); if (!k) return -1; NetAddr r; if (inj("bind") || !toAddr(a, n, r)) return -1; if (r.family != k->family) { g_err = WSAEFAULT; return -1; } k->local = r; k->bound = true; return 0; }
int listen(SOCKET s, int) { Sk* k = get(s, "listen"); if (!k) return -1; if (inj("listen")) return -1; k->listening = true; return 0; }
int connect(SOCKET s, const sockaddr* a, int32_t n)
{
	Sk* k = get(s, "connect"); if (!k) return -1; if (inj("connect")) return -1; NetAddr r; if (!toAddr(a, n, r)) return -1; if (k->connected) { g_err = WSAEISCONN; return -1; }
	if (r.family != k->family) { g_err = WSAEAFNOSUPPORT; return -1; }
	if (k->type == 2) { k->local = ownAddr(k->family); k->remote = r; k->connected = true; return 0; }
	for (auto& l : g_sk) if (l.second.open && l.second.listening && l.second.local.family == r.family && l.second.local.port == r.port && (anyAddr(l.second.local) || std::memcmp(l.second.local.bytes, r.bytes, 16) == 0))
	{
		if (!k->bound) { k->local = ownAddr(k->family); k->local.port = ++g_eph; } k->connected = true; k->remote = r;
		uint64_t h = g_next++; Sk m; m.family = k->family; m.connected = true; m.peer = s; m.local = r; m.remote = k->local; m.bound = true; g_sk[h] = m;
		g_sk[s].peer = h; l.second.backlog.push_back(h); return 0;
	}
	g_err = WSAECONNREFUSED; return -1;
}
SOCKET accept(SOCKET s, sockaddr* a, int32_t* n)
{
	Sk* k = get(s, "accept"); if (!k) return INVALID_SOCKET; if (inj("accept")) return INVALID_SOCKET; if (!k->listening) { g_err = WSAEINVAL; return INVALID_SOCKET; }
	if (k->backlog.empty()) { ++netStats.wouldBlock; if (onBlock && !k->nonblock) onBlock(s); k = peek(s); if (!k) { g_err = WSAEINTR; return INVALID_SOCKET; } if (k->backlog.empty()) { g_err = WSAEWOULDBLOCK; return INVALID_SOCKET; } }
	uint64_t h = k->backlog.front(); if (a && !fromAddr(g_sk[h].remote, a, n)) return INVALID_SOCKET;
	k->backlog.pop_front(); ++netStats.open; return h;
}
int send(SOCKET s, const char* p, int n, int flags)
{
	Sk* k = get(s, "send"); if (!k) return -1; ++netStats.sends; if (k->shutW) { g_err = WSAESHUTDOWN; return -1; } if (!k->connected) { g_err = WSAENOTCONN; return -1; } if (inj("send")) return -1;
	auto pe = g_sk.find(k->peer); if (pe == g_sk.end() || !pe->second.open) { g_err = WSAECONNRESET; return -1; }
	int m = n; if (net.sendLimit) { m = net.sendLimit(n); if (m < 0) { g_err = -m; return -1; } if (m > n) m = n; }
	netStats.bytesSent += (uint64_t)m; int r = m; if ((flags & 1) && m == n && m > 0) { --m; pe->second.oob.push_back(p[m]); }   /* the last byte goes out of band */
	k->wire.append(p, (size_t)m); for (int i = 0; i < m; ++i) pe->second.in.push_back((uint8_t)p[i]); return r;
}
int recv(SOCKET s, char* p, int n, int flags)
{
	Sk* k = get(s, "recv"); if (!k) return -1; ++netStats.recvs; if (inj("recv")) return -1; if (!k->connected) { g_err = WSAENOTCONN; return -1; } if (k->shutR) { return 0; }
	if (flags & 1) { if (k->oob.empty()) { g_err = WSAEINVAL; return -1; } if (n > 0) { p[0] = k->oob[0]; k->oob.erase(0, 1); return 1; } return 0; }
	if (k->in.empty() && !k->hungup && n > 0) { ++netStats.wouldBlock; if (onBlock && !k->nonblock) onBlock(s); k = peek(s); if (!k) { g_err = WSAEINTR; return -1; } if (k->shutR) return 0; }
	if (k->in.empty()) { if (k->hungup || n == 0) return 0; g_err = WSAEWOULDBLOCK; return -1; }
	int m = n < (int)k->in.size() ? n : (int)k->in.size(); if (net.recvLimit) { int q = net.recvLimit(m); if (q < 0) { g_err = -q; return -1; } if (q < m) m = q; }
	for (int i = 0; i < m; ++i) { p[i] = (char)k->in[(size_t)i]; } if (!(flags & MSG_PEEK)) k->in.erase(k->in.begin(), k->in.begin() + m);
	netStats.bytesRecv += (uint64_t)m; return m;
}
int shutdown(SOCKET s, int how) { Sk* k = get(s, "shutdown"); if (!k) return -1; if (inj("shutdown")) return -1; if (!k->connected) { g_err = WSAENOTCONN; return -1; } if (how == SD_SEND || how == SD_BOTH) { k->shutW = true; auto pe = g_sk.find(k->peer); if (pe != g_sk.end()) pe->second.hungup = true; } if (how == SD_RECEIVE || how == SD_BOTH) k->shutR = true; return 0; }
/* a refused close still ends the handle: the caller can not try again with a handle that may be somebody else's */
int closesocket(SOCKET s) { Sk* k = get(s, "closesocket"); if (!k) return -1; bool bad = inj("closesocket"); k->open = false; auto pe = g_sk.find(k->peer); if (pe != g_sk.end()) pe->second.hungup = true; for (auto h : k->backlog) { g_sk[h].open = false; auto q = g_sk.find(g_sk[h].peer); if (q != g_sk.end()) q->second.hungup = true; } --netStats.open; ++netStats.closes; return bad ? -1 : 0; }
int ioctlsocket(SOCKET s, long, u_long* v) { Sk* k = get(s, "ioctlsocket"); if (!k) return -1; if (inj("ioctlsocket")) return -1; k->nonblock = *v != 0; return 0; }
int setsockopt(SOCKET s, int l, int o, const char* p, int n) { Sk* k = get(s, "setsockopt"); if (!k) return -1; if (inj("setsockopt")) return -1; k->opts[l * 100000 + o] = std::string(p, (size_t)n); return 0; }
int getsockname(SOCKET s, sockaddr* a, int32_t* n) { Sk* k = get(s, "getsockname"); if (!k || inj("getsockname")) return -1; if (!k->bound && !k->connected) { g_err = WSAEINVAL; return -1; } return fromAddr(k->local, a, n) ? 0 : -1; }
int getpeername(SOCKET s, sockaddr* a, int32_t* n) { Sk* k = get(s, "getpeername"); if (!k || inj("getpeername")) return -1; if (!k->connected) { g_err = WSAENOTCONN; return -1; } return fromAddr(k->remote, a, n) ? 0 : -1; }
int win_select(int, fd_set* r, fd_set* w, fd_set* e, const timeval* t)
{
	if (net.call) net.call("select"); if (inj("select")) return -1; uint64_t first = 0; for (fd_set* f : { r, w, e }) if (f) for (int i = 0; i < 1024; ++i) if (FD_ISSET(i, f)) { if (!peek((uint64_t)i)) { ++netStats.badHandle; g_err = WSAENOTSOCK; return -1; } if (!first) first = (uint64_t)i; }
	auto eval = [&](bool commit) { int c = 0; for (int i = 0; i < 1024; ++i) { if (r && FD_ISSET(i, r)) { if (netReadable((uint64_t)i)) ++c; else if (commit) FD_CLR(i, r); } if (w && FD_ISSET(i, w)) { Sk* k = peek((uint64_t)i); if (k && k->connected && !k->shutW) ++c; else if (commit) FD_CLR(i, w); } if (e && FD_ISSET(i, e)) { Sk* k = peek((uint64_t)i); if (k && !k->oob.empty()) ++c; else if (commit) FD_CLR(i, e); } } return c; };
	if (eval(false) == 0 && (!t || t->tv_sec || t->tv_usec)) { ++netStats.wouldBlock; if (onBlock) onBlock(first); }
	return eval(true);
}
int WSAStartup(WORD, WSADATA*) { if (net.fail) { int c = net.fail("WSAStartup"); if (c) return c; } ++g_wsa; return 0; } int WSACleanup() { --g_wsa; return 0; } int WSAGetLastError() { return g_err; } void WSASetLastError(int e) { g_err = e; }
int getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** r)
{
	*r = nullptr; std::vector<NetAddr> v; if (!net.resolve) return 11001; int c = net.resolve(host, service, hints ? hints->ai_family : 0, v); if (c) return c; if (v.empty()) return 11004;
	addrinfo** at = r; for (auto& x : v) { addrinfo* n = (addrinfo*)calloc(1, sizeof(addrinfo)); n->ai_family = x.family; n->ai_socktype = 1; n->ai_protocol = 6; n->ai_addrlen = x.family == AF_INET6 ? 28 : 16; n->ai_addr = (sockaddr*)calloc(1, n->ai_addrlen); int32_t len = 128; fromAddr(x, n->ai_addr, &len); *at = n; at = &n->ai_next; } ++netStats.lists; return 0;
}
void freeaddrinfo(addrinfo* a) { if (!a) return; --netStats.lists; while (a) { addrinfo* n = a->ai_next; free(a->ai_addr); free(a); a = n; } }
servent* getservbyname(const char* n, const char* p) { static servent s; int v = net.service ? net.service(n, p) : -1; if (v < 0) return nullptr; s.s_port = (int16_t)sim_swap16((uint16_t)v); return &s; }
const char* inet_ntop(int af, const void* p, char* d, size_t n) { static auto f = (const char* (*)(int, const void*, char*, unsigned))dlsym(RTLD_NEXT, "inet_ntop"); return f(af == AF_INET ? 2 : 10, p, d, (unsigned)n); }
int inet_pton(int af, const char* s, void* d) { static auto f = (int (*)(int, const char*, void*))dlsym(RTLD_NEXT, "inet_pton"); return f(af == AF_INET ? 2 : 10, s, d); }
INT WSAAddressToStringW(LPSOCKADDR, DWORD, void*, WCHAR*, DWORD*) { g_err = WSAEFAULT; return -1; }
