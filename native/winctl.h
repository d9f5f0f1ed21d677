/* Controls of the simulated operating system (winsim.cpp).  A harness decides every answer the OS gives. */
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
	/* ---- system random source ---- */
	extern std::function<bool(uint8_t*, size_t)> rng;      /* empty: deterministic counter stream, always succeeds */
	extern std::function<bool()> rngAcquire;               /* empty: succeeds */
	extern uint64_t rngSeed, rngCalls, rngBytes, rngOpenHandles;
	void rngDefault(uint8_t* p, size_t n);
	/* ---- rdrand / rdseed; return false = carry clear ---- */
	extern std::function<bool(uint64_t*, bool /*seed*/)> rdrand;
	extern uint64_t rdrandCalls;
	/* ---- locked pages ---- */
	extern std::function<bool(size_t)> virtualAllocOk;     /* empty: succeeds */
	extern std::function<bool(size_t)> virtualLockOk;
	extern bool lockWorks;                                 /* false (default): page locking is refused, so that secure vectors come from the instrumented heap */
	extern size_t workingSet;                              /* smallest working set in bytes; 0: the query fails */
	struct Page { size_t len; bool locked; };
	extern std::map<uintptr_t, Page> pages;                /* live VirtualAlloc regions */
	extern bool freedDirty;                                /* a region was released while holding non-zero bytes */
	extern uint64_t virtualErrors;                         /* wrong pointer / length given to Virtual* */
	/* ---- other system answers ---- */
	extern uint64_t tsc, clockStep; extern bool clockStuck;   /* the clock advances by clockStep plus a deterministic jitter, or not at all */
	extern std::function<uint64_t()> clock;                /* when set, every clock reading comes from here */
	extern bool rngNullHandle;                             /* the system reports success but gives no handle */
	extern bool sysInfoFails;
	extern bool sysListsFail;                              /* process, module and adapter lists only: their entries hold addresses, which differ from run to run */
	extern uint32_t sysVariant;                            /* changes every system information answer */
	/* ---- cpu ---- */
	bool realSha();                                        /* the machine has the SHA instructions, so that either answer can be simulated */
	struct Cpu { uint32_t logical = 4; uint32_t l1kb = 32, l2kb = 256; bool sha = realSha(); bool avx = true, avx2 = true, aesni = true, pclmul = true, rdrand = true, rdseed = true, rdtscp = true; };
	extern Cpu cpu;
	/* ---- sockets ---- */
	struct NetAddr { int family = 2; uint8_t bytes[16] = {}; uint16_t port = 0; };
	struct NetHooks
	{
		std::function<void(const char*)> call;             /* every call that names a socket: a place where other threads run */
		std::function<int(const char*, const char*, int, std::vector<NetAddr>&)> resolve;   /* host, service, family -> addresses or an error */
		std::function<int(const char*, const char*)> service;   /* port of a service, or -1 */
		std::function<int(int /*want*/)> sendLimit;        /* bytes accepted by one send (<=want), or -code for a WSA error */
		std::function<int(int /*avail*/)> recvLimit;       /* bytes given by one recv (<=avail), or -code */
		std::function<int(const char*)> fail;              /* call name -> WSA error code or 0 */
	};
	extern NetHooks net;
	struct NetStats { uint64_t sends, recvs, bytesSent, bytesRecv, open, badHandle, wouldBlock, closes, lists; };
	extern NetStats netStats;
	void netReset();
	std::string netWire(uint64_t sock);                    /* everything ever sent through this handle */
	bool netIsOpen(uint64_t sock);
	size_t netPending(uint64_t sock);
	uint64_t netPeer(uint64_t sock);
	void netInject(uint64_t sock, const std::string& bytes);/* bytes arriving from the network */
	std::string netOob(uint64_t sock);                     /* bytes that arrived out of band */
	size_t netBacklog(uint64_t sock); bool netReadable(uint64_t sock);
	NetAddr netLocal(uint64_t sock); NetAddr netRemote(uint64_t sock); std::map<int, std::string> netOptions(uint64_t sock);   /* level * 100000 + option */
	uint64_t netCall(const NetAddr& from, const NetAddr& to);   /* a peer outside the library connects */
	void netDrop(uint64_t peer);                           /* ... and closes */
	void netHangup(uint64_t sock);                         /* peer closes */
	extern std::function<void(uint64_t)> onBlock;          /* called when recv / accept / select would block for ever; may inject */
	std::vector<uint64_t> netOpenHandles();
	void reset();                                          /* everything back to defaults */
}
