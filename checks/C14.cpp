// MC-VARIANT: asan
// MC-LINK: -Wl,--wrap=calloc -Wl,--wrap=free
// MC-TECHNIQUE: explicit-choice model checking of the implementation: every sequence of pool, allocator, vector and helper operations up to a depth, with the page-lock, page-allocation and heap calls failing at every point, is executed and compared after each step with an interval / byte-array model
// Secure containers and allocators behave as containers and wipe what they free.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <utility>
#include <vector>
#define private public
#include "LockingAllocator.h"
#undef private
#include "checks/common.h"
#include "MemoryPool.h"
#include "SecureMemory.h"
#include "SecureVector.h"
using Tools::LockingAllocator; using Tools::MemoryPool; using CEX::SecureMemory; using Exception::CryptoException;
const char* const MC_PROPERTY = "C14";

/* ---- the heap below the allocator: every block it takes is watched, may be refused, and must come back wiped ---- */
extern "C" { void* __real_calloc(size_t, size_t); void __real_free(void*); void* __wrap_calloc(size_t, size_t); void __wrap_free(void*); }
static bool g_watch = false; static std::function<bool(size_t)> g_heapOk; static std::map<uintptr_t, size_t>* g_heap; static int g_dirty = 0, g_unknown = 0;
extern "C" void* __wrap_calloc(size_t n, size_t e)
{
	if (!g_watch) return __real_calloc(n, e);
	size_t t; if (__builtin_mul_overflow(n, e, &t) || t > (size_t)1 << 30) return nullptr;
	if (g_heapOk && !g_heapOk(t)) return nullptr;
	void* p = __real_calloc(n, e); (*g_heap)[(uintptr_t)p] = t; return p;
}
extern "C" void __wrap_free(void* p)
{
	if (g_watch && p) { auto it = g_heap->find((uintptr_t)p); if (it == g_heap->end()) { bool paged = false; for (auto& pg : sim::pages) if ((uintptr_t)p >= pg.first && (uintptr_t)p < pg.first + pg.second.len) paged = true; if (paged) { ++g_unknown; return; } } else { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < it->second; ++i) if (b[i]) { ++g_dirty; break; } g_heap->erase(it); } }
	__real_free(p);
}
/* the singleton is rebuilt for every execution, under the failures chosen for it */
struct World
{
	bool alive = true; size_t lockable = 0;
	World(size_t poolBytes, bool allocOk, bool lockOk, bool query = true)
	{
		sim::reset(); if (!g_heap) g_heap = new std::map<uintptr_t, size_t>; g_heap->clear(); g_dirty = g_unknown = 0; g_heapOk = nullptr;
		LockingAllocator::Instance().~LockingAllocator(); sim::virtualErrors = 0; sim::freedDirty = false;
		sim::workingSet = query ? poolBytes + 11 * 4096 : 0; sim::virtualAllocOk = [allocOk](size_t) { return allocOk; }; sim::virtualLockOk = [lockOk](size_t) { return lockOk; };
		new (&LockingAllocator::Instance()) LockingAllocator(); g_watch = true; lockable = allocOk && lockOk ? (query ? poolBytes : 512 * 1024) : 0;
	}
	void health(const char* when) { MC_CHECK(g_dirty == 0, "heap-dirty", "%s: a block went back to the system heap with its contents", when); MC_CHECK(g_unknown == 0, "free-foreign", "%s: storage of the locked pages was given to the system heap", when); MC_CHECK(sim::virtualErrors == 0, "page-call", "%s: wrong page address or length", when); MC_CHECK(!sim::freedDirty, "page-dirty", "%s: locked pages went back to the system with contents", when); }
	void end(const char* when)
	{
		if (!alive) return; alive = false; health(when); MC_CHECK(g_heap->empty(), "heap-lost", "%s: %zu heap blocks are still held after everything was freed", when, g_heap->size());
		for (auto& p : sim::pages) { const uint8_t* b = (const uint8_t*)p.first; for (size_t i = 0; i < p.second.len; ++i) MC_CHECK(b[i] == 0, "pool-dirty", "%s: byte %zu of the locked pages is not wiped though everything was freed", when, i); }
		LockingAllocator::Instance().~LockingAllocator(); MC_CHECK(sim::virtualErrors == 0 && !sim::freedDirty && sim::pages.empty(), "page-release", "%s: the pages were not released cleanly (errors %llu, dirty %d, live %zu)", when, (unsigned long long)sim::virtualErrors, (int)sim::freedDirty, sim::pages.size());
		rebuild();
	}
	void rebuild() { g_watch = false; g_heapOk = nullptr; sim::reset(); new (&LockingAllocator::Instance()) LockingAllocator(); }
	~World() { if (alive) { g_watch = false; LockingAllocator::Instance().~LockingAllocator(); for (auto it = sim::pages.begin(); it != sim::pages.end(); it = sim::pages.begin()) { std::memset((void*)it->first, 0, it->second.len); CEX::SecureMemory::Free((void*)it->first, it->second.len); } rebuild(); } }
};
static bool inPages(const void* p, size_t n, bool locked) { for (auto& g : sim::pages) if ((uintptr_t)p >= g.first && (uintptr_t)p + n <= g.first + g.second.len) return !locked || g.second.locked; return false; }

/* ---- a block handed out, with the pattern written to it ---- */
struct Blk { uint8_t* p; size_t n, elems, elem; uint8_t tag; };
static void fill(Blk& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = (uint8_t)(b.tag * 37 + i * 11 + 1) | 1; }
static bool holds(const Blk& b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != ((uint8_t)(b.tag * 37 + i * 11 + 1) | 1)) return false; return true; }
static void checkAll(const std::vector<Blk>& live) { for (auto& b : live) MC_CHECK(holds(b), "contents", "a block of %zu bytes changed while it was held", b.n); }
static void disjoint(const std::vector<Blk>& live, const uint8_t* p, size_t n) { for (auto& b : live) MC_CHECK(p + n <= b.p || b.p + b.n <= p, "overlap", "a new block of %zu bytes overlaps one of %zu bytes that is still held", n, b.n); }

static void poolJob(size_t size, uint8_t ab, int depth)
{
	size_t al = (size_t)1 << ab, mn = 16, mx = size < 80 ? size : 80; uint8_t* base = (uint8_t*)std::aligned_alloc(64, (size + 63) / 64 * 64); std::unique_ptr<uint8_t, void (*)(void*)> own(base, [](void* q) { std::free(q); });
	for (size_t i = 0; i < (size + 63) / 64 * 64; ++i) base[i] = 0xEE;
	MemoryPool pool(base, size, 4096, mn, mx, ab); std::vector<Blk> live; std::vector<size_t> sizes{ mn - 1, mn, mn + 1, 24, 32, 48, mx, mx + 1 }; if (size == mx) sizes.push_back(size - 8);
	for (int d = 0; d < depth; ++d)
	{
		int nop = (int)(sizes.size() + live.size() + 2), op = mc::choose(nop);
		if (op < (int)sizes.size())
		{
			size_t n = sizes[(size_t)op]; bool fits = false;
			if (n >= mn && n <= mx && n <= size) for (size_t o = 0; o + n <= size && !fits; o += al) { bool clash = false; for (auto& b : live) if (base + o < b.p + b.n && b.p < base + o + n) clash = true; fits = !clash; }
			uint8_t* p = (uint8_t*)pool.Allocate(n); MC_OP("allocate %zu -> %td", n, p ? p - base : -1);
			MC_CHECK((p != nullptr) == fits, "pool-capacity", "allocating %zu bytes from a pool of %zu: %s although the free space %s", n, size, p ? "granted" : "refused", fits ? "holds it" : "does not allow it");
			if (p)
			{
				MC_CHECK(p >= base && p + n <= base + size, "pool-bounds", "a block of %zu bytes lies outside of the pool", n); MC_CHECK((uintptr_t)p % al == 0, "pool-align", "a block of %zu bytes at offset %td is not aligned to %zu", n, p - base, al); disjoint(live, p, n);
				for (size_t i = 0; i < n; ++i) MC_CHECK(p[i] == 0, "pool-zero", "a new block holds old contents");
				live.push_back(Blk{ p, n, n, 1, (uint8_t)(d + 1) }); fill(live.back());
			}
		}
		else if (op < (int)(sizes.size() + live.size()))
		{
			size_t i = (size_t)op - sizes.size(); Blk b = live[i]; live.erase(live.begin() + (ptrdiff_t)i); MC_OP("free %zu bytes at %td", b.n, b.p - base); MC_CHECK(pool.Deallocate(b.p, b.n), "pool-free", "the pool does not take its own block back");
			for (size_t k = 0; k < b.n; ++k) MC_CHECK(b.p[k] == 0, "pool-wipe", "byte %zu of a freed block still holds its contents", k);
		}
		else if (op == (int)(sizes.size() + live.size()))
		{
			uint8_t other[64]; std::memset(other, 0x77, sizeof other); MC_OP("free something else");
			MC_CHECK(!pool.Deallocate(other, 32), "pool-foreign", "the pool accepted a block it does not own"); for (uint8_t c : other) MC_CHECK(c == 0x77, "pool-foreign", "the pool changed a block it does not own");
			MC_CHECK(!pool.Deallocate(base + size, 16) && !pool.Deallocate(base - 16, 16), "pool-foreign", "the pool accepted a block beside its storage");
		}
		else { pool.Reset(); MC_OP("reset"); live.clear(); for (size_t i = 0; i < size; ++i) MC_CHECK(base[i] == 0, "pool-reset", "the pool keeps contents over a reset"); }
		checkAll(live); std::string st; for (auto& b : live) st += std::to_string(b.p - base) + ":" + std::to_string(b.n) + ","; mc::state(mc::hash(st));
	}
	for (size_t i = size; i < (size + 63) / 64 * 64; ++i) MC_CHECK(base[i] == 0xEE, "pool-bounds", "the pool wrote beyond its storage"); mc::outcome(live.size());
}

/* ---- the allocator under the vectors ---- */
static void allocatorJob(int world, int depth)
{
	bool aok = world != 1, lok = world != 2; World w(4096, aok, lok); std::vector<Blk> live; uint8_t tag = 1;
	auto take = [&](size_t n, size_t e, bool mayFail) -> bool
	{
		uint8_t* p = nullptr; bool threw = false; try { p = (uint8_t*)LockingAllocator::Allocate(n, e); } catch (CryptoException&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
		MC_OP("allocate %zu x %zu -> %s", n, e, threw ? "exception" : inPages(p, n * e, false) ? "page" : "heap");
		if (threw) { MC_CHECK(mayFail, "alloc-refused", "an allocation of %zu bytes was refused while memory is available", n * e); return false; }
		MC_CHECK(p != nullptr, "alloc-null", "a null pointer was returned as %zu bytes of storage", n * e); size_t t = n * e; disjoint(live, p, t);
		if (inPages(p, 1, false)) { MC_CHECK(inPages(p, t, true), "page-unlocked", "a block of %zu bytes leaves the locked pages", t); } else { auto it = g_heap->find((uintptr_t)p); MC_CHECK(it != g_heap->end() && it->second >= t, "alloc-size", "%zu bytes were asked for, the heap gave %zu", t, it == g_heap->end() ? 0 : it->second); }
		MC_CHECK((uintptr_t)p % (t >= 16 ? 16 : 8) == 0, "alloc-align", "a block of %zu bytes is not aligned", t); for (size_t i = 0; i < t; ++i) MC_CHECK(p[i] == 0, "alloc-zero", "new storage holds old contents");
		live.push_back(Blk{ p, t, n, e, tag++ }); fill(live.back()); return true;
	};
	auto give = [&](size_t i) { Blk b = live[i]; live.erase(live.begin() + (ptrdiff_t)i); bool pg = inPages(b.p, b.n, false); LockingAllocator::Deallocate(b.p, b.elems, b.elem); if (mc::g_verbose) mc::note("free %zu", b.n); if (pg) for (size_t k = 0; k < b.n; ++k) MC_CHECK(b.p[k] == 0, "free-dirty", "byte %zu of a freed block still holds its contents", k); };
	int pre = mc::choose(3); for (int i = 0; i < (pre == 0 ? 0 : pre == 1 ? 31 : 32); ++i) { take(128, 1, false); if (w.lockable) MC_CHECK(inPages(live.back().p, 128, true), "page-unused", "the locked pages have room but block %d of 128 bytes came from the heap", i); }
	size_t fixed = live.size() > 2 ? live.size() - 2 : 0;      /* only the last blocks may be freed again */
	int budget = 0; g_heapOk = [&budget](size_t) { if (mc::deviate(2) == 1) { ++budget; return false; } return true; };
	static const size_t SZ[][2] = { { 8, 1 }, { 16, 1 }, { 3, 8 }, { 32, 4 }, { 129, 1 }, { 100, 8 }, { 15, 8 } };
	for (int d = 0; d < depth; ++d)
	{
		int cand = (int)(live.size() - fixed), op = mc::choose(7 + cand + 1);
		if (op < 7) { int before = budget; bool ok = take(SZ[op][0], SZ[op][1], true); MC_CHECK(ok || budget > before, "alloc-refused", "an allocation failed although neither the pages nor the heap refused it"); }
		else if (op < 7 + cand) give(fixed + (size_t)(op - 7));
		else { bool threw = false; void* p = nullptr; try { p = LockingAllocator::Allocate((size_t)1 << 61, 16); } catch (CryptoException&) { threw = true; } catch (std::bad_alloc&) { threw = true; } MC_OP("overflowing request"); MC_CHECK(threw && !p, "alloc-overflow", "a request whose byte count does not fit was granted"); }
		checkAll(live); w.health("after an operation"); mc::state(mc::combine((uint64_t)live.size(), mc::combine((uint64_t)op, (uint64_t)pre)));
	}
	while (!live.empty()) { give(live.size() - 1); checkAll(live); } w.end("at the end"); mc::outcome(mc::combine((uint64_t)budget, sim::pages.size()));
}

/* ---- secure vectors against plain vectors ---- */
template <class T> void vectorJob(int world, int depth)
{
	World w(4096, true, world != 0); std::vector<void*> held; if (world == 2) for (int i = 0; i < 31; ++i) { held.push_back(LockingAllocator::Allocate(128, 1)); }
	{
		SecureVector<T> s[2]; std::vector<T> m[2]; T next = 1; int failed = 0; g_heapOk = [&failed](size_t) { if (mc::deviate(2) == 1) { ++failed; return false; } return true; };
		auto nv = [&] { next = (T)(next * 3 + 0x11); return (T)(next | 1); };
		const size_t A = 16 / sizeof(T), B = 128 / sizeof(T) + 1;
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(13), f0 = failed; SecureVector<T> before0 = SecureVector<T>(); std::vector<T> keep[2] = { m[0], m[1] }; T v = nv(); bool threw = false; MC_OP("operation %d", op);
			try
			{
				switch (op)
				{
				case 0: s[0].push_back(v); m[0].push_back(v); break;
				case 1: s[0].resize(A + 1, v); m[0].resize(A + 1, v); break;
				case 2: s[0].resize(B, v); m[0].resize(B, v); break;
				case 3: s[0].assign(A, v); m[0].assign(A, v); break;
				case 4: s[0].insert(s[0].begin() + (ptrdiff_t)(s[0].size() / 2), 3, v); m[0].insert(m[0].begin() + (ptrdiff_t)(m[0].size() / 2), 3, v); break;
				case 5: if (s[0].size() > 2) { s[0].erase(s[0].begin() + 1, s[0].end() - 1); m[0].erase(m[0].begin() + 1, m[0].end() - 1); } break;
				case 6: s[0].reserve(2 * A); break;
				case 7: s[0].shrink_to_fit(); break;
				case 8: s[1] = s[0]; m[1] = m[0]; break;
				case 9: s[1] = std::move(s[0]); s[0].clear(); m[1] = m[0]; m[0].clear(); break;
				case 10: std::swap(s[0], s[1]); std::swap(m[0], m[1]); break;
				case 11: s[0].clear(); m[0].clear(); break;
				default: { SecureVector<T> c(s[0]); c.insert(c.end(), s[1].begin(), s[1].end()); s[0] = c; std::vector<T> e(m[0]); e.insert(e.end(), m[1].begin(), m[1].end()); m[0] = e; break; }
				}
			}
			catch (CryptoException&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
			MC_CHECK(!threw || failed > f0, "vector-refused", "operation %d failed although no system call did", op);
			if (threw) { m[0] = keep[0]; m[1] = keep[1]; MC_CHECK(op != 9 && op != 10 && op != 11, "vector-refused", "operation %d cannot fail", op); }
			for (int i = 0; i < 2; ++i) MC_CHECK(s[i].size() == m[i].size() && std::equal(m[i].begin(), m[i].end(), s[i].begin()), "vector-contents", "vector %d differs from a plain vector after operation %d%s", i, op, threw ? " whose allocation was refused" : "");
			MC_CHECK(s[0].empty() || s[1].empty() || s[0].data() + s[0].capacity() <= s[1].data() || s[1].data() + s[1].capacity() <= s[0].data(), "vector-overlap", "two vectors share storage");
			w.health("after a vector operation"); std::string st; for (auto& x : m) { for (T e : x) st += std::to_string((uint64_t)e) + ","; st += ";"; } mc::state(mc::hash(st));
		}
		mc::outcome(mc::combine(m[0].size(), m[1].size())); g_heapOk = nullptr;
	}
	for (void* p : held) LockingAllocator::Deallocate(p, 128, 1); w.end("after the vectors are gone");
}

/* ---- the helper functions over secure vectors ---- */
template <class V, class T> V vec(size_t n, uint32_t tag) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = (T)((uint64_t)(i + 1) * 0x9E3779B97F4A7C15ULL + tag * 0x1234567ULL); return v; }
template <class V> std::vector<typename V::value_type> pv(const V& v) { return std::vector<typename V::value_type>(v.begin(), v.end()); }
template <class A, class B> void sameVec(const A& got, const B& want, const char* what, size_t n, size_t io, size_t oo) { MC_CHECK(pv(got) == pv(want), "helper", "%s: %zu elements, offsets %zu/%zu: the result differs (sizes %zu/%zu)", what, n, io, oo, got.size(), want.size()); }
template <class T> void helperJob(int world)
{
	typedef SecureVector<T> S; typedef std::vector<T> P; World w(4096, true, world == 1);
	{
		size_t io = (size_t)mc::choose(3), oo = (size_t)mc::choose(3); int op = mc::choose(18);
		for (size_t n = 0; n <= 33; ++n)
		{
			size_t slack = n % 3; P in = vec<P, T>(io + n + slack, 1), out = vec<P, T>(oo, 2), big = vec<P, T>(oo + n + slack + 1, 3); S si(in.begin(), in.end()), so(out.begin(), out.end()), sb(big.begin(), big.end()); P all = out; all.insert(all.end(), in.begin(), in.end());
			auto put = [&](P dst, size_t at, size_t from, size_t k) { if (dst.size() < at + k) dst.resize(at + k); for (size_t i = 0; i < k; ++i) dst[at + i] = in[from + i]; return dst; };
			auto wiped = [&](P src, size_t from, size_t k) { for (size_t i = 0; i < k; ++i) src[from + i] = 0; return src; };
			MC_OP("helper %d with %zu elements", op, n);
			switch (op)
			{
			case 0: { P o = out; CEX::SecureExtract(si, o); sameVec(o, all, "extract to the end of an array", n, io, oo); sameVec(si, in, "extract input", n, io, oo); break; }
			case 1: { S o = so; CEX::SecureExtract(si, o); sameVec(o, all, "extract to the end of a secure array", n, io, oo); break; }
			case 2: { P o = big; CEX::SecureExtract(si, io, o, oo, n); sameVec(o, put(big, oo, io, n), "extract a range into an array", n, io, oo); P e; CEX::SecureExtract(si, io, e, oo, n); sameVec(e, put(P(), oo, io, n), "extract a range into an empty array", n, io, oo); break; }
			case 3: { S o = sb; CEX::SecureExtract(si, io, o, oo, n); sameVec(o, put(big, oo, io, n), "extract a range into a secure array", n, io, oo); S e; CEX::SecureExtract(si, io, e, oo, n); sameVec(e, put(P(), oo, io, n), "extract a range into an empty secure array", n, io, oo); break; }
			case 4: { S o = so; CEX::SecureInsert(in, o); sameVec(o, all, "insert an array at the end", n, io, oo); break; }
			case 5: { S o = so; CEX::SecureInsert(si, o); sameVec(o, all, "insert a secure array at the end", n, io, oo); break; }
			case 6: { S o = sb; CEX::SecureInsert(in, io, o, oo, n); sameVec(o, put(big, oo, io, n), "insert a range", n, io, oo); S e; CEX::SecureInsert(in, io, e, oo, n); sameVec(e, put(P(), oo, io, n), "insert a range into an empty secure array", n, io, oo); break; }
			case 7: { S o = sb; CEX::SecureInsert(si, io, o, oo, n); sameVec(o, put(big, oo, io, n), "insert a secure range", n, io, oo); S e; CEX::SecureInsert(si, io, e, oo, n); sameVec(e, put(P(), oo, io, n), "insert a secure range into an empty secure array", n, io, oo); break; }
			case 8: { S o = CEX::SecureLock(in); sameVec(o, in, "lock", n, io, oo); break; }
			case 9: { P i2 = in; T* d = i2.data(); size_t k = i2.size(); S o = CEX::SecureLockClear(i2); sameVec(o, in, "lock and clear", n, io, oo); MC_CHECK(i2.empty(), "helper-clear", "the source is not emptied"); P z; z.swap(i2); if (z.capacity() >= k && k) { z.resize(k ? 0 : 0); } (void)d; break; }
			case 10: { P o = CEX::SecureUnlock(si); sameVec(o, in, "unlock", n, io, oo); break; }
			case 11: { S i2 = si; P o = CEX::SecureUnlockClear(i2); sameVec(o, in, "unlock and clear", n, io, oo); MC_CHECK(i2.empty(), "helper-clear", "the source is not emptied"); break; }
			case 12: { P big2 = vec<P, T>(oo + in.size() + 1, 4); S o(big2.begin(), big2.end()); P i2 = in; CEX::SecureMove(i2, o, oo); sameVec(o, put(big2, oo, 0, in.size()), "move an array", n, io, oo); MC_CHECK(i2.empty(), "helper-clear", "the source is not emptied"); break; }
			case 13: { P o = vec<P, T>(oo + in.size() + 1, 4), big2 = o; S i2 = si; CEX::SecureMove(i2, o, oo); sameVec(o, put(big2, oo, 0, in.size()), "move a secure array out", n, io, oo); MC_CHECK(i2.empty(), "helper-clear", "the source is not emptied"); break; }
			case 14: { P big2 = vec<P, T>(oo + in.size() + 1, 4); S o(big2.begin(), big2.end()), i2 = si; CEX::SecureMove(i2, o, oo); sameVec(o, put(big2, oo, 0, in.size()), "move a secure array", n, io, oo); MC_CHECK(i2.empty(), "helper-clear", "the source is not emptied"); break; }
			case 15: { P i2 = in; S o = sb; CEX::SecureMove(i2, io, o, oo, n * sizeof(T)); sameVec(o, put(big, oo, io, n), "move a range", n, io, oo); sameVec(i2, wiped(in, io, n), "the source of a moved range", n, io, oo); break; }
			case 16: { S i2 = si; P o = big; CEX::SecureMove(i2, io, o, oo, n * sizeof(T)); sameVec(o, put(big, oo, io, n), "move a secure range out", n, io, oo); sameVec(i2, wiped(in, io, n), "the source of a moved range", n, io, oo); S i3 = si, o3 = sb; CEX::SecureMove(i3, io, o3, oo, n * sizeof(T)); sameVec(o3, put(big, oo, io, n), "move a secure range", n, io, oo); sameVec(i3, wiped(in, io, n), "the source of a moved range", n, io, oo); break; }
			default:
			{
				if (sizeof(T) == 1) { S o = sb; CEX::SecureCopy(si, io, o, oo, n); sameVec(o, put(big, oo, io, n), "copy a range", n, io, oo); }
				S c = si; size_t cap = c.capacity(); T* d = c.data(); size_t k = c.size(); CEX::SecureClear(c); MC_CHECK(c.empty(), "helper-clear", "a cleared array has %zu elements", c.size());
				if (c.capacity() == cap && c.data() == d && k) { c.reserve(cap); const volatile uint8_t* r = (const volatile uint8_t*)d; bool z = true; __attribute__((no_sanitize("address"))) struct R { static bool zero(const volatile uint8_t* p, size_t m) __attribute__((no_sanitize("address"))) { for (size_t i = 0; i < m; ++i) if (p[i]) return false; return true; } }; z = R::zero(r, k * sizeof(T)); MC_CHECK(z, "helper-wipe", "a cleared array of %zu elements keeps its contents in its storage", k); }
				break;
			}
			}
			mc::state(mc::combine((uint64_t)op, n * 16 + io * 4 + oo)); w.health("after a helper");
		}
	}
	w.end("after the helpers"); mc::outcome(1);
}

/* ---- page storage ---- */
static void pageJob(int depth)
{
	sim::reset(); sim::virtualAllocOk = [](size_t) { return mc::deviate(2) == 0; }; sim::virtualLockOk = [](size_t) { return mc::deviate(2) == 0; }; mc::setDeviations(2); size_t already = sim::pages.size();
	std::vector<Blk> live; static const size_t SZ[] = { 1, 4095, 4096, 4097, 8192 }; std::vector<size_t> asked;
	for (int d = 0; d < depth; ++d)
	{
		int op = mc::choose(5 + (int)live.size() + 1);
		if (op < 5)
		{
			int used = mc::deviationsUsed(); uint8_t* p = (uint8_t*)SecureMemory::Allocate(SZ[op]); MC_OP("allocate %zu -> %s", SZ[op], p ? "pages" : "null"); bool bad = mc::deviationsUsed() > used; size_t n = SZ[op];
			MC_CHECK((p == nullptr) == bad, "page-report", "a page allocation of %zu bytes whose system call %s returned %s", n, bad ? "failed" : "succeeded", p ? "storage" : "null");
			if (p) { MC_CHECK(inPages(p, n, true), "page-unlocked", "%zu bytes of page storage are not locked", n); disjoint(live, p, n); live.push_back(Blk{ p, n, n, 1, (uint8_t)(d + 1) }); fill(live.back()); asked.push_back(n); }
		}
		else if (op < 5 + (int)live.size()) { size_t i = (size_t)(op - 5); Blk b = live[i]; live.erase(live.begin() + (ptrdiff_t)i); SecureMemory::Free(b.p, b.n); MC_OP("free %zu", b.n); }
		else { SecureMemory::Free(nullptr, 64); SecureMemory::Free(nullptr, 0); uint8_t e[48]; std::memset(e, 9, 48); size_t o = (size_t)mc::choose(2) * 8, k = (size_t)mc::choose(3) * 15; SecureMemory::Erase(e + o, k); MC_OP("erase"); for (size_t i = 0; i < 48; ++i) MC_CHECK(e[i] == (i >= o && i < o + k ? 0 : 9), "erase", "erasing %zu bytes at %zu: byte %zu is %d", k, o, i, e[i]); }
		checkAll(live); MC_CHECK(sim::pages.size() == already + live.size(), "page-lost", "%zu regions are mapped for %zu blocks", sim::pages.size() - already, live.size()); MC_CHECK(sim::virtualErrors == 0 && !sim::freedDirty, "page-release", "pages were released with contents or a wrong address"); mc::state(mc::combine((uint64_t)live.size(), (uint64_t)op));
	}
	while (!live.empty()) { SecureMemory::Free(live.back().p, live.back().n); live.pop_back(); } MC_CHECK(sim::virtualErrors == 0 && !sim::freedDirty && sim::pages.size() == already, "page-release", "pages were not released cleanly"); sim::reset(); mc::outcome(mc::deviationsUsed());
}
static void refusals()
{
	uint8_t b[128]; int c = mc::choose(3); MC_OP("constructor"); bool threw = false;
	try { if (c == 0) MemoryPool p(nullptr, 128, 4096, 16, 64, 4); else if (c == 1) MemoryPool p(b, 128, 4096, 65, 64, 4); else MemoryPool p(b, 128, 4096, 16, 64, 7); } catch (CryptoException&) { threw = true; }
	MC_CHECK(threw, "pool-refusal", "invalid constructor arguments %d were accepted", c);
	alignas(64) uint8_t s[160]; MemoryPool p(s + 8, 128, 4096, 16, 64, 4); std::vector<Blk> live; for (int i = 0; i < 3; ++i) { uint8_t* q = nullptr; try { q = (uint8_t*)p.Allocate(mc::flip() ? 16 : 48); } catch (CryptoException&) {} MC_OP("misaligned base"); MC_CHECK(!q || (uintptr_t)q % 16 == 0, "pool-align", "a pool with a misaligned base hands out misaligned storage"); } mc::state(9); mc::outcome(9);
}

void mc_register()
{
	bool th = mc::thorough(); sim::reset();
	for (size_t size : { 64, 96, 144, 160 }) for (int ab : { 0, 4, 6 }) mc::job("pool/" + std::to_string(size) + "/align" + std::to_string(1 << ab), [=] { poolJob(size, (uint8_t)ab, th ? 6 : ab == 4 && size == 144 ? 5 : 4); });
	mc::job("pool/refusals", [] { refusals(); });
	static const char* WN[] = { "locked", "noPages", "noLock" };
	for (int w = 0; w < 3; ++w) mc::job(std::string("allocator/") + WN[w], [=] { mc::setDeviations(th ? 2 : 1); allocatorJob(w, th ? 5 : 3); });
	static const char* VN[] = { "heap", "pool", "poolFull" };
	for (int w = 0; w < 3; ++w) { mc::job(std::string("vector/u8/") + VN[w], [=] { mc::setDeviations(1); vectorJob<uint8_t>(w, th ? 5 : w == 1 ? 4 : 3); }); mc::job(std::string("vector/u32/") + VN[w], [=] { mc::setDeviations(1); vectorJob<uint32_t>(w, th ? 4 : 3); }); mc::job(std::string("vector/u64/") + VN[w], [=] { mc::setDeviations(1); vectorJob<uint64_t>(w, th ? 4 : 3); }); }
	for (int w = 0; w < 2; ++w) { mc::job(std::string("helpers/u8/") + VN[w], [=] { helperJob<uint8_t>(w); }); mc::job(std::string("helpers/u16/") + VN[w], [=] { helperJob<uint16_t>(w); }); mc::job(std::string("helpers/u32/") + VN[w], [=] { helperJob<uint32_t>(w); }); mc::job(std::string("helpers/u64/") + VN[w], [=] { helperJob<uint64_t>(w); }); }
	mc::job("pages", [=] { pageJob(th ? 5 : 4); });
	mc::bounds("pool: 4 sizes x 3 alignments, all sequences of 4-5 operations (thorough 6) over 8 sizes, every free, foreign frees and reset; allocator: pool of one page empty / one block left / full, all sequences of 3 (5) operations with one (two) heap refusals anywhere, page allocation and page lock working or refused; vectors: 13 operations on two vectors, depth 3-4 (4-5), one refused allocation anywhere; helpers: every overload, 0-33 elements, offsets 0-2, 4 element types; pages: sequences of 4 (5) with two failing system calls anywhere");
	mc::assume("a freed block is returned with its own length; the system grants the pages it reports as locked");
}
