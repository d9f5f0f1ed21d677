/* Shared pieces of the drivers: patterned data, guarded buffers, reference block functions. */
#pragma once
#include "mc/mc.h"
#include "native/winctl.h"
#include "BlockCipherFromName.h"
#include "SymmetricKey.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;
using namespace CEX;

inline Bytes pat(size_t n, uint32_t tag)
{
	Bytes v(n); uint64_t s = 0x9E3779B97F4A7C15ULL * (tag + 1) + mc::seed() * 0;
	for (size_t i = 0; i < n; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v[i] = (uint8_t)(s >> 24); }
	return v;
}
inline Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + (ptrdiff_t)o, b.begin() + (ptrdiff_t)(o + n)); }
inline Bytes cat(const Bytes& a, const Bytes& b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
template <class V> Bytes plain(const V& v) { return Bytes(v.begin(), v.end()); }
inline SecureVector<uint8_t> secure(const Bytes& b) { return SecureVector<uint8_t>(b.begin(), b.end()); }
inline uint64_t h(const Bytes& b) { return mc::hash(b.data(), b.size()); }
inline std::string hx(const Bytes& b, size_t max = 40) { return mc::hex(b.data(), b.size(), max); }
inline size_t firstDiff(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i; }

/* an output buffer with guard bytes on both sides of the window an operation may write */
struct Guarded
{
	Bytes buf; size_t off, len;
	Guarded(size_t offset, size_t length, size_t tail) : buf(offset + length + tail), off(offset), len(length) { for (size_t i = 0; i < buf.size(); ++i) buf[i] = (uint8_t)(0xA5 ^ (i * 7)); }
	Bytes window() const { return sub(buf, off, len); }
	bool intact() const { for (size_t i = 0; i < buf.size(); ++i) if ((i < off || i >= off + len) && buf[i] != (uint8_t)(0xA5 ^ (i * 7))) return false; return true; }
};
#define CHECK_EQ(key, got, want, ...) do { const Bytes _g = (got), _w = (want); if (_g != _w) { char _b[512]; std::snprintf(_b, sizeof _b, __VA_ARGS__); size_t _d = firstDiff(_g, _w); mc::fail(key, "%s: length %zu/%zu, first difference at byte %zu (got %02x, expected %02x)", _b, _g.size(), _w.size(), _d, _d < _g.size() ? _g[_d] : 0, _d < _w.size() ? _w[_d] : 0); } } while (0)

/* one keyed block function pair, taken from a dedicated single-block engine instance */
struct RefBlock
{
	std::unique_ptr<Cipher::Block::IBlockCipher> e, d;
	RefBlock(Enumeration::BlockCiphers c, const Bytes& key)
	{
		e.reset(Helper::BlockCipherFromName::GetInstance(c)); d.reset(Helper::BlockCipherFromName::GetInstance(c));
		Cipher::SymmetricKey k(key); e->Initialize(true, k); Cipher::SymmetricKey k2(key); d->Initialize(false, k2);
	}
	Bytes enc(const Bytes& b) { Bytes o(16); e->EncryptBlock(b, o); return o; }
	Bytes dec(const Bytes& b) { Bytes o(16); d->DecryptBlock(b, o); return o; }
	static RefBlock& get(Enumeration::BlockCiphers c, const Bytes& key)
	{
		static std::map<std::pair<int, Bytes>, std::unique_ptr<RefBlock>> m; auto& p = m[{ (int)c, key }]; if (!p) p.reset(new RefBlock(c, key)); return *p;
	}
};
inline void addBE(Bytes& c, uint64_t v) { for (size_t i = c.size(); i-- > 0;) { v += c[i]; c[i] = (uint8_t)v; v >>= 8; } }
inline void addLE(Bytes& c, uint64_t v) { for (size_t i = 0; i < c.size(); ++i) { v += c[i]; c[i] = (uint8_t)v; v >>= 8; } }
template <class F> bool throwsStd(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
