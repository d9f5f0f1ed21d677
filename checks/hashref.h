/* Reference Skein (UBI over Threefish) and BLAKE2 (sequential, keyed and the sp/bp tree), written from their specifications. */
#pragma once
#include "checks/ref.h"
namespace ref
{
	inline void threefish(const uint64_t* key, const uint64_t* tw, uint64_t* v, int W)
	{
		static const int R4[8][8] = { { 14, 16 }, { 52, 57 }, { 23, 40 }, { 5, 37 }, { 25, 33 }, { 46, 12 }, { 58, 22 }, { 32, 32 } };
		static const int R8[8][8] = { { 46, 36, 19, 37 }, { 33, 27, 14, 42 }, { 17, 49, 36, 39 }, { 44, 9, 54, 56 }, { 39, 30, 34, 24 }, { 13, 50, 10, 17 }, { 25, 29, 39, 43 }, { 8, 35, 56, 22 } };
		static const int R16[8][8] = { { 24, 13, 8, 47, 8, 17, 22, 37 }, { 38, 19, 10, 55, 49, 18, 23, 52 }, { 33, 4, 51, 13, 34, 41, 59, 17 }, { 5, 20, 48, 41, 47, 28, 16, 25 }, { 41, 9, 37, 31, 12, 47, 44, 30 }, { 16, 34, 56, 51, 4, 53, 42, 41 }, { 31, 44, 47, 46, 19, 42, 44, 25 }, { 9, 48, 35, 52, 23, 31, 37, 20 } };
		static const int P4[4] = { 0, 3, 2, 1 }, P8[8] = { 2, 1, 4, 7, 6, 5, 0, 3 }, P16[16] = { 0, 9, 2, 13, 6, 11, 4, 15, 10, 7, 12, 3, 14, 5, 8, 1 };
		const int (*R)[8] = W == 4 ? R4 : W == 8 ? R8 : R16; const int* P = W == 4 ? P4 : W == 8 ? P8 : P16; int rounds = W == 16 ? 80 : 72;
		uint64_t k[17], t[3] = { tw[0], tw[1], tw[0] ^ tw[1] }; k[W] = 0x1BD11BDAA9FC1A22ULL; for (int i = 0; i < W; ++i) { k[i] = key[i]; k[W] ^= key[i]; }
		auto inject = [&](int s) { for (int i = 0; i < W; ++i) v[i] += k[(s + i) % (W + 1)]; v[W - 3] += t[s % 3]; v[W - 2] += t[(s + 1) % 3]; v[W - 1] += (uint64_t)s; };
		for (int d = 0; d < rounds; ++d)
		{
			if (d % 4 == 0) inject(d / 4);
			uint64_t f[16]; for (int j = 0; j < W / 2; ++j) { f[2 * j] = v[2 * j] + v[2 * j + 1]; f[2 * j + 1] = rl64(v[2 * j + 1], R[d % 8][j]) ^ f[2 * j]; }
			for (int i = 0; i < W; ++i) v[i] = f[P[i]];
		}
		inject(rounds / 4);
	}
	inline void ubi(uint64_t* g, const Bytes& m, int type, int W)
	{
		size_t B = (size_t)W * 8, o = 0; bool first = true;
		do
		{
			size_t n = std::min(B, m.size() - o); Bytes b(B, 0); std::copy(m.begin() + (ptrdiff_t)o, m.begin() + (ptrdiff_t)(o + n), b.begin()); o += n; bool last = o == m.size();
			uint64_t tw[2] = { o, (uint64_t)type << 56 | (first ? 1ULL << 62 : 0) | (last ? 1ULL << 63 : 0) }, v[16], w[16]; for (int i = 0; i < W; ++i) w[i] = v[i] = le64(&b[8 * (size_t)i]);
			threefish(g, tw, v, W); for (int i = 0; i < W; ++i) g[i] = v[i] ^ w[i]; first = false;
		} while (o < m.size());
	}
	inline Bytes skein(const Bytes& m, int W, bool output = true)
	{
		uint64_t g[16] = { 0 }; Bytes cfg(32, 0); cfg[0] = 'S'; cfg[1] = 'H'; cfg[2] = 'A'; cfg[3] = '3'; cfg[4] = 1; pl64(&cfg[8], (uint64_t)W * 64);
		ubi(g, cfg, 4, W); ubi(g, m, 48, W); if (output) ubi(g, Bytes(8, 0), 63, W); Bytes o((size_t)W * 8); for (int i = 0; i < W; ++i) pl64(&o[8 * (size_t)i], g[i]); return o;
	}

	/* BLAKE2 with an explicit parameter block; lastNode marks the rightmost node of its level */
	static const uint8_t B2SIG[10][16] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }, { 14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3 }, { 11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4 }, { 7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8 }, { 9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13 },
		{ 2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9 }, { 12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11 }, { 13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10 }, { 6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5 }, { 10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0 } };
	template <class T> Bytes blake2node(const Bytes& m, const Bytes& param, bool lastNode)
	{
		const bool B = sizeof(T) == 8; static const uint64_t IV[8] = { 0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL };
		T iv[8], hh[8]; for (int i = 0; i < 8; ++i) { iv[i] = (T)(B ? IV[i] : IV[i] >> 32); hh[i] = iv[i] ^ (B ? (T)le64(&param[8 * (size_t)i]) : (T)le32(&param[4 * (size_t)i])); }
		auto rr = [](T x, int n) -> T { return (T)((x >> n) | (x << ((int)sizeof(T) * 8 - n))); };
		const size_t R = sizeof(T) * 16; size_t o = 0;
		do
		{
			size_t n = std::min(R, m.size() - o); Bytes b(R, 0); std::copy(m.begin() + (ptrdiff_t)o, m.begin() + (ptrdiff_t)(o + n), b.begin()); o += n; bool last = o == m.size();
			T w[16], v[16]; for (int i = 0; i < 16; ++i) w[i] = B ? (T)le64(&b[8 * (size_t)i]) : (T)le32(&b[4 * (size_t)i]); for (int i = 0; i < 8; ++i) { v[i] = hh[i]; v[i + 8] = iv[i]; }
			v[12] ^= (T)o; if (last) { v[14] = ~v[14]; if (lastNode) v[15] = ~v[15]; }
			auto G = [&](int a, int bb, int c, int d, T x, T y) { v[a] += v[bb] + x; v[d] = rr(v[d] ^ v[a], B ? 32 : 16); v[c] += v[d]; v[bb] = rr(v[bb] ^ v[c], B ? 24 : 12); v[a] += v[bb] + y; v[d] = rr(v[d] ^ v[a], B ? 16 : 8); v[c] += v[d]; v[bb] = rr(v[bb] ^ v[c], B ? 63 : 7); };
			for (int r = 0; r < (B ? 12 : 10); ++r) { const uint8_t* s = B2SIG[r % 10]; G(0, 4, 8, 12, w[s[0]], w[s[1]]); G(1, 5, 9, 13, w[s[2]], w[s[3]]); G(2, 6, 10, 14, w[s[4]], w[s[5]]); G(3, 7, 11, 15, w[s[6]], w[s[7]]); G(0, 5, 10, 15, w[s[8]], w[s[9]]); G(1, 6, 11, 12, w[s[10]], w[s[11]]); G(2, 7, 8, 13, w[s[12]], w[s[13]]); G(3, 4, 9, 14, w[s[14]], w[s[15]]); }
			for (int i = 0; i < 8; ++i) hh[i] ^= v[i] ^ v[i + 8];
		} while (o < m.size());
		Bytes out; for (int i = 0; i < 8; ++i) for (size_t k = 0; k < sizeof(T); ++k) out.push_back((uint8_t)(hh[i] >> (8 * k))); return out;
	}
	template <class T> Bytes blake2param(size_t keyLen, int fan, int depth, uint32_t offset, int nodeDepth, size_t inner, const Bytes& salt, const Bytes& pers)
	{
		const bool B = sizeof(T) == 8; Bytes p(sizeof(T) * 8, 0); p[0] = (uint8_t)(sizeof(T) * 8); p[1] = (uint8_t)keyLen; p[2] = (uint8_t)fan; p[3] = (uint8_t)depth; pl32(&p[8], offset);
		p[B ? 16 : 14] = (uint8_t)nodeDepth; p[B ? 17 : 15] = (uint8_t)inner; std::copy(salt.begin(), salt.end(), p.begin() + (B ? 32 : 16)); std::copy(pers.begin(), pers.end(), p.begin() + (B ? 48 : 24)); return p;
	}
	template <class T> Bytes blake2(const Bytes& m, const Bytes& key = Bytes(), const Bytes& salt = Bytes(), const Bytes& pers = Bytes())
	{
		const size_t R = sizeof(T) * 16; Bytes d; if (!key.empty()) { d = key; d.resize(R); } d = cat(d, m); return blake2node<T>(d, blake2param<T>(key.size(), 1, 1, 0, 0, 0, salt, pers), false);
	}
	template <class T> Bytes blake2tree(const Bytes& m, int F, const Bytes& key = Bytes())
	{
		const size_t R = sizeof(T) * 16, H = sizeof(T) * 8; Bytes inner;
		for (int i = 0; i < F; ++i)
		{
			Bytes d; if (!key.empty()) { d = key; d.resize(R); } for (size_t o = (size_t)i * R; o < m.size(); o += (size_t)F * R) d = cat(d, sub(m, o, std::min(R, m.size() - o)));
			inner = cat(inner, blake2node<T>(d, blake2param<T>(key.size(), F, 2, (uint32_t)i, 0, H, Bytes(), Bytes()), i == F - 1));
		}
		return blake2node<T>(inner, blake2param<T>(key.size(), F, 2, 0, 1, H, Bytes(), Bytes()), true);
	}

	/* GHASH, one bit at a time (SP 800-38D) */
	inline void gmul(Bytes& x, const Bytes& hk)
	{
		Bytes z(16, 0), v = hk; for (int i = 0; i < 128; ++i) { if (x[(size_t)i / 8] >> (7 - i % 8) & 1) for (int k = 0; k < 16; ++k) z[(size_t)k] ^= v[(size_t)k]; bool l = v[15] & 1; for (int k = 15; k > 0; --k) v[(size_t)k] = (uint8_t)(v[(size_t)k] >> 1 | v[(size_t)k - 1] << 7); v[0] >>= 1; if (l) v[0] ^= 0xE1; }
		x = z;
	}
	inline Bytes ghash(const Bytes& hk, const Bytes& a, const Bytes& c)
	{
		Bytes y(16, 0); auto add = [&](const Bytes& d) { for (size_t o = 0; o < d.size(); o += 16) { for (size_t k = 0; k < 16 && o + k < d.size(); ++k) y[k] ^= d[o + k]; gmul(y, hk); } }; add(a); add(c);
		Bytes l(16, 0); for (int k = 0; k < 8; ++k) { l[(size_t)k] = (uint8_t)((uint64_t)a.size() * 8 >> (56 - 8 * k)); l[8 + (size_t)k] = (uint8_t)((uint64_t)c.size() * 8 >> (56 - 8 * k)); } add(l); return y;
	}
	/* Poly1305 with plain big-integer arithmetic (RFC 8439) */
	inline Bytes poly1305(const Bytes& key, const Bytes& m)
	{
		typedef unsigned __int128 u; const int N = 5; uint64_t r[N] = { 0 }, a[N] = { 0 };   /* 26-bit limbs kept as a plain base-2^26 number */
		Bytes rk = sub(key, 0, 16); for (int i = 3; i < 16; i += 4) rk[(size_t)i] &= 15; for (int i = 4; i < 16; i += 4) rk[(size_t)i] &= 252; rk.push_back(0);
		auto load = [&](const Bytes& b, uint64_t* l) { for (int i = 0; i < N; ++i) l[i] = 0; for (int bit = 0; bit < 130; ++bit) if ((size_t)bit / 8 < b.size() && b[(size_t)bit / 8] >> (bit % 8) & 1) l[bit / 26] |= 1ULL << (bit % 26); };
		load(rk, r);
		for (size_t o = 0; o < m.size(); o += 16)
		{
			Bytes b = sub(m, o, std::min<size_t>(16, m.size() - o)); b.push_back(1); uint64_t l[N]; load(b, l); for (int i = 0; i < N; ++i) a[i] += l[i];
			u p[2 * N] = { 0 }; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) p[i + j] += (u)a[i] * r[j];
			for (int i = 2 * N - 1; i >= N; --i) { p[i - N] += p[i] * 5; p[i] = 0; }
			for (int rep = 0; rep < 3; ++rep) { u c = 0; for (int i = 0; i < N; ++i) { p[i] += c; c = p[i] >> 26; p[i] &= (1 << 26) - 1; } p[0] += c * 5; }
			for (int i = 0; i < N; ++i) a[i] = (uint64_t)p[i];
		}
		for (int rep = 0; rep < 3; ++rep) { uint64_t c = 0; for (int i = 0; i < N; ++i) { a[i] += c; c = a[i] >> 26; a[i] &= (1 << 26) - 1; } a[0] += c * 5; }
		/* full reduction: subtract p while a >= p */
		auto ge = [&] { for (int i = N - 1; i > 0; --i) if (a[i] != (1u << 26) - 1) return false; return a[0] >= (1u << 26) - 5; }; while (ge()) { a[0] -= (1u << 26) - 5; for (int i = 1; i < N; ++i) a[i] = 0; }
		Bytes t(17, 0); for (int bit = 0; bit < 130; ++bit) if (a[bit / 26] >> (bit % 26) & 1) t[(size_t)bit / 8] |= (uint8_t)(1 << (bit % 8));
		t.resize(16); unsigned c = 0; for (size_t i = 0; i < 16; ++i) { c += t[i] + key[16 + i]; t[i] = (uint8_t)c; c >>= 8; } return t;
	}
	inline Bytes kpa(const Bytes& key, const Bytes& iv, const Bytes& msg, size_t n)
	{
		size_t rate = key.size() == 16 ? 168 : key.size() == 32 ? 136 : 72, hl = rate == 136 ? 32 : 64; K25 s{}; if (!iv.empty()) kbytepad(s, encStr(iv), rate, 12); kbytepad(s, encStr(key), rate, 12);
		Bytes leaves; for (int i = 0; i < 8; ++i)
		{
			K25 l = s; const uint8_t nm[8] = { 0x32, 0x31, 0xAD, 0x41, 0x42, 0x4B, (uint8_t)(i + 1), 0 }; kxor(l, nm, 8); keccakP(l, 12);
			for (size_t o = 0; o < msg.size(); o += 8 * rate) { Bytes b = sub(msg, o, std::min(8 * rate, msg.size() - o)); b.resize(8 * rate); kxor(l, &b[(size_t)i * rate], rate); keccakP(l, 12); }
			leaves = cat(leaves, kbytes(l, hl));
		}
		K25 p{}; for (size_t o = 0; o < leaves.size(); o += rate) { size_t c = std::min(rate, leaves.size() - o); kxor(p, &leaves[o], c); keccakP(p, 12); }
		Bytes e = cat(rightEnc(8 * (uint64_t)n), rightEnc(8 * (uint64_t)msg.size())); e.push_back(0x41); e.resize(rate); e[rate - 1] |= 0x80; kxor(p, e.data(), rate); return ksqueeze(p, n, rate, 12);
	}
	/* CMAC / OMAC1 over any 16-byte block function */
	template <class F> Bytes cmac(F enc, const Bytes& m)
	{
		auto dbl = [](Bytes x) { bool c = x[0] & 0x80; for (size_t i = 0; i < 16; ++i) x[i] = (uint8_t)(x[i] << 1 | (i < 15 ? x[i + 1] >> 7 : 0)); if (c) x[15] ^= 0x87; return x; };
		Bytes k1 = dbl(enc(Bytes(16, 0))), k2 = dbl(k1), st(16, 0); size_t o = 0; while (m.size() - o > 16) { for (size_t k = 0; k < 16; ++k) st[k] ^= m[o + k]; st = enc(st); o += 16; }
		Bytes l = sub(m, o, m.size() - o); const Bytes* k = &k1; if (l.size() < 16) { l.push_back(0x80); l.resize(16); k = &k2; } for (size_t i = 0; i < 16; ++i) st[i] ^= l[i] ^ (*k)[i]; return enc(st);
	}
}
