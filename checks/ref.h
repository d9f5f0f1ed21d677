/* Independent reference implementations, written from the published definitions; shared by the checks. */
#pragma once
#include "checks/common.h"
#include <array>

namespace ref
{
	inline uint32_t rl32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
	inline uint64_t rl64(uint64_t x, int n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
	inline uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
	inline uint64_t le64(const uint8_t* p) { return le32(p) | (uint64_t)le32(p + 4) << 32; }
	inline void pl32(uint8_t* p, uint32_t v) { for (int i = 0; i < 4; ++i) p[i] = (uint8_t)(v >> (8 * i)); }
	inline void pl64(uint8_t* p, uint64_t v) { for (int i = 0; i < 8; ++i) p[i] = (uint8_t)(v >> (8 * i)); }

	/* ---- AES rounds over any round-key list (FIPS 197) ---- */
	inline uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); }
	inline uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
	struct AesTab
	{
		uint8_t s[256], i[256], m[16][256];
		AesTab()
		{
			for (int x = 0; x < 256; ++x)
			{
				uint8_t v = 0; for (int y = 1; x && y < 256; ++y) if (gm((uint8_t)x, (uint8_t)y) == 1) { v = (uint8_t)y; break; }
				uint8_t r = 0x63; for (int k = 0; k < 5; ++k) r ^= (uint8_t)((v << k) | (v >> (8 - k)));
				s[x] = r; i[r] = (uint8_t)x;
			}
			for (int k = 0; k < 16; ++k) for (int x = 0; x < 256; ++x) m[k][x] = gm((uint8_t)x, (uint8_t)k);
		}
	};
	inline const AesTab& aes() { static AesTab t; return t; }
	inline void aesMix(uint8_t* b, bool inv)
	{
		static const uint8_t F[4] = { 2, 3, 1, 1 }, G[4] = { 14, 11, 13, 9 }; const uint8_t* M = inv ? G : F; const AesTab& t = aes();
		for (int c = 0; c < 4; ++c) { uint8_t o[4]; for (int r = 0; r < 4; ++r) { o[r] = 0; for (int k = 0; k < 4; ++k) o[r] ^= t.m[M[(k - r + 4) & 3]][b[4 * c + k]]; } for (int r = 0; r < 4; ++r) b[4 * c + r] = o[r]; }
	}
	inline Bytes aesEnc(const Bytes& rk, const Bytes& in)
	{
		size_t R = rk.size() / 16 - 1; Bytes b = in; for (int i = 0; i < 16; ++i) b[i] ^= rk[i];
		for (size_t r = 1; r <= R; ++r)
		{
			Bytes t(16); for (int i = 0; i < 16; ++i) t[i] = aes().s[b[(i + 4 * (i & 3)) & 15]];
			if (r < R) aesMix(t.data(), false);
			for (int i = 0; i < 16; ++i) b[i] = t[i] ^ rk[16 * r + i];
		}
		return b;
	}
	inline Bytes aesDec(const Bytes& rk, const Bytes& in)
	{
		size_t R = rk.size() / 16 - 1; Bytes b = in;
		for (size_t r = R; r > 0; --r)
		{
			for (int i = 0; i < 16; ++i) b[i] ^= rk[16 * r + i];
			if (r < R) aesMix(b.data(), true);
			Bytes t(16); for (int i = 0; i < 16; ++i) t[(i + 4 * (i & 3)) & 15] = aes().i[b[i]];
			b = t;
		}
		for (int i = 0; i < 16; ++i) b[i] ^= rk[i];
		return b;
	}
	inline Bytes aesExpand(const Bytes& key)
	{
		size_t n = key.size() / 4, W = 4 * (n + 7); Bytes w(4 * W); std::copy(key.begin(), key.end(), w.begin()); uint8_t rc = 1;
		for (size_t i = n; i < W; ++i)
		{
			uint8_t t[4]; for (int k = 0; k < 4; ++k) t[k] = w[4 * (i - 1) + k];
			if (i % n == 0) { uint8_t x = t[0]; t[0] = aes().s[t[1]] ^ rc; t[1] = aes().s[t[2]]; t[2] = aes().s[t[3]]; t[3] = aes().s[x]; rc = xt(rc); }
			else if (n > 6 && i % n == 4) for (auto& v : t) v = aes().s[v];
			for (int k = 0; k < 4; ++k) w[4 * i + k] = w[4 * (i - n) + k] ^ t[k];
		}
		return w;
	}

	/* ---- Serpent rounds over any round-key list (Anderson, Biham, Knudsen), S-boxes as truth tables ---- */
	typedef std::array<uint32_t, 4> Q;
	static const uint8_t SBOX[8][16] = {
		{ 3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12 }, { 15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4 },
		{ 8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2 }, { 0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14 },
		{ 1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13 }, { 15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1 },
		{ 7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0 }, { 1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6 } };
	inline Q sbox(const Q& x, int n, bool inv)
	{
		uint8_t t[16]; for (int i = 0; i < 16; ++i) { if (inv) t[SBOX[n][i]] = (uint8_t)i; else t[i] = SBOX[n][i]; }
		Q o{ 0, 0, 0, 0 }; for (int b = 0; b < 32; ++b) { int v = 0; for (int k = 0; k < 4; ++k) v |= ((x[k] >> b) & 1) << k; v = t[v]; for (int k = 0; k < 4; ++k) o[k] |= (uint32_t)((v >> k) & 1) << b; }
		return o;
	}
	inline Q serpentEnc(const std::vector<uint32_t>& rk, Q x)
	{
		size_t R = rk.size() / 4 - 1;
		for (size_t r = 0; r < R; ++r)
		{
			for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * r + k];
			x = sbox(x, (int)(r & 7), false);
			if (r + 1 == R) break;
			x[0] = rl32(x[0], 13); x[2] = rl32(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3); x[1] = rl32(x[1], 1); x[3] = rl32(x[3], 7);
			x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7); x[0] = rl32(x[0], 5); x[2] = rl32(x[2], 22);
		}
		for (int k = 0; k < 4; ++k) x[k] ^= rk[4 * R + k];
		return x;
	}
	/* standard schedule; the library feeds the key words from its end, big endian, and has its own 512-bit key polynomial */
	inline std::vector<uint32_t> serpentExpand(const Bytes& key)
	{
		std::vector<uint32_t> w; for (size_t i = key.size(); i > 0; i -= 4) w.push_back((uint32_t)key[i - 4] << 24 | key[i - 3] << 16 | key[i - 2] << 8 | key[i - 1]);
		bool big = key.size() == 64; size_t P = big ? 16 : 8, R = big ? 40 : 32, n = 4 * (R + 1);
		if (w.size() < P) { w.push_back(1); w.resize(P, 0); }
		auto at = [&](std::vector<uint32_t>& v, size_t i) { uint32_t x = v[i - 8] ^ v[i - 5] ^ v[i - 3] ^ v[i - 1]; if (big) x ^= v[i - 16] ^ v[i - 13] ^ v[i - 11] ^ v[i - 10]; return x; };
		std::vector<uint32_t> v(w);
		if (!big) for (size_t i = 0; i < n; ++i) v.push_back(rl32(at(v, v.size()) ^ 0x9e3779b9u ^ (uint32_t)i, 11));
		else
		{	/* the library restarts the index at 16 after the first sixteen words, and so continues it: one index throughout */
			for (size_t i = 0; i < n; ++i) v.push_back(rl32(at(v, v.size()) ^ 0x9e3779b9u ^ (uint32_t)i, 11));
		}
		v.erase(v.begin(), v.begin() + (ptrdiff_t)P);
		for (size_t r = 0; r <= R; ++r) { Q q{ v[4 * r], v[4 * r + 1], v[4 * r + 2], v[4 * r + 3] }; q = sbox(q, (int)((35 - r % 8) % 8), false); for (int k = 0; k < 4; ++k) v[4 * r + k] = q[k]; }
		return v;
	}
	inline Bytes serpentEncB(const std::vector<uint32_t>& rk, const Bytes& b) { Q q; for (int k = 0; k < 4; ++k) q[k] = le32(&b[4 * k]); q = serpentEnc(rk, q); Bytes o(16); for (int k = 0; k < 4; ++k) pl32(&o[4 * k], q[k]); return o; }
	/* ---- Keccak-p[1600] with any number of rounds (round constants from the LFSR), sponge helpers ---- */
	typedef std::array<uint64_t, 25> K25;
	inline const std::vector<uint64_t>& keccakRC()
	{
		static const std::vector<uint64_t> v = [] { std::vector<uint64_t> r; uint8_t l = 1; for (int i = 0; i < 48; ++i) { uint64_t c = 0; for (int j = 0; j < 7; ++j) { if (l & 1) c ^= 1ULL << ((1 << j) - 1); l = (uint8_t)((l << 1) ^ (l & 0x80 ? 0x71 : 0)); } r.push_back(c); } return r; }();
		return v;
	}
	inline void keccakP(K25& a, int rounds = 24)
	{
		for (int r = 0; r < rounds; ++r)
		{
			uint64_t c[5], d; K25 b;
			for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
			for (int x = 0; x < 5; ++x) { d = c[(x + 4) % 5] ^ rl64(c[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) a[x + 5 * y] ^= d; }
			int x = 1, y = 0; b[0] = a[0]; 
			for (int t = 0; t < 24; ++t) { int nx = y, ny = (2 * x + 3 * y) % 5; b[nx + 5 * ny] = rl64(a[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64); x = nx; y = ny; }
			for (int yy = 0; yy < 5; ++yy) for (int xx = 0; xx < 5; ++xx) a[xx + 5 * yy] = b[xx + 5 * yy] ^ (~b[(xx + 1) % 5 + 5 * yy] & b[(xx + 2) % 5 + 5 * yy]);
			a[0] ^= keccakRC()[(size_t)r];
		}
	}
	inline void kxor(K25& a, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) a[i / 8] ^= (uint64_t)p[i] << (8 * (i % 8)); }
	inline Bytes kbytes(const K25& a, size_t n) { Bytes o(n); for (size_t i = 0; i < n; ++i) o[i] = (uint8_t)(a[i / 8] >> (8 * (i % 8))); return o; }
	inline Bytes leftEnc(uint64_t v) { Bytes o; do { o.insert(o.begin(), (uint8_t)v); v >>= 8; } while (v); o.insert(o.begin(), (uint8_t)o.size()); return o; }
	inline Bytes rightEnc(uint64_t v) { Bytes o; do { o.insert(o.begin(), (uint8_t)v); v >>= 8; } while (v); o.push_back((uint8_t)o.size()); return o; }
	/* full padded absorb; the permutation after the last block is left to the squeeze */
	inline void kabsorb(K25& s, const Bytes& m, size_t rate, uint8_t dom, int rounds = 24)
	{
		size_t o = 0; for (; m.size() - o >= rate; o += rate) { kxor(s, &m[o], rate); keccakP(s, rounds); }
		Bytes l(m.begin() + (ptrdiff_t)o, m.end()); l.resize(rate); l[m.size() - o] = dom; l[rate - 1] |= 0x80; kxor(s, l.data(), rate);
	}
	inline void kbytepad(K25& s, Bytes x, size_t rate, int rounds = 24) { Bytes p = cat(leftEnc(rate), x); while (p.size() % rate) p.push_back(0); for (size_t o = 0; o < p.size(); o += rate) { kxor(s, &p[o], rate); keccakP(s, rounds); } }
	inline Bytes encStr(const Bytes& x) { return cat(leftEnc((uint64_t)x.size() * 8), x); }
	inline Bytes ksqueeze(K25& s, size_t n, size_t rate, int rounds = 24) { Bytes o; while (o.size() < n) { keccakP(s, rounds); o = cat(o, kbytes(s, std::min(rate, n - o.size()))); } return o; }
	inline Bytes cshake(const Bytes& x, const Bytes& N, const Bytes& S, size_t rate, size_t n, int rounds = 24)
	{
		K25 s{}; bool c = !N.empty() || !S.empty(); if (c) kbytepad(s, cat(encStr(N), encStr(S)), rate, rounds);
		kabsorb(s, x, rate, c ? 0x04 : 0x1F, rounds); return ksqueeze(s, n, rate, rounds);
	}
	inline Bytes kmac(const Bytes& key, const Bytes& msg, const Bytes& S, size_t rate, size_t n, int rounds = 24)
	{
		K25 s{}; static const Bytes K{ 'K', 'M', 'A', 'C' }; kbytepad(s, cat(encStr(K), encStr(S)), rate, rounds); kbytepad(s, encStr(key), rate, rounds);
		kabsorb(s, cat(msg, rightEnc((uint64_t)n * 8)), rate, 0x04, rounds); return ksqueeze(s, n, rate, rounds);
	}
	inline Bytes sha3(const Bytes& m, size_t rate, size_t n) { K25 s{}; kabsorb(s, m, rate, 0x06); return ksqueeze(s, n, rate); }
}
