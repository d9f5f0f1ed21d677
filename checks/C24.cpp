// MC-VARIANT: plain
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive enumeration of boundary operands of every arithmetic routine, and of boundary keys, scalars, points and message lengths of every operation built on them, on the implementation, against exact integer / polynomial arithmetic and an independent implementation
// Authenticator and curve arithmetic is exact at every carry.
#include "checks/common.h"
#include "checks/ref.h"
#include "checks/hashref.h"
#include "checks/ossl.h"
#include "CMUL.h"
#include "Donna128.h"
#include "ECDHBase.h"
#define EC25519 EC25519_second_inclusion                                     /* EC25519.h has no include guard */
#include "ECDSABase.h"
#undef EC25519
#include "GHASH.h"
#include "GMAC.h"
#include "Poly1305.h"
#include "SHA2512.h"
#include "IntegerTools.h"
#include <openssl/bn.h>
#include <algorithm>
const char* const MC_PROPERTY = "C24";
using Asymmetric::Encrypt::ECDH::EC25519; using Asymmetric::Encrypt::ECDH::ECDHBase; using Asymmetric::Sign::ECDSA::ECDSABase;
typedef unsigned __int128 u128; typedef EC25519::fe25519 fe;

/* ---- exact arithmetic: big numbers (libcrypto) and the field of 2^255-19 on 4x64-bit words ---- */
struct Z
{
	BIGNUM* b; static BN_CTX* c() { static BN_CTX* x = BN_CTX_new(); return x; }
	Z(uint64_t v = 0) : b(BN_new()) { BN_set_word(b, v); } Z(const Z& o) : b(BN_dup(o.b)) {} ~Z() { BN_free(b); } Z& operator=(const Z& o) { BN_copy(b, o.b); return *this; }
	static Z le(const Bytes& v) { Z r; BN_lebin2bn(v.data(), (int)v.size(), r.b); return r; }
	static Z dec(const char* s) { Z r; BN_dec2bn(&r.b, s); return r; }
	Bytes bytes(size_t n) const { Bytes o(n); Z m(*this); BN_mask_bits(m.b, (int)(8 * n)); BN_bn2lebinpad(m.b, o.data(), (int)n); return o; }
	Z operator+(const Z& o) const { Z r; BN_add(r.b, b, o.b); return r; } Z operator-(const Z& o) const { Z r; BN_sub(r.b, b, o.b); return r; }
	Z operator*(const Z& o) const { Z r; BN_mul(r.b, b, o.b, c()); return r; } Z operator%(const Z& o) const { Z r; BN_nnmod(r.b, b, o.b, c()); return r; }
	Z operator<<(int n) const { Z r; BN_lshift(r.b, b, n); return r; } bool operator<(const Z& o) const { return BN_cmp(b, o.b) < 0; } bool operator==(const Z& o) const { return BN_cmp(b, o.b) == 0; }
	size_t bits() const { return (size_t)BN_num_bits(b); }
};
static const Z& L() { static Z l = (Z(1) << 252) + Z::dec("27742317777372353535851937790883648493"); return l; }
static const Z& P() { static Z p = (Z(1) << 255) - Z(19); return p; }

struct F                                                                   /* 0 <= value < 2^256, compared after freeze */
{
	uint64_t w[4];
	F(uint64_t a = 0) { w[0] = a; w[1] = w[2] = w[3] = 0; }
	static F le(const Bytes& s) { F r; memcpy(r.w, s.data(), 32); return r; }
	void fold(uint64_t c) { while (c) { u128 t = (u128)c * 38; c = 0; for (int i = 0; i < 4; ++i) { t += w[i]; w[i] = (uint64_t)t; t >>= 64; } c = (uint64_t)t; } }
	friend F operator+(const F& a, const F& b) { F r; u128 t = 0; for (int i = 0; i < 4; ++i) { t += (u128)a.w[i] + b.w[i]; r.w[i] = (uint64_t)t; t >>= 64; } r.fold((uint64_t)t); return r; }
	F neg() const { F f = frozen(), r; u128 bw = 0; static const uint64_t p[4] = { 0xffffffffffffffedull, ~0ull, ~0ull, 0x7fffffffffffffffull }; for (int i = 0; i < 4; ++i) { u128 t = (u128)p[i] - f.w[i] - bw; r.w[i] = (uint64_t)t; bw = (t >> 64) ? 1 : 0; } return r; }
	friend F operator-(const F& a, const F& b) { return a + b.neg(); }
	friend F operator*(const F& a, const F& b)
	{
		uint64_t x[8] = { 0 }; for (int i = 0; i < 4; ++i) { u128 t = 0; for (int j = 0; j < 4; ++j) { t += (u128)a.w[i] * b.w[j] + x[i + j]; x[i + j] = (uint64_t)t; t >>= 64; } x[i + 4] = (uint64_t)t; }
		F r; u128 t = 0; for (int i = 0; i < 4; ++i) { t += (u128)x[i + 4] * 38 + x[i]; r.w[i] = (uint64_t)t; t >>= 64; } r.fold((uint64_t)t); return r;
	}
	F frozen() const
	{
		F r = *this; for (int k = 0; k < 3; ++k) { uint64_t top = r.w[3] >> 63; r.w[3] &= ~0ull >> 1; u128 t = (u128)top * 19; for (int i = 0; i < 4; ++i) { t += r.w[i]; r.w[i] = (uint64_t)t; t >>= 64; } }
		if (r.w[3] == ~0ull >> 1 && r.w[2] == ~0ull && r.w[1] == ~0ull && r.w[0] >= 0xffffffffffffffedull) { r.w[0] -= 0xffffffffffffffedull; r.w[1] = r.w[2] = r.w[3] = 0; } return r;
	}
	Bytes bytes() const { F f = frozen(); Bytes o(32); memcpy(o.data(), f.w, 32); return o; }
	friend bool operator==(const F& a, const F& b) { return a.bytes() == b.bytes(); }
	F pow(const Z& e) const { F r(1); for (size_t i = e.bits(); i-- > 0;) { r = r * r; if (BN_is_bit_set(e.b, (int)i)) r = r * *this; } return r; }
	F inv() const { return pow(P() - Z(2)); }
	bool odd() const { return bytes()[0] & 1; }
};
/* textbook Edwards curve -x^2 + y^2 = 1 + d x^2 y^2, extended coordinates, unified addition */
static const F& dd() { static F d = (F(121665) * F(121666).inv()).neg(); return d; }
struct Pt { F x, y, z, t; };
static Pt ptOf(const F& x, const F& y) { return { x, y, F(1), x * y }; }
static const Pt& ptO() { static Pt o = { F(0), F(1), F(1), F(0) }; return o; }
static Pt add(const Pt& p, const Pt& q)
{
	F a = (p.y - p.x) * (q.y - q.x), b = (p.y + p.x) * (q.y + q.x), c = p.t * q.t * dd(); c = c + c; F d = p.z * q.z; d = d + d;
	F e = b - a, f = d - c, g = d + c, hh = b + a; return { e * f, g * hh, f * g, e * hh };
}
static Pt mul(const Z& k, const Pt& p) { Pt r = ptO(); for (size_t i = k.bits(); i-- > 0;) { r = add(r, r); if (BN_is_bit_set(k.b, (int)i)) r = add(r, p); } return r; }
static Bytes enc(const Pt& p) { F i = p.z.inv(), x = p.x * i, y = p.y * i; Bytes o = y.bytes(); o[31] = (uint8_t)(o[31] | (x.odd() ? 0x80 : 0)); return o; }
static bool dec(const Bytes& s, Pt& p)                                      /* y as given modulo p, sign bit, no canonicity test */
{
	Bytes yb = s; yb[31] &= 0x7f; F y = F::le(yb), y2 = y * y, u = y2 - F(1), v = dd() * y2 + F(1), w = u * v.inv();
	static const Z e = Z::dec("7237005577332262213973186563042994240829374041602535252466099000494570602494"); /* (p+3)/8 */
	static const F i = F(2).pow(Z::dec("14474011154664524427946373126085988481658748083205070504932198000989141204987")); /* 2^((p-1)/4) */
	F x = w.pow(e); if (!(x * x == w)) { x = x * i; if (!(x * x == w)) return false; }
	if (x.odd() != (bool)(s[31] >> 7)) x = x.neg(); p = ptOf(x, y); return true;
}
static const Pt& base() { static Pt b = [] { F y = F(4) * F(5).inv(); Bytes s = y.bytes(); Pt p; dec(s, p); return p; }(); return b; }

/* ---- field: ten limbs of alternately 26 and 25 bits, signed ---- */
static_assert(std::tuple_size<fe>::value == 10, "the supported configuration uses the ten-limb field");
static Bytes feBytes(const fe& a) { Bytes o(32); EC25519::Fe25519ToBytes(o, a); return o; }
static F feVal(const fe& a) { F r(0), b(1); static const F e = F(1ull << 26), o = F(1ull << 25); for (size_t i = 0; i < 10; ++i) { F t = F((uint64_t)std::llabs((long long)a[i])) * b; r = a[i] < 0 ? r - t : r + t; b = b * (i & 1 ? o : e); } return r; }
static std::string show(const fe& a) { std::string s; for (auto x : a) s += std::to_string(x) + " "; return s; }
static void is(const char* op, const fe& got, const F& want, const fe& a, const fe& b)
{
	Bytes g = feBytes(got), w = want.bytes(); if (g != w) mc::fail(op, "field %s of (%s) and (%s) gives %s, exact arithmetic %s", op, show(a).c_str(), show(b).c_str(), hx(g).c_str(), hx(w).c_str());
}
static int32_t top(size_t i) { return 1 << (i & 1 ? 24 : 25); }              /* the largest limb a carried element has */
static std::vector<fe> signs() { std::vector<fe> v; for (int m = 0; m < 1024; ++m) { fe f; for (size_t i = 0; i < 10; ++i) f[i] = m >> i & 1 ? -top(i) : top(i); v.push_back(f); } return v; }
static std::vector<fe> ternary() { std::vector<fe> v; for (int m = 0; m < 59049; ++m) { fe f; int k = m; for (size_t i = 0; i < 10; ++i) { f[i] = k % 3 == 0 ? 0 : k % 3 == 1 ? top(i) - 1 : -top(i); k /= 3; } v.push_back(f); } return v; }
static std::vector<fe> sparse() { std::vector<fe> v; v.push_back(fe{}); for (size_t i = 0; i < 10; ++i) for (int32_t x : { 1, -1, top(i), -top(i) }) { fe f{}; f[i] = x; v.push_back(f); f[(i + 1) % 10] = top(i + 1); v.push_back(f); } for (int32_t x : { 18, 19, -18, -19, 20 }) { fe f{}; f[0] = x; v.push_back(f); } for (int k = 0; k < 10; ++k) { fe f; for (size_t i = 0; i < 10; ++i) f[i] = top(i) - (i < (size_t)k); v.push_back(f); } return v; }
static void pairOne(const fe& a, const fe& b)
{
	F x = feVal(a), y = feVal(b); fe r; mc::transition();
	EC25519::Fe25519Mul(r, a, b); is("mul", r, x * y, a, b); for (size_t i = 0; i < 10; ++i) MC_CHECK(std::abs(r[i]) <= top(i) + top(i) / 32, "mul", "the product of (%s) and (%s) is not carried: (%s)", show(a).c_str(), show(b).c_str(), show(r).c_str());
	r = a; EC25519::Fe25519Mul(r, r, b); is("mul", r, x * y, a, b); r = b; EC25519::Fe25519Mul(r, a, r); is("mul", r, x * y, a, b);
	fe s, d, e; EC25519::Fe25519Add(s, a, b); is("add", s, x + y, a, b); EC25519::Fe25519Sub(d, a, b); is("sub", d, x - y, a, b); EC25519::Fe25519Sub(e, b, a); is("sub", e, y - x, b, a);
	/* carry-free sums and differences feed the multiplier in every curve formula */
	EC25519::Fe25519Mul(r, s, d); is("mul of sum and difference", r, (x + y) * (x - y), a, b); EC25519::Fe25519Mul(r, s, s); is("mul of sums", r, (x + y) * (x + y), a, b); EC25519::Fe25519Mul(r, d, e); is("mul of differences", r, (x - y) * (y - x), a, b);
	EC25519::Fe25519Sq(r, s); is("square of a sum", r, (x + y) * (x + y), a, b); EC25519::Fe25519Sq(r, d); is("square of a difference", r, (x - y) * (x - y), a, b);
	EC25519::Fe25519Sq2(r, a); is("doubled square", r, x * x + x * x, a, b);
	fe t; EC25519::Fe25519Sub(t, a, s); EC25519::Fe25519Mul(r, t, b); is("mul of a threefold term", r, (y * y).neg(), a, b); EC25519::Fe25519Mul(r, b, t); is("mul by a threefold term", r, (y * y).neg(), a, b);
	EC25519::Fe25519Mul32(r, s, 121666); is("mul32", r, (x + y) * F(121666), a, b);
	for (uint32_t q : { 0u, 1u })
	{
		fe f = a, g = b; EC25519::Fe25519cSwap(f, g, q); MC_CHECK(f == (q ? b : a) && g == (q ? a : b), "cswap", "conditional swap with %u of (%s) and (%s) is wrong", q, show(a).c_str(), show(b).c_str());
		f = a; EC25519::Fe25519cMov(f, b, q); MC_CHECK(f == (q ? b : a), "cmov", "conditional move with %u of (%s) and (%s) is wrong", q, show(a).c_str(), show(b).c_str());
	}
}
static void fieldPairs(size_t part, size_t parts)
{
	auto v = signs(), w = sparse(); size_t st = mc::thorough() ? 1 : 3; for (size_t i = part; i < v.size(); i += parts) { for (size_t j = i % st; j < v.size(); j += st) pairOne(v[i], v[j]); for (auto& b : w) { pairOne(v[i], b); pairOne(b, v[i]); } }
	if (part == 0) for (auto& a : w) for (auto& b : w) pairOne(a, b); mc::outcome(part);
}
static void unaryOne(const fe& a, bool deep)
{
	F x = feVal(a); fe r, z{}; mc::transition();
	EC25519::Fe25519Sq(r, a); is("square", r, x * x, a, a); r = a; EC25519::Fe25519Sq(r, r); is("square", r, x * x, a, a);
	EC25519::Fe25519Sq2(r, a); is("doubled square", r, x * x + x * x, a, a); EC25519::Fe25519Neg(r, a); is("negate", r, x.neg(), a, z);
	for (uint32_t k : { 0u, 1u, 121666u, 0xffffffu }) { EC25519::Fe25519Mul32(r, a, k); is("mul32", r, x * F(k), a, z); }
	EC25519::Fe25519Reduce(r, a); Bytes w = x.bytes(); MC_CHECK(feVal(r).bytes() == w, "reduce", "reducing (%s) changes its value", show(a).c_str()); for (size_t i = 0; i < 10; ++i) MC_CHECK(r[i] >= 0 && r[i] < 2 * top(i), "reduce", "the reduced form of (%s) is (%s)", show(a).c_str(), show(r).c_str());
	CHECK_EQ("tobytes", feBytes(a), w, "encoding (%s)", show(a).c_str());
	MC_CHECK(EC25519::Fe25519IsNegative(a) == (w[0] & 1), "isnegative", "the sign of (%s) is wrong", show(a).c_str()); MC_CHECK((EC25519::Fe25519IsZero(a) != 0) == (x == F(0)), "iszero", "the zero test of (%s) is wrong", show(a).c_str());
	if (deep) { EC25519::Fe25519Invert(r, a); is("invert", r, x.inv(), a, a); static const Z e = (Z(1) << 252) - Z(3); EC25519::Fe25519Pow22523(r, a); is("pow22523", r, x.pow(e), a, a); }
}
static void fieldUnary(size_t part, size_t parts)
{
	auto v = ternary(); for (size_t i = part; i < v.size(); i += parts) unaryOne(v[i], i % 47 == 0); if (part == 0) for (auto& a : sparse()) unaryOne(a, true);
	/* 256-bit encodings: every 32-bit word extreme, values around p and 2^255 */
	const uint32_t al[] = { 0, ~0u, 0x80000000u, 0x7fffffffu }; for (size_t i = part; i < 65536; i += parts) { Bytes q(32); size_t k = i; for (size_t j = 0; j < 8; ++j) { memcpy(&q[4 * j], &al[k % 4], 4); k /= 4; } fe r; mc::transition(); EC25519::Fe25519FromBytes(r, q); Bytes m = q; m[31] &= 0x7f; CHECK_EQ("frombytes", feBytes(r), F::le(m).bytes(), "decoding %s", hx(q).c_str()); for (size_t j = 0; j < 10; ++j) MC_CHECK(std::abs(r[j]) <= top(j), "frombytes", "decoding %s gives uncarried limbs (%s)", hx(q).c_str(), show(r).c_str()); }
	for (uint64_t d = 0; d < 64; ++d) for (int s : { 0, 0x80 }) { Bytes q = (P() - Z(32) + Z(d)).bytes(32); q[31] = (uint8_t)((q[31] & 0x7f) | s); fe r; EC25519::Fe25519FromBytes(r, q); q[31] &= 0x7f; CHECK_EQ("frombytes", feBytes(r), F::le(q).bytes(), "decoding %s", hx(q).c_str()); }
	mc::outcome(part);
}

/* ---- scalars ---- */
static std::vector<Bytes> wide()
{
	std::vector<Bytes> v; uint64_t lw[4]; Bytes lb = L().bytes(32); memcpy(lw, lb.data(), 32); const uint64_t al[] = { 0, ~0ull, 0x8000000000000000ull };
	for (int i = 0; i < 6561; ++i) { Bytes b(64); int k = i; for (int j = 0; j < 8; ++j) { uint64_t x = al[k % 3]; k /= 3; memcpy(&b[8 * (size_t)j], &x, 8); } v.push_back(b); }
	for (int i = 0; i < 512; ++i) { Z z = Z(1) << i; for (const Z& q : { z, z - Z(1), z + Z(1), (z - Z(1)) * L(), z * L() + Z(1), (z + Z(1)) * L() - Z(1) }) if (q.bits() <= 512) v.push_back(q.bytes(64)); }
	for (int k = 0; k < 64; ++k) for (int x : { 0x7f, 0x80, 0xff }) { Bytes b(64, 0), c(64, 0xff); b[(size_t)k] = (uint8_t)x; c[(size_t)k] = (uint8_t)~x; v.push_back(b); v.push_back(c); }
	return v;
}
static std::vector<Bytes> scalars(bool full)
{
	std::vector<Z> z; z.push_back(Z(0)); for (int i : { 1, 2, 3, 8, 19, 255 }) z.push_back(Z((uint64_t)i));
	for (int k = -2; k <= 2; ++k) { z.push_back(L() + Z(2) - Z((uint64_t)(2 - k))); z.push_back((Z(1) << 252) + Z(2) - Z((uint64_t)(2 - k))); }
	for (int i : { 21, 42, 63, 64, 84, 127, 128, 168, 189, 231, 251 }) { z.push_back(Z(1) << i); z.push_back((Z(1) << i) - Z(1)); }
	z.push_back(L() - (Z(1) << 126)); z.push_back(L() - (Z(1) << 251));
	if (full) { for (int i = 0; i < 8; ++i) z.push_back(L() * Z((uint64_t)i + 2)); z.push_back((Z(1) << 255) - Z(1)); z.push_back((Z(1) << 256) - Z(1)); z.push_back((Z(1) << 255)); z.push_back(P()); z.push_back(P() - Z(1)); z.push_back((Z(1) << 253) - Z(1)); z.push_back((Z(1) << 254)); }
	std::vector<Bytes> v; for (auto& q : z) { if (!full && !(q < L())) continue; v.push_back(q.bytes(32)); } for (uint32_t i = 0; i < 4; ++i) v.push_back((Z::le(pat(64, 70 + i)) % L()).bytes(32));
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static void scReduce()
{
	for (auto& b : wide()) { mc::transition(); Bytes s = b; EC25519::Sc25519Reduce(s); CHECK_EQ("sc-reduce", sub(s, 0, 32), (Z::le(b) % L()).bytes(32), "reducing %s modulo the group order", hx(b, 64).c_str()); mc::state(h(b)); } mc::outcome(1);
}
static void scMulAdd(size_t part, size_t parts)
{
	auto v = scalars(true); size_t n = 0;
	for (auto& a : v) for (auto& b : v) { if (n++ % parts != part) continue; for (size_t i = 0; i < v.size(); i += 3) { const Bytes& c = v[(i + n) % v.size()]; mc::transition(); Bytes s(40, 0xA5); EC25519::Sc25519MulAdd(s, 4, a, b, c); CHECK_EQ("sc-muladd", sub(s, 4, 32), ((Z::le(a) * Z::le(b) + Z::le(c)) % L()).bytes(32), "%s * %s + %s modulo the group order", hx(a).c_str(), hx(b).c_str(), hx(c).c_str()); MC_CHECK(s[3] == 0xA5 && s[36] == 0xA5, "sc-muladd", "writes outside its output"); } }
	mc::outcome(part);
}
static void canonical()
{
	Bytes l = L().bytes(32), p = P().bytes(32);
	auto one = [&](const Bytes& s) {
		mc::transition(); bool w = Z::le(s) < L(); Bytes o = cat(Bytes(32, 0x55), s); MC_CHECK((EC25519::Sc25519IsCanonical(o, 32) != 0) == w, "sc-canonical", "the scalar %s is %s the group order but the test says otherwise", hx(s).c_str(), w ? "below" : "not below");
		Bytes y = s; y[31] &= 0x7f; bool k = Z::le(y) < P(); MC_CHECK((EC25519::Ge25519IsCanonical(s) != 0) == k, "ge-canonical", "the coordinate %s is %s p but the test says otherwise", hx(s).c_str(), k ? "below" : "not below"); };
	for (const Bytes& b : { l, p, Bytes(32, 0), Bytes(32, 0xff) }) for (size_t i = 0; i < 32; ++i) for (int v = 0; v < 256; ++v) { Bytes s = b; s[i] = (uint8_t)v; one(s); }
	for (const Bytes& b : { l, p }) for (size_t i = 0; i < 32; ++i) for (size_t j = 0; j < 32; ++j) { Bytes s = b; s[i]++; s[j]--; one(s); s = b; s[i]--; s[j]++; one(s); }
	mc::outcome(1);
}

/* ---- the group ---- */
static Bytes scalarBase(const Bytes& a) { EC25519::ge25519p3 H{}; EC25519::Ge25519ScalarBase(H, a); Bytes o(32); EC25519::Ge25519P3ToBytes(o, H); return o; }
static void baseOne(const Bytes& a) { mc::transition(); mc::state(h(a)); CHECK_EQ("scalar-base", scalarBase(a), enc(mul(Z::le(a), base())), "base point times %s", hx(a).c_str()); }
static void scalarBaseAll(size_t part, size_t parts)
{
	size_t n = 0;
	for (int pos = 0; pos < 64; ++pos) for (int d = 0; d < (pos == 63 ? 8 : 16); ++d)
	{
		if (n++ % parts != part) continue;
		Bytes a(32, 0); a[(size_t)pos / 2] = (uint8_t)(d << (4 * (pos & 1))); baseOne(a);                               /* every table entry, both signs */
		for (int fill : { 0x77, 0x88, 0xff }) { Bytes b(32, (uint8_t)fill); b[31] &= 0x7f; b[(size_t)pos / 2] = (uint8_t)((b[(size_t)pos / 2] & (pos & 1 ? 0x0f : 0xf0)) | (d << (4 * (pos & 1)))); b[31] &= 0x7f; baseOne(b); }   /* recoding carries stopped at each place */
	}
	if (part == 0) for (auto& s : scalars(true)) if (!(s[31] & 0x80)) baseOne(s);
	mc::outcome(part);
}
static std::vector<Bytes> points()                                          /* encodings: every small y, multiples of the base, values around p, undecodable ones */
{
	std::vector<Bytes> v; for (uint64_t y = 0; y < 40; ++y) for (int s : { 0, 0x80 }) { Bytes a = Z(y).bytes(32), b = (P() - Z(20) + Z(y)).bytes(32); a[31] = (uint8_t)(a[31] | s); b[31] = (uint8_t)(b[31] | s); v.push_back(a); v.push_back(b); }
	for (uint64_t k : { 1, 2, 3, 7, 8, 1000 }) v.push_back(enc(mul(Z(k), base()))); return v;
}
static void decode()
{
	for (auto& s : points())
	{
		Bytes yb = s; yb[31] &= 0x7f; mc::transition(); mc::state(h(s)); Pt p; bool ok = dec(s, p); EC25519::ge25519p3 H{}; int r = EC25519::Ge25519FromBytesNegateVarTime(H, s);
		MC_CHECK((r == 0) == ok, "decode", "decoding %s reports %d but the point %s on the curve", hx(s).c_str(), r, ok ? "is" : "is not"); if (!ok) continue;
		Bytes o(32); EC25519::Ge25519P3ToBytes(o, H); Pt q = p; q.x = q.x.neg(); q.t = q.t.neg(); CHECK_EQ("decode", o, enc(q), "the negative of the point %s", hx(s).c_str());
		MC_CHECK(feVal(H.t) * feVal(H.z) == feVal(H.x) * feVal(H.y), "decode", "the extended coordinates of %s disagree", hx(s).c_str());
		bool small = enc(mul(Z(8), p)) == enc(ptO()); MC_CHECK((EC25519::Ge25519HasSmallOrder(s) != 0) == small, "small-order", "the point %s %s of small order but the test says otherwise", hx(s).c_str(), small ? "is" : "is not");
	}
	/* the eight points of small order, in every encoding */
	Pt t; Bytes o8 = Z::dec("2707385501144840649318225287225658788936804267575313519463743609750303402022").bytes(32); MC_CHECK(dec(o8, t), "reference", "order 8 point"); Pt m = ptO();
	for (int i = 0; i < 8; ++i) { for (int sgn : { 0, 0x80 }) { Bytes e = enc(m); e[31] = (uint8_t)((e[31] & 0x7f) | sgn); MC_CHECK(EC25519::Ge25519HasSmallOrder(e) != 0, "small-order", "the point %s of small order is not recognised", hx(e).c_str()); for (int b = 0; b < 255; ++b) { Bytes f = e; f[(size_t)b / 8] = (uint8_t)(f[(size_t)b / 8] ^ (1 << (b % 8))); Pt p; if (!dec(f, p)) continue; bool small = enc(mul(Z(8), p)) == enc(ptO()); mc::transition(); MC_CHECK((EC25519::Ge25519HasSmallOrder(f) != 0) == small, "small-order", "the point %s %s of small order but the test says otherwise", hx(f).c_str(), small ? "is" : "is not"); } } m = add(m, t); }
	mc::outcome(1);
}
static void doubleScalar(size_t part, size_t parts)
{
	auto v = scalars(false); for (int pos = 0; pos < 63; ++pos) for (int d : { 1, 5, 15 }) { Bytes b(32, 0); b[(size_t)pos / 2] = (uint8_t)(d << (4 * (pos & 1))); if (Z::le(b) < L()) v.push_back(b); }
	for (int f : { 0x55, 0xaa, 0xff, 0x0f, 0xf0, 0x77, 0x99 }) { Bytes b(32, (uint8_t)f); b[31] = 0x0f & (uint8_t)f; v.push_back(b); }
	size_t n = 0; Pt A = mul(Z(987654321), base()); Bytes ae = enc(A); EC25519::ge25519p3 H{}; EC25519::Ge25519FromBytesNegateVarTime(H, ae); Pt nA = A; nA.x = nA.x.neg(); nA.t = nA.t.neg();
	std::vector<Pt> am, bm; for (auto& s : v) { am.push_back(mul(Z::le(s), nA)); bm.push_back(mul(Z::le(s), base())); }
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); j += 1)
	{
		if (n++ % parts != part) continue; size_t jj = (j + i) % v.size(); mc::transition(); EC25519::ge25519p2 R{}; Bytes b = cat(Bytes(3, 0x99), v[jj]); EC25519::Ge25519DoubleScalarMultVarTime(R, v[i], H, b, 3); Bytes o(32); EC25519::Ge25519ToBytes(o, R);
		CHECK_EQ("double-scalar", o, enc(add(am[i], bm[jj])), "%s * point + %s * base", hx(v[i]).c_str(), hx(v[jj]).c_str());
	}
	mc::outcome(part);
}

/* ---- X25519 ---- */
static bool osslX(const Bytes& k, const Bytes& u, Bytes& out)
{
	out.assign(32, 0); EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, k.data(), 32), *b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, u.data(), 32); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(a, nullptr); size_t n = 32;
	bool ok = EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer(c, b) > 0 && EVP_PKEY_derive(c, out.data(), &n) > 0; EVP_PKEY_CTX_free(c); EVP_PKEY_free(a); EVP_PKEY_free(b); return ok;
}
static std::vector<Bytes> scalarsX() { std::vector<Bytes> v; for (int f : { 0x00, 0xff, 0x55, 0xaa, 0x77, 0x88 }) v.push_back(Bytes((size_t)32, (uint8_t)f)); for (int i : { 0, 3, 4, 50, 51, 127, 128, 200, 253, 254, 255 }) v.push_back((Z(1) << i).bytes(32)); for (uint32_t i = 0; i < 4; ++i) v.push_back(pat(32, 90 + i)); v.push_back(L().bytes(32)); v.push_back((L() - Z(1)).bytes(32)); return v; }
static std::vector<Bytes> coordsX()
{
	std::vector<Bytes> v; for (uint64_t y = 0; y < 12; ++y) { v.push_back(Z(y).bytes(32)); v.push_back((P() - Z(6) + Z(y)).bytes(32)); } for (uint64_t y = 0; y < 19; y += 6) v.push_back(((Z(1) << 255) - Z(1) - Z(y)).bytes(32));
	for (const char* s : { "325606250916557431795983626356110631294008115727848805560023387167927233504", "39382357235489614581723060781553021112529911719440698176882885853963445705823" }) v.push_back(Z::dec(s).bytes(32));
	for (int i = 1; i < 5; ++i) { v.push_back((Z(1) << (51 * i)).bytes(32)); v.push_back(((Z(1) << (51 * i)) - Z(1)).bytes(32)); } v.push_back((Z(1) << 254).bytes(32)); for (uint32_t i = 0; i < 4; ++i) v.push_back(pat(32, 95 + i));
	size_t n = v.size(); for (size_t i = 0; i < n; ++i) { Bytes b = v[i]; b[31] ^= 0x80; v.push_back(b); } return v;
}
static void x25519(size_t part, size_t parts)
{
	size_t n = 0;
	for (auto& k : scalarsX())
	{
		for (auto& u : coordsX())
		{
			if (n++ % parts != part) continue; mc::transition(); mc::state(mc::combine(h(k), h(u))); Bytes w, g(32, 0), s(32, 0); bool ok = osslX(k, u, w); int r = EC25519::ScalarMultCurve25519(g, k, u);
			MC_CHECK((r == 0) == ok, "x25519", "scalar %s on coordinate %s: the library %s, a standard implementation %s", hx(k).c_str(), hx(u).c_str(), r == 0 ? "accepts" : "refuses", ok ? "accepts" : "refuses");
			if (ok) CHECK_EQ("x25519", g, w, "scalar %s on coordinate %s", hx(k).c_str(), hx(u).c_str()); MC_CHECK(ECDHBase::Ed25519KeyExchange(s, u, k) == ok, "x25519", "the key exchange with %s and %s %s", hx(k).c_str(), hx(u).c_str(), ok ? "fails" : "succeeds on a degenerate point"); if (ok) CHECK_EQ("x25519", s, w, "key exchange");
		}
		if (part == 0) { Bytes w, g(32, 0); osslX(k, Z(9).bytes(32), w); EC25519::ScalarmultCurve25519Ref10Base(g, k); CHECK_EQ("x25519-base", g, w, "scalar %s on the base point", hx(k).c_str()); }
	}
	mc::outcome(part);
}

/* ---- Ed25519 ---- */
static std::unique_ptr<Digest::IDigest> sha() { return std::unique_ptr<Digest::IDigest>(new Digest::SHA2512()); }
static bool verifyLib(const Bytes& sig, const Bytes& m, const Bytes& pk) { auto d = sha(); Bytes s = cat(sig, m), out; mc::transition(); bool r = ECDSABase::Verify(out, s, pk, d); if (r) CHECK_EQ("ed25519-verify", out, m, "recovered message"); return r; }
static void ed25519(size_t part, size_t parts)
{
	std::vector<Bytes> seeds = { Bytes(32, 0), Bytes(32, 0xff), pat(32, 1), pat(32, 2) }; std::vector<size_t> lens = { 1, 2, 31, 32, 33, 47, 48, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 300 }; size_t n = 0;
	for (auto& seed : seeds) for (size_t len : lens)
	{
		if (n++ % parts != part) continue; Bytes m = pat(len, 7), pk(32), sk(64), sd = seed; auto d = sha(); ECDSABase::GenerateKeyPair(pk, sk, sd, d);
		EVP_PKEY* k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32); Bytes wp(32), ws(64); size_t q = 32; EVP_PKEY_get_raw_public_key(k, wp.data(), &q); EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_DigestSignInit(c, nullptr, nullptr, nullptr, k); q = 64; EVP_DigestSign(c, ws.data(), &q, m.data(), m.size()); EVP_MD_CTX_free(c); EVP_PKEY_free(k);
		CHECK_EQ("ed25519-key", pk, wp, "public key of seed %s", hx(seed).c_str()); CHECK_EQ("ed25519-key", sk, cat(seed, pk), "private key of seed %s", hx(seed).c_str());
		Bytes sig(64 + len); ECDSABase::Sign(sig, m, sk, d); CHECK_EQ("ed25519-sign", sig, cat(ws, m), "signature of %zu bytes with seed %s", len, hx(seed).c_str());
		MC_CHECK(verifyLib(ws, m, pk), "ed25519-verify", "a standard signature of %zu bytes does not verify", len); mc::state(mc::combine(h(seed), len));
		Z s = Z::le(sub(ws, 32, 32));
		for (int k2 = 1; k2 < 16; ++k2) { Z s2 = s + L() * Z((uint64_t)k2); if (s2.bits() > 256) break; Bytes f = cat(sub(ws, 0, 32), s2.bytes(32)); MC_CHECK(!verifyLib(f, m, pk), "ed25519-noncanonical", "a signature whose scalar has %d times the group order added verifies", k2); }
		for (int b = 0; b < 8; ++b) { Bytes f = ws; f[63] = (uint8_t)(f[63] ^ (1 << b)); MC_CHECK(!verifyLib(f, m, pk), "ed25519-verify", "a signature with a bit changed verifies"); f = ws; f[31] = (uint8_t)(f[31] ^ (1 << b)); MC_CHECK(!verifyLib(f, m, pk), "ed25519-verify", "a signature with a bit changed verifies"); }
		{ Bytes f = pk; f[31] ^= 0x80; MC_CHECK(!verifyLib(ws, m, f), "ed25519-verify", "the signature verifies under the negated key"); }
	}
	mc::outcome(part);
}
/* a signature that satisfies the equation under a degenerate key: must not be accepted as somebody's signature */
static void degenerate()
{
	Pt t; Bytes o8 = Z::dec("2707385501144840649318225287225658788936804267575313519463743609750303402022").bytes(32); dec(o8, t); Pt m = ptO(); Z S = Z(123456789); Bytes R = enc(mul(S, base()));
	std::vector<Bytes> keys; for (int i = 0; i < 8; ++i) { keys.push_back(enc(m)); m = add(m, t); } for (uint64_t y : { 0, 1 }) for (int s : { 0, 0x80 }) { Bytes b = (P() + Z(y)).bytes(32); b[31] = (uint8_t)(b[31] | s); keys.push_back(b); } { Bytes b = Z(1).bytes(32); b[31] |= 0x80; keys.push_back(b); }
	for (auto& pk : keys) for (uint32_t i = 0; i < 24; ++i) { Bytes sig = cat(R, S.bytes(32)), msg = pat(20, i); MC_CHECK(!verifyLib(sig, msg, pk), "ed25519-degenerate", "a signature made without any private key verifies under the small-order key %s", hx(pk).c_str()); }
	mc::outcome(1);
}

/* ---- Poly1305 ---- */
static Bytes polyRef(const Bytes& key, const Bytes& m)
{
	static const Z p = (Z(1) << 130) - Z(5); Bytes r = sub(key, 0, 16); for (int i : { 3, 7, 11, 15 }) r[(size_t)i] &= 15; for (int i : { 4, 8, 12 }) r[(size_t)i] &= 252; Z R = Z::le(r), a(0);
	for (size_t o = 0; o < m.size(); o += 16) { Bytes b = sub(m, o, std::min<size_t>(16, m.size() - o)); b.push_back(1); a = ((a + Z::le(b)) * R) % p; } return (a + Z::le(sub(key, 16, 16))).bytes(16);
}
static std::vector<Bytes> polyBlocks()
{
	std::vector<Bytes> v; const uint64_t al[] = { 0, ~0ull, 0xfffffffffffffffbull, 1ull << 44 }; for (uint64_t a : al) for (uint64_t b : al) { Bytes x(16); memcpy(&x[0], &a, 8); memcpy(&x[8], &b, 8); v.push_back(x); }
	for (int e : { 0, 1, 2, 4, 5, 6 }) { Bytes x(16, 0xff); x[0] = (uint8_t)(0xff - e); v.push_back(x); } for (int i : { 43, 44, 45, 87, 88, 89, 127 }) { v.push_back((Z(1) << i).bytes(16)); v.push_back(((Z(1) << i) - Z(1)).bytes(16)); } v.push_back(pat(16, 3)); return v;
}
static void polyOne(const Bytes& key, const Bytes& m)
{
	static Mac::Poly1305 p; mc::transition(); Cipher::SymmetricKey k(key); p.Initialize(k); Bytes o(16); p.Update(m, 0, m.size()); p.Finalize(o, 0); CHECK_EQ("poly1305", o, polyRef(key, m), "key %s, message %s", hx(key).c_str(), hx(m, 80).c_str());
}
static std::vector<Bytes> polyR()
{
	std::vector<Bytes> v; for (int mask = 0; mask < 16; ++mask) { Bytes r(16, 0); for (size_t i = 0; i < 16; ++i) if (mask >> (i / 4) & 1) r[i] = 0xff; v.push_back(r); }
	for (uint64_t x : { 1, 2, 4, 5 }) v.push_back(Z(x).bytes(16)); v.push_back((Z(1) << 44).bytes(16)); v.push_back((Z(1) << 88).bytes(16)); v.push_back((Z(1) << 123).bytes(16)); v.push_back(pat(16, 9)); return v;
}
static void poly(size_t part, size_t parts)
{
	auto rs = polyR(), bs = polyBlocks(); std::vector<Bytes> ss = { Bytes(16, 0), Bytes(16, 0xff), Z(5).bytes(16), (Z(1) << 64).bytes(16) }; size_t n = 0;
	for (auto& r : rs) for (auto& s : ss)
	{
		if (n++ % parts != part) continue; Bytes key = cat(r, s); mc::state(h(key));
		for (auto& a : bs) { polyOne(key, a); for (auto& b : bs) { polyOne(key, cat(a, b)); if (s[0] == 0xff || mc::thorough()) for (const Bytes& c : { Bytes(16, 0xff), Bytes(16, 0), bs[2] }) polyOne(key, cat(cat(a, b), c)); } for (size_t l = 1; l < 16; ++l) polyOne(key, cat(a, sub(bs[5], 0, l))); }
		/* r = 1 adds blocks: steer the accumulator onto, below and above p, for one to five blocks; and chosen final sums */
		static const Z p = (Z(1) << 130) - Z(5); if (Z::le(r) == Z(1)) for (int d = -8; d <= 8; ++d) { Z t = p + Z(8) - Z((uint64_t)(8 - d)); Z hi = (Z(1) << 128); Z x = hi + hi - Z(1); Z rest = t - x; while (!(rest < hi + hi)) rest = rest - x; /* 2^128 <= block value < 2^129 */ Bytes msg; Z left = t; while (true) { if (left < hi) break; Z take = left < hi + hi ? left : (left - (hi + hi) < hi ? left - hi : hi + hi - Z(1)); msg = cat(msg, (take - hi).bytes(16)); left = left - take; if (left == Z(0)) break; } if (left == Z(0)) polyOne(key, msg); }
	}
	for (size_t len = part; len <= 130; len += parts) for (uint32_t q = 0; q < 6; ++q) polyOne(pat(32, q), q & 1 ? Bytes(len, 0xff) : pat(len, 40 + q));
	mc::outcome(part);
}

/* ---- carry-less multiplication and GHASH ---- */
static void cmulOne(const Bytes& x, const Bytes& hk)
{
	std::array<uint64_t, 2> st = { Tools::IntegerTools::BeBytesTo64(hk, 0), Tools::IntegerTools::BeBytesTo64(hk, 8) }; Bytes w = x; ref::gmul(w, hk); mc::transition();
	for (int path = 0; path < 3; ++path)
	{
		std::array<uint8_t, 16> o; std::copy(x.begin(), x.end(), o.begin()); auto s = st; path == 0 ? Numeric::CMUL::PermuteR128P128U(s, o) : path == 1 ? Numeric::CMUL::PermuteR128P128C(s, o) : Numeric::CMUL::PermuteR128P128V(s, o);
		CHECK_EQ("cmul", Bytes(o.begin(), o.end()), w, "%s times %s, %s form", hx(x).c_str(), hx(hk).c_str(), path == 0 ? "unrolled" : path == 1 ? "compact" : "carry-less instruction"); MC_CHECK(s == st, "cmul", "the multiplication changes its key");
	}
}
static void cmul(size_t part, size_t parts)
{
	std::vector<Bytes> b, c; for (size_t i = 0; i < 128; ++i) { Bytes v(16, 0); v[i / 8] = (uint8_t)(1 << (i % 8)); b.push_back(v); }
	const uint32_t al[] = { 0, 0xffffffffu, 0x80000001u }; for (int i = 0; i < 81; ++i) { Bytes v(16); int k = i; for (size_t j = 0; j < 4; ++j) { memcpy(&v[4 * j], &al[k % 3], 4); k /= 3; } c.push_back(v); } c.push_back(pat(16, 1)); c.push_back(pat(16, 2)); c.push_back(Bytes(16, 0x55)); c.push_back(Bytes(16, 0xaa));
	auto all = [&](const std::vector<Bytes>& p, const std::vector<Bytes>& q) { for (size_t i = part; i < p.size(); i += parts) for (auto& y : q) cmulOne(p[i], y); }; all(b, b); all(c, c); all(b, c); all(c, b); mc::outcome(part);
}
static void ghash(size_t part, size_t parts)
{
	size_t top = mc::thorough() ? 70 : 50, n = 0;
	for (const Bytes& hk : { pat(16, 4), Bytes(16, 0xff) }) for (size_t a = 0; a <= 34; ++a) for (size_t t = 0; t <= top; ++t)
	{
		if (n++ % parts != part) continue; Bytes ad = pat(a, 5), m = pat(t, 6), w = ref::ghash(hk, ad, m); std::vector<uint64_t> key = { Tools::IntegerTools::BeBytesTo64(hk, 0), Tools::IntegerTools::BeBytesTo64(hk, 8) };
		for (size_t cut = 0; cut <= t; ++cut) { Digest::GHASH g; Bytes y(16, 0); g.Initialize(key); g.Multiply(ad, y, a); Bytes mm = cat(Bytes(3, 0xEE), m); mc::transition(); g.Update(mm, 3, y, cut); g.Update(mm, 3 + cut, y, t - cut); g.Finalize(y, a, t); CHECK_EQ("ghash", y, w, "%zu bytes of associated data, %zu+%zu of text", a, cut, t - cut); }
		mc::state(mc::combine(a, t));
	}
	mc::outcome(part);
}
static void donna()
{
	using Numeric::Donna128; std::vector<uint64_t> al = { 0, 1, 2, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffeffffffffull, 0xffffffff00000000ull, 0xfffffffffffffffeull, ~0ull, (1ull << 44) - 1, (1ull << 44), 0x123456789abcdef1ull };
	auto v = [](const Donna128& d) { return ((u128)d.High() << 64) | d.Low(); };
	auto eq = [&](const char* op, u128 got, u128 want, uint64_t a, uint64_t b, uint64_t c) { mc::transition(); MC_CHECK(got == want, "donna128", "128-bit %s of %llx %llx (%llx) gives %llx:%llx, exact arithmetic %llx:%llx", op, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)(got >> 64), (unsigned long long)got, (unsigned long long)(want >> 64), (unsigned long long)want); };
	for (uint64_t a : al) for (uint64_t b : al)
	{
		uint64_t lo = 0, hi = 0; Donna128::Mul64x64To128(a, b, &lo, &hi); eq("product", ((u128)hi << 64) | lo, (u128)a * b, a, b, 0); eq("product", v(Donna128(a) * b), (u128)a * b, a, b, 0);
		Donna128 x(a, b); u128 X = v(x); eq("value", X, ((u128)b << 64) | a, a, b, 0);
		for (uint64_t c : al) for (uint64_t d : al) { Donna128 y(c, d); u128 Y = v(y); eq("sum", v(x + y), X + Y, a, b, c); Donna128 z = x; z += y; eq("sum", v(z), X + Y, a, b, c); eq("or", v(x | y), X | Y, a, b, c); }
		for (uint64_t c : al) { eq("sum", v(x + c), X + c, a, b, c); Donna128 z = x; z += c; eq("sum", v(z), X + c, a, b, c); eq("mask", x & c, (uint64_t)X & c, a, b, c); z = x; eq("mask", z &= c, (uint64_t)X & c, a, b, c); eq("mask", v(z), (uint64_t)X & c, a, b, c); }
		for (size_t s = 0; s < 64; ++s) { eq("shift right", v(x >> s), X >> s, a, b, s); eq("shift left", v(x << s), X << s, a, b, s); Donna128 z = x; eq("carry", Donna128::CarryShift(z, s), (uint64_t)(X >> s), a, b, s); if (s) { Donna128 y(b, a); eq("combine", Donna128::CombineLow(z, s, y, 64 - s), (uint64_t)((X >> s) | (v(y) << (64 - s))), a, b, s); } }
	}
	mc::outcome(1);
}
void mc_register()
{
	auto split = [](const char* nm, size_t parts, void (*f)(size_t, size_t)) { for (size_t i = 0; i < parts; ++i) mc::job(std::string(nm) + std::to_string(i), [=] { f(i, parts); }); };
	split("field-pairs-", 8, fieldPairs); split("field-unary-", 8, fieldUnary); mc::job("sc-reduce", scReduce); split("sc-muladd-", 2, scMulAdd); mc::job("canonical", canonical); split("scalar-base-", 8, scalarBaseAll); mc::job("decode", decode);
	split("double-scalar-", 8, doubleScalar); split("x25519-", 4, x25519); split("ed25519-", 4, ed25519); mc::job("ed25519-degenerate", degenerate); split("poly1305-", 6, poly); split("cmul-", 4, cmul); split("ghash-", 4, ghash); mc::job("donna128", donna);
	mc::bounds("field: 1024 extreme-limb patterns paired with every 13th (thorough: all) of them and with 110 sparse ones for add/sub/mul/square, and with their carry-free sums and differences; 59049 limb patterns and 65536 encodings for the unary operations; scalars: 10,000 64-byte patterns, all triples of 50 boundary scalars; every nibble value at every place of a base multiplication and the carry chains that stop there; X25519: 23 scalars x 84 coordinates with every non-canonical form; Ed25519: 4 seeds x 18 lengths with every scalar alias; Poly1305: 24 r x 4 pads x all pairs of 37 boundary blocks; GHASH: all 128 x 128 basis products, 85^2 word patterns in three forms, all lengths and cuts up to 34 / 50 bytes");
	mc::assume("field operands are carried elements (limbs up to 2^25 / 2^24 in size) or carry-free sums of up to three of them, the range the curve formulas produce"); mc::assume("the 64-bit limb code is not compiled in the supported configuration and not covered");
}
