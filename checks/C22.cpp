// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of operations x lanes x boundary operands (all 16-bit values for the 16-bit lanes) against scalar arithmetic, on the implementation
// SIMD integer wrappers compute lane-wise scalar arithmetic.
#include "checks/common.h"
#include "UInt128.h"
#include "UInt256.h"
#include "ULong256.h"
#include "UShort128.h"
const char* const MC_PROPERTY = "C22";
using namespace CEX::Numeric;

template <class L> std::vector<L> alphabet()
{
	std::vector<L> v; const int W = 8 * sizeof(L);
	for (uint64_t x : { 0ull, 1ull, 2ull, 3ull, 0x55ull, 0x7full, 0x80ull, 0xffull, 0x100ull }) { v.push_back((L)x); v.push_back((L)~(L)x); }
	for (int s : { W / 4, W / 2 - 1, W / 2, W / 2 + 1, W - 2, W - 1 }) for (int d : { -1, 0, 1 }) v.push_back((L)(((L)1 << s) + (L)d));
	v.push_back((L)0x0123456789abcdefull); v.push_back((L)0xfedcba9876543210ull); v.push_back((L)0x8899aabbccddeeffull); v.push_back((L)0x9e3779b97f4a7c15ull); v.push_back((L)0xff00ff0000ff00ffull);
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
template <class V, class L> std::vector<L> lanes(const V& v) { std::vector<L> r(V::size() / sizeof(L) + 0); v.Store(r, 0); return r; }
template <class V, class L> V make(const std::vector<L>& v) { return V(v, 0); }
template <class L> std::string show(const std::vector<L>& v) { std::string s; char b[24]; for (L x : v) { std::snprintf(b, sizeof b, "%llx ", (unsigned long long)x); s += b; } return s; }
template <class L> void same(const char* op, const std::vector<L>& got, const std::vector<L>& want, const std::vector<L>& a, const std::vector<L>& b)
{
	if (got != want) mc::fail(op, "%s on %zu-bit lanes: (%s) with (%s) gives %s, scalar arithmetic gives %s", op, 8 * sizeof(L), show(a).c_str(), show(b).c_str(), show(got).c_str(), show(want).c_str());
}
template <class L> L bswap(L x) { L r = 0; for (size_t i = 0; i < sizeof(L); ++i) { r = (L)((r << 7 << 1) | (x & 0xff)); x = (L)(x >> 7 >> 1); } return r; }
template <class L> L rotl(L x, int s) { const int W = 8 * sizeof(L); s %= W; return s ? (L)((L)(x << s) | (L)(x >> (W - s))) : x; }
template <class L> using S = typename std::make_signed<L>::type;

template <class V, class L, class F, class G> void bin(const char* nm, const std::vector<L>& a, const std::vector<L>& b, F f, G g)
{
	V x = make<V, L>(a), y = make<V, L>(b); std::vector<L> w(a.size()); for (size_t i = 0; i < a.size(); ++i) w[i] = (L)g(a[i], b[i]);
	V r = f(x, y); same<L>(nm, lanes<V, L>(r), w, a, b); same<L>(nm, lanes<V, L>(y), b, a, b);
}
template <class V, class L> void binaries(const std::vector<L>& a, const std::vector<L>& b)
{
	const L ALL = (L)~(L)0; mc::transition();
#define BIN(OP) bin<V, L>("operator " #OP, a, b, [](V& x, V& y) { V r = x OP y; return r; }, [](L p, L q) { return p OP q; }); bin<V, L>("operator " #OP "=", a, b, [](V& x, V& y) { x OP##= y; return x; }, [](L p, L q) { return p OP q; })
	BIN(+); BIN(-); BIN(^); BIN(|); BIN(&);
	bin<V, L>("operator *", a, b, [](V& x, V& y) { V r = x * y; return r; }, [](L p, L q) { return (uint64_t)p * (uint64_t)q; }); bin<V, L>("operator *=", a, b, [](V& x, V& y) { x *= y; return x; }, [](L p, L q) { return (uint64_t)p * (uint64_t)q; });
	bool nz = true; for (L q : b) nz = nz && q != 0; if (nz) { BIN(/); BIN(%); }
	bin<V, L>("operator ||", a, b, [](V& x, V& y) { return x || y; }, [](L p, L q) { return p | q; }); bin<V, L>("operator &&", a, b, [](V& x, V& y) { return x && y; }, [](L p, L q) { return p & q; });
	bin<V, L>("AndNot", a, b, [](V& x, V& y) { return x.AndNot(y); }, [](L p, L q) { return (L)(~p & q); });
#define CMP(OP) bin<V, L>("operator " #OP, a, b, [](V& x, V& y) { return x OP y; }, [ALL](L p, L q) { return p OP q ? ALL : (L)0; })
	CMP(>); CMP(<); CMP(>=); CMP(<=); CMP(==); CMP(!=);
}
template <class V, class L, class F, class G> void un(const char* nm, const std::vector<L>& a, F f, G g) { V x = make<V, L>(a); std::vector<L> w(a.size()); for (size_t i = 0; i < a.size(); ++i) w[i] = (L)g(a[i]); V r = f(x); same<L>(nm, lanes<V, L>(r), w, a, a); }
template <class V> struct Spec;
template <> struct Spec<UInt128> { static void rotl(UInt128& x, int s) { x.RotL32(s); } static UInt128 rl(UInt128& x, int s) { return UInt128::RotL32(x, s); } static void rotr(UInt128& x, int s) { x.RotR32(s); } static UInt128 rr(UInt128& x, int s) { return UInt128::RotR32(x, s); } };
template <> struct Spec<UInt256> { static void rotl(UInt256& x, int s) { x.RotL32(s); } static UInt256 rl(UInt256& x, int s) { return UInt256::RotL32(x, s); } static void rotr(UInt256& x, int s) { x.RotR32(s); } static UInt256 rr(UInt256& x, int s) { return UInt256::RotR32(x, s); } };
template <> struct Spec<ULong256> { static void rotl(ULong256& x, int s) { x.RotL64(s); } static ULong256 rl(ULong256& x, int s) { return ULong256::RotL64(x, s); } static void rotr(ULong256& x, int s) { x.RotR64(s); } static ULong256 rr(ULong256& x, int s) { return ULong256::RotR64(x, s); } };
template <> struct Spec<UShort128> { static void rotl(UShort128& x, int s) { x.RotL16(s); } static UShort128 rl(UShort128& x, int s) { return UShort128::RotL16(x, s); } static void rotr(UShort128& x, int s) { x.RotR16(s); } static UShort128 rr(UShort128& x, int s) { return UShort128::RotR16(x, s); } };
template <class V, class L> void unaries(const std::vector<L>& a)
{
	const L ALL = (L)~(L)0; const int W = 8 * sizeof(L); mc::transition();
	un<V, L>("operator ~", a, [](V& x) { return ~x; }, [](L p) { return ~p; }); un<V, L>("operator !", a, [](V& x) { return !x; }, [ALL](L p) { return p ? (L)0 : ALL; });
	un<V, L>("prefix ++ (value)", a, [](V& x) { V r(++x); return r; }, [](L p) { return p + 1; }); un<V, L>("prefix ++ (operand)", a, [](V& x) { ++x; return x; }, [](L p) { return p + 1; });
	un<V, L>("postfix ++ (value)", a, [](V& x) { V r(x++); return r; }, [](L p) { return p; }); un<V, L>("postfix ++ (operand)", a, [](V& x) { x++; return x; }, [](L p) { return p + 1; });
	if constexpr (!std::is_same<V, ULong256>::value)
	{
		un<V, L>("prefix -- (value)", a, [](V& x) { V r(--x); return r; }, [](L p) { return p - 1; }); un<V, L>("prefix -- (operand)", a, [](V& x) { --x; return x; }, [](L p) { return p - 1; });
		un<V, L>("postfix -- (value)", a, [](V& x) { V r(x--); return r; }, [](L p) { return p; }); un<V, L>("postfix -- (operand)", a, [](V& x) { x--; return x; }, [](L p) { return p - 1; });
		un<V, L>("Negate", a, [](V& x) { return V::Negate(x); }, [](L p) { return (L)(0 - p); });
	}
	un<V, L>("Abs", a, [](V& x) { return V::Abs(x); }, [W](L p) { return (p >> (W - 1)) ? (L)(0 - p) : p; });
	un<V, L>("Swap", a, [](V& x) { return x.Swap(); }, [](L p) { return bswap<L>(p); }); un<V, L>("Swap (static)", a, [](V& x) { return V::Swap(x); }, [](L p) { return bswap<L>(p); });
	un<V, L>("assignment", a, [](V& x) { V y; y = x; return y; }, [](L p) { return p; });
}
template <class V, class L> void shifts(const std::vector<L>& a, int s)
{
	const int W = 8 * sizeof(L); mc::transition();
	if (s < W)
	{
		un<V, L>("operator <<", a, [s](V& x) { V r(x << s); return r; }, [s](L p) { return (L)(p << s); }); un<V, L>("operator <<=", a, [s](V& x) { x <<= s; return x; }, [s](L p) { return (L)(p << s); });
		un<V, L>("operator >>", a, [s](V& x) { V r(x >> s); return r; }, [s](L p) { return (L)(p >> s); }); un<V, L>("operator >>=", a, [s](V& x) { x >>= s; return x; }, [s](L p) { return (L)(p >> s); });
		if constexpr (std::is_same<L, uint32_t>::value) { un<V, L>("ShiftRL", a, [s](V& x) { return V::ShiftRL(x, s); }, [s](L p) { return (L)(p >> s); }); un<V, L>("ShiftRA", a, [s](V& x) { return V::ShiftRA(x, s); }, [s](L p) { return (L)((S<L>)p >> s); }); }
	}
	un<V, L>("RotL (static)", a, [s](V& x) { return Spec<V>::rl(x, s); }, [s](L p) { return rotl<L>(p, s); }); un<V, L>("RotL", a, [s](V& x) { Spec<V>::rotl(x, s); return x; }, [s](L p) { return rotl<L>(p, s); });
	un<V, L>("RotR (static)", a, [s](V& x) { return Spec<V>::rr(x, s); }, [s, W](L p) { return rotl<L>(p, (W - s) % W); }); un<V, L>("RotR", a, [s](V& x) { Spec<V>::rotr(x, s); return x; }, [s, W](L p) { return rotl<L>(p, (W - s) % W); });
}
template <class L> std::vector<L> distinct(size_t n, uint32_t tag) { std::vector<L> v(n); Bytes b = pat(n * sizeof(L), tag); if (n) std::memcpy(v.data(), b.data(), b.size()); return v; }
template <class V, class L> void memory()
{
	const size_t N = V::size() / sizeof(L);
	for (size_t off = 0; off < 9; ++off)
	{
		Bytes in = pat(off + V::size() + 40, 7); mc::transition();
		V a(in, off), b; b.Load(in, off);
		for (size_t o = 0; o < 5; ++o) { Guarded g(o, V::size(), 9); a.Store(g.buf, o); MC_CHECK(g.intact(), "store-overwrite", "Store writes outside the vector"); CHECK_EQ("load-store", g.window(), sub(in, off, V::size()), "constructor and Store at %zu/%zu", off, o); Guarded q(o, V::size(), 9); b.Store(q.buf, o); MC_CHECK(q.intact(), "store-overwrite", "Store writes outside the vector"); CHECK_EQ("load-store", q.window(), sub(in, off, V::size()), "Load and Store at %zu/%zu", off, o); }
		std::vector<L> w = distinct<L>(off + N, 9); V c(w, off); std::vector<L> o(N + off); c.Store(o, off); for (size_t i = 0; i < N; ++i) MC_CHECK(o[off + i] == w[off + i], "load-store", "typed lane %zu at offset %zu", i, off);
		{ std::vector<L> exact(N); Bytes eb(V::size()); V d(sub(in, off, V::size()), 0); d.Store(exact, 0); d.Store(eb, 0); CHECK_EQ("load-store", eb, sub(in, off, V::size()), "exactly sized arrays"); }
	}
	std::vector<L> z = lanes<V, L>(V::ZERO()), one = lanes<V, L>(V::ONE()); for (size_t i = 0; i < N; ++i) MC_CHECK(z[i] == 0 && one[i] == 1, "constants", "ZERO/ONE lane %zu", i);
	for (L x : alphabet<L>()) { V v(x), u; u.Load(x); for (L y : lanes<V, L>(v)) MC_CHECK(y == x, "broadcast", "constructor broadcast"); for (L y : lanes<V, L>(u)) MC_CHECK(y == x, "broadcast", "Load broadcast"); }
}
template <class V> void transpose4()
{
	const size_t N = V::size() / 4; 
	for (size_t off = 0; off < 5; ++off)
	{
		std::vector<uint32_t> in = distinct<uint32_t>(off + 4 * N, 21); V x[4]; mc::transition();
		V::Load4(in, off, x[0], x[1], x[2], x[3]);
		for (size_t r = 0; r < 4; ++r) { auto g = lanes<V, uint32_t>(x[r]); for (size_t i = 0; i < N; ++i) { size_t group = i / 4, c = i % 4; MC_CHECK(g[i] == in[off + c * N + group * 4 + r], "transpose", "Load4 row %zu lane %zu", r, i); } }
		std::vector<uint32_t> o(off + 4 * N + 3, 0xCCCCCCCC); V::Store4(o, off, x[0], x[1], x[2], x[3]); for (size_t i = 0; i < 4 * N; ++i) MC_CHECK(o[off + i] == in[off + i], "transpose", "Store4 does not undo Load4 at word %zu", i); for (size_t i = 0; i < off; ++i) MC_CHECK(o[i] == 0xCCCCCCCC, "store-overwrite", "Store4 writes before its window"); for (size_t i = off + 4 * N; i < o.size(); ++i) MC_CHECK(o[i] == 0xCCCCCCCC, "store-overwrite", "Store4 writes after its window");
		Bytes bi = pat(off + 4 * V::size(), 22); V y[4]; V::Load4(bi, off, y[0], y[1], y[2], y[3]); for (size_t r = 0; r < 4; ++r) { Bytes g(V::size()); y[r].Store(g, 0); for (size_t i = 0; i < V::size(); ++i) { size_t lane = i / 4, group = lane / 4, c = lane % 4; MC_CHECK(g[i] == bi[off + c * V::size() + group * 16 + r * 4 + i % 4], "transpose", "Load4 from bytes, row %zu byte %zu", r, i); } }
		Guarded bo(off, 4 * V::size(), 7); V::Store4(bo.buf, off, y[0], y[1], y[2], y[3]); MC_CHECK(bo.intact(), "store-overwrite", "Store4 to bytes writes outside its window"); CHECK_EQ("transpose", bo.window(), sub(bi, off, 4 * V::size()), "Store4 to bytes");
		V z[4]; for (size_t r = 0; r < 4; ++r) z[r].Load(in, off + r * N); V::Transpose(z[0], z[1], z[2], z[3]); for (size_t r = 0; r < 4; ++r) { auto g = lanes<V, uint32_t>(z[r]); for (size_t i = 0; i < N; ++i) MC_CHECK(g[i] == in[off + (i % 4) * N + (i / 4) * 4 + r], "transpose", "Transpose row %zu lane %zu", r, i); }
		V u; u.LoadUL(in, off); auto g = lanes<V, uint32_t>(u); for (size_t i = 0; i < N; ++i) MC_CHECK(g[i] == in[off + N - 1 - i], "load-ul", "LoadUL lane %zu", i); V ub; ub.LoadUL(bi, off); g = lanes<V, uint32_t>(ub); for (size_t i = 0; i < N; ++i) MC_CHECK(g[i] == bi[off + N - 1 - i], "load-ul", "LoadUL from bytes lane %zu", i);
	}
}
template <class V, class L> void jobs(const std::string& nm)
{
	/* a lane carries the operands under test while its neighbours carry values that would leak a carry or borrow into it */
	mc::job("binary/" + nm, [] { const size_t N = V::size() / sizeof(L); auto A = alphabet<L>(); L x = mc::pick(A); int nb = mc::choose(3);
		for (L y : A) for (size_t lane = 0; lane < N; ++lane) { std::vector<L> a(N, (L)(nb == 0 ? 0 : nb == 1 ? ~0ull : 0x5a5a5a5a5a5a5a5aull)), b(N, (L)(nb == 0 ? 1 : nb == 1 ? ~0ull : 0xc3c3c3c3c3c3c3c3ull)); a[lane] = x; b[lane] = y; binaries<V, L>(a, b); mc::state(mc::combine(mc::combine(x, y), lane * 3 + (size_t)nb)); } });
	mc::job("unary/" + nm, [] { const size_t N = V::size() / sizeof(L); auto A = alphabet<L>(); L x = mc::pick(A); int nb = mc::choose(3);
		for (size_t lane = 0; lane < N; ++lane) { std::vector<L> a(N, (L)(nb == 0 ? 0 : nb == 1 ? ~0ull : 0x8123456780000001ull)); a[lane] = x; unaries<V, L>(a); for (int s = 0; s <= (int)(8 * sizeof(L)); ++s) shifts<V, L>(a, s); } });
	mc::job("distinct/" + nm, [] { const size_t N = V::size() / sizeof(L); uint32_t t = 100 + (uint32_t)mc::choose(64); auto a = distinct<L>(N, t), b = distinct<L>(N, t + 1000); for (auto& q : b) if (!q) q = 1; binaries<V, L>(a, b); binaries<V, L>(a, a); unaries<V, L>(a); for (int s = 0; s <= (int)(8 * sizeof(L)); ++s) shifts<V, L>(a, s); });
	mc::job("memory/" + nm, [] { memory<V, L>(); });
}
void mc_register()
{
	mc::bounds("every operation of UInt128, UInt256, ULong256, UShort128: every lane position x boundary operand pair (about 35x35 values per width) x 3 neighbour fillings; every shift and rotate count; unary and shift operations on all 65536 values of a 16-bit lane, binary operations of every 16-bit value with each boundary value; loads, stores, interleaved and transposed forms at offsets 0..8 on byte and word arrays with guard bytes");
	mc::assume("AndNot follows the instruction (not this, and operand); the multi-argument constructors take the most significant lane first, as the callers rely on; the AVX512 wrappers are not compiled in this configuration");
	jobs<UInt128, uint32_t>("UInt128"); jobs<UInt256, uint32_t>("UInt256"); jobs<ULong256, uint64_t>("ULong256"); jobs<UShort128, uint16_t>("UShort128");
	mc::job("transpose/UInt128", [] { transpose4<UInt128>(); }); mc::job("transpose/UInt256", [] { transpose4<UInt256>(); });
	for (int part = 0; part < 16; ++part) mc::job("all-16-bit/" + std::to_string(part), [part] {
		auto A = alphabet<uint16_t>(); 
		for (uint32_t x = (uint32_t)part << 12; x < (uint32_t)(part + 1) << 12; x += 4)
		{
			std::vector<uint16_t> a(8); for (size_t i = 0; i < 8; ++i) a[i] = (uint16_t)(i < 4 ? x + i : ~(x + i - 4)); unaries<UShort128, uint16_t>(a); for (int s = 0; s <= 16; ++s) shifts<UShort128, uint16_t>(a, s);
			for (size_t k = 0; k < A.size(); k += mc::thorough() ? 1 : 4) { std::vector<uint16_t> b(8); for (size_t i = 0; i < 8; ++i) b[i] = A[(k + i / 4 * 3 + (x >> 2)) % A.size()]; binaries<UShort128, uint16_t>(a, b); }
		}
	});
	mc::job("multi-argument", [] {
		mc::transition(); std::vector<uint32_t> w = distinct<uint32_t>(8, 5); std::vector<uint64_t> q = distinct<uint64_t>(8, 6); std::vector<uint16_t> s = distinct<uint16_t>(8, 8);
		UInt128 a(w[3], w[2], w[1], w[0]), a2; a2.Load(w[3], w[2], w[1], w[0]); UInt256 b(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]), b2; b2.Load(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]); ULong256 c(q[3], q[2], q[1], q[0]), c2; c2.Load(q[3], q[2], q[1], q[0]); UShort128 d(s[7], s[6], s[5], s[4], s[3], s[2], s[1], s[0]), d2; d2.Load(s[7], s[6], s[5], s[4], s[3], s[2], s[1], s[0]);
		for (size_t i = 0; i < 8; ++i) { if (i < 4) { MC_CHECK((lanes<UInt128, uint32_t>(a)[i] == w[i] && lanes<UInt128, uint32_t>(a2)[i] == w[i]), "multi-argument", "UInt128 lane %zu", i); MC_CHECK((lanes<ULong256, uint64_t>(c)[i] == q[i] && lanes<ULong256, uint64_t>(c2)[i] == q[i]), "multi-argument", "ULong256 lane %zu", i); } MC_CHECK((lanes<UInt256, uint32_t>(b)[i] == w[i] && lanes<UInt256, uint32_t>(b2)[i] == w[i]), "multi-argument", "UInt256 lane %zu", i); MC_CHECK((lanes<UShort128, uint16_t>(d)[i] == s[i] && lanes<UShort128, uint16_t>(d2)[i] == s[i]), "multi-argument", "UShort128 lane %zu", i); }
		uint64_t x[4]; c.Store(x[0], x[1], x[2], x[3]); for (int i = 0; i < 4; ++i) MC_CHECK(x[i] == q[(size_t)i], "store-lanes", "ULong256 Store to integers, lane %d", i);
		for (size_t off = 0; off < 4; ++off) { std::vector<uint64_t> in = distinct<uint64_t>(off + 4, 11); ULong256 u; u.LoadULL(in, off); for (size_t i = 0; i < 4; ++i) MC_CHECK((lanes<ULong256, uint64_t>(u)[i] == in[off + 3 - i]), "load-ul", "LoadULL lane %zu", i); Bytes bi = pat(off + 4, 12); ULong256 ub; ub.LoadULL(bi, off); for (size_t i = 0; i < 4; ++i) MC_CHECK((lanes<ULong256, uint64_t>(ub)[i] == bi[off + 3 - i]), "load-ul", "LoadULL from bytes lane %zu", i); }
		UShort128 t[8]; uint16_t m[8][8]; for (size_t r = 0; r < 8; ++r) { std::vector<uint16_t> row = distinct<uint16_t>(8, 60 + (uint32_t)r); for (size_t k = 0; k < 8; ++k) m[r][k] = row[k]; t[r].Load(row, 0); } UShort128::Transpose8(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]); for (size_t r = 0; r < 8; ++r) for (size_t k = 0; k < 8; ++k) MC_CHECK((lanes<UShort128, uint16_t>(t[r])[k] == m[k][r]), "transpose", "Transpose8 row %zu lane %zu", r, k);
	});
}
