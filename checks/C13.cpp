// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive bounded enumeration of helper calls (length x offset x alphabet) against byte-by-byte definitions, on the implementation
// Integer, memory and array helpers equal their scalar definitions and touch exactly the bytes they are told to.
#include "checks/common.h"
#include "ArrayTools.h"
#include "BitConverter.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
using Tools::IntegerTools; using Tools::MemoryTools; using Tools::ArrayTools;
const char* const MC_PROPERTY = "C13";
static const std::vector<uint8_t> AL{ 0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff };

template <class T> Bytes raw(const std::vector<T>& v) { Bytes b(v.size() * sizeof(T)); if (b.size()) std::memcpy(b.data(), v.data(), b.size()); return b; }
template <class T> std::vector<T> arr(size_t n, uint32_t tag) { std::vector<T> v(n); Bytes b = pat(n * sizeof(T), tag); if (n) std::memcpy(v.data(), b.data(), b.size()); return v; }

/* ---- memory operations over element type pairs ---- */
template <class A, class B> void memOps(const std::string& nm)
{
	mc::job("mem/" + nm, [] {
		int op = mc::choose(8); size_t io = (size_t)mc::choose(4), oo = (size_t)mc::choose(4); size_t align = std::max(sizeof(A), sizeof(B));
		for (size_t len = 0; len <= 200; ++len)
		{
			bool same = sizeof(A) == sizeof(B); if (!same && len % align) continue;                 /* whole elements of both types */
			if (op >= 2 && op <= 4 && len < align) continue;                                        /* documented: at least one element */
			std::vector<A> in = arr<A>(io + len / sizeof(A) + 2, 3); std::vector<B> out = arr<B>(oo + len / sizeof(B) + 2, 4);
			Bytes ri = raw(in), want = raw(out); const uint8_t* s = ri.data() + io * sizeof(A); size_t d = oo * sizeof(B); std::vector<A> in0 = in;
			switch (op)
			{
			case 0: MemoryTools::Copy(in, io, out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] = s[i]; break;
			case 1: MemoryTools::Move(in, io, out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] = s[i]; break;
			case 2: MemoryTools::XOR(in, io, out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] ^= s[i]; break;
			case 3: MemoryTools::AND(in, io, out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] &= s[i]; break;
			case 4: MemoryTools::OR(in, io, out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] |= s[i]; break;
			case 5: MemoryTools::Clear(out, oo, len); for (size_t i = 0; i < len; ++i) want[d + i] = 0; break;
			case 6: MemoryTools::SetValue(out, oo, len, 0x5C); for (size_t i = 0; i < len; ++i) want[d + i] = 0x5C; break;
			default: { SecureVector<B> so(out.begin(), out.end()); MemoryTools::Copy(in, io, so, oo, len); out.assign(so.begin(), so.end()); for (size_t i = 0; i < len; ++i) want[d + i] = s[i]; break; }
			}
			mc::transition(); mc::state(mc::combine(mc::combine((uint64_t)op, len), io * 7 + oo));
			CHECK_EQ("memory-op", raw(out), want, "memory operation %d (0 copy,1 move,2 xor,3 and,4 or,5 clear,6 set,7 secure copy) of %zu bytes, offsets %zu/%zu, element sizes %zu/%zu", op, len, io, oo, sizeof(A), sizeof(B));
			MC_CHECK(in == in0, "memory-input", "operation %d changed its input", op);
		}
	});
}
/* objects of more than one byte: the copy is of the object's bytes, none beyond it */
template <class T, size_t N> void structObject()
{
	struct Obj { uint64_t w[N / 8]; }; std::unique_ptr<Obj> o(new Obj); size_t oo = (size_t)mc::choose(3), cut = mc::flip() ? sizeof(T) : 0, len = N - cut;
	Bytes ri = pat(N, 61); std::memcpy(o.get(), ri.data(), N);
	std::vector<T> out = arr<T>(oo + N / sizeof(T) + 2, 9); Bytes want = raw(out); for (size_t i = 0; i < len; ++i) want[oo * sizeof(T) + i] = ri[i];
	MemoryTools::CopyFromObject(o.get(), out, oo, len); MC_OP("CopyFromObject %zu-byte object", N); CHECK_EQ("copy-struct", raw(out), want, "CopyFromObject of %zu bytes of a %zu-byte object", len, N);
	Bytes rb = pat(N, 62); std::memcpy(o.get(), rb.data(), N); for (size_t i = 0; i < len; ++i) rb[i] = ri[i];
	MemoryTools::CopyToObject(out, oo, o.get(), len); MC_OP("CopyToObject"); Bytes got(N); std::memcpy(got.data(), o.get(), N); CHECK_EQ("copy-struct", got, rb, "CopyToObject of %zu bytes into a %zu-byte object", len, N);
	std::vector<uint8_t> v = pat(oo, 5), w = cat(v, got); CEX::Tools::ArrayTools::AppendObject(o.get(), v, N); CHECK_EQ("copy-struct", v, w, "AppendObject of a %zu-byte object", N);
}
template <class T> void fixedOps(const std::string& nm)
{
	mc::job("fixed/" + nm, [] {
		int op = mc::choose(24); size_t io = (size_t)mc::choose(3), oo = (size_t)mc::choose(3); size_t n = op < 20 ? (op % 4 == 0 ? 16u : op % 4 == 1 ? 32u : op % 4 == 2 ? 64u : 128u) : 16u << (op - 20);
		std::vector<T> in = arr<T>(io + 128 / sizeof(T) + 2, 3), out = arr<T>(oo + 128 / sizeof(T) + 2, 4), in0 = in; Bytes ri = raw(in), want = raw(out); const uint8_t* s = ri.data() + io * sizeof(T); size_t d = oo * sizeof(T);
		auto each = [&](auto f) { for (size_t i = 0; i < n; ++i) want[d + i] = (uint8_t)f(want[d + i], s[i]); };
		switch (op)
		{
		case 0: MemoryTools::COPY128(in, io, out, oo); each([](int, int b) { return b; }); break;
		case 1: MemoryTools::COPY256(in, io, out, oo); each([](int, int b) { return b; }); break;
		case 2: MemoryTools::COPY512(in, io, out, oo); each([](int, int b) { return b; }); break;
		case 4: MemoryTools::XOR128(in, io, out, oo); each([](int a, int b) { return a ^ b; }); break;
		case 5: MemoryTools::XOR256(in, io, out, oo); each([](int a, int b) { return a ^ b; }); break;
		case 6: MemoryTools::XOR512(in, io, out, oo); each([](int a, int b) { return a ^ b; }); break;
		case 7: MemoryTools::XOR1024(in, io, out, oo); each([](int a, int b) { return a ^ b; }); break;
		case 8: MemoryTools::AND128(in, io, out, oo); each([](int a, int b) { return a & b; }); break;
		case 9: MemoryTools::AND256(in, io, out, oo); each([](int a, int b) { return a & b; }); break;
		case 10: MemoryTools::AND512(in, io, out, oo); each([](int a, int b) { return a & b; }); break;
		case 12: MemoryTools::OR128(in, io, out, oo); each([](int a, int b) { return a | b; }); break;
		case 13: MemoryTools::OR256(in, io, out, oo); each([](int a, int b) { return a | b; }); break;
		case 14: MemoryTools::OR512(in, io, out, oo); each([](int a, int b) { return a | b; }); break;
		case 16: MemoryTools::CLEAR128(out, oo); each([](int, int) { return 0; }); break;
		case 17: MemoryTools::CLEAR256(out, oo); each([](int, int) { return 0; }); break;
		case 18: MemoryTools::CLEAR512(out, oo); each([](int, int) { return 0; }); break;
		case 20: MemoryTools::SETVAL128(out, oo, 0x91); each([](int, int) { return 0x91; }); break;
		case 21: MemoryTools::SETVAL256(out, oo, 0x91); each([](int, int) { return 0x91; }); break;
		case 22: MemoryTools::SETVAL512(out, oo, 0x91); each([](int, int) { return 0x91; }); break;
		default: return;
		}
		MC_OP("fixed op %d", op); CHECK_EQ("fixed-op", raw(out), want, "fixed width operation %d on %zu-byte elements, offsets %zu/%zu", op, sizeof(T), io, oo); MC_CHECK(in == in0, "fixed-input", "operation %d changed its input", op);
	});
	mc::job("struct-object/" + nm, [] { structObject<T, 8>(); structObject<T, 24>(); structObject<T, 48>(); structObject<T, 72>(); structObject<T, 104>(); structObject<T, 264>(); });
	mc::job("object/" + nm, [] {
		size_t oo = (size_t)mc::choose(4);
		for (size_t k = 0; k <= 40; ++k)
		{
			size_t len = k * sizeof(T); std::vector<T> in = arr<T>(k + 1, 8), out = arr<T>(oo + k + 2, 9); Bytes ri = raw(in), want = raw(out); for (size_t i = 0; i < len; ++i) want[oo * sizeof(T) + i] = ri[i];
			MemoryTools::CopyFromObject(in.data(), out, oo, len); mc::transition(); CHECK_EQ("copy-object", raw(out), want, "CopyFromObject of %zu bytes", len);
			std::vector<T> back = arr<T>(k + 2, 10); want = raw(back); for (size_t i = 0; i < len; ++i) want[i] = ri[i]; MemoryTools::CopyToObject(out, oo, back.data(), len); CHECK_EQ("copy-object", raw(back), want, "CopyToObject of %zu bytes", len);
			Bytes ra = pat(len + 2, 21), rb = pat(len + 2, 22), rw = rb; if (len) { for (size_t i = 0; i < len; ++i) rw[i] = ra[i]; MemoryTools::CopyRaw(ra.data(), rb.data(), len); CHECK_EQ("raw-op", rb, rw, "CopyRaw of %zu", len); for (size_t i = 0; i < len; ++i) rw[i] ^= (uint8_t)(ra[i] + 1); Bytes rc = ra; for (auto& b : rc) ++b; MemoryTools::XorRaw(rc.data(), rb.data(), len); CHECK_EQ("raw-op", rb, rw, "XorRaw of %zu", len); for (size_t i = 0; i < len; ++i) rw[i] = 0; MemoryTools::ClearRaw(rb.data(), len); CHECK_EQ("raw-op", rb, rw, "ClearRaw of %zu", len); }
			for (size_t x = 0; x <= k; ++x) { std::vector<T> a = arr<T>(k + 3, 30), b(a.begin() + 1, a.end()); if (x < k) b[x] ^= (T)((T)1 << ((x * 5) % (8 * sizeof(T)))); bool eq = x == k; MC_CHECK(MemoryTools::Compare(a, 1, b, 0, k) == eq, "compare", "MemoryTools::Compare of %zu elements differing at %zu", k, x); MC_CHECK(IntegerTools::Compare(a, 1, b, 0, k) == eq, "compare", "IntegerTools::Compare of %zu elements differing at %zu", k, x); MC_CHECK((IntegerTools::Verify(a, 1, b, 0, k) == 0) == eq, "compare", "Verify with offsets, %zu differing at %zu", k, x); std::vector<T> a1(a.begin() + 1, a.end()); MC_CHECK((IntegerTools::Verify(a1, b, k) == 0) == eq, "compare", "Verify %zu differing at %zu", k, x); mc::transition(); }
			for (size_t bit = 0; bit < 8 * sizeof(T) && k == 1; ++bit) { std::vector<T> a(1, (T)0), b(1, (T)((T)1 << bit)); MC_CHECK(!MemoryTools::Compare(a, 0, b, 0, 1) && !IntegerTools::Compare(a, 0, b, 0, 1) && IntegerTools::Verify(a, b, 1) != 0, "compare", "difference in bit %zu is not seen", bit); }
		}
		for (size_t k = 0; k < 80; ++k) { std::vector<T> v = arr<T>(k, 77); IntegerTools::Clear(v); for (auto x : v) MC_CHECK(x == 0, "clear", "IntegerTools::Clear left data at size %zu", k); mc::transition(); }
	});
}
/* ---- byte order ---- */
template <class T> T fromBE(const uint8_t* p) { T r = 0; for (size_t i = 0; i < sizeof(T); ++i) r = (T)((r << 7 << 1) | p[i]); return r; }
template <class T> T fromLE(const uint8_t* p) { T r = 0; for (size_t i = sizeof(T); i-- > 0;) r = (T)((r << 7 << 1) | p[i]); return r; }
static void byteOrder()
{
	mc::job("byte-order", [] {
		size_t off = (size_t)mc::choose(5); int pos = mc::choose(8); 
		for (int v = 0; v < 256; ++v) for (int fill = 0; fill < 3; ++fill)
		{
			Bytes in(off + 8 + 3, (uint8_t)(fill == 0 ? 0 : fill == 1 ? 0xff : 0x81)); in[off + (size_t)pos] = (uint8_t)v; const uint8_t* p = &in[off]; mc::transition();
			uint16_t b16 = fromBE<uint16_t>(p), l16 = fromLE<uint16_t>(p); uint32_t b32 = fromBE<uint32_t>(p), l32 = fromLE<uint32_t>(p); uint64_t b64 = fromBE<uint64_t>(p), l64 = fromLE<uint64_t>(p);
#define TQ(e, w, n) MC_CHECK((e) == (w), "byte-order", "%s: value byte %d = %02x", n, pos, v)
			TQ(IntegerTools::BeBytesTo16(in, off), b16, "BeBytesTo16"); TQ(IntegerTools::BeBytesTo32(in, off), b32, "BeBytesTo32"); TQ(IntegerTools::BeBytesTo64(in, off), b64, "BeBytesTo64");
			TQ(IntegerTools::LeBytesTo16(in, off), l16, "LeBytesTo16"); TQ(IntegerTools::LeBytesTo32(in, off), l32, "LeBytesTo32"); TQ(IntegerTools::LeBytesTo64(in, off), l64, "LeBytesTo64");
			TQ(IntegerTools::BeBytesTo16Raw(p), b16, "BeBytesTo16Raw"); TQ(IntegerTools::BeBytesTo32Raw(p), b32, "BeBytesTo32Raw"); TQ(IntegerTools::BeBytesTo64Raw(p), b64, "BeBytesTo64Raw");
			TQ(IntegerTools::LeBytesTo16Raw(p), l16, "LeBytesTo16Raw"); TQ(IntegerTools::LeBytesTo32Raw(p), l32, "LeBytesTo32Raw"); TQ(IntegerTools::LeBytesTo64Raw(p), l64, "LeBytesTo64Raw");
			for (size_t n = 1; n <= 4; ++n) { uint32_t w = 0; for (size_t i = 0; i < n; ++i) w |= (uint32_t)p[i] << (8 * i); TQ(IntegerTools::LeBytesTo32(in, off, n), w, "LeBytesTo32(length)"); }
			for (size_t n = 1; n <= 8; ++n) { uint64_t w = 0; for (size_t i = 0; i < n; ++i) w |= (uint64_t)p[i] << (8 * i); TQ(IntegerTools::LeBytesTo64(in, off, n), w, "LeBytesTo64(length)"); }
			TQ(IO::BitConverter::ToUInt16(in, off), l16, "ToUInt16"); TQ(IO::BitConverter::ToUInt32(in, off), l32, "ToUInt32"); TQ(IO::BitConverter::ToUInt64(in, off), l64, "ToUInt64"); TQ((uint16_t)IO::BitConverter::ToInt16(in, off), l16, "ToInt16"); TQ((uint32_t)IO::BitConverter::ToInt32(in, off), l32, "ToInt32"); TQ((uint64_t)IO::BitConverter::ToInt64(in, off), l64, "ToInt64"); TQ(IO::BitConverter::ToUChar(in, off), p[0], "ToUChar"); TQ((uint8_t)IO::BitConverter::ToChar(in, off), p[0], "ToChar");
			{ double d = IO::BitConverter::ToDouble(in, off); float f = IO::BitConverter::ToFloat(in, off); MC_CHECK(!std::memcmp(&d, p, 8) && !std::memcmp(&f, p, 4), "byte-order", "floating point conversion"); }
			auto W = [&](const char* n, size_t len, auto f) { Guarded g(off, len, 5); f(g); MC_CHECK(g.intact(), "byte-order-overwrite", "%s writes outside its bytes", n); CHECK_EQ("byte-order", g.window(), Bytes(p, p + len), "%s", n); };
			W("Be16ToBytes", 2, [&](Guarded& g) { IntegerTools::Be16ToBytes(b16, g.buf, off); }); W("Be32ToBytes", 4, [&](Guarded& g) { IntegerTools::Be32ToBytes(b32, g.buf, off); }); W("Be64ToBytes", 8, [&](Guarded& g) { IntegerTools::Be64ToBytes(b64, g.buf, off); });
			W("Le16ToBytes", 2, [&](Guarded& g) { IntegerTools::Le16ToBytes(l16, g.buf, off); }); W("Le32ToBytes", 4, [&](Guarded& g) { IntegerTools::Le32ToBytes(l32, g.buf, off); }); W("Le64ToBytes", 8, [&](Guarded& g) { IntegerTools::Le64ToBytes(l64, g.buf, off); });
			W("Be16ToBytesRaw", 2, [&](Guarded& g) { IntegerTools::Be16ToBytesRaw(b16, &g.buf[off]); }); W("Be32ToBytesRaw", 4, [&](Guarded& g) { IntegerTools::Be32ToBytesRaw(b32, &g.buf[off]); }); W("Be64ToBytesRaw", 8, [&](Guarded& g) { IntegerTools::Be64ToBytesRaw(b64, &g.buf[off]); });
			W("Le16ToBytesRaw", 2, [&](Guarded& g) { IntegerTools::Le16ToBytesRaw(l16, &g.buf[off]); }); W("Le32ToBytesRaw", 4, [&](Guarded& g) { IntegerTools::Le32ToBytesRaw(l32, &g.buf[off]); }); W("Le64ToBytesRaw", 8, [&](Guarded& g) { IntegerTools::Le64ToBytesRaw(l64, &g.buf[off]); });
			CHECK_EQ("byte-order", IntegerTools::Be16ToBytes<Bytes>(b16), Bytes(p, p + 2), "Be16ToBytes return"); CHECK_EQ("byte-order", IntegerTools::Be32ToBytes<Bytes>(b32), Bytes(p, p + 4), "Be32ToBytes return"); CHECK_EQ("byte-order", IntegerTools::Be64ToBytes<Bytes>(b64), Bytes(p, p + 8), "Be64ToBytes return");
			CHECK_EQ("byte-order", IntegerTools::Le16ToBytes<Bytes>(l16), Bytes(p, p + 2), "Le16ToBytes return"); CHECK_EQ("byte-order", IntegerTools::Le32ToBytes<Bytes>(l32), Bytes(p, p + 4), "Le32ToBytes return"); CHECK_EQ("byte-order", IntegerTools::Le64ToBytes<Bytes>(l64), Bytes(p, p + 8), "Le64ToBytes return");
			for (size_t i = 0; i < 8; ++i) MC_CHECK(IntegerTools::GetByte<uint64_t>(b64, i) == p[i], "get-byte", "GetByte index %zu", i);
		}
	});
	mc::job("byte-order-blocks", [] {
		size_t io = (size_t)mc::choose(3), oo = (size_t)mc::choose(3); int kind = mc::choose(2);
		auto D = [&](size_t n) { Bytes b = pat(n, 50); if (kind) for (auto& x : b) x |= 0x80; return b; };
		Bytes in = D(io + 136); const uint8_t* s = &in[io];
		std::vector<uint32_t> o32 = arr<uint32_t>(oo + 34, 60); std::vector<uint64_t> o64 = arr<uint64_t>(oo + 18, 61); std::vector<uint16_t> o16 = arr<uint16_t>(oo + 66, 62);
		auto C32 = [&](const char* n, size_t w, auto f, bool be) { auto o = o32; auto want = o; for (size_t i = 0; i < w; ++i) want[oo + i] = be ? fromBE<uint32_t>(s + 4 * i) : fromLE<uint32_t>(s + 4 * i); f(o); MC_OP("%s", n); CHECK_EQ("byte-order-block", raw(o), raw(want), "%s", n); };
		auto C64 = [&](const char* n, size_t w, auto f, bool be) { auto o = o64; auto want = o; for (size_t i = 0; i < w; ++i) want[oo + i] = be ? fromBE<uint64_t>(s + 8 * i) : fromLE<uint64_t>(s + 8 * i); f(o); MC_OP("%s", n); CHECK_EQ("byte-order-block", raw(o), raw(want), "%s", n); };
		C32("LeBytesToUL512", 16, [&](auto& o) { IntegerTools::LeBytesToUL512(in, io, o, oo); }, false);
		C64("LeBytesToULL256", 4, [&](auto& o) { IntegerTools::LeBytesToULL256(in, io, o, oo); }, false); C64("LeBytesToULL512", 8, [&](auto& o) { IntegerTools::LeBytesToULL512(in, io, o, oo); }, false); C64("LeBytesToULL1024", 16, [&](auto& o) { IntegerTools::LeBytesToULL1024(in, io, o, oo); }, false);
		for (size_t w = 0; w <= 16; ++w)
		{
			C32("BlockToBe32", w, [&](auto& o) { IntegerTools::BlockToBe(in, io, o, oo, 4 * w); }, true); C32("BlockToLe32", w, [&](auto& o) { IntegerTools::BlockToLe(in, io, o, oo, 4 * w); }, false);
			C64("BlockToBe64", w, [&](auto& o) { IntegerTools::BlockToBe(in, io, o, oo, 8 * w); }, true); C64("BlockToLe64", w, [&](auto& o) { IntegerTools::BlockToLe(in, io, o, oo, 8 * w); }, false);
			std::vector<uint32_t> w32 = arr<uint32_t>(io + 18, 70); std::vector<uint64_t> w64 = arr<uint64_t>(io + 18, 71);
			for (int be = 0; be < 2; ++be) { Guarded g(oo, 4 * w, 4), g8(oo, 8 * w, 4); Bytes e, e8; for (size_t i = 0; i < w; ++i) { for (size_t j = 0; j < 4; ++j) e.push_back((uint8_t)(w32[io + i] >> (8 * (be ? 3 - j : j)))); for (size_t j = 0; j < 8; ++j) e8.push_back((uint8_t)(w64[io + i] >> (8 * (be ? 7 - j : j)))); }
				if (be) { IntegerTools::BeToBlock(w32, io, g.buf, oo, 4 * w); IntegerTools::BeToBlock(w64, io, g8.buf, oo, 8 * w); } else { IntegerTools::LeToBlock(w32, io, g.buf, oo, 4 * w); IntegerTools::LeToBlock(w64, io, g8.buf, oo, 8 * w); }
				mc::transition(); CHECK_EQ("byte-order-block", g.window(), e, "words32 to bytes be=%d", be); CHECK_EQ("byte-order-block", g8.window(), e8, "words64 to bytes be=%d", be); MC_CHECK(g.intact() && g8.intact(), "byte-order-overwrite", "block conversion wrote outside"); }
		}
		std::vector<uint32_t> w32 = arr<uint32_t>(io + 18, 70); std::vector<uint64_t> w64 = arr<uint64_t>(io + 18, 71);
		auto O = [&](const char* n, size_t len, auto f, bool be, bool is64) { Guarded g(oo, len, 4); f(g.buf); Bytes e; for (size_t i = 0; i < len; ++i) { if (is64) e.push_back((uint8_t)(w64[io + i / 8] >> (8 * (be ? 7 - i % 8 : i % 8)))); else e.push_back((uint8_t)(w32[io + i / 4] >> (8 * (be ? 3 - i % 4 : i % 4)))); } MC_OP("%s", n); CHECK_EQ("byte-order-block", g.window(), e, "%s", n); MC_CHECK(g.intact(), "byte-order-overwrite", "%s wrote outside", n); };
		O("BeUL256ToBlock", 32, [&](Bytes& o) { IntegerTools::BeUL256ToBlock(w32, io, o, oo); }, true, false); O("BeULL512ToBlock", 64, [&](Bytes& o) { IntegerTools::BeULL512ToBlock(w64, io, o, oo); }, true, true);
		O("LeUL256ToBlock", 32, [&](Bytes& o) { IntegerTools::LeUL256ToBlock(w32, io, o, oo); }, false, false); O("LeULL256ToBlock", 32, [&](Bytes& o) { IntegerTools::LeULL256ToBlock(w64, io, o, oo); }, false, true); O("LeULL512ToBlock", 64, [&](Bytes& o) { IntegerTools::LeULL512ToBlock(w64, io, o, oo); }, false, true); O("LeULL1024ToBlock", 128, [&](Bytes& o) { IntegerTools::LeULL1024ToBlock(w64, io, o, oo); }, false, true);
	});
}
/* ---- counters: every 4-byte window over the carry alphabet, at every position ---- */
template <class T> void increase(const std::string& nm)
{
	mc::job("increase/" + nm, [] {
		size_t n = mc::pick(std::vector<size_t>{ 1, 2, 3, 4, 8, 9, 12, 16 }); int fill = mc::choose(3); size_t at = (size_t)mc::choose((int)std::min<size_t>(n, 9)); std::vector<uint64_t> vs;
		for (uint64_t a : { 0u, 1u, 2u, 0x7fu, 0x80u, 0xfeu, 0xffu }) for (int sh = 0; sh < (int)sizeof(T); ++sh) { vs.push_back(a << (8 * sh)); vs.push_back((a << (8 * sh)) | 0xff); vs.push_back(~(a << (8 * sh))); }
		for (int c = 0; c < 6 * 6 * 6; ++c)
		{
			Bytes x(n, fill == 0 ? 0 : fill == 1 ? 0xff : 0x7f); int k = c; for (size_t i = 0; i < 3; ++i, k /= 6) if (at + i < n) x[at + i] = AL[(size_t)(k % 6)];
			for (uint64_t v64 : vs)
			{
				T v = (T)v64; Bytes be = x, le = x; { unsigned __int128 cy = v; for (size_t i = n; i-- > 0;) { cy += be[i]; be[i] = (uint8_t)cy; cy >>= 8; } cy = v; for (size_t i = 0; i < n; ++i) { cy += le[i]; le[i] = (uint8_t)cy; cy >>= 8; } }
				Bytes a = x; IntegerTools::BeIncrease8(a, v); CHECK_EQ("increase", a, be, "BeIncrease8(%s, %llx)", hx(x).c_str(), (unsigned long long)v);
				Bytes b(n); IntegerTools::BeIncrease8(x, b, v); CHECK_EQ("increase", b, be, "BeIncrease8(in,out,%llx) of %s", (unsigned long long)v, hx(x).c_str());
				for (size_t off = 0; off < 4; off += 3)
				{
					Guarded g(off, n, 3); IntegerTools::BeIncrease8(x, g.buf, off, v); CHECK_EQ("increase", g.window(), be, "BeIncrease8 at offset %zu of %s by %llx", off, hx(x).c_str(), (unsigned long long)v); MC_CHECK(g.intact(), "increase-overwrite", "BeIncrease8 wrote outside");
					Guarded gl(off, n, 3); IntegerTools::LeIncrease8(x, gl.buf, off, v); CHECK_EQ("increase", gl.window(), le, "LeIncrease8 at offset %zu of %s by %llx", off, hx(x).c_str(), (unsigned long long)v); MC_CHECK(gl.intact(), "increase-overwrite", "LeIncrease8 wrote outside");
					Guarded g2(off, n, 3); IntegerTools::BeIncrease8(x, g2.buf, off, n, v); CHECK_EQ("increase", g2.window(), be, "BeIncrease8 length form of %s", hx(x).c_str()); MC_CHECK(g2.intact(), "increase-overwrite", "BeIncrease8 wrote outside");
					Guarded g3(off, n, 3); IntegerTools::LeIncrease8(x, g3.buf, off, n, v); CHECK_EQ("increase", g3.window(), le, "LeIncrease8 length form of %s", hx(x).c_str()); MC_CHECK(g3.intact(), "increase-overwrite", "LeIncrease8 wrote outside");
				}
				a = x; IntegerTools::LeIncrease8(a, v); CHECK_EQ("increase", a, le, "LeIncrease8(%s, %llx)", hx(x).c_str(), (unsigned long long)v); IntegerTools::LeIncrease8(x, b, v); CHECK_EQ("increase", b, le, "LeIncrease8(in,out,%llx) of %s", (unsigned long long)v, hx(x).c_str());
				mc::transition();
			}
			Bytes be = x, le = x, a = x; addBE(be, 1); addLE(le, 1); IntegerTools::BeIncrement8(a); CHECK_EQ("increment", a, be, "BeIncrement8 of %s", hx(x).c_str()); a = x; IntegerTools::LeIncrement(a); CHECK_EQ("increment", a, le, "LeIncrement of %s", hx(x).c_str()); a = x; IntegerTools::LeIncrement(a, n); CHECK_EQ("increment", a, le, "LeIncrement(length) of %s", hx(x).c_str());
			for (size_t o = 0; o < n; ++o) for (size_t l = 1; o + l <= n; l += (l < 3 ? 1 : 4)) { Bytes w = sub(x, o, l); addBE(w, 1); a = x; IntegerTools::BeIncrement8(a, o, l); Bytes e = x; std::copy(w.begin(), w.end(), e.begin() + (ptrdiff_t)o); CHECK_EQ("increment", a, e, "BeIncrement8 window %zu+%zu of %s", o, l, hx(x).c_str()); if (o == 0) { w = sub(x, 0, l); addLE(w, 1); a = x; e = x; std::copy(w.begin(), w.end(), e.begin()); IntegerTools::LeIncrement(a, l); CHECK_EQ("increment", a, e, "LeIncrement window %zu of %s", l, hx(x).c_str()); } }
			Bytes sh(n), we(n); uint32_t carry = 0; for (size_t i = n; i-- > 0;) { we[i] = (uint8_t)(x[i] << 1 | carry); carry = x[i] >> 7; } uint32_t r = IntegerTools::ShiftLeft(x, sh); CHECK_EQ("shift-left", sh, we, "ShiftLeft of %s", hx(x).c_str()); MC_CHECK(r == carry, "shift-left", "ShiftLeft returned %u", r);
			mc::state(mc::combine(h(x), n));
		}
	});
}
static void words()
{
	mc::job("increase-words", [] {
		uint64_t e = mc::pick(std::vector<uint64_t>{ 0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000ull, ~1ull, ~0ull });
		uint64_t f = mc::pick(std::vector<uint64_t>{ 0, 1, 0xffffffff, ~0ull }); uint64_t l = mc::pick(std::vector<uint64_t>{ 1, 2, 3, 8, 16, 127, 128, 0x7fffffff });
		std::vector<uint64_t> a{ e, f }, o(2); unsigned __int128 w = ((unsigned __int128)f << 64 | e); auto C = [&](const char* n, const std::vector<uint64_t>& v, unsigned __int128 want) { MC_OP("%s", n); MC_CHECK(v[0] == (uint64_t)want && v[1] == (uint64_t)(want >> 64), "increase-word", "%s of %llx:%llx by %llu", n, (unsigned long long)f, (unsigned long long)e, (unsigned long long)l); };
		auto b = a; IntegerTools::LeIncrementW(b); C("LeIncrementW", b, w + 1); b = a; IntegerTools::LeIncreaseW(b, (size_t)l); C("LeIncreaseW", b, w + l); IntegerTools::LeIncreaseW(a, o, (size_t)l); C("LeIncreaseW(in,out)", o, w + l);
		std::vector<uint32_t> a4{ (uint32_t)e, (uint32_t)f }, o4(2), b4 = a4; uint64_t w4 = (uint64_t)a4[1] << 32 | a4[0]; IntegerTools::LeIncrementW(b4); MC_CHECK(((uint64_t)b4[1] << 32 | b4[0]) == w4 + 1, "increase-word", "LeIncrementW 32-bit"); b4 = a4; IntegerTools::LeIncreaseW(b4, (size_t)l); MC_CHECK(((uint64_t)b4[1] << 32 | b4[0]) == w4 + l, "increase-word", "LeIncreaseW 32-bit"); IntegerTools::LeIncreaseW(a4, o4, (size_t)l); MC_CHECK(((uint64_t)o4[1] << 32 | o4[0]) == w4 + l, "increase-word", "LeIncreaseW(in,out) 32-bit");
	});
	mc::job("rotate", [] {
		uint64_t v = mc::pick(std::vector<uint64_t>{ 0, 1, 0x8000000000000000ull, 0x80000000ull, 0xF123456789ABCDEFull, 0x0123456780000001ull, ~0ull }); uint32_t w = (uint32_t)v;
		for (uint32_t s = 0; s < 64; ++s)
		{
			mc::transition(); uint64_t l = s ? (v << s | v >> (64 - s)) : v, r = s ? (v >> s | v << (64 - s)) : v; MC_CHECK(IntegerTools::RotL64(v, s) == l && IntegerTools::RotR64(v, s) == r, "rotate", "64-bit rotation of %llx by %u", (unsigned long long)v, s); if (s) MC_CHECK(IntegerTools::RotFL64(v, s) == l && IntegerTools::RotFR64(v, s) == r, "rotate", "64-bit fixed rotation of %llx by %u", (unsigned long long)v, s);
			if (s < 32) { uint32_t l4 = s ? (w << s | w >> (32 - s)) : w, r4 = s ? (w >> s | w << (32 - s)) : w; MC_CHECK(IntegerTools::RotL32(w, s) == l4 && IntegerTools::RotR32(w, s) == r4, "rotate", "32-bit rotation of %x by %u", w, s); if (s) MC_CHECK(IntegerTools::RotFL32(w, s) == l4 && IntegerTools::RotFR32(w, s) == r4, "rotate", "32-bit fixed rotation of %x by %u", w, s); }
		}
		for (size_t n = 0; n <= 70; ++n) { uint64_t e = n >= 64 ? v : (v & ((1ull << n) - 1)); MC_CHECK(IntegerTools::Crop(v, n) == e, "crop", "Crop to %zu", n); }
		MC_CHECK(IntegerTools::Parity(v) == (uint64_t)(__builtin_popcountll(v) & 1), "parity", "Parity of %llx", (unsigned long long)v);
	});
}
template <class T> void masks(const std::string& nm)
{
	mc::job("constant-time/" + nm, [] {
		std::vector<T> vs; for (size_t b = 0; b < 8 * sizeof(T); ++b) { vs.push_back((T)((T)1 << b)); vs.push_back((T)(((T)1 << b) - 1)); } vs.push_back((T)~(T)0); vs.push_back((T)((T)~(T)0 - 1)); vs.push_back((T)0x5a);
		const T ONES = (T)~(T)0; size_t i = (size_t)mc::choose((int)vs.size()); T a = vs[i];
		MC_CHECK(IntegerTools::ExpandMask<T>(a) == (a ? ONES : 0), "mask", "ExpandMask of %llx", (unsigned long long)a); MC_CHECK(IntegerTools::ExpandTopBit<T>(a) == ((a >> (8 * sizeof(T) - 1)) ? ONES : 0), "mask", "ExpandTopBit of %llx", (unsigned long long)a); MC_CHECK(IntegerTools::IsZero<T>(a) == (a ? 0 : ONES), "mask", "IsZero of %llx", (unsigned long long)a);
		MC_CHECK(IntegerTools::IsPowerOf2<T>(a) == (a != 0 && (a & (T)(a - 1)) == 0), "power-of-2", "IsPowerOf2 of %llx", (unsigned long long)a);
		for (T b : vs)
		{
			mc::transition(); MC_CHECK(IntegerTools::IsEqual<T>(a, b) == (a == b ? ONES : 0), "mask", "IsEqual(%llx,%llx)", (unsigned long long)a, (unsigned long long)b); MC_CHECK(IntegerTools::IsLess<T>(a, b) == (a < b ? ONES : 0), "mask", "IsLess(%llx,%llx)", (unsigned long long)a, (unsigned long long)b); MC_CHECK(IntegerTools::IsLte<T>(a, b) == (a <= b ? ONES : 0), "mask", "IsLte(%llx,%llx)", (unsigned long long)a, (unsigned long long)b);
			MC_CHECK(IntegerTools::CMax<T>(a, b) == std::max(a, b) && IntegerTools::CMin<T>(a, b) == std::min(a, b), "min-max", "CMax/CMin(%llx,%llx)", (unsigned long long)a, (unsigned long long)b); MC_CHECK(IntegerTools::Max<T>(a, b) == std::max(a, b) && IntegerTools::Min<T>(a, b) == std::min(a, b) && IntegerTools::Abs<T>(a, b) == (T)(a > b ? a - b : b - a) && (IntegerTools::SaturatingSubtract<T, T>(a, b)) == (T)(a > b ? a - b : 0), "min-max", "Max/Min/Abs(%llx,%llx)", (unsigned long long)a, (unsigned long long)b);
			for (T m : { (T)0, ONES, (T)0x0f }) MC_CHECK(IntegerTools::Select<T>(m, a, b) == (T)((a & m) | (b & (T)~m)), "mask", "Select"); MC_CHECK((IntegerTools::ValueOrZero<T, T>(a, b)) == (a ? b : 0), "mask", "ValueOrZero");
			std::vector<T> f0{ a, b, (T)3 }, f1{ b, (T)9, a }, to(3); IntegerTools::ConditionalCopy<T>(a, to.data(), f0.data(), f1.data(), 3); MC_CHECK(to == (a ? f0 : f1), "mask", "ConditionalCopy on %llx", (unsigned long long)a); std::vector<T> z{ a, b, (T)7, (T)8 }, zw = z; if (b) zw[0] = zw[1] = zw[2] = 0; IntegerTools::ConditionalZeroMem<T>(b, z, 3); MC_CHECK(z == zw, "mask", "ConditionalZeroMem");
			if (IntegerTools::IsPowerOf2<T>(b)) MC_CHECK((IntegerTools::ModPowerOf2<T, T>(a, b)) == (T)(a % b), "mask", "ModPowerOf2");
		}
		for (size_t n = 0; n <= 20; ++n) for (int c = 0; c < 2; ++c) { Bytes in = pat(n + 3, 5), out = pat(n + 4, 6), e = out; if (c) for (size_t k = 0; k < n; ++k) e[2 + k] = in[1 + k]; IntegerTools::CMov(in, 1, out, 2, n, (uint8_t)c); CHECK_EQ("cmov", out, e, "CMov %zu condition %d", n, c); out = pat(n + 4, 6); IntegerTools::CMovRaw(in.data() + 1, out.data() + 2, n, (uint8_t)c); CHECK_EQ("cmov", out, e, "CMovRaw %zu condition %d", n, c); }
	});
}
static void arrays()
{
	mc::job("arrays", [] {
		size_t n = (size_t)mc::choose(70), m = (size_t)mc::choose(6); Bytes a = pat(m, 1), b = pat(n, 2), o = a; MC_OP("append %zu to %zu", n, m);
		ArrayTools::AppendVector(b, o); CHECK_EQ("append", o, cat(a, b), "AppendVector %zu to %zu", n, m); std::string s(b.begin(), b.end()); o = a; ArrayTools::AppendString(s, o); CHECK_EQ("append", o, cat(a, b), "AppendString"); o = a; ArrayTools::AppendObject(b.data(), o, n); CHECK_EQ("append", o, cat(a, b), "AppendObject");
		o = a; uint32_t v = 0x81020384; ArrayTools::AppendValue(v, o); CHECK_EQ("append", o, cat(a, Bytes{ 0x84, 3, 2, 0x81 }), "AppendValue32"); o = a; uint64_t v8 = 0x8877665544332211ull; ArrayTools::AppendValue(v8, o); CHECK_EQ("append", o, cat(a, Bytes{ 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88 }), "AppendValue64");
		for (int c = 0; c < 256; c += 5) { Bytes e; for (auto x : b) if (x != c) e.push_back(x); bool has = e.size() != b.size(); MC_CHECK(ArrayTools::Contains(b, (uint8_t)c) == has, "contains", "Contains %d", c); MC_CHECK(ArrayTools::Contains((const char*)b.data(), n, (char)c) == has, "contains", "Contains(pointer) %d in %zu bytes", c, n); o = b; size_t r = ArrayTools::Remove<uint8_t>((uint8_t)c, o); CHECK_EQ("remove", o, e, "Remove"); MC_CHECK(r == e.size(), "remove", "Remove returned %zu", r); }
		if (n) { b[n - 1] = 0; size_t z = 0; while (z < n && b[z]) ++z; MC_CHECK(ArrayTools::StringSize((char*)b.data(), n) == z, "string-size", "StringSize"); } CHECK_EQ("to-bytes", ArrayTools::ToByteArray(b.data(), n), b, "ToByteArray"); std::string ts = ArrayTools::ToString(b); CHECK_EQ("to-string", Bytes(ts.begin(), ts.end()), b, "ToString");
		if (n >= 8) { size_t len = n / 8 * 8; std::vector<uint64_t> st = arr<uint64_t>(12, 4), w = st; Bytes rw = raw(w); for (size_t i = 0; i < len; ++i) rw[i] ^= b[i]; ArrayTools::AbsorbBlock8to64(b, 0, st, len); CHECK_EQ("absorb", raw(st), rw, "AbsorbBlock8to64 of %zu", len); }
		Bytes hxb = pat(n, 3); std::string hs = IntegerTools::ToHex(hxb, 0, n); MC_CHECK(hs.size() == 2 * n, "hex", "ToHex length"); CHECK_EQ("hex", IntegerTools::FromHex(hs, hs.size()), hxb, "hex round trip"); for (size_t i = 0; i < n; ++i) { char t[3]; std::snprintf(t, 3, "%02X", hxb[i]); MC_CHECK(hs.substr(2 * i, 2) == t, "hex", "ToHex digit"); }
	});
	mc::job("split", [] { /* every string over {a , ;} up to length 6 */
		std::string s; for (int i = 0; i < 6; ++i) { int c = mc::choose(4); if (c == 3) break; s += "a,;"[c]; } std::vector<std::string> e; { std::string cur; bool pend = false; for (char c : s) { pend = true; if (c == ',') { e.push_back(cur); cur.clear(); pend = false; } else cur += c; } if (pend) e.push_back(cur); } MC_OP("split '%s'", s.c_str()); MC_CHECK(ArrayTools::Split(s, ',') == e, "split", "Split of '%s'", s.c_str()); });
}
void mc_register()
{
	mc::bounds("memory helpers: every length 0..200, 4x4 offsets, all element type pairs of 1/2/4/8 bytes; counters of 1..16 bytes with a 3-byte carry window over {00,01,7f,80,fe,ff} at every position and 147+ addends per width; byte order: every value of every byte, 5 offsets; masks: all powers of two and neighbours, all pairs; comparisons: a difference at each element and bit");
	memOps<uint8_t, uint8_t>("8-8"); memOps<uint16_t, uint16_t>("16-16"); memOps<uint32_t, uint32_t>("32-32"); memOps<uint64_t, uint64_t>("64-64"); memOps<uint8_t, uint64_t>("8-64"); memOps<uint64_t, uint8_t>("64-8"); memOps<uint8_t, uint32_t>("8-32"); memOps<uint32_t, uint8_t>("32-8"); memOps<uint8_t, uint16_t>("8-16"); memOps<uint32_t, uint64_t>("32-64");
	fixedOps<uint8_t>("8"); fixedOps<uint16_t>("16"); fixedOps<uint32_t>("32"); fixedOps<uint64_t>("64");
	byteOrder(); increase<uint16_t>("16"); increase<uint32_t>("32"); increase<uint64_t>("64"); words(); masks<uint8_t>("8"); masks<uint16_t>("16"); masks<uint32_t>("32"); masks<uint64_t>("64"); arrays();
}
