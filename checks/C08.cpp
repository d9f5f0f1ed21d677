// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of padded, corrupted and arbitrary blocks over a byte alphabet, every offset and length argument, against the schemes' definitions, on the implementation
// Padding round-trips every block and rejects every malformed one.
#include "checks/common.h"
#include "PaddingFromName.h"
#include "PaddingModes.h"
#include "IPadding.h"
const char* const MC_PROPERTY = "C08";
using Cipher::Block::Padding::IPadding; using Enumeration::PaddingModes;
static const std::vector<PaddingModes> MODES{ PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne };
static const char* NAME(PaddingModes m) { return m == PaddingModes::ESP ? "ESP" : m == PaddingModes::PKCS7 ? "PKCS7" : m == PaddingModes::X923 ? "X923" : "ZeroOne"; }

/* the scheme's definition: position where the message ends within [lo, hi); hi = no padding */
static size_t model(PaddingModes m, const Bytes& b, size_t lo, size_t hi)
{
	if (m == PaddingModes::ZeroOne) { for (size_t i = hi; i-- > lo;) { if (b[i] == 0x80) return i; if (b[i]) return hi; } return hi; }
	size_t p = b[hi - 1]; if (p == 0 || p > hi - lo) return hi;
	for (size_t i = hi - p; i < hi; ++i)
	{
		uint8_t want = m == PaddingModes::PKCS7 ? (uint8_t)p : m == PaddingModes::ESP ? (uint8_t)(i - (hi - p) + 1) : i == hi - 1 ? (uint8_t)p : 0;
		if (b[i] != want) return hi;
	}
	return hi - p;
}
static void pad(PaddingModes m, Bytes& b, size_t at, size_t hi)
{
	for (size_t i = at; i < hi; ++i) b[i] = m == PaddingModes::PKCS7 ? (uint8_t)(hi - at) : m == PaddingModes::ESP ? (uint8_t)(i - at + 1) : m == PaddingModes::X923 ? (i == hi - 1 ? (uint8_t)(hi - at) : 0) : (i == at ? 0x80 : 0);
}
static size_t whole(IPadding& p, const Bytes& b) { Bytes c = b; size_t r = p.GetBlockLength(c); MC_CHECK(c == b, "measure-writes", "measuring changed the block"); return r; }
static void measure(IPadding& p, PaddingModes m, const Bytes& b, size_t lo, size_t hi)
{
	size_t want = model(m, b, lo, hi), got = p.GetBlockLength(b, lo, hi); mc::transition();
	MC_CHECK(got == want, "measure", "%s GetBlockLength(offset %zu, length %zu) of %s gives %zu, the scheme defines %zu", NAME(m), lo, hi, hx(sub(b, lo, hi - lo)).c_str(), got, want);
	if (lo == 0 && hi == b.size()) { got = whole(p, b); MC_CHECK(got == want, "measure", "%s GetBlockLength of %s gives %zu, the scheme defines %zu", NAME(m), hx(b).c_str(), got, want); }
}
void mc_register()
{
	mc::bounds("arbitrary blocks: every content of every length 1..5 (thorough 1..7) over {00,01,02,03,04,06,80,ff}, every sub-range; padded blocks: block sizes 1..34,48,63..65,127..129,254..256, every pad position (pad length <= 255), message endings that imitate padding, every single-byte and adjacent two-byte corruption of the padded block over a 7-value alphabet; refusals: every (offset,length) pair around the array size");
	mc::assume("the length argument is the absolute end of the block within the array (as the callers use it) and a pad is at most 255 bytes, the largest value one byte can express");
	for (PaddingModes m : MODES) for (int n = 1; n <= (mc::thorough() ? 7 : 5); ++n)
		mc::job(std::string("arbitrary/") + NAME(m) + "/" + std::to_string(n), [m, n] {
			static const uint8_t A[8] = { 0, 1, 2, 3, 4, 6, 0x80, 0xff }; std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(m)); Bytes b((size_t)n);
			b[(size_t)n - 1] = A[mc::choose(8)]; int shift = mc::choose(2);
			for (uint64_t c = 0; c < (1ull << (3 * (n - 1))); ++c)
			{
				for (int i = 0; i < n - 1; ++i) b[(size_t)i] = A[(c >> (3 * i)) & 7];
				Bytes v = shift ? cat(Bytes{ 1, 2 }, cat(b, Bytes{ 0x80 })) : b; size_t base = shift ? 2 : 0;
				for (size_t lo = 0; lo < (size_t)n; ++lo) { measure(*p, m, v, base + lo, base + (size_t)n); }
				if (n > 2) measure(*p, m, v, base, base + (size_t)n - 1);
				mc::state(mc::combine(h(v), (uint64_t)m));
			}
		});
	std::vector<size_t> sizes; for (size_t i = 1; i <= 34; ++i) sizes.push_back(i); for (size_t s : { 48, 63, 64, 65, 127, 128, 129, 254, 255, 256 }) sizes.push_back(s);
	for (PaddingModes m : MODES) for (size_t n : sizes)
		mc::job(std::string("round-trip/") + NAME(m) + "/" + std::to_string(n), [m, n] {
			std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(m)); size_t base = (size_t)mc::choose(3) * 5, tail = base == 5 ? 3 : 0; int msg = mc::choose(5);
			for (size_t at = 0; at < n; ++at)
			{
				if (n - at > 255) continue;
				Bytes b = pat(base + n + tail, 5); Bytes body(at);
				for (size_t i = 0; i < at; ++i) body[i] = msg == 0 ? b[i] : msg == 1 ? 0 : msg == 2 ? (uint8_t)(n - at) : msg == 3 ? 0x80 : (uint8_t)(0 - (at - 1 - i));
				std::copy(body.begin(), body.end(), b.begin() + (ptrdiff_t)base);
				Bytes want = b; pad(m, want, base + at, base + n); Bytes got = b; p->AddPadding(got, base + at, base + n); mc::transition();
				CHECK_EQ("add-padding", got, want, "%s padding at %zu of a %zu-byte block at offset %zu", NAME(m), at, n, base);
				MC_CHECK(p->GetBlockLength(got, base, base + n) == base + at, "round-trip", "%s: padding a %zu-byte block at %zu (block offset %zu) then measuring gives %zu", NAME(m), n, at, base, p->GetBlockLength(got, base, base + n) - base);
				if (!base && !tail) MC_CHECK(whole(*p, got) == at, "round-trip", "%s: padding a %zu-byte block at %zu then measuring gives %zu", NAME(m), n, at, whole(*p, got));
				bool all = n <= 34 || mc::thorough();
				for (size_t x = 0; x < n; ++x)
				{
					if (!all && x + 2 < n && x > at + 1 && x + 1 != at && x != at) { if (x % 16) continue; }
					for (uint8_t v : { (uint8_t)0, (uint8_t)1, (uint8_t)0x80, (uint8_t)0xff, (uint8_t)(n - at), (uint8_t)(got[base + x] + 1), (uint8_t)(got[base + x] ^ 0x40) })
					{
						Bytes c = got; c[base + x] = v; measure(*p, m, c, base, base + n);
						if ((n <= 17 || mc::thorough()) && n <= 34 && x + 1 < n) for (uint8_t w : { (uint8_t)0, (uint8_t)0x80, (uint8_t)(got[base + x + 1] + 1) }) { uint8_t o = c[base + x + 1]; c[base + x + 1] = w; measure(*p, m, c, base, base + n); c[base + x + 1] = o; }
					}
				}
				mc::state(mc::combine(h(got), (uint64_t)m));
			}
		});
	for (PaddingModes m : MODES)
		mc::job(std::string("refusal/") + NAME(m), [m] {
			std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(m)); size_t n = mc::pick(std::vector<size_t>{ 0, 1, 2, 7, 16 });
			std::vector<size_t> args; for (size_t i = 0; i <= n + 3; ++i) args.push_back(i); for (size_t x : { (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)-1, (size_t)-2, (size_t)-16, (size_t)-17 }) args.push_back(x);
			for (size_t o : args) for (size_t l : args)
			{
				Bytes b = pat(n, 9), c = b; mc::transition(); bool legal = l <= n && o < l;
				try { p->AddPadding(c, o, l); MC_CHECK(c.size() == n, "resize", "%s AddPadding resized the array", NAME(m)); for (size_t i = 0; i < n; ++i) MC_CHECK(c[i] == b[i] || (i >= o && i < l), "refusal-write", "%s AddPadding(%zu,%zu) on %zu bytes writes byte %zu", NAME(m), o, l, n, i); MC_CHECK(legal || l <= n, "refusal", "%s AddPadding(%zu,%zu) accepted on an array of %zu bytes", NAME(m), o, l, n); }
				catch (const std::exception&) { MC_CHECK(!legal, "refusal", "%s AddPadding(%zu,%zu) refused a legal range of a %zu-byte array", NAME(m), o, l, n); MC_CHECK(c == b, "refusal-write", "%s AddPadding refused but changed the array", NAME(m)); }
				try { size_t r = p->GetBlockLength(b, o, l); MC_CHECK(l <= n, "refusal", "%s GetBlockLength(%zu,%zu) accepted on an array of %zu bytes", NAME(m), o, l, n); MC_CHECK(!legal || (r >= o && r <= l), "measure-range", "%s GetBlockLength(%zu,%zu)=%zu", NAME(m), o, l, r); }
				catch (const std::exception&) { MC_CHECK(!legal, "refusal", "%s GetBlockLength(%zu,%zu) refused a legal range of a %zu-byte array", NAME(m), o, l, n); }
			}
			if (n == 0) { Bytes e; try { MC_CHECK(p->GetBlockLength(e) == 0, "measure", "%s length of an empty block", NAME(m)); } catch (const std::exception&) {} }
		});
}
