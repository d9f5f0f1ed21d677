// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive fault enumeration on the implementation: every single-bit flip, truncation, extension, boundary shift, block swap and message reordering of sealed data, and every boundary length/offset round trip, for each authenticated mode and cipher
// Authenticated ciphers accept exactly what was sealed.
#include "checks/aead.h"
#include "checks/hashref.h"
#include "checks/ossl.h"
const char* const MC_PROPERTY = "C03";
using aead::Alg; using aead::Inst;

struct Msg { Bytes ad, pt; };
/* seal a sequence of messages on one instance; each sealed message is ciphertext||tag */
static std::vector<Bytes> seal(const Alg& a, const Bytes& k, const Bytes& iv, const Bytes& info, const std::vector<Msg>& ms, int degree = 0, size_t mult = 1, size_t io = 0, size_t oo = 0, bool sec = false)
{
	sim::cpu.logical = degree ? (uint32_t)degree : 2; std::unique_ptr<Inst> m(a.make()); if (degree) m->parallel(degree, mult); m->init(true, k, iv, info); std::vector<Bytes> r;
	for (const Msg& x : ms)
	{
		if (!x.ad.empty()) { Bytes t = cat(cat(Bytes(io, 0xEE), x.ad), Bytes(3, 0xDD)); MC_OP("%s: associate %zu bytes at %zu", a.name.c_str(), x.ad.size(), io); m->ad(t, io, x.ad.size(), sec); }
		Bytes in = cat(cat(Bytes(io, 0x77), x.pt), Bytes(2, 0x66)); Guarded g(oo, x.pt.size() + m->tagSize(), 5); MC_OP("%s: seal %zu bytes (offsets %zu,%zu)", a.name.c_str(), x.pt.size(), io, oo); m->xf(in, io, g.buf, oo, x.pt.size());
		MC_CHECK(g.intact(), "overwrite", "%s: sealing %zu bytes wrote outside the output window", a.name.c_str(), x.pt.size()); Bytes w = g.window(); r.push_back(w);
		Bytes t1 = m->tag(false), t2 = m->tag(true), tt = sub(w, x.pt.size(), m->tagSize()); MC_CHECK(t1 == tt && t2 == tt, "tag-accessor", "%s: Tag() differs from the tag appended to the ciphertext (%s, %s, %s)", a.name.c_str(), hx(t1).c_str(), hx(t2).c_str(), hx(tt).c_str());
	}
	return r;
}
enum Res { OPENED, REFUSED };
struct Opened { Res r; Bytes pt; };
static Opened unseal(const Alg& a, Inst& m, const Bytes& ad, const Bytes& ct, size_t len, size_t io = 0, size_t oo = 0, bool sec = false)
{
	try
	{
		if (!ad.empty()) m.ad(ad, 0, ad.size(), sec);
		Bytes in = cat(Bytes(io, 0x12), ct); Guarded g(oo, len, 4);
		try { m.xf(in, io, g.buf, oo, len); } catch (const Exception::CryptoAuthenticationFailure&) { Guarded z(oo, len, 4); MC_CHECK(g.buf == z.buf, "released", "%s: a rejected message of %zu bytes still changed the output buffer", a.name.c_str(), len); return { REFUSED, Bytes() }; }
		MC_CHECK(g.intact(), "overwrite", "%s: opening %zu bytes wrote outside the output window", a.name.c_str(), len); return { OPENED, g.window() };
	}
	catch (const Exception::CryptoSymmetricException&) { return { REFUSED, Bytes() }; }
	catch (const Exception::CryptoCipherModeException&) { return { REFUSED, Bytes() }; }
}
static Opened open1(const Alg& a, const Bytes& k, const Bytes& iv, const Bytes& info, const Bytes& ad, const Bytes& ct, size_t len) { sim::cpu.logical = 2; std::unique_ptr<Inst> m(a.make()); m->init(false, k, iv, info); return unseal(a, *m, ad, ct, len); }
static void mustRefuse(const Alg& a, const char* what, const Bytes& k, const Bytes& iv, const Bytes& info, const Bytes& ad, const Bytes& ct, size_t len, const Bytes& pt)
{
	MC_OP("%s: open with %s", a.name.c_str(), what); Opened o = open1(a, k, iv, info, ad, ct, len);
	MC_CHECK(o.r == REFUSED, a.name == "ChaChaP20-auth" && k == a.K(0) && iv != a.N(0) ? "chacha-nonce" : "forged", "%s: accepted a message with %s (%zu bytes; plaintext %s)", a.name.c_str(), what, len, o.pt == pt ? "unchanged" : "changed"); mc::outcome(mc::combine(mc::hash(what), h(ct)));
}
static const Bytes& sealed(const Alg& a, int info, size_t adn, size_t n)
{
	static std::map<std::string, Bytes> c; auto& r = c[a.name + "/" + std::to_string(info) + "/" + std::to_string(adn) + "/" + std::to_string(n)]; if (r.empty()) { bool v = mc::g_verbose; mc::g_verbose = false; r = seal(a, a.K(0), a.N(0), a.I(info), { { pat(adn, 5), pat(n, 6) } })[0]; mc::g_verbose = v; } return r;
}
/* GCM by its definition over the engine's single-block function */
static Bytes gcmRef(BlockCiphers c, const Bytes& k, const Bytes& iv, const Bytes& ad, const Bytes& pt)
{
	RefBlock& b = RefBlock::get(c, k); Bytes hk = b.enc(Bytes(16, 0)), j0;
	auto gh = [&](Bytes& y, const Bytes& d) { for (size_t i = 0; i < d.size(); i += 16) { for (size_t q = 0; q < 16 && i + q < d.size(); ++q) y[q] ^= d[i + q]; ref::gmul(y, hk); } };
	auto len = [&](Bytes& y, uint64_t x, uint64_t z) { Bytes l(16); for (int i = 0; i < 8; ++i) { l[7 - i] = (uint8_t)(x * 8 >> 8 * i); l[15 - i] = (uint8_t)(z * 8 >> 8 * i); } gh(y, l); };
	if (iv.size() == 12) { j0 = cat(iv, Bytes{ 0, 0, 0, 1 }); } else { j0 = Bytes(16, 0); gh(j0, iv); len(j0, 0, iv.size()); }
	Bytes ctr = j0, ct; for (size_t i = 0; i < pt.size(); i += 16) { Bytes lo = sub(ctr, 12, 4); addBE(lo, 1); std::copy(lo.begin(), lo.end(), ctr.begin() + 12); Bytes u = b.enc(ctr); for (size_t q = 0; q < 16 && i + q < pt.size(); ++q) ct.push_back(pt[i + q] ^ u[q]); }
	Bytes y(16, 0); gh(y, ad); gh(y, ct); len(y, ad.size(), ct.size()); Bytes e = b.enc(j0); for (int i = 0; i < 16; ++i) y[i] ^= e[i]; return cat(ct, y);
}
static Bytes gcmOssl(const Bytes& k, const Bytes& iv, const Bytes& ad, const Bytes& pt)
{
	EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int l = 0; Bytes ct(pt.size() + 16); EVP_EncryptInit_ex(x, k.size() == 16 ? EVP_aes_128_gcm() : k.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm(), nullptr, nullptr, nullptr); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, (int)iv.size(), nullptr); EVP_EncryptInit_ex(x, nullptr, nullptr, k.data(), iv.data());
	if (!ad.empty()) EVP_EncryptUpdate(x, nullptr, &l, ad.data(), (int)ad.size()); if (!pt.empty()) EVP_EncryptUpdate(x, ct.data(), &l, pt.data(), (int)pt.size()); EVP_EncryptFinal_ex(x, ct.data() + pt.size(), &l); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, ct.data() + pt.size()); EVP_CIPHER_CTX_free(x); return ct;
}
void mc_register()
{
	mc::setHangSeconds(60); const bool T = mc::thorough();
	mc::bounds("18 authenticated modes and ciphers; messages of 0,1,b-1,b,b+1,2b+3 and around the wide and parallel group (b = block), associated data 0..2b; every single-bit flip of ciphertext, tag, associated data, nonce and key, every truncation and three extensions, every shift of up to 40 bytes between associated data and ciphertext, every swap of two blocks, tag exchanges, all orders of up to three messages of one stream; round trips at unequal offsets, through both overloads, on fresh and used instances, sequential and parallel; GCM against libcrypto at every length to 300, nonce 10..40 bytes");
	mc::assume("a forgery is judged by acceptance of that one altered input; cryptographic strength beyond single alterations is outside the property");
	for (const Alg& a : aead::all()) if (a.auth)
	{
		std::string t = a.name + "/";
		static const size_t AD[] = { 0, 1, 13, 16, 33, 64, 200 };
		for (int kind = 0; kind < 3; ++kind) mc::job(t + "roundtrip" + std::to_string(kind), [a, kind, T] {
			size_t b = a.block, L[] = { 0, 1, 15, 16, 17, b - 1, b, b + 1, 2 * b + 3, 4 * b, 8 * b - 1, 8 * b, 8 * b + 1, 9 * b + 5, 16 * b, 17 * b + 7 }; size_t n = L[mc::choose(16)], adn = AD[mc::choose(7)]; int info = a.info ? mc::choose(2) : 0; Bytes pt = pat(n, 6), ad = pat(adn, 5);
			size_t io = kind == 1 ? 1 + (size_t)mc::choose(3) * 3 : 0, oo = kind == 1 ? 2 + (size_t)mc::choose(2) * 7 : 0; bool sec = kind == 2;
			Bytes ct = seal(a, a.K(0), a.N(0), a.I(info), { { ad, pt } }, 0, 1, io, oo, sec)[0]; const Bytes& base = sealed(a, info, adn, n);
			CHECK_EQ("sealed", ct, base, "%s: %zu bytes with %zu associated at offsets %zu,%zu, secure overload %d", a.name.c_str(), n, adn, io, oo, (int)sec);
			sim::cpu.logical = 2; std::unique_ptr<Inst> m(a.make()); if (kind == 2) { m->init(true, a.K(1), a.N(1), a.I(0)); Bytes o(40 + m->tagSize()); m->xf(pat(40, 3), 0, o, 0, 40); } m->init(false, a.K(0), a.N(0), a.I(info)); MC_OP("%s: open", a.name.c_str());
			Opened o = unseal(a, *m, ad, ct, n, oo, io, sec); MC_CHECK(o.r == OPENED, "rejected", "%s: its own sealed message of %zu bytes with %zu associated was rejected", a.name.c_str(), n, adn); if (o.r == OPENED) CHECK_EQ("opened", o.pt, pt, "%s: opened message of %zu bytes", a.name.c_str(), n);
			MC_CHECK(m->tag(false) == sub(ct, n, ct.size() - n), "tag-accessor", "%s: Tag() after opening differs from the received tag", a.name.c_str()); mc::outcome(h(ct)); mc::state(mc::combine(h(ct), (uint64_t)kind)); });
		mc::job(t + "parallel", [a, T] { int d = mc::flip() ? 4 : 2; size_t b = a.block, M = (size_t)d * 8 * b, mu = 1 + (size_t)mc::choose(2); size_t L[] = { M - 1, M, M + 1, M + b + 3, 2 * M, 2 * M + 5, 3 * M + b }; size_t n = L[mc::choose(7)], adn = mc::flip() ? 20 : 0; Bytes pt = pat(n, 6), ad = pat(adn, 5); size_t oo = mc::flip() ? 9 : 0;
			Bytes ct = seal(a, a.K(0), a.N(0), Bytes(), { { ad, pt } }, d, mu, 0, oo)[0]; CHECK_EQ("sealed", ct, sealed(a, 0, adn, n), "%s: %zu bytes, %d workers", a.name.c_str(), n, d);
			sim::cpu.logical = (uint32_t)d; std::unique_ptr<Inst> m(a.make()); m->parallel(d, mu); m->init(false, a.K(0), a.N(0), Bytes()); Opened o = unseal(a, *m, ad, ct, n, oo, 0); MC_CHECK(o.r == OPENED, "rejected", "%s: its own sealed message was rejected with %d workers", a.name.c_str(), d); if (o.r == OPENED) CHECK_EQ("opened", o.pt, pt, "%s: opened %zu bytes with %d workers", a.name.c_str(), n, d); mc::outcome(h(ct)); });
		static const char* W[] = { "a flipped ciphertext bit", "a flipped tag bit", "a flipped associated-data bit", "a flipped nonce bit", "a flipped key bit", "a flipped info bit" };
		for (int w = 0; w < 6; ++w) mc::job(t + "flip" + std::to_string(w), [a, w, T] {
			size_t b = a.block, L[] = { b + 5, 17, 8 * b + 9, 0, 1 }; size_t n = L[mc::choose(T ? 5 : w == 0 ? 3 : 2)], adn = w == 2 ? AD[1 + mc::choose(T ? 6 : 4)] : 20; if (w == 0 && !n) return; if (w == 5 && (!a.info || (a.kind == aead::STREAM && a.name[0] != 'R'))) return;   /* the tweak of ChaCha, CSX and TSX is not key material of the MAC */ int info = w == 5 || mc::flip() ? (a.info ? 1 : 0) : 0; if (w != 5 && !a.info && info) return;
			Bytes ct = sealed(a, info, adn, n), ad = pat(adn, 5), k = a.K(0), iv = a.N(0), in = a.I(info); Bytes* x = w < 2 ? &ct : w == 2 ? &ad : w == 3 ? &iv : w == 4 ? &k : &in; size_t lo = w == 1 ? n : 0, hi = w == 0 ? n : x->size();
			int i = mc::choose((int)(hi - lo)); int bit = T || w != 0 || n < 40 ? mc::choose(8) : (i * 5 + 3) % 8; (*x)[lo + (size_t)i] ^= (uint8_t)(1 << bit); mustRefuse(a, W[w], k, iv, in, ad, ct, n, pat(n, 6)); });
		mc::job(t + "cut", [a, T] {
			size_t b = a.block, L[] = { b + 5, 2 * b, 17, 1 }; size_t n = L[mc::choose(4)], adn = mc::flip() ? 20 : 0; Bytes ct = sealed(a, 0, adn, n), ad = pat(adn, 5); size_t tg = ct.size() - n; int k = mc::choose(7);
			if (k == 0) { size_t c = 1 + (size_t)mc::choose((int)n); Bytes x = cat(sub(ct, 0, n - c), sub(ct, n, tg)); mustRefuse(a, "a truncated ciphertext and the whole tag", a.K(0), a.N(0), Bytes(), ad, x, n - c, pat(n, 6)); }
			else if (k == 1) { size_t c = 1 + (size_t)mc::choose((int)n); mustRefuse(a, "a shorter length", a.K(0), a.N(0), Bytes(), ad, ct, n - c, pat(n, 6)); }
			else if (k == 2) { size_t c = 1 + (size_t)mc::choose((int)tg); mustRefuse(a, "a truncated tag", a.K(0), a.N(0), Bytes(), ad, sub(ct, 0, ct.size() - c), n, pat(n, 6)); }
			else if (k == 3) { size_t c = 1 + (size_t)mc::choose(20); Bytes x = cat(cat(sub(ct, 0, n), Bytes(c, 0)), sub(ct, n, tg)); mustRefuse(a, "zero bytes appended to the ciphertext", a.K(0), a.N(0), Bytes(), ad, x, n + c, pat(n, 6)); }
			else if (k == 4) { size_t c = 1 + (size_t)mc::choose(20); Bytes x = cat(Bytes(c, 0), ct); mustRefuse(a, "bytes put in front of the ciphertext", a.K(0), a.N(0), Bytes(), ad, x, n + c, pat(n, 6)); }
			else if (k == 5) { if (!adn) return; size_t c = (size_t)mc::choose((int)adn); mustRefuse(a, "truncated associated data", a.K(0), a.N(0), Bytes(), sub(ad, 0, c), ct, n, pat(n, 6)); }
			else { size_t c = 1 + (size_t)mc::choose(20); mustRefuse(a, "zero bytes appended to the associated data", a.K(0), a.N(0), Bytes(), cat(ad, Bytes(c, 0)), ct, n, pat(n, 6)); } });
		mc::job(t + "shift", [a] {
			size_t b = a.block, n = 3 * b + 7, adn = 40; Bytes ct = sealed(a, 0, adn, n), ad = pat(adn, 5); size_t tg = ct.size() - n; int k = mc::choose(4);
			if (k == 0) { size_t c = 1 + (size_t)mc::choose(40); mustRefuse(a, "bytes moved from the associated data to the ciphertext", a.K(0), a.N(0), Bytes(), sub(ad, 0, adn - c), cat(sub(ad, adn - c, c), ct), n + c, pat(n, 6)); }
			else if (k == 1) { size_t c = 1 + (size_t)mc::choose(40); mustRefuse(a, "bytes moved from the ciphertext to the associated data", a.K(0), a.N(0), Bytes(), cat(ad, sub(ct, 0, c)), sub(ct, c, ct.size() - c), n - c, pat(n, 6)); }
			else if (k == 2) { size_t i = (size_t)mc::choose(3), j = (size_t)mc::choose(3); if (i >= j) return; Bytes x = ct; for (size_t q = 0; q < b; ++q) std::swap(x[i * b + q], x[j * b + q]); mustRefuse(a, "two ciphertext blocks exchanged", a.K(0), a.N(0), Bytes(), ad, x, n, pat(n, 6)); }
			else { int o = mc::choose(4); Bytes other = o == 0 ? sealed(a, 0, adn, n - 1) : o == 1 ? sealed(a, 0, 20, n) : o == 2 ? seal(a, a.K(1), a.N(0), Bytes(), { { ad, pat(n, 6) } })[0] : seal(a, a.K(0), a.N(1), Bytes(), { { ad, pat(n, 6) } })[0]; Bytes x = cat(sub(ct, 0, n), sub(other, other.size() - tg, tg)); mustRefuse(a, "the tag of another message", a.K(0), a.N(0), Bytes(), ad, x, n, pat(n, 6)); } });
		if (a.kind != aead::GCMK) mc::job(t + "stream", [a] {
			/* three messages of one stream, opened in every order (with repetition): only the sent order is accepted */
			size_t b = a.block, L[] = { 0, 1, b, b + 3, 8 * b + 1 }; size_t n = L[mc::choose(5)], n2 = L[mc::choose(5)]; int adm = mc::choose(4); std::vector<Msg> ms{ { adm & 1 ? pat(9, 1) : Bytes(), pat(n, 6) }, { adm & 2 ? pat(17, 2) : Bytes(), pat(n2, 7) }, { Bytes(), pat(n, 6) } }; auto ct = seal(a, a.K(0), a.N(0), Bytes(), ms);
			std::unique_ptr<Inst> m(a.make()); m->init(false, a.K(0), a.N(0), Bytes()); MC_OP("%s: open the stream", a.name.c_str());
			for (size_t i = 0; i < 3; ++i) { size_t j = (size_t)mc::choose(3); Opened o = unseal(a, *m, ms[j].ad, ct[j], ms[j].pt.size()); bool same = j == i || (ct[j] == ct[i] && ms[j].ad == ms[i].ad); if (same) { MC_CHECK(o.r == OPENED, "rejected", "%s: message %zu of a stream was rejected in its place", a.name.c_str(), i); CHECK_EQ("opened", o.pt, ms[i].pt, "%s: message %zu of a stream", a.name.c_str(), i); } else { MC_CHECK(o.r == REFUSED, "reordered", "%s: message %zu was accepted in place of message %zu (lengths %zu, %zu)", a.name.c_str(), j, i, n, n2); break; } mc::outcome(mc::combine(h(ct[j]), i)); } });
		if (a.kind == aead::GCMK) mc::job(t + "published", [a, T] {
			int w = mc::choose(3); size_t n = 0, adn = 0, ivn = 12; if (w == 0) { n = (size_t)mc::choose(301); adn = mc::flip() ? 20 : 0; } else if (w == 1) { adn = (size_t)mc::choose(150); n = (size_t)mc::choose(3) * 9; } else { ivn = 10 + (size_t)mc::choose(31); n = 40; adn = 5; }
			Bytes iv = pat(ivn, 70 + (uint32_t)ivn), pt = pat(n, 6), ad = pat(adn, 5); Bytes ct = seal(a, a.K(0), iv, Bytes(), { { ad, pt } })[0]; CHECK_EQ("gcm", ct, gcmRef(a.bc, a.K(0), iv, ad, pt), "%s: %zu bytes, %zu associated, nonce of %zu", a.name.c_str(), n, adn, ivn); if (a.bc == BlockCiphers::AES) CHECK_EQ("gcm", ct, gcmOssl(a.K(0), iv, ad, pt), "%s: %zu bytes, %zu associated, nonce of %zu, against libcrypto", a.name.c_str(), n, adn, ivn); mc::outcome(h(ct));
			Opened o = open1(a, a.K(0), iv, Bytes(), ad, ct, n); MC_CHECK(o.r == OPENED && o.pt == pt, "rejected", "%s: its own message was rejected (nonce of %zu bytes)", a.name.c_str(), ivn); });
	}
}
