// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of every operation sequence up to a depth on one instance, each step compared with a fresh instance driven through the accepted steps only (protocol model), plus a global keystream-uniqueness monitor
// Authenticated ciphers and stream ciphers obey their protocol in every history.
#include "checks/aead.h"
#include <set>
const char* const MC_PROPERTY = "C04";
using aead::Alg; using aead::Inst;

/* one accepted step, as text, is the key of the reference cache */
struct Step { int kind; int a; size_t n; };                 /* 0 init(a = key index*8 + nonce index*2 + info, n = direction) 1 associated data 2 transform */
static std::string text(const Alg& a, const std::vector<Step>& h) { std::string s = a.name; for (auto& x : h) s += "|" + std::to_string(x.kind) + "," + std::to_string(x.a) + "," + std::to_string(x.n); return s; }
static Bytes ptOf(size_t n) { return pat(n, 6); }
static Bytes adOf(int i) { return i == 0 ? pat(20, 1) : pat(5, 2); }
/* the sealed form of the last transform of an accepted history, computed by a fresh encrypting instance */
static const Bytes& sealedBy(const Alg& a, const std::vector<Step>& hist)
{
	static std::map<std::string, Bytes> c; std::string k = text(a, hist); auto it = c.find(k); if (it != c.end()) return it->second;
	bool v = mc::g_verbose; mc::g_verbose = false; std::unique_ptr<Inst> m(a.make()); Bytes out;
	for (auto& s : hist)
	{
		if (s.kind == 0) m->init(true, a.K(s.a / 8), a.N((s.a / 2) % 4), a.I(s.a & 1));
		else if (s.kind == 1) { Bytes d = adOf(s.a); m->ad(d, 0, d.size(), false); }
		else { out.assign(s.n + m->tagSize(), 0); m->xf(ptOf(s.n), 0, out, 0, s.n); }
	}
	mc::g_verbose = v; return c[k] = out;
}
template <class F> static int refused(F f) { try { f(); return 0; } catch (const Exception::CryptoAuthenticationFailure&) { return 2; } catch (const Exception::CryptoCipherModeException&) { return 1; } catch (const Exception::CryptoSymmetricException&) { return 1; } }

static void history(const Alg& a, int depth, int first)
{
	std::unique_ptr<Inst> m(a.make()); std::vector<Step> hist;          /* accepted steps since the last accepted initialisation */
	bool live = false, dead = false, enc = true, done = false, adset = false; int key = 0, nonce = -1; std::string d; std::set<Bytes> ks;
	size_t B = a.block; const size_t L[] = { 5, B, 8 * B + 3 };
	const bool rekey = a.kind == aead::GCMK;
	for (int s = 0; s < depth; ++s)
	{
		enum { INIT_E0, INIT_D0, INIT_E1I, BADKEY, BADIV, AD0, AD1, X0, X1, X2, XSHORT, XFORGE, BADAD, KEYLESS_E, KEYLESS_SAME, KEYLESS_ZERO, NOPS };
		int op = s == 0 && first >= 0 ? first : mc::choose(rekey ? NOPS : (int)KEYLESS_E);
		if (dead && op > INIT_E1I) return;
		const char* nm = a.name.c_str(); int how = 0;
		auto init = [&](bool e, int k, int n, int i) {
			MC_OP("%s: initialize(%s, key %d, nonce %d, info %d)", nm, e ? "encrypt" : "decrypt", k, n, i); how = refused([&] { m->init(e, a.K(k), a.N(n), a.I(i)); });
			MC_CHECK(!how, "refused", "%s: a legal initialisation was refused after [%s]", nm, d.c_str()); MC_CHECK(m->initialized(), "flags", "%s: IsInitialized is false after initialisation", nm);
			live = true; dead = done = adset = false; enc = e; key = k; nonce = n; hist.assign(1, { 0, k * 8 + n * 2 + i, 0 }); ks.clear(); };
		switch (op)
		{
		case INIT_E0: d += "initE0 "; init(true, 0, 0, 0); break;
		case INIT_D0: d += "initD0 "; init(false, 0, 1, 0); break;
		case INIT_E1I: d += "initE1 "; init(true, 1, 2, a.info ? 1 : 0); break;
		case BADKEY: d += "badkey "; MC_OP("%s: initialize with a 7-byte key", nm); how = refused([&] { m->init(true, pat(7, 1), a.N(3), Bytes()); }); MC_CHECK(how, "accepted", "%s: accepted a key of 7 bytes", nm); break;
		case BADIV: d += "badiv "; MC_OP("%s: initialize with a 5-byte nonce", nm); how = refused([&] { m->init(true, a.K(1), pat(5, 1), Bytes()); }); MC_CHECK(how, "accepted", "%s: accepted a nonce of 5 bytes", nm); break;
		case AD0: case AD1: {
			Bytes x = adOf(op - AD0); d += "ad "; MC_OP("%s: associated data %d", nm, op - AD0); how = refused([&] { m->ad(x, 0, x.size(), false); });
			if (!live || !a.auth) { MC_CHECK(how, "accepted", "%s: accepted associated data %s [%s]", nm, a.auth ? "without being initialised" : "without authentication", d.c_str()); break; }
			if (a.kind == aead::GCMK && (done || adset)) { MC_CHECK(how, "accepted", "%s: accepted associated data twice or after the message [%s]", nm, d.c_str()); break; }
			if (a.kind == aead::HBAK && adset && how) break;                                     /* documented as once per message: a refusal is legal too */
			MC_CHECK(!how, "refused", "%s: refused associated data in [%s]", nm, d.c_str()); adset = true; hist.push_back({ 1, op - AD0, 0 }); break; }
		case BADAD: { Bytes x = pat(8, 1); static const size_t BO[] = { 1, 9, 8 }, BL[] = { 8, 1, 1 }; int w = mc::choose(3); d += "badad "; MC_OP("%s: associated data of %zu bytes at offset %zu of 8", nm, BL[w], BO[w]); how = refused([&] { m->ad(x, BO[w], BL[w], false); }); MC_CHECK(how, "accepted", "%s: accepted associated data beyond its array", nm); break; }
		case X0: case X1: case X2: {
			size_t n = L[op - X0]; std::vector<Step> hh = hist; hh.push_back({ 2, 0, n }); d += "x" + std::to_string(n) + " "; bool legal = live && !(a.kind == aead::GCMK && done); MC_OP("%s: %s %zu bytes", nm, enc ? "encrypt" : "decrypt", n);
			if (!legal) { Bytes in(n + 64, 3), out(n + 64, 0xC3); how = refused([&] { m->xf(in, 0, out, 0, n); }); MC_CHECK(how, "accepted", "%s: transformed %s [%s]", nm, live ? "again after the message was finished" : "without being initialised", d.c_str()); MC_CHECK(out == Bytes(n + 64, 0xC3), "written", "%s: a refused transform wrote output [%s]", nm, d.c_str()); break; }
			const Bytes& want = sealedBy(a, hh); Bytes in = enc ? ptOf(n) : want, out(enc ? want.size() : n); how = refused([&] { m->xf(in, 0, out, 0, n); });
			MC_CHECK(!how, "refused", "%s: a legal %s was refused in [%s]", nm, enc ? "encryption" : "decryption", d.c_str()); CHECK_EQ("history", out, enc ? want : ptOf(n), "%s: result after [%s] differs from a fresh instance", nm, d.c_str());
			if (a.auth) { Bytes t = m->tag(false), tt = sub(want, n, want.size() - n); CHECK_EQ("tag", t, tt, "%s: Tag() after [%s]", nm, d.c_str()); }
			if (enc) { Bytes p = ptOf(n); for (size_t i = 0; i + 16 <= n; i += 16) { Bytes k(16); for (int q = 0; q < 16; ++q) k[q] = p[i + q] ^ out[i + q]; MC_CHECK(ks.insert(k).second, "keystream-reuse", "%s: 16 keystream bytes repeat within one initialisation [%s]", nm, d.c_str()); } }
			MC_CHECK(m->initialized() == !(a.kind == aead::GCMK), "flags", "%s: IsInitialized is wrong after a transform", nm);
			hist = hh; done = true; if (a.kind == aead::HBAK) adset = false; mc::outcome(mc::combine(h(out), mc::hash(d))); break; }
		case XSHORT: {
			if (!live) return; int w = mc::choose(4); size_t n = B + 1, tg = m->tagSize(); Bytes in(n + tg), out(n + tg, 0xC3); size_t io = 0, oo = 0, len = n; if (w == 0) { if (!tg && enc) out.resize(n - 1); else if (enc) out.resize(n + tg - 1); else in.resize(n + tg - 1); } else if (w == 1) io = in.size() + 1; else if (w == 2) oo = out.size() + 1; else len = n + tg + 1;
			d += "xshort "; MC_OP("%s: transform with arrays too small (%d)", nm, w); Bytes o2 = out; how = refused([&] { m->xf(in, io, out, oo, len); }); MC_CHECK(how, "accepted", "%s: transformed %zu bytes with arrays too small for them (case %d) [%s]", nm, len, w, d.c_str()); MC_CHECK(how == 1, "judged", "%s: judged a message whose arrays are too small [%s]", nm, d.c_str()); MC_CHECK(out == o2, "written", "%s: a refused transform wrote output [%s]", nm, d.c_str()); break; }
		case XFORGE: {
			if (!live || enc || !a.auth || (a.kind == aead::GCMK && done)) return; std::vector<Step> hh = hist; hh.push_back({ 2, 0, L[0] }); Bytes in = sealedBy(a, hh), out(L[0], 0xC3); in[in.size() - 1] ^= 1; d += "forged "; MC_OP("%s: decrypt a forged message", nm); how = refused([&] { m->xf(in, 0, out, 0, L[0]); }); MC_CHECK(how == 2, "forged", "%s: a forged message was not reported as an authentication failure [%s]", nm, d.c_str()); dead = true; break; }
		case KEYLESS_E: {
			int n = 3; d += "rekeyless "; MC_OP("%s: initialize with a nonce only", nm); how = refused([&] { m->init(true, Bytes(), a.N(n), Bytes()); }); bool ever = nonce >= 0; bool ok = ever && nonce != n; MC_CHECK(ok == !how, ok ? "refused" : "accepted", "%s: a nonce-only initialisation was %s [%s]", nm, how ? "refused" : "accepted", d.c_str());
			if (ok) { live = true; dead = done = adset = false; enc = true; nonce = n; hist.assign(1, { 0, key * 8 + n * 2, 0 }); ks.clear(); } break; }
		case KEYLESS_SAME: { if (nonce < 0) return; d += "samenonce "; MC_OP("%s: initialize with the same nonce and no key", nm); how = refused([&] { m->init(true, Bytes(), a.N(nonce), Bytes()); }); MC_CHECK(how, "accepted", "%s: a nonce-only initialisation accepted the nonce just used [%s]", nm, d.c_str()); break; }
		case KEYLESS_ZERO: { d += "zerononce "; MC_OP("%s: initialize with a zero nonce and no key", nm); how = refused([&] { m->init(true, Bytes(), Bytes(a.iv, 0), Bytes()); }); MC_CHECK(how, "accepted", "%s: a nonce-only initialisation accepted a zero nonce [%s]", nm, d.c_str()); break; }
		}
		mc::state(mc::combine(mc::hash(text(a, hist)), (uint64_t)(live + 2 * dead + 4 * done + 8 * enc)));
	}
}
void mc_register()
{
	mc::setHangSeconds(60); const bool T = mc::thorough();
	mc::bounds("25 algorithms (18 authenticated, 7 plain stream ciphers); every sequence of up to 4 (thorough 5) operations out of: initialise for encryption, for decryption, with another key, nonce and info, with a bad key or nonce size, associated data (two values, and beyond its array), transform of less than a block, one block and more than a wide group, transforms with arrays too small in four ways, a forged message, and for GCM initialisation with a fresh, repeated or zero nonce and no key; plus long straight histories");
	mc::assume("after a failed authentication only re-initialisation is judged");
	for (const Alg& a : aead::all())
	{
		int ops = a.kind == aead::GCMK ? 16 : 13; for (int f = 0; f < ops; ++f) mc::job(a.name + "/op" + std::to_string(f), [a, f, T] { sim::cpu.logical = 2; history(a, f > 2 ? (T ? 5 : 4) : (T ? 6 : 4), f); });
		/* more messages on one initialisation than the depth above reaches */
		if (a.kind != aead::GCMK) mc::job(a.name + "/long", [a] {
			sim::cpu.logical = 2; std::unique_ptr<Inst> m(a.make()); bool enc = mc::flip(); m->init(enc, a.K(0), a.N(0), Bytes()); std::vector<Step> hist{ { 0, 0, 0 } }; std::set<Bytes> ks; size_t B = a.block, L[] = { 1, B, 2 * B + 1 };
			for (int i = 0; i < 6; ++i) { size_t n = L[mc::choose(3)]; if (a.auth && i == 3) { Bytes x = adOf(0); m->ad(x, 0, x.size(), false); hist.push_back({ 1, 0, 0 }); } hist.push_back({ 2, 0, n }); const Bytes& want = sealedBy(a, hist); Bytes in = enc ? ptOf(n) : want, out(enc ? want.size() : n); m->xf(in, 0, out, 0, n); CHECK_EQ("history", out, enc ? want : ptOf(n), "%s: message %d of a long stream", a.name.c_str(), i); if (enc) { Bytes p = ptOf(n); for (size_t q = 0; q + 16 <= n; q += 16) { Bytes k(16); for (int z = 0; z < 16; ++z) k[z] = p[q + z] ^ out[q + z]; MC_CHECK(ks.insert(k).second, "keystream-reuse", "%s: keystream repeats at message %d", a.name.c_str(), i); } } mc::outcome(h(out)); } });
	}
}
