// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of field-size combinations (round trips), and of every truncation, extension and single-byte corruption of each serialized key, cipher state and parameter header, on the implementation under AddressSanitizer; an accepted corruption must be exactly the object its own bytes describe
// Serialized keys and headers round-trip; malformed ones are refused or read within their own bounds.
#include "checks/common.h"
#include "AsymmetricKey.h"
#include "AsymmetricSecureKey.h"
#include "SymmetricSecureKey.h"
#include "SymmetricKeySize.h"
#include "BlakeParams.h"
#include "KeccakParams.h"
#include "SHA2Params.h"
#include "SkeinParams.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "RCS.h"
#include "RWS.h"
#include "SecurityPolicy.h"
const char* const MC_PROPERTY = "C10";
using Cipher::SymmetricKey; using Cipher::SymmetricSecureKey; using Cipher::SymmetricKeySize; using Enumeration::SecurityPolicy;
using Asymmetric::AsymmetricKey; using Asymmetric::AsymmetricSecureKey; using Enumeration::AsymmetricKeyTypes; using Enumeration::AsymmetricParameters; using Enumeration::AsymmetricPrimitives;
typedef SecureVector<uint8_t> SV;

/* 0 refused with the library's exception, 1 accepted; anything else that escapes is a violation */
static std::string g_why;
template <class F> static bool accepted(const char* what, F f)
{
	mc::transition();
	try { f(); return true; }
	catch (const Exception::CryptoException& e) { g_why = const_cast<Exception::CryptoException&>(e).Message(); return false; }
	catch (const mc::Violation&) { throw; }
	catch (const mc::Infeasible&) { throw; }
	catch (const std::exception& e) { mc::fail("foreign-exception", "%s raises %s instead of the library's exception", what, e.what()); }
}
static Bytes exact(const Bytes& b) { Bytes r(b); r.shrink_to_fit(); return r; }

/* ---------------- symmetric keys ---------------- */
template <class K> static void sameKey(const char* what, K& k, const Bytes& key, const Bytes& iv, const Bytes& info)
{
	CHECK_EQ("field", k.Key(), key, "%s: key", what); CHECK_EQ("field", k.IV(), iv, "%s: iv", what); CHECK_EQ("field", k.Info(), info, "%s: info", what);
	CHECK_EQ("field", plain(k.SecureKey()), key, "%s: secure key", what); CHECK_EQ("field", plain(k.SecureIV()), iv, "%s: secure iv", what); CHECK_EQ("field", plain(k.SecureInfo()), info, "%s: secure info", what);
	MC_CHECK(k.KeySizes().KeySize() == key.size() && k.KeySizes().IVSize() == iv.size() && k.KeySizes().InfoSize() == info.size(), "sizes", "%s: declared sizes %zu/%zu/%zu for fields of %zu/%zu/%zu bytes", what, k.KeySizes().KeySize(), k.KeySizes().IVSize(), k.KeySizes().InfoSize(), key.size(), iv.size(), info.size());
}
static SymmetricKey* makeKey(int route, const Bytes& k, const Bytes& n, const Bytes& i)
{
	switch (route)
	{
		case 0: return new SymmetricKey(k, n, i); case 1: return new SymmetricKey(secure(k), secure(n), secure(i));
		case 2: return new SymmetricKey(k, n); case 3: return new SymmetricKey(secure(k), secure(n));
		case 4: return new SymmetricKey(k); default: return new SymmetricKey(secure(k));
	}
}
static void roundTrip(size_t a, size_t b, size_t c)
{
	std::vector<int> routes{ 0, 1 }; if (c == 0) { routes.push_back(2); routes.push_back(3); if (b == 0) { routes.push_back(4); routes.push_back(5); } }
	int route = mc::pick(routes); Bytes k = pat(a, 1), n = pat(b, 2), i = pat(c, 3); std::unique_ptr<SymmetricKey> s;
	MC_OP("SymmetricKey(%zu,%zu,%zu) route %d", a, b, c, route);
	bool made = accepted("constructing a key", [&] { s.reset(makeKey(route, k, n, i)); });
	MC_CHECK(made == (a + b + c != 0), "construct", "key of %zu/%zu/%zu bytes %s", a, b, c, made ? "accepted" : "refused"); if (!made) return;
	sameKey("constructed key", *s, k, n, i);
	std::unique_ptr<SymmetricKey> cl(s->Clone()); sameKey("clone", *cl, k, n, i);
	SV ser; bool ok = accepted("Serialize", [&] { ser = SymmetricKey::Serialize(*s); });
	if (!ok) { MC_CHECK(a > 65535 || b > 65535 || c > 65535, "refused", "a key of %zu/%zu/%zu bytes is not serialized", a, b, c); sameKey("key after a refused serialization", *s, k, n, i); return; }
	SV before(ser); std::unique_ptr<SymmetricKey> d;
	MC_CHECK((accepted("DeSerialize", [&] { d.reset(SymmetricKey::DeSerialize(ser)); })), "reject-own", "the serialization of a key of %zu/%zu/%zu bytes is refused", a, b, c);
	sameKey("deserialized key", *d, k, n, i); MC_CHECK(ser == before, "stream-changed", "DeSerialize alters the stream"); sameKey("serialized key", *s, k, n, i);
	SV again = SymmetricKey::Serialize(*d); MC_CHECK(again == ser, "reserialize", "re-serialization differs");
	s->Reset(); MC_CHECK(s->Key().empty() && s->IV().empty() && s->Info().empty() && s->KeySizes().KeySize() == 0, "reset", "Reset leaves key material"); sameKey("clone after the original was reset", *cl, k, n, i);
	mc::outcome(h(plain(ser)));
}
static const std::vector<SecurityPolicy> POL{ SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE };
static SymmetricSecureKey* makeSec(int arity, bool sec, bool pol, SecurityPolicy p, const Bytes& k, const Bytes& n, const Bytes& i, const Bytes& salt)
{
	if (!pol) { if (sec) return arity == 1 ? new SymmetricSecureKey(secure(k)) : arity == 2 ? new SymmetricSecureKey(secure(k), secure(n)) : new SymmetricSecureKey(secure(k), secure(n), secure(i)); return arity == 1 ? new SymmetricSecureKey(k) : arity == 2 ? new SymmetricSecureKey(k, n) : new SymmetricSecureKey(k, n, i); }
	if (sec) return arity == 1 ? new SymmetricSecureKey(secure(k), p, secure(salt)) : arity == 2 ? new SymmetricSecureKey(secure(k), secure(n), p, secure(salt)) : new SymmetricSecureKey(secure(k), secure(n), secure(i), p, secure(salt));
	return arity == 1 ? new SymmetricSecureKey(k, p, salt) : arity == 2 ? new SymmetricSecureKey(k, n, p, salt) : new SymmetricSecureKey(k, n, i, p, salt);
}
static void secureRoundTrip(bool pol, SecurityPolicy p)
{
	static const std::vector<std::vector<size_t>> SZ{ { 1, 0, 0 }, { 0, 1, 0 }, { 32, 0, 0 }, { 32, 16, 0 }, { 32, 0, 16 }, { 0, 0, 5 }, { 64, 16, 255 }, { 128, 128, 1 }, { 33, 15, 17 }, { 256, 64, 64 } };
	const std::vector<size_t>& z = mc::pick(SZ); size_t salt = pol ? mc::pick(std::vector<size_t>{ 4, 8, 32, 64 }) : 0; bool sec = mc::flip(); int arity = z[2] ? 3 : z[1] ? 2 + mc::choose(2) : 1 + mc::choose(3);
	Bytes k = pat(z[0], 1), n = pat(z[1], 2), i = pat(z[2], 3); std::unique_ptr<SymmetricSecureKey> s;
	MC_OP("SymmetricSecureKey(%zu,%zu,%zu) policy %d salt %zu", z[0], z[1], z[2], pol ? (int)p : -1, salt);
	if (arity == 1 && z[0] == 0) return;
	MC_CHECK((accepted("constructing a secure key", [&] { s.reset(makeSec(arity, sec, pol, p, k, n, i, pat(salt, 4))); })), "construct", "secure key of %zu/%zu/%zu bytes with a salt of %zu refused: %s", z[0], z[1], z[2], salt, g_why.c_str());
	sameKey("secure key", *s, k, n, i);
	std::unique_ptr<SymmetricSecureKey> cl; MC_CHECK((accepted("Clone", [&] { cl.reset(s->Clone()); })), "clone", "a secure key %s salt can not be cloned", salt ? "with a" : "without"); sameKey("clone", *cl, k, n, i);
	SV ser = SymmetricSecureKey::Serialize(*s); std::unique_ptr<SymmetricKey> d(SymmetricSecureKey::DeSerialize(ser)); sameKey("deserialized secure key", *d, k, n, i);
	SymmetricKey pk(k, n, i); MC_CHECK(ser == SymmetricKey::Serialize(pk), "format", "a secure key and a key of the same content serialize differently");
	sameKey("secure key after serialization", *s, k, n, i); s->Reset(); sameKey("clone after the original was reset", *cl, k, n, i);
	/* a reset secure key yields nothing or is refused */
	accepted("Key() of a reset secure key", [&] { MC_CHECK(s->Key().empty(), "reset", "a reset secure key still returns a key"); });
	accepted("Clone() of a reset secure key", [&] { std::unique_ptr<SymmetricSecureKey> x(s->Clone()); });
	accepted("Serialize() of a reset secure key", [&] { SymmetricSecureKey::Serialize(*s); });
	mc::outcome(h(plain(ser)));
}
/* any byte string: accepted only as the key it encodes */
template <class K> static void readKey(const Bytes& b0, bool mustAccept, const char* what)
{
	SV b = secure(b0); b.shrink_to_fit(); std::unique_ptr<SymmetricKey> d; bool ok = accepted("DeSerialize of a malformed key", [&] { d.reset(K::DeSerialize(b)); });
	MC_CHECK(plain(b) == b0, "stream-changed", "%s: DeSerialize alters the stream", what);
	if (!ok) { MC_CHECK(!mustAccept, "reject-own", "%s is refused", what); return; }
	MC_CHECK(b0.size() >= 6, "short", "%s: a stream of %zu bytes is accepted as a key", what, b0.size());
	size_t l[3], o = 6; for (int q = 0; q < 3; ++q) l[q] = b0[2 * (size_t)q] | ((size_t)b0[2 * (size_t)q + 1] << 8);
	MC_CHECK(6 + l[0] + l[1] + l[2] <= b0.size(), "beyond", "%s: fields of %zu+%zu+%zu bytes are read from a stream of %zu", what, l[0], l[1], l[2], b0.size());
	Bytes f[3]; for (int q = 0; q < 3; ++q) { f[q] = sub(b0, o, l[q]); o += l[q]; } sameKey(what, *d, f[0], f[1], f[2]);
}
template <class K> static void malformedKey()
{
	static const std::vector<std::vector<size_t>> SZ{ { 1, 0, 0 }, { 0, 0, 1 }, { 16, 8, 0 }, { 32, 16, 16 }, { 3, 0, 2 }, { 256, 16, 0 } };
	const std::vector<size_t>& z = mc::pick(SZ); SymmetricKey k(pat(z[0], 1), pat(z[1], 2), pat(z[2], 3)); Bytes b = plain(SymmetricKey::Serialize(k)); char w[96];
	switch (mc::choose(4))
	{
		case 0: { size_t n = (size_t)mc::choose((int)b.size()); std::snprintf(w, sizeof w, "key stream truncated to %zu of %zu bytes", n, b.size()); MC_OP("%s", w); readKey<K>(sub(b, 0, n), false, w); break; }
		case 1: { size_t n = 1 + (size_t)mc::choose(20); std::snprintf(w, sizeof w, "key stream extended by %zu bytes", n); MC_OP("%s", w); readKey<K>(cat(b, pat(n, 9)), false, w); break; }
		case 2: { size_t at = (size_t)mc::choose(6); uint8_t v = (uint8_t)mc::choose(256); std::snprintf(w, sizeof w, "key stream with header byte %zu = %02x", at, v); MC_OP("%s", w); bool same = b[at] == v; b[at] = v; readKey<K>(b, same, w); break; }
		default: { static const uint8_t V[] = { 0, 1, 0x10, 0x7f, 0x80, 0xfe, 0xff }; size_t p = (size_t)mc::choose(6), q = (size_t)mc::choose(6); b[p] = V[mc::choose(7)]; b[q] = V[mc::choose(7)]; std::snprintf(w, sizeof w, "key stream with header bytes %zu,%zu = %02x,%02x", p, q, b[p], b[q]); MC_OP("%s", w); readKey<K>(b, false, w); }
	}
}
static void keySizes()
{
	static const std::vector<size_t> V{ 0, 1, 255, 256, 65535, 65536, 0x01020304, 0xffffffff }; size_t a = mc::pick(V), b = mc::pick(V), c = mc::pick(V);
	SymmetricKeySize s(a, b, c); MC_OP("SymmetricKeySize(%zu,%zu,%zu)", a, b, c); Bytes t = exact(s.ToBytes()); SymmetricKeySize d(t);
	MC_CHECK(d.KeySize() == a && d.IVSize() == b && d.InfoSize() == c && s.KeySize() == a && s.IVSize() == b && s.InfoSize() == c, "sizes", "key size %zu/%zu/%zu reads back as %zu/%zu/%zu", a, b, c, d.KeySize(), d.IVSize(), d.InfoSize());
	MC_CHECK(d.ToBytes() == t, "reserialize", "key size bytes differ"); mc::outcome(h(t));
	for (size_t n = 0; n < t.size(); ++n) { Bytes u = exact(sub(t, 0, n)); MC_CHECK(!accepted("truncated key size", [&] { SymmetricKeySize x(u); }), "short", "a key size of %zu bytes is accepted", n); }
}

/* ---------------- asymmetric keys ---------------- */
static void sameAsym(const char* what, AsymmetricKey& k, const Bytes& poly, int cls, int par, int pri)
{
	CHECK_EQ("field", k.Polynomial(), poly, "%s: polynomial", what); CHECK_EQ("field", plain(k.SecurePolynomial()), poly, "%s: secure polynomial", what);
	MC_CHECK((int)k.KeyClass() == cls && (int)k.Parameters() == par && (int)k.PrimitiveType() == pri, "field", "%s: class/parameters/primitive %d/%d/%d instead of %d/%d/%d", what, (int)k.KeyClass(), (int)k.Parameters(), (int)k.PrimitiveType(), cls, par, pri);
}
static const std::vector<int> PRI{ 1, 2, 3, 5, 6, 9, 10, 11 };
static std::vector<int> params() { std::vector<int> r; for (int i = 1; i < 256; ++i) if (Enumeration::AsymmetricTransformConvert::ToName((AsymmetricParameters)i).find("NONE") == std::string::npos && Enumeration::AsymmetricTransformConvert::ToName((AsymmetricParameters)i).find("None") == std::string::npos) r.push_back(i); return r; }
static void asymRound()
{
	static const std::vector<int> PAR = params(); int pri = mc::pick(PRI), cls = 1 + mc::choose(4), par = mc::pick(PAR); size_t n = mc::pick(std::vector<size_t>{ 1, 2, 3, 32, 255, 256, 1568 }); bool sec = mc::flip(); Bytes p = pat(n, 5);
	MC_OP("AsymmetricKey(%d,%d,%d,%zu)", pri, cls, par, n);
	std::unique_ptr<AsymmetricKey> k(sec ? new AsymmetricKey(secure(p), (AsymmetricPrimitives)pri, (AsymmetricKeyTypes)cls, (AsymmetricParameters)par) : new AsymmetricKey(p, (AsymmetricPrimitives)pri, (AsymmetricKeyTypes)cls, (AsymmetricParameters)par));
	sameAsym("key", *k, p, cls, par, pri); SV s = AsymmetricKey::Serialize(*k), b(s); std::unique_ptr<AsymmetricKey> d(AsymmetricKey::DeSerialize(s)); sameAsym("deserialized key", *d, p, cls, par, pri); MC_CHECK(s == b, "stream-changed", "DeSerialize alters the stream");
	sameAsym("key after serialization", *k, p, cls, par, pri); MC_CHECK(AsymmetricKey::Serialize(*d) == s, "reserialize", "re-serialization differs");
	std::unique_ptr<AsymmetricKey> e(AsymmetricSecureKey::DeSerialize(s)); sameAsym("key read by the secure class", *e, p, cls, par, pri); mc::outcome(h(plain(s)));
}
static void asymBig()
{
	size_t n = mc::pick(std::vector<size_t>{ 65535, 65536, 261120, 1357824 }); Bytes p = pat(n, 6); MC_OP("AsymmetricKey of %zu bytes", n);
	AsymmetricKey k(p, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::MPKCS3N4608T96); SV s = AsymmetricKey::Serialize(k); std::unique_ptr<AsymmetricKey> d(AsymmetricKey::DeSerialize(s));
	sameAsym("deserialized key", *d, p, (int)AsymmetricKeyTypes::CipherPublicKey, (int)AsymmetricParameters::MPKCS3N4608T96, (int)AsymmetricPrimitives::McEliece);
}
static void asymMalformed()
{
	bool viaSecure = mc::flip(); size_t n = mc::pick(std::vector<size_t>{ 1, 2, 40 }); AsymmetricKey k(pat(n, 7), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS5P3168); Bytes b = plain(AsymmetricKey::Serialize(k)); char w[96];
	switch (mc::choose(3))
	{
		case 0: { size_t m = (size_t)mc::choose((int)b.size()); std::snprintf(w, sizeof w, "asymmetric key truncated to %zu of %zu bytes", m, b.size()); b = sub(b, 0, m); break; }
		case 1: { size_t m = 1 + (size_t)mc::choose(9); std::snprintf(w, sizeof w, "asymmetric key extended by %zu bytes", m); b = cat(b, pat(m, 8)); break; }
		default: { size_t at = (size_t)mc::choose(3); b[at] = (uint8_t)mc::choose(256); std::snprintf(w, sizeof w, "asymmetric key with byte %zu = %02x", at, b[at]); }
	}
	MC_OP("%s", w); SV s = secure(b); s.shrink_to_fit(); std::unique_ptr<AsymmetricKey> d;
	if (!accepted(w, [&] { d.reset(viaSecure ? AsymmetricSecureKey::DeSerialize(s) : AsymmetricKey::DeSerialize(s)); })) return;
	MC_CHECK(b.size() > 3, "short", "%s is accepted", w); sameAsym(w, *d, sub(b, 3, b.size() - 3), b[0], b[1], b[2]);
}
static void asymSecure(SecurityPolicy p)
{
	size_t n = mc::pick(std::vector<size_t>{ 1, 31, 32, 63, 64, 127, 128, 129, 1568, 4000 }), salt = mc::pick(std::vector<size_t>{ 0, 4, 32, 64 }); bool sec = mc::flip(); Bytes c = pat(n, 5); MC_OP("AsymmetricSecureKey of %zu bytes, policy %d, salt %zu", n, (int)p, salt);
	std::unique_ptr<AsymmetricSecureKey> k; const AsymmetricPrimitives pri = AsymmetricPrimitives::Kyber; const AsymmetricKeyTypes cls = AsymmetricKeyTypes::CipherPrivateKey; const AsymmetricParameters par = AsymmetricParameters::KYBERS5P3168;
	bool ok = accepted("constructing an asymmetric secure key", [&] { if (sec) k.reset(new AsymmetricSecureKey(secure(c), secure(pat(salt, 4)), pri, cls, par, p)); else k.reset(new AsymmetricSecureKey(c, pat(salt, 4), pri, cls, par, p)); });
	MC_CHECK(ok, "construct", "an asymmetric secure key of %zu bytes with a salt of %zu is refused: %s", n, salt, g_why.c_str());
	for (int round = 0; round < 2; ++round)
	{
		CHECK_EQ("field", k->Polynomial(), c, "secure key polynomial, policy %d", (int)p); SV o(n); k->SecurePolynomial(o); CHECK_EQ("field", plain(o), c, "SecurePolynomial, policy %d", (int)p);
		MC_CHECK(k->PrimitiveType() == pri && k->KeyClass() == cls && k->Parameters() == par, "field", "types differ");
		SV s = AsymmetricSecureKey::Serialize(*k); std::unique_ptr<AsymmetricKey> d(AsymmetricSecureKey::DeSerialize(s)); sameAsym("deserialized secure key", *d, c, (int)cls, (int)par, (int)pri);
	}
	if (n > 1) { SV o(n - 1); MC_CHECK(!accepted("SecurePolynomial into a short array", [&] { k->SecurePolynomial(o); }), "short", "SecurePolynomial writes %zu bytes into %zu", n, n - 1); }
	k->Reset(); accepted("Polynomial() of a reset secure key", [&] { MC_CHECK(k->Polynomial().empty(), "reset", "a reset secure key still returns its polynomial"); });
}

/* ---------------- parameter headers ---------------- */
template <class P> static void header(const char* cls, P& p, const Bytes& t)
{
	Bytes e = exact(t); P d(e); MC_CHECK(d.ToBytes() == t, "header", "%s: bytes read back differ: %s / %s", cls, hx(t, 80).c_str(), hx(d.ToBytes(), 80).c_str());
	MC_CHECK(d.Equals(p) && p.Equals(d), "header-equal", "%s: a header read back is not equal to the original", cls); P c = p.Clone(); MC_CHECK(c.ToBytes() == t && c.Equals(p), "clone", "%s: clone differs", cls); std::unique_ptr<P> q(p.DeepCopy()); MC_CHECK(q->ToBytes() == t && q->Equals(p), "clone", "%s: deep copy differs", cls);
	MC_CHECK(d.DistributionCode() == p.DistributionCode(), "header", "%s: distribution code differs", cls); mc::outcome(h(t));
}
/* each single-byte change of a header: refused, or an unequal object which serializes to the changed bytes */
template <class P> static void malformedHeader(const char* cls, P& p)
{
	Bytes t = p.ToBytes(), b; char w[96];
	switch (mc::choose(3))
	{
		case 0: { size_t n = (size_t)mc::choose((int)t.size()); std::snprintf(w, sizeof w, "%s truncated to %zu of %zu bytes", cls, n, t.size()); b = sub(t, 0, n); break; }
		case 1: { size_t n = 1 + (size_t)mc::choose(140); std::snprintf(w, sizeof w, "%s extended by %zu bytes", cls, n); b = cat(t, pat(n, 3)); break; }
		default: { size_t at = (size_t)mc::choose((int)t.size()); int v = at < 24 ? mc::choose(256) : (int)(t[at] ^ (1 << mc::choose(8))); b = t; b[at] = (uint8_t)v; std::snprintf(w, sizeof w, "%s with byte %zu = %02x", cls, at, v); }
	}
	MC_OP("%s", w); b = exact(b); std::unique_ptr<P> d; if (!accepted(w, [&] { d.reset(new P(b)); })) { MC_CHECK(b != t, "reject-own", "%s: own bytes are refused", cls); return; }
	Bytes u; MC_CHECK((accepted(w, [&] { u = d->ToBytes(); })), "header", "%s: accepted, but can not be serialized", w);
	MC_CHECK(u.size() <= b.size(), "beyond", "%s: a header of %zu bytes is read from %zu", w, u.size(), b.size()); const size_t used = std::string(cls) == "BlakeParams" ? 12 + d->DistributionCodeMax() : u.size();   /* the rest of a 32-byte Blake header is padding */
	CHECK_EQ("header", sub(u, 0, used), sub(b, 0, used), "%s: accepted header serializes differently", w);
	MC_CHECK(d->Equals(p) == (u == t), "header-equal", "%s: a header with %s bytes is reported as %s", w, u == t ? "the same" : "other", u == t ? "different" : "equal");
	std::unique_ptr<P> c(d->DeepCopy()); MC_CHECK(c->ToBytes() == u, "clone", "%s: deep copy differs", w);
}
/* fields set one by one through the accessors, in any state of the object */
template <class P> static void touchHeader(const char* cls, P& p)
{
	size_t n = mc::pick(std::vector<size_t>{ 0, 1, 8, 12, 40, 48, 104, 112, 200 }); int os = mc::choose(6); static const int OS[] = { -1, 0, 16, 32, 64, 128 };
	MC_OP("%s with a distribution code of %zu bytes, output size %d", cls, n, OS[os]);
	Bytes t; bool ok = accepted(cls, [&] { if (mc::flip()) p.Reset(); p.DistributionCode() = exact(pat(n, 77)); if (OS[os] >= 0) p.OutputSize() = (uint8_t)OS[os]; t = p.ToBytes(); });
	if (!ok) return;
	std::unique_ptr<P> d; if (!accepted(cls, [&] { Bytes e = exact(t); d.reset(new P(e)); })) return; MC_CHECK(d->ToBytes() == t, "header", "%s: bytes read back differ", cls);
}
static const std::vector<uint32_t> W32{ 0, 1, 0x80, 0xff, 0x100, 0x10000, 0x01020304, 0xffffffff };
static const std::vector<uint8_t> W8{ 0, 1, 2, 8, 0x7f, 0x80, 0xff };
static void keccakHeader()
{
	uint64_t os = mc::pick(std::vector<uint64_t>{ 32, 64, 128 }); Bytes info = pat(os == 32 ? 112 : 48, 50); Digest::KeccakParams p(mc::pick(W32), os, (uint16_t)mc::pick(W32), mc::pick(W32), mc::pick(W8), mc::pick(W8), info);
	uint32_t no = p.NodeOffset(), ls = p.LeafSize(), rs = 0; uint16_t v = p.Version(); uint8_t fo = p.FanOut(); if (mc::flip()) p.Reserved() = rs = 0xa1b2c3d4;
	MC_OP("KeccakParams offset %u leaf %u", no, ls); Bytes t = exact(p.ToBytes()); header("KeccakParams", p, t); Digest::KeccakParams d(t);
	MC_CHECK(d.NodeOffset() == no && d.LeafSize() == ls && d.Version() == v && d.FanOut() == fo && d.OutputSize() == os && d.Reserved() == rs && d.DistributionCode() == info, "header", "KeccakParams: a field reads back differently");
}
static void sha2Header()
{
	uint64_t os = mc::pick(std::vector<uint64_t>{ 32, 64 }); Bytes info = pat(os == 32 ? 112 : 48, 51); Digest::SHA2Params p(mc::pick(W32), os, (uint16_t)mc::pick(W32), mc::pick(W32), mc::pick(W8), mc::pick(W8), info);
	uint32_t no = p.NodeOffset(), ls = p.LeafSize(), rs = 0; uint16_t v = p.Version(); uint8_t fo = p.FanOut(); if (mc::flip()) p.Reserved() = rs = 0xa1b2c3d4;
	MC_OP("SHA2Params offset %u leaf %u", no, ls); Bytes t = exact(p.ToBytes()); header("SHA2Params", p, t); Digest::SHA2Params d(t);
	MC_CHECK(d.NodeOffset() == no && d.LeafSize() == ls && d.Version() == v && d.FanOut() == fo && d.OutputSize() == os && d.Reserved() == rs && d.DistributionCode() == info, "header", "SHA2Params: a field reads back differently");
}
static void skeinHeader()
{
	uint64_t os = mc::pick(std::vector<uint64_t>{ 32, 64, 128 }); Bytes dc = pat(os - 24, 52), sc = pat(4, 53); Digest::SkeinParams p(sc, os, (uint16_t)mc::pick(W32), mc::pick(W8), mc::pick(W8), mc::pick(W8), dc);
	if (mc::flip()) { p.Reserved1() = 0xa1b2; p.Reserved2() = 0xc3; p.Reserved3() = 0xd4e5f607; }
	uint8_t ls = p.LeafSize(), fo = p.FanOut(); uint16_t v = p.Version(); MC_OP("SkeinParams leaf %u", ls); Bytes t = exact(p.ToBytes()); header("SkeinParams", p, t); Digest::SkeinParams d(t);
	MC_CHECK(d.LeafSize() == ls && d.FanOut() == fo && d.Version() == v && d.OutputSize() == os && d.Schema() == sc && d.DistributionCode() == dc && d.Reserved1() == p.Reserved1() && d.Reserved2() == p.Reserved2() && d.Reserved3() == p.Reserved3(), "header", "SkeinParams: a field reads back differently");
	MC_CHECK(d.GetConfig() == p.GetConfig(), "header", "SkeinParams: configuration words differ");
}
static void blakeHeader()
{
	uint8_t os = mc::flip() ? 64 : 32; Bytes dc = pat(os == 32 ? 12 : 40, 54); uint8_t kl = mc::pick(W8), fo = mc::pick(W8), md = mc::pick(W8); uint32_t ll = mc::pick(W32); uint8_t no = mc::pick(W8), il = mc::flip() ? 0x5a : 0xa5;
	Digest::BlakeParams p(os, kl, fo, md, ll, no, (uint8_t)(no ^ 0x33), il, dc); p.Reserved() = 0x6b; MC_OP("BlakeParams leaf %u", ll); Bytes t = exact(p.ToBytes()); header("BlakeParams", p, t); Digest::BlakeParams d(t);
	MC_CHECK(d.OutputSize() == os && d.KeyLength() == kl && d.FanOut() == fo && d.MaxDepth() == md && d.LeafLength() == ll && d.NodeOffset() == no && d.NodeDepth() == (uint8_t)(no ^ 0x33) && d.InnerLength() == il && d.Reserved() == 0x6b && d.DistributionCode() == dc, "header", "BlakeParams: a field reads back differently");
	std::vector<uint32_t> a(8), b(8); std::vector<uint64_t> c(8), e(8); if (os == 32) { p.GetConfig(a); d.GetConfig(b); } else { p.GetConfig(c); d.GetConfig(e); } MC_CHECK(a == b && c == e, "header", "BlakeParams: configuration words differ");
}

/* ---------------- stream cipher states ---------------- */
template <class C> static void cipherState(const char* cls, size_t keyLen, size_t ivLen, size_t infoLen)
{
	bool auth = mc::flip(); size_t at = mc::pick(std::vector<size_t>{ 0, 1, 64, 200 }), info = mc::flip() ? infoLen : 0; bool enc = mc::flip(); Bytes m = pat(300, 60);
	auto start = [&](C& c) { SymmetricKey k(pat(keyLen, 61), pat(ivLen, 62), pat(info, 63)); c.Initialize(enc, k); };
	C a(auth); start(a); Bytes o(400, 0);
	if (at && !auth) a.Transform(m, 0, o, 0, at);
	MC_OP("%s state after %zu bytes, authenticated %d", cls, at, auth); SV s = a.Serialize(); SV s0(s);
	std::unique_ptr<C> r; MC_CHECK((accepted("restoring a cipher state", [&] { r.reset(new C(s)); })), "reject-own", "%s: its own state is refused", cls);
	MC_CHECK(r->IsInitialized() == a.IsInitialized() && r->IsEncryption() == a.IsEncryption() && r->IsAuthenticator() == a.IsAuthenticator() && r->Enumeral() == a.Enumeral() && r->Name() == a.Name(), "state", "%s: the restored cipher reports other properties", cls);
	MC_CHECK(r->Serialize() == s0 && s == s0, "reserialize", "%s: the restored state serializes differently", cls);
	if (auth && !enc) { return; }
	Bytes x(400, 1), y(400, 1); a.Transform(m, 0, x, 0, 130); r->Transform(m, 0, y, 0, 130); CHECK_EQ("state", y, x, "%s: a restored cipher continues differently", cls); if (auth) CHECK_EQ("state", r->Tag(), a.Tag(), "%s: tag of a restored cipher", cls); mc::outcome(h(x));
}
template <class C> static void cipherStateBad(const char* cls, size_t keyLen, size_t ivLen, size_t infoLen)
{
	bool auth = mc::flip(); static std::map<bool, Bytes> cache; Bytes& s = cache[auth];
	if (s.empty()) { C a(auth); SymmetricKey k(pat(keyLen, 61), pat(ivLen, 62), pat(infoLen, 63)); a.Initialize(true, k); s = plain(a.Serialize()); }
	char w[96]; Bytes b;
	switch (mc::choose(3))
	{
		case 0: { size_t n = (size_t)mc::choose((int)s.size()); b = sub(s, 0, n); std::snprintf(w, sizeof w, "%s state truncated to %zu of %zu bytes", cls, n, s.size()); break; }
		case 1: { size_t n = 1 + (size_t)mc::choose(8); b = cat(s, pat(n, 1)); std::snprintf(w, sizeof w, "%s state extended by %zu bytes", cls, n); break; }
		default: { size_t at = (size_t)mc::choose((int)s.size()); if (at + 3 >= s.size()) throw mc::Infeasible(); b = s; static const uint8_t V[] = { 0x01, 0x80, 0xff }; b[at] = (uint8_t)(b[at] ^ V[mc::choose(3)]); std::snprintf(w, sizeof w, "%s state with byte %zu = %02x", cls, at, b[at]); }
	}
	MC_OP("%s", w); SV e = secure(b); e.shrink_to_fit(); std::unique_ptr<C> r;
	bool ok = accepted(w, [&] { r.reset(new C(e)); }); if (!ok) return;
	MC_CHECK(b.size() >= s.size() || plain(r->Serialize()) == s, "short", "%s is accepted", w);
	accepted(w, [&] { Bytes m = pat(64, 2), o(64 + 64); r->Transform(m, 0, o, 0, 64); SV z = r->Serialize(); });
}

void mc_register()
{
	mc::bounds("symmetric keys: field sizes {0,1,2,15,16,32,64,255,256,257}^3 and {65535,65536,70000} in each field, all constructors; secure keys: 10 size triples x 6 policies x 4 salts x constructors; "
		"malformed streams: every truncation, extensions of 1..20 bytes, all values of each header byte, boundary values of each pair of header bytes; asymmetric keys: all primitives x classes x parameter sets x 7 sizes plus 4 large ones; "
		"headers: boundary values of every field, every truncation, 1..140 byte extensions, all values of the first 24 bytes and every single-bit change of the rest, field edits through the accessors; stream cipher states: every truncation, 8 extensions, 3 changes of every byte");
	static const std::vector<size_t> SZ{ 0, 1, 2, 15, 16, 32, 64, 255, 256, 257 };
	for (size_t a : SZ) mc::job("key/" + std::to_string(a), [a] { size_t b = mc::pick(SZ), c = mc::pick(SZ); roundTrip(a, b, c); });
	mc::job("key/large", [] { size_t n = mc::pick(std::vector<size_t>{ 65535, 65536, 70000 }), o = mc::pick(std::vector<size_t>{ 0, 1, 32 }); int f = mc::choose(4); roundTrip(f == 0 || f == 3 ? n : o, f == 1 || f == 3 ? n : o, f == 2 || f == 3 ? n : o); });
	mc::job("secure-key/default", [] { secureRoundTrip(false, SecurityPolicy::SPL256); });
	for (SecurityPolicy p : POL) { mc::job("secure-key/" + std::to_string((int)p), [p] { secureRoundTrip(true, p); }); mc::job("asym-secure/" + std::to_string((int)p), [p] { asymSecure(p); }); }
	mc::job("key/malformed", [] { malformedKey<SymmetricKey>(); }); mc::job("secure-key/malformed", [] { malformedKey<SymmetricSecureKey>(); }); mc::job("key-size", keySizes);
	mc::job("asym/round", asymRound); mc::job("asym/large", asymBig); mc::job("asym/malformed", asymMalformed);
	mc::job("header/keccak", keccakHeader); mc::job("header/sha2", sha2Header); mc::job("header/skein", skeinHeader); mc::job("header/blake", blakeHeader);
	mc::job("header/keccak/malformed", [] { Digest::KeccakParams p(mc::pick(std::vector<uint64_t>{ 32, 64, 128 }), 4096, 8); malformedHeader("KeccakParams", p); });
	mc::job("header/sha2/malformed", [] { Digest::SHA2Params p(mc::pick(std::vector<uint64_t>{ 32, 64 }), 4096, 8); malformedHeader("SHA2Params", p); });
	mc::job("header/skein/malformed", [] { Digest::SkeinParams p(mc::pick(std::vector<uint64_t>{ 32, 64, 128 }), 8, 8); malformedHeader("SkeinParams", p); });
	mc::job("header/blake/malformed", [] { Digest::BlakeParams p(mc::flip() ? 64 : 32, 2, 4, 0, 32); malformedHeader("BlakeParams", p); });
	mc::job("header/keccak/edit", [] { if (mc::flip()) { Digest::KeccakParams p; touchHeader("KeccakParams", p); } else { Digest::KeccakParams p(32, 4096, 8); touchHeader("KeccakParams", p); } });
	mc::job("header/sha2/edit", [] { if (mc::flip()) { Digest::SHA2Params p; touchHeader("SHA2Params", p); } else { Digest::SHA2Params p(32, 4096, 8); touchHeader("SHA2Params", p); } });
	mc::job("header/skein/edit", [] { if (mc::flip()) { Digest::SkeinParams p; touchHeader("SkeinParams", p); } else { Digest::SkeinParams p(32, 8, 8); touchHeader("SkeinParams", p); } });
	mc::job("header/blake/edit", [] { if (mc::flip()) { Digest::BlakeParams p; touchHeader("BlakeParams", p); } else { Digest::BlakeParams p(64, 2, 4, 0, 32); touchHeader("BlakeParams", p); } });
	mc::job("state/chacha", [] { cipherState<Cipher::Stream::ChaChaP20>("ChaChaP20", 32, 8, 16); }); mc::job("state/csx512", [] { cipherState<Cipher::Stream::CSX512>("CSX512", 64, 16, 48); });
	for (size_t k : { 32, 64 }) { mc::job("state/rcs" + std::to_string(k), [k] { cipherState<Cipher::Stream::RCS>("RCS", k, 32, 16); }); mc::job("state/rws" + std::to_string(k), [k] { cipherState<Cipher::Stream::RWS>("RWS", k, 64, 16); }); }
	mc::job("state/chacha/bad", [] { cipherStateBad<Cipher::Stream::ChaChaP20>("ChaChaP20", 32, 8, 16); }); mc::job("state/csx512/bad", [] { cipherStateBad<Cipher::Stream::CSX512>("CSX512", 64, 16, 48); });
	mc::job("state/rcs/bad", [] { cipherStateBad<Cipher::Stream::RCS>("RCS", 32, 32, 16); }); mc::job("state/rws/bad", [] { cipherStateBad<Cipher::Stream::RWS>("RWS", 32, 64, 16); });
}
