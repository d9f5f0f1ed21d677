// MC-VARIANT: asan
// MC-LINK: -lcrypto
// MC-TECHNIQUE: exhaustive enumeration of single-bit keys and blocks, offsets, wide forms and re-keying histories of every block cipher on the implementation, against references written from the cipher definitions (and libcrypto)
// Block ciphers are keyed permutations with consistent wide forms.
#include "checks/ref.h"
#include "BlockCiphers.h"
#include "RHX.h"
#include "SHX.h"
#include "KdfFromName.h"
#include <openssl/evp.h>
const char* const MC_PROPERTY = "C19";
using Enumeration::BlockCiphers; using Enumeration::Kdfs; using Cipher::Block::IBlockCipher; using Cipher::SymmetricKey;
static const std::vector<BlockCiphers> ALL{ BlockCiphers::AES, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512,
	BlockCiphers::Serpent, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512 };
static const char* NM[] = { "AES", "RHXH256", "RHXH512", "RHXS256", "RHXS512", "Serpent", "SHXH256", "SHXH512", "SHXS256", "SHXS512" };
static std::string name(int i) { return NM[i]; }

/* the definition: round keys, then the published rounds */
struct Model
{
	bool rhx; Bytes rk; std::vector<uint32_t> rw;
	Model(int c, const Bytes& key, const Bytes& info)
	{
		rhx = c < 5;
		if (c % 5 == 0) { if (rhx) rk = ref::aesExpand(key); else rw = ref::serpentExpand(key); return; }
		static const Kdfs K[] = { Kdfs::None, Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::SHAKE256, Kdfs::SHAKE512 };
		std::unique_ptr<Kdf::IKdf> g(Helper::KdfFromName::GetInstance(K[c % 5]));
		size_t R = rhx ? key.size() / 4 + 14 : key.size() == 32 ? 40 : key.size() == 64 ? 48 : 64;
		std::string n = Enumeration::BlockCipherConvert::ToName(ALL[(size_t)c]); Bytes cus(n.begin(), n.end()); uint16_t bits = (uint16_t)(key.size() * 8); cus.push_back((uint8_t)bits); cus.push_back((uint8_t)(bits >> 8)); cus = cat(cus, info);
		Bytes out(16 * (R + 1)); SymmetricKey kp(key, Bytes(), cus); g->Initialize(kp); g->Generate(out);
		if (rhx) { for (size_t i = 0; i < out.size(); i += 4) { std::swap(out[i], out[i + 3]); std::swap(out[i + 1], out[i + 2]); } rk = out; }
		else for (size_t i = 0; i < out.size(); i += 4) rw.push_back(ref::le32(&out[i]));
	}
	size_t rounds() const { return rhx ? rk.size() / 16 - 1 : rw.size() / 4 - 1; }
	Bytes enc(const Bytes& b) const { return rhx ? ref::aesEnc(rk, b) : ref::serpentEncB(rw, b); }
};
static std::unique_ptr<IBlockCipher> make(int c) { return std::unique_ptr<IBlockCipher>(Helper::BlockCipherFromName::GetInstance(ALL[(size_t)c])); }
static void init(IBlockCipher& e, bool enc, const Bytes& key, const Bytes& info) { if (info.empty()) { SymmetricKey k(key); e.Initialize(enc, k); } else { SymmetricKey k(key, Bytes(), info); e.Initialize(enc, k); } mc::transition(); }
static Bytes one(IBlockCipher& e, const Bytes& b, int how, bool enc)
{
	mc::transition(); size_t off = how & 1 ? 5 : 0; Guarded g(off, 16, 9); Bytes in(off); in.insert(in.end(), b.begin(), b.end());
	if (how == 0) { Bytes o(16); if (enc) e.EncryptBlock(b, o); else e.DecryptBlock(b, o); return o; }
	if (how == 1) { if (enc) e.EncryptBlock(in, off, g.buf, off); else e.DecryptBlock(in, off, g.buf, off); MC_CHECK(g.intact(), "bounds", "a block call wrote outside its 16 bytes"); return g.window(); }
	if (how == 2) { Bytes o = b; e.Transform(o, o); return o; }
	e.Transform(in, off, g.buf, off); MC_CHECK(g.intact(), "bounds", "Transform wrote outside its 16 bytes"); return g.window();
}
static void both(int c, const Bytes& key, const Bytes& info, const std::vector<Bytes>& blocks)
{
	Model m(c, key, info); auto e = make(c), d = make(c); init(*e, true, key, info); init(*d, false, key, info);
	MC_CHECK(e->Rounds() == m.rounds() && d->Rounds() == m.rounds(), "rounds", "%s with a %zu byte key reports %zu rounds, defined %zu", NM[c], key.size(), e->Rounds(), m.rounds());
	for (const Bytes& b : blocks) for (int how = 0; how < 4; ++how)
	{
		Bytes w = m.enc(b); CHECK_EQ("encrypt", one(*e, b, how, true), w, "%s, %zu byte key %s, encrypting %s (call form %d)", NM[c], key.size(), hx(key, 16).c_str(), hx(b).c_str(), how);
		CHECK_EQ("decrypt", one(*d, w, how, false), b, "%s, %zu byte key %s, decrypting %s (call form %d)", NM[c], key.size(), hx(key, 16).c_str(), hx(w).c_str(), how);
	}
	mc::outcome(h(m.enc(blocks[0])));
}
static Bytes bit(size_t n, size_t i) { Bytes b(n); b[i / 8] = (uint8_t)(0x80 >> (i % 8)); return b; }

void mc_register()
{
	mc::bounds("10 ciphers x key sizes 16,24,32,64; zero, all-one, pattern and every single-bit key; every single-bit block and its complement under three keys; every single-byte block value at every position (thorough); Transform256/512/1024/2048 in both directions at 5x5 offset pairs and in place, every single-bit wide block; info strings of 0..40 bytes; every re-keying history of depth 3 (thorough 4) over 8 initialisations, legal and illegal; user-supplied KDF instances");
	mc::assume("the key-expansion KDF itself is decided by C07; here a separate instance of it supplies the extended ciphers' round keys, everything after it comes from the reference rounds");
	for (int c = 0; c < 10; ++c) for (size_t kl : { 16, 24, 32, 64 })
	{
		if (c == 0 && kl == 64) continue;
		std::string tag = name(c) + "/k" + std::to_string(kl);
		for (int part = 0; part < 4; ++part) mc::job(tag + "/keys" + std::to_string(part), [=] {
			std::vector<Bytes> ks; if (part == 0) { ks.push_back(Bytes(kl)); ks.push_back(Bytes(kl, 0xFF)); for (uint32_t i = 0; i < 8; ++i) ks.push_back(pat(kl, i)); }
			for (size_t i = (size_t)part; i < kl * 8; i += 4) { ks.push_back(bit(kl, i)); if (mc::thorough()) { Bytes f = bit(kl, i); for (auto& v : f) v = (uint8_t)~v; ks.push_back(f); } }
			const Bytes& k = mc::pick(ks); both(c, k, Bytes(), { Bytes(16), pat(16, 3) });
		});
		mc::job(tag + "/blocks", [=] {
			int kk = mc::choose(3); Bytes k = kk == 0 ? Bytes(kl) : pat(kl, (uint32_t)kk);
			std::vector<Bytes> bs{ Bytes(16), Bytes(16, 0xFF) }; for (size_t i = 0; i < 128; ++i) { Bytes b = bit(16, i); bs.push_back(b); for (auto& v : b) v = (uint8_t)~v; bs.push_back(b); }
			if (mc::thorough()) for (int p = 0; p < 16; ++p) for (int v = 0; v < 256; ++v) { Bytes b = pat(16, 7); b[(size_t)p] = (uint8_t)v; bs.push_back(b); }
			both(c, k, Bytes(), bs);
		});
		for (bool enc : { true, false }) for (int w = 0; w < 4; ++w) mc::job(tag + (enc ? "/enc" : "/dec") + "/wide" + std::to_string(256 << w), [=] {
			static const size_t O[] = { 0, 1, 3, 16, 33 };
			size_t n = (size_t)32 << w; Bytes k = pat(kl, 11); auto e = make(c), s = make(c); init(*e, enc, k, Bytes()); init(*s, enc, k, Bytes());
			std::vector<Bytes> ins{ pat(n, 5), Bytes(n), Bytes(n, 0xFF) }; size_t step = mc::thorough() ? 1 : 3; for (size_t i = 0; i < n * 8; i += step) { Bytes b = pat(n, 6); b[i / 8] ^= (uint8_t)(1 << (i % 8)); ins.push_back(b); }
			int o = mc::choose(26); size_t io = O[o == 25 ? 1 : o / 5], oo = O[o == 25 ? 1 : o % 5]; if (o) ins.resize(3);
			auto run = [&](const Bytes& i, size_t a, Bytes& out, size_t b) { switch (w) { case 0: e->Transform256(i, a, out, b); break; case 1: e->Transform512(i, a, out, b); break; case 2: e->Transform1024(i, a, out, b); break; default: e->Transform2048(i, a, out, b); } mc::transition(); };
			for (const Bytes& in : ins)
			{
				Bytes want; for (size_t i = 0; i < n; i += 16) { Bytes t(16); s->Transform(sub(in, i, 16), t); want = cat(want, t); }
				Guarded g(oo, n, 7); Bytes padded(io); padded.insert(padded.end(), in.begin(), in.end());
				if (o == 25) { Bytes x(oo, 0x77); x = cat(x, in); run(x, oo, x, oo); CHECK_EQ("wide", sub(x, oo, n), want, "%s %d-bit transform in place", NM[c], 256 << w); continue; }
				run(padded, io, g.buf, oo); MC_CHECK(g.intact(), "bounds", "%s %d-bit transform wrote outside its window", NM[c], 256 << w);
				CHECK_EQ("wide", g.window(), want, "%s %s %d-bit transform at offsets %zu,%zu, key %zu bytes", NM[c], enc ? "encrypting" : "decrypting", 256 << w, io, oo, kl);
			}
			mc::outcome(mc::combine((uint64_t)o, (uint64_t)w));
		});
		if (c % 5) mc::job(tag + "/info", [=] { size_t n = (size_t)mc::choose(mc::thorough() ? 141 : 41); both(c, pat(kl, 2), pat(n, 9), { pat(16, 1) }); });
		if (c == 0 ) mc::job(tag + "/openssl", [=] {
			int i = mc::choose((int)kl * 8 + 128); Bytes k = i < (int)kl * 8 ? bit(kl, (size_t)i) : pat(kl, 4), b = i < (int)kl * 8 ? pat(16, 5) : bit(16, (size_t)i - kl * 8), o(32); int ol = 0;
			EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, kl == 16 ? EVP_aes_128_ecb() : kl == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), nullptr, k.data(), nullptr); EVP_CIPHER_CTX_set_padding(x, 0); EVP_EncryptUpdate(x, o.data(), &ol, b.data(), 16); EVP_CIPHER_CTX_free(x); o.resize(16);
			auto e = make(0), d = make(0); init(*e, true, k, Bytes()); init(*d, false, k, Bytes());
			CHECK_EQ("encrypt", one(*e, b, 0, true), o, "AES against libcrypto, key %s", hx(k).c_str()); CHECK_EQ("decrypt", one(*d, o, 0, false), b, "AES against libcrypto, key %s", hx(k).c_str()); mc::outcome(h(o));
		});
	}
	for (int c = 0; c < 10; ++c) mc::job(name(c) + "/histories", [=] {
		auto e = make(c); int depth = mc::thorough() ? 4 : 3; bool up = false; bool enc = false; std::unique_ptr<Model> m; Bytes b = pat(16, 8);
		size_t big = c == 0 ? 32 : 64;
		for (int i = 0; i < depth; ++i)
		{
			struct A { bool enc; size_t kl; uint32_t tag; size_t info; }; static const A T[] = { { true, 16, 1, 0 }, { false, 16, 1, 0 }, { true, 16, 2, 3 }, { true, 32, 3, 0 }, { false, 24, 4, 9 }, { false, 0, 5, 0 }, { true, 0, 6, 2 } };
			int a = mc::choose(8);
			if (a == 7)
			{
				static const size_t BAD[] = { 0, 1, 15, 17, 31, 33, 63, 65, 128 }; size_t n = BAD[mc::choose(9)];
				bool t = throwsStd([&] { SymmetricKey k(pat(n, 7)); e->Initialize(true, k); }); MC_OP("refuse key of %zu", n);
				MC_CHECK(t, "illegal-key", "%s accepts a %zu byte key", NM[c], n); up = false; mc::state(77); continue;
			}
			A s = T[a]; if (!s.kl) s.kl = big; enc = s.enc; init(*e, s.enc, pat(s.kl, s.tag), pat(s.info, s.tag)); m.reset(new Model(c, pat(s.kl, s.tag), pat(s.info, s.tag))); up = true; MC_OP("initialize(%d, key %zu)", (int)enc, s.kl);
			MC_CHECK(e->IsInitialized() && e->IsEncryption() == enc && e->Rounds() == m->rounds(), "state", "%s reports the wrong state after re-keying", NM[c]);
			Bytes w = m->enc(b); CHECK_EQ("rekey", enc ? one(*e, b, 0, true) : one(*e, w, 0, false), enc ? w : b, "%s after re-keying (step %d)", NM[c], i + 1);
			CHECK_EQ("rekey", one(*e, enc ? b : w, 2, enc), enc ? w : b, "%s Transform after re-keying (step %d)", NM[c], i + 1); mc::state(mc::combine((uint64_t)a, h(w)));
		}
		mc::outcome(up ? 1 : 2);
	});
	mc::job("AES/64-byte-key", [] { auto e = make(0); bool t = throwsStd([&] { SymmetricKey k(pat(64, 1)); e->Initialize(true, k); }); mc::transition(); MC_CHECK(t, "aes-512", "AES (no key-schedule extension) accepts a 64 byte key, of which it uses 16 bytes, leaving the last round keys zero"); });
	for (int c : { 1, 2, 3, 4, 6, 7, 8, 9 }) mc::job(name(c) + "/kdf-instance", [=] {
		static const Kdfs K[] = { Kdfs::None, Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::SHAKE256, Kdfs::SHAKE512 };
		std::unique_ptr<Kdf::IKdf> g(Helper::KdfFromName::GetInstance(K[c % 5])); Bytes k = pat(32, 1), b = pat(16, 2); Model m(c, k, Bytes());
		{ std::unique_ptr<IBlockCipher> e; if (c < 5) e.reset(new Cipher::Block::RHX(g.get())); else e.reset(new Cipher::Block::SHX(g.get())); init(*e, true, k, Bytes()); CHECK_EQ("kdf-instance", one(*e, b, 0, true), m.enc(b), "%s built over a KDF instance", NM[c]); }
		Bytes o(32); SymmetricKey kp(k, Bytes(), Bytes()); g->Initialize(kp); g->Generate(o); mc::transition();   /* still ours: the sanitizer reports it if the cipher freed it */
		mc::outcome(h(o));
	});
}
