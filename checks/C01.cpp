// MC-VARIANT: asan
// Cipher modes: every history of chunked calls equals the textbook mode applied to the stream, block by block.
#include "checks/common.h"
#include "CBC.h"
#include "CFB.h"
#include "CTR.h"
#include "ECB.h"
#include "ICM.h"
#include "OFB.h"
#include "CipherModeFromName.h"
using namespace Cipher::Block::Mode; using Enumeration::BlockCiphers; using Enumeration::CipherModes;
const char* const MC_PROPERTY = "C01";

struct Model
{
	CipherModes m; RefBlock& b; Bytes iv; size_t reg; bool enc;
	Bytes run(const Bytes& in)
	{
		Bytes out; auto X = [](Bytes a, const Bytes& c) { for (size_t i = 0; i < a.size() && i < c.size(); ++i) a[i] ^= c[i]; return a; };
		size_t step = m == CipherModes::CFB ? reg : 16;
		for (size_t p = 0; p < in.size(); p += step)
		{
			Bytes c = sub(in, p, std::min(step, in.size() - p)), o;
			switch (m)
			{
			case CipherModes::ECB: o = enc ? b.enc(c) : b.dec(c); break;
			case CipherModes::CBC: if (enc) { o = b.enc(X(c, iv)); iv = o; } else { o = X(b.dec(c), iv); iv = c; } break;
			case CipherModes::CFB: { Bytes ks = b.enc(iv); o = X(c, ks); const Bytes& ct = enc ? o : c; iv.erase(iv.begin(), iv.begin() + (ptrdiff_t)reg); iv.insert(iv.end(), ct.begin(), ct.end()); break; }
			case CipherModes::OFB: iv = b.enc(iv); o = X(c, iv); break;
			case CipherModes::CTR: o = X(c, b.enc(iv)); addBE(iv, 1); break;
			default: o = X(c, b.enc(iv)); addLE(iv, 1); break;
			}
			out.insert(out.end(), o.begin(), o.end());
		}
		return out;
	}
};
static const char* mname(CipherModes m) { switch (m) { case CipherModes::ECB: return "ECB"; case CipherModes::CBC: return "CBC"; case CipherModes::CFB: return "CFB"; case CipherModes::OFB: return "OFB"; case CipherModes::CTR: return "CTR"; default: return "ICM"; } }
static ICipherMode* make(CipherModes m, BlockCiphers c, size_t reg)
{
	switch (m) { case CipherModes::ECB: return new ECB(c); case CipherModes::CBC: return new CBC(c); case CipherModes::CFB: return new CFB(c, reg); case CipherModes::OFB: return new OFB(c); case CipherModes::CTR: return new CTR(c); default: return new ICM(c); }
}
struct Cfg { CipherModes m; BlockCiphers c; size_t key; size_t reg; bool enc; int degree; size_t pblock; int ivKind; int depth; };
static Bytes ivOf(int kind)
{
	Bytes iv = pat(16, 77);
	if (kind == 1) iv = Bytes(16, 0xFF);                                    /* wraps on the first increment */
	if (kind == 2) { iv = Bytes(16, 0xFF); iv[0] = 1; iv[15] = 0xFB; }      /* wraps (BE) within the first wide group */
	if (kind == 3) { iv = Bytes(16, 0xFF); iv[15] = 0; iv[0] = 0xFA; }      /* wraps (LE) within the first wide group */
	if (kind == 4) { iv = pat(16, 78); iv[15] = 0xF0; iv[14] = 0xFF; iv[0] = 0xF0; iv[1] = 0xFF; }  /* two-byte carry inside a later segment */
	return iv;
}
static void body(const Cfg& g, const std::vector<size_t>& lens, const std::vector<std::pair<size_t, size_t>>& offs)
{
	sim::cpu.logical = g.degree ? (uint32_t)g.degree : 1;
	Bytes key = pat(g.key, 5), iv = ivOf(g.ivKind);
	std::unique_ptr<ICipherMode> mode(make(g.m, g.c, g.reg));
	if (g.m != CipherModes::OFB) { if (g.degree) { mode->ParallelProfile().IsParallel() = true; mode->ParallelMaxDegree((size_t)g.degree); mode->ParallelProfile().SetBlockSize(g.pblock); } else mode->ParallelProfile().IsParallel() = false; }
	if (g.m == CipherModes::ECB) { Cipher::SymmetricKey kp(key); mode->Initialize(g.enc, kp); } else { Cipher::SymmetricKey kp(key, iv); mode->Initialize(g.enc, kp); }
	Model ref{ g.m, RefBlock::get(g.c, key), iv, g.reg, g.enc };
	size_t pos = 0;
	for (int d = 0; d < g.depth; ++d)
	{
		int k = mc::choose((int)lens.size() + 2);                           /* transform of each length, block call, stop */
		if (k == (int)lens.size() + 1) break;
		auto of = offs[(size_t)mc::choose((int)offs.size())];
		bool block = k == (int)lens.size(); size_t n = block ? mode->BlockSize() : lens[(size_t)k];
		Bytes data = pat(n, (uint32_t)(1000 + pos)); pos += n + 1;
		Bytes in = cat(cat(pat(of.first, 9), data), pat(5, 8)); Guarded out(of.second, n, 7); Bytes keep = in;
		if (block) { if (g.enc) mode->EncryptBlock(in, of.first, out.buf, of.second); else mode->DecryptBlock(in, of.first, out.buf, of.second); }
		else mode->Transform(in, of.first, out.buf, of.second, n);
		MC_OP("%s %s len=%zu in+%zu out+%zu", mname(g.m), block ? "block" : "transform", n, of.first, of.second);
		CHECK_EQ("mode-output", out.window(), ref.run(data), "%s call %d (%s of %zu bytes at input offset %zu, output offset %zu)", mname(g.m), d, block ? "block call" : "Transform", n, of.first, of.second);
		MC_CHECK(out.intact(), "mode-overwrite", "%s wrote outside its output window (len %zu, out offset %zu)", mname(g.m), n, of.second);
		MC_CHECK(in == keep, "mode-input-changed", "%s changed its input", mname(g.m));
		mc::state(mc::combine(h(ref.iv), (uint64_t)d));
	}
	MC_CHECK(mode->IsInitialized() && mode->IsEncryption() == g.enc, "mode-flags", "state flags wrong after a history");
	mc::outcome(h(ref.iv));
}
void mc_register()
{
	mc::bounds("modes ECB,CBC,CFB(1,8,16),OFB,CTR,ICM x encrypt/decrypt x AES-128/256, Serpent, RHX/SHX extended x sequential and 2/4-way parallel at 1 or 2 minimum segments x up to 3 (quick: 2) successive calls; lengths around every SIMD and parallel boundary; 4 offset pairs; counters that wrap in every lane position");
	mc::assume("the single-block function used by the reference is the engine's own (decided separately by C19)");
	bool T = mc::thorough();
	std::vector<CipherModes> modes{ CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };
	struct CK { BlockCiphers c; size_t k; const char* n; };
	std::vector<CK> cks{ { BlockCiphers::AES, 32, "AES256" }, { BlockCiphers::AES, 16, "AES128" }, { BlockCiphers::Serpent, 32, "Serpent" }, { BlockCiphers::RHXS256, 64, "RHXS256" }, { BlockCiphers::SHXH256, 64, "SHXH256" } };
	for (auto& ck : cks) for (auto m : modes) for (size_t reg : std::vector<size_t>{ 16, 8, 1 }) for (int enc = 0; enc < 2; ++enc) for (int par = 0; par < 4; ++par)
	{
		if (reg != 16 && m != CipherModes::CFB) continue;
		if (par && m == CipherModes::OFB) continue;
		bool first = ck.n == std::string("AES256");
		bool kdfCipher = ck.c == BlockCiphers::RHXS256 || ck.c == BlockCiphers::SHXH256;
		int degree = par == 0 ? 0 : par == 3 ? 4 : 2; size_t unit = m == CipherModes::CFB ? 16 : 128, pb = (size_t)degree * unit * (par == 2 ? 3 : 1);
		std::vector<int> ivs{ 0 }; if (m == CipherModes::CTR || m == CipherModes::ICM) ivs = { 0, 1, 2, 3, 4 };
		bool stream = m == CipherModes::CTR || m == CipherModes::ICM;
		std::vector<size_t> lens;
		if (m == CipherModes::CFB) { lens = { reg, 2 * reg, 3 * reg, 7 * 16, 8 * 16 }; if (degree) { lens.push_back(pb); lens.push_back(pb + 16); lens.push_back(2 * pb + 32); } }
		else if (!degree) { lens = { 16, 32, 48, 64, 112, 128, 144, 240, 256, 272, 400 }; if (stream) for (size_t x : { 1, 15, 17, 127, 129, 130, 255, 257, 261 }) lens.push_back((size_t)x); }
		else { lens = { 16, 128, pb - 16, pb, pb + 16, pb + 128, pb + 144, 2 * pb, 2 * pb + 16, 3 * pb + 272 }; if (stream) for (size_t x : { pb - 1, pb + 1, pb + 17, pb + 129, 2 * pb + 15 }) lens.push_back(x); }
		std::vector<std::pair<size_t, size_t>> offs{ { 0, 0 }, { 3, 17 } }; if (first || T) { offs.push_back({ 16, 0 }); offs.push_back({ 0, 5 }); }
		for (int iv : ivs)
		{
			int depth = T ? (kdfCipher ? 2 : 3) : (iv == 0 && first ? 2 : 2);
			if (!T && kdfCipher && (par == 3 || iv > 1)) continue;
			Cfg g{ m, ck.c, ck.k, reg, enc == 1, degree, pb, iv, depth };
			char nm[128]; std::snprintf(nm, sizeof nm, "%s-%s/reg%zu/%s/par%d/iv%d", mname(m), ck.n, reg, enc ? "enc" : "dec", par, iv);
			mc::job(nm, [g, lens, offs] { body(g, lens, offs); });
		}
	}
	/* round trip through independently chunked encryptor and decryptor, and re-initialisation of a used instance */
	for (auto m : modes) for (int par = 0; par < 2; ++par)
		mc::job(std::string("reinit-roundtrip/") + mname(m) + (par ? "/par" : "/seq"), [m, par] {
			sim::cpu.logical = par ? 2 : 1; std::unique_ptr<ICipherMode> mode(make(m, BlockCiphers::AES, 16)); bool p = par && m != CipherModes::OFB;
			if (m != CipherModes::OFB) { mode->ParallelProfile().IsParallel() = p; if (p) mode->ParallelProfile().SetBlockSize(256); }
			auto init = [&](ICipherMode& x, bool e, int k) { Bytes key = pat(k % 2 ? 16 : 32, 5 + (uint32_t)k), iv = pat(16, 60 + (uint32_t)k); if (m == CipherModes::ECB) { Cipher::SymmetricKey kp(key); x.Initialize(e, kp); } else { Cipher::SymmetricKey kp(key, iv); x.Initialize(e, kp); } };
			const std::vector<size_t> ls{ 16, 48, 256, 528 };
			for (int r = 0; r < 3; ++r)
			{
				int k = mc::choose(2); bool e = mc::choose(2) == 0; size_t n = ls[(size_t)mc::choose(4)], c1 = (size_t)mc::choose(2) ? 16 : n; init(*mode, e, k);
				Bytes key = pat(k % 2 ? 16 : 32, 5 + (uint32_t)k); Model ref{ m, RefBlock::get(BlockCiphers::AES, key), pat(16, 60 + (uint32_t)k), 16, e };
				Bytes d = pat(n, 700 + (uint32_t)r), o(n); mode->Transform(d, 0, o, 0, c1); if (c1 < n) mode->Transform(d, c1, o, c1, n - c1);
				MC_OP("init %s key%d then %zu bytes", e ? "enc" : "dec", k, n); CHECK_EQ("mode-reinit", o, ref.run(d), "%s after re-initialisation %d (%s)", mname(m), r, e ? "encrypt" : "decrypt");
				std::unique_ptr<ICipherMode> inv(make(m, BlockCiphers::AES, 16)); if (m != CipherModes::OFB) inv->ParallelProfile().IsParallel() = false; init(*inv, !e, k); Bytes back(n); inv->Transform(o, 0, back, 0, n);
				CHECK_EQ("mode-roundtrip", back, d, "%s round trip of %zu bytes", mname(m), n); mc::state(mc::combine(h(o), (uint64_t)r));
			}
		});
}
