// MC-VARIANT: tsan
// MC-SOURCES: mc/sched.cpp
// MC-TECHNIQUE: stateless model checking of the implementation under a controlled scheduler: every schedule of the worker threads up to a number of departures from the default order, with refused threads at every position, for every algorithm, degree, segment size and boundary length in the bounds; each execution is compared with the sequential evaluation of the same calls and every pair of accesses two workers make without an order between them is examined
// Parallel processing gives the sequential result under every schedule.
#include "checks/hashref.h"
#include "mc/sched.h"
#include "BCG.h"
#include "Blake256.h"
#include "Blake512.h"
#include "BlakeParams.h"
#include "CBC.h"
#include "CFB.h"
#include "CTR.h"
#include "ECB.h"
#include "GCM.h"
#include "HBA.h"
#include "ICM.h"
#include "KeccakParams.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA2Params.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein1024.h"
#include "Skein256.h"
#include "Skein512.h"
#include "SkeinParams.h"
#include "StreamCipherFromName.h"
using namespace Cipher::Block::Mode; using Enumeration::BlockCiphers; using Enumeration::StreamCiphers; using Enumeration::StreamAuthenticators; using Enumeration::Digests; using Digest::IDigest;
const char* const MC_PROPERTY = "C02";

namespace
{
	int D(int q, int t) { return mc::thorough() ? t : q; }

	/* ------------------------------------------------------------------ anything that transforms a sequence of bytes */
	struct Xf
	{
		virtual ~Xf() {}
		virtual ParallelOptions& profile() = 0; virtual void degree(size_t d) = 0; virtual void init(bool enc, const Bytes& k, const Bytes& iv) = 0;
		virtual void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) = 0; virtual size_t tagSize() { return 0; }
	};
	template <class T> struct XfBase : Xf
	{
		std::unique_ptr<T> m; XfBase(T* p) : m(p) {}
		ParallelOptions& profile() override { return m->ParallelProfile(); } void degree(size_t d) override { m->ParallelMaxDegree(d); }
		void init(bool enc, const Bytes& k, const Bytes& iv) override { if (iv.empty()) { Cipher::SymmetricKey p(k); m->Initialize(enc, p); } else { Cipher::SymmetricKey p(k, iv); m->Initialize(enc, p); } }
		void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) override { m->Transform(in, io, out, oo, n); }
	};
	typedef XfBase<ICipherMode> ModeXf;
	template <class T> struct TagXf : XfBase<T> { TagXf(T* p) : XfBase<T>(p) {} size_t tagSize() override { return this->m->TagSize(); } };
	struct BcgXf : Xf                                                                     /* the generator: its output stands for the transform */
	{
		std::unique_ptr<Drbg::BCG> g; BcgXf() : g(new Drbg::BCG(Enumeration::Providers::None, true)) {}
		ParallelOptions& profile() override { return g->ParallelProfile(); } void degree(size_t d) override { g->ParallelMaxDegree(d); }
		void init(bool, const Bytes& k, const Bytes& iv) override { Cipher::SymmetricKey p(k, iv); g->Initialize(p); }
		void run(const Bytes&, size_t, Bytes& out, size_t oo, size_t n) override { if (mc::hash(&n, 1) & 1) g->Generate(out, oo, n); else { SecureVector<uint8_t> s(oo + n); g->Generate(s, oo, n); for (size_t i = 0; i < n; ++i) out[oo + i] = s[oo + i]; } }
	};
	struct Alg { std::string name; size_t key, iv, block, ctr; bool whole, big, auth; int dirs; std::function<Xf*()> make; };   /* ctr: bytes at the start (little) or end (big) of the iv that count; dirs: 1 enc, 2 dec, 3 both */
	const std::vector<Alg>& algs()
	{
		static std::vector<Alg> v; if (!v.empty()) return v;
		auto mode = [&](const char* n, BlockCiphers c, size_t k, int kind, int dirs) { v.push_back({ n, k, (size_t)(kind == 0 ? 0 : 16), 16, 16, kind < 3, kind != 4, false, dirs, [c, kind] { ICipherMode* p = kind == 0 ? (ICipherMode*)new ECB(c) : kind == 1 ? (ICipherMode*)new CBC(c) : kind == 2 ? (ICipherMode*)new CFB(c, 16) : kind == 3 ? (ICipherMode*)new CTR(c) : (ICipherMode*)new ICM(c); return (Xf*)new ModeXf(p); } }); };
		mode("ECB-AES", BlockCiphers::AES, 32, 0, 3); mode("CBC-AES", BlockCiphers::AES, 16, 1, 3); mode("CFB-AES", BlockCiphers::AES, 32, 2, 3); mode("CTR-AES", BlockCiphers::AES, 32, 3, 1); mode("ICM-AES", BlockCiphers::AES, 16, 4, 1);
		mode("ECB-Serpent", BlockCiphers::Serpent, 32, 0, 3); mode("CBC-Serpent", BlockCiphers::Serpent, 32, 1, 2); mode("CFB-Serpent", BlockCiphers::Serpent, 32, 2, 2); mode("CTR-Serpent", BlockCiphers::Serpent, 32, 3, 1); mode("ICM-RHXH256", BlockCiphers::RHXH256, 32, 4, 1); mode("CBC-RHXS512", BlockCiphers::RHXS512, 64, 1, 2); mode("CTR-SHXS512", BlockCiphers::SHXS512, 64, 3, 1);
		v.push_back({ "GCM-AES", 32, 12, 16, 0, false, true, true, 3, [] { return (Xf*)new TagXf<IAeadMode>(new GCM(BlockCiphers::AES)); } });
		v.push_back({ "HBA-AES", 32, 16, 16, 16, false, false, true, 3, [] { return (Xf*)new TagXf<IAeadMode>(new HBA(BlockCiphers::AES, StreamAuthenticators::HMACSHA2256)); } });
		auto str = [&](const char* n, StreamCiphers s, size_t k, size_t iv, size_t b, bool auth) { v.push_back({ n, k, iv, b, iv, false, false, auth, auth ? 3 : 1, [s, auth] { Cipher::Stream::IStreamCipher* p = Helper::StreamCipherFromName::GetInstance(s); return auth ? (Xf*)new TagXf<Cipher::Stream::IStreamCipher>(p) : (Xf*)new XfBase<Cipher::Stream::IStreamCipher>(p); } }); };
		str("ChaChaP20", StreamCiphers::ChaChaP20, 32, 8, 64, false); str("CSX512", StreamCiphers::CSX512, 64, 16, 128, false); str("TSX256", StreamCiphers::TSX256, 32, 16, 32, false); str("TSX512", StreamCiphers::TSX512, 64, 16, 64, false); str("TSX1024", StreamCiphers::TSX1024, 128, 16, 128, false); str("RCS", StreamCiphers::RCS, 32, 32, 32, false); str("RWS", StreamCiphers::RWS, 64, 64, 64, false);
		str("ChaChaP20-auth", StreamCiphers::CSXR20K256, 32, 8, 64, true); str("CSX512-auth", StreamCiphers::CSXR80K512, 64, 16, 128, true); str("TSX256-auth", StreamCiphers::TSXR72K256, 32, 16, 32, true); str("TSX512-auth", StreamCiphers::TSXR96K512, 64, 16, 64, true); str("TSX1024-auth", StreamCiphers::TSXR120K512, 128, 16, 128, true); str("RCS-auth", StreamCiphers::RCSK256, 32, 32, 32, true); str("RWS-auth", StreamCiphers::RWSK512, 64, 64, 64, true);
		v.push_back({ "BCG", 32, 32, 32, 16, true, false, false, 1, [] { return (Xf*)new BcgXf(); } });
		return v;
	}
	/* counters that run over a byte, a word or the whole width inside a later segment; the stream ciphers count blocks */
	Bytes ivOf(const Alg& a, int kind)
	{
		Bytes iv = pat(a.iv, 61); if (kind == 0 || !a.ctr) return iv;
		size_t n = std::min(a.ctr, a.iv); auto at = [&](size_t i) -> uint8_t& { return a.big ? iv[a.iv - 1 - i] : iv[i]; };
		size_t top = kind == 1 ? std::min<size_t>(4, n) : kind == 2 ? std::min<size_t>(8, n) : n; for (size_t i = 0; i < top; ++i) at(i) = 0xFF; at(0) = 0xF5; return iv;
	}
	struct Step { size_t n, io, oo; };
	/* authenticated algorithms append their code to what they encrypt and expect it behind what they decrypt */
	std::vector<Bytes> drive(const Alg& a, Xf& x, bool enc, const Bytes& iv, const std::vector<Step>& st, const std::vector<Bytes>& sealed)
	{
		std::vector<Bytes> r; x.init(enc, pat(a.key, 5), iv); size_t k = 0, tag = enc ? x.tagSize() : 0;
		for (const Step& s : st) { if (k && a.name == "GCM-AES") { Bytes n = iv; n[0] ^= (uint8_t)k; x.init(enc, pat(a.key, 5), n); } Bytes in = cat(pat(s.io, 690), k < sealed.size() ? sealed[k] : pat(s.n + 3, 700 + (uint32_t)k)); ++k; Guarded g(s.oo, s.n + tag, 5); x.run(in, s.io, g.buf, g.off, s.n); mc::transition(); MC_CHECK(g.intact(), "bounds", "%s wrote outside the %zu bytes it was given", a.name.c_str(), s.n); r.push_back(g.window()); }
		return r;
	}
	std::vector<Bytes> sequential(const Alg& a, bool enc, const Bytes& iv, const std::vector<Step>& st, const std::vector<Bytes>& sealed) { std::unique_ptr<Xf> x(a.make()); x->profile().IsParallel() = false; return drive(a, *x, enc, iv, st, sealed); }
	std::vector<Bytes> inputs(const Alg& a, bool enc, const Bytes& iv, const std::vector<Step>& st) { return a.auth && !enc ? sequential(a, true, iv, st, {}) : std::vector<Bytes>(); }
	/* one run in parallel: the processors, the degree and the segment multiple are set before Initialize, as the profile asks for */
	void compare(const Alg& a, bool enc, int ivKind, int degree, uint32_t cpus, size_t mult, const std::function<std::vector<Step>(size_t prl, size_t min)>& steps, int delays, int refuse)
	{
		try {
		sim::cpu.logical = cpus; std::unique_ptr<Xf> x(a.make()); x->profile().IsParallel() = true; x->degree((size_t)degree); size_t mn = x->profile().ParallelMinimumSize(); x->profile().SetBlockSize(mn * mult); MC_CHECK(x->profile().ParallelMaxDegree() == (size_t)degree, "degree", "%s: degree %d became %zu", a.name.c_str(), degree, x->profile().ParallelMaxDegree());
		std::vector<Step> st = steps(x->profile().ParallelBlockSize(), mn); Bytes iv = ivOf(a, ivKind); std::vector<Bytes> in = inputs(a, enc, iv, st), want = sequential(a, enc, iv, st, in);
		sched::begin(delays); int asked = 0; sched::createFails = [&] { ++asked; return refuse < 0 || asked == refuse; };
		std::vector<Bytes> got = drive(a, *x, enc, iv, st, in); sched::end();
		std::string h0; for (auto& s : st) h0 += std::to_string(s.n) + " ";
		MC_OP("%s %s, %d workers on %u processors, segment x%zu, counter %d, lengths %s", a.name.c_str(), enc ? "enc" : "dec", degree, cpus, mult, ivKind, h0.c_str());
		uint64_t o = 1; for (size_t i = 0; i < want.size(); ++i) { CHECK_EQ("result", got[i], want[i], "%s %s with %d workers, segment x%zu, counter %d, lengths %s: part %zu", a.name.c_str(), enc ? "encryption" : "decryption", degree, mult, ivKind, h0.c_str(), i); o = mc::combine(o, h(got[i])); }
		mc::outcome(o);
		} catch (Exception::CryptoException& e) { mc::fail("refused", "%s with %d workers: %s: %s", a.name.c_str(), degree, e.Origin().c_str(), e.Message().c_str()); }
	}
	void cipherJobs()
	{
		for (const Alg& a : algs())
		{
			int ivs = a.ctr && a.iv ? 4 : 1;
			mc::job(a.name + "/lengths", [a, ivs]
			{
				static const int DEG[] = { 2, 4, 6, 8 }; int d = DEG[mc::choose(D(2, 4))]; bool enc = a.dirs == 3 ? mc::flip() : a.dirs == 1; size_t mult = 1 + (size_t)mc::choose(D(2, 3)); uint32_t cpus = a.name == "BCG" || mc::flip() ? 16 : (uint32_t)d; int first = mc::choose(8), second = mc::choose(D(3, 8)), iv = mc::choose(ivs); if (!mc::thorough() && iv && (mult == 2 || second)) throw mc::Infeasible();
				compare(a, enc, iv, d, cpus, mult, [&](size_t P, size_t M)
				{
					size_t b = a.block; auto len = [&](int k) { size_t L[] = { P, P + b, 2 * P + 3 * b, P - b, M + b * (size_t)d + b, P + M / 2 + 2 * b, 3 * P, 2 * P - b }; size_t n = L[k]; return n; };
					size_t n1 = len(first), n2 = len(second); if (!a.whole) { n1 += second ? 5 : 0; n2 += 7; }
					return std::vector<Step>{ { n1, 0, 0 }, { n2, 3, 2 }, { 2 * b, 0, 0 } };
				}, 0, 0);
			});
			mc::job(a.name + "/schedules", [a, ivs]
			{
				int d = mc::flip() ? 4 : 2; bool enc = a.dirs == 3 ? mc::flip() : a.dirs == 1; int refuse = mc::choose(d + 2); if (refuse == d + 1) refuse = -1; int iv = ivs > 1 ? 3 : 0;
				compare(a, enc, iv, d, 16, 1, [&](size_t P, size_t) { size_t b = a.block; return std::vector<Step>{ { P + b + (a.whole ? 0 : 3), 0, 0 }, { b, 0, 0 } }; }, refuse ? D(0, 1) : d == 2 ? D(2, 3) : D(1, 2), refuse);
			});
			mc::job(a.name + "/profile", [a]
			{
				/* profiles left as constructed, switched off and on, and odd or single processors */
				static const uint32_t CPU[] = { 1, 2, 3, 8 }; sim::cpu.logical = CPU[mc::choose(4)]; int how = mc::choose(4); bool enc = a.dirs != 2; std::unique_ptr<Xf> x(a.make());
				if (how == 1) x->profile().IsParallel() = !x->profile().IsParallel(); if (how == 2) x->profile().SetMaxDegree(2); if (how == 3) x->profile().Calculate(true, 0, 4);
				size_t P = x->profile().ParallelBlockSize(); size_t n = mc::flip() ? P : P + 2 * a.block; if (n > 65000) throw mc::Infeasible(); std::vector<Step> st{ { n, 0, 0 }, { 2 * a.block, 0, 0 } };
				if (x->profile().IsParallel() && x->profile().ParallelMaxDegree() % 2) { mc::outcome(1); return; }
				Bytes iv = ivOf(a, 0); std::vector<Bytes> in = inputs(a, enc, iv, st), want = sequential(a, enc, iv, st, in), got; sched::begin(0); bool refused = false; try { got = drive(a, *x, enc, iv, st, in); } catch (const std::exception&) { refused = true; } sched::end();
				MC_OP("%s on %u processors, profile %d, %zu bytes: %s", a.name.c_str(), sim::cpu.logical, how, n, refused ? "refused" : "done"); MC_CHECK(!refused || how, "default-profile", "%s refuses its own default profile on %u processors", a.name.c_str(), sim::cpu.logical);
				if (!refused) for (size_t i = 0; i < want.size(); ++i) CHECK_EQ("result", got[i], want[i], "%s on %u processors, profile %d, %zu bytes: part %zu", a.name.c_str(), sim::cpu.logical, how, n, i); mc::outcome(mc::combine(refused, n));
			});
		}
	}

	/* ------------------------------------------------------------------ tree hashing */
	struct Dg { const char* name; Digests id; size_t rate, out; };
	const std::vector<Dg> DG{ { "SHA2-256", Digests::SHA2256, 64, 32 }, { "SHA2-512", Digests::SHA2512, 128, 64 }, { "SHA3-256", Digests::SHA3256, 136, 32 }, { "SHA3-512", Digests::SHA3512, 72, 64 }, { "Skein-256", Digests::Skein256, 32, 32 }, { "Skein-512", Digests::Skein512, 64, 64 }, { "Skein-1024", Digests::Skein1024, 128, 128 }, { "Blake-256", Digests::Blake256, 64, 32 }, { "Blake-512", Digests::Blake512, 128, 64 } };
	IDigest* tree(const Dg& a, int F)
	{
		uint8_t f = (uint8_t)F, o = (uint8_t)a.out;
		switch (a.id)
		{
		case Digests::SHA2256: { Digest::SHA2Params q(o, (uint32_t)a.rate, f); return new Digest::SHA2256(q); }
		case Digests::SHA2512: { Digest::SHA2Params q(o, (uint32_t)a.rate, f); return new Digest::SHA2512(q); }
		case Digests::SHA3256: { Digest::KeccakParams q(o, (uint32_t)a.rate, f); return new Digest::SHA3256(q); }
		case Digests::SHA3512: { Digest::KeccakParams q(o, (uint32_t)a.rate, f); return new Digest::SHA3512(q); }
		case Digests::Blake256: { Digest::BlakeParams q(o, 2, f, 0, o); return new Digest::Blake256(q); }
		case Digests::Blake512: { Digest::BlakeParams q(o, 2, f, 0, o); return new Digest::Blake512(q); }
		case Digests::Skein256: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); return new Digest::Skein256(q); }
		case Digests::Skein512: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); return new Digest::Skein512(q); }
		default: { Digest::SkeinParams q(o, (uint8_t)a.rate, f); return new Digest::Skein1024(q); }
		}
	}
	/* the sequential evaluation: every lane on the calling thread, the message in single bytes */
	Bytes inOrder(const Dg& a, int F, const Bytes& m)
	{
		if (a.id == Digests::Blake256) return ref::blake2tree<uint32_t>(m, F); if (a.id == Digests::Blake512) return ref::blake2tree<uint64_t>(m, F);
		sim::cpu.logical = 16; std::unique_ptr<IDigest> d(tree(a, F)); sched::begin(0, 10000000); bool r = sched::races; sched::races = false; sched::createFails = [] { return true; }; for (uint8_t b : m) d->Update(b); Bytes c(a.out); d->Finalize(c, 0); sched::end(); sched::races = r; return c;
	}
	void treeRun(const Dg& a, int F, uint32_t cpus, const std::vector<size_t>& L, int delays, int refuse)
	{
		Bytes m; for (size_t i = 0; i < L.size(); ++i) m = cat(m, pat(L[i], 900 + (uint32_t)i)); Bytes want = inOrder(a, F, m), want2 = inOrder(a, F, sub(m, 0, std::min<size_t>(m.size(), 70)));
		sim::cpu.logical = cpus; std::unique_ptr<IDigest> d(tree(a, F)); sched::begin(delays); int asked = 0; sched::createFails = [&] { ++asked; return refuse < 0 || asked == refuse; };
		size_t at = 0; for (size_t n : L) { d->Update(m, at, n); at += n; mc::transition(); } Bytes c(a.out), c2(a.out); d->Finalize(c, 0); d->Update(m, 0, std::min<size_t>(m.size(), 70)); d->Finalize(c2, 0); sched::end();
		MC_OP("%s, %d lanes on %u processors, %zu bytes", a.name, F, cpus, m.size());
		CHECK_EQ("digest", c, want, "%s with %d lanes on %u processors over %zu bytes in %zu pieces", a.name, F, cpus, m.size(), L.size()); CHECK_EQ("digest-next", c2, want2, "%s with %d lanes: the message after one of %zu bytes", a.name, F, m.size()); mc::outcome(h(c));
	}
	void treeJobs()
	{
		for (const Dg& a : DG)
		{
			std::string t = std::string(a.name) + "/";
			mc::job(t + "lengths", [a]
			{
				static const int DEG[] = { 2, 4, 6, 8 }; int F = DEG[mc::choose(D(2, 4))]; size_t P = (size_t)F * a.rate, R = a.rate; const size_t L[] = { 3 * P + R, 1, P - 1, P, P + 1, 2 * P, 2 * P + R, 3 * P - R + 1, 4 * P + 5, 5 * P - 1 }; uint32_t cpus = mc::flip() ? 16 : 2;
				size_t x = L[mc::choose(10)], y = L[mc::choose(D(5, 10))]; treeRun(a, F, cpus, { x, y }, 0, 0);
			});
			mc::job(t + "schedules", [a] { int F = mc::flip() ? 4 : 2; size_t P = (size_t)F * a.rate; int refuse = mc::choose(F + 2); if (refuse == F + 1) refuse = -1; treeRun(a, F, 16, { 3 * P + a.rate + 7 }, refuse ? D(0, 1) : F == 2 ? D(2, 3) : D(1, 2), refuse); });
		}
	}
}
void mc_register()
{
	mc::forkEach(true); mc::setHangSeconds(60);
	mc::bounds(mc::thorough() ? "27 ciphers, modes and generators and 9 tree digests; degrees 2, 4, 6, 8 at 1 to 3 minimum segments, as many processors as workers or 16; every pair of 8 boundary lengths followed by a short call, four counter positions; every schedule with up to 3 departures (2 workers) or 2 (4 workers) with every single refused thread or all; default, switched and recalculated profiles on 1, 2, 3 and 8 processors"
		: "27 ciphers, modes and generators and 9 tree digests; degrees 2 and 4 at 1 or 2 minimum segments, as many processors as workers or 16; 8 x 3 boundary lengths followed by a short call, four counter positions; every schedule with up to 2 departures (2 workers) or 1 (4 workers), and every single refused thread or all; default, switched and recalculated profiles on 1, 2, 3 and 8 processors");
	mc::assume("the worker threads of one call share memory only through accesses that are examined in every execution: with none of them in conflict, an interleaving between synchronisation points cannot change what a worker reads, so the schedules of the synchronisation points are all the schedules; sequentially consistent memory; in-place calls are not made (the counter modes do not support them)");
	cipherJobs(); treeJobs();
}
