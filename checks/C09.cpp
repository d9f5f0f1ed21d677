// MC-VARIANT: asan
// MC-TECHNIQUE: exhaustive enumeration of every operation sequence up to a depth on each stream against a byte-array model, and of every length around block and parallel boundaries for every stream processor configuration against the bare primitive
// Streams and stream processors behave like the plain byte sequence they carry.
#include "checks/common.h"
#include "MemoryStream.h"
#include "SecureStream.h"
#include "FileStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "CipherStream.h"
#include "DigestStream.h"
#include "MacStream.h"
#include "CipherModeFromName.h"
#include "PaddingFromName.h"
#include "DigestFromName.h"
#include "MacFromName.h"
#include "CryptoPaddingException.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
const char* const MC_PROPERTY = "C09";
using namespace CEX::IO; using namespace CEX::Enumeration; using CEX::Cipher::SymmetricKey;
using CEX::Processing::CipherStream; using CEX::Processing::DigestStream; using CEX::Processing::MacStream;

/* files live in a directory of this execution only */
struct Scratch
{
	std::string dir; std::vector<std::string> made;
	Scratch() { char t[] = "/tmp/mc-c09-XXXXXX"; const char* d = ::mkdtemp(t); dir = d ? d : ""; if (dir.empty()) { std::perror("mkdtemp"); std::abort(); } }
	std::string file(const char* n, const Bytes& content, bool create = true) { std::string p = dir + "/" + n; if (create) { std::ofstream o(p, std::ios::binary); o.write((const char*)content.data(), (std::streamsize)content.size()); } made.push_back(p); return p; }
	static Bytes load(const std::string& p) { std::ifstream i(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
	~Scratch() { for (auto& p : made) ::unlink(p.c_str()); ::rmdir(dir.c_str()); }
};

/* the model: a growing byte array with a position */
struct Model
{
	Bytes a; uint64_t p = 0;
	size_t left() const { return p < a.size() ? (size_t)(a.size() - p) : 0; }
	Bytes read(size_t n) { n = std::min(n, left()); Bytes r; if (n) r = sub(a, (size_t)p, n); p += n; return r; }
	void write(const Bytes& b) { if (b.empty()) return; if (a.size() < p + b.size()) a.resize((size_t)p + b.size()); std::copy(b.begin(), b.end(), a.begin() + (ptrdiff_t)p); p += b.size(); }
};
enum Kind { MEM, SEC, FIL };
static const char* KN[] = { "MemoryStream", "SecureStream", "FileStream" };
static Bytes content(IByteStream& s) { MemoryStream m; s.CopyTo(&m); return m.ToArray(); }
static const uint64_t FAR = 1ULL << 62;

static void same(Kind k, IByteStream& s, const Model& m, const std::string& d)
{
	MC_CHECK(s.Length() == m.a.size(), "length", "%s: Length() is %llu, expected %zu after [%s]", KN[k], (unsigned long long)s.Length(), m.a.size(), d.c_str());
	MC_CHECK(s.Position() == m.p, "position", "%s: Position() is %llu, expected %llu after [%s]", KN[k], (unsigned long long)s.Position(), (unsigned long long)m.p, d.c_str());
}
static void finish(Kind k, IByteStream& s, Model& m, const std::string& d)
{
	same(k, s, m, d); uint64_t p = m.p; MC_OP("copy and read back"); CHECK_EQ("content", content(s), m.a, "%s: CopyTo after [%s]", KN[k], d.c_str());
	same(k, s, m, d + "copy "); s.Seek(0, SeekOrigin::Begin); Bytes r(m.a.size() + 3, 0xEE); size_t n = s.Read(r, 1, m.a.size() + 2); MC_CHECK(n == m.a.size(), "content", "%s: read back %zu of %zu bytes after [%s]", KN[k], n, m.a.size(), d.c_str());
	MC_CHECK(r[0] == 0xEE && r[n + 1] == 0xEE, "outside", "%s: Read wrote outside of its window after [%s]", KN[k], d.c_str()); CHECK_EQ("content", sub(r, 1, n), m.a, "%s: content after [%s]", KN[k], d.c_str()); (void)p;
	if (k == MEM) CHECK_EQ("content", ((MemoryStream&)s).ToArray(), m.a, "%s: ToArray after [%s]", KN[k], d.c_str());
	if (k == SEC) CHECK_EQ("content", ((SecureStream&)s).ToArray(), m.a, "%s: ToArray after [%s]", KN[k], d.c_str());
	mc::outcome(mc::combine(h(m.a), p));
}
/* one operation; false: this choice is not in the alphabet of this stream */
enum { NOPS = 25 };
static void step(Kind k, IByteStream& s, Model& m, int op, int idx, size_t unit, std::string& d)
{
	const size_t u = unit; uint64_t len = m.a.size(); bool threw = false; char buf[64];
	auto wr = [&](size_t n, size_t off) { Bytes b = pat(n + off + 1, (uint32_t)(10 + idx)); std::snprintf(buf, sizeof buf, "write%zu ", n); d += buf; MC_OP("%s: write %zu bytes", KN[k], n); if (m.p > (1u << 30)) { threw = throwsStd([&] { s.Write(b, off, n); }); MC_CHECK(threw || n == 0, "accepted", "%s: a write beyond the address space was accepted [%s]", KN[k], d.c_str()); return; } s.Write(b, off, n); m.write(sub(b, off, n)); };
	auto rd = [&](size_t n, size_t off) { Bytes o(off + n + 1, 0xEE), w(off, 0xEE); std::snprintf(buf, sizeof buf, "read%zu ", n); d += buf; MC_OP("%s: read %zu bytes", KN[k], n); size_t g = s.Read(o, off, n); Bytes e = m.read(n); MC_CHECK(g == e.size(), "read", "%s: read of %zu bytes gave %zu, expected %zu [%s]", KN[k], n, g, e.size(), d.c_str()); w.insert(w.end(), e.begin(), e.end()); w.resize(off + n + 1, 0xEE); CHECK_EQ("read", o, w, "%s: read of %zu bytes into offset %zu [%s]", KN[k], n, off, d.c_str()); };
	auto seek = [&](uint64_t o, SeekOrigin g) { uint64_t t = g == SeekOrigin::Begin ? o : g == SeekOrigin::Current ? m.p + o : len - o; std::snprintf(buf, sizeof buf, "seek%d:%lld ", (int)g, (long long)o); d += buf; MC_OP("%s: seek %lld from %d", KN[k], (long long)o, (int)g);
		bool odd = g == SeekOrigin::End ? o > len : t >= FAR; try { s.Seek(o, g); } catch (const std::exception&) { threw = true; }
		if (threw) { MC_CHECK(odd, "refused", "%s: a legal seek was refused [%s]", KN[k], d.c_str()); return; } if (k == FIL && g == SeekOrigin::End) { m.p = s.Position(); MC_CHECK(m.p == len + o || m.p == len - o, "position", "%s: seek %llu from the end of %llu bytes went to %llu", KN[k], (unsigned long long)o, (unsigned long long)len, (unsigned long long)m.p); return; } MC_CHECK(!(g == SeekOrigin::End && odd), "accepted", "%s: a seek before the start was accepted [%s]", KN[k], d.c_str()); m.p = t; };
	auto setlen = [&](uint64_t n) { std::snprintf(buf, sizeof buf, "setlen%llu ", (unsigned long long)n); d += buf; MC_OP("%s: set length %llu", KN[k], (unsigned long long)n); s.SetLength(n); m.a.resize((size_t)n); };
	switch (op)
	{
	case 0: wr(0, 0); break;
	case 1: wr(u, 1); break;
	case 2: wr(3 * u + 1, 0); break;
	case 3: { uint8_t v = (uint8_t)(0x41 + idx); d += "wbyte "; MC_OP("%s: write a byte", KN[k]); if (m.p > (1u << 30)) { threw = throwsStd([&] { s.WriteByte(v); }); MC_CHECK(threw, "accepted", "%s: a write beyond the address space was accepted [%s]", KN[k], d.c_str()); break; } s.WriteByte(v); m.write(Bytes(1, v)); break; }
	case 4: rd(1, 0); break;
	case 5: rd(2 * u, 3); break;
	case 6: rd((size_t)len + 9, 0); break;
	case 7: { d += "rbyte "; MC_OP("%s: read a byte", KN[k]); uint8_t v = 0; threw = throwsStd([&] { v = s.ReadByte(); }); MC_CHECK(threw == (m.left() == 0), threw ? "refused" : "accepted", "%s: reading a byte with %zu left was %s [%s]", KN[k], m.left(), threw ? "refused" : "accepted", d.c_str()); if (!threw) { uint8_t e = m.read(1)[0]; MC_CHECK(v == e, "read", "%s: read byte %02x, expected %02x [%s]", KN[k], v, e, d.c_str()); } break; }
	case 8: seek(0, SeekOrigin::Begin); break;
	case 9: seek(2 * u, SeekOrigin::Begin); break;
	case 10: seek(len + 2, SeekOrigin::Begin); break;
	case 11: seek(0, SeekOrigin::End); break;
	case 12: seek(1, SeekOrigin::End); break;
	case 13: seek(len + 1, SeekOrigin::End); break;
	case 14: seek(1, SeekOrigin::Current); break;
	case 15: seek(~0ULL, SeekOrigin::Current); break;
	case 16: seek(~0ULL - 1, SeekOrigin::Begin); break;
	case 17: setlen(0); break;
	case 18: setlen(std::min<uint64_t>(m.p, len + 40)); break;
	case 19: setlen(len + u + 2); break;
	case 20: setlen(len / 2); break;
	case 21: { d += "reset "; MC_OP("%s: reset", KN[k]); s.Reset(); m.p = 0; if (k != FIL) m.a.clear(); else MC_CHECK(s.Length() == len || s.Length() == 0, "length", "FileStream: the length after a reset is %llu", (unsigned long long)s.Length()); if (k == FIL) m.a.resize((size_t)s.Length()); break; }
	case 22: { d += "rsmall "; MC_OP("%s: read into an array that is too small", KN[k]); Bytes o(1, 0xEE); size_t n = 0; threw = throwsStd([&] { n = s.Read(o, 1, 2); }); size_t e = std::min<size_t>(2, m.left()); if (!threw) { MC_CHECK(n == 0, "read", "%s: reported %zu bytes read into an array with no room [%s]", KN[k], n, d.c_str()); } MC_CHECK(threw || !e, "accepted", "%s: a read into an array with no room was accepted [%s]", KN[k], d.c_str()); MC_CHECK(o[0] == 0xEE, "outside", "%s: Read wrote before its window", KN[k]); break; }
	case 23: { d += "wsmall "; MC_OP("%s: write beyond the input", KN[k]); Bytes b(3, 1); static const size_t O[] = { 2, 4, (size_t)-1 }, L[] = { 2, 1, 2 }; int w = mc::choose(3); threw = throwsStd([&] { s.Write(b, O[w], L[w]); }); MC_CHECK(threw, "accepted", "%s: a write of bytes %zu+%zu of an array of 3 was accepted [%s]", KN[k], O[w], L[w], d.c_str()); break; }
	case 24: { d += "copyto "; MC_OP("%s: copy", KN[k]); CHECK_EQ("content", content(s), m.a, "%s: CopyTo after [%s]", KN[k], d.c_str()); break; }
	}
	same(k, s, m, d); mc::state(mc::combine(h(m.a), mc::combine(m.p, (uint64_t)k)));
}
static void history(Kind k, int depth, size_t start, size_t unit, int first)
{
	Bytes init = pat(start, 1); Model m; m.a = init; std::string d; std::unique_ptr<Scratch> sc; std::string path; std::unique_ptr<IByteStream> s;
	switch (k) { case MEM: s.reset(start ? new MemoryStream(init) : new MemoryStream()); break; case SEC: s.reset(start ? new SecureStream(init, 7) : new SecureStream()); break; case FIL: sc.reset(new Scratch); path = sc->file("a.bin", init); s.reset(new FileStream(path)); break; }
	same(k, *s, m, d);
	for (int i = 0; i < depth; ++i) step(k, *s, m, i == 0 && first >= 0 ? first : mc::choose(NOPS), i, unit, d);
	finish(k, *s, m, d);
	if (k == FIL) { s->Close(); CHECK_EQ("file", Scratch::load(path), m.a, "FileStream: the file after [%sclose]", d.c_str()); }
	else { s->Close(); MC_CHECK(s->Length() == 0 && s->Position() == 0, "close", "%s: the length is %llu and the position %llu after Close", KN[k], (unsigned long long)s->Length(), (unsigned long long)s->Position()); }
}

static void constructors()
{
	int w = mc::choose(7); Bytes b = pat(40, 3);
	if (w < 2)
	{
		static const size_t O[] = { 0, 1, 39, 40, 41, (size_t)-1 }, L[] = { 0, 1, 39, 40, 41, 2, (size_t)-1 }; size_t o = O[mc::choose(6)], l = L[mc::choose(7)]; bool ok = o <= 40 && l <= 40 - o; std::unique_ptr<IByteStream> s; MC_OP("%s of bytes %zu+%zu of 40", KN[w], o, l);
		bool t = throwsStd([&] { if (w == 0) s.reset(new MemoryStream(b, o, l)); else s.reset(new SecureStream(b, o, l, 0)); }); MC_CHECK(t == !ok, ok ? "refused" : "accepted", "%s of bytes %zu+%zu of an array of 40 was %s", KN[w], o, l, t ? "refused" : "accepted");
		if (ok) { Model m; m.a = sub(b, o, l); finish((Kind)w, *s, m, "constructor "); }
	}
	else if (w == 2) { static const size_t L[] = { 0, 1, 64, 5000 }; size_t l = L[mc::choose(4)]; MC_OP("MemoryStream of length %zu", l); MemoryStream s(l); Model m; finish(MEM, s, m, "constructor "); SecureStream c(l, 1ULL << 40); Model n; step(SEC, c, n, 2, 1, 5, *new std::string); finish(SEC, c, n, "constructor "); }
	else if (w == 3) { MC_OP("copy of a MemoryStream"); MemoryStream s(b); s.Seek(3, SeekOrigin::Begin); MemoryStream c(s); Model m; m.a = b; finish(MEM, c, m, "copy "); MC_CHECK(s.Position() == 3, "position", "a copy moved the position of its source"); }
	else if (w == 4)
	{	/* salts never show in the data */
		static const uint64_t S[] = { 0, 1, 255, 1ULL << 33, ~0ULL }; uint64_t salt = S[mc::choose(5)]; MC_OP("SecureStream with salt %llx", (unsigned long long)salt); SecureStream s(b, salt); Model m; m.a = b; std::string d = "salted "; step(SEC, s, m, mc::choose(NOPS), 1, 3, d); finish(SEC, s, m, d);
	}
	else if (w == 5)
	{	/* file modes */
		Scratch sc; int a = mc::choose(3), mo = mc::choose(4), ex = mc::choose(2); static const FileStream::FileAccess A[] = { FileStream::FileAccess::Read, FileStream::FileAccess::ReadWrite, FileStream::FileAccess::Write }; static const FileStream::FileModes M[] = { FileStream::FileModes::Binary, FileStream::FileModes::Append, FileStream::FileModes::AtEnd, FileStream::FileModes::Truncate };
		std::string p = sc.file("f.bin", b, ex); MC_OP("FileStream access %d mode %d on a file that %s", a, mo, ex ? "exists" : "is missing"); std::unique_ptr<FileStream> s; bool t = throwsStd([&] { s.reset(new FileStream(p, A[a], M[mo])); });
		if (t) { MC_CHECK(!(ex && mo != 3), "refused", "an existing file was refused (access %d, mode %d)", a, mo); return; }
		MC_CHECK(ex || a != 0, "accepted", "a missing file was opened for reading"); Bytes now = Scratch::load(p); Model m; m.a = now; MC_CHECK(s->Length() == now.size(), "length", "a file of %zu bytes has the length %llu", now.size(), (unsigned long long)s->Length()); m.p = mo == 2 ? now.size() : 0; MC_CHECK(s->Position() == m.p || mo == 1, "position", "the position after opening is %llu", (unsigned long long)s->Position()); m.p = s->Position();
		for (int i = 0; i < 2; ++i)
		{
			int op = mc::choose(4); Bytes x = pat(7, (uint32_t)(20 + i));
			if (op == 0) { bool u = throwsStd([&] { s->Write(x, 0, 7); }); MC_CHECK(u == (a == 0), u ? "refused" : "accepted", "a write with access %d was %s", a, u ? "refused" : "accepted"); if (!u) { if (mo == 1) m.p = m.a.size(); m.write(x); } }
			else if (op == 1) { Bytes o(9); size_t g = 0; bool u = throwsStd([&] { g = s->Read(o, 0, 9); }); MC_CHECK(u == (a == 2), u ? "refused" : "accepted", "a read with access %d was %s", a, u ? "refused" : "accepted"); if (!u) { Bytes e = m.read(9); o.resize(g); CHECK_EQ("read", o, e, "read with access %d mode %d", a, mo); } }
			else if (op == 2) { s->Seek(2, SeekOrigin::Begin); m.p = 2; }
			else { bool u = throwsStd([&] { s->SetLength(11); }); MC_CHECK(u == (a == 0), u ? "refused" : "accepted", "a change of length with access %d was %s", a, u ? "refused" : "accepted"); if (!u) m.a.resize(11); }
			same(FIL, *s, m, "modes");
		}
		s->Close(); CHECK_EQ("file", Scratch::load(p), m.a, "the file after closing (access %d mode %d)", a, mo); mc::outcome(h(m.a));
	}
	else
	{	/* the copy of a file of any size, into a memory stream or another file */
		static const size_t L[] = { 0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 20000 }; size_t n = L[mc::choose(9)]; int to = mc::choose(2); size_t at = mc::choose(2) ? n / 2 : 0; Scratch sc; Bytes c = pat(n, 9); FileStream s(sc.file("s.bin", c)); s.Seek(at, SeekOrigin::Begin); MC_OP("copy a file of %zu bytes", n);
		if (to) { MemoryStream m; s.CopyTo(&m); CHECK_EQ("content", m.ToArray(), c, "copy of a file of %zu bytes", n); } else { std::string p = sc.file("t.bin", Bytes()); { FileStream t(p); s.CopyTo(&t); } CHECK_EQ("content", Scratch::load(p), c, "copy of a file of %zu bytes to a file", n); }
		MC_CHECK(s.Position() == at, "position", "a copy moved the position of the source"); mc::outcome(n);
	}
}

/* integers and arrays through StreamWriter, and back through StreamReader */
template <class T> static Bytes le(const std::vector<T>& v) { Bytes r; for (T x : v) for (size_t i = 0; i < sizeof(T); ++i) r.push_back((uint8_t)((uint64_t)x >> (8 * i))); return r; }
template <class T> static std::vector<T> ints(size_t n, int s) { Bytes p = pat(n * 8 + 8, (uint32_t)s); std::vector<T> v(n); for (size_t i = 0; i < n; ++i) { uint64_t x = 0; for (int j = 0; j < 8; ++j) x = x << 8 | p[i * 8 + (size_t)j]; v[i] = (T)x; } return v; }
template <class T> static void putArray(StreamWriter& w, Model& m, int i) { static const size_t N[] = { 0, 1, 5 }; size_t n = N[mc::choose(3)]; bool part = mc::flip(); std::vector<T> v = ints<T>(n + 2, 30 + i); if (part) { w.Write(v, 1, n); m.write(le(std::vector<T>(v.begin() + 1, v.begin() + 1 + (ptrdiff_t)n))); } else { v.resize(n); w.Write(v); m.write(le(v)); } MC_OP("write %zu integers of %zu bytes", n, sizeof(T)); }
template <class T> static void putInt(StreamWriter& w, Model& m, int i) { T v = ints<T>(1, 40 + i)[0]; w.Write(v); m.write(le(std::vector<T>(1, v))); MC_OP("write an integer of %zu bytes", sizeof(T)); }
static void writer(int depth)
{
	static const size_t S[] = { 0, 3, 60 }; size_t start = S[mc::choose(3)]; int how = mc::choose(3); Model m; m.a = how ? pat(start, 2) : Bytes(start, 0); std::unique_ptr<StreamWriter> w; MemoryStream ms(m.a);
	w.reset(how == 0 ? new StreamWriter(start) : how == 1 ? new StreamWriter(m.a) : new StreamWriter(ms));
	for (int i = 0; i < depth; ++i)
	{
		switch (mc::choose(9)) { case 0: putInt<uint8_t>(*w, m, i); break; case 1: putInt<uint16_t>(*w, m, i); break; case 2: putInt<uint32_t>(*w, m, i); break; case 3: putInt<uint64_t>(*w, m, i); break; case 4: putArray<uint8_t>(*w, m, i); break; case 5: putArray<uint16_t>(*w, m, i); break; case 6: putArray<uint32_t>(*w, m, i); break; case 7: putArray<uint64_t>(*w, m, i); break;
		case 8: { std::vector<uint32_t> v(3); static const size_t O[] = { 4, 2, (size_t)-1 }, L[] = { 0, 2, 2 }; int k = mc::choose(3); bool t = throwsStd([&] { w->Write(v, O[k], L[k]); }); MC_OP("write elements %zu+%zu of 3", O[k], L[k]); MC_CHECK(t, "accepted", "StreamWriter: elements %zu+%zu of an array of 3 were accepted", O[k], L[k]); break; } }
		MC_CHECK(w->Position() == m.p && w->Length() == m.a.size(), "position", "StreamWriter: position %zu and length %zu, expected %llu and %zu", w->Position(), w->Length(), (unsigned long long)m.p, m.a.size()); CHECK_EQ("content", w->Generate(), m.a, "StreamWriter: content"); mc::state(mc::combine(h(m.a), m.p));
	}
	std::unique_ptr<MemoryStream> o(w->GetStream()); CHECK_EQ("content", o->ToArray(), sub(m.a, 0, (size_t)m.p), "StreamWriter: generated stream"); mc::outcome(h(m.a));
}
template <class T> static void getInt(StreamReader& r, Model& m) { T v = 0; bool ok = m.left() >= sizeof(T); bool t = throwsStd([&] { v = r.ReadInt<T>(); }); MC_OP("read an integer of %zu bytes", sizeof(T)); MC_CHECK(t == !ok, ok ? "refused" : "accepted", "StreamReader: an integer of %zu bytes with %zu left was %s", sizeof(T), m.left(), t ? "refused" : "accepted"); if (ok) CHECK_EQ("read", le(std::vector<T>(1, v)), m.read(sizeof(T)), "StreamReader: integer of %zu bytes", sizeof(T)); }
template <class T> static void getArray(StreamReader& r, Model& m) { static const size_t N[] = { 0, 1, 5, 40 }; size_t n = N[mc::choose(4)], off = (size_t)mc::choose(2); std::vector<T> v(n + off, (T)0x5A); size_t g = r.Read(v, off, n); MC_OP("read %zu elements of %zu bytes", n, sizeof(T)); Bytes e = m.read(n * sizeof(T)); MC_CHECK(g == e.size() || g * sizeof(T) == e.size(), "read", "StreamReader: read %zu, expected %zu bytes", g, e.size()); Bytes all = le(v); CHECK_EQ("read", sub(all, off * sizeof(T), e.size()), e, "StreamReader: %zu elements of %zu bytes", n, sizeof(T)); }
static void reader(int depth)
{
	static const size_t S[] = { 0, 1, 7, 8, 33 }; Model m; m.a = pat(S[mc::choose(5)], 4); MemoryStream ms(m.a); ms.Seek(1, SeekOrigin::Begin); StreamReader r(ms);
	for (int i = 0; i < depth; ++i)
	{
		switch (mc::choose(10)) { case 0: getInt<uint8_t>(r, m); break; case 1: getInt<uint16_t>(r, m); break; case 2: getInt<uint32_t>(r, m); break; case 3: getInt<uint64_t>(r, m); break; case 4: getArray<uint8_t>(r, m); break; case 5: getArray<uint16_t>(r, m); break; case 6: getArray<uint64_t>(r, m); break;
		case 7: { bool ok = m.left() > 0; uint8_t v = 0; bool t = throwsStd([&] { v = r.ReadByte(); }); MC_OP("read a byte"); MC_CHECK(t == !ok, ok ? "refused" : "accepted", "StreamReader: a byte with %zu left was %s", m.left(), t ? "refused" : "accepted"); if (ok) CHECK_EQ("read", Bytes(1, v), m.read(1), "StreamReader: byte"); break; }
		case 8: { static const size_t N[] = { 0, 1, 6, 30, (size_t)-1 }; size_t n = N[mc::choose(5)]; Bytes v; bool ok = n <= m.left(); bool t = throwsStd([&] { v = r.ReadBytes(n); }); MC_OP("read %zu bytes", n); MC_CHECK(t == !ok, ok ? "refused" : "accepted", "StreamReader: %zu bytes with %zu left were %s", n, m.left(), t ? "refused" : "accepted"); if (ok) CHECK_EQ("read", v, m.read(n), "StreamReader: %zu bytes", n); break; }
		case 9: { std::vector<uint16_t> v(3); static const size_t O[] = { 4, 2, (size_t)-1 }, L[] = { 1, 2, 2 }; int k = mc::choose(3); bool t = throwsStd([&] { r.Read(v, O[k], L[k]); }); MC_OP("read into elements %zu+%zu of 3", O[k], L[k]); MC_CHECK(t, "accepted", "StreamReader: elements %zu+%zu of an array of 3 were accepted", O[k], L[k]); break; } }
		MC_CHECK(r.Position() == m.p && r.Length() == m.a.size(), "position", "StreamReader: position %zu, expected %llu", r.Position(), (unsigned long long)m.p); mc::state(mc::combine(h(m.a), m.p));
	}
	mc::outcome(mc::combine(h(m.a), m.p));
}

/* ---- progress listeners: one that counts, and one that unsubscribes itself from inside the callback */
struct Count : public Routing::Delegate<int32_t> { int n = 0, last = 0; bool bad = false; Routing::Event<int32_t>* leave = nullptr; void operator()(int32_t v) override { ++n; if (leave) *leave -= this; bad = bad || v < 0 || v > 100; last = v; } };

/* ---- cipher streams */
struct CCfg { BlockCiphers c; CipherModes m; PaddingModes p; };
static const CipherModes CM[] = { CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::ECB, CipherModes::ICM, CipherModes::OFB };
static const char* CMN[] = { "CBC", "CFB", "CTR", "ECB", "ICM", "OFB" };
static const PaddingModes PM[] = { PaddingModes::None, PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne };
static const char* PN[] = { "none", "ESP", "PKCS7", "X923", "ZeroOne" };
static bool counter(CipherModes m) { return m == CipherModes::CTR || m == CipherModes::ICM; }
static SymmetricKey ckey(CipherModes m) { Bytes k = pat(32, 70), iv = pat(16, 71); return m == CipherModes::ECB ? SymmetricKey(k) : SymmetricKey(k, iv); }
/* what the bare mode makes of the padded message */
static Bytes sealed(BlockCiphers c, int m, int p, const Bytes& pt)
{
	static std::map<std::string, Bytes> cache; std::string key = std::to_string((int)c) + "," + std::to_string(m) + "," + std::to_string(p) + "," + std::to_string(pt.size()) + "," + std::to_string(h(pt)); auto it = cache.find(key); if (it != cache.end()) return it->second;
	Bytes in = pt; if (!counter(CM[m]) && p) { std::unique_ptr<Cipher::Block::Padding::IPadding> pad(Helper::PaddingFromName::GetInstance(PM[p])); size_t r = in.size() % 16; Bytes last(in.end() - (ptrdiff_t)r, in.end()); last.resize(16); pad->AddPadding(last, r, 16); in.resize(in.size() - r); in = cat(in, last); }
	std::unique_ptr<Cipher::Block::Mode::ICipherMode> e(Helper::CipherModeFromName::GetInstance(c, CM[m])); if (CM[m] != CipherModes::OFB) e->ParallelProfile().IsParallel() = false; SymmetricKey k = ckey(CM[m]); e->Initialize(true, k); Bytes out(in.size()); if (in.size()) e->Transform(in, 0, out, 0, in.size()); return cache[key] = out;
}
/* one message through an initialised cipher stream; api: 0 arrays, 1 arrays with offsets, 2 memory streams, 3 memory streams at a position, 4 files, 5 one file in place */
static Bytes through(CipherStream& s, const Bytes& in, bool enc, bool cnt, size_t want, int api)
{
	if (api < 2)
	{
		size_t io = api ? 5 : 0, oo = api ? 3 : 0; Bytes x = cat(pat(io, 1), in), o(oo + (enc ? (mc::choose(2) ? want : in.size()) : in.size()), 0xA5); if (cnt) o.resize(oo + in.size() + (api ? 4 : 0), 0xA5); s.Write(x, io, o, oo); MC_CHECK(o.size() >= oo, "output", "the output lost its first bytes");
		for (size_t i = 0; i < oo; ++i) MC_CHECK(o[i] == 0xA5, "outside", "byte %zu before the output offset was changed", i);
		if (cnt && api) { for (size_t i = oo + in.size(); i < o.size(); ++i) MC_CHECK(o[i] == 0xA5, "outside", "byte %zu beyond the output was changed", i); o.resize(oo + in.size()); }
		return sub(o, oo, o.size() - oo);
	}
	if (api == 2) { MemoryStream i(in), o; s.Write(&i, &o); MC_CHECK(o.Position() == o.Length(), "position", "the output stream is at %llu of %llu", (unsigned long long)o.Position(), (unsigned long long)o.Length()); return o.ToArray(); }
	if (api == 3) { MemoryStream i(cat(pat(6, 1), in)), o(Bytes(4 + 2 * want + 50, 0xA5)); i.Seek(6, SeekOrigin::Begin); o.Seek(4, SeekOrigin::Begin); s.Write(&i, &o); Bytes r = o.ToArray(); MC_CHECK(r.size() >= 4 && sub(r, 0, 4) == Bytes(4, 0xA5), "outside", "bytes before the position of the output stream were changed"); return sub(r, 4, r.size() - 4); }
	Scratch sc; if (api == 4) { std::string ip = sc.file("in", in), op = sc.file("out", pat(want + 500, 8)); { FileStream i(ip, FileStream::FileAccess::Read), o(op); s.Write(&i, &o); } return Scratch::load(op); }
	std::string p = sc.file("both", in); { FileStream i(p, FileStream::FileAccess::Read), o(p); s.Write(&i, &o); } return Scratch::load(p);
}
static std::unique_ptr<CipherStream> cstream(BlockCiphers c, int m, int p, int par)
{
	sim::cpu.logical = par ? (uint32_t)par : 1; std::unique_ptr<CipherStream> s(new CipherStream(c, CM[m], PM[p])); if (CM[m] != CipherModes::OFB) { if (par) { s->IsParallel() = true; s->ParallelMaxDegree((size_t)par); s->ParallelProfile().SetBlockSize(s->ParallelProfile().ParallelMinimumSize()); } else s->IsParallel() = false; } return s;
}
static void cipher(int m, int p, int par, bool files)
{
	BlockCiphers c = BlockCiphers::AES; sim::cpu.logical = par ? (uint32_t)par : 1; std::unique_ptr<CipherStream> s = cstream(c, m, p, par); bool cnt = counter(CM[m]); size_t PB = par ? (CM[m] == CipherModes::OFB ? 256 : s->ParallelBlockSize()) : 256; MC_CHECK(PB % 16 == 0 && PB > 0, "model", "block %zu", PB);
	std::vector<size_t> L; if (files) L = { 1, 16, 31, 4080, 4096, 4112, 5000 }; else { for (size_t i = 0; i <= 35; ++i) L.push_back(i); for (size_t q : { PB, 2 * PB, 3 * PB }) for (size_t v : { q - 17, q - 16, q - 15, q - 1, q, q + 1, q + 15, q + 16, q + 17 }) L.push_back(v); }
	size_t n = mc::pick(L); int api = files ? 4 + mc::choose(2) : mc::choose(4); int ev = files ? 0 : mc::choose(2) * (1 + (int)(n % 3 == 1)); int tail = !files && !cnt && n >= 16 && n % 16 == 0 ? mc::choose(4) : 0; if (!n && cnt) return;
	Bytes pt = pat(n, 60); if (tail == 1) pt[n - 1] = 1; if (tail == 2) pt[n - 1] = 0x80; if (tail == 3) { for (size_t i = n - 16; i < n; ++i) pt[i] = 16; }
	bool ragged = !cnt && !p && n % 16; Count ct, c2; if (ev) s->ProgressPercent += &ct; if (ev == 2) { ct.leave = &s->ProgressPercent; s->ProgressPercent += &c2; }
	SymmetricKey k = ckey(CM[m]); s->Initialize(true, k); MC_OP("%s/%s, %d workers: encrypt %zu bytes through interface %d", CMN[m], PN[p], par, n, api);
	if (ragged) { Bytes o(n + 32); bool t = throwsStd([&] { s->Write(pt, 0, o, 0); }); MC_CHECK(t, "accepted", "%s without padding accepted %zu bytes", CMN[m], n); return; }
	Bytes want = sealed(c, m, p, pt), ctx = through(*s, pt, true, cnt, want.size(), api);
	CHECK_EQ("encrypt", ctx, want, "%s/%s, %d workers: %zu bytes encrypted through interface %d", CMN[m], PN[p], par, n, api);
	if (ev) MC_CHECK(!ct.bad, "progress", "%s: a progress outside of 0 to 100 was reported", CMN[m]);
	s->Initialize(false, k); MC_OP("decrypt"); Bytes back = through(*s, want, false, cnt, pt.size(), api); CHECK_EQ("decrypt", back, pt, "%s/%s, %d workers: %zu bytes decrypted through interface %d", CMN[m], PN[p], par, n, api); if (ev) MC_CHECK(!ct.bad, "progress", "%s: a progress outside of 0 to 100 was reported", CMN[m]);
	mc::state(mc::combine(h(want), (uint64_t)(par * 8 + api))); mc::outcome(h(ctx));
}
/* several messages with one instance, every direction change, with damaged inputs in between */
static void cipherHistory(int m, int p, int par, int depth)
{
	sim::cpu.logical = par ? (uint32_t)par : 1; std::unique_ptr<CipherStream> s = cstream(BlockCiphers::AES, m, p, par); bool cnt = counter(CM[m]); size_t PB = par && CM[m] != CipherModes::OFB ? s->ParallelBlockSize() : 128; SymmetricKey k = ckey(CM[m]); std::string d;
	for (int i = 0; i < depth; ++i)
	{
		int op = mc::choose(6); size_t n = op < 4 ? std::vector<size_t>{ 16, 21, PB + 16, 2 * PB + 5 }[(size_t)mc::choose(4)] : 0; if (!cnt && !p && n % 16) n -= n % 16; Bytes pt = pat(n, (uint32_t)(80 + i)); int api = (op & 1) ? 2 : 0; Bytes want = op < 4 ? sealed(BlockCiphers::AES, m, p, pt) : Bytes();
		if (op < 2) { s->Initialize(true, k); d += "enc "; MC_OP("encrypt %zu", n); CHECK_EQ("encrypt", through(*s, pt, true, cnt, want.size(), api), want, "%s/%s: %zu bytes encrypted in [%s]", CMN[m], PN[p], n, d.c_str()); }
		else if (op < 4) { s->Initialize(false, k); d += "dec "; MC_OP("decrypt %zu", n); CHECK_EQ("decrypt", through(*s, want, false, cnt, n, api), pt, "%s/%s: %zu bytes decrypted in [%s]", CMN[m], PN[p], n, d.c_str()); }
		else if (op == 4) { if (cnt || !p) return; s->Initialize(false, k); d += "ragged "; Bytes o(100, 1), in(n + 37, 2); bool t = throwsStd([&] { s->Write(in, 0, o, 0); }); MC_OP("decrypt 37 bytes"); MC_CHECK(t, "accepted", "%s/%s decrypted 37 bytes", CMN[m], PN[p]); }
		else { s->Initialize(true, k); d += "small "; Bytes o(20), in(48); static const size_t IO[] = { 49, 0, 0 }, OO[] = { 0, 21, 0 }; int w = mc::choose(3); bool t = throwsStd([&] { s->Write(in, IO[w], o, OO[w]); }); MC_OP("arrays too small"); MC_CHECK(t, "accepted", "%s/%s wrote into arrays that are too small (%d)", CMN[m], PN[p], w); }
		mc::state(mc::hash(d));
	}
	mc::outcome(mc::hash(d));
}

/* ---- digest and mac streams */
struct DId { Digests d; const char* n; };
static const DId DG[] = { { Digests::Blake256, "Blake256" }, { Digests::Blake512, "Blake512" }, { Digests::SHA3256, "SHA3256" }, { Digests::SHA3512, "SHA3512" }, { Digests::SHA2256, "SHA2256" }, { Digests::SHA2512, "SHA2512" }, { Digests::Skein256, "Skein256" }, { Digests::Skein512, "Skein512" }, { Digests::Skein1024, "Skein1024" } };
static const Bytes& text() { static Bytes t = pat(1 << 20, 5); return t; }
static Bytes digestOf(const DId& a, bool par, size_t o, size_t n) { static std::map<std::string, Bytes> cache; auto k = std::string(a.n) + std::to_string(par) + "," + std::to_string(o) + "," + std::to_string(n); auto it = cache.find(k); if (it != cache.end()) return it->second; std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance(a.d, par)); if (n) d->Update(text(), o, n); Bytes r(d->DigestSize()); d->Finalize(r, 0); return cache[k] = r; }
static void digest(const DId& a, bool par, int via)
{
	sim::cpu.logical = 4; std::unique_ptr<DigestStream> s(via ? new DigestStream(Helper::DigestFromName::GetInstance(a.d, par)) : new DigestStream(a.d, par)); std::unique_ptr<Digest::IDigest> ref(Helper::DigestFromName::GetInstance(a.d, par)); size_t B = ref->BlockSize(), P = par ? ref->ParallelBlockSize() : 3 * B;
	std::vector<size_t> L; if (!par) for (size_t i = 1; i <= 2 * B + 1; ++i) L.push_back(i); else L = { 1, B - 1, 2 * B, P - 1, P, P + B, 2 * P, 2 * P + B + 3 }; if (!par || mc::thorough()) for (size_t q : { 3 * B, P, 2 * P }) for (size_t v : { q - B, q - 1, q, q + 1, q + B, q + B + 3 }) if (v + 20 < text().size()) L.push_back(v);
	size_t n = mc::pick(L); Count c; int ev = mc::choose(2); if (ev) s->ProgressPercent += &c; int api = mc::choose(3);
	for (int round = 0; round < 2; ++round)
	{
		if (round) n = par ? P + B + 1 : std::vector<size_t>{ 1, 2 * B, P + B + 1 }[(size_t)mc::choose(3)]; size_t off = api == 0 ? 0 : 9; MC_OP("%s%s: %zu bytes through interface %d", a.n, par ? " parallel" : "", n, api); Bytes r;
		if (api < 2) r = s->Compute(text(), off, n); else { MemoryStream m(text(), 0, n + off); m.Seek(off, SeekOrigin::Begin); r = s->Compute(&m); MC_CHECK(m.Position() == n + off, "position", "%s: the input stream was left at %llu of %zu", a.n, (unsigned long long)m.Position(), n + off); }
		CHECK_EQ("digest", r, digestOf(a, par, off, n), "%s%s of %zu bytes through interface %d, message %d", a.n, par ? " parallel" : "", n, api, round); if (ev) MC_CHECK(!c.bad, "progress", "%s: a progress outside of 0 to 100 was reported", a.n); mc::outcome(h(r));
	}
	bool t = throwsStd([&] { Bytes b(10); s->Compute(b, mc::choose(2) ? 11 : 5, 6); }); MC_CHECK(t, "accepted", "%s: bytes beyond the input array were accepted", a.n);
}
struct MId { Macs m; const char* n; };
static const MId MG[] = { { Macs::CMAC, "CMAC" }, { Macs::CMACRHXH256, "CMACRHXH256" }, { Macs::HMACSHA2256, "HMACSHA2256" }, { Macs::HMACSHA2512, "HMACSHA2512" }, { Macs::KPA128, "KPA128" }, { Macs::KPA256, "KPA256" }, { Macs::KPA512, "KPA512" }, { Macs::KMAC128, "KMAC128" }, { Macs::KMAC256, "KMAC256" }, { Macs::KMAC512, "KMAC512" }, { Macs::Poly1305, "Poly1305" } };
static SymmetricKey mkey(Mac::IMac& m, int w) { auto z = m.LegalKeySizes().at(0); Bytes k = pat(z.KeySize(), (uint32_t)(90 + w)); Bytes iv = pat(z.IVSize(), (uint32_t)(92 + w)); return z.IVSize() ? SymmetricKey(k, iv) : SymmetricKey(k); }
static void mac(const MId& a, int via)
{
	sim::cpu.logical = 4; std::unique_ptr<Mac::IMac> ref(Helper::MacFromName::GetInstance(a.m)); std::unique_ptr<MacStream> s(via ? new MacStream(Helper::MacFromName::GetInstance(a.m)) : new MacStream(a.m)); size_t B = ref->BlockSize();
	std::vector<size_t> L; for (size_t i = 1; i <= 2 * B + 1; ++i) L.push_back(i); for (size_t v : { 3 * B, 3 * B + 1, 200 * B, 200 * B + 7 }) L.push_back(v);
	size_t n = mc::pick(L); Count c; int ev = mc::choose(2); if (ev) s->ProgressPercent += &c; int api = mc::choose(3);
	for (int round = 0; round < 2; ++round)
	{
		if (round) n = std::vector<size_t>{ 1, B, 5 * B + 1 }[(size_t)mc::choose(3)]; size_t off = api == 0 ? 0 : 9; SymmetricKey k = mkey(*ref, round); s->Initialize(k); MC_OP("%s: %zu bytes through interface %d", a.n, n, api); Bytes r;
		if (api < 2) r = s->Compute(text(), off, n); else { MemoryStream m(text(), 0, n + off); m.Seek(off, SeekOrigin::Begin); r = s->Compute(&m); }
		std::unique_ptr<Mac::IMac> e(Helper::MacFromName::GetInstance(a.m)); e->Initialize(k); e->Update(text(), off, n); Bytes w(e->TagSize()); e->Finalize(w, 0);
		CHECK_EQ("mac", r, w, "%s of %zu bytes through interface %d, message %d", a.n, n, api, round); if (ev) MC_CHECK(!c.bad, "progress", "%s: a progress outside of 0 to 100 was reported", a.n); mc::outcome(h(r));
	}
	SymmetricKey k = mkey(*ref, 0); s->Initialize(k); bool t = throwsStd([&] { Bytes b(10); s->Compute(b, mc::choose(2) ? 11 : 5, 6); }); MC_CHECK(t, "accepted", "%s: bytes beyond the input array were accepted", a.n);
}

void mc_register()
{
	const bool T = mc::thorough();
	mc::bounds("every sequence of 4 (memory, 25 operations), 3 (secure, file) stream operations [thorough: 5/4/4] on empty and filled streams with one-byte and 4 KiB units; all constructor and file modes; StreamReader/Writer sequences of 3 [4]; cipher streams: 6 modes x 5 paddings x 0/2/4 workers x lengths 0..35 and around 1..3 parallel blocks x 6 interfaces x listener; digest and mac streams: all lengths to two blocks and around parallel blocks x interface x listener x second message");
	mc::assume("FileStream::Seek from the end may count either way (the header does not say); MemoryStream and SecureStream count backwards; padded modes add a block to aligned messages");
	for (int f = 0; f < NOPS; ++f)
	{
		for (size_t st : { (size_t)0, (size_t)9 })
		{
			mc::job("memory/" + std::to_string(st) + "/op" + std::to_string(f), [=] { history(MEM, T ? 5 : 4, st, 1, f); });
			mc::job("file/" + std::to_string(st) + "/op" + std::to_string(f), [=] { history(FIL, T ? 4 : 3, st, 1, f); });
			mc::job("secure/" + std::to_string(st) + "/op" + std::to_string(f), [=] { history(SEC, T ? 4 : 3, st, 1, f); });
		}
		mc::job("filebig/op" + std::to_string(f), [=] { history(FIL, T ? 4 : 3, 5000, 2048, f); });
	}
	mc::job("constructors", [] { constructors(); });
	mc::job("writer", [T] { writer(T ? 4 : 3); });
	mc::job("reader", [T] { reader(T ? 4 : 3); });
	for (int m = 0; m < 6; ++m) for (int p = 0; p < 5; ++p)
	{
		if (counter(CM[m]) && p) continue; if (!counter(CM[m]) && m != 3 && !p) { mc::job(std::string("nopad/") + CMN[m], [=] { bool t = throwsStd([&] { CipherStream s(BlockCiphers::AES, CM[m], PaddingModes::None); Bytes pt(5), o(32); SymmetricKey k = ckey(CM[m]); s.Initialize(true, k); s.Write(pt, 0, o, 0); }); mc::transition(); MC_CHECK(t, "accepted", "%s without padding encrypted 5 bytes", CMN[m]); mc::outcome(1); }); continue; }
		std::string t = std::string(CMN[m]) + "/" + PN[p] + "/";
		for (int par : { 0, 2, 4 }) mc::job(t + std::to_string(par), [=] { cipher(m, p, par, false); });
		mc::job(t + "files", [=] { cipher(m, p, mc::choose(2) ? 2 : 0, true); });
		mc::job(t + "history", [=] { cipherHistory(m, p, 2, T ? 3 : 2); });
	}
	for (auto& a : DG) for (int par = 0; par < 2; ++par) mc::job(std::string("digest/") + a.n + (par ? "/parallel" : ""), [=] { digest(a, par != 0, mc::choose(2)); });
	for (auto& a : MG) mc::job(std::string("mac/") + a.n, [=] { mac(a, mc::choose(2)); });
}
