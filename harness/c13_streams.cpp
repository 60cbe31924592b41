// C13: filters and adapters against whole-input reference transformations, any chunking.
#include "vstreams.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/parserInputStreamAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/inputStreamPointerAdapter.hpp"
#include "vmime/utility/outputStreamSocketAdapter.hpp"
#include "vmime/utility/inputStreamSocketAdapter.hpp"
using namespace vh;
namespace vu = vmime::utility;

static str genText(Rng& r) {
	size_t n = r.size(r.chance(1, 15) ? 9000 : 200);
	switch (r.below(5)) {
		case 0: return r.from(".\r\n", n);
		case 1: return r.from("ab.\r\n", n);
		case 2: { str s; while (s.size() < n) { s += r.pickc({"\r\n", "\n", "\r", ".", "..", "...", "\r\n.", "\r\n..", "\n.", "\r\n.\r", "\r\n.\r\n", "\n.\n", "text", "x", "\r\r\n", "\n\n."}); } return s; }
		case 3: return r.bytes(n);
		default: { str s; while (s.size() < n) { s += r.from("abc .", r.below(40)); s += "\r\n"; if (r.chance(1, 4)) s += "."; } return s; }
	}
}
// cut into pieces, including empty ones
static std::vector<str> pieces(Rng& r, const str& s) {
	std::vector<str> v; size_t p = 0; int mode = (int)r.below(4);
	while (p < s.size()) {
		size_t n = mode == 0 ? s.size() : mode == 1 ? 1 : mode == 2 ? r.below(4) : 1 + r.below(s.size());
		n = std::min(n, s.size() - p); v.push_back(s.substr(p, n)); p += n;
	}
	return v;
}
static str drain(Rng& r, vu::inputStream& in, size_t minBuf) {
	str o; size_t zero = 0; static const size_t ks[] = {1, 2, 3, 7, 16, 64, 1000, 32768};
	while (!in.eof()) {
		size_t k = std::max(minBuf, ks[r.below(8)]);
		std::vector<byte_t> b(k);   // exact size: the sanitizer sees any overrun
		size_t n = in.read(b.data(), k);
		VH_CHECK(n <= k, "read-count", "read() of " << k << " returned " << n);
		o.append((char*)b.data(), n);
		if (n == 0) { if (++zero > 100000) fail("no-progress", "read() keeps returning 0 without reaching the end"); } else zero = 0;
	}
	return o;
}
static str desc(const std::vector<str>& v) { str d; for (auto& x : v) d += "|" + esc(x, 60); return d.substr(0, 800); }

template <class F> static str runOut(Ctx& c, const str& s, std::vector<str>& ps, bool flush = true) {
	RecOut out; F f(out); ps = pieces(c.rng, s);
	for (auto& p : ps) f.write(p.data(), p.size());
	if (flush) f.flush();
	return out.data;
}

static void dotOut(Ctx& c) {
	str s = genText(c.rng), e;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '.' && i > 0 && s[i-1] == '\n') e += '.';
		// at the very beginning: doubled when the line is a lone dot
		if (s[i] == '.' && i == 0 && i + 1 < s.size() && (s[1] == '\r' || s[1] == '\n')) e += '.';
		e += s[i];
	}
	c.note("dot-out " + esc(s, 300)); std::vector<str> ps; str o = runOut<vu::dotFilteredOutputStream>(c, s, ps);
	VH_EQ(o, e, "dot-out", "dot-stuffing of pieces " << desc(ps));
	c.seen("cuts", desc(ps)); c.count("bytes", s.size()); if (s.find('.') != str::npos) c.nontrivial("do" + desc(ps));
}
static void dotIn(Ctx& c) {
	str s = genText(c.rng), e;
	// every line beginning with two dots loses one
	for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '.' && i >= 2 && s[i-1] == '.' && s[i-2] == '\n') continue; e += s[i]; }
	if (s.compare(0, 2, "..") == 0) { c.count("leading dots (either reading accepted)"); }
	c.note("dot-in " + esc(s, 300)); Chunking ch = Chunking::random(c.rng); ChunkIn in(s, ch); vu::dotFilteredInputStream f(in);
	str o = drain(c.rng, f, 1);
	if (s.compare(0, 2, "..") == 0 && o == e.substr(1)) o = e;
	VH_EQ(o, e, "dot-in", "un-stuffing with " << ch.describe());
	c.seen("cuts", ch.describe() + s); c.count("bytes", s.size()); if (s.find("\n..") != str::npos) c.nontrivial("di" + s + ch.describe());
}
static void dotRound(Ctx& c) {
	// a text that starts with a line of its own survives stuffing and un-stuffing
	str s = "H: x\r\n" + genText(c.rng); c.note("dot-round " + esc(s, 300)); std::vector<str> ps; str o = runOut<vu::dotFilteredOutputStream>(c, s, ps);
	VH_CHECK(o.find("\n.\r\n") == str::npos && o.find("\n.\n") == str::npos, "dot-terminator", "stuffed text contains an end-of-data line");
	ChunkIn in(o, Chunking::random(c.rng)); vu::dotFilteredInputStream f(in); str b = drain(c.rng, f, 1);
	VH_EQ(b, s, "dot-roundtrip", "stuffing then un-stuffing"); c.nontrivial("dr" + s);
}
static void crlfToLf(Ctx& c) {
	str s = genText(c.rng), e; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' && i + 1 < s.size() && s[i+1] == '\n') continue; e += s[i]; }
	c.note("crlf2lf " + esc(s, 300)); std::vector<str> ps; str o = runOut<vu::CRLFToLFFilteredOutputStream>(c, s, ps);
	VH_EQ(o, e, "crlf-to-lf", "pieces " << desc(ps)); c.seen("cuts", desc(ps)); c.count("bytes", s.size()); if (s.find('\r') != str::npos) c.nontrivial("cl" + desc(ps));
}
static void lfToCrlf(Ctx& c) {
	str s = genText(c.rng), e; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') e += "\r\n"; else if (s[i] == '\n') { if (i == 0 || s[i-1] != '\r') e += "\r\n"; } else e += s[i]; }
	c.note("lf2crlf " + esc(s, 300)); std::vector<str> ps; str o = runOut<vu::LFToCRLFFilteredOutputStream>(c, s, ps);
	VH_EQ(o, e, "lf-to-crlf", "pieces " << desc(ps)); c.seen("cuts", desc(ps)); c.count("bytes", s.size()); if (s.find('\n') != str::npos) c.nontrivial("lc" + desc(ps));
}
template <int N> static void stopSeq(Ctx& c, const str& seq, const str& s) {
	size_t p = s.find(seq); str e = s.substr(0, p);
	Chunking ch = Chunking::random(c.rng); ChunkIn in(s, ch); vu::stopSequenceFilteredInputStream<N> f(in, seq.c_str());
	str o = drain(c.rng, f, N + 1);
	VH_EQ(o, e, "stop-sequence-" + std::to_string(N), "stop at " << esc(seq) << " in " << esc(s) << " with " << ch.describe());
	VH_CHECK(f.eof(), "stop-sequence-eof", "not at end");
	if (p != str::npos) c.count("stop sequences found"); c.nontrivial("ss" + seq + s + ch.describe()); c.seen("cuts", ch.describe() + s);
}
static void stop(Ctx& c) {
	str s = genText(c.rng); int k = (int)c.rng.below(5);
	static const char* seqs[] = {".", "\r\n", "\n.\n", "xyxz", "\r\n.\r\n"};
	static const char* alpha[] = {"a.", "a\r\n", "a.\n", "xyz", "\r\n.x"};
	str q = seqs[k];
	if (c.rng.chance(1, 5)) { static const char* q2[] = {"a", "aa", "aab", "abab", "ababa"}; q = q2[k]; s = c.rng.from("aabb", c.rng.size(60)); }
	else if (c.rng.coin()) s = c.rng.from(alpha[k], c.rng.size(80));
	if (c.rng.chance(1, 3)) s.insert(c.rng.below(s.size() + 1), q);
	if (c.rng.chance(1, 4)) { s += q.substr(0, c.rng.below(q.size())); }
	c.note("stop " + esc(q) + " in " + esc(s, 300));
	switch (k) { case 0: stopSeq<1>(c, q, s); break; case 1: stopSeq<2>(c, q, s); break; case 2: stopSeq<3>(c, q, s); break; case 3: stopSeq<4>(c, q, s); break; default: stopSeq<5>(c, q, s); }
}
// the chain used to read multi-line replies
static void chain(Ctx& c) {
	str m = c.rng.chance(1, 8) ? "" : genText(c.rng), st; bool bol = true;
	{ str x; for (size_t i = 0; i < m.size(); ++i) { if (m[i] == '\r') continue; if (m[i] == '\n') x += "\r\n"; else x += m[i]; } m = "L" + x; }
	for (char ch : m) { if (bol && ch == '.') st += '.'; st += ch; bol = ch == '\n'; }
	str wire = st + "\r\n.\r\n" ;
	c.note("chain " + esc(wire, 300)); Chunking ch = Chunking::random(c.rng); ChunkIn in(wire + (c.rng.coin() ? "" : "+OK next\r\n"), ch);
	vu::stopSequenceFilteredInputStream<5> s1(in, "\r\n.\r\n"); vu::stopSequenceFilteredInputStream<3> s2(s1, "\n.\n"); vu::dotFilteredInputStream d(s2);
	str o = drain(c.rng, d, 9); VH_EQ(o, m, "chain", "multi-line reply read with " << ch.describe()); c.nontrivial("ch" + wire + ch.describe());
}
static void copy(Ctx& c) {
	str s = c.rng.chance(1, 10) ? c.rng.bytes(c.rng.below(150000)) : c.rng.bytes(c.rng.size(5000)); Chunking ch = Chunking::random(c.rng); c.note("copy " + std::to_string(s.size()) + ch.describe());
	if (ch.mode == 1 && s.size() > 20000) s.resize(20000);
	{ ChunkIn in(s, ch); RecOut out; size_t n = vu::bufferedStreamCopy(in, out); VH_EQ(out.data, s, "copy", "bufferedStreamCopy"); VH_EQ(n, s.size(), "copy-count", "returned count"); }
	{ ChunkIn in(s, ch); RecOut out; size_t a = c.rng.below(s.size() + 2), l = c.rng.below(s.size() + 2); size_t n = vu::bufferedStreamCopyRange(in, out, a, l);
	  str e = a < s.size() ? s.substr(a, l) : ""; VH_EQ(out.data, e, "copy-range", "bufferedStreamCopyRange(" << a << "," << l << ") of " << s.size()); VH_EQ(n, e.size(), "copy-range-count", "returned count"); }
	c.nontrivial("copy" + std::to_string(s.size()) + ch.describe());
}

// ---- random access: any seekable stream behaves as a byte array with a cursor
static void seekModel(Ctx& c, vu::seekableInputStream& in, const str& s, const str& kind) {
	size_t pos = 0; str ops;
	size_t n = 1 + c.rng.below(30);
	for (size_t i = 0; i < n; ++i) {
		switch (c.rng.below(6)) {
			case 0: case 1: case 2: {
				size_t k = 1 + c.rng.below(c.rng.coin() ? 8 : s.size() + 4); std::vector<byte_t> b(k); size_t r = in.read(b.data(), k);
				ops += " read" + std::to_string(k);
				VH_CHECK(r <= k, kind + ":read-count", "read(" << k << ") returned " << r);
				str e = s.substr(std::min(pos, s.size()), r);
				VH_EQ(str((char*)b.data(), r), e, kind + ":read", "after" << ops << " at " << pos);
				VH_CHECK(r > 0 || pos >= s.size(), kind + ":read-none", "read returned nothing at " << pos << " of " << s.size());
				VH_CHECK(r == k || kind == "seekin" || pos + r == s.size(), kind + ":short-read", "read(" << k << ") returned " << r << " at " << pos);
				pos += r; break; }
			case 3: { if (in.eof()) break; size_t k = c.rng.below(s.size() + 4); size_t r = in.skip(k); ops += " skip" + std::to_string(k); VH_EQ(r, std::min(k, s.size() - pos), kind + ":skip", "skip after" << ops); pos += r; break; }
			case 4: { size_t k = c.rng.below(s.size() + 1); in.seek(k); ops += " seek" + std::to_string(k); pos = k; break; }
			default: if (c.rng.chance(1, 4)) { in.reset(); pos = 0; ops += " reset"; }
		}
		if (!(kind == "istream" && in.eof())) VH_EQ(in.getPosition(), pos, kind + ":position", "position after" << ops);
		if (pos < s.size()) VH_CHECK(!in.eof(), kind + ":eof", "eof() at " << pos << " of " << s.size() << " after" << ops);
	}
	c.seen("access sequences", kind + ops); c.nontrivial(kind + ops + s);
}
static void adapters(Ctx& c) {
	str big = c.rng.bytes(c.rng.size(600)); size_t a = c.rng.below(big.size() + 1), l = c.rng.below(big.size() - a + 1);
	str sub = big.substr(a, l); int k = (int)c.rng.below(7); c.note("adapter " + std::to_string(k) + " size " + std::to_string(big.size()) + " range " + std::to_string(a) + "+" + std::to_string(l));
	switch (k) {
		case 0: { vu::inputStreamStringAdapter in(big); seekModel(c, in, big, "string"); break; }
		case 1: { vu::inputStreamStringAdapter in(big, a, a + l); seekModel(c, in, sub, "string-range"); break; }
		case 2: { std::vector<byte_t> b(big.begin(), big.end()); b.shrink_to_fit(); vu::inputStreamByteBufferAdapter in(b.data(), b.size()); seekModel(c, in, big, "byte-buffer"); break; }
		case 3: { std::istringstream is(big); vu::inputStreamAdapter in(is); seekModel(c, in, big, "istream"); break; }
		case 4: { vu::inputStreamPointerAdapter in(new std::istringstream(big)); seekModel(c, in, big, "istream"); break; }
		case 5: { auto u = vmime::make_shared<SeekIn>(big, Chunking::random(c.rng)); vu::seekableInputStreamRegionAdapter in(u, a, l); Chunking w; u->ch = w; seekModel(c, in, sub, "region"); break; }
		default: { // two ranges of one stream, read alternately
			auto u = vmime::make_shared<vu::inputStreamStringAdapter>(big); size_t a2 = c.rng.below(big.size() + 1), l2 = c.rng.below(big.size() - a2 + 1);
			vu::seekableInputStreamRegionAdapter x(u, a, l), y(u, a2, l2); str ox, oy; byte_t b[16]; size_t guard = 0;
			while ((!x.eof() || !y.eof()) && ++guard < 100000) { if (c.rng.coin()) { if (!x.eof()) ox.append((char*)b, x.read(b, 1 + c.rng.below(16))); } else if (!y.eof()) oy.append((char*)b, y.read(b, 1 + c.rng.below(16))); }
			VH_EQ(ox, sub, "region-pair", "first range"); VH_EQ(oy, big.substr(a2, l2), "region-pair", "second range"); c.nontrivial("rp" + big); }
	}
	// output adapters
	{ vmime::byteArray ba; vu::outputStreamByteArrayAdapter o1(ba); str so; vu::outputStreamStringAdapter o2(so); std::ostringstream os; vu::outputStreamAdapter o3(os);
	  for (auto& p : pieces(c.rng, big)) { o1.write(p.data(), p.size()); o2.write(p.data(), p.size()); o3.write(p.data(), p.size()); }
	  o1.flush(); o2.flush(); o3.flush();
	  VH_EQ(str(ba.begin(), ba.end()), big, "byte-array-out", "output"); VH_EQ(so, big, "string-out", "output"); VH_EQ(os.str(), big, "ostream-out", "output"); }
}
static void parserAdapter(Ctx& c) {
	str s; size_t n = c.rng.chance(1, 3) ? c.rng.below(14000) : c.rng.size(300);
	str al = c.rng.pickc({"ab", "abc\r\n-", "-=b\r\n"}); s = c.rng.from(al, n);
	Chunking ch = Chunking::random(c.rng); auto u = vmime::make_shared<SeekIn>(s, ch); vu::parserInputStreamAdapter p(u);
	c.note("parser-adapter " + ch.describe() + " " + esc(s, 200));
	for (int i = 0; i < 12; ++i) {
		size_t pos = c.rng.below(s.size() + 1); p.seek(pos);
		switch (c.rng.below(6)) {
			case 0: { str t; if (c.rng.coin() && s.size() > 2) { size_t a = c.rng.below(s.size()); t = s.substr(a, 1 + c.rng.below(c.rng.chance(1, 4) ? 900 : 70)); } else t = c.rng.from(al, 1 + c.rng.below(30)); if (c.rng.coin()) t += c.rng.pickc({"", "a", "\n"});
				if (t.empty()) t = "a"; size_t from = c.rng.below(s.size() + 1); size_t r = p.findNext(t, from), e = s.find(t, from);
				VH_EQ(r, e, "findNext", "search of " << esc(t, 80) << " (" << t.size() << ") from " << from << " in " << s.size() << " bytes with " << ch.describe()); VH_EQ(p.getPosition(), pos, "findNext-position", "position after search"); if (e != str::npos) c.count("tokens found"); break; }
			case 1: { str t = c.rng.coin() ? s.substr(pos, 1 + c.rng.below(6)) : c.rng.from(al, 1 + c.rng.below(3)); if (t.empty()) break; VH_EQ(p.matchBytes(t.data(), t.size()), s.compare(pos, t.size(), t) == 0, "matchBytes", "match of " << esc(t) << " at " << pos << " with " << ch.describe()); VH_EQ(p.getPosition(), pos, "matchBytes-position", "position"); break; }
			case 2: VH_EQ((int)p.peekByte(), pos < s.size() ? (int)(unsigned char)s[pos] : 0, "peekByte", "at " << pos); VH_EQ(p.getPosition(), pos, "peekByte-position", "position"); break;
			case 3: VH_EQ((int)p.getByte(), pos < s.size() ? (int)(unsigned char)s[pos] : 0, "getByte", "at " << pos); VH_EQ(p.getPosition(), std::min(pos + 1, s.size()), "getByte-position", "position"); break;
			case 4: { size_t e = c.rng.below(s.size() + 1), q = pos; while (q < s.size() && q < e && s[q] != '\n') ++q; if (ch.lazyEof) break; VH_EQ(p.skipIf([](byte_t b) { return b != '\n'; }, e), q - pos, "skipIf", "from " << pos << " to " << e); VH_EQ(p.getPosition(), q, "skipIf-position", "position"); break; }
			default: { size_t b = c.rng.below(s.size() + 1), e = b + c.rng.below(s.size() - b + 1); VH_EQ(p.extract(b, e), s.substr(b, e - b), "extract", "extract(" << b << "," << e << ") with " << ch.describe()); VH_EQ(p.getPosition(), pos, "extract-position", "position"); }
		}
	}
	c.seen("cuts", ch.describe() + s); c.nontrivial("pa" + s + ch.describe());
}
namespace vh { void setup() {
	setRule("distinct by (filter or adapter, input bytes, cutting into pieces / access sequence); non-trivial when the input contains what the filter looks for");
	addSuite("dot-out", 16000, 400000, dotOut); addSuite("dot-in", 16000, 400000, dotIn); addSuite("dot-round", 6000, 200000, dotRound);
	addSuite("crlf-to-lf", 12000, 300000, crlfToLf); addSuite("lf-to-crlf", 12000, 300000, lfToCrlf); addSuite("stop", 30000, 900000, stop);
	addSuite("chain", 12000, 400000, chain); addSuite("copy", 2000, 30000, copy); addSuite("adapters", 12000, 300000, adapters); addSuite("parser-adapter", 12000, 300000, parserAdapter);
} }
