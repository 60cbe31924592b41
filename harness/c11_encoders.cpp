// C11: transfer encoders against reference codecs, for any input and any chunking.
#include "vstreams.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
using namespace vh;
namespace ve = vmime::utility::encoder;

static str genData(Rng& r, size_t maxn) {
	size_t n = r.size(maxn);
	switch (r.below(8)) {
		case 0: return r.bytes(n);
		case 1: return r.from("abcdefghijklmnopqrstuvwxyz \r\n.=_?\t", n);
		case 2: return r.from(" \t\r\n", n);
		case 3: return str(n, (char)r.next());
		case 4: return r.from("=AF09\r\n .", n);
		case 5: { str s; while (s.size() < n) { s += r.from("The quick brown fox ", r.below(90)); s += "\r\n"; if (r.chance(1, 4)) s += "."; } return s; }
		case 6: { str s; while (s.size() < n) { s += r.from(str("\x80\xff\x00 .A", 6), r.below(80)); if (r.coin()) s += "\n"; } return s; }
		default: { str s = r.bytes(n); for (auto& c : s) if (r.chance(3, 4)) c = (char)('!' + ((unsigned char)c % 94)); return s; }
	}
}
static str interestingSize(Rng& r) {
	static const size_t k[] = {0,1,2,3,4,44,45,46,47,48,53,54,55,56,57,58,59,63,64,65,72,73,74,75,76,77,16383,16384,16385,32768,65535,65536,65537};
	size_t n = k[r.below(sizeof k / sizeof *k)];
	return r.coin() ? r.bytes(n) : str(n, r.coin() ? 'a' : (char)0xe9);
}

// ------------------------------------------------- reference codecs
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static str refB64(const str& s) {
	str o; size_t i = 0;
	for (; i + 2 < s.size(); i += 3) {
		unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8 | (unsigned char)s[i+2];
		o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += B64[v & 63];
	}
	if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += "=="; }
	if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i+1] << 8; o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += B64[v >> 6 & 63]; o += '='; }
	return o;
}
static str refUnB64(const str& s) {
	str o; unsigned v = 0; int n = 0;
	for (char c : s) { const char* p = c ? strchr(B64, c) : 0; if (!p) continue; v = v << 6 | (unsigned)(p - B64); if (++n == 4) { o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v; n = 0; v = 0; } }
	if (n == 2) o += (char)(v >> 4);
	if (n == 3) { o += (char)(v >> 10); o += (char)(v >> 2); }
	return o;
}
static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
// strict decoder: returns false if the text is not valid quoted-printable / Q
static bool refUnQP(const str& s, bool q, str& o) {
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '=') {
			if (!q && i + 2 < s.size() && s[i+1] == '\r' && s[i+2] == '\n') { i += 2; continue; }
			if (i + 2 >= s.size() || hexv(s[i+1]) < 0 || hexv(s[i+2]) < 0) return false;
			o += (char)(hexv(s[i+1]) * 16 + hexv(s[i+2])); i += 2;
		} else if (q && s[i] == '_') o += ' ';
		else o += s[i];
	}
	return true;
}
static str refUU(const str& d, Rng& r, bool full) {
	str o; size_t pos = 0;
	auto E = [](unsigned c) -> char { return (char)((c & 63) ? (c & 63) + 32 : '`'); };
	while (pos < d.size()) {
		size_t n = std::min<size_t>(full ? 45 : 1 + r.below(45), d.size() - pos);
		o += E((unsigned)n);
		for (size_t i = 0; i < n; i += 3) {
			unsigned a = (unsigned char)d[pos+i], b = i + 1 < n ? (unsigned char)d[pos+i+1] : 0, c = i + 2 < n ? (unsigned char)d[pos+i+2] : 0;
			o += E(a >> 2); o += E((a << 4 & 060) | b >> 4); o += E((b << 2 & 074) | c >> 6); o += E(c);
		}
		o += "\n"; pos += n;
	}
	return o;
}
static bool refUnUU(const str& text, str& o, str& begin) {
	size_t pos = 0; bool in = false, end = false;
	while (pos < text.size()) {
		size_t e = text.find('\n', pos); if (e == str::npos) return false;
		str l = text.substr(pos, e - pos); pos = e + 1;
		if (!l.empty() && l.back() == '\r') l.pop_back();
		if (!in) { if (l.compare(0, 5, "begin")) return false; begin = l; in = true; continue; }
		if (l == "end") { end = true; break; }
		if (l.empty()) return false;
		size_t n = ((unsigned char)l[0] - 32) & 63;
		if (l.size() != 1 + (n + 2) / 3 * 4) return false;
		for (size_t i = 0; i < n; ++i) {
			size_t g = 1 + i / 3 * 4; unsigned c[4]; for (int k = 0; k < 4; ++k) { unsigned char ch = (unsigned char)l[g+k]; if (ch < 32 || ch > 96) return false; c[k] = (ch - 32) & 63; }
			if (i % 3 == 0) o += (char)(c[0] << 2 | c[1] >> 4); else if (i % 3 == 1) o += (char)(c[1] << 4 | c[2] >> 2); else o += (char)(c[2] << 6 | c[3]);
		}
	}
	return in && end && pos == text.size();
}

static vmime::shared_ptr<ve::encoder> mk(const str& n) { return ve::encoderFactory::getInstance()->create(n); }
struct Prog : vmime::utility::progressListener {
	bool cancel() const { return false; }
	void start(const size_t) { ++starts; }
	void progress(const size_t c, const size_t t) { if (c < last) mono = false; if (t < c) mono = false; last = c; ++n; }
	void stop(const size_t) { ++stops; }
	size_t starts = 0, stops = 0, n = 0, last = 0; bool mono = true;
};
static void checkProg(const Prog& p, const str& k) {
	VH_CHECK(p.starts <= 1 && p.stops == 1, k + ":progress", "start called " << p.starts << ", stop called " << p.stops << " times");
	VH_CHECK(p.mono, k + ":progress-monotone", "progress went backwards");
}
static str enc(ve::encoder& e, const str& d, const Chunking& c, size_t& ret, const str& key) {
	ChunkIn in(d, c); RecOut out; Prog p; ret = e.encode(in, out, &p); checkProg(p, key + ":enc"); return out.data;
}
static str dec(ve::encoder& e, const str& d, const Chunking& c, size_t& ret, const str& key, bool prog = true) {
	ChunkIn in(d, c); RecOut out; Prog p; ret = e.decode(in, out, &p); if (prog) VH_CHECK(p.mono, key + ":dec:progress-monotone", "progress went backwards"); return out.data;
}
static size_t longestLine(const str& s) { size_t m = 0, c = 0; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' || s[i] == '\n') { m = std::max(m, c); c = 0; } else ++c; } return std::max(m, c); }

static void b64(Ctx& c) {
	str d = c.rng.chance(1, 6) ? interestingSize(c.rng) : genData(c.rng, c.rng.chance(1, 20) ? 70000 : 600);
	auto e = mk("base64");
	long ml = -1;
	if (c.rng.chance(3, 4)) { ml = c.rng.chance(1, 3) ? 76 : c.rng.range(1, 120); e->getProperties()["maxlinelength"] = (size_t)ml; }
	Chunking c1 = Chunking::random(c.rng), c2 = Chunking::random(c.rng);
	c.note("base64 ml=" + std::to_string(ml) + " " + c1.describe() + " " + c2.describe() + " " + esc(d, 200));
	size_t ret; str t = enc(*e, d, c1, ret, "b64");
	VH_EQ(ret, t.size(), "b64:encode-return", "encode() return value vs bytes written");
	str flat; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\r') { VH_CHECK(ml >= 0 && i + 1 < t.size() && t[i+1] == '\n', "b64:crlf", "stray CR"); ++i; continue; } VH_CHECK(t[i] != '\n', "b64:crlf", "bare LF"); flat += t[i]; }
	VH_EQ(flat, refB64(d), "b64:encode", "encoded text (line breaks removed)");
	if (ml >= 0) { size_t lim = std::min<size_t>(76, std::max<long>(ml, 4)); VH_CHECK(longestLine(t) <= lim, "b64:line-length", "line of " << longestLine(t) << " with limit " << ml); }
	VH_CHECK(e->getEncodedSize(d.size()) >= t.size(), "b64:size-estimate", "getEncodedSize(" << d.size() << ")=" << e->getEncodedSize(d.size()) << " < actual " << t.size() << " (maxlinelength " << ml << ")");
	str b = dec(*e, t, c2, ret, "b64");
	VH_EQ(b, d, "b64:roundtrip", "decode(encode(x))"); VH_EQ(ret, d.size(), "b64:decode-return", "decode() return value");
	VH_CHECK(e->getDecodedSize(t.size()) >= d.size(), "b64:decoded-size", "getDecodedSize too small");
	// foreign line structure
	str w; str f = refB64(d); size_t k = 1 + c.rng.below(90);
	for (size_t i = 0; i < f.size(); ++i) { w += f[i]; if ((i + 1) % k == 0) w += c.rng.pickc({"\r\n", "\n", " ", "\t", "\r\n\r\n"}); }
	if (c.rng.coin()) w += "\r\n";
	b = dec(*e, w, Chunking::random(c.rng), ret, "b64");
	VH_EQ(b, d, "b64:decode-folded", "decode of base64 with whitespace inserted every " << k);
	c.count("b64 bytes", d.size()); c.seen("b64 chunking", c1.describe() + c2.describe());
	if (d.size() > 2) c.nontrivial("b64" + d + c1.describe() + std::to_string(ml));
}

static void qp(Ctx& c) {
	str d = c.rng.chance(1, 6) ? interestingSize(c.rng) : genData(c.rng, c.rng.chance(1, 20) ? 40000 : 600);
	auto e = mk("quoted-printable");
	long ml = -1; bool text = false, q = false;
	switch (c.rng.below(4)) { case 0: break; case 1: text = true; break; case 2: q = true; break; default: break; }
	if (!q && c.rng.chance(3, 4)) { ml = c.rng.chance(1, 3) ? 76 : c.rng.range(5, 120); e->getProperties()["maxlinelength"] = (size_t)ml; }
	if (text) e->getProperties()["text"] = true;
	if (text && c.rng.coin()) { str x; for (char ch : d) { if (ch == '\r') continue; if (ch == '\n') x += '\r'; x += ch; } d = x; }
	if (q) e->getProperties()["rfc2047"] = true;
	Chunking c1 = Chunking::random(c.rng), c2 = Chunking::random(c.rng);
	c.note("qp ml=" + std::to_string(ml) + (text ? " text " : "") + (q ? " q " : "") + " " + c1.describe() + " " + c2.describe() + " " + esc(d, 200));
	size_t ret; str t = enc(*e, d, c1, ret, "qp");
	VH_EQ(ret, t.size(), "qp:encode-return", "encode() return value vs bytes written");
	str o; VH_CHECK(refUnQP(t, q, o), "qp:invalid", "output is not valid quoted-printable: " << esc(t));
	VH_EQ(o, d, "qp:encode", "reference decoding of the output");
	for (unsigned char ch : t) VH_CHECK((ch >= 32 && ch < 127) || ch == '\r' || ch == '\n', "qp:alphabet", "byte " << (int)ch << " in output");
	if (q) { for (unsigned char ch : t) VH_CHECK(isalnum(ch) || strchr("!*+-/=_", ch), "qp:q-alphabet", "character " << (int)ch << " in a Q-encoded word"); }
	else {
		// trailing blanks and leading dots are not allowed to stay literal on a line
		for (size_t i = 0; i < t.size(); ++i) {
			bool eol = i + 1 >= t.size() || t[i+1] == '\r' || t[i+1] == '\n';
			VH_CHECK(!((t[i] == ' ' || t[i] == '\t') && eol), "qp:trailing-blank", "blank at end of line in " << esc(t));
			bool bol = i == 0 || t[i-1] == '\n';
			VH_CHECK(!(t[i] == '.' && bol), "qp:leading-dot", "'.' at start of line in " << esc(t));
		}
		auto canon = [](const str& x) { for (size_t i = 0; i < x.size(); ++i) { if (x[i] == '\r') { if (i + 1 >= x.size() || x[i+1] != '\n') return false; ++i; } else if (x[i] == '\n') return false; } return true; };
		if (text && canon(d)) { c.count("qp canonical text inputs"); VH_CHECK(canon(t), "qp:bare-cr-lf", "canonical text (CRLF line ends only) encoded to a text with a bare CR or LF: " << esc(t)); }
		if (!text) for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\r' || t[i] == '\n') VH_CHECK(t[i] == '\n' ? (i >= 2 && t[i-1] == '\r' && t[i-2] == '=') : (i >= 1 && t[i-1] == '=' && i + 1 < t.size() && t[i+1] == '\n'), "qp:binary-newline", "hard line break in binary mode");
		if (ml >= 0) VH_CHECK(longestLine(t) <= std::min<size_t>(76, (size_t)ml + 2), "qp:line-length", "line of " << longestLine(t) << " with limit " << ml);
	}
	VH_CHECK(e->getEncodedSize(d.size()) >= t.size(), "qp:size-estimate", "getEncodedSize(" << d.size() << ")=" << e->getEncodedSize(d.size()) << " < actual " << t.size() << " (maxlinelength " << ml << ")");
	str b = dec(*e, t, c2, ret, "qp");
	VH_EQ(b, d, "qp:roundtrip", "decode(encode(x))"); VH_EQ(ret, d.size(), "qp:decode-return", "decode() return value");
	VH_CHECK(e->getDecodedSize(t.size()) >= d.size(), "qp:decoded-size", "getDecodedSize too small");
	// foreign encoder: random literal/hex choice (upper or lower case hex), soft breaks anywhere
	str w;
	for (size_t i = 0; i < d.size(); ++i) {
		unsigned char ch = (unsigned char)d[i]; bool lit = ch > 32 && ch < 127 && ch != '=' && !(q && (ch == '_' || ch == '?')) && c.rng.chance(3, 4);
		char hx[8]; snprintf(hx, sizeof hx, c.rng.coin() ? "=%02X" : "=%02x", ch);
		if (q && ch == ' ') w += '_'; else if (lit) w += (char)ch; else w += hx;
		if (!q && c.rng.chance(1, 12)) w += c.rng.coin() ? "=\r\n" : "=\n";
	}
	b = dec(*e, w, Chunking::random(c.rng), ret, "qp");
	VH_EQ(b, d, "qp:decode-foreign", "decode of " << esc(w));
	c.count("qp bytes", d.size()); c.seen("qp chunking", c1.describe() + c2.describe());
	if (d.size() > 2) c.nontrivial("qp" + d + c1.describe() + std::to_string(ml) + (text ? "t" : q ? "q" : "b"));
}

static void uu(Ctx& c) {
	str d = c.rng.chance(1, 6) ? interestingSize(c.rng) : genData(c.rng, c.rng.chance(1, 20) ? 70000 : 600);
	auto e = mk("uuencode");
	str mode = c.rng.pickc({"644", "755", "600"}), fn = c.rng.pickc({"no_name", "a.bin", "two words.txt", "x"});
	e->getProperties()["mode"] = mode; e->getProperties()["filename"] = fn;
	long ml = 46;
	if (c.rng.coin()) { ml = c.rng.range(2, 90); e->getProperties()["maxlinelength"] = (size_t)ml; }
	Chunking c1 = Chunking::random(c.rng), c2 = Chunking::random(c.rng);
	c.note("uu ml=" + std::to_string(ml) + " " + c1.describe() + " " + c2.describe() + " " + esc(d, 200));
	size_t ret; str t = enc(*e, d, c1, ret, "uu");
	VH_EQ(ret, t.size(), "uu:encode-return", "encode() return value vs bytes written");
	str o, bg; VH_CHECK(refUnUU(t, o, bg), "uu:invalid", "output is not valid uuencoded text: " << esc(t));
	VH_EQ(o, d, "uu:encode", "reference decoding of the output"); VH_EQ(bg, "begin " + mode + " " + fn, "uu:begin-line", "begin line");
	VH_CHECK(longestLine(t) <= 61 || longestLine(bg) > 61, "uu:line-length", "line of " << longestLine(t));
	VH_CHECK(e->getEncodedSize(d.size()) >= t.size() || ml < 20, "uu:size-estimate", "getEncodedSize too small");
	str b = dec(*e, t, c2, ret, "uu");
	VH_EQ(b, d, "uu:roundtrip", "decode(encode(x))"); VH_EQ(ret, d.size(), "uu:decode-return", "decode() return value");
	VH_EQ(static_cast<const ve::encoder&>(*e).getResults().getProperty<str>("filename", ""), fn, "uu:filename", "decoded file name");
	VH_EQ(static_cast<const ve::encoder&>(*e).getResults().getProperty<str>("mode", ""), mode, "uu:mode", "decoded mode");
	// another program's output
	str w = "begin " + mode + " " + fn + "\n" + refUU(d, c.rng, c.rng.coin()) + "`\nend\n";
	if (c.rng.coin()) { str x; for (char ch : w) { if (ch == '\n') x += '\r'; x += ch; } w = x; }
	b = dec(*e, w, Chunking::random(c.rng), ret, "uu");
	VH_EQ(b, d, "uu:decode-foreign", "decode of " << esc(w));
	c.count("uu bytes", d.size()); c.seen("uu chunking", c1.describe() + c2.describe());
	if (d.size() > 2) c.nontrivial("uu" + d + c1.describe());
}

static void ident(Ctx& c) {
	str d = c.rng.chance(1, 6) ? interestingSize(c.rng) : genData(c.rng, c.rng.chance(1, 20) ? 70000 : 600);
	static const char* names[] = {"7bit", "8bit", "binary"};
	str n = names[c.rng.below(3)];
	if (n == "7bit") for (auto& ch : d) ch = (char)(ch & 0x7f);
	auto e = mk(n); Chunking c1 = Chunking::random(c.rng), c2 = Chunking::random(c.rng);
	c.note(n + " " + c1.describe() + " " + c2.describe() + " " + esc(d, 200));
	size_t ret; str t = enc(*e, d, c1, ret, n);
	VH_EQ(t, d, n + ":encode", "identity encoding"); VH_EQ(ret, d.size(), n + ":encode-return", "encode() return value");
	str b = dec(*e, t, c2, ret, n); VH_EQ(b, d, n + ":decode", "identity decoding"); VH_EQ(ret, d.size(), n + ":decode-return", "decode() return value");
	VH_CHECK(e->getEncodedSize(d.size()) >= t.size(), n + ":size-estimate", "getEncodedSize too small");
	c.count(n + " bytes", d.size()); if (d.size() > 2) c.nontrivial(n + d);
}

// arbitrary bytes given to a decoder: safe, terminating, return value == bytes written,
// same result for every chunking
static void hostile(Ctx& c) {
	static const char* names[] = {"base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary"};
	str n = names[c.rng.below(6)], d;
	switch (c.rng.below(5)) {
		case 0: d = c.rng.bytes(c.rng.size(3000)); break;
		case 1: d = c.rng.from("ABCabc019+/= \r\n\t-_.", c.rng.size(400)); break;
		case 2: d = c.rng.from("=0AfF\r\n_ x", c.rng.size(400)); break;
		case 3: { d = c.rng.coin() ? "begin 644 x\n" : ""; size_t k = c.rng.below(6); while (k--) { d += (char)c.rng.range(32, 96); d += c.rng.from("ABC`M!\"#$ ~", c.rng.below(90)); if (c.rng.coin()) d += c.rng.coin() ? "\r\n" : "\n"; } if (c.rng.coin()) d += c.rng.pickc({"end", "end\n", "en", "e", "b", "beg", "begin", "begin ", "begin\n"}); break; }
		default: d = c.rng.pickc({"begin ", "b", "e", "begin 644 "}) + c.rng.bytes(c.rng.size(700)); break;
	}
	c.note(n + " decode " + esc(d, 800));
	auto e = mk(n); if (n == "quoted-printable" && c.rng.coin()) e->getProperties()["rfc2047"] = true;
	size_t r1, r2; Chunking whole; whole.lazyEof = true;
	str a = dec(*e, d, whole, r1, n, false); Chunking c2 = Chunking::random(c.rng); c2.lazyEof = true;
	str b = dec(*e, d, c2, r2, n, false);
	VH_EQ(r1, a.size(), n + ":hostile-return", "decode() return value vs bytes written");
	VH_EQ(b, a, n + ":hostile-chunking", "decoding in " << c2.describe() << " vs whole");
	VH_EQ(r2, r1, n + ":hostile-chunking-return", "return value");
	VH_CHECK(a.size() <= d.size(), n + ":expansion", "decoder produced more bytes than its input");
	c.count("hostile bytes", d.size()); c.seen("hostile outputs", n + a); c.nontrivial(n + d);
}

namespace vh { void setup() {
	setRule("a case is distinct by (codec, input bytes, options, chunking); non-trivial when the input has more than two bytes");
	addSuite("b64", 12000, 400000, b64); addSuite("qp", 12000, 400000, qp); addSuite("uu", 8000, 300000, uu);
	addSuite("identity", 2000, 60000, ident); addSuite("hostile", 16000, 600000, hostile);
} }
