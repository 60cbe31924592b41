// C12: charset conversion against the C library's iconv and RFC 3492 by hand.
#include "vref.hpp"
#include <set>
#include "vmime/charsetConverter.hpp"
#include "vmime/utility/filteredStream.hpp"
using namespace vh;
namespace vu = vmime::utility;

// With iconv as back end: the GB2312 to GBK module of the C library is not used, its leniency about code points
// above U+10FFFF and its handling of shift states around errors are not judged, and every byte of a bad
// sequence may be replaced separately.
static const bool viaIconv = VMIME_CHARSETCONV_LIB_IS_ICONV;

// ------------------------------------------------- charsets and their repertoires
struct CS { str name; bool multi, stateful, unicode; std::vector<uint32_t> chars; };
static str u8(uint32_t c) { str s; putUtf8(s, c); return s; }
static str u8(const std::vector<uint32_t>& v) { str s; for (auto c : v) putUtf8(s, c); return s; }
static const std::vector<CS>& table() {
	static std::vector<CS> t;
	if (!t.empty()) return t;
	auto sb = [&](const char* n) {
		CS c{n, false, false, false, {}};
		for (int b = 128; b < 256; ++b) { str o; if (refConvert(str(1, (char)b), n, "UTF-8", o)) { std::vector<uint32_t> x; fromUtf8(o, x); if (x.size() == 1 && x[0] >= 0xa0 && x[0] != 0xad && (x[0] < 0xe000 || x[0] > 0xf8ff) && !(x[0] >= 0x200b && x[0] <= 0x200f)) c.chars.push_back(x[0]); } }
		t.push_back(c);
	};
	auto mb = [&](const char* n, const char* chars, bool stateful) { CS c{n, true, stateful, false, {}}; fromUtf8(chars, c.chars); t.push_back(c); };
	auto un = [&](const char* n, bool stateful) { t.push_back(CS{n, true, stateful, true, {}}); };
	for (auto n : {"iso-8859-1", "iso-8859-2", "iso-8859-3", "iso-8859-4", "iso-8859-5", "iso-8859-9", "iso-8859-10", "iso-8859-13", "iso-8859-14", "iso-8859-15", "windows-1250", "windows-1251", "windows-1252", "windows-1253", "windows-1254", "windows-1257", "koi8-r", "us-ascii"}) sb(n);
	const char* ja = "日本語東京都山田太郎文字あいうえおアイウエオがぎぐ漢字仮名混じり文";
	mb("iso-2022-jp", ja, true); mb("shift_jis", ja, false); mb("euc-jp", ja, false);
	mb("gb2312", "中国人大小上下左右文字", false); mb("gbk", "中国人大小上下左右文字國", false); mb("big5", "中國人大小上下左右文字", false); mb("euc-kr", "한국어서울문자", false); mb("gb18030", "中国人😀é한", false);
	for (int i = 0; i < 3; ++i) un("utf-8", false);
	un("utf-16le", false); un("utf-16be", false); un("utf-32le", false); un("utf-32be", false); un("utf-7", true);
	return t;
}
static bool inRep(const CS& c, uint32_t ch) { return ch < 128 || c.unicode || std::find(c.chars.begin(), c.chars.end(), ch) != c.chars.end(); }
static uint32_t uniChar(Rng& r) {
	static const std::vector<uint32_t> k = {0xe9, 0x416, 0x3bb, 0x65e5, 0x672c, 0x20ac, 0x1f600, 0x10ffff, 0x7ff, 0x800, 0xffff - 2, 0x10000, 0xd7ff, 0xe000, 0x80, 0x301};
	for (;;) {
		uint32_t c = r.coin() ? r.pick(k) : r.coin() ? (uint32_t)r.range(0xa0, 0x2000) : (uint32_t)r.range(0x2100, 0x1ffff);
		if (c >= 0xd800 && c < 0xe000) continue;
		if (c < 0xa0 || c == 0xad || c == 0x34f || c == 0x61c || (c >= 0x115f && c <= 0x1160) || (c >= 0x17b4 && c <= 0x17b5) || (c >= 0x180b && c <= 0x180f)) continue;
		if ((c >= 0x1bca0 && c <= 0x1bca3) || (c >= 0x1d173 && c <= 0x1d17a) || (c >= 0xfe00 && c <= 0xfe0f) || c == 0x3164 || c == 0xffa0 || (c >= 0xfff0 && c <= 0xfff8)) continue;
		if ((c & 0xfffe) == 0xfffe || c == 0xfeff || c == 0xfffd) continue;
		return c;
	}
}
static uint32_t asciiChar(Rng& r, bool safe) {
	if (r.chance(1, 12)) return '\n';
	if (r.chance(1, 6)) { uint32_t c = (uint32_t)r.range(0x20, 0x7e); if (c == '\\' || c == '~' || c == 0x7e) c = '='; return c; }
	(void)safe; return (uint32_t)r.range('a', 'z');
}
// text all of whose characters are in both charsets
static std::vector<uint32_t> genText(Rng& r, const CS& a, const CS& b, size_t max) {
	std::vector<uint32_t> pool;
	if (a.unicode) pool = b.chars; else for (auto c : a.chars) if (inRep(b, c)) pool.push_back(c);
	std::vector<uint32_t> v; size_t n = r.size(max); unsigned w = (unsigned)r.below(5);
	for (size_t i = 0; i < n; ++i) {
		if (r.chance(w, 4) && a.unicode && b.unicode) v.push_back(uniChar(r));
		else if (r.chance(w, 4) && !pool.empty()) v.push_back(r.pick(pool));
		else v.push_back(asciiChar(r, true));
	}
	return v;
}
static str enc(const str& utf8, const CS& c) { str o; VH_CHECK(refConvert(utf8, "UTF-8", c.name, o), "harness", "reference cannot encode " << esc(utf8) << " to " << c.name); return o; }
static str csName(Rng& r, const str& n) { if (r.chance(1, 5)) { str s = n; for (auto& c : s) c = (char)toupper(c); return s; } return n; }

// what came out, checked against the text it must denote
static void sameOut(const CS& dst, const str& got, const str& text, const str& how) {
	if (dst.stateful) {
		str back; VH_CHECK(refConvert(got, dst.name, "UTF-8", back), "out-invalid", how << ": output is not valid " << dst.name << ": " << show(got));
		VH_EQ(back, text, "out", how);
	} else VH_EQ(got, enc(text, dst), "out", how);
}
static void writeCut(Ctx& c, vu::outputStream& f, const str& in, const Chunking& ch) {
	Rng r(ch.seed); size_t p = 0;
	while (p < in.size()) { size_t n = std::min(in.size() - p, ch.next(r, in.size() - p)); if (r.chance(1, 9)) f.write("", 0); f.write(in.data() + p, n); p += n; c.count("writes"); }
}

static void sExact(Ctx& c) {
	Rng& r = c.rng; auto& t = table();
	const CS &a = t[r.below(t.size())], &b = t[r.below(t.size())]; if (viaIconv && a.name == "gb2312" && b.name == "gbk") throw CaseSkip();
	str text = u8(genText(r, a, b, r.chance(1, 10) ? 3000 : 120)), in = enc(text, a);
	str how = a.name + " to " + b.name + " of " + esc(in, 3000);
	c.note(how);
	vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = r.coin(); o.invalidSequence = r.pickc({"?", "#", "[?]"});
	vmime::charset A(csName(r, a.name)), B(csName(r, b.name));
	str out = "old";
	vmime::charset::convert(in, out, A, B, o);
	if (a.name == b.name) VH_EQ(out, in, "same", how); else sameOut(b, out, text, "convert(string) " + how);
	auto conv = vmime::charsetConverter::create(A, B, o);
	for (int k = 0; k < 3; ++k) {
		Chunking ch = Chunking::random(r); vmime::charsetConverter::status st; st.inputBytesRead = 77; bool withSt = r.chance(2, 3);
		if (k == 0) {
			str s = "old"; conv->convert(in, s, withSt ? &st : NULL); sameOut(b, s, text, "converter->convert(string) " + how); if (withSt) VH_EQ(st.outputBytesWritten, s.size(), "status-out", how);
		} else {
			ChunkIn is(in, ch); RecOut os; os.data = "";
			if (r.coin()) conv->convert(is, os, withSt ? &st : NULL); else { withSt = false; vmime::charset::convert(is, os, A, B, o); }
			sameOut(b, os.data, text, "convert(stream," + ch.describe() + ") " + how); if (withSt) VH_EQ(st.outputBytesWritten, os.data.size(), "status-out", how + " " + ch.describe());
		}
		if (withSt) VH_EQ(st.inputBytesRead, in.size(), "status-in", how + " " + ch.describe());
		Chunking wc = Chunking::random(r); RecOut fo; auto f = conv->getFilteredOutputStream(fo, o);
		VH_CHECK(f, "no-filter", how);
		writeCut(c, *f, in, wc); f->flush(); if (r.chance(1, 4)) f->flush();
		sameOut(b, fo.data, text, "filtered(" + wc.describe() + ") " + how);
		VH_CHECK(fo.flushes > 0, "flush-forwarded", how);
		if (r.chance(1, 4)) { // a second run through the same filter
			fo.data.clear(); writeCut(c, *f, in, Chunking::random(r)); f->flush(); sameOut(b, fo.data, text, "filtered again " + how);
		}
		c.count("conversions", 2);
	}
	str::size_type fi = 12345; VH_CHECK(A.isValidText(in, &fi) && fi == in.size(), "isvalid", "isValidText of valid " << how << " first invalid " << fi);
	VH_CHECK(A.isValidText(in, NULL), "isvalid", how);
	c.seen("pair", a.name + ">" + b.name);
	if (text.size() > 1) c.nontrivial(how);
}
// all ways of cutting a short input in two
static void sCuts(Ctx& c) {
	Rng& r = c.rng; auto& t = table();
	const CS &a = t[18 + r.below(t.size() - 18)], &b = t[r.below(t.size())];
	if (viaIconv && a.name == "gb2312" && b.name == "gbk") throw CaseSkip();
	std::vector<uint32_t> v = genText(r, a, b, 16); str text = u8(v), in = enc(text, a);
	str how = a.name + " to " + b.name + " of " + esc(in, 3000); c.note(how);
	auto conv = vmime::charsetConverter::create(vmime::charset(a.name), vmime::charset(b.name));
	for (size_t k = 0; k <= in.size(); ++k) {
		RecOut fo; auto f = conv->getFilteredOutputStream(fo);
		f->write(in.data(), k); f->write(in.data() + k, in.size() - k); f->flush();
		sameOut(b, fo.data, text, "filtered, cut at " + show(k) + " " + how);
		if (k) { Chunking ch; ch.mode = 2; ch.fixed = k; ch.lazyEof = r.coin(); ChunkIn is(in, ch); RecOut os; conv->convert(is, os); sameOut(b, os.data, text, "convert(stream) in pieces of " + show(k) + " " + how); }
		c.count("cuts");
	}
	if (!v.empty()) c.nontrivial(how);
}

static str badSeq(Rng& r, const str& cs, bool& atEndOnly) {
	atEndOnly = false;
	static const std::vector<str> bad8 = {"\x80", "\xbf", str("\xc0\x80", 2), "\xc1\xbf", "\xe0\x80\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xf0\x80\x80\x80", "\xf5\x80\x80\x80"};
	static const std::vector<str> cut8 = {"\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xf0\x9f", "\xf0"};
	if (cs == "utf-8") { if (r.coin()) for (;;) { str b = r.pick(bad8); if (viaIconv && (b[0] == '\xf4' || (unsigned char)b[0] > 0xf4)) continue; return b; } return r.pick(cut8); }
	if (cs == "us-ascii") return str(1, (char)r.range(0x80, 0xff));
	if (cs == "euc-jp") { if (r.coin()) return "\xff"; atEndOnly = true; return "\xb0"; }
	if (cs == "euc-kr" || cs == "gb2312") { if (r.coin()) return "\xff"; atEndOnly = true; return "\xb0"; }
	if (cs == "utf-16be") { if (r.coin()) return str("\xdc\x00", 2); if (r.coin()) { atEndOnly = true; return str("\xd8\x3d", 2); } atEndOnly = true; return str(1, '\0'); }
	if (cs == "utf-32le") { if (r.coin()) return str("\x00\x00\x11\x00", 4); if (r.coin()) return str("\x00\xd8\x00\x00", 4); atEndOnly = true; return str("a\0\0", 3); }
	if (cs == "shift_jis") { atEndOnly = true; return "\x93"; }
	atEndOnly = true; return "\x81"; // gb18030
}
static const std::vector<str>& badCs() { static const std::vector<str> v = {"utf-8", "utf-8", "utf-8", "us-ascii", "euc-jp", "euc-kr", "gb2312", "utf-16be", "utf-32le", "shift_jis", "gb18030"}; return v; }
static const CS& byName(const str& n) { for (auto& c : table()) if (c.name == n) return c; throw std::runtime_error(n); }
static bool startsWith(const str& s, const str& p) { return s.compare(0, p.size(), p) == 0; }

// an invalid sequence in the source, or a character the target does not have
struct Broken { const CS *a, *b; std::vector<str> good; std::vector<str> bad; str in; bool source; str how; };
static Broken genBroken(Rng& r, bool one) {
	Broken k; k.source = r.chance(2, 3); auto& t = table();
	if (k.source) {
		k.a = &byName(r.pick(badCs())); do k.b = &t[r.below(t.size())]; while (k.b->stateful);
		int n = one || k.a->name == "shift_jis" || k.a->name == "gb18030" ? 1 : 1 + (int)r.below(4);
		for (int i = 0; i <= n; ++i) k.good.push_back(u8(genText(r, *k.a, *k.b, 40)));
		for (int i = 0; i < n; ++i) {
			bool endOnly; str b;
			do b = badSeq(r, k.a->name, endOnly); while (endOnly && i + 1 < n);
			k.bad.push_back(b);
			if (endOnly) k.good[i + 1] = "";
			else if (k.a->name != "us-ascii" && k.a->name != "utf-16be" && k.a->name != "utf-32le" && (k.good[i + 1].empty() || (unsigned char)k.good[i + 1][0] >= 128)) k.good[i + 1] = "x" + k.good[i + 1];
		}
		for (size_t i = 0; i < k.good.size(); ++i) { k.in += enc(k.good[i], *k.a); if (i < k.bad.size()) k.in += k.bad[i]; }
	} else {
		do k.a = &t[r.below(t.size())]; while (!k.a->unicode);
		do k.b = &t[r.below(t.size())]; while (k.b->unicode || k.b->stateful || k.b->name == "gb18030");
		int n = one ? 1 : 1 + (int)r.below(4);
		str text;
		for (int i = 0; i <= n; ++i) k.good.push_back(u8(genText(r, *k.a, *k.b, 40)));
		for (int i = 0; i < n; ++i) { static const std::vector<uint32_t> none = {0x905, 0x1200, 0x1f600, 0x10000, 0x13a0, 0x10330, 0xb95, 0x1f680, 0x1401}; str x = u8(r.pick(none)); k.bad.push_back(x); }
		if (viaIconv) { if (k.a->stateful) throw CaseSkip(); for (int i = 1; i <= n; ++i) k.good[i] = "x" + k.good[i]; }
		for (size_t i = 0; i < k.good.size(); ++i) { text += k.good[i]; if (i < k.bad.size()) text += k.bad[i]; }
		k.in = enc(text, *k.a);
	}
	if (viaIconv && k.a->name == "gb2312" && k.b->name == "gbk") throw CaseSkip();
	k.how = k.a->name + " to " + k.b->name + " of " + esc(k.in, 2000);
	return k;
}
static void sStrict(Ctx& c) {
	Rng& r = c.rng; Broken k = genBroken(r, false); c.note(k.how);
	vmime::charset A(k.a->name), B(k.b->name);
	vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = false;
	str want = enc(k.good[0], *k.b); size_t pre = enc(k.good[0], *k.a).size();
	auto conv = vmime::charsetConverter::create(A, B, o);
	if (k.a != k.b && k.a->name != k.b->name) for (int i = 0; i < 2; ++i) {
		vmime::charsetConverter::status st; Chunking ch = Chunking::random(r); RecOut os; bool thrown = false;
		try { ChunkIn is(k.in, ch); if (i == 0) conv->convert(k.in, os.data, &st); else conv->convert(is, os, &st); }
		catch (vmime::exceptions::illegal_byte_sequence_for_charset&) { thrown = true; }
		VH_CHECK(thrown, "not-reported", "strict " << k.how << " " << ch.describe() << " gave " << show(os.data));
		VH_EQ(os.data, want, "strict-text-before", "strict " + k.how + " " + ch.describe() + ": text before the error");
		VH_EQ(st.outputBytesWritten, os.data.size(), "strict-status-out", "strict " + k.how + " " + ch.describe());
		if (k.source) VH_EQ(st.inputBytesRead, pre, "strict-status-in", "strict " + k.how + " " + ch.describe());
		else if (!viaIconv || !k.a->stateful) VH_CHECK(st.inputBytesRead >= pre && st.inputBytesRead <= k.in.size(), "strict-status-in", "strict " << k.how << " " << ch.describe() << ": " << st.inputBytesRead);
		RecOut fo; bool ft = false; Chunking wc = Chunking::random(r);
		try { auto f = conv->getFilteredOutputStream(fo, o); writeCut(c, *f, k.in, wc); f->flush(); }
		catch (vmime::exceptions::illegal_byte_sequence_for_charset&) { ft = true; }
		VH_CHECK(ft, "filter-not-reported", "strict filter " << k.how << " " << wc.describe() << " gave " << show(fo.data));
		VH_EQ(fo.data, want, "filter-text-before", "strict filter " + k.how + " " + wc.describe() + ": text before the error");
		c.count("errors reported", 2);
	}
	// the converter can be used again
	str again; conv->convert(enc(k.good[0], *k.a), again); if (k.a->name != k.b->name) VH_EQ(again, want, "reuse", k.how);
	if (k.source) {
		str::size_type fi = 999999; bool v = A.isValidText(k.in, &fi);
		VH_CHECK(!v && fi == pre, "isvalid-invalid", "isValidText " << k.how << " = " << v << ", first invalid byte " << fi << " expected " << pre);
	}
	c.seen("pair", k.a->name + ">" + k.b->name); c.nontrivial(k.how);
}
// is `mid` made only of replacements (at least one)?
static bool onlyRepl(str mid, const std::vector<str>& reps, size_t atLeast, size_t atMost) {
	size_t n = 0;
	while (!mid.empty()) { bool hit = false; for (auto& x : reps) if (!x.empty() && startsWith(mid, x)) { mid.erase(0, x.size()); hit = true; break; } if (!hit) return false; ++n; }
	return n >= atLeast && n <= atMost;
}
static void sReplace(Ctx& c) {
	Rng& r = c.rng; Broken k = genBroken(r, false);
	vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = true; o.invalidSequence = r.pickc({"?", "?", "#", "[?]", "_"});
	k.how += " replaced by " + o.invalidSequence; c.note(k.how);
	vmime::charset A(k.a->name), B(k.b->name); if (k.a->name == k.b->name) { c.count("skipped"); return; }
	auto conv = vmime::charsetConverter::create(A, B, o);
	std::vector<str> reps = {enc(o.invalidSequence, *k.b)}; if (k.b->unicode || k.b->name == "gb18030") reps.push_back(enc("\xef\xbf\xbd", *k.b));
	auto check = [&](const str& out, const str& how) {
		str rest = out;
		for (size_t i = 0; i < k.good.size(); ++i) {
			str g = enc(k.good[i], *k.b);
			if (i > 0) { // replacements up to the next good text
				size_t maxN = k.source || viaIconv ? k.bad[i - 1].size() : 1, n = 0; bool ok = false;
				str tail = rest;
				for (; n <= maxN && !ok; ++n) {
					if (n >= 1 && startsWith(tail, g) && (i + 1 < k.good.size() || tail == g)) { ok = true; break; }
					bool hit = false; for (auto& x : reps) if (startsWith(tail, x)) { tail.erase(0, x.size()); hit = true; break; }
					if (!hit) break;
				}
				VH_CHECK(ok, "replace", how << ": after valid text " << i << " expected replacements then " << show(g) << ", got " << show(rest));
				rest = tail;
			}
			VH_CHECK(startsWith(rest, g), "replace-text", how << ": valid text " << show(g) << " missing at " << show(rest));
			rest.erase(0, g.size());
		}
		VH_CHECK(rest.empty(), "replace-extra", how << ": extra " << show(rest));
	};
	str first;
	for (int i = 0; i < 3; ++i) {
		vmime::charsetConverter::status st; Chunking ch = Chunking::random(r); RecOut os; ChunkIn is(k.in, ch);
		if (i == 0) conv->convert(k.in, os.data, &st); else conv->convert(is, os, &st);
		check(os.data, k.how + " " + (i ? ch.describe() : str("string")));
		if (i == 0) first = os.data; else VH_EQ(os.data, first, "replace-chunking", k.how + " " + ch.describe());
		VH_EQ(st.inputBytesRead, k.in.size(), "replace-status-in", k.how + " " + ch.describe());
		VH_EQ(st.outputBytesWritten, os.data.size(), "replace-status-out", k.how + " " + ch.describe());
		RecOut fo; Chunking wc = Chunking::random(r); auto f = conv->getFilteredOutputStream(fo, o); writeCut(c, *f, k.in, wc); f->flush();
		check(fo.data, "filter " + k.how + " " + wc.describe()); VH_EQ(fo.data, first, "replace-filter", k.how + " " + wc.describe());
		c.count("replacing conversions", 2);
	}
	c.nontrivial(k.how);
}

static void sHostile(Ctx& c) {
	Rng& r = c.rng;
	static const std::vector<str> names = {"utf-8", "utf-7", "utf-16", "utf-16le", "utf-16be", "utf-32", "iso-2022-jp", "iso-2022-kr", "iso-2022-cn", "hz", "gb18030", "gbk", "big5", "shift_jis", "euc-jp", "euc-kr", "koi8-r", "iso-8859-8", "windows-1255", "windows-874", "us-ascii", "imap-mailbox-name", "cesu-8", "ibm037", "idna", "tis-620", "macintosh", "x-unknown", "", "unicode-1-1-utf-7"};
	str a = r.pick(names), b; do b = r.pick(names); while (b == "iso-2022-kr");
	str in;
	switch (r.below(4)) {
		case 0: in = r.bytes(r.size(300)); break;
		case 1: in = r.from("\x1b$B(J@A~{}+-/&azAZ09=\x0e\x0f\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xa4\xa2", r.size(200)); break;
		case 2: in = r.from(str("\0a\xd8\x3d\xfe\xff\xdc", 7), r.size(100)); break;
		default: in = "xn--" + r.from("abcdefghijklmnopqrstuvwxyz0123456789-AZ\x80", r.size(80)); break;
	}
	str how = a + " to " + b + " of " + esc(in, 2000); c.note(how);
	vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = r.coin(); o.invalidSequence = r.pickc({"?", "", "[??????]", "\xe9", "x"});
	str outs[3]; bool ok[3] = {true, true, true};
	for (int i = 0; i < 3; ++i) {
		try {
			auto conv = vmime::charsetConverter::create(vmime::charset(a), vmime::charset(b), o); vmime::charsetConverter::status st; st.outputBytesWritten = 0;
			if (i == 0) { conv->convert(in, outs[0], &st); VH_EQ(st.outputBytesWritten, outs[0].size(), "hostile-status", how); VH_EQ(st.inputBytesRead, in.size(), "hostile-status-in", how); }
			else if (i == 1) { ChunkIn is(in, Chunking::random(r)); RecOut os; conv->convert(is, os, &st); outs[1] = os.data; }
			else { RecOut fo; auto f = conv->getFilteredOutputStream(fo, o); if (!f) { outs[2] = outs[1]; ok[2] = ok[1]; break; } writeCut(c, *f, in, Chunking::random(r)); f->flush(); outs[2] = fo.data; }
		} catch (vmime::exceptions::charset_conv_error&) { ok[i] = false; } catch (vmime::exceptions::illegal_byte_sequence_for_charset&) { ok[i] = false; }
	}
	VH_CHECK(ok[0] == ok[1] && ok[1] == ok[2], "hostile-verdict", how << ": string " << ok[0] << " stream " << ok[1] << " filter " << ok[2]);
	static const std::set<str> shifts = {"windows-1255", "utf-7", "iso-2022-jp", "iso-2022-kr", "iso-2022-cn", "hz", "utf-16", "utf-32", "imap-mailbox-name", "unicode-1-1-utf-7"};
	if (ok[0] && !(viaIconv && (shifts.count(a) || shifts.count(b)))) { VH_EQ(outs[1], outs[0], "hostile-chunking", how); VH_EQ(outs[2], outs[0], "hostile-filter", how); }
	try { str::size_type fi = 0; bool v = vmime::charset(a).isValidText(in, &fi); VH_CHECK(fi <= in.size() && (v ? fi == in.size() : true), "hostile-isvalid", how << " " << v << " " << fi); } catch (vmime::exceptions::charset_conv_error&) {}
	c.seen("outcome", ok[0] ? "converted" : "refused"); c.nontrivial(how);
}

// ------------------------------------------------- RFC 3492
static str refPuny(const std::vector<uint32_t>& in) {
	str o; for (auto c : in) if (c < 128) o += (char)c;
	size_t b = o.size(), h = b; if (b) o += '-';
	uint32_t n = 128; uint64_t delta = 0; uint32_t bias = 72;
	auto digit = [](uint32_t d) { return (char)(d < 26 ? 'a' + d : '0' + d - 26); };
	while (h < in.size()) {
		uint32_t m = 0xffffffff; for (auto c : in) if (c >= n && c < m) m = c;
		delta += (uint64_t)(m - n) * (h + 1); n = m;
		for (auto c : in) {
			if (c < n) ++delta;
			if (c == n) {
				uint64_t q = delta;
				for (uint32_t k = 36;; k += 36) { uint32_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; o += digit((uint32_t)(t + (q - t) % (36 - t))); q = (q - t) / (36 - t); }
				o += digit((uint32_t)q);
				uint64_t d = h == b ? delta / 700 : delta / 2; d += d / (h + 1); uint32_t k = 0; while (d > 455) { d /= 35; k += 36; } bias = (uint32_t)(k + 36 * d / (d + 38));
				delta = 0; ++h;
			}
		}
		++delta; ++n;
	}
	return o;
}
static void sIdna(Ctx& c) {
	Rng& r = c.rng; std::vector<uint32_t> v; size_t n = r.chance(1, 10) ? r.size(400) : 1 + r.below(20); unsigned w = (unsigned)r.below(5);
	for (size_t i = 0; i < n; ++i) { if (r.chance(w, 4)) v.push_back(uniChar(r)); else { char ch = r.from("abcdefghijklmnopqrstuvwxyzABC0123456789-", 1)[0]; v.push_back((uint32_t)ch); } }
	str text = u8(v); bool ascii = std::all_of(v.begin(), v.end(), [](uint32_t x) { return x < 128; });
	if (ascii && (startsWith(text, "xn--") || text.size() >= 4)) if (lower(text.substr(0, 4)) == "xn--") text[0] = 'y';
	str want = ascii ? text : "xn--" + refPuny(v);
	c.note(text);
	str src = r.pickc({"utf-8", "utf-16le", "utf-32be"}); str in; if (!refConvert(text, "UTF-8", src, in)) { src = "utf-8"; in = text; }
	if (ascii) { src = "utf-8"; in = text; }
	auto conv = vmime::charsetConverter::create(vmime::charset(src), vmime::charset("idna")); vmime::charsetConverter::status st;
	str out; conv->convert(in, out, &st);
	VH_EQ(out, want, "idna", "to idna from " + src + " of " + show(text)); VH_EQ(st.inputBytesRead, in.size(), "idna-status", show(text)); VH_EQ(st.outputBytesWritten, out.size(), "idna-status", show(text));
	ChunkIn is(in, Chunking::random(r)); RecOut os; conv->convert(is, os, &st); VH_EQ(os.data, want, "idna-stream", show(text)); VH_EQ(st.outputBytesWritten, out.size(), "idna-status", show(text));
	str enc = out; if (!ascii && r.chance(1, 4)) { // the prefix and the digits are case-insensitive
		size_t last = enc.rfind('-'); for (size_t i = 0; i < enc.size(); ++i) if (i < 4 || i > last) enc[i] = (char)toupper(enc[i]); c.count("upper case"); }
	auto back = vmime::charsetConverter::create(vmime::charset("idna"), vmime::charset("utf-8")); str o2; back->convert(enc, o2, &st);
	VH_EQ(o2, text, "idna-back", "from idna of " + show(enc)); VH_EQ(st.inputBytesRead, enc.size(), "idna-status", show(text)); VH_EQ(st.outputBytesWritten, o2.size(), "idna-status", show(text));
	ChunkIn is2(enc, Chunking::random(r)); RecOut os2; back->convert(is2, os2, &st); VH_EQ(os2.data, text, "idna-back-stream", show(enc));
	c.seen("label", ascii ? "ascii" : "encoded"); if (!ascii) c.nontrivial(text);
}
static void sUnknown(Ctx& c) {
	Rng& r = c.rng; str name = r.from("abcxyz-0189_", 1 + r.below(12)) + "-nope"; c.note(name);
	for (int i = 0; i < 2; ++i) {
		bool thrown = false; str out = "untouched";
		try { vmime::charset::convert("abc\xe9", out, vmime::charset(i ? name : "utf-8"), vmime::charset(i ? "utf-8" : name)); } catch (vmime::exceptions::charset_conv_error&) { thrown = true; }
		VH_CHECK(thrown && out == "untouched", "unknown", "unknown charset " << name << " accepted or output changed: " << show(out));
	}
	c.nontrivial(name);
}

void vh::setup() {
	setRule("a conversion counts when its input has at least two bytes; distinct by charsets and input");
	addAssumption("the C library's iconv is the reference; characters on whose mapping iconv and ICU differ, and default-ignorable characters, are not generated");
	addSuite("exact", 40000, 3000000, sExact);
	addSuite("cuts", 8000, 600000, sCuts);
	addSuite("strict", 40000, 3000000, sStrict);
	addSuite("replace", 40000, 3000000, sReplace);
	addSuite("hostile", 40000, 3000000, sHostile);
	addSuite("idna", 30000, 2000000, sIdna);
	addSuite("unknown", 300, 3000, sUnknown);
}
