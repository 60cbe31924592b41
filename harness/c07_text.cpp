// C07: text in any language survives header encoding and decoding; encoded words are valid on their own.
#include "vref.hpp"
using namespace vh;

static void caseRead(Ctx& c) {
	W w = wText(c.rng);
	c.note(w.wire);
	auto t = vmime::text::decodeAndUnfold(w.wire);
	VH_EQ(uText(*t), w.meaning, "read", "text " + esc(w.wire, 2000));
	str pad = c.rng.coin() ? "" : c.rng.pickc({"x", "=?", "yy\r\n", " "});
	vmime::text t2; t2.parse(pad + w.wire + "?=z", pad.size(), pad.size() + w.wire.size());
	VH_EQ(uText(t2), w.meaning, "read-inside", "text inside a larger buffer " + esc(w.wire, 2000));
	vmime::header h; h.parse("Subject: " + w.wire + "\r\nX-Other: z\r\n");
	VH_EQ(uValue(*h.Subject()->getValue()), "text(" + q(w.meaning) + ")", "read-field", "Subject " + esc(w.wire, 2000));
	c.nontrivial(w.wire);
}

struct CsSet { const char* name; const char* chars; };
static const std::vector<CsSet> multi = {
	{"iso-2022-jp", "日本語東京都山田太郎文字あいうえおアイウエオ"}, {"shift_jis", "日本語東京都山田太郎文字あいうえおアイウエオ"}, {"euc-jp", "日本語東京都山田太郎文字あいうえおアイウエオ"},
	{"gb2312", "中国人大小上下左右文字"}, {"gbk", "中国人大小上下左右文字"}, {"big5", "中國人大小上下左右文字"}, {"euc-kr", "한국어서울문자"}, {"gb18030", "中国人大小上下左右文字"},
	{"koi8-r", "абвгдежзийклмнопрстуфхцчшщ"}, {"windows-1251", "абвгдежзийклмноп"}, {"iso-8859-1", "éèàçüöñßÅØ"}, {"iso-8859-2", "ąćęłńóśźż"}, {"iso-8859-15", "éèàç€"}, {"windows-1252", "éè€—“”"}, {"us-ascii", ""}, {"utf-8", "éжλ日本😀€한"},
};
static const std::vector<std::vector<uint32_t>>& multiChars() { static std::vector<std::vector<uint32_t>> v; if (v.empty()) for (auto& m : multi) { std::vector<uint32_t> x; fromUtf8(m.chars, x); v.push_back(x); } return v; }

static str wordText(Rng& r, str& cs) {
	size_t n = r.chance(1, 6) ? r.size(400) : r.size(40); str s; if (!n) n = 1;
	unsigned ascii = (unsigned)r.below(5), sp = (unsigned)r.below(4);
	if (r.coin()) {
		cs = r.pickc({"utf-8", "utf-8", "UTF-8"}); bool pureAscii = r.chance(1, 4);
		for (size_t i = 0; i < n; ++i) { if (sp && r.chance(1, 3 + 3 * sp)) s += ' '; else if (pureAscii || r.chance(ascii, 5)) s += (char)(r.chance(1, 5) ? r.range(0x21, 0x7e) : r.range('a', 'z')); else putUtf8(s, genChar(r)); }
		return s;
	}
	size_t k = r.below(multi.size()); cs = multi[k].name; auto& v = multiChars()[k];
	for (size_t i = 0; i < n; ++i) { if (sp && r.chance(1, 3 + 3 * sp)) s += ' '; else if (v.empty() || r.chance(ascii, 5)) { char ch = (char)(r.chance(1, 5) ? r.range(0x21, 0x7d) : r.range('a', 'z')); s += ch == '\\' ? 'b' : ch; } else putUtf8(s, r.pick(v)); }
	return s;
}
static void checkWire(Ctx& c, const str& wire, const str& expect, const str& how, bool exactWords = true) {
	for (size_t i = 0; i < wire.size(); ++i) {
		unsigned char ch = (unsigned char)wire[i];
		if (ch == '\r') { VH_CHECK(i + 2 < wire.size() && wire[i + 1] == '\n' && (wire[i + 2] == ' ' || wire[i + 2] == '\t'), "fold", "line break not followed by white space in " << esc(wire, 3000)); ++i; continue; }
		VH_CHECK(ch != '\n' && ch < 127 && (ch >= 32 || ch == '\t'), "7bit", "character " << (int)ch << " at " << i << " in " << esc(wire, 3000));
	}
	str bad; size_t words = 0; str dec = refDecodeText(wire, bad, &words);
	if (!bad.empty()) c.soft("encoded-word:" + bad.substr(0, bad.find(':')), how + ": " + bad);
	VH_EQ(squeezeWs(dec), squeezeWs(expect), "decode", how + " generated as " + esc(wire, 3000) + " and decoded by the reference");
	c.count("encoded words checked", words);
	auto t = vmime::text::decodeAndUnfold(wire);
	VH_EQ(uText(*t), squeezeWs(expect), "round-trip", how + " generated as " + esc(wire, 3000) + " and parsed");
}
static vmime::generationContext genCtx(Rng& r, size_t& col) {
	vmime::generationContext ctx; ctx.setMaxLineLength(r.chance(1, 6) ? vmime::lineLengthLimits::infinite : r.chance(1, 3) ? 78 : (size_t)r.range(20, 200));
	col = r.coin() ? 0 : (size_t)r.below(110);
	return ctx;
}
static void caseWrite(Ctx& c) {
	vmime::text t; str expect, d;
	size_t n = 1 + c.rng.below(4);
	for (size_t i = 0; i < n; ++i) {
		str cs, s = wordText(c.rng, cs), raw;
		if (i && c.rng.chance(2, 3)) s = " " + s;
		if (!refConvert(s, "UTF-8", cs, raw)) throw CaseSkip{"not representable in " + cs};
		str lang = c.rng.chance(1, 10) ? c.rng.pickc({"en", "fr", "x-klingon"}) : "";
		t.appendWord(make_shared<vmime::word>(raw, vmime::charset(cs), lang));
		expect += s; d += cs + ":" + esc(s, 2000) + "|"; c.seen("charset", lower(cs));
	}
	size_t col; auto ctx = genCtx(c.rng, col); int flags = c.rng.chance(1, 4) ? vmime::text::FORCE_ENCODING : 0;
	d += " line " + std::to_string(ctx.getMaxLineLength()) + " col " + std::to_string(col) + (flags ? " forced" : "");
	c.note(d);
	VH_EQ(textU(t), expect, "convert", "Unicode form of the words " + d);
	str g; { vmime::utility::outputStreamStringAdapter o(g); size_t last = 0; t.encodeAndFold(ctx, o, col, &last, flags); }
	checkWire(c, g, expect, d);
	c.nontrivial(d);
}
static void caseString(Ctx& c) {
	str cs, s = wordText(c.rng, cs), raw;
	if (!refConvert(s, "UTF-8", cs, raw)) throw CaseSkip{"not representable in " + cs};
	auto t = vmime::text::newFromString(raw, vmime::charset(cs));
	size_t col; auto ctx = genCtx(c.rng, col); str d = cs + ":" + esc(s, 3000) + " line " + std::to_string(ctx.getMaxLineLength()) + " col " + std::to_string(col);
	c.note(d);
	VH_EQ(textU(*t), s, "string", "text made from the string " + d);
	str g; { vmime::utility::outputStreamStringAdapter o(g); t->encodeAndFold(ctx, o, col, nullptr, 0); }
	checkWire(c, g, s, d);
	auto f = vmime::headerFieldFactory::getInstance()->create("Subject"); f->setValue(*t);
	str hf; { vmime::utility::outputStreamStringAdapter o(hf); f->generate(ctx, o); }
	checkWire(c, hf.substr(8), s, "Subject " + d);
	vmime::word w(raw, vmime::charset(cs)); str wg; { vmime::utility::outputStreamStringAdapter o(wg); w.generate(ctx, o, col, nullptr, vmime::text::FORCE_ENCODING, nullptr); }
	checkWire(c, wg, s, "single word " + d);
	c.nontrivial(d);
}

void vh::setup() {
	setRule("a text counts when it was decoded and compared with its meaning; distinct by text, charsets, line length and column");
	addSuite("read", 40000, 3000000, caseRead);
	addSuite("write", 24000, 1500000, caseWrite);
	addSuite("string", 16000, 1000000, caseString);
}
