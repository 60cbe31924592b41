// C23: the estimated size of a generated component is never below its actual size.
#include "vfields.hpp"
#include "vmime/messageBuilder.hpp"
using namespace vh;

static vmime::generationContext genCtx(Rng& r, str& d) {
	vmime::generationContext ctx(vmime::generationContext::getDefaultContext());
	size_t n = r.chance(1, 5) ? vmime::lineLengthLimits::infinite : r.chance(1, 3) ? 78 : (size_t)r.range(30, 200);
	ctx.setMaxLineLength(n);
	str pro, epi;
	if (r.coin()) pro = r.from("abc d\xe9.", r.size(200));
	if (r.coin()) epi = r.from("abc d.", r.size(200));
	ctx.setPrologText(pro); ctx.setEpilogText(epi);
	auto mode = r.pick(std::vector<vmime::generationContext::EncodedParameterValueModes>{vmime::generationContext::PARAMETER_VALUE_NO_ENCODING, vmime::generationContext::PARAMETER_VALUE_RFC2047_ONLY, vmime::generationContext::PARAMETER_VALUE_RFC2231_ONLY, vmime::generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047});
	ctx.setEncodedParameterValueMode(mode);
	d = "line " + std::to_string(n) + " mode " + std::to_string((int)mode) + " prolog " + esc(pro, 300) + " epilog " + esc(epi, 300) + "\n";
	return ctx;
}
static str gen(vmime::component& m, const vmime::generationContext& ctx, size_t pos = 0) { str s; vmime::utility::outputStreamStringAdapter o(s); m.generate(ctx, o, pos); return s; }

static void judge(Ctx& c, vmime::component& m, const vmime::generationContext& ctx, const str& what) {
	str g; size_t est;
	try { est = m.getGeneratedSize(ctx); } catch (const vmime::exceptions::no_encoder_available&) { throw CaseSkip{"unknown encoding"}; }
	g = gen(m, ctx);
	if (est < g.size()) c.soft(what, what + ": estimated " + std::to_string(est) + " for " + std::to_string(g.size()) + " bytes: " + esc(g, 3000));
	// nor is it meaningless
	if (est > 40 * g.size() + 100000) c.soft(what + "-huge", what + ": estimated " + std::to_string(est) + " for " + std::to_string(g.size()) + " bytes: " + esc(g, 3000));
	c.count("sizes compared"); c.count("bytes generated", g.size());
	c.seen("component", what);
	c.seen("estimate/actual", g.empty() ? "-" : est == g.size() ? "exact" : est < 2 * g.size() ? "<2" : est < 4 * g.size() ? "<4" : ">=4");
}
static str nameOf(const str& s) { return vmime::utility::stringUtils::toLower(s); }
static void judgeAll(Ctx& c, vmime::bodyPart& p, const vmime::generationContext& ctx, bool top) {
	if (!top || c.rng.chance(1, 3)) {
		judge(c, *p.getHeader(), ctx, "header"); judge(c, *p.getBody(), ctx, p.getBody()->getPartCount() ? "body of parts" : "body:" + nameOf(p.getBody()->getContents()->getEncoding().getName()) + ">" + nameOf(p.getBody()->getEncoding().getName()));
		for (size_t i = 0; i < p.getHeader()->getFieldCount(); ++i) judge(c, *p.getHeader()->getFieldAt(i), ctx, "field:" + nameOf(p.getHeader()->getFieldAt(i)->getName()));
	}
	judge(c, p, ctx, top ? "message" : "part");
	for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) judgeAll(c, *p.getBody()->getPartAt(i), ctx, false);
}
// give some parts another encoding than that of their contents
static void reencode(Rng& r, vmime::bodyPart& p) {
	auto b = p.getBody();
	if (!b->getPartCount() && r.chance(1, 3)) b->setEncoding(vmime::encoding(r.pickc({"base64", "quoted-printable", "7bit", "8bit", "binary", "uuencode"})));
	for (size_t i = 0; i < b->getPartCount(); ++i) reencode(r, *b->getPartAt(i));
}
static void parsed(Ctx& c, const str& s) {
	str d; auto ctx = genCtx(c.rng, d);
	c.note(d + s);
	vmime::message m;
	try { m.parse(s); } catch (const vmime::exception&) { c.count("not parsed"); return; }
	if (c.rng.coin()) { c.note(d + "re-encoded: " + s); reencode(c.rng, m); }
	judgeAll(c, m, ctx, true);
	c.nontrivial(d + s);
}
static void caseStrict(Ctx& c) { MGen g(c.rng); g.wild = false; if (c.rng.chance(3, 4)) g.nl = "\r\n"; MPart root = g.part(); str s; g.write(root, s); parsed(c, fields(c.rng, c.rng.below(7)) + s); }
static void caseLoose(Ctx& c) { parsed(c, genLooseMessage(c.rng)); }

static void caseApi(Ctx& c) {
	Rng& r = c.rng;
	str d; auto ctx = genCtx(r, d);
	auto m = make_shared<vmime::message>();
	auto h = m->getHeader();
	if (r.coin()) h->Subject()->setValue(apiText(r));
	if (r.coin()) h->From()->setValue(apiMailbox(r));
	if (r.coin()) { auto l = make_shared<vmime::addressList>(); for (size_t n = r.size(30); n-- > 0;) l->appendAddress(apiMailbox(r)); h->To()->setValue(l); }
	if (r.coin()) { auto f = h->ContentDisposition(); f->setValue(vmime::contentDisposition("attachment")); auto p = vmime::dynamicCast<vmime::parameterizedHeaderField>(f); for (size_t n = r.below(4); n-- > 0;) p->appendParameter(make_shared<vmime::parameter>("n" + r.from("abcdefgh-", r.below(60)) + std::to_string(n), vmime::word(genUni(r, r.size(300), 5), vmime::charset("utf-8")))); }
	auto fill = [&](vmime::bodyPart& p) {
		str data = genHostileBody(r); if (r.chance(1, 3)) data = r.bytes(r.size(3000));
		static const std::vector<const char*> encs{"base64", "quoted-printable", "7bit", "8bit", "binary", "uuencode"};
		vmime::encoding e(encs[r.below(encs.size())]), own = r.coin() ? vmime::encoding("binary") : e;
		str stored = data;
		if (own.getName() != "binary") { auto enc = own.getEncoder(); vmime::utility::inputStreamStringAdapter is(data); stored.clear(); vmime::utility::outputStreamStringAdapter os(stored); enc->encode(is, os); }
		p.getBody()->setContents(make_shared<vmime::stringContentHandler>(stored, own), vmime::mediaType(r.pickc({"application/octet-stream", "text/plain"})), vmime::charset("utf-8"), e);
		d += "contents " + own.getName() + "->" + e.getName() + " " + esc(data, 800) + "\n";
	};
	size_t parts = r.below(5);
	if (parts == 0) fill(*m);
	else {
		if (r.coin()) m->getBody()->setContentType(vmime::mediaType("multipart/mixed"));
		if (r.coin()) { m->getBody()->setPrologText(r.from("abc d", r.size(300))); m->getBody()->setEpilogText(r.from("abc d", r.size(300))); }
		while (parts-- > 0) { auto p = make_shared<vmime::bodyPart>(); fill(*p); m->getBody()->appendPart(p); }
	}
	c.note(d);
	judgeAll(c, *m, ctx, true);
	c.nontrivial(d + gen(*m, ctx));
}
static void caseParam(Ctx& c) {
	Rng& r = c.rng;
	str d; auto ctx = genCtx(r, d);
	str v; for (size_t n = r.chance(1, 4) ? r.size(500) : r.below(60); n-- > 0;) { if (r.chance(1, 4)) v += r.pickc({" ", "\"", "\\", "=?", "'", "%", "\xc3\xa9", "\xe2\x82\xac", "\n", ";"}); else v += (char)r.range('a', 'z'); }
	vmime::parameter p("n" + r.from("abcdefgh-", r.below(90)), vmime::word(v, vmime::charset(r.pickc({"utf-8", "us-ascii", "iso-8859-1", "x-some-rather-long-name-of-a-character-set"})), r.chance(1, 6) ? "en" : ""));
	size_t pos = r.below(120);
	d += "position " + std::to_string(pos) + " " + p.getName() + "=" + esc(v, 1000); c.note(d);
	size_t est = p.getGeneratedSize(ctx); str g = gen(p, ctx, pos);
	VH_CHECK(est >= g.size(), "parameter", "estimated " << est << " for " << g.size() << " bytes: " << esc(g, 3000));
	c.count("sizes compared"); c.nontrivial(d);
}
void vh::setup() {
	setRule("For random messages - parsed from well-formed and malformed text, re-encoded, or built through the API - and random contexts (line lengths, parameter modes, prolog and epilog), getGeneratedSize() of the message, its parts, bodies, headers and fields is compared with the number of bytes generate() writes. A case counts when at least one comparison was made; distinct by input and settings.");
	addSuite("strict", 12000, 300000, caseStrict);
	addSuite("loose", 8000, 200000, caseLoose);
	addSuite("api", 8000, 200000, caseApi);
	addSuite("param", 20000, 500000, caseParam);
}
