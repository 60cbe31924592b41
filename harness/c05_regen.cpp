// C05: parse, generate, parse again: nothing is lost; generating once more gives the same text.
#include "vfields.hpp"
using namespace vh;

static str structure(const vmime::bodyPart& p, bool loose) {
	str r = "("; for (size_t i = 0; i < p.getHeader()->getFieldCount(); ++i) r += p.getHeader()->getFieldAt(i)->getName() + ",";
	if (!loose) for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) r += structure(*p.getBody()->getPartAt(i), loose);
	return r + ")";
}
static void compare(Ctx& c, const vmime::bodyPart& a, const vmime::bodyPart& b, const str& path, bool loose) {
	auto &ha = *a.getHeader(), &hb = *b.getHeader();
	for (size_t i = 0; i < ha.getFieldCount(); ++i) {
		if (loose && !dynamic_cast<const vmime::text*>(&*ha.getFieldAt(i)->getValue())) continue;
		str x = uField(*ha.getFieldAt(i)), y = uField(*hb.getFieldAt(i));
		if (x != y) c.soft("value:" + lower(ha.getFieldAt(i)->getName()), "field " + ha.getFieldAt(i)->getName() + " of part " + path + " was " + x + " now " + y);
		c.count("fields compared");
	}
	auto &ba = *a.getBody(), &bb = *b.getBody();
	if (loose && (ba.getPartCount() || ba.getContentType().getType() == "multipart")) return;
	if (ba.getPartCount() && squeezeWs(ba.getPrologText()) != squeezeWs(bb.getPrologText())) c.soft("prolog", "prolog of " + path + " was " + show(ba.getPrologText()) + " now " + show(bb.getPrologText()));
	if (ba.getPartCount() && squeezeWs(ba.getEpilogText()) != squeezeWs(bb.getEpilogText())) c.soft("epilog", "epilog of " + path + " was " + show(ba.getEpilogText()) + " now " + show(bb.getEpilogText()));
	for (size_t i = 0; i < ba.getPartCount(); ++i) compare(c, *ba.getPartAt(i), *bb.getPartAt(i), path + "." + std::to_string(i), loose);
	if (!ba.getPartCount()) {
		auto dec = [](const vmime::body& b) { try { return decodedContents(*b.getContents()); } catch (const vmime::exception& e) { return excText(e); } };
		str x = dec(ba), y = dec(bb);
		if (x != y) c.soft("contents:" + lower(ba.getEncoding().getName()), "contents of " + path + " were " + show(x) + " now " + show(y));
		c.count("leaves compared");
	}
}
static str gen(const vmime::message& m, const vmime::generationContext& ctx) { str s; vmime::utility::outputStreamStringAdapter o(s); m.generate(ctx, o); return s; }

static void run(Ctx& c, const str& s, bool loose) {
	c.note(s);
	vmime::message m0;
	try { m0.parse(s); } catch (const vmime::exception&) { c.count("not parsed"); return; }
	vmime::generationContext ctx(vmime::generationContext::getDefaultContext());
	ctx.setPrologText(""); ctx.setEpilogText("");
	ctx.setMaxLineLength(c.rng.chance(1, 4) ? vmime::lineLengthLimits::infinite : (size_t)c.rng.range(30, 120));
	str g1;
	try { g1 = gen(m0, ctx); } catch (const vmime::exception& e) { c.count(str("not generated: ") + e.what()); return; }
	vmime::message m1; m1.parse(g1);
	VH_EQ(structure(m1, loose), structure(m0, loose), "structure", "parts and fields after regeneration (generated: " + esc(g1, 1500) + ")");
	compare(c, m0, m1, "0", loose);
	str g2 = gen(m1, ctx);
	vmime::message m2; m2.parse(g2);
	VH_EQ(structure(m2, loose), structure(m0, loose), "structure-2", "parts and fields after the second regeneration (generated: " + esc(g2, 1500) + ")");
	compare(c, m1, m2, "0", loose);
	if (g2 != g1) c.count("second generation differs from the first");
	c.nontrivial(s);
}
static void caseStrict(Ctx& c) { MGen g(c.rng); g.wild = false; if (c.rng.chance(3, 4)) g.nl = "\r\n"; MPart root = g.part(); str s; g.write(root, s); run(c, fields(c.rng, c.rng.below(7)) + s, false); }
static void caseLoose(Ctx& c) { str s = genLooseMessage(c.rng); for (auto& ch : s) if ((unsigned char)ch >= 128) ch = 'y'; for (size_t i; (i = s.find("=?")) != str::npos;) s[i + 1] = '_'; run(c, s, true); }

void vh::setup() {
	setRule("a message counts when it was parsed, generated, and the second parse compared with the first; distinct by its bytes");
	addSuite("strict", 16000, 400000, caseStrict);
	addSuite("loose", 12000, 400000, caseLoose);
}
