// C01: the parsers on arbitrary bytes, under ASan+UBSan, with exception and time monitors.
#include "vkinds.hpp"
#include <sys/resource.h>
using namespace vh;

// everything a user may do with what was parsed
static size_t touch(Ctx& c, vmime::component& comp, int depth = 0) {
	size_t n = 1;
	(void)dumpValue(comp);
	auto kids = comp.getChildComponents();
	for (auto& k : kids) if (k && depth < 400) n += touch(c, *k, depth + 1);
	return n;
}

template <class F> static bool guarded(Ctx& c, const char* what, F f) {
	try { f(); return true; }
	catch (const vmime::exception& e) { c.count(str("exception in ") + what); c.seen("exception", e.name()); return false; }
	catch (const CaseFail&) { throw; }
	catch (const std::exception& e) { fail(str("undocumented-exception:") + what, str(typeid(e).name()) + ": " + e.what()); }
}

static void useComponent(Ctx& c, vmime::component& comp) {
	guarded(c, "touch", [&] { c.count("components read back", touch(c, comp)); });
	guarded(c, "size", [&] { (void)comp.getGeneratedSize(vmime::generationContext::getDefaultContext()); });
	static const size_t lens[] = {0, 1, 5, 20, 78, 998, (size_t)-1};
	guarded(c, "generate", [&] { (void)comp.generate(); });
	guarded(c, "generate", [&] { (void)comp.generate(lens[c.rng.below(7)], c.rng.below(100)); });
	guarded(c, "generate-i18n", [&] {
		vmime::generationContext g; g.setInternationalizedEmailSupport(true); g.setMaxLineLength(20 + c.rng.below(80));
		g.setEncodedParameterValueMode((vmime::generationContext::EncodedParameterValueModes)c.rng.below(4));
		str o; vmime::utility::outputStreamStringAdapter os(o); comp.generate(g, os);
	});
	guarded(c, "clone", [&] {
		compP k = vmime::clone(shared_ptr<vmime::component>(&comp, [](vmime::component*) {}));
		str a, b;
		bool ok1 = guarded(c, "generate", [&] { a = comp.generate(); }), ok2 = guarded(c, "generate", [&] { b = k->generate(); });
		if (ok1 && ok2) { c.count("clones generated"); }
	});
}

static void textOps(Ctx& c, const str& s) {
	guarded(c, "decodeAndUnfold", [&] {
		auto t = vmime::text::decodeAndUnfold(s);
		(void)textU(*t); (void)t->getWholeBuffer();
		for (auto& w : t->getWordList()) { try { (void)w->getConvertedText(vmime::charset("utf-8")); } catch (const vmime::exception&) {} }
	});
	if (c.rng.chance(1, 4)) guarded(c, "decodeAndUnfold-i18n", [&] { vmime::parsingContext pc; pc.setInternationalizedEmailSupport(true); (void)vmime::text::decodeAndUnfold(pc, s); });
}

static void caseComponent(Ctx& c) {
	const Kind& k = kinds()[c.idx % kinds().size()];
	str s = c.rng.chance(1, 10) ? c.rng.bytes(c.rng.size(200)) : k.gen(c.rng);
	if (c.rng.chance(7, 8)) s = mutate(c.rng, s);
	c.note(str(k.name) + " " + s);
	compP comp = k.make();
	size_t mode = c.rng.below(5);
	bool ok = false;
	if (mode == 0 || !s.size()) ok = guarded(c, "parse", [&] { comp->parse(s); });
	else if (mode == 1) {   // in the middle of a larger buffer
		str pre = c.rng.pick(dictionary()), post = c.rng.pick(dictionary());
		str buf = pre + s + post; size_t np = 0;
		ok = guarded(c, "parse-range", [&] { comp->parse(buf, pre.size(), pre.size() + s.size(), &np); });
	} else if (mode == 2) { // from a stream
		Chunking ch = Chunking::random(c.rng);
		ok = guarded(c, "parse-stream", [&] { if (c.rng.coin()) comp->parse(make_shared<ChunkIn>(s, ch), s.size()); else comp->parse(make_shared<SeekIn>(s, ch), s.size()); });
	} else if (mode == 3) { // internationalised
		vmime::parsingContext pc; pc.setInternationalizedEmailSupport(true);
		ok = guarded(c, "parse-i18n", [&] { comp->parse(pc, s); });
	} else {                // parse over an old value
		str s0 = mutate(c.rng, k.gen(c.rng));
		guarded(c, "parse", [&] { comp->parse(s0); });
		ok = guarded(c, "parse", [&] { comp->parse(s); });
	}
	c.seen("parsed kinds", k.name);
	if (ok) { useComponent(c, *comp); c.nontrivial(s); c.count("parsed components"); }
	textOps(c, s);
}

static void useMessage(Ctx& c, vmime::message& m) {
	guarded(c, "dump", [&] { c.seen("message structures", dumpPart(m)); });
	guarded(c, "generate", [&] {
		str g = m.generate();
		vmime::message m2;
		m2.parse(g);
		(void)dumpPart(m2);
	});
	guarded(c, "parser", [&] {
		vmime::messageParser mp(vmime::shared_ptr<vmime::message>(&m, [](vmime::message*) {}));
		for (size_t i = 0; i < mp.getAttachmentCount(); ++i) { auto a = mp.getAttachmentAt(i); (void)a->getType(); (void)a->getName(); (void)a->getDescription(); (void)decodedContents(*a->getData()); }
		for (size_t i = 0; i < mp.getTextPartCount(); ++i) { auto t = mp.getTextPartAt(i); (void)decodedContents(*t->getText()); }
		c.count("attachments seen", mp.getAttachmentCount());
	});
}

static void caseMessage(Ctx& c) {
	str s = genLooseMessage(c.rng);
	if (c.rng.chance(2, 3)) s = mutate(c.rng, s);
	c.note(s);
	vmime::message m;
	bool ok;
	if (c.rng.coin()) ok = guarded(c, "parse", [&] { m.parse(s); });
	else {
		Chunking ch = Chunking::random(c.rng);
		ok = guarded(c, "parse-stream", [&] { if (c.rng.coin()) m.parse(make_shared<ChunkIn>(s, ch), s.size()); else m.parse(make_shared<SeekIn>(s, ch), s.size()); });
	}
	if (ok) { useMessage(c, m); c.nontrivial(s); c.count("parsed messages"); guarded(c, "clone", [&] { useComponent(c, m); }); }
}

// large and deeply nested inputs: CPU budget and stack
static void caseBig(Ctx& c) {
	size_t n = c.thorough ? 120000 : 60000;
	str s; size_t fam = c.idx % 26;
	auto rep = [&](const str& u) { str t; while (t.size() < n) t += u; return t; };
	str hdr = "Content-Type: multipart/mixed; boundary=b\r\n\r\n";
	switch (fam) {
		case 0: s = rep("Content-Type: multipart/mixed; boundary=X\r\n\r\n--X\r\n"); break;
		case 1: s = rep("Content-Type: multipart/x\r\n\r\n--b\r\n"); break;
		case 2: { for (int i = 0; s.size() < n; ++i) s += "Content-Type: multipart/x; boundary=b" + std::to_string(i) + "\r\n\r\n--b" + std::to_string(i) + "\r\n"; break; }
		case 3: s = hdr + rep("--b\r\n"); break;
		case 4: s = hdr + rep("--b x\r\n"); break;
		case 5: s = "To: " + rep("a@b, "); break;
		case 6: s = "To: " + rep("("); break;
		case 7: s = "To: " + rep("\"") ; break;
		case 8: s = "To: " + rep("g:"); break;
		case 9: s = "Subject: " + rep("=?utf-8?B?w6"); break;
		case 10: s = "Subject: " + rep("=?utf-8?Q?=C3?= "); break;
		case 11: s = "Subject: " + rep("=?utf-8?B?w6k=?= "); break;
		case 12: s = "Date: " + rep("(") ; break;
		case 13: s = "Content-Type: text/plain" + rep("; a=b"); break;
		case 14: s = "Content-Type: text/plain" + rep("; a*0*=b"); break;
		case 15: s = "References: " + rep("<a@b> "); break;
		case 16: s = "Received: " + rep("from a ("); break;
		case 17: s = rep("a:\r\n"); break;
		case 18: s = rep(" \r\n"); break;
		case 19: s = rep("\r\n ") ; break;
		case 20: s = "To: " + rep("<"); break;
		case 21: s = "To: " + rep("a ") + "<x@y>"; break;
		case 22: s = "Subject: " + rep("=?"); break;
		case 23: s = rep("Content-Type: message/rfc822\r\n\r\n"); break;
		case 24: s = "To: " + rep("=?utf-8?Q?a?= <a@b>, "); break;
		case 25: s = hdr + rep("--b\r\nContent-Type: multipart/x; boundary=zz\r\n\r\n"); break;
	}
	if (c.idx >= 26) { s = mutate(c.rng, s, 3); for (int i = 0; i < 4; ++i) s.insert(c.rng.below(s.size()), genLooseMessage(c.rng)); }
	c.note("family " + std::to_string(fam));
	{ vmime::message m; if (guarded(c, "parse", [&] { m.parse(s); })) { useMessage(c, m); guarded(c, "clone", [&] { compP k = m.clone(); }); } }
	if (fam >= 5 && fam <= 24) {
		size_t col = s.find(": "); str v = col == str::npos || col > 40 ? s : s.substr(col + 2);
		for (auto& k : kinds()) { if (str(k.name) == "header") continue; if (c.rng.chance(1, 3)) { compP p = k.make(); c.note(k.name); guarded(c, "parse", [&] { p->parse(v); }); guarded(c, "generate", [&] { (void)p->generate(); }); } }
		textOps(c, v);
	}
	c.nontrivial(s); c.count("bytes in large inputs", s.size());
}

void vh::setup() {
	setRule("an input counts when it parsed and was read back; distinct by its bytes");
	addAssumption("red zones: a read or write that stays inside another live allocation is not seen");
	addAssumption("inputs are at most some 60 kB (quick) or 120 kB (thorough)");
	addSuite("component", 60000, 1500000, caseComponent, 20);
	addSuite("message", 16000, 400000, caseMessage, 20);
	addSuite("big", 52, 520, caseBig, 40);
}
