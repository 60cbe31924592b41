// C24: what is parsed depends on the bytes of the range only - not on what surrounds it, on what the object held before, or on what else was parsed.
#include "vkinds.hpp"
using namespace vh;

static void offsets(vmime::component& k, size_t base, str& o, int depth = 0) {
	o += " "; if (k.getParsedLength()) o += std::to_string((long)k.getParsedOffset() - (long)base) + "+"; o += std::to_string(k.getParsedLength());
	if (depth > 60) return; auto l = k.getChildComponents(); if (!l.empty()) { o += "("; for (auto& x : l) if (x) offsets(*x, base, o, depth + 1); o += ")"; }
}
static str dumpAny(const vmime::component& k) {
	if (auto* h = dynamic_cast<const vmime::header*>(&k)) return dumpHeader(*h);
	if (auto* f = dynamic_cast<const vmime::headerField*>(&k)) return dumpField(*f);
	if (auto* p = dynamic_cast<const vmime::bodyPart*>(&k)) return dumpPart(*p);
	return dumpValue(k);
}
struct Seen { str value, text, where, exc; bool operator==(const Seen& o) const { return value == o.value && text == o.text && where == o.where && exc == o.exc; } };
template <class F> static Seen look(vmime::component& k, size_t base, F parse, const vmime::generationContext& g) {
	Seen s; try { parse(); } catch (const vmime::exception& e) { s.exc = e.name(); return s; }
	s.value = dumpAny(k); offsets(k, base, s.where);
	try { vmime::utility::outputStreamStringAdapter os(s.text); k.generate(g, os); } catch (const vmime::exception& e) { s.exc = str("generate ") + e.name(); }
	return s;
}
static void same(const Seen& a, const Seen& b, const str& key, const str& what) {
	VH_EQ(b.exc, a.exc, key, what + ": exception"); VH_EQ(b.value, a.value, key, what + ": value"); VH_EQ(b.text, a.text, key + "-text", what + ": generated again"); VH_EQ(b.where, a.where, key + "-offsets", what + ": offsets");
}
static str around(Rng& r, bool before) {
	static const std::vector<str> b = {"", "\r\n", "\n", "\r", " ", "\t", "x", "x: ", "(", "\"", "\\", "<", ",", ";", "=?utf-8?Q?", "=?utf-8?B?", "=", "--", "\r\n--b", "\r\n--", "a@b, ", "\r\n\r\n", "a:\r\n", "?", "From: "};
	static const std::vector<str> e = {"", "\r\n", "\n", " ", "\t", "\r\n x", "\n\ty", "x", "?=", "=", ")", "\"", ">", ",", ";", "@x", " =?utf-8?Q?a?=", "=?utf-8?B?w6k=?=", "--", "--\r\n", "\r\n--b--", "\r\n--b", "0", "9", "; a=b", "*=x", "\r\n\r\n", ":", "\r\n: x"};
	str s = r.pick(before ? b : e); if (r.chance(1, 4)) { str t = r.chance(1, 2) ? r.pick(dictionary()) : r.bytes(r.below(30)); s = before ? t + s : s + t; } return s;
}
static vmime::generationContext context(Rng& r) { vmime::generationContext g; if (r.coin()) g.setMaxLineLength((size_t)r.pick(std::vector<int>{0, 40, 78, 500})); if (r.chance(1, 4)) g.setInternationalizedEmailSupport(true); return g; }
static void compare(Ctx& c, const str& name, const std::function<compP()>& make, const str& s, const std::vector<str>& others) {
	Rng& r = c.rng; vmime::parsingContext pc; if (r.chance(1, 4)) pc.setInternationalizedEmailSupport(true); auto g = context(r);
	compP fresh = make(); Seen want = look(*fresh, 0, [&] { fresh->parse(pc, s, 0, s.size()); }, g);
	{ str pre = around(r, true), post = around(r, false), buf = pre + s + post; c.note("between " + q(pre) + " and " + q(post)); compP k = make(); size_t np = (size_t)-1; Seen got = look(*k, pre.size(), [&] { k->parse(pc, buf, pre.size(), pre.size() + s.size(), &np); }, g); same(want, got, "surroundings:" + name, show(s) + " between " + show(pre) + " and " + show(post)); c.count("surroundings"); }
	for (auto& o : others) { c.note("after " + q(o.substr(0, 2000))); compP k = make(); try { k->parse(pc, o, 0, o.size()); } catch (const vmime::exception&) {} if (r.coin()) { str t; try { t = k->generate(); } catch (const vmime::exception&) {} } Seen got = look(*k, 0, [&] { k->parse(pc, s, 0, s.size()); }, g); same(want, got, "reused:" + name, show(s) + " parsed into an object that held " + show(o)); c.count("objects used before"); }
	{ compP k = make(); Seen got = look(*k, 0, [&] { k->parse(pc, s, 0, s.size()); }, g); same(want, got, "repeated:" + name, show(s)); }
	if (want.exc.empty()) { c.nontrivial(name + want.value + want.where); c.seen("kinds", name); } else c.count("refused");
}
static void component(Ctx& c) {
	const Kind& k = kinds()[c.idx % kinds().size()]; Rng& r = c.rng; auto text = [&] { str s = r.chance(1, 12) ? r.bytes(r.size(100)) : k.gen(r); return r.coin() ? mutate(r, s) : s; };
	str s = text(); c.note(str(k.name) + " " + s); compare(c, k.name, k.make, s, {text(), k.gen(r)});
}
static void message(Ctx& c) {
	Rng& r = c.rng; auto text = [&] { str s = genLooseMessage(r); return r.coin() ? mutate(r, s) : s; };
	str s = text(); c.note(s); int kind = (int)r.below(2);
	compare(c, kind == 0 ? "message" : "bodyPart", [kind]() -> compP { if (kind == 0) return make_shared<vmime::message>(); return make_shared<vmime::bodyPart>(); }, s, {text()});
}
void vh::setup() {
	setRule("Every kind of component (words to messages) is parsed from well-formed, mutated and random text into a new object, and again from the same bytes between other bytes, into objects that held other values, and a second time: value, offsets inside the range, exception and the text generated again must be equal. A case counts when the text was accepted.");
	addSuite("component", 60000, 1500000, component); addSuite("message", 8000, 200000, message);
}
