// C09: addresses, groups and lists survive generate and parse; conforming lists parse to what they denote.
#include "vwrite.hpp"
using namespace vh;
using namespace vmime;

static shared_ptr<addressList> parseList(const str& s, size_t before, size_t after) {
	auto l = make_shared<addressList>();
	if (before || after) { str t = str(before, 'x') + s + str(after, '"'); l->parse(t, before, before + s.size(), NULL); } else l->parse(s);
	return l;
}
// every component of a list read again equals what was read from the whole
static void caseRead(Ctx& c) {
	W w = wAddressList(c.rng);
	c.note(w.wire);
	auto l = parseList(w.wire, c.rng.chance(1, 4) ? c.rng.below(9) : 0, c.rng.chance(1, 4) ? c.rng.below(4) : 0);
	VH_EQ(uValue(*l), w.meaning, "read", "address list " + esc(w.wire, 2000));
	size_t mb = 0; for (size_t i = 0; i < l->getAddressCount(); ++i) mb += l->getAddressAt(i)->isGroup() ? vmime::dynamicCast<mailboxGroup>(l->getAddressAt(i))->getMailboxCount() : 1;
	c.count("addresses read", mb);
	// through a header field
	header h; h.parse("To: " + w.wire + "\r\n");
	VH_EQ(uValue(*h.To()->getValue()), w.meaning, "read-field", "field with " + esc(w.wire, 2000));
	// generated again
	generationContext ctx; ctx.setMaxLineLength(c.rng.chance(1, 5) ? lineLengthLimits::infinite : (size_t)c.rng.range(40, 130));
	str g; utility::outputStreamStringAdapter o(g); h.generate(ctx, o);
	header h2; h2.parse(g);
	VH_EQ(uValue(*h2.To()->getValue()), w.meaning, "regenerate", "generated " + esc(g, 2000) + " from " + esc(w.wire, 1000));
	c.nontrivial(w.wire);
}
static void caseMailbox(Ctx& c) {
	W w = wMailbox(c.rng);
	c.note(w.wire);
	mailbox m; m.parse(w.wire);
	VH_EQ(uAddr(m), w.meaning, "read-mailbox", "mailbox " + esc(w.wire, 2000));
	header h; h.parse("From: " + w.wire + "\r\n");
	VH_EQ(uValue(*h.From()->getValue()), w.meaning, "read-mailbox-field", "From: " + esc(w.wire, 2000));
	W l = wLocal(c.rng), d = wDomain(c.rng);
	emailAddress e(l.wire + "@" + d.wire);
	VH_EQ(uWord(e.getLocalName()) + "@" + uWord(e.getDomainName()), l.meaning + "@" + d.meaning, "read-email", "address " + l.wire + "@" + d.wire);
	VH_EQ(uWord(emailAddress(e.toString()).getLocalName()), l.meaning, "email-toString", "local part through toString of " + l.wire);
	VH_EQ(e.toString().substr(e.toString().rfind('@') + 1), d.wire, "email-idna", "domain in generated form");
	c.nontrivial(w.wire);
}

static text genName(Rng& r, str& meaning) {
	text t; meaning.clear(); bool first = true;
	for (size_t n = 1 + r.below(3); n-- > 0;) {
		str s, cs = r.coin() ? "us-ascii" : "utf-8";
		size_t len = r.chance(1, 6) ? r.size(200) : 1 + r.below(20);
		if (cs == "us-ascii") for (size_t i = 0; i < len; ++i) s += r.chance(1, 3) ? (char)r.range(0x20, 0x7e) : r.chance(1, 6) ? ' ' : (char)r.range('a', 'z');
		else s = genUni(r, len);
		s = squeezeWs(s); if (s.empty()) s = "n";
		// words are joined with a space, so that the joints mean the same in any encoding
		if (!first) s = " " + s;
		first = false;
		t.appendWord(make_shared<word>(s, charset(cs))); meaning += s;
		if (r.chance(3, 4)) break;
	}
	meaning = squeezeWs(meaning);
	return t;
}
static emailAddress genEmail(Rng& r, str& meaning) {
	W l = wLocal(r), d = wDomain(r);
	if (r.chance(1, 6)) { std::vector<uint32_t> v; for (size_t n = 1 + r.below(8); n-- > 0;) v.push_back((uint32_t)r.range(0x430, 0x44F)); l.meaning = toUtf8(v); }
	meaning = l.meaning + "@" + d.meaning;
	return emailAddress(word(l.meaning, charset("utf-8")), word(d.meaning, charset("utf-8")));
}
static shared_ptr<mailbox> genMbox(Rng& r, str& meaning) {
	str e, n; emailAddress a = genEmail(r, e);
	if (r.chance(1, 4)) { meaning = "mbox(\"\"<" + e + ">)"; return make_shared<mailbox>(a); }
	text t = genName(r, n); meaning = "mbox(" + q(n) + "<" + e + ">)";
	return make_shared<mailbox>(t, a);
}
static void caseWrite(Ctx& c) {
	addressList l; str m = "addrs(";
	for (size_t n = 1 + c.rng.below(6); n-- > 0;) {
		str x;
		if (c.rng.chance(1, 4)) {
			str gn; auto g = make_shared<mailboxGroup>(genName(c.rng, gn)); m += "group(" + q(gn) + ":";
			for (size_t k = c.rng.below(4); k-- > 0;) { g->appendMailbox(genMbox(c.rng, x)); m += x + ","; }
			m += ");"; l.appendAddress(g);
		} else { l.appendAddress(genMbox(c.rng, x)); m += x + ";"; }
	}
	m += ")";
	c.note(m);
	VH_EQ(uValue(l), m, "model", "the list as built");
	generationContext ctx; ctx.setMaxLineLength(c.rng.chance(1, 5) ? lineLengthLimits::infinite : (size_t)c.rng.range(30, 130));
	bool eai = c.rng.chance(1, 4); ctx.setInternationalizedEmailSupport(eai);
	parsingContext pc; pc.setInternationalizedEmailSupport(eai);
	str g; { utility::outputStreamStringAdapter o(g); l.generate(ctx, o, (size_t)c.rng.below(20), NULL); }
	addressList l2; l2.parse(pc, g);
	VH_EQ(uValue(l2), m, "write", "list generated as " + esc(g, 3000));
	mailboxList mb; str mm = "mboxes(", x;
	for (size_t n = 1 + c.rng.below(4); n-- > 0;) { mb.appendMailbox(genMbox(c.rng, x)); mm += x + ";"; }
	str g2; { utility::outputStreamStringAdapter o(g2); mb.generate(ctx, o); }
	mailboxList mb2; mb2.parse(pc, g2);
	VH_EQ(uValue(mb2), mm + ")", "write-mailboxes", "mailbox list generated as " + esc(g2, 3000));
	c.nontrivial(g);
}

void vh::setup() {
	setRule("a list counts when it was written by the independent writer or built through the API, and its meaning compared after parsing; distinct by its text");
	addSuite("read", 60000, 3000000, caseRead);
	addSuite("mailbox", 40000, 2000000, caseMailbox);
	addSuite("write", 40000, 2000000, caseWrite);
}
