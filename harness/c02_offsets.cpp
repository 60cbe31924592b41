// C02: offsets recorded by the parser, against a model that knows where everything was written,
// and (for any input) against the nesting rules.
#include "vmodel.hpp"
using namespace vh;

static str at(const vmime::component& c) { return "[" + std::to_string(c.getParsedOffset()) + "," + std::to_string(c.getParsedOffset() + c.getParsedLength()) + ")"; }
static void eqRange(const vmime::component& c, size_t a, size_t b, const str& what) {
	VH_CHECK(c.getParsedOffset() == a && c.getParsedOffset() + c.getParsedLength() == b, "range:" + what, what << " at " << at(c) << " expected [" << a << "," << b << ")");
}

static void strictPart(Ctx& c, const vmime::bodyPart& p, const MPart& m, const str& buf, size_t d, const str& path) {
	eqRange(p, m.start + d, m.end + d, "part");
	const vmime::header& h = *p.getHeader();
	if (m.bodyStart != m.start) eqRange(h, m.start + d, m.bodyStart + d, "header");
	VH_EQ(h.getFieldCount(), m.fields.size(), "field-count", "fields of part " + path);
	for (size_t i = 0; i < m.fields.size(); ++i) {
		auto f = h.getFieldAt(i);
		eqRange(*f, m.fields[i].start + d, m.fields[i].end + d, "field");
		VH_EQ(f->getName(), m.fields[i].name, "field-name", "name");
		auto v = f->getValue();
		size_t vs = v->getParsedOffset(), ve = vs + v->getParsedLength();
		VH_CHECK(vs >= m.fields[i].start + d && ve <= m.fields[i].end + d, "value-outside-field", f->getName() << " value " << at(*v) << " field " << at(*f));
		if (auto t = vmime::dynamicCast<const vmime::text>(v)) {
			VH_EQ(t->getWholeBuffer(), m.fields[i].unfolded, "field-value", "value of " + f->getName());
			size_t vo = m.fields[i].start + d + m.fields[i].name.size() + 2;
			eqRange(*v, vo, vo + m.fields[i].value.size(), "text-value");
			c.count("text values located");
		}
	}
	c.count("fields located", m.fields.size());
	const vmime::body& b = *p.getBody();
	eqRange(b, m.bodyStart + d, m.end + d, "body");
	VH_EQ(b.getPartCount(), m.parts.size(), "part-count", "parts of " + path);
	if (m.multi) {
		for (size_t i = 0; i < m.parts.size(); ++i) strictPart(c, *b.getPartAt(i), m.parts[i], buf, d, path + "." + std::to_string(i));
		c.count("multiparts located");
	} else {
		str want = buf.substr(m.bodyStart + d, m.end - m.bodyStart);
		VH_EQ(rawContents(*b.getContents()), want, "leaf-bytes", "contents of leaf " + path);
		VH_EQ(b.getContents()->getLength(), want.size(), "leaf-length", "length");
		c.count("leaves located");
	}
	c.count("parts located");
}

// rules for any input
static void nest(Ctx& c, const vmime::component& k, size_t a, size_t b, const str& what) {
	size_t s = k.getParsedOffset(), e = s + k.getParsedLength();
	if (k.getParsedLength() == 0) return;
	VH_CHECK(s >= a && e <= b, "outside-parent:" + what, what << " " << at(k) << " outside [" << a << "," << b << ")");
	c.count("components checked for nesting");
}
// the parts of a value: inside it, in order, and readable again from their own bytes
static void items(Ctx& c, const std::vector<const vmime::component*>& l, size_t a, size_t b, const str& what) {
	size_t prev = a;
	for (auto* k : l) {
		if (!k->getParsedLength()) continue;
		size_t s = k->getParsedOffset(), e = s + k->getParsedLength();
		VH_CHECK(s >= a && e <= b, "item-outside-value:" + what, what << " " << at(*k) << " outside its value [" << a << "," << b << ")");
		VH_CHECK(s >= prev, "items-overlap:" + what, what << " " << at(*k) << " begins before " << prev);
		prev = e;
	}
	c.count("items of values located", l.size());
}
static void values(Ctx& c, const vmime::component& v) {
	size_t a = v.getParsedOffset(), b = a + v.getParsedLength();
	std::vector<const vmime::component*> l;
	if (auto* x = dynamic_cast<const vmime::addressList*>(&v)) for (auto& i : x->getAddressList()) l.push_back(i.get());
	if (auto* x = dynamic_cast<const vmime::mailboxList*>(&v)) for (auto& i : x->getMailboxList()) l.push_back(i.get());
	if (auto* x = dynamic_cast<const vmime::mailboxGroup*>(&v)) for (auto& i : x->getMailboxList()) l.push_back(i.get());
	if (auto* x = dynamic_cast<const vmime::messageIdSequence*>(&v)) for (auto& i : x->getMessageIdList()) l.push_back(i.get());
	if (l.empty() || !v.getParsedLength()) return;
	items(c, l, a, b, typeid(*l[0]) == typeid(vmime::messageId) ? "message-id" : "address");
	for (auto* k : l) values(c, *k);
}
// positions of all components below k, relative to base
static void positions(vmime::component& k, size_t base, str& out, int depth = 0) {
	if (k.getParsedLength()) out += std::to_string(depth) + ":" + std::to_string((long)k.getParsedOffset() - (long)base) + "+" + std::to_string(k.getParsedLength()) + " ";
	for (auto& i : k.getChildComponents()) positions(*i, base, out, depth + 1);
}
static void loosePart(Ctx& c, const vmime::bodyPart& p, const str& buf, int depth) {
	size_t a = p.getParsedOffset(), b = a + p.getParsedLength();
	VH_CHECK(b <= buf.size(), "outside-source", "part " << at(p) << " of " << buf.size());
	const vmime::header& h = *p.getHeader();
	const vmime::body& bd = *p.getBody();
	nest(c, h, a, b, "header"); nest(c, bd, a, b, "body");
	size_t hEnd = h.getParsedLength() ? h.getParsedOffset() + h.getParsedLength() : a;
	VH_EQ(bd.getParsedOffset(), hEnd, "body-after-header", "body start");
	VH_EQ(bd.getParsedOffset() + bd.getParsedLength(), b, "body-to-end", "body end");
	if (h.getParsedLength()) VH_EQ(h.getParsedOffset(), a, "header-at-start", "header start");
	size_t prev = a;
	for (size_t i = 0; i < h.getFieldCount(); ++i) {
		auto f = h.getFieldAt(i);
		nest(c, *f, a, hEnd, "field");
		size_t s = f->getParsedOffset(), e = s + f->getParsedLength();
		VH_CHECK(s >= prev, "fields-overlap", "field " << at(*f) << " begins before " << prev);
		prev = e;
		VH_EQ(buf.substr(s, f->getName().size()), f->getName(), "field-bytes", "bytes at a field's offset");
		auto v = f->getValue();
		if (v) { nest(c, *v, s, e, "value"); if (v->getParsedLength()) values(c, *v); }
		// the bytes of the field alone give the same field
		vmime::header one; one.parse(buf, s, e);
		VH_EQ(one.getFieldCount(), (size_t)1, "field-bytes", "fields in a field's bytes");
		VH_EQ(dumpField(*one.getFieldAt(0)), dumpField(*f), "field-bytes-value", "field read again from its own bytes");
	}
	// the same header alone: every position below it moves by the same amount
	if (h.getParsedLength() && a) {
		vmime::header one; one.parse(buf.substr(a, hEnd - a));
		str p0, p1; positions(one, 0, p0); positions(const_cast<vmime::header&>(h), a, p1);
		VH_EQ(p1, p0, "positions-not-relative", "positions in a header which starts at " + std::to_string(a));
		c.count("headers compared with a separate parse");
	}
	if (bd.getPartCount()) {
		prev = bd.getParsedOffset();
		for (size_t i = 0; i < bd.getPartCount(); ++i) {
			auto q = bd.getPartAt(i);
			size_t s = q->getParsedOffset(), e = s + q->getParsedLength();
			// a delimiter may directly follow another: the part then is the line break between them
			VH_CHECK(e <= bd.getParsedOffset() + bd.getParsedLength(), "part-outside-body", "part " << at(*q) << " body " << at(bd));
			VH_CHECK(e >= prev || q->getParsedLength() <= 2, "parts-out-of-order", "part " << i << " " << at(*q) << " after " << prev);
			if (s >= prev) prev = e;
			loosePart(c, *q, buf, depth + 1);
		}
	} else if (bd.getContentType().getType() != "multipart" || !bd.getContents()->isEmpty()) {
		str want = buf.substr(bd.getParsedOffset(), bd.getParsedLength());
		VH_EQ(rawContents(*bd.getContents()), want, "leaf-bytes", "contents of a leaf");
	}
	c.seen("depths", std::to_string(depth));
}

static void parseSomehow(Ctx& c, vmime::message& m, const str& buf, size_t a, size_t b) {
	Chunking ch = Chunking::random(c.rng);
	switch (c.rng.below(a ? 2 : 3)) {
		case 0: m.parse(buf, a, b, NULL); c.count("parsed from strings"); break;
		case 1: m.parse(make_shared<SeekIn>(buf, ch), a, b); c.count("parsed from seekable streams"); break;
		default: m.parse(make_shared<ChunkIn>(buf.substr(0, b), ch), b); c.count("parsed from plain streams"); break;
	}
}

static void caseStrict(Ctx& c) {
	MGen g(c.rng); g.wild = c.rng.chance(1, 6);
	MPart root = g.part(); str text; g.write(root, text); fixEnds(root);
	size_t pre = c.rng.coin() ? 0 : 1 + c.rng.below(50);
	str buf = c.rng.from("abc\r\n: -", pre) + text + (c.rng.coin() ? "" : c.rng.from("abc\r\n: -", c.rng.below(50)));
	c.note(text);
	vmime::message m; parseSomehow(c, m, buf, pre, pre + text.size());
	strictPart(c, m, root, buf, pre, "0");
	loosePart(c, m, buf, 0);
	c.nontrivial(text);
}
static void caseLoose(Ctx& c) {
	str s;
	if (c.rng.coin()) s = genLooseMessage(c.rng);
	else { MGen g(c.rng); MPart root = g.part(); g.write(root, s); }
	if (c.rng.chance(4, 5)) s = mutate(c.rng, s);
	size_t pre = c.rng.coin() ? 0 : 1 + c.rng.below(50);
	str buf = c.rng.from("abc\r\n: -", pre) + s + (c.rng.coin() ? "" : c.rng.from("abc\r\n: -", c.rng.below(50)));
	c.note(s);
	vmime::message m;
	try { parseSomehow(c, m, buf, pre, pre + s.size()); } catch (const vmime::exception&) { c.count("not parsed"); return; }
	loosePart(c, m, buf, 0);
	c.nontrivial(s);
}

static str trim(const str& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == str::npos ? str() : s.substr(a, b - a + 1); }

static void caseAddr(Ctx& c) {
	Rng& r = c.rng;
	auto mbox = [&]() -> str {
		str e = genToken(r) + "@" + genToken(r) + ".example";
		switch (r.below(4)) {
			case 0: return e;
			case 1: return "<" + e + ">";
			case 2: return "\"" + genToken(r) + ", " + genToken(r) + "; x: <y>\" <" + e + ">";
			default: return genToken(r) + " " + genToken(r) + " <" + e + ">";
		}
	};
	struct Item { str text; bool group; std::vector<str> members; };
	std::vector<Item> items; str list;
	for (size_t n = 1 + r.below(5), i = 0; i < n; ++i) {
		Item it; it.group = r.chance(1, 4);
		if (it.group) {
			it.text = genToken(r) + ":";
			for (size_t k = r.below(4), j = 0; j < k; ++j) { str m = mbox(); it.members.push_back(m); it.text += (j ? "," : "") + genWs(r) + m; }
		} else it.text = mbox();
		list += genWs(r) + it.text + (it.group ? ";" : "");
		if (i + 1 < n) list += it.group ? (r.coin() ? "," : "") : ",";
		items.push_back(it);
	}
	size_t pre = r.coin() ? 0 : 1 + r.below(20);
	str buf = r.from("abc,;<", pre) + list + (r.coin() ? "" : r.from(",;\"a@", r.below(20)));
	c.note(list);
	vmime::addressList al; size_t np = 12345678;
	al.parse(buf, pre, pre + list.size(), &np);
	VH_EQ(np, pre + list.size(), "list-end", "position after an address list");
	eqRange(al, pre, pre + list.size(), "address-list");
	VH_EQ(al.getAddressCount(), items.size(), "address-count", "addresses");
	auto bytes = [&](const vmime::component& k) { return trim(buf.substr(k.getParsedOffset(), k.getParsedLength())); };
	for (size_t i = 0; i < items.size(); ++i) {
		auto a = al.getAddressAt(i);
		VH_EQ(a->isGroup(), items[i].group, "address-kind", "group");
		str got = bytes(*a);
		if (items[i].group && !got.empty() && got.back() == ';') got.pop_back();
		VH_EQ(got, items[i].text, "address-bytes", "bytes of an address");
		if (items[i].group) {
			auto g = vmime::dynamicCast<vmime::mailboxGroup>(a);
			VH_EQ(g->getMailboxCount(), items[i].members.size(), "member-count", "members");
			for (size_t j = 0; j < items[i].members.size(); ++j) VH_EQ(bytes(*g->getMailboxAt(j)), items[i].members[j], "member-bytes", "bytes of a group member");
			c.count("group members located", items[i].members.size());
		}
	}
	// one e-mail address inside a larger text
	str e = genToken(r) + "@" + genToken(r) + ".example"; str tail = r.pickc({"", " ", " (c)", "\t<"});
	str eb = r.from("ab@ ", pre) + e + tail + "zz@zz";
	vmime::emailAddress em; size_t ep = 0;
	em.parse(eb, pre, pre + e.size() + tail.size(), &ep);
	VH_EQ(em.toString(), e, "email-value", "e-mail address");
	VH_CHECK(ep >= pre + e.size() && ep <= pre + e.size() + tail.size(), "email-end", "position after an e-mail address is " << ep);
	VH_CHECK(em.getParsedOffset() == pre && em.getParsedOffset() + em.getParsedLength() == ep, "email-range", "e-mail address at " << at(em) << " expected [" << pre << "," << ep << ")");
	c.count("addresses located", items.size());
	c.nontrivial(list);
}

void vh::setup() {
	setRule("a message counts when it was parsed and every component's offsets were compared; distinct by its bytes");
	addAssumption("components with an empty range carry no position");
	addAssumption("offsets of words inside structured values are relative to an unfolded copy and are not checked");
	addSuite("strict", 20000, 600000, caseStrict);
	addSuite("address", 20000, 600000, caseAddr);
	addSuite("loose", 20000, 600000, caseLoose);
}
