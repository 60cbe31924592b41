// C18: copies equal the original and are independent of it.
#include "vapi.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
using namespace vh; using namespace vmime;
typedef std::shared_ptr<component> CP;

static str gen(const component& v) { generationContext g(generationContext::getDefaultContext()); str s; utility::outputStreamStringAdapter os(s); try { v.generate(g, os, 0); } catch (const vmime::exception& e) { return excText(e); } os.flush(); return s; }
static const charset U8("utf-8");
static size_t few(Rng& r, size_t n) { return r.chance(1, 25) ? r.below(30) : r.below(n); }

static void parents(const bodyPart& p, const str& key) { for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) { auto k = p.getBody()->getPartAt(i); VH_CHECK(k->getParentPart() == &p, key + "-parent", "the parent of part " << i << " is not the part that contains it"); parents(*k, key); } }
static str dumpBody(const body& b) {
	str r = "prolog " + q(b.getPrologText()) + " epilog " + q(b.getEpilogText()) + "\n";
	for (size_t i = 0; i < b.getPartCount(); ++i) r += dumpPart(*b.getPartAt(i), DumpOpt(), " ");
	if (!b.getPartCount()) { auto h = b.getContents(); r += "len " + show(h->getLength()) + " enc " + h->getEncoding().getName() + " raw " + q(rawContents(*h)); }
	return r;
}
static str D(const component& c) {
	if (auto* v = dynamic_cast<const bodyPart*>(&c)) return dumpPart(*v) + str(dynamic_cast<const message*>(v) ? "message" : "part") + gen(c);
	if (auto* v = dynamic_cast<const body*>(&c)) return dumpBody(*v);
	if (auto* v = dynamic_cast<const header*>(&c)) return dumpHeader(*v) + gen(c);
	str t = typeid(c).name(); t += " ";
	if (auto* v = dynamic_cast<const headerField*>(&c)) return dumpField(*v) + gen(c);
	if (auto* v = dynamic_cast<const encoding*>(&c)) return t + dumpValue(c) + " usage " + show((int)v->getUsage());
	return t + dumpValue(c) + " " + gen(c);
}
// makers, one per type
static CP fieldValue(const str& name, const str& text) { auto f = headerFieldFactory::getInstance()->create(name); f->parse(text); return f->getValue(); }
static str someText(Rng& r) { return r.coin() ? genTextValue(r) : genUni(r, r.size(40)); }
static shared_ptr<word> mkWord(Rng& r) { str b = r.coin() ? genUni(r, r.size(20)) : r.from("abc=?_ \"", r.size(20)); charset cs(r.pickc({"utf-8", "iso-8859-1", "us-ascii", "windows-1252"})); return r.coin() ? make_shared<word>(b, cs) : make_shared<word>(b, cs, r.pickc({"en", "fr", ""})); }
static shared_ptr<text> mkText(Rng& r) { auto t = make_shared<text>(); if (r.chance(1, 3)) t->parse(genTextValue(r)); else for (size_t k = few(r, 4); k-- > 0;) t->appendWord(mkWord(r)); return t; }
static shared_ptr<mailbox> mkBox(Rng& r) { auto m = apiMailbox(r); if (r.coin()) m->setName(*mkText(r)); return m; }
static shared_ptr<mailboxGroup> mkGroup(Rng& r) { auto g = make_shared<mailboxGroup>(*mkText(r)); for (size_t k = few(r, 4); k-- > 0;) g->appendMailbox(mkBox(r)); return g; }
static shared_ptr<address> mkAddr(Rng& r) { if (r.chance(1, 3)) return mkGroup(r); return mkBox(r); }
static shared_ptr<contentHandler> mkContents(Rng& r) {
	str d = genHostileBody(r); static const char* E[] = {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"}; str e = E[r.below(6)];
	switch (r.below(4)) { case 0: return make_shared<streamContentHandler>(make_shared<utility::inputStreamStringAdapter>(d), d.size()); case 1: { str x; encoding fe(e); utility::inputStreamStringAdapter in(d); utility::outputStreamStringAdapter out(x); fe.getEncoder()->encode(in, out); return make_shared<stringContentHandler>(x, fe); } default: return make_shared<stringContentHandler>(d); }
}
static void fillPart(Rng& r, bodyPart& p, int depth) {
	if (r.chance(1, 3) && depth == 0) { p.parse(genLooseMessage(r)); return; }
	for (size_t n = few(r, 4); n-- > 0;) p.getHeader()->appendField(r.coin() ? apiField(r) : [&] { auto f = genField(r); auto x = headerFieldFactory::getInstance()->create(f.first); x->parse(f.second); return x; }());
	auto b = p.getBody();
	if (depth < 3 && r.coin()) { b->setContentType(mediaType("multipart", "mixed")); if (r.coin()) dynamicCast<contentTypeField>(p.getHeader()->ContentType())->setBoundary("bd" + r.from("abcdef", 12)); if (r.coin()) b->setPrologText("prolog " + r.from("abc", 5)); if (r.coin()) b->setEpilogText("epilog"); for (size_t n = 1 + r.below(3); n-- > 0;) { auto k = make_shared<bodyPart>(); fillPart(r, *k, depth + 1); b->appendPart(k); } }
	else { static const char* E[] = {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"}; b->setContents(mkContents(r), mediaType("text/plain"), U8, encoding(E[r.below(6)])); }
}
enum { T_WORD, T_TEXT, T_MBOX, T_GROUP, T_MBOXES, T_ADDRS, T_EMAIL, T_MID, T_MIDS, T_TYPE, T_ENC, T_CS, T_DATE, T_RELAY, T_PATH, T_DISP, T_CDISP, T_PARAM, T_FIELD, T_CTF, T_CDF, T_HEADER, T_BODY, T_PART, T_MSG, T_N };
static const char* TN[] = {"word", "text", "mailbox", "mailboxGroup", "mailboxList", "addressList", "emailAddress", "messageId", "messageIdSequence", "mediaType", "encoding", "charset", "datetime", "relay", "path", "disposition", "contentDisposition", "parameter", "headerField", "contentTypeField", "contentDispositionField", "header", "body", "bodyPart", "message"};
static CP make(Rng& r, int t, const str& fieldName) {
	auto F = headerFieldFactory::getInstance();
	switch (t) {
		case T_WORD: return mkWord(r); case T_TEXT: return mkText(r); case T_MBOX: return mkBox(r); case T_GROUP: return mkGroup(r);
		case T_MBOXES: { if (r.coin()) return fieldValue("Disposition-Notification-To", genMailbox(r) + ", " + genMailbox(r)); auto l = make_shared<mailboxList>(); for (size_t k = few(r, 4); k-- > 0;) l->appendMailbox(mkBox(r)); return l; }
		case T_ADDRS: { if (r.coin()) return fieldValue("To", genAddressList(r)); auto l = make_shared<addressList>(); for (size_t k = few(r, 4); k-- > 0;) l->appendAddress(mkAddr(r)); return l; }
		case T_EMAIL: return make_shared<emailAddress>(*mkWord(r), *mkWord(r));
		case T_MID: return apiMid(r); case T_MIDS: { if (r.coin()) return fieldValue("References", genMids(r)); auto l = make_shared<messageIdSequence>(); for (size_t k = few(r, 5); k-- > 0;) l->appendMessageId(apiMid(r)); return l; }
		case T_TYPE: return make_shared<mediaType>(genToken(r), genToken(r)); case T_ENC: return make_shared<encoding>(r.pickc({"7bit", "base64", "quoted-printable", "x-y"}), (encoding::EncodingUsage)r.below(3));
		case T_CS: return make_shared<charset>(genToken(r)); case T_DATE: return make_shared<datetime>(apiDate(r));
		case T_RELAY: { if (r.coin()) return fieldValue("Received", genRelay(r)); auto v = make_shared<relay>(); v->setFrom(genToken(r)); v->setBy(genToken(r)); v->setVia(genToken(r)); for (size_t k = few(r, 3); k-- > 0;) v->getWithList().push_back(genToken(r)); v->setId(genToken(r)); v->setFor(genToken(r)); v->setDate(apiDate(r)); return v; }
		case T_PATH: return make_shared<path>(genToken(r), genToken(r)); case T_DISP: { auto d = make_shared<disposition>(genToken(r), genToken(r), genToken(r), genToken(r)); if (r.coin()) d->addModifier(genToken(r)); return d; }
		case T_CDISP: return make_shared<contentDisposition>(genToken(r));
		case T_PARAM: { auto p = make_shared<parameter>(genToken(r)); p->setValue(*mkWord(r)); return p; }
		case T_FIELD: { auto f = F->create(fieldName); if (fieldName == "Subject") f->setValue(*mkText(r)); else if (fieldName == "To") f->setValue(*std::dynamic_pointer_cast<addressList>(make(r, T_ADDRS, ""))); else f->parse(fieldName == "References" ? genMids(r) : genTextValue(r)); return f; }
		case T_CTF: { auto f = F->create("Content-Type"); if (r.coin()) f->parse("text/" + genToken(r) + genParams(r)); else { auto x = dynamicCast<contentTypeField>(f); f->setValue(mediaType("text", genToken(r))); if (r.coin()) x->setCharset(charset(genToken(r))); if (r.coin()) x->setBoundary(genToken(r)); } return f; }
		case T_CDF: { auto f = F->create("Content-Disposition"); if (r.coin()) f->parse("attachment" + genParams(r)); else { auto x = dynamicCast<contentDispositionField>(f); f->setValue(contentDisposition("inline")); x->setFilename(*mkWord(r)); if (r.coin()) x->setCreationDate(apiDate(r)); } return f; }
		case T_HEADER: { auto h = make_shared<header>(); if (r.chance(1, 3)) h->parse(genLooseMessage(r)); else for (size_t k = r.below(6); k-- > 0;) h->appendField(apiField(r)); return h; }
		case T_BODY: { auto p = make_shared<bodyPart>(); fillPart(r, *p, 0); auto b = p->getBody(); auto n = make_shared<body>(); p->setBody(n); return b; }
		case T_PART: { auto p = make_shared<bodyPart>(); fillPart(r, *p, 0); return p; }
		default: { auto p = make_shared<message>(); fillPart(r, *p, 0); return p; }
	}
}
// one change somewhere in the component, through public means
static str mutateOne(Rng& r, component& x, int depth = 0) {
	auto kids = x.getChildComponents();
	if (!kids.empty() && r.chance(2, 3) && depth < 12) return str(typeid(x).name()) + ">" + mutateOne(r, *r.pick(kids), depth + 1);
	str n = typeid(x).name();
	if (auto* v = dynamic_cast<word*>(&x)) { switch (r.below(4)) { case 0: v->setBuffer(genUni(r, 1 + r.below(9))); break; case 1: v->setCharset(charset("koi8-r")); break; case 2: v->setLanguage("xx"); break; default: v->getBuffer() += "!"; } return n; }
	if (auto* v = dynamic_cast<text*>(&x)) { switch (r.below(4)) { case 0: v->appendWord(mkWord(r)); break; case 1: v->removeAllWords(); break; case 2: if (v->getWordCount()) { v->removeWord(r.below(v->getWordCount())); break; } /* fall through */ default: v->createFromString(genUni(r, 9), U8); } return n; }
	if (auto* v = dynamic_cast<mailbox*>(&x)) { if (r.coin()) v->setName(*mkText(r)); else v->setEmail(emailAddress("changed@changed.example")); return n; }
	if (auto* v = dynamic_cast<mailboxGroup*>(&x)) { switch (r.below(3)) { case 0: v->appendMailbox(mkBox(r)); break; case 1: v->setName(*mkText(r)); break; default: v->removeAllMailboxes(); } return n; }
	if (auto* v = dynamic_cast<mailboxList*>(&x)) { if (r.coin() && v->getMailboxCount()) v->getMailboxAt(r.below(v->getMailboxCount()))->setName(*mkText(r)); else if (r.coin()) v->appendMailbox(mkBox(r)); else v->removeAllMailboxes(); return n; }
	if (auto* v = dynamic_cast<addressList*>(&x)) { if (r.coin()) v->appendAddress(mkAddr(r)); else v->removeAllAddresses(); return n; }
	if (auto* v = dynamic_cast<messageIdSequence*>(&x)) { if (r.coin()) v->appendMessageId(apiMid(r)); else v->removeAllMessageIds(); return n; }
	if (auto* v = dynamic_cast<relay*>(&x)) { if (r.coin()) v->getWithList().push_back("zz"); else v->setFrom("changed"); return n; }
	if (auto* v = dynamic_cast<disposition*>(&x)) { v->addModifier("zz" + genToken(r)); return n; }
	if (auto* v = dynamic_cast<parameter*>(&x)) { v->setValue(*mkWord(r)); return n; }
	if (auto* v = dynamic_cast<datetime*>(&x)) { v->setYear(1999); v->setMinute((int)r.below(60)); return n; }
	if (auto* v = dynamic_cast<encoding*>(&x)) { v->setName("8bit"); v->setUsage(encoding::USAGE_TEXT); return n; }
	if (auto* v = dynamic_cast<parameterizedHeaderField*>(&x)) { switch (r.below(4)) { case 0: v->appendParameter(make_shared<parameter>("changed", *mkWord(r))); break; case 1: v->getParameter(v->getParameterCount() ? v->getParameterAt(0)->getName() : "q")->setValue(*mkWord(r)); break; case 2: v->removeAllParameters(); break; default: v->parse(r.coin() ? "8bit; a=b" : "7bit; a=b"); } return n; }
	if (auto* v = dynamic_cast<headerField*>(&x)) { if (v->getName() == "Content-Transfer-Encoding") v->setValue("8bit"); else v->setValue("changed" + genToken(r)); return n; }
	if (auto* v = dynamic_cast<header*>(&x)) { switch (r.below(4)) { case 0: v->appendField(apiField(r)); break; case 1: if (v->getFieldCount()) { v->removeField(v->getFieldAt(r.below(v->getFieldCount()))); break; } /* fall through */ case 2: v->Subject()->setValue("changed"); break; default: v->removeAllFields(); } return n; }
	if (auto* v = dynamic_cast<body*>(&x)) {
		switch (r.below(5)) { case 0: v->setPrologText("changed"); break; case 1: v->setEpilogText("changed"); break; case 2: { auto p = make_shared<bodyPart>(); fillPart(r, *p, 2); v->appendPart(p); break; } case 3: if (v->getPartCount()) { v->removePart(r.below(v->getPartCount())); break; } /* fall through */ default: v->setContents(mkContents(r)); } return n; }
	if (auto* v = dynamic_cast<bodyPart*>(&x)) { switch (r.below(3)) { case 0: v->setHeader(make_shared<header>()); break; case 1: v->setBody(make_shared<body>()); break; default: v->parse(genLooseMessage(r)); } return n; }
	x.parse(genToken(r) + "/" + genToken(r)); return n;
}
template <class T> static CP viaCtor(const component& o) { return make_shared<T>(dynamic_cast<const T&>(o)); }
template <class T> static void viaAssign(component& to, const component& o) { dynamic_cast<T&>(to) = dynamic_cast<const T&>(o); }
#define ALL(X) X(T_WORD, word) X(T_TEXT, text) X(T_MBOX, mailbox) X(T_GROUP, mailboxGroup) X(T_MBOXES, mailboxList) X(T_ADDRS, addressList) X(T_EMAIL, emailAddress) X(T_MID, messageId) X(T_MIDS, messageIdSequence) X(T_TYPE, mediaType) X(T_ENC, encoding) X(T_CS, charset) X(T_DATE, datetime) X(T_RELAY, relay) X(T_PATH, path) X(T_DISP, disposition) X(T_CDISP, contentDisposition) X(T_HEADER, header) X(T_BODY, body) X(T_PART, bodyPart) X(T_MSG, message)
static CP copyCtor(int t, const component& o) {
	switch (t) {
#define X(E, C) case E: return viaCtor<C>(o);
		ALL(X)
#undef X
		case T_FIELD: return viaCtor<headerField>(o); case T_CTF: case T_CDF: return viaCtor<parameterizedHeaderField>(o);
	}
	return nullptr;
}
static void assign(int t, component& to, const component& o) {
	switch (t) {
#define X(E, C) case E: viaAssign<C>(to, o); return;
		ALL(X)
#undef X
		case T_PARAM: viaAssign<parameter>(to, o); return;
		case T_FIELD: viaAssign<headerField>(to, o); return;
		case T_CTF: case T_CDF: viaAssign<parameterizedHeaderField>(to, o); return;
	}
}
template <class T> static CP helper(const CP& o) { auto p = std::dynamic_pointer_cast<T>(o); return vmime::clone(p); }
static CP cloneHelper(int t, const CP& o) {
	switch (t) {
#define X(E, C) case E: return helper<C>(o);
		ALL(X)
#undef X
		case T_PARAM: return helper<parameter>(o); case T_FIELD: return helper<headerField>(o); case T_CTF: return helper<contentTypeField>(o); case T_CDF: return helper<contentDispositionField>(o);
	}
	return nullptr;
}
static void check(const CP& k, const str& want, const str& key, const str& how) {
	VH_CHECK(k, key + "-null", how << " gave no object of the type");
	VH_EQ(D(*k), want, key, how);
	if (auto* p = dynamic_cast<const bodyPart*>(k.get())) { parents(*p, key); VH_CHECK(!p->getParentPart(), key + "-parent", how << ": the copy has a parent"); }
}
static void sCopy(Ctx& c) {
	Rng& r = c.rng; int t = (int)r.below(T_N); str fn = t == T_FIELD ? r.pickc({"Subject", "To", "References", "X-Y", "From", "Date"}) : "";
	CP o = make(r, t, fn); str tn = TN[t]; D(*o);   // the first generation settles missing delimiters
	str want = D(*o); c.note(tn + " " + want); c.nontrivial(tn + want); c.count(str("copied: ") + tn);
	std::vector<std::pair<CP, str>> copies; auto add = [&](const CP& k, const str& how) { check(k, want, tn + ":" + how, how); copies.push_back({k, how}); c.count("copies by " + how.substr(0, how.find(' '))); };
	std::vector<int> ways = {0, 1, 2, 3, 4, 5, 6}; size_t n = 1 + r.below(5);
	for (size_t i = 0; i < n; ++i) switch (ways[r.below(ways.size())]) {
		case 0: add(o->clone(), "clone"); break;
		case 1: add(cloneHelper(t, o), "vmime::clone"); break;
		case 2: if (auto k = copyCtor(t, *o)) add(k, "constructor"); break;
		case 3: { CP u = make(r, t, fn); if (r.coin()) D(*u); assign(t, *u, *o); add(u, "assignment"); break; }
		case 4: { CP u = make(r, t, fn); u->copyFrom(*o); add(u, "copyFrom"); break; }
		case 5: { CP u = o; for (int k = 0; k < 3; ++k) { CP v; if (r.coin()) v = u->clone(); else { v = make(r, t, fn); v->copyFrom(*u); } u = v; } add(u, "chain"); break; }
		default: if (r.coin()) assign(t, *o, *o); else o->copyFrom(*o); VH_EQ(D(*o), want, tn + ":self", "copied onto itself"); c.count("copied onto itself");
	}
	VH_EQ(D(*o), want, tn + ":original", "the original after being copied");
	if (copies.empty()) return;
	// change one of them; the others stay
	for (int round = 1 + (int)r.below(3); round-- > 0;) {
		size_t w = r.below(copies.size() + 1); CP& x = w == copies.size() ? o : copies[w].first; str how = w == copies.size() ? "original" : copies[w].second, what;
		if (r.chance(1, 8)) { x = nullptr; if (w < copies.size()) copies.erase(copies.begin() + w); c.count("destroyed"); what = "destruction of the " + how; }
		else { if (!x) continue; what = "change of " + mutateOne(r, *x) + " in the " + how; c.count("changed"); if (D(*x) != want) c.count("changed visibly"); if (w == copies.size()) { /* original now differs */ } if (auto* p = dynamic_cast<const bodyPart*>(x.get())) parents(*p, tn + ":changed"); }
		CP changed = x; 
		for (auto& k : copies) if (k.first && k.first != changed) check(k.first, want, tn + ":independent", "the copy by " + k.second + " after " + what);
		if (o && w != copies.size() && !(what[0] == 'd' && !o)) { if (o != changed) VH_EQ(D(*o), want, tn + ":original-changed", "the original after " + what); }
		if (changed) { // drop it from the comparison
			if (w < copies.size()) copies.erase(copies.begin() + w); else o = nullptr; CP keep = changed; if (r.coin()) keep = nullptr; }
		if (copies.empty()) break;
	}
}
// copying within one tree: a part onto its parent, an ancestor onto a part, a list onto a list holding some of the same elements
static void sWithin(Ctx& c) {
	Rng& r = c.rng; auto m = make_shared<message>(); m->getBody()->setContentType(mediaType("multipart/mixed")); std::vector<shared_ptr<bodyPart>> all;
	std::function<void(bodyPart&, int)> grow = [&](bodyPart& p, int d) { for (size_t n = 1 + r.below(3); n-- > 0;) { auto k = make_shared<bodyPart>(); if (d < 2 && r.coin()) { p.getBody()->appendPart(k); all.push_back(k); grow(*k, d + 1); } else { fillPart(r, *k, 3); p.getBody()->appendPart(k); all.push_back(k); } } };
	grow(*m, 0); D(*m); all.push_back(m); auto a = r.pick(all), b = r.pick(all); bool up = false, down = false; for (const bodyPart* p = a.get(); p; p = p->getParentPart()) if (p == b.get()) up = true; for (const bodyPart* p = b.get(); p; p = p->getParentPart()) if (p == a.get()) down = true;
	c.note(dumpPart(*m)); c.nontrivial(dumpPart(*m)); c.count(a == b ? "onto itself" : up ? "ancestor onto a part" : down ? "part onto an ancestor" : "unrelated");
	const bodyPart* par = a->getParentPart(); str wantH = dumpHeader(*b->getHeader()), wantB = dumpBody(*b->getBody());
	switch (r.below(3)) { case 0: a->copyFrom(*b); VH_EQ(dumpHeader(*a->getHeader()), wantH, "within-header", ""); if (!up || a == b) VH_EQ(dumpBody(*a->getBody()), wantB, "within-body", ""); break; case 1: *a->getBody() = *b->getBody(); VH_EQ(dumpBody(*a->getBody()), wantB, "within-body", ""); break; default: *a->getHeader() = *b->getHeader(); VH_EQ(dumpHeader(*a->getHeader()), wantH, "within-header", ""); }
	VH_CHECK(a->getParentPart() == par, "within-parent", "copying changed the parent"); if (!down || a == m) parents(*m, "within");
}
void vh::setup() {
	setRule("a case is one component copied in several ways and then changed, counted by its type and full dump");
	addAssumption("a field is copied onto a field of the same name only (the name of a field is not part of its value)");
	addSuite("copy", 20000, 1000000, sCopy); addSuite("within", 8000, 200000, sWithin);
}
