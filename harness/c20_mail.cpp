// C20: mail put together with the builder and taken apart by the parser; attachments added to existing messages; MDNs.
#include "vapi.hpp"
#include <vmime/mdn/MDNHelper.hpp>
#include <vmime/contentTypeField.hpp>
#include <vmime/contentDispositionField.hpp>
#include <vmime/generatedMessageAttachment.hpp>
#include <vmime/parsedMessageAttachment.hpp>
#include <unistd.h>
using namespace vh;
using vmime::shared_ptr; using vmime::make_shared;

static str u8(const vmime::text& t) { return uText(t); }
static str addrs(const vmime::addressList& l) { str r; for (size_t i = 0; i < l.getAddressCount(); ++i) r += uAddr(*l.getAddressAt(i)) + ";"; return r; }
static vmime::addressList genAddrs(Rng& r, bool groups) {
	vmime::addressList l;
	for (size_t n = 1 + r.below(5); n-- > 0;) {
		if (groups && r.chance(1, 4)) { auto g = make_shared<vmime::mailboxGroup>(vmime::text(r.from("abcdefg", 1 + r.below(8)), vmime::charset("us-ascii"))); for (size_t k = r.below(4); k-- > 0;) g->appendMailbox(apiMailbox(r)); l.appendAddress(g); }
		else l.appendAddress(apiMailbox(r));
	}
	return l;
}
// text lines as an application would write them
static str genText(Rng& r, const str& cs) {
	str s;
	for (size_t n = r.below(8) ? 1 + r.size(30) : 0; n-- > 0;) {
		switch (r.below(7)) {
			case 0: break;
			case 1: s += ". dot"; break;
			case 2: s += "From here"; break;
			case 3: s += "--" + r.from("abc=_-", r.below(20)); break;
			case 4: s += r.from("abcdefg hij", r.size(1200)) + " "; break;
			default: if (cs == "utf-8") s += genUni(r, r.size(120)); else if (cs == "iso-8859-1") s += r.from("abc \xe9\xe8=?\xa0\xff", r.size(120)); else s += r.from("abcdefgh =?_<>&", r.size(120));
		}
		if (n) s += "\r\n"; else if (r.coin()) s += "\r\n";
	}
	return s;
}
static str data(const vmime::contentHandler& h) { return decodedContents(h); }

struct AttX { str name, type, desc, bytes; bool msg = false; };
static str showA(const AttX& a) { return a.type + " name=" + q(a.name) + " desc=" + q(a.desc) + " " + std::to_string(a.bytes.size()) + " bytes #" + std::to_string(hash(a.bytes)); }
static AttX readA(const vmime::attachment& a) {
	AttX x; x.name = uWord(a.getName()); x.type = a.getType().generate(); x.desc = u8(a.getDescription()); x.bytes = data(*a.getData()); return x;
}
static str genName(Rng& r) { return r.chance(1, 4) ? r.from("abc ;=\"\\'()*%.,", 1 + r.below(20)) + "x" : genUni(r, 1 + r.size(60), 5) + r.pickc({"", ".txt", ".p d f", ".tar.gz"}); }

static shared_ptr<vmime::message> smallMessage(Rng& r) {
	auto m = make_shared<vmime::message>();
	str t = "Subject: " + r.from("abcdef ghi", 1 + r.below(30)) + "x\r\nFrom: a@b.c\r\n";
	if (r.coin()) t += "Content-Type: multipart/mixed; boundary=\"" + r.pickc({"b", "bb", "inner"}) + "\"\r\n\r\n--b\r\n\r\nx\r\n--b--\r\n";
	else t += "Content-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\n" + genText(r, r.coin() ? "utf-8" : "us-ascii");
	m->parse(t); return m;
}

// a new attachment of some kind; what it is expected to be when found again
static shared_ptr<vmime::attachment> genAtt(Ctx& c, AttX& x) {
	Rng& r = c.rng;
	x = AttX();
	vmime::mediaType t = r.chance(1, 4) ? vmime::mediaType("text", r.pickc({"plain", "html", "csv"})) : vmime::mediaType(r.pickc({"application", "image", "audio", "x-custom"}), r.pickc({"octet-stream", "pdf", "x-foo", "png"}));
	x.type = t.generate();
	vmime::text desc; if (r.coin()) desc = apiText(r);
	x.desc = u8(desc);
	switch (r.below(6)) {
		case 0: case 1: {
			x.bytes = genHostileBody(r); x.name = genName(r);
			vmime::word w(x.name, vmime::charset("utf-8"));
			c.seen("attachment", "default");
			if (r.coin()) return make_shared<vmime::defaultAttachment>(make_shared<vmime::stringContentHandler>(x.bytes), t, desc, w);
			static const char* encs[] = {"base64", "quoted-printable", "base64", "8bit", "binary", "uuencode"};
			return make_shared<vmime::defaultAttachment>(make_shared<vmime::stringContentHandler>(x.bytes), vmime::encoding(encs[r.below(6)]), t, desc, w);
		}
		case 2: {
			x.bytes = genHostileBody(r); x.name = r.from("abcdefgh_-. ", 1 + r.below(30)) + "." + r.from("abc", 3);
			static unsigned n = 0; str p = scratchDir() + "/att" + std::to_string(n++ % 16);
			p += "d"; str dir = p; if (::access(dir.c_str(), F_OK)) (void)!::system(("mkdir -p '" + dir + "'").c_str());
			str f = dir + "/" + x.name; writeFile(f, x.bytes);
			c.seen("attachment", "file");
			auto a = make_shared<vmime::fileAttachment>(f, t, desc);
			// the reader keeps the file open: the name is not needed any more
			::unlink(f.c_str());
			return a;
		}
		case 3: {
			x.bytes = genHostileBody(r); x.name = genName(r);
			auto a = make_shared<vmime::fileAttachment>(make_shared<vmime::stringContentHandler>(x.bytes), vmime::word(x.name, vmime::charset("utf-8")), t, desc);
			a->getFileInfo().setModificationDate(apiDate(r));
			c.seen("attachment", "file-contents");
			return a;
		}
		case 4: {
			auto m = smallMessage(r);
			std::ostringstream o; vmime::utility::outputStreamAdapter os(o); m->generate(os);
			x.bytes = o.str(); x.type = "message/rfc822"; x.desc = ""; x.msg = true;
			c.seen("attachment", "message");
			return make_shared<vmime::parsedMessageAttachment>(m);
		}
		default: {
			x.bytes = genHostileBody(r); x.desc = "";
			c.seen("attachment", "unnamed");
			return make_shared<vmime::defaultAttachment>(make_shared<vmime::stringContentHandler>(x.bytes), t, vmime::text(), vmime::word());
		}
	}
}
static void compareAtt(Ctx& c, const vmime::attachment& a, const AttX& x, const str& where) {
	AttX g = readA(a);
	VH_EQ(g.type, x.type, "attachment-type", where);
	VH_EQ(g.name, x.name, "attachment-name", where);
	VH_EQ(g.desc, x.desc, "attachment-description", where);
	VH_EQ(g.bytes, x.bytes, "attachment-bytes", where);
	c.count("attachments compared");
	if (x.msg) {
		auto ma = dynamic_cast<const vmime::messageAttachment*>(&a);
		VH_CHECK(ma, "attachment-message", where << ": not a message attachment");
		vmime::message m; m.parse(x.bytes);
		VH_EQ(dumpPart(*ma->getMessage()), dumpPart(m), "attachment-message", where);
	}
}

static shared_ptr<vmime::message> roundTrip(Ctx& c, const shared_ptr<vmime::message>& m, str& wire) {
	Rng& r = c.rng;
	if (r.chance(1, 6)) { wire = "(not generated)"; return m; }
	vmime::generationContext g = vmime::generationContext::getDefaultContext();
	g.setMaxLineLength(r.pick(std::vector<size_t>{78, 78, 100, 500}));
	std::ostringstream o; vmime::utility::outputStreamAdapter os(o);
	m->generate(g, os);
	wire = o.str();
	auto p = make_shared<vmime::message>();
	if (r.coin()) p->parse(wire); else { p->parse(make_shared<vmime::utility::inputStreamStringAdapter>(wire), wire.size()); }
	return p;
}

static void build(Ctx& c) {
	Rng& r = c.rng;
	vmime::messageBuilder mb;
	auto from = apiMailbox(r); mb.setExpeditor(*from);
	vmime::addressList to, cc, bcc;
	unsigned which = (unsigned)r.range(1, 7);
	if (which & 1) mb.setRecipients(to = genAddrs(r, true));
	if (which & 2) mb.setCopyRecipients(cc = genAddrs(r, true));
	if (which & 4) { if (r.coin()) mb.setBlindCopyRecipients(bcc = genAddrs(r, true)); else { bcc = genAddrs(r, true); for (size_t i = 0; i < bcc.getAddressCount(); ++i) mb.getBlindCopyRecipients().appendAddress(std::dynamic_pointer_cast<vmime::address>(bcc.getAddressAt(i)->clone())); } }
	str subj; if (r.chance(7, 8)) { auto t = apiText(r); subj = u8(t); mb.setSubject(t); }
	str cs = r.pickc({"utf-8", "iso-8859-1", "us-ascii"});
	bool html = r.coin();
	str plain = genText(r, cs), htm;
	struct Obj { str id, type, bytes; }; std::vector<Obj> objs;
	if (!html) {
		mb.getTextPart()->setCharset(vmime::charset(cs));
		mb.getTextPart()->setText(make_shared<vmime::stringContentHandler>(plain));
		c.seen("text", plain.empty() ? "plain-empty" : "plain-" + cs);
	} else {
		mb.constructTextPart(vmime::mediaType("text", "html"));
		auto hp = vmime::dynamicCast<vmime::htmlTextPart>(mb.getTextPart());
		hp->setCharset(vmime::charset(cs));
		if (r.coin()) plain.clear();
		else hp->setPlainText(make_shared<vmime::stringContentHandler>(plain));
		htm = "<html>" + genText(r, cs);
		for (size_t n = r.below(3) ? r.below(5) : 0; n-- > 0;) {
			Obj o; o.bytes = genHostileBody(r); vmime::mediaType t("image", r.pickc({"png", "gif", "x-foo"})); o.type = t.generate();
			shared_ptr<const vmime::htmlTextPart::embeddedObject> e;
			if (r.coin()) e = hp->addObject(o.bytes, t); else if (r.coin()) e = hp->addObject(make_shared<vmime::stringContentHandler>(o.bytes), vmime::encoding(r.pickc({"base64", "quoted-printable"})), t);
			else e = hp->addObject(make_shared<vmime::stringContentHandler>(o.bytes), t);
			o.id = e->getReferenceId(); objs.push_back(o);
			htm += "<img src=\"" + o.id + "\">" + (r.coin() ? "\r\n" : "");
		}
		hp->setText(make_shared<vmime::stringContentHandler>(htm));
		c.seen("text", str("html-") + cs + (plain.empty() ? "" : "+plain") + "-objects" + std::to_string(objs.size()));
	}
	std::vector<AttX> atts;
	for (size_t n = r.coin() ? r.below(5) : 0; n-- > 0;) { AttX x; auto a = genAtt(c, x); if (r.coin()) mb.attach(a); else mb.appendAttachment(a); atts.push_back(x); }
	if (!atts.empty() && r.chance(1, 6)) { size_t i = r.below(atts.size()); mb.removeAttachment(i); atts.erase(atts.begin() + i); }
	VH_EQ(mb.getAttachmentCount(), atts.size(), "builder-count", "attachments in the builder");
	str note = "builder: to " + addrs(to) + " cc " + addrs(cc) + " bcc " + addrs(bcc) + (html ? " html" : " plain") + " charset " + cs + " objects " + std::to_string(objs.size());
	for (auto& a : atts) note += "\n  attachment " + showA(a);
	c.note(note);
	shared_ptr<vmime::message> m;
	try { m = mb.construct(); } catch (const vmime::exceptions::no_recipient&) {
		// allowed only when there is nobody at all to send to
		bool any = false;
		for (auto* l : {&to, &cc, &bcc}) for (size_t i = 0; i < l->getAddressCount(); ++i) if (!l->getAddressAt(i)->isEmpty()) any = true;
		VH_CHECK(!any, "recipient-refused", "no_recipient although there are recipients");
		c.count("no recipient"); throw CaseSkip{"no recipient"};
	}
	str wire; auto p = roundTrip(c, m, wire);
	c.note(note + "\nwire:\n" + wire);
	vmime::messageParser mp(p);
	VH_EQ(uAddr(mp.getExpeditor()), uAddr(*from), "sender", "expeditor");
	VH_EQ(addrs(mp.getRecipients()), addrs(to), "recipients", "To");
	VH_EQ(addrs(mp.getCopyRecipients()), addrs(cc), "recipients", "Cc");
	VH_EQ(addrs(mp.getBlindCopyRecipients()), addrs(bcc), "recipients", "Bcc");
	VH_EQ(u8(mp.getSubject()), subj, "subject", "subject");
	VH_EQ(mp.getAttachmentCount(), atts.size(), "attachment-count", "attachments found");
	for (size_t i = 0; i < atts.size(); ++i) compareAtt(c, *mp.getAttachmentAt(i), atts[i], "attachment " + std::to_string(i));
	// texts
	size_t nt = 0, nh = 0;
	for (size_t i = 0; i < mp.getTextPartCount(); ++i) {
		auto t = mp.getTextPartAt(i);
		VH_EQ(t->getCharset().getName(), cs, "text-charset", "charset of text part " << i);
		if (t->getType().getSubType() == "html") {
			++nh;
			auto h = vmime::dynamicCast<const vmime::htmlTextPart>(t);
			VH_EQ(normEol(data(*h->getText())), normEol(htm), "html-text", "HTML text");
			VH_EQ(normEol(data(*h->getPlainText())), normEol(plain), "plain-alternative", "plain text alternative");
			VH_EQ(h->getObjectCount(), objs.size(), "object-count", "embedded objects");
			for (auto& o : objs) {
				VH_CHECK(h->hasObject(o.id), "object-lost", "object " << o.id << " not found");
				auto e = h->findObject(o.id);
				VH_EQ(e->getReferenceId(), o.id, "object-id", "reference");
				VH_EQ(e->getType().generate(), o.type, "object-type", "type of " << o.id);
				VH_EQ(data(*e->getData()), o.bytes, "object-bytes", "contents of " << o.id);
				c.count("embedded objects compared");
			}
		} else { ++nt; VH_EQ(normEol(data(*t->getText())), normEol(plain), "plain-text", "plain text"); }
	}
	VH_EQ(nh, (size_t)html, "text-count", "HTML parts");
	VH_EQ(nt, (size_t)(!html || !plain.empty()), "text-count", "plain text parts");
	if (!atts.empty() || html) c.nontrivial(wire);
}

// -------------------------------------------------------------- existing messages
struct Leaf { str head, type, cd, name, desc, cid, loc, bytes, text; bool text_ = false, isAtt = false, notAtt = false; };
struct MailGen {
	Rng& r; std::vector<Leaf> leaves; unsigned uid = 0; str nl = "\r\n";
	struct Html { size_t leaf; str plain; bool hasPlain; std::vector<size_t> objs; }; std::vector<Html> htmls;
	explicit MailGen(Rng& rr) : r(rr) {}
	str leafWire(Leaf& l, const str& bytes, bool root, bool binaryOk = true) {
		str h = l.head, e; l.bytes = bytes;
		bool ascii = true, lines = true; size_t w = 0; for (unsigned char ch : bytes) { if (ch >= 128 || !ch) ascii = false; w = ch == '\n' ? 0 : w + 1; if (w > 900) lines = false; }
		(void)binaryOk;
		str enc = ascii && lines && r.coin() ? "" : r.pickc({"base64", "base64", "quoted-printable", "8bit"});
		if (enc == "8bit" && !lines) enc = "base64";
		if (enc.empty()) e = bytes;
		else { vmime::encoding ve(enc); vmime::utility::inputStreamStringAdapter in(bytes); vmime::utility::outputStreamStringAdapter out(e); ve.getEncoder()->encode(in, out); h += "Content-Transfer-Encoding: " + enc + "\r\n"; }
		if (!root || r.coin()) ; 
		return h + "\r\n" + e;
	}
	str body(const str& b) { return b; }
	str leaf(bool root) {
		Leaf l; str bytes;
		auto nocr = [&](str s) { while (!s.empty() && s.back() == '\r') s.pop_back(); return s; };
		switch (r.below(8)) {
			case 7: l.type = "application/octet-stream"; l.name = r.from("abcdef", 1 + r.below(12)); l.isAtt = true; bytes = "A" + nocr(genHostileBody(r)); l.head = "Content-Disposition: attachment; filename=" + l.name + "\r\n"; break;
			case 0: l.head = ""; l.type = "text/plain"; bytes = genText(r, "us-ascii"); l.text_ = true; l.notAtt = root; break;
			case 1: l.head = "Content-Type: text/plain; charset=utf-8" + r.pickc({"", "; format=flowed", ";\r\n\tdelsp=yes"}) + "\r\n"; l.type = "text/plain"; bytes = genText(r, "utf-8"); l.text_ = true; l.notAtt = true; break;
			case 2: l.head = "Content-Type: text/" + str(r.pickc({"calendar; method=REQUEST", "csv", "x-foo"})) + "; charset=utf-8\r\n"; bytes = genText(r, "utf-8"); l.notAtt = true; break;
			case 3: case 4: {
				l.type = r.pickc({"application/pdf", "image/png", "text/plain", "application/octet-stream"}); l.name = r.from("abcdef_-. ", 1 + r.below(12)) + "x"; l.isAtt = true; bytes = nocr(genHostileBody(r));
				l.head = "Content-Type: " + l.type + (r.coin() ? "; name=\"" + l.name + "\"" : "") + "\r\nContent-Disposition: attachment; filename=\"" + l.name + "\"" + r.pickc({"", "; size=12"}) + "\r\n";
				if (r.coin()) { l.desc = r.from("abcdefgh", 1 + r.below(12)); l.head += "Content-Description: " + l.desc + "\r\n"; }
				break;
			}
			case 5: l.type = "application/x-thing"; l.name = r.from("abcdef", 1 + r.below(12)); l.isAtt = true; bytes = nocr(genHostileBody(r)); l.head = "Content-Type: application/x-thing; name=" + l.name + "\r\n"; break;
			default: l.type = "image/gif"; bytes = nocr(genHostileBody(r)); l.isAtt = true; l.head = "Content-Type: image/gif\r\n";
		}
		if (l.type == "text/plain" || l.text_ || l.notAtt) bytes = nocr(bytes);
		str w = leafWire(l, bytes, root);
		leaves.push_back(l);
		return w;
	}
	str multi(int d) {
		str b = "bnd" + std::to_string(uid++) + r.from("=_'x", 2) + "z";
		static const char* subs[] = {"mixed", "alternative", "report; report-type=delivery-status", "x-other", "digest2", "mixed", "signed; micalg=pgp-sha1; protocol=\"application/pgp-signature\""};
		str s = "Content-Type: multipart/" + str(subs[r.below(7)]) + "; boundary=\"" + b + "\"\r\n\r\n";
		if (r.chance(1, 4)) s += "prolog text\r\n";
		for (size_t n = 1 + r.below(3); n-- > 0;) s += "--" + b + "\r\n" + any(d + 1) + "\r\n";
		return s + "--" + b + "--" + r.pickc({"\r\n", "", "\r\nepilog\r\n"});
	}
	// alternative[ plain, related[ html, objects ] ] in some of its usual forms
	str html(int) {
		Html h; h.hasPlain = r.coin();
		str b1 = "alt" + std::to_string(uid++) + "z", b2 = "rel" + std::to_string(uid++) + "z";
		str s, inner; std::vector<str> objw; str refs;
		bool rel = r.chance(2, 3);
		if (h.hasPlain) { Leaf p; p.text_ = true; p.notAtt = true; p.type = "text/plain"; p.head = "Content-Type: text/plain; charset=utf-8\r\n"; h.plain = "P" + genText(r, "utf-8"); str w = leafWire(p, h.plain, false); leaves.push_back(p); s = "Content-Type: multipart/alternative; boundary=" + b1 + "\r\n\r\n--" + b1 + "\r\n" + w + "\r\n--" + b1 + "\r\n"; }
		Leaf hl; hl.text_ = true; hl.notAtt = true; hl.type = "text/html"; hl.head = "Content-Type: text/html; charset=utf-8\r\n";
		size_t hi = leaves.size(); leaves.push_back(hl);
		if (rel) {
			for (size_t n = 1 + r.below(3); n-- > 0;) {
				Leaf o; o.type = "image/png"; unsigned u = uid++; o.head = "Content-Type: image/png\r\n";
				if (r.chance(2, 3)) { o.cid = "o" + std::to_string(u) + "." + r.from("abc$%", 3) + "@h.example"; o.head += "Content-ID: <" + o.cid + ">\r\n"; if (r.coin()) o.head += "Content-Disposition: inline\r\n"; o.notAtt = true; refs += "<img src=\"" + str(r.pickc({"cid:", "CID:"})) + o.cid + "\">"; }
				else { o.loc = "http://h.example/" + r.from("abc", 4) + "/i" + std::to_string(u) + "q.png"; o.head += "Content-Location: " + o.loc + "\r\nContent-Disposition: inline\r\n"; o.notAtt = true; refs += "<img src='" + o.loc + "'>"; }
				str w = leafWire(o, r.bytes(r.size(400)), false); h.objs.push_back(leaves.size()); leaves.push_back(o); objw.push_back(w);
			}
		}
		str hw = leafWire(leaves[hi], "<html>" + std::to_string(uid++) + genText(r, "utf-8") + refs + "</html>", false);
		h.leaf = hi; htmls.push_back(h);
		if (rel) { inner = "Content-Type: multipart/related; boundary=" + b2 + "\r\n\r\n--" + b2 + "\r\n" + hw + "\r\n"; for (auto& o : objw) inner += "--" + b2 + "\r\n" + o + "\r\n"; inner += "--" + b2 + "--\r\n"; }
		else inner = hw;
		if (h.hasPlain) s += inner + "\r\n--" + b1 + "--\r\n"; else s = inner;
		return s;
	}
	str any(int d) { if (d < 3 && r.chance(d ? 2 : 5, 8)) return multi(d); if (r.chance(1, 4)) return html(d); return leaf(d == 0); }
	str message() { str h = "From: a@b.example\r\nTo: c@d.example\r\nX-Keep: " + genToken(r) + "\r\nSubject: s\r\nMessage-Id: <m1@x>\r\n"; return h + (r.chance(3, 4) ? "Mime-Version: 1.0\r\n" : "") + any(0); }
};
// the content of every leaf: type, disposition with parameters, and bytes
static void leafDump(const vmime::bodyPart& p, std::vector<str>& out) {
	auto b = p.getBody();
	if (b->getPartCount()) { for (size_t i = 0; i < b->getPartCount(); ++i) leafDump(*b->getPartAt(i), out); return; }
	str s;
	for (const char* n : {"Content-Type", "Content-Disposition", "Content-Description", "Content-Id", "Content-Location"}) { auto f = p.getHeader()->findField(n); if (f) s += uField(*f) + " | "; }
	out.push_back(s + std::to_string(hash(data(*b->getContents()))));
}
static str joined(const std::vector<str>& v) { str s; for (auto& x : v) s += x + "\n"; return s; }
static void plainFields(const vmime::message& m, std::vector<str>& out) { for (size_t i = 0; i < m.getHeader()->getFieldCount(); ++i) { auto f = m.getHeader()->getFieldAt(i); if (lower(f->getName()).compare(0, 8, "content-")) out.push_back(uField(*f)); } }

static void foreign(Ctx& c) {
	Rng& r = c.rng; MailGen g(r); str w = g.message(); c.note(w);
	auto m = make_shared<vmime::message>(); m->parse(w);
	bool single = m->getBody()->getPartCount() == 0;
	vmime::messageParser mp(m);
	// attachments: those which certainly are, in order, and none which certainly is not
	std::vector<AttX> got; for (size_t i = 0; i < mp.getAttachmentCount(); ++i) got.push_back(readA(*mp.getAttachmentAt(i)));
	size_t k = 0;
	for (auto& l : g.leaves) {
		if (l.isAtt) {
			AttX x; x.name = l.name; x.type = l.type; x.desc = l.desc; x.bytes = l.bytes;
			while (k < got.size() && showA(got[k]) != showA(x)) ++k;
			VH_CHECK(k < got.size(), "attachment-not-found", "attachment " << showA(x) << " is not listed (in order)"); ++k;
			c.count("attachments found");
		} else if (l.notAtt) for (auto& x : got) if (x.type == l.type && x.bytes == l.bytes && x.bytes.size() > 8) { bool other = false; for (auto& o : g.leaves) if (&o != &l && o.bytes == l.bytes) other = true; VH_CHECK(other, "not-an-attachment", "listed as attachment: " << showA(x)); }
	}
	for (auto& x : got) { bool any = false; for (auto& l : g.leaves) if (l.bytes == x.bytes) any = true; VH_CHECK(any, "attachment-invented", "no such part: " << showA(x)); }
	// texts
	std::vector<shared_ptr<const vmime::textPart>> tp = mp.getTextPartList();
	for (auto& l : g.leaves) if (l.text_) { bool any = false; for (auto& t : tp) if (t->getType().generate() == l.type && normEol(data(*t->getText())) == normEol(l.bytes)) any = true; VH_CHECK(any, "text-lost", "text part " << l.type << " " << q(l.bytes.substr(0, 80)) << " is not listed"); c.count("texts found"); }
	for (auto& t : tp) { bool any = false; for (auto& l : g.leaves) if (l.text_ && normEol(data(*t->getText())) == normEol(l.bytes)) any = true; VH_CHECK(any || single, "text-invented", "text part listed which is not one: " << q(data(*t->getText()))); }
	for (auto& h : g.htmls) {
		for (auto& t : tp) if (t->getType().getSubType() == "html" && normEol(data(*t->getText())) == normEol(g.leaves[h.leaf].bytes)) {
			auto ht = vmime::dynamicCast<const vmime::htmlTextPart>(t);
			if (h.hasPlain) VH_EQ(normEol(data(*ht->getPlainText())), normEol(h.plain), "plain-alternative", "plain text of the alternative");
			for (size_t i : h.objs) {
				auto& o = g.leaves[i]; str id = o.cid.empty() ? o.loc : "cid:" + o.cid;
				auto e = ht->findObject(id);
				VH_CHECK(e, "object-lost", "object " << id << " not found");
				VH_EQ(data(*e->getData()), o.bytes, "object-bytes", "contents of " << id);
				VH_EQ(e->getType().generate(), str("image/png"), "object-type", "type of " << id);
				VH_EQ(e->getReferenceId(), id, "object-id", "reference");
				c.count("embedded objects found");
			}
		}
	}
	if (g.leaves.size() > 1) c.nontrivial(w);
	c.seen("leaves", std::to_string(g.leaves.size()));
}

static void addatt(Ctx& c) {
	Rng& r = c.rng; MailGen g(r); str w = g.message();
	auto m = make_shared<vmime::message>(); m->parse(w);
	std::vector<str> before, hdr; leafDump(*m, before); plainFields(*m, hdr);
	std::vector<AttX> attsBefore; for (auto& a : vmime::attachmentHelper::findAttachmentsInMessage(m)) attsBefore.push_back(readA(*a));
	bool wasSingle = m->getBody()->getPartCount() == 0;
	// a part without Content-Type in the root is text; as a sub-part, attachmentHelper sees it as an attachment
	bool untyped = false; { std::function<void(const vmime::bodyPart&)> f = [&](const vmime::bodyPart& p) { if (!p.getBody()->getPartCount() && !p.getHeader()->hasField("Content-Type")) untyped = true; for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) f(*p.getBody()->getPartAt(i)); }; f(*m); }
	std::vector<AttX> added; str note = w;
	for (size_t n = 1 + r.below(3); n-- > 0;) {
		AttX x;
		if (r.chance(1, 5)) { auto a = smallMessage(r); std::ostringstream o; vmime::utility::outputStreamAdapter os(o); a->generate(os); x.bytes = o.str(); x.type = "message/rfc822"; x.msg = true; vmime::attachmentHelper::addAttachment(m, a); }
		else { auto a = genAtt(c, x); vmime::attachmentHelper::addAttachment(m, a); }
		added.push_back(x); note += "\n+ " + showA(x);
	}
	c.note(note);
	str wire; auto p = roundTrip(c, m, wire);
	std::vector<str> after, hdr2; leafDump(*p, after); plainFields(*p, hdr2);
	VH_EQ(joined(hdr2), joined(hdr), "header-changed", "header fields of the message");
	VH_EQ(after.size(), before.size() + added.size(), "leaf-count", "parts after adding; before:\n" << joined(before) << "after:\n" << joined(after));
	// everything that was there is still there, in order
	size_t k = 0;
	for (auto& b : before) { while (k < after.size() && after[k] != b) ++k; VH_CHECK(k < after.size(), wasSingle ? "root-part-changed" : "part-changed", "part lost or changed: " << b << "\nnow:\n" << joined(after)); ++k; }
	std::vector<AttX> now; std::vector<shared_ptr<const vmime::attachment>> list = vmime::attachmentHelper::findAttachmentsInMessage(p);
	size_t j = 0;
	for (auto& a : list) now.push_back(readA(*a));
	for (auto& b : attsBefore) { j = 0; while (j < now.size() && showA(now[j]) != showA(b)) ++j; VH_CHECK(j < now.size(), "attachment-lost", "attachment lost: " << showA(b)); }
	if (!untyped) VH_EQ(now.size(), attsBefore.size() + added.size(), "attachment-count", "attachments listed");
	j = 0;
	for (auto& x : added) {
		while (j < now.size() && showA(now[j]) != showA(x)) ++j;
		VH_CHECK(j < now.size(), "added-attachment", "added attachment not found again (in order): " << showA(x)); compareAtt(c, *list[j], x, "added attachment"); ++j;
	}
	c.seen("root", wasSingle ? "single" : m->getBody()->getContentType().generate());
	c.nontrivial(w + note);
}

// -------------------------------------------------------------- disposition notifications
static void mdn(Ctx& c) {
	Rng& r = c.rng;
	using namespace vmime::mdn;
	auto m = make_shared<vmime::message>();
	str w = "From: a@b.example\r\nTo: me@here.example\r\nSubject: hello\r\n"; bool hasMid = r.chance(5, 6); auto mid = apiMid(r);
	if (hasMid) w += "Message-Id: " + mid->generate() + "\r\n";
	m->parse(w + "\r\nbody\r\n");
	vmime::mailboxList l; std::vector<str> ex;
	for (size_t n = 1 + r.below(3); n-- > 0;) { auto b = apiMailbox(r); l.appendMailbox(b); ex.push_back(uAddr(*b)); }
	if (ex.size() == 1 && r.coin()) MDNHelper::attachMDNRequest(m, *l.getMailboxAt(0)); else MDNHelper::attachMDNRequest(m, l);
	str wire; m = roundTrip(c, m, wire); c.note(wire);
	auto poss = MDNHelper::getPossibleMDNs(m);
	VH_EQ(poss.size(), ex.size(), "possible-count", "possible notifications");
	for (size_t i = 0; i < ex.size(); ++i) VH_EQ(uAddr(poss[i].getRecipient()), ex[i], "possible-recipient", "recipient of the notification");
	// automatic sending: only to a single address equal to the return path
	{
		auto m2 = make_shared<vmime::message>(); std::ostringstream o; vmime::utility::outputStreamAdapter os(o); m->generate(os);
		str t = o.str(); int kind = (int)r.below(4); auto& first = *l.getMailboxAt(0);
		str em = uWord(first.getEmail().getLocalName()) + "@" + uWord(first.getEmail().getDomainName());
		if (kind == 1) t = "Return-Path: <" + em + ">\r\n" + t; else if (kind == 2) t = "Return-Path: <other@elsewhere.example>\r\n" + t; else if (kind == 3) t = "Return-Path: <>\r\n" + t;
		m2->parse(t);
		bool need = MDNHelper::needConfirmation(m2);
		VH_EQ(need, !(kind == 1 && ex.size() == 1), "need-confirmation", "confirmation needed (Return-Path kind " << kind << ", " << ex.size() << " addresses)");
	}
	VH_CHECK(!MDNHelper::isMDN(m), "is-mdn", "an ordinary message is not an MDN");
	auto me = apiMailbox(r);
	vmime::disposition d; d.setActionMode(r.pickc({"manual-action", "automatic-action"})); d.setSendingMode(r.pickc({"MDN-sent-manually", "MDN-sent-automatically"})); d.setType(r.pickc({"displayed", "deleted", "processed"}));
	if (r.chance(1, 3)) d.addModifier(r.pickc({"error", "x-mod"}));
	str cs = r.pickc({"utf-8", "us-ascii"}), text = genText(r, cs);
	std::vector<str> prods; for (size_t n = r.below(3); n-- > 0;) prods.push_back(r.from("abcdef/1.", 1 + r.below(12)) + "x");
	std::map<str, str> extra; if (r.coin()) extra["Error"] = "some error " + genToken(r); if (r.chance(1, 3)) extra["Warning"] = "careful " + genToken(r); if (r.chance(1, 3)) extra["Failure"] = "failed " + genToken(r);
	size_t w0 = r.below(poss.size());
	auto n = MDNHelper::buildMDN(poss[w0], text, vmime::charset(cs), *me, d, r.coin() ? "ua.example" : "", prods, extra);
	auto p = roundTrip(c, n, wire); c.note(wire);
	VH_EQ(uAddr(*p->getHeader()->findFieldValue<vmime::mailbox>("From")), uAddr(*me), "mdn-from", "sender of the notification");
	VH_EQ(addrs(*p->getHeader()->findFieldValue<vmime::addressList>("To")), ex[w0] + ";", "mdn-to", "addressee of the notification");
	VH_CHECK(MDNHelper::isMDN(p), "is-mdn", "the notification is not recognised");
	auto ri = MDNHelper::getReceivedMDN(p);
	VH_EQ(ri.getOriginalMessageId().generate(), hasMid ? mid->generate() : vmime::messageId().generate(), "mdn-original-id", "identifier of the original message");
	VH_EQ(ri.getDisposition().generate(), d.generate(), "mdn-disposition", "disposition");
	VH_EQ(p->getBody()->getPartCount(), (size_t)3, "mdn-parts", "parts");
	VH_EQ(normEol(data(*p->getBody()->getPartAt(0)->getBody()->getContents())), normEol(text), "mdn-text", "text for humans");
	vmime::header rep; rep.parse(data(*p->getBody()->getPartAt(1)->getBody()->getContents()));
	auto fr = rep.findField("Final-Recipient");
	VH_CHECK(fr, "mdn-final-recipient", "no Final-Recipient");
	VH_EQ(squeezeWs(fr->getValue()->generate()), "rfc822; " + me->getEmail().generate(), "mdn-final-recipient", "recipient on whose behalf the notification is sent");
	for (auto& e : extra) { auto f = rep.findField(e.first); VH_CHECK(f, "mdn-extra", "field " << e.first << " missing"); VH_EQ(squeezeWs(f->getValue()->generate()), e.second, "mdn-extra", e.first); }
	vmime::header orig; orig.parse(data(*p->getBody()->getPartAt(2)->getBody()->getContents()));
	VH_EQ(uHeader(orig), uHeader(*m->getHeader()), "mdn-original-header", "header of the original message");
	// copies of the information object
	receivedMDNInfos r2(ri); VH_EQ(r2.getOriginalMessageId().generate(), ri.getOriginalMessageId().generate(), "mdn-copy", "copy");
	sendableMDNInfos s2(poss[0]); s2 = poss[w0]; VH_EQ(uAddr(s2.getRecipient()), ex[w0], "mdn-copy", "copy"); 
	c.nontrivial(wire);
}

static void copies(Ctx& c) {
	Rng& r = c.rng;
	str bytes = genHostileBody(r); str name = genName(r);
	vmime::fileAttachment a(make_shared<vmime::stringContentHandler>(bytes), vmime::word(name, vmime::charset("utf-8")), vmime::mediaType("application", "x-a"));
	if (r.coin()) a.getFileInfo().setCreationDate(apiDate(r));
	c.note("copies of a file attachment " + q(name));
	auto show = [&](const vmime::fileAttachment& x) { auto& i = x.getFileInfo(); return q(i.hasFilename() ? uWord(i.getFilename()) : str("-")) + (i.hasSize() ? std::to_string(i.getSize()) : str("-")) + (i.hasCreationDate() ? dumpDate(i.getCreationDate()) : str("-")) + std::to_string(hash(data(*x.getData()))); };
	str before = show(a);
	{ vmime::fileAttachment b(a); VH_EQ(show(b), before, "file-attachment-copy", "copy"); b.getFileInfo().setFilename(str("changed")); b.getFileInfo().setSize(7); }
	VH_EQ(show(a), before, "file-attachment-copy", "original after its copy was changed and destroyed");
	vmime::fileAttachment d(make_shared<vmime::stringContentHandler>("z"), vmime::word("other"), vmime::mediaType("text", "plain"));
	d.getFileInfo().setModificationDate(apiDate(r));
	d = a; VH_EQ(show(d), before, "file-attachment-copy", "assigned");
	c.nontrivial(bytes + name);
}

void vh::setup() {
	setRule("random mail through messageBuilder (addresses, groups, plain/HTML text, embedded objects, four kinds of attachments), generated, parsed and taken apart by messageParser, compared with what was put in; random MIME structures written by an independent writer, taken apart and extended by attachmentHelper; MDN requests and notifications; a case is non-trivial if the message has attachments, HTML or more than one part");
	addAssumption("Texts are compared after normalising line breaks, attachments and embedded objects byte for byte");
	addSuite("build", 4000, 80000, build);
	addSuite("foreign", 6000, 120000, foreign);
	addSuite("addatt", 5000, 100000, addatt);
	addSuite("mdn", 3000, 60000, mdn);
	addSuite("copies", 400, 4000, copies);
}
