// C06: whatever is set, the generated text consists of well-formed fields and parts.
#include "vref.hpp"
using namespace vh;
using namespace vmime;

// strict RFC 5322 header: returns fields as (name, raw value); `err` on anything malformed
static bool refHeader(const str& h, std::vector<std::pair<str, str>>& out, str& err, bool allow8) {
	size_t i = 0;
	auto line = [&](str& l) { size_t e = h.find("\r\n", i); if (e == str::npos) { err = "last line without CRLF"; return false; } l = h.substr(i, e - i); i = e + 2; return true; };
	while (i < h.size()) {
		str l; if (!line(l)) return false;
		for (unsigned char c : l) { if (c == '\r' || c == '\n') { err = "bare line break character in " + esc(l, 300); return false; } if (c == 0) { err = "NUL in " + esc(l, 300); return false; } if (c >= 128 && !allow8) { err = "8-bit character in " + esc(l, 300); return false; } }
		if (l.empty()) { err = "empty line inside the header"; return false; }
		if (l[0] == ' ' || l[0] == '\t') {
			if (out.empty()) { err = "starts with a continuation line"; return false; }
			if (trimWs(l).empty()) { err = "line of white space only in field " + out.back().first; return false; }
			out.back().second += "\r\n" + l;
		} else {
			size_t c = l.find(':'); if (c == str::npos || c == 0) { err = "not a field: " + esc(l, 300); return false; }
			for (size_t k = 0; k < c; ++k) if ((unsigned char)l[k] <= 32 || (unsigned char)l[k] >= 127) { err = "bad field name: " + esc(l, 300); return false; }
			out.push_back({l.substr(0, c), l.substr(c + 1)});
		}
	}
	return true;
}
static str hostile(Rng& r, size_t n = 40) {
	static const std::vector<str> t = {"\r\n", "\r\nX-Evil: 1", "\r\nBcc: evil@example.com", "\r\n\r\nbody", "\n", "\r", "\nX-Evil: 2\n", " ", "\t", ",", ";", ":", "<", ">", "@", "\"", "\\", "(", ")", "=?", "?=", "=?utf-8?Q?=0D=0AX-Evil:_3?=", "\xc3\xa9", "\xff", "\xe6\x97\xa5", str("\0", 1), "\x01", "\x7f", "abc", "x y", "--", ".", "%0D%0A", "''", "\xf0\x9f\x98\x80", "a", "b", "hello world", "\r\n \r\n", "\r\n\t", "\x1b$B"};
	str s; if (r.chance(1, 8)) return s;
	for (size_t k = 1 + r.below(n / 4); k-- > 0;) s += r.chance(1, 3) ? r.from("abcdefghijklmnop ", 1 + r.below(12)) : r.pick(t);
	return s;
}
static str cleanTok(Rng& r) { return r.from("abcdefghijklmnop0123456789-_", 1 + r.below(20)); }
static word hWord(Rng& r) { return word(hostile(r), charset(r.pickc({"utf-8", "us-ascii", "iso-8859-1", "utf-8"})), r.chance(1, 10) ? "en" : ""); }
static text hText(Rng& r) { if (r.chance(1, 3)) return *text::newFromString(hostile(r, 120), charset(r.coin() ? "utf-8" : "iso-8859-1")); text t; for (size_t n = r.below(4); n-- > 0;) t.appendWord(make_shared<word>(hWord(r))); return t; }
static emailAddress hEmail(Rng& r) { return emailAddress(r.chance(1, 3) ? hWord(r) : word(cleanTok(r)), r.chance(1, 3) ? word(hostile(r, 12), charset("utf-8")) : word("example.com")); }
static shared_ptr<mailbox> hMailbox(Rng& r) { return make_shared<mailbox>(hText(r), hEmail(r)); }
static str hTok(Rng& r) { return r.chance(1, 3) ? hostile(r, 16) : cleanTok(r); }

static shared_ptr<headerField> hField(Rng& r) {
	auto fac = headerFieldFactory::getInstance();
	auto set = [&](const char* n, const headerFieldValue& v) { auto x = fac->create(n); x->setValue(v); return x; };
	switch (r.below(16)) {
		case 0: case 1: return set(r.coin() ? "Subject" : "X-Any", hText(r));
		case 2: return set("From", *hMailbox(r));
		case 3: case 4: { addressList l; for (size_t n = r.below(4); n-- > 0;) if (r.chance(1, 3)) { auto g = make_shared<mailboxGroup>(hText(r)); for (size_t k = r.below(3); k-- > 0;) g->appendMailbox(hMailbox(r)); l.appendAddress(g); } else l.appendAddress(hMailbox(r)); return set("To", l); }
		case 5: case 6: { auto x = vmime::dynamicCast<contentDispositionField>(set("Content-Disposition", contentDisposition(hTok(r)))); x->setFilename(hWord(r)); if (r.coin()) x->setSize(hTok(r)); x->appendParameter(make_shared<parameter>(cleanTok(r), hWord(r))); return x; }
		case 7: { auto x = vmime::dynamicCast<contentTypeField>(set("Content-Type", mediaType(hTok(r), hTok(r)))); if (r.coin()) x->setBoundary(hTok(r)); if (r.coin()) x->setCharset(charset(hTok(r))); x->appendParameter(make_shared<parameter>(cleanTok(r), hWord(r))); return x; }
		case 8: return set("Message-Id", messageId(hTok(r), hTok(r)));
		case 9: { messageIdSequence s; for (size_t n = r.below(5); n-- > 0;) s.appendMessageId(make_shared<messageId>(hTok(r), hTok(r))); return set("References", s); }
		case 10: return set("Content-Transfer-Encoding", encoding(hTok(r)));
		case 11: return set("Return-Path", path(hTok(r), hTok(r)));
		case 12: { relay y; y.setFrom(hTok(r)); y.setBy(hTok(r)); y.setVia(hTok(r)); y.setId(hTok(r)); y.setFor(hTok(r)); y.getWithList().push_back(hTok(r)); return set("Received", y); }
		case 13: { disposition d; d.setActionMode(hTok(r)); d.setSendingMode(hTok(r)); d.setType(hTok(r)); d.addModifier(hTok(r)); return set("Disposition", d); }
		case 14: { mailboxList l; for (size_t n = r.below(3); n-- > 0;) l.appendMailbox(hMailbox(r)); return set("Disposition-Notification-To", l); }
		default: { auto x = fac->create("X-Str"); x->setValue(hostile(r)); return x; }
	}
}
static void caseHeader(Ctx& c) {
	header h; str d; std::vector<str> names;
	size_t n = 1 + c.rng.below(5);
	for (size_t i = 0; i < n; ++i) { auto f = hField(c.rng); h.appendField(f); names.push_back(f->getName()); }
	generationContext ctx; ctx.setMaxLineLength(c.rng.chance(1, 6) ? lineLengthLimits::infinite : c.rng.chance(1, 3) ? 78 : (size_t)c.rng.range(20, 150));
	bool eai = c.rng.chance(1, 5); ctx.setInternationalizedEmailSupport(eai);
	ctx.setEncodedParameterValueMode((generationContext::EncodedParameterValueModes)c.rng.below(4));
	for (size_t i = 0; i < n; ++i) d += uField(*h.getFieldAt(i)) + " | ";
	d += "line " + std::to_string(ctx.getMaxLineLength()) + (eai ? " eai" : "") + " mode " + std::to_string((int)ctx.getEncodedParameterValueMode());
	c.note(d);
	str g; { utility::outputStreamStringAdapter o(g); h.generate(ctx, o); }
	std::vector<std::pair<str, str>> out; str err;
	bool raw8 = eai; for (auto& nm : names) { str l = lower(nm); if (l != "subject" && l != "x-any" && l != "x-str" && l != "from" && l != "to" && l != "disposition-notification-to") raw8 = true; }
	VH_CHECK(refHeader(g, out, err, raw8), "malformed:" + err.substr(0, err.find(" in ")), err << " in " << esc(g, 5000) << " from " << esc(d, 3000));
	VH_EQ(out.size(), n, "fields", "number of fields in " + esc(g, 5000) + " from " + d);
	for (size_t i = 0; i < n; ++i) VH_EQ(out[i].first, names[i], "names", "field name in " + esc(g, 5000));
	header h2; h2.parse(g);
	VH_EQ(h2.getFieldCount(), n, "reparsed", "fields parsed from " + esc(g, 5000));
	c.count("fields", n);
	c.nontrivial(d);
}
// folding of values which can be folded anywhere
static void caseFold(Ctx& c) {
	size_t max = (size_t)c.rng.range(30, 120); generationContext ctx; ctx.setMaxLineLength(max);
	header h; str d = "line " + std::to_string(max);
	bool ids = c.rng.chance(1, 4), addrs = c.rng.chance(1, 3);
	shared_ptr<headerField> f;
	size_t longest = 0;
	if (ids) { messageIdSequence s; for (size_t n = 1 + c.rng.below(20); n-- > 0;) { auto m = apiMid(c.rng); longest = std::max(longest, m->getId().size()); s.appendMessageId(m); } f = headerFieldFactory::getInstance()->create("References"); f->setValue(s); }
	else if (addrs) { addressList l; for (size_t n = 1 + c.rng.below(12); n-- > 0;) { auto m = apiMailbox(c.rng); l.appendAddress(m); } f = headerFieldFactory::getInstance()->create("To"); f->setValue(l); longest = 45; }
	else {
		str s; std::vector<str> ws; for (size_t n = 1 + c.rng.below(60); n-- > 0;) { str w = c.rng.from("abcdefghijklmnopqrstuvwxyz0123456789,.", 1 + c.rng.below(c.rng.chance(1, 8) ? 25 : 9)); s += (s.empty() ? "" : " ") + w; longest = std::max(longest, w.size()); }
		f = headerFieldFactory::getInstance()->create(c.rng.coin() ? "Subject" : "X-Quite-Long-Field-Name"); f->setValue(text(s, charset(c.rng.coin() ? "us-ascii" : "utf-8")));
	}
	d += " " + uField(*f); c.note(d);
	str g; { utility::outputStreamStringAdapter o(g); f->generate(ctx, o); }
	size_t b = 0; unsigned lines = 0; str name = f->getName();
	for (;;) {
		size_t e = g.find("\r\n", b); str l = g.substr(b, e == str::npos ? e : e - b); ++lines;
		if (l.size() > max + (addrs ? 60 : 2)) {
			// could have been folded?
			str body = lines == 1 ? l.substr(std::min(l.size(), name.size() + 2)) : l.substr(1);
			size_t sp = trimWs(body).find(' '); bool inside = sp != str::npos && body.find('"') == str::npos && body.find("=?") == str::npos;
			VH_CHECK(!inside || trimWs(body).size() <= longest, "not-folded", "line of " << l.size() << " characters with limit " << max << " could have been folded: " << esc(l, 1000) << " in " << esc(g, 4000));
		}
		if (e == str::npos) break;
		b = e + 2;
	}
	c.count("lines", lines);
	c.nontrivial(d);
}
// whole messages: structure as an independent reader sees it
static void countParts(const bodyPart& p, size_t& n) { ++n; for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) countParts(*p.getBody()->getPartAt(i), n); }
static shared_ptr<bodyPart> hPart(Rng& r, int depth, size_t& budget, bool root = false) {
	shared_ptr<bodyPart> p = root ? make_shared<message>() : make_shared<bodyPart>();
	for (size_t n = r.below(3); n-- > 0;) { auto f = hField(r); str l = lower(f->getName()); if (l != "content-type" && l != "content-transfer-encoding") p->getHeader()->appendField(f); }
	if (depth && budget && r.chance(2, 3)) {
		p->getHeader()->ContentType()->setValue(mediaType("multipart", "mixed"));
		if (r.chance(1, 3)) p->getBody()->setPrologText(hostile(r)); if (r.chance(1, 3)) p->getBody()->setEpilogText(hostile(r));
		for (size_t n = 1 + r.below(3); n-- > 0 && budget;) { --budget; p->getBody()->appendPart(hPart(r, depth - 1, budget)); }
	} else {
		str s = genHostileBody(r); vmime::encoding e(r.pickc({"7bit", "8bit", "base64", "quoted-printable"}));
		p->getBody()->setContents(make_shared<stringContentHandler>(s), mediaType("application", "octet-stream"), charset("utf-8"), e);
	}
	return p;
}
static str refBoundary(const str& ct) { size_t i = lower(ct).find("boundary"); if (i == str::npos) return ""; i = ct.find('=', i); if (i == str::npos) return ""; ++i; str v; if (ct[i] == '"') { for (++i; i < ct.size() && ct[i] != '"'; ++i) { if (ct[i] == '\\') ++i; v += ct[i]; } } else for (; i < ct.size() && !strchr("; \t\r\n", ct[i]); ++i) v += ct[i]; return v; }
static bool refParts(const str& t, size_t& n, str& err) {
	++n; size_t e = t.compare(0, 2, "\r\n") == 0 ? 0 : t.find("\r\n\r\n"); if (e == str::npos) { err = "no end of header in " + esc(t, 300); return false; }
	str hd = e ? t.substr(0, e + 2) : "", body = t.substr(e ? e + 4 : 2); std::vector<std::pair<str, str>> fs;
	if (!refHeader(hd, fs, err, true)) return false;
	str b; for (auto& f : fs) if (lower(f.first) == "content-type" && lower(f.second).find("multipart/") != str::npos) b = refBoundary(f.second);
	if (b.empty()) return true;
	if (b.size() > 70) { err = "boundary too long"; return false; }
	std::vector<str> parts; str cur; bool in = false, closed = false;
	for (size_t i = 0; i <= body.size();) {
		size_t l = body.find("\r\n", i); str line = body.substr(i, l == str::npos ? l : l - i);
		str tl = line; while (!tl.empty() && (tl.back() == ' ' || tl.back() == '\t')) tl.pop_back();
		if (tl == "--" + b || tl == "--" + b + "--") {
			if (in) { if (cur.size() >= 2) cur.resize(cur.size() - 2); parts.push_back(cur); }
			cur.clear(); in = tl == "--" + b; if (!in) { closed = true; break; }
		} else if (in) cur += line + "\r\n";
		if (l == str::npos) break;
		i = l + 2;
	}
	if (!closed) { err = "no closing delimiter"; return false; }
	for (auto& p : parts) if (!refParts(p, n, err)) return false;
	return true;
}
static void caseMessage(Ctx& c) {
	size_t budget = 12; auto m = vmime::dynamicCast<message>(hPart(c.rng, 3, budget, true));
	generationContext ctx; ctx.setMaxLineLength(c.rng.chance(1, 6) ? lineLengthLimits::infinite : (size_t)c.rng.range(78, 160));
	size_t want = 0, got = 0; countParts(*m, want);
	str g; { utility::outputStreamStringAdapter o(g); m->generate(ctx, o); }
	c.note(g); str err;
	VH_CHECK(refParts(g, got, err), "message:" + err.substr(0, std::min(err.find(" in "), err.find(":"))), err << " in " << esc(g, 6000));
	VH_EQ(got, want, "message-parts", "parts seen by an independent reader in " + esc(g, 6000));
	c.count("parts", want);
	c.nontrivial(g);
}

void vh::setup() {
	setRule("an output counts when it was read by the independent header and multipart reader; distinct by the values set");
	addSuite("header", 60000, 3000000, caseHeader);
	addSuite("fold", 30000, 1500000, caseFold);
	addSuite("message", 10000, 500000, caseMessage);
}
