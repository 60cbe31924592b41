// C17: small structured header values and property sets.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/misc/importanceHelper.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
using namespace vh;
using vmime::shared_ptr; using vmime::make_shared;

static const char* TOK = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_+.!#$&^";
static str token(Rng& r, size_t m) { return r.from(TOK, 1 + r.below(m)); }
static str atom(Rng& r, size_t m) { return r.from("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_+!#$%&'*/=?^`{|}~", 1 + r.below(m)); }
static str dotAtom(Rng& r, size_t m) { str s = atom(r, m); while (r.chance(1, 2) && s.size() < m) s += "." + atom(r, m / 2 + 1); return s; }
static str domain(Rng& r) { static const std::vector<str> k = {"localhost", "example.com", "[192.0.2.1]", "[IPv6:2001:db8::1]", "mail.example.org", "xn--a.b", "x"}; return r.coin() ? r.pick(k) : dotAtom(r, 30); }
static str lower(str s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static str anyCase(Rng& r, str s) { for (auto& c : s) if (isalpha((unsigned char)c) && r.chance(1, 3)) c ^= 32; return s; }
static str fold(Rng& r) { return r.pickc({" ", "  ", "\t", "\r\n ", "\r\n\t", " \r\n  "}); }
static str comment(Rng& r, int d = 0) { str s = "("; for (int k = (int)r.below(5); k > 0; --k) { s += r.chance(1, 6) && d < 3 ? comment(r, d + 1) : r.pickc({"a", "by", "from x", "word", "\\)", "\\(", "id", "<z@z>", "1.2.3.4", "with", "for", "@", "=", "\xc3\xa9"}); s += r.pickc({" ", "", "\r\n "}); } return s + ")"; }
static vmime::generationContext ctxOf(Rng& r, Ctx& c) { vmime::generationContext g(vmime::generationContext::getDefaultContext()); static const int L[] = {20, 30, 40, 78, 200, 998}; int l = L[r.below(6)]; g.setMaxLineLength(l); g.setWrapMessageId(r.coin()); c.seen("line length", show(l)); return g; }
static str gen(const vmime::component& v, const vmime::generationContext& g, size_t col) { str s; vmime::utility::outputStreamStringAdapter os(s); v.generate(g, os, col); os.flush(); return s; }
static vmime::datetime date(Rng& r) { static const int Z[] = {0, 60, -300, 330, 720, -720, 1}; int m = (int)r.range(1, 12); return vmime::datetime((int)r.range(1970, 2090), m, (int)r.range(1, 28), (int)r.below(24), (int)r.below(60), (int)r.below(60), Z[r.below(7)]); }

// value descriptions
static str D(const vmime::messageId& m) { return show(m.getLeft()) + "@" + show(m.getRight()); }
static str D(const vmime::messageIdSequence& s) { str o; for (size_t i = 0; i < s.getMessageIdCount(); ++i) o += D(*s.getMessageIdAt(i)) + " "; return o; }
static str D(const vmime::mediaType& m) { return show(m.getType()) + "/" + show(m.getSubType()); }
static str D(const vmime::contentDisposition& m) { return show(m.getName()); }
static str D(const vmime::encoding& m) { return show(m.getName()); }
static str D(const vmime::charset& m) { return show(m.getName()); }
static str D(const vmime::path& p) { return show(p.getLocalPart()) + "@" + show(p.getDomain()); }
static str D(const vmime::disposition& d) { str o = show(d.getActionMode()) + "/" + show(d.getSendingMode()) + ";" + show(d.getType()); for (auto& m : d.getModifierList()) o += "," + show(m); return o; }
static str D(const vmime::relay& r) { str o = "from " + show(r.getFrom()) + " by " + show(r.getBy()) + " via " + show(r.getVia()); for (auto& w : r.getWithList()) o += " with " + show(w); str d; d = r.getDate().generate(); return o + " id " + show(r.getId()) + " for " + show(r.getFor()) + " at " + d; }
template <class T> T used(Rng&, const T& other) { T t(other); return t; }

static shared_ptr<vmime::component> vc(shared_ptr<vmime::headerFieldValue> v) { return v; }
static void setF(vmime::headerField& f, const vmime::headerFieldValue& v) { f.setValue(v); }
static void setF(vmime::headerField&, const vmime::charset&) {}
// direct, into a used object, and through a field of a header
template <class T> void round(Ctx& c, const T& v, const T& other, const char* field, const char* key) {
	Rng& r = c.rng; auto g = ctxOf(r, c); size_t col = r.coin() ? 0 : r.below(60); str want = D(v);
	str s = gen(v, g, col); { T t; t.parse(s); VH_EQ(D(t), want, str(key) + "-roundtrip", show(s)); }
	{ T t(other); t.parse(s); VH_EQ(D(t), want, str(key) + "-reused", show(s) << " parsed into an object that held " << D(other)); VH_EQ(gen(t, g, col), s, str(key) + "-stable", ""); }
	{ T t; t.parse("xx" + s + "yy", 2, s.size() + 2); VH_EQ(D(t), want, str(key) + "-inside", show(s)); }
	if (field) {
		auto h = make_shared<vmime::header>(); auto f = h->getField(field); setF(*f, v); auto got = std::dynamic_pointer_cast<T>(vc(f->getValue())); VH_CHECK(got, str(key) + "-fieldtype", field); VH_EQ(D(*got), want, str(key) + "-fieldvalue", "");
		str hs = gen(*h, g, 0); auto h2 = make_shared<vmime::header>(); h2->parse(hs); VH_EQ(h2->getFieldCount(), (size_t)1, str(key) + "-fields", show(hs)); auto f2 = h2->findField(field); VH_CHECK(f2, str(key) + "-field", show(hs)); auto v2 = std::dynamic_pointer_cast<T>(vc(f2->getValue())); VH_CHECK(v2, str(key) + "-fieldtype", show(hs)); VH_EQ(D(*v2), want, str(key) + "-header", show(hs));
		c.count("through a header");
	}
}
static vmime::messageId genMid(Rng& r) {
	str left = r.chance(1, 12) ? "vmime." + r.from("abcdef0123456789.", 60) : dotAtom(r, 24), right = r.chance(1, 12) ? "" : domain(r);
	if (r.chance(1, 30)) return vmime::messageId::generateId();
	return vmime::messageId(left, right);
}
static void sMid(Ctx& c) { Rng& r = c.rng; auto m = genMid(r), o = genMid(r); c.note(D(m)); c.nontrivial(D(m)); round(c, m, o, r.pickc({"Message-Id", "Content-Id", "Original-Message-Id"}).c_str(), "messageId");
	VH_EQ(m.getId(), m.getRight().empty() ? m.getLeft() : m.getLeft() + "@" + m.getRight(), "getId", D(m)); vmime::messageId t(gen(m, vmime::generationContext::getDefaultContext(), 0)); VH_CHECK(t == m && !(t != m), "messageId-equal", D(m)); VH_EQ(t == o, D(m) == D(o), "messageId-equal", D(m) << D(o)); }
static void sMids(Ctx& c) { Rng& r = c.rng; vmime::messageIdSequence s, o; for (int k = (int)r.below(r.chance(1, 8) ? 40 : 5); k > 0; --k) s.appendMessageId(make_shared<vmime::messageId>(genMid(r))); for (int k = (int)r.below(3); k > 0; --k) o.appendMessageId(make_shared<vmime::messageId>(genMid(r)));
	c.note(D(s)); c.nontrivial(D(s)); round(c, s, o, s.isEmpty() ? 0 : r.coin() ? "References" : "In-Reply-To", "references"); c.seen("ids", show(s.getMessageIdCount())); }
static void sMidText(Ctx& c) { // written by others
	Rng& r = c.rng; vmime::messageIdSequence w; str s, one, text; int n = (int)r.below(6);
	if (r.chance(1, 4)) s += fold(r); for (int k = 0; k < n; ++k) { str l = dotAtom(r, 20), d = domain(r); w.appendMessageId(make_shared<vmime::messageId>(l, d)); if (r.chance(1, 5)) { s += comment(r) + fold(r); c.count("comments"); } s += "<" + l + "@" + d + ">"; if (r.chance(1, 3)) c.count("adjacent ids"); else s += fold(r); }
	c.note(show(s)); c.nontrivial(s); vmime::messageIdSequence t; t.parse(s); VH_EQ(D(t), D(w), "references-text", show(s));
	str l = dotAtom(r, 20), d = domain(r); s = (r.coin() ? comment(r) : "") + (r.coin() ? fold(r) : "") + "<" + l + "@" + d + ">" + (r.coin() ? fold(r) : "") + (r.coin() ? comment(r) : ""); vmime::messageId m; m.parse(s); VH_EQ(D(m), D(vmime::messageId(l, d)), "messageId-text", show(s));
}
static void sMedia(Ctx& c) { Rng& r = c.rng; auto mk = [&] { str t = r.coin() ? r.pickc({"text", "multipart", "application", "IMAGE", "message"}) : token(r, 12), s = r.coin() ? r.pickc({"plain", "HTML", "x-y", "vnd.a+xml"}) : token(r, 16); vmime::mediaType m; switch (r.below(3)) { case 0: m = vmime::mediaType(t, s); break; case 1: m = t + "/" + s; break; default: m.setType(t); m.setSubType(s); } VH_EQ(m.getType(), lower(t), "media-lower", t); VH_EQ(m.getSubType(), lower(s), "media-lower", s); return m; };
	auto m = mk(), o = mk(); c.note(D(m)); c.nontrivial(D(m)); round(c, m, o, "Content-Type", "mediaType"); VH_EQ(m == o, D(m) == D(o), "media-equal", D(m) << D(o)); str w = r.pickc({" ", "\t", ""}) + anyCase(r, m.getType()) + r.pickc({"", " "}) + "/" + r.pickc({"", "  "}) + anyCase(r, m.getSubType()) + r.pickc({"", " ", "\r\n "}); vmime::mediaType t; t.parse(w); VH_EQ(D(t), D(m), "media-text", show(w)); VH_CHECK(t == m && !(t != m), "media-equal", ""); }
static void sSimple(Ctx& c) {
	Rng& r = c.rng; { str n = r.coin() ? r.pickc({"inline", "ATTACHMENT", "attachment"}) : token(r, 14); vmime::contentDisposition d(n), o(token(r, 5)); c.note(n); c.nontrivial(n); VH_EQ(d.getName(), lower(n), "disp-lower", n); round(c, d, o, "Content-Disposition", "contentDisposition");
	  vmime::contentDisposition e, f; e.setName(anyCase(r, n)); f = anyCase(r, n); VH_CHECK(d == e && e == d && e == f && f == e && !(d != e) && !(e != d), "disp-equal", show(n) << " " << show(e.getName())); VH_EQ(d == o, lower(n) == o.getName(), "disp-equal", n); VH_EQ(o == d, lower(n) == o.getName(), "disp-equal", n); }
	{ str n = r.coin() ? r.pickc({"7bit", "8BIT", "base64", "quoted-printable", "binary", "x-uuencode", "uuencode"}) : token(r, 14); vmime::encoding d(n), o(token(r, 5)); VH_EQ(d.getName(), lower(n), "enc-lower", n); round(c, d, o, "Content-Transfer-Encoding", "encoding");
	  vmime::encoding e, f; e.setName(anyCase(r, n)); f = anyCase(r, n); VH_CHECK(d == e && e == d && e == f && f == e && !(d != e) && !(e != d), "enc-equal", show(n) << " " << show(e.getName())); vmime::encoding q; str w = r.pickc({"", " ", "\r\n "}) + n + r.pickc({"", " "}); if (r.coin()) w = "\"" + n + "\""; q.parse(w); VH_EQ(D(q), D(d), "enc-text", show(w)); }
	{ str n = r.coin() ? r.pickc({"utf-8", "UTF-8", "iso-8859-1", "unicode-1-1-utf-7", "x"}) : token(r, 14); vmime::charset d(n), o(token(r, 5)); if (lower(n) == "unicode-1-1-utf-7") VH_EQ(d.getName(), str("utf-7"), "charset-alias", n); else VH_EQ(d.getName(), n, "charset-name", n); round(c, d, o, 0, "charset"); vmime::charset e(anyCase(r, n)); VH_CHECK(d == e && e == d && !(d != e), "charset-equal", n); VH_EQ(d == o, lower(d.getName()) == lower(o.getName()), "charset-equal", n); }
}
static void sPath(Ctx& c) { Rng& r = c.rng; auto mk = [&] { if (r.chance(1, 8)) return vmime::path(); str l = dotAtom(r, 14); if (r.chance(1, 4)) { l = "\""; for (int k = 1 + (int)r.below(5); k > 0; --k) l += r.pickc({"a", " ", "@", ".", "<", ">", "b@c", ",", ":", "\\\"", "\\\\"}); l += "\""; } return vmime::path(l, domain(r)); };
	auto p = mk(), o = mk(); c.note(D(p)); c.nontrivial(D(p)); round(c, p, o, "Return-Path", "path"); vmime::path t(p); VH_CHECK(t == p && !(t != p), "path-equal", ""); VH_EQ(p == o, D(p) == D(o), "path-equal", ""); 
	if (p.getLocalPart().find_first_of(" <>") == str::npos) { str w = r.pickc({"", " ", "\r\n "}) + "<" + r.pickc({"", " "}) + (p.getDomain().empty() ? "" : p.getLocalPart() + "@" + p.getDomain()) + r.pickc({"", " "}) + ">" + r.pickc({"", " "}); t.parse(w); VH_EQ(D(t), D(p), "path-text", show(w)); } }
static void sDisp(Ctx& c) {
	Rng& r = c.rng; auto tk = [&] { return r.from("abcdefghijXYZ0123456789-.", 1 + r.below(14)); };
	auto mk = [&](std::vector<str>& mods) { vmime::disposition d; if (r.chance(1, 4)) { str m = r.coin() ? "" : tk(); d = vmime::disposition(r.coin() ? "manual-action" : tk(), r.coin() ? "MDN-sent-manually" : tk(), r.coin() ? "displayed" : tk(), m); if (!m.empty()) mods.push_back(lower(m)); } else { d.setActionMode(r.coin() ? "automatic-action" : tk()); d.setSendingMode(tk()); d.setType(r.coin() ? "deleted" : tk()); } for (int k = (int)r.below(4); k > 0; --k) { str m = r.coin() ? r.pickc({"error", "Warning", "EXPIRED"}) : tk(); d.addModifier(m); if (std::find(mods.begin(), mods.end(), lower(m)) == mods.end()) mods.push_back(lower(m)); } if (!mods.empty() && r.chance(1, 3)) { size_t k = r.below(mods.size()); d.removeModifier(anyCase(r, mods[k])); mods.erase(mods.begin() + k); } return d; };
	std::vector<str> mods, m2; auto d = mk(mods), o = mk(m2); c.note(D(d)); c.nontrivial(D(d)); { str a, b; for (auto& m : d.getModifierList()) a += m + ","; for (auto& m : mods) b += m + ","; VH_EQ(a, b, "modifiers", D(d)); }
	round(c, d, o, "Disposition", "disposition");
	str w = d.getActionMode() + "/" + d.getSendingMode() + r.pickc({"", " "}) + ";" + r.pickc({"", " ", "\r\n "}) + d.getType() + r.pickc({"", " "}); for (size_t i = 0; i < mods.size(); ++i) w += str(i ? "," : "/") + r.pickc({"", " "}) + anyCase(r, mods[i]) + r.pickc({"", " "}); vmime::disposition t; t.parse(w); for (auto& m : mods) VH_CHECK(t.hasModifier(anyCase(r, m)), "modifier-text", show(w) << " has " << m); VH_EQ(t.getModifierList().size(), mods.size(), "modifier-text", show(w)); if (!mods.empty()) { t.removeModifier(anyCase(r, mods[0])); VH_CHECK(!t.hasModifier(mods[0]), "modifier-remove", show(w)); } VH_EQ(t.getType(), d.getType(), "disp-text", show(w)); VH_EQ(t.getActionMode(), d.getActionMode(), "disp-text", show(w)); VH_EQ(t.getSendingMode(), d.getSendingMode(), "disp-text", show(w));
}
// Received
static str relWord(Rng& r) { static const std::vector<str> k = {"example.com", "[192.0.2.1]", "foo.example.org", "idp.example.org", "bytes.net", "wilson.example.com", "vines.example.com", "fromage.fr", "forge.example.com", "with-dash.example", "viad", "ident", "ESMTP", "ESMTPS", "SMTP", "TCP", "abc123", "<a@b.c>", "UUCP", "forwarded"}; return r.coin() ? r.pick(k) : dotAtom(r, 16); }
static bool kw(const str& w) { str l = lower(w); return l == "from" || l == "by" || l == "via" || l == "with" || l == "id" || l == "for"; }
static str relVal(Rng& r, Ctx& c) { str s; do s = relWord(r); while (kw(s)); if (r.chance(1, 3)) { c.count("comments"); str k = comment(r), f; // canonical: single spaces
	for (char ch : k) { if (ch == '\r' || ch == '\n' || ch == '\t') ch = ' '; if (ch == ' ' && !f.empty() && f.back() == ' ') continue; f += ch; } s += " " + f; } return s; }
static void setRel(Rng& r, Ctx& c, vmime::relay& v) { if (r.chance(4, 5)) v.setFrom(relVal(r, c)); if (r.chance(4, 5)) v.setBy(relVal(r, c)); if (r.chance(1, 3)) v.setVia(relVal(r, c)); for (int k = r.coin() ? (int)r.below(3) : 1; k > 0; --k) v.getWithList().push_back(relVal(r, c)); if (r.coin()) v.setId(relVal(r, c)); if (r.coin()) v.setFor(relVal(r, c)); v.setDate(date(r)); }
static void sRelay(Ctx& c) { Rng& r = c.rng; vmime::relay v, o; setRel(r, c, v); setRel(r, c, o); c.note(D(v)); c.nontrivial(D(v)); round(c, v, o, "Received", "relay"); vmime::relay cp(v), as; as = v; VH_EQ(D(cp), D(v), "relay-copy", ""); VH_EQ(D(as), D(v), "relay-copy", "");
	// written by others: any case of keywords, any white space
	str s; auto sp = [&] { return fold(r); }; auto add = [&](const char* k, const str& x) { if (x.empty()) return; if (!s.empty()) s += sp(); s += anyCase(r, k) + sp(); for (char ch : x) if (ch == ' ') s += sp(); else s += ch; };
	add("from", v.getFrom()); add("by", v.getBy()); add("via", v.getVia()); for (auto& w : v.getWithList()) add("with", w); add("id", v.getId()); add("for", v.getFor()); s += r.pickc({"", " ", "\r\n "}) + ";" + r.pickc({"", " ", "\r\n\t"}) + v.getDate().generate();
	vmime::relay t; t.parse(s); VH_EQ(D(t), D(v), "relay-text", show(s)); }
static void sFields(Ctx& c) { // accessors of Content-Type and Content-Disposition
	Rng& r = c.rng; auto h = make_shared<vmime::header>(); str d; auto say = [&](const str& k, const str& v) { d += k + "=" + show(v) + " "; }; auto g = ctxOf(r, c);
	auto ct = std::dynamic_pointer_cast<vmime::contentTypeField>(h->getField("Content-Type")); ct->setValue(vmime::mediaType("text/plain")); auto cd = std::dynamic_pointer_cast<vmime::contentDispositionField>(h->getField("Content-Disposition")); cd->setValue(vmime::contentDisposition("attachment"));
	str cs = token(r, 10), bd = r.from("abcXYZ0123456789'()+_,-./:=?", 1 + r.below(60)), rt = token(r, 12), sz = show(r.below(1u << 30)), fn; for (int k = 1 + (int)r.below(12); k > 0; --k) fn += r.pickc({"a", "b", " ", ".", "\xc3\xa9", "\xe6\x97\xa5", "\"", "\\", "'", ";", "=", "%", "\xf0\x9f\x98\x80"}); fn = "f" + fn + "x"; vmime::datetime a = date(r), b = date(r), e = date(r);
	int m = (int)r.below(256); if (m & 1) ct->setCharset(vmime::charset(cs)), say("charset", cs); if (m & 2) ct->setBoundary(bd), say("boundary", bd); if (m & 4) ct->setReportType(rt), say("report-type", rt); if (m & 8) cd->setSize(sz), say("size", sz); if (m & 16) cd->setFilename(vmime::word(fn, vmime::charset("utf-8"))), say("filename", fn); if (m & 32) cd->setCreationDate(a), say("creation", a.generate()); if (m & 64) cd->setModificationDate(b), say("modification", b.generate()); if (m & 128) cd->setReadDate(e), say("read", e.generate());
	c.note(d); c.nontrivial(d);
	auto check = [&](shared_ptr<vmime::contentTypeField> ct, shared_ptr<vmime::contentDispositionField> cd, const str& k, const str& s) {
		VH_EQ(ct->hasCharset(), !!(m & 1), k + "-has", s); if (m & 1) VH_EQ(lower(ct->getCharset().getName()), lower(cs), k + "-charset", s); VH_EQ(ct->hasBoundary(), !!(m & 2), k + "-has", s); if (m & 2) VH_EQ(ct->getBoundary(), bd, k + "-boundary", s); VH_EQ(ct->hasReportType(), !!(m & 4), k + "-has", s); if (m & 4) VH_EQ(ct->getReportType(), rt, k + "-report", s);
		VH_EQ(cd->hasSize(), !!(m & 8), k + "-has", s); if (m & 8) VH_EQ(cd->getSize(), sz, k + "-size", s); VH_EQ(cd->hasFilename(), !!(m & 16), k + "-has", s); if (m & 16) VH_EQ(cd->getFilename().getConvertedText(vmime::charset("utf-8")), fn, k + "-filename", s); VH_EQ(cd->hasCreationDate(), !!(m & 32), k + "-has", s); if (m & 32) VH_EQ(cd->getCreationDate().generate(), a.generate(), k + "-creation", s); VH_EQ(cd->hasModificationDate(), !!(m & 64), k + "-has", s); if (m & 64) VH_EQ(cd->getModificationDate().generate(), b.generate(), k + "-modification", s); VH_EQ(cd->hasReadDate(), !!(m & 128), k + "-has", s); if (m & 128) VH_EQ(cd->getReadDate().generate(), e.generate(), k + "-read", s); };
	check(ct, cd, "set", ""); str s = gen(*h, g, 0); vmime::header h2; h2.parse(s); auto c2 = std::dynamic_pointer_cast<vmime::contentTypeField>(h2.findField("content-type")); auto d2 = std::dynamic_pointer_cast<vmime::contentDispositionField>(h2.findField("content-disposition")); VH_CHECK(c2 && d2, "field-types", show(s)); check(c2, d2, "parsed", show(s));
}
static void sImportance(Ctx& c) {
	Rng& r = c.rng; typedef vmime::misc::importanceHelper IH; auto msg = make_shared<vmime::message>(); auto h = msg->getHeader(); if (r.coin()) h->Subject()->setValue(vmime::text("x")); static const IH::Importance I[] = {IH::IMPORTANCE_HIGHEST, IH::IMPORTANCE_HIGH, IH::IMPORTANCE_NORMAL, IH::IMPORTANCE_LOW, IH::IMPORTANCE_LOWEST};
	VH_EQ((int)IH::getImportance(msg), (int)IH::IMPORTANCE_NORMAL, "imp-default", ""); size_t before = h->getFieldCount(); int k = 0, n = 1 + (int)r.below(3); str seq; for (int i = 0; i < n; ++i) { k = (int)r.below(5); seq += show(k); IH::setImportance(msg, I[k]); VH_EQ((int)IH::getImportance(msg), (int)I[k], "imp-set", seq); VH_EQ(h->getFieldCount(), before + 2, "imp-fields", seq); }
	c.note(seq); c.nontrivial(seq); auto m2 = make_shared<vmime::message>(); m2->parse(msg->generate()); VH_EQ((int)IH::getImportance(m2), (int)I[k], "imp-parsed", seq); if (r.coin()) { m2->getHeader()->removeField(m2->getHeader()->findField("X-Priority")); int e = k < 2 ? 0 : k == 2 ? 2 : 4; VH_EQ((int)IH::getImportance(m2), (int)I[e], "imp-importance", seq); } IH::resetImportance(msg); VH_EQ((int)IH::getImportance(msg), (int)IH::IMPORTANCE_NORMAL, "imp-reset", seq); VH_EQ(h->getFieldCount(), before, "imp-reset", seq);
}
// property sets against a list of pairs
typedef std::vector<std::pair<str, str>> PL;
static PL::iterator pf(PL& l, const str& n) { return std::find_if(l.begin(), l.end(), [&](const std::pair<str, str>& p) { return lower(p.first) == lower(n); }); }
static str showL(const PL& l) { str s; for (auto& p : l) s += show(p.first) + "=" + show(p.second) + " "; return s; }
static void cmp(Ctx& c, const vmime::propertySet& p, PL& l, const str& ops) {
	PL g; for (auto& x : p.getPropertyList()) g.push_back({x->getName(), x->getValue()}); VH_EQ(showL(g), showL(l), "props-list", ops);
	for (auto& x : l) { str n = anyCase(c.rng, x.first); VH_CHECK(p.hasProperty(n), "props-has", n << " after " << ops); VH_EQ(p.getProperty<str>(n), x.second, "props-get", n << " after " << ops); VH_EQ((str)p[n], x.second, "props-index", ops); VH_EQ(p.getProperty<str>(n, "dflt"), x.second, "props-get-default", ops); }
}
static str propName(Rng& r) { return r.coin() ? r.pickc({"a", "B", "server.address", "auth.password", "x y", "Options", "c"}) : r.from("abXY.-_:", 1 + r.below(8)); }
static void sProps(Ctx& c) {
	Rng& r = c.rng; vmime::propertySet p; PL l; str ops;
	for (int k = 1 + (int)r.below(12); k > 0; --k) {
		str n = propName(r); auto it = pf(l, n); auto put = [&](const str& v) { if (it == l.end()) l.push_back({n, v}); else it->second = v; }; long v = r.coin() ? r.range(-5, 5) : (long)(int)r.next();
		switch (r.below(9)) {
			case 0: { str v = r.bytes(r.size(30)); ops += "str " + n + ";"; p.setProperty(n, v); put(v); break; }
			case 1: ops += "int " + n + ";"; if (r.coin()) p.setProperty(n, (int)v); else p[n] = (int)v; put(show(v)); VH_EQ(p.getProperty<int>(anyCase(r, n)), (int)v, "props-int", ops); VH_EQ(p[n].getValue<long>(), v, "props-int", ops); VH_EQ(p.getProperty<bool>(n), v != 0, "props-int-bool", ops << v); break;
			case 2: { bool b = r.coin(); ops += "bool " + n + ";"; if (r.coin()) p.setProperty(n, b); else p[n].setValue(b); put(b ? "true" : "false"); VH_EQ(p.getProperty<bool>(n), b, "props-bool", ops); break; }
			case 3: ops += "rm " + n + ";"; p.removeProperty(anyCase(r, n)); if (it != l.end()) l.erase(it); VH_CHECK(!p.hasProperty(n), "props-removed", ops); break;
			case 4: { ops += "missing " + n + ";"; if (it != l.end()) break; VH_CHECK(!p.hasProperty(n), "props-has", ops); try { p.getProperty<str>(n); fail("props-missing", ops); } catch (vmime::exceptions::no_such_property&) { c.count("missing refused"); } VH_EQ(p.getProperty<int>(n, 42), 42, "props-default", ops); VH_EQ(p.getProperty<bool>(n, true), true, "props-default", ops); break; }
			case 5: { str t = r.pickc({"TRUE", "True", "true", "false", "1", "0", "2", "-1", "yes", "", "x1"}); bool w = lower(t) == "true" || t == "1" || t == "2" || t == "-1"; ops += "text " + n + "=" + t + ";"; p.setProperty(n, t); put(t); VH_EQ(p.getProperty<bool>(n), w, "props-text-bool", t); if (t.empty() || isalpha((unsigned char)t[0])) { try { p.getProperty<int>(n); fail("props-not-int", t); } catch (vmime::exceptions::invalid_property_type&) {} } else VH_EQ(p.getProperty<int>(n), atoi(t.c_str()), "props-text-int", t); VH_EQ(vmime::propertySet::valueFromString<bool>(t), w, "props-value-bool", t); break; }
			case 6: { ops += "copy;"; vmime::propertySet q(p), s; s.setProperty("old", "1"); s = p; cmp(c, q, l, ops); cmp(c, s, l, ops); q.setProperty("zz", "1"); s.removeAllProperties(); if (!l.empty()) { q.setProperty(l[0].first, str("changed")); } break; }
			case 7: { ops += "self;"; vmime::propertySet& q = p; p = q; break; }
			default: if (r.chance(1, 6)) { ops += "clear;"; p.removeAllProperties(); l.clear(); } else { int z = (int)v; VH_EQ(vmime::propertySet::valueToString(z), show(z), "value-to-string", ""); VH_EQ(vmime::propertySet::valueFromString<int>(show(z)), z, "value-from-string", ""); VH_EQ(vmime::propertySet::valueToString(ops), ops, "value-to-string", ""); VH_EQ(vmime::propertySet::valueToString(true), str("true"), "value-to-string", ""); }
		}
		cmp(c, p, l, ops);
	}
	c.note(ops); c.nontrivial(ops);
}
static void sPropText(Ctx& c) { // name[=value](;name[=value])*
	Rng& r = c.rng; str s; PL l; vmime::propertySet p; if (r.chance(1, 4)) { p.setProperty("a", "before"); l.push_back({"a", "before"}); }
	int n = 1 + (int)r.below(6); std::set<str> used; for (int k = 0; k < n; ++k) { str nm = propName(r); if (!used.insert(lower(nm)).second) continue; str v, w; if (!s.empty()) s += ";"; w = r.pickc({"", "", " ", "  \t"}); s += w + nm + r.pickc({"", "", " "});
		switch (r.below(4)) { case 0: v = "1"; c.count("without value"); break; case 1: v = r.from("abcXY019.:/@%-_=", 1 + r.below(10)); s += "=" + r.pickc({"", "", " "}) + v + r.pickc({"", "", " "}); c.count("plain values"); break;
			default: { v = r.coin() ? r.bytes(r.size(20)) : r.from("ab ;='\"\\,", r.size(20)); char q = r.coin() ? '"' : '\''; s += "=" + r.pickc({"", " "}) + q; for (char ch : v) { if (ch == q || ch == '\\' || (r.chance(1, 10))) s += '\\'; s += ch; } s += q; s += r.pickc({"", "", " "}); c.count("quoted values"); } }
		auto it = pf(l, nm); if (it == l.end()) l.push_back({nm, v}); else it->second = v; }
	if (r.chance(1, 4)) s += ";"; c.note(show(s)); c.nontrivial(s); if (l.size() && l[0].second == "before" && l.size() == 1 && s.empty()) return;
	if (p.getPropertyList().empty() && r.coin()) { vmime::propertySet q(s); cmp(c, q, l, show(s)); } else { p.setFromString(s); cmp(c, p, l, show(s)); }
}
static void sPropAny(Ctx& c) { Rng& r = c.rng; str s = r.coin() ? r.bytes(r.size(80)) : r.from("ab=;\"'\\ \t", r.size(80)); c.note(show(s)); c.nontrivial(s); vmime::propertySet p(s); for (auto& x : p.getPropertyList()) VH_CHECK(p.hasProperty(x->getName()), "props-any", show(s)); vmime::propertySet q(p); VH_EQ(q.getPropertyList().size(), p.getPropertyList().size(), "props-any", show(s)); }
void vh::setup() {
	setRule("a case is one value (or a sequence of operations on a property set), counted by its description");
	addAssumption("message identifiers in lists are dot-atoms or domain literals (quoted left parts, obsolete since RFC 5322, are not generated)");
	addSuite("messageid", 20000, 400000, sMid); addSuite("references", 15000, 300000, sMids); addSuite("midtext", 20000, 400000, sMidText); addSuite("mediatype", 20000, 400000, sMedia); addSuite("simple", 15000, 300000, sSimple); addSuite("returnpath", 20000, 400000, sPath); addSuite("disposition", 20000, 400000, sDisp); addSuite("received", 20000, 400000, sRelay); addSuite("fields", 10000, 200000, sFields); addSuite("importance", 3000, 30000, sImportance); addSuite("props", 20000, 400000, sProps); addSuite("proptext", 30000, 600000, sPropText); addSuite("propany", 20000, 400000, sPropAny);
}
