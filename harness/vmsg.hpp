// Value dumps of message components, generators of message text, mutation.
#ifndef VMSG_HPP
#define VMSG_HPP
#include "vh.hpp"
#include "vstreams.hpp"
#include "vmime/vmime.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/mailboxField.hpp"

namespace vh {

using vmime::shared_ptr;
using vmime::make_shared;
typedef shared_ptr<vmime::component> compP;

// ------------------------------------------------------------------ dumps
inline str q(const str& s) { return "\"" + esc(s, 1u << 20) + "\""; }

inline str dumpWord(const vmime::word& w) {
	str r = q(w.getBuffer()) + "/" + w.getCharset().getName();
	if (!w.getLanguage().empty()) r += "*" + w.getLanguage();
	return r;
}
inline str dumpText(const vmime::text& t) {
	str r = "[";
	for (size_t i = 0; i < t.getWordCount(); ++i) r += (i ? "," : "") + dumpWord(*t.getWordAt(i));
	return r + "]";
}
// text as Unicode, for comparisons that disregard the cutting into words
inline str textU(const vmime::text& t) { return t.getConvertedText(vmime::charset("utf-8")); }

inline str dumpAddr(const vmime::address& a) {
	if (const vmime::mailbox* m = dynamic_cast<const vmime::mailbox*>(&a))
		return "mbox(" + dumpText(m->getName()) + "<" + dumpWord(m->getEmail().getLocalName()) + "@" + dumpWord(m->getEmail().getDomainName()) + ">)";
	if (const vmime::mailboxGroup* g = dynamic_cast<const vmime::mailboxGroup*>(&a)) {
		str r = "group(" + dumpText(g->getName()) + ":";
		for (size_t i = 0; i < g->getMailboxCount(); ++i) r += dumpAddr(*g->getMailboxAt(i)) + ",";
		return r + ")";
	}
	return "?";
}
inline str dumpDate(const vmime::datetime& d) {
	char b[120];
	snprintf(b, sizeof b, "date(%d-%d-%d %d:%d:%d %d)", d.getYear(), d.getMonth(), d.getDay(), d.getHour(), d.getMinute(), d.getSecond(), d.getZone());
	return b;
}

inline str dumpValue(const vmime::component& c) {
	using namespace vmime;
	if (auto* v = dynamic_cast<const vmime::text*>(&c)) return "text" + dumpText(*v);
	if (auto* v = dynamic_cast<const vmime::word*>(&c)) return "word" + dumpWord(*v);
	if (auto* v = dynamic_cast<const vmime::address*>(&c)) return dumpAddr(*v);
	if (auto* v = dynamic_cast<const vmime::emailAddress*>(&c)) return "email(" + dumpWord(v->getLocalName()) + "@" + dumpWord(v->getDomainName()) + ")";
	if (auto* v = dynamic_cast<const vmime::mailboxList*>(&c)) { str r = "mboxes("; for (size_t i = 0; i < v->getMailboxCount(); ++i) r += dumpAddr(*v->getMailboxAt(i)) + ";"; return r + ")"; }
	if (auto* v = dynamic_cast<const vmime::addressList*>(&c)) { str r = "addrs("; for (size_t i = 0; i < v->getAddressCount(); ++i) r += dumpAddr(*v->getAddressAt(i)) + ";"; return r + ")"; }
	if (auto* v = dynamic_cast<const vmime::mediaType*>(&c)) return "type(" + q(v->getType()) + "/" + q(v->getSubType()) + ")";
	if (auto* v = dynamic_cast<const vmime::contentDisposition*>(&c)) return "cdisp(" + q(v->getName()) + ")";
	if (auto* v = dynamic_cast<const vmime::encoding*>(&c)) return "enc(" + q(v->getName()) + ")";
	if (auto* v = dynamic_cast<const vmime::charset*>(&c)) return "charset(" + q(v->getName()) + ")";
	if (auto* v = dynamic_cast<const vmime::datetime*>(&c)) return dumpDate(*v);
	if (auto* v = dynamic_cast<const vmime::messageId*>(&c)) return "mid(" + q(v->getLeft()) + "@" + q(v->getRight()) + ")";
	if (auto* v = dynamic_cast<const vmime::messageIdSequence*>(&c)) { str r = "mids("; for (size_t i = 0; i < v->getMessageIdCount(); ++i) r += q(v->getMessageIdAt(i)->getLeft()) + "@" + q(v->getMessageIdAt(i)->getRight()) + ";"; return r + ")"; }
	if (auto* v = dynamic_cast<const vmime::relay*>(&c)) {
		str r = "relay(from=" + q(v->getFrom()) + " via=" + q(v->getVia()) + " by=" + q(v->getBy()) + " id=" + q(v->getId()) + " for=" + q(v->getFor()) + " with=";
		for (auto& w : v->getWithList()) r += q(w) + ",";
		return r + " " + dumpDate(v->getDate()) + ")";
	}
	if (auto* v = dynamic_cast<const vmime::path*>(&c)) return "path(" + q(v->getLocalPart()) + "@" + q(v->getDomain()) + ")";
	if (auto* v = dynamic_cast<const vmime::disposition*>(&c)) {
		str r = "mdn(" + q(v->getActionMode()) + "/" + q(v->getSendingMode()) + ";" + q(v->getType());
		for (auto& m : v->getModifierList()) r += "," + q(m);
		return r + ")";
	}
	if (auto* v = dynamic_cast<const vmime::parameter*>(&c)) return "param(" + q(v->getName()) + "=" + dumpWord(v->getValue()) + ")";
	return "unknown-value";
}

inline str dumpField(const vmime::headerField& f) {
	str r = q(f.getName()) + ": " + dumpValue(*f.getValue());
	if (auto* p = dynamic_cast<const vmime::parameterizedHeaderField*>(&f))
		for (size_t i = 0; i < p->getParameterCount(); ++i) r += "; " + dumpValue(*p->getParameterAt(i));
	return r;
}
inline str dumpHeader(const vmime::header& h, const str& ind = "") {
	str r;
	for (size_t i = 0; i < h.getFieldCount(); ++i) r += ind + "F " + dumpField(*h.getFieldAt(i)) + "\n";
	return r;
}
inline str rawContents(const vmime::contentHandler& h) {
	str r; vmime::utility::outputStreamStringAdapter o(r); h.extractRaw(o); return r;
}
inline str decodedContents(const vmime::contentHandler& h) {
	str r; vmime::utility::outputStreamStringAdapter o(r); h.extract(o); return r;
}
inline str excText(const std::exception& e) { return str("exc:") + e.what(); }

struct DumpOpt { bool offsets = false, raw = true, decoded = true, header = true; };

inline str dumpPart(const vmime::bodyPart& p, const DumpOpt& o = DumpOpt(), const str& ind = "") {
	str r = ind + "PART";
	if (o.offsets) r += " @" + std::to_string(p.getParsedOffset()) + "+" + std::to_string(p.getParsedLength());
	r += "\n";
	if (o.header) r += dumpHeader(*p.getHeader(), ind + " ");
	const vmime::body& b = *p.getBody();
	r += ind + " prolog " + q(b.getPrologText()) + " epilog " + q(b.getEpilogText()) + "\n";
	for (size_t i = 0; i < b.getPartCount(); ++i) r += dumpPart(*b.getPartAt(i), o, ind + "  ");
	if (b.getPartCount() == 0) {
		shared_ptr<const vmime::contentHandler> h = b.getContents();
		r += ind + " len " + std::to_string(h->getLength()) + " enc " + h->getEncoding().getName() + "\n";
		if (o.raw) r += ind + " raw " + q(rawContents(*h)) + "\n";
		if (o.decoded) {
			str d;
			try { d = q(decodedContents(*h)); } catch (const vmime::exception& e) { d = excText(e); }
			r += ind + " dec " + d + "\n";
		}
	}
	return r;
}

// ------------------------------------------------------------------ dictionary / mutation
inline const std::vector<str>& dictionary() {
	static const std::vector<str> d = {
		"\r\n", "\n", "\r", "\r\n\r\n", "\n\n", " ", "\t", "\r\n ", "\r\n\t", ":", ";", ",", "<", ">", "@", "(", ")", "\"", "\\", "\\\"", "=", "=?", "?=", "?",
		"=?utf-8?Q?", "=?utf-8?B?", "=?us-ascii?q?x?=", "=?iso-8859-1?Q?=E9=E8?=", "=?utf-8?B?w6k=?=", "=?utf-8?B?w6", "=?iso-2022-jp?B?GyRC?=", "=?utf-8*en?Q?a_b?=", "=?x?x?x?=", "=??Q??=", "=?utf-8?Q??=",
		"--", "\r\n--", "\n--", "boundary=", "Content-Type: multipart/mixed; boundary=x\r\n", "Content-Type: multipart/mixed\r\n", "Content-Transfer-Encoding: base64\r\n",
		"Content-Transfer-Encoding: quoted-printable\r\n", "Content-Transfer-Encoding: x-uuencode\r\n", "begin 644 f\n", "`\nend\n", "message/rfc822", "text/plain; charset=utf-8", "text/html",
		"*", "*0=", "*0*=", "*1*=", "*=utf-8''", "%", "%E", "%zz", "'", "''", "name*0*=us-ascii'en'a", "filename=\"", "[", "]", "{", "}", "/", ".", "..", "-", "+", "+0000", "-1200", "+9999", "GMT", "EST",
		"undisclosed-recipients:;", "group: a@b, c@d;", "<@a,@b:c@d>", "(comment (nested))", "\"quoted\" <a@b>", "a@[127.0.0.1]", "xn--", "\xc3\xa9", "\xc3", "\xff", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\xa0\x80", str("\0", 1),
		"Mon, 1 Jan 2024 00:00:00 +0000", "31 Feb 1900", "99999999999999999999", "-1", "from a by b via c with d id e for f; Mon, 1 Jan 2024 00:00:00 +0000",
		"automatic-action/MDN-sent-automatically; displayed", "<a@b>", "<>", "<a@b> <c@d>", "7bit", "8bit", "binary", "quoted-printable", "base64", "uuencode", "attachment; filename=", "inline", "MIME-Version: 1.0\r\n",
		"From: ", "To: ", "Subject: ", "Date: ", "Received: ", "References: ", "Disposition: ", "\r\n.\r\n", "::", " :", "=\r\n", "=0D=0A", "=3D",
	};
	return d;
}

inline str mutate(Rng& r, str s, size_t n = 0) {
	if (!n) n = 1 + r.below(4) * r.below(3);
	for (size_t k = 0; k < n; ++k) {
		size_t p = r.below(s.size() + 1);
		switch (r.below(10)) {
			case 0: if (!s.empty()) s[r.below(s.size())] = (char)r.next(); break;
			case 1: if (!s.empty()) s[r.below(s.size())] ^= (char)(1 << r.below(8)); break;
			case 2: case 3: case 4: s.insert(p, r.pick(dictionary())); break;
			case 5: s.erase(p, 1 + r.below(8)); break;
			case 6: s.resize(p); break;
			case 7: { size_t l = r.below(60); str t = s.substr(r.below(s.size() + 1), l); s.insert(p, t); break; }
			case 8: { str t(1 + r.size(300), r.pick(dictionary())[0]); s.insert(p, t); break; }
			case 9: if (s.size() > 2) { size_t a = r.below(s.size()), b = r.below(s.size()); std::swap(s[a], s[b]); } break;
		}
	}
	return s;
}

// ------------------------------------------------------------------ loose generators (may be malformed)
inline str genToken(Rng& r) { return r.from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", 1 + r.size(14)); }
inline str genWs(Rng& r) { return r.pickc({"", " ", " ", "  ", "\t", "\r\n ", "\r\n\t", "\n "}); }
inline str genComment(Rng& r, int depth = 0) {
	str s = "(";
	for (size_t i = r.below(3); i-- > 0;) { if (depth < 3 && r.chance(1, 4)) s += genComment(r, depth + 1); else s += genToken(r) + r.pickc({" ", "", "\\)", "\\\\", "\"", "@"}); }
	return s + ")";
}
inline str genEncodedWord(Rng& r) {
	str cs = r.pickc({"utf-8", "iso-8859-1", "us-ascii", "ISO-2022-JP", "koi8-r", "windows-1252", "bogus", "utf-8*fr", "UTF-16", "gb2312", "utf-7"});
	if (r.coin()) return "=?" + cs + "?Q?" + r.from("abcXYZ_=E9C3A9..", r.size(40)) + "?=";
	str e;
	return "=?" + cs + "?B?" + r.from("ABCDEFabcdef0123+/", 4 * r.below(8)) + r.pickc({"", "", "=", "==", "A", "AB="}) + "?=";
}
inline str genTextValue(Rng& r) {
	str s;
	for (size_t i = 1 + r.below(6); i-- > 0;) {
		switch (r.below(6)) {
			case 0: case 1: case 2: s += genToken(r); break;
			case 3: s += genEncodedWord(r); break;
			case 4: s += r.from("\x80\xa9\xc3\xe9\xff\xe2\x82\xac", 1 + r.below(6)); break;
			case 5: s += r.pick(dictionary()); break;
		}
		s += genWs(r);
	}
	return s;
}
inline str genEmail(Rng& r) {
	switch (r.below(8)) {
		case 0: return genToken(r);
		case 1: return "\"" + genToken(r) + " " + r.pickc({"\\\"", "@", "\\\\", ".", ""}) + "\"@" + genToken(r);
		case 2: return genToken(r) + "@[" + r.pickc({"127.0.0.1", "IPv6:::1", "", "]"}) + "]";
		case 3: return "\xc3\xa9" + genToken(r) + "@" + r.pickc({"\xc3\xa9.fr", "xn--9ca.fr", "xn--", "\xff.com"});
		default: return genToken(r) + (r.coin() ? "." + genToken(r) : "") + "@" + genToken(r) + "." + genToken(r);
	}
}
inline str genMailbox(Rng& r) {
	str s;
	switch (r.below(7)) {
		case 0: return genEmail(r);
		case 1: return "<" + genEmail(r) + ">";
		case 2: s = "\"" + genToken(r) + r.pickc({" ", ", ", "\\\"", ""}) + genToken(r) + "\""; break;
		case 3: s = genEncodedWord(r); break;
		case 4: return genEmail(r) + " " + genComment(r);
		case 5: s = genTextValue(r); break;
		default: s = genToken(r) + " " + genToken(r);
	}
	return s + genWs(r) + "<" + (r.chance(1, 8) ? "@r1.example,@r2.example:" : "") + genEmail(r) + ">" + (r.chance(1, 6) ? genComment(r) : "");
}
inline str genAddressList(Rng& r) {
	str s;
	for (size_t i = 1 + r.below(5); i-- > 0;) {
		if (r.chance(1, 5)) { s += genToken(r) + ":"; for (size_t k = r.below(3); k-- > 0;) s += genWs(r) + genMailbox(r) + (k ? "," : ""); s += ";"; }
		else s += genMailbox(r);
		if (i) s += r.pickc({",", ", ", ",\r\n ", ";", ",,"});
	}
	return s;
}
inline str genDate(Rng& r) {
	static const std::vector<str> days = {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun", "Xyz"}, mons = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec", "Foo", "december"};
	str s;
	if (r.chance(3, 4)) s += r.pick(days) + "," + genWs(r);
	s += std::to_string(r.range(0, 32)) + " " + r.pick(mons) + " " + std::to_string(r.chance(1, 4) ? r.range(0, 99) : r.range(1900, 2100)) + " ";
	s += std::to_string(r.range(0, 24)) + ":" + std::to_string(r.range(0, 60)) + (r.chance(3, 4) ? ":" + std::to_string(r.range(0, 61)) : "") + " ";
	s += r.pickc({"+0000", "-0500", "+0530", "GMT", "EST", "Z", "A", "+1", "", "-99", "+1261", "(CET)", "+0100 (CET)"});
	return s;
}
inline str genParams(Rng& r) {
	str s;
	for (size_t i = r.below(5); i-- > 0;) {
		str n = r.chance(1, 2) ? r.pickc({"boundary", "charset", "name", "filename", "size", "creation-date"}) : genToken(r);
		s += ";" + genWs(r);
		switch (r.below(7)) {
			case 0: s += n + "=" + genToken(r); break;
			case 1: s += n + "=\"" + genToken(r) + r.pickc({" ", ";", "\\\"", "\\\\", ""}) + "\""; break;
			case 2: s += n + "*=utf-8'" + r.pickc({"", "en", "fr"}) + "'" + r.from("abc%41C3A9%", r.size(30)); break;
			case 3: s += n + "*0*=utf-8''%41" + genToken(r) + ";" + genWs(r) + n + "*1*=%C3%A9;" + n + "*2=\"plain\""; break;
			case 4: s += n + "*0=" + genToken(r) + "; " + n + "*1=" + genToken(r); break;
			case 5: s += n + "=\"" + genEncodedWord(r) + "\""; break;
			case 6: s += n + genWs(r) + "=" + genWs(r) + genToken(r) + genWs(r); break;
		}
	}
	return s;
}
inline str genRelay(Rng& r) {
	str s;
	for (auto k : {"from ", "by ", "via ", "with ", "id ", "for "}) if (r.chance(2, 3)) { s += str(k) + genToken(r) + "." + genToken(r) + " "; if (r.chance(1, 4)) s += genComment(r) + " "; }
	return s + r.pickc({";", "; ", ";\r\n\t", ""}) + genDate(r);
}
inline str genMids(Rng& r) { str s; for (size_t i = 1 + r.below(4); i-- > 0;) s += "<" + genToken(r) + r.pickc({"@", "@", ""}) + genToken(r) + ">" + genWs(r); return s; }

// name and value of a plausible header field
inline std::pair<str, str> genField(Rng& r) {
	switch (r.below(16)) {
		case 0: return {r.pickc({"From", "Sender", "from", "Delivered-To"}), genMailbox(r)};
		case 1: case 2: return {r.pickc({"To", "Cc", "Bcc", "Reply-To", "TO"}), genAddressList(r)};
		case 3: return {"Date", genDate(r)};
		case 4: return {"Received", genRelay(r)};
		case 5: case 6: return {r.pickc({"Subject", "Organization", "User-Agent", "Content-Description", "X-Custom", "Comments", "Content-Location"}), genTextValue(r)};
		case 7: return {"Return-Path", str(r.pickc({"<>", "<a@b>", "a@b", "<", ""}))};
		case 8: case 9: return {"Content-Type", r.pickc({"text/plain", "text/html", "image/png", "application/octet-stream", "message/rfc822", "text", "/", "multipart/x"}) + genParams(r)};
		case 10: return {"Content-Transfer-Encoding", r.pickc({"7bit", "8bit", "binary", "base64", "quoted-printable", "x-uuencode", "uuencode", "BASE64", "x-bogus", "7bit; x=y", ""})};
		case 11: return {"Content-Disposition", r.pickc({"attachment", "inline", "form-data", ""}) + genParams(r)};
		case 12: return {r.pickc({"Message-Id", "Content-Id", "Original-Message-Id"}), genMids(r)};
		case 13: return {r.pickc({"References", "In-Reply-To"}), genMids(r)};
		case 14: return {"Disposition", r.pickc({"automatic-action/MDN-sent-automatically; displayed", "manual-action/MDN-sent-manually; deleted/error,x", "a/b;c/", ";", "x"})};
		default: return {"Disposition-Notification-To", genAddressList(r)};
	}
}
inline str genLooseMessage(Rng& r, int depth = 0) {
	str nl = r.chance(3, 4) ? "\r\n" : "\n";
	str s;
	for (size_t i = r.below(5); i-- > 0;) { auto f = genField(r); s += f.first + ":" + genWs(r) + f.second + nl; }
	if (depth < 4 && r.chance(1, 2)) {
		str b = r.chance(1, 6) ? "x" : genToken(r);
		s += "Content-Type: multipart/mixed" + (r.chance(1, 6) ? str() : "; boundary=" + (r.coin() ? "\"" + b + "\"" : b)) + nl + nl;
		if (r.chance(1, 3)) s += genTextValue(r) + nl;
		for (size_t i = r.below(4); i-- > 0;) s += "--" + b + r.pickc({"", "", "", " ", "\t ", "x"}) + nl + genLooseMessage(r, depth + 1) + (r.chance(7, 8) ? nl : "");
		if (r.chance(3, 4)) s += "--" + b + "--" + (r.chance(3, 4) ? nl : "");
		if (r.chance(1, 4)) s += genTextValue(r) + nl;
	} else {
		s += nl;
		for (size_t i = r.below(5); i-- > 0;) s += (r.coin() ? r.from("abcdefghij =.-\xc3\xa9", r.size(80)) : r.pick(dictionary())) + nl;
	}
	return s;
}

} // namespace vh
#endif
