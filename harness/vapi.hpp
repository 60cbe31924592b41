// Values built through the public API, and dumps of what they mean (text as Unicode).
#ifndef VAPI_HPP
#define VAPI_HPP
#include "vmsg.hpp"

namespace vh {

inline str trimWs(const str& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == str::npos ? str() : s.substr(a, b - a + 1); }
inline str squeezeWs(const str& s) {
	str r; bool sp = false;
	for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') sp = true; else { if (sp && !r.empty()) r += ' '; sp = false; r += c; } }
	return r;
}
inline str normEol(const str& s) {
	str r;
	for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { r += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else r += s[i]; }
	return r;
}
inline str lower(str s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

// ---- UTF-8
inline void putUtf8(str& s, uint32_t c) {
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
}
inline str toUtf8(const std::vector<uint32_t>& v) { str s; for (auto c : v) putUtf8(s, c); return s; }
inline bool fromUtf8(const str& s, std::vector<uint32_t>& out) {
	out.clear();
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char)s[i]; uint32_t u; int n;
		if (c < 0x80) { u = c; n = 0; } else if (c >= 0xC2 && c < 0xE0) { u = c & 31; n = 1; } else if (c >= 0xE0 && c < 0xF0) { u = c & 15; n = 2; } else if (c >= 0xF0 && c < 0xF5) { u = c & 7; n = 3; } else return false;
		if (i + n >= s.size() + 0 && n && i + n > s.size() - 1) return false;
		for (int k = 1; k <= n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xC0) != 0x80) return false; u = u << 6 | (d & 63); }
		if ((n == 2 && u < 0x800) || (n == 3 && u < 0x10000) || u > 0x10FFFF || (u >= 0xD800 && u < 0xE000)) return false;
		out.push_back(u); i += n + 1;
	}
	return true;
}
inline uint32_t genChar(Rng& r) {
	switch (r.below(9)) {
		case 0: case 1: case 2: return (uint32_t)r.range('a', 'z');
		case 3: return (uint32_t)r.range(0x21, 0x7e);
		case 4: return (uint32_t)r.range(0xC0, 0xFF);
		case 5: return (uint32_t)r.range(0x391, 0x3C9) == 0x3A2 ? 0x3B1 : (uint32_t)r.range(0x3B1, 0x3C9);
		case 6: return (uint32_t)r.range(0x4E00, 0x9FA0);
		case 7: return (uint32_t)r.range(0x1F600, 0x1F64F);
		default: return (uint32_t)r.range(0x410, 0x44F);
	}
}
// n characters; spaces only inside
inline str genUni(Rng& r, size_t n, unsigned spaces = 6) {
	std::vector<uint32_t> v;
	for (size_t i = 0; i < n; ++i) v.push_back(spaces && i && i + 1 < n && v.back() != ' ' && r.chance(1, spaces) ? ' ' : genChar(r));
	return toUtf8(v);
}

// ---- meaning of values
inline str uWord(const vmime::word& w) { return w.getConvertedText(vmime::charset("utf-8")); }
inline str uText(const vmime::text& t) { return squeezeWs(t.getConvertedText(vmime::charset("utf-8"))); }
inline str uAddr(const vmime::address& a) {
	if (auto* m = dynamic_cast<const vmime::mailbox*>(&a)) return "mbox(" + q(uText(m->getName())) + "<" + uWord(m->getEmail().getLocalName()) + "@" + uWord(m->getEmail().getDomainName()) + ">)";
	if (auto* g = dynamic_cast<const vmime::mailboxGroup*>(&a)) { str r = "group(" + q(uText(g->getName())) + ":"; for (size_t i = 0; i < g->getMailboxCount(); ++i) r += uAddr(*g->getMailboxAt(i)) + ","; return r + ")"; }
	return "?";
}
inline str uValue(const vmime::component& c) {
	using namespace vmime;
	if (auto* v = dynamic_cast<const text*>(&c)) return "text(" + q(uText(*v)) + ")";
	if (auto* v = dynamic_cast<const word*>(&c)) return "word(" + q(uWord(*v)) + ")";
	if (auto* v = dynamic_cast<const address*>(&c)) return uAddr(*v);
	if (auto* v = dynamic_cast<const mailboxList*>(&c)) { str r = "mboxes("; for (size_t i = 0; i < v->getMailboxCount(); ++i) r += uAddr(*v->getMailboxAt(i)) + ";"; return r + ")"; }
	if (auto* v = dynamic_cast<const addressList*>(&c)) { str r = "addrs("; for (size_t i = 0; i < v->getAddressCount(); ++i) r += uAddr(*v->getAddressAt(i)) + ";"; return r + ")"; }
	if (auto* v = dynamic_cast<const parameter*>(&c)) return "param(" + lower(v->getName()) + "=" + q(uWord(v->getValue())) + ")";
	return dumpValue(c);
}
inline str uField(const vmime::headerField& f) {
	str r = q(f.getName()) + ": " + uValue(*f.getValue());
	if (auto* p = dynamic_cast<const vmime::parameterizedHeaderField*>(&f))
		for (size_t i = 0; i < p->getParameterCount(); ++i) r += "; " + uValue(*p->getParameterAt(i));
	return r;
}
inline str uHeader(const vmime::header& h) { str r; for (size_t i = 0; i < h.getFieldCount(); ++i) r += uField(*h.getFieldAt(i)) + "\n"; return r; }

// ---- values with harmless contents (hostile ones are the business of the checks on each kind of value)
inline vmime::text apiText(Rng& r) { return vmime::text(genUni(r, 1 + r.size(60)), vmime::charset("utf-8")); }
inline str genHost(Rng& r) { return r.from("abcdefghijklmnopqrstuvwxyz0123456789", 1 + r.below(9)) + "." + r.from("abcdefgh", 2 + r.below(3)); }
inline shared_ptr<vmime::mailbox> apiMailbox(Rng& r) {
	vmime::emailAddress e(r.from("abcdefghijklmnopqrstuvwxyz.0123456789_-"+str(), 1) == "." ? "x" : r.from("abcdefghijklmnopqrstuvwxyz0123456789_-", 1 + r.below(12)), genHost(r));
	if (r.chance(1, 3)) return make_shared<vmime::mailbox>(e);
	str n = r.coin() ? r.from("abcdefgh", 1 + r.below(8)) + " " + r.from("abcdefgh", 1 + r.below(8)) : [&] { std::vector<uint32_t> v; for (size_t i = 1 + r.below(14); i-- > 0;) v.push_back((uint32_t)r.range(0x410, 0x44F)); return toUtf8(v); }();
	return make_shared<vmime::mailbox>(vmime::text(n, vmime::charset("utf-8")), e);
}
inline shared_ptr<vmime::messageId> apiMid(Rng& r) { return make_shared<vmime::messageId>(r.from("abcXYZ0123456789.-", 1 + r.below(30)), genHost(r)); }
inline vmime::datetime apiDate(Rng& r) { return vmime::datetime((int)r.range(1000, 9999), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), (int)r.range(0, 59), (int)r.range(0, 59), (int)(r.range(-23, 23) * 60 + 15 * (long)r.below(4) * 0)); }

inline shared_ptr<vmime::headerField> apiField(Rng& r) {
	auto f = vmime::headerFieldFactory::getInstance();
	auto set = [&](const char* n, const vmime::headerFieldValue& v) { auto x = f->create(n); x->setValue(v); return x; };
	switch (r.below(12)) {
		case 0: return set("Subject", apiText(r));
		case 1: return set(r.coin() ? "From" : "Sender", *apiMailbox(r));
		case 2: case 3: {
			vmime::addressList l;
			for (size_t n = 1 + r.below(4); n-- > 0;) {
				if (r.chance(1, 5)) { auto g = make_shared<vmime::mailboxGroup>(vmime::text(r.from("abcdefg", 1 + r.below(8)), vmime::charset("us-ascii"))); for (size_t k = r.below(3); k-- > 0;) g->appendMailbox(apiMailbox(r)); l.appendAddress(g); }
				else l.appendAddress(apiMailbox(r));
			}
			const char* n = r.chance(1, 3) ? "To" : r.coin() ? "Cc" : "Reply-To";
			return set(n, l);
		}
		case 4: return set("Date", apiDate(r));
		case 5: return set("Message-Id", *apiMid(r));
		case 6: { vmime::messageIdSequence s; for (size_t n = 1 + r.below(6); n-- > 0;) s.appendMessageId(apiMid(r)); return set(r.coin() ? "References" : "In-Reply-To", s); }
		case 7: { auto x = vmime::dynamicCast<vmime::contentDispositionField>(set("Content-Disposition", vmime::contentDisposition(r.coin() ? "attachment" : "inline"))); x->setFilename(vmime::word(genUni(r, 1 + r.size(40)), vmime::charset("utf-8"))); if (r.coin()) x->setSize(std::to_string(r.below(100000))); return x; }
		case 8: return set("Content-Description", apiText(r));
		case 9: return set("Content-Id", *apiMid(r));
		case 10: { auto x = f->create("X-" + r.from("abcdefXYZ0123456789-", 1 + r.below(20))); x->setValue(apiText(r)); return x; }
		default: return set("Organization", apiText(r));
	}
}

// contents which look like structure
inline str genHostileBody(Rng& r, const std::vector<str>& extra = {}) {
	static const std::vector<str> toks = {"\r\n", "\r\n", "\n", "\r", "--", "\r\n--", "\r\n--x", "\r\n--x--\r\n", ".", "\r\n.\r\n", "\r\n..", "From me\r\n", "Content-Type: multipart/mixed; boundary=x\r\n\r\n", "Subject: no\r\n", " ", "\t", " \r\n", "=", "=\r\n", "=3D", "=?utf-8?Q?x?=",
		"begin 644 f\r\n", "`\r\nend\r\n", "\xc3\xa9", "\xff", str("\0", 1), "abc", "The quick brown fox ", "--=_", "~", "!", "==", "<a@b>"};
	str s;
	switch (r.below(6)) {
		case 0: return "";
		case 1: return r.bytes(r.size(3000));
		case 2: return r.from("abcdefghijkl mnop\r\n", r.size(3000));
		default: for (size_t n = r.size(300); n-- > 0;) s += !extra.empty() && r.chance(1, 5) ? r.pick(extra) : r.pick(toks); return s;
	}
}

} // namespace vh
#endif
