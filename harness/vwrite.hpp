// An independent writer of conforming header values: what is written, and what it means.
#ifndef VWRITE_HPP
#define VWRITE_HPP
#include "vapi.hpp"
namespace vh {

struct W { str wire, meaning; };

// ---- punycode (RFC 3492), for expected domain names
inline str punycode(const std::vector<uint32_t>& in) {
	str out; for (auto c : in) if (c < 128) out += (char)c;
	size_t b = out.size(), h = b; if (b) out += '-';
	uint32_t n = 128, delta = 0, bias = 72;
	auto digit = [](uint32_t d) { return (char)(d < 26 ? 'a' + d : '0' + d - 26); };
	while (h < in.size()) {
		uint32_t m = 0xffffffff; for (auto c : in) if (c >= n && c < m) m = c;
		delta += (m - n) * (uint32_t)(h + 1); n = m;
		for (auto c : in) {
			if (c < n) ++delta;
			if (c == n) {
				uint32_t qq = delta;
				for (uint32_t k = 36;; k += 36) { uint32_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (qq < t) break; out += digit(t + (qq - t) % (36 - t)); qq = (qq - t) / (36 - t); }
				out += digit(qq);
				uint32_t d = h == b ? delta / 700 : delta / 2; d += d / (uint32_t)(h + 1); uint32_t k = 0; while (d > 455) { d /= 35; k += 36; } bias = k + 36 * d / (d + 38);
				delta = 0; ++h;
			}
		}
		++delta; ++n;
	}
	return out;
}

// ---- base64, for encoded words
inline str refB64(const str& s) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = (uint8_t)s[i] << 16; if (i + 1 < s.size()) v |= (uint8_t)s[i + 1] << 8; if (i + 2 < s.size()) v |= (uint8_t)s[i + 2];
		o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < s.size() ? A[v >> 6 & 63] : '='; o += i + 2 < s.size() ? A[v & 63] : '=';
	}
	return o;
}
// ---- single-byte charsets with simple tables, UTF-8
struct Cs { const char* name; };
inline bool csEncode(const str& cs, uint32_t c, str& o) {
	str n = lower(cs);
	if (n == "utf-8") { putUtf8(o, c); return true; }
	if (c < 0x80) { o += (char)c; return true; }
	if (n == "iso-8859-1" && c >= 0xA0 && c < 0x100) { o += (char)c; return true; }
	if (n == "windows-1252" && c >= 0xA0 && c < 0x100) { o += (char)c; return true; }
	if (n == "iso-8859-15" && c >= 0xC0 && c < 0x100) { o += (char)c; return true; }
	if (n == "iso-8859-5" && c >= 0x410 && c < 0x450) { o += (char)(c - 0x410 + 0xB0); return true; }
	if (n == "windows-1251" && c >= 0x410 && c < 0x450) { o += (char)(c - 0x410 + 0xC0); return true; }
	if (n == "iso-8859-7" && c >= 0x3B1 && c <= 0x3C9) { o += (char)(c - 0x3B1 + 0xE1); return true; }
	return false;
}
inline uint32_t csChar(Rng& r, const str& cs) {
	for (;;) {
		uint32_t c; str t;
		switch (r.below(8)) { case 0: case 1: case 2: c = (uint32_t)r.range('a', 'z'); break; case 3: c = (uint32_t)r.range(0x20, 0x7e); break; default: c = genChar(r); }
		if (r.chance(1, 2) && cs != "us-ascii") { str n = lower(cs); c = n == "iso-8859-7" ? (uint32_t)r.range(0x3B1, 0x3C9) : n == "iso-8859-5" || n == "windows-1251" ? (uint32_t)r.range(0x410, 0x44f) : c; }
		if (csEncode(cs, c, t)) return c;
	}
}
inline str pickCs(Rng& r) { return r.pickc({"utf-8", "utf-8", "UTF-8", "iso-8859-1", "ISO-8859-1", "us-ascii", "windows-1252", "iso-8859-15", "iso-8859-5", "windows-1251", "iso-8859-7"}); }

// one encoded word of at most `maxChars` characters; never over 75 columns
inline W wEncodedWord(Rng& r, size_t maxChars = 12, bool phrase = false) {
	str cs = pickCs(r), text, enc; W w; bool b64 = r.coin();
	str head = "=?" + cs + (r.chance(1, 8) ? "*en" : "") + "?" + (b64 ? r.pickc({"B", "b"}) : r.pickc({"Q", "q"})) + "?";
	for (size_t n = 1 + r.below(maxChars); n-- > 0;) {
		uint32_t c = csChar(r, cs); str t = text, m = w.meaning; csEncode(cs, c, t); putUtf8(m, c);
		str e;
		if (b64) e = refB64(t);
		else for (unsigned char ch : t) {
			bool plain = isalnum(ch) || (ch && strchr("!*+-/", ch)) || (!phrase && ch > 32 && ch < 127 && !strchr("?=_()<>@,;:\\\".[]", ch));
			if (ch == ' ') e += '_'; else if (plain) e += (char)ch; else { char b[4]; snprintf(b, 4, "=%02X", ch); e += b; }
		}
		if (head.size() + e.size() + 2 > 75) break;
		text = t; enc = e; w.meaning = m;
	}
	w.wire = head + enc + "?=";
	return w;
}
inline str wFws(Rng& r, bool fold = true) { return fold ? r.pickc({" ", " ", " ", " ", "\r\n ", "\r\n\t", "\t", "  ", " \r\n "}) : " "; }
inline str wComment(Rng& r, int d = 0) {
	str s = "(";
	for (size_t n = r.below(3); n-- > 0;) { s += r.pickc({"c", "a b", "x,y", ";", ":", "<z>", "@", "\\)", "\\(", "\"", "it's", "a@b"}); if (d < 2 && r.chance(1, 4)) s += wComment(r, d + 1); }
	return s + ")";
}
// optional comments and folding white space
inline str wCfws(Rng& r) { switch (r.below(8)) { case 0: return " " + wComment(r) + wFws(r); case 1: return wFws(r); case 2: return ""; default: return " "; } }
inline str wAtom(Rng& r) { str s = r.from("abcdefghijklmnopqrstuvwxyzABCDEFG0123456789!#$%&'*+-/^_`{|}~", 1 + r.below(10)); return s; }

// unstructured text: plain words and encoded words
inline W wText(Rng& r) {
	W w; bool prevEnc = false;
	size_t n = 1 + r.below(7);
	for (size_t i = 0; i < n; ++i) {
		bool enc = r.chance(2, 5); W t;
		if (enc) t = wEncodedWord(r); else { t.wire = r.from("abcdefghijklmnopqrstuvwxyz0123456789.,;:!?()<>@\"'\\/*-+_=[]{}", 1 + r.below(12)); while (t.wire.find("=?") != str::npos) t.wire.replace(t.wire.find("=?"), 2, "x"); if (t.wire.back() == '=' ) t.wire += "x"; t.meaning = t.wire; }
		if (i) { w.wire += wFws(r); if (!(enc && prevEnc)) w.meaning += " "; }
		w.wire += t.wire; w.meaning += t.meaning; prevEnc = enc;
	}
	w.meaning = squeezeWs(w.meaning);
	return w;
}
inline str wQuoted(Rng& r, const str& s) { str o = "\""; for (char c : s) { if (c == '"' || c == '\\' || (c != '\r' && c != '\n' && r.chance(1, 30) && (unsigned char)c > 32 && (unsigned char)c < 127)) o += '\\'; o += c; } return o + "\""; }
inline W wPhrase(Rng& r) {
	W w;
	switch (r.below(4)) {
		case 0: for (size_t n = 1 + r.below(4), i = 0; i < n; ++i) { if (i) { w.wire += wFws(r); w.meaning += " "; } str a = wAtom(r); w.wire += a; w.meaning += a; } break;
		case 1: { str s; for (size_t n = 1 + r.below(14); n-- > 0;) s += (char)r.range(0x20, 0x7e); while (s.find("=?") != str::npos) s.replace(s.find("=?"), 2, "x"); s = squeezeWs(s); if (s.empty()) s = "q"; w.meaning = s; w.wire = wQuoted(r, s); break; }
		case 2: for (size_t n = 1 + r.below(3), i = 0; i < n; ++i) { W e = wEncodedWord(r, 12, true); if (i) w.wire += wFws(r); w.wire += e.wire; w.meaning += e.meaning; } break;
		default: { W e = wEncodedWord(r, 12, true); str a = wAtom(r); if (r.coin()) { w.wire = e.wire + wFws(r) + a; w.meaning = e.meaning + " " + a; } else { w.wire = a + wFws(r) + e.wire; w.meaning = a + " " + e.meaning; } }
	}
	w.meaning = squeezeWs(w.meaning);
	if (w.meaning.empty()) { w.wire = "x"; w.meaning = "x"; }
	return w;
}
inline W wDomain(Rng& r) {
	W w;
	if (r.chance(1, 12)) { w.wire = w.meaning = r.pickc({"[127.0.0.1]", "[IPv6:2001:db8::1]", "[10.1.2.3]"}); return w; }
	for (size_t n = 1 + r.below(4), i = 0; i < n; ++i) {
		if (i) { w.wire += "."; w.meaning += "."; }
		if (r.chance(1, 6)) {
			std::vector<uint32_t> v; for (size_t k = 1 + r.below(8); k-- > 0;) v.push_back(r.coin() ? (uint32_t)r.range('a', 'z') : r.coin() ? (uint32_t)r.range(0xE0, 0xF6) : (uint32_t)r.range(0x430, 0x44F));
			bool na = false; for (auto c : v) na |= c > 127; if (!na) v.push_back(0xE9);
			w.wire += "xn--" + punycode(v); w.meaning += toUtf8(v);
		} else { str a = r.from("abcdefghijklmnopqrstuvwxyz0123456789", 1) + r.from("abcdefghijklmnopqrstuvwxyz0123456789", r.below(9)); w.wire += a; w.meaning += a; }
	}
	return w;
}
inline W wLocal(Rng& r) {
	W w;
	if (r.chance(1, 4)) { str s; for (size_t n = 1 + r.below(10); n-- > 0;) s += (char)r.range(0x20, 0x7e); while (s.find("=?") != str::npos) s.replace(s.find("=?"), 2, "x"); w.meaning = s; w.wire = wQuoted(r, s); return w; }
	for (size_t n = 1 + r.below(3), i = 0; i < n; ++i) { if (i) w.wire += "."; str a = wAtom(r); if (a[0] == '=') a[0] = 'x'; w.wire += a; }
	w.meaning = w.wire;
	return w;
}
inline W wMailbox(Rng& r) {
	W l = wLocal(r), d = wDomain(r), w; str name;
	str addr = l.wire + (l.wire[0] != '"' && r.chance(1, 20) ? wComment(r) : "") + "@" + d.wire;
	switch (r.below(6)) {
		case 0: w.wire = addr; break;
		case 1: w.wire = addr + " " + wComment(r); break;
		case 2: w.wire = "<" + addr + ">"; break;
		default: { W p = wPhrase(r); name = p.meaning; w.wire = p.wire + (r.chance(1, 10) ? " " + wComment(r) + " " : r.chance(1, 10) ? "" : wFws(r)) + "<" + (r.chance(1, 20) ? "@r.example,@s.example:" : "") + addr + ">"; }
	}
	// an encoded word must be followed by white space
	w.meaning = "mbox(" + q(name) + "<" + l.meaning + "@" + d.meaning + ">)";
	return w;
}
inline W wGroup(Rng& r) {
	W p = wPhrase(r), w; w.wire = p.wire + ":"; str m;
	for (size_t n = r.below(4), i = 0; i < n; ++i) { W b = wMailbox(r); w.wire += (i ? "," : "") + wCfws(r) + b.wire; m += b.meaning + ","; }
	w.wire += r.pickc({";", ";", " ;"});
	w.meaning = "group(" + q(p.meaning) + ":" + m + ")";
	return w;
}
inline W wAddressList(Rng& r, bool groups = true) {
	W w; str m;
	for (size_t n = 1 + r.below(5), i = 0; i < n; ++i) {
		W a = groups && r.chance(1, 4) ? wGroup(r) : wMailbox(r);
		if (i) w.wire += r.chance(1, 12) ? ", ," : ",";
		w.wire += (i || r.coin() ? wCfws(r) : str()) + a.wire; m += a.meaning + ";";
	}
	if (r.chance(1, 10)) w.wire += wFws(r);
	w.meaning = "addrs(" + m + ")";
	return w;
}

} // namespace vh
#endif
