// Reference decoders independent of the library: charsets by the C library's iconv, RFC 2047 words by hand.
#ifndef VREF_HPP
#define VREF_HPP
#include "vwrite.hpp"
#include <iconv.h>
#include <cerrno>
namespace vh {

// whole, strict conversion; false if anything is invalid, incomplete or not representable
inline bool refConvert(const str& in, const str& from, const str& to, str& out) {
	iconv_t cd = iconv_open(to.c_str(), from.c_str());
	if (cd == (iconv_t)-1) return false;
	out.clear(); std::vector<char> buf(in.size() * 8 + 64);
	char *ip = (char*)in.data(), *op = buf.data(); size_t il = in.size(), ol = buf.size();
	bool ok = iconv(cd, &ip, &il, &op, &ol) == 0 && il == 0;
	if (ok) ok = iconv(cd, nullptr, nullptr, &op, &ol) != (size_t)-1;
	out.assign(buf.data(), op - buf.data());
	iconv_close(cd);
	return ok;
}
inline bool refB64Decode(const str& s, str& out) {
	out.clear(); if (s.size() % 4) return false;
	auto v = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; };
	for (size_t i = 0; i < s.size(); i += 4) {
		int a = v(s[i]), b = v(s[i + 1]), c = v(s[i + 2]), d = v(s[i + 3]); bool last = i + 4 == s.size();
		if (a < 0 || b < 0) return false;
		out += (char)(a << 2 | b >> 4);
		if (s[i + 2] == '=' && s[i + 3] == '=' && last) return (b & 15) == 0;
		if (c < 0) return false;
		out += (char)((b & 15) << 4 | c >> 2);
		if (s[i + 3] == '=' && last) return (c & 3) == 0;
		if (d < 0) return false;
		out += (char)((c & 3) << 6 | d);
	}
	return true;
}
// parses one whole encoded word; false when it is not a valid one
inline bool refEncodedWord(const str& w, str& uni, str& why) {
	if (w.size() < 8 || w.compare(0, 2, "=?") || w.compare(w.size() - 2, 2, "?=")) { why = "not delimited"; return false; }
	size_t a = w.find('?', 2), b = a == str::npos ? a : w.find('?', a + 1);
	if (b == str::npos || b + 1 > w.size() - 2 || w.find('?', b + 1) != w.size() - 2) { why = "question marks"; return false; }
	str cs = w.substr(2, a - 2), enc = lower(w.substr(a + 1, b - a - 1)), data = w.substr(b + 1, w.size() - 3 - b), raw;
	if (cs.find('*') != str::npos) cs = cs.substr(0, cs.find('*'));
	for (char c : w) if ((unsigned char)c <= 32 || (unsigned char)c >= 127) { why = "illegal character"; return false; }
	if (enc == "b") { if (!refB64Decode(data, raw)) { why = "bad base64"; return false; } }
	else if (enc == "q") {
		for (size_t i = 0; i < data.size(); ++i) {
			if (data[i] == '_') raw += ' ';
			else if (data[i] == '=') { if (i + 2 >= data.size() + 0 && i + 2 > data.size() - 1) { why = "cut escape"; return false; } if (!isxdigit((unsigned char)data[i + 1]) || !isxdigit((unsigned char)data[i + 2])) { why = "bad escape"; return false; } raw += (char)strtol(data.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
			else raw += data[i];
		}
	} else { why = "unknown encoding"; return false; }
	if (!refConvert(raw, cs, "UTF-8", uni)) { why = "not whole characters of " + cs; return false; }
	return true;
}
// decodes unstructured header text; fills `bad` with the first invalid encoded word
inline str refDecodeText(const str& wire, str& bad, size_t* words = nullptr) {
	str u; for (size_t i = 0; i < wire.size(); ++i) if (wire[i] != '\r' && wire[i] != '\n') u += wire[i];
	str out, ws; bool prevEnc = false, first = true;
	for (size_t i = 0; i < u.size();) {
		if (u[i] == ' ' || u[i] == '\t') { ws += u[i++]; continue; }
		size_t e = u.find_first_of(" \t", i); if (e == str::npos) e = u.size();
		str tok = u.substr(i, e - i), uni, why; bool enc = tok.compare(0, 2, "=?") == 0 && tok.size() > 4 && tok.compare(tok.size() - 2, 2, "?=") == 0;
		if (enc) { if (refEncodedWord(tok, uni, why)) { if (words) ++*words; } else { if (bad.empty()) bad = why + ": " + tok; uni = tok; enc = false; } } else uni = tok;
		if (!(first || (enc && prevEnc))) out += ws;
		out += uni; prevEnc = enc; first = false; ws.clear(); i = e;
	}
	return out;
}

} // namespace vh
#endif
