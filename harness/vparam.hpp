// Writer of conforming header parameters (RFC 2045, RFC 2231, and the usual RFC 2047 ones) with what they mean.
#ifndef VPARAM_HPP
#define VPARAM_HPP
#include "vref.hpp"
namespace vh {

inline str pct(Rng& r, const str& s, bool all) { str o; for (unsigned char c : s) { bool plain = isalnum(c) || (c && strchr("!#$&+-.^_`{|}~", c)); if (plain && !(all && r.coin())) o += (char)c; else { char b[4]; snprintf(b, 4, r.chance(1, 6) ? "%%%02x" : "%%%02X", c); o += b; } } return o; }
inline str token(Rng& r, size_t n) { return r.from("abcdefghijklmnopqrstuvwxyzABCDEFG0123456789.-_!#$&+^`{|}~", n); }
struct PW { str name, meaning; std::vector<str> sections; };   // sections: complete "attr=value" texts

inline PW genParam(Rng& r, const str& name, Ctx* c = nullptr) {
	PW p; p.name = name; auto eq = [&] { return r.chance(1, 15) ? str(" = ") : str("="); };
	auto nm = [&] { str n = name; if (r.chance(1, 6)) for (auto& ch : n) ch = (char)toupper(ch); return n; };
	int form = (int)r.below(8);
	if (c) c->seen("form", std::to_string(form));
	auto ascii = [&](size_t n) { str s; for (size_t i = 0; i < n; ++i) s += (char)r.range(0x20, 0x7e); while (s.find("=?") != str::npos) s.replace(s.find("=?"), 2, "x"); return s; };
	switch (form) {
		case 0: { str v = token(r, 1 + r.below(20)); p.meaning = v; p.sections.push_back(nm() + eq() + v); break; }
		case 1: { str v = ascii(r.below(30)); p.meaning = v; p.sections.push_back(nm() + eq() + wQuoted(r, v)); break; }
		case 2: case 3: {   // extended, one section; maybe with a plain fallback
			str cs = pickCs(r), raw, m; for (size_t n = r.below(20); n-- > 0;) { uint32_t ch = csChar(r, cs); csEncode(cs, ch, raw); putUtf8(m, ch); }
			p.meaning = m; str lang = r.pickc({"", "", "en", "fr-CA"});
			if (form == 3 && r.coin()) p.sections.push_back(nm() + eq() + wQuoted(r, ascii(5)));
			p.sections.push_back(nm() + "*" + eq() + cs + "'" + lang + "'" + pct(r, raw, r.coin()));
			if (form == 3 && p.sections.size() == 1) p.sections.push_back(nm() + eq() + wQuoted(r, ascii(5)));
			break;
		}
		case 4: {   // plain continuations
			for (size_t n = 1 + r.below(12), i = 0; i < n; ++i) { str v = r.coin() ? token(r, 1 + r.below(12)) : ascii(1 + r.below(12)); bool tok = v.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_!#$&+^`{|}~") == str::npos; p.meaning += v; p.sections.push_back(nm() + "*" + std::to_string(i) + eq() + (tok && r.coin() ? v : wQuoted(r, v))); }
			break;
		}
		case 5: case 6: {   // extended continuations, mixed
			str cs = pickCs(r); size_t n = 1 + r.below(12);
			for (size_t i = 0; i < n; ++i) {
				str raw, m; bool ext = i == 0 || r.chance(2, 3);
				if (ext) for (size_t k = r.below(12); k-- > 0;) { uint32_t ch = csChar(r, cs); csEncode(cs, ch, raw); putUtf8(m, ch); }
				else raw = m = ascii(1 + r.below(10));
				p.meaning += m;
				if (ext) p.sections.push_back(nm() + "*" + std::to_string(i) + "*" + eq() + (i == 0 ? cs + "'" + r.pickc({"", "en"}) + "'" : str()) + pct(r, raw, r.coin()));
				else p.sections.push_back(nm() + "*" + std::to_string(i) + eq() + wQuoted(r, raw));
			}
			break;
		}
		default: { W e = wEncodedWord(r); p.meaning = e.meaning; p.sections.push_back(nm() + eq() + "\"" + e.wire + "\""); if (trimWs(e.meaning) != e.meaning) {} }
	}
	return p;
}
} // namespace vh
#endif
