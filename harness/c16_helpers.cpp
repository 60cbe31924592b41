// C16: folder paths and string helpers agree with plain definitions.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/utility/path.hpp"
#include "vmime/utility/stringUtils.hpp"
using namespace vh;
typedef vmime::utility::path Path;
typedef vmime::utility::stringUtils SU;
typedef std::vector<str> Names;
static const vmime::charset U8(vmime::charsets::UTF_8);

// ---- paths against lists of names
static str genName(Rng& r) {
	static const std::vector<str> k = {"a", "b", "INBOX", "inbox", "Sent", "d\xc3\xa9j\xc3\xa0", "\xe6\x97\xa5\xe6\x9c\xac", "x y", ".", "..", "a.b", "\xf0\x9f\x98\x80", "=?utf-8?Q?a?="};
	if (r.chance(3, 4)) return k[r.below(r.coin() ? 4 : k.size())];
	return r.from("abAB 01.-_~&+\\\"%", 1 + r.below(8));
}
static Names genNames(Rng& r, size_t max) { Names n; for (size_t k = r.below(max + 1); k; --k) n.push_back(genName(r)); return n; }
static vmime::word comp(Rng& r, const str& n) {
	if (r.chance(1, 5)) { bool l1 = true; str o; for (size_t i = 0; i < n.size(); ++i) { unsigned char c = n[i]; if (c < 128) o += n[i]; else if ((c == 0xc2 || c == 0xc3) && i + 1 < n.size()) o += (char)(((c & 3) << 6) | (n[++i] & 63)); else { l1 = false; break; } } if (l1) return vmime::word(o, vmime::charset("iso-8859-1")); }
	return vmime::word(n, U8);
}
static Path mk(Rng& r, const Names& n) { Path p; for (auto& x : n) switch (r.below(3)) { case 0: p.appendComponent(comp(r, x)); break; case 1: p /= comp(r, x); break; default: p = p / comp(r, x); } return p; }
static Names names(const Path& p) { Names n; for (size_t i = 0; i < p.getSize(); ++i) { str a = p.getComponentAt(i).getConvertedText(U8); VH_EQ(p[i].getConvertedText(U8), a, "path-index", ""); n.push_back(a); } return n; }
static str show(const Names& n) { str s = "["; for (auto& x : n) s += vh::show(x) + " "; return s + "]"; }
#define SAME(p, n, key) do { Names a_ = names(p); if (a_ != (n)) fail(key, show(a_) + " expected " + show(n)); } while (0)
static bool prefix(const Names& a, const Names& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static Names cat(Names a, const Names& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void sPath(Ctx& c) {
	Rng& r = c.rng; Names a = genNames(r, 5), b = genNames(r, 4);
	if (r.coin()) { b = a; b.resize(r.below(a.size() + 1)); if (r.coin()) b = cat(b, genNames(r, 2)); if (!b.empty() && r.coin()) b[r.below(b.size())] = genName(r); }
	c.note(show(a) + " , " + show(b)); c.nontrivial(show(a) + show(b));
	Path pa = mk(r, a), pb = mk(r, b); SAME(pa, a, "append"); SAME(pb, b, "append");
	VH_EQ(pa == pb, a == b, "equal", show(a) << show(b)); VH_EQ(pa != pb, a != b, "equal", show(a) << show(b));
	VH_EQ(pa.isEmpty(), a.empty(), "empty", show(a)); VH_EQ(pa.isRoot(), a.empty(), "empty", show(a)); VH_EQ(pa.getSize(), a.size(), "size", show(a));
	bool par = prefix(b, a) && b.size() < a.size(), dpar = par && b.size() + 1 == a.size();
	VH_EQ(pb.isParentOf(pa), par, "parent", show(b) << " parent of " << show(a)); VH_EQ(pb.isDirectParentOf(pa), dpar, "direct-parent", show(b) << " parent of " << show(a));
	c.seen("relation", str(par ? "parent" : "no") + (dpar ? "direct" : "") + (a == b ? "same" : "") + (prefix(b, a) ? "prefix" : ""));
	SAME(pa / pb, cat(a, b), "join"); { Path t = pa; t /= pb; SAME(t, cat(a, b), "join"); SAME(pb, b, "join-arg"); }
	{ Path t = pa; t /= t; SAME(t, cat(a, a), "join-self"); } { Path t = pa; t = *&t; SAME(t, a, "assign-self"); }
	if (!a.empty()) { size_t k = r.below(a.size()); Path t = pa; t = t[k]; SAME(t, Names{a[k]}, "assign-own-component"); t = pa; t /= t[k]; SAME(t, cat(a, Names{a[k]}), "append-own"); t = pa; t.appendComponent(t.getComponentAt(k)); SAME(t, cat(a, Names{a[k]}), "append-own");
		VH_EQ(pa.getLastComponent().getConvertedText(U8), a.back(), "last", show(a)); const Path& cp = pa; VH_EQ(cp.getLastComponent().getConvertedText(U8), a.back(), "last", show(a));
		Path u(comp(r, a[k])); SAME(u, Names{a[k]}, "from-component"); Path cpy(pa); cpy[k] = comp(r, "changed"); SAME(pa, a, "copy-independent"); Names ch = a; ch[k] = "changed"; SAME(cpy, ch, "set-component"); }
	Names up = a; if (!up.empty()) up.pop_back(); SAME(pa.getParent(), up, "getParent");
	{ Path t = pb; t = pa; SAME(t, a, "assign"); t = pa.getParent(); SAME(t, up, "assign"); t = comp(r, "one"); SAME(t, Names{"one"}, "assign-component"); }
	if (!a.empty()) VH_CHECK(pa.getParent().isDirectParentOf(pa), "parent-of", show(a));
}
static void sRename(Ctx& c) {
	Rng& r = c.rng; Names a = genNames(r, 6), o, n = genNames(r, 4);
	switch (r.below(4)) { case 0: o = genNames(r, 4); break; case 1: o = a; o.resize(r.below(a.size() + 1)); break; default: o = a; o.resize(r.below(a.size() + 1)); if (!o.empty()) o[r.coin() ? o.size() - 1 : r.below(o.size())] = genName(r); if (r.chance(1, 4)) o.push_back(genName(r)); }
	c.note(show(a) + " rename " + show(o) + " to " + show(n)); c.nontrivial(show(a) + show(o) + show(n));
	Path p = mk(r, a), po = mk(r, o), pn = mk(r, n); bool under = prefix(o, a); Names want = a;
	if (under && !a.empty()) { want = n; want.insert(want.end(), a.begin() + o.size(), a.end()); }
	c.count(under ? "renamed" : "not under the old parent"); if (!under && !o.empty() && o.size() <= a.size() && std::equal(o.begin(), o.end() - 1, a.begin())) c.count("differs in the last name only");
	p.renameParent(po, pn); SAME(p, want, "renameParent"); SAME(po, o, "rename-arg"); SAME(pn, n, "rename-arg");
}
static void sPathText(Ctx& c) {
	Rng& r = c.rng; str sep = r.pickc({"/", ".", "\\", "::", "->", "abc", "//", "aa"});
	if (r.coin()) { // names -> text -> names
		Names a; for (size_t k = r.below(6); k; --k) { str n = genName(r); if (n.find_first_of(sep) == str::npos) a.push_back(n); }
		c.note(show(a) + " sep " + sep); c.nontrivial(show(a) + sep); str want; for (size_t i = 0; i < a.size(); ++i) want += (i ? sep : "") + a[i];
		Path p = mk(r, a); str t = p.toString(sep, U8); VH_EQ(t, want, "toString", show(a)); SAME(Path::fromString(t, sep, U8), a, "fromString"); c.count(sep.size() > 1 ? "long separators" : "single separators");
	} else { // any text
		str t; for (int k = (int)r.below(12); k > 0; --k) t += r.chance(2, 5) ? sep : r.coin() ? sep.substr(0, 1 + r.below(sep.size())) : r.pickc({"a", "b", "bc", "INBOX", "\xc3\xa9", " "});
		c.note(vh::show(t) + " sep " + sep); c.nontrivial(t + sep); Names w; size_t at = 0; for (;;) { size_t e = t.find(sep, at); str x = t.substr(at, e == str::npos ? e : e - at); if (!x.empty()) w.push_back(x); if (e == str::npos) break; at = e + sep.size(); }
		SAME(Path::fromString(t, sep, U8), w, "fromString"); c.count("texts split");
	}
}
// ---- strings
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static str lower(str s) { for (auto& c : s) c = lo(c); return s; }
static str anyText(Rng& r, size_t m) { size_t n = r.size(m); switch (r.below(4)) { case 0: return r.bytes(n); case 1: return r.from("aAbBzZ@[`{ \t\r\n\"\\=?", n); case 2: return r.from("\"\\a ", n); default: return r.from("abc019.-", n); } }
static str ascii(str s) { for (auto& c : s) c &= 127; return s; }
static void sString(Ctx& c) {
	Rng& r = c.rng; str s = anyText(r, 60), t = anyText(r, 30);
	if (r.coin()) { t = s; for (auto& x : t) if (r.coin()) x = r.coin() ? lo(x) : up(x); if (!t.empty() && r.chance(1, 3)) t[r.below(t.size())] ^= 1 << r.below(8); if (r.chance(1, 4)) t.resize(r.below(t.size() + 1)); if (r.chance(1, 4)) t += "x"; }
	c.note(show(s) + " " + show(t)); c.nontrivial(s + "\x01" + t);
	str l = s, u = s; for (auto& x : l) x = lo(x); for (auto& x : u) x = up(x);
	VH_EQ(str(SU::toLower(s)), l, "toLower", show(s)); VH_EQ(str(SU::toUpper(s)), u, "toUpper", show(s));
	VH_EQ(SU::isStringEqualNoCase(s, t), lower(s) == lower(t), "equal", show(s) << " " << show(t)); c.count(lower(s) == lower(t) ? "equal pairs" : "different pairs");
	{ str A = ascii(s), B = lower(ascii(t)); for (auto& x : B) if (!x) x = 'n'; size_t n = r.below(B.size() + 1); bool w = A.size() >= n && lower(A.substr(0, n)) == B.substr(0, n);
	  VH_EQ(SU::isStringEqualNoCase(A, B.c_str(), n), w, "equal-prefix", show(A) << " " << show(B) << " " << n);
	  size_t off = r.below(A.size() + 1); str T = A.substr(off); w = T.size() >= n && lower(T.substr(0, n)) == B.substr(0, n); VH_EQ(SU::isStringEqualNoCase(A.begin() + off, A.end(), B.c_str(), n), w, "equal-range", show(T) << " " << show(B) << " " << n); }
	{ size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); VH_EQ(str(SU::trim(s)), b == str::npos ? str() : s.substr(b, e - b + 1), "trim", show(s)); }
	size_t na = str::npos; bool all = true; for (size_t i = 0; i < s.size(); ++i) if (s[i] & 128) { all = false; if (na == str::npos) na = i; }
	VH_EQ(SU::findFirstNonASCIIchar(s.begin(), s.end()), na, "first-non-ascii", show(s));
	if (s.find("=?") == str::npos) { VH_EQ(SU::is7bit(s), all, "is7bit", show(s)); size_t k = 0; for (char x : s) k += !(x & 128); VH_EQ(SU::countASCIIchars(s.begin(), s.end()), k, "countASCII", show(s)); }
	{ str w = s; if (s.size() >= 2 && s[0] == '"' && s.back() == '"') { w.clear(); bool esc = false; for (size_t i = 1; i + 1 < s.size(); ++i) { if (!esc && s[i] == '\\') { esc = true; continue; } w += s[i]; esc = false; } c.count("quoted"); } VH_EQ(str(SU::unquote(s)), w, "unquote", show(s)); }
	{ str q = SU::quote(s, "\\\"", "\\"); str w; for (char x : s) { if (x == '\\' || x == '"') w += '\\'; w += x; } VH_EQ(q, w, "quote", show(s)); VH_EQ(str(SU::unquote("\"" + q + "\"")), s, "quote-unquote", show(s)); }
	VH_EQ(SU::needQuoting(s), s.find_first_of(" \t\"(),:;<>@[\\]") != str::npos, "needQuoting", show(s));
	{ vmime::byteArray ba(s.begin(), s.end()); str w; char b[3]; for (unsigned char x : s) { snprintf(b, 3, "%02x", x); w += b; } VH_EQ(str(SU::makeHexStringFromBytes(ba)), w, "hex", show(s)); }
	VH_EQ(str(SU::makeStringFromBytes(SU::bytesFromString(s), s.size())), s, "bytes", ""); { str d = t; SU::appendBytesToString(d, SU::bytesFromString(s), s.size()); VH_EQ(d, t + s, "append", ""); }
}
static void sNumber(Ctx& c) {
	Rng& r = c.rng; int v = (int)r.next(); if (r.coin()) v = (int)r.range(-100, 100000); unsigned long ul = (unsigned long)r.next() >> r.below(64); char b[40]; c.note(show(v) + " " + show(ul)); c.nontrivial(show(v) + "," + show(ul));
	snprintf(b, 40, "%d", v); VH_EQ(str(SU::toString(v)), str(b), "number", ""); VH_EQ(SU::fromString<int>(b), v, "number", b); snprintf(b, 40, "%lu", ul); VH_EQ(str(SU::toString(ul)), str(b), "number", ""); VH_EQ(SU::fromString<unsigned long>(b), ul, "number", b);
	str junk = anyText(r, 6); if (junk.find_first_of("0123456789") == str::npos) { volatile char dirty[64]; memset((void*)dirty, 0x5a, 64); VH_EQ(SU::fromString<int>(junk), 0, "not-a-number", show(junk)); c.count("non-numbers"); }
}
static void sHost(Ctx& c) {
	Rng& r = c.rng; str s; if (r.coin()) { for (int k = 1 + (int)r.below(5); k > 0; --k) s += r.from("aZ9-b", 1 + r.below(4)) + (k > 1 || r.chance(1, 8) ? r.chance(1, 10) ? ".." : "." : ""); } else s = anyText(r, 20);
	if (r.chance(1, 20)) s.assign(r.range(1, 400), 'a');
	c.note(show(s)); c.nontrivial(s); size_t dots = 0; bool ok = !s.empty(); str lab; for (size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || s[i] == '.') { if (lab.empty() || lab[0] == '-' || lab.back() == '-') ok = false; lab.clear(); if (i < s.size()) ++dots; } else { if (!isalnum((unsigned char)s[i]) && s[i] != '-') ok = false; lab += s[i]; } }
	VH_EQ(SU::isValidHostname(s), ok, "hostname", show(s)); VH_EQ(SU::isValidFQDN(s), ok && dots >= 2, "fqdn", show(s)); c.count(ok ? "valid host names" : "invalid host names");
}
void vh::setup() {
	setRule("a case is one path pair, text or number, counted by its content");
	addSuite("path", 30000, 600000, sPath); addSuite("rename", 30000, 600000, sRename); addSuite("pathtext", 30000, 600000, sPathText);
	addSuite("string", 60000, 1500000, sString); addSuite("number", 20000, 400000, sNumber); addSuite("host", 30000, 600000, sHost);
}
