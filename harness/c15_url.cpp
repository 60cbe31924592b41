// C15: URLs survive building and parsing; text that is not a URL is refused and changes nothing.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/utility/url.hpp"
#include "vmime/utility/urlUtils.hpp"
using namespace vh;
typedef vmime::utility::url URL;
typedef vmime::utility::urlUtils UU;

struct Parts { str proto, host, user, pass, path; unsigned port = URL::UNSPECIFIED_PORT; std::map<str, str> params; };
static str showP(const Parts& p) {
	std::ostringstream o; o << "proto=" << show(p.proto) << " host=" << show(p.host) << " port=" << p.port << " user=" << show(p.user) << " pass=" << show(p.pass) << " path=" << show(p.path);
	for (auto& x : p.params) o << " ?" << show(x.first) << "=" << show(x.second);
	return o.str();
}
static Parts parts(const URL& u) { Parts p; p.proto = u.getProtocol(); p.host = u.getHost(); p.port = u.getPort(); p.user = u.getUsername(); p.pass = u.getPassword(); p.path = u.getPath(); p.params = u.getParams(); return p; }
static bool operator==(const Parts& a, const Parts& b) { return showP(a) == showP(b) && a.params == b.params; }

static str anyText(Rng& r, size_t max) {
	size_t n = r.size(max);
	switch (r.below(4)) {
		case 0: return r.bytes(n);
		case 1: return r.from("%:/@?&=#[]+ \t\r\n;.\\\"%", n);
		case 2: return r.from("abcXYZ019-_.!*'()", n);
		default: return r.from("ab%41/:@?&= \xc3\xa9", n);
	}
}
static str refPct(const str& s) { // strict independent decoder
	str o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%') { if (i + 2 >= s.size() + 0 && i + 2 > s.size() - 1) fail("pct", s); VH_CHECK(isxdigit((unsigned char)s[i+1]) && isxdigit((unsigned char)s[i+2]), "encode-form", show(s)); o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; }
	return o;
}
static str genHost(Rng& r) {
	static const std::vector<str> k = {"::1", "2001:db8::8a2e:370:7334", "::ffff:192.0.2.1", "fe80::1", "::", "a", "0", "cafe", "beef", "mac", "ibm", "localhost", "127.0.0.1", "mail.example.com", "xn--espaol-zwa.example", "b", "ef", ":", "[::1]", "[x", "x]", "fe80::1%eth0", "dead:beef"};
	if (r.chance(2, 3)) return r.pick(k);
	str s; do s = r.coin() ? anyText(r, 30) : r.from("abcdefghij0123456789-.", 1 + r.below(20)); while (s.empty());
	return s;
}
static Parts genParts(Rng& r) {
	Parts p; p.proto = r.coin() ? r.pickc({"imap", "smtp", "pop3s", "maildir", "http", "x-y.z+1"}) : r.from("abcdefghijklmnopqrstuvwxyz0123456789+.-", 1 + r.below(10));
	if (p.proto == "file") p.proto = "filex";
	if (r.chance(1, 12)) p.proto = "file";
	if (p.proto != "file") {
		p.host = genHost(r);
		if (r.coin()) { static const unsigned k[] = {1, 25, 80, 143, 993, 32767, 32768, 65534}; p.port = r.coin() ? k[r.below(8)] : (unsigned)r.range(1, 65534); }
		if (r.coin()) p.user = anyText(r, 20);
		if (r.coin()) p.pass = anyText(r, 20);
	}
	if (r.chance(2, 3)) p.path = r.coin() ? r.from("abc/.-_", r.below(20)) : anyText(r, 40);
	for (int n = r.coin() ? 0 : (int)r.below(5); n > 0; --n) p.params[r.chance(1, 4) ? anyText(r, 8) : r.from("abcp123", 1 + r.below(5))] = anyText(r, 20);
	return p;
}
static URL make(Rng& r, const Parts& p) {
	if (r.coin()) { URL u(p.proto, p.host, (vmime::port_t)p.port, p.path, p.user, p.pass); u.getParams() = p.params; return u; }
	URL u("x", "y"); u.setProtocol(p.proto); u.setHost(p.host); if (p.port != URL::UNSPECIFIED_PORT || r.coin()) u.setPort((vmime::port_t)p.port); u.setPath(p.path); u.setUsername(p.user); u.setPassword(p.pass);
	for (auto& x : p.params) u.getParams()[x.first] = x.second;
	return u;
}
static void sRound(Ctx& c) {
	Rng& r = c.rng; Parts p = genParts(r); c.note(showP(p));
	URL u = make(r, p); str s = str(u);
	VH_EQ((str)u, s, "string-operator", "url");
	VH_CHECK(parts(u) == p, "components", showP(parts(u)) << " expected " << showP(p));
	for (char ch : s) VH_CHECK((unsigned char)ch > 32 && (unsigned char)ch < 127, "characters", "URL text " << show(s) << " of " << showP(p));
	// an independent reader of the text
	size_t a = s.find("://"); VH_CHECK(a != str::npos && s.substr(0, a) == p.proto, "shape", show(s));
	str rest = s.substr(a + 3), auth = rest.substr(0, rest.find('/')); size_t at = auth.rfind('@');
	str ui = at == str::npos ? "" : auth.substr(0, at), hp = at == str::npos ? auth : auth.substr(at + 1), port;
	VH_EQ(refPct(ui.substr(0, ui.find(':'))), p.user, "text-user", show(s)); VH_EQ(ui.find(':') == str::npos ? "" : refPct(ui.substr(ui.find(':') + 1)), p.pass, "text-pass", show(s));
	if (!hp.empty() && hp[0] == '[') { size_t e = hp.find(']'); VH_CHECK(e != str::npos && hp.find(':') < e, "text-brackets", "host " << show(p.host) << " written as " << show(hp)); port = hp.substr(e + 1); VH_EQ(hp.substr(1, e - 1), p.host, "text-host", show(s)); VH_CHECK(port.empty() || port[0] == ':', "text-port", show(s)); }
	else { size_t k = hp.find(':'); VH_EQ(refPct(hp.substr(0, k)), p.host, "text-host", show(s)); if (k != str::npos) port = hp.substr(k); }
	VH_EQ(port, p.port == URL::UNSPECIFIED_PORT ? str() : ":" + show(p.port), "text-port", show(s));
	// parse back, in each way
	URL v(s); VH_CHECK(parts(v) == p, "round-trip", show(s) << " parsed as " << showP(parts(v)) << " expected " << showP(p));
	URL w("old", "oldhost", 77, "oldpath", "olduser", "oldpass"); w.getParams()["old"] = "1"; w = s;
	VH_CHECK(parts(w) == p, "reassign", show(s) << " parsed over another URL as " << showP(parts(w)));
	VH_EQ(str(v), s, "stable", showP(p));
	URL x(v), y("a", "b"); y = v; x.setHost("changed"); VH_CHECK(parts(y) == p && parts(v) == p, "copy", show(s));
	c.seen("shape", str(p.user.empty() ? "" : "u") + (p.pass.empty() ? "" : "p") + (p.port == URL::UNSPECIFIED_PORT ? "" : "n") + (p.path.empty() ? "" : "/") + (p.params.empty() ? "" : "?"));
	c.nontrivial(s);
}
static void sText(Ctx& c) {
	Rng& r = c.rng; str t = anyText(r, 200); c.note(t);
	str e = UU::encode(t); VH_EQ(UU::decode(e), t, "encode-decode", "decode(encode()) of " + show(t)); VH_EQ(refPct(e), t, "encode", "encode of " + show(t));
	for (char ch : e) VH_CHECK(isalnum((unsigned char)ch) || strchr("%-_.!*'()", ch), "encode-chars", show(e));
	for (auto& ch : e) ch = (char)tolower((unsigned char)ch);
	str lowHex; for (size_t i = 0; i < t.size(); ++i) { char b[4]; snprintf(b, 4, r.coin() ? "%%%02x" : "%%%02X", (unsigned char)t[i]); lowHex += b; }
	VH_EQ(UU::decode(lowHex), t, "decode-hex", show(lowHex));
	UU::decode(t);  // anything is accepted
	c.nontrivial(t);
}
// written by others: nothing encoded that need not be
static void sRead(Ctx& c) {
	Rng& r = c.rng; Parts p; const str safe = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.!*'()~";
	p.proto = r.pickc({"imap", "smtp", "pop3", "http"}); str s = p.proto; for (auto& ch : s) if (r.chance(1, 8)) ch = (char)toupper(ch); s += "://";
	auto put = [&](str& dst, size_t n, const str& extra) { for (size_t i = 0; i < n; ++i) { if (r.chance(1, 6)) { char ch = (char)r.range(1, 255); dst += ch; char b[4]; snprintf(b, 4, "%%%02x", (unsigned char)ch); s += b; } else { char ch = r.from(safe + extra, 1)[0]; dst += ch; s += ch; } } };
	if (r.coin()) { put(p.user, 1 + r.below(10), r.chance(1, 3) ? "@+$,;&=" : "+$,;&="); if (r.coin()) { s += ":"; put(p.pass, 1 + r.below(10), ":+$,;&="); } s += "@"; }
	if (r.chance(1, 4)) { p.host = r.pickc({"::1", "2001:db8::1", "::ffff:1.2.3.4"}); s += "[" + p.host + "]"; } else { p.host = r.from("abcdefghij.-0123", 1 + r.below(20)); s += p.host; }
	if (r.coin()) { p.port = (unsigned)r.range(1, 65534); s += ":"; if (r.chance(1, 6)) s += "00"; s += show(p.port); } else if (r.chance(1, 8)) s += ":";
	if (r.chance(2, 3)) {
		s += "/"; put(p.path, r.below(20), "/:@+$,;&=");
		if (r.coin()) {
			s += "?"; int n = 1 + (int)r.below(4);
			for (int i = 0; i < n; ++i) { if (i) s += "&"; str k = "k" + show(i), v; s += k; if (r.chance(1, 6)) v = k; else { s += "="; put(v, r.below(10), "=/:@+$,;?"); } p.params[k] = v; }
		}
	}
	// white space around the text of a component is not part of it
	if (!p.path.empty() && isspace((unsigned char)p.path.back()) && 0) return;
	c.note(s);
	URL u(s); VH_CHECK(parts(u) == p, "read", show(s) << " parsed as " << showP(parts(u)) << " expected " << showP(p)); c.nontrivial(s);
}
static void sRefuse(Ctx& c) {
	Rng& r = c.rng; str s, h = r.from("abc.", 1 + r.below(8));
	switch (r.below(7)) {
		case 0: s = r.from("abc:/@. ?", r.below(20)); while (s.find("://") != str::npos) s.erase(s.find("://"), 1); break;
		case 1: s = "://" + h; break;
		case 2: s = "imap:///" + h; break;
		case 3: s = "imap://user:pw@/" + h; break;
		case 4: s = "imap://" + h + ":" + r.pickc({"12a", "a", "-1", "1-", "0x50", "+80", "80.5", "65536", "99999", "4294967297", "18446744073709551696", "99999999999999999999999"}) + (r.coin() ? "/path" : ""); break;
		case 5: s = "imap://[::1" + str(r.coin() ? "" : "/x"); break;
		default: s = "imap://" + h + "@:80/x"; break;
	}
	c.note(s);
	URL u("proto", "host", 44, "path", "user", "pass"); u.getParams()["k"] = "v"; Parts before = parts(u);
	for (int i = 0; i < 2; ++i) {
		bool refused = false;
		try { if (i == 0) u = s; else URL v(s); } catch (vmime::exceptions::malformed_url&) { refused = true; }
		VH_CHECK(refused, "accepted", show(s) << " accepted as a URL" << (i ? "" : ": " + showP(parts(u))));
	}
	VH_CHECK(parts(u) == before, "changed", "refused " << show(s) << " changed the URL to " << showP(parts(u)));
	c.nontrivial(s);
}
static void sHostile(Ctx& c) {
	Rng& r = c.rng; str s = r.coin() ? str(make(r, genParts(r))) : anyText(r, 60);
	for (int n = (int)r.below(6); n > 0; --n) { size_t p = r.below(s.size() + 1); switch (r.below(4)) { case 0: s.insert(p, r.pickc({"@", "://", "[", "]", ":", "?", "&", "=", "%", "%4", "/", "[]", "[]:", " ", "file"})); break; case 1: if (p < s.size()) s.erase(p, 1 + r.below(5)); break; case 2: s.insert(p, 1, (char)r.next()); break; default: s = s.substr(p); } }
	c.note(s);
	URL u("proto", "host", 44, "path", "user", "pass"); Parts before = parts(u);
	bool ok = true; try { u = s; } catch (vmime::exceptions::malformed_url&) { ok = false; VH_CHECK(parts(u) == before, "changed", show(s)); }
	c.seen("hostile", ok ? "accepted" : "refused");
	if (ok) { VH_CHECK(!u.getProtocol().empty(), "hostile-proto", show(s)); str b = str(u); try { URL v(b); VH_CHECK(v.getHost() == u.getHost() && v.getUsername() == u.getUsername() && v.getPassword() == u.getPassword() && v.getPort() == u.getPort(), "hostile-stable", show(s) << " -> " << show(b)); } catch (vmime::exceptions::malformed_url&) { VH_CHECK(u.getProtocol().find_first_of(":/@") != str::npos || u.getHost().empty(), "hostile-rebuild", show(s) << " -> " << show(b)); } }
	c.nontrivial(s);
}
void vh::setup() {
	setRule("each URL or text counts once");
	addSuite("round", 120000, 6000000, sRound);
	addSuite("text", 60000, 3000000, sText);
	addSuite("read", 60000, 3000000, sRead);
	addSuite("refuse", 30000, 1000000, sRefuse);
	addSuite("hostile", 100000, 6000000, sHostile);
}
