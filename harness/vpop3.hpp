// A conforming POP3 server over a list of messages.
#ifndef VPOP3_HPP
#define VPOP3_HPP
#include "vnet.hpp"
namespace vh {
struct PopMsg { str content, uid; bool deleted = false; };   // content: whole lines ending in CRLF
struct PopConf {
	uint64_t seed = 1; bool junk = false; /* refuses with words that are no status indicator */ bool capa = true, apop = false, uidl = true, top = true, sloppy = false; str stamp, user = "user", pass = "secret"; unsigned refuse = 0; std::vector<str> sasl; int greeting = 0;
	std::map<str, int> refuseOnce;      // verb -> n-th occurrence is refused
};
class PopServer : public LineServer {
public:
	PopServer(const PopConf& c, std::vector<PopMsg>* box) : conf(c), rng(c.seed), box(box) {}
	PopConf conf; Rng rng; std::vector<PopMsg>* box; std::vector<PopMsg*> view; std::vector<str> commands; std::map<str, int> seen; bool authed = false, quit = false; str userGiven, lastErr; unsigned refused = 0; str md5stamp; bool authMode = false;
	std::vector<str> retrieved; std::vector<std::pair<str, size_t>> acted;  // verb, message
	void ok(const str& t = "") { str x = t.empty() ? rng.pickc({"", " ", " ok", " 7 things", " +OK", " .", " -ERR"}) : " " + t; say("+OK" + x + "\r\n"); }
	void err(const str& t = "") { lastErr = t.empty() ? "no way " + rng.from("abcdef", 5) : t; ++refused; say("-ERR " + lastErr + "\r\n"); }
	void connected() { if (conf.greeting) { err("busy"); closed = true; return; } say("+OK POP3 ready" + (conf.apop ? " " + conf.stamp : str()) + "\r\n"); }
	static str stuff(const str& s) { str o; bool bol = true; for (size_t i = 0; i < s.size(); ++i) { if (bol && s[i] == '.') o += '.'; o += s[i]; bol = s[i] == '\n' && i && s[i - 1] == '\r'; } return o; }
	static str header(const str& c) { size_t p = c.find("\r\n\r\n"); if (c.substr(0, 2) == "\r\n") return "\r\n"; return p == str::npos ? c + "\r\n" : c.substr(0, p + 4); }
	void start() { authed = true; view.clear(); for (auto& m : *box) { m.deleted = false; view.push_back(&m); } }
	virtual bool verify(const str& u, const str& p) { return u == conf.user && p == conf.pass; }
	virtual str md5(const str&) { return ""; }
	virtual bool authCommand(const str&) { return false; }
	virtual void authLine(const str&) {}
	virtual bool extra(const str&, const str&) { return false; }
	void line(const str& l) {
		commands.push_back(l);
		if (authMode) { authLine(l); return; }
		if (pending()) bad("command " + q(l) + " sent before the previous reply was read");
		str v = l.substr(0, l.find(' ')), a = l.size() > v.size() ? l.substr(v.size() + 1) : str(); for (auto& ch : v) ch = (char)toupper((unsigned char)ch);
		int k = ++seen[v];
		if (v == "QUIT") { quit = true; if (authed) { std::vector<PopMsg> left; for (auto& m : *box) if (!m.deleted) left.push_back(m); view.clear(); box->swap(left); } ok(); closed = true; return; }
		auto ro = conf.refuseOnce.find(v);
		if (ro != conf.refuseOnce.end() && ro->second == k) { if (conf.junk && (v == "RETR" || v == "TOP" || v == "DELE" || v == "STAT" || v == "NOOP" || !a.empty())) { lastErr = rng.pickc({"ERR no", "NO", "no +OK", "*OK", "OK", "421 busy"}); ++refused; say(lastErr + "\r\n"); } else err(); return; }
		if (v == "CAPA") { if (!conf.capa) { err("unknown command"); return; } str s = "+OK Capability list follows\r\n"; if (conf.top) s += "TOP\r\n"; if (conf.uidl) s += "UIDL\r\n"; s += "USER\r\n"; if (!conf.sasl.empty()) { s += "SASL"; for (auto& m : conf.sasl) s += " " + m; s += "\r\n"; } s += "EXPIRE NEVER\r\nIMPLEMENTATION v.1\r\n.\r\n"; say(s); return; }
		if (extra(v, a)) return;
		if (!authed) {
			if (v == "USER") { userGiven = a; ok(); }
			else if (v == "PASS") { if (verify(userGiven, a)) { start(); ok("maildrop ready"); } else err("bad login"); }
			else if (v == "APOP") { size_t p = a.rfind(' '); if (conf.apop && p != str::npos && a.substr(0, p) == conf.user && a.substr(p + 1) == md5(conf.stamp + conf.pass)) { start(); ok(); } else err("permission denied"); }
			else if (v == "NOOP") err("not now");
			else if (v == "AUTH" && authCommand(a)) {}
			else { bad("command before authentication: " + q(l)); err("log in first"); }
			return;
		}
		if (v == "STAT") { size_t n = 0, s = 0; for (auto m : view) if (!m->deleted) ++n, s += m->content.size(); ok(std::to_string(n) + " " + std::to_string(s)); }
		else if (v == "NOOP") ok();
		else if (v == "RSET") { for (auto m : view) m->deleted = false; ok(); }
		else if (v == "LIST" || v == "UIDL") {
			bool u = v == "UIDL"; if (u && !conf.uidl) { err("unknown command"); return; }
			auto val = [&](size_t i) { return std::to_string(i + 1) + " " + (u ? view[i]->uid : std::to_string(view[i]->content.size())); };
			if (a.empty()) { str s = "+OK" + rng.pickc({"", " 2 messages", " listing follows"}) + "\r\n"; for (size_t i = 0; i < view.size(); ++i) if (!view[i]->deleted) s += val(i) + "\r\n"; say(s + ".\r\n"); }
			else { PopMsg* m = get(a, l); if (!m) return; acted.push_back({v, num(a)}); say("+OK " + val(num(a) - 1) + "\r\n"); }
		} else if (v == "RETR" || v == "TOP") {
			if (v == "TOP" && !conf.top) { err("unknown command"); return; }
			str n = a; if (v == "TOP") { size_t p = a.find(' '); if (p == str::npos || a.substr(p + 1) != "0") bad("unexpected " + q(l)); n = a.substr(0, p); }
			PopMsg* m = get(n, l); if (!m) return; acted.push_back({v, num(n)});
			str b = v == "RETR" ? m->content : header(m->content);
			say("+OK" + rng.pickc({"", " ", " 120 octets", " message follows.", " ..", " <a@b>"}) + "\r\n" + stuff(b) + ".\r\n");
		} else if (v == "DELE") { PopMsg* m = get(a, l); if (!m) return; m->deleted = true; acted.push_back({v, num(a)}); ok("message deleted"); }
		else { bad("unknown command " + q(l)); err(); }
	}
	static size_t num(const str& a) { return strtoul(a.c_str(), 0, 10); }
	PopMsg* get(const str& a, const str& l) {
		if (a.empty() || a.find_first_not_of("0123456789") != str::npos || a[0] == '0') { bad("bad message number: " + q(l)); err("syntax"); return nullptr; }
		size_t n = num(a); if (n < 1 || n > view.size()) { bad("no such message: " + q(l)); err("no such message"); return nullptr; }
		if (view[n - 1]->deleted) { err("message is deleted"); return nullptr; }
		return view[n - 1];
	}
};
inline str popLines(Rng& r, size_t max = 14) {
	str s; size_t n = r.chance(1, 15) ? 300 + r.below(4000) : r.below(max);
	for (size_t i = 0; i < n; ++i) s += r.pickc({"", ".", "..", "...", ".x", "....", ". ", "+OK", "-ERR", "a.b", ".\r", "\r", "\r\r", "\xc3\xa9", "x\nb", "x\r.", "-"}) + (r.chance(1, 12) ? r.coin() ? str("\0.", 2) : str("x\0y\0", 4) : str()) + (r.chance(1, 4) ? r.from("abc .\xff", r.size(200)) : str()) + "\r\n";
	return s;
}
}
#endif
