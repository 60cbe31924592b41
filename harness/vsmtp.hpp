// A conforming SMTP server that records what is delivered and refuses what its plan says.
#ifndef VSMTP_HPP
#define VSMTP_HPP
#include "vnet.hpp"
#include "vwrite.hpp"

namespace vh {

struct SmtpPath { str local, domain; bool operator==(const SmtpPath& o) const { return local == o.local && domain == o.domain; } bool operator<(const SmtpPath& o) const { return std::tie(local, domain) < std::tie(o.local, o.domain); } };
inline std::ostream& operator<<(std::ostream& o, const SmtpPath& p) { return o << "<" << esc(p.local) << " @ " << esc(p.domain) << ">"; }
struct SmtpDelivery { SmtpPath from; std::vector<SmtpPath> to; str data; std::map<str, str> params; std::vector<std::map<str, str>> rparams; bool bdat = false; size_t chunks = 0; };
struct SmtpPlan { int rset = 250, mail = 250, data = 354, fin = 250; std::vector<int> rcpt; int bdatAt = -1, bdatCode = 552; bool bdatLenient = false;  /* answers 250 to the chunks after the refused one */ bool close421 = true; bool mixed = false; /* refusals are several lines whose codes disagree */ };

struct SmtpConf {
	std::vector<str> exts;     // EHLO lines
	bool ehlo = true, multi = false; int greeting = 220;
	uint64_t seed = 1;
	bool has(const str& e) const { for (auto& x : exts) if (lower(x.substr(0, x.find_first_of(" ="))) == lower(e)) return true; return false; }
};

class SmtpServer : public LineServer {
public:
	SmtpServer(const SmtpConf& c, std::vector<SmtpPlan>* plans, size_t* next) : conf(c), rng(c.seed), plans(plans), next(next) {}
	SmtpConf conf; Rng rng; std::vector<SmtpPlan>* plans; size_t* next;
	std::vector<SmtpDelivery> got; std::vector<str> commands;
	bool quit = false, hello = false, secure = false; unsigned ehlos = 0, rsets = 0, authOk = 0;
	enum { CMD, DATA, BDAT, AUTH } st = CMD;
	SmtpDelivery cur; bool haveMail = false, early = false, rsetRefused = false, bdatFailed = false, useUtf8 = false; size_t good = 0, nr = 0; SmtpPlan plan; size_t bleft = 0; bool blast = false; int bidx = 0; str bbuf;
	int lastRefusal = 0; str lastRefusalText; bool mixedSent = false;
	void refuse(int code, int okCode) {
		if (code < 400 || code == 421 || !plan.mixed) { reply(code); return; }
		size_t n = 2 + rng.below(3), at = rng.below(n); str s;
		for (size_t i = 0; i < n; ++i) s += std::to_string(i == at ? code : okCode) + (i + 1 < n ? "-" : " ") + "line " + rng.from("abc", 3) + "\r\n";
		mixedSent = true; say(s); if (!lastRefusal) { lastRefusal = code; lastRefusalText = ""; }
	}

	void reply(int code, const str& text = "") {
		str t = text.empty() ? textFor(code) : text;
		str s; size_t extra = conf.multi ? rng.below(3) : 0;
		for (size_t i = 0; i < extra; ++i) s += std::to_string(code) + "-" + rng.from("abc 0123-", rng.below(20)) + "\r\n";
		say(s + std::to_string(code) + (t.empty() ? "" : " " + t) + "\r\n");
		if (code >= 400 && !lastRefusal) { lastRefusal = code; lastRefusalText = t; }
		if (code == 421) closed = true;
	}
	str textFor(int code) { return code < 400 ? rng.pickc({"OK", "2.0.0 fine", "", "ok - go on", "354 not a code"}) : rng.pickc({"refused ", "5.7.1 no thanks ", "4.2.2 busy ", "no ", "5.7.28 no ", "4.10.345 later ", "5.123.0 x ", "5.1 ", "5..1 "}) + rng.from("abcdef", 6); }
	void connected() { if (conf.greeting) reply(conf.greeting, "mx.example.test Service ready"); }
	bool pipelining() const { return conf.has("PIPELINING"); }
	bool wantRaw() { return st == DATA || st == BDAT; }
	bool raw() {
		if (st == DATA) {
			if (pending()) early = true;
			for (;;) {
				size_t p = in.find("\r\n");
				if (p == str::npos) return false;
				str l = in.substr(0, p); in.erase(0, p + 2);
				if (l == ".") { if (early) bad("message data sent before the reply to DATA was read"); break; }
				if (!l.empty() && l[0] == '.') l.erase(0, 1);
				cur.data += l + "\r\n";
			}
			st = CMD;
			int code = plan.fin; if (code == 250) got.push_back(cur);
			clear(); refuse(code, 250);
			return true;
		}
		size_t n = std::min(bleft, in.size()); bbuf.append(in, 0, n); in.erase(0, n); bleft -= n;
		if (bleft) return false;
		st = CMD; ++cur.chunks; int i = bidx++;
		if (haveMail && good && bdatFailed && plan.bdatLenient) { reply(250); return true; }
		if (!haveMail || !good || bdatFailed) { reply(503); return true; }
		if (i == plan.bdatAt) { bdatFailed = true; refuse(plan.bdatCode, 250); return true; }
		cur.data += bbuf; cur.bdat = true;
		if (blast) { int code = plan.fin; if (code == 250) got.push_back(cur); clear(); refuse(code, 250); } else reply(250);
		return true;
	}
	void clear() { cur = SmtpDelivery(); haveMail = bdatFailed = useUtf8 = false; good = nr = 0; bidx = 0; }
	static str up(str s) { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
	bool path(const str& s, size_t& i, SmtpPath& p) {
		if (i >= s.size() || s[i] != '<') return false; ++i;
		if (i < s.size() && s[i] == '"') {
			for (++i; i < s.size() && s[i] != '"'; ++i) { if (s[i] == '\\' && i + 1 < s.size()) ++i; p.local += s[i]; }
			if (i++ >= s.size()) return false;
		} else while (i < s.size() && s[i] != '@' && s[i] != '>') {
			unsigned char c = s[i];
			if (c <= 32 || c == 127 || strchr("<>()[]\\,;:\"", c)) return false;
			p.local += s[i++];
		}
		if (i < s.size() && s[i] == '@') { ++i; while (i < s.size() && s[i] != '>') { unsigned char c = s[i]; if (c <= 32 || c == 127 || strchr("<()\\,;\"@", c)) return false; p.domain += s[i++]; } }
		if (i >= s.size() || s[i] != '>') return false;
		++i; return true;
	}
	bool params(const str& s, size_t i, std::map<str, str>& m) {
		while (i < s.size()) {
			if (s[i++] != ' ') return false;
			size_t e = s.find(' ', i); if (e == str::npos) e = s.size();
			str kv = s.substr(i, e - i); i = e; if (kv.empty()) return false;
			size_t q = kv.find('='); str k = up(kv.substr(0, q));
			if (m.count(k)) return false;
			m[k] = q == str::npos ? "" : kv.substr(q + 1);
		}
		return true;
	}
	virtual bool extra(const str&, const str&) { return false; }  // further commands
	void line(const str& l) {
		commands.push_back(l);
		str c = up(l.substr(0, l.find(' ')));
		if (st == AUTH) { authLine(l); return; }
		if (pending() && !pipelining()) bad("command " + q(l) + " sent before the previous reply was read, without PIPELINING");
		for (unsigned char ch : l) if (ch < 32 || ch == 127) { bad("control character in command " + q(l)); break; }
		if (c == "EHLO" || c == "HELO") {
			if (l.size() < 6) bad("no host name in " + q(l));
			if (c == "EHLO") ++ehlos;
			if (c == "EHLO" && !conf.ehlo) { reply(502, "not implemented"); lastRefusal = 0; return; }
			clear(); hello = true;
			if (c == "HELO" || conf.exts.empty()) { say("250 mx.example.test\r\n"); return; }
			str s = "250-mx.example.test greets you\r\n";
			for (size_t i = 0; i < conf.exts.size(); ++i) s += (i + 1 < conf.exts.size() ? "250-" : "250 ") + conf.exts[i] + "\r\n";
			say(s);
		} else if (extra(c, l)) {
		} else if (c == "RSET") { ++rsets; SmtpPlan p = *next < plans->size() ? (*plans)[*next] : SmtpPlan(); if (p.rset < 300) clear(); else rsetRefused = true; reply(p.rset); }
		else if (c == "NOOP") reply(250);
		else if (c == "QUIT") { quit = true; reply(221); closed = true; }
		else if (c == "MAIL") {
			plan = *next < plans->size() ? (*plans)[*next] : SmtpPlan(); ++*next;
			if (!hello || haveMail) { if (!rsetRefused) bad("MAIL out of sequence"); useUtf8 = up(l).find(" SMTPUTF8") != str::npos; /* what is pipelined behind belongs to it */ reply(503); return; }
			SmtpPath p; size_t i = 10; std::map<str, str> ps;
			if (up(l.substr(0, 10)) != "MAIL FROM:" || !path(l, i, p) || !params(l, i, ps)) { bad("bad syntax: " + q(l)); reply(501); return; }
			static const std::map<str, str> need = {{"SIZE", "SIZE"}, {"SMTPUTF8", "SMTPUTF8"}, {"BODY", "8BITMIME"}, {"RET", "DSN"}, {"ENVID", "DSN"}, {"AUTH", "AUTH"}};
			for (auto& k : ps) { auto it = need.find(k.first); if (it == need.end() || !conf.has(it->second)) bad("parameter not offered: " + q(l)); }
			useUtf8 = ps.count("SMTPUTF8");
			for (unsigned char ch : l) if (ch > 127 && !useUtf8) { bad("8 bit characters in " + q(l)); break; }
			if (plan.mail == 250) { haveMail = true; cur.from = p; cur.params = ps; }
			refuse(plan.mail, 250);
		} else if (c == "RCPT") {
			SmtpPath p; size_t i = 8; std::map<str, str> ps;
			if (up(l.substr(0, 8)) != "RCPT TO:" || !path(l, i, p) || !params(l, i, ps)) { bad("bad syntax: " + q(l)); reply(501); return; }
			for (auto& k : ps) if ((k.first != "NOTIFY" && k.first != "ORCPT") || !conf.has("DSN")) bad("parameter not offered: " + q(l));
			if (!haveMail) { if (plan.mail == 250) bad("RCPT without MAIL"); reply(503); return; }
			for (unsigned char ch : l) if (ch > 127 && !useUtf8) { bad("8 bit characters in " + q(l)); break; }
			int code = nr < plan.rcpt.size() ? plan.rcpt[nr] : 250; ++nr;
			if (code < 300) { ++good; cur.to.push_back(p); cur.rparams.push_back(ps); }
			refuse(code, 250);
		} else if (c == "DATA") {
			if (!haveMail || !good) { reply(503); return; }
			int code = plan.data; if (code == 354) { st = DATA; early = !in.empty(); }
			refuse(code, 354);
		} else if (c == "BDAT") {
			if (!conf.has("CHUNKING")) { bad("BDAT although CHUNKING is not offered"); reply(502); return; }
			size_t n = 0; char lastw[8] = ""; char tail = 0; int k = sscanf(l.c_str() + 4, " %zu %6s%c", &n, lastw, &tail);
			if (k < 1 || k > 2 || (k == 2 && up(lastw) != "LAST")) { bad("bad syntax: " + q(l)); reply(501); return; }
			bleft = n; blast = k == 2; bbuf.clear(); st = BDAT; if (!n) raw();
		} else { if (c == "AUTH" && authStart(l)) return; reply(502); }
	}
	virtual bool authStart(const str&) { return false; }
	virtual void authLine(const str&) {}
};

} // namespace vh
#endif
