// A conforming IMAP4rev1 server over a tree of mailboxes (with UIDPLUS, CONDSTORE, SPECIAL-USE as options), and messages whose structure is known.
#ifndef VIMAP_HPP
#define VIMAP_HPP
#include "vnet.hpp"
#include "vmaildir.hpp"
namespace vh {
struct NS { bool nil = true; str v; NS() {} NS(const str& s) : nil(false), v(s) {} };
struct IAddr { NS name, box, host; };
struct IEnv { NS date, subject, id, reply; std::vector<IAddr> from, sender, replyTo, to, cc, bcc; };
struct IPart {
	bool multi = false, msg = false; str type, sub, enc = "7bit", disp, mime, body, decoded; std::vector<std::pair<str, str>> params; NS id, desc; std::vector<IPart> kids; std::shared_ptr<IEnv> env; // env, kids[0]: of the enclosed message
	str name() const { for (auto& p : params) if (lower(p.first) == "name") return p.second; return ""; }
};
struct IMsg {
	unsigned long uid = 0, modseq = 1; std::set<str> flags; str header, date; IPart root; IEnv env; std::vector<std::pair<str, str>> fields; // header: without the empty line
	str raw() const { return header + "\r\n" + root.body; }
	std::vector<vmime::datetime> sent;
};
struct IBox { Path path; unsigned long validity = 1, next = 1, modseq = 1; bool noselect = false; str special; std::vector<std::shared_ptr<IMsg>> msgs; };
struct IWorld { // what all sessions share
	std::map<Path, std::shared_ptr<IBox>> boxes; char sep = '/'; unsigned long validity = 100; std::map<str, std::shared_ptr<IMsg>> known;
	bool uidplus = true, condstore = false, specialUse = true, children = true, saslIr = true, existsAfter = false; int caps = 0; str user = "user", pass = "secret"; bool eager = false; int greeting = 0; std::vector<str> sasl;
	std::shared_ptr<IBox> make(const Path& p) { for (size_t i = 1; i <= p.size(); ++i) { Path k(p.begin(), p.begin() + i); if (!boxes.count(k)) { auto b = std::make_shared<IBox>(); b->path = k; b->validity = ++validity; b->next = 1 + validity % 7 * 100; b->noselect = i < p.size(); boxes[k] = b; } } auto b = boxes[p]; return b; }
	void touch(IBox& b, IMsg& m) { m.modseq = ++b.modseq; }
	void add(IBox& b, const std::shared_ptr<IMsg>& m) { m->uid = b.next; b.next += 1 + m->uid % 3; b.msgs.push_back(m); touch(b, *m); }
	bool hasKids(const Path& p) const { for (auto& k : boxes) if (k.first.size() > p.size() && std::equal(p.begin(), p.end(), k.first.begin())) return true; return false; }
	str wire(const Path& p) const { str s; for (size_t i = 0; i < p.size(); ++i) { if (i) s += sep; s += mutf7(p[i], str(1, sep)); } return s; }
	bool unwire(const str& w, Path& p) const { p.clear(); str c; for (size_t i = 0; i <= w.size(); ++i) { if (i == w.size() || w[i] == sep) { str u; if (c.empty() || !unmutf7(c, u)) return false; p.push_back(u); c.clear(); } else c += w[i]; } if (p.size() && lower(p[0]) == "inbox") p[0] = "INBOX"; return true; }
};
inline str upperc(str s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
class ImapServer : public LineServer {
public:
	ImapServer(IWorld& w, uint64_t seed) : W(w), rng(seed) {}
	IWorld& W; Rng rng; std::shared_ptr<IBox> sel; bool ro = false, authed = false, loggedOut = false, condOn = false; std::vector<std::shared_ptr<IMsg>> view; std::map<IMsg*, std::set<str>> told; std::vector<str> events; std::vector<str> commands; std::map<str, int> seen;
	std::map<str, int> refuseOnce; unsigned refused = 0; str lastErr; std::map<str, std::vector<unsigned long>> searchAnswer; str lastSearch; std::function<bool(ImapServer&, const str&, const str&)> hook; std::vector<std::pair<str, std::set<str>>> appended; str authLineText; str saslMech; bool inAuth = false;
	std::vector<str> stores; std::set<unsigned long> lastSet;
	// ------------------------------------------------------------ output
	str rc(const str& s) { int m = (int)rng.below(5); if (m == 0) return lower(s); return s; }
	str lit(const str& s) { return "{" + std::to_string(s.size()) + "}\r\n" + s; }
	str st(const str& s) { bool can = s.size() < 1000; for (unsigned char c : s) if (c == '\r' || c == '\n' || c > 127 || c == 0) can = false; if (can && !rng.chance(1, 5)) { str o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; } return lit(s); }
	str ns(const NS& n) { return n.nil ? rc("NIL") : st(n.v); }
	str mbox(const Path& p) { str w = W.wire(p); bool atom = !w.empty(); for (unsigned char c : w) if (c <= 32 || c >= 127 || strchr("(){%*\"\\]", c)) atom = false; return atom && rng.coin() ? w : st(w); }
	str addrs(const std::vector<IAddr>& l) { if (l.empty()) return rc("NIL"); str o = "("; for (auto& a : l) o += "(" + ns(a.name) + " NIL " + ns(a.box) + " " + ns(a.host) + ")"; return o + ")"; }
	str envelope(const IEnv& e) { return "(" + ns(e.date) + " " + ns(e.subject) + " " + addrs(e.from) + " " + addrs(e.sender) + " " + addrs(e.replyTo) + " " + addrs(e.to) + " " + addrs(e.cc) + " " + addrs(e.bcc) + " " + ns(e.reply) + " " + ns(e.id) + ")"; }
	str params(const std::vector<std::pair<str, str>>& p) { if (p.empty()) return rc("NIL"); str o; for (auto& x : p) o += (o.empty() ? "(" : " ") + st(x.first) + " " + st(x.second); return o + ")"; }
	static size_t lines(const str& s) { size_t n = 0; for (char c : s) n += c == '\n'; return n; }
	str structure(const IPart& p, bool ext) {
		str o = "("; str dsp = p.disp.empty() ? rc("NIL") : "(" + st(p.disp) + " " + (rng.coin() ? rc("NIL") : str("(\"FILENAME\" \"f.bin\")")) + ")";
		auto q2 = [&](const str& s) { return "\"" + (rng.chance(1, 3) ? upperc(s) : s) + "\""; };
		if (p.multi) { for (auto& k : p.kids) o += structure(k, ext); o += " " + q2(p.sub); if (ext) { o += " " + params(p.params); if (rng.coin()) { o += " " + dsp; if (rng.coin()) { o += " " + rng.pickc({"NIL", "\"en\"", "(\"en\" \"fr\")"}); if (rng.coin()) o += " NIL"; } } } return o + ")"; }
		o += q2(p.type) + " " + q2(p.sub) + " " + params(p.params) + " " + ns(p.id) + " " + ns(p.desc) + " " + q2(p.enc) + " " + std::to_string(p.body.size());
		if (p.msg) o += " " + envelope(*p.env) + " " + structure(p.kids[0], ext) + " " + std::to_string(lines(p.body));
		else if (p.type == "text") o += " " + std::to_string(lines(p.body));
		if (ext) { o += " " + rng.pickc({"NIL", "\"Q2hlY2sgSW50ZWdyaXR5IQ==\""}); o += " " + dsp; if (rng.coin()) { o += " " + rng.pickc({"NIL", "\"en\"", "(\"en\" \"fr\")"}); if (rng.coin()) { o += " NIL"; if (rng.chance(1, 4)) o += " (1 NIL (\"x\"))"; } } }
		return o + ")";
	}
	str flagsOf(const std::set<str>& f) { std::vector<str> v(f.begin(), f.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]); str o; for (auto& x : v) o += (o.empty() ? "" : " ") + (x[0] == '\\' ? rc(x) : x); return "(" + o + ")"; }
	// ------------------------------------------------------------ changes are announced
	void announceFlags(size_t i, bool uid = false) { auto& m = view[i]; str s = rc("FLAGS") + " " + flagsOf(m->flags); if (condOn) s = rng.coin() ? s + " MODSEQ (" + std::to_string(m->modseq) + ")" : "MODSEQ (" + std::to_string(m->modseq) + ") " + s; if (uid) s = "UID " + std::to_string(m->uid) + " " + s; told[m.get()] = m->flags; say("* " + std::to_string(i + 1) + " " + rc("FETCH") + " (" + s + ")\r\n"); events.push_back("C" + std::to_string(i + 1)); }
	void announceNew() { size_t old = view.size(); std::set<IMsg*> in; for (auto& m : view) in.insert(m.get()); for (auto& m : sel->msgs) if (!in.count(m.get())) { view.push_back(m); told[m.get()] = m->flags; } if (view.size() != old) { say("* " + std::to_string(view.size()) + " " + rc("EXISTS") + "\r\n"); if (rng.coin()) say("* " + std::to_string(view.size() - old) + " RECENT\r\n"); for (size_t i = old; i < view.size(); ++i) events.push_back("A" + std::to_string(i + 1)); } }
	void announceGone() {
		std::set<IMsg*> now; for (auto& m : sel->msgs) now.insert(m.get()); std::vector<size_t> gone; bool up = rng.coin(), any = false;
		for (bool more = true; more;) { more = false; for (size_t k = 0; k < view.size(); ++k) { size_t i = up ? k : view.size() - 1 - k; if (!now.count(view[i].get())) { told.erase(view[i].get()); view.erase(view.begin() + (long)i); say("* " + std::to_string(i + 1) + " " + rc("EXPUNGE") + "\r\n"); events.push_back("R" + std::to_string(i + 1)); more = any = true; break; } } }
		if (any && W.existsAfter) say("* " + std::to_string(view.size()) + " EXISTS\r\n");
	}
	void announceChanges() { std::set<IMsg*> now; for (auto& m : sel->msgs) now.insert(m.get()); for (size_t i = 0; i < view.size(); ++i) if (now.count(view[i].get()) && told[view[i].get()] != view[i]->flags) announceFlags(i, condOn && rng.chance(1, 3)); }
	void sync(bool expunge, bool always = false) { if (!sel || !(always || W.eager || rng.chance(1, 2))) return; int o = (int)rng.below(3); if (o == 0) announceChanges(); if (rng.coin()) { announceNew(); if (expunge) announceGone(); } else { if (expunge) announceGone(); announceNew(); } if (o == 1) announceChanges(); }
	// ------------------------------------------------------------ input
	struct Syntax { str why; };
	str L; size_t P = 0; str tag;
	bool more() const { return P < L.size(); }
	void expect(const str& s) { if (L.compare(P, s.size(), s) != 0) throw Syntax{"expected " + q(s) + " at " + q(L.substr(P))}; P += s.size(); }
	bool opt(const str& s) { if (L.compare(P, s.size(), s) != 0) return false; P += s.size(); return true; }
	void end() { if (more()) throw Syntax{"unexpected " + q(L.substr(P))}; }
	static bool atomChar(unsigned char c) { return c > 32 && c < 127 && !strchr("(){%*\"\\]", c); }
	str atom(bool bracket = false) { str s; while (more() && (atomChar((unsigned char)L[P]) || (bracket && L[P] == ']'))) s += L[P++]; if (s.empty()) throw Syntax{"atom expected at " + q(L.substr(P))}; return s; }
	str quoted() { expect("\""); str s; for (;;) { if (!more()) throw Syntax{"unterminated quoted string"}; char c = L[P++]; if (c == '"') return s; if (c == '\\') { if (!more() || (L[P] != '"' && L[P] != '\\')) throw Syntax{"bad escape"}; c = L[P++]; } else if (c == '\r' || c == '\n' || !c) throw Syntax{"line break in quoted string"}; s += c; } }
	str astring(bool list = false) { if (more() && L[P] == '"') return quoted(); str s; while (more() && (atomChar((unsigned char)L[P]) || L[P] == ']' || (list && (L[P] == '%' || L[P] == '*')))) s += L[P++]; if (s.empty()) throw Syntax{"astring expected at " + q(L.substr(P))}; return s; }
	unsigned long number(bool nz = false) { size_t b = P; while (more() && isdigit((unsigned char)L[P])) ++P; if (b == P || P - b > 20 || (nz && L[b] == '0')) throw Syntax{"number expected at " + q(L.substr(b))}; return strtoul(L.c_str() + b, 0, 10); }
	Path mailbox() { str s = astring(); if (s.size() > 1 && s.back() == W.sep) s.pop_back(); Path p; if (!W.unwire(s, p)) throw Syntax{"invalid mailbox name " + q(s)}; return p; }
	std::set<size_t> seqset(bool uid, str* canon = nullptr) { // indexes in the view
		std::set<size_t> out; std::set<unsigned long> vals; size_t b = P;
		unsigned long star = uid ? (view.empty() ? 0 : view.back()->uid) : view.size();
		do { auto one = [&]() -> unsigned long { if (opt("*")) return star; unsigned long n = number(true); if (n > 4294967295ul) throw Syntax{"number of more than 32 bits"}; return n; }; unsigned long a = one(), e = a; if (opt(":")) e = one(); if (a > e) std::swap(a, e);
			for (size_t i = 0; i < view.size(); ++i) { unsigned long n = uid ? view[i]->uid : i + 1; if (n >= a && n <= e) out.insert(i); }
			if (!uid && e > view.size()) throw Syntax{"message number " + std::to_string(e) + " of " + std::to_string(view.size())};
		} while (opt(","));
		if (canon) *canon = L.substr(b, P - b);
		return out;
	}
	std::set<str> flagList() { expect("("); std::set<str> f; if (!opt(")")) { do { str s; if (opt("\\")) { str n = atom(); static const std::set<str> ok = {"answered", "flagged", "deleted", "seen", "draft"}; if (!ok.count(lower(n))) throw Syntax{"flag \\" + n}; s = "\\" + str(1, (char)toupper(n[0])) + lower(n.substr(1)); } else s = atom(); f.insert(s); } while (opt(" ")); expect(")"); } return f; }
	str dateTime() { size_t b = P; expect("\""); auto dig = [&](int n) { for (int i = 0; i < n; ++i) { if (!more() || !isdigit((unsigned char)L[P])) throw Syntax{"date-time " + q(L.substr(b))}; ++P; } }; if (!opt(" ")) dig(2); else dig(1); expect("-"); str mo = L.substr(P, 3); if (!strstr("Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec", mo.c_str()) || mo.size() != 3) throw Syntax{"month"}; P += 3; expect("-"); dig(4); expect(" "); dig(2); expect(":"); dig(2); expect(":"); dig(2); expect(" "); if (!opt("+")) expect("-"); dig(4); expect("\""); return L.substr(b, P - b); }
	str dateText() { bool qd = opt("\""); size_t b = P; unsigned long d = number(); expect("-"); str mo = L.substr(P, 3); static const str ms = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec"; if (mo.size() != 3 || ms.find(mo) == str::npos || d < 1 || d > 31) throw Syntax{"date"}; P += 3; expect("-"); size_t y = P; number(); if (P - y != 4) throw Syntax{"year"}; str s = L.substr(b, P - b); if (qd) expect("\""); return s; }
	str searchKey() {
		if (opt("(")) { std::vector<str> ks; do ks.push_back(searchKey()); while (opt(" ")); expect(")"); if (ks.size() == 1) return ks[0]; str s; for (auto& k : ks) s += (s.empty() ? "" : " & ") + k; return "(" + s + ")"; }
		if (more() && (isdigit((unsigned char)L[P]) || L[P] == '*')) { str c; std::set<size_t> s = seqset(false, &c); str o; for (auto i : s) o += std::to_string(i + 1) + ","; return "#" + o; }
		str k = upperc(atom());
		static const std::set<str> plain = {"ALL", "ANSWERED", "DELETED", "DRAFT", "FLAGGED", "NEW", "OLD", "RECENT", "SEEN", "UNANSWERED", "UNDELETED", "UNDRAFT", "UNFLAGGED", "UNSEEN"}, strs = {"BCC", "BODY", "CC", "FROM", "SUBJECT", "TEXT", "TO"}, dates = {"BEFORE", "ON", "SINCE", "SENTBEFORE", "SENTON", "SENTSINCE"};
		if (plain.count(k)) return k;
		expect(" ");
		if (strs.count(k)) return k + " " + q(astring());
		if (dates.count(k)) return k + " " + dateText();
		if (k == "KEYWORD" || k == "UNKEYWORD") return k + " " + atom();
		if (k == "LARGER" || k == "SMALLER") { unsigned long n = number(); return k + " " + std::to_string(n); }
		if (k == "HEADER") { str f = astring(); expect(" "); return k + " " + f + " " + q(astring()); }
		if (k == "NOT") return "!" + searchKey();
		if (k == "OR") { str a = searchKey(); expect(" "); return "(" + a + " | " + searchKey() + ")"; }
		if (k == "UID") { std::set<size_t> s = seqset(true); str o; for (auto i : s) o += std::to_string(view[i]->uid) + ","; return "U" + o; }
		throw Syntax{"search key " + k};
	}
	// ------------------------------------------------------------ commands
	str code(const str& c) { return c.empty() ? "" : "[" + c + "] "; }
	void ok(const str& c = "", const str& t = "done") { say(tag + " " + rc("OK") + " " + code(c) + t + "\r\n"); }
	void no(const str& c = "") { ++refused; lastErr = "no way " + rng.from("abcdef", 5); say(tag + " " + rc("NO") + " " + code(c) + lastErr + "\r\n"); }
	bool condSelect = false; unsigned notPeeked = 0;   // last SELECT asked for CONDSTORE; FETCH commands that mark messages as read
	str capText() { str s = "IMAP4rev1"; if (W.uidplus) s += " UIDPLUS"; if (W.condstore && authed) s += " CONDSTORE"; if (W.specialUse) s += " SPECIAL-USE CREATE-SPECIAL-USE"; if (W.children) s += " CHILDREN"; if (W.saslIr) s += " SASL-IR"; for (auto& m : W.sasl) s += " AUTH=" + m; return s; }
	void connected() { if (W.greeting == 2) { ++refused; say("* BYE busy\r\n"); closed = true; return; } if (W.greeting == 1) authed = true; say(str("* ") + (authed ? "PREAUTH" : "OK") + " " + (W.caps & 1 ? "[CAPABILITY " + capText() + "] " : str()) + "ready\r\n"); }
	size_t need = 0; bool literal = false; str lineSoFar;
	bool wantRaw() { return literal; }
	bool raw() { if (in.size() < need) return false; str data = in.substr(0, need); in.erase(0, need); literal = false; pendingLiteral = data; return true; }
	str pendingLiteral; bool awaitingRest = false; Path appendBox; std::set<str> appendFlags; str appendDate; size_t maxLine = 0;
	void line(const str& l) {
		commands.push_back(l); maxLine = std::max(maxLine, l.size());
		if (awaitingRest) { awaitingRest = false; if (!l.empty()) bad("data after the literal: " + q(l)); finishAppend(); return; }
		if (inAuth) { inAuth = false; finishAuth(l); return; }
		if (pending()) bad("command " + q(l) + " sent before the previous reply was read");
		L = l; P = 0;
		try {
			tag = atom(); if (tag.find('+') != str::npos) throw Syntax{"tag"}; if (!tags.insert(tag).second) bad("tag " + tag + " used again"); expect(" "); str v = upperc(atom()); bool uid = v == "UID"; if (uid) { expect(" "); v = upperc(atom()); if (v != "FETCH" && v != "STORE" && v != "COPY" && v != "SEARCH") throw Syntax{"UID " + v}; }
			command(v, uid);
		} catch (const Syntax& s) { bad("invalid command " + q(l) + ": " + s.why); ++refused; say((tag.empty() ? str("*") : tag) + " BAD syntax\r\n"); }
	}
	std::set<str> tags; static std::set<str>& mut(std::set<str>& s) { return s; }
	virtual void finishAuth(const str& l) { authLineText = l; str d = b64dec(l); if (l != "*" && saslMech == "PLAIN" && d == str(1, '\0') + W.user + str(1, '\0') + W.pass) { authed = true; if (W.caps & 2) say("* CAPABILITY " + capText() + "\r\n"); ok(); } else no(); }
	void command(const str& v, bool uid) {
		int k = ++seen[v]; auto rf = refuseOnce.find(v); bool refuse = rf != refuseOnce.end() && rf->second == k;
		if (hook && hook(*this, v, L)) return;
		if (v == "CAPABILITY") { end(); say("* CAPABILITY " + capText() + "\r\n"); ok(); return; }
		if (v == "NOOP") { end(); if (refuse) { no(); return; } sync(true, true); ok(); return; }
		if (v == "LOGOUT") { end(); loggedOut = true; say("* BYE see you\r\n"); ok(); closed = true; return; }
		if (!authed) {
			if (v == "LOGIN") { expect(" "); str u = astring(); expect(" "); str p = astring(); end(); if (refuse || u != W.user || p != W.pass) { no(); return; } authed = true; if (W.caps & 2) say("* CAPABILITY " + capText() + "\r\n"); ok(W.caps & 4 ? "CAPABILITY " + capText() : ""); return; }
			if (v == "AUTHENTICATE") { expect(" "); saslMech = upperc(atom()); bool have = false; for (auto& m : W.sasl) have = have || m == saslMech; if (!have || refuse) { no(); return; } if (opt(" ")) { str a = L.substr(P); if (!W.saslIr) throw Syntax{"initial response without SASL-IR"}; finishAuth(a == "=" ? "" : a); return; } inAuth = true; say("+ \r\n"); return; }
			bad("command before authentication: " + q(L)); no(); return;
		}
		if (v == "LIST") { expect(" "); str ref = astring(); expect(" "); str pat = astring(true); end(); if (refuse) { no(); return; } list(ref, pat); sync(true); ok(); return; }
		if (v == "SELECT" || v == "EXAMINE") {
			expect(" "); Path p = mailbox(); bool cs = false; if (opt(" (")) { str a = atom(); if (upperc(a) != "CONDSTORE" || !W.condstore) throw Syntax{"SELECT parameter"}; cs = true; expect(")"); } condSelect = cs; end(); sel.reset(); view.clear(); told.clear(); events.clear();
			auto it = W.boxes.find(p); if (it == W.boxes.end() || it->second->noselect || refuse) { no(); return; }
			sel = it->second; ro = v == "EXAMINE" || readOnlyBoxes.count(p); condOn = cs; view = sel->msgs; for (auto& m : view) told[m.get()] = m->flags;
			std::vector<str> o = {"* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft $X)", "* " + std::to_string(view.size()) + " EXISTS", "* 0 RECENT", "* OK [UIDVALIDITY " + std::to_string(sel->validity) + "] ok", "* OK [UIDNEXT " + std::to_string(sel->next) + "] ok", "* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] ok"};
			if (W.condstore) o.push_back("* OK [HIGHESTMODSEQ " + std::to_string(sel->modseq) + "] ok"); for (size_t i = 0; i < view.size(); ++i) if (!view[i]->flags.count("\\Seen")) { o.push_back("* OK [UNSEEN " + std::to_string(i + 1) + "] first"); break; }
			for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[rng.below(i)]); for (auto& x : o) say(x + "\r\n"); ok(ro ? "READ-ONLY" : codeRW ? "READ-WRITE" : ""); return;
		}
		if (v == "CREATE") { expect(" "); size_t b = P; str w = astring(); bool asParent = w.size() > 1 && w.back() == W.sep; P = b; Path p = mailbox(); str use; if (opt(" (USE (")) { expect("\\"); use = "\\" + atom(); expect("))"); if (!W.specialUse) throw Syntax{"USE"}; } end(); if (refuse || (W.boxes.count(p) && !W.boxes[p]->noselect)) { no(); return; } auto bx = W.make(p); bx->special = use; bx->noselect = false; (void)asParent; ok(); return; }
		if (v == "DELETE") { expect(" "); Path p = mailbox(); end(); if (refuse || !W.boxes.count(p) || p == Path{"INBOX"}) { no(); return; } if (W.hasKids(p)) { W.boxes[p]->noselect = true; W.boxes[p]->msgs.clear(); } else W.boxes.erase(p); ok(); return; }
		if (v == "RENAME") { expect(" "); Path a = mailbox(); expect(" "); Path b = mailbox(); end(); if (refuse || !W.boxes.count(a) || W.boxes.count(b) || a == Path{"INBOX"}) { no(); return; } std::map<Path, std::shared_ptr<IBox>> nb; for (auto& x : W.boxes) { if (x.first.size() >= a.size() && std::equal(a.begin(), a.end(), x.first.begin())) { Path n = b; n.insert(n.end(), x.first.begin() + (long)a.size(), x.first.end()); x.second->path = n; nb[n] = x.second; } else nb[x.first] = x.second; } W.boxes.swap(nb); if (b.size() > 1) { Path par(b.begin(), b.end() - 1); W.make(par); } ok(); return; }
		if (v == "STATUS") {
			expect(" "); Path p = mailbox(); expect(" ("); std::vector<str> a; do a.push_back(upperc(atom())); while (opt(" ")); expect(")"); end(); auto it = W.boxes.find(p); if (refuse || it == W.boxes.end() || it->second->noselect) { no(); return; } auto& b = *it->second; str o; size_t un = 0; for (auto& m : b.msgs) un += !m->flags.count("\\Seen");
			bool mine = sel && sel->path == p; if (mine && statusFresh) sync(true, true);
			for (auto& x : a) { unsigned long n = x == "MESSAGES" ? b.msgs.size() : x == "UNSEEN" ? un : x == "UIDNEXT" ? b.next : x == "UIDVALIDITY" ? b.validity : x == "RECENT" ? 0 : x == "HIGHESTMODSEQ" && W.condstore ? b.modseq : ~0ul; if (n == ~0ul) throw Syntax{"STATUS " + x}; o += (o.empty() ? "" : " ") + rc(x) + " " + std::to_string(n); }
			say("* STATUS " + mbox(p) + " (" + o + ")\r\n"); sync(true); ok(); return;
		}
		if (v == "APPEND") {
			expect(" "); appendBox = mailbox(); appendFlags.clear(); appendDate.clear(); if (opt(" (")) { --P; appendFlags = flagList(); } if (L.compare(P, 2, " \"") == 0) { expect(" "); appendDate = dateTime(); } expect(" {"); need = number(); expect("}"); end();
			if (refuse || !W.boxes.count(appendBox)) { no("TRYCREATE"); return; } literal = true; awaitingRest = true; if (rng.coin()) sync(true); say("+ go\r\n"); return;
		}
		if (!sel) { bad("no mailbox is selected: " + q(L)); no(); return; }
		if (v == "CLOSE") { end(); if (refuse) { no(); return; } if (!ro) doExpunge(); sel.reset(); view.clear(); ok(); return; }
		if (v == "EXPUNGE") { end(); if (refuse || ro) { no(); return; } doExpunge(); if (rng.coin()) announceNew(); announceGone(); sync(true); ok(condOn ? "HIGHESTMODSEQ " + std::to_string(sel->modseq) : ""); return; }
		if (v == "SEARCH") { expect(" "); str cs; if (opt("CHARSET ")) { cs = "CHARSET " + upperc(astring()) + " "; expect(" "); } std::vector<str> ks; do ks.push_back(searchKey()); while (opt(" ")); end(); lastSearch = cs; for (auto& x : ks) lastSearch += x + ";"; if (refuse) { no(); return; } str o; answer.clear(); if (!answerUidFrom) sync(uid); if (answerUidFrom) { for (size_t i = 0; i < view.size(); ++i) if (lastSearch == "U" + uidsFrom(i) + ";") { for (size_t j = i; j < view.size(); ++j) answer.push_back(j + 1); break; } } else for (size_t i = 0; i < view.size(); ++i) if (rng.chance(1, 3)) answer.push_back(uid ? view[i]->uid : i + 1); for (auto n : answer) o += " " + std::to_string(n); say("* SEARCH" + o + "\r\n"); if (answerUidFrom) sync(uid); ok(); return; }
		if (v == "COPY") { expect(" "); auto s = seqset(uid); expect(" "); Path p = mailbox(); end(); auto it = W.boxes.find(p); if (refuse || it == W.boxes.end() || it->second->noselect) { no(it == W.boxes.end() ? "TRYCREATE" : ""); return; } str a, b; lastSet.clear(); for (auto i : s) { auto m = std::make_shared<IMsg>(*view[i]); a += (a.empty() ? "" : ",") + std::to_string(view[i]->uid); W.add(*it->second, m); b += (b.empty() ? "" : ",") + std::to_string(m->uid); lastSet.insert(m->uid); } sync(uid); ok(W.uidplus && !s.empty() ? "COPYUID " + std::to_string(it->second->validity) + " " + a + " " + b : ""); return; }
		if (v == "STORE") {
			expect(" "); auto s = seqset(uid); expect(" "); str m = upperc(atom()); bool silent = false; (void)silent; expect(" "); auto f = flagList(); end(); if (m != "FLAGS" && m != "+FLAGS" && m != "-FLAGS") throw Syntax{"STORE " + m}; if (refuse || ro) { no(); return; }
			for (auto i : s) { auto& x = *view[i]; std::set<str> n = x.flags; if (m == "FLAGS") n = f; else for (auto& y : f) { if (m[0] == '+') n.insert(y); else n.erase(y); } if (n != x.flags) { x.flags = n; W.touch(*sel, x); } announceFlags(i, uid); } sync(uid); ok(); return;
		}
		if (v == "FETCH") {
			expect(" "); auto s = seqset(uid); expect(" "); std::vector<std::function<str(IMsg&)>> items; std::vector<str> names; bool seenSet = false; bool list = opt("(");
			do { size_t b = P; str n; while (more() && (isalnum((unsigned char)L[P]) || L[P] == '.')) n += (char)toupper((unsigned char)L[P++]); bool wantFlags = false;
				if (n == "FLAGS") { items.push_back([this](IMsg& m) { told[&m] = m.flags; flagsSent = true; return rc("FLAGS") + " " + flagsOf(m.flags); }); wantFlags = true; }
				else if (n == "UID") items.push_back([this](IMsg& m) { return rc("UID") + " " + std::to_string(m.uid); });
				else if (n == "MODSEQ" && W.condstore) { condOn = true; items.push_back([this](IMsg& m) { return rc("MODSEQ") + " (" + std::to_string(m.modseq) + ")"; }); }
				else if (n == "RFC822.SIZE") items.push_back([this](IMsg& m) { return rc("RFC822.SIZE") + " " + std::to_string(m.raw().size()); });
				else if (n == "RFC822.HEADER") items.push_back([this](IMsg& m) { return rc("RFC822.HEADER") + " " + lit(m.header + "\r\n"); });
				else if (n == "ENVELOPE") items.push_back([this](IMsg& m) { return rc("ENVELOPE") + " " + envelope(m.env); });
				else if (n == "BODYSTRUCTURE") items.push_back([this](IMsg& m) { return rc("BODYSTRUCTURE") + " " + structure(m.root, rng.chance(3, 4)); });
				else if (n == "INTERNALDATE") items.push_back([this](IMsg&) { return "INTERNALDATE \" 1-Jan-2020 00:00:00 +0000\""; });
				else if ((n == "BODY" || n == "BODY.PEEK") && opt("[")) {
					if (n == "BODY") seenSet = true; std::vector<size_t> path; str what; std::vector<str> hf; size_t sb = P;
					while (more() && isdigit((unsigned char)L[P])) { path.push_back(number(true)); if (!opt(".")) break; }
					if (more() && L[P] != ']') { while (more() && (isalpha((unsigned char)L[P]) || L[P] == '.')) what += (char)toupper((unsigned char)L[P++]); if (what == "HEADER.FIELDS") { expect(" ("); do hf.push_back(astring()); while (opt(" ")); expect(")"); } else if (what != "HEADER" && what != "TEXT" && what != "MIME") throw Syntax{"section " + what}; if (what == "MIME" && path.empty()) throw Syntax{"MIME of the message"}; }
					str sec = L.substr(sb, P - sb); expect("]"); bool part = false; unsigned long from = 0, len = 0; if (opt("<")) { part = true; from = number(); expect("."); len = number(true); expect(">"); }
					items.push_back([=](IMsg& m) { NS t = section(m, path, what, hf); if (part && !t.nil) t.v = from >= t.v.size() ? "" : t.v.substr(from, len); return rc("BODY") + "[" + sec + "]" + (part ? "<" + std::to_string(from) + ">" : str()) + " " + (t.nil ? str("NIL") : rng.chance(1, 8) ? st(t.v) : lit(t.v)); });
				} else throw Syntax{"fetch item " + q(L.substr(b))};
				if (wantFlags) seenSet = seenSet; names.push_back(n);
			} while (list && opt(" "));
			if (list) expect(")"); end(); if (refuse) { no(); return; } notPeeked += seenSet;
			bool partial = rng.chance(1, 12) && !s.empty() && false; (void)partial; if (rng.chance(1, 3)) announceChanges();
			std::vector<size_t> ord(s.begin(), s.end()); if (rng.chance(1, 6)) for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[rng.below(i)]);
			for (auto i : ord) { auto& m = *view[i]; std::vector<str> o; flagsSent = false; bool mark = seenSet && !ro && m.flags.insert("\\Seen").second; if (mark) W.touch(*sel, m); for (auto& f : items) o.push_back(f(m)); if (uid && std::find(names.begin(), names.end(), "UID") == names.end()) o.push_back("UID " + std::to_string(m.uid)); if (mark && !flagsSent && rng.coin()) { o.push_back("FLAGS " + flagsOf(m.flags)); told[&m] = m.flags; flagsSent = true; }
				for (size_t k = o.size(); k > 1; --k) if (rng.chance(1, 3)) std::swap(o[k - 1], o[rng.below(k)]);
				if (flagsSent) events.push_back("C" + std::to_string(i + 1));
				if (o.size() > 1 && rng.chance(1, 10) && !uid) { str x = o.back(); o.pop_back(); say("* " + std::to_string(i + 1) + " FETCH (" + x + ")\r\n"); }  // data of one message in two replies
				str l; for (auto& x : o) l += (l.empty() ? "" : " ") + x; say("* " + std::to_string(i + 1) + " " + rc("FETCH") + " (" + l + ")\r\n"); if (rng.chance(1, 10)) announceChanges(); }
			sync(uid); ok(); return;
		}
		bad("unknown command " + q(L)); no();
	}
	bool flagsSent = false, codeRW = true, statusFresh = false, answerUidFrom = false; std::set<Path> readOnlyBoxes; std::vector<unsigned long> answer;
	str uidsFrom(size_t i) { str o; for (; i < view.size(); ++i) o += std::to_string(view[i]->uid) + ","; return o; }
	static const IPart* find(const IMsg& m, const std::vector<size_t>& path) { const IPart* p = &m.root; for (size_t k = 0; k < path.size(); ++k) { if (p->msg) p = &p->kids[0]; if (p->multi) { if (path[k] > p->kids.size()) return nullptr; p = &p->kids[path[k] - 1]; } else if (path[k] != 1) return nullptr; } return p; }
	NS section(IMsg& m, const std::vector<size_t>& path, const str& what, const std::vector<str>& hf) {
		if (path.empty()) { if (what.empty()) return m.raw(); if (what == "HEADER") return m.header + "\r\n"; if (what == "TEXT") return m.root.body; str o; for (auto& f : m.fields) for (auto& h : hf) if (lower(h) == lower(f.first)) { o += f.second; break; } return o + "\r\n"; }
		const IPart* p = find(m, path); if (!p) return NS(); if (what.empty()) return p->body; if (what == "MIME") return p->mime + "\r\n"; return NS();
	}
	void doExpunge() { std::vector<std::shared_ptr<IMsg>> left; for (auto& m : sel->msgs) { bool inView = std::find(view.begin(), view.end(), m) != view.end(); if (!inView || !m->flags.count("\\Deleted")) left.push_back(m); } if (left.size() != sel->msgs.size()) ++sel->modseq; sel->msgs.swap(left); }
	void finishAppend() {
		auto it = W.known.find(pendingLiteral); if (it == W.known.end()) { bad("APPEND of other data: " + q(pendingLiteral.substr(0, 400))); no(); return; }
		auto m = std::make_shared<IMsg>(*it->second); m->flags = appendFlags; m->date = appendDate; auto b = W.boxes[appendBox]; W.add(*b, m); lastSet = {m->uid}; appended.push_back({appendDate, appendFlags});
		if (sel) sync(true, sel == b && rng.coin()); ok(W.uidplus ? "APPENDUID " + std::to_string(b->validity) + " " + std::to_string(m->uid) : "");
	}
	void list(const str& ref, const str& pat) {
		if (pat.empty()) { say("* LIST (\\Noselect) \"" + str(W.sep == '\\' ? "\\" : "") + W.sep + "\" \"\"\r\n"); return; }
		str p = ref + pat; std::vector<Path> hits; for (auto& b : W.boxes) if (match(p.c_str(), W.wire(b.first).c_str())) hits.push_back(b.first);
		for (size_t i = hits.size(); i > 1; --i) std::swap(hits[i - 1], hits[rng.below(i)]);
		for (auto& h : hits) { auto& b = *W.boxes[h]; std::vector<str> f; if (b.noselect) f.push_back("\\Noselect"); if (W.children) f.push_back(W.hasKids(h) ? "\\HasChildren" : "\\HasNoChildren"); if (W.specialUse && !b.special.empty()) f.push_back(b.special); if (rng.chance(1, 4)) f.push_back("\\Marked"); if (rng.chance(1, 6)) f.push_back("\\X-Any"); str o; for (auto& x : f) o += (o.empty() ? "" : " ") + rc(x); say("* " + rc("LIST") + " (" + o + ") \"" + str(W.sep == '\\' ? "\\" : "") + W.sep + "\" " + mbox(h) + "\r\n"); }
	}
	bool match(const char* p, const char* s) const { for (; *p; ++p, ++s) { if (*p == '*') { for (const char* t = s;; ++t) { if (match(p + 1, t)) return true; if (!*t) return false; } } if (*p == '%') { for (const char* t = s;; ++t) { if (match(p + 1, t)) return true; if (!*t || *t == W.sep) return false; } } if (*p != *s) return false; } return !*s; }
};
// ---------------------------------------------------------------- messages
inline str b64lines(const str& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; size_t n = std::min<size_t>(3, s.size() - i); for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0); for (size_t k = 0; k < 4; ++k) o += k <= n ? A[v >> (18 - 6 * k) & 63] : '='; if (i / 3 % 18 == 17) o += "\r\n"; } return o; }
inline IPart genIPart(Rng& r, int depth, std::vector<std::pair<str, str>>* top, bool noMsg = false);
inline void genIMsgHeader(Rng& r, std::vector<std::pair<str, str>>& f, IEnv& e) {
	auto field = [&](const str& n, const str& v) { f.push_back({n, n + ": " + v + "\r\n"}); };
	auto addr = [&](str& text) { IAddr a; a.box = str(r.pickc({"joe", "mary.smith", "j.q-public", "x+y", "a"})); a.host = str(r.pickc({"example.test", "mail.example.org", "h"})); int k = (int)r.below(4); if (k == 0) text += a.box.v + "@" + a.host.v; else { str n = r.pickc({"Joe", "Mary Smith", "Bob", "=?utf-8?Q?J=C3=B6rg?=", "=?iso-8859-1?Q?Andr=E9?="}); a.name = n; text += n + " <" + a.box.v + "@" + a.host.v + ">"; } return a; };
	auto addrs = [&](const str& n, std::vector<IAddr>& l, size_t max, unsigned chance) { if (!r.chance(chance, 4)) return; str t; size_t k = 1 + r.below(max); for (size_t i = 0; i < k; ++i) { if (i) t += ", "; if (max > 1 && r.chance(1, 8)) { IAddr g; g.box = str("friends"); l.push_back(g); t += "friends: "; size_t m = r.below(3); for (size_t j = 0; j < m; ++j) { if (j) t += ", "; l.push_back(addr(t)); } t += ";"; l.push_back(IAddr()); } else l.push_back(addr(t)); } field(n, t); };
	if (r.chance(4, 5)) { char b[64]; static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(b, sizeof b, "%d %s %d %02d:%02d:%02d %c%02d%02d", 1 + (int)r.below(28), mon[r.below(12)], 1990 + (int)r.below(60), (int)r.below(24), (int)r.below(60), (int)r.below(60), r.coin() ? '+' : '-', (int)r.below(12), (int)r.below(60)); e.date = str(b); field("Date", b); }
	if (r.chance(4, 5)) { str s = r.pickc({"Hello", "", "Re: [x] \"quoted\" \\ (a)", "=?utf-8?B?w6nDqA==?=", "=?utf-8?Q?caf=C3=A9?= time", "NIL", "{3}"}); e.subject = s; field("Subject", s); }
	addrs("From", e.from, 1, 4); e.sender = e.replyTo = e.from; { std::vector<IAddr> s; addrs("Sender", s, 1, 1); if (!s.empty()) e.sender = s; s.clear(); addrs("Reply-To", s, 2, 1); if (!s.empty()) e.replyTo = s; }
	addrs("To", e.to, 3, 3); addrs("Cc", e.cc, 3, 2); addrs("Bcc", e.bcc, 2, 1);
	if (r.chance(3, 4)) { str s = "<" + r.from("abcdef0123", 8) + "@" + r.pickc({"example.test", "h"}) + ">"; e.id = s; field("Message-ID", s); }
	if (r.chance(1, 3)) { str s; for (size_t n = 1 + r.below(2); n-- > 0;) s += (s.empty() ? "<" : " <") + r.from("abcdef0123", 8) + "@x.test>"; e.reply = s; field("In-Reply-To", s); }
	if (r.chance(1, 3)) field("Importance", r.pickc({"high", "low", "normal"})); if (r.chance(1, 4)) field("X-Priority", std::to_string(1 + r.below(5))); for (size_t n = r.below(3); n-- > 0;) field("X-Custom", r.pickc({"a", "b c", "x: y", "folded\r\n text"}));
	for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
	field("MIME-Version", "1.0");
}
inline void genIWhole(Rng& r, int depth, std::vector<std::pair<str, str>>& f, IEnv& e, IPart& root, str& header) { genIMsgHeader(r, f, e); root = genIPart(r, depth, &f); for (auto& x : f) header += x.second; }
inline IPart genIPart(Rng& r, int depth, std::vector<std::pair<str, str>>* top, bool noMsg) {
	IPart p; std::vector<std::pair<str, str>> f; auto field = [&](const str& n, const str& v) { f.push_back({n, n + ": " + v + "\r\n"}); };
	auto ctype = [&]() { str t = p.type + "/" + p.sub; for (auto& x : p.params) t += "; " + x.first + "=\"" + x.second + "\""; field("Content-Type", t); };
	int kind = depth > 0 ? (int)r.below(4) : 3;
	if (kind <= (top ? 1 : 0)) {
		p.multi = true; p.type = "multipart"; p.sub = r.pickc({"mixed", "alternative", "related"}); str b = "=_" + r.from("abcdefghijk0123456789", 14); p.params = {{"boundary", b}}; ctype(); size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) { p.kids.push_back(genIPart(r, depth - 1, nullptr)); p.body += "--" + b + "\r\n" + p.kids.back().mime + "\r\n" + p.kids.back().body + "\r\n"; } p.body += "--" + b + "--\r\n";
	} else if (kind == 1 && !top && !noMsg && r.coin()) {
		p.msg = true; p.type = "message"; p.sub = "rfc822"; p.env = std::make_shared<IEnv>(); std::vector<std::pair<str, str>> hf; IPart k; str h; genIWhole(r, depth - 1, hf, *p.env, k, h); p.kids.push_back(k); p.body = p.decoded = h + "\r\n" + k.body; ctype();
	} else {
		static const char* const t[][2] = {{"text", "plain"}, {"text", "html"}, {"application", "octet-stream"}, {"image", "png"}, {"application", "pdf"}}; size_t k = r.below(5); p.type = t[k][0]; p.sub = t[k][1]; if (p.type == "text" && r.coin()) p.params.push_back({"charset", r.pickc({"utf-8", "us-ascii"})}); if (r.chance(1, 3)) p.params.push_back({r.coin() ? "name" : "NAME", r.pickc({"a.txt", "my file.bin", "x"})}); ctype();
		size_t n = r.chance(1, 12) ? r.below(20000) : r.below(200); int e = (int)r.below(4); if (p.type != "text" && e < 2) e = 2; if (p.type == "text" && e == 2 && r.coin()) e = 0;
		switch (e) {
			case 0: { for (size_t i = 0; i < n / 20; ++i) p.body += r.pickc({"line of text", "", ".", "--", "a001 OK done", "* 1 EXISTS", ")", "tail "}) + "\r\n"; p.decoded = p.body; p.enc = r.pickc({"7bit", "8bit"}); break; }
			case 1: { for (size_t i = 0; i < n / 20; ++i) { p.body += "caf=C3=A9 =3D=\r\n soft\r\n"; p.decoded += "caf\xc3\xa9 = soft\r\n"; } p.enc = "quoted-printable"; break; }
			default: p.decoded = r.bytes(n); p.body = b64lines(p.decoded); p.enc = "base64"; break;
		}
		field("Content-Transfer-Encoding", p.enc);
		if (r.chance(1, 4)) { p.disp = r.coin() ? "attachment" : "inline"; field("Content-Disposition", p.disp); } if (r.chance(1, 5)) { p.id = str("<cid@x>"); field("Content-ID", "<cid@x>"); } if (r.chance(1, 5)) { p.desc = str("some thing"); field("Content-Description", "some thing"); }
	}
	for (auto& x : f) p.mime += x.second; if (top) { top->insert(top->end(), f.begin(), f.end()); }
	return p;
}
inline std::shared_ptr<IMsg> genIMsg(Rng& r, IWorld& w) { auto m = std::make_shared<IMsg>(); genIWhole(r, (int)r.below(4), m->fields, m->env, m->root, m->header); for (auto f : {"\\Answered", "\\Flagged", "\\Deleted", "\\Seen", "\\Draft", "$Label"}) if (r.chance(1, 4)) m->flags.insert(f); w.known[m->raw()] = m; return m; }
inline Path genIPath(Rng& r, char sep, size_t max = 3) { Path p; for (size_t n = 1 + r.below(max); n-- > 0;) { str c; if (r.coin()) c = r.pickc({"Sent", "a", "b", "work", "Archive", "x y", "a%", "a*", "\"q\"", "back\\slash", "&", "R&D", "(x)", "{1}", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "[Gmail]", "tab\tx", "NIL", "\xf0\x9f\x98\x80"}); else c = r.from(str("abAB12 -_.~&%*\"(){}/[]\\", 22), 1 + r.below(6)); (void)sep; p.push_back(c); } if (lower(p[0]) == "inbox") p[0] = "ibx"; for (auto& c : p) for (size_t k; (k = c.find("+-")) != str::npos;) c[k] = 'x'; return p; }
}
#endif
