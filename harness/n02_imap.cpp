// N02: an IMAP store driven at random against a conforming server shared with other clients; what the client shows is compared with what the server announced.
#include "vimap.hpp"
#include <vmime/net/imap/imap.hpp>
#include <vmime/net/imap/IMAPSearchAttributes.hpp>
#include "vmsg.hpp"
using namespace vh;
namespace vi = vmime::net::imap;
typedef vn::fetchAttributes FA; typedef vn::message M; typedef vn::folderAttributes A; typedef vi::IMAPSearchTokenFactory T;
typedef std::shared_ptr<IMsg> PMsg;

struct Watch : vn::events::messageChangedListener, vn::events::messageCountListener, vn::events::folderListener {
	std::vector<str> ev, folder;
	void put(const char* k, const std::vector<size_t>& v) { for (size_t n : v) ev.push_back(k + std::to_string(n)); }
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) { put("C", e->getNumbers()); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) { put("A", e->getNumbers()); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) { put("R", e->getNumbers()); }
	void folderCreated(const shared_ptr<vn::events::folderEvent>&) { folder.push_back("created"); }
	void folderRenamed(const shared_ptr<vn::events::folderEvent>&) { folder.push_back("renamed"); }
	void folderDeleted(const shared_ptr<vn::events::folderEvent>&) { folder.push_back("deleted"); }
};
struct Held { shared_ptr<vn::message> m; PMsg real; bool structure = false, flags = false; };
struct Open { shared_ptr<vn::folder> f; std::shared_ptr<IBox> box; std::shared_ptr<ImapServer> sv; std::shared_ptr<Watch> w; bool ro = false, waitForEvents = false; std::vector<Held> held; size_t evPos = 0; };
struct Prog : vmime::utility::progressListener { size_t last = 0, starts = 0, stops = 0; bool bad = false; void start(const size_t) { ++starts; } void progress(const size_t c, const size_t t) { if (c < last || c > t) bad = true; last = c; } void stop(const size_t) { ++stops; } };
static vn::folder::path toP(const Path& p) { vn::folder::path r; for (auto& c : p) r /= vn::folder::path::component(c, vmime::charset("utf-8")); return r; }
static Path ofP(const vn::folder::path& p) { Path r; for (size_t i = 0; i < p.getSize(); ++i) r.push_back(p[i].getConvertedText(vmime::charset("utf-8"))); return r; }
static int vflags(const std::set<str>& f) { int v = 0; for (auto& x : f) v |= x == "\\Answered" ? M::FLAG_REPLIED : x == "\\Flagged" ? M::FLAG_MARKED : x == "\\Deleted" ? M::FLAG_DELETED : x == "\\Seen" ? M::FLAG_SEEN : x == "\\Draft" ? M::FLAG_DRAFT : 0; return v; }
static std::set<str> sflags(int v) { std::set<str> f; if (v & M::FLAG_REPLIED) f.insert("\\Answered"); if (v & M::FLAG_MARKED) f.insert("\\Flagged"); if (v & M::FLAG_DELETED) f.insert("\\Deleted"); if (v & M::FLAG_SEEN) f.insert("\\Seen"); if (v & M::FLAG_DRAFT) f.insert("\\Draft"); return f; }
static int genFl(Rng& r) { int v = 0; for (int b : {M::FLAG_REPLIED, M::FLAG_MARKED, M::FLAG_DELETED, M::FLAG_SEEN, M::FLAG_DRAFT}) if (r.chance(1, 3)) v |= b; return v; }
static str decText(const str& s) { vmime::text t; vmime::text::decodeAndUnfold(s, &t); return t.getConvertedText(vmime::charset("utf-8")); }
static str mboxStr(const vmime::mailbox& m) { return m.getName().getConvertedText(vmime::charset("utf-8")) + " <" + m.getEmail().toString() + ">"; }
static str addrWant(const std::vector<IAddr>& l) { str o; for (auto& a : l) if (!a.host.nil) o += (a.name.nil ? str() : decText(a.name.v)) + " <" + a.box.v + "@" + a.host.v + ">, "; return o; }
static str addrGot(const shared_ptr<const vmime::headerFieldValue>& v) {
	str o;
	if (auto al = std::dynamic_pointer_cast<const vmime::addressList>(v)) { auto ml = al->toMailboxList(); for (size_t i = 0; i < ml->getMailboxCount(); ++i) o += mboxStr(*ml->getMailboxAt(i)) + ", "; }
	else if (auto mb = std::dynamic_pointer_cast<const vmime::mailbox>(v)) { if (!mb->isEmpty()) o += mboxStr(*mb) + ", "; }
	else if (auto ml = std::dynamic_pointer_cast<const vmime::mailboxList>(v)) for (size_t i = 0; i < ml->getMailboxCount(); ++i) o += mboxStr(*ml->getMailboxAt(i)) + ", ";
	return o;
}
static str join(const std::vector<str>& v) { str o; for (auto& x : v) o += x + " "; return o; }

struct Session {
	Ctx& c; Rng& r; IWorld W; Net net; std::vector<std::shared_ptr<ImapServer>> srvs; shared_ptr<vn::store> st; std::vector<Open> open; str log; std::map<str, int> refusals;
	Session(Ctx& c_) : c(c_), r(c_.rng), net(c_.rng.next()) {}
	void note(const str& s) { log += s + "; "; c.note(s + ";"); }
	ImapServer& main() { return *srvs.front(); }
	void protocol() { for (auto& s : srvs) if (!s->badMsg.empty()) fail("protocol", s->badMsg + " after " + log); }
	unsigned refusedTotal() { unsigned n = 0; for (auto& s : srvs) n += s->refused; return n; }
	// ---- an operation: success only if nothing was refused, failure only if something was
	bool op(ImapServer& s, const str& what, const std::function<void()>& f) {
		unsigned before = s.refused;
		try { f(); } catch (const vmime::exceptions::command_error& e) { protocol(); if (s.refused == before) fail("false-failure", what + ": " + excName(e) + " " + q(e.response()) + " although the server refused nothing"); VH_CHECK(str(e.response()).find(s.lastErr) != str::npos, "error-text", what << ": error " << q(e.response()) << ", server said " << s.lastErr); c.count("refusals"); return false; }
		catch (const vmime::exceptions::message_not_found&) { protocol(); for (auto& o : open) if (o.sv.get() == &s) for (auto& h : o.held) if (h.m->isExpunged() && idx(o, h.real) < 0) return false; fail("false-failure", what + ": message_not_found"); } // expunged in the meantime
		protocol(); VH_CHECK(s.refused == before, "false-success", what << " succeeded although the server refused"); return true;
	}
	static int idx(const Open& o, const PMsg& m) { for (size_t i = 0; i < o.sv->view.size(); ++i) if (o.sv->view[i] == m) return (int)i; return -1; }
	void compare(Open& o, const str& what) {
		protocol();
		VH_EQ(o.f->getMessageCount(), o.sv->view.size(), "count", "messages in the open folder after " + what);
		for (auto& h : o.held) {
			int i = idx(o, h.real);
			VH_EQ(h.m->isExpunged(), i < 0, "expunged", "isExpunged() of the message with UID " + std::to_string(h.real->uid) + " after " + what);
			if (i >= 0) VH_EQ(h.m->getNumber(), (size_t)i + 1, "number", "number of the message with UID " + std::to_string(h.real->uid) + " after " + what);
			str u = h.m->getUID(); if (!u.empty()) VH_EQ(u, std::to_string(h.real->uid), "uid", "UID after " + what);
			if (i >= 0) try { int f = h.m->getFlags(); VH_EQ(f, vflags(o.sv->told[h.real.get()]), "flags", "flags of message " + std::to_string(i + 1) + " after " + what); c.count("flags compared"); } catch (const vmime::exceptions::unfetched_object&) { VH_CHECK(!h.flags, "flags", "flags are unfetched after " << what); }
		}
		std::vector<str> want(o.sv->events.begin(), o.sv->events.end()); str a = join(o.w->ev), b = join(want);
		VH_CHECK(a == b, "events", "notifications after " << what << ": " << a << " expected " << b); c.count("events", want.size()); o.w->ev.clear(); o.sv->events.clear();
	}
	void compareAll(const str& what) { for (auto& o : open) compare(o, what); }
	void add(Open& o, const shared_ptr<vn::message>& m, const PMsg& real) { o.held.push_back({m, real}); }
	PMsg byUid(Open& o, const str& uid) { for (auto& m : o.sv->view) if (std::to_string(m->uid) == uid) return m; return nullptr; }
	// ---- other clients
	void others() {
		size_t n = r.below(4); if (r.coin()) n = 0;
		while (n--) {
			std::vector<std::shared_ptr<IBox>> bs; for (auto& b : W.boxes) if (!b.second->noselect) bs.push_back(b.second); if (bs.empty()) return; auto b = !open.empty() && r.chance(2, 3) ? open[r.below(open.size())].box : r.pick(bs);
			switch (r.below(5)) {
				case 0: case 1: { W.add(*b, genIMsg(r, W)); if (r.chance(1, 20)) for (size_t n = 15 + r.below(40); n-- > 0;) { auto m = std::make_shared<IMsg>(*b->msgs[r.below(b->msgs.size())]); W.add(*b, m); } break; }
				case 2: { if (b->msgs.empty()) break; b->msgs.erase(b->msgs.begin() + (long)r.below(b->msgs.size())); ++b->modseq; break; }
				default: { if (b->msgs.empty()) break; auto& m = *r.pick(b->msgs); str f = r.pickc({"\\Seen", "\\Deleted", "\\Flagged", "\\Answered", "\\Draft", "$Work"}); if (!m.flags.insert(f).second) m.flags.erase(f); W.touch(*b, m); break; }
			}
			c.count("changes by other clients");
		}
	}
	// ---- message sets over the current view
	vn::messageSet genSet(Open& o, std::set<PMsg>& want, bool preferUid) {
		auto& v = o.sv->view; size_t N = v.size(); bool uid = preferUid;
		int k = (int)r.below(4); vn::messageSet s = vn::messageSet::empty();
		if (!uid) {
			if (k == 0) { size_t i = 1 + r.below(N); want = {v[i - 1]}; return vn::messageSet::byNumber(i); }
			if (k == 1) { size_t a = 1 + r.below(N), b = r.chance(1, 3) ? (size_t)-1 : a + r.below(N - a + 1); for (size_t i = a; i <= std::min(b, N); ++i) want.insert(v[i - 1]); return vn::messageSet::byNumber(a, b); }
			std::vector<size_t> l; for (size_t i = 1 + r.below(4); i-- > 0;) { size_t x = 1 + r.below(N); if (std::find(l.begin(), l.end(), x) == l.end()) l.push_back(x), want.insert(v[x - 1]); } return vn::messageSet::byNumber(l);
		}
		auto us = [](unsigned long u) { return vn::message::uid(std::to_string(u)); };
		if (k == 0) { auto& m = r.pick(v); want = {m}; return vn::messageSet::byUID(us(m->uid)); }
		if (k == 1) { unsigned long a = r.pick(v)->uid, b = a + r.below(6); for (auto& m : v) if (m->uid >= a && m->uid <= b) want.insert(m); return vn::messageSet::byUID(us(a), us(b)); }
		std::vector<vn::message::uid> l; std::set<unsigned long> in; for (size_t i = 1 + r.below(4); i-- > 0;) { unsigned long u = r.chance(1, 6) ? v.back()->uid + 1000 + r.below(5) : r.pick(v)->uid; if (in.insert(u).second) l.push_back(us(u)); } for (auto& m : v) if (in.count(m->uid)) want.insert(m); return vn::messageSet::byUID(l);
	}
	// ---- values of one message
	void checkEnvelope(const vmime::header& h, const IMsg& m) {
		auto one = [&](const char* n) { return h.hasField(n) ? h.findField(n)->getValue() : shared_ptr<const vmime::headerFieldValue>(); };
		if (!m.env.date.nil) { auto d = std::dynamic_pointer_cast<const vmime::datetime>(one("Date")); VH_CHECK(d && *d == vmime::datetime(m.env.date.v) && d->getZone() == vmime::datetime(m.env.date.v).getZone(), "envelope", "Date"); } else VH_CHECK(!h.hasField("Date"), "envelope", "a date although the message has none");
		if (!m.env.subject.nil) { auto t = std::dynamic_pointer_cast<const vmime::text>(one("Subject")); VH_CHECK(t != nullptr, "envelope", "no subject"); VH_EQ(t->getConvertedText(vmime::charset("utf-8")), decText(m.env.subject.v), "envelope", "Subject"); }
		else if (h.hasField("Subject")) VH_EQ(h.Subject()->getValue<vmime::text>()->getConvertedText(vmime::charset("utf-8")), str(), "envelope", "Subject");
		struct { const char* n; const std::vector<IAddr>& l; bool single; } ad[] = {{"From", m.env.from, true}, {"Sender", m.env.sender, true}, {"Reply-To", m.env.replyTo, false}, {"To", m.env.to, false}, {"Cc", m.env.cc, false}, {"Bcc", m.env.bcc, false}};
		for (auto& x : ad) VH_EQ(h.hasField(x.n) ? addrGot(h.findField(x.n)->getValue()) : str(), addrWant(x.l), "envelope", x.n);
		auto id = std::dynamic_pointer_cast<const vmime::messageId>(one("Message-Id")); VH_EQ(id ? "<" + str(id->getId()) + ">" : str(), m.env.id.v, "envelope", "Message-Id");
		str rep; if (auto s = std::dynamic_pointer_cast<const vmime::messageIdSequence>(one("In-Reply-To"))) for (size_t i = 0; i < s->getMessageIdCount(); ++i) rep += (i ? " <" : "<") + str(s->getMessageIdAt(i)->getId()) + ">"; VH_EQ(rep, m.env.reply.v, "envelope", "In-Reply-To");
	}
	void checkFields(const vmime::header& h, const IMsg& m, const str& name) {
		std::vector<str> want, got; for (auto& f : m.fields) if (lower(f.first) == lower(name)) { vmime::header t; t.parse(f.second); want.push_back(uHeader(t)); }
		for (auto& f : h.getFieldList()) if (lower(f->getName()) == lower(name)) { vmime::header t; t.appendField(vmime::clone(f)); got.push_back(uHeader(t)); }
		VH_EQ(lower(join(got)), lower(join(want)), "fields", "fields " + name + " of message " + std::to_string(m.uid));
	}
	void checkStructure(const vn::messageStructure& s, size_t at, const IPart& p) {
		auto x = s.getPartAt(at); VH_EQ(lower(x->getType().getType()) + "/" + lower(x->getType().getSubType()), p.type + "/" + p.sub, "structure", "type"); VH_EQ(x->getNumber(), at, "structure", "number");
		VH_EQ(x->getName(), p.multi ? str() : p.name(), "structure", "name"); if (!p.multi) VH_EQ(x->getSize(), p.body.size(), "structure", "size of the part");
		auto sub = x->getStructure(); VH_EQ(sub->getPartCount(), p.multi ? p.kids.size() : (size_t)0, "structure", "parts"); if (p.multi) for (size_t i = 0; i < p.kids.size(); ++i) checkStructure(*sub, i, p.kids[i]);
	}
	shared_ptr<vn::messagePart> pickPart(const shared_ptr<vn::messageStructure>& s, const IMsg& m, const IPart*& p, bool& root) {
		auto x = s->getPartAt(0); p = &m.root; root = true; while (p->multi && !r.chance(1, 4)) { size_t i = r.below(p->kids.size()); x = x->getStructure()->getPartAt(i); p = &p->kids[i]; root = false; } return x;
	}
	void checkParsed(const vmime::bodyPart& b, const IPart& p, const str& header) {
		vmime::header ref; ref.parse(header); VH_EQ(uHeader(*b.getHeader()), uHeader(ref), "parsed", "header of a part");
		if (p.multi) { VH_EQ(b.getBody()->getPartCount(), p.kids.size(), "parsed", "parts"); for (size_t i = 0; i < p.kids.size(); ++i) checkParsed(*b.getBody()->getPartAt(i), p.kids[i], p.kids[i].mime); return; }
		VH_EQ(b.getBody()->getPartCount(), (size_t)0, "parsed", "parts"); auto ct = b.getBody()->getContents(); str o, raw; vmime::utility::outputStreamStringAdapter os(o), rs(raw); Prog pr;
		ct->extract(os, r.chance(1, 3) ? &pr : nullptr); VH_CHECK(o == p.decoded, "parsed", "decoded contents " << q(o.substr(0, 300)) << " expected " << q(p.decoded.substr(0, 300)));
		if (r.coin()) { ct->extractRaw(rs); VH_CHECK(raw == p.body, "parsed", "raw contents " << q(raw.substr(0, 300)) << " expected " << q(p.body.substr(0, 300))); }
		VH_EQ(ct->getLength(), p.body.size(), "parsed", "getLength()"); c.count("parsed parts");
	}
	void checkGenerated(const vmime::bodyPart& b, const IPart& p) { // written again and read back
		if (p.multi) { VH_EQ(b.getBody()->getPartCount(), p.kids.size(), "regenerated", "parts"); for (size_t i = 0; i < p.kids.size(); ++i) checkGenerated(*b.getBody()->getPartAt(i), p.kids[i]); return; }
		if (p.msg) return; str o; vmime::utility::outputStreamStringAdapter os(o); b.getBody()->getContents()->extract(os); str a = p.type == "text" ? normEol(o) : o, w = p.type == "text" ? normEol(p.decoded) : p.decoded; if (p.type == "text" || p.enc != "base64") { while (!a.empty() && a.back() == '\n') a.pop_back(); while (!w.empty() && w.back() == '\n') w.pop_back(); }
		VH_CHECK(a == w, "regenerated", "contents " << q(a.substr(0, 300)) << " expected " << q(w.substr(0, 300)));
	}
	// ---- search
	shared_ptr<const vi::IMAPSearchToken> token(Open& o, int depth, str& canon) {
		auto text = [&] { str s; switch (r.below(4)) { case 0: s = r.pickc({"x", "a b", "\"q\"", "back\\", "", "(x)", "{3}", "NIL", "%*", "joe@example.test"}); break; default: s = r.from("ab \"\\(){}%*]x", 1 + r.below(8)); } return s; };
		auto date = [&](str& d) { static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; int y = 1970 + (int)r.below(100), m = 1 + (int)r.below(12), dd = 1 + (int)r.below(28); d = std::to_string(dd) + "-" + mon[m - 1] + "-" + std::to_string(y); return vmime::datetime(y, m, dd, 1, 2, 3, 0); };
		switch (r.below(depth > 0 ? 9 : 5)) {
			case 0: { static const struct { const char* n; vi::IMAPSearchTokenPtr (*f)(); } p[] = {{"ANSWERED", T::ANSWERED}, {"DELETED", T::DELETED}, {"DRAFT", T::DRAFT}, {"FLAGGED", T::FLAGGED}, {"NEW", T::NEW}, {"OLD", T::OLD}, {"RECENT", T::RECENT}, {"SEEN", T::SEEN}, {"UNANSWERED", T::UNANSWERED}, {"UNDELETED", T::UNDELETED}, {"UNDRAFT", T::UNDRAFT}, {"UNFLAGGED", T::UNFLAGGED}, {"UNSEEN", T::UNSEEN}}; auto& x = p[r.below(13)]; canon = x.n; return x.f(); }
			case 1: { static const struct { const char* n; vi::IMAPSearchTokenPtr (*f)(const vmime::string&); } p[] = {{"BCC", T::BCC}, {"BODY", T::BODY}, {"CC", T::CC}, {"FROM", T::FROM}, {"SUBJECT", T::SUBJECT}, {"TEXT", T::TEXT}, {"TO", T::TO}}; auto& x = p[r.below(7)]; str s = text(); canon = str(x.n) + " " + q(s); return x.f(s); }
			case 2: { static const struct { const char* n; vi::IMAPSearchTokenPtr (*f)(const vmime::datetime&); } p[] = {{"BEFORE", T::BEFORE}, {"ON", T::ON}, {"SINCE", T::SINCE}, {"SENTBEFORE", T::SENTBEFORE}, {"SENTON", T::SENTON}, {"SENTSINCE", T::SENTSINCE}}; auto& x = p[r.below(6)]; str d; auto dt = date(d); canon = str(x.n) + " " + d; return x.f(dt); }
			case 3: { bool l = r.coin(); uint32_t n = r.coin() ? (uint32_t)r.below(100000) : r.coin() ? 4294967295u : 2147483648u; canon = (l ? "LARGER " : "SMALLER ") + std::to_string(n); return l ? T::LARGER(n) : T::SMALLER(n); }
			case 4: { if (r.coin()) { str s = text(); canon = "HEADER X-Custom " + q(s); return T::HEADER("X-Custom", s); }
				if (o.sv->view.empty()) { canon = "HEADER X-Any " + q(""); return T::HEADER("X-Any"); }
				std::set<PMsg> want; bool uid = r.coin(); auto s = genSet(o, want, uid); canon = uid ? "U" : "#"; for (size_t i = 0; i < o.sv->view.size(); ++i) if (want.count(o.sv->view[i])) canon += std::to_string(uid ? o.sv->view[i]->uid : i + 1) + ","; return uid ? T::UID(s) : T::MESSAGESET(s); }
			case 5: { str a; auto t = token(o, depth - 1, a); canon = "!" + a; return T::NOT(t); }
			case 6: { str a, b; auto x = token(o, depth - 1, a), y = token(o, depth - 1, b); canon = "(" + a + " | " + b + ")"; return T::OR(x, y); }
			default: { std::vector<vi::IMAPSearchTokenPtr> v; std::vector<str> cs; for (size_t n = 1 + r.below(3); n-- > 0;) { str a; v.push_back(token(o, depth - 1, a)); cs.push_back(a); } if (cs.size() == 1) canon = cs[0]; else { canon = ""; for (auto& x : cs) canon += (canon.empty() ? "" : " & ") + x; canon = "(" + canon + ")"; } if (r.coin()) return T::AND(v); return T::AND(std::vector<vi::IMAPSearchTokenPtr>(v)); }
		}
	}
	shared_ptr<vn::folder> folderObj(const Path& p) { return p.empty() && r.coin() ? st->getRootFolder() : p == Path{"INBOX"} && r.coin() ? st->getDefaultFolder() : st->getFolder(toP(p)); }
	Path anyPath() { std::vector<Path> v; for (auto& b : W.boxes) v.push_back(b.first); if (r.chance(1, 4)) return genIPath(r, W.sep); return r.pick(v); }
	bool isOpenPath(const Path& p, bool below) { for (auto& o : open) { Path q2 = o.box->path; if (q2 == p || (below && q2.size() > p.size() && std::equal(p.begin(), p.end(), q2.begin()))) return true; } return false; }

	void openFolder() {
		std::vector<Path> v; for (auto& b : W.boxes) if (!isOpenPath(b.first, false)) v.push_back(b.first); if (v.empty()) return; Path p = r.pick(v); auto box = W.boxes[p]; auto f = folderObj(p); auto other = r.chance(1, 3) ? st->getFolder(toP(p)) : nullptr;
		int mode = r.chance(3, 4) ? vn::folder::MODE_READ_WRITE : vn::folder::MODE_READ_ONLY; bool strict = r.coin(), onlyRo = W.boxes.count(p) && roBoxes.count(p); note("open " + show(p) + (mode == vn::folder::MODE_READ_ONLY ? " read-only" : "") + (strict ? " strict" : ""));
		auto w = std::make_shared<Watch>(); f->addMessageChangedListener(w.get()); f->addMessageCountListener(w.get()); f->addFolderListener(w.get()); size_t n0 = srvs.size(); unsigned b0 = refusedTotal(); bool threw = false; str what;
		try { f->open(mode, strict); } catch (const vmime::exceptions::operation_not_supported& e) { VH_CHECK(onlyRo && strict && mode == vn::folder::MODE_READ_WRITE, "open", "operation_not_supported"); threw = true; } catch (const vmime::exceptions::command_error& e) { threw = true; VH_CHECK(refusedTotal() > b0, "false-failure", "open: " << excName(e)); c.count("refusals"); }
		protocol(); VH_EQ(f->isOpen(), !threw, "open", "isOpen()"); VH_EQ(srvs.size(), n0 + 1, "open", "connections"); auto sv = srvs.back();
		if (threw) { VH_CHECK(box->noselect || refusedTotal() > b0 || (onlyRo && strict), "open", "refused"); try { f->getMessageCount(); fail("open", "getMessageCount() of a closed folder"); } catch (const vmime::exceptions::illegal_state&) {} return; }
		VH_CHECK(refusedTotal() == b0, "false-success", "open"); VH_CHECK(sv->sel == box, "open", "another mailbox was selected"); VH_CHECK(!(onlyRo && strict && mode == vn::folder::MODE_READ_WRITE), "open", "opened read-only although the mode was required");
		bool ro = mode == vn::folder::MODE_READ_ONLY || onlyRo; VH_EQ(sv->ro, ro, "open", "EXAMINE used"); VH_EQ(f->getMode(), ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE, "open", "getMode()");
		if (!w->ev.empty()) { std::vector<str> e; for (size_t i = 1; i <= sv->view.size(); ++i) e.push_back("A" + std::to_string(i)); VH_EQ(join(w->ev), join(e), "events", "notifications by open()"); w->ev.clear(); }
		auto imf = std::dynamic_pointer_cast<vi::IMAPFolder>(f); VH_EQ((unsigned long)imf->getUIDValidity(), box->validity, "open", "UID validity"); VH_EQ(sv->condSelect, W.condstore, "open", "CONDSTORE used"); if (W.condstore) VH_EQ((unsigned long)imf->getHighestModSequence(), box->modseq, "open", "highest modification sequence");
		Open o; o.f = f; o.box = box; o.sv = sv; o.w = w; o.ro = ro; open.push_back(o); c.count("folders opened");
		if (r.chance(1, 3)) { bool t = false; try { st->getFolder(toP(p))->open(vn::folder::MODE_READ_ONLY); } catch (const vmime::exceptions::folder_already_open&) { t = true; } VH_CHECK(t, "open", "opened twice"); }
		if (r.chance(1, 4)) checkAttributes(f->getAttributes(), *box, "open folder");
	}
	std::set<Path> roBoxes;
	void checkAttributes(const A& a, const IBox& b, const str& what) {
		VH_EQ((a.getType() & A::TYPE_CONTAINS_MESSAGES) != 0, !b.noselect, "attributes", what + ": holds messages"); VH_EQ((a.getFlags() & A::FLAG_NO_OPEN) != 0, b.noselect, "attributes", what + ": no-open flag"); if (W.children) VH_EQ((a.getFlags() & A::FLAG_HAS_CHILDREN) != 0, W.hasKids(b.path), "attributes", what + ": has children"); else VH_CHECK(a.getFlags() & A::FLAG_HAS_CHILDREN, "attributes", what << ": may have children");
		int su = b.path == Path{"INBOX"} ? A::SPECIALUSE_INBOX : !W.specialUse ? A::SPECIALUSE_NONE : b.special == "\\Sent" ? A::SPECIALUSE_SENT : b.special == "\\Trash" ? A::SPECIALUSE_TRASH : b.special == "\\Drafts" ? A::SPECIALUSE_DRAFTS : b.special == "\\Junk" ? A::SPECIALUSE_JUNK : b.special == "\\All" ? A::SPECIALUSE_ALL : b.special == "\\Archive" ? A::SPECIALUSE_ARCHIVE : b.special == "\\Flagged" ? A::SPECIALUSE_FLAGGED : b.special == "\\Important" ? A::SPECIALUSE_IMPORTANT : A::SPECIALUSE_NONE;
		VH_EQ((int)a.getSpecialUse(), su, "attributes", what + ": special use"); c.count("attributes compared");
	}
	void closeFolder(size_t k, bool expunge) {
		Open o = open[k]; note("close " + std::to_string(k) + (expunge ? " expunge" : "")); auto before = o.box->msgs; std::set<IMsg*> inView; for (auto& m : o.sv->view) inView.insert(m.get());
		if (expunge && o.ro) { bool t = false; try { o.f->close(true); } catch (const vmime::exceptions::operation_not_supported&) { t = true; } VH_CHECK(t && o.f->isOpen(), "close", "close(true) of a read-only folder"); expunge = false; }
		bool done = op(*o.sv, "close", [&] { if (!expunge && r.chance(1, 4)) { o.f->removeMessageChangedListener(o.w.get()); o.f->removeMessageCountListener(o.w.get()); o.f->removeFolderListener(o.w.get()); open[k].f.reset(); o.f.reset(); } else o.f->close(expunge); });
		std::vector<PMsg> want; for (auto& m : before) if (!done || !expunge || !inView.count(m.get()) || !m->flags.count("\\Deleted")) want.push_back(m); VH_CHECK(want == o.box->msgs, "close", "messages left after close(" << expunge << ")");
		if (o.f) { if (done) VH_EQ(o.f->isOpen(), false, "close", "isOpen()"); if (!done && o.f->isOpen()) { return; } }
		for (auto& h : o.held) { bool t = false; try { str x; vmime::utility::outputStreamStringAdapter os(x); h.m->extract(os); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "extract() after close()"); }
		open.erase(open.begin() + (long)k); if (done) VH_CHECK(o.sv->loggedOut || o.sv->closed, "close", "the connection was not closed with LOGOUT");
	}
	// ---- the operations on an open folder
	void work(Open& o) {
		auto& v = o.sv->view; size_t N = v.size(); ImapServer& s = *o.sv; auto& f = o.f; str what;
		auto refusedRo = [&](const std::function<void()>& fn, const str& w) { if (!o.ro) return false; size_t n = s.commands.size(); bool t = false; try { fn(); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "read-only", w << " of a folder that is open read-only"); VH_EQ(s.commands.size(), n, "read-only", "commands sent"); return true; };
		switch (r.below(15)) {
			case 0: { note(what = "noop"); op(s, "noop", [&] { std::dynamic_pointer_cast<vi::IMAPFolder>(f)->noop(); }); break; }
			case 1: { // message objects
				if (r.coin()) { size_t k = r.chance(1, 6) ? N + r.below(3) : 1 + r.below(N ? N : 1); note(what = "getMessage " + std::to_string(k)); try { auto m = f->getMessage(k); VH_CHECK(k >= 1 && k <= N, "number", "message " << k << " of " << N); add(o, m, v[k - 1]); } catch (const vmime::exceptions::message_not_found&) { VH_CHECK(k < 1 || k > N, "number", "message " << k << " of " << N << " not found"); } break; }
				if (!N) break; std::set<PMsg> want; auto set = genSet(o, want, r.coin()); note(what = "getMessages"); std::vector<shared_ptr<vn::message>> l; if (!op(s, what, [&] { l = f->getMessages(set); })) break;
				place(o, l, want, what); break; }
			case 2: case 3: case 4: fetch(o, what); break;
			case 5: { // whole contents
				if (o.held.empty()) break; auto h = r.pick(o.held); size_t a = 0, n = (size_t)-1; if (r.chance(1, 3)) { a = r.below(h.real->raw().size() + 20); if (r.coin()) n = 1 + r.below(100); } bool peek = r.coin(); note(what = "extract " + std::to_string(h.real->uid) + " " + std::to_string(a)); str out; vmime::utility::outputStreamStringAdapter os(out); Prog p; bool ok = false;
				if (gone(o, h, [&] { h.m->extract(os); })) break; s.notPeeked = 0; ok = op(s, what, [&] { h.m->extract(os, r.coin() ? &p : nullptr, a, n, peek); }); str raw = h.real->raw(), want = a > raw.size() ? "" : raw.substr(a, n); if (ok) { VH_EQ(s.notPeeked > 0, !peek, "peek", "extract() marks the message as read"); VH_CHECK(out == want, "content", "message " << h.real->uid << " is " << q(out.substr(0, 300)) << " (" << out.size() << ") expected " << q(want.substr(0, 300)) << " (" << want.size() << ")"); VH_CHECK(p.starts == p.stops && !p.bad, "progress", "extract"); c.count("messages extracted"); } break; }
			case 6: { // parts
				std::vector<Held> hs; for (auto& h : o.held) if (h.structure && idx(o, h.real) >= 0) hs.push_back(h); if (hs.empty()) break; auto h = r.pick(hs); const IPart* p; bool root; auto part = pickPart(h.m->getStructure(), *h.real, p, root); str full = root ? h.real->raw() : p->mime + "\r\n" + p->body, hd = root ? h.real->header : p->mime;
				if (r.chance(1, 3)) { note(what = "fetchPartHeader"); s.notPeeked = 0; if (op(s, what, [&] { h.m->fetchPartHeader(part); })) { VH_EQ(s.notPeeked, 0u, "peek", "fetchPartHeader() marks the message as read"); vmime::header ref; ref.parse(hd); VH_EQ(uHeader(*part->getHeader()), uHeader(ref), "part-header", "header of a part"); c.count("part headers"); } break; }
				size_t a = 0, n = (size_t)-1; if (r.coin()) { a = r.below(full.size() + 10); if (r.coin()) n = r.below(60); } note(what = "extractPart from " + std::to_string(a)); str out; vmime::utility::outputStreamStringAdapter os(out); Prog pr; bool peek = r.coin(); s.notPeeked = 0;
				if (op(s, what, [&] { h.m->extractPart(part, os, r.coin() ? &pr : nullptr, a, n, peek); })) { VH_EQ(s.notPeeked > 0, !peek, "peek", "extractPart() marks the message as read"); str want = a > full.size() ? "" : full.substr(a, n); VH_CHECK(out == want, "part", "part is " << q(out.substr(0, 300)) << " expected " << q(want.substr(0, 300)) << " from " << a << " length " << (long)n); c.count("parts extracted"); } break; }
			case 7: { if (o.held.empty()) break; auto h = r.pick(o.held); if (gone(o, h, [&] { h.m->getParsedMessage(); })) break; note(what = "getParsedMessage"); shared_ptr<vmime::message> pm; IMsg copy = *h.real; bool ok = op(s, what, [&] { pm = h.m->getParsedMessage(); }); if (!ok) break; for (auto& x : o.held) if (x.m == h.m) x.structure = true; bool all = op(s, what, [&] { checkParsed(*pm, copy.root, copy.header); });
				if (all && r.chance(1, 2)) { str g; bool gok = op(s, "generate", [&] { g = pm->generate(); }); if (gok) { vmime::message back; back.parse(g); checkGenerated(back, copy.root); c.count("regenerated"); } } break; }
			case 8: { // flags
				if (!N) break; std::set<PMsg> want; bool byMsg = r.chance(1, 3) && !o.held.empty(); int fl = genFl(r), mode = (int)r.pick(std::vector<int>{M::FLAG_MODE_SET, M::FLAG_MODE_ADD, M::FLAG_MODE_REMOVE}); std::map<IMsg*, std::set<str>> before; for (auto& m : v) before[m.get()] = m->flags;
				Held h; vn::messageSet set = vn::messageSet::empty(); if (byMsg) { h = r.pick(o.held); if (gone(o, h, [&] { h.m->setFlags(M::FLAG_SEEN, M::FLAG_MODE_ADD); })) break; want = {h.real}; } else set = genSet(o, want, r.coin()); note(what = "flags " + std::to_string(fl) + " mode " + std::to_string(mode)); auto go = [&] { if (byMsg) h.m->setFlags(fl, mode); else f->setMessageFlags(set, fl, mode); };
				if (o.ro) { if (mode == M::FLAG_MODE_SET || fl) { bool t = false; try { go(); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "read-only", "flags set in a read-only folder"); } break; }
				bool ok = op(s, what, go); for (auto& m : v) if (before.count(m.get())) { std::set<str> w = before[m.get()]; if (ok && want.count(m)) { auto x = sflags(fl); if (mode == M::FLAG_MODE_SET) w = x; else for (auto& y : x) { if (mode == M::FLAG_MODE_ADD) w.insert(y); else w.erase(y); } } VH_EQ(join(std::vector<str>(m->flags.begin(), m->flags.end())), join(std::vector<str>(w.begin(), w.end())), "store", "flags on the server of message " + std::to_string(m->uid)); } c.count("flag changes"); break; }
			case 9: { if (!N) break; std::set<PMsg> want; auto set = genSet(o, want, r.coin()); note(what = "deleteMessages"); if (refusedRo([&] { f->deleteMessages(set); }, what)) break; std::set<IMsg*> was; auto v0 = v; for (auto& m : v) if (m->flags.count("\\Deleted")) was.insert(m.get()); bool ok = op(s, what, [&] { f->deleteMessages(set); }); for (auto& m : v0) VH_EQ(m->flags.count("\\Deleted") > 0, was.count(m.get()) || (ok && want.count(m) > 0), "delete", "message " + std::to_string(m->uid) + " marked as deleted"); break; }
			case 10: { note(what = "expunge"); if (refusedRo([&] { f->expunge(); }, what)) break; std::vector<PMsg> left; for (auto& m : o.box->msgs) if (idx(o, m) < 0 || !m->flags.count("\\Deleted")) left.push_back(m); auto all = o.box->msgs; bool ok = op(s, what, [&] { f->expunge(); }); VH_CHECK(o.box->msgs == (ok ? left : all), "expunge", "messages left"); c.count("expunges"); break; }
			case 11: { // append
				PMsg m = genIMsg(r, W); str raw = m->raw(); int fl = r.coin() ? -1 : genFl(r); vmime::datetime d(1990 + (int)r.below(60), 1 + (int)r.below(12), 1 + (int)r.below(28), (int)r.below(24), (int)r.below(60), (int)r.below(60), (int)r.range(-11, 12) * 60 + (r.chance(1, 3) ? (r.coin() ? 30 : (int)r.below(60)) : 0)); bool dated = r.coin(); note(what = "addMessage " + std::to_string(raw.size())); Chunking ch; vmime::utility::inputStreamStringAdapter is(raw); vn::messageSet got = vn::messageSet::empty(); Prog p; size_t n0 = o.box->msgs.size();
				if (refusedRo([&] { f->addMessage(is, raw.size(), fl, nullptr); }, what)) break; s.appended.clear(); bool ok = op(s, what, [&] { got = f->addMessage(is, raw.size(), fl, dated ? &d : nullptr, r.coin() ? &p : nullptr); });
				VH_EQ(o.box->msgs.size(), n0 + (ok ? 1 : 0), "append", "messages in the mailbox"); if (!ok) break; VH_CHECK(o.box->msgs.back()->raw() == raw, "append", "contents"); auto fl2 = fl == -1 ? std::set<str>() : sflags(fl); VH_EQ(join(std::vector<str>(s.appended.back().second.begin(), s.appended.back().second.end())), join(std::vector<str>(fl2.begin(), fl2.end())), "append", "flags");
				if (dated) { char b[64]; static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; int z = d.getZone(), az = z < 0 ? -z : z; snprintf(b, sizeof b, "\"%2d-%s-%04d %02d:%02d:%02d %c%02d%02d\"", d.getDay(), mon[d.getMonth() - 1], d.getYear(), d.getHour(), d.getMinute(), d.getSecond(), z < 0 ? '-' : '+', az / 60, az % 60); VH_EQ(s.appended.back().first, str(b), "append", "date"); } else VH_EQ(s.appended.back().first, str(), "append", "date");
				VH_EQ(setStr(got), W.uidplus ? std::to_string(o.box->msgs.back()->uid) : str(), "append", "UID reported"); VH_CHECK(p.starts == p.stops && !p.bad, "progress", "addMessage"); c.count("appends"); break; }
			case 12: { // copy
				if (!N) break; Path d = anyPath(); std::set<PMsg> want; auto set = genSet(o, want, r.coin()); note(what = "copy to " + show(d)); auto it = W.boxes.find(d); std::vector<PMsg> before; if (it != W.boxes.end()) before = it->second->msgs; vn::messageSet got = vn::messageSet::empty(); std::vector<str> wr; for (auto& m : v) if (want.count(m)) wr.push_back(std::to_string(vh::hash(m->raw()))); bool ok = op(s, what, [&] { got = f->copyMessages(toP(d), set); });
				if (it == W.boxes.end()) { VH_CHECK(!ok && !W.boxes.count(d), "copy", "to a folder that does not exist"); break; } auto& now = it->second->msgs; VH_EQ(now.size(), before.size() + (ok ? want.size() : 0), "copy", "messages in the destination"); std::vector<str> gr; for (size_t i = before.size(); i < now.size(); ++i) gr.push_back(std::to_string(vh::hash(now[i]->raw()))); if (ok) { VH_EQ(join(gr), join(wr), "copy", "messages copied"); str us; for (auto u : s.lastSet) us += (us.empty() ? "" : ",") + std::to_string(u); VH_EQ(setStr(got), W.uidplus ? us : str(), "copy", "UIDs reported"); } c.count("copies"); break; }
			case 13: { // search
				auto imf = std::dynamic_pointer_cast<vi::IMAPFolder>(f); str canon; vi::IMAPSearchAttributes sa; str all; bool cs = r.chance(1, 4); vmime::charset u8("utf-8"); for (size_t n = 1 + r.below(3); n-- > 0;) { str k; sa.add(token(o, 2, k)); all += k + ";"; } note(what = "search " + q(all));
				if (r.chance(1, 4) && N) { unsigned long u = r.pick(v)->uid; if (r.chance(1, 3)) u = v.back()->uid + 1 + r.below(3); std::vector<size_t> got, want; for (size_t i = 0; i < N; ++i) if (v[i]->uid >= u) want.push_back(i + 1); s.answerUidFrom = true; bool ok = op(s, what, [&] { got = imf->getMessageNumbersStartingOnUID(vn::message::uid(std::to_string(u))); }); s.answerUidFrom = false; if (ok) { str a, b; for (auto n : got) a += std::to_string(n) + " "; for (auto n : want) b += std::to_string(n) + " "; VH_EQ(a, b, "search", "messages from UID " + std::to_string(u)); } break; }
				bool uid = r.coin(); str a, b; bool ok = op(s, what, [&] { if (uid) for (auto& u : imf->getMessageUIDsMatchingSearchAttributes(sa, cs ? &u8 : nullptr)) a += str(u) + " "; else for (auto n : imf->getMessageNumbersMatchingSearchAttributes(sa, cs ? &u8 : nullptr)) a += std::to_string(n) + " "; });
				VH_EQ(s.lastSearch, (cs ? "CHARSET UTF-8 " : "") + all, "search", "what the server was asked"); if (ok) { for (auto n : s.answer) b += std::to_string(n) + " "; VH_EQ(a, b, "search", "result"); } c.count("searches"); break; }
			case 14: { note(what = "status"); size_t a = 0, u = 0; size_t un = 0; for (auto& m : o.box->msgs) un += !m->flags.count("\\Seen"); size_t n = o.box->msgs.size(); shared_ptr<vn::folderStatus> fs; bool ok = op(s, what, [&] { if (r.coin()) f->status(a, u); else { fs = f->getStatus(); a = fs->getMessageCount(); u = fs->getUnseenCount(); } }); if (ok) { VH_EQ(a, n, "status", "messages"); VH_EQ(u, un, "status", "unseen messages"); } break; }
		}
		if (what.empty()) what = "nothing"; c.seen("operations", what.substr(0, 8)); compareAll(what);
		if (o.held.size() > 12) o.held.erase(o.held.begin(), o.held.begin() + 6);
	}
	static str setStr(const vn::messageSet& s) { str o; struct En : vn::messageSetEnumerator { std::set<unsigned long> u; void enumerateNumberMessageRange(const vn::numberMessageRange&) { u.insert(0); } void enumerateUIDMessageRange(const vn::UIDMessageRange& x) { for (unsigned long a = strtoul(str(x.getFirst()).c_str(), 0, 10), b = strtoul(str(x.getLast()).c_str(), 0, 10); a <= b; ++a) u.insert(a); } } en; s.enumerate(en); for (auto u : en.u) o += (o.empty() ? "" : ",") + std::to_string(u); return o; }
	bool gone(Open& o, Held& h, const std::function<void()>& fn) { // a message that was expunged cannot be used; no other message is touched
		if (idx(o, h.real) >= 0) return false; size_t n = o.sv->commands.size(); bool t = false; try { fn(); } catch (const vmime::exception&) { t = true; } note("use of an expunged message"); VH_CHECK(t, "expunged", "an operation on an expunged message succeeded"); VH_EQ(o.sv->commands.size(), n, "expunged", "commands sent for an expunged message"); c.count("uses of expunged messages"); return true;
	}
	void place(Open& o, const std::vector<shared_ptr<vn::message>>& l, const std::set<PMsg>& want, const str& what) {
		std::set<str> uids; for (auto& m : l) { str u = m->getUID(); VH_CHECK(uids.insert(u).second, "set", what << ": message " << u << " twice"); PMsg real; for (auto& x : want) if (std::to_string(x->uid) == u) real = x; VH_CHECK(real, "set", what << ": message with UID " << u << " was not asked for"); add(o, m, real); } VH_EQ(l.size(), want.size(), "set", what + ": messages returned");
	}
	void fetch(Open& o, str& what) {
		ImapServer& s = *o.sv; auto& f = o.f; int at = 0; for (int b : {(int)FA::SIZE, (int)FA::UID, (int)FA::FLAGS, (int)FA::STRUCTURE, (int)FA::ENVELOPE}) if (r.chance(1, 3)) at |= b; if (r.chance(1, 6)) at |= FA::FULL_HEADER; if (r.chance(1, 4)) at |= FA::IMPORTANCE; if (r.coin()) at |= FA::PEEK; FA fa(at); bool custom = r.chance(1, 4); if (custom) fa.add("X-Custom"); note(what = "fetch " + std::to_string(at) + (custom ? " custom" : ""));
		std::vector<Held> hs; bool ok; Prog p; s.notPeeked = 0;
		if (r.coin()) { if (o.sv->view.empty()) return; std::set<PMsg> want; auto set = genSet(o, want, r.coin()); std::vector<shared_ptr<vn::message>> l; what += " and get"; ok = op(s, what, [&] { l = f->getAndFetchMessages(set, fa); }); if (ok) { size_t n = o.held.size(); place(o, l, want, what); hs.assign(o.held.begin() + (long)n, o.held.end()); } }
		else {
			if (o.held.empty()) return; std::vector<shared_ptr<vn::message>> l; std::set<IMsg*> in; bool exp = false; for (size_t n = 1 + r.below(4); n-- > 0;) { auto& h = r.pick(o.held); if (!in.insert(h.real.get()).second) continue; if (idx(o, h.real) < 0) { if (!r.chance(1, 4)) continue; exp = true; } else hs.push_back(h); l.push_back(h.m); } if (l.empty()) return;
			size_t n0 = s.commands.size(); try { ok = op(s, what, [&] { if (l.size() == 1 && r.coin()) f->fetchMessage(l[0], fa); else f->fetchMessages(l, fa, r.coin() ? &p : nullptr); }); } catch (const vmime::exceptions::message_not_found&) { VH_CHECK(exp, "fetch", "message_not_found"); VH_EQ(s.commands.size(), n0, "expunged", "commands sent"); return; } VH_CHECK(p.starts == p.stops && !p.bad, "progress", "fetchMessages");
		}
		if (!ok) return; if (at & FA::PEEK) VH_EQ(s.notPeeked, 0u, "peek", "fetching with PEEK marks the messages as read");
		for (auto& h : hs) {
			const IMsg& m = *h.real; str id = "message " + std::to_string(m.uid);
			for (auto& x : o.held) if (x.m == h.m) { if (at & FA::STRUCTURE) x.structure = true; if (at & FA::FLAGS) x.flags = true; }
			try {
				if (at & FA::SIZE) VH_EQ(h.m->getSize(), m.raw().size(), "size", id); if (at & FA::UID) VH_EQ(str(h.m->getUID()), std::to_string(m.uid), "uid", id); if (at & FA::FLAGS) h.m->getFlags(); if (at & FA::STRUCTURE) { auto st2 = h.m->getStructure(); VH_EQ(st2->getPartCount(), (size_t)1, "structure", "root"); checkStructure(*st2, 0, m.root); }
				if (at & FA::FULL_HEADER) { vmime::header ref; ref.parse(m.header); VH_EQ(uHeader(*h.m->getHeader()), uHeader(ref), "header", id); } else if (at & FA::ENVELOPE) checkEnvelope(*h.m->getHeader(), m);
				if ((at & FA::IMPORTANCE) && !(at & FA::FULL_HEADER)) { checkFields(*h.m->getHeader(), m, "Importance"); checkFields(*h.m->getHeader(), m, "X-Priority"); } if (custom && !(at & FA::FULL_HEADER)) checkFields(*h.m->getHeader(), m, "X-Custom");
			} catch (const vmime::exceptions::unfetched_object&) { fail("unfetched", id + " after fetch " + std::to_string(at)); }
			c.count("messages fetched");
		}
	}
	// ---- the tree of folders
	void tree() {
		Path p = anyPath(); auto it = W.boxes.find(p); bool have = it != W.boxes.end(); ImapServer& s = main(); auto f = folderObj(p); auto w = std::make_shared<Watch>(); f->addFolderListener(w.get()); std::vector<str> ev; str what;
		struct Off { shared_ptr<vn::folder> f; std::shared_ptr<Watch> w; ~Off() { f->removeFolderListener(w.get()); } } off{f, w};
		switch (r.below(7)) {
			case 0: { note(what = "exists " + show(p)); bool e = false; if (op(s, what, [&] { e = f->exists(); })) VH_EQ(e, have, "exists", show(p)); break; }
			case 1: { note(what = "list " + show(p)); bool rec = r.coin(), root = r.chance(1, 3); if (root) { p.clear(); f = st->getRootFolder(); } std::vector<shared_ptr<vn::folder>> l; if (!op(s, what, [&] { l = f->getFolders(rec); })) break; std::set<Path> want, got; for (auto& b : W.boxes) if (b.first.size() > p.size() && std::equal(p.begin(), p.end(), b.first.begin()) && (rec || b.first.size() == p.size() + 1)) want.insert(b.first);
				for (auto& x : l) { Path q2 = ofP(x->getFullPath()); VH_CHECK(got.insert(q2).second, "list", "folder " << show(q2) << " twice"); VH_CHECK(want.count(q2), "list", "folder " << show(q2) << " below " << show(p) << (rec ? " (recursive)" : "")); checkAttributes(x->getAttributes(), *W.boxes[q2], "listed folder " + show(q2)); VH_EQ(x->getName().getConvertedText(vmime::charset("utf-8")), q2.back(), "list", "name"); } VH_EQ(got.size(), want.size(), "list", "folders below " + show(p)); c.count("listings"); break; }
			case 2: { note(what = "attributes " + show(p)); if (!have) break; A a; if (op(s, what, [&] { a = f->getAttributes(); })) checkAttributes(a, *it->second, show(p)); break; }
			case 3: { if (r.coin()) p = genIPath(r, W.sep); have = W.boxes.count(p); f->removeFolderListener(w.get()); f = st->getFolder(toP(p)); f->addFolderListener(w.get()); off.f = f; A a; a.setType(r.chance(1, 3) ? A::TYPE_CONTAINS_FOLDERS : A::TYPE_CONTAINS_MESSAGES); if (r.chance(1, 4)) a.setSpecialUse(r.coin() ? A::SPECIALUSE_TRASH : A::SPECIALUSE_SENT); note(what = "create " + show(p)); bool ok = false;
				try { ok = op(s, what, [&] { f->create(a); }); } catch (const vmime::exceptions::illegal_state&) { VH_CHECK(have, "create", "illegal_state"); break; } catch (const vmime::exceptions::operation_not_supported&) { VH_CHECK(!W.specialUse && a.getSpecialUse() != A::SPECIALUSE_NONE, "create", "operation_not_supported"); VH_CHECK(!W.boxes.count(p), "create", "created"); break; }
				VH_CHECK(!(ok && have), "create", "a folder that exists was created"); VH_EQ(W.boxes.count(p) > 0, have || ok, "create", "the mailbox " + show(p) + " exists on the server"); if (ok) { ev.push_back("created"); VH_EQ(W.boxes[p]->special, str(a.getSpecialUse() == A::SPECIALUSE_TRASH ? "\\Trash" : a.getSpecialUse() == A::SPECIALUSE_SENT ? "\\Sent" : ""), "create", "special use"); c.count("folders created"); } break; }
			case 4: { if (p == Path{"INBOX"} || isOpenPath(p, false)) break; bool kids = W.hasKids(p); note(what = "destroy " + show(p)); bool ok = op(s, what, [&] { f->destroy(); }); VH_CHECK(!ok || have, "destroy", "a folder that does not exist"); if (ok) { VH_EQ(W.boxes.count(p) > 0, kids, "destroy", "mailbox on the server"); ev.push_back("deleted"); c.count("folders destroyed"); } else VH_EQ(W.boxes.count(p) > 0, have, "destroy", "mailbox"); break; }
			case 5: { // rename
				if (p == Path{"INBOX"} || !have || isOpenPath(p, false)) break; Path np = genIPath(r, W.sep); if (W.boxes.count(np) || (np.size() >= p.size() && std::equal(p.begin(), p.end(), np.begin()))) break; if (r.chance(1, 12)) { bool t = false; try { st->getFolder(toP({"INBOX"}))->rename(toP(np)); } catch (const vmime::exceptions::illegal_operation&) { t = true; } VH_CHECK(t, "rename", "INBOX"); break; }
				std::vector<std::pair<shared_ptr<vn::folder>, Path>> subs; for (auto& b : W.boxes) if (b.first != p && r.coin()) subs.push_back({st->getFolder(toP(b.first)), b.first}); std::vector<std::shared_ptr<Watch>> sw; for (auto& x : subs) { sw.push_back(std::make_shared<Watch>()); x.first->addFolderListener(sw.back().get()); }
				auto moved = it->second; auto boxes = W.boxes; note(what = "rename " + show(p) + " to " + show(np)); bool ok = op(s, what, [&] { f->rename(toP(np)); }); auto shift = [&](const Path& x) { if (!ok || x.size() < p.size() || !std::equal(p.begin(), p.end(), x.begin())) return x; Path y = np; y.insert(y.end(), x.begin() + (long)p.size(), x.end()); return y; };
				for (auto& b : boxes) { auto x = W.boxes.find(shift(b.first)); VH_CHECK(x != W.boxes.end() && x->second == b.second, "rename", "mailbox " << show(b.first)); } VH_CHECK(ofP(f->getFullPath()) == shift(p), "rename", "path of the folder"); VH_EQ(f->getName().getConvertedText(vmime::charset("utf-8")), shift(p).back(), "rename", "name");
				for (size_t i = 0; i < subs.size(); ++i) { VH_CHECK(ofP(subs[i].first->getFullPath()) == shift(subs[i].second), "rename", "path of the folder " << show(subs[i].second) << " is " << show(ofP(subs[i].first->getFullPath()))); VH_EQ(sw[i]->folder.size(), (size_t)(shift(subs[i].second) != subs[i].second), "events", "notifications of a renamed parent"); subs[i].first->removeFolderListener(sw[i].get()); } for (auto& o : open) { VH_CHECK(ofP(o.f->getFullPath()) == o.box->path, "rename", "path of an open folder"); o.w->folder.clear(); }
				if (ok) { ev.push_back("renamed"); c.count("folders renamed"); std::set<Path> nr; for (auto& x : roBoxes) nr.insert(shift(x)); roBoxes = nr; for (auto& x : srvs) x->readOnlyBoxes = roBoxes; } break; }
			case 6: { if (!have || it->second->noselect || isOpenPath(p, false)) break; size_t a = 0, u = 0, un = 0; for (auto& m : it->second->msgs) un += !m->flags.count("\\Seen"); note(what = "status " + show(p)); shared_ptr<vi::IMAPFolderStatus> fs; bool ok = op(s, what, [&] { if (r.coin()) f->status(a, u); else { fs = std::dynamic_pointer_cast<vi::IMAPFolderStatus>(f->getStatus()); a = fs->getMessageCount(); u = fs->getUnseenCount(); } }); if (ok) { VH_EQ(a, it->second->msgs.size(), "status", "messages"); VH_EQ(u, un, "status", "unseen"); if (fs) { VH_EQ((unsigned long)fs->getUIDNext(), it->second->next, "status", "UIDNEXT"); VH_EQ((unsigned long)fs->getUIDValidity(), it->second->validity, "status", "UIDVALIDITY"); if (W.condstore) VH_EQ((unsigned long)fs->getHighestModSeq(), it->second->modseq, "status", "HIGHESTMODSEQ"); } c.count("status"); } break; }
		}
		if (what.empty()) what = "nothing"; VH_EQ(join(w->folder), join(ev), "events", "folder notifications after " + what); c.seen("operations", what.substr(0, 8)); compareAll(what);
	}
	void run() {
		net.ch = netChunking(r); W.sep = r.pick(std::vector<char>{'/', '/', '.', '\\'}); W.uidplus = r.chance(3, 4); W.condstore = r.chance(1, 3); W.specialUse = r.coin(); W.children = r.chance(3, 4); W.saslIr = r.coin(); W.existsAfter = r.coin(); W.caps = (int)r.below(8); W.eager = r.coin(); W.greeting = r.chance(1, 10);
		W.user = r.pickc({"user", "joe smith", "a\"b\\c", "x@example.test", "us{er"}); W.pass = r.pickc({"secret", "pass word", "p\"\\w", "(x)", "%d*", "]}"}); if (r.coin()) W.sasl = {"PLAIN"};
		W.make({"INBOX"}); for (size_t n = r.below(7); n-- > 0;) W.make(genIPath(r, W.sep))->special = W.specialUse && r.chance(1, 3) ? r.pickc({"\\Sent", "\\Trash", "\\Drafts", "\\Junk", "\\All", "\\Archive", "\\Flagged"}) : str();
		for (auto& b : W.boxes) { if (b.second->noselect) continue; for (size_t n = r.below(5); n-- > 0;) W.add(*b.second, genIMsg(r, W)); if (r.chance(1, 8)) roBoxes.insert(b.first); }
		bool codeRW = r.chance(3, 4); std::map<str, int> plan; if (r.chance(2, 3)) for (auto v : {"SELECT", "EXAMINE", "LIST", "FETCH", "STORE", "COPY", "APPEND", "EXPUNGE", "STATUS", "CREATE", "DELETE", "RENAME", "NOOP", "SEARCH", "CLOSE"}) if (r.chance(1, 5)) plan[v] = 1 + (int)r.below(4);
		net.make = [&, codeRW, plan]() { auto s = std::make_shared<ImapServer>(W, r.next()); s->codeRW = codeRW; s->readOnlyBoxes = roBoxes; if (srvs.empty()) { s->refuseOnce = plan; if (s->refuseOnce.count("LIST") && s->refuseOnce["LIST"] == 1) s->refuseOnce.erase("LIST"); } else { s->refuseOnce = plan; s->refuseOnce.erase("LIST"); } srvs.push_back(s); return s; };
		auto sess = vn::session::create(); auto& P = sess->getProperties(); P["store.imap.server.address"] = "imap.example.test"; P["store.imap.auth.username"] = W.user; P["store.imap.auth.password"] = W.pass; if (r.coin()) P["store.imap.options.sasl"] = false;
		st = sess->getStore("imap"); st->setSocketFactory(make_shared<VSocketFactory>(net)); note(str("sep ") + W.sep + " caps " + std::to_string(W.caps) + (W.condstore ? " condstore" : "") + (W.eager ? " eager" : "") + " " + net.ch.describe());
		try {
			st->connect(); protocol(); VH_EQ(st->isConnected(), true, "connected", "connect()"); VH_CHECK(main().authed, "connected", "not logged in"); c.count("sessions");
			for (size_t steps = 4 + r.below(c.thorough ? 40 : 20); steps-- > 0;) {
				others();
				if (open.empty() ? r.chance(2, 3) : r.chance(1, 10)) { if (open.size() < 3) openFolder(); compareAll("open"); }
				else if (!open.empty() && r.chance(1, 14)) { closeFolder(r.below(open.size()), r.coin()); compareAll("close"); }
				else if (!open.empty() && r.chance(4, 5)) work(open[r.below(open.size())]);
				else if (r.chance(1, 12)) { note("store noop"); unsigned b = refusedTotal(); try { st->noop(); VH_EQ(refusedTotal(), b, "false-success", "noop"); } catch (const vmime::exceptions::command_error&) { VH_CHECK(refusedTotal() > b, "false-failure", "noop"); } compareAll("store noop"); }
				else tree();
			}
			if (r.coin()) while (!open.empty()) { size_t n = open.size(); closeFolder(0, r.coin()); if (open.size() == n) closeFolder(0, false); if (open.size() == n) break; }
			for (auto& o : open) { o.f->removeMessageChangedListener(o.w.get()); o.f->removeMessageCountListener(o.w.get()); o.f->removeFolderListener(o.w.get()); }
			st->disconnect(); VH_EQ(st->isConnected(), false, "disconnected", "disconnect()"); VH_CHECK(main().loggedOut, "logout", "no LOGOUT"); protocol();
			for (auto& o : open) { bool t = false; try { std::dynamic_pointer_cast<vi::IMAPFolder>(o.f)->noop(); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "disconnected", "noop() of a folder after disconnect()"); }
			open.clear();
		} catch (const Hang& h) { str x; for (auto& s : srvs) if (!s->commands.empty()) x += q(s->commands.back()) + " "; fail("hang", h.what + " after " + log + x); }
		catch (const vmime::exceptions::command_error& e) { protocol(); fail("exception", excName(e) + " " + q(e.response()) + " after " + log); }
		catch (const vmime::exception& e) { protocol(); fail("exception", excName(e) + " after " + log); }
		catch (const std::exception& e) { fail("undocumented-exception", excName(e) + " after " + log); }
		st.reset(); VH_EQ(net.live, 0u, "socket-leak", "sockets still open"); c.nontrivial(log); c.seen("chunking", net.ch.describe());
	}
};
static void session(Ctx& c) { Session s(c); s.run(); }
static void login(Ctx& c) {
	Rng& r = c.rng; IWorld W; Net net(r.next()); net.ch = netChunking(r); W.user = r.from("abAB1 .@\"\\(){}%*]", 1 + r.below(10)); W.pass = r.from("ab1 \"\\(){}%*]~!", 1 + r.below(12)); W.greeting = (int)r.below(8); if (W.greeting > 2) W.greeting = 0; W.saslIr = r.coin(); W.caps = (int)r.below(8); if (r.coin()) W.sasl.push_back("PLAIN"); if (r.chance(1, 4)) W.sasl.push_back("X-OTHER"); W.make({"INBOX"});
	bool right = r.coin(), sasl = r.coin(), fb = r.coin(); str given = right ? W.pass : W.pass + "x"; std::vector<std::shared_ptr<ImapServer>> srvs; net.make = [&]() { srvs.push_back(std::make_shared<ImapServer>(W, r.next())); return srvs.back(); };
	auto sess = vn::session::create(); auto& P = sess->getProperties(); P["store.imap.server.address"] = "h"; P["store.imap.auth.username"] = W.user; P["store.imap.auth.password"] = given; P["store.imap.options.sasl"] = sasl; P["store.imap.options.sasl.fallback"] = fb; auto st = sess->getStore("imap"); st->setSocketFactory(make_shared<VSocketFactory>(net)); c.note("user " + q(W.user) + " pass " + q(given) + " right " + std::to_string(right) + " sasl " + std::to_string(sasl) + std::to_string(fb) + " offered " + join(W.sasl) + " greeting " + std::to_string(W.greeting) + " caps " + std::to_string(W.caps));
	bool threw = false, plain = !W.sasl.empty() && W.sasl[0] == "PLAIN"; str what; try { st->connect(); } catch (const Hang& h) { fail("hang", h.what); } catch (const vmime::exception& e) { threw = true; what = excName(e); }
	if (srvs.size() && !srvs[0]->badMsg.empty()) fail("protocol", srvs[0]->badMsg);
	bool expOk = W.greeting == 1 || (W.greeting == 0 && right && (!sasl || fb || plain)); VH_EQ(!threw, expOk, "login", "logged in (" + what + ")"); VH_EQ(st->isConnected(), expOk, "login", "connected"); if (W.greeting == 0) VH_EQ(srvs[0]->authed, expOk, "login", "server side");
	if (!threw) { bool again = false; try { st->connect(); } catch (const vmime::exceptions::already_connected&) { again = true; } VH_CHECK(again, "already-connected", "second connect()"); st->disconnect(); } else { try { st->disconnect(); fail("not-connected", "disconnect() succeeded"); } catch (const vmime::exceptions::not_connected&) {} }
	c.nontrivial(given + W.user); c.seen("login", what + std::to_string(expOk));
}
// names, text and sets the protocol cannot carry are refused before anything is sent
static void hostile(Ctx& c) {
	Rng& r = c.rng; IWorld W; Net net(r.next()); net.ch = netChunking(r); W.make({"INBOX"}); for (int i = 0; i < 3; ++i) W.add(*W.boxes[{"INBOX"}], genIMsg(r, W)); std::vector<std::shared_ptr<ImapServer>> srvs; net.make = [&]() { srvs.push_back(std::make_shared<ImapServer>(W, r.next())); return srvs.back(); };
	auto sess = vn::session::create(); auto& P = sess->getProperties(); P["store.imap.server.address"] = "h"; P["store.imap.auth.username"] = "user"; P["store.imap.auth.password"] = "secret"; P["store.imap.options.sasl"] = false; int kind = (int)r.below(4); str bad = r.pickc({"a\r\nx1 DELETE INBOX", "a\nb", "\r", "x\r\n"}) + r.from("ab", r.below(3)); if (r.chance(1, 4)) bad += str(1, '\0'); if (kind == 0) P["store.imap.auth.password"] = bad; if (kind == 1) P["store.imap.auth.username"] = bad;
	auto st = sess->getStore("imap"); st->setSocketFactory(make_shared<VSocketFactory>(net)); c.note("kind " + std::to_string(kind) + " " + q(bad)); bool threw = false;
	try {
		st->connect(); if (kind <= 1) fail("hostile", "logged in"); auto f = std::dynamic_pointer_cast<vi::IMAPFolder>(st->getDefaultFolder()); f->open(vn::folder::MODE_READ_WRITE); ImapServer& s = *srvs.back(); size_t n = s.commands.size();
		if (kind == 2) { vi::IMAPSearchAttributes sa; sa.add(r.coin() ? T::SUBJECT(bad) : r.coin() ? T::HEADER("X-A", bad) : T::TEXT(bad)); try { f->getMessageNumbersMatchingSearchAttributes(sa); } catch (const vmime::exception&) { threw = true; } }
		else switch (r.below(3)) { case 0: try { f->setMessageFlags(vn::messageSet::empty(), M::FLAG_SEEN, M::FLAG_MODE_ADD); } catch (const vmime::exception&) { threw = true; } break; case 1: try { f->copyMessages(vn::folder::path("INBOX"), vn::messageSet::empty()); } catch (const vmime::exception&) { threw = true; } break; default: try { f->deleteMessages(vn::messageSet::empty()); } catch (const vmime::exception&) { threw = true; } }
		if (!s.badMsg.empty()) fail("protocol", s.badMsg); VH_CHECK(threw, "hostile", "accepted"); VH_EQ(s.commands.size(), n, "hostile", "commands sent"); f->close(false); st->disconnect();
	} catch (const Hang& h) { fail("hang", h.what); } catch (const vmime::exception& e) { if (kind > 1) fail("exception", excName(e)); }
	for (auto& s : srvs) { if (!s->badMsg.empty()) fail("protocol", s->badMsg); VH_EQ(kind <= 1 && s->seen.count("DELETE") ? 1 : 0, 0, "hostile", "injected command"); } VH_EQ(W.boxes.size(), (size_t)1, "hostile", "mailboxes"); c.nontrivial(bad + std::to_string(kind)); c.count("hostile values");
}
void vh::setup() {
	setRule("A conforming IMAP4rev1 server in the same process (mailbox tree with names of any characters, messages of known structure; UIDPLUS, CONDSTORE, SPECIAL-USE, CHILDREN, SASL-IR, LITERAL and quoted strings varied) is shared by the client's "
		"connections and by other clients that add, remove and flag messages at any time; it announces the changes at any permitted moment, parses every command strictly, refuses commands according to a plan and delivers replies in pieces of random size. "
		"After every operation through the public interface the message count, numbers, UIDs, flags, expunged state and the sequence of change notifications of every open folder equal what was announced; "
		"sizes, envelopes, structures, header fields, whole and partial contents, parts, searches, copies, appended data, flags, folder trees, paths, attributes and status equal the server's.");
	addAssumption("a server does not announce expunged messages during FETCH, STORE and SEARCH by number (RFC 3501 7.4.1)");
	addSuite("session", 2500, 60000, session, 20);
	addSuite("login", 1000, 20000, login);
	addSuite("hostile", 400, 6000, hostile);
}
