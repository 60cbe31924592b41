// N03: a POP3 store driven at random against a conforming server; contents, numbers, UIDs and deletions compared with the server's.
#include "vpop3.hpp"
#include <vmime/net/pop3/pop3.hpp>
#include "vmsg.hpp"
using namespace vh;
typedef vn::fetchAttributes FA;
struct Stamp : PopServer { using PopServer::PopServer; str md5(const str& s) { auto d = vmime::security::digest::messageDigestFactory::getInstance()->create("md5"); d->update(s); d->finalize(); return d->getHexDigest(); } };

static str genPopMsg(Rng& r) {
	switch (r.below(8)) {
		case 0: return popLines(r);
		case 1: return r.coin() ? "" : "\r\n";
		default: {
			str h; for (size_t i = 1 + r.below(5); i-- > 0;) h += r.pickc({"Subject: .x", "From: a@b.example", "X-Dots: ..", "X-Long: a\r\n .b", "Date: Sat, 01 Jan 2022 00:00:00 +0000", "To: x@y.example, z@w.example"}) + "\r\n";
			return h + "\r\n" + popLines(r);
		}
	}
}
static str noEnd(const str& s) { return s.size() >= 2 ? s.substr(0, s.size() - 2) : s; }
struct Watch : vn::events::messageChangedListener, vn::events::messageCountListener {
	std::vector<std::vector<size_t>> changed, added, removed;
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) { changed.push_back(e->getNumbers()); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) { added.push_back(e->getNumbers()); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) { removed.push_back(e->getNumbers()); }
};
struct Prog : vmime::utility::progressListener { size_t last = 0, starts = 0, stops = 0; bool bad = false; void start(const size_t) { ++starts; } void progress(const size_t c, const size_t t) { if (c < last || c > t) bad = true; last = c; } void stop(const size_t) { ++stops; } };

static void session(Ctx& c) {
	Rng& r = c.rng; Net net(r.next()); net.ch = netChunking(r);
	std::vector<PopMsg> box; size_t n0 = r.below(9); if (r.chance(1, 10)) n0 = 0;
	auto fill = [&](size_t n) { while (n--) { PopMsg m; m.content = genPopMsg(r); m.uid = r.coin() ? "u" + std::to_string(box.size()) + r.from("abcXYZ!.;=-0189", 1 + r.below(20)) : std::to_string(r.below(1000000)) + "." + std::to_string(box.size()); box.push_back(m); } };
	fill(n0);
	PopConf conf; conf.seed = r.next(); conf.capa = r.coin(); conf.uidl = !r.chance(1, 8); conf.top = !r.chance(1, 8); conf.apop = r.coin();
	conf.stamp = r.pickc({"<1896.697170952@dbc.mtview.ca.us>", "<a@b>", "<x.y.z-1@[10.0.0.1]>"}); conf.user = r.pickc({"user", "user@example.test", "a b"}); conf.pass = r.pickc({"secret", "pass word", "p\xc3\xa4ss"});
	if (conf.user == "a b") conf.apop = false;
	if (r.chance(2, 3)) for (auto v : {"STAT", "RETR", "TOP", "LIST", "UIDL", "DELE", "NOOP", "CAPA"}) if (r.chance(1, 5)) conf.refuseOnce[v] = 1 + (int)r.below(3);
	conf.junk = r.chance(1, 4); std::vector<std::shared_ptr<Stamp>> srvs; net.make = [&]() { auto s = std::make_shared<Stamp>(conf, &box); srvs.push_back(s); return s; };
	auto sess = vn::session::create(); sess->getProperties()["store.pop3.server.address"] = "pop.example.test"; sess->getProperties()["store.pop3.auth.username"] = conf.user; sess->getProperties()["store.pop3.auth.password"] = conf.pass;
	if (r.coin()) sess->getProperties()["store.pop3.options.sasl"] = false;
	if (r.chance(1, 3)) sess->getProperties()["store.pop3.options.apop"] = false;
	auto st = sess->getStore("pop3"); st->setSocketFactory(make_shared<VSocketFactory>(net));
	str log = str("apop ") + (conf.apop ? conf.stamp : "no") + " " + net.ch.describe() + " " + std::to_string(box.size()) + " messages; ";
	auto note = [&](const str& s) { log += s + "; "; c.note(log); };
	c.note(log);
	auto lastRefused = [&](PopServer& s, unsigned before) { return s.refused > before; };
	try {
	for (int sessions = 1 + (int)r.below(2); sessions-- > 0;) {
		st->connect(); VH_EQ(st->isConnected(), true, "connected", "after connect()");
		Stamp& s = *srvs.back(); c.count("sessions");
		auto mustThrow = [&](unsigned before, const vmime::exception& e, const str& what) { if (s.refused == before) fail("false-failure", what + ": " + excName(e) + " although the server refused nothing"); c.count("refusals"); };
		auto f = r.coin() ? st->getDefaultFolder() : st->getRootFolder()->getFolders(false).at(0);
		bool isOpen = false; size_t guard = 0; Watch w; f->addMessageChangedListener(&w); f->addMessageCountListener(&w);
		while (!isOpen && guard++ < 5) { unsigned b = s.refused; try { f->open(vn::folder::MODE_READ_WRITE); isOpen = true; VH_CHECK(!lastRefused(s, b), "false-success", "open() although STAT was refused"); } catch (const vmime::exception& e) { mustThrow(b, e, "open"); } }
		if (!isOpen) { st->disconnect(); continue; }
		std::vector<str> snapshot, uids; for (auto& m : box) snapshot.push_back(m.content), uids.push_back(m.uid);
		std::set<size_t> deleted; std::vector<shared_ptr<vn::message>> held;
		VH_EQ(f->getMessageCount(), snapshot.size(), "count", "getMessageCount()");
		for (size_t step = 0, steps = 1 + r.below(12); step < steps; ++step) {
			unsigned before = s.refused; size_t N = snapshot.size();
			switch (r.below(9)) {
				case 0: { note("noop"); try { st->noop(); VH_CHECK(!lastRefused(s, before), "false-success", "noop()"); } catch (const vmime::exception& e) { mustThrow(before, e, "noop"); } break; }
				case 1: case 2: { // content
					size_t k = N && !r.chance(1, 15) ? 1 + r.below(N) : N + 1 + r.below(3); note("extract " + std::to_string(k));
					shared_ptr<vn::message> m;
					try { m = f->getMessage(k); } catch (const vmime::exceptions::message_not_found&) { VH_CHECK(k > N, "number", "message " << k << " not found, there are " << N); break; }
					VH_CHECK(k <= N, "number", "message " << k << " found, there are " << N); VH_EQ(m->getNumber(), k, "number", "getNumber()");
					str out; vmime::utility::outputStreamStringAdapter os(out); Prog p; held.push_back(m);
					bool partial = r.chance(1, 10);
					try {
						if (partial) { size_t a = r.below(3), l = r.coin() ? r.below(20) : (size_t)-1; if (!a && l == (size_t)-1) a = 1; size_t have = s.acted.size();
							try { m->extract(os, nullptr, a, l); str e = noEnd(snapshot[k - 1]); VH_EQ(out, a > e.size() ? str() : e.substr(a, l), "partial", "partial extraction from " << a); }
							catch (const vmime::exceptions::partial_fetch_not_supported&) { VH_EQ(s.acted.size(), have, "partial", "commands sent"); VH_EQ(out, str(), "partial", "data"); }
						} else if (r.coin()) { m->extract(os, r.coin() ? &p : nullptr); VH_CHECK(out == noEnd(snapshot[k - 1]), "content", "message " << k << " is " << q(out.substr(0, 400)) << " (" << out.size() << ") expected " << q(snapshot[k - 1].substr(0, 400)) << " (" << snapshot[k - 1].size() << ")"); VH_CHECK(p.starts == p.stops && !p.bad, "progress", "progress"); c.count("messages retrieved"); }
						else { auto pm = m->getParsedMessage(); vmime::message ref; ref.parse(noEnd(snapshot[k - 1])); VH_EQ(uHeader(*pm->getHeader()), uHeader(*ref.getHeader()), "content", "parsed header"); VH_EQ(rawContents(*pm->getBody()->getContents()), rawContents(*ref.getBody()->getContents()), "content", "parsed body"); c.count("messages retrieved"); }
						VH_CHECK(!lastRefused(s, before), "false-success", "extract although refused");
						if (!partial) { VH_CHECK(!deleted.count(k), "deleted", "a deleted message was retrieved"); VH_CHECK(!s.acted.empty() && s.acted.back() == std::make_pair(str("RETR"), k), "wrong-message", "RETR of another message"); }
					} catch (const vmime::exceptions::command_error& e) { mustThrow(before, e, "extract"); VH_CHECK(str(e.response()).find(s.lastErr) != str::npos, "error-text", "error " << e.response() << ", server said " << s.lastErr); }
					break; }
				case 3: case 4: { // fetch
					if (!N) break;
					std::vector<shared_ptr<vn::message>> ms; vmime::net::messageSet set = vn::messageSet::empty(); std::set<size_t> want; bool single = r.coin();
					if (r.chance(1, 3)) { set = vn::messageSet::byNumber(1, -1); for (size_t i = 1; i <= N; ++i) want.insert(i); }
					else { std::vector<size_t> l; for (size_t i = 1 + r.below(4); i-- > 0;) l.push_back(1 + r.below(N)); set = vn::messageSet::byNumber(l); want.insert(l.begin(), l.end()); }
					int at = 0; if (r.coin()) at |= FA::SIZE; if (r.coin()) at |= FA::UID; if (r.coin()) at |= r.coin() ? FA::FULL_HEADER : FA::ENVELOPE; FA fa(at); note("fetch " + std::to_string(at) + " of " + std::to_string(want.size()));
					ms = f->getMessages(set); VH_EQ(ms.size(), want.size(), "set", "messages in the set");
					bool threw = false;
					try { if (single) for (auto& m : ms) f->fetchMessage(m, fa); else if (r.coin()) { Prog p; f->fetchMessages(ms, fa, &p); VH_CHECK(p.starts == 1 && p.stops == 1 && !p.bad, "progress", "fetchMessages progress"); } else ms = f->getAndFetchMessages(set, fa); }
					catch (const vmime::exceptions::command_error& e) { mustThrow(before, e, "fetch"); threw = true; }
					if (!(at & (FA::FULL_HEADER | FA::ENVELOPE)) ) {}
					bool anyDeleted = false; for (auto& m : ms) anyDeleted |= deleted.count(m->getNumber()) > 0;
					if (!threw && lastRefused(s, before) && !anyDeleted && (at & (FA::FULL_HEADER | FA::ENVELOPE)) && !(at & (FA::SIZE | FA::UID))) fail("false-success", "fetch succeeded although refused");
					for (auto& m : ms) {
						size_t k = m->getNumber(); VH_CHECK(want.count(k), "set", "message " << k << " was not asked for"); held.push_back(m);
						if (at & FA::SIZE) try { VH_EQ(m->getSize(), snapshot[k - 1].size(), "size", "size of message " << k); } catch (const vmime::exceptions::unfetched_object&) { VH_CHECK(threw || lastRefused(s, before) || deleted.count(k), "unfetched", "size of " << k); }
						if (at & FA::UID) { if (str(m->getUID()).empty()) VH_CHECK(threw || lastRefused(s, before) || deleted.count(k), "unfetched", "uid of " << k); else { VH_EQ(str(m->getUID()), uids[k - 1], "uid", "uid of message " << k); c.count("uids"); } }
						if (at & (FA::FULL_HEADER | FA::ENVELOPE)) try { auto h = m->getHeader(); vmime::header ref; ref.parse(PopServer::header(snapshot[k - 1])); VH_EQ(uHeader(*h), uHeader(ref), "header", "header of message " << k); c.count("headers"); } catch (const vmime::exceptions::unfetched_object&) { VH_CHECK(threw, "unfetched", "header of " << k); }
					}
					break; }
				case 5: { // delete
					if (!N) break;
					std::vector<size_t> l; for (size_t i = 1 + r.below(3); i-- > 0;) l.push_back(1 + r.below(N)); std::set<size_t> want(l.begin(), l.end()); note("delete " + std::to_string(l[0]) + " and " + std::to_string(l.size() - 1) + " more");
					size_t a0 = s.acted.size(); size_t ev = w.changed.size(); std::vector<shared_ptr<vn::message>> mm; for (size_t k : want) mm.push_back(f->getMessage(k));
					bool threw = false;
					try { f->deleteMessages(vn::messageSet::byNumber(l)); VH_CHECK(!lastRefused(s, before), "false-success", "deleteMessages"); }
					catch (const vmime::exceptions::command_error& e) { mustThrow(before, e, "deleteMessages"); threw = true; }
					std::set<size_t> did; for (size_t i = a0; i < s.acted.size(); ++i) { VH_EQ(s.acted[i].first, str("DELE"), "delete", "command"); did.insert(s.acted[i].second); }
					for (size_t k : did) VH_CHECK(want.count(k), "wrong-message", "deleted " << k << ", not asked for");
					if (!threw) { VH_EQ(did.size(), want.size(), "delete", "messages deleted"); VH_EQ(w.changed.size(), ev + 1, "event", "notifications"); std::set<size_t> en(w.changed.back().begin(), w.changed.back().end()); VH_CHECK(en == want, "event", "numbers in the notification"); c.count("deletions"); }
					for (auto& m : mm) { bool fl = (m->getFlags() & vn::message::FLAG_DELETED) != 0; bool is = did.count(m->getNumber()); if (!deleted.count(m->getNumber())) VH_EQ(fl, is, "deleted-flag", "deleted flag of message " << m->getNumber()); }
					deleted.insert(did.begin(), did.end());
					break; }
				case 6: { note("status"); try { size_t a = 0, u = 0; if (r.coin()) { f->status(a, u); } else { auto x = f->getStatus(); a = x->getMessageCount(); } VH_CHECK(!lastRefused(s, before), "false-success", "status"); VH_EQ(a, N - deleted.size(), "status", "messages"); } catch (const vmime::exceptions::command_error& e) { mustThrow(before, e, "status"); } break; }
				case 7: { note("wrong use"); // requests the protocol cannot serve are refused without a command
					size_t cmds = s.commands.size(); bool threw = false;
					try { switch (r.below(7)) { case 0: f->setMessageFlags(vn::messageSet::byNumber(1), vn::message::FLAG_SEEN); break; case 1: f->getMessages(vn::messageSet::byUID("1")); break; case 2: f->getMessages(vn::messageSet::byNumber(N + 1)); break; case 3: f->create(vn::folderAttributes()); break;
						case 4: f->copyMessages(vn::folder::path(), vn::messageSet::byNumber(1)); break; case 5: st->getFolder(vn::folder::path(vn::folder::path::component("Other")))->open(vn::folder::MODE_READ_ONLY); break; case 6: f->getMessage(0); break; } } catch (const vmime::exception&) { threw = true; }
					VH_CHECK(threw, "wrong-use", "accepted"); VH_EQ(s.commands.size(), cmds, "wrong-use", "commands sent");
					break; }
				case 8: { size_t k = held.size(); if (k) { auto m = held[r.below(k)]; VH_CHECK(m->getNumber() >= 1 && m->getNumber() <= N, "number", "held message"); held.erase(held.begin() + (long)r.below(k)); } break; }
			}
			if (!s.badMsg.empty()) fail("protocol", s.badMsg);
		}
		// end of the session
		VH_EQ(w.added.size() + w.removed.size(), (size_t)0, "event", "count notifications although nothing arrived or left");
		bool expunge = r.coin(); std::vector<str> expect; note(expunge ? "close(true)" : "close(false)");
		int how = (int)r.below(3);
		if (how == 2 && !expunge) { f->removeMessageChangedListener(&w); f->removeMessageCountListener(&w); f.reset(); } else f->close(expunge);
		for (auto& m : held) { bool t = false; try { str x; vmime::utility::outputStreamStringAdapter os(x); m->extract(os); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "extract() on a closed folder"); }
		if (expunge) { for (size_t i = 0; i < uids.size(); ++i) if (!deleted.count(i + 1)) expect.push_back(uids[i]); } else expect = uids;
		if (r.chance(1, 6)) fill(0);
		st->disconnect(); VH_EQ(st->isConnected(), false, "disconnected", "after disconnect()"); VH_CHECK(s.quit, "quit", "no QUIT");
		if (!s.badMsg.empty()) fail("protocol", s.badMsg);
		std::vector<str> left; for (auto& m : box) left.push_back(m.uid);
		VH_CHECK(left == expect, "final-state", left.size() << " messages left, expected " << expect.size() << ", after " << (expunge ? "close(true)" : "close(false)"));
		if (r.coin()) fill(r.below(3));
	}
	} catch (const Hang& h) { fail("hang", h.what + " after " + log + [&] { str x; auto& v = srvs.back()->commands; for (size_t i = v.size() > 3 ? v.size() - 3 : 0; i < v.size(); ++i) x += q(v[i]) + " "; return x; }()); }
	catch (const vmime::exception& e) { fail("exception", excName(e) + " after " + log); }
	catch (const std::exception& e) { fail("undocumented-exception", excName(e)); }
	st.reset(); VH_EQ(net.live, 0u, "socket-leak", "sockets still open");
	c.nontrivial(log); c.seen("chunking", net.ch.describe());
}
static void login(Ctx& c) {
	Rng& r = c.rng; Net net(r.next()); net.ch = netChunking(r); std::vector<PopMsg> box; PopConf conf; conf.seed = r.next(); conf.apop = r.coin(); conf.capa = r.coin(); conf.greeting = r.chance(1, 8);
	conf.stamp = "<" + r.from("abc123.-", 1 + r.below(10)) + "@" + r.from("abc123.-", 1 + r.below(10)) + ">"; conf.user = r.from("abcABC123.@", 1 + r.below(10)); conf.pass = r.from("abc %!?\"\\<>@.", 1 + r.below(12)); while (conf.pass[0] == ' ' || conf.pass.back() == ' ') conf.pass = "p" + conf.pass + "q";
	bool right = r.coin(); str given = right ? conf.pass : conf.pass + "x";
	std::shared_ptr<Stamp> srv; net.make = [&]() { return srv = std::make_shared<Stamp>(conf, &box); };
	auto sess = vn::session::create(); auto& p = sess->getProperties(); p["store.pop3.server.address"] = "h"; p["store.pop3.auth.username"] = conf.user; p["store.pop3.auth.password"] = given;
	bool apop = r.coin(), fb = r.coin(), sasl = r.coin(), sfb = r.coin(); p["store.pop3.options.apop"] = apop; p["store.pop3.options.apop.fallback"] = fb; p["store.pop3.options.sasl"] = sasl; p["store.pop3.options.sasl.fallback"] = sfb;
	auto st = sess->getStore("pop3"); st->setSocketFactory(make_shared<VSocketFactory>(net));
	c.note("user " + q(conf.user) + " pass " + q(given) + " right " + std::to_string(right) + " apop " + std::to_string(apop) + std::to_string(conf.apop) + std::to_string(fb) + " sasl " + std::to_string(sasl) + std::to_string(sfb) + " " + conf.stamp);
	bool threw = false; str what;
	try { st->connect(); } catch (const Hang& h) { fail("hang", h.what); } catch (const vmime::exception& e) { threw = true; what = excName(e); }
	bool expOk = right && !conf.greeting && (!sasl || sfb) && (!apop || conf.apop || fb);
	VH_EQ(!threw, expOk, "login", "logged in (" + what + ")"); VH_EQ(st->isConnected(), expOk, "login", "connected");
	if (!srv->badMsg.empty()) fail("protocol", srv->badMsg);
	VH_EQ(srv->authed, expOk, "login", "server side");
	if (apop && conf.apop && !sasl) for (auto& l : srv->commands) VH_CHECK(l.compare(0, 4, "PASS") || (fb && !right), "apop-avoids-password", "plain password sent although APOP is available");
	if (!threw) { bool again = false; try { st->connect(); } catch (const vmime::exceptions::already_connected&) { again = true; } VH_CHECK(again, "already-connected", "second connect()"); st->disconnect(); }
	else { try { st->disconnect(); fail("not-connected", "disconnect() succeeded"); } catch (const vmime::exceptions::not_connected&) {} }
	c.nontrivial(conf.stamp + given); c.seen("login", what + std::to_string(expOk));
}
void vh::setup() {
	setRule("A conforming POP3 server in the same process holds random messages (dot lines, bare CR, 8 bit data, no header, empty), refuses commands according to a plan, checks the syntax of every command and that none is sent before the previous reply "
		"was read, and delivers its replies in pieces of random size. Random operations through the public store/folder/message interface are compared with the server's mailbox: contents byte for byte (without the last line break), "
		"numbers, sizes, UIDs, headers, deleted flags, notifications, errors for every refused command, and the mailbox left after QUIT.");
	addAssumption("messages on the server consist of lines ending in CRLF; a bare LF in them is not followed by a dot");
	addSuite("session", 5000, 120000, session);
	addSuite("login", 1000, 20000, login);
}
