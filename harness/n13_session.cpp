// N13: a service connects to the server, port and account that the URL or the session's properties name, and a protocol name gives the service of that name.
#include "vauth.hpp"
#include "vmaildir.hpp"
#include <vmime/net/connectionInfos.hpp>
using namespace vh;

struct Proto { const char* name; bool store; unsigned port; bool tls; };
static const Proto protos[] = {{"imap", true, 143, false}, {"imaps", true, 993, true}, {"pop3", true, 110, false}, {"pop3s", true, 995, true}, {"smtp", false, 25, false}, {"smtps", false, 465, true}};
static str pctEnc(Rng& r, const str& s, const str& plain) { str o; for (unsigned char c : s) { bool must = !isalnum(c) && plain.find((char)c) == str::npos; if (must || r.chance(1, 8)) { char b[4]; snprintf(b, sizeof b, r.coin() ? "%%%02x" : "%%%02X", c); o += b; } else o += (char)c; } return o; }
static str mixCase(Rng& r, str s) { if (r.chance(1, 4)) for (auto& c : s) if (r.coin()) c = (char)toupper(c); return s; }

struct Sniff : Server { str got; bool done = false; void received() { got += in; in.clear(); if (got.size() >= 3) { closed = true; } } };   // the peer of a TLS client: hangs up

struct Target { const Proto* p; str host, user, pass; unsigned port = 0; bool login = false; };
static Target genTarget(Rng& r) {
	Target t; t.p = &protos[r.below(6)];
	switch (r.below(4)) { case 0: t.host = r.from("abcdefgh", 1 + r.below(6)) + "." + r.from("abc-0", 4) + "x.example"; break; case 1: t.host = "127.0.0." + std::to_string(1 + r.below(254)); break; case 2: t.host = "::" + std::to_string(1 + r.below(9)); break; default: t.host = r.from("ABCDefgh_", 1 + r.below(10)); }
	if (r.coin()) t.port = r.chance(1, 8) ? (unsigned)r.pick(std::vector<int>{1, 65534, 143, 993, 25, 80, 32768}) : 1 + (unsigned)r.below(65534);
	t.login = r.chance(3, 4);
	bool imap = str(t.p->name) == "imap";
	t.user = r.from("abcXYZ019", 1 + r.below(6)) + (r.coin() ? r.from(imap ? "ab@:/%?#&+=;. \\\"" : "ab@:/%?#&+=;.", 1 + r.below(6)) : "") + "u";
	t.pass = r.chance(1, 10) ? "" : "p" + r.from("abc019@:/%?#&+=;.!*()[]{}<>'\"\\ ", r.below(12)) + "w"; if (t.pass.empty()) t.pass = "x";
	return t;
}
// what a client did with one connection
struct Wire { Net net; AuthConf A; std::vector<SmtpPlan> plans; size_t next = 0; std::vector<PopMsg> box; IWorld W; std::vector<std::shared_ptr<Server>> keep; Target expectT; const Target* expect = nullptr;
	explicit Wire(Rng& r, const Target& t) : net(r.next()), expectT(t), expect(&expectT) {
		net.ch = netChunking(r); A.user = t.user; A.pass = t.pass; A.mechs = {"PLAIN"}; W.make({"INBOX"}); W.user = t.user; W.pass = t.pass; uint64_t seed = r.next();
		net.make = [this, seed]() -> std::shared_ptr<Server> {
			std::shared_ptr<Server> s; str n = expect->p->name;
			if (expect->p->tls) s = std::make_shared<Sniff>();
			else if (n == "smtp") { SmtpConf c; c.seed = seed; c.ehlo = true; c.exts = {"AUTH PLAIN", "SIZE 1000"}; s = std::make_shared<AuthSmtp>(c, &plans, &next, &A); }
			else if (n == "pop3") { PopConf c; c.seed = seed; c.user = A.user; c.pass = A.pass; s = std::make_shared<AuthPop>(c, &box, &A); }
			else s = std::make_shared<AuthImap>(W, seed, &A);
			keep.push_back(s); return s;
		};
	}
};
static std::vector<std::unique_ptr<Wire>> wires;   // (they outlive the services)
static void checkConnect(Ctx& c, const shared_ptr<vn::service>& sv, const Target& t, unsigned wantPort, const str& desc) {
	Rng& r = c.rng; wires.emplace_back(new Wire(r, t)); Wire& w = *wires.back(); sv->setSocketFactory(make_shared<VSocketFactory>(w.net)); str exc; bool noAccount = !t.login && str(t.p->name) != "smtp" && str(t.p->name) != "smtps";
	VH_CHECK(!sv->isConnected(), "connected", desc << ": connected before connect()");
	try { sv->connect(); } catch (const vmime::exception& e) { exc = excName(e); }
	VH_CHECK(!w.keep.empty(), "no-connection", desc << ": no connection was made: " << exc);
	for (auto& k : w.keep) { VH_EQ(k->host, t.host, "host", desc + ": host connected to"); VH_EQ(k->port, wantPort, "port", desc + ": port connected to"); }
	c.seen("protocol/port", str(t.p->name) + (t.port ? " given" : " default"));
	if (t.p->tls) { VH_CHECK(!exc.empty() && !sv->isConnected(), "tls", desc << ": connected without TLS"); auto s = (Sniff*)w.keep[0].get(); VH_CHECK(s->got.size() >= 2 && s->got[0] == 0x16 && s->got[1] == 0x03, "tls", desc << ": does not begin with a TLS hello: " << q(s->got.substr(0, 40))); c.count("TLS connections"); return; }
	if (noAccount) { VH_CHECK(!exc.empty() && !sv->isConnected(), "no-account", desc << ": connected although no account is given"); for (auto& k : w.keep) VH_CHECK(k->log.find(t.pass) == str::npos || t.pass.size() < 4, "no-account", desc << ": secret sent"); c.count("sessions without account"); return; }
	VH_CHECK(exc.empty() && sv->isConnected(), "refused", desc << ": " << exc);
	auto ci = sv->getConnectionInfos(); VH_EQ(ci->getHost(), t.host, "infos", desc + ": getConnectionInfos()->getHost()"); VH_EQ((unsigned)ci->getPort(), wantPort, "infos", desc + ": getConnectionInfos()->getPort()"); VH_CHECK(!sv->isSecuredConnection(), "infos", desc << ": isSecuredConnection()");
	if (str(t.p->name) == "smtp") VH_EQ(!w.A.accepted.empty(), t.login, "login", desc + ": logged in");
	bool again = false; try { sv->connect(); again = true; } catch (const vmime::exceptions::already_connected&) {} VH_CHECK(!again, "already-connected", desc << ": connect() twice");
	try { sv->disconnect(); } catch (const vmime::exception& e) { c.note(excName(e)); } VH_CHECK(!sv->isConnected(), "disconnect", desc << ": connected after disconnect()"); VH_EQ(w.net.live, 0u, "disconnect", desc + ": sockets left open");
	for (auto& k : w.keep) if (auto l = dynamic_cast<LineServer*>(k.get())) VH_CHECK(l->badMsg.empty(), "protocol", desc << ": " << l->badMsg);
	c.count("plain connections");
}
static str prefixOf(const Proto& p) { return str(p.store ? "store." : "transport.") + p.name + "."; }
static vmime::propertySet asString(Rng& r, const std::vector<std::pair<str, str>>& kv) {   // through the textual form
	str s; for (auto& x : kv) { s += str(r.below(2), ' ') + x.first + "=\""; for (char ch : x.second) { if (ch == '"' || ch == '\\') s += '\\'; s += ch; } s += "\"" + str(r.below(2), ' ') + ";"; } return vmime::propertySet(s);
}
static shared_ptr<vn::service> get(Rng& r, const shared_ptr<vn::session>& s, const Proto& p, int how, const str& url) {
	shared_ptr<vn::service> sv; (void)r; switch (how) { case 0: if (p.store) sv = s->getStore(vmime::utility::url(url)); else sv = s->getTransport(vmime::utility::url(url)); break; case 1: if (p.store) sv = s->getStore(mixCase(r, p.name)); else sv = s->getTransport(mixCase(r, p.name)); break; default: if (p.store) sv = s->getStore(); else sv = s->getTransport(); } return sv;
}
static void session(Ctx& c) {
	Rng& r = c.rng; wires.clear(); auto sess = vn::session::create(); std::vector<shared_ptr<vn::session>> others; std::map<str, Target> known;   // what the properties say now, by protocol
	size_t rounds = 1 + r.below(4); str digest;
	for (size_t k = 0; k < rounds; ++k) {
		Target t = genTarget(r); const Proto& p = *t.p; str pre = prefixOf(p), desc; int how = (int)r.below(3); bool had = known.count(p.name); shared_ptr<vn::service> sv;
		if (how == 0) {
			// what the URL does not say stays as the properties say it
			str url = mixCase(r, p.name) + "://"; bool pw = true; if (t.login) { url += pctEnc(r, t.user, ".+=;&@"); if (t.pass.empty()) pw = false; if (pw) url += ":" + pctEnc(r, t.pass, ".+=;&:*!()@"); url += "@"; }
			url += t.host.find(':') != str::npos ? "[" + t.host + "]" : pctEnc(r, t.host, ".-_"); if (t.port) url += ":" + std::to_string(t.port); if (r.chance(1, 3)) url += "/"; desc = "URL " + q(url);
			if (had && !t.port) t.port = known[p.name].port; if (had && !t.login) { t.login = known[p.name].login; t.user = known[p.name].user; t.pass = known[p.name].pass; }
			if (!p.store) sess->getProperties()[pre + "options.need-authentication"] = t.login;
			sv = get(r, sess, p, 0, url);
		} else {
			std::vector<std::pair<str, str>> kv{{pre + "server.address", t.host}}; if (t.port) kv.push_back({pre + "server.port", std::to_string(t.port)}); if (t.login) { kv.push_back({pre + "auth.username", t.user}); kv.push_back({pre + "auth.password", t.pass}); }
			if (how == 2) kv.push_back({p.store ? "store.protocol" : "transport.protocol", p.name}); if (!p.store) kv.push_back({pre + "options.need-authentication", t.login ? "true" : "false"});
			desc = "properties"; for (auto& x : kv) desc += " " + x.first + "=" + q(x.second);
			int via = (int)r.below(3); if (via == 0) { auto ps = asString(r, kv); sess = vn::session::create(ps); ps.removeAllProperties(); known.clear(); had = false; }   // (the session has its own copy)
			else if (via == 1) { for (auto& x : kv) { bool port = x.first.find(".port") != str::npos; if (port && r.coin()) sess->getProperties()[x.first] = (vmime::port_t)t.port; else if (port && r.coin()) sess->getProperties().setProperty(x.first, (int)t.port); else if (x.second == "true" || x.second == "false") sess->getProperties()[x.first] = x.second == "true"; else sess->getProperties()[x.first] = x.second; } }
			if (had && via && !t.port) t.port = known[p.name].port; if (had && via && !t.login) { t.login = known[p.name].login; t.user = known[p.name].user; t.pass = known[p.name].pass; if (!p.store) sess->getProperties()[pre + "options.need-authentication"] = t.login; }
			if (via == 2) { if (how == 2) sess->getProperties()[str(p.store ? "store.protocol" : "transport.protocol")] = str(p.name); sv = get(r, sess, p, how, ""); if (sv) for (auto& x : kv) if (x.first.compare(0, pre.size(), pre) == 0) { if (x.first.find(".port") != str::npos) sv->setProperty("server.port", t.port); else sv->setProperty(x.first.substr(pre.size()), x.second); } if (sv && !p.store) sv->setProperty("options.need-authentication", t.login); }
			else sv = get(r, sess, p, how, "");
		}
		c.note(desc); VH_CHECK((bool)sv, "no-service", desc << ": no service"); VH_EQ(sv->getProtocolName(), str(p.name), "service", desc + ": getProtocolName()"); VH_CHECK(sv->getType() == (p.store ? vn::service::TYPE_STORE : vn::service::TYPE_TRANSPORT), "service", desc << ": getType()"); VH_EQ(sv->getInfos().getPropertyPrefix(), pre, "service", desc + ": prefix"); VH_CHECK(sv->getSession() == sess, "service", desc << ": session");
		known[p.name] = t; digest += desc;
		// another session, and other protocols in this one, do not matter
		if (r.coin()) { auto o = vn::session::create(sess->getProperties()); o->getProperties()[pre + "server.address"] = "other.example"; o->getProperties()[pre + "server.port"] = 1; others.push_back(o); }
		if (r.coin()) { Target u = genTarget(r); if (str(u.p->name) != p.name) { auto s2 = sess; str url = str(u.p->name) + "://" + pctEnc(r, u.user, ".") + ":" + pctEnc(r, u.pass, ".") + "@" + (u.host.find(':') != str::npos ? "[" + u.host + "]" : u.host) + (u.port ? ":" + std::to_string(u.port) : str()); auto other = get(r, s2, *u.p, 0, url); VH_CHECK((bool)other, "no-service", url << ": no service"); if (!u.port && known.count(u.p->name)) u.port = known[u.p->name].port; u.login = true; if (!u.p->store) s2->getProperties()[prefixOf(*u.p) + "options.need-authentication"] = true; known[u.p->name] = u; c.count("second services"); } }
		checkConnect(c, sv, t, t.port ? t.port : p.port, desc);
		if (r.chance(1, 4)) checkConnect(c, sv, t, t.port ? t.port : p.port, desc + " (again)");
	}
	c.nontrivial(digest);
}
// names of protocols
static void names(Ctx& c) {
	Rng& r = c.rng; auto sess = vn::session::create(); static const std::vector<str> S{"imap", "imaps", "pop3", "pop3s", "maildir"}, T{"smtp", "smtps", "sendmail"};
	str n = r.chance(1, 3) ? r.pick(S) : r.chance(1, 2) ? r.pick(T) : r.pickc({"", "http", "imap4", "pop", "smtpss", "mail", "imap ", " imap", "ima", "s", "nntp"}); if (r.chance(1, 6)) n += r.from("abs3", 1); bool isS = std::find(S.begin(), S.end(), n) != S.end(), isT = std::find(T.begin(), T.end(), n) != T.end(); c.note(q(n)); str given = mixCase(r, n); int how = (int)r.below(3);
	for (int st = 0; st < 2; ++st) {
		bool none = false; shared_ptr<vn::service> sv;  str pn = st ? "store.protocol" : "transport.protocol"; if (how == 1) sess->getProperties()[pn] = given;
		try {
			if (how == 0 || (how == 2 && (n.empty() || n.find(' ') != str::npos))) { if (st) sv = sess->getStore(given); else sv = sess->getTransport(given); }
			else if (how == 1) { if (st) sv = sess->getStore(); else sv = sess->getTransport(); }
			else { vmime::utility::url u(given + "://h.example/x"); if (st) sv = sess->getStore(u); else sv = sess->getTransport(u); }
		} catch (const vmime::exceptions::no_factory_available&) { none = true; }
		VH_EQ(none, !isS && !isT, "unknown", "no_factory_available for " + q(given)); if (none) { c.count("unknown protocols"); continue; }
		VH_EQ((bool)sv, st ? isS : isT, "kind", str(st ? "getStore" : "getTransport") + " gives a service for " + q(given)); if (sv) { VH_EQ(sv->getProtocolName(), n, "name", "protocol name"); VH_CHECK((bool)sv->getAuthenticator() && (bool)sv->getSocketFactory(), "defaults", n << " has no authenticator or socket factory"); c.seen("protocol", n); }
		else c.count("wrong kind");
		if (sv && r.coin()) { // the required settings are really required
			wires.clear(); wires.emplace_back(new Wire(r, genTarget(r))); Net& net = wires.back()->net; net.make = [] { return std::make_shared<Sniff>(); }; sv->setSocketFactory(make_shared<VSocketFactory>(net)); bool req = n != "sendmail" && how != 2; if (req) { bool threw = false; try { sv->connect(); } catch (const vmime::exceptions::no_such_property&) { threw = true; } catch (const vmime::exception& e) { c.note(excName(e)); } VH_CHECK(threw && !sv->isConnected(), "required", n << ": connect() without a server"); VH_EQ(net.conns.size(), (size_t)0, "required", "connections made"); c.count("missing settings"); }
			bool t2 = n == "maildir"; try { sv->disconnect(); } catch (const vmime::exceptions::not_connected&) { t2 = true; } VH_CHECK(t2, "not-connected", n << ": disconnect() when not connected"); 
		}
		if (sv) { std::set<str> seen; for (auto& p : sv->getInfos().getAvailableProperties()) { VH_CHECK(!p.getName().empty() && seen.insert(p.getName()).second, "available", n << ": property " << q(p.getName()) << " listed twice"); } bool addr = seen.count("server.address") || seen.count("server.rootpath") || seen.count("binpath"); VH_CHECK(addr, "available", n << ": the properties do not say where to connect"); }
	}
	// the factory knows each service once
	auto f = vn::serviceFactory::getInstance(); std::multiset<str> all; for (size_t i = 0; i < f->getServiceCount(); ++i) { all.insert(f->getServiceAt(i)->getName()); VH_CHECK(f->getServiceByProtocol(f->getServiceAt(i)->getName()) == f->getServiceAt(i), "factory", "service " << f->getServiceAt(i)->getName()); VH_EQ(f->getServiceList().at(i) == f->getServiceAt(i), true, "factory", "list"); } for (auto* l : {&S, &T}) for (auto& x : *l) VH_EQ(all.count(x), (size_t)1, "factory", "registrations of " + x);
	c.nontrivial(given + std::to_string(how));
}
// maildir: the path of the URL is the directory
static void maildir(Ctx& c) {
	Rng& r = c.rng; TempTree t; str sub = r.from("abc", 1 + r.below(4)) + (r.coin() ? r.pickc({" ", "%", "?", "#", "&", "@", ":", "é", "+", "="}) : str()) + r.from("xyz", 1), root = t.dir + "/" + sub; str other = t.dir + "/other"; std::filesystem::create_directories(root + "/.inbox.directory"); std::filesystem::create_directories(other);
	auto sess = vn::session::create(); shared_ptr<vn::store> st; int how = (int)r.below(3); if (r.coin()) sess->getProperties()["store.maildir.server.rootpath"] = other; str given;
	if (how == 0) { given = mixCase(r, "maildir") + "://localhost/" + pctEnc(r, root.substr(1), "/-_."); st = sess->getStore(vmime::utility::url(given)); } else { given = root; if (how == 2) sess->getProperties()["store.protocol"] = str("maildir"); sess->getProperties()["store.maildir.server.rootpath"] = root; st = how == 2 ? sess->getStore() : sess->getStore("maildir"); }
	c.note(q(given)); st->connect(); VH_CHECK(st->isConnected(), "maildir", "not connected"); str name = r.from("mno", 3); vn::folder::path p; p.appendComponent(vmime::word(name)); auto f = st->getFolder(p); vn::folderAttributes fa; f->create(fa); VH_CHECK(std::filesystem::exists(root + "/" + name), "maildir", q(given) << ": the folder was not made in " << root); VH_CHECK(std::filesystem::is_empty(other), "maildir", "the other directory was touched"); f.reset(); st->disconnect(); c.nontrivial(sub); c.count("maildirs");
}
void vh::setup() {
	setRule("Sessions are given random servers, ports, user names and passwords by URL (percent-encoded), by properties (typed, textual, session-wide or through the service) or both, in any order and for several protocols and sessions at once: an in-process socket factory records which host and port each service connects to "
		"(the URL's, else the properties', else the protocol's default port) and simulated servers check the account; connection information, protocol names in any case, kinds of services, unknown protocols and missing settings are compared with what was asked.");
	addSuite("session", 10000, 300000, session);
	addSuite("names", 3000, 40000, names);
	addSuite("maildir", 800, 8000, maildir);
}
