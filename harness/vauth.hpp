// Authentication: servers for SMTP, POP3 and IMAP that speak SASL (through the server side of GNU SASL; XOAUTH2 by hand), and one login session.
#pragma once
#include "vsmtp.hpp"
#include "vpop3.hpp"
#include "vimap.hpp"
#include <vmime/security/sasl/SASLMechanismFactory.hpp>
#include <vmime/security/sasl/XOAuth2SASLMechanism.hpp>
#include <vmime/security/sasl/XOAuth2SASLAuthenticator.hpp>
#include <gsasl.h>
#include <deque>
#include <mutex>
namespace vh {
struct AuthConf {
	str user, pass, token;            // what the server accepts
	std::vector<str> mechs;           // offered
	std::map<str, int> policy;        // 0: normal, 1: refused at once, 2: refused at the end
	bool realm = false, clearOk = true; str oddReply;
	// observed
	std::vector<str> secretLines, mechsTried, accepted; unsigned clear = 0;   // base64 lines of the client
};
struct SaslPeer {
	AuthConf* A; Gsasl* ctx = nullptr; Gsasl_session* s = nullptr; str mech; int stage = 0; bool finished = false;
	explicit SaslPeer(AuthConf* a) : A(a) { gsasl_init(&ctx); gsasl_callback_set(ctx, cb); gsasl_callback_hook_set(ctx, a); }
	~SaslPeer() { if (s) gsasl_finish(s); gsasl_done(ctx); }
	SaslPeer(const SaslPeer&) = delete; SaslPeer& operator=(const SaslPeer&) = delete;
	static int cb(Gsasl* c, Gsasl_session* s, Gsasl_property p) {
		AuthConf* A = (AuthConf*)gsasl_callback_hook_get(c); auto get = [&](Gsasl_property q) { const char* x = gsasl_property_fast(s, q); return x ? str(x) : str(); };
		switch (p) {
			case GSASL_VALIDATE_SIMPLE: { str z = get(GSASL_AUTHZID); return get(GSASL_AUTHID) == A->user && get(GSASL_PASSWORD) == A->pass && (z.empty() || z == A->user) ? GSASL_OK : GSASL_AUTHENTICATION_ERROR; }
			case GSASL_PASSWORD: if (get(GSASL_AUTHID) != A->user) return GSASL_AUTHENTICATION_ERROR; gsasl_property_set(s, p, A->pass.c_str()); return GSASL_OK;
			case GSASL_REALM: if (!A->realm) return GSASL_NO_CALLBACK; gsasl_property_set(s, p, "example.test"); return GSASL_OK;
			default: return GSASL_NO_CALLBACK;
		}
	}
	bool begin(const str& m) { if (s) gsasl_finish(s); s = nullptr; mech = m; stage = 0; finished = false; if (m == "XOAUTH2") return true; return gsasl_server_start(ctx, m.c_str(), &s) == GSASL_OK; }
	// -1 failed, 0 challenge in out, 1 accepted
	int step(const str& in, str& out) {
		out.clear(); ++stage;
		if (mech == "XOAUTH2") { if (finished) return -1; if (in == "user=" + A->user + "\1auth=Bearer " + A->token + "\1\1") return 1; finished = true; out = "{\"status\":\"400\"}"; return 0; }
		if (finished) return in.empty() ? 1 : -1;
		char* o = nullptr; size_t n = 0; int rc = gsasl_step(s, in.data(), in.size(), &o, &n); if (o) { out.assign(o, n); gsasl_free(o); }
		if (rc == GSASL_OK) { if (out.empty()) return 1; finished = true; return 0; }
		return rc == GSASL_NEEDS_MORE ? 0 : -1;
	}
};
static str b64of(const str& d) {
	static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; str o;
	for (size_t i = 0; i < d.size(); i += 3) { unsigned v = (unsigned char)d[i] << 16 | (i + 1 < d.size() ? (unsigned char)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (unsigned char)d[i + 2] : 0); o += T[v >> 18]; o += T[v >> 12 & 63]; o += i + 1 < d.size() ? T[v >> 6 & 63] : '='; o += i + 2 < d.size() ? T[v & 63] : '='; }
	return o;
}
// the exchange, independent of the protocol
struct AuthCore {
	AuthConf* A; SaslPeer peer; bool authing = false; explicit AuthCore(AuthConf* a) : A(a), peer(a) {}
	virtual ~AuthCore() {}
	virtual void challenge(const str& b64) = 0; virtual void success() = 0; virtual void failure(bool atOnce) = 0; virtual void failedOddly() {}
	void startAuth(const str& mech, const str* initial) {
		A->mechsTried.push_back(mech); if (initial) A->secretLines.push_back(*initial); bool offered = false; for (auto& m : A->mechs) offered |= m == mech;
		if (A->policy[mech] == 3) { dynamic_cast<Server*>(this)->say(A->oddReply); failedOddly(); return; }
		if (!offered || A->policy[mech] == 1 || !peer.begin(mech)) { failure(true); return; }
		authing = true; if (!initial && mech == "XOAUTH2") { challenge(""); return; }
		feed(initial ? (*initial == "=" ? str() : b64dec(*initial)) : str());
	}
	void feedLine(const str& l) { if (l == "*") { authing = false; failure(false); return; } A->secretLines.push_back(l); feed(b64dec(l)); }
	void feed(const str& d) { str o; int r = peer.step(d, o); if (r == 0) { challenge(b64of(o)); return; } authing = false; if (r > 0 && A->policy[peer.mech] == 0) { A->accepted.push_back(peer.mech); success(); } else failure(false); }
};
typedef std::vector<std::pair<char, str>> CmdLog;   // 'c' command, 'a' line of an exchange
struct AuthSmtp : SmtpServer, AuthCore {
	CmdLog cl; AuthSmtp(const SmtpConf& c, std::vector<SmtpPlan>* p, size_t* n, AuthConf* a) : SmtpServer(c, p, n), AuthCore(a) {}
	void challenge(const str& b) { say("334 " + b + "\r\n"); } void failedOddly() { st = CMD; } void success() { st = CMD; ++authOk; SmtpServer::reply(235, "2.7.0 welcome"); } void failure(bool now) { st = CMD; SmtpServer::reply(now ? 504 : 535, "5.7.8 no"); }
	void line(const str& l) { cl.push_back({st == SmtpServer::AUTH ? 'a' : 'c', l}); SmtpServer::line(l); }
	bool authStart(const str& l) { size_t p = l.find(' ', 5); str i = p == str::npos ? str() : l.substr(p + 1); st = SmtpServer::AUTH; startAuth(up(l.substr(5, p == str::npos ? p : p - 5)), p == str::npos ? nullptr : &i); return true; }
	void authLine(const str& l) { feedLine(l); }
};
struct AuthPop : PopServer, AuthCore {
	CmdLog cl; AuthPop(const PopConf& c, std::vector<PopMsg>* b, AuthConf* a) : PopServer(c, b), AuthCore(a) {}
	void challenge(const str& b) { say("+ " + b + "\r\n"); } void failedOddly() { authMode = false; } void success() { authMode = false; start(); PopServer::ok("maildrop locked"); } void failure(bool) { authMode = false; err(); }
	void line(const str& l) { cl.push_back({authMode ? 'a' : 'c', l}); PopServer::line(l); }
	bool verify(const str& u, const str& p) { ++A->clear; return A->clearOk && PopServer::verify(u, p); }
	bool authCommand(const str& a) { size_t p = a.find(' '); str i = p == str::npos ? str() : a.substr(p + 1); authMode = true; startAuth(a.substr(0, p), p == str::npos ? nullptr : &i); return true; }
	void authLine(const str& l) { feedLine(l); }
	str md5(const str& s) { auto d = vmime::security::digest::messageDigestFactory::getInstance()->create("md5"); d->update(s); d->finalize(); return d->getHexDigest(); }
};
struct AuthImap : ImapServer, AuthCore {
	CmdLog cl; AuthImap(IWorld& w, uint64_t seed, AuthConf* a) : ImapServer(w, seed), AuthCore(a) {
		hook = [this](ImapServer&, const str& v, const str& L) {
			if (v == "LOGIN" && !authed) { ++A->clear; if (!A->clearOk) { no(); return true; } }
			if (v != "AUTHENTICATE" || authed) return false;
			expect(" "); str m = upperc(atom()), i; bool has = opt(" "); if (has) { i = L.substr(P); if (!W.saslIr) throw Syntax{"initial response without SASL-IR"}; } startAuth(m, has ? &i : nullptr); inAuth = authing; return true;
		};
	}
	void line(const str& l) { cl.push_back({inAuth ? 'a' : 'c', l}); ImapServer::line(l); }
	void challenge(const str& b) { inAuth = true; say("+ " + b + "\r\n"); } void success() { authed = true; if (W.caps & 2) say("* CAPABILITY " + capText() + "\r\n"); ok(); } void failure(bool) { no(); }
	void finishAuth(const str& l) { feedLine(l); inAuth = authing; }
};
struct PerTracer : vn::tracerFactory { std::deque<std::vector<str>> per; shared_ptr<vn::tracer> create(const shared_ptr<vn::service>&, const int) { per.emplace_back(); return make_shared<VTracer>(per.back()); } };   // one trace per connection
// one session with random settings; what it did is left in the members
class MyAuth : public vmime::security::sasl::defaultSASLAuthenticator { public: str u, p, t; const str getUsername() const { return u; } const str getPassword() const { return p; } const str getAccessToken() const { return t; } };
class MyXAuth : public vmime::security::sasl::XOAuth2SASLAuthenticator { public: explicit MyXAuth(Mode m) : XOAuth2SASLAuthenticator(m) {} str u, p, t; const str getUsername() const { return u; } const str getPassword() const { return p; } const str getAccessToken() const { return t; } };
struct LoginRun {
	Net net; shared_ptr<PerTracer> tracer; AuthConf A; str proto, desc, u, p, t, exc; bool expect = false, connected = false, mayClear = true, needAuth = true; std::vector<const CmdLog*> logs; str serverBad; std::vector<std::shared_ptr<Server>> keep;
	std::function<void(str&)> collectBad; bool odd = false, worked = true, withTracer = true; str workExc; bool authExc = false, again = false;
	explicit LoginRun(uint64_t s) : net(s) {}
	void run(Rng& r) {
		static std::once_flag reg; std::call_once(reg, [] { vmime::security::sasl::SASLMechanismFactory::getInstance()->registerMechanism<vmime::security::sasl::XOAuth2SASLMechanism>("XOAUTH2"); });
		proto = r.pickc({"smtp", "pop3", "imap"}); net.ch = netChunking(r);
		A.user = r.coin() ? r.from("abcdefghijkl", 3 + r.below(8)) : r.from("abc.", 4) + "x@" + r.from("abcdef", 5) + ".example"; 
		auto secret = [&](bool odd) { return odd ? r.from("abcXYZ019 \\\"{}%()*+-=/!,@", 10 + r.below(20)) + r.from("abcdefgh", 4) : r.from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", 8 + r.below(30)); };
		A.pass = secret(r.coin()); A.token = "ya29." + secret(false); A.realm = r.chance(1, 4); bool longTok = r.chance(1, 5); if (longTok) A.token += str(300 + r.below(900), 'Q'); A.clearOk = r.chance(3, 4);
		if (A.pass[0] == ' ') A.pass[0] = 'x';
		int wrong = (int)r.below(8); u = A.user; p = A.pass; t = A.token; if (wrong == 0) u += "x"; else if (wrong == 1) p = secret(r.coin()) + "w"; else if (wrong == 2) { p += "w"; t += "w"; }
		static const char* real[] = {"PLAIN", "LOGIN", "CRAM-MD5", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "XOAUTH2"};
		bool xa = r.chance(1, 3), withTok = xa || r.coin(); for (auto m : real) if (r.chance(1, 3) && (str(m) != "XOAUTH2" || withTok)) A.mechs.push_back(m); if (xa && r.coin()) A.mechs.push_back("XOAUTH2"); for (auto m : {"ANONYMOUS", "EXTERNAL"}) if (r.chance(1, 12)) { A.mechs.push_back(m); A.policy[m] = r.coin() ? 1 : 2; } if (r.chance(1, 6)) A.mechs.push_back("X-UNKNOWN");
		{ std::vector<str> a; std::set<str> done; while (!A.mechs.empty()) { size_t i = r.below(A.mechs.size()); if (done.insert(A.mechs[i]).second) a.push_back(A.mechs[i]); A.mechs.erase(A.mechs.begin() + i); } A.mechs = a; }
		for (auto& m : A.mechs) if (r.chance(1, 4)) A.policy[m] = (int)(1 + r.below(2)); if (odd) { net.softHang = true; A.oddReply = r.pickc({"garbage\r\n", "* BYE bye\r\n", "zz99 OK done\r\n", "\r\n", "* 1\r\n", "* OK [\r\n", "+\r\n", "+ \r\n", "+ *bad*\r\n", "-\r\n", "999 x\r\n", "334-x\r\n235 y\r\n", "* CAPABILITY\r\n", "2\r\n"}); for (auto& m : A.mechs) if (r.coin()) A.policy[m] = 3; }
		bool sasl = r.chance(4, 5), fallback = r.coin(), apop = r.coin(), apopFb = r.coin(); int who = xa ? 2 : (int)r.below(2); auto mode = r.coin() ? vmime::security::sasl::XOAuth2SASLAuthenticator::MODE_EXCLUSIVE : vmime::security::sasl::XOAuth2SASLAuthenticator::MODE_SUGGEST;
		needAuth = proto != "smtp" || r.chance(9, 10); withTracer = true;
		// servers
		auto plans = std::make_shared<std::vector<SmtpPlan>>(); auto next = std::make_shared<size_t>(0); auto box = std::make_shared<std::vector<PopMsg>>(); auto W = std::make_shared<IWorld>(); SmtpConf sc; PopConf pc; sc.seed = pc.seed = r.next(); uint64_t is = r.next(); bool ehlo = true, stampOk = false;
		for (size_t n = r.below(3); n-- > 0;) { PopMsg m; m.uid = "u" + std::to_string(n); m.content = "Subject: x\r\n\r\nbody\r\n"; box->push_back(m); }
		W->make({"INBOX"}); W->sasl = A.mechs; W->user = A.user; W->pass = A.pass; W->saslIr = r.coin(); W->caps = (int)r.below(8);
		sc.ehlo = ehlo = r.chance(9, 10); sc.multi = r.coin(); if (r.coin()) sc.exts.push_back("PIPELINING"); if (!A.mechs.empty()) { str x; for (auto& m : A.mechs) x += " " + m; bool lc = r.chance(1, 5); if (lc) for (auto& ch : x) ch = (char)tolower((unsigned char)ch); str y = (lc ? "auth" : "AUTH") + x, z = (lc ? "auth=" : "AUTH=") + x.substr(1); int how = (int)r.below(6); if (how < 4 || how == 5) sc.exts.push_back(y); if (how >= 4) sc.exts.push_back(z); /* the old spelling, and both */ } sc.exts.push_back("SIZE 100000");
		pc.user = A.user; pc.pass = A.pass; pc.sasl = A.mechs; pc.capa = r.chance(7, 8); if ((pc.apop = r.coin())) { pc.stamp = "<" + r.from("0123456789", 6) + "." + r.from("0123456789", 4) + "@pop.example>"; stampOk = true; }
		net.make = [=]() -> std::shared_ptr<Server> {
			if (proto == "smtp") { auto s = std::make_shared<AuthSmtp>(sc, plans.get(), next.get(), &A); logs.push_back(&s->cl); keep.push_back(s); return s; }
			if (proto == "pop3") { auto s = std::make_shared<AuthPop>(pc, box.get(), &A); logs.push_back(&s->cl); keep.push_back(s); return s; }
			auto s = std::make_shared<AuthImap>(*W, is, &A); s->codeRW = true; logs.push_back(&s->cl); keep.push_back(s); return s;
		};
		auto sess = vn::session::create(); auto& P = sess->getProperties(); str pre = (proto == "smtp" ? "transport." : "store.") + proto + "."; P[pre + "server.address"] = "h"; P[pre + "options.sasl"] = sasl; P[pre + "options.sasl.fallback"] = fallback; P[pre + "options.apop"] = apop; P[pre + "options.apop.fallback"] = apopFb; P[pre + "options.need-authentication"] = needAuth;
		shared_ptr<vmime::security::authenticator> au; if (who == 0) { P[pre + "auth.username"] = u; P[pre + "auth.password"] = p; if (withTok) P[pre + "auth.accesstoken"] = t; } else if (who == 1) { auto a = make_shared<MyAuth>(); a->u = u; a->p = p; a->t = t; au = a; } else { auto a = make_shared<MyXAuth>(mode); a->u = u; a->p = p; a->t = t; au = a; }
		shared_ptr<vn::service> sv; shared_ptr<vn::transport> tr; shared_ptr<vn::store> stt; if (proto == "smtp") { tr = sess->getTransport("smtp", au); sv = tr; } else { stt = sess->getStore(proto, au); sv = stt; }
		sv->setSocketFactory(make_shared<VSocketFactory>(net)); tracer = make_shared<PerTracer>(); sv->setTracerFactory(tracer);
		// what should happen
		bool anySasl = false; for (auto& m : A.mechs) { bool x = m == "XOAUTH2"; if (who == 2 && mode == vmime::security::sasl::XOAuth2SASLAuthenticator::MODE_EXCLUSIVE && !x) continue; if (m == "X-UNKNOWN" || A.policy[m]) continue; if (u == A.user && (x ? t == A.token : p == A.pass)) anySasl = true; }
		if (proto == "pop3" && !pc.capa) anySasl = false;
		bool creds = u == A.user && p == A.pass;
		if (proto == "smtp") { expect = !needAuth || (ehlo && sasl && anySasl); mayClear = false; }
		else { bool rest = !sasl || fallback; mayClear = rest; if (proto == "imap") expect = (sasl && anySasl) || (rest && creds && A.clearOk); else { bool ap = apop && stampOk && creds, cl = (!apop || apopFb) && creds && A.clearOk; if (apop && !apopFb) mayClear = false; expect = (sasl && anySasl) || (rest && (ap || cl)); } }
		desc = proto + " offered:"; for (auto& m : A.mechs) desc += " " + m + (A.policy[m] ? "(refused " + std::to_string(A.policy[m]) + ")" : ""); desc += std::string(" sasl ") + (sasl ? "on" : "off") + (fallback ? " fallback" : "") + (apop ? " apop" : "") + (apopFb ? " apop-fallback" : "") + (stampOk ? " stamp" : "") + (who == 2 ? mode == vmime::security::sasl::XOAuth2SASLAuthenticator::MODE_EXCLUSIVE ? " xoauth2-only" : " xoauth2" : "") + " wrong " + std::to_string(wrong) + (A.clearOk ? "" : " no clear login") + (W->saslIr ? " sasl-ir" : "") + (ehlo ? "" : " no-ehlo") + (pc.capa ? "" : " no-capa");
		try { sv->connect(); connected = sv->isConnected(); if (!connected) exc = "connect() returned, isConnected() is false"; } catch (const vmime::exceptions::authentication_error& e) { exc = excName(e); authExc = true; } catch (const vmime::exception& e) { exc = excName(e); }
		if (connected) try {
			if (r.coin()) sv->noop();
			if (tr) { vmime::mailboxList to; to.appendMailbox(make_shared<vmime::mailbox>("a@b.example")); to.appendMailbox(make_shared<vmime::mailbox>("c@d.example")); str d = "Subject: x\r\n\r\nhello\r\n"; ChunkIn in(d, Chunking()); tr->send(vmime::mailbox("me@b.example"), to, in, d.size()); }
			else { auto f = stt->getDefaultFolder(); f->open(vn::folder::MODE_READ_ONLY); size_t n = f->getMessageCount(); if (proto == "pop3" && n != box->size()) { worked = false; workExc = "message count"; } f->close(false); }
			sv->disconnect();
		} catch (const vmime::exception& e) { worked = false; workExc = excName(e); }
		else if (sv->isConnected()) { worked = false; workExc = "isConnected() after a failed connect()"; }
		for (auto& s : keep) if (auto l = dynamic_cast<LineServer*>(s.get())) if (!l->badMsg.empty()) serverBad = l->badMsg;
	}
};
} // namespace vh
