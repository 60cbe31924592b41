// N04: what an SMTP server receives against what was given to send().
#include "vsmtp.hpp"
#include <vmime/net/smtp/smtp.hpp>
#include <vmime/net/smtp/SMTPExceptions.hpp>
using namespace vh;
namespace sm = vmime::net::smtp;

struct Box { shared_ptr<vmime::mailbox> m; SmtpPath ascii, utf; bool utf8Local = false, ace = false; };
static Box mkBox(Rng& r, bool allowUtf8) {
	Box b; str local, dom;
	switch (r.below(8)) {
		case 0: local = r.from("abc d<>,;:()[]\"\\@.", 1 + r.below(12)); break;
		case 1: local = r.from("!#$%&'*+-/=?^_`{|}~a", 1 + r.below(12)); break;
		case 2: if (allowUtf8) { local = genUni(r, 1 + r.below(8), 1000); } else local = "x"; break;
		default: local = r.from("abcdefghijklmnopqrstuvwxyzABC0123456789", 1 + r.below(10)) + (r.coin() ? "." + r.from("abc123", 1 + r.below(5)) : "");
	}
	if (local.find("=?") != str::npos || local.find("?=") != str::npos) local = "x";
	{ std::vector<uint32_t> cp; if (fromUtf8(local, cp)) for (auto c : cp) if (c < 32 || c == 127 || (c >= 0x80 && c < 0xA1)) { local = "u"; break; } }
	for (unsigned char c : local) if (c > 127) b.utf8Local = true;
	str ace;
	if (r.chance(1, 5)) {
		std::vector<uint32_t> l; for (size_t n = 1 + r.below(6); n-- > 0;) l.push_back(r.coin() ? 'a' + r.below(26) : r.coin() ? 0xE0 + r.below(23) : 0x3042 + r.below(60));
		l.push_back(0xE9);
		dom = toUtf8(l) + ".example"; ace = "xn--" + punycode(l) + ".example"; b.ace = true;
	} else if (r.chance(1, 20)) { dom = ace = "[192.0.2." + std::to_string(r.below(250)) + "]"; }
	else dom = ace = genHost(r);
	vmime::emailAddress e(vmime::word(local, vmime::charset("utf-8")), vmime::word(dom, vmime::charset("utf-8")));
	b.m = make_shared<vmime::mailbox>(r.chance(1, 3) ? apiText(r) : vmime::text(), e);
	b.ascii = {local, ace}; b.utf = {local, dom};
	return b;
}
static bool pathOk(const SmtpPath& got, const Box& b) { return got == b.ascii || got == b.utf; }
static str genLines(Rng& r) {
	str s; size_t n = r.chance(1, 12) ? 200 + r.below(3000) : r.below(12);
	for (size_t i = 0; i < n; ++i) s += r.pickc({"", ".", "..", ".x", "...", ". ", ".\t.", "QUIT", "RSET", "250 OK", "a.b", "\xc3\xa9.", "-", ".\xff"}) + (r.chance(1, 4) ? r.from("abc .", r.size(300)) : str()) + (i + 1 < n || r.coin() ? "\r\n" : "");
	return s;
}
static int code(Rng& r, std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
struct Prog : vmime::utility::progressListener { size_t last = 0, starts = 0, stops = 0; bool back = false, over = false; void start(const size_t) { ++starts; } void progress(const size_t c, const size_t t) { if (c < last) back = true; last = c; if (c > t) over = true; } void stop(const size_t) { ++stops; } };

static void session(Ctx& c) {
	Rng& r = c.rng; Net net(r.next()); net.ch = netChunking(r);
	SmtpConf conf;
	auto ecase = [&](str s) { if (r.chance(1, 5)) for (auto& ch : s) if (r.coin()) ch = (char)tolower((unsigned char)ch); return s; };
	auto genConf = [&]() {
	conf = SmtpConf(); conf.seed = r.next(); conf.ehlo = !r.chance(1, 8); conf.multi = r.coin();
	if (conf.ehlo) {
		for (str e : {"PIPELINING", "CHUNKING", "SMTPUTF8", "8BITMIME", "ENHANCEDSTATUSCODES", "VRFY", "DSN"}) if (r.coin()) conf.exts.push_back(ecase(e));
		if (r.coin()) conf.exts.push_back(ecase("SIZE") + r.pickc({"", " 0", " 10000000"}));
		for (size_t i = conf.exts.size(); i > 1; --i) std::swap(conf.exts[i - 1], conf.exts[r.below(i)]);
	}
	};
	genConf();
	std::vector<SmtpPlan> plans; size_t nextPlan = 0; std::vector<std::shared_ptr<SmtpServer>> servers;
	net.make = [&]() { if (!servers.empty() && r.chance(1, 3)) genConf(); auto s = std::make_shared<SmtpServer>(conf, &plans, &nextPlan); servers.push_back(s); return s; };
	auto sess = vn::session::create();
	bool pipe = true, chunk = true;
	sess->getProperties()["transport.smtp.server.address"] = "mx.example.test";
	if (r.chance(1, 4)) { pipe = r.coin(); sess->getProperties()["transport.smtp.options.pipelining"] = pipe; }
	if (r.chance(1, 4)) { chunk = r.coin(); sess->getProperties()["transport.smtp.options.chunking"] = chunk; }
	auto tr = sess->getTransport("smtp");
	tr->setSocketFactory(make_shared<VSocketFactory>(net));
	c.note("SMTP exts: " + [&] { str s; for (auto& e : conf.exts) s += e + ", "; return s; }() + (conf.ehlo ? "" : "HELO only ") + net.ch.describe());
	size_t nsend = 1 + r.below(5); str digest;
	try {
	for (size_t k = 0; k < nsend; ++k) {
		if (!tr->isConnected()) { tr->connect(); c.count("connections"); }
		VH_EQ(tr->isConnected(), true, "connected", "connected after connect()");
		// the plan
		bool utf8 = conf.has("SMTPUTF8");
		SmtpPlan p; size_t nr = 1 + (r.chance(1, 6) ? r.below(40) : r.below(4)); bool refuse = r.chance(1, 2);
		if (refuse) switch (r.below(7)) {
			case 0: p.mail = code(r, {451, 550, 552, 452, 421, 500}); break;
			case 1: case 2: p.rcpt.assign(nr, 250); for (size_t i = 1 + r.below(nr); i-- > 0;) p.rcpt[r.below(nr)] = code(r, {550, 450, 452, 552, 553, 421}); break;
			case 3: p.data = code(r, {451, 554, 550}); break;
			case 4: p.fin = code(r, {451, 554, 552, 421}); break;
			case 5: p.bdatAt = (int)r.below(3); p.bdatCode = code(r, {552, 451, 554}); p.bdatLenient = r.coin(); break;
			case 6: p.rset = code(r, {500, 451, 421}); break;
		} else { p.rcpt.assign(nr, 250); for (auto& x : p.rcpt) if (r.chance(1, 8)) x = 251; if (r.chance(1, 8)) p.rset = 200; }
		p.mixed = r.chance(1, 4);
		SmtpServer* srv = servers.back().get();
		bool closedBefore = srv->closed; unsigned rsetsBefore = srv->rsets; size_t before = 0; for (auto& s : servers) before += s->got.size();
		plans.resize(nextPlan); plans.push_back(p); srv->lastRefusal = 0; srv->mixedSent = false;
		Box from = mkBox(r, utf8), sender = r.chance(1, 4) ? mkBox(r, utf8) : Box(); std::vector<Box> to; vmime::mailboxList rl;
		bool needUtf8 = sender.m ? sender.utf8Local : from.utf8Local; int way = (int)r.below(3);
		auto msg = make_shared<vmime::message>(); str raw; bool autoHeaders = way == 2;
		for (size_t i = 0; i < nr; ++i) { to.push_back(mkBox(r, utf8)); if (autoHeaders && 0) {} rl.appendMailbox(vmime::clone(to.back().m)); needUtf8 |= to.back().utf8Local; }
		Prog prog; Prog* pp = r.coin() ? &prog : nullptr; bool threw = false, vm = false; str what; int status = 0; str enh; bool sizeEx = false; int sizeKind = 0; str exp; std::set<str> dropped; bool hadDate = false, hadMid = false, hadVer = false; str headerBefore;
		bool bdat = false; size_t totalSize = 0;
		vmime::mailbox senderBox; if (sender.m) senderBox = *sender.m;
		bool hostileBody = false;
		if (way) {
			auto h = msg->getHeader();
			h->Subject()->setValue(apiText(r));
			if (way == 1) { h->From()->setValue(*from.m); if (r.coin()) h->Date()->setValue(apiDate(r)); }
			str body = genLines(r); vmime::encoding enc(r.pickc({"7bit", "8bit", "quoted-printable", "base64", "binary"}));
			msg->getBody()->setContents(make_shared<vmime::stringContentHandler>(body), vmime::mediaType("application", "octet-stream"), vmime::charset("utf-8"), enc);
			if (r.chance(1, 12)) { str big(100000 + r.below(400000), 'x'); for (size_t i = 70; i + 2 < big.size(); i += 70) { big[i] = '\r'; big[i + 1] = '\n'; if (r.chance(1, 30)) big[i + 2] = '.'; } msg->getBody()->setContents(make_shared<vmime::stringContentHandler>(big), vmime::mediaType("application", "octet-stream"), vmime::charset("utf-8"), vmime::encoding("8bit")); }
			hostileBody = true;
			if (autoHeaders) {
				h->From()->setValue(*from.m); if (sender.m) h->Sender()->setValue(*sender.m);
				vmime::addressList lists[3];
				std::vector<Box> order[3];
				for (size_t i = 0; i < to.size(); ) {
					size_t w = r.below(3);
					if (r.chance(1, 6)) { // a group
						auto g = make_shared<vmime::mailboxGroup>(vmime::text("grp")); size_t n = r.below(3);
						for (size_t j = 0; j < n && i < to.size(); ++j, ++i) { g->appendMailbox(vmime::clone(to[i].m)); order[w].push_back(to[i]); }
						lists[w].appendAddress(g);
					} else { lists[w].appendAddress(vmime::clone(to[i].m)); order[w].push_back(to[i]); ++i; }
				}
				if (!lists[0].isEmpty()) h->To()->setValue(lists[0]); if (!lists[1].isEmpty()) h->Cc()->setValue(lists[1]); if (!lists[2].isEmpty()) h->Bcc()->setValue(lists[2]);
				to.clear(); for (auto& o : order) to.insert(to.end(), o.begin(), o.end());
				if ((hadDate = r.coin())) h->Date()->setValue(apiDate(r));
				if ((hadMid = r.coin())) h->MessageId()->setValue(vmime::messageId("abc", "example.test"));
				if ((hadVer = r.coin())) h->MimeVersion()->setValue(str("1.0"));
				if (r.chance(1, 3)) h->ReturnPath()->setValue(vmime::path("x", "y.example"));
				if (r.chance(1, 3)) h->getField("Original-Recipient")->setValue(str("rfc822;x@y"));
				if (r.chance(1, 4)) { auto f = vmime::headerFieldFactory::getInstance()->create("BCC"); f->setValue(vmime::addressList()); dynamicCast<vmime::addressList>(f->getValue())->appendAddress(make_shared<vmime::mailbox>("hidden@example.test")); if (!h->hasField("Bcc")) {} }
				headerBefore = h->generate();
			}
		} else raw = genLines(r);
		vmime::generationContext gctx(vmime::generationContext::getDefaultContext()); gctx.setInternationalizedEmailSupport(utf8);
		if (way == 1 && conf.has("CHUNKING") && r.chance(1, 25)) { // as long as the chunks are, and nearly
			auto set = [&](const str& b) { msg->getBody()->setContents(make_shared<vmime::stringContentHandler>(b), vmime::mediaType("application", "octet-stream"), vmime::charset("utf-8"), vmime::encoding("binary")); str o; vmime::utility::outputStreamStringAdapter os(o); msg->generate(gctx, os); return o.size(); };
			str b(1000, 'x'); size_t over = set(b) - b.size(), want = 262144 * (1 + r.below(2)) + (r.coin() ? 0 : r.below(5)) - 2 * r.coin();
			b.assign(want - over, 'x'); for (size_t i = 70; i + 3 < b.size(); i += 70) { b[i] = '\r'; b[i + 1] = '\n'; } set(b); c.count("messages as long as the chunk buffer");
		}
		if (way == 1) { vmime::utility::outputStreamStringAdapter os(exp); msg->generate(gctx, os); }
		bdat = way && conf.has("CHUNKING") && chunk;
		sm::SMTPSendOptions opts; str ret, nt, envid; bool dsn = conf.has("DSN") && way < 2 && r.coin();
		if (dsn) { ret = r.pickc({"", "FULL", "HDRS"}); nt = r.pickc({"", "NEVER", "SUCCESS,FAILURE", "DELAY"}); envid = r.pickc({"", "id-1", "x.y"}); opts.setDSNAttributes(make_shared<sm::DSNAttributes>(nt, ret, envid)); }
		c.note("way " + std::to_string(way) + " rcpts " + std::to_string(nr) + " plan mail " + std::to_string(p.mail) + " data " + std::to_string(p.data) + " final " + std::to_string(p.fin) + " bdatAt " + std::to_string(p.bdatAt) + " rset " + std::to_string(p.rset));
		try {
			switch (way) {
				case 0: { ChunkIn is(raw, netChunking(r)); totalSize = raw.size(); tr->send(*from.m, rl, is, raw.size(), pp, senderBox, opts); exp = raw; break; }
				case 1: tr->send(msg, *from.m, rl, pp, senderBox, opts); break;
				case 2: tr->send(msg, pp); break;
			}
		} catch (const vmime::exception& e) {
			threw = vm = true; what = excName(e); 
			for (const vmime::exception* x = &e; x; x = x->other()) {
				if (auto ce = dynamic_cast<const vmime::exceptions::command_error*>(x)) what += " / " + ce->command() + " / " + ce->response();
				if (auto se = dynamic_cast<const sm::SMTPCommandError*>(x)) { status = se->statusCode(); auto x = se->extendedStatusCode(); enh = std::to_string(x.klass) + "." + std::to_string(x.subject) + "." + std::to_string(x.detail); }
				if (dynamic_cast<const sm::SMTPMessageSizeExceedsMaxLimitsException*>(x)) { sizeEx = true; sizeKind = 552; }
				if (dynamic_cast<const sm::SMTPMessageSizeExceedsCurLimitsException*>(x)) { sizeEx = true; sizeKind = 452; }
			}
		} catch (const Hang&) { throw; } catch (const std::exception& e) { fail("undocumented-exception", excName(e)); }
		if (!srv->badMsg.empty()) fail("protocol", srv->badMsg);
		if (autoHeaders) VH_EQ(msg->getHeader()->generate(), headerBefore, "header-changed", "header of the message after sending it");
		size_t after = 0; for (auto& s : servers) after += s->got.size();
		// what had to happen
		bool hadRset = srv->rsets != rsetsBefore; bool shouldFail = closedBefore;
		if (hadRset && p.rset != 250 && p.rset != 200) shouldFail = true;
		if (p.mail != 250 || p.fin != 250) shouldFail = true;
		for (int x : p.rcpt) if (x != 250 && x != 251) shouldFail = true;
		if (!bdat && p.data != 354) shouldFail = true;
		if (bdat && p.bdatAt >= 0 && srv->bdatFailed) shouldFail = true;
		digest += std::to_string(way) + (shouldFail ? "F" : "S") + std::to_string(nr) + ",";
		c.seen("outcome", str(threw ? "error " : "ok ") + (bdat ? "BDAT " : "DATA ") + std::to_string(p.mail) + " " + std::to_string(p.data) + " " + std::to_string(p.fin) + (conf.has("PIPELINING") ? " pipelined" : "") + (p.bdatAt >= 0 ? " bdat" : ""));
		if (shouldFail && !threw) fail("false-success", "send() succeeded although the server refused");
		if (!shouldFail && threw) fail("false-failure", "send() failed although the server accepts everything: " + what);
		if (threw) {
			VH_EQ(after, before, "delivered-after-error", "messages delivered though send() threw " + what);
			if (!closedBefore && srv->lastRefusal && !srv->closed && !srv->mixedSent) {
				bool named = what.find(vmime::utility::stringUtils::trim(srv->lastRefusalText)) != str::npos || sizeEx;
				VH_CHECK(named, "error-names-failure", "server said " << srv->lastRefusal << " " << srv->lastRefusalText << ", the error is " << what);
				bool env = p.mail != 250; for (int x : p.rcpt) env |= x != 250 && x != 251; if (env) VH_EQ(sizeKind, srv->lastRefusal == 452 || srv->lastRefusal == 552 ? srv->lastRefusal : 0, "size-error", "reply for which the error says that the message is too large");
				if (status && !sizeEx) VH_EQ(status, srv->lastRefusal, "error-code", "status code of the error");
				if (status && !sizeEx) { unsigned a = 0, b = 0, d = 0; int n = 0; if (sscanf(srv->lastRefusalText.c_str(), "%u.%u.%u%n", &a, &b, &d, &n) != 3) a = b = d = 0; VH_EQ(enh, std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(d), "error-enhanced-code", "enhanced status code of the error for " + q(srv->lastRefusalText)); c.count("enhanced codes"); }
			}
			c.count("refusals");
			continue;
		}
		VH_EQ(after, before + 1, "delivery-count", "messages delivered");
		const SmtpDelivery& d = servers.back()->got.back(); c.count("deliveries");
		const Box& s = sender.m ? sender : from;
		VH_CHECK(pathOk(d.from, s), "sender", "MAIL FROM " << d.from << " expected " << s.ascii);
		VH_EQ(d.to.size(), to.size(), "recipient-count", "recipients");
		{ // as multisets of boxes
			std::vector<char> used(to.size(), 0);
			for (auto& g : d.to) { bool ok = false; for (size_t i = 0; i < to.size() && !ok; ++i) if (!used[i] && pathOk(g, to[i])) used[i] = 1, ok = true; VH_CHECK(ok, "recipient", "RCPT TO " << g << " was not asked for"); }
		}
		VH_EQ(d.bdat, bdat, "chunking-used", "BDAT used");
		VH_EQ(d.params.count("SMTPUTF8") > 0, needUtf8 && utf8 || (d.params.count("SMTPUTF8") > 0 && utf8), "smtputf8", "SMTPUTF8 asked for");
		auto par = [](const std::map<str, str>& m, const char* k) { auto it = m.find(k); return it == m.end() ? str() : it->second; };
		VH_EQ(par(d.params, "RET"), ret, "dsn", "RET"); VH_EQ(par(d.params, "ENVID"), envid.empty() ? str() : "<" + envid + ">", "dsn", "ENVID");
		for (auto& m : d.rparams) VH_EQ(par(m, "NOTIFY"), nt, "dsn", "NOTIFY");
		str got = d.data;
		if (autoHeaders) {
			vmime::message m2; m2.parse(got); auto h = m2.getHeader();
			VH_CHECK(!h->hasField("Bcc") && !h->hasField("Return-Path") && !h->hasField("Original-Recipient"), "private-fields", "fields that must not be sent: " << h->generate());
			VH_CHECK(h->hasField("Date") && h->hasField("Message-Id") && h->hasField("Mime-Version"), "required-fields", "fields missing: " << h->generate());
			auto hx = vmime::clone(msg->getHeader()); for (auto n : {"Bcc", "Return-Path", "Original-Recipient"}) hx->removeAllFields(n);
			if (!hadDate) h->removeAllFields("Date"); if (!hadMid) h->removeAllFields("Message-Id"); if (!hadVer) h->removeAllFields("Mime-Version");
			auto whole = make_shared<vmime::message>(); whole->setHeader(hx); whole->setBody(msg->getBody());
			str e2; vmime::utility::outputStreamStringAdapter os(e2); whole->generate(gctx, os);
			auto bodyAt = [](const str& m) { size_t x = m.find("\r\n\r\n"); return x == str::npos ? str() : m.substr(x + 4); };
			str b1 = bodyAt(got), b2 = bodyAt(e2);
			VH_CHECK(b1 == b2 || b1 == b2 + "\r\n", "body", "body received " << q(b1.substr(0, 300)) << " (" << b1.size() << ") expected " << q(b2.substr(0, 300)) << " (" << b2.size() << ")");
			vmime::message m3; m3.parse(e2);
			VH_EQ(uHeader(*h), uHeader(*m3.getHeader()), "header", "header fields received");
		} else {
			bool same = got == exp || (!bdat && got == exp + "\r\n");
			if (!same) { size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) ++i; fail("content", "message received differs at " + std::to_string(i) + " of " + std::to_string(exp.size()) + ": " + q(got.substr(i > 20 ? i - 20 : 0, 80)) + " expected " + q(exp.substr(i > 20 ? i - 20 : 0, 80)) + " received " + std::to_string(got.size())); }
			if (d.params.count("SIZE")) { size_t n = strtoull(d.params.at("SIZE").c_str(), 0, 10); VH_CHECK(n == exp.size() || (bdat && n >= exp.size() && n <= 4 * exp.size() + 1000), "size", "SIZE announced: " << n << ", sent " << exp.size()); }
			else if (conf.has("SIZE") && !exp.empty() && conf.exts.size()) VH_CHECK(false, "size-missing", "SIZE offered but the size was not announced");
		}
		if (pp) { VH_CHECK(!prog.back && prog.starts == 1 && prog.stops == 1 && !prog.over, "progress", "progress: starts " << prog.starts << " stops " << prog.stops << (prog.back ? " goes back" : "") << (prog.over ? " beyond total" : "")); }
	}
	if (tr->isConnected()) { bool open = !servers.back()->closed; tr->disconnect(); if (open) VH_CHECK(servers.back()->quit, "quit", "no QUIT before the connection is closed"); }
	VH_EQ(tr->isConnected(), false, "disconnected", "connected after disconnect()");
	} catch (const Hang& h) { fail("hang", h.what + "; last commands: " + [&] { str s; if (!servers.empty()) { auto& v = servers.back()->commands; for (size_t i = v.size() > 6 ? v.size() - 6 : 0; i < v.size(); ++i) s += q(v[i].substr(0, 80)) + " "; s += servers.back()->st == SmtpServer::DATA ? "(in DATA)" : ""; } return s; }()); }
	catch (const vmime::exception& e) { fail("exception", excName(e)); }
	tr.reset();
	VH_EQ(net.live, 0u, "socket-leak", "sockets still open");
	c.nontrivial(digest + std::to_string(conf.exts.size()) + net.ch.describe());
}

// envelope errors that never reach the server
static void envelope(Ctx& c) {
	Rng& r = c.rng; Net net(r.next()); net.ch = netChunking(r); SmtpConf conf; conf.seed = r.next(); conf.exts = {"PIPELINING"};
	std::vector<SmtpPlan> plans; size_t np = 0; std::shared_ptr<SmtpServer> srv; net.make = [&]() { return srv = std::make_shared<SmtpServer>(conf, &plans, &np); };
	auto sess = vn::session::create(); sess->getProperties()["transport.smtp.server.address"] = "h";
	auto tr = sess->getTransport("smtp"); tr->setSocketFactory(make_shared<VSocketFactory>(net));
	str body = "Subject: x\r\n\r\nbody"; int kind = (int)r.below(6); bool threw = false; str what; c.note("kind " + std::to_string(kind));
	vmime::mailbox from("a@b.example"); vmime::mailboxList to; to.appendMailbox(make_shared<vmime::mailbox>("c@d.example"));
	auto msg = make_shared<vmime::message>(); msg->getHeader()->Subject()->setValue(vmime::text("x"));
	sm::SMTPSendOptions opts; 
	try {
		ChunkIn is(body, netChunking(r));
		if (kind != 0) tr->connect();
		switch (kind) {
			case 0: tr->send(from, to, is, body.size()); break;
			case 1: tr->send(from, vmime::mailboxList(), is, body.size()); break;
			case 2: tr->send(vmime::mailbox(), to, is, body.size()); break;
			case 3: msg->getHeader()->To()->setValue(vmime::addressList()); tr->send(msg); break;    // no From
			case 4: msg->getHeader()->From()->setValue(from); tr->send(msg); break;                  // no recipients
			case 5: { auto ds = make_shared<sm::DSNAttributes>("SUCCESS", "FULL", "id1"); opts.setDSNAttributes(ds); tr->send(from, to, is, body.size(), nullptr, vmime::mailbox(), opts); break; }
		}
	} catch (const vmime::exception& e) { threw = true; what = excName(e); }
	catch (const Hang& h) { fail("hang", h.what); }
	VH_CHECK(threw, "envelope-error", "no error for kind " << kind);
	if (srv) { VH_EQ(srv->got.size(), (size_t)0, "envelope-delivered", "delivered"); }
	// still usable
	try { if (!tr->isConnected()) tr->connect(); ChunkIn is(body, netChunking(r)); tr->send(from, to, is, body.size()); }
	catch (const Hang& h) { fail("hang-after", h.what); } catch (const vmime::exception& e) { fail("after-envelope-error", excName(e)); }
	VH_EQ(srv->got.size(), (size_t)1, "after-envelope-error", "delivered afterwards");
	c.nontrivial(std::to_string(kind) + net.ch.describe()); c.seen("kind", what);
}

void vh::setup() {
	setRule("A conforming SMTP server in the same process parses every byte the client sends (command syntax, use of extensions not offered, commands sent ahead of replies, message data before 354), refuses "
		"according to a random plan (RSET, MAIL, each RCPT, DATA, the data, each BDAT chunk; 421 closes), and records deliveries. Each send() must deliver exactly the given envelope and bytes (a line break may be "
		"added at the end) when everything is accepted, and otherwise throw an error naming the first refusal and deliver nothing; the following sends on the same transport must work the same way.");
	addAssumption("non-ASCII local parts are only sent to servers offering SMTPUTF8; message data given as a stream uses CRLF line breaks");
	addSuite("session", 5000, 120000, session);
	addSuite("envelope", 300, 6000, envelope);
}
