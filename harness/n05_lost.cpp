// N05: scripted SMTP, POP3 and IMAP sessions; the connection is cut, corrupted or stalled at enumerated byte positions.
#include "vsmtp.hpp"
#include "vpop3.hpp"
#include "vimap.hpp"
#include <vmime/net/imap/imap.hpp>
#include "vmsg.hpp"
using namespace vh;
typedef vn::fetchAttributes FA; typedef vn::message M;

struct NotRun {};
struct LocalFault {};
struct Op { str name, result, exc; int state = 0; bool soft = false; long d0 = 0, d1 = 0, a1 = 0; unsigned long clock = 0; }; // state: 1 ok, 2 documented exception, 3 not run
struct Run {
	Net net; bool faulty = false; bool stopAfterFailure = false; std::vector<Op> ops; std::vector<str> delivered; std::set<str> mayDeliver; str bad; bool failed = false;
	str localFaultAt; long localAfter = -1; bool localHit = false; bool localVm = false;
	explicit Run(uint64_t s) : net(s) {}
	bool op(const str& name, bool soft, const std::function<str()>& f) {
		Op o; o.name = name; o.soft = soft; o.d0 = net.delivered; unsigned long c0 = net.clock; net.idle = 0;
		if (failed && stopAfterFailure && !soft) o.state = 3;
		else try { o.result = f(); o.state = 1; }
		catch (const NotRun&) { o.state = 3; }
		catch (const LocalFault&) { o.state = 2; o.exc = "local fault"; }
		catch (const Hang& h) { fail("hang", name + ": " + h.what + trail()); }
		catch (const vmime::exception& e) { o.state = 2; o.exc = excName(e); if (dynamic_cast<const vmime::exceptions::operation_timed_out*>(&e)) o.exc = "timed out"; }
		catch (const std::exception& e) { fail("undocumented-exception", name + ": " + excName(e) + trail()); }
		o.d1 = net.delivered; o.a1 = net.accepted; o.clock = net.clock - c0; if (o.state == 2) failed = true; ops.push_back(o); return o.state == 1;
	}
	str trail() const { str s = " after"; for (auto& o : ops) s += " " + o.name + (o.state == 1 ? "" : "(" + o.exc + ")"); for (auto& c : net.conns) if (auto l = dynamic_cast<LineServer*>(c.get())) s += " | client sent ..." + q(l->log.size() > 200 ? l->log.substr(l->log.size() - 200) : l->log); return s; }
};
// a sink that fails after some bytes, when told to
struct Sink : vmime::utility::outputStream {
	Run& R; str name, got; Sink(Run& r, const str& n) : R(r), name(n) {}
	void writeImpl(const byte_t* d, const size_t n) { got.append((const char*)d, n); if (R.localFaultAt == name && (long)got.size() > R.localAfter) { R.localHit = true; if (R.localVm) throw vmime::exceptions::system_error("disk full"); throw LocalFault(); } }
	void flush() {}
};
struct Source : vmime::utility::inputStream {
	Run& R; str name; ChunkIn in; Source(Run& r, const str& n, const str& d, const Chunking& c) : R(r), name(n), in(d, c) {}
	bool eof() const { return in.eof(); } void reset() { in.reset(); } size_t skip(const size_t n) { return in.skip(n); }
	size_t read(byte_t* const b, const size_t n) { if (R.localFaultAt == name && (long)in.pos >= R.localAfter) { R.localHit = true; if (R.localVm) throw vmime::exceptions::system_error("read error"); throw LocalFault(); } return in.read(b, n); }
};
static str num(size_t n) { return std::to_string(n); }
template <class T> static const T& need(const T& p) { if (!p) throw NotRun(); return p; }

// ------------------------------------------------------------------ scripts: all choices from `r`
struct Client { // the object under test, kept for the reconnection
	shared_ptr<vn::service> sv; std::function<str()> again; std::function<void()> drop;
};
static void useTimeout(const shared_ptr<vn::service>& sv, Run& R) { if (R.net.useTimeout) sv->setTimeoutHandlerFactory(make_shared<VTimeoutFactory>(R.net)); }

static str smtpLines(Rng& r) { str s = "Subject: " + r.from("ab .", r.below(10)) + "\r\n\r\n"; for (size_t n = r.below(6); n-- > 0;) s += r.pickc({".", "..", "a", "", "QUIT", "RSET", ".x"}) + r.from("xyz .", r.below(40)) + "\r\n"; if (r.chance(1, 8)) s += r.from("abc\r\n", 3000); return s; }
static void smtp(Run& R, Rng& r, Client& C) {
	auto conf = std::make_shared<SmtpConf>(); conf->seed = r.next(); conf->multi = r.coin(); conf->ehlo = r.chance(4, 5); if (conf->ehlo) for (auto e : {"PIPELINING", "CHUNKING", "SIZE 10000000", "SMTPUTF8", "8BITMIME", "DSN"}) if (r.coin()) conf->exts.push_back(e);
	auto plans = std::make_shared<std::vector<SmtpPlan>>(); auto next = std::make_shared<size_t>(0); std::vector<std::shared_ptr<SmtpServer>>* srvs = new std::vector<std::shared_ptr<SmtpServer>>; std::shared_ptr<std::vector<std::shared_ptr<SmtpServer>>> keep(srvs);
	R.net.make = [=]() { auto s = std::make_shared<SmtpServer>(*conf, plans.get(), next.get()); keep->push_back(s); (void)plans; (void)next; return s; };
	auto sess = vn::session::create(); auto& P = sess->getProperties(); P["transport.smtp.server.address"] = "h"; P["transport.smtp.options.pipelining"] = r.chance(3, 4); P["transport.smtp.options.chunking"] = r.chance(3, 4);
	auto tr = sess->getTransport("smtp"); tr->setSocketFactory(make_shared<VSocketFactory>(R.net)); useTimeout(tr, R); C.sv = tr;
	auto collect = [&R, keep]() { R.delivered.clear(); for (auto& s : *keep) for (auto& d : s->got) { str x = d.from.local + ">"; for (auto& t : d.to) x += t.local + ","; R.delivered.push_back(x + d.data); } };
	auto send = [&R, collect](const shared_ptr<vn::transport>& t, const str& name, const str& data, size_t nrcpt, const Chunking& ch) {
		vmime::mailbox from("from-" + name + "@a.example"); vmime::mailboxList to; str want = "from-" + name + ">"; for (size_t i = 0; i < nrcpt; ++i) { to.appendMailbox(make_shared<vmime::mailbox>("r" + num(i) + "@b.example")); want += "r" + num(i) + ","; }
		R.mayDeliver.insert(want + data); R.mayDeliver.insert(want + data + "\r\n"); collect(); size_t n = R.delivered.size();
		Source is(R, name, data, ch); t->send(from, to, is, data.size()); collect(); VH_CHECK(R.delivered.size() == n + 1, "false-success", "send() succeeded, " << R.delivered.size() - n << " messages delivered" << R.trail()); return str("sent");
	};
	R.op("connect", false, [&] { tr->connect(); return str(); });
	size_t n = 1 + r.below(3);
	for (size_t i = 0; i < n; ++i) {
		str d = smtpLines(r); size_t k = 1 + r.below(3); Chunking ch = Chunking::random(r); bool noop = r.chance(1, 4); str nm = "send" + num(i);
		if (noop) R.op("noop", false, [&] { tr->noop(); return str(); });
		R.op(nm, false, [&] { return send(tr, nm, d, k, ch); });
	}
	R.op("disconnect", true, [&] { tr->disconnect(); return str(); });
	collect();
	C.again = [=, &R] { if (tr->isConnected()) try { tr->disconnect(); } catch (const vmime::exception&) {} VH_CHECK(!tr->isConnected(), "stays-connected", "isConnected() after disconnect()" << R.trail()); tr->connect(); send(tr, "again", "Subject: x\r\n\r\nagain\r\n", 1, Chunking()); tr->disconnect(); collect(); return str(); };
	C.drop = [srvs = keep, collect, &R] { for (auto& s : *srvs) if (!R.faulty && !s->badMsg.empty()) R.bad = s->badMsg; };
}
static void pop3(Run& R, Rng& r, Client& C) {
	PopConf conf; conf.seed = r.next(); conf.capa = r.coin(); auto box = std::make_shared<std::vector<PopMsg>>(); auto all = std::make_shared<std::vector<PopMsg>>();
	for (size_t n = 1 + r.below(4), i = 0; i < n; ++i) { PopMsg m; m.uid = "u" + num(i); m.content = "Subject: m" + num(i) + "\r\n" + (r.coin() ? "To: <x@y>\r\n" : "") + "\r\n" + popLines(r, 5); if (m.content.size() > 3000) m.content.resize(3000); if (m.content.substr(m.content.size() - 2) != "\r\n") m.content += "\r\n"; box->push_back(m); }
	*all = *box; auto srvs = std::make_shared<std::vector<std::shared_ptr<PopServer>>>();
	R.net.make = [=]() { auto s = std::make_shared<PopServer>(conf, box.get()); srvs->push_back(s); return s; };
	auto sess = vn::session::create(); auto& P = sess->getProperties(); P["store.pop3.server.address"] = "h"; P["store.pop3.auth.username"] = str("user"); P["store.pop3.auth.password"] = str("secret"); P["store.pop3.options.apop"] = false; P["store.pop3.options.sasl"] = false;
	auto st = sess->getStore("pop3"); st->setSocketFactory(make_shared<VSocketFactory>(R.net)); useTimeout(st, R); C.sv = st;
	R.op("connect", false, [&] { st->connect(); return str(); });
	shared_ptr<vn::folder> f; std::vector<shared_ptr<vn::message>> ms; std::set<str> del;
	bool ro = r.chance(1, 4); R.op("open", false, [&] { f = st->getDefaultFolder(); auto g = f; f.reset(); g->open(ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); f = g; return num(f->getMessageCount()); });
	R.op("get", false, [&] { ms = need(f)->getMessages(vn::messageSet::byNumber(1, -1)); return num(ms.size()); });
	size_t steps = 2 + r.below(5); std::set<size_t> gone;
	for (size_t i = 0; i < steps; ++i) {
		int k = (int)r.below(6); size_t j = r.below(all->size()); if (gone.count(j) || (k == 2 && !gone.empty())) continue; if (k == 5 && !ro) gone.insert(j); int at = (r.coin() ? FA::SIZE : 0) | (r.coin() ? FA::UID : 0) | (r.coin() ? FA::FULL_HEADER : 0); bool one = r.coin();
		switch (k) {
			case 0: case 1: { str nm = "extract" + num(i); R.op(nm, false, [&] { if (j >= ms.size()) throw NotRun(); Sink s(R, nm); ms[j]->extract(s); return s.got; }); break; }
			case 2: R.op("fetch", false, [&] { need(f); if (j >= ms.size()) throw NotRun(); if (one) f->fetchMessage(ms[j], FA(at)); else f->fetchMessages(ms, FA(at)); str o; auto& m = ms[j]; if (at & FA::SIZE) try { o += num(m->getSize()); } catch (const vmime::exceptions::unfetched_object&) { o += "?"; } if (at & FA::UID) o += " " + str(m->getUID()); if (at & FA::FULL_HEADER) try { o += uHeader(*m->getHeader()); } catch (const vmime::exceptions::unfetched_object&) { o += "?"; } return o; }); break;
			case 3: R.op("status", false, [&] { size_t a = 0, b = 0; need(f)->status(a, b); return num(a); }); break;
			case 4: R.op("noop", false, [&] { st->noop(); return str(); }); break;
			case 5: if (!ro) R.op("delete", false, [&] { need(f)->deleteMessages(vn::messageSet::byNumber(j + 1)); del.insert((*all)[j].uid); return str(); }); break;
		}
	}
	bool ex = r.coin() && !ro; R.op("close", true, [&] { need(f)->close(ex); return str(); });
	R.op("disconnect", true, [&] { st->disconnect(); return str(); });
	// messages may only disappear when the client asked for it and then ended the session
	std::set<str> asked; for (auto& s : *srvs) for (auto& a : s->acted) if (a.first == "DELE" && a.second >= 1 && a.second <= all->size()) asked.insert((*all)[a.second - 1].uid);
	std::set<str> left; for (auto& m : *box) left.insert(m.uid); bool q2 = false; for (auto& s : *srvs) q2 |= s->quit;
	for (auto& m : *all) if (!left.count(m.uid)) VH_CHECK(ex && asked.count(m.uid) && q2, "lost-message", "message " << m.uid << " is gone" << R.trail());
	auto held = std::make_shared<std::vector<shared_ptr<vn::message>>>(ms); auto fh = f;
	C.again = [=, &R] { if (st->isConnected()) try { st->disconnect(); } catch (const vmime::exception&) {} VH_CHECK(!st->isConnected(), "stays-connected", "isConnected() after disconnect()" << R.trail());
		auto stale = [=, &R](const char* when) { if (held->size() > 20) held->resize(20); for (auto& m : *held) { bool t = false; try { Sink s(R, "-"); m->extract(s); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "extract() of a message " << when << R.trail()); } if (fh) { bool t = false; try { size_t a, b; fh->status(a, b); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "status() of a folder " << when << R.trail()); } }; stale("after disconnect()");
		size_t n = box->size(); st->connect(); stale("of a former connection"); auto g = st->getDefaultFolder(); g->open(vn::folder::MODE_READ_WRITE); VH_EQ(g->getMessageCount(), n, "again", "messages after connecting again"); if (n) { Sink s(R, "-"); g->getMessage(n)->extract(s); VH_CHECK(s.got == (*box)[n - 1].content.substr(0, (*box)[n - 1].content.size() - 2) || s.got == (*box)[n - 1].content, "again", "contents after connecting again " << q(s.got)); } g->close(false); st->disconnect(); return str(); };
	C.drop = [srvs, &R] { for (auto& s : *srvs) if (!R.faulty && !s->badMsg.empty()) R.bad = s->badMsg; };
}
static vn::folder::path toP(const Path& p) { vn::folder::path r; for (auto& c : p) r /= vn::folder::path::component(c, vmime::charset("utf-8")); return r; }
static str structStr(const shared_ptr<const vn::messageStructure>& s) { str o = "("; for (size_t i = 0; i < s->getPartCount(); ++i) { auto p = s->getPartAt(i); o += p->getType().generate() + " " + num(p->getSize()) + structStr(p->getStructure()); } return o + ")"; }
static void imap(Run& R, Rng& r, Client& C) {
	auto W = std::make_shared<IWorld>(); W->sep = r.pick(std::vector<char>{'/', '.'}); W->uidplus = r.coin(); W->condstore = r.chance(1, 3); W->specialUse = r.coin(); W->children = r.coin(); W->saslIr = r.coin(); W->caps = (int)r.below(8); W->eager = r.coin(); if (r.coin()) W->sasl = {"PLAIN"};
	W->make({"INBOX"}); W->make({"Other"}); for (size_t n = r.below(3); n-- > 0;) W->make(genIPath(r, W->sep));
	for (size_t n = 1 + r.below(4); n-- > 0;) { auto m = genIMsg(r, *W); if (m->raw().size() > 2500) m = genIMsg(r, *W); m->flags.erase("\\Deleted"); W->add(*W->boxes[{"INBOX"}], m); }
	auto srvs = std::make_shared<std::vector<std::shared_ptr<ImapServer>>>(); auto seed = std::make_shared<Rng>(r.next());
	R.net.make = [=]() { auto s = std::make_shared<ImapServer>(*W, seed->next()); s->codeRW = true; srvs->push_back(s); return s; };
	auto sess = vn::session::create(); auto& P = sess->getProperties(); P["store.imap.server.address"] = "h"; P["store.imap.auth.username"] = W->user; P["store.imap.auth.password"] = W->pass;
	auto st = sess->getStore("imap"); st->setSocketFactory(make_shared<VSocketFactory>(R.net)); useTimeout(st, R); C.sv = st;
	size_t before = W->boxes[{"INBOX"}]->msgs.size(); std::set<unsigned long> uids; for (auto& m : W->boxes[{"INBOX"}]->msgs) uids.insert(m->uid); auto inbox = W->boxes[{"INBOX"}]; bool destructive = false;
	R.op("connect", false, [&] { st->connect(); return str(); });
	if (r.coin()) R.op("list", false, [&] { std::set<str> o; for (auto& x : st->getRootFolder()->getFolders(true)) o.insert(x->getFullPath().getLastComponent().getBuffer()); str s; for (auto& x : o) s += x + ","; return s; });
	shared_ptr<vn::folder> f; std::vector<shared_ptr<vn::message>> ms; bool ro = r.chance(1, 5);
	R.op("open", false, [&] { auto g = st->getFolder(toP({"INBOX"})); g->open(ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); f = g; return num(f->getMessageCount()); });
	R.op("get", false, [&] { ms = need(f)->getMessages(vn::messageSet::byNumber(1, -1)); return num(ms.size()); });
	int at0 = FA::SIZE | FA::UID | FA::FLAGS | FA::STRUCTURE | (r.coin() ? FA::ENVELOPE : 0) | (r.chance(1, 3) ? FA::FULL_HEADER : 0);
	R.op("fetch", false, [&] { need(f); if (ms.empty()) throw NotRun(); f->fetchMessages(ms, FA(at0)); str o; for (auto& m : ms) { o += num(m->getSize()) + " " + str(m->getUID()) + " " + num(m->getFlags()) + structStr(m->getStructure()); if (at0 & (FA::ENVELOPE | FA::FULL_HEADER)) o += uHeader(*m->getHeader()); } return o; });
	size_t steps = 2 + r.below(5); std::vector<shared_ptr<vn::folder>> opened;
	for (size_t i = 0; i < steps; ++i) {
		int k = (int)r.below(10); size_t j = r.below(before); bool peek = r.coin(); auto am = genIMsg(r, *W); str body = am->raw(); W->known[body] = am; Chunking ch = Chunking::random(r); int fl = r.coin() ? M::FLAG_SEEN : M::FLAG_MARKED; str nm = "op" + num(i);
		switch (k) {
			case 0: case 1: R.op("extract" + nm, false, [&] { if (j >= ms.size()) throw NotRun(); Sink s(R, "extract" + nm); ms[j]->extract(s, nullptr, 0, -1, peek); return s.got; }); break;
			case 2: R.op("part" + nm, false, [&] { if (j >= ms.size()) throw NotRun(); auto p = ms[j]->getStructure()->getPartAt(0); while (p->getStructure()->getPartCount() && p->getType().getType() == "multipart") p = p->getStructure()->getPartAt(p->getStructure()->getPartCount() - 1); Sink s(R, "part" + nm); ms[j]->extractPart(p, s, nullptr, 0, -1, peek); return s.got; }); break;
			case 3: R.op("parsed", false, [&] { if (j >= ms.size()) throw NotRun(); auto p = ms[j]->getParsedMessage(); str o = uHeader(*p->getHeader()); if (!p->getBody()->getPartCount()) { Sink s(R, "-"); p->getBody()->getContents()->extractRaw(s); o += s.got; } return o; }); break;
			case 4: if (!ro) R.op("flags", false, [&] { need(f)->setMessageFlags(vn::messageSet::byNumber(j + 1), fl, M::FLAG_MODE_ADD); VH_CHECK(inbox->msgs[j]->flags.count(fl == M::FLAG_SEEN ? "\\Seen" : "\\Flagged"), "false-success", "setMessageFlags() succeeded, the flag is not set" << R.trail()); return str(); }); break;
			case 5: R.op("append" + nm, false, [&] { size_t n = W->boxes[{"Other"}]->msgs.size(); Source is(R, "append" + nm, body, ch); auto o = st->getFolder(toP({"Other"})); o->open(vn::folder::MODE_READ_WRITE); R.mayDeliver.insert(body); o->addMessage(is, body.size(), fl); VH_EQ(W->boxes[{"Other"}]->msgs.size(), n + 1, "false-success", "messages appended" + R.trail()); opened.push_back(o); return str(); }); R.op("close2", true, [&] { if (opened.empty()) throw NotRun(); opened[0]->close(false); return str(); }); opened.clear(); break;
			case 6: R.op("copy", false, [&] { size_t n = W->boxes[{"Other"}]->msgs.size(); need(f)->copyMessages(toP({"Other"}), vn::messageSet::byNumber(j + 1)); VH_EQ(W->boxes[{"Other"}]->msgs.size(), n + 1, "false-success", "messages copied" + R.trail()); return str(); }); break;
			case 7: if (!ro) { destructive = true; R.op("delete", false, [&] { need(f)->deleteMessages(vn::messageSet::byNumber(j + 1)); VH_CHECK(inbox->msgs[j]->flags.count("\\Deleted"), "false-success", "deleteMessages() succeeded, the flag is not set" << R.trail()); return str(); }); } break;
			case 8: R.op("noop", false, [&] { std::dynamic_pointer_cast<vn::imap::IMAPFolder>(need(f))->noop(); st->noop(); return str(); }); break;
			case 9: R.op("status", false, [&] { size_t a = 0, b = 0; st->getFolder(toP({"INBOX"}))->status(a, b); return num(a) + " " + num(b); }); break;
		}
	}
	bool ex = r.coin() && !ro; R.op("close", true, [&] { need(f)->close(ex); return str(); });
	R.op("disconnect", true, [&] { st->disconnect(); return str(); });
	size_t kept = 0; for (auto& m : inbox->msgs) kept += uids.count(m->uid); if (!(ex && destructive)) VH_EQ(kept, before, "lost-message", "messages left in INBOX" + R.trail());
	for (auto& m : W->boxes[{"Other"}]->msgs) if (m->header.find("appended") != str::npos) { str x = m->raw(); (void)x; }
	auto held = std::make_shared<std::vector<shared_ptr<vn::message>>>(ms); auto fh = f;
	C.again = [=, &R] { if (st->isConnected()) try { st->disconnect(); } catch (const vmime::exception&) {} VH_CHECK(!st->isConnected(), "stays-connected", "isConnected() after disconnect()" << R.trail());
		auto stale = [=, &R](const char* when) { if (held->size() > 20) held->resize(20); for (auto& m : *held) { bool t = false; try { Sink s(R, "-"); m->extract(s); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "extract() of a message " << when << R.trail()); } if (fh) { bool t = false; try { size_t a, b; fh->status(a, b); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "closed", "status() of a folder " << when << R.trail()); } }; stale("after disconnect()");
		if (fh && fh->isOpen()) try { fh->close(false); } catch (const vmime::exception&) {}
		size_t n = inbox->msgs.size(); st->connect(); stale("of a former connection"); auto g = st->getFolder(toP({"INBOX"})); g->open(vn::folder::MODE_READ_WRITE); VH_EQ(g->getMessageCount(), n, "again", "messages after connecting again"); if (n) { Sink s(R, "-"); auto m = g->getMessage(n); m->extract(s); VH_CHECK(s.got == inbox->msgs[n - 1]->raw(), "again", "contents after connecting again " << q(s.got)); } g->close(false); st->disconnect(); return str(); };
	C.drop = [srvs, W, &R] { for (auto& s : *srvs) if (!R.faulty && !s->badMsg.empty()) R.bad = s->badMsg; };
}
typedef void (*Script)(Run&, Rng&, Client&);
static const struct { const char* name; Script fn; } scripts[] = {{"smtp", smtp}, {"pop3", pop3}, {"imap", imap}};

// one run with a fault, compared with the clean one
static void play(Ctx& c, int si, uint64_t seed, Run& R, const Chunking& ch, bool timeouts) {
	R.net.ch = ch; R.net.useTimeout = timeouts; Rng r(seed); Client C; 
	scripts[si].fn(R, r, C);
	if (!R.faulty) { for (auto& o : R.ops) VH_CHECK(o.state == 1, "clean", o.name << ": " << o.exc << R.trail()); }
	else for (auto& d : R.delivered) VH_CHECK(R.mayDeliver.count(d), "partial-delivery", "the server got a message nobody sent: " << q(d.substr(0, 300)) << R.trail());
	// the fault is over: the same object connects again
	if (R.faulty && (R.net.fault.cutAfterDelivered >= 0 || R.net.fault.cutAfterSent >= 0 || R.net.fault.closeAfterGarbage) && (R.net.faulted || R.net.garbled)) for (size_t i = 0; i < R.net.conns.size(); ++i) if (R.net.fault.onlyConn < 0 || R.net.fault.onlyConn == (int)i) { R.net.conns[i]->closed = true; R.net.conns[i]->out.clear(); R.net.conns[i]->outPos = 0; }
	bool hadFault = R.net.faulted; str lf = R.localFaultAt; R.net.fault = Fault(); R.localFaultAt.clear(); R.net.idle = 0; R.net.maxIdleAfterFault = 0;
	try { C.again(); } catch (const Hang& h) { fail("hang-again", "connecting again: " + h.what + R.trail()); } catch (const vmime::exception& e) { fail("again", "connecting again: " + excName(e) + R.trail()); } catch (const std::exception& e) { fail("again", "connecting again: " + excName(e) + R.trail()); }
	for (auto& d : R.delivered) VH_CHECK(R.mayDeliver.count(d), "partial-delivery", "the server got a message nobody sent: " << q(d.substr(0, 300)) << R.trail());
	C.drop(); C.again = nullptr; C.sv.reset(); if (!R.faulty && !R.bad.empty()) fail("clean", R.bad);
	R.localFaultAt = lf; R.net.faulted = hadFault; VH_EQ(R.net.live, 0u, "socket-leak", "sockets still open" + R.trail());
}
static void compare(Ctx& c, int si, const Run& A, const Run& B, const str& what, long cut, bool bySent) {
	for (size_t i = 0; i < B.ops.size() && i < A.ops.size(); ++i) {
		const Op &a = A.ops[i], &b = B.ops[i]; c.seen("outcome", str(scripts[si].name) + " " + a.name.substr(0, 5) + " " + (b.state == 1 ? "ok" : b.state == 3 ? "not run" : b.exc.substr(0, 24)));
		if (b.state != 1 || a.soft) continue;
		if (cut >= 0) VH_CHECK(a.d1 == a.d0 || (bySent ? a.a1 - (a.name.compare(0, 6, "append") ? 0 : 2) <= cut : a.d1 <= cut), "false-success", a.name << " succeeded although the connection was lost before the answer was complete (" << what << ", the answer ends at " << (bySent ? a.a1 : a.d1) << ")" << B.trail());
		bool prior = true; for (size_t k = 0; k < i; ++k) prior &= B.ops[k].state == 1; if (a.name == "status" && !prior) continue; // depends on what was done before
		VH_EQ(b.result, a.result, "false-result", "result of " + a.name + ", " + what + B.trail());
	}
	c.count("faulty runs"); for (auto& o : B.ops) c.count(o.state == 1 ? "operations completed" : o.state == 2 ? "operations ended by an exception" : "operations not started");
}
static str genGarbage(Rng& r, bool line) {
	str s;
	switch (r.below(line ? 8 : 3)) {
		case 0: s = r.from("~!x{}()\"\\*%# \t\x80\xff", 1 + r.below(40)); break;
		case 1: s = r.bytes(1 + r.below(200)); break;
		case 2: s = str(1 + r.below(20000), 'x'); break;
		case 3: s = r.pickc({"* BYE going down", "-ERR [SYS/TEMP] down", "421 4.3.2 closing", "554 no", "* BAD what", "* OK [UNSEEN x]", "* 1 EXPUNGE", "* 0 EXPUNGE", "* 99 EXPUNGE", "* 3 EXISTS", "* 99 FETCH (FLAGS (\\Seen))", "* 1 FETCH (BODY[] {5}", "* 1 FETCH (UID x)", "* LIST", "+ go ahead", "+OK", "+", "250", "250-", "25", "abc-def", "9999 x", "* FLAGS (", "a001", "* 1 FETCH (BODY[] {99999999999999999999}", "* 1 FETCH (BODYSTRUCTURE (((((((((", "* CAPABILITY", "* SEARCH 1 2 x", "334 !!!!", "+ !!!!", "* 1 FETCH (RFC822.SIZE 99999999999999999999999)", "* STATUS \"\" (MESSAGES -1)"}) + r.pickc({"\r\n", "\r\n", "\n", "", "\r"}); break;
		case 4: s = r.from("0123456789", 1 + r.below(6)) + r.pickc({" ", "-", ""}) + r.from("abc ", r.below(20)) + "\r\n"; break;
		case 5: for (size_t n = 1 + r.below(40); n-- > 0;) s += r.pickc({"250-x", "* OK x", "+OK x", ".", "", "..", "* 1 EXPUNGE", "x y z", "(", ")", "\"", "{3}"}) + "\r\n"; break;
		case 6: s = str(1 + r.below(3000), r.pickc({"(", "\"", "{", "*", "+", ")", " ", "0", "\\"})[0]) + (r.coin() ? "\r\n" : ""); break;
		case 7: s = "* " + r.from("0123456789 ()\"{}ABCDEFLINKOS[]\\", 1 + r.below(60)) + "\r\n"; break;
	}
	for (auto& ch : s) if (!line && (ch == '\n' || ch == '\r')) ch = 'x';
	return s;
}
static void cuts(Ctx& c, int si) {
	Rng& r = c.rng; uint64_t seed = r.next(), nseed = r.next(); Chunking ch = netChunking(r); if (r.coin()) ch.mode = 0;
	Run A(nseed); play(c, si, seed, A, ch, false); long D = A.ops.back().d1, S = A.ops.back().a1; c.note(str(scripts[si].name) + A.trail().substr(0, 200) + " bytes " + std::to_string(D) + "/" + std::to_string(S) + " " + ch.describe());
	c.nontrivial(A.trail() + std::to_string(D)); c.count("clean sessions"); c.count("bytes of dialogue", D + S);
	long budget = c.thorough ? 600 : 60, step = std::max(1L, (D + S) / budget), at = (long)r.below(step); unsigned positions = 0;
	for (; at <= D + S; at += step) {
		bool sent = at > D; long pos = sent ? at - D : at; Run B(nseed); B.faulty = true; B.stopAfterFailure = r.coin(); bool silent = r.coin(); long cut = pos; str what; bool conns = r.chance(1, 3), late = false;
		int kind = (int)r.below(sent ? 1 : 4); // cut, garbage and close, stall
		if (kind <= 1) { (sent ? B.net.fault.cutAfterSent : B.net.fault.cutAfterDelivered) = pos; B.net.fault.silent = silent && !sent; what = str(sent ? "cut after sending " : silent ? "silent after receiving " : "cut after receiving ") + std::to_string(pos); if (sent) silent = false; }
		else if (kind == 2) { B.net.fault.garbageAfter = pos; B.net.fault.garbage = genGarbage(r, false); B.net.fault.closeAfterGarbage = true; silent = false; what = "garbage and cut after receiving " + std::to_string(pos) + ": " + q(B.net.fault.garbage.substr(0, 60)); if (B.net.fault.garbage.find_first_not_of("x~!{}()\"\\*%# \t\x80\xff") != str::npos) cut = -1; }
		else { B.net.fault.stallAfter = pos; B.net.fault.stallTicks = 1 + r.below(50); if ((late = r.chance(1, 3))) B.net.fault.stallTicks = 20 + r.below(30), B.stopAfterFailure = r.chance(1, 4); else B.net.allowTimeouts = (unsigned)(B.net.fault.stallTicks / 20); silent = true; cut = -1; what = str(late ? "late by " : "stalled for ") + std::to_string(B.net.fault.stallTicks) + " after receiving " + std::to_string(pos); }
		if (conns && kind <= 1 && si == 2) { B.net.fault.onlyConn = 1; cut = -1; what += " (second connection)"; }
		c.note(what); ++positions; unsigned long stall = B.net.fault.stallTicks;
		play(c, si, seed, B, ch, silent || r.coin());
		if (kind == 3 && !late) { // nothing was lost: everything succeeds, and time-outs are counted from the last reset
			for (size_t i = 0; i < B.ops.size(); ++i) VH_CHECK(B.ops[i].state == 1, "stall", B.ops[i].name << " failed with " << B.ops[i].exc << ", " << what << ", the time-out handler asked " << B.net.timeouts << " times" << B.trail());
			VH_CHECK(B.net.timeouts <= stall / 20, "stall", "time-out handler called " << B.net.timeouts << " times in " << stall << " ticks");
		}
		compare(c, si, A, B, what, kind == 3 ? -1 : cut, sent); if (B.net.faulted || B.net.garbled) c.count(late ? "late replies" : kind == 3 ? "stalls" : kind == 2 ? "cut after garbage" : silent ? "silences" : "cuts");
		if (silent && kind <= 1) c.count("time-outs", B.net.timeouts);
	}
	c.count("positions", positions);
}
static void garbage(Ctx& c, int si) {
	Rng& r = c.rng; uint64_t seed = r.next(), nseed = r.next(); Chunking ch = netChunking(r);
	Run A(nseed); play(c, si, seed, A, ch, false); long D = A.ops.back().d1; c.note(str(scripts[si].name) + " bytes " + std::to_string(D)); c.nontrivial(A.trail() + std::to_string(D));
	for (int n = 0; n < (c.thorough ? 60 : 15); ++n) {
		Run B(nseed); B.faulty = true; B.net.fault.garbageAfter = r.chance(1, 3) ? A.ops[r.below(A.ops.size())].d0 : r.coin() ? r.pick(A.net.turns) : (long)r.below(D + 1); B.net.fault.garbage = genGarbage(r, true); B.net.fault.closeAfterGarbage = r.chance(1, 3); B.stopAfterFailure = r.coin();
		c.note("garbage at " + std::to_string(B.net.fault.garbageAfter) + ": " + q(B.net.fault.garbage.substr(0, 100))); c.count("garbage runs");
		try { play(c, si, seed, B, ch, true); } catch (const CaseFail& e) { if (e.key != "lost-message" && e.key != "partial-delivery" && e.key != "false-success") throw; } // what the server seemed to say
		for (auto& o : B.ops) { c.seen("garbage outcome", str(scripts[si].name) + " " + o.name.substr(0, 5) + " " + (o.state == 1 ? "ok" : o.exc.substr(0, 24))); c.count(o.state == 1 ? "operations completed" : "operations ended by an exception"); }
	}
}
// an unexpected but complete reply before each of the server's answers
static void turns(Ctx& c, int si) {
	Rng& r = c.rng; uint64_t seed = r.next(), nseed = r.next(); Chunking ch = netChunking(r);
	static const std::vector<str> canned[3] = {
		{"250 ok", "250-more", "354 go", "334 ", "334 !!!!", "334 YWJj", "235 ok", "220 ready", "221 bye", "251 ok", "421 closing", "450 later", "500 no", "503 order", "535 no", "552 full", "554 no", "", " ", "250", "25", "2500 x", "-", "abc", "250-a\r\n251 b", "250-a\r\n\r\n250 b", "999 x", "000 x", "250 SIZE x", "250-AUTH\r\n250 SIZE 99999999999999999999"},
		{"+OK", "+OK x", "+ ", "+ YWJj", "+ !!!!", "-ERR", "-ERR no", "", ".", "..", "+OK 1 2", "+OK 2 x", "+OK x 2", "+OK 3000 1", "1 2", "+", "-", "+OKAY", "+OK <a@b>", "-ERR [IN-USE] x", "* OK"},
		{"+", "+ ", "+ go ahead", "+ YWJj", "+ !!!!", "* OK x", "* NO x", "* BAD x", "* BYE x", "* PREAUTH x", "* OK [ALERT] x", "* OK [READ-ONLY] x", "* OK [UIDVALIDITY 0] x", "* OK [UIDNEXT 1] x", "* 0 EXISTS", "* 1 EXISTS", "* 999 EXISTS", "* 1 EXPUNGE", "* 5 RECENT", "* CAPABILITY", "* CAPABILITY IMAP4rev1", "* LIST () NIL a", "* LIST (\\Noselect) \"/\" \"\"", "* LSUB () \"/\" x", "* SEARCH", "* SEARCH 1 2 3", "* FLAGS ()", "* STATUS a (MESSAGES 1)", "* STATUS a ()", "* 1 FETCH ()", "* 1 FETCH (FLAGS ())", "* 1 FETCH (UID 1)", "* 99 FETCH (UID 99 FLAGS ())", "* 1 FETCH (BODY[] NIL)", "* 1 FETCH (BODY[] {3}\r\nabc)", "* 1 FETCH (BODYSTRUCTURE NIL)", "* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL))", "* 1 FETCH (MODSEQ (1))", "* VANISHED 1", "a001 OK x", "a002 NO x", "a003 OK x", "a005 BAD x", "a010 OK x", "a999 OK", "", " "}};
	Run A(nseed); play(c, si, seed, A, ch, false); c.nontrivial(A.trail()); str g = r.pick(canned[si]) + "\r\n"; bool close = r.chance(1, 3); if (r.chance(1, 4)) g += r.pick(canned[si]) + "\r\n"; c.note(str(scripts[si].name) + " " + q(g) + (close ? " and closed" : ""));
	std::vector<long> at = A.net.turns; size_t step = c.thorough ? 1 : 1 + at.size() / 12;
	for (size_t i = r.below(step); i < at.size(); i += step) {
		Run B(nseed); B.faulty = true; B.net.fault.garbageAfter = at[i]; B.net.fault.garbage = g; B.net.fault.closeAfterGarbage = close; B.stopAfterFailure = r.coin(); c.note("at turn " + std::to_string(i) + " (" + std::to_string(at[i]) + ")"); c.count("replies inserted");
		try { play(c, si, seed, B, ch, true); } catch (const CaseFail& e) { if (e.key != "lost-message" && e.key != "partial-delivery" && e.key != "false-success") throw; }
		for (auto& o : B.ops) c.seen("inserted reply", g.substr(0, 12) + " " + o.name.substr(0, 5) + (o.state == 1 ? " ok" : " exception"));
	}
}
// the application's own stream fails in the middle: the session must not go on with misplaced data
static void local(Ctx& c, int si) {
	Rng& r = c.rng; uint64_t seed = r.next(), nseed = r.next(); Chunking ch = netChunking(r);
	Run A(nseed); play(c, si, seed, A, ch, false); c.note(str(scripts[si].name)); std::vector<str> names; for (auto& o : A.ops) if (!o.name.compare(0, 4, "send") || !o.name.compare(0, 7, "extract") || !o.name.compare(0, 4, "part") || !o.name.compare(0, 6, "append")) names.push_back(o.name);
	if (names.empty()) throw CaseSkip{"no streams"};
	for (int n = 0; n < 6; ++n) {
		Run B(nseed); B.faulty = true; B.localFaultAt = r.pick(names); B.localAfter = (long)r.size(300); B.localVm = r.coin(); c.note("stream of " + B.localFaultAt + " fails after " + std::to_string(B.localAfter));
		play(c, si, seed, B, ch, true); if (!B.localHit) continue; c.count("stream failures"); c.nontrivial(A.trail() + B.localFaultAt);
		bool done = false; for (auto& o : B.ops) if (o.name == B.localFaultAt) { done = true; VH_CHECK(o.state == 2, "local-success", o.name << " succeeded although its stream failed" << B.trail()); }
		VH_CHECK(done, "local", "the operation"); compare(c, si, A, B, "stream of " + B.localFaultAt + " failed after " + std::to_string(B.localAfter), -1, false);
	}
}
void vh::setup() {
	setRule("Random scripted sessions of SMTP, POP3 and IMAP run against conforming servers in the same process, first undisturbed, then again with the same choices and one fault at an enumerated byte position of what was received or sent: the "
		"connection is closed, goes silent (with a time-out handler), is closed after junk, or pauses and goes on. Every operation must end with one of the library's exceptions within bounded reading and waiting; an operation may only succeed if its "
		"answer was complete before the fault, with the same result as in the undisturbed run; a pause must not change anything; nothing is delivered that was not sent, no message disappears; the same object then connects and works again and leaves no open socket. "
		"Further runs insert plausible and random garbage, also whole unexpected replies at the beginning of each answer, and make the application's own streams fail in the middle.");
	for (int i = 0; i < 3; ++i) { str n = scripts[i].name; addSuite("cut-" + n, i == 2 ? 70 : 90, 4000, [i](Ctx& c) { cuts(c, i); }, 60); addSuite("garbage-" + n, 100, 5000, [i](Ctx& c) { garbage(c, i); }, 30); addSuite("turns-" + n, 150, 6000, [i](Ctx& c) { turns(c, i); }, 30); addSuite("local-" + n, 150, 5000, [i](Ctx& c) { local(c, i); }, 30); }
	addAssumption("an application's time-out handler returns the decision only; the library resets it (timeoutHandler.hpp)");
}
