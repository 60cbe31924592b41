// N10: threads that use objects of their own at the same time; identifiers generated by all of them.
#include "vauth.hpp"
#include "vmsg.hpp"
#include "vmaildir.hpp"
#include <vmime/net/maildir/maildir.hpp>
#include <vmime/net/maildir/maildirUtils.hpp>
#include <vmime/security/digest/messageDigestFactory.hpp>
#include <vmime/utility/random.hpp>
#include <vmime/mdn/MDNHelper.hpp>
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <fcntl.h>
using namespace vh;
using vmime::shared_ptr; using vmime::make_shared;
static const vmime::charset U8("utf-8");
static str gen(const vmime::component& c) { return c.generate(); }
// Each task depends on its seed only, and returns what it found (random identifiers left out).
static str tParse(Rng& r, const str&) {
	str raw = genLooseMessage(r); if (r.coin()) raw = mutate(r, raw); auto m = make_shared<vmime::message>(); str o;
	if (r.coin()) m->parse(raw); else { auto is = make_shared<vmime::utility::inputStreamStringAdapter>(raw); m->parse(is, raw.size()); }
	DumpOpt d; d.offsets = true; o = dumpPart(*m, d); auto c = vmime::clone(m); o += dumpPart(*c, d);
	try { vmime::messageParser p(m); o += std::to_string(p.getAttachmentCount()) + "/" + std::to_string(p.getTextPartCount()) + uText(p.getSubject()); } catch (const vmime::exception& e) { o += e.what(); }
	try { auto a = vmime::attachmentHelper::findAttachmentsInMessage(m); for (auto& x : a) o += uWord(x->getName()); } catch (const vmime::exception& e) { o += e.what(); }
	return o;
}
static str tHeader(Rng& r, const str&) {
	auto h = make_shared<vmime::header>(); for (size_t n = 1 + r.below(8); n-- > 0;) h->appendField(apiField(r));
	vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setMaxLineLength(r.coin() ? 78 : 40 + r.below(60)); ctx.setInternationalizedEmailSupport(r.chance(1, 4)); str s; vmime::utility::outputStreamStringAdapter os(s); h->generate(ctx, os);
	vmime::header g; g.parse(s); return s + uHeader(g);
}
static str tText(Rng& r, const str&) {
	str u = genUni(r, 1 + r.size(120)), o; vmime::text t(u, U8); o = t.generate(); vmime::text b; b.parse(o); o += uText(b); auto d = vmime::text::decodeAndUnfold(genTextValue(r)); o += uText(*d); vmime::word w(genUni(r, 1 + r.below(30)), U8); o += w.generate(); o += genAddressList(r); vmime::addressList l; l.parse(genAddressList(r)); return o + gen(l);
}
static str tCharset(Rng& r, const str&) {
	static const char* sets[] = {"utf-8", "utf-16", "utf-16le", "utf-32", "iso-8859-1", "iso-8859-15", "windows-1252", "koi8-r", "shift_jis", "euc-jp", "gb18030", "big5", "iso-2022-jp", "utf-7", "us-ascii"};
	str in = genUni(r, r.size(200)), mid, o, out; str cs = sets[r.below(15)];
	try { vmime::charset::convert(in, mid, U8, vmime::charset(cs)); vmime::charset::convert(mid, out, vmime::charset(cs), U8); o = cs + mid + out; } catch (const vmime::exception& e) { o = cs + e.what(); }
	if (r.coin()) { vmime::charset::convert(genHost(r), mid, U8, vmime::charset("idna")); o += mid; }
	if (r.chance(1, 4)) o += vmime::charset::getLocalCharset().getName();
	return o;
}
static str tDigest(Rng& r, const str&) {
	auto f = vmime::security::digest::messageDigestFactory::getInstance(); auto d = f->create(r.pickc({"md5", "sha1"})); str b = r.bytes(r.size(3000)); d->update(b); d->finalize(); str o = d->getHexDigest(); return o;
}
static str tEncoder(Rng& r, const str&) {
	auto f = vmime::utility::encoder::encoderFactory::getInstance(); auto e = f->create(r.pickc({"base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary"})); str in = r.bytes(r.size(2000)), o;
	vmime::utility::inputStreamStringAdapter is(in); vmime::utility::outputStreamStringAdapter os(o); e->getProperties()["maxlinelength"] = (int)(20 + r.below(60)); e->encode(is, os); o += std::to_string(f->getEncoderCount()); return o;
}
static str tValues(Rng& r, const str&) {
	str o; vmime::datetime d; d.parse(genDate(r)); o = gen(d); o += std::to_string(d < vmime::datetime(2020, 1, 1, 0, 0, 0)); vmime::datetime n = vmime::datetime::now(); o += n.getYear() > 2000 ? "y" : "n"; n = vmime::datetime(::time(nullptr)); o += n.getYear() > 2000 ? "y" : "n";
	try { vmime::utility::url u(r.pickc({"imap", "smtp", "maildir"}), genHost(r), (unsigned)(1 + r.below(60000)), "/" + r.from("ab%c/", 5), r.from("ab@", 4), r.from("xy:", 3)); u.getParams()["k"] = r.from("abc &=", 6); str s = u; vmime::utility::url v(s); o += s + str(v); } catch (const vmime::exception& e) { o += e.what(); }
	vmime::mailbox m; m.parse(genMailbox(r)); o += gen(m); vmime::relay y; y.parse(genRelay(r)); o += gen(y); vmime::messageIdSequence q; q.parse(genMids(r)); o += gen(q);
	vmime::propertySet p("a=1;b=\"" + r.from("abc", 4) + "\";" + r.from("xyz", 2) + "=no"); for (auto& x : p.getPropertyList()) o += x->getName() + x->getValue(); o += std::to_string(p.getProperty<int>("a")); return o;
}
static str tBuild(Rng& r, const str&) {
	vmime::messageBuilder b; b.setExpeditor(*apiMailbox(r)); vmime::addressList l; l.appendAddress(apiMailbox(r)); b.setRecipients(l); b.setSubject(apiText(r)); if (r.coin()) b.constructTextPart(vmime::mediaType("text", "html"));
	b.getTextPart()->setCharset(U8); b.getTextPart()->setText(make_shared<vmime::stringContentHandler>(genUni(r, r.size(200)))); if (r.coin()) b.attach(make_shared<vmime::defaultAttachment>(make_shared<vmime::stringContentHandler>(r.bytes(r.size(500))), vmime::mediaType("application/octet-stream"), apiText(r), vmime::word("n.bin")));
	auto m = b.construct(); str s = m->generate(); auto n = make_shared<vmime::message>(); n->parse(s); vmime::messageParser p(n); str o = uText(p.getSubject()) + std::to_string(p.getAttachmentCount());
	if (p.getTextPartCount()) o += decodedContents(*p.getTextPartAt(0)->getText()); if (p.getAttachmentCount()) o += decodedContents(*p.getAttachmentAt(0)->getData());
	if (r.coin()) { vmime::mdn::sendableMDNInfos i(n, *apiMailbox(r)); auto md = vmime::mdn::MDNHelper::buildMDN(i, "text\r\n", vmime::charset("us-ascii"), *apiMailbox(r), vmime::disposition(vmime::dispositionActionModes::MANUAL, vmime::dispositionSendingModes::SENT_MANUALLY, vmime::dispositionTypes::DISPLAYED, "")); o += md->generate().empty() ? "0" : "1"; o += std::to_string(vmime::mdn::MDNHelper::isMDN(md)); }
	return o;
}
static str tLogin(Rng& r, const str&) { LoginRun R(r.next()); R.withTracer = true; R.run(r); str o = R.desc + (R.connected ? " connected" : " no"); o += R.worked ? " worked" : R.workExc; for (auto& m : R.A.mechsTried) o += " " + m; return o + R.serverBad; }
static str tMaildir(Rng& r, const str& dir) {
	static std::atomic<int> no{0}; Layout L; L.root = dir + "/m" + std::to_string(no++); fs::create_directory(L.root); L.courier = r.coin(); if (L.courier) { L.make({}); L.make({"a"}); } else L.make({"inbox"}); str o;
	auto s = vn::session::create(); s->getProperties()["store.maildir.server.rootpath"] = L.root; auto st = s->getStore("maildir"); st->connect(); auto root = st->getRootFolder();
	auto f = st->getFolder(vn::folder::path() / vn::folder::path::component(L.courier ? "a" : "inbox")); f->open(vn::folder::MODE_READ_WRITE);
	for (size_t n = r.below(5); n-- > 0;) { str raw = "Subject: " + genToken(r) + "\r\n\r\n" + r.from("abc\r\n", r.size(300)); vmime::utility::inputStreamStringAdapter is(raw); auto set = f->addMessage(is, raw.size(), genFlags(r, false)); (void)set; }
	auto ms = f->getMessages(vn::messageSet::byNumber(1, -1)); if (!ms.empty()) { f->fetchMessages(ms, vn::fetchAttributes(vn::fetchAttributes::FLAGS | vn::fetchAttributes::SIZE | vn::fetchAttributes::FULL_HEADER | vn::fetchAttributes::STRUCTURE)); std::vector<str> v; for (auto& m : ms) { str x = flagLetters(m->getFlags()) + std::to_string(m->getSize()) + m->getHeader()->generate(); vmime::utility::outputStreamStringAdapter os(x); m->extract(os); v.push_back(x); } std::sort(v.begin(), v.end()); for (auto& x : v) o += x; f->deleteMessages(vn::messageSet::byNumber(1)); f->expunge(); }
	f->close(false); for (auto& x : root->getFolders(true)) o += str(show(fromPath(x->getFullPath()))); st->disconnect(); return o;
}
struct Kind { const char* name; str (*fn)(Rng&, const str&); };
static const Kind kinds[] = {{"parse", tParse}, {"header", tHeader}, {"text", tText}, {"charset", tCharset}, {"digest", tDigest}, {"encoder", tEncoder}, {"values", tValues}, {"build", tBuild}, {"login", tLogin}, {"maildir", tMaildir}};
static const size_t NK = sizeof kinds / sizeof *kinds;
struct Task { size_t k; uint64_t seed; };
static str runTask(const Task& t, const str& dir) {
	Rng r(t.seed);
	try { return kinds[t.k].fn(r, dir); } catch (const CaseFail& f) { return "CaseFail " + f.key + " " + f.msg; } catch (const Hang& h) { return "hang " + h.what; } catch (const std::exception& e) { return str("exception ") + e.what(); } catch (...) { return "unknown exception"; }
}
struct Gate { std::atomic<unsigned> n{0}; void wait(unsigned all) { ++n; while (n.load() < all) sched_yield(); } };
static void threads(Ctx& c) {
	Rng& r = c.rng; unsigned nt = 2 + (unsigned)r.below(5); std::vector<std::vector<Task>> plan(nt); std::vector<std::vector<str>> got(nt); TempTree T; bool same = r.chance(1, 2); str desc = std::to_string(nt) + " threads:";
	size_t len = 3 + r.below(10), focus = r.chance(1, 2) ? r.below(NK) : NK;
	for (unsigned i = 0; i < nt; ++i) { std::map<str, int> k; for (size_t j = 0; j < len; ++j) { size_t kind = focus < NK && r.chance(2, 3) ? focus : r.below(NK); if (same && i && r.chance(3, 4)) plan[i].push_back(r.coin() ? plan[0][j] : Task{plan[0][j].k, r.next()}); else plan[i].push_back(Task{kind, r.next()}); ++k[kinds[plan[i].back().k].name]; } for (auto& x : k) desc += " " + x.first + "*" + std::to_string(x.second); desc += ";"; }
	c.note(desc); std::vector<uint64_t> jit; for (unsigned i = 0; i < nt; ++i) jit.push_back(r.next());
	{ Gate g; std::vector<std::thread> ts; std::vector<str> dirs; for (unsigned i = 0; i < nt; ++i) { dirs.push_back(T.dir + "/t" + std::to_string(i)); fs::create_directory(dirs.back()); }
		for (unsigned i = 0; i < nt; ++i) ts.emplace_back([&, i] { Rng j(jit[i]); g.wait(nt); for (auto& t : plan[i]) { switch (j.below(6)) { case 0: sched_yield(); break; case 1: usleep(j.below(300)); break; default:; } got[i].push_back(runTask(t, dirs[i])); } });
		for (auto& t : ts) t.join(); }
	str seq = T.dir + "/seq"; fs::create_directory(seq);
	for (unsigned i = 0; i < nt; ++i) for (size_t j = 0; j < plan[i].size(); ++j) { str e = runTask(plan[i][j], seq); VH_CHECK(e == got[i][j], "result", "task " << kinds[plan[i][j].k].name << " seed " << plan[i][j].seed << " in a thread: " << show(got[i][j]) << ", alone: " << show(e)); c.count(str("task ") + kinds[plan[i][j].k].name); if (e.compare(0, 10, "exception ") == 0) c.count("task ended with an exception"); c.seen("result", e); }
	c.nontrivial(desc);
}
// the first thing a program does, in several threads at once
static void first(Ctx& c) {
	static char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); VH_CHECK(n > 0, "infra", "readlink"); self[n] = 0;
	str err = scratchDir() + "/first.err", out = scratchDir() + "/first.out"; std::error_code ec; fs::remove(out, ec); str idx = std::to_string(1000000 + c.idx), seed = std::to_string(c.rng.below(1u << 30)); c.note("new process, --seed " + seed + " --replay threads " + idx);
	pid_t p = fork(); if (p == 0) { int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); execl(self, self, "--seed", seed.c_str(), "--tier", "quick", "--scratch", scratchDir().c_str(), "--out", out.c_str(), "--replay", "threads", idx.c_str(), (char*)nullptr); _exit(99); }
	VH_CHECK(p > 0, "infra", "fork"); int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; str o = readFile(out), e = readFile(err); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	if (rc != 0) { size_t w = e.find("WARNING: ThreadSanitizer"); if (w == str::npos) w = 0; size_t s = e.find("SUMMARY: "); str sum = s == str::npos ? str() : e.substr(s, e.find('\n', s) - s); str fn = "?"; size_t in = sum.rfind(" in "); if (in != str::npos) fn = sum.substr(in + 4); fail("first:" + fn, "exit code " + std::to_string(rc) + " " + sum + "\n" + e.substr(w, 3000)); }
	VH_CHECK(o.find("\"violation\"") == str::npos, "first:result", o.substr(0, 3000)); VH_CHECK(o.find("\"end\"") != str::npos, "infra", "no end record"); c.count("processes whose first use was concurrent"); c.nontrivial(seed);
}
static std::vector<str> ids(int kind, size_t n) {
	std::vector<str> v; while (n-- > 0) switch (kind) { case 0: v.push_back(vmime::messageId::generateId().generate()); break; case 1: v.push_back(vmime::body::generateRandomBoundaryString()); break; case 2: v.push_back(vmime::net::maildir::maildirUtils::generateId().getBuffer()); break; case 3: v.push_back(vmime::utility::random::getString(20)); break; default: v.push_back(std::to_string(vmime::utility::random::getNext())); }
	return v;
}
static void unique(Ctx& c) {
	Rng& r = c.rng; int kind = (int)r.below(5); unsigned nt = r.coin() ? 1 : 2 + (unsigned)r.below(4); static const char* names[] = {"message ids", "boundaries", "maildir names", "random strings", "random numbers"}; size_t per = nt == 1 ? (kind == 0 ? 2000 : 120000) : kind == 0 ? 400 : 6000; bool forks = kind == 0 || kind == 2; forks = forks && r.coin();
	str desc = str(names[kind]) + " " + std::to_string(nt) + (forks ? " processes" : " threads"); c.note(desc); std::vector<std::vector<str>> all(nt);
	if (forks) { per = 300; std::vector<pid_t> ps; for (unsigned i = 0; i < nt; ++i) { str f = scratchDir() + "/ids" + std::to_string(i); pid_t p = fork(); if (p == 0) { str s; for (auto& x : ids(kind, per)) s += x + "\n"; writeFile(f, s); _exit(0); } VH_CHECK(p > 0, "infra", "fork"); ps.push_back(p); }
		for (auto p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; VH_CHECK(WIFEXITED(st) && !WEXITSTATUS(st), "process", "process status " << st); } for (unsigned i = 0; i < nt; ++i) { std::istringstream s(readFile(scratchDir() + "/ids" + std::to_string(i))); str l; while (std::getline(s, l)) all[i].push_back(l); } }
	else { Gate g; std::vector<std::thread> ts; for (unsigned i = 0; i < nt; ++i) ts.emplace_back([&, i] { g.wait(nt); all[i] = ids(kind, per); }); for (auto& t : ts) t.join(); }
	std::unordered_set<str> s; size_t total = 0, dup = 0; str ex; for (auto& v : all) { VH_EQ(v.size(), per, "infra", "ids"); for (auto& x : v) { ++total; if (!s.insert(x).second) { ++dup; ex = x; } if (kind == 3) VH_EQ(x.size(), (size_t)20, "length", "getString()"); if (kind == 1) for (char ch : x) VH_CHECK(isalnum((unsigned char)ch) || strchr("'()+_,-./:=? ", ch), "boundary", "character in boundary " << show(x)); } }
	// numbers of 31 bits may repeat by chance
	VH_CHECK(dup <= (kind == 4 ? total / 1000 : 0), "unique", desc << ": " << dup << " of " << total << " repeat, eg. " << show(ex));
	if (!forks && nt == 1 && all[0].size() > 1000) { size_t e = 0; for (size_t i = 0; i < 1000; ++i) e += ids(kind, 1)[0] == all[0][i]; VH_CHECK(e <= 1, "unique", desc << ": the sequence starts again"); }
	c.count(names[kind], total); c.nontrivial(desc + std::to_string(c.idx));
}
void vh::setup() {
	setRule("Threads started together run random tasks on objects of their own (parsing, building, encoding, converting, hashing, values, network logins with SASL over in-process servers, maildir folders), watched by ThreadSanitizer; each result is compared with the one of the same task run alone afterwards. New processes run this as the first thing they do, so that shared tables are set up by racing threads. Identifiers generated by threads and processes are all compared.");
	addSuite("first", 96, 3000, first, 120);
	addSuite("threads", 160, 6000, threads, 120);
	addSuite("unique", 60, 1500, unique, 120);
}
