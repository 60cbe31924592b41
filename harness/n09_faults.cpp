// N09: every file-system call of every maildir operation is made the last one of the process, or made to fail.
// ldflags: -Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=write,--wrap=lseek,--wrap=fsync,--wrap=fdatasync,--wrap=ftruncate,--wrap=stat,--wrap=lstat,--wrap=fstat,--wrap=access
// ldflags: -Wl,--wrap=mkdir,--wrap=rmdir,--wrap=unlink,--wrap=remove,--wrap=rename,--wrap=link,--wrap=opendir,--wrap=readdir,--wrap=closedir
#define VFAULT_IMPL
#include "vfault.hpp"
#include "vmaildir.hpp"
#include <vmime/net/maildir/maildir.hpp>
using namespace vh;
typedef vn::fetchAttributes FA; typedef vn::message M;
enum Op { OPEN, STATUS, ADD, COPY, FLAGS, EXPUNGE, CLOSE, CREATE, DESTROY, RENAME, READ, LIST, NOPS };
static const char* NAMES[] = {"open", "status", "append", "copy", "flags", "expunge", "close", "create", "destroy", "rename", "read", "list"};
struct Msg { str content; int flags; bool isNew; str file; };
struct Spec {
	bool courier = false; std::map<Path, std::vector<Msg>> folders; Op op = OPEN; Path f, dest; int flags = 0, mode = 0; size_t nums = 1; str add; bool viaMessage = false, ro = false, sub = false;
	void build(const str& dir) const { Layout l; l.root = dir + "/store"; l.courier = courier; fs::create_directory(l.root); for (auto& x : folders) { l.make(x.first); str d = l.dir(x.first); for (auto& m : x.second) writeFile(d + (m.isNew ? "/new/" : "/cur/") + m.file, m.content); } }
};
static Spec gen(Rng& r) {
	Spec s; s.courier = r.coin(); std::vector<Path> ps = {{"a"}}; if (r.coin()) ps.push_back({"b"}); if (r.coin()) ps.push_back({"a", "c"}); if (r.chance(1, 3)) ps.push_back({"a", "d"}); if (r.chance(1, 3)) ps.push_back({"ab"}); if (r.chance(1, 4)) ps.push_back({"a", "c", "e"});
	int k = 0; for (auto& p : ps) { auto& v = s.folders[p]; for (size_t i = r.below(p == Path{"a"} ? 5 : 3); i-- > 0;) { Msg m; ++k; m.content = "X-Key: " + std::to_string(k) + "\r\n\r\n" + r.from("abc\n", r.chance(1, 6) ? 9000 : r.below(60)); m.isNew = r.chance(1, 4); m.flags = m.isNew ? 0 : genFlags(r); m.file = std::to_string(1700000000 + k) + ".P" + std::to_string(k) + ".host" + (m.isNew ? str() : ":2," + flagLetters(m.flags)); v.push_back(m); } }
	s.op = (Op)r.below(NOPS); s.f = {"a"}; s.dest = r.pick(ps); s.flags = genFlags(r); s.mode = std::vector<int>{(int)M::FLAG_MODE_ADD, (int)M::FLAG_MODE_REMOVE, (int)M::FLAG_MODE_SET}[r.below(3)]; s.nums = r.below(100); s.add = "X-Key: new\r\n\r\n" + r.from("xyz\n", r.chance(1, 3) ? 70000 + r.below(70000) : r.below(100)); if (r.chance(1, 3)) s.flags = r.coin() ? -1 : (int)M::FLAG_RECENT;
	if (s.op == FLAGS && s.flags < 0) s.flags = M::FLAG_SEEN; s.viaMessage = r.chance(1, 4); s.ro = r.chance(1, 6); s.sub = r.coin(); return s;
}
typedef std::map<Path, std::multiset<str>> State;
static State stateOf(const Spec& s, const str& root) { Layout l; l.root = root; l.courier = s.courier; State st; for (auto& f : l.folders()) { auto& x = st[f.first]; for (auto& m : Layout::messages(f.second)) x.insert(m.flags() + ":" + m.content); } return st; }
struct Outcome { bool threw = false; str what; State state; size_t calls = 0, mut = 0; str result; };
// the operation, with the fault; then the checks which need the same objects
static Outcome execute(Ctx& c, const Spec& s, FaultFs::Mode mode, size_t at, int err, bool half, const Outcome* ref) {
	TempTree t; s.build(t.dir); Outcome o; str root = t.dir + "/store"; auto ss = vn::session::create(); ss->getProperties()["store.maildir.server.rootpath"] = root; auto st = ss->getStore("maildir"); g_fs.prefix = root; g_fs.rng = &c.rng; shared_ptr<vn::folder> f, f2; State pre;
	auto key = [&](const str& k) { return k + ":" + NAMES[s.op]; };
	auto arm = [&] { pre = stateOf(s, root); g_fs.arm(mode, at, err, half); };
	try {
		st->connect(); f = st->getFolder(toPath(s.f)); if (s.op != OPEN && s.op != CREATE && s.op != DESTROY && s.op != RENAME && s.op != LIST && !(s.op == STATUS && s.ro)) f->open(vn::folder::MODE_READ_WRITE);
		size_t n = s.op == OPEN || s.op == STATUS ? 0 : f->isOpen() ? f->getMessageCount() : 0; std::vector<size_t> nums; for (size_t i = 1; i <= n; ++i) if ((s.nums >> (i % 6)) & 1) nums.push_back(i); if (nums.empty() && n) nums.push_back(1 + s.nums % n);
		switch (s.op) {
			case OPEN: arm(); f->open(s.ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); break;
			case STATUS: arm(); { size_t a, b; f->status(a, b); } break;
			case ADD: arm(); if (s.viaMessage) { vmime::utility::inputStreamStringAdapter is(s.add); f->addMessage(is, s.add.size(), s.flags); } else { ChunkIn is(s.add, Chunking()); f->addMessage(is, s.add.size(), s.flags); } break;
			case COPY: if (nums.empty()) break; if (s.sub) { f2 = st->getFolder(toPath(s.dest)); if (f2->getFullPath() != f->getFullPath()) f2->open(vn::folder::MODE_READ_ONLY); } arm(); f->copyMessages(toPath(s.dest), vn::messageSet::byNumber(nums)); break;
			case FLAGS: if (nums.empty()) break; arm(); if (s.viaMessage) f->getMessage(nums[0])->setFlags(s.flags, s.mode); else f->setMessageFlags(vn::messageSet::byNumber(nums), s.flags, s.mode); break;
			case EXPUNGE: arm(); f->expunge(); break;
			case CLOSE: arm(); f->close(true); break;
			case CREATE: { auto g = st->getFolder(toPath(s.sub ? Path{"a", "c", "x"} : Path{"x"})); arm(); g->create(vn::folderAttributes()); break; }
			case DESTROY: arm(); f->destroy(); break;
			case RENAME: arm(); f->rename(toPath(s.sub && s.folders.count({"b"}) ? Path{"b", "z"} : Path{"z"})); break;
			case READ: { if (nums.empty()) break; auto m = f->getMessage(nums[0]); arm(); f->fetchMessage(m, FA(FA::SIZE | FA::FLAGS | FA::STRUCTURE | FA::FULL_HEADER)); str d; vmime::utility::outputStreamStringAdapter os(d); m->extract(os); os.flush(); o.result = std::to_string(m->getSize()) + flagLetters(m->getFlags()) + d; break; }
			default: { arm(); std::set<Path> ps; for (auto& x : st->getRootFolder()->getFolders(true)) ps.insert(fromPath(x->getFullPath())); for (auto& p : ps) o.result += show(p); break; }
		}
	} catch (const vmime::exception& e) { o.threw = true; o.what = e.what(); if (str(e.name()).empty()) fail(key("exception"), "exception without a name"); }
	catch (const std::exception& e) { g_fs.disarm(); fail(key("foreign-exception"), str("standard exception: ") + e.what()); }
	o.calls = g_fs.calls; o.mut = g_fs.mutating; bool fired = g_fs.fired; str where = " [" + str(mode == FaultFs::CRASH ? "stopped" : "fault") + " at call " + std::to_string(at) + ": " + esc(g_fs.firedAt.substr(0, 300)) + (o.threw ? ", exception: " + o.what : str(", no exception")) + "]"; g_fs.disarm();
	VH_CHECK(g_fs.unsynced.empty(), key("unsynced"), "data of " + g_fs.unsynced[0] + " not forced to disk before the message became visible" + where);
	o.state = stateOf(s, root);
	if (!ref) { VH_CHECK(!o.threw, key("infra"), "operation failed without a fault: " + o.what); return o; }
	if (!fired) return o; c.count(str("faults: ") + NAMES[s.op]); c.seen("fault points", NAMES[s.op] + g_fs.firedAt.substr(0, g_fs.firedAt.find(' ')) + std::to_string(at) + std::to_string(mode));
	// 1. nothing lost, nothing incomplete
	auto under = [](const Path& p, const Path& q) { return q.size() >= p.size() && std::equal(p.begin(), p.end(), q.begin()); };
	std::map<str, int> files; auto scan = [&](const str& d) { for (auto& e : fs::recursive_directory_iterator(d)) { str dn = e.path().parent_path().filename(); if (!e.is_directory() && (dn == "cur" || dn == "new")) ++files[readFile(e.path())]; } }; scan(root);
	for (auto& x : s.folders) for (auto& m : x.second) { bool del = ((s.op == EXPUNGE || s.op == CLOSE) && x.first == s.f && (m.flags & M::FLAG_DELETED)) || (s.op == DESTROY && under(s.f, x.first)); int have = files.count(m.content) ? files[m.content] : 0; int extra = s.op == COPY && x.first == s.f ? 1 : 0;
		if (!del) VH_CHECK(have >= 1, key("lost"), "message \"" + esc(m.content.substr(0, 12)) + "\" of " + show(x.first) + " is lost" + where); VH_CHECK(have <= 1 + extra, key("twice"), "message \"" + esc(m.content.substr(0, 12)) + "\" is there " + std::to_string(have) + " times" + where); files.erase(m.content); }
	if (s.op == ADD && files.count(s.add)) { VH_CHECK(files[s.add] == 1, key("twice"), "message added twice" + where); files.erase(s.add); }
	VH_CHECK(files.empty(), key("partial"), "incomplete message of " + std::to_string(files.begin()->first.size()) + " bytes is visible" + where);
	// 2. flags are the old or the new ones
	if (s.op != RENAME && s.op != DESTROY) for (auto& x : o.state) for (auto& m : x.second) VH_CHECK(pre[x.first].count(m) || (ref->state.count(x.first) && ref->state.at(x.first).count(m)), key("flags"), "a message of " + show(x.first) + " has other flags than before or after the operation, or is in another folder: " + esc(m.substr(0, 20)) + where);
	if (mode == FaultFs::CRASH) { // a new process finds everything
		auto s2 = vn::session::create(); s2->getProperties()["store.maildir.server.rootpath"] = root; auto t2 = s2->getStore("maildir"); bool detect = false; for (auto& x : stateOf(s, root)) if (!x.first.empty()) detect = true; if (!detect) return o; // (courier is recognised by its folders)
		t2->connect(); for (auto& x : stateOf(s, root)) { auto g = t2->getFolder(toPath(x.first)); if (!g->exists()) { VH_CHECK(s.op == CREATE || s.op == DESTROY || x.second.empty(), key("folder-lost"), "folder " + show(x.first) + " does not exist any more" + where); continue; } g->open(vn::folder::MODE_READ_WRITE); VH_EQ(g->getMessageCount(), x.second.size(), key("recovery"), "messages found by a new session in " + show(x.first) + where); }
		c.nontrivial("c" + g_fs.firedAt + o.what); return o;
	}
	// 3. reported
	if (!o.threw) { VH_CHECK(o.state == ref->state, key("silent"), "operation failed, or was done incompletely, without being reported" + where); if (s.op == READ || s.op == LIST) VH_CHECK(o.result == ref->result, key("silent"), "wrong result without being reported: " + esc(o.result.substr(0, 200)) + where); }
	if (mode == FaultFs::INTR || mode == FaultFs::SHORT) VH_CHECK(!o.threw, key("interrupted"), "operation failed because a system call was interrupted or done in part" + where);
	for (auto& e : fs::recursive_directory_iterator(root)) if (str(e.path().parent_path().filename()) == "tmp") fail(key("leftover"), "file left in tmp" + where);
	// 4. resources, and the same objects afterwards
	if (f && f->isOpen()) { std::multiset<str> want, got; size_t a, u; f->status(a, u); size_t stale = 0; for (size_t i = 1; i <= f->getMessageCount(); ++i) { str d; vmime::utility::outputStreamStringAdapter os(d); auto m = f->getMessage(i); try { m->extract(os); f->fetchMessage(m, FA(FA::FLAGS)); } catch (const vmime::exception&) { ++stale; continue; } os.flush(); got.insert(flagLetters(m->getFlags()) + ":" + d); }
		State now = stateOf(s, root); VH_CHECK(stale == 0, key("after"), "after the failure, messages of the open folder cannot be read" + where); VH_CHECK(got == now[s.f], key("after"), "after the failure, the open folder has other messages than the directory" + where);
		if (o.threw && s.op == FLAGS) { std::vector<size_t> nums; size_t n = f->getMessageCount(); for (size_t i = 1; i <= n; ++i) if ((s.nums >> (i % 6)) & 1) nums.push_back(i); if (nums.empty() && n) nums.push_back(1 + s.nums % n); if (s.viaMessage) nums.resize(1); f->setMessageFlags(vn::messageSet::byNumber(nums), s.flags, s.mode); VH_CHECK(stateOf(s, root) == ref->state, key("retry"), "repeating the operation does not give the result" + where); }
		if (o.threw && (s.op == EXPUNGE || s.op == CLOSE)) { f->expunge(); VH_CHECK(stateOf(s, root) == ref->state, key("retry"), "repeating the operation does not give the result" + where); } }
	f2 = nullptr; f = nullptr; st->disconnect(); VH_CHECK(g_fs.fds.empty() && g_fs.dirs.empty(), key("leak"), "file descriptors left open" + where); c.nontrivial(std::to_string(mode) + g_fs.firedAt + o.what);
	return o;
}
static void run(Ctx& c) {
	Spec s = gen(c.rng); c.note(str(NAMES[s.op]) + (s.courier ? " courier" : " kmail") + " folders " + std::to_string(s.folders.size())); g_fs.fds.clear(); g_fs.dirs.clear();
	Outcome ref = execute(c, s, FaultFs::NONE, 0, 0, false, nullptr); if (!ref.calls) return; c.count("operations"); c.count("calls observed", ref.calls);
	for (size_t i = 0; i < ref.mut; ++i) { execute(c, s, FaultFs::CRASH, i, 0, false, &ref); execute(c, s, FaultFs::CRASH, i, 0, true, &ref); }
	for (size_t i = 0; i < ref.calls; ++i) { int e = std::vector<int>{EIO, EACCES, ENOSPC, EMFILE, ENOMEM}[c.rng.below(5)]; execute(c, s, FaultFs::FAIL, i, e, false, &ref); if (c.rng.chance(1, 4)) execute(c, s, FaultFs::INTR, i, 0, false, &ref); }
	for (size_t i = 0; i < ref.mut; ++i) execute(c, s, FaultFs::NOSPACE, i, 0, false, &ref);
	Outcome sh = execute(c, s, FaultFs::SHORT, 0, 0, false, &ref); VH_CHECK(!sh.threw && sh.state == ref.state && sh.result == ref.result, str("short:") + NAMES[s.op], "result differs when reads and writes are done in part: " + sh.what);
}
void vh::setup() {
	setRule("For random small stores (both on-disk formats) and every operation, the operation is repeated with each of its file-system calls in turn being the last one that has an effect (also half-written), failing with an error, or the disk being full from it on, and with short and interrupted reads and writes. Afterwards every message is on disk complete and once, nothing incomplete is visible, failure was reported, the open folder and a new session agree with the disk, no descriptor or temporary file is left.");
	addAssumption("the process stops between system calls or within a write; directories already on disk survive (power failure of the disk itself is not simulated, only that data is forced to disk before it becomes visible)");
	addSuite("faults", 900, 16000, run, 60);
}
