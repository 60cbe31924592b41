// N08: a maildir store driven at random, compared with a plain model, with the directory tree read independently, and with new sessions.
#include "vmaildir.hpp"
#include <vmime/net/maildir/maildir.hpp>
#include "vmsg.hpp"
using namespace vh;
typedef vn::fetchAttributes FA; typedef vn::message M;
struct Part { str name, body; };
struct MMsg { str content; int flags; std::vector<Part> parts; bool parsed = true; };
static MMsg genMsg(Rng& r, int key) {
	MMsg m; m.flags = 0; str nl = r.chance(1, 4) ? "\n" : "\r\n"; str h = "X-Key: " + std::to_string(key) + nl;
	if (r.coin()) h += "Subject: " + r.from("abc def", 1 + r.below(20)) + "x" + nl; if (r.coin()) h += "From: a@b.example" + nl; if (r.chance(1, 10)) for (int i = 0; i < 40; ++i) h += "X-Fill-" + std::to_string(i) + ": " + r.from("abcdefgh ", 60) + "x" + nl;
	auto body = [&] { str b; for (size_t i = r.below(8); i-- > 0;) b += r.from("abc .:X-", r.below(40)) + (r.chance(1, 8) ? nl : str()) + nl; if (r.chance(1, 12)) b += r.bytes(r.below(4000)); if (r.chance(1, 30)) b += r.from("0123456789abcdef", 70000); return b; };
	if (r.coin()) { m.content = h + nl + body(); return m; }
	str bd = "=_b" + r.from("abcdef0123", 12); h += "MIME-Version: 1.0" + nl + "Content-Type: multipart/mixed; boundary=\"" + bd + "\"" + nl + nl;
	if (r.coin()) h += "preamble" + nl;
	for (size_t i = 1 + r.below(4); i-- > 0;) { Part p; p.name = "p" + std::to_string(i) + r.from("abc", 3); p.body = body(); h += "--" + bd + nl + "Content-Type: " + r.pickc({"text/plain", "application/x-a"}) + nl + "X-Part: " + p.name + nl + nl + p.body + nl; m.parts.push_back(p); }
	m.content = h + "--" + bd + "--" + nl; if (r.coin()) m.content += "epilog" + nl;
	return m;
}
struct Watch : vn::events::messageChangedListener, vn::events::messageCountListener, vn::events::folderListener {
	std::vector<size_t> changed, added, removed; std::vector<str> folder;
	void messageChanged(const shared_ptr<vn::events::messageChangedEvent>& e) { changed = e->getNumbers(); }
	void messagesAdded(const shared_ptr<vn::events::messageCountEvent>& e) { added.insert(added.end(), e->getNumbers().begin(), e->getNumbers().end()); }
	void messagesRemoved(const shared_ptr<vn::events::messageCountEvent>& e) { removed.insert(removed.end(), e->getNumbers().begin(), e->getNumbers().end()); }
	void folderCreated(const shared_ptr<vn::events::folderEvent>& e) { folder.push_back("created"); }
	void folderRenamed(const shared_ptr<vn::events::folderEvent>& e) { folder.push_back("renamed"); }
	void folderDeleted(const shared_ptr<vn::events::folderEvent>& e) { folder.push_back("deleted"); }
	void clear() { changed.clear(); added.clear(); removed.clear(); folder.clear(); }
};
struct Held { shared_ptr<vn::message> m; int key; bool gone = false; str uid; };
struct Open { shared_ptr<vn::folder> f; Path p; bool ro = false; std::vector<int> order; std::vector<Held> held; std::shared_ptr<Watch> w; };
typedef std::map<int, MMsg> Box;

struct World {
	Ctx& c; Rng& r; Layout lay; str box; std::map<Path, Box> model; int nextKey = 1; shared_ptr<vn::store> st; std::vector<Open> open; str log; std::set<Path> listed;
	World(Ctx& c_, const str& b) : c(c_), r(c_.rng), box(b) {}
	void note(const str& s) { log += s + "; "; c.note(s + ";"); }
	shared_ptr<vn::store> session() { auto s = vn::session::create(); s->getProperties()["store.maildir.server.rootpath"] = lay.root; auto t = s->getStore("maildir"); t->connect(); return t; }
	static str extract(const shared_ptr<vn::message>& m) { str o; vmime::utility::outputStreamStringAdapter os(o); m->extract(os); os.flush(); return o; }
	int keyOf(const str& content, const Path& p, const str& what) { for (auto& x : model[p]) if (x.second.content == content) return x.first; fail("content", what + ": folder " + show(p) + " has a message that is not in the model: " + q(content.substr(0, 300))); }
	// learn the order of messages the object has found since last time
	void sync(Open& o, bool all) {
		size_t n = o.f->getMessageCount(), known = o.order.size(); VH_CHECK(n >= known, "count", "getMessageCount() of " << show(o.p) << " is " << n << ", " << known << " messages were known");
		for (size_t i = known + 1; i <= n; ++i) { int k = keyOf(extract(o.f->getMessage(i)), o.p, "new message"); VH_CHECK(std::find(o.order.begin(), o.order.end(), k) == o.order.end(), "duplicate", "message " << k << " is listed twice in " << show(o.p)); o.order.push_back(k); }
		if (all) VH_EQ(o.order.size(), model[o.p].size(), "count", "messages in " << show(o.p));
		if (!o.w->added.empty()) { std::vector<size_t> e; for (size_t i = known + 1; i <= n; ++i) e.push_back(i); VH_CHECK(o.w->added == e, "event", "messagesAdded numbers for " << show(o.p)); } else VH_EQ(n, known, "event", "no notification of new messages in " << show(o.p));
		o.w->added.clear();
	}
	void verifyOpen(Open& o) {
		for (size_t i = 1; i <= o.order.size(); ++i) if (r.chance(1, 3)) { auto m = o.f->getMessage(i); MMsg& e = model[o.p][o.order[i - 1]]; FA fa(FA::FLAGS | FA::SIZE | FA::UID); o.f->fetchMessage(m, fa); VH_EQ(flagLetters(m->getFlags()), flagLetters(e.flags), "flags", "flags of message " << i); VH_EQ(m->getSize(), e.content.size(), "size", "size of message " << i); if (r.chance(1, 3)) VH_CHECK(extract(m) == e.content, "content", "content of message " << i); }
		for (auto& h : o.held) {
			if (h.gone) { VH_CHECK(h.m->isExpunged(), "expunged", "isExpunged()"); bool t = false; try { extract(h.m); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "expunged", "extract() of an expunged message"); continue; }
			VH_CHECK(!h.m->isExpunged(), "expunged", "message is marked as expunged"); size_t n = h.m->getNumber(); VH_CHECK(n >= 1 && n <= o.order.size() && o.order[n - 1] == h.key, "number", "number of a message is " << n); VH_CHECK(extract(h.m) == model[o.p][h.key].content, "content", "message object " << n << " has other content");
			VH_EQ(flagLetters(h.m->getFlags()), flagLetters(model[o.p][h.key].flags), "flags", "flags of a message object"); o.f->fetchMessage(h.m, FA(FA::UID)); VH_EQ(str(h.m->getUID()), h.uid, "uid", "unique id of a message changed");
		}
	}
	void verifyAll() {
		str bad; auto disk = lay.folders(&bad); VH_CHECK(bad.empty(), "tree", bad);
		for (auto& f : model) VH_CHECK(disk.count(f.first), "tree", "folder " << show(f.first) << " is not on disk"); VH_EQ(disk.size(), model.size(), "tree", "folders on disk");
		for (auto& f : disk) { auto v = Layout::messages(f.second); Box& b = model[f.first]; VH_EQ(v.size(), b.size(), "tree", "files in " << show(f.first)); std::set<int> seen; std::set<str> ids; for (auto& m : v) { int k = keyOf(m.content, f.first, "on disk"); VH_CHECK(seen.insert(k).second, "tree", "message twice on disk"); VH_CHECK(ids.insert(m.id()).second, "tree", "two files with the same identifier"); VH_EQ(m.flags(), flagLetters(b[k].flags), "tree", "flags in file name " << m.file); }
			if (fs::exists(f.second + "/tmp")) VH_CHECK(fs::is_empty(f.second + "/tmp"), "tree", "file left in tmp"); }
		auto s2 = session(); auto all = s2->getRootFolder()->getFolders(true); std::set<Path> ps; for (auto& f : all) VH_CHECK(ps.insert(fromPath(f->getFullPath())).second, "list", "folder listed twice");
		for (auto& f : model) { if (f.first.empty()) continue; VH_CHECK(ps.count(f.first), "list", "folder " << show(f.first) << " is not listed"); } VH_EQ(ps.size(), model.size() - model.count({}), "list", "folders listed");
		for (auto& f : all) { Path p = fromPath(f->getFullPath()); VH_CHECK(f->exists(), "exists", "folder " << show(p) << " does not exist"); VH_EQ(fromPath(vn::folder::path() / f->getName()).at(0), p.back(), "name", "getName()");
			std::set<Path> kids; for (auto& m : model) if (m.first.size() == p.size() + 1 && std::equal(p.begin(), p.end(), m.first.begin())) kids.insert(m.first);
			auto at = f->getAttributes(); VH_EQ((at.getFlags() & vn::folderAttributes::FLAG_HAS_CHILDREN) != 0, !kids.empty(), "attributes", "has children, " << show(p));
			if (r.coin()) { std::set<Path> got; for (auto& k : f->getFolders(false)) got.insert(fromPath(k->getFullPath())); VH_CHECK(got == kids, "list", "sub-folders of " << show(p) << ": " << got.size() << ", expected " << kids.size()); }
			auto par = f->getParent(); VH_CHECK(fromPath(par->getFullPath()) == Path(p.begin(), p.end() - 1), "parent", "getParent()"); }
		for (auto& m : model) { auto f = s2->getFolder(toPath(m.first)); size_t unseen = 0; for (auto& x : m.second) if (!(x.second.flags & M::FLAG_SEEN)) ++unseen;
			if (r.coin()) { size_t a, u; f->status(a, u); VH_EQ(a, m.second.size(), "status", "messages in " << show(m.first)); VH_EQ(u, unseen, "status", "unseen in " << show(m.first)); }
			f->open(r.coin() ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); VH_EQ(f->getMessageCount(), m.second.size(), "count", "messages in " << show(m.first)); std::set<int> seen;
			if (!m.second.empty()) { auto ms = f->getAndFetchMessages(vn::messageSet::byNumber(1, -1), FA(FA::FLAGS | FA::SIZE)); VH_EQ(ms.size(), m.second.size(), "count", "messages fetched"); for (auto& x : ms) { int k = keyOf(extract(x), m.first, "new session"); VH_CHECK(seen.insert(k).second, "duplicate", "message listed twice"); VH_EQ(flagLetters(x->getFlags()), flagLetters(m.second[k].flags), "flags", "flags in a new session"); VH_EQ(x->getSize(), m.second[k].content.size(), "size", "size"); c.count("messages compared"); } }
			if (r.coin()) f->close(false); c.count("folders compared"); }
		s2->disconnect();
	}
	static int flagsOf(const str& s) { int f = 0; for (int x : {(int)M::FLAG_DRAFT, (int)M::FLAG_MARKED, (int)M::FLAG_PASSED, (int)M::FLAG_REPLIED, (int)M::FLAG_SEEN, (int)M::FLAG_DELETED}) if (s.find(flagLetters(x)) != str::npos) f |= x; return f; }
	void refreshOthers(Open& o) { for (auto& x : open) if (&x != &o && x.p == o.p) { x.f->getStatus(); for (auto& h : x.held) if (!h.gone) x.f->fetchMessage(h.m, FA(FA::FLAGS)); } for (auto& x : open) if (x.p == o.p) sync(x, false); }
	Path anyFolder() { auto it = model.begin(); std::advance(it, (long)r.below(model.size())); return it->first; }
	bool busy(const Path& p) { for (auto& o : open) if (o.p.size() >= p.size() && std::equal(p.begin(), p.end(), o.p.begin())) return true; return false; }
	void refuse(const str& what, const std::function<void()>& f) { auto before = tree(box); bool t = false; try { f(); } catch (const vmime::exception&) { t = true; } VH_CHECK(t, "wrong-use", what + " was accepted"); VH_CHECK(tree(box) == before, "containment", what + " changed the directory tree"); c.count("refusals"); }
	void deliver(const Path& p) { // another program delivers a message
		MMsg m = genMsg(r, nextKey); str d = lay.dir(p), host = r.pickc({"host", "my-host", "mail-s1.example.test", "first-test", "a-2", "x.y"}), n = std::to_string(1700000000 + r.below(1000)) + ".M" + std::to_string(nextKey) + "P" + std::to_string(r.below(99)) + "." + host;
		str dst = "new/" + n; if (r.chance(1, 4)) { m.flags = genFlags(r); dst = "cur/" + n + (m.flags || r.coin() ? ":2," + flagLetters(m.flags) : str()); if (dst.find(":2,") == str::npos) m.flags = 0; }
		writeFile(d + "/tmp/" + n, m.content); fs::rename(d + "/tmp/" + n, d + "/" + dst); model[p][nextKey++] = m; note("external " + dst + " in " + show(p));
	}
	void step();
};
void World::step() {
	Open* o = open.empty() ? nullptr : &open[r.below(open.size())]; for (auto& x : open) x.w->clear();
	auto nums = [&](std::vector<size_t>& v, vn::messageSet& s) { v.clear(); size_t n = o->order.size(); if (r.chance(1, 4)) { size_t a = 1 + r.below(n), b = a + r.below(n - a + 1); s = vn::messageSet::byNumber(a, b); for (size_t i = a; i <= b; ++i) v.push_back(i); } else { for (size_t i = 1 + r.below(3); i-- > 0;) v.push_back(1 + r.below(n)); s = vn::messageSet::byNumber(v); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
	std::vector<size_t> v; vn::messageSet set = vn::messageSet::empty();
	switch (r.below(o ? 22 : 8)) {
		case 0: { // create
			Path p = r.chance(1, 3) ? Path() : anyFolder(); if (p.size() > 3) break; str n = genFolderName(r, lay.courier); p.push_back(n); note("create " + show(p)); auto f = st->getFolder(toPath(p)); Watch w; f->addFolderListener(&w);
			if (model.count(p)) { refuse("creating an existing folder", [&] { f->create(vn::folderAttributes()); }); break; }
			VH_CHECK(!f->exists(), "exists", "folder exists before create()");
			if (r.chance(1, 4)) { lay.make(p); note("by another program"); } else { f->create(vn::folderAttributes()); VH_EQ(w.folder.size(), (size_t)1, "event", "created"); VH_EQ(w.folder[0], "created", "event", "created"); }
			model[p]; VH_CHECK(f->exists(), "exists", "folder does not exist after create()"); c.count("folders created"); break; }
		case 1: { // destroy
			Path p = anyFolder(); if (p.empty() || busy(p)) break; { size_t left = 0; for (auto& x : model) if (!x.first.empty() && !(x.first.size() >= p.size() && std::equal(p.begin(), p.end(), x.first.begin()))) ++left; if (!left) break; } note("destroy " + show(p)); auto f = st->getFolder(toPath(p)); Watch w; f->addFolderListener(&w); f->destroy(); VH_CHECK(!f->exists(), "exists", "folder exists after destroy()"); VH_EQ(w.folder.at(0), "deleted", "event", "deleted");
			for (auto it = model.begin(); it != model.end();) if (it->first.size() >= p.size() && std::equal(p.begin(), p.end(), it->first.begin())) it = model.erase(it); else ++it; c.count("folders destroyed"); break; }
		case 2: { // rename
			Path p = anyFolder(), to = r.chance(1, 3) ? Path() : anyFolder(); to.push_back(genFolderName(r, lay.courier)); note("rename " + show(p) + " to " + show(to)); auto f = st->getFolder(toPath(p)); bool use = false; for (auto& x : open) if (x.p == p && r.coin()) f = x.f, use = true; (void)use;
			bool into = to.size() >= p.size() && std::equal(p.begin(), p.end(), to.begin());
			if (p.empty() || model.count(to) || into) { refuse("impossible rename", [&] { f->rename(toPath(to)); }); break; }
			Watch w; f->addFolderListener(&w); f->rename(toPath(to)); VH_EQ(w.folder.at(0), "renamed", "event", "renamed"); f->removeFolderListener(&w); VH_CHECK(fromPath(f->getFullPath()) == to, "name", "path after rename()");
			std::map<Path, Box> m2; auto mv = [&](const Path& x) { if (x.size() >= p.size() && std::equal(p.begin(), p.end(), x.begin())) { Path y = to; y.insert(y.end(), x.begin() + (long)p.size(), x.end()); return y; } return x; };
			for (auto& x : model) m2[mv(x.first)] = x.second; model = m2; for (auto& x : open) { Path old = x.p; x.p = mv(x.p); VH_CHECK(fromPath(x.f->getFullPath()) == x.p, "name", "path of an open folder after rename of " << show(p) << " is " << show(fromPath(x.f->getFullPath())) << " expected " << show(x.p)); if (old != x.p && x.f != f) { VH_EQ(x.w->folder.size(), (size_t)1, "event", "rename of an open folder"); VH_EQ(x.w->folder[0], "renamed", "event", "renamed"); } }
			c.count("folders renamed"); break; }
		case 3: deliver(anyFolder()); break;
		case 4: case 5: { // open one more folder object
			if (open.size() > 3) break; Path p = o && r.chance(1, 3) ? o->p : anyFolder(); Open n; n.p = p; n.ro = r.chance(1, 8); note(str("open ") + (n.ro ? "ro " : "") + show(p)); n.f = st->getFolder(toPath(p)); n.w = std::make_shared<Watch>();
			if (p.empty() && !lay.courier) break;
			if (r.chance(1, 4)) { size_t a, u; n.f->status(a, u); VH_EQ(a, model[p].size(), "status", "messages before open"); for (auto& x : open) if (x.p == p) sync(x, false); }
			n.f->open(n.ro ? vn::folder::MODE_READ_ONLY : vn::folder::MODE_READ_WRITE); n.f->addMessageChangedListener(n.w.get()); n.f->addMessageCountListener(n.w.get()); n.f->addFolderListener(n.w.get());
			VH_EQ(n.f->getMessageCount(), model[p].size(), "count", "messages after open"); for (size_t i = 1; i <= model[p].size(); ++i) n.w->added.push_back(i); sync(n, true); open.push_back(n); break; }
		case 6: { // unusable names
			str bad = r.pickc({"..", ".", "", "../other", "a/../../other", "/", "*", " x", ".hidden", "a/b"}); Path p = r.coin() ? Path() : anyFolder(); p.push_back(bad); note("name " + show(p)); if (p.size() > 1 && model.count(Path(p.begin(), p.end() - 1)) == 0) break;
			auto f = [&] { return st->getFolder(toPath(p)); }; VH_CHECK(!f()->exists(), "exists", "folder " << show(p) << " exists"); refuse("open of " + show(p), [&] { f()->open(vn::folder::MODE_READ_WRITE); }); refuse("create of " + show(p), [&] { f()->create(vn::folderAttributes()); }); refuse("destroy", [&] { f()->destroy(); });
			Path s = anyFolder(); if (!s.empty()) refuse("rename", [&] { st->getFolder(toPath(s))->rename(toPath(p)); }); refuse("rename", [&] { f()->rename(toPath({"other"})); });
			if (o && !o->order.empty()) refuse("copy", [&] { o->f->copyMessages(toPath(p), vn::messageSet::byNumber(1)); }); auto before = tree(box); try { f()->getStatus(); f()->getFolders(true); f()->getAttributes(); } catch (const vmime::exception&) {} VH_CHECK(tree(box) == before, "containment", "status of " << show(p) << " changed the tree"); break; }
		case 7: { Path p = anyFolder(); if (p.empty()) break; p.back() += "q"; if (model.count(p)) break; note("missing " + show(p)); refuse("open of a missing folder", [&] { st->getFolder(toPath(p))->open(vn::folder::MODE_READ_WRITE); }); refuse("destroy of a missing folder", [&] { st->getFolder(toPath(p))->destroy(); }); refuse("rename of a missing folder", [&] { st->getFolder(toPath(p))->rename(toPath({"zz"})); });
			if (o && !o->order.empty()) refuse("copy to a missing folder", [&] { o->f->copyMessages(toPath(p), vn::messageSet::byNumber(1)); }); break; }
		case 8: case 9: case 10: { // append
			MMsg m = genMsg(r, nextKey); int fl = r.chance(1, 3) ? -1 : r.chance(1, 6) ? (int)M::FLAG_RECENT : genFlags(r); m.flags = fl == -1 || fl == M::FLAG_RECENT ? 0 : fl; note("append " + std::to_string(nextKey) + " flags " + std::to_string(fl) + " to " + show(o->p));
			if (o->ro) { refuse("append to a read-only folder", [&] { vmime::utility::inputStreamStringAdapter is(m.content); o->f->addMessage(is, m.content.size(), fl); }); break; }
			if (r.chance(1, 4)) { auto msg = vmime::make_shared<vmime::message>(); msg->parse(m.content); m.parsed = false; m.content = msg->generate(); model[o->p][nextKey] = m; o->f->addMessage(msg, fl); }
			else { model[o->p][nextKey] = m; ChunkIn is(m.content, Chunking::random(r)); o->f->addMessage(is, m.content.size(), fl); }
			int k = nextKey++; sync(*o, false); VH_CHECK(std::find(o->order.begin(), o->order.end(), k) != o->order.end(), "append", "message added is not listed"); for (auto& x : open) if (&x != o && x.p == o->p) { sync(x, false); VH_CHECK(std::find(x.order.begin(), x.order.end(), k) != x.order.end(), "append", "message added is not listed in the other folder object"); } c.count("messages added"); break; }
		case 11: { // copy
			if (o->order.empty()) break; Path to = anyFolder(); if (to.empty() && !lay.courier) break; nums(v, set); note("copy " + std::to_string(v.size()) + " from " + show(o->p) + " to " + show(to)); str d = lay.dir(to);
			std::set<str> ids; for (auto& x : Layout::messages(d)) ids.insert(x.id()); std::multiset<str> want, got; for (size_t i : v) { MMsg& m = model[o->p][o->order[i - 1]]; want.insert(flagLetters(m.flags) + ":" + m.content); }
			o->f->copyMessages(toPath(to), set);
			// copies cannot be told from the original by their content: give each of them its own
			for (auto& x : Layout::messages(d)) { if (ids.count(x.id())) continue; VH_CHECK(!x.isNew, "copy", "copy of a message in new/"); got.insert(x.flags() + ":" + x.content); MMsg m; m.parsed = false; m.flags = flagsOf(x.flags()); m.content = x.content + "copy " + std::to_string(nextKey) + "\r\n"; writeFile(d + "/cur/" + x.file, m.content); model[to][nextKey++] = m; }
			VH_EQ(got.size(), want.size(), "copy", "copies on disk"); VH_CHECK(got == want, "copy", "the copies differ from the messages copied (content or flags)");
			for (auto& x : open) if (x.p == to) { if (&x == o) x.f->getStatus(); sync(x, true); } c.count("messages copied", v.size()); break; }
		case 12: case 13: case 14: { // flags
			if (o->order.empty()) break; nums(v, set); int mode = std::vector<int>{(int)M::FLAG_MODE_ADD, (int)M::FLAG_MODE_REMOVE, (int)M::FLAG_MODE_SET}[r.below(3)], fl = genFlags(r); bool del = r.chance(1, 5), one = !del && r.chance(1, 4); if (del) { mode = M::FLAG_MODE_ADD; fl = M::FLAG_DELETED; }
			note("flags " + flagLetters(fl) + " mode " + std::to_string(mode) + " on " + std::to_string(v.size()) + " in " + show(o->p)); auto act = [&] { if (del) o->f->deleteMessages(set); else if (one) { v.resize(1); o->f->getMessage(v[0])->setFlags(fl, mode); } else o->f->setMessageFlags(set, fl, mode); };
			if (o->ro) { refuse("changing flags in a read-only folder", act); break; }
			act(); VH_CHECK(o->w->changed == v, "event", "numbers of the messages changed"); for (size_t i : v) { int& f = model[o->p][o->order[i - 1]].flags; if (mode == M::FLAG_MODE_ADD) f |= fl; else if (mode == M::FLAG_MODE_REMOVE) f &= ~fl; else f = fl; }
			refreshOthers(*o); c.count("flags changed", v.size()); break; }
		case 15: { // expunge, close
			bool cl = r.chance(1, 3), ex = !cl || r.coin(); note(str(cl ? "close " : "expunge ") + (ex ? "expunge " : "") + show(o->p)); if (ex && o->ro) { refuse("expunge of a read-only folder", [&] { if (cl) o->f->close(true); else o->f->expunge(); }); VH_CHECK(o->f->isOpen(), "state", "folder is closed although close() was refused"); break; }
			if (cl) o->f->close(ex); else o->f->expunge();
			if (ex) { std::set<int> gone; for (int k : o->order) if (model[o->p][k].flags & M::FLAG_DELETED) gone.insert(k);
				for (auto& x : open) if (x.p == o->p) { std::vector<size_t> e; std::vector<int> left; for (size_t i = 0; i < x.order.size(); ++i) if (gone.count(x.order[i])) e.push_back(i + 1); else left.push_back(x.order[i]); x.order = left; VH_CHECK(x.w->removed == e, "event", "numbers of the messages removed: " << x.w->removed.size() << " instead of " << e.size()); for (auto& h : x.held) if (gone.count(h.key)) h.gone = true; if (x.f->isOpen()) VH_EQ(x.f->getMessageCount(), left.size(), "count", "messages after expunge()"); }
				for (int k : gone) model[o->p].erase(k); c.count("messages expunged", gone.size()); }
			if (cl) { VH_CHECK(!o->f->isOpen(), "state", "isOpen() after close()"); for (auto& h : o->held) { refuse("extract() after close", [&] { extract(h.m); }); refuse("fetch after close", [&] { o->f->fetchMessage(h.m, FA(FA::FLAGS)); }); refuse("setFlags() after close", [&] { h.m->setFlags(M::FLAG_SEEN, M::FLAG_MODE_SET); }); }
				refuse("expunge() of a closed folder", [&] { o->f->expunge(); }); refuse("getMessage() of a closed folder", [&] { o->f->getMessage(1); }); refuse("deleteMessages() of a closed folder", [&] { o->f->deleteMessages(vn::messageSet::byNumber(1)); }); refuse("addMessage() in a closed folder", [&] { vmime::utility::inputStreamStringAdapter is("x"); o->f->addMessage(is, 1); });
				bool again = r.chance(1, 3) && !open.empty(); Open k = *o; open.erase(open.begin() + (o - open.data())); if (again) { k.held.clear(); k.order.clear(); k.w->clear(); k.f->open(vn::folder::MODE_READ_WRITE); k.ro = false; VH_EQ(k.f->getMessageCount(), model[k.p].size(), "count", "messages after opening again"); for (size_t i = 1; i <= model[k.p].size(); ++i) k.w->added.push_back(i); sync(k, true); open.push_back(k); } }
			break; }
		case 16: { note("status " + show(o->p)); size_t a, u; o->f->status(a, u); sync(*o, true); size_t e = 0; for (auto& x : model[o->p]) if (!(x.second.flags & M::FLAG_SEEN)) ++e; VH_EQ(u, e, "status", "unseen messages of " << show(o->p)); VH_EQ(a, model[o->p].size(), "status", "messages of " << show(o->p)); for (auto& x : open) if (&x != o && x.p == o->p) sync(x, false); break; }
		case 17: { if (o->order.empty() || o->held.size() > 6) break; Held h; size_t i = 1 + r.below(o->order.size()); h.m = r.coin() ? o->f->getMessage(i) : o->f->getMessages(vn::messageSet::byNumber(i)).at(0); h.key = o->order[i - 1]; o->f->fetchMessage(h.m, FA(FA::FLAGS | FA::UID)); h.uid = h.m->getUID(); o->held.push_back(h); note("hold " + std::to_string(i)); break; }
		case 18: { // reading
			if (o->order.empty()) break; size_t i = 1 + r.below(o->order.size()); MMsg& e = model[o->p][o->order[i - 1]]; auto m = o->f->getMessage(i); note("read " + std::to_string(i)); if (r.coin()) o->f->fetchMessage(m, FA(FA::SIZE));
			size_t st0 = r.below(e.content.size() + 3), len = r.chance(1, 4) ? (size_t)-1 : r.below(e.content.size() + 10); RecOut ro; m->extract(ro, nullptr, st0, len); VH_CHECK(ro.data == (st0 > e.content.size() ? str() : e.content.substr(st0, len)), "content", "extract(" << st0 << "," << len << ") of a message of " << e.content.size() << " bytes");
			o->f->fetchMessage(m, r.coin() ? FA(FA::FULL_HEADER | FA::STRUCTURE) : FA(FA::FULL_HEADER)); str key = e.content.substr(7, e.content.find_first_of("\r\n") - 7); auto hf = vmime::dynamicCast<const vmime::header>(m->getHeader())->findField("X-Key"); VH_CHECK(hf, "header", "field is missing in the header fetched"); VH_EQ(hf->getValue()->generate(), key, "header", "X-Key");
			{ auto pm = m->getParsedMessage(); vmime::message d; d.parse(e.content); VH_CHECK(pm->generate() == d.generate(), "content", "getParsedMessage()"); }
			if (!e.parsed) break;
			o->f->fetchMessage(m, FA(FA::STRUCTURE)); auto rt = m->getStructure(); VH_EQ(rt->getPartCount(), (size_t)1, "structure", "parts at the top"); auto root = rt->getPartAt(0); VH_EQ(root->getStructure()->getPartCount(), e.parts.size(), "structure", "parts of a message");
			for (size_t k = 0; k < e.parts.size(); ++k) { auto p = root->getStructure()->getPartAt(k); RecOut po; m->extractPart(p, po); VH_CHECK(po.data == e.parts[k].body, "part", "extractPart(): " << q(po.data.substr(0, 100)) << " expected " << q(e.parts[k].body.substr(0, 100))); VH_EQ(p->getSize(), e.parts[k].body.size(), "part", "size of a part"); VH_EQ((size_t)p->getNumber(), k, "part", "number of a part");
				size_t a = r.below(e.parts[k].body.size() + 2), l = r.below(e.parts[k].body.size() + 2); RecOut pp; m->extractPart(p, pp, nullptr, a, l); VH_CHECK(pp.data == (a > e.parts[k].body.size() ? str() : e.parts[k].body.substr(a, l)), "part", "extractPart(" << a << "," << l << ") of a part of " << e.parts[k].body.size() << " bytes");
				m->fetchPartHeader(p); auto xp = p->getHeader()->findField("X-Part"); VH_CHECK(xp, "part", "header of a part"); VH_EQ(xp->getValue()->generate(), e.parts[k].name, "part", "header of a part"); c.count("parts read"); }
			break; }
		case 19: { // another program changes flags
			auto ms = Layout::messages(lay.dir(o->p)); std::vector<DiskMsg> cu; for (auto& x : ms) if (!x.isNew) cu.push_back(x); if (cu.empty()) break; DiskMsg& x = cu[r.below(cu.size())]; int k = keyOf(x.content, o->p, "on disk"); int f = genFlags(r); note("external flags " + flagLetters(f) + " on " + x.file); str d = lay.dir(o->p) + "/cur/"; fs::rename(d + x.file, d + x.id() + ":2," + flagLetters(f)); model[o->p][k].flags = f;
			for (auto& y : open) if (y.p == o->p) { y.f->getStatus(); for (auto& h : y.held) if (!h.gone) y.f->fetchMessage(h.m, FA(FA::FLAGS)); } for (auto& y : open) if (y.p == o->p) sync(y, true); c.count("external flag changes"); break; }
		case 20: { // wrong numbers and sets
			size_t n = o->order.size(); for (size_t bad : {n + 1, n + 100}) { auto s = vn::messageSet::byNumber(bad); refuse("getMessage(" + std::to_string(bad) + ")", [&] { o->f->getMessage(bad); }); refuse("getMessages() of a wrong number", [&] { o->f->getMessages(s); }); refuse("setMessageFlags() of a wrong number", [&] { o->f->setMessageFlags(s, M::FLAG_SEEN, M::FLAG_MODE_ADD); }); refuse("deleteMessages() of a wrong number", [&] { o->f->deleteMessages(s); }); if (lay.courier || !o->p.empty()) refuse("copyMessages() of a wrong number", [&] { o->f->copyMessages(toPath(o->p), s); }); }
			refuse("getMessage(0)", [&] { o->f->getMessage(0); }); auto u = vn::messageSet::byUID("abc"); refuse("setMessageFlags() with unique ids", [&] { o->f->setMessageFlags(u, M::FLAG_SEEN, M::FLAG_MODE_ADD); }); refuse("copyMessages() with unique ids", [&] { o->f->copyMessages(toPath(o->p), u); });
			refuse("opening twice", [&] { o->f->open(vn::folder::MODE_READ_WRITE); }); refuse("destroy() of an open folder", [&] { o->f->destroy(); }); if (!o->p.empty()) refuse("create() of an open folder", [&] { o->f->create(vn::folderAttributes()); }); break; }
		default: if (!open.empty()) { Path p = o->p; deliver(p); }
	}
	for (auto& x : open) verifyOpen(x);
}
static void run(Ctx& c) {
	Rng& r = c.rng; TempTree t; World w(c, t.dir); w.lay.courier = r.coin(); w.lay.root = t.dir + "/store"; fs::create_directory(w.lay.root);
	for (str o : {"/other", "/store.directory"}) for (str d : {"/cur", "/new", "/tmp"}) fs::create_directories(t.dir + o + d); writeFile(t.dir + "/other/cur/1.x:2,T", "outside");
	if (w.lay.courier) { w.lay.make({"Start"}); w.model[{"Start"}]; if (r.coin()) { w.lay.make({}); w.model[{}]; } }
	else { Path p = {genFolderName(r, false)}; w.lay.make(p); w.model[p]; }
	auto before = tree(t.dir + "/other"); w.note(w.lay.courier ? "courier" : "kmail"); w.st = w.session(); size_t n = 5 + r.below(c.thorough ? 120 : 50);
	for (size_t i = 0; i < n; ++i) { w.step(); if (r.chance(1, 10)) w.verifyAll(); }
	w.verifyAll(); VH_CHECK(tree(t.dir + "/other") == before, "containment", "a directory outside the store was changed");
	c.count("operations", n); size_t msgs = 0; for (auto& x : w.model) msgs += x.second.size(); c.seen("histories", w.log); if (msgs && w.model.size() > 1) c.nontrivial(w.log);
	str ls; for (auto& x : w.open) for (auto& h : x.held) if (!h.gone) ls += h.uid; w.st->disconnect(); for (auto& x : w.open) for (auto& h : x.held) w.refuse("extract() after disconnect()", [&] { World::extract(h.m); });
}
void vh::setup() {
	setRule("Random histories over a maildir store (both on-disk formats): create/rename/destroy folders, append, copy, flags, delete, expunge, close and reopen, several folder objects on one folder, deliveries and flag changes by another program, misuse. After each step open folders and held messages, and regularly the directory tree (read independently) and a new session, equal the model.");
	addAssumption("no symbolic links in the store; the root folder is not destroyed or renamed; messages are not removed by another program while the folder is open; folder objects on one path are told of flag changes by status()");
	addSuite("histories", 900, 20000, run);
}
