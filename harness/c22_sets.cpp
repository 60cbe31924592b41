// C22: sets of message numbers and UIDs against plain integer sets.
#include "vapi.hpp"
#include <vmime/net/messageSet.hpp>
#include <vmime/net/folderAttributes.hpp>
#include <vmime/net/imap/IMAPUtils.hpp>
#include <vmime/net/pop3/POP3Utils.hpp>
#include <vmime/net/maildir/maildirUtils.hpp>
using namespace vh;
namespace vn = vmime::net;
typedef std::set<uint64_t> Set;

// what a server reading RFC 3501 understands by a sequence set, with `top` the highest number in use
static Set readWire(const str& w, uint64_t top) {
	Set s;
	if (w.empty()) return s;
	size_t i = 0;
	auto num = [&]() -> uint64_t {
		if (i < w.size() && w[i] == '*') { ++i; return top; }
		if (i >= w.size() || w[i] < '1' || w[i] > '9') fail("wire-syntax", "bad sequence set " + q(w));
		uint64_t v = 0; while (i < w.size() && isdigit((unsigned char)w[i])) v = v * 10 + (w[i++] - '0');
		if (v > 0xFFFFFFFFull) fail("wire-syntax", "number out of range in " + q(w));
		return v;
	};
	for (;;) {
		uint64_t a = num(), b = a;
		if (i < w.size() && w[i] == ':') { ++i; b = num(); }
		if (a > b) std::swap(a, b);
		if (b - a > 2000000) fail("wire-range", "range too large in " + q(w));
		for (uint64_t k = a; k <= b; ++k) s.insert(k);
		if (i == w.size()) break;
		if (w[i++] != ',') fail("wire-syntax", "bad sequence set " + q(w));
	}
	return s;
}
static str showS(const Set& s) { str r; size_t n = 0; for (auto v : s) { if (n++ > 60) { r += "..."; break; } r += std::to_string(v) + " "; } return r; }
struct Walk : vn::messageSetEnumerator {
	Set s; uint64_t top; size_t ranges = 0;
	explicit Walk(uint64_t t) : top(t) {}
	void enumerateNumberMessageRange(const vn::numberMessageRange& r) { ++ranges; uint64_t l = r.getLast() == size_t(-1) ? top : r.getLast(); for (uint64_t i = r.getFirst(); i <= l; ++i) s.insert(i); }
	void enumerateUIDMessageRange(const vn::UIDMessageRange& r) {
		++ranges; str f = r.getFirst(), l = r.getLast(); uint64_t a = strtoull(f.c_str(), 0, 10), b = l == "*" || l == "18446744073709551615" ? top : strtoull(l.c_str(), 0, 10);
		if (b - a > 2000000) { fail("range-too-large", f + ":" + l); }
		for (uint64_t i = a; i <= b; ++i) s.insert(i);
	}
};
static void same(const Set& got, const Set& exp, const str& key, const str& what) { if (got != exp) fail(key, what + ": got {" + showS(got) + "} expected {" + showS(exp) + "}"); }

static void judge(Ctx& c, const vn::messageSet& s, const Set& m, uint64_t top, bool uid, const str& what) {
	Walk w(top); s.enumerate(w);
	same(w.s, m, "enumeration", what + " enumerated");
	VH_EQ(w.ranges, s.getRangeCount(), "range-count", what);
	VH_EQ(s.isEmpty(), m.empty(), "is-empty", what);
	VH_EQ(s.isNumberSet(), !m.empty() && !uid, "is-number-set", what); VH_EQ(s.isUIDSet(), !m.empty() && uid, "is-uid-set", what);
	str wire = vn::imap::IMAPUtils::messageSetToSequenceSet(s);
	same(readWire(wire, top), m, "wire", what + " written as " + q(wire));
	c.seen("wire", wire);
	if (!uid) for (int k = 0; k < 2; ++k) {
		std::vector<size_t> l = k ? vn::maildir::maildirUtils::messageSetToNumberList(s, top) : vn::pop3::POP3Utils::messageSetToNumberList(s, top);
		Set ls(l.begin(), l.end());
		same(ls, m, "number-list", what + " as list of numbers");
		VH_EQ(l.size(), ls.size(), "number-list-duplicates", what << ": the list names some message twice");
	}
	c.count("sets compared");
}

static void numbers(Ctx& c) {
	Rng& r = c.rng; uint64_t top = 1 + r.below(r.coin() ? 12 : 400); Set m; str log;
	auto one = [&] { return (size_t)(1 + r.below(top)); };
	auto list = [&](std::vector<size_t>& v) {
		size_t n = r.below(6) ? 1 + r.size(40) : 0;
		for (size_t i = 0; i < n; ++i) v.push_back(!v.empty() && r.chance(1, 3) ? std::min<size_t>(top, v.back() + 1) : !v.empty() && r.chance(1, 6) ? v.back() : one());
		if (r.coin()) std::sort(v.begin(), v.end()); else if (r.coin()) std::sort(v.rbegin(), v.rend());
	};
	auto make = [&]() -> vn::messageSet {
		m.clear();
		switch (r.below(5)) {
			case 0: { size_t a = one(); log += "byNumber(" + std::to_string(a) + ")"; m.insert(a); return vn::messageSet::byNumber(a); }
			case 1: { size_t a = one(), b = one(); if (a > b) std::swap(a, b); log += "byNumber(" + std::to_string(a) + "," + std::to_string(b) + ")"; for (size_t i = a; i <= b; ++i) m.insert(i); return vn::messageSet::byNumber(a, b); }
			case 2: { size_t a = one(); log += "byNumber(" + std::to_string(a) + ",-1)"; for (size_t i = a; i <= top; ++i) m.insert(i); return vn::messageSet::byNumber(a, size_t(-1)); }
			case 3: { std::vector<size_t> v; list(v); log += "byNumber{"; for (auto x : v) log += std::to_string(x) + " "; log += "}"; m.insert(v.begin(), v.end()); c.note(log);
				vn::messageSet s = vn::messageSet::byNumber(v);
				// grouped: never more ranges than runs of consecutive numbers
				size_t runs = 0; uint64_t prev = 0; for (auto x : m) { if (runs == 0 || x != prev + 1) ++runs; prev = x; }
				VH_EQ(s.getRangeCount(), runs, "grouping", "ranges made of a list");
				return s; }
			default: log += "empty"; return vn::messageSet::empty();
		}
	};
	vn::messageSet s = make();
	c.note(log + " of " + std::to_string(top)); judge(c, s, m, top, false, log);
	for (size_t n = r.below(8); n-- > 0;) {
		switch (r.below(6)) {
			case 0: { size_t a = one(); log += " +" + std::to_string(a); c.note(log); s.addRange(vn::numberMessageRange(a)); m.insert(a); break; }
			case 1: { size_t a = one(), b = one(); if (a > b) std::swap(a, b); log += " +" + std::to_string(a) + ":" + std::to_string(b); c.note(log); s.addRange(vn::numberMessageRange(a, b)); for (size_t i = a; i <= b; ++i) m.insert(i); break; }
			case 2: { size_t a = one(); log += " +" + std::to_string(a) + ":*"; c.note(log); s.addRange(vn::numberMessageRange(a, size_t(-1))); for (size_t i = a; i <= top; ++i) m.insert(i); break; }
			case 3: { log += " copy"; c.note(log); vn::messageSet t(s); Set keep = m; t.addRange(vn::numberMessageRange(1)); judge(c, s, m, top, false, log + " (after its copy changed)"); Set k2 = keep; k2.insert(1); judge(c, t, k2, top, false, log + " (the copy)"); break; }
			case 4: { log += " assign("; Set keep = m; vn::messageSet t = make(); Set tm = m; log += ")"; c.note(log); if (r.coin()) { s = t; m = tm; judge(c, t, tm, top, false, log + " (the source)"); } else m = keep; break; }
			default: {
				if (m.empty()) break;
				log += " refused"; c.note(log); bool threw = false;
				try { switch (r.below(4)) { case 0: s.addRange(vn::UIDMessageRange(vn::message::uid("12"))); break; case 1: vn::messageSet::byNumber(0); break; case 2: vn::numberMessageRange(5, 4); break; default: vn::messageSet::byNumber(std::vector<size_t>{3, 0, 1}); } } catch (const std::invalid_argument&) { threw = true; }
				VH_CHECK(threw, "invalid-accepted", log << ": an invalid range or kind was accepted"); c.count("refused");
			}
		}
		judge(c, s, m, top, false, log);
	}
	c.nontrivial(log);
}
static void uids(Ctx& c) {
	Rng& r = c.rng; str log; Set m;
	uint64_t base = r.pick(std::vector<uint64_t>{1, 1, 1000, 2147483600ull, 4294967290ull - 300, 4294967000ull, 4294967295ull - 40});
	uint64_t top = base + 40 + r.below(200); if (top > 4294967295ull) top = 4294967295ull;
	auto one = [&] { return base + r.below(r.coin() ? std::min<uint64_t>(top - base + 1, 12) : top - base + 1); };
	auto uid = [&](uint64_t v) { return r.coin() ? vn::message::uid((unsigned long)v) : vn::message::uid(std::to_string(v)); };
	vn::messageSet s = vn::messageSet::empty();
	switch (r.below(4)) {
		case 0: { uint64_t a = one(); log = "byUID(" + std::to_string(a) + ")"; c.note(log); s = vn::messageSet::byUID(uid(a)); m.insert(a); break; }
		case 1: { uint64_t a = one(), b = one(); if (a > b) std::swap(a, b); if (r.chance(1, 3)) { log = "byUID(" + std::to_string(a) + ",*)"; c.note(log); s = vn::messageSet::byUID(uid(a), r.coin() ? vn::message::uid("*") : vn::message::uid("*")); b = top; } else { log = "byUID(" + std::to_string(a) + "," + std::to_string(b) + ")"; c.note(log); s = vn::messageSet::byUID(uid(a), uid(b)); } for (uint64_t i = a; i <= b; ++i) m.insert(i); break; }
		default: {
			std::vector<vn::message::uid> v; uint64_t last = 0; log = "byUID{";
			for (size_t n = r.below(6) ? 1 + r.size(40) : 0; n-- > 0;) { uint64_t a = last && r.chance(1, 3) ? std::min(top, last + 1) : last && r.chance(1, 6) ? last : r.chance(1, 8) ? top : one(); v.push_back(uid(a)); m.insert(a); last = a; log += std::to_string(a) + " "; }
			log += "}"; c.note(log); s = vn::messageSet::byUID(v);
			size_t runs = 0; uint64_t prev = 0; for (auto x : m) { if (runs == 0 || x != prev + 1) ++runs; prev = x; }
			VH_EQ(s.getRangeCount(), runs, "grouping", "ranges made of " << log);
		}
	}
	judge(c, s, m, top, true, log);
	for (size_t n = r.below(5); n-- > 0;) { uint64_t a = one(), b = one(); if (a > b) std::swap(a, b); if (r.coin()) b = a; log += " +" + std::to_string(a) + ":" + std::to_string(b); c.note(log); if (a == b && r.coin()) s.addRange(vn::UIDMessageRange(uid(a))); else s.addRange(vn::UIDMessageRange(uid(a), uid(b))); for (uint64_t i = a; i <= b; ++i) m.insert(i); judge(c, s, m, top, true, log); }
	c.nontrivial(log);
}
// UIDs which are not numbers are kept as they are, each once
static void opaque(Ctx& c) {
	Rng& r = c.rng; std::vector<vn::message::uid> v; std::set<str> exp; str log;
	for (size_t n = 1 + r.below(8); n-- > 0;) { str u = r.chance(1, 4) ? std::to_string(r.below(100)) : r.chance(1, 5) ? "0" + std::to_string(r.below(100)) : r.chance(1, 5) ? std::to_string(r.below(100)) + std::to_string(10000000000ull + r.below(5)) : r.from("abc012.:,-", 1 + r.below(20)); v.push_back(u); exp.insert(u); log += u + " "; }
	c.note("byUID{" + log + "}");
	vn::messageSet s = vn::messageSet::byUID(v);
	struct W : vn::messageSetEnumerator { std::set<str> s; void enumerateNumberMessageRange(const vn::numberMessageRange&) {} void enumerateUIDMessageRange(const vn::UIDMessageRange& r) { str a = r.getFirst(), b = r.getLast(); if (a == b) s.insert(a); else for (uint64_t i = strtoull(a.c_str(), 0, 10); i <= strtoull(b.c_str(), 0, 10); ++i) s.insert(std::to_string(i)); } } w;
	s.enumerate(w);
	str g, e; for (auto& x : w.s) g += x + " "; for (auto& x : exp) e += x + " ";
	VH_EQ(g, e, "opaque-uids", "UIDs of the set");
	for (auto& x : v) { vn::message::uid u(x), z; z = x; VH_CHECK(u == x && z == x && str(u) == str(x), "uid-copy", "copy of a UID"); vn::message::uid n(17ul); n = 4294967295ul; VH_EQ(str(n), str("4294967295"), "uid-number", "UID assigned from a number"); VH_CHECK(vn::message::uid().empty() && !x.empty(), "uid-empty", "empty()"); }
	c.nontrivial(log);
}
static void attributes(Ctx& c) {
	Rng& r = c.rng; typedef vn::folderAttributes A;
	A a; int type = (int)r.below(4), flags = (int)r.below(8), use = (int)r.below(9); std::vector<str> uf;
	std::vector<int> all = {A::FLAG_HAS_CHILDREN, A::FLAG_NO_OPEN};
	flags = 0; std::set<int> on; for (int f : all) if (r.coin()) { flags |= f; on.insert(f); }
	for (size_t n = r.below(5); n-- > 0;) uf.push_back(r.from("\\$abc", 1 + r.below(6)));
	std::vector<int> order = {0, 1, 2, 3}; for (size_t i = 3; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
	for (int o : order) switch (o) { case 0: a.setType(type); break; case 1: a.setFlags(flags); break; case 2: a.setSpecialUse(use); break; default: a.setUserFlags(uf); }
	A b(a), d; d = a; a.setFlags(0); a.setUserFlags({}); a.setType(0);
	c.note("folder attributes");
	for (A* x : {&b, &d}) {
		VH_EQ(x->getType(), type, "attr-type", "type"); VH_EQ(x->getFlags(), flags, "attr-flags", "flags"); VH_EQ(x->getSpecialUse(), use, "attr-use", "special use");
		for (int f : all) VH_EQ(x->hasFlag(f), on.count(f) != 0, "attr-flag", "flag " << f);
		VH_CHECK(x->getUserFlags() == uf, "attr-user-flags", "user flags");
		for (auto& u : uf) VH_CHECK(x->hasUserFlag(u), "attr-user-flag", "user flag " << u);
		VH_CHECK(!x->hasUserFlag("none"), "attr-user-flag", "invented user flag");
	}
	c.nontrivial(std::to_string(type) + std::to_string(flags) + std::to_string(use) + std::to_string(uf.size()));
}
void vh::setup() {
	setRule("random sequences of constructions, range additions, copies and assignments of message sets (numbers, numeric UIDs up to 2^32-1, opaque UIDs), each compared with an integer set by enumeration, by the IMAP sequence-set text read with an independent reader, and by the number lists used for POP3 and maildir; every case is non-trivial");
	addAssumption("Open-ended ranges start at or below the number of messages");
	addSuite("numbers", 20000, 600000, numbers);
	addSuite("uids", 20000, 600000, uids);
	addSuite("opaque", 4000, 80000, opaque);
	addSuite("attributes", 2000, 20000, attributes);
}
