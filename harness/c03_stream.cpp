// C03: the same message from memory and from streams, dumps compared.
#include "vmodel.hpp"
using namespace vh;

static str gen(Ctx& c) {
	str s;
	if (c.rng.coin()) s = genLooseMessage(c.rng);
	else { MGen g(c.rng); g.wild = c.rng.chance(1, 3); MPart root = g.part(); g.write(root, s); }
	if (c.rng.chance(1, 2)) s = mutate(c.rng, s);
	return s;
}
template <class F> static str dumpAfter(vmime::message& m, F f, bool offs) {
	DumpOpt o; o.offsets = offs;
	try { f(); } catch (const vmime::exception& e) { return excText(e); }
	return dumpPart(m, o);
}
// first difference, for the report
static str diff(const str& a, const str& b) {
	size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	size_t s = i > 60 ? i - 60 : 0;
	return "at " + std::to_string(i) + ": memory \"" + esc(a.substr(s, 160)) + "\" stream \"" + esc(b.substr(s, 160)) + "\"";
}

static void caseWhole(Ctx& c) {
	str s = gen(c); c.note(s);
	vmime::message m0; str want = dumpAfter(m0, [&] { m0.parse(s); }, true);
	for (int k = 0; k < 3; ++k) {
		Chunking ch = Chunking::random(c.rng);
		bool seek = k != 1;
		vmime::message m;
		str got;
		if (seek) { auto in = make_shared<SeekIn>(s, ch); got = dumpAfter(m, [&] { m.parse(in, s.size()); }, true); c.count("reads from seekable streams", in->reads); }
		else { auto in = make_shared<ChunkIn>(s, ch); got = dumpAfter(m, [&] { m.parse(in, s.size()); }, true); c.count("reads from plain streams", in->reads); }
		VH_CHECK(got == want, seek ? "seekable-differs" : "plain-differs", ch.describe() << " " << diff(want, got));
		// contents are read lazily: a second time must give the same
		str again; try { DumpOpt o; o.offsets = true; again = got.compare(0, 4, "exc:") ? dumpPart(m, o) : got; } catch (const vmime::exception& e) { again = excText(e); }
		VH_CHECK(again == got, "second-reading-differs", ch.describe() << " " << diff(got, again));
		c.seen("chunkings", ch.describe());
	}
	if (want.compare(0, 4, "exc:")) c.nontrivial(s); else c.count("not parsed");
}

// a range of a stream, and lazily read parts interleaved
struct LeafRef { shared_ptr<const vmime::contentHandler> h; str want; };
static void leaves(const vmime::bodyPart& p, std::vector<shared_ptr<const vmime::contentHandler>>& out) {
	if (!p.getBody()->getPartCount()) out.push_back(p.getBody()->getContents());
	for (size_t i = 0; i < p.getBody()->getPartCount(); ++i) leaves(*p.getBody()->getPartAt(i), out);
}
// sink that reads another part while being written to
class NestedOut : public RecOut {
public:
	std::function<void()> inner; size_t left = 2, block = 32768;
	size_t getBlockSize() { return block; }
protected:
	void writeImpl(const vmime::byte_t* const d, const size_t n) { RecOut::writeImpl(d, n); if (left) { --left; inner(); } }
};
static void caseRange(Ctx& c) {
	str s = gen(c); c.note(s);
	size_t pre = c.rng.below(80);
	str buf = c.rng.from("a:\r\n -=", pre) + s + c.rng.from("b\r\n--", c.rng.below(60));
	vmime::message m0, m1;
	str want = dumpAfter(m0, [&] { m0.parse(s); }, false);
	Chunking ch = Chunking::random(c.rng);
	str got;
	if (s.empty()) return;
	if (c.rng.chance(1, 4)) got = dumpAfter(m1, [&] { m1.parse(make_shared<ChunkIn>(buf, ch), pre, pre + s.size()); }, false);
	else got = dumpAfter(m1, [&] { m1.parse(make_shared<SeekIn>(buf, ch), pre, pre + s.size()); }, false);
	VH_CHECK(got == want, "range-differs", ch.describe() << " " << diff(want, got));
	if (!want.compare(0, 4, "exc:")) return;
	std::vector<shared_ptr<const vmime::contentHandler>> a, b; leaves(m0, a); leaves(m1, b);
	VH_EQ(b.size(), a.size(), "leaf-count", "leaves");
	// clones share the stream; read one leaf while another is being read
	for (int k = 0; k < 3 && !b.empty(); ++k) {
		size_t i = c.rng.below(b.size()), j = c.rng.below(b.size());
		if (i == j) continue;
		NestedOut o; str inner;
		o.block = c.rng.coin() ? 1 + c.rng.below(32) : 32768;
		o.inner = [&] { inner = rawContents(*b[j]); };
		b[i]->extractRaw(o);
		VH_CHECK(o.data == rawContents(*a[i]), "interleaved-outer", ch.describe() << " outer leaf " << i << " got " << show(o.data) << " expected " << show(rawContents(*a[i])));
		if (o.left < 2) VH_CHECK(inner == rawContents(*a[j]), "interleaved-inner", "inner leaf got " << show(inner));
		c.count("interleaved readings");
	}
	c.nontrivial(s);
}

// the same component from a string and from a stream
static void caseField(Ctx& c) {
	str s;
	for (size_t i = 1 + c.rng.below(8); i-- > 0;) { auto f = genField(c.rng); s += f.first + ": " + f.second + (c.rng.chance(7, 8) ? "\r\n" : "\n"); }
	s += c.rng.pickc({"", "\r\n", "\n", " \r\n", "\r\nbody"});
	if (c.rng.coin()) s = mutate(c.rng, s);
	if (s.empty()) return;
	c.note(s);
	auto run = [&](std::function<void(vmime::header&)> f) { vmime::header h; try { f(h); } catch (const vmime::exception& e) { return excText(e); } return dumpHeader(h); };
	str want = run([&](vmime::header& h) { h.parse(s); });
	Chunking ch = Chunking::random(c.rng);
	str g1 = run([&](vmime::header& h) { h.parse(make_shared<SeekIn>(s, ch), s.size()); });
	str g2 = run([&](vmime::header& h) { h.parse(make_shared<ChunkIn>(s, ch), s.size()); });
	VH_CHECK(g1 == want, "header-seekable-differs", ch.describe() << " " << diff(want, g1));
	VH_CHECK(g2 == want, "header-plain-differs", ch.describe() << " " << diff(want, g2));
	c.nontrivial(s);
}

void vh::setup() {
	setRule("a message counts when it parsed from memory and every stream parse was compared with that; distinct by its bytes");
	addSuite("whole", 12000, 400000, caseWhole);
	addSuite("range", 12000, 400000, caseRange);
	addSuite("header", 20000, 400000, caseField);
}
