// C21: content handlers and stream views against the bytes they hold.
#include "vapi.hpp"
#include "vstreams.hpp"
#include <vmime/fileContentHandler.hpp>
#include <vmime/emptyContentHandler.hpp>
#include <vmime/streamContentHandler.hpp>
#include <vmime/utility/inputStreamByteBufferAdapter.hpp>
#include <vmime/utility/inputStreamPointerAdapter.hpp>
#include <vmime/utility/seekableInputStreamRegionAdapter.hpp>
#include <vmime/utility/outputStreamByteArrayAdapter.hpp>
#include <vmime/platform.hpp>
using namespace vh;
using vmime::shared_ptr; using vmime::make_shared;
namespace vu = vmime::utility;

struct Prog : vu::progressListener {
	size_t starts = 0, stops = 0, cur = 0, total = 0, back = 0, over = 0, calls = 0;
	void start(const size_t t) { ++starts; total = t; }
	void progress(const size_t c, const size_t t) { ++calls; if (c < cur) ++back; cur = c; if (t && c > t) ++over; }
	void stop(const size_t) { ++stops; }
};
struct Boom {};
struct FailOut : RecOut { size_t left; explicit FailOut(size_t n) : left(n) {} protected: void writeImpl(const byte_t* const d, const size_t n) { if (n > left) throw Boom(); left -= n; data.append((const char*)d, n); } };

static str encodeWith(const str& d, const str& enc) { vmime::encoding e(enc); vu::inputStreamStringAdapter in(d); str o; vu::outputStreamStringAdapter out(o); e.getEncoder()->encode(in, out); return o; }
static const char* ENCS[] = {"base64", "quoted-printable", "8bit", "7bit", "uuencode", "binary"};

struct H {
	shared_ptr<vmime::contentHandler> h; str kind, raw, data, enc; bool encoded;
	shared_ptr<vu::inputStream> under;   // the stream behind, to disturb
	vmime::mediaType hint; std::shared_ptr<str> hold;
};
static unsigned fileNo = 0;
static H genH(Ctx& c) {
	Rng& r = c.rng; H x; x.data = r.coin() ? genHostileBody(r) : r.bytes(r.size(r.chance(1, 10) ? 70000 : 2000));
	x.encoded = r.coin(); x.enc = x.encoded ? ENCS[r.below(5)] : "binary";
	x.raw = x.encoded ? encodeWith(x.data, x.enc) : x.data;
	vmime::encoding e(x.enc);
	if (r.chance(1, 25)) { x.kind = "empty"; x.raw = x.data = ""; x.enc = "binary"; x.encoded = false; x.h = make_shared<vmime::emptyContentHandler>(); }
	else switch (r.below(9)) {
		case 0: x.kind = "string"; x.h = x.encoded || r.coin() ? make_shared<vmime::stringContentHandler>(x.raw, e) : make_shared<vmime::stringContentHandler>(x.raw); break;
		case 1: { x.kind = "string-set"; auto s = make_shared<vmime::stringContentHandler>("old contents", vmime::encoding("base64")); if (!x.encoded && r.coin()) *s = x.raw; else s->setData(x.raw, e); x.h = s; break; }
		case 2: x.kind = "stream-string"; x.hold = std::make_shared<str>(x.raw); x.under = make_shared<vu::inputStreamStringAdapter>(*x.hold); break;
		case 3: x.kind = "stream-buffer"; x.hold = std::make_shared<str>(x.raw); x.under = make_shared<vu::inputStreamByteBufferAdapter>((const vmime::byte_t*)x.hold->data(), x.hold->size()); break;
		case 4: { x.kind = "stream-region"; str pre = r.bytes(r.size(300)), post = r.bytes(r.size(300)); x.under = make_shared<vu::seekableInputStreamRegionAdapter>(make_shared<SeekIn>(pre + x.raw + post, Chunking::random(r)), pre.size(), x.raw.size()); break; }
		case 5: x.kind = "stream-chunks"; x.under = make_shared<ChunkIn>(x.raw, Chunking::random(r)); break;
		case 6: x.kind = "stream-istream"; x.under = make_shared<vu::inputStreamPointerAdapter>(new std::istringstream(x.raw), true); break;
		case 7: { x.kind = "stream-string-part"; x.hold = std::make_shared<str>(r.bytes(r.size(100)) + x.raw); size_t p = x.hold->size() - x.raw.size(); x.hold->append("tail of it"); x.under = make_shared<vu::inputStreamStringAdapter>(*x.hold, p, p + x.raw.size()); break; }
		default: {
			x.kind = "file"; str f = scratchDir() + "/c" + std::to_string(fileNo++ % 64); writeFile(f, x.raw);
			auto fsf = vmime::platform::getHandler()->getFileSystemFactory(); auto file = fsf->create(fsf->stringToPath(f));
			if (r.coin()) { auto s = make_shared<vmime::fileContentHandler>(); s->setData(file, e); x.h = s; } else x.h = make_shared<vmime::fileContentHandler>(file, e);
		}
	}
	if (!x.h) { if (r.coin()) x.h = make_shared<vmime::streamContentHandler>(x.under, x.raw.size(), e); else { auto s = make_shared<vmime::streamContentHandler>(make_shared<vu::inputStreamStringAdapter>(x.raw), 3, vmime::encoding("base64")); s->setData(x.under, x.raw.size(), e); x.h = s; } }
	if (r.coin()) { x.hint = vmime::mediaType(r.pickc({"text", "application"}), "x-hint"); x.h->setContentTypeHint(x.hint); }
	return x;
}
static void handlers(Ctx& c) {
	Rng& r = c.rng; H x = genH(c);
	str log = x.kind + " " + x.enc + (x.encoded ? " (already encoded)" : "") + " raw=" + std::to_string(x.raw.size()) + " data=" + std::to_string(x.data.size());
	c.note(log + ": " + esc(x.data, 300));
	shared_ptr<vmime::contentHandler> h = x.h;
	for (size_t n = 3 + r.below(8); n-- > 0;) {
		size_t op = r.below(11); log += " op" + std::to_string(op); c.note(log + ": " + esc(x.data, 300));
		switch (op) {
			case 0: case 1: { RecOut o; Prog p; bool pr = r.coin(); h->extract(o, pr ? &p : nullptr); VH_EQ(o.data, x.data, "extract-" + x.kind, log);
				if (pr) { VH_EQ(p.starts, (size_t)1, "progress-start", log); VH_EQ(p.stops, (size_t)1, "progress-stop", log); VH_EQ(p.back, (size_t)0, "progress-backwards", log); VH_EQ(p.over, (size_t)0, "progress-beyond", log << " total " << p.total << " current " << p.cur); } break; }
			case 2: case 3: { RecOut o; Prog p; bool pr = r.coin(); h->extractRaw(o, pr ? &p : nullptr); VH_EQ(o.data, x.raw, "extract-raw-" + x.kind, log);
				if (pr) { VH_EQ(p.starts, (size_t)1, "progress-start", log); VH_EQ(p.stops, (size_t)1, "progress-stop", log); VH_EQ(p.back, (size_t)0, "progress-backwards", log); VH_EQ(p.over, (size_t)0, "progress-beyond", log << " total " << p.total << " current " << p.cur); } break; }
			case 4: {
				VH_EQ(h->getLength(), x.raw.size(), "length-" + x.kind, log); VH_EQ(h->isEmpty(), x.raw.empty(), "is-empty-" + x.kind, log);
				VH_EQ(h->isEncoded(), x.encoded, "is-encoded", log); VH_EQ(h->getEncoding().getName(), x.enc, "encoding", log);
				VH_EQ(h->getContentTypeHint().generate(), x.hint.generate(), "type-hint-" + x.kind, log); break; }
			case 5: if (x.under) { byte_t b[64]; x.under->read(b, 1 + r.below(64)); if (r.coin()) x.under->skip(r.below(100)); c.count("stream disturbed"); } break;
			case 6: h = h->clone(); if (r.coin()) x.h = h; c.count("clones"); break;
			case 7: case 8: {   // written in some encoding: decodes to the same data
				str e = ENCS[r.below(5)]; size_t ml = r.pick(std::vector<size_t>{78, 78, 76, 20, 200, 998, vmime::lineLengthLimits::infinite});
				RecOut o; h->generate(o, vmime::encoding(e), ml); vu::inputStreamStringAdapter in(o.data); str d; vu::outputStreamStringAdapter out(d); vmime::encoding(e).getEncoder()->decode(in, out);
				bool text = x.hint.getType() == "text" && e == "quoted-printable" && !(x.encoded && x.enc == e);
				if (text) VH_EQ(normEol(d), normEol(x.data), "generate-" + x.kind, log << " as " << e << " text"); else VH_EQ(d, x.data, "generate-" + x.kind, log << " as " << e);
				c.seen("re-encoding", x.enc + (x.encoded ? "*" : "") + ">" + e); break; }
			case 9: {  // the output fails midway: later reads are not affected
				FailOut o(r.below(x.raw.size() + 1)); try { if (r.coin()) h->extract(o); else h->extractRaw(o); } catch (Boom&) { c.count("outputs that failed"); } break; }
			default: {  // into a body, and out again
				vmime::bodyPart p; p.getBody()->setContents(h, vmime::mediaType("application", "x-y"), vmime::charset("utf-8"), vmime::encoding(ENCS[r.below(2)]));
				RecOut o; p.getBody()->getContents()->extract(o); VH_EQ(o.data, x.data, "in-body-" + x.kind, log);
				VH_EQ(p.getBody()->getContents()->getLength(), x.raw.size(), "in-body-length", log);
				// the part has its own idea of the type: give the handler its hint back
				h->setContentTypeHint(x.hint); break; }
		}
		c.count("operations");
	}
	c.seen("kinds", x.kind + "/" + x.enc);
	if (!x.raw.empty()) c.nontrivial(log + x.data);
}
static void assign(Ctx& c) {
	Rng& r = c.rng; str d = r.bytes(r.size(500)), e = ENCS[r.below(4)], raw = encodeWith(d, e); c.note("assignment of handlers " + e);
	auto chk = [&](const vmime::contentHandler& h, const str& k) { RecOut o; h.extract(o); VH_EQ(o.data, d, "assign-" + k, k); RecOut w; h.extractRaw(w); VH_EQ(w.data, raw, "assign-raw-" + k, k); VH_EQ(h.getLength(), raw.size(), "assign-length-" + k, k); VH_EQ(h.getContentTypeHint().generate(), str("text/x-z"), "assign-hint-" + k, k); };
	vmime::mediaType hint("text", "x-z");
	vmime::stringContentHandler a(raw, vmime::encoding(e)), b; a.setContentTypeHint(hint); b = a; chk(b, "string"); vmime::stringContentHandler a2(a); a.setData("other", vmime::encoding("base64")); chk(a2, "string-copy");
	vmime::streamContentHandler s(make_shared<vu::inputStreamStringAdapter>(raw), raw.size(), vmime::encoding(e)), t; s.setContentTypeHint(hint); t = s; chk(t, "stream"); vmime::streamContentHandler s2(s); s.setData(make_shared<vu::inputStreamStringAdapter>(d), d.size()); chk(s2, "stream-copy");
	str f = scratchDir() + "/a" + std::to_string(fileNo++ % 64); writeFile(f, raw); auto fsf = vmime::platform::getHandler()->getFileSystemFactory(); auto file = fsf->create(fsf->stringToPath(f));
	vmime::fileContentHandler g(file, vmime::encoding(e)), k; g.setContentTypeHint(hint); k = g; chk(k, "file"); vmime::fileContentHandler g2(g); chk(g2, "file-copy");
	vmime::stringContentHandler none; VH_EQ(none.getLength(), (size_t)0, "default", "empty handler"); vmime::streamContentHandler none2; RecOut o; none2.extract(o); none2.extractRaw(o); none2.generate(o, vmime::encoding("base64")); VH_CHECK(o.data.empty() && none2.isEmpty(), "default", "handler without stream");
	vmime::fileContentHandler none3, none4(none3); none4 = none3; none3.extract(o); none4.extractRaw(o); VH_CHECK(none3.isEmpty() && none4.isEmpty() && o.data.empty(), "default", "handler without file");
	c.nontrivial(d + e);
}
// several views of one stream used in turn
static void views(Ctx& c) {
	Rng& r = c.rng; str d = r.bytes(r.size(3000)); str log;
	shared_ptr<vu::seekableInputStream> base; std::shared_ptr<str> hold = std::make_shared<str>(d);
	switch (r.below(3)) { case 0: base = make_shared<vu::inputStreamStringAdapter>(*hold); break; case 1: base = make_shared<vu::inputStreamByteBufferAdapter>((const vmime::byte_t*)hold->data(), hold->size()); break; default: { Chunking ch = Chunking::random(r); ch.lazyEof = false; base = make_shared<SeekIn>(d, ch); } }
	struct V { shared_ptr<vu::seekableInputStream> s; str d; size_t pos; };
	std::vector<V> vs;
	for (size_t n = 1 + r.below(4); n-- > 0;) {
		if (!vs.empty() && r.chance(1, 3)) { auto p = vs[r.below(vs.size())]; size_t a = r.below(p.d.size() + 1), l = r.below(p.d.size() - a + 1); vs.push_back({make_shared<vu::seekableInputStreamRegionAdapter>(p.s, a, l), p.d.substr(a, l), 0}); /* a view of a view moves it */ c.count("nested views"); }
		else { size_t a = r.below(d.size() + 1), l = r.below(d.size() - a + 1); vs.push_back({make_shared<vu::seekableInputStreamRegionAdapter>(base, a, l), d.substr(a, l), 0}); }
		log += "view of " + std::to_string(vs.back().d.size()) + "; ";
	}
	// a nested view legitimately moves the view it was made of: track positions of top-level views only through their own use
	bool nested = c.rng.chance(0, 1);
	(void)nested;
	for (size_t n = 20 + r.below(30); n-- > 0;) {
		size_t i = r.below(vs.size()); V& v = vs[i]; size_t op = r.below(7), k = r.size(600); log += std::to_string(i) + ":" + std::to_string(op) + "(" + std::to_string(k) + ") ";
		c.note(log);
		auto me = v.s.get();
		switch (op) {
			case 0: case 1: case 2: {
				// where a parent view is at is its own business: ask it
				v.pos = me->getPosition(); VH_CHECK(v.pos <= v.d.size(), "view-position", "position " << v.pos << " beyond the view of " << v.d.size());
				std::vector<byte_t> b(std::max<size_t>(k, 1)); size_t g = me->read(b.data(), k); VH_CHECK(g <= k, "view-read-count", log);
				VH_EQ(str((char*)b.data(), g), v.d.substr(v.pos, g), "view-read", "view " << i << " at " << v.pos); VH_CHECK(g > 0 || k == 0 || v.pos == v.d.size(), "view-no-progress", log); VH_EQ(me->getPosition(), v.pos + g, "view-position", log); break; }
			case 3: { v.pos = me->getPosition(); size_t g = me->skip(k), e = std::min(k, v.d.size() - v.pos); VH_EQ(g, e, "view-skip", log); VH_EQ(me->getPosition(), v.pos + e, "view-position", log); break; }
			case 4: { me->seek(k); VH_EQ(me->getPosition(), std::min(k, v.d.size()), "view-seek", log); break; }
			case 5: { me->reset(); VH_EQ(me->getPosition(), (size_t)0, "view-reset", log); break; }
			default: { VH_EQ(me->eof(), me->getPosition() >= v.d.size(), "view-eof", log); base->seek(r.below(d.size() + 1)); break; }
		}
		c.count("view operations");
	}
	// drained one after the other in pieces, each gives exactly its range
	std::vector<str> got(vs.size()); bool top = true; for (auto& v : vs) v.s->reset();
	for (auto& v : vs) if (dynamic_cast<vu::seekableInputStreamRegionAdapter*>(v.s.get()) == nullptr) top = false;
	(void)top;
	c.nontrivial(log + d);
}
// interleaved draining of views made directly of the stream
static void drain(Ctx& c) {
	Rng& r = c.rng; str d = r.bytes(r.size(6000)); Chunking ch = Chunking::random(r);
	shared_ptr<vu::seekableInputStream> base = make_shared<SeekIn>(d, ch);
	std::vector<shared_ptr<vu::seekableInputStream>> vs; std::vector<str> ex, got; str log = ch.describe();
	for (size_t n = 2 + r.below(4); n-- > 0;) { size_t a = r.below(d.size() + 1), l = r.below(d.size() - a + 1); vs.push_back(make_shared<vu::seekableInputStreamRegionAdapter>(base, a, l)); ex.push_back(d.substr(a, l)); log += " [" + std::to_string(a) + "+" + std::to_string(l) + "]"; }
	got.resize(vs.size()); c.note(log);
	for (size_t steps = 0; steps < 60000; ++steps) {
		size_t i = r.below(vs.size()), k = 1 + r.size(400);
		if (vs[i]->eof()) { bool all = true; for (auto& v : vs) if (!v->eof()) all = false; if (all) break; continue; }
		std::vector<byte_t> b(k); size_t g = vs[i]->read(b.data(), k); got[i].append((char*)b.data(), g);
	}
	for (size_t i = 0; i < vs.size(); ++i) VH_EQ(got[i], ex[i], "views-interleaved", "view " << i << " read in turn with the others");
	// and through content handlers, which share the stream
	std::vector<shared_ptr<vmime::contentHandler>> hs; for (size_t i = 0; i < vs.size(); ++i) hs.push_back(make_shared<vmime::streamContentHandler>(vs[i], ex[i].size()));
	for (size_t n = 4; n-- > 0;) { size_t i = r.below(hs.size()); RecOut o; if (r.coin()) hs[i]->extract(o); else hs[i]->clone()->extractRaw(o); VH_EQ(o.data, ex[i], "views-handlers", "contents " << i); }
	c.nontrivial(log);
}
// parts of a message parsed from one stream, read in any order
static void parts(Ctx& c) {
	Rng& r = c.rng; std::vector<str> ex; str w = "Content-Type: multipart/mixed; boundary=BOUNDARYx\r\n\r\n";
	for (size_t n = 1 + r.below(5); n-- > 0;) { str d = r.bytes(r.size(2000)), e = r.pickc({"base64", "quoted-printable", "base64"}); ex.push_back(d); w += "--BOUNDARYx\r\nContent-Type: application/x-y\r\nContent-Transfer-Encoding: " + e + "\r\n\r\n" + encodeWith(d, e) + "\r\n"; }
	w += "--BOUNDARYx--\r\n"; c.note(esc(w, 400));
	Chunking ch = Chunking::random(r); auto s = make_shared<SeekIn>(w, ch); auto m = make_shared<vmime::message>(); m->parse(s, 0, w.size());
	VH_EQ(m->getBody()->getPartCount(), ex.size(), "parts-count", "parts");
	for (size_t n = 3 * ex.size(); n-- > 0;) { size_t i = r.below(ex.size()); auto h = m->getBody()->getPartAt(i)->getBody()->getContents(); if (r.coin()) s->seek(r.below(w.size())); if (r.chance(1, 3)) h = h->clone();
		RecOut o; h->extract(o); VH_EQ(o.data, ex[i], "parts-contents", "part " << i); RecOut raw; h->extractRaw(raw); VH_EQ(h->getLength(), raw.data.size(), "parts-length", "raw length of part " << i); c.count("part reads"); }
	c.nontrivial(w);
}
void vh::setup() {
	setRule("random contents held in every kind of content handler (string, stream over five kinds of streams, region of a larger stream, file, empty; plain or already encoded in one of five encodings) put through random sequences of reads, disturbances of the underlying stream, clones, failing outputs and re-encodings; random sets of (nested) views of one stream used in turn; a case is non-trivial when contents are not empty");
	addAssumption("Text hinted contents written quoted-printable are compared after normalising line breaks");
	addSuite("handlers", 12000, 300000, handlers);
	addSuite("assign", 1500, 20000, assign);
	addSuite("views", 6000, 150000, views);
	addSuite("drain", 4000, 80000, drain);
	addSuite("parts", 3000, 60000, parts);
}
