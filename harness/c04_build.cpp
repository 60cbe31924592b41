// C04: messages built through the API, generated, parsed and compared with what was put in.
#include "vapi.hpp"
using namespace vh;

struct Node {
	shared_ptr<vmime::bodyPart> part;
	std::vector<Node> kids; bool multi = false;
	str data, prolog, epilog; bool textual = false, exact = true;
	str dump(int d = 0) const { str s(d, ' '); s += multi ? "multi" : "leaf(" + std::to_string(data.size()) + ")"; for (auto& k : kids) s += " " + k.dump(); return s; }
};

struct Builder {
	Rng& r; size_t budget = 24; std::vector<str> bounds;
	explicit Builder(Rng& rr) : r(rr) {}
	void fields(vmime::bodyPart& p) { for (size_t n = r.below(4); n-- > 0;) p.getHeader()->appendField(apiField(r)); }
	void leaf(Node& n) {
		auto& b = *n.part->getBody();
		// contents may quote the delimiters of unrelated multiparts, never those of the enclosing ones
		n.data = genHostileBody(r);
		static const char* encs[] = {"7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode"};
		str enc = encs[r.below(6)];
		n.textual = r.coin();
		vmime::mediaType t = n.textual ? vmime::mediaType("text", r.coin() ? "plain" : "html") : vmime::mediaType(r.coin() ? "application" : "image", "x-" + genToken(r));
		shared_ptr<vmime::contentHandler> ct;
		switch (r.below(4)) {
			case 0: ct = make_shared<vmime::streamContentHandler>(make_shared<vmime::utility::inputStreamStringAdapter>(n.data), n.data.size()); break;
			case 1: {  // already encoded, possibly in another encoding than the one of the part
				str from = encs[r.below(6)], e; vmime::encoding fe(from);
				vmime::utility::inputStreamStringAdapter in(n.data); vmime::utility::outputStreamStringAdapter out(e);
				fe.getEncoder()->encode(in, out);
				ct = make_shared<vmime::stringContentHandler>(e, fe);
				break;
			}
			default: ct = make_shared<vmime::stringContentHandler>(n.data);
		}
		switch (r.below(3)) {
			case 0: b.setContents(ct, t, vmime::charset("utf-8"), vmime::encoding(enc)); break;
			case 1: b.setContents(ct); b.setContentType(t); b.setEncoding(vmime::encoding(enc)); break;
			default: b.setEncoding(vmime::encoding(enc)); b.setContents(ct, t); break;
		}
		if (r.coin()) fields(*n.part);
	}
	void multi(Node& n, int depth) {
		n.multi = true;
		auto& h = *n.part->getHeader(); auto& b = *n.part->getBody();
		if (r.chance(2, 3)) {
			b.setContentType(vmime::mediaType("multipart", r.pickc({"mixed", "alternative", "related", "x-other"})));
			if (r.coin()) {  // an explicit delimiter, often a prefix of another one
				str bd = !bounds.empty() && r.chance(1, 3) ? r.pick(bounds) + r.pickc({"1", "x", "_", "=", "+"}) : r.from("abcXYZ019'()+_,./:=?", 1 + r.below(r.coin() ? 8 : 60)) + "u" + std::to_string(bounds.size());
				if (std::find(bounds.begin(), bounds.end(), bd) == bounds.end() && bd.size() < 70) { bounds.push_back(bd); auto f = vmime::dynamicCast<vmime::contentTypeField>(h.ContentType()); f->setBoundary(bd); }
			}
		}
		if (r.coin()) fields(*n.part);
		auto line = [&] { str s; for (size_t k = 1 + r.below(12); k-- > 0;) s += (s.empty() ? "" : " ") + r.pickc({"text", "--", "--x", "prolog", "=a", "Subject:", "boundary=x", "begin", "(c)", "\"q\""}); return s; };
		if (r.chance(1, 3)) b.setPrologText(n.prolog = line());
		if (r.chance(1, 3)) b.setEpilogText(n.epilog = line());
		for (size_t k = r.below(5) ? 1 + r.below(4) : 1; k-- > 0;) {
			Node c; build(c, depth + 1);
			// parts may be put at any position, taken out and put back
			switch (n.kids.empty() ? 0 : r.below(4)) {
				case 0: b.appendPart(c.part); n.kids.push_back(c); break;
				case 1: { size_t i = r.below(n.kids.size()); b.insertPartBefore(i, c.part); n.kids.insert(n.kids.begin() + i, c); break; }
				case 2: { size_t i = r.below(n.kids.size()); b.insertPartAfter(n.kids[i].part, c.part); n.kids.insert(n.kids.begin() + i + 1, c); break; }
				default: {
					b.appendPart(c.part); n.kids.push_back(c);
					size_t i = r.below(n.kids.size()); Node m = n.kids[i];
					b.removePart(m.part); n.kids.erase(n.kids.begin() + i);
					size_t j = r.below(n.kids.size() + 1);
					b.insertPartBefore(j, m.part); n.kids.insert(n.kids.begin() + j, m);
				}
			}
		}
	}
	void build(Node& n, int depth) {
		n.part = depth ? make_shared<vmime::bodyPart>() : vmime::shared_ptr<vmime::bodyPart>(make_shared<vmime::message>());
		if (budget) --budget;
		if (r.coin()) fields(*n.part);
		if (depth < 6 && budget && r.chance(depth ? 2 : 4, 5)) multi(n, depth); else leaf(n);
	}
};

static void compare(Ctx& c, const Node& n, const vmime::bodyPart& p, const vmime::bodyPart& api, const vmime::generationContext& ctx, const str& path) {
	VH_EQ(uHeader(*p.getHeader()), uHeader(*api.getHeader()), "header", "header of part " + path);
	auto& b = *p.getBody();
	if (n.multi) {
		VH_EQ(b.getPartCount(), n.kids.size(), "part-count", "parts in " + path);
		str pro = n.prolog.empty() && path == "0" ? ctx.getPrologText() : n.prolog, epi = n.epilog.empty() && path == "0" ? ctx.getEpilogText() : n.epilog;
		VH_EQ(squeezeWs(b.getPrologText()), squeezeWs(pro), "prolog", "prolog of " + path);
		VH_EQ(squeezeWs(b.getEpilogText()), squeezeWs(epi), "epilog", "epilog of " + path);
		for (size_t i = 0; i < n.kids.size(); ++i) compare(c, n.kids[i], *b.getPartAt(i), *n.kids[i].part, ctx, path + "." + std::to_string(i));
		c.count("multiparts compared");
	} else {
		VH_EQ(b.getPartCount(), (size_t)0, "leaf-with-parts", "parts in leaf " + path);
		str got = decodedContents(*b.getContents());
		str enc = b.getEncoding().getName();
		if (got != n.data && n.textual) VH_EQ(normEol(got), normEol(n.data), "contents-text:" + enc, "decoded text of " + path);
		else VH_EQ(got, n.data, "contents:" + enc, "decoded contents of " + path);
		c.count("leaves compared: " + enc);
	}
}

static void caseTree(Ctx& c) {
	Builder bd(c.rng); Node root; bd.build(root, 0);
	vmime::generationContext ctx(vmime::generationContext::getDefaultContext());
	size_t ml = c.rng.chance(1, 4) ? vmime::lineLengthLimits::infinite : (size_t)c.rng.range(30, 200);
	ctx.setMaxLineLength(ml);
	if (c.rng.chance(1, 3)) ctx.setPrologText(c.rng.coin() ? "" : "default prolog --x");
	if (c.rng.chance(1, 3)) ctx.setEpilogText("default epilog");
	str out; { vmime::utility::outputStreamStringAdapter o(out); root.part->generate(ctx, o); }
	c.note(root.dump() + "\n" + out);
	str again; { vmime::utility::outputStreamStringAdapter o(again); root.part->generate(ctx, o); }
	VH_EQ(again, out, "second-generation", "generating twice");
	vmime::message m;
	if (c.rng.coin()) m.parse(out); else m.parse(make_shared<SeekIn>(out, Chunking::random(c.rng)), out.size());
	compare(c, root, m, *root.part, ctx, "0");
	c.seen("shapes", root.dump());
	c.nontrivial(out);
}

void vh::setup() {
	setRule("a case counts when a tree was generated, parsed and every part compared; distinct by the generated text");
	addAssumption("contents do not quote the delimiter of an enclosing multipart whose delimiter the application chose itself");
	addAssumption("prolog and epilog (free of encoded-word marks) are compared up to white space, textual contents up to line-end form");
	addSuite("tree", 12000, 400000, caseTree);
}
