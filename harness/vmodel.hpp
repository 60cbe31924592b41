// A strict model of a MIME message: writes text and remembers where everything is.
#ifndef VMODEL_HPP
#define VMODEL_HPP
#include "vmsg.hpp"
namespace vh {

struct MField { str name, value, unfolded; size_t start = 0, end = 0; };
struct MPart {
	std::vector<MField> fields;
	bool multi = false, closed = true;
	str boundary, prolog, epilog, contents;
	std::vector<MPart> parts;
	size_t start = 0, bodyStart = 0, end = 0;
};

struct MGen {
	Rng& r; str nl; std::vector<str> bounds; unsigned uid = 0; size_t nparts = 0; bool wild = false;
	explicit MGen(Rng& rr) : r(rr) { nl = r.chance(3, 4) ? "\r\n" : "\n"; }

	MField field() {
		MField f; f.name = r.pickc({"X-One", "X-Two", "Subject", "X-Long-Name-Of-Field", "Comments", "x-lower"});
		size_t n = 1 + r.below(6);
		for (size_t i = 0; i < n; ++i) {
			str t = genToken(r);
			f.value += t; f.unfolded += t;
			if (i + 1 < n) { if (r.chance(1, 3)) f.value += nl + r.pickc({" ", "\t"}); else f.value += " "; f.unfolded += " "; }
		}
		return f;
	}
	// lines that look like structure but are not delimiters of any enclosing part
	str contents() {
		str s;
		for (size_t i = r.below(7); i-- > 0;) {
			switch (r.below(9)) {
				case 0: s += genToken(r) + ": " + genToken(r); break;
				case 1: s += "--"; break;
				case 2: s += "." + genToken(r); break;
				case 3: if (!bounds.empty()) s += "--" + r.pick(bounds) + "X" + genToken(r); break;
				case 4: if (!bounds.empty()) s += r.pickc({" ", "x", "-"}) + ("--" + r.pick(bounds)); break;
				case 5: if (!bounds.empty()) { str b = r.pick(bounds); b.resize(b.size() - 1); bool clash = b.empty(); for (auto& o : bounds) if (o == b) clash = true; if (!clash) s += "--" + b; } break;
				case 6: s += r.from("abcdefghi =?-\xc3\xa9\x80\xff\t.", r.size(wild ? 3000 : 200)); break;
				case 7: s += "Content-Type: multipart/mixed; boundary=\"zz\""; break;
				default: break;
			}
			s += r.chance(7, 8) ? nl : r.pickc({"\n", "\r\n", "\r"});
		}
		if (r.chance(1, 3)) s += genToken(r);
		// a CR right before the line break of a delimiter would be part of that line break
		if (!s.empty() && s.back() == '\r') s += ".";
		return s;
	}
	str newBoundary() {
		str b;
		if (!bounds.empty() && r.chance(1, 4)) { b = bounds.back() + r.pickc({"x", "-x", ".", "=", "Z9"}); }
		else if (r.chance(1, 5)) b = "a" + std::to_string(uid);
		else b = r.pickc({"=_", "", "----=_NextPart_", "b.", "(x):"}) + genToken(r) + std::to_string(uid);
		++uid;
		if (b.size() > 69) b = "q" + std::to_string(uid);
		for (auto& o : bounds) if (o == b) b += "u" + std::to_string(uid);
		return b;
	}
	MPart part(int depth = 0) {
		MPart p; ++nparts;
		for (size_t i = r.below(4); i-- > 0;) p.fields.push_back(field());
		p.multi = depth < 4 && nparts < 30 && r.chance(depth == 0 ? 3 : 2, 5);
		if (p.multi) {
			p.boundary = newBoundary();
			MField f; f.name = "Content-Type";
			f.value = f.unfolded = str("multipart/") + r.pickc({"mixed", "alternative", "related", "x-y"}) + ";" + r.pickc({" ", "\r\n ", ""}) + "boundary=\"" + p.boundary + "\"" + r.pickc({"", "", "; x=y"});
			p.fields.insert(p.fields.begin() + r.below(p.fields.size() + 1), f);
			bounds.push_back(p.boundary);
			if (r.chance(1, 3)) { p.prolog = genToken(r) + " " + genToken(r); }
			for (size_t i = 1 + r.below(4); i-- > 0;) p.parts.push_back(part(depth + 1));
			p.closed = r.chance(7, 8);
			bounds.pop_back();
			if (p.closed && r.chance(1, 3)) p.epilog = genToken(r) + " " + genToken(r);
		} else {
			p.contents = contents();
			if (r.chance(1, 2)) { MField f; f.name = "Content-Type"; f.value = f.unfolded = r.pickc({"text/plain; charset=us-ascii", "text/html", "application/octet-stream", "message/rfc822"}); p.fields.push_back(f); }
		}
		return p;
	}
	void write(MPart& p, str& o) {
		p.start = o.size();
		for (auto& f : p.fields) { f.start = o.size(); o += f.name + ": " + f.value + nl; f.end = o.size(); }
		o += nl;
		p.bodyStart = o.size();
		if (p.multi) {
			bool first = true;
			if (!p.prolog.empty()) { o += p.prolog; first = false; }
			for (auto& q : p.parts) {
				if (!first) o += nl;
				first = false;
				o += "--" + p.boundary + r.pickc({"", "", "", "", " ", "\t ", "   "}) + nl;
				write(q, o);
			}
			if (p.closed) { o += nl + "--" + p.boundary + "--" + r.pickc({"", "", " "}) + (p.epilog.empty() && r.coin() ? "" : nl); o += p.epilog; }
		} else o += p.contents;
		p.end = o.size();
		if (p.multi && !p.closed) p.parts.back().end = p.end;
	}
};
// a part left without close delimiter ends where its parent says; propagate
inline void fixEnds(MPart& p) { if (p.multi) { if (!p.closed) p.parts.back().end = p.end; for (auto& q : p.parts) fixEnds(q); } }

} // namespace vh
#endif
