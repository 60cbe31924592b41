// C08: header parameters survive encoding, splitting and decoding.
#include "vparam.hpp"
using namespace vh;
using namespace vmime;

static void caseRead(Ctx& c) {
	Rng& r = c.rng; std::vector<PW> ps; std::set<str> names;
	for (size_t n = 1 + r.below(5); n-- > 0;) { str nm = r.coin() ? str(r.pickc({"filename", "name", "charset-x", "title", "size", "x-y"})) : lower(r.from("abcdefghij-xyz", 1 + r.below(10))); if (names.insert(nm).second) ps.push_back(genParam(r, nm, &c)); }
	std::vector<str> secs; std::map<str, str> want;
	for (auto& p : ps) { want[p.name] = p.meaning; std::vector<str> s = p.sections; if (r.chance(1, 3)) for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.below(i)]); secs.insert(secs.end(), s.begin(), s.end()); }
	if (r.chance(1, 4)) for (size_t i = secs.size(); i > 1; --i) std::swap(secs[i - 1], secs[r.below(i)]);
	str field = r.pickc({"Content-Disposition", "Content-Type", "Content-Transfer-Encoding"}), v = field == "Content-Type" ? "application/x-test" : field == "Content-Disposition" ? "attachment" : "base64";
	str wire = v; for (auto& s : secs) wire += (r.chance(1, 10) ? wFws(r) : str()) + ";" + r.pickc({" ", "", "\r\n ", "\r\n\t", "  "}) + s;
	if (r.chance(1, 10)) wire += ";";
	c.note(wire);
	header h; h.parse(field + ": " + wire + "\r\n");
	auto f = vmime::dynamicCast<parameterizedHeaderField>(h.getFieldAt(0));
	VH_EQ(f->getParameterCount(), ps.size(), "read-count", "number of parameters in " + esc(wire, 3000));
	for (auto& p : ps) {
		VH_CHECK(f->hasParameter(p.name), "read-missing", "parameter " << p.name << " missing in " << esc(wire, 3000));
		VH_EQ(uWord(f->findParameter(p.name)->getValue()), p.meaning, "read", "value of " + p.name + " in " + esc(wire, 3000));
		c.count("parameters read");
	}
	// re-generated
	generationContext ctx; ctx.setMaxLineLength((size_t)r.range(50, 130)); if (r.chance(1, 5)) ctx.setEncodedParameterValueMode(generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047);
	str g; { utility::outputStreamStringAdapter o(g); h.generate(ctx, o); }
	header h2; h2.parse(g); auto f2 = vmime::dynamicCast<parameterizedHeaderField>(h2.getFieldAt(0));
	VH_EQ(f2->getParameterCount(), ps.size(), "again-count", "number of parameters re-generated as " + esc(g, 3000));
	for (auto& p : ps) VH_EQ(uWord(f2->findParameter(p.name)->getValue()), p.meaning, "again", "value of " + p.name + " re-generated as " + esc(g, 3000));
	c.nontrivial(wire);
}

// ---- reference reader of generated parameters
struct Sec { size_t n; bool enc; str v; };
static bool refRead(const str& wire, std::map<str, std::pair<str, str>>& out, str& err) {   // name -> (unicode, charset)
	std::map<str, std::vector<Sec>> secs; str u; for (char ch : wire) if (ch != '\r' && ch != '\n') u += ch;
	size_t i = u.find(';');
	while (i != str::npos && i < u.size()) {
		if (u[i] != ';') { err = "expected ; at " + std::to_string(i); return false; }
		++i; while (i < u.size() && (u[i] == ' ' || u[i] == '\t')) ++i;
		if (i == u.size()) { err = "empty parameter"; return false; }
		size_t e = u.find('=', i); if (e == str::npos) { err = "no ="; return false; }
		str name = u.substr(i, e - i), val; bool enc = false; size_t n = 0; bool sect = false;
		for (char ch : name) if ((unsigned char)ch <= 32 || (unsigned char)ch > 126 || strchr("()<>@,;:\\\"/[]?=", ch)) { err = "bad name " + name; return false; }
		if (name.back() == '*') { enc = true; name.pop_back(); }
		size_t st = name.find('*'); if (st != str::npos) { n = strtoul(name.c_str() + st + 1, nullptr, 10); sect = true; if (name.substr(st + 1) != std::to_string(n)) { err = "bad section " + name; return false; } name.resize(st); }
		i = e + 1;
		if (i < u.size() && u[i] == '"') { ++i; for (;;) { if (i >= u.size()) { err = "unterminated quote"; return false; } if (u[i] == '\\') { ++i; if (i < u.size()) val += u[i++]; } else if (u[i] == '"') { ++i; break; } else val += u[i++]; } }
		else { while (i < u.size() && u[i] != ';') { if ((unsigned char)u[i] <= 32 || (unsigned char)u[i] > 126 || (strchr("()<>@,;:\\\"/[]?=", u[i]))) { err = str("bad token character ") + u[i]; return false; } val += u[i++]; } if (val.empty() && !enc) { err = "empty value"; return false; } }
		(void)sect; secs[lower(name)].push_back({n, enc, val});
		while (i < u.size() && (u[i] == ' ' || u[i] == '\t')) ++i;
	}
	for (auto& kv : secs) {
		auto& v = kv.second; bool anyEnc = false; for (auto& s : v) anyEnc |= s.enc;
		str raw, cs = "us-ascii"; 
		if (anyEnc) { std::vector<Sec> k; for (auto& s : v) if (s.enc) k.push_back(s); if (k.size() != v.size() && v.size() != k.size() + 1) { err = "mixed sections"; return false; } v = k; }
		std::sort(v.begin(), v.end(), [](const Sec& a, const Sec& b) { return a.n < b.n; });
		for (size_t j = 0; j < v.size(); ++j) {
			if (v[j].n != j) { err = "section numbers of " + kv.first; return false; }
			str t = v[j].v;
			if (v[j].enc) {
				if (j == 0) { size_t a = t.find('\''), b = a == str::npos ? a : t.find('\'', a + 1); if (b == str::npos) { err = "no charset"; return false; } cs = t.substr(0, a); t = t.substr(b + 1); }
				str d; for (size_t k = 0; k < t.size(); ++k) if (t[k] == '%') { if (k + 2 >= t.size() + 0 && k + 2 > t.size() - 1) { err = "cut escape"; return false; } d += (char)strtol(t.substr(k + 1, 2).c_str(), nullptr, 16); k += 2; } else d += t[k];
				t = d;
			}
			raw += t;
		}
		str uni; if (!refConvert(raw, cs, "UTF-8", uni)) { err = "value of " + kv.first + " is not " + cs; return false; }
		out[kv.first] = {uni, cs};
	}
	return true;
}
static str genValue(Rng& r, str& cs, str& raw) {
	for (;;) {
		cs = r.pickc({"utf-8", "utf-8", "us-ascii", "iso-8859-1", "windows-1251", "koi8-r", "iso-2022-jp", "shift_jis", "utf-8"}); str s; size_t n = r.chance(1, 6) ? r.size(500) : r.below(40);
		for (size_t i = 0; i < n; ++i) {
			switch (r.below(8)) {
				case 0: s += r.pickc({" ", "\"", "'", "%", ";", "=", "*", "(", "/", "?", ",", "<", "%41", "''", "\t", "*0", "=?"}); break;
				case 1: s += (char)r.range(0x20, 0x5b); break;
				case 2: if (cs == "utf-8") { putUtf8(s, genChar(r)); break; } // fallthrough
				case 3: if (cs == "iso-8859-1") { putUtf8(s, (uint32_t)r.range(0xA1, 0xFF)); break; } if (cs == "windows-1251" || cs == "koi8-r") { putUtf8(s, (uint32_t)r.range(0x410, 0x44F)); break; } if (cs == "iso-2022-jp" || cs == "shift_jis") { putUtf8(s, (uint32_t)r.range(0x3042, 0x3080)); break; } // fallthrough
				default: s += (char)r.range('a', 'z');
			}
		}
		if (r.chance(1, 12)) s += r.pickc({"\\", "\r\n X: y", "\n", "\x01"});
		if ((cs == "shift_jis" || cs == "iso-2022-jp") && s.find_first_of("\\~\r\n\x01") != str::npos) continue;
		if (refConvert(s, "UTF-8", cs, raw)) return s;
	}
}
static void caseWrite(Ctx& c) {
	Rng& r = c.rng;
	str field = r.pickc({"Content-Disposition", "Content-Type"}), d = field;
	auto f = vmime::dynamicCast<parameterizedHeaderField>(headerFieldFactory::getInstance()->create(field));
	if (field == "Content-Type") f->setValue(mediaType("application", "x-test")); else f->setValue(contentDisposition("attachment"));
	std::map<str, std::pair<str, str>> want; bool stateful = false;
	for (size_t n = 1 + r.below(4); n-- > 0;) {
		str name = r.coin() ? str(r.pickc({"filename", "name", "title", "a"})) : r.from("abcdefghijklmnop-", 1 + r.below(r.chance(1, 8) ? r.coin() ? 40 : 90 : 12));
		if (want.count(name)) continue;
		str cs, raw, s = genValue(r, cs, raw);
		f->appendParameter(make_shared<parameter>(name, word(raw, charset(cs))));
		stateful |= cs == "iso-2022-jp";
		want[name] = {s, cs}; d += "; " + name + "=" + cs + ":" + esc(s, 1500);
	}
	generationContext ctx; ctx.setMaxLineLength(r.chance(1, 8) ? lineLengthLimits::infinite : r.chance(1, 3) ? 78 : (size_t)r.range(50, 200));
	if (!want.empty() && r.chance(1, 4) && ctx.getMaxLineLength() != lineLengthLimits::infinite) ctx.setMaxLineLength(std::max((size_t)50, want.rbegin()->first.size() + r.below(14)));
	auto mode = r.chance(1, 5) ? generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047 : !stateful && r.chance(1, 5) ? generationContext::PARAMETER_VALUE_RFC2047_ONLY : generationContext::PARAMETER_VALUE_RFC2231_ONLY;
	ctx.setEncodedParameterValueMode(mode);
	d += " line " + std::to_string(ctx.getMaxLineLength()) + " mode " + std::to_string((int)mode);
	c.note(d); c.seen("mode", std::to_string((int)mode));
	size_t estimate = f->getGeneratedSize(ctx);
	str g; { utility::outputStreamStringAdapter o(g); f->generate(ctx, o); }
	VH_CHECK(estimate >= field.size() && estimate <= 40 * g.size() + 100000, "write-size", "estimated " << estimate << " for " << g.size() << " bytes: " << esc(g, 4000));
	header h; h.parse(g + "\r\n");
	VH_EQ(h.getFieldCount(), (size_t)1, "write-fields", "fields in " + esc(g, 4000));
	auto f2 = vmime::dynamicCast<parameterizedHeaderField>(h.getFieldAt(0));
	if (mode == generationContext::PARAMETER_VALUE_RFC2231_ONLY) {
		std::map<str, std::pair<str, str>> ref; str err;
		VH_CHECK(refRead(g.substr(g.find(':') + 1), ref, err), "write-syntax", err << " in " << esc(g, 4000));
		VH_EQ(ref.size(), want.size(), "write-ref-count", "parameters in " + esc(g, 4000));
		for (auto& kv : want) {
			VH_EQ(ref[lower(kv.first)].first, kv.second.first, "write-ref", "value of " + kv.first + " read by the reference from " + esc(g, 4000));
		}
	}
	VH_EQ(f2->getParameterCount(), want.size(), "write-count", "parameters in " + esc(g, 4000));
	for (auto& kv : want) {
		str k = str("write:") + (mode == generationContext::PARAMETER_VALUE_RFC2047_ONLY ? "2047" : "2231");
		VH_CHECK(f2->hasParameter(kv.first), "write-missing", kv.first << " in " << esc(g, 4000));
		str got = uWord(f2->findParameter(kv.first)->getValue()), exp = kv.second.first;
		if (mode == generationContext::PARAMETER_VALUE_RFC2047_ONLY) { got = squeezeWs(got); exp = squeezeWs(exp); }
		VH_EQ(got, exp, k, "value of " + kv.first + " from " + esc(g, 4000));
		bool ascii = true; for (char ch : kv.second.first) ascii &= (unsigned char)ch < 128;
		if (!ascii) VH_EQ(lower(f2->findParameter(kv.first)->getValue().getCharset().getName()), kv.second.second, "write-charset", "charset of " + kv.first + " from " + esc(g, 4000));
		c.count("parameters written");
	}
	c.nontrivial(d);
}

void vh::setup() {
	setRule("a field counts when all its parameters were read back and compared; distinct by its text or by the values set");
	addSuite("read", 50000, 3000000, caseRead);
	addSuite("write", 40000, 2000000, caseWrite);
}
