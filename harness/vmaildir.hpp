// Maildir trees: an independent reader/writer of the two on-disk layouts, and generators.
#ifndef VMAILDIR_HPP
#define VMAILDIR_HPP
#include "vapi.hpp"
#include "vstreams.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
namespace vh {
namespace fs = std::filesystem;
namespace vn = vmime::net;
typedef std::vector<str> Path; // folder names, UTF-8
inline str show(const Path& p) { str s = "/"; for (auto& c : p) s += c + "/"; return "\"" + esc(s) + "\""; }

inline str b64mod(const str& s) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,"; str o; uint32_t v = 0; int n = 0;
	for (unsigned char c : s) { v = v << 8 | c; n += 8; while (n >= 6) { n -= 6; o += A[v >> n & 63]; } v &= (1u << n) - 1; }
	if (n) o += A[v << (6 - n) & 63];
	return o;
}
// RFC 3501 5.1.3; characters in `extra` are encoded although printable
inline str mutf7(const str& utf8, const str& extra = "") {
	std::vector<uint32_t> u; fromUtf8(utf8, u); str o, run;
	auto flush = [&] { if (!run.empty()) { o += "&" + b64mod(run) + "-"; run.clear(); } };
	auto unit = [&](uint32_t x) { run += (char)(x >> 8); run += (char)x; };
	for (uint32_t c : u) {
		if (c >= 0x20 && c < 0x7f && extra.find((char)c) == str::npos) { flush(); if (c == '&') o += "&-"; else o += (char)c; }
		else if (c >= 0x10000) { unit(0xd800 + ((c - 0x10000) >> 10)); unit(0xdc00 + ((c - 0x10000) & 0x3ff)); }
		else unit(c);
	}
	flush(); return o;
}
inline bool unmutf7(const str& s, str& out) {
	static const str A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,"; std::vector<uint32_t> u;
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = (unsigned char)s[i]; if (c < 0x20 || c >= 0x7f) return false;
		if (c != '&') { u.push_back(c); continue; }
		size_t e = s.find('-', i); if (e == str::npos) return false;
		if (e == i + 1) { u.push_back('&'); i = e; continue; }
		uint32_t v = 0; int n = 0; std::vector<uint32_t> w;
		for (size_t k = i + 1; k < e; ++k) { size_t x = A.find(s[k]); if (x == str::npos) return false; v = v << 6 | (uint32_t)x; n += 6; if (n >= 16) { n -= 16; w.push_back(v >> n & 0xffff); v &= (1u << n) - 1; } }
		if (n >= 6 || v) return false;
		for (size_t k = 0; k < w.size(); ++k) if (w[k] >= 0xd800 && w[k] < 0xdc00 && k + 1 < w.size()) { u.push_back(0x10000 + ((w[k] - 0xd800) << 10) + (w[k + 1] - 0xdc00)); ++k; } else u.push_back(w[k]);
		i = e;
	}
	out = toUtf8(u); return true;
}
struct DiskMsg { str file, content; bool isNew = false; str id() const { return file.substr(0, file.rfind(":2,") == str::npos ? file.size() : file.rfind(":2,")); }
	str flags() const { size_t p = file.rfind(":2,"); return p == str::npos ? str() : file.substr(p + 3); } };
struct Layout {
	str root; bool courier = false;
	str dir(const Path& p) const {
		if (p.empty()) return root;
		if (courier) { str s; for (auto& c : p) s += "." + mutf7(c, "./"); return root + "/" + s; }
		str s = root; for (size_t i = 0; i + 1 < p.size(); ++i) s += "/." + p[i] + ".directory";
		return s + "/" + p.back();
	}
	void make(const Path& p) const { // what another program would do
		str d = dir(p); fs::create_directories(d); for (auto x : {"cur", "new", "tmp"}) fs::create_directory(d + "/" + x);
		if (courier && !p.empty()) std::ofstream(d + "/maildirfolder").flush();
	}
	// folders on disk, found by reading the tree
	std::map<Path, str> folders(str* bad = nullptr) const {
		std::map<Path, str> r;
		if (courier) {
			if (fs::exists(root + "/cur")) r[{}] = root;
			for (auto& e : fs::directory_iterator(root)) { str n = e.path().filename(); if (!e.is_directory() || n[0] != '.') continue;
				if (!fs::exists(e.path() / "maildirfolder")) { if (bad) *bad = "not a folder: " + n; continue; }
				Path p; size_t a = 1; for (;;) { size_t b = n.find('.', a); str c; if (!unmutf7(n.substr(a, b == str::npos ? str::npos : b - a), c)) { if (bad) *bad = "bad folder name " + n; c = "?"; } p.push_back(c); if (b == str::npos) break; a = b + 1; }
				r[p] = e.path(); }
		} else walk(root, {}, r, bad);
		return r;
	}
	static void walk(const str& d, const Path& p, std::map<Path, str>& r, str* bad) {
		for (auto& e : fs::directory_iterator(d)) { str n = e.path().filename();
			if (!e.is_directory()) { if (bad) *bad = "stray file " + n; continue; }
			if (n[0] == '.') { if (n.size() <= 11 || n.compare(n.size() - 10, 10, ".directory")) { if (bad) *bad = "stray directory " + n; continue; } Path q = p; q.push_back(n.substr(1, n.size() - 11)); walk(e.path(), q, r, bad); }
			else { Path q = p; q.push_back(n); r[q] = e.path(); } }
	}
	static std::vector<DiskMsg> messages(const str& d) {
		std::vector<DiskMsg> v;
		for (auto x : {"cur", "new"}) if (fs::exists(d + "/" + x)) for (auto& e : fs::directory_iterator(d + "/" + x)) { DiskMsg m; m.file = e.path().filename(); m.isNew = *x == 'n'; m.content = readFile(e.path()); v.push_back(m); }
		return v;
	}
};
// every file and directory below d
inline std::map<str, str> tree(const str& d) { std::map<str, str> r; for (auto& e : fs::recursive_directory_iterator(d)) r[e.path()] = e.is_directory() ? "dir" : readFile(e.path()); return r; }

inline str flagLetters(int f) { str s; typedef vn::message M; if (f & M::FLAG_DRAFT) s += "D"; if (f & M::FLAG_MARKED) s += "F"; if (f & M::FLAG_PASSED) s += "P"; if (f & M::FLAG_REPLIED) s += "R"; if (f & M::FLAG_SEEN) s += "S"; if (f & M::FLAG_DELETED) s += "T"; return s; }
inline int genFlags(Rng& r, bool deleted = true) { typedef vn::message M; int f = 0; for (int x : {(int)M::FLAG_DRAFT, (int)M::FLAG_MARKED, (int)M::FLAG_PASSED, (int)M::FLAG_REPLIED, (int)M::FLAG_SEEN, (int)M::FLAG_SEEN}) if (r.chance(1, 3)) f |= x; if (deleted && r.chance(1, 4)) f |= M::FLAG_DELETED; return f; }

inline vn::folder::path toPath(const Path& p) { vn::folder::path r; for (auto& c : p) r /= vn::folder::path::component(c, vmime::charset("utf-8")); return r; }
inline Path fromPath(const vn::folder::path& p) { Path r; for (size_t i = 0; i < p.getSize(); ++i) r.push_back(p[i].getConvertedText(vmime::charset("utf-8"))); return r; }

// a directory in memory, removed at the end
struct TempTree {
	str dir;
	TempTree() { str base = ::access("/dev/shm", W_OK) == 0 ? "/dev/shm" : scratchDir(); str t = base + "/vmime-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) fail("infra", "mkdtemp"); dir = b.data(); }
	~TempTree() { std::error_code e; fs::remove_all(dir, e); }
};
inline str genFolderName(Rng& r, bool courier) {
	str n;
	switch (r.below(8)) {
		case 0: case 1: n = r.pickc({"foo", "foobar", "foo bar", "f", "Foo", "new", "cur", "inbox"}); break;
		case 2: n = r.from("abcXYZ019_-+&,~=#'()!$", 1 + r.below(8)); break;
		case 3: n = r.from("ab.&+-,", 1 + r.below(6)); break;
		case 4: n = genUni(r, 1 + r.below(6), 0); break;
		case 5: n = r.pickc({"R\xc3\xa9sum\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", "\xf0\x9f\x93\xa7mail", "a\xc3\xa9/b", "&\xc3\xa9&", "x+\xc3\xa9-", "\xc3\xa9-", "&-", "+", "a&b", "&AOk-", "+AOk-"}); break;
		case 6: n = "foo" + r.from("ab.1", r.below(3)); break;
		default: n = r.from("abc", 1 + r.below(3));
	}
	str o; std::vector<uint32_t> u; if (!fromUtf8(n, u)) return "u"; std::vector<uint32_t> v; for (auto c : u) if (c >= 0x20 && c != 0x7f && !(c >= 0x80 && c < 0xa0) && c != '/' && c != '*' && (c < 0xd800 || c > 0xdfff) && c != 0xfeff && c != 0xfffe && c != 0xffff) v.push_back(c);
	n = toUtf8(v); (void)courier;
	while (!n.empty() && (n[0] == '.' || n[0] == ' ')) n.erase(0, 1); while (!n.empty() && n.back() == ' ') n.pop_back();
	return n.empty() ? "e" : n;
}
}
#endif
