// Common harness library: deterministic case generation, violation reporting,
// evidence counters, crash/hang attribution.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <memory>

namespace vh {

typedef std::string str;

// ---------------------------------------------------------------- RNG
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { for (int i = 0; i < 3; ++i) next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// [0, n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	// [a, b]
	long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	bool coin() { return next() & 1; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	str pickc(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
	// skewed size: mostly small, sometimes large
	size_t size(size_t max) {
		switch (below(6)) {
			case 0: return below(std::min<size_t>(max, 3) + 1);
			case 1: case 2: return below(std::min<size_t>(max, 16) + 1);
			case 3: case 4: return below(std::min<size_t>(max, 120) + 1);
			default: return below(max + 1);
		}
	}
	str bytes(size_t n) { str r(n, '\0'); for (auto& c : r) c = (char)next(); return r; }
	str from(const str& alphabet, size_t n) { str r(n, '\0'); for (auto& c : r) c = alphabet[below(alphabet.size())]; return r; }
};

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(const str& s) { return hash(s.data(), s.size()); }

// printable escaped form of a byte string (limited)
str esc(const str& s, size_t max = 600);

// ---------------------------------------------------------------- failures
struct CaseFail {
	str key, msg;
	CaseFail(const str& k, const str& m) : key(k), msg(m) {}
};
// stop this case without a verdict
struct CaseSkip { str why; };

[[noreturn]] inline void fail(const str& key, const str& msg) { throw CaseFail(key, msg); }

struct Ctx {
	Rng rng;
	uint64_t idx = 0;
	bool thorough = false;
	bool replay = false;
	explicit Ctx(uint64_t seed) : rng(seed) {}
	// describe the current input (kept for crash attribution and samples)
	void note(const str& s);
	// mark this case distinct and non-trivial, by a digest of what makes it so
	void nontrivial(const str& digest);
	void count(const str& what, uint64_t n = 1);
	// record one observed state/event class: evidence reports the number of distinct ones
	void seen(const str& group, const str& value);
	// a violation that does not end the case
	void soft(const str& key, const str& msg);
};

#define VH_CHECK(cond, key, msg) do { if (!(cond)) { std::ostringstream vh_o_; vh_o_ << msg; ::vh::fail(key, vh_o_.str()); } } while (0)
#define VH_EQ(a, b, key, what) do { const auto vh_a_ = (a); const auto vh_b_ = (b); if (!(vh_a_ == vh_b_)) { \
	std::ostringstream vh_o_; vh_o_ << what << ": got " << ::vh::show(vh_a_) << " expected " << ::vh::show(vh_b_); ::vh::fail(key, vh_o_.str()); } } while (0)

inline str show(const str& s) { return "\"" + esc(s) + "\""; }
inline str show(const char* s) { return show(str(s)); }
template <class T> str show(const T& t) { std::ostringstream o; o << t; return o.str(); }

typedef std::function<void(Ctx&)> CaseFn;

struct Suite {
	str name;
	uint64_t quick, thorough;
	CaseFn fn;
	double cpuLimit;
};
void suiteGroup(const str& prefix, double scale);   // for the suites added next
void addSuite(const str& name, uint64_t quick, uint64_t thorough, CaseFn fn, double cpuLimitSeconds = 10);

// each harness defines this: registers its suites, and the rule text
void setup();
void setRule(const str& rule);
void addAssumption(const str& a);

str readFile(const str& path);
void writeFile(const str& path, const str& data);
// scratch directory private to this shard (under the runner's work directory)
str scratchDir();
bool runningReplay();

} // namespace vh
#endif
