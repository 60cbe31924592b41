#include "vh.hpp"
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
#include <signal.h>
#include <pthread.h>
#include <typeinfo>
#include <cxxabi.h>
#include <atomic>
#include <chrono>
#include <sys/stat.h>
#include <sys/prctl.h>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VH_ASAN 1
#  endif
#  if __has_feature(thread_sanitizer)
#    define VH_TSAN 1
#  endif
#endif
#if defined(VH_ASAN) || defined(VH_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vh {

static std::vector<Suite>& suites() { static std::vector<Suite> v; return v; }
static str g_rule;
static std::vector<str> g_assume;
static int g_fd = -1;              // report file
static str g_scratch;
static bool g_replay = false;

// current case (plain buffers: read from a crash callback)
static char g_curSuite[64];
static std::atomic<unsigned long long> g_curIdx(0);
static char g_curNote[16384];
static size_t g_curNoteLen = 0;
static std::atomic<bool> g_inCase(false);
static std::atomic<double> g_caseStartCpu(0), g_caseLimit(0);
static std::atomic<double> g_caseStartWall(0);

struct Stats {
	uint64_t evals = 0, skips = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<str, uint64_t> counters;
	std::map<str, std::unordered_set<uint64_t>> seen;
	std::map<str, std::vector<str>> samples;
};
static Stats g_st;
static uint64_t g_softs = 0;

uint64_t hash(const void* p, size_t n, uint64_t h) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}

str esc(const str& s, size_t max) {
	str r; char b[8];
	size_t n = 0;
	for (unsigned char c : s) {
		if (n++ >= max) { snprintf(b, sizeof b, "%s", ""); r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += (char)c;
	}
	return r;
}

static str jstr(const str& s) {
	str r = "\""; char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}

static void emit(const str& line) {
	str l = line + "\n";
	size_t o = 0;
	while (o < l.size()) {
		ssize_t w = ::write(g_fd, l.data() + o, l.size() - o);
		if (w <= 0) break;
		o += (size_t)w;
	}
}

static double threadCpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

void Ctx::note(const str& s) {
	size_t n = g_curNoteLen + 2 > sizeof g_curNote ? 0 : std::min(s.size(), sizeof g_curNote - 2 - g_curNoteLen);
	if (n) memcpy(g_curNote + g_curNoteLen, s.data(), n);
	g_curNoteLen += n;
	if (g_curNoteLen < sizeof g_curNote - 1) g_curNote[g_curNoteLen++] = ' ';
	if (replay) fprintf(stderr, "%s\n", esc(s, 100000).c_str());
}
void Ctx::nontrivial(const str& d) { g_st.distinct.insert(hash(d)); }
void Ctx::count(const str& w, uint64_t n) { g_st.counters[w] += n; }
void Ctx::seen(const str& g, const str& v) { auto& s = g_st.seen[g]; if (s.size() < 2000000) s.insert(hash(v)); }

static void emitViolation(const str& key, const str& msg) {
	emit("{\"t\":\"violation\",\"suite\":" + jstr(g_curSuite) + ",\"idx\":" + std::to_string(g_curIdx.load()) +
		",\"key\":" + jstr(key) + ",\"msg\":" + jstr(msg.substr(0, 4000)) +
		",\"note\":" + jstr(str(g_curNote, std::min<size_t>(g_curNoteLen, 6000))) + "}");
	if (g_replay) fprintf(stderr, "VIOLATION key=%s\n  %s\n", key.c_str(), msg.c_str());
}
void Ctx::soft(const str& key, const str& msg) { if (++g_softs < 200) emitViolation(key, msg); }

static str g_prefix; static double g_scale = 1;
void suiteGroup(const str& prefix, double scale) { g_prefix = prefix; g_scale = scale; }
void addSuite(const str& name0, uint64_t q, uint64_t t, CaseFn fn, double cpu) { str name = g_prefix + name0; if (g_scale != 1) { q = std::max<uint64_t>(1, q * g_scale); t = std::max<uint64_t>(1, t * g_scale); } suites().push_back(Suite{name, q, t, fn, cpu}); }
void setRule(const str& r) { g_rule = r; }
void addAssumption(const str& a) { g_assume.push_back(a); }
str scratchDir() { return g_scratch; }
bool runningReplay() { return g_replay; }

str readFile(const str& p) {
	str r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f); return r;
}
void writeFile(const str& p, const str& d) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return; fwrite(d.data(), 1, d.size(), f); fclose(f); }

// async-ish: called when a sanitizer is about to end the process
static void onDeath() {
	if (!g_inCase.load() || g_fd < 0) return;
	static char buf[70000];
	size_t n = (size_t)snprintf(buf, sizeof buf, "{\"t\":\"crash\",\"suite\":\"%s\",\"idx\":%llu,\"note\":\"", g_curSuite, g_curIdx.load());
	for (size_t i = 0; i < g_curNoteLen && n < sizeof buf - 32; ++i) {
		unsigned char c = (unsigned char)g_curNote[i];
		n += (size_t)snprintf(buf + n, 8, (c == '"' || c == '\\') ? "\\%c" : (c < 32 || c >= 127) ? "\\u%04x" : "%c", c);
	}
	n += (size_t)snprintf(buf + n, 8, "\"}\n");
	ssize_t w = ::write(g_fd, buf, n); (void)w;
}

static void* watchdog(void*) {
	for (;;) {
		usleep(200000);
		if (!g_inCase.load()) continue;
		double lim = g_caseLimit.load();
		bool cpu = threadCpu() - g_caseStartCpu.load() > lim;
		bool wal = wall() - g_caseStartWall.load() > lim * 6 + 60;
		if (cpu || wal) {
			char b[300];
			int n = snprintf(b, sizeof b, "{\"t\":\"hang\",\"kind\":\"%s\",\"suite\":\"%s\",\"idx\":%llu,\"limit\":%g,\"note\":\"\"}\n",
				cpu ? "cpu" : "wall", g_curSuite, g_curIdx.load(), lim);
			ssize_t w = ::write(g_fd, b, (size_t)n); (void)w;
			_exit(77);
		}
	}
	return 0;
}

static str excName(const std::exception& e) {
	int st = 0; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
	str r = d ? d : typeid(e).name(); free(d); return r;
}

static void runCase(const Suite& s, uint64_t seed, uint64_t idx, bool thorough) {
	snprintf(g_curSuite, sizeof g_curSuite, "%s", s.name.c_str());
	g_curIdx = idx; g_curNoteLen = 0; g_caseLimit = s.cpuLimit;
	g_caseStartCpu = threadCpu(); g_caseStartWall = wall();
	g_softs = 0;
	Ctx c(seed * 1000003ull + hash(s.name) + idx * 0x9E3779B1ull);
	c.idx = idx; c.thorough = thorough; c.replay = g_replay;
	g_inCase = true;
	if (getenv("VH_TRACE")) emit("{\"t\":\"case\",\"suite\":" + jstr(s.name) + ",\"idx\":" + std::to_string(idx) + "}");
	try {
		s.fn(c);
	} catch (const CaseFail& f) {
		emitViolation(f.key, f.msg);
	} catch (const CaseSkip&) {
		++g_st.skips;
	} catch (const std::exception& e) {
		emitViolation("unexpected-exception:" + excName(e), e.what());
	} catch (...) {
		emitViolation("unexpected-exception:unknown", "unknown exception type");
	}
	g_inCase = false;
	++g_st.evals;
	auto& sm = g_st.samples[s.name];
	if (sm.size() < 3 && g_curNoteLen && (idx % 7 == 0 || sm.empty())) sm.push_back(esc(str(g_curNote, g_curNoteLen), 400));
}

} // namespace vh

int main(int argc, char** argv) {
	using namespace vh;
	uint64_t seed = 1, shard = 0, nshards = 1, startIdx = 0; double scale = 1.0;
	str startSuite, out, replaySuite, only; bool thorough = false; long replayIdx = -1;
	for (int i = 1; i < argc; ++i) {
		str a = argv[i];
		auto val = [&]() -> str { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
		else if (a == "--nshards") nshards = strtoull(val().c_str(), 0, 10);
		else if (a == "--tier") thorough = (val() == "thorough");
		else if (a == "--out") out = val();
		else if (a == "--scratch") g_scratch = val();
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--only") only = val();
		else if (a == "--resume") { startSuite = val(); startIdx = strtoull(val().c_str(), 0, 10); }
		else if (a == "--replay") { replaySuite = val(); replayIdx = atol(val().c_str()); g_replay = true; }
		else if (a == "--list") { setup(); for (auto& s : suites()) printf("%s %llu %llu\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
	}
	setlocale(LC_ALL, "C.UTF-8");
	signal(SIGPIPE, SIG_IGN);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	g_fd = out.empty() ? 1 : ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (g_fd < 0) { perror("open out"); return 3; }
#if defined(VH_ASAN) || defined(VH_TSAN)
	__sanitizer_set_death_callback(onDeath);
#else
	(void)onDeath;
#endif
	pthread_t th; pthread_create(&th, 0, watchdog, 0); pthread_detach(th);

	setup();

	double t0 = wall();
	if (g_replay) {
		for (auto& s : suites()) if (s.name == replaySuite) runCase(s, seed, (uint64_t)replayIdx, thorough);
	} else {
		bool started = startSuite.empty();
		for (auto& s : suites()) {
			if (!only.empty() && s.name.find(only) == str::npos) continue;
			uint64_t from = 0;
			if (!started) { if (s.name != startSuite) continue; started = true; from = startIdx; }
			uint64_t n = (uint64_t)((double)(thorough ? s.thorough : s.quick) * scale);
			double st0 = wall();
			for (uint64_t i = from; i < n; ++i) if (i % nshards == shard) runCase(s, seed, i, thorough);
			g_st.counters["cases:" + s.name] += 0;
			if (getenv("VH_TIME")) fprintf(stderr, "%s: %.2fs\n", s.name.c_str(), wall() - st0);
		}
	}
	std::ostringstream o;
	o << "{\"t\":\"end\",\"evals\":" << g_st.evals << ",\"skips\":" << g_st.skips << ",\"wall\":" << (wall() - t0) << ",\"rule\":" << jstr(g_rule) << ",\"counters\":{";
	bool first = true;
	for (auto& k : g_st.counters) { if (k.first.compare(0, 6, "cases:") == 0) continue; o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
	o << "},\"assumptions\":[";
	first = true; for (auto& a : g_assume) { o << (first ? "" : ",") << jstr(a); first = false; }
	o << "],\"samples\":{"; first = true;
	for (auto& k : g_st.samples) {
		o << (first ? "" : ",") << jstr(k.first) << ":["; first = false;
		bool f2 = true; for (auto& x : k.second) { o << (f2 ? "" : ",") << jstr(x); f2 = false; }
		o << "]";
	}
	o << "},\"distinct\":["; first = true;
	{ size_t lim = 400000; for (auto h : g_st.distinct) { if (!lim--) break; o << (first ? "" : ",") << h; first = false; } }
	o << "],\"seen\":{"; first = true;
	for (auto& k : g_st.seen) {
		o << (first ? "" : ",") << jstr(k.first) << ":["; first = false;
		bool f2 = true; size_t lim = 200000; for (auto x : k.second) { if (!lim--) break; o << (f2 ? "" : ",") << x; f2 = false; }
		o << "]";
	}
	o << "}}";
	emit(o.str());
	if (g_fd > 2) close(g_fd);
	_exit(0);   // no static destructors: leak checking is off, and the harness is done
}
