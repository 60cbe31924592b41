// N11: system sockets, files and helper programs.
// ldflags: -Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=write,--wrap=lseek,--wrap=fsync,--wrap=fdatasync,--wrap=ftruncate,--wrap=stat,--wrap=lstat,--wrap=fstat,--wrap=access
// ldflags: -Wl,--wrap=mkdir,--wrap=rmdir,--wrap=unlink,--wrap=remove,--wrap=rename,--wrap=link,--wrap=opendir,--wrap=readdir,--wrap=closedir
// ldflags: -Wl,--wrap=getaddrinfo_a,--wrap=gai_suspend,--wrap=gai_error,--wrap=gai_cancel
#define VFAULT_IMPL
#include "vfault.hpp"
#include "vmsg.hpp"
#include "vapi.hpp"
#include "vmaildir.hpp"
#include "vmime/platforms/posix/posixSocket.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include "vmime/platforms/posix/posixChildProcess.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
using namespace vh;
namespace vn = vmime::net;
namespace pp = vmime::platforms::posix;

// ------------------------------------------------------------ name resolution under control
// Names ending in ".test" are answered here: with a list of addresses, after some time, or never before the caller gives up.
struct Resolver { std::vector<str> addrs; int delayMs = 0; int error = 0; bool cancellable = false; } g_res;
struct PendingReq { struct gaicb* r; std::atomic<int> state{EAI_INPROGRESS}; std::thread th; std::atomic<bool> cancelled{false}; };
static std::mutex g_resLock; static std::map<struct gaicb*, std::shared_ptr<PendingReq>> g_pending; static std::vector<std::shared_ptr<PendingReq>> g_allReq;
static struct addrinfo* addrList(const Resolver& res, const char* service) {
	struct addrinfo *head = nullptr, **tail = &head;
	for (auto& a : res.addrs) { struct addrinfo h; memset(&h, 0, sizeof h); h.ai_flags = AI_NUMERICHOST | AI_NUMERICSERV; h.ai_socktype = SOCK_STREAM; struct addrinfo* x = nullptr; if (!getaddrinfo(a.c_str(), service, &h, &x)) { *tail = x; while (*tail) tail = &(*tail)->ai_next; } }
	return head;
}
static bool ours(const char* n) { size_t l = n ? strlen(n) : 0; return l > 5 && !strcmp(n + l - 5, ".test"); }
extern "C" {
int __real_getaddrinfo_a(int, struct gaicb*[], int, struct sigevent*); int __real_gai_suspend(const struct gaicb* const[], int, const struct timespec*); int __real_gai_error(struct gaicb*); int __real_gai_cancel(struct gaicb*);
int __wrap_getaddrinfo_a(int mode, struct gaicb* l[], int n, struct sigevent* s) {
	if (n != 1 || !ours(l[0]->ar_name)) return __real_getaddrinfo_a(mode, l, n, s);
	auto p = std::make_shared<PendingReq>(); p->r = l[0]; Resolver res = g_res;
	{ std::lock_guard<std::mutex> g(g_resLock); g_pending[l[0]] = p; g_allReq.push_back(p); }
	// the resolver uses what it was given at the end: the request and its strings must still be there
	p->th = std::thread([p, res] { for (int i = 0; i < res.delayMs && !p->cancelled; i += 5) usleep(5000); if (p->cancelled) return; str name = p->r->ar_name, svc = p->r->ar_service; int fam = p->r->ar_request->ai_family; if (!ours(name.c_str()) || fam < 0) abort(); p->r->ar_result = res.error ? nullptr : addrList(res, svc.c_str()); p->state = res.error; });
	return 0;
}
int __wrap_gai_suspend(const struct gaicb* const l[], int n, const struct timespec* ts) {
	std::shared_ptr<PendingReq> p; { std::lock_guard<std::mutex> g(g_resLock); auto i = g_pending.find((struct gaicb*)l[0]); if (i != g_pending.end()) p = i->second; }
	if (!p) return __real_gai_suspend(l, n, ts);
	long ms = ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : 1 << 30; ms = std::min(ms, 60l); // (time runs faster for the caller)
	for (long i = 0; i < ms; i += 2) { if (p->state != EAI_INPROGRESS) return 0; if (usleep(2000) && errno == EINTR) return EAI_INTR; }
	return p->state != EAI_INPROGRESS ? 0 : EAI_AGAIN;
}
int __wrap_gai_error(struct gaicb* r) { std::lock_guard<std::mutex> g(g_resLock); auto i = g_pending.find(r); return i == g_pending.end() ? __real_gai_error(r) : (int)i->second->state; }
int __wrap_gai_cancel(struct gaicb* r) {
	std::lock_guard<std::mutex> g(g_resLock); auto i = g_pending.find(r); if (i == g_pending.end()) return __real_gai_cancel(r);
	if (i->second->state != EAI_INPROGRESS) return EAI_ALLDONE; if (!g_res.cancellable) return EAI_NOTCANCELED; i->second->cancelled = true; i->second->state = EAI_CANCELED; return EAI_CANCELED;
}
}
static void resolverEnd() { for (auto& p : g_allReq) if (p->th.joinable()) p->th.join(); std::lock_guard<std::mutex> g(g_resLock); g_allReq.clear(); g_pending.clear(); }

// ------------------------------------------------------------ common
static str fdList() { str l; for (int i = 0; i < 64; ++i) { char b[300]; str n = "/proc/self/fd/" + std::to_string(i); ssize_t k = readlink(n.c_str(), b, sizeof b); if (k > 0) l += " " + std::to_string(i) + ":" + str(b, (size_t)k); } return l; }
static size_t openFdsNow() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// (the C library or the sanitizer may have something open for a moment in another thread: look until it is stable)
static size_t openFds(size_t expect = 0) { size_t n = openFdsNow(); for (int i = 0; i < 1000; ++i) { if (n == expect) return n; usleep(expect ? 2000 : 20); size_t k = openFdsNow(); if (!expect && k == n) return n; n = k; } return n; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
class WallTimeout : public vn::timeoutHandler {
public:
	WallTimeout(double s, int more = 0) : limit(s), extra(more) { resetTimeOut(); }
	bool isTimeOut() { return now() - start >= limit; }
	void resetTimeOut() { start = now(); ++resets; }
	bool handleTimeOut() { ++handled; return handled <= extra; }
	double limit, start; int extra, handled = 0, resets = 0;
};
// signals while system calls are waiting
struct Alarms {
	Alarms(bool on_) : on(on_) { if (!on) return; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, &old); struct itimerval it = {{0, 3000}, {0, 3000}}; setitimer(ITIMER_REAL, &it, nullptr); }
	~Alarms() { if (!on) return; struct itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it, nullptr); sigaction(SIGALRM, &old, nullptr); }
	bool on; struct sigaction old;
};
struct Peer { // a listening socket on the loopback interface
	int fd = -1; int port = 0; str addr;
	bool open(bool v6, int backlog = 5, const str& v4 = "127.0.0.1") {
		fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (fd < 0) return false;
		struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t l;
		if (v6) { auto* a = (struct sockaddr_in6*)&ss; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; l = sizeof *a; addr = "::1"; } else { auto* a = (struct sockaddr_in*)&ss; a->sin_family = AF_INET; inet_pton(AF_INET, v4.c_str(), &a->sin_addr); l = sizeof *a; addr = v4; }
		if (bind(fd, (struct sockaddr*)&ss, l) || (backlog >= 0 && ::listen(fd, backlog))) { __real_close(fd); fd = -1; return false; }
		l = sizeof ss; getsockname(fd, (struct sockaddr*)&ss, &l); port = ntohs(v6 ? ((struct sockaddr_in6*)&ss)->sin6_port : ((struct sockaddr_in*)&ss)->sin_port); return true;
	}
	~Peer() { if (fd >= 0) __real_close(fd); }
};
static void sigBlockAll() { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, nullptr); }
static str socketEnd(const std::function<void()>& f) { try { f(); } catch (const vmime::exceptions::operation_timed_out&) { return "timeout"; } catch (const vmime::exceptions::connection_error& e) { return str("connection:") + e.what() + (e.other() ? str(" / ") + e.other()->what() : ""); } catch (const vmime::exceptions::socket_exception& e) { return str("socket:") + e.what(); } catch (const vmime::exception& e) { return str("other:") + e.what(); } return ""; }

// ------------------------------------------------------------ data over a connection
static void caseStream(Ctx& c) {
	Rng& r = c.rng; size_t fds = openFds();
	{
		Peer p; bool v6 = r.coin() && p.open(true); if (!v6 && !p.open(false)) throw CaseSkip{"no loopback"};
		bool reset = r.chance(1, 4), slow = r.coin(), small = r.coin(); size_t top = slow || small ? 60000 : 3000000; str out = r.bytes(r.size(top)), in = r.bytes(r.size(top)); bool sig = r.chance(1, 3); uint64_t seed = r.next();
		int how = (int)r.below(3), th = (int)r.below(3);
		c.note("out " + std::to_string(out.size()) + " in " + std::to_string(in.size()) + (v6 ? " IPv6" : " IPv4") + (reset ? " reset" : "") + (slow ? " slow" : "") + (small ? " small buffers" : "") + (sig ? " signals" : "") + " api " + std::to_string(how) + " handler " + std::to_string(th));
		std::atomic<bool> clientDone{false}, ended{false}; str got; std::atomic<size_t> gotN{0};
		std::thread srv([&] {
			sigBlockAll(); Rng q(seed); int s = accept4(p.fd, nullptr, nullptr, SOCK_CLOEXEC); if (s < 0) return; if (small) { int v = 2000; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
			size_t sent = 0; std::vector<char> b(70000); bool wait = slow; int idle = 0;
			while (sent < in.size() || got.size() < out.size()) {
				struct pollfd f = {s, (short)(POLLIN | (sent < in.size() ? POLLOUT : 0)), 0}; int k = poll(&f, 1, 1000); if (k <= 0) { if (++idle > 8) break; continue; }
				bool did = false;
				if (f.revents & (POLLIN | POLLHUP | POLLERR)) { ssize_t n = recv(s, b.data(), 1 + q.below(b.size()), MSG_DONTWAIT); if (n > 0) { got.append(b.data(), n); gotN = got.size(); did = true; } else if (n == 0 || (errno != EAGAIN && errno != EINTR)) break; }
				if (f.revents & POLLOUT) { size_t n = std::min(in.size() - sent, (size_t)1 + q.below(q.coin() || in.size() > 100000 ? 50000 : 300)); ssize_t w = ::send(s, in.data() + sent, n, MSG_DONTWAIT | MSG_NOSIGNAL); if (w > 0) { sent += w; did = true; } }
				if (did) idle = 0; if (wait && q.chance(1, 12)) { usleep((useconds_t)q.below(3000)); if (now() < 0) break; }
			}
			for (int i = 0; i < 4000 && !clientDone; ++i) usleep(1000);
			if (reset) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
			__real_close(s); ended = true;
		});
		struct Join { std::thread& t; std::atomic<bool>& d; int fd; ~Join() { d = true; ::shutdown(fd, SHUT_RDWR); if (t.joinable()) t.join(); } } join{srv, clientDone, p.fd};
		auto h = th ? make_shared<WallTimeout>(20.) : shared_ptr<WallTimeout>(); shared_ptr<vn::socket> s = th == 2 ? pp::posixSocketFactory().create(h) : h ? make_shared<pp::posixSocket>(h) : shared_ptr<vn::socket>(pp::posixSocketFactory().create());
		VH_CHECK(!s->isConnected(), "connected-early", "isConnected() before connect()");
		{
			Alarms a(sig);
			s->connect(p.addr, (vmime::port_t)p.port); VH_CHECK(s->isConnected(), "not-connected", "not connected after connect()");
			VH_EQ(s->getPeerAddress(), p.addr, "peer-address", "address of the peer"); VH_CHECK(!s->getPeerName().empty(), "peer-name", "name of the peer");
			str rec; size_t sent = 0; double t0 = now(); std::vector<vmime::byte_t> b(100000);
			while (sent < out.size() || rec.size() < in.size()) {
				if (now() - t0 > 60) fail("stuck", "no progress: sent " + std::to_string(sent) + " received " + std::to_string(rec.size()));
				if (sent < out.size()) {
					size_t n = std::min(out.size() - sent, (size_t)1 + r.below(r.coin() || out.size() > 100000 ? 60000 : 100)); bool full = how == 0 || (how == 2 && r.coin());
					// a blocking send would wait for a peer which itself waits for us: only when the peer reads
					if (full) { if (r.coin()) s->send(out.substr(sent, n)); else s->sendRaw((const vmime::byte_t*)out.data() + sent, n); sent += n; c.count("blocking sends"); }
					else { size_t k = s->sendRawNonBlocking((const vmime::byte_t*)out.data() + sent, n); VH_CHECK(k <= n, "send-count", "more sent than given"); if (k < n) c.count("partial sends"); if (!k) { VH_CHECK(s->getStatus() & vn::socket::STATUS_WOULDBLOCK, "wouldblock", "nothing sent, but no STATUS_WOULDBLOCK"); c.count("sends that would block"); if (rec.size() == in.size()) s->waitForWrite(20); } sent += k; }
				}
				if (rec.size() < in.size()) {
					str x; if (r.coin()) s->receive(x); else { size_t n = 1 + r.below(r.coin() || in.size() > 100000 ? b.size() : 50); size_t k = s->receiveRaw(b.data(), n); VH_CHECK(k <= n, "receive-count", "more received than asked for"); x.assign((char*)b.data(), k); }
					if (x.empty()) { VH_CHECK(s->getStatus() & vn::socket::STATUS_WOULDBLOCK, "wouldblock", "nothing received, but no STATUS_WOULDBLOCK"); c.count("receives without data"); } else VH_CHECK(!(s->getStatus() & vn::socket::STATUS_WOULDBLOCK), "wouldblock", "STATUS_WOULDBLOCK although data was received");
					rec += x; VH_CHECK(rec.size() <= in.size() && !in.compare(rec.size() - x.size(), x.size(), x), "received", "received bytes differ before " + std::to_string(rec.size()));
				}
			}
			for (int i = 0; i < 20000 && gotN < out.size() && !ended; ++i) usleep(1000);
			c.count("bytes sent", out.size()); c.count("bytes received", in.size());
		}
		VH_CHECK(s->isConnected(), "dropped", "not connected any more");
		clientDone = true; srv.join();
		VH_CHECK(got == out, "sent", "the peer received " + std::to_string(got.size()) + " of " + std::to_string(out.size()) + " bytes" + (got == out.substr(0, got.size()) ? "" : ", and other ones"));
		// end of the connection
		bool self = r.chance(1, 4); if (self) s->disconnect();
		double t0 = now(); str e; int n = 0; while (e.empty() && now() - t0 < 10) { ++n; e = socketEnd([&] { str x; s->receive(x); VH_CHECK(x.empty(), "extra", "data after the end"); }); }
		VH_CHECK(e.compare(0, 7, "socket:") == 0, "end", "end of the connection is not reported by receive(): " + (e.empty() ? "no error in 10 s" : e));
		VH_CHECK(!s->isConnected(), "connected-after-end", "isConnected() after the end of the connection");
		if (self || reset) { str e2; for (int i = 0; i < 50 && e2.empty(); ++i) e2 = socketEnd([&] { s->send("xxxxxxxxxxxxx"); }); VH_CHECK(e2.compare(0, 7, "socket:") == 0, "end-send", "sending after the end: " + e2); }
		s->disconnect(); VH_CHECK(!s->isConnected(), "connected-after-end", "isConnected() after disconnect()"); s->disconnect();
		c.seen("end", self ? "own" : reset ? "reset" : "closed"); c.seen("family", v6 ? "6" : "4");
	}
	VH_EQ(openFds(fds), fds, "descriptors", "open descriptors (" + fdList() + " )");
	c.nontrivial(std::to_string(c.idx));
}
// ------------------------------------------------------------ connecting
static void caseConnect(Ctx& c) {
	Rng& r = c.rng; size_t fds = openFds();
	{
		int kind = (int)r.below(9); auto h = r.coin() ? make_shared<WallTimeout>(20.) : shared_ptr<WallTimeout>(); auto s = make_shared<pp::posixSocket>(h); c.seen("connect", std::to_string(kind) + (h ? "+handler" : "")); c.note("kind " + std::to_string(kind) + (h ? " handler" : ""));
		struct End { ~End() { g_res.cancellable = true; resolverEnd(); } } end;
		g_res = Resolver(); g_res.cancellable = r.coin(); Alarms al(r.chance(1, 3));
		Peer p, q; if (!p.open(false) || !q.open(false, -1, "127.0.0.3")) throw CaseSkip{"no loopback"}; int closed = q.port; 
		switch (kind) {
			case 0: { str e = socketEnd([&] { s->connect("127.0.0.3", (vmime::port_t)closed); }); VH_CHECK(e.find("connection:") == 0, "refused", "connecting to a closed port: " + e); VH_CHECK(e.find("ECONNREFUSED") != str::npos, "refused-reason", "reason for a refused connection: " + e); VH_CHECK(!s->isConnected(), "refused-connected", "connected"); break; }
			case 1: { // several addresses, only the last one answers
				g_res.addrs = {"127.0.0.4", "127.0.0.5"}; if (r.coin()) g_res.addrs.insert(g_res.addrs.begin() + r.below(3), "::1"); g_res.addrs.push_back("127.0.0.1"); if (r.coin()) g_res.addrs.push_back("127.0.0.6"); g_res.delayMs = (int)r.below(30);
				str e = socketEnd([&] { s->connect("host.test", (vmime::port_t)p.port); }); VH_CHECK(e.empty(), "next-address", "the address that answers was not used: " + e); VH_EQ(s->getPeerAddress(), str("127.0.0.1"), "peer-address", "peer"); VH_EQ(s->getPeerName(), str("host.test"), "peer-name", "name of the peer"); break; }
			case 2: { // several addresses, none answers
				g_res.addrs = {"127.0.0.4", "127.0.0.5"}; str e = socketEnd([&] { s->connect("host.test", (vmime::port_t)p.port); }); VH_CHECK(e.find("ECONNREFUSED") != str::npos, "refused-reason", "reason for a refused connection: " + e); break; }
			case 3: { g_res.error = EAI_NONAME; g_res.delayMs = (int)r.below(20); str e = socketEnd([&] { s->connect("host.test", 25); }); VH_CHECK(e.find("connection:") == 0, "unknown-name", "unknown host: " + e); break; }
			case 4: case 5: { // the resolver does not answer in time
				auto h2 = make_shared<WallTimeout>(.08, kind == 5 ? 1 : 0); auto s2 = make_shared<pp::posixSocket>(h2); g_res.addrs = {"127.0.0.1"}; g_res.delayMs = 700; double t0 = now();
				str e = socketEnd([&] { s2->connect("host.test", (vmime::port_t)p.port); }); VH_CHECK(e == "timeout", "resolve-timeout", "slow name resolution: " + e); VH_CHECK(now() - t0 < 5, "resolve-timeout-late", "time-out after " + std::to_string(now() - t0)); VH_EQ(h2->handled, kind == 5 ? 2 : 1, "resolve-timeout-count", "calls of handleTimeOut()");
				VH_CHECK(!s2->isConnected(), "refused-connected", "connected"); s2.reset(); h2.reset(); break; }
			case 6: { // the peer does not answer: its queue is full
				Peer f; if (!f.open(false, 0, "127.0.0.7")) break; std::vector<int> fill; for (int i = 0; i < 6; ++i) { int k = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)f.port); inet_pton(AF_INET, "127.0.0.7", &a.sin_addr); (void)!::connect(k, (struct sockaddr*)&a, sizeof a); fill.push_back(k); } usleep(20000);
				auto h2 = make_shared<WallTimeout>(.5); auto s2 = make_shared<pp::posixSocket>(h2); double t0 = now(); bool more = c.idx % 97 == 3; // (slow: another address is tried after 5 s)
				if (more) { auto h3 = make_shared<WallTimeout>(30.); s2 = make_shared<pp::posixSocket>(h3); g_res.addrs = {"127.0.0.7", "127.0.0.1"}; Peer g; bool ok = false; { g.fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)f.port); inet_pton(AF_INET, "127.0.0.1", &a.sin_addr); ok = !bind(g.fd, (struct sockaddr*)&a, sizeof a) && !::listen(g.fd, 5); }
					if (ok) { str e = socketEnd([&] { s2->connect("host.test", (vmime::port_t)f.port); }); VH_CHECK(e.empty() && now() - t0 < 15, "next-address", "another address was not tried when the first did not respond: " + e + " after " + std::to_string(now() - t0) + " s"); if (e.empty()) VH_EQ(s2->getPeerAddress(), str("127.0.0.1"), "peer-address", "peer"); c.count("second address after no response"); } }
				else { str e = socketEnd([&] { s2->connect("127.0.0.7", (vmime::port_t)f.port); }); VH_CHECK(!e.empty() && now() - t0 < 8, "connect-timeout", "unresponsive peer: " + (e.empty() ? "connected" : e) + " after " + std::to_string(now() - t0) + " s"); VH_CHECK(h2->handled >= 1, "connect-timeout-handler", "the time-out handler was not asked: " + e); VH_CHECK(!s2->isConnected(), "refused-connected", "connected"); c.count("unresponsive peers"); }
				for (int k : fill) __real_close(k); break; }
			case 7: { // a silent peer
				int more = (int)r.below(3); auto h2 = make_shared<WallTimeout>(.06, more); auto s2 = make_shared<pp::posixSocket>(h2); s2->connect("127.0.0.1", (vmime::port_t)p.port); int k = accept4(p.fd, nullptr, nullptr, SOCK_CLOEXEC); double t0 = now(); str e; while (e.empty() && now() - t0 < 10) e = socketEnd([&] { str x; s2->receive(x); });
				VH_CHECK(e == "timeout", "receive-timeout", "silent peer: " + e); VH_EQ(h2->handled, more + 1, "receive-timeout-count", "calls of handleTimeOut()"); __real_close(k); c.count("silent peers"); break; }
			default: { // a peer which does not read
				auto h2 = make_shared<WallTimeout>(.15); auto s2 = make_shared<pp::posixSocket>(h2); s2->connect("127.0.0.1", (vmime::port_t)p.port); int k = accept4(p.fd, nullptr, nullptr, SOCK_CLOEXEC); str big(12000000, 'x'); double t0 = now(); str e = socketEnd([&] { if (r.coin()) s2->send(big); else for (;;) { if (now() - t0 > 10) return; s2->sendRawNonBlocking((const vmime::byte_t*)big.data(), big.size()); } });
				VH_CHECK(e == "timeout", "send-timeout", "peer which does not read: " + e); __real_close(k); c.count("peers which do not read"); break; }
		}
		if (s->isConnected() && r.coin()) { Peer z; if (z.open(false)) { s->connect("127.0.0.1", (vmime::port_t)z.port); VH_CHECK(s->isConnected(), "reconnect", "not connected after connecting again"); } }
	}
	VH_EQ(openFds(fds), fds, "descriptors", "open descriptors (" + fdList() + " )");
	c.nontrivial(std::to_string(c.idx));
}
// ------------------------------------------------------------ files against a model
struct Node { char kind; str data, target; }; // f, d, l
static str fname(Rng& r) {
	if (r.chance(1, 3)) return r.pickc({"a", "b", "c", "d"}); str s; do { s.clear(); for (size_t n = 1 + r.below(r.chance(1, 20) ? 200 : 8); n-- > 0;) { char ch; do ch = r.coin() ? (char)r.range(1, 255) : (char)r.range('a', 'z'); while (ch == '/' || !ch); s += ch; } } while (s == "." || s == ".."); return s;
}
static void caseFiles(Ctx& c) {
	Rng& r = c.rng; size_t fds = openFds(); TempTree t; str root = t.dir + "/f"; mkdir(root.c_str(), 0700); auto fsf = vmime::platform::getHandler()->getFileSystemFactory();
	VH_EQ(fsf->pathToString(fsf->stringToPath(root)), root, "path-string", "path made from a string and back");
	std::map<str, Node> m; m[root] = {'d', "", ""}; std::vector<str> log; str last; auto dump = [&] { str s; for (auto& l : log) s += l + "\n"; c.note(s); };
	auto pick = [&](bool any) { std::vector<str> v; for (auto& x : m) v.push_back(x.first); str d = r.pick(v); if (any && r.coin()) return d; while (m[d].kind != 'd') d = d.substr(0, d.rfind('/')); return d + "/" + fname(r); };
	auto parent = [](const str& p) { return p.substr(0, p.rfind('/')); }; auto hasKids = [&](const str& p) { auto i = m.lower_bound(p + "/"); return i != m.end() && i->first.compare(0, p.size() + 1, p + "/") == 0; };
	auto fileOf = [&](const str& p) { if (r.coin()) return fsf->create(fsf->stringToPath(p)); vmime::utility::file::path x; size_t i = 1; while (i <= p.size()) { size_t j = p.find('/', i); if (j == str::npos) j = p.size(); x /= vmime::utility::file::path::component(p.substr(i, j - i)); i = j + 1; } VH_EQ(fsf->pathToString(x), p, "path-string", "path as a string"); return fsf->create(x); };
	auto attempt = [&](const std::function<void()>& f) { try { f(); return true; } catch (const vmime::exceptions::filesystem_exception& e) { last = e.what(); return false; } };
	size_t ops = 3 + r.below(25);
	for (size_t i = 0; i < ops; ++i) {
		int op = (int)r.below(10); FaultFs::Mode fm = FaultFs::NONE; if (r.chance(1, 4)) fm = r.chance(1, 3) ? FaultFs::FAIL : r.coin() ? FaultFs::INTR : r.coin() ? FaultFs::SHORT : FaultFs::NOSPACE;
		if (op >= 2 && op <= 4 && fm == FaultFs::NOSPACE && r.coin()) fm = FaultFs::NONE;
		str p = pick(op != 0 && op != 1), d; bool ok, fault = fm == FaultFs::FAIL || fm == FaultFs::NOSPACE; g_fs.prefix = root; g_fs.rng = &r; size_t at = fm == FaultFs::SHORT ? 0 : r.below(4); int err = r.pick(std::vector<int>{EIO, EACCES, ENOSPC, EMFILE, ENOMEM});
		auto arm = [&] { if (fm != FaultFs::NONE) g_fs.arm(fm, at, err); }; auto disarm = [&] { g_fs.disarm(); if (fm != FaultFs::NONE && g_fs.fired) c.count("faults"); };
		log.push_back(str(1, (char)('0' + op)) + " " + esc(p.substr(root.size() - 2), 400) + (fm ? " fault " + std::to_string(fm) + " at " + std::to_string(at) : "")); auto f = fileOf(p); bool there = m.count(p); char kind = there ? m[p].kind : 0; if (kind == 'l') fm = FaultFs::NONE;
		auto must = [&](bool did, bool should, const str& key) { if (fault && g_fs.fired) return; if (did != should) { dump(); fail(key, key + (did ? " succeeded" : " failed: " + last) + " for " + esc(p, 500)); } };
		switch (op) {
			case 0: arm(); ok = attempt([&] { f->createFile(); }); disarm(); must(ok, !there && m.count(parent(p)) && m[parent(p)].kind == 'd', "create-file"); if (ok) m[p] = {'f', "", ""}; else if (fault && g_fs.fired && !there) { struct stat s; if (!::__real_lstat(p.c_str(), &s)) __real_unlink(p.c_str()); } break;
			case 1: { bool all = r.coin(); str q = p; if (all && r.coin()) q = p + "/" + fname(r); if (m.count(q) || kind == 'l') break; f = fileOf(q); arm(); ok = attempt([&] { f->createDirectory(all); }); disarm(); must(ok, kind != 'f', "create-directory"); for (str x : {p, q}) { struct stat s; if (!m.count(x) && !::__real_lstat(x.c_str(), &s)) { if (!S_ISDIR(s.st_mode)) fail("create-directory", "not a directory"); m[x] = {'d', "", ""}; } } if (ok) { if (!m.count(q)) fail("create-directory", "directory not created although no error"); } break; }
			case 2: case 3: { if (kind == 'l') break; d = r.bytes(r.chance(1, 4) ? r.size(200000) : r.size(3000)); ok = attempt([&] { auto w = f->getFileWriter(); arm(); auto os = w->getOutputStream(); size_t pos = 0; while (pos < d.size()) { size_t n = std::min(d.size() - pos, 1 + r.size(70000)); os->write((const vmime::byte_t*)d.data() + pos, n); pos += n; } if (r.coin()) os->flush(); }); disarm(); must(ok, kind == 'f', "write");
				if (kind == 'f') { str now = readFile(p); if (ok) { if (now != d) { dump(); fail("written", "file has " + std::to_string(now.size()) + " bytes after writing " + std::to_string(d.size()) + (now.compare(0, d.size(), d) ? ", and others" : "")); } c.count("bytes written", d.size()); } m[p].data = now; } break; }
			case 4: case 5: { if (kind == 'l') break; str x; ok = attempt([&] { auto rd = f->getFileReader(); arm(); auto is = rd->getInputStream(); str want = kind == 'f' ? m[p].data : str(); size_t pos = 0; std::vector<vmime::byte_t> b(80000); auto sk = vmime::dynamicCast<vmime::utility::seekableInputStream>(is); bool part = r.coin(); int steps = 0;
				while (!is->eof() && kind == 'f') { if (++steps > 100000) fail("read-endless", "no end of file"); if (part && r.chance(1, 3)) switch (r.below(sk ? 4 : 2)) { case 0: { size_t n = r.size(want.size() + 10); size_t k = is->skip(n); VH_EQ(k, std::min(n, want.size() - pos), "skip", "skipped bytes (of " + std::to_string(n) + " at " + std::to_string(pos) + " of " + std::to_string(want.size()) + ")"); pos += k; break; } case 1: is->reset(); pos = 0; if (r.coin()) part = false; break; case 2: pos = r.below(want.size() + 1); sk->seek(pos); break; default: VH_EQ(sk->getPosition(), pos, "position", "position"); }
					size_t n = 1 + r.size(b.size() - 1); size_t k = is->read(b.data(), n); VH_CHECK(k <= n && pos + k <= want.size() && !want.compare(pos, k, (char*)b.data(), k), "read", "bytes read differ at " + std::to_string(pos)); if (!k) { VH_CHECK(is->eof(), "read-eof", "nothing read, but no end of file"); VH_EQ(pos, want.size(), "read-short", "end of file"); } pos += k; c.count("bytes read", k); }
				// once the end has been seen, going back makes the rest readable again
				if (sk && kind == 'f' && r.coin()) { pos = r.below(want.size() + 1); sk->seek(pos); str got; while (!is->eof()) { size_t k = is->read(b.data(), 1 + r.size(b.size() - 1)); got.append((char*)b.data(), k); if (got.size() > want.size()) break; } VH_CHECK(got == want.substr(pos), "read-after-seek", "after reading to the end and seeking to " << pos << " of " << want.size() << ", " << got.size() << " bytes are read"); c.count("read again after the end"); } }); disarm(); must(ok, kind == 'f' || kind == 'd', "read"); if (kind == 'd') break; break; }
			case 6: { // rename
				str q = pick(true); if (kind == 'l' || p == root || q == root || q == p || !there) break; if (q.compare(0, p.size() + 1, p + "/") == 0) break; if (p.compare(0, q.size() + 1, q + "/") == 0 || (m.count(q) && m[q].kind != 'f')) break; auto to = fsf->stringToPath(q); arm(); ok = attempt([&] { f->rename(to); }); disarm(); must(ok, !m.count(q) && m.count(parent(q)) && m[parent(q)].kind == 'd', "rename"); log.back() += " to " + esc(q, 200);
				if (!ok && fault && g_fs.fired) { struct stat s; ok = !::__real_lstat(q.c_str(), &s) && ::__real_lstat(p.c_str(), &s); }
				if (ok) { std::map<str, Node> n; for (auto& x : m) n[x.first == p ? q : x.first.compare(0, p.size() + 1, p + "/") == 0 ? q + x.first.substr(p.size()) : x.first] = x.second; m = n; if (!fault) VH_EQ(fsf->pathToString(f->getFullPath()), q, "rename-path", "path after renaming"); } break; }
			case 7: { if (p == root) break; arm(); ok = attempt([&] { f->remove(); }); disarm(); must(ok, there && !(kind == 'd' && hasKids(p)), "remove"); struct stat s; bool gone = ::__real_lstat(p.c_str(), &s); if (ok && !gone) { dump(); fail("removed", "still there after remove(): " + esc(p, 300)); } if (gone) m.erase(p); break; }
			case 8: { if (there) break; str to = r.coin() ? pick(true) : root + "/nowhere"; if (to.size() > 1000 || symlink(to.c_str(), p.c_str())) break; m[p] = {'l', "", to}; break; }
			default: { if (kind == 'l') break; bool ex = false, fi = false, di = false; size_t len = 0; std::set<str> kids, want; arm(); ok = attempt([&] { ex = f->exists(); fi = f->isFile(); di = f->isDirectory(); if (kind == 'f') { len = f->getLength(); VH_CHECK(f->canRead() && f->canWrite(), "access", "own file not accessible"); } if (kind == 'd') { auto it = f->getFiles(); while (it->hasMoreElements()) { auto e = it->nextElement(); str s = fsf->pathToString(e->getFullPath()); VH_CHECK(parent(s) == p, "iterate", "path of element " + esc(s, 300)); VH_CHECK(kids.insert(s).second, "iterate-twice", "twice"); } } }); disarm();
				if (!ok) { must(false, true, "query"); break; } VH_EQ(ex, there, "exists", "exists() of " + esc(p, 300)); VH_EQ(fi, kind == 'f', "is-file", "isFile()"); VH_EQ(di, kind == 'd', "is-directory", "isDirectory()"); if (kind == 'f') VH_EQ(len, m[p].data.size(), "length", "getLength()"); if (kind == 'd') { for (auto& x : m) if (x.first != root && parent(x.first) == p) want.insert(x.first); if (kids != want) { dump(); fail("iterate", "directory lists " + std::to_string(kids.size()) + " of " + std::to_string(want.size())); } c.count("directories listed"); }
				if (p != root && r.coin()) VH_EQ(fsf->pathToString(f->getParent()->getFullPath()), parent(p), "parent", "getParent()"); break; }
		}
		c.seen("operation", std::to_string(op) + "/" + std::to_string(fm) + (fm && g_fs.fired ? "!" : ""));
	}
	dump();
	// the model and the disk agree
	std::set<str> disk; for (auto& e : std::filesystem::recursive_directory_iterator(root)) disk.insert(e.path().string()); for (auto& x : m) if (x.first != root) { VH_CHECK(disk.erase(x.first), "lost-file", "lost: " + esc(x.first, 300)); if (x.second.kind == 'f') VH_CHECK(readFile(x.first) == x.second.data, "changed-file", "changed: " + esc(x.first, 300)); }
	VH_CHECK(disk.empty(), "extra-file", "left behind: " + esc(disk.empty() ? "" : *disk.begin(), 300));
	VH_EQ(openFds(fds), fds, "descriptors", "open descriptors (" + fdList() + " )"); c.nontrivial(std::to_string(c.idx));
}
// ------------------------------------------------------------ helper programs
static void noChildren(const str& what) { double t0 = now(); for (;;) { int st; pid_t k = waitpid(-1, &st, WNOHANG); if (k == -1 && errno == ECHILD) return; if (k > 0) fail("zombie", "a terminated child process was not waited for: " + what); if (now() - t0 > 5) fail("child-left", "a child process is still running: " + what); usleep(2000); } }
static str script(const str& dir, const str& body) { str p = dir + "/helper program"; { std::ofstream o(p); o << "#!/bin/sh\n" << body; } chmod(p.c_str(), 0700); return p; }
static str sq(const str& s) { return "'" + s + "'"; }
static sigset_t sigs() { sigset_t s; pthread_sigmask(SIG_SETMASK, nullptr, &s); return s; }
static str maskText(const sigset_t& s) { str t; for (int i = 1; i < 32; ++i) t += sigismember(&s, i) ? '1' : '0'; return t; }
static str argText(Rng& r) { str s; for (size_t n = r.below(r.chance(1, 10) ? 300 : 10); n-- > 0;) s += r.coin() ? r.pickc({" ", "'", "\"", "-", "--", "$x", "`", ";", "*", "\\", "\n", "\xc3\xa9", "|", "-f"}) : str(1, (char)r.range(1, 255)); return s; }
static void caseChild(Ctx& c) {
	Rng& r = c.rng; size_t fds = openFds(); TempTree t; int kind = (int)r.below(9); bool in = kind == 7 || r.chance(3, 4), out = r.coin(), sig = r.chance(1, 3); str data = r.bytes(r.chance(1, 3) ? r.size(400000) : r.size(5000)); std::vector<str> args; for (size_t n = r.below(6); n-- > 0;) args.push_back(argText(r));
	c.note("kind " + std::to_string(kind) + (in ? " stdin" : "") + (out ? " stdout" : "") + " " + std::to_string(data.size()) + " bytes"); c.seen("child", std::to_string(kind) + (in ? "i" : "") + (out ? "o" : ""));
	str argf = t.dir + "/args", inf = t.dir + "/in", body = "cd " + sq(t.dir) + "\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done > args\n"; str outData = r.bytes(out ? r.size(3000) : 0); if (kind == 0 && r.coin()) outData = r.bytes(200000); writeFile(t.dir + "/outdata", outData);
	if (kind == 7) body += "exec cat > in.tmp\n"; else if (in && kind != 3) body += "cat > in.tmp; mv in.tmp in\n";
	if (out) body += "cat outdata\n"; int status = 1 + (int)r.below(254);
	if (kind == 1) body += "exit " + std::to_string(status) + "\n"; if (kind == 2) body += "kill -" + str(r.pickc({"TERM", "KILL", "SEGV", "HUP"})) + " $$; sleep 1\n";
	if (kind == 5) body += "grep -i '^SigBlk' /proc/self/status > mask; ls /proc/self/fd > fds\n";
	str path = script(t.dir, body); if (kind == 4) { if (r.coin()) chmod(path.c_str(), 0600), path = r.coin() ? path : t.dir + "/none"; else path = t.dir + "/none"; struct stat s; if (!::__real_stat(path.c_str(), &s) && !geteuid()) chmod(path.c_str(), 0600); }
	sigset_t before = sigs(); str e; bool waited = false, wrote = false; str gotOut;
	{
		Alarms al(sig); auto proc = pp::posixChildProcessFactory().create(vmime::platform::getHandler()->getFileSystemFactory()->stringToPath(path));
		try {
			proc->start(args, (in ? vmime::utility::childProcess::FLAG_REDIRECT_STDIN : 0) | (out ? vmime::utility::childProcess::FLAG_REDIRECT_STDOUT : 0));
			VH_EQ(!!proc->getStdIn(), in, "child-stdin", "standard input stream given"); VH_EQ(!!proc->getStdOut(), out, "child-stdout", "standard output stream given");
			if (in) { if (kind == 6) { usleep(1000 * (useconds_t)r.below(10)); } size_t pos = 0; str d = kind == 7 ? data.substr(0, data.size() / 2) : data; while (pos < d.size()) { size_t n = std::min(d.size() - pos, 1 + r.size(100000)); proc->getStdIn()->write((const vmime::byte_t*)d.data() + pos, n); pos += n; } proc->getStdIn()->flush(); wrote = true; }
			if (kind == 7 && in) throw vmime::exceptions::system_error("application error");
			if (out && (!in || kind != 0)) { std::vector<vmime::byte_t> b(5000); if (in) { /* the program reads all of its input first: let it see the end */ } else { double t0 = now(); while (!proc->getStdOut()->eof()) { if (now() - t0 > 20) fail("child-output", "no end of output"); size_t k = proc->getStdOut()->read(b.data(), 1 + r.below(b.size())); gotOut.append((char*)b.data(), k); } } }
			else if (out && in && outData.size() > 60000) throw CaseSkip{"would block by design"};
			proc->waitForFinish(); waited = true;
			if (out && in) { std::vector<vmime::byte_t> b(5000); double t0 = now(); while (!proc->getStdOut()->eof()) { if (now() - t0 > 20) fail("child-output", "no end of output"); size_t k = proc->getStdOut()->read(b.data(), 1 + r.below(b.size())); gotOut.append((char*)b.data(), k); } }
		} catch (const vmime::exceptions::system_error& x) { e = str("system_error ") + x.what(); }
	}
	noChildren("kind " + std::to_string(kind));
	sigset_t after = sigs(); VH_EQ(maskText(after), maskText(before), "child-mask", "signal mask of the application afterwards");
	VH_EQ(openFds(fds), fds, "descriptors", "open descriptors (" + fdList() + " )");
	if (kind == 7 && in) { struct stat s; VH_CHECK(::__real_stat(inf.c_str(), &s) != 0, "child-truncated", "truncated input was taken as complete"); c.count("abandoned programs"); c.nontrivial(std::to_string(c.idx)); return; }
	bool bad = kind == 1 || kind == 2 || kind == 4; if (kind == 3 && in && data.size() > 70000) bad = !wrote;
	VH_CHECK((!e.empty() || !waited) == bad || (kind == 3 && in), bad ? "child-no-error" : "child-error", bad ? "failure of the program is not reported" : "error: " + e);
	if (kind == 1 && status != 255) VH_CHECK(e.find("status " + std::to_string(status)) != str::npos, "child-status", "status " + std::to_string(status) + ": " + e);
	if (kind == 2) VH_CHECK(e.find("signal SIG") != str::npos, "child-signal", "terminated by a signal: " + e);
	if (kind == 4) { c.count("programs that cannot be run"); return; }
	str want; for (auto& a : args) want += a + str(1, '\0'); VH_EQ(readFile(argf), want, "child-arguments", "arguments");
	if (in && kind != 3) VH_CHECK(readFile(inf) == data, "child-input", "the program received " + std::to_string(readFile(inf).size()) + " of " + std::to_string(data.size()) + " bytes");
	if (out && e.empty()) VH_CHECK(gotOut == outData, "child-output", "received " + std::to_string(gotOut.size()) + " of " + std::to_string(outData.size()) + " bytes of output");
	if (kind == 5) { str k = readFile(t.dir + "/mask"); size_t q = k.find_first_of("0123456789abcdef", 7); unsigned long long v = strtoull(k.c_str() + q, 0, 16), own = 0; for (int i = 1; i < 32; ++i) if (sigismember(&before, i)) own |= 1ull << (i - 1); VH_EQ((size_t)(v & 0x7fffffff), (size_t)own, "child-inherits-mask", "signals blocked in the program"); }
	c.count("programs run"); c.count("bytes given", in ? data.size() : 0); c.nontrivial(std::to_string(c.idx));
}
// ------------------------------------------------------------ messages given to a local delivery program
static void caseSendmail(Ctx& c) {
	Rng& r = c.rng; size_t fds = openFds(); TempTree t; int kind = (int)r.below(6); str msg = "A: b\r\n"; size_t lines = r.chance(1, 4) ? r.below(5000) : r.below(60); for (size_t n = lines; n-- > 0;) msg += (r.chance(1, 12) ? r.pickc({".", "..", "From x", "\r", "-- "}) : r.bytes(r.below(80))) + r.pickc({"\r\n", "\r\n", "\r\n", "\n"}); if (r.chance(1, 4)) msg += r.pickc({"\r", "x", "\r\n\r"});
	str body = "cd " + sq(t.dir) + "\nfor a in \"$@\"; do printf '%s\\0' \"$a\"; done > args\n"; int status = 1 + (int)r.below(254); if (kind == 1) body += "exit " + std::to_string(status) + "\n"; body += "cat > in.tmp; mv in.tmp in\n"; if (kind == 2) body += "exit " + std::to_string(status) + "\n"; str path = script(t.dir, body); if (kind == 3) path = t.dir + "/none";
	c.note("kind " + std::to_string(kind) + " " + esc(msg, 1500)); c.seen("sendmail", std::to_string(kind));
	auto addr = [&] { vmime::mailbox m(vmime::emailAddress(r.chance(1, 5) ? "-" + r.from("abc-", 3) : r.from("abcdefgh.-_+'*$!#%&/?^`{|}~", 1 + r.below(12)) + "z", genHost(r))); if (r.coin()) m.setName(apiText(r)); return m; };
	auto plain = [&](const vmime::mailbox& m) { return m.getEmail().getLocalName().getBuffer() + "@" + m.getEmail().getDomainName().getBuffer(); };
	vmime::mailbox from = addr(), sender; bool snd = r.chance(1, 3); if (snd) sender = addr(); vmime::mailboxList to; std::vector<str> want{"-i", "-f", plain(snd ? sender : from), "--"}; for (size_t n = 1 + r.below(r.chance(1, 8) ? 200 : 5); n-- > 0;) { auto m = addr(); want.push_back(plain(m)); to.appendMailbox(make_shared<vmime::mailbox>(m)); }
	auto ss = vn::session::create(); ss->getProperties()["transport.sendmail.binpath"] = path; auto tr = ss->getTransport("sendmail"); VH_CHECK(!tr->isConnected(), "sendmail-connected", "connected"); if (r.chance(1, 6)) { str none = msg; vmime::utility::inputStreamStringAdapter is(none); bool threw = false; try { tr->send(from, to, is, msg.size()); } catch (const vmime::exceptions::not_connected&) { threw = true; } catch (const vmime::exception&) {} VH_CHECK(threw, "sendmail-not-connected", "sent without a connection"); struct stat s; VH_CHECK(::__real_stat((t.dir + "/args").c_str(), &s) != 0, "sendmail-not-connected", "program run without a connection"); }
	tr->connect(); sigset_t before = sigs(); bool ok = false; str what;
	{ Alarms al(r.chance(1, 4)); try {
		if (kind == 4) { struct Bad : ChunkIn { using ChunkIn::ChunkIn; size_t left = 0; size_t read(vmime::byte_t* d, const size_t n) { if (left < n && left < 1) throw vmime::exceptions::system_error("application stream failed"); size_t k = ChunkIn::read(d, std::min(n, left)); left -= k; return k; } }; Chunking ch; Bad is(msg, ch); is.left = msg.empty() ? 0 : r.below(msg.size()); tr->send(from, to, is, msg.size(), nullptr, sender); }
		else { Chunking ch = Chunking::random(r); ChunkIn is(msg, ch); tr->send(from, to, is, msg.size(), nullptr, sender); }
		ok = true; } catch (const vmime::exceptions::command_error& e) { what = e.what(); } }
	noChildren("sendmail " + std::to_string(kind)); VH_EQ(maskText(sigs()), maskText(before), "child-mask", "signal mask of the application afterwards"); VH_EQ(openFds(fds), fds, "descriptors", "open descriptors (" + fdList() + " )");
	str got; struct stat s; bool have = !::__real_stat((t.dir + "/in").c_str(), &s); if (have) got = readFile(t.dir + "/in");
	VH_EQ(ok, kind == 0 || kind == 5, ok ? "sendmail-no-error" : "sendmail-error", "success reported (kind " + std::to_string(kind) + ") " + what);
	if (kind == 4) VH_CHECK(!have, "sendmail-partial", "part of a message was delivered although the send failed");
	if (kind != 3 && kind != 4) { str w, g = readFile(t.dir + "/args"); for (auto& a : want) w += a + str(1, '\0'); VH_EQ(g, w, "sendmail-arguments", "arguments"); }
	if (ok) { str exp; for (size_t i = 0; i < msg.size(); ++i) if (!(msg[i] == '\r' && i + 1 < msg.size() && msg[i + 1] == '\n')) exp += msg[i]; VH_CHECK(have && got == exp, "sendmail-data", "the program received " + esc(got, 600) + " instead of " + esc(exp, 600)); c.count("messages delivered"); c.count("bytes delivered", got.size()); }
	tr->disconnect(); VH_CHECK(!tr->isConnected(), "sendmail-connected", "connected after disconnect()"); c.nontrivial(std::to_string(c.idx));
}
void vh::setup() {
	signal(SIGPIPE, SIG_DFL); // (an application need not handle it)
	for (int s : {SIGHUP, SIGTERM, SIGCHLD}) signal(s, SIG_DFL); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr); // what is ignored or blocked (nohup) would be inherited by the helper programs
	setRule("Sockets are connected to peers on the loopback interface (slow, silent, not reading, resetting, full queue), with names resolved under control of the harness; files are compared with a model after random operations with failing, interrupted and short system calls; helper programs record their arguments and input. A case counts when all of its data was compared; open descriptors, child processes and signal masks are compared before and after.");
	addAssumption("loopback TCP/IPv4 is available; IPv6 is used where available");
	addSuite("stream", 300, 6000, caseStream, 120);
	addSuite("connect", 300, 4000, caseConnect, 120);
	addSuite("files", 3000, 60000, caseFiles, 60);
	addSuite("child", 500, 6000, caseChild, 60);
	addSuite("sendmail", 500, 6000, caseSendmail, 60);
}
