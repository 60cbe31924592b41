// An in-process network: a socket whose other end is a server object in the same thread.
// Server output reaches the client in pieces of arbitrary size; what the client waits for
// although the server has nothing to say is reported (a real client would hang).
#ifndef VNET_HPP
#define VNET_HPP
#include "vapi.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/timeoutHandler.hpp"
#include "vmime/net/tracer.hpp"
#include "vmime/security/defaultAuthenticator.hpp"

namespace vh {
namespace vn = vmime::net;

struct Hang { str what; };   // the client waits for a server that has nothing to send

class Net;
class Server {
public:
	virtual ~Server() {}
	virtual void connected() {}
	virtual void received() = 0;           // new bytes in `in`
	virtual void released() {}              // the client closed its end
	str in, out;
	bool closed = false;                    // server closed its end
	size_t outPos = 0;
	bool pending() const { return outPos < out.size(); }
	void say(const str& s) { if (outPos && outPos == out.size()) { out.clear(); outPos = 0; } out += s; }
	Net* net = nullptr;
	str log;                                // everything the client sent
	str host; unsigned port = 0;
};

// where the connection breaks
struct Fault {
	long cutAfterDelivered = -1;   // close after this many bytes were delivered to the client
	long cutAfterSent = -1;        // close after this many bytes were accepted from the client
	long garbageAfter = -1;        // deliver `garbage` after this many bytes
	int onlyConn = -1;             // the other connections are not affected
	bool silent = false;           // the server does not close, it just stops talking
	str garbage; bool closeAfterGarbage = false;
	long stallAfter = -1; unsigned long stallTicks = 0;  // nothing for a while, then the rest
};

class Net {
public:
	explicit Net(uint64_t seed = 1) : rng(seed) {}
	std::function<std::shared_ptr<Server>()> make;
	std::vector<std::shared_ptr<Server>> conns;
	Rng rng; Chunking ch; Fault fault;
	long delivered = 0, accepted = 0, turnAt = -1; std::vector<long> turns; // bytes received when the client had sent something and the reply began
	bool hung = false, faulted = false; unsigned idle = 0, idleLimit = 60, receives = 0;
	unsigned long clock = 0; bool useTimeout = false; unsigned timeouts = 0;
	unsigned live = 0;             // sockets connected
	bool refuseConnect = false;
	bool softHang = false;         // report a hang by a socket exception (the caller may be C code)
	unsigned writeBlock = 0;       // percentage of non-blocking writes that would block
	[[noreturn]] void hang(const char* w) { hung = true; if (softHang) throw vmime::exceptions::socket_exception(str("HANG: ") + w); throw Hang{w}; }
	unsigned maxIdleAfterFault = 0; unsigned allowTimeouts = 0; std::vector<unsigned long> handledAt; bool garbled = false;
	Server& last() { return *conns.back(); }
};

class VSocket : public vn::socket {
public:
	VSocket(Net& n, const shared_ptr<vn::timeoutHandler>& th) : net(n), th(th) {}
	~VSocket() { release(); }
	void connect(const str& address, const vmime::port_t port) {
		if (net.refuseConnect) throw vmime::exceptions::connection_error("refused");
		release();
		srv = net.make(); srv->net = &net; srv->host = address; srv->port = port; net.conns.push_back(srv); up = true; mine = (int)net.conns.size() - 1; ++net.live; srv->connected();
	}
	void disconnect() { release(); }
	bool isConnected() const { return up && srv && !(dead() && !avail()); }
	bool waitForRead(const int = 30000) { if (!up || !srv) return false; if (avail() || dead()) return true; tick(); return false; }
	bool waitForWrite(const int = 30000) { return true; }
	void receive(str& b) { b.clear(); vmime::byte_t buf[32768]; size_t n = receiveRaw(buf, sizeof buf); b.assign((const char*)buf, n); }
	size_t receiveRaw(vmime::byte_t* b, const size_t count) {
		if (!up || !srv) throw vmime::exceptions::socket_exception("EBADF: invalid descriptor");
		++net.receives; status = 0;
		if (net.receives > 2000000) net.hang("endless reading");
		if (!avail()) {
			if (dead()) { net.maxIdleAfterFault++; if (net.maxIdleAfterFault > 200) net.hang("keeps reading a closed connection"); throw vmime::exceptions::socket_exception("ENOTCONN: not connected"); }
			tick(); status = STATUS_WOULDBLOCK; return 0;
		}
		net.idle = 0;
		if (th) th->resetTimeOut();
		if (count == 0) return 0;
		const Fault& f = F();
		size_t n = std::min(net.ch.next(net.rng, count), count);
		if (f.garbageAfter >= 0 && !net.garbled && net.delivered >= f.garbageAfter && gpos < f.garbage.size()) {
			net.faulted = true; n = std::min(n, f.garbage.size() - gpos); memcpy(b, f.garbage.data() + gpos, n); gpos += n; net.garbled = gpos == f.garbage.size(); return n;
		}
		size_t lim = srv->out.size() - srv->outPos;
		if (f.garbageAfter >= 0 && !net.garbled && gpos < f.garbage.size()) lim = std::min<size_t>(lim, f.garbageAfter - net.delivered);
		if (f.cutAfterDelivered >= 0) lim = std::min<size_t>(lim, std::max(0L, f.cutAfterDelivered - net.delivered));
		if (stalling() || (f.stallAfter > net.delivered && f.stallTicks)) lim = std::min<size_t>(lim, std::max(0L, f.stallAfter - net.delivered));
		n = std::min(n, lim);
		if (net.turnAt != net.accepted) { net.turnAt = net.accepted; net.turns.push_back(net.delivered); }
		memcpy(b, srv->out.data() + srv->outPos, n); srv->outPos += n; net.delivered += n;
		if (srv->outPos == srv->out.size()) { srv->out.clear(); srv->outPos = 0; }
		return n;
	}
	void send(const str& s) { sendRaw((const vmime::byte_t*)s.data(), s.size()); }
	void send(const char* s) { sendRaw((const vmime::byte_t*)s, strlen(s)); }
	void sendRaw(const vmime::byte_t* b, const size_t count) {
		if (!up || !srv) throw vmime::exceptions::socket_exception("EBADF: invalid descriptor");
		if (dead()) throw vmime::exceptions::socket_exception("EPIPE: broken pipe");
		size_t n = count; const Fault& f = F();
		if (f.cutAfterSent >= 0) n = std::min<size_t>(n, std::max(0L, f.cutAfterSent - net.accepted));
		if (net.accepted > 80000000) net.hang("endless sending");
		net.accepted += n; net.idle = 0; ++sends;
		if (n) { str s((const char*)b, n); srv->log += s; srv->in += s; if (!srv->closed) srv->received(); }
		if (n < count && dead()) throw vmime::exceptions::socket_exception("EPIPE: broken pipe");
	}
	size_t sendRawNonBlocking(const vmime::byte_t* b, const size_t count) { status = 0; if (net.writeBlock && net.rng.below(100) < net.writeBlock) { if (++blocked > 5000000) net.hang("endless sending"); status = STATUS_WOULDBLOCK; return 0; } size_t n = count ? net.ch.next(net.rng, count) : 0; sendRaw(b, n); return n; }
	size_t getBlockSize() const { return 16384; }
	unsigned getStatus() const { return status; }
	const str getPeerName() const { return srv ? srv->host : str(); }
	const str getPeerAddress() const { return "127.0.0.1"; }
	shared_ptr<vn::timeoutHandler> getTimeoutHandler() { return th; }
	void setTracer(const shared_ptr<vn::tracer>& t) { tr = t; }
	shared_ptr<vn::tracer> getTracer() { return tr; }
	std::shared_ptr<Server> srv;
private:
	bool avail() const {
		const Fault& f = F();
		if (f.garbageAfter >= 0 && !net.garbled && gpos < f.garbage.size() && net.delivered >= f.garbageAfter) return true;
		if (net.garbled && f.closeAfterGarbage) return false;
		if (stalling()) return false;
		if (f.cutAfterDelivered >= 0 && net.delivered >= f.cutAfterDelivered) { if (!net.faulted) net.faulted = true; return false; }
		if (f.cutAfterSent >= 0 && net.accepted >= f.cutAfterSent) net.faulted = true;
		return srv->pending();
	}
	bool dead() const {
		const Fault& f = F();
		if (srv->closed && !stalling()) return true;
		if (f.closeAfterGarbage && net.garbled) return true;
		if (f.silent) return false;
		if (f.cutAfterDelivered >= 0 && net.delivered >= f.cutAfterDelivered) { net.faulted = true; return true; }
		if (f.cutAfterSent >= 0 && net.accepted >= f.cutAfterSent) { net.faulted = true; return true; }
		return false;
	}
	void tick() {
		++net.idle; ++net.clock; if (stalling()) { --net.fault.stallTicks; net.faulted = true; }
		if (net.idle > net.idleLimit) net.hang(net.useTimeout ? "keeps waiting after the time-out" : "waits for a server that has nothing to say");
	}
	const Fault& F() const { static const Fault none; return net.fault.onlyConn >= 0 && net.fault.onlyConn != mine ? none : net.fault; }
	bool stalling() const { return F().stallAfter >= 0 && F().stallTicks && net.delivered >= F().stallAfter; }
	void release() { if (srv) { up = false; --net.live; srv->released(); srv.reset(); } }
	Net& net; shared_ptr<vn::timeoutHandler> th; shared_ptr<vn::tracer> tr; bool up = false; unsigned status = 0; size_t gpos = 0, sends = 0, blocked = 0; int mine = 0;
};
class VSocketFactory : public vn::socketFactory {
public:
	explicit VSocketFactory(Net& n) : net(n) {}
	shared_ptr<vn::socket> create() { return make_shared<VSocket>(net, shared_ptr<vn::timeoutHandler>()); }
	shared_ptr<vn::socket> create(const shared_ptr<vn::timeoutHandler>& th) { return make_shared<VSocket>(net, th); }
	Net& net;
};
// time passes only while nothing happens
class VTimeout : public vn::timeoutHandler {
public:
	VTimeout(Net& n, unsigned long d) : net(n), delay(d) { start = net.clock; }
	bool isTimeOut() { return net.clock - start >= delay; }
	void resetTimeOut() { start = net.clock; }
	bool handleTimeOut() { ++net.timeouts; net.handledAt.push_back(net.clock); return net.timeouts <= net.allowTimeouts; }
	Net& net; unsigned long delay, start;
};
class VTimeoutFactory : public vn::timeoutHandlerFactory {
public:
	VTimeoutFactory(Net& n, unsigned long d = 20) : net(n), delay(d) {}
	shared_ptr<vn::timeoutHandler> create() { return make_shared<VTimeout>(net, delay); }
	Net& net; unsigned long delay;
};
class VTracer : public vn::tracer {
public:
	explicit VTracer(std::vector<str>& l) : lines(l) {}
	void traceReceiveBytes(const vmime::size_t count, const str& state) { lines.push_back("R" + std::to_string(count) + " " + state); }
	void traceSendBytes(const vmime::size_t count, const str& state) { lines.push_back("S" + std::to_string(count) + " " + state); }
	void traceReceive(const str& line) { lines.push_back("< " + line); }
	void traceSend(const str& line) { lines.push_back("> " + line); }
	std::vector<str>& lines;
};
class VTracerFactory : public vn::tracerFactory {
public:
	std::vector<str> lines;
	shared_ptr<vn::tracer> create(const shared_ptr<vn::service>&, const int) { return make_shared<VTracer>(lines); }
};
// a server that reads lines ending in CRLF; bare CR or LF in a line is noted
class LineServer : public Server {
public:
	void received() {
		while (!closed) {
			if (!wantRaw()) {
				size_t p = in.find("\r\n");
				if (p == str::npos) { if (in.size() > 3000000) bad("line without end"); return; }
				str l = in.substr(0, p); in.erase(0, p + 2);
				if (l.find('\r') != str::npos || l.find('\n') != str::npos || l.find('\0') != str::npos) bad("bare CR, LF or NUL in command " + q(l));
				line(l);
			} else { if (in.empty() || !raw()) return; }
		}
	}
	virtual bool wantRaw() { return false; }
	virtual bool raw() { return false; }   // consumes from `in`; false: needs more
	virtual void line(const str& l) = 0;
	void bad(const str& m) { if (badMsg.empty()) badMsg = m; }
	str badMsg;                            // first violation of the protocol by the client
};

inline str b64dec(const str& s) {
	str o; unsigned v = 0; int bits = 0;
	for (char ch : s) {
		int d = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1;
		if (d < 0) continue;
		v = v << 6 | d; bits += 6; if (bits >= 8) { bits -= 8; o += (char)(v >> bits & 255); }
	}
	return o;
}
inline Chunking netChunking(Rng& r) { Chunking c = Chunking::random(r); if (r.chance(1, 4)) c.mode = 0; return c; }
inline str excName(const std::exception& e) { const vmime::exception* v = dynamic_cast<const vmime::exception*>(&e); return v ? str(v->name()) + ": " + v->what() : str("std: ") + e.what(); }

} // namespace vh
#endif
