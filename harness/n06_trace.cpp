// N06: what the tracer saw of login sessions is scanned for the secrets and compared with the commands the server received.
#include "vauth.hpp"
using namespace vh;
static std::vector<str> formsOf(const str& s) { // the text itself and the three alignments of base64
	std::vector<str> f = {s}; for (size_t k = 0; k < 3; ++k) { str e = b64of(str(k, 'x') + s); size_t from = (k * 8 + 5) / 6, whole = (k + s.size()) * 8 / 6; str x = e.substr(from, whole - from); if (x.size() >= 8) f.push_back(x); } return f;
}
static void session(Ctx& c) {
	Rng& r = c.rng; LoginRun R(r.next()); R.run(r); c.note(R.desc); c.note(R.connected ? "connected" : R.exc);
	size_t lines = 0;
	std::vector<str> bad = formsOf(R.p); for (auto& x : formsOf(R.t)) bad.push_back(x); for (auto& l : R.A.secretLines) if (l.size() >= 8) bad.push_back(l);
	VH_EQ(R.tracer->per.size(), R.logs.size(), "trace", R.desc + ": connections traced"); size_t ti = 0;
	for (auto log : R.logs) {
	auto& T = R.tracer->per[ti++]; lines += T.size();
	for (auto& l : T) for (auto& b : bad) VH_CHECK(l.find(b) == str::npos, "secret", R.desc << ": the trace contains " << (b == R.p ? "the password" : b == R.t ? "the access token" : "base64 of it or of the exchange") << ": " << q(l));
	std::vector<str> sent; for (auto& l : T) if (!l.compare(0, 2, "> ")) { str x = l.substr(2); size_t a = 0; for (;;) { size_t e = x.find("\r\n", a); str y = x.substr(a, e == str::npos ? e : e - a); if (e == str::npos && y.empty() && a) break; sent.push_back(y); if (e == str::npos) break; a = e + 2; } }
	size_t i = 0, bytes = 0; bool data = false; auto take = [&](const str& what) -> str { VH_CHECK(i < sent.size(), "missing", R.desc << ": not traced: " << what); return sent[i++]; };
	for (auto& l : T) if (l[0] == 'S') ++bytes;
	size_t nb = 0;
	for (auto& e : *log) {
		const str& l = e.second; if (data) { data = false; VH_EQ(take("end of data"), str("."), "trace", R.desc); }
		if (e.first == 'a') { if (l == "*") VH_EQ(take("*"), l, "trace", R.desc); else ++nb; continue; }
		str body = l, tag; if (R.proto == "imap") { size_t p = l.find(' '); tag = l.substr(0, p + 1); body = l.substr(p + 1); }
		str v = body.substr(0, body.find(' ')); c.seen("commands", R.proto + " " + v); str got = take(q(l)); c.count("commands compared");
		if (v == "PASS" || v == "LOGIN" || v == "USER" || v == "APOP") VH_CHECK(!got.compare(0, tag.size() + v.size(), tag + v), "trace", R.desc << ": command " << v << " traced as " << q(got));
		else if (v == "AUTH" || v == "AUTHENTICATE") { size_t p = body.find(' ', v.size() + 1); str want = tag + body.substr(0, p); VH_CHECK(!got.compare(0, want.size(), want), "trace", R.desc << ": command " << q(want) << " traced as " << q(got)); c.count(p == str::npos ? "AUTH commands" : "AUTH commands with an initial response"); }
		else VH_EQ(got, l, "trace", R.desc + ": trace of a command");
		if (v == "DATA" && R.proto == "smtp") data = true;
	}
	if (data) take("end of data"); VH_EQ(i, sent.size(), "trace", R.desc + ": lines traced as sent"); VH_CHECK(bytes >= nb, "missing", R.desc << ": " << nb << " lines of the exchange, " << bytes << " traced");
	}
	for (auto& m : R.A.mechsTried) c.seen("mechanism", R.proto + " " + m); c.count("secret strings looked for", bad.size()); c.count("trace lines scanned", lines); c.count(R.connected ? "logged in" : "not logged in"); c.seen("scenario", R.desc.substr(0, 60)); c.nontrivial(R.desc);
}
void vh::setup() {
	setRule("Random SMTP, POP3 and IMAP sessions (offered mechanisms, fallbacks, refusals, right and wrong credentials, three kinds of authenticators) run with a recording tracer; no line may contain the password, the access token, base64 of them at any alignment, or any line of the client's part of the "
		"authentication exchange; every other command the server received must be traced exactly, in order.");
	addSuite("session", 6000, 150000, session);
	addAssumption("challenges of the server and the MD5 digest of APOP may be traced");
}
