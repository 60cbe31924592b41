// N12: logging in succeeds exactly when the server accepts the credentials by a mechanism both sides support.
#include "vauth.hpp"
using namespace vh;
static void session(Ctx& c) {
	Rng& r = c.rng; LoginRun R(r.next()); R.run(r); c.note(R.desc); c.note(R.connected ? "connected" : R.exc);
	VH_CHECK(R.serverBad.empty(), "protocol", R.desc << ": " << R.serverBad);
	if (R.expect) VH_CHECK(R.connected, "refused", R.desc << ": should log in: " << R.exc); else VH_CHECK(!R.connected, "accepted", R.desc << ": connected although no login was accepted");
	VH_CHECK(R.worked, "session", R.desc << ": " << R.workExc);
	if (!R.mayClear) VH_EQ(R.A.clear, 0u, "clear", R.desc + ": password sent in clear text");
	for (auto& m : R.A.mechsTried) { bool off = false; for (auto& x : R.A.mechs) off |= x == m; VH_CHECK(off, "offer", R.desc << ": mechanism " << m << " tried, not offered"); c.seen("mechanism", R.proto + " " + m); }
	for (auto& m : R.A.accepted) c.seen("accepted", R.proto + " " + m); c.count(R.connected ? "logged in" : "not logged in"); if (R.connected && R.A.accepted.empty()) c.count("logged in without SASL"); c.nontrivial(R.desc); if (R.A.mechsTried.size() > 1) c.count("several mechanisms tried");
}
// replies to the login command that make no sense: connect() fails or goes on, but the session is only up after a login was accepted, and the password is not sent in clear text unless that is allowed
static void odd(Ctx& c) {
	Rng& r = c.rng; LoginRun R(r.next()); R.odd = true; R.run(r); c.note(R.desc + " reply " + q(R.A.oddReply)); c.note(R.connected ? "connected" : R.exc); bool tried = false; for (auto& m : R.A.mechsTried) tried |= R.A.policy[m] == 3;
	if (!R.mayClear) VH_EQ(R.A.clear, 0u, "clear", R.desc + ": password sent in clear text");
	if (R.connected) VH_CHECK(!R.A.accepted.empty() || !R.needAuth || R.A.clear || R.proto == "pop3", "accepted", R.desc << ": connected although no login was accepted");
	if (tried) c.count("senseless replies"); c.seen("senseless reply", R.proto + " " + R.A.oddReply); c.nontrivial(R.desc + R.A.oddReply);
}
void vh::setup() {
	setRule("Random SMTP, POP3 and IMAP sessions against servers that speak SASL with the server side of GNU SASL (PLAIN, LOGIN, CRAM-MD5, DIGEST-MD5, SCRAM) and XOAUTH2, APOP and clear logins: connect() succeeds if and only if the settings, the offered mechanisms, the refusals and the credentials allow one login to be accepted; "
		"the session then works; clear-text logins are not used when fallbacks are off; only offered mechanisms are tried.");
	addSuite("session", 6000, 150000, session);
	addSuite("odd", 3000, 60000, odd);
}
