// TLS: certificates made on the spot, and a layer that puts TLS in front of an in-process server.
#pragma once
#include "vauth.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <gnutls/crypto.h>
#include <vmime/security/cert/defaultCertificateVerifier.hpp>
#include <vmime/security/cert/X509Certificate.hpp>
#include <vmime/net/tls/TLSSecuredConnectionInfos.hpp>
#include <ctime>
namespace vh {
struct TKey { gnutls_x509_privkey_t k; TKey() { gnutls_x509_privkey_init(&k); if (gnutls_x509_privkey_generate(k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0) < 0) abort(); } };
inline TKey& tkey(size_t i) { static std::vector<std::unique_ptr<TKey>> v; while (v.size() <= i) v.emplace_back(new TKey); return *v[i]; }   // 0.. a few, shared by all cases
struct San { int type; str v; };   // GNUTLS_SAN_DNSNAME, GNUTLS_SAN_IPADDRESS (raw bytes)
struct CertSpec { str cn, org = "Verif"; std::vector<San> sans; bool ca = false, ski = false; int version = 3; long from = -86400, to = 86400; size_t key = 0; str serial = str("\x01", 1); };
struct TCert {
	gnutls_x509_crt_t c = nullptr; CertSpec s; TCert() {} TCert(const TCert&) = delete; TCert& operator=(const TCert&) = delete; ~TCert() { if (c) gnutls_x509_crt_deinit(c); }
	str der(bool pem = false) const { size_t n = 0; auto f = pem ? GNUTLS_X509_FMT_PEM : GNUTLS_X509_FMT_DER; gnutls_x509_crt_export(c, f, nullptr, &n); str o(n, 0); gnutls_x509_crt_export(c, f, &o[0], &n); o.resize(n); return o; }
	shared_ptr<vmime::security::cert::X509Certificate> x() const { str d = der(); return vmime::security::cert::X509Certificate::import((const vmime::byte_t*)d.data(), d.size()); }
};
typedef std::shared_ptr<TCert> CertP;
// signed with the key `signer` in the name of `issuer` (null: itself)
inline CertP mkCert(const CertSpec& s, const CertP& issuer, size_t signer) {
	auto t = std::make_shared<TCert>(); t->s = s; gnutls_x509_crt_init(&t->c); auto c = t->c; gnutls_x509_crt_set_version(c, s.version); gnutls_x509_crt_set_serial(c, s.serial.data(), s.serial.size()); time_t now = time(nullptr); gnutls_x509_crt_set_activation_time(c, now + s.from); gnutls_x509_crt_set_expiration_time(c, now + s.to);
	gnutls_x509_crt_set_dn_by_oid(c, GNUTLS_OID_X520_ORGANIZATION_NAME, 0, s.org.data(), (unsigned)s.org.size()); if (!s.cn.empty()) gnutls_x509_crt_set_dn_by_oid(c, GNUTLS_OID_X520_COMMON_NAME, 0, s.cn.data(), (unsigned)s.cn.size());
	gnutls_x509_crt_set_key(c, tkey(s.key).k);
	if (s.version == 3) {
		gnutls_x509_crt_set_basic_constraints(c, s.ca, -1); if (s.ca) gnutls_x509_crt_set_key_usage(c, GNUTLS_KEY_KEY_CERT_SIGN | GNUTLS_KEY_CRL_SIGN);
		if (!s.sans.empty()) { auto tlv = [](unsigned char t, const str& v) { str o(1, (char)t); if (v.size() < 128) o += (char)v.size(); else { o += '\x82'; o += (char)(v.size() >> 8); o += (char)v.size(); } return o + v; }; str l; for (auto& n : s.sans) l += tlv(n.type == GNUTLS_SAN_DNSNAME ? 0x82 : n.type == GNUTLS_SAN_IPADDRESS ? 0x87 : 0x81, n.v); l = tlv(0x30, l); gnutls_x509_crt_set_extension_by_oid(c, "2.5.29.17", l.data(), l.size(), 0); }
		if (s.ski) { unsigned char id[64]; size_t n = sizeof id; gnutls_x509_crt_get_key_id(c, 0, id, &n); gnutls_x509_crt_set_subject_key_id(c, id, n); if (issuer) { n = sizeof id; unsigned crit; if (gnutls_x509_crt_get_subject_key_id(issuer->c, id, &n, &crit) >= 0) gnutls_x509_crt_set_authority_key_id(c, id, n); } }
	}
	int rc = gnutls_x509_crt_sign2(c, issuer ? issuer->c : c, tkey(signer).k, GNUTLS_DIG_SHA256, 0); if (rc < 0) fail("infra", str("sign: ") + gnutls_strerror(rc)); str d = t->der(); gnutls_x509_crt_deinit(t->c); gnutls_x509_crt_init(&t->c); gnutls_datum_t dt{(unsigned char*)d.data(), (unsigned)d.size()}; if (gnutls_x509_crt_import(t->c, &dt, GNUTLS_X509_FMT_DER) < 0) fail("infra", "import"); return t;
}
struct TlsConf {
	std::vector<CertP> chain; size_t key = 0; bool implicit = false; str inject;      // sent in clear right behind the go-ahead
	int after = 0;        // what follows the go-ahead: 0 TLS, 1 garbage, 2 end of connection
	std::function<void()> secured; std::function<bool()> startWanted; str prio = "NORMAL";
	int endAfter = -1; bool bye = true;   // number of encrypted writes after which the server ends, with or without close_notify
};
class TlsLayer : public Server {
public:
	TlsLayer(const std::shared_ptr<LineServer>& i, const std::shared_ptr<TlsConf>& c, uint64_t seed) : inner(i), conf(c), rng(seed) {}
	~TlsLayer() { if (s) gnutls_deinit(s); if (cred) gnutls_certificate_free_credentials(cred); }
	std::shared_ptr<LineServer> inner; std::shared_ptr<TlsConf> conf; Rng rng; gnutls_session_t s = nullptr; gnutls_certificate_credentials_t cred = nullptr;
	str clear;            // what the client sent outside TLS
	bool tls = false, up = false, failed = false, peerBye = false, ended = false; unsigned writes = 0; str err, sni; std::deque<str> queue;
	void connected() { inner->net = net; inner->host = host; inner->port = port; if (conf->implicit) { start(); return; } inner->connected(); pump(); }
	void received() {
		if (ended) { in.clear(); return; }
		if (!tls) { clear += in; inner->in += in; in.clear(); inner->received(); pump(); if (conf->startWanted && conf->startWanted()) { say(conf->inject); if (conf->after == 1) { say("garbage instead of TLS\r\n\r\n"); plainGarbage = true; ended = true; closed = true; } else if (conf->after == 2) { ended = true; closed = true; } else start(); } return; }
		if (!up) {
			int rc = gnutls_handshake(s);
			if (rc == GNUTLS_E_SUCCESS) { up = true; char b[300]; size_t n = sizeof b; unsigned t = 0; if (gnutls_server_name_get(s, b, &n, &t, 0) == 0) sni.assign(b, n); if (conf->secured) conf->secured(); if (conf->implicit) { inner->connected(); } }
			else if (gnutls_error_is_fatal(rc)) { err = gnutls_strerror(rc); failed = true; closed = true; return; } else return;
		}
		for (;;) { char b[20000]; ssize_t n = gnutls_record_recv(s, b, sizeof b); if (n > 0) { inner->in.append(b, n); inner->received(); continue; } if (n == 0) { peerBye = true; pump(); if (!ended) { gnutls_bye(s, GNUTLS_SHUT_WR); ended = closed = true; } return; } if (n == GNUTLS_E_AGAIN) break; if (gnutls_error_is_fatal((int)n)) { err = gnutls_strerror((int)n); failed = true; closed = true; } break; }
		pump();
	}
	void released() { inner->released(); }
private:
	bool plainGarbage = false;
	void pump() {
		str o = inner->out.substr(inner->outPos); inner->out.clear(); inner->outPos = 0;
		if (!tls) say(o);
		else for (size_t i = 0; i < o.size() && !ended;) { size_t n = rng.chance(1, 3) ? 1 + rng.below(3) : rng.chance(1, 4) ? 1 + rng.below(20000) : 1 + rng.below(300); n = std::min(n, o.size() - i); ssize_t w = gnutls_record_send(s, o.data() + i, n); if (w <= 0) { ended = closed = true; break; } i += w; if (conf->endAfter >= 0 && (int)++writes > conf->endAfter) finish(); }
		if (inner->closed) { if (tls && up) { if (!ended) finish(); } else closed = true; }
	}
	void finish() { ended = true; if (conf->bye) gnutls_bye(s, GNUTLS_SHUT_WR); closed = true; if (net) net->faulted = true; }
	void start() {
		tls = true; gnutls_init(&s, GNUTLS_SERVER | GNUTLS_NONBLOCK); gnutls_priority_set_direct(s, conf->prio.c_str(), nullptr); gnutls_certificate_allocate_credentials(&cred); std::vector<gnutls_x509_crt_t> v; for (auto& c : conf->chain) v.push_back(c->c); if (!v.empty()) gnutls_certificate_set_x509_key(cred, v.data(), (int)v.size(), tkey(conf->key).k);
		gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred); gnutls_certificate_server_set_request(s, GNUTLS_CERT_IGNORE); gnutls_transport_set_ptr(s, this); gnutls_transport_set_push_function(s, push); gnutls_transport_set_pull_function(s, pull); gnutls_handshake_set_timeout(s, 0);
	}
	static ssize_t push(gnutls_transport_ptr_t p, const void* d, size_t n) { ((TlsLayer*)p)->say(str((const char*)d, n)); return (ssize_t)n; }
	static ssize_t pull(gnutls_transport_ptr_t p, void* d, size_t n) { auto t = (TlsLayer*)p; if (t->in.empty()) { gnutls_transport_set_errno(t->s, EAGAIN); return -1; } n = std::min(n, t->in.size()); memcpy(d, t->in.data(), n); t->in.erase(0, n); return (ssize_t)n; }
};
struct StartSmtp : AuthSmtp { using AuthSmtp::AuthSmtp; int mode = 0; bool want = false, sec = false; std::vector<str> after;   // mode 0 offered and accepted, 1 refused
	bool extra(const str& c, const str&) { if (c != "STARTTLS") return false; if (sec) bad("STARTTLS inside TLS"); if (mode) { SmtpServer::reply(mode == 1 ? 502 : 454, "TLS not available"); lastRefusal = 0; return true; } SmtpServer::reply(220, "go ahead"); want = true; return true; }
	void secured() { sec = true; clear(); hello = false; conf.exts = after; } };
struct StartPop : AuthPop { using AuthPop::AuthPop; int mode = 0; bool want = false, sec = false; std::vector<str> after;
	bool extra(const str& v, const str&) { if (v != "STLS" || authed) return false; if (sec) bad("STLS inside TLS"); if (mode) { err("TLS not available"); return true; } ok("begin"); want = true; return true; }
	void secured() { sec = true; conf.sasl = after; } };
struct StartImap : AuthImap { int mode = 0; bool want = false, sec = false; std::vector<str> after; str* inject = nullptr;
	StartImap(IWorld& w, uint64_t seed, AuthConf* a) : AuthImap(w, seed, a) { auto old = hook; hook = [this, old](ImapServer& s, const str& v, const str& L) {
		if (v == "STARTTLS" && !authed) { if (sec) bad("STARTTLS inside TLS"); if (mode) { if (mode == 1) say(tag + " BAD unknown command\r\n"); else no(); return true; } ok(); want = true; if (inject) { str t = tag; for (;;) { size_t p = inject->find("@"); if (p == str::npos) break; for (size_t i = t.size(); i-- > 0;) { if (t[i] == '9') { t[i] = '0'; continue; } ++t[i]; break; } inject->replace(p, 1, t); } } return true; }
		return old(s, v, L); }; }
	void secured() { sec = true; W.sasl = after; } };
struct MyVerifier : vmime::security::cert::defaultCertificateVerifier { unsigned calls = 0; str host; std::vector<str> ders; void verify(const shared_ptr<vmime::security::cert::certificateChain>& c, const str& h) { ++calls; host = h; ders.clear(); for (size_t i = 0; i < c->getCount(); ++i) { auto e = c->getAt(i)->getEncoded(); ders.push_back(str(e.begin(), e.end())); } defaultCertificateVerifier::verify(c, h); } };
} // namespace vh
