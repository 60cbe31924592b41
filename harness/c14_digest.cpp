// C14: MD5 and SHA-1 against the implementations of the TLS library's cryptographic back end.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/crypto.h>
#include <thread>
#include <atomic>
using namespace vh;
namespace vd = vmime::security::digest;
using vmime::byte_t;

static str hex(const str& s) { static const char h[] = "0123456789abcdef"; str o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
static str ref(const str& name, const str& data) {
	unsigned char out[64]; auto a = name == "md5" ? GNUTLS_DIG_MD5 : GNUTLS_DIG_SHA1;
	if (gnutls_hash_fast(a, data.data(), data.size(), out)) throw std::runtime_error("reference digest");
	return str((char*)out, name == "md5" ? 16 : 20);
}
static str genData(Rng& r) {
	size_t n;
	switch (r.below(4)) {
		case 0: n = r.below(300); break;
		case 1: n = 64 * r.below(6) + r.below(3); if (n && r.coin()) n--; break;
		case 2: { static const size_t k[] = {0, 1, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 183, 184, 191, 192, 448, 511, 512, 513, 4096}; n = k[r.below(25)]; break; }
		default: n = r.size(20000);
	}
	return r.coin() ? r.bytes(n) : str(n, (char)r.next());
}
static void feed(Ctx& c, vd::messageDigest& d, const str& data, bool closeWithData, str& how) {
	Rng& r = c.rng; size_t p = 0; int mode = (int)r.below(5); how = "mode " + show(mode);
	size_t stop = closeWithData ? r.below(data.size() + 1) : data.size();
	while (p < stop) {
		size_t n = mode == 0 ? stop - p : mode == 1 ? 1 : mode == 2 ? 1 + r.below(9) : mode == 3 ? 60 + r.below(8) : 1 + r.below(stop - p);
		n = std::min(n, stop - p);
		const byte_t* b = (const byte_t*)data.data() + p;
		switch (r.below(5)) {
			case 0: d.update(b, n); break;
			case 1: d.update(str(data, p, n)); break;
			case 2: d.update((const byte_t*)data.data(), p, n); break;
			case 3: if (n == 1) d.update(*b); else d.update(b, n); break;
			default: { str copy(n + 7, 'x'); size_t off = r.below(8); copy.replace(off, n, data, p, n); d.update((const byte_t*)copy.data() + off, n); } // any alignment
		}
		if (r.chance(1, 10)) d.update(str());
		p += n; c.count("updates");
	}
	if (!closeWithData) d.finalize();
	else switch (r.below(3)) {
		case 0: d.finalize(str(data, p)); break;
		case 1: d.finalize((const byte_t*)data.data() + p, data.size() - p); break;
		default: d.finalize((const byte_t*)data.data(), p, data.size() - p); break;
	}
	how += closeWithData ? " closing with data" : "";
}
static void check(vd::messageDigest& d, const str& name, const str& data, const str& how) {
	str want = ref(name, data);
	VH_EQ(d.getDigestLength(), want.size(), "length", name);
	VH_EQ(hex(str((const char*)d.getDigest(), d.getDigestLength())), hex(want), "digest", name + " of " + show(data.size()) + " bytes " + how);
	VH_EQ(d.getHexDigest(), hex(want), "hex", name + " of " + show(data.size()) + " bytes");
}
static void sDigest(Ctx& c) {
	Rng& r = c.rng; str name = r.coin() ? "md5" : "sha1"; str data = genData(r);
	auto d = vd::messageDigestFactory::getInstance()->create(r.chance(1, 4) ? (name == "md5" ? "MD5" : "SHA1") : name);
	auto e = vd::messageDigestFactory::getInstance()->create(r.coin() ? "md5" : "sha1");
	str n2 = e->getDigestLength() == 16 ? "md5" : "sha1", data2 = genData(r), how;
	c.note(name + " " + show(data.size()));
	if (r.chance(1, 3)) { d->update(r.bytes(r.below(200))); d->reset(); }  // given up half-way
	e->update(data2.substr(0, data2.size() / 2));      // another object in use at the same time
	feed(c, *d, data, r.coin(), how); check(*d, name, data, how);
	e->finalize(data2.substr(data2.size() / 2)); check(*e, n2, data2, "interleaved"); check(*d, name, data, how + " again");
	for (int i = (int)r.below(3); i > 0; --i) { d->reset(); str x = genData(r); feed(c, *d, x, r.coin(), how); check(*d, name, x, how + " reused"); }
	c.seen("length mod 64", show(data.size() % 64)); c.nontrivial(name + hex(ref(name, data)) + how);
}
// every length up to a few blocks, cut in two at every place
static void sLengths(Ctx& c) {
	str name = c.idx % 2 ? "md5" : "sha1"; size_t n = (c.idx / 2) % 260; str data = c.rng.bytes(n), want = hex(ref(name, data)); c.note(name + " " + show(n));
	for (size_t k = 0; k <= n; ++k) {
		auto d = vd::messageDigestFactory::getInstance()->create(name);
		d->update((const byte_t*)data.data(), k); d->finalize((const byte_t*)data.data() + k, n - k);
		VH_EQ(d->getHexDigest(), want, "cut", name + " of " + show(n) + " bytes cut at " + show(k)); c.count("cuts");
	}
	c.nontrivial(name + show(n));
}
// digests computed at the same time by several threads
static void sThreads(Ctx& c) {
	Rng& r = c.rng; std::vector<str> in, want; std::vector<str> names; std::atomic<int> bad{0}; str first;
	for (int i = 0; i < 6; ++i) { names.push_back(i % 3 == 2 ? "md5" : "sha1"); in.push_back(r.bytes(2000 + r.below(3000))); want.push_back(hex(ref(names.back(), in.back()))); }
	std::vector<std::thread> t; std::atomic<bool> go{false};
	for (int i = 0; i < 6; ++i) t.emplace_back([&, i] {
		while (!go) {}
		for (int k = 0; k < 30; ++k) { auto d = vd::messageDigestFactory::getInstance()->create(names[i]); d->update(in[i].substr(0, k * 7)); d->finalize(in[i].substr(k * 7)); if (d->getHexDigest() != want[i]) bad++; }
	});
	go = true; for (auto& x : t) x.join();
	c.count("threaded digests", 180); c.note("6 threads");
	VH_CHECK(!bad, "threads", bad << " of 180 digests computed by 6 threads at once were wrong");
	c.nontrivial(want[0]);
}
// more than 2^29 bytes: the bit count exceeds 32 bits
static void sHuge(Ctx& c) {
	str name = c.idx % 2 ? "md5" : "sha1"; c.note("huge " + name);
	str block = c.rng.bytes(1 << 20); size_t blocks = 512, tail = 1 + c.rng.below(70);
	auto d = vd::messageDigestFactory::getInstance()->create(name);
	gnutls_hash_hd_t h; gnutls_hash_init(&h, name == "md5" ? GNUTLS_DIG_MD5 : GNUTLS_DIG_SHA1);
	if (c.idx % 4 >= 2) { // all in one call
		size_t len = (size_t(1) << 29) + c.rng.below(130); std::unique_ptr<byte_t, void (*)(void*)> big((byte_t*)calloc(1, len), free); VH_CHECK(big, "memory", "512 MB"); for (int i = 0; i < 1000; ++i) big.get()[c.rng.below(len)] = (byte_t)c.rng.next();
		size_t pre = c.rng.below(70); if (pre) { d->update((const byte_t*)block.data(), pre); gnutls_hash(h, block.data(), pre); } d->update(big.get(), len); gnutls_hash(h, big.get(), len); blocks = 0;
	}
	for (size_t i = 0; i < blocks; ++i) { d->update((const byte_t*)block.data(), block.size()); gnutls_hash(h, block.data(), block.size()); }
	d->finalize((const byte_t*)block.data(), tail); gnutls_hash(h, block.data(), tail);
	unsigned char out[64]; gnutls_hash_deinit(h, out);
	VH_EQ(d->getHexDigest(), hex(str((char*)out, d->getDigestLength())), "huge", name + (c.idx % 4 >= 2 ? " of 2^29 bytes in one update and " : " of 2^29 bytes and ") + show(tail));
	c.nontrivial(name);
}
static void sFactory(Ctx& c) {
	auto f = vd::messageDigestFactory::getInstance(); bool t = false;
	for (auto& n : f->getSupportedAlgorithms()) VH_CHECK(f->create(n), "create", n);
	str bad = c.rng.from("abcdefmdsh15", 1 + c.rng.below(6)); c.note(bad); str l = bad;
	if (l == "md5" || l == "sha1" || l == "sha-1") return;
	try { auto d = f->create(bad); (void)d; } catch (vmime::exceptions::no_digest_algorithm_available&) { t = true; }
	VH_CHECK(t, "unknown", "unknown algorithm " << bad << " accepted"); c.nontrivial(bad);
}
void vh::setup() {
	setRule("each data, algorithm and way of cutting it into updates counts once");
	addSuite("digest", 60000, 4000000, sDigest);
	addSuite("lengths", 520, 5200, sLengths);
	addSuite("threads", 120, 4000, sThreads, 60);
	addSuite("factory", 200, 2000, sFactory);
	addSuite("huge", 4, 8, sHuge, 200);
}
