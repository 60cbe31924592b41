// A01: the library built with OpenSSL and iconv, under the monitors of the properties that depend on them.
// with: c01_parse c07_text c08_param c09_address c12_charset c14_digest n07_tls
// ldflags: -lgnutls
#include "vh.hpp"
namespace vh { void setup_c01_parse(); void setup_c07_text(); void setup_c08_param(); void setup_c09_address(); void setup_c12_charset(); void setup_c14_digest(); void setup_n07_tls(); }
void vh::setup() {
	suiteGroup("C01.", .2); setup_c01_parse(); suiteGroup("C07.", .25); setup_c07_text(); suiteGroup("C08.", .25); setup_c08_param(); suiteGroup("C09.", .25); setup_c09_address();
	suiteGroup("C12.", .5); setup_c12_charset(); suiteGroup("C14.", .25); setup_c14_digest(); suiteGroup("N07.", .6); setup_n07_tls(); suiteGroup("", 1);
	setRule("The library is built with OpenSSL instead of GnuTLS and iconv instead of ICU, and the workloads and monitors of the properties that depend on these libraries are run on it: parsing (C01), words (C07), parameters (C08), addresses (C09), charset conversion (C12), digests (C14), certificates and TLS sessions (N07).");
}
