// Header fields of every kind, written the way other programs may write them.
#ifndef VFIELDS_HPP
#define VFIELDS_HPP
#include "vparam.hpp"
#include "vmodel.hpp"
namespace vh {

inline str wDate(Rng& r) { char b[80]; snprintf(b, sizeof b, "%s%d %s %d %02d:%02d%s %c%02d%02d", r.coin() ? "Mon, " : "", (int)r.range(1, 28), str(r.pickc({"Jan", "Feb", "Mar", "Oct", "Dec"})).c_str(), (int)r.range(1950, 2100), (int)r.below(24), (int)r.below(60), r.coin() ? ":07" : "", r.coin() ? '+' : '-', (int)r.below(13), (int)r.below(4) * 15); return b; }
inline str wMids(Rng& r, size_t n) { str s; while (n--) s += "<" + r.from("abcXYZ0123456789.-+$=", 1 + r.below(30)) + "@" + wDomain(r).wire + ">" + (n ? r.pickc({" ", "\r\n ", "\r\n\t", ""}) : ""); return s; }
// a field of any kind, written the way other programs may write it
inline str wField(Rng& r) {
	switch (r.below(13)) {
		case 0: case 1: return str(r.pickc({"Subject", "Comments", "Organization", "Content-Description", "X-Mailer", "User-Agent"})) + ":" + r.pickc({" ", "", "\r\n "}) + wText(r).wire;
		case 2: return str(r.pickc({"From", "Sender", "Delivered-To"})) + ": " + wMailbox(r).wire;
		case 3: case 4: return str(r.pickc({"To", "Cc", "Bcc", "Reply-To", "TO", "cc"})) + ": " + wAddressList(r).wire;
		case 5: return "Date: " + wDate(r);
		case 6: return str(r.pickc({"Message-Id", "Content-Id", "message-id"})) + ": " + wMids(r, 1);
		case 7: return str(r.pickc({"References", "In-Reply-To"})) + ": " + wMids(r, 1 + r.below(8));
		case 8: case 9: { str s = "Content-Disposition: " + str(r.pickc({"attachment", "inline", "form-data"})); for (size_t n = r.below(4); n-- > 0;) for (auto& x : genParam(r, "p" + std::to_string(n)).sections) s += ";" + str(r.pickc({" ", "\r\n "})) + x; return s; }
		case 10: return "Return-Path: <" + wLocal(r).wire + "@" + wDomain(r).wire + ">";
		case 11: { str s = "Received:"; if (r.coin()) s += " from " + wDomain(r).wire; if (r.coin()) s += " by " + wDomain(r).wire; if (r.coin()) s += " with ESMTP"; if (r.coin()) s += " id " + wAtom(r); return s + ";" + r.pickc({" ", "\r\n "}) + wDate(r); }
		default: return "Disposition-Notification-To: " + wMailbox(r).wire;
	}
}
inline str fields(Rng& r, size_t n) { str s; while (n--) s += wField(r) + "\r\n"; return s; }

}
#endif
