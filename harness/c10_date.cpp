// C10: dates against an independent proleptic Gregorian calendar.
#include "vwrite.hpp"
#include "vmime/utility/datetimeUtils.hpp"
#include <time.h>
#include <sys/time.h>
using namespace vh;
typedef vmime::datetime DT;
namespace vd = vmime::utility;

// the clock the library sees; 0 for the real one
static time_t g_fakeTime = 0;
extern "C" time_t time(time_t* t) {
	time_t r = g_fakeTime;
	if (!r) { struct timeval tv; gettimeofday(&tv, 0); r = tv.tv_sec; }
	if (t) *t = r;
	return r;
}

// ------------------------------------------------- calendar by counting days
static long long fdiv(long long a, long long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static bool refLeap(long long y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
static int refMonthLen(long long y, int m) {
	if (m == 2) return refLeap(y) ? 29 : 28;
	return (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
// days since 1970-01-01
static long long refDays(long long y, int m, int d) {
	long long n = 365 * (y - 1) + fdiv(y - 1, 4) - fdiv(y - 1, 100) + fdiv(y - 1, 400);
	for (int k = 1; k < m; ++k) n += refMonthLen(y, k);
	return n + d - 1 - 719162;
}
static int refDow(long long y, int m, int d) { long long x = (refDays(y, m, d) + 4) % 7; return (int)(x < 0 ? x + 7 : x); }
static int refIsoWeek(long long y, int m, int d) {
	long long n = refDays(y, m, d); int dow = (refDow(y, m, d) + 6) % 7;
	long long thu = n - dow + 3; long long ty = y;
	if (thu < refDays(y, 1, 1)) ty = y - 1; else if (thu >= refDays(y + 1, 1, 1)) ty = y + 1;
	return (int)((thu - refDays(ty, 1, 1)) / 7) + 1;
}
static long long refInstant(const DT& d) {
	return refDays(d.getYear(), d.getMonth(), d.getDay()) * 86400 + d.getHour() * 3600 + d.getMinute() * 60 + d.getSecond() - 60LL * d.getZone();
}
static str showDT(const DT& d) {
	std::ostringstream o; o << d.getYear() << "-" << d.getMonth() << "-" << d.getDay() << " " << d.getHour() << ":" << d.getMinute() << ":" << d.getSecond() << " z" << d.getZone();
	return o.str();
}
static bool validDT(const DT& d) {
	return d.getMonth() >= 1 && d.getMonth() <= 12 && d.getDay() >= 1 && d.getDay() <= refMonthLen(d.getYear(), d.getMonth())
		&& d.getHour() >= 0 && d.getHour() < 24 && d.getMinute() >= 0 && d.getMinute() < 60 && d.getSecond() >= 0 && d.getSecond() <= 60;
}
static bool sameDT(const DT& a, const DT& b) { return showDT(a) == showDT(b); }

static int genYear(Rng& r, int lo = 1000) {
	static const int k[] = {1000, 1582, 1600, 1700, 1800, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2038, 2099, 2100, 2399, 2400, 9999};
	for (;;) {
		int y = r.chance(1, 3) ? k[r.below(20)] : r.coin() ? (int)r.range(1900, 2100) : (int)r.range(lo, 9999);
		if (y >= lo) return y;
	}
}
static int genZone(Rng& r) {
	switch (r.below(6)) {
		case 0: return 0;
		case 1: return (int)r.range(-14, 14) * 60;
		case 2: return (int)r.range(-28, 28) * 30;
		case 3: return (int)r.range(-840, 840);
		case 4: return (int)r.range(-99 * 60 - 59, 99 * 60 + 59);
		default: { static const int z[] = {330, 345, -210, 765, -1, 1, -59, 59, -60, 1439, -1439, 1440, -1440, 1441}; return z[r.below(14)]; }
	}
}
static DT genDT(Rng& r, int loYear = 1000) {
	int y = genYear(r, loYear), m = r.chance(1, 3) ? (r.coin() ? 12 : 1) : r.chance(1, 4) ? 2 : (int)r.range(1, 12);
	int len = refMonthLen(y, m);
	int d = r.chance(1, 3) ? (r.coin() ? 1 : len) : (int)r.range(1, len);
	int hh = r.chance(1, 3) ? (r.coin() ? 0 : 23) : (int)r.range(0, 23);
	int mm = r.chance(1, 3) ? (r.coin() ? 0 : 59) : (int)r.range(0, 59);
	int ss = r.chance(1, 4) ? (r.coin() ? 0 : 59) : (int)r.range(0, 59);
	return DT(y, m, d, hh, mm, ss, genZone(r));
}

static const char* DAYS[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char* MONTHS[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};

static str genCase(Rng& r, str s) {
	int k = (int)r.below(6);
	if (k == 0) for (auto& c : s) c = (char)toupper(c);
	if (k == 1) for (auto& c : s) c = (char)tolower(c);
	return s;
}
static str dComment(Rng& r, int depth = 0) {
	static const std::vector<str> txt = {"CET", "12:30:01", "21 Nov 97", "Mon, ", "+0200", "", " ", "\\)", "\\(", "\\\\", "a b", "Z", ",", "\"", "2001"};
	str s = "(";
	for (int n = (int)r.below(3); n > 0; --n) { s += r.pick(txt); if (depth < 3 && r.chance(1, 5)) s += dComment(r, depth + 1); }
	return s + ")";
}
// optional (or at least one) white space, possibly with comments
static str fws(Rng& r, bool must, bool comments) {
	str s;
	int n = must ? 1 + (int)r.below(2) : (int)r.below(2);
	if (r.chance(2, 3)) n = must ? 1 : 0;
	for (int i = 0; i < n; ++i) {
		if (comments && r.chance(1, 3)) { s += dComment(r); continue; }
		s += r.chance(1, 6) ? "\t" : r.chance(1, 6) ? "\r\n " : " ";
	}
	if (must && s.empty()) s = " ";
	return s;
}
// a date in a conforming notation, and what it denotes
static str writeDate(Rng& r, DT& d, bool obs, Ctx& c) {
	static const struct { const char* n; int z; } zones[] = {{"UT", 0}, {"GMT", 0}, {"EST", -300}, {"EDT", -240}, {"CST", -360}, {"CDT", -300}, {"MST", -420}, {"MDT", -360}, {"PST", -480}, {"PDT", -420}, {"Z", 0}};
	str s; char b[64];
	s += fws(r, false, obs);
	if (r.chance(3, 4)) {
		s += genCase(r, DAYS[refDow(d.getYear(), d.getMonth(), d.getDay())]);
		if (obs) s += fws(r, false, true);
		s += ",";
		c.seen("notation", "weekday");
	}
	s += fws(r, r.coin(), obs);
	snprintf(b, sizeof b, r.coin() ? "%d" : "%02d", d.getDay()); s += b;
	s += fws(r, true, obs);
	s += genCase(r, MONTHS[d.getMonth() - 1]);
	s += fws(r, true, obs);
	if (obs && r.coin() && d.getYear() >= 1950 && d.getYear() < 2050) { snprintf(b, sizeof b, "%02d", d.getYear() % 100); s += b; c.seen("notation", "year2"); }
	else if (obs && d.getYear() >= 2000 && d.getYear() < 2100 && r.coin()) {
		// three digits: years since 1900
		snprintf(b, sizeof b, "%d", d.getYear() - 1900); s += b; c.seen("notation", "year3");
	}
	else { snprintf(b, sizeof b, "%d", d.getYear()); s += b; }
	s += fws(r, true, obs);
	snprintf(b, sizeof b, "%02d", d.getHour()); s += b;
	if (obs) s += fws(r, false, true);
	s += ":";
	if (obs) s += fws(r, false, true);
	snprintf(b, sizeof b, "%02d", d.getMinute()); s += b;
	if (r.chance(1, 4)) { d.setSecond(0); c.seen("notation", "noseconds"); }
	else {
		if (r.chance(1, 12)) { d.setSecond(60); c.seen("notation", "leapsecond"); }
		if (obs) s += fws(r, false, true);
		s += ":";
		if (obs) s += fws(r, false, true);
		snprintf(b, sizeof b, "%02d", d.getSecond()); s += b;
	}
	s += fws(r, true, obs);
	if (obs && r.coin()) {
		auto& z = zones[r.below(11)]; s += genCase(r, z.n); d.setZone(z.z); c.seen("notation", str("zone:") + z.n);
	} else {
		int z = d.getZone(); int a = z < 0 ? -z : z;
		if (a >= 100 * 60) { a = 0; d.setZone(0); }
		snprintf(b, sizeof b, "%c%02d%02d", z < 0 || (z == 0 && r.chance(1, 4)) ? '-' : '+', a / 60, a % 60); s += b; c.seen("notation", "zone:num");
	}
	if (r.chance(1, 3)) { s += fws(r, true, true); c.seen("notation", "trailing"); }
	return s;
}

static void sCalendar(Ctx& c) {
	// whole 400-year cycles are covered: every case takes one year, every day of it
	int y = 1000 + (int)((c.idx * 7919) % 9000);
	c.note("year " + show(y));
	VH_EQ(vd::datetimeUtils::isLeapYear(y), refLeap(y), "leap", "isLeapYear(" << y << ")");
	for (int m = 1; m <= 12; ++m) {
		VH_EQ(vd::datetimeUtils::getDaysInMonth(y, m), refMonthLen(y, m), "monthlen", "getDaysInMonth(" << y << "," << m << ")");
		for (int d = 1; d <= refMonthLen(y, m); ++d) {
			VH_EQ(vd::datetimeUtils::getDayOfWeek(y, m, d), refDow(y, m, d), "dow", "getDayOfWeek(" << y << "," << m << "," << d << ")");
			int w = refIsoWeek(y, m, d);
			VH_EQ(vd::datetimeUtils::getWeekOfYear(y, m, d, true), w, "isoweek", "getWeekOfYear(" << y << "," << m << "," << d << ",iso)");
			VH_EQ(vd::datetimeUtils::getWeekOfYear(y, m, d, false), w == 1 && m == 12 ? 53 : w, "week", "getWeekOfYear(" << y << "," << m << "," << d << ")");
			DT x(y, m, d);
			VH_EQ(x.getWeekDay(), refDow(y, m, d), "dow", "getWeekDay");
			c.count("days");
		}
	}
	c.nontrivial(show(y));
}

static void sZones(Ctx& c) {
	DT a = genDT(c.rng);
	c.note(showDT(a));
	long long t = refInstant(a);
	DT u = vd::datetimeUtils::toUniversalTime(a);
	VH_CHECK(u.getZone() == 0 && validDT(u), "utc-form", showDT(a) << " -> " << showDT(u));
	VH_EQ(refInstant(u), t, "utc-instant", showDT(a) << " -> " << showDT(u) << ": seconds");
	DT cur = a;
	for (int i = 0; i < 4; ++i) {
		int z = genZone(c.rng);
		DT l = vd::datetimeUtils::toLocalTime(cur, z);
		VH_CHECK(l.getZone() == z && validDT(l), "local-form", showDT(cur) << " to zone " << z << " -> " << showDT(l));
		VH_EQ(refInstant(l), t, "local-instant", showDT(cur) << " to zone " << z << " -> " << showDT(l) << ": seconds");
		VH_CHECK(l == a && !(l != a) && l <= a && l >= a && !(l < a) && !(l > a), "same-instant-compare", showDT(l) << " vs " << showDT(a));
		cur = l;
		c.count("conversions");
	}
	c.nontrivial(showDT(a));
}

static void sCompare(Ctx& c) {
	Rng& r = c.rng;
	DT a = genDT(r), b = genDT(r);
	if (r.chance(3, 4)) {
		// near a: shifted by a small amount, or one field differing
		b = a;
		switch (r.below(5)) {
			case 0: b = vd::datetimeUtils::toLocalTime(a, genZone(r)); break;
			case 1: b.setZone(genZone(r)); break;
			case 2: b = vd::datetimeUtils::toLocalTime(a, genZone(r)); b.setSecond(r.coin() ? (b.getSecond() + 1) % 60 : (b.getSecond() + 59) % 60); break;
			case 3: b = vd::datetimeUtils::toLocalTime(a, genZone(r)); b.setMinute((b.getMinute() + (r.coin() ? 1 : 59)) % 60); break;
			default: b = vd::datetimeUtils::toLocalTime(a, genZone(r)); b.setDay((int)r.range(1, refMonthLen(b.getYear(), b.getMonth()))); break;
		}
	}
	long long x = refInstant(a), y = refInstant(b);
	str w = showDT(a) + " / " + showDT(b); c.note(w);
	VH_EQ(a == b, x == y, "eq", w);
	VH_EQ(a != b, x != y, "ne", w);
	VH_EQ(a < b, x < y, "lt", w);
	VH_EQ(a <= b, x <= y, "le", w);
	VH_EQ(a > b, x > y, "gt", w);
	VH_EQ(a >= b, x >= y, "ge", w);
	c.seen("order", x < y ? "<" : x == y ? "=" : ">");
	c.nontrivial(w);
}

static void sUnix(Ctx& c) {
	Rng& r = c.rng;
	long long t;
	switch (r.below(4)) {
		case 0: t = r.range(0, 4102444800L); break;
		case 1: t = r.range(-30000000000L, 200000000000L); break;
		case 2: t = refDays(genYear(r), (int)r.range(1, 12), 1) * 86400 + r.range(-1, 1); break;
		default: t = r.range(-3, 3); break;
	}
	if (t < refDays(1000, 1, 2) * 86400) t = 0;
	int z = r.coin() ? 0 : genZone(r);
	c.note("time_t " + show(t) + " zone " + show(z));
	DT d((time_t)t, z);
	VH_CHECK(validDT(d) && d.getZone() == z, "unix-form", "datetime(" << t << "," << z << ") = " << showDT(d));
	VH_EQ(refInstant(d), t, "unix-instant", "datetime(" << t << "," << z << ") = " << showDT(d) << ": seconds");
	c.nontrivial(show(t));
}

static void sText(Ctx& c) {
	Rng& r = c.rng;
	DT a = genDT(r);
	c.note(showDT(a));
	str s = a.generate(r.coin() ? 78 : (size_t)r.range(1, 200), (size_t)r.below(80));
	c.note(showDT(a) + " text " + s);
	DT b; b.parse(s);
	VH_CHECK(sameDT(a, b), "text-roundtrip", showDT(a) << " -> " << show(s) << " -> " << showDT(b));
	// shape of the text, by the standard's grammar
	char wd[8], mon[8], sign; int day, year, hh, mm, ss, zone, used = 0;
	int n = sscanf(s.c_str(), "%3[A-Za-z], %d %3[A-Za-z] %d %2d:%2d:%2d %c%d%n", wd, &day, mon, &year, &hh, &mm, &ss, &sign, &zone, &used);
	VH_CHECK(n == 9 && (size_t)used == s.size() && (sign == '+' || sign == '-'), "text-shape", show(s));
	VH_CHECK(str(wd) == DAYS[refDow(a.getYear(), a.getMonth(), a.getDay())] && str(mon) == MONTHS[a.getMonth() - 1] && day == a.getDay() && year == a.getYear()
		&& hh == a.getHour() && mm == a.getMinute() && ss == a.getSecond(), "text-fields", showDT(a) << " -> " << show(s));
	VH_EQ((sign == '-' ? -1 : 1) * (zone / 100 * 60 + zone % 100), a.getZone(), "text-zone", show(s));
	// as a field of a message
	auto h = vmime::make_shared<vmime::header>();
	h->Date()->setValue(a);
	str ht = h->generate();
	auto h2 = vmime::make_shared<vmime::header>(); h2->parse(ht);
	auto v = h2->Date()->getValue<DT>();
	VH_CHECK(v && sameDT(a, *v), "field-roundtrip", show(ht));
	DT e(s); DT f; f = s; DT g(a); DT k; k = a; auto cl = vmime::dynamicCast<DT>(a.clone());
	VH_CHECK(sameDT(e, a) && sameDT(f, a) && sameDT(g, a) && sameDT(k, a) && sameDT(*cl, a), "copies", showDT(a));
	c.nontrivial(s);
}

static void sParse(Ctx& c, bool obs) {
	Rng& r = c.rng;
	DT a = genDT(r, 1900);
	str s = writeDate(r, a, obs, c);
	c.note(s);
	DT b(2011, 7, 30, 4, 5, 6, 77); b.parse(s);
	VH_CHECK(sameDT(a, b), obs ? "parse-obs" : "parse", show(s) << " denotes " << showDT(a) << ", parsed as " << showDT(b));
	// as the Date field of a message, and the same bytes away from the start of the buffer
	str m = "From: a@b\r\nDate: " + s + "\r\nSubject: x\r\n\r\nbody";
	auto msg = vmime::make_shared<vmime::message>(); msg->parse(m);
	auto v = msg->getHeader()->Date()->getValue<DT>();
	VH_CHECK(v && sameDT(a, *v), obs ? "field-obs" : "field", show(m) << " parsed as " << showDT(*v));
	DT d; vmime::parsingContext ctx; size_t np = 0;
	str pad = "99 ", tail = " 2004 11:12:13 +0101";
	d.parse(ctx, pad + s + tail, pad.size(), pad.size() + s.size(), &np);
	VH_CHECK(sameDT(a, d), "parse-range", show(s) << " in a range parsed as " << showDT(d));
	c.nontrivial(s);
}

static void sHostile(Ctx& c) {
	Rng& r = c.rng;
	DT a = genDT(r, 1900);
	str s = writeDate(r, a, r.coin(), c);
	for (int n = (int)r.below(5); n >= 0; --n) {
		size_t p = r.below(s.size() + 1);
		switch (r.below(5)) {
			case 0: s.insert(p, r.from("0123456789:+- ,()azAZ\\\r\n\t\"", 1 + r.below(4))); break;
			case 1: if (p < s.size()) s.erase(p, 1 + r.below(4)); break;
			case 2: if (p < s.size()) s[p] = (char)r.next(); break;
			case 3: s.insert(p, str(r.below(30), (char)('0' + r.below(10)))); break;
			default: s = s.substr(0, p); break;
		}
	}
	c.note(s);
	DT b; b.parse(s);
	VH_CHECK(validDT(b), "hostile-valid", show(s) << " parsed as " << showDT(b));
	str g = b.generate();
	DT d; d.parse(g);
	if (b.getYear() >= 1000) VH_CHECK(sameDT(b, d), "hostile-roundtrip", show(s) << " = " << showDT(b) << " -> " << show(g) << " = " << showDT(d));
	c.nontrivial(s);
}

// the current date, as seen in a zone with daylight saving time around its changes
static void sNow(Ctx& c) {
	Rng& r = c.rng;
	static const std::vector<str> tzs = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "XXX+12", "YYY-14", "NPT-5:45", "<-04>4<-03>,M9.1.6/24,M4.1.6/24"};
	str tz = r.pick(tzs);
	setenv("TZ", tz.c_str(), 1); tzset();
	long long t;
	if (r.coin()) t = r.range(946684800L, 2524608000L);
	else {
		// within hours of a change of offset
		t = r.range(1577836800L, 1893456000L);
		time_t x = (time_t)t; struct tm l; localtime_r(&x, &l); long off = l.tm_gmtoff;
		for (int i = 0; i < 400; ++i) { time_t y = x + 86400; localtime_r(&y, &l); if (l.tm_gmtoff != off) break; x = y; }
		for (time_t step = 43200; step >= 1; step /= 2) { time_t y = x + step; localtime_r(&y, &l); if (l.tm_gmtoff == off) x = y; }
		t = (long long)x + r.range(-4 * 3600, 4 * 3600);
	}
	c.note("TZ=" + tz + " t=" + show(t));
	g_fakeTime = (time_t)t;
	DT n;
	try { n = DT::now(); } catch (...) { g_fakeTime = 0; throw; }
	g_fakeTime = 0;
	time_t x = (time_t)t; struct tm l; localtime_r(&x, &l);
	setenv("TZ", "UTC0", 1); tzset();
	VH_EQ(n.getZone(), (int)(l.tm_gmtoff / 60), "now-zone", "TZ=" << tz << " t=" << t << " now()=" << showDT(n) << ": zone");
	VH_EQ(refInstant(n), t, "now-instant", "TZ=" << tz << " now()=" << showDT(n) << ": seconds");
	c.seen("tz", tz + (l.tm_isdst ? " dst" : " std"));
	c.nontrivial(tz + show(t));
}

void vh::setup() {
	setRule("each date, notation, pair of dates or point in time generated counts once; trivial ones (none) are not counted");
	addSuite("calendar", 1800, 9000, sCalendar);
	addSuite("zones", 150000, 3000000, sZones);
	addSuite("compare", 300000, 5000000, sCompare);
	addSuite("unix", 60000, 3000000, sUnix);
	addSuite("text", 60000, 1000000, sText);
	addSuite("parse", 60000, 1000000, [](Ctx& c) { sParse(c, false); });
	addSuite("parse-obs", 60000, 1000000, [](Ctx& c) { sParse(c, true); });
	addSuite("hostile", 60000, 1000000, sHostile);
	addSuite("now", 20000, 300000, sNow);
}
