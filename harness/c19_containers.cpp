// C19: containers behave as ordered lists.
#include "vapi.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
using namespace vh; using namespace vmime;

enum Refusal { R_FIELD, R_PART, R_RANGE, R_MID };
template <class F> static void refused(Refusal k, const str& key, F f) {
	try { f(); } catch (const exceptions::no_such_field&) { VH_CHECK(k == R_FIELD, key, "refused with no_such_field"); return; } catch (const exceptions::no_such_part&) { VH_CHECK(k == R_PART, key, "refused with no_such_part"); return; }
	catch (const exceptions::no_such_message_id&) { VH_CHECK(k == R_MID, key, "refused with no_such_message_id"); return; } catch (const std::out_of_range&) { VH_CHECK(k == R_RANGE, key, "refused with out_of_range"); return; }
	fail(key, "an operation on a missing item was not refused");
}
template <class C, class T> struct L {   // operations of one container
	typedef vmime::shared_ptr<T> P;
	std::function<void(C&, const P&)> append, remove; std::function<void(C&, const P&, const P&)> before, after; std::function<void(C&, size_t, const P&)> beforeAt, afterAt; std::function<void(C&, size_t)> removeAt; std::function<void(C&)> clear;
	std::function<size_t(const C&)> count; std::function<P(C&, size_t)> at; std::function<const T*(const C&, size_t)> cat; std::function<std::vector<P>(C&)> list; std::function<std::vector<const T*>(const C&)> clist;
	Refusal ref; bool posChecked = false, rmChecked = true, atChecked = false, endOk = false, objects = true;
};
template <class C, class T> static void same(const L<C, T>& o, C& x, const std::vector<vmime::shared_ptr<T>>& m, const str& key, const str& ops) {
	const C& cx = x; VH_EQ(o.count(cx), m.size(), key + ":count", ops); auto l = o.list(x); auto cl = o.clist(cx); auto kids = x.getChildComponents(); VH_EQ(l.size(), m.size(), key + ":list", ops); VH_EQ(cl.size(), m.size(), key + ":list", ops); VH_EQ(kids.size(), m.size(), key + ":children", ops); VH_EQ(x.isEmpty(), m.empty(), key + ":isEmpty", ops);
	for (size_t i = 0; i < m.size(); ++i) { VH_CHECK(o.at(x, i) == m[i], key + ":at", "item " << i << " after " << ops); VH_CHECK(o.cat(cx, i) == m[i].get(), key + ":at", "item " << i << " after " << ops); VH_CHECK(l[i] == m[i] && cl[i] == m[i].get() && kids[i] == m[i], key + ":list", "item " << i << " after " << ops); }
}
template <class C, class T> static str step(Ctx& c, const L<C, T>& o, C& x, std::vector<vmime::shared_ptr<T>>& m, const vmime::shared_ptr<T>& fresh, const str& key) {
	Rng& r = c.rng; size_t n = m.size(); auto known = n ? r.pick(m) : fresh; size_t k = n ? r.below(n) : 0; auto first = [&] { return std::find(m.begin(), m.end(), known); };
	auto missing = [&](const str& op, std::function<void()> f) { refused(o.ref, key + ":refuse " + op, f); c.count("refused"); return op + "(missing) "; };
	auto outside = [&](const str& op, std::function<void()> f) { if (!o.posChecked) return str(); refused(R_RANGE, key + ":range " + op, f); c.count("refused"); return op + "(outside) "; };
	switch (r.below(o.objects ? 10 : 5) + (o.objects ? 0 : 5)) {
		case 0: if (!n) { return missing("before", [&] { o.before(x, fresh, fresh); }); } o.before(x, known, fresh); m.insert(first(), fresh); return "before(" + show(k) + ") ";
		case 1: if (!n) { return missing("after", [&] { o.after(x, fresh, fresh); }); } o.after(x, known, fresh); m.insert(first() + 1, fresh); return "after ";
		case 2: if (!n || r.chance(1, 4)) { return missing("remove", [&] { o.remove(x, fresh); }); } o.remove(x, known); m.erase(first()); return "remove ";
		case 3: return r.coin() ? missing("before", [&] { o.before(x, fresh, known); }) : missing("after", [&] { o.after(x, fresh, known); });
		case 4: if (o.atChecked) { size_t z = n + r.below(3); refused(R_RANGE, key + ":range at", [&] { o.at(x, z); }); refused(R_RANGE, key + ":range at", [&] { o.cat(x, z); }); c.count("refused"); } return "";
		case 5: case 6: o.append(x, fresh); m.push_back(fresh); return "append ";
		case 7: { size_t z = n + r.below(3); if (o.endOk && (!n || r.chance(1, 4))) { o.beforeAt(x, z, fresh); m.push_back(fresh); return "beforeAt(end) "; } if (!n || r.chance(1, 6)) return outside("beforeAt", [&] { o.beforeAt(x, z, fresh); }); o.beforeAt(x, k, fresh); m.insert(m.begin() + k, fresh); return "beforeAt(" + show(k) + ") "; }
		case 8: { size_t z = n + r.below(3); if (o.endOk && (!n || r.chance(1, 4))) { o.afterAt(x, z, fresh); m.push_back(fresh); return "afterAt(end) "; } if (!n || r.chance(1, 6)) return outside("afterAt", [&] { o.afterAt(x, z, fresh); }); o.afterAt(x, k, fresh); m.insert(m.begin() + k + 1, fresh); return "afterAt(" + show(k) + ") "; }
		default: if (r.chance(1, 12)) { o.clear(x); m.clear(); return "clear "; } if (!n || r.chance(1, 8)) return o.posChecked && o.rmChecked ? outside("removeAt", [&] { o.removeAt(x, n + r.below(2)); }) : str(); o.removeAt(x, k); m.erase(m.begin() + k); return "removeAt(" + show(k) + ") ";
	}
}
#define LIST(C, T, N, REF) [] { L<C, T> o; typedef L<C, T>::P P; o.append = [](C& x, const P& p) { x.append##N(p); }; o.remove = [](C& x, const P& p) { x.remove##N(p); }; o.before = [](C& x, const P& b, const P& p) { x.insert##N##Before(b, p); }; o.after = [](C& x, const P& b, const P& p) { x.insert##N##After(b, p); }; \
	o.beforeAt = [](C& x, size_t i, const P& p) { x.insert##N##Before(i, p); }; o.afterAt = [](C& x, size_t i, const P& p) { x.insert##N##After(i, p); }; o.removeAt = [](C& x, size_t i) { x.remove##N(i); }; o.count = [](const C& x) { return x.get##N##Count(); }; o.at = [](C& x, size_t i) { return P(x.get##N##At(i)); }; o.cat = [](const C& x, size_t i) { return x.get##N##At(i).get(); }; \
	o.list = [](C& x) { return std::vector<P>(x.get##N##List()); }; o.clist = [](const C& x) { std::vector<const T*> v; for (auto& p : x.get##N##List()) v.push_back(p.get()); return v; }; o.ref = REF; return o; }()

template <class C, class T, class M> static void run(Ctx& c, const L<C, T>& o, C& x, M mk, const str& key) {
	std::vector<vmime::shared_ptr<T>> m; str ops; for (size_t k = 1 + c.rng.below(14); k-- > 0;) { vmime::shared_ptr<T> f = mk(); ops += step(c, o, x, m, f, key); same(o, x, m, key, ops); }
	c.note(key + " " + ops); c.nontrivial(key + ops); c.count(key);
}
static vmime::shared_ptr<mailboxGroup> grp(Rng& r) { auto g = make_shared<mailboxGroup>(text("g")); for (size_t k = r.below(4); k-- > 0;) g->appendMailbox(apiMailbox(r)); return g; }
static void sLists(Ctx& c) {
	Rng& r = c.rng; auto ok = [](auto o, bool p, bool a) { o.posChecked = p; o.atChecked = a; return o; };
	switch (r.below(6)) {
		case 0: { auto o = ok(LIST(addressList, address, Address, R_RANGE), true, true); o.clear = [](addressList& x) { x.removeAllAddresses(); }; addressList x; run(c, o, x, [&]() -> vmime::shared_ptr<address> { if (r.chance(1, 3)) return grp(r); return apiMailbox(r); }, "addressList");
			// the mailboxes of a list, groups taken apart
			std::vector<str> w; for (size_t i = 0; i < x.getAddressCount(); ++i) { auto a = x.getAddressAt(i); if (auto g = dynamicCast<mailboxGroup>(a)) for (size_t k = 0; k < g->getMailboxCount(); ++k) w.push_back(dumpAddr(*g->getMailboxAt(k))); else w.push_back(dumpAddr(*a)); } auto ml = x.toMailboxList(); VH_EQ(ml->getMailboxCount(), w.size(), "toMailboxList", ""); for (size_t i = 0; i < w.size(); ++i) VH_EQ(dumpAddr(*ml->getMailboxAt(i)), w[i], "toMailboxList", ""); auto al = ml->toAddressList(); VH_EQ(al->getAddressCount(), w.size(), "toAddressList", ""); for (size_t i = 0; i < w.size(); ++i) VH_EQ(dumpAddr(*al->getAddressAt(i)), w[i], "toAddressList", ""); break; }
		case 1: { auto o = ok(LIST(mailboxList, mailbox, Mailbox, R_RANGE), true, true); o.clear = [](mailboxList& x) { x.removeAllMailboxes(); }; mailboxList x; run(c, o, x, [&] { return apiMailbox(r); }, "mailboxList"); break; }
		case 2: { auto o = ok(LIST(mailboxGroup, mailbox, Mailbox, R_RANGE), true, true); o.clear = [](mailboxGroup& x) { x.removeAllMailboxes(); }; mailboxGroup x; run(c, o, x, [&] { return apiMailbox(r); }, "mailboxGroup"); break; }
		case 3: { auto o = LIST(messageIdSequence, messageId, MessageId, R_MID); o.clear = [](messageIdSequence& x) { x.removeAllMessageIds(); }; messageIdSequence x; run(c, o, x, [&] { return apiMid(r); }, "messageIdSequence"); break; }
		case 4: { L<text, word> o; o.append = [](text& x, const vmime::shared_ptr<word>& p) { x.appendWord(p); }; o.beforeAt = [](text& x, size_t i, const vmime::shared_ptr<word>& p) { x.insertWordBefore(i, p); }; o.afterAt = [](text& x, size_t i, const vmime::shared_ptr<word>& p) { x.insertWordAfter(i, p); }; o.removeAt = [](text& x, size_t i) { x.removeWord(i); }; o.clear = [](text& x) { x.removeAllWords(); }; o.count = [](const text& x) { return x.getWordCount(); };
			o.at = [](text& x, size_t i) { return vmime::shared_ptr<word>(x.getWordAt(i)); }; o.cat = [](const text& x, size_t i) { return x.getWordAt(i).get(); }; o.list = [](text& x) { return std::vector<vmime::shared_ptr<word>>(x.getWordList()); }; o.clist = [](const text& x) { std::vector<const word*> v; for (auto& p : x.getWordList()) v.push_back(p.get()); return v; }; o.objects = false; text x; std::vector<vmime::shared_ptr<word>> m; str ops;
			for (size_t k = 1 + r.below(14); k-- > 0;) { ops += step(c, o, x, m, make_shared<word>(genToken(r), charset("utf-8")), "text"); str w; for (auto& p : m) w += p->getBuffer(); VH_EQ(x.getWholeBuffer(), w, "text:whole", ops); const text& cx = x; VH_EQ(cx.getWordCount(), m.size(), "text:count", ops); auto kids = x.getChildComponents(); VH_EQ(kids.size(), m.size(), "text:children", ops); auto l = x.getWordList(); auto cl = cx.getWordList(); VH_EQ(x.isEmpty(), m.empty(), "text:isEmpty", ops); for (size_t i = 0; i < m.size(); ++i) VH_CHECK(x.getWordAt(i) == m[i] && cx.getWordAt(i) == m[i] && kids[i] == m[i] && l[i] == m[i] && cl[i] == m[i], "text:at", ops); }
			c.note("text " + ops); c.nontrivial("text" + ops); c.count("text"); break; }
		default: { auto o = ok(LIST(parameterizedHeaderField, parameter, Parameter, R_RANGE), true, false); o.rmChecked = false; o.clear = [](parameterizedHeaderField& x) { x.removeAllParameters(); };
			auto f = dynamicCast<parameterizedHeaderField>(headerFieldFactory::getInstance()->create(r.coin() ? "Content-Type" : "Content-Disposition")); std::vector<vmime::shared_ptr<parameter>> m; str ops; static const std::vector<str> N = {"a", "A", "b", "name", "Name", "charset", "q"};
			auto lower = [](str s) { for (auto& ch : s) ch = (char)tolower(ch); return s; };
			for (size_t k = 1 + r.below(14); k-- > 0;) {
				str n = r.pick(N); auto it = std::find_if(m.begin(), m.end(), [&](const vmime::shared_ptr<parameter>& p) { return lower(p->getName()) == lower(n); });
				if (r.coin()) ops += step(c, o, *f, m, make_shared<parameter>(n, "v" + genToken(r)), "parameters");
				else { VH_EQ(f->hasParameter(n), it != m.end(), "parameters:has", ops + n); auto p = f->findParameter(n); VH_CHECK(it == m.end() ? !p : p == *it, "parameters:find", ops << n); if (r.coin()) { auto g = f->getParameter(n); VH_CHECK(g, "parameters:get", ops << n); if (it == m.end()) { VH_EQ(g->getName(), n, "parameters:get", ops); m.push_back(g); } else VH_CHECK(g == *it, "parameters:get", ops << n); ops += "get(" + n + ") "; } }
				const parameterizedHeaderField& cf = *f; VH_EQ(cf.getParameterCount(), m.size(), "parameters:count", ops); auto l = f->getParameterList(); auto cl = cf.getParameterList(); auto kids = f->getChildComponents(); VH_EQ(kids.size(), m.size() + 1, "parameters:children", ops); for (size_t i = 0; i < m.size(); ++i) VH_CHECK(f->getParameterAt(i) == m[i] && cf.getParameterAt(i) == m[i] && l[i] == m[i] && cl[i] == m[i] && kids[i + 1] == m[i], "parameters:at", ops);
			}
			c.note("parameters " + ops); c.nontrivial("parameters" + ops); c.count("parameters"); }
	}
}
static void sHeader(Ctx& c) {
	Rng& r = c.rng; auto o = LIST(header, headerField, Field, R_FIELD); o.clear = [](header& x) { x.removeAllFields(); }; typedef vmime::shared_ptr<headerField> P; header x; std::vector<P> m; str ops; auto F = headerFieldFactory::getInstance();
	static const std::vector<str> N = {"Subject", "subject", "SUBJECT", "To", "tO", "X-A", "x-a", "X-AB", "From", "Content-Type", "Date", "Message-Id", "Received", "References", "X_A"};
	auto lower = [](str s) { for (auto& ch : s) ch = (char)tolower(ch); return s; };
	for (size_t k = 1 + r.below(16); k-- > 0;) {
		str n = r.pick(N); auto is = [&](const P& p) { return lower(p->getName()) == lower(n); }; auto it = std::find_if(m.begin(), m.end(), is);
		switch (r.below(8)) {
			case 0: { VH_EQ(x.hasField(n), it != m.end(), "header:has", ops + n); auto p = x.findField(n); VH_CHECK(it == m.end() ? !p : p == *it, "header:find", ops << n); std::vector<P> all; std::copy_if(m.begin(), m.end(), std::back_inserter(all), is); VH_CHECK(x.findAllFields(n) == all, "header:findAll", ops << n); auto v = x.findFieldValue<headerFieldValue>(n); VH_CHECK(it == m.end() ? !v : v == (*it)->getValue(), "header:findValue", ops << n); break; }
			case 1: { auto p = x.getField(n); if (it == m.end()) { VH_CHECK(p && p->getName() == n, "header:get", ops << n); m.push_back(p); } else VH_CHECK(p == *it, "header:get", ops << n); ops += "get(" + n + ") "; break; }
			case 2: x.removeAllFields(n); m.erase(std::remove_if(m.begin(), m.end(), is), m.end()); ops += "removeAll(" + n + ") "; break;
			case 3: { auto f = F->create(n); if (m.empty() || r.chance(1, 4)) { refused(R_FIELD, "header:refuse replace", [&] { x.replaceField(F->create("X-Missing"), f); }); ops += "replace(missing) "; } else { auto p = r.pick(m); size_t i = std::find(m.begin(), m.end(), p) - m.begin(); x.replaceField(p, f); m[i] = f; ops += "replace(" + show(i) + ") "; } break; }
			case 4: { struct A { const char* n; P p; }; P p; str nm; switch (r.below(5)) { case 0: p = x.Subject(); nm = "Subject"; break; case 1: p = x.To(); nm = "To"; break; case 2: p = x.From(); nm = "From"; break; case 3: p = x.ContentType(); nm = "Content-Type"; break; default: p = x.MessageId(); nm = "Message-Id"; } n = nm; it = std::find_if(m.begin(), m.end(), is); if (it == m.end()) m.push_back(p); else VH_CHECK(p == *it, "header:named", ops << nm); VH_EQ(lower(p->getName()), lower(nm), "header:named", ops); ops += "named(" + nm + ") "; break; }
			default: ops += step(c, o, x, m, F->create(n), "header");
		}
		same(o, x, m, "header", ops);
	}
	c.note(ops); c.nontrivial(ops); c.count("headers");
}
// parts may be in one place only: appending a part that is elsewhere moves it
static void sBody(Ctx& c) {
	Rng& r = c.rng; struct N { vmime::shared_ptr<bodyPart> p; std::vector<int> kids; int parent = -1; }; std::vector<N> t(1 + 2 + r.below(6)); for (auto& n : t) n.p = make_shared<bodyPart>(); t[0].p = make_shared<message>(); str ops;
	auto inside = [&](int a, int b) { for (; b >= 0; b = t[b].parent) if (b == a) return true; return false; };   // a is b or above it
	auto detach = [&](int i) { if (t[i].parent >= 0) { auto& k = t[t[i].parent].kids; k.erase(std::find(k.begin(), k.end(), i)); t[i].parent = -1; } };
	auto check = [&] { for (auto& n : t) {
		auto b = n.p->getBody(); const body& cb = *b; VH_EQ(b->getPartCount(), n.kids.size(), "body:count", ops); VH_EQ(b->isEmpty(), n.kids.empty(), "body:isEmpty", ops); auto l = b->getPartList(); auto cl = cb.getPartList(); auto kids = b->getChildComponents(); for (size_t i = 0; i < n.kids.size(); ++i) { auto& k = t[n.kids[i]].p; VH_CHECK(b->getPartAt(i) == k && cb.getPartAt(i) == k && l[i] == k && cl[i] == k && kids[i] == k, "body:at", ops); }
		VH_CHECK(n.p->getParentPart() == (n.parent < 0 ? nullptr : t[n.parent].p.get()), "body:parent", ops); if (!n.kids.empty()) { auto f = n.p->getHeader()->findField<contentTypeField>("Content-Type"); VH_CHECK(f && f->hasBoundary() && !f->getBoundary().empty(), "body:boundary", ops << " leaves a multipart without delimiter"); } } };
	for (size_t k = 1 + r.below(16); k-- > 0;) {
		int a = (int)r.below(t.size()), i = (int)r.below(t.size()); auto b = t[a].p->getBody(); auto& kids = t[a].kids; bool fits = !inside(i, a) && i != 0; size_t n = kids.size(); int ref = n ? kids[r.below(n)] : -1; str d = show(a) + "," + show(i) + ") ";
		switch (r.below(9)) {
			case 0: case 1: if (!fits) break; b->appendPart(t[i].p); detach(i); kids.push_back(i); t[i].parent = a; ops += "append(" + d; c.count("moved or added"); break;
			case 2: case 3: { if (!fits || ref < 0) break; bool bef = r.coin(); if (bef) b->insertPartBefore(t[ref].p, t[i].p); else b->insertPartAfter(t[ref].p, t[i].p); if (ref != i) { detach(i); auto q = std::find(kids.begin(), kids.end(), ref); kids.insert(bef ? q : q + 1, i); t[i].parent = a; } ops += (bef ? "before(" : "after(") + d; c.count("moved or added"); break; }
			case 4: { if (!fits) break; size_t pos = r.below(n + 2); bool bef = r.coin(); if (bef) b->insertPartBefore(pos, t[i].p); else b->insertPartAfter(pos, t[i].p); if (pos >= n) { detach(i); kids.push_back(i); } else { int q = kids[pos]; if (q == i) { ops += "self"; break; } detach(i); auto w = std::find(kids.begin(), kids.end(), q); kids.insert(bef ? w : w + 1, i); } t[i].parent = a; ops += (bef ? "beforeAt(" : "afterAt(") + show(pos) + "," + d; c.count("moved or added"); break; }
			case 5: if (t[i].parent == a) { b->removePart(t[i].p); detach(i); ops += "remove(" + d; c.count("removed"); } else { refused(R_PART, "body:refuse remove", [&] { b->removePart(t[i].p); }); ops += "remove(missing) "; c.count("refused"); } break;
			case 6: if (n) { size_t pos = r.below(n); int q = kids[pos]; b->removePart(pos); detach(q); ops += "removeAt "; c.count("removed"); } break;
			case 7: { int q = (int)r.below(t.size()); if (t[q].parent == a) break; refused(R_PART, "body:refuse insert", [&] { if (r.coin()) b->insertPartBefore(t[q].p, t[i].p); else b->insertPartAfter(t[q].p, t[i].p); }); ops += "insert(missing) "; c.count("refused"); break; }
			default: switch (r.below(3)) {
				case 0: b->removeAllParts(); while (!kids.empty()) detach(kids.back()); ops += "clear "; break;
				case 1: { auto nb = make_shared<body>(); t[a].p->setBody(nb); for (int q : kids) t[q].parent = -1; kids.clear(); VH_CHECK(t[a].p->getBody() == nb, "body:setBody", ops); ops += "setBody "; b->removeAllParts(); break; }
				default: { // move a body from one part to another
					if (i == a || inside(i, a) || inside(a, i)) break; t[i].p->setBody(b); for (int q : t[i].kids) t[q].parent = -1; t[i].kids = kids; kids.clear(); for (int q : t[i].kids) t[q].parent = i; if (!t[i].kids.empty()) t[i].p->getHeader()->ContentType()->copyFrom(*t[a].p->getHeader()->ContentType()); ops += "moveBody(" + d; c.count("bodies moved"); } }
		}
		check();
	}
	c.note(ops); c.nontrivial(ops); c.count("bodies");
}
// types of field values
static void sTypes(Ctx& c) {
	Rng& r = c.rng; auto F = headerFieldFactory::getInstance(); static const std::vector<std::pair<str, int>> N = {{"From", 1}, {"To", 2}, {"Cc", 2}, {"Bcc", 2}, {"Sender", 1}, {"Date", 3}, {"Received", 4}, {"Subject", 0}, {"Reply-To", 2}, {"Delivered-To", 1}, {"Organization", 0}, {"Return-Path", 5}, {"Content-Type", 6}, {"Content-Transfer-Encoding", 7}, {"Content-Description", 0}, {"Mime-Version", 0}, {"Content-Disposition", 8}, {"Content-Id", 9}, {"Message-Id", 9}, {"In-Reply-To", 10}, {"References", 10}, {"Original-Message-Id", 9}, {"Disposition", 11}, {"Disposition-Notification-To", 12}, {"X-Other", -1}};
	auto mk = [&](int t) -> vmime::shared_ptr<headerFieldValue> { switch (t) { case 0: case -1: return make_shared<text>(apiText(r)); case 1: return apiMailbox(r); case 2: { auto l = make_shared<addressList>(); l->appendAddress(apiMailbox(r)); return l; } case 3: return make_shared<datetime>(apiDate(r)); case 4: { auto v = make_shared<relay>(); v->setFrom("a"); return v; } case 5: return make_shared<path>("a", "b"); case 6: return make_shared<mediaType>("a", "b"); case 7: return make_shared<encoding>("base64"); case 8: return make_shared<contentDisposition>("inline"); case 9: return apiMid(r); case 10: { auto s = make_shared<messageIdSequence>(); s->appendMessageId(apiMid(r)); return s; } case 11: return make_shared<disposition>("a", "b", "c", "d"); default: { auto l = make_shared<mailboxList>(); l->appendMailbox(apiMailbox(r)); return l; } } };
	auto e = r.pick(N); str n = e.first; for (auto& ch : n) if (r.chance(1, 4)) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch)); c.note(n);
	auto f = F->create(n); VH_EQ(f->getName(), n, "factory-name", ""); auto v = mk(e.second); { auto d = f->getValue(); auto v0 = mk(e.second); VH_CHECK(typeid(*d) == typeid(*v0), "factory-type", n << " holds " << typeid(*d).name()); }
	VH_CHECK(!!dynamicCast<parameterizedHeaderField>(f) == (e.second == 6 || e.second == 7 || e.second == 8), "factory-class", n); if (e.second == 6) VH_CHECK(dynamicCast<contentTypeField>(f), "factory-class", n); if (e.second == 8) VH_CHECK(dynamicCast<contentDispositionField>(f), "factory-class", n);
	switch (r.below(3)) { case 0: f->setValue(*v); break; case 1: f->setValue(v); break; default: f->setValueConst(v); } VH_EQ(uValue(*f->getValue()), uValue(*v), "field-value", n);
	int w; do w = (int)r.below(13); while (w == e.second); auto bad = mk(w); if (e.second >= 0) { try { switch (r.below(3)) { case 0: f->setValue(*bad); break; case 1: f->setValue(bad); break; default: f->setValueConst(bad); } fail("field-wrong-type", n + " took a value of type " + typeid(*bad).name()); } catch (const exceptions::bad_field_value_type&) { c.count("wrong types refused"); } VH_EQ(uValue(*f->getValue()), uValue(*v), "field-value-kept", n); } else { f->setValue(*bad); VH_EQ(uValue(*f->getValue()), uValue(*bad), "field-other-type", n); }
	c.nontrivial(n + uValue(*v)); c.count("field types");
}
void vh::setup() {
	setRule("a case is a sequence of operations on one container, counted by the sequence");
	addAssumption("positions are valid ones where no refusal is documented for others");
	addSuite("lists", 40000, 1000000, sLists); addSuite("header", 20000, 500000, sHeader); addSuite("body", 20000, 500000, sBody); addSuite("types", 20000, 200000, sTypes);
}
