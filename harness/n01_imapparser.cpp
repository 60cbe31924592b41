// N01: replies of an IMAP server are read as what they say, whatever their form, pieces and order; anything else is refused.
#include "vnet.hpp"
#include "vmime/net/imap/imap.hpp"
#include "vmime/net/imap/IMAPParser.hpp"
#include "vmime/net/imap/IMAPTag.hpp"
#include "vmime/net/imap/IMAPMessageStructure.hpp"
#include "vmime/net/imap/IMAPMessagePart.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPFolderStatus.hpp"
using namespace vh;
typedef vn::imap::IMAPParser P;

// a socket that delivers given bytes in pieces
class Feed : public vn::socket {
public:
	Feed(const str& d, const Chunking& c, uint64_t seed) : data(d), ch(c), rng(seed) {}
	void connect(const str&, const vmime::port_t) {} void disconnect() {} bool isConnected() const { return true; }
	bool waitForRead(const int = 30000) { blocked = false; return true; } bool waitForWrite(const int = 30000) { return true; }
	void receive(str& b) {
		b.clear(); st = 0;
		if (rng.chance(1, 5) && !blocked) { blocked = true; st = STATUS_WOULDBLOCK; return; }
		blocked = false;
		if (pos >= data.size()) { ended = true; throw vmime::exceptions::socket_exception("ENOTCONN: end of the replies"); }
		size_t n = std::min(ch.next(rng, 16384), data.size() - pos); b.assign(data, pos, n); pos += n;
	}
	size_t receiveRaw(vmime::byte_t* b, const size_t count) { str s; receive(s); size_t n = std::min(count, s.size()); memcpy(b, s.data(), n); pos -= s.size() - n; return n; }
	void send(const str&) {} void send(const char*) {} void sendRaw(const vmime::byte_t*, const size_t) {} size_t sendRawNonBlocking(const vmime::byte_t*, const size_t n) { return n; }
	size_t getBlockSize() const { return 16384; } unsigned getStatus() const { return st; } const str getPeerName() const { return "h"; } const str getPeerAddress() const { return "127.0.0.1"; }
	shared_ptr<vn::timeoutHandler> getTimeoutHandler() { return {}; } void setTracer(const shared_ptr<vn::tracer>&) {} shared_ptr<vn::tracer> getTracer() { return {}; }
	str data; Chunking ch; Rng rng; size_t pos = 0; bool ended = false, blocked = false; unsigned st = 0;
};

// ---------------------------------------------------------------- what was read
static str upper(str s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
#define NN(p, what) do { if (!(p)) fail("missing-component", str(what) + " is missing in an accepted reply"); } while (0)
static str dS(const P::xstring* s) { NN(s, "string"); return q(s->value); }
static str dN(const P::xstring* s) { NN(s, "nstring"); return s->isNIL ? "NIL" : q(s->value); }
static str dNum(const P::number* n) { NN(n, "number"); return std::to_string(n->value); }
static str dUids(const P::uid_set* u) { str o; NN(u, "uid set"); for (; u; u = u->next_uid_set.get()) { if (!o.empty()) o += ","; if (u->uid_range) o += dNum(u->uid_range->uniqueid1.get()) + ":" + dNum(u->uid_range->uniqueid2.get()); else o += dNum(u->uniqueid.get()); } return o; }
static str dSeqNum(const P::seq_number* n) { NN(n, "seq_number"); return n->star ? "*" : dNum(n->number.get()); }
static str dSeq(const P::sequence_set* u) { str o; NN(u, "sequence set"); for (; u; u = u->nextSet.get()) { if (!o.empty()) o += ","; if (u->range) o += dSeqNum(u->range->first.get()) + ":" + dSeqNum(u->range->last.get()); else o += dSeqNum(u->number.get()); } return o; }
static str dFlags(const P::flag_list* l) {
	NN(l, "flag list"); str o = "(";
	for (auto& f : l->flags) { NN(f, "flag"); if (o.size() > 1) o += " "; switch (f->type) { case P::flag::ANSWERED: o += "\\answered"; break; case P::flag::FLAGGED: o += "\\flagged"; break; case P::flag::DELETED: o += "\\deleted"; break; case P::flag::SEEN: o += "\\seen"; break; case P::flag::DRAFT: o += "\\draft"; break;
		case P::flag::STAR: o += "\\*"; break; case P::flag::KEYWORD_OR_EXTENSION: NN(f->flag_keyword, "keyword"); o += f->flag_keyword->value; break; default: o += "\\" + f->name; } }
	return o + ")";
}
static const char* const mbFlags[] = {"HasChildren", "HasNoChildren", "All", "Archive", "Drafts", "Flagged", "Junk", "Sent", "Trash", "Important", "?", "Marked", "Noinferiors", "Noselect", "Unmarked"};
static str dMbFlags(const P::mailbox_flag_list* l) { NN(l, "mailbox flags"); str o = "("; for (auto& f : l->flags) { NN(f, "mailbox flag"); if (o.size() > 1) o += " "; o += f->type == P::mailbox_flag::UNKNOWN ? f->name : "\\" + lower(mbFlags[f->type]); } return o + ")"; }
static str dMailbox(const P::mailbox* m) { NN(m, "mailbox"); return m->type == P::mailbox::INBOX ? "INBOX" : q(m->name); }
static str dCaps(const P::capability_data* c) { NN(c, "capabilities"); str o = "caps"; for (auto& x : c->capabilities) { NN(x, "capability"); o += " "; if (x->auth_type) o += "auth:" + x->auth_type->name; else { NN(x->atom, "capability atom"); o += x->atom->value; } } return o; }
static str dAddrs(const P::address_list* l) { NN(l, "address list"); str o = "["; for (auto& a : l->addresses) { NN(a, "address"); o += "(" + dN(a->addr_name.get()) + " " + dN(a->addr_adl.get()) + " " + dN(a->addr_mailbox.get()) + " " + dN(a->addr_host.get()) + ")"; } return o + "]"; }
static str dEnv(const P::envelope* e) {
	NN(e, "envelope"); return "env(" + dN(e->env_date.get()) + " " + dN(e->env_subject.get()) + " " + dAddrs(e->env_from.get()) + dAddrs(e->env_sender.get()) + dAddrs(e->env_reply_to.get()) + dAddrs(e->env_to.get()) + dAddrs(e->env_cc.get()) + dAddrs(e->env_bcc.get()) + " " + dN(e->env_in_reply_to.get()) + " " + dN(e->env_message_id.get()) + ")";
}
static str dParams(const P::body_fld_param* p) { NN(p, "parameters"); str o = "{"; for (auto& i : p->items) { NN(i, "parameter"); o += dS(i->string1.get()) + "=" + dS(i->string2.get()) + ";"; } return o + "}"; }
static str dFields(const P::body_fields* f) { NN(f, "body fields"); return dParams(f->body_fld_param.get()) + " " + dN(f->body_fld_id.get()) + " " + dN(f->body_fld_desc.get()) + " " + dN(f->body_fld_enc.get()) + " " + dNum(f->body_fld_octets.get()); }
static str dDsp(const P::body_fld_dsp* d) { if (!d || !d->str()) return "nodsp"; return "dsp(" + dS(d->str()) + dParams(d->body_fld_param()) + ")"; }
static str dLang(const P::body_fld_lang* l) { str o = "lang("; if (l) for (auto& s : l->strings) o += dN(s.get()) + " "; return o + ")"; }
static str dExt(const P::body_extension* e) { NN(e, "body extension"); if (e->nstring) return dN(e->nstring.get()); if (e->number) return dNum(e->number.get()); str o = "("; for (auto& x : e->body_extensions) o += dExt(x.get()) + " "; return o + ")"; }
static str dBody(const P::body* b) {
	NN(b, "body"); str o;
	if (b->body_type_mpart) {
		auto& m = *b->body_type_mpart; o = "multi("; for (auto& k : m.list) o += dBody(k.get()); o += " " + dS(m.media_subtype.get());
		if (m.body_ext_mpart) { auto& x = *m.body_ext_mpart; o += " ext " + dParams(x.body_fld_param.get()) + dDsp(x.body_fld_dsp.get()) + dLang(x.body_fld_lang.get()); for (auto& e : x.body_extensions) o += " x" + dExt(e.get()); }
		return o + ")";
	}
	NN(b->body_type_1part, "part"); auto& p = *b->body_type_1part;
	if (p.body_type_text) o = "text(" + dS(p.body_type_text->media_text->media_subtype.get()) + " " + dFields(p.body_type_text->body_fields.get()) + " " + dNum(p.body_type_text->body_fld_lines.get());
	else if (p.body_type_msg) o = "msg(" + dS(p.body_type_msg->media_message->media_subtype.get()) + " " + dFields(p.body_type_msg->body_fields.get()) + " " + dEnv(p.body_type_msg->envelope.get()) + dBody(p.body_type_msg->body.get()) + " " + dNum(p.body_type_msg->body_fld_lines.get());
	else { NN(p.body_type_basic, "basic part"); o = "basic(" + dS(p.body_type_basic->media_basic->media_type.get()) + "/" + dS(p.body_type_basic->media_basic->media_subtype.get()) + " " + dFields(p.body_type_basic->body_fields.get()); }
	if (p.body_ext_1part) { auto& x = *p.body_ext_1part; o += " ext " + dN(x.body_fld_md5.get()) + dDsp(x.body_fld_dsp.get()) + dLang(x.body_fld_lang.get()); for (auto& e : x.body_extensions) o += " x" + dExt(e.get()); }
	return o + ")";
}
static str dHdrs(const P::header_list* l) { NN(l, "header list"); str o = "("; for (auto& f : l->fld_names) o += q(f->value) + " "; return o + ")"; }
static str dSecText(const P::section_text* t) { switch (t->type) { case P::section_text::HEADER: return "HEADER"; case P::section_text::HEADER_FIELDS: return "HEADER.FIELDS" + dHdrs(t->header_list.get()); case P::section_text::HEADER_FIELDS_NOT: return "HEADER.FIELDS.NOT" + dHdrs(t->header_list.get()); case P::section_text::MIME: return "MIME"; default: return "TEXT"; } }
static str dSection(const P::section* s) { str o = "["; if (s->section_text1) o += dSecText(s->section_text1.get()); for (auto n : s->nz_numbers) o += std::to_string(n) + "."; if (s->section_text2) o += dSecText(s->section_text2.get()); return o + "]"; }
static str dItem(const P::msg_att_item* i) {
	NN(i, "FETCH item");
	switch (i->type) {
		case P::msg_att_item::ENVELOPE: return dEnv(i->envelope.get()); case P::msg_att_item::FLAGS: return "flags" + dFlags(i->flag_list.get()); case P::msg_att_item::INTERNALDATE: NN(i->date_time, "date"); return "date";
		case P::msg_att_item::RFC822: return "rfc822 " + dN(i->nstring.get()); case P::msg_att_item::RFC822_HEADER: return "rfc822.header " + dN(i->nstring.get()); case P::msg_att_item::RFC822_TEXT: return "rfc822.text " + dN(i->nstring.get()); case P::msg_att_item::RFC822_SIZE: return "size " + dNum(i->number.get());
		case P::msg_att_item::BODY: return "body " + dBody(i->body.get()); case P::msg_att_item::BODY_STRUCTURE: return "bodystructure " + dBody(i->body.get());
		case P::msg_att_item::BODY_SECTION: NN(i->section, "section"); return "body" + dSection(i->section.get()) + (i->number ? "<" + dNum(i->number.get()) + ">" : "") + " " + dN(i->nstring.get());
		case P::msg_att_item::UID: return "uid " + dNum(i->uniqueid.get()); case P::msg_att_item::MODSEQ: NN(i->mod_sequence_value, "modseq"); return "modseq " + std::to_string(i->mod_sequence_value->value);
	}
	return "?";
}
static str dCode(const P::resp_text_code* c) {
	if (!c) return ""; typedef P::resp_text_code C;
	auto nz = [&] { return dNum(c->nz_number.get()); };
	switch (c->type) {
		case C::ALERT: return "[ALERT]"; case C::PARSE: return "[PARSE]"; case C::CAPABILITY: return "[" + dCaps(c->capability_data.get()) + "]"; case C::PERMANENTFLAGS: return "[PERM" + dFlags(c->flag_list.get()) + "]"; case C::READ_ONLY: return "[RO]"; case C::READ_WRITE: return "[RW]"; case C::TRYCREATE: return "[TRYCREATE]";
		case C::UIDVALIDITY: return "[UIDVALIDITY " + nz() + "]"; case C::UIDNEXT: return "[UIDNEXT " + nz() + "]"; case C::UNSEEN: return "[UNSEEN " + nz() + "]"; case C::HIGHESTMODSEQ: NN(c->mod_sequence_value, "modseq"); return "[HMS " + std::to_string(c->mod_sequence_value->value) + "]"; case C::NOMODSEQ: return "[NOMODSEQ]";
		case C::MODIFIED: return "[MODIFIED " + dSeq(c->sequence_set.get()) + "]"; case C::APPENDUID: return "[APPENDUID " + nz() + " " + dUids(c->uid_set.get()) + "]"; case C::COPYUID: return "[COPYUID " + nz() + " " + dUids(c->uid_set.get()) + " " + dUids(c->uid_set2.get()) + "]"; case C::UIDNOTSTICKY: return "[UIDNOTSTICKY]";
		default: NN(c->atom, "code atom"); return "[other " + c->atom->value + (c->text ? " " + q(c->text->value) : "") + "]";
	}
}
static str dText(const P::resp_text* t) { NN(t, "resp_text"); return dCode(t->resp_text_code.get()) + q(t->text); }
static str dState(const P::resp_cond_state* s) { NN(s, "state"); return str(s->status == P::resp_cond_state::OK ? "OK" : s->status == P::resp_cond_state::NO ? "NO" : "BAD") + " " + dText(s->resp_text.get()); }
static str dList(const P::mailbox_list* l) { NN(l, "list"); return dMbFlags(l->mailbox_flag_list.get()) + " " + (l->quoted_char ? str(1, l->quoted_char) : str("NIL")) + " " + dMailbox(l->mailbox.get()); }
static str dData(const P::response_data* d) {
	NN(d, "response data");
	if (d->resp_cond_state) return dState(d->resp_cond_state.get());
	if (d->resp_cond_bye) return "BYE " + dText(d->resp_cond_bye->resp_text.get());
	if (d->capability_data) return dCaps(d->capability_data.get());
	if (d->message_data) { auto& m = *d->message_data; if (m.type == P::message_data::EXPUNGE) return std::to_string(m.number) + " EXPUNGE"; NN(m.msg_att, "FETCH data"); str o = std::to_string(m.number) + " FETCH"; for (auto& i : m.msg_att->items) o += " " + dItem(i.get()); return o; }
	NN(d->mailbox_data, "mailbox data"); auto& m = *d->mailbox_data; typedef P::mailbox_data M;
	switch (m.type) {
		case M::FLAGS: return "FLAGS " + dMbFlags(m.mailbox_flag_list.get()); case M::LIST: return "LIST " + dList(m.mailbox_list.get()); case M::LSUB: return "LSUB " + dList(m.mailbox_list.get()); case M::MAILBOX: NN(m.text, "text"); return "MAILBOX " + q(m.text->value);
		case M::SEARCH: { str o = "SEARCH"; for (auto& n : m.search_nz_number_list) o += " " + dNum(n.get()); return o; }
		case M::STATUS: { str o = "STATUS " + dMailbox(m.mailbox.get()) + " ("; if (m.status_att_list) for (auto& a : m.status_att_list->values) { NN(a, "status"); static const char* const n[] = {"HIGHESTMODSEQ", "MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN"}; o += str(n[a->type]) + "="; if (a->type == P::status_att_val::HIGHESTMODSEQ) { NN(a->value_as_mod_sequence_value(), "modseq"); o += std::to_string(a->value_as_mod_sequence_value()->value); } else o += dNum(a->value_as_number()); o += " "; } return o + ")"; }
		case M::EXISTS: return dNum(m.number.get()) + " EXISTS"; case M::RECENT: return dNum(m.number.get()) + " RECENT";
	}
	return "?";
}
static str dResp(const P::response* r) {
	str o; for (auto& c : r->continue_req_or_response_data) { NN(c, "data"); if (c->continue_req) o += "+ " + dText(c->continue_req->resp_text.get()) + "\n"; else o += "* " + dData(c->response_data.get()) + "\n"; }
	if (r->response_done) { if (r->response_done->response_tagged) o += r->response_done->response_tagged->tag->tagString + " " + dState(r->response_done->response_tagged->resp_cond_state.get()) + "\n"; else { NN(r->response_done->response_fatal, "fatal"); o += "fatal " + dText(r->response_done->response_fatal->resp_cond_bye->resp_text.get()) + "\n"; } }
	return o;
}

// ---------------------------------------------------------------- what a server may say
struct Part { bool multi = false, msg = false; str type, sub, name, disp; unsigned long size = 0; std::vector<Part> kids; };
struct G {
	G(Rng& r, bool strict) : r(r), strict(strict) {}
	Rng& r; bool strict; str w, d; std::vector<Part> bodies; bool handler = false, takes = false; std::vector<std::pair<int, str>> sinks; size_t literals = 0, quoteds = 0; std::set<str> kinds; unsigned litBias = 3; bool noLit = false;
	str rc(const str& s) { str o = s; int m = (int)r.below(4); if (m == 0) o = lower(s); else if (m == 1) for (auto& c : o) if (r.coin()) c = lower(str(1, c))[0]; return o; }   // any case
	void both(const str& s) { w += s; d += s; }
	unsigned long num(bool nz = false) { unsigned long v; switch (r.below(6)) { case 0: v = r.below(3); break; case 1: v = 4294967295ul - r.below(3); break; case 2: v = r.below(4294967296ul); break; default: v = r.below(5000); } if (nz && !v) v = 1; w += std::to_string(v); return v; }
	str atomText(bool flag = false) { static const str ac = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$&'+,-./:;<=>?@^_`|}~"; (void)flag; str s = r.from(ac, 1 + r.below(10)); if (flag && r.chance(1, 8)) s.insert(r.below(s.size() + 1), "["); return s; }
	// a string: quoted or literal
	str strval() {
		size_t n = r.chance(1, 40) ? r.below(6000) : r.chance(1, 5) ? 0 : r.below(24); int k = (int)r.below(5); str s;
		for (size_t i = 0; i < n; ++i) { unsigned char c; switch (k) { case 0: c = (unsigned char)(1 + r.below(255)); break; case 1: c = (unsigned char)"\"\\(){}*% \r\n]["[r.below(13)]; break; default: c = (unsigned char)(32 + r.below(95)); } s += (char)c; }
		if (r.chance(1, 30)) s = r.pickc({"NIL", "nil", "{3}", "{3}\r\n", ")", "*", "a001 OK done\r\n", "text", "message", "\r\n", "\r\n* 1 EXISTS\r\n", "]", "()"});
		return s;
	}
	void sendStr(const str& s) {
		bool can = true; for (unsigned char c : s) if (c == '\r' || c == '\n' || c > 127 || c == 0) can = false;
		if (can && (noLit || !r.chance(1, litBias))) { w += '"'; for (char c : s) { if (c == '"' || c == '\\') w += '\\'; w += c; } w += '"'; ++quoteds; }
		else { w += "{" + std::to_string(s.size()) + "}\r\n" + s; ++literals; }
	}
	str string() { str s; do s = strval(); while (noLit && s.find_first_of("\r\n") != str::npos); if (noLit) for (auto& c : s) if ((unsigned char)c > 127) c = 'x'; sendStr(s); return s; }
	void xs() { d += q(string()); }
	void ns() { if (r.chance(1, 3)) { w += rc("NIL"); d += "NIL"; } else xs(); }
	str astr() { if (r.coin()) { str s = atomText(); if (!strict && r.chance(1, 10)) s += "]"; w += s; return s; } return string(); }
	void sp() { w += " "; }
	void mailbox() { if (r.chance(1, 4)) { str s = rc("INBOX"); if (r.chance(1, 3)) sendStr(s); else w += s; d += "INBOX"; } else { str s; size_t b = w.size(); s = astr(); if (upper(s) == "INBOX") { w.resize(b); s = "x"; w += s; } d += q(s); } }
	void flags(bool perm, bool fetch) {
		w += "("; d += "("; size_t n = r.below(5);
		for (size_t i = 0; i < n; ++i) { if (i) both(" "); int k = (int)r.below(perm ? 9 : 8);
			if (k < 5) { static const char* const f[] = {"Answered", "Flagged", "Deleted", "Seen", "Draft"}; w += "\\" + rc(f[k]); d += "\\" + lower(f[k]); } else if (k == 5) { str a = fetch ? "Recent" : atomText(); str lo = lower(a); if (lo == "answered" || lo == "flagged" || lo == "deleted" || lo == "seen" || lo == "draft") a = "q"; w += "\\" + a; d += "\\" + lower(a); } else if (k == 8) both("\\*"); else { str a = r.chance(1, 3) ? r.pickc({"$Forwarded", "$MDNSent", "NonJunk", "$label1"}) : atomText(true); both(a); } }
		w += ")"; d += ")";
	}
	void mbflags(bool list) {
		w += "("; d += "("; size_t n = r.below(4);
		for (size_t i = 0; i < n; ++i) { if (i) both(" "); if (list && r.chance(3, 4)) { int k; do k = (int)r.below(15); while (k == 10); w += "\\" + rc(mbFlags[k]); d += "\\" + lower(mbFlags[k]); } else { str a = r.chance(1, 4) ? r.pickc({"\\NonExistent", "\\Subscribed", "\\Remote", "\\Answered", "\\Seen", "\\Deleted"}) : (r.coin() ? "\\" : "") + atomText(true); str lo = lower(a); if (lo[0] == '\\') for (auto* m : mbFlags) if (lo == "\\" + lower(m)) { a = lo = "\\q"; } w += a; d += lo; } }
		w += ")"; d += ")";
	}
	void addrs() { if (r.coin()) { w += rc("NIL"); d += "[]"; return; } w += "("; d += "["; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) { both("("); ns(); both(" "); ns(); both(" "); ns(); both(" "); ns(); both(")"); } w += ")"; d += "]"; }
	void envelope() { w += "("; d += "env("; ns(); both(" "); ns(); both(" "); for (int i = 0; i < 6; ++i) { addrs(); w += " "; } d += " "; ns(); both(" "); ns(); both(")"); }
	void params(Part* p = nullptr) {
		if (r.chance(1, 3)) { w += rc("NIL"); d += "{}"; return; } w += "("; d += "{"; size_t n = 1 + r.below(3); bool named = false;
		for (size_t i = 0; i < n; ++i) { if (i) sp(); str k, v;
			if (p && !named && r.chance(1, 3)) { k = rc("NAME"); sendStr(k); named = true; } else { size_t b; do { b = w.size(); k = string(); if (upper(k) == "NAME") w.resize(b); } while (upper(k) == "NAME"); }
			d += q(k) + "="; sp(); v = string(); d += q(v) + ";"; if (p && upper(k) == "NAME") p->name = v; }
		w += ")"; d += "}";
	}
	void fields(Part& p) { params(&p); both(" "); ns(); both(" "); ns(); both(" "); if (r.chance(3, 4)) { str e = rc(r.pickc({"7BIT", "8BIT", "BINARY", "BASE64", "QUOTED-PRINTABLE"})); w += "\"" + e + "\""; d += q(e); } else { str s = string(); d += q(s); } both(" "); p.size = num(); d += std::to_string(p.size); }
	void dsp(Part* p) { if (r.coin()) { w += rc("NIL"); d += "nodsp"; return; } w += "("; str s; if (r.coin()) { s = rc(r.pickc({"INLINE", "ATTACHMENT"})); sendStr(s); } else s = string(); if (p) p->disp = s; d += "dsp(" + q(s); sp(); params(); w += ")"; d += ")"; }
	void lang() { d += "lang("; if (r.coin()) { ns(); d += " "; } else { w += "("; size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) { if (i) sp(); xs(); d += " "; } w += ")"; } d += ")"; }
	void ext(int depth) { switch (r.below(depth > 3 ? 2 : 3)) { case 0: ns(); break; case 1: d += std::to_string(num()); break; default: { both("("); size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) { if (i) sp(); ext(depth + 1); d += " "; } both(")"); } } }
	void extTail(Part* p) { int k = (int)r.below(4); if (k == 0) { d += "nodsplang()"; return; } sp(); dsp(p); if (k == 1) { d += "lang()"; return; } sp(); lang(); if (k == 2) return; sp(); d += " x"; ns(); size_t n = r.below(3); for (size_t i = 0; i < n; ++i) { sp(); d += " x"; ext(0); } }
	Part body(bool full, int depth) {
		Part p; w += "(";
		int k = (int)r.below(depth > 4 ? 2 : 5);
		if (k >= 3) { // multipart
			p.multi = true; p.type = "multipart"; d += "multi("; size_t n = 1 + r.below(r.chance(1, 10) ? 9 : 3); for (size_t i = 0; i < n; ++i) p.kids.push_back(body(full, depth + 1)); both(" "); p.sub = r.coin() ? rc("MIXED") : atomText(); sendStr(p.sub); d += q(p.sub);
			if (full && r.chance(2, 3)) { sp(); d += " ext "; params(); extTail(nullptr); }
			w += ")"; d += ")"; return p;
		}
		if (k == 0) { p.type = rc("TEXT"); w += "\"" + p.type + "\" "; p.sub = r.coin() ? rc("PLAIN") : atomText(); sendStr(p.sub); d += "text(" + q(p.sub) + " "; sp(); fields(p); both(" "); d += std::to_string(num()); }
		else if (k == 2) { p.msg = true; p.type = rc("MESSAGE"); p.sub = rc("RFC822"); w += "\"" + p.type + "\" \"" + p.sub + "\""; d += "msg(" + q(p.sub) + " "; sp(); fields(p); both(" "); envelope(); sp(); body(full, depth + 1); both(" "); d += std::to_string(num()); }
		else { do p.type = r.coin() ? rc(r.pickc({"APPLICATION", "AUDIO", "IMAGE", "MESSAGE", "VIDEO"})) : atomText(); while (lower(p.type) == "text"); do p.sub = r.coin() ? str("DELIVERY-STATUS") : atomText(); while (lower(p.sub) == "rfc822"); sendStr(p.type); sp(); sendStr(p.sub); d += "basic(" + q(p.type) + "/" + q(p.sub) + " "; sp(); fields(p); }
		if (full && r.chance(2, 3)) { sp(); d += " ext "; ns(); extTail(&p); }
		w += ")"; d += ")"; return p;
	}
	void secText(bool mime) {
		switch (r.below(mime ? 5 : 4)) { case 0: w += rc("HEADER"); d += "HEADER"; break; case 1: w += rc("TEXT"); d += "TEXT"; break; case 4: w += rc("MIME"); d += "MIME"; break;
			default: { bool no = r.coin(); w += rc(no ? "HEADER.FIELDS.NOT" : "HEADER.FIELDS") + " ("; d += no ? "HEADER.FIELDS.NOT(" : "HEADER.FIELDS("; size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) { if (i) sp(); str s; if (r.coin()) { s = r.pickc({"Date", "From", "Subject", "X-Mailer"}); w += s; } else s = astr(); d += q(s) + " "; } both(")"); } }
	}
	void content(int type) { // a string the application may redirect
		size_t before = w.size(); (void)before;
		if (r.chance(1, 5)) { w += rc("NIL"); d += "NIL"; return; }
		str s = string(); if (handler && takes) { d += q("[literal-handler]"); sinks.push_back({type, s}); } else { d += q(s); if (handler) sinks.push_back({-type - 1, ""}); }
	}
	void item() {
		switch (r.below(13)) {
			case 0: w += rc("ENVELOPE") + " "; envelope(); kinds.insert("envelope"); break;
			case 1: w += rc("FLAGS") + " "; d += "flags"; flags(false, true); break;
			case 2: { w += rc("INTERNALDATE") + " \""; char b[64]; int day = 1 + (int)r.below(28); static const char* const mon[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(b, sizeof b, "%2d-%s-%04d %02d:%02d:%02d %c%02d%02d", day, mon[r.below(12)], 1970 + (int)r.below(100), (int)r.below(24), (int)r.below(60), (int)r.below(60), r.coin() ? '+' : '-', (int)r.below(14), (int)r.below(60)); w += str(b) + "\""; d += "date"; break; }
			case 3: w += rc("RFC822") + " "; d += "rfc822 "; ns(); kinds.insert("rfc822"); break;
			case 4: w += rc("RFC822.HEADER") + " "; d += "rfc822.header "; ns(); break;
			case 5: w += rc("RFC822.TEXT") + " "; d += "rfc822.text "; content(P::msg_att_item::RFC822_TEXT); kinds.insert("rfc822.text"); break;
			case 6: { w += rc("RFC822.SIZE") + " "; unsigned long v; if (r.chance(1, 6)) { v = 4294967296ul + r.below(1ul << 40); w += std::to_string(v); } else v = num(); d += "size " + std::to_string(v); break; }
			case 7: w += rc("BODY") + " "; d += "body "; bodies.push_back(body(false, 0)); kinds.insert("body"); break;
			case 8: case 9: w += rc("BODYSTRUCTURE") + " "; d += "bodystructure "; bodies.push_back(body(true, 0)); kinds.insert("bodystructure"); break;
			case 10: { w += rc("BODY") + "["; d += "body["; if (r.chance(3, 4)) { if (r.coin()) secText(false); else { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) { if (i) w += "."; d += std::to_string(num(true)) + "."; } if (r.coin()) { w += "."; secText(true); } } } both("]"); if (r.chance(1, 4)) { both("<"); d += std::to_string(num()); both(">"); } both(" "); content(P::msg_att_item::BODY_SECTION); kinds.insert("section"); break; }
			case 11: w += rc("UID") + " "; d += "uid "; d += std::to_string(num(true)); break;
			case 12: { w += rc("MODSEQ") + " ("; unsigned long v = 1 + r.below(1ul << 62); w += std::to_string(v) + ")"; d += "modseq " + std::to_string(v); break; }
		}
	}
	void uidset() { size_t n = 1 + r.below(r.chance(1, 10) ? 300 : 5); for (size_t i = 0; i < n; ++i) { if (i) both(","); d += std::to_string(num(true)); if (r.chance(1, 3)) { both(":"); d += std::to_string(num(true)); } } }
	void seqnum() { if (r.chance(1, 6)) both("*"); else d += std::to_string(num(true)); }
	void seqset() { size_t n = 1 + r.below(5); for (size_t i = 0; i < n; ++i) { if (i) both(","); seqnum(); if (r.coin()) { both(":"); seqnum(); } } }
	void caps() { w += rc("CAPABILITY"); d += "caps"; size_t n = 1 + r.below(6); for (size_t i = 0; i < n; ++i) { both(" "); if (r.chance(1, 3)) { str a = r.coin() ? r.pickc({"PLAIN", "GSSAPI", "CRAM-MD5", "SCRAM-SHA-1"}) : atomText(); w += rc("AUTH=") + a; d += "auth:" + lower(a); } else { str a = r.coin() ? r.pickc({"IMAP4rev1", "STARTTLS", "LOGINDISABLED", "UIDPLUS", "CONDSTORE", "ID", "A", "AU", "AUT", "AUTH"}) : atomText(); if (lower(a).compare(0, 5, "auth=") == 0) a = "z"; both(a); } } }
	str text(char except = 0, bool first = true) {
		size_t n = 1 + r.below(30); str s; for (size_t i = 0; i < n; ++i) { char c; do c = (char)(r.chance(1, 20) ? 1 + r.below(127) : !strict && r.chance(1, 20) ? 128 + r.below(128) : 32 + r.below(95)); while (c == '\r' || c == '\n' || c == except || (i == 0 && (c == ' ' || c == '\t' || (first && (c == '[' || c == '='))))); s += c; }
		w += s; return s;
	}
	void respText() {
		if (r.chance(1, 2)) {
			both("["); size_t keep = d.size();
			switch (r.below(18)) {
				case 0: w += rc("ALERT"); d += "ALERT"; break; case 1: w += rc("PARSE"); d += "PARSE"; break; case 2: caps(); break; case 3: w += rc("PERMANENTFLAGS") + " "; d += "PERM"; flags(true, false); break; case 4: w += rc("READ-ONLY"); d += "RO"; break; case 5: w += rc("READ-WRITE"); d += "RW"; break; case 6: w += rc("TRYCREATE"); d += "TRYCREATE"; break;
				case 7: case 8: case 9: { static const char* const n[] = {"UIDVALIDITY", "UIDNEXT", "UNSEEN"}; str k = n[r.below(3)]; w += rc(k) + " "; d += k + " "; d += std::to_string(num(true)); break; }
				case 10: { unsigned long v = 1 + r.below(1ul << 62); w += rc("HIGHESTMODSEQ") + " " + std::to_string(v); d += "HMS " + std::to_string(v); break; } case 11: w += rc("NOMODSEQ"); d += "NOMODSEQ"; break; case 12: w += rc("MODIFIED") + " "; d += "MODIFIED "; seqset(); break;
				case 13: w += rc("APPENDUID") + " "; d += "APPENDUID "; d += std::to_string(num(true)); both(" "); uidset(); break; case 14: w += rc("COPYUID") + " "; d += "COPYUID "; d += std::to_string(num(true)); both(" "); uidset(); both(" "); uidset(); break; case 15: w += rc("UIDNOTSTICKY"); d += "UIDNOTSTICKY"; break;
				default: { str a = "X" + atomText(); d += "other "; both(a); if (r.coin()) { both(" "); d += q(text(']', false)); } }
			}
			(void)keep; both("]"); w += " ";
		}
		d += q(text());
	}
	void state(bool tagged) { (void)tagged; str s = r.pickc({"OK", "NO", "BAD"}); w += rc(s) + " "; d += s + " "; respText(); }
	std::vector<str> lines;
	void data() { size_t b = w.size(); data1(); lines.push_back(w.substr(b)); }
	void data1() {
		w += "* "; d += "* ";
		switch (r.below(14)) {
			case 0: state(false); kinds.insert("state"); break; case 1: w += rc("BYE") + " "; d += "BYE "; respText(); kinds.insert("bye"); break;
			case 2: w += rc("FLAGS") + " "; d += "FLAGS "; mbflags(false); kinds.insert("flags"); break;
			case 3: case 4: { bool l = r.coin(); w += rc(l ? "LIST" : "LSUB") + " "; d += l ? "LIST " : "LSUB "; mbflags(true); both(" "); if (r.chance(1, 4)) { w += rc("NIL"); d += "NIL"; } else { char c = r.chance(1, 4) ? (char)(33 + r.below(94)) : r.coin() ? '/' : '.'; w += str("\"") + (c == '"' || c == '\\' ? "\\" : "") + c + "\""; d += c; } both(" "); mailbox(); kinds.insert("list"); break; }
			case 5: { w += rc("SEARCH"); d += "SEARCH"; size_t n = r.below(r.chance(1, 10) ? 500 : 6); for (size_t i = 0; i < n; ++i) { both(" "); d += std::to_string(num(true)); } kinds.insert("search"); break; }
			case 6: { w += rc("STATUS") + " "; d += "STATUS "; mailbox(); both(" ("); size_t n = r.below(6); for (size_t i = 0; i < n; ++i) { if (i) w += " "; static const char* const a[] = {"HIGHESTMODSEQ", "MESSAGES", "RECENT", "UIDNEXT", "UIDVALIDITY", "UNSEEN"}; size_t k = r.below(6); w += rc(a[k]) + " "; d += str(a[k]) + "="; if (k == 0) { unsigned long v = 1 + r.below(1ul << 62); both(std::to_string(v)); } else d += std::to_string(num()); d += " "; } both(")"); kinds.insert("status"); break; }
			case 7: { d += std::to_string(num()); bool e = r.coin(); w += " " + rc(e ? "EXISTS" : "RECENT"); d += e ? " EXISTS" : " RECENT"; kinds.insert("exists"); break; }
			case 8: d += std::to_string(num(true)); w += " " + rc("EXPUNGE"); d += " EXPUNGE"; kinds.insert("expunge"); break;
			case 9: caps(); kinds.insert("capability"); break;
			default: { d += std::to_string(num(true)); w += " " + rc("FETCH") + " ("; d += " FETCH"; size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) { if (i) w += " "; d += " "; item(); } w += ")"; kinds.insert("fetch"); break; }
		}
		w += "\r\n"; d += "\n";
	}
	void response(const str& tag, bool mayContinue, bool& continued) {
		size_t n = r.below(4); for (size_t i = 0; i < n; ++i) data();
		continued = mayContinue && r.chance(1, 5);
		if (continued) { w += "+"; d += "+ "; if (!strict && r.chance(1, 4)) { d += q(""); if (r.coin()) w += " "; } else { w += " "; if (r.coin()) respText(); else { str b = r.from("abcdefghijABCDEFGHIJ0123456789+/", 4 * r.below(12)); w += b; d += q(b); } } w += "\r\n"; d += "\n"; kinds.insert("continue"); return; }
		both(tag + " "); state(true); w += "\r\n"; d += "\n";
	}
};
struct Prog : vmime::utility::progressListener {
	int phase = 0; vmime::size_t total = 0, last = 0; bool ok = true; size_t starts = 0, stops = 0;
	void start(const vmime::size_t t) { if (phase) ok = false; phase = 1; total = t; last = 0; ++starts; }
	void progress(const vmime::size_t c, const vmime::size_t t) { if (phase != 1 || t != total || c < last || c > t) ok = false; last = c; }
	void stop(const vmime::size_t t) { if (phase != 1 || t != total) ok = false; phase = 0; ++stops; }
};
struct Handler : P::literalHandler {
	struct T : target { T(vmime::utility::progressListener* p, str& s) : target(p), s(s) {} void putData(const vmime::string& c) { s += c; } size_t getBytesWritten() const { return s.size(); } str& s; };
	shared_ptr<target> targetFor(const P::component& comp, const int data) {
		auto* it = dynamic_cast<const P::msg_att_item*>(&comp); if (!it) { fail("handler-component", "the literal handler is asked about a component which is not a FETCH item"); }
		if (it->type != data) fail("handler-component", "data " + std::to_string(data) + " for an item of type " + std::to_string(it->type));
		++asked; types.push_back(data); if (!takes) { got.emplace_back(); return {}; }
		got.emplace_back(); return make_shared<T>(prog, got.back());
	}
	bool takes = true; std::list<str> got; std::vector<int> types; size_t asked = 0; vmime::utility::progressListener* prog = nullptr;
};
static void checkStructure(const Part& e, const vn::messagePart& p, size_t number, const str& at) {
	VH_EQ(lower(p.getType().getType()), lower(e.type), "structure", "type of part " + at); VH_EQ(lower(p.getType().getSubType()), lower(e.sub), "structure", "subtype of part " + at);
	VH_EQ(p.getNumber(), number, "structure", "number of part " + at);
	if (!e.multi) { VH_EQ(p.getSize(), (size_t)e.size, "structure", "size of part " + at); if (!e.msg) VH_EQ(p.getName(), e.name, "structure", "name of part " + at); }
	size_t n = p.getPartCount(); VH_EQ(n, e.kids.size(), "structure", "number of parts in " + at);
	for (size_t i = 0; i < n; ++i) checkStructure(e.kids[i], *p.getPartAt(i), i, at + "." + std::to_string(i + 1));
}
static void useReply(const P::response* resp) { // what the client does with replies
	vn::imap::IMAPFolderStatus st;
	auto code = [&](const P::resp_text* t) { if (t && t->resp_text_code) { st.updateFromResponse(*t->resp_text_code); if (t->resp_text_code->uid_set) vn::imap::IMAPUtils::buildMessageSet(*t->resp_text_code->uid_set); } };
	for (auto& c : resp->continue_req_or_response_data) if (c->response_data) {
		auto& rd = *c->response_data; if (rd.mailbox_data) { st.updateFromResponse(*rd.mailbox_data); if (rd.mailbox_data->mailbox_list) { vn::imap::IMAPUtils::stringToPath(rd.mailbox_data->mailbox_list->quoted_char, rd.mailbox_data->mailbox_list->mailbox->name); } }
		if (rd.resp_cond_state) code(rd.resp_cond_state->resp_text.get());
		if (rd.message_data && rd.message_data->msg_att) for (auto& i : rd.message_data->msg_att->items) { if (i->body) { vn::imap::IMAPMessageStructure s(i->body.get()); (void)s.getPartCount(); } if (i->flag_list) vn::imap::IMAPUtils::messageFlagsFromFlags(*i->flag_list); if (i->envelope) { vmime::mailboxList ml; vn::imap::IMAPUtils::convertAddressList(*i->envelope->env_from, ml); vn::imap::IMAPUtils::convertAddressList(*i->envelope->env_to, ml); } }
	}
	if (resp->response_done && resp->response_done->response_tagged) code(resp->response_done->response_tagged->resp_cond_state->resp_text.get());
}
static void conforming(Ctx& c) {
	Rng& r = c.rng; bool strict = r.chance(1, 3); G g(r, strict); g.litBias = (unsigned)(1 + r.below(6)); g.handler = r.chance(1, 3); g.takes = r.chance(2, 3);
	// one greeting, then replies to n commands; commands may be answered before the client asks for the reply (pipelining)
	bool greet = r.chance(1, 4); str gw, gd;
	if (greet) { int k = (int)r.below(3); g.w += "* " + g.rc(k == 0 ? "OK" : k == 1 ? "PREAUTH" : "BYE") + " "; g.d += str(k == 0 ? "OK" : k == 1 ? "PREAUTH" : "BYE") + " "; g.respText(); g.w += "\r\n"; gd = g.d; }
	size_t n = 1 + r.below(4); bool pipeline = r.chance(1, 3); std::vector<vn::imap::IMAPTag> tags; vn::imap::IMAPTag tag; for (size_t i = r.below(30); i--;) ++tag;
	std::vector<str> expect; std::vector<std::vector<Part>> bodies; std::vector<std::vector<std::pair<int, str>>> sinks;
	for (size_t i = 0; i < n; ++i) {
		tags.push_back(tag++); g.d.clear(); g.bodies.clear(); g.sinks.clear(); bool cont; g.response(tags.back(), !pipeline, cont); str d = g.d;
		expect.push_back(d); bodies.push_back(g.bodies); sinks.push_back(g.sinks);
		if (cont) { g.d.clear(); g.bodies.clear(); g.sinks.clear(); bool c2; tags.push_back(tags.back()); g.response(tags.back(), false, c2); expect.push_back(g.d); bodies.push_back(g.bodies); sinks.push_back(g.sinks); ++n; ++i; }
	}
	Chunking ch = netChunking(r); auto feed = make_shared<Feed>(g.w, ch, r.next());
	c.note(str(strict ? "strict" : "lax") + (g.handler ? g.takes ? " handler" : " idle handler" : "") + (pipeline ? " pipeline " : " ") + ch.describe() + " " + q(g.w.substr(0, 3000)));
	auto ps = make_shared<P>(); P& p = *ps; p.setSocket(feed); p.setStrict(strict); Prog prog;
	try {
		if (greet) { std::unique_ptr<P::greeting> gr(p.readGreeting()); str o = gr->resp_cond_bye ? "BYE " + dText(gr->resp_cond_bye->resp_text.get()) : str(gr->resp_cond_auth->condition == P::resp_cond_auth::OK ? "OK " : "PREAUTH ") + dText(gr->resp_cond_auth->resp_text.get()); VH_EQ(o, gd, "greeting", "greeting"); }
		std::vector<size_t> order; for (size_t i = 0; i < n; ++i) order.push_back(i);
		if (pipeline) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		std::list<Handler> hs;
		for (size_t i : order) {
			hs.emplace_back(); Handler& h = hs.back(); h.takes = g.takes; h.prog = r.coin() ? &prog : nullptr;
			std::unique_ptr<P::response> resp(p.readResponse(tags[i], g.handler ? &h : nullptr));
			VH_EQ(dResp(resp.get()), expect[i], "reply", "reply number " + std::to_string(i + 1));
			VH_EQ(resp->isBad(), expect[i].find(str(tags[i]) + " BAD ") != str::npos || expect[i].find("\n+ ") != str::npos || expect[i][0] == '+' || !resp->response_done, "isBad", "reply");
			if (g.handler && !pipeline) { VH_EQ(h.asked, sinks[i].size(), "handler", "strings offered to the handler"); auto it = h.got.begin(); for (size_t k = 0; k < sinks[i].size(); ++k, ++it) { VH_EQ(h.types[k], sinks[i][k].first < 0 ? -sinks[i][k].first - 1 : sinks[i][k].first, "handler", "kind of the string"); VH_EQ(*it, sinks[i][k].second, "handler", "redirected content"); } }
			VH_CHECK(prog.ok && prog.phase == 0, "progress", "progress events out of order");
			size_t b = 0; for (auto& x : resp->continue_req_or_response_data) if (x->response_data && x->response_data->message_data && x->response_data->message_data->msg_att) for (auto& it : x->response_data->message_data->msg_att->items) if (it->body) { vn::imap::IMAPMessageStructure s(it->body.get()); VH_EQ(s.getPartCount(), (size_t)1, "structure", "roots"); checkStructure(bodies[i][b++], *s.getPartAt(0), 0, "0"); c.count("structures"); }
			useReply(resp.get()); c.count("replies");
		}
		bool end = false; try { delete p.readResponse(tag); } catch (const vmime::exceptions::socket_exception&) { end = true; }
		VH_CHECK(end && feed->pos == feed->data.size(), "leftover", "the parser is not at the end of the replies");
	} catch (const vmime::exceptions::invalid_response& e) {
		str which; for (auto& l : g.lines) { vn::imap::IMAPTag t; auto q1 = make_shared<P>(); auto f = make_shared<Feed>(l + str(t) + " OK x\r\n", Chunking(), 1); q1->setSocket(f); q1->setStrict(strict); try { delete q1->readResponse(t); } catch (const vmime::exception&) { if (which.empty() || l.size() < which.size()) which = l; } }
		fail("refused", "a conforming reply was refused: " + q(which.empty() ? e.response().substr(0, 1000) : which)); }
	catch (const vmime::exception& e) { fail("exception", excName(e)); }
	catch (const std::exception& e) { fail("undocumented-exception", excName(e)); }
	for (auto& k : g.kinds) c.seen("kinds", k); c.seen("chunking", ch.describe()); c.count("literals", g.literals); c.count("quoted", g.quoteds);
	c.nontrivial(g.w);
}
static void hostile(Ctx& c) {
	Rng& r = c.rng; G g(r, r.coin()); g.litBias = 4; str w; vn::imap::IMAPTag tag; int kind = (int)r.below(5); bool cont;
	g.response(tag, true, cont); w = g.w; str what;
	if (kind <= 2) { // damaged replies
		size_t n = 1 + r.below(6); what = "damage";
		for (size_t i = 0; i < n && !w.empty(); ++i) { size_t at = r.below(w.size());
			switch (r.below(8)) { case 0: w[at] = (char)r.below(256); break; case 1: w.erase(at, 1 + r.below(5)); break; case 2: w.insert(at, 1, "(){}\"\\[]<>*+ \r\n%:,."[r.below(20)]); break; case 3: w.insert(at, w.substr(r.below(w.size()), r.below(60))); break; case 4: w.resize(at); break; case 5: w.insert(at, r.pickc({"NIL", "\r\n", "{5}\r\n", "{0}\r\n", "{4294967295}\r\n", "{18446744073709551615}\r\n", "{99999999999999999999999}\r\n", "((", "))", "()", "* ", "0", "4294967296", "18446744073709551617", "AUTH=", "[", "]", "\"\"", "\\*", " "})); break;
				case 6: { size_t e = w.find_first_of("( )", at); if (e != str::npos) w.erase(at, e - at + 1); break; } case 7: { size_t e = w.find(' ', at); if (e != str::npos) w.insert(e, 1 + r.below(3), ' '); break; } } }
	} else if (kind == 3) {
		static const char* const t[] = {"* 1 FETCH ()\r\n", "* CAPABILITY AUTH= AUTH=( X\r\n", "* STATUS x ()\r\n", "* STATUS x (MESSAGES)\r\n", "* 1 FETCH (BODY[HEADER.FIELDS (A B\r\n", "* 1 FETCH (FLAGS (\\Seen\r\n", "* 1 FETCH (FLAGS (\\Seen \\\r\n", "* LIST (\\\r\n", "* LIST () \"/\" \r\n", "* LIST () \"\" x\r\n", "* 0 FETCH (UID 1)\r\n", "* 1 FETCH (UID 0)\r\n", "* 1 FETCH (BODY ())\r\n", "* 1 FETCH (BODY (NIL NIL NIL NIL NIL NIL 1))\r\n", "* 1 FETCH (BODY (\"text\" \"plain\" () NIL NIL NIL 1 1))\r\n", "* 1 FETCH (ENVELOPE ())\r\n", "* 1 FETCH (BODY[]<\r\n",
			"+\r\n", "+ \r\n", "*\r\n", "* \r\n", " OK x\r\n", "\r\n", "* OK\r\n", "* OK \r\n", "* OK [\r\n", "* OK [] \r\n", "* OK [APPENDUID 1 1:] x\r\n", "* OK [COPYUID 1 2 ] x\r\n", "* OK [PERMANENTFLAGS (\r\n", "* BYE \r\n", "* SEARCH \r\n", "* SEARCH 0\r\n", "* 1 FETCH (INTERNALDATE \"99-Foo-99999 99:99:99 -9999\")\r\n", "* 1 FETCH (INTERNALDATE \"1-M-1 1:1:1 +4294967295\")\r\n", "* 1 FETCH (INTERNALDATE \"1-j-1 1:1:1 +1\")\r\n", "* OK =?us-ascii?Q?=41=?=\r\n", "* OK =?a?B?QUI=?= x\r\n", "* OK =??\r\n"};
		w = t[r.below(sizeof t / sizeof *t)]; what = "crafted " + q(w); if (r.coin()) w += str(tag) + " OK done\r\n";
	} else {
		size_t n = (size_t)1 << (4 + r.below(c.thorough ? 16 : 13)); str op; what = "repeated ";
		switch (r.below(12)) {
			case 0: op = "* 1 FETCH (BODY "; for (size_t i = 0; i < n; ++i) op += "("; what += "("; break;
			case 1: op = "* 1 FETCH (BODYSTRUCTURE (\"a\" \"b\" NIL NIL NIL \"7bit\" 1 NIL NIL NIL NIL "; for (size_t i = 0; i < n; ++i) op += "("; what += "ext ("; break;
			case 2: { op = "* OK [COPYUID 1 "; str s; for (size_t i = 0; i < n; ++i) { s += std::to_string(i + 1); s += i + 1 < n ? "," : ""; } op += s + " " + s + "] done"; what += "uid,"; break; }
			case 3: { op = "* OK [MODIFIED "; for (size_t i = 0; i < n; ++i) op += std::to_string(i + 1) + (i + 1 < n ? "," : "] x"); what += "seq,"; break; }
			case 4: op = "* 1 FETCH (BODY[HEADER.FIELDS ("; for (size_t i = 0; i < n; ++i) op += "A "; what += "fields"; break;
			case 5: op = "* 1 FETCH (FLAGS ("; for (size_t i = 0; i < n; ++i) op += "\\Seen "; op += "))"; what += "flags"; break;
			case 6: op = "* 1 FETCH (BODY "; for (size_t i = 0; i < n; ++i) op += "(\"message\" \"rfc822\" NIL NIL NIL \"7bit\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) "; what += "message"; break;
			case 7: op = "* 1 FETCH (ENVELOPE (NIL NIL ("; for (size_t i = 0; i < n / 4; ++i) op += "(NIL NIL \"a\" \"b\")"; op += ") NIL NIL NIL NIL NIL NIL NIL))"; what += "addresses"; break;
			case 8: op = "* SEARCH"; for (size_t i = 0; i < n; ++i) op += " " + std::to_string(i + 1); what += "search"; break;
			case 9: { op = "* 1 FETCH (BODY "; size_t k = std::min<size_t>(n, 3000); for (size_t i = 0; i < k; ++i) op += "("; op += "\"text\" \"plain\" NIL NIL NIL \"7bit\" 1 1)"; for (size_t i = 1; i < k; ++i) op += " \"mixed\")"; op += ")"; what += "nested multiparts"; break; }
			case 10: for (size_t i = 0; i < n / 8; ++i) op += "* 1 EXISTS\r\n"; op += "* 1 EXISTS"; what += "lines"; break;
			default: for (size_t i = 0; i < n; ++i) op += r.coin() ? "(\"" : "\" "; what += "noise";
		}
		w = op + "\r\n"; if (r.coin()) w += str(tag) + " OK done\r\n"; what += " x" + std::to_string(n);
	}
	c.note(what + " " + q(w.substr(0, 2000))); bool strict = r.coin();
	auto feed = make_shared<Feed>(w, kind == 4 ? Chunking() : netChunking(r), r.next()); auto ps = make_shared<P>(); P& p = *ps; p.setSocket(feed); p.setStrict(strict);
	size_t accepted = 0, refused = 0;
	for (int i = 0; i < 40; ++i) {
		Handler h; h.takes = r.coin(); bool use = r.coin();
		try { std::unique_ptr<P::response> resp(p.readResponse(tag, use ? &h : nullptr)); if (!resp) fail("null", "no reply and no error"); dResp(resp.get()); useReply(resp.get()); resp->isBad(); ++accepted; }
		catch (const vmime::exceptions::socket_exception&) { break; }
		catch (const vmime::exception&) { ++refused; }
		catch (const std::exception& e) { fail("undocumented-exception", excName(e)); }
	}
	VH_CHECK(feed->ended || accepted + refused >= 40, "progress", "the parser does not consume its input");
	c.count("hostile accepted", accepted); c.count("hostile refused", refused); c.seen("hostile", what.substr(0, 20)); c.nontrivial(w);
}
void vh::setup() {
	setRule("Replies generated from the grammar of RFC 3501 (with UIDPLUS and CONDSTORE), with every string as atom, quoted string or literal where allowed, any letter case, delivered in pieces of arbitrary size (with read calls that find nothing) to the parser in strict "
		"and lax mode, with or without a literal handler, several replies read in any order; everything the parser exposes (and the body structure, message sets and status built from it) is compared with the values the generator put in. Damaged, crafted and very large or deep replies must be "
		"refused with an error of the library or read into something complete: no crash, no endless loop, no missing component.");
	addAssumption("unquoted names of mailboxes containing ] are refused in strict mode (pinned by the tests of the repository); texts do not start with '[', '=' or white space; MESSAGE/RFC822 and TEXT media types are sent as quoted strings (RFC 3501); names of parameters other than NAME differ from NAME");
	addSuite("conforming", 6000, 300000, conforming);
	addSuite("hostile", 6000, 300000, hostile, 10);
}
