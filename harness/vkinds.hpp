// every kind of component that can be parsed on its own
#pragma once
#include "vmsg.hpp"
namespace vh {
struct Kind { const char* name; std::function<compP()> make; std::function<str(Rng&)> gen; };

inline compP fieldComp(const str& n) { return vmime::headerFieldFactory::getInstance()->create(n); }

inline const std::vector<Kind>& kinds() {
	static const std::vector<Kind> k = {
		{"word", [] { return compP(make_shared<vmime::word>()); }, genTextValue},
		{"text", [] { return compP(make_shared<vmime::text>()); }, genTextValue},
		{"mailbox", [] { return compP(make_shared<vmime::mailbox>()); }, genMailbox},
		{"mailboxGroup", [] { return compP(make_shared<vmime::mailboxGroup>()); }, [](Rng& r) { return genToken(r) + ":" + genAddressList(r) + ";"; }},
		{"mailboxList", [] { return compP(make_shared<vmime::mailboxList>()); }, genAddressList},
		{"addressList", [] { return compP(make_shared<vmime::addressList>()); }, genAddressList},
		{"emailAddress", [] { return compP(make_shared<vmime::emailAddress>()); }, genEmail},
		{"mediaType", [] { return compP(make_shared<vmime::mediaType>()); }, [](Rng& r) { return genToken(r) + "/" + genToken(r); }},
		{"contentDisposition", [] { return compP(make_shared<vmime::contentDisposition>()); }, genToken},
		{"encoding", [] { return compP(make_shared<vmime::encoding>()); }, genToken},
		{"charset", [] { return compP(make_shared<vmime::charset>()); }, genToken},
		{"datetime", [] { return compP(make_shared<vmime::datetime>()); }, genDate},
		{"messageId", [] { return compP(make_shared<vmime::messageId>()); }, genMids},
		{"messageIdSequence", [] { return compP(make_shared<vmime::messageIdSequence>()); }, genMids},
		{"relay", [] { return compP(make_shared<vmime::relay>()); }, genRelay},
		{"path", [] { return compP(make_shared<vmime::path>()); }, [](Rng& r) { return "<" + genEmail(r) + ">"; }},
		{"disposition", [] { return compP(make_shared<vmime::disposition>()); }, [](Rng& r) { return genToken(r) + "/" + genToken(r) + ";" + genToken(r) + "/" + genToken(r) + "," + genToken(r); }},
		{"parameter", [] { return compP(make_shared<vmime::parameter>("n")); }, genTextValue},
		{"contentTypeField", [] { return fieldComp("Content-Type"); }, [](Rng& r) { return genToken(r) + "/" + genToken(r) + genParams(r); }},
		{"contentDispositionField", [] { return fieldComp("Content-Disposition"); }, [](Rng& r) { return "attachment" + genParams(r); }},
		{"contentTransferEncodingField", [] { return fieldComp("Content-Transfer-Encoding"); }, [](Rng& r) { return "base64" + genParams(r); }},
		{"mailboxField", [] { return fieldComp("From"); }, genAddressList},
		{"subjectField", [] { return fieldComp("Subject"); }, genTextValue},
		{"header", [] { return compP(make_shared<vmime::header>()); }, [](Rng& r) { str s; for (size_t i = r.below(8); i-- > 0;) { auto f = genField(r); s += f.first + ": " + f.second + "\r\n"; } return s; }},
	};
	return k;
}
}
