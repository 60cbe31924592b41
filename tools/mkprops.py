#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this table and checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/vmime/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level='exploration', technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech], state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                  observe=list(observe), level=level, technique=technique, note=note))

prop('C01', 'Parsing arbitrary bytes is memory-safe, terminates, fails only as documented',
 'Parsing any byte string as a message, header, header field, address, date, parameter or any other message component never reads or writes outside its buffers, never overflows the stack on the nesting it accepts, and finishes in time roughly proportional to the input. It either succeeds or ends with one of the library\'s documented exceptions. The same holds for reading back, copying and re-generating whatever was parsed.',
 ['inputs'], 'every byte string up to tens of kilobytes, every component type, whole or via a stream',
 'The tests parse a few hundred well-formed samples without sanitizers; malformed, truncated and nested inputs are an unbounded space.',
 ['body.cpp', 'header.cpp', 'headerField.cpp', 'word.cpp', 'text.cpp', 'mailbox.cpp', 'address.cpp', 'addressList.cpp', 'parameterizedHeaderField.cpp', 'dateTime.cpp', 'utility/encoder'],
 [('multipart parsing', 'body.cpp body::parseImpl'), ('field parsing', 'headerField.cpp headerField::parseNext'), ('word parsing', 'word.cpp word::parseNext')],
 technique='ASan+UBSan runs of the real parsers on mutated, spliced, truncated and random inputs, with CPU and nesting budgets',
 note='Memory and UB errors on executed paths; inputs up to some 60 kB. Red-zone tools can miss non-adjacent overflows.')

prop('C02', 'Parsed offsets are nested and identify the right bytes of the source',
 'After a successful parse, the start and end offsets every component reports lie inside its parent, siblings appear in order without overlapping, and the bytes between the offsets of a body part, header field or body are exactly the ones that component was read from. Body offsets of a leaf part delimit exactly its encoded contents.',
 ['inputs'], 'every well-formed or malformed message that parses; whole buffers and parses that start in the middle of a larger buffer',
 'Tests assert a handful of constants on fixed messages.',
 ['component.cpp', 'body.cpp', 'header.cpp', 'headerField.cpp', 'bodyPart.cpp'],
 [('offset recording', 'component.cpp component::setParsedBounds'), ('multipart delimiters', 'body.cpp body::findNextBoundaryPosition')],
 technique='online monitor walking the component tree after each parse and comparing byte ranges with an independent splitter')

prop('C03', 'Parsing from a stream gives the same result as parsing from memory',
 'For any message, parsing it from an input stream gives the same headers, parts and body contents as parsing the same bytes from a string, whatever sizes of pieces the stream delivers and whether or not it can seek. A part or range of a message read lazily from a seekable stream yields the same bytes later as it did at parse time.',
 ['inputs', 'schedules'], 'every message and every way of cutting it into reads, including one byte at a time and cuts inside delimiters',
 'Tests read from one in-memory adapter that always returns everything asked for.',
 ['component.cpp', 'body.cpp', 'utility/parserInputStreamAdapter.cpp', 'utility/seekableInputStreamRegionAdapter.cpp', 'utility/stream.cpp'],
 [('boundary search over a stream', 'utility/parserInputStreamAdapter.cpp findNext'), ('lazy contents', 'streamContentHandler.cpp')],
 technique='differential monitor: dump of the parsed tree from string vs stream under randomised chunking, under ASan+UBSan')

prop('C04', 'A message built through the API survives generate and parse exactly',
 'Any message built through the public API (multipart trees of any shape, any contents and transfer encoding, boundaries set or automatic, prologs and epilogs) generates to text which, parsed again, has the same structure, the same field values and byte-identical decoded contents in every part, text being compared up to line-end form. Contents that look like delimiters, headers, dot lines or encoded text never leak into the structure.',
 ['inputs', 'programs'], 'every API-built part tree with bounded depth and width and any contents',
 'Tests build a few fixed trees with harmless contents.',
 ['body.cpp', 'bodyPart.cpp', 'header.cpp', 'headerField.cpp', 'encoding.cpp', 'contentHandler.cpp'],
 [('part generation', 'body.cpp body::generateImpl'), ('boundary choice', 'body.cpp body::generateRandomBoundaryString')],
 technique='model-based round-trip monitor over random part trees with adversarial contents')

prop('C05', 'Re-generating a parsed message preserves its meaning',
 'Generating what was parsed from a well-formed message, whoever wrote it, and parsing that again, any number of times and for every line length, yields the same part structure, the same field names in the same order with the same interpreted values (text as Unicode, up to runs of white space), the same prolog and epilog, and the same decoded contents. For malformed messages, the field names of the header, the text of its unstructured ASCII fields and the contents of single parts are kept.',
 ['inputs'], 'every parseable message, whether produced by this library or another program',
 'Tests check a few parse/generate pairs.',
 ['header.cpp', 'headerField.cpp', 'text.cpp', 'word.cpp', 'body.cpp'],
 [('value generation', 'headerField.cpp headerField::generateImpl')],
 technique='parse-generate-parse fixpoint monitor over grammar-generated and corpus-mutated messages')

prop('C06', 'Generated output is well-formed: folded lines, CRLF, no injection',
 'Whatever values the application sets, generated headers consist only of well-formed fields, one for each field set and in their order: every line ends in CRLF, there are no bare line breaks, NUL characters or blank lines, and a text or list of identifiers is folded at the requested length wherever it has white space. A value can never start a new header field or end the header, and no body content can be taken for a part delimiter chosen by the library: an independent reader sees the same parts. Generated text and address fields are 7-bit unless the caller asked for internationalised output.',
 ['inputs', 'configurations'], 'every header value, including control characters and line breaks, and every maximum line length',
 'Tests compare a few samples at one line length.',
 ['headerField.cpp', 'word.cpp', 'text.cpp', 'parameter.cpp', 'mailbox.cpp', 'body.cpp', 'generationContext.cpp'],
 [('folding', 'word.cpp word::generate'), ('parameters', 'parameter.cpp parameter::generateImpl')],
 technique='output monitor: independent RFC 5322 line/field parser applied to everything generated from hostile values')

prop('C07', 'Text in any language survives header encoding and decoding',
 'Header text made of words in any supported charset, encoded and folded into a header line and decoded again, gives the same Unicode text, for every line length and starting column. Runs of white space may be merged or trimmed at the ends. Every encoded word produced is valid on its own: never cutting a character in two, with legal characters only. Text encoded by other conforming programs decodes to the same Unicode text.',
 ['inputs', 'configurations'], 'every Unicode text, charset, maximum line length and starting column',
 'Tests use a few dozen fixed strings.',
 ['word.cpp', 'text.cpp', 'wordEncoder.cpp'],
 [('word encoding', 'wordEncoder.cpp wordEncoder::getNextChunk'), ('word decoding', 'word.cpp word::parseNext')],
 technique='round-trip monitor with an independent RFC 2047 decoder as oracle')

prop('C08', 'Header parameters survive encoding, splitting and decoding',
 'A parameter of a header field with any name and any value in any charset, generated in any of the supported ways that encode it (RFC 2231; both; RFC 2047, if the charset has no escape sequences, up to runs of white space) and parsed again, keeps its value, and its charset if it is not plain ASCII, next to any other parameters. Continued, percent-encoded and quoted parameters written by other programs, in any order of their sections, decode to the value the standards give.',
 ['inputs', 'configurations'], 'every parameter value and charset, number of parameters, line length and generation mode',
 'Tests use some twenty fixed values.',
 ['parameter.cpp', 'parameterizedHeaderField.cpp'],
 [('parameter generation', 'parameter.cpp parameter::generateImpl'), ('parameter sections', 'parameterizedHeaderField.cpp parseImpl')],
 technique='round-trip monitor plus an independent RFC 2231 writer/reader as oracle')

prop('C09', 'Addresses, groups and address lists survive generate and parse',
 'Any list of mailboxes and groups, with any display names and any valid addresses, ASCII or internationalised, generates to text that parses back to the same list, in order, with equal names and addresses, for every line length. Address lists written in any conforming style (comments, quoted names, routes, folding, empty groups) parse to the addresses they denote.',
 ['inputs', 'configurations'], 'every list structure, name and address; every line length',
 'Tests hold several dozen fixed strings.',
 ['mailbox.cpp', 'mailboxGroup.cpp', 'mailboxList.cpp', 'address.cpp', 'addressList.cpp', 'emailAddress.cpp', 'charsetConverter_idna.cpp'],
 [('mailbox parsing', 'mailbox.cpp mailbox::parseImpl'), ('list splitting', 'address.cpp address::parseNext')],
 technique='round-trip monitor plus independent writer of conforming address lists')

prop('C10', 'Dates keep their instant: parse, generate, zone conversion, comparison',
 'Any date set or parsed is generated and parsed back to the same date, time and zone; conversion between zones and to or from Unix time preserves the instant; and comparison orders dates by instant. Dates written in any standard form (obsolete zones, two-digit years, comments, missing seconds or weekday) parse to the instant they denote, and the day of week, month length and leap-year rules are those of the calendar.',
 ['inputs'], 'every date from year 1 on, time and zone offset; every conforming notation',
 'Tests cover a few dozen dates.',
 ['dateTime.cpp', 'utility/datetimeUtils.cpp'],
 [('date parsing', 'dateTime.cpp datetime::parseImpl'), ('zone conversion', 'utility/datetimeUtils.cpp toUniversalTime')],
 technique='differential monitor against an independent proleptic Gregorian calendar')

prop('C11', 'Transfer encodings decode to exactly what was encoded, in any chunking',
 'For every transfer encoding, decoding the encoded form of any data returns the data exactly, whatever the line-length option and however the streams split it, and the encoded text is valid for the encoding, within its line limit, as judged by an independent decoder. Data encoded by another conforming program decodes correctly, and arbitrary bytes given to a decoder are handled without memory errors. Byte counts returned are the bytes written, and size estimates are never below the real size.',
 ['inputs', 'schedules'], 'every data and options, every chunking of the input stream',
 'Tests encode a handful of strings in one read.',
 ['utility/encoder/b64Encoder.cpp', 'utility/encoder/qpEncoder.cpp', 'utility/encoder/uuEncoder.cpp', 'utility/encoder/sevenBitEncoder.cpp'],
 [('base64', 'utility/encoder/b64Encoder.cpp'), ('quoted-printable', 'utility/encoder/qpEncoder.cpp'), ('uuencode', 'utility/encoder/uuEncoder.cpp')],
 technique='reference codecs as oracle under ASan+UBSan with random chunking')

prop('C12', 'Charset conversion is exact, complete, and independent of chunking',
 'Converting text between charsets yields exactly the characters the input denotes, whatever the sizes of the pieces read or written, with a sequence cut at a piece boundary handled as if it were whole. Input that is invalid, or that the target cannot represent, is reported or replaced as the options say, never silently lost together with valid text around it, and never causes a memory error. The reported status of a conversion agrees with what happened.',
 ['inputs', 'schedules'], 'every text, charset pair and chunking, including invalid and truncated sequences',
 'Tests convert some fixed strings, with chunk boundaries at a few places.',
 ['charsetConverter_icu.cpp', 'charsetConverter_idna.cpp', 'charset.cpp', 'utility/encoder', 'charsetConverter_iconv.cpp'],
 [('ICU conversion', 'charsetConverter_icu.cpp convert'), ('filtered stream', 'charsetConverter_icu.cpp charsetFilteredOutputStream_icu::writeImpl')],
 technique='differential monitor against independent table/UTF codecs, random chunking, ASan+UBSan')

prop('C13', 'Stream filters give the same output for any chunking',
 'Every filtering stream (dot stuffing and unstuffing, line-end conversion, stop sequence, header and charset filters) and every stream adapter produces the output its transformation defines for the whole input, no matter how the data is cut into reads or writes, including cuts inside the sequences it looks for. Nothing is lost, duplicated or reordered at the end of data.',
 ['inputs', 'schedules'], 'every input and every sequence of read or write sizes',
 'Tests try some chunkings of a few strings.',
 ['utility/filteredStream.cpp', 'utility/filteredStream.hpp', 'utility/parserInputStreamAdapter.cpp', 'utility/inputStreamPointerAdapter.cpp', 'utility/streamUtils.cpp'],
 [('dot filter', 'utility/filteredStream.cpp dotFilteredOutputStream'), ('line ends', 'utility/filteredStream.cpp LFToCRLFFilteredOutputStream')],
 technique='whole-input reference transformation as oracle, random chunking')

prop('C14', 'Digests match the standards for any data and any splitting into updates',
 'MD5 and SHA-1 digests of any data equal those of independent implementations, whatever the sequence of update calls and whether or not an object is reset and reused.',
 ['inputs', 'schedules'], 'every data length and every sequence of update sizes', 'Tests hash fixed vectors in one call.',
 ['security/digest/md5/md5MessageDigest.cpp', 'security/digest/sha1/sha1MessageDigest.cpp'],
 [('MD5', 'security/digest/md5/md5MessageDigest.cpp'), ('SHA-1', 'security/digest/sha1/sha1MessageDigest.cpp')],
 technique='differential monitor against an independent digest implementation')

prop('C15', 'URLs survive building and parsing',
 'A URL built from any protocol, host, port, credentials, path and query parameters converts to text that parses back to equal components, and encoding then decoding any text gives it back. Text that is not a URL is refused with the documented exception and changes nothing.',
 ['inputs'], 'every component value, with reserved, non-ASCII and control characters', 'Tests use some fixed URLs.',
 ['utility/url.cpp', 'utility/urlUtils.cpp'],
 [('URL building', 'utility/url.cpp url::build'), ('URL parsing', 'utility/url.cpp url::parse'), ('escaping', 'utility/urlUtils.cpp')],
 technique='round-trip and reference-parser monitor')

prop('C16', 'Path, string and parsing helpers obey their definitions',
 'Operations on folder paths (join, parent, ancestor and descendant tests, rename of a parent, text conversion) agree with the same operations on lists of names. The string, Unicode and date helpers agree with their plain definitions on every input.',
 ['inputs'], 'every path, name and string', 'Tests use fixed examples.',
 ['utility/path.cpp', 'utility/stringUtils.cpp'],
 [('paths', 'utility/path.cpp'), ('strings', 'utility/stringUtils.cpp')],
 technique='reference-model monitor over random operation sequences')

prop('C17', 'Small structured values survive generate and parse; property sets are exact',
 'Message identifiers and their lists, media types, dispositions, content encodings, relay (Received) information and the other structured header values, set to any legal value, generate to text that parses back to the same value, also into an object used before; Received fields and lists of identifiers written by other programs parse to what they say. A set of named properties keeps what was stored: names are case-insensitive, numbers, booleans and text convert as documented, and its textual form parses to the set it writes down.',
 ['inputs', 'configurations'], 'every legal value and line length', 'Tests use fixed examples.',
 ['messageId.cpp', 'messageIdSequence.cpp', 'mediaType.cpp', 'disposition.cpp', 'contentDisposition.cpp', 'encoding.cpp', 'relay.cpp', 'path.cpp', 'propertySet.cpp'],
 [('message ids', 'messageId.cpp'), ('property sets', 'propertySet.cpp'), ('Received', 'relay.cpp')],
 technique='round-trip monitor over random legal values')

prop('C18', 'Copies equal the original and are independent of it',
 'A clone or copy of any component generates the same text and holds the same values as the original, including charset, language, encoding, boundary and contents. Changing either one afterwards in any way never affects the other, and copying in a chain or onto an object that already had a value leaves no trace of the old value.',
 ['inputs', 'histories'], 'every component, parsed or built, and every later modification', 'Tests clone almost nothing.',
 ['component.hpp', 'header.cpp', 'headerField.cpp', 'body.cpp', 'bodyPart.cpp', 'word.cpp', 'text.cpp', 'parameter.cpp'],
 [('copying', 'body.cpp body::copyFrom')],
 technique='copy/mutate monitor comparing full value dumps of original and copy')

prop('C19', 'Header and body containers behave as ordered lists',
 'Any sequence of append, insert, remove, replace and lookup operations on a header, body, address list, parameter list or text gives the same contents and order as the same operations on a plain list; field lookup is case-insensitive and returns the first match, and operations on missing items are refused with the documented exception and change nothing. Part-to-parent links stay consistent.',
 ['programs', 'histories'], 'every sequence of operations', 'Tests run a few operations in isolation.',
 ['header.cpp', 'body.cpp', 'mailboxList.cpp', 'addressList.cpp', 'text.cpp', 'parameterizedHeaderField.cpp', 'headerFieldFactory.cpp'],
 [('field list', 'header.cpp'), ('part list', 'body.cpp')],
 technique='random operation sequences against a sequential list model')

prop('C20', 'Building and taking apart mail conserves recipients, texts and attachments',
 'A message assembled from an author, recipients, subject, texts in plain or HTML form with embedded objects, and attachments, generated and taken apart again, yields the same recipients, subject, texts and charsets, the same embedded objects under their references, and the same attachments with names, types and bytes. Adding attachments to an existing message of any structure keeps everything that was there. Disposition notifications refer to the right message and recipient.',
 ['inputs', 'programs'], 'every combination of recipients, texts, embedded objects and attachments', 'Tests cover attachment detection and a little of HTML parts.',
 ['messageBuilder.cpp', 'messageParser.cpp', 'attachmentHelper.cpp', 'htmlTextPart.cpp', 'plainTextPart.cpp', 'mdn/MDNHelper.cpp'],
 [('building', 'messageBuilder.cpp'), ('taking apart', 'messageParser.cpp'), ('attachments', 'attachmentHelper.cpp')],
 technique='conservation monitor: everything put in is found again, nothing else')

prop('C21', 'Content handlers deliver the same bytes however they are read',
 'Every kind of content holder (string, stream, file, part of a stream, partly encoded) reports the right length and delivers exactly its bytes, raw or decoded, each time it is read, whatever stream it is copied to, including after having been partly read, cloned, or re-encoded. A view of a range of a stream reads exactly that range, and several views used in turn do not disturb each other.',
 ['inputs', 'histories'], 'every contents, encoding and order of reads', 'Tests read each handler once.',
 ['stringContentHandler.cpp', 'streamContentHandler.cpp', 'fileContentHandler.cpp', 'utility/seekableInputStreamRegionAdapter.cpp'],
 [('extraction', 'streamContentHandler.cpp extract'), ('ranges', 'utility/seekableInputStreamRegionAdapter.cpp')],
 technique='model-based monitor over random operation sequences on all handler kinds')

prop('C22', 'Message sets and folder attributes behave as sets of numbers',
 'A set of message numbers or unique identifiers built by any sequence of additions denotes exactly the numbers added, whatever the order and overlap of the ranges, and its textual form for the server denotes the same numbers. Conversions between sets and lists keep every number once.',
 ['inputs', 'histories'], 'every sequence of ranges, including open-ended ones', 'Tests use fixed sets.',
 ['net/messageSet.cpp', 'net/folderAttributes.cpp', 'net/imap/IMAPUtils.cpp'],
 [('range sets', 'net/messageSet.cpp'), ('wire form', 'net/imap/IMAPUtils.cpp messageSetToSequenceSet')],
 technique='random operation sequences against a plain integer-set model')

prop('C23', 'Estimated sizes are never below what is generated',
 'The size that getGeneratedSize() estimates for a message, a part, a body, a header, a header field or a parameter is never less than the number of bytes generated with the same settings (line length, way of encoding parameters, prolog and epilog), whether the component was parsed or built and whether or not its contents have to be encoded again; and the estimate terminates normally for every name, value and line length.',
 ['inputs', 'configurations'], 'every message, field and parameter, and every generation setting',
 'Tests compare the estimate for a few parameters only.',
 ['component.cpp', 'headerField.cpp', 'parameterizedHeaderField.cpp', 'parameter.cpp', 'body.cpp', 'bodyPart.cpp', 'utility/encoder'],
 [('estimates', 'component.cpp component::getGeneratedSize'), ('parameters', 'parameter.cpp parameter::getGeneratedSize'), ('bodies', 'body.cpp body::getGeneratedSize')],
 technique='generate-and-count monitor over parsed and built messages under random settings')

prop('C24', 'Parsing depends on nothing but the bytes of the given range',
 'Parsing a component from a range of a buffer gives the same value, the same offsets inside the range, the same exception and the same text when generated again, whatever bytes stand before and after the range, whatever the object held before, and however often it is repeated: no parser looks outside its range or keeps anything from an earlier value. This holds for every kind of component - words, texts, addresses and lists, dates, message ids, parameters, field values, headers, parts and messages.',
 ['inputs', 'histories'], 'every text, well-formed or not, everything that may surround it, and every earlier value of the object',
 'Tests parse whole strings into new objects.',
 ['component.cpp', 'headerField.cpp', 'header.cpp', 'body.cpp', 'mailbox.cpp', 'text.cpp', 'word.cpp', 'relay.cpp', 'dateTime.cpp', 'parameterizedHeaderField.cpp'],
 [('ranges', 'component.hpp component::parse(ctx, buffer, position, end)'), ('header fields', 'headerField.cpp headerField::parseNext')],
 technique='differential monitor: same bytes in other surroundings and in used objects, ASan+UBSan')

prop('N01', 'IMAP replies are parsed safely, exactly, and independent of packet boundaries',
 'Any bytes a mail server sends over IMAP are parsed without memory error, unbounded recursion or endless loop: the reply is accepted or refused with a documented exception. A conforming reply is parsed to the same values however the network cuts it into packets, and literals are delivered byte for byte whatever they contain.',
 ['inputs', 'schedules', 'fault_sequences'], 'every reply and every division into packets, well-formed or not',
 'Tests parse a dozen fixed replies delivered in one piece.',
 ['net/imap/IMAPParser.hpp', 'net/imap/IMAPConnection.cpp', 'net/imap/IMAPMessage.cpp', 'net/imap/IMAPMessagePart.cpp'],
 [('grammar', 'net/imap/IMAPParser.hpp'), ('literals', 'net/imap/IMAPParser.hpp IMAPParser::literal')],
 technique='scripted server feeding hostile and conforming replies under random packetisation, ASan+UBSan')

prop('N02', 'The IMAP client mirrors the mailbox and its commands are exactly what was asked',
 'Driven against a conforming server, the client\'s folders, message counts, numbers, unique identifiers, flags, structures and contents always equal the server\'s state as announced to it, including changes made by other clients. Every command on the wire is syntactically valid and denotes exactly the requested folder name, message set, flags and data, whatever characters they contain. Change notifications describe the changes that happened.',
 ['histories', 'inputs'], 'every sequence of client operations and concurrent server-side changes; every folder name and message',
 'Tests check a few command strings; none runs the client against a stateful server.',
 ['net/imap/IMAPFolder.cpp', 'net/imap/IMAPCommand.cpp', 'net/imap/IMAPUtils.cpp', 'net/imap/IMAPMessage.cpp', 'net/imap/IMAPStore.cpp', 'net/imap/IMAPConnection.cpp'],
 [('folder state', 'net/imap/IMAPFolder.cpp processStatusUpdate'), ('commands', 'net/imap/IMAPCommand.cpp'), ('modified UTF-7', 'net/imap/IMAPUtils.cpp toModifiedUTF7')],
 technique='in-process IMAP server model: strict command parser plus state comparison after every operation')

prop('N03', 'POP3 retrieval is byte-exact and commands address the right message',
 'Messages listed, retrieved or deleted over POP3 are those the server holds under that number and unique identifier, and contents are delivered byte for byte after undoing dot-stuffing, however the network cuts the data and whatever lines the message contains. A refused command raises an error and leaves the session in step with the server; deletions take effect only as the server confirms them.',
 ['inputs', 'schedules', 'histories'], 'every mailbox, operation sequence and packetisation', 'Tests cover greeting, authentication strings and a few replies.',
 ['net/pop3/POP3Response.cpp', 'net/pop3/POP3Connection.cpp', 'net/pop3/POP3Folder.cpp', 'net/pop3/POP3Message.cpp', 'net/pop3/POP3Utils.cpp'],
 [('multi-line replies', 'net/pop3/POP3Response.cpp readLargeResponse')],
 technique='in-process POP3 server model with random packetisation')

prop('N04', 'SMTP delivers the message byte-exact, to exactly the given recipients',
 'For each message sent, the server receives one envelope with exactly the given sender and recipients and, after transparency or chunk framing is undone, exactly the message bytes, whatever lines they contain and whichever extensions (pipelining, chunking, size, internationalised addresses) are offered. A success is reported if and only if the server accepted the sender, every recipient and the data; after any refusal an error names the failure and nothing is delivered.',
 ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'every message, recipient list, extension set, packetisation and point of refusal', 'Tests run some fixed dialogues.',
 ['net/smtp/SMTPTransport.cpp', 'net/smtp/SMTPConnection.cpp', 'net/smtp/SMTPResponse.cpp', 'net/smtp/SMTPCommandSet.cpp', 'net/smtp/SMTPChunkingOutputStreamAdapter.cpp'],
 [('delivery', 'net/smtp/SMTPTransport.cpp send'), ('chunking', 'net/smtp/SMTPChunkingOutputStreamAdapter.cpp'), ('transparency', 'utility/filteredStream.cpp')],
 technique='in-process SMTP server model recording envelopes and data, injected refusals')

prop('N05', 'A connection lost at any byte ends in an exception, never a hang or a crash',
 'If a mail server closes the connection, or sends garbage, at any point of any dialogue, the operation in progress ends with one of the documented exceptions within bounded steps, no success is reported for work the server did not confirm, and the store or transport can be disconnected and destroyed or used to connect again.',
 ['fault_sequences', 'crash_points'], 'every byte position of every scripted session of every protocol', 'Tests never cut a connection.',
 ['net/imap/IMAPConnection.cpp', 'net/pop3/POP3Connection.cpp', 'net/smtp/SMTPConnection.cpp', 'net/smtp/SMTPTransport.cpp', 'net/imap/IMAPParser.hpp'],
 [('reading', 'net/imap/IMAPParser.hpp read'), ('replies', 'net/smtp/SMTPResponse.cpp')],
 level='fault_enumeration', technique='fault injection: scripted sessions cut or corrupted at enumerated byte positions')

prop('N06', 'Passwords and authentication secrets never reach protocol traces',
 'With tracing on, whatever the protocol, authentication mechanism and outcome, the trace of a session never contains the password or a form of it that gives it away (plain, or base64 of the authentication exchange), while other commands are traced in full.',
 ['configurations', 'inputs'], 'every protocol, mechanism, credential and server behaviour', 'Tests check a few command objects.',
 ['net/smtp/SMTPCommand.cpp', 'net/pop3/POP3Command.cpp', 'net/imap/IMAPCommand.cpp', 'net/imap/IMAPConnection.cpp'],
 [('trace text', 'net/imap/IMAPCommand.cpp getTraceText')],
 technique='recording tracer scanned for the secrets after sessions with random credentials')

prop('N07', 'TLS: required encryption is enforced, names verified, nothing leaks before it',
 'When the session requires encryption, no credential or message is sent on an unencrypted connection, and data received before the TLS handshake is never taken as a reply after it. A certificate is accepted only when the chain, validity period and host name are right; wildcard and alternative names match as the standards say. Data sent over TLS arrives complete and in order.',
 ['configurations', 'inputs', 'fault_sequences'], 'every combination of options, server capabilities and certificate names', 'Tests do not exercise TLS.',
 ['net/tls/gnutls/TLSSocket_GnuTLS.cpp', 'security/cert/defaultCertificateVerifier.cpp', 'security/cert/gnutls/X509Certificate_GnuTLS.cpp', 'net/imap/IMAPConnection.cpp', 'net/smtp/SMTPConnection.cpp', 'net/pop3/POP3Connection.cpp'],
 [('upgrade', 'net/smtp/SMTPConnection.cpp startTLS'), ('verification', 'security/cert/defaultCertificateVerifier.cpp')],
 technique='in-process TLS server, wire monitor and certificate-matching oracle')

prop('N08', 'A maildir store mirrors what was done to it',
 'After any sequence of folder and message operations on a maildir store (create, rename, delete, list, append, copy, flag, delete, expunge), folders, message counts, flags, sizes and contents reported equal those of a plain model, whether asked through the same session or a new one. Messages delivered by other programs appear, and no operation touches anything outside the store.',
 ['histories', 'inputs'], 'every operation sequence, folder name and message, in every supported on-disk layout', 'Tests list and create fixed folders.',
 ['net/maildir/maildirFolder.cpp', 'net/maildir/maildirStore.cpp', 'net/maildir/maildirMessage.cpp', 'net/maildir/maildirUtils.cpp', 'net/maildir/format'],
 [('folder operations', 'net/maildir/maildirFolder.cpp'), ('layouts', 'net/maildir/format')],
 technique='random operation sequences against a sequential model and the real directory tree')

prop('N09', 'A crash or failed system call never loses or half-delivers maildir messages',
 'If the program stops, or a file operation fails, at any point of any maildir operation, every message that was in the store before is still there, complete and once (unless the operation was deleting it), and no incomplete message is visible as delivered. A failed operation is reported.',
 ['crash_points', 'fault_sequences'], 'every file-system call of every operation', 'Tests never inject failures.',
 ['net/maildir/maildirFolder.cpp', 'platforms/posix/posixFile.cpp'],
 [('delivery', 'net/maildir/maildirFolder.cpp addMessage'), ('copying', 'net/maildir/maildirFolder.cpp copyMessagesImpl')],
 level='fault_enumeration', technique='fault injection at every file-system call (link-time wrapping), directory tree checked after')

prop('N10', 'Separate objects work from separate threads; generated identifiers are unique',
 'Threads that parse, generate, convert, hash and run network sessions on their own objects at the same time never race on shared state, and each gets the result it would get alone. Message identifiers, boundaries, file names and random values generated by any number of threads are all different.',
 ['schedules'], 'every interleaving of threads working on separate objects', 'Tests are single-threaded.',
 ['platform.cpp', 'base.cpp', 'headerFieldFactory.cpp', 'utility/random.cpp', 'messageId.cpp', 'net/serviceFactory.cpp', 'utility/encoder/encoderFactory.cpp', 'platforms/posix/posixHandler.cpp'],
 [('singletons', 'headerFieldFactory.cpp getInstance'), ('random', 'utility/random.cpp'), ('unique ids', 'messageId.cpp generateId')],
 technique='ThreadSanitizer over multi-threaded workloads plus uniqueness and result monitors')

prop('N11', 'System sockets, files and helper programs carry data exactly and fail cleanly',
 'Data written to a socket, file or helper program arrives complete, in order and unchanged under partial writes, slow peers and interrupted calls; end of data and errors are reported as such, deadlines are honoured, and handles are released. File operations do what they say on names with any characters, and a message handed to a local delivery program carries exactly the given sender, recipients and bytes, with no argument interpreted as anything else.',
 ['inputs', 'schedules', 'fault_sequences'], 'every data, chunking, peer behaviour and file name', 'Tests use fakes instead of the system interfaces.',
 ['platforms/posix/posixSocket.cpp', 'platforms/posix/posixFile.cpp', 'platforms/posix/posixChildProcess.cpp', 'net/sendmail/sendmailTransport.cpp'],
 [('sockets', 'platforms/posix/posixSocket.cpp'), ('files', 'platforms/posix/posixFile.cpp'), ('child processes', 'platforms/posix/posixChildProcess.cpp')],
 technique='loopback peers and scratch files with fault injection; byte-exact and descriptor-leak monitors')

prop('N12', 'Logging in succeeds exactly when the server accepts the credentials',
 'Connecting to an SMTP, POP3 or IMAP server succeeds if and only if one of the login methods that the settings allow and the server offers (SASL mechanisms, APOP, clear-text commands) is accepted with the given credentials; methods the server refuses are skipped, and only offered mechanisms are tried. When falling back is not allowed, the password is never sent by another method. After a failed login the service is not connected.',
 ['configurations', 'inputs', 'fault_sequences'], 'every protocol, set of mechanisms, settings, credentials and refusal', 'Tests use one login per protocol.',
 ['net/smtp/SMTPConnection.cpp', 'net/pop3/POP3Connection.cpp', 'net/imap/IMAPConnection.cpp', 'security/sasl', 'security/defaultAuthenticator.cpp'],
 [('SASL', 'net/imap/IMAPConnection.cpp authenticateSASL'), ('APOP and fallback', 'net/pop3/POP3Connection.cpp authenticate'), ('mechanisms', 'security/sasl/builtinSASLMechanism.cpp')],
 technique='in-process servers with independent server-side SASL, outcome compared with the settings')

prop('N13', 'A service connects to the server and account its URL and settings name',
 'The store or transport obtained from a session for a URL, a protocol name or the configured protocol is the one of that name (in any case), and connects to the host, port and account the URL names, else the session properties, else the protocol default port, whatever characters they contain, however the properties were given, and whatever other services and sessions were set up before. Dedicated-port protocols begin with TLS at once. Unknown protocols, the wrong kind of service and missing settings are refused without any connection, and the connection information tells what was connected to.',
 ['inputs', 'configurations', 'histories'], 'every protocol, host, port, user name, password, way of configuring and order of configuring several services', 'Tests fix one host and never use URLs with credentials.',
 ['net/session.cpp', 'net/serviceFactory.cpp', 'net/serviceInfos.cpp', 'net/service.cpp', 'net/service.hpp', 'net/serviceInfos.hpp', 'net/builtinServices.inl', 'net/smtp/SMTPServiceInfos.cpp', 'net/pop3/POP3ServiceInfos.cpp', 'net/imap/IMAPServiceInfos.cpp'],
 [('URL to properties', 'net/serviceFactory.cpp create'), ('property lookup and defaults', 'net/serviceInfos.hpp getPropertyValue'), ('service kinds', 'net/session.cpp getStore')],
 technique='recording socket factory and simulated servers, compared with the configuration given')

prop('A01', 'The alternative back ends give the same results',
 'Built with the other supported charset and TLS libraries, the library converts charsets, generates and parses messages, and hashes with the same results and the same safety as the default build.',
 ['configurations', 'inputs'], 'the back-end choice, over the same inputs', 'The tests run in one configuration.',
 ['charsetConverter_iconv.cpp', 'net/tls/openssl/TLSSocket_OpenSSL.cpp', 'security/cert/openssl/X509Certificate_OpenSSL.cpp'],
 [('iconv conversion', 'charsetConverter_iconv.cpp')],
 technique='the same monitors run on the alternative build')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=p['mech'])
            if p['state']: a['state'] = p['state']
            if p['observe']: a['observe_at'] = p['observe']
            a['hook_needed'] = None
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=a)) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CHECKS:
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/vrun.py ' + p['id'], thorough_cmd='python3 tools/vrun.py %s --tier thorough' % p['id'],
                               technique=p['technique'], level=p['level'],
                               level_note=p['note'] or 'Held on the executions the workload produced (numbers in the evidence file); says nothing about paths it does not drive.'))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 tools/vrun.py setup', checks=checks, not_applicable=na,
             notes='No hooks in /repo: everything is observed at public interfaces, factories and sanitizer instrumentation.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
