From 5b1aa9c998f0ded755d729eac4f4168fa687a56c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 001/236] fix: uuencode decoder overflowed its buffers and lost
 partial groups

The number of characters of a line was rounded down, so that a line whose
length is not a multiple of 3 was decoded wrong (or past the buffers), short
reads were taken for the end of data, and mode/file name included the text
before them. The size estimate ignored the maximum line length.
---
 src/vmime/utility/encoder/uuEncoder.cpp | 66 ++++++++++++++++++-------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..73e81af 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -63,6 +63,25 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 	return (c - ' ') & 077;
 }
 
+// Read as many bytes as possible (the stream may return less than requested)
+static inline size_t readFully(utility::inputStream& in, byte_t* buffer, const size_t count) {
+
+	size_t length = 0;
+
+	while (length < count) {
+
+		const size_t n = in.read(buffer + length, count - length);
+
+		if (n == 0) {
+			break;
+		}
+
+		length += n;
+	}
+
+	return length;
+}
+
 
 size_t uuEncoder::encode(
 	utility::inputStream& in,
@@ -75,8 +94,10 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -105,7 +126,7 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		const size_t inLength = in.read(inBuffer, maxLineLength - 1);
+		const size_t inLength = readFully(in, inBuffer, maxLineLength - 1);
 
 		outBuffer[0] = UUENCODE(static_cast <unsigned int>(inLength)); // Line length
 
@@ -156,7 +177,7 @@ size_t uuEncoder::decode(
 	in.reset();  // may not work...
 
 	// Process the data
-	byte_t inBuffer[64];
+	byte_t inBuffer[84];   // at most 63 bytes per line, that is 84 characters
 	byte_t outBuffer[64];
 
 	size_t total = 0;
@@ -180,7 +201,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -196,7 +217,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readFully(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -243,7 +264,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -251,7 +272,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
@@ -272,7 +293,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readFully(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -290,12 +311,15 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
-			// Premature end of data
-			break;
-		}
+		if (inPos < inLength) {
+
+			if (readFully(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+				// Premature end of data
+				break;
+			}
 
-		inTotal += (inLength - inPos);
+			inTotal += (inLength - inPos);
+		}
 
 		// Decode data
 		for (size_t i = 0, j = 0 ; i < inLength ; i += 4, j += 3) {
@@ -305,7 +329,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
@@ -339,10 +363,18 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
+	const size_t maxLineLength = std::max(
+		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
+
+	const size_t lineCount = n / (maxLineLength - 1) + 1;
+	const size_t lineLength = 1 + ((maxLineLength + 1) / 3) * 4 + 2;
+
 	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	// Count the length character and CRLF (2 bytes) for each line.
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 200 + lineCount * lineLength;
 }
 
 
-- 
2.43.0


From e94b3348146b262023b2091c8a3441cdfdc495aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 002/236] fix: base64/quoted-printable encoded size estimates
 were too small

The estimates did not count all line breaks although they are documented to be
an upper bound, and base64 encode() did not count the line breaks it wrote.
---
 src/vmime/utility/encoder/b64Encoder.cpp | 12 +++++++++---
 src/vmime/utility/encoder/qpEncoder.cpp  |  7 +++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..15df3ca 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -183,6 +183,7 @@ size_t b64Encoder::encode(
 
 		if (cutLines && curCol + 2 /* \r\n */ + 4 /* next bytes */ >= maxLineLength) {
 			out.write("\r\n", 2);
+			total += 2;
 			curCol = 0;
 		}
 
@@ -332,9 +333,14 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// 3 bytes of input provide 4 bytes of output (including padding)
+	const size_t encodedSize = ((n + 2) / 3) * 4;
+
+	// A line is cut as soon as 4 more characters and CRLF may not fit
+	const size_t lineLength = maxLineLength <= 10 ? 4 : ((maxLineLength - 6 + 3) / 4) * 4;
+
+	return encodedSize
+		 + (cutLines ? (encodedSize / lineLength) * 2 : 0);  // CRLF (2 bytes) for each line.
 }
 
 
diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..ba5b3e3 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -550,9 +550,12 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
 
+	// A line is cut as soon as it has (maxLineLength - 1) characters
+	const size_t lineLength = std::max(maxLineLength, static_cast <size_t>(2)) - 1;
+
 	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	// Count soft line break (3 bytes) for each line.
+	return n * 3 + (cutLines ? ((n * 3) / lineLength) * 3 : 0);
 }
 
 
-- 
2.43.0


From a16cb2cce6a33d1de8c808bf7846d29bfe6ae6e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 003/236] fix: quoted-printable soft line break could split the
 CRLF of a text line

---
 src/vmime/utility/encoder/qpEncoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index ba5b3e3..158d0c5 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -343,8 +343,8 @@ size_t qpEncoder::encode(
 
 			} // switch (c)
 
-			// Soft line break : "=\r\n"
-			if (cutLines && curCol >= maxLineLength - 1) {
+			// Soft line break : "=\r\n" (not between CR and LF of a hard line break)
+			if (cutLines && curCol >= maxLineLength - 1 && !(text && c == '\r')) {
 
 				outBuffer[outBufferPos] = '=';
 				outBuffer[outBufferPos + 1] = '\r';
-- 
2.43.0


From 76b5c38cd48b3ba154540ce9c606c44251125eff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 004/236] fix: dot-stuffing filter corrupted data when a chunk
 ended with a dot

A chunk beginning with a line break after a chunk ending with '.' got an extra
dot and its first byte twice, whether or not the dot began the content.
---
 src/vmime/utility/filteredStream.cpp | 11 ++++-------
 src/vmime/utility/filteredStream.hpp |  1 +
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..85df02d 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -133,7 +133,8 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
 	: m_stream(os),
 	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_start(true),
+	  m_startDot(false) {
 
 }
 
@@ -154,17 +155,12 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	if (m_startDot) {  // <DOT> alone in the first chunk
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
 	}
-
 	// Replace "\n." with "\n.."
 	while ((pos = std::find(pos, end, '.')) != end) {
 
@@ -195,6 +191,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 
 	m_stream.write(start, end - start);
 	m_previousChar = data[count - 1];
+	m_startDot = (m_start && count == 1 && data[0] == '.');
 	m_start = false;
 }
 
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..222c776 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -126,6 +126,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_startDot;
 };
 
 
-- 
2.43.0


From 8c8d541fee465e8bfe1fb6c572db7ebc7e1dd5a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 005/236] fix: CRLF to LF filter lost a trailing CR on flush

---
 src/vmime/utility/filteredStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 85df02d..550dc00 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -279,9 +279,12 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	if (m_previousChar == '\r') {
+		m_stream.write("\r", 1);  // write back \r
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From 1bda42e8aae0ec59e3d4eab1234f8b3e7b471a8c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 006/236] fix: stop sequence filter missed sequences beginning
 inside a partial match

---
 src/vmime/utility/filteredStream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 222c776..28d8564 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -305,10 +305,9 @@ public:
 
 						// Common prefix but not whole sequence
 						} else {
-
+							pos -= m_found - 1;  // a match may begin inside the prefix
 							m_found = 0;
 						}
-
 					// Whole sequence found
 					} else {
 
@@ -364,6 +363,7 @@ public:
 						read += m_found - n;
 						end += m_found - n;
 
+						pos = data + 1;  // a match may begin inside the prefix
 						m_found = 0;
 					}
 
-- 
2.43.0


From fd39222f6490ab5f491b703ef3481bf0a12581a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 007/236] fix: string stream adapter wrote past the reader's
 buffer when limited to a range

---
 src/vmime/utility/inputStreamStringAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..4de30f9 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -68,7 +68,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
-- 
2.43.0


From 73acd212d355662f6f01e383f60cd473ea72bbda Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 008/236] fix: std::istream adapter did not reset once the end
 was reached

---
 src/vmime/utility/inputStreamAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..c22bbf3 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
-	m_stream.seekg(0, std::ios::beg);
 	m_stream.clear();
+	m_stream.seekg(0, std::ios::beg);
 }
 
 
-- 
2.43.0


From 3269bb6af6a3ee941a0e9df484677f71b00c785e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 009/236] fix: parsing from a stream assumed that reads are
 never short

A stream returning less than requested made the parser miss boundaries, cut
values, or search uninitialised memory.
---
 .../utility/parserInputStreamAdapter.cpp      | 50 +++++++++++--------
 .../utility/parserInputStreamAdapter.hpp      | 11 +++-
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..ba7820c 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -48,7 +48,26 @@ void parserInputStreamAdapter::reset() {
 
 size_t parserInputStreamAdapter::read(byte_t* const data, const size_t count) {
 
-	return m_stream->read(data, count);
+	return readFully(data, count);
+}
+
+
+size_t parserInputStreamAdapter::readFully(byte_t* const data, const size_t count) const {
+
+	size_t length = 0;
+
+	while (length < count) {
+
+		const size_t readBytes = m_stream->read(data + length, count - length);
+
+		if (readBytes == 0) {
+			break;
+		}
+
+		length += readBytes;
+	}
+
+	return length;
 }
 
 
@@ -70,7 +89,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readFully(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -115,7 +134,6 @@ size_t parserInputStreamAdapter::findNext(
 		size_t findBufferLen = 0;
 		size_t findBufferOffset = 0;
 
-		bool isEOF = false;
 
 		// Fill in initial buffer
 		findBufferLen = read(findBuffer, BUFFER_SIZE);
@@ -123,8 +141,8 @@ size_t parserInputStreamAdapter::findNext(
 		while (findBufferLen != 0) {
 
 			// Find token
-			for (byte_t *begin = findBuffer, *end = findBuffer + findBufferLen - token.length() ;
-			     begin <= end ; ++begin) {
+			for (byte_t *begin = findBuffer ;
+			     begin + token.length() <= findBuffer + findBufferLen ; ++begin) {
 
 				if (begin[0] == token[0] &&
 				    (token.length() == 1 ||
@@ -138,25 +156,17 @@ size_t parserInputStreamAdapter::findNext(
 				}
 			}
 
+			// A buffer which is not full means that the end has been reached
+			if (findBufferLen < BUFFER_SIZE) {
+				break;
+			}
+
 			// Rotate buffer
 			memcpy(findBuffer1, findBuffer2, (BUFFER_SIZE / 2));
 
 			// Read more bytes
-			if (findBufferLen < BUFFER_SIZE && (eof() || isEOF)) {
-
-				break;
-
-			} else {
-
-				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
-
-				if (bytesRead == 0) {
-					isEOF = true;
-				}
-
-				findBufferLen = (BUFFER_SIZE / 2) + bytesRead;
-				findBufferOffset += (BUFFER_SIZE / 2);
-			}
+			findBufferLen = (BUFFER_SIZE / 2) + read(findBuffer2, BUFFER_SIZE / 2);
+			findBufferOffset += (BUFFER_SIZE / 2);
 		}
 
 		seek(initialPos);
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..bd9c424 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readFully(buffer, std::min(length, sizeof(buffer)));
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,15 @@ public:
 
 private:
 
+	/** Read bytes until either the requested number of bytes have been
+	  * read, or the end of the stream is reached.
+	  *
+	  * @param data will receive the data read
+	  * @param count number of bytes to read
+	  * @return number of bytes read
+	  */
+	size_t readFully(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From 8547badeaccbb89cbfdc267cd594775e4eb14945 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 010/236] fix: guessing a multipart boundary read past the
 bytes available

---
 src/vmime/body.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..e1e4ee1 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -196,7 +196,6 @@ void body::parseImpl(
 					const size_t bufferLen =
 						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
 
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
 
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
@@ -211,11 +210,15 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					while (boundarySkip + boundaryLen < bufferLen && boundaryLen < 100) {
 
-						boundaryBytes[boundaryLen] = c;
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
+
+						boundaryBytes[boundaryLen++] = c;
 					}
 
 					if (boundaryLen >= 1 && boundaryLen < 100) {
-- 
2.43.0


From b2654799d4ae55674ed9345e296eeb7a8eb9ef82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 011/236] fix: last part of a multipart was lost after a
 malformed delimiter line

---
 src/vmime/body.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index e1e4ee1..04bb470 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -290,6 +290,7 @@ void body::parseImpl(
 				 * facilitate broken mails.
 				 */
 				boundaryEnd += parser->skipIf([](char_t c) { return c != '\n'; }, end);
+				lastPart = false;  // this line is not a delimiter
 				pos = findNextBoundaryPosition(parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd);
 				--index;
 				continue;
@@ -335,7 +336,7 @@ void body::parseImpl(
 		m_contents = make_shared <emptyContentHandler>();
 
 		// Last part was not found: recover from missing boundary
-		if (!lastPart && pos == npos) {
+		if (!lastPart) {
 
 			shared_ptr <bodyPart> part = m_part->createChildPart();
 
-- 
2.43.0


From a906b9b508ccfd441bc025847ea23293432d7567 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 012/236] fix: nesting of multiparts was not limited when
 parsing

---
 src/vmime/body.cpp | 18 +++++++++++++++++-
 src/vmime/body.hpp | 12 ++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 04bb470..ec2353b 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -154,7 +154,9 @@ void body::parseImpl(
 	shared_ptr <const contentTypeField> ctf =
 		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
 
-	if (ctf) {
+	// Each level of nesting uses some stack space and requires another scan
+	// of the contents: stop descending if there are too many of them
+	if (ctf && getNestingLevel() < MAX_NESTING_LEVEL) {
 
 		const mediaType type = *ctf->getValue <mediaType>();
 
@@ -798,6 +800,20 @@ void body::setParentPart(bodyPart* parent) {
 }
 
 
+size_t body::getNestingLevel() const {
+
+	size_t level = 0;
+
+	for (const bodyPart* part = m_part ? m_part->getParentPart() : NULL ;
+	     part ; part = part->getParentPart()) {
+
+		++level;
+	}
+
+	return level;
+}
+
+
 bool body::isRootPart() const {
 
 	return !m_part || !m_part->getParentPart();
diff --git a/src/vmime/body.hpp b/src/vmime/body.hpp
index b513f57..532ba8f 100644
--- a/src/vmime/body.hpp
+++ b/src/vmime/body.hpp
@@ -304,6 +304,18 @@ private:
 
 	void setParentPart(bodyPart* parent);
 
+	/** Maximum number of nested multiparts when parsing. Deeper ones are
+	  * not split into parts, and are considered as 'simple' data.
+	  */
+	static const size_t MAX_NESTING_LEVEL = 100;
+
+	/** Return the number of parts enclosing the part to which this body
+	  * belongs (0 if it belongs to the root part).
+	  *
+	  * @return nesting level
+	  */
+	size_t getNestingLevel() const;
+
 
 	string m_prologText;
 	string m_epilogText;
-- 
2.43.0


From a6f0aa42d24d2b8a9480d80cb3d9d1683b0e95ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 013/236] fix: parts and bodies kept a pointer to the part they
 were removed from

---
 src/vmime/body.cpp     | 12 ++++++++++--
 src/vmime/bodyPart.cpp | 18 +++++++++++++++++-
 src/vmime/bodyPart.hpp |  1 +
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index ec2353b..a8e5ff2 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -51,6 +51,7 @@ body::body()
 
 body::~body() {
 
+	removeAllParts();
 }
 
 
@@ -794,8 +795,7 @@ void body::setParentPart(bodyPart* parent) {
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
 	     it != m_parts.end() ; ++it) {
 
-		shared_ptr <bodyPart> childPart = *it;
-		parent->importChildPart(childPart);
+		(*it)->m_parent = parent;
 	}
 }
 
@@ -1061,18 +1061,26 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	(*it)->m_parent = NULL;
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	m_parts[pos]->m_parent = NULL;
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
+	     it != m_parts.end() ; ++it) {
+
+		(*it)->m_parent = NULL;
+	}
+
 	m_parts.clear();
 }
 
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..bcf037d 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,15 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::~bodyPart() {
+
+	// The body and its parts may outlive this part
+	if (m_body->m_part == this) {
+		m_body->setParentPart(NULL);
+	}
+}
+
+
 void bodyPart::parseImpl(
 	parsingContext& ctx,
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
@@ -145,14 +154,21 @@ shared_ptr <body> bodyPart::getBody() {
 
 void bodyPart::setBody(const shared_ptr <body>& b) {
 
+	if (b == m_body) {
+		return;
+	}
+
 	bodyPart* oldPart = b->m_part;
 
+	m_body->setParentPart(NULL);
+
 	m_body = b;
 	m_body->setParentPart(this);
 
 	// A body is associated to one and only one part
 	if (oldPart) {
-		oldPart->setBody(make_shared <body>());
+		oldPart->m_body = make_shared <body>();
+		oldPart->m_body->setParentPart(oldPart);
 	}
 }
 
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index e7e5ade..4173182 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,7 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	~bodyPart();
 
 	/** Return the header section of this part.
 	  *
-- 
2.43.0


From d7fd59b67168c0c30b71f618c87d7ce9163b591b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 014/236] fix: cloning a body on its own dereferenced a null
 part, and dropped the boundary

---
 src/vmime/body.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index a8e5ff2..47034c1 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -702,8 +702,11 @@ void body::setContentType(const mediaType& type) {
 
 const mediaType body::getContentType() const {
 
-	shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	shared_ptr <const contentTypeField> ctf;
+
+	if (m_part) {
+		ctf = m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	}
 
 	if (ctf) {
 
@@ -738,8 +741,11 @@ void body::setCharset(const charset& chset) {
 
 const charset body::getCharset() const {
 
-	const shared_ptr <const contentTypeField> ctf =
-		m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	shared_ptr <const contentTypeField> ctf;
+
+	if (m_part) {
+		ctf = m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+	}
 
 	if (ctf) {
 
@@ -769,8 +775,11 @@ void body::setEncoding(const encoding& enc) {
 
 const encoding body::getEncoding() const {
 
-	shared_ptr <const headerField> cef =
-		m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+	shared_ptr <const headerField> cef;
+
+	if (m_part) {
+		cef = m_part->getHeader()->findField(fields::CONTENT_TRANSFER_ENCODING);
+	}
 
 	if (cef) {
 
@@ -837,13 +846,15 @@ void body::copyFrom(const component& other) {
 	m_prologText = bdy.m_prologText;
 	m_epilogText = bdy.m_epilogText;
 
+	m_boundary = bdy.m_boundary;
 	m_contents = bdy.m_contents;
 
 	removeAllParts();
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part = make_shared <bodyPart>();
+		part->m_parent = m_part;
 
 		part->copyFrom(*bdy.getPartAt(p));
 
-- 
2.43.0


From 00af1766756c3983719c44c596c1c36ef4cdc714 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 015/236] fix: inserting a part relative to a missing part
 removed it from its own parent

---
 src/vmime/body.cpp | 52 ++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 47034c1..4166a3b 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -1010,17 +1010,19 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
-		m_parts.begin(), m_parts.end(), beforePart
-	);
-
-	if (it == m_parts.end()) {
+	// Nothing should be modified if the specified part does not exist
+	if (std::find(m_parts.begin(), m_parts.end(), beforePart) == m_parts.end()) {
 		throw exceptions::no_such_part();
 	}
 
-	m_parts.insert(it, part);
+	if (beforePart == part) {
+		return;
+	}
+
+	initNewPart(part);
+
+	// The position may have changed if 'part' was already one of our parts
+	m_parts.insert(std::find(m_parts.begin(), m_parts.end(), beforePart), part);
 }
 
 
@@ -1029,9 +1031,11 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	m_parts.insert(m_parts.begin() + pos, part);
+	if (pos < m_parts.size()) {
+		insertPartBefore(shared_ptr <bodyPart>(m_parts[pos]), part);
+	} else {
+		appendPart(part);
+	}
 }
 
 
@@ -1040,25 +1044,29 @@ void body::insertPartAfter(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
-		m_parts.begin(), m_parts.end(), afterPart
-	);
-
-	if (it == m_parts.end()) {
+	// Nothing should be modified if the specified part does not exist
+	if (std::find(m_parts.begin(), m_parts.end(), afterPart) == m_parts.end()) {
 		throw exceptions::no_such_part();
 	}
 
-	m_parts.insert(it + 1, part);
+	if (afterPart == part) {
+		return;
+	}
+
+	initNewPart(part);
+
+	// The position may have changed if 'part' was already one of our parts
+	m_parts.insert(std::find(m_parts.begin(), m_parts.end(), afterPart) + 1, part);
 }
 
 
 void body::insertPartAfter(const size_t pos, const shared_ptr <bodyPart>& part) {
 
-	initNewPart(part);
-
-	m_parts.insert(m_parts.begin() + pos + 1, part);
+	if (pos < m_parts.size()) {
+		insertPartAfter(shared_ptr <bodyPart>(m_parts[pos]), part);
+	} else {
+		appendPart(part);
+	}
 }
 
 
-- 
2.43.0


From 30f026bbb19221249f869ceda275378db96fd41e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 016/236] fix: bytes left by a Base64-encoded word were taken
 from the wrong place

---
 src/vmime/word.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..04f2707 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
@@ -368,7 +368,11 @@ void word::parseWithState(
 
 						if (state && !state->undecodedBytes.empty()) {
 
-							encodedBuffer = state->undecodedBytes + encodedBuffer;
+							// Undecoded bytes always come from a Base64-encoded word
+							if (*encPos == 'B' || *encPos == 'b') {
+								encodedBuffer = state->undecodedBytes + encodedBuffer;
+							}
+
 							state->undecodedBytes.clear();
 						}
 
@@ -396,8 +400,11 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							// There cannot be more than an incomplete group of 4 characters left
+							if (state && actualEncodedLen > theoricalEncodedLen &&
+							    actualEncodedLen - theoricalEncodedLen < 4) {
+
+								state->undecodedBytes.assign(encodedBuffer, theoricalEncodedLen, string::npos);
 							}
 						}
 
-- 
2.43.0


From 5dec24e395d230cfdb06bd22238b430810fe4368 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 017/236] fix: cloning a word dropped its language

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 04f2707..4d3e66c 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -888,7 +888,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(m_buffer, m_charset, m_lang);
 }
 
 
-- 
2.43.0


From c299189757c77976c3b75bfd467b1c6fbcb22f99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 018/236] fix: integer overflow and read past the end when
 parsing dates

---
 src/vmime/dateTime.cpp | 71 ++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..1d08024 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -75,6 +75,24 @@ static const char* monthNames[] = {
 	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
 };
 
+
+/** Parse a number, and advance to the first character which is
+  * not a digit. Numbers that are too large are limited to MAX_NUMBER,
+  * which is out of range for any of the fields of a date.
+  */
+static int parseNumber(const char*& p, const char* const pend) {
+
+	static const int MAX_NUMBER = 99999;
+
+	int value = 0;
+
+	for ( ; p < pend && parserHelpers::isDigit(*p) ; ++p) {
+		value = std::min(value * 10 + (*p - '0'), MAX_NUMBER);
+	}
+
+	return value;
+}
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -102,7 +120,7 @@ void datetime::parseImpl(
 
 		bool dayParsed = false;
 
-		if (parserHelpers::isAlpha(*p)) {
+		if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			// Ill-formed date/time, this may be the month,
 			// so we skip day parsing (will be done later)
@@ -114,12 +132,7 @@ void datetime::parseImpl(
 			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Month day
-				int day = 0;
-
-				do {
-					day = day * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int day = parseNumber(p, pend);
 
 				m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -240,7 +253,7 @@ void datetime::parseImpl(
 
 			m_month = JANUARY;
 
-			if (parserHelpers::isDigit(*p)) {
+			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Here, we expected a month, but it maybe
 				// a ill-formed date, so try to parse a year
@@ -257,12 +270,7 @@ void datetime::parseImpl(
 		if (!dayParsed && p < pend && parserHelpers::isDigit(*p)) {
 
 			// Month day
-			int day = 0;
-
-			do {
-				day = day * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int day = parseNumber(p, pend);
 
 			m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -282,12 +290,7 @@ void datetime::parseImpl(
 			} else {
 
 				// Year
-				int year = 0;
-
-				do {
-					year = year * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int year = parseNumber(p, pend);
 
 				if (year < 70)         m_year = year + 2000;
 				else if (year < 1000)  m_year = year + 1900;
@@ -309,12 +312,7 @@ void datetime::parseImpl(
 		if (p < pend && parserHelpers::isDigit(*p)) {
 
 			// Hour
-			int hour = 0;
-
-			do {
-				hour = hour * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int hour = parseNumber(p, pend);
 
 			m_hour = (hour >= 0 && hour <= 23) ? hour : 0;
 
@@ -329,12 +327,7 @@ void datetime::parseImpl(
 				if (p < pend && parserHelpers::isDigit(*p)) {
 
 					// Minute
-					int minute = 0;
-
-					do {
-						minute = minute * 10 + (*p - '0');
-						++p;
-					} while (p < pend && parserHelpers::isDigit(*p));
+					const int minute = parseNumber(p, pend);
 
 					m_minute = (minute >= 0 && minute <= 59) ? minute : 0;
 
@@ -349,12 +342,7 @@ void datetime::parseImpl(
 						if (p < pend && parserHelpers::isDigit(*p)) {
 
 							// Second
-							int second = 0;
-
-							do {
-								second = second * 10 + (*p - '0');
-								++p;
-							} while (p < pend && parserHelpers::isDigit(*p));
+							const int second = parseNumber(p, pend);
 
 							m_second = (second >= 0 && second <= 59) ? second : 0;
 
@@ -396,12 +384,7 @@ void datetime::parseImpl(
 			++p;
 
 			// Zone offset (in hour/minutes)
-			int offset = 0;
-
-			do {
-				offset = offset * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int offset = parseNumber(p, pend);
 
 			const int hourOff = offset / 100;
 			const int minOff = offset % 100;
-- 
2.43.0


From 1549599e1e7b54738d3c2f39727e4ec5af3bff76 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 019/236] fix: parsed date could be invalid, and throw when
 generated

---
 src/vmime/dateTime.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 1d08024..1ddca66 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -355,23 +355,24 @@ void datetime::parseImpl(
 						}
 
 					} else {
-
 						m_second = 0;
 					}
 
 				} else {
-
 					m_minute = 0;
+					m_second = 0;
 				}
 
 			} else {
-
 				m_minute = 0;
+				m_second = 0;
 			}
 
 		} else {
 
 			m_hour = 0;
+			m_minute = 0;
+			m_second = 0;
 
 			// Skip everything to the next field
 			while (p < pend && !parserHelpers::isSpace(*p)) ++p;
@@ -549,12 +550,13 @@ void datetime::parseImpl(
 			}
 
 		} else {
-
 			m_zone = 0;
 		}
 
-	} else {
+		// Ensure this day exists in the month (eg. "31 Feb")
+		m_day = std::min(m_day, utility::datetimeUtils::getDaysInMonth(m_year, m_month));
 
+	} else {
 		m_year = 1970;
 		m_month = JANUARY;
 		m_day = 1;
-- 
2.43.0


From 4da63e30c8a3d83b8e7e6eb05b504274bf999b95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 020/236] fix: date conversion was wrong for zones of 24 hours
 or more

---
 src/vmime/utility/datetimeUtils.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vmime/utility/datetimeUtils.cpp b/src/vmime/utility/datetimeUtils.cpp
index b1a6c55..5c1c8c1 100644
--- a/src/vmime/utility/datetimeUtils.cpp
+++ b/src/vmime/utility/datetimeUtils.cpp
@@ -107,7 +107,11 @@ static inline void addHoursAndMinutes(datetime& d, const int h, const int m) {
 		nextHour(d);
 	}
 
-	d.setHour(d.getHour() + h);
+	for (int days = h / 24 ; days > 0 ; --days) {
+		nextDay(d);
+	}
+
+	d.setHour(d.getHour() + (h % 24));
 
 	if (d.getHour() >= 24) {
 		d.setHour(d.getHour() - 24);
@@ -125,11 +129,15 @@ static inline void substractHoursAndMinutes(datetime& d, const int h, const int
 		d.setMinute(d.getMinute() - m);
 	}
 
-	if (h > d.getHour()) {
-		d.setHour(24 - (h - d.getHour()));
+	for (int days = h / 24 ; days > 0 ; --days) {
+		prevDay(d);
+	}
+
+	if ((h % 24) > d.getHour()) {
+		d.setHour(24 - ((h % 24) - d.getHour()));
 		prevDay(d);
 	} else {
-		d.setHour(d.getHour() - h);
+		d.setHour(d.getHour() - (h % 24));
 	}
 }
 
-- 
2.43.0


From 49cdf8812d713447fc73c80f3c0a841b2eb7cb01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 021/236] fix: IDNA conversion read and wrote out of bounds on
 invalid input

---
 src/vmime/charsetConverter_idna.cpp | 39 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..8aeb9b9 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -104,6 +104,16 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 		string inUTF8;
 		charset::convert(in, inUTF8, m_source, vmime::charsets::UTF_8);
 
+		// Do not read past the end of an incomplete sequence
+		if (!utf8::is_valid(inUTF8.begin(), inUTF8.end())) {
+
+			if (!m_options.silentlyReplaceInvalidSequences) {
+				throw exceptions::illegal_byte_sequence_for_charset();
+			}
+
+			inUTF8 = utf8::replace_invalid(inUTF8);
+		}
+
 		const char* ch = inUTF8.c_str();
 		const char* end = inUTF8.c_str() + inUTF8.length();
 
@@ -121,7 +131,8 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		punycode_uint inputLen = static_cast <punycode_uint>(unichars.size());
 
-		std::vector <char> output(inUTF8.length() * 2);
+		// There cannot be more than 7 digits for each character (32-bit deltas)
+		std::vector <char> output(unichars.size() * 8);
 		punycode_uint outputLen = static_cast <punycode_uint>(output.size());
 
 		const punycode_status status = punycode_encode(
@@ -138,7 +149,7 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			throw exceptions::charset_conv_error("Cannot encode to Punycode.");
 		}
 
 	} else if (m_source == "idna") {
@@ -168,18 +179,21 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 			st->inputBytesRead = in.length();
 		}
 
-		if (status == punycode_success) {
+		// Not all code points can be represented in UTF-8
+		bool valid = (status == punycode_success);
 
-			std::vector <char> outUTF8Bytes(outputLen * 4);
-			char* p = &outUTF8Bytes[0];
+		for (size_t i = 0 ; valid && i < outputLen ; ++i) {
+			valid = utf8::internal::is_code_point_valid(output[i]);
+		}
 
-			for (std::vector <punycode_uint>::const_iterator it = output.begin() ;
-			     it != output.begin() + outputLen ; ++it) {
+		if (valid) {
 
-				p = utf8::unchecked::append(*it, p);
+			string outUTF8;
+
+			for (size_t i = 0 ; i < outputLen ; ++i) {
+				utf8::unchecked::append(output[i], std::back_inserter(outUTF8));
 			}
 
-			string outUTF8(&outUTF8Bytes[0], p);
 			charset::convert(outUTF8, out, vmime::charsets::UTF_8, m_dest);
 
 			if (st) {
@@ -188,7 +202,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Not a valid Punycode string: leave it as is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = out.length();
+			}
 		}
 	}
 }
-- 
2.43.0


From 203fb9688e4e21c93b9a4e791bdbf80e71a82fb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 022/236] fix: charset conversion stream lost data on flush,
 and accessed empty buffers

---
 src/vmime/charsetConverter_icu.cpp | 144 +++++++----------------------
 src/vmime/charsetConverter_icu.hpp |   8 ++
 2 files changed, 42 insertions(+), 110 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 5016dca..9f82fc2 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -221,7 +221,8 @@ void charsetConverter_icu::convert(
 				// Write converted bytes (Unicode) to destination codepage
 				ucnv_fromUnicode(
 					m_to, &cpTarget, cpTargetLimit,
-					&uSource, uSourceLimit, NULL, flush, &fromErr
+					&uSource, uSourceLimit, NULL,
+					UBool(flush && toErr != U_BUFFER_OVERFLOW_ERROR), &fromErr
 				);
 
 				if (st) {
@@ -353,7 +354,7 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
 		ucnv_setToUCallBack(
-			m_to, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
+			m_from, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
 		);
 
 		if (U_FAILURE(err)) {
@@ -389,13 +390,31 @@ void charsetFilteredOutputStream_icu::writeImpl(
 	const size_t count
 ) {
 
+	convertChunk(data, count, /* flush */ false);
+}
+
+
+void charsetFilteredOutputStream_icu::flush() {
+
+	convertChunk(NULL, 0, /* flush */ true);
+
+	m_stream.flush();
+}
+
+
+void charsetFilteredOutputStream_icu::convertChunk(
+	const byte_t* const data,
+	const size_t count,
+	const bool flush
+) {
+
 	if (!m_from || !m_to) {
 		throw exceptions::charset_conv_error("Cannot initialize converters.");
 	}
 
-	// Allocate buffer for Unicode chars
-	const size_t uniSize = ucnv_getMinCharSize(m_from) * count * sizeof(UChar);
-	std::vector <UChar> uniBuffer(uniSize);
+	// Buffers for Unicode characters, and for destination charset
+	UChar uniBuffer[1024];
+	char cpBuffer[1024];
 
 	// Conversion loop
 	UErrorCode toErr = U_ZERO_ERROR;
@@ -406,14 +425,13 @@ void charsetFilteredOutputStream_icu::writeImpl(
 	do {
 
 		// Convert from source charset to Unicode
-		UChar* uniTarget = &uniBuffer[0];
-		UChar* uniTargetLimit = &uniBuffer[0] + uniSize;
+		UChar* uniTarget = uniBuffer;
 
 		toErr = U_ZERO_ERROR;
 
 		ucnv_toUnicode(
-			m_from, &uniTarget, uniTargetLimit,
-			&uniSource, uniSourceLimit, NULL, /* flush */ UBool(0), &toErr
+			m_from, &uniTarget, uniBuffer + sizeof(uniBuffer) / sizeof(uniBuffer[0]),
+			&uniSource, uniSourceLimit, NULL, UBool(flush), &toErr
 		);
 
 		if (U_FAILURE(toErr) && toErr != U_BUFFER_OVERFLOW_ERROR) {
@@ -432,31 +450,22 @@ void charsetFilteredOutputStream_icu::writeImpl(
 			}
 		}
 
-		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
-
-		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
-		std::vector <char> cpBuffer(cpSize);
-
 		// Convert from Unicode to destination charset
 		UErrorCode fromErr = U_ZERO_ERROR;
 
-		const UChar* cpSource = &uniBuffer[0];
-		const UChar* cpSourceLimit = &uniBuffer[0] + uniLength;
+		const UChar* cpSource = uniBuffer;
+		const UChar* cpSourceLimit = uniTarget;
 
 		do {
 
-			char* cpTarget = &cpBuffer[0];
-			char* cpTargetLimit = &cpBuffer[0] + cpSize;
+			char* cpTarget = cpBuffer;
 
 			fromErr = U_ZERO_ERROR;
 
 			ucnv_fromUnicode(
-				m_to, &cpTarget, cpTargetLimit,
-				&cpSource, cpSourceLimit, NULL, /* flush */ UBool(0), &fromErr
+				m_to, &cpTarget, cpBuffer + sizeof(cpBuffer),
+				&cpSource, cpSourceLimit, NULL,
+				UBool(flush && toErr != U_BUFFER_OVERFLOW_ERROR), &fromErr
 			);
 
 			if (fromErr != U_BUFFER_OVERFLOW_ERROR && U_FAILURE(fromErr)) {
@@ -475,97 +484,12 @@ void charsetFilteredOutputStream_icu::writeImpl(
 				}
 			}
 
-			const size_t cpLength = cpTarget - &cpBuffer[0];
-
-			// Write successfully converted bytes
-			m_stream.write(&cpBuffer[0], cpLength);
-
-		} while (fromErr == U_BUFFER_OVERFLOW_ERROR);
-
-	} while (toErr == U_BUFFER_OVERFLOW_ERROR);
-}
-
-
-void charsetFilteredOutputStream_icu::flush() {
-
-	if (!m_from || !m_to) {
-		throw exceptions::charset_conv_error("Cannot initialize converters.");
-	}
-
-	// Allocate buffer for Unicode chars
-	const size_t uniSize = ucnv_getMinCharSize(m_from) * 1024 * sizeof(UChar);
-	std::vector <UChar> uniBuffer(uniSize);
-
-	// Conversion loop (with flushing)
-	UErrorCode toErr = U_ZERO_ERROR;
-
-	const char* uniSource = 0;
-	const char* uniSourceLimit = 0;
-
-	do {
-
-		// Convert from source charset to Unicode
-		UChar* uniTarget = &uniBuffer[0];
-		UChar* uniTargetLimit = &uniBuffer[0] + uniSize;
-
-		toErr = U_ZERO_ERROR;
-
-		ucnv_toUnicode(
-			m_from, &uniTarget, uniTargetLimit,
-			&uniSource, uniSourceLimit, NULL, /* flush */ UBool(1), &toErr
-		);
-
-		if (U_FAILURE(toErr) && toErr != U_BUFFER_OVERFLOW_ERROR) {
-
-			throw exceptions::charset_conv_error(
-				"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
-			);
-		}
-
-		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
-
-		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
-		std::vector <char> cpBuffer(cpSize);
-
-		// Convert from Unicode to destination charset
-		UErrorCode fromErr = U_ZERO_ERROR;
-
-		const UChar* cpSource = &uniBuffer[0];
-		const UChar* cpSourceLimit = &uniBuffer[0] + uniLength;
-
-		do {
-
-			char* cpTarget = &cpBuffer[0];
-			char* cpTargetLimit = &cpBuffer[0] + cpSize;
-
-			fromErr = U_ZERO_ERROR;
-
-			ucnv_fromUnicode(
-				m_to, &cpTarget, cpTargetLimit,
-				&cpSource, cpSourceLimit, NULL, /* flush */ UBool(1), &fromErr
-			);
-
-			if (fromErr != U_BUFFER_OVERFLOW_ERROR && U_FAILURE(fromErr)) {
-
-				throw exceptions::charset_conv_error(
-					"[ICU] Error converting from Unicode to '" + m_destCharset.getName() + "'."
-				);
-			}
-
-			const size_t cpLength = cpTarget - &cpBuffer[0];
-
 			// Write successfully converted bytes
-			m_stream.write(&cpBuffer[0], cpLength);
+			m_stream.write(cpBuffer, cpTarget - cpBuffer);
 
 		} while (fromErr == U_BUFFER_OVERFLOW_ERROR);
 
 	} while (toErr == U_BUFFER_OVERFLOW_ERROR);
-
-	m_stream.flush();
 }
 
 
diff --git a/src/vmime/charsetConverter_icu.hpp b/src/vmime/charsetConverter_icu.hpp
index 742999f..2b19ce2 100644
--- a/src/vmime/charsetConverter_icu.hpp
+++ b/src/vmime/charsetConverter_icu.hpp
@@ -114,6 +114,14 @@ protected:
 
 private:
 
+	/** Convert the specified bytes and write them to the next stream.
+	  *
+	  * @param data data to convert
+	  * @param count number of bytes
+	  * @param flush true if this is the end of data
+	  */
+	void convertChunk(const byte_t* const data, const size_t count, const bool flush);
+
 	UConverter* m_from;
 	UConverter* m_to;
 
-- 
2.43.0


From d0942c7078fff7e67b34f29e4362983d789aa69e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 023/236] fix: wrong offsets of a parsed e-mail address

---
 src/vmime/emailAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e687380..2730268 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -554,10 +554,10 @@ void emailAddress::parseImpl(
 		m_domainName = word(domainNameFromIDNA(domainPart.str()), vmime::charsets::UTF_8);
 	}
 
-	setParsedBounds(position, p - pend);
+	setParsedBounds(position, position + (p - pstart));
 
 	if (newPosition) {
-		*newPosition = p - pend;
+		*newPosition = position + (p - pstart);
 	}
 }
 
-- 
2.43.0


From 412406140bba41a78fba470833cadcbc61c414fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 024/236] fix: read past the end when parsing parameters

---
 src/vmime/parameterizedHeaderField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..25ced66 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -129,7 +129,7 @@ void parameterizedHeaderField::parseImpl(
 			}
 		}
 
-		while (*p == ';') {
+		while (p < pend && *p == ';') {
 
 			// Skip ';'
 			++p;
@@ -169,7 +169,7 @@ void parameterizedHeaderField::parseImpl(
 				string value;
 
 				// -- this is a quoted-string
-				if (*p == '"') {
+				if (p < pend && *p == '"') {
 
 					// Skip '"'
 					++p;
-- 
2.43.0


From 95124dfa12c1fdd031d9b3c59e51686b8c11a816 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 025/236] fix: sections of RFC-2231 parameters out of order, or
 with a plain duplicate, gave a wrong value

---
 src/vmime/parameterizedHeaderField.cpp | 88 ++++++++++++++++++--------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 25ced66..37c5a1f 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -68,12 +68,22 @@ parameterizedHeaderField::~parameterizedHeaderField() {
 
 struct paramInfo {
 
+	string name;
 	bool extended;
-	std::vector <parameter::valueChunk> value;
+	std::vector <std::pair <size_t, parameter::valueChunk> > value;  // section number => contents
 	size_t start;
 	size_t end;
 };
 
+
+static bool compareSectionNumber(
+	const std::pair <size_t, parameter::valueChunk>& a,
+	const std::pair <size_t, parameter::valueChunk>& b
+) {
+
+	return a.first < b.first;
+}
+
 #endif // VMIME_BUILDING_DOC
 
 
@@ -120,7 +130,8 @@ void parameterizedHeaderField::parseImpl(
 	// If there is one or more parameters following...
 	if (p < pend) {
 
-		std::map <string, paramInfo> params;
+		std::vector <paramInfo> params;  // in order of appearance
+		std::map <string, size_t> paramIndex;  // lower-case name => index in 'params'
 
 		if (*p != ';') {
 
@@ -167,10 +178,13 @@ void parameterizedHeaderField::parseImpl(
 
 				// Extract the value
 				string value;
+				bool quoted = false;
 
 				// -- this is a quoted-string
 				if (p < pend && *p == '"') {
 
+					quoted = true;
+
 					// Skip '"'
 					++p;
 
@@ -249,7 +263,7 @@ void parameterizedHeaderField::parseImpl(
 				}
 
 				// Don't allow ill-formed parameters
-				if (attrStart != attrEnd && value.length()) {
+				if (attrStart != attrEnd && (value.length() || quoted)) {
 
 					string name(buffer.begin() + attrStart, buffer.begin() + attrEnd);
 
@@ -267,6 +281,7 @@ void parameterizedHeaderField::parseImpl(
 
 					// Check for RFC-2231 multi-section parameters
 					const size_t star = name.find_last_of('*');
+					size_t section = 0;
 
 					if (star != string::npos) {
 
@@ -277,21 +292,31 @@ void parameterizedHeaderField::parseImpl(
 						}
 
 						if (allDigits) {
+
+							for (size_t i = star + 1 ; i < name.length() ; ++i) {
+								section = std::min(section * 10 + (name[i] - '0'), static_cast <size_t>(99999));
+							}
+
 							name.erase(name.begin() + star, name.end());
 							extended = true;
 						}
-
-						// NOTE: we ignore section number, and we suppose that
-						// the sequence is correct (ie. the sections appear
-						// in order: param*0, param*1...)
 					}
 
+					parameter::valueChunk chunk;
+					chunk.encoded = encoded;
+					chunk.data = value;
+
 					// Add/replace/modify the parameter
-					const std::map <string, paramInfo>::iterator it = params.find(name);
+					const string key = utility::stringUtils::toLower(name);
+					const std::map <string, size_t>::const_iterator it = paramIndex.find(key);
 
-					if (it != params.end()) {
+					if (name.empty()) {
 
-						paramInfo& info = (*it).second;
+						// Ill-formed parameter, with nothing but a section number
+
+					} else if (it != paramIndex.end()) {
+
+						paramInfo& info = params[(*it).second];
 
 						// An extended parameter replaces a normal one
 						if (!info.extended) {
@@ -301,45 +326,52 @@ void parameterizedHeaderField::parseImpl(
 							info.start = attrStart;
 						}
 
-						// Append a new section for a multi-section parameter
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
+						// Append a new section for a multi-section parameter (a normal
+						// parameter is ignored if there is already an extended one)
+						if (info.extended == extended) {
 
-						info.value.push_back(chunk);
-						info.end = position + (p - pstart);
+							info.value.push_back(std::make_pair(section, chunk));
+							info.end = position + (p - pstart);
+						}
 
 					} else {
 
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
-
 						paramInfo info;
+						info.name = name;
 						info.extended = extended;
-						info.value.push_back(chunk);
+						info.value.push_back(std::make_pair(section, chunk));
 						info.start = attrStart;
 						info.end = position + (p - pstart);
 
 						// Insert a new parameter
-						params.insert(std::map <string, paramInfo>::value_type(name, info));
+						paramIndex.insert(std::map <string, size_t>::value_type(key, params.size()));
+						params.push_back(info);
 					}
 				}
 
-				// Skip white-spaces after this parameter
-				while (p < pend && parserHelpers::isSpace(*p)) ++p;
+				// Skip everything up to the next parameter
+				while (p < pend && *p != ';') ++p;
 			}
 		}
 
-		for (std::map <string, paramInfo>::const_iterator it = params.begin() ;
+		for (std::vector <paramInfo>::iterator it = params.begin() ;
 		     it != params.end() ; ++it) {
 
-			const paramInfo& info = (*it).second;
+			paramInfo& info = *it;
+
+			// Sections may appear in any order (RFC-2231, section 3)
+			std::stable_sort(info.value.begin(), info.value.end(), compareSectionNumber);
+
+			std::vector <parameter::valueChunk> chunks;
+
+			for (size_t i = 0 ; i < info.value.size() ; ++i) {
+				chunks.push_back(info.value[i].second);
+			}
 
 			// Append this parameter to the list
-			shared_ptr <parameter> param = make_shared <parameter>((*it).first);
+			shared_ptr <parameter> param = make_shared <parameter>(info.name);
 
-			param->parse(ctx, info.value);
+			param->parse(ctx, chunks);
 			param->setParsedBounds(info.start, info.end);
 
 			appendParameter(param);
-- 
2.43.0


From fcf54057267e6c0d392aeb7a7e2e3e24a9583509 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 026/236] fix: percent sign not followed by hexadecimal digits
 was decoded in parameters

---
 src/vmime/parameter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 5cb5b75..25485a4 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -197,7 +197,9 @@ void parameter::parse(
 
 				const char c = chunk.data[i];
 
-				if (c == '%' && i + 2 < len) {
+				if (c == '%' && i + 2 < len &&
+				    isxdigit(static_cast <unsigned char>(chunk.data[i + 1])) &&
+				    isxdigit(static_cast <unsigned char>(chunk.data[i + 2]))) {
 
 					unsigned int v = 0;
 
-- 
2.43.0


From 8a849444263e73ebb8e32555f1b9dd3c0d493d51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 027/236] fix: line breaks in a parameter value were written as
 is, starting new header fields

---
 src/vmime/parameter.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 25485a4..7d58d63 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -289,6 +289,12 @@ void parameter::parse(
 }
 
 
+static inline bool isControlChar(const char_t c) {
+
+	return (c >= 0 && c < 0x20 && c != '\t') || c == 0x7f;
+}
+
+
 void parameter::generateImpl(
 	const generationContext& ctx,
 	utility::outputStream& os,
@@ -328,8 +334,22 @@ void parameter::generateImpl(
 		pos = NEW_LINE_SEQUENCE_LENGTH;
 	}
 
-	bool needQuoting = false;
-	bool needQuotedPrintable = false;
+	// An empty value should be quoted
+	bool needQuoting = value.empty();
+
+	// Control characters (line breaks, especially) cannot appear in a header field, and text
+	// that looks like an encoded word would be decoded when reading the parameter
+	bool needQuotedPrintable = (value.find("=?") != string::npos);
+
+	for (size_t i = 0 ; !needQuotedPrintable && i < value.length() ; ++i) {
+		needQuotedPrintable = isControlChar(value[i]);
+	}
+
+	// Quotes are required around any non-token character, wherever it is in the value
+	if (needQuotedPrintable) {
+		needQuoting = true;
+	}
+
 	size_t valueLength = 0;
 
 	// Use worst-case length name.length()+2 for 'name=' part of line
@@ -389,7 +409,7 @@ void parameter::generateImpl(
 	// 7-bit (ASCII) bytes in the input will be used to determine if
 	// we need to encode the whole buffer.
 	encoding recommendedEnc;
-	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
+	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc) && !value.empty();
 	bool extended = alwaysEncode;
 
 	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
@@ -415,7 +435,7 @@ void parameter::generateImpl(
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
 
-			} else if (parserHelpers::isAscii(c)) {
+			} else if (parserHelpers::isAscii(c) && !isControlChar(c)) {
 
 				sevenBitStream << value[i];
 				++pos;
-- 
2.43.0


From c15d330156903a9e1ad4218b8188c551615c0288 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 028/236] fix: read past the end when parsing header fields

---
 src/vmime/headerField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..2b8cec8 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -123,7 +123,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] != ':') {
+			if (pos == end || buffer[pos] != ':') {
 
 				// header field recovery is necessary, update flag in parsing context
 				ctx.setHeaderRecoveryNeeded(true);
@@ -248,7 +248,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] == '\n') {
+			if (pos < end && buffer[pos] == '\n') {
 				++pos;
 			}
 		}
-- 
2.43.0


From 2a7d6a5e400428e738322bdd933cfc55c47cf5e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 029/236] fix: parsing text could throw if words cannot be
 converted

---
 src/vmime/text.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..f021d05 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -450,7 +450,15 @@ void text::fixBrokenWords(std::vector <shared_ptr <word> >& words) {
 			}
 
 			string::size_type firstInvalidByte;
-			valid = w1->getCharset().isValidText(buffer, &firstInvalidByte);
+			try {
+
+				valid = w1->getCharset().isValidText(buffer, &firstInvalidByte);
+
+			} catch (vmime::exceptions::charset_conv_error& e) {
+
+				// Leave words unmodified
+				continue;
+			}
 
 			// Current word with additional bytes from the next words
 			// is now valid: adjust buffers of words.
-- 
2.43.0


From 52a4e383a7a5a3edfe1ff1675e41cd95b378326c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 030/236] fix: delimiter at the end of a body was recognised or
 not depending on what follows the body

---
 src/vmime/body.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 4166a3b..cacbe49 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -95,13 +95,22 @@ size_t body::findNextBoundaryPosition(
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		// Boundary should not extend past the end of the body
+		if (pos + boundary.length() > end) {
+			return npos;
+		}
 
-		const byte_t next = parser->peekByte();
+		// Boundary should be followed by a new line or a dash (or be
+		// the very last thing in the body)
+		if (pos + boundary.length() < end) {
 
-		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+			parser->seek(pos + boundary.length());
+
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
 		// Get rid of the "[CR]" just before "[LF]--", if any
-- 
2.43.0


From 056a8a59e933b96eed86c05ca64f7e7b0c0f12d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 031/236] fix: boundary guessed from bytes which follow the end
 of the body

---
 src/vmime/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index cacbe49..ba6aa2d 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -196,6 +196,8 @@ void body::parseImpl(
 
 					if ((pos != npos) && (pos + 3 < end)) {
 						pos += 3;  // skip \n--
+					} else {
+						pos = npos;
 					}
 				}
 
-- 
2.43.0


From 4143be7387d73b4fa3e033328bb582d044259fa9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 032/236] fix: white space between malformed encoded words was
 dropped

---
 src/vmime/word.cpp | 34 +++++++++++++++++++++++++++++++---
 src/vmime/word.hpp |  2 +-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 4d3e66c..ab1c54c 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -210,7 +210,33 @@ shared_ptr <word> word::parseNext(
 			pos += 2; // ?=
 
 			shared_ptr <word> w = make_shared <word>();
-			w->parseWithState(ctx, buffer, wordStart, pos, NULL, state);
+			const bool isEncoded = w->parseWithState(ctx, buffer, wordStart, pos, NULL, state);
+
+			// A malformed encoded word is ordinary text: white-spaces
+			// between it and another encoded word are significant
+			if (!isEncoded) {
+
+				if (state->prevIsEncoded && !state->isFirst) {
+					w->m_buffer = whiteSpaces + w->m_buffer;
+				}
+
+				size_t nextPos = pos;
+				whiteSpaces.clear();
+
+				while (nextPos < end && parserHelpers::isSpace(buffer[nextPos])) {
+
+					if (buffer[nextPos] != '\r' && buffer[nextPos] != '\n') {
+						whiteSpaces += buffer[nextPos];
+					}
+
+					++nextPos;
+				}
+
+				if (nextPos + 1 < end && buffer[nextPos] == '=' && buffer[nextPos + 1] == '?') {
+					w->m_buffer += whiteSpaces;
+					pos = nextPos;
+				}
+			}
 
 			if (newPosition) {
 				*newPosition = pos;
@@ -293,7 +319,7 @@ void word::parseImpl(
 }
 
 
-void word::parseWithState(
+bool word::parseWithState(
 	parsingContext& ctx,
 	const string& buffer,
 	const size_t position,
@@ -408,7 +434,7 @@ void word::parseWithState(
 							}
 						}
 
-						return;
+						return true;
 					}
 				}
 			}
@@ -425,6 +451,8 @@ void word::parseWithState(
 	if (newPosition) {
 		*newPosition = end;
 	}
+
+	return false;
 }
 
 
diff --git a/src/vmime/word.hpp b/src/vmime/word.hpp
index c90d908..51e5d35 100644
--- a/src/vmime/word.hpp
+++ b/src/vmime/word.hpp
@@ -212,7 +212,7 @@ protected:
 		size_t* newLinePos = NULL
 	) const;
 
-	void parseWithState(
+	bool parseWithState(
 		parsingContext& ctx,
 		const string& buffer,
 		const size_t position,
-- 
2.43.0


From bacc11412cd84252a37022eb2fdc9840ca8d06c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 033/236] fix: bytes which are not text in the charset of a
 word were lost when encoding it

---
 src/vmime/wordEncoder.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 404a57b..52a3385 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -59,10 +59,29 @@ wordEncoder::wordEncoder(
 			buffer, utf8Buffer, charset, vmime::charset(charsets::UTF_8)
 		);
 
-		m_buffer = utf8Buffer;
-		m_length = utf8Buffer.length();
+		// If the buffer is not valid text in this charset, some bytes would be lost
+		// when converting back to it: encode the original bytes
+		string backBuffer, checkBuffer;
 
-		m_simple = false;
+		vmime::charset::convert(
+			utf8Buffer, backBuffer, vmime::charset(charsets::UTF_8), charset
+		);
+
+		vmime::charset::convert(
+			backBuffer, checkBuffer, charset, vmime::charset(charsets::UTF_8)
+		);
+
+		if (checkBuffer == utf8Buffer) {
+
+			m_buffer = utf8Buffer;
+			m_length = utf8Buffer.length();
+
+			m_simple = false;
+
+		} else {
+
+			m_simple = true;
+		}
 
 	} catch (exceptions::charset_conv_error&) {
 
-- 
2.43.0


From 33e2e77d544e4a5953bd4120c2b641cedf5bf036 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 034/236] fix: parentheses and brackets inside quoted names,
 and domain literals, broke address lists

---
 src/vmime/address.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index 5703a38..2bfe01a 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -79,6 +79,7 @@ shared_ptr <address> address::parseNext(
 	bool quoted = false;
 	bool quotedRFC2047 = false;
 	bool inRouteAddr = false;
+	bool inDomainLiteral = false;
 	bool isGroup = false;
 	bool stop = false;
 	int commentLevel = 0;
@@ -111,31 +112,37 @@ shared_ptr <address> address::parseNext(
 					break;
 
 				case '"':
-
-					quoted = !quoted;
+					if (commentLevel == 0) {
+						quoted = !quoted;
+					}
 					break;
-
 				case '<':
-
-					inRouteAddr = true;
+					if (commentLevel == 0 && !quoted) {
+						inRouteAddr = true;
+					}
 					break;
-
 				case '>':
-
-					inRouteAddr = false;
+					if (commentLevel == 0 && !quoted) {
+						inRouteAddr = false;
+					}
 					break;
-
 				case '(':
-
-					++commentLevel;
+					if (!quoted) {
+						++commentLevel;
+					}
 					break;
-
 				case ')':
-
-					if (commentLevel > 0) {
+					if (!quoted && commentLevel > 0) {
 						--commentLevel;
 					}
-
+					break;
+				case '[':
+					if (commentLevel == 0 && !quoted && pos > start && buffer[pos - 1] == '@') {
+						inDomainLiteral = true;
+					}
+					break;
+				case ']':
+					inDomainLiteral = false;
 					break;
 
 				case '=':
@@ -158,7 +165,7 @@ shared_ptr <address> address::parseNext(
 
 				default:
 				{
-					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr) {
+					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr && !inDomainLiteral) {
 
 						switch (buffer[pos]) {
 
-- 
2.43.0


From 2a3b580dc290e20fd64e3e49dc384388e44e0e40 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 035/236] fix: quoted local parts of addresses were cut or
 lost, and obsolete routes taken for an address

---
 src/vmime/emailAddress.cpp | 13 +-----
 src/vmime/mailbox.cpp      | 88 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 90 insertions(+), 11 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 2730268..8f2d82c 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -301,17 +301,8 @@ void emailAddress::parseImpl(
 				if (escapeNext) {
 
 					escapeNext = false;
-
-					if (c == '"' || c == '\\') {
-
-						localPart << c;
-						++p;
-
-					} else {
-
-						// This char cannot be escaped
-						state = State_Error;
-					}
+					localPart << c;
+					++p;
 
 				} else if (c == '"') {
 
diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..9ba9814 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -25,6 +25,8 @@
 #include "vmime/parserHelpers.hpp"
 #include "vmime/utility/outputStreamStringAdapter.hpp"
 
+#include <cstring>
+
 
 namespace vmime {
 
@@ -68,6 +70,64 @@ angle-addr      =       [CFWS] "<" addr-spec ">" [CFWS] / obs-angle-addr
 
 */
 
+// Returns the position after the quoted string starting at the specified position,
+// or the same position if there is no quoted string there, or if it is unterminated.
+static const char* skipQuotedString(const char* const pos, const char* const end) {
+
+	if (pos >= end || *pos != '"') {
+		return pos;
+	}
+
+	for (const char* p = pos + 1 ; p < end ; ++p) {
+
+		if (*p == '\\') {
+			++p;
+		} else if (*p == '"') {
+			return p + 1;
+		}
+	}
+
+	return pos;
+}
+
+
+// Returns the position of the '@' sign which follows the local part starting with a
+// quoted string at the specified position, or NULL if this is not a local part.
+static const char* findEndOfQuotedLocalPart(const char* const pos, const char* const end) {
+
+	const char* p = pos;
+
+	while (p < end && *p != '@') {
+
+		const char* const wordStart = p;
+
+		if (*p == '"') {
+
+			p = skipQuotedString(p, end);
+
+		} else {
+
+			while (p < end && *p != '.' && *p != '@' && !parserHelpers::isSpace(*p) &&
+			       !strchr("()<>[]:;\\,\"", *p)) {
+				++p;
+			}
+		}
+
+		if (p == wordStart) {
+			return NULL;
+		}
+
+		if (p < end && *p == '.') {
+			++p;
+		} else if (p >= end || *p != '@') {
+			return NULL;
+		}
+	}
+
+	return p < end ? p : NULL;
+}
+
+
 void mailbox::parseImpl(
 	parsingContext& ctx,
 	const string& buffer,
@@ -102,6 +162,9 @@ void mailbox::parseImpl(
 		if (state == State_None) {
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+			if (p == pend)
+				break;
+
 			if (*p == ',' || *p == ';')
 				/* Completely new mailbox -- stop parsing this one. */
 				break;
@@ -110,6 +173,20 @@ void mailbox::parseImpl(
 				continue;
 			}
 			if (*p == '"') {  // Quoted string
+
+				const char* const at = findEndOfQuotedLocalPart(p, pend);
+
+				if (at) {  // not a display name, but a local part
+
+					address.assign(p, at + 1);
+					name += address;
+					hold = address.length();
+					p = at + 1;
+
+					state = State_Address_Unbracketed;
+					continue;
+				}
+
 				state = State_String;
 				++p;
 				continue;
@@ -158,6 +235,12 @@ void mailbox::parseImpl(
 					++comment;
 				} else if (*p == '\\') {
 					escaped = true;
+				} else if (skipQuotedString(p, pend) != p) {
+					const string quoted(p, skipQuotedString(p, pend));
+					address += quoted;
+					name += quoted;
+					hold += quoted.length();
+					p += quoted.length() - 1;
 				} else if (*p == '<') {
 					state = State_Bracket;
 					break;
@@ -308,6 +391,11 @@ void mailbox::parseImpl(
 
 	} else {
 
+		// Ignore the obsolete route before the address
+		if (!address.empty() && address[0] == '@' && address.find(':') != string::npos) {
+			address.erase(0, address.find(':') + 1);
+		}
+
 		text::decodeAndUnfold(ctx, name, &m_name);
 		m_email.parse(ctx, address);
 	}
-- 
2.43.0


From 454e715c378ef944ba03844ca15e8cf9b61a3f7d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 036/236] fix: a name which does not fit on the line or has
 quotes was written with its special characters unprotected

---
 src/vmime/word.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index ab1c54c..73626e2 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -512,12 +512,20 @@ void word::generate(
 	//  - there is enough remaining space on the current line to hold the whole buffer
 	} else if (!encodingNeeded &&
 	           (flags & text::QUOTE_IF_POSSIBLE) &&
-	           m_buffer.find('"') == string::npos &&
+	           m_buffer.find_first_of("\"\\") == string::npos &&
 	           (curLineLength + 2 /* 2 x " */ + m_buffer.length()) < ctx.getMaxLineLength()) {
 
 		os << '"' << m_buffer << '"';
 		curLineLength += 2 + m_buffer.length();
 
+	// If quoting is not possible, special chars must be encoded
+	} else if (!encodingNeeded &&
+	           (flags & text::QUOTE_IF_POSSIBLE) &&
+	           utility::stringUtils::needQuoting(m_buffer, "()<>[]:;@\\,\"")) {
+
+		generate(ctx, os, curLinePos, newLinePos, flags | text::FORCE_ENCODING, state);
+		return;
+
 	// We will fold lines without encoding them.
 	} else if (!encodingNeeded) {
 
-- 
2.43.0


From 422c0975c982f2c0faaeadc2276446354239c779 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 037/236] fix: quoted or special characters in group names were
 misread or written unprotected

---
 src/vmime/mailboxGroup.cpp | 81 +++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index ff9c74f..62557f6 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -70,9 +70,35 @@ void mailboxGroup::parseImpl(
 	}
 
 	string name;
+	int comment = 0;
+	bool quoted = false;
+	while (p < pend && (*p != ':' || comment != 0 || quoted)) {
+
+		if (*p == '\\' && p + 1 < pend) {
+
+			++p;
+
+			if (comment == 0) {
+				name += *p;
+			}
+
+		} else if (*p == '"' && comment == 0) {
+
+			quoted = !quoted;
+
+		} else if (*p == '(' && !quoted) {
+
+			++comment;
+
+		} else if (*p == ')' && !quoted && comment != 0) {
+
+			--comment;
+
+		} else if (comment == 0) {
+
+			name += *p;
+		}
 
-	while (p < pend && *p != ':') {
-		name += *p;
 		++p;
 	}
 
@@ -81,6 +107,8 @@ void mailboxGroup::parseImpl(
 	}
 
 
+	removeAllMailboxes();
+
 	size_t pos = position + (p - pstart);
 	bool isLastAddressOfGroup = false;
 
@@ -130,31 +158,30 @@ void mailboxGroup::generateImpl(
 
 	for (size_t w = 0 ; !forceEncode && w < m_name.getWordCount() ; ++w) {
 
-		if (m_name.getWordAt(w)->getCharset() == charset(charsets::US_ASCII)) {
-
-			const string& buffer = m_name.getWordAt(w)->getBuffer();
-
-			for (string::const_iterator c = buffer.begin() ;
-			     !forceEncode && c != buffer.end() ; ++c) {
-
-				switch (*c) {
-
-					case ' ':
-					case '\t':
-					case ';':
-					case ',':
-					case '<': case '>':
-					case '(': case ')':
-					case '@':
-					case '/':
-					case '?':
-					case '.':
-					case '=':
-					case ':':
-
-						forceEncode = true;
-						break;
-				}
+		const string& buffer = m_name.getWordAt(w)->getBuffer();
+
+		for (string::const_iterator c = buffer.begin() ;
+		     !forceEncode && c != buffer.end() ; ++c) {
+
+			switch (*c) {
+
+				case ' ':
+				case '\t':
+				case ';':
+				case ',':
+				case '<': case '>':
+				case '(': case ')':
+				case '@':
+				case '/':
+				case '?':
+				case '.':
+				case '=':
+				case ':':
+				case '"':
+				case '\\':
+				case '[': case ']':
+					forceEncode = true;
+					break;
 			}
 		}
 	}
-- 
2.43.0


From d095ba1d152941b916ca9938079e46e805de31d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 038/236] fix: control characters in the domain of an address
 could start a new header field

---
 src/vmime/emailAddress.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 8f2d82c..10ad859 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -30,6 +30,8 @@
 #include "vmime/utility/outputStreamStringAdapter.hpp"
 #include "vmime/utility/stringUtils.hpp"
 
+#include <algorithm>
+
 
 namespace vmime {
 
@@ -587,6 +589,16 @@ void emailAddress::generateImpl(
 	}
 
 
+	// There cannot be control characters or white spaces (including line breaks,
+	// which may start a new header field) in a domain name
+	domainPart.erase(
+		std::remove_if(
+			domainPart.begin(), domainPart.end(),
+			[](const unsigned char c) { return c <= 0x20 || c == 0x7f; }
+		),
+		domainPart.end()
+	);
+
 	os << localPart
 		<< "@"
 		<< domainPart;
-- 
2.43.0


From cc2114a59f64143a45140914d8aff43c10eccebe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 039/236] fix: encoded local parts of addresses were folded, or
 cut when the text starts with an encoded character

---
 src/vmime/emailAddress.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 10ad859..5de5925 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -215,6 +215,7 @@ void emailAddress::parseImpl(
 	bool stop = false;
 	int commentLevel = 0;
 	bool localPartIsRFC2047 = false;
+	int localPartRFC2047Marks = 0;  // number of '?' already found in RFC-2047 encoded word
 
 	while (p < pend && !stop) {
 
@@ -388,13 +389,15 @@ void emailAddress::parseImpl(
 
 			case State_LocalPartRFC2047Middle:
 
-				if (c == '?') {
-
+				if (c == '?' && localPartRFC2047Marks < 2) {
+					// Separator after charset or encoding
+					++localPartRFC2047Marks;
+					localPart << c;
+					++p;
+				} else if (c == '?') {
 					state = State_LocalPartRFC2047MiddleQM;
 					++p;
-
 				} else {
-
 					localPart << c;
 					++p;
 				}
@@ -411,13 +414,9 @@ void emailAddress::parseImpl(
 					++p;
 
 				} else {
-
 					state = State_LocalPartRFC2047Middle;
 					localPart << '?';
-					localPart << c;
-					++p;
 				}
-
 				break;
 
 			case State_LocalPartRFC2047End:
@@ -581,8 +580,12 @@ void emailAddress::generateImpl(
 	} else {
 
 		// Local part
+		// (an address cannot be folded)
+		generationContext localPartCtx(ctx);
+		localPartCtx.setMaxLineLength(lineLengthLimits::infinite);
+
 		vmime::utility::outputStreamStringAdapter os(localPart);
-		m_localName.generate(ctx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
+		m_localName.generate(localPartCtx, os, 0, NULL, text::QUOTE_IF_NEEDED, NULL);
 
 		// Domain part as IDNA
 		domainPart = domainNameToIDNA(m_domainName.getConvertedText(vmime::charsets::UTF_8));
-- 
2.43.0


From b6c0b4bf6ef57bae9195c9d27f10f98470a78631 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 040/236] fix: space between words of a display name lost next
 to a quoted string

---
 src/vmime/mailbox.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 9ba9814..4cdd902 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -160,8 +160,17 @@ void mailbox::parseImpl(
 
 	while (p < pend) {
 		if (state == State_None) {
+
+			const bool spaceBefore = (p < pend && parserHelpers::isSpace(*p));
+
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+
+			// Words of a display name are separated by a space
+			if (spaceBefore && p < pend && address.empty() && !name.empty()) {
+				name += ' ';
+				++hold;
+			}
 			if (p == pend)
 				break;
 
@@ -188,6 +197,7 @@ void mailbox::parseImpl(
 				}
 
 				state = State_String;
+				hold = 0;
 				++p;
 				continue;
 			}
@@ -305,8 +315,17 @@ void mailbox::parseImpl(
 		} else if (state == State_Name) {
 			bool escaped = false;
 			unsigned int comment = 0, at_hold = 0;
+			bool hadComment = false;
 
 			for (; p < pend; ++p) {
+
+				// Quoted string after a comment
+				if (!escaped && !comment && hadComment && *p == '"' && name.size() == hold) {
+					name.clear();
+					hold = 0;
+					state = State_None;
+					break;
+				}
 				if (escaped) {
 					if (!comment) {
 						name += *p;
@@ -324,6 +343,7 @@ void mailbox::parseImpl(
 					escaped = true;
 				} else if (*p == '(') {
 					++comment;
+					hadComment = true;
 				} else if (*p == '<') {
 					state = State_Bracket;
 					break;
@@ -450,14 +470,21 @@ void mailbox::generateImpl(
 
 		for (size_t w = 0 ; !forceEncode && w != m_name.getWordCount() ; ++w) {
 
-			if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII)) {
+			if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII) ||
+			    !m_name.getWordAt(w)->getLanguage().empty()) {
 				forceEncode = true;
 			}
 		}
 
-		size_t pos = curLinePos;
+		// The words are quoted together (white-spaces between quoted strings are not significant)
+		text name(m_name);
 
-		m_name.encodeAndFold(
+		if (!forceEncode && m_name.getWordCount() > 1) {
+			name = text(word(m_name.getWholeBuffer(), vmime::charsets::US_ASCII));
+		}
+
+		size_t pos = curLinePos;
+		name.encodeAndFold(
 			ctx, os, pos, &pos,
 			text::QUOTE_IF_POSSIBLE | (forceEncode ? text::FORCE_ENCODING : 0)
 		);
-- 
2.43.0


From a7793e21e6fa112980922a2159ba2ac2f1d186a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 041/236] fix: generating text added white space between an
 encoded word and adjacent ordinary text

---
 src/vmime/text.cpp | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index f021d05..88d8b79 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -22,6 +22,7 @@
 //
 
 #include "vmime/text.hpp"
+#include "vmime/wordEncoder.hpp"
 
 #include "vmime/parserHelpers.hpp"
 #include "vmime/encoding.hpp"
@@ -344,11 +345,47 @@ void text::encodeAndFold(
 	size_t curLineLength = firstLineOffset;
 	word::generatorState state;
 
-	for (size_t wi = 0 ; wi < getWordCount() ; ++wi) {
+	// Encoded words must be separated from ordinary text by white-spaces, which are significant.
+	// If there are none between two words, then both must be encoded.
+	std::vector <bool> encoded(getWordCount());
+
+	if ((flags & (FORCE_NO_ENCODING | FORCE_ENCODING)) == 0) {
+
+		for (size_t wi = 0 ; wi < getWordCount() ; ++wi) {
+
+			const word& w = *getWordAt(wi);
+			encoded[wi] = wordEncoder::isEncodingNeeded(ctx, w.getBuffer(), w.getCharset(), w.getLanguage());
+		}
+
+		for (bool changed = true ; changed ; ) {
+
+			changed = false;
+
+			for (size_t wi = 1 ; wi < getWordCount() ; ++wi) {
+
+				const string& prev = getWordAt(wi - 1)->getBuffer();
+				const string& next = getWordAt(wi)->getBuffer();
 
+				if (encoded[wi - 1] == encoded[wi] || prev.empty() || next.empty()) {
+					continue;
+				}
+
+				// There may be white-spaces at the end of ordinary text, and at the beginning of
+				// any word (the generator drops a leading space from an encoded word)
+				if (!parserHelpers::isSpace(next[0]) &&
+				    (encoded[wi - 1] || !parserHelpers::isSpace(prev[prev.length() - 1]))) {
+
+					encoded[wi - 1] = encoded[wi] = true;
+					changed = true;
+				}
+			}
+		}
+	}
+
+	for (size_t wi = 0 ; wi < getWordCount() ; ++wi) {
 		getWordAt(wi)->generate(
 			ctx, os, curLineLength,
-			&curLineLength, flags, &state
+			&curLineLength, flags | (encoded[wi] ? FORCE_ENCODING : 0), &state
 		);
 	}
 
-- 
2.43.0


From 032bfe8949fcc4a70a1c52fd639119550eda33b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 042/236] fix: a space was added between words of a text once
 there had been an encoded word

---
 src/vmime/word.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 73626e2..799d998 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -721,6 +721,8 @@ void word::generate(
 			}
 		}
 
+		state->prevWordIsEncoded = false;
+
 	/*
 		RFC #2047:
 		4. Encodings
-- 
2.43.0


From 06d6eb37f2b1ba28cad5b84994e72198bf526375 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 043/236] fix: an address whose local part is an equals sign

---
 src/vmime/emailAddress.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index 5de5925..94e5c3b 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -339,8 +339,6 @@ void emailAddress::parseImpl(
 
 					state = State_LocalPartMiddle;
 					localPart << '=';
-					localPart << c;
-					++p;
 				}
 
 				break;
-- 
2.43.0


From c37a766464fbd2a9fc7debb8aeb7a36cb31ad8cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 044/236] fix: encoded words in charsets with escape sequences
 had undecodable contents

---
 src/vmime/wordEncoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 52a3385..76ccbf3 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -204,7 +204,7 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 
 		size_t inputCount = 0;
 		size_t outputCount = 0;
-		string encodeBuffer;
+		size_t encodeCount = 0;
 
 		while ((inputCount == 0 || outputCount < maxLength) && (inputCount < remaining)) {
 
@@ -221,14 +221,14 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			string encodeBytes;
 			conv->convert(inputChar, encodeBytes);
 
-			encodeBuffer += encodeBytes;
+			encodeCount += encodeBytes.length();
 
 			// Compute number of output bytes
 			if (m_encoding == ENCODING_B64) {
 
 				outputCount = std::max(
 					static_cast <size_t>(4),
-					(encodeBuffer.length() * 4) / 3
+					(encodeCount * 4) / 3
 				);
 
 			} else {  // ENCODING_QP
@@ -243,6 +243,11 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			inputCount += inputCharLength;
 		}
 
+		// Convert the characters all at once, as the charset may need
+		// escape sequences to change its state between characters
+		string encodeBuffer;
+		conv->convert(string(m_buffer, m_pos, inputCount), encodeBuffer);
+
 		// Encode chunk
 		utility::inputStreamStringAdapter in(encodeBuffer);
 
-- 
2.43.0


From 9a03293c83af5426708e984aa572c3e5381d531d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 045/236] fix: white space between words of a text was lost or
 added when one of them had to be encoded

---
 src/vmime/text.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 88d8b79..a1c5989 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -355,6 +355,26 @@ void text::encodeAndFold(
 
 			const word& w = *getWordAt(wi);
 			encoded[wi] = wordEncoder::isEncodingNeeded(ctx, w.getBuffer(), w.getCharset(), w.getLanguage());
+
+			// Text that is too long to be folded will be encoded, too
+			size_t runLength = 0;
+
+			for (size_t i = 0 ; !encoded[wi] && i < w.getBuffer().length() ; ++i) {
+
+				runLength = parserHelpers::isSpace(w.getBuffer()[i]) ? 0 : runLength + 1;
+
+				if (runLength >= ctx.getMaxLineLength() - 3) {
+					encoded[wi] = true;
+				}
+			}
+		}
+
+		// White-spaces between two encoded words are not significant, unless encoded
+		for (size_t wi = 1 ; wi + 1 < getWordCount() ; ++wi) {
+
+			if (getWordAt(wi)->getBuffer().find_first_not_of(" \t\r\n") == string::npos && encoded[wi - 1]) {
+				encoded[wi] = true;
+			}
 		}
 
 		for (bool changed = true ; changed ; ) {
-- 
2.43.0


From 61904e6411c52bb46af38fe56be33fd6e187d899 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 046/236] fix: white space after an encoded word was lost when
 the text ends with an empty folded line

---
 src/vmime/word.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 799d998..290013a 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -252,17 +252,16 @@ shared_ptr <word> word::parseNext(
 	}
 
 	if (startPos != end) {
-
-		if (state->prevIsEncoded && !state->isFirst) {
-			unencoded = whiteSpaces + unencoded;
-		}
-
 		unencoded += buffer.substr(startPos, end - startPos);
 	}
 
 	// Treat unencoded text at the end of the buffer
 	if (!unencoded.empty()) {
 
+		if (state->prevIsEncoded && !state->isFirst) {
+			unencoded = whiteSpaces + unencoded;
+		}
+
 		shared_ptr <word> w = make_shared <word>(unencoded, defaultCharset);
 		w->setParsedBounds(position, end);
 
-- 
2.43.0


From c26a3ed7d4fa359892a9757f35d843487b7bb153 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 047/236] fix: a word made of white space was lost after an
 adjacent word had to be encoded

---
 src/vmime/text.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index a1c5989..be80299 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -369,13 +369,6 @@ void text::encodeAndFold(
 			}
 		}
 
-		// White-spaces between two encoded words are not significant, unless encoded
-		for (size_t wi = 1 ; wi + 1 < getWordCount() ; ++wi) {
-
-			if (getWordAt(wi)->getBuffer().find_first_not_of(" \t\r\n") == string::npos && encoded[wi - 1]) {
-				encoded[wi] = true;
-			}
-		}
 
 		for (bool changed = true ; changed ; ) {
 
@@ -390,6 +383,15 @@ void text::encodeAndFold(
 					continue;
 				}
 
+				// White-spaces between two encoded words are not significant, unless encoded
+				if (encoded[wi - 1] && wi + 1 < getWordCount() &&
+				    next.find_first_not_of(" \t\r\n") == string::npos) {
+
+					encoded[wi] = true;
+					changed = true;
+					continue;
+				}
+
 				// There may be white-spaces at the end of ordinary text, and at the beginning of
 				// any word (the generator drops a leading space from an encoded word)
 				if (!parserHelpers::isSpace(next[0]) &&
-- 
2.43.0


From 30941c45f6daccdfe863d0c93e0fddd44b8d94e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 048/236] fix: empty sections of extended parameters were
 ignored

---
 src/vmime/parameterizedHeaderField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 37c5a1f..3793363 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -263,7 +263,8 @@ void parameterizedHeaderField::parseImpl(
 				}
 
 				// Don't allow ill-formed parameters
-				if (attrStart != attrEnd && (value.length() || quoted)) {
+				// (there may be nothing in a section of an extended parameter)
+				if (attrStart != attrEnd && (value.length() || quoted || buffer[attrEnd - 1] == '*')) {
 
 					string name(buffer.begin() + attrStart, buffer.begin() + attrEnd);
 
-- 
2.43.0


From 733076c21a253a100b4c8cb4aff78917115a0a95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 049/236] fix: white space at the beginning of a quoted
 parameter value was lost

---
 src/vmime/parameter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 7d58d63..31dfb25 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -246,6 +246,19 @@ void parameter::parse(
 			}
 
 		// Simply copy data, as it is not encoded
+		} else if (chunk.data.find("=?") == string::npos) {
+
+			// There is nothing but line breaks (folding) to remove
+			for (size_t i = 0, n = chunk.data.length() ; i < n ; ++i) {
+				if (chunk.data[i] != '\r' && chunk.data[i] != '\n') {
+					value << chunk.data[i];
+				}
+			}
+
+			if (!foundCharsetChunk && ctx.getInternationalizedEmailSupport()) {
+				ch = charset(charsets::UTF_8);
+			}
+
 		} else {
 
 			// This syntax is non-standard (expressly prohibited
-- 
2.43.0


From 04a285f4faf52a8d9e67e85c19e85341b342c0b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 050/236] fix: some characters not allowed in extended
 parameter values were not encoded

---
 src/vmime/parameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 31dfb25..edec0f1 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -553,6 +553,8 @@ void parameter::generateImpl(
 				case '\r':
 				case '\n':
 				case '%':
+				case '\'':
+				case '\\':
 				case '"':
 				case ';':
 				case ',':
-- 
2.43.0


From 261c5b1955f277d2bf7decc7002adc2839d1da93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 051/236] fix: nothing was generated for an empty parameter
 value with a language

---
 src/vmime/parameter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index edec0f1..f59ee0b 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -603,8 +603,7 @@ void parameter::generateImpl(
 			}
 		}
 
-		if (!currentSection.empty()) {
-
+		if (!currentSection.empty() || sectionText.empty()) {
 			sectionText.push_back(currentSection);
 			sectionCount++;
 		}
-- 
2.43.0


From 2eed63f892eba128564807e3ae39ec7591e5adef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 052/236] fix: a long parameter value was not quoted nor
 escaped when also generated without RFC-2231

---
 src/vmime/parameter.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index f59ee0b..4d1977e 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -365,8 +365,12 @@ void parameter::generateImpl(
 
 	size_t valueLength = 0;
 
-	// Use worst-case length name.length()+2 for 'name=' part of line
-	for (size_t i = 0 ; (i < value.length()) && (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) ; ++i, ++valueLength) {
+	for (size_t i = 0 ; i < value.length() ; ++i) {
+
+		// Use worst-case length name.length()+2 for 'name=' part of line
+		if (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) {
+			++valueLength;
+		}
 
 		switch (value[i]) {
 
@@ -431,7 +435,27 @@ void parameter::generateImpl(
 		// Send the name in quoted-printable, so outlook express et.al.
 		// will understand the real filename
 		size_t oldLen = sevenBitBuffer.length();
-		m_value->generate(sevenBitStream);
+
+		if (needQuotedPrintable || !m_value->getLanguage().empty()) {
+
+			m_value->generate(
+				generationContext::getDefaultContext(), sevenBitStream,
+				0, NULL, text::FORCE_ENCODING, NULL
+			);
+
+		} else {
+
+			// Too long, but nothing else
+			for (size_t i = 0, n = value.length() ; i < n ; ++i) {
+
+				if (value[i] == '"' || value[i] == '\\') {
+					sevenBitStream << '\\';
+				}
+
+				sevenBitStream << value[i];
+			}
+		}
+
 		pos += sevenBitBuffer.length() - oldLen;
 		extended = true;		// also send with RFC-2231 encoding
 
-- 
2.43.0


From 04a23e91370dd304f0778d310ac40b1fa44d1897 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 053/236] fix: NUL characters were generated as is in the text
 of header fields

---
 src/vmime/wordEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 76ccbf3..418063f 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -290,7 +290,8 @@ bool wordEncoder::isEncodingNeeded(
 
 	// Force encoding when there are only ASCII chars, but there is
 	// also at least one of '\n' or '\r' (header fields)
-	if (buffer.find_first_of("\n\r") != string::npos) {
+	if (buffer.find_first_of("\n\r") != string::npos ||
+	    buffer.find('\0') != string::npos) {
 		return true;
 	}
 
-- 
2.43.0


From 26c9fcabf47281513337f09cda8f116f3fa8dba6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 054/236] fix: line breaks in the value of a header field could
 start a new field

---
 src/vmime/headerField.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 2b8cec8..d60df48 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -28,6 +28,8 @@
 
 #include "vmime/exception.hpp"
 
+#include "vmime/utility/outputStreamStringAdapter.hpp"
+
 
 namespace vmime {
 
@@ -283,7 +285,33 @@ void headerField::generateImpl(
 
 	os << m_name + ": ";
 
-	m_value->generate(ctx, os, curLinePos + m_name.length() + 2, newLinePos);
+	string value;
+	utility::outputStreamStringAdapter valueStream(value);
+
+	m_value->generate(ctx, valueStream, curLinePos + m_name.length() + 2, newLinePos);
+	valueStream.flush();
+
+	// Whatever the value contains, it must not end this field: there should be
+	// no line break, except those followed by some white-space then text
+	for (size_t i = 0 ; i < value.length() ; ++i) {
+
+		if (value[i] == '\r' && i + 2 < value.length() && value[i + 1] == '\n' &&
+		    (value[i + 2] == ' ' || value[i + 2] == '\t')) {
+
+			const size_t next = value.find_first_not_of(" \t", i + 2);
+
+			if (next != string::npos && value[next] != '\r' && value[next] != '\n' && value[next] != '\0') {
+				++i;
+				continue;
+			}
+		}
+
+		if (value[i] == '\r' || value[i] == '\n' || value[i] == '\0') {
+			value[i] = ' ';
+		}
+	}
+
+	os << value;
 }
 
 
-- 
2.43.0


From 60df7792676ef4ba228161c9564c7e3ddf74cd45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 055/236] fix: keep leap seconds of parsed dates

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 1ddca66..97e8028 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -344,7 +344,7 @@ void datetime::parseImpl(
 							// Second
 							const int second = parseNumber(p, pend);
 
-							m_second = (second >= 0 && second <= 59) ? second : 0;
+							m_second = (second >= 0 && second <= 60) ? second : 0;  // may be a leap second
 
 							while (p < pend && !parserHelpers::isSpace(*p)) ++p;
 							while (p < pend && parserHelpers::isSpace(*p)) ++p;
-- 
2.43.0


From 00979d66f724792f9de226f8fffa626782b3b61a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 056/236] fix: interpret two-digit years as RFC-5322 requires

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 97e8028..a7ae563 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -292,7 +292,7 @@ void datetime::parseImpl(
 				// Year
 				const int year = parseNumber(p, pend);
 
-				if (year < 70)         m_year = year + 2000;
+				if (year < 50)         m_year = year + 2000;
 				else if (year < 1000)  m_year = year + 1900;
 				else                   m_year = year;
 
-- 
2.43.0


From fe08bcddb32a40af23cbb98687ac4fef52d97fdd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 057/236] fix: keep the instant when constructing a date from a
 Unix time and a zone

---
 src/vmime/dateTime.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index a7ae563..f7c823d 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -692,7 +692,11 @@ datetime::datetime(const time_t t, const int zone) {
 	m_hour = tms.tm_hour;
 	m_minute = tms.tm_min;
 	m_second = tms.tm_sec;
-	m_zone = zone;
+	m_zone = GMT;
+
+	if (zone != GMT) {
+		*this = utility::datetimeUtils::toLocalTime(*this, zone);
+	}
 }
 
 
-- 
2.43.0


From a648584f26e0a3bfaa26485777004f1f416c3a52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 058/236] fix: ignore comments in dates

---
 src/vmime/dateTime.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index f7c823d..4f4bc93 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -93,6 +93,32 @@ static int parseNumber(const char*& p, const char* const pend) {
 	return value;
 }
 
+/** Replace each comment of a date with a space.
+  */
+static const string removeComments(const char* p, const char* const pend) {
+
+	string result;
+	int level = 0;
+
+	for ( ; p < pend ; ++p) {
+
+		if (level > 0 && *p == '\\' && p + 1 < pend) {
+			++p;  // quoted character inside a comment
+		} else if (*p == '(') {
+			++level;
+		} else if (level > 0) {
+			if (*p == ')' && --level == 0) {
+				result += ' ';
+			}
+		} else {
+			result += *p;
+		}
+	}
+
+	return result;
+}
+
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -101,8 +127,10 @@ void datetime::parseImpl(
 	size_t* newPosition
 ) {
 
-	const char* const pend = buffer.data() + end;
-	const char* p = buffer.data() + position;
+	const string value = removeComments(buffer.data() + position, buffer.data() + end);
+
+	const char* const pend = value.data() + value.length();
+	const char* p = value.data();
 
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
-- 
2.43.0


From f9f490077f0f614c78efe2b21df4c041504bac6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 059/236] fix: zone of the current time around changes of
 daylight saving time

---
 src/vmime/platforms/posix/posixHandler.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 3e9d196..fcad649 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -118,19 +118,22 @@ const vmime::datetime posixHandler::getCurrentLocalTime() const {
 	tm gmt = *::gmtime(&t);  // WARNING: this is not thread-safe!
 #endif
 
-	// "A negative value for tm_isdst causes mktime() to attempt
-	//  to determine whether Daylight Saving Time is in effect
-	//  for the specified time."
-	local.tm_isdst = -1;
-	gmt.tm_isdst = -1;
+	// Calculate the difference (in minutes). mktime() can not be used for
+	// this, as it would apply the rules of the local time zone to the UTC time,
+	// which gives a wrong result around the changes of Daylight Saving Time.
+	int days = local.tm_yday - gmt.tm_yday;
 
-	// Calculate the difference (in seconds)
-	const time_t diff = ::mktime(&local) - ::mktime(&gmt);
+	if (local.tm_year != gmt.tm_year) {
+		days = (local.tm_year > gmt.tm_year) ? 1 : -1;
+	}
+
+	const int diff =
+		(days * 24 + local.tm_hour - gmt.tm_hour) * 60 + local.tm_min - gmt.tm_min;
 
 	// Return the date
 	return vmime::datetime(
 		local.tm_year + 1900, local.tm_mon + 1, local.tm_mday,
-		local.tm_hour, local.tm_min, local.tm_sec, static_cast <int>(diff / 60)
+		local.tm_hour, local.tm_min, local.tm_sec, diff
 	);
 }
 
-- 
2.43.0


From 118e2e8cca0c4694951be734d63fea9681b80ccf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 060/236] fix: text before an invalid sequence was dropped by
 charset conversion

---
 src/vmime/charsetConverter_icu.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 9f82fc2..8acd51f 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -238,6 +238,10 @@ void charsetConverter_icu::convert(
 					st->outputBytesWritten += cpTarget - &cpOutBuffer[0];
 				}
 
+				// Write to destination stream (including what has been converted
+				// before an error)
+				out.write(&cpOutBuffer[0], (cpTarget - &cpOutBuffer[0]));
+
 				// (*) If an error occurred while converting from input charset, throw it now
 				if (toErr == U_INVALID_CHAR_FOUND ||
 				    toErr == U_TRUNCATED_CHAR_FOUND ||
@@ -262,9 +266,6 @@ void charsetConverter_icu::convert(
 					}
 				}
 
-				// Write to destination stream
-				out.write(&cpOutBuffer[0], (cpTarget - &cpOutBuffer[0]));
-
 			} while (fromErr == U_BUFFER_OVERFLOW_ERROR);
 
 		} while (toErr == U_BUFFER_OVERFLOW_ERROR);
@@ -440,7 +441,7 @@ void charsetFilteredOutputStream_icu::convertChunk(
 			    toErr == U_TRUNCATED_CHAR_FOUND ||
 			    toErr == U_ILLEGAL_CHAR_FOUND) {
 
-				throw exceptions::illegal_byte_sequence_for_charset();
+				// Error will be thrown later (*)
 
 			} else {
 
@@ -468,6 +469,18 @@ void charsetFilteredOutputStream_icu::convertChunk(
 				UBool(flush && toErr != U_BUFFER_OVERFLOW_ERROR), &fromErr
 			);
 
+			// Write successfully converted bytes (including what has been
+			// converted before an error)
+			m_stream.write(cpBuffer, cpTarget - cpBuffer);
+
+			// (*) If an error occurred while converting from input charset, throw it now
+			if (toErr == U_INVALID_CHAR_FOUND ||
+			    toErr == U_TRUNCATED_CHAR_FOUND ||
+			    toErr == U_ILLEGAL_CHAR_FOUND) {
+
+				throw exceptions::illegal_byte_sequence_for_charset();
+			}
+
 			if (fromErr != U_BUFFER_OVERFLOW_ERROR && U_FAILURE(fromErr)) {
 
 				if (fromErr == U_INVALID_CHAR_FOUND ||
@@ -484,9 +497,6 @@ void charsetFilteredOutputStream_icu::convertChunk(
 				}
 			}
 
-			// Write successfully converted bytes
-			m_stream.write(cpBuffer, cpTarget - cpBuffer);
-
 		} while (fromErr == U_BUFFER_OVERFLOW_ERROR);
 
 	} while (toErr == U_BUFFER_OVERFLOW_ERROR);
-- 
2.43.0


From b315ce01547a107ad04dd475d77f6b630f989b9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 061/236] fix: count of bytes read by a charset conversion
 which replaces invalid sequences

---
 src/vmime/charsetConverter_icu.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 8acd51f..4af6426 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -225,7 +225,9 @@ void charsetConverter_icu::convert(
 					UBool(flush && toErr != U_BUFFER_OVERFLOW_ERROR), &fromErr
 				);
 
-				if (st) {
+				if (st && (toErr == U_INVALID_CHAR_FOUND ||
+				           toErr == U_TRUNCATED_CHAR_FOUND ||
+				           toErr == U_ILLEGAL_CHAR_FOUND)) {
 
 					// Decrement input bytes count by the number of input bytes in error
 					char errBytes[16];
@@ -235,6 +237,9 @@ void charsetConverter_icu::convert(
 	 				ucnv_getInvalidChars(m_from, errBytes, &errBytesLen, &errBytesErr);
 
 					st->inputBytesRead -= errBytesLen;
+				}
+
+				if (st) {
 					st->outputBytesWritten += cpTarget - &cpOutBuffer[0];
 				}
 
-- 
2.43.0


From 613e1349660e38569c8054875d5a0aba3af2d280 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 062/236] fix: conversion to IDNA from a charset which is not a
 superset of ASCII

---
 src/vmime/charsetConverter_idna.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index 8aeb9b9..d4ab0d8 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -89,21 +89,34 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 	if (m_dest == "idna") {
 
-		if (utility::stringUtils::is7bit(in)) {
+		string inUTF8;
+
+		try {
+
+			charset::convert(in, inUTF8, m_source, vmime::charsets::UTF_8);
+
+		} catch (exceptions::charset_conv_error&) {
+
+			if (!utility::stringUtils::is7bit(in)) {
+				throw;
+			}
+
+			// Unknown charset: assume this is a superset of ASCII
+			inUTF8 = in;
+		}
+
+		if (utility::stringUtils::is7bit(inUTF8)) {
 
 			if (st) {
 				st->inputBytesRead = in.length();
-				st->outputBytesWritten = in.length();
+				st->outputBytesWritten = inUTF8.length();
 			}
 
 			// No need to encode as Punycode
-			out = in;
+			out = inUTF8;
 			return;
 		}
 
-		string inUTF8;
-		charset::convert(in, inUTF8, m_source, vmime::charsets::UTF_8);
-
 		// Do not read past the end of an incomplete sequence
 		if (!utf8::is_valid(inUTF8.begin(), inUTF8.end())) {
 
-- 
2.43.0


From 646ea974e4684f93d96500c5f21e1cd4079cdb0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 063/236] fix: the prefix of an encoded IDNA label is
 case-insensitive

---
 src/vmime/charsetConverter_idna.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index d4ab0d8..9aff46c 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -167,7 +167,7 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 	} else if (m_source == "idna") {
 
-		if (in.length() < 5 || in.substr(0, 4) != "xn--") {
+		if (in.length() < 5 || !utility::stringUtils::isStringEqualNoCase(in, "xn--", 4)) {
 
 			if (st) {
 				st->inputBytesRead = in.length();
-- 
2.43.0


From 18bdbad645dee55f4877f756f207e85074c4160b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:11:08 +0000
Subject: [PATCH 064/236] fix: invalid sequences replaced with a control
 character instead of the given string

---
 src/vmime/charsetConverter_icu.cpp | 43 ++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 4af6426..ecee896 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -38,6 +38,7 @@
 
 	#include <unicode/ucnv.h>
 	#include <unicode/ucnv_err.h>
+	#include <unicode/ucnv_cb.h>
 
 #endif // VMIME_BUILDING_DOC
 
@@ -48,6 +49,36 @@
 namespace vmime {
 
 
+#ifndef VMIME_BUILDING_DOC
+
+extern "C" {
+
+/** Replaces invalid sequences of the source charset with U+FFFD. The default
+  * callback of ICU replaces some of them with a control character (U+001A),
+  * which is not replaced with the user-specified string.
+  */
+static void vmime_toUnicodeSubstitute(
+	const void* /* context */,
+	UConverterToUnicodeArgs* args,
+	const char* /* codeUnits */,
+	int32_t /* length */,
+	UConverterCallbackReason reason,
+	UErrorCode* err
+) {
+
+	static const UChar replacement = 0xfffd;
+
+	if (reason <= UCNV_IRREGULAR) {
+		*err = U_ZERO_ERROR;
+		ucnv_cbToUWriteUChars(args, &replacement, 1, 0, err);
+	}
+}
+
+} // extern "C"
+
+#endif // VMIME_BUILDING_DOC
+
+
 // static
 shared_ptr <charsetConverter> charsetConverter::createGenericConverter(
 	const charset& source,
@@ -136,6 +167,12 @@ void charsetConverter_icu::convert(
 			throw exceptions::charset_conv_error("[ICU] Error when setting substitution string.");
 		}
 
+		ucnv_setToUCallBack(m_from, vmime_toUnicodeSubstitute, NULL, NULL, NULL, &err);
+
+		if (U_FAILURE(err)) {
+			throw exceptions::charset_conv_error("[ICU] Error when setting ToU callback.");
+		}
+
 	} else {
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
@@ -356,6 +393,12 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 			throw exceptions::charset_conv_error("[ICU] Error when setting substitution string.");
 		}
 
+		ucnv_setToUCallBack(m_from, vmime_toUnicodeSubstitute, NULL, NULL, NULL, &err);
+
+		if (U_FAILURE(err)) {
+			throw exceptions::charset_conv_error("[ICU] Error when setting ToU callback.");
+		}
+
 	} else {
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
-- 
2.43.0


From 5fdf7b3e6c091d05f70f8168ccd5b15efe500cc8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 065/236] fix: SHA-1 digests computed from several threads
 shared their workspace

---
 src/vmime/security/digest/sha1/sha1MessageDigest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
index c098f14..55b5832 100644
--- a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
+++ b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@@ -211,10 +211,10 @@ void sha1MessageDigest::transform(
 
 	assert(sizeof(unsigned int) == 4);
 
-	CHAR64LONG16* block;
-	static unsigned char workspace[64];
+	// Not shared: several digests may be computed at the same time
+	CHAR64LONG16 workspace;
+	CHAR64LONG16* const block = &workspace;
 
-	block = reinterpret_cast <CHAR64LONG16*>(workspace);
 	memcpy(block, buffer, 64);
 
 	// Copy context->state[] to working vars
-- 
2.43.0


From 97c9aff567ecb9965801f31d42faed004015f6ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 066/236] fix: out of range access when parsing a URL with '@'
 before the protocol separator

---
 src/vmime/utility/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index f0d9c65..203569d 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -245,7 +245,7 @@ void url::parse(const string& str) {
 
 	} else {
 
-		if (atPos != string::npos && atPos < slashPos) {
+		if (atPos != string::npos && atPos >= protoEnd + 3 && atPos < slashPos) {
 
 			const string userPart(str.begin() + protoEnd + 3, str.begin() + atPos);
 			const size_t colonPos = userPart.find(':');
-- 
2.43.0


From a13791df3b0ea1ae96b24efeaad91d2a92663ea6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 067/236] fix: refuse URLs whose port is out of range

---
 src/vmime/utility/url.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index 203569d..724025b 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -325,7 +325,10 @@ void url::parse(const string& str) {
 	iss.imbue(std::locale::classic());
 
 	port_t portNum = 0;
-	iss >> portNum;
+
+	if (!port.empty() && !(iss >> portNum)) {
+		throw exceptions::malformed_url("Port is out of range");
+	}
 
 	if (portNum == 0) {
 		portNum = UNSPECIFIED_PORT;
-- 
2.43.0


From 016a68b5748d395be75aa7963e425ba9a4677dd8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 068/236] fix: password of a URL without user name was lost

---
 src/vmime/utility/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index 724025b..bd8652b 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -113,7 +113,7 @@ const string url::build() const {
 
 	oss << m_protocol << "://";
 
-	if (!m_username.empty()) {
+	if (!m_username.empty() || !m_password.empty()) {
 
 		oss << urlUtils::encode(m_username);
 
-- 
2.43.0


From ff8a8d80671433bf77d7ccb215e1aa8f9228c6e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 069/236] fix: host names enclosed in brackets, and out of
 range access for host names of one character, in URLs

---
 src/vmime/utility/urlUtils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..7f9bdd0 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -68,12 +68,13 @@ const string urlUtils::encode(const string& s) {
 
 const string urlUtils::encodeHost(const string& s) {
 
-	if (s.size() == 0) {
+	// Only IPv6 addresses are enclosed in brackets
+	if (s.find(':') == string::npos) {
 		return encode(s);
 	}
 
-	for (auto it = s.begin() + 1 ; it != s.end() - 1 ; ++it) {
-		if (!parserHelpers::isXDigit(*it) && *it != ':') {
+	for (auto it = s.begin() ; it != s.end() ; ++it) {
+		if (!parserHelpers::isXDigit(*it) && *it != ':' && *it != '.') {
 			return encode(s);
 		}
 	}
-- 
2.43.0


From 71cb15a190bdecbac8ee816751b056d9790f854e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 070/236] fix: path: appending a path to itself, or assigning
 one of its own components, used freed memory

---
 src/vmime/utility/path.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..ffe172a 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -75,10 +75,10 @@ path path::operator/(const component& c) const {
 
 path& path::operator/=(const path& p) {
 
-	const list::size_type size = m_list.size();
+	// 'p' may be this path
+	const list other(p.m_list);
 
-	m_list.resize(size + p.m_list.size());
-	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
+	m_list.insert(m_list.end(), other.begin(), other.end());
 
 	return *this;
 }
@@ -115,8 +115,10 @@ path& path::operator=(const path& p) {
 
 path& path::operator=(const component& c) {
 
-	m_list.resize(1);
-	m_list[0] = c;
+	// 'c' may be a component of this path
+	const list newList(1, c);
+
+	m_list = newList;
 
 	return *this;
 }
-- 
2.43.0


From c71d3ec489c204f71913ee9cff1c723c86298a06 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 071/236] fix: path::renameParent() also renamed paths which
 differ from the old parent in its last component

---
 src/vmime/utility/path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index ffe172a..27df8f9 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -236,8 +236,9 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal) {
 		return;
+	}
 
 	list newList;
 
-- 
2.43.0


From df7abd5a2dec79bf9278e9372c739a37b5b6789e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 072/236] fix: path::fromString() kept part of separators
 longer than one character

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 27df8f9..8c909e4 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -298,7 +298,7 @@ path path::fromString(const string& str, const string& sep, const charset& cset)
 		   p.appendComponent(component(comp, cset));
 		}
 
-		start = end + 1;
+		start = end + sep.length();
 
 	} while (end != string::npos);
 
-- 
2.43.0


From e5ab06a7507e18cf246a212b5d7d9b6d26bd5150 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 073/236] fix: stringUtils: '=' at the end of a string was not
 counted as an ASCII character

---
 src/vmime/utility/stringUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.cpp b/src/vmime/utility/stringUtils.cpp
index 823a3ea..a5e20cc 100644
--- a/src/vmime/utility/stringUtils.cpp
+++ b/src/vmime/utility/stringUtils.cpp
@@ -154,7 +154,7 @@ size_t stringUtils::countASCIIchars(
 
 		if (parserHelpers::isAscii(*i)) {
 
-			if (*i != '=' || ((i + 1) != end && *(i + 1) != '?')) {  // To avoid bad behaviour...
+			if (*i != '=' || (i + 1) == end || *(i + 1) != '?') {  // To avoid bad behaviour...
 				++count;
 			}
 		}
-- 
2.43.0


From 19f0cfc152439288c0681dbcd887fd6204d23d0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 074/236] fix: stringUtils::makeHexStringFromBytes() dropped
 the leading zero of bytes below 0x10

---
 src/vmime/utility/stringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.hpp b/src/vmime/utility/stringUtils.hpp
index a4b05ec..e434d0b 100644
--- a/src/vmime/utility/stringUtils.hpp
+++ b/src/vmime/utility/stringUtils.hpp
@@ -62,7 +62,7 @@ public:
 		std::stringstream ss;
 		for (const byte_t& b : data)
 		{
-			ss << std::hex << int(b);
+			ss << std::hex << int(b >> 4) << int(b & 0x0f);
 		}
 		return ss.str();
 	}
-- 
2.43.0


From c106fefa65d94607403d4a0800d9d95cdb25d0cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 075/236] fix: stringUtils::fromString() returned an
 uninitialized value for empty strings

---
 src/vmime/utility/stringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/stringUtils.hpp b/src/vmime/utility/stringUtils.hpp
index e434d0b..48a0406 100644
--- a/src/vmime/utility/stringUtils.hpp
+++ b/src/vmime/utility/stringUtils.hpp
@@ -214,7 +214,7 @@ public:
 	template <class TYPE>
 	static const TYPE fromString(const string& value) {
 
-		TYPE ret;
+		TYPE ret = TYPE();
 
 		std::istringstream iss(value);
 		iss.imbue(std::locale::classic());
-- 
2.43.0


From b5c13b240d86d4ea1e52870543bfa4c14d7487b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 076/236] fix: propertySet::valueToString() could not be used
 with anything but strings and booleans

---
 src/vmime/propertySet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/propertySet.hpp b/src/vmime/propertySet.hpp
index 7ea31d5..fc38633 100644
--- a/src/vmime/propertySet.hpp
+++ b/src/vmime/propertySet.hpp
@@ -376,7 +376,7 @@ public:
 	template <typename TYPE>
 	static string valueToString(const TYPE& value) {
 
-		std::ostringstream oss(value);
+		std::ostringstream oss;
 		oss.imbue(std::locale::classic());  // no formatting
 
 		oss << value;
-- 
2.43.0


From dd7ed50ab4b7296f4220665d22642dadaeb4eaab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 077/236] fix: parsing a Received field kept values from a
 previous parsing

---
 src/vmime/relay.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index f989615..a6ed859 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -65,6 +65,14 @@ void relay::parseImpl(
 	size_t* newPosition
 ) {
 
+	m_from.clear();
+	m_by.clear();
+	m_via.clear();
+	m_with.clear();
+	m_id.clear();
+	m_for.clear();
+	m_date = datetime();
+
 	const char* const pend = buffer.data() + end;
 	const char* const pstart = buffer.data() + position;
 	const char* p = pend - 1;
-- 
2.43.0


From 9c29a8fb280163201050e8732c42ebdcd331ee80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 078/236] fix: in Received fields, words beginning like a
 keyword were taken for it (eg. a host name beginning with 'fo')

---
 src/vmime/relay.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index a6ed859..0c633fd 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -135,32 +135,32 @@ void relay::parseImpl(
 
 				if (!inComment) {
 
-					if (utility::stringUtils::isStringEqualNoCase(word, "from", 4)) {
+					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
 						newPart = Part_From;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "by", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "by")) {
 
 						newPart = Part_By;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "via", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "via")) {
 
 						newPart = Part_Via;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "with", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "with")) {
 
 						newPart = Part_With;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "id", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "id")) {
 
 						newPart = Part_Id;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "for", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "for")) {
 
 						newPart = Part_For;
 						keyword = true;
-- 
2.43.0


From 121e931a07de1904f48c3d2d8d5bd75c8512d37f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 079/236] fix: in Received fields, a comment of one word
 swallowed what followed, and nested comments were cut

---
 src/vmime/relay.cpp | 59 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index 0c633fd..0bbed97 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -44,6 +44,34 @@ relay::relay(const relay& r)
 }
 
 
+// Go through (a part of) a comment, which may contain other comments.
+// Returns the position just after the comment, or the end of the string
+// if the comment is not closed there.
+
+static size_t skipComment(const string& str, unsigned int* level) {
+
+	for (size_t i = 0 ; i < str.length() ; ++i) {
+
+		if (str[i] == '\\') {
+			++i;
+		} else if (str[i] == '(') {
+			++*level;
+		} else if (str[i] == ')') {
+
+			if (*level > 0) {
+				--*level;
+			}
+
+			if (*level == 0) {
+				return i + 1;
+			}
+		}
+	}
+
+	return str.length();
+}
+
+
 /*
 
  RFC #2822:
@@ -110,7 +138,7 @@ void relay::parseImpl(
 
 		Parts part = Part_None;
 		bool cont = true;
-		bool inComment = false;
+		unsigned int commentLevel = 0;
 
 		while (cont) {
 
@@ -118,22 +146,18 @@ void relay::parseImpl(
 
 			if ((cont = !(iss >> word).fail())) {
 
-				// A little hack for handling comments
-				if (inComment) {
+				// Words inside comments are not keywords
+				if (commentLevel != 0) {
 
-					size_t par = word.find(')');
-
-					if (par != string::npos) {
+					const size_t commentEnd = skipComment(word, &commentLevel);
 
-						previous.push_back(string(word.begin(), word.begin() + par + 1));
-						word.erase(word.begin(), word.begin() + par + 1);
-						inComment = false;
-					}
+					previous.push_back(string(word.begin(), word.begin() + commentEnd));
+					word.erase(word.begin(), word.begin() + commentEnd);
 				}
 
 				bool keyword = false;
 
-				if (!inComment) {
+				if (commentLevel == 0) {
 
 					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
@@ -167,10 +191,17 @@ void relay::parseImpl(
 					}
 				}
 
-				if (!keyword) {
+				if (!keyword && !word.empty()) {
+
+					const string::size_type par = word.find('(');
+
+					if (par != string::npos) {
+
+						string comment(word.begin() + par, word.end());
 
-					if (word.find('(') != string::npos) {
-						inComment = true;
+						while (commentLevel == 0 && !comment.empty()) {
+							comment.erase(0, skipComment(comment, &commentLevel));
+						}
 					}
 
 					previous.push_back(word);
-- 
2.43.0


From 2a510b896007a40e89023976e2f4be3d6ca4be0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 080/236] fix: comparison of encodings and content dispositions
 depended on the case of the right operand

---
 src/vmime/contentDisposition.cpp | 2 +-
 src/vmime/encoding.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/contentDisposition.cpp b/src/vmime/contentDisposition.cpp
index 8c78475..23ea3f3 100644
--- a/src/vmime/contentDisposition.cpp
+++ b/src/vmime/contentDisposition.cpp
@@ -92,7 +92,7 @@ contentDisposition& contentDisposition::operator=(const string& name) {
 
 bool contentDisposition::operator==(const contentDisposition& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bca3157..e949eff 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -140,7 +140,7 @@ encoding& encoding::operator=(const string& name) {
 
 bool encoding::operator==(const encoding& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
-- 
2.43.0


From eac2924df9ddc1463390cc612dfa41d97a5d66e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 081/236] fix: disposition modifiers not in lower case were not
 found, once parsed or given to the constructor

---
 src/vmime/disposition.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index c8fa617..a05815f 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -45,7 +45,7 @@ disposition::disposition(
 	  m_sendingMode(sendingMode),
 	  m_type(type) {
 
-	m_modifiers.push_back(modifier);
+	addModifier(modifier);
 }
 
 
@@ -137,7 +137,7 @@ const string& disposition::getType() const {
 
 void disposition::addModifier(const string& modifier) {
 
-	if (!hasModifier(modifier)) {
+	if (!modifier.empty() && !hasModifier(modifier)) {
 		m_modifiers.push_back(utility::stringUtils::toLower(modifier));
 	}
 }
@@ -283,7 +283,7 @@ void disposition::parseImpl(
 
 			if (modifierEnd > modifierStart) {
 
-				m_modifiers.push_back(
+				addModifier(
 					string(
 						buffer.begin() + modifierStart,
 						buffer.begin() + modifierEnd
-- 
2.43.0


From b785df8af75435f43aa86a2070dbcd0b846b6382 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 082/236] fix: '@' and '>' in the quoted local part of a path

---
 src/vmime/path.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index a672b22..bba3206 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -141,8 +141,13 @@ void path::parseImpl(
 
 		const size_t addrStart = pos;
 
-		while (pos < end && buffer[pos] != '>') {
-			++pos;
+		for (bool quoted = false ; pos < end && (quoted || buffer[pos] != '>') ; ++pos) {
+
+			if (buffer[pos] == '"') {
+				quoted = !quoted;
+			} else if (quoted && buffer[pos] == '\\' && pos + 1 < end) {
+				++pos;
+			}
 		}
 
 		size_t addrEnd = pos;
@@ -158,7 +163,7 @@ void path::parseImpl(
 		addrSpec = string(buffer.begin() + position, buffer.begin() + end);
 	}
 
-	const size_t at = addrSpec.find_first_of('@');
+	const size_t at = addrSpec.find_last_of('@');
 
 	if (at != string::npos) {
 
-- 
2.43.0


From 961bdfbec3eb788f6ec8c658ff9d9ca4a4662e42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 083/236] fix: message identifier following a comment which
 contains a quoted pair

---
 src/vmime/messageId.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 35712f3..0cc75a4 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -87,6 +87,7 @@ void messageId::parseImpl(
 		if (escape) {
 
 			// Ignore this character
+			escape = false;
 
 		} else {
 
-- 
2.43.0


From c64248b5fdf674ff8a04d6c8874d7973983848e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 084/236] fix: lists of message identifiers: identifiers not
 separated by spaces were lost, comments were taken for identifiers

---
 src/vmime/messageId.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 0cc75a4..4393d73 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -174,10 +174,39 @@ shared_ptr <messageId> messageId::parseNext(
 
 	if (pos != end) {
 
+		if (buffer[pos] == '(') {
+
+			// Skip comment (it may contain spaces and other comments)
+			unsigned int commentLevel = 0;
+			size_t commentEnd = pos;
+
+			for ( ; commentEnd < end ; ++commentEnd) {
+
+				const char c = buffer[commentEnd];
+
+				if (c == '\\') {
+					++commentEnd;
+				} else if (c == '(') {
+					++commentLevel;
+				} else if (c == ')' && --commentLevel == 0) {
+
+					if (newPosition) {
+						*newPosition = commentEnd + 1;
+					}
+
+					return null;
+				}
+			}
+		}
+
 		const size_t begin = pos;
 
 		while (pos < end && !parserHelpers::isSpace(buffer[pos])) {
-			++pos;
+
+			// Spaces are not required between two identifiers
+			if (buffer[pos++] == '>') {
+				break;
+			}
 		}
 
 		shared_ptr <messageId> mid = make_shared <messageId>();
-- 
2.43.0


From a2d4dc4a01954e1570e9ca87663f5b60927bd9cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 085/236] fix: assigning a property set to itself removed all
 its properties

---
 src/vmime/propertySet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..eb007b6 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -58,6 +58,10 @@ propertySet::~propertySet() {
 
 propertySet& propertySet::operator=(const propertySet& set) {
 
+	if (&set == this) {
+		return *this;
+	}
+
 	removeAllProperties();
 
 	for (std::list <shared_ptr <property> >::const_iterator it = set.m_props.begin() ;
-- 
2.43.0


From 90ba4c2b49a26000cdaf656d6bb53a8c4437a5a0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:38:12 +0000
Subject: [PATCH 086/236] fix: parsing of property lists: names without value,
 values not followed by a space, quoted values, and names given twice

---
 src/vmime/propertySet.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index eb007b6..57aa2e3 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -117,7 +117,7 @@ void propertySet::parse(const string& props) {
 			// Extract the property name
 			const string::const_iterator optStart = pos;
 
-			for ( ; pos != end && *pos != '=' ; ++pos) {}
+			for ( ; pos != end && *pos != '=' && *pos != ';' ; ++pos) {}
 
 			string::const_iterator optEnd = pos;
 
@@ -126,7 +126,7 @@ void propertySet::parse(const string& props) {
 			const string option(optStart, optEnd);
 			string value = "1";
 
-			if (pos != end) {
+			if (pos != end && *pos == '=') {
 
 				++pos; // skip '='
 
@@ -138,9 +138,10 @@ void propertySet::parse(const string& props) {
 					// A quoted-string
 					if (*pos == '"' || *pos == '\'') {
 
+						value.clear();
 						value.reserve(50);
 
-						const char quoteChar = *pos;
+						const char quoteChar = *pos++;
 						bool theEnd = false;
 						bool escape = false;
 
@@ -163,16 +164,13 @@ void propertySet::parse(const string& props) {
 							}
 						}
 
-						if (pos != end) {
-							++pos;
-						}
 
 					// Simple value
 					} else {
 
 						const string::const_iterator valStart = pos;
 
-						for ( ; pos != end && !parserHelpers::isSpace(*pos) ; ++pos) {}
+						for ( ; pos != end && *pos != ';' && !parserHelpers::isSpace(*pos) ; ++pos) {}
 
 						value = string(valStart, pos);
 					}
@@ -186,7 +184,7 @@ void propertySet::parse(const string& props) {
 				}
 			}
 
-			m_props.push_back(make_shared <property>(option, value));
+			findOrCreate(option)->setValue(value);
 		}
 	}
 }
-- 
2.43.0


From a3da57b9e9c40e993518e092eb2ce7a1bd0e53e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 087/236] fix: copying a list, text, body or field onto itself
 removed its contents

---
 src/vmime/addressList.cpp              |  7 +++++--
 src/vmime/body.cpp                     | 13 +++++++++++--
 src/vmime/mailboxGroup.cpp             |  7 +++++--
 src/vmime/messageIdSequence.cpp        |  7 +++++--
 src/vmime/parameterizedHeaderField.cpp |  7 +++++--
 src/vmime/text.cpp                     |  7 +++++--
 6 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 75f6224..c119306 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -115,13 +115,16 @@ void addressList::copyFrom(const component& other) {
 
 	const addressList& addrList = dynamic_cast <const addressList&>(other);
 
-	removeAllAddresses();
+	std::vector <shared_ptr <address> > list;
 
 	for (std::vector <shared_ptr <address> >::const_iterator it = addrList.m_list.begin() ;
 	     it != addrList.m_list.end() ; ++it) {
 
-		m_list.push_back(vmime::clone(*it));
+		list.push_back(vmime::clone(*it));
 	}
+
+	// 'addrList' may be this object
+	m_list.swap(list);
 }
 
 
diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index ba6aa2d..d46f6f7 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -860,7 +860,7 @@ void body::copyFrom(const component& other) {
 	m_boundary = bdy.m_boundary;
 	m_contents = bdy.m_contents;
 
-	removeAllParts();
+	std::vector <shared_ptr <bodyPart> > parts;
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
@@ -869,7 +869,16 @@ void body::copyFrom(const component& other) {
 
 		part->copyFrom(*bdy.getPartAt(p));
 
-		m_parts.push_back(part);
+		parts.push_back(part);
+	}
+
+	// 'bdy' may be this object, or belong to one of its parts
+	m_parts.swap(parts);
+
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = parts.begin() ;
+	     it != parts.end() ; ++it) {
+
+		(*it)->m_parent = NULL;
 	}
 }
 
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 62557f6..4ebf692 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -231,13 +231,16 @@ void mailboxGroup::copyFrom(const component& other) {
 
 	m_name = source.m_name;
 
-	removeAllMailboxes();
+	std::vector <shared_ptr <mailbox> > list;
 
 	for (std::vector <shared_ptr <mailbox> >::const_iterator it = source.m_list.begin() ;
 	     it != source.m_list.end() ; ++it) {
 
-		m_list.push_back(vmime::clone(*it));
+		list.push_back(vmime::clone(*it));
 	}
+
+	// 'source' may be this object
+	m_list.swap(list);
 }
 
 
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index e1d324a..a893c3f 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -58,11 +58,14 @@ void messageIdSequence::copyFrom(const component& other) {
 
 	const messageIdSequence& midSeq = dynamic_cast <const messageIdSequence&>(other);
 
-	removeAllMessageIds();
+	std::vector <shared_ptr <messageId> > list;
 
 	for (unsigned int i = 0 ; i < midSeq.m_list.size() ; ++i) {
-		m_list.push_back(vmime::clone(midSeq.m_list[i]));
+		list.push_back(vmime::clone(midSeq.m_list[i]));
 	}
+
+	// 'midSeq' may be this object
+	m_list.swap(list);
 }
 
 
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 3793363..7293c98 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -434,13 +434,16 @@ void parameterizedHeaderField::copyFrom(const component& other) {
 
 	const parameterizedHeaderField& source = dynamic_cast<const parameterizedHeaderField&>(other);
 
-	removeAllParameters();
+	std::vector <shared_ptr <parameter> > params;
 
 	for (std::vector <shared_ptr <parameter> >::const_iterator i = source.m_params.begin() ;
 	     i != source.m_params.end() ; ++i) {
 
-		appendParameter(vmime::clone(*i));
+		params.push_back(vmime::clone(*i));
 	}
+
+	// 'source' may be this object
+	m_params.swap(params);
 }
 
 
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index be80299..820c7f6 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -107,13 +107,16 @@ void text::copyFrom(const component& other) {
 
 	const text& t = dynamic_cast <const text&>(other);
 
-	removeAllWords();
+	std::vector <shared_ptr <word> > words;
 
 	for (std::vector <shared_ptr <word> >::const_iterator i = t.m_words.begin() ;
 	     i != t.m_words.end() ; ++i) {
 
-		m_words.push_back(make_shared <word>(**i));
+		words.push_back(make_shared <word>(**i));
 	}
+
+	// 't' may be this object
+	m_words.swap(words);
 }
 
 
-- 
2.43.0


From 11788ce47443c89bd95efcd8c9815cbf133d5058 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 088/236] fix: assigning an encoding did not copy its usage

---
 src/vmime/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index e949eff..a54b870 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -293,6 +293,7 @@ void encoding::copyFrom(const component& other) {
 	const encoding& e = dynamic_cast <const encoding&>(other);
 
 	m_name = e.m_name;
+	m_usage = e.m_usage;
 }
 
 
-- 
2.43.0


From 435c50a72702bf9edc0a0067fb28cd6f22ba5004 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 089/236] fix: cloning a message did not give a message

---
 src/vmime/message.cpp | 10 ++++++++++
 src/vmime/message.hpp |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/vmime/message.cpp b/src/vmime/message.cpp
index 9e6956d..c0a43c5 100644
--- a/src/vmime/message.cpp
+++ b/src/vmime/message.cpp
@@ -36,6 +36,16 @@ message::message() {
 }
 
 
+shared_ptr <component> message::clone() const {
+
+	shared_ptr <message> msg = make_shared <message>();
+
+	msg->copyFrom(*this);
+
+	return msg;
+}
+
+
 string message::generate(
 	const size_t maxLineLength,
 	const size_t curLinePos
diff --git a/src/vmime/message.hpp b/src/vmime/message.hpp
index 53bc095..677f649 100644
--- a/src/vmime/message.hpp
+++ b/src/vmime/message.hpp
@@ -40,6 +40,8 @@ public:
 
 	message();
 
+	shared_ptr <component> clone() const;
+
 public:
 
 	using bodyPart::parse;
-- 
2.43.0


From f27841620638a6445be04f3de7e219bb4a6c7d01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 090/236] fix: copy-constructed headers, fields, bodies and
 parts shared their contents with the original

---
 src/vmime/body.cpp                     |  8 ++++++++
 src/vmime/body.hpp                     |  1 +
 src/vmime/bodyPart.cpp                 | 12 ++++++++++++
 src/vmime/bodyPart.hpp                 |  1 +
 src/vmime/header.cpp                   |  7 +++++++
 src/vmime/header.hpp                   |  1 +
 src/vmime/headerField.cpp              |  8 ++++++++
 src/vmime/headerField.hpp              |  2 ++
 src/vmime/parameterizedHeaderField.cpp |  7 +++++++
 src/vmime/parameterizedHeaderField.hpp |  1 +
 10 files changed, 48 insertions(+)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index d46f6f7..df9ecf9 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -49,6 +49,14 @@ body::body()
 }
 
 
+body::body(const body& other)
+	: component(),
+	  m_part(nullptr) {
+
+	copyFrom(other);
+}
+
+
 body::~body() {
 
 	removeAllParts();
diff --git a/src/vmime/body.hpp b/src/vmime/body.hpp
index 532ba8f..2d96357 100644
--- a/src/vmime/body.hpp
+++ b/src/vmime/body.hpp
@@ -52,6 +52,7 @@ class VMIME_EXPORT body : public component {
 public:
 
 	body();
+	body(const body& other);
 	~body();
 
 	/** Add a part at the end of the list.
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index bcf037d..81ca797 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,18 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::bodyPart(const bodyPart& other)
+	: component(),
+	  m_header(make_shared <header>()),
+	  m_body(make_shared <body>()),
+	  m_parent() {
+
+	m_body->setParentPart(this);
+
+	copyFrom(other);
+}
+
+
 bodyPart::~bodyPart() {
 
 	// The body and its parts may outlive this part
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index 4173182..d5c6d0a 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,7 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	bodyPart(const bodyPart& other);
 	~bodyPart();
 
 	/** Return the header section of this part.
diff --git a/src/vmime/header.cpp b/src/vmime/header.cpp
index b2367df..2419a56 100644
--- a/src/vmime/header.cpp
+++ b/src/vmime/header.cpp
@@ -36,6 +36,13 @@ header::header() {
 }
 
 
+header::header(const header& other)
+	: component() {
+
+	copyFrom(other);
+}
+
+
 header::~header() {
 
 	removeAllFields();
diff --git a/src/vmime/header.hpp b/src/vmime/header.hpp
index 2d4fa77..14d9e98 100644
--- a/src/vmime/header.hpp
+++ b/src/vmime/header.hpp
@@ -50,6 +50,7 @@ class VMIME_EXPORT header : public component {
 public:
 
 	header();
+	header(const header& other);
 	~header();
 
 #define FIELD_ACCESS(methodName, fieldName) \
diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index d60df48..ca815ef 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -46,6 +46,14 @@ headerField::headerField(const string& fieldName)
 }
 
 
+headerField::headerField(const headerField& other)
+	: component(),
+	  m_name(other.m_name),
+	  m_value(vmime::clone(other.m_value)) {
+
+}
+
+
 headerField::~headerField() {
 
 }
diff --git a/src/vmime/headerField.hpp b/src/vmime/headerField.hpp
index dba5719..28f8911 100644
--- a/src/vmime/headerField.hpp
+++ b/src/vmime/headerField.hpp
@@ -49,6 +49,8 @@ protected:
 
 public:
 
+	headerField(const headerField& other);
+
 	~headerField();
 
 	shared_ptr <component> clone() const;
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 7293c98..5539b67 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -34,6 +34,13 @@ parameterizedHeaderField::parameterizedHeaderField() {
 }
 
 
+parameterizedHeaderField::parameterizedHeaderField(const parameterizedHeaderField& other)
+	: headerField(other) {
+
+	copyFrom(other);
+}
+
+
 parameterizedHeaderField::~parameterizedHeaderField() {
 
 	removeAllParameters();
diff --git a/src/vmime/parameterizedHeaderField.hpp b/src/vmime/parameterizedHeaderField.hpp
index 689aae2..237cfe6 100644
--- a/src/vmime/parameterizedHeaderField.hpp
+++ b/src/vmime/parameterizedHeaderField.hpp
@@ -49,6 +49,7 @@ protected:
 
 public:
 
+	parameterizedHeaderField(const parameterizedHeaderField& other);
 	~parameterizedHeaderField();
 
 	void copyFrom(const component& other);
-- 
2.43.0


From 9e9bf916cee1c5f522e34e4690786ad02e6b0bee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 091/236] fix: assigning a group of mailboxes shared the
 mailboxes with the original

---
 src/vmime/mailboxGroup.cpp | 7 +++++++
 src/vmime/mailboxGroup.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 4ebf692..b4c348f 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -257,6 +257,13 @@ mailboxGroup& mailboxGroup::operator=(const component& other) {
 }
 
 
+mailboxGroup& mailboxGroup::operator=(const mailboxGroup& other) {
+
+	copyFrom(other);
+	return *this;
+}
+
+
 const text& mailboxGroup::getName() const {
 
 	return m_name;
diff --git a/src/vmime/mailboxGroup.hpp b/src/vmime/mailboxGroup.hpp
index 494f22a..d4da612 100644
--- a/src/vmime/mailboxGroup.hpp
+++ b/src/vmime/mailboxGroup.hpp
@@ -49,6 +49,7 @@ public:
 	void copyFrom(const component& other);
 	shared_ptr <component> clone() const;
 	mailboxGroup& operator=(const component& other);
+	mailboxGroup& operator=(const mailboxGroup& other);
 
 	const std::vector <shared_ptr <component> > getChildComponents();
 
-- 
2.43.0


From 9a1d97ecead4322afb4bb6fad34a5927dcb40aa1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 092/236] fix: copying a body into one of its own parts lost
 the contents of that part

---
 src/vmime/body.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index df9ecf9..ddd80b5 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -862,12 +862,6 @@ void body::copyFrom(const component& other) {
 
 	const body& bdy = dynamic_cast <const body&>(other);
 
-	m_prologText = bdy.m_prologText;
-	m_epilogText = bdy.m_epilogText;
-
-	m_boundary = bdy.m_boundary;
-	m_contents = bdy.m_contents;
-
 	std::vector <shared_ptr <bodyPart> > parts;
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
@@ -880,7 +874,13 @@ void body::copyFrom(const component& other) {
 		parts.push_back(part);
 	}
 
-	// 'bdy' may be this object, or belong to one of its parts
+	m_prologText = bdy.m_prologText;
+	m_epilogText = bdy.m_epilogText;
+
+	m_boundary = bdy.m_boundary;
+	m_contents = bdy.m_contents;
+
+	// 'bdy' may be this object, or be one of its parts, or contain it
 	m_parts.swap(parts);
 
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = parts.begin() ;
-- 
2.43.0


From 1839a31bbd5bda030319dc524ffb1692eb1991a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:59:22 +0000
Subject: [PATCH 093/236] fix: reading past the end of an address list or group
 was not refused as documented

---
 src/vmime/addressList.cpp  | 4 ++--
 src/vmime/mailboxGroup.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index c119306..814bdab 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -256,13 +256,13 @@ bool addressList::isEmpty() const {
 
 shared_ptr <address> addressList::getAddressAt(const size_t pos) {
 
-	return m_list[pos];
+	return m_list.at(pos);
 }
 
 
 const shared_ptr <const address> addressList::getAddressAt(const size_t pos) const {
 
-	return m_list[pos];
+	return m_list.at(pos);
 }
 
 
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index b4c348f..1f80c82 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -391,13 +391,13 @@ size_t mailboxGroup::getMailboxCount() const {
 
 shared_ptr <mailbox> mailboxGroup::getMailboxAt(const size_t pos) {
 
-	return m_list[pos];
+	return m_list.at(pos);
 }
 
 
 const shared_ptr <const mailbox> mailboxGroup::getMailboxAt(const size_t pos) const {
 
-	return m_list[pos];
+	return m_list.at(pos);
 }
 
 
-- 
2.43.0


From f3e359bb00837c5cfaf4e13b747f7c9da35d8868 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 094/236] fix: Final-Recipient of an MDN is the recipient
 issuing it, not the one it is sent to

---
 src/vmime/mdn/MDNHelper.cpp | 7 ++++---
 src/vmime/mdn/MDNHelper.hpp | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/mdn/MDNHelper.cpp b/src/vmime/mdn/MDNHelper.cpp
index a21a181..75233ce 100644
--- a/src/vmime/mdn/MDNHelper.cpp
+++ b/src/vmime/mdn/MDNHelper.cpp
@@ -186,7 +186,7 @@ shared_ptr <message> MDNHelper::buildMDN(
 
 	msg->getBody()->appendPart(createFirstMDNPart(mdnInfos, text, ch));
 	msg->getBody()->appendPart(createSecondMDNPart(mdnInfos,
-		dispo, reportingUA, reportingUAProducts, fields));
+		expeditor, dispo, reportingUA, reportingUAProducts, fields));
 	msg->getBody()->appendPart(createThirdMDNPart(mdnInfos));
 
 	return msg;
@@ -219,6 +219,7 @@ shared_ptr <bodyPart> MDNHelper::createFirstMDNPart(
 
 shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 	const sendableMDNInfos& mdnInfos,
+    const mailbox& finalRecipient,
     const disposition& dispo,
     const string& reportingUA,
     const std::vector <string>& reportingUAProducts,
@@ -279,11 +280,11 @@ shared_ptr <bodyPart> MDNHelper::createSecondMDNPart(
 		fields.appendField(rua);
 	}
 
-	// -- Final-Recipient
+	// -- Final-Recipient (the recipient on whose behalf the MDN is issued)
 	shared_ptr <headerField> fr = headerFieldFactory::getInstance()->
 		create(vmime::fields::FINAL_RECIPIENT);
 
-	fr->setValue("rfc822; " + mdnInfos.getRecipient().getEmail().generate());
+	fr->setValue("rfc822; " + finalRecipient.getEmail().generate());
 
 	fields.appendField(fr);
 
diff --git a/src/vmime/mdn/MDNHelper.hpp b/src/vmime/mdn/MDNHelper.hpp
index c1bec2f..f9db65e 100644
--- a/src/vmime/mdn/MDNHelper.hpp
+++ b/src/vmime/mdn/MDNHelper.hpp
@@ -125,6 +125,7 @@ private:
 
 	static shared_ptr <bodyPart> createSecondMDNPart(
 		const sendableMDNInfos& mdnInfos,
+		const mailbox& finalRecipient,
 		const disposition& dispo,
 		const string& reportingUA,
 		const std::vector <string>& reportingUAProducts,
-- 
2.43.0


From af9335ee1153cb9e61176ee4413c9fabb48312e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 095/236] fix: messageBuilder refused messages whose first
 recipients are empty groups

---
 src/vmime/messageBuilder.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageBuilder.cpp b/src/vmime/messageBuilder.cpp
index 4de81bf..af1ff83 100644
--- a/src/vmime/messageBuilder.cpp
+++ b/src/vmime/messageBuilder.cpp
@@ -42,6 +42,20 @@ messageBuilder::~messageBuilder() {
 }
 
 
+// Test whether there is at least one recipient (or group) in a list
+static bool hasRecipient(const addressList& list) {
+
+	for (size_t i = 0 ; i < list.getAddressCount() ; ++i) {
+
+		if (!list.getAddressAt(i)->isEmpty() || list.getAddressAt(i)->isGroup()) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
+
 shared_ptr <message> messageBuilder::construct() const {
 
 	// Create a new message
@@ -50,9 +64,7 @@ shared_ptr <message> messageBuilder::construct() const {
 	// Generate the header fields
 	msg->getHeader()->Subject()->setValue(m_subject);
 
-	if (((m_to.isEmpty()) || (m_to.getAddressAt(0)->isEmpty() && !m_to.getAddressAt(0)->isGroup())) &&
-	    (m_cc.isEmpty() || m_cc.getAddressAt(0)->isEmpty()) &&
-	    (m_bcc.isEmpty() || m_bcc.getAddressAt(0)->isEmpty())) {
+	if (!hasRecipient(m_to) && !hasRecipient(m_cc) && !hasRecipient(m_bcc)) {
 
 		throw exceptions::no_recipient();
 	}
-- 
2.43.0


From 3509fd168d5ea2159d0439f1715cf2b923854a05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 096/236] fix: messageParser throws on non-multipart messages
 of other text types

---
 src/vmime/messageParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index d7dd592..37874cb 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -151,10 +151,17 @@ void messageParser::findTextParts(
 
 		if (accept) {
 
-			shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
-			txtPart->parse(msg, msg, msg);
+			try {
+
+				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
+				txtPart->parse(msg, msg, msg);
+
+				m_textParts.push_back(txtPart);
 
-			m_textParts.push_back(txtPart);
+			} catch (exceptions::no_factory_available& e) {
+
+				// Content-type not recognized.
+			}
 		}
 
 	// Multipart message
-- 
2.43.0


From efbb1ac727a92c67d5320e92fd7c2af017abf247 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 097/236] fix: copying a fileAttachment shared its file
 information (double delete)

---
 src/vmime/fileAttachment.cpp | 24 ++++++++++++++++++++++++
 src/vmime/fileAttachment.hpp |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/src/vmime/fileAttachment.cpp b/src/vmime/fileAttachment.cpp
index ac75570..a3e5976 100644
--- a/src/vmime/fileAttachment.cpp
+++ b/src/vmime/fileAttachment.cpp
@@ -216,6 +216,30 @@ fileAttachment::fileInfo::fileInfo()
 }
 
 
+fileAttachment::fileInfo::fileInfo(const fileInfo& other)
+	: m_filename(other.m_filename ? new word(*other.m_filename) : NULL),
+	  m_size(other.m_size ? new size_t(*other.m_size) : NULL),
+	  m_creationDate(other.m_creationDate ? new datetime(*other.m_creationDate) : NULL),
+	  m_modifDate(other.m_modifDate ? new datetime(*other.m_modifDate) : NULL),
+	  m_readDate(other.m_readDate ? new datetime(*other.m_readDate) : NULL) {
+
+}
+
+
+fileAttachment::fileInfo& fileAttachment::fileInfo::operator=(const fileInfo& other) {
+
+	fileInfo copy(other);
+
+	std::swap(m_filename, copy.m_filename);
+	std::swap(m_size, copy.m_size);
+	std::swap(m_creationDate, copy.m_creationDate);
+	std::swap(m_modifDate, copy.m_modifDate);
+	std::swap(m_readDate, copy.m_readDate);
+
+	return *this;
+}
+
+
 fileAttachment::fileInfo::~fileInfo()
 {
 	delete m_filename;
diff --git a/src/vmime/fileAttachment.hpp b/src/vmime/fileAttachment.hpp
index c77662f..8f21c5e 100644
--- a/src/vmime/fileAttachment.hpp
+++ b/src/vmime/fileAttachment.hpp
@@ -92,8 +92,11 @@ public:
 	public:
 
 		fileInfo();
+		fileInfo(const fileInfo& other);
 		~fileInfo();
 
+		fileInfo& operator=(const fileInfo& other);
+
 		/** Check whether the 'filename' property is present.
 		  *
 		  * @return true if the 'filename' property is set,
-- 
2.43.0


From 8849757922185ddae4e9848aa0cf55efec15ced3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 098/236] fix: addAttachment lost the content fields and
 parameters of the existing part

---
 src/vmime/attachmentHelper.cpp | 47 ++++++++++++++--------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..3182ed0 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -213,6 +213,23 @@ const std::vector <shared_ptr <const attachment> >
 }
 
 
+// Move the fields which describe the contents of a part ("Content-*")
+// from one header to another, with their parameters
+static void moveContentFields(header& from, header& to) {
+
+	const std::vector <shared_ptr <headerField> > fieldList = from.getFieldList();
+
+	for (size_t i = 0 ; i < fieldList.size() ; ++i) {
+
+		if (utility::stringUtils::toLower(fieldList[i]->getName()).compare(0, 8, "content-") == 0) {
+
+			from.removeField(fieldList[i]);
+			to.appendField(fieldList[i]);
+		}
+	}
+}
+
+
 // static
 void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shared_ptr <attachment>& att) {
 
@@ -235,19 +252,7 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// the root part of the message
 			shared_ptr <bodyPart> container = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
-
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				container->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
-				);
-			}
+			moveContentFields(*msg->getHeader(), *container->getHeader());
 
 			// Move parts from the root part to this new part
 			const std::vector <shared_ptr <bodyPart> > partList =
@@ -268,19 +273,7 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// root to a new child part.
 			shared_ptr <bodyPart> child = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
-
-				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				child->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
-				);
-			}
+			moveContentFields(*msg->getHeader(), *child->getHeader());
 
 			child->getBody()->setContents(msg->getBody()->getContents());
 			msg->getBody()->setContents(make_shared <emptyContentHandler>());
@@ -291,8 +284,6 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 		// Set the root part to 'multipart/mixed'
 		msg->getHeader()->ContentType()->setValue(mpMixed);
 
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TRANSFER_ENCODING);
 
 		part = msg;
 	}
-- 
2.43.0


From 2d01667faa3d54f40468fdf3bd1ec30c547b0f3c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 099/236] fix: plain text alternative not found when
 multipart/alternative parts are nested

---
 src/vmime/htmlTextPart.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/vmime/htmlTextPart.cpp b/src/vmime/htmlTextPart.cpp
index a30023c..56ffbed 100644
--- a/src/vmime/htmlTextPart.cpp
+++ b/src/vmime/htmlTextPart.cpp
@@ -287,7 +287,15 @@ bool htmlTextPart::findPlainTextPart(
 	const bodyPart& textPart
 ) {
 
-	// We search for the nearest "multipart/alternative" part.
+	// We search for the nearest "multipart/alternative" part: look
+	// into the sub-parts first.
+	for (size_t i = 0 ; i < part.getBody()->getPartCount() ; ++i) {
+
+		if (findPlainTextPart(*part.getBody()->getPartAt(i), parent, textPart)) {
+			return true;
+		}
+	}
+
 	const shared_ptr <const headerField> ctf =
 		part.getHeader()->findField(fields::CONTENT_TYPE);
 
@@ -352,14 +360,7 @@ bool htmlTextPart::findPlainTextPart(
 		// No "Content-type" field.
 	}
 
-	bool found = false;
-
-	for (size_t i = 0 ; !found && i < part.getBody()->getPartCount() ; ++i) {
-
-		found = findPlainTextPart(*part.getBody()->getPartAt(i), parent, textPart);
-	}
-
-	return found;
+	return false;
 }
 
 
-- 
2.43.0


From 5936c0c369f7cb26c9063d9933c77103380a1a7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 100/236] fix: attachments without Content-Type were listed as
 text parts as well

---
 src/vmime/messageParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index 37874cb..a8a9b61 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -218,6 +218,13 @@ bool messageParser::findSubTextParts(
 		} else {
 
 			// No "Content-type" field. RFC2045 section 5.2 assumes this is TEXT/PLAIN
+			shared_ptr <const contentDispositionField> cdf = p->getHeader()->
+				findField <contentDispositionField>(fields::CONTENT_DISPOSITION);
+
+			if (cdf && cdf->getValue <contentDisposition>()->getName() != contentDispositionTypes::INLINE) {
+				continue;  // an attachment
+			}
+
 			try {
 				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(mediaType(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN));
 				txtPart->parse(msg, part, p);
-- 
2.43.0


From 333f13984b63bb106c7982605a9d483b38cedcc2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 101/236] fix: assigning a messageSet shared its ranges (double
 delete)

---
 src/vmime/net/messageSet.cpp | 9 +++++++++
 src/vmime/net/messageSet.hpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..1299f41 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	std::swap(m_ranges, copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From b8d6ac410055b937bb0fd752ac88145571d69539 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 102/236] fix: message set made of an empty list is empty

---
 src/vmime/net/messageSet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index 1299f41..8d9fd75 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -225,6 +225,10 @@ messageSet messageSet::byNumber(const size_t first, const size_t last) {
 // static
 messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 
+	if (numbers.empty()) {
+		return empty();
+	}
+
 	// Sort a copy of the list
 	std::vector <size_t> sortedNumbers;
 
@@ -298,6 +302,10 @@ messageSet messageSet::byUID(const message::uid& first, const message::uid& last
 
 messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 
+	if (uids.empty()) {
+		return empty();
+	}
+
 	std::vector <vmime_uint32> numericUIDs;
 
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
-- 
2.43.0


From e160e282e1686803341fdd8a9651726c72eec67c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 103/236] fix: large UIDs and UIDs with leading zeros were
 altered when building a message set

---
 src/vmime/net/messageSet.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index 8d9fd75..16b2ba6 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -311,19 +311,22 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
+		vmime_uint64 numericUID = 0;
 
 		const char* p = uid.c_str();
 
-		for ( ; *p >= '0' && *p <= '9' ; ++p) {
-			numericUID = (numericUID * 10) + (*p - '0');
+		if (*p >= '1' && *p <= '9') {  // a leading zero would be lost
+
+			for ( ; *p >= '0' && *p <= '9' && numericUID <= 0xffffffff ; ++p) {
+				numericUID = (numericUID * 10) + (*p - '0');
+			}
 		}
 
-		if (*p != '\0') {
+		if (uid.empty() || *p != '\0' || numericUID > 0xffffffff) {
 
 			messageSet set;
 
-			// Non-numeric UID, fall back to plain UID list (single-UID ranges)
+			// Non-numeric UID (or not a 32-bit number), fall back to plain UID list (single-UID ranges)
 			for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 				set.m_ranges.push_back(new UIDMessageRange(uids[i]));
 			}
@@ -331,7 +334,7 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 			return set;
 		}
 
-		numericUIDs.push_back(numericUID);
+		numericUIDs.push_back(static_cast <vmime_uint32>(numericUID));
 	}
 
 	// Sort a copy of the list
-- 
2.43.0


From 5dca81c7e288a12edf1ba4b551e48734beca3d27 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 104/236] fix: messages in overlapping ranges were processed
 twice (POP3, maildir)

---
 src/vmime/net/maildir/maildirUtils.cpp | 7 ++++++-
 src/vmime/net/pop3/POP3Utils.cpp       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..765b4cc 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -27,6 +27,8 @@
 #if VMIME_HAVE_MESSAGING_FEATURES && VMIME_HAVE_MESSAGING_PROTO_MAILDIR
 
 
+#include <set>
+
 #include "vmime/net/maildir/maildirUtils.hpp"
 #include "vmime/net/maildir/maildirStore.hpp"
 
@@ -226,7 +228,9 @@ public:
 		if (last == size_t(-1)) last = m_msgCount;
 
 		for (size_t i = range.getFirst() ; i <= last ; ++i) {
-			list.push_back(i);
+			if (m_seen.insert(i).second) {
+				list.push_back(i);
+			}
 		}
 	}
 
@@ -242,6 +246,7 @@ public:
 private:
 
 	size_t m_msgCount;
+	std::set <size_t> m_seen;  // numbers already in the list (ranges may overlap)
 };
 
 
diff --git a/src/vmime/net/pop3/POP3Utils.cpp b/src/vmime/net/pop3/POP3Utils.cpp
index b38161e..93f5d5a 100644
--- a/src/vmime/net/pop3/POP3Utils.cpp
+++ b/src/vmime/net/pop3/POP3Utils.cpp
@@ -27,6 +27,8 @@
 #if VMIME_HAVE_MESSAGING_FEATURES && VMIME_HAVE_MESSAGING_PROTO_POP3
 
 
+#include <set>
+
 #include "vmime/net/pop3/POP3Utils.hpp"
 #include "vmime/net/pop3/POP3Response.hpp"
 
@@ -94,7 +96,9 @@ public:
 		}
 
 		for (size_t i = range.getFirst() ; i <= last ; ++i) {
-			list.push_back(i);
+			if (m_seen.insert(i).second) {
+				list.push_back(i);
+			}
 		}
 	}
 
@@ -110,6 +114,7 @@ public:
 private:
 
 	size_t m_msgCount;
+	std::set <size_t> m_seen;  // numbers already in the list (ranges may overlap)
 };
 
 
-- 
2.43.0


From 226aa6d79c5b2255465925ba8e5cbf96b5c24ae3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 105/236] fix: copies of file and empty content handlers lost
 the content type hint

---
 src/vmime/emptyContentHandler.cpp | 5 ++++-
 src/vmime/fileContentHandler.cpp  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/emptyContentHandler.cpp b/src/vmime/emptyContentHandler.cpp
index 3cf7965..21a0fe0 100644
--- a/src/vmime/emptyContentHandler.cpp
+++ b/src/vmime/emptyContentHandler.cpp
@@ -34,7 +34,10 @@ emptyContentHandler::emptyContentHandler() {
 
 shared_ptr <contentHandler> emptyContentHandler::clone() const {
 
-	return make_shared <emptyContentHandler>();
+	shared_ptr <emptyContentHandler> cts = make_shared <emptyContentHandler>();
+	cts->setContentTypeHint(m_contentType);
+
+	return cts;
 }
 
 
diff --git a/src/vmime/fileContentHandler.cpp b/src/vmime/fileContentHandler.cpp
index baedf69..f506ce7 100644
--- a/src/vmime/fileContentHandler.cpp
+++ b/src/vmime/fileContentHandler.cpp
@@ -57,12 +57,14 @@ fileContentHandler::fileContentHandler(const fileContentHandler& cts)
 	: streamContentHandler() {
 
 	setData(cts.m_file, cts.m_encoding);
+	setContentTypeHint(cts.getContentTypeHint());
 }
 
 
 fileContentHandler& fileContentHandler::operator=(const fileContentHandler& cts) {
 
 	setData(cts.m_file, cts.m_encoding);
+	setContentTypeHint(cts.getContentTypeHint());
 
 	return *this;
 }
-- 
2.43.0


From 872155a6e357d661220a50f05585e1fed5ba603f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 106/236] fix: quoted-printable decoder did not announce its
 start to the progress listener

---
 src/vmime/utility/encoder/qpEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 158d0c5..f0d5e9c 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -398,6 +398,10 @@ size_t qpEncoder::decode(
 	size_t total = 0;
 	size_t inTotal = 0;
 
+	if (progress) {
+		progress->start(0);
+	}
+
 	while (bufferPos < bufferLength || !in.eof()) {
 
 		// Flush current output buffer
-- 
2.43.0


From fb851bca2a567fa6fda5279c4cbdc6e0b3238cf0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 107/236] fix: copying a fileContentHandler without file
 dereferenced a null pointer

---
 src/vmime/fileContentHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/fileContentHandler.cpp b/src/vmime/fileContentHandler.cpp
index f506ce7..b2ef1f0 100644
--- a/src/vmime/fileContentHandler.cpp
+++ b/src/vmime/fileContentHandler.cpp
@@ -84,6 +84,11 @@ void fileContentHandler::setData(
 	m_file = file;
 	m_encoding = enc;
 
+	if (!file) {
+		streamContentHandler::setData(null, 0, enc);
+		return;
+	}
+
 	streamContentHandler::setData(
 		file->getFileReader()->getInputStream(), file->getLength(), enc
 	);
-- 
2.43.0


From 00493021cbad6e0c5d0a59705a3b46e22cd696fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 108/236] fix: SMTP extensions announced in lower case were not
 recognised

---
 src/vmime/net/smtp/SMTPConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..fc5116b 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -266,7 +266,8 @@ void SMTPConnection::helo() {
 				params.push_back(utility::stringUtils::toUpper(param));
 			}
 
-			m_extensions[ext] = params;
+			// Keywords are case-insensitive [RFC-5321, 2.4]
+			m_extensions[utility::stringUtils::toUpper(ext)] = params;
 		}
 	}
 }
-- 
2.43.0


From e8d71e0287f2e59dfc5639d6467c88ad9c7eee45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 109/236] fix: members of groups in To, Cc and Bcc were not
 recipients of the message sent

---
 src/vmime/net/transport.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/transport.cpp b/src/vmime/net/transport.cpp
index c2260b2..f4daeaf 100644
--- a/src/vmime/net/transport.cpp
+++ b/src/vmime/net/transport.cpp
@@ -123,13 +123,11 @@ static void extractMailboxes(
 	const addressList& list
 ) {
 
-	for (size_t i = 0 ; i < list.getAddressCount() ; ++i) {
+	// This also includes members of groups
+	const shared_ptr <mailboxList> mailboxes = list.toMailboxList();
 
-		shared_ptr <mailbox> mbox = dynamicCast <mailbox>(list.getAddressAt(i)->clone());
-
-		if (mbox) {
-			recipients.appendMailbox(mbox);
-		}
+	for (size_t i = 0 ; i < mailboxes->getMailboxCount() ; ++i) {
+		recipients.appendMailbox(vmime::clone(mailboxes->getMailboxAt(i)));
 	}
 }
 
-- 
2.43.0


From cb18071c6cc4ca8bc4afc02ee6218c26369f8912 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 110/236] fix: SMTP data starting with a dot lost that dot

---
 src/vmime/net/smtp/SMTPTransport.cpp | 2 +-
 src/vmime/utility/filteredStream.cpp | 6 +++---
 src/vmime/utility/filteredStream.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..e34b12a 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -409,7 +409,7 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	utility::dotFilteredOutputStream fos(sos, /* startsLine */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 550dc00..7be0f71 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -130,10 +130,10 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 
 // dotFilteredOutputStream
 
-dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool startsLine)
 	: m_stream(os),
-	  m_previousChar('\0'),
-	  m_start(true),
+	  m_previousChar(startsLine ? '\n' : '\0'),
+	  m_start(!startsLine),
 	  m_startDot(false) {
 
 }
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 28d8564..b5aceba 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -109,7 +109,7 @@ public:
 	  *
 	  * @param os stream into which write filtered data
 	  */
-	dotFilteredOutputStream(outputStream& os);
+	dotFilteredOutputStream(outputStream& os, const bool startsLine = false);
 
 	outputStream& getNextOutputStream();
 
-- 
2.43.0


From 6b9c0bc7ca491537f524fecd9287eecd3c21f7ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 111/236] fix: local part of SMTP envelope addresses not quoted
 when SMTPUTF8 is used

---
 src/vmime/net/smtp/SMTPCommand.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..b43f82c 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -119,16 +119,17 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 	cmd.imbue(std::locale::classic());
 	cmd << "MAIL FROM:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
+	vmime::utility::outputStreamAdapter cmd2(cmd);
 
+	if (utf8) {
+		generationContext ctx(generationContext::getDefaultContext());
+		ctx.setInternationalizedEmailSupport(true);
+		mbox.getEmail().generate(ctx, cmd2);
 	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
 		mbox.getEmail().generate(cmd2);
 	}
 
+
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getReturnFormat().empty()) {
@@ -160,16 +161,17 @@ shared_ptr <SMTPCommand> SMTPCommand::RCPT(
 	cmd.imbue(std::locale::classic());
 	cmd << "RCPT TO:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
+	vmime::utility::outputStreamAdapter cmd2(cmd);
 
+	if (utf8) {
+		generationContext ctx(generationContext::getDefaultContext());
+		ctx.setInternationalizedEmailSupport(true);
+		mbox.getEmail().generate(ctx, cmd2);
 	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
 		mbox.getEmail().generate(cmd2);
 	}
 
+
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getNotificationConditions().empty()) {
-- 
2.43.0


From f52c6309b33486d1cca901238298d0c69b580417 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 112/236] fix: SMTP session out of step after a pipelined
 command was refused

---
 src/vmime/net/smtp/SMTPTransport.cpp | 41 ++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e34b12a..e96799c 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -294,12 +294,48 @@ void SMTPTransport::sendEnvelope(
 		}
 	}
 
+	// If commands have been pipelined, read the replies to the commands which
+	// follow the one that was refused, so that next commands are not mistaken
+	size_t pendingReplies = recipients.getMailboxCount() + (sendDATACommand ? 1 : 0);
+
+	const auto discardPendingReplies = [&]() {
+
+		if (!hasPipelining) {
+			return;
+		}
+
+		try {
+
+			bool dataAccepted = false;
+
+			for ( ; pendingReplies != 0 ; --pendingReplies) {
+
+				const auto code = m_connection->readResponse()->getCode();
+				dataAccepted = (sendDATACommand && pendingReplies == 1 && code == 354);
+			}
+
+			// The server is waiting for the data of a message that should not be
+			// sent: closing the connection is the only way out
+			if (dataAccepted) {
+				disconnect();
+			}
+
+		} catch (exception&) {
+
+			if (isConnected()) {
+				disconnect();
+			}
+		}
+	};
+
 	// Read response for "MAIL" command
 	commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
 	if ((resp = m_connection->readResponse())->getCode() != 250) {
 		auto code = resp->getCode();
 
+		discardPendingReplies();
+
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
@@ -338,8 +374,13 @@ void SMTPTransport::sendEnvelope(
 		resp = m_connection->readResponse();
 		auto code = resp->getCode();
 
+		--pendingReplies;
+
 		if (code != 250 && code != 251) {
 
+			discardPendingReplies();
+
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
-- 
2.43.0


From 92ffe3bc78a3ebbbee8e6bc4ce321651f4733aa3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 113/236] fix: POP3 client waited for more data after RETR or
 TOP was refused

---
 src/vmime/net/pop3/POP3Response.cpp | 45 ++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..6920fe4 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -46,6 +46,49 @@ namespace net {
 namespace pop3 {
 
 
+// Reads a response to a command that requires a multi-line response. If the
+// command failed, the response has only one line and no multi-line terminator.
+class largeResponseInputStream : public utility::inputStreamSocketAdapter {
+
+public:
+
+	largeResponseInputStream(socket& sok)
+		: utility::inputStreamSocketAdapter(sok),
+		  m_begin(true),
+		  m_error(false),
+		  m_eof(false) {
+
+	}
+
+	bool eof() const {
+
+		return m_eof;
+	}
+
+	size_t read(byte_t* const data, const size_t count) {
+
+		const size_t n = utility::inputStreamSocketAdapter::read(data, count);
+
+		if (m_begin && n != 0) {
+			m_begin = false;
+			m_error = (data[0] != '+');
+		}
+
+		if (m_error && std::find(data, data + n, '\n') != data + n) {
+			m_eof = true;
+		}
+
+		return n;
+	}
+
+private:
+
+	bool m_begin;
+	bool m_error;
+	bool m_eof;
+};
+
+
 POP3Response::POP3Response(
 	const shared_ptr <socket>& sok,
 	const shared_ptr <timeoutHandler>& toh,
@@ -297,7 +340,7 @@ size_t POP3Response::readResponseImpl(
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
+	largeResponseInputStream sis(*m_socket);
 	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
 	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
 	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
-- 
2.43.0


From ee89194d36c3664c24e2bead0646f89034830912 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 114/236] fix: POP3 response code was not recognised in lower
 case

---
 src/vmime/net/pop3/POP3Response.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 6920fe4..dc1109b 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -474,7 +474,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
-- 
2.43.0


From a268a930b198d2705607d1bb1a7f425ff5cd5c94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 115/236] fix: partial extraction of a POP3 message delivered
 the whole message

---
 src/vmime/net/pop3/POP3Message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..f898479 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -158,7 +158,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
-- 
2.43.0


From 9a036b2b05cdf612ceff341e334e346cc9391bc7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 116/236] fix: POP3 messages deleted before a refused DELE were
 not marked as deleted

---
 src/vmime/net/pop3/POP3Folder.cpp | 39 ++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..79cec96 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -614,25 +614,25 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	std::vector <size_t> list;
+	shared_ptr <POP3Response> failure;
+
 	for (std::vector <size_t>::const_iterator
-	     it = nums.begin() ; it != nums.end() ; ++it) {
+	     it = nums.begin() ; !failure && it != nums.end() ; ++it) {
 
 		POP3Command::DELE(*it)->send(store->getConnection());
 
 		shared_ptr <POP3Response> response =
 			POP3Response::readResponse(store->getConnection());
 
-		if (!response->isSuccess()) {
-			throw exceptions::command_error("DELE", response->getFirstLine());
+		if (response->isSuccess()) {
+			list.push_back(*it);
+		} else {
+			failure = response;
 		}
 	}
 
-	// Sort message list
-	std::vector <size_t> list;
-
-	list.resize(nums.size());
-	std::copy(nums.begin(), nums.end(), list.begin());
-
+	// Sort list of deleted messages
 	std::sort(list.begin(), list.end());
 
 	// Update local flags
@@ -647,14 +647,21 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 	}
 
 	// Notify message flags changed
-	shared_ptr <events::messageChangedEvent> event =
-		make_shared <events::messageChangedEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageChangedEvent::TYPE_FLAGS,
-			list
-		);
+	if (!list.empty()) {
+
+		shared_ptr <events::messageChangedEvent> event =
+			make_shared <events::messageChangedEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageChangedEvent::TYPE_FLAGS,
+				list
+			);
 
-	notifyMessageChanged(event);
+		notifyMessageChanged(event);
+	}
+
+	if (failure) {
+		throw exceptions::command_error("DELE", failure->getFirstLine());
+	}
 }
 
 
-- 
2.43.0


From 1670047b24ac7f9a0a2a6fe52b728e07028d1718 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 117/236] fix: POP3 messages could not be accessed any more
 after one was deleted and status requested

---
 src/vmime/net/pop3/POP3Folder.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 79cec96..6d2975a 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -722,8 +722,6 @@ void POP3Folder::status(size_t& count, size_t& unseen) {
 
 	count = status->getMessageCount();
 	unseen = status->getUnseenCount();
-
-	m_messageCount = count;
 }
 
 
@@ -756,15 +754,16 @@ shared_ptr <folderStatus> POP3Folder::getStatus() {
 	status->setMessageCount(count);
 	status->setUnseenCount(count);
 
-	// Update local message count
-	if (m_messageCount != count) {
+	// Update local message count. Messages marked as deleted are not counted
+	// by the server, but they keep their numbers until the session ends.
+	if (m_open) {
 
 		const size_t oldCount = m_messageCount;
 
-		m_messageCount = count;
-
 		if (count > oldCount) {
 
+			m_messageCount = count;
+
 			std::vector <size_t> nums;
 			nums.resize(count - oldCount);
 
-- 
2.43.0


From ca96ddba0e9c8cf3bc678f6147de6218350db591 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 118/236] fix: uninitialised message count of POP3 folders

---
 src/vmime/net/pop3/POP3Folder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 6d2975a..67884bb 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
-- 
2.43.0


From 9c647197b065b2bc27ace61c700b49cdc9c42c44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 119/236] fix: end of data was lost when a file was written to
 in several system calls

---
 src/vmime/platforms/posix/posixFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..5601029 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -167,6 +167,8 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+
+			continue;
 		}
 
 		break;
-- 
2.43.0


From 754ab396c0404d1fd7296d79b5ba1150d2c58c1b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 120/236] fix: reading from a file failed when interrupted by a
 signal

---
 src/vmime/platforms/posix/posixFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 5601029..1d2100d 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -231,7 +231,12 @@ size_t posixFileReaderInputStream::read(
 
 	ssize_t c = 0;
 
-	if ((c = ::read(m_fd, data, count)) == -1) {
+	while ((c = ::read(m_fd, data, count)) == -1) {
+
+		if (errno == EINTR) {
+			continue;
+		}
+
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-- 
2.43.0


From 86a9fdf391a2ffded808dd40b0c63d77d0732367 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 121/236] fix: errors on closing files terminated the program,
 file descriptors leaked on errors

---
 src/vmime/platforms/posix/posixFile.cpp | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 1d2100d..56cb3ff 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -66,17 +66,23 @@ posixFileIterator::posixFileIterator(
 		posixFileSystemFactory::reportError(path, errno);
 	}
 
-	getNextElement();
+	try {
+
+		getNextElement();
+
+	} catch (...) {
+
+		::closedir(m_dir);
+		throw;
+	}
 }
 
 
 posixFileIterator::~posixFileIterator() {
 
+	// Don't throw in destructor
 	if (m_dir) {
-
-		if (::closedir(m_dir) == -1) {
-			posixFileSystemFactory::reportError(m_path, errno);
-		}
+		::closedir(m_dir);
 	}
 }
 
@@ -202,9 +208,8 @@ posixFileReaderInputStream::posixFileReaderInputStream(
 
 posixFileReaderInputStream::~posixFileReaderInputStream() {
 
-	if (::close(m_fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
-	}
+	// Don't throw in destructor
+	::close(m_fd);
 }
 
 
@@ -363,7 +368,11 @@ void posixFile::createFile() {
 	}
 
 	if (::fsync(fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+
+		const int err = errno;
+		::close(fd);
+
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 
 	if (::close(fd) == -1) {
-- 
2.43.0


From a29f49e6a690a9be0c7d234ea86f7338e86c4825 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 122/236] fix: renaming a file created an empty file first,
 which remained on failure

---
 src/vmime/platforms/posix/posixFile.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 56cb3ff..84ac602 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -500,12 +500,11 @@ void posixFile::rename(const path& newName) {
 
 	const vmime::string newNativePath = posixFileSystemFactory::pathToStringImpl(newName);
 
-	posixFile dest(newName);
+	// Do not overwrite an existing file
+	struct stat buf;
 
-	if (isDirectory()) {
-		dest.createDirectory();
-	} else {
-		dest.createFile();
+	if (!isDirectory() && ::lstat(newNativePath.c_str(), &buf) == 0) {
+		posixFileSystemFactory::reportError(newName, EEXIST);
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-- 
2.43.0


From 687b7d4bf0cadf3a7ea0a17b9f9de75ac47c7053 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 123/236] fix: attributes of a maildir folder without
 sub-folders could not be obtained (kmail)

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..ce37aba 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -305,6 +305,10 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 5f74076b37af1152d69df6f9c64293b48f5ab00e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 124/236] fix: renaming a maildir folder left a stray file,
 failed if the new parent had no sub-folder (kmail)

---
 .../net/maildir/format/kmailMaildirFormat.cpp    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index ce37aba..a4d785a 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -268,13 +268,14 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		const utility::file::path newContPath =
 			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
 
+		// Directory of the new parent folder may not exist if it has no sub-folder
+		fsf->create(newRootPath.getParent())->createDirectory(true);
+
 		rootDir->rename(newRootPath);
 
-		// Container directory may not exist, so ignore error when trying to rename it
-		try {
+		// Container directory may not exist
+		if (contDir->exists()) {
 			contDir->rename(newContPath);
-		} catch (exceptions::filesystem_exception& e) {
-			// Ignore
 		}
 
 	} catch (exceptions::filesystem_exception& e) {
@@ -286,8 +287,13 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 			folderPathToFileSystemPath(oldPath, CONTAINER_DIRECTORY);
 
 		try {
+
 			rootDir->rename(rootPath);
-			contDir->rename(contPath);
+
+			if (contDir->exists()) {
+				contDir->rename(contPath);
+			}
+
 		} catch (exceptions::filesystem_exception& e) {
 			// Ignore (not recoverable)
 		}
-- 
2.43.0


From 17565ca7fb33bd27a88154d625652af70c574403 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 125/236] fix: operations on maildir folders which do not exist
 or have unsafe names acted outside the folder

---
 .../net/maildir/format/kmailMaildirFormat.cpp   | 10 ++++++++++
 src/vmime/net/maildir/maildirFolder.cpp         | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index a4d785a..fdd61c8 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -102,6 +102,16 @@ bool kmailMaildirFormat::folderExists(const folder::path& path) const {
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
+	// Names which denote another directory are not folder names
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+		const string& name = path[i].getBuffer();
+
+		if (name.empty() || name == "." || name == ".." || !fsf->isValidPathComponent(path[i])) {
+			return false;
+		}
+	}
+
 	shared_ptr <utility::file> rootDir = fsf->create(
 		folderPathToFileSystemPath(path, ROOT_DIRECTORY)
 	);
diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..5c95357 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -249,6 +249,8 @@ void maildirFolder::destroy() {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (isOpen()) {
 		throw exceptions::illegal_state("Folder is open");
+	} else if (!exists()) {
+		throw exceptions::illegal_state("Folder does not exist");
 	}
 
 	// Delete folder
@@ -545,8 +547,19 @@ void maildirFolder::rename(const folder::path& newPath) {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (m_path.isEmpty() || newPath.isEmpty()) {
 		throw exceptions::illegal_operation("Cannot rename root folder");
-	} else if (!store->isValidFolderName(newPath.getLastComponent())) {
-		throw exceptions::invalid_folder_name();
+	} else if (!exists()) {
+		throw exceptions::illegal_state("Folder does not exist");
+	} else if (m_path.isParentOf(newPath)) {
+		throw exceptions::illegal_operation("Cannot move a folder into itself");
+	} else if (store->getFormat()->folderExists(newPath)) {
+		throw exceptions::illegal_state("Folder already exists");
+	}
+
+	for (size_t i = 0, n = newPath.getSize() ; i < n ; ++i) {
+
+		if (!store->isValidFolderName(newPath[i])) {
+			throw exceptions::invalid_folder_name();
+		}
 	}
 
 	// Rename the directory on the file system
-- 
2.43.0


From 699a1d70a24923ff9729b4c39ef16222c336e120 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 126/236] fix: path of open sub-folders was wrong after
 renaming a maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 5c95357..5fccdef 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -604,7 +604,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -612,7 +612,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From e7098e11578354bd8d900fcb71b28b97313aea82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 127/236] fix: a maildir folder whose name starts with the name
 of another one was deleted and renamed with it (courier)

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..2908d14 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -303,6 +303,8 @@ bool courierMaildirFormat::listDirectories(
 			for (size_t i = 0, n = root.getSize() ; i < n ; ++i) {
 				base += "." + toModifiedUTF7(root[i]);
 			}
+
+			base += ".";  // "foo" is not a prefix of "foobar"
 		}
 
 		// Enumerate directories
-- 
2.43.0


From 57cb040d696d95543d2bd94983d0eeea3d3ca1da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 128/236] fix: sub-folders were moved away when renaming a
 maildir folder failed (courier)

---
 .../maildir/format/courierMaildirFormat.cpp   | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 2908d14..e5bb43f 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -117,18 +117,37 @@ void courierMaildirFormat::renameFolder(
 ) {
 
 	const std::vector <folder::path> folders = listFolders(oldPath, true);
+	std::vector <std::pair <folder::path, folder::path> > done;
 
-	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i < n ; ++i) {
+	try {
 
-		const folder::path folderOldPath = folders[i];
+		for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i < n ; ++i) {
 
-		folder::path folderNewPath = folderOldPath;
-		folderNewPath.renameParent(oldPath, newPath);
+			const folder::path folderOldPath = folders[i];
 
-		renameFolderImpl(folderOldPath, folderNewPath);
-	}
+			folder::path folderNewPath = folderOldPath;
+			folderNewPath.renameParent(oldPath, newPath);
+
+			renameFolderImpl(folderOldPath, folderNewPath);
+			done.push_back(std::make_pair(folderOldPath, folderNewPath));
+		}
+
+		renameFolderImpl(oldPath, newPath);
+
+	} catch (exceptions::filesystem_exception& e) {
 
-	renameFolderImpl(oldPath, newPath);
+		// Revert to old location
+		for ( ; !done.empty() ; done.pop_back()) {
+
+			try {
+				renameFolderImpl(done.back().second, done.back().first);
+			} catch (exceptions::filesystem_exception& e) {
+				// Ignore (not recoverable)
+			}
+		}
+
+		throw;
+	}
 }
 
 
-- 
2.43.0


From 36ec4a5b1d18bb2382ee3c23243ef6404802393c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 129/236] fix: end of a dashed host name in maildir file names
 was taken as flags (message deleted)

---
 src/vmime/net/maildir/maildirUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 765b4cc..f80572c 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -77,7 +77,7 @@ const utility::file::path::component maildirUtils::extractId(
 	size_t sep = filename.getBuffer().rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
+		sep = filename.getBuffer().rfind("-2,");  // try dash (Windows)
 		if (sep == string::npos) return (filename);
 	}
 
@@ -92,7 +92,7 @@ int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 	size_t sep = comp.getBuffer().rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
+		sep = comp.getBuffer().rfind("-2,");  // try dash (Windows)
 		if (sep == string::npos) return 0;
 	}
 
-- 
2.43.0


From 29e2abf6a91e54804e206ace15090ade00d082e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 130/236] fix: flags in maildir file names were not in ASCII
 order

---
 src/vmime/net/maildir/maildirUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index f80572c..cff83ff 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -124,12 +124,13 @@ const utility::file::path::component maildirUtils::buildFlags(const int flags) {
 
 	str += "2,";
 
+	// Flags must be in ASCII order
+	if (flags & message::FLAG_DRAFT)   str += "D";
 	if (flags & message::FLAG_MARKED)  str += "F";
 	if (flags & message::FLAG_PASSED)  str += "P";
 	if (flags & message::FLAG_REPLIED) str += "R";
 	if (flags & message::FLAG_SEEN)    str += "S";
 	if (flags & message::FLAG_DELETED) str += "T";
-	if (flags & message::FLAG_DRAFT)   str += "D";
 
 	return utility::file::path::component(str);
 }
-- 
2.43.0


From 240fac59fbf226eaac68d085165ff06e56c5a16d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 131/236] fix: failure to delete a maildir folder was reported
 as success

---
 .../net/maildir/format/kmailMaildirFormat.cpp      | 10 +++++++---
 src/vmime/net/maildir/maildirFolder.cpp            |  4 ++--
 src/vmime/net/maildir/maildirUtils.cpp             | 14 +++++++-------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index fdd61c8..cd04076 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -88,12 +88,16 @@ void kmailMaildirFormat::destroyFolder(const folder::path& path) {
 	// Delete 'folder' and '.folder.directory' directories
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	maildirUtils::recursiveFSDelete(
-		fsf->create(folderPathToFileSystemPath(path, ROOT_DIRECTORY))  // root
+	shared_ptr <utility::file> contDir = fsf->create(
+		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	if (contDir->exists()) {
+		maildirUtils::recursiveFSDelete(contDir);  // container
+	}
+
 	maildirUtils::recursiveFSDelete(
-		fsf->create(folderPathToFileSystemPath(path, CONTAINER_DIRECTORY))  // container
+		fsf->create(folderPathToFileSystemPath(path, ROOT_DIRECTORY))  // root
 	);
 }
 
diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 5fccdef..9a2c103 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -256,8 +256,8 @@ void maildirFolder::destroy() {
 	// Delete folder
 	try {
 		store->getFormat()->destroyFolder(m_path);
-	} catch (std::exception&) {
-		// Ignore exception: anyway, we can't recover from this...
+	} catch (exceptions::filesystem_exception& e) {
+		throw exceptions::command_error("DELETE", "", "", e);
 	}
 
 	// Notify folder deleted
diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index cff83ff..8c58c7a 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -192,7 +192,11 @@ void maildirUtils::recursiveFSDelete(const shared_ptr <utility::file>& dir) {
 
 		if (file->isDirectory()) {
 
-			maildirUtils::recursiveFSDelete(file);
+			try {
+				maildirUtils::recursiveFSDelete(file);
+			} catch (exceptions::filesystem_exception&) {
+				// Ignore
+			}
 
 		} else {
 
@@ -204,12 +208,8 @@ void maildirUtils::recursiveFSDelete(const shared_ptr <utility::file>& dir) {
 		}
 	}
 
-	// Then, delete this (empty) directory
-	try {
-		dir->remove();
-	} catch (exceptions::filesystem_exception&) {
-		// Ignore
-	}
+	// Then, delete this (empty) directory: this fails if something could not be deleted
+	dir->remove();
 }
 
 
-- 
2.43.0


From 15418a8100435cfe7c5f1500747031c037fc05c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 132/236] fix: using a maildir message after its folder was
 closed or it was expunged (null dereference, wrong message)

---
 src/vmime/net/maildir/maildirFolder.cpp  |  4 ++++
 src/vmime/net/maildir/maildirMessage.cpp | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 9a2c103..dd5867c 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1356,6 +1356,10 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
+	if (number < 1 || number > m_messageInfos.size()) {
+		throw exceptions::message_not_found();
+	}
+
 	utility::file::path curDirPath = m_store.lock()->getFormat()->
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..088de2e 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -157,6 +157,8 @@ void maildirMessage::setFlags(const int flags, const int mode) {
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	folder->setMessageFlags(messageSet::byNumber(m_num), flags, mode);
@@ -205,6 +207,14 @@ void maildirMessage::extractImpl(
 
 	shared_ptr <const maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::illegal_state("Folder closed");
+	} else if (!folder->getStore()) {
+		throw exceptions::illegal_state("Store disconnected");
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	const utility::file::path path = folder->getMessageFSPath(m_num);
@@ -255,6 +265,14 @@ void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::illegal_state("Folder closed");
+	} else if (!folder->getStore()) {
+		throw exceptions::illegal_state("Store disconnected");
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -292,6 +310,8 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 
 	if (folder != msgFolder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-- 
2.43.0


From eb1d5c7661c65cebb793661b1f452adc4fb370e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 133/236] fix: partial extraction of a maildir message part
 read past the end of the part

---
 src/vmime/net/maildir/maildirMessage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index 088de2e..f228e97 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -226,10 +226,11 @@ void maildirMessage::extractImpl(
 	is->skip(start + partialStart);
 
 	byte_t buffer[8192];
+	const size_t available = (partialStart >= length ? 0 : length - partialStart);
 	size_t remaining =
 		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
+			? available
+			: std::min(partialLength, available)
 		);
 
 	const size_t total = remaining;
-- 
2.43.0


From 4b7c79471ae9eb9e8d47796a05170ef822f9cca4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 134/236] fix: notifications of new maildir messages (invalid
 memory access, messages lost in other folder objects)

---
 src/vmime/net/maildir/maildirFolder.cpp | 151 +++++++++++++-----------
 src/vmime/net/maildir/maildirFolder.hpp |   1 +
 2 files changed, 83 insertions(+), 69 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index dd5867c..6659ebe 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -829,54 +829,40 @@ messageSet maildirFolder::addMessage(
 	// Actually add the message
 	copyMessageImpl(tmpDirPath, dstDirPath, filename, is, size, progress);
 
-	// Append the message to the cache list
-	messageInfos msgInfos;
-	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
-
-	m_messageInfos.push_back(msgInfos);
-	m_messageCount++;
-
-	if ((flags == -1) || !(flags & message::FLAG_SEEN)) {
-		m_unreadMessageCount++;
-	}
-
-	// Notification
 	std::vector <size_t> nums;
-	nums.push_back(m_messageCount);
 
-	shared_ptr <events::messageCountEvent> event =
-		make_shared <events::messageCountEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageCountEvent::TYPE_ADDED,
-			nums
-		);
+	if (flags == message::FLAG_RECENT) {
 
-	notifyMessageCount(event);
+		// Message has been delivered into 'new' directory
+		const size_t oldCount = m_messageCount;
 
-	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+		scanFolder();
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
+		}
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+	} else {
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+		// Append the message to the cache list
+		messageInfos msgInfos;
+		msgInfos.path = filename;
+		msgInfos.type = (maildirUtils::extractFlags(filename) & message::FLAG_DELETED)
+			? messageInfos::TYPE_DELETED : messageInfos::TYPE_CUR;
 
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
+		m_messageInfos.push_back(msgInfos);
+		m_messageCount++;
 
-			(*it)->notifyMessageCount(event);
+		if ((flags == -1) || !(flags & message::FLAG_SEEN)) {
+			m_unreadMessageCount++;
 		}
+
+		nums.push_back(m_messageCount);
 	}
 
+	// Notification
+	notifyMessagesAdded(nums);
+
 	return messageSet::empty();
 }
 
@@ -1049,6 +1035,63 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 }
 
 
+void maildirFolder::notifyMessagesAdded(const std::vector <size_t>& nums) {
+
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	shared_ptr <events::messageCountEvent> event =
+		make_shared <events::messageCountEvent>(
+			dynamicCast <folder>(shared_from_this()),
+			events::messageCountEvent::TYPE_ADDED,
+			nums
+		);
+
+	notifyMessageCount(event);
+
+	// Notify folders with the same path
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
+
+		if ((*it) != this && (*it)->getFullPath() == m_path) {
+
+			std::vector <size_t> folderNums(nums);
+
+			if ((*it)->isOpen()) {
+
+				// Messages do not have the same numbers in all folder objects
+				const size_t oldCount = (*it)->m_messageCount;
+
+				(*it)->scanFolder();
+
+				folderNums.clear();
+
+				for (size_t i = oldCount + 1 ; i <= (*it)->m_messageCount ; ++i) {
+					folderNums.push_back(i);
+				}
+
+				if (folderNums.empty()) {
+					continue;
+				}
+
+			} else {
+
+				(*it)->m_messageCount = m_messageCount;
+				(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			}
+
+			shared_ptr <events::messageCountEvent> event =
+				make_shared <events::messageCountEvent>(
+					dynamicCast <folder>((*it)->shared_from_this()),
+					events::messageCountEvent::TYPE_ADDED,
+					folderNums
+				);
+
+			(*it)->notifyMessageCount(event);
+		}
+	}
+}
+
+
 void maildirFolder::notifyMessagesCopied(const folder::path& dest) {
 
 	shared_ptr <maildirStore> store = m_store.lock();
@@ -1102,41 +1145,11 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
-		shared_ptr <events::messageCountEvent> event =
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				nums
-			);
-
-		notifyMessageCount(event);
-
-		// Notify folders with the same path
-		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-		     it != store->m_folders.end() ; ++it) {
-
-			if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-				(*it)->m_messageCount = m_messageCount;
-				(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-				(*it)->m_messageInfos.resize(m_messageInfos.size());
-				std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-				shared_ptr <events::messageCountEvent> event =
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>((*it)->shared_from_this()),
-						events::messageCountEvent::TYPE_ADDED,
-						nums
-					);
-
-				(*it)->notifyMessageCount(event);
-			}
-		}
+		notifyMessagesAdded(nums);
 	}
 
 	return status;
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..efab357 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -169,6 +169,7 @@ private:
 	void copyMessageImpl(const utility::file::path& tmpDirPath, const utility::file::path& curDirPath, const utility::file::path::component& filename, utility::inputStream& is, const size_t size, utility::progressListener* progress);
 
 	void notifyMessagesCopied(const folder::path& dest);
+	void notifyMessagesAdded(const std::vector <size_t>& nums);
 
 
 	weak_ptr <maildirStore> m_store;
-- 
2.43.0


From a86aeab4ad635fbaa487555f822dfafe9d3a5120 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 135/236] fix: maildir messages marked as deleted were listed
 twice, deleted messages were still listed when opening the folder again

---
 src/vmime/net/maildir/maildirFolder.cpp | 39 +++++++++++++++----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 6659ebe..12819b1 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -331,6 +331,11 @@ void maildirFolder::scanFolder() {
 			}
 		}
 
+		// Message numbers are only meaningful while the folder is open
+		if (!isOpen()) {
+			m_messageInfos.clear();
+		}
+
 		// Update/delete existing messages (found in previous scan)
 		for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
 
@@ -341,27 +346,31 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			const std::vector <utility::file::path::component>::iterator pos =
+				std::find_if(
+					curMessageFilenames.begin(),
+					curMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+			// If we cannot find this message in the 'cur' directory,
+			// it means it has been deleted (and expunged).
+			if (pos == curMessageFilenames.end()) {
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+				msgInfos.type = messageInfos::TYPE_DELETED;
 
-					msgInfos.type = messageInfos::TYPE_DELETED;
+			// Otherwise, update its information.
+			} else {
 
-				// Otherwise, update its information.
-				} else {
+				msgInfos.path = *pos;
 
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
+				if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
+					msgInfos.type = messageInfos::TYPE_DELETED;
+				} else {
+					msgInfos.type = messageInfos::TYPE_CUR;
 				}
+
+				curMessageFilenames.erase(pos);
 			}
 		}
 
-- 
2.43.0


From 2865d89da82220cf2c49b388a903fd0a6a5c0571 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 136/236] fix: maildir messages were copied into folders which
 do not exist, files in the root directory were taken as messages, errors on
 reading a folder were ignored

---
 src/vmime/net/maildir/maildirFolder.cpp | 45 +++++++++++++++++++++----
 src/vmime/net/maildir/maildirFolder.hpp |  1 +
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 12819b1..7c40f52 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -292,11 +292,18 @@ void maildirFolder::scanFolder() {
 
 	try {
 
-		m_messageCount = 0;
-		m_unreadMessageCount = 0;
-
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
+		// There is no message in a folder which does not exist or has no 'cur' directory
+		if (!exists() || !canContainMessages(m_path)) {
+
+			m_messageInfos.clear();
+			m_messageCount = 0;
+			m_unreadMessageCount = 0;
+
+			return;
+		}
+
 		utility::file::path newDirPath =
 			store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::NEW_DIRECTORY);
 		shared_ptr <utility::file> newDir = fsf->create(newDirPath);
@@ -387,8 +394,16 @@ void maildirFolder::scanFolder() {
 				maildirUtils::buildFilename(maildirUtils::extractId(*it), 0);
 
 			// Move messages from 'new' to 'cur'
-			shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
-			file->rename(curDirPath / newFilename);
+			try {
+
+				shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
+				file->rename(curDirPath / newFilename);
+
+			} catch (exceptions::filesystem_exception&) {
+
+				// Leave it in 'new', try again next time
+				continue;
+			}
 
 			// Append to message list
 			messageInfos msgInfos;
@@ -435,13 +450,23 @@ void maildirFolder::scanFolder() {
 		m_unreadMessageCount = unreadMessageCount;
 		m_messageCount = static_cast <size_t>(m_messageInfos.size());
 
-	} catch (exceptions::filesystem_exception&) {
+	} catch (exceptions::filesystem_exception& e) {
 
-		// Should not happen...
+		throw exceptions::command_error("SCAN", "", "", e);
 	}
 }
 
 
+bool maildirFolder::canContainMessages(const folder::path& path) const {
+
+	// In some formats, the root folder is only a container for other folders
+	shared_ptr <maildirFormat> format = m_store.lock()->getFormat();
+
+	return !(format->folderPathToFileSystemPath(path, maildirFormat::CUR_DIRECTORY) ==
+	         format->folderPathToFileSystemPath(path, maildirFormat::ROOT_DIRECTORY));
+}
+
+
 shared_ptr <message> maildirFolder::getMessage(const size_t num) {
 
 	if (!isOpen()) {
@@ -804,6 +829,8 @@ messageSet maildirFolder::addMessage(
 		throw exceptions::illegal_state("Folder not open");
 	} else if (m_mode == MODE_READ_ONLY) {
 		throw exceptions::illegal_state("Folder is read-only");
+	} else if (!canContainMessages(m_path)) {
+		throw exceptions::operation_not_supported();
 	}
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -976,6 +1003,10 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (!isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
+	} else if (!msgs.isNumberSet() || !canContainMessages(dest)) {
+		throw exceptions::operation_not_supported();
+	} else if (!store->getFormat()->folderExists(dest)) {
+		throw exceptions::folder_not_found();
 	}
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index efab357..835f8ac 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -150,6 +150,7 @@ public:
 private:
 
 	void scanFolder();
+	bool canContainMessages(const folder::path& path) const;
 
 	void listFolders(std::vector <shared_ptr <folder> >& list, const bool recursive);
 
-- 
2.43.0


From b025c1dfaa5c5cf39038405ead7f317d8e499a73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 137/236] fix: maildir flags: invalid message numbers, unsorted
 numbers, removing the deleted flag, errors ignored

---
 src/vmime/net/maildir/maildirFolder.cpp | 34 ++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 7c40f52..9a14ce6 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -680,7 +680,15 @@ void maildirFolder::setMessageFlags(
 
 	if (msgs.isNumberSet()) {
 
-		const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		std::sort(nums.begin(), nums.end());
+
+		if (!nums.empty() && (nums.front() < 1 || nums.back() > m_messageCount)) {
+			throw exceptions::message_not_found();
+		}
+
+		std::vector <size_t> done;
+		shared_ptr <exception> error;
 
 		// Change message flags
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -710,22 +718,27 @@ void maildirFolder::setMessageFlags(
 				const utility::file::path::component newPath =
 					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
 
-				file->rename(curDirPath / newPath);
+				if (!(newPath == path)) {
+					file->rename(curDirPath / newPath);
+				}
 
-				if (flags & message::FLAG_DELETED) {
+				if (newFlags & message::FLAG_DELETED) {
 					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
 				} else {
 					m_messageInfos[num].type = messageInfos::TYPE_CUR;
 				}
 
 				m_messageInfos[num].path = newPath;
+				done.push_back(*it);
 
 			} catch (exceptions::filesystem_exception& e) {
 
-				// Ignore (not important)
+				error = shared_ptr <exception>(e.clone());
 			}
 		}
 
+		nums = done;
+
 		// Update local flags
 		switch (mode) {
 
@@ -787,6 +800,11 @@ void maildirFolder::setMessageFlags(
 
 		// TODO: notify other folders with the same path
 
+		if (error) {
+			throw exceptions::command_error("STORE", "", "", *error);
+		}
+
+
 	} else {
 
 		throw exceptions::operation_not_supported();
@@ -1043,6 +1061,14 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	// Copy messages
 	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
 
+	for (std::vector <size_t>::const_iterator it =
+	     nums.begin() ; it != nums.end() ; ++it) {
+
+		if (*it < 1 || *it > m_messageCount) {
+			throw exceptions::message_not_found();
+		}
+	}
+
 	try {
 
 		for (std::vector <size_t>::const_iterator it =
-- 
2.43.0


From 55faee51eb89accd70626660846e67c1dd4c3ec5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 138/236] fix: expunging a maildir folder removed the wrong
 messages from the list and numbered them wrongly

---
 src/vmime/net/maildir/maildirFolder.cpp | 120 ++++++++++++++----------
 src/vmime/net/maildir/maildirFolder.hpp |   1 +
 2 files changed, 70 insertions(+), 51 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 9a14ce6..dfb0130 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1239,83 +1239,101 @@ void maildirFolder::expunge() {
 	utility::file::path curDirPath = store->getFormat()->
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
-	std::vector <size_t> nums;
-	size_t unreadCount = 0;
+	std::vector <utility::file::path::component> removed;
+	shared_ptr <exception> error;
 
-	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
+	for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
 
-		messageInfos& infos = m_messageInfos[num - 1];
+		const messageInfos& infos = m_messageInfos[i];
 
-		if (infos.type == messageInfos::TYPE_DELETED) {
+		if (infos.type != messageInfos::TYPE_DELETED) {
+			continue;
+		}
 
-			nums.push_back(num);
+		// Delete file from file system
+		shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
 
-			for (std::vector <maildirMessage*>::iterator it =
-			     m_messages.begin() ; it != m_messages.end() ; ++it) {
+		try {
 
-				if ((*it)->m_num == num) {
-					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
-					(*it)->m_num--;
-				}
+			if (file->exists()) {
+				file->remove();
 			}
 
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
-				++unreadCount;
-			}
+			removed.push_back(maildirUtils::extractId(infos.path));
 
-			// Delete file from file system
-			try {
-				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
-				file->remove();
-			} catch (exceptions::filesystem_exception& e) {
-				// Ignore (not important)
-			}
+		} catch (exceptions::filesystem_exception& e) {
+
+			error = shared_ptr <exception>(e.clone());
 		}
 	}
 
-	if (!nums.empty()) {
+	// Notify message expunged, including in folders with the same path
+	messagesExpunged(removed);
+
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
 
-		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+		if ((*it) != this && (*it)->getFullPath() == m_path) {
+			(*it)->messagesExpunged(removed);
 		}
 	}
 
-	m_messageCount -= static_cast <size_t>(nums.size());
-	m_unreadMessageCount -= unreadCount;
+	if (error) {
+		throw exceptions::command_error("EXPUNGE", "", "", *error);
+	}
+}
 
-	// Notify message expunged
-	shared_ptr <events::messageCountEvent> event =
-		make_shared <events::messageCountEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageCountEvent::TYPE_REMOVED,
-			nums
-		);
 
-	notifyMessageCount(event);
+void maildirFolder::messagesExpunged(const std::vector <utility::file::path::component>& ids) {
 
-	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
+	std::vector <messageInfos> remaining;
+	std::vector <size_t> nums;
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+	for (size_t i = 0 ; i < m_messageInfos.size() ; ++i) {
 
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+		if (std::find(ids.begin(), ids.end(), maildirUtils::extractId(m_messageInfos[i].path)) != ids.end()) {
 
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
+			nums.push_back(i + 1);
 
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_REMOVED,
-					nums
-				);
+			if ((maildirUtils::extractFlags(m_messageInfos[i].path) & message::FLAG_SEEN) == 0 && m_unreadMessageCount != 0) {
+				--m_unreadMessageCount;
+			}
 
-			(*it)->notifyMessageCount(event);
+		} else {
+
+			remaining.push_back(m_messageInfos[i]);
+		}
+	}
+
+	m_messageInfos = remaining;
+	m_messageCount = m_messageInfos.size();
+
+	// Renumber messages
+	for (std::vector <maildirMessage*>::iterator it =
+	     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+		if ((*it)->m_expunged) {
+			continue;
+		}
+
+		const std::vector <size_t>::iterator pos =
+			std::lower_bound(nums.begin(), nums.end(), (*it)->m_num);
+
+		if (pos != nums.end() && *pos == (*it)->m_num) {
+			(*it)->m_expunged = true;
+		} else {
+			(*it)->m_num -= (pos - nums.begin());
 		}
 	}
+
+	shared_ptr <events::messageCountEvent> event =
+		make_shared <events::messageCountEvent>(
+			dynamicCast <folder>(shared_from_this()),
+			events::messageCountEvent::TYPE_REMOVED,
+			nums
+		);
+
+	notifyMessageCount(event);
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 835f8ac..2e19ee2 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -170,6 +170,7 @@ private:
 	void copyMessageImpl(const utility::file::path& tmpDirPath, const utility::file::path& curDirPath, const utility::file::path::component& filename, utility::inputStream& is, const size_t size, utility::progressListener* progress);
 
 	void notifyMessagesCopied(const folder::path& dest);
+	void messagesExpunged(const std::vector <utility::file::path::component>& ids);
 	void notifyMessagesAdded(const std::vector <size_t>& nums);
 
 
-- 
2.43.0


From fc12549d9a88e17c934038665555637e80b1d139 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 139/236] fix: null dereference when a maildir folder was used
 after the store was disconnected

---
 src/vmime/net/maildir/maildirFolder.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index dfb0130..e239665 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -117,7 +117,13 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -276,6 +282,10 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	return store->getFormat()->folderExists(m_path);
 }
 
@@ -534,7 +544,7 @@ std::vector <shared_ptr <folder> > maildirFolder::getFolders(const bool recursiv
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	if (!isOpen() && !store) {
+	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -1196,6 +1206,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	const size_t oldCount = m_messageCount;
 
 	scanFolder();
-- 
2.43.0


From e8f7b29b6f90b3b357601ebae37ac25094a10ecd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 140/236] fix: names of maildir folders containing '+', '&' or
 '-' were written and read wrongly (courier)

---
 .../maildir/format/courierMaildirFormat.cpp   | 170 +++++++++---------
 1 file changed, 86 insertions(+), 84 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e5bb43f..3a7dc63 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -404,76 +404,74 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
+	static const char base64alphabet[] =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
+	// Transcode path component to 16-bit Unicode characters.
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	const string cvt = text.getConvertedText(charset("UTF-16BE"));
 
-	// Transcode to modified UTF-7 (RFC-2060).
 	string out;
-	out.reserve((cvt.length() * 3) / 2);
+	out.reserve(cvt.length() * 2);
 
 	bool inB64sequence = false;
+	unsigned int bits = 0;  // bits not yet written...
+	int bitCount = 0;       // ...and number of bits
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
+	for (size_t i = 0 ; i + 1 < cvt.length() ; i += 2) {
 
-		const unsigned char c = *it;
+		const unsigned int c =
+			(static_cast <unsigned char>(cvt[i]) << 8) | static_cast <unsigned char>(cvt[i + 1]);
 
-		switch (c) {
+		if (c >= 0x20 && c < 0x7f && c != '.' && c != '/') {
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+			if (inB64sequence) {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
+				if (bitCount) {
+					out += base64alphabet[(bits << (6 - bitCount)) & 0x3f];
 				}
 
-				break;
+				out += '-';
+				inB64sequence = false;
 			}
-			// End of Base64 sequence
-			case '-': {
 
-				inB64sequence = false;
+			out += static_cast <char>(c);
+
+			// '&' (0x26) is represented by the two-octet sequence "&-"
+			if (c == '&') {
 				out += '-';
-				break;
 			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+		} else {
 
-				out += "&Lg-";
-				break;
+			if (!inB64sequence) {
+
+				out += '&';
+				inB64sequence = true;
+				bits = 0;
+				bitCount = 0;
 			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
-				}
+			bits = (bits << 16) | c;
+			bitCount += 16;
 
-				break;
-			}
-			default: {
+			while (bitCount >= 6) {
 
-				out += c;
-				break;
+				bitCount -= 6;
+				out += base64alphabet[(bits >> bitCount) & 0x3f];
 			}
+
+			bits &= (1u << bitCount) - 1;
+		}
+	}
+
+	if (inB64sequence) {
+
+		if (bitCount) {
+			out += base64alphabet[(bits << (6 - bitCount)) & 0x3f];
 		}
+
+		out += '-';
 	}
 
 	return out;
@@ -483,65 +481,69 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 // static
 const folder::path::component courierMaildirFormat::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7
+	static const string base64alphabet =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
+	// Transcode from modified UTF-7 to UTF-8
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	unsigned char prev = 0;
+	for (size_t i = 0 ; i < text.length() ; ++i) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		if (text[i] != '&') {
+			out += text[i];
+			continue;
+		}
 
-		const unsigned char c = *it;
+		// "&-" --> "&"
+		if (i + 1 < text.length() && text[i + 1] == '-') {
+			out += '&';
+			++i;
+			continue;
+		}
 
-		switch (c) {
+		// Base64 sequence
+		const size_t end = text.find('-', i);
 
-			// Start of Base64 sequence
-			case '&': {
+		string utf16;
+		unsigned int bits = 0;
+		int bitCount = 0;
+		bool valid = (end != string::npos);
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+		for (size_t j = i + 1 ; valid && j < end ; ++j) {
+
+			const size_t value = base64alphabet.find(text[j]);
 
+			if (value == string::npos) {
+				valid = false;
 				break;
 			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
-				}
+			bits = ((bits << 6) | static_cast <unsigned int>(value)) & 0x3fffff;
+			bitCount += 6;
 
-				inB64sequence = false;
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+			if (bitCount >= 16) {
 
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+				bitCount -= 16;
 
-				out += c;
-				break;
+				utf16 += static_cast <char>((bits >> (bitCount + 8)) & 0xff);
+				utf16 += static_cast <char>((bits >> bitCount) & 0xff);
 			}
+		}
 
+		if (!valid) {
+			out += text[i];  // not a Base64 sequence
+			continue;
 		}
 
-		prev = c;
-	}
+		string utf8;
+		charset::convert(utf16, utf8, charset("UTF-16BE"), charset(charsets::UTF_8));
 
-	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+		out += utf8;
+		i = end;
+	}
 
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From d87d596d2677858cc8fc0b56e2a77642d7c665f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 141/236] fix: hierarchy separator following a non-ASCII
 character was not encoded in names of IMAP folders

---
 src/vmime/net/imap/IMAPUtils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..a8df0ae 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -209,7 +209,17 @@ const string IMAPUtils::toModifiedUTF7(
 		const unsigned char c = cvt[i];
 
 		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
+		if (c == static_cast <unsigned char>(hierarchySeparator)) {
+
+			if (base64) {
+
+				if (k > 10) {
+					out += base64alphabet[b];
+				}
+
+				out += '-';
+				base64 = false;
+			}
 
 			out += "&" + hsUTF7 + "-";
 
-- 
2.43.0


From d7c47e57ba1f6e931e61ba4801fada25267e6d72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 142/236] fix: characters outside the BMP were lost in names of
 IMAP folders

---
 src/vmime/net/imap/IMAPUtils.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index a8df0ae..bae037d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -281,20 +281,30 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
+			// Characters outside the BMP are written as a surrogate pair
+			int units[2] = { ch, 0 };
+			int unitCount = 1;
+
 			if (ch & ~0xffff) {
-				ch = 0xfffe;
+
+				units[0] = 0xd800 + ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 + ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			for (int u = 0 ; u < unitCount ; ++u) {
 
-			k -= 6;
+				out += base64alphabet[b | units[u] >> k];
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
-			}
+				k -= 6;
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(units[u] >> k) & 0x3f];
+				}
+
+				b = (units[u] << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
-- 
2.43.0


From 53077915e673d06770e11eb974b9bede21f54a53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 143/236] fix: names of IMAP folders containing '+' were read
 wrongly

---
 src/vmime/net/imap/IMAPUtils.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index bae037d..e4165bf 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -379,6 +379,28 @@ const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 				inB64sequence = false;
 				break;
 			}
+			// '+' represents itself outside of a Base64 sequence
+			case '+': {
+
+				if (inB64sequence && !plusOutput) {
+					out += '+';
+					plusOutput = true;
+				}
+
+				out += '+';
+
+				if (!inB64sequence) {
+
+					out += '-';
+
+					// Some servers write it as in UTF-7
+					if (it + 1 != text.end() && *(it + 1) == '-') {
+						++it;
+					}
+				}
+
+				break;
+			}
 			// ',' is used instead of '/' in modified Base64
 			case ',': {
 
-- 
2.43.0


From 993876ef1afe7ba7923d4eb9b5175b39bbe1d992 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 144/236] fix: a maildir folder with an empty name could be
 created

---
 src/vmime/net/maildir/maildirStore.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/maildir/maildirStore.cpp b/src/vmime/net/maildir/maildirStore.cpp
index a994f45..79b5791 100644
--- a/src/vmime/net/maildir/maildirStore.cpp
+++ b/src/vmime/net/maildir/maildirStore.cpp
@@ -136,6 +136,11 @@ bool maildirStore::isValidFolderName(const folder::path::component& name) const
 
 	const string& buf = name.getBuffer();
 
+	// Name cannot be empty
+	if (buf.empty()) {
+		return false;
+	}
+
 	// Name cannot start/end with spaces
 	if (utility::stringUtils::trim(buf) != buf) {
 		return false;
-- 
2.43.0


From 1ca3d012cd776109a52b41e383305144017a30da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 145/236] fix: a file was taken as missing when its status
 could not be read (messages not expunged, folders not listed, no error)

---
 src/vmime/platforms/posix/posixFile.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 84ac602..8ef5fd8 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -482,7 +482,18 @@ const posixFile::path& posixFile::getFullPath() const {
 bool posixFile::exists() const {
 
 	struct stat buf;
-	return ::stat(m_nativePath.c_str(), &buf) == 0;
+
+	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+
+		if (errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG) {
+			return false;
+		}
+
+		posixFileSystemFactory::reportError(m_path, errno);
+		return false;
+	}
+
+	return true;
 }
 
 
-- 
2.43.0


From c3dd508405ed11e39edf3a3e72ef580811217fd4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:24:59 +0000
Subject: [PATCH 146/236] fix: null reference given to the literal handler for
 strings outside of message contents (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..920695f 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1089,7 +1089,7 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1137,7 +1137,7 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
-- 
2.43.0


From c7deba2bc842981280f954ca28e5eea66fc9fad2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:24:59 +0000
Subject: [PATCH 147/236] fix: endless loop on an unterminated list of header
 fields (IMAP parser accepted an empty astring)

---
 src/vmime/net/imap/IMAPParser.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 920695f..0ea3855 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1264,7 +1264,6 @@ public:
 						} else {
 
 							value += c;
-
 							++pos;
 						}
 
@@ -1273,6 +1272,10 @@ public:
 						end = true;
 					}
 				}
+
+				if (value.empty()) {
+					VIMAP_PARSER_FAIL();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 66f96a9b53234d2066a1ca96aa62902888a0a8ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 148/236] fix: null item in a FETCH reply without any item
 (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 0ea3855..0e1898b 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -3711,7 +3711,7 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
-			items.push_back(std::unique_ptr <msg_att_item>(parser.get <msg_att_item>(line, &pos)));
+			VIMAP_PARSER_GET_PUSHBACK(msg_att_item, items);
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 				VIMAP_PARSER_CHECK(SPACE);
-- 
2.43.0


From 3e43bc0eb6456b13ac132cbe3528d92967bebadb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 149/236] fix: capability "AUTH=" was read as neither an
 authentication type nor an atom (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 0e1898b..3d44c4e 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2212,7 +2212,9 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				if (auth_type) {
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From 053b80367d3a724dbbff0ac90d1ae90caad88017 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 150/236] fix: ranges in sequence sets were not recognized
 (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 3d44c4e..e974d81 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1540,8 +1540,7 @@ public:
 			size_t pos = *currentPos;
 
 			VIMAP_PARSER_GET(seq_number, first);
-
-			VIMAP_PARSER_CHECK(one_char <'*'> );
+			VIMAP_PARSER_CHECK(one_char <':'> );
 
 			VIMAP_PARSER_GET(seq_number, last);
 
-- 
2.43.0


From 54334b42d55af0532f7703878de3886f6589d759 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 151/236] fix: body extension lists of more than one item were
 refused (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index e974d81..b781788 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2482,8 +2482,8 @@ public:
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
+					VIMAP_PARSER_CHECK(SPACE);
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
-					VIMAP_PARSER_TRY_CHECK(SPACE);
 				}
 
 			} else {
-- 
2.43.0


From 41d6e0da42075ea5751849ce2075b7f5d2149fe0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 152/236] fix: numbers of more than 32 bits wrapped around,
 including sizes of literals (IMAP parser)

---
 src/vmime/net/imap/IMAPParser.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index b781788..3deea7b 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -56,6 +56,7 @@
 #include <vector>
 #include <stdexcept>
 #include <memory>
+#include <limits>
 
 
 //#define DEBUG_RESPONSE 1
@@ -667,19 +668,33 @@ public:
 
 		}
 
-		bool parseImpl(IMAPParser& /* parser */, string& line, size_t* currentPos) {
+		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
 
 			bool valid = true;
-			unsigned int val = 0;
+
+			// Sizes may exceed 32 bits, but neither message numbers nor
+			// unique identifiers may
+			const vmime_uint64 maxVal = m_nonZero
+				? 0xffffffffu
+				: std::numeric_limits <unsigned long>::max();
+
+			vmime_uint64 val = 0;
 
 			while (valid && pos < line.length()) {
 
 				const char c = line[pos];
 
 				if (c >= '0' && c <= '9') {
-					val = (val * 10) + (c - '0');
+
+					const unsigned int digit = c - '0';
+
+					if (val > (maxVal - digit) / 10) {
+						VIMAP_PARSER_FAIL();
+					}
+
+					val = (val * 10) + digit;
 					++pos;
 				} else {
 					valid = false;
@@ -688,7 +703,7 @@ public:
 
 			// Check for non-null length (and for non-zero number)
 			if (!(m_nonZero && val == 0) && pos != *currentPos) {
-				value = val;
+				value = static_cast <unsigned long>(val);
 				*currentPos = pos;
 				return true;
 			} else {
-- 
2.43.0


From 02d1979b42c5e687d513c7bc6c056f199589d992 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 153/236] fix: IMAP literals were read from the network again
 when another alternative of the grammar was tried, which broke the session

---
 src/vmime/net/imap/IMAPParser.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 3deea7b..528b8c5 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -53,6 +53,7 @@
 
 #include "vmime/net/imap/IMAPTag.hpp"
 
+#include <map>
 #include <vector>
 #include <stdexcept>
 #include <memory>
@@ -1148,9 +1149,21 @@ public:
 					const size_t length = num->value;
 
 					VIMAP_PARSER_CHECK(one_char <'}'> );
-
 					VIMAP_PARSER_CHECK(CRLF);
 
+					// If there is something after the CRLF, this literal has already been
+					// read from the network (while trying another alternative)
+					if (pos < line.length()) {
+
+						auto it = parser.m_literals.find(pos);
+						VIMAP_PARSER_FAIL_UNLESS(it != parser.m_literals.end());
+
+						value = it->second;
+						*currentPos = pos;
+
+						return true;
+					}
+
 
 					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
@@ -1179,6 +1192,8 @@ public:
 
 					line += parser.readLine();
 
+					parser.m_literals[pos] = value;
+
 					DEBUG_FOUND("string[literal]", "<length=" << length << ", value='" << value << "'>");
 
 				} else {
@@ -4526,6 +4541,7 @@ public:
 				}
 
 				// We have read a CRLF, read another line
+				parser.m_literals.clear();
 				curLine = parser.readLine();
 				pos = 0;
 			}
@@ -4641,6 +4657,8 @@ public:
 			}
 
 			size_t pos = 0;
+
+			m_literals.clear();
 			string line = readLine();
 
 			m_literalHandler = lh;
@@ -4849,6 +4867,10 @@ private:
 
 	std::map <std::string, response*> m_pendingResponses;
 
+	// Literals of the current line which have already been read, by
+	// their position in the line
+	std::map <size_t, string> m_literals;
+
 public:
 
 	/** Read a line from the input buffer. The function blocks until a
-- 
2.43.0


From 10d5667d1360abd478ae575d6126466320e14da5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 154/236] fix: stack overflow on long sets of messages in IMAP
 replies

---
 src/vmime/net/imap/IMAPParser.hpp | 80 ++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 528b8c5..d2f4549 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -789,14 +789,18 @@ public:
 
 			size_t pos = *currentPos;
 
-			// We have either a 'uid_range' or a 'uniqueid'
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, uid_range)) {
-				VIMAP_PARSER_GET(IMAPParser::uniqueid, uniqueid);
-			}
+			VIMAP_PARSER_FAIL_UNLESS(parseRangeOrNumber(parser, line, &pos));
+
+			// And maybe other 'uid-set's following (not parsed recursively,
+			// as sets may have a lot of items)
+			uid_set* last = this;
+
+			while (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
+
+				last->next_uid_set.reset(new uid_set());
+				last = last->next_uid_set.get();
 
-			// And maybe another 'uid-set' following
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','>)) {
-				VIMAP_PARSER_GET(IMAPParser::uid_set, next_uid_set);
+				VIMAP_PARSER_FAIL_UNLESS(last->parseRangeOrNumber(parser, line, &pos));
 			}
 
 			*currentPos = pos;
@@ -804,11 +808,35 @@ public:
 			return true;
 		}
 
+		~uid_set() {
+
+			// Avoid deep recursion
+			while (next_uid_set) {
+				next_uid_set = std::move(next_uid_set->next_uid_set);
+			}
+		}
+
 
 		std::unique_ptr <IMAPParser::uniqueid> uniqueid;
 		std::unique_ptr <IMAPParser::uid_range> uid_range;
 
 		std::unique_ptr <IMAPParser::uid_set> next_uid_set;
+
+	private:
+
+		bool parseRangeOrNumber(IMAPParser& parser, string& line, size_t* currentPos) {
+
+			size_t pos = *currentPos;
+
+			// We have either a 'uid_range' or a 'uniqueid'
+			if (!VIMAP_PARSER_TRY_GET(IMAPParser::uid_range, uid_range)) {
+				VIMAP_PARSER_GET(IMAPParser::uniqueid, uniqueid);
+			}
+
+			*currentPos = pos;
+
+			return true;
+		}
 	};
 
 
@@ -1599,12 +1627,17 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
-				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
-			}
+			VIMAP_PARSER_FAIL_UNLESS(parseRangeOrNumber(parser, line, &pos));
+
+			// Not parsed recursively, as sets may have a lot of items
+			sequence_set* last = this;
+
+			while (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
+
+				last->nextSet.reset(new sequence_set());
+				last = last->nextSet.get();
 
-			if (VIMAP_PARSER_TRY_CHECK(one_char <','> )) {
-				VIMAP_PARSER_GET(sequence_set, nextSet);
+				VIMAP_PARSER_FAIL_UNLESS(last->parseRangeOrNumber(parser, line, &pos));
 			}
 
 			*currentPos = pos;
@@ -1612,10 +1645,33 @@ public:
 			return true;
 		}
 
+		~sequence_set() {
+
+			// Avoid deep recursion
+			while (nextSet) {
+				nextSet = std::move(nextSet->nextSet);
+			}
+		}
+
 
 		std::unique_ptr <IMAPParser::seq_number> number;
 		std::unique_ptr <IMAPParser::seq_range> range;
 		std::unique_ptr <IMAPParser::sequence_set> nextSet;
+
+	private:
+
+		bool parseRangeOrNumber(IMAPParser& parser, string& line, size_t* currentPos) {
+
+			size_t pos = *currentPos;
+
+			if (!VIMAP_PARSER_TRY_GET(IMAPParser::seq_range, range)) {
+				VIMAP_PARSER_GET(IMAPParser::seq_number, number);
+			}
+
+			*currentPos = pos;
+
+			return true;
+		}
 	};
 
 
-- 
2.43.0


From 43de87ba04dc7ab48cf2eeb5cb1b5356a3eed53f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 155/236] fix: stack overflow on deeply nested IMAP replies

---
 src/vmime/net/imap/IMAPParser.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index d2f4549..a0e38ea 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -269,7 +269,8 @@ public:
 	IMAPParser()
 		: m_progress(NULL),
 		  m_strict(false),
-		  m_literalHandler(NULL) {
+		  m_literalHandler(NULL),
+		  m_depth(0) {
 
 	}
 
@@ -462,10 +463,29 @@ public:
 
 		virtual const string getComponentName() const = 0;
 
+		/** Maximum number of nested components. */
+		static const unsigned int MAX_DEPTH = 1000;
+
+		struct depthGuard {
+
+			depthGuard(unsigned int& depth) : m_depth(depth) { ++m_depth; }
+			~depthGuard() { --m_depth; }
+
+			unsigned int& m_depth;
+		};
+
 		bool parse(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			bool res = false;
 			DEBUG_ENTER_COMPONENT(getComponentName(), res);
+			// Limit nesting
+			if (parser.m_depth >= MAX_DEPTH) {
+				const size_t pos = *currentPos;
+				VIMAP_PARSER_FAIL();
+			}
+
+			const depthGuard guard(parser.m_depth);
+
 			res = parseImpl(parser, line, currentPos);
 			return res;
 		}
@@ -4912,6 +4932,7 @@ private:
 	bool m_strict;
 
 	literalHandler* m_literalHandler;
+	unsigned int m_depth;
 
 	weak_ptr <timeoutHandler> m_timeoutHandler;
 
-- 
2.43.0


From add97566173c7479c0fa40007637d853c7b91fe3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 156/236] fix: progress listener used after an interrupted IMAP
 fetch

---
 src/vmime/net/imap/IMAPParser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index a0e38ea..6b05dc8 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1223,7 +1223,14 @@ public:
 							value = "[literal-handler]";
 
 							parser.m_progress = target->progressListener();
-							parser.readLiteral(*target, length);
+
+							try {
+								parser.readLiteral(*target, length);
+							} catch (...) {
+								parser.m_progress = NULL;
+								throw;
+							}
+
 							parser.m_progress = NULL;
 
 						} else {
-- 
2.43.0


From a6be394fe08bd95dedc42508b7c161c5abba2da4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 157/236] fix: null dereference on an IMAP STATUS reply without
 attributes

---
 src/vmime/net/imap/IMAPFolderStatus.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..4082bea 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -106,6 +106,10 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 
 	if (resp.type == IMAPParser::mailbox_data::STATUS) {
 
+		if (!resp.status_att_list) {
+			return false;
+		}
+
 		for (auto &attval : resp.status_att_list->values) {
 
 			switch (attval->type) {
-- 
2.43.0


From 19414ecf3963e3b7282da4c6a4bb8b1eb6596ce3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 158/236] fix: names of IMAP message parts were found only if
 the server sent "NAME" in upper-case

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..5b177fd 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -57,7 +57,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
-- 
2.43.0


From eadb82150e308dfa194f9b67a2cad72fdf25eed9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 159/236] fix: size and name of message parts were not known in
 IMAP (message/rfc822)

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index 5b177fd..8349cc4 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -96,6 +96,9 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
-- 
2.43.0


From b316ac44dbcf90617a4c7d844748cddd20fdcedf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 160/236] fix: INBOX was not recognized when sent as a string
 in IMAP replies

---
 src/vmime/net/imap/IMAPParser.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 6b05dc8..25469aa 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1876,7 +1876,11 @@ public:
 
 			size_t pos = *currentPos;
 
-			if (VIMAP_PARSER_TRY_CHECK_WITHARG(special_atom, "inbox")) {
+			std::unique_ptr <astring> astr;
+			VIMAP_PARSER_GET(astring, astr);
+
+			// INBOX is case-insensitive, and may be sent as an atom or as a string
+			if (utility::stringUtils::isStringEqualNoCase(astr->value, "inbox")) {
 
 				type = INBOX;
 				name = "INBOX";
@@ -1884,9 +1888,6 @@ public:
 			} else {
 
 				type = OTHER;
-
-				std::unique_ptr <astring> astr;
-				VIMAP_PARSER_GET(astring, astr);
 				name = astr->value;
 			}
 
-- 
2.43.0


From c11efa814f5ee035cc14ce61f297967338fb305e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 161/236] fix: time quadratic in the length of IMAP replies, as
 the whole line was copied each time a component did not match

---
 src/vmime/net/imap/IMAPParser.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 25469aa..62b3ff6 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -505,9 +505,14 @@ public:
 			}
 #endif
 
-			string result(line.substr(0, pos));
+			// Keep only what is near the current position (this is called each time
+			// an alternative does not match, and lines may be very long)
+			const size_t context = 500;
+			const size_t start = pos > context ? pos - context : 0;
+
+			string result(line.substr(start, pos - start));
 			result += "[^]";   // indicates current parser position
-			result += line.substr(pos, line.length());
+			result += line.substr(pos, context);
 			if (!comp.empty()) result += " [" + comp + "]";
 
 			return (result);
-- 
2.43.0


From c81ad10e086307887b66dc47d26015c6b50f9087 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 162/236] fix: IMAP replies were refused when a flag contained
 '['

---
 src/vmime/net/imap/IMAPParser.hpp | 43 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 62b3ff6..e6ede2c 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1392,6 +1392,11 @@ public:
 
 	DECLARE_COMPONENT(atom)
 
+		atom(const bool allowBracket = false)
+			: m_allowBracket(allowBracket) {
+
+		}
+
 		bool parseImpl(IMAPParser& parser, string& line, size_t* currentPos) {
 
 			size_t pos = *currentPos;
@@ -1412,12 +1417,22 @@ public:
 					case '"':   // quoted_specials
 					case '\\':  // quoted_specials
 
-					case '[':
-					case ']':   // for "special_atom"
+					case ']':
 
 						end = true;
 						break;
 
+					case '[':   // for "special_atom"
+
+						if (m_allowBracket) {
+							++pos;
+							++len;
+						} else {
+							end = true;
+						}
+
+						break;
+
 					default:
 
 						if (c <= 0x1f || c >= 0x7f) {
@@ -1446,6 +1461,22 @@ public:
 
 
 		string value;
+
+	private:
+
+		const bool m_allowBracket;
+	};
+
+
+	// Atom which may contain "[" (RFC-3501), as in "flag_keyword"
+	class keyword_atom : public atom {
+
+	public:
+
+		keyword_atom()
+			: atom(true) {
+
+		}
 	};
 
 
@@ -1785,7 +1816,7 @@ public:
 				} else {
 
 					shared_ptr <atom> at;
-					VIMAP_PARSER_GET(atom, at);
+					VIMAP_PARSER_GET(keyword_atom, at);
 
 					const string tname = utility::stringUtils::toLower(at->value);
 
@@ -1811,7 +1842,7 @@ public:
 					type = STAR;  // map "*" to "\*"
 				} else {
 					type = KEYWORD_OR_EXTENSION;
-					VIMAP_PARSER_GET(atom, flag_keyword);
+					VIMAP_PARSER_GET(keyword_atom, flag_keyword);
 				}
 			}
 
@@ -1927,7 +1958,7 @@ public:
 			if (VIMAP_PARSER_TRY_CHECK(one_char <'\\'> )) {
 
 				std::unique_ptr <atom> at;
-				VIMAP_PARSER_GET(atom, at);
+				VIMAP_PARSER_GET(keyword_atom, at);
 
 				const string tname = utility::stringUtils::toLower(at->value);
 
@@ -2037,7 +2068,7 @@ public:
 			} else {
 
 				std::unique_ptr <atom> at;
-				VIMAP_PARSER_GET(atom, at);
+				VIMAP_PARSER_GET(keyword_atom, at);
 				const string tname = utility::stringUtils::toLower(at->value);
 
 				type = UNKNOWN;
-- 
2.43.0


From 48b80beffebde45a196e9adc10c6683811543b9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 163/236] fix: IMAP FETCH replies with an INTERNALDATE were
 refused

---
 src/vmime/net/imap/IMAPParser.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index e6ede2c..87a7519 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2459,8 +2459,16 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
-			shared_ptr <atom> amo;
-			VIMAP_PARSER_GET(atom, amo);
+			// Month is not read as an atom, as atoms may contain '-'
+			string monthName;
+
+			while (pos < line.length() && line[pos] != '-' && line[pos] != '"') {
+				monthName += line[pos++];
+			}
+
+			if (monthName.empty()) {
+				VIMAP_PARSER_FAIL();
+			}
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
@@ -2511,7 +2519,7 @@ public:
 			m_datetime.setDay(static_cast <int>(std::min(std::max(nd->value, 1ul), 31ul)));
 			m_datetime.setYear(static_cast <int>(ny->value));
 
-			const string month(utility::stringUtils::toLower(amo->value));
+			const string month(utility::stringUtils::toLower(monthName));
 			int mon = vmime::datetime::JANUARY;
 
 			if (month.length() >= 3) {
-- 
2.43.0


From d05a2344f960dbe738a2c3598ff0615cf32b2d0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 164/236] fix: define IMAPSearchTokenFactory::AND() for lvalues

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..8f9b552 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -310,6 +310,11 @@ IMAPSearchTokenPtr IMAPSearchTokenFactory::AND(const std::vector <IMAPSearchToke
 }
 
 
+IMAPSearchTokenPtr IMAPSearchTokenFactory::AND(const std::vector <IMAPSearchTokenPtr>& keywords) {
+	return vmime::make_shared <helpers::tokenVectorToken>("", keywords);
+}
+
+
 IMAPSearchTokenPtr IMAPSearchTokenFactory::ANSWERED() {
 
 	return vmime::make_shared <helpers::keylessToken>("ANSWERED");
-- 
2.43.0


From 80a59495f4e4fa6b18ab6de13163fb9d25ed21ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 165/236] fix: IMAP commands were broken, or other commands
 injected, by line breaks and quotes in names, credentials and search strings

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 28 +++++++++++++++++++--
 src/vmime/net/imap/IMAPUtils.cpp            |  6 +++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 8f9b552..4671cc6 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -51,6 +51,30 @@ protected:
 };
 
 
+// Returns a string search argument, always written as a quoted string
+static const string quoteSearchString(const string& str) {
+
+	// A line break or a NUL character cannot be sent in a quoted string
+	// (and would allow other commands to be sent to the server)
+	if (str.find_first_of(string("\r\n\0", 3)) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
+	string quoted = "\"";
+
+	for (const char c : str) {
+
+		if (c == '\\' || c == '"') {
+			quoted += '\\';
+		}
+
+		quoted += c;
+	}
+
+	return quoted + '"';
+}
+
+
 // Represents a string search token with the search string quoted
 class stringToken : public typedSearchToken <string> {
 
@@ -63,7 +87,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << quoteSearchString(m_keyword);
 	};
 };
 
@@ -85,7 +109,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << m_keyword << " " << quoteSearchString(m_headerKeyword);
 	};
 
 protected:
diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index e4165bf..8fa070d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -69,6 +69,12 @@ const string IMAPUtils::quoteString(const string& text) {
 	//                      0x00 - 0x1f, 0x7f>
 	//
 
+	// A line break or a NUL character cannot be sent in a quoted string
+	// (and would allow other commands to be sent to the server)
+	if (text.find_first_of(string("\r\n\0", 3)) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	bool needQuoting = text.empty();
 
 	for (string::const_iterator it = text.begin() ;
-- 
2.43.0


From f0b1218b79b89cf43b364bc4e8dbde532cb89d16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 166/236] fix: the set of an IMAP UID search key was written in
 parentheses

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 4671cc6..4e3f788 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -248,16 +248,16 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
-		}
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
-		out << enu.str();
-		out << ")";
+
+		// Parentheses are allowed around a search key, but not around
+		// the set which is the argument of the "UID" search key
+		if (*m_token) {
+			out << m_token << " " << enu.str();
+		} else {
+			out << "(" << enu.str() << ")";
+		}
 	}
 };
 
-- 
2.43.0


From 1e463f55ba1caf0741d0ea20bec59ea390aa651a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 167/236] fix: sizes of 2^31 and more were written as negative
 numbers in IMAP search keys

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 4e3f788..e916d0c 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -135,7 +135,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
-- 
2.43.0


From add631c7c219a576cb8bfeee942d59311a3d754c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 168/236] fix: mode of an open IMAP folder was not the one
 given by the server, and any other response code was taken for read-only

---
 src/vmime/net/imap/IMAPFolder.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..4305892 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -259,28 +259,25 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 			}
 		}
 
-		processStatusUpdate(resp.get());
-
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
+		int openMode = mode;
 
-		if (respTextCode) {
-
-			const int openMode =
-				(respTextCode->type == IMAPParser::resp_text_code::READ_WRITE)
-					? MODE_READ_WRITE
-					: MODE_READ_ONLY;
+		if (respTextCode && respTextCode->type == IMAPParser::resp_text_code::READ_ONLY) {
 
-			if (failIfModeIsNotAvailable &&
-			    mode == MODE_READ_WRITE && openMode == MODE_READ_ONLY) {
+			openMode = MODE_READ_ONLY;
 
+			if (failIfModeIsNotAvailable && mode == MODE_READ_WRITE) {
 				throw exceptions::operation_not_supported();
 			}
 		}
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = openMode;
+		m_status = make_shared <IMAPFolderStatus>();
+
+		processStatusUpdate(resp.get());
 
 	} catch (std::exception&) {
 
-- 
2.43.0


From f379f0dc2354a8e3c2125bcb9257bcf58222083c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 169/236] fix: IMAP folder could not be opened when another,
 closed object existed for the same path

---
 src/vmime/net/imap/IMAPFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 4305892..4ae2e5d 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -158,7 +158,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		if ((*it) != this && (*it)->isOpen() && (*it)->getFullPath() == m_path) {
 			throw exceptions::folder_already_open();
 		}
 	}
-- 
2.43.0


From c27cdd6d1e19390096e5ac02194f3c579052acb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 170/236] fix: existence and attributes of IMAP folders were
 taken from other folders (wildcards in names) and from message flags

---
 src/vmime/net/imap/IMAPFolder.cpp | 38 +++++++++++--------------------
 src/vmime/net/imap/IMAPFolder.hpp |  8 +++++++
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 4ae2e5d..3c0d945 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -233,29 +233,6 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 					}
 				}
 
-			// Untagged responses: FLAGS, EXISTS, RECENT (required)
-			} else if (responseData->mailbox_data) {
-
-				switch (responseData->mailbox_data->type) {
-
-					default: break;
-
-					case IMAPParser::mailbox_data::FLAGS: {
-
-						if (!m_attribs) {
-							m_attribs = make_shared <folderAttributes>();
-						}
-
-						IMAPUtils::mailboxFlagsToFolderAttributes(
-							connection,
-							m_path,
-							*responseData->mailbox_data->mailbox_flag_list,
-							*m_attribs
-						);
-
-						break;
-					}
-				}
 			}
 		}
 
@@ -532,7 +509,8 @@ int IMAPFolder::testExistAndGetType() {
 
 		// We are only interested in responses of type "LIST"
 		if (mailboxData &&
-		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
+		    mailboxData->type == IMAPParser::mailbox_data::LIST &&
+		    isSameMailbox(*mailboxData->mailbox_list)) {
 
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
@@ -550,6 +528,14 @@ int IMAPFolder::testExistAndGetType() {
 }
 
 
+bool IMAPFolder::isSameMailbox(const IMAPParser::mailbox_list& list) const {
+
+	const folder::path path = IMAPUtils::stringToPath(list.quoted_char, list.mailbox->name);
+
+	return IMAPUtils::pathToString('/', path) == IMAPUtils::pathToString('/', m_path);
+}
+
+
 bool IMAPFolder::isOpen() const {
 
 	return m_open;
@@ -1630,7 +1616,9 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
+			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST &&
+			    isSameMailbox(*(*it)->response_data->mailbox_data->mailbox_list)) {
+
 
 				folderAttributes attribs;
 				IMAPUtils::mailboxFlagsToFolderAttributes(
diff --git a/src/vmime/net/imap/IMAPFolder.hpp b/src/vmime/net/imap/IMAPFolder.hpp
index ef54719..a2f6e6f 100644
--- a/src/vmime/net/imap/IMAPFolder.hpp
+++ b/src/vmime/net/imap/IMAPFolder.hpp
@@ -233,6 +233,14 @@ private:
 	  */
 	void processStatusUpdate(const IMAPParser::response* resp);
 
+	/** Test whether a LIST response is about this folder.
+	  *
+	  * @param list mailbox data of a LIST response
+	  * @return true if the data is about this folder, false if it is
+	  * about another one
+	  */
+	bool isSameMailbox(const IMAPParser::mailbox_list& list) const;
+
 
 	weak_ptr <IMAPStore> m_store;
 	shared_ptr <IMAPConnection> m_connection;
-- 
2.43.0


From 7846be1052ca86da2bce2712356a777cae64e60c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 171/236] fix: IMAP folders were said to have children when the
 capabilities of the server were not known yet

---
 src/vmime/net/imap/IMAPUtils.cpp | 2 +-
 src/vmime/net/imap/IMAPUtils.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 8fa070d..54ced4d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -443,7 +443,7 @@ const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 
 // static
 void IMAPUtils::mailboxFlagsToFolderAttributes(
-	const shared_ptr <const IMAPConnection>& cnt,
+	const shared_ptr <IMAPConnection>& cnt,
 	const folder::path &path,
 	const IMAPParser::mailbox_flag_list& list,
 	folderAttributes& attribs
diff --git a/src/vmime/net/imap/IMAPUtils.hpp b/src/vmime/net/imap/IMAPUtils.hpp
index e64b268..69325a0 100644
--- a/src/vmime/net/imap/IMAPUtils.hpp
+++ b/src/vmime/net/imap/IMAPUtils.hpp
@@ -75,7 +75,7 @@ public:
 	  * @param attribs reference to an object holding folder attributes
 	  */
 	static void mailboxFlagsToFolderAttributes(
-		const shared_ptr <const IMAPConnection>& cnt,
+		const shared_ptr <IMAPConnection>& cnt,
 		const folder::path &path,
 		const IMAPParser::mailbox_flag_list& list,
 		folderAttributes& attribs
-- 
2.43.0


From 1965996b03df8755918f9336ebed8d6fba1383bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 172/236] fix: recursive list of IMAP folders contained the
 folder itself and others having the same prefix

---
 src/vmime/net/imap/IMAPFolder.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 3c0d945..6158085 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -696,19 +696,12 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		m_connection->hierarchySeparator(), getFullPath()
 	);
 
-	if (recursive) {
-
-		cmd = IMAPCommand::LIST(pathString, "*");
-
-	} else {
-
-		cmd = IMAPCommand::LIST(
-			pathString.empty()
-				? ""
-				: (pathString + m_connection->hierarchySeparator()),
-			"%"
-		);
-	}
+	cmd = IMAPCommand::LIST(
+		pathString.empty()
+			? ""
+			: (pathString + m_connection->hierarchySeparator()),
+		recursive ? "*" : "%"
+	);
 
 	cmd->send(m_connection);
 
@@ -744,7 +737,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		if (recursive ? m_path.isParentOf(path) : m_path.isDirectParentOf(path)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
-- 
2.43.0


From 5e9bf14f9174e67faa1f0ef5e9706ddc483a41bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 173/236] fix: result of the IMAP CLOSE command was ignored

---
 src/vmime/net/imap/IMAPFolder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 6158085..16acabb 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -294,6 +294,15 @@ void IMAPFolder::close(const bool expunge) {
 		}
 
 		IMAPCommand::CLOSE()->send(oldConnection);
+
+		// Get the response
+		scoped_ptr <IMAPParser::response> resp(oldConnection->readResponse());
+
+		if (resp->isBad() || resp->response_done->response_tagged->
+				resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
+
+			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
+		}
 	}
 
 	// Close this folder connection
-- 
2.43.0


From cf0b99979ba515d8d3fa131e01ef8a0d663b5ba3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 174/236] fix: path of the sub-folders of a renamed IMAP folder
 became the path of their parent

---
 src/vmime/net/imap/IMAPFolder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 16acabb..e25e337 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1281,15 +1281,15 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
-
+			folder::path oldSubPath((*it)->m_path);
 			(*it)->m_path.renameParent(oldPath, newPath);
 
+
 			shared_ptr <events::folderEvent> event =
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 1f39ec767337caa4076d93f470fe5ed7f7dbd0e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 175/236] fix: IMAPFolder::getMessageNumbersStartingOnUID()
 returned the last message when its UID is lower

---
 src/vmime/net/imap/IMAPFolder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index e25e337..2d57b8a 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1441,7 +1441,8 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
-	uidSearchKey << "UID " << uid << ":*";
+	// Not ":*", which always includes the last message
+	uidSearchKey << "UID " << uid << ":4294967295";
 
 	std::vector <string> searchKeys;
 	searchKeys.push_back(uidSearchKey.str());
-- 
2.43.0


From f547f2faa95b3bdd481acebd770fe2580c49b14a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:18:49 +0000
Subject: [PATCH 176/236] fix: message count, numbers and notifications of an
 IMAP folder were wrong after EXPUNGE, EXISTS and STATUS responses

---
 src/vmime/net/imap/IMAPFolder.cpp       | 86 +++++++++++++++----------
 src/vmime/net/imap/IMAPFolderStatus.cpp |  6 ++
 src/vmime/net/imap/IMAPFolderStatus.hpp |  6 ++
 3 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 2d57b8a..db6b912 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1385,6 +1385,8 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 		throw exceptions::command_error("STATUS", resp->getErrorLog(), "bad response");
 	}
 
+	processStatusUpdate(resp.get());
+
 	auto &respDataList = resp->continue_req_or_response_data;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
@@ -1399,8 +1401,6 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
 				status->updateFromResponse(*responseData->mailbox_data);
 
-				m_status->updateFromResponse(*responseData->mailbox_data);
-
 				return status;
 			}
 		}
@@ -1588,9 +1588,6 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 	std::vector <shared_ptr <events::event> > events;
 
-	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
-
 	// Process tagged response
 	if (resp->response_done &&
 	    resp->response_done->response_tagged &&
@@ -1616,8 +1613,35 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
+			const size_t oldCount = m_status->getMessageCount();
+
 			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
 
+			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::STATUS) {
+
+				// Only "EXISTS" and "EXPUNGE" change the numbers of the messages
+				m_status->setMessageCount(oldCount);
+
+			} else if (m_status->getMessageCount() > oldCount) {
+
+				// New messages arrived
+				std::vector <size_t> newMessageNumbers;
+
+				for (size_t msgNumber = oldCount + 1 ;
+				     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
+
+					newMessageNumbers.push_back(msgNumber);
+				}
+
+				events.push_back(
+					make_shared <events::messageCountEvent>(
+						dynamicCast <folder>(shared_from_this()),
+						events::messageCountEvent::TYPE_ADDED,
+						newMessageNumbers
+					)
+				);
+			}
+
 			// Update folder attributes, if available
 			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST &&
 			    isSameMailbox(*(*it)->response_data->mailbox_data->mailbox_list)) {
@@ -1645,18 +1669,26 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
+					if ((*mit)->getNumber() == msgNumber && !(*mit)->isExpunged()) {
 						(*mit)->processFetchResponse(/* options */ 0, *msgData);
 					}
 				}
 
-				events.push_back(
-					make_shared <events::messageChangedEvent>(
-						dynamicCast <folder>(shared_from_this()),
-						events::messageChangedEvent::TYPE_FLAGS,
-						std::vector <size_t>(1, msgNumber)
-					)
-				);
+				for (auto &att : msgData->msg_att->items) {
+
+					if (att->type == IMAPParser::msg_att_item::FLAGS) {
+
+						events.push_back(
+							make_shared <events::messageChangedEvent>(
+								dynamicCast <folder>(shared_from_this()),
+								events::messageChangedEvent::TYPE_FLAGS,
+								std::vector <size_t>(1, msgNumber)
+							)
+						);
+
+						break;
+					}
+				}
 
 			} else if (msgData->type == IMAPParser::message_data::EXPUNGE) {
 
@@ -1664,7 +1696,9 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator jt =
 				     m_messages.begin() ; jt != m_messages.end() ; ++jt) {
 
-					if ((*jt)->getNumber() == msgNumber) {
+					if ((*jt)->isExpunged()) {
+						continue;
+					} else if ((*jt)->getNumber() == msgNumber) {
 						(*jt)->setExpunged();
 					} else if ((*jt)->getNumber() > msgNumber) {
 						(*jt)->renumber((*jt)->getNumber() - 1);
@@ -1679,31 +1713,13 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					)
 				);
 
-				expungedMessageCount++;
+				if (m_status->getMessageCount() > 0) {
+					m_status->setMessageCount(m_status->getMessageCount() - 1);
+				}
 			}
 		}
 	}
 
-	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
-
-		std::vector <size_t> newMessageNumbers;
-
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
-		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
-
-			newMessageNumbers.push_back(msgNumber);
-		}
-
-		events.push_back(
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				newMessageNumbers
-			)
-		);
-	}
-
 	// Dispatch notifications
 	for (std::vector <shared_ptr <events::event> >::iterator evit =
 	     events.begin() ; evit != events.end() ; ++evit) {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 4082bea..c657e10 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -100,6 +100,12 @@ shared_ptr <folderStatus> IMAPFolderStatus::clone() const {
 }
 
 
+void IMAPFolderStatus::setMessageCount(const size_t count) {
+
+	m_count = count;
+}
+
+
 bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp) {
 
 	bool changed = false;
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..197d9c0 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -88,6 +88,12 @@ public:
 	vmime_uint64 getHighestModSeq() const;
 
 
+	/** Changes the number of messages.
+	  *
+	  * @param count number of messages in the folder
+	  */
+	void setMessageCount(const size_t count);
+
 	/** Reads the folder status from the specified IMAP response.
 	  *
 	  * @param resp parsed IMAP response
-- 
2.43.0


From 9cd473d2930ade9f71457f559a85ef3bd0e5f863 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 177/236] fix: changes announced by the IMAP server in the
 responses to some commands, or when a command failed, were lost

---
 src/vmime/net/imap/IMAPFolder.cpp  | 61 +++++++++++++++++++-----------
 src/vmime/net/imap/IMAPMessage.cpp | 10 ++---
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index db6b912..291ccd0 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -395,6 +395,8 @@ void IMAPFolder::create(const folderAttributes& attribs) {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -434,6 +436,8 @@ void IMAPFolder::destroy() {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -496,6 +500,8 @@ int IMAPFolder::testExistAndGetType() {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -598,6 +604,8 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -717,6 +725,8 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -804,6 +814,8 @@ void IMAPFolder::fetchMessages(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -862,7 +874,6 @@ void IMAPFolder::fetchMessages(
 		progress->stop(total);
 	}
 
-	processStatusUpdate(resp.get());
 }
 
 
@@ -902,6 +913,8 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -949,8 +962,6 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 		msg->processFetchResponse(attribsWithUID, *messageData);
 	}
 
-	processStatusUpdate(resp.get());
-
 	return messages;
 }
 
@@ -1040,13 +1051,14 @@ void IMAPFolder::deleteMessages(const messageSet& msgs) {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1066,13 +1078,13 @@ void IMAPFolder::setMessageFlags(
 		// Get the response
 		scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+		processStatusUpdate(resp.get());
+
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 			throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 		}
-
-		processStatusUpdate(resp.get());
 	}
 }
 
@@ -1123,6 +1135,8 @@ messageSet IMAPFolder::addMessage(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	bool ok = false;
 	auto &respList = resp->continue_req_or_response_data;
 
@@ -1137,8 +1151,6 @@ messageSet IMAPFolder::addMessage(
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
-
 	// Send message data
 	const size_t total = size;
 	size_t current = 0;
@@ -1183,14 +1195,14 @@ messageSet IMAPFolder::addMessage(
 	// Get the response
 	scoped_ptr <IMAPParser::response> finalResp(m_connection->readResponse());
 
+	processStatusUpdate(finalResp.get());
+
 	if (finalResp->isBad() || finalResp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(finalResp.get());
-
 	auto *respTextCode =
 		finalResp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
@@ -1220,13 +1232,14 @@ void IMAPFolder::expunge() {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("EXPUNGE", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1253,6 +1266,8 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1296,7 +1311,6 @@ void IMAPFolder::rename(const folder::path& newPath) {
 		}
 	}
 
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1319,14 +1333,14 @@ messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet&
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("COPY", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
-
 	auto *respTextCode =
 		resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
@@ -1379,14 +1393,14 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("STATUS", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
-
 	auto &respDataList = resp->continue_req_or_response_data;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
@@ -1426,13 +1440,14 @@ void IMAPFolder::noop() {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("NOOP", resp->getErrorLog());
 	}
 
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1452,6 +1467,8 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 	    resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1482,8 +1499,6 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return seqNumbers;
 }
 
@@ -1500,6 +1515,8 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1530,8 +1547,6 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return seqNumbers;
 }
 
@@ -1548,6 +1563,8 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1578,8 +1595,6 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return uidNumbers;
 }
 
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..a90de21 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -318,12 +318,12 @@ size_t IMAPMessage::extractImpl(
 	const int extractFlags
 ) const {
 
-	shared_ptr <const IMAPFolder> folder = m_folder.lock();
+	shared_ptr <IMAPFolder> folder = m_folder.lock();
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
 	}
-	
+
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
@@ -470,6 +470,9 @@ size_t IMAPMessage::extractImpl(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(folder->m_connection->readResponse(&literalHandler));
 
+	folder->processStatusUpdate(resp.get());
+
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -477,9 +480,6 @@ size_t IMAPMessage::extractImpl(
 	}
 
 
-	if (extractFlags & EXTRACT_BODY) {
-		// TODO: update the flags (eg. flag "\Seen" may have been set)
-	}
 
 	return literalHandler.getTarget()->getBytesWritten();
 }
-- 
2.43.0


From 9c8cf964f3838a2731984746e6aeadbe77a49b5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 178/236] fix: messages returned twice, or not requested, when
 the IMAP server sent several FETCH responses

---
 src/vmime/net/imap/IMAPFolder.cpp | 192 +++++++++++++++++++-----------
 1 file changed, 124 insertions(+), 68 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 291ccd0..8a7d777 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -52,6 +52,79 @@ namespace net {
 namespace imap {
 
 
+#ifndef VMIME_BUILDING_DOC
+
+
+// Tests whether a message number (or a UID, for a set of UIDs) is in a set
+
+class IMAPFolder_messageSetTester : public messageSetEnumerator {
+
+public:
+
+	IMAPFolder_messageSetTester(const size_t num)
+		: m_num(num),
+		  m_found(false) {
+
+	}
+
+	void enumerateNumberMessageRange(const vmime::net::numberMessageRange& range) {
+
+		test(range.getFirst(), range.getLast());
+	}
+
+	void enumerateUIDMessageRange(const vmime::net::UIDMessageRange& range) {
+
+		test(toNumber(range.getFirst()), toNumber(range.getLast()));
+	}
+
+	bool isFound() const {
+
+		return m_found;
+	}
+
+	static size_t toNumber(const message::uid& uid) {
+
+		std::istringstream iss(static_cast <string>(uid));
+		iss.imbue(std::locale::classic());
+
+		size_t num = 0;
+		iss >> num;
+
+		return num;
+	}
+
+private:
+
+	void test(const size_t first, const size_t last) {
+
+		m_found = m_found || (m_num >= std::min(first, last) && m_num <= std::max(first, last));
+	}
+
+
+	const size_t m_num;
+	bool m_found;
+};
+
+
+static bool isInMessageSet(const messageSet& msgs, const size_t num) {
+
+	IMAPFolder_messageSetTester tester(num);
+	msgs.enumerate(tester);
+
+	return tester.isFound();
+}
+
+
+static size_t getUIDAsNumber(const message::uid& uid) {
+
+	return IMAPFolder_messageSetTester::toNumber(uid);
+}
+
+
+#endif // VMIME_BUILDING_DOC
+
+
+
 IMAPFolder::IMAPFolder(
 	const folder::path& path,
 	const shared_ptr <IMAPStore>& store,
@@ -580,8 +653,6 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 		return std::vector <shared_ptr <message> >();
 	}
 
-	std::vector <shared_ptr <message> > messages;
-
 	// Sequence number message set:
 	//     C: . FETCH uuuu1,uuuu2,uuuu3 UID
 	//     S: * nnnn1 FETCH (UID uuuu1)
@@ -596,57 +667,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	//     S: * nnnn3 FETCH (UID uuuu3)
 	//     S: . OK UID FETCH completed
 
-	std::vector <string> params;
-	params.push_back("UID");
-
-	IMAPCommand::FETCH(msgs, params)->send(m_connection);
-
-	// Get the response
-	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
-
-	processStatusUpdate(resp.get());
-
-	if (resp->isBad() || resp->response_done->response_tagged->
-			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
-
-		throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "bad response");
-	}
-
-	// Process the response
-	auto &respDataList = resp->continue_req_or_response_data;
-
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
-
-		if (!(*it)->response_data) {
-			throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "invalid response");
-		}
-
-		auto *messageData = (*it)->response_data->message_data.get();
-
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-			continue;
-		}
-
-		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
-		message::uid msgUID;
-
-		for (auto &att : messageData->msg_att->items) {
-
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
-			}
-		}
-
-		if (!msgUID.empty()) {
-			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
-		}
-	}
-
-	return messages;
+	return getAndFetchMessages(msgs, fetchAttributes(fetchAttributes::UID));
 }
 
 
@@ -923,7 +944,10 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 
 	auto &respDataList = resp->continue_req_or_response_data;
 
-	std::vector <shared_ptr <message> > messages;
+	const shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
+
+	std::vector <shared_ptr <IMAPMessage> > fetchedMessages;
+	std::vector <bool> requested;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
@@ -933,33 +957,65 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 
 		auto *messageData = (*it)->response_data->message_data.get();
 
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
+		if (!messageData) {
 			continue;
 		}
 
-		// Get message number
 		const size_t msgNum = messageData->number;
 
-		// Get message UID
-		message::uid msgUID;
+		if (messageData->type == IMAPParser::message_data::EXPUNGE) {
 
-		for (auto &att : messageData->msg_att->items) {
+			// Messages get renumbered
+			for (auto &msg : fetchedMessages) {
 
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
+				if (msg->isExpunged()) {
+					continue;
+				} else if (msg->getNumber() == msgNum) {
+					msg->setExpunged();
+				} else if (msg->getNumber() > msgNum) {
+					msg->renumber(msg->getNumber() - 1);
+				}
 			}
+
+			continue;
+		}
+
+		// We are only interested in responses of type "FETCH"
+		if (messageData->type != IMAPParser::message_data::FETCH) {
+			continue;
 		}
 
-		// Create a new message reference
-		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
+		// The data of a message can be sent in several responses
+		size_t index = 0;
 
-		messages.push_back(msg);
+		while (index < fetchedMessages.size() &&
+		       (fetchedMessages[index]->isExpunged() ||
+		        fetchedMessages[index]->getNumber() != msgNum)) {
+
+			++index;
+		}
+
+		if (index == fetchedMessages.size()) {
+			fetchedMessages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum));
+			requested.push_back(!msgs.isUIDSet() && isInMessageSet(msgs, msgNum));
+		}
 
 		// Process fetch response for this message
-		msg->processFetchResponse(attribsWithUID, *messageData);
+		fetchedMessages[index]->processFetchResponse(attribsWithUID, *messageData);
+
+		if (msgs.isUIDSet()) {
+			requested[index] = isInMessageSet(msgs, getUIDAsNumber(fetchedMessages[index]->getUID()));
+		}
+	}
+
+	// The server can also send data about messages which were not requested
+	std::vector <shared_ptr <message> > messages;
+
+	for (size_t i = 0 ; i < fetchedMessages.size() ; ++i) {
+
+		if (requested[i] && !fetchedMessages[i]->getUID().empty()) {
+			messages.push_back(fetchedMessages[i]);
+		}
 	}
 
 	return messages;
-- 
2.43.0


From bcb03f145ecb58bafd9b52ac47be7869899394fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 179/236] fix: invalid IMAP commands were sent to flag or copy
 an empty set of messages, or to flag messages of a folder which is not open

---
 src/vmime/net/imap/IMAPFolder.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 8a7d777..ee9fcb8 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1124,6 +1124,20 @@ void IMAPFolder::setMessageFlags(
 	const int mode
 ) {
 
+	shared_ptr <IMAPStore> store = m_store.lock();
+
+	if (msgs.isEmpty()) {
+		throw exceptions::invalid_argument();
+	}
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	} else if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	} else if (m_mode == MODE_READ_ONLY) {
+		throw exceptions::illegal_state("Folder is read-only");
+	}
+
 	const std::vector <string> flagList = IMAPUtils::messageFlagList(flags);
 
 	if ((mode == message::FLAG_MODE_SET) || !flagList.empty()) {
@@ -1372,6 +1386,10 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet& set) {
 
+	if (set.isEmpty()) {
+		throw exceptions::invalid_argument();
+	}
+
 	shared_ptr <IMAPStore> store = m_store.lock();
 
 	if (!store) {
-- 
2.43.0


From c83cb82ee01d70191e07be57311ba672be79e9de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 180/236] fix: operations on an expunged IMAP message were
 performed on another message

---
 src/vmime/net/imap/IMAPFolder.cpp  |  9 +++++++++
 src/vmime/net/imap/IMAPMessage.cpp | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index ee9fcb8..4fea8ef 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -823,10 +823,19 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		// Do not fetch the message which now has the number of an expunged one
+		if ((*it)->isExpunged()) {
+			continue;
+		}
+
 		list.push_back((*it)->getNumber());
 		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
 	}
 
+	if (list.empty()) {
+		return;
+	}
+
 	// Send the request
 	IMAPUtils::buildFetchCommand(
 		m_connection, messageSet::byNumber(list), options
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index a90de21..fb9101d 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -327,6 +327,10 @@ size_t IMAPMessage::extractImpl(
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
+
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
 	
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
@@ -666,6 +670,10 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
@@ -733,6 +741,10 @@ shared_ptr <vmime::message> IMAPMessage::getParsedMessage() {
 	// Fetch structure
 	shared_ptr <messageStructure> structure;
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	try {
 
 		structure = getStructure();
-- 
2.43.0


From 1eef69fd31930c053d0d17558b8d28fd2529aab0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 181/236] fix: header fields of IMAP messages were duplicated
 when fetched again

---
 src/vmime/net/imap/IMAPMessage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fb9101d..ec9eb33 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -629,6 +629,11 @@ int IMAPMessage::processFetchResponse(
 
 						vmime::header& hdr = *getOrCreateHeader();
 
+						// Fields may have been fetched before
+						for (auto& fld : tempHeader.getFieldList()) {
+							hdr.removeAllFields(fld->getName());
+						}
+
 						for (auto& fld : tempHeader.getFieldList()) {
 							hdr.appendField(vmime::clone(fld));
 						}
-- 
2.43.0


From 644eef03c22b655ef4ff53a09078c8ccfa65f35c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 182/236] fix: IMAP envelopes without date or subject, with
 groups or with several In-Reply-To identifiers were not read properly

---
 src/vmime/net/imap/IMAPMessage.cpp | 21 ++++++++++++++-------
 src/vmime/net/imap/IMAPUtils.cpp   |  5 +++++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index ec9eb33..95e1d1a 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -531,13 +531,18 @@ int IMAPMessage::processFetchResponse(
 					shared_ptr <vmime::header> hdr = getOrCreateHeader();
 
 					// Date
-					hdr->Date()->setValue(env->env_date->value);
+					if (!env->env_date->isNIL) {
+						hdr->Date()->setValue(env->env_date->value);
+					}
 
 					// Subject
-					text subject;
-					text::decodeAndUnfold(env->env_subject->value, &subject);
+					if (!env->env_subject->isNIL) {
+
+						text subject;
+						text::decodeAndUnfold(env->env_subject->value, &subject);
 
-					hdr->Subject()->setValue(subject);
+						hdr->Subject()->setValue(subject);
+					}
 
 					// From
 					mailboxList from;
@@ -551,7 +556,9 @@ int IMAPMessage::processFetchResponse(
 					mailboxList to;
 					IMAPUtils::convertAddressList(*(env->env_to), to);
 
-					hdr->To()->setValue(to.toAddressList());
+					if (!to.isEmpty()) {
+						hdr->To()->setValue(to.toAddressList());
+					}
 
 					// Sender
 					mailboxList sender;
@@ -592,9 +599,9 @@ int IMAPMessage::processFetchResponse(
 
 					// In-Reply-To
 					if (!env->env_in_reply_to->isNIL) {
-						shared_ptr <messageId> mid = make_shared <messageId>(env->env_in_reply_to->value);
 						messageIdSequence sequence;
-						sequence.appendMessageId(mid);
+						sequence.parse(env->env_in_reply_to->value);
+
 						hdr->InReplyTo()->setValue(sequence);
 					}
 				}
diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 54ced4d..aeaaea5 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -776,6 +776,11 @@ void IMAPUtils::convertAddressList(
 
 	for (auto& addr : src.addresses) {
 
+		// Start or end of a group
+		if (addr->addr_mailbox->isNIL || addr->addr_host->isNIL) {
+			continue;
+		}
+
 		text name;
 		text::decodeAndUnfold(addr->addr_name->value, &name);
 
-- 
2.43.0


From 04adb961390e526aba27985c5c40592b8e60d4f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 183/236] fix: contents of the parts of IMAP messages started
 with the header of the part when generated or extracted without decoding

---
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From adaf89e27dacb86e2fb736313c007352cb58f4ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 184/236] fix: IMAP SASL authentication sent an initial
 response to servers which do not support it, and kept outdated capabilities

---
 src/vmime/net/imap/IMAPConnection.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..49770e7 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -397,7 +397,9 @@ void IMAPConnection::authenticateSASL() {
 
 		shared_ptr <IMAPCommand> authCmd;
 
-		if (saslSession->getMechanism()->hasInitialResponse()) {
+		// The initial response can be sent with the command only if the server
+		// supports it (RFC-4959)
+		if (saslSession->getMechanism()->hasInitialResponse() && hasCapability("SASL-IR")) {
 
 			byte_t* initialResp = 0;
 			size_t initialRespLen = 0;
@@ -430,8 +432,16 @@ void IMAPConnection::authenticateSASL() {
 			    	status == IMAPParser::resp_cond_state::OK) {
 
 				m_socket = saslSession->getSecuredSocket(m_socket);
+				m_parser->setSocket(m_socket);
+
+				// Server capabilities may change when logged in
+				if (!processCapabilityResponseData(resp.get())) {
+					invalidateCapabilities();
+				}
+
 				return;
 
+
 			} else {
 
 				string response;
@@ -475,9 +485,6 @@ void IMAPConnection::authenticateSASL() {
 						m_tracer->traceSendBytes(respB64.length() - 2, "SASL exchange");
 					}
 
-					// Server capabilities may change when logged in
-					invalidateCapabilities();
-
 				} catch (exceptions::sasl_exception& e) {
 
 					if (challenge) {
-- 
2.43.0


From fe09016bb2ceab71ac4006d7a16afa557554976a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 185/236] fix: IMAP folder names with '~' or a backslash were
 not read properly

---
 src/vmime/net/imap/IMAPUtils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index aeaaea5..679cf33 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -425,7 +425,15 @@ const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 					plusOutput = true;
 				}
 
-				out += c;
+				// These cannot be written directly in UTF-7
+				if (!inB64sequence && c == '~') {
+					out += "+AH4-";
+				} else if (!inB64sequence && c == '\\') {
+					out += "+AFw-";
+				} else {
+					out += c;
+				}
+
 				break;
 			}
 		}
-- 
2.43.0


From cff0694933c30d76a19c0db0bf9a0b20e86c7157 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 186/236] fix: invalid IMAP FETCH command was sent when there
 was nothing to fetch

---
 src/vmime/net/imap/IMAPUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 679cf33..23a7fb5 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -772,6 +772,11 @@ shared_ptr <IMAPCommand> IMAPUtils::buildFetchCommand(
 		}
 	}
 
+	// The list of items cannot be empty
+	if (items.empty()) {
+		items.push_back("UID");
+	}
+
 	return IMAPCommand::FETCH(msgs, items);
 }
 
-- 
2.43.0


From 85f3b8c6656566290af9a76e4777dbc5b134c387 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 187/236] fix: progress went beyond the total when several IMAP
 FETCH responses were sent for a message

---
 src/vmime/net/imap/IMAPFolder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 4fea8ef..8ac37c1 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -885,7 +885,8 @@ void IMAPFolder::fetchMessages(
 
 				(*msg).second->processFetchResponse(options, *messageData);
 
-				if (progress) {
+				// There may be several responses for a message
+				if (progress && current < total) {
 					progress->progress(++current, total);
 				}
 			}
-- 
2.43.0


From 6d457ec1b295f2f0a66952617e76a12e15a16a0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 188/236] fix: IMAP folder names with the hierarchy separator
 next to another encoded character were not written in modified UTF-7

---
 src/vmime/net/imap/IMAPUtils.cpp | 37 +++++---------------------------
 1 file changed, 5 insertions(+), 32 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 23a7fb5..d06d38d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -179,20 +179,9 @@ const string IMAPUtils::toModifiedUTF7(
 	const folder::path::component& text
 ) {
 
-	// We will replace the hierarchy separator with an equivalent
-	// UTF-7 sequence, so we compute it here...
 	const char base64alphabet[] =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,=";
 
-	const unsigned int hs = static_cast <unsigned int>(static_cast <unsigned char>(hierarchySeparator));
-
-	string hsUTF7;
-	hsUTF7.resize(3);
-
-	hsUTF7[0] = base64alphabet[0];
-	hsUTF7[1] = base64alphabet[(hs & 0xF0) >> 4];
-	hsUTF7[2] = base64alphabet[(hs & 0x0F) << 2];
-
 	// iconv() is buggy with UTF-8 to UTF-7 conversion, so we do it "by hand".
 	// This code is largely inspired from "imap/utf7.c", in mutt 1.4.
 	// Copyright (C) 2000 Edmund Grimley Evans <edmundo@rano.org>
@@ -214,26 +203,6 @@ const string IMAPUtils::toModifiedUTF7(
 
 		const unsigned char c = cvt[i];
 
-		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (c == static_cast <unsigned char>(hierarchySeparator)) {
-
-			if (base64) {
-
-				if (k > 10) {
-					out += base64alphabet[b];
-				}
-
-				out += '-';
-				base64 = false;
-			}
-
-			out += "&" + hsUTF7 + "-";
-
-			++i;
-			--remaining;
-			continue;
-		}
-
 		size_t n = 0;
 		int ch = 0;
 
@@ -278,7 +247,11 @@ const string IMAPUtils::toModifiedUTF7(
 		i += n;
 		remaining -= n;
 
-		if (ch < 0x20 || ch >= 0x7f) {
+		// The hierarchy separator is also written in Base64 (there can be only
+		// one Base64 sequence for consecutive characters)
+		if (ch < 0x20 || ch >= 0x7f ||
+		    ch == static_cast <int>(static_cast <unsigned char>(hierarchySeparator))) {
+
 
 			if (!base64) {
 				out += '&';
-- 
2.43.0


From 74ee78d2a7e9e9852a39333b698444e43522d236 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:37:58 +0000
Subject: [PATCH 189/236] fix: a POP3 folder destroyed after the connection was
 lost was used again when disconnecting the store

---
 src/vmime/net/pop3/POP3Folder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 67884bb..defe7bc 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -68,12 +68,14 @@ POP3Folder::~POP3Folder() {
 
 		if (store) {
 
+			// The folder must be unregistered even if it could not be closed
+			// (eg. the connection was lost)
+			store->unregisterFolder(this);
+
 			if (m_open) {
 				close(false);
 			}
 
-			store->unregisterFolder(this);
-
 		} else if (m_open) {
 
 			onClose();
-- 
2.43.0


From 60de4645d75efb2aef691972fa087a23ff8f731a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:37:58 +0000
Subject: [PATCH 190/236] fix: POP3 folders and messages of a lost connection
 were used on the next one; noop() after a failed connect() used a null socket

---
 src/vmime/net/pop3/POP3Store.cpp | 22 ++++++++++++++++------
 src/vmime/net/pop3/POP3Store.hpp |  2 ++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b06640f..e78ebb5 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -131,6 +131,9 @@ void POP3Store::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// Folders open on a former connection cannot be used on the new one
+	detachFolders();
+
 	m_connection = make_shared <POP3Connection>(
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
@@ -177,11 +180,7 @@ shared_ptr <POP3Connection> POP3Store::getConnection() {
 }
 
 
-void POP3Store::disconnect() {
-
-	if (!isConnected()) {
-		throw exceptions::not_connected();
-	}
+void POP3Store::detachFolders() {
 
 	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
 	     it != m_folders.end() ; ++it) {
@@ -190,7 +189,18 @@ void POP3Store::disconnect() {
 	}
 
 	m_folders.clear();
+}
+
 
+void POP3Store::disconnect() {
+
+	const bool wasConnected = isConnected();
+
+	detachFolders();
+
+	if (!wasConnected) {
+		throw exceptions::not_connected();
+	}
 
 	m_connection->disconnect();
 	m_connection = null;
@@ -199,7 +209,7 @@ void POP3Store::disconnect() {
 
 void POP3Store::noop() {
 
-	if (!m_connection) {
+	if (!isConnected()) {
 		throw exceptions::not_connected();
 	}
 
diff --git a/src/vmime/net/pop3/POP3Store.hpp b/src/vmime/net/pop3/POP3Store.hpp
index 140a1ab..7d34b49 100644
--- a/src/vmime/net/pop3/POP3Store.hpp
+++ b/src/vmime/net/pop3/POP3Store.hpp
@@ -99,6 +99,8 @@ private:
 	void registerFolder(POP3Folder* folder);
 	void unregisterFolder(POP3Folder* folder);
 
+	void detachFolders();
+
 	std::list <POP3Folder*> m_folders;
 
 
-- 
2.43.0


From 3543bcd0843413a9d714af215c5fc39e1b9f76ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:37:58 +0000
Subject: [PATCH 191/236] fix: the time-out was not reset when the handler
 chose to continue (IMAP responses, POP3 messages)

---
 src/vmime/net/imap/IMAPParser.hpp   | 4 +++-
 src/vmime/net/pop3/POP3Response.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 87a7519..1bcebf3 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -5061,9 +5061,11 @@ public:
 				if (!toh->handleTimeOut()) {
 					throw exceptions::operation_timed_out();
 				}
+
+				toh->resetTimeOut();
 			}
 
-			// We have received data: reset the time-out counter
+			// Receive data from the socket
 			sok->receive(receiveBuffer);
 
 			if (receiveBuffer.empty()) {   // buffer is empty
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index dc1109b..308f09e 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -355,6 +355,8 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
-- 
2.43.0


From 831bc7f103a0e5f351de03301049962dfb159593 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 192/236] fix: after a time-out, the late reply of the SMTP or
 POP3 server was taken for the reply to the next command

---
 src/vmime/net/pop3/POP3Response.cpp | 10 ++++++++++
 src/vmime/net/smtp/SMTPResponse.cpp |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 308f09e..e3cbf48 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -252,6 +252,11 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
 
 			if (!m_timeoutHandler->handleTimeOut()) {
+
+				// The reply may still arrive later: it must not be taken
+				// for the reply to the next command
+				m_socket->disconnect();
+
 				throw exceptions::operation_timed_out();
 			}
 
@@ -353,6 +358,11 @@ size_t POP3Response::readResponseImpl(
 		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
 
 			if (!m_timeoutHandler->handleTimeOut()) {
+
+				// The reply may still arrive later: it must not be taken
+				// for the reply to the next command
+				m_socket->disconnect();
+
 				throw exceptions::operation_timed_out();
 			}
 
diff --git a/src/vmime/net/smtp/SMTPResponse.cpp b/src/vmime/net/smtp/SMTPResponse.cpp
index 1208e0e..29bd93f 100644
--- a/src/vmime/net/smtp/SMTPResponse.cpp
+++ b/src/vmime/net/smtp/SMTPResponse.cpp
@@ -169,6 +169,11 @@ const string SMTPResponse::readResponseLine() {
 		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
 
 			if (!m_timeoutHandler->handleTimeOut()) {
+
+				// The reply may still arrive later: it must not be taken
+				// for the reply to the next command
+				m_socket->disconnect();
+
 				throw exceptions::operation_timed_out();
 			}
 
-- 
2.43.0


From 35a622567fa235a355b2c36b9992bcad23fe9e90 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 193/236] fix: when the stream of the application failed in the
 middle of a message, next commands and replies were mixed with the rest of it

---
 src/vmime/net/imap/IMAPConnection.cpp |  8 ++++++++
 src/vmime/net/imap/IMAPConnection.hpp |  6 ++++++
 src/vmime/net/imap/IMAPFolder.cpp     | 28 ++++++++++++++++++---------
 src/vmime/net/imap/IMAPParser.hpp     | 21 ++++++++++++++++++++
 src/vmime/net/pop3/POP3Response.cpp   | 24 +++++++++++++++++++++--
 src/vmime/net/pop3/POP3Response.hpp   |  6 ++++++
 src/vmime/net/smtp/SMTPTransport.cpp  | 14 ++++++++++++--
 7 files changed, 94 insertions(+), 13 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 49770e7..208b0ab 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -894,6 +894,14 @@ shared_ptr <tracer> IMAPConnection::getTracer() {
 }
 
 
+void IMAPConnection::closeSocket() {
+
+	if (m_socket) {
+		m_socket->disconnect();
+	}
+}
+
+
 shared_ptr <IMAPTag> IMAPConnection::getTag() {
 
 	return m_tag;
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..6e9b3de 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -105,6 +105,12 @@ public:
 	shared_ptr <const socket> getSocket() const;
 	void setSocket(const shared_ptr <socket>& sok);
 
+	/** Close the connection at once, when the state of the dialogue with
+	  * the server is not known any more.
+	  */
+	void closeSocket();
+
+
 	shared_ptr <tracer> getTracer();
 
 	shared_ptr <IMAPTag> getTag();
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 8ac37c1..8f5c096 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1247,19 +1247,29 @@ messageSet IMAPFolder::addMessage(
 	std::vector <byte_t> vbuffer(blockSize);
 	byte_t* buffer = &vbuffer.front();
 
-	while (!is.eof()) {
+	try {
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+		while (!is.eof()) {
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, blockSize);
+			current += read;
 
-		// Notify progress
-		if (progress) {
-			progress->progress(current, total);
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
 		}
+
+	} catch (...) {
+
+		// The server is waiting for the rest of the message: next commands
+		// would be taken for it
+		m_connection->closeSocket();
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 1bcebf3..913126a 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -5091,6 +5091,27 @@ public:
 
 	void readLiteral(literalHandler::target& buffer, size_t count) {
 
+		try {
+
+			readLiteralImpl(buffer, count);
+
+		} catch (...) {
+
+			// The end of the literal was not read: it must not be taken
+			// for other data or for the reply to the next command
+			shared_ptr <socket> sok = m_socket.lock();
+
+			if (sok) {
+				sok->disconnect();
+			}
+
+			throw;
+		}
+	}
+
+
+	void readLiteralImpl(literalHandler::target& buffer, size_t count) {
+
 		size_t len = 0;
 		string receiveBuffer;
 
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index e3cbf48..48177e9 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -416,7 +416,7 @@ size_t POP3Response::readResponseImpl(
 
 				codeDone = true;
 
-				os.write(responseData.data(), responseData.length());
+				writeLargeResponseData(os, reinterpret_cast <const byte_t*>(responseData.data()), responseData.length());
 				temp.clear();
 
 				continue;
@@ -425,7 +425,7 @@ size_t POP3Response::readResponseImpl(
 		} else {
 
 			// Inject the data into the output stream
-			os.write(buffer, read);
+			writeLargeResponseData(os, buffer, read);
 		}
 	}
 
@@ -437,6 +437,26 @@ size_t POP3Response::readResponseImpl(
 }
 
 
+void POP3Response::writeLargeResponseData(
+	utility::outputStream& os,
+	const byte_t* data,
+	const size_t length
+) {
+
+	try {
+
+		os.write(data, length);
+
+	} catch (...) {
+
+		// The end of the response was not read: it must not be taken
+		// for the reply to the next command
+		m_socket->disconnect();
+		throw;
+	}
+}
+
+
 // static
 bool POP3Response::stripFirstLine(
 	const string& buffer,
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index 69f8d5d..51f6e5d 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -162,6 +162,12 @@ private:
 	);
 
 
+	void writeLargeResponseData(
+		utility::outputStream& os,
+		const byte_t* data,
+		const size_t length
+	);
+
 	static bool stripFirstLine(const string& buffer, string& result, string* firstLine);
 
 	static ResponseCode getResponseCode(const string& buffer);
diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e96799c..4ead436 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -452,9 +452,19 @@ void SMTPTransport::send(
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
 	utility::dotFilteredOutputStream fos(sos, /* startsLine */ true);
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+	try {
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
+
+		fos.flush();
 
-	fos.flush();
+	} catch (...) {
+
+		// The server is waiting for the rest of a message that should not be
+		// delivered: closing the connection is the only way out
+		m_connection->getSocket()->disconnect();
+		throw;
+	}
 
 	// Send end-of-data delimiter
 	m_connection->getSocket()->send("\r\n.\r\n");
-- 
2.43.0


From 32010d877451d9537c01e99ccf721a5dbaf54cd7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 194/236] fix: null socket used when a command was sent on an
 IMAP connection that was closed; socket kept open when LOGOUT could not be
 sent

---
 src/vmime/net/imap/IMAPConnection.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 208b0ab..bc830d1 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -740,7 +740,11 @@ void IMAPConnection::internalDisconnect() {
 
 	if (isConnected()) {
 
-		IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+		try {
+			IMAPCommand::LOGOUT()->send(dynamicCast <IMAPConnection>(shared_from_this()));
+		} catch (exceptions::socket_exception&) {
+			// Connection lost: not important
+		}
 	}
 
 	if (m_socket) {
@@ -800,6 +804,10 @@ void IMAPConnection::initHierarchySeparator() {
 
 void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
 	if (!m_firstTag) {
 		++(*m_tag);
 	}
@@ -823,6 +831,10 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
+	if (!m_socket) {
+		throw exceptions::not_connected();
+	}
+
 	m_socket->sendRaw(buffer, count);
 }
 
-- 
2.43.0


From 4ab159fc254e7dbfa32169f21d8ac1e7b73e38c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:51:15 +0000
Subject: [PATCH 195/236] fix: after a time-out, late data of the IMAP server
 was taken for the reply to the next command

---
 src/vmime/net/imap/IMAPParser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 913126a..23c7bfa 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -5058,7 +5058,13 @@ public:
 
 			// Check whether the time-out delay is elapsed
 			if (toh && toh->isTimeOut()) {
+
 				if (!toh->handleTimeOut()) {
+
+					// Data may still arrive later: it must not be taken
+					// for the reply to the next command
+					sok->disconnect();
+
 					throw exceptions::operation_timed_out();
 				}
 
-- 
2.43.0


From 29718d6d4d1552d06a79b91b1e0b367cb6882ddd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 196/236] fix: the only mechanisms offered by a server could
 not be used when the SASL library had no suggestion (eg. XOAUTH2)

---
 src/vmime/net/imap/IMAPConnection.cpp | 5 -----
 src/vmime/net/pop3/POP3Connection.cpp | 5 -----
 src/vmime/net/smtp/SMTPConnection.cpp | 5 -----
 3 files changed, 15 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index bc830d1..e03dd3e 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -372,11 +372,6 @@ void IMAPConnection::authenticateSASL() {
 	// Try to suggest a mechanism among all those supported
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
-
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 749f7ef..46bf372 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -441,11 +441,6 @@ void POP3Connection::authenticateSASL() {
 	// Try to suggest a mechanism among all those supported
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
-
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index fc5116b..96917c1 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -411,11 +411,6 @@ void SMTPConnection::authenticateSASL() {
 	// Try to suggest a mechanism among all those supported
 	shared_ptr <security::sasl::SASLMechanism> suggestedMech =
 		saslContext->suggestMechanism(mechList);
-
-	if (!suggestedMech) {
-		throw exceptions::authentication_error("Unable to suggest SASL mechanism.");
-	}
-
 	// Allow application to choose which mechanisms to use
 	mechList = dynamicCast <security::sasl::SASLAuthenticator>(getAuthenticator())->
 		getAcceptableMechanisms(mechList, suggestedMech);
-- 
2.43.0


From 27989dcc0874cd78ce3d334843b7b078dabd5561 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 197/236] fix: passwords (IMAP LOGIN) and initial responses of
 SASL mechanisms were written in traces

---
 src/vmime/net/imap/IMAPCommand.cpp    | 6 +++++-
 src/vmime/net/imap/IMAPConnection.cpp | 3 +--
 src/vmime/net/pop3/POP3Command.cpp    | 6 +++++-
 src/vmime/net/smtp/SMTPCommand.cpp    | 6 +++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..b77f120 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -81,7 +81,11 @@ shared_ptr <IMAPCommand> IMAPCommand::AUTHENTICATE(const string& mechName, const
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTHENTICATE " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTHENTICATE " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index e03dd3e..d9ba761 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -817,8 +817,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 	if (m_tracer) {
 
 		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
-
+		oss << string(*m_tag) << " " << cmd->getTraceText();
 		m_tracer->traceSend(oss.str());
 	}
 }
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..9fb1283 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -81,7 +81,11 @@ shared_ptr <POP3Command> POP3Command::AUTH(const string& mechName, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index b43f82c..0332055 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -88,7 +88,11 @@ shared_ptr <SMTPCommand> SMTPCommand::AUTH(const string& mechName, const std::st
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
-- 
2.43.0


From fb42a32a6d4f1f360af5b6e7edcf4a07cf72cc0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:54 +0000
Subject: [PATCH 198/236] fix: the default platform handler was set by several
 threads at once, without synchronization

---
 src/vmime/platform.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/platform.cpp b/src/vmime/platform.cpp
index f2f1e97..756f366 100644
--- a/src/vmime/platform.cpp
+++ b/src/vmime/platform.cpp
@@ -61,12 +61,12 @@ shared_ptr <platform::handler> platform::getHandler() {
 		return sm_handler;
 	}
 
-	// Else, use the default handler for this platform
-	shared_ptr <handler> defaultHandler = getDefaultHandler();
+	// Else, use the default handler for this platform (the initialization
+	// of a static local variable is thread-safe)
+	static const shared_ptr <handler> defaultHandler = getDefaultHandler();
 
 	if (defaultHandler) {
-		sm_handler = defaultHandler;
-		return sm_handler;
+		return defaultHandler;
 	}
 
 	// Oops... no platform handler!
-- 
2.43.0


From 11098ccf052be0d4be3ff18790a5ef239c73e1dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:54 +0000
Subject: [PATCH 199/236] fix: random numbers repeated after short cycles
 (overflow), could be zero for ever, and were the same in several threads

---
 src/vmime/utility/random.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vmime/utility/random.cpp b/src/vmime/utility/random.cpp
index 055122b..d8e53b7 100644
--- a/src/vmime/utility/random.cpp
+++ b/src/vmime/utility/random.cpp
@@ -24,6 +24,7 @@
 #include "vmime/utility/random.hpp"
 #include "vmime/platform.hpp"
 
+#include <atomic>
 #include <ctime>
 
 
@@ -39,19 +40,27 @@ static unsigned int getRandomSeed() {
 		reinterpret_cast <unsigned char*>(&seed), sizeof(seed)
 	);
 
-	return seed;
+	// The state of the generator shall be in the range [1, 2^31 - 2]
+	return seed % 2147483646u + 1;
 }
 
 
 unsigned int random::getNext() {
 
-	static unsigned int next = getRandomSeed();
+	static std::atomic <unsigned int> next(getRandomSeed());
 
 	// Park and Miller's minimal standard generator:
 	// xn+1 = (a * xn + b) mod c
 	// xn+1 = (16807 * xn) mod (2^31 - 1)
-	next = static_cast<unsigned int>((16807 * next) % 2147483647ul);
-	return next;
+	unsigned int current = next.load(), value;
+
+	do {
+
+		value = static_cast <unsigned int>((16807ull * current) % 2147483647ull);
+
+	} while (!next.compare_exchange_weak(current, value));
+
+	return value;
 }
 
 
-- 
2.43.0


From 945773d8f388655be769174911b0f7ad34bf7a19 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:54 +0000
Subject: [PATCH 200/236] fix: data race on the connection number when services
 connect in several threads

---
 src/vmime/net/imap/IMAPConnection.cpp | 4 +++-
 src/vmime/net/pop3/POP3Connection.cpp | 4 +++-
 src/vmime/net/smtp/SMTPConnection.cpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index d9ba761..0576840 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -40,6 +40,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <atomic>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #endif // VMIME_HAVE_SASL_SUPPORT
@@ -82,7 +84,7 @@ IMAPConnection::IMAPConnection(
 	  m_capabilitiesFetched(false),
 	  m_noModSeq(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	m_tag = make_shared <IMAPTag>();
 
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 46bf372..5eabbe8 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -37,6 +37,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <atomic>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #endif // VMIME_HAVE_SASL_SUPPORT
@@ -75,7 +77,7 @@ POP3Connection::POP3Connection(
 	  m_secured(false),
 	  m_capabilitiesFetched(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (store->getTracerFactory()) {
 		m_tracer = store->getTracerFactory()->create(store, ++connectionId);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 96917c1..0b97344 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -38,6 +38,8 @@
 
 #include "vmime/net/defaultConnectionInfos.hpp"
 
+#include <atomic>
+
 #if VMIME_HAVE_SASL_SUPPORT
 	#include "vmime/security/sasl/SASLContext.hpp"
 #else
@@ -79,7 +81,7 @@ SMTPConnection::SMTPConnection(
 	  m_secured(false),
 	  m_extendedSMTP(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (transport->getTracerFactory()) {
 		m_tracer = transport->getTracerFactory()->create(transport, ++connectionId);
-- 
2.43.0


From 997ec14d5296ea4f4df10f1fb74af10c9d8892ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 201/236] fix: data received in clear before the TLS handshake
 was taken for replies after it

---
 src/vmime/net/imap/IMAPParser.hpp     | 4 ++++
 src/vmime/net/smtp/SMTPConnection.cpp | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 23c7bfa..daa1b8d 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -290,6 +290,10 @@ public:
 	void setSocket(const shared_ptr <socket>& sok) {
 
 		m_socket = sok;
+
+		// Data received from the previous socket must not be taken for
+		// data of the new one (eg. received in clear, before STARTTLS)
+		m_buffer.clear();
 	}
 
 	/** Set the timeout handler currently used by this parser.
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 0b97344..4196975 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -571,11 +571,13 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard what was received before the TLS negotiation
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
 		);
-
 	} catch (exceptions::command_error&) {
 
 		// Non-fatal error
-- 
2.43.0


From 8734d89f491e24eb586ed0436af32a5038374d4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 202/236] fix: signatures inside the certificate chain of a
 server were not verified

---
 src/vmime/security/cert/defaultCertificateVerifier.cpp      | 5 +++--
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..c99e956 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -85,10 +85,11 @@ void defaultCertificateVerifier::verifyX509chain
 			shared_ptr <X509Certificate> cert = dynamicCast <X509Certificate>(chain->getAt(i));
 			shared_ptr <X509Certificate> next = dynamicCast <X509Certificate>(chain->getAt(i + 1));
 
-			if (!cert->checkIssuer(next)) {
+			// Comparing names is not sufficient: the certificate must
+			// have been signed by its issuer, which must be a CA
+			if (!cert->checkIssuer(next) || !cert->verify(next)) {
 				certificateIssuerVerificationException ex;
 				ex.setCertificate(cert);
-
 				throw ex;
 			}
 		}
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bd5a75d..c73d9d5 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -382,6 +382,8 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 			if (X509_STORE_add_cert(store, caCert->m_data->cert)) {
 
 				X509_STORE_CTX_init(verifyCtx, store, m_data->cert, NULL);
+				// The given certificate is trusted, even if it is not self-signed
+				X509_STORE_CTX_set_flags(verifyCtx, X509_V_FLAG_PARTIAL_CHAIN);
 
 				int ret = X509_verify_cert(verifyCtx);
 
-- 
2.43.0


From 4464ca8a1012ee69210442004af34f14ae4d2b1e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 203/236] fix: certificate chains followed by extraneous
 certificates were refused

---
 .../cert/defaultCertificateVerifier.cpp       | 105 +++---------------
 1 file changed, 18 insertions(+), 87 deletions(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c99e956..e4eba11 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -144,88 +144,9 @@ void defaultCertificateVerifier::verifyX509(
 	const string& hostname
 ) {
 
-	// For every certificate in the chain, verify that the certificate
-	// has been issued by the next certificate in the chain
-	if (chain->getCount() >= 2) {
-
-		for (size_t i = 0 ; i < chain->getCount() - 1 ; ++i) {
-
-			shared_ptr <X509Certificate> cert =
-				dynamicCast <X509Certificate>(chain->getAt(i));
-
-			shared_ptr <X509Certificate> next =
-				dynamicCast <X509Certificate>(chain->getAt(i + 1));
-
-			if (!cert->checkIssuer(next)) {
-
-				certificateIssuerVerificationException ex;
-				ex.setCertificate(cert);
-
-				throw ex;
-			}
-		}
-	}
-
-	// For every certificate in the chain, verify that the certificate
-	// is valid at the current time
-	for (size_t i = 0 ; i < chain->getCount() ; ++i) {
-
-		shared_ptr <X509Certificate> cert =
-			dynamicCast <X509Certificate>(chain->getAt(i));
-
-		cert->checkValidity();
-	}
-
-	// Check whether the certificate can be trusted
-
-	// -- First, verify that the the last certificate in the chain was
-	// -- issued by a third-party that we trust
-	shared_ptr <X509Certificate> lastCert =
-		dynamicCast <X509Certificate>(chain->getAt(chain->getCount() - 1));
-
-	bool trusted = false;
-
-	for (size_t i = 0 ; !trusted && i < m_x509RootCAs.size() ; ++i) {
-
-		shared_ptr <X509Certificate> rootCa = m_x509RootCAs[i];
-
-		if (lastCert->verify(rootCa)) {
-			trusted = true;
-		}
-	}
-
-	// -- Next, if the issuer certificate cannot be verified against
-	// -- root CAs, compare the subject's certificate against the
-	// -- trusted certificates
 	shared_ptr <X509Certificate> firstCert =
 		dynamicCast <X509Certificate>(chain->getAt(0));
 
-	for (size_t i = 0 ; !trusted && i < m_x509TrustedCerts.size() ; ++i) {
-
-		shared_ptr <X509Certificate> cert = m_x509TrustedCerts[i];
-
-		if (firstCert->equals(cert)) {
-			trusted = true;
-		}
-	}
-
-	if (!trusted) {
-
-		certificateNotTrustedException ex;
-		ex.setCertificate(firstCert);
-
-		throw ex;
-	}
-
-	// Ensure the first certificate's subject name matches server hostname
-	if (!firstCert->verifyHostName(hostname)) {
-
-		serverIdentityException ex;
-		ex.setCertificate(firstCert);
-
-		throw ex;
-	}
-
 	// Perform verification on all possible subchains in order to work
 	// around a server that sends extranous certificates in the chain
 	// after the valid one.
@@ -245,24 +166,34 @@ void defaultCertificateVerifier::verifyX509(
 	//
 	// This code does NOT yet handle arbitrary ordering.
 	//
+	std::exception_ptr error;
+
 	for (size_t chainLen = chain->getCount(); chainLen > 0; chainLen--) {
 
 		try {
 			verifyX509chain(chain, chainLen);
-			return;
-		}
-		catch(...) {
+			break;
+		} catch (...) {
+
+			// Report what is wrong with the whole chain
+			if (!error) {
+				error = std::current_exception();
+			}
+
 			if (chainLen == 1) {
-				throw;
+				std::rethrow_exception(error);
 			}
 		}
 	}
 
-	// We really should never get here from the above loop
-	certificateNotTrustedException ex;
-	ex.setCertificate(firstCert);
+	// Ensure the first certificate's subject name matches server hostname
+	if (!firstCert->verifyHostName(hostname)) {
 
-	throw ex;
+		serverIdentityException ex;
+		ex.setCertificate(firstCert);
+
+		throw ex;
+	}
 }
 
 
-- 
2.43.0


From 2099a26102971762732f46e7eb56f6a20b8ef054 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 204/236] fix: undefined behaviour when importing certificates
 from an empty stream

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp   | 4 ++--
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..8d1b105 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -106,7 +106,7 @@ shared_ptr <X509Certificate> X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -152,7 +152,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index c73d9d5..3a16eb1 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -196,7 +196,7 @@ shared_ptr <X509Certificate> X509Certificate::import(utility::inputStream& is) {
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -235,7 +235,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
-- 
2.43.0


From 97ba4aa8ec64dcf6c1dfd776c36ae2b59bf7216e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 205/236] fix: endless wait for a reply when the server closed
 the TLS session (GnuTLS)

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..9812d8d 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -221,6 +221,11 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 		TLSSession_GnuTLS::throwTLSException("gnutls_record_recv", static_cast <int>(ret));
 	}
 
+	// The peer closed the TLS session: no data will ever be received
+	if (ret == 0 && count != 0) {
+		throw exceptions::socket_not_connected_exception();
+	}
+
 	return static_cast <size_t>(ret);
 }
 
-- 
2.43.0


From e1f2b263bfd7abdd0fda26cea0b78a11e812ee24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 206/236] fix: IP address sent as server name in TLS handshake,
 refused by servers (GnuTLS)

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 9812d8d..0d9ced8 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -324,7 +324,13 @@ void TLSSocket_GnuTLS::handshake() {
 	try {
 		string peerName = getPeerName();
 		
-		gnutls_server_name_set(*m_session->m_gnutlsSession, GNUTLS_NAME_DNS, peerName.c_str(), peerName.size());
+
+		// Literal IPv4 and IPv6 addresses are not permitted here (RFC-6066)
+		if (peerName.find(':') == string::npos &&
+		    peerName.find_first_not_of("0123456789.") != string::npos) {
+
+			gnutls_server_name_set(*m_session->m_gnutlsSession, GNUTLS_NAME_DNS, peerName.c_str(), peerName.size());
+		}
 
 		while (true) {
 
-- 
2.43.0


From ed98f2e62dc675c982c3ee26a433eba54fb50e9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 207/236] fix: charset conversion with iconv lost or repeated
 data, wrong counts, missing errors, and replacement text not converted

---
 src/vmime/charsetConverter_iconv.cpp | 416 ++++++++++++---------------
 1 file changed, 179 insertions(+), 237 deletions(-)

diff --git a/src/vmime/charsetConverter_iconv.cpp b/src/vmime/charsetConverter_iconv.cpp
index 5c4cc17..9f6c66d 100644
--- a/src/vmime/charsetConverter_iconv.cpp
+++ b/src/vmime/charsetConverter_iconv.cpp
@@ -32,6 +32,9 @@
 #include "vmime/exception.hpp"
 #include "vmime/utility/inputStreamStringAdapter.hpp"
 #include "vmime/utility/outputStreamStringAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
+
+#include <vector>
 
 
 extern "C" {
@@ -83,29 +86,151 @@ extern "C" {
 
 
 
-// Output replacement char when an invalid sequence is encountered
-template <typename OUTPUT_CLASS, typename ICONV_DESC>
-void outputInvalidChar(
-	OUTPUT_CLASS& out,
-	ICONV_DESC cd,
-	const vmime::charsetConverterOptions& opts = vmime::charsetConverterOptions()
+// Output replacement string when an invalid sequence is encountered
+static void outputInvalidChar(
+	vmime::utility::outputStream& out,
+	const vmime::charset& dest,
+	const vmime::charsetConverterOptions& opts,
+	vmime::charsetConverter::status* st
 ) {
 
-	const char* invalidCharIn = opts.invalidSequence.c_str();
-	vmime::size_t invalidCharInLen = opts.invalidSequence.length();
+	// The string is not in the source charset: a distinct descriptor is needed
+	const iconv_t cd = iconv_open(dest.getName().c_str(), vmime::charsets::UTF_8);
+
+	if (cd == reinterpret_cast <iconv_t>(-1)) {
+		return;
+	}
+
+	const char* inPtr = opts.invalidSequence.data();
+	vmime::size_t inLength = opts.invalidSequence.length();
+
+	std::vector <vmime::byte_t> outBuffer(inLength * 8 + 32);
+	vmime::byte_t* outPtr = &outBuffer[0];
+	vmime::size_t outLength = outBuffer.size();
+
+	if (iconv(cd, ICONV_IN_TYPE(&inPtr), &inLength,
+	          ICONV_OUT_TYPE(&outPtr), &outLength) != static_cast <size_t>(-1)) {
+
+		iconv(cd, NULL, NULL, ICONV_OUT_TYPE(&outPtr), &outLength);
+
+		out.write(&outBuffer[0], outPtr - &outBuffer[0]);
+
+		if (st) {
+			st->outputBytesWritten += (outPtr - &outBuffer[0]);
+		}
+	}
+
+	iconv_close(cd);
+}
+
+
+// Return the length of code units in the specified charset: this is the
+// number of bytes to skip when an invalid sequence is encountered
+static vmime::size_t getCodeUnitLength(const vmime::charset& source) {
 
-	vmime::byte_t invalidCharOutBuffer[16];
-	vmime::byte_t* invalidCharOutPtr = invalidCharOutBuffer;
-	vmime::size_t invalidCharOutLen = 16;
+	const vmime::string name = vmime::utility::stringUtils::toUpper(source.getName());
 
-	if (iconv(cd, ICONV_IN_TYPE(&invalidCharIn), &invalidCharInLen,
-		ICONV_OUT_TYPE(&invalidCharOutPtr), &invalidCharOutLen) != static_cast <size_t>(-1)) {
+	if (name.compare(0, 6, "UTF-16") == 0 || name.compare(0, 5, "UTF16") == 0 ||
+	    name.compare(0, 5, "UCS-2") == 0 || name.compare(0, 4, "UCS2") == 0) {
 
-		out.write(invalidCharOutBuffer, 16 - invalidCharOutLen);
+		return 2;
+
+	} else if (name.compare(0, 6, "UTF-32") == 0 || name.compare(0, 5, "UTF32") == 0 ||
+	           name.compare(0, 5, "UCS-4") == 0 || name.compare(0, 4, "UCS4") == 0) {
+
+		return 4;
 	}
+
+	return 1;
 }
 
 
+// Convert as much data as possible. Return the number of bytes converted:
+// when 'flush' is not set, an incomplete sequence may be left at the end.
+static vmime::size_t convertBuffer(
+	const iconv_t cd,
+	const vmime::charset& source,
+	const vmime::charset& dest,
+	const vmime::charsetConverterOptions& opts,
+	const vmime::byte_t* in,
+	const vmime::size_t count,
+	const bool flush,
+	vmime::utility::outputStream& out,
+	vmime::charsetConverter::status* st
+) {
+
+	vmime::byte_t outBuffer[32768];
+
+	const vmime::byte_t* inPtr = in;
+	vmime::size_t inLength = count;
+
+	while (inLength != 0) {
+
+		vmime::byte_t* outPtr = outBuffer;
+		vmime::size_t outLength = sizeof(outBuffer);
+
+		const vmime::byte_t* const inPtr0 = inPtr;
+
+		const bool failed = iconv(
+			cd, ICONV_IN_TYPE(&inPtr), &inLength,
+			ICONV_OUT_TYPE(&outPtr), &outLength
+		) == static_cast <size_t>(-1);
+
+		const int error = errno;
+
+		// Write successfully converted bytes
+		out.write(outBuffer, outPtr - outBuffer);
+
+		if (st) {
+			st->inputBytesRead += (inPtr - inPtr0);
+			st->outputBytesWritten += (outPtr - outBuffer);
+		}
+
+		if (!failed || error == E2BIG) {
+			continue;
+		}
+
+		// Incomplete sequence: wait for more data
+		if (error == EINVAL && !flush) {
+			break;
+		}
+
+		// Illegal input sequence, or input sequence has no equivalent
+		// sequence in the destination charset
+		if (!opts.silentlyReplaceInvalidSequences) {
+			throw vmime::exceptions::illegal_byte_sequence_for_charset();
+		}
+
+		outputInvalidChar(out, dest, opts, st);
+
+		const vmime::size_t skip = std::min(inLength, getCodeUnitLength(source));
+
+		inPtr += skip;
+		inLength -= skip;
+
+		if (st) {
+			st->inputBytesRead += skip;
+		}
+	}
+
+	// Flush stateful data
+	if (flush) {
+
+		vmime::byte_t* outPtr = outBuffer;
+		vmime::size_t outLength = sizeof(outBuffer);
+
+		iconv(cd, NULL, NULL, ICONV_OUT_TYPE(&outPtr), &outLength);
+
+		out.write(outBuffer, outPtr - outBuffer);
+
+		if (st) {
+			st->outputBytesWritten += (outPtr - outBuffer);
+		}
+	}
+
+	return inPtr - in;
+}
+
 
 namespace vmime {
 
@@ -173,87 +298,27 @@ void charsetConverter_iconv::convert(
 
 	const iconv_t cd = *static_cast <iconv_t*>(m_desc);
 
+	// Reset state (a previous conversion may have failed)
+	iconv(cd, NULL, NULL, NULL, NULL);
+
 	byte_t inBuffer[32768];
-	byte_t outBuffer[32768];
 	size_t inPos = 0;
 
-	bool prevIsInvalid = false;
-	bool breakAfterNext = false;
-
-	while (true) {
+	for (bool eof = false ; !eof ; ) {
 
 		// Fullfill the buffer
-		size_t inLength = static_cast <size_t>(in.read(inBuffer + inPos, sizeof(inBuffer) - inPos) + inPos);
-		size_t outLength = sizeof(outBuffer);
+		const size_t inLength = static_cast <size_t>(in.read(inBuffer + inPos, sizeof(inBuffer) - inPos) + inPos);
 
-		const byte_t* inPtr = breakAfterNext ? NULL : inBuffer;
-		size_t *ptrLength = breakAfterNext ? NULL : &inLength;
-		byte_t* outPtr = outBuffer;
+		eof = in.eof();
 
 		// Convert input bytes
-		if (iconv(cd, ICONV_IN_TYPE(&inPtr), ptrLength,
-			      ICONV_OUT_TYPE(&outPtr), &outLength) == static_cast <size_t>(-1)) {
-
-			if (st && inPtr) {
-				st->inputBytesRead += (inPtr - inBuffer);
-				st->outputBytesWritten += (outPtr - outBuffer);
-			}
-
-			// Illegal input sequence or input sequence has no equivalent
-			// sequence in the destination charset.
-			if (prevIsInvalid) {
-
-				// Write successfully converted bytes
-				out.write(outBuffer, sizeof(outBuffer) - outLength);
-
-				if (!m_options.silentlyReplaceInvalidSequences) {
-					throw exceptions::illegal_byte_sequence_for_charset();
-				}
-
-				// Output a special character to indicate we don't known how to
-				// convert the sequence at this position
-				outputInvalidChar(out, cd, m_options);
-
-				// Skip a byte and leave unconverted bytes in the input buffer
-				std::copy(const_cast <byte_t*>(inPtr + 1), inBuffer + sizeof(inBuffer), inBuffer);
-				inPos = inLength - 1;
+		const size_t converted = convertBuffer(
+			cd, m_source, m_dest, m_options, inBuffer, inLength, /* flush */ eof, out, st
+		);
 
-			} else {
-
-				// Write successfully converted bytes
-				out.write(outBuffer, sizeof(outBuffer) - outLength);
-
-				// Leave unconverted bytes in the input buffer
-				std::copy(const_cast <byte_t*>(inPtr), inBuffer + sizeof(inBuffer), inBuffer);
-				inPos = inLength;
-
-				if (errno != E2BIG) {
-					prevIsInvalid = true;
-				}
-			}
-
-		} else {
-
-			// Write successfully converted bytes
-			out.write(outBuffer, sizeof(outBuffer) - outLength);
-
-			if (st && inPtr) {
-				st->inputBytesRead += (inPtr - inBuffer);
-				st->outputBytesWritten += (outPtr - outBuffer);
-			}
-
-			inPos = 0;
-			prevIsInvalid = false;
-		}
-
-		if (breakAfterNext) {
-			break;
-		}
-
-		// Check for end of data, loop again to flush stateful data from iconv
-		if (in.eof() && inPos == 0) {
-			breakAfterNext = true;
-		}
+		// Leave unconverted bytes in the input buffer
+		std::copy(inBuffer + converted, inBuffer + inLength, inBuffer);
+		inPos = inLength - converted;
 	}
 }
 
@@ -264,6 +329,10 @@ void charsetConverter_iconv::convert(const string& in, string& out, status* st)
 		new (st) status();
 	}
 
+	if (!m_desc) {
+		throw exceptions::charset_conv_error("Cannot initialize converter.");
+	}
+
 	out.clear();
 
 	utility::inputStreamStringAdapter is(in);
@@ -349,121 +418,34 @@ void charsetFilteredOutputStream_iconv::writeImpl(
 	const byte_t* curData = data;
 	size_t curDataLen = count;
 
-	// If there is some unconverted bytes left, add more data from this
-	// chunk to see if it can now be converted.
-	while (m_unconvCount != 0 || curDataLen != 0) {
-
-		if (m_unconvCount != 0) {
-
-			// Check if an incomplete input sequence is larger than the
-			// input buffer size: should not happen except if something
-			// in the input sequence is invalid. If so, output a special
-			// character and skip one byte in the invalid sequence.
-			if (m_unconvCount >= sizeof(m_unconvBuffer)) {
-
-				if (!m_options.silentlyReplaceInvalidSequences) {
-					throw exceptions::illegal_byte_sequence_for_charset();
-				}
-
-				outputInvalidChar(m_stream, cd);
-
-				std::copy(
-					m_unconvBuffer + 1,
-					m_unconvBuffer + m_unconvCount, m_unconvBuffer
-				);
-
-				m_unconvCount--;
-			}
-
-			// Get more data
-			const size_t remaining =
-				std::min(curDataLen, sizeof(m_unconvBuffer) - m_unconvCount);
-
-			std::copy(curData, curData + remaining, m_unconvBuffer + m_unconvCount);
-
-			m_unconvCount += remaining;
-			curDataLen -= remaining;
-			curData += remaining;
-
-			if (remaining == 0)
-				return;  // no more data
-
-			// Try a conversion
-			const byte_t* inPtr = m_unconvBuffer;
-			size_t inLength = m_unconvCount;
-			byte_t* outPtr = m_outputBuffer;
-			size_t outLength = sizeof(m_outputBuffer);
-
-			const size_t inLength0 = inLength;
-
-			if (iconv(cd, ICONV_IN_TYPE(&inPtr), &inLength,
-			          ICONV_OUT_TYPE(&outPtr), &outLength) == static_cast <size_t>(-1)) {
+	byte_t buffer[4096];
 
-				const size_t inputConverted = inLength0 - inLength;
+	while (curDataLen != 0) {
 
-				// Write successfully converted bytes
-				m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
+		// Add data from this chunk to the unconverted bytes left, if any
+		const size_t len = std::min(curDataLen, sizeof(buffer) - m_unconvCount);
 
-				// Shift unconverted bytes
-				std::copy(
-					m_unconvBuffer + inputConverted,
-					m_unconvBuffer + m_unconvCount, m_unconvBuffer
-				);
+		std::copy(m_unconvBuffer, m_unconvBuffer + m_unconvCount, buffer);
+		std::copy(curData, curData + len, buffer + m_unconvCount);
 
-				m_unconvCount -= inputConverted;
+		const size_t total = m_unconvCount + len;
 
-				continue;
-			}
+		curData += len;
+		curDataLen -= len;
+		m_unconvCount = 0;
 
-			// Write successfully converted bytes
-			m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
+		size_t converted = convertBuffer(
+			cd, m_sourceCharset, m_destCharset, m_options, buffer, total, /* flush */ false, m_stream, NULL
+		);
 
-			// Empty the unconverted buffer
-			m_unconvCount = 0;
+		// An incomplete sequence can not be larger than the buffer
+		if (total - converted > sizeof(m_unconvBuffer)) {
+			throw exceptions::illegal_byte_sequence_for_charset();
 		}
 
-		if (curDataLen == 0) {
-			return;  // no more data
-		}
-
-		// Now, convert the current data buffer
-		const byte_t* inPtr = curData;
-		size_t inLength = std::min(curDataLen, sizeof(m_outputBuffer) / MAX_CHARACTER_WIDTH);
-		byte_t* outPtr = m_outputBuffer;
-		size_t outLength = sizeof(m_outputBuffer);
-
-		const size_t inLength0 = inLength;
-
-		if (iconv(cd, ICONV_IN_TYPE(&inPtr), &inLength,
-		          ICONV_OUT_TYPE(&outPtr), &outLength) == static_cast <size_t>(-1)) {
-
-			// Write successfully converted bytes
-			m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
-
-			const size_t inputConverted = inLength0 - inLength;
-
-			curData += inputConverted;
-			curDataLen -= inputConverted;
-
-			// Put one byte byte into the unconverted buffer so
-			// that the next iteration fill it
-			if (curDataLen != 0) {
-
-				m_unconvCount = 1;
-				m_unconvBuffer[0] = *curData;
-
-				curData++;
-				curDataLen--;
-			}
-
-		} else {
-
-			// Write successfully converted bytes
-			m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
-
-			curData += inLength0;
-			curDataLen -= inLength0;
-		}
+		// Keep unconverted bytes until more data arrives
+		std::copy(buffer + converted, buffer + total, m_unconvBuffer);
+		m_unconvCount = total - converted;
 	}
 }
 
@@ -476,53 +458,13 @@ void charsetFilteredOutputStream_iconv::flush() {
 
 	const iconv_t cd = *static_cast <iconv_t*>(m_desc);
 
-	size_t offset = 0;
-
 	// Process unconverted bytes
-	while (m_unconvCount != 0) {
+	const size_t count = m_unconvCount;
+	m_unconvCount = 0;
 
-		// Try a conversion
-		const byte_t* inPtr = m_unconvBuffer + offset;
-		size_t inLength = m_unconvCount;
-		byte_t* outPtr = m_outputBuffer;
-		size_t outLength = sizeof(m_outputBuffer);
-
-		const size_t inLength0 = inLength;
-
-		if (iconv(cd, ICONV_IN_TYPE(&inPtr), &inLength,
-			      ICONV_OUT_TYPE(&outPtr), &outLength) == static_cast <size_t>(-1)) {
-
-			const size_t inputConverted = inLength0 - inLength;
-
-			// Skip a "blocking" character
-			if (inputConverted == 0) {
-
-				if (!m_options.silentlyReplaceInvalidSequences) {
-					throw exceptions::illegal_byte_sequence_for_charset();
-				}
-
-				outputInvalidChar(m_stream, cd);
-
-				offset++;
-				m_unconvCount--;
-
-			} else {
-
-				// Write successfully converted bytes
-				m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
-
-				offset += inputConverted;
-				m_unconvCount -= inputConverted;
-			}
-
-		} else {
-
-			// Write successfully converted bytes
-			m_stream.write(m_outputBuffer, sizeof(m_outputBuffer) - outLength);
-
-			m_unconvCount = 0;
-		}
-	}
+	convertBuffer(
+		cd, m_sourceCharset, m_destCharset, m_options, m_unconvBuffer, count, /* flush */ true, m_stream, NULL
+	);
 
 	m_stream.flush();
 }
-- 
2.43.0


From bb7b1ba49ad92b22fe62c5cf0cfbb6b40243bd95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 208/236] fix: X.509 certificates in DER format could not be
 imported (OpenSSL)

---
 .../security/cert/openssl/X509Certificate_OpenSSL.cpp     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 3a16eb1..9d950c6 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -208,6 +208,14 @@ shared_ptr <X509Certificate> X509Certificate::import(
 
 	shared_ptr <X509Certificate_OpenSSL> cert = make_shared <X509Certificate_OpenSSL>();
 
+	// Try DER format
+	const unsigned char* der = data;
+
+	if (d2i_X509(&(cert->m_data->cert), &der, static_cast <long>(length))) {
+		return cert;
+	}
+
+	// Try PEM format
 	BIO* membio = BIO_new_mem_buf(const_cast <byte_t*>(data), static_cast <int>(length));
 
 	if (!PEM_read_bio_X509(membio, &(cert->m_data->cert), 0, 0)) {
-- 
2.43.0


From a0d18986f3e442626a1a351eca96f436443a1d93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 209/236] fix: certificates were accepted for host names of
 which they only named a suffix (OpenSSL)

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 52 ++++++-------------
 .../cert/openssl/X509Certificate_OpenSSL.hpp  |  1 -
 2 files changed, 15 insertions(+), 38 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 9d950c6..0492ea5 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -419,31 +419,23 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 }
 
 
-// static
-bool X509Certificate_OpenSSL::cnMatch(const char* cnBuf, const char* host) {
-
-	// Right-to-left match, looking for a '*' wildcard
-	const bool hasWildcard = (strlen(cnBuf) > 1 && cnBuf[0] == '*' && cnBuf[1] == '.');
-	const char* cnBufReverseEndPtr = (cnBuf + (hasWildcard ? 2 : 0));
-	const char* hostPtr = host + strlen(host);
-	const char* cnPtr = cnBuf + strlen(cnBuf);
-
-	bool matches = true;
-
-	while (matches && --hostPtr >= host && --cnPtr >= cnBufReverseEndPtr) {
-		matches = (toupper(*hostPtr) == toupper(*cnPtr));
-	}
-
-	return matches;
-}
-
-
 bool X509Certificate_OpenSSL::verifyHostName(
 	const string& hostname,
 	std::vector <std::string>* nonMatchingNames
 ) const {
 
-	// First, check subject common name against hostname
+	// First, check hostname against subject alternative names, or common name
+	if (X509_check_host(m_data->cert, hostname.data(), hostname.length(), 0, NULL) == 1 ||
+	    X509_check_ip_asc(m_data->cert, hostname.c_str(), 0) == 1) {
+
+		return true;
+	}
+
+	if (!nonMatchingNames) {
+		return false;
+	}
+
+	// Report names that do not match
 	char CNBuffer[1024];
 	CNBuffer[sizeof(CNBuffer) - 1] = '\0';
 
@@ -451,17 +443,10 @@ bool X509Certificate_OpenSSL::verifyHostName(
 
 	if (X509_NAME_get_text_by_NID(xname, NID_commonName, CNBuffer, sizeof(CNBuffer)) != -1) {
 
-		if (cnMatch(CNBuffer, hostname.c_str())) {
-			return true;
-		}
-
-		if (nonMatchingNames) {
-			nonMatchingNames->push_back(CNBuffer);
-		}
+		nonMatchingNames->push_back(CNBuffer);
 	}
 
 	// Now, look in subject alternative names
-	bool verify = false;
 
 	STACK_OF(GENERAL_NAME)* altNames = static_cast <GENERAL_NAMES*>
 		(X509_get_ext_d2i(m_data->cert, NID_subject_alt_name, NULL, NULL));
@@ -486,20 +471,13 @@ bool X509Certificate_OpenSSL::verifyHostName(
 				break;
 			}
 
-			if (cnMatch(DNSName, hostname.c_str())) {
-				verify = true;
-				break;
-			}
-
-			if (nonMatchingNames) {
-				nonMatchingNames->push_back(DNSName);
-			}
+			nonMatchingNames->push_back(DNSName);
 		}
 	}
 
 	sk_GENERAL_NAME_pop_free(altNames, GENERAL_NAME_free);
 
-	return verify;
+	return false;
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
index c0ebf3c..abadedf 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
@@ -95,7 +95,6 @@ private:
 	  * @return true if the hostname matches the Common Name, or
 	  * false otherwise
 	  */
-	static bool cnMatch(const char* cnBuf, const char* host);
 
 	/** Internal utility function to convert ASN1_TIME
 	 *  structs to vmime::datetime
-- 
2.43.0


From 946f55e7a32f3894c09d5e20f42e2523253070cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 210/236] fix: fingerprint was text instead of bytes, and
 version was off by one, in X.509 certificates (OpenSSL)

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 28 +++----------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 0492ea5..8890a81 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -530,11 +530,8 @@ const datetime X509Certificate_OpenSSL::getExpirationDate() const {
 
 const byteArray X509Certificate_OpenSSL::getFingerprint(const DigestAlgorithm algo) const {
 
-	BIO *out;
-	int j;
 	unsigned int n;
 	const EVP_MD *digest;
-	unsigned char * fingerprint;
 	unsigned char md[EVP_MAX_MD_SIZE];
 
 	switch (algo) {
@@ -556,28 +553,11 @@ const byteArray X509Certificate_OpenSSL::getFingerprint(const DigestAlgorithm al
 			break;
 	}
 
-	out = BIO_new(BIO_s_mem());
-	BIO_set_close(out, BIO_CLOSE);
-
-	if (X509_digest(m_data->cert, digest, md, &n)) {
-
-		for (j = 0 ; j < (int) n ; j++) {
-			BIO_printf(out, "%02X", md[j]);
-			if (j + 1 != (int) n) BIO_printf(out, ":");
-		}
+	if (!X509_digest(m_data->cert, digest, md, &n)) {
+		return byteArray();
 	}
 
-	const long resultLen = BIO_get_mem_data(out, &fingerprint);
-	unsigned char* result = new unsigned char[resultLen];
-	memcpy(result, fingerprint, resultLen);
-	BIO_free(out);
-
-	byteArray res;
-	res.insert(res.end(), &result[0], &result[0] + resultLen);
-
-	delete [] result;
-
-	return res;
+	return byteArray(md, md + n);
 }
 
 
@@ -616,7 +596,7 @@ const string X509Certificate_OpenSSL::getType() const {
 
 int X509Certificate_OpenSSL::getVersion() const {
 
-	return (int) X509_get_version(m_data->cert);
+	return (int) X509_get_version(m_data->cert) + 1;
 }
 
 
-- 
2.43.0


From 5700fbe40b9866e6c06379a441dd35a1d8b5466d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:44 +0000
Subject: [PATCH 211/236] fix: IP address sent as server name in TLS handshake,
 refused by servers (OpenSSL)

---
 src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index bbda81b..a40ad5d 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -168,7 +168,14 @@ void TLSSocket_OpenSSL::createSSLHandle() {
 		}
 
 		SSL_set_bio(m_ssl, sockBio, sockBio);
-		SSL_set_tlsext_host_name(m_ssl, peerName.c_str());
+
+		// Literal IPv4 and IPv6 addresses are not permitted here (RFC-6066)
+		if (peerName.find(':') == string::npos &&
+		    peerName.find_first_not_of("0123456789.") != string::npos) {
+
+			SSL_set_tlsext_host_name(m_ssl, peerName.c_str());
+		}
+
 		SSL_set_connect_state(m_ssl);
 		SSL_set_mode(m_ssl, SSL_MODE_AUTO_RETRY | SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
 
-- 
2.43.0


From 1a0f3ba9998f49d0402c8ab954c57587bf8b2c9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:49:22 +0000
Subject: [PATCH 212/236] fix: names following a malformed one in a certificate
 were not reported (OpenSSL)

---
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 8890a81..59acbb4 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -468,7 +468,7 @@ bool X509Certificate_OpenSSL::verifyHostName(
 			// Make sure there isn't an embedded NUL character in the DNS name
 			if (ASN1_STRING_length(currentName->d.dNSName) != strlen(DNSName)) {
 				// Malformed certificate
-				break;
+				continue;
 			}
 
 			nonMatchingNames->push_back(DNSName);
-- 
2.43.0


From f47d154df9d19e2e8a0dea643eb9dba2bd244ea6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 213/236] fix: division by zero when computing the generated
 size of a parameter with a long name

---
 src/vmime/parameter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 4d1977e..cbe7d28 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -695,9 +695,16 @@ size_t parameter::getGeneratedSize(const generationContext& ctx) {
 		+ m_value->getCharset().getName().length() + valueLength + bytesNeedingEncoding * 2 + 1 /* ; */;
 
 	// Encoded parameter + value
+	const size_t encodedLineOverhead =
+		  2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH
+		+ name.length() + 5 /* *00*= */ + 1 /* ; */;
+
+	// The name may take up the whole line (at least one character is
+	// generated in each section)
 	const size_t maxEncodedValueLengthOnLine =
-		  ctx.getMaxLineLength() - 2 /* CRLF */ - NEW_LINE_SEQUENCE_LENGTH
-		- name.length() - 5 /* *00*= */ - 1 /* ; */;
+		ctx.getMaxLineLength() > encodedLineOverhead
+			? ctx.getMaxLineLength() - encodedLineOverhead
+			: 1;
 
 	const size_t encodedValueLength = (valueLength + bytesNeedingEncoding * 2)
 		+ m_value->getCharset().getName().length() + m_value->getLanguage().length() + 2 /* 2 x ' */;
-- 
2.43.0


From 20aa192c7137b60417b252762c4bf21dea5dcfb7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:17:25 +0000
Subject: [PATCH 214/236] fix: estimated size of generated component could be
 less than its actual size

---
 src/vmime/body.cpp        | 24 +++++++++++++++++++----
 src/vmime/headerField.cpp |  9 ++++++++-
 src/vmime/parameter.cpp   | 41 +++++++--------------------------------
 3 files changed, 35 insertions(+), 39 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index ddd80b5..d318e94 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -555,11 +555,24 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 	// MIME-Multipart
 	if (getPartCount() != 0) {
 
-		size_t size = 0;
+		// Length of the boundary (the longest one if it is generated randomly)
+		size_t boundaryLength = std::max(m_boundary.length(), size_t(70));
+
+		if (m_part) {
+
+			shared_ptr <contentTypeField> ctf =
+				m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+
+			if (ctf && ctf->hasBoundary()) {
+				boundaryLength = std::max(boundaryLength, ctf->getBoundary().length());
+			}
+		}
 
 		// Size of parts and boundaries
+		size_t size = boundaryLength + 6;  // last "--boundary--" CRLF
+
 		for (size_t p = 0 ; p < getPartCount() ; ++p) {
-			size += 100;  // boundary, CRLF...
+			size += boundaryLength + 6;  // "--boundary", CRLF...
 			size += getPartAt(p)->getGeneratedSize(ctx);
 		}
 
@@ -576,7 +589,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		const text epilogText = getActualEpilogText(ctx);
@@ -591,7 +604,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		return size;
@@ -609,6 +622,9 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 			shared_ptr <utility::encoder::encoder> srcEncoder = m_contents->getEncoding().getEncoder();
 			shared_ptr <utility::encoder::encoder> dstEncoder = getEncoding().getEncoder();
 
+			dstEncoder->getProperties()["maxlinelength"] = ctx.getMaxLineLength();
+			dstEncoder->getProperties()["text"] = (getContentType().getType() == mediaTypes::TEXT);
+
 			return dstEncoder->getEncodedSize(srcEncoder->getDecodedSize(m_contents->getLength()));
 		}
 	}
diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index ca815ef..2ce3b6b 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -325,7 +325,14 @@ void headerField::generateImpl(
 
 size_t headerField::getGeneratedSize(const generationContext& ctx) {
 
-	return m_name.length() + 2 /* ": " */ + m_value->getGeneratedSize(ctx);
+	// Where lines are folded depends on the position of the value on the line
+	string value;
+	utility::outputStreamStringAdapter valueStream(value);
+
+	m_value->generate(ctx, valueStream, m_name.length() + 2);
+	valueStream.flush();
+
+	return m_name.length() + 2 /* ": " */ + value.length();
 }
 
 
diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index cbe7d28..8cca06e 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -680,42 +680,15 @@ void parameter::generateImpl(
 
 size_t parameter::getGeneratedSize(const generationContext& ctx) {
 
-	const string& name = m_name;
-	const string& value = m_value->getBuffer();
-
-	const size_t bytesNeedingEncoding =
-		value.length() - utility::stringUtils::countASCIIchars(value.begin(), value.end());
-
-	const size_t valueLength = value.length();
-
-	// Compute generated length in the very worst case
-
-	// Non-encoded parameter + value (worst case: quoting + QP)
-	size_t len = name.length() + 1 /* = */ + 2 /* "" */ + 7 /* =?...?Q?...?= */
-		+ m_value->getCharset().getName().length() + valueLength + bytesNeedingEncoding * 2 + 1 /* ; */;
-
-	// Encoded parameter + value
-	const size_t encodedLineOverhead =
-		  2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH
-		+ name.length() + 5 /* *00*= */ + 1 /* ; */;
-
-	// The name may take up the whole line (at least one character is
-	// generated in each section)
-	const size_t maxEncodedValueLengthOnLine =
-		ctx.getMaxLineLength() > encodedLineOverhead
-			? ctx.getMaxLineLength() - encodedLineOverhead
-			: 1;
-
-	const size_t encodedValueLength = (valueLength + bytesNeedingEncoding * 2)
-		+ m_value->getCharset().getName().length() + m_value->getLanguage().length() + 2 /* 2 x ' */;
-
-	const size_t numberOfSections = 1 /* worst case: generation starts at the end of a line */
-		+ std::max(size_t(1), encodedValueLength / maxEncodedValueLengthOnLine);
-
-	len += numberOfSections * (name.length() + 5 /* *00*= */ + 1 /* ; */ + 2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH) + encodedValueLength;
+	string value;
+	utility::outputStreamStringAdapter valueStream(value);
 
-	return len;
+	generate(ctx, valueStream);
+	valueStream.flush();
 
+	// Depending on the position on the current line, there may be a line break
+	// before the normal parameter and before the extended one
+	return value.length() + 1 /* ; */ + 2 * (2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH);
 }
 
 
-- 
2.43.0


From 1ef37df985b27046513d68f90b4eb861ab9fcaf0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 215/236] fix: wrong address and name of peer for IPv6
 connections

---
 src/vmime/platforms/posix/posixSocket.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c0ce0cf..0df8cbe 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -574,17 +574,21 @@ static bool isNumericAddress(const char* address) {
 const string posixSocket::getPeerAddress() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
 	// Convert to numerical presentation format
 	char buf[INET6_ADDRSTRLEN];
 
-	if (!inet_ntop(peer.sa_family, &(reinterpret_cast <struct sockaddr_in *>(&peer))->sin_addr, buf, sizeof(buf))) {
+	const void* addr = (peer.ss_family == AF_INET6)
+		? static_cast <const void*>(&(reinterpret_cast <struct sockaddr_in6*>(&peer))->sin6_addr)
+		: static_cast <const void*>(&(reinterpret_cast <struct sockaddr_in*>(&peer))->sin_addr);
+
+	if (!inet_ntop(peer.ss_family, addr, buf, sizeof(buf))) {
 		throwSocketError(errno);
 	}
 
@@ -595,10 +599,10 @@ const string posixSocket::getPeerAddress() const {
 const string posixSocket::getPeerName() const {
 
 	// Get address of connected peer
-	sockaddr peer;
+	sockaddr_storage peer;
 	socklen_t peerLen = sizeof(peer);
 
-	if (getpeername(m_desc, &peer, &peerLen) != 0) {
+	if (getpeername(m_desc, reinterpret_cast <sockaddr*>(&peer), &peerLen) != 0) {
 		throwSocketError(errno);
 	}
 
@@ -623,7 +627,7 @@ const string posixSocket::getPeerName() const {
 		struct hostent *hp;
 
 		if ((hp = gethostbyaddr(reinterpret_cast <const void *>(&peer),
-				sizeof(peer), peer.sa_family)) != NULL) {
+				sizeof(peer), peer.ss_family)) != NULL) {
 
 			return string(hp->h_name);
 		}
-- 
2.43.0


From 791c8be83dec3c184a9ec04267b0ad05e54b9f85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 216/236] fix: wrong reason for failed connections, and next
 address of a host not tried when one does not respond

---
 src/vmime/platforms/posix/posixSocket.cpp | 34 ++++++++++-------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 0df8cbe..b757443 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -149,9 +149,10 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 
 	for (struct ::addrinfo* curAddrInfo = addrInfo ;
 	     sock == -1 && curAddrInfo != NULL ;
-	     curAddrInfo = curAddrInfo->ai_next, connectErrno = ETIMEDOUT) {
+	     curAddrInfo = curAddrInfo->ai_next) {
 
 		if (curAddrInfo->ai_family != AF_INET && curAddrInfo->ai_family != AF_INET6) {
+			connectErrno = EAFNOSUPPORT;
 			continue;
 		}
 
@@ -232,29 +233,23 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					// Success
 					if (ret > 0) {
 
-						if (fds[0].revents & (POLLIN | POLLOUT)) {
+						int error = 0;
+						socklen_t len = sizeof(error);
 
-							int error = 0;
-							socklen_t len = sizeof(error);
-
-							if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) < 0) {
-
-								connectErrno = errno;
-
-							} else {
-
-								if (error != 0) {
-									connectErrno = error;
-								} else {
-									connected = true;
-								}
-							}
+						if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) < 0) {
+							connectErrno = errno;
+						} else if (error != 0) {
+							connectErrno = error;
+						} else if (fds[0].revents & (POLLIN | POLLOUT)) {
+							connected = true;
+						} else {
+							connectErrno = ENOTCONN;
 						}
 
 						break;
 
 					// Error
-					} else if (ret < -1) {
+					} else if (ret < 0) {
 
 						if (errno != EAGAIN && errno != EINTR) {
 
@@ -288,7 +283,8 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					gettimeofday(&curTime, /* timezone */ NULL);
 
 					if (curAddrInfo->ai_next != NULL &&
-						curTime.tv_usec - startTime.tv_usec >= tryNextTimeout * 1000) {
+						(curTime.tv_sec - startTime.tv_sec) * 1000
+							+ (curTime.tv_usec - startTime.tv_usec) / 1000 >= tryNextTimeout) {
 
 						connectErrno = ETIMEDOUT;
 						break;
-- 
2.43.0


From 3874ff774016e35f217709785d787aa3305770f0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 217/236] fix: socket reported as connected after reset by
 peer, and endless wait for data on a closed socket

---
 src/vmime/platforms/posix/posixSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index b757443..0e7c6ff 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -518,7 +518,9 @@ bool posixSocket::isConnected() const {
 
 	char buff;
 
-	return ::recv(m_desc, &buff, 1, MSG_PEEK) != 0;
+	const ssize_t ret = ::recv(m_desc, &buff, 1, MSG_PEEK);
+
+	return ret > 0 || (ret < 0 && IS_EAGAIN(errno));
 }
 
 
@@ -644,6 +646,10 @@ size_t posixSocket::getBlockSize() const {
 
 bool posixSocket::waitForData(const bool read, const bool write, const int msecs) {
 
+	if (m_desc == -1) {
+		throwSocketError(ENOTCONN);
+	}
+
 	for (int i = 0 ; i <= msecs / 10 ; ++i) {
 
 		// Check whether data is available
-- 
2.43.0


From ffacb6cf15be28dbc941a61b8500608aac238976 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 218/236] fix: memory used by pending name resolution was
 released on time-out

---
 src/vmime/platforms/posix/posixSocket.cpp | 41 ++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 0e7c6ff..49e0f09 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -414,12 +414,44 @@ void posixSocket::resolve(
 	// If getaddrinfo_a() is available, use asynchronous resolving to allow
 	// the timeout handler to cancel the operation
 
-	struct ::gaicb gaiRequest;
+	// The data of the request must live as long as the request is pending
+	struct pendingRequest {
+
+		string name;
+		string service;
+		struct ::addrinfo hints;
+		struct ::gaicb request;
+
+		static void release(pendingRequest* req) {
+
+			// If the request cannot be cancelled now, it is still being
+			// processed in another thread and the data cannot be freed
+			const int ret = gai_error(&req->request) == EAI_INPROGRESS
+				? gai_cancel(&req->request) : EAI_ALLDONE;
+
+			if (ret == EAI_CANCELED || ret == EAI_ALLDONE) {
+
+				if (gai_error(&req->request) == 0 && req->request.ar_result) {
+					::freeaddrinfo(req->request.ar_result);
+				}
+
+				delete req;
+			}
+		}
+	};
+
+	const shared_ptr <pendingRequest> pending(new pendingRequest(), &pendingRequest::release);
+
+	pending->name = address;
+	pending->service = portStr;
+	pending->hints = hints;
+
+	struct ::gaicb& gaiRequest = pending->request;
 	memset(&gaiRequest, 0, sizeof(gaiRequest));
 
-	gaiRequest.ar_name = address.c_str();
-	gaiRequest.ar_service = portStr;
-	gaiRequest.ar_request = &hints;
+	gaiRequest.ar_name = pending->name.c_str();
+	gaiRequest.ar_service = pending->service.c_str();
+	gaiRequest.ar_request = &pending->hints;
 
 	struct ::gaicb* gaiRequests = &gaiRequest;
 	int gaiError;
@@ -456,6 +488,7 @@ void posixSocket::resolve(
 			} else {
 
 				*addrInfo = gaiRequest.ar_result;
+				gaiRequest.ar_result = NULL;
 				break;
 			}
 
-- 
2.43.0


From f8cdb9167014948cfa824f1360eef740cd7bf3b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 219/236] fix: end of previous data remained when writing to an
 existing file

---
 src/vmime/platforms/posix/posixFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 8ef5fd8..7db6f72 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -312,7 +312,7 @@ shared_ptr <vmime::utility::outputStream> posixFileWriter::getOutputStream() {
 
 	int fd = 0;
 
-	if ((fd = ::open(m_nativePath.c_str(), O_WRONLY, 0660)) == -1) {
+	if ((fd = ::open(m_nativePath.c_str(), O_WRONLY | O_TRUNC, 0660)) == -1) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-- 
2.43.0


From 8f4313e373af5d1697b102b2dbae3ffe8afb5e96 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 220/236] fix: removing a symbolic link or special file failed
 or did nothing

---
 src/vmime/platforms/posix/posixFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 7db6f72..daadf63 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -531,7 +531,7 @@ void posixFile::remove() {
 
 	struct stat buf;
 
-	if (::stat(m_nativePath.c_str(), &buf) == -1) {
+	if (::lstat(m_nativePath.c_str(), &buf) == -1) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
@@ -541,7 +541,7 @@ void posixFile::remove() {
 			posixFileSystemFactory::reportError(m_path, errno);
 		}
 
-	} else if (S_ISREG(buf.st_mode)) {
+	} else {
 
 		if (::unlink(m_nativePath.c_str()) == -1) {
 			posixFileSystemFactory::reportError(m_path, errno);
-- 
2.43.0


From e7565c691cf9cecd28b8bbbdfde7e9566e174594 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 221/236] fix: more bytes than available were reported as
 skipped at the end of a file

---
 src/vmime/platforms/posix/posixFile.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index daadf63..1dcff52 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -261,9 +261,17 @@ size_t posixFileReaderInputStream::skip(const size_t count) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-	const off_t newPos = ::lseek(m_fd, count, SEEK_CUR);
+	// Do not skip past the end of the file
+	const off_t endPos = ::lseek(m_fd, 0, SEEK_END);
 
-	if (newPos == off_t(-1)) {
+	if (endPos == off_t(-1)) {
+		posixFileSystemFactory::reportError(m_path, errno);
+	}
+
+	const off_t available = std::max(endPos - curPos, off_t(0));
+	const off_t newPos = curPos + static_cast <off_t>(std::min(count, static_cast <size_t>(available)));
+
+	if (::lseek(m_fd, newPos, SEEK_SET) == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
 
-- 
2.43.0


From 1a86f49b2ace7fe02dcb3be92781e11ae3c785d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 222/236] fix: application terminated by SIGPIPE, or data lost
 on interrupted writes, when writing to a child process

---
 .../platforms/posix/posixChildProcess.cpp     | 46 +++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 4a9fef3..75135ab 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -127,9 +127,49 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
-		if (::write(m_desc, data, count) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		// If the process does not read its input, there should be an error
+		// and the application should not be terminated by SIGPIPE
+		sigset_t pipeMask, oldMask, pendingMask;
+
+		sigemptyset(&pipeMask);
+		sigaddset(&pipeMask, SIGPIPE);
+
+		sigemptyset(&pendingMask);
+		sigpending(&pendingMask);
+
+		pthread_sigmask(SIG_BLOCK, &pipeMask, &oldMask);
+
+		size_t written = 0;
+		int err = 0;
+
+		while (written < count) {
+
+			const ssize_t ret = ::write(m_desc, data + written, count - written);
+
+			if (ret >= 0) {
+
+				written += ret;
+
+			} else if (errno != EINTR) {
+
+				err = errno;
+				break;
+			}
+		}
+
+		if (err == EPIPE && !sigismember(&pendingMask, SIGPIPE)) {
+
+			const struct timespec noWait = { 0, 0 };
+
+			while (sigtimedwait(&pipeMask, NULL, &noWait) == -1 && errno == EINTR) {
+				;
+			}
+		}
+
+		pthread_sigmask(SIG_SETMASK, &oldMask, NULL);
+
+		if (err != 0) {
+			throw exceptions::system_error(getPosixErrorMessage(err));
 		}
 	}
 
-- 
2.43.0


From 8239a0b2a10b5faca1625412ee7f37e779ec16e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 223/236] fix: reading output of a child process failed when
 interrupted, and end of data was uninitialized

---
 .../platforms/posix/posixChildProcess.cpp      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 75135ab..e62316e 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -186,7 +186,9 @@ class inputStreamPosixPipeAdapter : public utility::inputStream {
 public:
 
 	inputStreamPosixPipeAdapter(const int desc)
-		: m_desc(desc) {
+		: m_desc(desc),
+		  m_eof(false) {
+
 	}
 
 	bool eof() const {
@@ -211,6 +213,11 @@ public:
 			std::min(sizeof(buffer), count - bytesSkipped))) != 0) {
 
 			if (bytesRead == -1) {
+
+				if (errno == EINTR) {
+					continue;
+				}
+
 				const string errorMsg = getPosixErrorMessage(errno);
 				throw exceptions::system_error(errorMsg);
 			}
@@ -225,12 +232,17 @@ public:
 
 		ssize_t bytesRead = 0;
 
-		if ((bytesRead = ::read(m_desc, data, count)) == -1) {
+		while ((bytesRead = ::read(m_desc, data, count)) == -1) {
+
+			if (errno == EINTR) {
+				continue;
+			}
+
 			const string errorMsg = getPosixErrorMessage(errno);
 			throw exceptions::system_error(errorMsg);
 		}
 
-		m_eof = (bytesRead == 0);
+		m_eof = (bytesRead == 0 && count != 0);
 
 		return static_cast <size_t>(bytesRead);
 	}
-- 
2.43.0


From fc83e9313798b21dd50ef3084277fc4f186b5d50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 224/236] fix: standard input and output of a child process
 were connected to each other, and signals blocked in it

---
 .../platforms/posix/posixChildProcess.cpp     | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index e62316e..1dfa2b7 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -319,15 +319,26 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		argv[i + 1] = m_argVector[i].c_str();
 	}
 
-	// Create a pipe to communicate with the child process
-	int fd[2];
+	// Create pipes to communicate with the child process (one for each direction)
+	int in[2], out[2];
 
-	if (pipe(fd) == -1) {
+	if (pipe(in) == -1) {
 		throw exceptions::system_error(getPosixErrorMessage(errno));
 	}
 
-	m_pipe[0] = fd[0];
-	m_pipe[1] = fd[1];
+	if (pipe(out) == -1) {
+
+		const string errorMsg = getPosixErrorMessage(errno);
+
+		close(in[0]);
+		close(in[1]);
+
+		throw exceptions::system_error(errorMsg);
+	}
+
+	// Other processes should not inherit our ends
+	fcntl(in[1], F_SETFD, FD_CLOEXEC);
+	fcntl(out[0], F_SETFD, FD_CLOEXEC);
 
 	// Block SIGCHLD so the calling application doesn't notice
 	// process exiting before we do
@@ -346,23 +357,31 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 
 		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 
-		close(fd[0]);
-		close(fd[1]);
+		close(in[0]);
+		close(in[1]);
+		close(out[0]);
+		close(out[1]);
 
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
 
+		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
+
 		if (flags & FLAG_REDIRECT_STDIN) {
-			dup2(fd[0], STDIN_FILENO);
-		} else {
-			close(fd[0]);
+			dup2(in[0], STDIN_FILENO);
 		}
 
 		if (flags & FLAG_REDIRECT_STDOUT) {
-			dup2(fd[1], STDOUT_FILENO);
-		} else {
-			close(fd[1]);
+			dup2(out[1], STDOUT_FILENO);
+		}
+
+		const int fds[] = { in[0], in[1], out[0], out[1] };
+
+		for (size_t i = 0 ; i < sizeof(fds) / sizeof(fds[0]) ; ++i) {
+			if (fds[i] > STDERR_FILENO) {
+				close(fds[i]);
+			}
 		}
 
 		posixFileSystemFactory* pfsf = new posixFileSystemFactory();
@@ -375,6 +394,12 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		_exit(255);
 	}
 
+	close(in[0]);
+	close(out[1]);
+
+	m_pipe[0] = out[0];
+	m_pipe[1] = in[1];
+
 	if (flags & FLAG_REDIRECT_STDIN) {
 
 		m_stdIn = make_shared <outputStreamPosixPipeAdapter>(m_pipe[1]);
-- 
2.43.0


From a336058f3dde6bdb4154b4a26a156922122dc3cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 225/236] fix: truncated data was handed to child process as
 complete, and the process never reaped, on failure

---
 .../platforms/posix/posixChildProcess.cpp     | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 1dfa2b7..93ea052 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -278,6 +278,17 @@ posixChildProcess::posixChildProcess(const utility::file::path& path)
 
 posixChildProcess::~posixChildProcess() {
 
+	if (m_pid != 0 && m_stdIn) {
+
+		// Do not let the process take what it has been given so far for
+		// the whole data, and do not leave a zombie
+		kill(m_pid, SIGKILL);
+
+		while (waitpid(m_pid, NULL, 0) == -1 && errno == EINTR) {
+			;
+		}
+	}
+
 	if (m_started) {
 		sigprocmask(SIG_SETMASK, &m_oldProcMask, NULL);
 	}
@@ -445,12 +456,21 @@ void posixChildProcess::waitForFinish() {
 		m_pipe[1] = 0;
 	}
 
-	int wstat;
+	int wstat = 0;
+
+	while (waitpid(m_pid, &wstat, 0) == -1) {
 
-	while (waitpid(m_pid, &wstat, 0) == -1 && errno == EINTR) {
-		;
+		if (errno != EINTR) {
+
+			const string errorMsg = getPosixErrorMessage(errno);
+
+			m_pid = 0;
+			throw exceptions::system_error(errorMsg);
+		}
 	}
 
+	m_pid = 0;
+
 	if (!WIFEXITED(wstat)) {
 
 		throw exceptions::system_error("Process exited with signal "
-- 
2.43.0


From 88a2a857dd51b7870ef71f3776e289b06f14acb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:31:32 +0000
Subject: [PATCH 226/236] fix: message sent by sendmail transport although not
 connected

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..d289af3 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -152,6 +152,10 @@ void sendmailTransport::send(
 	const sendOptions& /* options */
 ) {
 
+	if (!isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	// If no recipient/expeditor was found, throw an exception
 	if (recipients.isEmpty()) {
 		throw exceptions::no_recipient();
-- 
2.43.0


From 4fdd1bcd4508c56f20232db3a5d109f7ac6c0a88 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 227/236] fix: connection failed when interrupted by a signal

---
 src/vmime/platforms/posix/posixSocket.cpp | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 49e0f09..95f3a99 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -312,6 +312,30 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 			if (::connect(sock, curAddrInfo->ai_addr, curAddrInfo->ai_addrlen) < 0) {
 
 				connectErrno = errno;
+
+				if (connectErrno == EINTR) {
+
+					// Interrupted by a signal: the connection is being
+					// established asynchronously
+					pollfd fds[1];
+					fds[0].fd = sock;
+					fds[0].events = POLLOUT;
+
+					while (::poll(fds, 1, -1) < 0 && (errno == EINTR || errno == EAGAIN)) {
+						;
+					}
+
+					socklen_t len = sizeof(connectErrno);
+
+					if (getsockopt(sock, SOL_SOCKET, SO_ERROR, &connectErrno, &len) < 0) {
+						connectErrno = errno;
+					}
+
+					if (connectErrno == 0) {
+						break;  // Connection successful
+					}
+				}
+
 				::close(sock);
 				sock = -1;
 				continue;  // try next
-- 
2.43.0


From 5064a93cba0c5f6cc491fa775bcc836fe5b9c901 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 228/236] fix: final CR of a message was not given to sendmail

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index d289af3..5f95461 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -216,6 +216,7 @@ void sendmailTransport::internalSend(
 	// TODO: remove 'Bcc:' field from message header
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
+	fos.flush();
 
 	// Wait for sendmail to exit
 	proc->waitForFinish();
-- 
2.43.0


From db60f81f22c17e5fc178eb2fdb1a5d5d5c1cde60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:59:58 +0000
Subject: [PATCH 229/236] fix: name resolution failed when interrupted by a
 signal

---
 src/vmime/platforms/posix/posixSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 95f3a99..1f573b9 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -516,7 +516,7 @@ void posixSocket::resolve(
 				break;
 			}
 
-		} else if (gaiError != EAI_AGAIN) {
+		} else if (gaiError != EAI_AGAIN && gaiError != EAI_INTR) {
 
 			if (gaiError == EAI_SYSTEM) {
 
-- 
2.43.0


From bb5f964d078d59e37114b4388eed06dfad1a9aab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 230/236] fix: do not crash on an unexpected reply to the IMAP
 CAPABILITY command

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0576840..0c78e92 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -649,7 +649,7 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() && resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From 8906d73035020d091c4f66d266c4c8ffba088bf4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 231/236] fix: reset the sub-type when parsing a media type
 without one

---
 src/vmime/mediaType.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/mediaType.cpp b/src/vmime/mediaType.cpp
index 46163bc..e551dcf 100644
--- a/src/vmime/mediaType.cpp
+++ b/src/vmime/mediaType.cpp
@@ -95,6 +95,11 @@ void mediaType::parseImpl(
 				)
 			)
 		);
+
+	} else {
+
+		// Do not keep the sub-type of a previous value
+		m_subType = mediaTypes::APPLICATION_OCTET_STREAM;
 	}
 
 	setParsedBounds(position, end);
-- 
2.43.0


From 2bb13dc2d9dfc470f06b89f4ab60d7cc4d571c8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 232/236] fix: do not keep fields of the previous date when
 parsing a malformed date

---
 src/vmime/dateTime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 4f4bc93..fd43d70 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -127,6 +127,9 @@ void datetime::parseImpl(
 	size_t* newPosition
 ) {
 
+	// Do not keep anything from a previous value
+	*this = datetime();
+
 	const string value = removeComments(buffer.data() + position, buffer.data() + end);
 
 	const char* const pend = value.data() + value.length();
-- 
2.43.0


From 7b18ee5e95f629fa2b0c958514830838490805c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 233/236] fix: do not keep the language of the previous word
 when parsing ordinary text

---
 src/vmime/word.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 290013a..e430b52 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -444,6 +444,7 @@ bool word::parseWithState(
 	m_buffer = string(buffer.begin() + position, buffer.begin() + end);
 	m_charset = ctx.getInternationalizedEmailSupport()
 		? charset(charsets::UTF_8) : charset(charsets::US_ASCII);
+	m_lang.clear();
 
 	setParsedBounds(position, end);
 
-- 
2.43.0


From 18dafea99a7776b4c7452f5da9996e184aebdbd0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 234/236] fix: do not keep the previous contents when parsing
 an empty body

---
 src/vmime/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index d318e94..80d1a4c 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -154,7 +154,7 @@ void body::parseImpl(
 	m_epilogText.clear();
 
 	if (end == position) {
-
+		m_contents = make_shared <emptyContentHandler>();
 		setParsedBounds(position, end);
 
 		if (newPosition) {
-- 
2.43.0


From 3c76074125c1c9a8c4cfac4eedbdb1a1cc040897 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:40:57 +0000
Subject: [PATCH 235/236] fix: clear end-of-file condition when seeking in a
 file (posix)

---
 src/vmime/platforms/posix/posixFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 1dcff52..afa7f7d 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -298,6 +298,8 @@ void posixFileReaderInputStream::seek(const size_t pos) {
 	if (newPos == off_t(-1)) {
 		posixFileSystemFactory::reportError(m_path, errno);
 	}
+
+	m_eof = false;
 }
 
 
-- 
2.43.0


From 361ddf11eb6157da7510bb847e90eb67df4bb218 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:41:47 +0000
Subject: [PATCH 236/236] fix: do not rename a file if it cannot be known
 whether the destination exists (posix)

---
 src/vmime/platforms/posix/posixFile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index afa7f7d..b4383ec 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -524,8 +524,13 @@ void posixFile::rename(const path& newName) {
 	// Do not overwrite an existing file
 	struct stat buf;
 
-	if (!isDirectory() && ::lstat(newNativePath.c_str(), &buf) == 0) {
-		posixFileSystemFactory::reportError(newName, EEXIST);
+	if (!isDirectory()) {
+
+		if (::lstat(newNativePath.c_str(), &buf) == 0) {
+			posixFileSystemFactory::reportError(newName, EEXIST);
+		} else if (errno != ENOENT) {
+			posixFileSystemFactory::reportError(newName, errno);
+		}
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-- 
2.43.0

