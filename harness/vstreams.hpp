// Streams that deliver data in arbitrary pieces, and recording sinks.
#ifndef VSTREAMS_HPP
#define VSTREAMS_HPP
#include "vh.hpp"
#include "vmime/vmime.hpp"

namespace vh {

using vmime::byte_t;

// How an input stream hands out its data.
struct Chunking {
	int mode = 0;          // 0 whole, 1 one byte, 2 fixed, 3 random small, 4 random any
	size_t fixed = 1;
	bool lazyEof = false;  // eof() turns true only after a read returned 0
	uint64_t seed = 1;
	str describe() const { return "chunk(" + std::to_string(mode) + "," + std::to_string(fixed) + (lazyEof ? ",lazy" : ",eager") + ")"; }
	static Chunking random(Rng& r) {
		Chunking c; c.mode = (int)r.below(5); c.lazyEof = r.coin(); c.seed = r.next();
		static const size_t fs[] = {1, 2, 3, 4, 5, 7, 8, 16, 60, 61, 62, 63, 64, 100, 1024, 4096};
		c.fixed = fs[r.below(sizeof fs / sizeof *fs)];
		return c;
	}
	size_t next(Rng& r, size_t want) const {
		size_t n = want;
		switch (mode) {
			case 1: n = 1; break;
			case 2: n = fixed; break;
			case 3: n = 1 + r.below(5); break;
			case 4: n = 1 + r.below(want ? want : 1); break;
		}
		return std::max<size_t>(1, std::min(n, want));
	}
};

class ChunkIn : public vmime::utility::inputStream {
public:
	ChunkIn(const str& d, const Chunking& c) : data(d), ch(c), rng(c.seed) {}
	bool eof() const { return ch.lazyEof ? sawEnd : pos >= data.size(); }
	void reset() { pos = 0; sawEnd = false; ++resets; }
	size_t read(byte_t* const out, const size_t count) {
		++reads;
		if (pos >= data.size()) { sawEnd = true; return 0; }
		if (count == 0) return 0;
		size_t n = std::min(ch.next(rng, count), data.size() - pos);
		memcpy(out, data.data() + pos, n); pos += n;
		return n;
	}
	size_t skip(const size_t count) {
		size_t n = std::min(count, data.size() - pos); pos += n;
		return n;
	}
	str data; Chunking ch; Rng rng; size_t pos = 0; bool sawEnd = false; size_t reads = 0, resets = 0;
};

class SeekIn : public vmime::utility::seekableInputStream {
public:
	SeekIn(const str& d, const Chunking& c) : data(d), ch(c), rng(c.seed) {}
	bool eof() const { return ch.lazyEof ? sawEnd : pos >= data.size(); }
	void reset() { pos = 0; sawEnd = false; }
	size_t read(byte_t* const out, const size_t count) {
		++reads;
		if (pos >= data.size()) { sawEnd = true; return 0; }
		if (count == 0) return 0;
		size_t n = std::min(ch.next(rng, count), data.size() - pos);
		memcpy(out, data.data() + pos, n); pos += n;
		return n;
	}
	size_t skip(const size_t count) { size_t n = std::min(count, data.size() - pos); pos += n; return n; }
	size_t getPosition() const { return pos; }
	void seek(const size_t p) { pos = std::min(p, data.size()); sawEnd = false; }
	str data; Chunking ch; Rng rng; size_t pos = 0; bool sawEnd = false; size_t reads = 0;
};

class RecOut : public vmime::utility::outputStream {
public:
	void flush() { ++flushes; }
	str data; size_t writes = 0, flushes = 0;
protected:
	void writeImpl(const byte_t* const d, const size_t n) { ++writes; if (n) data.append((const char*)d, n); }
};

} // namespace vh
#endif
