// Output buffers against a plain string: arbitrary writes, sizes at the edges of capacity, clearing, flushing, destruction
#include "harness.hpp"
#include "bomba_core.hpp"
using namespace Bomba;

std::string chunk(Rng& rng, size_t n) {
	std::string r(n, 0);
	uint64_t x = rng.next();
	for (auto& c : r) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = char(x >> 56); }
	return r;
}

// Writes something into the buffer in a random way, returns what it was; `edge` is the distance to a likely edge
template <typename B>
std::string writeSomething(H& h, B& buffer, size_t capacity, size_t written) {
	size_t n;
	size_t edge = capacity - written % capacity;
	switch (h.rng.below(6)) {
	case 0: n = edge; break;
	case 1: n = edge + 1; break;
	case 2: n = edge - 1; break;
	case 3: n = h.rng.size(int64_t(capacity), int64_t(capacity) * 5); break;
	case 4: n = capacity * h.rng.range(0, 4) + (h.rng.chance(30) ? 1 : 0); break;
	default: n = h.rng.range(0, 9);
	}
	if (n > 20000) n = 20000;
	std::string data = chunk(h.rng, n);
	switch (h.rng.below(4)) {
	case 0: {
		if (data.size() > 3000) data.resize(3000);
		for (char c : data) buffer += c;
		h.count("characters", data.size());
		break;
	}
	case 1: {
		for (auto& c : data) if (!c) c = 'z';
		buffer += data.c_str();
		h.count("c_strings");
		break;
	}
	case 2: buffer += std::string_view(data); h.count("string_views"); break;
	default: { // Exact memory, the sanitizer sees reading behind it
		std::vector<char> exact(data.begin(), data.end());
		buffer += std::span<const char>(exact.data(), exact.size());
		h.count("spans");
	}
	}
	h.sign(std::to_string(data.size()));
	return data;
}

template <typename B>
void expanding(H& h, size_t capacity, const char* name) {
	auto buffer = std::make_unique<B>(); // In exactly allocated memory
	GeneralisedBuffer& general = *buffer;
	std::string expected;
	h.sign(name); h.sign(std::to_string(capacity));
	for (int n = int(h.rng.range(1, 12)); n > 0; n--) {
		expected += writeSomething(h, general, capacity, expected.size());
		h.check(general.size() == int64_t(expected.size()), "wrong-size", [&] { return std::string(name) + std::to_string(capacity) + ": " + std::to_string(general.size()) + " instead of " + std::to_string(expected.size()); });
		std::string_view view = *const_cast<const B*>(buffer.get());
		std::span<char> span = *buffer;
		h.check(view == expected && std::string_view(span.data(), span.size()) == expected, "wrong-contents", [&] {
			return std::string(name) + std::to_string(capacity) + ": holds " + std::to_string(view.size()) + " bytes (" + std::to_string(span.size()) + " as span), expected " + std::to_string(expected.size()); });
		if (!expected.empty() && h.rng.chance(30)) { // Contents may be altered in place, as the size fields are
			size_t at = h.rng.below(expected.size());
			span[at] = expected[at] = char(h.rng.next());
		}
		if (h.rng.chance(15)) {
			buffer->clear();
			expected.clear();
			h.count("cleared");
			h.sign("c");
			h.check(general.size() == 0 && std::string_view(*buffer).empty(), "not-cleared", "contents or size left after clear()");
		}
	}
	h.count("bytes", expected.size());
}

template <int N>
void fixed(H& h) {
	auto buffer = std::make_unique<NonExpandingBuffer<N>>();
	GeneralisedBuffer& general = *buffer;
	std::string expected;
	bool overfull = false;
	h.sign("fixed"); h.sign(std::to_string(N));
	for (int n = int(h.rng.range(1, 12)); n > 0; n--) {
		expected += writeSomething(h, general, N, expected.size());
		if (expected.size() > N) { expected.resize(N); overfull = true; }
		h.check(general.size() == int64_t(expected.size()), "wrong-size", [&] { return "fixed " + std::to_string(N) + ": " + std::to_string(general.size()) + " instead of " + std::to_string(expected.size()); });
		std::string_view view = *const_cast<const NonExpandingBuffer<N>*>(buffer.get());
		std::span<char> span = *buffer;
		h.check(view == expected && std::string_view(span.data(), span.size()) == expected, "wrong-contents", [&] { return "fixed " + std::to_string(N) + ": holds other bytes"; });
		if (h.rng.chance(15)) {
			buffer->clear();
			expected.clear();
			h.count("cleared");
			h.check(general.size() == 0 && std::string_view(*buffer).empty(), "not-cleared", "contents or size left after clear()");
		}
	}
	if (overfull) h.count("overfull");
}

struct OwnFlushing { // A buffer made the way the library's own ones are
	std::string out;
	template <int N> struct Buffer : StreamingBuffer<N> {
		OwnFlushing& owner;
		explicit Buffer(OwnFlushing& o) : owner(o) {}
		void flush() override {
			if (this->size() > this->_sizeAtLastFlush) {
				owner.out.append(this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush));
				this->_sizeAtLastFlush = this->size();
				this->moveBuffer({this->_basic.data(), size_t(N)});
			}
		}
		~Buffer() { flush(); }
	};
};

template <int N>
void streaming(H& h) {
	std::string got, expected;
	int pieces = 0, empty = 0, large = 0;
	h.sign("streaming"); h.sign(std::to_string(N));
	auto sink = [&] (const std::span<const char>& piece) {
		pieces++;
		if (piece.empty()) empty++;
		if (piece.size() > N) large++;
		got.append(piece.data(), piece.size());
	};
	auto state = [&] { return "streaming " + std::to_string(N) + ": delivered " + std::to_string(got.size()) + " of " + std::to_string(expected.size()) + " bytes in " + std::to_string(pieces) + " pieces"; };
	{
		NonOwningStreamingBuffer<N> buffer{sink};
		GeneralisedBuffer& general = buffer;
		for (int n = int(h.rng.range(0, 12)); n > 0; n--) {
			expected += writeSomething(h, general, N, expected.size());
			h.check(general.size() == int64_t(expected.size()), "wrong-size", [&] { return "size() is " + std::to_string(general.size()) + ", " + state(); });
			h.check(got.size() <= expected.size() && expected.compare(0, got.size(), got) == 0, "wrong-stream", state);
			h.check(expected.size() - got.size() <= N, "too-much-kept", state);
			if (h.rng.chance(20)) {
				buffer.flush();
				h.count("flushed");
				h.sign("f");
				h.check(got == expected, "left-behind-after-flush", state);
				if (h.rng.chance(30)) buffer.flush();
			}
		}
	}
	h.check(got == expected, "left-behind-after-end", state);
	h.check(!empty, "empty-piece", state);
	h.check(!large, "piece-larger-than-buffer", state);
	h.count("pieces", pieces);
	h.count("streams");

	OwnFlushing own;
	expected.clear();
	{
		typename OwnFlushing::template Buffer<N> buffer(own);
		for (int n = int(h.rng.range(0, 8)); n > 0; n--) {
			expected += writeSomething(h, static_cast<GeneralisedBuffer&>(buffer), N, expected.size());
			h.check(own.out.size() <= expected.size() && expected.compare(0, own.out.size(), own.out) == 0, "wrong-stream", "derived from StreamingBuffer");
			if (h.rng.chance(20)) { buffer.flush(); h.check(own.out == expected, "left-behind-after-flush", "derived from StreamingBuffer"); }
		}
		h.check(buffer.size() == int64_t(expected.size()), "wrong-size", "derived from StreamingBuffer");
	}
	h.check(own.out == expected, "left-behind-after-end", "derived from StreamingBuffer");
}

template <int N>
void each(H& h, int kind) {
	if (kind == 0) expanding<ExpandingBuffer<N>>(h, N, "expanding");
	else if (kind == 1) expanding<ExpandingBuffer<N, std::vector<char>>>(h, N, "expanding vector");
	else if (kind == 2) fixed<N>(h);
	else streaming<N>(h);
}

void runCase(H& h) {
	int kind = int(h.rng.below(5));
	switch (h.caseNo % 8) {
	case 0: each<1>(h, kind); break;
	case 1: each<2>(h, kind); break;
	case 2: each<3>(h, kind); break;
	case 3: each<7>(h, kind); break;
	case 4: each<16>(h, kind); break;
	case 5: each<100>(h, kind); break;
	case 6: each<1024>(h, kind); break;
	default: each<4096>(h, kind);
	}
	h.sample(h.signature);
}
