// Buffers with more contents than an int can count
#include "harness.hpp"
#include "bomba_core.hpp"
#include <sys/mman.h>
using namespace Bomba;

void runCase(H& h) {
	const int64_t big = (int64_t(1) << 31) + 12345 + int64_t(h.rng.below(5000));
	if (h.caseNo % 3 != 2) { // Streaming: one huge block or many
		int64_t got = 0, wrong = 0;
		bool oneBlock = h.caseNo % 3 == 0;
		auto sink = [&] (const std::span<const char>& piece) {
			for (size_t i = 0; i < piece.size(); i += 509) if (piece[i] != (got + int64_t(i) < 100 ? 'a' : 0)) wrong++;
			got += int64_t(piece.size());
		};
		int64_t expected = 100;
		{
			auto owner = std::make_unique<NonOwningStreamingBuffer<1 << 18>>(sink);
			auto& buffer = *owner;
			buffer += std::string_view(std::string(100, 'a'));
			if (oneBlock) {
				void* zeros = mmap(nullptr, size_t(big), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (zeros == MAP_FAILED) h.fail("harness", "mmap failed");
				buffer += std::span<const char>(static_cast<char*>(zeros), size_t(big));
				munmap(zeros, size_t(big));
				expected += big;
			} else {
				std::string block(999983, 0);
				while (expected < big) { buffer += std::string_view(block); expected += block.size(); }
			}
			h.check(buffer.size() == expected, "wrong-size-of-huge", [&] { return std::to_string(buffer.size()) + " instead of " + std::to_string(expected); });
		}
		h.check(got == expected && !wrong, "huge-stream-differs", [&] { return "delivered " + std::to_string(got) + " of " + std::to_string(expected) + ", " + std::to_string(wrong) + " wrong"; });
		h.count("huge_streams");
	} else {
		ExpandingBuffer<1024> buffer;
		std::string block(99999989, 'q');
		int64_t expected = 0;
		while (expected < big) { buffer += std::string_view(block); expected += block.size(); }
		buffer += 'r';
		std::string_view view = buffer;
		h.check(buffer.size() == expected + 1 && int64_t(view.size()) == expected + 1 && view.back() == 'r' && view[expected / 2] == 'q', "huge-buffer-differs",
				[&] { return std::to_string(buffer.size()) + " / " + std::to_string(view.size()) + " instead of " + std::to_string(expected + 1); });
		h.count("huge_buffers");
	}
	h.sign(std::to_string(h.caseNo));
}
