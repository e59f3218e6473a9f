// C10: the receive buffer of a connection against a model of received and not yet consumed bytes
#include <sanitizer/asan_interface.h>
#include "alloc.hpp"
#include "hostile.hpp"
#include <mutex>
#include <thread>
#include <array>
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;

namespace {
struct Protocol : ITcpServerSession {
	H& h;
	std::string unconsumed; // The model
	uint64_t received = 0, consumedTotal = 0;
	int64_t parsed = 0, notified = 0, fed = 0;
	int mode = 0;
	bool willDisconnect = false, disconnected = false;
	int64_t messageSize = 0; // The protocol waits until it has all of a message
	int64_t small = 0, large = 0;
	explicit Protocol(H& h) : h(h) {}
	int64_t nextSize() {
		switch (mode) {
		case 0: return h.rng.range(1, small);
		case 1: return h.rng.chance(80) ? h.rng.range(1, small) : h.rng.range(1, large);
		case 2: return h.rng.chance(50) ? std::array<int64_t, 8>{2047, 2048, 2049, 3071, 3072, 3073, 6144, 1024}[h.rng.below(8)] : h.rng.range(1, 4000);
		default: return h.rng.range(1, large);
		}
	}
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
		fed++;
		std::string_view offered(data.data(), data.size());
		h.check(!disconnected, "fed-after-disconnect");
		h.check(offered.size() == unconsumed.size(), "size-offered", [&] { return std::to_string(offered.size()) + " bytes offered, " + std::to_string(unconsumed.size()) + " were received and not consumed; " + state(); });
		h.check(offered == unconsumed, "bytes-offered", [&] {
			size_t at = 0;
			while (offered[at] == unconsumed[at]) at++;
			return "difference at byte " + std::to_string(at) + " of " + std::to_string(offered.size()) + "; " + state();
		});
		h.maximum("unconsumed", int64_t(unconsumed.size()));
		if (!messageSize) messageSize = nextSize();
		if (int64_t(offered.size()) < messageSize) {
			h.count("waited_for_more");
			return {ServerReaction::READ_ON, int(h.rng.chance(50) ? 0 : h.rng.below(offered.size() + 1))}; // The number has no meaning there
		}
		if (willDisconnect && h.rng.chance(3)) { disconnected = true; h.count("disconnected"); return {ServerReaction::DISCONNECT, 0}; }
		int64_t size = messageSize;
		messageSize = 0;
		unconsumed.erase(0, size_t(size));
		consumedTotal += uint64_t(size);
		parsed++;
		if (!unconsumed.empty()) h.count("partially_consumed");
		return {ServerReaction::OK, int(size)};
	}
	void notifyMessageWasParsed() override { notified++; }
	std::string state() { return "received " + std::to_string(received) + ", consumed " + std::to_string(consumedTotal) + ", messages " + std::to_string(parsed); }
};
}

void runCase(H& h) {
	Protocol protocol(h);
	protocol.mode = int(h.rng.below(4));
	protocol.small = std::array<int64_t, 5>{1, 10, 100, 1000, 3000}[h.rng.below(5)];
	protocol.large = std::array<int64_t, 5>{2048, 3072, 7000, 20000, 60000}[h.rng.below(5)];
	if (h.thorough && h.rng.chance(2)) protocol.large = 500000;
	protocol.willDisconnect = h.rng.chance(30);
	int arrivals = int(h.rng.below(5));
	h.sign(std::to_string(protocol.mode) + "," + std::to_string(arrivals));
	int64_t before = Alloc::live;
	int64_t peak = 0; // Most unconsumed bytes since the last time there were few of them
	{
		TcpServerBuffer buffer;
		int rounds = int(h.rng.range(1, h.thorough ? 200 : 60));
		for (int i = 0; i < rounds; i++) {
			std::span<char> space = buffer.space();
			h.check(!space.empty(), "no-space", [&] { return "nothing can be received: " + protocol.state(); });
			h.check(!__asan_region_is_poisoned(space.data(), space.size()), "space-outside-buffer", [&] {
				return "offered " + std::to_string(space.size()) + " bytes that don't belong to the buffer: " + protocol.state(); });
			size_t n = space.size();
			if (arrivals == 1) n = h.rng.range(1, std::min<int64_t>(20, space.size()));
			else if (arrivals == 2) n = h.rng.range(1, space.size());
			else if (arrivals == 3 && h.rng.chance(50)) n = h.rng.range(1, space.size());
			else if (arrivals == 4 && h.rng.chance(30)) n = space.size() - std::min<size_t>(space.size() - 1, h.rng.below(3));
			for (size_t j = 0; j < space.size(); j++) { // A socket may be given all of it
				space[j] = j < n ? char(h.rng.next()) : char(0xa5);
			}
			bool ended = h.rng.chance(1);
			if (ended) {
				bool error = h.rng.chance(50);
				int64_t fed = protocol.fed;
				bool more = buffer.receive(protocol, error ? std::make_error_code(std::errc::connection_reset) : std::error_code(), error ? int(h.rng.below(n)) : 0);
				h.check(!more, "continues-after-end");
				h.check(protocol.fed == fed, "fed-after-end");
				h.count("ended");
				break;
			}
			protocol.unconsumed.append(space.data(), n);
			protocol.received += n;
			h.count("blocks");
			h.count("bytes", int64_t(n));
			h.sign(std::to_string(n));
			peak = std::max<int64_t>(peak, int64_t(protocol.unconsumed.size()));
			bool more = buffer.receive(protocol, {}, int(n));
			h.check(more == !protocol.disconnected, "continuation", [&] { return std::string(more ? "expects more" : "does not expect more") + " after " + (protocol.disconnected ? "closing" : "success"); });
			h.check(protocol.notified == protocol.parsed, "notified", [&] { return std::to_string(protocol.notified) + " notifications of " + std::to_string(protocol.parsed) + " messages"; });
			if (!more) break;
			// What could be consumed was consumed
			h.check(protocol.messageSize ? int64_t(protocol.unconsumed.size()) < protocol.messageSize : protocol.unconsumed.empty(), "left-waiting", [&] {
				return std::to_string(protocol.unconsumed.size()) + " bytes were not offered; " + protocol.state(); });
			if (protocol.unconsumed.size() < 1000) { if (peak > 3072) h.count("shrunk_after_long"); peak = int64_t(protocol.unconsumed.size()); }
			int64_t used = Alloc::live - before - int64_t(protocol.unconsumed.capacity() + 64 + (1 << 14)); // The model and bookkeeping
			h.check(used <= 4 * peak + 16384, "memory", [&] { return std::to_string(used) + " bytes kept for at most " + std::to_string(peak) + " bytes recently unconsumed"; });
			if (peak > 3072) h.count("long_messages");
		}
	}
	if (h.wantSample) h.sample("mode " + std::to_string(protocol.mode) + ", arrivals " + std::to_string(arrivals) + ", sizes " + jsonQuote(h.signature, 300) + "; " + protocol.state());
}
