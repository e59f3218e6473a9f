// C26: binary requests made by an independent encoder, fed in segments
#include "rpc_model.hpp"
#include "http_model.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;

namespace {
template <typename SizeType> void putNumber(std::string& s, uint64_t v, size_t size) { for (size_t i = 0; i < size; i++) s += char(uint8_t(v >> (8 * i))); }

struct Request {
	std::string text, response, what;
	int id = 0; // Procedure
	bool good = true, executed = true;
	std::function<void(H&, const Rpc::Invocation&)> verify;
};

template <typename SizeType, int Depth>
void test(H& h) {
	using Server = BinaryProtocolServer<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth>;
	Rpc::World& w = *Rpc::world;
	w.retSeed = h.rng.next();
	if (sizeof(SizeType) == 1) w.limits = h.rng.chance(70) ? FillLimits{20, 1, 3} : FillLimits{400, 2, 4};
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, Depth)), 4);
	if (tree.wide) h.count("wide_objects");
	Server server(*tree.root);
	auto makeFrame = [&] (uint32_t id, const std::string& contents, int64_t sizeOffset = 0) {
		std::string r;
		putNumber<SizeType>(r, id, 4);
		putNumber<SizeType>(r, uint64_t(int64_t(contents.size() + 4 + sizeof(SizeType)) + sizeOffset), sizeof(SizeType));
		return r + contents;
	};
	const uint64_t most = std::numeric_limits<SizeType>::max();
	std::vector<Request> requests;
	std::string stream;
	std::vector<size_t> starts;
	int count = int(h.rng.size(5, 20)) + 1;
	size_t executions = 0;
	bool closing = h.rng.chance(40);
	int failing = -1;
	for (int i = 0; i < count; i++) {
		Request q;
		auto& leaf = h.rng.pick(tree.leaves);
		uint32_t id = h.rng.chance(50) ? uint32_t(i) : uint32_t(h.rng.next());
		bool bad = closing && i == count - 1;
		int badness = bad ? int(h.rng.below(7)) : -1;
		if (badness == 3 && tree.wide) badness = 0; // Most indexes exist
		bool fits = true;
		Rpc::withProcedure(leaf.id, [&] <typename P> () {
			auto args = std::make_shared<typename P::Args>();
			Rpc::fillArgs(h.rng, *args, w.limits);
			BinaryModel<SizeType> in, out;
			for (int index : leaf.indexes) in.out += char(index);
			size_t pathSize = in.out.size();
			std::apply([&] (auto&... a) { (in.encode(a), ...); }, *args);
			if constexpr (!std::is_void_v<typename P::Ret>) out.encode(Rpc::returned<typename P::Ret>(w, executions));
			fits = in.fits && in.out.size() + 4 + sizeof(SizeType) <= most;
			bool resultFits = out.fits && out.out.size() + 4 + sizeof(SizeType) <= most;
			q.what = "procedure " + std::to_string(P::id) + Rpc::showAll(*args);
			q.id = P::id;
			q.verify = [args, what = q.what] (H& h, const Rpc::Invocation& call) {
				h.check(call.id == P::id, "other-procedure", [&] { return std::to_string(call.id) + " was executed instead of " + what; });
				auto& got = *static_cast<typename P::Args*>(call.args.get());
				h.check(Rpc::sameAll(got, *args), "other-arguments", [&] { return what + "\nwas executed with " + Rpc::showAll(got); });
			};
			q.text = makeFrame(id, in.out);
			q.response = makeFrame(id, out.out);
			if (badness >= 0) q.good = false;
			if (badness == 0) { // Size smaller than the header
				q.text = makeFrame(id, in.out, -int64_t(in.out.size()) - h.rng.range(1, 4 + sizeof(SizeType)));
				q.executed = false;
			} else if (badness == 1) { // Size ending inside of the path or arguments, what follows would complete it
				if (in.out.empty()) { q.text = makeFrame(id, "", -1); q.executed = false; }
				else { q.text = makeFrame(id, in.out, -h.rng.range(1, int64_t(in.out.size()))); q.executed = false; }
			} else if (badness == 2) { // Arguments missing
				if (in.out.size() > pathSize) { q.text = makeFrame(id, in.out.substr(0, h.rng.range(pathSize, in.out.size() - 1))); q.executed = false; }
				else { q.text = makeFrame(id, in.out, -int64_t(in.out.size()) - 1); q.executed = false; }
			} else if (badness == 3) { // No such procedure
				std::string path = in.out;
				size_t at = h.rng.below(pathSize);
				uint8_t wrong = uint8_t(h.rng.chance(50) ? 255 : h.rng.range(100, 255));
				path[at] = char(wrong);
				q.text = makeFrame(id, path);
				q.executed = false;
			} else if (badness >= 4) { // Throws
				q.executed = true;
				int kind = badness;
				w.before = [&w, kind, executions] (int) {
					if (w.calls.size() != executions + 1) return;
					if (kind == 4) throw std::runtime_error("failed");
					if (kind == 5) throw 13;
					throw std::bad_alloc();
				};
			} else if (!resultFits) {
				q.good = false;
				h.count("result_too_big");
			}
		});
		if (!fits) continue;
		h.sign(q.text);
		starts.push_back(stream.size());
		stream += q.text;
		if (q.executed) executions++;
		requests.push_back(q);
		if (!q.good) { failing = int(requests.size()) - 1; break; }
	}
	if (requests.empty()) { h.nontrivial = false; return; }
	size_t meaningful = stream.size();
	size_t good = failing >= 0 ? size_t(failing) : requests.size();
	if (failing >= 0) { // What follows must not be acted upon
		for (int n = int(h.rng.range(0, 3)); n > 0; n--) stream += h.rng.pick(requests).text;
	}
	std::string expected;
	std::vector<size_t> ends;
	for (size_t i = 0; i < good; i++) { expected += requests[i].response; ends.push_back(starts[i] + requests[i].text.size()); }
	if (failing >= 0 && requests[failing].executed) ends.push_back(starts[failing] + requests[failing].text.size());
	auto cuts = randomCuts(h.rng, stream.size(), starts);
	auto session = server.getSession();
	auto outcome = feedSegments(session, stream, cuts, [&] (FeedOutcome& o, size_t arrived) {
		size_t complete = 0;
		while (complete < ends.size() && ends[complete] <= arrived) complete++;
		size_t executed = w.calls.size();
		h.check(executed == complete, executed > complete ? "executed-before-complete" : "not-executed", [&] {
			return std::to_string(executed) + " executed after " + std::to_string(arrived) + " bytes containing " + std::to_string(complete) + " requests, then " + requests[std::min(executed, requests.size() - 1)].what; });
		if (failing < 0 || arrived < starts[failing]) {
			size_t bytes = 0;
			for (size_t i = 0; i < std::min(complete, good); i++) bytes += requests[i].response.size();
			h.check(o.output.size() == bytes, "response-late", [&] { return std::to_string(o.output.size()) + " instead of " + std::to_string(bytes); });
		}
		h.count("segments");
	});
	auto last = [&] { return requests.back().what + (failing >= 0 ? " (should close)" : "") + "\nsent " + hex(stream, 200); };
	h.check(outcome.problem.empty(), "responder", [&] { return outcome.problem + " " + last(); });
	h.check(w.calls.size() == executions, "execution-count", [&] { return std::to_string(w.calls.size()) + " instead of " + std::to_string(executions) + " " + last(); });
	for (size_t i = 0, n = 0; i < requests.size(); i++) if (requests[i].executed) requests[i].verify(h, w.calls[n++]);
	h.check(outcome.output == expected, "other-output", [&] { return hex(outcome.output) + "\ninstead of " + hex(expected) + "\n" + last(); });
	h.check(outcome.disconnected == (failing >= 0), failing >= 0 ? "not-closed" : "closed", last);
	if (failing < 0) h.check(outcome.consumed == meaningful, "consumed-count", last);
	h.count("requests", int64_t(good));
	h.count("size_type_" + std::to_string(8 * sizeof(SizeType)), int64_t(good));
	if (failing >= 0) h.count("closed");
	h.sample(hex(stream, 150) + " -> " + hex(outcome.output, 150));
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	switch (h.rng.below(4)) {
	case 0: test<uint16_t, 3>(h); break;
	case 1: test<uint32_t, 4>(h); break;
	case 2: test<uint8_t, 3>(h); break;
	default: test<uint16_t, 5>(h);
	}
	Rpc::world = nullptr;
}
