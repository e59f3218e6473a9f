// C13: calls through a client and a server behave as local ones and are executed exactly once
#include "rpc_model.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
using namespace Bomba;

namespace {
const FillLimits limits{60, 3, 6};

void perform(H& h, Rpc::Tree& client, Rpc::Tree& server, const char* protocol, bool forms, int64_t maxDepth) {
	Rpc::World& w = *Rpc::world;
	std::vector<size_t> usable;
	for (size_t i = 0; i < server.leaves.size(); i++) {
		if (int64_t(server.leaves[i].path.size()) > maxDepth) continue;
		bool ok = true;
		if (forms) Rpc::withProcedure(server.leaves[i].id, [&] <typename P> () { ok = Rpc::formable<P>(); });
		if (forms) for (auto& name : server.leaves[i].path) for (unsigned char c : name) if (c <= ' ' || c > 126) ok = false; // The path is a part of the URL
		if (ok) usable.push_back(i);
	}
	if (usable.empty()) { h.nontrivial = false; h.count("nothing_usable"); return; }
	int rounds = int(h.rng.range(1, 4));
	for (int round = 0; round < rounds; round++) {
		w.calls.clear();
		w.retSeed = h.rng.next();
		bool async = h.rng.chance(50);
		int count = async ? int(h.rng.range(1, 6)) : 1;
		std::vector<Rpc::Pending> pending;
		std::string doing;
		try {
			for (int i = 0; i < count; i++) {
				size_t leaf = h.rng.pick(usable);
				Rpc::withProcedure(server.leaves[leaf].id, [&] <typename P> () {
					doing = "procedure " + std::to_string(P::id);
					pending.push_back(Rpc::startCall<P>(h, *static_cast<typename P::Object*>(client.leaves[leaf].object), server.leaves[leaf].object, async, limits));
				});
				doing = pending.back().text;
				h.sign(protocol + pending.back().text);
				h.sample(std::string(protocol) + (async ? " async " : " ") + pending.back().text);
			}
			std::vector<size_t> order;
			for (size_t i = 0; i < pending.size(); i++) order.push_back(i);
			for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[h.rng.below(j)]);
			for (auto i : order) {
				doing = pending[i].text;
				if (h.rng.chance(30)) { bool ready = pending[h.rng.below(pending.size())].ready(); h.count(ready ? "ready" : "not_ready"); }
				pending[i].take();
				if (h.rng.chance(20)) { h.check(pending[i].ready(), "done-but-not-ready"); pending[i].take(); } // The same again
			}
		} catch (ViolationFound&) {
			throw;
		} catch (std::exception& e) {
			h.fail("call-failed", std::string(protocol) + " " + doing + " ended by " + e.what() + "\ntree " + server.text);
		}
		h.check(w.calls.size() == pending.size(), "execution-count", [&] { return std::string(protocol) + ": " + std::to_string(w.calls.size()) + " executions of " + std::to_string(pending.size()) + " calls, last " + doing; });
		for (size_t i = 0; i < pending.size(); i++) {
			pending[i].verifyExecution(h, w.calls[i]);
			pending[i].verifyResult(h, i);
		}
		h.count(std::string("calls_") + protocol, int64_t(pending.size()));
		h.count(async ? "calls_async" : "calls_sync", int64_t(pending.size()));
	}
}

template <typename SizeType, int Depth>
void binary(H& h, Rpc::Tree& client, Rpc::Tree& server, const char* name) {
	BinaryProtocolServer<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth> responder(*server.root);
	Rpc::MemoryConnection connection(h, responder.getSession());
	BinaryProtocolClient<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth> rpcClient(*client.root, connection);
	perform(h, client, server, name, false, Depth);
}

// The binary protocol identifies members by one byte
void veryWide(H& h) {
	int count = int(h.rng.range(257, 520));
	auto make = [] (int index, int* executed, int* value) {
		return [index, executed, value] (int given = name("value")) { *executed = index; *value = given; };
	};
	using Leaf = RpcLambda<decltype(make(0, nullptr, nullptr))>;
	int executed = -1, value = 0, local = -1;
	std::vector<std::unique_ptr<Leaf>> clientLeaves, serverLeaves;
	DynamicRpcObject client, server;
	for (int i = 0; i < count; i++) {
		clientLeaves.push_back(std::make_unique<Leaf>(make(i, &local, &value)));
		serverLeaves.push_back(std::make_unique<Leaf>(make(i, &executed, &value)));
		client.add("m" + std::to_string(i), RpcLambdaHolder::nonOwning(*clientLeaves[i]));
		server.add("m" + std::to_string(i), RpcLambdaHolder::nonOwning(*serverLeaves[i]));
	}
	auto test = [&] (bool limited) {
		for (int n = 0; n < 6; n++) {
			int index = h.rng.chance(50) ? int(h.rng.range(250, 260)) : int(h.rng.below(count)), given = int(h.rng.next());
			if (index >= count) index = count - 1;
			executed = local = -1;
			bool failed = false;
			try { (*clientLeaves[index])(given); } catch (std::exception&) { failed = true; }
			if (limited && index > 255)
				h.check(failed && executed == -1, "other-procedure", [&] { return "member " + std::to_string(index) + " that the protocol cannot identify: " + (failed ? "failed" : "succeeded") + ", member " + std::to_string(executed) + " executed"; });
			else
				h.check(!failed && executed == index && value == given, "other-procedure", [&] { return "member " + std::to_string(index) + " of " + std::to_string(count) + (failed ? " failed" : "") + ", member " + std::to_string(executed) + " executed"; });
			h.check(local == -1, "executed-by-client");
			h.count(index > 255 ? "very_wide_far" : "very_wide_near");
		}
	};
	h.sign("wide" + std::to_string(count) + (h.rng.chance(50) ? "a" : "b"));
	if (h.rng.chance(60)) {
		BinaryProtocolServer<> responder(server);
		Rpc::MemoryConnection connection(h, responder.getSession());
		BinaryProtocolClient<> rpcClient(client, connection);
		test(true);
	} else {
		JsonRpcServer<> responder(server);
		Rpc::MemoryConnection connection(h, responder.getSession());
		JsonRpcClient<> rpcClient(client, connection, "example.com");
		test(false);
	}
}
}

void calls(H& h);

// Programs may make calls also while their global variables are being initialised
namespace {
const std::string madeAtStart = [] () -> std::string {
	H h;
	h.rng = Rng(13);
	try {
		for (int i = 0; i < 60; i++) calls(h);
	} catch (std::exception& e) {
		return std::string(e.what());
	}
	return h.counters["calls_json"] && h.counters["calls_form"] && h.counters["calls_binary"] ? "" : "too few calls";
}();
}

void runCase(H& h) {
	h.check(madeAtStart.empty(), "calls-while-initialising", [&] { return madeAtStart; });
	calls(h);
}
void calls(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	if (h.rng.below(500) == 0) {
		veryWide(h);
		Rpc::world = nullptr;
		return;
	}
	uint64_t seed = h.rng.next();
	int protocol = int(h.rng.below(5));
	int depth = int(h.rng.range(1, 4));
	Rpc::Tree client(seed, depth, 3), server(seed, depth, 3);
	if (server.wide) h.count("wide_objects");
	if (protocol == 0) binary<uint16_t, 3>(h, client, server, "binary");
	else if (protocol == 1) binary<uint32_t, 6>(h, client, server, "binary32");
	else if (protocol <= 3) {
		JsonRpcServer<> responder(*server.root);
		Rpc::MemoryConnection connection(h, responder.getSession());
		JsonRpcClient<> rpcClient(*client.root, connection, "example.com");
		perform(h, client, server, "json", false, 100);
	} else {
		HtmlPostResponder<> post(*server.root);
		struct NoGet : IHttpGetResponder { bool get(std::string_view, IWriteStarter&) override { return false; } } get;
		HttpServer<> responder(get, post);
		Rpc::MemoryConnection connection(h, responder.getSession());
		HttpClient<> http(connection, "example.com");
		client.root->setResponder(http);
		perform(h, client, server, "form", true, 100);
	}
	Rpc::world = nullptr;
}
