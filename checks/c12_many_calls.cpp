// C12, C13: responses left unread while very many other calls are done through the same connection
#include "tcp_world.hpp"
#include "rpc_model.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_sync_client.hpp"
using namespace Bomba;

namespace {
struct Counting : RpcObject<Counting> {
	int64_t executed = 0;
	RpcMember<[] (Counting* self, uint32_t value = name("value"), std::string text = name("text")) -> std::string {
		self->executed++;
		return text + std::to_string(value * 2654435761u);
	}> mix = child<"mix">;
	RpcMember<[] (Counting* self, bool value = name("value")) -> bool { self->executed++; return !value; }> negate = child<"negate">;
};

std::string expected(uint32_t value, const std::string& text) { return text + std::to_string(value * 2654435761u); }

void run(H& h, Counting& client, Counting& server, const char* protocol, int calls) {
	struct Held { uint32_t value; std::string text; int since; std::unique_ptr<Future<std::string>> future; };
	std::vector<Held> held;
	auto take = [&] (size_t i, int now) {
		std::string got = held[i].future->get();
		h.check(got == expected(held[i].value, held[i].text), "other-result", [&] {
			return std::string(protocol) + ": a call made after " + std::to_string(held[i].since) + " others and taken after " + std::to_string(now) + " got " + jsonQuote(got) + " instead of " + jsonQuote(expected(held[i].value, held[i].text)); });
		h.maximum("calls_between", now - held[i].since);
		held.erase(held.begin() + int64_t(i));
	};
	int64_t made = 0;
	for (int i = 0; i < calls; i++) {
		if ((held.size() < 8 && h.rng.chance(30) && i < 300) || h.rng.below(20000) == 0) {
			Held a{uint32_t(h.rng.next()), randomText(h.rng, 30), i, nullptr};
			a.future.reset(new Future<std::string>(client.mix.async(a.value, a.text)));
			held.push_back(std::move(a));
		} else if (!held.empty() && h.rng.below(20000) == 0) { take(h.rng.below(held.size()), i); continue; }
		else if (h.rng.chance(50)) {
			uint32_t value = uint32_t(h.rng.next());
			std::string got = client.mix(value, "t");
			h.check(got == expected(value, "t"), "other-result", [&] { return std::string(protocol) + ": call " + std::to_string(i) + " with " + std::to_string(held.size()) + " unread got " + jsonQuote(got) + " instead of " + jsonQuote(expected(value, "t")); });
		} else {
			bool value = h.rng.chance(50), got = client.negate(value);
			h.check(got == !value, "other-result", [&] { return std::string(protocol) + ": call " + std::to_string(i); });
		}
		made++;
	}
	while (!held.empty()) take(h.rng.below(held.size()), calls);
	h.check(server.executed == made && !client.executed, "execution-count", [&] { return std::string(protocol) + ": " + std::to_string(server.executed) + " executions of " + std::to_string(made) + " calls"; });
	h.count(std::string("long_calls_") + protocol, made);
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	Counting client, server;
	h.sign(std::to_string(h.rng.next()));
	int calls = int(h.rng.range(66500, 69000)) + (h.thorough ? int(h.rng.below(100000)) : 0);
	int port = 0;
	switch (h.caseNo % 4) {
	case 0: {
		BinaryProtocolServer<> responder(server);
		Rpc::MemoryConnection connection(h, responder.getSession());
		BinaryProtocolClient<> rpc(client, connection);
		run(h, client, server, "binary_memory", calls);
		break;
	}
	case 1: {
		BinaryProtocolServer<uint32_t> responder(server);
		auto running = Tcp::startServer([&] (int p) { return std::make_unique<BackgroundTcpServer<BinaryProtocolServer<uint32_t>>>(responder, p); }, port);
		SyncNetworkClient network("127.0.0.1", std::to_string(port));
		BinaryProtocolClient<uint32_t> rpc(client, network);
		run(h, client, server, "binary_network", calls);
		break;
	}
	case 2: {
		JsonRpcServer<> responder(server);
		Rpc::MemoryConnection connection(h, responder.getSession());
		JsonRpcClient<> rpc(client, connection, "example.com");
		run(h, client, server, "json_memory", calls);
		break;
	}
	default: {
		JsonRpcServer<> responder(server);
		auto running = Tcp::startServer([&] (int p) { return std::make_unique<BackgroundTcpServer<JsonRpcServer<>>>(responder, p); }, port);
		SyncNetworkClient network("127.0.0.1", std::to_string(port));
		JsonRpcClient<> rpc(client, network, "example.com");
		run(h, client, server, "json_network", calls);
	}
	}
	Rpc::world = nullptr;
}
