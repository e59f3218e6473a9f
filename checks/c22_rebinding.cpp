// C22: calls go to the nearest responder set at the moment of the call, or run locally
#include "rpc_model.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
using namespace Bomba;

namespace {
const FillLimits limits{30, 2, 4};
int executor = -1; // Index of the server that is executing something

// The same procedures under the original names and also inside any number of objects added above
struct Doubled : IRemoteCallable {
	IRemoteCallable& original;
	Doubled(IRemoteCallable& original) : original(original) {}
	const IRemoteCallable* getChild(std::string_view name) const override { return name == "above" ? this : original.getChild(name); }
	const IRemoteCallable* getChild(int index) const override { return original.getChild(index); }
};

template <typename S>
struct TaggedSession {
	S session;
	int index;
	template <typename W>
	auto respond(std::span<char> data, W&& write) {
		executor = index;
		struct Leave { ~Leave() { executor = -1; } } leave;
		return session.respond(data, write);
	}
};
struct Endpoint {
	Rpc::Tree tree;
	int index;
	int64_t sent = 0;
	bool used = false;
	Endpoint(uint64_t seed, int depth, int index) : tree(seed, depth), index(index) {}
	virtual ~Endpoint() = default;
	virtual IRpcResponder& responder() = 0;
};
struct Counting : IRpcResponder {
	IRpcResponder& inner;
	int64_t& sent;
	Counting(IRpcResponder& inner, int64_t& sent) : inner(inner), sent(sent) {}
	RequestToken send(UserId user, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override { sent++; return inner.send(user, method, request); }
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override { return inner.getResponse(token, reader); }
	bool hasResponse(RequestToken token) override { return inner.hasResponse(token); }
};
template <typename Server, typename Client, bool Virtual>
struct Connected : Endpoint {
	Doubled root;
	Server server;
	using Session = decltype(std::declval<Server&>().getSession());
	Rpc::MemoryConnection<TaggedSession<Session>> connection;
	DynamicRpcObject unused;
	Client client;
	std::optional<Counting> counting;
	static Client makeClient(IRemoteCallable& callable, ITcpClient& tcp) {
		if constexpr (Virtual) return Client(callable, tcp, "example.com");
		else return Client(callable, tcp);
	}
	Connected(H& h, uint64_t seed, int depth, int index) : Endpoint(seed, depth, index), root(*tree.root), server(root),
			connection(h, TaggedSession<Session>{server.getSession(), index}), client(makeClient(unused, connection)) { counting.emplace(client, sent); }
	IRpcResponder& responder() override { return *counting; }
};
template <typename Size> using BinaryServer = BinaryProtocolServer<Size, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, 6>;
template <typename Size> using BinaryClient = BinaryProtocolClient<Size, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, 6>;
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	executor = -1;
	std::vector<int> executors;
	w.before = [&] (int) { executors.push_back(executor); };
	uint64_t seed = h.rng.next();
	int depth = int(h.rng.range(1, 4));
	bool wrapping = h.rng.chance(30); // Changes names, the binary protocol does not use names
	struct Layer { DynamicRpcObject* object; int responder; };
	std::vector<std::unique_ptr<DynamicRpcObject>> above; // All the ones that are not parts of others
	std::vector<Layer> layers; // Everything above the tree, from the nearest one
	Rpc::Tree client(seed, depth);
	std::vector<std::unique_ptr<Endpoint>> endpoints;
	auto addEndpoint = [&] {
		int index = int(endpoints.size());
		if (wrapping || h.rng.chance(50)) endpoints.push_back(std::make_unique<Connected<JsonRpcServer<>, JsonRpcClient<>, true>>(h, seed, depth, index));
		else if (h.rng.chance(50)) endpoints.push_back(std::make_unique<Connected<BinaryServer<uint32_t>, BinaryClient<uint32_t>, false>>(h, seed, depth, index));
		else endpoints.push_back(std::make_unique<Connected<BinaryServer<uint16_t>, BinaryClient<uint16_t>, false>>(h, seed, depth, index));
		return index;
	};
	addEndpoint();
	addEndpoint();

	// Everything in the tree by path, with the responder set there
	std::map<std::vector<std::string>, std::pair<IRemoteCallable*, int>> places;
	for (auto& [path, callable] : client.inner) places[path] = {callable, -1};
	for (auto& leaf : client.leaves) places[leaf.path] = {const_cast<IRemoteCallable*>(leaf.callable), -1};
	std::vector<std::vector<std::string>> paths;
	for (auto& [path, place] : places) paths.push_back(path);
	auto nearest = [&] (std::vector<std::string> path) {
		while (true) {
			int found = places.at(path).second;
			if (found >= 0) return found;
			if (path.empty()) {
				for (auto& layer : layers) if (layer.responder >= 0) return layer.responder;
				return -1;
			}
			path.pop_back();
		}
	};

	struct Outstanding { size_t execution; Rpc::Pending pending; int endpoint; };
	std::vector<Outstanding> outstanding;
	struct Expected { int endpoint; Rpc::Pending pending; };
	std::vector<std::vector<Expected>> expected; // By endpoint, in the order of calls; the last one is for local ones
	std::string history = client.text + ": ";
	w.retSeed = h.rng.next();
	auto where = [] (const std::vector<std::string>& path) { std::string r; for (auto& p : path) r += "/" + p; return r.empty() ? std::string("/") : r; };
	// Executions that may be delayed are looked at when their results are known
	std::vector<int64_t> counts(64, 0);
	auto takeOne = [&] (size_t i) {
		auto o = std::move(outstanding[i]);
		outstanding.erase(outstanding.begin() + i);
		history += "get " + o.pending.text.substr(0, 16) + ", ";
		o.pending.take();
		size_t order = 0, seen = 0;
		bool found = false;
		for (; order < w.calls.size() && order < executors.size(); order++) if (executors[order] == o.endpoint && seen++ == o.execution) { found = true; break; }
		h.check(found, "not-executed-there", [&] { return o.pending.text + " by " + std::to_string(o.endpoint) + "\n" + history; });
		o.pending.verifyExecution(h, w.calls[order]);
		o.pending.verifyResult(h, order);
	};
	try {
		int steps = int(h.rng.range(3, h.thorough ? 40 : 20));
		for (int step = 0; step < steps; step++) {
			int what = int(h.rng.below(10));
			if (what < 4) { // Something is set
				int to = h.rng.chance(15) && endpoints.size() < 8 ? addEndpoint() : int(h.rng.below(endpoints.size()));
				if (!endpoints[to]) continue;
				if (!layers.empty() && h.rng.chance(20)) {
					auto& layer = h.rng.pick(layers);
					layer.object->setResponder(endpoints[to]->responder());
					layer.responder = to;
					history += "set above" + std::to_string(&layer - &layers[0]) + " to " + std::to_string(to) + ", ";
				} else {
					auto& path = h.rng.chance(50) ? h.rng.pick(paths) : client.inner[h.rng.below(client.inner.size())].first;
					places[path].first->setResponder(endpoints[to]->responder());
					places[path].second = to;
					history += "set " + where(path) + " to " + std::to_string(to) + ", ";
				}
				h.count("responders_set");
			} else if (what == 4) {
				// Being put into something starts anew
				if (!wrapping) continue;
				above.push_back(std::make_unique<DynamicRpcObject>());
				auto& made = above.back();
				int how = layers.empty() ? 0 : int(h.rng.below(4));
				if (how == 0) { // The tree becomes a part of it, possibly leaving another
					made->add("above", RpcLambdaHolder::nonOwning(*client.root));
					places[{}].second = -1;
					h.count(layers.empty() ? "wrapped" : "rewrapped");
					if (h.rng.chance(50)) above.erase(above.begin(), above.end() - 1);
					layers = {{above.back().get(), -1}};
					history += "wrapped, ";
				} else if (how == 1) { // What the tree is in becomes a part of it
					made->add("above", RpcLambdaHolder::nonOwning(*layers.back().object));
					layers.back().responder = -1;
					layers.push_back({made.get(), -1});
					history += "outer, ";
					h.count("wrapped_outer");
				} else if (how == 2) { // The same, but moved
					made->add("above", std::move(*layers.back().object));
					layers.back() = {const_cast<DynamicRpcObject*>(static_cast<const DynamicRpcObject*>(std::as_const(*made).getChild("above"))), -1};
					layers.push_back({made.get(), -1});
					history += "outer owning, ";
					h.count("wrapped_outer_owning");
				} else { // Only moved
					made = std::make_unique<DynamicRpcObject>(std::move(*layers.back().object));
					layers.back().object = made.get();
					history += "moved, ";
					h.count("wrapper_moved");
				}
			} else if (what == 5 && h.rng.chance(50)) { // What is used no longer ends
				int i = int(h.rng.below(endpoints.size()));
				bool used = false;
				for (auto& layer : layers) used |= layer.responder == i;
				for (auto& [path, place] : places) used |= place.second == i;
				for (auto& o : outstanding) used |= o.endpoint == i;
				if (used || !endpoints[i]) continue;
				history += "end " + std::to_string(i) + ", ";
				endpoints[i].reset();
				h.count("endpoints_ended");
			} else if (what == 5 && !outstanding.empty()) takeOne(h.rng.below(outstanding.size()));
			else { // A call
				auto& leaf = h.rng.pick(client.leaves);
				int to = nearest(leaf.path);
				bool async = h.rng.chance(40);
				size_t leafIndex = &leaf - &client.leaves[0];
				const void* object = to >= 0 ? endpoints[to]->tree.leaves[leafIndex].object : leaf.object;
				std::vector<int64_t> sentBefore;
				for (auto& e : endpoints) sentBefore.push_back(e ? e->sent : 0);
				size_t callsBefore = w.calls.size();
				history += (async ? "async " : "call ") + where(leaf.path) + " by " + std::to_string(to) + ", ";
				Rpc::withProcedure(leaf.id, [&] <typename P> () {
					auto pending = Rpc::startCall<P>(h, *static_cast<typename P::Object*>(leaf.object), object, async, limits, to < 0);
					for (size_t i = 0; i < endpoints.size(); i++) if (endpoints[i]) {
						int64_t made = endpoints[i]->sent - sentBefore[i];
						h.check(made == (int(i) == to ? 1 : 0), "sent-elsewhere", [&] { return pending.text + ": " + std::to_string(made) + " requests through " + std::to_string(i) + " instead of " + std::to_string(to) + "\n" + history; });
					}
					if (to < 0) h.check(w.calls.size() == callsBefore + 1 && executors.back() == -1, "not-local", [&] { return pending.text + "\n" + history; });
					outstanding.push_back({size_t(counts[to + 1]++), std::move(pending), to});
				});
				if (!async) takeOne(outstanding.size() - 1);
				h.count(to < 0 ? "calls_local" : "calls_remote");
				h.maximum("endpoints", int64_t(endpoints.size()));
			}
			h.maximum("outstanding", int64_t(outstanding.size()));
		}
		while (!outstanding.empty()) takeOne(h.rng.below(outstanding.size()));
	} catch (ViolationFound&) {
		throw;
	} catch (std::exception& e) {
		h.fail("call-failed", std::string(e.what()) + "\n" + history);
	}
	int64_t all = 0;
	for (auto c : counts) all += c;
	h.check(int64_t(w.calls.size()) == all, "execution-count", [&] { return std::to_string(w.calls.size()) + " executions of " + std::to_string(all) + " calls\n" + history; });
	h.sign(history);
	h.sample(history);
	Rpc::world = nullptr;
}
