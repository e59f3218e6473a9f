// C27: formats and protocols implemented by the user get each value by the documented sequence of calls
#include "rpc_model.hpp"
#include "tree_format.hpp"
using namespace Bomba;

namespace {
const FillLimits limits{60, 3, 6};

struct Format { // As the documentation says, a structure with two classes
	struct Input : ::Tree::Input {
		using From = std::tuple<H*, std::vector<::Tree::Token>*, bool, bool>;
		Input(const From& f) : ::Tree::Input(*std::get<0>(f), *std::get<1>(f), std::get<2>(f), std::get<3>(f)) {}
	};
	using Output = ::Tree::Output;
};

::Tree::Presentation presentation(H& h) {
	::Tree::Presentation p;
	p.named = h.rng.chance(65);
	p.shuffled = h.rng.chance(60);
	p.unknown = h.rng.chance(50);
	p.keepsText = h.rng.chance(30);
	return p;
}

template <typename T>
struct Exposed : T {
	void write(IStructuredOutput& out, SerialisationFlags::Flags f = SerialisationFlags::NONE) const { this->serialiseInternal(out, f); }
	bool read(IStructuredInput& in, SerialisationFlags::Flags f = SerialisationFlags::NONE) { return this->deserialiseInternal(in, f); }
};

template <typename T>
void values(H& h) {
	Exposed<T> original, target;
	FillLimits much;
	much.maybeHuge(h.rng);
	fill(h.rng, static_cast<T&>(original), much);
	if (much.wasHuge) h.count("huge_containers");
	bool prior = h.rng.chance(60);
	if (prior) fill(h.rng, static_cast<T&>(target), {});
	::Tree::Output out(h, h.rng.chance(50));
	original.write(out);
	::Tree::Node tree = out.finish();
	std::string difference = ::Tree::differs(static_cast<T&>(original), tree);
	h.check(difference.empty(), "other-content", [&] { return std::string(T::typeName) + ": " + difference + "\nwritten " + ::Tree::print(tree); });
	h.sign(T::typeName);
	h.sign(::Tree::print(tree));
	h.sample(std::string(T::typeName) + " " + ::Tree::print(tree).substr(0, 200));
	auto how = presentation(h);
	::Tree::Tokens tokens(h.rng, how);
	tokens.add(tree);
	h.count(how.named ? "values_named" : "values_by_order");
	bool ok;
	if (h.rng.chance(50)) {
		::Tree::Input in(h, tokens.list, how.named, how.keepsText);
		ok = target.read(in);
		h.check(in.finished(), "not-read-entirely", [&] { return std::string(T::typeName) + " " + ::Tree::print(tree); });
	} else
		ok = target.template deserialise<Format>(std::tuple(&h, &tokens.list, how.named, how.keepsText));
	h.check(ok, "reading-reported-failure", [&] { return std::string(T::typeName) + " " + ::Tree::print(tree); });
	h.check(same(static_cast<T&>(original), static_cast<T&>(target)), "not-restored", [&] { return std::string(T::typeName) + (prior ? " over other contents" : "") + "\nread as " + Rpc::show(static_cast<T&>(target)) + "\ninstead of " + Rpc::show(static_cast<T&>(original)); });
	h.count("values_restored");
}

// A protocol that passes trees
struct TreeProtocol : IRpcResponder {
	H& h;
	const IRemoteCallable* server;
	bool canOmit;
	struct Request { std::vector<std::string> path; std::vector<int> indexes; std::vector<::Tree::Token> arguments; bool named, keepsText; };
	struct Response { std::vector<::Tree::Token> result; bool named, keepsText; };
	std::deque<std::pair<uint32_t, Request>> requests; // Not done yet
	std::map<uint32_t, Response> responses;
	uint32_t last = 0;
	TreeProtocol(H& h, const IRemoteCallable& server) : h(h), server(&server), canOmit(h.rng.chance(50)) { last = uint32_t(h.rng.next()); }

	RequestToken send(UserId, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		last += uint32_t(h.rng.range(1, 3));
		Request r;
		for (auto it = method; it->parent(); it = it->parent()) {
			auto [name, index] = it->parent()->childName(it);
			r.path.insert(r.path.begin(), std::string(name));
			r.indexes.insert(r.indexes.begin(), index);
		}
		::Tree::Output out(h, canOmit);
		request(out, RequestToken{last});
		::Tree::Node tree = out.finish();
		h.check(tree.kind == ::Tree::OBJECT && (tree.flags & SerialisationFlags::OBJECT_LAYOUT_KNOWN), "arguments-not-an-object", [&] { return ::Tree::print(tree); });
		auto how = presentation(h);
		if (canOmit) how.named = true; // Omitted ones are identified by names of the others
		::Tree::Tokens tokens(h.rng, how);
		tokens.add(tree);
		r.arguments = std::move(tokens.list);
		r.named = how.named;
		r.keepsText = how.keepsText;
		h.count(how.named ? "arguments_named" : "arguments_by_order");
		requests.emplace_back(last, std::move(r));
		if (h.rng.chance(50)) step();
		return {last};
	}
	void step() { // Does a request
		if (requests.empty()) return;
		auto [token, r] = std::move(requests.front()); // In the same order, otherwise they could influence one another
		requests.pop_front();
		const IRemoteCallable* target = server;
		for (size_t i = 0; i < r.path.size(); i++) {
			const IRemoteCallable* next = target->getChild(r.path[i]);
			h.check(next == target->getChild(r.indexes[i]) && next, "name-and-index-disagree", [&] { return r.path[i]; });
			target = next;
		}
		::Tree::Output out(h, canOmit);
		::Tree::Input in(h, r.arguments, r.named, r.keepsText);
		int introduced = 0;
		Rpc::world->onServer = true;
		bool done = target->call(&in, out, [&] { introduced++; h.check(out.untouched(), "result-before-introduction"); }, [&] (std::string_view e) { h.fail("error-introduced", std::string(e)); });
		Rpc::world->onServer = false;
		h.check(done, "call-refused");
		h.check(introduced == 1, "result-introductions", [&] { return std::to_string(introduced); });
		h.check(in.finished(), "arguments-not-read-entirely");
		::Tree::Node tree = out.finish();
		auto how = presentation(h);
		if (canOmit) how.named = true;
		::Tree::Tokens tokens(h.rng, how);
		tokens.add(tree);
		responses[token] = {std::move(tokens.list), how.named, how.keepsText};
		h.count("calls_done");
	}
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
		while (!responses.count(token.id) && !requests.empty()) step();
		auto found = responses.find(token.id);
		h.check(found != responses.end(), "unknown-token-or-taken-twice", [&] { return std::to_string(token.id); });
		::Tree::Input in(h, found->second.result, found->second.named, found->second.keepsText);
		reader(in);
		h.check(in.finished(), "result-not-read-entirely");
		responses.erase(found);
		return true;
	}
	bool hasResponse(RequestToken token) override {
		if (h.rng.chance(50)) step();
		return responses.count(token.id);
	}
};

void calls(H& h) {
	Rpc::World& w = *Rpc::world;
	uint64_t seed = h.rng.next();
	int depth = int(h.rng.range(1, 4));
	Rpc::Tree client(seed, depth, 2), server(seed, depth, 2);
	TreeProtocol protocol(h, *server.root);
	client.root->setResponder(protocol);
	for (int rounds = int(h.rng.range(1, 4)); rounds > 0; rounds--) {
		w.calls.clear();
		w.retSeed = h.rng.next();
		bool async = h.rng.chance(50);
		int count = async ? int(h.rng.range(1, 5)) : 1;
		std::vector<Rpc::Pending> pending;
		std::string doing;
		try {
			for (int i = 0; i < count; i++) {
				size_t leaf = h.rng.below(server.leaves.size());
				Rpc::withProcedure(server.leaves[leaf].id, [&] <typename P> () {
					doing = "procedure " + std::to_string(P::id);
					pending.push_back(Rpc::startCall<P>(h, *static_cast<typename P::Object*>(client.leaves[leaf].object), server.leaves[leaf].object, async, limits));
				});
				h.sign("call " + pending.back().text);
			}
			for (size_t i = pending.size(); i > 0; i--) {
				size_t at = h.rng.below(pending.size());
				if (h.rng.chance(40)) h.count(pending[at].ready() ? "ready" : "not_ready");
			}
			for (auto& it : pending) { doing = it.text; it.take(); }
		} catch (ViolationFound&) { throw; } catch (std::exception& e) {
			h.fail("call-failed", doing + " ended by " + e.what());
		}
		h.check(w.calls.size() == pending.size(), "execution-count", [&] { return std::to_string(w.calls.size()) + " of " + std::to_string(pending.size()); });
		for (size_t i = 0; i < pending.size(); i++) {
			pending[i].verifyExecution(h, w.calls[i]);
			pending[i].verifyResult(h, i);
		}
		h.count(async ? "calls_async" : "calls_sync", int64_t(pending.size()));
	}
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	if (h.rng.chance(60)) withZooType(int(h.rng.below(zooCount)), [&] <typename T> () { values<T>(h); });
	else calls(h);
	Rpc::world = nullptr;
}
