// Remote procedures that record how they were called, generated classes with them, trees composed of them and a simulated network
#ifndef VERIF_RPC_MODEL
#define VERIF_RPC_MODEL
#include "hostile.hpp"
#ifdef ZOO_GENERATED
#define API_TYPES
#endif
#include "zoo.hpp"
#undef API_TYPES
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include <deque>
#include <tuple>
#include <any>

namespace Rpc {
struct Invocation {
	int id;
	const void* self;
	std::shared_ptr<void> args;
	std::string text;
	bool onServer;
};
struct World {
	std::vector<Invocation> calls;
	bool onServer = false;
	uint64_t retSeed = 0;
	FillLimits limits{60, 3, 6};
	std::function<void(int id)> before; // Can throw
};
#ifdef RPC_WORLD_OF_THREAD
inline thread_local World* world = nullptr;
#else
inline World* world = nullptr;
#endif

template <typename T> std::string show(const T& v) { Rng rng(1); JsonSpeller s(rng); return s.print(model(v)); }
template <typename... Args> std::string showAll(const std::tuple<Args...>& args) {
	std::string r = "(";
	std::apply([&] (auto&... a) { ((r += show(a) + ", "), ...); }, args);
	return r + ")";
}
template <typename... Args> bool sameAll(const std::tuple<Args...>& a, const std::tuple<Args...>& b) {
	return [&] <size_t... I> (std::index_sequence<I...>) { return (same(std::get<I>(a), std::get<I>(b)) && ...); } (std::index_sequence_for<Args...>());
}
template <typename Ret>
Ret returned(const World& w, size_t order) {
	Ret r = {};
	Rng rng(w.retSeed * 31 + order * 1000003);
	fill(rng, r, w.limits);
	return r;
}
template <typename Ret, typename... Args>
Ret invoked(int id, const void* self, const Args&... args) {
	World& w = *world;
	auto kept = std::make_shared<std::tuple<Args...>>(args...);
	w.calls.push_back({id, self, kept, "", w.onServer});
	size_t order = w.calls.size() - 1;
	if (w.before) w.before(id);
	if constexpr (!std::is_void_v<Ret>) return returned<Ret>(w, order);
}

inline std::string textFor(Rng& rng) { return randomText(rng, 10, 60); }
}

#ifdef ZOO_GENERATED
#include ZOO_GENERATED
#endif

namespace Rpc {
// Procedures composed at run time, with captured contents
template <int N> struct Dyn;
#define RPC_DYN(N, RET, CAPTURE, CAPTURED, ...) \
	inline auto makeDyn##N() { CAPTURED; return [CAPTURE] __VA_ARGS__; } \
	template <> struct Dyn<N> { Bomba::RpcLambda<decltype(makeDyn##N())> f{makeDyn##N()}; };
#ifdef ZOO_GENERATED
constexpr int dynBase = 1000;
RPC_DYN(0, int64_t, base, int base = dynBase, (int32_t a = Bomba::name("a"), int32_t b = Bomba::name("b")) -> int64_t { return invoked<int64_t>(base, nullptr, a, b); })
RPC_DYN(1, std::string, text, std::string text = "some text captured by the procedure that is long", (std::string a = Bomba::name("text")) -> std::string { return invoked<std::string>(text.size() == 48 ? dynBase + 1 : -1, nullptr, a); })
RPC_DYN(2, void, , , () { return invoked<void>(dynBase + 2, nullptr); })
RPC_DYN(3, ZScalars, base, int base = dynBase, (ZScalars a = Bomba::name("object"), bool b = Bomba::name("flag") | Bomba::SerialisationFlags::OMIT_FALSE) -> ZScalars { return invoked<ZScalars>(base + 3, nullptr, a, b); })
RPC_DYN(4, void, base, int base = dynBase, (ZScalars a = Bomba::name("first"), ZScalars b = Bomba::name("second")) { return invoked<void>(base + 4, nullptr, a, b); }) // Two of one type
template <int N, typename R, typename... A> struct DynProcedure {
	using Object = Dyn<N>; using Ret = R; using Args = std::tuple<A...>;
	static constexpr int id = dynBase + N, index = -1;
	static constexpr bool parent = false;
	static auto& get(Object& o) { return o.f; }
};
struct D0 : DynProcedure<0, int64_t, int32_t, int32_t> { static const char* arg(size_t i) { return i ? "b" : "a"; } static bool omits(size_t) { return false; } };
struct D1 : DynProcedure<1, std::string, std::string> { static const char* arg(size_t) { return "text"; } static bool omits(size_t) { return false; } };
struct D2 : DynProcedure<2, void> { static const char* arg(size_t) { return nullptr; } static bool omits(size_t) { return false; } };
struct D3 : DynProcedure<3, ZScalars, ZScalars, bool> { static const char* arg(size_t i) { return i ? "flag" : "object"; } static bool omits(size_t i) { return i == 1; } };
struct D4 : DynProcedure<4, void, ZScalars, ZScalars> { static const char* arg(size_t i) { return i ? "second" : "first"; } static bool omits(size_t) { return false; } };
#define API_DYNAMIC(X) X(Rpc::D0) X(Rpc::D1) X(Rpc::D2) X(Rpc::D3) X(Rpc::D4)

#define RPC_COUNT_OBJECT(O, P) +1
constexpr int objectKinds = 0 API_OBJECTS(RPC_COUNT_OBJECT);

template <typename F>
bool withProcedure(int id, F&& f) {
#define RPC_DISPATCH(P) if (id == P::id) { f.template operator()<P>(); return true; }
	API_PROCEDURES(RPC_DISPATCH)
	API_DYNAMIC(RPC_DISPATCH)
#undef RPC_DISPATCH
	return false;
}

template <typename T> constexpr bool flatType = std::is_arithmetic_v<T> || std::is_same_v<T, std::string>;
template <typename P> constexpr bool flatArgs = [] <typename... A> (std::tuple<A...>*) { return (flatType<A> && ... && true); } (static_cast<typename P::Args*>(nullptr));
template <typename P> bool formable() { // Can be called using a form
	if (!flatArgs<P> || !std::is_void_v<typename P::Ret>) return false;
	bool ok = true;
	[&] <size_t... I> (std::index_sequence<I...>) { ((ok = ok && (!std::is_same_v<std::tuple_element_t<I, typename P::Args>, bool> || P::omits(I))), ...); } (std::make_index_sequence<std::tuple_size_v<typename P::Args>>());
	return ok;
}

struct Leaf {
	int id;
	std::vector<std::string> path;
	std::vector<int> indexes;
	void* object; // Of type Procedure::Object
	const Bomba::IRemoteCallable* callable;
};
// A tree of objects built according to random choices, the same choices make the same tree
struct Tree {
	std::vector<std::shared_ptr<void>> storage;
	Bomba::IRemoteCallable* root = nullptr;
	std::vector<Leaf> leaves;
	std::string text;
	int wideChance = 0;
	bool wide = false; // Some object has over a hundred members
	std::vector<std::pair<std::vector<std::string>, Bomba::IRemoteCallable*>> inner; // Objects in it, including the root

	// An object in its final place, it might have got there by copying or moving; what it was made from no longer exists
	template <typename O>
	O* place(Rng& rng, Bomba::DynamicRpcObject* owner, const std::string& name) {
		int how = int(rng.below(12));
		if (owner && how < 3) {
			text += "owned ";
			if (how == 0) owner->add(name, O());
			else {
				auto original = std::make_unique<O>();
				if (how == 1) owner->add(name, std::move(*original));
				else owner->add(name, O(*original));
			}
			return static_cast<O*>(const_cast<Bomba::IRemoteCallable*>(std::as_const(*owner).getChild(std::string_view(name))));
		}
		std::shared_ptr<O> made;
		if (how == 3 || how == 4) {
			auto original = std::make_unique<O>();
			made = how == 3 ? std::make_shared<O>(*original) : std::make_shared<O>(std::move(*original));
			text += "copied ";
		} else if (how == 5) {
			O original;
			made = std::make_shared<O>();
			*made = original;
			text += "assigned ";
		} else if (how == 6) {
			auto many = std::make_shared<std::vector<O>>();
			for (int64_t i = rng.range(1, 5); i > 0; i--) many->emplace_back();
			made = std::shared_ptr<O>(many, &(*many)[rng.below(many->size())]);
			text += "vector ";
		} else made = std::make_shared<O>();
		storage.push_back(made);
		if (owner) owner->add(name, Bomba::RpcLambdaHolder::nonOwning(*made));
		return made.get();
	}
	void addObject(Rng& rng, Bomba::DynamicRpcObject* owner, const std::string& name, int kind, std::vector<std::string> path, std::vector<int> indexes, Bomba::IRemoteCallable*& made) {
		int i = 0;
#define RPC_LEAF(P) if constexpr (true) { auto p = path; p.push_back(P::name); auto x = indexes; x.push_back(P::index); leaves.push_back({P::id, p, x, object, &P::get(*object)}); }
#define RPC_MAKE(O, PS) if (i++ == kind) { text += #O " "; auto object = place<O>(rng, owner, name); made = object; PS(RPC_LEAF) }
		API_OBJECTS(RPC_MAKE)
#undef RPC_MAKE
#undef RPC_LEAF
		inner.emplace_back(path, made);
	}
	template <typename D>
	Bomba::IRemoteCallable* addDynamic(std::vector<std::string> path, std::vector<int> indexes) {
		auto object = std::make_shared<typename D::Object>();
		storage.push_back(object);
		leaves.push_back({D::id, path, indexes, object.get(), &D::get(*object)});
		return &D::get(*object);
	}
	static std::vector<std::string> names() {
		return {"a", "ab", "abc", "b", "object", "obj", "objects", "sum", "s", "0", "1", "inner", "in", "x y", "call", "id", "params", "n\u00e1zev", "-", "v1", "toString", "constructor"};
	}
	Bomba::IRemoteCallable* addNode(Rng& rng, int depth, std::vector<std::string> path, std::vector<int> indexes, Bomba::DynamicRpcObject* owner = nullptr, const std::string& nameThere = {}) { // Adds itself to the owner
		Bomba::IRemoteCallable* made = nullptr;
		if (depth <= 1 || rng.chance(depth == 2 ? 55 : 30)) {
			addObject(rng, owner, nameThere, int(rng.below(objectKinds)), path, indexes, made);
			return made;
		}
		auto object = std::make_shared<Bomba::DynamicRpcObject>();
		storage.push_back(object);
		text += "{";
		size_t position = inner.size();
		inner.emplace_back(path, object.get());
		auto pool = names();
		int count = int(rng.range(1, depth > 2 ? 3 : 4));
		bool wideHere = wideChance && rng.chance(wideChance);
		if (wideHere) { count = int(rng.range(120, 256)); wide = true; }
		for (int i = 0; i < count; i++) {
			size_t n = rng.below(pool.size());
			std::string name = wideHere ? "w" + std::to_string(i) : pool[n];
			if (!wideHere) pool.erase(pool.begin() + n);
			auto p = path; p.push_back(name);
			auto x = indexes; x.push_back(i);
			text += name + ":";
			Bomba::IRemoteCallable* child = nullptr;
			int kind = -1;
			if (wideHere || rng.chance(30)) {
				kind = int(rng.below(5));
				text += "lambda" + std::to_string(kind);
				child = kind == 0 ? addDynamic<D0>(p, x) : kind == 1 ? addDynamic<D1>(p, x) : kind == 2 ? addDynamic<D2>(p, x) : kind == 3 ? addDynamic<D3>(p, x) : addDynamic<D4>(p, x);
			} else child = addNode(rng, depth - 1, p, x, object.get(), name);
			text += " ";
			if (kind >= 0) object->add(name, Bomba::RpcLambdaHolder::nonOwning(*child));
		}
		text += "}";
		if (!owner) {
			if (!rng.chance(20)) return object.get();
			auto moved = std::make_shared<Bomba::DynamicRpcObject>(std::move(*object));
			storage.push_back(moved);
			inner[position].second = moved.get();
			return moved.get();
		}
		if (rng.chance(30)) {
			text += "owned";
			owner->add(nameThere, std::move(*object));
			inner[position].second = const_cast<Bomba::IRemoteCallable*>(std::as_const(*owner).getChild(std::string_view(nameThere)));
		} else owner->add(nameThere, Bomba::RpcLambdaHolder::nonOwning(*object));
		return inner[position].second;
	}
	Tree(uint64_t seed, int depth, int wideChance = 0) : wideChance(wideChance) {
		Rng rng(seed);
		root = addNode(rng, depth, {}, {});
	}
};

template <typename Args>
void fillArgs(Rng& rng, Args& args, const FillLimits& limits) { std::apply([&] (auto&... a) { (fill(rng, a, limits), ...); }, args); }

// What is known about a call that was sent; finish() takes the result
struct Pending {
	int id;
	std::string text;
	std::function<void(H&, const Invocation&)> verifyExecution;
	std::function<bool()> ready;
	std::function<void()> take; // Waits and keeps the result
	std::function<void(H&, size_t order)> verifyResult;
};
template <typename P>
Pending startCall(H& h, typename P::Object& object, const void* serverObject, bool async, const FillLimits& limits, bool local = false) {
	using Ret = typename P::Ret;
	Pending r;
	r.id = P::id;
	auto args = std::make_shared<typename P::Args>();
	fillArgs(h.rng, *args, limits);
	r.text = "procedure " + std::to_string(P::id) + showAll(*args);
	r.verifyExecution = [args, serverObject, local, text = r.text] (H& h, const Invocation& call) {
		h.check(call.id == P::id, "other-procedure", [&] { return std::to_string(call.id) + " was executed instead of " + text; });
		h.check(call.onServer != local, local ? "executed-by-server" : "executed-by-client", [&] { return text; });
		h.check(call.self == (P::parent ? serverObject : nullptr), "other-object", [&] { return text; });
		auto& got = *static_cast<typename P::Args*>(call.args.get());
		h.check(sameAll(got, *args), "other-arguments", [&] { return text + "\nwas executed with " + showAll(got); });
	};
	if (async) {
		std::shared_ptr<Bomba::Future<Ret>> future(new Bomba::Future<Ret>(std::apply([&] (auto&... a) { return P::get(object).async(a...); }, *args)));
		r.ready = [future] { return future->is_ready(); };
		if constexpr (std::is_void_v<Ret>) {
			r.take = [future] { future->get(); };
			r.verifyResult = [] (H&, size_t) {};
		} else {
			auto result = std::make_shared<Ret>();
			r.take = [future, result] { *result = future->get(); };
			r.verifyResult = [result, text = r.text] (H& h, size_t order) {
				h.check(same(*result, returned<Ret>(*world, order)), "other-result", [&] { return text + "\nreturned " + show(*result) + "\ninstead of " + show(returned<Ret>(*world, order)); });
			};
		}
	} else {
		r.ready = [] { return true; };
		r.take = [] {};
		if constexpr (std::is_void_v<Ret>) {
			std::apply([&] (auto&... a) { P::get(object)(a...); }, *args);
			r.verifyResult = [] (H&, size_t) {};
		} else {
			Ret result = std::apply([&] (auto&... a) { return P::get(object)(a...); }, *args);
			r.verifyResult = [result, text = r.text] (H& h, size_t order) {
				h.check(same(result, returned<Ret>(*world, order)), "other-result", [&] { return text + "\nreturned " + show(result) + "\ninstead of " + show(returned<Ret>(*world, order)); });
			};
		}
	}
	return r;
}
#endif

struct NoResponse : std::exception { const char* what() const noexcept override { return "the server does not respond"; } };

// Connection of a client to a server session through memory. Both directions are cut at random. Implements ITcpClient as its description demands.
template <typename Session>
struct MemoryConnection : Bomba::ITcpClient {
	H& h;
	Session session;
	std::string toServer, atServer, toClient, atClient;
	std::map<uint32_t, std::string> stored;
	bool closed = false, lazy = false;
	int64_t segments = 0;
	std::function<void(std::string&)> alterResponse; // Applied to what the server sends at once
	std::function<void(std::string&)> alterRequest;

	MemoryConnection(H& h, Session&& session) : h(h), session(std::move(session)) { lazy = h.rng.chance(50); }
	size_t piece(size_t n) { return h.rng.chance(50) ? n : h.rng.chance(50) ? h.rng.range(1, n) : std::min<size_t>(n, h.rng.range(1, 10)); }
	void serverStep() { // Something arrives to the server
		if (toServer.empty() || closed) return;
		size_t n = piece(toServer.size());
		segments++;
		atServer += toServer.substr(0, n);
		toServer.erase(0, n);
		while (!atServer.empty()) {
			ExactBytes given(atServer);
			std::string output;
			if (world) world->onServer = true;
			auto got = session.respond(std::span<char>(given.data, given.size), [&] (const std::span<const char>& s) { output.append(s.data(), s.size()); });
			if (world) world->onServer = false;
			if (alterResponse && !output.empty()) alterResponse(output);
			toClient += output;
			if (closed) return;
			atServer = given.view();
			if (got.first == Bomba::ServerReaction::OK) {
				if (got.second <= 0 || got.second > int64_t(atServer.size())) h.fail("consumed-count", std::to_string(got.second));
				atServer.erase(0, size_t(got.second));
			} else if (got.first == Bomba::ServerReaction::DISCONNECT) { closed = true; return; }
			else return;
		}
	}
	bool clientStep() { // Something arrives to the client, false if it cannot
		while (toClient.empty() && !toServer.empty() && !closed) serverStep();
		if (toClient.empty()) return false;
		size_t n = piece(toClient.size());
		segments++;
		atClient += toClient.substr(0, n);
		toClient.erase(0, n);
		return true;
	}
	void writeRequest(std::span<char> written) override {
		std::string bytes(written.data(), written.size());
		if (alterRequest) alterRequest(bytes);
		toServer += bytes;
		if (!lazy) while (!toServer.empty() && !closed) serverStep();
	}
	using Reader = Bomba::Callback<std::tuple<Bomba::ServerReaction, Bomba::RequestToken, int64_t>(std::span<char> input, bool identified)>;
	void search(bool wait, Bomba::RequestToken token, Reader& reader) {
		auto found = stored.find(token.id);
		if (found != stored.end()) {
			ExactBytes given(found->second);
			if (wait) stored.erase(found);
			reader(std::span<char>(given.data, given.size), true);
			return;
		}
		while (true) {
			while (!atClient.empty()) {
				ExactBytes given(atClient);
				auto [reaction, received, position] = reader(std::span<char>(given.data, given.size), false);
				if (reaction == Bomba::ServerReaction::DISCONNECT) { closed = true; atClient.clear(); toClient.clear(); toServer.clear(); return; }
				if (reaction == Bomba::ServerReaction::READ_ON) break;
				if (position <= 0 || position > int64_t(atClient.size())) h.fail("client-consumed-count", std::to_string(position) + " of " + std::to_string(atClient.size()));
				if (reaction == Bomba::ServerReaction::WRONG_REPLY || !wait) stored[received.id] = atClient.substr(0, size_t(position));
				atClient.erase(0, size_t(position));
				if (reaction == Bomba::ServerReaction::OK) return;
			}
			if (!wait) { if (h.rng.chance(50) || !clientStep()) return; continue; }
			if (!clientStep()) {
				if (closed) Bomba::remoteError("Connection was closed");
				throw NoResponse();
			}
		}
	}
	void getResponse(Bomba::RequestToken token, Reader reader) override { search(true, token, reader); }
	void tryToGetResponse(Bomba::RequestToken token, Reader reader) override { search(false, token, reader); }
};
template <typename Session> MemoryConnection(H&, Session&&) -> MemoryConnection<Session>;
}
#endif
