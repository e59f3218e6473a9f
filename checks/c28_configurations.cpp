// C28: what servers and clients do does not depend on the types of strings, buffers and numbers given to them
#include "requests.hpp"
#include "own_types.hpp"
#include "bomba_json_wsp_description.hpp"
using namespace Bomba;
using namespace Requests;

namespace {
using Little = ExpandingBuffer<16>;
using Vectors = ExpandingBuffer<64, std::vector<char>>;
using OwnChars = ExpandingBuffer<300, Chars>;
using Step = StepBuffer<40, 17>;

struct Scenario {
	std::vector<std::string> requests;
	std::function<void(size_t)> reset;
	std::function<std::string()> executed;
};
template <typename Server>
std::vector<Outcome> serve(H& h, Scenario& s, Server& server) {
	std::vector<Outcome> r;
	using C = decltype(Connection(server.getSession()));
	auto open = [&] { return std::make_unique<C>(server.getSession()); };
	auto connection = open();
	for (size_t i = 0; i < s.requests.size(); i++) {
		s.reset(i);
		connection->giveCut(h.rng, s.requests[i]);
		h.check(connection->problem.empty(), "contract", [&] { return connection->problem; });
		r.push_back({std::move(connection->output), s.executed(), connection->closed, !connection->pending.empty()});
		connection->output.clear();
		if (connection->closed || !connection->pending.empty()) connection = open();
	}
	return r;
}
void compareAll(H& h, Scenario& s, const std::vector<Outcome>& reference, const std::vector<Outcome>& got, const char* name) {
	for (size_t i = 0; i < s.requests.size(); i++)
		h.check(got[i] == reference[i], "other-response", [&] { return std::string(name) + ": " + got[i].text() + "\ninstead of " + reference[i].text() + "\nto " + jsonQuote(s.requests[i], 600); });
	h.count(std::string("servers_") + name);
	h.count("responses_compared", int64_t(s.requests.size()));
}
// A response whose body cannot be larger than that
std::string truncated(const std::string& response, size_t limit) {
	size_t headerEnd = response.find("\r\n\r\n") + 4;
	std::string r = response.substr(0, limit);
	size_t at = r.find("Content-Length:") + 15;
	size_t end = r.find("\r\n", at);
	std::string size = " " + std::to_string(r.size() - headerEnd);
	size.resize(end - at, ' ');
	return r.replace(at, end - at, size);
}
void compareTruncated(H& h, Scenario& s, const std::vector<Outcome>& reference, const std::vector<Outcome>& got, size_t limit, const std::vector<bool>& buffered, const char* name) {
	for (size_t i = 0; i < s.requests.size(); i++) {
		Outcome wanted = reference[i];
		if (wanted.output.find("HTTP/1.1 ", 1) != std::string::npos) { h.count("more_responses"); continue; } // A damaged request can be several requests
		if (wanted.output.size() > limit && (buffered.empty() ? wanted.output.starts_with("HTTP/1.1 200") : buffered[i])) {
			wanted.output = truncated(wanted.output, limit);
			h.count("truncated");
		}
		h.check(got[i] == wanted, "not-truncated", [&] { return std::string(name) + std::to_string(limit) + ": " + got[i].text() + "\ninstead of " + wanted.text() + "\nto " + jsonQuote(s.requests[i], 600); });
	}
	h.count(std::string("servers_limited_") + name);
}

void useWorld(Scenario& s, uint64_t seed) {
	s.executed = executedCalls;
	s.reset = [seed] (size_t i) {
		Rpc::world->calls.clear();
		Rpc::world->retSeed = seed + i;
		Rpc::world->before = failures(seed + i);
	};
}
void signAll(H& h, const Scenario& s, const char* name, const std::vector<Outcome>& reference) {
	h.sign(name);
	for (auto& it : s.requests) h.sign(it);
	h.sample(std::string(name) + " " + jsonQuote(s.requests.back(), 200) + " -> " + reference.back().text().substr(0, 300));
}

void http(H& h) {
	struct Watch : IWriteStarter { // To know if the response goes through the buffer
		IWriteStarter& target;
		bool unknown = false;
		Watch(IWriteStarter& t) : target(t) {}
		void writeUnknownSize(std::string_view type, Callback<void(GeneralisedBuffer&)> filler) override { unknown = true; target.writeUnknownSize(type, filler); }
		void writeKnownSize(std::string_view type, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override { target.writeKnownSize(type, size, filler); }
	};
	HttpApp app;
	bool unknown = false;
	app.behaviour = [&] (const HttpCall& call, IWriteStarter& writer) {
		Watch watch(writer);
		try {
			bool r = respondTo(call, watch);
			unknown = watch.unknown;
			return r;
		} catch (...) { unknown = false; throw; }
	};
	Scenario s;
	s.reset = [&] (size_t) { app.calls.clear(); };
	s.executed = [&] { std::string r; for (auto& it : app.calls) r += it.text() + " "; return r; };
	for (int n = int(h.rng.range(1, 6)); n > 0; n--) s.requests.push_back(h.rng.chance(85) ? randomRequest(h.rng, h.rng.chance(20)).text : badHttp(h.rng));
	HttpServer<> usual(app, app);
	std::vector<bool> buffered;
	std::vector<Outcome> reference;
	{
		Scenario one = s;
		auto executed = s.executed;
		one.executed = [&] { buffered.push_back(app.calls.size() == 1 && unknown); unknown = false; return executed(); };
		reference = serve(h, one, usual);
	}
	signAll(h, s, "http", reference);
	auto with = [&] <typename B> (const char* name) { HttpServer<B> server(app, app); compareAll(h, s, reference, serve(h, s, server), name); };
	switch (h.rng.below(3)) {
	case 0: with.template operator()<Little>("http"); break;
	case 1: with.template operator()<OwnChars>("http"); break;
	default: with.template operator()<Step>("http");
	}
	auto limited = [&] <int N> (std::integral_constant<int, N>) { HttpServer<NonExpandingBuffer<N>> server(app, app); compareTruncated(h, s, reference, serve(h, s, server), N, buffered, "http"); };
	if (h.rng.chance(50)) limited(std::integral_constant<int, 100>()); else limited(std::integral_constant<int, 1024>());
}

void jsonRpc(H& h) {
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	Scenario s;
	useWorld(s, h.rng.next());
	for (int n = int(h.rng.range(1, 6)); n > 0; n--) s.requests.push_back(jsonRpcRequest(h, tree));
	JsonRpcServer<> usual(*tree.root);
	auto reference = serve(h, s, usual);
	signAll(h, s, "json", reference);
	auto with = [&] <typename S, typename B> () { JsonRpcServer<S, B> server(*tree.root); compareAll(h, s, reference, serve(h, s, server), "json"); };
	switch (h.rng.below(3)) {
	case 0: with.template operator()<Rope, Step>(); break;
	case 1: with.template operator()<std::string, Vectors>(); break;
	default: with.template operator()<Rope, OwnChars>();
	}
	auto limited = [&] <int N> (std::integral_constant<int, N>) { JsonRpcServer<Rope, NonExpandingBuffer<N>> server(*tree.root); compareTruncated(h, s, reference, serve(h, s, server), N, {}, "json"); };
	if (h.rng.chance(50)) limited(std::integral_constant<int, 130>()); else limited(std::integral_constant<int, 400>());
	if (h.rng.chance(20)) { // The description
		std::string usualText = describeInJsonWsp<>(*tree.root, "http://x/", "service");
		Rope other = describeInJsonWsp<Rope>(*tree.root, "http://x/", "service");
		h.check(usualText == std::string_view(other), "other-description", [&] { return jsonQuote(std::string_view(other), 2000) + "\ninstead of " + jsonQuote(usualText, 2000); });
		h.count("descriptions");
	}
}

void form(H& h) {
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	Scenario s;
	useWorld(s, h.rng.next());
	for (int n = int(h.rng.range(1, 6)); n > 0; n--) s.requests.push_back(formRequest(h, tree));
	Files files;
	auto with = [&] <typename S, typename B> () {
		HtmlPostResponder<S> post(*tree.root);
		RpcGetResponder<S> get(files, *tree.root);
		HttpServer<B> server(get, post);
		return serve(h, s, server);
	};
	auto reference = with.template operator()<std::string, ExpandingBuffer<1024>>();
	signAll(h, s, "form", reference);
	if (h.rng.chance(50)) compareAll(h, s, reference, with.template operator()<Rope, Step>(), "form");
	else compareAll(h, s, reference, with.template operator()<Rope, Vectors>(), "form");
	compareTruncated(h, s, reference, with.template operator()<std::string, NonExpandingBuffer<150>>(), 150, {}, "form");
}

template <typename SizeType>
void reverseSizes(std::string& message) { // The identifier and size
	std::reverse(message.begin(), message.begin() + 4);
	std::reverse(message.begin() + 4, message.begin() + 4 + sizeof(SizeType));
}
template <typename SizeType>
void binary(H& h) {
	Rpc::world->limits = {20, 2, 3};
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 4)));
	Scenario s;
	useWorld(s, h.rng.next());
	for (int n = int(h.rng.range(1, 6)); n > 0; n--) s.requests.push_back(binaryRequest<SizeType>(h, tree));
	auto with = [&] <typename B> () {
		BinaryProtocolServer<SizeType, B, LittleEndianNumberFormat<B>, 4> server(*tree.root);
		return serve(h, s, server);
	};
	auto reference = with.template operator()<ExpandingBuffer<>>();
	signAll(h, s, "binary", reference);
	switch (h.rng.below(3)) {
	case 0: compareAll(h, s, reference, with.template operator()<Step>(), "binary"); break;
	case 1: compareAll(h, s, reference, with.template operator()<Vectors>(), "binary"); break;
	default: compareAll(h, s, reference, with.template operator()<Little>(), "binary");
	}
	constexpr size_t limit = 40;
	auto limited = with.template operator()<NonExpandingBuffer<limit>>();
	for (size_t i = 0; i < s.requests.size(); i++) {
		Outcome wanted = reference[i];
		if (wanted.output.empty()) continue;
		if (wanted.output.size() > limit) {
			wanted.output.resize(limit);
			for (size_t j = 0; j < sizeof(SizeType); j++) wanted.output[4 + j] = j ? 0 : char(limit);
			h.count("truncated");
		}
		h.check(limited[i] == wanted, "not-truncated", [&] { return "binary: " + limited[i].text() + "\ninstead of " + wanted.text() + "\nto " + jsonQuote(s.requests[i], 600); });
	}
	h.count("servers_limited_binary");
}

// Clients and servers of various types are given the same calls
struct Transcript {
	std::string sent, returned;
	int64_t failed = 0;
};
template <typename MakeServer, typename MakeClient>
Transcript callAll(H& h, uint64_t seed, bool forms, MakeServer&& makeServer, MakeClient&& makeClient) {
	Rpc::World& w = *Rpc::world;
	Transcript r;
	Rng kept = h.rng;
	Rng choose(seed);
	uint64_t treeSeed = choose.next();
	int depth = int(choose.range(1, 4));
	Rpc::Tree client(treeSeed, depth), server(treeSeed, depth);
	std::vector<size_t> usable;
	for (size_t i = 0; i < server.leaves.size(); i++) {
		if (server.leaves[i].path.size() > 4) continue;
		bool ok = true;
		if (forms) Rpc::withProcedure(server.leaves[i].id, [&] <typename P> () { ok = Rpc::formable<P>(); });
		if (forms) for (auto& name : server.leaves[i].path) for (unsigned char c : name) if (c <= ' ' || c > 126) ok = false;
		if (ok) usable.push_back(i);
	}
	if (usable.empty()) { h.count("nothing_usable"); h.nontrivial = false; return r; }
	auto responder = makeServer(server);
	Rpc::MemoryConnection connection(h, responder->getSession());
	connection.alterRequest = [&] (std::string& bytes) { r.sent += bytes; };
	auto rpcClient = makeClient(client, connection);
	for (int n = int(choose.range(1, 5)); n > 0; n--) {
		w.calls.clear();
		w.retSeed = choose.next();
		bool async = choose.chance(50);
		std::vector<Rpc::Pending> pending;
		try {
			for (int m = async ? int(choose.range(1, 5)) : 1; m > 0; m--) {
				size_t leaf = choose.pick(usable);
				h.rng = Rng(choose.next()); // The same arguments
				Rpc::withProcedure(server.leaves[leaf].id, [&] <typename P> () {
					pending.push_back(Rpc::startCall<P>(h, *static_cast<typename P::Object*>(client.leaves[leaf].object), server.leaves[leaf].object, async, w.limits));
				});
				h.rng = kept;
				for (auto x = h.rng.next() % 5; x > 0; x--) h.rng.next();
				kept = h.rng;
			}
			std::vector<size_t> order;
			for (size_t i = 0; i < pending.size(); i++) order.push_back(i);
			for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[choose.below(j)]);
			for (auto i : order) pending[i].take();
		} catch (ViolationFound&) {
			throw;
		} catch (std::exception& e) {
			h.fail("call-failed", std::string(e.what()) + " at " + (pending.empty() ? "the first call" : pending.back().text));
		}
		h.check(w.calls.size() == pending.size(), "execution-count", [&] { return std::to_string(w.calls.size()) + " executions of " + std::to_string(pending.size()); });
		for (size_t i = 0; i < pending.size(); i++) {
			pending[i].verifyExecution(h, w.calls[i]);
			pending[i].verifyResult(h, i);
			r.returned += pending[i].text + "\n";
		}
		h.count("calls", int64_t(pending.size()));
	}
	return r;
}

void compareClients(H& h, const Transcript& reference, const Transcript& got, const char* name, bool same) { // Messages are the same for the same format
	h.check(got.returned == reference.returned, "harness-other-calls");
	h.check(!same || got.sent == reference.sent, "other-request", [&] { return std::string(name) + ": " + jsonQuote(got.sent, 2000) + "\ninstead of " + jsonQuote(reference.sent, 2000); });
	h.count(std::string("clients_") + name);
	if (!reference.sent.empty()) h.sign(name + reference.sent);
}

template <typename S, typename B> auto jsonServer() { return [] (Rpc::Tree& t) { return std::make_unique<JsonRpcServer<S, B>>(*t.root); }; }
template <typename S, typename B> auto jsonClient() { return [] (Rpc::Tree& t, ITcpClient& c) { return std::make_unique<JsonRpcClient<S, B>>(*t.root, c, "example.com"); }; }
void jsonClients(H& h) {
	uint64_t seed = h.rng.next();
	auto reference = callAll(h, seed, false, jsonServer<std::string, ExpandingBuffer<>>(), jsonClient<std::string, ExpandingBuffer<>>());
	auto got = h.rng.chance(50) ? callAll(h, seed, false, jsonServer<Rope, Step>(), jsonClient<Rope, Little>())
			: callAll(h, seed, false, jsonServer<std::string, Vectors>(), jsonClient<std::string, Step>());
	compareClients(h, reference, got, "json", true);
}
template <typename S, typename B> struct Forms { // A server with parts
	struct NoGet : IHttpGetResponder { bool get(std::string_view, IWriteStarter&) override { return false; } } none;
	HtmlPostResponder<S> post;
	HttpServer<B> server;
	Forms(Rpc::Tree& t) : post(*t.root), server(none, post) {}
	auto getSession() { return server.getSession(); }
};
template <typename S, typename B> auto formClient() {
	return [] (Rpc::Tree& t, ITcpClient& c) { auto made = std::make_unique<HttpClient<S, B>>(c, "example.com"); t.root->setResponder(*made); return made; };
}
void formClients(H& h) {
	uint64_t seed = h.rng.next();
	auto reference = callAll(h, seed, true, [] (Rpc::Tree& t) { return std::make_unique<Forms<std::string, ExpandingBuffer<>>>(t); }, formClient<std::string, ExpandingBuffer<>>());
	auto got = callAll(h, seed, true, [] (Rpc::Tree& t) { return std::make_unique<Forms<Rope, Step>>(t); }, formClient<Rope, Little>());
	compareClients(h, reference, got, "form", true);
}
template <typename SizeType>
void binaryClients(H& h) {
	Rpc::world->limits = {20, 2, 3};
	uint64_t seed = h.rng.next();
	auto run = [&] <typename B, typename Format, typename ClientB, typename ClientFormat> () {
		return callAll(h, seed, false, [] (Rpc::Tree& t) { return std::make_unique<BinaryProtocolServer<SizeType, B, Format, 4>>(*t.root); },
				[] (Rpc::Tree& t, ITcpClient& c) { return std::make_unique<BinaryProtocolClient<SizeType, ClientB, ClientFormat, 4>>(*t.root, c); });
	};
	auto reference = run.template operator()<ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>>();
	auto got = run.template operator()<Step, LittleEndianNumberFormat<Step>, Little, LittleEndianNumberFormat<Little>>();
	compareClients(h, reference, got, "binary", true);
	auto reversed = run.template operator()<Vectors, BigEndian<Vectors>, Step, BigEndian<Step>>();
	compareClients(h, reference, reversed, "big_endian", false);
	h.check(reversed.sent.size() == reference.sent.size(), "other-request");
	std::string a = reference.sent, b = reversed.sent; // Identifiers and sizes are in the other order
	for (size_t at = 0; at < a.size();) {
		uint64_t size = 0;
		for (size_t i = 0; i < sizeof(SizeType); i++) size |= uint64_t(uint8_t(a[at + 4 + i])) << (8 * i);
		std::string head = b.substr(at, 4 + sizeof(SizeType));
		reverseSizes<SizeType>(head);
		h.check(a.compare(at, head.size(), head) == 0, "other-header", [&] { return hex(a.substr(at, head.size())) + " vs " + hex(b.substr(at, head.size())); });
		h.count("headers_reversed");
		if (size < 4 + sizeof(SizeType)) h.fail("wrong-size", hex(a.substr(at, 10)));
		at += size;
	}
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	w.limits = {30, 2, 4};
	if (h.rng.chance(20)) w.limits.text = 2000;
	switch (h.rng.below(8)) {
	case 0: http(h); break;
	case 1: case 2: jsonRpc(h); break;
	case 3: form(h); break;
	case 4: if (h.rng.chance(50)) binary<uint16_t>(h); else binary<uint32_t>(h); break;
	case 5: jsonClients(h); break;
	case 6: formClients(h); break;
	default: if (h.rng.chance(50)) binaryClients<uint16_t>(h); else binaryClients<uint32_t>(h);
	}
	Rpc::world = nullptr;
}
