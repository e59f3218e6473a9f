// C24: what a server answers to a request does not depend on what it was sent before
#include "requests.hpp"
using namespace Bomba;
using namespace Requests;

namespace {
struct Scenario {
	std::vector<std::string> history; // Meaningful pieces sent before
	std::vector<std::string> probes;
	std::function<void(bool probing)> reset; // State of the application
	std::function<std::string()> executed; // What the application did since reset
};

template <typename MakeServer>
void compare(H& h, Scenario& s, const char* name, MakeServer&& makeServer) {
	std::vector<Outcome> fresh;
	auto conclude = [&] (auto& connection) {
		Outcome r{std::move(connection.output), s.executed(), connection.closed, !connection.pending.empty()};
		connection.output.clear();
		h.check(connection.problem.empty(), "contract", [&] { return connection.problem; });
		return r;
	};
	for (auto& it : s.probes) {
		auto server = makeServer();
		Connection connection(server->getSession());
		s.reset(true);
		connection.give(it);
		fresh.push_back(conclude(connection));
	}
	auto server = makeServer();
	auto other = makeServer(); // Of the same kind
	using C = decltype(Connection(server->getSession()));
	auto open = [&] { return std::make_unique<C>(server->getSession()); };
	auto a = open(), b = open();
	std::string sent;
	auto compareOne = [&] (C& connection, size_t index, const char* where, std::string_view text) {
		s.reset(true);
		connection.giveCut(h.rng, text);
		Outcome got = conclude(connection);
		h.check(got == fresh[index], (std::string("other-response-") + where).c_str(), [&] {
			return std::string(name) + ": " + got.text() + "\ninstead of " + fresh[index].text() + "\nto " + jsonQuote(s.probes[index], 600) + "\nafter " + sent; });
		h.count("probes");
		h.count(std::string("probes_") + name);
		h.count(std::string("probes_") + where);
		if (got.closed) h.count("probes_closing");
	};
	bool clean = true; // Nothing unfinished is in the first session
	size_t historyDone = 0;
	for (size_t i = 0; i < s.probes.size(); i++) {
		for (int n = int(h.rng.size(3, 12)); n > 0; n--) {
			auto& piece = h.rng.pick(s.history);
			s.reset(false);
			sent = jsonQuote(piece, 300) + (sent.empty() ? "" : " <- ") + sent.substr(0, 1500);
			if (h.rng.chance(85)) {
				a->giveCut(h.rng, piece);
				historyDone++;
			} else { // Abandoned in the middle
				a->giveCut(h.rng, std::string_view(piece).substr(0, h.rng.below(piece.size() + 1)));
				clean = false;
			}
			h.check(a->problem.empty(), "contract", [&] { return a->problem + " after " + sent; });
			a->output.clear();
			if (!a->pending.empty()) clean = false;
			if (a->closed) { h.count("closed_before"); }
			if (a->closed || !clean) {
				if (a->closed || h.rng.chance(50)) { // Another session takes its place
					a = open();
					clean = true;
				} else break;
			}
		}
		int mode = int(h.rng.below(4));
		auto& probe = s.probes[i];
		if (clean && mode <= 1) compareOne(*a, i, "same_session", probe);
		else if (mode == 2 && clean && probe.size() > 1) { // Others between its pieces
			size_t half = size_t(h.rng.range(1, int64_t(probe.size()) - 1));
			s.reset(true);
			a->give(std::string_view(probe).substr(0, half));
			h.check(a->output.empty() || a->closed || fresh[i].output.starts_with(a->output), "answered-too-soon", [&] { return jsonQuote(a->output) + "\nto " + jsonQuote(probe.substr(0, half)); });
			if (a->output.empty() && !a->closed) {
				Connection c(h.rng.chance(50) ? other->getSession() : server->getSession());
				s.reset(false);
				c.give(h.rng.pick(s.history));
				compareOne(*a, i, "interrupted", std::string_view(probe).substr(half));
			} else { a = open(); clean = true; }
		} else compareOne(*b, i, "other_session", probe);
		if (a->closed || !a->pending.empty()) { a = open(); clean = true; }
		if (b->closed || !b->pending.empty()) b = open();
	}
	h.count("history", int64_t(historyDone));
	h.count(std::string("scenarios_") + name);
	for (auto& it : s.probes) h.sign(it);
	h.sample(std::string(name) + " " + jsonQuote(s.probes.back(), 200) + " -> " + fresh.back().text() + "\nafter " + sent.substr(0, 300));
}

void http(H& h) {
	HttpApp app;
	app.behaviour = respondTo;
	Scenario s;
	s.reset = [&] (bool) { app.calls.clear(); };
	s.executed = [&] { std::string r; for (auto& it : app.calls) r += it.text() + " "; return r; };
	for (int n = int(h.rng.range(2, 8)); n > 0; n--) s.history.push_back(h.rng.chance(70) ? randomRequest(h.rng, h.rng.chance(10)).text : badHttp(h.rng));
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) s.probes.push_back(h.rng.chance(85) ? randomRequest(h.rng, h.rng.chance(20)).text : badHttp(h.rng));
	compare(h, s, "http", [&] { return std::make_unique<HttpServer<>>(app, app); });
}

void resetWorld(Scenario& s, Rpc::World& w, uint64_t seed) {
	s.executed = executedCalls;
	s.reset = [&w, seed] (bool probing) {
		w.calls.clear();
		w.retSeed = probing ? seed : seed + 1;
		w.before = failures(seed + (probing ? 0 : 5));
	};
}

void jsonRpc(H& h) {
	Rpc::World& w = *Rpc::world;
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	Scenario s;
	resetWorld(s, w, h.rng.next());
	auto make = [&] { return jsonRpcRequest(h, tree); };
	for (int n = int(h.rng.range(2, 6)); n > 0; n--) s.history.push_back(make());
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) s.probes.push_back(make());
	compare(h, s, "json_rpc", [&] { return std::make_unique<JsonRpcServer<>>(*tree.root); });
}

void form(H& h) {
	Rpc::World& w = *Rpc::world;
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	Scenario s;
	resetWorld(s, w, h.rng.next());
	auto make = [&] { return formRequest(h, tree); };
	for (int n = int(h.rng.range(2, 6)); n > 0; n--) s.history.push_back(make());
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) s.probes.push_back(make());
	Files files;
	HtmlPostResponder<> post(*tree.root);
	RpcGetResponder<> get(files, *tree.root);
	compare(h, s, "form", [&] { return std::make_unique<HttpServer<>>(get, post); });
}

template <typename SizeType, int Depth>
void binary(H& h) {
	Rpc::World& w = *Rpc::world;
	w.limits = {20, 2, 3};
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, Depth)));
	Scenario s;
	resetWorld(s, w, h.rng.next());
	auto make = [&] { return binaryRequest<SizeType>(h, tree); };
	for (int n = int(h.rng.range(2, 6)); n > 0; n--) s.history.push_back(make());
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) s.probes.push_back(make());
	compare(h, s, "binary", [&] { return std::make_unique<BinaryProtocolServer<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth>>(*tree.root); });
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	w.limits = {30, 2, 4};
	switch (h.rng.below(5)) {
	case 0: case 1: http(h); break;
	case 2: jsonRpc(h); break;
	case 3: form(h); break;
	default: if (h.rng.chance(50)) binary<uint16_t, 4>(h); else binary<uint32_t, 4>(h);
	}
	Rpc::world = nullptr;
}
