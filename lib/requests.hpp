// Requests of all kinds for all kinds of servers, and connections giving them to sessions
#ifndef VERIF_REQUESTS
#define VERIF_REQUESTS
#include "jsonrpc_model.hpp"
#include "bomba_binary_protocol.hpp"

namespace Requests {
using namespace Bomba;
template <typename Session>
struct Connection { // A session that may be replaced by another one
	Session session;
	std::string pending, output;
	bool closed = false, broken = false;
	std::string problem;
	Connection(Session&& s) : session(std::move(s)) {}
	void give(std::string_view piece) {
		pending.append(piece);
		while (!pending.empty() && !closed) {
			ExactBytes given(pending);
			std::pair<ServerReaction, int64_t> got;
			try {
				got = session.respond(std::span<char>(given.data, given.size), [&] (const std::span<const char>& part) { output.append(part.data(), part.size()); });
			} catch (std::exception& e) {
				problem = std::string("exception left respond(): ") + e.what();
				closed = true;
				return;
			}
			if (got.second < 0 || got.second > int64_t(given.size)) { problem = "wrong consumed size"; closed = true; return; }
			pending = given.view();
			if (got.first == ServerReaction::OK) {
				if (got.second == 0) { problem = "OK without consuming"; closed = true; return; }
				pending.erase(0, size_t(got.second));
			} else if (got.first == ServerReaction::READ_ON) return;
			else closed = true;
		}
	}
	void giveCut(Rng& rng, std::string_view text) {
		size_t at = 0;
		std::vector<size_t> cuts;
		if (rng.chance(60)) cuts = randomCuts(rng, text.size());
		for (auto cut : cuts) { give(text.substr(at, cut - at)); at = cut; }
		give(text.substr(at));
	}
};

struct Outcome {
	std::string output, executed;
	bool closed = false, unfinished = false;
	bool operator==(const Outcome&) const = default;
	std::string text() const { return jsonQuote(output, 600) + (closed ? " closed" : "") + (unfinished ? " unfinished" : "") + "\nexecuted " + executed; }
};

inline bool respondTo(const HttpCall& call, IWriteStarter& writer) { // Determined by the call only
	Rng rng(hashBytes(call.path + "\n" + call.type + "\n" + call.body) + call.post);
	std::string body = "response to " + call.path.substr(0, 20) + " " + randomBytes(rng, rng.size(30, 3000));
	int mode = int(rng.below(12));
	if (mode < 4) writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += std::string_view(body); });
	else if (mode < 7) writer.writeKnownSize("text/html", body.size(), [&] (GeneralisedBuffer& out) { out += std::string_view(body); });
	else if (mode == 7) return false;
	else if (mode == 8) throw std::runtime_error("failed");
	else if (mode == 9) writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += std::string_view(body); throw std::runtime_error("failed later"); });
	else if (mode == 10) writer.writeKnownSize("text/plain", body.size(), [&] (GeneralisedBuffer& out) { out += std::string_view(body).substr(0, body.size() / 2); throw std::runtime_error("failed later"); });
	return true;
}

inline std::string badHttp(Rng& rng) { // Something not acceptable
	std::string r = randomRequest(rng, true).text;
	static const char* whole[] = {"\r\n\r\n", "GET\r\n\r\n", "GET /\r\n\r\n", " / HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5x\r\n\r\nabcde",
			"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n", "GET / HTTP/1.1\r\nno colon\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabcd", "BREW / HTCPCP/1.0\r\n\r\n"};
	if (rng.chance(40)) return whole[rng.below(std::size(whole))];
	for (int n = int(rng.range(1, 3)); n > 0 && !r.empty(); n--) {
		size_t at = rng.below(r.size());
		if (rng.chance(50)) r[at] = char(rng.next()); else r.erase(at, size_t(rng.range(1, 5)));
	}
	return r;
}

inline std::string executedCalls() {
	std::string r;
	for (auto& it : Rpc::world->calls) Rpc::withProcedure(it.id, [&] <typename P> () {
		r += std::to_string(P::id) + Rpc::showAll(*static_cast<typename P::Args*>(it.args.get())) + " ";
	});
	return r;
}

inline std::string jsonRpcRequest(H& h, Rpc::Tree& tree) {
	JsonRpc::Failures unused;
	size_t order = 0;
	std::string body;
	if (h.rng.chance(25)) {
		body = "[";
		for (int n = int(h.rng.range(0, 5)); n > 0; n--) body += JsonRpc::makeEntry(h, tree, order, unused).text + (n > 1 ? "," : "");
		body += "]";
	} else body = JsonRpc::makeEntry(h, tree, order, unused).text;
	int spoil = int(h.rng.below(12));
	if (spoil == 0) body = body.substr(0, h.rng.below(body.size() + 1));
	if (spoil == 1 && !body.empty()) body[h.rng.below(body.size())] = char(h.rng.next());
	if (spoil == 2) return badHttp(h.rng);
	return JsonRpc::httpRequest(h.rng, body);
}

inline std::string formRequest(H& h, Rpc::Tree& tree) {
	auto& leaf = h.rng.pick(tree.leaves);
	std::string path, body;
	for (auto& it : leaf.path) path += "/" + it;
	if (h.rng.chance(10)) path += h.rng.chance(50) ? "/x" : "/";
	Rpc::withProcedure(leaf.id, [&] <typename P> () {
		typename P::Args args;
		Rpc::fillArgs(h.rng, args, Rpc::world->limits);
		[&] <size_t... I> (std::index_sequence<I...>) {
			auto one = [&] <size_t i> (std::integral_constant<size_t, i>) {
				using T = std::tuple_element_t<i, typename P::Args>;
				if (h.rng.chance(10)) return;
				std::string value;
				if constexpr (std::is_same_v<T, bool>) value = "true";
				else if constexpr (std::is_arithmetic_v<T>) value = Rpc::show(std::get<i>(args));
				else if constexpr (std::is_same_v<T, std::string>) { for (char c : std::get<i>(args)) { char t[4]; snprintf(t, 4, "%%%02x", uint8_t(c)); value += t; } }
				else value = "whatever";
				if (h.rng.chance(5)) value = "%zz";
				body += (body.empty() ? "" : "&") + std::string(P::arg(i)) + "=" + value;
			};
			(one(std::integral_constant<size_t, I>()), ...);
		} (std::make_index_sequence<std::tuple_size_v<typename P::Args>>());
	});
	if (h.rng.chance(10)) return badHttp(h.rng);
	if (h.rng.chance(50)) return "POST " + path + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
	return "GET " + path + (body.empty() && h.rng.chance(50) ? "" : "?") + body + " HTTP/1.1\r\nHost: x\r\n\r\n";
}

template <typename SizeType>
std::string binaryRequest(H& h, Rpc::Tree& tree) {
	auto& leaf = h.rng.pick(tree.leaves);
	BinaryModel<SizeType> in;
	for (int index : leaf.indexes) in.out += char(index);
	if (h.rng.chance(5)) in.out[h.rng.below(in.out.size())] = char(200);
	Rpc::withProcedure(leaf.id, [&] <typename P> () {
		typename P::Args args;
		Rpc::fillArgs(h.rng, args, Rpc::world->limits);
		std::apply([&] (auto&... a) { (in.encode(a), ...); }, args);
	});
	int64_t size = int64_t(in.out.size() + 4 + sizeof(SizeType));
	if (h.rng.chance(5)) size += h.rng.range(-6, -1);
	std::string r;
	uint32_t id = uint32_t(h.rng.next());
	for (int i = 0; i < 4; i++) r += char(uint8_t(id >> (8 * i)));
	for (size_t i = 0; i < sizeof(SizeType); i++) r += char(uint8_t(uint64_t(size) >> (8 * i)));
	return r + in.out;
}

inline std::function<void(int)> failures(uint64_t seed) { // Procedures fail the same way whenever called by the same requests
	return [seed] (int id) {
		Rng rng(seed + uint64_t(id) * 77 + Rpc::world->calls.size() * 1000);
		switch (rng.below(14)) {
		case 0: throw std::runtime_error("it failed");
		case 1: throw std::logic_error("\"logic\"");
		case 2: throw RemoteError("remote");
		}
	};
}
struct Files : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		if (hashBytes(std::string(path)) % 3) return false;
		writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += "file "; out += path; });
		return true;
	}
};
}
#endif
