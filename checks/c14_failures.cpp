// Calls that fail in any way end by exceptions, those after them are not affected
#include "rpc_model.hpp"
#include "http_model.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
using namespace Bomba;

namespace {
const FillLimits limits{60, 3, 6};
enum Protocol { BINARY, JSON, FORM };
const char* protocolNames[] = {"binary", "json", "form"};

struct Plan {
	enum Kind { FINE, THROWS, UNKNOWN, REFUSED, ALTERED, BROKEN, CLOSED } kind = FINE;
	int how = 0;
	std::string what = "fine";
	bool executed = true, responded = true, closes = false, isVoid = false;
	int64_t order = -1;
	JVal wrongResult;
};
std::string frame(int status, const std::string& body) { return "HTTP/1.1 " + std::to_string(status) + " X\r\nContent-Length: " + std::to_string(body.size()) + "\r\nContent-Type: application/json\r\n\r\n" + body; }

Plan makePlan(H& h, Protocol protocol, bool isVoid, bool argsNeeded, const JVal* model) {
	Plan p;
	p.isVoid = isVoid;
	int k = int(h.rng.below(100));
	p.kind = k < 40 ? Plan::FINE : k < 50 ? Plan::THROWS : k < 58 ? Plan::UNKNOWN : k < 64 ? Plan::REFUSED : k < 90 ? Plan::ALTERED : k < 96 ? Plan::BROKEN : Plan::CLOSED;
	if (p.kind == Plan::REFUSED && (!argsNeeded || protocol == FORM)) p.kind = Plan::THROWS;
	if (p.kind == Plan::ALTERED && protocol == BINARY && isVoid) p.kind = Plan::BROKEN;
	p.how = int(h.rng.below(1000));
	switch (p.kind) {
	case Plan::FINE: break;
	case Plan::THROWS: p.what = "throws"; break;
	case Plan::UNKNOWN: p.what = "unknown"; p.executed = false; break;
	case Plan::REFUSED: p.what = "refused"; p.executed = false; break;
	case Plan::ALTERED: p.what = "altered"; break;
	case Plan::BROKEN: p.what = "broken"; p.closes = true; break;
	case Plan::CLOSED: p.what = "closed"; p.closes = true; break;
	}
	if (protocol == BINARY && (p.kind == Plan::THROWS || p.kind == Plan::UNKNOWN || p.kind == Plan::REFUSED)) { p.closes = true; p.responded = false; }
	if (model) { // Of a kind that can't be read as the result
		if (model->kind == JVal::OBJ || model->kind == JVal::ARR) p.wrongResult = h.rng.chance(50) ? JVal::integer(3) : h.rng.chance(50) ? JVal::string("text") : model->kind == JVal::OBJ ? JVal::array() : JVal::object();
		else if (model->kind == JVal::STR) p.wrongResult = h.rng.chance(50) ? JVal::integer(3) : h.rng.chance(50) ? JVal::array() : JVal::boolean(true);
		else p.wrongResult = h.rng.chance(50) ? JVal::string("text") : h.rng.chance(50) ? JVal::array() : JVal::object();
	}
	return p;
}

void alterJsonRequest(H& h, Plan& p, std::string& bytes) {
	size_t end = bytes.find("\r\n\r\n") + 4;
	JVal request = JsonParser::parse(bytes.substr(end));
	for (auto& [name, value] : request.obj) {
		if (p.kind == Plan::UNKNOWN && name == "method") value.s = h.rng.chance(50) ? value.s + "x" : h.rng.chance(50) ? "x." + value.s : "nothing";
		if (p.kind == Plan::REFUSED && name == "params") for (auto& [argName, arg] : value.obj) {
			if (arg.kind == JVal::OBJ) arg = JVal::integer(3);
			else if (arg.kind == JVal::ARR) arg = JVal::string("x");
			else arg = JVal::object();
		}
	}
	JsonSpeller speller(h.rng);
	std::string body = speller.print(request);
	bytes = "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
}
void alterBinaryRequest(H& h, Plan& p, std::string& bytes, int sizeBytes) {
	if (p.kind == Plan::UNKNOWN) bytes[4 + sizeBytes] = char(h.rng.range(100, 255));
	else bytes.resize(bytes.size() - 1);
	uint64_t n = bytes.size();
	memcpy(&bytes[4], &n, sizeBytes);
}
void alterFormRequest(H& h, Plan& p, std::string& bytes) {
	size_t at = bytes.find(" HTTP/1.1");
	bytes.insert(at, h.rng.chance(50) ? "x" : "/nothing");
}
std::string garbage(H& h, int how) {
	switch (how % 8) {
	case 0: return randomBytes(h.rng, h.rng.range(1, 3000));
	case 1: return "HTTP/1.1 abc OK\r\nContent-Length: 5\r\n\r\nabcde";
	case 2: return "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabcde";
	case 3: return "HTTP/1.1 200 OK\r\n\r\n{}";
	case 4: return "HTTP/1.1 200 OK\r\nContent-Length: 999999999999999999999\r\n\r\nabcde";
	case 5: return "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 7\r\n\r\nabcdefg";
	case 6: return "220 smtp.example.com ESMTP\r\n\r\n";
	default: return "HTTP/1.1\r\n\r\n";
	}
}
void alterJsonResponse(H& h, Plan& p, std::string& bytes, Protocol protocol) {
	std::vector<HttpResponse> got;
	std::string problem = parseHttpResponses(bytes, got);
	if (!problem.empty() || got.size() != 1) h.fail("malformed-response", problem + ": " + jsonQuote(bytes));
	if (p.kind == Plan::BROKEN) {
		if (h.rng.chance(60)) { p.what += " cut"; bytes.resize(h.rng.below(bytes.size())); }
		else { p.what += " garbage"; bytes = garbage(h, p.how); }
		return;
	}
	std::string body = got[0].body;
	auto status = [&] { static const int s[] = {300, 301, 400, 401, 403, 404, 500, 501, 503, 304}; return s[h.rng.below(std::size(s))]; };
	if (protocol == FORM) { bytes = frame(status(), body); p.what += " status"; return; }
	JVal r = JsonParser::parse(body);
	JsonSpeller speller(h.rng);
	auto remove = [&] (const char* name) { for (size_t i = 0; i < r.obj.size(); i++) if (r.obj[i].first == name) { r.obj.erase(r.obj.begin() + i); return true; } return false; };
	auto set = [&] (const char* name, JVal v) { remove(name); r.obj.emplace_back(name, v); };
	int64_t id = r.find("id") ? atoll(r.find("id")->num.c_str()) : 0;
	int how = p.how % 9;
	if (how == 6 && p.isVoid) how = 4;
	if (how == 7 && p.isVoid) how = 3;
	switch (how) {
	case 0: { int s = status(); if (s == 304) { s = 404; } bytes = frame(s, body); p.what += " status"; return; }
	case 1: bytes = frame(200, body.substr(0, h.rng.below(body.size()))); p.what += " incomplete"; return;
	case 2: { // Not a response at all
		static const char* other[] = {"", "null", "5", "\"text\"", "{}", "[]", "<html></html>", "{\"jsonrpc\":\"2.0\"}", "{\"jsonrpc\":\"2.0\",\"id\":null}"};
		body = other[h.rng.below(std::size(other))];
		if (h.rng.chance(20)) body = randomBytes(h.rng, h.rng.range(1, 200));
		bytes = frame(200, body);
		p.what += " nonsense " + body;
		return;
	}
	case 3: { // Of another request
		int n = int(h.rng.below(5));
		p.what += " id" + std::to_string(n);
		if (n == 0) set("id", JVal::integer(id + h.rng.range(1, 1000)));
		else if (n == 1) set("id", JVal::null());
		else if (n == 2) set("id", JVal::string("x"));
		else if (n == 3) set("id", JVal::integer(-id));
		else remove("id");
		break;
	}
	case 4: { // Error
		remove("result");
		JVal error = JVal::object();
		int n = int(h.rng.below(4));
		p.what += " error" + std::to_string(n);
		if (n != 1) error.obj.emplace_back("code", JVal::integer(h.rng.range(-33000, 0)));
		if (n != 2) error.obj.emplace_back("message", JVal::string(randomText(h.rng, 20, 200)));
		if (n == 3) error.obj.emplace_back("data", randomJson(h.rng, 3));
		set("error", error);
		break;
	}
	case 5: if (!p.isVoid || h.rng.chance(50)) { set("error", JsonParser::parse("{\"code\":-32000,\"message\":\"failed\"}")); p.what += " error-and-result"; break; } [[fallthrough]];
	case 6: if (!p.isVoid) { remove("result"); p.what += " no-result"; break; } [[fallthrough]];
	case 7: if (!p.isVoid) { set("result", p.wrongResult); p.what += " result-kind"; break; } [[fallthrough]];
	default: { JVal error = JsonParser::parse("{\"code\":-32603,\"message\":\"Internal error\"}"); remove("result"); set("error", error); p.what += " error"; }
	}
	bytes = frame(200, speller.print(r));
}
void alterBinaryResponse(H& h, Plan& p, std::string& bytes, int sizeBytes) {
	if (p.kind == Plan::ALTERED) { // Ends inside the result
		size_t header = 4 + sizeBytes;
		if (bytes.size() > header) bytes.resize(header + h.rng.below(bytes.size() - header));
		uint64_t n = bytes.size();
		memcpy(&bytes[4], &n, sizeBytes);
		p.what += " shortened";
		return;
	}
	switch (p.how % 4) {
	case 0: case 1: bytes.resize(h.rng.below(bytes.size())); p.what += " cut"; break;
	case 2: { uint64_t n = h.rng.below(4 + sizeBytes); memcpy(&bytes[4], &n, sizeBytes); p.what += " too-small-size"; break; }
	default: { uint32_t id; memcpy(&id, &bytes[0], 4); id += 1000 + uint32_t(h.rng.below(1000000)); memcpy(&bytes[0], &id, 4); p.what += " other-id"; }
	}
}

template <typename Connection>
void perform(H& h, Connection& connection, Rpc::Tree& client, Rpc::Tree& server, Protocol protocol, int sizeBytes, int64_t maxDepth) {
	Rpc::World& w = *Rpc::world;
	std::vector<size_t> usable;
	for (size_t i = 0; i < server.leaves.size(); i++) {
		if (int64_t(server.leaves[i].path.size()) > maxDepth) continue;
		bool ok = protocol != BINARY || !server.leaves[i].path.empty(); // Without a path there is none to spoil
		if (protocol == FORM) Rpc::withProcedure(server.leaves[i].id, [&] <typename P> () { ok = Rpc::formable<P>(); });
		if (protocol == FORM) for (auto& name : server.leaves[i].path) for (unsigned char c : name) if (c <= ' ' || c > 126) ok = false;
		if (ok) usable.push_back(i);
	}
	if (usable.empty()) { h.nontrivial = false; h.count("nothing_usable"); return; }
	w.retSeed = h.rng.next();
	std::vector<Plan> plans;
	std::vector<size_t> toExecute; // Plans in order
	size_t written = 0, responded = 0;
	auto describe = [&] { std::string r = protocolNames[protocol]; for (auto& it : plans) r += ", " + it.what; return r; };
	w.before = [&] (int) {
		size_t order = w.calls.size() - 1;
		if (order >= toExecute.size()) return; // Reported later
		Plan& p = plans[toExecute[order]];
		if (p.kind != Plan::THROWS) return;
		switch (p.how % 4) {
		case 0: throw std::runtime_error("failed");
		case 1: throw std::bad_alloc();
		case 2: throw RemoteError("refused");
		default: throw std::string("failed");
		}
	};
	connection.alterRequest = [&] (std::string& bytes) {
		if (written >= plans.size()) h.fail("unexpected-request", describe());
		Plan& p = plans[written++];
		if (p.kind != Plan::UNKNOWN && p.kind != Plan::REFUSED) return;
		if (protocol == JSON) alterJsonRequest(h, p, bytes);
		else if (protocol == BINARY) alterBinaryRequest(h, p, bytes, sizeBytes);
		else alterFormRequest(h, p, bytes);
	};
	connection.alterResponse = [&] (std::string& bytes) {
		while (responded < plans.size() && !plans[responded].responded) responded++;
		if (responded >= plans.size()) h.fail("unexpected-response", describe());
		Plan& p = plans[responded++];
		if (p.kind == Plan::CLOSED) bytes.clear();
		else if (p.kind == Plan::ALTERED || p.kind == Plan::BROKEN) {
			if (protocol == BINARY) alterBinaryResponse(h, p, bytes, sizeBytes);
			else alterJsonResponse(h, p, bytes, protocol);
		}
		if (p.closes) connection.closed = true;
	};
	bool closed = false;
	int rounds = int(h.rng.range(2, 6));
	for (int round = 0; round < rounds; round++) {
		bool async = h.rng.chance(50);
		int count = async ? int(h.rng.range(1, 5)) : 1;
		struct Made { size_t plan; Rpc::Pending pending; bool valueDue; };
		std::vector<Made> made;
		auto failedAsItShould = [&] (Plan& p, bool due, const std::function<void()>& act) { // True if it succeeded
			std::string problem;
			try {
				act();
				h.check(due, "value-instead-of-failure", [&] { return p.what + " succeeded in " + describe(); });
				return true;
			} catch (ViolationFound&) {
				throw;
			} catch (Rpc::NoResponse&) {
				h.fail("waits-forever", p.what + " in " + describe());
			} catch (std::exception& e) {
				problem = e.what();
			} catch (...) {
				h.fail("not-an-exception-class", p.what + " in " + describe());
			}
			h.check(!due, "failed-call", [&] { return p.what + " failed by " + problem + " in " + describe(); });
			return false;
		};
		for (int i = 0; i < count; i++) {
			size_t leaf = h.rng.pick(usable);
			Rpc::withProcedure(server.leaves[leaf].id, [&] <typename P> () {
				constexpr bool isVoid = std::is_void_v<typename P::Ret>;
				std::optional<JVal> result;
				if constexpr (!isVoid) result = model(typename P::Ret{});
				Plan p = makePlan(h, protocol, isVoid, std::tuple_size_v<typename P::Args> > 0, result ? &*result : nullptr);
				if (p.kind == Plan::REFUSED) { // Must not be possible to read it otherwise
					bool sure = true;
					[&] <size_t... I> (std::index_sequence<I...>) { ((sure = sure && !P::omits(int(I))), ...); } (std::make_index_sequence<std::tuple_size_v<typename P::Args>>());
					if constexpr (std::tuple_size_v<typename P::Args> > 0) {
						using Last = std::tuple_element_t<std::tuple_size_v<typename P::Args> - 1, typename P::Args>;
						if (protocol == BINARY && isBlank(Last{})) sure = false;
					}
					if (!sure) { p = Plan(); p.isVoid = isVoid; }
				}
				bool due = p.kind == Plan::FINE && !closed;
				if (!closed && p.executed) { p.order = int64_t(toExecute.size()); toExecute.push_back(plans.size()); }
				plans.push_back(p);
				h.sign(p.what + std::to_string(p.how));
				size_t index = plans.size() - 1;
				auto start = [&] {
					made.push_back({index, Rpc::startCall<P>(h, *static_cast<typename P::Object*>(client.leaves[leaf].object), server.leaves[leaf].object, async, limits), due});
				};
				if (!async) failedAsItShould(plans[index], due, start);
				else { // Only sent, the outcome comes later
					try { start(); }
					catch (ViolationFound&) { throw; }
					catch (std::exception& e) { h.check(closed, "sending-fails", [&] { return std::string(e.what()) + " in " + describe(); }); }
				}
				h.count(std::string(protocolNames[protocol]) + "_" + plans[index].what.substr(0, plans[index].what.find(' ')));
				if (p.closes) closed = true;
			});
		}
		if (async) {
			std::vector<size_t> order;
			for (size_t i = 0; i < made.size(); i++) order.push_back(i);
			for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[h.rng.below(j)]);
			for (auto i : order) {
				Made& m = made[i];
				if (h.rng.chance(30)) {
					try { h.count(made[h.rng.below(made.size())].pending.ready() ? "ready" : "not_ready"); }
					catch (ViolationFound&) { throw; }
					catch (std::exception& e) { h.check(closed, "asking-fails", [&] { return std::string(e.what()) + " in " + describe(); }); }
				}
				if (h.rng.chance(10)) { h.count("dropped"); m.valueDue = false; m.pending.take = {}; m.pending.ready = [] { return true; }; m.pending.verifyResult = {}; continue; } // Nobody wants it
				bool got = failedAsItShould(plans[m.plan], m.valueDue, m.pending.take);
				if (h.rng.chance(30)) { // The same again
					h.check(m.pending.ready(), "done-but-not-ready", describe);
					failedAsItShould(plans[m.plan], got, m.pending.take);
				}
			}
		}
		// Those that were successful have their own results
		for (auto& m : made) {
			if (!m.valueDue) continue;
			size_t order = size_t(plans[m.plan].order);
			h.check(order < w.calls.size(), "not-executed", describe);
			m.pending.verifyExecution(h, w.calls[order]);
			m.pending.verifyResult(h, order);
			h.count("values");
		}
	}
	size_t due = 0;
	bool stopped = false;
	for (auto& p : plans) { if (!stopped && p.executed) due++; if (p.closes) stopped = true; }
	h.check(w.calls.size() <= due, "executed-more", [&] { return std::to_string(w.calls.size()) + " executed in " + describe(); });
	for (auto& p : plans) if (p.what != "fine") { h.count(std::string("kind_") + protocolNames[protocol] + " " + (p.what.find("nonsense") != std::string::npos ? "altered nonsense" : p.what)); h.count("failures"); }
	h.sample(describe());
	h.sign(client.text);
}

template <typename SizeType, int Depth>
void binary(H& h, Rpc::Tree& client, Rpc::Tree& server) {
	BinaryProtocolServer<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth> responder(*server.root);
	Rpc::MemoryConnection connection(h, responder.getSession());
	BinaryProtocolClient<SizeType, ExpandingBuffer<>, LittleEndianNumberFormat<ExpandingBuffer<>>, Depth> rpcClient(*client.root, connection);
	perform(h, connection, client, server, BINARY, sizeof(SizeType), Depth);
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	uint64_t seed = h.rng.next();
	int protocol = int(h.rng.below(6));
	int depth = int(h.rng.range(1, 4));
	Rpc::Tree client(seed, depth), server(seed, depth);
	if (protocol == 0) binary<uint16_t, 3>(h, client, server);
	else if (protocol == 1) binary<uint32_t, 6>(h, client, server);
	else if (protocol <= 4) {
		JsonRpcServer<> responder(*server.root);
		Rpc::MemoryConnection connection(h, responder.getSession());
		JsonRpcClient<> rpcClient(*client.root, connection, "example.com");
		perform(h, connection, client, server, JSON, 0, 100);
	} else {
		HtmlPostResponder<> post(*server.root);
		struct NoGet : IHttpGetResponder { bool get(std::string_view, IWriteStarter&) override { return false; } } get;
		HttpServer<> responder(get, post);
		Rpc::MemoryConnection connection(h, responder.getSession());
		HttpClient<> http(connection, "example.com");
		client.root->setResponder(http);
		perform(h, connection, client, server, FORM, 0, 100);
	}
	Rpc::world = nullptr;
}
