// JSON-RPC requests of all kinds made independently of the library, with what the server has to do about them
#ifndef VERIF_JSONRPC_MODEL
#define VERIF_JSONRPC_MODEL
#include "rpc_model.hpp"
#include "http_model.hpp"
#include "bomba_json_rpc.hpp"

namespace JsonRpc {
struct Entry {
	std::string text, what;
	bool answered = true, executed = false;
	JVal id;
	bool error = false;
	std::set<int> codes;
	JVal result;
	std::function<void(H&, const Rpc::Invocation&)> verify;
	bool uncertain = false; // Only well-formedness of the response is known
};
struct Failures { // Which executions will end by an exception
	std::map<size_t, int> kinds;
	void install(Rpc::World& w) {
		w.before = [this, &w] (int) {
			auto found = kinds.find(w.calls.size() - 1);
			if (found == kinds.end()) return;
			switch (found->second) {
			case 0: throw std::runtime_error("it \"failed\"\n with \\ reason \x01");
			case 1: throw 13;
			case 2: throw Bomba::RemoteError("remote");
			case 3: throw Bomba::ParseError("parse");
			case 4: throw std::bad_alloc();
			case 5: throw std::logic_error("");
			}
		};
	}
};
inline JVal numberText(std::string s) { JVal v; v.kind = JVal::NUM; v.num = std::move(s); return v; }
inline JVal randomId(Rng& rng) {
	switch (rng.below(10)) {
	case 0: return JVal::integer(int64_t(rng.next()) >> rng.below(63));
	case 1: return JVal::integer(rng.chance(50) ? INT64_MAX : INT64_MIN);
	case 2: return numberText(rng.chance(50) ? "1.5" : "-0.25");
	case 3: return numberText("18446744073709551615");
	case 4: return JVal::null();
	case 5: case 6: return JVal::string(randomText(rng, 12, 200));
	case 7: return JVal::string(rng.chance(50) ? "1" : "null");
	default: return JVal::integer(rng.range(0, 1000));
	}
}
inline bool sameId(const JVal& a, const JVal& b) {
	if (a.kind != b.kind) return false;
	if (a.kind == JVal::NUM) {
		auto small = [] (const JVal& v) { return v.isInteger() && v.num.size() < 19; };
		if (a.num == b.num) return true;
		if (small(a) && small(b)) return atoll(a.num.c_str()) == atoll(b.num.c_str());
		if (a.isInteger() && b.isInteger() && a.num.size() < 20 && b.num.size() < 20) return false;
		return a.asDouble() == b.asDouble();
	}
	return sameJson(a, b);
}
template <typename T>
bool wrongFor(Rng& rng, JVal& out) { // A value that certainly cannot be this argument
	std::vector<JVal> bad;
	JVal arr = JVal::array(), obj = JVal::object();
	arr.arr.push_back(JVal::boolean(true));
	obj.obj.emplace_back("a", JVal::array());
	if constexpr (std::is_same_v<T, bool>) bad = {JVal::string("true"), JVal::integer(1), arr, obj};
	else if constexpr (std::is_arithmetic_v<T>) bad = {JVal::string("1"), JVal::boolean(true), arr, obj, JVal::string("")};
	else if constexpr (std::is_same_v<T, std::string>) bad = {JVal::integer(5), JVal::boolean(false), arr, obj};
	else if constexpr (IsVector<T>::value || IsArray<T>::value) bad = {JVal::integer(5), JVal::string("[]"), JVal::boolean(true)};
	else if constexpr (IsMap<T>::value || ZooStruct<T>) bad = {JVal::integer(5), JVal::string("{}"), JVal::boolean(true), arr};
	else return false;
	out = rng.pick(bad);
	return true;
}

// One request; `order` is how many executions precede it, increased if it is executed
inline Entry makeEntry(H& h, Rpc::Tree& tree, size_t& order, Failures& failures) {
	Rng& rng = h.rng;
	Entry e;
	JsonSpeller speller(rng);
	int kind = int(rng.below(100)); // 0-49 valid, 50-59 fails, 60-64 unknown method, 65-71 wrong arguments, 72-... invalid
	bool notification = rng.chance(15);
	JVal id = randomId(rng);
	e.id = id;
	if (notification) { e.answered = false; e.id = JVal::null(); }
	auto& leaf = rng.pick(tree.leaves);
	std::string method;
	for (auto& it : leaf.path) method += (method.empty() ? "" : ".") + it;
	JVal params = JVal::object();
	bool hasParams = true;
	bool wrong = false;
	Rpc::withProcedure(leaf.id, [&] <typename P> () {
		auto args = std::make_shared<typename P::Args>();
		bool any = false;
		[&] <size_t... I> (std::index_sequence<I...>) {
			size_t spoiled = kind >= 65 && kind <= 71 && sizeof...(I) ? rng.below(sizeof...(I)) : 1000;
			auto one = [&] <size_t i> (std::integral_constant<size_t, i>) {
				using T = std::tuple_element_t<i, typename P::Args>;
				if (i == spoiled) {
					JVal bad;
					if (wrongFor<T>(rng, bad)) { params.obj.emplace_back(P::arg(i), bad); wrong = true; any = true; return; }
				}
				if (rng.chance(8)) return; // Omitted, has the default value
				fill(rng, std::get<i>(*args), Rpc::world->limits);
				params.obj.emplace_back(P::arg(i), model(std::get<i>(*args)));
				any = true;
			};
			(one(std::integral_constant<size_t, I>()), ...);
		} (std::make_index_sequence<std::tuple_size_v<typename P::Args>>());
		if (rng.chance(15)) {
			std::string extra = rng.chance(50) ? "unexpected" : randomText(rng, 5, 10);
			bool clash = params.find(extra);
			for (size_t i = 0; i < std::tuple_size_v<typename P::Args>; i++) clash = clash || extra == P::arg(i);
			if (!clash) { params.obj.emplace_back(extra, randomJson(rng)); any = true; }
		}
		if (!any && rng.chance(60)) hasParams = false;
		e.verify = [args, text = Rpc::showAll(*args)] (H& h, const Rpc::Invocation& call) {
			h.check(call.id == P::id, "other-procedure", [&] { return std::to_string(call.id) + " executed instead of " + std::to_string(P::id); });
			auto& got = *static_cast<typename P::Args*>(call.args.get());
			h.check(Rpc::sameAll(got, *args), "other-arguments", [&] { return text + "\nwas executed with " + Rpc::showAll(got); });
		};
		if constexpr (!std::is_void_v<typename P::Ret>) e.result = model(Rpc::returned<typename P::Ret>(*Rpc::world, order));
		e.what = "procedure " + std::to_string(P::id);
	});
	JVal request = JVal::object();
	JVal version = JVal::string("2.0"), methodValue = JVal::string(method);
	bool hasVersion = true, hasMethod = true, hasId = !notification;
	std::vector<std::pair<std::string, JVal>> additional;
	if (kind <= 49) { e.executed = true; }
	else if (kind <= 59) {
		e.executed = true;
		e.error = true;
		int failure = int(rng.below(6));
		failures.kinds[order] = failure;
		e.codes = failure == 2 || failure == 3 ? std::set<int>{-32602, -32603} : std::set<int>{-32603};
		e.what += " throwing";
	} else if (kind <= 64) {
		e.error = true;
		e.codes = {-32601};
		static const char* unknown[] = {"", ".", "nonexistent", "a.b.c.d.e", "rpc.discover", "x..y"};
		std::string given;
		switch (rng.below(4)) {
		case 0: given = unknown[rng.below(std::size(unknown))]; break;
		case 1: given = method + (rng.chance(50) ? ".x" : "x"); break;
		case 2: given = method.substr(0, method.size() - 1); break;
		default: { auto& inner = rng.pick(tree.inner); for (auto& it : inner.first) given += (given.empty() ? "" : ".") + it; }
		}
		for (auto& it : tree.leaves) { // It might exist by chance
			std::string path;
			for (auto& p : it.path) path += (path.empty() ? "" : ".") + p;
			if (path == given) given = "nonexistent";
		}
		methodValue = JVal::string(given);
		e.what = "unknown method " + jsonQuote(given);
	} else if (kind <= 71) {
		if (wrong) { e.error = true; e.codes = {-32602}; e.what += " with wrong arguments"; }
		else e.executed = true;
	} else if (kind <= 74) {
		JVal positional = JVal::array();
		for (auto& it : params.obj) positional.arr.push_back(it.second);
		params = positional;
		hasParams = true;
		e.uncertain = true; // Support is not promised
		e.what += " with positional parameters";
	} else {
		e.error = true;
		e.codes = {-32600};
		e.answered = true;
		int invalid = int(rng.below(9));
		JVal odd[] = {JVal::integer(2), numberText("2.0"), JVal::null(), JVal::boolean(true), JVal::array(), JVal::object()};
		switch (invalid) {
		case 0: hasVersion = false; e.what += " without version"; break;
		case 1: version = rng.chance(50) ? JVal::string(rng.chance(50) ? "1.0" : "") : rng.pick(odd); e.what += " with wrong version"; break;
		case 2: hasMethod = false; e.what += " without method"; break;
		case 3: methodValue = rng.pick(odd); e.what += " with odd method"; break;
		case 4: params = rng.chance(50) ? JVal::string("{}") : odd[rng.below(4)]; hasParams = true; e.what += " with odd params"; break;
		case 5: {
			JVal ids[] = {JVal::boolean(true), JVal::array(), JVal::object()};
			id = rng.pick(ids); hasId = true; e.id = JVal::null(); e.what += " with odd id"; break;
		}
		case 6: {
			std::string names[] = {"extra", "Method", "jsonrp", "result", "ids", ""};
			additional.emplace_back(rng.pick(names), randomJson(rng)); e.what += " with another member"; break;
		}
		case 7: hasVersion = hasMethod = hasParams = false; e.what = "almost empty"; break;
		default: { // Not an object
			JVal others[] = {JVal::integer(1), JVal::string("x"), JVal::null(), JVal::boolean(true), JVal::array()};
			request = rng.pick(others);
			if (request.kind == JVal::ARR) request.arr.push_back(JVal::integer(1));
			e.id = JVal::null();
			e.what = "not an object";
		}
		}
	}
	if (request.kind == JVal::OBJ) {
		if (hasVersion) request.obj.emplace_back("jsonrpc", version);
		if (hasId) request.obj.emplace_back("id", id);
		if (hasMethod) request.obj.emplace_back("method", methodValue);
		if (hasParams) request.obj.emplace_back("params", params);
		for (auto& it : additional) request.obj.push_back(it);
	}
	speller.respell = kind < 50; // Other spellings of numbers, not for identifiers
	if (hasId && id.kind == JVal::NUM) speller.respell = false;
	e.text = speller.print(request);
	if (e.uncertain) {
		// It may or may not be executed, so such requests are used only as the last ones
	} else if (e.executed) order++;
	e.what += ": " + e.text;
	return e;
}

// Whether it's the response demanded, empty or text of the problem
inline std::string wrongResponse(const JVal& r, const Entry* e) {
	if (r.kind != JVal::OBJ) return "not an object";
	auto version = r.find("jsonrpc"), id = r.find("id"), result = r.find("result"), error = r.find("error");
	if (!version || version->kind != JVal::STR || version->s != "2.0") return "wrong version marker";
	if (!id) return "no id";
	if (bool(result) == bool(error)) return "not exactly one of result and error";
	if (r.obj.size() != 3) return "additional members";
	if (error) {
		if (error->kind != JVal::OBJ) return "error is not an object";
		auto code = error->find("code"), message = error->find("message");
		if (!code || !code->isInteger()) return "no integer code of error";
		if (!message || message->kind != JVal::STR) return "no message of error";
		for (auto& it : error->obj) if (it.first != "code" && it.first != "message" && it.first != "data") return "strange member of error";
	}
	if (!e) return "";
	if (!sameId(*id, e->id)) return "other id";
	if (e->uncertain) return "";
	if (e->error) {
		if (!error) return "result instead of an error";
		if (!e->codes.contains(atoi(error->find("code")->num.c_str()))) return "unexpected code of error";
	} else {
		if (!result) return "error instead of a result";
		if (!sameJson(*result, e->result)) return "other result";
	}
	return "";
}

inline std::string httpRequest(Rng& rng, const std::string& body) {
	return "POST /" + std::string(rng.chance(50) ? "" : "api") + " HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
}
// Sends one body to a session, gives the body of response
template <typename Session>
std::string ask(H& h, Session& session, const std::string& body, int wantedStatus = 200) {
	std::string request = httpRequest(h.rng, body);
	Rpc::world->onServer = true;
	auto outcome = feedSegments(session, request, h.rng.chance(50) ? std::vector<size_t>{} : randomCuts(h.rng, request.size()));
	Rpc::world->onServer = false;
	h.check(outcome.problem.empty(), "session", [&] { return outcome.problem + " for " + body; });
	std::vector<HttpResponse> responses;
	std::string problem = parseHttpResponses(outcome.output, responses);
	h.check(problem.empty() && responses.size() == 1, "http-response", [&] { return problem + " " + jsonQuote(outcome.output) + "\nfor " + body; });
	h.check(responses[0].status == wantedStatus, "http-status", [&] { return jsonQuote(outcome.output) + "\nfor " + body; });
	if (wantedStatus == 200 && !responses[0].body.empty()) {
		auto type = responses[0].header("content-type");
		h.check(type && *type == "application/json", "content-type", [&] { return jsonQuote(outcome.output); });
	}
	return responses[0].body;
}
inline JVal parsed(H& h, const std::string& text, const std::string& request) {
	try {
		return JsonParser::parse(text);
	} catch (JsonSyntax& e) {
		h.fail("malformed-response", std::string(e.what()) + " in " + jsonQuote(text) + "\nfor " + request);
	}
}
}
#endif
