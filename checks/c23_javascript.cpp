// C23: the JavaScript client offers the described API, its calls are executed as requested and it refuses arguments of wrong types
#include "js_node.hpp"

namespace { Node node("js_client"); }

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	uint64_t seed = h.rng.next();
	Rpc::Tree tree(seed, int(h.rng.range(1, 4)));
	std::string description = describeInJsonWsp<std::string>(*tree.root, "http://example.com", "Tested service");
	std::string base = h.rng.chance(30) ? "" : h.rng.chance(50) ? "http://localhost:8080/" : "http://example.com/inner/";
	std::string context = "\ndescription: " + description.substr(0, 3000);
	h.sign(description);

	JVal loaded = node.ask(h, makeObject({{"op", JVal::string("load")}, {"path", JVal::string(base)}, {"description", JVal::string(description)}}));
	h.check(!loaded.find("failure"), "not-loaded", [&] { return loaded.find("failure")->s + context; });
	h.check(loaded.find("targets")->arr.size() == 1 && loaded.find("targets")->arr[0].s == base + "api_description.json", "description-requested-wrong", [&] { return Node::text(loaded); });
	std::set<std::vector<std::string>> offered, should;
	for (auto& path : loaded.find("offered")->arr) {
		std::vector<std::string> p;
		for (auto& part : path.arr) p.push_back(part.s);
		offered.insert(p);
	}
	for (auto& leaf : tree.leaves) should.insert(leaf.path);
	h.check(offered == should && loaded.find("offered")->arr.size() == should.size(), "offered-other", [&] { return Node::text(*loaded.find("offered")) + context; });
	h.count("apis");
	h.count("types", int64_t(loaded.find("types")->arr.size()));

	JsonRpcServerProtocol<> protocol(*tree.root);
	static int64_t lastId = -1;
	std::set<double> ids;
	int rounds = int(h.rng.range(2, 8));
	for (int round = 0; round < rounds; round++) {
		w.calls.clear();
		w.retSeed = h.rng.next();
		if (h.rng.chance(40)) {
			size_t leaf = h.rng.below(tree.leaves.size());
			Call call = makeCall(h, tree, leaf, true);
			if (call.present.empty()) { h.count("no_argument_to_refuse"); continue; }
			JVal command = call.given;
			size_t index = h.rng.pick(call.present);
			command.obj.emplace_back("op", JVal::string("refused"));
			command.obj.emplace_back("index", JVal::integer(int64_t(index)));
			command.obj.emplace_back("seed", JVal::integer(int64_t(h.rng.below(1ull << 31))));
			JVal got = node.ask(h, command);
			if (got.find("unsupported")) { h.count("unsupported"); continue; }
			auto detail = [&] { return call.text + "\nwith argument " + std::to_string(index) + " of type " + got.find("type")->s + " replaced by " + got.find("shown")->s + "\nsent " + Node::text(*got.find("sent")) + context; };
			h.check(got.find("sent")->arr.empty(), "wrong-type-sent", detail);
			h.check(got.find("rejected")->b, "wrong-type-not-reported", detail);
			h.sign(call.text + got.find("shown")->s);
			h.count("refused");
			continue;
		}
		std::vector<Call> calls;
		int count = h.rng.chance(50) ? 1 : int(h.rng.range(2, 6));
		JVal list = JVal::array();
		for (int i = 0; i < count; i++) {
			calls.push_back(makeCall(h, tree, h.rng.below(tree.leaves.size()), false));
			list.arr.push_back(calls.back().given);
			h.sample(calls.back().text);
			h.sign(calls.back().text);
		}
		JVal posts = node.ask(h, makeObject({{"op", JVal::string("calls")}, {"calls", list}, {"apart", JVal::boolean(h.rng.chance(50))}}));
		if (posts.find("unsupported")) { h.count("unsupported"); continue; }
		node.talking = true;
		auto& sent = posts.find("posts")->arr;
		std::string all;
		for (auto& c : calls) all += c.text + "\n";
		auto detail = [&] { return all + Node::text(posts) + context; };
		h.check(sent.size() == calls.size(), "requests-sent", detail);
		JVal responses = JVal::array();
		std::vector<bool> failing;
		std::vector<std::string> errors;
		for (size_t i = 0; i < sent.size(); i++) {
			h.check(posts.find("early")->arr[i].b == false, "finished-without-response", detail);
			auto method = sent[i].find("method"), body = sent[i].find("body"), type = sent[i].find("type");
			h.check(method && method->s == "POST" && body && type && type->s == "application/json" && sent[i].find("target")->s == base, "request-wrong", detail);
			auto parsed = tryParse(body->s);
			h.check(parsed && parsed->kind == JVal::OBJ && parsed->find("id") && parsed->find("method") && parsed->find("jsonrpc") && parsed->find("jsonrpc")->s == "2.0", "request-not-json-rpc", detail);
			h.check(parsed->find("id")->kind == JVal::NUM && ids.insert(parsed->find("id")->asDouble()).second, "repeated-id", detail);
			bool fails = h.rng.chance(20);
			errors.push_back(randomText(h.rng, 10, 50));
			std::erase(errors.back(), '\0'); // what() ends there
			if (h.rng.chance(20)) errors.back().clear(); // No reason given
			failing.push_back(fails);
			w.before = [&] (int) { if (fails) throw RemoteError(errors.back()); };
			Starter starter;
			ExactBytes given(body->s);
			size_t before = w.calls.size();
			w.onServer = true;
			bool accepted = protocol.post("", "application/json", std::span<char>(given.data, given.size), starter);
			w.onServer = false;
			h.check(accepted && w.calls.size() == before + 1, "not-executed", [&] { return body->s + "\ngot " + starter.written + context; });
			h.check(calls[i].sameArgs(w.calls.back()), "other-call", [&] { return calls[i].text + "\nwas sent as " + body->s + context; });
			responses.arr.push_back(JVal::string(starter.written));
			h.count("calls");
		}
		std::vector<int64_t> order;
		for (size_t i = 0; i < sent.size(); i++) order.push_back(int64_t(i));
		for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[h.rng.below(j)]);
		JVal orderList = JVal::array();
		for (auto i : order) orderList.arr.push_back(JVal::integer(i));
		JVal outcomes = node.ask(h, makeObject({{"responses", responses}, {"order", orderList}}), true);
		auto detail2 = [&] { return all + Node::text(responses) + "\n" + Node::text(outcomes) + context; };
		h.check(outcomes.find("posted")->asDouble() == double(calls.size()), "requests-sent", detail2);
		for (size_t i = 0; i < calls.size(); i++) {
			auto& outcome = outcomes.find("outcomes")->arr[i];
			auto result = outcome.find("result"), error = outcome.find("error");
			if (failing[i]) {
				h.check(error && !result, "error-lost", detail2);
				h.check(error->kind == JVal::STR && error->s == errors[i], "other-error", [&] { return errors[i] + "\n" + detail2(); });
				h.count("errors");
			} else {
				h.check(result && !error, "call-failed", detail2);
				JVal expected = calls[i].result(i);
				h.check(sameInJavaScript(*result, expected), "other-result", [&] { return Node::text(expected) + "\n" + detail2(); });
				h.count("results");
			}
		}
		h.maximum("concurrent", int64_t(calls.size()));
	}
	Rpc::world = nullptr;
}
