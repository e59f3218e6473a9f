// C15: single JSON-RPC requests
#include "jsonrpc_model.hpp"
using namespace Bomba;

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	w.retSeed = h.rng.next();
	if (h.rng.chance(5)) w.limits = {2000, 3, 20};
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	JsonRpcServer<> server(*tree.root);
	auto session = server.getSession();
	JsonRpc::Failures failures;
	failures.install(w);
	size_t order = 0;
	for (int n = int(h.rng.range(1, 6)); n > 0; n--) {
		int special = int(h.rng.below(20));
		auto e = JsonRpc::makeEntry(h, tree, order, failures);
		bool plainArray = e.text[0] != '{'; // Things that are not objects are for batches
		if (plainArray && e.text[0] == '[') continue;
		size_t before = order - (e.executed ? 1 : 0);
		h.sign(e.text);
		if (plainArray) { // Not JSON-RPC at all
			JsonRpc::ask(h, session, e.text, 400);
			h.check(w.calls.size() == before, "executed-nonsense");
			h.count("nonsense");
			continue;
		}
		if (special == 0 && !e.uncertain) { // Incomplete
			std::string cut = e.text.substr(0, h.rng.range(1, int64_t(e.text.size()) - 1));
			if (e.executed) order--;
			failures.kinds.erase(order);
			std::string answer = JsonRpc::ask(h, session, cut);
			JVal r = JsonRpc::parsed(h, answer, cut);
			JsonRpc::Entry wanted;
			wanted.error = true;
			wanted.codes = {-32700};
			std::string problem = JsonRpc::wrongResponse(r, &wanted);
			h.check(problem.empty(), "response-to-incomplete", [&] { return problem + ": " + answer + "\nfor " + cut; });
			h.check(w.calls.size() == before, "executed-incomplete", [&] { return cut; });
			h.count("incomplete");
			continue;
		}
		std::string answer = JsonRpc::ask(h, session, e.text);
		h.sample(e.what + " -> " + answer);
		if (e.uncertain) {
			h.check(w.calls.size() <= before + 1, "executed-repeatedly", [&] { return e.what; });
			if (answer.empty()) h.check(!e.answered, "not-answered", [&] { return e.what; });
			else {
				std::string problem = JsonRpc::wrongResponse(JsonRpc::parsed(h, answer, e.text), &e);
				h.check(problem.empty(), "wrong-response", [&] { return problem + ": " + answer + "\nfor " + e.what; });
			}
			h.count("positional");
			break;
		}
		h.check(w.calls.size() == order, w.calls.size() > order ? "executed-too-much" : "not-executed", [&] { return e.what + "\nanswered " + answer; });
		if (e.executed) e.verify(h, w.calls.back());
		if (!e.answered) {
			h.check(answer.empty(), "notification-answered", [&] { return answer + "\nfor " + e.what; });
			h.count("notifications");
			continue;
		}
		h.check(!answer.empty(), "not-answered", [&] { return e.what; });
		std::string problem = JsonRpc::wrongResponse(JsonRpc::parsed(h, answer, e.text), &e);
		h.check(problem.empty(), "wrong-response", [&] { return problem + ": " + answer + "\nfor " + e.what; });
		if (e.error) for (auto code : e.codes) h.count("error" + std::to_string(code));
		else h.count("results");
	}
	Rpc::world = nullptr;
}
