// C16: batches of JSON-RPC requests
#include "jsonrpc_model.hpp"
using namespace Bomba;

namespace {
// Its end can be found, but a string in it cannot be read
JsonRpc::Entry unreadable(H& h, const Rpc::Tree& tree) {
	static const char* wrong[] = {"\\q", "\\uzzzz", "ab\\x41", "\\u12g4", "2.0\\ ", "\\'"};
	std::string method;
	for (auto& it : h.rng.pick(tree.leaves).path) method += (method.empty() ? "" : ".") + it;
	std::vector<std::pair<std::string, std::string>> members = {{"jsonrpc", "\"2.0\""}, {"method", jsonQuote(method)}, {"id", std::to_string(h.rng.below(1000))}, {"params", h.rng.chance(50) ? "{}" : "{\"a\":{\"b\":[1,{}]}}"}};
	std::string& spoiled = members[h.rng.below(3)].second;
	spoiled = std::string("\"") + wrong[h.rng.below(std::size(wrong))] + (h.rng.chance(50) ? method : "") + "\"";
	for (size_t i = members.size(); i > 1; i--) std::swap(members[i - 1], members[h.rng.below(i)]);
	JsonSpeller speller(h.rng);
	JsonRpc::Entry e;
	e.text = "{";
	for (auto& [name, value] : members) e.text += (e.text.size() > 1 ? "," : "") + speller.ws() + "\"" + name + "\"" + speller.ws() + ":" + speller.ws() + value + speller.ws();
	e.text += "}";
	e.what = "unreadable " + e.text;
	e.error = true;
	e.answered = true;
	e.executed = false;
	e.id = JVal::null();
	e.codes = {-32700, -32600};
	h.count("unreadable");
	return e;
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	w.retSeed = h.rng.next();
	if (h.rng.chance(5)) w.limits = {2000, 3, 20};
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	JsonRpcServer<> server(*tree.root);
	auto session = server.getSession();
	JsonRpc::Failures failures;
	failures.install(w);
	size_t order = 0;
	for (int round = int(h.rng.range(1, 3)); round > 0; round--) {
		w.calls.clear();
		failures.kinds.clear();
		order = 0;
		std::vector<JsonRpc::Entry> entries;
		int count = h.rng.chance(5) ? 0 : int(h.rng.size(6, h.thorough ? 300 : 60));
		bool withUnreadable = h.rng.chance(30);
		while (int(entries.size()) < count) {
			if (withUnreadable && h.rng.chance(12)) { entries.push_back(unreadable(h, tree)); continue; }
			auto e = JsonRpc::makeEntry(h, tree, order, failures);
			if (!e.uncertain) entries.push_back(e);
		}
		JsonSpeller speller(h.rng);
		std::string text = speller.ws() + "[" + speller.ws();
		for (size_t i = 0; i < entries.size(); i++) text += (i ? "," + speller.ws() : "") + entries[i].text + speller.ws();
		text += "]" + speller.ws();
		h.sign(text);
		bool cut = h.rng.chance(5);
		if (cut) {
			size_t begin = text.find('['), end = text.rfind(']');
			text = text.substr(0, h.rng.range(begin + 1, end));
		}
		std::string answer = JsonRpc::ask(h, session, text);
		auto all = [&] { return "\nanswered " + answer.substr(0, 1500) + "\nfor " + text; };
		if (cut || entries.empty()) {
			JVal r = JsonRpc::parsed(h, answer, text);
			JsonRpc::Entry wanted;
			wanted.error = true;
			wanted.codes = {-32700, -32600};
			std::string problem = JsonRpc::wrongResponse(r, &wanted);
			h.check(problem.empty(), "response-to-incomplete", [&] { return problem + all(); });
			h.check(w.calls.empty(), "executed-incomplete", all);
			h.count(cut ? "incomplete" : "empty");
			continue;
		}
		h.check(w.calls.size() == order, w.calls.size() > order ? "executed-too-much" : "not-executed", [&] { return std::to_string(w.calls.size()) + " executed instead of " + std::to_string(order) + all(); });
		size_t n = 0;
		std::vector<const JsonRpc::Entry*> wanted;
		for (auto& e : entries) {
			if (e.executed) e.verify(h, w.calls[n++]);
			if (e.answered) wanted.push_back(&e);
		}
		h.count("entries", int64_t(entries.size()));
		h.count("executions", int64_t(order));
		h.count("answers", int64_t(wanted.size()));
		h.maximum("batch", int64_t(entries.size()));
		if (wanted.empty()) {
			h.check(answer.empty(), "notifications-answered", all);
			h.count("only_notifications");
			continue;
		}
		h.check(!answer.empty(), "not-answered", all);
		JVal r = JsonRpc::parsed(h, answer, text);
		h.check(r.kind == JVal::ARR, "not-an-array", all);
		h.check(r.arr.size() == wanted.size(), "response-count", [&] { return std::to_string(r.arr.size()) + " responses instead of " + std::to_string(wanted.size()) + all(); });
		// In the same order, otherwise any order
		std::vector<bool> used(wanted.size());
		for (size_t i = 0; i < r.arr.size(); i++) {
			std::string problem = JsonRpc::wrongResponse(r.arr[i], wanted[i]);
			if (!used[i] && problem.empty()) { used[i] = true; continue; }
			bool found = false;
			for (size_t j = 0; j < wanted.size() && !found; j++) if (!used[j] && JsonRpc::wrongResponse(r.arr[i], wanted[j]).empty()) { used[j] = true; found = true; }
			h.check(found, "wrong-response", [&] { return "response " + std::to_string(i) + ": " + problem + " to " + wanted[i]->what + all(); });
		}
		h.sample(text.substr(0, 300) + " -> " + answer.substr(0, 300));
	}
	Rpc::world = nullptr;
}
