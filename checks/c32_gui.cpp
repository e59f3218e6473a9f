// C32: the forms generated by the JavaScript library, used in a model of a browser's document
#include "js_node.hpp"

namespace { Node node("js_gui"); }

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	uint64_t seed = h.rng.next();
	Rpc::Tree tree(seed, int(h.rng.range(1, 4)));
	bool index = h.rng.chance(20);
	std::string service = "Service " + std::to_string(h.rng.below(1000000));
	std::string description = describeInJsonWsp<std::string>(*tree.root, "http://example.com", service);
	std::string base = index ? "" : h.rng.chance(50) ? "http://localhost:8080/" : "http://example.com/inner/";
	std::string context = "\ndescription: " + description.substr(0, 3000);
	JVal loaded = node.ask(h, makeObject({{"op", JVal::string("load")}, {"index", JVal::boolean(index)}, {"path", JVal::string(base)}, {"description", JVal::string(description)}}));
	auto failure = [&] (const JVal& got) { auto f = got.find("failure"); return f && f->kind == JVal::STR ? f->s : std::string(); };
	h.check(failure(loaded).empty(), "not-loaded", [&] { return failure(loaded) + context; });
	JVal whole = node.ask(h, makeObject({{"op", JVal::string("whole")}}));
	bool entire = false;
	if (whole.find("unsupported")) h.count("whole_unsupported");
	else {
		h.check(failure(whole).empty(), "gui-failed", [&] { return failure(whole) + context; });
		h.check(whole.find("buttons")->asDouble() == double(tree.leaves.size()), "forms-count", [&] { return Node::text(whole) + " for " + std::to_string(tree.leaves.size()) + " procedures" + context; });
		auto simple = [] (std::string s) { std::string r; for (char c : s) if (c != '_' && !isspace((unsigned char)c)) r += char(tolower((unsigned char)c)); return r; };
		auto printable = [] (const std::string& s) { return std::all_of(s.begin(), s.end(), [] (char c) { return c > ' ' && c < 127; }); };
		for (auto& leaf : tree.leaves) for (auto& part : leaf.path) if (printable(part))
			h.check(whole.find("text")->s.find(simple(part)) != std::string::npos, "name-not-shown", [&] { return part + " in " + whole.find("text")->s + context; });
		if (index) {
			h.check(loaded.find("title")->s.find(service) != std::string::npos, "service-not-shown", [&] { return Node::text(loaded); });
			h.count("pages");
		}
		entire = true;
		h.count("whole");
	}
	if (index && !entire) { Rpc::world = nullptr; return; } // The page is not of use
	JsonRpcServerProtocol<> protocol(*tree.root);
	int rounds = int(h.rng.range(3, 8)), last = -1;
	for (int round = 0; round < rounds; round++) {
		w.calls.clear();
		w.retSeed = h.rng.next();
		size_t leaf = last >= 0 && h.rng.chance(40) ? size_t(last) : h.rng.below(tree.leaves.size());
		Call call = makeCall(h, tree, leaf, true);
		JVal command = call.given;
		bool fromWhole = entire && (index || h.rng.chance(50));
		command.obj.emplace_back("op", JVal::string("use"));
		command.obj.emplace_back("fromWhole", JVal::boolean(fromWhole));
		command.obj.emplace_back("anew", JVal::boolean(h.rng.chance(20)));
		JVal posts = node.ask(h, command);
		if (posts.find("unsupported")) { h.count("unsupported"); continue; }
		last = int(leaf);
		auto detail = [&] { return call.text + "\n" + Node::text(posts) + context; };
		h.check(failure(posts).empty(), "form-failed", detail);
		h.check(!posts.find("notFound"), "form-not-found", detail);
		node.talking = true;
		auto& sent = posts.find("posts")->arr;
		h.check(sent.size() == 1, "requests-sent", detail);
		auto method = sent[0].find("method"), body = sent[0].find("body");
		h.check(method && method->s == "POST" && body && sent[0].find("target")->s == base, "request-wrong", detail);
		bool fails = h.rng.chance(15);
		w.before = [&] (int) { if (fails) throw RemoteError("It failed"); };
		Starter starter;
		ExactBytes given(body->s);
		w.onServer = true;
		bool accepted = protocol.post("", "application/json", std::span<char>(given.data, given.size), starter);
		w.onServer = false;
		h.check(accepted && w.calls.size() == 1, "not-executed", [&] { return body->s + "\ngot " + starter.written + "\n" + detail(); });
		h.check(call.sameArgs(w.calls.back()), "other-call", [&] { return call.text + "\nwas sent as " + body->s + context; });
		JVal outcome = node.ask(h, makeObject({{"response", JVal::string(starter.written)}}), true);
		auto detail2 = [&] { return starter.written + "\n" + Node::text(outcome) + "\n" + detail(); };
		h.check(outcome.find("posted")->asDouble() == 1, "requests-sent", detail2);
		h.check(!outcome.find("othersChanged")->b, "other-form-changed", detail2);
		h.check(!outcome.find("fieldsChanged")->b, "fields-changed", detail2);
		if (!fails && outcome.find("showable")->b) {
			h.check(outcome.find("shown")->s.find(outcome.find("result")->s) != std::string::npos, "result-not-shown", detail2);
			h.count("results_shown");
		}
		h.count(fromWhole ? "used_in_whole" : "used_alone");
		h.count("values_entered", int64_t(posts.find("entered")->asDouble()));
		h.sign(call.text);
		h.sample(call.text);
	}
	Rpc::world = nullptr;
}
