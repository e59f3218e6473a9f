// C20: paths of procedures resolve to exactly those procedures
#include "rpc_model.hpp"
#include "bomba_json.hpp"
using namespace Bomba;

namespace {
// What is known about the tree: all paths in it and what they lead to
struct Known {
	std::map<std::vector<std::string>, const IRemoteCallable*> all;
	std::map<std::vector<std::string>, std::vector<std::string>> children; // In order
	void insert(const std::vector<std::string>& path, const IRemoteCallable* callable) { all[path] = callable; }
};

std::vector<std::string> split(const std::string& path, const std::string& separator) {
	std::vector<std::string> r;
	size_t start = 0;
	while (true) {
		size_t at = path.find(separator, start);
		r.push_back(path.substr(start, at == std::string::npos ? at : at - start));
		if (at == std::string::npos) break;
		start = at + separator.size();
	}
	if (r.back().empty()) r.pop_back(); // A separator at the end is tolerated and an empty path means the root
	return r;
}
std::string join(const std::vector<std::string>& path, const std::string& separator) {
	std::string r;
	for (auto& it : path) r += (&it == &path[0] ? "" : separator) + it;
	return r;
}
std::string shown(const std::vector<std::string>& path) { std::string r; for (auto& it : path) r += jsonQuote(it, 100) + ","; return "[" + r + "]"; }

template <StringLiteral Separator>
void examine(H& h, const Known& known, const IRemoteCallable* root, const std::string& separator, const std::string& description) {
	using Path = PathWithSeparator<Separator>;
	auto describe = [&] { return "separator " + jsonQuote(separator) + ", " + description; };
	std::vector<std::string> pathsMade;
	for (auto& [path, callable] : known.all) {
		std::string joined = join(path, separator);
		std::string constructed = Path::constructPath(callable);
		h.check(constructed == joined, "wrong-path", [&] { return jsonQuote(constructed) + " made for " + shown(path) + " " + describe(); });
		if (split(joined, separator) != path) { h.count("ambiguous"); continue; } // A name contains the separator
		ExactBytes exact(joined);
		auto found = Path::findCallable(exact.view(), root);
		h.check(found == callable, "not-found", [&] { return shown(path) + (found ? " found something else " : " not found ") + describe(); });
		if (joined.size() && split(joined + separator, separator) == path) h.check(Path::findCallable(joined + separator, root) == callable, "not-found-separator", [&] { return shown(path) + describe(); });
		pathsMade.push_back(joined);
		h.count("paths");
		if (path.size() > 3) h.count("deep_paths");
	}
	// Paths that may name nothing
	for (int i = 0; i < 40; i++) {
		std::string path = h.rng.pick(pathsMade);
		int changes = int(h.rng.range(1, 2));
		while (changes--) switch (h.rng.below(9)) {
		case 0: if (path.size()) path.erase(h.rng.below(path.size()), 1); break;
		case 1: path.insert(h.rng.below(path.size() + 1), 1, h.rng.pick(std::string("abc01x_-. /:>\0\xc3", 16))); break;
		case 2: path.insert(h.rng.below(path.size() + 1), separator); break;
		case 3: path = path.substr(0, h.rng.below(path.size() + 1)); break;
		case 4: path += separator + h.rng.pick(pathsMade); break;
		case 5: path += h.rng.pick(pathsMade); break;
		case 6: path = separator + path; break;
		case 7: path += separator.substr(0, h.rng.range(1, separator.size())); break;
		default: if (path.size()) path = path.substr(h.rng.below(path.size())); break;
		}
		auto expected = known.all.find(split(path, separator));
		ExactBytes exact(path);
		auto found = Path::findCallable(exact.view(), root);
		h.check(found == (expected == known.all.end() ? nullptr : expected->second), "wrong-found", [&] {
			return jsonQuote(path) + (found ? expected == known.all.end() ? " found something " : " found something else " : " not found ") + describe(); });
		h.count(found ? "altered_found" : "altered_not_found");
	}
	h.count("separator_" + separator);
}

void examineAll(H& h, const Known& known, const IRemoteCallable* root, const std::string& description) {
	// Children by number and the other way
	for (auto& [path, names] : known.children) {
		auto object = known.all.at(path);
		for (size_t i = 0; i < names.size(); i++) {
			auto childPath = path;
			childPath.push_back(names[i]);
			auto child = known.all.at(childPath);
			h.check(object->getChild(int(i)) == child, "wrong-child-number", [&] { return std::to_string(i) + " of " + shown(path) + description; });
			h.check(object->getChild(std::string_view(names[i])) == child, "wrong-child-name", [&] { return names[i] + " of " + shown(path) + description; });
			auto [name, index] = object->childName(child);
			h.check(name == names[i] && index == int(i), "wrong-name-of-child", [&] { return std::string(name) + ", " + std::to_string(index) + " is " + std::to_string(i) + " of " + shown(path) + description; });
			h.check(child->parent() == object, "wrong-parent", [&] { return shown(childPath) + description; });
			h.count("children");
		}
		for (int64_t i : {int64_t(-1), int64_t(names.size()), int64_t(names.size() + 1), int64_t(INT_MAX), int64_t(INT_MIN), h.rng.range(names.size(), 1000)})
			h.check(object->getChild(int(i)) == nullptr, "child-invented", [&] { return std::to_string(i) + " of " + shown(path) + description; });
	}
	for (auto& [path, callable] : known.all) if (!known.children.count(path)) {
		for (int i = -1; i < 3; i++) h.check(callable->getChild(i) == nullptr, "procedure-has-child", [&] { return shown(path) + description; });
		for (auto name : {"", "a", "0"}) h.check(callable->getChild(std::string_view(name)) == nullptr, "procedure-has-child", [&] { return shown(path) + description; });
	}
	switch (h.rng.below(7)) {
	case 0: examine<".">(h, known, root, ".", description); break;
	case 1: examine<"/">(h, known, root, "/", description); break;
	case 2: examine<"::">(h, known, root, "::", description); break;
	case 3: examine<"->">(h, known, root, "->", description); break;
	case 4: examine<" ">(h, known, root, " ", description); break;
	case 5: examine<"aab">(h, known, root, "aab", description); break;
	default: examine<"_">(h, known, root, "_", description); break;
	}
}

// Objects composed by moving them
struct Composer {
	H& h;
	int64_t nextId = 1;
	std::vector<std::pair<std::vector<std::string>, int64_t>> leaves;
	std::vector<std::vector<std::string>> objects;
	std::map<std::vector<std::string>, std::vector<std::string>> children;
	std::string text;

	std::string name(std::set<std::string>& used) {
		static const char* pool[] = {"a", "aa", "aab", "ab", "b", "0", "1", "10", "sum", "sum_", "_sum", "summary", "-", ">", "->", ":", "a:", ":a", "x y", " ", "\u017elu\u0165", "A", "get.x", "a/b", "."};
		while (true) {
			std::string r = h.rng.chance(80) ? pool[h.rng.below(std::size(pool))] : h.rng.chance(90) ? randomText(h.rng, 10, 60) : std::string(h.rng.range(1, 3000), 'n');
			if (r.size() && used.insert(r).second) return r;
		}
	}
	RpcLambdaHolder procedure(int64_t id) {
		switch (h.rng.below(4)) {
		case 0: return RpcLambdaHolder([id] () -> int64_t { return id; });
		case 1: { std::array<int64_t, 20> big = {}; big[19] = id; return RpcLambdaHolder([big] () -> int64_t { return big[19]; }); }
		case 2: return RpcLambdaHolder([p = std::make_shared<int64_t>(id)] () -> int64_t { return *p; });
		default: return RpcLambdaHolder([id] (int32_t a = Bomba::name("a")) -> int64_t { return id; });
		}
	}
	DynamicRpcObject object(int depth, const std::vector<std::string>& path) {
		DynamicRpcObject made;
		objects.push_back(path);
		children[path];
		std::set<std::string> used;
		text += "{";
		for (int count = int(h.rng.below(7)); count > 0; count--) {
			auto n = name(used);
			auto p = path;
			p.push_back(n);
			children[path].push_back(n);
			text += jsonQuote(n, 50) + " ";
			if (depth > 0 && h.rng.chance(40)) {
				if (h.rng.chance(50)) made.add(n, RpcLambdaHolder(object(depth - 1, p)));
				else { DynamicRpcObject first = object(depth - 1, p); DynamicRpcObject second(std::move(first)); made.add(n, std::move(second)); }
			} else {
				int64_t id = nextId++;
				leaves.emplace_back(p, id);
				made.add(n, procedure(id));
			}
		}
		text += "}";
		return made;
	}
};
}

void runCase(H& h) {
	Rpc::World world;
	Rpc::world = &world;
	Known known;
	if (h.rng.chance(50)) {
		uint64_t seed = h.rng.next();
		Rpc::Tree tree(seed, int(h.rng.range(1, 5)));
		known.insert({}, tree.root);
		for (auto& [path, object] : tree.inner) { known.insert(path, object); known.children[path]; }
		for (auto& leaf : tree.leaves) known.insert(leaf.path, leaf.callable);
		// Their numbers are known for procedures and so for everything above them
		for (auto& leaf : tree.leaves) for (size_t i = 0; i < leaf.path.size(); i++) {
			std::vector<std::string> path(leaf.path.begin(), leaf.path.begin() + i);
			auto& names = known.children[path];
			if (names.size() <= size_t(leaf.indexes[i])) names.resize(leaf.indexes[i] + 1);
			names[leaf.indexes[i]] = leaf.path[i];
			if (names[leaf.indexes[i]].empty()) h.fail("harness", "numbering");
		}
		for (auto& [path, names] : known.children) for (auto& n : names) if (n.empty()) h.fail("harness", "object without procedures");
		examineAll(h, known, tree.root, tree.text);
		h.sign(tree.text);
		h.count("trees");
	} else {
		Composer composer{h};
		DynamicRpcObject made = composer.object(int(h.rng.below(4)), {});
		DynamicRpcObject root(std::move(made));
		// Found step by step using the objects themselves
		known.insert({}, &root);
		known.children = composer.children;
		auto reach = [&] (const std::vector<std::string>& path) {
			const IRemoteCallable* at = &root;
			std::vector<std::string> so;
			for (auto& n : path) {
				auto& names = composer.children[so];
				size_t index = std::find(names.begin(), names.end(), n) - names.begin();
				at = at->getChild(int(index));
				h.check(at, "child-missing", [&] { return shown(path) + composer.text; });
				so.push_back(n);
			}
			return at;
		};
		for (auto& path : composer.objects) known.insert(path, reach(path));
		std::set<const IRemoteCallable*> different;
		for (auto& [path, id] : composer.leaves) {
			auto callable = reach(path);
			std::string got;
			BasicJson<>::Output taker(got);
			bool called = callable->call(nullptr, taker, [] {}, [] (std::string_view) {});
			h.check(called && got == std::to_string(id), "other-procedure", [&] { return shown(path) + " gave " + got + " instead of " + std::to_string(id) + " " + composer.text; });
			known.insert(path, callable);
			h.count("called");
		}
		for (auto& it : known.all) different.insert(it.second);
		h.check(different.size() == known.all.size(), "same-object-twice", [&] { return composer.text; });
		examineAll(h, known, &root, composer.text);
		h.sign(composer.text);
		h.count("composed");
	}
}
