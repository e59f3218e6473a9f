// C19: the JSON-WSP description lists every procedure with its real parameters and types
#include "rpc_model.hpp"
#include "bomba_json.hpp"
#include "bomba_json_wsp_description.hpp"
#include <typeindex>
#include <thread>

// Types that are special in how they refer to each other and how they are named
struct SelfVector : Bomba::Serialisable<SelfVector> {
	int32_t value = key<"value"> = 1;
	std::vector<SelfVector> children = key<"children">;
	std::string text = key<"text">;
	template <typename F> void each(F&& f) { f("value", value); f("children", children); f("text", text); }
	static constexpr const char* typeName = "SelfVector";
};
struct Pong;
struct Ping : Bomba::Serialisable<Ping> {
	std::shared_ptr<Ping> again = key<"again">;
	std::map<std::string, std::vector<Ping>> named = key<"named">;
	std::vector<Bomba::Optional<ZScalars>> scalars = key<"scalars">;
	bool last = key<"last"> = false;
	template <typename F> void each(F&& f) { f("again", again); f("named", named); f("scalars", scalars); f("last", last); }
	static constexpr const char* typeName = "Ping";
};
struct Pong : Bomba::Serialisable<Pong> {
	Ping ping = key<"ping">;
	std::shared_ptr<Pong> pong = key<"pong">;
	template <typename F> void each(F&& f) { f("ping", ping); f("pong", pong); }
	static constexpr const char* typeName = "Pong";
};
namespace Inside {
struct Thing : Bomba::Serialisable<Thing> {
	std::string inner = key<"inner">;
	template <typename F> void each(F&& f) { f("inner", inner); }
};
}
struct Thing : Bomba::Serialisable<Thing> {
	Inside::Thing other = key<"other">;
	std::array<std::vector<Inside::Thing>, 2> more = key<"more">;
	template <typename F> void each(F&& f) { f("other", other); f("more", more); }
	static constexpr const char* typeName = "Thing";
};
struct _Thing : Bomba::Serialisable<_Thing> {
	int64_t number = key<"number">;
	template <typename F> void each(F&& f) { f("number", number); }
};
template <typename T> struct Wrapped : Bomba::Serialisable<Wrapped<T>> {
	using Base = Bomba::Serialisable<Wrapped<T>>;
	T content = Base::template key<"content">;
	template <typename F> void each(F&& f) { f("content", content); }
};
struct Empty : Bomba::Serialisable<Empty> {
	template <typename F> void each(F&&) {}
	static constexpr const char* typeName = "Empty";
};
// Names that are parts of each other
#define SIMILAR(N, T, K) struct N : Bomba::Serialisable<N> { \
	T content = key<K>; \
	template <typename F> void each(F&& f) { f(K, content); } \
	static constexpr const char* typeName = #N; \
};
SIMILAR(TreeNodeList, int32_t, "of_tree_node_list")
SIMILAR(TreeNode, std::string, "of_tree_node")
SIMILAR(Tree, std::vector<double>, "of_tree")
SIMILAR(NodeList, std::vector<TreeNode>, "of_node_list")
SIMILAR(Node, bool, "of_node")
SIMILAR(tree, std::shared_ptr<Tree>, "of_tree_too")
SIMILAR(TREE, int64_t, "of_big_tree")
SIMILAR(Tree2, float, "of_tree_2")
SIMILAR(Tree12, Tree2, "of_tree_12")

namespace {
template <typename T> concept HasMembers = requires(T& t) { t.each([] (auto&&...) {}); };
template <typename T> concept HasName = requires { T::typeName; };
template <typename T> concept Pointing = requires(T t) { *t; t.reset(); };
template <typename T> concept Mapping = requires { typename T::mapped_type; };

// Compares what is described with what is declared. The names of types are up to the library, but have to be consistent.
struct Judge {
	H& h;
	const JVal& types;
	std::map<std::type_index, std::string> names;
	std::set<std::string> visited;
	std::string describe;

	std::string spell(const JVal& v) { Rng rng(1); JsonSpeller s(rng); return s.print(v); }

	template <typename T>
	void type(const JVal* described, const std::string& where) {
		h.check(described, "type-missing", [&] { return where + describe; });
		using V = std::decay_t<T>;
		auto is = [&] (const char* name) {
			h.check(described->kind == JVal::STR && described->s == name, "wrong-type", [&] { return where + " is described as " + spell(*described) + " instead of " + name + describe; });
			h.count(std::string("type_") + name);
		};
		if constexpr (std::is_same_v<V, bool>) is("boolean");
		else if constexpr (std::is_arithmetic_v<V>) is("number");
		else if constexpr (std::is_same_v<V, std::string>) is("string");
		else if constexpr (HasMembers<V>) {
			h.check(described->kind == JVal::STR, "wrong-type", [&] { return where + " is described as " + spell(*described) + " instead of a name of a type" + describe; });
			if constexpr (HasName<V>) h.check(described->s == V::typeName, "wrong-type", [&] { return where + " is described as " + spell(*described) + " instead of " + V::typeName + describe; });
			h.count("type_structured");
			auto known = names.find(typeid(V));
			if (known != names.end()) {
				h.check(known->second == described->s, "inconsistent-type-name", [&] { return where + " is " + described->s + ", elsewhere " + known->second + describe; });
				return;
			}
			for (auto& other : names) h.check(other.second != described->s, "same-type-name", [&] { return where + " has the same name as another type, " + described->s + describe; });
			names.emplace(typeid(V), described->s);
			const JVal* definition = nullptr;
			int definitions = 0;
			for (auto& [name, value] : types.obj) if (name == described->s) { definition = &value; definitions++; }
			h.check(definitions == 1, "type-definitions", [&] { return "type " + described->s + " of " + where + " is defined " + std::to_string(definitions) + " times" + describe; });
			h.check(definition->kind == JVal::OBJ, "wrong-definition", [&] { return described->s + describe; });
			size_t members = 0;
			V instance;
			instance.each([&] (std::string_view name, auto& member) {
				const JVal* found = nullptr;
				int count = 0;
				for (auto& [n, value] : definition->obj) if (n == name) { found = &value; count++; }
				h.check(count == 1, "member-definitions", [&] { return "member " + std::string(name) + " of type " + described->s + " is defined " + std::to_string(count) + " times" + describe; });
				type<std::decay_t<decltype(member)>>(found, "member " + std::string(name) + " of " + described->s);
				h.count("members");
				members++;
			});
			h.check(members == definition->obj.size(), "extra-members", [&] { return described->s + describe; });
		} else if constexpr (Pointing<V>) {
			type<std::decay_t<decltype(*std::declval<V>())>>(described, where);
			h.count("type_optional");
		} else if constexpr (Mapping<V>) {
			is("object");
			// What the map consists of is not described, but the types it uses should be defined
			mention<typename V::mapped_type>(where);
		} else {
			h.check(described->kind == JVal::ARR && described->arr.size() == 1, "wrong-type", [&] { return where + " is described as " + spell(*described) + " instead of an array" + describe; });
			h.count("type_array");
			type<typename V::value_type>(&described->arr[0], where);
		}
	}
	template <typename T>
	void mention(const std::string& where) {
		using V = std::decay_t<T>;
		if constexpr (HasMembers<V>) {
			if constexpr (HasName<V>) { JVal name = JVal::string(V::typeName); type<V>(&name, "in a map, " + where); }
			else unnamedMentioned = true;
		} else if constexpr (std::is_arithmetic_v<V> || std::is_same_v<V, std::string>) {
		} else if constexpr (Pointing<V>) mention<std::decay_t<decltype(*std::declval<V>())>>(where);
		else if constexpr (Mapping<V>) mention<typename V::mapped_type>(where);
		else mention<typename V::value_type>(where);
	}
	bool unnamedMentioned = false;

	template <typename Ret, typename... Args>
	void method(const JVal& described, const std::string& name, const std::vector<std::string>& argNames) {
		const JVal* params = described.find("params");
		const JVal* ret = described.find("ret_info");
		h.check(params && params->kind == JVal::OBJ && ret && ret->kind == JVal::OBJ, "incomplete-method", [&] { return name + describe; });
		h.check(params->obj.size() == sizeof...(Args), "parameter-count", [&] { return name + " has " + std::to_string(params->obj.size()) + " parameters instead of " + std::to_string(sizeof...(Args)) + describe; });
		size_t i = 0;
		auto one = [&] <typename A> () {
			auto& [argName, value] = params->obj[i]; // In order
			h.check(argName == argNames[i], "parameter-name", [&] { return name + " parameter " + std::to_string(i) + " is " + argName + " instead of " + argNames[i] + describe; });
			const JVal* order = value.find("def_order");
			h.check(order && order->kind == JVal::NUM && order->num == std::to_string(i + 1), "parameter-order", [&] { return name + " parameter " + argName + describe; });
			type<A>(value.find("type"), name + " parameter " + argName);
			const JVal* optional = value.find("optional");
			h.check(optional && optional->kind == JVal::BOOL, "parameter-optional", [&] { return name + " parameter " + argName + describe; });
			h.count("parameters");
			i++;
		};
		(one.template operator()<Args>(), ...);
		if constexpr (std::is_void_v<Ret>) {
			const JVal* t = ret->find("type");
			h.check(t && t->kind == JVal::NUL, "return-type", [&] { return name + " returns nothing" + describe; });
		} else type<Ret>(ret->find("type"), "result of " + name);
		h.count("methods");
	}
};

template <typename> struct Signature;
template <typename L, typename R, typename... A> struct Signature<R (L::*)(A...) const> {
	static void judge(Judge& j, const JVal& described, const std::string& name, const std::vector<std::string>& args) { j.method<R, A...>(described, name, args); }
};
struct Special {
	std::string name;
	std::vector<std::string> args;
	std::function<Bomba::RpcLambdaHolder()> make;
	std::function<void(Judge&, const JVal&, const std::string&)> judge;
};
template <typename L> Special special(std::string name, std::vector<std::string> args, L l) {
	return {name, args, [l] { return Bomba::RpcLambdaHolder(L(l)); },
		[args] (Judge& j, const JVal& v, const std::string& path) { Signature<decltype(&L::operator())>::judge(j, v, path, args); }};
}
std::vector<Special>& specials() {
	using Bomba::name;
	static std::vector<Special> list = {
		special("self", {"tree", "depth"}, [] (SelfVector t = name("tree"), int32_t d = name("depth")) { return t; }),
		special("ping", {"a", "b"}, [] (Pong a = name("a"), std::vector<Ping> b = name("b")) -> Bomba::Optional<Pong> { return {}; }),
		special("pong", {}, [] () -> std::map<std::string, std::vector<Ping>> { return {}; }),
		special("thing", {"x", "y", "z"}, [] (Thing x = name("x"), _Thing y = name("y"), std::vector<Inside::Thing> z = name("z")) {}),
		special("other_thing", {"a"}, [] (_Thing a = name("a")) -> Inside::Thing { return {}; }),
		special("wrapped", {"a", "b"}, [] (Wrapped<int> a = name("a"), Wrapped<std::vector<std::string>> b = name("b")) -> Wrapped<Thing> { return {}; }),
		special("longer_first", {"a", "b", "c", "d"}, [] (TreeNodeList a = name("a"), Tree12 b = name("b"), TreeNode c = name("c"), std::vector<NodeList> d = name("d")) -> Tree { return {}; }),
		special("shorter_first", {"a", "b", "c"}, [] (Node a = name("a"), Tree b = name("b"), tree c = name("c")) -> TreeNode { return {}; }),
		special("middle", {"a", "b", "c"}, [] (TREE a = name("a"), Tree2 b = name("b"), Tree12 c = name("c")) -> std::vector<TreeNodeList> { return {}; }),
		special("node", {"a"}, [] (Tree2 a = name("a")) -> Node { return {}; }),
		special("empty", {"a", "b"}, [] (Empty a = name("a"), std::map<std::string, Empty> b = name("b")) -> std::vector<std::vector<Empty>> { return {}; }),
		special("mapped", {"m"}, [] (std::map<std::string, Bomba::Optional<std::vector<std::map<std::string, SelfVector>>>> m = name("m")) -> double { return 0; }),
		special("captured", {"n"}, [c = std::make_shared<int>(1)] (uint64_t n = name("n")) -> bool { return *c; }),
		special("pointers", {"p", "q"}, [] (std::shared_ptr<int> p = name("p"), std::shared_ptr<std::vector<std::shared_ptr<std::string>>> q = name("q")) -> std::unique_ptr<Ping> { return nullptr; }),
	};
	return list;
}
}

void verifyOne(H& h);

// Also while global variables are being initialised
namespace {
const std::string describedAtStart = [] () -> std::string {
	H h;
	h.rng = Rng(19);
	try {
		for (int i = 0; i < 40; i++) verifyOne(h);
	} catch (std::exception& e) {
		return std::string(e.what());
	}
	return "";
}();
}

void runCase(H& h) {
	h.check(describedAtStart.empty(), "described-while-initialising", [&] { return describedAtStart; });
	verifyOne(h);
}
void verifyOne(H& h) {
	Rpc::World world;
	Rpc::world = &world;
	uint64_t seed = h.rng.next();
	int depth = int(h.rng.range(1, 4));
	Rpc::Tree tree(seed, depth);
	Bomba::IRemoteCallable* root = tree.root;
	// Procedures with special types are added into an object around the tree or beside
	Bomba::DynamicRpcObject around, holder;
	std::vector<std::string> prefix;
	std::vector<std::pair<std::string, const Special*>> added;
	if (h.rng.chance(60)) {
		std::vector<size_t> chosen;
		for (size_t i = 0; i < specials().size(); i++) if (h.rng.chance(30)) chosen.push_back(i);
		for (size_t j = chosen.size(); j > 1; j--) std::swap(chosen[j - 1], chosen[h.rng.below(j)]);
		bool before = h.rng.chance(50), nested = h.rng.chance(30);
		if (before) around.add("tree", Bomba::RpcLambdaHolder::nonOwning(*root));
		if (nested) around.add("special", Bomba::RpcLambdaHolder::nonOwning(holder));
		for (auto i : chosen) {
			auto& s = specials()[i];
			(nested ? holder : around).add(s.name, s.make());
			added.emplace_back((nested ? "special." : "") + s.name, &s);
		}
		if (!before) around.add("tree", Bomba::RpcLambdaHolder::nonOwning(*root));
		root = &around;
		prefix = {"tree"};
	}
	std::string url = randomText(h.rng, 20, 60), name = randomText(h.rng, 20, 60);
	std::string text;
	auto make = [&] { text = Bomba::describeInJsonWsp<std::string>(*root, url, name); };
	if (h.rng.chance(5)) std::thread(make).join();
	else make();
	if (h.rng.chance(10)) { std::string first = text; make(); h.check(first == text, "different-again", [&] { return first + "\nand then\n" + text; }); }
	h.sign(text);

	JVal v;
	std::string problem;
	try {
		v = JsonParser::parse(text);
	} catch (std::exception& e) {
		h.fail("not-json", std::string(e.what()) + "\n" + text);
	}
	std::string describe = "\ntree " + tree.text + "\n" + text;
	auto is = [&] (const char* member, const std::string& expected) {
		const JVal* found = v.find(member);
		h.check(found && found->kind == JVal::STR && found->s == expected, "wrong-header", [&] { return std::string(member) + describe; });
	};
	is("type", "jsonwsp/description");
	is("version", "1.0");
	is("servicename", name);
	is("url", url);
	const JVal *types = v.find("types"), *methods = v.find("methods");
	h.check(types && types->kind == JVal::OBJ && methods && methods->kind == JVal::OBJ, "wrong-header", [&] { return describe; });
	Judge judge{h, *types, {}, {}, describe};
	auto find = [&] (const std::string& path) -> const JVal& {
		const JVal* found = nullptr;
		int count = 0;
		for (auto& [n, value] : methods->obj) if (n == path) { found = &value; count++; }
		h.check(count == 1, "method-count", [&] { return path + " is described " + std::to_string(count) + " times" + describe; });
		return *found;
	};
	size_t expected = 0;
	for (auto& leaf : tree.leaves) {
		std::string path;
		for (auto* part : {&prefix, &leaf.path}) for (auto& n : *part) path += (path.empty() ? "" : ".") + n;
		const JVal& described = find(path);
		Rpc::withProcedure(leaf.id, [&] <typename P> () {
			std::vector<std::string> args;
			for (size_t i = 0; i < std::tuple_size_v<typename P::Args>; i++) args.push_back(P::arg(i));
			[&] <typename... A> (std::tuple<A...>*) { judge.method<typename P::Ret, A...>(described, path, args); } (static_cast<typename P::Args*>(nullptr));
		});
		h.check(Bomba::PathWithSeparator<".">::findCallable(path, root) == leaf.callable, "not-callable-by-path", [&] { return path + describe; });
		expected++;
	}
	for (auto& [path, s] : added) {
		s->judge(judge, find(path), path);
		h.count("special");
		expected++;
	}
	h.check(methods->obj.size() == expected, "extra-methods", [&] { return std::to_string(methods->obj.size()) + " instead of " + std::to_string(expected) + describe; });
	// Every type once, none that is not used
	std::set<std::string> used;
	for (auto& it : judge.names) used.insert(it.second);
	std::set<std::string> defined;
	for (auto& it : types->obj) h.check(defined.insert(it.first).second, "type-defined-twice", [&] { return it.first + describe; });
	if (!judge.unnamedMentioned) h.check(used == defined, "extra-types", [&] { return describe; });
	h.count("descriptions");
	h.count("types", int64_t(defined.size()));
	h.maximum("max_methods", int64_t(expected));
	h.sample(tree.text);
}
