// C21: objects composed at run time call the right closure and manage its lifetime
#include "hostile.hpp"
#include "json_model.hpp"
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "alloc.hpp"
#include <deque>
using namespace Bomba;

namespace {
struct Ledger {
	std::map<int64_t, int64_t> alive;
	int64_t created = 0, destroyed = 0;
	bool broken = false;
	int64_t throwIn = -1; // Number of copies until one throws
	const void* parentSeen = nullptr;
};
Ledger* ledger = nullptr;

// Captured by closures, knows if it is in the place where it was made and if it was destroyed
struct Token {
	int64_t id;
	const Token* self;
	Token(int64_t id) : id(id), self(this) { ledger->alive[id]++; ledger->created++; }
	Token(const Token& other) : id(other.id), self(this) {
		if (!other.valid()) ledger->broken = true;
		if (ledger->throwIn >= 0 && ledger->throwIn-- == 0) throw std::runtime_error("Copying is not possible");
		ledger->alive[id]++;
		ledger->created++;
	}
	void operator=(const Token&) = delete;
	~Token() {
		if (!valid()) ledger->broken = true;
		ledger->alive[id]--;
		ledger->destroyed++;
		self = nullptr;
	}
	bool valid() const { return self == this; }
	int64_t get() const { if (!valid()) ledger->broken = true; return id; }
};
int64_t expected(int64_t id, int64_t a) { return id * 1000003 + a; }

enum Kind { TRIVIAL, TRIVIAL_FULL, BIG, TOKEN, TOKEN_BIG, TEXT, SHARED, WITH_PARENT, ALIGNED, ALIGNED_16, TWO_TOKENS, STATELESS_ID_0, KINDS };

// Calls f with a closure of the kind, as a temporary or a variable
template <typename F>
auto withClosure(int kind, int64_t id, F&& f) {
	using Bomba::name;
	switch (kind) {
	case TRIVIAL: return f([id] (int64_t a = name("a")) -> int64_t { return expected(id, a); });
	case TRIVIAL_FULL: { int64_t x = id / 2, y = id - x; const int64_t* zero = nullptr; return f([x, y, zero] (int64_t a = name("a")) -> int64_t { return expected(x + y, a) + (zero ? 1 : 0); }); }
	case BIG: { std::array<int64_t, 17> big; for (size_t i = 0; i < big.size(); i++) big[i] = id * int64_t(i); return f([big] (int64_t a = name("a")) -> int64_t { for (size_t i = 0; i < big.size(); i++) if (big[i] != big[1] * int64_t(i)) return -1; return expected(big[1], a); }); }
	case TOKEN: { return f([t = Token(id)] (int64_t a = name("a")) -> int64_t { return expected(t.get(), a); }); }
	case TOKEN_BIG: { std::array<int64_t, 9> big = {1, 2, 3}; return f([big, t = Token(id)] (int64_t a = name("a")) -> int64_t { return expected(t.get(), a) + big[3]; }); }
	case TEXT: { return f([s = std::to_string(id)] (int64_t a = name("a")) -> int64_t { return expected(std::stoll(s), a); }); }
	case SHARED: { return f([p = std::make_shared<Token>(id)] (int64_t a = name("a")) -> int64_t { return expected(p->get(), a); }); }
	case WITH_PARENT: { return f([t = Token(id)] (DynamicRpcObject* self, int64_t a = name("a")) -> int64_t { ledger->parentSeen = self; return expected(t.get(), a); }); }
	case ALIGNED: {
		struct alignas(32) Aligned { int64_t id; };
		return f([d = Aligned{id}] (int64_t a = name("a")) -> int64_t { if (reinterpret_cast<uintptr_t>(&d) % alignof(Aligned)) return -2; return expected(d.id, a); });
	}
	case ALIGNED_16: {
		struct alignas(16) Aligned { int64_t id; };
		return f([d = Aligned{id}] (int64_t a = name("a")) -> int64_t { if (reinterpret_cast<uintptr_t>(&d) % alignof(Aligned)) return -2; return expected(d.id, a); });
	}
	case TWO_TOKENS: { return f([t = Token(id), n = int64_t(7), u = std::make_unique<int>(3) ? Token(-id) : Token(0)] (int64_t a = name("a")) -> int64_t { return u.get() == -t.get() && n == 7 ? expected(t.get(), a) : -3; }); }
	default: return f([] (int64_t a = name("a")) -> int64_t { return expected(0, a); });
	}
}
bool hasToken(int kind) { return kind == TOKEN || kind == TOKEN_BIG || kind == SHARED || kind == WITH_PARENT || kind == TWO_TOKENS; }

struct Node {
	int64_t id = 0;
	int kind = TRIVIAL;
	bool object = false, borrowed = false;
	const IRemoteCallable* target = nullptr; // If borrowed
	std::vector<std::pair<std::string, std::shared_ptr<Node>>> children;
	std::string text() const {
		if (!object) return std::to_string(id) + (borrowed ? "&" : "") + "k" + std::to_string(kind);
		std::string r = borrowed ? "&{" : "{";
		for (auto& [n, c] : children) r += n + ":" + c->text() + " ";
		return r + "}";
	}
};
using NodePtr = std::shared_ptr<Node>;
struct Slot { std::optional<RpcLambdaHolder> holder; NodePtr node; }; // Without node, it is empty or was moved from
using Typed = TypedRpcLambdaHolder<int64_t(int64_t)>;
struct TypedSlot { std::optional<Typed> holder; NodePtr node; };
struct ObjectSlot { std::unique_ptr<DynamicRpcObject> object; NodePtr node; };

struct Case {
	H& h;
	std::string history;
	int64_t nextId = 1;
	// Declared first, so that they exist as long as anything that refers to them
	std::vector<std::pair<std::unique_ptr<DynamicRpcObject>, NodePtr>> lentObjects;
	std::deque<std::pair<Typed, NodePtr>> lent;
	std::array<Slot, 4> slots;
	std::array<TypedSlot, 3> typed;
	std::array<ObjectSlot, 4> objects;

	Case(H& h) : h(h) {}

	NodePtr newNode(int kind) {
		auto n = std::make_shared<Node>();
		n->kind = kind;
		n->id = kind == STATELESS_ID_0 ? 0 : nextId++;
		return n;
	}
	std::string name(const Node& object) {
		while (true) {
			static const char* pool[] = {"a", "ab", "abc", "b", "c", "d", "call", "sum", "x", "y", "z", "0", "1"};
			std::string n = pool[h.rng.below(std::size(pool))] + (h.rng.chance(30) ? std::to_string(h.rng.below(50)) : std::string(h.rng.chance(10) ? 40 : 0, 'n'));
			bool used = false;
			for (auto& c : object.children) used |= c.first == n;
			if (!used) return n;
		}
	}
	void call(const IRemoteCallable* callable, const Node& n, const IRemoteCallable* parent) {
		int64_t a = h.rng.range(-1000, 1000);
		std::string input = "{\"a\":" + std::to_string(a) + "}", output;
		BasicJson<>::Input in(input);
		BasicJson<>::Output out(output);
		int introduced = 0;
		ledger->parentSeen = &ledger;
		bool done = callable->call(&in, out, [&] { introduced++; }, [] (std::string_view) {});
		h.check(done && introduced == 1 && output == std::to_string(expected(n.id, a)), "wrong-result", [&] { return n.text() + " with " + input + " gave " + output + " instead of " + std::to_string(expected(n.id, a)) + "\n" + history; });
		if (n.kind == WITH_PARENT) h.check(ledger->parentSeen == parent, "wrong-parent", [&] { return n.text() + "\n" + history; });
		h.count("calls");
	}
	void examine(const IRemoteCallable* callable, const Node& n, const IRemoteCallable* parent) {
		h.check(callable, "lost", [&] { return n.text() + "\n" + history; });
		if (n.borrowed) h.check(callable == n.target, "borrowed-other", [&] { return n.text() + "\n" + history; });
		h.check(callable->parent() == parent, "wrong-parent", [&] { return n.text() + "\n" + history; });
		if (!n.object) return call(callable, n, parent);
		for (auto& [name, child] : n.children) examine(callable->getChild(std::string_view(name)), *child, callable);
		h.check(callable->getChild("not there") == nullptr && callable->getChild(int(n.children.size())) == nullptr, "invented", [&] { return n.text() + "\n" + history; });
	}
	void expectAlive(const Node& n, std::map<int64_t, int64_t>& alive) {
		if (n.borrowed) return;
		if (!n.object && hasToken(n.kind)) { alive[n.id]++; if (n.kind == TWO_TOKENS) alive[-n.id]++; }
		for (auto& c : n.children) expectAlive(*c.second, alive);
	}
	std::map<const Node*, const IRemoteCallable*> parents; // Of what is lent
	void examineAlive() {
		std::map<int64_t, int64_t> alive;
		for (auto& it : lent) expectAlive(*it.second, alive);
		for (auto& it : lentObjects) expectAlive(*it.second, alive);
		for (auto& it : slots) if (it.node) expectAlive(*it.node, alive);
		for (auto& it : typed) if (it.node) expectAlive(*it.node, alive);
		for (auto& it : objects) if (it.node) expectAlive(*it.node, alive);
		for (auto& [id, count] : ledger->alive) {
			int64_t should = alive.count(id) ? alive[id] : 0;
			h.check(count == should, count > should ? "not-destroyed" : "destroyed-early", [&, id = id, count = count] { return "closure " + std::to_string(id) + " exists " + std::to_string(count) + " times instead of " + std::to_string(should) + "\n" + history; });
		}
		h.check(!ledger->broken, "not-copied-properly", [&] { return history; });
		h.count("alive_checks");
	}
	static bool refersTo(const Node& n, const IRemoteCallable* target) {
		if (n.borrowed && n.target == target) return true;
		for (auto& c : n.children) if (refersTo(*c.second, target)) return true;
		return false;
	}
	// If it was lent to an object that was destroyed since, it keeps a pointer to it (see loan)
	bool stranded(IRemoteCallable* target) {
		if (!target->parent()) return false;
		for (auto& it : slots) if (it.node && it.node->object && refersTo(*it.node, target)) return false;
		for (auto& it : objects) if (it.node && refersTo(*it.node, target)) return false;
		h.count("stranded");
		return true;
	}

	void step() {
		int op = int(h.rng.below(20));
		if (op >= 14) op = op == 14 ? 6 : op < 19 ? 7 : 10;
		auto kind = [&] { return int(h.rng.below(KINDS)); };
		switch (op) {
		case 0: case 1: { // New closure in a slot
			auto& s = h.rng.pick(slots);
			int k = kind();
			auto n = newNode(k);
			bool copy = h.rng.chance(50), fail = hasToken(k) && k != SHARED && h.rng.chance(10);
			history += "new " + n->text() + (fail ? " fails" : copy ? " copied" : "") + ", ";
			try {
				withClosure(k, n->id, [&] (auto closure) {
					if (fail) ledger->throwIn = 0;
					if (s.holder && h.rng.chance(50)) { if (copy) *s.holder = RpcLambdaHolder(closure); else *s.holder = RpcLambdaHolder(std::move(closure)); }
					else { if (s.holder && fail) s.node = nullptr; if (copy) s.holder.emplace(closure); else s.holder.emplace(std::move(closure)); }
					return 0;
				});
				s.node = n;
				h.count("holder_local", s.holder->isLocal());
				h.count("holder_allocated", !s.holder->isLocal());
			} catch (std::runtime_error&) {
				h.check(fail, "threw", [&] { return history; });
				if (!s.holder) s.node = nullptr;
				h.count("copy_threw");
			}
			ledger->throwIn = -1;
			break;
		}
		case 2: { // Move between slots
			auto &from = h.rng.pick(slots), &to = h.rng.pick(slots);
			if (!from.holder || !from.node || &from == &to) return;
			history += "move " + from.node->text() + ", ";
			if (to.holder && h.rng.chance(60)) *to.holder = std::move(*from.holder);
			else to.holder.emplace(std::move(*from.holder));
			to.node = from.node;
			from.node = nullptr;
			if (h.rng.chance(50)) from.holder.reset();
			h.count("moves");
			break;
		}
		case 3: { // Destroy
			auto& s = h.rng.pick(slots);
			history += "drop " + (s.node ? s.node->text() : "-") + ", ";
			s.holder.reset();
			s.node = nullptr;
			break;
		}
		case 4: case 5: { // New closure in a typed slot, moving typed ones
			auto &s = h.rng.pick(typed), &other = h.rng.pick(typed);
			if (other.node && &s != &other && h.rng.chance(40)) {
				history += "move typed " + other.node->text() + ", ";
				if (s.holder && h.rng.chance(50)) *s.holder = std::move(*other.holder);
				else s.holder.emplace(std::move(*other.holder));
				s.node = other.node;
				other.node = nullptr;
				break;
			}
			int k = kind();
			if (k == WITH_PARENT) k = TOKEN; // Not offered
			auto n = newNode(k);
			history += "typed " + n->text() + ", ";
			withClosure(k, n->id, [&] (auto closure) {
				if constexpr (requires { closure(int64_t(1)); }) {
					if (s.holder && h.rng.chance(50)) *s.holder = Typed(closure);
					else s.holder.emplace(std::move(closure));
				}
				return 0;
			});
			s.node = n;
			h.count("typed");
			break;
		}
		case 6: { // New object
			auto& o = h.rng.pick(objects);
			o.object = std::make_unique<DynamicRpcObject>();
			o.node = std::make_shared<Node>();
			o.node->object = true;
			history += "object, ";
			break;
		}
		case 7: case 8: case 9: { // Something is put into an object
			auto& o = h.rng.pick(objects);
			if (!o.node) return;
			std::string n = name(*o.node);
			NodePtr added;
			if (h.rng.chance(30)) {
				int k = kind();
				added = newNode(k);
				withClosure(k, added->id, [&] (auto closure) { o.object->add(n, std::move(closure)); return 0; });
			} else if (h.rng.chance(40)) {
				auto& s = h.rng.pick(slots);
				if (!s.node || (s.node->borrowed && s.node->target->parent())) return; // Can be a part of one object only
				added = s.node;
				o.object->add(n, std::move(*s.holder));
				s.node = nullptr;
			} else if (h.rng.chance(40)) {
				auto& s = h.rng.pick(typed);
				if (!s.node) return;
				added = s.node;
				o.object->add(n, std::move(*s.holder));
				s.node = nullptr;
			} else {
				auto& s = h.rng.pick(objects);
				if (!s.node || &s == &o) return;
				added = s.node;
				o.object->add(n, std::move(*s.object));
				if (h.rng.chance(50)) s.object.reset();
				s.node = nullptr;
				h.count("nested");
			}
			history += n + "=" + added->text() + ", ";
			o.node->children.emplace_back(n, added);
			h.maximum("max_children", int64_t(o.node->children.size()));
			break;
		}
		case 10: { // Borrowing
			auto& o = h.rng.pick(objects);
			if (!o.node) return;
			std::string n = name(*o.node);
			auto added = std::make_shared<Node>();
			size_t which = h.rng.below(lent.size() + lentObjects.size());
			IRemoteCallable* target = which < lent.size() ? &*lent[which].first : lentObjects[which - lent.size()].first.get();
			const Node& model = which < lent.size() ? *lent[which].second : *lentObjects[which - lent.size()].second;
			if (target->parent()) return; // Already a part of an object
			*added = model;
			added->borrowed = true;
			added->target = target;
			history += n + "=" + added->text() + ", ";
			if (h.rng.chance(30)) { // Through other holders
				RpcLambdaHolder first = RpcLambdaHolder::nonOwning(*target);
				RpcLambdaHolder second = std::move(first);
				o.object->add(n, std::move(second));
			} else o.object->add(n, RpcLambdaHolder::nonOwning(*target));
			o.node->children.emplace_back(n, added);
			h.count("borrowed");
			break;
		}
		case 11: { // Objects moved or destroyed
			auto &from = h.rng.pick(objects), &to = h.rng.pick(objects);
			if (!from.node) return;
			if (h.rng.chance(50)) {
				history += "end " + from.node->text() + ", ";
				from.object.reset();
				from.node = nullptr;
				h.count("objects_destroyed");
			} else if (&from != &to) {
				history += "move " + from.node->text() + ", ";
				to.object = std::make_unique<DynamicRpcObject>(std::move(*from.object));
				to.node = from.node;
				from.node = nullptr;
				if (h.rng.chance(70)) from.object.reset();
				h.count("objects_moved");
			}
			break;
		}
		case 12: { // An object becomes contents of a slot
			auto& s = h.rng.pick(slots);
			auto& o = h.rng.pick(objects);
			if (!o.node) return;
			history += "slot " + o.node->text() + ", ";
			if (s.holder && h.rng.chance(50)) *s.holder = RpcLambdaHolder(std::move(*o.object));
			else s.holder.emplace(std::move(*o.object));
			s.node = o.node;
			o.node = nullptr;
			break;
		}
		default: { // Borrowed alone
			if (lent.empty()) return;
			auto& s = h.rng.pick(slots);
			auto& l = h.rng.pick(lent);
			if (l.first->parent()) return;
			auto added = std::make_shared<Node>(*l.second);
			added->borrowed = true;
			added->target = &*l.first;
			history += "slot " + added->text() + ", ";
			if (s.holder) *s.holder = RpcLambdaHolder::nonOwning(*l.first);
			else s.holder.emplace(RpcLambdaHolder::nonOwning(*l.first));
			s.node = added;
		}
		}
	}

	void examineLent() {
		for (auto& [holder, n] : lent) {
			call(&*holder, *n, (*holder).parent());
			int64_t a = h.rng.range(-100, 100);
			if (!stranded(&*holder)) h.check(holder(a) == expected(n->id, a), "lent-wrong", [&] { return n->text() + "\n" + history; });
		}
		for (auto& [object, n] : lentObjects) for (auto& [name, child] : n->children) call(object->getChild(std::string_view(name)), *child, object.get());
	}
	void examineEverything() {
		// A callable that became a part of an object is kept there, the others have no parent
		for (auto& s : slots) if (s.node && s.holder) {
			if (s.node->borrowed) call(&**s.holder, *s.node, (**s.holder).parent());
			else examine(&**s.holder, *s.node, nullptr);
		}
		for (auto& s : typed) if (s.node) {
			examine(&**s.holder, *s.node, nullptr);
			int64_t a = h.rng.range(-100, 100);
			int64_t got = (*s.holder)(a);
			h.check(got == expected(s.node->id, a), "typed-wrong", [&] { return s.node->text() + " gave " + std::to_string(got) + "\n" + history; });
		}
		for (auto& o : objects) if (o.node) examine(o.object.get(), *o.node, nullptr);
		examineLent();
	}
	void run() {
		int count = int(h.rng.range(1, 4));
		for (int i = 0; i < count; i++) {
			int k = int(h.rng.below(KINDS));
			if (k == WITH_PARENT) k = TOKEN_BIG;
			auto n = newNode(k);
			withClosure(k, n->id, [&] (auto closure) { if constexpr (requires { closure(int64_t(1)); }) lent.emplace_back(Typed(closure), n); return 0; });
		}
		count = int(h.rng.range(0, 2));
		for (int i = 0; i < count; i++) {
			lentObjects.emplace_back(std::make_unique<DynamicRpcObject>(), std::make_shared<Node>());
			auto& [object, n] = lentObjects.back();
			n->object = true;
			for (int j = int(h.rng.below(3)); j >= 0; j--) {
				int k = int(h.rng.below(KINDS));
				auto added = newNode(k);
				std::string called = name(*n);
				withClosure(k, added->id, [&] (auto closure) { object->add(called, std::move(closure)); return 0; });
				n->children.emplace_back(called, added);
			}
		}
		int steps = int(h.rng.range(1, h.thorough ? 80 : 40));
		for (int i = 0; i < steps; i++) {
			step();
			examineAlive();
			if (h.rng.chance(40)) examineEverything();
		}
		examineEverything();
		// Everything that refers to something ends first, in random order
		while (true) {
			std::vector<int> left;
			for (int i = 0; i < int(slots.size() + typed.size() + objects.size()); i++) {
				bool used = i < int(slots.size()) ? slots[i].holder.has_value() : i < int(slots.size() + typed.size()) ? typed[i - slots.size()].holder.has_value() : bool(objects[i - slots.size() - typed.size()].object);
				if (used) left.push_back(i);
			}
			if (left.empty()) break;
			int i = h.rng.pick(left);
			if (i < int(slots.size())) { slots[i].holder.reset(); slots[i].node = nullptr; }
			else if (i < int(slots.size() + typed.size())) { typed[i - slots.size()].holder.reset(); typed[i - slots.size()].node = nullptr; }
			else { auto& o = objects[i - slots.size() - typed.size()]; o.object.reset(); o.node = nullptr; }
			examineAlive();
		}
		examineLent();
		lent.clear();
		lentObjects.clear();
		examineAlive();
	}
};
}

// What was lent to an object that exists no more should be usable alone as before
void loan(H& h) {
	Typed lent = [] (int64_t a = name("a")) -> int64_t { return a; };
	{
		DynamicRpcObject object;
		object.add("lent", RpcLambdaHolder::nonOwning(*lent));
		h.check(lent->parent() == &object && lent(h.caseNo) == int64_t(h.caseNo), "lent-wrong");
	}
	h.check(lent->parent() == nullptr, "lent-keeps-destroyed-parent", "parent() of a lent procedure leads to a destroyed object, which is accessed if it is called");
}

void runCase(H& h) {
	Ledger own;
	if (h.caseNo == 0) {
		ledger = &own;
		loan(h);
		return;
	}
	ledger = &own;
	int64_t before = 0;
	{
		Case c(h);
		c.run();
		h.sign(c.history);
		h.sample(c.history);
	}
	h.check(own.created == own.destroyed, "leaked", [&] { return std::to_string(own.created) + " tokens created, " + std::to_string(own.destroyed) + " destroyed"; });
	h.count("tokens", own.created);
}
