// A serialisation format implemented by the user of the library: a tree of values in memory. Both directions verify that the library calls
// them exactly as the descriptions of IStructuredOutput and IStructuredInput say.
#ifndef VERIF_TREE_FORMAT
#define VERIF_TREE_FORMAT
#include "zoo.hpp"

namespace Tree {
using Flags = Bomba::SerialisationFlags::Flags;
namespace SF = Bomba::SerialisationFlags;
enum Kind { EMPTY, INT, FLOAT, STRING, BOOL, NUL, ARRAY, OBJECT, OPTIONAL };
struct Node {
	Kind kind = EMPTY;
	Flags flags = SF::NONE;
	int64_t i = 0;
	double d = 0;
	std::string s;
	int declared = 0; // Size stated at the beginning of an array or object
	bool present = false; // Of optionals
	std::vector<std::pair<std::string, Node>> children; // Names only in objects
};
inline const char* kindName(Kind k) {
	static const char* names[] = {"nothing", "integer", "float", "string", "bool", "null", "array", "object", "optional"};
	return names[k];
}
inline void print(const Node& n, std::string& out) {
	switch (n.kind) {
	case INT: out += std::to_string(n.i); break;
	case FLOAT: out += std::to_string(n.d); break;
	case STRING: out += "\"" + n.s.substr(0, 40) + "\""; break;
	case BOOL: out += n.i ? "true" : "false"; break;
	case OPTIONAL: out += n.present ? "some " : "none"; if (n.present) print(n.children[0].second, out); break;
	case ARRAY: case OBJECT:
		out += n.kind == ARRAY ? "[" : "{";
		for (auto& it : n.children) { if (n.kind == OBJECT) out += it.first + ":"; print(it.second, out); out += " "; }
		out += n.kind == ARRAY ? "]" : "}";
		break;
	default: out += kindName(n.kind);
	}
}
inline std::string print(const Node& n) { std::string r; print(n, r); return r; }

constexpr Flags numeric(Flags f) { return Flags(f & SF::DETERMINED_NUMERIC_TYPE); }

class Output : public Bomba::IStructuredOutput {
	struct Frame { Node* node; bool waiting = false; int lastIndex = -1; };
	H& h;
	bool canOmit;
	std::deque<Frame> stack; // The first one is the root, whose only value is the result
	Node root;
	void wrong(const std::string& what) { h.fail("writing-protocol", what + " after " + print(root)); }
	Node& slot(const char* what) {
		if (!stack.back().waiting) wrong(std::string(what) + " that was not introduced");
		stack.back().waiting = false;
		return stack.back().node->children.back().second;
	}
	Node& value(Kind kind, Flags flags) {
		h.count(std::string("wrote_") + kindName(kind));
		Node& n = slot(kindName(kind));
		n.kind = kind;
		n.flags = flags;
		return n;
	}
	void introduce(Kind kind, std::string_view name, int index) {
		Frame& top = stack.back();
		if (top.node->kind != kind) wrong(std::string("element of ") + kindName(kind) + " introduced in " + kindName(top.node->kind));
		if (top.waiting) wrong("next element introduced before the value of the previous one");
		bool gaps = kind == OBJECT && canOmit; // Omitted members can keep their index
		if (gaps ? index <= top.lastIndex : index != top.lastIndex + 1) wrong("index " + std::to_string(index) + " follows " + std::to_string(top.lastIndex));
		if (top.node->declared >= 0 && index >= top.node->declared) wrong("index " + std::to_string(index) + " in " + kindName(kind) + " of " + std::to_string(top.node->declared));
		top.lastIndex = index;
		top.waiting = true;
		top.node->children.emplace_back(std::string(name), Node());
	}
	void start(Kind kind, Flags flags, int size) {
		Node& n = value(kind, flags);
		if (size < -1) wrong("size " + std::to_string(size));
		n.declared = size;
		stack.push_back({&n});
	}
	void end(Kind kind) {
		Frame& top = stack.back();
		if (top.node->kind != kind || stack.size() < 2) wrong(std::string("end of ") + kindName(kind) + " in " + kindName(top.node->kind));
		if (top.waiting) wrong("end before the value of an introduced element");
		int count = int(top.node->children.size());
		if (top.node->declared >= 0 && (kind == OBJECT && canOmit ? count > top.node->declared : count != top.node->declared))
			wrong(std::to_string(count) + " elements in " + kindName(kind) + " of " + std::to_string(top.node->declared));
		stack.pop_back();
	}
public:
	Output(H& h, bool canOmit) : h(h), canOmit(canOmit) {
		root.kind = ARRAY;
		root.declared = 1;
		root.children.emplace_back();
		stack.push_back({&root, true, 0});
	}
	Node finish() { // After the whole value was written
		if (stack.size() != 1 || stack.back().waiting) h.fail("writing-protocol", "incomplete value " + print(root));
		return std::move(root.children[0].second);
	}
	bool untouched() const { return stack.size() == 1 && stack.back().waiting; }

	void writeInt(Flags f, int64_t v) override { value(INT, f).i = v; }
	void writeFloat(Flags f, double v) override { value(FLOAT, f).d = v; }
	void writeString(Flags f, std::string_view v) override { value(STRING, f).s = v; }
	void writeBool(Flags f, bool v) override { value(BOOL, f).i = v; }
	void writeNull(Flags f) override { value(NUL, f); }
	void startWritingArray(Flags f, int size) override { start(ARRAY, f, size); }
	void introduceArrayElement(Flags, int index) override { introduce(ARRAY, "", index); }
	void endWritingArray(Flags) override { end(ARRAY); }
	void startWritingObject(Flags f, int size) override { start(OBJECT, f, size); }
	void introduceObjectMember(Flags, std::string_view name, int index) override { introduce(OBJECT, name, index); }
	void endWritingObject(Flags) override { end(OBJECT); }
	void writeOptional(Flags f, bool present, Bomba::Callback<> writeValue) override {
		Node& n = value(OPTIONAL, f);
		n.present = present;
		if (!present) return;
		n.children.emplace_back();
		stack.push_back({&n, true});
		size_t depth = stack.size();
		writeValue();
		if (stack.size() != depth || stack.back().waiting) wrong("optional value not written");
		stack.pop_back();
	}
	bool canOmitMembers() const override { return canOmit; }
};

// Tokens in order of reading
struct Token {
	Kind kind;
	bool name = false, end = false; // Name of a member, end of a structure
	int64_t i = 0;
	double d = 0;
	std::string s;
	int next = 0; // Position behind the value
	Flags flags = SF::NONE;
};
struct Presentation { // How the input shows the same value
	bool named = true; // Members of objects come with names
	bool shuffled = false, unknown = false;
	bool keepsText = false; // Text remains valid as long as the input
};
struct Tokens {
	std::vector<Token> list;
	Rng& rng;
	Presentation how;
	Tokens(Rng& rng, Presentation how) : rng(rng), how(how) {}
	void addRandom(int depth) { // Something of any type
		size_t at = list.size();
		int kind = int(rng.below(depth > 2 ? 5 : 7));
		Token t{Kind(INT + kind)};
		t.s = kind == 2 ? randomText(rng, 10, 40) : "";
		t.i = kind == 3 ? int64_t(rng.below(2)) : int64_t(rng.next());
		list.push_back(t);
		if (kind >= 5) {
			for (int n = int(rng.below(4)); n > 0; n--) {
				if (kind == 6) { Token m{STRING}; m.name = true; m.s = "u" + std::to_string(n); list.push_back(m); }
				addRandom(depth + 1);
			}
			Token e{t.kind}; e.end = true; e.next = int(list.size()) + 1;
			list.push_back(e);
		}
		list[at].next = int(list.size());
	}
	void add(const Node& n) {
		size_t at = list.size();
		Token t{n.kind, false, false, n.i, n.d, n.s, 0, n.flags};
		if (n.kind == OPTIONAL) t.i = n.present;
		list.push_back(t);
		if (n.kind == ARRAY || n.kind == OBJECT) {
			bool isClass = n.kind == OBJECT && (n.flags & SF::OBJECT_LAYOUT_KNOWN);
			std::vector<size_t> order;
			for (size_t i = 0; i < n.children.size(); i++) order.push_back(i);
			if (n.kind == OBJECT && how.named && how.shuffled) for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[rng.below(j)]);
			for (size_t i = 0; i <= order.size(); i++) {
				while (isClass && how.named && how.unknown && rng.chance(15)) {
					Token m{STRING}; m.name = true; m.s = "unknown member " + std::to_string(rng.below(100));
					list.push_back(m);
					addRandom(0);
				}
				if (i == order.size()) break;
				auto& child = n.children[order[i]];
				if (n.kind == OBJECT) { Token m{STRING}; m.name = true; m.s = child.first; m.i = how.named || !isClass; list.push_back(m); }
				add(child.second);
			}
			Token e{n.kind}; e.end = true; e.next = int(list.size()) + 1;
			list.push_back(e);
		} else if (n.kind == OPTIONAL && n.present) add(n.children[0].second);
		list[at].next = int(list.size());
	}
};

class Input : public Bomba::IStructuredInput {
	H& h;
	std::vector<Token>& tokens;
	bool named;
	bool keepsText;
	int position = 0;
	std::string temporary; // Strings are valid only until the next call
	struct Array { int elementEnd; bool wasLast = false; }; // Where the introduced element ends, -1 if none was introduced yet
	std::vector<Array> arrays;
	void wrong(const std::string& what) { h.fail("reading-protocol", what + " at token " + std::to_string(position) + " of " + std::to_string(tokens.size()) + (position < int(tokens.size()) ? std::string(" (") + kindName(tokens[position].kind) + (tokens[position].end ? " end" : tokens[position].name ? " name" : "") + ")" : "")); }
	Token& here(Kind kind, bool end = false) {
		if (position >= int(tokens.size())) wrong(std::string(kindName(kind)) + " wanted");
		Token& t = tokens[position];
		if (t.name || t.end != end || t.kind != kind) wrong(std::string(kindName(kind)) + (end ? " end" : "") + " wanted");
		h.count(std::string("read_") + kindName(kind));
		return t;
	}
	std::string_view show(const std::string& s) {
		if (keepsText) return s;
		// The former text stops being valid
		temporary.assign(temporary.size(), '#');
		temporary = std::string();
		temporary = s;
		return temporary;
	}
public:
	Input(H& h, std::vector<Token>& tokens, bool named, bool keepsText) : h(h), tokens(tokens), named(named), keepsText(keepsText) {}
	bool finished() const { return position == int(tokens.size()) && arrays.empty(); }

	MemberType identifyType(Flags) override {
		if (position >= int(tokens.size()) || tokens[position].end || tokens[position].name) return TYPE_INVALID;
		switch (tokens[position].kind) {
		case INT: return TYPE_INTEGER; case FLOAT: return TYPE_FLOAT; case STRING: return TYPE_STRING; case BOOL: return TYPE_BOOLEAN; case NUL: return TYPE_NULL;
		case ARRAY: return TYPE_ARRAY; case OBJECT: return TYPE_OBJECT;
		default: return TYPE_INVALID;
		}
	}
	int64_t readInt(Flags f) override {
		Token& t = here(INT);
		if (numeric(f) != numeric(t.flags)) wrong("integer read as type " + std::to_string(numeric(f)) + " but written as type " + std::to_string(numeric(t.flags)));
		position++;
		return t.i;
	}
	double readFloat(Flags f) override {
		Token& t = here(FLOAT);
		if (numeric(f) != numeric(t.flags)) wrong("float read as type " + std::to_string(numeric(f)) + " but written as type " + std::to_string(numeric(t.flags)));
		position++;
		return t.d;
	}
	std::string_view readString(Flags) override { Token& t = here(STRING); position++; return show(t.s); }
	bool readBool(Flags) override { Token& t = here(BOOL); position++; return t.i; }
	void readNull(Flags) override { here(NUL); position++; }
	void startReadingArray(Flags) override { here(ARRAY); position++; arrays.push_back({-1}); }
	bool nextArrayElement(Flags) override {
		if (arrays.empty()) wrong("next element outside of an array");
		Array& top = arrays.back();
		if (top.wasLast) wrong("next element wanted after the end of the array was announced");
		if (top.elementEnd != -1 && position != top.elementEnd) wrong("next element wanted before the previous one was read");
		if (tokens[position].end) { top.wasLast = true; return false; }
		top.elementEnd = tokens[position].next;
		return true;
	}
	void endReadingArray(Flags) override {
		if (arrays.empty()) wrong("end of array outside of an array");
		if (!arrays.back().wasLast) wrong("end of array before its end was reached");
		here(ARRAY, true);
		position++;
		arrays.pop_back();
	}
	void readObject(Flags flags, Bomba::Callback<bool(std::optional<std::string_view>, int)> onEach) override {
		Token& object = here(OBJECT);
		if ((flags & SF::OBJECT_LAYOUT_KNOWN) != (object.flags & SF::OBJECT_LAYOUT_KNOWN)) wrong("object read as another sort than written");
		const bool isClass = object.flags & SF::OBJECT_LAYOUT_KNOWN;
		const int end = object.next - 1;
		const size_t depth = arrays.size();
		position++;
		int index = 0;
		while (position != end) {
			Token& name = tokens[position];
			position++;
			const int valueAt = position, valueEnd = tokens[position].next;
			bool more = onEach(named || !isClass ? std::optional(show(name.s)) : std::nullopt, index);
			if (arrays.size() != depth) wrong("array not ended within a member");
			if (position != valueEnd && position != valueAt) wrong("member read partially");
			if (position == valueAt && more) wrong("member neither read nor skipped");
			position = valueEnd;
			index++;
			if (!more) break;
		}
		h.count(position == end ? "objects_read_entirely" : "objects_read_partially");
		position = end + 1;
	}
	void skipObjectElement(Flags) override {
		if (position >= int(tokens.size()) || tokens[position].end || tokens[position].name) wrong("value to skip wanted");
		position = tokens[position].next;
		h.count("skipped");
	}
	bool readOptional(Flags, Bomba::Callback<> readValue) override {
		Token& t = here(OPTIONAL);
		bool present = t.i;
		int end = t.next;
		position++;
		if (present) {
			readValue();
			if (position != end) wrong("optional value not read exactly");
		}
		return present;
	}
	Location storePosition(Flags) override { return Location{position}; }
	void restorePosition(Flags, Location l) override { position = l.loc; }
};

// Does the tree contain what the object does?
template <typename T>
std::string differs(const T& v, const Node& n, bool nested = false) {
	auto expect = [&] (Kind k) -> std::string { return n.kind == k ? "" : std::string(kindName(n.kind)) + " instead of " + kindName(k); };
	if constexpr (std::is_same_v<T, bool>) {
		if (auto e = expect(BOOL); !e.empty()) return e;
		return bool(n.i) == v ? "" : "other bool";
	} else if constexpr (std::is_integral_v<T>) {
		if (auto e = expect(INT); !e.empty()) return e;
		if (numeric(n.flags) != SF::typeToFlags(T())) return "integer marked by flags " + std::to_string(n.flags) + " has " + std::to_string(sizeof(T)) + " bytes";
		return n.i == int64_t(v) ? "" : std::to_string(n.i) + " instead of " + std::to_string(v);
	} else if constexpr (std::is_floating_point_v<T>) {
		if (auto e = expect(FLOAT); !e.empty()) return e;
		if (numeric(n.flags) != SF::typeToFlags(T())) return "float marked by flags " + std::to_string(n.flags);
		return same(T(n.d), v) && double(T(n.d)) == n.d ? "" : "other float";
	} else if constexpr (std::is_same_v<T, std::string>) {
		if (auto e = expect(STRING); !e.empty()) return e;
		return n.s == v ? "" : "other string " + n.s;
	} else if constexpr (ZooStruct<T>) {
		if (auto e = expect(OBJECT); !e.empty()) return e;
		if (!(n.flags & SF::OBJECT_LAYOUT_KNOWN)) return "class not marked as having a known layout";
		size_t i = 0;
		std::string r;
		v.each([&] (std::string_view name, auto& m) {
			if (!r.empty()) return;
			if (i >= n.children.size()) r = "member " + std::string(name) + " missing";
			else if (n.children[i].first != name) r = "member " + n.children[i].first + " instead of " + std::string(name);
			else if (auto d = differs(m, n.children[i].second); !d.empty()) r = std::string(name) + ": " + d;
			i++;
		});
		if (r.empty() && i != n.children.size()) r = "surplus member";
		if (r.empty() && n.declared != -1 && n.declared != int(i)) r = "size declared as " + std::to_string(n.declared);
		return r;
	} else if constexpr (IsVector<T>::value || IsArray<T>::value) {
		if (auto e = expect(ARRAY); !e.empty()) return e;
		if (n.children.size() != v.size()) return "array of " + std::to_string(n.children.size()) + " instead of " + std::to_string(v.size());
		for (size_t i = 0; i < v.size(); i++) if (auto d = differs(v[i], n.children[i].second); !d.empty()) return "[" + std::to_string(i) + "] " + d;
		return "";
	} else if constexpr (IsMap<T>::value) {
		if (auto e = expect(OBJECT); !e.empty()) return e;
		if (n.flags & SF::OBJECT_LAYOUT_KNOWN) return "map marked as having a known layout";
		if (n.children.size() != v.size()) return "map of " + std::to_string(n.children.size()) + " instead of " + std::to_string(v.size());
		size_t i = 0;
		for (auto& it : v) {
			if (n.children[i].first != it.first) return "other key";
			if (auto d = differs(it.second, n.children[i].second); !d.empty()) return "{" + it.first + "} " + d;
			i++;
		}
		return "";
	} else {
		if (auto e = expect(OPTIONAL); !e.empty()) return e;
		if (n.present != bool(v)) return n.present ? "present" : "absent";
		return v ? differs(*v, n.children[0].second) : "";
	}
}
}
#endif
