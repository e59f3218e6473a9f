// C25: exactly the declared members are found in classes of any layout
#include "zoo.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;
using Json = BasicJson<>;

namespace {
template <typename T>
std::string described() { // Types expected in the description, ? is for those that may be described as optional
	if constexpr (std::is_same_v<T, bool>) return "b";
	else if constexpr (std::is_integral_v<T>) return "i";
	else if constexpr (std::is_floating_point_v<T>) return "f";
	else if constexpr (std::is_same_v<T, std::string>) return "s";
	else if constexpr (ZooStruct<T> || IsMap<T>::value) return "o";
	else if constexpr (IsVector<T>::value || IsArray<T>::value) return "[" + described<typename T::value_type>() + "]";
	else return described<std::decay_t<decltype(*std::declval<T&>())>>();
}
struct Filler : IPropertyDescriptionFiller {
	std::vector<std::pair<std::string, std::string>> members;
	std::string* target = nullptr;
	std::string outside;
	std::string& out() { return target ? *target : outside; }
	void addMember(std::string_view name, std::string_view, Callback<> writer) override {
		members.emplace_back(name, "");
		std::string text;
		auto before = target;
		target = &text;
		writer();
		target = before;
		members.back().second = text;
	}
	void addInteger() override { out() += "i"; }
	void addFloat() override { out() += "f"; }
	void addBoolean() override { out() += "b"; }
	void addString() override { out() += "s"; }
	void addOptional(Callback<void(IPropertyDescriptionFiller&)> filler) override { filler(*this); }
	void addArray(Callback<void(IPropertyDescriptionFiller&)> filler) override { out() += "["; filler(*this); out() += "]"; }
	void addSubobject(std::optional<std::string_view>, Callback<void(IPropertyDescriptionFiller&)>) override { out() += "o"; }
};

template <typename T>
std::string keptBytes(const T& t) { // What is in the undeclared members
	std::string r;
	if constexpr (requires { t.kept([] (auto&) {}); })
		t.kept([&] (auto& m) {
			if constexpr (std::is_same_v<std::decay_t<decltype(m)>, std::string>) r += m + "|";
			else r += std::string(reinterpret_cast<const char*>(&m), sizeof(m)) + "|";
		});
	return r;
}
template <typename T>
bool basesIntact(const T& t) {
	if constexpr (std::is_base_of_v<OtherBase, T>) { const OtherBase& b = t; if (!b.intact()) return false; }
	if constexpr (std::is_base_of_v<OtherVirtualBase, T>) { const OtherVirtualBase& b = t; if (!b.intact()) return false; }
	return true;
}
// An object constructed in memory with some contents
template <typename T>
struct Placed {
	std::unique_ptr<char[]> memory;
	T* object;
	Placed(Rng& rng) : memory(new char[sizeof(T) + 64]) {
		int how = int(rng.below(4));
		for (size_t i = 0; i < sizeof(T) + 64; i++) memory[i] = how == 0 ? 0x0d : how == 1 ? char(0xf3) : how == 2 ? 0 : char(rng.next());
		object = new (reinterpret_cast<void*>((reinterpret_cast<uintptr_t>(memory.get()) + alignof(T) - 1) / alignof(T) * alignof(T))) T;
	}
	~Placed() { object->~T(); }
	T& operator*() { return *object; }
	T* operator->() { return object; }
};

// Classes are used also while global variables are being initialised
template <typename T>
std::string use(int type) {
	T written, read;
	Rng rng(uint64_t(type) + 17);
	fill(rng, written, FillLimits{30, 2, 4});
	std::string text = written.template serialise<Json>();
	bool ok = read.template deserialise<Json>(text) && same(written, read);
	using Binary = BinaryFormat<std::string, uint32_t, LittleEndianNumberFormat<std::string>, 8>;
	T readBinary;
	readBinary.template deserialise<Binary>(read.template serialise<Binary>());
	return text + (ok ? "" : " was not read") + (same(written, readBinary) ? "" : " was not read from binary");
}
template <typename T> std::string readAtStart(int type) { // The very first use is reading
	if (type % 2) return "";
	T read;
	bool ok = read.template deserialise<Json>("{}");
	return ok && same(read, T()) ? "" : "empty object not read";
}
std::vector<std::string> useAll() {
	std::vector<std::string> r;
	for (int type = 0; type < zooCount; type++) withZooType(type, [&] <typename T> () { r.push_back(readAtStart<T>(type) + use<T>(type)); });
	return r;
}
const std::vector<std::string> usedAtStart = useAll();
}

void runCase(H& h) {
	int type = int(h.caseNo % zooCount);
	withZooType(type, [&] <typename T> () {
		std::string name = T::typeName;
		Placed<T> source(h.rng), target(h.rng);
		if constexpr (requires { source->wrongDefault(); })
			for (auto* o : {&*source, &*target}) h.check(!o->wrongDefault(), "initial-values", [&] { return name + ": not " + o->wrongDefault(); });
		h.check(basesIntact(*source), "base-initial", [&] { return name; });
		std::string usedNow = use<T>(type);
		h.check(usedAtStart[size_t(type)] == usedNow, "used-while-initialising", [&] { return name + ": " + usedAtStart[size_t(type)] + "\nlater " + usedNow; });

		// Description
		Filler filler;
		static_cast<const IDescribableSerialisable&>(*source).describe(filler);
		size_t index = 0;
		source->each([&] (std::string_view member, auto& m) {
			h.check(index < filler.members.size() && filler.members[index].first == member && filler.members[index].second == described<std::decay_t<decltype(m)>>(), "described-other", [&] {
				return name + " member " + std::string(member) + " number " + std::to_string(index) + " is described as " + (index < filler.members.size() ? filler.members[index].first + ":" + filler.members[index].second : "nothing"); });
			index++;
		});
		h.check(filler.members.size() == index && filler.outside.empty(), "described-more", [&] { return name; });

		// One member is changed at a time, nothing else may differ; then all of them
		int rounds = int(h.rng.range(1, 3));
		for (int round = 0; round < rounds; round++) {
			if constexpr (requires { source->fillKept(); }) if (h.rng.chance(70)) { source->fillKept(); h.count("kept_filled"); }
			bool single = h.rng.chance(50);
			size_t count = 0, chosen = 0;
			if (single) chosen = h.rng.below(index ? index : 1);
			source->each([&] (std::string_view, auto& m) {
				if (!single || count == chosen) fill(h.rng, m, FillLimits{60, 2, 6});
				count++;
			});
			std::string text = source->template serialise<Json>();
			h.sign(name + text);
			h.sample(name + ": " + text.substr(0, 200));
			JVal wanted = model(*source), parsed;
			try { parsed = JsonParser::parse(text); } catch (JsonSyntax& e) { h.fail("malformed", name + ": " + text); }
			size_t at = 0; // In the order of declaration, those without value may be left out
			for (auto& member : wanted.obj) {
				if (member.second.kind == JVal::NUL && (at >= parsed.obj.size() || parsed.obj[at].first != member.first)) continue;
				h.check(at < parsed.obj.size() && parsed.obj[at].first == member.first && sameJson(parsed.obj[at].second, member.second), "written-other", [&] { return name + " member " + member.first + " in " + text; });
				at++;
			}
			h.check(at == parsed.obj.size(), "written-more", [&] { return name + ": " + text; });

			if constexpr (requires { target->fillKept(); }) if (h.rng.chance(70)) target->fillKept();
			std::string kept = keptBytes(*target), keptSource = keptBytes(*source);
			if (h.rng.chance(60)) {
				h.check(target->template deserialise<Json>(text), "not-read", [&] { return name + ": " + text; });
				h.count("read_json");
			} else {
				using Binary = BinaryFormat<std::string, uint32_t, LittleEndianNumberFormat<std::string>, 8>;
				std::string bytes = source->template serialise<Binary>();
				BinaryModel<uint32_t> binary;
				source->each([&] (std::string_view, auto& m) { binary.encode(m); });
				h.check(bytes == binary.out, "written-binary", [&] { return name + ": " + hex(bytes) + "\nnot " + hex(binary.out); });
				h.check(target->template deserialise<Binary>(bytes), "not-read-binary", [&] { return name + ": " + hex(bytes); });
				h.count("read_binary");
			}
			h.check(same(*source, *target), "read-other", [&] { return name + ": " + text + "\nread as " + target->template serialise<Json>(); });
			h.check(keptBytes(*target) == kept && keptBytes(*source) == keptSource, "undeclared-touched", [&] { return name + ": " + text; });
			h.check(basesIntact(*target) && basesIntact(*source), "base-touched", [&] { return name + ": " + text; });
			h.count(single ? "single_member" : "all_members");
		}
		h.maximum("members", int64_t(index));
	});
}
