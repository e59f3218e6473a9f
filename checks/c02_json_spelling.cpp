// Reading JSON depends on content only: random layouts, escapes, number spellings, orders, unknown and absent members
#include "zoo.hpp"
#include "bomba_json.hpp"

using Json = Bomba::BasicJson<>;

struct Mangler {
	Rng& rng;
	H& h;
	int unknown = 0, absent = 0;

	// Adds unknown members and removes known ones in the text, with the consequences applied to the expectation
	template <typename T> void apply(T& expected, const T& source, JVal& text, bool mayDrop) {
		std::vector<std::string> known;
		source.each([&] (std::string_view name, auto&) { known.emplace_back(name); });
		std::vector<const void*> sources;
		source.each([&] (std::string_view, auto& m) { sources.push_back(&m); });
		size_t i = 0;
		JVal result = JVal::object();
		auto addUnknown = [&] {
			while (rng.chance(20)) {
				std::string name = rng.chance(50) ? known[rng.below(known.size())] + (rng.chance(50) ? "2" : " ") : randomText(rng, 8, 30);
				if (std::find(known.begin(), known.end(), name) != known.end() || result.find(name)) continue;
				result.obj.emplace_back(name, randomJson(rng));
				unknown++;
			}
		};
		expected.each([&] (std::string_view name, auto& m) {
			const auto& src = *static_cast<std::add_pointer_t<std::add_const_t<std::remove_reference_t<decltype(m)>>>>(sources[i++]);
			addUnknown();
			if (mayDrop && rng.chance(15)) { absent++; return; }
			JVal* v = nullptr;
			for (auto& it : text.obj) if (it.first == name) v = &it.second;
			if constexpr (ZooStruct<std::decay_t<decltype(m)>>) apply(m, src, *v, mayDrop);
			else assign(m, src);
			result.obj.emplace_back(name, *v);
		});
		addUnknown();
		text = std::move(result);
	}
	template <typename T> static void assign(T& to, const T& from) {
		if constexpr (IsVector<T>::value) { to.clear(); for (auto& it : from) { to.emplace_back(); assign(to.back(), it); } }
		else if constexpr (IsArray<T>::value) { for (size_t i = 0; i < to.size(); i++) assign(to[i], from[i]); }
		else if constexpr (IsMap<T>::value) { to.clear(); for (auto& it : from) assign(to[it.first], it.second); }
		else if constexpr (ZooStruct<T>) {
			std::vector<const void*> o;
			from.each([&] (std::string_view, auto& m) { o.push_back(&m); });
			size_t i = 0;
			to.each([&] (std::string_view, auto& m) { assign(m, *static_cast<std::add_pointer_t<std::add_const_t<std::remove_reference_t<decltype(m)>>>>(o[i++])); });
		} else if constexpr (PtrLike<T>) {
			if (!from) { to.reset(); return; }
			using E = std::decay_t<decltype(*to)>;
			if constexpr (requires { typename T::element_type; }) to = T(new E());
			else to = E();
			assign(*to, *from);
		} else to = from;
	}
};

void runCase(H& h) {
	withZooType(int(h.caseNo % zooCount), [&] <typename T> () {
		FillLimits lim;
		lim.maybeHuge(h.rng, false);
		T source, target, expected;
		fill(h.rng, source, lim);
		if (lim.wasHuge) h.count("huge_containers");
		fill(h.rng, target, lim);
		Mangler::assign(expected, target);
		JVal text = model(source);
		Mangler mangler{h.rng, h};
		mangler.apply(expected, source, text, h.rng.chance(50));
		JsonSpeller speller(h.rng);
		std::string spelled = speller.ws() + speller.print(text) + speller.ws();
		if (!sameJson(JsonParser::parse(spelled), text)) throw std::logic_error("harness: spelling is not equivalent: " + spelled);
		h.sign(T::typeName); h.sign(spelled);
		h.count("unknown_members", mangler.unknown);
		h.count("absent_members", mangler.absent);
		h.count(std::string("layout_") + std::to_string(speller.layout));
		h.maximum("document_bytes", spelled.size());
		h.sample(std::string(T::typeName) + ": " + spelled.substr(0, 300));
		bool ok = false;
		try {
			ok = target.template deserialise<Json>(spelled);
		} catch (std::exception& e) {
			h.fail("equivalent-text-refused", std::string(T::typeName) + ": " + e.what() + ": " + spelled);
		}
		h.check(ok, "reading-reported-failure", [&] { return std::string(T::typeName) + ": " + spelled; });
		h.check(same(expected, target), "read-differently", [&] {
			return std::string(T::typeName) + ": " + spelled + "\nread as " + JsonSpeller(h.rng).print(model(target)) + "\nexpected " + JsonSpeller(h.rng).print(model(expected)); });
		h.count("texts_read");
	});
}
