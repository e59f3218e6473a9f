// JSON round trip: independent parse of the output, reading into objects with other contents
#include "zoo.hpp"
#include "bomba_json.hpp"

using Json = Bomba::BasicJson<>;

// A minimal string type as the documentation allows
struct TinyString {
	std::string s;
	TinyString() = default;
	TinyString& operator+=(char c) { s += c; return *this; }
	TinyString& operator+=(const char* c) { s += c; return *this; }
	TinyString& operator+=(std::string_view c) { s += c; return *this; }
	TinyString& operator+=(const TinyString& c) { s += c.s; return *this; }
	operator std::string_view() const { return s; }
	void clear() { s.clear(); }
};

void runCase(H& h) {
	int type = int(h.caseNo % zooCount);
	withZooType(type, [&] <typename T> () {
		FillLimits lim;
		if (h.rng.chance(10)) lim = {2000, 3, 40};
		lim.maybeHuge(h.rng);
		T original, target;
		fill(h.rng, original, lim);
		if (lim.wasHuge) h.count("huge_containers");
		bool prior = h.rng.chance(70);
		if (prior) fill(h.rng, target, lim);
		std::string text = original.template serialise<Json>();
		h.sign(T::typeName); h.sign(text);
		h.count("bytes_written", text.size());
		h.maximum("document_bytes", text.size());
		h.sample(std::string(T::typeName) + ": " + text.substr(0, 300));
		JVal parsed;
		try {
			parsed = JsonParser::parse(text);
		} catch (JsonSyntax& e) {
			h.fail("malformed-output", std::string(T::typeName) + ": " + e.what() + " in " + text);
		}
		JVal wanted = model(original);
		h.check(parsed.obj.size() == wanted.obj.size(), "wrong-members", [&] { return text; });
		for (size_t i = 0; i < wanted.obj.size(); i++)
			h.check(sameJson(wanted.obj[i].second, parsed.find(wanted.obj[i].first) ? *parsed.find(wanted.obj[i].first) : JVal::string("(absent)")),
					"wrong-output", [&] { return std::string(T::typeName) + " member " + wanted.obj[i].first + " in " + text; });
		bool ok = target.template deserialise<Json>(text);
		h.check(ok, "reading-reported-failure", [&] { return std::string(T::typeName) + ": " + text; });
		h.check(same(original, target), "not-restored", [&] {
			return std::string(T::typeName) + (prior ? " (target had other contents)" : "") + ": " + text + "\nread as " + JsonSpeller(h.rng).print(model(target)); });
		std::string again = target.template serialise<Json>();
		h.check(again == text, "rewriting-differs", [&] { return text + "\nvs.\n" + again; });
		// Reading through a custom string type gives the same
		T third;
		h.check(third.template deserialise<Bomba::BasicJson<TinyString>>(text) && same(original, third), "custom-string-type-differs", [&] { return text; });
		h.count("round_trips");
	});
}
