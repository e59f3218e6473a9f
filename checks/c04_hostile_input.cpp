// Hostile input to every deserialiser: memory safety (sanitizers), kinds of failures, memory use, leaks, usability of the object afterwards
#include "alloc.hpp"
#include "hostile.hpp"
#include "zoo.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"

using Json = Bomba::BasicJson<>;
using Form = Bomba::HtmlMessageEncoding<>;
template <typename SizeType, int MaxDepth>
using Bin = Bomba::BinaryFormat<std::string, SizeType, Bomba::LittleEndianNumberFormat<std::string>, MaxDepth>;

std::string deep(Rng& rng) { // Nesting
	std::string r;
	int n = int(rng.chance(10) ? rng.range(1000, 30000) : rng.range(1, 200));
	int kind = int(rng.below(3));
	for (int i = 0; i < n; i++) r += kind == 0 ? "[" : kind == 1 ? "{\"a\":" : i % 2 ? "[" : "{\"x\":";
	if (rng.chance(50)) { r += "1"; for (int i = n - 1; i >= 0; i--) r += kind == 0 ? "]" : kind == 1 ? "}" : i % 2 ? "]" : "}"; }
	return r;
}

template <typename T, typename Format>
struct Reader {
	static void run(H& h, std::string_view text, const char* format) {
		int64_t before = Alloc::live;
		std::string what;
		{
			auto target = std::make_unique<T>();
			if (h.rng.chance(50)) fill(h.rng, *target, FillLimits{40, 2, 5});
			ExactBytes exact(text);
			int64_t total = Alloc::total;
			Alloc::largest = 0;
			int outcome = 0;
			try {
				outcome = target->template deserialise<Format>(exact.view()) ? 1 : 2;
			} catch (std::exception& e) {
				outcome = 3;
				what = e.what();
			} catch (...) {
				h.fail("foreign-exception", std::string(T::typeName) + " " + format + ": something not derived from std::exception was thrown for " + hex(text));
			}
			h.count(outcome == 1 ? "accepted" : outcome == 2 ? "reported_failure" : "refused_by_exception");
			int64_t used = Alloc::total - total;
			h.maximum("bytes_allocated_while_reading", used);
			h.check(used <= 1000000 + 3000 * int64_t(text.size()) && Alloc::largest <= 300000 + 300 * int64_t(text.size()), "memory-unrelated-to-input", [&] {
				return std::string(T::typeName) + " " + format + ": " + std::to_string(used) + " bytes allocated (largest block " + std::to_string(Alloc::largest) + ") reading " + std::to_string(text.size()) + " bytes: " + hex(text, 60); });
			// Whatever happened, it must be a valid object
			{
				std::string written = target->template serialise<Json>();
				h.count("bytes_written_afterwards", written.size());
			}
			T fresh;
			fill(h.rng, fresh, FillLimits{40, 2, 5});
			std::string doc = JsonSpeller(h.rng).print(model(fresh));
			bool ok = target->template deserialise<Json>(doc);
			h.check(ok && same(*target, fresh), "unusable-afterwards", [&] {
				return std::string(T::typeName) + " after reading " + format + " " + hex(text, 200) + "\nthis was not read: " + doc + "\nthe object is " + JsonSpeller(h.rng).print(model(*target)); });
			h.count("reused");
		}
		{ std::string().swap(what); }
		int64_t leaked = Alloc::live - before;
		if (leaked != 0) { // May be some lazily made static object or counter: repeat to be sure
			before = Alloc::live;
			if (h.counters["max_leak_recheck_depth"] == 0) {
				h.counters["max_leak_recheck_depth"] = 1;
				Rng kept = h.rng;
				for (int i = 0; i < 2; i++) { h.rng = kept; int64_t b = Alloc::live; run(h, text, format); leaked = Alloc::live - b; }
				h.counters["max_leak_recheck_depth"] = 0;
				h.count("leak_rechecks");
				h.check(leaked == 0, "leak", [&] { return std::string(T::typeName) + " " + format + ": " + std::to_string(leaked) + " bytes leaked after reading " + hex(text); });
			}
		}
	}
};

template <typename T>
std::string formText(Rng& rng, T& sample) {
	std::string r;
	sample.each([&] (std::string_view name, auto& m) {
		if (!r.empty()) r += "&";
		r += name;
		r += "=";
		using M = std::decay_t<decltype(m)>;
		if constexpr (std::is_same_v<M, std::string>) r += m;
		else if constexpr (std::is_arithmetic_v<M>) r += std::to_string(m);
		else r += rng.chance(50) ? "1" : "x%20y";
	});
	return r;
}

template <typename T, typename SizeType, int MaxDepth = 8>
void binary(H& h, T& sample) {
	BinaryModel<SizeType> m;
	m.encode(sample);
	std::string text = m.out;
	int mode = int(h.rng.below(6));
	if (mode == 0) text.resize(h.rng.below(text.size() + 1));
	else if (mode == 1) text = randomBytes(h.rng, h.rng.size(30, 400));
	else if (mode == 2) text = std::string(h.rng.size(30, 400), char(h.rng.chance(50) ? 0xff : 0x01));
	else if (mode != 3) text = mutateBytes(h.rng, text, "");
	h.sign(T::typeName); h.sign("bin" + std::to_string(sizeof(SizeType))); h.sign(text);
	h.count("inputs_binary");
	if (MaxDepth < 8) h.count("inputs_for_limited_depth");
	Reader<T, Bin<SizeType, MaxDepth>>::run(h, text, "binary");
}

void runCase(H& h) {
	withZooType(int(h.caseNo % zooCount), [&] <typename T> () {
		T sample;
		fill(h.rng, sample, FillLimits{40, 2, 6});
		int mode = int(h.rng.below(10));
		if (mode < 5) {
			std::string text = JsonSpeller(h.rng).print(model(sample));
			constexpr const char* alphabet = "\"{}[]:,\\-+.eE0123456789tfnu \t\n/";
			switch (h.rng.below(8)) {
			case 0: text.resize(h.rng.below(text.size() + 1)); break;
			case 1: { text.clear(); for (int64_t n = h.rng.size(20, 300); n > 0; n--) text += alphabet[h.rng.below(strlen(alphabet))]; } break;
			case 2: { // Something nested somewhere
				size_t at = text.find_first_of(":[,", h.rng.below(text.size() + 1));
				text.insert(at == std::string::npos ? text.size() : at + 1, deep(h.rng) + (h.rng.chance(50) ? "," : ""));
			} break;
			case 3: { // Wrong types of values
				JVal v = model(sample);
				for (auto& it : v.obj) if (h.rng.chance(30)) it.second = randomJson(h.rng, 3);
				text = JsonSpeller(h.rng).print(v);
			} break;
			case 4: text = "{\"unknown\":" + deep(h.rng) + "," + (text.size() > 1 ? text.substr(1) : ""); break;
			default: text = mutateBytes(h.rng, text, alphabet);
			}
			h.sign(T::typeName); h.sign("json"); h.sign(text);
			h.count("inputs_json");
			h.sample(std::string(T::typeName) + " JSON " + text);
			Reader<T, Json>::run(h, text, "JSON");
		} else if (mode < 8) {
			int which = int(h.rng.below(6));
			// Types with arrays nested more than that can't be read, it must not do harm
			if (which == 4) binary<T, uint16_t, 1>(h, sample);
			else if (which == 5) binary<T, uint8_t, 2>(h, sample);
			else if (which == 0) binary<T, uint8_t>(h, sample);
			else if (which == 1) binary<T, uint16_t>(h, sample);
			else if (which == 2) binary<T, uint32_t>(h, sample);
			else binary<T, int32_t>(h, sample);
		} else {
			std::string text = formText(h.rng, sample);
			if (h.rng.chance(20)) text.resize(h.rng.below(text.size() + 1));
			else if (h.rng.chance(80)) text = mutateBytes(h.rng, text, "%&=+0123456789abcdefABCDEF;#-.");
			h.sign(T::typeName); h.sign("form"); h.sign(text);
			h.count("inputs_form");
			Reader<T, Form>::run(h, text, "form");
		}
	});
}
