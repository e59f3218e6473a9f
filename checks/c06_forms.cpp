// Url-encoded forms: what the library writes is decoded by an independent decoder, what an independent encoder writes is read by the library
#include "form_model.hpp"
#include "zoo.hpp"
#include "bomba_http.hpp"
#include "bomba_rpc_object.hpp"
using Form = Bomba::HtmlMessageEncoding<std::string, std::string>;

struct FNumbers : Bomba::Serialisable<FNumbers> {
	int8_t i8 = key<"i8"> = -8;
	uint8_t u8 = key<"u8"> = 8;
	int16_t i16 = key<"i16"> = -16;
	uint16_t u16 = key<"u16"> = 16;
	int32_t i32 = key<"i32"> = -32;
	uint32_t u32 = key<"u32"> = 32;
	int64_t i64 = key<"i64"> = -64;
	uint64_t u64 = key<"u64"> = 64;
	float f = key<"f"> = 0.5;
	double d = key<"d"> = -0.25;
	template <typename F> void each(F&& f_) { f_("i8", i8); f_("u8", u8); f_("i16", i16); f_("u16", u16); f_("i32", i32); f_("u32", u32); f_("i64", i64); f_("u64", u64); f_("f", f); f_("d", d); }
	template <typename F> void each(F&& f_) const { const_cast<FNumbers*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
};
struct FTexts : Bomba::Serialisable<FTexts> {
	std::string a = key<"a"> = "x";
	std::string ab = key<"ab">;
	std::string odd = key<"odd & name=%+#;">;
	std::string accents = key<"žluťoučký kůň">;
	int32_t number = key<"a b"> = 3;
	std::string last = key<"A">;
	template <typename F> void each(F&& f) { f("a", a); f("ab", ab); f("odd & name=%+#;", odd); f("žluťoučký kůň", accents); f("a b", number); f("A", last); }
	template <typename F> void each(F&& f_) const { const_cast<FTexts*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
};
struct FMixed : Bomba::Serialisable<FMixed> {
	std::string name = key<"name">;
	double weight = key<"weight"> = 1.5;
	Bomba::Optional<int32_t> maybe = key<"maybe">;
	int64_t count = key<"count"> = 12;
	Bomba::Optional<std::string> note = key<"note">;
	template <typename F> void each(F&& f) { f("name", name); f("weight", weight); f("maybe", maybe); f("count", count); f("note", note); }
	template <typename F> void each(F&& f_) const { const_cast<FMixed*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
};

template <typename T>
void fillFlat(Rng& rng, T& v) {
	v.each([&] (std::string_view, auto& m) {
		using M = std::decay_t<decltype(m)>;
		if constexpr (std::is_same_v<M, std::string>) m = formText(rng);
		else if constexpr (PtrLike<M>) { // Absence is expressed by leaving the field out, which is not decided here
			std::decay_t<decltype(*m)> e = {};
			if constexpr (std::is_same_v<std::decay_t<decltype(e)>, std::string>) e = formText(rng); else fill(rng, e, FillLimits{});
			m = std::move(e);
		} else fill(rng, m, FillLimits{});
	});
}
template <typename M>
std::string spelled(Rng& rng, const M& m) { // The value as text
	if constexpr (std::is_same_v<M, std::string>) return m;
	else if constexpr (PtrLike<M>) return spelled(rng, *m);
	else if constexpr (std::is_floating_point_v<M>) {
		char b[60];
		snprintf(b, 60, rng.chance(50) ? "%.17g" : "%.17e", double(m));
		return b;
	} else if constexpr (std::is_same_v<M, uint64_t>) return m > uint64_t(INT64_MAX) ? std::to_string(int64_t(m)) : std::to_string(m);
	else return (rng.chance(10) && m >= 0 ? "00" : "") + std::to_string(m);
}
template <typename T>
std::string describe(const T& v) {
	std::string r;
	Rng rng(1);
	v.each([&] (std::string_view n, auto& m) {
		if constexpr (PtrLike<std::decay_t<decltype(m)>>) { if (!m) { r += std::string(n) + "=<absent>; "; return; } }
		r += std::string(n) + "=" + jsonQuote(spelled(rng, m)) + "; ";
	});
	return r;
}

template <typename T>
void objects(H& h, const char* type) {
	T original;
	fillFlat(h.rng, original);
	h.sign(type);
	if (h.rng.chance(50)) { // Written by the library
		std::string text = original.template serialise<Form>();
		h.sign(text);
		std::vector<std::pair<std::string, std::string>> fields;
		for (size_t at = 0; at <= text.size();) {
			size_t end = std::min(text.find('&', at), text.size());
			std::string field = text.substr(at, end - at), name, value;
			size_t eq = field.find('=');
			bool ok = eq != std::string::npos && decodeForm(std::string_view(field).substr(0, eq), name) && decodeForm(std::string_view(field).substr(eq + 1), value);
			h.check(ok, "illegal-form-data", [&] { return std::string(type) + ": " + jsonQuote(text) + "\nfrom " + describe(original); });
			fields.emplace_back(name, value);
			at = end + 1;
		}
		size_t i = 0;
		original.each([&] (std::string_view n, auto& m) {
			using M = std::decay_t<decltype(m)>;
			h.check(i < fields.size() && fields[i].first == n, "wrong-field", [&] { return std::string(type) + ": field " + std::to_string(i) + " should be " + std::string(n) + " in " + jsonQuote(text); });
			std::string& got = fields[i].second;
			bool ok;
			auto value = [&] () -> decltype(auto) { if constexpr (PtrLike<M>) return (*m); else return (m); };
			using V = std::decay_t<decltype(value())>;
			char* end = nullptr;
			if constexpr (std::is_same_v<V, std::string>) ok = got == value();
			else if constexpr (std::is_same_v<V, float> || std::is_same_v<V, double>) ok = same(V(strtod(got.c_str(), &end)), value()) && !*end;
			else ok = V(strtoll(got.c_str(), &end, 10)) == value() && !*end;
			h.check(ok, "wrong-value-written", [&] { return std::string(type) + ": " + std::string(n) + " as " + jsonQuote(got) + " in " + jsonQuote(text) + "\nfrom " + describe(original); });
			i++;
		});
		h.check(i == fields.size(), "wrong-field-count", [&] { return std::string(type) + ": " + jsonQuote(text); });
		h.sample(text);
		T back;
		if (h.rng.chance(50)) fillFlat(h.rng, back);
		bool ok = back.template deserialise<Form>(std::string_view(text));
		h.check(ok && same(back, original), "not-restored", [&] { return std::string(type) + ": " + jsonQuote(text) + "\nfrom " + describe(original) + "\nread " + describe(back); });
		h.count("round_trips");
		return;
	}
	// Written by an independent encoder
	T back, expected;
	fillFlat(h.rng, back);
	std::vector<std::string> fields;
	// Copy field by field, leave some out
	std::vector<const void*> sources;
	original.each([&] (std::string_view, auto& m) { sources.push_back(&m); });
	std::vector<void*> targets;
	expected.each([&] (std::string_view, auto& m) { targets.push_back(&m); });
	size_t i = 0;
	FormEncoder encoder{h.rng};
	back.each([&] (std::string_view n, auto& m) {
		using M = std::decay_t<decltype(m)>;
		M& e = *static_cast<M*>(targets[i]);
		const M& o = *static_cast<const M*>(sources[i]);
		i++;
		if (h.rng.chance(20)) { e = m; h.count("absent_fields"); return; }
		e = o;
		fields.push_back(encoder.encode(n) + "=" + encoder.encode(spelled(h.rng, o)));
	});
	for (int n = int(h.rng.below(4)); n > 0; n--) {
		switch (h.rng.below(5)) {
		case 0: fields.push_back(""); h.count("empty_fields"); break;
		case 1: fields.push_back("unknown" + encoder.encode(formText(h.rng))); h.count("unknown_fields"); break;
		case 2: fields.push_back("=" + encoder.encode(formText(h.rng))); break;
		case 3: fields.push_back("zz="); break;
		default: fields.push_back("Zz" + encoder.encode(formText(h.rng)) + "=" + encoder.encode(formText(h.rng))); h.count("unknown_fields");
		}
	}
	for (size_t j = fields.size(); j > 1; j--) std::swap(fields[j - 1], fields[h.rng.below(j)]);
	std::string text;
	for (size_t j = 0; j < fields.size(); j++) text += (j ? "&" : "") + fields[j];
	h.sign(text);
	h.sample(text);
	bool ok = back.template deserialise<Form>(std::string_view(text));
	h.check(ok && same(back, expected), "misread", [&] { return std::string(type) + ": " + jsonQuote(text) + "\nread as " + describe(back) + "\ninstead of " + describe(expected); });
	h.count("foreign_forms_read");
}

struct Received {
	int calls = 0;
	std::string text, second;
	int64_t number = 0;
	double real = 0;
	bool b1 = false, b2 = false, b3 = false;
} received;
struct Api : Bomba::RpcObject<Api> {
	Bomba::RpcMember<[] (bool b1 = Bomba::name("first bool") | Bomba::SerialisationFlags::OMIT_FALSE, std::string text = Bomba::name("text"), int64_t number = Bomba::name("number"),
			bool b2 = Bomba::name("b2") | Bomba::SerialisationFlags::OMIT_FALSE, double real = Bomba::name("real"), std::string second = Bomba::name("se&cond"),
			bool b3 = Bomba::name("b3") | Bomba::SerialisationFlags::OMIT_FALSE) {
		received = {received.calls + 1, text, second, number, real, b1, b2, b3};
	}> act = child<"act">;
};
struct CapturingClient : Bomba::ITcpClient {
	std::string sent;
	void writeRequest(std::span<char> written) override { sent.append(written.data(), written.size()); }
	void getResponse(Bomba::RequestToken token, Bomba::Callback<std::tuple<Bomba::ServerReaction, Bomba::RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		std::string response = "HTTP/1.1 204 No Content\r\n\r\n";
		reader(std::span<char>(response.data(), response.size()), true);
	}
};

void arguments(H& h) {
	Api server, client;
	Received given;
	given.text = formText(h.rng); given.second = formText(h.rng);
	fill(h.rng, given.number, FillLimits{}); fill(h.rng, given.real, FillLimits{});
	given.b1 = h.rng.chance(50); given.b2 = h.rng.chance(50); given.b3 = h.rng.chance(50);
	std::string body;
	h.sign("arguments");
	if (h.rng.chance(60)) {
		CapturingClient tcp;
		Bomba::HttpClient<> http(tcp, "host");
		client.setResponder(http);
		client.act(given.b1, given.text, given.number, given.b2, given.real, given.second, given.b3);
		size_t at = tcp.sent.find("\r\n\r\n");
		h.check(at != std::string::npos, "no-request", [&] { return jsonQuote(tcp.sent); });
		body = tcp.sent.substr(at + 4);
		h.count("arguments_written");
	} else {
		FormEncoder encoder{h.rng};
		std::vector<std::string> fields;
		static const char* checked[] = {"true", "on", "1", "yes"};
		if (given.b1) fields.push_back(encoder.encode("first bool") + "=" + checked[h.rng.below(4)]);
		if (given.b2) fields.push_back(encoder.encode("b2") + "=" + checked[h.rng.below(4)]);
		if (given.b3) fields.push_back(encoder.encode("b3") + "=" + checked[h.rng.below(4)]);
		fields.push_back(encoder.encode("text") + "=" + encoder.encode(given.text));
		fields.push_back(encoder.encode("se&cond") + "=" + encoder.encode(given.second));
		fields.push_back(encoder.encode("number") + "=" + encoder.encode(spelled(h.rng, given.number)));
		fields.push_back(encoder.encode("real") + "=" + encoder.encode(spelled(h.rng, given.real)));
		if (h.rng.chance(30)) fields.push_back("unknown=" + encoder.encode(formText(h.rng)));
		if (h.rng.chance(30)) fields.push_back("unknown");
		if (h.rng.chance(30)) fields.push_back("");
		for (size_t j = fields.size(); j > 1; j--) std::swap(fields[j - 1], fields[h.rng.below(j)]);
		for (size_t j = 0; j < fields.size(); j++) body += (j ? "&" : "") + fields[j];
		h.count("arguments_foreign");
	}
	h.sign(body);
	for (unsigned char c : body) h.check(c > 0x20 && c < 0x7f && c != '#' && c != '"', "illegal-form-data", [&] { return jsonQuote(body); });
	received = {};
	Bomba::HtmlPostResponder<> responder(server);
	struct NoStarter : Bomba::IWriteStarter {
		void writeUnknownSize(std::string_view, Bomba::Callback<void(Bomba::GeneralisedBuffer&)>) override {}
		void writeKnownSize(std::string_view, int64_t, Bomba::Callback<void(Bomba::GeneralisedBuffer&)>) override {}
	} starter;
	bool ok = responder.post("/act", "application/x-www-form-urlencoded", std::span<char>(body.data(), body.size()), starter);
	h.check(ok && received.calls == 1 && received.text == given.text && received.second == given.second && received.number == given.number && same(received.real, given.real)
			&& received.b1 == given.b1 && received.b2 == given.b2 && received.b3 == given.b3, "arguments-differ", [&] {
		return jsonQuote(body) + "\nread as text " + jsonQuote(received.text) + " second " + jsonQuote(received.second) + " number " + std::to_string(received.number) + " bools " + std::to_string(received.b1) + std::to_string(received.b2) + std::to_string(received.b3)
			+ "\ninstead of text " + jsonQuote(given.text) + " second " + jsonQuote(given.second) + " number " + std::to_string(given.number) + " bools " + std::to_string(given.b1) + std::to_string(given.b2) + std::to_string(given.b3); });
	h.sample(body);
}

void runCase(H& h) {
	switch (h.caseNo % 4) {
	case 0: objects<FNumbers>(h, "FNumbers"); break;
	case 1: objects<FTexts>(h, "FTexts"); break;
	case 2: objects<FMixed>(h, "FMixed"); break;
	default: arguments(h);
	}
}
