// C29: where the documentation promises to avoid dynamic allocation, none is made
#include "http_model.hpp"
#include "zoo_ops.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;

// Every request for memory is counted while it's watched
namespace Watching {
bool on = false;
int64_t requests = 0, bytes = 0;
inline void note(size_t n) { if (on) { requests++; bytes += int64_t(n); } }
}
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void noteHook(const volatile void*, size_t n) { Watching::note(n); }
static void ignoreHook(const volatile void*) {}
static int installed = __sanitizer_install_malloc_and_free_hooks(noteHook, ignoreHook);
#else
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { Watching::note(n); return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { Watching::note(n * m); return __libc_calloc(n, m); }
void* realloc(void* p, size_t n) { Watching::note(n); return __libc_realloc(p, n); }
}
#endif
struct Watch { // Until stopped
	Watch() { Watching::requests = Watching::bytes = 0; Watching::on = true; }
	int64_t stop() { Watching::on = false; return Watching::requests; }
	~Watch() { Watching::on = false; }
};

namespace {
// A string of limited length without dynamic allocation
template <int N>
struct Fixed {
	char letters[N];
	int length = 0;
	Fixed() = default;
	explicit Fixed(std::string_view o) { *this += o; }
	Fixed& operator=(std::string_view o) { clear(); return *this += o; }
	Fixed& operator+=(char c) { if (length < N) letters[length++] = c; return *this; }
	Fixed& operator+=(const char* c) { return *this += std::string_view(c); }
	Fixed& operator+=(std::string_view c) { for (char it : c) *this += it; return *this; }
	Fixed& operator+=(const Fixed& c) { return *this += std::string_view(c); }
	operator std::string_view() const { return {letters, size_t(length)}; }
	void clear() { length = 0; }
	bool operator==(const Fixed& o) const { return std::string_view(*this) == std::string_view(o); }
};
using Text = Fixed<1200>;
using Short = Fixed<60>;

template <typename T> bool equal(const Optional<T>& a, const Optional<T>& b) { return bool(a) == bool(b) && (!a || *a == *b); }

struct Inner : Serialisable<Inner> {
	int8_t tiny = key<"tiny">;
	Short text = key<"text with \"quotes\"">;
	Optional<double> real = key<"real">;
	void randomise(Rng& rng);
	bool operator==(const Inner& o) const { return tiny == o.tiny && text == o.text && equal(real, o.real); }
};
struct Outer : Serialisable<Outer> {
	int64_t number = key<"number">;
	uint64_t natural = key<"natural">;
	double real = key<"real">;
	bool flag = key<"flag">;
	Text text = key<"text_with_a_longer_name">;
	std::array<int32_t, 4> four = key<"four">;
	std::array<Inner, 2> inners = key<"inners">;
	Optional<Short> perhaps = key<"perhaps">;
	Inner one = key<"one">;
	void randomise(Rng& rng);
	bool operator==(const Outer& o) const { return number == o.number && natural == o.natural && real == o.real && flag == o.flag && text == o.text && four == o.four && inners == o.inners && equal(perhaps, o.perhaps) && one == o.one; }
};
struct Flat : Serialisable<Flat> {
	int32_t number = key<"number">;
	double real = key<"real">;
	Short text = key<"text_that_is_in_the_middle">;
	Text longer = key<"longer">;
	bool operator==(const Flat& o) const { return number == o.number && real == o.real && text == o.text && longer == o.longer; }
};
template <int N> void randomise(Rng& rng, Fixed<N>& v) {
	std::string text = randomText(rng, 20, N);
	size_t end = std::min<size_t>(text.size(), N);
	while (end && end < text.size() && (uint8_t(text[end]) & 0xc0) == 0x80) end--;
	v = std::string_view(text).substr(0, end);
}
double randomReal(Rng& rng) { return rng.chance(50) ? double(rng.range(-100000, 100000)) / 64 : std::ldexp(double(rng.range(-100000000, 100000000)), int(rng.range(-200, 200))); }
void Inner::randomise(Rng& rng) {
	tiny = int8_t(rng.next());
	::randomise(rng, text);
	if (rng.chance(50)) real = randomReal(rng); else real.reset();
}
void Outer::randomise(Rng& rng) {
	number = int64_t(rng.next());
	natural = rng.next() >> 1;
	real = randomReal(rng);
	flag = rng.chance(50);
	::randomise(rng, text);
	for (auto& it : four) it = int32_t(rng.next());
	for (auto& it : inners) it.randomise(rng);
	if (rng.chance(50)) { Short s; ::randomise(rng, s); perhaps = s; } else perhaps.reset();
	one.randomise(rng);
}
JVal describe(const Inner& v) {
	JVal r = JVal::object();
	r.obj.emplace_back("tiny", JVal::integer(v.tiny));
	r.obj.emplace_back("text with \"quotes\"", JVal::string(std::string(std::string_view(v.text))));
	r.obj.emplace_back("real", v.real ? JVal::real(*v.real) : JVal::null());
	return r;
}
JVal describe(const Outer& v) {
	JVal r = JVal::object();
	r.obj.emplace_back("number", JVal::integer(v.number));
	r.obj.emplace_back("natural", JVal::integer(int64_t(v.natural)));
	r.obj.emplace_back("real", JVal::real(v.real));
	r.obj.emplace_back("flag", JVal::boolean(v.flag));
	r.obj.emplace_back("text_with_a_longer_name", JVal::string(std::string(std::string_view(v.text))));
	JVal four = JVal::array(), inners = JVal::array();
	for (auto it : v.four) four.arr.push_back(JVal::integer(it));
	for (auto& it : v.inners) inners.arr.push_back(describe(it));
	r.obj.emplace_back("four", four);
	r.obj.emplace_back("inners", inners);
	r.obj.emplace_back("perhaps", v.perhaps ? JVal::string(std::string(std::string_view(*v.perhaps))) : JVal::null());
	r.obj.emplace_back("one", describe(v.one));
	return r;
}

void none(H& h, int64_t requests, const char* what, const std::string& detail) {
	h.check(requests == 0, "allocated", [&] { return std::string(what) + " requested memory " + std::to_string(requests) + " times: " + detail; });
	h.count(std::string("watched_") + what);
}

template <typename Format, typename Output, typename T>
void roundTrip(H& h, T& value, const char* name) {
	auto output = std::make_unique<Output>();
	auto target = std::make_unique<T>();
	if (h.rng.chance(50)) { if constexpr (requires { target->randomise(h.rng); }) target->randomise(h.rng); }
	Watch writing;
	value.template serialise<Format>(*output);
	int64_t written = writing.stop();
	std::string text(std::string_view{*output});
	none(h, written, (std::string("writing_") + name).c_str(), jsonQuote(text, 500));
	h.sign(text);
	ExactBytes given(text);
	std::string_view view = given.view();
	Watch reading;
	bool ok = target->template deserialise<Format>(view);
	int64_t read = reading.stop();
	h.check(ok && *target == value, "not-restored", [&] { return std::string(name) + " " + jsonQuote(text, 500); });
	none(h, read, (std::string("reading_") + name).c_str(), jsonQuote(text, 500));
}
void values(H& h) {
	auto value = std::make_unique<Outer>();
	value->randomise(h.rng);
	using Buffer = NonExpandingBuffer<20000>;
	using Expanding = ExpandingBuffer<20000>;
	roundTrip<BasicJson<Text, Fixed<20000>>, Fixed<20000>>(h, *value, "json_text");
	if (h.rng.chance(50)) roundTrip<BasicJson<Text, Buffer>, Buffer>(h, *value, "json");
	else roundTrip<BasicJson<Text, Expanding>, Expanding>(h, *value, "json");
	roundTrip<BinaryFormat<Buffer, uint16_t, LittleEndianNumberFormat<Buffer>, 4>, Buffer>(h, *value, "binary");
	// Spelled by somebody else, with other members in it
	JVal described = describe(*value);
	if (h.rng.chance(50)) described.obj.insert(described.obj.begin() + h.rng.below(described.obj.size() + 1), {"unknown", describe(*value)});
	std::string foreign = JsonSpeller(h.rng).print(described);
	auto target = std::make_unique<Outer>();
	Watch reading;
	bool ok = target->deserialise<BasicJson<Text>>(foreign);
	int64_t read = reading.stop();
	h.check(ok && *target == *value, "not-restored", [&] { return jsonQuote(foreign, 2000); });
	none(h, read, "reading_foreign", jsonQuote(foreign, 2000));
	Flat flat;
	flat.number = int32_t(h.rng.next());
	flat.real = randomReal(h.rng);
	randomise(h.rng, flat.text);
	randomise(h.rng, flat.longer);
	roundTrip<HtmlMessageEncoding<Text, Buffer>, Buffer>(h, flat, "form");
}

struct Done { // What the procedures were called with
	int which = 0;
	int64_t number = 0;
	Text text;
	Outer object;
} done;
struct Api : RpcObject<Api> {
	Text result;
	Outer object;
	RpcMember<[] (Api*, Text message = name("message_kept_by_the_server"), int32_t n = name("n")) { done.which = 1; done.text = message; done.number = n; }> put = child<"put_the_message_and_its_number">;
	RpcMember<[] (Api* p) { done.which = 2; return p->result; }> get = child<"get">;
	RpcMember<[] (Api* p, Outer object = name("object")) { done.which = 3; done.object = object; return p->object; }> exchange = child<"exchange_objects_with_the_server">;
	RpcMember<[] (Short text = name("text"), double real = name("real"), bool flag = name("flag") | SerialisationFlags::OMIT_FALSE) -> int64_t { done.which = 4; done.text = text; return flag; }> flat = child<"flat">;
	struct Nested : RpcObject<Nested> {
		RpcMember<[] (int32_t a = name("a")) { done.which = 5; done.number = a; return a; }> same = child<"the_same_as_it_was">;
	};
};
struct Sent { // Without allocation
	Fixed<60000> bytes;
	bool closed = false;
	template <typename Session>
	void give(Session& session, std::span<char> input) {
		auto write = [&] (std::span<const char> data) { bytes += std::string_view(data.data(), data.size()); };
		while (!input.empty()) {
			auto [reaction, consumed] = session.respond(input, write);
			if (reaction == ServerReaction::DISCONNECT) closed = true;
			if (reaction != ServerReaction::OK || consumed <= 0) return;
			input = input.subspan(size_t(consumed));
		}
	}
};

struct Loop : ITcpClient { // A connection to a session through constant memory
	virtual void answer(std::span<char> request) = 0;
	Fixed<60000> received;
	struct Kept { bool used = false; uint32_t id; Fixed<20000> text; };
	std::array<Kept, 4> kept;
	void writeRequest(std::span<char> written) override { answer(written); }
	void search(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)>& reader, bool wait) {
		for (auto& it : kept) if (it.used && it.id == token.id) {
			reader(std::span<char>(it.text.letters, size_t(it.text.length)), true);
			if (wait) it.used = false;
			return;
		}
		while (received.length) {
			auto [reaction, got, size] = reader(std::span<char>(received.letters, size_t(received.length)), false);
			if (reaction != ServerReaction::OK && reaction != ServerReaction::WRONG_REPLY) return;
			if (reaction == ServerReaction::WRONG_REPLY || !wait)
				for (auto& it : kept) if (!it.used) {
					it.used = true;
					it.id = got.id;
					it.text = std::string_view(received.letters, size_t(size));
					break;
				}
			memmove(received.letters, received.letters + size, size_t(received.length - size));
			received.length -= int(size);
			if (reaction == ServerReaction::OK) return;
		}
	}
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override { search(token, reader, true); }
	void tryToGetResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override { search(token, reader, false); }
};
template <typename Session>
struct SessionLoop : Loop {
	Session session;
	SessionLoop(Session&& s) : session(std::move(s)) {}
	void answer(std::span<char> request) override {
		auto write = [&] (std::span<const char> data) { received += std::string_view(data.data(), data.size()); };
		while (!request.empty()) {
			auto [reaction, consumed] = session.respond(request, write);
			if (reaction != ServerReaction::OK || consumed <= 0) return;
			request = request.subspan(size_t(consumed));
		}
	}
};
template <typename Session> SessionLoop(Session&&) -> SessionLoop<Session>;

struct World {
	std::unique_ptr<Api> client = std::make_unique<Api>(), server = std::make_unique<Api>();
	std::unique_ptr<Outer> object = std::make_unique<Outer>();
	std::unique_ptr<Text> text = std::make_unique<Text>();
	World(H& h) {
		server->object.randomise(h.rng);
		randomise(h.rng, server->result);
		if (h.rng.chance(30)) for (auto& c : server->result.letters) if (server->result.length < 1200) server->result += 'a';
		object->randomise(h.rng);
		randomise(h.rng, *text);
	}
};

// Calls through clients and servers, together and apart
void calls(H& h, World& w, const char* name, bool forms) {
	auto& api = *w.client;
	done.which = 0;
	int32_t n = int32_t(h.rng.next());
	int which = forms ? (h.rng.chance(50) ? 0 : 3) : int(h.rng.below(4));
	if (forms && which == 3) which = 0;
	bool async = h.rng.chance(50);
	int64_t requests = -1;
	bool right = false;
	auto result = std::make_unique<Text>();
	auto exchanged = std::make_unique<Outer>();
	switch (which) {
	case 0: {
		Watch watch;
		if (async) { auto future = api.put.async(*w.text, n); future.get(); }
		else api.put(*w.text, n);
		requests = watch.stop();
		right = done.which == 1 && done.text == *w.text && done.number == n;
		break;
	}
	case 1: {
		Watch watch;
		if (async) { auto future = api.get.async(); future.is_ready(); *result = future.get(); }
		else *result = api.get();
		requests = watch.stop();
		right = done.which == 2 && *result == w.server->result;
		break;
	}
	case 2: {
		Watch watch;
		if (async) { auto first = api.exchange.async(*w.object); auto second = api.get.async(); *result = second.get(); *exchanged = first.get(); }
		else *exchanged = api.exchange(*w.object);
		requests = watch.stop();
		right = done.object == *w.object && *exchanged == w.server->object && (!async || *result == w.server->result);
		break;
	}
	default: {
		Short text;
		text = std::string_view(*w.text).substr(0, 5);
		for (int i = 0; i < text.length; i++) text.letters[i] = char('a' + text.letters[i] % 20);
		Watch watch;
		int64_t got = api.flat(text, 4, n & 1);
		requests = watch.stop();
		right = done.which == 4 && std::string_view(done.text) == std::string_view(text) && got == (n & 1);
	}
	}
	h.check(right, "wrong-call", [&] { return std::string(name) + " call " + std::to_string(which); });
	none(h, requests, (std::string("call_") + name).c_str(), "procedure " + std::to_string(which) + (async ? " asynchronously" : ""));
	h.sign(std::string(name) + std::to_string(which) + std::string(std::string_view(*w.text)) + std::to_string(n));
}
void jsonCalls(H& h) {
	World w(h);
	JsonRpcServer<Text, NonExpandingBuffer<20000>> server(*w.server);
	auto connection = std::make_unique<SessionLoop<decltype(server.getSession())>>(server.getSession());
	JsonRpcClient<Text, NonExpandingBuffer<20000>> client(*w.client, *connection, "example.com");
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) calls(h, w, "json", false);
}
void binaryCalls(H& h) {
	World w(h);
	using B = NonExpandingBuffer<20000>;
	BinaryProtocolServer<uint16_t, B, LittleEndianNumberFormat<B>, 4> server(*w.server);
	auto connection = std::make_unique<SessionLoop<decltype(server.getSession())>>(server.getSession());
	BinaryProtocolClient<uint16_t, B, LittleEndianNumberFormat<B>, 4> client(*w.client, *connection);
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) calls(h, w, "binary", false);
}
void formCalls(H& h) {
	World w(h);
	HtmlPostResponder<Text> post(*w.server);
	DummyGetResponder none;
	HttpServer<NonExpandingBuffer<20000>> server(none, post);
	auto connection = std::make_unique<SessionLoop<decltype(server.getSession())>>(server.getSession());
	HttpClient<Text, NonExpandingBuffer<20000>> client(*connection, "example.com");
	w.client->setResponder(client);
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) calls(h, w, "form", true);
}

// The default buffers are on the stack up to their size
template <int N>
void responses(H& h) {
	World w(h);
	size_t wanted = size_t(std::max<int64_t>(0, h.rng.range(N - 300, N + 100)));
	w.server->result.clear();
	for (size_t i = 0; i < std::min<size_t>(wanted, 1200); i++) w.server->result += char('a' + i % 26);
	auto sent = std::make_unique<Sent>();
	auto test = [&] (auto& server, std::string request, const char* name) {
		auto session = server.getSession();
		Watch watch;
		sent->give(session, std::span<char>(request.data(), request.size()));
		int64_t requests = watch.stop();
		std::string response(std::string_view(sent->bytes));
		sent->bytes.clear();
		h.check(response.find(std::string_view(w.server->result)) != std::string::npos, "wrong-response", [&] { return std::string(name) + ": " + jsonQuote(response); });
		if (response.size() < N) {
			h.check(requests == 0, "allocated", [&] { return std::string(name) + " response of " + std::to_string(response.size()) + " bytes with a buffer of " + std::to_string(N) + " requested memory " + std::to_string(requests) + " times"; });
			h.count("responses_that_fit");
			if (response.size() + 30 > N) h.count("responses_that_barely_fit");
		} else h.count("responses_that_do_not_fit");
		h.sign(name + std::to_string(N) + "." + std::to_string(response.size()));
	};
	auto post = [] (std::string body) { return "POST / HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; };
	constexpr bool isDefault = (N == 1024);
	switch (h.rng.below(4)) {
	case 0: {
		std::conditional_t<isDefault, JsonRpcServer<Text>, JsonRpcServer<Text, ExpandingBuffer<N>>> server(*w.server);
		std::string id = h.rng.chance(50) ? "\"text identifying the call that is not short\"" : "1234567890";
		std::string one = "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"get\"}";
		if (h.rng.chance(40)) one = "[{\"jsonrpc\":\"2.0\",\"method\":\"put_the_message_and_its_number\",\"params\":{\"n\":3, \"message_kept_by_the_server\":\"a text that is not short at all, \\u0041 certainly\"}}, " + one + "]";
		test(server, post(one), "json");
		break;
	}
	case 1: {
		using B = ExpandingBuffer<N>;
		std::conditional_t<isDefault, BinaryProtocolServer<>, BinaryProtocolServer<uint16_t, B, LittleEndianNumberFormat<B>>> server(*w.server);
		test(server, std::string("\1\2\3\4\7\0\1", 7), "binary");
		break;
	}
	case 2: {
		DummyGetResponder page;
		RpcGetResponder<Text> get(page, *w.server);
		std::conditional_t<isDefault, HttpServer<>, HttpServer<ExpandingBuffer<N>>> server(get);
		test(server, h.rng.chance(50) ? "GET /get? HTTP/1.1\r\n\r\n" : "GET /get? HTTP/1.1\r\nHost: example.com\r\nX-Something: something not short at all\r\n\r\n", "page_of_procedure");
		break;
	}
	default: {
		HttpApp unused;
		struct Own : IHttpGetResponder, IHttpPostResponder {
			Text* text;
			bool get(std::string_view, IWriteStarter& writer) override { writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += std::string_view(*text); }); return true; }
			bool post(std::string_view path, std::string_view, std::span<char>, IWriteStarter& writer) override { return get(path, writer); }
		} own;
		own.text = &w.server->result;
		std::conditional_t<isDefault, HttpServer<>, HttpServer<ExpandingBuffer<N>>> server(own, own);
		test(server, h.rng.chance(50) ? "GET / HTTP/1.1\r\n\r\n" : post(std::string(size_t(h.rng.range(0, 3000)), 'x')), "application");
	}
	}
}

// Responses of known size are not kept in memory
void large(H& h) {
	std::string resource(size_t(h.rng.size(5000, 3000000)), 'a');
	SimpleGetResponder page;
	page.resource = resource;
	HttpServer<> server(page);
	auto session = server.getSession();
	std::string request = "GET / HTTP/1.1\r\n\r\n";
	int64_t sent = 0;
	auto write = [&] (std::span<const char> data) { sent += int64_t(data.size()); };
	Watch watch;
	auto [reaction, consumed] = session.respond(std::span<char>(request.data(), request.size()), write);
	int64_t requests = watch.stop();
	h.check(reaction == ServerReaction::OK && consumed == int64_t(request.size()) && sent > int64_t(resource.size()), "wrong-response");
	none(h, requests, "known_size", std::to_string(resource.size()) + " bytes");
	h.sign(std::to_string(resource.size()));
}

// Closures of up to three words are inside their holders
template <int Words>
void holder(H& h) {
	std::array<uint64_t, std::max(Words, 1)> captured = {};
	for (int i = 0; i < Words; i++) captured[i] = h.rng.next();
	uint64_t sum = 0;
	for (int i = 0; i < Words; i++) sum = sum * 31 + captured[i];
	auto make = [&] {
		if constexpr (Words == 0) return [] (uint64_t a = name("a")) -> uint64_t { return a; };
		else return [captured] (uint64_t a = name("a")) -> uint64_t { uint64_t sum = 0; for (auto it : captured) sum = sum * 31 + it; return sum + a; };
	};
	auto closure = make();
	static_assert(sizeof(closure) == std::max<size_t>(1, Words * sizeof(void*)));
	uint64_t argument = h.rng.next() >> 30;
	auto ask = [&] (RpcLambdaHolder& asked) {
		std::string request = "[" + std::to_string(argument) + "]";
		struct In { std::string text; } in{"{\"a\":" + std::to_string(argument) + "}"};
		BasicJson<>::Input input(in.text);
		std::string out;
		BasicJson<>::Output output(out);
		asked->call(&input, output, [] {}, [] (std::string_view) {});
		h.check(out == std::to_string(int64_t(sum + argument)), "wrong-call", [&] { return std::to_string(Words) + " words: " + out + " instead of " + std::to_string(int64_t(sum + argument)); });
	};
	Watch watch;
	RpcLambdaHolder first = closure;
	RpcLambdaHolder second = std::move(first);
	RpcLambdaHolder third = [] {};
	third = std::move(second);
	int64_t requests = watch.stop();
	ask(third);
	if (Words <= 3) none(h, requests, "holder", "closure of " + std::to_string(Words) + " words");
	else h.count("larger_closures");
	h.sign("holder" + std::to_string(Words) + "." + std::to_string(sum));
}
}

void runCase(H& h) {
	switch (h.rng.below(10)) {
	case 0: case 1: values(h); break;
	case 2: jsonCalls(h); break;
	case 3: binaryCalls(h); break;
	case 4: formCalls(h); break;
	case 5: responses<1024>(h); break;
	case 6: responses<300>(h); break;
	case 7: if (h.rng.chance(20)) large(h); else responses<1024>(h); break;
	default:
		switch (h.rng.below(6)) {
		case 0: holder<0>(h); break;
		case 1: holder<1>(h); break;
		case 2: holder<2>(h); break;
		case 3: case 4: holder<3>(h); break;
		default: holder<6>(h);
		}
	}
}
