// Responses of a HTTP server whose application behaves in any way: strict parsing, exact body and type, one response only
#include "http_model.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
using namespace Bomba;

struct Plan {
	enum Kind { UNKNOWN, KNOWN, NONE } kind = UNKNOWN;
	std::string type, body;
	std::vector<size_t> pieces;
	int64_t declared = 0;
	enum End { TRUE, FALSE, THROW, THROW_INSIDE, TWICE, TWICE_CAUGHT } end = TRUE;
	int thrown = 0; // What is thrown
	size_t throwAfter = 0;
	std::string text() const {
		static const char* k[] = {"unknown size", "known size", "no output"}, *e[] = {"returns true", "returns false", "throws", "throws inside", "responds twice", "responds twice and catches"};
		return std::string(k[kind]) + ", " + e[end] + ", type " + type + ", body of " + std::to_string(body.size()) + ", declared " + std::to_string(declared) + ", throws after " + std::to_string(throwAfter);
	}
};

void throwIt(int what) {
	switch (what) {
	case 0: throw std::runtime_error("application failed");
	case 1: throw 42;
	case 2: throw ParseError("bad data");
	case 3: throw std::bad_alloc();
	case 4: throw RemoteError("remote");
	default: throw "text";
	}
}

bool perform(const Plan& plan, IWriteStarter& writer) {
	auto fillIn = [&] (GeneralisedBuffer& out) {
		size_t at = 0;
		for (size_t end : plan.pieces) {
			if (plan.end == Plan::THROW_INSIDE && end > plan.throwAfter) throwIt(plan.thrown);
			if (end - at == 1) out += plan.body[at];
			else out += std::string_view(plan.body).substr(at, end - at);
			at = end;
		}
		if (plan.end == Plan::THROW_INSIDE) throwIt(plan.thrown);
	};
	auto once = [&] {
		if (plan.kind == Plan::UNKNOWN) writer.writeUnknownSize(plan.type, fillIn);
		else if (plan.kind == Plan::KNOWN) writer.writeKnownSize(plan.type, plan.declared, fillIn);
	};
	once();
	if (plan.end == Plan::TWICE) once();
	if (plan.end == Plan::TWICE_CAUGHT) try { once(); } catch (std::exception&) {}
	if (plan.end == Plan::THROW) throwIt(plan.thrown);
	return plan.end != Plan::FALSE;
}

void application(H& h) {
	Plan plan;
	plan.kind = Plan::Kind(h.rng.below(3));
	int e = int(h.rng.below(12));
	plan.end = e < 6 ? Plan::TRUE : Plan::End(e - 6);
	if (plan.kind == Plan::NONE && plan.end >= Plan::THROW_INSIDE) plan.end = Plan::TRUE;
	static const char* types[] = {"text/html", "application/json", "a/b; charset=\"x y\"", "image/svg+xml", "x"};
	plan.type = h.rng.chance(5) ? "application/" + std::string(h.rng.range(1, 3000), 't') : types[h.rng.below(5)];
	switch (h.rng.below(4)) {
	case 0: plan.body = randomBytes(h.rng, h.rng.size(100, 20000)); break;
	case 1: plan.body = trickyBody(h.rng, 100, 3000); break;
	case 2: { // Around the edges of buffers
		static const int64_t edges[] = {1024, 2048, 3072, 6144, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 0};
		int64_t overhead = h.rng.chance(50) ? 0 : int64_t(strlen("HTTP/1.1 200 OK\r\nContent-Length: 0         \r\nContent-Type: \r\n\r\n") + plan.type.size());
		plan.body = randomBytes(h.rng, std::max<int64_t>(0, edges[h.rng.below(std::size(edges))] - overhead + h.rng.range(-2, 2)));
		break;
	}
	default: plan.body = std::string(h.rng.size(50, 300000), char(h.rng.next()));
	}
	size_t longestPiece = 5000;
	if (h.rng.below(1500) == 0) { // The size has more digits
		int64_t size = 1;
		for (int64_t i = h.rng.range(6, h.thorough ? 8 : 7); i > 0; i--) size *= 10;
		plan.body = std::string(size + h.rng.range(-2, 2), char(h.rng.next()));
		plan.end = Plan::TRUE;
		longestPiece = 3000000;
		h.count("large");
	}
	size_t at = 0;
	while (at < plan.body.size()) { at = std::min(plan.body.size(), at + size_t(longestPiece == 5000 && h.rng.chance(20) ? h.rng.range(1, 3) : h.rng.range(1, longestPiece))); plan.pieces.push_back(at); }
	plan.thrown = int(h.rng.below(6));
	plan.throwAfter = h.rng.below(plan.body.size() + 1);
	plan.declared = int64_t(plan.body.size());
	if (plan.kind == Plan::KNOWN && h.rng.chance(15)) plan.declared += h.rng.range(1, 5); // The data ended too early
	HttpApp app;
	app.behaviour = [&] (const HttpCall&, IWriteStarter& writer) { return perform(plan, writer); };
	HttpServer<> server(app, app);
	auto session = server.getSession();
	HttpRequest q;
	do q = randomRequest(h.rng, true); while (q.method != "GET" && q.method != "POST");
	auto r = feedSegments(session, q.text, {});
	h.check(r.problem.empty(), "contract", [&] { return r.problem + "; " + plan.text(); });
	h.check(app.calls.size() == 1, "not-called-once", [&] { return std::to_string(app.calls.size()) + " calls"; });
	h.sign(plan.text() + q.method + std::to_string(q.close));
	std::vector<HttpResponse> responses;
	std::string rest;
	std::string problem = parseHttpResponses(r.output, responses, &rest);
	auto describe = [&] { return plan.text() + "; request " + jsonQuote(q.text, 200) + "\nresponses: " + std::to_string(responses.size()) + " " + problem + (r.disconnected ? " (closed) " : " (left open) ") + jsonQuote(r.output, 500) + "\nunfinished: " + jsonQuote(rest, 300); };
	h.check(problem.empty(), "malformed-response", describe);
	bool complete = plan.end == Plan::TRUE && (plan.kind != Plan::KNOWN || plan.declared == int64_t(plan.body.size()));
	bool begun = plan.kind == Plan::KNOWN || (plan.kind == Plan::UNKNOWN && plan.end != Plan::THROW_INSIDE);
	if (complete) {
		h.check(rest.empty() && responses.size() == 1, "not-one-response", describe);
		h.check(r.disconnected == q.close, "wrong-ending", describe);
		auto& got = responses[0];
		if (plan.kind == Plan::NONE) h.check(got.status == 204 || (got.status == 200 && got.body.empty()), "wrong-status", describe);
		else {
			h.check(got.status == 200, "wrong-status", describe);
			h.check(got.body == plan.body, "wrong-body", describe);
			h.check(got.header("content-type") && *got.header("content-type") == plan.type, "wrong-type", describe);
		}
		h.count("successful");
	} else if (!begun) {
		h.check(rest.empty() && responses.size() == 1, "not-one-response", describe);
		h.check(r.disconnected == q.close, "wrong-ending", describe);
		if (plan.end == Plan::FALSE) h.check(responses[0].status == (q.method == "GET" ? 404 : 400), "wrong-status", describe);
		else h.check(responses[0].status == 500, "wrong-status", describe);
		h.count("failed_before_output");
	} else {
		// Output may have begun: what was sent must be at most one response and nothing may follow
		h.check(responses.size() <= 1, "two-responses", describe);
		bool exact = responses.size() == 1 && rest.empty() && responses[0].status == 200 && responses[0].body == plan.body; // Only what came after it failed
		bool error = responses.size() == 1 && rest.empty() && responses[0].status >= 400;
		if (plan.end == Plan::TWICE_CAUGHT && exact) { h.count("second_refused"); return; }
		h.check(r.disconnected || error, "open-after-failure", describe);
		if (plan.end == Plan::THROW_INSIDE || plan.end == Plan::TRUE)
			h.check(error || responses.empty() || !rest.empty() || responses[0].body.size() <= plan.body.size(), "success-after-failure", describe);
		h.count("failed_after_output");
	}
	h.sample(plan.text() + " -> " + r.output.substr(0, 100));
}

// Responders of the library
int calls = 0;
struct Api : RpcObject<Api> {
	RpcMember<[] (std::string what = name("what"), int n = name("n")) { calls++; if (n == 13) throw std::runtime_error("unlucky"); return what + std::to_string(n); }> text = child<"text">;
	RpcMember<[] (int64_t n = name("n")) { calls++; return n / 2; }> half = child<"half">;
	RpcMember<[] (int n = name("n")) { calls++; if (n == 13) throw 13; }> nothing = child<"nothing">;
	RpcMember<[] { calls++; return true; }> yes = child<"yes">;
};
void responders(H& h) {
	Api api;
	SimpleGetResponder page;
	std::string pageText = randomBytes(h.rng, h.rng.size(200, 9000));
	page.resource = pageText;
	DummyGetResponder none;
	bool hasPage = h.rng.chance(50);
	RpcGetResponder<> getResponder(hasPage ? static_cast<IHttpGetResponder&>(page) : none, api);
	HtmlPostResponder<> post(api);
	JsonRpcServerProtocol<> json(api);
	bool useJson = h.rng.chance(50);
	HttpServer<> server(getResponder, useJson ? static_cast<IHttpPostResponder&>(json) : post);
	auto session = server.getSession();
	std::string stream;
	int n = int(h.rng.range(1, 5));
	std::vector<std::string> texts;
	std::vector<int> kinds;
	for (int i = 0; i < n; i++) {
		static const char* names[] = {"text", "half", "nothing", "yes", "none", "", "text/x"};
		std::string name = names[h.rng.below(std::size(names))];
		std::string args;
		if (h.rng.chance(70)) args = "n=" + std::to_string(h.rng.chance(20) ? 13 : h.rng.range(-100, 100));
		if (h.rng.chance(30)) args += (args.empty() ? "" : "&") + std::string("what=") + (h.rng.chance(20) ? mutateBytes(h.rng, "abc", "%&=+") : "x+y");
		if (h.rng.chance(10)) args += "&n=x";
		for (auto& c : args) if (c <= ' ' || c >= 127) c = '_';
		std::string t;
		if (h.rng.chance(50)) t = "GET /" + name + (h.rng.chance(70) ? "?" + args : "") + " HTTP/1.1\r\n\r\n";
		else if (!useJson) t = "POST /" + name + " HTTP/1.1\r\nContent-Length: " + std::to_string(args.size()) + "\r\n\r\n" + args;
		else {
			std::string body = "{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"" + name + "\",\"params\":{\"n\":" + std::to_string(h.rng.chance(20) ? 13 : h.rng.range(-9, 9)) + "}}";
			if (h.rng.chance(40)) body = mutateBytes(h.rng, body, "{}[]\",:0123456789-");
			t = "POST /" + name + " HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		}
		texts.push_back(t);
		stream += t;
	}
	h.sign(stream);
	auto r = feedSegments(session, stream, {});
	std::vector<HttpResponse> responses;
	std::string rest;
	std::string problem = parseHttpResponses(r.output, responses, &rest);
	auto describe = [&] { return jsonQuote(stream) + "\nanswered by " + std::to_string(responses.size()) + " responses " + problem + r.problem + (r.disconnected ? " (closed) " : " (left open) ") + jsonQuote(r.output, 1000); };
	h.check(r.problem.empty() && problem.empty(), "malformed-response", describe);
	h.check((rest.empty() && responses.size() == size_t(n)) || (r.disconnected && responses.size() <= size_t(n)), "not-one-response", describe);
	for (size_t i = 0; i < responses.size(); i++) {
		auto& q = texts[i];
		bool get = q.starts_with("GET"), withArgs = q.find('?') != std::string::npos;
		if (get && !withArgs) h.check(responses[i].status == (hasPage ? 200 : 404) && (!hasPage || responses[i].body == pageText), "wrong-page", describe);
		if (get && !withArgs) h.count("pages");
		if (!hasPage && get && withArgs && (q.starts_with("GET /none?") || q.starts_with("GET /text/x?"))) h.check(responses[i].status >= 400, "success-of-nonexistent", describe);
		if (!useJson && !get && (q.starts_with("POST /none ") || q.starts_with("POST /text/x "))) h.check(responses[i].status >= 400, "success-of-nonexistent", describe);
		if (!get && !useJson && (q.starts_with("POST /nothing ") || q.starts_with("POST /text ")) && q.find("\r\n\r\nn=13") != std::string::npos && q.find("=x") == std::string::npos)
			h.check(responses[i].status >= 400, "success-of-failed", describe);
	}
	h.count("responder_requests", n);
	h.sample(stream);
}

void runCase(H& h) {
	if (h.caseNo % 4 == 3) responders(h); else application(h);
}
