// HTTP server sessions: requests cut into segments in any way give the calls and responses they give one by one
#include "http_model.hpp"
using namespace Bomba;

bool respondTo(const HttpCall& call, IWriteStarter& writer) { // Determined by the call only
	Rng rng(hashBytes(call.path + "\n" + call.type + "\n" + call.body) + call.post);
	std::string body = "response to " + call.path.substr(0, 20) + " " + randomBytes(rng, rng.size(30, 3000));
	int mode = int(rng.below(10));
	if (mode < 4) writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += std::string_view(body); });
	else if (mode < 7) writer.writeKnownSize("text/html", body.size(), [&] (GeneralisedBuffer& out) { out += std::string_view(body); });
	else if (mode == 7) return false;
	else if (mode == 8) throw std::runtime_error("failed");
	return true;
}

void runCase(H& h) {
	std::vector<HttpRequest> requests;
	std::string stream;
	std::vector<size_t> ends, interesting;
	int n = int(h.rng.range(1, 6));
	for (int i = 0; i < n; i++) {
		requests.push_back(randomRequest(h.rng, i == n - 1));
		auto& q = requests.back();
		interesting.push_back(stream.size() + q.text.find("\r\n"));
		interesting.push_back(stream.size() + q.bodyStart);
		interesting.push_back(stream.size() + h.rng.below(q.text.size()));
		stream += q.text;
		ends.push_back(stream.size());
		interesting.push_back(stream.size());
	}
	h.sign(stream);
	// One by one
	std::string expected;
	std::vector<HttpCall> expectedCalls;
	std::vector<size_t> outputSizes, callCounts;
	for (auto& q : requests) {
		HttpApp app;
		app.behaviour = respondTo;
		HttpServer<> server(app, app);
		auto session = server.getSession();
		auto r = feedSegments(session, q.text, {});
		h.check(r.problem.empty(), "contract", [&] { return r.problem + " for " + jsonQuote(q.text); });
		h.check(r.disconnected == q.close && (q.close || r.consumed == q.text.size()), "wrong-ending", [&] { return std::string(r.disconnected ? "closed" : "not closed") + " and consumed " + std::to_string(r.consumed) + " of " + std::to_string(q.text.size()) + ": " + jsonQuote(q.text); });
		std::vector<HttpResponse> responses;
		std::string problem = parseHttpResponses(r.output, responses);
		h.check(problem.empty() && responses.size() == 1, "not-one-response", [&] { return std::to_string(responses.size()) + " responses " + problem + ": " + jsonQuote(r.output) + "\nto " + jsonQuote(q.text); });
		bool known = q.method == "GET" || q.method == "POST";
		HttpCall call{q.method == "POST", q.path, q.type, q.body};
		if (q.method == "GET") { call.type = ""; call.body = ""; }
		h.check(app.calls.size() == (known ? 1 : 0), "wrong-number-of-calls", [&] { return std::to_string(app.calls.size()) + " calls for " + jsonQuote(q.text); });
		if (known) h.check(app.calls[0] == call, "wrong-call", [&] { return app.calls[0].text() + "\ninstead of " + call.text() + "\nfor " + jsonQuote(q.text); });
		else h.check(responses[0].status == 501, "unknown-method-accepted", [&] { return jsonQuote(q.text) + " answered " + jsonQuote(r.output); });
		for (auto& it : app.calls) expectedCalls.push_back(it);
		expected += r.output;
		outputSizes.push_back(expected.size());
		callCounts.push_back(expectedCalls.size());
		h.count("requests");
		h.count("status_" + std::to_string(responses[0].status));
	}
	for (int round = 0; round < 3; round++) {
		HttpApp app;
		app.behaviour = respondTo;
		HttpServer<> server(app, app);
		auto session = server.getSession();
		auto cuts = randomCuts(h.rng, stream.size(), interesting);
		auto cutText = [&] { std::string r = "cuts at"; for (auto c : cuts) r += " " + std::to_string(c); return r.substr(0, 300) + "\nstream (" + std::to_string(stream.size()) + " bytes) " + jsonQuote(stream); };
		auto r = feedSegments(session, stream, cuts, [&] (FeedOutcome& so, size_t delivered) {
			if (!so.problem.empty()) return;
			size_t complete = 0;
			while (complete < ends.size() && ends[complete] <= delivered) complete++;
			size_t wantOutput = complete ? outputSizes[complete - 1] : 0, wantCalls = complete ? callCounts[complete - 1] : 0;
			h.check(app.calls.size() <= wantCalls && so.output.size() <= wantOutput, "acted-before-complete", [&] {
				return "after " + std::to_string(delivered) + " bytes, " + std::to_string(app.calls.size()) + " calls instead of " + std::to_string(wantCalls) + ", " + cutText(); });
			h.check(app.calls.size() == wantCalls && so.output.size() == wantOutput, "late-response", [&] {
				return "after " + std::to_string(delivered) + " bytes, " + std::to_string(app.calls.size()) + " calls instead of " + std::to_string(wantCalls) + ", " + cutText(); });
		});
		h.check(r.problem.empty(), "contract", [&] { return r.problem + ", " + cutText(); });
		h.check(app.calls == expectedCalls, "other-calls", [&] {
			std::string t;
			for (auto& it : app.calls) t += it.text() + "\n";
			return t + cutText(); });
		h.check(r.output == expected, "other-responses", [&] { return jsonQuote(r.output) + "\ninstead of " + jsonQuote(expected) + "\n" + cutText(); });
		h.check(r.disconnected == requests.back().close, "wrong-ending", cutText);
		h.count("segments", cuts.size() + 1);
		h.count("deliveries");
	}
	h.sample(stream);
}
