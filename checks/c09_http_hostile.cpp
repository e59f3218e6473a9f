// HTTP server sessions given invalid requests: sanitizers, contract of respond(), nothing of a refused request is acted upon
#include "http_model.hpp"
using namespace Bomba;

bool answer(const HttpCall&, IWriteStarter& writer) {
	writer.writeUnknownSize("text/plain", [&] (GeneralisedBuffer& out) { out += "ok"; });
	return true;
}

void badLength(H& h) {
	HttpRequest before = randomRequest(h.rng, false);
	bool first = h.rng.chance(50);
	static const char* values[] = {"-1", "-0", "+5", "5x", "x5", "0x10", "", "99999999999999999999", "9223372036854775808", "18446744073709551615", "18446744073709551621", "4294967296x", "5, 5", "5,6", "1 2", "5;", "5.0", "1e3", "-9223372036854775808",
			"\"5\"", "٣", "5\t5", "--5", "NaN", ".5", "5-", "٠", "9223372036854775807", "9223372036854775000", "99999999999999999999999999999999999999999999999"};
	std::string tail = "GET /evil HTTP/1.1\r\n\r\nGET /evil HTTP/1.1\r\nHost: x\r\n\r\nPOST /evil HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
	std::string head, what;
	bool get = false;
	switch (h.rng.below(6)) {
	case 0: what = "missing"; head = ""; break;
	case 1: { // Contradictory
		int a = int(h.rng.below(10)), b = a + int(h.rng.range(1, 200));
		if (h.rng.chance(50)) std::swap(a, b);
		head = caseVaried(h.rng, "Content-Length") + headerSpacing(h.rng) + std::to_string(a) + "\r\n";
		if (h.rng.chance(50)) head += "X: y\r\n";
		head += caseVaried(h.rng, "Content-Length") + headerSpacing(h.rng) + std::to_string(b) + "\r\n";
		what = "contradictory";
		get = h.rng.chance(30);
		break;
	}
	case 2: head = caseVaried(h.rng, "Transfer-Encoding") + headerSpacing(h.rng) + "chunked\r\n" + (h.rng.chance(50) ? "Content-Length: 5\r\n" : ""); what = "chunked"; get = h.rng.chance(30); break;
	default: head = caseVaried(h.rng, "Content-Length") + headerSpacing(h.rng) + values[h.rng.below(std::size(values))] + "\r\n"; what = "invalid"; get = h.rng.chance(30);
	}
	if (h.rng.chance(50)) head = "Host: a\r\n" + head;
	if (h.rng.chance(50)) head += "Content-Type: text/plain\r\n";
	std::string bad = std::string(get ? "GET" : "POST") + " /bad HTTP/1.1\r\n" + head + "\r\n" + tail;
	std::string stream = (first ? before.text : "") + bad;
	h.sign(stream);
	h.count("length_" + what);
	HttpApp app;
	app.behaviour = answer;
	HttpServer<> server(app, app);
	auto session = server.getSession();
	auto cuts = randomCuts(h.rng, stream.size(), {stream.size() - tail.size(), stream.size() - tail.size() - 2});
	auto r = feedSegments(session, stream, cuts);
	h.check(r.problem.empty(), "contract", [&] { return r.problem + ": " + jsonQuote(stream); });
	for (auto& it : app.calls) h.check(it.path != "/evil" && it.path != "/bad", "smuggled", [&] { return "called " + it.text() + " because of " + jsonQuote(stream); });
	if (what == "invalid" && !r.disconnected) { // The only way not to refuse it is to wait for that much
		bool huge = head.find("922337203685477") != std::string::npos;
		h.check(huge, "invalid-length-not-refused", [&] { return jsonQuote(stream); });
	} else h.check(r.disconnected, "not-refused", [&] { return jsonQuote(stream); });
	h.sample(stream);
}

void arbitrary(H& h) {
	std::string stream;
	for (int n = int(h.rng.range(1, 4)); n > 0; n--) {
		int mode = int(h.rng.below(6));
		if (mode == 0) stream += randomBytes(h.rng, h.rng.size(60, 2000));
		else if (mode == 1) {
			static const char* parts[] = {"GET", "POST", " ", "/", "HTTP/1.1", "\r\n", "\r", "\n", ":", "Content-Length", "content-type:", "0", "5", "\t", "a", "Connection: close", "\r\n\r\n", "HTTP/1.1\r\n", "-", "Transfer-Encoding:"};
			for (int k = int(h.rng.range(1, 30)); k > 0; k--) stream += parts[h.rng.below(std::size(parts))];
		} else {
			auto q = randomRequest(h.rng, true);
			if (mode == 2) stream += q.text;
			else if (mode == 3) stream += mutateBytes(h.rng, q.text.substr(0, q.bodyStart), "\r\n :\tHTPGECcontle-0123456789") + q.body;
			else if (mode == 4) stream += q.text.substr(0, h.rng.below(q.text.size()));
			else stream += mutateBytes(h.rng, q.text, "\r\n :");
		}
	}
	h.sign(stream);
	std::vector<HttpCall> calls;
	std::string output;
	bool disconnected = false;
	for (int round = 0; round < 3; round++) {
		HttpApp app;
		app.behaviour = answer;
		HttpServer<> server(app, app);
		auto session = server.getSession();
		auto cuts = round ? randomCuts(h.rng, stream.size()) : std::vector<size_t>();
		auto r = feedSegments(session, stream, cuts);
		h.check(r.problem.empty(), "contract", [&] { return r.problem + ": " + jsonQuote(stream); });
		if (!round) { calls = app.calls; output = r.output; disconnected = r.disconnected; }
		else {
			h.check(app.calls == calls && r.output == output, "depends-on-segments", [&] {
				std::string t = "cut at";
				for (auto c : cuts) t += " " + std::to_string(c);
				t += ": " + jsonQuote(stream) + "\ncalls: ";
				for (auto& it : app.calls) t += it.text() + "; ";
				t += "\nif not cut: ";
				for (auto& it : calls) t += it.text() + "; ";
				return t + "\nresponses " + jsonQuote(r.output) + "\nif not cut: " + jsonQuote(output); });
		}
		std::vector<HttpResponse> responses;
		std::string problem = parseHttpResponses(r.output, responses);
		h.check(problem.empty() && responses.size() >= app.calls.size(), "bad-responses", [&] { return problem + " in " + jsonQuote(r.output) + " to " + jsonQuote(stream); });
		h.count("calls", app.calls.size());
		h.count(r.disconnected ? "closed" : "left_open");
	}
	h.count("arbitrary_streams");
}

void runCase(H& h) {
	if (h.caseNo % 3) arbitrary(h); else badLength(h);
}
