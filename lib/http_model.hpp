// Independent view of HTTP: strict parsing of responses, generation of requests, a recording application, feeding a session in segments
#ifndef VERIF_HTTP_MODEL
#define VERIF_HTTP_MODEL
#include "hostile.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"

struct HttpResponse {
	int status = 0;
	std::string reason, body;
	std::vector<std::pair<std::string, std::string>> headers; // Names in lowercase
	const std::string* header(std::string_view name) const { for (auto& it : headers) if (it.first == name) return &it.second; return nullptr; }
};

inline bool httpToken(std::string_view s) {
	if (s.empty()) return false;
	for (unsigned char c : s) if (c <= ' ' || c >= 127 || strchr("()<>@,;:\\\"/[]?={}", c)) return false;
	return true;
}

// Reads all responses; text of the problem or empty. An unfinished one at the end is left out and reported in `rest`
inline std::string parseHttpResponses(std::string_view in, std::vector<HttpResponse>& out, std::string* rest = nullptr) {
	size_t at = 0;
	while (at < in.size()) {
		size_t start = at;
		HttpResponse r;
		size_t headEnd = in.find("\r\n\r\n", at);
		if (headEnd == std::string_view::npos) {
			if (rest) { *rest = std::string(in.substr(start)); return ""; }
			return "unfinished header block";
		}
		std::string_view head = in.substr(at, headEnd + 2 - at);
		bool first = true;
		for (size_t p = 0; p < head.size();) {
			size_t e = head.find("\r\n", p);
			std::string_view line = head.substr(p, e - p);
			p = e + 2;
			for (unsigned char c : line) if (c == '\r' || c == '\n' || c == 0) return "stray control character in the header block";
			if (first) {
				first = false;
				if (line.substr(0, 9) != "HTTP/1.1 " || line.size() < 13 || line[12] != ' ') return "bad status line: " + std::string(line.substr(0, 100));
				for (int i = 9; i < 12; i++) if (!isdigit((unsigned char)line[i])) return "bad status code";
				r.status = atoi(std::string(line.substr(9, 3)).c_str());
				if (r.status < 200 || r.status > 599) return "bad status code";
				r.reason = line.substr(13);
				if (r.reason.empty()) return "no reason phrase";
				continue;
			}
			size_t colon = line.find(':');
			if (colon == std::string_view::npos || !httpToken(line.substr(0, colon))) return "bad header line: " + std::string(line.substr(0, 100));
			std::string name(line.substr(0, colon)), value(line.substr(colon + 1));
			for (auto& c : name) c = char(tolower((unsigned char)c));
			while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
			value.erase(0, value.find_first_not_of(" \t") == std::string::npos ? value.size() : value.find_first_not_of(" \t"));
			if (r.header(name)) return "repeated header " + name;
			r.headers.emplace_back(name, value);
		}
		at = headEnd + 4;
		const std::string* length = r.header("content-length");
		if (length) {
			if (length->empty() || length->size() > 15 || length->find_first_not_of("0123456789") != std::string::npos) return "bad Content-Length: " + *length;
			uint64_t n = strtoull(length->c_str(), nullptr, 10);
			if (r.status == 204 && n) return "204 with a body";
			if (n > in.size() - at) {
				if (rest) { *rest = std::string(in.substr(start)); return ""; }
				return "body shorter than declared: " + *length + " declared, " + std::to_string(in.size() - at) + " present";
			}
			r.body = in.substr(at, n);
			at += n;
		} else if (r.status != 204 && r.status != 304) return "no Content-Length";
		out.push_back(std::move(r));
	}
	return "";
}

struct HttpCall {
	bool post = false;
	std::string path, type, body;
	bool operator==(const HttpCall&) const = default;
	std::string text() const { return (post ? "POST " : "GET ") + jsonQuote(path) + (post ? " " + jsonQuote(type) + " " + jsonQuote(body, 200) : ""); }
};

struct HttpApp : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	std::vector<HttpCall> calls;
	std::function<bool(const HttpCall&, Bomba::IWriteStarter&)> behaviour;
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override {
		calls.push_back({false, std::string(path), "", ""});
		return behaviour(calls.back(), writer);
	}
	bool post(std::string_view path, std::string_view type, std::span<char> body, Bomba::IWriteStarter& writer) override {
		calls.push_back({true, std::string(path), std::string(type), std::string(body.data(), body.size())});
		return behaviour(calls.back(), writer);
	}
};

// What was sent by a responder to a stream fed in segments, the way the network part of the library feeds it
struct FeedOutcome {
	std::string output;
	bool disconnected = false;
	std::string problem; // Contract violated by the responder
	std::vector<size_t> outputAfter; // Amount of output after each segment
	size_t consumed = 0;
	int64_t steps = 0;
};
template <typename Session>
FeedOutcome feedSegments(Session& session, std::string_view stream, const std::vector<size_t>& cuts, const std::function<void(FeedOutcome&, size_t)>& afterSegment = {}) {
	FeedOutcome r;
	std::string pending;
	size_t at = 0;
	for (size_t i = 0; i <= cuts.size() && !r.disconnected; i++) {
		size_t end = i < cuts.size() ? cuts[i] : stream.size();
		pending.append(stream.substr(at, end - at));
		at = end;
		while (!pending.empty() && !r.disconnected) {
			ExactBytes given(pending); // Elsewhere every time
			std::pair<Bomba::ServerReaction, int64_t> got;
			r.steps++;
			try {
				got = session.respond(std::span<char>(given.data, given.size), [&] (const std::span<const char>& piece) { r.output.append(piece.data(), piece.size()); });
			} catch (std::exception& e) {
				r.problem = std::string("exception left respond(): ") + e.what();
				return r;
			} catch (...) {
				r.problem = "something was thrown from respond()";
				return r;
			}
			if (got.second < 0 || got.second > int64_t(given.size)) { r.problem = "consumed " + std::to_string(got.second) + " of " + std::to_string(given.size); return r; }
			pending = given.view();
			if (got.first == Bomba::ServerReaction::OK) {
				if (got.second == 0) { r.problem = "OK without consuming anything"; return r; }
				pending.erase(0, size_t(got.second));
				r.consumed += size_t(got.second);
			} else if (got.first == Bomba::ServerReaction::READ_ON) break;
			else if (got.first == Bomba::ServerReaction::DISCONNECT) r.disconnected = true;
			else { r.problem = "unexpected reaction"; return r; }
		}
		r.outputAfter.push_back(r.output.size());
		if (afterSegment) afterSegment(r, at);
	}
	return r;
}
inline std::vector<size_t> randomCuts(Rng& rng, size_t size, const std::vector<size_t>& interesting = {}) {
	std::vector<size_t> cuts;
	int mode = int(rng.below(5));
	if (mode == 0 && size < 3000) for (size_t i = 1; i < size; i++) cuts.push_back(i); // Byte by byte
	else if (mode == 1 && !interesting.empty()) {
		for (auto it : interesting) { int64_t p = int64_t(it) + rng.range(-3, 3); if (rng.chance(70) && p > 0 && p < int64_t(size)) cuts.push_back(size_t(p)); }
	} else if (mode <= 3) for (int n = int(rng.range(0, mode == 2 ? 3 : 20)); n > 0; n--) cuts.push_back(rng.below(size + 1));
	std::sort(cuts.begin(), cuts.end());
	cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
	return cuts;
}

struct HttpRequest {
	std::string method, path, protocol = "HTTP/1.1", type, body;
	bool hasType = false, close = false;
	std::string text;
	size_t bodyStart = 0;
};
inline std::string randomPath(Rng& rng) {
	std::string r = "/";
	static const char* some[] = {"", "index.html", "a", "api/call?x=1&y=%20", "../x", "very/long/path", "?", "#", "%00", "favicon.ico", "HTTP/1.1", "GET"};
	r += some[rng.below(std::size(some))];
	for (int n = int(rng.size(4, 60)); n > 0; n--) r += char(rng.range(0x21, 0x7e));
	return r;
}
inline std::string caseVaried(Rng& rng, std::string s) {
	int mode = int(rng.below(3));
	for (auto& c : s) if (mode == 1 ? true : mode == 2 ? rng.chance(50) : false) c = char(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c));
	return s;
}
inline std::string headerSpacing(Rng& rng) { static const char* s[] = {": ", ": ", ":", ":  ", ":\t", ": \t "}; return s[rng.below(6)]; }
inline std::string trickyBody(Rng& rng, int64_t common, int64_t rare) {
	static const char* parts[] = {"GET /evil HTTP/1.1\r\n\r\n", "\r\n\r\n", "POST /evil HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "\r\n", "Content-Length: 5\r\n", "{\"a\":1}", "\n\n", "HTTP/1.1 200 OK\r\n"};
	if (rng.chance(25)) return "";
	if (rng.chance(50)) return randomBytes(rng, rng.size(common, rare));
	std::string r;
	for (int n = int(rng.range(1, 4)); n > 0; n--) { r += parts[rng.below(std::size(parts))]; if (rng.chance(30)) r += randomBytes(rng, rng.size(5, 20)); }
	return r;
}
inline HttpRequest randomRequest(Rng& rng, bool mayClose, int64_t commonBody = 40, int64_t rareBody = 6000) {
	HttpRequest q;
	int m = int(rng.below(10));
	static const char* others[] = {"HEAD", "PUT", "DELETE", "OPTIONS", "get", "G", "PATCH", "POSTER"};
	q.method = m < 4 ? "GET" : m < 9 ? "POST" : others[rng.below(std::size(others))];
	q.path = randomPath(rng);
	if (rng.chance(15)) q.protocol = "HTTP/1.0";
	bool post = q.method == "POST";
	std::vector<std::string> headers;
	bool length = post || rng.chance(25);
	if (length) q.body = trickyBody(rng, commonBody, rareBody);
	if (length) {
		std::string value = std::to_string(q.body.size());
		if (rng.chance(10)) value = "000" + value;
		std::string line = caseVaried(rng, "Content-Length") + headerSpacing(rng) + value;
		if (rng.chance(10)) line += " ";
		headers.push_back(line);
		if (rng.chance(5)) headers.push_back(line); // The same repeated
	}
	if (rng.chance(60)) {
		static const char* types[] = {"text/plain", "application/json", "application/x-www-form-urlencoded; charset=utf-8", "x", "a/b;c=\"d e\""};
		q.type = types[rng.below(std::size(types))];
		q.hasType = true;
		headers.push_back(caseVaried(rng, "Content-Type") + headerSpacing(rng) + q.type);
	}
	if (mayClose && rng.chance(30)) { q.close = true; headers.push_back(caseVaried(rng, "Connection") + headerSpacing(rng) + caseVaried(rng, "close")); }
	else if (rng.chance(20)) headers.push_back("Connection" + headerSpacing(rng) + (rng.chance(50) ? "keep-alive" : "Keep-Alive, closed"));
	static const char* extra[] = {"Host: example.com", "Host: ", "X-Content-Length: 9999", "Content-Lengths: 3", "Length: 12", "Accept: */*", "X: Content-Length: 7", "X-Empty:", "Cookie: a=b; c=\"d:e\"", "Content: 4",
			"Content-Typ: wrong", "X-Content-Type: wrong/type", "Referer: http://a/GET /x HTTP/1.1", "Accept-Language: cs,en;q=0.5", "connections: close", "Xconnection: close", "A: B", "User-Agent: Mozilla/5.0 (X11; Linux x86_64)"};
	for (int n = int(rng.size(3, 20)); n > 0; n--) headers.push_back(extra[rng.below(std::size(extra))]);
	if (rng.chance(3)) headers.push_back("X-Long: " + std::string(rng.range(100, 5000), 'y'));
	for (size_t j = headers.size(); j > 1; j--) std::swap(headers[j - 1], headers[rng.below(j)]);
	q.text = q.method + " " + q.path + " " + q.protocol + "\r\n";
	for (auto& it : headers) q.text += it + "\r\n";
	q.text += "\r\n";
	q.bodyStart = q.text.size();
	q.text += q.body;
	return q;
}
#endif
