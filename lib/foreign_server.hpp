// Responses of a server made without the library
#ifndef VERIF_FOREIGN_SERVER
#define VERIF_FOREIGN_SERVER
#include "http_model.hpp"
// Takes a complete HTTP request off the beginning, false if it's not complete
inline bool takeRequest(std::string& in, std::string& body, std::string* head = nullptr) {
	size_t end = in.find("\r\n\r\n");
	if (end == std::string::npos) return false;
	size_t length = 0;
	std::string lower = in.substr(0, end + 2);
	for (auto& c : lower) c = char(tolower((unsigned char)c));
	size_t at = lower.find("\r\ncontent-length:");
	if (at != std::string::npos) length = strtoull(lower.c_str() + at + 17, nullptr, 10);
	if (in.size() < end + 4 + length) return false;
	if (head) *head = in.substr(0, end + 4);
	body = in.substr(end + 4, length);
	in.erase(0, end + 4 + length);
	return true;
}
inline std::string foreignResponse(Rng& rng, int status, const std::string& body, const std::string& type = "text/plain") {
	std::vector<std::string> headers;
	if (status != 204 || rng.chance(30)) headers.push_back(caseVaried(rng, "Content-Length") + headerSpacing(rng) + std::to_string(body.size()));
	if (rng.chance(80)) headers.push_back(caseVaried(rng, "Content-Type") + headerSpacing(rng) + type);
	static const char* extra[] = {"Server: foreign/1.0", "Date: Thu, 19 Nov 2026 21:00:00 GMT", "Connection: keep-alive", "X-Content-Length: 5", "Set-Cookie: a=b; Path=/", "X: Content-Length: 3", "Content-Language: cs", "ETag: \"a:b\"", "X-Empty:"};
	for (int n = int(rng.size(2, 6)); n > 0; n--) headers.push_back(extra[rng.below(std::size(extra))]);
	for (size_t j = headers.size(); j > 1; j--) std::swap(headers[j - 1], headers[rng.below(j)]);
	static const char* reasons[] = {"OK", "Not Found", "Whatever It Is", "Error 200"};
	std::string r = std::string(rng.chance(85) ? "HTTP/1.1 " : "HTTP/1.0 ") + std::to_string(status) + " " + reasons[rng.below(4)] + "\r\n";
	for (auto& it : headers) r += it + "\r\n";
	return r + "\r\n" + body;
}
#endif
