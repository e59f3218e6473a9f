// File servers asked for all kinds of hostile paths, surrounded by files that must never be served
#include "file_world.hpp"
using namespace Bomba;
using namespace Files;

namespace {
const char* insideNames[] = {"index.html", "a.txt", "sub/b.js", "sub/index.html", "sub/deep/c.css", "name with space.txt", "dot..dot.txt", "file", "back\\slash.txt", "percent%2e%2e.txt", "trailing..", "..start/x.txt",
		"sub/..b.txt", "secret.txt.html", "public_html/a.txt", "etc/hosts", "UPPER.TXT", "sub/c..", "utf\xc3\xa1.txt", "tilde~", ".hidden", "sub/.htaccess", "a.txt.d/x"};
const char* outsideNames[] = {"area/secret.txt", "area/index.html", "area/a.txt", "area/public_html2/a.txt", "area/public_htmlsecret.txt", "area/public_html.bak", "area/.hidden", "area/sub/b.js", "secret.txt", "etc/passwd", "area/etc/passwd", "area/file"};

struct World {
	std::string base, root;
	std::map<std::string, std::string> inside; // By path in URL
	std::vector<std::string> outsidePaths;
	explicit World(H& h) {
		base = scratch(h);
		fs::remove_all(base);
		root = base + "/area/public_html";
		for (auto it : insideNames) { inside[std::string("/") + it] = "INSIDE " + std::string(it) + " contents"; write(root + "/" + it, inside[std::string("/") + it]); }
		for (auto it : outsideNames) { write(base + "/" + it, "OUTSIDE " + std::string(it)); outsidePaths.push_back(base + "/" + it); }
		fs::create_directories(root + "/empty");
		if (chdir((base + "/area").c_str())) throw std::runtime_error("chdir");
	}
	~World() { if (chdir("/")) {} fs::remove_all(base); }
};

std::string hostilePath(H& h, World& w, bool& direct) {
	Rng& rng = h.rng;
	std::string r;
	auto separator = [&] () -> std::string { static const char* s[] = {"/", "/", "/", "/", "//", "\\", "/./", "%2f", "/\\", "%5c", ""}; return s[rng.below(std::size(s))]; };
	auto up = [&] () -> std::string { static const char* s[] = {"..", "..", "..", "..", "%2e%2e", ".%2e", "..%00", "....", "...", ".. ", "..;", "..\t", "\xc0\xae\xc0\xae", "%252e%252e", ".", "..%c0%af"}; return s[rng.below(std::size(s))]; };
	auto insideOne = [&] { auto it = w.inside.begin(); std::advance(it, rng.below(w.inside.size())); return it->first; };
	static const char* parts[] = {"sub", "deep", "empty", "public_html", "public_html2", "area", "secret.txt", "a.txt", "index.html", "etc", "passwd", "nothing", "sub/deep", "..start", "file", "b.js", "public_htmlsecret.txt", "public_html.bak", ".hidden"};
	switch (rng.below(10)) {
	case 0: r = insideOne(); break;
	case 1: { // Up from somewhere and to something
		r = "/";
		if (rng.chance(50)) r += std::string(parts[rng.below(4)]) + "/";
		for (int n = int(rng.range(1, 6)); n > 0; n--) r += up() + separator();
		r += parts[rng.below(std::size(parts))];
		break;
	}
	case 2: { // The right number of steps to a file outside
		std::string target = rng.pick(w.outsidePaths).substr(w.base.size() + 1);
		static const char* from[] = {"/", "/sub/", "/sub/deep/", "/nothing/", "/empty/", "//", "/./"};
		static const int depth[] = {2, 3, 4, 3, 3, 2, 2};
		size_t f = rng.below(std::size(from));
		r = from[f];
		std::string step = rng.chance(70) ? "../" : up() + separator();
		for (int i = 0; i < depth[f]; i++) r += step;
		r += target;
		break;
	}
	case 3: { // Absolute
		std::string target = rng.chance(50) ? rng.pick(w.outsidePaths) : rng.chance(50) ? "/etc/passwd" : w.root + insideOne();
		static const char* before[] = {"", "/", "//", "\\", "file://", "/.", "/\\", "/ "};
		r = before[rng.below(std::size(before))] + target;
		break;
	}
	case 4: for (int n = int(rng.range(1, 8)); n > 0; n--) r += (rng.chance(60) ? "/" : separator()) + (rng.chance(40) ? up() : parts[rng.below(std::size(parts))]); break;
	case 5: r = randomBytes(rng, rng.range(0, 40)); if (rng.chance(50)) r = "/" + r; break;
	case 6: { // Something added to a valid path
		r = insideOne();
		std::string added = rng.chance(30) ? std::string(1, '\0') : rng.chance(30) ? std::string("\0.txt", 5) : rng.chance(50) ? "/" : rng.chance(50) ? "/.." : randomBytes(rng, rng.range(1, 3));
		r.insert(rng.chance(60) ? r.size() : rng.below(r.size() + 1), added);
		break;
	}
	case 7: { // Very long
		int kind = int(rng.below(4));
		int64_t n = rng.range(200, 40000);
		r = "/";
		if (kind == 0) r += std::string(n, 'a');
		else if (kind == 1) while (std::ssize(r) < n) r += "sub/../";
		else if (kind == 2) while (std::ssize(r) < n) r += "./";
		else while (std::ssize(r) < n) r += "abcdefgh/";
		if (rng.chance(50)) r += "a.txt";
		break;
	}
	case 8: { static const char* some[] = {"", "/", "//", "/.", "/..", ".", "..", "/../", "/./", "/sub", "/sub/", "/empty", "/empty/", "a.txt", "index.html", "secret.txt", "../secret.txt", "~", "/~root", "?", "/?a", "/#", "/a.txt?x=1",
			"/proc/self/cmdline", "//proc/self/cmdline", "/dev/null", "//dev/zero", "/con", "/a.txt::$DATA"}; r = some[rng.below(std::size(some))]; break; }
	default: r = mutateBytes(rng, insideOne(), "./\\%20efEF~ ");
	}
	direct = r.empty() || r.find_first_of(" \r\n\t") != std::string::npos || r.find('\0') != std::string::npos || rng.chance(60);
	return r;
}
}

void runCase(H& h) {
	Quiet quiet;
	static World w(h);
	bool caching = h.rng.chance(50);
	static const std::vector<std::string> roots = {w.root, w.root + "/", "public_html", "./public_html/", "../area/public_html", w.root + "/sub/..", "public_html//"};
	std::string root = h.rng.pick(roots);
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> cached;
	std::map<std::string, std::string> registered;
	if (caching) cached = std::make_unique<CachingFileServer>(root);
	else dynamic = std::make_unique<DynamicFileServer>(root);
	static const char* names[] = {"page.html", "generated/data.json", "../secret.txt", "sub/made", "a.txt", "x/../y", "etc/passwd"};
	for (int n = int(h.rng.range(0, 3)); n > 0; n--) {
		std::string name = names[h.rng.below(std::size(names))], contents = "REGISTERED " + name + " " + std::to_string(h.rng.below(1000));
		registered["/" + name] = contents;
		if (caching) cached->addGeneratedFile(name, contents);
		else dynamic->addGeneratedFile(name, h.rng.chance(50), [contents] (Callback<void(std::span<const char> chunk)> write) { write(std::span<const char>(contents.data(), contents.size())); });
	}
	IHttpGetResponder& server = caching ? static_cast<IHttpGetResponder&>(*cached) : *dynamic;
	for (int n = 0; n < 40; n++) {
		bool direct;
		std::string path = hostilePath(h, w, direct);
		if (h.rng.chance(5) && !registered.empty()) { auto it = registered.begin(); std::advance(it, h.rng.below(registered.size())); path = it->first; direct = true; }
		h.sign(path);
		bool served = false;
		std::string body;
		auto about = [&] { return std::string(caching ? "caching" : "dynamic") + (direct ? "" : " through HTTP") + ", folder " + root + ", path " + jsonQuote(path, 300); };
		if (direct) {
			Taker taker;
			try { served = server.get(path, taker); }
			catch (std::exception& e) { h.fail("exception", std::string(e.what()) + " " + about()); }
			h.check(served == (taker.started == 1), "inconsistent-outcome", about);
			h.check(!served || taker.declared < 0 || taker.declared == int64_t(taker.body.size()), "wrong-length", about);
			body = taker.body;
		} else {
			HttpServer<> http(server);
			auto session = http.getSession();
			auto outcome = feedSegments(session, "GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n", {});
			std::vector<HttpResponse> responses;
			std::string problem = parseHttpResponses(outcome.output, responses);
			h.check(problem.empty() && outcome.problem.empty() && responses.size() == 1, "not-one-response", [&] { return problem + outcome.problem + " " + about(); });
			h.check(responses[0].status == 200 || responses[0].status == 404, "other-status", [&] { return std::to_string(responses[0].status) + " " + about(); });
			served = responses[0].status == 200;
			if (served) body = responses[0].body;
			h.count("through_http");
		}
		h.count(served ? "served" : "refused");
		if (!served) {
			// Plain paths of existing files are served
			bool plain = w.inside.count(path) && path.find("/.") == std::string::npos && path.find("..") == std::string::npos;
			h.check(!plain && !registered.count(path) && path != "/", "existing-not-served", about);
			continue;
		}
		h.check(body.find("OUTSIDE") == std::string::npos, "secret-served", [&] { return about() + " served " + jsonQuote(body, 300); });
		const std::string* due = nullptr;
		if (registered.count(path)) due = &registered[path];
		else if (path.empty() || path.back() == '/') due = &w.inside["/index.html"];
		else if (w.inside.count(path)) due = &w.inside[path];
		else if (path[0] == '/') { // Another spelling of a path inside
			std::vector<std::string> steps;
			bool outside = false;
			for (size_t at = 1; at <= path.size();) {
				size_t e = std::min(path.find('/', at), path.size());
				std::string step = path.substr(at, e - at);
				at = e + 1;
				if (step == "..") { if (steps.empty()) { outside = true; break; } steps.pop_back(); }
				else if (!step.empty() && step != ".") steps.push_back(step);
			}
			std::string clean;
			for (auto& it : steps) clean += "/" + it;
			if (!outside && w.inside.count(clean)) due = &w.inside[clean];
			h.count("other_spelling");
		}
		h.check(due, "not-existing-served", [&] { return about() + " served " + jsonQuote(body, 300); });
		h.check(body == *due, "other-file-served", [&] { return about() + " served " + jsonQuote(body, 300) + " instead of " + jsonQuote(*due); });
		h.sample(about());
	}
	h.count(caching ? "caching" : "dynamic");
}
