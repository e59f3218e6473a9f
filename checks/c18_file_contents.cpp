// File servers deliver exactly what is in the files and what was registered, before and after changes
#include "file_world.hpp"
using namespace Bomba;
using namespace Files;

namespace {
// What a browser has to be told about the kind of a file
const std::map<std::string, std::set<std::string>> types = {
	{"html", {"text/html"}}, {"js", {"text/javascript", "application/javascript"}}, {"css", {"text/css"}}, {"json", {"application/json"}}, {"jpg", {"image/jpeg"}}, {"jpeg", {"image/jpeg"}}, {"png", {"image/png"}},
	{"gif", {"image/gif"}}, {"ico", {"image/vnd.microsoft.icon", "image/x-icon"}}, {"svg", {"image/svg+xml"}}, {"bmp", {"image/bmp"}}, {"ttf", {"font/ttf"}}, {"gz", {"application/gzip"}}, {"xml", {"application/xml", "text/xml"}}};

std::string fileName(Rng& rng) {
	static const char* folders[] = {"", "", "", "sub/", "sub/deep/", "with space/", "a.b/", "page.html/", "v1.2/x.js/"};
	static const char* names[] = {"index", "a", "b", "file.name", "jquery.min", "x-y_z", "UPPER", "n\xc3\xa1zev", "a,b", "0"};
	static const char* extensions[] = {"html", "js", "css", "json", "jpg", "jpeg", "png", "gif", "ico", "svg", "bmp", "ttf", "gz", "xml", "HTML", "Png", "unknown", "x1", "", "tar.gz", "htm"};
	std::string e = extensions[rng.below(std::size(extensions))];
	return folders[rng.below(std::size(folders))] + std::string(names[rng.below(std::size(names))]) + (e.empty() ? "" : "." + e);
}
std::string fileContents(H& h) {
	static const int64_t edges[] = {0, 1, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12288};
	int64_t size = h.rng.chance(40) ? h.rng.pick(edges) : h.rng.size(3000, h.thorough && h.rng.chance(10) ? 9000000 : 200000);
	std::string r(size_t(size), 0);
	int kind = int(h.rng.below(3));
	for (auto& c : r) c = kind == 0 ? char(h.rng.next()) : kind == 1 ? " \t\r\n\v\fab"[h.rng.below(8)] : char(h.rng.range(32, 126));
	return r;
}
void verifyType(H& h, const std::string& path, const std::string& type, const std::function<std::string()>& about) {
	size_t dot = path.find_last_of("./");
	std::string extension = dot == std::string::npos || path[dot] == '/' ? "" : path.substr(dot + 1);
	for (auto& c : extension) c = char(tolower((unsigned char)c));
	auto known = types.find(extension);
	if (known != types.end()) h.check(known->second.count(type), "wrong-type", [&] { return type + " " + about(); });
	else {
		size_t slash = type.find('/');
		bool fine = slash != std::string::npos && slash > 0 && slash + 1 < type.size();
		for (size_t i = 0; i < type.size(); i++) fine = fine && (i == slash || isalnum((unsigned char)type[i]) || strchr("!#$&-^_.+", type[i]));
		h.check(fine, "no-type", [&] { return jsonQuote(type) + " " + about(); });
		for (auto& [other, its] : types) h.check(!its.count(type), "type-of-others", [&] { return type + " " + about(); });
	}
}

// Both kinds of servers and what they should have
struct Served {
	H& h;
	std::string root;
	std::map<std::string, std::string> disk, cachedDisk; // By path in URL
	struct Page { std::string contents; std::vector<size_t> cuts; };
	std::map<std::string, Page> pages;
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> cached;
	int modifications = 0, expectedModifications = 0;
	std::vector<int> modifiers;
	explicit Served(H& h) : h(h) {}

	IHttpGetResponder& server() { return cached ? static_cast<IHttpGetResponder&>(*cached) : *dynamic; }
	const std::string* due(const std::string& path) {
		auto page = pages.find(path);
		if (page != pages.end()) return &page->second.contents;
		auto& files = cached ? cachedDisk : disk;
		auto file = files.find(path == "/" ? "/index.html" : path);
		return file == files.end() ? nullptr : &file->second;
	}
	std::string about(const std::string& path) { return std::string(cached ? "caching" : "dynamic") + " server, " + (pages.count(path) ? "page " : "file ") + jsonQuote(path); }
	void ask(const std::string& path, const std::function<void()>& meanwhile = {}) {
		const std::string* wanted = due(path);
		std::string due = wanted ? *wanted : "", got, type;
		bool served = false;
		bool http = !meanwhile && h.rng.chance(50) && path.find(' ') == std::string::npos;
		auto what = [&] { return about(path) + (http ? " through HTTP" : "") + " of " + std::to_string(due.size()) + " bytes"; };
		if (http) {
			HttpServer<> responder(server());
			auto session = responder.getSession();
			auto outcome = feedSegments(session, "GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n", {});
			std::vector<HttpResponse> responses;
			std::string problem = parseHttpResponses(outcome.output, responses);
			h.check(problem.empty() && outcome.problem.empty() && responses.size() == 1, "not-one-response", [&] { return problem + outcome.problem + " " + what(); });
			h.check(responses[0].status == (wanted ? 200 : 404), "other-status", [&] { return std::to_string(responses[0].status) + " " + what(); });
			served = wanted;
			got = responses[0].body;
			if (responses[0].header("content-type")) type = *responses[0].header("content-type");
		} else {
			Taker taker;
			taker.beforeBody = meanwhile;
			try { served = server().get(path, taker); }
			catch (std::exception& e) { h.fail("exception", std::string(e.what()) + " " + what()); }
			got = taker.body;
			type = taker.type;
			h.check(served == (taker.started == 1), "inconsistent-outcome", what);
			if (served) h.check(taker.declared < 0 || taker.declared == int64_t(got.size()), "wrong-length", [&] { return std::to_string(taker.declared) + " declared " + what(); });
		}
		h.check(served == (wanted != nullptr), wanted ? "not-served" : "not-existing-served", what);
		h.count(http ? "through_http" : "direct");
		if (!served) { h.count("not_existing"); return; }
		h.check(got == due, "other-contents", [&] {
			size_t i = 0;
			while (i < got.size() && i < due.size() && got[i] == due[i]) i++;
			return what() + ", got " + std::to_string(got.size()) + " bytes, different from byte " + std::to_string(i); });
		verifyType(h, path == "/" ? "/index.html" : path, type, what);
		h.count(pages.count(path) ? "pages_served" : "files_served");
		h.maximum("size", int64_t(due.size()));
	}
	void registerPage(const std::string& name, Page page) {
		pages["/" + name] = page;
		if (cached) {
			if (h.rng.chance(50)) cached->addGeneratedFile(name, page.contents);
			else cached->addGeneratedFile(name, std::vector<char>(page.contents.begin(), page.contents.end()));
		} else {
			bool known = h.rng.chance(50);
			dynamic->addGeneratedFile(name, known, [page, known] (Callback<void(std::span<const char> chunk)> write) {
				size_t at = 0;
				if (!known) for (auto it : page.cuts) { write(std::span<const char>(page.contents.data() + at, it - at)); at = it; }
				write(std::span<const char>(page.contents.data() + at, page.contents.size() - at));
			});
		}
	}
};
}

void runCase(H& h) {
	Quiet quiet;
	Served s(h);
	static const std::string base = scratch(h);
	s.root = base + "/" + std::to_string(h.caseNo);
	fs::create_directories(s.root);
	struct Clean { std::string path; ~Clean() { std::error_code e; fs::remove_all(path, e); } } clean{base};
	auto change = [&] {
		std::string name = fileName(h.rng);
		std::string path = "/" + name;
		if (h.rng.chance(15) && !s.disk.empty()) {
			auto it = s.disk.begin(); std::advance(it, h.rng.below(s.disk.size()));
			fs::remove(s.root + it->first);
			s.disk.erase(it);
			h.count("removed");
			return;
		}
		std::string contents = fileContents(h);
		write(s.root + path, contents);
		s.disk[path] = contents;
		h.sign(path + std::to_string(hashBytes(contents)));
	};
	for (int n = int(h.rng.range(0, 6)); n > 0; n--) change();
	bool caching = h.rng.chance(50);
	if (caching) { s.cached = std::make_unique<CachingFileServer>(s.root); s.cachedDisk = s.disk; }
	else s.dynamic = std::make_unique<DynamicFileServer>(s.root);
	std::set<std::string> known{"/", "/missing.html", "/sub"};
	auto remember = [&] { for (auto& it : s.disk) known.insert(it.first); for (auto& it : s.pages) known.insert(it.first); };
	remember();
	for (int n = int(h.rng.range(5, 25)); n > 0; n--) {
		int what = int(h.rng.below(100));
		if (what < 60) { auto it = known.begin(); std::advance(it, h.rng.below(known.size())); if (!(s.cached && *it == "/" && s.pages.count("/index.html"))) s.ask(*it); }
		else if (what < 75) { change(); remember(); }
		else if (what < 87) {
			Served::Page page{fileContents(h), {}};
			for (int c = int(h.rng.range(0, 5)); c > 0; c--) page.cuts.push_back(h.rng.below(page.contents.size() + 1));
			std::sort(page.cuts.begin(), page.cuts.end());
			std::string name = h.rng.chance(50) && known.size() > 3 ? std::next(known.begin(), int(h.rng.below(known.size())))->substr(1) : fileName(h.rng);
			if (name.empty()) continue;
			s.registerPage(name, page);
			known.insert("/" + name);
			h.sign("page" + name);
		} else if (s.cached) {
			if (what < 91) { s.cached->reload(); s.cachedDisk = s.disk; s.expectedModifications += int(s.modifiers.size()); h.count("reloaded"); }
			else if (what < 94) { s.cached->reset(); s.cachedDisk = s.disk; s.pages.clear(); s.modifiers.clear(); h.count("reset"); }
			else if (what < 97) { s.modifiers.push_back(1); s.expectedModifications++; s.cached->addModifier([&s] { s.modifications++; }); h.count("modifiers"); }
			h.check(s.modifications == s.expectedModifications, "modifiers-not-called", [&] { return std::to_string(s.modifications) + " calls of modifiers instead of " + std::to_string(s.expectedModifications); });
		} else if (!s.disk.empty()) { // Changed while it's being sent
			auto it = s.disk.begin(); std::advance(it, h.rng.below(s.disk.size()));
			if (s.pages.count(it->first) || it->second.empty()) continue;
			std::string path = it->first, before = it->second;
			if (h.rng.chance(50)) { // Longer
				s.ask(path, [&] { write(s.root + path, before + "ADDED"); });
				s.disk[path] = before + "ADDED";
				h.count("lengthened_meanwhile");
			} else {
				size_t kept = h.rng.below(before.size());
				Taker taker;
				taker.beforeBody = [&] { write(s.root + path, before.substr(0, kept)); };
				bool failed = false;
				try { s.dynamic->get(path, taker); } catch (std::exception&) { failed = true; }
				h.check(failed || (taker.body == before && taker.declared == int64_t(before.size())) || (taker.declared == int64_t(taker.body.size()) && taker.body == before.substr(0, kept)), "invented-contents", [&] {
					return s.about(path) + " shortened from " + std::to_string(before.size()) + " to " + std::to_string(kept) + " bytes, declared " + std::to_string(taker.declared) + " and sent " + std::to_string(taker.body.size()); });
				s.disk[path] = before.substr(0, kept);
				h.count("shortened_meanwhile");
			}
		}
	}
	if (s.cached && h.rng.chance(50)) { s.cached->reload(); s.cachedDisk = s.disk; }
	for (auto& it : known) if (!(s.cached && it == "/" && s.pages.count("/index.html"))) s.ask(it);
	h.sample(std::string(caching ? "caching " : "dynamic ") + std::to_string(known.size()) + " paths");
	h.count(caching ? "caching" : "dynamic");
}
