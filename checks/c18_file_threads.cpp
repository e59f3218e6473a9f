// File servers used from several threads: every response is a version that was current, under the race detector
#include "file_world.hpp"
#include <atomic>
#include <thread>
using namespace Bomba;
using namespace Files;

namespace {
std::string version(int page, int64_t n) {
	std::string r = "page " + std::to_string(page) + " version " + std::to_string(n) + " ";
	Rng rng(uint64_t(page) * 1000003 + uint64_t(n));
	r += std::string(size_t(rng.range(0, 5000)), char('a' + n % 26));
	return r + " end";
}
constexpr int pageCount = 4;
}

void runCase(H& h) {
	Quiet quiet;
	static const std::string base = scratch(h);
	std::string root = base + "/" + std::to_string(h.caseNo);
	struct Clean { std::string path; ~Clean() { std::error_code e; fs::remove_all(path, e); } } clean{base};
	std::map<std::string, std::string> disk;
	for (int i = 0; i < 4; i++) {
		std::string contents(size_t(h.rng.range(0, 30000)), char('A' + i));
		disk["/file" + std::to_string(i) + ".txt"] = contents;
		write(root + "/file" + std::to_string(i) + ".txt", contents);
	}
	bool caching = h.rng.chance(50);
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> cached;
	if (caching) cached = std::make_unique<CachingFileServer>(root);
	else dynamic = std::make_unique<DynamicFileServer>(root);
	IHttpGetResponder& server = caching ? static_cast<IHttpGetResponder&>(*cached) : *dynamic;
	std::atomic<int64_t> begun[pageCount] = {}, done[pageCount] = {}, reads = 0, writes = 0, overlapped = 0;
	auto registerVersion = [&] (int page, int64_t n, bool known) {
		std::string name = "page" + std::to_string(page) + ".html", contents = version(page, n);
		begun[page] = n;
		if (caching) cached->addGeneratedFile(name, contents);
		else dynamic->addGeneratedFile(name, known, [contents, known] (Callback<void(std::span<const char> chunk)> write) {
			size_t half = known ? contents.size() : contents.size() / 2;
			write(std::span<const char>(contents.data(), half));
			if (!known) { std::this_thread::yield(); write(std::span<const char>(contents.data() + half, contents.size() - half)); }
		});
		done[page] = n;
		writes++;
	};
	for (int i = 0; i < pageCount / 2; i++) registerVersion(i, 1, true);
	std::mutex mutex;
	std::string problem;
	auto report = [&] (const std::string& s) { std::lock_guard lock(mutex); if (problem.empty()) problem = s; };
	std::atomic<bool> stop = false;
	int readers = int(h.rng.range(2, 4)), writers = int(h.rng.range(1, 2)), rounds = int(h.rng.range(10, 40));
	bool reloads = caching && h.rng.chance(50);
	std::vector<std::thread> writing, reading;
	for (int t = 0; t < writers; t++) writing.emplace_back([&, t, seed = h.rng.next()] {
		Rng rng(seed);
		for (int i = 0; i < rounds; i++) {
			for (int page = t; page < pageCount; page += writers) if (rng.chance(70)) registerVersion(page, begun[page] + 1, rng.chance(50));
			if (reloads && t == 0 && rng.chance(20)) cached->reload();
			if (rng.chance(50)) usleep(useconds_t(rng.below(200)));
		}
	});
	for (int t = 0; t < readers; t++) reading.emplace_back([&, seed = h.rng.next()] {
		Rng rng(seed);
		try {
			while (!stop) {
				int page = int(rng.below(pageCount));
				Taker taker;
				if (rng.chance(40)) {
					auto it = disk.begin(); std::advance(it, rng.below(disk.size()));
					if (!server.get(it->first, taker)) report("not-served: file " + it->first);
					else if (taker.body != it->second) report("other-contents: file " + it->first + " has " + std::to_string(taker.body.size()) + " bytes instead of " + std::to_string(it->second.size()));
				} else {
					int64_t least = done[page];
					bool served = server.get("/page" + std::to_string(page) + ".html", taker);
					int64_t most = begun[page];
					if (!served && least > 0) report("not-served: page registered before");
					if (served) {
						bool found = false;
						for (int64_t n = std::max<int64_t>(least, 1); n <= most && !found; n++) found = taker.body == version(page, n);
						if (!found) report("other-contents: page " + std::to_string(page) + " is " + jsonQuote(taker.body, 60) + " while versions " + std::to_string(least) + " to " + std::to_string(most) + " were possible");
						if (most > least) overlapped++;
						if (taker.declared >= 0 && taker.declared != int64_t(taker.body.size())) report("wrong-length: page");
					}
				}
				reads++;
			}
		} catch (std::exception& e) { report(std::string("exception: ") + e.what()); }
	});
	for (auto& it : writing) it.join();
	stop = true;
	for (auto& it : reading) it.join();
	h.sign(std::to_string(h.caseNo));
	h.check(problem.empty(), problem.substr(0, problem.find(':')).c_str(), [&] { return std::string(caching ? "caching" : "dynamic") + " " + problem; });
	h.count("concurrent_reads", reads);
	h.count("concurrent_writes", writes);
	h.count("reads_during_writes", overlapped);
	if (reloads) h.count("with_reloads");
}
