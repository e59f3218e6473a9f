// Common part of all C++ harnesses: deterministic random source, case loop, recording of what was observed, reports.
// A harness defines `void runCase(H& h)`; everything random must come from h.rng, which depends on (seed, case) only.
#ifndef VERIF_HARNESS
#define VERIF_HARNESS
#include <cstdint>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <memory>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
	bool chance(int percent) { return below(100) < uint64_t(percent); }
	template <typename C> auto& pick(C&& c) { return c[below(std::size(c))]; }
	// Small numbers most often, sometimes big
	int64_t size(int64_t common, int64_t rare) { return chance(90) ? range(0, common) : range(0, rare); }
};

inline uint64_t hashBytes(std::string_view s, uint64_t h = 1469598103934665603ull) {
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return h;
}

inline std::string jsonQuote(std::string_view s, size_t limit = 2000) { // Bytes beyond ASCII as \u00XX
	std::string r = "\"";
	size_t n = 0;
	for (unsigned char c : s) {
		if (n++ >= limit) { r += "..."; break; }
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}

struct ViolationFound : std::exception { // Deliberately not an error of the library
	std::string key, detail;
	ViolationFound(std::string k, std::string d) : key(std::move(k)), detail(std::move(d)) {}
	const char* what() const noexcept override { return key.c_str(); }
};

struct H {
	uint64_t seed = 1, caseNo = 0;
	bool thorough = false;
	Rng rng{0};
	std::string signature; // What makes this case different, set or extended by the case
	bool nontrivial = true;
	std::map<std::string, int64_t> counters; // Measured observations
	std::vector<std::string> samples;
	std::unordered_set<uint64_t> distinct;
	int64_t evaluations = 0;
	bool wantSample = false;

	void count(const std::string& what, int64_t n = 1) { counters[what] += n; }
	void maximum(const std::string& what, int64_t n) { auto& c = counters["max_" + what]; c = std::max(c, n); }
	void sample(const std::string& s) { if (wantSample && samples.size() < 3) samples.push_back(s.substr(0, 600)); wantSample = false; }
	void sign(std::string_view s) { signature += s; signature += '\1'; }
	[[noreturn]] void fail(const std::string& key, const std::string& detail) { throw ViolationFound(key, detail); }
	void check(bool ok, const char* key, const std::function<std::string()>& detail) { count("oracle_checks"); if (!ok) fail(key, detail()); }
	void check(bool ok, const char* key, const char* detail = "") { count("oracle_checks"); if (!ok) fail(key, detail); }
};

void runCase(H& h);

#ifndef VERIF_CUSTOM_MAIN
int main(int argc, char** argv) {
	// prog seed from to step tier outfile progressfile
	if (argc < 8) { fprintf(stderr, "usage: prog seed from to step tier out progress\n"); return 3; }
	uint64_t seed = strtoull(argv[1], nullptr, 10);
	uint64_t from = strtoull(argv[2], nullptr, 10), to = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10);
	int progress = open(argv[7], O_CREAT | O_WRONLY | O_TRUNC, 0644);
	H h;
	h.seed = seed;
	h.thorough = !strcmp(argv[5], "thorough");
	std::string violations;
	int violationCount = 0;
	uint64_t done = 0;
	for (uint64_t c = from; c < to; c += step) {
		char b[32];
		int n = snprintf(b, sizeof(b), "%-20llu\n", (unsigned long long)c);
		if (pwrite(progress, b, n, 0) != n) return 3;
		h.caseNo = c;
		h.rng = Rng(seed * 0x9e3779b97f4a7c15ull + c * 0xda942042e4dd58b5ull + 17);
		h.rng.next(); h.rng.s ^= h.rng.next();
		h.signature.clear();
		h.nontrivial = true;
		h.wantSample = (done % 97 == 5 || to - from <= step);
		done++;
		h.evaluations++;
		auto report = [&] (const std::string& key, const std::string& detail) {
			if (violationCount++ < 10) {
				if (!violations.empty()) violations += ",";
				violations += "{\"case\":" + std::to_string(c) + ",\"key\":" + jsonQuote(key) + ",\"detail\":" + jsonQuote(detail, 6000) + "}";
			}
		};
		try {
			runCase(h);
		} catch (ViolationFound& v) {
			report(v.key, v.detail);
		} catch (std::exception& e) {
			report("unexpected-exception", std::string("the case ended by an exception: ") + e.what());
		}
		if (h.nontrivial && !h.signature.empty()) h.distinct.insert(hashBytes(h.signature));
		if (violationCount >= 10) break;
	}
	FILE* f = fopen(argv[6], "w");
	if (!f) return 3;
	fprintf(f, "{\"evaluations\":%lld,\"violations\":[%s],\"counters\":{", (long long)h.evaluations, violations.c_str());
	bool first = true;
	for (auto& [k, v] : h.counters) { fprintf(f, "%s%s:%lld", first ? "" : ",", jsonQuote(k).c_str(), (long long)v); first = false; }
	fprintf(f, "},\"samples\":[");
	first = true;
	for (auto& s : h.samples) { fprintf(f, "%s%s", first ? "" : ",", jsonQuote(s).c_str()); first = false; }
	fprintf(f, "],\"hashes\":[");
	first = true;
	for (auto d : h.distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)d); first = false; }
	fprintf(f, "]}\n");
	fclose(f);
	return 0;
}
#endif
#endif
