// Making hostile byte strings out of valid ones
#ifndef VERIF_HOSTILE
#define VERIF_HOSTILE
#include "harness.hpp"
inline std::string randomBytes(Rng& rng, int64_t n) {
	std::string r;
	for (int64_t i = 0; i < n; i++) r += char(rng.next());
	return r;
}
inline std::string mutateBytes(Rng& rng, std::string s, std::string_view alphabet) {
	static const char* tokens[] = {"\"", "{", "}", "[", "]", "null", "-", "\\", "\\u", "\\ud800", "1e999", "99999999999999999999", "e", ".", "true", "fals", ":", ",", "&", "=", "%", "%2", "+", "%26%23",
			"%26%2399999999999999%3b", "%26%231114112%3B", "\xff\xff\xff\xff", "\xff\xff\xff\x7f", "\xff\xff", "\x80", "\xf0", "\r\n", "\0"};
	static const char* numbers[] = {"9223372036854775807", "9223372036854775808", "9223372036854775808.0", "9223372036854775807.5", "9.223372036854775807e18", "9223372036854774784.0", "-9223372036854775808", "-9223372036854775808.0", "-9223372036854775809",
			"-9223372036854777856.0", "1e19", "-1e19", "1e308", "1e309", "-1e309", "1e-400", "-0.0", "0.5", "2147483648", "4294967296", "65536", "128", "-129", "18446744073709551616", "1e99999999999999999999", "3.5e38", "1e", "1.", "1e+5", "0x10", "NaN", "Infinity", "-Infinity", "inf"};
	for (int n = int(rng.range(1, rng.chance(70) ? 3 : 12)); n > 0; n--) {
		size_t at = rng.below(s.size() + 1), len = std::min<size_t>(s.size() - at, rng.size(4, 40));
		switch (rng.below(11)) {
		case 10: { // Another number, on edges of what types can hold
			size_t start = s.find_first_of("0123456789", at);
			if (start == std::string::npos) start = s.find_first_of("0123456789");
			if (start == std::string::npos) break;
			size_t end = std::min(s.find_first_not_of("0123456789.eE+-", start), s.size());
			s.replace(start, end - start, numbers[rng.below(std::size(numbers))]);
			break;
		}
		case 0: s.resize(at); break; // Truncate
		case 1: s.erase(at, len); break;
		case 2: s.insert(at, s.substr(rng.below(s.size() + 1), rng.size(8, 60))); break; // Repeat a part
		case 3: if (at < s.size()) s[at] = char(rng.next()); break;
		case 4: if (at < s.size()) s[at] ^= char(1 << rng.below(8)); break;
		case 5: s.insert(at, tokens[rng.below(std::size(tokens))]); break;
		case 6: if (at < s.size()) s[at] = char(rng.chance(50) ? 0xff : rng.chance(50) ? 0 : 0x7f); break;
		case 7: s.insert(at, randomBytes(rng, rng.size(4, 30))); break;
		case 8: if (!alphabet.empty() && at < s.size()) s[at] = alphabet[rng.below(alphabet.size())]; break;
		default: if (!alphabet.empty()) s.insert(at, 1, alphabet[rng.below(alphabet.size())]); break;
		}
	}
	return s;
}
// Memory of exactly the size of the contents, so that the address sanitizer notices any access around it
struct ExactBytes {
	char* data; size_t size;
	explicit ExactBytes(std::string_view s) : data(static_cast<char*>(malloc(s.size() ? s.size() : 1))), size(s.size()) { memcpy(data, s.data(), s.size()); if (!size) { free(data); data = static_cast<char*>(malloc(0)); } }
	ExactBytes(const ExactBytes&) = delete;
	~ExactBytes() { free(data); }
	std::string_view view() const { return {data, size}; }
};
#endif
