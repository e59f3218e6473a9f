// Independent encoder and decoder of url-encoded forms in the character set used by the library (characters up to U+00FF as one byte, others as decimal character references)
#ifndef VERIF_FORM_MODEL
#define VERIF_FORM_MODEL
#include "json_model.hpp"

inline std::vector<uint32_t> codePoints(std::string_view s) {
	std::vector<uint32_t> r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		uint32_t u = n == 1 ? c : c & (0xff >> (n + 1));
		for (int j = 1; j < n && i + j < s.size(); j++) u = u << 6 | (s[i + j] & 0x3f);
		r.push_back(u);
		i += n;
	}
	return r;
}
struct FormEncoder {
	Rng& rng;
	bool plain = false; // Not escaping anything unnecessarily
	std::string byte(unsigned char c, bool mayBePlain) {
		bool safe = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '*' || c == '-' || c == '.' || c == '_';
		if (safe && mayBePlain && (plain || !rng.chance(15))) return std::string(1, char(c));
		char b[4];
		snprintf(b, 4, rng.chance(50) ? "%%%02x" : "%%%02X", c);
		return b;
	}
	// Browsers escape no ampersands, so what only begins as a reference may come
	static bool likeReference(const std::vector<uint32_t>& points, size_t i) {
		size_t end = i + 2;
		while (end < points.size() && points[end] >= '0' && points[end] <= '9') end++;
		return end > i + 2 && end < points.size() && points[end] == ';';
	}
	std::string encode(std::string_view text) {
		std::string r;
		auto points = codePoints(text);
		for (size_t i = 0; i < points.size(); i++) {
			uint32_t u = points[i];
			if (u == ' ' && rng.chance(60)) r += '+';
			else if (u > 0xff || (u == '&' && i + 1 < points.size() && points[i + 1] == '#' && (likeReference(points, i) || rng.chance(50)))) {
				r += byte('&', false); r += byte('#', false);
				r += std::to_string(u);
				r += byte(';', false);
			} else r += byte((unsigned char)u, u < 0x80);
		}
		return r;
	}
};
// Decodes bytes, then character references; false if it's not valid
inline bool decodeForm(std::string_view in, std::string& out) {
	std::string bytes; // As code points up to 0xff
	for (size_t i = 0; i < in.size(); i++) {
		unsigned char c = in[i];
		if (c <= 0x20 || c >= 0x7f) return false;
		if (c == '+') bytes += ' ';
		else if (c == '%') {
			if (i + 2 >= in.size() || !isxdigit((unsigned char)in[i + 1]) || !isxdigit((unsigned char)in[i + 2])) return false;
			bytes += char(strtoul(std::string(in.substr(i + 1, 2)).c_str(), nullptr, 16));
			i += 2;
		} else if (strchr("&=#\"", c)) return false;
		else bytes += char(c);
	}
	for (size_t i = 0; i < bytes.size(); i++) {
		if (bytes[i] == '&' && i + 2 < bytes.size() && bytes[i + 1] == '#' && isdigit((unsigned char)bytes[i + 2])) {
			size_t end = i + 2;
			while (end < bytes.size() && isdigit((unsigned char)bytes[end])) end++;
			if (end < bytes.size() && bytes[end] == ';' && end - i < 10) {
				appendUtf8(out, uint32_t(strtoul(bytes.c_str() + i + 2, nullptr, 10)));
				i = end;
				continue;
			}
		}
		appendUtf8(out, (unsigned char)bytes[i]);
	}
	return true;
}
inline std::string formText(Rng& rng) {
	if (rng.chance(60)) return randomText(rng, 12, 300);
	static const char* parts[] = {"&#", "&#12;", "&#328;", "&", "#", ";", "%26", "%", "+", " ", "=", "é", "ÿ", "Ā", "ň", "€", "😀", "&amp;", "&#38;#", "\r\n", "true", "-", "1e5", "&#x41;", "&#0;", "\"", "<b>", "~", "\\", "&#99999999999;", "12;", "&#65+", "&#9k", "&#328[", "&#12=", "&#7<", "&#1:"};
	std::string r;
	for (int n = int(rng.range(0, 8)); n > 0; n--) r += parts[rng.below(std::size(parts))];
	return r;
}
#endif
