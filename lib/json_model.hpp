// Independent strict JSON parser and randomised JSON printer (RFC 8259), shares nothing with the library under test
#ifndef VERIF_JSON_MODEL
#define VERIF_JSON_MODEL
#include "harness.hpp"
#include <memory>
#include <utility>
#include <cmath>

struct JVal {
	enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
	bool b = false;
	std::string num; // Number as spelled
	std::string s;
	std::vector<JVal> arr;
	std::vector<std::pair<std::string, JVal>> obj;
	static JVal null() { return {}; }
	static JVal boolean(bool v) { JVal j; j.kind = BOOL; j.b = v; return j; }
	static JVal integer(int64_t v) { JVal j; j.kind = NUM; j.num = std::to_string(v); return j; }
	static JVal real(double v) { JVal j; j.kind = NUM; char b[40]; snprintf(b, 40, "%.17g", v); j.num = b; return j; }
	static JVal string(std::string v) { JVal j; j.kind = STR; j.s = std::move(v); return j; }
	static JVal array() { JVal j; j.kind = ARR; return j; }
	static JVal object() { JVal j; j.kind = OBJ; return j; }
	const JVal* find(std::string_view name) const { for (auto& it : obj) if (it.first == name) return &it.second; return nullptr; }
	double asDouble() const { return strtod(num.c_str(), nullptr); }
	bool isInteger() const { return kind == NUM && num.find_first_of(".eE") == std::string::npos; }
};

// Equality of content: members regardless of order, numbers by value
inline bool sameJson(const JVal& a, const JVal& b) {
	if (a.kind != b.kind) return false;
	switch (a.kind) {
	case JVal::NUL: return true;
	case JVal::BOOL: return a.b == b.b;
	case JVal::NUM:
		if (a.num == b.num) return true;
		if (a.isInteger() && b.isInteger()) return strtoll(a.num.c_str(), nullptr, 10) == strtoll(b.num.c_str(), nullptr, 10);
		return a.asDouble() == b.asDouble();
	case JVal::STR: return a.s == b.s;
	case JVal::ARR:
		if (a.arr.size() != b.arr.size()) return false;
		for (size_t i = 0; i < a.arr.size(); i++) if (!sameJson(a.arr[i], b.arr[i])) return false;
		return true;
	case JVal::OBJ:
		if (a.obj.size() != b.obj.size()) return false;
		for (auto& it : a.obj) { auto f = b.find(it.first); if (!f || !sameJson(it.second, *f)) return false; }
		return true;
	}
	return false;
}

struct JsonSyntax : std::runtime_error { using runtime_error::runtime_error; };

inline void appendUtf8(std::string& out, uint32_t c) {
	if (c < 0x80) out += char(c);
	else if (c < 0x800) { out += char(0xc0 | c >> 6); out += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { out += char(0xe0 | c >> 12); out += char(0x80 | (c >> 6 & 63)); out += char(0x80 | (c & 63)); }
	else { out += char(0xf0 | c >> 18); out += char(0x80 | (c >> 12 & 63)); out += char(0x80 | (c >> 6 & 63)); out += char(0x80 | (c & 63)); }
}

class JsonParser {
	std::string_view t; size_t p = 0;
	[[noreturn]] void bad(const char* why) { throw JsonSyntax(std::string(why) + " at byte " + std::to_string(p)); }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
	char peek() { if (p >= t.size()) bad("unexpected end"); return t[p]; }
	void expect(char c) { if (peek() != c) bad("unexpected character"); p++; }
	uint32_t hex4() {
		uint32_t r = 0;
		for (int i = 0; i < 4; i++) {
			char c = peek(); p++;
			r = r * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (bad("bad hex digit"), 0));
		}
		return r;
	}
	std::string str() {
		expect('"');
		std::string r;
		while (true) {
			unsigned char c = peek(); p++;
			if (c == '"') return r;
			if (c < 0x20) bad("raw control character in a string");
			if (c != '\\') { r += char(c); continue; }
			c = peek(); p++;
			switch (c) {
			case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break;
			case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break;
			case 'r': r += '\r'; break; case 't': r += '\t'; break;
			case 'u': {
				uint32_t u = hex4();
				if (u >= 0xd800 && u < 0xdc00) {
					expect('\\'); expect('u');
					uint32_t lo = hex4();
					if (lo < 0xdc00 || lo > 0xdfff) bad("bad surrogate");
					u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
				} else if (u >= 0xdc00 && u < 0xe000) bad("lone surrogate");
				appendUtf8(r, u);
				break;
			}
			default: bad("bad escape");
			}
		}
	}
	JVal value(int depth) {
		if (depth > 200) bad("too deep");
		ws();
		char c = peek();
		JVal v;
		if (c == '{') {
			v.kind = JVal::OBJ; p++; ws();
			if (peek() == '}') { p++; return v; }
			while (true) {
				ws(); std::string name = str(); ws(); expect(':');
				if (v.find(name)) bad("duplicate member");
				v.obj.emplace_back(std::move(name), value(depth + 1));
				ws();
				if (peek() == ',') { p++; continue; }
				expect('}'); return v;
			}
		} else if (c == '[') {
			v.kind = JVal::ARR; p++; ws();
			if (peek() == ']') { p++; return v; }
			while (true) {
				v.arr.push_back(value(depth + 1)); ws();
				if (peek() == ',') { p++; continue; }
				expect(']'); return v;
			}
		} else if (c == '"') { v.kind = JVal::STR; v.s = str(); return v; }
		else if (t.substr(p, 4) == "null") { p += 4; return v; }
		else if (t.substr(p, 4) == "true") { p += 4; return JVal::boolean(true); }
		else if (t.substr(p, 5) == "false") { p += 5; return JVal::boolean(false); }
		size_t st = p;
		if (peek() == '-') p++;
		if (peek() == '0') p++;
		else { if (!isdigit((unsigned char)peek())) bad("bad value"); while (p < t.size() && isdigit((unsigned char)t[p])) p++; }
		if (p < t.size() && t[p] == '.') { p++; if (!isdigit((unsigned char)peek())) bad("bad number"); while (p < t.size() && isdigit((unsigned char)t[p])) p++; }
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
			p++; if (peek() == '+' || peek() == '-') p++;
			if (!isdigit((unsigned char)peek())) bad("bad number");
			while (p < t.size() && isdigit((unsigned char)t[p])) p++;
		}
		v.kind = JVal::NUM; v.num = t.substr(st, p - st);
		return v;
	}
public:
	static JVal parse(std::string_view text) {
		JsonParser q; q.t = text;
		JVal v = q.value(0);
		q.ws();
		if (q.p != text.size()) q.bad("trailing characters");
		return v;
	}
};

inline bool validUtf8(std::string_view s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size()) return false;
		for (int j = 1; j <= n; j++) if ((s[i + j] & 0xc0) != 0x80) return false;
		i += n + 1;
	}
	return true;
}

// Prints with random layout, escapes, order of members and spelling of numbers
struct JsonSpeller {
	Rng& rng;
	int layout = 0; // 0 compact, 1 random whitespace, 2 always spaces
	bool shuffle = true, respell = true;
	JsonSpeller(Rng& r) : rng(r) { layout = int(rng.below(3)); }
	std::string ws() {
		std::string r;
		if (layout == 0) return r;
		int n = layout == 1 ? int(rng.below(3)) : 1;
		for (int i = 0; i < n; i++) r += layout == 1 ? " \t\n\r"[rng.below(4)] : ' ';
		return r;
	}
	std::string hex4(uint32_t v) { char b[8]; snprintf(b, 8, rng.chance(50) ? "\\u%04x" : "\\u%04X", v); return b; }
	std::string str(std::string_view s) {
		int mode = int(rng.below(4)); // 0 minimal, 1 random, 2 all escaped, 3 minimal
		std::string r = "\"";
		for (size_t i = 0; i < s.size();) {
			unsigned char c = s[i];
			int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
			uint32_t u = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
			for (int j = 1; j <= n && i + j < s.size(); j++) u = u << 6 | (s[i + j] & 63);
			bool must = c < 0x20 || c == '"' || c == '\\';
			bool esc = must || mode == 2 || (mode == 1 && rng.chance(40));
			if (!esc) r += s.substr(i, n + 1);
			else {
				static const std::map<uint32_t, const char*> shorts = {{'"', "\\\""}, {'\\', "\\\\"}, {'/', "\\/"}, {8, "\\b"}, {12, "\\f"}, {10, "\\n"}, {13, "\\r"}, {9, "\\t"}};
				auto sh = shorts.find(u);
				if (sh != shorts.end() && rng.chance(60)) r += sh->second;
				else if (u < 0x10000) r += hex4(u);
				else { u -= 0x10000; r += hex4(0xd800 + (u >> 10)); r += hex4(0xdc00 + (u & 0x3ff)); }
			}
			i += n + 1;
		}
		return r + "\"";
	}
	std::string number(const JVal& v) {
		if (!respell) return v.num;
		if (v.isInteger()) {
			int64_t i = strtoll(v.num.c_str(), nullptr, 10);
			if (i > -(1ll << 50) && i < (1ll << 50)) switch (rng.below(8)) {
				case 0: return v.num + ".0";
				case 1: return v.num + "e0";
				case 2: if (i) return v.num + "0e-1"; break;
				case 3: if (i % 10 == 0 && i) return std::to_string(i / 10) + (rng.chance(50) ? "E1" : "e+1"); break;
				case 4: return v.num + ".00E+00";
			}
			return v.num;
		}
		char b[64];
		switch (rng.below(4)) {
			case 0: snprintf(b, 64, "%.17e", v.asDouble()); return b;
			case 1: { snprintf(b, 64, "%.17E", v.asDouble()); return b; }
			case 2: { std::string s = v.num; if (s.find_first_of("eE.") == std::string::npos) s += ".0"; return s; }
		}
		return v.num;
	}
	std::string print(const JVal& v) {
		switch (v.kind) {
		case JVal::NUL: return "null";
		case JVal::BOOL: return v.b ? "true" : "false";
		case JVal::NUM: return number(v);
		case JVal::STR: return str(v.s);
		case JVal::ARR: {
			std::string r = "[" + ws();
			for (size_t i = 0; i < v.arr.size(); i++) { if (i) r += "," + ws(); r += print(v.arr[i]) + ws(); }
			return r + "]";
		}
		case JVal::OBJ: {
			std::vector<const std::pair<std::string, JVal>*> m;
			for (auto& it : v.obj) m.push_back(&it);
			if (shuffle && rng.chance(70)) for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[rng.below(i)]);
			std::string r = "{" + ws();
			for (size_t i = 0; i < m.size(); i++) { if (i) r += "," + ws(); r += str(m[i]->first) + ws() + ":" + ws() + print(m[i]->second) + ws(); }
			return r + "}";
		}
		}
		return "";
	}
};

inline std::string randomText(Rng& rng, int common = 12, int rare = 3000) {
	if (rng.chance(5)) { // What means something else when it's not a text
		static const char* words[] = {"null", "true", "false", "0", "1", "-1", "12345", "9007199254740993", "1e5", "0.5", "-0", "NaN", "Infinity", "{}", "[]", "\"\"", "undefined", "2.0", "on", "\\", "\\u0041", "//", "/*", "\\n", "%00", "&amp;", "<b>"};
		return words[rng.below(rng.chance(30) ? 4 : std::size(words))];
	}
	std::string r;
	int n = int(rng.size(common, rare));
	int mode = int(rng.below(5));
	for (int i = 0; i < n; i++) {
		switch (mode) {
		case 0: r += char(rng.range('a', 'z')); break;
		case 1: r += char(rng.range(0x20, 0x7e)); break;
		case 2: r += "\"\\{}[],:/ \n\r\t\b\f&=%+#;<>'x"[rng.below(24)]; break;
		case 3: r += char(rng.below(0x80)); break;
		default: {
			uint32_t u;
			switch (rng.below(5)) {
			case 0: u = uint32_t(rng.below(0x80)); break;
			case 1: u = uint32_t(rng.range(0x80, 0x7ff)); break;
			case 2: u = uint32_t(rng.chance(50) ? rng.range(0x800, 0xd7ff) : rng.range(0xe000, 0xffff)); break;
			case 3: u = uint32_t(rng.range(0x10000, 0x10ffff)); break;
			default: { const uint32_t edge[] = {0, 0x1f, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xff, 0x100, 0x3ff, 0x400}; u = rng.pick(edge); }
			}
			appendUtf8(r, u);
		}
		}
	}
	return r;
}

inline JVal randomJson(Rng& rng, int depth = 0) {
	int k = int(rng.below(depth > 3 ? 5 : 7));
	switch (k) {
	case 0: return JVal::null();
	case 1: return JVal::boolean(rng.chance(50));
	case 2: return JVal::integer(int64_t(rng.next()) >> rng.below(63));
	case 3: { double d = (double(rng.range(-1000000, 1000000)) / 64) * std::pow(10., double(rng.range(-5, 5))); JVal v = JVal::real(d); return v; }
	case 4: return JVal::string(randomText(rng, 10, 200));
	case 5: { JVal v = JVal::array(); for (int n = int(rng.below(4)); n > 0; n--) v.arr.push_back(randomJson(rng, depth + 1)); return v; }
	default: { JVal v = JVal::object(); for (int n = int(rng.below(4)); n > 0; n--) { std::string name = randomText(rng, 6, 20); if (!v.find(name)) v.obj.emplace_back(name, randomJson(rng, depth + 1)); } return v; }
	}
}
#endif
