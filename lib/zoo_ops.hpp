// Operations on members of test classes that do not use the library: random filling, comparison, models
#ifndef VERIF_ZOO_OPS
#define VERIF_ZOO_OPS
#include "json_model.hpp"
#include <array>
#include <memory>
#include <optional>
#include <cmath>
#include <limits>

template <typename T> concept ZooStruct = requires(T t) { t.each([] (std::string_view, auto&) {}); };
template <typename T> concept PtrLike = requires(T t) { *t; t.reset(); bool(t); };
template <typename T> struct IsVector : std::false_type {};
template <typename T> struct IsVector<std::vector<T>> : std::true_type {};
template <typename T> struct IsArray : std::false_type {};
template <typename T, size_t N> struct IsArray<std::array<T, N>> : std::true_type {};
template <typename T> struct IsMap : std::false_type {};
template <typename K, typename V> struct IsMap<std::map<K, V>> : std::true_type {};

struct FillLimits {
	int text = 200;
	int container = 3;
	int rareContainer = 12;
	mutable int huge = 0; // Size of one container to be filled with small elements, 0 if there is not any
	void maybeHuge(Rng& rng, bool veryHuge = true) {
		if (rng.chance(2)) huge = int(!veryHuge || rng.chance(85) ? rng.range(250, 1100) : rng.pick(std::array{32767, 32768, 32769, 65535, 65536, 65537, 70000}));
	}
	mutable bool wasHuge = false;
	template <typename E, typename Adder>
	bool fillHuge(Rng& rng, int depth, bool keyed, const Adder& add) const { // Usually in the first container that can hold so much
		if (!huge || depth > 2 || sizeof(E) > (huge > 2000 ? 64 : 300) || rng.chance(30)) return false;
		int count = keyed ? std::min(huge, 1100) : huge; // The models search keys one by one
		huge = 0;
		wasHuge = true;
		for (int i = 0; i < count; i++) add(i);
		return true;
	}
};

template <typename T>
void fill(Rng& rng, T& v, const FillLimits& lim, int depth = 0) {
	if constexpr (std::is_same_v<T, bool>) v = rng.chance(50);
	else if constexpr (std::is_integral_v<T>) {
		switch (rng.below(6)) {
		case 0: v = T(rng.range(-3, 3)); break;
		case 1: v = std::numeric_limits<T>::max(); break;
		case 2: v = std::numeric_limits<T>::min(); break;
		case 3: v = T(1ull << rng.below(64)); break;
		default: v = T(int64_t(rng.next()) >> rng.below(63));
		}
	} else if constexpr (std::is_floating_point_v<T>) {
		switch (rng.below(7)) {
		case 0: v = T(rng.range(-5, 5)); break;
		case 1: v = std::numeric_limits<T>::max() * (rng.chance(50) ? 1 : -1); break;
		case 2: v = std::numeric_limits<T>::denorm_min(); break;
		case 3: v = std::numeric_limits<T>::min() * (rng.chance(50) ? T(1.5) : T(-1)); break;
		case 4: v = T(double(rng.range(-100000, 100000)) / 100.); break;
		case 5: v = rng.chance(50) ? T(-0.0) : T(0.1); break;
		default: {
			do {
				using I = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
				I bits = I(rng.next());
				memcpy(&v, &bits, sizeof(v));
			} while (!std::isfinite(v));
		}
		}
	} else if constexpr (std::is_same_v<T, std::string>) v = randomText(rng, 12, depth > 2 ? 12 : lim.text);
	else if constexpr (ZooStruct<T>) v.each([&] (std::string_view, auto& m) { fill(rng, m, lim, depth + 1); });
	else if constexpr (IsVector<T>::value) {
		v.clear();
		auto add = [&] (int elementDepth) {
			typename T::value_type element = {};
			fill(rng, element, lim, elementDepth);
			v.push_back(std::move(element));
		};
		if (lim.fillHuge<typename T::value_type>(rng, depth, false, [&] (int) { add(10); })) return;
		for (int n = int(rng.size(depth > 3 ? 1 : lim.container, depth > 1 ? lim.container : lim.rareContainer)); n > 0; n--)
			add(depth + 1);
	} else if constexpr (IsArray<T>::value) { for (auto& it : v) fill(rng, it, lim, depth + 1); }
	else if constexpr (IsMap<T>::value) {
		v.clear();
		if (lim.fillHuge<typename T::mapped_type>(rng, depth, true, [&] (int i) { fill(rng, v[std::to_string(i)], lim, 10); })) return;
		for (int n = int(rng.size(depth > 3 ? 1 : lim.container, depth > 1 ? lim.container : lim.rareContainer)); n > 0; n--)
			fill(rng, v[randomText(rng, 8, 40)], lim, depth + 1);
	} else if constexpr (PtrLike<T>) {
		if (rng.chance(40)) v.reset();
		else {
			using E = std::decay_t<decltype(*v)>;
			if constexpr (requires { typename T::element_type; }) {
				v = T(new E());
				fill(rng, *v, lim, depth + 1);
			} else {
				E e = {};
				fill(rng, e, lim, depth + 1);
				v = std::move(e);
			}
		}
	} else static_assert(!std::is_same_v<T, T>, "unknown member");
}

template <typename T>
bool same(const T& a, const T& b) {
	if constexpr (std::is_floating_point_v<T>) return a == b && std::signbit(a) == std::signbit(b);
	else if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>) return a == b;
	else if constexpr (ZooStruct<T>) {
		std::vector<std::function<bool()>> q;
		std::vector<const void*> other;
		b.each([&] (std::string_view, auto& m) { other.push_back(&m); });
		size_t i = 0;
		bool ok = true;
		a.each([&] (std::string_view, auto& m) { ok = same(m, *static_cast<decltype(&m)>(other[i++])) && ok; });
		return ok;
	} else if constexpr (IsVector<T>::value || IsArray<T>::value) {
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
		return true;
	} else if constexpr (IsMap<T>::value) {
		if (a.size() != b.size()) return false;
		for (auto& it : a) { auto f = b.find(it.first); if (f == b.end() || !same(it.second, f->second)) return false; }
		return true;
	} else {
		if (bool(a) != bool(b)) return false;
		return !a || same(*a, *b);
	}
}

// Content as JSON, floats with all digits
template <typename T>
JVal model(const T& v) {
	if constexpr (std::is_same_v<T, bool>) return JVal::boolean(v);
	else if constexpr (std::is_integral_v<T>) return JVal::integer(int64_t(v));
	else if constexpr (std::is_floating_point_v<T>) return JVal::real(v);
	else if constexpr (std::is_same_v<T, std::string>) return JVal::string(v);
	else if constexpr (ZooStruct<T>) {
		JVal r = JVal::object();
		v.each([&] (std::string_view name, auto& m) { r.obj.emplace_back(name, model(m)); });
		return r;
	} else if constexpr (IsVector<T>::value || IsArray<T>::value) {
		JVal r = JVal::array();
		for (auto& it : v) r.arr.push_back(model(it));
		return r;
	} else if constexpr (IsMap<T>::value) {
		JVal r = JVal::object();
		for (auto& it : v) r.obj.emplace_back(it.first, model(it.second));
		return r;
	} else return v ? model(*v) : JVal::null();
}

template <typename T> struct IsPlainStd : std::bool_constant<IsVector<T>::value || IsMap<T>::value> {};

// Value-initialised state of a member without initial value
template <typename T>
bool isBlank(const T& v) {
	if constexpr (std::is_arithmetic_v<T>) return v == T();
	else if constexpr (std::is_same_v<T, std::string> || IsVector<T>::value || IsMap<T>::value) return v.empty();
	else if constexpr (IsArray<T>::value) { for (auto& it : v) if (!isBlank(it)) return false; return true; }
	else if constexpr (ZooStruct<T>) return !v.wrongDefault();
	else return !v;
}

// Independent encoder of the binary format following the documentation; returns false if some size doesn't fit
template <typename SizeType>
struct BinaryModel {
	std::string out;
	bool fits = true;
	template <typename N> void number(N v) { // Little endian by shifting, not by memory layout
		using U = std::conditional_t<sizeof(N) == 1, uint8_t, std::conditional_t<sizeof(N) == 2, uint16_t, std::conditional_t<sizeof(N) == 4, uint32_t, uint64_t>>>;
		U u;
		memcpy(&u, &v, sizeof(u));
		for (size_t i = 0; i < sizeof(N); i++) out += char(uint8_t(uint64_t(u) >> (8 * i)));
	}
	void size(uint64_t n) {
		if (n > uint64_t(std::numeric_limits<SizeType>::max())) fits = false;
		number(SizeType(n));
	}
	template <typename T> void encode(const T& v) {
		if constexpr (std::is_same_v<T, bool>) out += char(v ? 1 : 0);
		else if constexpr (std::is_arithmetic_v<T>) number(v);
		else if constexpr (std::is_same_v<T, std::string>) { size(v.size()); out += v; }
		else if constexpr (ZooStruct<T>) v.each([&] (std::string_view, auto& m) { encode(m); });
		else if constexpr (IsVector<T>::value || IsArray<T>::value) { size(v.size()); for (auto& it : v) encode(it); }
		else if constexpr (IsMap<T>::value) { size(v.size()); for (auto& it : v) { size(it.first.size()); out += it.first; encode(it.second); } }
		else { out += char(v ? 1 : 0); if (v) encode(*v); }
	}
};

inline std::string hex(std::string_view s, size_t limit = 300) {
	std::string r;
	char b[4];
	for (unsigned char c : s) { if (r.size() > 2 * limit) { r += "..."; break; } snprintf(b, 4, "%02x", c); r += b; }
	return r;
}
#endif
