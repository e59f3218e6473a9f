// Serialisable classes used by the serialisation checks: a fixed set covering every kind of member, and generated ones
#ifndef VERIF_ZOO

#define VERIF_ZOO
#include "zoo_ops.hpp"
using LongLong = long long;
#include "bomba_core.hpp"
#include "bomba_object.hpp"

struct ZScalars : Bomba::Serialisable<ZScalars> {
	bool b = key<"b"> = true;
	int8_t i8 = key<"i8"> = -8;
	uint8_t u8 = key<"u8"> = 8;
	int16_t i16 = key<"i16"> = -16;
	uint16_t u16 = key<"u16"> = 16;
	int32_t i32 = key<"i32"> = -32;
	uint32_t u32 = key<"u32"> = 32;
	int64_t i64 = key<"i64"> = -64;
	uint64_t u64 = key<"u64"> = 64;
	float f = key<"f"> = 0.5;
	double d = key<"d"> = -0.25;
	std::string s = key<"s"> = "text";
	template <typename F> void each(F&& f_) { f_("b", b); f_("i8", i8); f_("u8", u8); f_("i16", i16); f_("u16", u16); f_("i32", i32); f_("u32", u32); f_("i64", i64); f_("u64", u64); f_("f", f); f_("d", d); f_("s", s); }
	template <typename F> void each(F&& f_) const { const_cast<ZScalars*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
	const char* wrongDefault() const { return b && i8 == -8 && u8 == 8 && i16 == -16 && u16 == 16 && i32 == -32 && u32 == 32 && i64 == -64 && u64 == 64 && f == 0.5f && d == -0.25 && s == "text" ? nullptr : "ZScalars"; }
	static constexpr const char* typeName = "ZScalars";
};

struct ZContainers : Bomba::Serialisable<ZContainers> {
	std::vector<int16_t> ints = key<"ints">;
	std::vector<std::string> texts = key<"texts">;
	std::array<float, 3> floats = key<"floats">;
	std::map<std::string, int64_t> numbers = key<"numbers">;
	std::vector<std::vector<uint8_t>> nested = key<"nested">;
	std::map<std::string, std::vector<std::string>> lists = key<"lists">;
	std::vector<ZScalars> objects = key<"objects">;
	std::map<std::string, ZScalars> table = key<"table">;
	std::array<std::vector<int32_t>, 2> pair = key<"pair">;
	template <typename F> void each(F&& f) { f("ints", ints); f("texts", texts); f("floats", floats); f("numbers", numbers); f("nested", nested); f("lists", lists); f("objects", objects); f("table", table); f("pair", pair); }
	template <typename F> void each(F&& f_) const { const_cast<ZContainers*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
	const char* wrongDefault() const { return ints.empty() && texts.empty() && numbers.empty() && isBlank(floats) ? nullptr : "ZContainers"; }
	static constexpr const char* typeName = "ZContainers";
};

struct ZOptionals : Bomba::Serialisable<ZOptionals> {
	Bomba::Optional<int32_t> i = key<"i">;
	Bomba::Optional<std::string> s = key<"s">;
	std::unique_ptr<ZScalars> p = key<"p">;
	std::shared_ptr<ZContainers> sp = key<"sp">;
	Bomba::Optional<bool> b = key<"b">;
	Bomba::Optional<std::vector<int32_t>> v = key<"v">;
	std::vector<Bomba::Optional<double>> vo = key<"vo">;
	std::map<std::string, Bomba::Optional<std::string>> mo = key<"mo">;
	std::vector<std::unique_ptr<int32_t>> vp = key<"vp">;
	int32_t last = key<"last"> = 7;
	template <typename F> void each(F&& f) { f("i", i); f("s", s); f("p", p); f("sp", sp); f("b", b); f("v", v); f("vo", vo); f("mo", mo); f("vp", vp); f("last", last); }
	template <typename F> void each(F&& f_) const { const_cast<ZOptionals*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
	const char* wrongDefault() const { return !i && !s && !p && !sp && last == 7 ? nullptr : "ZOptionals"; }
	static constexpr const char* typeName = "ZOptionals";
};

struct ZTree : Bomba::Serialisable<ZTree> {
	std::string label = key<"label"> = "node";
	ZScalars own = key<"own">;
	ZOptionals inner = key<"inner">;
	std::vector<ZOptionals> more = key<"more">;
	bool done = key<"done"> = false;
	template <typename F> void each(F&& f) { f("label", label); f("own", own); f("inner", inner); f("more", more); f("done", done); }
	template <typename F> void each(F&& f_) const { const_cast<ZTree*>(this)->each([&] (std::string_view n, auto& m) { f_(n, std::as_const(m)); }); }
	const char* wrongDefault() const { return label == "node" && !own.wrongDefault() && !done ? nullptr : "ZTree"; }
	static constexpr const char* typeName = "ZTree";
};

struct OtherBase {
	int base1 = 0x0d0d0d0d;
	char base2 = 'b';
	bool intact() const { return base1 == 0x0d0d0d0d && base2 == 'b'; }
};
struct OtherVirtualBase {
	int64_t vbase = -13;
	virtual int answer() const { return 42; }
	virtual ~OtherVirtualBase() = default;
	bool intact() const { return vbase == -13 && answer() == 42; }
};

#ifdef ZOO_GENERATED
#include ZOO_GENERATED
#endif
#define ZOO_TYPES_FIXED(X) X(ZScalars) X(ZContainers) X(ZOptionals) X(ZTree)
#ifndef ZOO_TYPES_G
#define ZOO_TYPES_G(X)
#endif
#define ZOO_TYPES(X) ZOO_TYPES_FIXED(X) ZOO_TYPES_G(X)
#define ZOO_COUNT_ONE(T) +1
constexpr int zooCount = 0 ZOO_TYPES(ZOO_COUNT_ONE);

template <typename F>
void withZooType(int index, F&& f) {
	int i = 0;
#define ZOO_DISPATCH(T) if (i++ == index) { f.template operator()<T>(); return; }
	ZOO_TYPES(ZOO_DISPATCH)
#undef ZOO_DISPATCH
}
#endif
