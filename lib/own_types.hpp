// Types an application may give to the library in place of the default ones: a string, a container of characters, a buffer, a format of numbers
#ifndef VERIF_OWN_TYPES
#define VERIF_OWN_TYPES
#include <bit>
#include <deque>
#include "hostile.hpp"
#include "bomba_core.hpp"

class Rope { // A string with nothing but what the documentation demands, in memory of exactly its size, without a terminating zero
	char* kept = nullptr;
	size_t length = 0;
	void append(std::string_view v) {
		if (v.empty()) return;
		char* bigger = static_cast<char*>(malloc(length + v.size()));
		if (length) memcpy(bigger, kept, length);
		memcpy(bigger + length, v.data(), v.size());
		free(kept);
		kept = bigger;
		length += v.size();
	}
public:
	Rope() = default;
	Rope(const Rope& other) { append(other); }
	Rope(Rope&& other) noexcept { std::swap(kept, other.kept); std::swap(length, other.length); }
	Rope& operator=(const Rope& other) { if (&other != this) { clear(); append(other); } return *this; }
	Rope& operator=(Rope&& other) noexcept { std::swap(kept, other.kept); std::swap(length, other.length); return *this; }
	~Rope() { free(kept); }
	Rope& operator+=(char c) { append({&c, 1}); return *this; }
	Rope& operator+=(const char* c) { append(c); return *this; }
	Rope& operator+=(std::string_view c) { append(c); return *this; }
	Rope& operator+=(const Rope& c) { append(c); return *this; }
	operator std::string_view() const { return {kept, length}; }
	void clear() { free(kept); kept = nullptr; length = 0; }
};

class Chars { // Container of characters of exactly its size
	char* kept = nullptr;
	size_t length = 0;
public:
	Chars() = default;
	Chars(const Chars&) = delete;
	~Chars() { free(kept); }
	char* data() { return kept; }
	size_t size() const { return length; }
	bool empty() const { return !length; }
	char* begin() { return kept; }
	char* end() { return kept + length; }
	const char* begin() const { return kept; }
	const char* end() const { return kept + length; }
	char& operator[](size_t i) { return kept[i]; }
	void resize(size_t wanted) {
		char* other = wanted ? static_cast<char*>(malloc(wanted)) : nullptr;
		if (wanted) memset(other, 0x5b, wanted);
		if (length && wanted) memcpy(other, kept, std::min(length, wanted));
		free(kept);
		kept = other;
		length = wanted;
	}
};

template <size_t First, size_t Step>
class StepBuffer : public Bomba::GeneralisedBuffer { // Grows by a constant, moves every time
	char* kept;
	size_t capacity = First;
	bool bufferFull() override {
		char* bigger = static_cast<char*>(malloc(capacity + Step));
		memcpy(bigger, kept, capacity);
		free(kept);
		kept = bigger;
		capacity += Step;
		moveBuffer({kept + capacity - Step, Step});
		return true;
	}
	StepBuffer(char* memory) : GeneralisedBuffer({memory, First}), kept(memory) {}
public:
	StepBuffer() : StepBuffer(static_cast<char*>(malloc(First))) {}
	StepBuffer(const StepBuffer&) = delete;
	~StepBuffer() { free(kept); }
	operator std::span<char>() { return {kept, capacity - size_t(remainingSpace())}; }
	operator std::string_view() const { return {kept, capacity - size_t(remainingSpace())}; }
	void clear() { restart({kept, capacity}); }
};

template <typename Out>
struct BigEndian { // Numbers with the most significant byte first
	template <typename T> static std::array<char, sizeof(T)> prepareNumber(T value) {
		auto r = std::bit_cast<std::array<char, sizeof(T)>>(value);
		std::reverse(r.begin(), r.end());
		return r;
	}
	template <typename T> static void writeNumber(T value, Bomba::SerialisationFlags::Flags flags, Out& output) {
		Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) {
			typed = value;
			auto bytes = prepareNumber(typed);
			output += std::string_view(bytes.data(), bytes.size());
		});
	}
	template <typename T> static std::tuple<bool, T, int> readNumber(Bomba::SerialisationFlags::Flags flags, std::span<const char> data) {
		return Bomba::SerialisationFlags::typeWithFlags(flags, [&] (auto typed) -> std::tuple<bool, T, int> {
			if (data.size() < sizeof(typed)) return {false, 0, 0};
			std::array<char, sizeof(typed)> bytes;
			memcpy(bytes.data(), data.data(), bytes.size());
			std::reverse(bytes.begin(), bytes.end());
			memcpy(&typed, bytes.data(), bytes.size());
			return {true, T(typed), int(sizeof(typed))};
		});
	}
};
#endif
