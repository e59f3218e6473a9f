// C28: what is written and read does not depend on the types of strings, buffers and numbers given to the library
#include "zoo.hpp"
#include "own_types.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
using namespace Bomba;

namespace {
template <typename B> std::string contents(B& b) { return std::string(std::string_view(b)); }

// Writes into an output of some type behind what is there
template <typename Format, typename Output, typename T>
void write(H& h, T& original, const std::string& expected, const char* name) {
	auto output = std::make_unique<Output>();
	std::string before;
	if (h.rng.chance(40)) {
		before = randomBytes(h.rng, h.rng.size(10, 60));
		*output += std::string_view(before);
	}
	original.template serialise<Format>(*output);
	std::string got = contents(*output);
	h.check(got == before + expected, "written-differently", [&] { return std::string(T::typeName) + " through " + name + ": " + jsonQuote(got, 600) + "\ninstead of " + jsonQuote(before + expected, 600); });
	h.count(std::string("written_") + name);
}

template <typename Format, typename Output, typename T> // The type of the output isn't that the format was made for, but related
void writeGeneral(H& h, T& original, const std::string& expected, const char* name) {
	Output output;
	GeneralisedBuffer& general = output;
	original.template serialise<Format>(general);
	h.check(contents(output) == expected, "written-differently", [&] { return std::string(T::typeName) + " through " + name + ": " + jsonQuote(contents(output), 600) + "\ninstead of " + jsonQuote(expected, 600); });
	h.count(std::string("written_") + name);
}

template <typename Format, int N, typename T>
void writeLimited(H& h, T& original, const std::string& expected, const char* name) {
	auto output = std::make_unique<NonExpandingBuffer<N>>();
	original.template serialise<Format>(*output);
	std::string got = contents(*output);
	h.check(got == expected.substr(0, N), "not-truncated", [&] { return std::string(T::typeName) + " through " + name + ": " + jsonQuote(got, 600) + "\ninstead of " + jsonQuote(expected.substr(0, N), 600); });
	h.count(std::string("written_") + name);
	if (expected.size() > N) h.count("truncated");
}

template <typename Format, int N, typename T>
void writeStreaming(H& h, T& original, const std::string& expected) {
	std::string got;
	int64_t flushes = 0, largest = 0;
	{
		auto writer = [&] (std::span<const char> piece) {
			ExactBytes kept(std::string_view(piece.data(), piece.size()));
			got += kept.view();
			flushes++;
			largest = std::max<int64_t>(largest, int64_t(piece.size()));
		};
		NonOwningStreamingBuffer<N> output(writer); // Does not own it
		GeneralisedBuffer& general = output;
		original.template serialise<Format>(general);
	}
	h.check(got == expected && largest <= N, "written-differently", [&] { return std::string(T::typeName) + " streamed by " + std::to_string(N) + ": " + jsonQuote(got, 600) + "\ninstead of " + jsonQuote(expected, 600); });
	h.count("written_streaming");
	h.count("flushes", flushes);
}

template <typename Format, typename T, typename Source>
void read(H& h, const T& original, const Source& source, bool prior, const FillLimits& lim, const char* name) {
	T target;
	if (prior) fill(h.rng, target, lim);
	bool ok = false;
	try { ok = target.template deserialise<Format>(source); } catch (std::exception& e) { h.fail("not-read", std::string(T::typeName) + " by " + name + ": " + e.what() + "\nfrom " + jsonQuote(std::string_view(source), 600)); }
	h.check(ok && same(target, original), "read-differently", [&] { return std::string(T::typeName) + " by " + name + (ok ? "" : " unsuccessfully") + " from " + jsonQuote(std::string_view(source), 600); });
	h.count(std::string("read_") + name);
}

template <typename T>
void json(H& h, T& original, bool prior, const FillLimits& lim) {
	std::string text = original.template serialise<BasicJson<>>();
	h.sign(T::typeName); h.sign(text);
	h.sample(std::string(T::typeName) + " " + jsonQuote(text, 200));
	write<BasicJson<>, std::string>(h, original, text, "string");
	write<BasicJson<Rope>, Rope>(h, original, text, "rope");
	write<BasicJson<Rope, std::string>, std::string>(h, original, text, "string");
	using Small = ExpandingBuffer<16>;
	using Other = ExpandingBuffer<50, std::vector<char>>;
	using OtherOwn = ExpandingBuffer<33, Chars>;
	using Step = StepBuffer<7, 13>;
	switch (h.rng.below(4)) {
	case 0: write<BasicJson<std::string, Small>, Small>(h, original, text, "expanding"); break;
	case 1: write<BasicJson<std::string, Other>, Other>(h, original, text, "expanding"); break;
	case 2: write<BasicJson<Rope, OtherOwn>, OtherOwn>(h, original, text, "expanding"); break;
	default: write<BasicJson<Rope, Step>, Step>(h, original, text, "own_buffer");
	}
	if (h.rng.chance(50)) writeGeneral<BasicJson<Rope, GeneralisedBuffer>, Step>(h, original, text, "own_buffer");
	else writeGeneral<BasicJson<std::string, GeneralisedBuffer>, OtherOwn>(h, original, text, "expanding");
	if (h.rng.chance(50)) writeLimited<BasicJson<std::string, NonExpandingBuffer<60>>, 60>(h, original, text, "limited");
	else writeLimited<BasicJson<Rope, NonExpandingBuffer<500>>, 500>(h, original, text, "limited");
	if (h.rng.chance(50)) writeStreaming<BasicJson<Rope, GeneralisedBuffer>, 7>(h, original, text);
	else writeStreaming<BasicJson<std::string, GeneralisedBuffer>, 64>(h, original, text);

	Rope exact;
	exact += std::string_view(text);
	read<BasicJson<Rope>>(h, original, exact, prior, lim, "rope");
	read<BasicJson<std::string, GeneralisedBuffer>>(h, original, exact, prior, lim, "string");
	ExactBytes bytes(text);
	std::string_view view = bytes.view();
	read<BasicJson<Rope, Small>>(h, original, view, prior, lim, "rope");
}

template <typename SizeType> struct BigEndianModel : BinaryModel<SizeType> { // Numbers written in the other order
	using Base = BinaryModel<SizeType>;
	template <typename N> void number(N v) { size_t before = this->out.size(); Base::number(v); std::reverse(this->out.begin() + before, this->out.end()); }
	void size(uint64_t n) { if (n > uint64_t(std::numeric_limits<SizeType>::max())) this->fits = false; number(SizeType(n)); }
	template <typename T> void encode(const T& v) {
		if constexpr (std::is_same_v<T, bool>) this->out += char(v ? 1 : 0);
		else if constexpr (std::is_arithmetic_v<T>) number(v);
		else if constexpr (std::is_same_v<T, std::string>) { size(v.size()); this->out += v; }
		else if constexpr (ZooStruct<T>) v.each([&] (std::string_view, auto& m) { encode(m); });
		else if constexpr (IsVector<T>::value || IsArray<T>::value) { size(v.size()); for (auto& it : v) encode(it); }
		else if constexpr (IsMap<T>::value) { size(v.size()); for (auto& it : v) { size(it.first.size()); this->out += it.first; encode(it.second); } }
		else { this->out += char(v ? 1 : 0); if (v) encode(*v); }
	}
};

template <typename SizeType, int MaxDepth, typename T>
void binary(H& h, T& original, bool prior, const FillLimits& lim) {
	BinaryModel<SizeType> little;
	little.encode(original);
	BigEndianModel<SizeType> big;
	big.encode(original);
	if (!little.fits) { h.count("does_not_fit"); return; }
	using Step = StepBuffer<5, 11>;
	using Other = ExpandingBuffer<20, Chars>;
	write<BinaryFormat<std::string, SizeType, LittleEndianNumberFormat<std::string>, MaxDepth>, std::string>(h, original, little.out, "string");
	write<BinaryFormat<std::string, SizeType, BigEndian<std::string>, MaxDepth>, std::string>(h, original, big.out, "big_endian");
	write<BinaryFormat<Rope, SizeType, LittleEndianNumberFormat<Rope>, MaxDepth>, Rope>(h, original, little.out, "rope");
	write<BinaryFormat<Step, SizeType, BigEndian<Step>, MaxDepth>, Step>(h, original, big.out, "big_endian");
	write<BinaryFormat<Other, SizeType, LittleEndianNumberFormat<Other>, MaxDepth>, Other>(h, original, little.out, "expanding");
	writeLimited<BinaryFormat<NonExpandingBuffer<60>, SizeType, LittleEndianNumberFormat<NonExpandingBuffer<60>>, MaxDepth>, 60>(h, original, little.out, "limited");
	writeStreaming<BinaryFormat<GeneralisedBuffer, SizeType, BigEndian<GeneralisedBuffer>, MaxDepth>, 9>(h, original, big.out);
	Rope exact;
	exact += std::string_view(little.out);
	read<BinaryFormat<Rope, SizeType, LittleEndianNumberFormat<Rope>, MaxDepth>>(h, original, exact, prior, lim, "rope");
	Rope exactBig;
	exactBig += std::string_view(big.out);
	read<BinaryFormat<Step, SizeType, BigEndian<Step>, MaxDepth>>(h, original, exactBig, prior, lim, "big_endian");
}

// Members of types of the application
class Word { // A string no longer than it can be, without dynamic allocation
	char letters[40];
	uint8_t length = 0;
public:
	Word() = default;
	explicit Word(std::string_view v) { *this = v; }
	Word& operator=(std::string_view v) { length = uint8_t(std::min<size_t>(v.size(), sizeof(letters))); if (length) memcpy(letters, v.data(), length); return *this; }
	operator std::string_view() const { return {letters, length}; }
	bool operator<(const Word& other) const { return std::string_view(*this) < std::string_view(other); }
	bool operator==(const Word& other) const { return std::string_view(*this) == std::string_view(other); }
};
template <typename T> struct Owner { // Not one of the standard pointers
	T* kept = nullptr;
	Owner() = default;
	explicit Owner(T* p) : kept(p) {}
	Owner(Owner&& o) noexcept : kept(o.kept) { o.kept = nullptr; }
	Owner& operator=(Owner&& o) noexcept { std::swap(kept, o.kept); return *this; }
	~Owner() { delete kept; }
	T& operator*() const { return *kept; }
	void reset() { delete kept; kept = nullptr; }
	explicit operator bool() const { return kept; }
};
struct Mine : Serialisable<Mine> {
	Word word = key<"word">;
	std::deque<int32_t> deque = key<"deque">;
	std::unordered_map<std::string, int32_t> unordered = key<"unordered">;
	std::map<Word, Word> words = key<"words">;
	std::vector<std::optional<int32_t>> optionals = key<"optionals">;
	std::unique_ptr<Word> pointed = key<"pointed">;
	std::vector<Owner<std::deque<Word>>> owners = key<"owners">;
	std::array<Word, 2> pair = key<"pair">;
	int32_t last = key<"last"> = 3;

	static Word randomWord(Rng& rng) {
		std::string text = randomText(rng, 10, 40);
		size_t end = std::min<size_t>(text.size(), 40);
		while (end && end < text.size() && (uint8_t(text[end]) & 0xc0) == 0x80) end--; // No part of a character
		return Word(std::string_view(text).substr(0, end));
	}
	void randomise(Rng& rng) {
		word = randomWord(rng);
		deque.clear();
		for (int n = int(rng.size(4, 700)); n > 0; n--) deque.push_back(int32_t(rng.next()));
		unordered.clear();
		for (int n = int(rng.size(3, 20)); n > 0; n--) unordered[randomText(rng, 5, 30)] = int32_t(rng.next());
		words.clear();
		for (int n = int(rng.size(3, 20)); n > 0; n--) words[randomWord(rng)] = randomWord(rng);
		optionals.clear();
		for (int n = int(rng.size(3, 20)); n > 0; n--) optionals.push_back(rng.chance(50) ? std::optional<int32_t>(int32_t(rng.next())) : std::nullopt);
		if (rng.chance(50)) pointed = std::make_unique<Word>(randomWord(rng)); else pointed.reset();
		owners.clear();
		for (int n = int(rng.size(3, 6)); n > 0; n--) {
			owners.emplace_back();
			if (rng.chance(30)) continue;
			owners.back() = Owner<std::deque<Word>>(new std::deque<Word>);
			for (int m = int(rng.size(3, 6)); m > 0; m--) (*owners.back()).push_back(randomWord(rng));
		}
		for (auto& it : pair) it = randomWord(rng);
		last = int32_t(rng.next());
	}
	static JVal text(std::string_view v) { return JVal::string(std::string(v)); }
	JVal describe() const {
		JVal r = JVal::object();
		auto list = [&] (const char* name) -> JVal& { r.obj.emplace_back(name, JVal::array()); return r.obj.back().second; };
		r.obj.emplace_back("word", text(word));
		for (JVal& l = list("deque"); auto it : deque) l.arr.push_back(JVal::integer(it));
		JVal u = JVal::object();
		for (auto& it : unordered) u.obj.emplace_back(it.first, JVal::integer(it.second));
		r.obj.emplace_back("unordered", u);
		JVal w = JVal::object();
		for (auto& it : words) w.obj.emplace_back(std::string(std::string_view(it.first)), text(it.second));
		r.obj.emplace_back("words", w);
		for (JVal& l = list("optionals"); auto& it : optionals) l.arr.push_back(it ? JVal::integer(*it) : JVal::null());
		r.obj.emplace_back("pointed", pointed ? text(*pointed) : JVal::null());
		for (JVal& l = list("owners"); auto& it : owners) {
			JVal inner = it ? JVal::array() : JVal::null();
			if (it) for (auto& word : *it) inner.arr.push_back(text(word));
			l.arr.push_back(inner);
		}
		for (JVal& l = list("pair"); auto& it : pair) l.arr.push_back(text(it));
		r.obj.emplace_back("last", JVal::integer(last));
		return r;
	}
	bool operator==(const Mine& o) const {
		if (!(word == o.word && deque == o.deque && unordered == o.unordered && words == o.words && optionals == o.optionals && pair == o.pair && last == o.last)) return false;
		if (bool(pointed) != bool(o.pointed) || (pointed && !(*pointed == *o.pointed)) || owners.size() != o.owners.size()) return false;
		for (size_t i = 0; i < owners.size(); i++) if (bool(owners[i]) != bool(o.owners[i]) || (owners[i] && *owners[i] != *o.owners[i])) return false;
		return true;
	}
};

template <typename Format>
void roundTrip(H& h, Mine& original, bool prior, const char* name) {
	Mine target;
	if (prior) target.randomise(h.rng);
	std::string written;
	bool ok = false;
	try {
		original.serialise<Format>(written);
		ExactBytes exact(written);
		ok = target.deserialise<Format>(exact.view());
	} catch (std::exception& e) { h.fail("own-members", std::string(name) + ": " + e.what() + " at " + jsonQuote(written, 600)); }
	h.check(ok && target == original, "own-members", [&] { return std::string(name) + " lost " + JsonSpeller(h.rng).print(original.describe()) + "\nwritten as " + jsonQuote(written, 1000) + "\nread as " + JsonSpeller(h.rng).print(target.describe()); });
	h.count("own_members");
}

void ownMembers(H& h) {
	Mine original;
	original.randomise(h.rng);
	bool prior = h.rng.chance(70);
	std::string text = original.serialise<BasicJson<>>();
	h.sign(text);
	JVal parsed;
	try { parsed = JsonParser::parse(text); } catch (JsonSyntax& e) { h.fail("malformed-output", std::string(e.what()) + " in " + text); }
	JVal wanted = original.describe();
	h.check(sameJson(wanted, parsed), "own-members", [&] { return text + "\ninstead of " + JsonSpeller(h.rng).print(wanted); });
	roundTrip<BasicJson<>>(h, original, prior, "JSON");
	roundTrip<BasicJson<Rope, std::string>>(h, original, prior, "JSON with own string");
	roundTrip<BinaryFormat<std::string, uint32_t, LittleEndianNumberFormat<std::string>, 4>>(h, original, prior, "binary");
	roundTrip<BinaryFormat<std::string, uint32_t, BigEndian<std::string>, 4>>(h, original, prior, "big endian binary");
	// Foreign text
	Mine target;
	if (prior) target.randomise(h.rng);
	std::string foreign = JsonSpeller(h.rng).print(wanted);
	bool ok = target.deserialise<BasicJson<Rope>>(foreign);
	h.check(ok && target == original, "own-members", [&] { return "read from " + foreign + "\nas " + JsonSpeller(h.rng).print(target.describe()); });
}
}

void runCase(H& h) {
	if (h.rng.chance(15)) return ownMembers(h);
	withZooType(int(h.caseNo % zooCount), [&] <typename T> () {
		FillLimits lim;
		if (h.rng.chance(10)) lim = {2000, 3, 40};
		T original;
		fill(h.rng, original, lim);
		bool prior = h.rng.chance(70);
		if (h.rng.chance(50)) json(h, original, prior, lim);
		else if (h.rng.chance(50)) binary<uint16_t, 8>(h, original, prior, lim);
		else binary<uint32_t, 8>(h, original, prior, lim);
	});
}
