// Binary format: bytes compared with an encoder written from the documentation, round trips, sizes not fitting
#include "zoo.hpp"
#include "bomba_binary_protocol.hpp"

template <typename SizeType, int Depth>
using Format = Bomba::BinaryFormat<std::string, SizeType, Bomba::LittleEndianNumberFormat<std::string>, Depth>;

template <typename T, typename SizeType>
void test(H& h, FillLimits lim) {
	lim.maybeHuge(h.rng);
	using F = Format<SizeType, 8>;
	T original, target;
	fill(h.rng, original, lim);
	if (lim.wasHuge) h.count("huge_containers");
	bool prior = h.rng.chance(70);
	if (prior) fill(h.rng, target, lim);
	BinaryModel<SizeType> m;
	m.encode(original);
	std::string bytes;
	bool refused = false;
	try {
		bytes = original.template serialise<F>();
	} catch (std::exception& e) {
		refused = true;
	}
	h.sign(T::typeName); h.sign(std::to_string(sizeof(SizeType))); h.sign(m.out);
	h.count("size_type_" + std::to_string(8 * sizeof(SizeType)) + (std::is_signed_v<SizeType> ? "_signed" : ""));
	if (!m.fits) {
		h.check(refused, "oversized-not-refused", [&] { return std::string(T::typeName) + ": something longer than the size type allows was written as " + hex(bytes); });
		h.count("oversized_refused");
		return;
	}
	h.check(!refused, "valid-value-refused", [&] { return std::string(T::typeName) + ": " + JsonSpeller(h.rng).print(model(original)); });
	h.check(bytes == m.out, "wrong-layout", [&] {
		size_t at = 0;
		while (at < bytes.size() && at < m.out.size() && bytes[at] == m.out[at]) at++;
		return std::string(T::typeName) + ": differs at byte " + std::to_string(at) + ": " + hex(bytes) + "\nexpected " + hex(m.out); });
	h.sample(std::string(T::typeName) + ": " + hex(bytes, 150));
	h.count("bytes_compared", bytes.size());
	// Trailing bytes belong to somebody else
	std::string followed = bytes;
	if (h.rng.chance(30)) followed += randomText(h.rng);
	struct Exposed : T { // To know where reading ended
		bool read(Bomba::IStructuredInput& in) { return this->deserialiseInternal(in, Bomba::SerialisationFlags::NONE); }
	};
	bool ok = target.template deserialise<F>(std::string_view(followed));
	h.check(ok, "reading-reported-failure", [&] { return std::string(T::typeName) + ": " + hex(bytes); });
	h.check(same(original, target), "not-restored", [&] {
		return std::string(T::typeName) + (prior ? " (target had other contents)" : "") + ": " + hex(bytes) + "\nread as " + JsonSpeller(h.rng).print(model(target)) + "\ninstead of " + JsonSpeller(h.rng).print(model(original)); });
	Exposed exposed;
	typename F::Input in{std::string_view(followed)};
	exposed.read(in);
	h.check(in.position() == int(bytes.size()), "consumed-other-count", [&] { return std::string(T::typeName) + ": " + std::to_string(in.position()) + " of " + std::to_string(bytes.size()); });
	h.count("round_trips");
}

void runCase(H& h) {
	withZooType(int(h.caseNo % zooCount), [&] <typename T> () {
		int mode = int(h.rng.below(8));
		if (mode < 3) test<T, uint16_t>(h, {});
		else if (mode < 5) test<T, uint32_t>(h, {});
		else if (mode == 5) test<T, uint8_t>(h, {});
		else if (mode == 6) test<T, int16_t>(h, {});
		else if (h.rng.chance(20)) test<T, uint16_t>(h, {70000, 3, 12});
		else test<T, uint8_t>(h, {600, 3, 300});
	});
}
