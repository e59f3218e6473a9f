// The JavaScript library running in node, driven by lines of JSON
#ifndef VERIF_JS_NODE
#define VERIF_JS_NODE
#include "rpc_model.hpp"
#include "bomba_http.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include <csignal>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace Bomba;

namespace {
std::optional<JVal> tryParse(std::string_view text) { try { return JsonParser::parse(text); } catch (JsonSyntax&) { return std::nullopt; } }

// The interpreter with the client inside
struct Node {
	int in = -1, out = -1;
	std::string buffer, driverName;
	explicit Node(const char* driver) : driverName(driver) {}
	void start() {
		signal(SIGPIPE, SIG_IGN);
		std::string repo = getenv("VERIF_REPO"), dir = getenv("VERIF_DIR"), work = getenv("VERIF_WORK");
		std::string folder = work + "/" + driverName + std::to_string(getpid()), module = folder + "/bomba.js", errors = work + "/node.err";
		mkdir(folder.c_str(), 0755);
		if (FILE* f = fopen((folder + "/package.json").c_str(), "wb")) { fputs("{\"type\":\"module\"}", f); fclose(f); }
		FILE* from = fopen((repo + "/public_html/bomba.js").c_str(), "rb");
		FILE* to = fopen(module.c_str(), "wb");
		if (!from || !to) throw std::runtime_error("bomba.js is not there");
		char b[4096];
		for (size_t n; (n = fread(b, 1, sizeof(b), from)) > 0;) fwrite(b, 1, n, to);
		fclose(from);
		fclose(to);
		int a[2], c[2];
		if (pipe2(a, O_CLOEXEC) || pipe2(c, O_CLOEXEC)) throw std::runtime_error("no pipes");
		if (fork() == 0) {
			dup2(a[0], 0);
			dup2(c[1], 1);
			dup2(open(errors.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644), 2);
			std::string driver = dir + "/lib/" + driverName + ".mjs";
			execlp("node", "node", "--max-old-space-size=1000", driver.c_str(), module.c_str(), nullptr);
			_exit(127);
		}
		close(a[0]);
		close(c[1]);
		in = a[1];
		out = c[0];
	}
	JVal read(H& h) {
		while (true) {
			size_t end = buffer.find('\n');
			if (end != std::string::npos) {
				std::string line = buffer.substr(0, end);
				buffer.erase(0, end + 1);
				auto parsed = tryParse(line);
				if (!parsed) h.fail("harness-driver", line.substr(0, 500));
				if (auto broken = parsed->find("broken")) h.fail("harness-driver-broken", broken->s);
				return *parsed;
			}
			char b[65536];
			ssize_t n = ::read(out, b, sizeof(b));
			if (n <= 0) {
				std::string errors;
				if (FILE* f = fopen((std::string(getenv("VERIF_WORK")) + "/node.err").c_str(), "rb")) { char e[3000]; errors.assign(e, fread(e, 1, sizeof(e), f)); fclose(f); }
				close(in); close(out); in = out = -1; buffer.clear();
				h.fail("client-ended", errors);
			}
			buffer.append(b, size_t(n));
		}
	}
	static std::string text(const JVal& v) { Rng rng(1); JsonSpeller s(rng); s.layout = 0; s.shuffle = s.respell = false; return s.print(v); }
	void write(const JVal& v) {
		std::string line = text(v);
		for (char& c : line) if (c == '\n') c = ' ';
		line += '\n';
		for (size_t at = 0; at < line.size();) {
			ssize_t n = ::write(in, line.data() + at, line.size() - at);
			if (n <= 0) return;
			at += size_t(n);
		}
	}
	bool talking = false; // Something is expected from this side
	JVal ask(H& h, const JVal& v, bool toContinue = false) {
		if (talking && !toContinue && in >= 0) { close(in); close(out); in = out = -1; buffer.clear(); }
		talking = false;
		if (in < 0) { start(); read(h); }
		write(v);
		return read(h);
	}
};

JVal makeObject(std::initializer_list<std::pair<std::string, JVal>> members) { JVal r = JVal::object(); for (auto& m : members) r.obj.push_back(m); return r; }
JVal strings(const std::vector<std::string>& v) { JVal r = JVal::array(); for (auto& s : v) r.arr.push_back(JVal::string(s)); return r; }

// JavaScript has no integers over 2^53, the client is not expected to keep what it cannot hold, and JSON it writes has no negative zero
template <typename T>
void representable(T& v) {
	if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, std::string>) return;
	else if constexpr (std::is_integral_v<T>) {
		if constexpr (sizeof(T) == 8) {
			if (std::is_unsigned_v<T> ? uint64_t(v) > (1ull << 53) : (int64_t(v) > (1ll << 53) || int64_t(v) < -(1ll << 53))) v = T(int64_t(v) % (1ll << 53));
			if constexpr (std::is_unsigned_v<T>) if (uint64_t(v) > (1ull << 53)) v = T(uint64_t(v) >> 11);
		}
	} else if constexpr (std::is_floating_point_v<T>) { if (v == 0) v = 0; }
	else if constexpr (ZooStruct<T>) v.each([&] (std::string_view, auto& m) { representable(m); });
	else if constexpr (IsMap<T>::value) { v.erase("__proto__"); for (auto& it : v) representable(it.second); }
	else if constexpr (IsVector<T>::value || IsArray<T>::value) { for (auto& it : v) representable(it); }
	else if (v) representable(*v);
}

struct Call {
	size_t leaf;
	std::string text;
	JVal given = JVal::object();
	std::function<bool(const Rpc::Invocation&)> sameArgs;
	std::function<JVal(size_t)> result;
	std::vector<size_t> present; // Arguments that are not omitted
};
const FillLimits limits{40, 2, 5};

Call makeCall(H& h, Rpc::Tree& tree, size_t leaf, bool complete) {
	Call r;
	r.leaf = leaf;
	Rpc::withProcedure(tree.leaves[leaf].id, [&] <typename P> () {
		auto args = std::make_shared<typename P::Args>();
		Rpc::fillArgs(h.rng, *args, limits);
		JVal list = JVal::array();
		size_t i = 0;
		std::apply([&] (auto&... a) { ([&] {
			representable(a);
			JVal value = model(a);
			// What can be omitted without changing the meaning: empty optionals and false that is not sent
			bool omittable = value.kind == JVal::NUL || (value.kind == JVal::BOOL && !value.b && P::omits(i));
			if (omittable && (value.kind == JVal::NUL || h.rng.chance(50))) list.arr.push_back(makeObject({{"absent", JVal::string(h.rng.chance(50) ? "null" : "undefined")}}));
			else {
				list.arr.push_back(makeObject({{"value", value}}));
				r.present.push_back(i);
			}
			i++;
		}(), ...); }, *args);
		r.given = makeObject({{"path", strings(tree.leaves[leaf].path)}, {"args", list}, {"byConstructor", JVal::boolean(h.rng.chance(50))}});
		r.text = "procedure " + std::to_string(P::id) + Rpc::showAll(*args);
		r.sameArgs = [args] (const Rpc::Invocation& call) { return call.id == P::id && Rpc::sameAll(*static_cast<typename P::Args*>(call.args.get()), *args); };
		r.result = [] (size_t order) -> JVal {
			if constexpr (std::is_void_v<typename P::Ret>) return JVal::null();
			else return model(Rpc::returned<typename P::Ret>(*Rpc::world, order));
		};
	});
	return r;
}

// As sameJson, but numbers are compared with the precision of JavaScript
bool sameInJavaScript(const JVal& a, const JVal& b) {
	if (a.kind != b.kind) return false;
	if (a.kind == JVal::NUM) return a.asDouble() == b.asDouble();
	if (a.kind == JVal::ARR) {
		if (a.arr.size() != b.arr.size()) return false;
		for (size_t i = 0; i < a.arr.size(); i++) if (!sameInJavaScript(a.arr[i], b.arr[i])) return false;
		return true;
	}
	if (a.kind == JVal::OBJ) {
		std::map<std::string, const JVal*> left, right;
		for (auto& m : a.obj) if (m.first != "__proto__" && m.second.kind != JVal::NUL) left[m.first] = &m.second; // Members without value may be left out
		for (auto& m : b.obj) if (m.first != "__proto__" && m.second.kind != JVal::NUL) right[m.first] = &m.second;
		if (left.size() != right.size()) return false;
		for (auto& [name, value] : left) if (!right.count(name) || !sameInJavaScript(*value, *right[name])) return false;
		return true;
	}
	return sameJson(a, b);
}

struct Starter : IWriteStarter {
	std::string written;
	ExpandingBuffer<> buffer;
	std::string code;
	void writeUnknownSize(std::string_view resourceType, Callback<void(GeneralisedBuffer&)> filler) override { filler(buffer); written.append(std::string_view(buffer)); }
	void writeKnownSize(std::string_view, int64_t, Callback<void(GeneralisedBuffer&)> filler) override { filler(buffer); written.append(std::string_view(buffer)); }
};
}
#endif
