// Parts for observing a real TCP server of the library: what its application answers, clients that know what they have to get
#ifndef VERIF_TCP_WORLD
#define VERIF_TCP_WORLD
#include <mutex>
#include <thread>
#include <dirent.h>
#include "http_model.hpp"
#include "loopback.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_tcp_server.hpp"

namespace Tcp {
inline std::string contentOf(std::string_view what, size_t size) { // Recognisable, different everywhere
	std::string r(what);
	r += ':';
	uint64_t state = hashBytes(what);
	while (r.size() < size) {
		state = state * 6364136223846793005ull + 1442695040888963407ull;
		r += char('a' + (state >> 59));
	}
	return r;
}
// Paths are /<mode><size>/<anything>
struct App : Bomba::IHttpGetResponder, Bomba::IHttpPostResponder {
	std::atomic<int64_t> calls = 0;
	size_t most = 200000; // Hostile requests could ask for anything
	bool act(std::string_view path, const std::string& what, Bomba::IWriteStarter& writer) {
		calls++;
		char mode = path.size() > 1 ? path[1] : 'n';
		size_t size = path.size() > 2 ? strtoul(std::string(path.substr(2, 12)).c_str(), nullptr, 10) : 0;
		std::string body = contentOf(what, size > most && size != 30000000 ? 5 : size);
		auto write = [&] (Bomba::GeneralisedBuffer& out) {
			size_t half = mode == 'y' || mode == 'z' ? body.size() / 2 : body.size();
			out += std::string_view(body).substr(0, half);
			if (mode == 'y') throw std::runtime_error("failed in the middle");
			if (mode == 'z') throw 3;
		};
		switch (mode) {
		case 'k': case 'y': writer.writeKnownSize("text/plain", body.size(), write); return true;
		case 'u': case 'z': writer.writeUnknownSize("text/plain", write); return true;
		case 'e': throw std::runtime_error("failed");
		case 'i': throw 17;
		default: return false;
		}
	}
	bool get(std::string_view path, Bomba::IWriteStarter& writer) override { return act(path, "G" + std::string(path), writer); }
	bool post(std::string_view path, std::string_view, std::span<char> body, Bomba::IWriteStarter& writer) override {
		return act(path, "P" + std::string(path) + std::to_string(hashBytes(std::string_view(body.data(), body.size()))), writer);
	}
};
inline int statusFor(char mode, bool post) { return mode == 'k' || mode == 'u' ? 200 : mode == 'e' || mode == 'i' ? 500 : post ? 400 : 404; }

struct BinaryApi : Bomba::RpcObject<BinaryApi> {
	static inline std::atomic<int64_t> calls = 0;
	Bomba::RpcMember<[] (std::string text = Bomba::name("text"), int size = Bomba::name("size")) {
		calls++;
		return contentOf(text, size < 0 || size > 60000 ? 5 : size);
	}> content = child<"content">;
	Bomba::RpcMember<[] () { calls++; throw std::runtime_error("failed"); }> fail = child<"fail">;
};
inline std::string little(uint64_t n, int bytes) { std::string r; for (int i = 0; i < bytes; i++) r += char(n >> (8 * i)); return r; }

struct Expected { std::string request; int status = 0; std::string body; };
inline Expected httpRequest(Rng& rng, const std::string& who, size_t common, size_t rare) {
	Expected r;
	bool post = rng.chance(50);
	const char* modes = "kkkuuueein";
	char mode = modes[rng.below(10)];
	std::string path = std::string("/") + mode + std::to_string(rng.size(int64_t(common), int64_t(rare))) + "/" + who;
	std::string body = post ? trickyBody(rng, 100, 20000) : "";
	r.request = (post ? "POST " : "GET ") + path + " HTTP/1.1\r\nHost: x\r\n" + (post ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : "") + "\r\n" + body;
	r.status = statusFor(mode, post);
	if (r.status == 200) r.body = contentOf(post ? "P" + path + std::to_string(hashBytes(body)) : "G" + path, strtoul(path.c_str() + 2, nullptr, 10));
	return r;
}
inline Expected binaryRequest(Rng& rng, const std::string& who, uint32_t id) {
	Expected r;
	uint32_t size = uint32_t(rng.size(50, 20000));
	std::string args = little(who.size(), 2) + who + little(size, 4);
	r.request = little(id, 4) + little(4 + 2 + 1 + args.size(), 2) + '\0' + args;
	std::string result = contentOf(who, size);
	r.body = little(id, 4) + little(4 + 2 + 2 + result.size(), 2) + little(result.size(), 2) + result;
	return r;
}

// A client that behaves well, though slowly sometimes, and knows what it has to receive
struct Client {
	std::string name, stream, received;
	std::vector<Expected> expected;
	size_t sent = 0, limit = 0; // How much to send before reading, 0 for no limit
	bool binary = false, ended = false;
	Peer peer;

	void prepare(Rng& rng, bool http, int requests, size_t common, size_t rare) {
		binary = !http;
		for (int i = 0; i < requests; i++) {
			std::string who = name + "-" + std::to_string(i);
			expected.push_back(http ? httpRequest(rng, who, common, rare) : binaryRequest(rng, who, uint32_t(rng.next())));
			stream += expected.back().request;
		}
	}
	bool sendSome(size_t most) { // Never waits
		if (sent >= stream.size()) return false;
		ssize_t n = ::send(peer.fd, stream.data() + sent, std::min(most, stream.size() - sent), MSG_NOSIGNAL | MSG_DONTWAIT);
		if (n > 0) sent += size_t(n);
		return n > 0;
	}
	bool receiveSome(double seconds = 0, size_t most = 65536) {
		size_t before = received.size();
		if (!ended && !peer.receive(received, seconds, most)) ended = true;
		return received.size() != before;
	}
	// How many responses have come; a problem is reported
	size_t verify(H& h, const char* where) {
		auto about = [&] (const std::string& s) { return name + " " + where + ": " + s; };
		if (binary) {
			std::string all;
			size_t whole = 0;
			for (auto& it : expected) { all += it.body; if (all.size() <= received.size()) whole++; }
			h.check(received == all.substr(0, received.size()), "wrong-response", [&] {
				size_t i = 0;
				while (i < received.size() && i < all.size() && received[i] == all[i]) i++;
				return about("bytes different from " + std::to_string(i) + ": " + jsonQuote(received.substr(i, 200)) + " instead of " + jsonQuote(all.substr(std::min(i, all.size()), 200))); });
			return whole;
		}
		std::vector<HttpResponse> got;
		std::string rest, problem = parseHttpResponses(received, got, &rest);
		h.check(problem.empty(), "malformed-response", [&] { return about(problem + ": " + jsonQuote(received, 500)); });
		h.check(got.size() <= expected.size(), "too-many-responses", [&] { return about(std::to_string(got.size()) + " responses to " + std::to_string(expected.size()) + " requests"); });
		for (size_t i = 0; i < got.size(); i++) {
			auto& e = expected[i];
			h.check(got[i].status == e.status && (e.status != 200 || got[i].body == e.body), "wrong-response", [&] {
				return about("response " + std::to_string(i) + " to " + jsonQuote(e.request, 200) + " has status " + std::to_string(got[i].status) + " and body " + jsonQuote(got[i].body, 200) + " instead of " + std::to_string(e.status) + " " + jsonQuote(e.body, 200)); });
		}
		return got.size();
	}
};

inline int openDescriptors() {
	int n = 0;
	if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
	return n;
}
inline std::set<int> listeningPorts() {
	std::set<int> r;
	if (DIR* d = opendir("/proc/self/fd")) {
		while (dirent* e = readdir(d)) {
			int fd = atoi(e->d_name), on = 0;
			socklen_t n = sizeof(on);
			if (e->d_name[0] == '.' || getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) || !on) continue;
			sockaddr_in a{};
			n = sizeof(a);
			if (!getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n)) r.insert(ntohs(a.sin_port));
		}
		closedir(d);
	}
	return r;
}
// Starts a server on a port chosen by the system
template <typename Make> auto startServer(const Make& make, int& port) {
	auto before = listeningPorts();
	auto server = make(0);
	for (int it : listeningPorts()) if (!before.count(it)) port = it;
	if (!port) throw std::runtime_error("no listening socket of the server");
	return server;
}

// A server and the thread that runs it; given up (with everything it uses) if it does not stop
template <typename Responder>
struct Running {
	Bomba::TcpServer<Responder>* server;
	int port = 0;
	struct Shared { std::mutex mutex; bool returned = false; };
	std::shared_ptr<Shared> shared = std::make_shared<Shared>();
	std::thread thread;
	bool threaded = false;
	explicit Running(Responder& responder) { server = startServer([&] (int p) { return new Bomba::TcpServer<Responder>(responder, p); }, port); }
	void runInThread() {
		threaded = true;
		thread = std::thread([server = server, shared = shared] {
			server->run();
			std::lock_guard lock(shared->mutex);
			shared->returned = true;
		});
	}
	void step() { if (!threaded) server->runARound(); }
	bool returned() { std::lock_guard lock(shared->mutex); return shared->returned; }
	void stop(H& h) {
		if (!threaded) { delete server; server = nullptr; return; }
		server->stopRunning();
		double until = nowSeconds() + 20;
		while (!returned() && nowSeconds() < until) usleep(200);
		if (!returned()) { thread.detach(); threaded = false; server = nullptr; h.fail("does-not-stop", "the server still runs 20 s after stopRunning()"); }
		thread.join();
		threaded = false;
		delete server;
		server = nullptr;
	}
	~Running() {
		if (!server) return;
		if (threaded) {
			server->stopRunning();
			double until = nowSeconds() + 20;
			while (!returned() && nowSeconds() < until) usleep(200);
			if (!returned()) { thread.detach(); return; }
			thread.join();
		}
		delete server;
	}
};
}
#endif
