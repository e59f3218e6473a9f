// TCP server over the loopback network: well behaved clients among hostile ones, release of sessions, stopping
#include "alloc.hpp"
#include "tcp_world.hpp"
#include <sys/resource.h>
using namespace Bomba;
using namespace Tcp;

namespace {
struct Hostile {
	Peer peer;
	int kind = 0;
	std::string toSend;
	bool reads = false, connected = false;
	double end = 0;
};
std::string hostileStream(H& h, bool http, int& kind) {
	kind = int(h.rng.below(9));
	std::string r;
	auto valid = [&] (int n) { for (; n > 0; n--) r += http ? httpRequest(h.rng, "hostile", 50, 3000).request : binaryRequest(h.rng, "hostile", 5).request; };
	auto failing = [&] { // Breaks the session or its response
		if (!http) return little(9, 4) + little(7, 2) + '\1';
		const char* paths[] = {"/e1/h", "/i1/h", "/y5000/h", "/z5000/h", "/y50/h", "/z50/h"};
		return std::string("GET ") + paths[h.rng.below(6)] + " HTTP/1.1\r\n\r\n";
	};
	switch (kind) {
	case 0: break; // Says nothing
	case 1: r = randomBytes(h.rng, h.rng.range(1, 4000)); break;
	case 2: valid(int(h.rng.range(1, 5))); r = r.substr(0, h.rng.below(r.size())); break; // Stops in the middle
	case 3: valid(int(h.rng.range(1, 10))); break;
	case 4: for (int n = int(h.rng.range(1, 4)); n > 0; n--) { r += failing(); if (h.rng.chance(50)) valid(1); } break;
	case 5: valid(3); r = mutateBytes(h.rng, r, "\r\n :0123456789GPETOSkue"); break;
	case 6: r = http ? "POST /k5/h HTTP/1.1\r\nContent-Length: 2000000000\r\n\r\n" + randomBytes(h.rng, h.rng.range(0, 9000)) : little(1, 4) + little(65535, 2) + randomBytes(h.rng, h.rng.range(0, 9000)); break;
	case 7: r = http ? "GET /" + std::string(h.rng.range(1, 30000), 'x') : little(1, 4) + little(h.rng.below(7), 2) + "abc"; break;
	case 8: valid(2); r += http ? "GET /k5/h HTTP/1.1\r\nConnection: close\r\n\r\nGET /k6/h HTTP/1.1\r\n\r\n" : ""; break;
	}
	return r;
}

template <typename Responder>
void among(H& h, Responder& responder, bool http, bool threaded) {
	Running<Responder> server(responder);
	if (threaded) server.runInThread();
	auto settle = [&] (const std::function<bool()>& done, double seconds = 20) { // Lets the server work until something happens
		double until = nowSeconds() + seconds;
		while (!done()) {
			server.step();
			if (done()) return true;
			if (nowSeconds() > until) return false;
			if (threaded) usleep(100);
		}
		return true;
	};
	int base = openDescriptors();
	std::vector<std::unique_ptr<Client>> clients;
	std::vector<std::unique_ptr<Hostile>> hostile;
	int wanted = int(h.rng.range(1, 5)), enemies = int(h.rng.range(1, 8));
	auto addClient = [&] {
		auto c = std::make_unique<Client>();
		c->name = "c" + std::to_string(h.caseNo) + "." + std::to_string(clients.size());
		c->prepare(h.rng, http, int(h.rng.range(1, 8)), 60, threaded ? 200000 : 15000);
		if (!c->peer.connect(server.port)) h.fail("refuses-connections", c->name + " could not connect");
		h.sign(c->stream);
		clients.push_back(std::move(c));
	};
	addClient();
	int actions = int(h.rng.range(20, 150));
	for (int i = 0; i < actions; i++) {
		int what = int(h.rng.below(100));
		if (what < 5 && int(clients.size()) < wanted) addClient();
		else if (what < 15 && enemies > 0) {
			enemies--;
			auto e = std::make_unique<Hostile>();
			e->toSend = hostileStream(h, http, e->kind);
			e->reads = h.rng.chance(40);
			e->connected = e->peer.connect(server.port);
			if (!e->connected) h.fail("refuses-connections", "a client could not connect");
			h.count("hostile_" + std::to_string(e->kind));
			h.sign(e->toSend);
			hostile.push_back(std::move(e));
		} else if (what < 35 && !hostile.empty()) {
			auto& e = *h.rng.pick(hostile);
			if (e.peer.fd < 0) continue;
			int act = int(h.rng.below(10));
			if (act < 6 && !e.toSend.empty()) {
				size_t n = std::min<size_t>(e.toSend.size(), h.rng.chance(40) ? e.toSend.size() : h.rng.range(1, 300));
				ssize_t r = ::send(e.peer.fd, e.toSend.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT);
				if (r > 0) e.toSend.erase(0, size_t(r));
			} else if (act == 6) { e.peer.shutdownWrite(); h.count("half_closed"); }
			else if (act == 7) { e.peer.reset(); h.count("reset"); }
			else if (act == 8) { e.peer.close(); h.count("vanished"); }
			else if (e.reads) { std::string s; e.peer.receive(s, 0); }
		} else if (what < 70) {
			auto& c = *h.rng.pick(clients);
			c.sendSome(h.rng.chance(50) ? h.rng.range(1, 20) : h.rng.range(1, 3000));
		} else if (what < 85) {
			auto& c = *h.rng.pick(clients);
			c.receiveSome(0, h.rng.chance(50) ? 65536 : h.rng.range(1, 100));
			if (h.rng.chance(20)) c.verify(h, "among others");
		} else server.step();
	}
	// All are served in the end, whatever the others are doing
	bool complete = settle([&] {
		bool all = true;
		for (auto& c : clients) {
			c->sendSome(5000);
			while (c->receiveSome()) {}
			size_t n = c->sent == c->stream.size() ? c->verify(h, "finishing") : 0;
			h.check(!c->ended, "session-closed", [&] { return c->name + " was disconnected after " + std::to_string(n) + " of " + std::to_string(c->expected.size()) + " responses"; });
			if (n < c->expected.size()) all = false;
		}
		return all;
	});
	h.check(complete, "not-answered", [&] {
		std::string r = threaded ? "server in a thread" : "server called";
		for (auto& c : clients) r += "\n" + c->name + ": " + std::to_string(c->verify(h, "")) + " of " + std::to_string(c->expected.size()) + " responses, sent " + std::to_string(c->sent) + " of " + std::to_string(c->stream.size());
		return r;
	});
	for (auto& c : clients) h.count("responses", int64_t(c->expected.size()));
	h.count("clients", int64_t(clients.size()));
	// Who stops sending still gets everything
	if (h.rng.chance(30)) {
		Client c;
		c.name = "half";
		c.prepare(h.rng, http, int(h.rng.range(1, 4)), 60, 15000);
		if (!c.peer.connect(server.port)) h.fail("refuses-connections", "half");
		c.peer.send(c.stream);
		c.peer.shutdownWrite();
		settle([&] { while (c.receiveSome()) {} return c.ended; });
		size_t n = c.verify(h, "after closing its half");
		h.check(n == c.expected.size(), "half-closed-lost", [&] { return std::to_string(n) + " responses of " + std::to_string(c.expected.size()); });
		h.check(c.ended, "half-closed-kept", "the session is not ended although the client will send nothing more");
		h.count("half_closed_served");
	}
	if (h.rng.chance(70)) { // All is released when they leave
		for (auto& c : clients) if (h.rng.chance(50)) c->peer.close(); else c->peer.reset();
		for (auto& e : hostile) if (h.rng.chance(50)) e->peer.close(); else e->peer.reset();
		bool released = settle([&] { return openDescriptors() <= base; });
		h.check(released, "sessions-not-released", [&] { return std::to_string(openDescriptors() - base) + " descriptors are still open after all clients left"; });
		h.count("released");
		Client c;
		c.name = "later";
		c.prepare(h.rng, http, 2, 60, 3000);
		if (!c.peer.connect(server.port)) h.fail("refuses-connections", "later");
		c.peer.send(c.stream);
		bool served = settle([&] { while (c.receiveSome()) {} return c.ended || c.verify(h, "later") == c.expected.size(); });
		h.check(served && !c.ended, "not-serving-later", "a client that came after all others had left was not served");
	}
	server.stop(h); // Possibly with sessions
	h.count(threaded ? "servers_in_thread" : "servers_called");
}

// Memory of sessions that ended is released
template <typename Responder>
void memory(H& h, Responder& responder, bool http) {
	Running<Responder> server(responder);
	int base = openDescriptors();
	int64_t before = 0, after = 0;
	for (int round = 0; round < 3; round++) {
		for (int i = 0; i < 20; i++) {
			std::vector<std::unique_ptr<Peer>> peers;
			for (int j = int(h.rng.range(1, 4)); j > 0; j--) {
				int kind;
				peers.push_back(std::make_unique<Peer>());
				if (!peers.back()->connect(server.port)) h.fail("refuses-connections", "");
				std::string s = hostileStream(h, http, kind);
				::send(peers.back()->fd, s.data(), s.size(), MSG_NOSIGNAL | MSG_DONTWAIT);
				if (h.rng.chance(50)) server.step();
			}
		}
		double until = nowSeconds() + 20;
		do server.step(); while (openDescriptors() > base && nowSeconds() < until);
		h.check(openDescriptors() <= base, "sessions-not-released", [&] { return std::to_string(openDescriptors() - base) + " descriptors are still open after all clients left"; });
		(round ? after : before) = Alloc::live;
	}
	h.check(after - before < 30000, "memory-not-released", [&] { return "memory grew from " + std::to_string(before) + " to " + std::to_string(after) + " bytes by about 100 ended sessions"; });
	h.count("memory_rounds");
	h.sign("memory" + std::to_string(h.caseNo));
	server.stop(h);
}

// Connections that can't be accepted for the lack of descriptors do not stop the server
template <typename Responder>
void fewDescriptors(H& h, Responder& responder, bool http) {
	Running<Responder> server(responder);
	int room = int(h.rng.range(1, 4)), count = room + int(h.rng.range(1, 5));
	std::vector<std::unique_ptr<Client>> clients;
	for (int i = 0; i < count; i++) {
		clients.push_back(std::make_unique<Client>());
		clients.back()->name = "n" + std::to_string(i);
		clients.back()->prepare(h.rng, http, 2, 60, 3000);
		if (!clients.back()->peer.connect(server.port)) h.fail("refuses-connections", clients.back()->name);
		h.sign(clients.back()->stream);
	}
	rlimit old, low;
	getrlimit(RLIMIT_NOFILE, &old);
	low = old;
	std::set<int> used;
	if (DIR* d = opendir("/proc/self/fd")) { while (dirent* e = readdir(d)) used.insert(atoi(e->d_name)); used.erase(dirfd(d)); closedir(d); }
	int limit = 0;
	for (int left = room; used.count(limit) || left-- > 0; limit++) {}
	low.rlim_cur = rlim_t(limit);
	struct Restore { rlimit l; ~Restore() { setrlimit(RLIMIT_NOFILE, &l); } } restore{old};
	setrlimit(RLIMIT_NOFILE, &low);
	server.runInThread();
	size_t most = 0;
	for (int i = 0; i < count; i++) { // They come in order and only some fit
		auto& c = *clients[i];
		for (int j = 0; j < count; j++) clients[j]->sendSome(100000);
		double until = nowSeconds() + 20;
		while (!c.ended && c.verify(h, "with few descriptors") < c.expected.size() && nowSeconds() < until) c.receiveSome(0.05);
		h.check(!c.ended && c.verify(h, "") == c.expected.size(), "not-serving-after-lack", [&] { return "client " + std::to_string(i) + " of " + std::to_string(count) + " with room for " + std::to_string(room) + (c.ended ? " was disconnected" : " got nothing"); });
		if (i + 1 >= room) { // Leaves, so that the next one gets in
			size_t before = 0;
			for (int j = i + 1; j < count; j++) { clients[j]->receiveSome(); before += !clients[j]->received.empty(); }
			most = std::max(most, before);
			int leaving = i + 1 == room ? int(h.rng.below(uint64_t(room))) : i;
			clients[leaving]->peer.reset();
		}
	}
	h.count("few_descriptors");
	setrlimit(RLIMIT_NOFILE, &old);
	server.stop(h);
}

// Someone who asks for much and does not read it
template <typename Responder>
void stalledReader(H& h, Responder& responder) {
	Running<Responder> server(responder);
	server.runInThread();
	Client good;
	good.name = "good";
	good.prepare(h.rng, true, 3, 60, 3000);
	if (!good.peer.connect(server.port)) h.fail("refuses-connections", "good");
	Peer bad;
	if (!bad.connect(server.port)) h.fail("refuses-connections", "bad");
	bad.send("GET /k30000000/h HTTP/1.1\r\n\r\n");
	usleep(300000);
	good.peer.send(good.stream);
	auto served = [&] (double seconds) {
		double until = nowSeconds() + seconds;
		while (!good.ended && good.verify(h, "beside a stalled reader") < good.expected.size() && nowSeconds() < until) good.receiveSome(0.05);
		return !good.ended && good.verify(h, "") == good.expected.size();
	};
	bool atOnce = served(3);
	bad.reset();
	bool later = served(20);
	h.sign("stalled" + std::to_string(h.caseNo));
	h.count("stalled_reader");
	h.check(later, "not-serving-after-stalled-reader", "a client was not served even after another one, which had not been reading, left");
	server.stop(h);
	h.check(atOnce, "stalled-reader-blocks-others", "a client gets no response while another one does not read a response of 30 MB");
}

void stopping(H& h, App& app) { // At any moment, also before it starts
	HttpServer<> responder(app, app);
	int64_t round = h.rng.below(3);
	h.sign("stopping" + std::to_string(h.caseNo));
	for (int i = 0; i < 10; i++) {
		double start = nowSeconds();
		{
			int port = 0;
			auto server = startServer([&] (int p) { return std::make_unique<BackgroundTcpServer<HttpServer<>>>(responder, p); }, port);
			std::vector<std::unique_ptr<Client>> clients;
			if (round) for (int j = int(h.rng.range(0, 3)); j > 0; j--) {
				clients.push_back(std::make_unique<Client>());
				clients.back()->prepare(h.rng, true, 3, 60, 3000);
				if (!clients.back()->peer.connect(port)) h.fail("refuses-connections", "before stopping");
				clients.back()->sendSome(h.rng.range(1, 1000));
				if (round == 2) usleep(h.rng.below(1000));
			}
			if (server->averageResponseTime().count() < 0) h.fail("statistics", "negative");
			server.reset();
			for (auto& c : clients) { while (!c->ended) c->receiveSome(20); c->verify(h, "when the server stops"); }
		}
		h.check(nowSeconds() - start < 20, "stops-late", "destruction of the server took long");
		h.count("stopped");
	}
}
}

void runCase(H& h) {
	App app;
	HttpServer<> http(app, app);
	BinaryApi api;
	BinaryProtocolServer<> binary(api);
	int what = int(h.rng.below(100));
	if (what % 2 == 0) app.most = 20000;
	if (h.caseNo == 3) stalledReader(h, http);
	else if (what < 45) among(h, http, true, what % 2);
	else if (what < 80) among(h, binary, false, what % 2);
	else if (what < 86) { if (what % 2) memory(h, http, true); else memory(h, binary, false); }
	else if (what < 94) { if (what % 2) fewDescriptors(h, http, true); else fewDescriptors(h, binary, false); }
	else stopping(h, app);
}
