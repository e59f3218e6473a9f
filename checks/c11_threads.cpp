// TCP server in the background thread while other threads are its clients, read its statistics and stop it; under the race detector
#include "tcp_world.hpp"
using namespace Bomba;
using namespace Tcp;

void runCase(H& h) {
	App app;
	HttpServer<> responder(app, app);
	int port = 0;
	auto server = startServer([&] (int p) {
		return h.rng.chance(50) ? std::make_unique<BackgroundTcpServer<HttpServer<>>>(responder, p) : std::make_unique<BackgroundTcpServer<HttpServer<>>>(responder, p, 2); }, port);
	int clients = int(h.rng.range(1, 4)), statistics = int(h.rng.range(0, 2));
	bool early = h.rng.chance(40); // Stopped while it works
	h.sign(std::to_string(h.caseNo));
	std::atomic<bool> stop = false;
	std::atomic<int64_t> asked = 0, responses = 0;
	std::mutex mutex;
	std::string problem;
	int64_t lowest = 0;
	std::vector<std::thread> threads;
	for (int i = 0; i < clients; i++) threads.emplace_back([&, i, seed = h.rng.next()] {
		H local;
		local.rng = Rng(seed);
		try {
			for (int round = 0; round < 4; round++) {
				Client c;
				c.name = "t" + std::to_string(i) + "." + std::to_string(round);
				c.prepare(local.rng, true, int(local.rng.range(1, 5)), 60, 20000);
				if (!c.peer.connect(port)) { if (early) break; local.fail("refuses-connections", c.name); }
				bool hostile = local.rng.chance(20);
				while (c.sent < c.stream.size() && !c.ended) {
					if (!c.sendSome(local.rng.chance(50) ? 100000 : local.rng.range(1, 300)) && !early) usleep(100);
					c.receiveSome();
					if (hostile && local.rng.chance(10)) break;
				}
				if (hostile) { if (local.rng.chance(50)) c.peer.reset(); else c.peer.close(); continue; }
				double until = nowSeconds() + 20;
				while (!c.ended && c.verify(local, "in a thread") < c.expected.size() && nowSeconds() < until) c.receiveSome(0.1);
				size_t n = c.verify(local, "in a thread");
				if (!early) local.check(n == c.expected.size(), "not-answered", [&] { return c.name + " got " + std::to_string(n) + " of " + std::to_string(c.expected.size()); });
				responses += int64_t(n);
				if (c.ended && early) break;
			}
		} catch (ViolationFound& v) {
			std::lock_guard lock(mutex);
			problem = v.key + ": " + v.detail;
		}
	});
	for (int i = 0; i < statistics; i++) threads.emplace_back([&] {
		while (!stop) {
			int64_t got = server->averageResponseTime().count();
			asked++;
			std::lock_guard lock(mutex);
			lowest = std::min(lowest, got);
		}
	});
	auto finish = [&] (bool all) {
		for (size_t i = all ? 0 : clients; i < (all ? threads.size() : threads.size()); i++) if (threads[i].joinable()) threads[i].join();
	};
	if (early) {
		usleep(h.rng.below(20000));
		stop = true;
		finish(false);
		server.reset();
		finish(true);
		h.count("stopped_early");
	} else {
		for (int i = 0; i < clients; i++) threads[i].join();
		stop = true;
		finish(true);
		if (responses > 0 && statistics == 0) {
			usleep(1000);
			h.check(server->averageResponseTime().count() > 0, "no-statistics", "average response time is zero after responding");
		}
		server.reset();
	}
	h.check(problem.empty(), "client-problem", [&] { return problem; });
	h.check(lowest >= 0, "negative-statistics", "average response time was negative");
	h.count("statistics_read", asked);
	h.count("responses", responses);
	h.count("servers");
}
