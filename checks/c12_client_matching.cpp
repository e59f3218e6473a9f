// C12: clients over real connections, the other side sends responses in random order and pieces
#include "rpc_model.hpp"
#include "foreign_server.hpp"
#include "loopback.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_json_rpc.hpp"
#ifdef HTTPS // C31
#include "tls_peer.hpp"
#include "tls/tls_sync_client.hpp"
#else
#include "bomba_sync_client.hpp"
#endif
using namespace Bomba;
#ifdef HTTPS
using OtherSide = TlsPeer;
static std::unique_ptr<TlsSyncClient> makeNetwork(int port) { return std::make_unique<TlsSyncClient>("127.0.0.1", port); }
#else
using OtherSide = Peer;
static std::unique_ptr<SyncNetworkClient> makeNetwork(int port) { return std::make_unique<SyncNetworkClient>("127.0.0.1", std::to_string(port)); }
#endif

namespace {
struct Request {
	std::string response, what;
	std::function<bool()> ready;
	std::function<void()> take, drop;
	int64_t end = -1; // Position in the stream where its response ends, if it was decided already
	bool done = false;
};
struct Exchange {
	H& h;
	OtherSide peer;
	std::vector<std::unique_ptr<Request>> requests;
	std::string queue; // Decided but not sent
	int64_t decided = 0, sent = 0;
	bool inOrder = false; // Responses can be only in the order of requests
	std::function<void()> makeRequest;
	std::string history;
	explicit Exchange(H& h) : h(h) {}

	void note(const std::string& s) { if (history.size() < 4000) history += s + " "; }
	bool decide(int64_t wanted = -1) { // What to respond next
		std::vector<size_t> open;
		for (size_t i = 0; i < requests.size(); i++) if (requests[i]->end < 0) { open.push_back(i); if (inOrder) break; }
		if (open.empty()) return false;
		size_t i = wanted >= 0 && !inOrder && h.rng.chance(50) ? size_t(wanted) : h.rng.pick(open);
		queue += requests[i]->response;
		decided += int64_t(requests[i]->response.size());
		requests[i]->end = decided;
		note("respond#" + std::to_string(i));
		return true;
	}
	std::string nextPiece() {
		size_t n = h.rng.chance(30) ? queue.size() : std::min<size_t>(queue.size(), h.rng.chance(50) ? h.rng.range(1, 8) : h.rng.range(1, 3000));
		std::string piece = queue.substr(0, n);
		queue.erase(0, n);
		sent += int64_t(n);
		return piece;
	}
	void sendPiece() {
		if (queue.empty() && !decide()) return;
		std::string piece = nextPiece();
		if (h.rng.chance(25)) { peer.sendPartly(piece, h.rng); if (peer.unflushed()) h.count("records_cut"); }
		else peer.send(piece);
		note("send" + std::to_string(piece.size()) + (peer.unflushed() ? "~" : ""));
		h.count("pieces");
	}
	void poll(size_t i) {
		Request& q = *requests[i];
		bool available = q.done || (q.end >= 0 && q.end <= sent - peer.unflushed());
		bool ready = q.ready();
		if (!ready && available) { // The network may be slower
			double until = nowSeconds() + 20;
			while (!ready && nowSeconds() < until) { usleep(1000); ready = q.ready(); }
			h.count("late_network");
		}
		note("poll#" + std::to_string(i) + (ready ? "+" : "-"));
		h.check(ready == available, ready ? "ready-too-early" : "never-ready", [&] { return "request " + std::to_string(i) + " " + q.what + ", " + std::to_string(sent) + " bytes sent; " + history; });
		h.count(ready ? "polled_ready" : "polled_not_ready");
	}
	void take(size_t i) {
		Request& q = *requests[i];
		note("take#" + std::to_string(i));
		while (q.end < 0) decide(int64_t(i));
		std::thread sender;
		std::vector<std::string> pieces;
		std::vector<int> delays;
		int64_t extra = h.rng.chance(30) ? h.rng.range(0, 5000) : 0;
		bool blocking = false;
		while (sent < q.end + extra && !queue.empty()) {
			pieces.push_back(nextPiece());
			delays.push_back(int(h.rng.chance(80) ? 0 : h.rng.range(1, 300)));
			if (pieces.size() > 60) { pieces.push_back(queue); sent += int64_t(queue.size()); queue.clear(); delays.push_back(0); } // Not too slowly
		}
		if (!pieces.empty() || peer.unflushed()) {
			blocking = true;
			sender = std::thread([&] { peer.flush(); for (size_t j = 0; j < pieces.size(); j++) { if (delays[j]) usleep(delays[j]); peer.send(pieces[j]); } });
		}
		std::exception_ptr problem;
		try { q.take(); } catch (...) { problem = std::current_exception(); }
		if (sender.joinable()) sender.join();
		h.count("pieces", int64_t(pieces.size()));
		h.count(blocking ? "taken_waiting" : "taken_available");
		if (problem) try { std::rethrow_exception(problem); } catch (ViolationFound& v) { throw ViolationFound(v.key, v.detail + "; " + history); } catch (std::exception& e) {
			h.fail("not-obtained", "request " + std::to_string(i) + " " + q.what + ": " + e.what() + "; " + history);
		}
		q.done = true;
	}
	void run(int count) {
		int made = 0;
		size_t undone = 0;
		auto some = [&] (auto&& condition) -> int64_t {
			std::vector<size_t> found;
			for (size_t i = 0; i < requests.size(); i++) if (condition(*requests[i])) found.push_back(i);
			return found.empty() ? -1 : int64_t(h.rng.pick(found));
		};
		while (true) {
			int action = int(h.rng.below(10));
			undone = 0;
			for (auto& it : requests) if (!it->done) undone++;
			if (made < count && (action < 3 || (undone == 0 && action < 8))) { note("request#" + std::to_string(made)); makeRequest(); made++; h.maximum("outstanding", int64_t(undone + 1)); continue; }
			if (made == count && undone == 0 && action < 8) break;
			if (action < 6) sendPiece();
			else if (action < 8) { int64_t i = some([] (auto&) { return true; }); if (i >= 0) poll(size_t(i)); }
			else if (action == 8 || made == count) {
				int64_t i = some([] (auto& q) { return !q.done; });
				if (i < 0) continue;
				if (requests[i]->drop && requests[i]->end >= 0 && requests[i]->end <= sent - peer.unflushed() && h.rng.chance(10)) { requests[i]->drop(); requests[i]->done = true; requests[i]->ready = [] { return true; }; note("drop#" + std::to_string(i)); h.count("dropped"); }
				else take(size_t(i));
			}
		}
		h.count("requests", made);
	}
};

std::string numberBytes(uint64_t v, size_t size) { std::string s; for (size_t i = 0; i < size; i++) s += char(uint8_t(v >> (8 * i))); return s; }

// Remote calls; the response is made by `encode(result, request)`
void remoteCalls(H& h, Exchange& x, Rpc::Tree& tree, bool binary, int64_t maxDepth, bool& connected, std::string& received) {
	Rpc::World& w = *Rpc::world;
	x.makeRequest = [&h, &x, &tree, &w, binary, maxDepth, &connected, &received] {
		size_t leaf;
		do { leaf = h.rng.below(tree.leaves.size()); } while (int64_t(tree.leaves[leaf].path.size()) > maxDepth);
		size_t order = x.requests.size();
		Rpc::withProcedure(tree.leaves[leaf].id, [&] <typename P> () {
			auto q = std::make_unique<Request>();
			if (!connected) x.peer.expect();
			auto pending = std::make_shared<Rpc::Pending>(Rpc::startCall<P>(h, *static_cast<typename P::Object*>(tree.leaves[leaf].object), nullptr, true, w.limits));
			if (!connected) { x.peer.accept(); connected = true; }
			q->what = pending->text;
			// What came to the other side
			std::string body;
			double until = nowSeconds() + 20;
			uint32_t id = 0;
			while (true) {
				if (binary) {
					if (received.size() >= 6) {
						size_t size = uint8_t(received[4]) | uint8_t(received[5]) << 8;
						if (received.size() >= size) { for (int i = 0; i < 4; i++) id |= uint32_t(uint8_t(received[i])) << (8 * i); received.erase(0, size); break; }
					}
				} else if (takeRequest(received, body)) break;
				if (nowSeconds() > until || !x.peer.receive(received, 1)) h.fail("request-not-sent", pending->text);
			}
			if (binary) {
				BinaryModel<uint16_t> m;
				if constexpr (!std::is_void_v<typename P::Ret>) m.encode(Rpc::returned<typename P::Ret>(w, order));
				q->response = numberBytes(id, 4) + numberBytes(m.out.size() + 6, 2) + m.out;
			} else {
				JVal request = JsonParser::parse(body), response = JVal::object();
				response.obj.emplace_back("jsonrpc", JVal::string("2.0"));
				h.check(request.find("id"), "request-without-id");
				response.obj.emplace_back("id", *request.find("id"));
				JVal result;
				if constexpr (!std::is_void_v<typename P::Ret>) result = model(Rpc::returned<typename P::Ret>(w, order));
				response.obj.emplace_back("result", result);
				JsonSpeller speller(h.rng);
				speller.respell = false;
				q->response = foreignResponse(h.rng, 200, speller.print(response), "application/json");
			}
			q->ready = pending->ready;
			bool twice = h.rng.chance(30);
			q->take = [&h, pending, order, twice] { pending->take(); if (twice) pending->take(); pending->verifyResult(h, order); };
			if constexpr (!std::is_void_v<typename P::Ret>) q->drop = [pending] { pending->ready = nullptr; pending->take = nullptr; }; // Destroys the future
			Request* kept = q.get();
			pending->verifyExecution = nullptr;
			h.sign(pending->text);
			x.requests.push_back(std::move(q));
			(void)kept;
		});
	};
	x.run(int(h.rng.size(6, 25)) + 1);
	h.check(w.calls.empty(), "executed-by-client");
	h.count(binary ? "calls_binary" : "calls_json", int64_t(x.requests.size()));
}
}

void runCase(H& h) {
	Rpc::World w;
	Rpc::world = &w;
	w.retSeed = h.rng.next();
	w.limits = h.rng.chance(5) ? FillLimits{3000, 3, 6} : FillLimits{60, 3, 6};
	int port = Listener::get().port;
	auto networkKept = makeNetwork(port);
	auto& network = *networkKept;
	bool connected = false;
	std::string received;
	int kind = int(h.rng.below(3));
	Rpc::Tree tree(h.rng.next(), int(h.rng.range(1, 3)));
	if (kind == 0) {
		if (w.limits.text == 3000) w.limits.text = 600;
		BinaryProtocolClient<> client(*tree.root, network);
		Exchange x(h); // Destroyed before the client
		remoteCalls(h, x, tree, true, 3, connected, received);
	} else if (kind == 1) {
		JsonRpcClient<> client(*tree.root, network, "example.com");
		Exchange x(h);
		x.inOrder = true;
		remoteCalls(h, x, tree, false, 100, connected, received);
	} else {
		HttpClient<> client(network, "example.com");
		Exchange x(h);
		x.inOrder = true;
		x.makeRequest = [&] {
			auto q = std::make_unique<Request>();
			RequestToken token;
			std::string sentBody, path;
			bool post = h.rng.chance(50);
			if (!connected) x.peer.expect();
			std::string resource = randomPath(h.rng);
			if (post) {
				sentBody = trickyBody(h.rng, 40, 4000);
				token = client.post("text/plain", [&] (ExpandingBuffer<>& out, RequestToken) { out += std::string_view(sentBody); });
			} else token = client.get(resource);
			if (!connected) { x.peer.accept(); connected = true; }
			std::string body, head;
			double until = nowSeconds() + 20;
			while (!takeRequest(received, body, &head)) if (nowSeconds() > until || !x.peer.receive(received, 1)) h.fail("request-not-sent", "");
			h.check(body == sentBody && head.starts_with(post ? "POST / HTTP/1.1\r\n" : "GET " + resource + " HTTP/1.1\r\n"), "wrong-request", [&] { return jsonQuote(head); });
			int statuses[] = {200, 200, 200, 204, 404, 500, 201, 301, 403};
			int status = statuses[h.rng.below(9)];
			std::string answer = status == 204 ? "" : trickyBody(h.rng, 100, 9000);
			q->response = foreignResponse(h.rng, status, answer);
			q->what = q->response.substr(0, 200);
			h.sign(q->response);
			IRpcResponder& asResponder = client;
			q->ready = [&asResponder, token] { return asResponder.hasResponse(token); };
			Request* raw = q.get();
			q->take = [&h, &client, token, status, answer, raw] {
				int called = 0;
				client.getResponse(token, [&] (std::span<char> message, bool success) {
					called++;
					h.check(std::string_view(message.data(), message.size()) == answer, "other-response", [&] { return jsonQuote(std::string_view(message.data(), message.size())) + " instead of " + jsonQuote(answer); });
					h.check(success == (status >= 200 && status < 300), "wrong-success", [&] { return std::to_string(status); });
					return true;
				});
				h.check(called == 1, "reader-calls", [&] { return std::to_string(called); });
				raw->ready = [] { return true; };
			};
			x.requests.push_back(std::move(q));
		};
		x.run(int(h.rng.size(6, 25)) + 1);
		h.count("responses_http", int64_t(x.requests.size()));
	}
	Rpc::world = nullptr;
}
