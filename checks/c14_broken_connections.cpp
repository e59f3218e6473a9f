// Real connections that are refused, closed or broken at any point: whole responses that came before are delivered, all others end by exceptions soon
#include "http_model.hpp"
#include "foreign_server.hpp"
#include "loopback.hpp"
#include <signal.h>
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#ifdef HTTPS // C31
#include "tls_peer.hpp"
#include "tls/tls_sync_client.hpp"
#else
#include "bomba_sync_client.hpp"
#endif
using namespace Bomba;
#ifdef HTTPS
using OtherSide = TlsPeer;
static std::unique_ptr<TlsSyncClient> makeNetwork(int port) { return std::make_unique<TlsSyncClient>("127.0.0.1", port); }
#else
using OtherSide = Peer;
static std::unique_ptr<SyncNetworkClient> makeNetwork(int port) { return std::make_unique<SyncNetworkClient>("127.0.0.1", std::to_string(port)); }
#endif

namespace {
struct Api : RpcObject<Api> {
	RpcMember<[] (std::string text = name("text"), int number = name("number")) { return text + std::to_string(number); }> text = child<"text">;
	RpcMember<[] (int number = name("number")) { return number; }> number = child<"number">;
	RpcMember<[] () {}> nothing = child<"nothing">;
};
std::string little(uint64_t n, int bytes) { std::string r; for (int i = 0; i < bytes; i++) r += char(n >> (8 * i)); return r; }

struct Call {
	std::string response;
	std::function<void()> take; // Ends by an exception or by the right value
	std::function<bool()> ready;
	bool whole = false;
};
void within(H& h, const char* what, const std::function<void()>& act) {
	double start = nowSeconds();
	act();
	h.check(nowSeconds() - start < 15, "late", [&] { return std::string(what) + " took " + std::to_string(nowSeconds() - start) + " s"; });
}
}

void runCase(H& h) {
	signal(SIGPIPE, SIG_DFL);
	bool json = h.rng.chance(50);
	bool refused = h.rng.chance(4);
	int port = Listener::get().port;
	int closedSocket = -1;
	if (refused) { // Bound, but not listening
		closedSocket = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t n = sizeof(a);
		if (bind(closedSocket, reinterpret_cast<sockaddr*>(&a), sizeof(a)) || getsockname(closedSocket, reinterpret_cast<sockaddr*>(&a), &n)) throw std::runtime_error("no port");
		port = ntohs(a.sin_port);
	}
	Api api;
	auto networkKept = makeNetwork(port);
	auto& network = *networkKept;
	std::shared_ptr<void> client;
	if (json) client = std::make_shared<JsonRpcClient<>>(api, network, "localhost");
	else client = std::make_shared<BinaryProtocolClient<>>(api, network);
	std::string history = json ? "JSON-RPC" : "binary";
	auto mustFail = [&] (const char* what, const std::function<void()>& act) {
		bool failed = false;
		within(h, what, [&] {
			try { act(); }
			catch (ViolationFound&) { throw; }
			catch (std::exception&) { failed = true; }
		});
		h.check(failed, "value-instead-of-failure", [&] { return std::string(what) + " succeeded; " + history; });
		h.count("failures");
	};
	if (refused) {
		for (int i = 0; i < 2; i++) {
			mustFail("call without a server", [&] { api.number(5); });
			mustFail("call without a server", [&] { api.nothing(); });
			mustFail("call without a server", [&] { auto f = api.text.async("x", 5); f.get(); });
		}
		::close(closedSocket);
		h.count("refused");
		h.sign("refused" + std::to_string(h.caseNo));
		return;
	}
	OtherSide peer;
	peer.expect();
	std::vector<Call> calls;
	int count = int(h.rng.range(1, 5));
	for (int i = 0; i < count; i++) {
		Call c;
		int kind = int(h.rng.below(3));
		std::string result, jsonResult;
		if (kind == 0) {
			std::string value = std::string(h.rng.size(20, 3000), char('a' + i)) + "!";
			result = little(value.size(), 2) + value;
			jsonResult = "\"" + value + "\"";
			std::shared_ptr<Future<std::string>> f(new Future<std::string>(api.text.async("x", i)));
			c.ready = [f] { return f->is_ready(); };
			c.take = [f, value, &h] { std::string got = f->get(); h.check(got == value, "invented-value", [&] { return jsonQuote(got) + " instead of " + jsonQuote(value); }); };
		} else if (kind == 1) {
			int value = int(h.rng.next());
			result = little(uint32_t(value), 4);
			jsonResult = std::to_string(value);
			std::shared_ptr<Future<int>> f(new Future<int>(api.number.async(i)));
			c.ready = [f] { return f->is_ready(); };
			c.take = [f, value, &h] { int got = f->get(); h.check(got == value, "invented-value", [&] { return std::to_string(got) + " instead of " + std::to_string(value); }); };
		} else {
			jsonResult = "null";
			std::shared_ptr<Future<void>> f(new Future<void>(api.nothing.async()));
			c.ready = [f] { return f->is_ready(); };
			c.take = [f] { f->get(); };
		}
		if (json) c.response = foreignResponse(h.rng, 200, "{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(i + 1) + ",\"result\":" + jsonResult + "}", "application/json");
		else c.response = little(uint64_t(i), 4) + little(6 + result.size(), 2) + result;
		calls.push_back(std::move(c));
	}
	std::vector<size_t> order;
	for (size_t i = 0; i < calls.size(); i++) order.push_back(i);
	if (!json) for (size_t j = order.size(); j > 1; j--) std::swap(order[j - 1], order[h.rng.below(j)]);
	std::string stream;
	std::vector<size_t> starts;
	for (auto i : order) { starts.push_back(stream.size()); stream += calls[i].response; }
	size_t cut = h.rng.chance(10) ? stream.size() : h.rng.chance(30) ? starts[h.rng.below(starts.size())] + h.rng.below(12) : h.rng.below(stream.size());
	cut = std::min(cut, stream.size());
	size_t end = 0;
	for (auto i : order) { end += calls[i].response.size(); calls[i].whole = end <= cut; }
	std::string sent = stream.substr(0, cut);
	int ending = int(h.rng.below(4)); // Closed, reset, half-closed, invalid data and left open
	if (ending == 3 && !json) ending = 2;
	if (ending == 3) {
		static const char* bad[] = {"HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 xyz\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "\r\n\r\n\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n"};
		size_t keep = 0;
		for (auto i : order) if (calls[i].whole) keep += calls[i].response.size();
		sent = sent.substr(0, keep) + bad[h.rng.below(std::size(bad))]; // Left open, so the client has to notice it itself
		if (keep == stream.size()) { sent.resize(keep); ending = 0; }
	}
	history += ", " + std::to_string(calls.size()) + " calls, sent " + jsonQuote(sent, 300) + " of " + std::to_string(stream.size()) + " ending " + std::to_string(ending);
	h.sign(history);
	peer.accept();
	std::string requests;
	bool read = h.rng.chance(80);
	if (read) { // Otherwise closing causes a reset
		int seen = 0;
		double until = nowSeconds() + 20;
		while (seen < count && nowSeconds() < until) {
			if (!peer.receive(requests, 0.2)) break;
			std::string copy = requests, body;
			seen = 0;
			if (json) while (takeRequest(copy, body)) seen++;
			else while (copy.size() >= 6) { size_t n = uint8_t(copy[4]) + 256 * uint8_t(copy[5]); if (n < 6 || copy.size() < n) break; copy.erase(0, n); seen++; }
		}
		if (seen < count) h.fail("requests-not-sent", history + " received " + jsonQuote(requests));
	}
	bool dataSure = ending != 1 && (read || ending == 3);
	bool delayed = h.rng.chance(50);
	bool partly = false, notify = false; // Only with encryption
#ifdef HTTPS
	partly = cut == stream.size() && ending != 3 && h.rng.chance(50);
	notify = !partly && ending != 3 && h.rng.chance(50);
	if (partly) { calls[order.back()].whole = false; h.count("cut_records"); }
	if (notify) h.count("notified_closing");
	history += partly ? " with the last record cut" : notify ? " with notification" : "";
#endif
	Rng partlyRandom = h.rng;
	std::thread sender;
	auto finish = [&, delay = h.rng.below(2000), pieces = h.rng.range(1, 4)] {
		if (delayed) usleep(useconds_t(delay));
		std::string rest = sent, last;
		if (partly) { last = rest.back(); rest.pop_back(); }
		for (int64_t i = 0; i < pieces && delayed; i++) {
			size_t n = rest.size() / size_t(pieces);
			peer.send(rest.substr(0, n));
			rest.erase(0, n);
			usleep(50);
		}
		peer.send(rest);
		if (partly) peer.sendPartly(last, partlyRandom); // Some of an encrypted record is sent, but it's not complete
		if (notify) peer.notifyClose();
		if (ending == 0) peer.close();
		else if (ending == 1) peer.reset();
		else if (ending == 2) peer.shutdownWrite();
	};
	if (delayed) sender = std::thread(finish);
	else finish();
	struct Join { std::thread& t; ~Join() { if (t.joinable()) t.join(); } } join{sender};
	std::vector<size_t> taking;
	for (size_t i = 0; i < calls.size(); i++) taking.push_back(i);
	for (size_t j = taking.size(); j > 1; j--) std::swap(taking[j - 1], taking[h.rng.below(j)]);
	for (auto i : taking) {
		Call& c = calls[i];
		if (h.rng.chance(30)) {
			within(h, "asking for readiness", [&] {
				bool ready = false;
				try { ready = c.ready(); } catch (std::exception&) {}
				h.check(!ready || c.whole, "ready-without-response", [&] { return std::to_string(i) + " in " + history; });
				h.count("asked");
			});
		}
		if (!c.whole) {
			mustFail("call without a whole response", c.take);
			if (h.rng.chance(20)) mustFail("the same again", c.take);
		} else {
			bool succeeded = false;
			std::string problem;
			within(h, "call with a response", [&] {
				try { c.take(); succeeded = true; }
				catch (ViolationFound&) { throw; }
				catch (std::exception& e) { problem = e.what(); }
			});
			if (dataSure) h.check(succeeded, "response-lost", [&] { return "call " + std::to_string(i) + " failed by " + problem + "; " + history; });
			h.count(succeeded ? "values" : "lost_by_reset");
		}
	}
	if (sender.joinable()) sender.join();
	if (ending == 3 || ending == 2) {} // Open in one direction, a new request can be sent but never answered
	int later = int(h.rng.range(0, 3));
	for (int i = 0; i < later; i++) {
		if (ending == 3) break; // All was valid if the bad part was not reached
		if (h.rng.chance(50)) mustFail("later call", [&] { api.number(5); });
		else mustFail("later call", [&] { api.text.async("x", 7).get(); });
	}
	static const char* endings[] = {"ended_closed", "ended_reset", "ended_half", "ended_invalid"};
	h.count(endings[ending]);
	h.count("calls", count);
	h.sample(history);
}
