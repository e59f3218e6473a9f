// HTTPS client: what is on the wire, how it deals with servers it cannot trust to follow the protocol, large messages, things happening inside TLS
#include "http_model.hpp"
#include "json_model.hpp"
#include "foreign_server.hpp"
#include "tls_peer.hpp"
#include <signal.h>
#include "bomba_http.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_sync_client.hpp" // Both clients can be in one program
#include "tls/tls_sync_client.hpp"
using namespace Bomba;

namespace {
struct Api : RpcObject<Api> {
	RpcMember<[] (std::string text = name("text")) { return text; }> echo = child<"echo">;
	RpcMember<[] (std::string text = name("text")) {}> tell = child<"tell">;
};
std::string secret(Rng& rng) { std::string s = "Secret"; for (int i = 0; i < 16; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[rng.below(62)]; return s; }
void within(H& h, const char* what, const std::function<void()>& act) {
	double start = nowSeconds();
	act();
	h.check(nowSeconds() - start < 15, "late", [&] { return std::string(what) + " took " + std::to_string(nowSeconds() - start) + " s"; });
}
void onlyRecords(H& h, std::string_view raw, const std::string& what) { // All has to be records of TLS
	size_t at = 0;
	while (at + 5 <= raw.size()) {
		int type = uint8_t(raw[at]), major = uint8_t(raw[at + 1]);
		size_t length = size_t(uint8_t(raw[at + 3])) * 256 + uint8_t(raw[at + 4]);
		h.check(type >= 20 && type <= 23 && major == 3 && length <= 16384 + 2048, "not-encrypted", [&] { return "no TLS record at " + std::to_string(at) + " of " + jsonQuote(raw.substr(0, 300)) + "; " + what; });
		at += 5 + length;
	}
	if (at < raw.size()) h.check(uint8_t(raw[at]) >= 20 && uint8_t(raw[at]) <= 23, "not-encrypted", [&] { return what; });
}
void noneSeen(H& h, const std::vector<std::string>& secrets, const std::string& raw, const std::string& what) {
	for (auto& it : secrets) h.check(raw.find(it) == std::string::npos, "secret-on-wire", [&] { return it + " is in " + jsonQuote(raw, 600) + "; " + what; });
	h.check(raw.find(" HTTP/1.1\r\n") == std::string::npos, "secret-on-wire", [&] { return "A request is in " + jsonQuote(raw, 600) + "; " + what; });
}
struct Step {
	bool post = false;
	std::string path, body, response, answer;
	bool success = true;
	int disturbance = 0; // Ticket, key updates
	size_t record = 16384;
	int pieces = 1;
};

void exchange(H& h, bool damaged) {
	int port = Listener::get().port;
	TlsPeer peer;
	int versions[] = {0, 0, TLS1_2_VERSION, TLS1_3_VERSION};
	peer.version = versions[h.rng.below(4)];
	peer.tickets = int(h.rng.below(4));
	TlsSyncClient network(h.rng.chance(50) ? "127.0.0.1" : "localhost", port);
	bool rpc = h.rng.chance(30);
	std::vector<std::string> secrets;
	std::vector<Step> steps;
	int count = int(h.rng.size(5, 12)) + 1;
	std::string history = rpc ? "RPC" : "HTTP";
	for (int i = 0; i < count; i++) {
		Step s;
		secrets.push_back(secret(h.rng));
		auto text = [&] (int64_t usual) {
			std::string t = secrets.back();
			size_t n = h.rng.chance(8) ? size_t(h.rng.range(10000, 400000)) : h.rng.size(usual, 9000);
			while (t.size() < n) t += char('a' + h.rng.below(26));
			return t;
		};
		s.post = rpc || h.rng.chance(50);
		if (s.post) s.body = text(200);
		else s.path = "/" + text(20).substr(0, 900);
		s.answer = rpc ? s.body : text(300) + (h.rng.chance(30) ? trickyBody(h.rng, 100, 3000) : "");
		if (!rpc) {
			int statuses[] = {200, 200, 200, 404, 500, 201};
			int status = statuses[h.rng.below(6)];
			s.success = status < 300;
			s.response = foreignResponse(h.rng, status, s.answer);
		}
		s.disturbance = h.rng.chance(60) ? 0 : int(h.rng.below(4));
		s.record = h.rng.chance(50) ? 16384 : h.rng.chance(50) ? size_t(h.rng.range(1, 50)) : size_t(h.rng.range(50, 5000));
		if (s.answer.size() / s.record > 400) s.record = 16384;
		s.pieces = h.rng.chance(60) ? 1 : int(h.rng.range(2, 8));
		history += " " + std::to_string(s.body.size() + s.path.size()) + "/" + std::to_string(s.answer.size());
		steps.push_back(std::move(s));
	}
	size_t damagedAt = damaged ? h.rng.below(steps.size()) : steps.size();
	h.sign(history + (damaged ? " damaged " + std::to_string(damagedAt) : "") + secrets[0]);
	Rng serverRandom(h.rng.next());
	std::string serverProblem;
	std::vector<std::string> received;
	std::thread server([&] { try {
		peer.establish();
		std::string in, body, head;
		for (size_t i = 0; i < steps.size(); i++) {
			Step& s = steps[i];
			double until = nowSeconds() + 20;
			while (!takeRequest(in, body, &head)) if (!peer.receive(in, 0.2) || nowSeconds() > until) { if (!peer.giveUp) serverProblem = "request did not come"; return; }
			received.push_back(head + body);
			if (s.disturbance == 1) peer.newTicket();
			else if (s.disturbance == 2) peer.keyUpdate(false);
			else if (s.disturbance == 3) peer.keyUpdate(true);
			if (rpc) {
				JVal request = JsonParser::parse(body);
				JVal response = JVal::object();
				response.obj.emplace_back("jsonrpc", JVal::string("2.0"));
				response.obj.emplace_back("id", *request.find("id"));
				response.obj.emplace_back("result", JVal::string(s.answer));
				JsonSpeller speller(serverRandom);
				speller.respell = false;
				s.response = foreignResponse(serverRandom, 200, speller.print(response), "application/json");
			}
			peer.gather();
			size_t start = peer.held.size();
			peer.encrypt(s.response, s.record);
			if (i == damagedAt) {
				peer.held[start + serverRandom.below(peer.held.size() - start)] ^= char(1 << serverRandom.below(8));
				peer.sendHeld();
				peer.shutdownWrite(); // Otherwise a changed size would mean waiting
				return;
			}
			for (int piece = 1; piece < s.pieces; piece++) {
				peer.sendHeld(serverRandom.below(peer.held.size() + 1));
				usleep(useconds_t(serverRandom.below(200)));
			}
			peer.sendHeld();
		}
	} catch (std::exception& e) { serverProblem = e.what(); } });
	struct Join { TlsPeer& peer; std::thread& t; ~Join() { peer.giveUp = true; if (t.joinable()) t.join(); } } join{peer, server};
	bool failed = false;
	auto attempt = [&] (size_t i, const std::function<void()>& act) {
		std::string problem;
		try { within(h, "call", act); } catch (ViolationFound& v) { throw ViolationFound(v.key, v.detail + "; " + history); } catch (std::exception& e) { problem = e.what(); if (problem.empty()) problem = "?"; }
		if (i < damagedAt) h.check(problem.empty(), "not-obtained", [&] { return "request " + std::to_string(i) + ": " + problem + "; " + serverProblem + "; " + history; });
		else {
			failed = true;
			h.check(!problem.empty(), "damaged-accepted", [&] { return "request " + std::to_string(i) + " has an answer, that of " + std::to_string(damagedAt) + " was damaged; " + history; });
			h.count("refused_damaged");
		}
	};
	if (rpc) {
		Api api;
		JsonRpcClient<> client(api, network, "example.com");
		for (size_t i = 0; i < steps.size() && !failed; i++) attempt(i, [&] {
			std::string got = api.echo(steps[i].body);
			h.check(got == steps[i].answer, "other-response", [&] { return jsonQuote(got, 200) + " instead of " + jsonQuote(steps[i].answer, 200); });
		});
	} else {
		HttpClient<> client(network, "example.com");
		std::vector<RequestToken> tokens;
		for (size_t i = 0, taken = 0; taken < steps.size() && !failed;) {
			if (i < steps.size() && (i == taken || h.rng.chance(50)) && (i == taken || steps[i].body.size() + steps[i].answer.size() < 20000)) {
				Step& s = steps[i++];
				try {
					if (s.post) tokens.push_back(client.post("text/plain", [&] (ExpandingBuffer<>& out, RequestToken) { out += std::string_view(s.body); }));
					else tokens.push_back(client.get(s.path));
				} catch (std::exception& e) {
					h.check(i - 1 > damagedAt, "request-refused", [&] { return "request " + std::to_string(i - 1) + ": " + e.what() + "; " + serverProblem + "; " + history; });
					failed = true;
				}
			} else {
				Step& s = steps[taken];
				if (h.rng.chance(40)) {
					double until = nowSeconds() + 20;
					bool ready = false;
					within(h, "asking for readiness", [&] { try { ready = static_cast<IRpcResponder&>(client).hasResponse(tokens[taken]); } catch (std::exception&) {} });
					h.check(!ready || taken < damagedAt, "damaged-accepted", [&] { return history; });
					if (taken < damagedAt) while (!ready) {
						h.check(nowSeconds() < until, "never-ready", [&] { return "request " + std::to_string(taken) + "; " + serverProblem + "; " + history; });
						usleep(100);
						ready = static_cast<IRpcResponder&>(client).hasResponse(tokens[taken]);
					}
					h.count("awaited_by_asking");
				}
				int called = 0;
				attempt(taken, [&] {
					client.getResponse(tokens[taken], [&] (std::span<char> message, bool success) {
						called++;
						h.check(taken < damagedAt, "damaged-accepted", [&] { return jsonQuote(std::string_view(message.data(), message.size()), 300); });
						h.check(std::string_view(message.data(), message.size()) == s.answer, "other-response", [&] { return jsonQuote(std::string_view(message.data(), message.size()), 300) + " instead of " + jsonQuote(s.answer, 300); });
						h.check(success == s.success, "wrong-success");
						return true;
					});
				});
				if (!failed) h.check(called == 1, "reader-calls", [&] { return std::to_string(called) + "; " + history; });
				taken++;
			}
		}
	}
	if (failed) peer.giveUp = true;
	server.join();
	if (!damaged) h.check(serverProblem.empty(), "server-not-content", [&] { return serverProblem + "; " + history; });
	for (size_t i = 0; i < received.size(); i++) {
		Step& s = steps[i];
		std::string start = s.post ? "POST / HTTP/1.1\r\n" : "GET " + s.path + " HTTP/1.1\r\n";
		h.check(received[i].starts_with(start) && (rpc ? received[i].find(s.body) != std::string::npos : received[i].ends_with("\r\n\r\n" + s.body)), "wrong-request", [&] { return jsonQuote(received[i], 400) + "; " + history; });
	}
	noneSeen(h, secrets, peer.rawIn, history);
	onlyRecords(h, peer.rawIn, history);
	noneSeen(h, secrets, peer.rawOut, history); // Tells that the check sees encrypted data
	h.count(rpc ? "exchanges_rpc" : "exchanges_http", int64_t(received.size()));
	h.count("bytes_on_wire", int64_t(peer.rawIn.size() + peer.rawOut.size()));
	if (peer.ssl) h.count(std::string("version_") + SSL_get_version(peer.ssl));
	h.sample(history);
}

void badServer(H& h) {
	TlsPeer peer;
	int kind = int(h.rng.below(7));
	static const char* kinds[] = {"closing", "garbage", "plain", "alert", "truncated", "changed", "old"};
	std::vector<std::string> secrets{secret(h.rng), secret(h.rng)};
	Rng serverRandom(h.rng.next());
	if (kind == 6) peer.version = h.rng.chance(50) ? TLS1_VERSION : TLS1_1_VERSION; // Not allowed by OpenSSL's default settings
	std::string what = kinds[kind];
	bool worked = false; // Even if it was damaged
	std::thread server([&] { try {
		if (kind == 6) {
			peer.establish();
			worked = true;
			usleep(1000);
			peer.reset();
			return;
		}
		peer.acceptRaw();
		peer.prepare();
		if (kind == 0) { if (serverRandom.chance(50)) peer.receiveRaw(0.2); }
		else if (kind == 1) { std::string s; for (size_t n = serverRandom.size(20, 3000) + 1; n > 0; n--) s += char(serverRandom.next()); if (serverRandom.chance(30)) s = "\x16\x03\x03" + s; peer.Peer::send(s); peer.receiveRaw(0.2); }
		else if (kind == 2) { peer.receiveRaw(0.2); peer.Peer::send(foreignResponse(serverRandom, 200, secrets[1])); peer.receiveRaw(0.02); }
		else if (kind == 3) { peer.receiveRaw(0.2); peer.Peer::send(std::string("\x15\x03\x03\x00\x02\x02", 6) + char(serverRandom.below(120))); peer.receiveRaw(0.02); }
		else {
			int64_t allowed = kind == 4 ? serverRandom.range(0, 700) : 1000000;
			bool changed = kind != 5;
			while (true) {
				int r = SSL_do_handshake(peer.ssl);
				peer.gather();
				if (!changed && !peer.held.empty() && serverRandom.chance(60)) {
					peer.held[serverRandom.below(peer.held.size())] ^= char(1 << serverRandom.below(8));
					changed = true;
				}
				if (int64_t(peer.held.size()) > allowed) peer.held.resize(size_t(allowed));
				allowed -= int64_t(peer.held.size());
				if (!peer.sendHeld() || !allowed) break;
				if (r == 1) { worked = kind != 4 && serverRandom.chance(50); break; }
				if (SSL_get_error(peer.ssl, r) != SSL_ERROR_WANT_READ) break;
				size_t before = peer.rawIn.size();
				if (!peer.receiveRaw(0.1) || peer.rawIn.size() == before) break;
			}
		}
		peer.shutdownWrite();
		for (int i = 0; i < 3 && peer.receiveRaw(0.01); i++) {} // To see if the client sent something in spite of that
		peer.reset();
	} catch (std::exception& e) { peer.reset(); } });
	TlsSyncClient network("127.0.0.1", Listener::get().port);
	Api api;
	JsonRpcClient<> client(api, network, "example.com");
	HttpClient<> http(network, "example.com");
	int attempts = int(h.rng.range(1, 3));
	{
		struct Join { TlsPeer& peer; std::thread& t; ~Join() { peer.giveUp = true; if (t.joinable()) t.join(); } } join{peer, server};
		for (int i = 0; i < attempts; i++) {
			bool failed = false;
			within(h, "call of a bad server", [&] {
				try {
					int how = int(h.rng.below(3));
					if (how == 0) api.echo(secrets[0]);
					else if (how == 1) api.tell(secrets[0]);
					else {
						auto token = http.get("/" + secrets[0]);
						http.getResponse(token, [&] (std::span<char>, bool) { h.fail("value-instead-of-failure", what); return true; });
					}
				} catch (ViolationFound&) { throw; } catch (std::exception&) { failed = true; }
			});
			h.check(failed, "value-instead-of-failure", [&] { return "call " + std::to_string(i) + " of a server " + what + " succeeded"; });
			h.count("failures");
		}
	}
	noneSeen(h, secrets, peer.rawIn, what);
	onlyRecords(h, peer.rawIn, what);
	h.count(std::string("bad_") + kinds[kind]);
	h.sign(what + secrets[0]);
}
}

void runCase(H& h) {
	signal(SIGPIPE, SIG_DFL);
	int kind = int(h.rng.below(10));
	if (kind < 5) exchange(h, false);
	else if (kind < 7) exchange(h, true);
	else badServer(h);
}
