// The other side of TLS connections over the loopback network, made of OpenSSL without the library; sees also the raw bytes
#ifndef VERIF_TLS_PEER
#define VERIF_TLS_PEER
#include "loopback.hpp"
#include <atomic>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/x509.h>

struct TlsCertificate { // Self-signed, made when the program starts
	EVP_PKEY* key = nullptr;
	X509* certificate = nullptr;
	TlsCertificate() {
		key = EVP_EC_gen("P-256");
		certificate = X509_new();
		X509_set_version(certificate, 2);
		ASN1_INTEGER_set(X509_get_serialNumber(certificate), 1);
		X509_gmtime_adj(X509_getm_notBefore(certificate), -86400);
		X509_gmtime_adj(X509_getm_notAfter(certificate), 86400 * 365);
		X509_set_pubkey(certificate, key);
		X509_NAME* subject = X509_get_subject_name(certificate);
		X509_NAME_add_entry_by_txt(subject, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
		X509_set_issuer_name(certificate, subject);
		if (!key || !X509_sign(certificate, key, EVP_sha256())) { fprintf(stderr, "cannot make a certificate\n"); _exit(3); }
	}
	~TlsCertificate() { X509_free(certificate); EVP_PKEY_free(key); }
	static TlsCertificate& get() { static TlsCertificate c; return c; }
};

struct TlsPeer : Peer { // Outgoing records can be held back or cut anywhere
	int version = 0; // 0 is whatever is agreed on
	int tickets = 2;
	std::string rawIn, rawOut; // All that was on the wire
	std::string held; // Encrypted, not sent yet
	int64_t heldPlain = 0; // Contents of what isn't sent entirely
	SSL_CTX* context = nullptr;
	SSL* ssl = nullptr;
	BIO *in = nullptr, *out = nullptr;
	std::thread handshake;
	std::atomic<bool> giveUp = false, succeeded = false;
	std::string problem;
	bool ended = false;

	TlsPeer() = default;
	void expect() { // Awaits a connection in the background
		TlsCertificate::get();
		handshake = std::thread([this] { try { establish(); succeeded = true; } catch (std::exception& e) { problem = e.what(); Peer::reset(); } });
	}
	void accept() {
		handshake.join();
		if (!succeeded) throw std::runtime_error(problem);
	}
	void acceptRaw() { // Accepts without a thread that only few would notice
		pollfd p{Listener::get().fd, POLLIN, 0};
		double until = nowSeconds() + 20;
		while (poll(&p, 1, 50) != 1) if (giveUp || nowSeconds() > until) throw std::runtime_error("no connection came");
		if ((fd = ::accept4(Listener::get().fd, nullptr, nullptr, SOCK_CLOEXEC)) < 0) throw std::runtime_error("no connection came");
		setup();
	}
	void prepare() {
		context = SSL_CTX_new(TLS_server_method());
		if (version) { SSL_CTX_set_min_proto_version(context, version); SSL_CTX_set_max_proto_version(context, version); }
		SSL_CTX_set_num_tickets(context, size_t(tickets));
		SSL_CTX_use_certificate(context, TlsCertificate::get().certificate);
		SSL_CTX_use_PrivateKey(context, TlsCertificate::get().key);
		ssl = SSL_new(context);
		in = BIO_new(BIO_s_mem());
		out = BIO_new(BIO_s_mem());
		BIO_set_mem_eof_return(in, -1);
		SSL_set_bio(ssl, in, out);
		SSL_set_accept_state(ssl);
	}
	void establish() {
		acceptRaw();
		prepare();
		double until = nowSeconds() + 20;
		while (true) {
			ERR_clear_error();
			int r = SSL_do_handshake(ssl);
			flushEncrypted();
			if (r == 1) break;
			if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) { char text[200]; ERR_error_string_n(ERR_get_error(), text, sizeof(text)); throw std::runtime_error(std::string("handshake failed: ") + text); }
			if (!receiveRaw(0.1)) throw std::runtime_error("closed while handshaking");
			if (giveUp || nowSeconds() > until) throw std::runtime_error("no handshake came");
		}
	}
	bool receiveRaw(double seconds) {
		std::string got;
		if (!Peer::receive(got, seconds)) return false;
		rawIn += got;
		BIO_write(in, got.data(), int(got.size()));
		return true;
	}
	void gather() { // Moves what was encrypted into held
		char b[20000];
		int n;
		while ((n = BIO_read(out, b, sizeof(b))) > 0) held.append(b, size_t(n));
	}
	bool sendHeld(size_t keep = 0) {
		if (held.size() > keep) {
			size_t n = held.size() - keep;
			rawOut.append(held, 0, n);
			bool ok = Peer::send(std::string_view(held).substr(0, n));
			held.erase(0, n);
			if (!ok) return false;
		}
		if (held.empty()) heldPlain = 0;
		return true;
	}
	bool flushEncrypted() { gather(); return sendHeld(); }
	void encrypt(std::string_view s, size_t record = 16384) {
		while (!s.empty()) {
			size_t n = std::min(record, s.size());
			ERR_clear_error();
			if (SSL_write(ssl, s.data(), int(n)) != int(n)) throw std::runtime_error("the server could not encrypt");
			s.remove_prefix(n);
		}
		gather();
	}
	bool send(std::string_view s, size_t record = 16384) {
		encrypt(s, record);
		return sendHeld();
	}
	void sendPartly(std::string_view s, Rng& rng) { // The record isn't complete until something else is sent
		if (s.empty()) return;
		sendHeld();
		encrypt(s.substr(0, 16384));
		size_t whole = held.size();
		if (s.size() > 16384) { sendHeld(); encrypt(s.substr(16384)); whole = held.size(); heldPlain = int64_t(s.size()) - 16384; } else heldPlain = int64_t(s.size());
		sendHeld(size_t(rng.range(1, int64_t(whole))));
	}
	int64_t unflushed() const { return heldPlain; }
	void flush() { sendHeld(); }
	void keyUpdate(bool answered) { if (SSL_version(ssl) == TLS1_3_VERSION) { SSL_key_update(ssl, answered ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(ssl); gather(); } }
	void newTicket() { if (SSL_version(ssl) == TLS1_3_VERSION) { SSL_new_session_ticket(ssl); SSL_do_handshake(ssl); gather(); } }
	bool receive(std::string& to, double seconds) {
		if (!ended && !receiveRaw(seconds)) ended = true;
		char b[20000];
		while (true) {
			ERR_clear_error();
			int n = SSL_read(ssl, b, sizeof(b));
			if (n > 0) to.append(b, size_t(n));
			else {
				if (SSL_get_error(ssl, n) != SSL_ERROR_WANT_READ) ended = true;
				break;
			}
		}
		return !ended;
	}
	void notifyClose() { SSL_shutdown(ssl); flushEncrypted(); }
	~TlsPeer() {
		giveUp = true;
		if (handshake.joinable()) handshake.join();
		SSL_free(ssl);
		SSL_CTX_free(context);
	}
};
#endif
