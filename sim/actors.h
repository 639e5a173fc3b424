// Simulated parties outside the programs under test: scripted TLS peers, the
// monitoring daemon reading the FIFO, and other local writers of the FIFO.
#pragma once
#include "core.h"
#include <openssl/ssl.h>

struct TlsPeer {
	enum Role { CLIENT, SERVER } role = CLIENT;
	enum St { CONNECTING, HANDSHAKE, READY, CLOSED } st = CONNECTING;
	Str label, identity, psk;
	int tls = 0;                 // 0 any, 12, 13
	bool plain = false;          // no TLS at all
	int impostor = 0;            // server role: knows no password, but has 1, 2: a certificate, 3: anonymous ciphers, 4: ciphers that don't encrypt
	Str ciphers;                 // TLS 1.2 cipher list other than the usual one
	bool omit_sni = true;
	NetProfile np;
	TcpConn *c = nullptr; int side = 0;
	SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr;
	Rng rng;
	Str inbuf, raw;              // received plaintext not yet consumed; all received plaintext
	Str outq; size_t outo = 0;   // encrypted bytes waiting for the window
	bool close_notify = false, fin = false, rst = false, tls_error = false, refused = false, peer_silent = false;
	bool sent_shutdown = false;
	bool paused = false;         // reads nothing
	bool muted = false;          // sends nothing any more
	bool auto_close_reply = true;// answer close_notify and close the socket
	size_t rec_max = 16384;      // TLS record size for writes
	double rec_gap = 0;          // pause between records
	double t_open = 0, t_ready = -1, t_closed = -1, t_last_rx = -1, t_last_tx = -1, t_close_notify = -1, t_fin = -1;
	size_t bytes_sent = 0;       // plaintext
	size_t cipher_rx = 0;
	std::deque<Str> sendq; bool sending = false;
	std::function<void()> on_ready, on_closed, on_sent;
	std::function<void(const Str &)> on_line;
	std::function<void(const Str &)> on_raw;
	SSL_SESSION *resume = nullptr; SSL_SESSION *ticket = nullptr;
	std::function<Str(const Str &)> psk_lookup; // server role
	Str peer_identity;
	bool handshake_stall = false; // stop feeding the handshake after n bytes
	size_t stall_after_rx = (size_t)-1;
	size_t tamper_tx = (size_t)-1, trunc_tx = (size_t)-1, total_tx = 0;
	double drip_gap = 0; size_t drip_n = 1; // bytes leave in small pieces with pauses in between
	double drip_next = -1; bool drip_armed = false;
	bool strict_lines = true;
	Str violation_ctx;
	bool dead() const { return st == CLOSED; }
	explicit TlsPeer(const Str &l);
	~TlsPeer();
	void connect(int port);          // CLIENT
	void attach(TcpConn *c);         // SERVER
	void pump();
	void send(const Str &data);      // application data, as records of at most rec_max
	void send_raw(const Str &data);  // bytes on the TCP stream
	void shutdown_tls();             // close_notify
	void close_tcp();                // close(2)
	void fin_tcp();                  // half close
	void reset();
private:
	void setup_ssl();
	void flush();
	void next_record();
	void closed();
	void feed(const Str &s);
};

typedef std::shared_ptr<TlsPeer> PeerP;

struct Reader { // the monitoring daemon
	Str path;
	bool open = false;
	std::shared_ptr<Inode> ino;
	double interval = 0.01; size_t chunk = 65536;
	bool paused = false;
	Str stream;
	double t_open = -1;
	uint64_t gen = 0;
	size_t nread = 0;
	void do_open();
	void do_close();
	void tick(uint64_t g);
};

void actors_init();
std::shared_ptr<TlsPeer> new_peer(const Str &label);
