// A server that follows a script, misbehaviour included.
#pragma once
#include "model.h"
enum Mis { M_NONE, M_SLOW, M_DRIP, M_FAIL, M_BAIL, M_JUNK, M_ENDLESS, M_PART_NOTIFY, M_NOTIFY, M_FIN, M_RST, M_STALL, M_PART_STALL, M_GARBAGE, M_PARTITION, M_PART_FIN,
	M_REFUSE, M_BLACKHOLE, M_DNS, M_KEY, M_HS_STALL, M_HS_CLOSE, M_HS_RST, M_PLAIN, M_END_STALL, M_END_FIN, M_END_RST, M_IMPOSTOR, M_NKIND };
static const char *const MN[] = {"behaves", "is slow", "drips its responses", "says FAIL", "says BAIL", "sends an unexpected line", "sends an endless line", "sends half a line and close_notify", "closes with close_notify", "closes without close_notify", "resets", "stalls", "stalls in the middle of a line", "sends garbage instead of TLS", "is cut off", "sends half a line and closes",
	"refuses the connection", "never answers the connection attempt", "cannot be resolved", "has another key", "stalls in the TLS handshake", "closes in the TLS handshake", "resets in the TLS handshake", "does not speak TLS", "does not answer the TLS shutdown", "closes without close_notify after QUIT", "resets after QUIT", "is an impostor without the password"};
struct Fake {
	Str name; int port; Str id, pw; int kind = M_NONE; int at = 0; double timeout = 15; size_t cut = 0; int junk = 0;
	PeerP p; Rng g; Str in; int resp = 0; bool hand = true, quit = false, bad_proto = false; size_t need = 0;
	std::vector<Str> cmds; int acked = 0; int nconn = 0;
	double t_mis = -1; bool mis = false, cont = false; bool quit_ok = false; Str cid;
	Str why;
};
typedef std::shared_ptr<Fake> FakeP;
inline void protocol_error(FakeP f, const Str &w) { if (!f->bad_proto) { f->bad_proto = true; f->why = w; } }
inline void misbehave(FakeP f, const Str &ok) { // instead of the response
	auto p = f->p.get(); f->mis = true; f->t_mis = W->now;
	f->cont = (f->kind == M_FAIL || f->kind == M_JUNK) && f->junk < 6; // keeps serving a client that does not care
	note_fault(Str("server.") + fmt("m%02d", f->kind), f->name);
	trace("%s: %s", f->name.c_str(), MN[f->kind]);
	static const char *moin_junk[] = {"OKAY", "HELO 1", "MOIN", "MOIN 2", "MOIN 0", "MOIN x", "MOIN 1 2", "", "PONG 1", "MOIN -1"};
	static const char *junk[] = {"MOIN 1", "OKAYX", "OKAY x", "", "YES", "PONG 1", "OKA", "okey", " OKAY", "O"};
	auto after = [p](double dt, std::function<void()> fn) { ev_after(dt, [p, fn] { if (!p->dead()) fn(); }); };
	switch (f->kind) {
	case M_FAIL: case M_BAIL: {
		static const char *reasons[] = {"", " You're not authorized", " x", " Internal error: 100% %s %n", " \x80\xff"};
		p->send(Str(f->kind == M_FAIL ? "FAIL" : "BAIL") + reasons[f->junk % 5] + "\r\n");
		if (f->kind == M_BAIL && f->junk % 2) after(0.01, [p] { p->shutdown_tls(); });
		if (f->junk >= 6) after(0.02, [p] { p->muted = true; });
		break;
	}
	case M_JUNK: p->send(Str(f->resp == 0 ? moin_junk[f->junk] : junk[f->junk]) + "\r\n"); if (f->junk >= 7) after(0.02, [p] { p->muted = true; }); break;
	case M_ENDLESS: p->send(Str(3000 + f->cut * 10, 'e')); break;
	case M_PART_NOTIFY: p->send(ok.substr(0, 2)); after(0.01, [p] { p->shutdown_tls(); if (p->rng.chance(0.5)) p->close_tcp(); }); break;
	case M_PART_FIN: p->send(ok.substr(0, 3)); after(0.01, [p] { p->rng.chance(0.5) ? p->fin_tcp() : p->close_tcp(); }); break;
	case M_NOTIFY: p->shutdown_tls(); if (f->junk % 2) p->close_tcp(); break;
	case M_FIN: f->junk % 2 ? p->fin_tcp() : p->close_tcp(); break;
	case M_RST: p->reset(); break;
	case M_STALL: p->muted = true; p->auto_close_reply = false; if (f->junk % 2) p->paused = true; break;
	case M_PART_STALL: p->send(ok.substr(0, f->junk % 2 ? 2 : ok.size() - 1)); after(0.001, [p] { p->muted = true; }); break;
	case M_GARBAGE: { Str s; for (int i = 0; i < 40; i++) s += (char)f->g.range(0, 255); s[0] = (char)f->g.range(64, 255); p->send_raw(s); break; }
	case M_PARTITION: p->c->hold_until = 1e9; break;
	}
}
inline void fake_begin(FakeP f, TcpConn *c, int tls, std::function<void(const Str &)> on_raw) { // a connection arrives
	f->p = new_peer(f->name);
	auto p = f->p.get();
	p->identity = f->id; p->tls = tls; p->np = c->np;
	p->psk_lookup = [f](const Str &id) { if (id != f->id) { protocol_error(f, "wrong identity " + quote(id)); } return f->kind == M_KEY ? "x" + f->pw : f->pw; };
	p->on_raw = on_raw;
	if (f->kind == M_HS_STALL) p->stall_after_rx = f->cut % 2 ? 0 : f->cut, f->mis = true, f->t_mis = W->now;
	if (f->kind == M_PLAIN) { p->plain = true; p->on_raw = nullptr; }
	if (f->kind == M_IMPOSTOR) {
		p->impostor = 1 + (int)(f->cut % 4); f->mis = f->cont = true; f->t_mis = W->now; note_fault("server.impostor", f->name);
		p->on_raw = [f, on_raw](const Str &s) {
			f->t_mis = W->now;
			static const char *const an[] = {"a certificate", "a certificate (TLS 1.2)", "anonymous ciphers", "ciphers that don't encrypt"};
			violate("P25", "%s: a server without the password, offering %s, got %s", f->name.c_str(), an[f->cut % 4], quote(s, 200).c_str());
			on_raw(s);
		};
	}
	p->attach(c);
	if (f->kind == M_HS_CLOSE || f->kind == M_HS_RST) {
		f->mis = true; f->t_mis = W->now; p->trunc_tx = f->junk % 2 ? 0 : f->cut % 100;
		double dt = f->g.real(0, 0.3);
		ev_after(dt, [f, p] { if (p->dead()) return; f->t_mis = W->now; if (f->kind == M_HS_RST) p->reset(); else p->close_tcp(); });
	}
	if (f->kind == M_PLAIN) { f->mis = true; f->t_mis = W->now; static const char *s[] = {"220 mail ESMTP\r\n", "HTTP/1.0 400 Bad Request\r\n\r\n", "\x80\x81zzzzzzzzz"}; p->send_raw(s[f->junk % 3]); if (f->junk % 2) p->close_tcp(); }
	if (f->kind == M_KEY) { f->mis = true; f->t_mis = W->now; }
}
