// Hostile and broken clients next to well-behaved ones, and what connections leave behind.
#include "model.h"
#include <string.h>
#include <algorithm>
#include <openssl/ssl.h>

static Str rbytes(Rng &g, size_t n) { Str s(n, 0); for (auto &c : s) c = (char)g.u64(); return s; }
static Str rec(int type, int minor, const Str &body, int len = -1) {
	int l = len < 0 ? (int)body.size() : len;
	Str r; r += (char)type; r += (char)3; r += (char)minor; r += (char)(l >> 8); r += (char)l;
	return r + body;
}
static Str hs(int type, const Str &body, long len = -1) {
	long l = len < 0 ? (long)body.size() : len;
	Str r; r += (char)type; r += (char)(l >> 16); r += (char)(l >> 8); r += (char)l;
	return r + body;
}
static Str garbage(Rng &g) {
	switch (g.range(0, 11)) {
	case 0: return rbytes(g, (size_t)g.range(1, 2000));
	case 1: return "GET / HTTP/1.0\r\nHost: x\r\n\r\n";
	case 2: return "MOIN 1 abcdefgh\r\nPUSH 20\r\n[1] A;host1;0;ok\n";
	case 3: return rec(22, 1, rbytes(g, (size_t)g.range(1, 400)));
	case 4: return rec(22, 1, hs(1, rbytes(g, (size_t)g.range(1, 400))));
	case 5: return rec(22, 3, Str("x"), 0xffff) + rbytes(g, 500);
	case 6: return rec(22, 1, hs(1, rbytes(g, 300), 0xffffff)) + rec(22, 1, rbytes(g, 16000));
	case 7: { Str r; for (int i = 0; i < 40; i++) r += rec(22, 1, ""); return r; }
	case 8: return rec(21, 1, Str("\2\x28", 2)) + rec(21, 1, Str("\1\0", 2));
	case 9: return rec(23, 3, rbytes(g, 100));
	case 10: return Str("\x80\x2e\x01\0\2\0\x15\0\0\0\x10", 11) + rbytes(g, 37);
	default: return rec(20, 3, Str("\1", 1)) + rec(22, 1, hs((int)g.range(0, 24), rbytes(g, (size_t)g.range(0, 60))));
	}
}
static Str nasty_line(Rng &g) {
	static const char *v[] = {"MOIN", "PING", "PUSH", "NOOP", "QUIT", "BAIL", "moin", "Push", "", "X", "OKAY", "FAIL"};
	Str l = v[g.range(0, 11)];
	int n = (int)g.range(0, 3);
	for (int i = 0; i < n; i++) {
		l += g.chance(0.7) ? " " : "\t ";
		switch (g.range(0, 6)) {
		case 0: l += fmt("%lld", (long long)g.range(-5, 30)); break;
		case 1: l += "99999999999999999999999999"; break;
		case 2: l += "-2147483648"; break;
		case 3: l += "2147483647"; break;
		case 4: l += rand_text(g, (size_t)g.range(0, 200), true); break;
		case 5: l += "%s%n%x%d%s%s%n"; break;
		default: l += rbytes(g, (size_t)g.range(1, 40)); break;
		}
	}
	return l + (g.chance(0.6) ? "\r\n" : g.chance(0.8) ? "\n" : "\r");
}
static const char *AK[] = {"sends garbage", "sends garbage and half-closes", "resets at once", "connects and stays silent", "has a tampered handshake", "truncates its handshake", "uses a wrong password", "uses an unknown identity",
	"sends arbitrary protocol data", "sends a line without end", "sends garbage after the handshake", "tampers with its records", "updates keys or renegotiates", "resets in the middle of command data", "closes without reading the responses", "sends data after its close_notify",
	"resumes a session", "has an over-long identity", "floods requests", "sends command data with every byte value", "quits and sends a fatal alert"};
static const int NAK = sizeof AK / sizeof *AK;
struct Attacker { PeerP p; int k; Rng g; SrvCfg *c; int n = 0; };
typedef std::shared_ptr<Attacker> AttP;
static void leave(AttP a, double dt) {
	ev_after(dt, [a] {
		auto p = a->p; if (p->dead() || !p->c) return;
		switch (a->g.range(0, 5)) { case 0: p->reset(); break; case 1: p->close_tcp(); break; case 2: p->fin_tcp(); break; case 3: p->shutdown_tls(); break; case 4: p->muted = true; break; default: p->close_tcp(); }
		ev_after(8, [a] { if (!a->p->dead() && a->p->c) a->p->close_tcp(); });
	});
}
static void attack_go(AttP a) {
	auto p = a->p; Rng &g = a->g;
	rand_net(g, p->np); p->np.lat = std::min(p->np.lat, 0.02);
	p->tls = g.chance(0.35) ? 12 : g.chance(0.5) ? 13 : 0;
	p->identity = "evil"; p->psk = "evil-pw"; p->strict_lines = false;
	if (g.chance(0.3)) p->auto_close_reply = false;
	double hold = g.chance(0.5) ? g.real(0, 0.2) : g.real(0.2, 6);
	auto raw = [a] { return a->p.get(); };
	switch (a->k) {
	case 0: case 1: p->plain = true; p->on_ready = [a, raw] { Rng &g = a->g; int n = (int)g.range(1, 4); for (int i = 0; i < n; i++) raw()->send(garbage(g)); if (a->k == 1) raw()->fin_tcp(); }; break;
	case 2: p->plain = true; p->on_ready = [raw] { raw()->reset(); }; break;
	case 3: p->plain = true; break;
	case 4: break;
	case 5: p->trunc_tx = (size_t)g.range(0, 400); break;
	case 6: p->psk = g.chance(0.5) ? "evil-px" : "evil-p"; break;
	case 7: p->identity = rand_text(g, (size_t)g.range(1, 60)); break;
	case 17: p->identity = Str((size_t)g.range(100, 127), 'i'); break;
	case 16: p->on_ready = [a, raw] {
			raw()->send("MOIN 1 x\r\n");
			ev_after(0.3, [a] {
				auto p = a->p; if (p->dead()) return;
				if (p->ticket) {
					auto q = new_peer(p->label + "r"); q->identity = p->identity; q->psk = p->psk; q->resume = p->ticket; q->np = p->np; q->tls = p->tls;
					q->on_ready = [a, q = q.get()] { q->send("MOIN 1 y\r\n"); q->send("PUSH 5\r\n"); };
					auto b = std::make_shared<Attacker>(*a); b->p = q; q->connect(5668); leave(b, 1); probe("attack.resumed");
				}
				p->close_tcp();
			});
		}; break;
	default: p->on_ready = [a, raw] {
			Rng &g = a->g; TlsPeer *p = raw();
			if (g.chance(0.85)) p->send("MOIN 1 x\r\n");
			switch (a->k) {
			case 8: { int n = (int)g.range(1, 12); for (int i = 0; i < n; i++) p->send(g.chance(0.2) ? rbytes(g, (size_t)g.range(1, 300)) : nasty_line(g)); break; }
			case 9: { for (int i = 0; i < 5; i++) p->send(rand_text(g, 1000)); break; }
			case 10: p->send_raw(garbage(g)); break;
			case 12: {
				Rng *o = g_actor_rng; g_actor_rng = &p->rng;
				int n = (int)g.range(1, 30);
				if (SSL_version(p->ssl) == TLS1_3_VERSION) for (int i = 0; i < n; i++) { SSL_key_update(p->ssl, g.chance(0.5) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); SSL_do_handshake(p->ssl); }
				else SSL_renegotiate(p->ssl), SSL_do_handshake(p->ssl);
				g_actor_rng = o;
				p->send("NOOP\r\n"); break; }
			case 11: case 13: case 14: case 15: case 19: {
				ev_after(0.4, [a, raw] {
					TlsPeer *p = raw(); Rng &g = a->g; if (p->dead()) return;
					if (a->k == 14) { p->paused = true; for (int i = 0; i < 60; i++) p->send("X" + rand_text(g, 300) + "\r\n"); return; }
					if (a->k == 11 && p->c) { p->c->corrupt_side = 0; p->c->corrupt_at = p->c->e[1].total_rcvd + (size_t)g.range(0, 60); note_fault("net.corrupt", p->label); }
					p->send(fmt("PUSH %d\r\n", 300));
					ev_after(0.3, [a, raw] {
						TlsPeer *p = raw(); Rng &g = a->g; if (p->dead()) return;
						if (a->k == 19) { Str d; for (int i = 0; i < 300; i++) d += (char)g.u64(); p->send(d); return; }
						p->send(rand_text(g, (size_t)g.range(1, 299)));
						if (a->k == 13) p->reset();
						if (a->k == 15) { p->shutdown_tls(); p->send_raw(rec(23, 3, rbytes(g, 100))); }
					});
				});
				break; }
			case 20: // the response reaches it damaged, which it answers with a fatal alert
				ev_after(g.real(0.1, 0.4), [a, raw] {
					TlsPeer *p = raw(); Rng &g = a->g; if (p->dead() || !p->c) return;
					p->c->corrupt_side = 1; p->c->corrupt_at = p->c->e[0].total_rcvd + (size_t)g.range(5, g.chance(0.7) ? 30 : 70); note_fault("net.corrupt", p->label);
					p->send(g.chance(0.7) ? "QUIT\r\n" : g.chance(0.5) ? "BAIL no\r\n" : "NOOP\r\nQUIT\r\n");
				});
				break;
			case 18: { if (g.chance(0.4)) p->paused = true; Str d; int n = (int)g.range(50, 400); for (int i = 0; i < n; i++) d += g.chance(0.5) ? "NOOP\r\n" : "PUSH 0\r\n"; p->send(d); break; }
			}
		};
	}
	p->on_line = [a](const Str &) { a->n++; };
	p->connect(5668); if (p->c) p->c->fragile = true;
	if (a->k == 4 && p->c) { p->c->corrupt_side = (int)g.range(0, 1); p->c->corrupt_at = (size_t)g.range(0, g.chance(0.7) ? 60 : 500); note_fault("net.corrupt", p->label); }
	if (a->k != 3 || g.chance(0.8)) leave(a, hold + (a->k >= 8 ? 1.0 : 0.05));
}
static SrvCfg attack_cfg(Rng &g) {
	SrvCfg c = base_cfg(g, 2);
	AuthSec a; a.id = "evil"; a.pw = "evil-pw"; a.commands = {"nothing at all"}; c.auth.push_back(a);
	return c;
}
static SessP good_session(Env *e, Rng &h, const Str &name, double at, int n, size_t mx) {
	SrvCfg &c = e->c; const AuthSec &a = c.auth[(size_t)h.range(0, 1)];
	auto s = new_session(name, c, a.id, a.pw);
	rand_peer(h, *s->p); if (mx > 1000) { s->p->rec_max = std::max(s->p->rec_max, mx / 60); s->p->np.mss_max = std::max(s->p->np.mss_max, 400); }
	s->think_hi = h.chance(0.5) ? 0.01 : 1;
	s->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
	for (int i = 0; i < n; i++) { if (h.chance(0.8)) add_push(s, h, mk_cmd(h, (size_t)h.range(60, (int64_t)mx)), true); else s->script.push_back({RQ_LINE, "NOOP", nullptr, "", 0}); }
	s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
	s->start(at);
	return s;
}
static void gone_peer(int i, Rng &g) { // connects, and leaves before it can be accepted
	auto p = new_peer(fmt("g%d", i)); p->plain = true; p->np = NetProfile{0.0002, 0.0002, 1460, 1460, 65536}; int how = (int)g.range(0, 2); TlsPeer *q = p.get();
	p->on_ready = [q, how] { if (how == 2) q->send("garbage\r\n"); if (how) q->reset(); else q->close_tcp(); };
	p->connect(5668); if (p->c) p->c->fragile = true;
}
static void attack(Rng &g) {
	SrvCfg c = attack_cfg(g);
	c.timeout = g.chance(0.3) ? 0 : g.chance(0.5) ? 20 : 60;
	if (g.chance(0.15)) c.sync = true;
	if (g.chance(0.3)) c.log_level = 5;
	W->max_spin = 500000; // floods keep the server busy for a while
	bool exhaust = g.chance(0.12);
	Env *e = env_begin(g, c, 25, 75, g.chance(0.4) ? 0 : 1);
	if (g.chance(0.5)) W->fp["accept.aborted"] = 0.05;
	int ns = (int)g.range(1, 5);
	for (int i = 0; i < ns; i++) {
		Rng h; double at = e->t0 + 0.2 + g.real(0, 6);
		if (op(g, h, fmt("well-behaved session s%d from %.3f", i, at))) good_session(e, h, fmt("s%d", i), at, (int)h.range(1, 10), h.chance(0.2) ? 5000 : 300);
	}
	int na = g.chance(0.2) ? (int)g.range(20, 45) : (int)g.range(2, 14);
	double base = g.real(0, 3); int same = g.chance(0.25) ? (int)g.range(0, NAK - 1) : -1;
	for (int i = 0; i < na; i++) {
		Rng h; int k = same >= 0 ? same : (int)g.range(0, NAK - 1);
		double at = e->t0 + 0.2 + base + (na >= 20 ? g.real(0, 0.2) : g.real(0, 5));
		if (!op(g, h, fmt("a%d %s (from %.3f)", i, AK[k], at))) continue;
		auto a = std::make_shared<Attacker>(); a->p = new_peer(fmt("a%d", i)); a->k = k; a->g = h; a->c = &e->c;
		ev_at(at, [a] { attack_go(a); probe(fmt("attack.%d", a->k)); });
	}
	if (g.chance(0.2)) { // no memory for new TLS connections
		Rng h; double at = e->t0 + g.real(0.5, 6), dur = g.real(0.05, 0.6); int k = (int)g.range(1, 8);
		if (op(g, h, fmt("TLS objects cannot be allocated from %.3f for %.3f s, %d clients connect", at, dur, k))) {
			ev_at(at, [dur, k] {
				W->fp["ssl_new.fail"] = 1;
				for (int i = 0; i < k; i++) { auto p = new_peer(fmt("n%d", i)); p->plain = true; p->connect(5668); ev_after(dur + 1, [p] { p->close_tcp(); }); }
				ev_after(dur, [] { W->fp.erase("ssl_new.fail"); });
			});
			for (auto &s : all_sessions()) { Session *x = s.get(); s->on_started = [x, at, dur] { if (W->now > at - 3 && W->now < at + dur + 0.1) x->must_succeed = false; }; }
		}
	}
	if (g.chance(0.3)) { // connections that are gone when the server gets to see them
		Rng h; double at = e->t0 + g.real(0.5, 6), dur = g.real(0.01, 1); int k = (int)g.range(1, 10);
		if (op(g, h, fmt("at %.3f the server is stalled for %.3f s, while %d clients connect and are gone again", at, dur, k))) {
			Node *s = e->srv; auto gg = std::make_shared<Rng>(h.u64());
			ev_at(at, [s, dur, k, gg] { stall_node(s, dur); for (int i = 0; i < k; i++) gone_peer(i, *gg); });
		}
	}
	if (exhaust) { // more connections than descriptors
		Rng h; int extra = (int)g.range(5, 30); double at = e->t0 + g.real(1, 6), hold = g.real(0.1, 0.4);
		if (op(g, h, fmt("%d connections too many at %.3f for %.3f s", extra, at, hold))) {
			W->max_spin = 2000000; W->sys_cost = 5e-5;
			Node *s = e->srv; NetProfile np{0.0002, 0.0001, 1460, 1460, 65536};
			ev_at(at, [s, extra, hold, np] {
				note_fault("fd.exhaust", s->name);
				s->fd_limit = (int)s->fds.size() + 3 + extra / 3;
				for (int i = 0; i < extra; i++) { auto p = new_peer(fmt("f%d", i)); p->plain = true; p->np = np; p->connect(5668); ev_after(hold, [p] { p->close_tcp(); }); }
				ev_after(hold + 0.3, [s] { s->fd_limit = 256; });
			});
		}
	}
	Rng h(g.u64()); good_session(e, h, "late", e->T1 + 2, 3, 300);
	W->at_end.push_back([e] {
		if (e->srv->exited) return;
		expect_sessions_done("P10"); check_delivery("P01"); check_order();
		for (auto &s : all_sessions()) if (s->name == "late" && s->finished_ok && s->t_done > e->T1 + 40) violate("P10", "a session started after the attacks took until %.3f", s->t_done);
	});
}
static ScenReg r1("attack", attack);

// ---------------------------------------------------------------- leak: the same end of a connection, again and again
static const char *LK[] = {"complete sessions", "clients that disconnect at once", "clients that reset at once", "clients sending garbage", "clients with a wrong password", "clients with an unknown identity", "truncated handshakes", "refused commands without QUIT", "idle sessions", "endless lines", "PING, BAIL and QUIT", "resets in command data", "failing SSL allocations", "resumed sessions", "unread responses", "tampered handshakes", "aborted accepts", "half-closed connections", "clients that don't answer the TLS shutdown", "embedded NUL bytes", "silent connections", "BAIL in the middle", "commands while nobody reads the FIFO", "commands while the FIFO is gone", "commands while the FIFO is full", "commands while a regular file replaces the FIFO", "commands dumped into files", "unexpected requests before the session", "unexpected requests in the session", "clients that are gone before they are accepted"};
static const int NLK = sizeof LK / sizeof *LK;
struct LeakCtx { Env *e; int kind; int n; double to; int tls; int round = 0; size_t conns = 0; Rng g; };
typedef std::shared_ptr<LeakCtx> LeakP;
static void leak_one(LeakP x, int i) {
	Env *e = x->e; auto p = new_peer(fmt("x%d.%d", x->round, i)); x->conns++;
	TlsPeer *q = p.get(); Rng h(x->g.u64());
	p->np = NetProfile{0.0003, 0.0005, 200, 1460, 65536};
	p->tls = x->tls; p->strict_lines = false;
	p->identity = e->c.auth[0].id; p->psk = e->c.auth[0].pw;
	auto seq = std::make_shared<int>(0);
	auto moin = [q] { q->send("MOIN 1 x\r\n"); };
	double life = x->to * 2.2 + 1.5;
	switch (x->kind) {
	case 0: case 7: case 11: case 14: case 18: case 19: case 21: case 22: case 23: case 24: case 25: case 26: {
		p->on_ready = moin;
		if (x->kind == 18) p->auto_close_reply = false;
		auto cmd = std::make_shared<Str>(mk_cmd(h, x->kind == 26 ? 4600 : x->kind == 24 ? 1500 : 300));
		if (x->kind == 7) *cmd = "not a command\n";
		if (x->kind == 19) (*cmd)[20] = '\0';
		Cmd *rc = nullptr; if (x->kind == 0 || x->kind >= 22) { Cmd *k = L->add(q->identity, *cmd, true); rc = k; }
		p->on_line = [q, seq, cmd, rc, x](const Str &l) {
			int s = (*seq)++;
			if (x->kind == 21 && s == 1) { q->send("BAIL I have enough\r\n"); return; }
			if (x->kind == 18 && s == 0) { q->send("QUIT\r\n"); return; }
			if (x->kind == 14 && s == 0) { q->paused = true; for (int i = 0; i < 300; i++) q->send("NOOP\r\n"); ev_after(0.5, [q] { q->reset(); }); return; }
			if (s == 0) q->send(fmt("PUSH %zu\r\n", cmd->size()));
			else if (s == 1) {
				if (rc) rc->t_first = rc->t_sent = W->now;
				if (x->kind == 11) { q->send(cmd->substr(0, 100)); ev_after(0.1, [q] { q->reset(); }); return; }
				q->send(*cmd);
			} else if (s == 2) {
				if (rc && l == "OKAY") rc->t_ack = W->now;
				if (x->kind == 7) q->close_tcp(); else q->send("QUIT\r\n");
			}
		};
		break; }
	case 1: p->plain = true; p->on_ready = [q] { q->close_tcp(); }; break;
	case 2: p->plain = true; p->on_ready = [q] { q->reset(); }; break;
	case 3: { p->plain = true; auto gs = std::make_shared<Str>(garbage(h)); p->on_ready = [q, gs] { q->send(*gs); }; break; }
	case 4: p->psk += "x"; break;
	case 5: p->identity = "nobody"; break;
	case 6: p->trunc_tx = (size_t)h.range(1, 300); break;
	case 8: p->on_ready = moin; break;
	case 9: p->on_ready = [q] { q->send("MOIN 1 x\r\n" + Str(3000, 'a')); }; break;
	case 10: { int w = i % 3; p->on_ready = [q, w] { q->send(w == 0 ? "PING\r\n" : w == 1 ? "BAIL no\r\n" : "QUIT\r\n"); }; break; }
	case 12: p->on_ready = moin; break;
	case 13: p->on_ready = [q, x] {
			q->send("MOIN 1 x\r\n");
			ev_after(0.2, [q, x] {
				if (q->ticket) { auto r = new_peer(q->label + "r"); r->identity = q->identity; r->psk = q->psk; r->np = q->np; r->tls = q->tls; r->resume = q->ticket; x->conns++; r->connect(5668); ev_after(1, [r] { r->close_tcp(); }); }
				q->close_tcp();
			});
		}; break;
	case 15: break;
	case 16: p->plain = true; break;
	case 17: p->on_ready = [q] { q->send("MOIN 1 x\r\n"); ev_after(0.1, [q] { q->fin_tcp(); }); }; break;
	case 20: p->plain = true; break;
	case 27: case 28: {
		static const char *bad[2][7] = {{"MOIN", "MOIN 1 a b", "MOIN 0 a", "NOOP", "PUSH 10", "", "xyzzy"}, {"MOIN 1 x", "PUSH", "PUSH 10 10", "PUSH 0", "PUSH 99999999", "", "xyzzy"}};
		p->on_ready = [q, x] { q->send(x->kind == 27 ? Str(bad[0][0]) + "\r\n" : "MOIN 1 x\r\n"); };
		p->on_line = [q, seq, x](const Str &) { int s = ++*seq; if (s <= 12) q->send(Str(bad[x->kind - 27][s % 7]) + "\r\n"); else q->send("QUIT\r\n"); };
		break; }
	}
	p->connect(5668); if (p->c) p->c->fragile = true;
	if (x->kind == 15 && p->c) { p->c->corrupt_side = 0; p->c->corrupt_at = (size_t)h.range(0, 150); }
	ev_after(life, [p] { if (!p->dead() && p->c) p->close_tcp(); });
}
static void leak_round(LeakP x) {
	x->round++;
	if (x->kind == 12) W->fp["ssl_new.fail"] = 0.6;
	if (x->kind == 16) W->fp["accept.aborted"] = 0.5, W->fp["accept.emfile"] = 0.3;
	if (x->kind >= 22 && x->kind <= 25) {
		auto rd = x->e->rd; Str path = x->e->c.fifo; int k = x->kind;
		if (k == 24) rd->paused = true; else rd->do_close();
		if (k == 23 || k == 25) fs_rm(path);
		if (k == 25) fs_mk(path, Inode::REG, "precious\n", 0600);
		note_fault(fmt("outage.%d", k), "fifo");
		ev_after(k == 25 || (k < 24 && x->round == 2) ? 11 : x->g.real(0.2, 1.5), [rd, path, k] { // the next attempt to open it comes after ten seconds
			if (k == 24) { rd->paused = false; return; }
			if (k == 25) fs_rm(path);
			if (k >= 23) fs_mk(path, Inode::FIFO, "", 0660);
			rd->do_open();
		});
	}
	if (x->kind == 29) { stall_node(x->e->srv, 0.2); for (int i = 0; i < x->n; i++) { gone_peer(i, x->g); x->conns++; } return; }
	for (int i = 0; i < x->n; i++) { double t = 0.01 + i * 0.003; ev_after(t, [x, i] { leak_one(x, i); }); }
}
static size_t conn_fds(Node *n) { size_t k = 0, fifo = 0; for (auto &f : n->fds) if (f.second->type != OFile::EPOLL && f.second->type != OFile::EVENTFD && (f.second->type != OFile::FIFO_W || fifo++)) k++; return k; }
static void leak(Rng &g) {
	SrvCfg c = attack_cfg(g);
	static const double tv[] = {2, 3, 5};
	c.timeout = tv[g.range(0, 2)];
	W->mem_track = true;
	Env *e = env_begin(g, c, 1e4, 0, g.chance(0.5) ? 0 : 0.5);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	W->net = NetProfile{0.0005, 0.0005, 400, 1460, 65536}; W->preempt_p = 0; e->rd->interval = 0.02;
	auto x = std::make_shared<LeakCtx>(); x->e = e; x->kind = (int)g.range(0, NLK - 1); x->n = (int)g.range(8, 16); x->to = c.timeout; x->tls = g.chance(0.5) ? 12 : 13; x->g = Rng(g.u64());
	if (x->kind == 24) if (auto i = fs_get(c.fifo)) i->cap = 4096;
	Rng h; double gap = 2 * c.timeout + 14 + (x->kind == 22 || x->kind == 23 || x->kind == 25 ? 12 : 0); int rounds = 3;
	if (!op(g, h, fmt("%d rounds of %d: %s (TLS 1.%d)", rounds, x->n, LK[x->kind], x->tls - 10))) x->n = 0;
	struct M { size_t fds, cnt, bytes; };
	auto ms = std::make_shared<std::vector<M>>();
	Node *s = e->srv;
	auto measure = [ms, s] { ms->push_back({conn_fds(s), s->mem_count, s->mem_live}); trace("-- descriptors %zu, allocations %zu (%zu bytes)", ms->back().fds, ms->back().cnt, ms->back().bytes); };
	ev_at(e->t0 + 0.5, measure);
	for (int r = 0; r < rounds; r++) {
		ev_at(e->t0 + 0.6 + r * gap, [x] { leak_round(x); });
		ev_at(e->t0 + 0.6 + (r + 1) * gap - 0.3, [measure] { W->fp.erase("ssl_new.fail"); W->fp.erase("accept.aborted"); W->fp.erase("accept.emfile"); measure(); });
	}
	W->end_time = e->t0 + 1 + rounds * gap;
	W->at_end.push_back([e, ms, x, s] {
		if (s->exited || !x->n || ms->size() < 4) return;
		auto &a = (*ms)[1], &b = ms->back(); auto &z = (*ms)[0];
		size_t n = (size_t)x->n * 2;
		if (b.fds > z.fds) violate("P11", "%zu descriptors left open after %zu connections: %s", b.fds - z.fds, x->conns, LK[x->kind]);
		// OpenSSL allocates some things when they're first needed, which with random input can be late: a leak shows in each round
		bool each = (*ms)[2].cnt > a.cnt && b.cnt > (*ms)[2].cnt, random = x->kind == 3 || x->kind == 6 || x->kind == 12 || x->kind == 15 || x->kind == 16 || x->kind == 20;
		if (each && b.cnt >= a.cnt + n / (random ? 2 : 4)) violate("P11", "%zu allocations (%zu bytes) left after %zu connections: %s", b.cnt - a.cnt, b.bytes - a.bytes, n, LK[x->kind]);
		probe(fmt("leak.%d", x->kind));
		check_delivery("P01");
	});
}
static ScenReg r2("leak", leak);
