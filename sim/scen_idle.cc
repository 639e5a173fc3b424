// Idle timeouts: silent, trickling and busy clients, and clock jumps.
#include "model.h"
#include <string.h>
#include <algorithm>

struct Silent {
	PeerP p; int kind; Str what; double t_last = -1; // when its last byte reached the server
	Str lines; double t_bail = -1, t_eof = -1; bool est = false; size_t cut = 0;
};
typedef std::shared_ptr<Silent> SilP;
static const char *KN[] = {"connects and says nothing", "stops in the middle of the TLS handshake", "is silent after the TLS handshake", "is silent after MOIN", "stops in the middle of a line", "stops in the middle of command data", "does not answer the TLS shutdown after QUIT", "stops after a refused command", "sends half a TLS record and stops", "does not read its responses", "is silent after MOIN until it is told so, and then sends a request"};

static void silent_go(SilP x, const SrvCfg &c, Rng g) {
	auto p = x->p;
	p->identity = c.auth[0].id; p->psk = c.auth[0].pw;
	p->np = NetProfile{0.0005, 0.0005, 400, 1460, 65536};
	p->auto_close_reply = false;
	if (x->kind == 9) p->np.window = 700; // the responses fill it
	if (x->kind == 0) { p->plain = true; p->connect(5668); return; }
	if (x->kind == 1) { p->trunc_tx = x->cut; p->connect(5668); return; }
	p->on_line = [x, p = p.get(), g](const Str &l) mutable {
		x->lines += l + "\n";
		if (l.compare(0, 5, "BAIL ") == 0) { x->t_bail = W->now; if (x->kind == 10) p->send(x->cut % 3 == 0 ? "NOOP\r\n" : x->cut % 3 == 1 ? "PUSH 40\r\n" : "QUIT\r\n"); return; }
		if (l == "MOIN 1") {
			if (x->kind == 4) p->send("PU");
			else if (x->kind == 5) p->send("PUSH 500\r\n");
			else if (x->kind == 6) p->send("QUIT\r\n");
			else if (x->kind == 7) p->send("PUSH 20\r\n");
			else if (x->kind == 8) { p->trunc_tx = p->total_tx + 12; p->send("PUSH 500\r\n"); }
			else if (x->kind == 9) { p->paused = true; Str d; for (size_t i = 0; i < 40 + x->cut; i++) d += "NOOP\r\n"; p->send(d); }
		} else if (l == "OKAY") {
			if (x->kind == 5) p->send(Str((size_t)g.range(1, 499), 'z'));
			else if (x->kind == 7) p->send(Str(19, 'z') + "\n");
		}
	};
	p->on_ready = [x, p = p.get()] { x->est = true; if (x->kind == 2) return; if (x->kind == 4 && x->cut % 2) { p->send("MOI"); return; } p->send("MOIN 1 x\r\n"); };
	p->connect(5668);
}
static void watch(SilP x) { // notes when the server closes, whatever the peer does
	auto c = x->p->c;
	if (c && x->t_eof < 0 && (c->e[0].rx_fin || c->e[0].dead || c->e[1].closed)) x->t_eof = W->now;
	ev_after(0.2, [x] { watch(x); });
}
static void idle(Rng &g) {
	SrvCfg c = base_cfg(g, 2);
	static const double tv[] = {2, 3, 5, 10, 30, 60, 0};
	double to = tv[g.range(0, 6)]; c.timeout = to;
	double unit = to > 0 ? to : 60;
	Env *e = env_begin(g, c, 6 * unit + 10, to > 0 ? 3 * unit + 30 : 1500, g.chance(0.5) ? 0 : 1);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	W->net = NetProfile{0.0005, 0.0005, 400, 1460, 65536};
	e->rd->interval = 0.2;
	auto list = std::make_shared<std::vector<SilP>>();
	int n = (int)g.range(1, 5);
	for (int i = 0; i < n; i++) {
		int k = (int)g.range(0, 10); Rng h; double at = e->t0 + 0.5 + g.real(0, unit);
		if (!op(g, h, fmt("x%d %s (from %.3f)", i, KN[k], at))) continue;
		auto x = std::make_shared<Silent>(); x->kind = k; x->what = KN[k]; x->p = new_peer(fmt("x%d", i)); x->cut = (size_t)h.range(1, 250);
		x->p->tls = h.chance(0.4) ? 12 : 0;
		list->push_back(x);
		ev_at(at, [x, c, h] { silent_go(x, c, h); watch(x); });
	}
	// clients that are never silent for as long as the timeout
	int na = (int)g.range(1, 4);
	for (int i = 0; i < na; i++) {
		Rng h; double at = e->t0 + 0.5 + g.real(0, unit);
		int style = (int)g.range(0, 3);
		static const char *sn[] = {"drips its bytes", "sends one byte per record", "pauses between requests", "is quick"};
		if (!op(g, h, fmt("session s%d %s (from %.3f)", i, sn[style], at))) continue;
		const AuthSec &a = c.auth[0];
		auto s = new_session(fmt("s%d", i), e->c, a.id, a.pw);
		s->also.push_back("P08");
		auto p = s->p.get(); p->np = NetProfile{0.0005, 0.0005, 400, 1460, 65536}; p->tls = h.chance(0.4) ? 12 : 0;
		s->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
		int reqs = style == 2 ? (int)h.range(2, 5) : 1;
		for (int k = 0; k < reqs; k++) { if (h.chance(0.7)) add_push(s, h, mk_cmd(h, 80), true); else s->script.push_back({RQ_LINE, h.chance(0.5) ? "NOOP" : "x", nullptr, "", 0}); }
		s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		if (style == 0) { p->drip_gap = 0.9 * unit; p->drip_n = (size_t)h.range(180, 400); } // handshake and all else in pieces
		else if (style == 1) { p->rec_max = (size_t)h.range(15, 30); p->rec_gap = 0.5 * unit; }
		else if (style == 2) { s->think_lo = 0.6 * unit; s->think_hi = 0.9 * unit; }
		if (to <= 0 && style == 2) { s->think_lo = 100; s->think_hi = 300; }
		s->start(at);
	}
	// the wall clock jumps
	if (g.chance(0.4)) for (int i = (int)g.range(1, 3); i > 0; i--) {
		Rng h; double at = e->t0 + g.real(1, 3 * unit), by = (g.chance(0.5) ? 1 : -1) * (g.chance(0.5) ? g.real(0.1, 2) * unit : g.real(100, 100000));
		if (op(g, h, fmt("the wall clock jumps by %.1f s at %.3f", by, at))) ev_at(at, [by] { note_fault("clock.jump", "wall"); W->wall_off += by; trace("-- wall clock jumps by %.3f s --", by); });
	}
	// the server itself is slow for a while
	double slack = 1.5;
	if (g.chance(0.35)) {
		Rng h; double at = e->t0 + g.real(0.5, 3 * unit), dur = unit * g.real(0.2, 2.5);
		if (op(g, h, fmt("the server is stalled at %.3f for %.3f s", at, dur))) { Node *s = e->srv; slack += dur; ev_at(at, [s, dur] { stall_node(s, dur); }); }
	}
	W->at_end.push_back([e, list, to, slack] {
		if (e->srv->exited) return;
		for (auto &x : *list) {
			auto pc = x->p->c; if (!pc) continue;
			double last = pc->e[0].last_arrival; // the last byte of the client arrived
			last = std::max(last, x->p->t_open);
			auto when = [&](double t) { return t < 0 ? Str("never") : fmt("%.3f s after its last byte", t - last); };
			if (to <= 0) {
				if (x->t_eof >= 0 && x->kind != 6) violate("P08", "%s %s; the connection was closed (%s) although the timeout is disabled", x->p->label.c_str(), x->what.c_str(), when(x->t_eof).c_str());
				continue;
			}
			bool est = x->est && x->kind != 6;
			if (x->t_eof < 0 || x->t_eof > last + (est ? 2 : 2) * to + slack + (x->kind == 6 ? to : 0)) violate("P08", "%s %s; the server closed the connection %s (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), when(x->t_eof).c_str(), to);
			else if (x->kind != 6 && x->kind != 10 && x->t_eof < last + to - 0.05) violate("P08", "%s %s; the server closed the connection already %s (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), when(x->t_eof).c_str(), to);
			if (est && x->kind != 9) {
				if (x->t_bail < 0 || x->lines.find("BAIL Connection timed out\n") == Str::npos) violate("P08", "%s %s; it was sent no BAIL message, only %s", x->p->label.c_str(), x->what.c_str(), quote(x->lines).c_str());
				else if (x->kind == 10) probe("idle.bail");
				else if (x->t_bail > last + to + slack) violate("P08", "%s %s; BAIL came %s (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), when(x->t_bail).c_str(), to);
				else if (x->t_bail < last + to - 0.05) violate("P08", "%s %s; BAIL came already %s (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), when(x->t_bail).c_str(), to);
				else probe("idle.bail");
			}
			probe(fmt("idle.closed.%d", x->kind));
		}
		expect_sessions_done("P08"); check_delivery("P01");
	});
}
static ScenReg r1("idle", idle);

// Lots of connections at once, most of which never get past the TLS handshake.
struct Raw { PeerP p; int kind; Str what; double t_eof = -1, t_own = -1; };
static void raw_watch(std::shared_ptr<Raw> x) {
	auto c = x->p->c;
	if (c && x->t_eof < 0 && (c->e[0].rx_fin || c->e[0].dead || c->e[1].closed)) { x->t_eof = W->now; return; }
	ev_after(0.1, [x] { raw_watch(x); });
}
static void crowd(Rng &g) {
	static const char *kn[] = {"says nothing", "sends the start of a TLS record", "drips for a while", "closes the connection", "resets the connection"};
	static const Str hello = Str("\x16\x03\x01\x01\xff\x01\x00\x01\xfb\x03\x03", 11) + Str(300, 'r');
	SrvCfg c = base_cfg(g, 2);
	static const double tv[] = {2, 3, 5, 10, 30};
	double to = tv[g.range(0, 4)]; c.timeout = to;
	Env *e = env_begin(g, c, 5 * to + 10, 3 * to + 30, g.chance(0.5) ? 0 : 1);
	for (auto k : {"net.delay", "accept.emfile", "accept.aborted", "timer.late"}) W->fp.erase(k);
	W->net = NetProfile{0.0005, 0.0005, 400, 1460, 65536};
	e->rd->interval = 0.2;
	auto list = std::make_shared<std::vector<std::shared_ptr<Raw>>>();
	int n = g.chance(0.3) ? (int)g.range(6, 20) : (int)g.range(20, 125);
	bool burst = g.chance(0.4); double window = g.chance(0.5) ? to : 2 * to, t1 = e->t0 + 0.5 + g.real(0, to);
	bool stall = g.chance(0.5), herd = burst && stall && g.chance(0.5); double st_at = burst ? t1 + (g.chance(0.5) ? -0.01 : to * g.real(0, 1)) : e->t0 + 0.5 + g.real(0, window), st_dur = to * g.real(0.05, 1.6);
	if (herd) n = (int)g.range(60, 125), st_at = t1 + 0.2 + to * g.real(0, 0.5);
	for (int i = 0; i < n; i++) {
		Rng h; int k = herd ? (int)g.range(3, 4) : g.chance(0.4) ? 0 : (int)g.range(0, 4);
		double at = burst ? t1 + g.real(0, 0.05) : e->t0 + 0.5 + g.real(0, window), d = g.real(0.02, 0.98) * to;
		if (stall && k >= 3 && (herd || g.chance(0.5))) d = std::max(0.01, st_at + st_dur * g.real(0, 1) - at); // while the server doesn't look
		if (!op(g, h, fmt("c%d %s (from %.3f)", i, kn[k], at))) continue;
		auto x = std::make_shared<Raw>(); x->kind = k; x->what = kn[k]; x->p = new_peer(fmt("c%d", i)); list->push_back(x);
		auto p = x->p.get(); p->np = NetProfile{0.0005, 0.0005, 400, 1460, 65536}; p->plain = true; p->auto_close_reply = false;
		ev_at(at, [x, p, h, k, d, to]() mutable {
			p->connect(5668); raw_watch(x);
			if (k == 1) { size_t l = (size_t)h.range(1, 60); ev_after(0.01, [p, l] { if (!p->dead()) p->send_raw(hello.substr(0, l)); }); }
			if (k == 2) { double t = 0; for (int j = 0, m = (int)h.range(1, 5); j < m; j++) { t += to * h.real(0.1, 0.9); Str s = hello.substr((size_t)j * 8, 8); ev_after(t, [p, s] { if (!p->dead()) p->send_raw(s); }); } }
			if (k >= 3) ev_after(d, [x, p, k] { if (p->dead() || x->t_eof >= 0) return; x->t_own = W->now; if (k == 3) p->close_tcp(); else p->reset(); });
		});
	}
	for (int i = 0, m = (int)g.range(1, 5); i < m; i++) { Rng h; double at = W->now + g.real(0.5, 2 * to); if (stall && st_dur > 0.4 * to) at = st_at + st_dur + g.real(0.5, 2 * to); if (!op(g, h, fmt("session s%d at %.3f", i, at))) continue; auto s = simple_session(fmt("s%d", i), e->c, h, at, (int)h.range(1, 3)); s->also = {"P08", "P10"}; }
	if (stall) { Rng h; if (op(g, h, fmt("the server is stalled at %.3f for %.3f s", st_at, st_dur))) ev_at(st_at, [e, st_dur] { stall_node(e->srv, st_dur); }); }
	double slack = 1.5 + (stall ? st_dur : 0);
	W->at_end.push_back([e, list, to, slack] {
		if (e->srv->exited) return;
		for (auto &x : *list) {
			auto pc = x->p->c; if (!pc) continue;
			double last = std::max(pc->e[0].last_arrival, x->p->t_open);
			if (x->t_own >= 0) {
				if (!pc->e[1].closed) violate("P08", "%s %s at %.3f; the server never closed the connection", x->p->label.c_str(), x->what.c_str(), x->t_own);
				continue;
			}
			if (x->t_eof < 0) violate("P08", "%s %s; the server never closed the connection (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), to);
			else if (x->t_eof > last + to + slack) violate("P08", "%s %s; the server closed the connection %.3f s after its last byte (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), x->t_eof - last, to);
			else if (x->t_eof < last + to - 0.05) violate("P08", "%s %s; the server closed the connection already %.3f s after its last byte (timeout %.1f)", x->p->label.c_str(), x->what.c_str(), x->t_eof - last, to);
			else probe("crowd.closed");
		}
		if (list->size() > 64) probe("crowd.over64");
		expect_sessions_done("P10"); check_delivery("P01");
	});
}
static ScenReg r2("crowd", crowd);
