// Random request sequences against the reference protocol model.
#include "model.h"
#include <string.h>
#include <algorithm>

static Str rcase(Rng &g, Str v) { if (g.chance(0.6)) return v; for (auto &c : v) if (g.chance(0.5)) c = (char)tolower((unsigned char)c); return v; }
static Str blanks(Rng &g, size_t max = 5) { Str r; size_t n = (size_t)g.range(1, g.chance(0.8) ? 1 : (int64_t)max); for (size_t i = 0; i < n; i++) r += g.chance(0.8) ? ' ' : '\t'; return r; }
static Str word(Rng &g, size_t lo, size_t hi) { static const char *al = "abcdefghijklmnopqrstuvwxyz0123456789-_./+="; Str r; size_t n = (size_t)g.range((int64_t)lo, (int64_t)hi); for (size_t i = 0; i < n; i++) r += al[g.u64() % 42]; return r; }
// A line that starts with no request verb.
static Str junk(Rng &g, size_t max) {
	for (;;) {
		Str r = rand_text(g, (size_t)g.range(0, (int64_t)max), true), u;
		for (auto &c : r) if (c == '\n' || c == '\r') c = '?';
		for (size_t i = 0; i < 4 && i < r.size(); i++) u += (char)toupper((unsigned char)r[i]);
		if (u == "MOIN" || u == "PING" || u == "QUIT" || u == "BAIL" || u == "PUSH" || u == "NOOP") continue;
		return r;
	}
}
static Str moin(Rng &g, bool good) {
	Str v = rcase(g, "MOIN");
	if (good) return v + blanks(g) + (g.chance(0.7) ? "1" : g.chance(0.5) ? "2" : "17") + blanks(g) + word(g, 2, 64) + (g.chance(0.1) ? " " : "");
	switch (g.range(0, 5)) {
	case 0: return v;
	case 1: return v + " 1";
	case 2: return v + " 1 " + word(g, 2, 20) + " " + word(g, 1, 5);
	case 3: return v + " 0 " + word(g, 2, 20);
	case 4: return v + " -1 " + word(g, 2, 20);
	default: return v + " x" + word(g, 1, 1) + " abc";
	}
}
static Str push_num(Rng &g, size_t max) { // numbers that must be refused
	switch (g.range(0, 9)) {
	case 0: return "0";
	case 1: return "-1";
	case 2: return "x";
	case 3: return max ? fmt("%zu", max + 1) : "-77";
	case 4: return max ? fmt("%zu", max + (size_t)g.range(1, 100000)) : "0";
	case 5: return g.chance(0.5) ? fmt("%llu", 2147483647ULL + (uint64_t)g.range(0, 2)) : "-2147483648";
	case 6: return g.chance(0.5) ? "4294967297" : g.chance(0.2) ? "000" : fmt("%llu", 4294967296ULL + (uint64_t)g.range(1, max ? (int64_t)max : 5000));
	case 7: return g.chance(0.5) ? "18446744073709551617" : "9223372036854775808";
	case 8: return g.chance(0.8) ? "99999999999999999999999999999999999" : "-0";
	default: return g.chance(0.5) ? "-18446744073709551615" : "none";
	}
}
struct Opt { bool sizes = false, lines = false; };
static void add_line(SessP s, const Str &l) { s->script.push_back({RQ_LINE, l, nullptr, "", 0}); }
static void add_data(SessP s, Rng &g, size_t n, bool good) {
	Req r; r.k = RQ_LINE; r.line = rcase(g, "PUSH") + blanks(g) + (g.chance(0.15) ? Str((size_t)g.range(1, g.chance(0.3) ? 900 : 5), '0') : "") + fmt("%zu", n);
	if (g.chance(0.1)) r.line += " ";
	Str t = good && n >= 90 ? mk_cmd(g, n) : Str();
	if (t.size() != n) {
		// data no identity may submit, distinguishable if it ever shows up
		t = "J" + uniq(); t += rand_text(g, n > t.size() ? n - t.size() : 0, true);
		t.resize(n);
		for (auto &c : t) if (c == '\n' || c == '\0') c = '~';
		if (g.chance(0.5)) t[n - 1] = '\n';
		good = false;
	}
	r.data = t;
	r.cmd = L->add(s->ident, t, good);
	r.cmd->session = s->id;
	s->script.push_back(r);
}
static void script(SessP s, Rng &g, const SrvCfg &c, const Opt &o) {
	size_t max = c.max_cmd < 0 ? 16384 : (size_t)c.max_cmd;
	size_t lmax = o.lines ? 1020 : 60;
	int n = (int)g.range(0, 3);
	for (int i = 0; i < n; i++) switch (g.range(0, 5)) { // before the session is established
		case 0: add_line(s, junk(g, lmax)); break;
		case 1: add_line(s, moin(g, false)); break;
		case 2: add_line(s, rcase(g, "NOOP")); break;
		case 3: add_line(s, rcase(g, "PUSH") + " 100"); break;
		case 4: add_line(s, ""); break;
		default: add_line(s, junk(g, 10)); break;
	}
	double fate = g.uni();
	if (fate < 0.08) { add_line(s, rcase(g, "PING") + (g.chance(0.3) ? " 1" : "")); return; }
	if (fate < 0.12) { add_line(s, rcase(g, "QUIT")); return; }
	if (fate < 0.16) { add_line(s, rcase(g, "BAIL") + " " + rand_text(g, (size_t)g.range(1, (int64_t)lmax))); return; }
	Str m = moin(g, true);
	if (o.lines && g.chance(0.4)) { m = "MOIN" + Str((size_t)g.range(1, 1022 - 4 - 3 - 20), ' ') + "1 " + word(g, 2, 20); }
	add_line(s, m);
	n = (int)g.range(1, o.sizes ? 14 : 10);
	for (int i = 0; i < n; i++) {
		int k = (int)g.range(0, 9);
		if (o.sizes && k > 3 && k < 8) k = g.chance(0.5) ? 8 : 9;
		switch (k) {
		case 0: add_line(s, rcase(g, "NOOP") + (g.chance(0.1) ? " x" : "")); break;
		case 1: add_line(s, junk(g, lmax)); break;
		case 2: add_line(s, rcase(g, "PUSH") + (g.chance(0.5) ? "" : " 10 10")); break;
		case 3: add_line(s, moin(g, true)); break; // no second MOIN
		case 4: add_line(s, rcase(g, "PING")); break;
		case 5: case 6: case 7: add_data(s, g, std::min((size_t)g.range(90, 500), max ? max : 500), true); break;
		case 8: add_line(s, rcase(g, "PUSH") + blanks(g) + push_num(g, max)); break;
		default: {
			size_t hi = max ? max : 40000, z;
			switch (g.range(0, 4)) { case 0: z = hi; break; case 1: z = hi > 1 ? hi - 1 : 1; break; case 2: z = (size_t)g.range(1, (int64_t)std::min(hi, (size_t)8)); break; case 3: z = (size_t)g.range(1, (int64_t)hi); break; default: z = std::min(hi, (size_t)g.range(1, 3) * 2048 + (size_t)g.range(0, 2) - 1); break; }
			if (!o.sizes && z > 3000 && g.chance(0.7)) z = 1 + z % 3000;
			add_data(s, g, z, g.chance(0.6)); break; }
		}
	}
	if (g.chance(0.7)) add_line(s, rcase(g, "QUIT") + (g.chance(0.1) ? " now" : ""));
	else if (g.chance(0.7)) add_line(s, rcase(g, "BAIL") + " " + rand_text(g, (size_t)g.range(0, (int64_t)lmax)));
	else { add_line(s, rcase(g, "NOOP")); add_line(s, rcase(g, "QUIT")); }
}
static void peer_for(SessP s, Rng &g) {
	rand_peer(g, *s->p);
	size_t big = 0, tot = 0; for (auto &r : s->script) { big = std::max(big, std::max(r.data.size(), r.line.size())); tot += r.data.size() + r.line.size(); }
	s->p->rec_max = std::max(s->p->rec_max, tot / 80 + 1);
	s->p->np.mss_max = std::max(s->p->np.mss_max, (int)(tot / 100 + 1));
	s->crlf = g.chance(0.7); s->think_hi = g.chance(0.5) ? 0.001 : g.real(0.01, 0.4);
	s->hold_p = g.chance(0.5) ? 0 : g.chance(0.5) ? 0.2 : 0.5;
}
static void proto_run(Rng &g, int flavour) {
	SrvCfg c = base_cfg(g, 2); c.timeout = g.chance(0.5) ? 0 : 60; c.sync = g.chance(0.1);
	Opt o; o.sizes = flavour == 1; o.lines = flavour == 2;
	static const long mx[] = {-1, 1, 2, 16, 100, 2000, 2048, 5000, 16384, 65536, 0};
	if (o.sizes || g.chance(0.2)) c.max_cmd = mx[g.range(0, 10)];
	c.timeout = 0; // the length of a session depends on the network
	Env *e = env_begin(g, c, 40, 40, g.chance(0.4) ? 0 : 1);
	e->rd->interval = 0.005;
	int ns = (int)g.range(1, 6);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, 3); Rng h;
		if (!op(g, h, fmt("session s%d at %.3f", i, at))) continue;
		const AuthSec &a = c.auth[(size_t)h.range(0, (int64_t)c.auth.size() - 1)];
		auto s = new_session(fmt("s%d", i), e->c, a.id, a.pw);
		s->also.push_back(o.sizes ? "P20" : o.lines ? "P21" : "P07");
		script(s, h, e->c, o); peer_for(s, h); s->start(at);
	}
	W->at_end.push_back([e, o] {
		if (e->srv->exited) return;
		expect_sessions_done("P07"); if (o.sizes) expect_sessions_done("P20"); if (o.lines) expect_sessions_done("P21");
		expect_sessions_done("P10"); check_delivery("P01");
	});
}
static ScenReg r1("proto", [](Rng &g) { proto_run(g, 0); });
static ScenReg r2("sizes", [](Rng &g) { proto_run(g, 1); });
static ScenReg r3("lines", [](Rng &g) { proto_run(g, 2); });

// ---------------------------------------------------------------- pipeline: requests without waiting for the responses (no command data)
static void pipeline(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 0; c.sync = g.chance(0.1);
	Env *e = env_begin(g, c, 40, 40, g.chance(0.4) ? 0 : 1);
	int ns = (int)g.range(1, 4);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, 3); Rng h;
		if (!op(g, h, fmt("session p%d at %.3f", i, at))) continue;
		struct Pipe { PeerP p; Str all; std::vector<Str> want, got; bool waits = false; };
		auto x = std::make_shared<Pipe>(); const AuthSec &a = c.auth[(size_t)h.range(0, (int64_t)c.auth.size() - 1)];
		x->p = new_peer(fmt("p%d", i)); x->p->identity = a.id; x->p->psk = a.pw; rand_peer(h, *x->p);
		x->p->rec_max = h.chance(0.6) ? 16384 : h.chance(0.5) ? 400 : x->p->rec_max;
		x->p->np.mss_max = std::max(x->p->np.mss_max, 20);
		int st = 0, n = (int)h.range(1, h.chance(0.2) ? 120 : 14); bool close = false; size_t need, max = c.max_cmd < 0 ? 16384 : (size_t)c.max_cmd;
		auto add = [&](const Str &l) { Str r = proto_model(st, l, max, need, close); x->all += l + (h.chance(0.7) ? "\r\n" : "\n"); x->want.push_back(r); };
		if (h.chance(0.2)) add(junk(h, 60));
		add(moin(h, h.chance(0.85)));
		for (int k = 0; k < n && !close; k++) switch (h.range(0, 4)) {
			case 0: add(junk(h, h.chance(0.3) ? 900 : 60)); break;
			case 1: add(moin(h, true)); break;
			case 2: if (st == 1) { add(rcase(h, "PUSH") + blanks(h) + push_num(h, max)); break; } // fall through
			default: add(rcase(h, "NOOP"));
		}
		if (!close) add(h.chance(0.7) ? "QUIT" : "BAIL enough");
		if (x->want.back().empty()) x->want.pop_back();
		TlsPeer *q = x->p.get();
		q->on_ready = [x, q] { q->send(x->all); };
		q->on_line = [x](const Str &l) { x->got.push_back(l); };
		ev_at(at, [q] { q->connect(5668); });
		W->at_end.push_back([x, e] {
			if (e->srv->exited) return;
			bool bad = x->got.size() != x->want.size(); size_t k = 0;
			for (; !bad && k < x->want.size(); k++) if (x->want[k] == "FAIL" ? x->got[k].compare(0, 5, "FAIL ") != 0 : x->got[k] != x->want[k]) bad = true;
			if (bad) violate("P07", "%s sent %zu requests at once and got %zu of %zu responses%s", x->p->label.c_str(), x->want.size(), x->got.size(), x->want.size(), x->got.size() == x->want.size() ? fmt("; response %zu is %s, expected %s", k, quote(x->got[k - 1]).c_str(), x->want[k - 1].c_str()).c_str() : "");
			else { if (!x->p->dead()) violate("P07", "%s is still connected after the end of its session", x->p->label.c_str()); probe("pipeline.done"); }
		});
	}
	Rng h(g.u64()); simple_session("late", e->c, h, e->T1 + 2, 2, 300);
	W->at_end.push_back([e] { if (!e->srv->exited) { expect_sessions_done("P07"); expect_sessions_done("P10"); check_delivery("P01"); } });
}
static ScenReg r5("pipeline", pipeline);

// ---------------------------------------------------------------- endless: lines without an end
struct Endless { SessP s; PeerP p; Rng g; size_t limit, sent = 0; int stage = 0; bool bailed = false; Str got; double t_start = -1; size_t pre = 0; bool held = false; };
static void pour(std::shared_ptr<Endless> x) {
	if (x->p->dead() || x->sent >= x->limit || x->bailed) return;
	size_t k = (size_t)x->g.range(1, x->g.chance(0.2) ? 4000 : 300);
	k = std::min(k, x->limit - x->sent);
	x->sent += k;
	if (!x->held && x->sent > 1000000) x->held = true;
	x->p->send(Str(k, "A x"[x->g.range(0, 2)]));
	ev_after(x->g.chance(0.5) ? 0.0005 : x->g.real(0, 0.01), [x] { pour(x); });
}
static void endless(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = g.chance(0.5) ? 0 : 30;
	W->mem_track = true;
	Env *e = env_begin(g, c, 30, 60, g.chance(0.5) ? 0 : 0.5);
	e->rd->interval = 0.01;
	int n = (int)g.range(1, 3);
	auto list = std::make_shared<std::vector<std::shared_ptr<Endless>>>();
	for (int i = 0; i < n; i++) {
		double at = e->t0 + 0.5 + g.real(0, 3); Rng h;
		if (!op(g, h, fmt("x%d sends a line without end at %.3f", i, at))) continue;
		auto x = std::make_shared<Endless>(); x->g = Rng(h.u64());
		x->p = new_peer(fmt("x%d", i)); x->p->identity = c.auth[0].id; x->p->psk = c.auth[0].pw;
		rand_peer(h, *x->p); x->p->rec_max = std::max(x->p->rec_max, (size_t)100); x->p->np.mss_max = std::max(x->p->np.mss_max, 400); x->p->rec_gap = 0;
		x->stage = h.chance(0.5); x->limit = h.chance(0.4) ? (size_t)h.range(4096, 9000) : (size_t)h.range(20000, 400000);
		bool nl = h.chance(0.3); // the line does end, but only after the limit
		list->push_back(x);
		x->p->on_ready = [x, nl] {
			if (x->stage) x->p->send("MOIN 1 xx\r\n");
			else { x->t_start = W->now; if (nl) x->p->send(Str((size_t)x->g.range(4096, 8192), 'y') + "\r\n"); else pour(x); }
		};
		x->p->on_line = [x, nl](const Str &l) {
			if (x->t_start < 0) { x->t_start = W->now; if (nl) { x->p->send("NOOP" + Str((size_t)x->g.range(4096, 8192), ' ') + "\r\n"); x->limit = 0; } else pour(x); return; }
			x->got += l + "\n";
			if (l.compare(0, 5, "BAIL ") == 0) { x->bailed = true; probe("line.bail"); }
		};
		ev_at(at, [x] { x->p->connect(5668); });
	}
	// Sessions at the same time are not affected
	int ns = (int)g.range(1, 3);
	for (int i = 0; i < ns; i++) { Rng h; double at = e->t0 + 0.3 + g.real(0, 3); if (op(g, h, fmt("session s%d at %.3f", i, at))) simple_session(fmt("s%d", i), e->c, h, at, (int)h.range(1, 5), 400); }
	auto base = std::make_shared<size_t>(0);
	ev_at(e->t0 + 0.29, [e, base] { *base = e->srv->mem_live; });
	int total = n + ns;
	W->at_end.push_back([e, list, base, total] {
		if (e->srv->exited) return;
		expect_sessions_done("P21"); expect_sessions_done("P10");
		for (auto &x : *list) {
			if (x->t_start < 0) { violate("P21", "%s could not start its line", x->p->label.c_str()); continue; }
			if (x->got != "BAIL Request line too long\n") violate("P21", "%s sent a line of %zu bytes without an end and got %s", x->p->label.c_str(), std::max(x->sent, (size_t)4096), quote(x->got).c_str());
			if (!x->p->dead()) violate("P21", "%s sent a line without an end and is still connected", x->p->label.c_str());
			size_t took = x->p->c ? x->p->c->e[1].total_rcvd : 0;
			if (took > 200000) violate("P21", "the server read %zu bytes of a line without end from %s", took, x->p->label.c_str());
		}
		size_t grew = e->srv->mem_max > *base ? e->srv->mem_max - *base : 0;
		// per connection: TLS state (well below 100 KiB) and a few kilobytes of line
		if (grew > (size_t)total * 150000 + 200000) violate("P21", "the server's memory grew by %zu bytes while %zu clients sent lines without end", grew, list->size());
		W->sample["memory growth"] = fmt("%zu", grew);
	});
}
static ScenReg r4("endless", endless);
// Requests without end from clients that read the responses late or never.
struct Flood { PeerP p; Str all; std::vector<Str> want; size_t n = 0, bad = 0; Str first_bad; int mode = 0; double t0 = 0, wait = 0; Rng g; bool started = false; };
static void flood_toggle(std::shared_ptr<Flood> x) {
	if (x->p->dead() || W->now > x->t0 + 12) { x->p->paused = false; if (!x->p->dead()) x->p->pump(); return; }
	x->p->paused = !x->p->paused; if (!x->p->paused) x->p->pump();
	ev_after(x->g.real(0.001, x->p->paused ? 1.5 : 0.05), [x] { flood_toggle(x); });
}
static void flood(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = g.chance(0.5) ? 0 : 40; c.log_level = (int)g.range(2, 4);
	W->mem_track = true;
	Env *e = env_begin(g, c, 30, 100, g.chance(0.5) ? 0 : 0.5);
	W->max_spin = 500000; e->rd->interval = 0.02;
	int n = (int)g.range(1, 3);
	auto list = std::make_shared<std::vector<std::shared_ptr<Flood>>>();
	for (int i = 0; i < n; i++) {
		double at = e->t0 + 0.5 + g.real(0, 3); Rng h;
		int mode = (int)g.range(0, 2); // 0 never reads, 1 starts to read after a while, 2 reads now and then
		if (!op(g, h, fmt("f%d floods from %.3f and reads %s", i, at, mode == 0 ? "nothing" : mode == 1 ? "late" : "now and then"))) continue;
		auto x = std::make_shared<Flood>(); x->g = Rng(h.u64()); x->mode = mode; x->wait = h.real(0.2, 10);
		x->p = new_peer(fmt("f%d", i)); x->p->identity = c.auth[0].id; x->p->psk = c.auth[0].pw; rand_peer(h, *x->p);
		x->p->rec_max = h.chance(0.5) ? 16384 : 1000; x->p->rec_gap = 0; x->p->drip_gap = 0; x->p->np = NetProfile{0.001, 0.001, 500, 1460, 65536}; x->p->auto_close_reply = true;
		int st = 0; bool close = false; size_t need, max = c.max_cmd < 0 ? 16384 : (size_t)c.max_cmd;
		int nreq = (int)h.range(15000, 30000) / n; bool in = h.chance(0.8);
		Str r = in ? proto_model(st, "MOIN 1 xx", max, need, close) : Str();
		if (in) x->all = "MOIN 1 xx\r\n", x->want.push_back(r);
		static const char *L[] = {"X", "NOOP", "PUSH", "PUSH 0", "MOIN 1 b", "OKAY", "PUSH 99999999999"};
		int fix = h.chance(0.5) ? 0 : -1;
		for (int k = 0; k < nreq; k++) { const char *l = L[fix >= 0 ? fix : h.range(0, in ? 6 : 0)]; x->all += l; x->all += "\n"; x->want.push_back(proto_model(st, l, max, need, close)); }
		x->all += "QUIT\r\n"; x->want.push_back("OKAY");
		list->push_back(x);
		x->p->on_ready = [x] {
			x->started = true; x->t0 = W->now; x->p->paused = true; x->p->send(x->all);
			if (x->mode == 1) ev_after(x->wait, [x] { x->p->paused = false; if (!x->p->dead()) x->p->pump(); });
			if (x->mode == 2) ev_after(x->g.real(0, 1), [x] { flood_toggle(x); });
			if (x->mode == 0 && x->wait > 3) ev_after(20, [x] { if (!x->p->dead()) x->p->reset(); });
		};
		x->p->on_line = [x](const Str &l) {
			size_t k = x->n++;
			if (k < x->want.size() && (x->want[k] == "FAIL" ? l.compare(0, 5, "FAIL ") == 0 : l == x->want[k])) return;
			if (!x->bad++) x->first_bad = fmt("response %zu is %s, not %s", k, quote(l).c_str(), k < x->want.size() ? quote(x->want[k]).c_str() : "expected at all");
		};
		ev_at(at, [x] { x->p->connect(5668); });
	}
	int ns = (int)g.range(1, 3);
	for (int i = 0; i < ns; i++) { Rng h; double at = e->t0 + 0.3 + g.real(0, 12); if (op(g, h, fmt("session s%d at %.3f", i, at))) simple_session(fmt("s%d", i), e->c, h, at, (int)h.range(1, 5), 400); }
	auto base = std::make_shared<size_t>(0);
	ev_at(e->t0 + 0.29, [e, base] { *base = e->srv->mem_live; });
	W->at_end.push_back([e, list, base, n, ns] {
		if (e->srv->exited) return;
		expect_sessions_done("P10"); check_delivery("P01");
		for (auto &x : *list) {
			if (!x->started) continue;
			if (x->bad) violate("P07", "%s sent %zu requests at once: %s", x->p->label.c_str(), x->want.size(), x->first_bad.c_str());
			if (x->mode == 0) { if (e->c.timeout && !x->p->dead()) violate("P08", "%s has not read any response for long, and is still connected", x->p->label.c_str()); continue; }
			if (!x->bad && x->n != x->want.size()) violate("P07", "%s sent %zu requests at once and got %zu responses, reading %s", x->p->label.c_str(), x->want.size(), x->n, x->mode == 1 ? "late" : "now and then");
			if (!x->p->dead()) violate("P07", "%s is still connected after the end of its session", x->p->label.c_str());
			if (!x->bad && x->n == x->want.size()) probe("flood.done");
		}
		size_t grew = e->srv->mem_max > *base ? e->srv->mem_max - *base : 0;
		// per connection: TLS state (well below 100 KiB), a command, and some output
		if (grew > (size_t)(n + ns) * 150000 + (size_t)n * 64000 + 100000) violate("P11", "the server's memory grew by %zu bytes while %zu clients did not read their responses", grew, list->size());
		W->sample["memory growth"] = fmt("%zu", grew); probe("flood.memory");
	});
}
static ScenReg r6("flood", flood);
