// The libraries behind the Perl and Python bindings, against scripted servers
// and against the real one.
#include <openssl/err.h>
#include "fake.h"
#include "progapi.h"
#include <dlfcn.h>
#include <string.h>
#include <algorithm>

ProgCopy *prog_take(const Str &kind); // main.cc

// ---------------------------------------------------------------- the calling program
enum CallKind { C_NEW, C_HOST, C_SVC, C_CMD, C_DESTROY, C_SHORT, C_MARK };
static const char *const CN[] = {"new", "host_result", "svc_result", "command", "destroy", "new with too few arguments", "measure"};
struct LCall;
struct Ack { double t; Str got; LCall *c; bool used = false; };
struct LCall {
	CallKind k = C_NEW; int h = 0; double at = 0; int timeout = 5;
	Str node, svc, out, cmd; bool has_node = true, has_svc = true; int rc = 0;
	Str text;                 // what the server must get, without timestamp and final newline
	bool own_ts = false, malformed = false, missing = false, denied = false; int allowed = 1;
	bool started = false, done = false, ok = false; Str err;
	double t0 = -1, t1 = -1; uint64_t n0 = 0, n1 = 0; size_t rx0 = 0, rx1 = 0; int ops0 = 0;
	Cmd *led = nullptr; long mem_k = 0; int memf = 0; // the mem_k-th allocation fails
	size_t mem = 0, fds = 0;
	bool healthy = true;      // nothing was wrong since the previous call on this handle
	bool idle = false;
	Str what() const { return fmt("%s at t=%.3f (%.3f s, %llu system calls)", CN[k], t0, t1 - t0, (unsigned long long)(n1 - n0)); }
};
struct Handle { Str host; int port; Str id, pw; Str node, svc; bool has_node = false, has_svc = false; int timeout = 10; int srv = 0; Str ciphers; bool bad_ciphers = false; };
struct Lib {
	Node *n = nullptr; bool perl = false; Str name; std::vector<Handle> hs; std::vector<std::shared_ptr<LCall>> calls;
	std::vector<Ack> acks; std::vector<double> trouble; // moments of (possible) trouble
	std::vector<Str> refusals; // reasons the server gave, newest last
	std::vector<int> ref_call; size_t rx = 0; int cur = -1; double calm_from = -1;
	double wall0 = 0; bool fake = true, life = false;
};
typedef std::shared_ptr<Lib> LibP;

static int run_lib(LibP l) {
	auto *p = prog_take(l->perl ? "perl" : "python");
	auto sym = [p](const char *s) { void *f = dlsym(p->h, s); if (!f) { fprintf(stderr, "no %s\n", s); _exit(74); } return f; };
	auto boot = (void (*)())sym("drv_boot");
	auto mk = (int (*)(int, const char *, int, const char *, const char *, const char *, const char *, const char *, int))sym("drv_new");
	auto result = (int (*)(int, int, const char *, const char *, int, const char *, int))sym("drv_result"); // the Perl one ignores the last argument
	auto command = l->perl ? (int (*)(int, const char *))sym("drv_command") : nullptr;
	auto destroy = (void (*)(int))sym("drv_destroy");
	auto error = (const char *(*)())sym("drv_error");
	if (!l->perl) { SigAct a; a.ign = true; l->n->sig[SIGPIPE] = a; } // as the Python interpreter does
	boot();
	for (size_t i = 0; i < l->calls.size(); i++) {
		auto c = l->calls[i];
		if (c->at > W->now) { g_nomem = 0; node_block([] { return false; }, c->at); }
		g_nomem = 1; // what the simulator allocates here
		const Handle &h = l->hs[(size_t)c->h];
		l->cur = (int)i;
		c->started = true; c->t0 = W->now; c->n0 = l->n->nsys; c->rx0 = l->rx;
		trace("%s: calls %s on handle %d", l->name.c_str(), CN[c->k], c->h);
		auto S = [](const Str &s, bool has) { return has ? s.c_str() : nullptr; };
		if (c->k == C_NEW) W->secret(h.pw);
		l->n->nomem_k = c->mem_k; l->n->mem_fails = 0; g_nomem = 0;
		switch (c->k) {
		case C_NEW: c->ok = mk(c->h, h.host.c_str(), h.port, h.id.c_str(), h.pw.c_str(), S(h.ciphers, !h.ciphers.empty()), S(h.node, h.has_node), S(h.svc, h.has_svc), h.timeout); break;
		case C_HOST: c->ok = result(c->h, 1, S(c->node, c->has_node), nullptr, c->rc, c->out.c_str(), c->timeout); break;
		case C_SVC: c->ok = result(c->h, 0, S(c->node, c->has_node), S(c->svc, c->has_svc), c->rc, c->out.c_str(), c->timeout); break;
		case C_CMD: c->ok = command(c->h, c->cmd.c_str()); break;
		case C_DESTROY: destroy(c->h); c->ok = true; break;
		case C_SHORT: c->ok = ((int (*)(int))sym("drv_new_short"))(c->h % 4); break;
		case C_MARK: ERR_clear_error(); /* (the error queue is bounded) */ c->ok = true; c->mem = l->n->mem_count; c->fds = l->n->fds.size(); trace("-- %zu allocations, %zu descriptors", c->mem, c->fds); break;
		}
		g_nomem = 1; c->memf = l->n->mem_fails; l->n->nomem_k = 0;
		if (l->life && !l->perl && (c->k == C_HOST || c->k == C_SVC)) {
			auto attr = (const char *(*)(int, const char *))sym("drv_attr");
			if (const char *v = attr(c->h, "host")) { if (h.host != v) violate("P28", "%s: the host attribute of handle %d is %s instead of %s", l->name.c_str(), c->h, quote(v).c_str(), h.host.c_str()); }
			if (const char *v = attr(c->h, "port")) { if (fmt("%d", h.port) != v) violate("P28", "%s: the port attribute of handle %d is %s instead of %d", l->name.c_str(), c->h, v, h.port); }
		}
		if (c->k == C_NEW && c->mem_k && c->ok) { g_nomem = 0; destroy(c->h); g_nomem = 1; } // (there were fewer allocations than that)
		if (!c->ok) c->err = error();
		c->t1 = W->now; c->n1 = l->n->nsys; c->rx1 = l->rx; c->done = true;
		trace("%s: %s returned: %s", l->name.c_str(), CN[c->k], c->ok ? "success" : quote(c->err).c_str());
	}
	l->cur = -1; g_nomem = 0;
	return 0;
}

// ---------------------------------------------------------------- what was asked for and what was sent
static bool matches(const LCall &c, const Str &got, bool anytime) {
	Str body;
	if (c.own_ts) body = got;
	else {
		bool had; body = strip_ts(got, &had);
		if (!had) return false;
		double t = strtod(got.c_str() + 1, nullptr), w = W->wall_off;
		if (!anytime && (t < c.t0 + w - 2 || t > (c.done ? c.t1 : W->now) + w + 2)) return false;
	}
	if (body.empty() || body.back() != '\n') return false;
	body.pop_back();
	Str want = c.text;
	if (body == want || body + "\n" == want) return true;
	return got.size() >= 1000 && body.size() < want.size() && want.compare(0, body.size(), body) == 0; // cut
}
static LCall *find_call(LibP l, const Str &got) {
	for (auto i = l->calls.rbegin(); i != l->calls.rend(); ++i) if ((*i)->started && ((*i)->k == C_HOST || (*i)->k == C_SVC || (*i)->k == C_CMD) && matches(**i, got, l->wall0 != W->wall_off)) return i->get();
	return nullptr;
}

// ---------------------------------------------------------------- a scripted server for many connections
struct Win { double a, b; int kind, at, junk; size_t cut; };
struct LSrv { Str name; int port; Str id, pw; double timeout; int base = M_NONE; int tls = 0; std::vector<Win> wins; std::vector<FakeP> fakes; Rng g; LibP l; int n = 0; };
typedef std::shared_ptr<LSrv> LSrvP;

static void lrespond(LSrvP s, FakeP f, const Str &line) {
	auto p = f->p.get();
	if (f->kind >= M_FAIL && f->kind <= M_PART_FIN && f->resp >= f->at && !f->mis) {
		f->cut += 1; misbehave(f, line + "\r\n"); f->resp++;
		if (f->kind == M_FAIL || f->kind == M_BAIL) s->l->rx += 6;
		return;
	}
	if (f->mis && !f->cont) return;
	Str d = line + (f->g.chance(0.9) ? "\r\n" : "\n");
	f->resp++;
	double dt = f->kind == M_SLOW ? f->g.real(0.2, 0.75) * f->timeout : f->g.chance(0.5) ? 0 : f->g.real(0, 0.02);
	if (f->kind == M_DRIP) p->rec_max = 1, p->rec_gap = 0.01;
	auto go = [p, d, s] { if (!p->dead()) { p->send(d); s->l->rx += d.size(); } };
	if (dt <= 0) go(); else ev_after(dt, go);
}
static void lconsume(LSrvP s, FakeP f) {
	auto p = f->p.get(); LibP l = s->l;
	for (;;) {
		if (p->dead() || f->bad_proto) return;
		if (f->need) {
			if (f->mis && f->in.compare(0, 5, "BAIL ") == 0) { f->need = 0; continue; } // it gave up
			if (f->in.size() < f->need) return;
			Str d = f->in.substr(0, f->need); f->in.erase(0, f->need); f->need = 0;
			trace("%s: got command %s", f->name.c_str(), quote(d).c_str());
			LCall *c = find_call(l, d);
			if (!c) { violate("P19", "%s submitted something that was not asked for: %s", l->name.c_str(), quote(d, 1200).c_str()); continue; }
			if (c->malformed) violate("P19", "%s submitted a command with a malformed timestamp: %s", l->name.c_str(), quote(d).c_str());
			if (c->denied) { Str r = fmt("%s is not %s (%zu)", "it", "permitted", d.size()); l->refusals.push_back(r); l->ref_call.push_back(l->cur); p->send("FAIL " + r + "\r\n"); l->rx += 6; f->resp++; continue; }
			bool m = (f->kind >= M_FAIL && f->kind <= M_PART_FIN && f->resp >= f->at && !f->mis) || (f->mis && !f->cont);
			if (!m) l->acks.push_back({W->now, d, c});
			lrespond(s, f, "OKAY");
			if (!f->in.empty() && !m && f->in.compare(0, 5, "BAIL ") && f->in.compare(0, 4, "QUIT")) protocol_error(f, "sent more than the command before the response: " + quote(f->in));
			continue;
		}
		size_t e = f->in.find('\n');
		if (e == Str::npos) return;
		Str r = f->in.substr(0, e); f->in.erase(0, e + 1);
		if (!r.empty() && r.back() == '\r') r.pop_back();
		trace("%s: got request %s", f->name.c_str(), quote(r).c_str());
		if (r.compare(0, 4, "BAIL") == 0) { if (!f->mis) protocol_error(f, "the client bailed out: " + quote(r)); p->shutdown_tls(); return; }
		if (f->hand) {
			char idb[201]; int n = 0;
			if (r == "QUIT" && f->mis) { p->shutdown_tls(); return; }
			if (r.size() > 100 || sscanf(r.c_str(), "MOIN 1 %200s%n", idb, &n) != 1 || (size_t)n != r.size()) { protocol_error(f, "unexpected first request " + quote(r)); continue; }
			f->hand = false;
			lrespond(s, f, "MOIN 1");
		} else if (r == "QUIT") {
			if (!f->mis || f->cont) { p->send("OKAY\r\n"); p->shutdown_tls(); }
			return;
		} else {
			unsigned long x = 0; int n = 0;
			if (sscanf(r.c_str(), "PUSH %lu%n", &x, &n) != 1 || (size_t)n != r.size() || x == 0 || !isdigit((unsigned char)r[5])) { protocol_error(f, "unexpected request " + quote(r)); continue; }
			bool m = (f->kind >= M_FAIL && f->kind <= M_PART_FIN && f->resp >= f->at && !f->mis) || (f->mis && !f->cont);
			if (!m) f->need = x;
			lrespond(s, f, "OKAY");
			if (!f->in.empty() && f->in.compare(0, 5, "BAIL ") && f->in.compare(0, 4, "QUIT") && !m) protocol_error(f, "sent data before the response: " + quote(f->in));
		}
	}
}
static const Win *win_at(LSrvP s, double t) { for (auto &w : s->wins) if (t >= w.a && t < w.b) return &w; return nullptr; }
static void lserve(LSrvP s) {
	W->actor_listen[s->port] = [s](TcpConn *c) {
		auto f = std::make_shared<Fake>();
		const Win *w = win_at(s, W->now);
		f->name = fmt("%s.%d", s->name.c_str(), s->n++); f->port = s->port; f->id = s->id; f->pw = s->pw; f->timeout = s->timeout; f->g = Rng(s->g.u64());
		f->kind = w ? w->kind : s->base; f->at = w ? w->at : 0; f->junk = w ? w->junk : 0; f->cut = w ? w->cut : 1;
		s->fakes.push_back(f);
		fake_begin(f, c, s->tls, [s, f](const Str &d) { f->in += d; lconsume(s, f); });
	};
}

// ---------------------------------------------------------------- programs
static Str ltext(Rng &g, size_t n, bool nl) {
	Str r;
	for (size_t i = 0; i < n; i++) { char c = "abcdefghijklmnopqrstuvwxyz0123456789 .,:=/()%_-"[g.u64() % 47]; if (g.chance(0.03)) c = "\\%|[]\t\"'"[g.range(0, 7)]; if (nl && g.chance(0.02)) c = '\n'; if (g.chance(0.01)) c = (char)g.range(128, 253); r += c; }
	return r;
}
static size_t llen(Rng &g, bool shortonly) {
	if (shortonly) return (size_t)g.range(0, 300);
	switch (g.range(0, 5)) {
	case 0: case 1: return (size_t)g.range(0, 100);
	case 2: case 3: return (size_t)g.range(900, 1040);
	case 4: return (size_t)g.range(0, 3000);
	default: return (size_t)g.range(1000, 60000);
	}
}
static std::shared_ptr<LCall> mk_call(LibP l, Rng &g, int hi, double at, bool real, bool deny_ok) {
	auto c = std::make_shared<LCall>(); const Handle &h = l->hs[(size_t)hi];
	c->h = hi; c->at = at;
	c->k = l->perl && g.chance(0.35) ? C_CMD : g.chance(0.5) ? C_HOST : C_SVC;
	c->timeout = h.timeout; c->rc = g.chance(0.9) ? (int)g.range(0, 4) : (int)g.range(-3, 300);
	Str u = uniq();
	if (c->k == C_CMD) {
		static const char *const bad[] = {"[] ", "[12", "[x] ", "[ 12] ", "[12x] ", "[-1] ", "[+1] ", "["};
		Str b = (g.chance(0.5) ? "PROCESS_HOST_CHECK_RESULT;host1;0;" : "PROCESS_SERVICE_CHECK_RESULT;host1;svc1;0;") + u + ltext(g, llen(g, real), !real);
		if (deny_ok && g.chance(0.2)) { b = "RESTART_PROGRAM;" + u + ltext(g, llen(g, true), false); c->denied = true; }
		if (g.chance(0.1) && !real) b = u; // shorter than any real command
		int r = (int)g.range(0, 9);
		if (r < 3) { c->own_ts = true; b = fmt("[%s%lu] ", !real && g.chance(0.2) ? "00" : "", (unsigned long)(W->wall_off + at) - (unsigned long)g.range(0, 5000)) + b; }
		else if (r == 3 && !real) { c->malformed = true; c->denied = false; c->own_ts = true; b = bad[g.range(0, 7)] + b; }
		c->cmd = b; if (g.chance(0.2)) c->cmd += "\n";
		c->text = b;
	} else {
		c->has_node = l->perl ? !h.has_node || g.chance(0.4) : true;
		c->node = real ? "host1" : g.chance(0.9) ? "host" + ltext(g, (size_t)g.range(0, 10), false) : ltext(g, llen(g, false), true);
		c->has_svc = l->perl ? !h.has_svc || g.chance(0.4) : true;
		c->svc = real ? "svc1" : "svc" + ltext(g, (size_t)g.range(0, 10), false);
		c->out = u + ltext(g, llen(g, real), !real);
		if (deny_ok && g.chance(0.2)) { c->node = "forbidden"; c->has_node = true; c->denied = true; }
		if (l->perl && !h.has_node && !c->denied && g.chance(0.1)) c->has_node = false, c->missing = true;
		if (l->perl && !h.has_svc && c->k == C_SVC && g.chance(0.1)) c->has_svc = false, c->missing = true;
		if (c->missing) c->denied = false;
		Str n = c->has_node ? c->node : h.node, s = c->has_svc ? c->svc : h.svc;
		c->text = c->k == C_HOST ? fmt("PROCESS_HOST_CHECK_RESULT;%s;%d;%s", n.c_str(), c->rc, c->out.c_str()) : fmt("PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s", n.c_str(), s.c_str(), c->rc, c->out.c_str());
	}
	return c;
}
static LibP new_lib(Rng &g, const Str &name, bool perl) {
	auto l = std::make_shared<Lib>(); l->name = name; l->perl = perl; l->wall0 = W->wall_off; (void)g;
	l->n = new_node(name, perl ? "perl" : "python", {perl ? "perl" : "python3"});
	l->n->entry = [l](Node *) { return run_lib(l); };
	return l;
}
static Str describe(LibP l) { Str s; for (auto &c : l->calls) s += fmt("%s%s/%d@%.2f", s.empty() ? "" : " ", CN[c->k], c->h, c->at); return s; }

// ---------------------------------------------------------------- judgement
static void judge_lib(LibP l, bool allsafe, double quiet_dur) {
	Node *n = l->n; const char *nm = l->name.c_str();
	if (!n->started) return;
	if (n->exited && n->signaled) { violate("P19", "%s was killed by signal %d", nm, n->term_sig); return; }
	std::map<int, LCall *> prev;
	for (auto &cp : l->calls) {
		LCall &c = *cp;
		if (!c.started) break;
		const Handle &h = l->hs[(size_t)c.h];
		double T = l->perl ? h.timeout : c.timeout;
		if (!c.done) { violate("P23", "%s: %s, called at t=%.3f, has not returned %.1f s later (timeout %.0f s)", nm, CN[c.k], c.t0, W->now - c.t0, T); break; }
		double dur = c.t1 - c.t0; Str w = c.what();
		bool silent = c.rx0 == c.rx1 && l->fake;
		double lim = c.k == C_NEW ? 0.5 : c.k == C_DESTROY ? 4 : silent ? 2 * (T + 2) + 4 : 14 * (T + 2) + 6;
		if (dur > lim) violate("P23", "%s: %s took more than %.1f s (timeout %.0f s)%s", nm, w.c_str(), lim, T, silent ? " although its server was silent" : "");
		if (c.n1 - c.n0 > 4000 + (uint64_t)(200 * dur)) violate("P23", "%s: %s kept the processor busy while waiting", nm, w.c_str());
		if (c.k == C_NEW && h.bad_ciphers) { if (c.ok) violate("P19", "%s: the constructor accepted an unusable cipher list", nm); else if (c.err.find("ciphers") == Str::npos) violate("P19", "%s: the constructor failed without saying why: %s", nm, quote(c.err).c_str()); else probe("libs.bad_ciphers"); continue; }
		if (c.k == C_NEW) { if (!c.ok) violate("P19", "%s: the constructor failed: %s", nm, c.err.c_str()); continue; }
		if (c.k == C_DESTROY) continue;
		if (c.healthy && quiet_dur > 0 && dur > quiet_dur) violate("P23", "%s: %s, although the server answered every request at once", nm, w.c_str());
		if (c.ok) {
			probe("libs.success");
			if (c.malformed || c.missing) { violate("P19", "%s: %s reported success although its arguments are unusable", nm, w.c_str()); continue; }
			if (c.denied) { violate("P19", "%s: %s reported success although the command is not permitted", nm, w.c_str()); continue; }
			if (l->fake) {
				Ack *a = nullptr;
				for (auto &x : l->acks) if (!x.used && x.t >= c.t0 && x.t <= c.t1 && x.c == &c) { a = &x; break; }
				if (!a) violate("P19", "%s: %s reported success, but the server has not acknowledged it: %s", nm, w.c_str(), quote(c.text).c_str());
				else { a->used = true; if (a->got.size() < c.text.size() + 2) probe("libs.cut"); }
			} else if (c.led && !c.led->delivered && !c.led->excused) violate("P19", "%s: %s reported success, but the command was not delivered: %s", nm, w.c_str(), quote(c.text).c_str());
		} else {
			probe("libs.failure");
			if (c.err.empty()) violate("P19", "%s: %s failed without a reason", nm, w.c_str());
			for (unsigned char ch : c.err) if (ch == 0xfe) { violate("P19", "%s: the reason %s gave contains garbage: %s", nm, w.c_str(), quote(c.err, 3000).c_str()); break; }
			if (c.denied && l->fake && c.healthy) {
				bool found = false;
				for (size_t i = 0; i < l->refusals.size(); i++) if (l->calls[(size_t)l->ref_call[i]].get() == &c && c.err.find(l->refusals[i]) != Str::npos) found = true;
				if (!found) violate("P19", "%s: %s was refused by the server, but the reason it gave is %s", nm, w.c_str(), quote(c.err).c_str());
				probe("libs.refused");
			}
			if (c.malformed || c.missing || c.denied || c.allowed != 1) continue;
			if (c.healthy && (!c.idle || !l->perl) && allsafe) violate("P19", "%s: %s failed although network and server were healthy and the command is permitted: %s", nm, w.c_str(), quote(c.err).c_str());
			if (c.idle) probe("libs.idle_failure");
		}
	}
	// recovery: of two permitted calls in a row made after everything healed, the second one succeeds
	if (l->calm_from >= 0) {
		std::map<int, int> streak;
		for (auto &cp : l->calls) {
			LCall &c = *cp;
			if (!c.done || c.k == C_NEW || c.k == C_DESTROY || c.malformed || c.missing || c.denied || c.allowed != 1) continue;
			if (c.t0 < l->calm_from) continue;
			int &s = streak[c.h];
			if (c.ok) { if (s) probe("libs.recovered"); s = 0; } else if (++s == 2) violate("P23", "%s: %s failed again although the server is healthy since t=%.3f: %s", nm, c.what().c_str(), l->calm_from, quote(c.err).c_str());
		}
	}
}

// ---------------------------------------------------------------- scenarios with scripted servers
static void libs_env(Rng &g, double end, double scale) {
	rand_sched(g);
	Rng gf(g.u64());
	base_faults(gf, scale);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	static const NetProfile nps[] = {{0.0001, 0.0002, 1460, 1460, 65536}, {0.002, 0.005, 1, 1460, 65536}, {0.005, 0.02, 1, 300, 16384}, {0.02, 0.02, 200, 1460, 8192}};
	W->net = nps[g.range(0, 3)];
	W->preempt_p = std::min(W->preempt_p, 0.2);
	if (!fs_get("/")) fs_mk("/", Inode::DIR, "", 0755);
	W->end_time = W->now + end;
}
static void libs_fake(Rng &g, bool bad) {
	libs_env(g, 900, g.chance(0.4) ? 0 : 1);
	bool fast = W->net.lat < 0.001;
	int nl = (int)g.range(1, 3); double t0 = W->now, T1 = t0 + 120;
	for (int i = 0; i < nl; i++) {
		Rng h; bool perl = g.chance(0.5); double at = t0 + 0.1 + g.real(0, 2);
		int nh = (int)g.range(1, 3), nc = (int)g.range(2, 9); bool deny = g.chance(0.4);
		Rng hw(g.u64());
		if (!op(g, h, fmt("%s%d with %d handles and %d calls from %.3f", perl ? "perl" : "python", i, nh, nc, at))) continue;
		auto l = new_lib(h, fmt("%s%d", perl ? "perl" : "python", i), perl);
		static const int tv[] = {1, 2, 3, 5, 10, 20};
		std::vector<LSrvP> ss;
		for (int k = 0; k < nh; k++) {
			Handle x; x.timeout = tv[h.range(0, 5)];
			auto s = std::make_shared<LSrv>(); s->name = fmt("srv%d%c", i, 'a' + k); s->port = port_base() + 10 * i + k; s->id = long_id(h, "id" + rand_text(h, (size_t)h.range(0, 8))); s->pw = "pw" + rand_pw(h, 0);
			s->timeout = x.timeout; s->g = Rng(h.u64()); s->l = l; s->tls = h.chance(0.4) ? 12 : 0; if (h.chance(0.2)) x.ciphers = "PSK";
			s->base = h.chance(0.6) ? M_NONE : h.chance(0.5) ? M_SLOW : M_DRIP;
			Str host = fmt("srv%d%c.example", i, 'a' + k), addr = fmt("10.0.%d.%d", i + 1, k + 1);
			W->dns[host] = {addr};
			x.host = host; x.port = s->port; x.id = s->id; x.pw = s->pw; x.has_node = h.chance(0.5); x.node = "node" + rand_text(h, 4); x.has_svc = h.chance(0.5); x.svc = "service" + rand_text(h, 4); x.srv = k;
			l->hs.push_back(x); ss.push_back(s); lserve(s);
		}
		// the calls
		for (int k = 0; k < nh; k++) { auto c = std::make_shared<LCall>(); c->k = C_NEW; c->h = k; c->at = at; l->calls.push_back(c); }
		double t = at;
		double gap = h.chance(0.3) ? 40 : h.chance(0.5) ? 5 : 0.3;
		for (int k = 0; k < nc; k++) {
			int hi = (int)h.range(0, nh - 1);
			t += h.real(0, gap);
			if (bad) t = std::min(t, std::max(T1 - 3, l->calls.back()->at)); // the calls after everything healed come last
			if (h.chance(0.06)) {
				auto d = std::make_shared<LCall>(); d->k = C_DESTROY; d->h = hi; d->at = t; l->calls.push_back(d);
				auto c = std::make_shared<LCall>(); c->k = C_NEW; c->h = hi; t += h.real(0, 1); c->at = t; l->calls.push_back(c);
				if (h.chance(0.3)) { static const int nt[] = {1, 2, 4, 8}; l->hs[(size_t)hi].timeout = std::max(l->hs[(size_t)hi].timeout, nt[h.range(0, 3)]); }
			}
			l->calls.push_back(mk_call(l, h, hi, t, false, deny));
		}
		if (bad) { // after everything healed
			for (int k = 0; k < nh; k++) for (int m = (int)h.range(2, 3); m > 0; m--) { auto c = mk_call(l, h, k, T1 + 1 + h.real(0, 3), false, false); l->calls.push_back(c); }
			std::stable_sort(l->calls.begin() + nh, l->calls.end(), [](const std::shared_ptr<LCall> &a, const std::shared_ptr<LCall> &b) { return a->at < b->at; });
			l->calm_from = T1;
		}
		if (h.chance(0.1)) { Handle x = l->hs[0]; x.ciphers = "NO-SUCH-CIPHER"; x.bad_ciphers = true; l->hs.push_back(x); auto c = std::make_shared<LCall>(); c->k = C_NEW; c->h = nh; c->at = l->calls.back()->at; l->calls.push_back(c); }
		if (h.chance(0.7)) for (int k = 0; k < nh; k++) { auto d = std::make_shared<LCall>(); d->k = C_DESTROY; d->h = k; d->at = l->calls.back()->at; l->calls.push_back(d); }
		// the trouble
		if (bad) for (int k = 0; k < nh; k++) {
			int nw = (int)hw.range(k == 0 ? 1 : 0, 3); auto s = ss[(size_t)k];
			double last = std::max(at + 3, std::min(T1 - 20, t));
			for (int m = 0; m < nw; m++) {
				Win w; w.kind = (int)hw.range(M_FAIL, M_PLAIN + 1); if (w.kind > M_PLAIN) w.kind = M_IMPOSTOR; w.a = hw.chance(0.4) ? t0 : hw.real(at, last); w.b = std::min(T1, w.a + (hw.chance(0.5) ? hw.real(0.1, 8) : hw.real(5, 80))); w.at = (int)hw.range(0, 6); w.junk = (int)hw.range(0, 9); if (w.kind == M_JUNK && (w.junk == 1 || w.junk == 2)) w.junk += 4; // the libraries look at the first four characters only
				 w.cut = (size_t)hw.range(1, 300);
				bool live = hw.chance(0.5); Rng hx;
				if (!op(g, hx, fmt("%s %s at response %d from %.3f to %.3f%s", s->name.c_str(), MN[w.kind], w.at, w.a, w.b, live ? ", established sessions included" : ""))) continue;
				s->wins.push_back(w);
				Str addr = fmt("10.0.%d.%d", i + 1, k + 1), host = l->hs[(size_t)k].host;
				if (w.kind == M_REFUSE || w.kind == M_BLACKHOLE || w.kind == M_DNS) {
					auto *set = w.kind == M_BLACKHOLE ? &W->blackhole : w.junk % 2 ? &W->refuse_sync : &W->refuse_async; int kind = w.kind;
					ev_at(w.a, [=] { note_fault(Str("server.") + fmt("m%02d", kind), host); if (kind == M_DNS) W->dns[host] = {}; else set->insert(addr); });
					ev_at(w.b, [=] { if (kind == M_DNS) W->dns[host] = {addr}; else set->erase(addr); });
				} else if (live && w.kind <= M_PART_FIN) ev_at(w.a, [s, w] { for (auto &f : s->fakes) if (f->p && !f->p->dead() && !f->mis) { f->kind = w.kind; f->at = f->resp + w.at % 3; f->junk = w.junk; f->cut = w.cut; } });
				if (w.kind <= M_PART_FIN) ev_at(T1, [s] { for (auto &f : s->fakes) if (!f->mis && f->kind >= M_FAIL) f->kind = M_NONE; });
			}
		}
		if (bad && hw.chance(0.15)) for (int m = (int)hw.range(1, 3); m > 0; m--) {
			double tj = at + hw.real(0, 30), by = (hw.chance(0.5) ? 1 : -1) * hw.real(5, 5000); Rng hx;
			if (op(g, hx, fmt("the wall clock jumps by %.1f s at %.3f", by, tj))) { ev_at(tj, [by] { note_fault("clock.jump", "wall"); W->wall_off += by; trace("-- wall clock jumps by %.3f s --", by); }); }
		}
		start_node(l->n);
		bool slow = false; for (auto &s : ss) if (s->base != M_NONE) slow = true;
		double quiet = !bad && fast && !slow && W->fp.empty() ? 3 : -1;
		W->at_end.push_back([l, ss, bad, quiet, T1] {
			for (auto &s : ss) for (auto &f : s->fakes) if (f->bad_proto) violate("P19", "%s (%s): %s", l->name.c_str(), f->name.c_str(), f->why.c_str());
			for (auto &c : l->calls) c->healthy = !bad;
			judge_lib(l, true, quiet);
			(void)T1;
		});
		if (getenv("NSCA_SIM_DESC")) fprintf(stderr, "%s: %s\n", l->name.c_str(), describe(l).c_str());
	}
}
static void libs_ok(Rng &g) { libs_fake(g, false); }
static void libs_bad(Rng &g) { libs_fake(g, true); }

// ---------------------------------------------------------------- against the real server
static void libs_real(Rng &g) {
	SrvCfg c = base_cfg(g, 2);
	c.auth[0].commands = {".+"}; c.auth[0].hosts.clear(); c.auth[0].services.clear();
	AuthSec lim; lim.id = "limited"; lim.pw = "lim"; lim.commands = {"PROCESS_HOST_CHECK_RESULT;host1;.+"}; c.auth.push_back(lim);
	static const double st[] = {3, 6, 20, 60, 0};
	c.timeout = st[g.range(0, 4)];
	bool bad = g.chance(0.4);
	double active = 100;
	Env *e = env_begin(g, c, active, bad ? 300 : 200, g.chance(0.5) ? 0 : 1);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	W->preempt_p = std::min(W->preempt_p, 0.2);
	int nl = (int)g.range(1, 3);
	for (int i = 0; i < nl; i++) {
		Rng h; bool perl = g.chance(0.5); double at = e->t0 + 0.3 + g.real(0, 3);
		int nh = (int)g.range(1, 3), nc = (int)g.range(2, 8); Rng hw(g.u64());
		if (!op(g, h, fmt("%s%d with %d handles and %d calls from %.3f", perl ? "perl" : "python", i, nh, nc, at))) continue;
		auto l = new_lib(h, fmt("%s%d", perl ? "perl" : "python", i), perl); l->fake = false;
		for (int k = 0; k < nh; k++) {
			Handle x; x.timeout = h.chance(0.5) ? 10 : 5; x.host = "10.0.0.1"; x.port = 5668;
			const AuthSec &a = h.chance(0.25) ? c.auth.back() : c.auth[0];
			x.id = a.id; x.pw = a.pw; x.has_node = h.chance(0.5); x.node = "host1"; x.has_svc = h.chance(0.5); x.svc = "svc1";
			l->hs.push_back(x);
			auto nw = std::make_shared<LCall>(); nw->k = C_NEW; nw->h = k; nw->at = at; l->calls.push_back(nw);
		}
		double t = at, gap = h.chance(0.5) ? 0.5 : h.chance(0.5) ? 5 : 30;
		for (int k = 0; k < nc; k++) {
			int hi = (int)h.range(0, nh - 1);
			t = std::min(t + h.real(0, gap), e->T1 - 5);
			if (h.chance(0.06)) {
				auto d = std::make_shared<LCall>(); d->k = C_DESTROY; d->h = hi; d->at = t; l->calls.push_back(d);
				auto x = std::make_shared<LCall>(); x->k = C_NEW; x->h = hi; x->at = t + h.real(0, 1); l->calls.push_back(x);
			}
			l->calls.push_back(mk_call(l, h, hi, t, true, true));
		}
		if (bad) { for (int k = 0; k < nh; k++) for (int m = 0; m < 2; m++) l->calls.push_back(mk_call(l, h, k, e->T1 + 1, true, false)); l->calm_from = e->T1; }
		if (h.chance(0.7)) for (int k = 0; k < nh; k++) { auto d = std::make_shared<LCall>(); d->k = C_DESTROY; d->h = k; d->at = l->calls.back()->at; l->calls.push_back(d); }
		for (auto &cp : l->calls) if (cp->k == C_HOST || cp->k == C_SVC || cp->k == C_CMD) {
			LCall &x = *cp;
			x.denied = false; // the reference decides
			if (x.missing) continue;
			Str full = (x.own_ts ? x.text : "[1] " + x.text) + "\n";
			x.allowed = cfg_allowed3(c, l->hs[(size_t)x.h].id, full);
			x.led = L->add(l->hs[(size_t)x.h].id, x.text + "\n", x.allowed == 1);
			x.led->t_first = 0; x.led->t_sent = 0; x.led->may_repeat = true;
			if (x.allowed == -1) x.led->excused = true;
			else if (x.allowed == 0) x.denied = true;
		}
		if (bad) for (int m = (int)hw.range(1, 4); m > 0; m--) {
			int kind = (int)hw.range(0, 3); double tt = hw.chance(0.5) ? at + hw.real(0, std::max(1.0, t - at)) : at + hw.real(0, 1), dur = hw.real(0.1, 30); size_t off = (size_t)hw.range(0, 3000); int side = (int)hw.range(0, 1); Rng hx;
			static const char *const dn[] = {"a reset", "a partition", "tampering", "a server stall"};
			if (!op(g, hx, fmt("%s hits %s at %.3f (%.3f s)", dn[kind], l->name.c_str(), tt, dur))) continue;
			Node *nd = l->n, *srv = e->srv; double T1 = e->T1;
			ev_at(tt, [=] {
				if (kind == 3) { if (!srv->exited && W->now + dur < T1) { stall_node(srv, dur); } return; }
				for (auto &k : W->conns) if (k->e[0].owner == nd && !k->e[0].closed && !k->e[0].dead) {
					if (kind == 0) { note_fault("net.reset", nd->name); tcp_rst(k.get(), side); tcp_notify(k->e[1 - side]); }
					else if (kind == 1) { note_fault("net.partition", nd->name); k->hold_until = std::min(T1, W->now + dur); }
					else { note_fault("net.corrupt", nd->name); k->corrupt_at = k->e[side].total_sent + off; k->corrupt_side = side; }
				}
			});
		}
		start_node(l->n);
		double sto = c.timeout <= 0 ? 1e9 : c.timeout;
		W->at_end.push_back([l, bad, sto] {
			std::map<int, double> last;
			for (auto &cp : l->calls) {
				LCall &x = *cp;
				if (!x.done) break;
				x.healthy = !bad;
				if (last.count(x.h)) x.idle = x.t0 - last[x.h] > sto - 1.5; // (latency counts)
				if (x.k == C_NEW || x.k == C_DESTROY) last.erase(x.h); else if (!x.missing) last[x.h] = x.t1; // (unusable arguments: nothing is sent)
			}
			judge_lib(l, true, -1);
		});
	}
	W->at_end.push_back([] { for (auto &c : L->v) if (c->delivered > 1) probe("libs.repeated"); });
}
static ScenReg r1("libs_ok", libs_ok), r2("libs_bad", libs_bad), r3("libs_real", libs_real);

// ---------------------------------------------------------------- handles come and go
static void libs_life(Rng &g) {
	W->faults_on = false; W->mem_track = true; W->end_time = 0;
	rand_sched(g); W->net.lat = 0.0005;
	int nl = (int)g.range(1, 2); double t0 = W->now;
	for (int i = 0; i < nl; i++) {
		Rng h; bool perl = g.chance(0.5); int nh = (int)g.range(1, 3), steps = (int)g.range(3, 14);
		Rng hw(g.u64());
		if (!op(g, h, fmt("%s%d", perl ? "perl" : "python", i))) continue;
		auto l = new_lib(h, fmt("%s%d", perl ? "perl" : "python", i), perl); l->life = true;
		for (int k = 0; k < nh; k++) {
			Handle x; x.timeout = 5;
			auto s = std::make_shared<LSrv>(); s->name = fmt("srv%d%c", i, 'a' + k); s->port = port_base() + 10 * i + k; s->id = long_id(h, "id" + rand_text(h, (size_t)h.range(0, 8))); s->pw = "pw" + rand_pw(h, 0);
			s->timeout = 5; s->g = Rng(h.u64()); s->l = l; s->tls = h.chance(0.4) ? 12 : 0; if (h.chance(0.3)) x.ciphers = "PSK";
			Str host = fmt("srv%d%c.example", i, 'a' + k);
			W->dns[host] = {fmt("10.0.%d.%d", i + 1, k + 1)};
			x.host = host; x.port = s->port; x.id = s->id; x.pw = s->pw; x.has_node = h.chance(0.5); x.node = "node" + rand_text(h, 4); x.has_svc = h.chance(0.5); x.svc = "service" + rand_text(h, 4); x.srv = k;
			l->hs.push_back(x); lserve(s);
		}
		// the same steps in each round; handles are all gone at its end
		struct Step { CallKind k; int h; long mem; }; std::vector<Step> st; std::set<int> live; bool disturbed = false;
		Handle bad = l->hs[0]; bad.ciphers = "NO-SUCH-CIPHER"; bad.bad_ciphers = true; l->hs.push_back(bad);
		Str what;
		auto add = [&](CallKind k, int hd, long mem, Str w) {
			Rng hh; if (!op(hw, hh, w)) return false;
			st.push_back({k, hd, mem}); return true;
		};
		for (int k = 0; k < steps; k++) {
			int hd = (int)hw.range(0, nh - 1); bool has = live.count(hd);
			switch (hw.range(0, 6)) {
			case 0: add(C_NEW, nh, 0, "new with an unusable cipher list"); break;
			case 1: if (!perl) add(C_SHORT, (int)hw.range(0, 3), 0, "new with too few arguments"); else if (!has) add(C_NEW, hd, hw.range(1, 8), fmt("new handle %d without memory", hd)); break;
			case 2: if (!has) { long m = hw.range(1, 4); add(C_NEW, hd, m, fmt("new handle %d, allocation %ld failing", hd, m)); } break;
			case 3: if (has) { if (add(C_DESTROY, hd, 0, fmt("destroy %d", hd))) live.erase(hd); } break;
			default: if (!has) { if (add(C_NEW, hd, 0, fmt("new handle %d", hd))) live.insert(hd); } else add(C_HOST, hd, 0, fmt("use %d", hd)); break;
			}
		}
		(void)disturbed;
		for (int hd : live) st.push_back({C_DESTROY, hd, 0});
		double t = t0 + 0.1; int R = 6; std::vector<std::shared_ptr<LCall>> marks;
		for (int r = 0; r < R; r++) {
			for (auto &x : st) {
				std::shared_ptr<LCall> c;
				if (x.k == C_HOST) { c = mk_call(l, h, x.h, t, false, false); c->missing = c->malformed = false; if (c->k != C_CMD) { c->has_node = c->has_svc = true; c->node = "n"; c->svc = "s"; c->out = uniq(); c->text = c->k == C_HOST ? fmt("PROCESS_HOST_CHECK_RESULT;n;%d;%s", c->rc, c->out.c_str()) : fmt("PROCESS_SERVICE_CHECK_RESULT;n;s;%d;%s", c->rc, c->out.c_str()); } else { c->own_ts = c->denied = false; c->cmd = c->text = "PROCESS_HOST_CHECK_RESULT;n;0;" + uniq(); } }
				else { c = std::make_shared<LCall>(); c->k = x.k; c->h = x.h; c->mem_k = x.mem; }
				c->at = t; t += 0.2; l->calls.push_back(c);
			}
			auto m = std::make_shared<LCall>(); m->k = C_MARK; m->at = t; t += 0.1; l->calls.push_back(m); marks.push_back(m);
		}
		W->end_time = std::max(W->end_time, t + 30);
		start_node(l->n);
		W->at_end.push_back([l, marks, R] {
			Node *n = l->n; const char *nm = l->name.c_str();
			if (!n->started) return;
			if (n->signaled) { violate("P28", "%s was killed by signal %d", nm, n->term_sig); return; }
			std::map<int, int> failed; bool any = false;
			for (size_t k = 0; k < l->calls.size(); k++) {
				auto &c = *l->calls[k]; const char *w = CN[c.k];
				if (!c.done) { violate("P28", "%s: %s of handle %d did not return%s", nm, w, c.h, n->exited ? ": the library ended the program" : ""); return; }
				if (c.k == C_SHORT) { any = true; if (c.ok) violate("P28", "%s: the constructor accepted too few arguments", nm); continue; }
				if (c.k == C_NEW) {
					if (l->hs[(size_t)c.h].bad_ciphers) { any = true; if (c.ok) violate("P28", "%s: the constructor accepted an unusable cipher list", nm); }
					else if (c.memf) { any = true; probe("life.mem"); if (c.ok) violate("P28", "%s: the constructor succeeded although an allocation failed", nm); }
					else if (!c.ok) violate("P28", "%s: the constructor failed although nothing was wrong: %s", nm, c.err.c_str());
					if (!c.ok && c.err.empty()) violate("P28", "%s: the constructor failed without a reason", nm);
				}
				if ((c.k == C_HOST || c.k == C_SVC || c.k == C_CMD) && !c.ok) { violate("P28", "%s: %s failed on a handle with which nothing was wrong: %s", nm, w, c.err.c_str()); return; }
			}
			// nothing is left behind, round after round
			size_t f0 = marks[1]->fds; bool fd = true, mem = true;
			for (int r = 2; r < R; r++) { if (marks[(size_t)r]->fds <= marks[(size_t)r - 1]->fds) fd = false; if (marks[(size_t)r]->mem <= marks[(size_t)r - 1]->mem) mem = false; }
			(void)f0;
			if (fd) violate("P28", "%s: descriptors leak: %zu after the second round, %zu after round %d", nm, marks[1]->fds, marks.back()->fds, R);
			if (mem) violate("P28", "%s: memory leaks: %zu blocks after the second round, %zu after round %d", nm, marks[1]->mem, marks.back()->mem, R);
			probe(any ? "life.failures" : "life.smooth");
		});
	}
}
static ScenReg rl("libs_life", libs_life);
