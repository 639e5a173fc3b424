// The life of server processes: signals, reloads, PID files, readiness and watchdog messages.
#include "model.h"
#include <string.h>
#include <limits.h>
#include <algorithm>

static bool is_ready(Node *n) { // announced readiness since it was (re-)executed
	if (!n->started || n->exited || n->killed) return false;
	for (size_t i = n->notifications.size(); i-- > 0;) { if (n->notifications[i] == "EXEC") return false; if (n->notifications[i] == "READY=1") return true; }
	return false;
}
static double ready_time(Node *n) { for (size_t i = n->notifications.size(); i-- > 0;) if (n->notifications[i] == "READY=1") return n->notif_times[i]; return -1; }
static Str pid_of(Node *n) { return fmt("%d", n->pid); }
static Str last_log(Node *n) { return n->log.empty() ? Str() : n->log.back().text; }
static std::vector<std::shared_ptr<SrvCfg>> g_cfgs;
static SrvCfg &keep_cfg(const SrvCfg &c) { g_cfgs.push_back(std::make_shared<SrvCfg>(c)); return *g_cfgs.back(); }
static bool listening(Node *n, int port) { auto it = W->listeners.find(port); if (it == W->listeners.end()) return false; for (auto &f : n->fds) if (f.second == it->second) return true; return false; }
// What a server must not have inherited from its former self.
static void check_fds(Node *n, const char *when) {
	int fifo = 0, listen = 0, ep = 0, evfd = 0;
	for (auto &f : n->fds) switch (f.second->type) {
		case OFile::TCP: case OFile::NEWSOCK: if (f.second->born < n->incarnation) violate("P17", "%s %s: descriptor %d is a connection of its former self", n->name.c_str(), when, f.first); break;
		case OFile::REG: if (!f.second->ino->lock || f.second->ino->lock != f.second) { violate("P17", "%s %s: descriptor %d (%s) was left open by its former self", n->name.c_str(), when, f.first, f.second->ino->path.c_str()); return; } break;
		case OFile::FIFO_W: fifo++; break; case OFile::LISTEN: listen++; break; case OFile::EPOLL: ep++; break; case OFile::EVENTFD: evfd++; break; default: break;
	}
	if (fifo > 1 || listen != 1 || ep > 1 || evfd > 2) violate("P17", "%s %s holds %d command-file, %d listening, %d epoll and %d event descriptors", n->name.c_str(), when, fifo, listen, ep, evfd);
}

// ---------------------------------------------------------------- signals at any moment
struct SigPlan { int sig; double at; int aim; bool change, broken; double dur; int second = 0; };
struct SigState {
	Env *e; std::vector<SigPlan> plan; size_t next = 0; bool outstanding = false; double t_sent = 0; int inc = 0; SrvCfg *cur; Str orig_pw; std::vector<Str> argv; std::vector<Str> pws; std::vector<long> maxs; Rng g;
	bool may_die = false, must_exit = false; int both = 0; bool over = false, held = false; size_t fifo_at_accept = 0; int prev_fds = 0;
};
static void reload_session(std::shared_ptr<SigState> s, Rng h) { // the reloaded server serves, with the configuration as it is now
	Env *e = s->e; SrvCfg &c = *s->cur;
	auto x = new_session(fmt("after%d", s->inc), c, c.auth[0].id, c.auth[0].pw);
	x->also = {"P17"}; x->p->np = NetProfile{0.0005, 0.0005, 200, 1460, 65536};
	x->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
	add_push(x, h, mk_cmd(h, (size_t)h.range(60, 200)), true);
	x->script.push_back({RQ_LINE, fmt("PUSH %ld", c.max_cmd + 1), nullptr, "", 0});
	x->script.push_back({RQ_LINE, fmt("PUSH %ld", c.max_cmd), nullptr, "", 0}); // accepted; the data is never sent
	x->must_succeed = false; (void)e;
	int inc = s->inc; Node *srv = s->e->srv;
	x->start(W->now + 0.05);
	auto quiet = [s, inc, srv] { return !srv->exited && srv->incarnation == inc && !s->outstanding; };
	ev_after(8, [x, quiet, s] {
		if (!quiet() || W->now - ready_time(s->e->srv) < 7.5) { x->bail_ok = true; x->p->close_tcp(); return; }
		if (x->pos < 4) violate("P17", "%s, begun after the reload with the new configuration, got only to step %zu of 4 within 8 s (%s)", x->name.c_str(), x->pos, x->fail_reason.c_str());
		else probe("signals.reload_served");
		x->p->close_tcp();
	});
	if (s->pws.size() > 1 && s->pws[s->pws.size() - 2] != c.auth[0].pw) {
		auto o = new_session(fmt("old%d", inc), c, c.auth[0].id, s->pws[s->pws.size() - 2]);
		o->must_succeed = false; o->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0}); o->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		o->start(W->now + 0.07);
		ev_after(8, [o, s] { if (o->pos > 1) violate("P17", "%s: the password configured before the reload was still accepted after it", o->name.c_str()); });
	}
}
static void sig_tick(std::shared_ptr<SigState> s) {
	Env *e = s->e; Node *n = e->srv;
	if (s->over) return;
	if (s->outstanding) {
		bool stall = n->stalled_until > W->now;
		if (n->exited) {
			s->outstanding = false; s->over = true;
			auto &p = s->plan[s->next - 1];
			bool hup_ok = p.sig == SIGHUP && p.second == 0;
			if (n->signaled) violate("P17", "the server died from signal %d %.3f s after signal %d", n->term_sig, n->exit_time - s->t_sent, p.sig);
			else if (hup_ok && !s->may_die) violate("P17", "the server exited with status %d instead of reloading: %s", n->exit_code, last_log(n).c_str());
			else if (!hup_ok && n->exit_code != 0 && !s->may_die) violate("P17", "the server exited with status %d after signal %d: %s", n->exit_code, p.sig, last_log(n).c_str());
			else if (s->may_die && hup_ok && n->exit_code == 0) violate("P17", "the server exited with status 0 although it could not be reloaded");
			if (!s->cur->pid.empty() && fs_get(s->cur->pid) && !n->signaled) violate("P17", "the PID file still exists after the server exited");
			probe(p.sig == SIGHUP ? "signals.reload_failed" : "signals.stopped");
			return;
		}
		if (is_ready(n) && n->incarnation > s->inc) {
			auto &p = s->plan[s->next - 1];
			s->outstanding = false; s->inc = n->incarnation;
			if (p.sig != SIGHUP && !p.second) { violate("P17", "the server restarted after signal %d", p.sig); s->over = true; return; }
			if (s->may_die) s->may_die = false;
			if (n->argv != s->argv) violate("P17", "the server re-executed itself with other arguments");
			int port = 5668; if (!listening(n, port)) violate("P17", "the reloaded server announced readiness, but does not listen on its port");
			if (!s->cur->pid.empty()) { auto f = fs_get(s->cur->pid); if (!f || f->data != pid_of(n)) violate("P17", "the reloaded server's PID file %s", f ? "names another process" : "does not exist"); }
			probe("signals.reloaded");
			reload_session(s, Rng(s->g.u64()));
		} else {
			if (!stall && W->now > s->t_sent + 5 && W->now > n->stalled_until + 5) {
				auto &p = s->plan[s->next - 1];
				violate("P17", "signal %d sent at %.3f: the server has neither exited nor reloaded after 5 s", p.sig, s->t_sent); s->over = true; return;
			}
			return;
		}
	}
	if (s->next >= s->plan.size()) return;
	auto &p = s->plan[s->next];
	if (W->now < p.at || !is_ready(n)) return;
	bool go = W->now > p.at + 4; // waited long enough for the aimed-at moment
	if (p.aim == 3 && !s->held) { s->held = true; e->rd->paused = true; note_fault("reader.pause", "reader"); }
	int conns = 0; bool dumping = !n->aio.empty(), blocked = false;
	for (auto &f : n->fds) { if (f.second->type == OFile::TCP) conns++; if (f.second->type == OFile::FIFO_W && f.second->ino->data.size() + 4096 > f.second->ino->cap) blocked = true; if (f.second->type == OFile::REG && f.second->ino->path.find("/nsca.") != Str::npos) dumping = true; }
	switch (p.aim) { case 0: go = true; break; case 1: go = go || dumping; break; case 2: go = go || conns > s->prev_fds; break; case 3: go = go || blocked; break; case 4: go = go || conns >= 2; break; case 5: go = go || conns < s->prev_fds; break; }
	s->prev_fds = conns;
	if (!go) return;
	s->next++;
	if (s->held) { s->held = false; auto rd = e->rd; ev_after(s->g.chance(0.4) ? s->g.real(0.01, 2) : s->g.real(5.5, 12), [rd] { rd->paused = false; }); }
	if (p.aim == 1 && dumping) probe("signals.during_dump");
	if (p.aim == 2) probe("signals.at_accept");
	if (blocked) probe("signals.fifo_full");
	if (p.sig == SIGHUP || p.second == SIGHUP) {
		if (p.broken) { auto f = fs_get(s->cur->path); if (f) f->data = "authorize \"x\" { password = \n"; s->may_die = true; probe("signals.broken_config"); }
		else if (p.change) {
			SrvCfg c = *s->cur; c.auth[0].pw = "new" + std::to_string(s->g.range(0, 1 << 30)); c.max_cmd = (long)s->g.range(2000, 30000); c.timeout = 60;
			s->cur = &keep_cfg(c); write_cfg(c);
		}
		if (W->fp.count("exec.fail")) s->may_die = true;
		s->pws.push_back(s->cur->auth[0].pw);
	}
	s->outstanding = true; s->t_sent = W->now; s->inc = n->incarnation;
	signal_node(n, p.sig); note_fault(fmt("signal.%d", p.sig), n->name);
	if (p.second) { signal_node(n, p.second); note_fault(fmt("signal.%d", p.second), n->name); }
}
static void signals(Rng &g) {
	SrvCfg c0 = base_cfg(g, 2);
	c0.auth[0].commands = {".+"}; c0.auth[0].hosts.clear(); c0.auth[0].services.clear();
	c0.timeout = 60; c0.sync = g.chance(0.2); c0.max_cmd = 16384;
	if (g.chance(0.7)) c0.pid = "/var/run/nsca-ng.pid";
	int how = (int)g.range(0, 2);
	if (how == 1) c0.daemonize = true; else if (how == 2) c0.activated = true;
	if (g.chance(0.25)) c0.extra = "user = \"nagios\"\n";
	if (g.chance(0.3)) c0.watchdog_env = "30000000";
	Env *e = env_begin(g, c0, 60, 30, g.chance(0.5) ? 0 : 1);
	e->must_live = false;
	if (g.chance(0.3)) { auto i = fs_get(c0.fifo); if (i && i->type == Inode::FIFO) i->cap = (size_t)PIPE_BUF; }
	if (g.chance(0.5)) { W->fp["aio.slow"] = 0.4; if (g.chance(0.4)) W->aio_slow_max = 20; }
	if (c0.sync) { W->fp["dump.short"] = 0.4; W->fp["dump.eintr"] = 0.2; }
	if (g.chance(0.08)) W->fp["exec.fail"] = 1;
	reader_script(e, g, 2);
	auto s = std::make_shared<SigState>();
	s->e = e; s->argv = e->srv->argv; s->cur = &keep_cfg(c0); s->pws.push_back(c0.auth[0].pw); s->g = Rng(g.u64());
	int nh = (int)g.range(0, 4); double t = e->t0 + 0.2;
	bool lonely = g.chance(0.25); // nothing else wakes the server up
	if (lonely) W->preempt_p = g.chance(0.5) ? 1 : 0.5;
	bool last = g.chance(0.7); int total = nh + (last || !nh ? 1 : 0);
	for (int i = 0; i < total; i++) {
		t += g.chance(0.3) ? g.real(0.001, 0.3) : g.real(0.1, 10);
		SigPlan p{}; p.sig = i < nh ? SIGHUP : g.chance(0.5) ? SIGTERM : SIGINT; p.at = t; p.aim = lonely ? 5 : (int)g.range(0, 5); p.change = g.chance(0.7); p.broken = i == total - 1 && p.sig == SIGHUP && g.chance(0.15);
		if (i == total - 1 && g.chance(0.1)) p.second = g.chance(0.5) ? SIGHUP : SIGTERM;
		if (p.second == p.sig) p.second = 0;
		Rng h; static const char *an[] = {"", " while it writes a dump file", " when a connection comes in", " while the FIFO is full", " while there are two connections", " when it closes a connection"};
		if (op(g, h, fmt("signal %d%s from %.3f%s%s%s", p.sig, p.second ? fmt(" and %d", p.second).c_str() : "", t, an[p.aim], p.change && p.sig == SIGHUP ? ", configuration changed" : "", p.broken ? ", configuration broken" : ""))) s->plan.push_back(p);
	}
	W->monitor = [s] { if (!s->over) sig_tick(s); };
	for (double x = 0; x < 80; x += 0.5) ev_at(e->t0 + x, [] {}); // so that the monitor looks even if nothing happens
	int ns = lonely ? 1 : (int)g.range(1, 6); bool near = g.chance(0.5);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.1 + g.real(0, 25); int n = (int)g.range(1, 12); size_t m = g.chance(0.5) ? 9000 : 300; bool stall = g.chance(0.2); Rng h;
		if (!op(g, h, fmt("session s%d starts at %.3f: %d commands of up to %zu bytes", i, at, n, m))) continue;
		if (near && i < 2 && !s->plan.empty()) at = std::max(e->t0 + 0.1, s->plan[h.u64() % s->plan.size()].at + h.real(-0.3, 0.05)), m = 300;
		auto x = simple_session(fmt("s%d", i), e->c, h, at, n, m);
		x->must_succeed = false;
		if (stall) { auto p = x->p; x->on_started = [p] { ev_after(1.5, [p] { if (!p->dead()) { p->muted = true; p->auto_close_reply = false; } }); }; }
	}
	for (size_t i = 0; i < s->plan.size(); i++) if (s->plan[i].aim == 3) { // fills the FIFO meanwhile
		double at = s->plan[i].at + g.real(-0.3, 0.1); int n = (int)g.range(3, 25); size_t m = g.chance(0.5) ? 300 : 3000; Rng h;
		if (!op(g, h, fmt("session f%zu starts at %.3f: %d commands of up to %zu bytes", i, at, n, m))) continue;
		simple_session(fmt("f%zu", i), e->c, h, std::max(at, e->t0 + 0.1), n, m)->must_succeed = false;
	}
	double T1 = e->T1;
	W->at_end.push_back([s, e, T1] {
		Node *n = e->srv;
		for (size_t i = 0, k = W->viols.size(); i < k; i++) if (W->viols[i].prop == "P02" || W->viols[i].prop == "P01" || W->viols[i].prop == "P12") { Violation v = W->viols[i]; violate("P17", "%s", v.msg.c_str()); break; }
		if (s->outstanding && !s->over && !n->exited && W->now > s->t_sent + 5 && W->now > n->stalled_until + 5) violate("P17", "signal sent at %.3f was never acted upon", s->t_sent);
		if (n->exited && !s->over) violate("P17", "the server ended with status %d by itself at %.3f: %s", n->exit_code, n->exit_time, last_log(n).c_str());
	});
	// at the first moment of each new incarnation's readiness nothing of the old one is left
	auto seen = std::make_shared<int>(0);
	auto old = W->monitor;
	W->monitor = [old, seen, e] {
		Node *n = e->srv;
		if (is_ready(n) && n->incarnation > *seen) { *seen = n->incarnation; bool fresh = ready_time(n) >= W->now - 1e-3; if (fresh) { check_fds(n, "after the reload"); } }
		old();
	};
}
static ScenReg r1("signals", signals);

// ---------------------------------------------------------------- several servers, one PID file
struct PidW { std::vector<Node *> v; Str path; std::map<Node *, bool> stopping; SrvCfg base; int n = 0; std::set<Node *> excused, aimed, slowed, doomed; Rng g; bool bad = false; size_t max_up = 0; };
static bool up(std::shared_ptr<PidW> w, Node *n) { return is_ready(n) && !w->stopping[n]; }
static void pid_check(std::shared_ptr<PidW> w) {
	if (w->bad) return;
	size_t k = 0; Node *one = nullptr;
	for (auto n : w->v) if (up(w, n)) { k++; one = n; }
	w->max_up = std::max(w->max_up, k);
	if (k > 1) { Str s; for (auto n : w->v) if (up(w, n)) s += " " + n->name + " (PID " + pid_of(n) + ")"; violate("P16", "%zu servers have passed start-up with the same PID file:%s", k, s.c_str()); w->bad = true; return; }
	if (k == 1) {
		auto f = fs_get(w->path);
		if (!f || f->data != pid_of(one)) { violate("P16", "while %s (PID %s) runs, its PID file %s", one->name.c_str(), pid_of(one).c_str(), f ? ("contains " + quote(f->data)).c_str() : "does not exist"); w->bad = true; }
	}
}
static void pidfile(Rng &g) {
	rand_sched(g);
	W->preempt_p = g.chance(0.3) ? 1 : g.chance(0.5) ? 0.5 : 0.1;
	auto w = std::make_shared<PidW>();
	SrvCfg b = base_cfg(g, 1); b.pid = w->path = "/var/run/nsca-ng.pid"; b.timeout = 60;
	w->base = b; world_fs(b); ledger_init(b);
	if (g.chance(0.5)) { static const char *k[] = {"flock.eintr", "fstat.err", "ftruncate.err", "pwrite.err", "unlink.err", "exec.fail", "daemon.fail"}; for (auto f : k) if (g.chance(0.25)) W->fp[f] = 0.2; }
	if (g.chance(0.3)) { static const char *junk[] = {"4711", "", "garbage\n", "99999999999999999999", "-1"}; fs_mk(w->path, Inode::REG, junk[g.range(0, 4)], 0600); } // left behind
	double T1 = W->now + 15;
	W->end_time = T1 + 20;
	int n = (int)g.range(2, 7);
	bool burst = g.chance(0.6);
	double t = W->now;
	{ OFile *f = of_new(OFile::LISTEN); f->lport = 6099; W->listeners[6099] = f; } // taken
	auto start = [w](int i, double at, bool daemonize, bool sync, bool doomed) -> Node * {
		SrvCfg c = w->base; c.bind = fmt("*:%d", 6000 + (doomed ? 99 : i)); c.path = fmt("/etc/nsca-ng%d.cfg", i); c.daemonize = daemonize; c.sync = sync; write_cfg(c);
		Node *nd = make_server(fmt("server%d", i), c, at > 0 ? at : 1e-9);
		w->v.push_back(nd); if (doomed) w->doomed.insert(nd);
		return nd;
	};
	int nsync = 0; double p_doomed = g.chance(0.3) ? 0.4 : 0;
	for (int i = 0; i < n; i++) {
		t = burst && i % 3 ? t + g.real(0, 0.003) : t + g.real(0, 2);
		Rng h; bool dm = g.chance(0.4), sy = g.chance(0.1) && nsync++ < 3; int what = (int)g.range(0, 5); double life = g.chance(0.4) ? g.real(0, 0.05) : g.real(0.01, 4), again = g.real(0.0001, 0.5); bool dead = p_doomed > 0 && g.chance(p_doomed);
		static const char *wn[] = {"", "", "then SIGTERM", "then SIGKILL", "then SIGHUP", "then SIGHUP and SIGTERM"};
		if (!op(g, h, fmt("server%d starts at %.6f%s%s %s after %.6f s", i, t, dm ? " as a daemon" : "", dead ? " with a port that is taken," : "", wn[what], life))) continue;
		Node *nd = start(i, std::max(t, W->now + 1e-9), dm, sy, dead);
		auto sig = [w, nd](int sg) {
			if (!nd->started || nd->exited) return;
			if (sg == SIGKILL) { note_fault("server.kill", nd->name); w->stopping[nd] = true; kill_node(nd, sg); return; }
			if (!is_ready(nd) || w->stopping[nd]) return; // the handlers may not be installed (yet, or any more)
			w->stopping[nd] = sg == SIGTERM ? true : w->stopping[nd];
			if (sg == SIGHUP) w->stopping[nd] = true; // until it is ready again
			note_fault(fmt("signal.%d", sg), nd->name); signal_node(nd, sg);
		};
		double at = std::max(t, W->now) + life;
		if (what == 2) ev_at(at, [sig] { sig(SIGTERM); });
		else if (what == 3) ev_at(at, [sig] { sig(SIGKILL); });
		else if (what >= 4) {
			ev_at(at, [sig] { sig(SIGHUP); });
			if (what == 5) ev_at(at + again + 1, [sig] { sig(SIGTERM); });
		}
	}
	auto incs = std::make_shared<std::map<Node *, int>>();
	bool aim = g.chance(0.6); w->g = Rng(g.u64());
	W->monitor = [w, incs, aim] {
		for (auto n : w->v) if (n->incarnation > (*incs)[n] && is_ready(n)) { (*incs)[n] = n->incarnation; w->stopping[n] = false; }
		pid_check(w);
		if (!aim || W->faults_on == false) return;
		for (auto n : w->v) if (n->started && !n->exited && !is_ready(n) && !w->slowed.count(n) && n->stalled_until <= W->now) for (auto &f : n->fds) if (f.second->type == OFile::REG && f.second->ino->path == w->path && f.second->ino->lock == f.second && f.second->ino->data.empty()) {
			// it holds the lock, but has not written its PID yet
			w->slowed.insert(n);
			if (w->g.chance(0.3)) { double d = w->g.real(0.001, w->g.chance(0.4) ? 0.6 : 0.08); /* others wait for 0.1 s */ note_fault("stall", n->name); stall_node(n, d); probe("pid.slow_between_lock_and_write"); }
			break;
		}
		Node *holder = nullptr; for (auto n : w->v) if (up(w, n)) holder = n;
		if (!holder) for (auto n : w->v) if (w->doomed.count(n) && n->started && !n->exited) for (auto &f : n->fds) if (f.second->type == OFile::REG && f.second->ino->path == w->path && f.second->ino->lock == f.second) holder = n; // about to fail
		if (!holder) return;
		for (auto n : w->v) if (n != holder && n->started && !n->exited && !is_ready(n) && !w->aimed.count(n)) for (auto &f : n->fds) if (f.second->type == OFile::REG && f.second->ino->path == w->path && f.second->ino->lock != f.second) {
			// it has opened the file the other one is about to remove
			w->aimed.insert(n);
			if (!w->g.chance(0.7)) return;
			double d = w->g.chance(0.7) ? w->g.real(0, 0.005) : 0;
			trace("%s is stopped while it is about to exit, %s between open and flock", holder->name.c_str(), n->name.c_str());
			if (d > 0) { note_fault("stall", n->name); stall_node(n, d); }
			if (w->doomed.count(holder)) { probe("pid.open_while_held_and_failing"); return; }
			w->stopping[holder] = true; note_fault("signal.15", holder->name); signal_node(holder, w->g.chance(0.7) ? SIGTERM : SIGHUP);
			probe("pid.open_while_held_and_released");
			return;
		}
	};
	// each server that ends says so properly
	ev_at(T1, [w, start, T1] {
		W->faults_on = false;
		for (auto n : w->v) if (is_ready(n)) { w->stopping[n] = true; signal_node(n, SIGTERM); }
		ev_at(T1 + 4, [w] {
			bool any = false; for (auto n : w->v) if (n->started && !n->exited) { any = true; violate("P16", "%s neither failed nor could be stopped (%s)", n->name.c_str(), last_log(n).c_str()); }
			if (!any && fs_get(w->path)) {
				// orderly exits leave no file; crashes may
				bool crash = false; for (auto n : w->v) if (n->signaled || w->excused.count(n)) crash = true;
				for (auto k : {"unlink.err", "fstat.err", "exec.fail", "ftruncate.err", "pwrite.err", "flock.eintr", "daemon.fail"}) if (W->fcount.count(k)) crash = true;
				bool any_ran = false; for (auto n : w->v) for (auto &x : n->notifications) if (x == "READY=1") any_ran = true;
				if (!crash && any_ran) violate("P16", "a PID file (%s) remains although every server exited in an orderly way", quote(fs_get(w->path)->data).c_str());
			}
		});
		Node *f = start(90, T1 + 6, false, false, false);
		ev_at(T1 + 9, [f] { if (!is_ready(f)) violate("P16", "with no other server running, a server could not start: %s", last_log(f).c_str()); });
		Node *s2 = start(91, T1 + 10, false, false, false);
		ev_at(T1 + 13, [f, s2] {
			if (!s2->exited || s2->exit_code == 0) violate("P16", "a second server %s", s2->exited ? "exited with status 0" : "started");
			if (!is_ready(f)) violate("P16", "the first server stopped when a second one was started");
			probe("pid.second_refused");
		});
	});
	W->at_end.push_back([w] {
		for (auto n : w->v) {
			if (!n->exited) continue;
			bool was_ready = false; for (auto &x : n->notifications) if (x == "READY=1") was_ready = true;
			bool hit = false; for (auto k : {"flock.eintr", "fstat.err", "ftruncate.err", "pwrite.err", "unlink.err", "exec.fail", "daemon.fail", "open.err"}) if (W->fcount.count(k)) hit = true;
			if (!was_ready && !n->signaled && !n->lock_refused && !hit && !w->doomed.count(n)) violate("P16", "%s did not start although no other server held the PID file whenever it tried: %s", n->name.c_str(), last_log(n).c_str());
			if (!was_ready && !n->signaled) { if (n->exit_code == 0) violate("P16", "%s could not start, but exited with status 0", n->name.c_str()); if (n->log.empty()) violate("P16", "%s could not start, but gave no reason", n->name.c_str()); probe("pid.refused"); }
			if (n->signaled && n->term_sig != SIGKILL) violate("P16", "%s died from signal %d", n->name.c_str(), n->term_sig);
		}
		if (w->max_up == 1) probe("pid.held");
	});
}
static ScenReg r2("pidfile", pidfile);

// ---------------------------------------------------------------- readiness and watchdog
static void watchdog(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 60; c.sync = g.chance(0.2);
	double iv = 0; int k = (int)g.range(0, 9);
	static const char *none[] = {"0", "", "-5000000", "abc", "x5"};
	if (k == 0) c.watchdog_env = none[g.range(0, 4)]; // set, but no interval
	else if (k > 1) { static const double v[] = {0.5, 1, 2, 3, 5, 10, 20, 30, 60, 4000}; iv = g.chance(0.7) ? v[g.range(0, 8)] : g.real(0.5, 40); c.watchdog_env = fmt("%ld", (long)(iv * 1e6)); iv = (double)(long)(iv * 1e6) / 1e6; }
	int fail = g.chance(0.25) ? (int)g.range(1, 6) : 0;
	if (g.chance(0.4)) c.pid = "/var/run/nsca-ng.pid";
	if (g.chance(0.2)) c.activated = fail != 2; else if (g.chance(0.2)) c.daemonize = true;
	if (fail >= 3 && fail != 6) c.pid = "/var/run/nsca-ng.pid";
	Env *e = env_begin(g, c, 60, 60, g.chance(0.5) ? 0 : 1);
	e->must_live = false;
	for (auto x : {"timer.late", "net.delay"}) W->fp.erase(x);
	W->aio_max = 0.005;
	switch (fail) { // reasons why the start-up fails
	case 1: fs_get(c.path)->data += "junk = yes\n"; break;
	case 2: { OFile *f = of_new(OFile::LISTEN); f->lport = 5668; W->listeners[5668] = f; break; }
	case 3: { auto i = fs_mk(c.pid, Inode::REG, "1234", 0600); OFile *f = of_new(OFile::REG); f->ino = i; i->lock = f; break; }
	case 4: W->fp["pwrite.err"] = 1; break;
	case 5: W->fp["ftruncate.err"] = 1; break;
	case 6: fs_rm(c.tmp); break;
	}
	reader_script(e, g, 2);
	int ns = (int)g.range(0, 8);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, 40); int n = (int)g.range(1, 15); size_t m = g.chance(0.4) ? 9000 : 300; Rng h;
		if (!op(g, h, fmt("session s%d starts at %.3f: %d commands", i, at, n))) continue;
		auto s = simple_session(fmt("s%d", i), e->c, h, at, n, m); s->must_succeed = false;
	}
	int nj = (int)g.range(0, 3);
	for (int i = 0; i < nj; i++) { double at = e->t0 + g.real(0.1, 100), d = g.chance(0.5) ? g.real(-1e6, 1e6) : g.real(-30, 30); Rng h; if (op(g, h, fmt("the system time jumps by %.1f s at %.3f", d, at))) ev_at(at, [d] { W->wall_off += d; note_fault("clock.jump", "system"); }); }
	Node *srv = e->srv;
	int nr = g.chance(0.3) ? (int)g.range(1, 2) : 0;
	for (int i = 0; i < nr; i++) { double at = e->t0 + g.real(1, 80); Rng h; if (op(g, h, fmt("SIGHUP at %.3f", at))) ev_at(at, [srv] { if (is_ready(srv)) { note_fault("signal.1", srv->name); signal_node(srv, SIGHUP); } }); }
	bool stop = g.chance(0.2); double ts = e->t0 + g.real(20, 100); Rng h;
	if (stop && op(g, h, fmt("SIGTERM at %.3f", ts))) ev_at(ts, [srv] { if (is_ready(srv)) { note_fault("signal.15", srv->name); signal_node(srv, SIGTERM); } }); else stop = false;
	auto serve = std::make_shared<bool>(false);
	W->monitor = [e, serve] { // when readiness is announced
		if (*serve || !is_ready(e->srv)) return;
		*serve = true;
		if (!listening(e->srv, 5668)) violate("P18", "readiness announced although the server does not listen yet");
		if (!e->c.pid.empty()) { auto f = fs_get(e->c.pid); if (!f || f->data.empty()) violate("P18", "readiness announced although the PID file was not written yet"); }
	};
	W->at_end.push_back([e, fail, iv, srv] {
		if (fail) {
			for (auto &x : srv->notifications) if (x == "READY=1" || x == "WATCHDOG=1") { violate("P18", "%s sent although start-up failed", x.c_str()); break; }
			if (!srv->exited || srv->exit_code == 0) violate("P18", "start-up failure %d: the server %s", fail, srv->exited ? "exited with status 0" : "runs");
			probe(fmt("watchdog.fail%d", fail)); return;
		}
		double end = srv->exited ? srv->exit_time : W->now;
		double last = -1; bool ready = false, reloaded = false; int nk = 0;
		for (size_t i = 0; i < srv->notifications.size(); i++) {
			auto &x = srv->notifications[i]; double t = srv->notif_times[i];
			if (x == "EXEC") { ready = false; reloaded = true; }
			else if (x == "READY=1") { if (ready) { violate("P18", "readiness announced twice"); return; } ready = true; if (last < 0) last = t; }
			else if (x == "WATCHDOG=1") {
				nk++;
				if (iv <= 0) { violate("P18", "keep-alive message sent although no watchdog interval is set"); return; }
				if (!ready) { violate("P18", "keep-alive message sent before readiness was announced"); return; }
				double lim = iv / 2 + 0.002;
				if (t - last > lim) { violate("P18", "keep-alive messages %.3f s apart%s, watchdog interval %.3f s", t - last, reloaded ? " across a reload" : "", iv); return; }
				last = t; reloaded = false;
			}
		}
		if (!ready) { violate("P18", "the server never announced readiness: %s", last_log(srv).c_str()); return; }
		if (iv > 0 && end - last > iv / 2 + 0.002) { violate("P18", "no keep-alive message for %.3f s, watchdog interval %.3f s", end - last, iv); return; }
		if (srv->exited && srv->signaled) violate("P18", "the server died from signal %d", srv->term_sig);
		probe(iv > 0 ? "watchdog.kept_alive" : "watchdog.off"); (void)nk;
	});
}
static ScenReg r3("watchdog", watchdog);
