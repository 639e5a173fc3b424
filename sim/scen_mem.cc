// The server runs out of memory.
#include "model.h"
#include <math.h>
#include <signal.h>

static void nomem(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 30; c.pid = "/var/run/nsca-ng.pid"; c.daemonize = g.chance(0.4); c.activated = false;
	c.auth[0].commands = {".+"}; c.auth[0].hosts.clear(); c.auth[0].services.clear();
	Env *e = env_begin(g, c, 25, 55, 0); e->must_live = false;
	reader_script(e, g, 1);
	Node *n = e->srv;
	Rng h;
	long k = (long)exp(g.real(0, 8)); bool boot = g.chance(0.3); double at = boot ? e->t0 - 1 : e->t0 + 0.5 + g.real(0, 12);
	if (op(g, h, fmt("allocation %ld %s fails", k, boot ? "" : fmt("after %.3f", at).c_str()))) { if (boot) n->nomem_k = k; else ev_at(at, [n, k] { if (!n->exited) n->nomem_k = k; }); }
	int ns = (int)g.range(1, 6);
	for (int i = 0; i < ns; i++) {
		Rng hs; double ts = e->t0 + 0.3 + g.real(0, 12); int np = (int)g.range(1, 20);
		if (!op(g, hs, fmt("session %d from %.3f with %d commands", i, ts, np))) continue;
		auto x = new_session(fmt("s%d", i), e->c, e->c.auth[0].id, e->c.auth[0].pw); x->must_succeed = false; x->think_hi = hs.chance(0.5) ? 0 : 0.3;
		x->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
		for (int q = 0; q < np; q++) add_push(x, hs, mk_cmd(hs, hs.chance(0.8) ? 120 : 5000), true);
		if (hs.chance(0.9)) x->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		x->start(ts);
	}
	// started again, it serves
	auto again = std::make_shared<Node *>(nullptr); auto late = new_session("late", e->c, e->c.auth[0].id, e->c.auth[0].pw); late->must_succeed = false;
	late->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0}); add_push(late, g, mk_cmd(g, 120), true); late->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
	SrvCfg c2 = e->c;
	ev_at(e->T1 + 1, [n, again, c2] { n->nomem_k = 0; if (n->exited) *again = make_server("server1", c2, W->now); });
	late->start(e->T1 + 6);
	W->at_end.push_back([=] {
		if (n->signaled) { violate("P29", "the server was killed by signal %d%s", n->term_sig, n->mem_fails ? " when it ran out of memory" : ""); return; }
		if (n->mem_fails) {
			probe("nomem.server");
			if (!n->exited || n->exit_time > n->mem_fail_t + 1) violate("P29", "the server ran on after it ran out of memory");
			else if (n->exit_code == 0) violate("P29", "the server exited with status 0 although it ran out of memory");
			if (n->log.size() <= n->mem_fail_log) violate("P29", "the server didn't say why it exited (out of memory)");
			if (n->exited && !*again) violate("P29", "the server exited late");
		} else if (n->exited) violate("P29", "the server exited with status %d although nothing was wrong", n->exit_code);
		if (!late->finished_ok) violate("P29", "a client was not served%s: %s", *again ? " by the server which was started after the first one ran out of memory" : "", late->fail_reason.c_str());
		for (auto &x : L->v) if (x->t_ack >= 0 && n->mem_fails && x->t_ack < e->T1) x->excused = true; // the queue is lost
		check_delivery("P29");
	});
	// the PID file is gone once it has exited
	auto told = std::make_shared<bool>(false); Str pid = c.pid; double T = e->T1;
	W->monitor = [n, told, pid, T] { if (!*told && n->mem_fails && n->exited && W->now < T + 1) { *told = true; if (fs_get(pid)) violate("P29", "the PID file was left behind when the server ran out of memory"); } };
}
static ScenReg r1("nomem", nomem);
