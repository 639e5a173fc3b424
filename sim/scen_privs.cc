// Servers that switch to another user and another root directory.
#include "model.h"
#include <string.h>
#include <algorithm>

struct Priv { Env *e; Str user; int uid0 = 0; bool bad = false, served = false; };
static const char *const PF[] = {"priv.getpwnam", "priv.groups", "priv.chroot", "priv.chdir", "priv.setgid", "priv.setuid"};

static bool priv_ready(Node *n) { if (!n->started || n->exited) return false; for (size_t i = n->notifications.size(); i-- > 0;) { if (n->notifications[i] == "EXEC") return false; if (n->notifications[i] == "READY=1") return true; } return false; }
static void priv_check(std::shared_ptr<Priv> p, Node *n, const char *what) {
	if (p->bad) return;
	auto bad = [&](const Str &why) { p->bad = true; violate("P24", "the server %s %s", what, why.c_str()); };
	if (!p->user.empty()) {
		int id = p->user == "nagios" ? 1000 : p->user == "root" ? 0 : -1;
		if (n->ruid != id || n->uid != id || n->suid != id) return bad(fmt("with the user IDs %d/%d/%d (real/effective/saved), configured is user %s", n->ruid, n->uid, n->suid, p->user.c_str()));
		if (n->rgid != id || n->gid != id || n->sgid != id) return bad(fmt("with the group IDs %d/%d/%d (real/effective/saved), configured is user %s", n->rgid, n->gid, n->sgid, p->user.c_str()));
		if (n->groups == "starter") return bad("with the supplementary groups of the user who started it");
	}
	if (!p->e->c.root.empty()) {
		if (n->root != p->e->c.root) return bad(fmt("with the root directory %s, configured is %s", n->root.empty() ? "/" : n->root.c_str(), p->e->c.root.c_str()));
		if (n->cwd != n->root && n->cwd.compare(0, n->root.size() + 1, n->root + "/") != 0) return bad(fmt("while its working directory %s is outside its root directory", n->cwd.c_str()));
	}
	probe("privs.checked");
}
static void privs(Rng &g) {
	SrvCfg c = base_cfg(g, 2);
	c.auth[0].commands = {".+"}; c.auth[0].hosts.clear(); c.auth[0].services.clear();
	c.timeout = 30; c.max_cmd = 16384; c.sync = g.chance(0.2);
	auto p = std::make_shared<Priv>();
	int how = (int)g.range(0, 9); // what is configured
	bool jail = how >= 5, user = how != 5 && how != 6 && how != 0;
	if (user) p->user = g.chance(0.85) ? "nagios" : g.chance(0.6) ? "ghost" : "root";
	if (!p->user.empty()) c.extra += "user = " + cfg_quote(p->user) + "\n";
	if (jail) { c.root = g.chance(0.5) ? "/jail" : "/var/nagios"; c.fifo = c.root + "/rw/nagios.cmd"; c.tmp = c.root + (g.chance(0.5) ? "/tmp" : "/dev/shm"); }
	if (g.chance(0.7)) c.pid = c.root + "/run/nsca-ng.pid";
	int mode = (int)g.range(0, 2);
	c.daemonize = mode == 1; c.activated = mode == 2;
	p->uid0 = g.chance(0.75) ? 0 : g.chance(0.6) ? 1000 : 2000;
	bool missing = jail && g.chance(0.1), fault1 = g.chance(0.35);
	Env *e = env_begin(g, c, 40, 30, g.chance(0.6) ? 0 : 0.7);
	p->e = e; e->must_live = false;
	Node *n = e->srv;
	n->ruid = n->uid = n->suid = n->rgid = n->gid = n->sgid = p->uid0; n->groups = p->uid0 == 1000 ? "nagios+1000" : "starter";
	n->cwd = g.chance(0.5) ? "/" : "/etc";
	n->priv_check = [p](Node *k, const char *what) { priv_check(p, k, what); };
	if (missing) { std::vector<Str> v; for (auto &x : W->fs) if (x.first.compare(0, c.root.size(), c.root) == 0) v.push_back(x.first); for (auto &x : v) fs_rm(x); if (e->rd->open) e->rd->do_close(); }
	Str fk; Rng h;
	if (fault1) { fk = PF[g.range(0, 5)]; if (op(g, h, "failing system call: " + fk)) W->fp[fk] = g.chance(0.7) ? 1 : 0.5; }
	bool expect_fail = missing || p->user == "ghost" || (p->uid0 && jail) || (!p->user.empty() && p->uid0 && !(p->user == "nagios" && p->uid0 == 1000));
	bool expect_ok = !expect_fail;
	if (!missing) reader_script(e, g, 0);
	int ns = (int)g.range(1, 4);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.3 + g.real(0, 25); int k = (int)g.range(1, 8); size_t m = g.chance(0.5) ? 9000 : 300;
		if (!op(g, h, fmt("session s%d starts at %.3f: %d commands of up to %zu bytes", i, at, k, m))) continue;
		auto s = simple_session(fmt("s%d", i), e->c, h, at, k, m); s->must_succeed = false; s->also = {"P24"};
	}
	auto restarted = std::make_shared<bool>(false);
	int nr = !jail && g.chance(0.5) ? (int)g.range(1, 2) : 0;
	for (int i = 0; i < nr; i++) { double at = e->t0 + g.real(1, 30); if (op(g, h, fmt("SIGHUP at %.3f", at))) ev_at(at, [n, restarted] { if (priv_ready(n)) { *restarted = true; note_fault("signal.1", n->name); signal_node(n, SIGHUP); } }); }
	// once everything is over, it still serves
	std::shared_ptr<Session> last;
	if (op(g, h, "a session at the end")) { last = simple_session("last", e->c, h, e->T1 + 2, 3, 9000); last->must_succeed = false; }
	double ts = e->T1 + 20;
	ev_at(ts, [n, p] { p->served = priv_ready(n); if (p->served) { note_fault("signal.15", n->name); signal_node(n, SIGTERM); } });
	W->end_time = ts + 5;
	W->at_end.push_back([=] {
		bool fail = expect_fail; Str fault_seen;
		for (auto k : PF) if (W->fcount.count(k)) fail = true, fault_seen = k;
		size_t ready = 0, execs = 0; for (auto &x : n->notifications) ready += x == "READY=1", execs += x == "EXEC";
		if (n->signaled) { violate("P24", "the server died from signal %d", n->term_sig); return; }
		if (fail) {
			if (!n->exited || n->exit_code == 0) violate("P24", "the server %s although it could not switch (%s)", n->exited ? "exited with status 0" : "runs", fault_seen.empty() ? (missing ? "its root directory does not exist" : p->user == "ghost" ? "the user does not exist" : "it was not started by root") : fault_seen.c_str());
			else if (n->log.empty()) violate("P24", "the server gave no reason why it could not switch");
			if (ready > execs) violate("P24", "the server announced readiness although it could not switch");
			if (!execs) for (auto &k : W->conns) if (k->e[1].owner == n) { violate("P24", "the server accepted a connection although it could not switch"); break; }
			probe(execs ? "privs.refused_reload" : "privs.refused");
			return;
		}
		if (!expect_ok) return;
		Str ll = n->log.empty() ? "" : n->log.back().text;
		if (!p->served) { violate("P24", "the server %s although it could switch (user %s, root %s): %s", n->exited ? fmt("exited with status %d", n->exit_code).c_str() : "is not ready", p->user.c_str(), c.root.c_str(), ll.c_str()); return; }
		if (!n->exited || n->exit_code) violate("P24", "the server %s after SIGTERM: %s", n->exited ? fmt("exited with status %d", n->exit_code).c_str() : "runs on", ll.c_str());
		else if (!c.pid.empty() && fs_get(c.pid) && !W->fcount.count("unlink.err") && !W->fcount.count("fstat.err")) violate("P24", "the PID file still exists after the server exited");
		if (last && !last->finished_ok) violate("P24", "the server did not serve a session: %s", last->fail_reason.c_str());
		if (!*restarted) check_delivery("P01");
		probe(jail ? p->user.empty() ? "privs.jail" : "privs.jail_and_user" : p->user.empty() ? "privs.none" : p->uid0 ? "privs.same_user" : "privs.user");
		if (execs) probe("privs.reloaded");
	});
}
static ScenReg r1("privs", privs);
