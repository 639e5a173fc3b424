// Start-up: it either succeeds completely, or fails with an error and leaves no traces.
#include "model.h"
#include <string.h>
#include <signal.h>

struct Start { Env *e; Node *n; bool detached = false, detached_ok = true, ready = false, served = false, had_pid = false; double t = 0; Str pid_before; int fail = 0; Str laddr; int lport = 0; };
static const char *const WHY[] = {"", "its configuration file does not exist", "its configuration has a syntax error", "its configuration has an unknown option", "an authorization pattern is invalid", "nobody is authorized", "a password is missing", "its temporary directory does not exist", "its temporary directory is not accessible", "the directory of its PID file does not exist", "another server holds its PID file", "its port is taken", "its listening address cannot be resolved", "its TLS ciphers are invalid", "it cannot detach", "its PID file cannot be written", "an option is unknown", "the timeout is negative", "no socket can be created", "too many sockets were passed to it", "an unexpected argument was given", "-S was given without -F", "its PID file cannot be opened", "the name service fails"};
static bool lst(Node *n, Str *addr, int *port) { for (auto &l : W->listeners) for (auto &f : n->fds) if (f.second == l.second) { if (addr) *addr = l.second->laddr; if (port) *port = l.first; return true; } return false; }

static void startup(Rng &g) {
	auto s = std::make_shared<Start>();
	SrvCfg c = base_cfg(g, 2); c.timeout = 40; c.max_cmd = 16384;
	c.sync = g.chance(0.15);
	int mode = (int)g.range(0, 2); c.daemonize = mode == 1; c.activated = mode == 2 && g.chance(0.6);
	if (g.chance(0.7)) c.pid = "/var/run/nsca-ng.pid";
	int fail = g.chance(0.35) ? 0 : (int)g.range(1, 23);
	if (fail == 9 || fail == 10 || fail == 15 || fail == 22) c.pid = "/var/run/nsca-ng.pid";
	if (fail == 11 || fail == 12 || fail == 18 || fail == 23) c.activated = false;
	if (fail == 14 || fail == 21) { c.daemonize = true; c.activated = false; }
	if (fail == 19) c.activated = true, c.daemonize = false;
	if (c.activated) c.daemonize = false;
	s->fail = fail; s->lport = 5668; s->laddr = "0.0.0.0";
	int port = 5668;
	// where it listens
	Str lst_arg; W->dns["nsca.example.com"] = {"10.0.0.7"};
	if (!c.activated) {
		static const char *ad[] = {"*", "10.0.0.1", "nsca.example.com", "127.0.0.1"}, *re[] = {"0.0.0.0", "10.0.0.1", "10.0.0.7", "127.0.0.1"};
		int k = (int)g.range(0, 3); bool dflt = g.chance(0.5);
		if (!dflt) port = g.chance(0.5) ? (int)g.range(1024, 65535) : (int)g.range(1, 1023);
		s->laddr = re[k]; s->lport = port;
		lst_arg = dflt && g.chance(0.7) ? ad[k] : fmt("%s:%d", ad[k], port);
		if (fail == 12) lst_arg = fmt("nowhere.example.com:%d", port);
		if (fail == 23) lst_arg = fmt("nsca.example.com:%d", port);
		c.bind = lst_arg;
		if (dflt && k == 0 && fail != 12 && fail != 23 && g.chance(0.5)) c.bind.clear();
	}
	SrvCfg shown = c; // what is in the configuration file: options override it
	if (!c.activated && !c.bind.empty() && g.chance(0.3)) { c.args.push_back("-b"); c.args.push_back(c.bind); shown.bind = g.chance(0.5) ? "" : "10.0.0.3:4711"; }
	if (!c.pid.empty() && g.chance(0.3)) { c.args.push_back("-P"); c.args.push_back(c.pid); shown.pid = g.chance(0.5) ? "" : "/var/run/other.pid"; }
	if (g.chance(0.3)) { c.args.push_back("-C"); c.args.push_back(c.fifo); shown.fifo = g.chance(0.5) ? "/var/other.cmd" : "/nowhere/x.cmd"; }
	if (g.chance(0.2)) { c.args.push_back("-l"); c.args.push_back("3"); shown.log_level = g.chance(0.5) ? 0 : 4; }
	if (c.daemonize == false && g.chance(0.2)) c.args.push_back(g.chance(0.5) ? "-S" : "-s");
	switch (fail) {
	case 16: c.args.push_back("-x"); break;
	case 20: c.args.push_back("extra"); break;
	case 21: c.args.push_back("-S"); break;
	}
	SrvCfg run = c; if (run.bind.empty()) run.bind = "*:5668";
	rand_sched(g);
	// another server, in front of it: it must not be disturbed
	bool other = fail == 10 || fail == 11 || g.chance(0.3);
	Node *on = nullptr;
	run.sync = c.sync;
	Env *e = new Env; e->c = run; s->e = e; e->must_live = false;
	world_fs(e->c); ledger_init(e->c);
	double t0 = W->now; e->t0 = t0; e->T1 = t0 + 20; e->T2 = t0 + 45; W->end_time = e->T2;
	Rng gr(g.u64()); e->rd = make_reader(e->c, 0, gr);
	auto pid_i = [c] { return c.pid.empty() ? nullptr : fs_get(c.pid); };
	SrvCfg oc = base_cfg(g, 1); oc.timeout = 0; oc.path = "/etc/other.cfg"; oc.tmp = "/var/othertmp"; fs_mk(oc.tmp, Inode::DIR, "", 0777); oc.fifo = c.fifo; oc.pid = fail == 10 ? c.pid : ""; oc.bind = fail == 11 ? fmt("*:%d", port) : "*:4000";
	if (other) { write_cfg(oc); on = make_server("server1", oc); }
	double ts = t0 + 0.5 + g.real(0, 1);
	// a PID file left behind
	if (!c.pid.empty() && fail != 9 && fail != 10 && g.chance(0.25)) { fs_mk(c.pid, Inode::REG, "4711", 0600); s->had_pid = true; }
	if (g.chance(0.3)) { W->fp["open.eintr"] = 0.2; W->fp["epoll.eintr"] = 0.1; W->fp["fifo.eintr"] = 0.1; }
	if (g.chance(0.2)) { auto rd = e->rd; if (rd->open) rd->do_close(); ev_at(e->T1, [rd] { if (!rd->open) rd->do_open(); }); probe("start.no_reader"); }
	write_cfg(shown);
	auto cf = fs_get(c.path);
	switch (fail) {
	case 1: fs_rm(c.path); break;
	case 2: cf->data += g.chance(0.5) ? "authorize \"x\" {\n" : "}\n"; break;
	case 3: cf->data += "junk = yes\n"; break;
	case 4: cf->data += g.chance(0.5) ? "authorize \"zz\" {\n\tpassword = \"x\"\n\thosts = \"[a\"\n}\n" : "authorize \"zz\" {\n\tpassword = \"x\"\n\tcommands = \"(\"\n}\n"; break;
	case 5: { SrvCfg x = shown; x.auth.clear(); cf->data = x.text(); break; }
	case 6: cf->data += "authorize \"zz\" {\n\tcommands = \".+\"\n}\n"; break;
	case 7: fs_rm(c.tmp); break;
	case 8: fs_get(c.tmp)->mode = 0; break;
	case 9: { Str d = c.pid; if (g.chance(0.5)) { Str nd = "/no/such/nsca-ng.pid"; for (auto &a : c.args) if (a == c.pid) a = nd; size_t p; while ((p = cf->data.find(d)) != Str::npos) cf->data.replace(p, d.size(), nd); c.pid = nd; } else { auto i = fs_get(d.substr(0, d.rfind('/'))); std::vector<Str> v; for (auto &x : W->fs) if (x.first.compare(0, 8, "/var/run") == 0) v.push_back(x.first); for (auto &x : v) fs_rm(x); } break; }
	case 13: cf->data += "tls_ciphers = \"NO-SUCH-CIPHER\"\n"; break;
	case 17: cf->data += g.chance(0.5) ? "timeout = -1.5\n" : "max_command_size = -5\n"; break;
	}
	if (fail == 13) { size_t p = cf->data.find("tls_ciphers"); if (p != cf->data.rfind("tls_ciphers")) cf->data.erase(p, cf->data.find('\n', p) + 1 - p); }
	c.bind = run.bind;
	Node *n = make_server("server0", [&] { SrvCfg x = c; return x; }(), ts);
	s->n = n; e->srv = n;
	if (fail == 19) { n->env["LISTEN_FDS"] = "2"; n->fds[4] = of_new(OFile::NUL); }
	ev_at(ts - 1e-6, [fail, s, pid_i] {
		auto i = pid_i(); s->pid_before = i ? i->data : "";
		if (fail == 14) W->fp["daemon.fail"] = 1;
		if (fail == 15) W->fp[W->seed & 1 ? "pwrite.err" : "ftruncate.err"] = 1;
		if (fail == 18) W->fp["socket.emfile"] = 1;
		if (fail == 22) W->fp["open.pid"] = 1;
		if (fail == 23) W->fp["dns.fail"] = 1;
	});
	// whoever sees the starter return can use the service
	W->on_daemon = [s, e](Node *k) {
		if (k != s->n) return;
		s->detached = true; s->t = W->now; Str a; int p;
		if (!lst(k, &a, &p)) { violate("P27", "the server detached although it did not listen yet"); s->detached_ok = false; }
	};
	std::shared_ptr<Session> first, late, other_s;
	auto sess = [](const Str &nm, Env *e, const SrvCfg &c, Rng &g, int k) { auto x = new_session(nm, c, c.auth[0].id, c.auth[0].pw); x->must_succeed = false; x->think_hi = 0.01; x->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0}); for (int i = 0; i < k; i++) add_push(x, g, mk_cmd(g, 120), true); x->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0}); (void)e; return x; };
	Rng h;
	if (op(g, h, "a client connects as soon as the server is there")) { first = sess("first", e, e->c, h, 3); first->port = port; }
	if (op(g, h, "a client connects later")) { late = sess("late", e, e->c, h, 3); late->port = port; late->start(ts + 8); }
	auto owned = std::make_shared<SrvCfg>(oc);
	if (on && op(g, h, "a client of the other server")) { other_s = sess("other", e, *owned, h, 3); other_s->port = fail == 11 ? port : 4000; other_s->start(ts + 5); }
	auto begun = std::make_shared<bool>(false);
	W->monitor = [s, begun, first, n] {
		if (!*begun) {
			bool up = s->detached; for (auto &x : n->notifications) if (x == "READY=1") up = true;
			if (up) { *begun = true; if (first) first->start(W->now); }
		}
		bool r = false; for (auto &x : n->notifications) if (x == "READY=1") r = true;
		if (r && !s->ready) { s->ready = true; Str a; int p = 0; if (!lst(n, &a, &p)) violate("P27", "the server announced readiness although it does not listen"); else if (!s->e->c.activated && (a != s->laddr || p != s->lport)) violate("P27", "the server listens on %s port %d, configured is %s port %d", a.c_str(), p, s->laddr.c_str(), s->lport); }
	};
	ev_at(e->T1 + 16, [s, n] { s->served = s->ready && !n->exited; if (s->served) { note_fault("signal.15", n->name); signal_node(n, SIGTERM); } });
	W->at_end.push_back([=] {
		(void)owned;
		if (other_s && !other_s->finished_ok) violate("P27", "a server that was already running did not serve a client: %s", other_s->fail_reason.c_str());
		if (on && on->exited) violate("P27", "a server that was already running exited when another one was started");
		if (n->signaled) { violate("P27", "the server died from signal %d", n->term_sig); return; }
		auto pi = pid_i();
		int fail = s->fail;
		{ static const std::map<int, std::vector<const char *>> by = {{14, {"daemon.fail"}}, {15, {"pwrite.err", "ftruncate.err"}}, {18, {"socket.emfile"}}, {22, {"open.pid"}}, {23, {"dns.fail"}}}; auto x = by.find(fail); if (x != by.end()) { bool hit = false; for (auto k : x->second) if (W->fcount.count(k)) hit = true; if (!hit) fail = 0; } }
		if (fail) {
			const char *w = WHY[fail];
			if (!n->exited || n->exit_code == 0) violate("P27", "the server %s although %s", n->exited ? "exited with status 0" : "runs", w);
			else if (n->exit_time > ts + 3) violate("P27", "the server took %.3f s to exit although %s", n->exit_time - ts, w);
			if (n->log.empty()) violate("P27", "the server gave no reason for its exit although %s", w);
			if (s->ready) violate("P27", "the server announced readiness although %s", w);
			if (s->detached && fail != 15) violate("P27", "the server detached, telling its starter that it runs, although %s", w);
			for (auto &k : W->conns) if (k->e[1].owner == n) { violate("P27", "the server accepted a connection although %s", w); break; }
			if (pi && fail != 10 && fail != 15 && !s->had_pid) violate("P27", "the server left its PID file behind although %s", w);
			if (pi && fail == 10 && pi->data != s->pid_before) violate("P27", "the server changed the PID file of another server");
			if (!pi && fail == 10) violate("P27", "the server removed the PID file of another server");
			for (auto &x : W->fs) if (x.first.compare(0, c.tmp.size() + 6, c.tmp + "/nsca.") == 0) { violate("P27", "the server left %s although %s", x.first.c_str(), w); break; }
			probe(fmt("start.fail%d", fail));
			return;
		}
		Str ll = n->log.empty() ? "" : n->log.back().text;
		if (!s->served) { violate("P27", "the server %s although nothing was wrong: %s", n->exited ? fmt("exited with status %d", n->exit_code).c_str() : "is not ready", ll.c_str()); return; }
		if (first && !first->finished_ok) violate("P27", "a client that connected as soon as the server was there was not served: %s", first->fail_reason.c_str());
		if (late && !late->finished_ok) violate("P27", "a client was not served: %s", late->fail_reason.c_str());
		if (c.daemonize != s->detached) violate("P27", s->detached ? "the server detached although it should run in the foreground" : "the server did not detach");
		if (!n->exited || n->exit_code) violate("P27", "the server %s after SIGTERM: %s", n->exited ? fmt("exited with status %d", n->exit_code).c_str() : "runs on", ll.c_str());
		else if (pi) violate("P27", "the PID file still exists after the server exited");
		check_delivery("P27");
		probe(c.daemonize ? "start.daemon" : c.activated ? "start.activated" : "start.foreground");
	});
}
static ScenReg r1("startup", startup);
