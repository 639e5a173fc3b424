// Scripted clients submit commands to the server under faults: delivery, order,
// atomic writes, dump files, queue limits and command-file outages.
#include "model.h"
#include <limits.h>
#include <string.h>
#include <strings.h>
#include <algorithm>

// Another local program writing whole lines into the FIFO, and the reader's view of the mixture.
struct Foreign { Env *e; Rng g; int n = 0; };
static void foreign_tick(std::shared_ptr<Foreign> f) {
	if (W->now > f->e->T1) return;
	auto i = fs_get(f->e->c.fifo);
	if (i && i->type == Inode::FIFO && i->readers > 0) {
		Str s = fmt("[%d] FOREIGN;%d;", 1, f->n++) + rand_text(f->g, (size_t)f->g.range(1, f->g.chance(0.1) ? 3000 : 100)) + "\n";
		fifo_write_raw(i, s.data(), s.size(), "other", 4242, true);
	}
	ev_after(f->g.real(0.001, 0.3), [f] { foreign_tick(f); });
}
// Acknowledged commands whose absence a logged, injected dump failure explains:
// those in the data it was about, if that is known, and otherwise those that had been submitted.
static void excuse_data(const Str &d, int depth) {
	size_t a = 0, b; static const Str pf = "PROCESS_FILE;";
	for (; (b = d.find('\n', a)) != Str::npos; a = b + 1) {
		Str k = strip_ts(d.substr(a, b - a + 1));
		auto it = L->by_key.find(k);
		if (it != L->by_key.end()) it->second->excused = true;
		else if (k.compare(0, pf.size(), pf) == 0 && depth < 20) { auto i = fs_get(k.substr(pf.size(), k.rfind(';') - pf.size())); if (i) excuse_data(i->data, depth + 1); }
	}
}
static void excuse_dump_failures() {
	for (auto &f : W->dump_fails) {
		if (f.known) excuse_data(f.data, 0);
		else for (auto &c : L->v) if (c->t_ack >= 0 && !c->delivered && c->t_first <= f.t + 1e-9) c->excused = true;
	}
}
static void sessions(Env *e, Rng &g, int ns, int maxn, size_t mx, double span, double disturb_p) {
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, span);
		int n = (int)g.range(1, maxn);
		size_t m = g.chance(0.25) ? mx : std::min(mx, (size_t)300);
		bool dist = g.chance(disturb_p);
		Rng h, hd(g.u64());
		if (!op(g, h, fmt("session s%d starts at %.3f: %d commands of up to %zu bytes", i, at, n, m))) continue;
		auto s = simple_session(fmt("s%d", i), e->c, h, at, n, m);
		if (dist) disturb_session(e, hd, s);
	}
}

// ---------------------------------------------------------------- traffic
static void traffic(Rng &g) {
	SrvCfg c = base_cfg(g, (int)g.range(1, 4));
	c.timeout = g.chance(0.3) ? 0 : 60; c.sync = g.chance(0.15);
	if (g.chance(0.2)) c.max_queue = 0;
	Env *e = env_begin(g, c, 25, 60, g.chance(0.3) ? 0 : g.chance(0.5) ? 1 : 2);
	reader_script(e, g, (int)g.range(0, 1));
	if (g.chance(0.3)) { auto f = std::make_shared<Foreign>(); f->e = e; f->g = Rng(g.u64()); Rng h; if (op(g, h, "another local program writes to the FIFO")) ev_at(e->t0 + 0.5, [f] { foreign_tick(f); }); }
	sessions(e, g, (int)g.range(1, 8), 10, g.chance(0.5) ? 9000 : 1500, g.chance(0.5) ? 0.2 : 6, 0.2);
	Rng h;
	double at = e->t0 + g.real(0.3, 8), d = g.real(0.1, 6);
	if (g.chance(0.25) && op(g, h, fmt("the server is stalled at %.3f for %.3f s", at, d))) { Node *s = e->srv; ev_at(at, [s, d] { stall_node(s, d); }); }
	W->at_end.push_back([e] {
		if (e->srv->exited) return;
		expect_sessions_done("P10"); expect_sessions_done("P01"); check_delivery("P01"); check_order();
		size_t u = 0; for (auto &x : L->v) if (x->delivered) u++;
		if (u && L->n_process_file) probe("traffic.with_dump");
	});
}
static ScenReg r1("traffic", traffic);

// ---------------------------------------------------------------- order: many small commands, one or many clients
static void order(Rng &g) {
	SrvCfg c = base_cfg(g, 3); c.timeout = 60; c.sync = g.chance(0.1);
	Env *e = env_begin(g, c, 25, 50, g.chance(0.4) ? 0 : 1);
	reader_script(e, g, g.chance(0.5) ? 1 : 0);
	sessions(e, g, (int)g.range(1, 10), 25, 120, g.chance(0.6) ? 0.1 : 5, 0.1);
	W->at_end.push_back([e] { if (e->srv->exited) return; check_delivery("P01"); check_order(); });
}
static ScenReg r2("order", order);

// ---------------------------------------------------------------- atomic: sizes around the pipe limit, back-pressure
static void atomic_(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 60; c.sync = g.chance(0.2);
	Env *e = env_begin(g, c, 20, 60, g.chance(0.4) ? 0 : 1);
	reader_script(e, g, 1);
	if (g.chance(0.5)) { auto f = std::make_shared<Foreign>(); f->e = e; f->g = Rng(g.u64()); Rng h; if (op(g, h, "another local program writes to the FIFO")) ev_at(e->t0 + 0.5, [f] { foreign_tick(f); }); }
	int ns = (int)g.range(1, 5);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, 2); Rng h;
		std::vector<size_t> sz; int n = (int)g.range(1, 8);
		for (int k = 0; k < n; k++) switch (g.range(0, 4)) {
			case 0: sz.push_back((size_t)PIPE_BUF + (size_t)g.range(-3, 3)); break;
			case 1: sz.push_back((size_t)PIPE_BUF / 2 + (size_t)g.range(-3, 3)); break;
			case 2: sz.push_back((size_t)g.range(60, 200)); break;
			case 3: sz.push_back((size_t)g.range(1000, 4200)); break;
			default: sz.push_back((size_t)g.range(4090, 12300)); break;
		}
		if (!op(g, h, fmt("session s%d at %.3f with %d commands around the pipe size", i, at, n))) continue;
		auto s = new_session(fmt("s%d", i), e->c, e->c.auth[0].id, e->c.auth[0].pw);
		rand_peer(h, *s->p); s->p->rec_max = std::max(s->p->rec_max, (size_t)200); s->p->np.mss_max = std::max(s->p->np.mss_max, 400);
		s->think_hi = 0.002;
		s->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
		for (size_t z : sz) add_push(s, h, mk_cmd(h, z), true);
		s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		s->start(at);
	}
	W->at_end.push_back([e] { if (e->srv->exited) return; expect_sessions_done("P10"); expect_sessions_done("P01"); check_delivery("P01"); check_order(); });
}
static ScenReg r3("atomic", atomic_);

// ---------------------------------------------------------------- dump: dump files, with failures of every step
static void dump(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 60; c.sync = g.chance(0.4);
	c.tmp = g.chance(0.5) ? "/tmp" : "/var/spool/nsca-ng";
	Env *e = env_begin(g, c, 30, 60, g.chance(0.5) ? 0 : 1);
	static const char *k[] = {"mkstemp.err", "close.err", "aio.submit", "aio.err", "aio.short", "dump.enospc"};
	if (g.chance(0.75)) for (auto f : k) if (g.chance(0.35)) W->fp[f] = g.chance(0.5) ? 0.15 : 0.5;
	if (g.chance(0.5)) { W->fp["aio.slow"] = 0.3; }
	if (c.sync) { W->fp["dump.short"] = 0.4; W->fp["dump.eintr"] = 0.2; }
	reader_script(e, g, 1);
	sessions(e, g, (int)g.range(2, 6), 8, 9000, g.chance(0.5) ? 0.2 : 5, 0.15);
	W->at_end.push_back([e] {
		if (e->srv->exited) return;
		size_t nf = W->dump_fails.size();
		// every injected failure is reported
		size_t errs = 0; for (auto &l : e->srv->log) if (l.text.find("[ERROR]") != Str::npos) errs++;
		if (nf > errs) violate("P12", "%zu dump-file operations failed, but only %zu errors were logged", nf, errs);
		if (nf) probe("dump.failures");
		for (auto &p : L->named) if (W->failed_dumps.count(p)) violate("P12", "PROCESS_FILE named %s, whose creation failed", p.c_str());
		excuse_dump_failures();
		expect_sessions_done("P12"); expect_sessions_done("P01"); check_delivery("P12"); check_delivery("P01");
		check_order();
		// the server goes on: no descriptor of a dump file stays open
		for (auto &fd : e->srv->fds) if (fd.second->type == OFile::REG && fd.second->ino && fd.second->ino->path.compare(0, e->c.tmp.size() + 6, e->c.tmp + "/nsca.") == 0) { violate("P11", "descriptor %d of dump file %s stays open", fd.first, fd.second->ino->path.c_str()); break; }
	});
}
static ScenReg r4("dump", dump);

// ---------------------------------------------------------------- aiorace: a slow disk, a full FIFO, and commands arriving all the while
static void aiorace(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 60; c.sync = g.chance(0.15);
	Env *e = env_begin(g, c, 25, 60, g.chance(0.6) ? 0 : 1);
	auto fifo = fs_get(c.fifo);
	if (fifo && g.chance(0.8)) fifo->cap = (size_t)(g.chance(0.5) ? 4096 : 8192);
	W->fp["aio.slow"] = g.chance(0.5) ? 0.9 : 0.4;
	if (g.chance(0.5)) W->fp[g.chance(0.6) ? "aio.err" : g.chance(0.5) ? "close.err" : "aio.short"] = g.chance(0.5) ? 0.6 : 0.25;
	auto rd = e->rd; double t = e->t0 + g.real(0.2, 1);
	for (int k = (int)g.range(2, 8); k > 0; k--) {
		double dur = g.chance(0.5) ? g.real(0.05, 0.6) : g.real(0.5, 4), at = t; Rng h;
		t += dur + (g.chance(0.6) ? g.real(0.01, 0.4) : g.real(0.3, 2));
		if (op(g, h, fmt("the reader pauses at %.3f for %.3f s", at, dur))) ev_at(at, [rd, dur] { rd->paused = true; note_fault("reader.pause", "reader"); ev_after(dur, [rd] { rd->paused = false; }); });
	}
	int ns = (int)g.range(2, 6);
	for (int i = 0; i < ns; i++) {
		double at = e->t0 + 0.2 + g.real(0, 3); Rng h;
		std::vector<size_t> sz; int n = (int)g.range(3, 20);
		for (int k = 0; k < n; k++) sz.push_back(g.chance(0.08) ? (size_t)g.range(4090, 9000) : g.chance(0.3) ? (size_t)g.range(600, 3000) : (size_t)g.range(60, 500));
		double think = g.chance(0.5) ? 0.02 : g.real(0.02, 0.6);
		if (!op(g, h, fmt("session s%d at %.3f with %d commands", i, at, n))) continue;
		auto s = new_session(fmt("s%d", i), e->c, e->c.auth[0].id, e->c.auth[0].pw);
		rand_peer(h, *s->p); s->p->rec_max = std::max(s->p->rec_max, (size_t)200); s->p->np.mss_max = std::max(s->p->np.mss_max, 400);
		s->think_hi = think;
		s->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
		for (size_t z : sz) add_push(s, h, mk_cmd(h, z), true);
		s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		s->start(at);
	}
	W->at_end.push_back([e] {
		if (e->srv->exited) return;
		size_t nf = W->dump_fails.size(), errs = 0; for (auto &l : e->srv->log) if (l.text.find("[ERROR]") != Str::npos) errs++;
		if (nf > errs) violate("P12", "%zu dump-file operations failed, but only %zu errors were logged", nf, errs);
		excuse_dump_failures();
		expect_sessions_done("P10"); expect_sessions_done("P01"); check_delivery("P12"); check_delivery("P01"); check_order();
	});
}
static ScenReg r7("aiorace", aiorace);

// ---------------------------------------------------------------- outage: everything that can be wrong with the command file
static void outage(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 0; c.sync = g.chance(0.15);
	if (g.chance(0.3)) c.max_queue = 0;
	bool start_bad = g.chance(0.4);
	Env *e = env_begin(g, c, 60, 60, g.chance(0.5) ? 0 : 1, !start_bad);
	if (g.chance(0.4)) { W->fp["open.err"] = 0.3; W->fp["fstat.err"] = 0.2; W->fp["fifo.eio"] = 0.05; }
	// at start
	if (start_bad) {
		int k = (int)g.range(0, 4);
		fs_rm(c.fifo);
		if (k == 1) fs_mk(c.fifo, Inode::REG, "precious\n", 0600);
		else if (k == 2) fs_mk(c.fifo, Inode::DIR, "", 0755);
		else if (k >= 3) fs_mk(c.fifo, Inode::FIFO, "", 0660);
	}
	bool small_pipe = g.chance(0.4); if (auto i = fs_get(c.fifo)) if (small_pipe && i->type == Inode::FIFO) i->cap = 4096;
	auto good = std::make_shared<double>(start_bad ? 1e18 : e->t0); // since when a FIFO with a reader has been there
	int n = (int)g.range(1, 4);
	for (int i = 0; i < n; i++) {
		double at = e->t0 + g.real(0.1, 40), dur = g.chance(0.4) ? g.real(0.01, 2) : g.real(2, 15);
		int k = (int)g.range(0, 6); Rng h;
		static const char *nm[] = {"the reader closes the FIFO", "the FIFO is removed", "a regular file replaces the FIFO", "the FIFO is recreated", "the reader restarts at once", "the reader stops reading", "the reader hangs and dies"};
		if (!op(g, h, fmt("%s at %.3f for %.3f s", nm[k], at, dur))) continue;
		auto rd = e->rd; Str path = c.fifo;
		if (k >= 5 && h.chance(0.7)) { Rng h2; if (op(g, h2, fmt("a session fills the pipe from %.3f", at))) { auto s = simple_session(fmt("fill%d", i), e->c, h2, at + 0.001, (int)h2.range(20, 50), 200); s->think_hi = 0.002; } } // fills the pipe
		ev_at(at, [=] {
			note_fault(fmt("outage.%d", k), "fifo");
			*good = 1e18;
			switch (k) {
			case 0: rd->do_close(); break;
			case 1: rd->do_close(); fs_rm(path); break;
			case 2: rd->do_close(); fs_rm(path); fs_mk(path, Inode::REG, "precious\n", 0600); break;
			case 3: rd->do_close(); fs_rm(path); fs_mk(path, Inode::FIFO, "", 0660); break;
			case 4: rd->do_close(); rd->do_open(); break;
			case 5: rd->paused = true; break;
			case 6: rd->paused = true; ev_after(dur * 0.6, [rd] { rd->paused = false; rd->do_close(); }); break;
			}
			ev_after(dur, [=] {
				if (k == 5) { rd->paused = false; *good = W->now; return; }
				auto f = fs_get(path);
				if (!f || f->type != Inode::FIFO) { if (f) fs_rm(path); f = fs_mk(path, Inode::FIFO, "", 0660); if (small_pipe) f->cap = 4096; }
				if (rd->open && rd->ino != fs_get(path)) rd->do_close();
				rd->do_open(); *good = W->now;
			});
		});
	}
	sessions(e, g, (int)g.range(2, 7), 5, g.chance(0.5) ? 5000 : 300, 45, 0.1);
	double T1 = e->T1;
	// a further session after recovery
	Rng h(g.u64()); simple_session("late", e->c, h, T1 + 20, 3, 300);
	auto served = std::make_shared<bool>(false);
	W->at_end.push_back([e, T1] {
		if (e->srv->exited) return;
		auto f = fs_get(e->c.fifo);
		expect_sessions_done("P14"); expect_sessions_done("P01"); check_delivery("P14"); check_delivery("P01"); check_order();
		for (auto &b : W->bad_writes) violate("P14", "%s", b.c_str());
		if (W->non_fifo_written) violate("P14", "the server wrote command data to something that is not a FIFO");
		for (auto &x : L->v) if (x->t_ack >= 0 && x->t_ack < T1 && x->delivered && x->t_del > T1 + 12.5) { violate("P14", "a command acknowledged at %.3f was delivered only at %.3f, %.1f s after the command file was available again", x->t_ack, x->t_del, x->t_del - T1); break; }
		for (auto &x : L->v) if (x->t_ack >= T1 + 15 && (!x->delivered || x->t_del > x->t_ack + 12.5)) { violate("P14", "command acknowledged at %.3f, after recovery, not delivered promptly (%.3f)", x->t_ack, x->t_del); break; }
	});
}
static ScenReg r5("outage", outage);

// ---------------------------------------------------------------- overflow: the queue limit
static void overflow(Rng &g) {
	SrvCfg c = base_cfg(g, 2); c.timeout = 0; c.sync = false;
	long mb = 1; bool unlimited = g.chance(0.25);
	c.max_queue = unlimited ? 0 : mb; c.max_cmd = g.chance(0.5) ? -1 : 0;
	double down = 60;
	// Either nobody reads the command file, or the disk takes its time to write the first dump file.
	bool slow = g.chance(0.35);
	Env *e = env_begin(g, c, down, 60, g.chance(0.6) ? 0 : 0.5, slow);
	if (slow) { W->aio_min = 65; W->aio_max = 66; note_fault("disk.slow", "dump"); ev_at(e->T1, [] { W->aio_min = 0.0001; W->aio_max = 0.005; }); }
	W->fp.erase("sock.short_read");
	W->net = NetProfile{0.0002, 0.0002, 1460, 1460, 65536};
	W->preempt_p = std::min(W->preempt_p, 0.05);
	size_t big = g.chance(0.5) ? 16000 : (size_t)g.range(3000, 16384);
	size_t limit = (size_t)mb << 20;
	// total: below, just around, or beyond the limit
	int mode = (int)g.range(0, 3);
	size_t total = mode == 0 ? limit * 8 / 10 : mode == 1 ? limit + (size_t)g.range(-40000, 40000) : mode == 2 ? limit * 13 / 10 : limit * 22 / 10;
	int ns = (int)g.range(1, 3);
	auto acc = std::make_shared<std::vector<Cmd *>>();
	size_t made = 0; std::vector<SessP> ss;
	for (int i = 0; i < ns; i++) {
		auto s = new_session(fmt("s%d", i), e->c, e->c.auth[0].id, e->c.auth[0].pw);
		s->think_hi = 0.0001; s->p->np = W->net;
		s->script.push_back({RQ_LINE, "MOIN 1 x", nullptr, "", 0});
		ss.push_back(s);
	}
	size_t k = 0;
	Rng hb(g.u64());
	while (made < total) { Rng h; size_t z = slow && k < (size_t)ns ? (size_t)hb.range(5000, 16000) : hb.chance(0.2) ? (size_t)hb.range(60, 500) : (size_t)hb.range((int64_t)big * 3 / 4, (int64_t)big); made += z; if (op(g, h, fmt("command of %zu bytes on s%zu", z, k % ss.size()))) add_push(ss[k % ss.size()], h, mk_cmd(h, z), true); k++; }
	for (auto &s : ss) { s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0}); s->start(e->t0 + 0.5); }
	// some more after the outage
	Rng h(g.u64()); simple_session("late", e->c, h, e->T1 + 20, 4, 300);
	double T1 = e->T1;
	W->at_end.push_back([e, T1, limit, unlimited, slow] {
		if (e->srv->exited) return;
		if (slow) probe("overflow.slow_disk");
		for (size_t i = 0, k = W->viols.size(); i < k; i++) if (W->viols[i].prop == "P01" || W->viols[i].prop == "P02" || W->viols[i].prop == "P03") { Violation v = W->viols[i]; violate("P13", "%s", v.msg.c_str()); break; }
		expect_sessions_done("P13");
		for (auto &x : L->v) if (x->t_ack >= T1 + 20 && !x->delivered) { violate("P13", "a command queued after the overflow was not delivered"); break; }
		for (auto &x : L->v) if (x->t_ack >= T1 && x->t_ack < T1 + 20) { probe("overflow.spans_recovery"); return; } // slow clients: the queue was emptied meanwhile
		size_t logged = 0; for (auto &l : e->srv->log) if (strcasestr(l.text.c_str(), "throwing data away")) logged++;
		std::vector<Cmd *> q; size_t bytes = 0, kept = 0;
		for (auto &x : L->v) if (x->t_ack >= 0 && x->t_ack < T1 && !(slow && x->delivered && x->t_del < T1)) q.push_back(x.get()); // while a dump file is written, small commands may go straight to the FIFO
		// acceptance order is the order of the acknowledgements up to commands in flight together
		std::sort(q.begin(), q.end(), [](Cmd *a, Cmd *b) { return a->t_ack < b->t_ack; });
		size_t lost = 0;
		for (auto x : q) { size_t z = x->text.size(); bytes += z; if (x->delivered) kept += z; else lost++; }
		if (unlimited && lost) violate("P13", "%zu of %zu commands dropped although the queue is unlimited", lost, q.size());
		if (lost && !logged) violate("P13", "%zu of %zu queued commands (%zu bytes) dropped without a log message about it", lost, q.size(), bytes);
		if (!unlimited && lost && bytes < limit * 98 / 100) violate("P13", "%zu commands dropped although only %zu bytes were queued (limit %zu)", lost, bytes, limit);
		if (logged && bytes < limit * 98 / 100) violate("P13", "overflow reported although only %zu bytes were queued (limit %zu)", bytes, limit);
		if (!unlimited && kept > limit + (slow ? 3 : 2) * 16384 + limit / 50) violate("P13", "%zu bytes of commands were kept in the queue, beyond the limit of %zu", kept, limit);
		if (!unlimited && bytes > limit + (slow ? 4 : 3) * 16384 && !lost) violate("P13", "%zu bytes of commands queued, nothing dropped (limit %zu)", bytes, limit);
		if (lost) {
			probe("overflow");
			// What is dropped is older than what is kept (apart from the first command, already taken out for writing).
			size_t first_kept = 0, seen = 0; double last_lost = -1;
			for (auto x : q) if (!x->delivered) last_lost = std::max(last_lost, x->t_first);
			for (size_t i = slow ? 3 : 1; i < q.size(); i++) if (q[i]->delivered && q[i]->t_ack < last_lost) { if (!seen++) first_kept = i; }
			if (seen > 1) violate("P13", "command %zu of %zu was kept although a newer one was dropped", first_kept, q.size());
			bool newer = false; for (auto x : q) if (x->delivered && x->t_ack >= last_lost) newer = true; // commands in flight together may be accepted in any order
			// With a slow disk, the command in excess may be the PROCESS_FILE command for the first dump file.
			for (auto &l : e->srv->log) if (slow && strcasestr(l.text.c_str(), "throwing data away") && l.t > q.back()->t_ack) { newer = true; probe("overflow.by_process_file"); }
			if (!newer) violate("P13", "the newest command was dropped");
		}
	});
}
static ScenReg r6("overflow", overflow);
