// send_nsca against scripted servers and against the real one.
#include "fake.h"
#include <math.h>
#include <string.h>
#include <algorithm>

// ---------------------------------------------------------------- reference translation of the input
struct Rec { bool bad = false, ts = false; Str cmd; }; // cmd without the timestamp the client adds, with the newline
static std::vector<Rec> translate(const Str &in, bool raw, char delim, char sep) {
	std::vector<Rec> out;
	size_t a = 0;
	while (a < in.size()) {
		size_t b = in.find(sep, a);
		Str d = in.substr(a, b == Str::npos ? Str::npos : b - a);
		a = b == Str::npos ? in.size() : b + 1;
		size_t k = 0; while (k < d.size() && (d[k] == '\r' || d[k] == '\n')) k++;
		d = d.substr(k);
		if (d.empty()) continue;
		Rec r;
		if (raw) {
			size_t i = 0; while (i < d.size() && (d[i] == ' ' || d[i] == '\t')) i++;
			d = d.substr(i);
			r.ts = !d.empty() && d[0] == '[';
			r.cmd = d + "\n";
		} else {
			if (d.back() == '\n') d.pop_back();
			Str e;
			for (char c : d) { if (c == '\\') e += "\\\\"; else if (c == '\n') e += "\\n"; else e += c; }
			std::vector<Str> f; size_t p = 0;
			while (f.size() < 3) { size_t q = e.find(delim, p); if (q == Str::npos) break; f.push_back(e.substr(p, q - p)); p = q + 1; }
			f.push_back(e.substr(p));
			if (f.size() == 3) r.cmd = "PROCESS_HOST_CHECK_RESULT;" + f[0] + ";" + f[1] + ";" + f[2] + "\n";
			else if (f.size() == 4) r.cmd = "PROCESS_SERVICE_CHECK_RESULT;" + f[0] + ";" + f[1] + ";" + f[2] + ";" + f[3] + "\n";
			else r.bad = true;
		}
		out.push_back(r);
		if (r.bad) break;
	}
	return out;
}

// ---------------------------------------------------------------- input generator
struct Job { bool raw = false; char delim = '\t', sep = '\027'; Str input; std::vector<Rec> ref; std::vector<Str> args; };
static Str field(Rng &g, size_t lo, size_t hi, const Job &j, bool last) {
	size_t n = (size_t)g.range((int64_t)lo, (int64_t)hi);
	Str r;
	for (size_t i = 0; i < n; i++) {
		static const char *al = "abcdefghijklmnopqrstuvwxyz0123456789 .,:=/()%_-";
		char c = al[g.u64() % 47];
		if (!j.raw && g.chance(0.06)) c = last ? "\\\n;|[\t\r"[g.range(0, 6)] : "\\\n|"[g.range(0, 2)];
		if (g.chance(0.02)) c = (char)g.range(128, 255);
		if (c == j.sep || (c == j.delim && !last) || (j.raw && c == '\n')) c = '_';
		r += c;
	}
	return r;
}
static Job make_job(Rng &g, int nmax, bool allow_bad, bool uniq_only = false) {
	Job j;
	j.raw = g.chance(0.4);
	if (!j.raw) {
		if (g.chance(0.4)) {
			static const char *ds[] = {"\t", ",", ";", "|", " ", "\\t", "0x3b", "\\x7c", "044", "a", "\\v"};
			static const char dc[] = {'\t', ',', ';', '|', ' ', '\t', ';', '|', '$', 'a', '\v'};
			int i = (int)g.range(0, 10); j.delim = dc[i]; j.args.push_back("-d"); j.args.push_back(ds[i]);
		}
		if (g.chance(0.4)) {
			static const char *ss[] = {"\\n", "\x17", "0x1e", "~", "\\027", "012"};
			static const char sc[] = {'\n', 0x17, 0x1e, '~', 027, '\n'};
			int i = (int)g.range(0, 5); j.sep = sc[i]; j.args.push_back("-e"); j.args.push_back(ss[i]);
		}
	} else { j.args.push_back("-C"); j.sep = '\n'; }
	int n = (int)g.range(0, g.chance(0.3) ? 3 : nmax);
	int bad = allow_bad && !j.raw && n > 0 && g.chance(0.25) ? (int)g.range(0, n - 1) : -1;
	size_t big = g.chance(0.25) ? (size_t)g.range(200, 6000) : 120;
	auto blanks = [&] { if (g.chance(0.15)) { int k = (int)g.range(1, 3); for (int i = 0; i < k; i++) { j.input += g.chance(0.25) ? "\r" : g.chance(0.5) && j.sep != '\n' ? "\n" : ""; j.input += j.sep; } } };
	for (int i = 0; i < n; i++) {
		blanks();
		bool last = i == n - 1;
		Str r, u = uniq();
		if (j.raw) {
			if (g.chance(0.2)) r += g.chance(0.5) ? " " : "\t ";
			if (g.chance(0.3)) r += g.chance(0.2) ? fmt("[0%d] ", (int)g.range(0, 99)) : fmt("[%lu] ", (unsigned long)(W->wall_off + W->now) - (unsigned long)g.range(0, 1000));
			r += g.chance(0.5) ? "PROCESS_HOST_CHECK_RESULT;host1;0;" : "ENABLE_HOST_NOTIFICATIONS;";
			r += u + field(g, 0, big, j, true);
			if (g.chance(0.06) && !uniq_only) r = fmt("%c", (char)g.range('A', 'Z')); // as short as can be
		} else {
			if (j.sep != '\n' && g.chance(0.4)) r += g.chance(0.7) ? "\n" : "\r\n";
			Str d(1, j.delim);
			if (i == bad) { r += g.chance(0.3) ? Str("x") : "x" + u; if (g.chance(0.5)) { r += d; r += "y"; } }
			else {
				r += "host1";
				if (g.chance(0.6)) r += d + "svc1";
				r += d + "0" + d + u + field(g, 0, big, j, true);
			}
			if (j.sep != '\n' && g.chance(0.5)) r += "\n";
		}
		j.input += r;
		if (!last || g.chance(0.7)) j.input += j.sep;
	}
	if (n > 0 && j.input.size() && j.input.back() == j.sep) blanks();
	j.ref = translate(j.input, j.raw, j.delim, j.sep);
	return j;
}

static void respond(FakeP f, const Str &line) {
	auto p = f->p.get();
	bool data_ack = f->resp >= 2 && f->resp % 2 == 0 && !f->quit;
	if (f->kind >= M_FAIL && f->kind <= M_PART_FIN && f->resp == f->at) { misbehave(f, line + "\r\n"); f->resp++; return; }
	if (f->mis && !f->cont) return;
	if (data_ack) f->acked++;
	if (f->quit) f->quit_ok = true;
	Str d = line + (f->g.chance(0.9) ? "\r\n" : "\n");
	f->resp++;
	double dt = f->kind == M_SLOW ? f->g.real(0.2, 0.75) * (f->timeout > 0 ? f->timeout : 100) : f->g.chance(0.5) ? 0 : f->g.real(0, 0.05);
	if (f->kind == M_DRIP) p->rec_max = 1, p->rec_gap = 0.05;
	bool q = f->quit;
	auto go = [f, p, d, q] {
		if (p->dead()) return;
		p->send(d);
		if (!q) return;
		if (f->kind == M_END_STALL) { f->mis = true; f->t_mis = W->now; p->auto_close_reply = false; ev_after(0.001, [p] { p->muted = true; }); }
		else if (f->kind == M_END_FIN) { f->mis = true; f->t_mis = W->now; p->auto_close_reply = false; ev_after(0.005, [p] { p->close_tcp(); }); }
		else if (f->kind == M_END_RST) { f->mis = true; f->t_mis = W->now; p->auto_close_reply = false; ev_after(0.005, [p] { if (!p->dead()) p->reset(); }); }
	};
	if (dt <= 0) go(); else ev_after(dt, go);
}
static void consume(FakeP f) {
	auto p = f->p.get();
	for (;;) {
		if (p->dead() || f->bad_proto) return;
		if (f->need) {
			if (f->mis && f->in.compare(0, 5, "BAIL ") == 0) { f->need = 0; continue; } // it gave up
			if (f->in.size() < f->need) return;
			Str d = f->in.substr(0, f->need); f->in.erase(0, f->need); f->need = 0;
			f->cmds.push_back(d);
			trace("%s: got command %s", f->name.c_str(), quote(d).c_str());
			respond(f, "OKAY");
			if (!f->in.empty() && f->in.compare(0, 5, "BAIL ") && !f->mis) protocol_error(f, "sent more than the command before the response: " + quote(f->in));
			continue;
		}
		size_t e = f->in.find('\n');
		if (e == Str::npos) return;
		Str l = f->in.substr(0, e); f->in.erase(0, e + 1);
		if (l.empty() || l.back() != '\r') protocol_error(f, "request does not end with CR LF: " + quote(l)); else l.pop_back();
		trace("%s: got request %s", f->name.c_str(), quote(l).c_str());
		if (l.compare(0, 5, "BAIL ") == 0) { if (!f->mis) protocol_error(f, "client bailed out: " + quote(l)); continue; }
		if (f->quit) { protocol_error(f, "request after QUIT: " + quote(l)); continue; }
		if (f->hand) {
			char idb[2001]; int n = 0;
			if (l.size() > 1000 || sscanf(l.c_str(), "MOIN 1 %2000s%n", idb, &n) != 1 || (size_t)n != l.size()) { protocol_error(f, "unexpected first request " + quote(l)); continue; }
			f->hand = false; f->cid = idb;
			respond(f, "MOIN 1");
		} else if (l == "QUIT") { f->quit = true; respond(f, "OKAY"); }
		else {
			unsigned long x = 0; int n = 0;
			if (sscanf(l.c_str(), "PUSH %lu%n", &x, &n) != 1 || (size_t)n != l.size() || x == 0 || !isdigit((unsigned char)l[5])) { protocol_error(f, "unexpected request " + quote(l)); continue; }
			bool m = f->kind >= M_FAIL && f->kind <= M_PART_FIN && f->resp == f->at;
			respond(f, "OKAY");
			if ((!m && !f->mis) || f->cont) f->need = x;
			else if (!f->in.empty() && f->in.compare(0, 5, "BAIL ")) protocol_error(f, "sent data before the response: " + quote(f->in));
		}
	}
}
static void fake_listen(FakeP f, int tls) {
	W->actor_listen[f->port] = [f, tls](TcpConn *c) {
		f->nconn++;
		if (f->nconn > 1) { protocol_error(f, "connected again"); return; }
		fake_begin(f, c, tls, [f](const Str &s) { f->in += s; consume(f); });
	};
}

// ---------------------------------------------------------------- one client against a scripted server
struct Run { CliRun c; Job j; FakeP f; double start = 0, wall0 = 0, max_delay = 0; bool verbose = false; double last_in = 0; Str what; int expect = 0; };
typedef std::shared_ptr<Run> RunP;
static bool ts_ok(const Str &d, Str &rest, double lo, double hi) {
	bool had; rest = strip_ts(d, &had);
	if (!had) return false;
	double t = strtod(d.c_str() + 1, nullptr);
	return t >= lo - 1 && t <= hi + 1;
}
static void judge(RunP r) {
	Node *n = r->c.n; FakeP f = r->f; auto &ref = r->j.ref;
	const char *nm = n->name.c_str();
	bool badrec = !ref.empty() && ref.back().bad;
	size_t good = ref.size() - (badrec ? 1 : 0);
	if (f->bad_proto) violate("P06", "%s (%s): %s", nm, r->what.c_str(), f->why.c_str());
	// what was submitted
	for (size_t i = 0; i < f->cmds.size(); i++) {
		if (i >= good) { violate("P06", "%s submitted something its input does not contain: %s", nm, quote(f->cmds[i]).c_str()); violate("P05", "%s submitted something its input does not contain: %s", nm, quote(f->cmds[i]).c_str()); break; }
		Str got = f->cmds[i], rest; bool ok;
		if (ref[i].ts) ok = got == ref[i].cmd;
		else ok = ts_ok(got, rest, r->wall0, W->wall_off + W->now) && rest == ref[i].cmd;
		if (!ok) { violate("P06", "%s submitted %s for record %zu, expected %s", nm, quote(got, 300).c_str(), i, quote(ref[i].cmd, 300).c_str()); break; }
	}
	bool mis = f->mis || f->kind == M_REFUSE || f->kind == M_BLACKHOLE || f->kind == M_DNS;
	bool end_only = f->kind >= M_END_STALL && f->kind <= M_END_RST;
	if (!n->exited) {
		if (f->timeout > 0 || !mis) { violate(mis ? "P09" : "P05", "%s (server %s at response %d) still runs at the end", nm, MN[f->kind], f->at); if (mis) violate("P05", "%s still runs although its server %s", nm, MN[f->kind]); }
		return;
	}
	if (n->signaled) { violate("P09", "%s died from signal %d", nm, n->term_sig); return; }
	bool all = (size_t)f->acked == good && !badrec && f->quit_ok;
	if (n->exit_code == 0) {
		if ((size_t)f->acked < good) violate("P05", "%s exited with status 0 although only %d of %zu commands were acknowledged (server %s at response %d)", nm, f->acked, good, MN[f->kind], f->at);
		if (badrec) { violate("P05", "%s exited with status 0 although its input was malformed", nm); violate("P06", "%s exited with status 0 although its input was malformed", nm); }
		if (mis && !end_only) violate("P05", "%s exited with status 0 although the server %s at response %d", nm, MN[f->kind], f->at);
		if (!mis && !f->quit_ok) violate("P05", "%s exited with status 0 without ending the session", nm);
		probe("client.success"); if (end_only && f->mis) probe("client.unclean_end_ignored");
	} else {
		if (!mis && !badrec && (size_t)f->acked < good) violate("P06", "%s submitted only %d of %zu records although nothing was wrong: %s", nm, f->acked, good, n->log.empty() ? "" : n->log.back().text.c_str());
		if (!mis && !badrec) violate("P05", "%s exited with status %d although every command was acknowledged (%d of %zu; server %s): %s", nm, n->exit_code, f->acked, good, MN[f->kind], n->log.empty() ? "" : n->log.back().text.c_str());
		if (n->log.empty()) violate("P09", "%s exited with status %d without an error message (server %s at response %d)", nm, n->exit_code, MN[f->kind], f->at);
		probe(badrec ? "client.malformed_input" : "client.failure");
	}
	if (badrec && !mis) { if ((size_t)f->acked != good) violate("P06", "%s: %d of the %zu records before the malformed one were submitted", nm, f->acked, good); }
	(void)all;
	// in time
	if (mis) {
		double lim = -1, from = f->t_mis; double t = f->timeout;
		switch (f->kind) {
		case M_RST: case M_FIN: case M_NOTIFY: case M_PART_NOTIFY: case M_PART_FIN: case M_GARBAGE: case M_HS_CLOSE: case M_HS_RST: case M_KEY: case M_END_RST: case M_END_FIN: case M_IMPOSTOR: lim = 2; break;
		case M_PLAIN: lim = f->junk % 2 ? 2 : t > 0 ? t + 2 : -1; break;
		case M_REFUSE: case M_DNS: from = r->start + r->max_delay; lim = 2; break;
		case M_BLACKHOLE: from = r->start + r->max_delay; lim = t > 0 ? t + 2 : -1; break;
		case M_FAIL: case M_BAIL: case M_JUNK: lim = f->junk >= 6 ? (t > 0 ? t + 2 : -1) : 2; break;
		default: lim = t > 0 ? t + 2 : -1; // the client had to wait
		}
		if (from >= 0 && lim >= 0 && n->exit_time > from + lim) violate("P09", "%s (timeout %.0f s) exited %.3f s after its server %s (response %d)", nm, t, n->exit_time - from, MN[f->kind], f->at);
		probe(Str("client.") + MN[f->kind]);
	}
}
static RunP start_run(Rng &g, int i, double at, int kind, bool bad_ok) {
	auto r = std::make_shared<Run>();
	r->j = make_job(g, 12, bad_ok);
	auto f = r->f = std::make_shared<Fake>();
	size_t good = r->j.ref.size();
	f->name = fmt("fake%d", i); f->port = port_base() + i; f->kind = kind; f->g = Rng(g.u64());
	f->id = long_id(g, "id" + rand_text(g, (size_t)g.range(0, g.chance(0.2) ? 100 : 8))); f->pw = "pw" + rand_pw(g, 0);
	f->cut = (size_t)g.range(1, 300); f->junk = (int)g.range(0, 9);
	f->at = (int)g.range(0, (int64_t)(2 * good + 1));
	static const double tv[] = {15, 15, 2, 3, 5, 30, 0};
	double to = tv[g.range(0, 6)]; f->timeout = to;
	bool opt_to = g.chance(0.4);
	int delay = g.chance(0.15) ? (int)g.range(1, 5) : 0; bool opt_delay = g.chance(0.5);
	r->max_delay = delay ? delay + 0.1 : 0.1;
	Str host = "10.0.0.1";
	Str dnsname = fmt("srv%d.example", i), addr = fmt("10.0.1.%d", i + 1);
	W->dns[dnsname] = {addr};
	if (kind == M_REFUSE) (f->junk % 2 ? W->refuse_sync : W->refuse_async).insert(addr);
	if (kind == M_BLACKHOLE) W->blackhole.insert(addr);
	if (kind == M_DNS) W->dns[dnsname] = {};
	bool opt_host = g.chance(0.3), opt_port = g.chance(0.3);
	Str path = fmt("/etc/send_nsca%d.cfg", i);
	fs_mk(path, Inode::REG, client_cfg(f->id, f->pw, opt_host ? "10.9.9.9" : dnsname, opt_port ? 9 : f->port, opt_to ? 99 : to == 15 && g.chance(0.5) ? -1 : to, opt_delay ? 0 : delay), 0600);
	auto a = r->j.args;
	if (opt_host) { a.push_back("-H"); a.push_back(dnsname); }
	if (opt_port) { a.push_back("-p"); a.push_back(fmt("%d", f->port)); }
	if (opt_to) { a.push_back("-o"); a.push_back(fmt("%d", (int)to)); }
	if (opt_delay && delay) { a.push_back("-D"); a.push_back(fmt("%d", delay)); }
	int v = g.chance(0.3) ? (int)g.range(1, 3) : 0; r->verbose = v > 0;
	for (int k = 0; k < v; k++) a.push_back("-v");
	r->start = at; r->wall0 = W->wall_off + at;
	r->what = fmt("server %s at response %d", MN[kind], f->at);
	fake_listen(f, g.chance(0.35) ? 12 : 0);
	r->c = make_client(fmt("send_nsca%d", i), path, a, at);
	bool pipe = g.chance(0.8); double pause = (to > 0 ? to : 20) * 0.5 / 450;
	Rng h(g.u64());
	ev_at(std::max(at, W->now), [r, h, pipe, pause]() mutable { feed_stdin(r->c, h, r->j.input, pipe, pause); });
	W->at_end.push_back([r] { judge(r); });
	return r;
}
static void client_env(Rng &g, double end) {
	rand_sched(g);
	Rng gf(g.u64());
	base_faults(gf, g.chance(0.4) ? 0 : 1);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	if (g.chance(0.4)) { W->fp["stdin.eintr"] = 0.05; W->fp["stdin.short"] = 0.2; }
	static const NetProfile nps[] = {{0.0001, 0.0002, 1460, 1460, 65536}, {0.002, 0.005, 1, 1460, 65536}, {0.005, 0.02, 1, 300, 16384}, {0.02, 0.02, 200, 1460, 8192}};
	W->net = nps[g.range(0, 3)];
	W->preempt_p = std::min(W->preempt_p, 0.2);
	if (!fs_get("/")) fs_mk("/", Inode::DIR, "", 0755);
	for (const char *d : {"/etc", "/tmp"}) if (!fs_get(d)) fs_mk(d, Inode::DIR, "", 0755);
	W->end_time = W->now + end;
}
static void client_misc(Rng &g) { // one misbehaving server each
	client_env(g, 260);
	int n = (int)g.range(1, 3);
	for (int i = 0; i < n; i++) {
		int k = (int)g.range(M_FAIL, M_NKIND - 1); Rng h; double at = W->now + 0.1 + g.real(0, 1);
		Rng d(g.u64());
		bool first = g.chance(0.5);
		if (!op(g, h, fmt("send_nsca%d, whose server %s, from %.3f", i, MN[k], at))) continue;
		auto r = start_run(h, i, at, k, false);
		if (first) r->f->at = std::min(r->f->at, (int)d.range(0, 3));
	}
}
static void client_ok(Rng &g) { // servers that behave, slow ones included
	client_env(g, 1800);
	int n = (int)g.range(1, 3);
	for (int i = 0; i < n; i++) {
		int k = (int)g.range(M_NONE, M_DRIP); Rng h; double at = W->now + 0.1 + g.real(0, 1);
		if (!op(g, h, fmt("send_nsca%d, whose server %s, from %.3f", i, MN[k], at))) continue;
		auto r = start_run(h, i, at, k, true);
		if (g.chance(0.15) && r->f->timeout > 0) { double s = g.real(0.05, 2), st = at + g.real(0.2, 2); Node *nn = r->c.n; Rng h2; if (op(g, h2, fmt("send_nsca%d is stopped at %.3f for %.3f s", i, st, s))) ev_at(st, [nn, s] { if (!nn->exited && nn->started) { note_fault("stall", nn->name); stall_node(nn, s); } }); }
	}
}
static void client_long(Rng &g) { // large inputs: many records, many blank lines
	client_env(g, 1800);
	W->net = NetProfile{0.0001, 0.0002, 1460, 1460, 65536};
	Rng h;
	int style = (int)g.range(0, 3); size_t cnt = (size_t)g.range(10, style < 2 ? 30000 : 300);
	static const char *sn[] = {"blank lines", "blank records", "records", "long records"};
	if (!op(g, h, fmt("send_nsca0 with %zu %s", cnt, sn[style]))) return;
	auto r = std::make_shared<Run>(); auto &j = r->j;
	j.raw = style == 0 || h.chance(0.5);
	if (style == 1) j.raw = false;
	if (j.raw) { j.sep = '\n'; j.args.push_back("-C"); }
	auto rec = [&](size_t len) { Str u = uniq() + rand_text(h, len); j.input += j.raw ? "PROCESS_HOST_CHECK_RESULT;host1;0;" + u : "host1\t0\t" + u; j.input += j.sep; };
	rec(10);
	if (style == 0) j.input += Str(cnt, '\n');
	else if (style == 1) for (size_t i = 0; i < cnt; i++) { if (h.chance(0.3)) j.input += "\n"; j.input += j.sep; }
	else if (style == 2) for (size_t i = 0; i < cnt; i++) rec(20);
	else for (size_t i = 0; i < std::min(cnt, (size_t)10); i++) rec((size_t)h.range(1000, 60000));
	bool slow = style == 3 && h.chance(0.5); // a large record takes longer than the timeout
	if (slow) { rec(200000); W->net = NetProfile{0.05, 0.1, 400, 1460, 8192}; probe("client.slow_upload"); }
	if (h.chance(0.5)) rec(5);
	j.ref = translate(j.input, j.raw, j.delim, j.sep);
	auto f = r->f = std::make_shared<Fake>();
	f->name = "fake0"; f->port = port_base(); f->g = Rng(h.u64()); f->id = "id"; f->pw = "pw"; f->timeout = slow ? 2 : 30;
	fs_mk("/etc/send_nsca0.cfg", Inode::REG, client_cfg(f->id, f->pw, "10.0.0.1", f->port, f->timeout), 0600);
	r->start = W->now + 0.1; r->wall0 = W->wall_off + r->start;
	fake_listen(f, 0);
	r->c = make_client("send_nsca0", "/etc/send_nsca0.cfg", j.args, r->start);
	bool pipe = h.chance(0.5);
	feed_stdin(r->c, h, j.input, pipe, 0.01);
	W->at_end.push_back([r] { judge(r); });
}

// ---------------------------------------------------------------- several addresses
static void client_addrs(Rng &g) {
	client_env(g, 120);
	int n = (int)g.range(1, 3);
	for (int i = 0; i < n; i++) {
		Rng h; double at = W->now + 0.1 + g.real(0, 1);
		int na = (int)g.range(1, 5), ok = (int)g.range(-1, na - 1); // -1: none
		if (g.chance(0.85) && ok < 0) ok = na - 1;
		auto r = std::make_shared<Run>(); std::vector<Str> as; Str desc;
		std::vector<int> kinds;
		for (int k = 0; k < na; k++) {
			Str a = fmt("10.1.%d.%d", i, k + 1); as.push_back(a);
			int how = k == ok ? 0 : g.chance(0.4) ? 1 : 2;
			if (ok >= 0 && k > ok) how = (int)g.range(0, 2);
			kinds.push_back(how);
			desc += how == 0 ? " accepts" : how == 1 ? " refuses-at-once" : " refuses-later";
		}
		double lat = g.real(0.0005, 0.2);
		if (!op(g, h, fmt("send_nsca%d from %.3f, addresses:%s", i, at, desc.c_str()))) continue;
		for (int k = 0; k < na; k++) if (kinds[k] == 1) W->refuse_sync.insert(as[k]); else if (kinds[k] == 2) W->refuse_async.insert(as[k]);
		W->net.lat = std::max(W->net.lat, lat);
		W->dns[fmt("srv%d.example", i)] = as;
		r->j = make_job(h, 4, false);
		auto f = r->f = std::make_shared<Fake>();
		f->name = fmt("fake%d", i); f->port = port_base() + i; f->g = Rng(h.u64()); f->id = "id"; f->pw = "pw"; f->timeout = h.chance(0.8) ? 15 : 0;
		if (ok < 0) f->kind = M_REFUSE;
		Str path = fmt("/etc/send_nsca%d.cfg", i);
		fs_mk(path, Inode::REG, client_cfg(f->id, f->pw, fmt("srv%d.example", i), f->port, f->timeout), 0600);
		r->start = at; r->wall0 = W->wall_off + at; r->max_delay = 0.1 + 1.0 * na;
		fake_listen(f, h.chance(0.35) ? 12 : 0);
		r->c = make_client(fmt("send_nsca%d", i), path, r->j.args, at);
		feed_stdin(r->c, h, r->j.input, false, 0.01);
		W->at_end.push_back([r, ok, desc] {
			Node *n = r->c.n;
			if (ok >= 0) {
				if (!n->exited || n->exit_code != 0 || (size_t)r->f->acked < r->j.ref.size()) violate("P22", "%s did not submit its records although one address accepts connections (addresses:%s): %s, %d of %zu acknowledged%s%s", n->name.c_str(), desc.c_str(), n->exited ? fmt("exit status %d", n->exit_code).c_str() : "still running", r->f->acked, r->j.ref.size(), n->log.empty() ? "" : "; ", n->log.empty() ? "" : n->log.back().text.c_str());
				else { probe("addrs.reached"); }
			} else if (!n->exited || n->exit_code == 0) violate("P22", "%s: every address refuses, yet %s", n->name.c_str(), n->exited ? "exit status 0" : "it still runs");
			else probe("addrs.none");
		});
		W->at_end.push_back([r] { judge(r); });
	}
}

// ---------------------------------------------------------------- against the real server
struct Real { CliRun c; Job j; std::vector<Cmd *> cmds; int stop_at = -1; bool disturbed = false; Str what; double timeout = 15; };
static void e2e_x(Rng &g, bool nomem) {
	SrvCfg c = base_cfg(g, 2);
	c.auth[0].commands = {".+"}; c.auth[0].hosts.clear(); c.auth[0].services.clear();
	AuthSec lim; lim.id = "limited"; lim.pw = "lim"; lim.commands = {"PROCESS_HOST_CHECK_RESULT;host1;.+"}; c.auth.push_back(lim);
	Env *e = env_begin(g, c, 25, 60, g.chance(0.5) ? 0 : 1);
	for (auto k : {"net.delay", "accept.emfile", "timer.late"}) W->fp.erase(k);
	reader_script(e, g, 1);
	int n = (int)g.range(1, 5);
	for (int i = 0; i < n; i++) {
		Rng h; double at = e->t0 + 0.3 + g.real(0, 10);
		int dist = g.chance(0.5) ? (int)g.range(1, 4) : 0; double after = g.real(0, 1.5), dur = g.real(0.1, 25); size_t off = (size_t)g.range(0, 4000); int side = (int)g.range(0, 1);
		bool limited = g.chance(0.2);
		static const char *dn[] = {"", "is reset", "is partitioned", "is tampered with", "loses its client"};
		if (!op(g, h, fmt("send_nsca%d%s from %.3f%s%s", i, limited ? " (limited identity)" : "", at, dist ? ", whose connection " : "", dn[dist]))) continue;
		auto r = std::make_shared<Real>(); r->j = make_job(h, 20, true, true);
		if (r->j.ref.size() > 1 && h.chance(0.3)) r->timeout = 3;
		const AuthSec &a = limited ? c.auth.back() : c.auth[0];
		Str path = fmt("/etc/send_nsca%d.cfg", i);
		fs_mk(path, Inode::REG, client_cfg(a.id, a.pw, "10.0.0.1", 5668, r->timeout), 0600);
		for (size_t k = 0; k < r->j.ref.size(); k++) {
			auto &rec = r->j.ref[k];
			if (rec.bad) { if (r->stop_at < 0) r->stop_at = (int)k; break; }
			Str full = rec.ts ? rec.cmd : "[1] " + rec.cmd;
			int al = cfg_allowed3(c, a.id, full);
			if (al != 1 && r->stop_at < 0) r->stop_at = (int)k;
			Cmd *cm = L->add(a.id, rec.ts ? rec.cmd : rec.cmd, al == 1);
			if (rec.ts) cm->text = rec.cmd;
			cm->t_first = 0; cm->t_sent = 0;
			if (r->stop_at >= 0 && al == -1) cm->excused = true;
			r->cmds.push_back(cm);
		}
		r->c = make_client(fmt("send_nsca%d", i), path, r->j.args, at);
		feed_stdin(r->c, h, r->j.input, h.chance(0.5), 0.02);
		Node *nd = r->c.n;
		if (nomem && h.chance(0.8)) nd->nomem_k = (long)exp(h.real(0, 7));
		if (dist == 4) ev_at(at + after, [r, nd] { if (nd->exited || !nd->started) return; r->disturbed = true; note_fault("client.kill", nd->name); kill_node(nd, SIGKILL); });
		else if (dist) ev_at(at + (dist == 3 ? 0.0 : after), [r, nd, dist, dur, off, side] {
			auto hit = [r, nd, dist, dur, off, side] {
				for (auto &k : W->conns) if (k->e[0].owner == nd && !k->e[0].closed && !k->e[0].dead) {
					r->disturbed = true;
					if (dist == 1) { note_fault("net.reset", nd->name); tcp_rst(k.get(), side); tcp_notify(k->e[1 - side]); }
					else if (dist == 2) { note_fault("net.partition", nd->name); k->hold_until = W->now + dur; }
					else { k->corrupt_at = off; k->corrupt_side = side; }
					return true;
				}
				return false;
			};
			if (!hit() && dist == 3) for (int t = 1; t < 40; t++) ev_after(0.0005 * t, [r, hit] { if (!r->disturbed) hit(); });
		});
		W->at_end.push_back([r, nd] {
			if (!nd->started) return;
			if (nd->mem_fails) {
				r->disturbed = true; probe("nomem.client");
				if (nd->signaled) violate("P29", "%s was killed by signal %d when it ran out of memory", nd->name.c_str(), nd->term_sig);
				else if (!nd->exited || nd->exit_time > nd->mem_fail_t + 1) violate("P29", "%s ran on after it ran out of memory", nd->name.c_str());
				else if (nd->exit_code == 0) violate("P29", "%s exited with status 0 although it ran out of memory", nd->name.c_str());
				if (nd->log.size() <= nd->mem_fail_log) violate("P29", "%s didn't say why it exited (out of memory)", nd->name.c_str());
			}
			if (!nd->exited) { violate("P09", "%s (timeout %.0f) still runs at the end", nd->name.c_str(), r->timeout); return; }
			size_t del = 0; bool hole = false, prefix = true;
			for (auto c : r->cmds) { if (c->delivered) { del++; if (hole) prefix = false; } else hole = true; }
			bool ok = nd->exit_code == 0 && !nd->signaled;
			if (!prefix) { violate("P05", "%s: the commands delivered are no prefix of its input", nd->name.c_str()); violate("P06", "%s: the commands delivered are no prefix of its input", nd->name.c_str()); }
			if (ok && (del != r->cmds.size() || r->stop_at >= 0)) violate("P05", "%s exited with status 0, but %zu of %zu commands were delivered%s", nd->name.c_str(), del, r->cmds.size(), r->stop_at >= 0 ? " and one must be refused" : "");
			if (!ok && !r->disturbed && r->stop_at < 0 && !nd->signaled) violate("P05", "%s exited with status %d although nothing was wrong: %s", nd->name.c_str(), nd->exit_code, nd->log.empty() ? "" : nd->log.back().text.c_str());
			if (!ok && !r->disturbed && r->stop_at >= 0 && (int)del != r->stop_at) violate("P06", "%s: %zu commands were delivered, expected the first %d", nd->name.c_str(), del, r->stop_at);
			probe(ok ? "e2e.ok" : r->disturbed ? "e2e.disturbed" : "e2e.refused");
		});
	}
	W->at_end.push_back([] { check_order(); });
}
static void e2e(Rng &g) { e2e_x(g, false); }
static void e2e_nomem(Rng &g) { e2e_x(g, true); }
static ScenReg r6("e2e_nomem", e2e_nomem), r1("client_bad", client_misc), r2("client_ok", client_ok), r3("client_long", client_long), r4("client_addrs", client_addrs), r5("e2e", e2e);
