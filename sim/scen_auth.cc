// Who may submit what: authentication and authorization against the reference
// in model.cc, with hostile commands, near-miss identities and passwords.
#include "model.h"
#include <string.h>
#include <algorithm>

static const std::vector<Str> HP = {"host1", "host[12]", "host1|host2", "(web|db)[0-9]+", ".*db", "web.*", ".+", "[^;]+", "h.st3", "host1|", "x?host2", "none", "host(1|2", "db7|.*1"};
static const std::vector<Str> SP = {"disk@host1", "disk|load@host2|host1", "svc[0-9]+", "load@.*db", ".*@web1", "a@b@host1", "cpu.*@host[0-9]", "disk", "load|disk", "none@none", ".*k@.*1", "disk|evil@host3"};
static const std::vector<Str> CP = {"SCHEDULE_[A-Z_]+;host1;.*", "RESTART_PROGRAM;.*", "ADD_(HOST|SVC)_COMMENT;web.*", "ENABLE_X;.*|DISABLE_X;.*", "PROCESS_HOST_CHECK_RESULT;host9;0;.*", "none", "PROCESS_SERVICE_CHECK_RESULT;host3;.*", "SHUTDOWN", ".*;magic;.*"};
static const std::vector<Str> HV = {"host1", "host2", "host3", "hxst3", "web1", "db7", "mydb", "evil", "host10", "Host1", "host1 ", " host1", "", "web", "host9", "xhost1", "db", "host1|host2"};
static const std::vector<Str> SV = {"disk", "load", "svc5", "cpu0", "a@b", "DISK", "evil", "diskx", "", "xdisk", "svc", "load|disk"};
static const std::vector<Str> CV = {"SCHEDULE_DOWNTIME;host1", "SCHEDULE_DOWNTIME;host2", "RESTART_PROGRAM", "SHUTDOWN", "ADD_HOST_COMMENT;web1", "ADD_SVC_COMMENT;db1", "ENABLE_X", "DISABLE_X", "XENABLE_X", "SHUTDOWN_PROGRAM", "FOO;magic", "PROCESS_HOST_CHECK_RESULTX;host1", "XPROCESS_HOST_CHECK_RESULT;host1;0"};

static bool pat_ok(const Str &p) { int d = 0; for (char c : p) { if (c == '(') d++; if (c == ')') d--; } return d == 0; }
static std::vector<Str> pick_some(Rng &g, const std::vector<Str> &v, int lo, int hi) {
	std::vector<Str> r; int n = (int)g.range(lo, hi);
	for (int i = 0; i < n; i++) { const Str &p = g.pick(v); if (pat_ok(p)) r.push_back(p); }
	return r;
}
static SrvCfg auth_cfg(Rng &g) {
	SrvCfg c; c.timeout = 0;
	static const std::vector<Str> ids = {"alpha", "Alpha", "alphax", "al", "beta", "client host.example.com", "c", "d", "e!", "gamma;x", "root", "alph"};
	int n = g.chance(0.2) ? (int)g.range(20, 60) : (int)g.range(1, 6);
	for (int i = 0; i < n; i++) {
		AuthSec a; a.id = i < (int)ids.size() && n < 20 ? ids[(size_t)((i * 5 + 3) % 12)] : fmt("id%d", i);
		if (n < 20) a.id = long_id(g, a.id);
		a.pw = rand_pw(g);
		switch (g.range(0, 4)) {
		case 0: a.hosts = pick_some(g, HP, 1, 3); break;
		case 1: a.services = pick_some(g, SP, 1, 3); break;
		case 2: a.commands = pick_some(g, CP, 1, 2); break;
		default: a.hosts = pick_some(g, HP, 0, 2); a.services = pick_some(g, SP, 0, 2); a.commands = pick_some(g, CP, 0, 2); break;
		}
		if (g.chance(0.05)) a.commands.push_back(".+");
		c.auth.push_back(a);
	}
	if (g.chance(0.4)) { AuthSec a; a.id = "*"; a.pw = rand_pw(g); a.hosts = pick_some(g, HP, 0, 2); a.services = pick_some(g, SP, 0, 1); c.auth.insert(c.auth.begin() + g.range(0, (int64_t)c.auth.size()), a); }
	if (g.chance(0.3)) {
		c.use_globals = true;
		if (g.chance(0.5)) c.g_hosts = pick_some(g, HP, 1, 1);
		if (g.chance(0.5)) c.g_services = pick_some(g, SP, 1, 1);
		if (g.chance(0.3)) c.g_commands = pick_some(g, CP, 1, 1);
		if (g.chance(0.3)) { c.g_pw = rand_pw(g); for (auto &a : c.auth) if (g.chance(0.3)) a.has_pw = false; }
	}
	return c;
}
// A command that matches nothing else in this run, for which any configuration may have any answer.
static Str rand_command(Rng &g, const AuthSec *a = nullptr) {
	Str b, u = uniq();
	auto lit = [&](const Str &p, const std::vector<Str> &alt) { return g.chance(0.15) || p.find_first_of("[]()*+?|.{") != Str::npos ? g.pick(alt) : p; };
	int what = (int)g.range(0, 8);
	if (what >= 7 && (!a || a->services.empty())) what = (int)g.range(0, 6);
	switch (what) {
	case 7: case 8: { // aimed at one of the patterns
		const Str &p = g.pick(a->services); size_t at = p.rfind('@');
		Str sp = p.substr(0, at), hp = at == Str::npos ? Str(".") : p.substr(at + 1);
		b = "PROCESS_SERVICE_CHECK_RESULT;" + lit(hp, HV) + ";" + lit(sp, SV) + fmt(";%d;", (int)g.range(0, 3)); break; }
	case 0: case 1: case 2: b = "PROCESS_HOST_CHECK_RESULT;" + g.pick(HV) + fmt(";%d;", (int)g.range(0, 2)); break;
	case 3: case 4: case 5: b = "PROCESS_SERVICE_CHECK_RESULT;" + g.pick(HV) + ";" + g.pick(SV) + fmt(";%d;", (int)g.range(0, 3)); break;
	default: b = g.pick(CV) + ";"; break;
	}
	// fields that would match if a pattern were allowed to cross a separator
	if (g.chance(0.25)) { b += g.pick(HV) + ";"; if (g.chance(0.5)) b += g.pick(SV) + ";0;"; }
	b += u;
	if (g.chance(0.3)) b += rand_text(g, (size_t)g.range(1, g.chance(0.1) ? 5000 : 60));
	Str ts = fmt("[%lu] ", (unsigned long)(W->wall_off + W->now));
	if (g.chance(0.5)) return ts + b + "\n";
	Str other = "[1] SHUTDOWN_PROGRAM;" + u, allowed = "PROCESS_HOST_CHECK_RESULT;" + g.pick(HV) + ";0;x";
	size_t pos = (size_t)g.range(0, (int64_t)b.size() - 1);
	switch (g.range(0, 23)) {
	case 21: return ts + b + "\n<5>Queuing data from FORGED@10.9.0.99 (ID: x): " + ts + b + "\n"; // forged log entries
	case 22: return ts + b + "\nnsca-ng: [NOTICE] Queuing data from FORGED@10.9.0.99 (ID: x): " + ts + b + "\n";
	case 23: { Str x = b; static const char cc[] = "\x1b\r\x07\x7f\b\t\x1f"; for (int i = (int)g.range(1, 4); i > 0; i--) x.insert((size_t)g.range(0, (int64_t)x.size()), 1, cc[g.range(0, 6)]); return ts + x + "\n"; }
	case 0: return ts + b + "\n" + other + "\n";
	case 1: return ts + b + "\n\n";
	case 2: return ts + b;
	case 3: return ts + b + "\n" + Str(1, '\0') + other + "\n";
	case 4: return ts + b.substr(0, pos) + Str(1, '\0') + b.substr(pos) + "\n";
	case 5: return ts + b + "\n" + Str(1, '\0');
	case 6: return b + "\n";
	case 7: return "]" + b + "\n";
	case 8: return "x" + ts + b + "\n";
	case 9: return allowed + "] " + b + "\n";
	case 10: return "] " + allowed + " " + other + "\n";
	case 11: return "[" + u + "]" + b + "\n";
	case 12: return "[1][2] " + b + "\n";
	case 13: return "[1]\t  " + b + "\n";
	case 14: { Str l = b; for (size_t i = 0; i < 20 && i < l.size(); i++) l[i] = (char)tolower((unsigned char)l[i]); return ts + l + "\n"; }
	case 15: return ts + b + "\r\n";
	case 16: { size_t p = b.find(';'); return ts + b.substr(0, p) + (g.chance(0.5) ? ";" : "") + u + "\n"; }
	case 17: return ts + b.substr(0, pos) + "\n" + b.substr(pos) + "\n";
	case 18: { Str x = ts + b + "\n"; x[0] = ' '; return x; }
	case 19: { // fields missing
		std::vector<size_t> sc; for (size_t i = 0; i < b.size(); i++) if (b[i] == ';') sc.push_back(i);
		size_t p = sc.empty() ? 0 : sc[g.u64() % std::min(sc.size(), (size_t)4)];
		return ts + b.substr(0, p) + (g.chance(0.7) ? ";" : "") + (g.chance(0.6) ? u : "") + "\n"; }
	default: return " " + ts + b + "\n";
	}
}
static void add_any(SessP s, const SrvCfg &c, const Str &t) {
	int a = cfg_allowed3(c, s->ident, t);
	add_push(s, s->rng, t, a == 1);
	s->script.back().cmd->excused = a == -1;
	if (a == 1) probe("auth.permitted"); else if (a == 0) probe("auth.forbidden");
}
struct Intruder { PeerP p; Str what; };
static Str near_miss(Rng &g, const Str &s) {
	Str r = s;
	switch (g.range(0, 6)) {
	case 0: r += "x"; break;
	case 1: if (r.size() > 1) r.pop_back(); else r += "y"; break;
	case 2: { size_t i = (size_t)g.range(0, (int64_t)r.size() - 1); r[i] = isupper((unsigned char)r[i]) ? (char)tolower((unsigned char)r[i]) : islower((unsigned char)r[i]) ? (char)toupper((unsigned char)r[i]) : '~'; break; }
	case 3: r += " "; break;
	case 4: r = " " + r; break;
	case 5: r = r + r; break;
	default: r[(size_t)g.range(0, (int64_t)r.size() - 1)] ^= 1; break;
	}
	return r;
}
static void auth_run(Rng &g, bool intruders) {
	SrvCfg c = auth_cfg(g);
	c.sync = g.chance(0.1); c.log_level = g.chance(0.3) ? 4 : 3;
	Env *e = env_begin(g, c, 30, 40, intruders && g.chance(0.5) ? 0 : g.chance(0.5) ? 0 : 1);
	e->rd->interval = 0.005;
	if (g.chance(0.1)) W->fp["regex.fail"] = g.chance(0.5) ? 1 : 0.2;
	auto bad = std::make_shared<std::vector<Intruder>>();
	int ns = (int)g.range(1, intruders ? 4 : 6);
	for (int i = 0; i < ns; i++) {
		Rng h; double at = e->t0 + 0.2 + g.real(0, g.chance(0.5) ? 0.1 : 3);
		const AuthSec &a = c.auth[(size_t)g.range(0, (int64_t)c.auth.size() - 1)];
		Str id = a.id, sid = g.pick(c.auth).id;
		if (a.id == "*" && g.chance(0.8)) id = fmt("stranger%d", i);
		if (!op(g, h, fmt("s%d: %s starts at %.3f", i, id.c_str(), at))) continue;
		auto s = new_session(fmt("s%d", i), e->c, id, e->c.pw_of(id));
		rand_peer(h, *s->p); s->p->rec_max = std::max(s->p->rec_max, (size_t)60); s->p->np.mss_max = std::max(s->p->np.mss_max, 200);
		s->think_hi = h.chance(0.5) ? 0.001 : h.real(0.01, 0.3);
		for (auto &ch : sid) if (ch == ' ') ch = '_';
		s->also.push_back("P04");
		s->script.push_back({RQ_LINE, "MOIN 1 " + sid, nullptr, "", 0});
		int n = (int)h.range(1, intruders ? 5 : 14);
		for (int k = 0; k < n; k++) add_any(s, e->c, rand_command(h, h.chance(0.7) ? e->c.find(id) : nullptr));
		if (h.chance(0.9)) s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
		else s->script.push_back({RQ_LINE, "BAIL bye", nullptr, "", 0});
		s->start(at);
	}
	int ni = intruders ? (int)g.range(1, 6) : (int)g.range(0, 1);
	for (int i = 0; i < ni; i++) {
		Rng h; double at = e->t0 + 0.2 + g.real(0, 3);
		if (!op(g, h, fmt("x%d tries to get in at %.3f", i, at))) continue;
		const AuthSec &a = h.pick(c.auth);
		Str id = a.id, pw = c.pw_of(a.id);
		switch (h.range(0, 8)) {
		case 7: id += "\n<5>Queuing data from FORGED@10.9.0.99 (ID: x): [1] y"; break;
		case 8: id += "' is unknown\nnsca-ng: [NOTICE] Queuing data from FORGED@10.9.0.99 (ID: x): [1] y\x1b"; break;
		case 0: case 1: pw = near_miss(h, pw); break;
		case 2: id = near_miss(h, id); break;
		case 3: pw = h.pick(c.auth).pw; break;
		case 4: pw = "x"; break;
		case 5: id = h.chance(0.5) ? "*" : "nobody"; break;
		default: { const AuthSec *star = nullptr; for (auto &x : c.auth) if (x.id == "*") star = &x; pw = star ? star->pw : "forty-two"; break; }
		}
		if (id.empty()) id = "nobody";
		const AuthSec *sec = c.find(id);
		if (sec && c.pw_of(id).substr(0, 512) == pw.substr(0, 512)) continue; // would be legitimate (512 is OpenSSL's maximum)
		auto p = new_peer(fmt("x%d", i)); p->identity = id; p->psk = pw; rand_peer(h, *p); p->np.mss_max = std::max(p->np.mss_max, 100);
		bad->push_back({p, fmt("claims to be %s with the password %s", quote(id).c_str(), quote(pw).c_str())});
		probe("auth.intruder");
		Str line = h.chance(0.5) ? "PING\r\n" : "MOIN 1 x\r\nPUSH 10\r\n0123456789";
		p->on_ready = [p = p.get(), line] { p->send(line); };
		if (h.chance(0.25)) { // no secret at all
			static const char *cl[] = {"aNULL:eNULL:@SECLEVEL=0", "ADH:AECDH:@SECLEVEL=0", "ALL:@SECLEVEL=0", "NULL:@SECLEVEL=0", "DHE-PSK-NULL-SHA:PSK-NULL-SHA256:PSK:@SECLEVEL=0", "RSA:ECDHE:@SECLEVEL=0"};
			p->ciphers = cl[h.range(0, 5)]; bad->back().what += fmt(" offering the ciphers %s", p->ciphers.c_str());
		}
		ev_at(at, [p = p.get()] { p->connect(5668); });
	}
	W->at_end.push_back([e, bad] {
		if (e->srv->exited) return;
		for (auto &x : *bad) {
			if (x.p->t_ready >= 0) violate("P04", "%s %s and completed the TLS handshake", x.p->label.c_str(), x.what.c_str());
			if (!x.p->raw.empty()) violate("P04", "%s %s and got the response %s", x.p->label.c_str(), x.what.c_str(), quote(x.p->raw).c_str());
		}
		expect_sessions_done("P03"); expect_sessions_done("P04"); expect_sessions_done("P10"); check_delivery("P01");
		check_order();
	});
}
static ScenReg r1("authz", [](Rng &g) { auth_run(g, false); });
static ScenReg r2("authn", [](Rng &g) { auth_run(g, true); });
