// Reference models, ledger of commands, and helpers shared by the scenarios.
#include "model.h"
#include <limits.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <fcntl.h>
#include <algorithm>

Ledger *L = nullptr;
static std::vector<SessP> g_sess;
std::vector<SessP> &all_sessions() { return g_sess; }
std::map<Str, ScenFn> &scen_table() { static std::map<Str, ScenFn> t; return t; }
ScenReg::ScenReg(const char *n, ScenFn f) { scen_table()[n] = f; }
double wall() { return W->now + W->wall_off; }

// ---------------------------------------------------------------- configuration
Str cfg_quote(const Str &s) {
	Str r = "\"";
	for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; }
	return r + "\"";
}
static Str cfg_list(const char *k, const std::vector<Str> &v, const char *ind, bool list) {
	if (v.empty()) return "";
	if (!list) return Str(ind) + k + " = " + cfg_quote(v[0]) + "\n";
	Str r = Str(ind) + k + " = {\n";
	for (size_t i = 0; i < v.size(); i++) r += Str(ind) + "\t" + cfg_quote(v[i]) + (i + 1 < v.size() ? ",\n" : "\n");
	return r + ind + "}\n";
}
Str SrvCfg::text() const {
	auto in = [this](const Str &p) { return p.size() > root.size() && p.compare(0, root.size(), root) == 0 ? p.substr(root.size()) : p; };
	Str r = "# generated\n";
	if (!root.empty()) r += "chroot = " + cfg_quote(root) + "\n";
	r += "command_file = " + cfg_quote(in(fifo)) + "\n";
	r += "temp_directory = " + cfg_quote(in(tmp)) + "\n";
	r += fmt("log_level = %ld\n", getenv("NSCA_SIM_LOGLEVEL") ? atol(getenv("NSCA_SIM_LOGLEVEL")) : log_level);
	if (max_cmd >= 0) r += fmt("max_command_size = %ld\n", max_cmd);
	if (max_queue >= 0) r += fmt("max_queue_size = %ld\n", max_queue);
	if (timeout >= 0) r += fmt("timeout = %.3f\n", timeout);
	if (!pid.empty()) r += "pid_file = " + cfg_quote(in(pid)) + "\n";
	if (!bind.empty()) r += "listen = " + cfg_quote(bind) + "\n";
	if (use_globals) {
		if (!g_pw.empty()) r += "password = " + cfg_quote(g_pw) + "\n";
		r += cfg_list("hosts", g_hosts, "", false) + cfg_list("services", g_services, "", false) + cfg_list("commands", g_commands, "", false);
	}
	for (auto &a : auth) {
		r += "authorize " + cfg_quote(a.id) + " {\n";
		if (a.has_pw) r += "\tpassword = " + cfg_quote(a.pw) + "\n";
		r += cfg_list("hosts", a.hosts, "\t", true) + cfg_list("services", a.services, "\t", true) + cfg_list("commands", a.commands, "\t", true);
		r += "}\n";
	}
	return r + extra;
}
const AuthSec *SrvCfg::find(const Str &id) const {
	for (auto &a : auth) if (a.id == id) return &a;
	for (auto &a : auth) if (a.id == "*") return &a;
	return nullptr;
}
Str SrvCfg::pw_of(const Str &id) const { auto a = find(id); return !a ? Str() : a->has_pw ? a->pw : g_pw; }

static std::map<Str, regex_t *> g_re;
static bool re_match(const Str &p, const Str &s) { // the whole of s
	if (s.find('\0') != Str::npos) return false;
	regex_t *&r = g_re[p];
	if (!r) { r = new regex_t; if (regcomp(r, ("^(" + p + ")$").c_str(), REG_EXTENDED) != 0) abort(); }
	return regexec(r, s.c_str(), 0, nullptr, 0) == 0;
}
static std::vector<Str> split(const Str &s, char c) {
	std::vector<Str> v; size_t a = 0, b;
	while ((b = s.find(c, a)) != Str::npos) { v.push_back(s.substr(a, b - a)); a = b + 1; }
	v.push_back(s.substr(a));
	return v;
}
// 1 may be submitted, 0 may not, -1 either answer is acceptable
static int ref_allowed(const SrvCfg &c, const Str &id, const Str &data) {
	const AuthSec *a = c.find(id);
	if (!a) return 0;
	if (data.empty() || data.find('\0') != Str::npos || data.back() != '\n' || data.find('\n') != data.size() - 1) return 0;
	if (data[0] != '[') return 0;
	size_t p = data.find(']');
	if (p == Str::npos) return 0;
	Str cmd = data.substr(p + 1, data.size() - p - 2);
	while (!cmd.empty() && (cmd[0] == ' ' || cmd[0] == '\t')) cmd.erase(0, 1);
	const std::vector<Str> *hs = &a->hosts, *ss = &a->services, *cs = &a->commands;
	if (c.use_globals) { if (hs->empty()) hs = &c.g_hosts; if (ss->empty()) ss = &c.g_services; if (cs->empty()) cs = &c.g_commands; }
	int best = 0;
	const Str H = "PROCESS_HOST_CHECK_RESULT;", S = "PROCESS_SERVICE_CHECK_RESULT;";
	if (cmd.compare(0, H.size(), H) == 0) {
		auto f = split(cmd.substr(H.size()), ';');
		if (f.size() >= 2) for (auto &pt : *hs) if (re_match(pt, f[0])) { if (cmd.size() - H.size() - f[0].size() - 1 > 0) return 1; best = -1; }
	}
	if (cmd.compare(0, S.size(), S) == 0) {
		auto f = split(cmd.substr(S.size()), ';');
		if (f.size() >= 4) for (auto &pt : *ss) {
			size_t at = pt.rfind('@');
			Str sp = at == Str::npos ? pt : pt.substr(0, at), hp = at == Str::npos ? "[^;]+" : pt.substr(at + 1);
			if (!re_match(hp, f[0]) || !re_match(sp, f[1])) continue;
			Str rest = cmd.substr(S.size() + f[0].size() + f[1].size() + 2);
			size_t q = rest.find(';', 1);
			if (q != Str::npos && !rest.empty() && q + 1 < rest.size()) return 1;
			best = -1;
		}
	}
	for (auto &pt : *cs) { if (re_match(pt, cmd)) return 1; if (re_match(pt, cmd + "\n")) best = -1; }
	return best;
}
bool SrvCfg::allowed(const Str &id, const Str &data) const { return ref_allowed(*this, id, data) == 1; }
int cfg_allowed3(const SrvCfg &c, const Str &id, const Str &d) { return ref_allowed(c, id, d); }

void write_cfg(const SrvCfg &c) { for (auto &a : c.auth) W->secret(a.pw); W->secret(c.g_pw); fs_mk(c.path, Inode::REG, c.text(), 0600); }
static void mkdirs(const Str &p) {
	for (size_t i = 1; i < p.size(); i++) if (p[i] == '/' && !fs_get(p.substr(0, i))) fs_mk(p.substr(0, i), Inode::DIR, "", 0755);
	if (!fs_get(p)) fs_mk(p, Inode::DIR, "", 0755);
}
void world_fs(const SrvCfg &c) {
	if (!fs_get("/")) fs_mk("/", Inode::DIR, "", 0755);
	for (const char *d : {"/etc", "/var", "/var/run", "/tmp"}) if (!fs_get(d)) fs_mk(d, Inode::DIR, "", 0755);
	mkdirs(c.tmp);
	mkdirs(c.fifo.substr(0, c.fifo.rfind('/')));
	if (!c.pid.empty()) mkdirs(c.pid.substr(0, c.pid.rfind('/')));
	if (!fs_get(c.fifo)) fs_mk(c.fifo, Inode::FIFO, "", 0660);
	write_cfg(c);
}
// What systemd does for socket activation. It keeps the socket open itself.
void give_socket(Node *n, int port) {
	OFile *f;
	auto it = W->listeners.find(port);
	if (it == W->listeners.end()) { f = of_new(OFile::LISTEN); f->lport = port; W->listeners[port] = f; } else f = it->second;
	f->nonblock = true; f->cloexec = false; f->refs++;
	n->fds[3] = f; n->env["LISTEN_FDS"] = "1";
}
Node *make_server(const Str &name, const SrvCfg &c, double at) {
	std::vector<Str> av = {"nsca-ng", "-c", c.path};
	if (!c.daemonize) av.push_back("-F");
	for (auto &x : c.args) av.push_back(x);
	Node *n = new_node(name, c.sync ? "serversync" : "server", av);
	uint64_t how = mix64(W->seed ^ hash_str(name.c_str()) ^ 0x657865) % 4; // how it was called
	if (how == 1) n->exe = "/opt/nsca-ng/bin/nsca-ng";
	if (how) { n->in_path = false; n->argv[0] = n->exe; }
	if (!c.watchdog_env.empty()) n->env["WATCHDOG_USEC"] = c.watchdog_env;
	if (c.activated) give_socket(n, atoi(c.bind.substr(c.bind.rfind(':') + 1).c_str()));
	if (at <= 0) start_node(n); else ev_at(at, [n] { start_node(n); });
	return n;
}
std::shared_ptr<Reader> make_reader(const SrvCfg &c, double at, Rng &g) {
	auto r = std::make_shared<Reader>();
	r->path = c.fifo;
	r->interval = g.real(0.001, 0.02); r->chunk = (size_t)g.range(512, 65536);
	static std::vector<std::shared_ptr<Reader>> keep; keep.push_back(r);
	if (at <= 0) r->do_open(); else ev_at(at, [r] { r->do_open(); });
	return r;
}

// ---------------------------------------------------------------- ledger
Str strip_ts(const Str &s, bool *had) {
	if (had) *had = false;
	if (s.empty() || s[0] != '[') return s;
	size_t i = 1;
	while (i < s.size() && isdigit((unsigned char)s[i])) i++;
	if (i == 1 || i + 1 >= s.size() || s[i] != ']' || s[i + 1] != ' ') return s;
	if (had) *had = true;
	return s.substr(i + 2);
}
Cmd *Ledger::add(const Str &who, const Str &text, bool allowed) {
	Cmd *c = new Cmd;
	c->id = (int)v.size(); c->who = who; c->allowed = allowed;
	bool had; c->key = strip_ts(text, &had);
	if (had) c->text = text;
	v.emplace_back(c);
	by_key[c->key] = c;
	return c;
}
size_t Ledger::acked() const { size_t n = 0; for (auto &c : v) if (c->t_ack >= 0) n++; return n; }

void Ledger::line(const Str &l, bool via, const Str &dump, const FifoWrite &w, std::vector<Cmd *> *out) {
	bool had; Str key = strip_ts(l, &had);
	auto it = by_key.find(key);
	if (it != by_key.end()) {
		Cmd *c = it->second;
		c->delivered++;
		if (c->delivered == 1) { c->t_del = w.t; c->via_dump = via; c->order = order++; c->dump = dump; t_last_delivery = w.t; }
		if (out) out->push_back(c);
		if (c->delivered > 1 && !c->may_repeat) {
			violate("P01", "command delivered %d times (%s): %s", c->delivered, via ? dump.c_str() : "command file", quote(l).c_str());
			violate("P14", "queued command repeated: %s", quote(l).c_str());
			if (via) violate("P12", "dump file %s repeats a command: %s", dump.c_str(), quote(l).c_str());
		}
		if (!c->text.empty() && c->text != l) violate("P01", "command altered: sent %s, delivered %s", quote(c->text).c_str(), quote(l).c_str());
		if (!c->allowed && !c->excused) violate("P03", "unauthorized command of %s reached the monitoring daemon: %s", c->who.c_str(), quote(l).c_str());
		else if (c->t_nak >= 0) violate("P03", "refused command of %s reached the monitoring daemon: %s", c->who.c_str(), quote(l).c_str());
		if (c->t_first < 0) violate("P01", "command delivered that was not sent (yet): %s", quote(l).c_str());
		return;
	}
	Str pf = "PROCESS_FILE;";
	if (had && key.compare(0, pf.size(), pf) == 0) {
		size_t e = key.find(';', pf.size());
		Str path = key.substr(pf.size(), e == Str::npos ? Str::npos : e - pf.size());
		Str flag = e == Str::npos ? "" : key.substr(e + 1);
		if (flag != "1\n") violate("P12", "PROCESS_FILE command %s does not ask for deletion", quote(l).c_str());
		if (path.compare(0, tmp_dir.size() + 1, tmp_dir + "/") != 0) violate("P12", "dump file %s is not in %s", path.c_str(), tmp_dir.c_str());
		if (named.count(path)) { violate("P12", "dump file %s named twice", path.c_str()); violate("P01", "dump file %s named twice", path.c_str()); return; }
		named.insert(path); n_process_file++;
		probe("process_file");
		auto i = fs_get(path);
		if (!i || i->type != Inode::REG) { violate("P12", "PROCESS_FILE names %s, which does not exist", path.c_str()); return; }
		if (i->wr_open > 0) violate("P12", "PROCESS_FILE names %s, which is still open for writing", path.c_str());
		if ((i->mode & 077) != 0) violate("P12", "dump file %s has mode %o", path.c_str(), (unsigned)i->mode);
		if (W->failed_dumps.count(path)) violate("P12", "PROCESS_FILE names %s, whose creation failed (%s)", path.c_str(), W->failed_dumps[path].c_str());
		Str d = i->data;
		if (!d.empty() && d.back() != '\n') violate("P12", "dump file %s (%zu bytes) does not end with a whole command: ...%s", path.c_str(), d.size(), quote(d.size() > 80 ? d.substr(d.size() - 80) : d).c_str());
		if (d.find('\0') != Str::npos) violate("P12", "dump file %s has a hole", path.c_str());
		std::vector<Cmd *> content;
		size_t a = 0, b;
		while ((b = d.find('\n', a)) != Str::npos) {
			size_t before = content.size(); int pfs = n_process_file;
			line(d.substr(a, b - a + 1), true, path, w, &content);
			if (content.size() == before && n_process_file == pfs) violate("P12", "dump file %s holds something that is no command: %s", path.c_str(), quote(d.substr(a, b - a + 1)).c_str());
			else if (content.size() > before && content.back()->t_sent < 0) violate("P12", "dump file %s holds a command that was not received completely", path.c_str());
			a = b + 1;
		}
		if (content.size() > 20) probe("dump.many_commands");
		dumps.push_back(content);
		return;
	}
	violate(via ? "P12" : "P01", "%s received something no client sent: %s", via ? dump.c_str() : "the command file", quote(l).c_str());
	if (via) violate("P01", "%s received something no client sent: %s", dump.c_str(), quote(l).c_str());
	else violate("P02", "the command file received something that is not one whole command: %s", quote(l).c_str());
	violate("P03", "something that was not submitted reached the monitoring daemon: %s", quote(l).c_str());
}

void Ledger::on_write(const FifoWrite &w) {
	if (w.foreign) return;
	if (w.data.size() > PIPE_BUF) violate("P02", "write of %zu bytes to the command file, more than the atomic pipe size", w.data.size());
	if (w.data.empty()) return;
	if (w.data.back() != '\n') violate("P02", "write to the command file ends in the middle of a command: %s", quote(w.data.size() > 80 ? w.data.substr(w.data.size() - 80) : w.data).c_str());
	size_t a = 0, b; int lines = 0;
	while (a < w.data.size()) {
		b = w.data.find('\n', a);
		if (b == Str::npos) b = w.data.size() - 1;
		line(w.data.substr(a, b - a + 1), false, "", w, nullptr);
		a = b + 1; lines++;
	}
	if (lines > 1) probe("fifo.several_commands_per_write");
	if (w.data.size() > 4000) probe("fifo.write_near_limit");
	n_direct += lines;
}
void ledger_init(const SrvCfg &c) {
	L = new Ledger; L->tmp_dir = c.tmp;
	W->on_fifo_write = [](const FifoWrite &w) { L->on_write(w); };
}
void check_delivery(const Str &prop, double) {
	int missing = 0; Cmd *first = nullptr;
	for (auto &c : L->v) if (c->t_ack >= 0 && !c->delivered && !c->excused) { missing++; if (!first) first = c.get(); }
	if (missing) violate(prop, "%d acknowledged command(s) never delivered, first: %s (acknowledged at %.3f)", missing, quote(first->key).c_str(), first->t_ack);
}
void check_order() {
	std::vector<Cmd *> d;
	for (auto &c : L->v) if (c->delivered == 1 && c->t_ack >= 0) d.push_back(c.get());
	std::sort(d.begin(), d.end(), [](Cmd *a, Cmd *b) { return a->order < b->order; });
	// a before b in acceptance (a acknowledged before b was sent) must not be delivered after b.
	auto scan = [](const std::vector<Cmd *> &v, const char *what) {
		double min_ack = 1e18; // over commands delivered later
		Cmd *mc = nullptr;
		for (size_t i = v.size(); i-- > 0;) {
			if (mc && min_ack < v[i]->t_first) { violate("P15", "order reversed in %s: %s (acknowledged at %.6f) came after %s (sent from %.6f)", what, quote(mc->key).c_str(), min_ack, quote(v[i]->key).c_str(), v[i]->t_first); return; }
			if (v[i]->t_ack < min_ack) { min_ack = v[i]->t_ack; mc = v[i]; }
		}
	};
	std::vector<Cmd *> direct;
	for (auto c : d) if (!c->via_dump) direct.push_back(c);
	scan(direct, "the command file");
	for (auto &dv : L->dumps) {
		std::vector<Cmd *> x;
		for (auto c : dv) if (c->t_ack >= 0) x.push_back(c);
		scan(x, "a dump file");
	}
	if (direct.size() > 10) probe("order.direct>10");
}

// ---------------------------------------------------------------- protocol reference model
static Str up4(const Str &l) { Str r; for (size_t i = 0; i < l.size() && i < 4; i++) r += (char)toupper((unsigned char)l[i]); return r; }
static std::vector<Str> words(const Str &l) {
	std::vector<Str> v; size_t i = 0;
	while (i < l.size()) {
		while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++;
		size_t a = i;
		while (i < l.size() && l[i] != ' ' && l[i] != '\t') i++;
		if (i > a) v.push_back(l.substr(a, i - a));
	}
	return v;
}
// st: 0 before the session is established, 1 after it
Str proto_model(int &st, const Str &line, size_t max_cmd, size_t &need, bool &close) {
	Str v = up4(line); auto w = words(line);
	need = 0; close = false;
	if (st == 0) {
		if (v == "MOIN") {
			if (w.size() != 3) return "FAIL";
			if (strtol(w[1].c_str(), nullptr, 10) < 1) return "FAIL";
			st = 1; return "MOIN 1";
		}
		if (v == "PING") { close = true; return "PONG 1"; }
	} else {
		if (v == "NOOP") return "OKAY";
		if (v == "PUSH") {
			if (w.size() != 2) return "FAIL";
			const Str &n = w[1];
			size_t i = 0; bool neg = false;
			if (i < n.size() && (n[i] == '-' || n[i] == '+')) { neg = n[i] == '-'; i++; }
			unsigned __int128 x = 0; bool any = false, big = false;
			for (; i < n.size() && isdigit((unsigned char)n[i]); i++) { any = true; if (x < ((unsigned __int128)1 << 100)) x = x * 10 + (unsigned)(n[i] - '0'); else big = true; }
			if (!any || neg || (x == 0 && !big)) return "FAIL";
			if (big || x >= 2147483647 || (max_cmd > 0 && x > max_cmd)) return "FAIL";
			need = (size_t)x;
			return "OKAY";
		}
	}
	if (v == "QUIT") { close = true; return "OKAY"; }
	if (v == "BAIL") { close = true; return ""; }
	return "FAIL";
}

// ---------------------------------------------------------------- sessions
Session::Session(const Str &nm, const SrvCfg &c, const Str &id_, const Str &pw) : name(nm), ident(id_), cfg(&c), rng(W->seed, "sess:" + nm) {
	p = new_peer(nm); p->identity = id_; p->psk = pw;
	id = (int)g_sess.size();
}
SessP new_session(const Str &nm, const SrvCfg &c, const Str &ident, const Str &pw) {
	auto s = std::make_shared<Session>(nm, c, ident, pw);
	g_sess.push_back(s);
	return s;
}
int Session::pushes() const { int n = 0; for (auto &r : script) if (r.k == RQ_PUSH) n++; return n; }
void Session::finish(bool ok, const Str &why) {
	if (done) return;
	done = true; finished_ok = ok; failed = !ok; t_done = W->now; fail_reason = why;
	trace("%s: session %s %s", name.c_str(), ok ? "complete" : "failed", why.c_str());
	if (on_done) { auto f = on_done; on_done = nullptr; f(); }
}
void Session::start(double at) {
	ev_at(at, [this] {
		t0 = W->now; started = true;
		if (on_started) on_started();
		p->on_ready = [this] { step(); };
		p->on_line = [this](const Str &l) { line(l); };
		p->on_closed = [this] {
			if (done) return;
			if (st == S_END && !line_pending) finish(p->close_notify || !expect_close, p->close_notify ? "" : "no close_notify");
			else finish(false, fmt("connection closed%s%s%s%s", p->close_notify ? " (close_notify)" : "", p->rst ? " (reset)" : "", p->refused ? " (refused)" : "", p->tls_error ? " (TLS error)" : ""));
		};
		p->connect(port);
	});
}
void Session::step() {
	if (done || p->dead()) return;
	if (pos >= script.size()) { if (st != S_END) { st = S_END; expect_close = false; } return; }
	Req &r = script[pos];
	if (r.k == RQ_WAIT) { pos++; ev_after(r.wait, [this] { step(); }); return; }
	Str out;
	int ps = st == S_HAND ? 0 : 1; bool close = false; need = 0;
	if (r.k == RQ_LINE) {
		expect = proto_model(ps, r.line, cfg->max_cmd < 0 ? 16384 : (size_t)cfg->max_cmd, need, close);
		out = r.line + (crlf ? "\r\n" : "\n");
		cur = r.cmd; cur_data = r.data;
	} else if (r.k == RQ_PUSH) {
		Str l = fmt("PUSH %zu", r.data.size());
		expect = proto_model(ps, l, cfg->max_cmd < 0 ? 16384 : (size_t)cfg->max_cmd, need, close);
		out = l + (crlf ? "\r\n" : "\n");
		cur = r.cmd; cur_data = r.data;
	}
	if (r.k == RQ_PUSH && cur && p->c) { cur->peer = ident + "@" + p->c->client_addr; cur->sid = sid; }
	if (r.k == RQ_LINE && st == S_HAND && ps && r.line.compare(0, 7, "MOIN 1 ") == 0) {
		sid = r.line.substr(7);
		for (unsigned char ch : sid) if (ch <= ' ' || ch >= 127) { sid.clear(); break; }
	}
	pos++;
	if (ps) st = S_CONN;
	expect_close = close;
	if (close) st = S_END;
	line_pending = !expect.empty();
	t_req = W->now;
	send_held(out, nullptr);
}
void Session::send_held(const Str &d, std::function<void()> sent) {
	hold_until = -1;
	if (d.size() > 1 && hold_p > 0 && rng.chance(hold_p)) {
		size_t k = rng.chance(0.6) ? 1 : (size_t)rng.range(1, (int64_t)d.size() - 1);
		double dt = rng.chance(0.7) ? rng.real(0.01, 0.5) : rng.real(0.5, 3);
		Str rest = d.substr(d.size() - k);
		hold_until = W->now + dt;
		p->send(d.substr(0, d.size() - k));
		ev_after(dt, [this, rest, sent] { p->on_sent = [this, sent] { p->on_sent = nullptr; if (sent) sent(); }; p->send(rest); });
	} else { p->on_sent = [this, sent] { p->on_sent = nullptr; if (sent) sent(); }; p->send(d); }
}
void Session::mism(const char *prop, const Str &m) {
	violate(prop, "%s", m.c_str());
	for (auto &a : also) if (a != prop) violate(a, "%s", m.c_str());
}
void Session::line(const Str &l) {
	if (done) return;
	max_wait = std::max(max_wait, W->now - t_req);
	if (!line_pending) { if (bail_ok && l.compare(0, 5, "BAIL ") == 0) { st = S_END; finish(false, l); return; } mism("P07", fmt("%s: unsolicited response %s", name.c_str(), quote(l).c_str())); finish(false, "unsolicited response"); return; }
	if (W->now < hold_until && !(bail_ok && l.compare(0, 5, "BAIL ") == 0)) mism("P07", fmt("%s: response %s before the request was sent completely", name.c_str(), quote(l).c_str()));
	if (st == S_DATA) {
		if (p->sending || (cur && cur->t_sent < 0)) violate("P20", "%s: command data of %zu bytes answered (%s) before all of it was sent", name.c_str(), need, quote(l).c_str());
		// the answer to command data
		int al = cur ? (cur->allowed ? 1 : cur->excused ? -1 : 0) : -1;
		line_pending = false; st = S_CONN;
		if (l == "OKAY") {
			if (cur) { cur->t_ack = W->now; n_ok++; }
			if (al == 0) { violate("P03", "%s (identity %s): unauthorized command acknowledged: %s", name.c_str(), ident.c_str(), quote(cur_data).c_str()); violate("P04", "%s (identity %s) was allowed what only another identity may submit: %s", name.c_str(), ident.c_str(), quote(cur_data).c_str()); }
		} else if (l.compare(0, 5, "FAIL ") == 0 && l.size() > 5) {
			if (cur) cur->t_nak = W->now;
			if (al == 1 && !W->fcount.count("regex.fail")) { violate("P03", "%s (identity %s): permitted command refused (%s): %s", name.c_str(), ident.c_str(), l.c_str(), quote(cur_data).c_str()); violate("P07", "%s: permitted command refused: %s", name.c_str(), l.c_str()); violate("P04", "%s: identity %s was refused a command it may submit", name.c_str(), ident.c_str()); violate("P01", "%s: a permitted command was not acknowledged but refused: %s", name.c_str(), l.c_str()); for (auto &a : also) violate(a.c_str(), "%s: a permitted command was refused: %s", name.c_str(), l.c_str()); }
		} else {
			if (bail_ok && l.compare(0, 5, "BAIL ") == 0) { st = S_END; finish(false, l); return; }
			mism("P07", fmt("%s: response %s to command data", name.c_str(), quote(l).c_str()));
			finish(false, l); return;
		}
	} else {
		line_pending = false;
		bool ok = expect == "FAIL" ? l.compare(0, 5, "FAIL ") == 0 && l.size() > 5 : l == expect;
		if (!ok) {
			if (bail_ok && l.compare(0, 5, "BAIL ") == 0) { st = S_END; finish(false, l); return; }
			mism("P07", fmt("%s: request %zu (%s) answered %s, expected %s", name.c_str(), pos, pos && script[pos - 1].k == RQ_LINE ? quote(script[pos - 1].line, 60).c_str() : "PUSH", quote(l).c_str(), expect.c_str()));
			if (pos > 0 && (script[pos - 1].k == RQ_PUSH || up4(script[pos - 1].line) == "PUSH")) violate("P20", "%s: %s answered %s, expected %s", name.c_str(), script[pos - 1].k == RQ_PUSH ? fmt("PUSH %zu", script[pos - 1].data.size()).c_str() : quote(script[pos - 1].line).c_str(), quote(l).c_str(), expect.c_str());
			finish(false, l); return;
		}
		if (need > 0 && st != S_END) {
			st = S_DATA; line_pending = true; t_req = W->now;
			Str d = cur_data; d.resize(need, ' ');
			if (cur) cur->t_first = W->now;
			Cmd *c = cur;
			send_held(d, [c] { if (c && c->t_sent < 0) c->t_sent = W->now; });
			if (cur && p->rec_gap <= 0 && hold_until < 0) cur->t_sent = W->now;
			return;
		}
		if (st == S_END) return; // wait for the close
	}
	double th = rng.real(think_lo, think_hi);
	ev_after(th, [this] { step(); });
}
void expect_sessions_done(const Str &prop) {
	int bad = 0; Session *f = nullptr;
	for (auto &s : g_sess) if (s->started && s->must_succeed && !s->finished_ok) {
		TlsPeer *tp = s->p.get(); // a deliberately slow sender may still be at it
		if (!s->done && ((tp->rec_gap > 0 && !tp->sendq.empty()) || (tp->drip_gap > 0 && tp->outo < tp->outq.size()) || ((tp->rec_gap > 0 || tp->drip_gap > 0) && W->now - tp->t_last_tx < 2))) { probe("session.still_sending"); continue; }
		bad++; if (!f) f = s.get(); }
	if (bad) violate(prop, "%d well-behaved session(s) did not complete; first: %s (identity %s), request %zu of %zu, state %d, started %.3f, %s", bad, f->name.c_str(), f->ident.c_str(), f->pos, f->script.size(), (int)f->st, f->t0, f->done ? f->fail_reason.c_str() : fmt("no answer since %.3f", f->t_req).c_str());
}

// The server's log is an audit trail: one entry for each command queued or refused, which names its sender.
static size_t find_tag(const Str &s, size_t from, Str &tag) { // as made by uniq()
	for (size_t i = from; i + 8 <= s.size(); i++) {
		if (s[i] != 'u') continue;
		size_t k = i + 1; while (k < s.size() && isdigit((unsigned char)s[k])) k++;
		if (k < s.size() && s[k] == 'u' && k - i - 1 >= 6) { tag = s.substr(i, k - i + 1); return i; }
	}
	return Str::npos;
}
static Str one_line(Str t) { for (auto &ch : t) if (((unsigned char)ch < ' ' && ch != '\t') || ch == 127) ch = '?'; return t; }
void check_audit() {
	static const char *LV[] = {"FATAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"};
	static const char *const QD = "Queuing data from ", *const RD = "Refusing data from ";
	struct Ent { bool queued; const Str *l; size_t at; };
	std::unordered_map<Str, std::vector<Ent>> by;
	for (auto &n : W->nodes) {
		if (n->kind.compare(0, 6, "server") != 0) continue;
		for (auto &x : n->log) {
			const Str &l = x.text;
			for (unsigned char ch : l) if ((ch < ' ' && ch != '\t') || ch == 127) { violate("P26", "a log entry of %s contains the control character 0x%02x: %s", n->name.c_str(), ch, quote(l, 300).c_str()); break; }
			size_t a = 0; bool ok = false;
			if (l.compare(0, 9, "nsca-ng: ") == 0) a = 9;
			if (l.size() > 3 && l[0] == '<' && isdigit((unsigned char)l[1]) && l[2] == '>') { a = 3; ok = true; }
			else for (auto v : LV) { Str h = fmt("[%s] ", v); if (l.compare(a, h.size(), h) == 0) { a += h.size(); ok = true; break; } }
			if (!ok) { violate("P26", "%s logged something that isn't a log entry: %s", n->name.c_str(), quote(l, 300).c_str()); continue; }
			bool q = l.compare(a, strlen(QD), QD) == 0, r = l.compare(a, strlen(RD), RD) == 0;
			if (!q && !r) continue;
			if (l.find("from FORGED", a) == a + strlen(q ? QD : RD) - 5) violate("P26", "the log of %s names a client that doesn't exist: %s", n->name.c_str(), quote(l, 300).c_str());
			Str tag; if (find_tag(l, a, tag) != Str::npos) by[tag].push_back({q, &l, a});
		}
	}
	bool lost = false; for (auto &n : W->nodes) if (n->kind.compare(0, 6, "server") == 0 && n->signaled) lost = true;
	for (auto &c : L->v) {
		if (c->peer.empty() || c->text.find('\0') != Str::npos) continue;
		Str tag; size_t at = find_tag(c->text, 0, tag);
		if (at == Str::npos || c->peer.size() + c->sid.size() + at > 600) continue; // log messages have a limited length
		size_t nq = 0, nr = 0; auto it = by.find(tag);
		if (it != by.end()) for (auto &x : it->second) (x.queued ? nq : nr)++;
		const char *id = c->peer.c_str(); Str t = quote(c->text, 120);
		bool acked = c->t_ack >= 0, nak = c->t_nak >= 0 && c->t_first >= 0;
		if ((acked || c->delivered) && nq != 1) { violate("P26", "a command of %s, which was %s, has %zu log entries: %s", id, acked ? "acknowledged" : "delivered", nq, t.c_str()); continue; }
		if (nak && !lost && nr != 1) { violate("P26", "a refused command of %s has %zu log entries: %s", id, nr, t.c_str()); continue; }
		if ((acked || c->delivered) && nr) violate("P26", "a command of %s, which was acknowledged, was logged as refused: %s", id, t.c_str());
		if (nak && nq) violate("P26", "a refused command of %s was logged as queued: %s", id, t.c_str());
		if (nq + nr > 1) violate("P26", "a command of %s was logged %zu times: %s", id, nq + nr, t.c_str());
		if (it == by.end()) continue;
		const Ent &x = it->second[0];
		Str from = x.l->substr(x.at + strlen(x.queued ? QD : RD));
		if (from.compare(0, c->peer.size(), one_line(c->peer)) != 0 || from.compare(c->peer.size(), 6, " (ID: ") != 0) { violate("P26", "a command of %s was logged as coming from %s", id, quote(from, 200).c_str()); continue; }
		if (!c->sid.empty() && from.compare(c->peer.size() + 6, c->sid.size() + 3, c->sid + "): ") != 0) { violate("P26", "a command of %s, session %s, was logged as coming from %s", id, c->sid.c_str(), quote(from, 300).c_str()); continue; }
		size_t k = from.find("): "); if (c->sid.empty()) k = from.find("): ", c->peer.size()); else k = c->peer.size() + 6 + c->sid.size();
		if (k == Str::npos) continue;
		Str want = c->text; if (!want.empty() && want.back() == '\n') want.pop_back();
		if (k + 3 + want.size() > 680) want.resize(std::min(want.size(), 680 - std::min((size_t)680, k + 3)));
		if (from.compare(k + 3, want.size(), one_line(want)) != 0) violate("P26", "the command %s of %s was logged as %s", quote(want, 200).c_str(), id, quote(from.substr(k + 3), 200).c_str());
		probe(x.queued ? "audit.queued" : "audit.refused");
	}
}

static uint64_t g_uniq = 0;
int port_base() { static const int b[] = {7000, 10000, 65400, 800, 60, 32760}; return b[mix64(W->seed ^ 0x706f7274) % 6]; }
Str uniq() { return fmt("u%06llu", (unsigned long long)++g_uniq) + "u"; }
Str rand_text(Rng &g, size_t len, bool nasty) {
	static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:=/()%_-+#'|";
	Str r; r.reserve(len);
	uint64_t x = 0;
	for (size_t i = 0; i < len; i++) {
		if ((i & 7) == 0) x = g.u64();
		unsigned char b = (unsigned char)(x >> ((i & 7) * 8));
		if (nasty && b < 24) r += "\t\r\\\"\x80\xff\x01;]["[b % 10]; else r += al[b % 77];
	}
	return r;
}
Str mk_cmd(Rng &g, size_t len) {
	unsigned long ts = (unsigned long)(W->wall_off + W->now) - (unsigned long)g.range(0, 50);
	Str h = fmt("host%d", (int)g.range(1, 4)), s;
	if (g.chance(0.5)) s = fmt("[%lu] PROCESS_HOST_CHECK_RESULT;%s;%d;", ts, h.c_str(), (int)g.range(0, 3));
	else s = fmt("[%lu] PROCESS_SERVICE_CHECK_RESULT;%s;svc%d;%d;", ts, h.c_str(), (int)g.range(1, 3), (int)g.range(0, 3));
	s += uniq();
	if (len == 0) len = (size_t)g.range(60, 200);
	if (s.size() + 1 < len) s += rand_text(g, len - s.size() - 1);
	return s + "\n";
}
void add_push(SessP s, Rng &g, const Str &text, bool allowed) {
	(void)g;
	Req r; r.k = RQ_PUSH; r.data = text;
	Cmd *c = L->add(s->ident, text, allowed); c->session = s->id; c->seq = (int)s->script.size();
	r.cmd = c;
	s->script.push_back(r);
}
Str long_id(Rng &g, const Str &id) { // mostly unchanged; sometimes up to the maximum length TLS-PSK allows
	if (!g.chance(0.12)) return id;
	static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._@/";
	static const int m[] = {14, 30, 62, 126, 254, 255}; size_t n = (size_t)std::min<int64_t>(255, m[g.range(0, 5)] + g.range(0, 4));
	Str r = id; while (r.size() < n) r += al[g.u64() % strlen(al)];
	return r;
}
Str rand_pw(Rng &g, size_t lo) {
	static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#%&/()=?+-_.,;:<>|@$^ ";
	size_t n = (size_t)g.range((int64_t)lo, 20);
	if (g.chance(0.2)) n = (size_t)g.range(20, 120);
	if (g.chance(0.07)) { static const int m[] = {252, 508, 600}; n = (size_t)(m[g.range(0, 2)] + g.range(0, 8)); }
	Str r; for (size_t i = 0; i < n; i++) r += al[g.u64() % strlen(al)];
	return r;
}
SrvCfg base_cfg(Rng &g, int n_ids) {
	SrvCfg c;
	for (int i = 0; i < n_ids; i++) {
		AuthSec a; a.id = long_id(g, fmt("client%d", i)); a.pw = "pw-" + rand_pw(g);
		if (g.chance(0.5)) a.commands = {".+"}; else { a.hosts = {"host[0-9]+"}; a.services = {"svc[0-9]+@host[0-9]+"}; }
		c.auth.push_back(a);
	}
	return c;
}
void rand_net(Rng &g, NetProfile &np) {
	switch (g.range(0, 4)) {
	case 0: np = NetProfile{0.0001, 0.0002, 1460, 1460, 65536}; break;
	case 1: np = NetProfile{0.002, 0.005, 1, 1460, 65536}; break;
	case 2: np = NetProfile{0.02, 0.05, 1, 300, 16384}; break;
	case 3: np = NetProfile{0.1, 0.2, 200, 1460, 8192}; break;
	default: np = NetProfile{0.0005, 0.02, 1, 40, 4096}; break;
	}
}
void rand_peer(Rng &g, TlsPeer &p) {
	rand_net(g, p.np);
	p.tls = g.chance(0.3) ? 12 : g.chance(0.3) ? 13 : 0;
	if (g.chance(0.4)) { p.rec_max = (size_t)g.range(1, 60); p.rec_gap = g.chance(0.5) ? 0 : g.real(0.0001, 0.02); }
	else if (g.chance(0.3)) p.rec_max = (size_t)g.range(60, 2000);
}
SessP simple_session(const Str &nm, const SrvCfg &c, Rng &g, double at, int n_cmds, size_t maxlen) {
	const AuthSec &a = c.auth[(size_t)g.range(0, (int64_t)c.auth.size() - 1)];
	auto s = new_session(nm, c, a.id, c.pw_of(a.id));
	rand_peer(g, *s->p);
	if (maxlen > 1000) { s->p->rec_max = std::max(s->p->rec_max, maxlen / 60); s->p->np.mss_max = std::max(s->p->np.mss_max, 400); }
	s->crlf = g.chance(0.7);
	s->think_hi = g.chance(0.5) ? 0.001 : g.real(0.01, 0.5);
	s->script.push_back({RQ_LINE, "MOIN 1 " + nm, nullptr, "", 0});
	for (int i = 0; i < n_cmds; i++) {
		Str t = mk_cmd(g, (size_t)g.range(60, (int64_t)std::max((size_t)80, maxlen)));
		add_push(s, g, t, true);
	}
	s->script.push_back({RQ_LINE, "QUIT", nullptr, "", 0});
	s->start(at);
	return s;
}
void rand_sched(Rng &g) {
	static const double pp[] = {0, 0.01, 0.05, 0.2, 0.6};
	W->preempt_p = pp[g.range(0, 4)];
	W->sys_cost = g.chance(0.3) ? 2e-5 : 2e-6;
	rand_net(g, W->net);
	W->aio_max = g.chance(0.3) ? 0.5 : 0.005;
}
void base_faults(Rng &g, double sc) {
	auto set = [&](const char *k, double p) { if (g.chance(0.6)) W->fp[k] = p * sc; };
	set("sock.eagain", 0.05); set("sock.eintr", 0.02); set("sock.short_read", 0.15); set("sock.eagain_w", 0.05); set("sock.short_write", 0.15);
	set("epoll.eintr", 0.03); set("net.delay", 0.01); set("fifo.eintr", 0.05); set("fifo.eagain", 0.05); set("open.eintr", 0.1);
	set("accept.emfile", 0.05); set("timer.late", 0.05);
}
bool srv_alive(Node *n) { return n->started && !n->exited; }
void server_must_live(Node *n) {
	W->at_end.push_back([n] { if (n->exited) violate("EXIT", "%s ended at t=%.3f with status %d%s: %s", n->name.c_str(), n->exit_time, n->exit_code, n->signaled ? fmt(" (signal %d)", n->term_sig).c_str() : "", n->log.empty() ? "" : n->log.back().text.c_str()); });
}

// ---------------------------------------------------------------- standard run layout
static int g_op = 0;
bool op(Rng &g, Rng &h, const Str &text) { h = Rng(g.u64()); return op_enabled(g_op++, text); }
Env *env_begin(Rng &g, const SrvCfg &c, double active, double settle, double fault_scale, bool reader) {
	Env *e = new Env; e->c = c;
	rand_sched(g);
	Rng gf(g.u64()), gr(g.u64());
	base_faults(gf, fault_scale);
	world_fs(e->c); ledger_init(e->c);
	e->t0 = W->now; e->T1 = W->now + active; e->T2 = e->T1 + settle;
	e->rd = make_reader(e->c, reader ? 0 : e->T2 + 1e6, gr);
	e->srv = make_server("server", e->c);
	W->at_end.push_back([e] { Node *n = e->srv; if (e->must_live && n->exited) violate("EXIT", "%s ended at t=%.3f with status %d%s: %s", n->name.c_str(), n->exit_time, n->exit_code, n->signaled ? fmt(" (signal %d)", n->term_sig).c_str() : "", n->log.empty() ? "" : n->log.back().text.c_str()); });
	if (c.log_level >= 3) W->at_end.push_back(check_audit);
	W->end_time = e->T2;
	ev_at(e->T1, [e] {
		W->faults_on = false;
		for (auto &n : W->nodes) n->stalled_until = 0;
		for (auto &k : W->conns) k->hold_until = 0;
		e->rd->paused = false; e->rd->interval = 0.001; e->rd->chunk = 65536;
		auto i = fs_get(e->c.fifo);
		if (!i || i->type != Inode::FIFO) { if (i) fs_rm(e->c.fifo); i = fs_mk(e->c.fifo, Inode::FIFO, "", 0660); }
		i->cap = 65536;
		if (e->rd->open && e->rd->ino != i) e->rd->do_close();
		if (!e->rd->open) e->rd->do_open();
		trace("-- faults stop, everything heals --");
	});
	return e;
}
void reader_script(Env *e, Rng &g, int level) {
	Rng h;
	if (g.chance(0.3)) { auto i = fs_get(e->c.fifo); if (i && i->type == Inode::FIFO) i->cap = (size_t)(g.chance(0.5) ? 4096 : 8192); }
	int n = level == 0 ? (int)g.range(0, 1) : (int)g.range(1, 4);
	for (int k = 0; k < n; k++) {
		double at = e->t0 + g.real(0.05, (e->T1 - e->t0) * 0.7), dur = g.chance(0.5) ? g.real(0.01, 2) : g.real(2, level == 2 ? 20 : 8);
		int kind = (int)g.range(0, level == 0 ? 1 : 2);
		if (!op(g, h, fmt("reader %s at %.3f for %.3f s", kind == 0 ? "slows down" : kind == 1 ? "pauses" : "closes the FIFO", at, dur))) continue;
		auto rd = e->rd;
		if (kind == 0) ev_at(at, [rd, dur] { double oi = rd->interval; size_t oc = rd->chunk; rd->interval = 0.05; rd->chunk = 700; note_fault("reader.slow", "reader"); ev_after(dur, [rd, oi, oc] { rd->interval = oi; rd->chunk = oc; }); });
		else if (kind == 1) ev_at(at, [rd, dur] { rd->paused = true; note_fault("reader.pause", "reader"); ev_after(dur, [rd] { rd->paused = false; }); });
		else ev_at(at, [rd, dur] { rd->do_close(); note_fault("reader.close", "reader"); ev_after(dur, [rd] { rd->do_open(); }); });
	}
}
void disturb_session(Env *e, Rng &g, SessP s) {
	(void)e;
	int kind = (int)g.range(0, 5); double after = g.real(0, 2.5), dur = g.real(0.1, 5);
	static const char *nm[] = {"resets", "closes abruptly", "half-closes", "stops sending", "shuts TLS down", "is partitioned"};
	Rng h;
	if (!op(g, h, fmt("%s %s %.3f s after its start%s", s->name.c_str(), nm[kind], after, kind == 5 ? fmt(" for %.3f s", dur).c_str() : ""))) return;
	if (kind != 5) s->must_succeed = false;
	s->on_started = [s, kind, after, dur] {
		ev_after(after, [s, kind, dur] {
			if (s->p->dead() || !s->p->c || s->done) return;
			switch (kind) {
			case 0: s->p->reset(); break;
			case 1: note_fault("peer.close", s->name); s->p->close_tcp(); break;
			case 2: note_fault("peer.halfclose", s->name); s->p->fin_tcp(); break;
			case 3: note_fault("peer.stall", s->name); s->p->muted = true; break;
			case 4: note_fault("peer.shutdown", s->name); s->p->shutdown_tls(); break;
			case 5: note_fault("net.partition", s->name); s->p->c->hold_until = W->now + dur; break;
			}
		});
	};
}

// ---------------------------------------------------------------- send_nsca
Str client_cfg(const Str &id, const Str &pw, const Str &server, int port, double timeout, int delay) {
	W->secret(pw);
	Str r = "identity = " + cfg_quote(id) + "\npassword = " + cfg_quote(pw) + "\nserver = " + cfg_quote(server) + fmt("\nport = \"%d\"\n", port);
	if (timeout >= 0) r += fmt("timeout = %d\n", (int)timeout);
	if (delay > 0) r += fmt("delay = %d\n", delay);
	return r;
}
CliRun make_client(const Str &name, const Str &conf, const std::vector<Str> &args, double at) {
	CliRun c; c.name = name;
	std::vector<Str> av = {"send_nsca", "-c", conf};
	for (auto &a : args) av.push_back(a);
	c.n = new_node(name, "client", av);
	c.in = of_new(OFile::STDIN);
	c.n->fds[0] = c.in;
	Node *n = c.n;
	if (at <= 0) start_node(n); else ev_at(at, [n] { start_node(n); });
	return c;
}
void feed_stdin(CliRun &c, Rng &g, const Str &input, bool pipe, double pause) {
	c.input = input;
	OFile *f = c.in;
	if (!pipe) { f->stdin_kind = 1; f->in = input; f->in_eof = true; return; }
	double t = W->now; size_t off = 0; size_t piece = (size_t)(g.chance(0.4) ? 1 + g.range(0, 4) : g.range(10, 600));
	if (g.chance(0.2)) piece = input.size() + 1;
	size_t maxp = std::max((size_t)1, input.size() / 200);
	piece = std::max(piece, maxp);
	while (off < input.size()) {
		size_t k = std::min((size_t)g.range(1, (int64_t)piece), input.size() - off);
		Str s = input.substr(off, k); off += k;
		if (t <= W->now) f->in += s; else ev_at(t, [f, s] { f->in += s; });
		if (g.chance(0.7)) t += g.real(0, pause);
	}
	ev_at(t, [f] { f->in_eof = true; });
}
