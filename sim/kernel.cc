// Deterministic simulator: scheduler, virtual time, faults, TCP, FIFOs, files, signals.
#include "core.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <algorithm>
#include <aio.h>
#include <openssl/err.h>
#include <openssl/crypto.h>

World *W = nullptr;
__thread Node *g_node = nullptr;
__thread Rng *g_actor_rng = nullptr;
__thread bool g_in_sim = false;

static sem_t g_ctl;

uint64_t mix64(uint64_t z) {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
uint64_t hash_str(const char *s, uint64_t h) {
	for (; *s; s++) { h ^= (unsigned char)*s; h *= 0x100000001b3ULL; }
	return h;
}
static uint64_t hash_mem(const char *s, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
	for (size_t i = 0; i < n; i++) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ULL; }
	return h;
}
Str fmt(const char *f, ...) {
	va_list ap; va_start(ap, f); char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
	Str s(p, n < 0 ? 0 : (size_t)n); free(p); return s;
}
Str quote(const Str &s, size_t max) {
	Str r = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = (unsigned char)s[i];
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
		else if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) r += fmt("\\x%02x", c);
		else r += (char)c;
	}
	r += "\"";
	if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
	return r;
}
void tr_mix(uint64_t v) { W->thash = mix64(W->thash ^ v) + 0x9e3779b97f4a7c15ULL; }
void trace(const char *f, ...) {
	if (!W->keep_trace || W->trace.size() >= W->trace_cap) return;
	va_list ap; va_start(ap, f); char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
	if (n >= 0) W->trace.push_back(fmt("%.6f ", W->now) + p);
	static const bool live = getenv("NSCA_SIM_LIVE"); // for runs that end in a crash
	if (live && n >= 0) fprintf(stderr, "%.6f %s\n", W->now, p);
	free(p);
}
void violate(const Str &prop, const char *f, ...) {
	va_list ap; va_start(ap, f); char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
	Str m(p, n < 0 ? 0 : (size_t)n); free(p);
	if (W->viols.size() < 50) W->viols.push_back({prop, m});
	trace("VIOLATION %s: %s", prop.c_str(), m.c_str());
}
void probe(const Str &name) { W->probes[name]++; }
void note_fault(const Str &kind, const Str &ent) {
	W->fcount[kind]++;
	if (W->ftrace.size() < 20000) W->ftrace.push_back({kind, ent, 0, W->now});
	trace("fault %s on %s", kind.c_str(), ent.c_str());
	tr_mix(hash_str(kind.c_str()));
}
bool op_enabled(int id, const Str &text) {
	if (W->opmask.count(id)) return false;
	W->ops.push_back({id, text});
	return true;
}

// ---------------------------------------------------------------- faults
bool fault(const char *kind, const Str &ent) {
	if (!W->faults_on) return false;
	auto it = W->fp.find(kind);
	if (it == W->fp.end() || it->second <= 0) return false;
	Str key = Str(kind) + ":" + ent;
	uint64_t n = W->fctr[key]++;
	uint64_t h = mix64(mix64(W->seed ^ hash_str(key.c_str())) + n * 0x9e3779b97f4a7c15ULL);
	if ((double)(h >> 11) / 9007199254740992.0 >= it->second * W->fault_scale) return false;
	if (W->fmask.count(kind) || W->fmask.count(key + ":" + std::to_string(n))) return false;
	W->fcount[kind]++;
	if (W->ftrace.size() < 20000) W->ftrace.push_back({kind, ent, n, W->now});
	trace("fault %s on %s (#%llu)", kind, ent.c_str(), (unsigned long long)n);
	tr_mix(h);
	return true;
}
double fault_real(const char *kind, const Str &ent, double lo, double hi) {
	Str key = Str(kind) + "@" + ent;
	uint64_t n = W->fctr[key]++;
	uint64_t h = mix64(mix64(W->seed ^ hash_str(key.c_str())) + n * 0x9e3779b97f4a7c15ULL);
	return lo + (hi - lo) * ((double)(h >> 11) / 9007199254740992.0);
}
int64_t fault_int(const char *kind, const Str &ent, int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	Str key = Str(kind) + "@" + ent;
	uint64_t n = W->fctr[key]++;
	uint64_t h = mix64(mix64(W->seed ^ hash_str(key.c_str())) + n * 0x9e3779b97f4a7c15ULL);
	return lo + (int64_t)(h % (uint64_t)(hi - lo + 1));
}

// ---------------------------------------------------------------- events
struct Ev { double t; uint64_t seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> g_q;
static uint64_t g_seq = 0;

void ev_at(double t, std::function<void()> f, const char *) {
	if (t < W->now) t = W->now;
	g_q.push(new Ev{t, g_seq++, std::move(f)});
}
void ev_after(double dt, std::function<void()> f, const char *what) { ev_at(W->now + dt, std::move(f), what); }

// ---------------------------------------------------------------- nodes
Node *new_node(const Str &name, const Str &kind, const std::vector<Str> &argv) {
	Node *n = new Node;
	n->name = name; n->kind = kind; n->argv = argv; n->idx = (int)W->nodes.size();
	n->pid = (int)W->next_pid++;
	n->rnd = mix64(W->seed ^ hash_str(name.c_str()) ^ 0x5151);
	sem_init(&n->baton, 0, 0);
	sigemptyset(&n->blocked);
	W->nodes.emplace_back(n);
	return n;
}

ProgCopy *prog_take(const Str &kind); // main.cc

static void close_all(Node *n);
FILE *node_file(Node *n, bool err); // interpose.cc
void node_reset_process(Node *n);   // interpose.cc
extern "C" int sim_close(Node *n, int fd);

static void aio_cancel_all(Node *n) {
	for (auto &p : n->aio) p.second->cancelled = true;
	n->aio.clear();
}

static void *node_thread(void *arg) {
	Node *n = (Node *)arg;
	while (sem_wait(&n->baton) == -1) continue;
	g_node = n; g_in_sim = true;
	for (;;) {
		if (setjmp(n->top) == 0) {
			if (n->killed) longjmp(n->top, 1);
			n->do_exec = false;
			node_reset_process(n);
			int r;
			if (n->entry) r = n->entry(n);
			else {
				n->prog = prog_take(n->kind);
				n->cargv.clear();
				for (auto &a : n->argv) n->cargv.push_back(strdup(a.c_str()));
				n->cargv.push_back(nullptr);
				r = n->prog->main((int)n->argv.size(), n->cargv.data());
			}
			node_exit(r);
		}
		if (n->do_exec && !n->killed) {
			aio_cancel_all(n);
			for (auto it = n->sig.begin(); it != n->sig.end();)
				if (it->second.ign) ++it; else it = n->sig.erase(it);
			n->atexits.clear();
			n->in_handler = 0;
			std::vector<int> ce;
			for (auto &p : n->fds) if (p.second->cloexec) ce.push_back(p.first);
			for (int fd : ce) sim_close(n, fd);
			n->incarnation++;
			ERR_clear_error();
			trace("%s: re-executed", n->name.c_str());
			probe("exec");
			continue;
		}
		break;
	}
	aio_cancel_all(n);
	close_all(n);
	n->pending.clear();
	n->exited = true; n->exit_time = W->now; n->st = Node::EXITED;
	trace("%s: process ended, status %d%s", n->name.c_str(), n->exit_code, n->signaled ? fmt(" (signal %d)", n->term_sig).c_str() : "");
	tr_mix(0xdead ^ (uint64_t)n->exit_code ^ ((uint64_t)n->idx << 32));
	g_node = nullptr;
	sem_post(&g_ctl);
	return nullptr;
}

void start_node(Node *n) {
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 8 << 20);
	n->started = true; n->st = Node::READY; n->start_time = W->now;
	if (W->mem_track && !n->mem) n->mem = new std::unordered_map<void *, size_t>;
	if (pthread_create(&n->th, &a, node_thread, n) != 0) { perror("pthread_create"); _exit(70); }
	pthread_attr_destroy(&a);
	trace("start %s (pid %d)", n->name.c_str(), n->pid);
}

static void to_controller(Node *n) {
	sem_post(&g_ctl);
	while (sem_wait(&n->baton) == -1) continue;
	if (n->killed) longjmp(n->top, 1);
}

static void run_node(Node *n) {
	W->nswitch++;
	W->ihash = mix64(W->ihash ^ (uint64_t)(n->idx + 1));
	n->st = Node::READY;
	sem_post(&n->baton);
	while (sem_wait(&g_ctl) == -1) continue;
	if (n->st == Node::EXITED && n->on_exit) { auto f = n->on_exit; n->on_exit = nullptr; f(n); }
}

static bool sig_deliverable(Node *n) {
	for (auto &si : n->pending) if (!sigismember(&n->blocked, si.si_signo)) return true;
	return false;
}

static bool runnable(Node *n) {
	if (!n->started || n->st == Node::EXITED || n->st == Node::IDLE) return false;
	if (n->killed) return true;
	if (n->stalled_until > W->now) return false;
	if (n->st == Node::READY) return true;
	if (n->deadline >= 0 && n->deadline <= W->now) return true;
	if (sig_deliverable(n)) return true;
	return n->wake && n->wake();
}

void run_world() {
	sem_init(&g_ctl, 0, 0);
	g_in_sim = true;
	std::vector<Node *> r;
	while (!W->ended) {
		bool did = false;
		while (!g_q.empty() && g_q.top()->t <= W->now && !W->ended) {
			Ev *e = g_q.top(); g_q.pop();
			e->f(); delete e; did = true; W->nevents++;
			if (++W->steps > W->max_steps) break;
		}
		if (W->ended) break;
		(void)did;
		if (W->steps > W->max_steps) { violate("LIVELOCK", "step limit exceeded at t=%.6f", W->now); break; }
		r.clear();
		for (auto &n : W->nodes) if (runnable(n.get())) r.push_back(n.get());
		if (W->monitor) W->monitor();
		if (!r.empty()) {
			uint64_t h = mix64(W->seed * 31 + W->sched_pick++ * 0x9e3779b97f4a7c15ULL);
			run_node(r[h % r.size()]);
			continue;
		}
		double t = W->end_time;
		if (!g_q.empty()) t = std::min(t, g_q.top()->t);
		for (auto &n : W->nodes) {
			if (!n->started || n->st == Node::EXITED) continue;
			if (n->stalled_until > W->now) t = std::min(t, n->stalled_until);
			else if (n->st == Node::BLOCKED && n->deadline >= 0) t = std::min(t, n->deadline);
		}
		if (t >= W->end_time) { W->now = W->end_time; W->ended = true; break; }
		if (t > W->now) W->now = t;
	}
	g_in_sim = false;
}

void stall_node(Node *n, double dur) {
	if (n->st == Node::EXITED) return;
	n->stalled_until = std::max(n->stalled_until, W->now + dur);
	note_fault("stall", n->name);
}

int node_syscall_enter(const char *name, bool can_preempt) {
	Node *n = g_node;
	if (n->killed) longjmp(n->top, 1);
	W->steps++; n->nsys++; n->sys_since_block++;
	uint64_t hn = hash_str(name);
	W->ihash = mix64(W->ihash ^ hn ^ ((uint64_t)n->idx << 56));
	tr_mix(hn ^ (uint64_t)n->idx);
	uint64_t h = mix64(n->rnd + n->nsys * 0x9e3779b97f4a7c15ULL);
	W->now += W->sys_cost * (0.5 + (double)(h & 1023) / 1024.0) * n->slow_factor;
	if (n->sys_since_block > n->max_sys_since_block) n->max_sys_since_block = n->sys_since_block;
	if (n->sys_since_block == W->max_spin) {
		violate("SPIN", "%s made %llu system calls without ever waiting (last: %s)", n->name.c_str(), (unsigned long long)n->sys_since_block, name);
	}
	if (n->in_handler) return 0;
	bool y = false;
	if (can_preempt) {
		if (W->preempt_p > 0 && (double)((h >> 10) & 0xfffff) / 1048576.0 < W->preempt_p) y = true;
		else if (!g_q.empty() && g_q.top()->t <= W->now) y = true;
		else if (n->stalled_until > W->now) y = true;
	}
	if (y) { n->st = Node::READY; to_controller(n); }
	if (!n->pending.empty()) deliver_signals(n);
	return 0;
}

void node_block(std::function<bool()> wake, double deadline) {
	Node *n = g_node;
	n->wake = wake; n->deadline = deadline;
	n->st = Node::BLOCKED;
	double t0 = W->now;
	to_controller(n);
	n->st = Node::READY; n->wake = nullptr; n->deadline = -1;
	if (W->now > t0) { n->sys_since_block = 0; n->last_block_time = W->now; }
}

bool deliver_signals(Node *n) {
	bool ran = false;
	for (size_t i = 0; i < n->pending.size();) {
		siginfo_t si = n->pending[i];
		if (sigismember(&n->blocked, si.si_signo)) { i++; continue; }
		n->pending.erase(n->pending.begin() + (long)i);
		auto it = n->sig.find(si.si_signo);
		if (it != n->sig.end() && it->second.ign) continue;
		if (it == n->sig.end() || (it->second.h == nullptr && it->second.sa == nullptr)) {
			if (si.si_signo == SIGCHLD || si.si_signo == SIGURG || si.si_signo == SIGWINCH || si.si_signo == SIGCONT) continue;
			trace("%s: killed by signal %d", n->name.c_str(), si.si_signo);
			n->signaled = true; n->term_sig = si.si_signo; n->exit_code = 128 + si.si_signo; n->killed = true;
			longjmp(n->top, 1);
		}
		SigAct a = it->second;
		sigset_t old = n->blocked;
		sigaddset(&n->blocked, si.si_signo);
		n->in_handler++;
		int e = errno;
		trace("%s: signal %d handled", n->name.c_str(), si.si_signo);
		if (a.flags & SA_SIGINFO) a.sa(si.si_signo, &si, nullptr); else a.h(si.si_signo);
		errno = e;
		n->in_handler--;
		n->blocked = old;
		ran = true;
		i = 0;
	}
	return ran;
}

void queue_signal(Node *n, const siginfo_t &si) {
	if (n->st == Node::EXITED || !n->started) return;
	auto it = n->sig.find(si.si_signo);
	if (it != n->sig.end() && it->second.ign) return;
	if (si.si_signo < SIGRTMIN) // standard signals do not queue
		for (auto &p : n->pending) if (p.si_signo == si.si_signo) return;
	n->pending.push_back(si);
}
void signal_node(Node *n, int sig) {
	siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; si.si_code = SI_USER;
	trace("signal %d sent to %s", sig, n->name.c_str());
	queue_signal(n, si);
}
void kill_node(Node *n, int sig) {
	if (!n->started || n->st == Node::EXITED) return;
	trace("%s: killed (%d)", n->name.c_str(), sig);
	n->killed = true; n->signaled = true; n->term_sig = sig; n->exit_code = 128 + sig;
}

void node_exit(int code) {
	Node *n = g_node;
	n->exit_code = code & 0xff;
	while (!n->atexits.empty()) { auto f = n->atexits.back(); n->atexits.pop_back(); f(); }
	longjmp(n->top, 1);
}

// ---------------------------------------------------------------- descriptions
OFile *of_new(OFile::Type t) { OFile *f = new OFile; f->type = t; f->refs = 1; f->serial = W->next_of++; return f; }

static void listener_close(OFile *f) {
	auto it = W->listeners.find(f->lport);
	if (it != W->listeners.end() && it->second == f) W->listeners.erase(it);
	for (auto c : f->backlog) tcp_rst(c, 1);
	f->backlog.clear();
}
void of_unref(OFile *f) {
	if (--f->refs > 0) return;
	switch (f->type) {
	case OFile::TCP: if (f->conn) tcp_close(f->conn, f->side); break;
	case OFile::LISTEN: listener_close(f); break;
	case OFile::FIFO_W: f->ino->writers--; if (f->ino->readers == 0 && f->ino->writers == 0) f->ino->data.clear(); break;
	case OFile::FIFO_R: f->ino->readers--; if (f->ino->readers == 0 && f->ino->writers == 0) f->ino->data.clear(); break;
	case OFile::REG: if (f->ino->lock == f) f->ino->lock = nullptr; f->ino->shared.erase(f); if ((f->flags & 3) != 0) f->ino->wr_open--; break;
	default: break;
	}
	f->type = OFile::NUL; // leaked on purpose: other references compare addresses
}
static void close_all(Node *n) {
	std::vector<int> v;
	for (auto &p : n->fds) v.push_back(p.first);
	for (int fd : v) sim_close(n, fd);
}

// ---------------------------------------------------------------- TCP
struct Seg { int type; Str data; }; // 0 data 1 FIN 2 RST
static std::map<uint64_t, std::deque<Seg>> g_segs; // (conn id * 2 + receiving side)

void tcp_notify(TcpEnd &e) {
	if (e.on_event && !e.notify_pending) {
		e.notify_pending = true;
		TcpEnd *p = &e;
		ev_at(W->now, [p] { p->notify_pending = false; if (p->on_event) p->on_event(); });
	}
}

static void seg_arrive(TcpConn *c, int to);
static void seg_sched(TcpConn *c, int to, double t) { ev_at(t, [c, to] { seg_arrive(c, to); }); }

static double seg_time(TcpConn *c, int from) {
	TcpEnd &e = c->e[from];
	uint64_t h = mix64(W->seed ^ mix64(hash_str(c->label.c_str()) * 4 + (uint64_t)from) ^ (e.seg_no++ * 0x9e3779b97f4a7c15ULL));
	double u = (double)(h >> 11) / 9007199254740992.0;
	double t = W->now + c->np.lat + c->np.jitter * u;
	if (from == 1 || from == 0) {
		if (fault("net.delay", c->label)) t += fault_real("net.delay.v", c->label, 0.05, 2.5);
	}
	if (t <= e.last_arrival) t = e.last_arrival + 1e-7;
	e.last_arrival = t;
	return t;
}
static void tcp_put(TcpConn *c, int from, Seg s) {
	int to = 1 - from;
	double t = seg_time(c, from);
	g_segs[c->id * 2 + (uint64_t)to].push_back(std::move(s));
	seg_sched(c, to, t);
}
static void rst_arrive(TcpConn *c, int to) {
	TcpEnd &e = c->e[to];
	if (e.dead) return;
	e.dead = true; e.so_error = e.closed ? 0 : ECONNRESET; e.established = true;
	trace("%s: RST reaches %s side", c->label.c_str(), to ? "server" : "client");
	tcp_notify(e);
}
static void seg_arrive(TcpConn *c, int to) {
	auto &q = g_segs[c->id * 2 + (uint64_t)to];
	if (q.empty()) return;
	if (W->now < c->hold_until) { seg_sched(c, to, c->hold_until); return; }
	Seg s = std::move(q.front()); q.pop_front();
	TcpEnd &e = c->e[to], &o = c->e[1 - to];
	if (s.type == 0) {
		o.inflight -= std::min(o.inflight, s.data.size());
		if (e.dead) { return; }
		if (e.closed) { trace("%s: data for closed socket, sending RST", c->label.c_str()); c->e[to].dead = true; tcp_put(c, to, Seg{2, ""}); return; }
		if (c->corrupt_side == 1 - to && c->corrupt_at != (size_t)-1 && c->corrupt_at >= e.total_rcvd && c->corrupt_at < e.total_rcvd + s.data.size()) {
			s.data[c->corrupt_at - e.total_rcvd] = (char)(s.data[c->corrupt_at - e.total_rcvd] ^ 0x41);
			note_fault("net.corrupt", c->label);
		}
		e.total_rcvd += s.data.size();
		if (e.rxo > 65536 && e.rxo * 2 > e.rx.size()) { e.rx.erase(0, e.rxo); e.rxo = 0; }
		e.rx += s.data;
		tr_mix(hash_mem(s.data.data(), s.data.size()) ^ c->id);
		trace("%s: %zu bytes reach %s side", c->label.c_str(), s.data.size(), to ? "server" : "client");
		tcp_notify(e);
	} else if (s.type == 1) {
		if (e.dead) return;
		e.rx_fin = true;
		trace("%s: FIN reaches %s side", c->label.c_str(), to ? "server" : "client");
		tcp_notify(e);
	} else
		rst_arrive(c, to);
}
// Whatever a program sends over the network is encrypted.
static void wire_check(TcpEnd &e, const char *d, size_t n) {
	static const Str words[] = {"PROCESS_", "MOIN 1 ", "MOIN 1\r", "OKAY\r\n", "QUIT\r\n", "PONG 1\r", "FAIL Un", "FAIL Exp", "Connection timed out"};
	size_t keep = 0;
	Str s = e.tail; s.append(d, n);
	auto look = [&](const Str &w) {
		keep = std::max(keep, w.size() - 1);
		if (memmem(s.data(), s.size(), w.data(), w.size())) { violate("P25", "%s sent %s unencrypted", e.owner->name.c_str(), quote(w).c_str()); }
	};
	for (auto &w : words) look(w);
	for (auto &w : W->secrets) look(w);
	e.tail = s.size() > keep ? s.substr(s.size() - keep) : s;
}
ssize_t tcp_send(TcpConn *c, int side, const char *d, size_t n) {
	TcpEnd &e = c->e[side], &p = c->e[1 - side];
	if (e.so_error) { int er = e.so_error; e.so_error = 0; return -er; }
	if (e.dead || e.wr_shut) return -EPIPE;
	if (!e.established) return -EAGAIN;
	size_t used = e.inflight + p.avail(), win = (size_t)c->np.window;
	if (used >= win) return -EAGAIN;
	n = std::min(n, win - used);
	if (e.owner) wire_check(e, d, n);
	size_t off = 0;
	while (off < n) {
		uint64_t h = mix64(W->seed ^ mix64(hash_str(c->label.c_str()) * 8 + 5 + (uint64_t)side) ^ (e.seg_no * 0x9e3779b97f4a7c15ULL));
		int span = c->np.mss_max - c->np.mss_min + 1;
		size_t sz = (size_t)(c->np.mss_min + (int)(h % (uint64_t)(span < 1 ? 1 : span)));
		sz = std::min(sz, n - off);
		e.inflight += sz; e.total_sent += sz;
		tcp_put(c, side, Seg{0, Str(d + off, sz)});
		off += sz;
	}
	return (ssize_t)n;
}
Str tcp_take(TcpConn *c, int side) {
	TcpEnd &e = c->e[side];
	Str s = e.rx.substr(e.rxo); e.rx.clear(); e.rxo = 0;
	if (!s.empty()) tcp_notify(c->e[1 - side]);
	return s;
}
void tcp_fin(TcpConn *c, int side) {
	TcpEnd &e = c->e[side];
	if (e.wr_shut || e.dead) return;
	e.wr_shut = true;
	tcp_put(c, side, Seg{1, ""});
}
void tcp_rst(TcpConn *c, int side) {
	TcpEnd &e = c->e[side];
	if (e.dead) return;
	e.dead = true; e.so_error = 0;
	if (c->refused) return;
	// A reset overtakes nothing: it follows the data already in flight.
	tcp_put(c, side, Seg{2, ""});
}
void tcp_close(TcpConn *c, int side) {
	TcpEnd &e = c->e[side];
	if (e.closed) return;
	e.closed = true;
	e.on_event = nullptr;
	if (e.dead) return;
	if (e.avail() > 0) { e.dead = true; tcp_put(c, side, Seg{2, ""}); e.rx.clear(); e.rxo = 0; }
	else tcp_fin(c, side);
}

TcpConn *tcp_new(const NetProfile &np, const Str &label) {
	TcpConn *c = new TcpConn;
	c->id = W->next_conn++; c->np = np; c->label = label; c->created = W->now;
	for (int i = 0; i < 2; i++) { c->e[i].conn = c; c->e[i].side = i; }
	c->client_addr = fmt("10.9.%d.%d", (int)(c->id / 200), (int)(c->id % 200) + 1);
	c->client_port = 40000 + (int)c->id;
	W->conns.emplace_back(c);
	return c;
}
// SYN arrives at the server side.
void tcp_syn(TcpConn *c, const Str &addr, int port) {
	c->port = port;
	double t = W->now + c->np.lat;
	auto deliver = std::make_shared<std::function<void()>>();
	*deliver = [c, addr, port, deliver] {
		if (c->e[0].closed) { *deliver = nullptr; return; }
		if (W->now < c->hold_until) { ev_at(c->hold_until, *deliver); return; }
		if (W->blackhole.count(addr)) return;
		auto refuse = [c] {
			double t2 = W->now + c->np.lat;
			ev_at(t2, [c] { c->refused = true; c->e[0].so_error = ECONNREFUSED; c->e[0].dead = true; tcp_notify(c->e[0]); trace("%s: connection refused", c->label.c_str()); });
		};
		if (W->refuse_async.count(addr)) { refuse(); return; }
		auto al = W->actor_listen.find(port);
		auto l = W->listeners.find(port);
		if (al != W->actor_listen.end()) {
			c->e[1].established = true;
			double t2 = W->now + c->np.lat;
			ev_at(t2, [c] { c->e[0].established = true; tcp_notify(c->e[0]); });
			al->second(c);
		} else if (l != W->listeners.end()) {
			if (l->second->backlog.size() > 128) { ev_after(1.0, *deliver); return; } // SYN retransmission
			c->e[1].established = true;
			l->second->backlog.push_back(c);
			trace("%s: connection reaches port %d", c->label.c_str(), port);
			double t2 = W->now + c->np.lat;
			ev_at(t2, [c] { c->e[0].established = true; tcp_notify(c->e[0]); });
		} else
			refuse();
	};
	ev_at(t, *deliver);
}
TcpConn *actor_connect(int port, const Str &label, std::function<void()> ev, const NetProfile &np) {
	TcpConn *c = tcp_new(np, label);
	c->e[0].on_event = ev;
	tcp_syn(c, "server", port);
	return c;
}

// ---------------------------------------------------------------- files
std::shared_ptr<Inode> fs_get(const Str &path) {
	auto it = W->fs.find(path);
	return it == W->fs.end() ? nullptr : it->second;
}
std::shared_ptr<Inode> fs_mk(const Str &path, Inode::Type t, const Str &data, int mode) {
	auto i = std::make_shared<Inode>();
	i->type = t; i->data = data; i->mode = mode; i->ino = W->next_ino++; i->path = path;
	W->fs[path] = i;
	return i;
}
void fs_rm(const Str &path) {
	auto it = W->fs.find(path);
	if (it != W->fs.end()) { it->second->nlink--; W->fs.erase(it); }
}
int fifo_write_raw(const std::shared_ptr<Inode> &i, const char *d, size_t n, const Str &who, int pid, bool foreign) {
	if (i->readers == 0) return -EPIPE;
	size_t room = i->cap > i->data.size() ? i->cap - i->data.size() : 0;
	if (n <= PIPE_BUF) { if (room < n) return -EAGAIN; }
	else { if (room == 0) return -EAGAIN; n = std::min(n, room); }
	i->data.append(d, n);
	FifoWrite w{W->now, Str(d, n), pid, who, i->ino, foreign};
	tr_mix(hash_mem(d, n));
	trace("fifo write by %s: %s", who.c_str(), quote(w.data, 200).c_str());
	W->fifo_writes.push_back(w);
	if (W->on_fifo_write) W->on_fifo_write(w);
	return (int)n;
}
