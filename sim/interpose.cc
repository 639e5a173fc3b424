// The seam: every system call or library call through which the programs under
// test could observe or cause nondeterminism is defined here, keyed on g_node.
#include "core.h"
#include <aio.h>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pwd.h>
#include <regex.h>
#include <search.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include "progapi.h"

extern "C" void queue_signal_c(Node *n, int sig);
void queue_signal(Node *n, const siginfo_t &si);
TcpConn *tcp_new(const NetProfile &np, const Str &label);
void tcp_syn(TcpConn *c, const Str &addr, int port);

__thread int g_nomem = 0; // > 0 while the simulator itself allocates
struct NoMem { NoMem() { g_nomem++; } ~NoMem() { g_nomem--; } };

#define REAL(ret, name, args) \
	typedef ret (*R_##name##_t) args; \
	static R_##name##_t real_##name() { static R_##name##_t p = (R_##name##_t)dlsym(RTLD_NEXT, #name); return p; }
#define N g_node
#define ENTER(name) Node *n = g_node; NoMem nm_; node_syscall_enter(name)
#define FAIL(e) do { errno = (e); return -1; } while (0)

static OFile *fget(Node *n, int fd) { auto it = n->fds.find(fd); return it == n->fds.end() ? nullptr : it->second; }
static int fd_alloc(Node *n, OFile *f, int min = 0) {
	int fd = min;
	while (n->fds.count(fd)) fd++;
	n->fds[fd] = f; if (f->born < 0) f->born = n->incarnation;
	return fd;
}
static bool fd_full(Node *n) { return (int)n->fds.size() >= n->fd_limit; }

// ---------------------------------------------------------------- readiness
static uint32_t ready_mask(OFile *f) {
	uint32_t m = 0;
	switch (f->type) {
	case OFile::TCP: {
		TcpEnd &e = f->conn->e[f->side];
		if (e.avail() || e.rx_fin || e.dead || e.so_error) m |= EPOLLIN;
		if (e.rx_fin) m |= EPOLLRDHUP;
		if (e.dead || e.so_error) m |= EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
		if (e.so_error) m |= EPOLLERR;
		if (e.rx_fin && e.wr_shut) m |= EPOLLHUP;
		if (e.established && !e.dead && e.inflight + f->conn->e[1 - f->side].avail() < (size_t)f->conn->np.window) m |= EPOLLOUT;
		break;
	}
	case OFile::NEWSOCK: m = EPOLLOUT | EPOLLHUP; break;
	case OFile::LISTEN: if (!f->backlog.empty()) m |= EPOLLIN; break;
	case OFile::FIFO_W:
		if (f->ino->readers == 0) m |= EPOLLERR;
		if (f->ino->cap >= f->ino->data.size() + PIPE_BUF) m |= EPOLLOUT;
		break;
	case OFile::FIFO_R: if (!f->ino->data.empty()) m |= EPOLLIN; if (f->ino->writers == 0) m |= EPOLLHUP; break;
	case OFile::EVENTFD: if (f->counter) m |= EPOLLIN; m |= EPOLLOUT; break;
	case OFile::PIPE_R: if (!f->pipebuf->empty()) m |= EPOLLIN; break;
	case OFile::PIPE_W: m |= EPOLLOUT; break;
	case OFile::STDIN: if (!f->in.empty() || f->in_eof || f->stdin_kind == 1 || f->read_err) m |= EPOLLIN; if (f->in_eof && f->in.empty() && f->stdin_kind == 0) m |= EPOLLHUP; break;
	default: m = EPOLLIN | EPOLLOUT; break;
	}
	return m;
}

static int wait_ready(Node *n, OFile *f, uint32_t mask) { // 0, or -1 with errno EINTR
	while (!(ready_mask(f) & (mask | EPOLLERR | EPOLLHUP))) {
		node_block([f, mask] { return (ready_mask(f) & (mask | EPOLLERR | EPOLLHUP)) != 0; }, -1);
		if (deliver_signals(n)) FAIL(EINTR);
	}
	return 0;
}

// ---------------------------------------------------------------- stdio
static ssize_t err_write(void *c, const char *b, size_t sz) {
	Node *n = (Node *)c; NoMem nm;
	for (size_t i = 0; i < sz; i++) {
		if (b[i] == '\n') {
			if (n->logpart.find("[DEBUG]") != Str::npos) for (size_t a = 0; (a = n->logpart.find(": 0x", a)) != Str::npos;) { // debug messages name heap addresses: not part of the simulated world
				size_t e = a += 4; while (e < n->logpart.size() && isxdigit((unsigned char)n->logpart[e])) e++;
				n->logpart.replace(a, e - a, "#");
			}
			n->log.push_back({W->now, n->logpart, n->incarnation});
			trace("%s: %s", n->name.c_str(), n->logpart.c_str());
			for (const char *p = n->logpart.c_str(); *p; p++) W->thash = (W->thash ^ (unsigned char)*p) * 0x100000001b3ULL;
			for (auto &x : W->secrets) if (n->logpart.find(x) != Str::npos) violate("P25", "%s logged a password: %s", n->name.c_str(), quote(n->logpart, 300).c_str());
			if (W->on_log) W->on_log(n, n->logpart);
			n->logpart.clear();
		} else n->logpart += b[i];
	}
	return (ssize_t)sz;
}
static ssize_t out_write(void *c, const char *b, size_t sz) { Node *n = (Node *)c; NoMem nm; n->out.append(b, sz); return (ssize_t)sz; }
FILE *node_file(Node *n, bool err) {
	FILE *&f = err ? n->errf : n->outf;
	if (!f) {
		NoMem nm;
		cookie_io_functions_t io{};
		io.write = err ? err_write : out_write;
		f = fopencookie(n, "w", io);
		setvbuf(f, nullptr, _IONBF, 0);
	}
	return f;
}
extern "C" {
FILE *sim_stderr(void) { return g_node ? node_file(g_node, true) : stderr; }
FILE *sim_stdout(void) { return g_node ? node_file(g_node, false) : stdout; }
FILE *sim_stdin(void) { return stdin; }
}

struct NodeLibc { char *tok = nullptr; int optpos = 0; uint64_t rnd = 1; };
static std::map<Node *, NodeLibc> g_libc;

void node_reset_process(Node *n) {
	g_nomem = 1;
	g_libc[n] = NodeLibc();
	optind = 1; optarg = nullptr;
	for (auto p : n->hs_entries) free(p);
	n->hs_entries.clear(); n->hs_tab.clear();
	if (!n->fds.count(0)) { OFile *f = of_new(OFile::NUL); n->fds[0] = f; }
	if (!n->fds.count(1)) n->fds[1] = of_new(OFile::LOG);
	if (!n->fds.count(2)) n->fds[2] = of_new(OFile::LOG);
	n->errf = n->outf = nullptr;
	n->logpart.clear();
	n->sys_since_block = 0;
	ERR_clear_error();
	g_nomem = 0;
}

extern "C" int sim_close(Node *n, int fd) {
	auto it = n->fds.find(fd);
	if (it == n->fds.end()) return -EBADF;
	OFile *f = it->second;
	n->fds.erase(it);
	of_unref(f);
	return 0;
}

extern "C" {

// ---------------------------------------------------------------- process
void sim_exit(int c) {
	if (!g_node) exit(c);
	g_nomem = 0; node_exit(c);
}
void sim__exit(int c) {
	if (!g_node) _exit(c);
	g_nomem = 0; g_node->exit_code = c & 0xff; longjmp(g_node->top, 1);
}
static bool no_memory() {
	Node *n = g_node;
	if (!n || g_nomem || n->nomem_k <= 0 || --n->nomem_k > 0) return false;
	NoMem nm; note_fault("mem", n->name); n->mem_fails++; n->mem_fail_t = W->now; n->mem_fail_log = n->log.size();
	errno = ENOMEM; return true;
}
void *sim_malloc(size_t s) { return no_memory() ? nullptr : malloc(s); }
void *sim_realloc(void *p, size_t s) { return no_memory() ? nullptr : realloc(p, s); }
char *sim_strdup(const char *s) { return no_memory() ? nullptr : strdup(s); }
int sim_vasprintf(char **r, const char *f, va_list a) { return no_memory() ? -1 : vasprintf(r, f, a); }
void sim_abort(void) {
	if (!g_node) abort();
	Node *n = g_node;
	trace("%s: abort", n->name.c_str());
	g_nomem = 0; n->signaled = true; n->term_sig = SIGABRT; n->exit_code = 134; longjmp(n->top, 1);
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	if (!g_node) { fprintf(stderr, "assert %s %s:%u %s\n", e, f, l, fn); abort(); }
	{ NoMem nm; fprintf(node_file(g_node, true), "assertion %s failed at %s:%u\n", e, f, l); }
	sim_abort();
}
int sim_atexit(void (*f)(void)) { if (!g_node) return atexit(f); NoMem nm; g_node->atexits.push_back(f); return 0; }
char *sim_strtok(char *s, const char *d) {
	if (!g_node) return strtok(s, d);
	NodeLibc *l; { NoMem nm; l = &g_libc[g_node]; }
	return strtok_r(s, d, &l->tok);
}
int sim_getopt(int argc, char *const *argv, const char *spec) {
	NodeLibc *l; { NoMem nm; l = &g_libc[g_node]; }
	if (l->optpos == 0) {
		if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) return -1;
		if (!strcmp(argv[optind], "--")) { optind++; return -1; }
		l->optpos = 1;
	}
	int c = (unsigned char)argv[optind][l->optpos++];
	const char *p = c == ':' ? nullptr : strchr(spec, c);
	bool last = argv[optind][l->optpos] == 0;
	if (!p) { optopt = c; if (last) { optind++; l->optpos = 0; } fprintf(node_file(g_node, true), "invalid option -- '%c'\n", c); return '?'; }
	if (p[1] == ':') {
		if (!last) optarg = argv[optind] + l->optpos;
		else if (optind + 1 < argc) optarg = argv[++optind];
		else { optind++; l->optpos = 0; return '?'; }
		optind++; l->optpos = 0;
	} else if (last) { optind++; l->optpos = 0; }
	return c;
}

REAL(pid_t, getpid, (void))
pid_t getpid(void) { return N ? N->pid : real_getpid()(); }
// Credentials and the root directory.
static Str jail(const char *p) { // the path as seen from outside the node's root directory
	Node *n = N; Str r = *p == '/' ? n->root + p : n->cwd + (n->cwd == "/" ? "" : "/") + p;
	while (r.size() > 1 && r.back() == '/') r.pop_back();
	return r;
}
#define ACT(what) do { if (N->priv_check) { NoMem nm_; N->priv_check(N, what); } } while (0)
REAL(uid_t, getuid, (void)) uid_t getuid(void) { return N ? (uid_t)N->ruid : real_getuid()(); }
REAL(uid_t, geteuid, (void)) uid_t geteuid(void) { return N ? (uid_t)N->uid : real_geteuid()(); }
REAL(gid_t, getgid, (void)) gid_t getgid(void) { return N ? (gid_t)N->rgid : real_getgid()(); }
REAL(gid_t, getegid, (void)) gid_t getegid(void) { return N ? (gid_t)N->gid : real_getegid()(); }
static int set_ids(const char *what, bool grp, int r, int e, int s) { // -1: leave it alone
	ENTER(what);
	int &R = grp ? n->rgid : n->ruid, &E = grp ? n->gid : n->uid, &S = grp ? n->sgid : n->suid;
	if (fault(grp ? "priv.setgid" : "priv.setuid", "process")) FAIL(grp ? EPERM : EAGAIN);
	auto ok = [&](int x) { return x == -1 || x == R || x == E || x == S; };
	if (n->uid && !(ok(r) && ok(e) && ok(s))) FAIL(EPERM);
	if (r != -1) R = r;
	if (e != -1) E = e;
	if (s != -1) S = s;
	trace("%s: %s: %d/%d/%d", n->name.c_str(), what, R, E, S);
	return 0;
}
REAL(int, setuid, (uid_t)) int setuid(uid_t u) { if (!N) return real_setuid()(u); return N->uid ? set_ids("setuid", false, -1, (int)u, -1) : set_ids("setuid", false, (int)u, (int)u, (int)u); }
REAL(int, setgid, (gid_t)) int setgid(gid_t g) { if (!N) return real_setgid()(g); return N->uid ? set_ids("setgid", true, -1, (int)g, -1) : set_ids("setgid", true, (int)g, (int)g, (int)g); }
REAL(int, seteuid, (uid_t)) int seteuid(uid_t u) { if (!N) return real_seteuid()(u); return set_ids("seteuid", false, -1, (int)u, -1); }
REAL(int, setegid, (gid_t)) int setegid(gid_t g) { if (!N) return real_setegid()(g); return set_ids("setegid", true, -1, (int)g, -1); }
REAL(int, setreuid, (uid_t, uid_t)) int setreuid(uid_t r, uid_t e) { if (!N) return real_setreuid()(r, e); return set_ids("setreuid", false, (int)r, (int)e, r != (uid_t)-1 || (e != (uid_t)-1 && (int)e != N->ruid) ? (int)e : -1); }
REAL(int, setregid, (gid_t, gid_t)) int setregid(gid_t r, gid_t e) { if (!N) return real_setregid()(r, e); return set_ids("setregid", true, (int)r, (int)e, r != (gid_t)-1 || (e != (gid_t)-1 && (int)e != N->rgid) ? (int)e : -1); }
REAL(int, setresuid, (uid_t, uid_t, uid_t)) int setresuid(uid_t r, uid_t e, uid_t s) { if (!N) return real_setresuid()(r, e, s); return set_ids("setresuid", false, (int)r, (int)e, (int)s); }
REAL(int, setresgid, (gid_t, gid_t, gid_t)) int setresgid(gid_t r, gid_t e, gid_t s) { if (!N) return real_setresgid()(r, e, s); return set_ids("setresgid", true, (int)r, (int)e, (int)s); }
static int set_groups(const char *what, const Str &v) {
	ENTER(what);
	if (fault("priv.groups", "process")) FAIL(EPERM);
	if (n->uid) FAIL(EPERM);
	n->groups = v; trace("%s: %s: %s", n->name.c_str(), what, v.c_str());
	return 0;
}
REAL(int, initgroups, (const char *, gid_t)) int initgroups(const char *u, gid_t g) { if (!N) return real_initgroups()(u, g); NoMem nm; return set_groups("initgroups", fmt("%s+%d", u, (int)g)); }
REAL(int, setgroups, (size_t, const gid_t *)) int setgroups(size_t k, const gid_t *v) noexcept { if (!N) return real_setgroups()(k, v); NoMem nm; Str s = "list"; for (size_t i = 0; i < k; i++) s += fmt("+%d", (int)v[i]); return set_groups("setgroups", s); }
static int sim_chroot(const char *p) {
	ENTER("chroot");
	if (fault("priv.chroot", "process")) FAIL(EACCES);
	if (n->uid) FAIL(EPERM);
	auto d = fs_get(jail(p));
	if (!d) FAIL(ENOENT);
	if (d->type != Inode::DIR) FAIL(ENOTDIR);
	n->root = jail(p); if (n->root == "/") n->root.clear();
	trace("%s: chroot %s", n->name.c_str(), p);
	return 0;
}
static int sim_chdir(const char *p) {
	ENTER("chdir");
	if (fault("priv.chdir", "process")) FAIL(EACCES);
	Str t = jail(p); if (t.empty()) t = "/";
	auto d = fs_get(t);
	if (!d || d->type != Inode::DIR) FAIL(ENOENT);
	n->cwd = t;
	return 0;
}
REAL(int, chroot, (const char *)) int chroot(const char *p) noexcept { return N ? sim_chroot(p) : real_chroot()(p); }
REAL(int, chdir, (const char *)) int chdir(const char *p) noexcept { return N ? sim_chdir(p) : real_chdir()(p); }
REAL(char *, getenv, (const char *))
char *getenv(const char *k) noexcept {
	if (!N) return real_getenv()(k);
	NoMem nm;
	auto it = N->env.find(k);
	return it == N->env.end() ? nullptr : (char *)it->second.c_str();
}
char *secure_getenv(const char *k) noexcept { if (!N) return real_getenv()(k); return getenv(k); }
REAL(struct passwd *, getpwnam, (const char *))
struct passwd *getpwnam(const char *s) {
	if (!N) return real_getpwnam()(s);
	static struct passwd pw; static char nm[] = "nagios", dir[] = "/var";
	if (fault("priv.getpwnam", "process")) { errno = EIO; return nullptr; }
	if (!strcmp(s, "root")) { static char rn[] = "root", rd[] = "/root"; memset(&pw, 0, sizeof pw); pw.pw_name = rn; pw.pw_dir = rd; pw.pw_shell = rd; return &pw; }
	if (strcmp(s, "nagios") || !N->root.empty()) { errno = 0; return nullptr; }
	memset(&pw, 0, sizeof pw); pw.pw_name = nm; pw.pw_uid = 1000; pw.pw_gid = 1000; pw.pw_dir = dir; pw.pw_shell = dir;
	return &pw;
}
REAL(int, uname, (struct utsname *))
int uname(struct utsname *u) noexcept {
	if (!N) return real_uname()(u);
	memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "sim"); strcpy(u->release, "6.1.0"); strcpy(u->version, "1"); strcpy(u->machine, "x86_64");
	return 0;
}
REAL(int, gethostname, (char *, size_t))
int gethostname(char *b, size_t l) noexcept { if (!N) return real_gethostname()(b, l); snprintf(b, l, "%s-host", N->name.c_str()); return 0; }
REAL(long, sysconf, (int)) long sysconf(int k) noexcept { if (N && k == _SC_OPEN_MAX) return N->fd_limit; return real_sysconf()(k); }
long random(void) noexcept {
	if (!N) { static long (*p)(void) = (long (*)(void))dlsym(RTLD_NEXT, "random"); return p(); }
	NoMem nm; uint64_t &r = g_libc[N].rnd; r = r * 6364136223846793005ULL + 1442695040888963407ULL; return (long)(r >> 33);
}
void srandom(unsigned s) noexcept {
	if (!N) { static void (*p)(unsigned) = (void (*)(unsigned))dlsym(RTLD_NEXT, "srandom"); p(s); return; }
	NoMem nm; g_libc[N].rnd = mix64(s);
}
int rand(void) noexcept {
	if (!N) { static int (*p)(void) = (int (*)(void))dlsym(RTLD_NEXT, "rand"); return p(); }
	return (int)random();
}
void srand(unsigned s) noexcept {
	if (!N) { static void (*p)(unsigned) = (void (*)(unsigned))dlsym(RTLD_NEXT, "srand"); p(s); return; }
	srandom(s);
}
REAL(int, daemon, (int, int))
int daemon(int nochdir, int noclose) noexcept {
	if (!N) return real_daemon()(nochdir, noclose);
	ENTER("daemon");
	if (fault("daemon.fail", n->name)) FAIL(EAGAIN);
	n->pid = (int)W->next_pid++;
	if (!nochdir) n->cwd = n->root.empty() ? "/" : n->root;
	if (!noclose) for (int i = 0; i < 3; i++) { sim_close(n, i); n->fds[i] = of_new(OFile::NUL); }
	n->env["__daemon"] = "1";
	if (W->on_daemon) W->on_daemon(n);
	trace("%s: detached, pid %d", n->name.c_str(), n->pid);
	return 0;
}
REAL(int, execvp, (const char *, char *const *))
int execvp(const char *f, char *const *a) noexcept {
	if (!N) return real_execvp()(f, a);
	Node *n = g_node;
	{
		NoMem nm; node_syscall_enter("execvp");
		if (fault("exec.fail", n->name)) FAIL(ENOENT);
		// only the program itself can be executed: by its path, or by its name if that is found via PATH
		if (f != n->exe && (strchr(f, '/') || !n->in_path || n->exe.substr(n->exe.rfind('/') + 1) != f)) FAIL(ENOENT);
		std::vector<Str> v;
		for (; *a; a++) v.push_back(*a);
		n->argv = v;
		n->do_exec = true;
		n->notifications.push_back("EXEC"); n->notif_times.push_back(W->now);
	}
	g_nomem = 0;
	longjmp(n->top, 1);
}
int execv(const char *f, char *const *a) noexcept { if (!N) { errno = ENOSYS; return -1; } return execvp(f, a); }

// ---------------------------------------------------------------- time
REAL(time_t, time, (time_t *))
time_t time(time_t *t) noexcept {
	if (!g_in_sim) return real_time()(t);
	time_t v = (time_t)(W->now + W->wall_off);
	if (t) *t = v;
	return v;
}
REAL(int, clock_gettime, (clockid_t, struct timespec *))
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
	if (!g_in_sim) return real_clock_gettime()(c, ts);
	double v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? W->now + W->wall_off : W->now + 5000.0;
	ts->tv_sec = (time_t)v; ts->tv_nsec = (long)((v - (double)ts->tv_sec) * 1e9);
	return 0;
}
REAL(int, gettimeofday, (struct timeval *, void *))
int gettimeofday(struct timeval *tv, void *z) noexcept {
	if (!g_in_sim) return real_gettimeofday()(tv, z);
	double v = W->now + W->wall_off;
	tv->tv_sec = (time_t)v; tv->tv_usec = (long)((v - (double)tv->tv_sec) * 1e6);
	return 0;
}
long syscall(long nr, ...) noexcept {
	static long (*real)(long, ...) = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
	va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
	if (N) {
		if (nr == SYS_clock_gettime) return clock_gettime((clockid_t)a[0], (struct timespec *)a[1]);
		if (nr == SYS_gettid) return N->pid;
		errno = ENOSYS; return -1;
	}
	return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static int sim_sleep(double dt) {
	ENTER("sleep");
	double dl = W->now + dt;
	node_block(nullptr, dl);
	if (deliver_signals(n) && W->now < dl) FAIL(EINTR);
	return 0;
}
REAL(int, nanosleep, (const struct timespec *, struct timespec *))
int nanosleep(const struct timespec *a, struct timespec *b) { if (!N) return real_nanosleep()(a, b); return sim_sleep((double)a->tv_sec + (double)a->tv_nsec * 1e-9); }
REAL(int, usleep, (useconds_t)) int usleep(useconds_t u) { if (!N) return real_usleep()(u); return sim_sleep(u * 1e-6); }
REAL(unsigned, sleep, (unsigned)) unsigned sleep(unsigned s) { if (!N) return real_sleep()(s); sim_sleep(s); return 0; }

// ---------------------------------------------------------------- signals
REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *))
int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept {
	if (!N) return real_sigaction()(s, a, o);
	NoMem nm; SigAct &x = N->sig[s];
	if (o) { memset(o, 0, sizeof *o); if (x.flags & SA_SIGINFO) o->sa_sigaction = x.sa; else o->sa_handler = x.ign ? SIG_IGN : x.h; o->sa_flags = x.flags; }
	if (a) {
		x = SigAct(); x.flags = a->sa_flags;
		if (a->sa_flags & SA_SIGINFO) x.sa = a->sa_sigaction;
		else if (a->sa_handler == SIG_IGN) x.ign = true;
		else x.h = a->sa_handler;
		if (x.ign) for (size_t i = 0; i < N->pending.size();) { if (N->pending[i].si_signo == s) N->pending.erase(N->pending.begin() + (long)i); else i++; }
	}
	return 0;
}
REAL(sighandler_t, signal, (int, sighandler_t))
sighandler_t signal(int s, sighandler_t h) noexcept {
	if (!N) return real_signal()(s, h);
	struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART;
	sigaction(s, &a, &o);
	return o.sa_handler;
}
REAL(int, sigprocmask, (int, const sigset_t *, sigset_t *))
int sigprocmask(int how, const sigset_t *s, sigset_t *o) noexcept {
	if (!N) return real_sigprocmask()(how, s, o);
	if (o) *o = N->blocked;
	if (s) {
		if (how == SIG_SETMASK) N->blocked = *s;
		else for (int i = 1; i < 65; i++) if (sigismember(s, i) == 1) { if (how == SIG_BLOCK) sigaddset(&N->blocked, i); else sigdelset(&N->blocked, i); }
	}
	return 0;
}
REAL(int, pthread_sigmask, (int, const sigset_t *, sigset_t *))
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) noexcept { if (!N) return real_pthread_sigmask()(how, s, o); return sigprocmask(how, s, o); }
int signalfd(int, const sigset_t *, int) noexcept { errno = ENOSYS; return -1; }
int timerfd_create(clockid_t, int) noexcept { errno = ENOSYS; return -1; }
int timerfd_settime(int, int, const struct itimerspec *, struct itimerspec *) noexcept { errno = ENOSYS; return -1; }
int inotify_init(void) noexcept { errno = ENOSYS; return -1; }
int inotify_init1(int) noexcept { errno = ENOSYS; return -1; }

// ---------------------------------------------------------------- descriptors
REAL(int, close, (int))
static void dump_failed(const Str &p, const char *w, const Str &data) { W->failed_dumps[p] = w; W->dump_fails.push_back({W->now, true, data}); }
int close(int fd) {
	if (!N) return real_close()(fd);
	ENTER("close");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	bool reg = f->type == OFile::REG && (f->flags & 3) != 0;
	Str path = reg ? f->ino->path : "";
	sim_close(n, fd);
	if (reg) trace("%s: close %s", n->name.c_str(), path.c_str());
	if (reg && path.find("/nsca.") != Str::npos && fault("close.err", "dump")) { { auto i = fs_get(path); dump_failed(path, "close", i ? i->data : ""); } FAIL(EIO); }
	return 0;
}
void closefrom(int m) noexcept {
	if (!N) return;
	ENTER("closefrom");
	std::vector<int> v;
	for (auto &p : n->fds) if (p.first >= m) v.push_back(p.first);
	for (int fd : v) sim_close(n, fd);
}
static int do_dup(int fd, int min, bool cloexec) {
	Node *n = N; NoMem nm; OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (fd_full(n)) FAIL(EMFILE);
	f->refs++; (void)cloexec;
	return fd_alloc(n, f, min);
}
REAL(int, dup, (int)) int dup(int fd) noexcept { if (!N) return real_dup()(fd); return do_dup(fd, 0, false); }
REAL(int, dup2, (int, int))
int dup2(int a, int b) noexcept {
	if (!N) return real_dup2()(a, b);
	NoMem nm; OFile *f = fget(N, a);
	if (!f) FAIL(EBADF);
	if (a == b) return b;
	f->refs++; sim_close(N, b); N->fds[b] = f; return b;
}
static int do_fcntl(int fd, int cmd, long arg) {
	NoMem nm; OFile *f = fget(N, fd);
	if (!f) FAIL(EBADF);
	switch (cmd) {
	case F_GETFL: return f->flags | (f->nonblock ? O_NONBLOCK : 0);
	case F_SETFL: f->nonblock = (arg & O_NONBLOCK) != 0; return 0;
	case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: f->cloexec = (arg & FD_CLOEXEC) != 0; return 0;
	case F_DUPFD: return do_dup(fd, (int)arg, false);
	case F_DUPFD_CLOEXEC: return do_dup(fd, (int)arg, true);
	default: FAIL(EINVAL);
	}
}
int fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	static int (*real)(int, int, ...) = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
	return N ? do_fcntl(fd, cmd, a) : real(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	static int (*real)(int, int, ...) = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl64");
	return N ? do_fcntl(fd, cmd, a) : real(fd, cmd, a);
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
	va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
	static int (*real)(int, unsigned long, ...) = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
	if (!N) return real(fd, rq, a);
	OFile *f = fget(N, fd);
	if (!f) FAIL(EBADF);
	if (rq == FIONBIO) { f->nonblock = *(int *)a != 0; return 0; }
	FAIL(ENOTTY);
}
static int sim_open(const char *path, int flags, mode_t mode) {
	ENTER("open");
	OFile *f;
	if (!strcmp(path, "/dev/null")) { f = of_new(OFile::NUL); return fd_alloc(n, f); }
	if (fd_full(n)) FAIL(EMFILE);
	Str jp = jail(path); path = jp.c_str();
	if ((flags & 3) != O_RDONLY || (flags & O_CREAT)) ACT("opens a file for writing");
	auto i = fs_get(path);
	if (i && i->type == Inode::FIFO) {
		if (fault("open.eintr", "fifo")) FAIL(EINTR);
		if (fault("open.err", "fifo")) FAIL(EACCES);
		if ((flags & 3) == O_WRONLY) {
			if (i->readers == 0) {
				if (flags & O_NONBLOCK) FAIL(ENXIO);
				trace("%s: blocked opening %s", n->name.c_str(), path);
				node_block([i] { return i->readers > 0; }, -1);
			}
			f = of_new(OFile::FIFO_W); i->writers++;
		} else if ((flags & 3) == O_RDWR) { f = of_new(OFile::FIFO_W); i->writers++; }
		else { f = of_new(OFile::FIFO_R); i->readers++; }
		f->ino = i; f->flags = flags & 3; f->nonblock = (flags & O_NONBLOCK) != 0;
		return fd_alloc(n, f);
	}
	if (!i) {
		if (!(flags & O_CREAT)) FAIL(ENOENT);
		if (fault("open.pid", path)) FAIL(EACCES);
		Str dir = path; size_t sl = dir.rfind('/'); dir = sl == 0 || sl == Str::npos ? "/" : dir.substr(0, sl);
		auto di = fs_get(dir);
		if (!di || di->type != Inode::DIR) FAIL(ENOENT);
		i = fs_mk(path, Inode::REG, "", (int)mode); i->uid = n->uid;
		trace("%s: created %s", n->name.c_str(), path);
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) FAIL(EEXIST);
	if (i->type == Inode::DIR && (flags & 3)) FAIL(EISDIR);
	if (fault("open.err", path)) FAIL(EMFILE);
	if (flags & O_TRUNC) i->data.clear();
	f = of_new(OFile::REG); f->ino = i; f->flags = flags & (3 | O_APPEND); f->cloexec = (flags & O_CLOEXEC) != 0;
	if ((flags & 3) != 0) i->wr_open++;
	return fd_alloc(n, f);
}
int open(const char *path, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	static int (*real)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
	return N ? sim_open(path, flags, m) : real(path, flags, m);
}
int open64(const char *path, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT)) ? va_arg(ap, mode_t) : 0; va_end(ap);
	static int (*real)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
	return N ? sim_open(path, flags, m) : real(path, flags, m);
}
REAL(FILE *, fopen, (const char *, const char *))
FILE *fopen(const char *p, const char *m) {
	if (!N) return real_fopen()(p, m);
	ENTER("fopen");
	if (*m != 'r' || strchr(m, '+')) ACT("opens a file for writing");
	auto i = fs_get(jail(p));
	if (!i || i->type != Inode::REG) { errno = ENOENT; return nullptr; }
	Str *d = new Str(i->data); // lives as long as the stream, leaked on purpose
	if (d->empty()) return fmemopen((void *)"\n", 1, "r");
	return fmemopen((void *)d->data(), d->size(), "r");
	(void)n;
}
FILE *fopen64(const char *p, const char *m) {
	static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen64");
	return N ? fopen(p, m) : real(p, m);
}
REAL(int, access, (const char *, int))
int access(const char *p, int m) noexcept {
	if (!N) return real_access()(p, m);
	NoMem nm;
	auto i = fs_get(jail(p));
	if (!i) FAIL(ENOENT);
	if (m != F_OK && !i->mode) FAIL(EACCES);
	return 0;
}
static void fill_stat(const std::shared_ptr<Inode> &i, struct stat *sb) {
	memset(sb, 0, sizeof *sb);
	sb->st_ino = i->ino; sb->st_dev = 77; sb->st_nlink = (nlink_t)i->nlink; sb->st_size = i->type == Inode::REG ? (off_t)i->data.size() : 0;
	sb->st_mode = (mode_t)(i->mode & 07777) | (i->type == Inode::FIFO ? S_IFIFO : i->type == Inode::DIR ? S_IFDIR : S_IFREG);
}
static int sim_stat(const char *p, struct stat *sb) {
	ENTER("stat"); (void)n;
	auto i = fs_get(jail(p));
	if (!i) FAIL(ENOENT);
	fill_stat(i, sb);
	return 0;
}
static int sim_fstat(int fd, struct stat *sb) {
	ENTER("fstat");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (f->ino && f->type == OFile::FIFO_W && fault("fstat.err", "fifo")) FAIL(EIO);
	if (f->ino) fill_stat(f->ino, sb);
	else {
		memset(sb, 0, sizeof *sb);
		sb->st_mode = f->type == OFile::TCP || f->type == OFile::LISTEN ? S_IFSOCK : f->type == OFile::STDIN ? (f->stdin_kind ? S_IFREG : S_IFIFO) : S_IFCHR;
	}
	return 0;
}
REAL(int, stat, (const char *, struct stat *)) int stat(const char *p, struct stat *s) noexcept { return N ? sim_stat(p, s) : real_stat()(p, s); }
REAL(int, lstat, (const char *, struct stat *)) int lstat(const char *p, struct stat *s) noexcept { return N ? sim_stat(p, s) : real_lstat()(p, s); }
REAL(int, fstat, (int, struct stat *)) int fstat(int fd, struct stat *s) noexcept { return N ? sim_fstat(fd, s) : real_fstat()(fd, s); }
int stat64(const char *p, struct stat64 *s) noexcept { static int (*r)(const char *, struct stat64 *) = (int (*)(const char *, struct stat64 *))dlsym(RTLD_NEXT, "stat64"); return N ? sim_stat(p, (struct stat *)s) : r(p, s); }
int lstat64(const char *p, struct stat64 *s) noexcept { static int (*r)(const char *, struct stat64 *) = (int (*)(const char *, struct stat64 *))dlsym(RTLD_NEXT, "lstat64"); return N ? sim_stat(p, (struct stat *)s) : r(p, s); }
int fstat64(int fd, struct stat64 *s) noexcept { static int (*r)(int, struct stat64 *) = (int (*)(int, struct stat64 *))dlsym(RTLD_NEXT, "fstat64"); return N ? sim_fstat(fd, (struct stat *)s) : r(fd, s); }
REAL(int, nftw, (const char *, __nftw_func_t, int, int))
int nftw(const char *p, __nftw_func_t cb, int a, int b) {
	if (!N) return real_nftw()(p, cb, a, b);
	struct stat sb; struct FTW fw{}; 
	std::vector<Str> files;
	{ NoMem nm; Str pre = jail(p) + "/"; if (!fs_get(jail(p))) FAIL(ENOENT); for (auto &x : W->fs) if (x.first.compare(0, pre.size(), pre) == 0) files.push_back(p + Str("/") + x.first.substr(pre.size())); }
	for (auto &f : files) { if (sim_stat(f.c_str(), &sb) == -1) continue; int r = cb(f.c_str(), &sb, FTW_F, &fw); if (r) return r; }
	return 0;
}
REAL(int, unlink, (const char *))
int unlink(const char *p) noexcept {
	if (!N) return real_unlink()(p);
	ENTER("unlink");
	Str jp = jail(p); p = jp.c_str(); ACT("removes a file");
	if (!fs_get(p)) FAIL(ENOENT);
	if (fault("unlink.err", p)) FAIL(EACCES);
	trace("%s: unlink %s", n->name.c_str(), p);
	fs_rm(p);
	return 0;
}
REAL(int, rename, (const char *, const char *))
int rename(const char *a, const char *b) noexcept {
	if (!N) return real_rename()(a, b);
	ENTER("rename"); (void)n;
	Str ja = jail(a), jb = jail(b); a = ja.c_str(); b = jb.c_str(); ACT("renames a file");
	auto i = fs_get(a); if (!i) FAIL(ENOENT);
	fs_rm(b); W->fs.erase(a); W->fs[b] = i; i->path = b; return 0;
}
REAL(int, chmod, (const char *, mode_t)) int chmod(const char *p, mode_t m) noexcept { if (!N) return real_chmod()(p, m); NoMem nm; ACT("changes a file's mode"); auto i = fs_get(jail(p)); if (!i) FAIL(ENOENT); i->mode = (int)m; return 0; }
REAL(int, fchmod, (int, mode_t)) int fchmod(int fd, mode_t m) noexcept { if (!N) return real_fchmod()(fd, m); NoMem nm; OFile *f = fget(N, fd); if (!f) FAIL(EBADF); if (f->ino) f->ino->mode = (int)m; return 0; }
REAL(mode_t, umask, (mode_t)) mode_t umask(mode_t m) noexcept { if (!N) return real_umask()(m); return 022; }
REAL(int, fsync, (int)) int fsync(int fd) { if (!N) return real_fsync()(fd); return 0; }
REAL(int, flock, (int, int))
int flock(int fd, int op) noexcept {
	if (!N) return real_flock()(fd, op);
	ENTER("flock");
	OFile *f = fget(n, fd);
	if (!f || !f->ino) FAIL(EBADF);
	auto i = f->ino;
	if (op & LOCK_UN) { if (i->lock == f) i->lock = nullptr; i->shared.erase(f); return 0; }
	if (fault("flock.eintr", i->path)) FAIL(EINTR);
	bool sh = op & LOCK_SH;
	auto busy = [i, f, sh] { return (i->lock && i->lock != f) || (!sh && i->shared.size() > i->shared.count(f)); };
	while (busy()) {
		if (op & LOCK_NB) { n->lock_refused = true; FAIL(EWOULDBLOCK); }
		node_block([busy] { return !busy(); }, -1);
	}
	if (sh) { if (i->lock == f) i->lock = nullptr; i->shared.insert(f); } else { i->shared.erase(f); i->lock = f; }
	return 0;
}
static int sim_ftruncate(int fd, off_t len) {
	ENTER("ftruncate");
	OFile *f = fget(n, fd);
	if (!f || !f->ino) FAIL(EBADF);
	if (fault("ftruncate.err", f->ino->path)) FAIL(EIO);
	f->ino->data.resize((size_t)len);
	return 0;
}
REAL(int, ftruncate, (int, off_t)) int ftruncate(int fd, off_t l) noexcept { return N ? sim_ftruncate(fd, l) : real_ftruncate()(fd, l); }
int ftruncate64(int fd, off64_t l) noexcept { static int (*r)(int, off64_t) = (int (*)(int, off64_t))dlsym(RTLD_NEXT, "ftruncate64"); return N ? sim_ftruncate(fd, l) : r(fd, l); }
static int sim_mkstemp(char *t) {
	ENTER("mkstemp");
	if (fd_full(n)) FAIL(EMFILE);
	if (fault("mkstemp.err", "dump")) { W->dump_fails.push_back({W->now, false, ""}); FAIL(ENOSPC); }
	ACT("creates a temporary file");
	Str dir = jail(t); size_t sl = dir.rfind('/'); if (sl != Str::npos) dir.resize(sl ? sl : 1);
	if (!fs_get(dir)) FAIL(ENOENT);
	size_t l = strlen(t);
	for (int tries = 0; tries < 100; tries++) {
		uint64_t h = mix64(W->seed ^ (W->next_ino * 131) ^ (uint64_t)tries);
		for (int i = 0; i < 6; i++) { t[l - 6 + (size_t)i] = "abcdefghijklmnopqrstuvwxyz012345"[h & 31]; h >>= 5; }
		if (!fs_get(jail(t))) break;
	}
	auto i = fs_mk(jail(t), Inode::REG, "", 0600); i->uid = n->uid; i->wr_open++;
	OFile *f = of_new(OFile::REG); f->ino = i; f->flags = O_RDWR;
	trace("%s: created %s", n->name.c_str(), t);
	probe("dump.created");
	return fd_alloc(n, f);
}
REAL(int, mkstemp, (char *)) int mkstemp(char *t) { return N ? sim_mkstemp(t) : real_mkstemp()(t); }
int mkstemp64(char *t) { static int (*r)(char *) = (int (*)(char *))dlsym(RTLD_NEXT, "mkstemp64"); return N ? sim_mkstemp(t) : r(t); }

// ---------------------------------------------------------------- read and write
static ssize_t reg_write(OFile *f, const char *b, size_t len, size_t off) {
	auto i = f->ino;
	if (i->data.size() < off + len) i->data.resize(off + len);
	memcpy(&i->data[off], b, len);
	return (ssize_t)len;
}
static ssize_t sim_read(int fd, void *buf, size_t len) {
	ENTER("read");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	switch (f->type) {
	case OFile::TCP: {
		TcpEnd &e = f->conn->e[f->side];
		if (!f->nonblock) { if (wait_ready(n, f, EPOLLIN) == -1) return -1; }
		if (e.avail()) {
			if (fault("sock.eagain", n->name) && f->nonblock) FAIL(EAGAIN);
			if (fault("sock.eintr", n->name)) FAIL(EINTR);
			size_t k = std::min(len, e.avail());
			if (k > 1 && fault("sock.short_read", n->name)) k = (size_t)fault_int("sock.short_read.v", n->name, 1, (int64_t)k - 1);
			memcpy(buf, e.rx.data() + e.rxo, k);
			e.rxo += k;
			if (e.rxo == e.rx.size()) { e.rx.clear(); e.rxo = 0; }
			tcp_notify(f->conn->e[1 - f->side]);
			tr_mix(k);
			return (ssize_t)k;
		}
		if (e.so_error) { int er = e.so_error; e.so_error = 0; FAIL(er); }
		if (e.dead || e.rx_fin) return 0;
		if (!e.established) FAIL(EAGAIN);
		FAIL(EAGAIN);
	}
	case OFile::EVENTFD: {
		if (!f->counter) FAIL(EAGAIN);
		if (len < 8) FAIL(EINVAL);
		uint64_t v = f->counter; f->counter = 0; memcpy(buf, &v, 8); return 8;
	}
	case OFile::PIPE_R: {
		if (f->pipebuf->empty()) { if (f->nonblock) FAIL(EAGAIN); if (wait_ready(n, f, EPOLLIN) == -1) return -1; }
		size_t k = std::min(len, f->pipebuf->size()); memcpy(buf, f->pipebuf->data(), k); f->pipebuf->erase(0, k); return (ssize_t)k;
	}
	case OFile::STDIN: {
		if (fault("stdin.eintr", n->name)) FAIL(EINTR);
		if (f->in.empty() && !f->in_eof && f->stdin_kind == 0 && !f->read_err) {
			if (f->nonblock) FAIL(EAGAIN);
			if (wait_ready(n, f, EPOLLIN) == -1) return -1;
		}
		if (f->in.empty() && f->read_err) FAIL(f->read_err);
		size_t k = std::min(len, f->in.size());
		if (k > 1 && f->stdin_kind == 0 && fault("stdin.short", n->name)) k = (size_t)fault_int("stdin.short.v", n->name, 1, (int64_t)k - 1);
		memcpy(buf, f->in.data(), k); f->in.erase(0, k);
		return (ssize_t)k;
	}
	case OFile::REG: {
		if (f->off >= f->ino->data.size()) return 0;
		size_t k = std::min(len, f->ino->data.size() - f->off);
		memcpy(buf, f->ino->data.data() + f->off, k); f->off += k; return (ssize_t)k;
	}
	case OFile::FIFO_R: {
		if (f->ino->data.empty()) { if (f->ino->writers == 0) return 0; FAIL(EAGAIN); }
		size_t k = std::min(len, f->ino->data.size()); memcpy(buf, f->ino->data.data(), k); f->ino->data.erase(0, k); return (ssize_t)k;
	}
	case OFile::NUL: return 0;
	default: FAIL(EBADF);
	}
}
static void epipe(Node *n) {
	auto it = n->sig.find(SIGPIPE);
	if (it != n->sig.end() && it->second.ign) return;
	siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = SIGPIPE; si.si_code = SI_KERNEL;
	queue_signal(n, si);
	deliver_signals(n);
}
static ssize_t sim_write(int fd, const void *buf, size_t len) {
	ENTER("write");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	switch (f->type) {
	case OFile::TCP: {
		if (f->nonblock && fault("sock.eagain_w", n->name)) FAIL(EAGAIN);
		if (fault("sock.eintr", n->name)) FAIL(EINTR);
		if (len > 1 && fault("sock.short_write", n->name)) len = (size_t)fault_int("sock.short_write.v", n->name, 1, (int64_t)len - 1);
		Str tmp((const char *)buf, len);
		ssize_t r;
		while ((r = tcp_send(f->conn, f->side, tmp.data(), len)) == -EAGAIN) {
			if (f->nonblock) break;
			if (wait_ready(n, f, EPOLLOUT) == -1) return -1;
		}
		if (r == -EPIPE) { epipe(n); FAIL(EPIPE); }
		if (r < 0) FAIL((int)-r);
		return r;
	}
	case OFile::FIFO_W: {
		if (fault("fifo.eintr", n->name)) FAIL(EINTR);
		if (fault("fifo.eagain", n->name)) FAIL(EAGAIN);
		if (fault("fifo.eio", n->name)) FAIL(EIO);
		Str tmp((const char *)buf, len);
		ssize_t r;
		while ((r = fifo_write_raw(f->ino, tmp.data(), len, n->name, n->pid, n->kind != "server" && n->kind != "serversync")) == -EAGAIN) {
			if (f->nonblock) break;
			trace("%s: blocked writing to the FIFO", n->name.c_str());
			probe("fifo.blocking_write");
			if (wait_ready(n, f, EPOLLOUT) == -1) return -1;
		}
		if (r == -EPIPE) { epipe(n); FAIL(EPIPE); }
		if (r < 0) FAIL((int)-r);
		return r;
	}
	case OFile::EVENTFD: { uint64_t v; if (len < 8) FAIL(EINVAL); memcpy(&v, buf, 8); f->counter += v; return 8; }
	case OFile::PIPE_W: f->pipebuf->append((const char *)buf, len); return (ssize_t)len;
	case OFile::REG: {
		if ((f->flags & 3) == O_RDONLY) FAIL(EBADF);
		Str p = f->ino->path; bool dump = p.find("/nsca.") != Str::npos;
		if (dump && fault("dump.eintr", "dump")) FAIL(EINTR);
		if (dump && fault("dump.enospc", "dump")) { dump_failed(p, "write", f->ino->data + Str((const char *)buf, len)); FAIL(ENOSPC); }
		if (dump && len > 1 && fault("dump.short", "dump")) len = (size_t)fault_int("dump.short.v", "dump", 1, (int64_t)len - 1);
		Str tmp((const char *)buf, len);
		if (f->flags & O_APPEND) f->off = f->ino->data.size();
		ssize_t r = reg_write(f, tmp.data(), len, f->off); f->off += (size_t)r;
		if (!dump) W->bad_writes.push_back(n->name + " wrote " + std::to_string(len) + " bytes to " + p);
		tr_mix(len);
		return r;
	}
	case OFile::NUL: return (ssize_t)len;
	case OFile::LOG: if (fd == 2) err_write(n, (const char *)buf, len); else out_write(n, (const char *)buf, len); return (ssize_t)len;
	default: FAIL(EBADF);
	}
}
REAL(ssize_t, read, (int, void *, size_t)) ssize_t read(int fd, void *b, size_t l) { return N ? sim_read(fd, b, l) : real_read()(fd, b, l); }
REAL(ssize_t, write, (int, const void *, size_t)) ssize_t write(int fd, const void *b, size_t l) { return N ? sim_write(fd, b, l) : real_write()(fd, b, l); }
REAL(ssize_t, recv, (int, void *, size_t, int)) ssize_t recv(int fd, void *b, size_t l, int fl) { return N ? sim_read(fd, b, l) : real_recv()(fd, b, l, fl); }
REAL(ssize_t, send, (int, const void *, size_t, int)) ssize_t send(int fd, const void *b, size_t l, int fl) { return N ? sim_write(fd, b, l) : real_send()(fd, b, l, fl); }
ssize_t writev(int fd, const struct iovec *v, int c) {
	static ssize_t (*real)(int, const struct iovec *, int) = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
	if (!N) return real(fd, v, c);
	Str s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
	return sim_write(fd, s.data(), s.size());
}
static ssize_t sim_pwrite(int fd, const void *b, size_t l, off_t o) {
	ENTER("pwrite");
	OFile *f = fget(n, fd);
	if (!f || f->type != OFile::REG || (f->flags & 3) == 0) FAIL(EBADF);
	if (fault("pwrite.err", f->ino->path)) FAIL(ENOSPC);
	Str tmp((const char *)b, l);
	return reg_write(f, tmp.data(), l, (size_t)o);
}
REAL(ssize_t, pwrite, (int, const void *, size_t, off_t)) ssize_t pwrite(int fd, const void *b, size_t l, off_t o) { return N ? sim_pwrite(fd, b, l, o) : real_pwrite()(fd, b, l, o); }
ssize_t pwrite64(int fd, const void *b, size_t l, off64_t o) { static ssize_t (*r)(int, const void *, size_t, off64_t) = (ssize_t (*)(int, const void *, size_t, off64_t))dlsym(RTLD_NEXT, "pwrite64"); return N ? sim_pwrite(fd, b, l, o) : r(fd, b, l, o); }

// ---------------------------------------------------------------- AIO
// Pattern matching runs out of memory.
REAL(int, regexec, (const regex_t *, const char *, size_t, regmatch_t *, int))
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t *m, int fl) {
	if (!N) return real_regexec()(r, s, nm, m, fl);
	NoMem x;
	if (fault("regex.fail", N->name)) return REG_ESPACE;
	return real_regexec()(r, s, nm, m, fl);
}
REAL(int, aio_write, (struct aiocb *))
static int sim_aio_write(struct aiocb *cb);
int aio_write(struct aiocb *cb) noexcept { return N ? sim_aio_write(cb) : real_aio_write()(cb); }
int aio_write64(struct aiocb64 *cb) noexcept { return N ? sim_aio_write((struct aiocb *)cb) : -1; }
static void aio_finish(AioReq *r) {
	Node *n = r->n;
	struct aiocb *cb = (struct aiocb *)r->cb;
	if (r->cancelled || n->st == Node::EXITED || n->incarnation != r->incarnation) return;
	r->state = 2;
	if (cb->aio_sigevent.sigev_notify == SIGEV_SIGNAL) {
		siginfo_t si; memset(&si, 0, sizeof si);
		si.si_signo = cb->aio_sigevent.sigev_signo; si.si_code = SI_ASYNCIO; si.si_value = cb->aio_sigevent.sigev_value; si.si_pid = n->pid;
		queue_signal(n, si);
	}
	trace("%s: aio %llu complete (%zd, err %d)", n->name.c_str(), (unsigned long long)r->id, r->ret, r->err);
}
static void aio_exec(AioReq *r) {
	Node *n = r->n;
	if (r->cancelled || n->st == Node::EXITED || n->incarnation != r->incarnation) return;
	struct aiocb *cb = (struct aiocb *)r->cb;
	OFile *f = fget(n, cb->aio_fildes);
	if (!f || f->type != OFile::REG || (f->flags & 3) == 0) { r->err = EBADF; r->ret = -1; if (f && f->type != OFile::REG) violate("P12", "asynchronous write executed on descriptor %d, which is no regular file any more", cb->aio_fildes); }
	else if (fault("aio.err", "dump")) { dump_failed(f->ino->path, "aio", Str((const char *)cb->aio_buf, cb->aio_nbytes)); r->err = fault_int("aio.err.v", "dump", 0, 1) ? ENOSPC : EIO; r->ret = -1; }
	else {
		size_t len = cb->aio_nbytes;
		if (len > 1 && fault("aio.short", "dump")) dump_failed(f->ino->path, "short aio write", Str((const char *)cb->aio_buf, len)), len = (size_t)fault_int("aio.short.v", "dump", 1, (int64_t)len - 1);
		Str tmp((const char *)cb->aio_buf, len);
		r->ret = reg_write(f, tmp.data(), len, (size_t)cb->aio_offset);
		probe("aio.executed");
		if (len > 100000) probe("aio.large");
	}
	r->state = 1;
	tr_mix(r->id * 77 + (uint64_t)r->err);
	W->ihash = mix64(W->ihash ^ 0xa10);
	ev_after(1e-5 + fault_real("aio.done", "dump", 0, 2e-4), [r] { aio_finish(r); });
}
static int sim_aio_write(struct aiocb *cb) {
	ENTER("aio_write");
	if (fault("aio.submit", "dump")) { OFile *df = fget(n, cb->aio_fildes); dump_failed(df && df->ino ? df->ino->path : "?", "aio_write", Str((const char *)cb->aio_buf, cb->aio_nbytes)); FAIL(EAGAIN); }
	auto *r = new AioReq; r->cb = cb; r->n = n; r->incarnation = n->incarnation; r->id = W->aio_next++;
	n->aio[cb] = r;
	double d = fault_real("aio.lat", "dump", W->aio_min, W->aio_max);
	if (fault("aio.slow", "dump")) d += fault_real("aio.slow.v", "dump", 0.2, W->aio_slow_max);
	trace("%s: aio %llu queued, %zu bytes", n->name.c_str(), (unsigned long long)r->id, cb->aio_nbytes);
	ev_after(d, [r] { aio_exec(r); });
	return 0;
}
REAL(int, aio_error, (const struct aiocb *))
int aio_error(const struct aiocb *cb) noexcept {
	if (!N) return real_aio_error()(cb);
	NoMem nm; auto it = N->aio.find((void *)cb);
	if (it == N->aio.end()) return 0;
	return it->second->state < 2 ? EINPROGRESS : it->second->err;
}
REAL(ssize_t, aio_return, (struct aiocb *))
ssize_t aio_return(struct aiocb *cb) noexcept {
	if (!N) return real_aio_return()(cb);
	NoMem nm; auto it = N->aio.find((void *)cb);
	if (it == N->aio.end()) return 0;
	return it->second->ret;
}
REAL(int, aio_cancel, (int, struct aiocb *))
int aio_cancel(int fd, struct aiocb *cb) noexcept {
	if (!N) return real_aio_cancel()(fd, cb);
	NoMem nm; int res = AIO_ALLDONE;
	for (auto &p : N->aio) {
		struct aiocb *c = (struct aiocb *)p.first;
		if ((cb && c != cb) || p.second->state == 2 || p.second->cancelled) continue;
		if (!cb && c->aio_fildes != fd) continue;
		if (p.second->state == 0 && fault_int("aio.cancelable", "dump", 0, 1)) { p.second->cancelled = true; p.second->state = 2; p.second->err = ECANCELED; p.second->ret = -1; if (res == AIO_ALLDONE) res = AIO_CANCELED; }
		else res = AIO_NOTCANCELED;
	}
	return res;
}
REAL(int, aio_suspend, (const struct aiocb *const *, int, const struct timespec *))
int aio_suspend(const struct aiocb *const *l, int c, const struct timespec *ts) {
	if (!N) return real_aio_suspend()(l, c, ts);
	ENTER("aio_suspend");
	double dl = ts ? W->now + (double)ts->tv_sec + (double)ts->tv_nsec * 1e-9 : -1;
	auto done = [n, l, c] { for (int i = 0; i < c; i++) if (l[i]) { auto it = n->aio.find((void *)l[i]); if (it == n->aio.end() || it->second->state == 2) return true; } return false; };
	if (!done()) {
		node_block(done, dl);
		if (deliver_signals(n) && !done()) FAIL(EINTR);
		if (!done()) FAIL(EAGAIN);
	}
	return 0;
}
void aio_init(const struct aioinit *) noexcept {}

// ---------------------------------------------------------------- epoll, poll, select
REAL(int, epoll_create1, (int))
int epoll_create1(int fl) noexcept {
	if (!N) return real_epoll_create1()(fl);
	ENTER("epoll_create");
	if (fd_full(n)) FAIL(EMFILE);
	OFile *f = of_new(OFile::EPOLL); f->cloexec = (fl & EPOLL_CLOEXEC) != 0;
	return fd_alloc(n, f);
}
int epoll_create(int) noexcept { return epoll_create1(0); }
REAL(int, epoll_ctl, (int, int, int, struct epoll_event *))
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) noexcept {
	if (!N) return real_epoll_ctl()(ep, op, fd, ev);
	ENTER("epoll_ctl");
	OFile *e = fget(n, ep), *f = fget(n, fd);
	if (!e || e->type != OFile::EPOLL) FAIL(EBADF);
	if (!f) FAIL(EBADF);
	if (f->type == OFile::REG || (f->type == OFile::STDIN && f->stdin_kind == 1) || f->type == OFile::NUL || f->type == OFile::LOG) FAIL(EPERM);
	auto it = e->epf.find(fd);
	bool have = it != e->epf.end() && it->second == f;
	if (op == EPOLL_CTL_ADD && have) FAIL(EEXIST);
	if (op != EPOLL_CTL_ADD && !have) FAIL(ENOENT);
	if (op == EPOLL_CTL_DEL) { e->epf.erase(fd); e->ep.erase(fd); return 0; }
	e->epf[fd] = f; uint32_t evb = ev->events; uint64_t evd = ev->data.u64; e->ep[fd] = std::make_pair(evb, evd);
	return 0;
}
static std::vector<std::pair<int, uint32_t>> ep_scan(OFile *e) {
	std::vector<std::pair<int, uint32_t>> r;
	for (auto &p : e->ep) {
		OFile *f = e->epf[p.first];
		if (f->refs <= 0) continue;
		uint32_t m = ready_mask(f) & (p.second.first | EPOLLERR | EPOLLHUP);
		if (f->type == OFile::FIFO_W && m == EPOLLERR) probe("fifo.gone_while_full");
		if (m) r.push_back({p.first, m});
	}
	return r;
}
static bool ep_any(OFile *e) {
	for (auto &p : e->ep) {
		OFile *f = e->epf[p.first];
		if (f->refs > 0 && (ready_mask(f) & (p.second.first | EPOLLERR | EPOLLHUP))) return true;
	}
	return false;
}
REAL(int, epoll_wait, (int, struct epoll_event *, int, int))
int epoll_wait(int ep, struct epoll_event *evs, int max, int to) {
	if (!N) return real_epoll_wait()(ep, evs, max, to);
	ENTER("epoll_wait");
	OFile *e = fget(n, ep);
	if (!e || e->type != OFile::EPOLL) FAIL(EBADF);
	double dl = to < 0 ? -1 : W->now + to / 1000.0;
	if (to > 0 && fault("timer.late", n->name)) dl += fault_real("timer.late.v", n->name, 0.001, 0.5);
	if (!ep_any(e) && to != 0) {
		if (fault("epoll.eintr", n->name)) FAIL(EINTR);
		node_block([e] { return ep_any(e); }, dl);
	} else if (to == 0 && !ep_any(e)) {
		// A zero timeout polls once.
	}
	if (deliver_signals(n)) FAIL(EINTR);
	auto r = ep_scan(e);
	if (r.size() > 1) {
		uint64_t h = mix64(W->seed ^ (n->nsys * 977));
		for (size_t i = r.size() - 1; i > 0; i--) { std::swap(r[i], r[h % (i + 1)]); h = mix64(h); }
	}
	int k = 0;
	for (auto &x : r) { if (k >= max) break; evs[k].events = x.second; evs[k].data.u64 = e->ep[x.first].second; k++; W->ihash = mix64(W->ihash ^ (uint64_t)x.first * 31 ^ x.second); }
	return k;
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int to, const sigset_t *) { return epoll_wait(ep, evs, max, to); }
static short poll_bits(Node *n, int fd, short want) {
	OFile *f = fget(n, fd);
	if (!f) return POLLNVAL;
	uint32_t m = ready_mask(f); short r = 0;
	if (m & EPOLLIN) r |= POLLIN;
	if (m & EPOLLOUT) r |= POLLOUT;
	if (m & EPOLLERR) r |= POLLERR;
	if (m & EPOLLHUP) r |= POLLHUP;
	return (short)(r & (want | POLLERR | POLLHUP));
}
REAL(int, poll, (struct pollfd *, nfds_t, int))
int poll(struct pollfd *p, nfds_t c, int to) {
	if (!N) return real_poll()(p, c, to);
	ENTER("poll");
	double dl = to < 0 ? -1 : W->now + to / 1000.0;
	auto any = [n, p, c] { for (nfds_t i = 0; i < c; i++) if (p[i].fd >= 0 && poll_bits(n, p[i].fd, p[i].events)) return true; return false; };
	if (!any() && to != 0) node_block(any, dl);
	if (deliver_signals(n)) FAIL(EINTR);
	int k = 0;
	for (nfds_t i = 0; i < c; i++) { p[i].revents = p[i].fd >= 0 ? poll_bits(n, p[i].fd, p[i].events) : 0; if (p[i].revents) k++; }
	return k;
}
REAL(int, select, (int, fd_set *, fd_set *, fd_set *, struct timeval *))
int select(int nf, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	if (!N) return real_select()(nf, r, w, x, tv);
	ENTER("select");
	double dl = tv ? W->now + (double)tv->tv_sec + (double)tv->tv_usec * 1e-6 : -1;
	fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi);
	for (int i = 0; i < nf; i++) { if (r && FD_ISSET(i, r)) FD_SET(i, &ri); if (w && FD_ISSET(i, w)) FD_SET(i, &wi); if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w))) if (!fget(n, i)) FAIL(EBADF); }
	auto any = [n, ri, wi, nf] { for (int i = 0; i < nf; i++) { if (FD_ISSET(i, &ri) && poll_bits(n, i, POLLIN)) return true; if (FD_ISSET(i, &wi) && poll_bits(n, i, POLLOUT)) return true; } return false; };
	if (!any() && !(tv && tv->tv_sec == 0 && tv->tv_usec == 0)) node_block(any, dl);
	if (deliver_signals(n)) FAIL(EINTR);
	int k = 0;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (x) FD_ZERO(x);
	for (int i = 0; i < nf; i++) {
		if (FD_ISSET(i, &ri) && poll_bits(n, i, POLLIN)) { FD_SET(i, r); k++; }
		if (FD_ISSET(i, &wi) && poll_bits(n, i, POLLOUT)) { FD_SET(i, w); k++; }
	}
	if (tv) { // Linux updates the timeout
		double left = std::max(0.0, dl - W->now);
		tv->tv_sec = (time_t)left; tv->tv_usec = (suseconds_t)((left - (double)tv->tv_sec) * 1e6);
	}
	return k;
}
REAL(int, eventfd, (unsigned, int))
int eventfd(unsigned v, int fl) noexcept {
	if (!N) return real_eventfd()(v, fl);
	ENTER("eventfd");
	OFile *f = of_new(OFile::EVENTFD); f->counter = v; f->nonblock = (fl & EFD_NONBLOCK) != 0; f->cloexec = (fl & EFD_CLOEXEC) != 0;
	return fd_alloc(n, f);
}
REAL(int, pipe, (int *))
int pipe(int *p) noexcept {
	if (!N) return real_pipe()(p);
	ENTER("pipe");
	auto b = std::make_shared<Str>();
	OFile *r = of_new(OFile::PIPE_R), *w = of_new(OFile::PIPE_W); r->pipebuf = w->pipebuf = b;
	p[0] = fd_alloc(n, r); p[1] = fd_alloc(n, w);
	return 0;
}
int pipe2(int *p, int) noexcept { return pipe(p); }

// ---------------------------------------------------------------- sockets
REAL(int, socket, (int, int, int))
int socket(int d, int t, int p) noexcept {
	if (!N) return real_socket()(d, t, p);
	ENTER("socket");
	if (d != AF_INET) FAIL(EAFNOSUPPORT);
	if (fd_full(n) || fault("socket.emfile", n->name)) FAIL(EMFILE);
	OFile *f = of_new(OFile::NEWSOCK); f->nonblock = (t & SOCK_NONBLOCK) != 0; f->cloexec = (t & SOCK_CLOEXEC) != 0;
	return fd_alloc(n, f);
}
REAL(int, connect, (int, const struct sockaddr *, socklen_t))
int connect(int fd, const struct sockaddr *sa, socklen_t) {
	static R_connect_t real = (R_connect_t)dlsym(RTLD_NEXT, "connect");
	if (!N) return real(fd, sa, sizeof(struct sockaddr_in));
	ENTER("connect");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (f->type == OFile::TCP) {
		TcpEnd &e = f->conn->e[0];
		if (e.so_error) { int er = e.so_error; e.so_error = 0; FAIL(er); }
		if (e.established) FAIL(EISCONN);
		FAIL(EALREADY);
	}
	if (f->type != OFile::NEWSOCK) FAIL(EINVAL);
	const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
	char a[32]; inet_ntop(AF_INET, &in->sin_addr, a, sizeof a);
	int port = ntohs(in->sin_port);
	if (W->refuse_sync.count(a)) { trace("%s: connect %s refused at once", n->name.c_str(), a); note_fault("connect.refused_sync", a); FAIL(ECONNREFUSED); }
	uint64_t k = W->fctr["conn:" + n->name]++;
	TcpConn *c = tcp_new(W->net, n->name + "#" + std::to_string(k));
	c->e[0].owner = n;
	f->type = OFile::TCP; f->conn = c; f->side = 0;
	trace("%s: connect %s:%d", n->name.c_str(), a, port);
	if (W->refuse_async.count(a)) note_fault("connect.refused_async", a);
	if (W->blackhole.count(a)) note_fault("connect.blackhole", a);
	tcp_syn(c, a, port);
	if (f->nonblock) FAIL(EINPROGRESS);
	TcpEnd &e = c->e[0];
	node_block([&e] { return e.established || e.so_error; }, -1);
	if (e.so_error) { int er = e.so_error; e.so_error = 0; FAIL(er); }
	return 0;
}
REAL(int, bind, (int, const struct sockaddr *, socklen_t))
int bind(int fd, const struct sockaddr *sa, socklen_t l) noexcept {
	if (!N) return real_bind()(fd, sa, l);
	ENTER("bind"); ACT("binds a socket");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	f->lport = ntohs(((const struct sockaddr_in *)sa)->sin_port);
	{ char a[32]; inet_ntop(AF_INET, &((const struct sockaddr_in *)sa)->sin_addr, a, sizeof a); f->laddr = a; }
	if (W->listeners.count(f->lport)) FAIL(EADDRINUSE);
	return 0;
}
REAL(int, listen, (int, int))
int listen(int fd, int b) noexcept {
	if (!N) return real_listen()(fd, b);
	ENTER("listen"); ACT("listens");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (W->listeners.count(f->lport)) FAIL(EADDRINUSE);
	f->type = OFile::LISTEN; W->listeners[f->lport] = f;
	trace("%s: listening on port %d", n->name.c_str(), f->lport);
	return 0;
}
static int sim_accept(int fd, struct sockaddr *sa, socklen_t *sl) {
	ENTER("accept"); ACT("accepts connections");
	OFile *f = fget(n, fd);
	if (!f || f->type != OFile::LISTEN) FAIL(EBADF);
	if (f->backlog.empty()) { if (f->nonblock) FAIL(EAGAIN); if (wait_ready(n, f, EPOLLIN) == -1) return -1; }
	if (fd_full(n)) { probe("accept.emfile"); FAIL(EMFILE); }
	if (fault("accept.emfile", n->name)) FAIL(ENFILE);
	TcpConn *c = f->backlog.front();
	if (c->fragile && fault("accept.aborted", n->name)) { f->backlog.pop_front(); tcp_rst(c, 1); FAIL(ECONNABORTED); }
	f->backlog.pop_front();
	OFile *s = of_new(OFile::TCP); s->conn = c; s->side = 1;
	c->e[1].owner = n;
	if (sa) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons((uint16_t)c->client_port); inet_pton(AF_INET, c->client_addr.c_str(), &in.sin_addr); memcpy(sa, &in, std::min((size_t)*sl, sizeof in)); *sl = sizeof in; }
	int nf = fd_alloc(n, s);
	trace("%s: accept %s -> %d", n->name.c_str(), c->label.c_str(), nf);
	return nf;
}
REAL(int, accept, (int, struct sockaddr *, socklen_t *)) int accept(int fd, struct sockaddr *sa, socklen_t *sl) { return N ? sim_accept(fd, sa, sl) : real_accept()(fd, sa, sl); }
REAL(int, accept4, (int, struct sockaddr *, socklen_t *, int))
int accept4(int fd, struct sockaddr *sa, socklen_t *sl, int fl) {
	if (!N) return real_accept4()(fd, sa, sl, fl);
	int r = sim_accept(fd, sa, sl);
	if (r >= 0 && (fl & SOCK_NONBLOCK)) N->fds[r]->nonblock = true;
	return r;
}
REAL(int, getpeername, (int, struct sockaddr *, socklen_t *))
int getpeername(int fd, struct sockaddr *sa, socklen_t *sl) noexcept {
	if (!N) return real_getpeername()(fd, sa, sl);
	ENTER("getpeername");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (f->type != OFile::TCP || f->conn->e[f->side].dead) { probe("getpeername.enotconn"); FAIL(ENOTCONN); }
	struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons((uint16_t)f->conn->client_port); inet_pton(AF_INET, f->conn->client_addr.c_str(), &in.sin_addr);
	memcpy(sa, &in, std::min((size_t)*sl, sizeof in)); *sl = sizeof in;
	return 0;
}
REAL(int, getsockname, (int, struct sockaddr *, socklen_t *))
int getsockname(int fd, struct sockaddr *sa, socklen_t *sl) noexcept {
	if (!N) return real_getsockname()(fd, sa, sl);
	OFile *f = fget(N, fd);
	if (!f) FAIL(EBADF);
	struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons((uint16_t)f->lport);
	memcpy(sa, &in, std::min((size_t)*sl, sizeof in)); *sl = sizeof in;
	return 0;
}
REAL(int, getsockopt, (int, int, int, void *, socklen_t *))
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) noexcept {
	if (!N) return real_getsockopt()(fd, lv, o, v, l);
	OFile *f = fget(N, fd);
	if (!f) FAIL(EBADF);
	int r = 0;
	if (lv == SOL_SOCKET && o == SO_ERROR && f->type == OFile::TCP) { TcpEnd &e = f->conn->e[f->side]; r = e.so_error; e.so_error = 0; }
	if (lv == SOL_SOCKET && o == SO_TYPE) r = SOCK_STREAM;
	if (v && *l >= sizeof(int)) { memcpy(v, &r, sizeof r); *l = sizeof r; }
	return 0;
}
REAL(int, setsockopt, (int, int, int, const void *, socklen_t))
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) noexcept { if (!N) return real_setsockopt()(fd, lv, o, v, l); if (!fget(N, fd)) FAIL(EBADF); if (lv == IPPROTO_TCP && o == 31) FAIL(ENOPROTOOPT); return 0; }
REAL(int, shutdown, (int, int))
int shutdown(int fd, int how) noexcept {
	if (!N) return real_shutdown()(fd, how);
	ENTER("shutdown");
	OFile *f = fget(n, fd);
	if (!f) FAIL(EBADF);
	if (f->type != OFile::TCP) FAIL(ENOTCONN);
	if (f->conn->e[f->side].dead) FAIL(ENOTCONN);
	if (how != SHUT_RD) tcp_fin(f->conn, f->side);
	return 0;
}
REAL(int, getaddrinfo, (const char *, const char *, const struct addrinfo *, struct addrinfo **))
int getaddrinfo(const char *host, const char *srv, const struct addrinfo *hints, struct addrinfo **res) {
	if (!N) return real_getaddrinfo()(host, srv, hints, res);
	ENTER("getaddrinfo");
	std::vector<Str> addrs;
	if (hints && hints->ai_family == AF_INET6) return EAI_FAMILY;
	if (!host || !*host || !strcmp(host, "*")) addrs.push_back("0.0.0.0");
	else {
		auto it = W->dns.find(host);
		struct in_addr ia;
		if (it != W->dns.end()) addrs = it->second;
		else if (inet_pton(AF_INET, host, &ia) == 1) addrs.push_back(host);
		else return EAI_NONAME;
	}
	if (fault("dns.fail", n->name)) return EAI_AGAIN;
	struct addrinfo *head = nullptr, **tail = &head;
	for (auto &a : addrs) {
		struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai + sizeof(struct sockaddr_in));
		struct sockaddr_in *in = (struct sockaddr_in *)(ai + 1);
		in->sin_family = AF_INET; in->sin_port = htons((uint16_t)(srv ? atoi(srv) : 0)); inet_pton(AF_INET, a.c_str(), &in->sin_addr);
		ai->ai_family = AF_INET; ai->ai_socktype = SOCK_STREAM; ai->ai_protocol = IPPROTO_TCP; ai->ai_addrlen = sizeof *in; ai->ai_addr = (struct sockaddr *)in;
		*tail = ai; tail = &ai->ai_next;
	}
	*res = head;
	return 0;
}
REAL(void, freeaddrinfo, (struct addrinfo *))
void freeaddrinfo(struct addrinfo *a) noexcept {
	if (!N) { real_freeaddrinfo()(a); return; }
	while (a) { struct addrinfo *x = a->ai_next; free(a); a = x; }
}

// ---------------------------------------------------------------- syslog, systemd
void openlog(const char *, int, int) {}
void closelog(void) {}
static void sim_vsyslog(const char *f, va_list ap) {
	if (!N) return;
	NoMem nm; char *p = nullptr; int l = vasprintf(&p, f, ap);
	if (l >= 0) { Str s(p); s += "\n"; err_write(N, s.data(), s.size()); }
	free(p);
}
void syslog(int, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(f, ap); va_end(ap); }
void vsyslog(int, const char *f, va_list ap) { sim_vsyslog(f, ap); }
void __syslog_chk(int, int, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(f, ap); va_end(ap); }
// What libconfuse prints to the real standard error goes to that of the node.
static int lib_vfprintf(FILE *fp, const char *f, va_list ap) {
	static int (*real)(FILE *, const char *, va_list) = (int (*)(FILE *, const char *, va_list))dlsym(RTLD_NEXT, "vfprintf");
	if (!N || fp != stderr) return real(fp, f, ap);
	NoMem nm; char *p = nullptr; int l = vasprintf(&p, f, ap);
	if (l > 0) err_write(N, p, (size_t)l);
	free(p); return l;
}
int __vfprintf_chk(FILE *fp, int, const char *f, va_list ap) noexcept { return lib_vfprintf(fp, f, ap); }
int __fprintf_chk(FILE *fp, int, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = lib_vfprintf(fp, f, ap); va_end(ap); return r; }
int fputc(int c, FILE *fp) { static int (*real)(int, FILE *) = (int (*)(int, FILE *))dlsym(RTLD_NEXT, "fputc"); if (!N || fp != stderr) return real(c, fp); NoMem nm; char x = (char)c; err_write(N, &x, 1); return c; }
int fputs(const char *t, FILE *fp) { static int (*real)(const char *, FILE *) = (int (*)(const char *, FILE *))dlsym(RTLD_NEXT, "fputs"); if (!N || fp != stderr) return real(t, fp); NoMem nm; err_write(N, t, strlen(t)); return 1; }
int sd_listen_fds(int) {
	if (!N) return 0;
	NoMem nm; auto it = N->env.find("LISTEN_FDS");
	int k = it == N->env.end() ? 0 : atoi(it->second.c_str());
	for (int i = 3; i < 3 + k; i++) { auto f = N->fds.find(i); if (f == N->fds.end()) { errno = EBADF; return -EBADF; } f->second->cloexec = true; }
	return k;
}
int sd_notify(int, const char *s) {
	if (!N) return 0;
	ENTER("sd_notify");
	for (Str t = s; !t.empty();) { size_t e = t.find('\n'); n->notifications.push_back(t.substr(0, e)); n->notif_times.push_back(W->now); t = e == Str::npos ? Str() : t.substr(e + 1); }
	trace("%s: sd_notify %s", n->name.c_str(), s);
	return 1;
}
int sd_notifyf(int u, const char *f, ...) { va_list ap; va_start(ap, f); char b[512]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return sd_notify(u, b); }

// ---------------------------------------------------------------- hsearch
REAL(int, hcreate, (size_t))
int hcreate(size_t c) noexcept { if (!N) return real_hcreate()(c); return 1; }
REAL(void, hdestroy, (void))
void hdestroy(void) noexcept { if (!N) { real_hdestroy()(); return; } NoMem nm; N->hs_tab.clear(); }
REAL(ENTRY *, hsearch, (ENTRY, ACTION))
ENTRY *hsearch(ENTRY e, ACTION a) noexcept {
	if (!N) return real_hsearch()(e, a);
	NoMem nm;
	auto it = N->hs_tab.find(e.key);
	if (it != N->hs_tab.end()) return (ENTRY *)it->second;
	if (a == FIND) { errno = ESRCH; return nullptr; }
	ENTRY *p = (ENTRY *)malloc(sizeof *p); *p = e;
	N->hs_entries.push_back(p); N->hs_tab[e.key] = p;
	return p;
}

// ---------------------------------------------------------------- OpenSSL allocation failure
SSL *SSL_new(SSL_CTX *ctx) {
	static SSL *(*real)(SSL_CTX *) = (SSL * (*)(SSL_CTX *))dlsym(RTLD_NEXT, "SSL_new");
	if (N) { NoMem nm; if (fault("ssl_new.fail", N->name)) { ERR_put_error(ERR_LIB_SSL, 0, ERR_R_MALLOC_FAILURE, "sim", 1); return nullptr; } }
	return real(ctx);
}

} // extern "C"

// ---------------------------------------------------------------- randomness for OpenSSL
static uint64_t g_free_rnd = 88172645463325252ULL;
static int r_bytes(unsigned char *b, int n) {
	for (int i = 0; i < n; i++) {
		uint64_t v;
		if (g_actor_rng) v = g_actor_rng->u64();
		else if (g_node) v = mix64(g_node->rnd * 3 + (++g_node->rnd_ctr) * 0x9e3779b97f4a7c15ULL);
		else v = mix64(g_free_rnd += 0x9e3779b97f4a7c15ULL);
		b[i] = (unsigned char)(v >> 24);
	}
	return 1;
}
static int r_seed(const void *, int) { return 1; }
static int r_add(const void *, int, double) { return 1; }
static int r_status(void) { return 1; }
void sim_init_rand() {
	static RAND_METHOD m = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};
	RAND_set_rand_method(&m);
}

// ---------------------------------------------------------------- memory accounting
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static void hook_malloc(const volatile void *p, size_t sz) {
	if (g_nomem || !g_node || !g_node->mem) return;
	Node *n = g_node;
	g_nomem++;
	(*n->mem)[(void *)p] = sz; n->mem_live += sz; if (n->mem_live > n->mem_max) n->mem_max = n->mem_live;
	n->mem_count++;
	g_nomem--;
}
static void hook_free(const volatile void *p) {
	if (g_nomem || !g_node || !g_node->mem) return;
	Node *n = g_node;
	g_nomem++;
	auto it = n->mem->find((void *)p);
	if (it != n->mem->end()) {
		n->mem_live -= it->second; n->mem_count--;
		n->mem->erase(it);
	}
	g_nomem--;
}
void sim_install_mem_hooks() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free); }
