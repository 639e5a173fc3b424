// Deterministic simulator for nsca-ng: core data structures.
#pragma once
#include <algorithm>
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <queue>
#include <unordered_map>

typedef std::string Str;

// ---------------------------------------------------------------- randomness
uint64_t mix64(uint64_t x);
uint64_t hash_str(const char *s, uint64_t h = 0xcbf29ce484222325ULL);
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	Rng(uint64_t seed, const Str &name) : s(mix64(seed ^ hash_str(name.c_str()))) {}
	uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
	double uni() { return (double)(u64() >> 11) / 9007199254740992.0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1)); } // inclusive
	double real(double lo, double hi) { return lo + (hi - lo) * uni(); }
	bool chance(double p) { return uni() < p; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
};

// ---------------------------------------------------------------- kernel objects
struct Node;
struct OFile;
struct TcpConn;
struct TcpEnd;

struct TcpEnd {
	TcpConn *conn = nullptr;
	int side = 0; // 0 = connecting side, 1 = accepting side
	Str rx; size_t rxo = 0;
	bool rx_fin = false;      // FIN arrived
	int so_error = 0;         // pending error
	bool dead = false;        // reset or fully failed
	bool wr_shut = false;     // FIN sent
	bool closed = false;      // descriptor closed
	bool established = false;
	size_t inflight = 0;      // bytes sent by us, not yet arrived at peer
	double last_arrival = 0;  // arrival time of our last segment at the peer
	uint64_t seg_no = 0;
	std::function<void()> on_event; // actor notification
	bool notify_pending = false;
	bool gone = false;        // refers to a socket nobody holds
	size_t total_sent = 0, total_rcvd = 0; Str tail; // the last bytes sent
	Node *owner = nullptr;
	size_t avail() const { return rx.size() - rxo; }
};

struct NetProfile {
	double lat = 0.0005, jitter = 0.0005;
	int mss_min = 1, mss_max = 1460;
	int window = 65536;
};

struct TcpConn {
	uint64_t id = 0;
	TcpEnd e[2];
	NetProfile np;
	double hold_until = 0;  // partition: nothing is delivered before
	int port = 0;
	Str client_addr;
	int client_port = 0;
	bool refused = false;
	size_t corrupt_at = (size_t)-1; // byte offset (client to server direction) to corrupt
	int corrupt_side = 0;
	double created = 0;
	Str label;
	bool fragile = false;   // accept may find it aborted
};

struct Inode {
	enum Type { REG, FIFO, DIR } type = REG;
	uint64_t ino = 0;
	int mode = 0600;
	int uid = 0;
	int nlink = 1;
	Str data;               // REG contents or FIFO buffer
	OFile *lock = nullptr;  // flock holder
	std::set<OFile *> shared; // shared flock holders
	int readers = 0, writers = 0; // FIFO
	size_t cap = 65536;
	int open_count = 0;     // open descriptions
	Str path;
	int wr_open = 0;        // open for writing (REG)
	std::vector<Node *> dummy;
	bool reader_blocked = false;
};

struct OFile {
	enum Type { TCP, LISTEN, NEWSOCK, FIFO_W, FIFO_R, REG, EPOLL, EVENTFD, PIPE_R, PIPE_W, STDIN, NUL, LOG, DIRF } type = NUL;
	int refs = 0;
	int flags = 0, born = -1; // born: incarnation of the process that opened it
	bool nonblock = false;
	bool cloexec = false;
	TcpConn *conn = nullptr; int side = 0;
	int lport = 0; Str laddr;
	std::deque<TcpConn *> backlog;
	std::shared_ptr<Inode> ino; size_t off = 0;
	std::map<int, std::pair<uint32_t, uint64_t>> ep; // epoll: fd -> (events, data)
	std::map<int, OFile *> epf;                      // epoll: fd -> description at registration
	uint64_t counter = 0;                            // eventfd
	std::shared_ptr<Str> pipebuf;
	// STDIN
	int stdin_kind = 0; // 0 pipe, 1 regular file
	Str in; size_t ino_off = 0; bool in_eof = false;
	int read_err = 0;
	uint64_t serial = 0;
};

// ---------------------------------------------------------------- nodes
struct ProgCopy { void *h = nullptr; int (*main)(int, char **) = nullptr; Str kind; bool used = false; };

struct SigAct { void (*h)(int) = nullptr; void (*sa)(int, siginfo_t *, void *) = nullptr; int flags = 0; bool ign = false; sigset_t mask; };

struct AioReq { void *cb = nullptr; int state = 0; /*0 pending 1 executed 2 done*/ int err = 0; ssize_t ret = 0; bool cancelled = false; uint64_t id = 0; Node *n = nullptr; int incarnation = 0; };

struct LogLine { double t; Str text; int incarnation; };

struct Node {
	Str name;            // "server", "client1", ...
	Str kind;            // program kind: "server", "serversync", "client", "perl", "python"
	int idx = 0;
	pthread_t th{};
	bool started = false;
	sem_t baton;
	enum St { IDLE, READY, BLOCKED, EXITED } st = IDLE;
	std::function<bool()> wake;
	double deadline = -1;
	double stalled_until = 0;
	long nomem_k = 0; int mem_fails = 0; double mem_fail_t = -1; size_t mem_fail_log = 0; // the nomem_k-th allocation from now on fails
	bool lock_refused = false;   // flock told it that someone else holds the lock
	bool killed = false;
	jmp_buf top;
	std::vector<Str> argv; std::map<Str, Str> env;
	Str exe = "/usr/sbin/nsca-ng"; bool in_path = true; // what execvp() can find
	std::vector<char *> cargv;
	int pid = 0, uid = 0, ruid = 0, suid = 0, gid = 0, rgid = 0, sgid = 0; Str groups = "root", root; // credentials, root directory ("" or a path)
	std::function<void(Node *, const char *)> priv_check; // called before it acts on the world
	Str cwd = "/";
	std::map<int, OFile *> fds;
	int fd_limit = 256;
	std::map<int, SigAct> sig;
	sigset_t blocked;
	std::deque<siginfo_t> pending;
	int in_handler = 0;
	std::vector<void (*)(void)> atexits;
	int exit_code = -1; bool exited = false; double exit_time = 0; bool signaled = false; int term_sig = 0;
	bool do_exec = false;
	int incarnation = 0;
	ProgCopy *prog = nullptr;
	std::vector<LogLine> log; Str logpart; FILE *errf = nullptr; FILE *outf = nullptr; Str out;
	std::map<Str, void *> hs_tab; std::vector<void *> hs_entries;
	uint64_t rnd = 1; uint64_t rnd_ctr = 0;
	uint64_t nsys = 0, nsys_at_progress = 0;
	double last_block_time = 0;
	uint64_t sys_since_block = 0, max_sys_since_block = 0;
	std::map<void *, AioReq *> aio;
	std::vector<Str> notifications; std::vector<double> notif_times;
	bool wants_exec_fail = false;
	int accept_faults = 0;
	std::function<void(Node *)> on_exit;
	std::function<int(Node *)> entry; // instead of prog main (library drivers)
	// memory accounting
	std::unordered_map<void *, size_t> *mem = nullptr;
	size_t mem_live = 0, mem_max = 0, mem_count = 0;
	double start_time = 0;
	double cpu_spent = 0;
	int open_files_hint = 0;
	Str ev_flags;
	double slow_factor = 1;
};

// ---------------------------------------------------------------- history
struct Violation { Str prop, msg; };

struct FaultRec { Str kind; Str ent; uint64_t n; double t; };

struct FifoWrite { double t; Str data; int pid; Str who; uint64_t ino; bool foreign; };

struct Op { int id; Str text; }; // for human readable schedules

struct World {
	uint64_t seed = 0;
	Str prop, scenario;
	double now = 0;           // monotonic seconds since boot
	double wall_off = 0;      // CLOCK_REALTIME = now + wall_off
	std::vector<Str> secrets; // passwords that must appear neither on the wire nor in messages
	void secret(const Str &s) { if (s.size() >= 9 && std::find(secrets.begin(), secrets.end(), s) == secrets.end()) secrets.push_back(s); }
	bool faults_on = true;
	double fault_scale = 1.0;
	double preempt_p = 0.05;
	double end_time = 1e9;
	bool ended = false;
	uint64_t steps = 0, max_steps = 3000000;
	uint64_t max_spin = 60000;
	std::map<Str, double> fp;                       // fault probabilities
	std::map<Str, uint64_t> fctr;                   // counters per kind:entity
	std::set<Str> fmask;                            // suppressed fault instances, and whole kinds
	std::vector<FaultRec> ftrace;
	std::map<Str, uint64_t> fcount;
	std::map<Str, uint64_t> probes;
	std::set<int> opmask;                           // suppressed operations
	std::vector<Op> ops;
	std::vector<Violation> viols;
	uint64_t thash = 0xcbf29ce484222325ULL;         // full trace hash
	uint64_t ihash = 0xcbf29ce484222325ULL;         // interleaving hash (no data, no times)
	uint64_t nevents = 0, nswitch = 0;
	std::vector<Str> trace; bool keep_trace = false; size_t trace_cap = 200000;
	std::vector<std::unique_ptr<Node>> nodes;
	std::map<Str, std::shared_ptr<Inode>> fs;
	uint64_t next_ino = 1000, next_conn = 1, next_of = 1, next_pid = 1000;
	std::map<int, OFile *> listeners;               // port -> listening file
	std::vector<std::unique_ptr<TcpConn>> conns;
	std::vector<FifoWrite> fifo_writes;
	std::map<int, std::function<void(TcpConn *)>> actor_listen; // port -> fake server accept
	std::map<Str, std::vector<Str>> dns;            // host -> addresses ("10.0.0.1")
	std::set<Str> blackhole, refuse_async, refuse_sync; // addresses
	NetProfile net;
	std::function<void(const FifoWrite &)> on_fifo_write;
	std::function<void(Node *, const Str &)> on_log;
	std::function<void(Node *)> on_daemon;
	std::vector<Str> notes;
	size_t sched_pick = 0;
	bool mem_track = false;
	double sys_cost = 2e-6;
	bool exec_ok = true;
	std::map<Str, Str> sample;
	uint64_t aio_next = 1;
	double aio_min = 0.0001, aio_max = 0.005, aio_slow_max = 4;
	Str crashed;
	bool non_fifo_written = false;
	std::map<Str, Str> failed_dumps; // dump files whose creation was made to fail
	struct DumpFail { double t; bool known; Str data; };
	std::vector<DumpFail> dump_fails; // when, and (unless not even a file was made) with which data
	std::vector<Str> bad_writes; // writes to unexpected regular files
	std::set<uint64_t> conn_reset_by_fault;
	std::vector<std::function<void()>> at_end;
	std::function<void()> monitor; // looks at the state before every scheduling decision
};

extern World *W;
extern __thread Node *g_node;      // node whose code is running on this thread
extern __thread Rng *g_actor_rng;  // set while actor code uses OpenSSL
extern __thread bool g_in_sim;     // this thread belongs to the simulation (sees simulated time)

// scheduling / time
void ev_at(double t, std::function<void()> f, const char *what = "");
void ev_after(double dt, std::function<void()> f, const char *what = "");
void run_world();
Node *new_node(const Str &name, const Str &kind, const std::vector<Str> &argv);
void start_node(Node *n);
void kill_node(Node *n, int sig);   // SIGKILL-like crash
void signal_node(Node *n, int sig);
void stall_node(Node *n, double dur);
int node_syscall_enter(const char *name, bool can_preempt = true);
void node_block(std::function<bool()> wake, double deadline); // returns when woken
bool deliver_signals(Node *n); // true if a handler ran
void node_exit(int code) __attribute__((noreturn));

// faults
bool fault(const char *kind, const Str &ent);
double fault_real(const char *kind, const Str &ent, double lo, double hi);
int64_t fault_int(const char *kind, const Str &ent, int64_t lo, int64_t hi);
void note_fault(const Str &kind, const Str &ent); // scheduled faults
void probe(const Str &name);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tr_mix(uint64_t v);
void violate(const Str &prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool op_enabled(int id, const Str &text);
Str quote(const Str &s, size_t max = 120);

// network for actors
TcpConn *actor_connect(int port, const Str &addr, std::function<void()> ev, const NetProfile &np);
ssize_t tcp_send(TcpConn *c, int side, const char *d, size_t n);
Str tcp_take(TcpConn *c, int side);
void tcp_fin(TcpConn *c, int side);
void tcp_rst(TcpConn *c, int side);
void tcp_close(TcpConn *c, int side); // close(2) semantics
void tcp_notify(TcpEnd &e);

// fs helpers
std::shared_ptr<Inode> fs_get(const Str &path);
std::shared_ptr<Inode> fs_mk(const Str &path, Inode::Type t, const Str &data = "", int mode = 0600);
void fs_rm(const Str &path);

// fifo for actors
OFile *of_new(OFile::Type t);
void of_unref(OFile *f);
int fifo_write_raw(const std::shared_ptr<Inode> &i, const char *d, size_t n, const Str &who, int pid, bool foreign);

bool crash_report(Str &out);
