// Reference models, ledger of commands, and helpers shared by the scenarios.
#pragma once
#include "core.h"
#include "actors.h"
#include <regex.h>

// ---------------------------------------------------------------- registry
typedef void (*ScenFn)(Rng &);
struct ScenReg { ScenReg(const char *name, ScenFn f); };
struct PlanEntry { Str scen; int weight; };
struct Plan { Str prop; std::vector<PlanEntry> e; int quick_runs; };
std::map<Str, ScenFn> &scen_table();
const std::vector<Plan> &plans();

// ---------------------------------------------------------------- configuration
struct AuthSec { Str id, pw; std::vector<Str> hosts, services, commands; bool has_pw = true; };
struct SrvCfg {
	Str path = "/etc/nsca-ng.cfg", fifo = "/var/nagios.cmd", tmp = "/tmp", pid, bind = "*:5668";
	long max_cmd = -1, max_queue = -1, log_level = 3;
	double timeout = -1;
	std::vector<AuthSec> auth;
	Str g_pw; std::vector<Str> g_hosts, g_services, g_commands; bool use_globals = false;
	bool daemonize = false, sync = false, activated = false; // activated: by systemd, with the listening socket
	Str extra; // further configuration text
	std::vector<Str> args; // further command line arguments
	Str root; // chroot; the paths above are as seen from outside
	double watchdog = 0; Str watchdog_env;
	Str text() const;
	const AuthSec *find(const Str &id) const;
	bool allowed(const Str &id, const Str &data) const; // the reference authorization
	Str pw_of(const Str &id) const;
};
Str cfg_quote(const Str &s);
void write_cfg(const SrvCfg &c);
void give_socket(Node *n, int port);
Node *make_server(const Str &name, const SrvCfg &c, double at = 0);
void world_fs(const SrvCfg &c);    // directories, and the FIFO
std::shared_ptr<Reader> make_reader(const SrvCfg &c, double at, Rng &g);

// ---------------------------------------------------------------- ledger
struct Cmd {
	int id; Str key;          // text without the leading "[digits] ", with the newline
	Str text;                 // exact text if known
	Str who; int session = -1, seq = 0;
	bool allowed = true;
	double t_first = -1, t_sent = -1, t_ack = -1, t_nak = -1; // data sent from / completely, answered
	int delivered = 0; double t_del = -1; bool via_dump = false; int order = -1; Str dump;
	bool excused = false;
	bool may_repeat = false; // an at-least-once submitter
	double t_out = -1;       // when the delivering FIFO write happened
	Str peer, sid;           // whom the log must name as its sender
};
struct Ledger {
	std::vector<std::unique_ptr<Cmd>> v;
	std::unordered_map<Str, Cmd *> by_key;
	std::vector<std::vector<Cmd *>> dumps; // contents of each named dump file
	int n_direct = 0, n_process_file = 0;
	std::set<Str> named;
	Str tmp_dir;
	int order = 0;
	double t_last_delivery = -1;
	size_t acked() const;
	bool check_ts = true;
	Cmd *add(const Str &who, const Str &text, bool allowed);
	void on_write(const FifoWrite &w);
	void line(const Str &l, bool via_dump, const Str &dump, const FifoWrite &w, std::vector<Cmd *> *out);
};
extern Ledger *L;
Str strip_ts(const Str &s, bool *had = nullptr);
void ledger_init(const SrvCfg &c);
void check_delivery(const Str &prop, double bound_note = 0); // every acknowledged command delivered
void check_order();

// ---------------------------------------------------------------- scripted protocol sessions
enum ReqKind { RQ_LINE, RQ_PUSH, RQ_DATA, RQ_WAIT, RQ_RAW };
struct Req { ReqKind k; Str line; Cmd *cmd = nullptr; Str data; double wait = 0; };
struct Session {
	PeerP p; int id; Str name, ident;
	const SrvCfg *cfg = nullptr;
	std::vector<Req> script; size_t pos = 0;
	enum { S_HAND, S_CONN, S_DATA, S_END } st = S_HAND;
	bool started = false, done = false, failed = false, must_succeed = true, finished_ok = false;
	bool line_pending = false;      // a request was sent, its response has not come
	Str expect; bool expect_close = false; bool bail_ok = false;
	double t0 = 0, t_done = -1, think_lo = 0, think_hi = 0.01, t_req = -1;
	int n_ok = 0; Str fail_reason;
	size_t need = 0; Cmd *cur = nullptr; Str cur_data;
	double max_wait = 0; // longest time a response took
	Rng rng;
	Str prop_fail = "P10";
	std::function<void()> on_done, on_started;
	bool crlf = true; int port = 5668;
	Str sid;                 // the session ID it announced, if that's printable
	double hold_p = 0, hold_until = -1; // probability that the end of a message is sent later
	std::vector<Str> also;              // further properties its failures count for
	explicit Session(const Str &nm, const SrvCfg &c, const Str &ident, const Str &pw);
	void start(double at);
	void step();
	void line(const Str &l);
	void finish(bool ok, const Str &why);
	void send_held(const Str &d, std::function<void()> sent);
	void mism(const char *prop, const Str &msg);
	int pushes() const;
};
typedef std::shared_ptr<Session> SessP;
SessP new_session(const Str &nm, const SrvCfg &c, const Str &ident, const Str &pw);
std::vector<SessP> &all_sessions();
Str proto_model(int &st, const Str &line, size_t max_cmd, size_t &need, bool &close); // expected response prefix
void add_push(SessP s, Rng &g, const Str &text, bool allowed);
Str mk_cmd(Rng &g, size_t len = 0);       // a command every generated configuration allows to "full" identities
Str uniq();
int port_base(); // of the run's ports                               // fresh unique marker
SessP simple_session(const Str &nm, const SrvCfg &c, Rng &g, double at, int n_cmds, size_t maxlen = 200);
void check_audit();                          // P26, at the end of the run
void expect_sessions_done(const Str &prop); // at the end of the run
Str long_id(Rng &g, const Str &id);
Str rand_pw(Rng &g, size_t lo = 1); // sometimes as long as OpenSSL allows, or longer
SrvCfg base_cfg(Rng &g, int n_ids = 3);
void rand_net(Rng &g, NetProfile &np);
void rand_peer(Rng &g, TlsPeer &p);
void rand_sched(Rng &g);
void base_faults(Rng &g, double scale);   // transient system-call faults
bool srv_alive(Node *n);
void server_must_live(Node *n);
Str rand_text(Rng &g, size_t len, bool nasty = false);
double wall();

// ---------------------------------------------------------------- standard run layout
// Active phase with faults until T1, then everything heals; the run ends at T2.
struct Env { SrvCfg c; Node *srv = nullptr; std::shared_ptr<Reader> rd; double t0, T1, T2; bool reader_from_start = true, must_live = true; };
Env *env_begin(Rng &g, const SrvCfg &c, double active, double settle, double fault_scale, bool reader = true);
bool op(Rng &g, Rng &h, const Str &text); // draws h; false when the operation is suppressed
void reader_script(Env *e, Rng &g, int level); // 0 steady .. 2 long outages
void disturb_session(Env *e, Rng &g, SessP s);  // abort or delay it at a random moment
int cfg_allowed3(const SrvCfg &c, const Str &id, const Str &d);
Str tagged(const Str &what);

// send_nsca
struct CliRun { Node *n = nullptr; OFile *in = nullptr; Str input; Str name; };
CliRun make_client(const Str &name, const Str &conf_path, const std::vector<Str> &args, double at);
Str client_cfg(const Str &id, const Str &pw, const Str &server, int port, double timeout, int delay = 0);
void feed_stdin(CliRun &c, Rng &g, const Str &input, bool pipe, double pause); // in random pieces
