// Check driver: seeded search over simulated runs, minimisation, replay, evidence.
#include "model.h"
#include "progapi.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <regex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <openssl/ssl.h>

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:detect_odr_violation=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=8192:malloc_fill_byte=10:"
	       "detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:symbolize=1:fast_unwind_on_malloc=1:handle_sigxcpu=0";
}

// ---------------------------------------------------------------- program copies
static std::vector<std::unique_ptr<ProgCopy>> g_progs;
static Str g_build;
static Str g_tmpdir;
static void load_copies(const Str &kind, int n) {
	Str src = g_build + "/" + kind + ".so";
	FILE *f = fopen(src.c_str(), "rb");
	if (!f) { fprintf(stderr, "cannot open %s\n", src.c_str()); exit(3); }
	Str data; char b[65536]; size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) data.append(b, k);
	fclose(f);
	for (int i = 0; i < n; i++) {
		Str p = g_tmpdir + fmt("/%s.%d.so", kind.c_str(), i);
		FILE *o = fopen(p.c_str(), "wb");
		if (!o || fwrite(data.data(), 1, data.size(), o) != data.size()) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(3); }
		fclose(o);
		void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
		auto c = std::make_unique<ProgCopy>();
		c->h = h; c->kind = kind; c->main = (int (*)(int, char **))dlsym(h, "main");
		g_progs.push_back(std::move(c));
	}
}
ProgCopy *prog_take(const Str &kind) {
	for (auto &p : g_progs) if (!p->used && p->kind == kind) { p->used = true; return p.get(); }
	fprintf(stderr, "out of program copies of kind %s\n", kind.c_str());
	_exit(71);
}

// ---------------------------------------------------------------- plans and run specifications
struct RunSpec {
	Str prop, scen; uint64_t seed = 0;
	std::set<Str> fmask; std::set<int> opmask;
	bool nopreempt = false, calm = false; // calm: one network profile without jitter
	bool trace = false; bool nogate = false;
};
struct RunResult {
	bool infra = false; Str infra_why;
	std::vector<Violation> viols;
	uint64_t thash = 0, ihash = 0, steps = 0, nsw = 0, nfw = 0;
	double simt = 0, cpu = 0;
	std::map<Str, uint64_t> fcount, probes;
	std::vector<FaultRec> ftrace; std::vector<Op> ops;
	std::vector<Str> trace; std::vector<Str> nodes;
	std::map<Str, Str> sample;
	uint64_t ncmd = 0, nack = 0, ndel = 0;
	Str err;
};

// serialisation: length-prefixed strings
struct Ser { Str b; void s(const Str &x) { u(x.size()); b += x; } void u(uint64_t x) { b.append((char *)&x, 8); } void d(double x) { b.append((char *)&x, 8); } };
struct Des { const Str &b; size_t o = 0; bool bad = false; explicit Des(const Str &x) : b(x) {}
	uint64_t u() { uint64_t x = 0; if (o + 8 > b.size()) { bad = true; return 0; } memcpy(&x, b.data() + o, 8); o += 8; return x; }
	double d() { double x = 0; if (o + 8 > b.size()) { bad = true; return 0; } memcpy(&x, b.data() + o, 8); o += 8; return x; }
	Str s() { uint64_t n = u(); if (bad || n > b.size() - o) { bad = true; return ""; } Str r = b.substr(o, n); o += n; return r; } };

static int g_resfd = -1;
static void dump_result() {
	Ser r;
	r.u(0x4e534341);
	r.u(W->viols.size()); for (auto &v : W->viols) { r.s(v.prop); r.s(v.msg); }
	r.u(W->thash); r.u(W->ihash); r.u(W->steps); r.u(W->nswitch); r.u(W->fifo_writes.size()); r.d(W->now);
	r.u(W->fcount.size()); for (auto &p : W->fcount) { r.s(p.first); r.u(p.second); }
	r.u(W->probes.size()); for (auto &p : W->probes) { r.s(p.first); r.u(p.second); }
	r.u(W->ftrace.size()); for (auto &f : W->ftrace) { r.s(f.kind); r.s(f.ent); r.u(f.n); r.d(f.t); }
	r.u(W->ops.size()); for (auto &o : W->ops) { r.u((uint64_t)o.id); r.s(o.text); }
	r.u(W->trace.size()); for (auto &t : W->trace) r.s(t);
	std::set<Str> nk; for (auto &n : W->nodes) if (n->started) nk.insert(n->kind);
	r.u(nk.size()); for (auto &k : nk) r.s(k);
	r.u(W->sample.size()); for (auto &p : W->sample) { r.s(p.first); r.s(p.second); }
	uint64_t nc = 0, na = 0, nd = 0;
	if (L) for (auto &c : L->v) { nc++; na += c->t_ack >= 0; nd += c->delivered > 0; }
	r.u(nc); r.u(na); r.u(nd);
	r.u(0x454e4421);
	size_t o = 0;
	while (o < r.b.size()) { ssize_t k = pwrite(g_resfd, r.b.data() + o, r.b.size() - o, (off_t)o); if (k <= 0) _exit(72); o += (size_t)k; }
}
static void on_xcpu(int) {
	// A node computes without ever making a system call.
	Str who = g_node ? g_node->name : Str("simulator");
	W->viols.insert(W->viols.begin(), {"HANG", who + " used up the CPU limit" + fmt(" (t=%.6f, %llu steps, %llu switches)", W->now, (unsigned long long)W->steps, (unsigned long long)W->nswitch)});
	dump_result();
	_exit(0);
}
static bool parse_result(const Str &b, RunResult &x) {
	Des r(b);
	if (r.u() != 0x4e534341) return false;
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { Str p = r.s(); x.viols.push_back({p, r.s()}); }
	x.thash = r.u(); x.ihash = r.u(); x.steps = r.u(); x.nsw = r.u(); x.nfw = r.u(); x.simt = r.d();
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { Str p = r.s(); x.fcount[p] = r.u(); }
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { Str p = r.s(); x.probes[p] = r.u(); }
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { FaultRec f; f.kind = r.s(); f.ent = r.s(); f.n = r.u(); f.t = r.d(); x.ftrace.push_back(f); }
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { Op o; o.id = (int)r.u(); o.text = r.s(); x.ops.push_back(o); }
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) x.trace.push_back(r.s());
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) x.nodes.push_back(r.s());
	for (uint64_t n = r.u(); n-- > 0 && !r.bad;) { Str p = r.s(); x.sample[p] = r.s(); }
	x.ncmd = r.u(); x.nack = r.u(); x.ndel = r.u();
	return r.u() == 0x454e4421 && !r.bad;
}

static int g_cpu_limit = 25;
static void child_run(const RunSpec &s) {
	signal(SIGXCPU, on_xcpu);
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5};
	setrlimit(RLIMIT_CPU, &rl);
	rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	W = new World;
	W->seed = s.seed; W->prop = s.prop; W->scenario = s.scen;
	W->fmask = s.fmask; W->opmask = s.opmask; W->keep_trace = s.trace;
	Rng g(s.seed, "scen:" + s.scen);
	W->wall_off = 1700000000.0 + (double)(s.seed % 1000003);
	W->now = 1000.0;
	auto it = scen_table().find(s.scen);
	if (it == scen_table().end()) { fprintf(stderr, "no scenario %s\n", s.scen.c_str()); _exit(73); }
	it->second(g);
	if (s.nopreempt) W->preempt_p = 0;
	if (s.calm) { W->net = NetProfile(); }
	run_world();
	for (auto &f : W->at_end) f();
	dump_result();
	_exit(0);
}

// ---------------------------------------------------------------- running many
static int g_jobs = 8;
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static Str read_all(int fd, size_t cap) {
	Str r; off_t o = 0; char b[65536]; ssize_t k;
	while (r.size() < cap && (k = pread(fd, b, sizeof b, o)) > 0) { r.append(b, (size_t)k); o += k; }
	return r;
}
struct Slot { pid_t pid = -1; int res = -1, err = -1; size_t idx = 0; double t0 = 0; };
static void collect(Slot &sl, int status, double cpu, RunResult &x) {
	x.cpu = cpu;
	x.err = read_all(sl.err, 20000);
	Str b = read_all(sl.res, 1u << 28);
	bool ok = parse_result(b, x);
	if (!ok) x = RunResult(), x.err = read_all(sl.err, 20000), x.cpu = cpu;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && ok) return;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 99) { // sanitizer report
		Str l = x.err; size_t p = l.find("ERROR: AddressSanitizer");
		Str msg = p == Str::npos ? l.substr(0, 300) : l.substr(p, 1500);
		// the most telling lines: kind and first frames inside the program
		Str sum; size_t a = 0; int nf = 0;
		while (a < msg.size()) {
			size_t e = msg.find('\n', a); if (e == Str::npos) e = msg.size();
			Str ln = msg.substr(a, e - a); a = e + 1;
			if (ln.find("ERROR:") != Str::npos) sum += ln;
			else if (ln.find("    #") != Str::npos && ln.find(" in ") != Str::npos && nf < 4) {
				Str fr = ln.substr(ln.find(" in ") + 4);
				if (fr.find("/sim/") != Str::npos || fr.find("interceptor") != Str::npos) continue;
				sum += " | " + fr; nf++;
			}
		}
		// addresses vary with nothing here, but keep the message short and stable
		x.viols.insert(x.viols.begin(), {"CRASH", sum});
		return;
	}
	if (WIFSIGNALED(status) && WTERMSIG(status) != SIGKILL && WTERMSIG(status) != SIGTERM && WTERMSIG(status) != SIGINT && WTERMSIG(status) != SIGHUP) {
		x.viols.insert(x.viols.begin(), {"CRASH", fmt("killed by signal %d: ", WTERMSIG(status)) + x.err.substr(0, 300)});
		return;
	}
	x.infra = true;
	x.infra_why = WIFEXITED(status) ? fmt("exit status %d: ", WEXITSTATUS(status)) : fmt("signal %d: ", WTERMSIG(status));
	x.infra_why += x.err.substr(0, 500);
}
// Runs specs; done(i, result) is called in completion order; returns when all ended or stop() is true.
static void run_many(const std::function<bool(size_t, RunSpec &)> &next, const std::function<void(size_t, const RunSpec &, RunResult &)> &done) {
	std::vector<Slot> slots((size_t)g_jobs);
	std::vector<RunSpec> specs((size_t)g_jobs);
	size_t i = 0; bool more = true; int active = 0;
	for (;;) {
		for (size_t k = 0; k < slots.size() && more; k++) {
			Slot &s = slots[k];
			if (s.pid != -1) continue;
			if (!next(i, specs[k])) { more = false; break; }
			s.idx = i++; s.t0 = mono();
			s.res = memfd_create("res", MFD_CLOEXEC); s.err = memfd_create("err", MFD_CLOEXEC);
			fflush(stdout); fflush(stderr);
			s.pid = fork();
			if (s.pid == 0) {
				g_resfd = s.res;
				dup2(s.err, 2); dup2(s.err, 1);
				child_run(specs[k]);
			}
			if (s.pid < 0) { perror("fork"); exit(3); }
			active++;
		}
		if (active == 0) break;
		int st; struct rusage ru;
		pid_t p = wait4(-1, &st, 0, &ru);
		if (p < 0) { if (errno == EINTR) continue; perror("wait4"); exit(3); }
		for (size_t k = 0; k < slots.size(); k++) if (slots[k].pid == p) {
			Slot &s = slots[k];
			double cpu = (double)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) + (double)(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1e6;
			RunResult x; collect(s, st, cpu, x);
			close(s.res); close(s.err); s.pid = -1; active--;
			done(s.idx, specs[k], x);
			break;
		}
	}
}
static std::vector<RunResult> run_batch(const std::vector<RunSpec> &v) {
	std::vector<RunResult> r(v.size());
	run_many([&](size_t i, RunSpec &s) { if (i >= v.size()) return false; s = v[i]; return true; },
	         [&](size_t i, const RunSpec &, RunResult &x) { r[i] = std::move(x); });
	return r;
}

// ---------------------------------------------------------------- known findings
struct Known { Str prop, id, match, what; };
static std::vector<Known> g_known;
static Str g_root = "/verif";
static Str json_str(const Str &s) {
	Str r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
		else r += (char)c;
	}
	return r + "\"";
}
// A JSON reader sufficient for the files this program writes and the known-findings file.
struct J { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; double n = 0; bool b = false; Str s; std::vector<J> a; std::map<Str, J> o;
	const J &operator[](const Str &k) const { static J nul; auto i = o.find(k); return i == o.end() ? nul : i->second; } };
struct JP { const Str &s; size_t i = 0; explicit JP(const Str &x) : s(x) {}
	void ws() { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
	Str str() { Str r; i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && i + 1 < s.size()) { i++; char c = s[i]; if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'r') r += '\r'; else if (c == 'u') { r += (char)strtol(s.substr(i + 1, 4).c_str(), nullptr, 16); i += 4; } else r += c; i++; } else r += s[i++]; } i++; return r; }
	J val() { ws(); J j; if (i >= s.size()) return j;
		if (s[i] == '"') { j.t = J::STR; j.s = str(); }
		else if (s[i] == '{') { j.t = J::OBJ; i++; ws(); while (i < s.size() && s[i] != '}') { ws(); Str k = str(); ws(); i++; j.o[k] = val(); ws(); if (s[i] == ',') { i++; ws(); } } i++; }
		else if (s[i] == '[') { j.t = J::ARR; i++; ws(); while (i < s.size() && s[i] != ']') { j.a.push_back(val()); ws(); if (s[i] == ',') { i++; ws(); } } i++; }
		else if (s.compare(i, 4, "true") == 0) { j.t = J::BOOL; j.b = true; i += 4; }
		else if (s.compare(i, 5, "false") == 0) { j.t = J::BOOL; i += 5; }
		else if (s.compare(i, 4, "null") == 0) i += 4;
		else { j.t = J::NUM; size_t e = i; while (e < s.size() && strchr("+-0123456789.eE", s[e])) e++; j.s = s.substr(i, e - i); j.n = atof(j.s.c_str()); i = e > i ? e : i + 1; }
		return j; } };
static Str slurp(const Str &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return ""; Str r; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); return r; }
static void load_known() {
	Str t = slurp(g_root + "/known_findings.json");
	if (t.empty()) return;
	JP p(t); J j = p.val();
	for (auto &k : j["known"].a) g_known.push_back({k["property"].s, k["id"].s, k["match"].s, k["what"].s});
}
static const Known *known_match(const Str &prop, const Str &msg) {
	for (auto &k : g_known) {
		if (k.prop != prop) continue;
		regex_t re; if (regcomp(&re, k.match.c_str(), REG_EXTENDED | REG_NOSUB)) continue;
		bool m = regexec(&re, msg.c_str(), 0, nullptr, 0) == 0; regfree(&re);
		if (m) return &k;
	}
	return nullptr;
}

// Does this violation count for the property under check?
static bool counts(const Str &prop, const Violation &v) {
	if (v.prop == prop) return true;
	if (v.prop == "CRASH" || v.prop == "HANG" || v.prop == "LIVELOCK" || v.prop == "EXIT") return true;
	if (v.prop == "SPIN") {
		if (v.msg.compare(0, 6, "server") == 0) return prop == "P10";
		if (v.msg.compare(0, 9, "send_nsca") == 0 || v.msg.compare(0, 6, "client") == 0) return prop == "P09";
		return prop == "P23";
	}
	return false;
}
static const Violation *first_violation(const Str &prop, const RunResult &x) {
	for (auto &v : x.viols) if (counts(prop, v) && !known_match(prop, v.msg)) return &v;
	return nullptr;
}

// ---------------------------------------------------------------- minimisation
static double g_min_budget = 25;
struct Minimal { RunSpec s; RunResult r; int tried = 0; };
static bool same_failure(const Str &prop, const RunResult &x, const Str &vp) {
	if (x.infra) return false;
	for (auto &v : x.viols) if (counts(prop, v) && v.prop == vp && !known_match(prop, v.msg)) return true;
	return false;
}
static Minimal minimise(RunSpec s, const RunResult &orig, const Str &vp) {
	Minimal m; m.s = s; m.r = orig;
	double t_end = mono() + g_min_budget;
	auto try_set = [&](const std::vector<RunSpec> &c) -> int {
		if (c.empty() || mono() > t_end) return -1;
		auto r = run_batch(c);
		m.tried += (int)c.size();
		for (size_t i = 0; i < c.size(); i++) if (same_failure(s.prop, r[i], vp)) { m.s = c[i]; m.r = std::move(r[i]); return (int)i; }
		return -1;
	};
	if (orig.infra) return m;
	// 1. without preemption, without network jitter
	{ RunSpec c = m.s; c.nopreempt = c.calm = true; RunSpec d = m.s; d.nopreempt = true; try_set({c, d}); }
	// 2. whole fault kinds
	auto kinds = [&] { std::set<Str> k; for (auto &f : m.r.fcount) k.insert(f.first); return k; };
	{ RunSpec c = m.s; for (auto &k : kinds()) c.fmask.insert(k); try_set({c}); }
	for (bool again = true; again && mono() < t_end;) {
		again = false;
		std::vector<RunSpec> c;
		for (auto &k : kinds()) if (!m.s.fmask.count(k)) { RunSpec x = m.s; x.fmask.insert(k); c.push_back(x); }
		if (c.empty()) break;
		again = try_set(c) >= 0;
	}
	// 3. operations (ddmin)
	{
		size_t n = 2;
		while (mono() < t_end) {
			std::vector<int> ids; for (auto &o : m.r.ops) ids.push_back(o.id);
			std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
			if (ids.empty()) break;
			if (n > ids.size()) n = ids.size();
			std::vector<RunSpec> c;
			for (size_t k = 0; k < n; k++) {
				RunSpec x = m.s;
				for (size_t i = k * ids.size() / n; i < (k + 1) * ids.size() / n; i++) x.opmask.insert(ids[i]);
				c.push_back(x);
			}
			if (ids.size() <= 64 && n < ids.size() && n == 2) { RunSpec x = m.s; for (int i : ids) x.opmask.insert(i); c.push_back(x); }
			int w = try_set(c);
			if (w >= 0) { n = std::max((size_t)2, n - 1); continue; }
			if (n >= ids.size()) break;
			n *= 2;
		}
	}
	// 4. single fault instances
	{
		size_t n = 2;
		while (mono() < t_end) {
			std::vector<Str> ids; for (auto &f : m.r.ftrace) ids.push_back(f.kind + ":" + f.ent + ":" + std::to_string(f.n));
			std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
			if (ids.empty()) break;
			if (n > ids.size()) n = ids.size();
			std::vector<RunSpec> c;
			for (size_t k = 0; k < n; k++) {
				RunSpec x = m.s;
				for (size_t i = k * ids.size() / n; i < (k + 1) * ids.size() / n; i++) x.fmask.insert(ids[i]);
				c.push_back(x);
			}
			int w = try_set(c);
			if (w >= 0) { n = std::max((size_t)2, n - 1); continue; }
			if (n >= ids.size()) break;
			n *= 2;
		}
	}
	return m;
}

// ---------------------------------------------------------------- replay files
static Str spec_json(const RunSpec &s) {
	Str r = "\"property\": " + json_str(s.prop) + ",\n  \"scenario\": " + json_str(s.scen) + fmt(",\n  \"seed\": \"%llu\",\n", (unsigned long long)s.seed);
	r += fmt("  \"nopreempt\": %s,\n  \"calm\": %s,\n  \"suppressed_operations\": [", s.nopreempt ? "true" : "false", s.calm ? "true" : "false");
	bool f = true; for (int o : s.opmask) { r += fmt("%s%d", f ? "" : ", ", o); f = false; }
	r += "],\n  \"suppressed_faults\": [";
	f = true; for (auto &k : s.fmask) { r += (f ? "" : ", ") + json_str(k); f = false; }
	return r + "]";
}
static bool write_replay(const Str &path, const RunSpec &s, const RunResult &x, const Violation &v, const Str &orig, int tried) {
	FILE *o = fopen(path.c_str(), "w");
	if (!o) return false;
	fprintf(o, "{\n  %s,\n", spec_json(s).c_str());
	fprintf(o, "  \"violation\": {\"property\": %s, \"message\": %s},\n  \"trace_hash\": \"%016llx\",\n", json_str(v.prop).c_str(), json_str(v.msg).c_str(), (unsigned long long)x.thash);
	fprintf(o, "  \"found_by\": %s,\n  \"minimisation_runs\": %d,\n", json_str(orig).c_str(), tried);
	fprintf(o, "  \"operations\": [");
	for (size_t i = 0; i < x.ops.size(); i++) fprintf(o, "%s\n    %s", i ? "," : "", json_str(fmt("%d: ", x.ops[i].id) + x.ops[i].text).c_str());
	fprintf(o, "],\n  \"faults\": [");
	for (size_t i = 0; i < x.ftrace.size() && i < 400; i++) fprintf(o, "%s\n    %s", i ? "," : "", json_str(fmt("t=%.6f %s on %s #%llu", x.ftrace[i].t, x.ftrace[i].kind.c_str(), x.ftrace[i].ent.c_str(), (unsigned long long)x.ftrace[i].n)).c_str());
	fprintf(o, "],\n  \"trace_tail\": [");
	size_t n = x.trace.size(), a = n > 250 ? n - 250 : 0;
	for (size_t i = a; i < n; i++) fprintf(o, "%s\n    %s", i > a ? "," : "", json_str(x.trace[i].substr(0, 400)).c_str());
	fprintf(o, "],\n  \"report\": %s\n}\n", json_str(x.err.substr(0, 4000)).c_str());
	fclose(o);
	return true;
}
static RunSpec read_replay(const Str &path, Str &vprop, Str &hash) {
	Str t = slurp(path);
	if (t.empty()) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
	JP p(t); J j = p.val(); RunSpec s;
	s.prop = j["property"].s; s.scen = j["scenario"].s; s.seed = strtoull(j["seed"].s.c_str(), nullptr, 10);
	s.nopreempt = j["nopreempt"].b; s.calm = j["calm"].b;
	for (auto &o : j["suppressed_operations"].a) s.opmask.insert((int)o.n);
	for (auto &o : j["suppressed_faults"].a) s.fmask.insert(o.s);
	vprop = j["violation"]["property"].s; hash = j["trace_hash"].s;
	return s;
}

// ---------------------------------------------------------------- main
static void mkdirp(const Str &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
static void cleanup_tmp() {
	if (g_tmpdir.empty()) return;
	for (auto &p : g_progs) { (void)p; }
	static const char *kinds[] = {"server", "serversync", "client", "perl", "python"};
	for (auto k : kinds) for (int i = 0; i < 64; i++) unlink((g_tmpdir + fmt("/%s.%d.so", k, i)).c_str());
	rmdir(g_tmpdir.c_str());
}
int main(int argc, char **argv) {
	if (!getenv("NSCA_SIM_NORAND")) {
		setenv("NSCA_SIM_NORAND", "1", 1);
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	Str prop, tier = "quick", replay, one, scen_only; uint64_t seed = 1; bool tr = false, selftest = false; long runs = -1; double tmax = -1;
	g_jobs = get_nprocs();
	if (g_jobs < 2) g_jobs = 2; else if (g_jobs > 16) g_jobs = 16;
	bool list = false, nomin = false; Str evpath;
	{ Str self = slurp("/proc/self/cmdline"); char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) { b[k] = 0; g_build = b; g_build = g_build.substr(0, g_build.rfind('/')); } }
	for (int i = 1; i < argc; i++) {
		Str a = argv[i];
		auto nx = [&] { return i + 1 < argc ? Str(argv[++i]) : Str(); };
		if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--one") one = nx();
		else if (a == "--trace") tr = true; else if (a == "--runs") runs = atol(nx().c_str()); else if (a == "--scenario") scen_only = nx();
		else if (a == "--root") g_root = nx(); else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--list") list = true;
		else if (a == "--selftest") selftest = true; else if (a == "--nomin") nomin = true; else if (a == "--evidence") evpath = nx();
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if (list) { for (auto &p : plans()) { printf("%s:", p.prop.c_str()); for (auto &e : p.e) printf(" %s*%d", e.scen.c_str(), e.weight); printf(" runs=%d\n", p.quick_runs); } return 0; }
	g_tmpdir = g_build + fmt("/copies.%d", (int)getpid());
	mkdirp(g_tmpdir);
	atexit(cleanup_tmp);
	sim_init_rand();
	sim_install_mem_hooks();
	OPENSSL_init_ssl(0, nullptr);
	// The libraries of the bindings are loaded only where they matter.
	bool libs = one.compare(0, 4, "libs") == 0 || scen_only.compare(0, 4, "libs") == 0, other = true;
	if (!replay.empty()) { Str vp, hash; libs = read_replay(replay, vp, hash).scen.compare(0, 4, "libs") == 0; }
	for (auto &p : plans()) if (p.prop == prop) { other = false; for (auto &e : p.e) (e.scen.compare(0, 4, "libs") == 0 ? libs : other) = true; }
	load_copies("server", 18);
	if (other) { load_copies("serversync", 8); load_copies("client", 24); }
	if (libs || (selftest && scen_only.empty())) { load_copies("perl", 4); load_copies("python", 4); }
	cleanup_tmp();
	actors_init();
	load_known();

	if (!one.empty() || !replay.empty()) {
		RunSpec s; Str vp, hash;
		if (!replay.empty()) s = read_replay(replay, vp, hash);
		else { s.scen = one; s.seed = seed; s.prop = prop; }
		s.trace = !getenv("SIM_NOTRACE");
		auto r = run_batch({s});
		RunResult &x = r[0];
		if (tr) for (auto &l : x.trace) printf("%s\n", l.c_str());
		if (!x.err.empty()) printf("--- output of the run\n%s\n---\n", x.err.c_str());
		printf("scenario %s seed %llu: hash %016llx, %llu steps, %llu switches, %.3f s simulated, cpu %.3f s, commands %llu/%llu acknowledged/%llu delivered\n", s.scen.c_str(), (unsigned long long)s.seed, (unsigned long long)x.thash, (unsigned long long)x.steps, (unsigned long long)x.nsw, x.simt, x.cpu, (unsigned long long)x.ncmd, (unsigned long long)x.nack, (unsigned long long)x.ndel);
		for (auto &p : x.probes) printf("  probe %s = %llu\n", p.first.c_str(), (unsigned long long)p.second);
		for (auto &p : x.fcount) printf("  fault %s = %llu\n", p.first.c_str(), (unsigned long long)p.second);
		for (auto &v : x.viols) printf("violation %s: %s\n", v.prop.c_str(), v.msg.c_str());
		if (x.infra) { printf("INFRA %s\n", x.infra_why.c_str()); return 3; }
		if (!replay.empty()) {
			bool rep = same_failure(s.prop, x, vp);
			Str h = fmt("%016llx", (unsigned long long)x.thash);
			printf("replay: violation %s, trace hash %s (%s)\n", rep ? "reproduced" : "not reproduced", h.c_str(), h == hash ? "identical" : "differs");
			if (rep) { printf("VIOLATION property=%s replay=%s\n", s.prop.c_str(), replay.c_str()); return 1; }
			return 0;
		}
		return x.viols.empty() ? 0 : 1;
	}

	if (selftest) { // determinism: every scenario, several seeds, several times, different loads
		int bad = 0, n = 0; long per = runs > 0 ? runs : 8;
		std::vector<RunSpec> v;
		for (auto &sc : scen_table()) if (scen_only.empty() || sc.first == scen_only) for (long k = 0; k < per; k++) { RunSpec s; s.scen = sc.first; s.prop = "SELF"; s.seed = mix64((seed * 1000003 + (uint64_t)k) ^ hash_str(sc.first.c_str())); v.push_back(s); }
		auto a = run_batch(v);
		int j = g_jobs; g_jobs = j * 3; auto b = run_batch(v); g_jobs = 2 > j / 2 ? 2 : j / 2; auto c = run_batch(v); g_jobs = j;
		for (size_t i = 0; i < v.size(); i++) {
			n++;
			if (a[i].thash != b[i].thash || a[i].thash != c[i].thash || a[i].infra) { bad++; printf("NONDETERMINISM scenario %s seed %llu: %016llx %016llx %016llx %s\n", v[i].scen.c_str(), (unsigned long long)v[i].seed, (unsigned long long)a[i].thash, (unsigned long long)b[i].thash, (unsigned long long)c[i].thash, a[i].infra_why.c_str()); }
		}
		printf("selftest: %d runs three times each, %d differ\n", n, bad);
		return bad ? 2 : 0;
	}

	const Plan *pl = nullptr;
	for (auto &p : plans()) if (p.prop == prop) pl = &p;
	if (!pl) { fprintf(stderr, "no plan for property %s\n", prop.c_str()); return 3; }
	std::vector<Str> order; for (auto &e : pl->e) for (int i = 0; i < e.weight; i++) order.push_back(e.scen);
	{ Rng r(7, "order"); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)(r.u64() % i)]); }
	if (!scen_only.empty()) order = {scen_only};
	bool thorough = tier == "thorough";
	size_t want = runs > 0 ? (size_t)runs : (size_t)pl->quick_runs * (thorough ? 40 : 1);
	double cap = tmax > 0 ? tmax : thorough ? 1800 : 240;
	size_t dup_every = thorough ? 50 : 25; // every so many runs is executed twice and compared
	double t0 = mono();
	printf("check %s: seed %llu, tier %s, up to %zu simulated runs, scenarios:", prop.c_str(), (unsigned long long)seed, tier.c_str(), want);
	for (auto &e : pl->e) printf(" %s", e.scen.c_str());
	printf("\n"); fflush(stdout);

	struct Agg { uint64_t runs = 0, steps = 0, nsw = 0, nontrivial = 0, cmds = 0, acks = 0, dels = 0, dup = 0, dupbad = 0; double simt = 0, cpu = 0; std::map<Str, uint64_t> f, p, scen, kinds; std::set<uint64_t> ih, th; } A;
	struct Found { bool have = false; size_t idx = (size_t)-1; RunSpec s; RunResult r; Violation v; } F;
	std::map<Str, uint64_t> known_hits; std::vector<Str> samples; Str infra; int ninfra = 0;
	std::map<size_t, uint64_t> first_hash; std::map<size_t, std::vector<Str>> dup_traces; std::vector<Str> dup_msgs;
	size_t total = want; double avg = 0;
	auto spec_of = [&](size_t k, RunSpec &s) { s = RunSpec(); s.prop = prop; s.scen = order[k % order.size()]; s.seed = mix64(mix64(seed) ^ hash_str(prop.c_str()) ^ (k * 0x9e3779b97f4a7c15ULL)); };
	// work items: run k, or a repetition of run k
	std::vector<std::pair<size_t, bool>> work; for (size_t k = 0; k < total; k++) { work.push_back({k, false}); if (k % dup_every == 3) work.push_back({k, true}); }
	(void)avg;
	run_many(
		[&](size_t i, RunSpec &s) {
			if (i >= work.size() || mono() - t0 > cap || F.have || ninfra > 20) return false;
			spec_of(work[i].first, s); if (getenv("NSCA_SIM_DUPTRACE")) s.trace = work[i].first % dup_every == 3; return true;
		},
		[&](size_t i, const RunSpec &s, RunResult &x) {
			size_t k = work[i].first;
			if (x.infra) { ninfra++; infra = s.scen + fmt(" seed %llu: ", (unsigned long long)s.seed) + x.infra_why; return; }
			if (work[i].second || first_hash.count(k)) {
				A.dup++;
				auto it = first_hash.find(k);
								if (it != first_hash.end() && it->second != x.thash && getenv("NSCA_SIM_DUPTRACE")) for (int q = 0; q < 2; q++) { FILE *o = fopen(fmt("%s/dup%d.txt", getenv("NSCA_SIM_DUPTRACE"), q).c_str(), "w"); for (auto &l : q ? x.trace : dup_traces[k]) fprintf(o, "%s\n", l.c_str()); fclose(o); }
				if (it == first_hash.end()) first_hash[k] = x.thash, dup_traces[k] = x.trace;
				else if (it->second != x.thash) { A.dupbad++; dup_msgs.push_back(s.scen + fmt(" seed %llu", (unsigned long long)s.seed)); }
				if (work[i].second) return;
			} else if (k % dup_every == 3) first_hash[k] = x.thash, dup_traces[k] = x.trace;
			A.runs++; A.steps += x.steps; A.nsw += x.nsw; A.simt += std::max(0.0, x.simt - 1000.0); A.cpu += x.cpu; A.cmds += x.ncmd; A.acks += x.nack; A.dels += x.ndel;
			for (auto &f : x.fcount) A.f[f.first] += f.second;
			for (auto &f : x.probes) A.p[f.first] += f.second;
			A.scen[s.scen]++; A.th.insert(x.thash);
			bool nt = x.nsw >= 10 && (x.ncmd > 0 || !x.ops.empty() || x.nodes.size() > 0) && x.steps > 100;
			if (nt) { if (A.ih.insert(x.ihash).second) A.nontrivial++; }
			for (auto &n : x.nodes) A.kinds[n]++;
			if (samples.size() < 4 && (A.scen[s.scen] == 1 || samples.empty())) {
				Str sm = "scenario " + s.scen + fmt(", seed %llu: %llu node switches, %llu simulator steps, %.1f s simulated, %llu commands (%llu acknowledged, %llu delivered), faults:", (unsigned long long)s.seed, (unsigned long long)x.nsw, (unsigned long long)x.steps, x.simt - 1000.0, (unsigned long long)x.ncmd, (unsigned long long)x.nack, (unsigned long long)x.ndel);
				for (auto &f : x.fcount) sm += fmt(" %s=%llu", f.first.c_str(), (unsigned long long)f.second);
				int oc = 0; for (auto &o : x.ops) { if (oc++ < 6) sm += "; " + o.text; }
				for (auto &q : x.sample) sm += "; " + q.first + ": " + q.second;
				samples.push_back(sm);
			}
			for (auto &v : x.viols) if (counts(prop, v)) if (auto kn = known_match(prop, v.msg)) known_hits[kn->id]++;
			if (auto v = first_violation(prop, x)) {
				if (!F.have || k < F.idx) { F.have = true; F.idx = k; F.s = s; F.v = *v; F.r = x; }
			}
		});
	double t_search = mono() - t0;
	for (auto &k : g_known) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s (%s; seen %llu times in this run)\n", prop.c_str(), k.what.c_str(), k.id.c_str(), (unsigned long long)known_hits[k.id]);
	int rc = 0; Str rpath;
	if (F.have) {
		mkdirp(g_build + "/replay");
		rpath = g_build + "/replay/" + prop + ".json";
		printf("violation found in run %zu (scenario %s, seed %llu): %s: %s\n", F.idx, F.s.scen.c_str(), (unsigned long long)F.s.seed, F.v.prop.c_str(), F.v.msg.c_str());
		fflush(stdout);
		RunSpec again = F.s; again.trace = true;
		auto r = run_batch({again, again});
		bool rep = same_failure(prop, r[0], F.v.prop) && same_failure(prop, r[1], F.v.prop);
		Str origin = F.s.scen + fmt(" seed %llu", (unsigned long long)F.s.seed);
		if (!rep) {
			printf("the violation did not reproduce from its seed (hashes %016llx %016llx %016llx)\n", (unsigned long long)F.r.thash, (unsigned long long)r[0].thash, (unsigned long long)r[1].thash);
			printf("%s\n", F.r.err.substr(0, 2000).c_str());
			rc = 2;
		} else {
			Minimal m; m.s = F.s; m.r = F.r;
			if (!nomin) m = minimise(F.s, r[0], F.v.prop);
			RunSpec fin = m.s; fin.trace = true;
			auto fr = run_batch({fin, fin});
			bool ok = same_failure(prop, fr[0], F.v.prop) && same_failure(prop, fr[1], F.v.prop) && (fr[0].thash == fr[1].thash);
			if (!ok) { fin = again; fr = r; }
			Violation v = F.v;
			for (auto &y : fr[0].viols) if (counts(prop, y) && y.prop == F.v.prop && !known_match(prop, y.msg)) { v = y; break; }
			write_replay(rpath, fin, fr[0], v, origin, m.tried);
			printf("minimised with %d runs to %zu operations and %zu faults: %s: %s\n", m.tried, fr[0].ops.size(), fr[0].ftrace.size(), v.prop.c_str(), v.msg.c_str());
			if (v.prop == "CRASH") printf("%s\n", fr[0].err.substr(0, 3000).c_str());
			printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rpath.c_str());
			rc = 1;
		}
	}
	if (ninfra && rc == 0) { printf("INFRASTRUCTURE: %d run(s) gave no answer; last: %s\n", ninfra, infra.c_str()); rc = 3; }
	if (A.dupbad) { printf("NONDETERMINISM: %llu of %llu repeated runs differ: %s\n", (unsigned long long)A.dupbad, (unsigned long long)A.dup, dup_msgs[0].c_str()); if (rc == 0) rc = 2; }
	double wall_s = mono() - t0;
	mkdirp(g_root + "/evidence");
	if (evpath.empty()) evpath = g_root + "/evidence/" + prop + ".json";
	FILE *o = fopen(evpath.c_str(), "w");
	if (!o) { perror(evpath.c_str()); return 3; }
	auto map_json = [](const std::map<Str, uint64_t> &m) { Str r = "{"; bool f = true; for (auto &p : m) { r += (f ? "" : ", ") + json_str(p.first) + fmt(": %llu", (unsigned long long)p.second); f = false; } return r + "}"; };
	fprintf(o, "{\n  \"property\": %s,\n  \"tier\": %s,\n  \"seed\": %llu,\n  \"level\": \"exploration\",\n  \"coverage\": {\n", json_str(prop).c_str(), json_str(tier).c_str(), (unsigned long long)seed);
	fprintf(o, "    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n", (unsigned long long)A.runs, (unsigned long long)A.nontrivial);
	fprintf(o, "    \"rule\": %s,\n", json_str("One case is one simulated run: scenario, seed. The seed decides configuration, workload, every interleaving, delay and fault. A run is non-trivial when it executed over 100 simulator steps and 10 node switches; two runs are distinct when the hash over the sequence of (process, system call, switch) differs, times and data left out.").c_str());
	fprintf(o, "    \"samples\": [");
	for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s\n      %s", i ? "," : "", json_str(samples[i]).c_str());
	fprintf(o, "],\n    \"runs_per_hour\": %.0f,\n    \"seeds_per_hour\": %.0f,\n    \"simulated_seconds\": %.1f,\n    \"simulator_steps\": %llu,\n    \"node_switches\": %llu,\n", A.runs / (t_search / 3600), A.runs / (t_search / 3600), A.simt, (unsigned long long)A.steps, (unsigned long long)A.nsw);
	fprintf(o, "    \"distinct_full_traces\": %zu,\n    \"runs_repeated_for_determinism\": %llu,\n    \"repeated_runs_that_differed\": %llu,\n", A.th.size(), (unsigned long long)A.dup, (unsigned long long)A.dupbad);
	fprintf(o, "    \"runs_per_scenario\": %s,\n    \"faults_injected\": %s,\n    \"probes_reached\": %s,\n", map_json(A.scen).c_str(), map_json(A.f).c_str(), map_json(A.p).c_str());
	fprintf(o, "    \"commands\": {\"submitted\": %llu, \"acknowledged\": %llu, \"delivered\": %llu},\n", (unsigned long long)A.cmds, (unsigned long long)A.acks, (unsigned long long)A.dels);
	Str real; static const std::map<Str, Str> kn = {{"server", "nsca-ng server (src/server, src/common, lib, libev epoll backend, real OpenSSL and libconfuse)"}, {"serversync", "nsca-ng server built without POSIX AIO"}, {"client", "send_nsca (src/client, src/common, lib, libev, real OpenSSL and libconfuse)"}, {"perl", "perl/client.c, the library behind the Perl binding"}, {"python", "python/nscang.c and python/client.c"}};
	for (auto &p : A.kinds) { auto it = kn.find(p.first); real += (real.empty() ? "" : ", ") + json_str((it == kn.end() ? p.first : it->second) + fmt(": in %llu runs", (unsigned long long)p.second)); }
	fprintf(o, "    \"real_code\": [%s],\n", real.c_str());
	fprintf(o, "    \"stubs\": [\"kernel: scheduler, clocks and timers, epoll, sockets and TCP, pipes and FIFOs, files and locks, signals, POSIX AIO, exec (simulated)\", \"monitoring daemon reading the command file (scripted)\", \"scripted TLS peers using the real OpenSSL\", \"sd_notify (recorded)\", \"resolver (simulated)\", \"Perl XS glue and the Python C API (modelled by a driver)\"],\n");
	fprintf(o, "    \"known_findings_seen\": %s,\n    \"cpu_seconds\": %.1f,\n    \"workers\": %d\n  },\n", map_json(known_hits).c_str(), A.cpu, g_jobs);
	fprintf(o, "  \"assumptions\": [\"the simulated kernel behaves like Linux at the system-call interface for the calls the programs make\", \"OpenSSL, libconfuse and glibc are trusted\", \"seeded search samples the space of executions and is no proof\"],\n");
	fprintf(o, "  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n", wall_s, rc == 1 ? 1 : 0);
	fclose(o);
	printf("%s: %llu runs, %llu distinct non-trivial interleavings, %.0f s simulated, %.1f s wall, cpu %.1f s, exit %d\n", prop.c_str(), (unsigned long long)A.runs, (unsigned long long)A.nontrivial, A.simt, wall_s, A.cpu, rc);
	return rc;
}
