// Driver: seeded search over simulated runs, determinism gates, minimisation, replay, evidence.
#include "rt.h"

#include <errno.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <set>
#include <sstream>

using namespace sim;

static double wall() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9e3779b97f4a7c15ULL + b * 0xD1B54A32D192ED03ULL + 0x632BE59BD9B4E019ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static void *shm(size_t n) {
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		fprintf(stderr, "simrun: no memory\n");
		exit(2);
	}
	return p;
}

enum { MAXW = 16, HT = 1 << 21, MAXSC = 512 };
struct Table {
	std::atomic<uint64_t> n;
	std::atomic<uint64_t> s[HT];
	bool add(uint64_t h) {
		h |= 1;
		for (uint64_t i = h >> 7;; i++) {
			uint64_t c = s[i % HT].load(std::memory_order_relaxed);
			if (c == h) {
				return false;
			}
			if (c == 0) {
				if (n.load() > HT / 2) {
					return false;
				}
				if (s[i % HT].compare_exchange_strong(c, h)) {
					n++;
					return true;
				}
				if (c == h) {
					return false;
				}
			}
		}
	}
};
struct WStats {
	uint64_t runs, nontrivial, yields, switches, accesses, sim_ns, syscalls, ops, faults[F_MAX], probes[NPROBE], scen[MAXSC], known, rechecked, nondet, faulty_runs, mt_runs;
};
struct Board {
	std::atomic<uint64_t> next;
	std::atomic<int> stop;
	WStats w[MAXW];
	std::atomic<int> nviol;
	struct V {
		uint64_t index, seed;
		int scenario;
		char kind[128];
	} viol[64];
	struct K {
		char key[200];
		std::atomic<uint64_t> n;
	} known[64];
	struct Sample {
		uint64_t seed;
		char text[1500];
	} sample[8];
	std::atomic<int> nsample;
};
static Board *B;
static Table *runs_t, *sched_t;
static Shared *region[MAXW];

// ---- containment: a simulated run has no business with the real file system, processes or network.  Calls the simulator
// does not know about (a library function that goes straight to the kernel) end the run as a harness error.
static void on_sigsys(int, siginfo_t *si, void *) {
	if (SH) {
		SH->r.status = 3;
		snprintf(SH->r.kind, sizeof(SH->r.kind), "harness");
		snprintf(SH->r.msg, sizeof(SH->r.msg), "uncontrolled system call %d", si->si_syscall);
	}
	_exit(0);
}
static void contain() {
	static bool done = getenv("SIM_NOCONTAIN");
	if (done) {
		return;
	}
	done = true;
	std::vector<sock_filter> f;
	auto nr = [&] { f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr))); };
	auto trap_if = [&](int n) {
		f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)n, 0, 1));
		f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
	};
	nr();
	static const int denied[] = { SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_link, SYS_linkat,
		SYS_symlink, SYS_symlinkat, SYS_mknod, SYS_mknodat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_truncate, SYS_ftruncate,
		SYS_creat, SYS_kill, SYS_tkill, SYS_execve, SYS_execveat, SYS_mount, SYS_umount2, SYS_chroot, SYS_chdir, SYS_fchdir, SYS_socket, SYS_connect, SYS_bind,
		SYS_reboot, SYS_settimeofday, SYS_clock_settime, SYS_sethostname, SYS_ptrace, SYS_setxattr, SYS_utimensat, SYS_sendto, SYS_vfork, SYS_pidfd_send_signal };
	for (int n : denied) {
		trap_if(n);
	}
	for (int k = 0; k < 2; k++) { // open for writing
		f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(k ? SYS_openat : SYS_open), 0, 4));
		f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned)offsetof(seccomp_data, args[0]) + (k ? 16 : 8)));
		f.push_back(BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC, 0, 1));
		f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
		nr();
	}
	f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_sigsys;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGSYS, &sa, nullptr);
	sock_fprog prog = { (unsigned short)f.size(), f.data() };
	if (!prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) {
		prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog, 0, 0); // where that is not allowed, the runs go without
	}
}

static int nul = -1;

// runs one spec in a forked child, result in `to`
static void exec_run(Shared *to, const RunSpec &spec) {
	pid_t p = fork();
	if (p < 0) {
		fprintf(stderr, "simrun: fork failed\n");
		exit(2);
	}
	if (p == 0) {
		SH = to;
		to->r.status = 0;
		if (nul >= 0) {
			dup2(nul, 1); // std::cout of the library
		}
		contain();
		run_in_child(spec);
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
	}
	if (to->r.status == 0) {
		to->r.status = 2;
		snprintf(to->r.kind, sizeof(to->r.kind), "crash");
		snprintf(to->r.msg, sizeof(to->r.msg), "the run ended with wait status 0x%x", st);
		to->r.hash = 0xdead;
	}
}
static std::vector<Entry> entries_of(Shared *s) { return std::vector<Entry>(s->entries, s->entries + s->r.nentries); }

struct Opts {
	std::string prop, out, replay_dir = ".", known_file, tier = "quick", replay, only;
	uint64_t seed = 1, one_seed = 0, max_runs = ~0ULL;
	bool one = false, trace = false, list = false, keep_going = false;
	double budget = 15;
	int workers = 8;
};
static Opts O;
static std::vector<int> pool; // scenario indices by weight
static std::set<std::string> known_keys;
static std::vector<std::string> known_lines;

static int scenario_for(uint64_t seed) { return pool[mix(seed, 0x5ce7) % pool.size()]; }
static std::string key_of(int sc, const char *kind) { return std::string(scenarios()[sc].name) + ":" + kind; }

static const bool trace_all = getenv("SIM_TRACE_ALL"); // keep both traces of a seed that gave two runs
static void worker(int w) {
	contain();
	Shared *sh = region[w];
	WStats &s = B->w[w];
	while (!B->stop.load()) {
		uint64_t i = B->next++;
		if (i >= O.max_runs) {
			break;
		}
		RunSpec spec{};
		spec.seed = mix(mix(O.seed, 0x9209e27), i) ^ std::hash<std::string>()(O.prop);
		spec.scenario = scenario_for(spec.seed);
		bool sample = i < 400 && i % 100 == 7;
		spec.trace = sample || trace_all;
		exec_run(sh, spec);
		Result &r = sh->r;
		s.runs++;
		s.scen[spec.scenario % MAXSC]++;
		s.yields += r.yields;
		s.switches += r.switches;
		s.accesses += r.accesses;
		s.sim_ns += r.sim_ns;
		s.syscalls += r.syscalls;
		s.ops += r.ops;
		bool any = r.switches > 0;
		s.mt_runs += r.switches > 1;
		bool anyf = false;
		for (int f = 0; f < F_MAX; f++) {
			s.faults[f] += r.faults[f];
			anyf |= r.faults[f] && f != F_PREEMPT;
		}
		s.faulty_runs += anyf;
		any |= anyf || r.nentries > 4;
		for (int p = 0; p < NPROBE; p++) {
			s.probes[p] += r.probes[p];
		}
		if (any) {
			s.nontrivial++;
			runs_t->add(r.hash);
		}
		if (r.switches) {
			sched_t->add(r.sched_hash);
		}
		if (sample) {
			int k = B->nsample++;
			if (k < 8) {
				B->sample[k].seed = spec.seed;
				std::string t = scenarios()[spec.scenario].name;
				t += ": ";
				t += r.trace;
				snprintf(B->sample[k].text, sizeof(B->sample[k].text), "%s", t.substr(0, 1400).c_str());
			}
		}
		if (r.status == 2) {
			std::string key = key_of(spec.scenario, r.kind);
			if (known_keys.count(key)) {
				s.known++;
				continue;
			}
			int k = B->nviol++;
			if (k < 64) {
				Board::V &v = B->viol[k];
				v.index = i;
				v.seed = spec.seed;
				v.scenario = spec.scenario;
				snprintf(v.kind, sizeof(v.kind), "%s", r.kind);
			}
			if (!O.keep_going) {
				B->stop = 1;
			}
			continue;
		}
		if (r.status == 3) {
			int k = B->nviol++;
			if (k < 64) {
				Board::V &v = B->viol[k];
				v.index = i;
				v.seed = spec.seed;
				v.scenario = spec.scenario;
				snprintf(v.kind, sizeof(v.kind), "HARNESS %.100s", r.msg);
			}
			B->stop = 1;
			continue;
		}
		if (i % 64 == 5 || trace_all) { // determinism: the same seed again must give the same run
			uint64_t h = r.hash;
			int st0 = r.status;
			size_t y0 = r.yields, a0 = r.accesses, n0 = r.nentries;
			std::string m0 = r.msg, t0 = trace_all ? r.trace : "";
			spec.stack_fill = 0x5a5a5a5a5a5a5a5aULL ^ h;
			spec.trace = trace_all;
			if (i & 64) { // half of them from the recorded choices instead of the seed
				if (r.entries_lost) {
					continue;
				}
				spec.replay = true;
				spec.entries = entries_of(sh);
			}
			exec_run(sh, spec);
			s.rechecked++;
			if (sh->r.hash != h) {
				s.nondet++;
				if (trace_all) {
					std::ofstream("/tmp/nondet.a") << t0;
					std::ofstream("/tmp/nondet.b") << sh->r.trace;
				}
				if (s.nondet < 3) {
					fprintf(stderr, "simrun: seed %llu (%s) gave two different runs%s: status %d/%d yields %zu/%zu accesses %zu/%zu choices %zu/%zu %s / %s\n", (unsigned long long)spec.seed, scenarios()[spec.scenario].name, spec.replay ? " (replayed choices)" : "", st0, sh->r.status, y0, (size_t)sh->r.yields, a0, (size_t)sh->r.accesses, n0, (size_t)sh->r.nentries, m0.c_str(), sh->r.msg);
				}
			}
		}
	}
	_exit(0);
}

// evaluate candidates in parallel; returns the index of the first that fails with `kind`, or -1
static int try_batch(const std::vector<std::vector<Entry>> &c, int sc, const std::string &kind, std::vector<Entry> *out) {
	size_t n = c.size();
	std::vector<pid_t> pid(n);
	for (size_t i = 0; i < n; i++) {
		pid_t p = fork();
		if (p == 0) {
			RunSpec s{};
			s.scenario = sc;
			s.replay = true;
			s.entries = c[i];
			exec_run(region[i], s);
			_exit(0);
		}
		pid[i] = p;
	}
	for (size_t i = 0; i < n; i++) {
		int st;
		while (waitpid(pid[i], &st, 0) < 0 && errno == EINTR) {
		}
	}
	for (size_t i = 0; i < n; i++) {
		Result &r = region[i]->r;
		if (r.status == 2 && kind == r.kind) {
			*out = entries_of(region[i]);
			if (out->size() > c[i].size() || r.entries_lost) {
				*out = c[i];
			}
			return i;
		}
	}
	return -1;
}
static std::vector<Entry> minimise(std::vector<Entry> cur, int sc, const std::string &kind, double limit) {
	double t0 = wall();
	size_t chunk = std::max<size_t>(1, cur.size() / 2);
	int P = 8;
	std::vector<Entry> out;
	while (!cur.empty() && wall() - t0 < limit) {
		bool progress = false;
		size_t at = 0;
		while (at < cur.size() && wall() - t0 < limit) {
			std::vector<std::vector<Entry>> c;
			size_t a = at;
			for (int k = 0; k < P && a < cur.size(); k++) {
				std::vector<Entry> e;
				e.insert(e.end(), cur.begin(), cur.begin() + a);
				if (a + chunk < cur.size()) {
					e.insert(e.end(), cur.begin() + a + chunk, cur.end());
				}
				c.push_back(e);
				a += chunk;
			}
			int ok = try_batch(c, sc, kind, &out);
			if (ok >= 0) {
				progress = progress || out.size() < cur.size();
				at += ok * chunk;
				if (out.size() >= cur.size()) {
					at += chunk;
				} else {
					cur = out;
				}
			} else {
				at = a;
			}
		}
		if (chunk == 1 && !progress) {
			break;
		}
		chunk = chunk > 1 ? chunk / 2 : 1;
	}
	// smaller values
	for (size_t i = 0; i < cur.size() && wall() - t0 < limit; i++) {
		if (cur[i].stream == ST_SCHED || cur[i].stream == ST_PLAIN || cur[i].stream == ST_BLOCK || cur[i].value <= 1) {
			continue;
		}
		std::vector<std::vector<Entry>> c;
		for (uint32_t v : { 1u, 2u, cur[i].value / 16, cur[i].value / 4, cur[i].value / 2, cur[i].value - 1 }) {
			if (v && v < cur[i].value) {
				std::vector<Entry> e = cur;
				e[i].value = v;
				c.push_back(e);
			}
		}
		int ok = try_batch(c, sc, kind, &out);
		if (ok >= 0 && out.size() <= cur.size()) {
			cur = out;
		}
	}
	return cur;
}
static const char *stream_names[ST_MAX] = { "switch-at-sync", "switch-at-access", "who-runs-when-blocked", "config", "spurious-cas", "allocation-failure", "fresh-memory", "syscall-fault", "io-variation", "entropy", "time", "network", "process", "crash", "aux" };

static bool load_replay(const std::string &path, RunSpec *s, std::string *prop, std::string *kind, uint64_t *hash) {
	std::ifstream f(path);
	std::string line, scen;
	*hash = 0;
	while (std::getline(f, line)) {
		std::istringstream is(line);
		std::string w;
		is >> w;
		if (w == "property") {
			is >> *prop;
		} else if (w == "scenario") {
			is >> scen;
		} else if (w == "kind") {
			is >> *kind;
		} else if (w == "hash") {
			is >> std::hex >> *hash;
		} else if (w == "entry") {
			Entry e;
			is >> e.stream >> e.seq >> e.value;
			s->entries.push_back(e);
		}
	}
	s->replay = true;
	s->scenario = -1;
	for (size_t i = 0; i < scenarios().size(); i++) {
		if (scenarios()[i].property == *prop && scenarios()[i].name == scen) {
			s->scenario = i;
		}
	}
	return s->scenario >= 0;
}
static std::string json(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}
static std::string symbolise(const std::string &msg, const std::string &self) {
	std::string o;
	size_t at = 0;
	for (;;) {
		size_t p = msg.find("pc 0x", at);
		if (p == std::string::npos) {
			break;
		}
		size_t e = p + 5;
		while (e < msg.size() && isxdigit((unsigned char)msg[e])) {
			e++;
		}
		std::string addr = msg.substr(p + 3, e - p - 3), cmd = "addr2line -Cfsi -e '" + self + "' " + addr + " 2>/dev/null | tr '\\n' ' '";
		char b[600] = "";
		FILE *f = popen(cmd.c_str(), "r");
		if (f) {
			size_t k = fread(b, 1, sizeof(b) - 1, f);
			b[k] = 0;
			pclose(f);
		}
		o += addr + " = " + b + "\n";
		at = e;
	}
	return o;
}
static std::string self_path;
static int replay_exec(const std::string &file, std::string *outp) {
	int pd[2];
	if (pipe(pd)) {
		return -1;
	}
	pid_t p = fork();
	if (p == 0) {
		dup2(pd[1], 1);
		close(pd[0]);
		close(pd[1]);
		execl(self_path.c_str(), self_path.c_str(), "--replay", file.c_str(), (char *)nullptr);
		_exit(9);
	}
	close(pd[1]);
	char b[4096];
	ssize_t k;
	while ((k = read(pd[0], b, sizeof(b))) > 0 || (k < 0 && errno == EINTR)) {
		if (k > 0) {
			outp->append(b, k);
		}
	}
	close(pd[0]);
	int st;
	waitpid(p, &st, 0);
	return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static void write_replay(const std::string &file, int sc, const std::string &kind, uint64_t hash, uint64_t seed, const std::vector<Entry> &es, const Result &r) {
	std::ofstream f(file);
	f << "property " << O.prop << "\nscenario " << scenarios()[sc].name << "\nkind " << kind << "\nhash " << std::hex << hash << std::dec << "\nseed " << seed << "\n";
	f << "# " << r.msg << "\n";
	std::istringstream sy(symbolise(r.msg, self_path));
	std::string l;
	while (std::getline(sy, l)) {
		f << "# " << l << "\n";
	}
	for (auto &e : es) {
		f << "entry " << e.stream << " " << e.seq << " " << e.value << "   # ";
		if (e.stream >= ST_W0) {
			f << "workload of thread " << e.stream - ST_W0;
		} else {
			f << stream_names[e.stream];
		}
		f << "\n";
	}
	f << "# ---- trace of the minimised run ----\n";
	std::istringstream is(r.trace);
	while (std::getline(is, l)) {
		f << "# " << l << "\n";
	}
}

static int report(const Board::V &v, double limit) {
	// gate 1: the same seed twice
	RunSpec spec{};
	spec.seed = v.seed;
	spec.scenario = v.scenario;
	exec_run(region[0], spec);
	Result a = region[0]->r;
	std::vector<Entry> es = entries_of(region[0]);
	exec_run(region[1], spec);
	Result &b = region[1]->r;
	if (a.status != 2 || b.status != 2 || strcmp(a.kind, v.kind) || a.hash != b.hash || strcmp(a.kind, b.kind)) {
		fprintf(stderr, "simrun: seed %llu of %s/%s does not repeat (%s/%s, %s/%llx, %s/%llx)\n", (unsigned long long)v.seed, O.prop.c_str(), scenarios()[v.scenario].name, v.kind, "", a.kind, (unsigned long long)a.hash, b.kind,
				(unsigned long long)b.hash);
		return 2;
	}
	printf("found: property=%s scenario=%s kind=%s seed=%llu entries=%zu\n  %s\n", O.prop.c_str(), scenarios()[v.scenario].name, v.kind, (unsigned long long)v.seed, es.size(), a.msg);
	fflush(stdout);
	// gate 2: the recorded choices reproduce it
	std::vector<Entry> out;
	if (try_batch({ es }, v.scenario, v.kind, &out) < 0) {
		fprintf(stderr, "simrun: the recorded choices of seed %llu do not reproduce the violation (got %s %s)\n", (unsigned long long)v.seed, region[0]->r.kind, region[0]->r.msg);
		// show where the two executions part
		spec.trace = true;
		exec_run(region[0], spec);
		RunSpec rp{};
		rp.scenario = v.scenario;
		rp.replay = true;
		rp.entries = es;
		rp.trace = true;
		exec_run(region[1], rp);
		std::istringstream ta(region[0]->r.trace), tb(region[1]->r.trace);
		std::string la, lb, pa;
		while (std::getline(ta, la)) {
			lb.clear();
			std::getline(tb, lb);
			if (la != lb) {
				fprintf(stderr, "  after %s\n  search: %s\n  replay: %s\n", pa.c_str(), la.c_str(), lb.c_str());
				break;
			}
			pa = la;
		}
		return 2;
	}
	es = minimise(es, v.scenario, v.kind, limit);
	RunSpec rs{};
	rs.scenario = v.scenario;
	rs.replay = true;
	rs.entries = es;
	rs.trace = true;
	exec_run(region[0], rs);
	Result r = region[0]->r;
	if (r.status != 2 || strcmp(r.kind, v.kind)) {
		fprintf(stderr, "simrun: the minimised choices do not reproduce (%s)\n", r.kind);
		return 2;
	}
	std::string file = O.replay_dir + "/" + O.prop + "-" + scenarios()[v.scenario].name + "-" + v.kind + ".replay";
	write_replay(file, v.scenario, v.kind, r.hash, v.seed, es, r);
	// gate 3: a fresh process must fail the same way
	std::string o;
	int rc = replay_exec(file, &o);
	if (rc != 1) {
		fprintf(stderr, "simrun: replaying %s in a fresh process does not reproduce (rc %d): %s\n", file.c_str(), rc, o.c_str());
		return 2;
	}
	printf("minimised to %zu choices: %s\n%s", es.size(), r.msg, symbolise(r.msg, self_path).c_str());
	printf("VIOLATION property=%s replay=%s\n", O.prop.c_str(), file.c_str());
	fflush(stdout);
	return 1;
}

static const char *const PROPS_NOTE = nullptr;

static void evidence(double t, int violations) {
	(void)PROPS_NOTE;
	if (O.out.empty()) {
		return;
	}
	WStats s;
	memset(&s, 0, sizeof(s));
	for (int w = 0; w < O.workers; w++) {
		uint64_t *a = (uint64_t *)&s, *b = (uint64_t *)&B->w[w];
		for (size_t i = 0; i < sizeof(WStats) / 8; i++) {
			a[i] += b[i];
		}
	}
	std::ofstream f(O.out);
	f << "{\n \"property\": " << json(O.prop) << ",\n \"tier\": " << json(O.tier) << ",\n \"seed\": " << (long long)O.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	f << "  \"evaluations\": " << s.runs << ",\n  \"distinct_nontrivial\": " << runs_t->n.load() << ",\n";
	f << "  \"rule\": \"One case is one simulated run of one scenario from one seed (workload, interleaving, faults, clock, heap contents and entropy all drawn from it). Non-trivial: at least one thread switch, injected fault or more than four non-default choices. Distinct: different hash over every choice, switch, atomic operation result, system call and recorded event.\",\n";
	f << "  \"seeds_per_hour\": " << (uint64_t)(s.runs / std::max(t, 0.001) * 3600) << ",\n  \"runs_with_faults\": " << s.faulty_runs << ",\n  \"runs_with_thread_switches\": " << s.mt_runs << ",\n";
	f << "  \"distinct_interleavings\": " << sched_t->n.load() << ",\n  \"thread_switches\": " << s.switches << ",\n  \"scheduling_points\": " << s.yields << ",\n  \"memory_accesses_checked\": " << s.accesses << ",\n  \"simulated_system_calls\": " << s.syscalls
	  << ",\n  \"recorded_events\": " << s.ops << ",\n  \"simulated_seconds\": " << s.sim_ns / 1e9 << ",\n";
	f << "  \"determinism_rechecks\": " << s.rechecked << ",\n  \"determinism_mismatches\": " << s.nondet << ",\n  \"known_finding_hits\": " << s.known << ",\n";
	f << "  \"faults_injected\": {";
	bool first = true;
	for (int i = 0; i < F_MAX; i++) {
		if (s.faults[i]) {
			f << (first ? "" : ", ") << json(fault_names[i]) << ": " << s.faults[i];
			first = false;
		}
	}
	f << "},\n  \"rare_conditions_hit\": {";
	first = true;
	for (int i = 0; i < NPROBE; i++) {
		if (s.probes[i]) {
			std::string n;
			for (int w = 0; w < O.workers && n.empty(); w++) {
				n = region[w]->probe_name[i];
			}
			f << (first ? "" : ", ") << json(n) << ": " << s.probes[i];
			first = false;
		}
	}
	f << "},\n  \"runs_per_scenario\": {";
	first = true;
	for (size_t i = 0; i < scenarios().size() && i < MAXSC; i++) {
		if (s.scen[i]) {
			f << (first ? "" : ", ") << json(scenarios()[i].name) << ": " << s.scen[i];
			first = false;
		}
	}
	f << "},\n  \"samples\": [";
	int ns = std::min(8, B->nsample.load());
	for (int i = 0; i < ns; i++) {
		f << (i ? ", " : "") << "{\"run_seed\": " << json(std::to_string(B->sample[i].seed)) << ", \"trace\": " << json(B->sample[i].text) << "}";
	}
	f << "],\n  \"real_components\": \"all library code reached by the scenarios, compiled from the current tree of /repo (instrumented object code)\",\n";
	f << "  \"stubbed_components\": \"kernel and C runtime below the library: thread scheduling, pthread locks, heap, files and stdio, processes, sockets, clocks and sleeping, entropy source\"\n },\n";
	f << " \"assumptions\": [\"sequentially consistent execution of atomics; weaker orders are checked through happens-before only\", \"the simulated C library and kernel follow POSIX/glibc behaviour\"],\n";
	f << " \"wall_s\": " << t << ",\n \"violations\": " << violations << "\n}\n";
}

// runs the workers until the budget is used up or a violation is seen; true if a worker ended abnormally
static bool search(double t0) {
	B->stop = 0;
	B->nviol = 0;
	std::vector<pid_t> ws;
	for (int w = 0; w < O.workers; w++) {
		pid_t p = fork();
		if (p == 0) {
			worker(w);
		}
		ws.push_back(p);
	}
	while (!B->stop.load() && wall() - t0 < O.budget) {
		usleep(20000);
		if (O.max_runs != ~0ULL && B->next.load() >= O.max_runs + O.workers) {
			break;
		}
	}
	B->stop = 1;
	bool bad_worker = false;
	for (pid_t p : ws) {
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
		}
		bad_worker |= !WIFEXITED(st) || WEXITSTATUS(st) != 0;
	}
	return bad_worker;
}

int main(int argc, char **argv) {
	nul = open("/dev/null", O_WRONLY | O_CLOEXEC);
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") {
			O.prop = val();
		} else if (a == "--seed") {
			O.seed = strtoull(val().c_str(), nullptr, 0);
		} else if (a == "--budget") {
			O.budget = atof(val().c_str());
		} else if (a == "--workers") {
			O.workers = std::min<int>(MAXW, std::max(1, atoi(val().c_str())));
		} else if (a == "--out") {
			O.out = val();
		} else if (a == "--replay-dir") {
			O.replay_dir = val();
		} else if (a == "--known") {
			O.known_file = val();
		} else if (a == "--tier") {
			O.tier = val();
		} else if (a == "--replay") {
			O.replay = val();
		} else if (a == "--trace") {
			O.trace = true;
		} else if (a == "--list") {
			O.list = true;
		} else if (a == "--keep-going") {
			O.keep_going = true;
		} else if (a == "--max-runs") {
			O.max_runs = strtoull(val().c_str(), nullptr, 0);
		} else if (a == "--only") {
			O.only = val();
		} else if (a == "--one") {
			O.one = true;
			O.one_seed = strtoull(val().c_str(), nullptr, 0);
		}
	}
	if (!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		int old = personality(0xffffffff);
		if (old != -1 && personality(old | ADDR_NO_RANDOMIZE) != -1) {
			execv("/proc/self/exe", argv);
		}
	}
	char sp[4096];
	ssize_t k = readlink("/proc/self/exe", sp, sizeof(sp) - 1);
	sp[k > 0 ? k : 0] = 0;
	self_path = sp;
	if (O.list) {
		for (auto &s : scenarios()) {
			printf("%s %s %d\n", s.property, s.name, s.weight);
		}
		return 0;
	}
	for (int w = 0; w < MAXW; w++) {
		region[w] = (Shared *)shm(sizeof(Shared));
	}
	B = (Board *)shm(sizeof(Board));
	runs_t = (Table *)shm(sizeof(Table));
	sched_t = (Table *)shm(sizeof(Table));
	SH = region[0];
	if (zygote_setup) {
		zygote_setup();
	}
	if (!O.replay.empty()) {
		RunSpec s{};
		std::string kind;
		uint64_t hash;
		if (!load_replay(O.replay, &s, &O.prop, &kind, &hash)) {
			fprintf(stderr, "simrun: cannot read %s\n", O.replay.c_str());
			return 2;
		}
		s.trace = O.trace;
		exec_run(region[0], s);
		Result &r = region[0]->r;
		if (O.trace) {
			printf("%s", r.trace);
		}
		printf("replay: %s %s hash %llx (recorded %llx) %s\n", r.status == 2 ? "violation" : "ended", r.kind, (unsigned long long)r.hash, (unsigned long long)hash, r.msg);
		if (r.status == 2 && kind == r.kind && r.hash == hash) {
			printf("VIOLATION property=%s replay=%s\n", O.prop.c_str(), O.replay.c_str());
			return 1;
		}
		return r.status == 1 ? 0 : 2;
	}
	for (size_t i = 0; i < scenarios().size(); i++) {
		if (scenarios()[i].property == O.prop && (O.only.empty() || O.only == scenarios()[i].name)) {
			for (int w = 0; w < scenarios()[i].weight; w++) {
				pool.push_back(i);
			}
		}
	}
	if (pool.empty()) {
		fprintf(stderr, "simrun: no scenario for %s\n", O.prop.c_str());
		return 2;
	}
	if (O.one) {
		RunSpec s{};
		s.seed = O.one_seed;
		s.scenario = scenario_for(s.seed);
		s.trace = O.trace;
		exec_run(region[0], s);
		Result &r = region[0]->r;
		if (getenv("SIM_RERUN")) { // replay the recorded choices instead: for comparing the two traces
			RunSpec s2 = s;
			s2.replay = true;
			s2.entries = entries_of(region[0]);
			exec_run(region[0], s2);
		}
		printf("%s%s status %d kind %s\n%s\n%s", r.trace, scenarios()[s.scenario].name, r.status, r.kind, r.msg, symbolise(r.msg, self_path).c_str());
		return r.status == 1 ? 0 : 1;
	}
	if (!O.known_file.empty()) {
		std::ifstream f(O.known_file);
		std::string l;
		while (std::getline(f, l)) {
			std::istringstream is(l);
			std::string w, p, key;
			is >> w >> p >> key;
			if (w == "known:" && p == "property=" + O.prop && key.compare(0, 4, "key=") == 0) {
				known_keys.insert(key.substr(4));
				std::string rest;
				std::getline(is, rest);
				known_lines.push_back("KNOWN-FINDING: property=" + O.prop + rest);
			}
		}
	}
	double t0 = wall();
	bool bad_worker = search(t0);
	double t = wall() - t0;
	for (auto &l : known_lines) {
		printf("%s\n", l.c_str());
	}
	uint64_t runs = 0, nondet = 0, sw = 0;
	for (int w = 0; w < O.workers; w++) {
		runs += B->w[w].runs;
		nondet += B->w[w].nondet;
		sw += B->w[w].switches;
	}
	int nv = std::min(64, B->nviol.load());
	printf("%s: %llu runs in %.1f s (%.0f/s), %llu distinct, %llu switches, %d violations seen, %llu nondeterministic\n", O.prop.c_str(), (unsigned long long)runs, t, runs / t, (unsigned long long)runs_t->n.load(), (unsigned long long)sw, nv,
			(unsigned long long)nondet);
	int rc = 0;
	std::set<std::string> seen;
	while (nv) {
		std::vector<Board::V> vs(B->viol, B->viol + nv);
		std::sort(vs.begin(), vs.end(), [](const Board::V &a, const Board::V &b) { return a.index < b.index; });
		if (rc == 0) {
			rc = 2;
		}
		for (auto &v : vs) {
			if (!strncmp(v.kind, "HARNESS", 7)) {
				fprintf(stderr, "simrun: seed %llu %s: %s\n", (unsigned long long)v.seed, scenarios()[v.scenario].name, v.kind);
				continue;
			}
			if (O.keep_going && !seen.insert(key_of(v.scenario, v.kind)).second) {
				continue;
			}
			int x = report(v, O.keep_going ? 8 : 45);
			if (x == 1) {
				rc = 1;
				if (!O.keep_going) {
					break;
				}
			}
		}
		// what was seen did not survive the gates: go on with the time that is left
		nv = 0;
		if (rc == 2 && wall() - t0 < O.budget) {
			bad_worker |= search(t0);
			nv = std::min(64, B->nviol.load());
		}
	}
	if (bad_worker && rc == 0) {
		fprintf(stderr, "simrun: a worker ended abnormally\n");
		rc = 2;
	}
	evidence(wall() - t0, rc == 1 ? 1 : 0);
	return rc;
}
