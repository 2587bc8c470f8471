// Simulated child processes: fork/exec/waitpid/kill and popen/pclose.  fork() is a real fork of the run process whose
// child only runs the library's code up to exec or exit, reports that over a pipe and ends; nothing is ever executed.
#include "rt.h"

#include <errno.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

#define EXPORT extern "C" __attribute__((used, visibility("default")))

namespace sim {
extern int child_report_fd;
extern void (*child_violation)(const char *kind, const char *msg);
namespace fs {
FILE *open_pipe_stream(int h, const char *cmd);
int close_stream(FILE *f);
} // namespace fs

namespace proc {
struct P {
	Script sc;
	uint64_t start = 0, end = 0;
	size_t pos = 0; // output delivered to the reader
	int status = 0; // wait status once ended
	bool read_open = false;
	std::string visible; // what arrives on the pipe
	std::vector<std::pair<uint64_t, size_t>> avail; // (time, bytes visible from then on)
};
static std::vector<Child> kids;
static std::vector<P> ps;
static std::vector<Kill> kls;
static std::vector<Script> scripts;
static size_t script_pos = 0;
static int next_pid = 5000;
bool pid_reuse = false;
uint32_t fork_fail = 0, popen_fail = 0, wait_eintr = 0;
uint64_t bad_waits = 0;
int orphan_opens = 0;

void reset() {
	kids.clear();
	ps.clear();
	kls.clear();
	scripts.clear();
	script_pos = 0;
	pid_reuse = false;
	fork_fail = popen_fail = wait_eintr = 0;
	bad_waits = 0;
}
void next_script(const Script &s) { scripts.push_back(s); }
const std::vector<Child> &children() { return kids; }
const std::vector<Kill> &kills() { return kls; }
static void settle() {
	for (size_t i = 0; i < kids.size(); i++) {
		if (!kids[i].exited && now_ns() >= ps[i].end) {
			kids[i].exited = true;
			kids[i].status = ps[i].status;
		}
	}
}
int live_or_zombie() {
	int n = 0;
	for (auto &k : kids) {
		n += !k.reaped;
	}
	return n;
}
static int add(bool via_popen) {
	Child c;
	c.pid = next_pid++;
	if (pid_reuse && !kids.empty() && choose(ST_PROC, 2)) { // the number of a collected child is given out again
		const Child &old = kids[choose(ST_PROC, kids.size())];
		bool used = !old.reaped;
		for (auto &k : kids) {
			used |= !k.reaped && k.pid == old.pid;
		}
		if (!used) {
			c.pid = old.pid;
			fault_fired(F_PID_REUSE);
		}
	}
	c.via_popen = via_popen;
	P p;
	if (script_pos < scripts.size()) {
		p.sc = scripts[script_pos++];
	}
	p.start = now_ns();
	p.end = p.start + p.sc.run_ns;
	p.status = p.sc.term_signal ? p.sc.term_signal : (p.sc.exit_code & 0xff) << 8;
	kids.push_back(c);
	ps.push_back(p);
	return kids.size() - 1;
}
static void exited(int i) {
	kids[i].exited = true;
	kids[i].status = ps[i].status;
	kids[i].reaped = true;
	kids[i].reaps++;
	if (pid_reuse) {
		fault_fired(F_PID_REUSE);
	}
}
// --- a small shell: words, quoting and redirections of one simple command -------------------------------
bool shell_parse(const std::string &cmd, std::vector<std::string> *argv, std::vector<std::string> *redirs, std::string *why) {
	size_t i = 0, n = cmd.size();
	std::string w;
	bool in_word = false;
	auto flush = [&]() {
		if (in_word) {
			argv->push_back(w);
		}
		w.clear();
		in_word = false;
	};
	while (i < n) {
		char c = cmd[i];
		if (c == ' ' || c == '\t') {
			flush();
			i++;
		} else if (c == '\'') {
			in_word = true;
			size_t j = cmd.find('\'', i + 1);
			if (j == std::string::npos) {
				*why = "unterminated quote";
				return false;
			}
			w.append(cmd, i + 1, j - i - 1);
			i = j + 1;
		} else if (c == '"') {
			in_word = true;
			i++;
			bool closed = false;
			while (i < n) {
				c = cmd[i];
				if (c == '"') {
					closed = true;
					i++;
					break;
				}
				if (c == '\\' && i + 1 < n && strchr("$`\"\\\n", cmd[i + 1])) {
					if (cmd[i + 1] != '\n') {
						w += cmd[i + 1];
					}
					i += 2;
					continue;
				}
				if (c == '`') {
					*why = "command substitution";
					return false;
				}
				if (c == '$' && i + 1 < n && (isalnum((unsigned char)cmd[i + 1]) || strchr("_({@*#?-$!", cmd[i + 1]))) {
					*why = "shell expansion";
					return false;
				}
				w += c;
				i++;
			}
			if (!closed) {
				*why = "unterminated quote";
				return false;
			}
		} else if (c == '\\') {
			if (i + 1 >= n) {
				*why = "trailing backslash";
				return false;
			}
			in_word = true;
			if (cmd[i + 1] != '\n') {
				w += cmd[i + 1];
			}
			i += 2;
		} else if (c == '>' || c == '<' || ((c == '1' || c == '2') && !in_word && i + 1 < n && cmd[i + 1] == '>')) {
			size_t j = cmd.find_first_of(" \t", i);
			if (j == std::string::npos) {
				j = n;
			}
			std::string r = cmd.substr(i, j - i);
			if (r != "2>&1" && r != "2>/dev/null" && r != ">/dev/null" && r != "</dev/null" && r != "1>/dev/null" && r != "1>&2") {
				*why = "redirection " + r;
				return false;
			}
			redirs->push_back(r);
			flush();
			i = j;
		} else if (strchr(";&|()\n*?[]~$`#!{}=", c)) {
			// these have a meaning for the shell (some only in places); the program's words would not arrive unaltered
			if (c == '=' || c == '{' || c == '}' || c == '!' || c == ']' || (c == '~' && in_word) || (c == '#' && in_word)) {
				in_word = true;
				w += c;
				i++;
				continue;
			}
			*why = std::string("shell operator or pattern '") + c + "'";
			return false;
		} else {
			in_word = true;
			w += c;
			i++;
		}
	}
	flush();
	if (!argv->empty() && (*argv)[0] == "exec") {
		argv->erase(argv->begin());
	}
	return true;
}
static void plan_output(P &p) {
	size_t n = p.visible.size(), at = 0;
	int chunks = n ? 1 + (int)choose(ST_PROC, 5) : 0;
	for (int i = 0; i < chunks && at < n; i++) {
		size_t k = i + 1 == chunks ? n - at : 1 + choose(ST_PROC, n - at);
		at += k;
		if (at > n) {
			at = n;
		}
		uint64_t t = p.start + (p.sc.run_ns ? (uint64_t)((double)p.sc.run_ns * (i + 1) / (chunks + 1)) : 0);
		p.avail.push_back({ t, at });
	}
}
ssize_t pipe_read(int h, void *buf, size_t n) {
	syscall_point("read(pipe)");
	P &p = ps[h];
	for (;;) {
		size_t vis = 0;
		uint64_t next = p.end;
		uint64_t now = now_ns();
		bool dead = kids[h].killed_by && p.end <= now;
		for (auto &a : p.avail) {
			if (a.first <= now) {
				vis = a.second;
			} else {
				next = std::min(next, a.first);
			}
		}
		if (p.pos < vis) {
			size_t k = std::min(n, vis - p.pos);
			if (k > 1 && flip(ST_IO, 1, 3)) {
				k = std::min<size_t>(k, 1 + choose(ST_IO, k));
				fault_fired(F_SHORT_READ);
			}
			memcpy(buf, p.visible.data() + p.pos, k);
			p.pos += k;
			return k;
		}
		if (now >= p.end || dead) {
			return 0;
		}
		fault_fired(F_CHILD_SLOW);
		block_sleep(next);
	}
}
int pclose_child(int h) {
	syscall_point("pclose");
	P &p = ps[h];
	p.read_open = false;
	if (now_ns() < p.end) {
		block_sleep(p.end);
	}
	settle();
	if (kids[h].reaped) {
		return -1;
	}
	exited(h);
	return p.status;
}
} // namespace proc
} // namespace sim
using namespace sim;
using namespace sim::proc;

EXPORT FILE *sim_popen(const char *cmd, const char *mode) {
	syscall_point("popen");
	if (fault(F_POPEN, popen_fail)) {
		errno = EMFILE;
		return nullptr;
	}
	int i = add(true);
	Child &c = kids[i];
	c.shell = cmd;
	std::vector<std::string> redirs;
	std::string why;
	if (!shell_parse(cmd, &c.argv, &redirs, &why)) {
		c.argv.clear();
		c.file = "";
		ev("popen: %s", why.c_str());
		c.argv.push_back("\x01" + why);
	} else {
		c.file = c.argv.empty() ? "" : c.argv[0];
	}
	c.exec_done = true;
	P &p = ps[i];
	if (p.sc.exec_fails) {
		fault_fired(F_EXEC);
		p.status = 127 << 8;
		p.sc.output.clear();
		p.sc.err_output = "sh: not found\n";
	}
	bool out = true, err = false;
	for (auto &r : redirs) {
		if (r == "2>&1") {
			err = out;
			c.err_to = out ? 1 : 2;
		} else if (r == "2>/dev/null") {
			err = false;
			c.err_to = 2;
		} else if (r == ">/dev/null" || r == "1>/dev/null") {
			out = false;
		}
	}
	p.visible = out ? p.sc.output : "";
	if (err) {
		p.visible += p.sc.err_output;
	}
	plan_output(p);
	p.read_open = true;
	return fs::open_pipe_stream(i, cmd);
}
EXPORT int sim_pclose(FILE *f) { return fs::close_stream(f); }

// messages of a forked child
static void rep(const std::string &s) {
	size_t o = 0;
	while (o < s.size()) {
		ssize_t k = ::write(child_report_fd, s.data() + o, s.size() - o);
		if (k <= 0) {
			break;
		}
		o += k;
	}
}
static void rep_field(char tag, const std::string &v) {
	uint32_t n = v.size();
	std::string s(1, tag);
	s.append((const char *)&n, 4);
	s += v;
	rep(s);
}
static void child_viol(const char *kind, const char *msg) {
	rep_field('V', kind);
	rep_field('M', msg);
	_exit(0);
}
static bool child_exec_fails = false;

EXPORT int sim_fork() {
	syscall_point("fork");
	if (fault(F_FORK, fork_fail)) {
		errno = EAGAIN;
		return -1;
	}
	int i = add(false);
	int pd[2];
	if (pipe(pd)) {
		harness_error("pipe");
	}
	pid_t r = ::fork();
	if (r < 0) {
		harness_error("fork");
	}
	if (r == 0) {
		::close(pd[0]);
		child_report_fd = pd[1];
		child_violation = child_viol;
		child_exec_fails = ps[i].sc.exec_fails;
		Shared *priv = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		memcpy((void *)priv, (void *)SH, sizeof(Result));
		priv->r.nentries = 0;
		SH = priv;
		new Quiet();
		alarm(20);
		return 0;
	}
	::close(pd[1]);
	std::string in;
	char b[4096];
	ssize_t k;
	while ((k = ::read(pd[0], b, sizeof(b))) > 0 || (k < 0 && errno == EINTR)) {
		if (k > 0) {
			in.append(b, k);
		}
	}
	::close(pd[0]);
	int st;
	while (::waitpid(r, &st, 0) < 0 && errno == EINTR) {
	}
	Child &c = kids[i];
	P &p = ps[i];
	bool ended = false;
	std::string vk;
	for (size_t o = 0; o + 5 <= in.size();) {
		char tag = in[o];
		uint32_t n;
		memcpy(&n, &in[o + 1], 4);
		std::string v = in.substr(o + 5, n);
		o += 5 + n;
		switch (tag) {
			case 'F':
				c.file = v;
				break;
			case 'A':
				c.argv.push_back(v);
				break;
			case 'X':
				c.exec_done = true;
				break;
			case 'Y':
				fault_fired(F_EXEC);
				break;
			case 'S': // ended by a signal it raised
				p.status = atoi(v.c_str());
				p.end = p.start;
				ended = true;
				break;
			case 'E':
				p.status = (atoi(v.c_str()) & 0xff) << 8;
				p.end = p.start;
				ended = true;
				break;
			case 'V':
				vk = v;
				break;
			case 'M':
				violation(vk.c_str(), "in the forked child: %s", v.c_str());
		}
	}
	if (!c.exec_done && !ended) {
		violation("crash", "the forked child ended without exec or exit (status 0x%x)", st);
	}
	ev("fork -> %d exec=%d", c.pid, (int)c.exec_done);
	return c.pid;
}
static int do_exec(const char *file, char *const argv[]) {
	if (child_report_fd < 0) {
		violation("exec-in-parent", "exec called in the parent process");
	}
	if (child_exec_fails) {
		rep_field('Y', "");
		errno = ENOENT;
		return -1;
	}
	rep_field('F', file);
	for (int i = 0; argv[i]; i++) {
		range_access(argv[i], strlen(argv[i]) + 1, false, __builtin_return_address(0));
		rep_field('A', argv[i]);
	}
	rep_field('X', "");
	::_exit(0);
}
EXPORT int sim_execvp(const char *file, char *const argv[]) { return do_exec(file, argv); }
EXPORT int sim_execv(const char *file, char *const argv[]) { return do_exec(file, argv); }
EXPORT int sim_execvpe(const char *file, char *const argv[], char *const *) { return do_exec(file, argv); }
EXPORT void sim__exit(int code) {
	if (child_report_fd >= 0) {
		rep_field('E', std::to_string(code));
		::_exit(0);
	}
	violation("exit", "the library ended the process with code %d", code);
}
EXPORT void sim_exit(int code) { sim__exit(code); }
namespace sim {
bool child_raise(int sig) {
	if (child_report_fd < 0) {
		return false;
	}
	rep_field('S', std::to_string(sig));
	::_exit(0);
}
} // namespace sim
EXPORT int sim_setsid() { return 1; }
EXPORT int sim_waitpid(int pid, int *st, int opts) {
	syscall_point("waitpid");
	settle();
	if (pid == -1) { // any child
		int best = -1;
		for (size_t i = 0; i < kids.size(); i++) {
			if (!kids[i].reaped && (best < 0 || ps[i].end < ps[best].end)) {
				best = i;
			}
		}
		if (best < 0) {
			bad_waits++;
			errno = ECHILD;
			return -1;
		}
		pid = kids[best].pid;
	}
	int i = -1;
	for (size_t k = 0; k < kids.size(); k++) {
		if (kids[k].pid == pid && !kids[k].reaped) {
			i = k;
		}
	}
	if (i < 0 || pid <= 0) {
		bad_waits++;
		errno = ECHILD;
		return -1;
	}
	if (!kids[i].exited) {
		if (opts & WNOHANG) {
			return 0;
		}
		if (wait_eintr && flip(ST_FAULT, wait_eintr, 1000)) {
			fault_fired(F_WAIT_EINTR);
			uint64_t left = ps[i].end - now_ns();
			block_sleep(now_ns() + (uint64_t)((double)left * choose(ST_TIME, 1000) / 1000.0));
			errno = EINTR;
			return -1;
		}
		block_sleep(ps[i].end);
		settle();
	}
	exited(i);
	if (st) {
		*st = ps[i].status;
	}
	ev("waitpid %d -> status 0x%x", pid, ps[i].status);
	return pid;
}
EXPORT int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
EXPORT int sim_kill(int pid, int sig) {
	syscall_point("kill");
	settle();
	int t = -1;
	for (size_t k = 0; k < kids.size(); k++) {
		if (kids[k].pid == pid && !kids[k].reaped) {
			t = k;
		}
	}
	if (sig != 0) {
		kls.push_back({ pid, sig, t });
	}
	ev("kill %d %d target %d", pid, sig, t);
	if (t < 0) {
		bool was = false;
		for (auto &k : kids) {
			was |= k.pid == pid;
		}
		if (was && pid_reuse) {
			return 0; // hits a foreign process that got the number
		}
		errno = ESRCH;
		return -1;
	}
	if (!kids[t].exited && (sig == SIGKILL || sig == SIGTERM || sig == SIGINT || sig == SIGHUP)) {
		kids[t].killed_by = sig;
		ps[t].status = sig;
		ps[t].end = now_ns() + choose(ST_TIME, 4) * (1 + choose(ST_TIME, 5000000)); // it takes a moment to end
		for (auto &a : ps[t].avail) {
			a.second = std::min(a.second, ps[t].pos);
		}
	}
	return 0;
}
