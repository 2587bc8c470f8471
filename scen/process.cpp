// P01, P02: child processes.
#include "common.h"
#include <signal.h>
using namespace sim;

namespace {
static String S(const std::string &s) { return String::utf8(s.c_str(), (int)s.size()); }
static std::string B(const String &s) {
	CharString c = s.utf8();
	return std::string(c.get_data() ? c.get_data() : "", c.length());
}
static std::string word(bool program) {
	static const char *const ws[] = { "", "a", "two words", "$HOME", "`id`", "$(reboot)", "a\"b", "it's", "a\\b", "\\", "x;y", "a|b", "a&b", ">out", "<in", "2>&1", "*", "?", "[a]", "~", "#c", "line\nbreak", "tab\there", "!!", "{a,b}", "ü漢🙂", "-n", "--", "'", "''", "\"", "\\\"",
		"\\$x", "$", "a=b", "(", ")", "${x}", " ", "\n", "\\\n", "%s", "'\"'\"'", "&&", "a  b", "end\\" };
	std::string s;
	uint32_t n = wchoose(3) ? 1 : wchoose(4);
	for (uint32_t i = 0; i < n; i++) s += ws[wchoose(sizeof(ws) / sizeof(*ws))];
	if (program && s.empty()) s = "prog";
	return s;
}
static std::string output(bool long_ok) {
	std::string s;
	uint32_t n = wchoose(6);
	for (uint32_t i = 0; i < n; i++) {
		switch (wchoose(long_ok ? 7 : 5)) {
			case 0: s += "line " + std::to_string(i) + "\n"; break;
			case 1: s += "ü漢🙂"; break;
			case 2: s += "\n"; break;
			case 3: s += "no break"; break;
			case 4: s += "a\r\nb\t%d \"q\"\n"; break;
			case 5: { // longer than any buffer, characters of several bytes at every offset
				static const char *const unit[] = { "ü", "漢", "🙂", "x" };
				uint32_t k = 65500 + wchoose(70), u = wchoose(4);
				s += std::string(wchoose(5), 'y');
				while (k > strlen(unit[u])) {
					s += unit[u];
					k -= strlen(unit[u]);
				}
				s += wchoose(2) ? "\n" : "漢z";
				probe(10, "process output lines longer than the reader's buffer");
			} break;
			default: s += std::string(1 + wchoose(3000), 'z'); break;
		}
	}
	return s;
}
static proc::Script script(bool long_ok) {
	proc::Script s;
	s.output = output(long_ok);
	s.err_output = wchoose(2) ? output(false) : "";
	static const int codes[] = { 0, 1, 2, 42, 127, 128, 255 };
	s.exit_code = codes[wchoose(7)];
	if (wchoose(5) == 1) {
		static const int sigs[] = { SIGKILL, SIGSEGV, SIGTERM, SIGABRT };
		s.term_signal = sigs[wchoose(4)];
	}
	s.run_ns = wchoose(3) ? bits(ST_PROC) % 5000000000ULL : 0;
	s.exec_fails = wchoose(8) == 1;
	return s;
}
struct Want {
	std::string prog, out, err;
	std::vector<std::string> args;
	proc::Script sc;
	bool read_err;
};
static void config_faults() {
	if (choose(ST_CFG, 3) == 1) proc::fork_fail = 100 + choose(ST_CFG, 400);
	if (choose(ST_CFG, 3) == 1) proc::popen_fail = 100 + choose(ST_CFG, 400);
	if (choose(ST_CFG, 2)) proc::wait_eintr = 200 + choose(ST_CFG, 600);
}
static Want want() {
	Want w;
	w.prog = word(true);
	uint32_t n = wchoose(5);
	for (uint32_t i = 0; i < n; i++) w.args.push_back(word(false));
	w.sc = script(true);
	w.read_err = wchoose(2);
	return w;
}
static Vector<String> vec(const std::vector<std::string> &v) {
	Vector<String> r;
	for (auto &s : v) r.push_back(S(s));
	return r;
}
static std::string join_out(const Want &w) {
	if (w.sc.exec_fails) return w.read_err ? "sh: not found\n" : "";
	return w.sc.output + (w.read_err ? w.sc.err_output : "");
}
static void check_child(const proc::Child &c, const Want &w) {
	if (w.sc.exec_fails && !c.via_popen) return;
	SIM_CHECK(c.argv.size() == w.args.size() + 1 && c.file == w.prog && c.argv[0] == w.prog, "arguments", "%s with %zu arguments was started as %s with %zu%s%s", w.prog.c_str(), w.args.size(), c.file.c_str(), c.argv.size() ? c.argv.size() - 1 : 0,
			c.argv.size() && c.argv[0][0] == 1 ? ": " : "", c.argv.size() && c.argv[0][0] == 1 ? c.argv[0].c_str() + 1 : "");
	if (c.via_popen) SIM_CHECK(c.err_to == (w.read_err ? 1 : 2), "errors", "the error output of a child goes to the %s, asked for was the %s", c.err_to == 0 ? "parent's own" : c.err_to == 1 ? "output" : "void", w.read_err ? "output" : "void");
	for (size_t i = 0; i < w.args.size(); i++) SIM_CHECK(c.argv[i + 1] == w.args[i], "arguments", "argument %zu '%s' arrived as '%s'", i, w.args[i].c_str(), c.argv[i + 1].c_str());
}
static void check_code(int code, const Want &w, bool via_popen, bool killed = false) {
	if (killed || w.sc.exec_fails || w.sc.term_signal) {
		SIM_CHECK(code != 0, "exitcode", "a child that %s has the exit code 0", killed ? "was killed" : w.sc.exec_fails ? "could not be executed" : "died from a signal");
		if (!killed && w.sc.exec_fails && via_popen) SIM_CHECK(code == 127, "exitcode", "exit code %d, expected 127", code);
	} else {
		SIM_CHECK(code == w.sc.exit_code, "exitcode", "exit code %d, expected %d", code, w.sc.exit_code);
	}
}
static void setup(SubProcess *p, const Want &w, bool blocking, bool out) {
	p->set_executable_path(S(w.prog));
	p->set_arguments(vec(w.args));
	p->set_blocking(blocking);
	p->set_read_output(out);
	p->set_read_std_err(w.read_err);
}
static Error begin(SubProcess *p, const Want &w, bool blocking, bool out) {
	if (wchoose(2)) return p->run(S(w.prog), vec(w.args), out, blocking, w.read_err, wchoose(2));
	setup(p, w, blocking, out);
	return p->start();
}
// ---- P01 ---------------------------------------------------------------------------------------------
static void p01_blocking() {
	config_faults();
	set_step_limit(400000, 200000000);
	SubProcess *p = SubProcess::create();
	uint32_t rounds = 1 + wchoose(3);
	for (uint32_t r = 0; r < rounds; r++) {
		Want w = want();
		bool out = wchoose(3) > 0;
		proc::next_script(w.sc);
		size_t before = proc::children().size();
		uint64_t t0 = now_ns();
		Error e = begin(p, w, true, out);
		size_t n = proc::children().size() - before;
		SIM_CHECK(!p->is_process_running(), "running", "a blocking run returned while the object says its process runs");
		if (e != OK) {
			SIM_CHECK(n == 0, "refused", "a start that reports %d left a child", e);
			proc::fork_fail = proc::popen_fail = 0;
			Error e2 = begin(p, w, true, out); // and can be repeated
			SIM_CHECK(e2 == OK, "refused", "starting reports %d without a reason", e2);
			n = proc::children().size() - before;
		}
		SIM_CHECK(n == 1, "children", "one start created %zu children", n);
		const proc::Child &c = proc::children().back();
		check_child(c, w);
		SIM_CHECK(c.reaped && c.reaps == 1, "early", "the run returned with the child not collected");
		if (!w.sc.exec_fails) SIM_CHECK(now_ns() - t0 >= w.sc.run_ns, "early", "the run returned after %llu of %llu ns", (unsigned long long)(now_ns() - t0), (unsigned long long)w.sc.run_ns);
		check_code(p->get_exitcode(), w, out);
		if (out) {
			std::string g = B(p->get_data()), x = join_out(w);
			SIM_CHECK(g == x, "output", "%zu bytes of output arrived as %zu bytes in run %u", x.size(), g.size(), r + 1);
		}
	}
	memdelete(p);
	SIM_CHECK(proc::bad_waits == 0 && proc::kills().empty(), "foreign", "the process was waited for or signalled again");
	SIM_CHECK(fs::open_handles() == 0, "handles", "%d handles left: %s", fs::open_handles(), fs::open_desc().c_str());
}
static void p01_polled() {
	config_faults();
	set_step_limit(400000, 200000000);
	SubProcess *p = SubProcess::create();
	uint32_t rounds = 1 + wchoose(3);
	for (uint32_t r = 0; r < rounds; r++) {
		Want w = want();
		proc::next_script(w.sc);
		size_t before = proc::children().size();
		uint64_t t0 = now_ns();
		Error e = begin(p, w, false, true);
		if (e != OK) {
			SIM_CHECK(proc::children().size() == before && !p->is_process_running(), "refused", "a start that reports %d left a child", e);
			proc::popen_fail = 0;
			e = begin(p, w, false, true);
			SIM_CHECK(e == OK, "refused", "starting reports %d without a reason", e);
		}
		SIM_CHECK(proc::children().size() == before + 1, "children", "one start created %zu children", proc::children().size() - before);
		check_child(proc::children().back(), w);
		std::string got;
		int polls = 0;
		bool ended = false;
		while (!ended) {
			if (wchoose(4) == 1) advance_ns(bits(ST_TIME) % 2000000000ULL);
			bool alive = !w.sc.exec_fails && now_ns() < t0 + w.sc.run_ns;
			if (wchoose(3) == 1) {
				bool says = p->is_process_running();
				SIM_CHECK(says || !alive, "running", "a running child is reported as ended");
				if (says && wchoose(2)) { // what is configured for a running child cannot be started over it
					proc::Script none;
					size_t k = proc::children().size();
					Error e2 = p->start();
					SIM_CHECK(e2 != OK && proc::children().size() == k, "children", "a second start of a running process was accepted");
				}
			}
			if (wchoose(40) == 1) break;
			Error pe = p->poll();
			SIM_CHECK(++polls < 3000, "endless", "polling does not end");
			if (pe == OK) {
				got += B(p->get_data());
			} else {
				ended = true;
			}
		}
		std::string x = join_out(w);
		if (!ended) {
			probe(11, "polled processes stopped before their end");
			SIM_CHECK(got.size() <= x.size() && x.compare(0, got.size(), got) == 0, "output", "the output polled so far is not the beginning of what the child wrote");
			p->stop();
			SIM_CHECK(!p->is_process_running(), "running", "a stopped process is reported as running");
			continue;
		}
		SIM_CHECK(got == x, "output", "%zu bytes of output were polled as %zu bytes", x.size(), got.size());
		if (!w.sc.exec_fails) SIM_CHECK(now_ns() >= t0 + w.sc.run_ns, "early", "polling ended before the child did");
		SIM_CHECK(!p->is_process_running(), "running", "an ended child is reported as running");
		check_code(p->get_exitcode(), w, true);
		const proc::Child &c = proc::children().back();
		SIM_CHECK(c.reaped && c.reaps == 1, "collected", "a process polled to its end was not collected");
	}
	memdelete(p);
	SIM_CHECK(proc::live_or_zombie() == 0, "collected", "%d children are left", proc::live_or_zombie());
	SIM_CHECK(fs::open_handles() == 0, "handles", "%d handles left: %s", fs::open_handles(), fs::open_desc().c_str());
}
// no output wanted: liveness and exit code through queries
static void p01_detached() {
	config_faults();
	SubProcess *p = SubProcess::create();
	Want w = want();
	proc::next_script(w.sc);
	uint64_t t0 = now_ns();
	Error e = begin(p, w, false, false);
	if (e != OK) {
		SIM_CHECK(proc::children().empty() && !p->is_process_running() && p->get_process_id() == 0, "refused", "a start that reports %d left a child", e);
	} else {
		SIM_CHECK(proc::children().size() == 1, "children", "one start created %zu children", proc::children().size());
		check_child(proc::children()[0], w);
		SIM_CHECK(p->get_process_id() == proc::children()[0].pid, "pid", "the process id is %d, expected %d", p->get_process_id(), proc::children()[0].pid);
		uint32_t n = 1 + wchoose(12);
		for (uint32_t i = 0; i < n; i++) {
			advance_ns(bits(ST_TIME) % 1500000000ULL);
			bool alive0 = !w.sc.exec_fails && now_ns() < t0 + w.sc.run_ns;
			bool says = p->is_process_running();
			bool alive1 = !w.sc.exec_fails && now_ns() < t0 + w.sc.run_ns;
			SIM_CHECK(says || !alive1, "running", "a running child is reported as ended");
			SIM_CHECK(!says || alive0, "running", "an ended child is reported as running");
			if (!says) {
				check_code(p->get_exitcode(), w, false);
			} else if (wchoose(8) == 1) {
				p->stop();
				SIM_CHECK(!p->is_process_running(), "running", "a stopped process is reported as running");
				check_code(p->get_exitcode(), w, false, proc::children()[0].killed_by);
				break;
			} else if (wchoose(3) == 1) {
				size_t k = proc::children().size();
				Error e2 = p->start();
				alive0 = alive0 && now_ns() < t0 + w.sc.run_ns;
				SIM_CHECK(!alive0 || (e2 != OK && proc::children().size() == k), "children", "a second start of a running process was accepted");
				if (e2 == OK) break;
			}
		}
	}
	memdelete(p);
	SIM_CHECK(proc::live_or_zombie() == 0, "collected", "%d children are left", proc::live_or_zombie());
	SIM_CHECK(proc::bad_waits == 0, "foreign", "a process was waited for that is not there");
}
// another thread reads the output while it grows
static void p01_watched() {
	set_step_limit(400000, 200000000);
	SubProcess *p = SubProcess::create();
	Want w = want();
	w.sc.output = output(false);
	w.sc.exec_fails = false;
	bool blocking = choose(ST_CFG, 2);
	setup(p, w, blocking, true);
	p->set_use_pipe_mutex(true);
	proc::next_script(w.sc);
	std::string x = join_out(w);
	bool done = false;
	std::vector<int> ts;
	for (int t = 0; t < 1 + (int)choose(ST_CFG, 2); t++) {
		ts.push_back(spawn([&] {
			std::string last;
			for (int i = 0; i < 30; i++) {
				std::string g = B(p->get_data());
				Quiet q;
				if (blocking) {
					SIM_CHECK(g.size() <= x.size() && x.compare(0, g.size(), g) == 0 && g.size() >= last.size(), "watch", "another thread saw output that is not a growing part of it");
				} else {
					SIM_CHECK(x.find(g) != std::string::npos, "watch", "another thread saw output that the child did not write");
				}
				last = g;
				if (done) break;
				advance_ns(bits(ST_TIME) % 300000000ULL);
			}
		}));
	}
	Error e = p->start();
	SIM_CHECK(e == OK, "refused", "starting reports %d without a reason", e);
	std::string got;
	if (!blocking) {
		for (;;) {
			Error pe = p->poll();
			if (pe != OK) break;
			got += B(p->get_data());
		}
	} else {
		got = B(p->get_data());
	}
	{
		Quiet q;
		done = true;
	}
	for (int t : ts) join(t);
	SIM_CHECK(got == x, "output", "%zu bytes of output arrived as %zu bytes", x.size(), got.size());
	memdelete(p);
}
static void p01_memory() {
	delete new int;
	Ref<Reference> keep(memnew(Reference));
	uint64_t before = heap_live_since(0);
	{
		SubProcess *p = SubProcess::create();
		for (int i = 0; i < 2; i++) {
			Want w = want();
			proc::next_script(w.sc);
			begin(p, w, wchoose(2), wchoose(2));
		}
		memdelete(p);
	}
	uint64_t after = heap_live_since(0);
	SIM_CHECK(after <= before, "leak", "%llu blocks are left by a process object", (unsigned long long)(after - before));
	SIM_CHECK(fs::open_handles() == 0, "handles", "%d handles left: %s", fs::open_handles(), fs::open_desc().c_str());
	SIM_CHECK(proc::live_or_zombie() == 0, "collected", "%d children are left", proc::live_or_zombie());
}
// ---- P02 ---------------------------------------------------------------------------------------------
static void p02_histories() {
	config_faults();
	proc::pid_reuse = choose(ST_CFG, 3) > 0;
	struct Obj {
		SubProcess *p = nullptr;
		bool started = false, out = false;
		Want w;
		int child = -1; // index
	};
	int no = 1 + choose(ST_CFG, 3);
	std::vector<Obj> o(no);
	std::vector<int> owner;
	size_t kseen = 0;
	std::vector<int> reaps;
	// after an operation on object x: whatever was signalled or collected belongs to it
	auto audit = [&](int x, const char *op) {
		while (owner.size() < proc::children().size()) {
			owner.push_back(x);
			reaps.push_back(0);
			o[x].child = (int)owner.size() - 1;
		}
		for (; kseen < proc::kills().size(); kseen++) {
			const proc::Kill &k = proc::kills()[kseen];
			SIM_CHECK(k.target >= 0, "foreign", "%s sent signal %d to process %d, which is not a child of ours", op, k.sig, k.pid);
			SIM_CHECK(owner[k.target] == x, "foreign", "%s sent signal %d to the process of another object", op, k.sig);
		}
		SIM_CHECK(proc::bad_waits == 0, "foreign", "%s waited for a process that is not an uncollected child", op);
		for (size_t i = 0; i < owner.size(); i++) {
			if (proc::children()[i].reaps != reaps[i]) {
				SIM_CHECK(owner[i] == x && proc::children()[i].reaps == 1, "collected", "%s collected the process of another object", op);
				reaps[i] = proc::children()[i].reaps;
			}
		}
	};
	uint32_t n = 3 + wchoose(25);
	for (uint32_t s = 0; s < n; s++) {
		int x = wchoose(no);
		Obj &b = o[x];
		if (!b.p) {
			b = Obj();
			b.p = SubProcess::create();
		}
		switch (wchoose(8)) {
			case 0:
			case 1: {
				bool was = b.p->is_process_running();
				audit(x, "a query");
				Want w = want();
				bool out = wchoose(3) == 0, blocking = wchoose(4) == 0;
				size_t k = proc::children().size();
				if (!was) proc::next_script(w.sc);
				Error e = b.p->run(S(w.prog), vec(w.args), out, blocking, w.read_err);
				audit(x, "a start");
				if (proc::children().size() > k) {
					b.w = w;
					b.out = out;
					b.started = !blocking;
				} else {
					SIM_CHECK(e != OK, "children", "a start without a child reports success");
				}
				SIM_CHECK(e == OK || proc::children().size() == k, "refused", "a start that reports %d created a child", e);
			} break;
			case 2: {
				Error e = b.p->stop();
				audit(x, "a stop");
				SIM_CHECK(e == OK, "stop", "stopping reports %d", e);
				SIM_CHECK(b.child < 0 || proc::children()[b.child].reaped, "stop", "a stopped process was not collected");
				b.p->is_process_running();
				audit(x, "a query");
				probe(12, "processes stopped at a random moment");
			} break;
			case 3: {
				if (b.out || !b.started) {
					for (uint32_t i = 0, m = 1 + wchoose(4); i < m; i++) b.p->poll();
				} else {
					b.p->poll();
				}
				audit(x, "a poll");
			} break;
			case 4: {
				memdelete(b.p);
				audit(x, "a destructor");
				SIM_CHECK(b.child < 0 || proc::children()[b.child].reaped, "collected", "the process of a destroyed object was not collected");
				b.p = nullptr;
				b.child = -1;
				b.started = false;
			} break;
			default: {
				b.p->is_process_running();
				audit(x, "a query");
			} break;
		}
		if (wchoose(3) == 0) advance_ns(bits(ST_TIME) % 3000000000ULL);
	}
	for (int x = 0; x < no; x++) {
		if (o[x].p) {
			memdelete(o[x].p);
			audit(x, "a destructor");
		}
	}
	SIM_CHECK(proc::live_or_zombie() == 0, "collected", "%d children are left", proc::live_or_zombie());
	SIM_CHECK(fs::open_handles() == 0, "handles", "%d handles left: %s", fs::open_handles(), fs::open_desc().c_str());
}
} // namespace
SCENARIO(P01, blocking, 3) { p01_blocking(); }
SCENARIO(P01, polled, 3) { p01_polled(); }
SCENARIO(P01, detached, 2) { p01_detached(); }
SCENARIO(P01, watched, 1) { p01_watched(); }
SCENARIO(P01, memory, 1) { p01_memory(); }
SCENARIO(P02, histories, 1) { p02_histories(); }
