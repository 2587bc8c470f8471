// Simulator core: choices, scheduler, virtual time, checked heap, happens-before race detection,
// and the __tsan_* entry points the instrumented library calls.  Not instrumented itself.
#include "rt.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <unordered_map>

#define EXPORT extern "C" __attribute__((used, visibility("default")))

namespace sim {

Shared *SH = nullptr;
void (*zygote_setup)() = nullptr;
bool sleep_eintr = false;

const char *const fault_names[F_MAX] = { "malloc_refused", "spurious_cas_failure", "open_fails", "read_eio", "read_eintr", "short_read", "write_eio", "write_enospc", "write_eintr", "short_write",
	"close_fails", "flush_fails", "seek_fails", "stat_fails", "rename_fails", "unlink_fails", "mkdir_fails", "rmdir_fails", "opendir_fails", "readdir_fails", "chdir_fails", "getcwd_fails", "symlink_fails", "chmod_fails", "access_fails",
	"process_crash", "sleep_interrupted", "wall_clock_jump", "coarse_clock", "popen_fails", "fork_fails", "exec_fails", "waitpid_eintr", "pid_reused", "slow_child", "net_delay", "net_reset",
	"net_refused", "socket_fails", "bind_fails", "socket_call_fails", "dtype_unknown", "heap_address_reused", "thread_preempted", "extreme_random_word", "file_truncated" };

std::vector<Scenario> &scenarios() {
	static std::vector<Scenario> v;
	return v;
}
void register_scenario(const Scenario &s) { scenarios().push_back(s); }

// ------------------------------------------------------------------------------------------------
// regions
static const uintptr_t ARENA = 0x10000000000ULL, ARENA_SZ = 160ULL << 20;
static const uintptr_t HSH = 0x18000000000ULL; // heap shadow: 1 byte per 8
static const uintptr_t STK = 0x11000000000ULL, STK_ONE = 512 << 10, STK_SZ = STK_ONE * (MAXT + 1);
static const uintptr_t RSH_A = 0x20000000000ULL, RSH_S = 0x28000000000ULL, RSH_G = 0x2a000000000ULL;
extern "C" char __data_start, _end;

struct Cell {
	uint32_t clk[4][MAXT]; // plain write, plain read, atomic write, atomic read
	uint32_t pc[4][MAXT];
	uint8_t mask[4][MAXT];
};

struct VC {
	uint32_t c[MAXT];
	void join(const VC &o) {
		for (int i = 0; i < MAXT; i++) {
			if (o.c[i] > c[i]) {
				c[i] = o.c[i];
			}
		}
	}
};

enum State { FREE, RUNNABLE, BLOCKED, SLEEPING, FINISHED };

struct Thr {
	int id;
	State st;
	std::atomic<int> go;
	pthread_t real;
	uint64_t fake_id;
	VC vc, acq_pending, rel_fence;
	bool has_rel_fence;
	const void *chan;
	const char *why;
	uint64_t until;
	bool timed_out;
	bool detached;
	std::function<void()> *fn;
	int quiet;
	int prio;
	uint64_t consec;
	int cnt_spin;
	bool joined;
};

static __thread Thr *cur = nullptr;

struct Sync {
	VC vc;
	bool set;
};
struct Mtx {
	int owner = -1;
	int depth = 0;
	VC vc{};
};
struct RWL {
	int writer = -1;
	int readers[MAXT]{};
	int nreaders = 0;
	VC wvc{}, rvc{};
};

static struct Global {
	Thr th[MAXT];
	int nlive = 0; // not FINISHED/FREE
	bool mt = false; // ever more than one thread
	uint64_t fair = 300; // scheduling points a thread may pass in a row while others could run
	uint64_t yieldno = 0, accno = 0, next_plain = ~0ULL, max_yields = 400000, max_acc = 60000000;
	uint64_t switches = 0;
	uint64_t hash = 0xcbf29ce484222325ULL, shash = 1469598103934665603ULL;
	uint64_t now = 1000000000000ULL; // virtual raw clock
	int64_t wall = 1700000000LL * 1000000000LL;
	uint64_t coarse = 0;
	int64_t hold = 0;
	uint64_t stampno = 0;
	uint64_t next_fake = 0;
	bool fake_reuse = false;
	// choices
	bool replay = false, trace = false, active = false;
	uint64_t seed = 0;
	uint64_t prng[ST_MAX];
	uint32_t seq[ST_MAX];
	std::vector<std::pair<uint32_t, uint32_t>> rep[ST_MAX];
	size_t rcur[ST_MAX];
	// schedule policy
	int policy = 0; // 0 random, 1 pct
	uint32_t sw_den = 4;
	uint32_t plain_den = 0;
	std::vector<uint64_t> change;
	int lowprio = 0;
	// heap
	uint64_t oom_num = 0, oom_den = 0, oom_n = 0, oom_fired = 0;
	uint64_t garb = 0;
	bool reuse = false;
	uint64_t rd_n = 0;
	std::vector<uint32_t> rd_fix;
	uint64_t rd_base = 0, rd_seed = 0;
	uint64_t liberr = 0;
	uint64_t sysc = 0;
	int aborting = 0;
} G;

static std::unordered_map<uintptr_t, Sync> *syncs;
static std::unordered_map<uintptr_t, Mtx> *mtxs;
static std::unordered_map<uintptr_t, RWL> *rwls;
static std::unordered_map<const void *, VC> *chans;
static std::string *last_err;
static std::string *out_line;

bool in_sim() { return cur != nullptr; }
bool in_replay() { return G.replay; }
int self() { return cur ? cur->id : 0; }

// ------------------------------------------------------------------------------------------------
// reporting
static void trace_add(const char *s, size_t n) {
	Result &r = SH->r;
	if (r.trace_len + n + 2 < sizeof(r.trace)) {
		memcpy(r.trace + r.trace_len, s, n);
		r.trace_len += n;
		r.trace[r.trace_len++] = '\n';
		r.trace[r.trace_len] = 0;
	}
}
void hash_mix(uint64_t v) {
	G.hash = (G.hash ^ v) * 0x100000001b3ULL;
	G.hash ^= G.hash >> 29;
}
static void hash_str(const char *s) {
	uint64_t h = 1469598103934665603ULL;
	for (; *s; s++) {
		h = (h ^ (uint8_t)*s) * 0x100000001b3ULL;
	}
	hash_mix(h);
}
void ev(const char *fmt, ...) {
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	hash_str(b);
	hash_mix(cur ? cur->id : 99);
	SH->r.ops++;
	if (G.trace) {
		char c[600];
		int n = snprintf(c, sizeof(c), "[%llu t%d] %s", (unsigned long long)G.yieldno, self(), b);
		trace_add(c, std::min<size_t>(n, sizeof(c) - 1));
	}
}
int child_report_fd = -1; // set in a forked simulated child
void (*child_violation)(const char *, const char *) = nullptr;
bool child_raise(int sig);
static void finish(int status) {
	Result &r = SH->r;
	if (child_report_fd >= 0) {
		child_violation(status == 2 ? r.kind : "harness", r.msg);
	}
	r.hash = G.hash;
	r.sched_hash = G.shash;
	r.yields = G.yieldno;
	r.switches = G.switches;
	r.accesses = G.accno;
	r.sim_ns = G.now - 1000000000000ULL;
	r.syscalls = G.sysc;
	r.status = status;
	_exit(0);
}
void violation(const char *kind, const char *fmt, ...) {
	if (G.aborting++ == 0) {
		Result &r = SH->r;
		snprintf(r.kind, sizeof(r.kind), "%s", kind);
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(r.msg, sizeof(r.msg), fmt, ap);
		va_end(ap);
		hash_str(kind);
		finish(2);
	}
	for (;;) {
		pause();
	}
}
void harness_error(const char *fmt, ...) {
	if (G.aborting++ == 0) {
		Result &r = SH->r;
		snprintf(r.kind, sizeof(r.kind), "harness");
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(r.msg, sizeof(r.msg), fmt, ap);
		va_end(ap);
		finish(3);
	}
	for (;;) {
		pause();
	}
}
void end_run() {
	finish(1);
	for (;;) {
		pause();
	}
}
void fault_fired(FaultKind k) {
	SH->r.faults[k]++;
}
void probe(int idx, const char *name) {
	if (idx < 0 || idx >= NPROBE) {
		return;
	}
	SH->r.probes[idx]++;
	if (!SH->probe_name[idx][0]) {
		snprintf(SH->probe_name[idx], 64, "%s", name);
	}
}

// ------------------------------------------------------------------------------------------------
// choices
static inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t draw(int st) { return splitmix(G.prng[st]); }
static void record(int st, uint32_t seq, uint32_t v) {
	if (SH->r.nentries < MAX_ENTRIES) {
		Entry &e = SH->entries[SH->r.nentries++];
		e.stream = st;
		e.seq = seq;
		e.value = v;
	} else {
		SH->r.entries_lost++;
	}
}
static bool rep_lookup(int st, uint32_t seq, uint32_t *v) {
	auto &r = G.rep[st];
	size_t &c = G.rcur[st];
	while (c < r.size() && r[c].first < seq) {
		c++;
	}
	if (c < r.size() && r[c].first == seq) {
		*v = r[c].second;
		return true;
	}
	return false;
}
uint32_t choose(int st, uint32_t n) {
	if (n == 1 || !G.active) {
		return 0;
	}
	uint32_t s = G.seq[st]++;
	uint32_t v = 0;
	if (G.replay) {
		if (rep_lookup(st, s, &v)) {
			if (n) {
				v %= n;
			}
		} else {
			v = 0;
		}
	} else {
		uint64_t d = draw(st);
		v = n ? (uint32_t)((d >> 32) * (uint64_t)n >> 32) : (uint32_t)(d >> 32);
	}
	if (v) {
		record(st, s, v);
	}
	hash_mix(((uint64_t)st << 56) ^ ((uint64_t)s << 32) ^ v);
	return v;
}
bool flip(int st, uint32_t num, uint32_t den) {
	if (num == 0 || !G.active) {
		return false;
	}
	uint32_t s = G.seq[st]++;
	uint32_t v = 0;
	if (G.replay) {
		if (!rep_lookup(st, s, &v)) {
			v = 0;
		}
	} else {
		v = (uint32_t)((draw(st) >> 32) * (uint64_t)den >> 32) < num;
	}
	if (v) {
		record(st, s, 1);
		hash_mix(((uint64_t)st << 56) ^ ((uint64_t)s << 32) ^ 1);
	}
	return v != 0;
}
uint64_t bits(int st) {
	uint64_t a = choose(st, 0);
	return (a << 32) | choose(st, 0);
}
uint32_t wchoose(uint32_t n) { return choose(ST_W0 + self(), n); }
bool wflip(uint32_t num, uint32_t den) { return flip(ST_W0 + self(), num, den); }
int weighted(int st, std::initializer_list<int> w) {
	int tot = 0;
	for (int x : w) {
		tot += x;
	}
	int v = choose(st, tot);
	int i = 0;
	for (int x : w) {
		if (v < x) {
			return i;
		}
		v -= x;
		i++;
	}
	return 0;
}

// ------------------------------------------------------------------------------------------------
// scheduler
static void fwait(std::atomic<int> &f) {
	int e = errno; // the switch must leave it as the simulated call did
	while (f.load(std::memory_order_acquire) == 0) {
		syscall(SYS_futex, (int *)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	}
	f.store(0, std::memory_order_relaxed);
	errno = e;
}
static void fwake(std::atomic<int> &f) {
	int e = errno;
	f.store(1, std::memory_order_release);
	syscall(SYS_futex, (int *)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	errno = e;
}
static std::string thread_report() {
	std::string s;
	for (int i = 0; i < MAXT; i++) {
		Thr &t = G.th[i];
		if (t.st == BLOCKED || t.st == SLEEPING || t.st == RUNNABLE) {
			char b[160];
			snprintf(b, sizeof(b), " thread %d: %s %s;", i, t.st == BLOCKED ? "blocked in" : t.st == SLEEPING ? "sleeping in" : "runnable", t.st == RUNNABLE ? "" : t.why);
			s += b;
		}
	}
	return s;
}
static void arm_plain() {
	if (!G.mt || G.replay || G.plain_den == 0) {
		G.next_plain = G.mt && G.replay ? 0 : ~0ULL;
		if (G.replay) {
			size_t c = G.rcur[ST_PLAIN];
			auto &r = G.rep[ST_PLAIN];
			while (c < r.size() && r[c].first <= (uint32_t)G.accno) {
				c++;
			}
			G.rcur[ST_PLAIN] = c;
			G.next_plain = c < r.size() ? r[c].first : ~0ULL;
		}
		return;
	}
	G.next_plain = G.accno + 1 + (draw(ST_PLAIN) >> 32) * (2ULL * G.plain_den) / 0x100000000ULL;
}
static void do_switch(Thr *next) {
	Thr *me = cur;
	G.switches++;
	G.shash = (G.shash ^ (G.yieldno * 8 + next->id)) * 0x100000001b3ULL;
	hash_mix(0x5c000000ULL + next->id);
	me->consec = 0;
	next->consec = 0;
	if (G.trace) {
		char b[96];
		int n = snprintf(b, sizeof(b), "[%llu] switch t%d -> t%d", (unsigned long long)G.yieldno, me->id, next->id);
		trace_add(b, n);
	}
	fwake(next->go);
	if (me->st != FINISHED) {
		fwait(me->go);
	}
}
static int runnable(Thr **out, Thr *except) {
	int n = 0;
	for (int i = 0; i < MAXT; i++) {
		if (G.th[i].st == RUNNABLE && &G.th[i] != except) {
			out[n++] = &G.th[i];
		}
	}
	return n;
}
static void wake_sleepers() {
	for (int i = 0; i < MAXT; i++) {
		if (G.th[i].until && G.th[i].until <= G.now && (G.th[i].st == SLEEPING || G.th[i].st == BLOCKED)) {
			G.th[i].st = RUNNABLE;
			G.th[i].until = 0;
			G.th[i].timed_out = true;
		}
	}
}
// current thread cannot go on: pick another
static void schedule_away() {
	Thr *r[MAXT];
	for (;;) {
		wake_sleepers();
		int n = runnable(r, nullptr);
		if (n == 0) {
			uint64_t m = ~0ULL;
			for (int i = 0; i < MAXT; i++) {
				if (G.th[i].until && (G.th[i].st == SLEEPING || G.th[i].st == BLOCKED)) {
					m = std::min(m, G.th[i].until);
				}
			}
			if (m == ~0ULL) {
				violation("deadlock", "no thread can run:%s", thread_report().c_str());
			}
			G.now = m;
			continue;
		}
		Thr *nx;
		if (n == 1) {
			nx = r[0];
		} else {
			uint32_t s = G.seq[ST_BLOCK]++;
			uint32_t v = 0;
			if (G.replay) {
				if (!rep_lookup(ST_BLOCK, s, &v)) {
					v = 0;
				}
				v %= n;
			} else if (G.policy == 1) {
				for (int i = 1; i < n; i++) {
					if (r[i]->prio > r[v]->prio) {
						v = i;
					}
				}
			} else {
				v = (uint32_t)((draw(ST_BLOCK) >> 32) * (uint64_t)n >> 32);
			}
			if (v) {
				record(ST_BLOCK, s, v);
			}
			nx = r[v];
		}
		if (nx == cur) {
			return;
		}
		do_switch(nx);
		return;
	}
}
static void check_limits() {
	if (G.yieldno > G.max_yields) {
		violation("no-progress", "step limit of %llu scheduling points exceeded:%s", (unsigned long long)G.max_yields, thread_report().c_str());
	}
}
static void yield_point(bool from_plain, uint32_t plain_to = 0) {
	Thr *me = cur;
	if (!from_plain) {
		G.yieldno++;
		G.now += 100;
		check_limits();
	}
	if (G.trace && getenv("SIM_DEEP")) {
		char b[96];
		trace_add(b, snprintf(b, sizeof(b), "y%llu a%llu t%d %d %p", (unsigned long long)G.yieldno, (unsigned long long)G.accno, me->id, from_plain, __builtin_return_address(0)));
	}
	if (!G.mt || me->quiet) {
		return;
	}
	Thr *r[MAXT];
	wake_sleepers();
	int n = runnable(r, me);
	if (n == 0) {
		return;
	}
	Thr *nx = nullptr;
	if (!from_plain && ++me->consec > G.fair) { // fairness: the rule is the same in search and replay
		nx = r[0];
		for (int i = 0; i < n; i++) {
			if (r[i]->id > me->id) {
				nx = r[i];
				break;
			}
		}
		me->prio = --G.lowprio;
		do_switch(nx);
		return;
	}
	if (from_plain) {
		uint32_t v;
		if (G.replay) {
			v = plain_to;
		} else {
			v = r[(draw(ST_PLAIN) >> 32) * (uint64_t)n >> 32]->id + 1;
		}
		if (v >= 1 && v <= MAXT && G.th[v - 1].st == RUNNABLE && &G.th[v - 1] != me) {
			record(ST_PLAIN, (uint32_t)G.accno, v);
			fault_fired(F_PREEMPT);
			do_switch(&G.th[v - 1]);
		}
		return;
	}
	if (G.replay) {
		uint32_t v;
		if (rep_lookup(ST_SCHED, (uint32_t)G.yieldno, &v) && v >= 1 && v <= MAXT && G.th[v - 1].st == RUNNABLE && &G.th[v - 1] != me) {
			nx = &G.th[v - 1];
		}
	} else if (G.policy == 1) {
		if (std::binary_search(G.change.begin(), G.change.end(), G.yieldno)) {
			me->prio = --G.lowprio;
		}
		Thr *best = me;
		for (int i = 0; i < n; i++) {
			if (r[i]->prio > best->prio) {
				best = r[i];
			}
		}
		nx = best == me ? nullptr : best;
	} else {
		uint64_t d = draw(ST_SCHED);
		if ((uint32_t)(d >> 40) % G.sw_den == 0) {
			nx = r[(uint32_t)(d & 0xffffff) % n];
		}
	}
	if (nx) {
		record(ST_SCHED, (uint32_t)G.yieldno, nx->id + 1);
		fault_fired(F_PREEMPT);
		do_switch(nx);
	}
}
void yield(const char *) {
	if (cur) {
		yield_point(false);
	}
}
static void block_cur(const void *chan, uint64_t until, const char *why) {
	Thr *me = cur;
	me->chan = chan;
	me->why = why;
	me->until = until;
	me->timed_out = false;
	me->st = chan ? BLOCKED : SLEEPING;
	G.yieldno++;
	check_limits();
	schedule_away();
	me->chan = nullptr;
	me->until = 0;
}
void block_on(const void *chan, const char *why) { block_cur(chan, 0, why); }
bool block_on_until(const void *chan, uint64_t until, const char *why) {
	block_cur(chan, until, why);
	return !cur->timed_out;
}
void block_sleep(uint64_t until) {
	if (until <= G.now) {
		yield_point(false);
		return;
	}
	if (!G.mt) {
		G.now = until;
		G.yieldno++;
		return;
	}
	block_cur(nullptr, until, "sleep");
}
void wake_chan(const void *chan) {
	for (int i = 0; i < MAXT; i++) {
		if (G.th[i].st == BLOCKED && G.th[i].chan == chan) {
			G.th[i].st = RUNNABLE;
			G.th[i].until = 0;
		}
	}
}
static inline void tick(Thr *t) { t->vc.c[t->id]++; }
void acquire_from(const void *chan) {
	auto it = chans->find(chan);
	if (cur && it != chans->end()) {
		cur->vc.join(it->second);
	}
}
void release_to(const void *chan) {
	if (cur) {
		(*chans)[chan].join(cur->vc);
		tick(cur);
	}
}

static void thread_done();
static void *thread_main(void *p) {
	Thr *t = (Thr *)p;
	fwait(t->go);
	cur = t;
	(*t->fn)();
	thread_done();
	return nullptr;
}
static Thr *new_thread(std::function<void()> *fn, Thr *creator) {
	int slot = -1;
	for (int i = 0; i < MAXT; i++) {
		if (G.th[i].st == FREE || (G.th[i].st == FINISHED && (G.th[i].joined || G.th[i].detached))) {
			slot = i;
			break;
		}
	}
	if (slot < 0) {
		harness_error("too many simulated threads");
	}
	Thr *t = &G.th[slot];
	uint32_t oldclk = t->vc.c[slot];
	if (t->st == FINISHED) {
		pthread_join(t->real, nullptr);
		delete t->fn;
	}
	t->id = slot;
	t->go.store(0);
	t->vc = creator ? creator->vc : VC{};
	t->vc.c[slot] = oldclk + 1;
	t->acq_pending = VC{};
	t->has_rel_fence = false;
	t->chan = nullptr;
	t->until = 0;
	t->detached = t->joined = false;
	t->fn = fn;
	t->quiet = 0;
	t->consec = 0;
	t->fake_id = G.fake_reuse ? 0x1000 + 0x100 * slot : 0x1000 + 0x100 * G.next_fake;
	G.next_fake++;
	t->prio = G.active && !G.replay ? (int)(draw(ST_SCHED) >> 40) : 0;
	if (creator) {
		tick(creator);
		G.mt = true;
	}
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, (void *)(STK + slot * STK_ONE + 4096), STK_ONE - 4096);
	if (pthread_create(&t->real, &a, thread_main, t)) {
		harness_error("pthread_create failed");
	}
	pthread_attr_destroy(&a);
	t->st = RUNNABLE;
	G.nlive++;
	if (creator) {
		arm_plain();
	}
	return t;
}
static void thread_done() {
	Thr *t = cur;
	hash_mix(0xd0e0 + t->id);
	t->st = FINISHED;
	G.nlive--;
	wake_chan(&t->vc); // joiners wait on this
	schedule_away(); // signals another thread; we return and the real thread ends
	cur = nullptr;
}
int spawn(std::function<void()> fn) {
	Thr *t = new_thread(new std::function<void()>(std::move(fn)), cur);
	yield_point(false);
	return t->id;
}
static void join_thr(Thr *t) {
	yield_point(false);
	while (t->st != FINISHED) {
		block_cur(&t->vc, 0, "join");
	}
	cur->vc.join(t->vc);
	t->joined = true;
}
void join(int tid) { join_thr(&G.th[tid]); }
int threads_alive() { return G.nlive; }
uint64_t stamp() { return ++G.stampno; }
Quiet::Quiet() {
	if (cur) {
		cur->quiet++;
	}
}
Quiet::~Quiet() {
	if (cur) {
		cur->quiet--;
	}
}
void set_step_limit(uint64_t y, uint64_t a) {
	G.max_yields = y;
	G.max_acc = a;
}
void set_fairness(uint64_t points) {
	G.fair = points;
}
void syscall_point(const char *name) {
	G.sysc++;
	hash_str(name);
	if (cur) {
		G.now += 1000;
		yield_point(false);
	}
}
bool fault(FaultKind k, uint32_t per1000) {
	if (!per1000 || !cur) {
		return false;
	}
	if (flip(ST_FAULT, per1000, 1000)) {
		fault_fired(k);
		if (G.trace) {
			char b[96];
			int n = snprintf(b, sizeof(b), "[%llu t%d] FAULT %s", (unsigned long long)G.yieldno, self(), fault_names[k]);
			trace_add(b, n);
		}
		return true;
	}
	return false;
}
void reset_locks() {
	mtxs->clear();
	rwls->clear();
}

// ------------------------------------------------------------------------------------------------
// heap
struct Blk {
	uint64_t size;
	uint64_t serial;
	uint32_t kind; // 1 malloc, 2 new
	uint32_t freed;
	uint64_t capn; // usable bytes reserved
};
// header lies in the red zone in front of the block
static const size_t HDR = 48; // 32 for Blk, 16 spare red zone
static uintptr_t hp = 0;
static uint64_t hserial = 0, hlive = 0, hbytes = 0, hallocs = 0;
static void *hfree[64];
static std::vector<std::pair<void *, uint64_t>> *quarantine;

static inline uint8_t *hsh(uintptr_t a) { return (uint8_t *)(HSH + ((a - ARENA) >> 3)); }
static void *mapfix(uintptr_t at, size_t n) {
	void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)at) {
		fprintf(stderr, "sim: cannot map region\n");
		_exit(3);
	}
	return p;
}
static void heap_init() {
	if (hp) {
		return;
	}
	mapfix(ARENA, ARENA_SZ);
	mapfix(HSH, ARENA_SZ / 8);
	mapfix(STK, STK_SZ);
	for (int i = 0; i <= MAXT; i++) {
		mprotect((void *)(STK + i * STK_ONE), 4096, PROT_NONE);
	}
	mapfix(RSH_A, ARENA_SZ / 8 * sizeof(Cell));
	mapfix(RSH_S, STK_SZ / 8 * sizeof(Cell));
	size_t g = (uintptr_t)&_end - (uintptr_t)&__data_start + 64;
	mapfix(RSH_G, (g / 8 + 2) * sizeof(Cell) / 4096 * 4096 + 4096);
	hp = ARENA + 64;
}
static inline Cell *cell(uintptr_t a) {
	if (a - ARENA < ARENA_SZ) {
		return (Cell *)RSH_A + ((a - ARENA) >> 3);
	}
	if (a - STK < STK_SZ) {
		return (Cell *)RSH_S + ((a - STK) >> 3);
	}
	if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) {
		return (Cell *)RSH_G + ((a >> 3) - ((uintptr_t)&__data_start >> 3));
	}
	return nullptr;
}
static int sclass(uint64_t n) { // size class of capacity
	int c = 0;
	uint64_t s = 16;
	while (s < n) {
		s <<= 1;
		c++;
	}
	return c;
}
static void race_range(uintptr_t a, size_t n, int k, uintptr_t pc);

static void *halloc(size_t n, int kind) {
	heap_init();
	hallocs++;
	bool reuse = G.reuse;
	int c = sclass(n ? n : 1);
	uint64_t capn = reuse ? (16ULL << c) : ((n + 15) & ~15ULL);
	uintptr_t p = 0;
	if (reuse && hfree[c]) {
		p = (uintptr_t)hfree[c];
		Blk *b = (Blk *)(p - HDR);
		memcpy(&hfree[c], (void *)p, sizeof(void *));
		capn = b->capn;
		fault_fired(F_HEAP_REUSE);
	} else {
		p = hp + HDR;
		hp = p + capn + 16;
		if (hp > ARENA + ARENA_SZ - 4096) {
			harness_error("simulated heap exhausted");
		}
	}
	Blk *b = (Blk *)(p - HDR);
	b->size = n;
	b->capn = capn;
	b->serial = ++hserial;
	b->kind = kind;
	b->freed = 0;
	// shadow
	uint8_t *s = hsh(p);
	size_t full = n / 8;
	memset(s, 8, full);
	if (n & 7) {
		s[full++] = n & 7;
	}
	memset(s + full, 0, capn / 8 - full);
	if (G.mt) {
		for (size_t i = 0; i < (n + 7) / 8; i++) {
			memset((void *)cell(p + i * 8), 0, sizeof(Cell));
		}
	}
	if (G.garb) {
		uint64_t x = G.garb * 0x9e3779b97f4a7c15ULL + b->serial;
		uint64_t v = splitmix(x);
		uint8_t *q = (uint8_t *)p;
		size_t i = 0;
		for (; i + 8 <= n; i += 8) {
			memcpy(q + i, &v, 8);
			v = v * 6364136223846793005ULL + 1442695040888963407ULL;
		}
		for (; i < n; i++) {
			q[i] = (uint8_t)(v >> (8 * (i & 7)));
		}
	} else if (reuse) {
		memset((void *)p, 0, n);
	}
	hlive++;
	hbytes += n;
	return (void *)p;
}
static void range_mtx_clear(uintptr_t a, size_t n) {
	if (!mtxs) {
		return;
	}
	if (mtxs->size() + rwls->size() + syncs->size() == 0) {
		return;
	}
	for (auto it = mtxs->begin(); it != mtxs->end();) {
		if (it->first - a < n) {
			if (it->second.owner >= 0 && G.active) {
				violation("locked-mutex-destroyed", "memory of a mutex held by thread %d was released", it->second.owner);
			}
			it = mtxs->erase(it);
		} else {
			++it;
		}
	}
	for (auto it = rwls->begin(); it != rwls->end();) {
		if (it->first - a < n) {
			it = rwls->erase(it);
		} else {
			++it;
		}
	}
	for (auto it = syncs->begin(); it != syncs->end();) {
		if (it->first - a < n) {
			it = syncs->erase(it);
		} else {
			++it;
		}
	}
}
static void hfree_block(void *ptr, int kind, uintptr_t pc) {
	if (!ptr) {
		return;
	}
	uintptr_t p = (uintptr_t)ptr;
	if (p - ARENA >= ARENA_SZ) {
		if (!G.active) {
			return;
		}
		violation("bad-free", "free of an address that is not a heap block");
	}
	Blk *b = (Blk *)(p - HDR);
	bool ok = (p & 15) == 0 && b->serial && b->serial <= hserial && (b->freed == 0 || b->freed == 0xf7eedu) && (b->kind == 1 || b->kind == 2);
	if (!ok) {
		violation("bad-free", "free of a pointer that is not the start of a heap block (pc 0x%lx)", (unsigned long)pc);
	}
	if (b->freed) {
		violation("double-free", "block of %llu bytes released twice (second release at pc 0x%lx)", (unsigned long long)b->size, (unsigned long)pc);
	}
	if (b->kind != (uint32_t)kind) {
		violation("mismatched-free", "block allocated with %s released with %s (pc 0x%lx)", b->kind == 1 ? "malloc" : "new", kind == 1 ? "free" : "delete", (unsigned long)pc);
	}
	if (cur && G.mt && !cur->quiet) {
		race_range(p, b->size, 0, pc);
	}
	if (b->size >= 4) {
		range_mtx_clear(p, b->size);
	}
	b->freed = 0xf7eedu;
	memset(hsh(p), 0xfd, (b->size + 7) / 8);
	hlive--;
	hbytes -= b->size;
	if (G.reuse) {
		// small quarantine so that both immediate and delayed reuse occur
		quarantine->push_back({ ptr, 0 });
		size_t lim = G.active ? (G.garb & 3 ? 0 : 16) : 0;
		while (quarantine->size() > lim) {
			void *q = quarantine->front().first;
			quarantine->erase(quarantine->begin());
			Blk *qb = (Blk *)((uintptr_t)q - HDR);
			int c = sclass(qb->capn);
			if ((16ULL << c) == qb->capn) {
				memcpy(q, &hfree[c], sizeof(void *));
				hfree[c] = q;
			}
		}
	}
}
HeapStats heap() { return { hlive, hbytes, hallocs, G.oom_fired }; }
bool heap_live(const void *p) {
	uintptr_t a = (uintptr_t)p;
	return a - ARENA < ARENA_SZ && *hsh(a) != 0 && *hsh(a) != 0xfd;
}
void set_garbage(uint64_t s) { G.garb = s; }
void set_heap_reuse(bool on) { G.reuse = on; }
uint64_t heap_mark() { return hserial; }
uint64_t heap_live_since(uint64_t mark, uint64_t *bytes) {
	// linear walk is impossible with reuse (blocks keep their place): walk the arena
	uint64_t n = 0, by = 0;
	uintptr_t a = ARENA + 64;
	while (a < hp) {
		Blk *b = (Blk *)a;
		if (!b->serial) {
			break;
		}
		if (!b->freed && b->serial > mark && b->kind == 1) {
			n++;
			by += b->size;
		}
		a += HDR + b->capn + 16;
	}
	if (bytes) {
		*bytes = by;
	}
	return n;
}
void oom_arm(uint32_t num, uint32_t den) {
	G.oom_num = num;
	G.oom_den = den;
}
void oom_nth(uint64_t n) { G.oom_n = n; }
static bool oom_now() {
	if (!cur || cur->quiet) {
		return false;
	}
	if (G.oom_n) {
		if (--G.oom_n == 0) {
			G.oom_fired++;
			fault_fired(F_OOM);
			hash_mix(0x00e);
			return true;
		}
		return false;
	}
	if (G.oom_num && flip(ST_OOM, G.oom_num, G.oom_den)) {
		G.oom_fired++;
		fault_fired(F_OOM);
		if (G.trace) {
			trace_add("FAULT malloc_refused", 20);
		}
		return true;
	}
	return false;
}

// ------------------------------------------------------------------------------------------------
// checked memory accesses
static const char *const acc_name[4] = { "write", "read", "atomic write", "atomic read" };

[[noreturn]] static void report_bad(uintptr_t a, size_t n, bool w, uintptr_t pc, uint8_t s) {
	if (s == 0xfd) {
		violation("use-after-free", "%s of %zu bytes in a released block (pc 0x%lx)", w ? "write" : "read", n, (unsigned long)pc);
	}
	violation("out-of-bounds", "%s of %zu bytes outside any live heap block (pc 0x%lx)", w ? "write" : "read", n, (unsigned long)pc);
}
static inline void heap_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	if (a - ARENA >= ARENA_SZ) {
		if (__builtin_expect(a < 65536, 0)) {
			violation("null-dereference", "%s of %zu bytes through a null pointer (address 0x%lx, pc 0x%lx)", w ? "write" : "read", n, (unsigned long)a, (unsigned long)pc);
		}
		return;
	}
	uintptr_t e = a + n;
	for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
		uint8_t s = *hsh(g);
		uintptr_t top = std::min<uintptr_t>(e, g + 8) - g; // bytes needed from this granule
		if (s < top || s > 8) {
			report_bad(a, n, w, pc, s);
		}
	}
}
static void race_report(int k, int k2, int u, uintptr_t a, uintptr_t pc, uint32_t pc2) {
	violation("data-race", "unsynchronised %s by thread %d (pc 0x%lx) and %s by thread %d (pc 0x%x)", acc_name[k], cur->id, (unsigned long)pc, acc_name[k2], u, pc2);
}
static inline void race_granule(uintptr_t g, uint8_t m, int k, uintptr_t pc) {
	Cell *c = cell(g);
	if (!c) {
		return;
	}
	Thr *t = cur;
	int me = t->id;
	for (int u = 0; u < MAXT; u++) {
		if (u == me) {
			continue;
		}
		uint32_t v = t->vc.c[u];
		// conflicts: write vs anything; atomic vs atomic never
		if (c->clk[0][u] > v && (c->mask[0][u] & m)) {
			race_report(k, 0, u, g, pc, c->pc[0][u]);
		}
		if (k == 0 || k == 2) {
			if (c->clk[1][u] > v && (c->mask[1][u] & m)) {
				race_report(k, 1, u, g, pc, c->pc[1][u]);
			}
		}
		if (k == 0 || k == 1) {
			if (c->clk[2][u] > v && (c->mask[2][u] & m)) {
				race_report(k, 2, u, g, pc, c->pc[2][u]);
			}
		}
		if (k == 0) {
			if (c->clk[3][u] > v && (c->mask[3][u] & m)) {
				race_report(k, 3, u, g, pc, c->pc[3][u]);
			}
		}
	}
	uint32_t mc = t->vc.c[me];
	if (c->clk[k][me] != mc) {
		c->clk[k][me] = mc;
		c->mask[k][me] = m;
	} else {
		c->mask[k][me] |= m;
	}
	c->pc[k][me] = (uint32_t)pc;
}
static void race_range(uintptr_t a, size_t n, int k, uintptr_t pc) {
	uintptr_t e = a + n;
	for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
		uint8_t m = 0xff;
		if (g < a) {
			m &= 0xff << (a - g);
		}
		if (g + 8 > e) {
			m &= 0xff >> (g + 8 - e);
		}
		race_granule(g, m, k, pc);
	}
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	Thr *t = cur;
	if (__builtin_expect(!t, 0)) {
		return;
	}
	if (__builtin_expect(++G.accno > G.max_acc, 0)) {
		violation("no-progress", "access limit exceeded: the operation does not end (pc 0x%lx)", (unsigned long)pc);
	}
	heap_check(a, n, w, pc);
	if (G.mt && !t->quiet) {
		race_range(a, n, w ? 0 : 1, pc);
		if (__builtin_expect(G.accno >= G.next_plain, 0)) {
			bool hit = !G.replay || G.accno == G.next_plain;
			uint32_t v = 0;
			if (hit && G.replay) {
				v = G.rep[ST_PLAIN][G.rcur[ST_PLAIN]].second;
			}
			arm_plain(); // before switching: other threads go on counting accesses
			if (hit) {
				yield_point(true, v);
			}
		}
	}
}
void range_access(const void *p, size_t n, bool w, const void *pc) {
	if (n && cur) {
		access((uintptr_t)p, n, w, (uintptr_t)pc);
	}
}

} // namespace sim
using namespace sim;

#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(N)                                                                       \
	EXPORT void __tsan_read##N(void *a) { access((uintptr_t)a, N, false, PC); }       \
	EXPORT void __tsan_write##N(void *a) { access((uintptr_t)a, N, true, PC); }       \
	EXPORT void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false, PC); } \
	EXPORT void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true, PC); } \
	EXPORT void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false, PC); } \
	EXPORT void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true, PC); } \
	EXPORT void __tsan_read##N##_pc(void *a, void *) { access((uintptr_t)a, N, false, PC); } \
	EXPORT void __tsan_write##N##_pc(void *a, void *) { access((uintptr_t)a, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, PC); }
EXPORT void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true, PC); }
EXPORT void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

// ---- atomics: executed one at a time; memory order only drives the happens-before clocks ----
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(uintptr_t a, size_t n, bool w, uintptr_t pc) {
	heap_check(a, n, w, pc);
	yield_point(false);
	heap_check(a, n, w, pc);
	if (G.mt && !cur->quiet) {
		race_range(a, n, w ? 2 : 3, pc);
	}
}
static inline void at_load_hb(uintptr_t a, int mo) {
	if (!G.mt) {
		return;
	}
	auto it = syncs->find(a);
	if (it == syncs->end()) {
		return;
	}
	if (acq(mo)) {
		cur->vc.join(it->second.vc);
	} else {
		cur->acq_pending.join(it->second.vc);
	}
}
static inline void at_store_hb(uintptr_t a, int mo, bool rmw) {
	// single-threaded releases matter too: another thread may be created later, but creation orders them
	if (!G.mt) {
		return;
	}
	if (rel(mo)) {
		Sync &s = (*syncs)[a];
		if (!rmw) {
			s.vc = cur->vc;
		} else {
			s.vc.join(cur->vc);
		}
		tick(cur);
	} else if (cur->has_rel_fence) {
		Sync &s = (*syncs)[a];
		if (!rmw) {
			s.vc = cur->rel_fence;
		} else {
			s.vc.join(cur->rel_fence);
		}
	} else if (!rmw) {
		syncs->erase(a);
	}
}
static inline void at_hash(uint64_t v) {
	hash_mix(v * 8 + cur->id);
}

#define ATOMICS(BITS, T)                                                                                            \
	EXPORT T __tsan_atomic##BITS##_load(const volatile T *a, int mo) {                                                \
		if (!cur)                                                                                                       \
			return *a;                                                                                                    \
		at_pre((uintptr_t)a, sizeof(T), false, PC);                                                                     \
		at_load_hb((uintptr_t)a, mo);                                                                                   \
		return *a;                                                                                                      \
	}                                                                                                                 \
	EXPORT void __tsan_atomic##BITS##_store(volatile T *a, T v, int mo) {                                             \
		if (!cur) {                                                                                                     \
			*a = v;                                                                                                       \
			return;                                                                                                       \
		}                                                                                                               \
		at_pre((uintptr_t)a, sizeof(T), true, PC);                                                                      \
		at_store_hb((uintptr_t)a, mo, false);                                                                           \
		*a = v;                                                                                                         \
	}                                                                                                                 \
	RMW(BITS, T, exchange, v)                                                                                         \
	RMW(BITS, T, fetch_add, (T)(o + v))                                                                               \
	RMW(BITS, T, fetch_sub, (T)(o - v))                                                                               \
	RMW(BITS, T, fetch_and, (T)(o & v))                                                                               \
	RMW(BITS, T, fetch_or, (T)(o | v))                                                                                \
	RMW(BITS, T, fetch_xor, (T)(o ^ v))                                                                               \
	RMW(BITS, T, fetch_nand, (T) ~(o & v))                                                                            \
	static int cas##BITS(volatile T *a, T *c, T v, int mo, int fmo, bool weak, uintptr_t pc) {                        \
		if (!cur) {                                                                                                     \
			if (*a == *c) {                                                                                               \
				*a = v;                                                                                                     \
				return 1;                                                                                                   \
			}                                                                                                             \
			*c = *a;                                                                                                      \
			return 0;                                                                                                     \
		}                                                                                                               \
		at_pre((uintptr_t)a, sizeof(T), true, pc);                                                                      \
		T o = *a;                                                                                                       \
		bool ok = o == *c;                                                                                              \
		if (ok && weak && G.mt && !cur->quiet && flip(ST_CASW, 1, 40)) {                                                \
			fault_fired(F_SPURIOUS_CAS);                                                                                  \
			ok = false;                                                                                                   \
		}                                                                                                               \
		if (!ok) {                                                                                                      \
			at_load_hb((uintptr_t)a, fmo);                                                                                \
			*c = o;                                                                                                       \
			return 0;                                                                                                     \
		}                                                                                                               \
		at_load_hb((uintptr_t)a, mo);                                                                                   \
		at_store_hb((uintptr_t)a, mo, true);                                                                            \
		*a = v;                                                                                                         \
		return 1;                                                                                                       \
	}                                                                                                                 \
	EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {             \
		return cas##BITS(a, c, v, mo, fmo, false, PC);                                                                  \
	}                                                                                                                 \
	EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {               \
		return cas##BITS(a, c, v, mo, fmo, true, PC);                                                                   \
	}                                                                                                                 \
	EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                   \
		cas##BITS(a, &c, v, mo, fmo, false, PC);                                                                        \
		return c;                                                                                                       \
	}
#define RMW(BITS, T, NAME, EXPR)                                            \
	EXPORT T __tsan_atomic##BITS##_##NAME(volatile T *a, T v, int mo) {       \
		if (!cur) {                                                             \
			T o = *a;                                                             \
			*a = EXPR;                                                            \
			return o;                                                             \
		}                                                                       \
		at_pre((uintptr_t)a, sizeof(T), true, PC);                              \
		at_load_hb((uintptr_t)a, mo);                                           \
		at_store_hb((uintptr_t)a, mo, true);                                    \
		T o = *a;                                                               \
		*a = EXPR;                                                              \
		return o;                                                               \
	}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) {
	if (!cur || !G.mt) {
		return;
	}
	yield_point(false);
	if (acq(mo)) {
		cur->vc.join(cur->acq_pending);
	}
	if (rel(mo)) {
		cur->rel_fence = cur->vc;
		cur->has_rel_fence = true;
		tick(cur);
	}
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------
// memory functions
EXPORT void *sim_malloc(size_t n);
EXPORT char *sim_strdup(const char *t) {
	size_t n = __builtin_strlen(t) + 1;
	char *p = (char *)sim_malloc(n);
	if (p) {
		__builtin_memcpy(p, t, n);
	}
	return p;
}
EXPORT void *sim_malloc(size_t n) {
	if (cur && oom_now()) {
		errno = ENOMEM;
		return nullptr;
	}
	if (n > (64u << 20)) {
		errno = ENOMEM;
		return nullptr;
	}
	return halloc(n, 1);
}
EXPORT void sim_free(void *p) { hfree_block(p, 1, PC); }
EXPORT void *sim_calloc(size_t a, size_t b) {
	void *p = sim_malloc(a * b);
	if (p) {
		memset(p, 0, a * b);
	}
	return p;
}
EXPORT void *sim_realloc(void *p, size_t n) {
	if (!p) {
		return sim_malloc(n);
	}
	if (cur && oom_now()) {
		errno = ENOMEM;
		return nullptr;
	}
	if (n > (64u << 20)) {
		errno = ENOMEM;
		return nullptr;
	}
	uintptr_t a = (uintptr_t)p;
	if (a - ARENA >= ARENA_SZ || (a & 15)) {
		violation("bad-free", "realloc of an address that is not a heap block");
	}
	Blk *b = (Blk *)(a - HDR);
	if (b->freed) {
		violation("use-after-free", "realloc of a released block (pc 0x%lx)", (unsigned long)PC);
	}
	if (b->kind != 1 || !b->serial || b->serial > hserial) {
		violation("bad-free", "realloc of a pointer that is not a malloc block (pc 0x%lx)", (unsigned long)PC);
	}
	void *q = halloc(n, 1);
	if (cur && G.mt && !cur->quiet) {
		race_range(a, std::min<size_t>(b->size, n), 1, PC);
	}
	memcpy(q, p, std::min<size_t>(b->size, n));
	hfree_block(p, 1, PC);
	return q;
}
EXPORT void *sim_opnew(size_t n) { return halloc(n, 2); }
EXPORT void *sim_opnew_nt(size_t n, const void *) { return halloc(n, 2); }
// blocks cross the border in both directions: the simulator and libstdc++.so allocate from the real heap
static void opdel(void *p, uintptr_t pc) {
	if ((uintptr_t)p - ARENA < ARENA_SZ) {
		hfree_block(p, 2, pc);
	} else {
		free(p);
	}
}
EXPORT void sim_opdel(void *p) { opdel(p, PC); }
EXPORT void sim_opdel_sz(void *p, size_t) { opdel(p, PC); }
void operator delete(void *p) noexcept { opdel(p, PC); }
void operator delete(void *p, size_t) noexcept { opdel(p, PC); }
void operator delete[](void *p) noexcept { opdel(p, PC); }
void operator delete[](void *p, size_t) noexcept { opdel(p, PC); }
EXPORT int sim_posix_memalign(void **o, size_t, size_t n) {
	*o = sim_malloc(n);
	return *o ? 0 : ENOMEM;
}
EXPORT void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }

EXPORT void *sim_memcpy(void *d, const void *s, size_t n) {
	if (cur && n) {
		access((uintptr_t)s, n, false, PC);
		access((uintptr_t)d, n, true, PC);
		uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
		if (a != b && (a < b ? b - a : a - b) < n) {
			violation("overlapping-copy", "memcpy of overlapping ranges (pc 0x%lx)", (unsigned long)PC);
		}
	}
	return memcpy(d, s, n);
}
EXPORT void *sim_memmove(void *d, const void *s, size_t n) {
	if (cur && n) {
		access((uintptr_t)s, n, false, PC);
		access((uintptr_t)d, n, true, PC);
	}
	return memmove(d, s, n);
}
EXPORT void *sim_memset(void *d, int c, size_t n) {
	if (cur && n) {
		access((uintptr_t)d, n, true, PC);
	}
	return memset(d, c, n);
}
EXPORT int sim_memcmp(const void *a, const void *b, size_t n) {
	if (cur && n) {
		access((uintptr_t)a, n, false, PC);
		access((uintptr_t)b, n, false, PC);
	}
	return memcmp(a, b, n);
}
static size_t checked_len(const char *s, uintptr_t pc) {
	uintptr_t a = (uintptr_t)s;
	if (a - ARENA < ARENA_SZ) {
		size_t n = 0;
		for (;; n++) {
			heap_check(a + n, 1, false, pc);
			if (!s[n]) {
				return n;
			}
		}
	}
	return strlen(s);
}
EXPORT size_t sim_strlen(const char *s) {
	if (cur) {
		size_t n = checked_len(s, PC);
		access((uintptr_t)s, n + 1, false, PC);
		return n;
	}
	return strlen(s);
}

// ------------------------------------------------------------------------------------------------
// threads and locks
EXPORT unsigned long sim_pthread_self() { return cur ? cur->fake_id : 0x1000; }
EXPORT int sim_sched_yield() {
	if (cur) {
		yield_point(false);
	}
	return 0;
}

struct StdState {
	virtual ~StdState() {}
	virtual void _M_run() = 0;
};
static Thr *by_fake(uint64_t id) {
	for (int i = 0; i < MAXT; i++) {
		if (G.th[i].st != FREE && G.th[i].fake_id == id && !G.th[i].joined && !G.th[i].detached) {
			return &G.th[i];
		}
	}
	return nullptr;
}
EXPORT void sim_thread_start(unsigned long *thr, void **st, void (*)()) {
	if (!cur) {
		harness_error("thread started outside a run");
	}
	StdState *s = (StdState *)*st;
	*st = nullptr;
	Thr *t = new_thread(new std::function<void()>([s]() { s->_M_run(); delete s; }), cur);
	access((uintptr_t)thr, 8, true, PC);
	*thr = t->fake_id;
	yield_point(false);
}
EXPORT void sim_thread_join(unsigned long *thr) {
	access((uintptr_t)thr, 8, false, PC);
	Thr *t = by_fake(*thr);
	if (*thr == 0 || !t) {
		violation("join-not-joinable", "join of a thread handle that is not joinable");
	}
	if (t == cur) {
		violation("join-self", "a thread joins itself");
	}
	join_thr(t);
	access((uintptr_t)thr, 8, true, PC);
	*thr = 0;
}
EXPORT void sim_thread_detach(unsigned long *thr) {
	access((uintptr_t)thr, 8, false, PC);
	Thr *t = by_fake(*thr);
	if (*thr == 0 || !t) {
		violation("detach-not-joinable", "detach of a thread handle that is not joinable");
	}
	t->detached = true;
	*thr = 0;
	yield_point(false);
}
EXPORT unsigned sim_hw_concurrency() { return 4; }
EXPORT void sim_terminate() { violation("terminate", "std::terminate called (for example a running thread's handle destroyed)"); }
EXPORT void sim_abort() { violation("abort", "abort called (pc 0x%lx)", (unsigned long)PC); }
EXPORT int sim_raise(int s) {
	if (child_raise(s)) {
		return 0;
	}
	violation("trap", "the library raised signal %d (pc 0x%lx)", s, (unsigned long)PC);
}
EXPORT void sim_throw_system_error(int e) { violation("system-error", "std::system_error(%d) thrown", e); }
EXPORT int sim_pthread_create(unsigned long *out, const void *, void *(*f)(void *), void *arg) {
	Thr *t = new_thread(new std::function<void()>([f, arg]() { f(arg); }), cur);
	*out = t->fake_id;
	yield_point(false);
	return 0;
}
EXPORT int sim_pthread_join(unsigned long id, void **) {
	Thr *t = by_fake(id);
	if (!t) {
		return ESRCH;
	}
	join_thr(t);
	return 0;
}
EXPORT int sim_pthread_detach(unsigned long id) {
	Thr *t = by_fake(id);
	if (!t) {
		return ESRCH;
	}
	t->detached = true;
	return 0;
}

static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int mutex_lock(pthread_mutex_t *m, bool try_, uintptr_t pc) {
	if (!cur) {
		return 0;
	}
	heap_check((uintptr_t)m, sizeof(*m), true, pc);
	yield_point(false);
	heap_check((uintptr_t)m, sizeof(*m), true, pc);
	for (;;) {
		Mtx &x = (*mtxs)[(uintptr_t)m];
		if (x.owner < 0) {
			x.owner = cur->id;
			x.depth = 1;
			cur->vc.join(x.vc);
			hash_mix(0x10c + cur->id);
			return 0;
		}
		if (x.owner == cur->id) {
			if (recursive(m)) {
				x.depth++;
				return 0;
			}
			if (try_) {
				return EBUSY;
			}
			violation("self-deadlock", "a thread locks a non-recursive mutex it already holds (pc 0x%lx)", (unsigned long)pc);
		}
		if (try_) {
			return EBUSY;
		}
		block_cur(m, 0, "mutex lock");
	}
}
EXPORT int sim_pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false, PC); }
EXPORT int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, true, PC); }
EXPORT int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!cur) {
		return 0;
	}
	heap_check((uintptr_t)m, sizeof(*m), true, PC);
	auto it = mtxs->find((uintptr_t)m);
	if (it == mtxs->end() || it->second.owner != cur->id) {
		violation("unlock-not-held", "unlock of a mutex the thread does not hold (pc 0x%lx)", (unsigned long)PC);
	}
	Mtx &x = it->second;
	if (--x.depth == 0) {
		x.owner = -1;
		x.vc = cur->vc;
		tick(cur);
		wake_chan(m);
		yield_point(false);
	}
	return 0;
}
EXPORT int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
	int k = PTHREAD_MUTEX_NORMAL;
	if (a) {
		pthread_mutexattr_gettype(a, &k);
	}
	memset(m, 0, sizeof(*m));
	m->__data.__kind = k;
	if (mtxs) {
		mtxs->erase((uintptr_t)m);
	}
	return 0;
}
EXPORT int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
	if (cur) {
		auto it = mtxs->find((uintptr_t)m);
		if (it != mtxs->end()) {
			if (it->second.owner >= 0) {
				violation("locked-mutex-destroyed", "a held mutex is destroyed");
			}
			mtxs->erase(it);
		}
	}
	return 0;
}
static int rw_lock(pthread_rwlock_t *m, bool w, bool try_, uintptr_t pc) {
	if (!cur) {
		return 0;
	}
	heap_check((uintptr_t)m, sizeof(*m), true, pc);
	yield_point(false);
	heap_check((uintptr_t)m, sizeof(*m), true, pc);
	for (;;) {
		RWL &x = (*rwls)[(uintptr_t)m];
		int me = cur->id;
		if (x.writer == me) {
			return try_ ? EBUSY : EDEADLK;
		}
		if (w) {
			if (x.writer < 0 && x.nreaders == 0) {
				x.writer = me;
				cur->vc.join(x.wvc);
				cur->vc.join(x.rvc);
				return 0;
			}
			if (!try_ && x.readers[me] && x.nreaders == x.readers[me]) {
				violation("self-deadlock", "a thread asks for the write lock while holding the read lock (pc 0x%lx)", (unsigned long)pc);
			}
		} else if (x.writer < 0) {
			x.readers[me]++;
			x.nreaders++;
			cur->vc.join(x.wvc);
			return 0;
		}
		if (try_) {
			return EBUSY;
		}
		block_cur(m, 0, w ? "write lock" : "read lock");
	}
}
EXPORT int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rw_lock(m, false, false, PC); }
EXPORT int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rw_lock(m, true, false, PC); }
EXPORT int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rw_lock(m, false, true, PC); }
EXPORT int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return rw_lock(m, true, true, PC); }
EXPORT int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) {
	if (!cur) {
		return 0;
	}
	RWL &x = (*rwls)[(uintptr_t)m];
	int me = cur->id;
	if (x.writer == me) {
		x.writer = -1;
		x.wvc = cur->vc;
		x.rvc = VC{};
	} else if (x.readers[me]) {
		x.readers[me]--;
		x.nreaders--;
		x.rvc.join(cur->vc);
	} else {
		violation("unlock-not-held", "unlock of a shared lock the thread does not hold (pc 0x%lx)", (unsigned long)PC);
	}
	tick(cur);
	wake_chan(m);
	yield_point(false);
	return 0;
}
EXPORT int sim_pthread_rwlock_init(pthread_rwlock_t *m, const void *) {
	memset((void *)m, 0, sizeof(*m));
	if (rwls) {
		rwls->erase((uintptr_t)m);
	}
	return 0;
}
EXPORT int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) {
	if (cur) {
		rwls->erase((uintptr_t)m);
	}
	return 0;
}
// condition variables (for refactored code that waits instead of spinning)
EXPORT int sim_cond_wait(void *c, pthread_mutex_t *m) {
	sim_pthread_mutex_unlock(m);
	block_cur(c, 0, "condition wait");
	return mutex_lock(m, false, PC);
}
EXPORT int sim_cond_signal(void *c) {
	wake_chan(c);
	if (cur) {
		yield_point(false);
	}
	return 0;
}
EXPORT int sim_cond_ok(void *) { return 0; }
EXPORT void sim_std_cv_wait(void *c, void **ul) { // std::unique_lock: {mutex*, owns}
	sim_cond_wait(c, (pthread_mutex_t *)*ul);
}
EXPORT void sim_std_cv_notify(void *c) { sim_cond_signal(c); }
EXPORT void sim_std_cv_nop(void *) {}
// once / static guards
EXPORT int sim_cxa_guard_acquire(uint8_t *g) {
	if (*(volatile uint8_t *)g == 1) {
		if (cur) {
			acquire_from(g);
		}
		return 0;
	}
	if (!cur) {
		return 1;
	}
	yield_point(false);
	while (g[1] == 1) {
		block_cur(g, 0, "static initialisation");
	}
	if (g[0] == 1) {
		acquire_from(g);
		return 0;
	}
	g[1] = 1;
	return 1;
}
EXPORT void sim_cxa_guard_release(uint8_t *g) {
	g[1] = 0;
	g[0] = 1;
	if (cur) {
		release_to(g);
		wake_chan(g);
		yield_point(false);
	}
}
EXPORT void sim_cxa_guard_abort(uint8_t *g) { g[1] = 0; }

// ------------------------------------------------------------------------------------------------
// time
namespace sim {
uint64_t now_ns() { return G.now; }
void advance_ns(uint64_t ns) { G.now += ns; }
void wall_jump(int64_t ns) {
	G.wall += ns;
	fault_fired(F_CLOCK_JUMP);
}
void set_clock_coarse(uint64_t s) { G.coarse = s; }
void wall_hold(int64_t ns) { G.hold = ns; }
static int64_t wall_now() { return G.hold ? G.hold : (int64_t)G.now + G.wall; }
} // namespace sim
EXPORT int sim_clock_gettime(clockid_t id, struct timespec *ts) {
	if (cur) {
		syscall_point("clock_gettime");
	}
	uint64_t v;
	if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
		v = G.now;
		if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {
			v = G.yieldno * 100; // processor time does not advance while sleeping
		}
	} else {
		v = (uint64_t)wall_now();
	}
	if (G.coarse) {
		v -= v % G.coarse;
		fault_fired(F_CLOCK_COARSE);
	}
	ts->tv_sec = v / 1000000000ULL;
	ts->tv_nsec = v % 1000000000ULL;
	return 0;
}
EXPORT int sim_gettimeofday(struct timeval *tv, void *) {
	struct timespec t;
	sim_clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
EXPORT long sim_time(long *o) {
	long v = wall_now() / 1000000000LL;
	if (o) {
		*o = v;
	}
	return v;
}
EXPORT long sim_std_steady_now() { return (long)G.now; }
EXPORT long sim_std_system_now() { return (long)wall_now(); }
static int do_sleep(uint64_t ns, struct timespec *rem, uint64_t abs_until) {
	if (!cur) {
		return 0;
	}
	syscall_point("nanosleep");
	uint64_t until = abs_until ? abs_until : G.now + ns;
	if (sleep_eintr && until > G.now && flip(ST_TIME, 1, 3)) {
		uint64_t part = choose(ST_TIME, 1000);
		uint64_t dur = until - G.now;
		uint64_t el = (uint64_t)((double)dur * part / 1000.0);
		fault_fired(F_SLEEP_EINTR);
		uint64_t t0 = G.now;
		block_sleep(G.now + el);
		uint64_t done = G.now - t0;
		uint64_t left = done >= dur ? 0 : dur - done;
		if (rem) {
			rem->tv_sec = left / 1000000000ULL;
			rem->tv_nsec = left % 1000000000ULL;
		}
		errno = EINTR;
		return -1;
	}
	block_sleep(until + choose(ST_TIME, 3) * 50000);
	return 0;
}
EXPORT int sim_nanosleep(const struct timespec *r, struct timespec *rem) {
	if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) {
		errno = EINVAL;
		return -1;
	}
	return do_sleep((uint64_t)r->tv_sec * 1000000000ULL + r->tv_nsec, rem, 0);
}
EXPORT int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
	if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) {
		return EINVAL;
	}
	uint64_t ns = (uint64_t)r->tv_sec * 1000000000ULL + r->tv_nsec;
	uint64_t abs = 0;
	if (flags & TIMER_ABSTIME) {
		abs = (c == CLOCK_REALTIME) ? (uint64_t)((int64_t)ns - G.wall) : ns;
	}
	return do_sleep(ns, rem, abs) ? EINTR : 0;
}
EXPORT int sim_usleep(unsigned us) {
	struct timespec rem;
	return do_sleep((uint64_t)us * 1000, &rem, 0);
}
EXPORT unsigned sim_sleep(unsigned s) {
	struct timespec rem = { 0, 0 };
	if (do_sleep((uint64_t)s * 1000000000ULL, &rem, 0)) {
		return rem.tv_sec + (rem.tv_nsec ? 1 : 0);
	}
	return 0;
}

// ------------------------------------------------------------------------------------------------
// entropy
namespace sim {
void rd_fixed(const std::vector<uint32_t> &w) {
	G.rd_fix = w;
	G.rd_base = G.rd_n;
	G.rd_seed = 0;
}
void rd_seeded(uint64_t seed) {
	G.rd_fix.clear();
	G.rd_base = G.rd_n;
	G.rd_seed = seed;
}
uint64_t rd_draws() { return G.rd_n; }
} // namespace sim
EXPORT unsigned sim_rd_getval(void *) {
	uint64_t i = G.rd_n++ - G.rd_base;
	if (i < G.rd_fix.size()) {
		return G.rd_fix[i];
	}
	static const unsigned ext[] = { 0, 1, 0x7fffffff, 0x7ffffffe, 0xffffffff, 0x80000000u, 2 };
	if (G.rd_seed) {
		uint64_t x = G.rd_seed + (i + 1) * 0x9e3779b97f4a7c15ULL;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
		x ^= x >> 31;
		if ((x >> 40) % 12 == 0) {
			fault_fired(F_RD_EXTREME);
			return ext[(x >> 48) % 7];
		}
		return (unsigned)x;
	}
	if (!cur) {
		return 12345;
	}
	if (flip(ST_RD, 1, 12)) {
		fault_fired(F_RD_EXTREME);
		return ext[choose(ST_RD, 7)];
	}
	return choose(ST_RD, 0);
}
EXPORT void sim_rd_init(void *, const void *) {}
EXPORT void sim_rd_fini(void *) {}
EXPORT int sim_rand() { return cur ? choose(ST_RD, 0) & 0x7fffffff : 1; }
EXPORT void sim_srand(unsigned) {}
EXPORT long sim_getrandom(void *p, size_t n, unsigned) {
	for (size_t i = 0; i < n; i++) {
		((uint8_t *)p)[i] = choose(ST_RD, 256);
	}
	return n;
}
EXPORT char *sim_getenv(const char *n) {
	if (!strcmp(n, "HOME")) {
		return (char *)"/home/sim";
	}
	return nullptr;
}
EXPORT int sim_getpid() { return 4242; }

// ------------------------------------------------------------------------------------------------
// the library's console output
namespace sim {
uint64_t lib_errors() { return G.liberr; }
std::function<void(const std::string &)> on_line;
std::string lib_last_error() { return last_err ? *last_err : std::string(); }
void console(const char *s, size_t n) {
	if (!out_line) {
		return;
	}
	for (size_t i = 0; i < n; i++) {
		if (s[i] == '\n') {
			if (out_line->compare(0, 3, "E |") == 0 || out_line->find("ERR_FAIL") != std::string::npos || out_line->compare(0, 3, "E: ") == 0) {
				G.liberr++;
				*last_err = *out_line;
			}
			if (G.trace && G.active && !out_line->empty()) {
				std::string t = "  out: " + out_line->substr(0, 200);
				trace_add(t.c_str(), t.size());
			}
			if (on_line) {
				on_line(*out_line);
			}
			out_line->clear();
		} else if (out_line->size() < 4000) {
			*out_line += s[i];
		}
	}
}
} // namespace sim
static int con_v(const char *f, va_list ap) {
	char b[8192];
	int n = vsnprintf(b, sizeof(b), f, ap);
	console(b, std::min<size_t>(n < 0 ? 0 : n, sizeof(b) - 1));
	return n;
}
EXPORT int sim_printf(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int n = con_v(f, ap);
	va_end(ap);
	return n;
}
EXPORT int sim_vprintf(const char *f, va_list ap) { return con_v(f, ap); }
EXPORT int sim_puts(const char *s) {
	console(s, strlen(s));
	console("\n", 1);
	return 1;
}
EXPORT int sim_putchar(int c) {
	char ch = (char)c;
	console(&ch, 1);
	return c;
}

// ------------------------------------------------------------------------------------------------
// running one run in this (forked) process
static void crash_handler(int sig, siginfo_t *si, void *) {
	if (sig == SIGALRM) {
		violation("hang", "the run did not end within the real-time limit");
	}
	violation("crash", "signal %d at address 0x%lx in thread %d", sig, (unsigned long)(uintptr_t)si->si_addr < 65536 ? (unsigned long)(uintptr_t)si->si_addr : 0xffff0000ul, self());
}
namespace sim {
static char altstk[MAXT + 1][32768];
__attribute__((noinline)) static void dirty_stack(uint64_t v) { // what a run finds below its frames must not matter
	volatile uint64_t a[16384];
	for (auto &x : a) {
		x = v;
	}
}
void run_in_child(const RunSpec &spec) {
	dirty_stack(spec.stack_fill);
	SH->r.status = 0;
	SH->r.kind[0] = SH->r.msg[0] = 0;
	SH->r.nentries = SH->r.entries_lost = SH->r.trace_len = 0;
	SH->r.trace[0] = 0;
	SH->r.ops = 0;
	memset(SH->r.faults, 0, sizeof(SH->r.faults));
	memset(SH->r.probes, 0, sizeof(SH->r.probes));
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = crash_handler;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP }) {
		sigaction(s, &sa, nullptr);
	}
	alarm(30);
	heap_init();
	syncs = new std::unordered_map<uintptr_t, Sync>();
	mtxs = new std::unordered_map<uintptr_t, Mtx>();
	rwls = new std::unordered_map<uintptr_t, RWL>();
	chans = new std::unordered_map<const void *, VC>();
	last_err = new std::string();
	out_line = new std::string();
	quarantine = quarantine ? quarantine : new std::vector<std::pair<void *, uint64_t>>();
	G.seed = spec.seed;
	G.replay = spec.replay;
	G.trace = spec.trace;
	for (int i = 0; i < ST_MAX; i++) {
		uint64_t s = spec.seed * 0x2545F4914F6CDD1DULL + i * 0x9E3779B97F4A7C15ULL + 77;
		splitmix(s);
		G.prng[i] = splitmix(s);
		G.seq[i] = 0;
		G.rcur[i] = 0;
		G.rep[i].clear();
	}
	for (const Entry &e : spec.entries) {
		G.rep[e.stream].push_back({ e.seq, e.value });
	}
	for (int i = 0; i < ST_MAX; i++) {
		std::sort(G.rep[i].begin(), G.rep[i].end());
	}
	G.active = true;
	// schedule policy of this run: not recorded, its effects (switches) are
	if (!G.replay) {
		uint64_t d = draw(ST_SCHED);
		static const uint32_t dens[] = { 2, 3, 5, 10, 30 };
		static const uint32_t pl[] = { 0, 0, 200, 40, 10 };
		G.policy = (d & 3) == 0 ? 1 : 0;
		G.sw_den = dens[(d >> 8) % 5];
		G.plain_den = pl[(d >> 16) % 5];
		static const uint32_t spans[] = { 30, 100, 400, 1500 };
		uint32_t span = spans[(d >> 24) % 4];
		int nch = 1 + (d >> 32) % 5;
		for (int i = 0; i < nch; i++) {
			G.change.push_back(1 + (draw(ST_SCHED) >> 32) % span);
		}
		std::sort(G.change.begin(), G.change.end());
	}
	G.fake_reuse = choose(ST_GARB, 3) == 1;
	uint32_t g = choose(ST_GARB, 4);
	G.garb = g == 0 ? 0x5eed : g == 1 ? 0 : bits(ST_GARB) | 1;
	static void (*fn)();
	fn = scenarios()[spec.scenario].run;
	Thr *t = new_thread(new std::function<void()>([]() {
		stack_t ss;
		ss.ss_sp = altstk[0];
		ss.ss_size = sizeof(altstk[0]);
		ss.ss_flags = 0;
		sigaltstack(&ss, nullptr);
		fn();
		// all other threads must have ended or be ended by the scenario
		finish(1);
	}), nullptr);
	fwake(t->go);
	for (;;) {
		pause();
	}
}
} // namespace sim
