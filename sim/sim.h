// Deterministic simulator: API used by the runtime and by the scenarios.
#ifndef SIM_H
#define SIM_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- choice streams -------------------------------------------------------------------------
enum Stream {
	ST_SCHED = 0, // thread switches: seq = yield number, value = thread + 1
	ST_PLAIN, // thread switches at plain memory accesses: seq = access number
	ST_BLOCK, // who runs when the running thread blocks
	ST_CFG, // per-run configuration (swarm)
	ST_CASW, // spurious failure of a weak compare-exchange
	ST_OOM, // allocation failures
	ST_GARB, // contents of fresh memory, address reuse
	ST_FAULT, // system-call failures
	ST_IO, // benign I/O variation: short transfers, listing order
	ST_RD, // entropy source words
	ST_TIME, // clock steps, jumps, interruptions
	ST_NET,
	ST_PROC,
	ST_CRASH, // process death at a system call
	ST_AUX,
	ST_W0 = 16, // workload of thread t: ST_W0 + t
	ST_MAX = 32
};

struct Entry {
	uint16_t stream;
	uint32_t seq;
	uint32_t value;
};

enum FaultKind {
	F_OOM, F_SPURIOUS_CAS, F_OPEN, F_READ_EIO, F_READ_EINTR, F_SHORT_READ, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_SHORT_WRITE,
	F_CLOSE, F_FLUSH, F_SEEK, F_STAT, F_RENAME, F_UNLINK, F_MKDIR, F_RMDIR, F_OPENDIR, F_READDIR, F_CHDIR, F_GETCWD, F_SYMLINK, F_CHMOD, F_ACCESS,
	F_CRASH, F_SLEEP_EINTR, F_CLOCK_JUMP, F_CLOCK_COARSE, F_POPEN, F_FORK, F_EXEC, F_WAIT_EINTR, F_PID_REUSE, F_CHILD_SLOW, F_NET_DELAY, F_NET_RESET,
	F_NET_REFUSE, F_NET_SOCKET, F_NET_BIND, F_NET_MISC, F_DTYPE_UNKNOWN, F_HEAP_REUSE, F_PREEMPT, F_RD_EXTREME, F_TRUNCATE, F_MAX
};
extern const char *const fault_names[F_MAX];
void fault_fired(FaultKind k);

enum { NPROBE = 48 };
// "something rare and interesting happened": counted in the evidence
void probe(int idx, const char *name);

// ---- choices --------------------------------------------------------------------------------
uint32_t choose(int stream, uint32_t n); // 0..n-1; 0 is the benign default
bool flip(int stream, uint32_t num, uint32_t den); // true with probability num/den; default false
uint64_t bits(int stream); // 64 random bits (recorded in two entries)
uint32_t wchoose(uint32_t n); // workload choice of the current thread
bool wflip(uint32_t num, uint32_t den);
int weighted(int stream, std::initializer_list<int> w);

// ---- reporting ------------------------------------------------------------------------------
// kind: short stable key (no numbers that vary); text: details.
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run(); // stop this run now, successfully
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // folded into the run hash, kept in the trace
void hash_mix(uint64_t v);
#define SIM_CHECK(cond, kind, ...)               \
	do {                                         \
		if (__builtin_expect(!(cond), 0))        \
			::sim::violation(kind, __VA_ARGS__); \
	} while (0)

// ---- threads --------------------------------------------------------------------------------
int self(); // simulated thread number (0 = scenario main)
void yield(const char *why = "yield");
// Spawn a simulated thread directly (not through the library); join with join().
int spawn(std::function<void()> fn);
void join(int tid);
int threads_alive();
uint64_t stamp(); // strictly increasing logical time, for histories
// Happens-before neutral region: harness bookkeeping is not preempted and not race-checked.
struct Quiet {
	Quiet();
	~Quiet();
};
void set_step_limit(uint64_t yields, uint64_t accesses);
void set_fairness(uint64_t points);
bool in_replay();

// ---- heap -----------------------------------------------------------------------------------
struct HeapStats {
	uint64_t live_blocks, live_bytes, total_allocs, oom_fired;
};
HeapStats heap();
void oom_arm(uint32_t num, uint32_t den); // enable allocation failures (0 disables)
void oom_nth(uint64_t n); // fail exactly the n-th allocation from now (1-based; 0 disables)
bool heap_live(const void *p); // p lies in a live block
void set_garbage(uint64_t seed); // content of fresh blocks; 0 = zero fill
void set_heap_reuse(bool on);
// leak checking: returns number of blocks allocated since mark that are still live
uint64_t heap_mark();
uint64_t heap_live_since(uint64_t mark, uint64_t *bytes = nullptr);

// ---- time -----------------------------------------------------------------------------------
uint64_t now_ns(); // virtual monotonic raw time
void advance_ns(uint64_t ns);
void wall_jump(int64_t ns);
void wall_hold(int64_t ns); // the wall clock stands still at this time; 0: it goes on
void set_clock_coarse(uint64_t step_ns);
extern bool sleep_eintr;

// ---- random device --------------------------------------------------------------------------
void rd_fixed(const std::vector<uint32_t> &w); // words to deliver first
void rd_seeded(uint64_t seed); // from now on word i is a function of the seed and i only (0: back to choices)
uint64_t rd_draws();

// ---- log of the library's own error messages --------------------------------------------------
uint64_t lib_errors(); // error lines printed by the library so far
std::string lib_last_error();
extern std::function<void(const std::string &)> on_line; // every line the library prints

// ---- simulated files (fs.cpp) -----------------------------------------------------------------
namespace fs {
void reset();
void put(const std::string &path, const std::string &bytes, int mode = 0644);
bool get(const std::string &path, std::string *bytes);
bool exists(const std::string &path);
std::string real(const std::string &path); // canonical path, last link not followed; empty if a directory on the way is missing
int mode(const std::string &path);
void set_mtime(const std::string &path, uint64_t seconds);
bool is_dir(const std::string &path);
bool is_link(const std::string &path);
void mkdirs(const std::string &path);
void symlink(const std::string &target, const std::string &path);
std::map<std::string, std::string> snapshot(); // path -> kind+contents
void set_cwd(const std::string &p);
std::string cwd();
int open_handles(); // descriptors, streams and directory streams still open
std::string open_desc();
// fault plan
struct Faults {
	uint32_t rate[F_MAX]; // numerator over 1000 per call
	uint64_t capacity; // bytes the disk may hold; ~0 = unlimited
	bool short_io; // split transfers
	uint64_t fail_nth_syscall; // absolute number (see syscalls()) of a call that fails; 0 = off
};
extern Faults faults;
extern size_t stream_buffer; // buffer size of streams opened from now on
void faults_off();
uint64_t syscalls();
uint64_t free_bytes(); // room left on the simulated disk
uint64_t fired(); // faults that made a call fail, so far
uint64_t writes_failed(); // bytes that did not reach the simulated disk
// run fn; if a crash choice fires inside a system call, returns true (process died there)
bool run_crashable(std::function<void()> fn, uint32_t crash_at_syscall);
void new_process(); // drop all open handles, buffers
extern std::function<void(const char *, const std::string &)> on_mutate; // after every change of the tree: (operation, real path)
} // namespace fs

// ---- simulated processes (proc.cpp) ------------------------------------------------------------
namespace proc {
struct Script {
	std::string output;
	std::string err_output;
	int exit_code = 0;
	int term_signal = 0;
	uint64_t run_ns = 0; // life time
	bool exec_fails = false;
};
struct Child {
	int pid;
	bool via_popen;
	std::string shell; // popen command
	std::string file; // exec path
	std::vector<std::string> argv;
	bool exec_done = false, exited = false, reaped = false;
	int err_to = 0; // popen: 0 the parent's standard error, 1 the pipe, 2 nowhere
	int killed_by = 0;
	int status = 0;
	int reaps = 0;
};
void reset();
void next_script(const Script &s);
const std::vector<Child> &children();
int live_or_zombie(); // children not collected
struct Kill {
	int pid, sig;
	int target; // index of the child alive/zombie under this pid or -1 (foreign or free pid)
};
const std::vector<Kill> &kills();
extern bool pid_reuse; // freed pids are given to foreign processes at once
extern uint32_t fork_fail, popen_fail, wait_eintr; // per 1000
extern uint64_t bad_waits; // waits for something that is not an uncollected child of ours
} // namespace proc

// ---- simulated network (net.cpp) ----------------------------------------------------------------
namespace net {
void reset();
int open_sockets();
extern uint32_t fail_socket, fail_bind, fail_listen, fail_accept, fail_connect, fail_send, fail_recv, fail_misc; // per 1000
extern uint32_t reset_rate;
extern bool short_io;
extern bool fd_zero; // the next socket gets the lowest free one of descriptors 0 to 2 (only 0, if not low_free)
extern bool low_free;
extern uint64_t stdin_touched; // reads and writes of descriptor 0 while it is no socket
struct SockInfo {
	int fd;
	bool listening;
	uint8_t addr[16];
	int family;
	uint16_t port;
	bool bound, v6only;
};
bool find_listener(uint16_t port, SockInfo *out);
bool reachable_from_outside(uint16_t port); // a listener accepts connections arriving on a non-loopback interface
bool reachable_from_loopback(uint16_t port);
// peer endpoint driven by the scenario
int peer_connect(const uint8_t *ip4, uint16_t port, bool via_loopback); // handle or -1
int peer_listen(uint16_t port);
int peer_accept(int h); // -1 none
int peer_send(int h, const void *d, size_t n);
std::string peer_recv(int h); // everything that arrived
bool peer_eof(int h);
void peer_shutdown(int h);
void peer_close(int h);
bool sock_flags(int fd, bool *nonblock, bool *cloexec, bool *nodelay, bool *keepalive, bool *reuse_addr);
void peer_reset(int h);
uint64_t bytes_accepted(int h); // bytes the library's side sent into this connection
} // namespace net

// ---- scenarios ----------------------------------------------------------------------------------
struct Scenario {
	const char *property;
	const char *name;
	void (*run)();
	int weight;
};
void register_scenario(const Scenario &s);
struct Registrar {
	Registrar(const char *p, const char *n, void (*f)(), int w = 1) { register_scenario({ p, n, f, w }); }
};
#define SCENARIO(prop, nm, w)                                              \
	static void prop##_##nm();                                             \
	static ::sim::Registrar reg_##prop##_##nm(#prop, #nm, prop##_##nm, w); \
	static void prop##_##nm()

// called once in the zygote before any run (library start-up)
extern void (*zygote_setup)();

} // namespace sim
#endif
