// Runtime-internal declarations shared by core.cpp, fs.cpp, proc.cpp, net.cpp, main.cpp.
#ifndef SIM_RT_H
#define SIM_RT_H
#include "sim.h"
#include <sys/types.h>

namespace sim {

enum { MAXT = 8 };

struct Result {
	int status; // 0 running, 1 ok, 2 violation, 3 harness error
	char kind[128];
	char msg[3000];
	uint64_t hash, sched_hash;
	uint64_t yields, switches, accesses, syscalls, sim_ns, ops;
	uint64_t faults[F_MAX];
	uint64_t probes[NPROBE];
	uint32_t nentries, entries_lost;
	uint32_t trace_len;
	char trace[1 << 20];
};
enum { MAX_ENTRIES = 1 << 20 };
struct Shared {
	Result r;
	char probe_name[NPROBE][64];
	Entry entries[MAX_ENTRIES];
};
extern Shared *SH; // result area of the current worker

struct RunSpec {
	uint64_t stack_fill = 0;
	uint64_t seed;
	int scenario; // index
	bool replay;
	std::vector<Entry> entries;
	bool trace;
};
void run_in_child(const RunSpec &spec); // never returns
std::vector<Scenario> &scenarios();

// internals for the other runtime files
struct Rt { // mark: inside the runtime
};
bool in_sim(); // called from a simulated thread
void syscall_point(const char *name); // counts, yields, maybe crashes
bool fault(FaultKind k, uint32_t per1000); // draws from ST_FAULT; true = inject
void block_sleep(uint64_t until_ns); // block this thread until virtual time
void block_on(const void *chan, const char *why); // until wake_chan; caller re-checks
bool block_on_until(const void *chan, uint64_t until_ns, const char *why); // false on timeout
void wake_chan(const void *chan);
void acquire_from(const void *chan);
void release_to(const void *chan);
void reset_locks(); // after a simulated crash
void range_access(const void *p, size_t n, bool write, const void *pc); // checked access on behalf of libc
void clear_mt();
} // namespace sim
#endif
