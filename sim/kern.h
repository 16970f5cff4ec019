// hsim kernel internals shared by kernel.cc, vfs.cc, main.cc. Not for scenario code.
#ifndef HSIM_KERN_H
#define HSIM_KERN_H
#include "hsim.h"
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

enum { MAXF = 64, MAXDEV = 300000, MAXFR = 20000, MAXPROBE = 96, COVSZ = 1 << 17 };

enum Status { ST_NONE = 0, ST_RUNNING = 1, ST_OK = 2, ST_VIOL = 3, ST_LIMIT = 4 };
struct ProbeCnt { char name[40]; u64 n; };
// Lives in memory shared between the worker and the child that executes a run.
struct Result {
	volatile int status;
	char cls[160];
	char msg[3000];
	u64 hash, sched_hash, steps, events, switches; i64 sim_ns;
	u64 fired[F_NKINDS];
	int nprobe; ProbeCnt probes[MAXPROBE];
	u32 ndev; Dev devs[MAXDEV];
	u32 nfr; FaultRec frs[MAXFR];
	u8 cov[COVSZ];             // cumulative over runs: conflicting access pairs
};

enum FState { FS_FREE, FS_RUN, FS_BLOCK, FS_DONE, FS_FROZEN };

struct Fiber {
	int id; FState st; const char *name; char nm[32];
	void *sp; u8 *stk_lo; size_t stk_sz;
	u8 *tls; int err;
	int quiet;                   // >0: harness code
	bool sut;                    // created by pthread_create
	bool detached; void *ret; bool joined;
	std::function<void()> fn; void *(*start)(void *); void *arg;
	i64 deadline;                // mono ns, <0 none
	const void *wait_obj; const char *wait_what; bool signalled; bool timed_out;
	int join_wait;
	u64 epoch; u32 ep_step; u32 next_dev; u64 nsteps; u64 nblocks;
	u64 n_sys, n_lock, n_alloc, n_sleep;
	u64 prio;                    // pct
	u64 since_switch;
	u64 wait_seq;
	std::vector<Dev> devs; size_t devpos;
	void *keys[64];
	struct Dtor { void (*f)(void *); void *o; }; std::vector<Dtor> dtors;
};

struct Global {
	Fiber *cur; int in_kernel; bool active;
	Fiber f[MAXF]; int nf;
	Plan plan; Result *res; bool verbose; bool replay;
	i64 mono, off; i64 dt, gran; i64 next_deadline;
	u64 steps, max_steps, events, hash, shash; i64 max_ns;
	Rng rs, rf;                  // schedule, fault streams
	int mode; u32 p_den; i64 cd; u32 q_den; u32 stall_pm; i64 stall_max; u32 eng_den; i64 eng_max, eng_cd; u32 block_rand;
	std::vector<u64> pct; size_t pctpos; u64 pct_low;
	bool faults_on; u64 fcount[F_NKINDS]; u32 frate[F_NKINDS];
	std::map<std::pair<int,u64>, i64> freplay;
	u64 crash_step; std::function<void()> crash_cb; bool crashed; bool keep_freed; bool term_ok;
	void *last_pc; u32 last_conf;
	u8 *tls_lo; size_t tls_sz;
	u64 sut_created;
	u64 alloc_live_bytes, alloc_live_blocks;
	Global() : rs(1), rf(1) {}
};
extern Global g;

struct K { K() { g.in_kernel++; } ~K() { g.in_kernel--; } };

void point(int kind, void *pc, const char *what);         // scheduling point (kind 0 mem 1 conflict 2 sync)
bool live();                                              // inside a fiber, not in kernel code
void sync_enter(const char *what);                        // syscall/sync entry from any fiber
void block(const char *what, const void *obj, i64 deadline_mono);
void wake(Fiber *f);
void wake_obj(const void *obj, int n);
void access_range(const void *p, size_t n, bool write, void *pc);
void kernel_init();
void child_heap_reset();                                  // in the child, before the plan is made
void run_child(const Plan &p, Result *r, bool verbose);   // never returns
const Scenario *find_scenario(const std::string &n);
std::vector<const Scenario *> scenarios_for(const std::string &prop);
void vfs_reset();
void raw_out(const char *s, size_t n);
std::string symbol(void *pc);
extern volatile int g_boot;

template<class... A> inline long sysc(long n, A... a) { return ::syscall(n, a...); }
}
#endif
