// hsim: deterministic simulator for hogl. Public interface for scenario code.
#ifndef HSIM_H
#define HSIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

// ---- randomness -------------------------------------------------------------------------------
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64)(hi - lo + 1)); }
	bool chance(u32 num, u32 den) { return below(den) < num; }
	template<class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
u64 mix(u64 a, u64 b);

// ---- plan: everything that decides one run ------------------------------------------------------
enum FaultKind {
	F_ALLOC, F_THREAD, F_OPEN, F_SHORT, F_EINTR, F_WERR, F_RENAME, F_SYMLINK, F_SPURIOUS, F_CLOCKJUMP, F_SLOWIO,
	F_OVERSLEEP, F_STALL, F_CRASH, F_READSHORT, F_RERR, F_FSYNC, F_DISKFULL, F_DAMAGE, F_MUTEXINIT, F_SCHED, F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

struct Op { int id; int thr; int kind; i64 a, b, c, d; };
struct FaultRec { int kind; u64 nth; i64 param; };
struct Dev { int fiber; u64 epoch; u32 step; u8 block; int target; i64 stall; };   // schedule deviation

struct Plan {
	std::string prop, scen;
	u64 seed = 0;
	std::map<std::string, i64> knobs;
	std::vector<Op> ops;
	std::vector<FaultRec> faults;     // replay only
	std::vector<Dev> devs;            // replay only
	bool replay = false;
	i64 k(const char *n, i64 dflt = 0) const { auto it = knobs.find(n); return it == knobs.end() ? dflt : it->second; }
	void set(const char *n, i64 v) { knobs[n] = v; }
	void op(int thr, int kind, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0) { Op o = { (int) ops.size() + 1, thr, kind, a, b, c, d }; ops.push_back(o); }
};

struct Scenario {
	const char *name;
	const char *props;                              // space separated property ids it serves
	void (*generate)(Plan &p, Rng &r);              // fill knobs and ops from r (p.prop is set)
	void (*run)(const Plan &p);                     // main fiber body; calls violate() on failure
	void (*shrink_knobs)(Plan &p, std::vector<std::pair<std::string,i64> > &cand); // optional
};
void register_scenario(const Scenario *s);
struct Registrar { Registrar(const Scenario *s) { register_scenario(s); } };

// ---- run-time services ---------------------------------------------------------------------------
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();                 // normal end of the run
void probe(const char *name);               // "this rare condition was reached"
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // shown with -v only
u64  event();                               // next global event number
void note(u64 a, u64 b = 0);                // mix into the run's event hash (never pass addresses)
i64  now();                                 // simulated monotonic nanoseconds
i64  now_real();                            // simulated wall clock nanoseconds (before granularity)
void set_real(i64 ns);                      // step the wall clock
u64  steps();
int  self();                                // fiber index
const char *fiber_name(int f);

int  spawn(const char *name, std::function<void()> fn);   // harness thread (starts quiet)
bool join(int fiber, i64 timeout_ns);                     // false on timeout
bool done(int fiber);
void sleep_ns(i64 ns);                                    // simulated
void yield_point();                                       // scheduling point from harness code
bool wait_until(std::function<bool()> pred, i64 timeout_ns, i64 poll_ns = 20000);
void op_begin(int op_id);                                 // epoch for replay keys
int  sut_threads();                                       // live threads created by the code under test
int  sut_threads_created();
void freeze_sut();                                        // process crash: no thread except the caller ever runs again
void freeze_fiber(int f);
void stall_fiber(int f, i64 ns);
std::string where(int f);                                 // what a fiber is blocked on (for messages)

bool faults_enabled();
void enable_faults(bool on);                              // master switch (default off)
i64  fault(int kind, i64 lo = 0, i64 hi = 0);             // -1: does not fire, else parameter in [lo,hi]
u64  fault_count(int kind);
void crash_after(u64 steps);                                // 0: never
void crash_soon();                                        // process crash at the next step of any thread
bool crashed(); void crash_clear();                       // after a crash: harness goes on with a fresh process image
void force_crash_cb(std::function<void()> cb);            // called when F_CRASH step is reached

// SUT scope: code of hogl runs "loud" (every access is a scheduling point), harness code runs quiet.
void sut_enter(); void sut_leave();
void quiet_enter(); void quiet_leave();
struct Sut   { Sut()   { sut_enter(); }   ~Sut()   { sut_leave(); } };
struct Quiet { Quiet() { quiet_enter(); } ~Quiet() { quiet_leave(); } };

// what a thread did inside a window (C08)
struct Usage { u64 steps, syscalls, locks, allocs, sleeps, blocks; };
Usage usage();                                            // of the calling fiber, cumulative
size_t sut_live_bytes(); u64 alloc_mark(); void dump_live(u64 since); u64 sut_live_blocks();
int run_exit_handlers();                                  // what the process would run on exit(); number of handlers
int sut_exit_code();                                      // -1, or what the code under test passed to exit()
void arm_fail(int fiber, u32 kinds, u64 nth, u64 count = 1); // its nth request of these kinds (1 << F_ALLOC ...) fails, and count - 1 more
u64 disarm(int fiber = -1); u64 armed_hits(); u64 armed_seen(); bool armed_fault(int kind);
void allow_terminate(bool on);                            // std::terminate in simulated code is a process crash, not a violation
const std::string &terminated(); int terminated_fiber();
int last_sut_fiber();
// Every attempt of simulated code to change scheduling parameters; the simulated machine has 256 CPUs numbered from 0.
struct SchedRec { int caller, target; bool affinity; int policy, prio; std::vector<int> cpus; int err; u64 ev; };
const std::vector<SchedRec> &sched_log();
bool addressable(const void *p, size_t n);                // SUT heap check

// memory of the simulated process, as a core dump would have it
enum { SEG_HEAP, SEG_DATA, SEG_RO };
struct Segment { u64 vma; u64 size; int kind; std::string data; };
void memory_image(std::vector<Segment> &out, bool ro);

// ---- simulated files -------------------------------------------------------------------------------
namespace vfs {
struct FileInfo { std::string data; u64 inode; u64 created; };
bool exists(const std::string &path);
std::string link_target(const std::string &path);        // "" if not a symlink
bool resolve(const std::string &path, std::string &out); // follow symlinks, true if it names a file
bool read_file(const std::string &path, std::string &out);
void write_file(const std::string &path, const std::string &data);
void append_file(const std::string &path, const std::string &data);
std::vector<std::string> list();
u64 inode_of(const std::string &path);
std::string inode_data(u64 ino);
u64 inode_created(u64 ino);
std::string inode_name_at_creation(u64 ino);
bool inode_destroyed(u64 ino);                           // truncated by a later open
std::vector<u64> inodes();                               // generations in creation order
void on_change(std::function<void(const char *what, const std::string &path)> cb);
int open_fds();
void set_capacity(i64 bytes);                            // -1: unlimited (disk full when used up)
i64 used();
extern bool slow_ok;
extern std::function<bool(int kind, const std::string &path)> fault_ok;  // restricts which calls open/write faults may hit
void make_dir(const std::string &path);
void close_all();                                        // the process died
int bad_closes();                                        // close() of a descriptor that is not open
FILE *open_stream(const char *path);
}

// ---- engine-wide options set per run from knobs ---------------------------------------------------
// knobs understood by the kernel: sched (0 np,1 random,2 pct,3 conflict,4 sync,5 mixed), sched_p, dt_ns, gran_ns,
// f.<fault> rate per million
} // namespace sim

#define SUT(expr) ([&]{ ::sim::Sut _s; return expr; }())
#endif
