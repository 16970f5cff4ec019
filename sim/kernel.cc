// hsim kernel: fibers, seeded scheduler, virtual time, access hooks, allocator, pthread/time interposition.
#include "kern.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <time.h>
#include <dlfcn.h>
#include <link.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/resource.h>
#include <cxxabi.h>
#include <exception>
#include <sys/single_threaded.h>
#include <new>
#include <algorithm>

#define EXP extern "C" __attribute__((visibility("default")))

namespace sim {

Global g;
volatile int g_boot = 0;

const char *const fault_names[F_NKINDS] = { "alloc", "thread_create", "open", "short_write", "eintr", "write_error", "rename", "symlink",
	"spurious_wakeup", "clock_jump", "slow_io", "oversleep", "stall", "crash", "short_read", "read_error", "fsync", "disk_full", "damage", "mutex_init", "sched_refused" };

u64 mix(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

void raw_out(const char *s, size_t n) { while (n) { long r = sysc(SYS_write, 2, s, n); if (r <= 0) break; s += r; n -= r; } }

// ------------------------------------------------------------------------------------------------
// Memory: two fixed arenas. Harness heap (reused), SUT heap (never reused, red zones, shadow).
// ------------------------------------------------------------------------------------------------
static u8 *const SUT_LO = (u8 *) 0x200000000000ULL; static const size_t SUT_SZ = 1ULL << 30;
static u8 *const SHD_LO = (u8 *) 0x210000000000ULL;
static u8 *const HRN_LO = (u8 *) 0x220000000000ULL; static const size_t HRN_SZ = 4ULL << 30;
static u8 *const STK_LO = (u8 *) 0x230000000000ULL; static const size_t STK_SZ = 512 << 10;

static u8 *sut_top, *hrn_top; static bool mem_ready;
static void *hfree[48];

static void mapfix(void *a, size_t n)
{
	void *p = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != a) { static const char m[] = "hsim: cannot map arena\n"; raw_out(m, sizeof(m) - 1); _exit(97); }
}
static void mem_init()
{
	mem_ready = true;
	__libc_single_threaded = 0;          // the simulated process has threads: reference counts must be atomic
	mapfix(SUT_LO, SUT_SZ); mapfix(SHD_LO, SUT_SZ / 8); mapfix(HRN_LO, HRN_SZ);
	sut_top = SUT_LO + 4096; hrn_top = HRN_LO;
}

struct HHdr { u64 cls; u64 size; };
static void *h_alloc(size_t n, size_t al)
{
	if (!mem_ready) mem_init();
	if (al < 16) al = 16;
	size_t need = n + sizeof(HHdr) + (al > 16 ? al : 0);
	int c = 5; while ((1ULL << c) < need) c++;
	if (al == 16 && hfree[c]) { u8 *b = (u8 *) hfree[c]; hfree[c] = *(void **)(b + sizeof(HHdr)); ((HHdr *) b)->size = n; return b + sizeof(HHdr); }
	u8 *b = hrn_top;
	u8 *u = (u8 *)(((u64) b + sizeof(HHdr) + al - 1) & ~(al - 1));
	size_t tot = (al == 16) ? (1ULL << c) : (size_t)(u - b) + n;
	hrn_top = (u8 *)(((u64) b + tot + 15) & ~15ULL);
	if (hrn_top > HRN_LO + HRN_SZ) { static const char m[] = "hsim: harness heap exhausted\n"; raw_out(m, sizeof(m) - 1); _exit(97); }
	HHdr *h = (HHdr *)(u - sizeof(HHdr)); h->cls = al == 16 ? c : 0; h->size = n;
	return u;
}
static u8 *h_base;
// The child that executes a run starts from an empty arena at a fixed place, whatever its parent did before: addresses
// are part of what a run may depend on.
void child_heap_reset() { h_base = HRN_LO + HRN_SZ / 2; if (hrn_top > h_base) _exit(97); hrn_top = h_base; memset(hfree, 0, sizeof hfree); }
static void h_free(void *p)
{
	HHdr *h = (HHdr *)((u8 *) p - sizeof(HHdr));
	if ((u8 *) p < h_base) return;
	if (h->cls) { *(void **) p = hfree[h->cls]; hfree[h->cls] = h; }
}

struct SHdr { u64 magic, size, pad, seq; };
static u64 alloc_seq;
enum { SH_RED = 0xfa, SH_FREED = 0xfd };
static inline u8 *shd(const void *p) { return SHD_LO + (((u64) p - (u64) SUT_LO) >> 3); }
static inline bool in_sut(const void *p) { return (u64) p - (u64) SUT_LO < SUT_SZ; }
static inline bool in_hrn(const void *p) { return (u64) p - (u64) HRN_LO < HRN_SZ; }

static void *s_alloc(size_t n, size_t al)
{
	if (al < 16) al = 16;
	if (n > SUT_SZ / 2) return 0;
	u8 *u = (u8 *)(((u64) sut_top + sizeof(SHdr) + al - 1) & ~(al - 1));
	size_t body = (n + 7) & ~7ULL;
	u8 *end = (u8 *)(((u64) u + body + 32 + 15) & ~15ULL);
	if (end > SUT_LO + SUT_SZ) return 0;
	memset(shd(sut_top), SH_RED, shd(end) - shd(sut_top));
	SHdr *h = (SHdr *)(u - sizeof(SHdr)); h->magic = 0x5155544d414c4c43ULL; h->size = n; h->seq = ++alloc_seq; h->pad = al;
	memset(shd(u), 8, n / 8); if (n & 7) *shd(u + (n & ~7ULL)) = n & 7;
	memset(u, 0xA5, n);
	sut_top = end;
	g.alloc_live_bytes += n; g.alloc_live_blocks++;
	return u;
}
static void s_free(void *p)
{
	SHdr *h = (SHdr *)((u8 *) p - sizeof(SHdr));
	if (h->magic == 0x4652454544ULL) violate("memory:double-free", "double free of a heap block of %llu bytes in %s", (unsigned long long) h->size, symbol(g.last_pc).c_str());
	if (h->magic != 0x5155544d414c4c43ULL || *shd((u8 *) p - 8) != SH_RED) violate("memory:bad-free", "free of a pointer that is not a heap block in %s", symbol(g.last_pc).c_str());
	h->magic = 0x4652454544ULL;
	size_t n = h->size;
	memset(shd(p), SH_FREED, (n + 7) / 8);
	memset(p, 0xDD, g.keep_freed ? std::min<size_t>(n, 16) : n);      // keep_freed: like a real allocator, only the first words are clobbered
	g.alloc_live_bytes -= n; g.alloc_live_blocks--;
}

static inline bool shadow_ok(const u8 *a, unsigned sz)
{
	u8 s = *shd(a);
	unsigned o = (u64) a & 7;
	if (s == 8) { if (o + sz <= 8) return true; }
	else { if (s > 8 || s == 0) return false; if (o + sz <= s) return true; if (o + sz <= 8) return false; if (s < 8) return false; }
	u8 t = *shd(a + sz - 1); unsigned e = ((u64)(a + sz - 1) & 7) + 1;
	return t <= 8 && t != 0 && e <= t;
}
bool addressable(const void *p, size_t n)
{
	if (!in_sut(p)) return true;
	for (size_t i = 0; i < n; i++) if (!shadow_ok((const u8 *) p + i, 1)) return false;
	return true;
}
static __attribute__((noinline)) void bad_access(const void *a, unsigned sz, bool wr, void *pc)
{
	u8 s = *shd(a), s2 = *shd((const u8 *) a + sz - 1);
	const char *k = (s == SH_FREED || s2 == SH_FREED) ? "use-after-free" : (s == SH_RED || s2 == SH_RED || (s && s < 8)) ? "out-of-bounds" : "wild-access";
	std::string cls = std::string("memory:") + k;
	violate(cls.c_str(), "heap %s: %s of %u bytes in %s", k, wr ? "write" : "read", sz, symbol(pc).c_str());
}
u64 alloc_mark() { return alloc_seq; }
void dump_live(u64 since)
{
	for (u8 *a = SUT_LO + 4096; a < sut_top; a += 16) { SHdr *h = (SHdr *) a; if (h->magic != 0x5155544d414c4c43ULL || h->seq <= since) continue; std::string x; for (size_t i = 0; i < std::min<size_t>(h->size, 64); i++) { char b[8]; u8 c = a[sizeof(SHdr) + i]; snprintf(b, sizeof b, c > 32 && c < 127 ? "%c" : "\\%02x", c); x += b; } logf("live block %llu of %llu bytes: %s", (unsigned long long) h->seq, (unsigned long long) h->size, x.c_str()); }
}
size_t sut_live_bytes() { return g.alloc_live_bytes; }
u64 sut_live_blocks() { return g.alloc_live_blocks; }

static inline bool loud() { return g.cur && !g.in_kernel && !g.cur->quiet; }
bool live() { return g.cur && !g.in_kernel; }

// A planned failure: the nth request of these kinds made by one fiber, and the following ones (part of the plan, so it needs
// no replay record).
struct Arm { bool on; u32 kinds; u64 nth, count, seen, hits; };
static Arm g_arm[MAXF];
void arm_fail(int fiber, u32 kinds, u64 nth, u64 count) { g_arm[fiber] = Arm { true, kinds, nth, count, 0, 0 }; }
u64 disarm(int fiber) { Arm &a = g_arm[fiber < 0 ? g.cur->id : fiber]; a.on = false; return a.hits; }
u64 armed_hits() { return g_arm[g.cur->id].hits; }
u64 armed_seen() { return g_arm[g.cur->id].seen; }
static void hupd(u64 v);
static bool armed(int kind)
{
	Arm &a = g_arm[g.cur->id]; if (!a.on || !(a.kinds >> kind & 1)) return false;
	u64 n = ++a.seen; if (n < a.nth || n >= a.nth + a.count) return false;
	a.hits++; g.res->fired[kind]++; hupd(mix(kind + 2000, n));
	if (g.verbose) logf("ARMED FAULT %s request %llu", fault_names[kind], (unsigned long long) n);
	return true;
}
bool armed_fault(int kind) { return g.cur && !g.cur->quiet && armed(kind); }
static void *do_alloc(size_t n, size_t al, bool can_fail = true)
{
	if (loud()) {
		g.cur->n_alloc++;
		K k;
		if (can_fail && (armed(F_ALLOC) || fault(F_ALLOC) >= 0)) { errno = ENOMEM; return 0; }
		void *p = s_alloc(n, al);
		if (!p) errno = ENOMEM;
		return p;
	}
	return h_alloc(n, al);
}
static size_t usable(void *p)
{
	if (in_sut(p)) return ((SHdr *)((u8 *) p - sizeof(SHdr)))->size;
	if (in_hrn(p)) return ((HHdr *)((u8 *) p - sizeof(HHdr)))->size;
	return 0;
}
static void do_free(void *p)
{
	if (!p) return;
	if (in_sut(p)) { if (loud()) g.cur->n_alloc++; K k; s_free(p); }
	else if (in_hrn(p)) h_free(p);
	else if (g.active) violate("memory:bad-free", "free of non-heap pointer in %s", symbol(g.last_pc).c_str());
}

// ------------------------------------------------------------------------------------------------
// Fibers
// ------------------------------------------------------------------------------------------------
extern "C" void hsim_switch(void **save, void *load);
asm(R"(
.text
.globl hsim_switch
hsim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

static const u8 *tls_init_img; static size_t tls_init_sz;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *)
{
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) {
			tls_init_img = (const u8 *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_init_sz = i->dlpi_phdr[k].p_filesz;
			size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
			g.tls_sz = (i->dlpi_phdr[k].p_memsz + al - 1) & ~(al - 1);
			u8 *tp; asm("mov %%fs:0,%0" : "=r"(tp));
			g.tls_lo = tp - g.tls_sz;
			// image start inside the block: the block ends at tp (rounded)
		}
	return 1;  // the executable is first
}
static thread_local int tls_probe = 0x51;   // forces a PT_TLS segment and checks the address arithmetic

static void fiber_main();
static void tls_swap(Fiber *from, Fiber *to)
{
	if (from) { memcpy(from->tls, g.tls_lo, g.tls_sz); from->err = errno; }
	memcpy(g.tls_lo, to->tls, g.tls_sz); errno = to->err;
}
static void switch_to(Fiber *to)
{
	Fiber *from = g.cur;
	if (to == from) return;
	int ik = g.in_kernel;
	tls_swap(from, to);
	g.cur = to; to->since_switch = 0;
	g.in_kernel = 1;
	hsim_switch(&from->sp, to->sp);
	g.in_kernel = ik;
}

static void hupd(u64 v) { g.hash = mix(g.hash, v); }
void note(u64 a, u64 b) { K k; hupd(a); hupd(b); }
u64 event() { return ++g.events; }
i64 now() { return g.mono; }
i64 now_real() { return g.mono + g.off; }
void set_real(i64 ns) { g.off = ns - g.mono; }
u64 steps() { return g.steps; }
int self() { return g.cur ? g.cur->id : -1; }
const char *fiber_name(int f) { return g.f[f].name; }

static void locate_dev(Fiber *f)
{
	// devs sorted by (epoch, step); position at the first entry >= (epoch, ep_step) that is not a block decision
	f->next_dev = 0xffffffff;
	while (f->devpos < f->devs.size()) {
		Dev &d = f->devs[f->devpos];
		if (d.epoch < f->epoch || (d.epoch == f->epoch && d.step <= f->ep_step)) { f->devpos++; continue; }
		break;
	}
	for (size_t i = f->devpos; i < f->devs.size() && f->devs[i].epoch == f->epoch; i++)
		if (!f->devs[i].block) { f->next_dev = f->devs[i].step; break; }
}
static const Dev *find_dev(Fiber *f, int block)
{
	Dev key = { 0, f->epoch, f->ep_step, (u8) block, 0, 0 };
	auto it = std::lower_bound(f->devs.begin(), f->devs.end(), key, [](const Dev &a, const Dev &b) {
		return a.epoch != b.epoch ? a.epoch < b.epoch : a.step != b.step ? a.step < b.step : a.block < b.block; });
	if (it != f->devs.end() && it->epoch == f->epoch && it->step == f->ep_step && it->block == block) return &*it;
	return 0;
}
static void set_epoch(Fiber *f, u64 e) { f->epoch = e; f->ep_step = 0; if (g.replay) locate_dev(f); }
void op_begin(int id) { K k; Fiber *f = g.cur; set_epoch(f, (u64) id << 24); hupd(mix(f->id, id)); }

static void record_dev(Fiber *f, int block, int target, i64 stall)
{
	Result *r = g.res;
	if (r->ndev < MAXDEV) { Dev d = { f->id, f->epoch, f->ep_step, (u8) block, target, stall }; r->devs[r->ndev++] = d; }
}

static void recompute_deadline()
{
	i64 d = INT64_MAX;
	for (int i = 0; i < g.nf; i++) if (g.f[i].st == FS_BLOCK && g.f[i].deadline >= 0 && g.f[i].deadline < d) d = g.f[i].deadline;
	g.next_deadline = d;
}
void wake(Fiber *f)
{
	if (f->st != FS_BLOCK) return;
	f->st = FS_RUN; f->deadline = -1; f->wait_obj = 0;
	recompute_deadline();
}
static void wake_due()
{
	for (int i = 0; i < g.nf; i++) {
		Fiber *f = &g.f[i];
		if (f->st == FS_BLOCK && f->deadline >= 0 && f->deadline <= g.mono) { f->timed_out = true; f->st = FS_RUN; f->deadline = -1; f->wait_obj = 0; }
	}
	recompute_deadline();
}
void wake_obj(const void *obj, int n)
{
	// FIFO by wait_seq
	while (n) {
		Fiber *b = 0;
		for (int i = 0; i < g.nf; i++) { Fiber *f = &g.f[i]; if (f->st == FS_BLOCK && f->wait_obj == obj && (!b || f->wait_seq < b->wait_seq)) b = f; }
		if (!b) return;
		b->signalled = true; wake(b); n--;
	}
}

std::string where(int i)
{
	Fiber *f = &g.f[i]; char b[200];
	const char *s = f->st == FS_RUN ? "runnable" : f->st == FS_BLOCK ? (f->wait_what ? f->wait_what : "blocked") : f->st == FS_DONE ? "finished" : "frozen";
	snprintf(b, sizeof b, "%s(%d): %s", f->name, f->id, s); return b;
}
static std::string all_where()
{
	std::string s; for (int i = 0; i < g.nf; i++) if (g.f[i].st != FS_DONE) { if (s.size()) s += "; "; s += where(i); }
	return s;
}

static Fiber *pick_runnable(Fiber *f, bool include_self)
{
	// candidates in cyclic order after f
	Fiber *c[MAXF]; int n = 0;
	for (int k = 1; k <= g.nf; k++) { Fiber *x = &g.f[(f->id + k) % g.nf]; if (x->st == FS_RUN && (include_self || x != f)) c[n++] = x; }
	if (!n) return 0;
	if (g.mode == 2) { Fiber *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
	return c[g.rs.below(n)];
}
static Fiber *default_next(Fiber *f)
{
	for (int k = 1; k <= g.nf; k++) { Fiber *x = &g.f[(f->id + k) % g.nf]; if (x->st == FS_RUN && x != f) return x; }
	return f->st == FS_RUN ? f : 0;
}

static void check_time()
{
	if (g.mono > g.max_ns) violate("hang:time", "no end after %lld simulated seconds; %s", (long long)(g.mono / 1000000000), all_where().c_str());
}

// The current fiber cannot continue (or yields): choose who runs next.
static void reschedule(bool yield)
{
	Fiber *f = g.cur;
	f->ep_step++;
	if (g.mono >= g.next_deadline) wake_due();
	Fiber *t = 0;
	while (1) {
		Fiber *d = default_next(f);
		if (d) {
			t = d;
			if (g.replay) { const Dev *x = find_dev(f, 1); if (x && x->target >= 0 && x->target < g.nf && g.f[x->target].st == FS_RUN) t = &g.f[x->target]; }
			else if (g.mode != 0) {
				Fiber *r = pick_runnable(f, false);
				if (!r) r = f;
				if (g.mode == 2 || g.block_rand) t = r;
				if (t != d) record_dev(f, 1, t->id, 0);
			}
			break;
		}
		if (g.next_deadline == INT64_MAX)
			violate("deadlock", "nothing can run: %s", all_where().c_str());
		if (g.next_deadline > g.mono) g.mono = g.next_deadline;
		check_time();
		wake_due();
	}
	(void) yield;
	g.shash = mix(g.shash, mix((u64) f->id << 40 | f->ep_step, t->id)); hupd(mix(t->id, f->ep_step));
	if (t != f) { g.res->switches++; switch_to(t); }
}
void block(const char *what, const void *obj, i64 deadline)
{
	Fiber *f = g.cur;
	f->st = FS_BLOCK; f->deadline = deadline; f->wait_obj = obj; f->wait_what = what; f->signalled = false; f->timed_out = false;
	static u64 seq; f->wait_seq = ++seq; f->nblocks++;
	if (deadline >= 0 && deadline < g.next_deadline) g.next_deadline = deadline;
	reschedule(false);
	set_epoch(f, f->epoch + 1);
}
static void do_yield()
{
	reschedule(true);
	set_epoch(g.cur, g.cur->epoch + 1);
}

static void preempt(Fiber *f, Fiber *t, i64 stall, bool rec)
{
	if (!stall && (!t || t == f)) return;
	if (rec) record_dev(f, 0, t ? t->id : -1, stall);
	if (stall > 0) {
		f->st = FS_BLOCK; f->deadline = g.mono + stall; f->wait_obj = 0; f->wait_what = "stalled";
		recompute_deadline();
		g.res->fired[F_STALL]++;
		if (!t || t == f || t->st != FS_RUN) {
			// nobody else can run now: jump to whoever wakes first
			Fiber *d;
			while (!(d = default_next(f)) && g.next_deadline != INT64_MAX) { if (g.next_deadline > g.mono) g.mono = g.next_deadline; check_time(); wake_due(); }
			t = d ? d : f;
			if (f->st != FS_RUN && t == f) return;
		}
	}
	g.shash = mix(g.shash, mix((u64) f->id << 40 | f->ep_step, t->id + 100)); hupd(mix(t->id + 100, f->ep_step));
	if (t != f) { g.res->switches++; switch_to(t); }
}

static __attribute__((noinline)) void step_limit()
{
	Result *r = g.res; r->status = ST_LIMIT;
	snprintf(r->cls, sizeof r->cls, "limit:steps"); snprintf(r->msg, sizeof r->msg, "step limit; %s", all_where().c_str());
	r->hash = g.hash; r->sched_hash = g.shash; r->steps = g.steps; r->sim_ns = g.mono; r->events = g.events;
	violate("hang:steps", "no end after %llu steps; %s", (unsigned long long) g.steps, all_where().c_str());
}
static i64 geo() { return 1 + (i64)(g.rs.below(2 * (u64) g.p_den)); }

static __attribute__((noinline)) void crash_now()
{
	Fiber *f = g.cur; g.crash_step = 0; g.crashed = true; g.res->fired[F_CRASH]++;
	K k;
	hupd(0xc4a5);
	if (g.crash_cb) g.crash_cb();
	for (int i = 1; i < g.nf; i++) if (g.f[i].st == FS_RUN || g.f[i].st == FS_BLOCK) g.f[i].st = FS_FROZEN;
	wake(&g.f[0]);
	if (f->id != 0) switch_to(&g.f[0]);
}

// std::terminate in simulated code: the simulated process dies.
static std::string g_term; static int g_term_fiber = -1;
const std::string &terminated() { return g_term; }
int terminated_fiber() { return g_term_fiber; }
static void on_terminate()
{
	if (!g.cur || !g.active) abort();
	g.cur->quiet = g.cur->quiet > 0 ? g.cur->quiet : 1;
	{
		K k; g_term_fiber = g.cur->id;
		std::exception_ptr e = std::current_exception();
		if (!e) g_term = "no exception";
		else try { std::rethrow_exception(e); } catch (std::bad_alloc &) { g_term = "bad_alloc"; } catch (std::exception &x) { g_term = x.what(); } catch (...) { g_term = "unknown exception"; }
		logf("TERMINATE %s", g_term.c_str());
	}
	if (g.cur->id == 0) violate("crash:terminate", "std::terminate (%s)", g_term.c_str());
	if (!g.term_ok) violate("crash:terminate", "std::terminate (%s) in %s", g_term.c_str(), symbol(g.last_pc).c_str());
	crash_now();
	while (1) { K k; block("terminated", 0, -1); }
}
void allow_terminate(bool on) { g.term_ok = on; std::set_terminate(on_terminate); }

void point(int kind, void *pc, const char *what)
{
	Fiber *f = g.cur;
	f->ep_step++; f->nsteps++; f->since_switch++; g.steps++; g.mono += g.dt;
	if (pc) g.last_pc = pc;
	if (g.steps > g.max_steps) step_limit();
	if (g.mono >= g.next_deadline) { K k; wake_due(); }
	if (kind == 2) { hupd(mix(f->id, f->ep_step)); if (g.verbose) { K k; logf("%s", what); } }
	if (g.steps == g.crash_step) { { K k; record_dev(f, 0, -2, 0); } crash_now(); return; }
	if (g.replay) {
		if (f->ep_step == f->next_dev) {
			K k;
			const Dev *d = find_dev(f, 0);
			Dev dd; if (d) dd = *d;
			locate_dev(f);
			if (d) {
				if (dd.target == -2) { crash_now(); return; }
				Fiber *t = dd.target >= 0 && dd.target < g.nf && g.f[dd.target].st == FS_RUN ? &g.f[dd.target] : 0;
				preempt(f, t, dd.stall, false);
			}
		}
		if (f->since_switch > 3000000 && (f->since_switch & 0xfffff) == 0) { K k; Fiber *t = default_next(f); preempt(f, t, 0, false); }
		return;
	}
	bool sw = false;
	switch (g.mode) {
	case 0: break;
	case 1: sw = --g.cd <= 0; if (sw) g.cd = geo(); break;
	case 2:
		if (g.pctpos < g.pct.size() && g.steps >= g.pct[g.pctpos]) { g.pctpos++; f->prio = --g.pct_low; sw = true; }
		else if (f->since_switch > 60000) { f->prio = --g.pct_low; f->since_switch = 0; sw = true; }
		else { for (int i = 0; i < g.nf; i++) if (g.f[i].st == FS_RUN && g.f[i].prio > f->prio) { sw = true; break; } }
		break;
	case 3: if (kind == 1) sw = g.rs.below(g.q_den) == 0; else if (kind == 2) sw = g.rs.below(2 * g.q_den) == 0; if (!sw && --g.cd <= 0) { sw = true; g.cd = geo(); } break;
	case 4: if (kind == 2) sw = g.rs.below(g.q_den) == 0; break;
	}
	if (!sw && f->since_switch > 200000) { f->since_switch = 0; sw = true; }
	if (g.eng_den && f->sut && --g.eng_cd <= 0) {         // hogl's own threads lose the CPU for a while, wherever they are
		K k; g.eng_cd = 1 + (i64) g.rs.below(2 * (u64) g.eng_den);
		preempt(f, pick_runnable(f, g.mode == 2), 1 + (i64) g.rs.below(g.eng_max), true);
		return;
	}
	if (sw) {
		K k;
		Fiber *t = pick_runnable(f, g.mode == 2);
		i64 stall = 0;
		if (g.stall_pm && g.rs.below(1000) < g.stall_pm) stall = 1 + (i64) g.rs.below(g.stall_max);
		if (t || stall) preempt(f, t, stall, true);
	}
}
void sync_enter(const char *what)
{
	if (!live()) return;
	if (g.cur->quiet) return;
	g.last_pc = 0;
	point(2, 0, what);
}

// ---- memory access hook ---------------------------------------------------------------------------
enum { AT = 1 << 14 };
struct Acc { u64 addr; u32 pc; u8 fiber; u8 wr; };
static Acc acc_tab[AT];

static inline void hook(const void *a, unsigned sz, bool wr, void *pc, int vol)
{
	Fiber *f = g.cur;
	if (!f || f->quiet || g.in_kernel) return;
	if ((u64) a - (u64) f->stk_lo < f->stk_sz) return;
	if ((u64) a - (u64) g.tls_lo < g.tls_sz) return;
	g.last_pc = pc;
	if (in_sut(a) && !shadow_ok((const u8 *) a, sz)) bad_access(a, sz, wr, pc);
	int kind = 0;
	Acc &e = acc_tab[((u64) a >> 3) & (AT - 1)];
	u64 key = (u64) a >> 3;
	if (e.addr == key) {
		if (e.fiber != f->id && (wr || e.wr)) {
			kind = 1;
			u64 h = mix(e.pc, (u64)(u32)(u64) pc) & (COVSZ * 8 - 1);
			g.res->cov[h >> 3] |= 1 << (h & 7);
		}
		if (e.fiber != f->id || wr || !e.wr) { e.fiber = f->id; e.wr = wr; e.pc = (u32)(u64) pc; }
	} else { e.addr = key; e.fiber = f->id; e.wr = wr; e.pc = (u32)(u64) pc; }
	if (vol && !kind) kind = 1;
	point(kind, pc, "mem");
	// the world may have changed while we were switched out
	if (in_sut(a) && !shadow_ok((const u8 *) a, sz)) bad_access(a, sz, wr, pc);
}
void access_range(const void *p, size_t n, bool wr, void *pc)
{
	if (!n || !loud()) return;
	hook(p, 1, wr, pc, 0);
	if (in_sut(p)) for (size_t i = 0; i < n; i += 8) { unsigned c = n - i < 8 ? n - i : 8; const u8 *a = (const u8 *) p + i; for (unsigned j = 0; j < c; j += (c - j > 1 ? c - 1 : 1)) { if (!shadow_ok(a + j, 1)) bad_access(a + j, 1, wr, pc); if (c == 1) break; if (j == c - 1) break; } }
}

// ---- violations, ending a run ------------------------------------------------------------------------
static __attribute__((noreturn)) void end_run()
{
	Result *r = g.res;
	r->hash = g.hash; r->sched_hash = g.shash; r->steps = g.steps; r->sim_ns = g.mono; r->events = g.events;
	_exit(0);
}
void violate(const char *cls, const char *fmt, ...)
{
	g.in_kernel++;
	Result *r = g.res;
	if (!r) { va_list ap; va_start(ap, fmt); char b[1000]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); raw_out(cls, strlen(cls)); raw_out(": ", 2); raw_out(b, n); raw_out("\n", 1); _exit(96); }
	r->status = ST_VIOL;
	snprintf(r->cls, sizeof r->cls, "%s", cls);
	va_list ap; va_start(ap, fmt);
	vsnprintf(r->msg, sizeof r->msg, fmt, ap);
	va_end(ap);
	if (g.verbose) { raw_out("VIOLATED ", 9); raw_out(r->cls, strlen(r->cls)); raw_out(": ", 2); raw_out(r->msg, strlen(r->msg)); raw_out("\n", 1); }
	hupd(mix(0xbad, r->cls[0]));
	end_run();
}
void finish() { g.in_kernel++; g.res->status = ST_OK; end_run(); }
void probe(const char *name)
{
	Result *r = g.res;
	for (int i = 0; i < r->nprobe; i++) if (!strcmp(r->probes[i].name, name)) { r->probes[i].n++; return; }
	if (r->nprobe < MAXPROBE) { snprintf(r->probes[r->nprobe].name, 40, "%s", name); r->probes[r->nprobe++].n = 1; }
}
void logf(const char *fmt, ...)
{
	if (!g.verbose) return;
	K k;
	char b[2000]; int n = g.cur ? snprintf(b, 100, "%10.3fus %-12s e%llx.%u | ", g.mono / 1000.0, g.cur->name, (unsigned long long) g.cur->epoch, g.cur->ep_step) : 0;
	va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
	if (n > (int) sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n'; raw_out(b, n);
}
std::string symbol(void *pc)
{
	Dl_info i; char b[64];
	if (pc && dladdr(pc, &i) && i.dli_sname) {
		int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st);
		std::string s = d ? d : i.dli_sname; if (d) free(d);
		return s;
	}
	snprintf(b, sizeof b, "pc %p", pc); return b;
}
static void on_signal(int sig, siginfo_t *si, void *uc_)
{
	ucontext_t *uc = (ucontext_t *) uc_;
	g.in_kernel++;
	void *pc = (void *) uc->uc_mcontext.gregs[REG_RIP];
	const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "cpu-time" : "signal";
	char cls[64]; snprintf(cls, sizeof cls, "%s:%s", sig == SIGPROF ? "hang" : "crash", n);
	bool stk = false;
	if (sig == SIGSEGV) for (int i = 0; i < g.nf; i++) if ((u64) si->si_addr - ((u64) g.f[i].stk_lo - 4096) < 4096) stk = true;
	violate(cls, "%s%s in thread %s at %s (last hogl code: %s)", n, stk ? " (stack overflow)" : "", g.cur ? g.cur->name : "?", symbol(pc).c_str(), symbol(g.last_pc).c_str());
}

// ---- fiber lifecycle -----------------------------------------------------------------------------------
static Fiber *new_fiber(const char *name)
{
	if (g.nf >= MAXF) return 0;
	Fiber *f = &g.f[g.nf];
	f->id = g.nf++; snprintf(f->nm, sizeof f->nm, "%s", name); f->name = f->nm;
	f->stk_sz = STK_SZ - 8192; f->stk_lo = STK_LO + f->id * STK_SZ + 8192;
	mapfix(f->stk_lo, f->stk_sz);
	f->tls = (u8 *) h_alloc(g.tls_sz, 16); memset(f->tls, 0, g.tls_sz); memcpy(f->tls, tls_init_img, tls_init_sz);
	f->err = 0; f->quiet = 1; f->deadline = -1; f->epoch = 0; f->ep_step = 0; f->next_dev = 0xffffffff;
	f->prio = 1000000 + g.rs.below(1000000);
	if (g.replay) { for (auto &d : g.plan.devs) if (d.fiber == f->id) f->devs.push_back(d);
		std::stable_sort(f->devs.begin(), f->devs.end(), [](const Dev &a, const Dev &b) { return a.epoch != b.epoch ? a.epoch < b.epoch : a.step != b.step ? a.step < b.step : a.block < b.block; });
		locate_dev(f); }
	void **s = (void **)(f->stk_lo + f->stk_sz - 64);
	*--s = 0; *--s = (void *) fiber_main;   // return address; alignment: at entry rsp%16==8
	for (int i = 0; i < 6; i++) *--s = 0;
	f->sp = s; f->st = FS_RUN;
	return f;
}
static void run_dtors(Fiber *f)
{
	while (!f->dtors.empty()) { Fiber::Dtor d = f->dtors.back(); f->dtors.pop_back(); int ik = g.in_kernel; g.in_kernel = 0; d.f(d.o); g.in_kernel = ik; }
}
static void (*key_dtor[64])(void *); static int nkeys;
static void fiber_end()
{
	Fiber *f = g.cur;
	run_dtors(f);
	for (int r = 0; r < 4; r++) for (int i = 0; i < nkeys; i++) if (f->keys[i] && key_dtor[i]) { void *v = f->keys[i]; f->keys[i] = 0; int ik = g.in_kernel; g.in_kernel = 0; key_dtor[i](v); g.in_kernel = ik; }
	f->st = FS_DONE;
	for (int i = 0; i < g.nf; i++) if (g.f[i].st == FS_BLOCK && g.f[i].join_wait == f->id + 1) wake(&g.f[i]);
	reschedule(false);
	abort();
}
static void fiber_main()
{
	Fiber *f = g.cur;
	g.in_kernel = 0;
	if (f->start) { f->ret = f->start(f->arg); g.in_kernel = 1; }
	else { f->fn(); g.in_kernel = 1; }
	fiber_end();
}
int spawn(const char *name, std::function<void()> fn)
{
	K k; Fiber *f = new_fiber(name); if (!f) violate("harness:fibers", "too many threads");
	f->fn = fn; return f->id;
}
bool done(int i) { return g.f[i].st == FS_DONE; }
static bool join_fiber(int i, i64 deadline)
{
	Fiber *f = &g.f[i], *me = g.cur;
	while (f->st != FS_DONE) {
		if (deadline >= 0 && g.mono >= deadline) return false;
		if (g.crashed) return false;
		me->join_wait = i + 1; block("join", 0, deadline); me->join_wait = 0;
	}
	return true;
}
bool join(int i, i64 timeout) { K k; return join_fiber(i, timeout < 0 ? -1 : g.mono + timeout); }
void sleep_ns(i64 ns) { K k; i64 d = g.mono + (ns < 1 ? 1 : ns); do { block("sleep", 0, d); } while (g.mono < d && !g.crashed); }
void yield_point() { K k; do_yield(); }
bool wait_until(std::function<bool()> pred, i64 timeout, i64 poll)
{
	i64 end = g.mono + timeout;
	while (1) { { K k; if (pred()) return true; } if (g.mono >= end || g.crashed) return false; sleep_ns(poll); }
}
int sut_threads() { int n = 0; for (int i = 0; i < g.nf; i++) if (g.f[i].sut && (g.f[i].st == FS_RUN || g.f[i].st == FS_BLOCK)) n++; return n; }
int sut_threads_created() { return g.sut_created; }
int last_sut_fiber() { for (int i = g.nf; i-- > 0;) if (g.f[i].sut) return i; return -1; }
void freeze_sut() { K k; for (int i = 0; i < g.nf; i++) if (&g.f[i] != g.cur && (g.f[i].st == FS_RUN || g.f[i].st == FS_BLOCK) && g.f[i].id) g.f[i].st = FS_FROZEN; recompute_deadline(); }
void freeze_fiber(int i) { K k; if (g.f[i].st == FS_RUN || g.f[i].st == FS_BLOCK) g.f[i].st = FS_FROZEN; recompute_deadline(); }
void stall_fiber(int i, i64 ns)
{
	K k; Fiber *f = &g.f[i];
	if (f == g.cur) return;
	if (f->st == FS_RUN) { f->st = FS_BLOCK; f->deadline = g.mono + ns; f->wait_what = "stalled"; f->wait_obj = 0; recompute_deadline(); g.res->fired[F_STALL]++; }
}
void sut_enter() { g.cur->quiet--; }
void sut_leave() { g.cur->quiet++; }
void quiet_enter() { if (g.cur) g.cur->quiet++; }
void quiet_leave() { if (g.cur) g.cur->quiet--; }
Usage usage() { Fiber *f = g.cur; Usage u = { f->nsteps, f->n_sys, f->n_lock, f->n_alloc, f->n_sleep, f->nblocks }; return u; }

// ---- faults ---------------------------------------------------------------------------------------------
bool faults_enabled() { return g.faults_on; }
void enable_faults(bool on) { g.faults_on = on; }
u64 fault_count(int k) { return g.res->fired[k]; }
i64 fault(int kind, i64 lo, i64 hi)
{
	if (!g.cur || !g.faults_on) return -1;
	K k;
	u64 n = ++g.fcount[kind];
	i64 v = -1; bool hit = false;
	if (g.replay) { auto it = g.freplay.find(std::make_pair(kind, n)); if (it != g.freplay.end()) { hit = true; v = it->second; if (v < lo) v = lo; if (v > hi) v = hi; } }
	else if (g.frate[kind] && g.rf.below(1000000) < g.frate[kind]) { hit = true; v = lo + (i64) g.rf.below((u64)(hi - lo + 1)); }
	if (!hit) return -1;
	g.res->fired[kind]++;
	if (g.res->nfr < MAXFR) { FaultRec fr = { kind, n, v }; g.res->frs[g.res->nfr++] = fr; }
	hupd(mix(kind + 1000, n));
	logf("FAULT %s #%llu param %lld", fault_names[kind], (unsigned long long) n, (long long) v);
	return v < 0 ? 0 : v;
}
void force_crash_cb(std::function<void()> cb) { g.crash_cb = cb; }
void crash_after(u64 n) { g.crash_step = n && !g.replay ? g.steps + n : 0; }
void crash_soon() { if (!g.replay) g.crash_step = g.steps + 1; }
bool crashed() { return g.crashed; }
void crash_clear() { g.crashed = false; g.crash_step = 0; }

// ---- scenarios --------------------------------------------------------------------------------------------
static std::vector<const Scenario *> &scens() { static std::vector<const Scenario *> *v = new std::vector<const Scenario *>; return *v; }
void register_scenario(const Scenario *s) { scens().push_back(s); }
const Scenario *find_scenario(const std::string &n) { for (auto s : scens()) if (n == s->name) return s; return 0; }
std::vector<const Scenario *> scenarios_for(const std::string &p)
{
	std::vector<const Scenario *> r;
	for (auto s : scens()) { std::string t = std::string(" ") + s->props + " "; if (t.find(" " + p + " ") != t.npos) r.push_back(s); }
	std::sort(r.begin(), r.end(), [](const Scenario *a, const Scenario *b) { return strcmp(a->name, b->name) < 0; });
	return r;
}

static u8 *h_boot;
// What a core dump would hold: heap, data and (if asked) read-only data of the process, page by page.
void memory_image(std::vector<Segment> &out, bool ro)
{
	K k;
	auto add = [&](const u8 *lo, const u8 *hi, int kind) { lo = (const u8 *)((u64) lo & ~4095ULL); hi = (const u8 *)(((u64) hi + 4095) & ~4095ULL); if (hi > lo) { Segment s; s.vma = (u64) lo; s.size = hi - lo; s.kind = kind; s.data = std::string((const char *) lo, hi - lo); out.push_back(s); } };
	struct Ctx { bool ro; std::vector<std::pair<const u8 *, const u8 *> > r; std::vector<int> k; } c; c.ro = ro;
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) { Ctx *c = (Ctx *) v; for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || (h.p_flags & PF_X)) continue; bool w = h.p_flags & PF_W; if (!w && !c->ro) continue; const u8 *a = (const u8 *)(i->dlpi_addr + h.p_vaddr); c->r.push_back(std::make_pair(a, a + h.p_memsz)); c->k.push_back(w ? SEG_DATA : SEG_RO); } return 1; }, &c);
	for (size_t i = 0; i < c.r.size(); i++) add(c.r[i].first, c.r[i].second, c.k[i]);
	add(SUT_LO + 4096, sut_top, SEG_HEAP); add(HRN_LO, h_boot, SEG_HEAP);
}

void kernel_init() { h_boot = hrn_top; (void) tls_probe; dl_iterate_phdr(phdr_cb, 0); if ((u8 *) &tls_probe < g.tls_lo || (u8 *) &tls_probe >= g.tls_lo + g.tls_sz || tls_probe != 0x51) { static const char m[] = "hsim: TLS block not found\n"; raw_out(m, sizeof(m) - 1); _exit(97); } }

static void child_main()
{
	const Scenario *s = find_scenario(g.plan.scen);
	if (!s) violate("harness:scenario", "unknown scenario %s", g.plan.scen.c_str());
	s->run(g.plan);
	finish();
}

void run_child(const Plan &p, Result *r, bool verbose)
{
	g.in_kernel = 1;
	r->status = ST_RUNNING; r->cls[0] = r->msg[0] = 0; r->ndev = r->nfr = 0; r->nprobe = 0; r->switches = 0; memset(r->fired, 0, sizeof r->fired);
	g.plan = p; g.res = r; g.verbose = verbose; g.replay = p.replay;
	const Plan &q = g.plan;
	g.rs = Rng(mix(p.seed, 11)); g.rf = Rng(mix(p.seed, 22));
	g.mono = 1000000000; g.off = 1700000000000000000LL + (i64)(mix(p.seed, 33) % 1000000000ULL) * 1000 + q.k("epoch_off", 0);
	g.dt = q.k("dt_ns", 20); g.gran = q.k("gran_ns", 1); g.next_deadline = INT64_MAX;
	g.max_steps = q.k("max_steps", 20000000); g.max_ns = g.mono + q.k("max_s", 3600) * 1000000000LL;
	g.mode = q.k("sched", 0); if (p.replay) g.mode = 0;
	g.p_den = q.k("p_den", 50); if (!g.p_den) g.p_den = 1; g.q_den = q.k("q_den", 4); if (!g.q_den) g.q_den = 1;
	g.stall_pm = q.k("stall_pm", 0); g.stall_max = q.k("stall_max", 1000000); if (g.stall_max < 1) g.stall_max = 1; g.block_rand = q.k("block_rand", 1);
	g.eng_den = q.k("eng_stall", 0); g.eng_max = q.k("eng_stall_max", 1000000); if (g.eng_max < 1) g.eng_max = 1; g.eng_cd = g.eng_den ? 1 + (i64) g.rs.below(2 * (u64) g.eng_den) : 0;
	g.cd = geo();
	g.hash = g.shash = 7; g.steps = g.events = 0;
	g.crash_step = p.replay ? 0 : q.k("crash_at", 0);
	for (int i = 0; i < F_NKINDS; i++) { std::string n = std::string("f.") + fault_names[i]; g.frate[i] = q.k(n.c_str(), 0); }
	for (auto &f : p.faults) g.freplay[std::make_pair(f.kind, f.nth)] = f.param;
	if (g.mode == 2) {
		int d = q.k("pct_d", 3); u64 len = q.k("pct_len", 20000);
		g.pct_low = 1000; for (int i = 0; i < d; i++) g.pct.push_back(1 + g.rs.below(len)); std::sort(g.pct.begin(), g.pct.end());
	}
	static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGPROF }; for (int s : sigs) sigaction(s, &sa, 0);
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = q.k("cpu_s", 20); setitimer(ITIMER_PROF, &it, 0);
	g.keep_freed = q.k("keep_freed");
	vfs_reset();
	g.active = true;
	Fiber *f = new_fiber("main"); f->fn = child_main;
	static Fiber boot; boot.tls = (u8 *) h_alloc(g.tls_sz, 16); 
	tls_swap(0, f); g.cur = f;
	void *dummy; hsim_switch(&dummy, f->sp);
	_exit(95);
}
} // namespace sim

using namespace sim;

// ====================================================================================================
// __tsan_* runtime
// ====================================================================================================
#define PC __builtin_return_address(0)
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(n) \
EXP void __tsan_read##n(void *a) { hook(a, n, false, PC, 0); } \
EXP void __tsan_write##n(void *a) { hook(a, n, true, PC, 0); } \
EXP void __tsan_read##n##_pc(void *a, void *pc) { hook(a, n, false, pc, 0); } \
EXP void __tsan_write##n##_pc(void *a, void *pc) { hook(a, n, true, pc, 0); } \
EXP void __tsan_read_write##n(void *a) { hook(a, n, true, PC, 0); } \
EXP void __tsan_volatile_read##n(void *a) { hook(a, n, false, PC, 1); } \
EXP void __tsan_volatile_write##n(void *a) { hook(a, n, true, PC, 1); } \
EXP void __tsan_unaligned_volatile_read##n(void *a) { hook(a, n, false, PC, 1); } \
EXP void __tsan_unaligned_volatile_write##n(void *a) { hook(a, n, true, PC, 1); } \
EXP void __tsan_unaligned_read##n(void *a) { hook(a, n, false, PC, 0); } \
EXP void __tsan_unaligned_write##n(void *a) { hook(a, n, true, PC, 0); } \
EXP void __tsan_unaligned_read_write##n(void *a) { hook(a, n, true, PC, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_vptr_update(void *a, void *) { hook(a, 8, true, PC, 0); }
EXP void __tsan_vptr_read(void *a) { hook(a, 8, false, PC, 0); }
EXP void __tsan_read_range(void *a, unsigned long n) { access_range(a, n, false, PC); }
EXP void __tsan_write_range(void *a, unsigned long n) { access_range(a, n, true, PC); }

// Block operations may be interrupted half way: copy in two pieces with a scheduling point between them.
static void *sim_memcpy(void *d, const void *s, size_t n, void *pc, bool mv)
{
	if (!n || !loud()) return mv ? memmove(d, s, n) : memcpy(d, s, n);
	access_range(s, n, false, pc); access_range(d, n, true, pc);
	if (mv && ((u8 *) d < (const u8 *) s + n && (const u8 *) s < (u8 *) d + n)) return memmove(d, s, n);
	size_t h = n / 2;
	memcpy(d, s, h);
	if (h) { hook((u8 *) d + h, 1, true, pc, 0); access_range(s, n, false, 0); access_range(d, n, true, 0); }
	memcpy((u8 *) d + h, (const u8 *) s + h, n - h);
	return d;
}
EXP void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n, PC, false); }
EXP void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n, PC, true); }
EXP void *__tsan_memset(void *d, int c, size_t n) { access_range(d, n, true, PC); return memset(d, c, n); }

#define AT_PT(a, sz, wr) hook((const void *) a, sz, wr, PC, 1)
#define ATOMICS(bits, T) \
EXP T __tsan_atomic##bits##_load(const volatile T *a, int) { AT_PT(a, bits / 8, false); return *a; } \
EXP void __tsan_atomic##bits##_store(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); *a = v; } \
EXP T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = v; return o; } \
EXP T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = o + v; return o; } \
EXP T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = o - v; return o; } \
EXP T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = o & v; return o; } \
EXP T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = o | v; return o; } \
EXP T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = o ^ v; return o; } \
EXP T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { AT_PT(a, bits / 8, true); T o = *a; *a = ~(o & v); return o; } \
EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { AT_PT(a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { AT_PT(a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { AT_PT(a, bits / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
EXP void __tsan_atomic_thread_fence(int) {}
EXP void __tsan_atomic_signal_fence(int) {}

// ====================================================================================================
// allocator
// ====================================================================================================
EXP void *malloc(size_t n) { return do_alloc(n, 16); }
EXP void free(void *p) { do_free(p); }
EXP void cfree(void *p) { do_free(p); }
EXP void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } void *p = do_alloc(n, 16); if (p) memset(p, 0, n); return p; }
EXP void *realloc(void *p, size_t n)
{
	if (!p) return do_alloc(n, 16);
	if (!n) { do_free(p); return 0; }
	void *q = do_alloc(n, 16); if (!q) return 0;
	size_t o = usable(p); memcpy(q, p, o < n ? o : n); do_free(p); return q;
}
EXP void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } return realloc(p, n); }
EXP int posix_memalign(void **o, size_t al, size_t n) { int e = errno; void *p = do_alloc(n, al); errno = e; if (!p) return ENOMEM; *o = p; return 0; }
EXP void *aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
EXP void *memalign(size_t al, size_t n) { return do_alloc(n, al); }
EXP void *valloc(size_t n) { return do_alloc(n, 4096); }
EXP size_t malloc_usable_size(void *p) { return p ? usable(p) : 0; }

// ====================================================================================================
// pthread
// ====================================================================================================
namespace {
enum { MU_MAGIC = 0x4d555458, CV_MAGIC = 0x434f4e44, RW_MAGIC = 0x52574c4b, DEADM = 0x0defaced };
struct SMutex { u32 magic; int owner; u32 count; u32 pad; int kind; };
struct SCond { u32 magic; int clock; };
struct SRw { u32 magic; int writer; u32 readers; };

void chk(const void *o, size_t n, const char *what) { if (in_sut(o) && !g.cur->quiet && !addressable(o, n)) { (void) what; bad_access(o, n > 8 ? 8 : n, true, g.last_pc); } }
SMutex *mu(pthread_mutex_t *m, const char *what, void *pc)
{
	g.last_pc = pc;
	SMutex *s = (SMutex *) m; chk(s, sizeof *s, what);
	if (s->magic == 0) { s->magic = MU_MAGIC; s->owner = 0; s->count = 0; }
	if (s->magic != MU_MAGIC) violate("sync:bad-mutex", "%s on a mutex that is %s in %s", what, s->magic == DEADM ? "destroyed" : "not initialised", symbol(pc).c_str());
	return s;
}
bool mu_try(SMutex *s) { int me = g.cur->id + 1; if (!s->owner) { s->owner = me; s->count = 1; return true; } if (s->owner == me && s->kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; return true; } return false; }
int mu_lock(pthread_mutex_t *m, i64 dl, void *pc)
{
	SMutex *s = mu(m, "lock", pc);
	if (s->owner == g.cur->id + 1 && s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	while (!mu_try(s)) {
		if (s->owner == g.cur->id + 1) { if (dl < 0) violate("deadlock:self", "thread %s locks a mutex it holds in %s", g.cur->name, symbol(pc).c_str()); }
		if (dl >= 0 && g.mono >= dl) return ETIMEDOUT;
		block("waiting for a mutex", m, dl);
		s = mu(m, "lock", pc);
	}
	return 0;
}
void mu_unlock(pthread_mutex_t *m, void *pc)
{
	SMutex *s = mu(m, "unlock", pc);
	if (s->owner != g.cur->id + 1) violate("sync:unlock", "unlock of a mutex not held by the caller in %s", symbol(pc).c_str());
	if (--s->count) return;
	s->owner = 0; wake_obj(m, 1000);
}
i64 abs_to_mono(const struct timespec *t, int clk) { i64 v = (i64) t->tv_sec * 1000000000 + t->tv_nsec; i64 d = clk == CLOCK_REALTIME ? v - g.off : v; return d < 0 ? 0 : d; }
bool sim_on() { return g.cur && g.active; }
}
#define LK(what) if (!g.cur->quiet && !g.in_kernel) { g.cur->n_lock++; point(2, PC, what); } K k_

EXP int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (sim_on() && loud() && (armed(F_MUTEXINIT) || fault(F_MUTEXINIT) >= 0)) return EAGAIN;
	memset((void *) m, 0, sizeof *m); SMutex *s = (SMutex *) m; s->magic = MU_MAGIC; int t = 0; if (a) pthread_mutexattr_gettype(a, &t); s->kind = t; return 0;
}
EXP int pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!sim_on()) return 0;
	K k; SMutex *s = mu(m, "destroy", PC); if (s->owner) violate("sync:destroy-locked", "a locked mutex is destroyed in %s", symbol(PC).c_str()); s->magic = DEADM; return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t *m) { if (!sim_on()) return 0; LK("mutex_lock"); return mu_lock(m, -1, PC); }
EXP int pthread_mutex_trylock(pthread_mutex_t *m) { if (!sim_on()) return 0; LK("mutex_trylock"); return mu_try(mu(m, "trylock", PC)) ? 0 : EBUSY; }
EXP int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { if (!sim_on()) return 0; LK("mutex_timedlock"); return mu_lock(m, abs_to_mono(t, CLOCK_REALTIME), PC); }
EXP int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { if (!sim_on()) return 0; LK("mutex_clocklock"); return mu_lock(m, abs_to_mono(t, c), PC); }
EXP int pthread_mutex_unlock(pthread_mutex_t *m) { if (!sim_on()) return 0; { LK("mutex_unlock"); mu_unlock(m, PC); } return 0; }

EXP int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	memset((void *) c, 0, sizeof *c); SCond *s = (SCond *) c; s->magic = CV_MAGIC; clockid_t k = 0; if (a) pthread_condattr_getclock(a, &k); s->clock = k; return 0;
}
static SCond *cv(pthread_cond_t *c, const char *what, void *pc)
{
	g.last_pc = pc; SCond *s = (SCond *) c; chk(s, sizeof *s, what);
	if (!s->magic) s->magic = CV_MAGIC;
	if (s->magic != CV_MAGIC) violate("sync:bad-cond", "%s on a condition that is %s in %s", what, s->magic == DEADM ? "destroyed" : "not initialised", symbol(pc).c_str());
	return s;
}
EXP int pthread_cond_destroy(pthread_cond_t *c) { if (!sim_on()) return 0; K k; cv(c, "destroy", PC)->magic = DEADM; return 0; }
EXP int pthread_cond_signal(pthread_cond_t *c) { if (!sim_on()) return 0; LK("cond_signal"); cv(c, "signal", PC); wake_obj(c, 1); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t *c) { if (!sim_on()) return 0; LK("cond_broadcast"); cv(c, "broadcast", PC); wake_obj(c, 1000); return 0; }
static int cv_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 dl, void *pc)
{
	cv(c, "wait", pc);
	mu_unlock(m, pc);
	i64 sp = g.cur->quiet ? -1 : fault(F_SPURIOUS, 1, 3000000);
	i64 d = dl; if (sp >= 0 && (d < 0 || g.mono + sp < d)) d = g.mono + sp; else sp = -1;
	block("waiting for a condition", c, d);
	bool to = !g.cur->signalled && sp < 0 && dl >= 0;
	mu_lock(m, -1, pc);
	return to ? ETIMEDOUT : 0;
}
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!sim_on()) return 0; LK("cond_wait"); return cv_wait(c, m, -1, PC); }
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!sim_on()) return 0; LK("cond_timedwait"); return cv_wait(c, m, abs_to_mono(t, cv(c, "wait", PC)->clock), PC); }
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t cl, const struct timespec *t) { if (!sim_on()) return 0; LK("cond_clockwait"); return cv_wait(c, m, abs_to_mono(t, cl), PC); }

EXP int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset((void *) l, 0, sizeof *l); ((SRw *) l)->magic = RW_MAGIC; return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static SRw *rw(pthread_rwlock_t *l) { SRw *s = (SRw *) l; chk(s, sizeof *s, "rwlock"); if (!s->magic) s->magic = RW_MAGIC; if (s->magic != RW_MAGIC) violate("sync:bad-rwlock", "rwlock not initialised"); return s; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!sim_on()) return 0; LK("rdlock"); while (rw(l)->writer) block("waiting for a rwlock", l, -1); rw(l)->readers++; return 0; }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!sim_on()) return 0; LK("tryrdlock"); if (rw(l)->writer) return EBUSY; rw(l)->readers++; return 0; }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!sim_on()) return 0; LK("wrlock"); while (rw(l)->writer || rw(l)->readers) block("waiting for a rwlock", l, -1); rw(l)->writer = g.cur->id + 1; return 0; }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!sim_on()) return 0; LK("trywrlock"); if (rw(l)->writer || rw(l)->readers) return EBUSY; rw(l)->writer = g.cur->id + 1; return 0; }
EXP int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!sim_on()) return 0; LK("rwunlock"); SRw *s = rw(l); if (s->writer) s->writer = 0; else if (s->readers) s->readers--; wake_obj(l, 1000); return 0; }

EXP int pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *) l = 0; return 0; }
EXP int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
EXP int pthread_spin_lock(pthread_spinlock_t *l) { if (!sim_on()) return 0; LK("spin_lock"); while (*(volatile int *) l) block("waiting for a spin lock", (void *) l, -1); *(volatile int *) l = 1; return 0; }
EXP int pthread_spin_trylock(pthread_spinlock_t *l) { if (!sim_on()) return 0; LK("spin_trylock"); if (*(volatile int *) l) return EBUSY; *(volatile int *) l = 1; return 0; }
EXP int pthread_spin_unlock(pthread_spinlock_t *l) { if (!sim_on()) return 0; LK("spin_unlock"); *(volatile int *) l = 0; wake_obj((void *) l, 1000); return 0; }

EXP int sem_init(sem_t *s, int, unsigned v) { *(unsigned *) s = v; return 0; }
EXP int sem_destroy(sem_t *) { return 0; }
EXP int sem_post(sem_t *s) { if (!sim_on()) return 0; LK("sem_post"); chk(s, 4, "sem"); ++*(unsigned *) s; wake_obj(s, 1000); return 0; }
static int sem_w(sem_t *s, i64 dl) { while (1) { chk(s, 4, "sem"); if (*(unsigned *) s) { --*(unsigned *) s; return 0; } if (dl >= 0 && g.mono >= dl) { errno = ETIMEDOUT; return -1; } block("waiting for a semaphore", s, dl); } }
EXP int sem_wait(sem_t *s) { if (!sim_on()) return 0; LK("sem_wait"); return sem_w(s, -1); }
EXP int sem_trywait(sem_t *s) { if (!sim_on()) return 0; LK("sem_trywait"); if (*(unsigned *) s) { --*(unsigned *) s; return 0; } errno = EAGAIN; return -1; }
EXP int sem_timedwait(sem_t *s, const struct timespec *t) { if (!sim_on()) return 0; LK("sem_timedwait"); return sem_w(s, abs_to_mono(t, CLOCK_REALTIME)); }
EXP int sem_getvalue(sem_t *s, int *v) { *v = *(unsigned *) s; return 0; }

EXP int pthread_once(pthread_once_t *o, void (*fn)(void))
{
	volatile int *v = (volatile int *) o;
	if (*v == 2) return 0;
	if (!sim_on()) { *v = 2; fn(); return 0; }
	while (*v == 1) { K k; block("waiting for once", (void *) o, -1); }
	if (*v == 2) return 0;
	*v = 1; fn(); *v = 2; { K k; wake_obj((void *) o, 1000); } return 0;
}
EXP int pthread_key_create(pthread_key_t *key, void (*d)(void *)) { if (nkeys >= 64) return EAGAIN; key_dtor[nkeys] = d; *key = nkeys++; return 0; }
EXP int pthread_key_delete(pthread_key_t key) { if (key < 64) key_dtor[key] = 0; return 0; }
static void *boot_keys[64];
EXP void *pthread_getspecific(pthread_key_t key) { return key < 64 ? (g.cur ? g.cur->keys[key] : boot_keys[key]) : 0; }
EXP int pthread_setspecific(pthread_key_t key, const void *v) { if (key >= 64) return EINVAL; (g.cur ? g.cur->keys : boot_keys)[key] = (void *) v; return 0; }
EXP int __cxa_thread_atexit(void (*f)(void *), void *o, void *) { if (g.cur) { K k; Fiber::Dtor d = { f, o }; g.cur->dtors.push_back(d); } return 0; }

static std::vector<void (*)()> exit_fns;
extern "C" int __cxa_atexit(void (*)(void *), void *, void *);
EXP int atexit(void (*f)(void)) { if (!sim_on()) return __cxa_atexit((void (*)(void *)) f, 0, 0); K k; exit_fns.push_back(f); return 0; }
// exit() called by code under test (the command line tools): the calling thread stops for good, the scenario sees the code.
static int exit_code = -1;
EXP void exit(int c)
{
	if (!sim_on()) { static void (*real)(int); if (!real) real = (void (*)(int)) dlsym(RTLD_NEXT, "exit"); real(c); abort(); }
	exit_code = c;
	while (1) { K k; block("exited", 0, -1); }
}
namespace sim { int sut_exit_code() { return exit_code; } int run_exit_handlers() { int n = 0; while (exit_fns.size()) { auto f = exit_fns.back(); exit_fns.pop_back(); n++; sut_enter(); f(); sut_leave(); } return n; } }

EXP int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	if (!sim_on()) return EAGAIN;
	if (loud()) { g.cur->n_sys++; point(2, PC, "pthread_create"); }
	K k;
	if (!g.cur->quiet && (armed(F_THREAD) || fault(F_THREAD) >= 0)) return EAGAIN;
	char nm[32]; snprintf(nm, sizeof nm, "sut%llu", (unsigned long long) g.sut_created);
	Fiber *f = new_fiber(nm); if (!f) return EAGAIN;
	g.sut_created++;
	f->start = fn; f->arg = arg; f->sut = true; f->quiet = 0;
	if (in_sut(t) || true) { *t = (pthread_t)(f->id + 0x1000); }
	hupd(mix(0x7c, f->id));
	return 0;
}
static Fiber *byt(pthread_t t) { long i = (long) t - 0x1000; return i >= 0 && i < g.nf ? &g.f[i] : 0; }
EXP int pthread_join(pthread_t t, void **r)
{
	if (!sim_on()) return ESRCH;
	if (loud()) { g.cur->n_sys++; point(2, PC, "pthread_join"); }
	K k; Fiber *f = byt(t);
	if (!f) violate("sync:bad-join", "pthread_join of an invalid thread in %s", symbol(PC).c_str());
	if (f->joined || f->detached) violate("sync:bad-join", "pthread_join of a thread already joined or detached in %s", symbol(PC).c_str());
	join_fiber(f->id, -1); f->joined = true; if (r) *r = f->ret; return 0;
}
EXP int pthread_detach(pthread_t t) { Fiber *f = byt(t); if (f) f->detached = true; return 0; }
EXP pthread_t pthread_self() { return g.cur ? (pthread_t)(g.cur->id + 0x1000) : (pthread_t) 0x1000; }
EXP void pthread_exit(void *r) { K k; g.cur->ret = r; fiber_end(); abort(); }
EXP int pthread_cancel(pthread_t) { return ENOSYS; }
EXP int pthread_kill(pthread_t, int) { return 0; }
EXP int pthread_setname_np(pthread_t t, const char *n) { K k; Fiber *f = sim_on() ? byt(t) : 0; if (f && f->sut) { if (strlen(n) > 15) return ERANGE; snprintf(f->nm, sizeof f->nm, "%s", n); } return 0; }
EXP int pthread_getname_np(pthread_t t, char *b, size_t n) { Fiber *f = byt(t); snprintf(b, n, "%s", f ? f->name : "x"); return 0; }
static std::vector<SchedRec> *schedlog;
namespace sim { const std::vector<SchedRec> &sched_log() { K k; if (!schedlog) schedlog = new std::vector<SchedRec>; return *schedlog; } }
static int sched_call(pthread_t t, bool aff, int policy, int prio, const u8 *mask, size_t n)
{
	sched_log(); K k; Fiber *f = byt(t); SchedRec r; r.caller = g.cur->id; r.target = f ? f->id : -1; r.affinity = aff; r.policy = policy; r.prio = prio; r.ev = ++g.events; r.err = 0;
	if (aff) { for (size_t i = 0; i < n * 8; i++) if (mask[i / 8] >> (i % 8) & 1) r.cpus.push_back(i); bool any = false; for (int c : r.cpus) any |= c < 256; if (!any) r.err = EINVAL; }
	else if (policy == SCHED_FIFO || policy == SCHED_RR) { if (prio < 1 || prio > 99) r.err = EINVAL; } else if ((policy != SCHED_OTHER && policy != SCHED_BATCH && policy != SCHED_IDLE) || prio) r.err = EINVAL;
	if (!f || f->st == FS_DONE) r.err = ESRCH;
	if (!r.err && fault(F_SCHED) >= 0) r.err = EPERM;
	schedlog->push_back(r); hupd(mix(0x5c ^ r.caller, r.err * 1000 + r.prio)); return r.err;
}
EXP int pthread_setschedparam(pthread_t t, int policy, const struct sched_param *s) { if (!sim_on()) return 0; if (loud()) { g.cur->n_sys++; access_range(s, sizeof *s, false, PC); point(2, PC, "pthread_setschedparam"); } return sched_call(t, false, policy, s->sched_priority, 0, 0); }
EXP int pthread_getschedparam(pthread_t, int *p, struct sched_param *s) { *p = SCHED_OTHER; memset(s, 0, sizeof *s); return 0; }
EXP int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) { if (!sim_on()) return 0; if (loud()) { g.cur->n_sys++; access_range(c, n, false, PC); point(2, PC, "pthread_setaffinity_np"); } return sched_call(t, true, 0, 0, (const u8 *) c, n); }
EXP int pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t *c) { memset(c, 0xff, n); return 0; }
EXP int pthread_setschedprio(pthread_t t, int p) { return sim_on() ? sched_call(t, false, -1, p, 0, 0) : 0; }
EXP int sched_setaffinity(pid_t p, size_t n, const cpu_set_t *c) { if (!sim_on()) return 0; int e = p ? sched_call((pthread_t) 0, true, 0, 0, (const u8 *) c, n) : sched_call(pthread_self(), true, 0, 0, (const u8 *) c, n); if (e) { errno = e; return -1; } return 0; }
EXP int sched_setscheduler(pid_t p, int pol, const struct sched_param *s) { if (!sim_on()) return 0; int e = sched_call(p ? (pthread_t) 0 : pthread_self(), false, pol, s->sched_priority, 0, 0); if (e) { errno = e; return -1; } return 0; }
EXP int setpriority(__priority_which_t, id_t, int) { return 0; }
EXP int sched_yield() { if (!sim_on()) return 0; if (loud()) { g.cur->n_sys++; point(2, PC, "sched_yield"); } K k; do_yield(); return 0; }
EXP int prctl(int, ...) { return 0; }

// ====================================================================================================
// time
// ====================================================================================================
static void sim_sleep(i64 ns)
{
	i64 o = fault(F_OVERSLEEP, 1000, 50000000); if (o > 0) ns += o;
	if (ns < 1000) ns = 1000;
	i64 d = g.mono + ns; hupd(mix(0x51ee9, ns));
	while (g.mono < d) block("sleeping", 0, d);
}
static void real_sleep(i64 ns) { struct timespec t = { (time_t)(ns / 1000000000), (long)(ns % 1000000000) }; sysc(SYS_nanosleep, &t, (void *) 0); }
#define SLP(what) if (loud()) { g.cur->n_sleep++; g.cur->n_sys++; point(2, PC, what); } K k_
EXP int usleep(useconds_t us) { if (!sim_on()) { real_sleep((i64) us * 1000); return 0; } SLP("usleep"); sim_sleep((i64) us * 1000); return 0; }
EXP unsigned sleep(unsigned s) { if (!sim_on()) { real_sleep((i64) s * 1000000000); return 0; } SLP("sleep"); sim_sleep((i64) s * 1000000000); return 0; }
EXP int nanosleep(const struct timespec *t, struct timespec *) { i64 ns = (i64) t->tv_sec * 1000000000 + t->tv_nsec; if (!sim_on()) { real_sleep(ns); return 0; } SLP("nanosleep"); sim_sleep(ns); return 0; }
EXP int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *)
{
	i64 ns = (i64) t->tv_sec * 1000000000 + t->tv_nsec;
	if (!sim_on()) { real_sleep(ns); return 0; }
	SLP("clock_nanosleep");
	if (fl & TIMER_ABSTIME) ns = abs_to_mono(t, c) - g.mono;
	sim_sleep(ns < 0 ? 0 : ns); return 0;
}
static i64 read_clock(clockid_t c)
{
	if (loud()) { g.cur->n_sys++; }
	K k;
	if (loud() || (g.cur && !g.cur->quiet)) { i64 j = fault(F_CLOCKJUMP, 0, 4000000000LL); if (j >= 0) { g.off += j - 2000000000LL; } }
	i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? g.mono + g.off : g.mono;
	if (g.gran > 1) v -= v % g.gran;
	return v;
}
EXP int clock_gettime(clockid_t c, struct timespec *t)
{
	if (!sim_on()) return sysc(SYS_clock_gettime, c, t);
	if (loud()) point(2, PC, "clock_gettime");
	i64 v = read_clock(c); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
EXP int gettimeofday(struct timeval *t, void *)
{
	if (!sim_on()) { struct timespec ts; sysc(SYS_clock_gettime, CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0; }
	if (loud()) point(2, PC, "gettimeofday");
	i64 v = read_clock(CLOCK_REALTIME); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0;
}
EXP time_t time(time_t *p)
{
	time_t v; if (!sim_on()) { struct timespec ts; sysc(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else { if (loud()) point(2, PC, "time"); v = read_clock(CLOCK_REALTIME) / 1000000000; }
	if (p) *p = v; return v;
}
EXP int timespec_get(struct timespec *t, int b) { clock_gettime(CLOCK_REALTIME, t); return b; }
EXP int clock_getres(clockid_t, struct timespec *t) { t->tv_sec = 0; t->tv_nsec = 1; return 0; }
