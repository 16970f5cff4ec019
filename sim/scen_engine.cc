// Posting threads, rings of every kind, one or two engines, in-memory sink. Serves the record-path properties.
#include "hog.h"
#include <string.h>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_POST = 1, OP_SLEEP, OP_FLUSH, OP_CHTS, OP_YIELD, OP_STALLENG, OP_HANG, OP_OFF };
const char *sections9[] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7", "OFF", 0 };
struct FlushRec { int ring; u64 ev0, ev1; bool ok; i64 dt; i64 to; u64 st; };
struct S {
	std::vector<FlushRec> fl; std::vector<hogl::area *> areas;    // areas[eng*2+i]
	std::vector<int> users; std::vector<u64> blocked_since;
	u64 max_post_steps; u64 loud_posts; std::vector<u64> prog;
};
S *st;

std::string rk(int i, const char *f) { char b[32]; snprintf(b, sizeof b, "r%d.%s", i, f); return b; }

void generate(Plan &p, Rng &r)
{
	bool C05 = p.prop == "C05", C07 = p.prop == "C07", C08 = p.prop == "C08", C09 = p.prop == "C09", C16 = p.prop == "C16", C22 = p.prop == "C22", C04 = p.prop == "C04", C03 = p.prop == "C03", C02 = p.prop == "C02";
	int neng = C22 ? 2 : 1;
	p.set("neng", neng);
	int nthr = 1 + r.below(C05 ? 4 : 3); if (C05 || C22) nthr++;
	if (C08) nthr = 1 + r.below(2);
	static const int polls[] = { 1000, 1000, 3000, 10000, 10000, 50000 };
	static const int tsos[] = { 1, 2, 3, 4, 8, 16, 17, 32, 64, 64, 256, 4096 };
	for (int e = 0; e < neng; e++) {
		char b[16];
		snprintf(b, sizeof b, "e%d.poll", e); p.set(b, r.pick(polls));
		bool tso = (C04 || C05) ? true : !r.chance(1, 4);
		snprintf(b, sizeof b, "e%d.tso", e); p.set(b, tso ? (C05 ? (r.chance(1, 3) ? tsos[r.below(12)] : 16 << r.below(6)) : r.pick(tsos)) : -1);
		static const int caps[] = { 0, 0, 1, 16, 40, 200, 1024, 8192 };
		snprintf(b, sizeof b, "e%d.sink", e); p.set(b, r.pick(caps));
		snprintf(b, sizeof b, "e%d.fmt", e); p.set(b, r.chance(1, 4));
	}
	int tsmode = 0;
	if (!C05) { int x = r.below(10); tsmode = x < 5 ? 0 : x < 7 ? 1 : x < 8 ? 2 : x < 9 ? 3 : 4; if (C02 && r.chance(1, 2)) tsmode = 2 + r.below(2); }
	p.set("ts", tsmode);
	int nring = 0;
	std::vector<int> ring_of(nthr);
	bool share = !C08 && r.chance(1, 3);
	for (int t = 0; t < nthr; t++) {
		if (share && nring && r.chance(2, 3)) { ring_of[t] = r.below(nring); continue; }
		ring_of[t] = nring++;
	}
	static const int rcaps[] = { 2, 4, 4, 8, 8, 16, 32, 64, 256 };
	static const int tails[] = { 0, 1, 128, 128, 129, 136, 160, 192, 256, 512, 1152 };
	for (int i = 0; i < nring; i++) {
		int users = 0; for (int t = 0; t < nthr; t++) users += ring_of[t] == i;
		int fl = 0;
		if (users > 1 || r.chance(1, C08 ? 7 : 5)) fl |= hogl::ringbuf::SHARED;
		if (C07 || (!C04 && !C08 && !C03 && r.chance(1, 5))) fl |= hogl::ringbuf::BLOCKING;
		if (C07 && r.chance(1, 6) && i) fl &= ~hogl::ringbuf::BLOCKING;
		if (r.chance(1, C08 ? 4 : 10)) fl |= hogl::ringbuf::REUSABLE;
		p.set(rk(i, "cap").c_str(), C05 ? (r.chance(1, 2) ? 1024 : rcaps[r.below(9)]) : C16 ? 64 << r.below(4) : r.pick(rcaps));
		p.set(rk(i, "flags").c_str(), fl);
		p.set(rk(i, "prio").c_str(), r.below(3) * 100);
		p.set(rk(i, "tail").c_str(), C03 ? r.pick(tails) : (r.chance(1, 3) ? r.pick(tails) : 128));
		p.set(rk(i, "eng").c_str(), neng > 1 ? (int) r.below(neng) : 0);
		p.set(rk(i, "reg").c_str(), r.below(4));       // 0,1 main new+add, 2 by name, 3 thread registers itself
	}
	if (C22) { p.set(rk(0, "eng").c_str(), 0); p.set(rk(nring > 1 ? 1 : 0, "eng").c_str(), 1); p.set("samename", r.below(2)); p.set("stall1", r.below(3)); }
	p.set("nring", nring); p.set("nthr", nthr);
	if (r.chance(1, C04 ? 6 : 20)) p.set("nomark", 1);
	p.set("rel", r.below(3));                             // when rings are released
	bool burst = C05 && r.chance(2, 5); p.set("burst", burst);
	if (burst) { p.set("e0.poll", 1000000); p.set("stall_pm", 0); p.set("eng_stall", 0); if (p.k("dt_ns") > 100) p.set("dt_ns", 100); p.set("rel", 0); for (int i = 0; i < nring; i++) { p.set(rk(i, "cap").c_str(), 1024); p.set(rk(i, "flags").c_str(), p.k(rk(i, "flags").c_str()) & ~hogl::ringbuf::BLOCKING); p.set(rk(i, "reg").c_str(), 0); } if (r.chance(1,2)) p.set("e0.tso", 8 << r.below(6)); }
	if (C16) { p.set("stall_pm", 0); p.set("eng_stall", 0); p.set("sched", 1 + 2 * r.below(2)); p.set("p_den", 30 << r.below(5)); p.set("q_den", 6); if (p.k("dt_ns") > 20) p.set("dt_ns", 20); p.set("f.clock_jump", r.chance(1, 2) ? 20000 << r.below(4) : 0); }
	if (C08) { p.set("e0.stall", r.below(4)); p.set("ts", 0); for (int i = 0; i < nring; i++) if (p.k(rk(i, "reg").c_str()) == 3) p.set(rk(i, "reg").c_str(), 0); }   // (registering takes locks an arbitrarily stalled engine may hold)
	if (!C16 && !C08 && !burst && r.chance(1, 3)) p.set("f.slow_io", 20000 << r.below(4));
	if (C16 && r.chance(1, 3)) p.set("f.slow_io", 50000);
	if (!C16 && !C09 && r.chance(1, 6)) p.set("f.oversleep", 20000);
	if (C07 || r.chance(1, 6)) p.set("f.spurious_wakeup", r.chance(1, 2) ? 50000 : 0);
	int budget = C05 ? 40 + r.below(160) : 10 + r.below(90);
	if (r.chance(1, 8)) budget *= 3;
	bool simple = r.chance(1, 2) && !C03;
	// C05 lull: few records at a time (no more than an eighth of the buffer), the engine loses the CPU in the middle of its pass
	int lull = C05 && !burst && r.chance(1, 2) ? 16 << r.below(4) : 0;
	if (lull) {
		p.set("e0.tso", lull); p.set("eng_stall", 20LL << r.below(5)); p.set("eng_stall_max", 20000LL << r.below(8)); p.set("f.slow_io", 0); p.set("f.oversleep", 0);
		for (int i = 0; i < nring; i++) { p.set(rk(i, "cap").c_str(), 256); p.set(rk(i, "reg").c_str(), 0); }
		for (int n = 20 + r.below(40); n > 0; n--) { int t = r.below(nthr); if (r.chance(3, 5)) p.op(t, OP_POST, ring_of[t], 1 + r.below(r.chance(1, 2) ? 2 : lull / 8), 0, r.below(8)); else p.op(t, OP_SLEEP, r.chance(1, 3) ? p.k("e0.poll") : r.below(200)); }
		budget = 0;
	}
	// C04 flood: hundreds of records in a row into one ring, most of them dropped, then a few more after the engine has caught up
	if (C04 && r.chance(1, 8)) for (int n = 1 + r.below(2), t = r.below(nthr); n > 0; n--) {
		p.op(t, OP_POST, ring_of[t], 250 + r.below(400), 0, r.below(8)); p.op(t, OP_SLEEP, 3 * p.k("e0.poll")); p.op(t, OP_POST, ring_of[t], 1 + r.below(3), 0, r.below(8));
	}
	int offs = r.chance(1, 3) || C08 ? 6 : 0;
	while (budget > 0) {
		int t = r.below(nthr), ring = ring_of[t];
		if (offs && r.chance(offs, 100)) p.op(t, OP_OFF, ring, 1 + r.below(3), r.below(NVARIANT));
		u64 x = r.below(100);
		if (x < 60) { int n = 1 + (r.chance(1, 4) ? r.below(20) : r.below(4)); if (C05 && r.chance(1, 3)) n = 1 + r.below(40); p.op(t, OP_POST, ring, n, simple ? 0 : r.below(NVARIANT), r.below(8)); budget -= n; }
		else if (x < 80) { static const int us[] = { 1, 10, 100, 500, 1000, 1000, 3000, 10000, 30000 }; p.op(t, OP_SLEEP, burst ? r.below(200) : r.pick(us)); budget--; }
		else if (x < (C09 ? 99 : 84)) { if (C08 || burst || C16) continue; static const int to[] = { 1000, 2000, 5000, 20000, 1000000, 10000000 }; if ((C05 || C04) && r.chance(2, 3)) continue; p.op(t, OP_FLUSH, ring, C09 ? r.pick(to) : (r.chance(1, 3) ? 2000 : 10000000)); budget -= 2; }
		else if (x < 90) p.op(t, OP_YIELD);
		else budget--;
	}
	p.set("max_s", 3000);
}

hogl::ringbuf::options ropts(const Plan &p, int i)
{
	hogl::ringbuf::options o; o.capacity = p.k(rk(i, "cap").c_str(), 64); o.prio = p.k(rk(i, "prio").c_str()); o.flags = p.k(rk(i, "flags").c_str()); o.record_tailroom = p.k(rk(i, "tail").c_str(), 128); return o;
}
std::string rname(const Plan &p, int i) { char b[16]; int k = 0; for (int j = 0; j < i; j++) k += p.k(rk(j, "eng").c_str()) == p.k(rk(i, "eng").c_str()); snprintf(b, sizeof b, "RING%d", p.k("samename") ? k : i); return b; }

void register_ring(const Plan &p, int i)
{
	RingInfo &ri = W->rings[i]; Eng &E = W->engs[ri.eng];
	if (p.k(rk(i, "reg").c_str()) == 2) {
		hogl::ringbuf *r = SUT(E.e->add_ring(ri.name.c_str(), ri.o));
		if (!r) oracle("C13", "ring:refused", "add_ring refused the unused name %s", ri.name.c_str());
		W->rings[i].r = r;
	} else {
		hogl::ringbuf *r = SUT(new hogl::ringbuf(ri.name.c_str(), ri.o));
		SUT((r->hold(), 0));
		bool ok = SUT(E.e->add_ring(r));
		if (!ok) oracle("C13", "ring:refused", "add_ring refused the unused name %s", ri.name.c_str());
		W->rings[i].r = r;
	}
	W->rings[i].tailroom = ring_slot_room(W->rings[i].r);
	if (W->rings[i].r->capacity() < ri.o.capacity) oracle("C13", "ring:options", "ring has capacity %u, %u requested", W->rings[i].r->capacity(), ri.o.capacity);
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S; st->max_post_steps = 0; st->loud_posts = 0;
	int neng = p.k("neng", 1), nring = p.k("nring"), nthr = p.k("nthr");
	i64 dt = p.k("dt_ns", 20);
	hogl::timesource *ts = 0;
	switch (p.k("ts")) { case 0: ts = ts_counter_src(); break; case 1: ts = ts_clock_src(); break; case 2: ts = ts_equal_src(); break; case 3: ts = ts_weird_src(); break; }
	W->engs.resize(neng);
	for (int e = 0; e < neng; e++) {
		Eng &E = W->engs[e]; char b[16];
		snprintf(b, sizeof b, "e%d.poll", e); E.poll = p.k(b, 10000);
		snprintf(b, sizeof b, "e%d.tso", e); i64 tso = p.k(b, 4096); E.tso = tso >= 0; E.cap = tso < 0 ? 0 : tso;
		snprintf(b, sizeof b, "e%d.fmt", e); E.fmtkind = p.k(b);
		snprintf(b, sizeof b, "e%d.sink", e); unsigned scap = p.k(b, 1024);
		hogl::engine::options o = hogl::engine::default_options;
		E.nomark = p.k("nomark"); o.default_mask = E.nomark ? hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", "!HOGL:DROPMARK", "!.*:OFF", 0) : hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", "!.*:OFF", 0);
		o.polling_interval_usec = E.poll; o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = E.tso ? 0 : hogl::engine::DISABLE_TSO; o.timesource = ts;
		E.fmt = SUT(new ObsFormat(e, E.fmtkind));
		E.out = SUT(new MemOutput(*E.fmt, e, scap));
		E.e = SUT(new hogl::engine(*E.out, o));
		for (int i = 0; i < 2; i++) { char an[8]; snprintf(an, sizeof an, "A%d", i); hogl::area *a = SUT(E.e->add_area(an, sections9)); if (!a) violate("setup", "no area"); st->areas.push_back(a); }
	}
	for (int i = 0; i < nring; i++) {
		RingInfo ri; ri.name = rname(p, i); ri.eng = p.k(rk(i, "eng").c_str()); ri.r = 0; ri.o = ropts(p, i); ri.dropcnt = 0; ri.tailroom = 0; ri.closed = false; ri.specials = ri.flush_to = 0; ri.weird = false; ri.shared = ri.o.flags & hogl::ringbuf::SHARED; ri.reused = false; ri.base_seq = 0;
		W->rings.push_back(ri);
	}
	st->users.assign(nring, 0); st->prog.assign(nthr, 0);
	std::vector<int> thr_ring(nthr, -1);
	for (auto &o : p.ops) if (o.kind == OP_POST || o.kind == OP_OFF || o.kind == OP_FLUSH) thr_ring[o.thr] = o.a;
	for (int t = 0; t < nthr; t++) if (thr_ring[t] >= 0) st->users[thr_ring[t]]++;
	std::vector<bool> reg(nring, false), self_reg(nring, false);
	for (int i = 0; i < nring; i++) { if (!st->users[i]) continue; if (p.k(rk(i, "reg").c_str()) == 3 && st->users[i] == 1) self_reg[i] = true; else { register_ring(p, i); reg[i] = true; for (int k = 1; k < st->users[i]; k++) SUT((W->rings[i].r->hold(), 0)); } }
	if (p.k("burst")) {
		// let the engine settle into its sleep before anything is posted
		u64 l0 = W->engs[0].e->get_stats().loops; wait_until([&] { return W->engs[0].e->get_stats().loops >= l0 + 2; }, 5000000000LL, 100000);
		sleep_ns(20000000);
	}
	enable_faults(true);
	u64 burst_loop0 = W->engs[0].e->get_stats().loops; 
	int estall = p.k("e0.stall");
	std::vector<int> fib;
	int rel = p.k("rel");
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &o : p.ops) if (o.thr == t) ops.push_back(o);
		int ring = thr_ring[t];
		char nm[16]; snprintf(nm, sizeof nm, "thr%d", t);
		fib.push_back(spawn(nm, [=, &p, &self_reg, &reg] {
			if (ring >= 0 && self_reg[ring]) { register_ring(p, ring); reg[ring] = true; }
			for (auto &o : ops) {
				op_begin(o.id); st->prog[t]++;
				switch (o.kind) {
				case OP_POST: {
					RingInfo &ri = W->rings[o.a];
					for (int k = 0; k < o.b; k++) {
						Usage u0 = usage(); st->prog[t]++;
						do_post(t, o.a, st->areas[ri.eng * 2 + (o.id & 1)], o.id & 1, (o.d + k) & 7, o.c, false, !ri.shared && (o.id & 2));
						Usage u1 = usage(); u64 s = u1.steps - u0.steps;
						if (!ri.shared && !(ri.o.flags & hogl::ringbuf::BLOCKING)) {
							if (p.k("ts") != 4) {
								if (u1.syscalls != u0.syscalls || u1.sleeps != u0.sleeps) oracle("C08", "waitfree:syscall", "a post made a system call (%llu) or slept (%llu)", (unsigned long long)(u1.syscalls - u0.syscalls), (unsigned long long)(u1.sleeps - u0.sleeps));
							}
							if (u1.locks != u0.locks) oracle("C08", "waitfree:lock", "a post on a private ring took a lock");
							if (u1.allocs != u0.allocs) oracle("C08", "waitfree:alloc", "a post allocated or freed memory");
							if (s > 1200) oracle("C08", "waitfree:steps", "a post took %llu steps", (unsigned long long) s);
						}
					}
					break; }
				case OP_OFF: {
					// a post to a section that is disabled: nothing at all may happen
					RingInfo &ri = W->rings[o.a]; bool alone = st->users[o.a] == 1;
					for (int k = 0; k < o.b; k++) {
						u64 q0 = ri.r->seqnum(); unsigned d0 = ri.r->dropcnt(); Usage u0 = usage(); st->prog[t]++;
						do_post(t, o.a, st->areas[ri.eng * 2 + (o.id & 1)], o.id & 1, 8, o.c, false, !ri.shared && (o.id & 2), true);
						Usage u1 = usage();
						if (u1.syscalls != u0.syscalls || u1.sleeps != u0.sleeps || u1.locks != u0.locks || u1.allocs != u0.allocs || u1.steps - u0.steps > 600) oracle("C08 C11", "waitfree:disabled", "a post to a disabled section made %llu system calls, %llu sleeps, took %llu locks, made %llu allocations in %llu steps", (unsigned long long)(u1.syscalls - u0.syscalls), (unsigned long long)(u1.sleeps - u0.sleeps), (unsigned long long)(u1.locks - u0.locks), (unsigned long long)(u1.allocs - u0.allocs), (unsigned long long)(u1.steps - u0.steps));
						if (alone && ri.r->seqnum() != q0) oracle("C08 C11", "post:disabled", "a post to a disabled section used up a sequence number");
						if (alone && ri.r->dropcnt() != d0) oracle("C08 C04", "drop:disabled", "a post to a disabled section was counted as dropped");
						probe("disabled post");
					}
					break; }
				case OP_SLEEP: sleep_ns(o.a * 1000); break;
				case OP_YIELD: yield_point(); break;
				case OP_FLUSH: {
					FlushRec f; f.ring = o.a; f.ev0 = event(); f.to = o.b * 1000; i64 t0 = now(); u64 s0 = steps(); u64 fs0 = fault_count(F_OVERSLEEP) + fault_count(F_STALL);
					W->flushes++; W->rings[o.a].specials++;
					f.ok = SUT(hogl::flush(W->rings[o.a].r, o.b));
					f.ev1 = event(); f.dt = now() - t0; f.st = steps() - s0;
					if (!f.ok) { W->rings[o.a].flush_to++; probe("flush timed out"); } else probe("flush succeeded");
					if (!W->rings[o.a].shared && fs0 == fault_count(F_OVERSLEEP) + fault_count(F_STALL)) {
						if (f.dt - (i64) f.st * dt > f.to + 3000000) oracle("C09", "flush:late", "flush with a limit of %lld us returned after %lld us", (long long) o.b, (long long) f.dt / 1000);
					}
					st->fl.push_back(f); break; }
				}
			}
			op_begin(1000000 + t);
			if (ring >= 0) {
				W->rings[ring].dropcnt = std::max<u64>(W->rings[ring].dropcnt, W->rings[ring].r->dropcnt());
				if (rel == 1) SUT((W->rings[ring].r->release(), 0));
			}
		}));
	}
	if (p.k("stall1") == 1 && neng > 1) W->engs[1].hang = true;     // second engine's sink hangs: the first must not care
	if (estall == 1) { // engine stopped for good while threads post
		wait_until([&] { return W->engs[0].eng_fiber >= 0; }, 2000000, 1000); if (W->engs[0].eng_fiber >= 0) { probe("engine stalled"); stall_fiber(W->engs[0].eng_fiber, 400000000000LL); } }
	if (estall == 2) { W->engs[0].hang = true; probe("sink hangs"); }
	if (p.k("stall1") == 1 && neng > 1) {
		for (int t = 0; t < nthr; t++) { if (thr_ring[t] >= 0 && W->rings[thr_ring[t]].eng == 1) continue; if (!join(fib[t], 600000000000LL)) oracle("C22", "engines:coupled", "a thread using engine 0 does not finish while the sink of engine 1 hangs: %s", where(fib[t]).c_str()); }
		// engine 0 must deliver everything of its rings meanwhile
		wait_until([&] { for (int i = 0; i < nring; i++) if (W->rings[i].r && W->rings[i].eng == 0 && rel != 1 && !W->rings[i].r->empty()) return false; return true; }, 10000000000LL, 1000000);
		u64 out0 = 0, acc0 = 0;
		for (auto &q : W->posts) if (q.eng == 0 && q.enabled) acc0++;
		for (int i = 0; i < nring; i++) if (W->rings[i].eng == 0) acc0 -= W->rings[i].dropcnt;
		wait_until([&] { out0 = 0; for (auto &o : W->obs) if (o.eng == 0 && o.kind == OB_REC) out0++; return out0 >= acc0; }, 30000000000LL, 1000000);
		if (out0 < acc0) oracle("C22", "engines:delayed", "engine 0 delivered %llu of %llu records while the sink of engine 1 hung", (unsigned long long) out0, (unsigned long long) acc0);
		probe("other engine hung");
		W->engs[1].hang = false;
	}
	for (int t = 0; t < nthr; t++) for (u64 seen = ~0ULL; !join(fib[t], 40000000000LL);) {
		if (st->prog[t] != seen) { seen = st->prog[t]; continue; }
		std::string w = where(fib[t]);
		if (w.find("condition") != w.npos) oracle("C07", "blocking:stuck", "a writer blocked on a full ring never resumes although the engine runs: %s", w.c_str());
		violate("hang:thread", "a thread does not finish: %s", w.c_str());
	}
	W->engs[0].hang = false;
	enable_faults(false);
	u64 burst_loop1 = W->engs[0].e->get_stats().loops;
	// wait until the engines have taken everything out
	if (rel != 1) {
		for (int e = 0; e < neng; e++) {
			wait_until([&] { for (int i = 0; i < nring; i++) if (reg[i] && W->rings[i].eng == e && !W->rings[i].r->empty()) return false; return true; }, 300000000000LL, 1000000);
			u64 l = W->engs[e].e->get_stats().loops; wait_until([&] { return W->engs[e].e->get_stats().loops >= l + 3; }, 400000000000LL, 1000000);
			W->engs[e].stats = W->engs[e].e->get_stats(); W->engs[e].have_stats = true;
			if (p.prop == "C16") {
				unsigned poll = W->engs[e].poll; u64 l0 = W->engs[e].e->get_stats().loops; sleep_ns((i64) poll * 1000 * 50); u64 l1 = W->engs[e].e->get_stats().loops;
				if (l1 - l0 > 170) oracle("C16", "engine:spins", "an idle engine went round its loop %llu times in 50 polling intervals", (unsigned long long)(l1 - l0));
				if (l1 - l0 < 5) oracle("C16", "engine:sluggish", "an idle engine went round its loop only %llu times in 50 polling intervals", (unsigned long long)(l1 - l0));
			}
		}
		for (int i = 0; i < nring; i++) if (reg[i]) { W->rings[i].dropcnt = W->rings[i].r->dropcnt(); if (rel == 0 || st->users[i] > 1) for (int k = 0; k < st->users[i]; k++) SUT((W->rings[i].r->release(), 0)); else SUT((W->rings[i].r->release(), 0)); }
	}
	for (int e = neng - 1; e >= 0; e--) {
		if (finish_engine(e, 600000000000LL) < 0) violate("hang:shutdown", "destroying the engine does not finish");
		if (W->engs[e].lines < W->engs[e].obs.size()) oracle("C01 C20", "sink:incomplete", "%zu records were output but only %zu reached the sink by the end", W->engs[e].obs.size(), W->engs[e].lines);
	}
	Checks c; c.tso_order = p.k("ts") == 0; evaluate(c);
	// C09
	for (auto &f : st->fl) if (f.ok) for (auto &o : W->obs) {
		if (o.kind != OB_REC) continue;
		Post &q = W->posts[W->by_id[o.id]];
		if (q.ring != f.ring || !q.returned || q.ev1 >= f.ev0) continue;
		if (!o.sink_ev || o.sink_ev > f.ev1) oracle("C09", "flush:not-in-sink", "flush of ring %s reported success, but record %llx posted before it had %s", W->rings[f.ring].name.c_str(), (unsigned long long) q.id, o.ev > f.ev1 ? "not even been output" : "not reached the sink");
	}
	// C16
	if (p.prop == "C16") for (auto &o : W->obs) if (o.kind == OB_REC) {
		Post &q = W->posts[W->by_id[o.id]]; Eng &E = W->engs[o.eng];
		if (!o.sink_ev) continue;
		i64 lat = o.sink_t - q.t1 - (i64)(o.sink_step - q.step1) * dt - (o.sink_busy - q.busy1);
		if (lat > 4LL * E.poll * 1000 + 2000) oracle("C16", "latency", "record %llx reached the sink %lld us after it was posted (output time and computing excluded); the polling interval is %u us", (unsigned long long) q.id, (long long) lat / 1000, E.poll);
	}
	// C05 burst: everything was posted while the engine slept
	if (p.k("burst") && burst_loop0 == burst_loop1) {
		probe("burst");
		u64 last = 0; bool full = false; u64 nrec = 0;
		for (auto &o : W->obs) { if (o.kind == OB_TSOFULL) full = true; if (o.kind != OB_REC) continue; nrec++; if (o.ts < last && !full) oracle("C05", "tso:burst-order", "records posted while the engine slept come out unsorted (ts %llu after %llu) and no overflow was announced before", (unsigned long long) o.ts, (unsigned long long) last); last = o.ts; }
		if (nrec && nrec < W->engs[0].cap && full) oracle("C05", "tso:false-overflow", "overflow announced although only %llu records were pending (buffer %u)", (unsigned long long) nrec, W->engs[0].cap);
		if (nrec > W->engs[0].cap && !full) oracle("C05", "tso:overflow-silent", "%llu records were pending at once, the buffer holds %u, and no overflow was announced", (unsigned long long) nrec, W->engs[0].cap);
	}
	if (W->obs.size()) probe("records output");
	for (auto &ri : W->rings) if (ri.dropcnt) { probe("records dropped"); break; }
}
const Scenario sc = { "engine", "C01 C02 C03 C04 C05 C07 C08 C09 C16 C22", generate, run, 0 };
Registrar reg_(&sc);
}
