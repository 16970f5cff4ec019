// Life cycles: the default engine activated and deactivated again and again under load, thread-local rings opened and
// closed in scopes, further engines created and destroyed next to it. Serves C10, C15 and C22.
#include "hog.h"
#include <string.h>
#include <stdio.h>
#include <new>
#include <stdexcept>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_POST = 1, OP_OPEN, OP_CLOSE, OP_SLEEP, OP_YIELD, OP_ACT, OP_DEACT, OP_DUP, OP_AREA, OP_AUX, OP_APOST, OP_MASK };
struct Scope { hogl::tls *t; int ring; };              // ring: index, -1 if the scope is not valid
struct Inst { int ring; int live; std::string name; int cyc; bool freed_ok; };
struct Deact { u64 e0, e1; int eng; };
struct S {
	bool active, closing, activating; int api; int cyc, nact, naux;
	std::vector<std::vector<Scope> > sc; std::map<const hogl::ringbuf *, int> inst; std::vector<int> live; std::vector<int> born;
	std::map<std::string, int> tries; std::vector<Deact> de; std::vector<u64> prog; hogl::area *uarea; std::vector<const void *> dead;
	u64 last_act_ev; i64 last_use; int open; std::vector<const hogl::area *> earea; i64 idle_since; u64 act_blocks; bool stallable; bool pinned;
};
S *st;
const hogl::ringbuf *DEF() { return &hogl::default_ring; }
bool enter_api() { if (!st->active || st->closing || st->activating) return false; st->api++; return true; }
void leave_api() { st->api--; }
struct Api { ~Api() { leave_api(); } };

void generate(Plan &p, Rng &r)
{
	bool C10 = p.prop == "C10", C15 = p.prop == "C15", C22 = p.prop == "C22";
	int nthr = 2 + r.below(3); p.set("nthr", nthr);                  // thread 0 runs the life cycle
	static const int polls[] = { 1000, 1000, 3000, 10000 }, tsos[] = { 1, 4, 16, 64, 4096 }, dcaps[] = { 2, 4, 8, 32, 256, 2048 }, caps[] = { 2, 4, 8, 16, 64, 256 }, sinks[] = { 0, 1, 40, 512, 8192 };
	p.set("poll", r.pick(polls)); p.set("tso", r.chance(1, 4) ? -1 : r.pick(tsos)); p.set("dcap", r.pick(dcaps)); p.set("sink", r.pick(sinks));
	p.set("debug", r.chance(1, 3)); p.set("ts", r.below(3)); p.set("bye", r.below(3)); p.set("free", r.below(3) > 0);
	static const int us[] = { 1, 20, 200, 1000, 1000, 2000, 5000, 12000, 40000 };
	p.op(0, OP_ACT);
	int ncyc = C15 ? 1 + r.below(2) : 1 + r.below(4);
	for (int c = 0; c < ncyc; c++) {
		if (c) { if (r.chance(1, 2)) p.op(0, OP_SLEEP, r.pick(us)); p.op(0, OP_ACT); }
		for (int k = r.below(4); k > 0; k--) { u64 x = r.below(10); if (x < 5) p.op(0, OP_SLEEP, r.pick(us)); else if (x < 7) p.op(0, OP_POST, 1 + r.below(5), r.below(NVARIANT), r.below(8)); else if (x < 8) p.op(0, OP_DUP); else p.op(0, OP_YIELD); }
		if (c + 1 < ncyc || r.chance(1, 2)) { p.op(0, OP_DEACT); if (r.chance(1, 4)) p.op(0, OP_DEACT); }
	}
	int nops = 8 + r.below(50), naux = 0; bool drops = r.chance(1, 2);
	for (int i = 0; i < nops; i++) {
		int t = 1 + r.below(nthr - 1); u64 x = r.below(100);
		if (x < 40) p.op(t, r.chance(1, 5) ? OP_APOST : OP_POST, 1 + (drops && r.chance(1, 4) ? r.below(20) : r.below(4)), r.chance(1, 2) ? 0 : r.below(NVARIANT), r.below(8));
		else if (x < 58) { int k = r.below(10); k = k < 5 ? 0 : k < 7 ? 1 : k < 9 ? 2 : 3; p.op(t, OP_OPEN, k, r.chance(1, 5) ? hogl::ringbuf::BLOCKING : 0, r.pick(caps), r.below(k ? 2 : 3)); }
		else if (x < 72) p.op(t, OP_CLOSE);
		else if (x < 84) p.op(t, OP_SLEEP, r.pick(us));
		else if (x < 88) p.op(t, OP_YIELD);
		else if (x < 91) p.op(t, OP_AREA, r.below(2));
		else if (x < 93) p.op(t, OP_MASK, r.below(2));
		else if (naux < 6 && (C10 || C22 || r.chance(1, 3))) { naux++; p.op(t, OP_AUX, r.below(64) | (r.chance(1, 4) ? 64 : 0), r.pick(polls), 1 + r.below(8), r.pick(caps)); }
	}
	if (C22) while (naux < 2) { naux++; p.op(1 + r.below(nthr - 1), OP_AUX, r.below(64) | (r.chance(1, 4) ? 64 : 0), r.pick(polls), 1 + r.below(8), r.pick(caps)); }
	if (r.chance(1, 3)) p.set("f.slow_io", 30000);
	if (r.chance(1, 5)) p.set("f.spurious_wakeup", 50000);
	if (r.chance(1, 6)) p.set("f.oversleep", 20000);
	if (r.chance(1, 6)) p.set("f.clock_jump", 20000);
	p.set("max_s", 3000);
}

hogl::mask engine_mask(bool debug) { return debug ? hogl::mask(".*:.*", 0) : hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0); }
void make_out(const Plan &p, int e, unsigned poll)
{
	Eng &E = W->engs[e]; E.poll = poll; E.tso = p.k("tso") >= 0; E.cap = E.tso ? p.k("tso") : 0; E.fmtkind = 0;
	hogl::format *f = SUT(new ObsFormat(e, 0)); W->engs[e].fmt = f;
	unsigned cap = p.k("sink"); hogl::output *o = SUT(new MemOutput(*f, e, cap)); W->engs[e].out = o;
}
hogl::engine::options eopts(const Plan &p, unsigned poll)
{
	hogl::engine::options o = hogl::engine::default_options;
	o.default_mask = engine_mask(p.k("debug")); o.polling_interval_usec = poll; i64 tso = p.k("tso"); o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = tso >= 0 ? 0 : hogl::engine::DISABLE_TSO;
	o.timesource = p.k("ts") == 1 ? ts_clock_src() : ts_counter_src(); return o;
}
int cur_ring(int t) { for (size_t i = st->sc[t].size(); i-- > 0;) if (st->sc[t][i].ring >= 0) return st->sc[t][i].ring; return 0; }
hogl::ringbuf *cur_ptr(int t) { int r = cur_ring(t); return W->rings[r].r; }
void check_cur(int t, const char *when)
{
	hogl::ringbuf *r = SUT(hogl::tls::ring());
	if (r != cur_ptr(t)) oracle("C15", "tls:wrong-ring", "%s the thread's ring is %s, it should be %s", when, r == DEF() ? "the default ring" : r ? "another ring" : "null", W->rings[cur_ring(t)].name.c_str());
}
void noisy(int ring) { W->rings[ring].shared = true; }             // hogl's own messages may be in it too
void gate_posts(int t, const Op &o, const hogl::area *a, int aid)
{
	for (int k = 0; k < o.a; k++) { st->prog[t]++; check_cur(t, "before a post"); do_post(t, cur_ring(t), a, aid, (o.c + k) & 7, o.b, true); }
	st->last_use = now();
}
void close_top(int t)
{
	Scope s = st->sc[t].back(); st->prog[t]++;
	int prev = 0; for (size_t i = st->sc[t].size() - 1; i-- > 0;) if (st->sc[t][i].ring >= 0) { prev = st->sc[t][i].ring; break; }
	if (s.ring >= 0) { RingInfo &ri = W->rings[s.ring]; ri.dropcnt = std::max<u64>(ri.dropcnt, ri.r->dropcnt()); st->live[s.ring]--; }
	hogl::tls *tl = s.t; if (s.ring >= 0) noisy(prev);
	SUT((delete tl, 0));
	st->sc[t].pop_back(); if (s.ring >= 0) st->open--;
	st->last_use = now();
	check_cur(t, "after the end of a scope");
}
void op_open(const Plan &p, int t, const Op &o)
{
	if (st->sc[t].size() >= 4) { close_top(t); return; }
	if (!enter_api()) { probe("no engine to open a scope on"); return; }
	Api api_;
	char nm[24]; hogl::ringbuf::options ro; ro.capacity = o.c; ro.prio = (o.id % 3) * 100; ro.flags = o.b; ro.record_tailroom = 128;
	switch (o.a) {
	case 0: snprintf(nm, sizeof nm, "T%d", o.id); break;
	case 1: snprintf(nm, sizeof nm, "SHR%d", o.id % 2); ro.flags |= hogl::ringbuf::SHARED; ro.capacity = 512; break;
	case 2: snprintf(nm, sizeof nm, "REU%d", o.id % 2); ro.flags |= hogl::ringbuf::REUSABLE; ro.capacity = 512; break;
	default: snprintf(nm, sizeof nm, "DUP%d", o.id % 2); ro.capacity = 512; break;
	}
	std::string name = nm; bool first = !st->tries[name]++;
	int before = cur_ring(t); noisy(before);
	hogl::tls *tl = 0; hogl::engine *e = hogl::default_engine;
	char *hn = strdup(nm); hogl::ringbuf::options *hro = new hogl::ringbuf::options(ro);
	int cyc = st->cyc;
	if (o.a == 0 && o.d == 2) {
		hogl::ringbuf *r = SUT(new hogl::ringbuf(hn, *hro)); SUT((r->hold(), 0));
		bool ok = SUT(e->add_ring(r));
		if (!ok) oracle("C13 C15", "ring:refused", "add_ring refused the unused name %s", nm);
		tl = SUT(new hogl::tls(r, e));
	} else if (o.d == 1) { std::string *s = new std::string(nm); tl = SUT(new hogl::tls(*s, *hro)); (*s)[0] = '#'; delete s; }
	else tl = SUT(new hogl::tls(hn, *hro));
	memset(hn, '#', strlen(hn)); free(hn); memset((void *) hro, 0xff, sizeof *hro); delete hro;
	bool valid = SUT(tl->valid());
	Scope s; s.t = tl; s.ring = -1;
	if (!valid) {
		probe("scope without a ring of its own");
		if (o.a < 2) oracle("C15 C13", "tls:refused", "a thread-local ring with %s name %s was refused", o.a ? "the shared" : "the unused", nm);
		if (first && st->tries[name] == 1) oracle("C15 C13", "tls:refused", "a thread-local ring with the unused name %s was refused", nm);
		st->sc[t].push_back(s); check_cur(t, "after a refused scope"); return;
	}
	hogl::ringbuf *r = SUT(hogl::tls::ring());
	if (r == DEF() || !r) { oracle("C15", "tls:wrong-ring", "a valid thread-local ring %s was set up but the thread's ring is %s", nm, r ? "the default ring" : "null"); s.ring = -1; st->sc[t].push_back(s); return; }
	auto it = st->inst.find(r); int ri;
	if (it == st->inst.end()) {
		ri = add_ring_info(name, W->engs.size() ? cyc : 0, r, ro); st->inst[r] = ri; st->live.resize(ri + 1, 0); st->born.resize(ri + 1, 0); st->born[ri] = cyc;
		if (o.a) { W->rings[ri].weird = true; W->rings[ri].shared = true; }
		if (ro.flags & hogl::ringbuf::SHARED) W->rings[ri].shared = true;
		if (p.k("debug")) noisy(ri);
	} else {
		ri = it->second; W->rings[ri].reused = true; probe("ring handed out again");
		if (st->live[ri] > 0 && !(W->rings[ri].o.flags & hogl::ringbuf::SHARED)) oracle("C15 C13", "tls:not-private", "ring %s was handed to a second thread while its owner still uses it", nm);
	}
	if (W->rings[ri].name != name || strcmp(r->name(), nm)) oracle("C15", "tls:wrong-ring", "the thread-local ring of scope %s is ring %s", nm, r->name());
	st->live[ri]++; s.ring = ri; st->sc[t].push_back(s); st->open++;
	if (W->rings[ri].r->capacity() < W->rings[ri].o.capacity) oracle("C13 C15", "ring:options", "ring has capacity %u, %u requested", W->rings[ri].r->capacity(), W->rings[ri].o.capacity);
	st->last_use = now();
}
void check_done(const Plan &p, int e, const char *what)
{
	Eng &E = W->engs[e];
	if (E.lines < E.obs.size()) oracle("C10 C01", "life:not-in-sink", "after %s %zu records had been output but only %zu had reached the sink", what, E.obs.size(), E.lines);
}
// The engine's shutdown has returned: every record posted before it began is out, its rings are gone
void after_stop(const Plan &p, int e, u64 e0, const char *what)
{
	check_done(p, e, what);
	for (auto &x : st->inst) {
		RingInfo &ri = W->rings[x.second]; if (ri.eng != e) continue;
		if (!st->live[x.second] && addressable(x.first, 1)) oracle("C10 C15", "life:ring-leaked", "ring %s was released by everybody, but it still exists after %s", ri.name.c_str(), what);
		if (st->live[x.second] && !addressable(x.first, sizeof(hogl::ringbuf))) oracle("C10 C15", "life:ring-freed", "ring %s is still in use but it was freed by %s", ri.name.c_str(), what);
	}
}
void op_act(const Plan &p, int t)
{
	if (st->active) return;
	int e = st->nact++; st->cyc = e; st->tries.clear();
	unsigned poll = p.k("poll"); make_out(p, e, poll);
	hogl::output *out = W->engs[e].out; hogl::engine::options *o = new hogl::engine::options(eopts(p, poll));
	st->activating = true;
	bool ok = SUT([&] { try { hogl::activate(*out, *o); } catch (std::exception &x) { return false; } return true; }());
	if (!ok) oracle("C10", "life:activate", "activate failed although no engine was active");
	delete o;
	st->activating = false; st->active = true;
	if (!hogl::default_engine) oracle("C10", "life:activate", "no default engine after activate returned");
	W->engs[e].e = hogl::default_engine; st->dead.push_back(hogl::default_engine);
	probe(e ? "activated again" : "activated");
}
void op_deact(const Plan &p, int t, bool at_exit)
{
	if (!st->active) { SUT((hogl::deactivate(), 0)); if (hogl::default_engine) oracle("C10", "life:deactivate", "deactivate without an active engine produced one"); return; }
	st->closing = true;
	// with free=0 the threads have closed their scopes first, otherwise only calls on the engine itself are kept away
	wait_until([&] { return st->api == 0 && (p.k("free") || !st->open); }, 1LL << 60, 20000);
	int e = st->cyc; Deact d; d.eng = e; d.e0 = event(); d.e1 = 0; size_t di = st->de.size(); st->de.push_back(d);
	W->rings[0].dropcnt = hogl::default_ring.dropcnt();
	i64 t0 = now(); u64 s0 = steps(); i64 b0 = W->engs[e].busy; u64 f0 = fault_count(F_OVERSLEEP) + fault_count(F_STALL) + fault_count(F_CLOCKJUMP); 
	if (st->open) probe("deactivated while rings are in use");
	if (at_exit) { int n = run_exit_handlers(); if (!n) oracle("C10", "life:atexit", "nothing is registered to stop the active engine at exit"); probe("stopped at exit"); } else SUT((hogl::deactivate(), 0));
	i64 t1 = std::max(t0, st->last_use); i64 took = now() - t1 - (i64)(steps() - s0) * p.k("dt_ns", 20) - (W->engs[e].busy - b0);
	st->de[di].e1 = event();
	st->active = false; st->closing = false; W->engs[e].e = 0;
	if (hogl::default_engine) oracle("C10", "life:deactivate", "the default engine is still set after deactivate");
	if (addressable(st->dead.back(), 1)) oracle("C10", "life:engine-leaked", "the engine still exists after deactivate");
	if (f0 == fault_count(F_OVERSLEEP) + fault_count(F_STALL) + fault_count(F_CLOCKJUMP) && !p.k("eng_stall") && !p.k("f.oversleep") && took > 40LL * W->engs[e].poll * 1000 + 5000000) oracle("C10", "life:slow-stop", "deactivate took %lld us after the last use of its rings; the polling interval is %u us", (long long) took / 1000, W->engs[e].poll);
	after_stop(p, e, st->de[di].e0, "deactivate");
	// nothing refers to the output any more
	hogl::output *o = W->engs[e].out; hogl::format *f = W->engs[e].fmt; SUT((delete o, 0)); SUT((delete f, 0)); W->engs[e].out = 0;
}
void op_dup(const Plan &p)
{
	if (!enter_api()) return; Api api_;
	hogl::engine *e = hogl::default_engine; hogl::output *out = W->engs[st->cyc].out; int n = sut_threads_created(); int rc = hogl::default_ring.refcnt(); (void) rc;
	hogl::engine::options *o = new hogl::engine::options(eopts(p, 1000));
	int res = SUT([&] { try { hogl::activate(*out, *o); } catch (std::logic_error &x) { return 1; } catch (...) { return 2; } return 0; }());
	delete o;
	if (res != 1) oracle("C10", "life:activate-twice", "activating a second default engine was not refused with logic_error");
	if (hogl::default_engine != e) oracle("C10", "life:activate-twice", "a refused activation replaced the default engine");
	(void) n;
	probe("second activation refused");
}
void op_aux(const Plan &p, int t, const Op &o)
{
	int e = (int) W->engs.size() / 2 + st->naux++; if (e >= (int) W->engs.size()) return;
	unsigned poll = o.b; make_out(p, e, poll); hogl::output *out = W->engs[e].out;
	hogl::engine::options *eo = new hogl::engine::options(eopts(p, poll)); if (o.a & 16) eo->default_mask = hogl::mask(".*:.*", 0);
	hogl::engine *E = SUT(new hogl::engine(*out, *eo)); delete eo; W->engs[e].e = E;
	char nm[24]; snprintf(nm, sizeof nm, "X%d", o.id);
	hogl::ringbuf::options ro; ro.capacity = o.d; ro.prio = 0; ro.flags = (o.a & 8) ? hogl::ringbuf::BLOCKING : 0; ro.record_tailroom = 128;
	int before = cur_ring(t); noisy(before);
	if (o.a & 64) {
		// The engine has no ring until a thread registers one; that thread goes on using the engine, which its ring keeps
		// alive, while this one destroys it.
		probe("ring registered as the engine is being destroyed");
		int n = o.c, *added = new int(0); i64 lead = mix(o.id, 5) % (poll * 1000 + 1); int again = mix(o.id, 6) % 3; std::string xn = nm; int ht = t + 8;
		sleep_ns((i64) (mix(o.id, 7) % (3 * poll)) * 1000);
		u64 l0 = E->get_stats().loops; wait_until([&] { return E->get_stats().loops > l0; }, 1LL << 60, 2000);
		int f = spawn("late", [=] {
			hogl::ringbuf *r = SUT(E->add_ring(xn.c_str(), ro)); if (!r) { oracle("C13 C10", "ring:refused", "add_ring refused the unused name %s", xn.c_str()); *added = 1; return; }
			int ri = add_ring_info(xn, e, r, ro); st->live.resize(ri + 1, 0); st->born.resize(ri + 1, 0); st->live[ri] = 1; st->inst[r] = ri;
			for (int k = 0; k < n; k++) do_post(ht, ri, st->uarea, 2, k & 7, 0);
			*added = 1; sleep_ns(lead);
			for (int k = 0; k < 30; k++) { hogl::string_list *l = SUT(new hogl::string_list); SUT((E->list_rings(*l), 0)); SUT((delete l, 0)); }
			for (int k = 0; k < again; k++) {
				char yn[24]; snprintf(yn, sizeof yn, "%s_%d", xn.c_str(), k);
				hogl::ringbuf *y = SUT(E->add_ring(yn, ro)); if (!y) { oracle("C13 C10", "ring:refused", "add_ring refused the unused name %s", yn); break; }
				int yi = add_ring_info(yn, e, y, ro); st->live.resize(yi + 1, 0); st->born.resize(yi + 1, 0); st->inst[y] = yi;
				do_post(ht, yi, st->uarea, 2, k & 7, 0); W->rings[yi].dropcnt = y->dropcnt(); SUT((y->release(), 0));
			}
			do_post(ht, ri, st->uarea, 2, 1, 0);
			W->rings[ri].dropcnt = r->dropcnt(); st->live[ri] = 0; SUT((r->release(), 0)); st->last_use = now();
		});
		wait_until([&] { return *added; }, 1LL << 60, 1000); st->prog[t]++;
		SUT((delete E, 0)); W->engs[e].e = 0; st->prog[t]++;
		join(f, 1LL << 60); after_stop(p, e, 0, "destroying the engine"); delete added;
		hogl::output *oo = W->engs[e].out; hogl::format *ff = W->engs[e].fmt; SUT((delete oo, 0)); SUT((delete ff, 0)); W->engs[e].out = 0;
		return;
	}
	hogl::ringbuf *r = SUT(E->add_ring(nm, ro)); if (!r) { oracle("C13 C10", "ring:refused", "add_ring refused the unused name %s", nm); return; }
	int ri = add_ring_info(nm, e, r, ro); st->live.resize(ri + 1, 0); st->born.resize(ri + 1, 0); st->live[ri] = 1; st->inst[r] = ri;
	int n = o.c; 
	for (int k = 0; k < n; k++) { st->prog[t]++; do_post(t, ri, st->uarea, 2, k & 7, 0); }
	if (o.a & 1) { probe("duplicate ring on a second engine"); hogl::ringbuf *q = SUT(E->add_ring(nm, ro)); if (q) oracle("C13", "ring:not-unique", "a second private ring %s was handed out", nm); }
	if (o.a & 2) { probe("duplicate area on a second engine"); hogl::area *a = SUT(E->add_area("HOGL", g_sections)); if (a) oracle("C12", "area:not-unique", "area HOGL was replaced"); }
	if (o.a & 32) { probe("scope on a second engine"); char tn[24]; snprintf(tn, sizeof tn, "Y%d", o.id); hogl::ringbuf::options *hro = new hogl::ringbuf::options(ro); hro->flags = 0; hogl::tls *tl = SUT(new hogl::tls(tn, *hro, E));
		hogl::ringbuf *yr = SUT(hogl::tls::ring()); bool v = SUT(tl->valid()); if (!v || yr == cur_ptr(t)) oracle("C15", "tls:refused", "a thread-local ring with the unused name %s was refused", tn);
		else { int yi = add_ring_info(tn, e, yr, *hro); st->live.resize(yi + 1, 0); st->born.resize(yi + 1, 0); st->live[yi] = 1; st->inst[yr] = yi; if ((o.a & 16) || p.k("debug")) noisy(yi); for (int k = 0; k < n; k++) { st->prog[t]++; do_post(t, yi, st->uarea, 2, k & 7, 0, true); } W->rings[yi].dropcnt = yr->dropcnt(); st->live[yi] = 0; }
		SUT((delete tl, 0)); delete hro; check_cur(t, "after a scope on a second engine"); }
	int hf = -1, lf = -1; i64 last = 0;
	if (o.a & 4) {
		// another thread still uses the ring while this one destroys the engine
		probe("engine destroyed while a ring is in use");
		int ht = t + 8;
		hf = spawn("holder", [=] { for (int k = 0; k < n * 2; k++) { do_post(ht, ri, st->uarea, 2, k & 7, k & 1 ? 3 : 0); if (k % 3 == 2) sleep_ns(300000); } W->rings[ri].dropcnt = r->dropcnt(); st->live[ri] = 0; SUT((r->release(), 0)); st->last_use = now(); });
	} else { W->rings[ri].dropcnt = r->dropcnt(); st->live[ri] = 0; SUT((r->release(), 0)); }
	if (o.a & 1) {
		// a ring registered at the last moment, the ring list being read at the same time
		int stop = 0; int *stopp = &stop;
		lf = spawn("lister", [=] { for (int k = 0; k < 40 && !*stopp; k++) { hogl::string_list *l = SUT(new hogl::string_list); SUT((E->list_rings(*l), 0)); SUT((delete l, 0)); } });
		char zn[24]; snprintf(zn, sizeof zn, "Z%d", o.id); 
		hogl::ringbuf *z = SUT(new hogl::ringbuf(zn, ro)); SUT((z->hold(), 0));
		int zi = add_ring_info(zn, e, z, ro); st->live.resize(zi + 1, 0); st->born.resize(zi + 1, 0); st->inst[z] = zi;
		if (o.c & 1) { do_post(t, zi, st->uarea, 2, 1, 0); }             // posts before it is registered count too
		bool ok = SUT(E->add_ring(z)); if (!ok) oracle("C13 C10", "ring:refused", "add_ring refused the unused name %s", zn);
		if (o.d < (i64) n || !(ro.flags & hogl::ringbuf::BLOCKING)) do_post(t, zi, st->uarea, 2, 1, 0);
		W->rings[zi].dropcnt = z->dropcnt(); SUT((z->release(), 0));
		stop = 1; join(lf, 1LL << 60);
	}
	u64 e0 = event(); i64 t0 = now(), b0 = W->engs[e].busy; u64 s0 = steps(), f0 = fault_count(F_OVERSLEEP) + fault_count(F_STALL) + fault_count(F_CLOCKJUMP);
	SUT((delete E, 0)); W->engs[e].e = 0; st->prog[t]++; (void) last; (void) e0;
	i64 took = now() - std::max(t0, hf >= 0 ? st->last_use : t0) - (i64)(steps() - s0) * p.k("dt_ns", 20) - (W->engs[e].busy - b0);
	if (hf >= 0) join(hf, 1LL << 60);
	else if (f0 == fault_count(F_OVERSLEEP) + fault_count(F_STALL) + fault_count(F_CLOCKJUMP) && !p.k("eng_stall") && !p.k("f.oversleep") && took > 40LL * poll * 1000 + 5000000) oracle("C10", "life:slow-stop", "destroying an engine whose rings are all released took %lld us; its polling interval is %u us", (long long) took / 1000, poll);
	after_stop(p, e, e0, "destroying the engine");
	if (addressable(E, 1)) oracle("C10", "life:engine-leaked", "the engine still exists after its destruction");
	hogl::output *oo = W->engs[e].out; hogl::format *ff = W->engs[e].fmt; SUT((delete oo, 0)); SUT((delete ff, 0)); W->engs[e].out = 0;
	probe("second engine came and went");
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S; *st = S();
	int nthr = p.k("nthr"); st->prog.assign(nthr, 0); st->sc.resize(nthr); st->last_use = 0;
	int nact = 3, naux = 0; for (auto &o : p.ops) { if (o.kind == OP_ACT) nact++; if (o.kind == OP_AUX) naux++; }
	int half = std::max(nact, naux + 1); W->engs.resize(half * 2); W->nth.assign(nthr + 16, 0); for (auto &E : W->engs) { E.tso = p.k("tso") >= 0; E.cap = E.tso ? p.k("tso") : 0; }
	W->rings.reserve(512); W->posts.reserve(4096);
	// a default ring of the wanted size, as an application overriding default_ring_options gets
	{
		hogl::ringbuf::options *o = new hogl::ringbuf::options; o->capacity = p.k("dcap"); o->prio = 0; o->flags = hogl::ringbuf::SHARED | hogl::ringbuf::IMMORTAL; o->record_tailroom = 128;
		SUT((hogl::default_ring.~ringbuf(), ::new ((void *) &hogl::default_ring) hogl::ringbuf("DEFAULT", *o), 0));
		int ri = add_ring_info("DEFAULT", -1, &hogl::default_ring, *o); W->rings[ri].shared = true; st->live.assign(1, 1); st->born.assign(1, 0);
	}
	hogl::timesource *ts0 = ts_counter_src(); hogl::default_ring.timesource(ts0);
	st->uarea = SUT(new hogl::area("A2", g_sections)); for (int i = 0; i < 8; i++) SUT((st->uarea->enable(i), 0));
	u64 live0 = sut_live_blocks(), mark0 = alloc_mark();
	enable_faults(true);
	std::vector<int> fib;
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &o : p.ops) if (o.thr == t) ops.push_back(o);
		char nm[16]; snprintf(nm, sizeof nm, t ? "thr%d" : "life", t);
		fib.push_back(spawn(nm, [=, &p] {
			for (auto &o : ops) {
				op_begin(o.id); st->prog[t]++;
				switch (o.kind) {
				case OP_POST: gate_posts(t, o, st->uarea, 2); break;
				case OP_APOST: { if (!enter_api()) break; Api api_; int cyc = st->cyc; hogl::engine *e = hogl::default_engine; if ((int) st->earea.size() <= cyc) st->earea.resize(cyc + 1, 0); const hogl::area *a = SUT(e->add_area("A0", g_sections)); st->prog[t]++; noisy(cur_ring(t)); if (!a) { oracle("C12", "area:refused", "area A0 refused"); break; } gate_posts(t, o, a, 0); break; }
				case OP_AREA: { if (!enter_api()) break; Api api_; hogl::engine *e = hogl::default_engine; noisy(cur_ring(t)); const char **bad = new const char *[2]; bad[0] = "ODD"; bad[1] = 0; const hogl::area *a = SUT(e->add_area(o.a ? "HOGL" : "B0", o.a ? g_sections : bad)); delete [] bad; if (o.a && a) oracle("C12", "area:not-unique", "area HOGL was replaced"); break; }
				case OP_MASK: { if (!enter_api()) break; Api api_; hogl::engine *e = hogl::default_engine; hogl::mask *m = new hogl::mask(engine_mask(o.a)); if (o.a) for (auto &x : W->rings) x.shared = true; SUT((e->apply_mask(*m), 0)); delete m; break; }
				case OP_OPEN: op_open(p, t, o); break;
				case OP_CLOSE: if (st->sc[t].size()) close_top(t); break;
				case OP_SLEEP: sleep_ns(o.a * 1000); break;
				case OP_YIELD: yield_point(); break;
				case OP_ACT: op_act(p, t); break;
				case OP_DEACT: op_deact(p, t, false); break;
				case OP_DUP: op_dup(p); break;
				case OP_AUX: op_aux(p, t, o); break;
				}
				// while the engine waits for the scopes to end (free=0) do not keep it waiting forever
				if (st->closing && !p.k("free")) while (st->sc[t].size()) close_top(t);
			}
			op_begin(1000000 + t);
			while (st->sc[t].size()) close_top(t);
			check_cur(t, "at the end of the thread");
			st->last_use = now();
		}));
	}
	i64 limit = 3000000000LL + 500LL * p.k("poll") * 1000;
	for (int t = 0; t < nthr; t++) for (u64 seen = ~0ULL;;) {
		u64 sum = 0; for (u64 x : st->prog) sum += x;
		if (join(fib[t], limit)) break;
		u64 sum2 = 0; for (u64 x : st->prog) sum2 += x;
		if (sum2 != sum || sum2 != seen) { seen = sum2; continue; }
		std::string w; for (int i = 0; i < nthr; i++) if (!done(fib[i])) w += std::string(fiber_name(fib[i])) + ": " + where(fib[i]) + "; ";
		violate("hang:life", "threads do not finish: %s", w.c_str());
	}
	enable_faults(false);
	if (st->active) {
		// with every scope closed the engine gives the rings back while it goes on running
		int e = st->cyc; u64 l = W->engs[e].e->get_stats().loops;
		wait_until([&] { return W->engs[e].e->get_stats().loops >= l + 6; }, 600000000000LL, 500000);
		for (auto &x : st->inst) { RingInfo &ri = W->rings[x.second]; if (ri.eng == e && !st->live[x.second] && addressable(x.first, 1)) oracle("C15 C10 C13", "tls:ring-kept", "ring %s was released by everybody; six passes of the engine later it still exists", ri.name.c_str()); }
		hogl::string_list *l2 = SUT(new hogl::string_list); hogl::engine *E = W->engs[e].e; SUT((E->list_rings(*l2), 0));
		if (l2->size() != 1 || l2->front() != "DEFAULT") oracle("C15 C10 C13", "tls:ring-listed", "%zu rings are listed after all scopes ended", l2->size());
		SUT((delete l2, 0));
	}
	int life = spawn("life2", [&] {
		st->prog.push_back(0);
		int bye = p.k("bye");
		if (st->active && bye == 0) op_deact(p, 0, true);
		else if (st->active) op_deact(p, 0, false);
		// what was posted between two engines comes out of the next one
		op_act(p, 0); if (bye == 1) sleep_ns(p.k("poll") * 3000);
		op_deact(p, 0, bye == 0);
	});
	if (!join(life, 600000000000LL)) violate("hang:life", "the last deactivate does not finish: %s", where(life).c_str());
	if (sut_threads()) oracle("C10", "life:thread-leaked", "%d engine threads are still there after every engine was stopped", sut_threads());
	if (hogl::default_ring.refcnt() != 0) oracle("C10 C15", "life:default-ring-refs", "the default ring still has %d references after every engine and scope is gone", hogl::default_ring.refcnt());
	if (sut_live_blocks() != live0) { dump_live(mark0); oracle("C10 C15", "leak:blocks", "%lld allocations are left after every engine and scope is gone", (long long) (sut_live_blocks() - live0)); }
	if (!hogl::default_ring.empty()) oracle("C10", "life:default-ring-left", "the default ring is not empty after the last engine was stopped with no thread posting");
	W->rings[0].dropcnt = hogl::default_ring.dropcnt(); 
	for (auto &ri : W->rings) ri.r = 0;
	Checks c; c.tso_order = false; c.by_name = true; c.moving = true; evaluate(c);
	// what was posted before an engine was told to stop is out when it has stopped
	std::map<u64, const Obs *> out; for (auto &o : W->obs) if (o.kind == OB_REC) out[o.id] = &o;
	for (auto &d : st->de) for (auto &q : W->posts) {
		if (!q.returned || q.ev1 > d.e0 || (q.eng >= 0 && q.eng != d.eng)) continue;
		auto it = out.find(q.id); if (it == out.end()) continue;
		if (it->second->ev > d.e1) oracle("C10", "life:left-behind", "record %llx was posted before deactivate began and came out only after it had returned", (unsigned long long) q.id);
	}
	if (W->obs.size()) probe("records output");
	if (W->rings[0].dropcnt) probe("default ring dropped records");
}
const Scenario sc = { "life", "C10 C15 C22", generate, run, 0 };
Registrar reg_(&sc);
}
