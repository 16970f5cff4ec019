// Scheduling parameters: engines, log files and the default engine come and go, each with parameters of its own or sharing
// one object, the simulated kernel grants or refuses them. Serves C29.
#include "hog.h"
#include "hogl/detail/schedparam.hpp"
#include "hogl/output-file.hpp"
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_ENG = 1, OP_FILE, OP_BOTH, OP_ACT, OP_DEACT, OP_VALID, OP_SLEEP, OP_POST };
typedef std::string Str;
struct Enter { int fiber; u64 e0, e1, x; bool ret; i64 t0; };
struct Info { Str spec, what; std::vector<int> cpus; bool valid; int policy, prio; bool del, plain, shared; int uses; std::vector<Enter> en; int dtors, dtor_fiber; u64 dtor_ev, ended; };
struct S { std::vector<Info> info; std::vector<u64> prog; int starting; bool active, closing; int cyc, neng; const hogl::area *area; std::map<int, int> fib; u64 warns; hogl::schedparam *sh; int sh_i; hogl::schedparam *dflt; int dflt_i; u64 sched0; };
S *st;

// Affinity specifications together with what they mean.
void make_spec(u64 h, Info &I)
{
	Rng r(h); char b[200]; I.valid = true; I.cpus.clear();
	static const int lim[] = { 4, 16, 32, 64, 200, 256 };
	auto cpu = [&] { return (int) r.below(r.pick(lim)); };
	auto uniq = [&] { std::sort(I.cpus.begin(), I.cpus.end()); I.cpus.erase(std::unique(I.cpus.begin(), I.cpus.end()), I.cpus.end()); };
	u64 k = r.below(10);
	if (k < 2) { I.spec = ""; return; }
	if (k < 5) {
		I.spec = "list:"; int n = 1 + r.below(4);
		for (int i = 0; i < n; i++) { int a = cpu(), c = r.chance(1, 2) ? a : std::min<int>(255, a + r.below(12)); if (a == c && r.chance(3, 4)) snprintf(b, sizeof b, "%s%d", i ? "," : "", a); else snprintf(b, sizeof b, "%s%d-%d", i ? "," : "", a, c); I.spec += b; for (int x = a; x <= c; x++) I.cpus.push_back(x); }
		uniq(); return;
	}
	if (k < 8) {
		u64 m = 0; int n = 1 + r.below(5); for (int i = 0; i < n; i++) m |= 1ULL << (cpu() & 63); if (r.chance(1, 6)) m = r.next() | 1; if (r.chance(1, 20)) m = ~0ULL;
		for (int i = 0; i < 64; i++) if (m >> i & 1) I.cpus.push_back(i);
		snprintf(b, sizeof b, r.chance(1, 3) ? "%s%llu" : r.chance(1, 2) ? "%s0x%llx" : "%s0X%llX", r.chance(1, 2) ? "mask:" : "", (unsigned long long) m); I.spec = b; return;
	}
	static const char *const bad[] = { "list:", "list:3-1", "list:a", "list:1-", "list:256", "list:0,300", "list:0-256", "list:1;2", "list:1,,2", "list:,1", "list:-1", "mask:xyz", "0x1g", "0x", "99999999999999999999999", "mask:0x1 ", "cpu0", "list:4294967297", "list:0,4294967298-4294967299", "list:18446744073709551615", "1,2", "list:1.5" };
	I.valid = false; I.spec = r.pick(bad);
}
int new_info(u64 h, int id, bool plain)
{
	Info I; I.uses = 0; I.dtors = 0; I.dtor_fiber = -1; I.dtor_ev = 0; I.ended = 0; I.shared = false; I.plain = plain; I.del = mix(h, 1) % 3 == 0; make_spec(mix(h, 2), I);
	if (plain) { I.policy = SCHED_FIFO; I.prio = 1 + id % 99; }
	else switch (mix(h, 3) % 6) { case 0: case 1: I.policy = SCHED_OTHER; I.prio = 0; break; case 2: I.policy = SCHED_FIFO; I.prio = 1 + mix(h, 4) % 99; break; case 3: I.policy = SCHED_RR; I.prio = 1 + mix(h, 4) % 99; break; case 4: I.policy = SCHED_FIFO; I.prio = mix(h, 4) % 2 ? 0 : 150; break; default: I.policy = mix(h, 4) % 2 ? SCHED_OTHER : 77; I.prio = 5; }
	st->info.push_back(I); return st->info.size() - 1;
}
struct Par : public hogl::schedparam {
	int i;
	Par(int i_, int pol, int pr, unsigned fl, const char *s) : hogl::schedparam(pol, pr, fl, s), i(i_) {}
	virtual bool thread_enter(const char *title);
	virtual void thread_exit();
	virtual ~Par();
};
bool Par::thread_enter(const char *title)
{
	int x = i; size_t k;
	{
		Quiet q; Info &I = st->info[x]; Enter e; e.fiber = self(); e.e0 = event(); e.e1 = e.x = 0; e.ret = false; e.t0 = now(); k = I.en.size(); I.en.push_back(e);
		if (!title || strncmp(title, "hogl", 4)) oracle("C29", "sched:title", "thread_enter was given the title %s", title ? title : "(null)");
		if (st->fib.count(self())) oracle("C29", "sched:enter-twice", "thread_enter was called again on the thread of %s", I.what.c_str());
		st->fib[self()] = x;
		if (I.dtors) oracle("C29", "sched:late-enter", "thread_enter on parameters already deleted (%s)", I.what.c_str());
	}
	bool ok = hogl::schedparam::thread_enter(title);
	{
		Quiet q; Info &I = st->info[x]; I.en[k].e1 = event(); I.en[k].ret = ok; st->starting--;
		// what the kernel was asked for in between, by this thread
		const std::vector<SchedRec> &l = sched_log(); int na = 0, ns = 0, refused = 0; std::vector<int> want = I.cpus;
		for (auto &s : l) if (s.caller == I.en[k].fiber && s.ev > I.en[k].e0) {
			if (s.target != s.caller) oracle("C29", "sched:other-thread", "the parameters of %s are applied to another thread", I.what.c_str());
			if (s.err) refused++;
			if (s.affinity) {
				na++;
				if (s.cpus != want) { Str got; for (int c : s.cpus) { char b[12]; snprintf(b, sizeof b, " %d", c); got += b; } oracle("C29", "sched:cpus", "affinity \"%s\" puts the thread on CPUs%s", I.spec.c_str(), got.c_str()); }
			} else { ns++; if (s.policy != I.policy || s.prio != I.prio) oracle("C29", "sched:params", "policy %d priority %d asked for, %d %d applied", I.policy, I.prio, s.policy, s.prio); }
		}
		if (I.valid && !I.spec.empty() && !na) oracle("C29", "sched:no-affinity", "affinity \"%s\" is not applied", I.spec.c_str());
		if ((!I.valid || I.spec.empty()) && na) oracle("C29", "sched:bad-affinity", "affinity \"%s\" is applied", I.spec.c_str());
		if (!ns) oracle("C29", "sched:no-params", "policy and priority are not applied (affinity \"%s\")", I.spec.c_str());
		bool good = I.valid && !refused; st->warns += !I.valid + refused;
		if (ok != good) oracle("C29", "sched:result", "thread_enter returned %d with affinity \"%s\" and %d refused calls", ok, I.spec.c_str(), refused);
		probe(refused ? "parameters refused" : !I.valid ? "affinity not understood" : na ? "affinity applied" : "policy applied");
	}
	return ok;
}
void Par::thread_exit()
{
	{
		Quiet q; Info &I = st->info[i]; bool found = false;
		for (auto &e : I.en) if (e.fiber == self()) { found = true; if (e.x) oracle("C29", "sched:exit-twice", "thread_exit was called twice on the thread of %s", I.what.c_str()); if (!e.e1) oracle("C29", "sched:exit-early", "thread_exit before thread_enter was over"); e.x = event(); }
		if (!found) oracle("C29", "sched:exit-elsewhere", "thread_exit of the parameters of %s called on a thread that did not enter with them", I.what.c_str());
	}
	hogl::schedparam::thread_exit();
}
Par::~Par() { Quiet q; Info &I = st->info[i]; I.dtors++; I.dtor_fiber = sim::self(); I.dtor_ev = event(); }

struct Fmt : public hogl::format {
	Str rec;
	virtual void process(hogl::ostrbuf &s, const data &) { s.push_back(rec.c_str()); }
	virtual void header(hogl::ostrbuf &s, const char *, bool) { s.push_back("<<"); }
	virtual void footer(hogl::ostrbuf &s, const char *) { s.push_back(">>"); }
};

void generate(Plan &p, Rng &r)
{
	int nthr = 1 + r.below(3); p.set("nthr", nthr); bool def = r.chance(1, 2); p.set("def", def); p.set("plain", !def && r.chance(1, 3)); p.set("h", r.next() >> 2);
	static const int polls[] = { 1000, 1000, 3000, 10000 }, sinks[] = { 1, 40, 512, 8192 }, us[] = { 1, 20, 200, 1000, 2000, 5000, 12000 };
	p.set("poll", r.pick(polls)); p.set("sink", r.pick(sinks)); p.set("bye", r.below(2)); p.set("ts", r.below(2));
	if (def) p.op(0, OP_ACT, r.below(3) ? r.next() >> 2 : 0);
	for (int t = 0; t < nthr; t++) {
		int n = 1 + r.below(5);
		for (int i = 0; i < n; i++) {
			u64 x = r.below(100); i64 h = r.next() >> 2;          // parameters; a = 0: none, 1: the shared object
			i64 a = r.chance(1, 12) ? 0 : r.chance(1, 5) ? 1 : h;
			if (x < 35) p.op(t, OP_ENG, a, r.below(8), r.pick(us), r.below(6));
			else if (x < 65) p.op(t, OP_FILE, a, r.below(12), r.pick(us), r.below(6));
			else if (x < 80) p.op(t, OP_BOTH, a, r.below(8), r.chance(1, 3) ? 1 : r.next() >> 2, r.below(6));
			else if (x < 90) p.op(t, OP_VALID, h);
			else if (x < 95 || !def) p.op(t, OP_SLEEP, r.pick(us));
			else if (t == 0) { p.op(t, OP_DEACT); p.op(t, OP_ACT, r.below(3) ? r.next() >> 2 : 0); }
			else p.op(t, OP_POST, 1 + r.below(4));
		}
	}
	if (def && r.chance(1, 2)) p.op(0, OP_DEACT);
	static const int rates[] = { 30000, 200000, 600000 };
	if (r.chance(1, 2)) p.set("f.sched_refused", r.pick(rates));
	if (r.chance(1, 4)) p.set("f.slow_io", 30000);
	if (r.chance(1, 6)) p.set("f.spurious_wakeup", 50000);
	if (r.chance(1, 6)) p.set("f.oversleep", 20000);
	p.set("max_s", 3000);
}

// Messages about refused parameters refer to the default engine: it is not stopped while threads are just starting.
void begin(bool held = false) { if (!held) wait_until([] { return !st->closing; }, 1LL << 60, 20000); st->starting++; }
// A new parameter object as an application makes one; thread count n of them will use it.
hogl::schedparam *make_par(const Plan &p, i64 a, int id, const char *what, int &ix, bool held = false)
{
	if (a == 0) { ix = -1; return 0; }
	begin(held);
	if (a == 1 && st->sh) { ix = st->sh_i; st->info[ix].uses++; if (st->info[ix].plain) st->starting--; return st->sh; }
	bool plain = p.k("plain"); ix = new_info(a, id, plain); Info &I = st->info[ix]; I.what = what; I.uses = 1; if (plain) st->starting--;
	int pol = I.policy, pr = I.prio; unsigned fl = I.del ? hogl::schedparam::DELETE_ON_EXIT : 0; Str *spec = new Str(I.spec); int i = ix; hogl::schedparam *r = 0;
	if (plain) r = SUT(new hogl::schedparam(pol, pr, fl, spec->c_str())); else r = SUT(new Par(i, pol, pr, fl, spec->c_str()));
	delete spec; return r;
}
// The engine or file that used the object is gone.
void end_par(int ix, hogl::schedparam *sp, const char *what)
{
	if (ix < 0) return;
	u64 ev = event(); Info &I = st->info[ix];
	if (I.plain) {
		// by its priority, which no other object has
		int ns = 0, fb = -1, na = 0; for (auto &s : sched_log()) if (!s.affinity && s.prio == I.prio) { ns++; fb = s.caller; if (s.target != s.caller) oracle("C29", "sched:other-thread", "the parameters of %s are applied to another thread", what); if (s.policy != I.policy) oracle("C29", "sched:params", "another policy is applied"); }
		if (!I.shared && ns != 1) oracle("C29", "sched:no-params", "the parameters of %s were applied %d times", what, ns);
		if (!I.shared) for (auto &s : sched_log()) if (s.affinity && s.caller == fb) { na++; if (s.cpus != I.cpus) oracle("C29", "sched:cpus", "affinity \"%s\" puts the thread on %zu CPUs", I.spec.c_str(), s.cpus.size()); }
		if (!I.shared && na != (I.valid && !I.spec.empty())) oracle("C29", "sched:no-affinity", "affinity \"%s\" is applied %d times", I.spec.c_str(), na);
		if (I.del && !I.shared) { if (addressable(sp, 1)) oracle("C29", "sched:not-deleted", "DELETE_ON_EXIT parameters of %s still exist after its thread ended", what); }
		else if (!addressable(sp, sizeof *sp)) oracle("C29", "sched:deleted", "the parameters of %s were deleted although they do not ask for it", what);
	} else if (!I.shared) {
		if (I.en.size() != 1) { oracle("C29", "sched:entered", "the thread of %s called thread_enter %zu times", what, I.en.size()); return; }
		if (!I.en[0].x) oracle("C29", "sched:no-exit", "the thread of %s is gone and never called thread_exit", what);
		if (I.del && (I.dtors != 1 || I.dtor_fiber != I.en[0].fiber)) oracle("C29", "sched:not-deleted", "DELETE_ON_EXIT parameters of %s were deleted %d times", what, I.dtors);
		if (!I.del && I.dtors) oracle("C29", "sched:deleted", "the parameters of %s were deleted although they do not ask for it", what);
	}
	if (!I.shared && !I.del) SUT((delete sp, 0));               // nothing uses them any more
	I.ended = ev; st->prog[0]++;
}
// All output of a thread lies between its thread_enter and its thread_exit.
void check_thread(const char *what)
{
	int f = sim::self(); auto it = st->fib.find(f); if (it == st->fib.end()) return;
	for (auto &e : st->info[it->second].en) if (e.fiber == f && (!e.e1 || e.x)) oracle("C29", "sched:outside", "%s while the thread %s", what, e.x ? "had already called thread_exit" : "was still in thread_enter");
}
struct WFmt : public ObsFormat {
	int ix;
	WFmt(int e, int i) : ObsFormat(e, 0), ix(i) {}
	virtual void process(hogl::ostrbuf &s, const data &d) { { Quiet q; check_thread("a record was formatted"); if (ix >= 0 && !st->info[ix].plain && !st->fib.count(sim::self())) oracle("C29", "sched:not-entered", "a record was formatted by a thread that has not applied its parameters"); } ObsFormat::process(s, d); }
};
hogl::engine::options eopts(const Plan &p, hogl::schedparam *sp)
{
	hogl::engine::options o = hogl::engine::default_options; o.default_mask = hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0); o.polling_interval_usec = p.k("poll"); o.tso_buffer_capacity = 64; o.timesource = p.k("ts") ? ts_clock_src() : ts_counter_src(); o.schedparam = sp; return o;
}
hogl::output_file *make_file(const Plan &p, const Op &o, hogl::format &f, hogl::schedparam *sp)
{
	char b[64]; snprintf(b, sizeof b, "/sim/log/f%d.#", o.id); Str *nm = new Str(b); hogl::output_file::options *fo = new hogl::output_file::options(hogl::output_file::default_options); fo->max_size = 60; fo->max_count = 1000; fo->buffer_capacity = p.k("sink"); fo->schedparam = sp;
	hogl::output_file *r = SUT(new hogl::output_file(nm->c_str(), f, *fo)); delete nm; delete fo; return r;
}
Eng &new_eng(const Plan &p, int &e) { e = st->neng++; Eng &E = W->engs[e]; E.poll = p.k("poll"); E.tso = true; E.cap = 64; return E; }
void use_engine(const Plan &p, int t, const Op &o, int e, int n, i64 us)
{
	(void) p; hogl::engine *E = W->engs[e].e; char nm[24]; snprintf(nm, sizeof nm, "E%d", o.id);
	const hogl::area *a = SUT(E->add_area("A0", g_sections)); hogl::ringbuf::options *ro = new hogl::ringbuf::options; ro->capacity = 16; ro->prio = 0; ro->flags = 0; ro->record_tailroom = 128;
	hogl::ringbuf *r = SUT(E->add_ring(nm, *ro)); if (!a || !r) violate("setup", "no ring");
	int ri = add_ring_info(nm, e, r, *ro); for (int k = 0; k < n; k++) { st->prog[t]++; do_post(t, ri, a, 0, k & 7, 0); }
	if (us > 1) sleep_ns(us * 1000);
	W->rings[ri].dropcnt = r->dropcnt(); W->rings[ri].r = 0; SUT((r->release(), 0)); delete ro;
}
void end_eng(int e) { Eng &E = W->engs[e]; hogl::engine *x = E.e; SUT((delete x, 0)); E.e = 0; hogl::output *o = E.out; hogl::format *f = E.fmt; SUT((delete o, 0)); SUT((delete f, 0)); W->engs[e].out = 0; W->engs[e].fmt = 0; }
void op_eng(const Plan &p, int t, const Op &o)
{
	int ix, e, ix2 = -1; new_eng(p, e); hogl::schedparam *sp = make_par(p, o.a, o.id, "an engine", ix), *sp2 = 0; bool both = o.kind == OP_BOTH;
	hogl::format *f = SUT(new WFmt(e, ix)); W->engs[e].fmt = f; hogl::output *out;
	if (both) { sp2 = make_par(p, o.c, o.id + 50, "the file of an engine", ix2, sp && !st->info[ix].plain); out = make_file(p, o, *f, sp2); } else { unsigned cap = p.k("sink"); out = SUT(new MemOutput(*f, e, cap)); }
	W->engs[e].out = out; hogl::engine::options *eo = new hogl::engine::options(eopts(p, sp)); hogl::engine *E = SUT(new hogl::engine(*out, *eo)); W->engs[e].e = E; delete eo;
	if (E->get_options().schedparam != sp) oracle("C29", "sched:options", "get_options does not report the parameters the engine was given");
	if (o.d == 0) probe("destroyed at once"); else use_engine(p, t, o, e, o.b, both ? 1 : o.c);
	hogl::engine *x = E; SUT((delete x, 0)); W->engs[e].e = 0;
	if (ix >= 0 && st->info[ix].shared) st->info[ix].ended++; else end_par(ix, sp, "an engine");
	SUT((delete out, 0)); if (ix2 >= 0 && st->info[ix2].shared) ; else end_par(ix2, sp2, "a log file");
	SUT((delete f, 0)); W->engs[e].out = 0; W->engs[e].fmt = 0;
}
void op_file(const Plan &p, int t, const Op &o)
{
	int ix; hogl::schedparam *sp = make_par(p, o.a, o.id, "a log file", ix); Fmt *F = new Fmt; F->rec = "<a record of twenty>"; hogl::output_file *f = make_file(p, o, *F, sp);
	hogl::format::data *d = new hogl::format::data; memset(d, 0, sizeof *d);
	for (int k = 0; k < o.b; k++) { st->prog[t]++; SUT((f->process(*d), 0)); SUT((f->flush(), 0)); if (o.c > 1 && k % 3 == 2) sleep_ns(o.c * 1000); }
	SUT((delete f, 0)); delete d; delete F; if (ix >= 0 && st->info[ix].shared) ; else end_par(ix, sp, "a log file");
}
void op_act(const Plan &p, const Op &o)
{
	if (st->active) return;
	int e; new_eng(p, e); int ix; hogl::schedparam *sp = make_par(p, o.a > 1 ? o.a : 0, o.id, "the default engine", ix); st->dflt = sp; st->dflt_i = ix; st->cyc = e;
	hogl::format *f = SUT(new WFmt(e, ix)); W->engs[e].fmt = f; unsigned cap = p.k("sink"); hogl::output *out = SUT(new MemOutput(*f, e, cap)); W->engs[e].out = out;
	hogl::engine::options *eo = new hogl::engine::options(eopts(p, sp)); begin(); SUT((hogl::activate(*out, *eo), 0)); st->starting--; delete eo; W->engs[e].e = hogl::default_engine; st->active = true; 
}
void op_deact(const Plan &p, bool at_exit)
{
	(void) p; if (!st->active) return;
	st->closing = true; wait_until([&] { return st->starting == 0; }, 1LL << 60, 20000);
	int e = st->cyc; if (at_exit) { run_exit_handlers(); probe("default engine stopped at exit"); } else SUT((hogl::deactivate(), 0));
	st->closing = st->active = false; W->engs[e].e = 0; end_par(st->dflt_i, st->dflt, "the default engine");
	hogl::output *out = W->engs[e].out; hogl::format *f = W->engs[e].fmt; SUT((delete out, 0)); SUT((delete f, 0)); W->engs[e].out = 0; W->engs[e].fmt = 0;
}
void op_valid(const Plan &p, const Op &o)
{
	(void) p; Info I; make_spec(mix(o.a, 2), I); Str *spec = new Str(I.spec); hogl::schedparam *sp = SUT(new hogl::schedparam(SCHED_OTHER, 0, hogl::schedparam::DELETE_ON_EXIT, spec->c_str()));
	size_t n0 = sched_log().size(); int me = self(); begin(); bool ok = SUT(sp->validate()); st->starting--;
	if (ok != I.valid) oracle("C29", "sched:validate", "validate() says affinity \"%s\" is %s", I.spec.c_str(), ok ? "valid" : "not valid");
	for (size_t k = n0; k < sched_log().size(); k++) if (sched_log()[k].caller == me) oracle("C29", "sched:validate", "validate() changes the calling thread");
	if (!ok) st->warns++;
	SUT((delete sp, 0)); delete spec; probe(ok ? "validated" : "validation failed");
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S; st->starting = 0; st->active = st->closing = false; st->cyc = -1; st->neng = 0; st->warns = 0; st->sh = 0; st->sh_i = -1;
	int nthr = p.k("nthr"); st->prog.assign(nthr + 1, 0); W->nth.assign(nthr + 1, 0); st->info.reserve(256); W->rings.reserve(256); W->posts.reserve(2048); int ne = 1; for (auto &o : p.ops) ne += o.kind == OP_ENG || o.kind == OP_BOTH || o.kind == OP_ACT; W->engs.resize(ne); for (auto &E : W->engs) { E.tso = true; E.cap = 64; }
	{
		hogl::ringbuf::options *o = new hogl::ringbuf::options; o->capacity = 256; o->prio = 0; o->flags = hogl::ringbuf::SHARED | hogl::ringbuf::IMMORTAL; o->record_tailroom = 128;
		SUT((hogl::default_ring.~ringbuf(), ::new ((void *) &hogl::default_ring) hogl::ringbuf("DEFAULT", *o), 0));
		int ri = add_ring_info("DEFAULT", -1, &hogl::default_ring, *o); W->rings[ri].shared = true; delete o;
	}
	hogl::timesource *ts0 = p.k("ts") ? ts_clock_src() : ts_counter_src(); hogl::default_ring.timesource(ts0);
	st->area = SUT(new hogl::area("A2", g_sections)); for (int i = 0; i < 8; i++) SUT((const_cast<hogl::area *>(st->area)->enable(i), 0));
	u64 live0 = sut_live_blocks(), mark0 = alloc_mark();
	{ Plan q = p; int ix; q.set("plain", p.k("plain")); st->sh = 0; hogl::schedparam *s = make_par(q, p.k("h") | 2, 98, "several", ix); if (!st->info[ix].plain) st->starting--; st->info[ix].uses = 0; st->info[ix].shared = true; st->sh = s; st->sh_i = ix; 
	  if (st->info[ix].del) { st->info[ix].del = false; s->flags = 0; } }
	enable_faults(true);
	std::vector<int> fib;
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &o : p.ops) if (o.thr == t) ops.push_back(o);
		fib.push_back(spawn(t ? "user" : "life", [=, &p] {
			for (auto &o : ops) {
				op_begin(o.id); st->prog[t]++;
				switch (o.kind) {
				case OP_ENG: case OP_BOTH: op_eng(p, t, o); break;
				case OP_FILE: op_file(p, t, o); break;
				case OP_ACT: op_act(p, o); break;
				case OP_DEACT: op_deact(p, p.k("bye")); break;
				case OP_VALID: op_valid(p, o); break;
				case OP_SLEEP: sleep_ns(o.a * 1000); break;
				case OP_POST: for (int k = 0; k < o.a; k++) do_post(t, 0, st->area, 2, k & 7, 0, true); break;
				}
			}
		}));
	}
	for (int t = 0; t < nthr; t++) for (u64 seen = ~0ULL;;) {
		if (join(fib[t], 60000000000LL)) break;
		u64 sum = 0; for (u64 x : st->prog) sum += x;
		if (sum != seen) { seen = sum; continue; }
		oracle("C29", "sched:hang", "an engine or log file does not come up or go away: %s", where(fib[t]).c_str()); violate("hang:sched", "threads do not finish: %s", where(fib[t]).c_str());
	}
	enable_faults(false);
	int lf = spawn("life2", [&] {
		op_begin(900000);
		op_deact(p, false);
		Plan q = p; Op o; memset(&o, 0, sizeof o); o.id = 900001; op_act(q, o); sleep_ns(p.k("poll") * 3000); op_deact(q, false);
		hogl::schedparam *s = st->sh; Info &I = st->info[st->sh_i];
		if (!addressable(s, 1)) oracle("C29", "sched:deleted", "shared parameters were deleted although they do not ask for it"); else SUT((delete s, 0));
		if (!I.plain) { if ((int) I.en.size() != I.uses) oracle("C29", "sched:entered", "%d threads use the shared parameters, thread_enter was called %zu times", I.uses, I.en.size()); for (auto &e : I.en) if (!e.x) oracle("C29", "sched:no-exit", "a thread is gone and never called thread_exit"); }
		else { int n = 0; for (auto &r : sched_log()) n += !r.affinity && r.prio == I.prio; if (n != I.uses) oracle("C29", "sched:entered", "%d threads use the shared parameters, they were applied %d times", I.uses, n); }
	});
	if (!join(lf, 600000000000LL)) violate("hang:sched", "the last deactivate does not finish: %s", where(lf).c_str());
	if (sut_threads()) oracle("C29", "sched:thread-leaked", "%d threads are left", sut_threads());
	if (sut_live_blocks() != live0) { dump_live(mark0); oracle("C29", "leak:blocks", "%lld allocations are left", (long long) (sut_live_blocks() - live0)); }
	// no thread was touched that was given nothing
	if (!p.k("plain")) for (auto &s : sched_log()) if (!st->fib.count(s.caller)) oracle("C29", "sched:outside", "a thread that was given no parameters changes its own");
	// refused parameters are reported, each once
	if (!p.k("plain")) {
		Str err; u64 got = 0; vfs::read_file("/sim/dev/stderr", err); for (size_t q = 0; (q = err.find("warn:", q)) != Str::npos; q++) got++;
		for (auto &o : W->obs) got += o.kind == OB_INTERNAL && o.tag == "WARN";
		if (!hogl::default_ring.dropcnt() && got != st->warns) oracle("C29", "sched:warnings", "%llu refusals, %llu warnings", (unsigned long long) st->warns, (unsigned long long) got);
	}
	W->rings[0].dropcnt = hogl::default_ring.dropcnt(); for (auto &ri : W->rings) ri.r = 0;
	std::map<u64, int> cnt; for (auto &o : W->obs) if (o.kind == OB_REC) cnt[o.id]++;
	std::map<int, std::pair<u64, u64> > per; for (auto &q : W->posts) { if (!q.enabled) continue; auto &z = per[q.ring]; z.first++; int n = cnt.count(q.id) ? cnt[q.id] : 0; if (n > 1) oracle("C29", "sched:records", "record %llx came out twice", (unsigned long long) q.id); z.second += n; }
	for (auto &z : per) if (z.second.second + W->rings[z.first].dropcnt != z.second.first) oracle("C29", "sched:records", "ring %s: %llu records posted, %llu delivered, %llu dropped", W->rings[z.first].name.c_str(), (unsigned long long) z.second.first, (unsigned long long) z.second.second, (unsigned long long) W->rings[z.first].dropcnt);
	if (W->obs.size()) probe("records output");
}
const Scenario sc = { "sched", "C29", generate, run, 0 };
Registrar reg_(&sc);
}
