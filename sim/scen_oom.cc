// Running out of memory, threads or mutexes: one chosen request (or all from there on) made by one call fails, while a real
// engine with posting threads is running next to it. Serves C25.
#include "hog.h"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-pipe.hpp"
#include "hogl/output-tee.hpp"
#include <string.h>
#include <stdlib.h>
#include <stdexcept>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_POST = 1, OP_SLEEP, OP_YIELD, OP_ENG, OP_RING, OP_RINGP, OP_AREA, OP_TLS, OP_MASK, OP_LIST, OP_OUT, OP_ACT, OP_HOUSE, OP_ROT, OP_BAD, OP_HUGE };
const char *const opname[] = { "", "", "", "", "creating an engine", "add_ring(name)", "creating and adding a ring", "add_area", "creating a thread-local ring", "apply_mask", "a look-up", "creating an output", "activate", "", "rotation", "a refused call", "adding a ring larger than memory" };
typedef std::string Str;
#define ULL(x) ((unsigned long long) (x))
#define AK (1u << F_ALLOC)
struct S { std::vector<const hogl::area *> areas; std::vector<u64> prog; int neng; int mask; hogl::engine *base; int eng_fiber; bool noisy; int tlsring; std::vector<Str> anames; std::vector<Str> rnames; };
S *st;

struct Fmt : public hogl::format {
	Str fed; int n;
	Fmt() : n(0) {}
	virtual void process(hogl::ostrbuf &s, const data &d) { Str r; { Quiet q; char b[40]; snprintf(b, sizeof b, "<record %d of this output>\n", n++); r = b; fed += r; } s.push_back(r.c_str()); }
	virtual void header(hogl::ostrbuf &s, const char *, bool) { s.push_back("\001H\002"); }
	virtual void footer(hogl::ostrbuf &s, const char *) { s.push_back("\001F\002"); }
};
Str strip(const Str &c, int &heads, int &feet)
{
	Str r; heads = feet = 0;
	for (size_t i = 0; i < c.size(); i++) { if (c[i] != 1) { r += c[i]; continue; } if (i + 2 < c.size() && c[i + 2] == 2) { if (c[i + 1] == 'H') heads++; else feet++; } i += 2; }
	return r;
}

void generate(Plan &p, Rng &r)
{
	int nthr = 1 + r.below(3); p.set("nthr", nthr);                    // thread 0 makes the failing calls
	static const int polls[] = { 1000, 1000, 3000, 10000 }, tsos[] = { 1, 4, 16, 64, 4096 }, caps[] = { 2, 4, 8, 16, 64, 256 }, sinks[] = { 1, 40, 512, 8192 };
	p.set("poll", r.pick(polls)); p.set("tso", r.chance(1, 4) ? -1 : r.pick(tsos)); p.set("sink", r.pick(sinks)); p.set("debug", r.chance(1, 3)); p.set("ts", r.below(2)); p.set("long", r.below(2)); p.set("own", r.below(2));
	static const int us[] = { 1, 20, 200, 1000, 2000, 5000, 12000 };
	int n = 2 + r.below(8); bool house = r.chance(1, 4);
	for (int i = 0; i < n; i++) {
		u64 x = r.below(100); u64 nth = 1 + r.below(1 << (1 + r.below(7))), cnt = r.chance(3, 4) ? 1 : 100000; u32 k = AK;
		if (x < 16) { if (r.chance(1, 2)) k = 1u << F_THREAD, nth = 1; p.op(0, OP_ENG, nth, cnt, k, r.below(64)); }
		else if (x < 32) { if (r.chance(1, 3)) k = 1u << F_MUTEXINIT, nth = 1 + r.below(2); p.op(0, r.chance(1, 2) ? OP_RING : OP_RINGP, nth, cnt, k, r.pick(caps)); }
		else if (x < 46) p.op(0, OP_AREA, nth, cnt, k, r.below(12));
		else if (x < 58) { if (r.chance(1, 3)) k = 1u << F_MUTEXINIT, nth = 1 + r.below(2); p.op(0, OP_TLS, nth, cnt, k, r.pick(caps)); }
		else if (x < 65) p.op(0, OP_MASK, nth, cnt, k, r.below(3));
		else if (x < 72) p.op(0, OP_LIST, 1 + r.below(6), cnt, k, r.below(4));
		else if (x < 84) { if (r.chance(1, 4)) k = 1u << F_THREAD, nth = 1; else if (r.chance(1, 3)) k = 1u << F_OPEN, nth = 1 + r.below(4); p.op(0, OP_OUT, nth, cnt, k, r.below(4) | r.below(2) << 8); }
		else if (x < 93) { if (r.chance(1, 4)) k = 1u << F_THREAD, nth = 1; else if (r.chance(2, 3)) nth = 1 + r.below(64); p.op(0, OP_ACT, nth, cnt, k, r.below(64)); }
		else if (x < 96) p.op(0, OP_SLEEP, r.pick(us));
		else p.op(0, OP_BAD, nth, cnt, k, r.below(2));
		if (r.chance(1, 24)) p.op(0, OP_HUGE, 0, 0, 0, r.below(11));
		if (house && r.chance(1, 2)) p.op(0, r.chance(1, 2) ? OP_HOUSE : OP_ROT, 1 + r.below(1 << (1 + r.below(5))), 1, k, r.pick(caps));
	}
	for (auto &o : p.ops) if (o.kind == OP_ACT) p.set("own", 0);       // a thread-local ring keeps the default ring, and so the default engine, alive
	int nops = nthr > 1 ? 6 + r.below(40) : 0;
	for (int i = 0; i < nops; i++) { int t = 1 + r.below(nthr - 1); u64 x = r.below(100); if (x < 70) p.op(t, OP_POST, 1 + r.below(6), r.chance(1, 2) ? 0 : r.below(NVARIANT), r.below(8)); else if (x < 92) p.op(t, OP_SLEEP, r.pick(us)); else p.op(t, OP_YIELD); }
	if (r.chance(1, 4)) p.set("f.slow_io", 30000);
	p.set("max_s", 3000);
}

struct Res { bool fired, threw; Str what; };
// Runs fn in the simulated process with the planned failure armed. fn reports failure by an exception (or by its own means).
template<class F> Res attempt(const Op *o, F fn)
{
	Res r; r.threw = false; Str what; 
	if (o) arm_fail(self(), o->c, o->a, o->b);
	{
		Sut s;
		try { fn(); } catch (std::bad_alloc &) { r.threw = true; Quiet q; what = "bad_alloc"; } catch (std::exception &x) { r.threw = true; Quiet q; what = x.what(); }
	}
	r.fired = disarm() > 0; r.what = what;
	if (o && r.fired) probe(r.threw ? "call failed with an exception" : "failure did not surface as an exception");
	if (r.threw && !r.fired) oracle("C25", "oom:spurious", "%s failed (%s) although nothing it needs was refused", o ? opname[o->kind] : "the retried call", what.c_str());
	return r;
}
struct Before { int thr, fds; u64 blocks; Before() : thr(sut_threads()), fds(vfs::open_fds()), blocks(sut_live_blocks()) {} };
void failed(const Op &o, const Before &b, u64 extra = 0)
{
	if (sut_threads() != b.thr) oracle("C25", "oom:thread-leak", "%s failed but left %d thread(s) behind", opname[o.kind], sut_threads() - b.thr);
	if (vfs::open_fds() != b.fds) oracle("C25", "oom:fd-leak", "%s failed but left %d descriptor(s) open", opname[o.kind], vfs::open_fds() - b.fds);
	// the engine next to it may be in the middle of rebuilding its index
	wait_until([=] { return crashed() || sut_live_blocks() <= b.blocks + extra; }, 200000000LL, 100000);
	if (!crashed() && sut_live_blocks() > b.blocks + extra) oracle("C25", "oom:leak", "%s failed but left %llu allocation(s) behind", opname[o.kind], ULL(sut_live_blocks() - b.blocks));
}
hogl::mask test_mask(const Plan &p, int k)
{
	const char *dbg = p.k("debug") ? "HOGL:.*" : "!HOGL:.*DEBUG.*";
	switch (k) { case 0: return hogl::mask(".*:.*", dbg, 0); case 1: return hogl::mask(".*:.*", "!M.*:S[0-3]", dbg, 0); default: return hogl::mask(".*:.*", "!M.*:.*", "M.*:S7", dbg, 0); }
}
bool expected(int k, const Str &area, int sect) { if (area[0] != 'M' || k == 0) return true; if (k == 1) return sect > 3; return sect == 7; }
void check_areas(const char *when)
{
	for (auto &n : st->anames) {
		const hogl::area *a = SUT(st->base->find_area(n.c_str())); if (!a) { oracle("C25", "oom:area-lost", "area %s is not found any more %s", n.c_str(), when); continue; }
		for (int s = 0; s < 8; s++) if (a->test(s) != expected(st->mask, n, s)) { oracle("C25", "oom:mask", "%s section %s:S%d is %s", when, n.c_str(), s, a->test(s) ? "enabled" : "disabled"); break; }
	}
}
Str ring_name(const Plan &p, const char *pre, int id) { char b[80]; snprintf(b, sizeof b, "%s%d%s", pre, id, p.k("long") ? "_with_a_name_that_does_not_fit_in_the_string_itself" : ""); return b; }
hogl::ringbuf::options ropts(int cap) { hogl::ringbuf::options o; o.capacity = cap; o.prio = cap % 100; o.flags = 0; o.record_tailroom = 128; return o; }
int use_ring(const Str &name, int e, hogl::ringbuf *r, const hogl::ringbuf::options &o, int n, bool tls = false)
{
	if (!addressable(r, sizeof *r) || strcmp(r->name() ? r->name() : "(null)", name.c_str()) || r->capacity() < o.capacity) { oracle("C25", "oom:broken-ring", "the ring handed out for %s has name %s and capacity %u (%u wanted)", name.c_str(), r->name() ? r->name() : "(null)", r->capacity(), o.capacity); violate("oom:broken-ring", "cannot go on"); }
	int ri = add_ring_info(name, e, r, o); if (st->noisy) W->rings[ri].shared = true;
	for (int k = 0; k < n; k++) { st->prog[0]++; do_post(0, ri, st->areas[e], 0, k & 7, 0, tls); }
	return ri;
}
void drop_ring(int ri) { RingInfo &i = W->rings[ri]; i.dropcnt = i.r->dropcnt(); i.closed = true; hogl::ringbuf *r = i.r; i.r = 0; SUT((r->release(), 0)); }
hogl::engine::options eopts(const Plan &p)
{
	hogl::engine::options o = hogl::engine::default_options; o.default_mask = test_mask(p, 0); o.polling_interval_usec = p.k("poll"); i64 tso = p.k("tso"); o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = tso >= 0 ? 0 : hogl::engine::DISABLE_TSO;
	o.timesource = p.k("ts") ? ts_clock_src() : ts_counter_src(); return o;
}
int new_eng(const Plan &p)
{
	int e = st->neng++; Eng &E = W->engs[e]; E.poll = p.k("poll"); E.tso = p.k("tso") >= 0; E.cap = E.tso ? std::max<i64>(p.k("tso"), 1) : 0;
	hogl::format *f = SUT(new ObsFormat(e, 0)); E.fmt = f; unsigned cap = p.k("sink"); hogl::output *o = SUT(new MemOutput(*f, e, cap)); W->engs[e].out = o; return e;
}
const hogl::area *eng_area(int e) { hogl::engine *E = W->engs[e].e; const hogl::area *a = SUT(E->add_area("A0", g_sections)); if (!a) violate("setup", "no area"); if ((int) st->areas.size() <= e) st->areas.resize(e + 1, 0); st->areas[e] = a; return a; }
void end_eng(int e) { Eng &E = W->engs[e]; hogl::engine *x = E.e; SUT((delete x, 0)); E.e = 0; hogl::output *o = E.out; hogl::format *f = E.fmt; SUT((delete o, 0)); SUT((delete f, 0)); W->engs[e].out = 0; W->engs[e].fmt = 0; }
void in_use(int ri) { if (st->tlsring >= 0) W->rings[st->tlsring].shared = true; (void) ri; }

void op_eng(const Plan &p, const Op &o)
{
	int e = new_eng(p); hogl::engine::options *eo = new hogl::engine::options(eopts(p)); hogl::output *out = W->engs[e].out; hogl::engine *volatile E = 0; Before b;
	Res r = attempt(&o, [&] { E = new hogl::engine(*out, *eo); });
	if (r.threw) { failed(o, b); Res q = attempt(0, [&] { E = new hogl::engine(*out, *eo); }); if (q.threw || !E) violate("oom:no-recovery", "a later attempt to create the engine fails too"); }
	delete eo; W->engs[e].e = E; eng_area(e);
	Str n = ring_name(p, "E", o.id); hogl::ringbuf::options ro = ropts(16); hogl::engine *EE = E; hogl::ringbuf *rg = SUT(EE->add_ring(n.c_str(), ro)); if (!rg) violate("oom:engine-broken", "the new engine takes no ring");
	int ri = use_ring(n, e, rg, ro, 1 + o.d % 12); drop_ring(ri);
	end_eng(e);
}
void op_ring(const Plan &p, const Op &o)
{
	Str n = ring_name(p, "N", o.id); hogl::ringbuf::options ro = ropts(o.d); hogl::engine *E = st->base; Before b; int how = o.kind; in_use(0);
	hogl::ringbuf *rg = 0, *made = 0; bool added = false;
	auto f = [&] { if (how == OP_RING) { rg = E->add_ring(n.c_str(), ro); added = rg != 0; } else { if (!made) { made = new hogl::ringbuf(n.c_str(), ro); made->hold(); } added = E->add_ring(made); if (added) rg = made; } };
	Res r = attempt(&o, f);
	if (!added) {
		if (!r.fired) oracle("C25", "oom:spurious", "%s for an unused name failed", opname[o.kind]);
		failed(o, b, how == OP_RINGP && made ? 3 : 0); Res q = attempt(0, f); if (q.threw || !added) { oracle("C25", "oom:no-recovery", "%s failed, and a later attempt with the same name fails too", opname[o.kind]); violate("oom:no-recovery", "cannot go on"); }
	}
	hogl::ringbuf *fr = SUT(E->find_ring(n.c_str())); if (fr != rg) oracle("C25", "oom:ring-unknown", "ring %s is not found under its name", n.c_str()); if (fr) SUT((fr->release(), 0));
	if (rg->refcnt() != 2) oracle("C25", "oom:ring-refs", "a new ring held by its owner and the engine has %d references", rg->refcnt());
	int ri = use_ring(n, 0, rg, ro, 1 + o.id % 6); drop_ring(ri); st->rnames.push_back(n);
}
// More than there is memory for: no failure needs to be injected for that.
void op_huge(const Plan &p, const Op &o)
{
	static const struct { unsigned cap, room; } hs[] = { { 0x80000001u, 128 }, { 0xffffffffu, 128 }, { 0x80000000u, 128 }, { 1u << 24, 128 }, { 1u << 25, 200 }, { 1u << 20, 4000 }, { 16, 0xffffffffu }, { 16, 0xfffffff0u }, { 4, 0x80000000u }, { 8, 0x20000000u }, { 64, 0x7fffff00u } };
	Str n = ring_name(p, "H", o.id); hogl::ringbuf::options ro = ropts(16); ro.capacity = hs[o.d % 11].cap; ro.record_tailroom = hs[o.d % 11].room; hogl::engine *E = st->base; Before b; hogl::ringbuf *rg = 0; Str what; in_use(0);
	{ Sut s; try { rg = E->add_ring(n.c_str(), ro); } catch (std::bad_alloc &) { Quiet q; what = "bad_alloc"; } catch (std::exception &x) { Quiet q; what = x.what(); } }
	if (!rg) { probe("ring larger than memory refused"); failed(o, b); hogl::ringbuf *fr = SUT(E->find_ring(n.c_str())); if (fr) oracle("C25", "oom:ring-left", "a ring that could not be created is found under its name"); ro = ropts(16); rg = SUT(E->add_ring(n.c_str(), ro)); if (!rg) violate("oom:no-recovery", "after a ring larger than memory was refused a small one with its name is too"); }
	int ri = use_ring(n, 0, rg, ro, 4 + o.id % 20); drop_ring(ri); st->rnames.push_back(n);
}
void op_area(const Plan &p, const Op &o)
{
	Str n = ring_name(p, "M", o.id); hogl::engine *E = st->base; Before b; const hogl::area *a = 0; int ns = o.d; in_use(0);
	const char **secs = g_sections; (void) ns;
	auto f = [&] { a = E->add_area(n.c_str(), secs); };
	Res r = attempt(&o, f);
	if (!a) { if (!r.fired) oracle("C25", "oom:spurious", "add_area failed for an unused name"); failed(o, b); Res q = attempt(0, f); if (q.threw || !a) { oracle("C25", "oom:no-recovery", "add_area failed, and a later attempt with the same name fails too"); return; } }
	if (a->count() != 8 || strcmp(a->name() ? a->name() : "(null)", n.c_str())) oracle("C25", "oom:broken-area", "the area handed out for %s has name %s and %u sections", n.c_str(), a->name() ? a->name() : "(null)", a->count());
	else for (int s = 0; s < 8; s++) if (!a->section_name(s) || strcmp(a->section_name(s), g_sections[s])) { oracle("C25", "oom:broken-area", "section %d of the area handed out is %s", s, a->section_name(s) ? a->section_name(s) : "(null)"); break; }
	st->anames.push_back(n); check_areas("after add_area");
	if (SUT(E->find_area(n.c_str())) != a) oracle("C25", "oom:area-unknown", "area %s is not found under its name", n.c_str());
}
void op_tls(const Plan &p, const Op &o)
{
	Str n = ring_name(p, "T", o.id); hogl::ringbuf::options *ro = new hogl::ringbuf::options(ropts(o.d)); hogl::engine *E = st->base; Before b; in_use(0);
	hogl::ringbuf *prev = SUT(hogl::tls::ring()); int refs = prev->refcnt(); hogl::tls *t = 0;
	auto f = [&] { t = new hogl::tls(n.c_str(), *ro, E); };
	Res r = attempt(&o, f);
	if (!t || !t->valid()) {
		if (!r.fired) oracle("C25", "oom:spurious", "creating a thread-local ring for an unused name failed");
		if (t) { SUT((delete t, 0)); t = 0; } failed(o, b);
		if (SUT(hogl::tls::ring()) != prev || prev->refcnt() != refs) oracle("C25", "oom:tls", "creating a thread-local ring failed but changed the thread's current ring (references %d, before %d)", prev->refcnt(), refs);
		Res q = attempt(0, f); if (q.threw || !t || !SUT(t->valid())) { oracle("C25", "oom:no-recovery", "creating a thread-local ring failed, and a later attempt with the same name fails too"); violate("oom:no-recovery", "cannot go on"); }
	}
	hogl::ringbuf *rg = SUT(hogl::tls::ring()); if (rg == prev) oracle("C25", "oom:tls", "a valid thread-local ring was created but the thread's ring is still the old one");
	int ri = use_ring(n, 0, rg, *ro, 1 + o.id % 6, true); if (p.k("debug")) W->rings[ri].shared = true; W->rings[ri].dropcnt = rg->dropcnt(); hogl::ringbuf::options x; (void) x;
	{ RingInfo &i = W->rings[ri]; SUT((rg->hold(), 0)); SUT((delete t, 0)); i.closed = true; i.r = 0; SUT((rg->release(), 0)); }
	if (SUT(hogl::tls::ring()) != prev || prev->refcnt() != refs) oracle("C25", "oom:tls", "after the scope the thread's ring is not the previous one any more (references %d, before %d)", prev->refcnt(), refs);
	delete ro; st->rnames.push_back(n);
}
void op_mask(const Plan &p, const Op &o)
{
	hogl::mask *m = new hogl::mask(test_mask(p, o.d)); hogl::engine *E = st->base; Before b; int refused = st->mask; (void) refused;
	auto f = [&] { E->apply_mask(*m); };
	Res r = attempt(&o, f); if (r.threw) { failed(o, b, 1000); Res q = attempt(0, f); if (q.threw) oracle("C25", "oom:no-recovery", "apply_mask keeps failing"); }
	st->mask = o.d; delete m; check_areas("after apply_mask");
}
void op_list(const Plan &p, const Op &o)
{
	hogl::engine *E = st->base; Before b; Str n = st->rnames.size() ? st->rnames.back() : ring_name(p, "R", 1), an = st->anames.size() ? st->anames.back() : "A0"; int w = o.d; hogl::ringbuf *rg = 0; const hogl::area *a = 0; size_t cnt = 0;
	auto f = [&] { switch (w) { case 0: { hogl::string_list l; E->list_rings(l); cnt = l.size(); break; } case 1: { hogl::string_list l; E->list_areas(l); cnt = l.size(); break; } case 2: rg = E->find_ring(n.c_str()); break; default: a = E->find_area(an.c_str()); } };
	Res r = attempt(&o, f); if (rg) { SUT((rg->release(), 0)); rg = 0; }
	if (r.threw) { failed(o, b); Res q = attempt(0, f); if (q.threw) oracle("C25", "oom:no-recovery", "a look-up keeps failing"); if (rg) SUT((rg->release(), 0)); }
	if (w == 1 && cnt != st->anames.size() + 1) oracle("C25", "oom:areas", "%zu areas are listed, %zu were added", cnt, st->anames.size() + 1);
	if (w == 3 && !a) oracle("C25", "oom:area-lost", "area %s is not found any more", an.c_str());
}
hogl::output *make(int kind, const Str &path, Fmt &f, unsigned cap, i64 maxsz, hogl::output *o0, hogl::output *o1)
{
	switch (kind) {
	case 0: { hogl::output_file::options o = hogl::output_file::default_options; o.max_size = maxsz; o.max_count = 1000; o.buffer_capacity = cap; o.schedparam = 0; return new hogl::output_file((path + ".#").c_str(), f, o); }
	case 1: return new hogl::output_plainfile(path.c_str(), f, cap);
	case 2: return new hogl::output_pipe("cat", f, cap);
	default: return new hogl::output_tee(o0, o1, cap);
	}
}
Str content(const Str &path, u64 gen0) { Str r; for (u64 i : vfs::inodes()) if (i > gen0) { Str n = vfs::inode_name_at_creation(i); if (n.compare(0, path.size(), path) == 0) r += vfs::inode_data(i); } return r; }
u64 gen() { u64 g = 0; for (u64 i : vfs::inodes()) g = std::max(g, i); return g; }
int feed(hogl::output *out, int n) { hogl::format::data d; memset(&d, 0, sizeof d); Sut s; int bad = 0; for (int i = 0; i < n; i++) { st->prog[0]++; out->process(d); if (i % 3 == 2) out->flush(); } out->flush(); return bad; }
void op_out(const Plan &p, const Op &o)
{
	int kind = o.d & 255; unsigned cap = o.d >> 8 ? 512 : 40; char pn[40]; snprintf(pn, sizeof pn, "/sim/log/out%d", o.id); Str path = pn; static int npipe; if (kind == 2) path = "/sim/pipe/"; (void) npipe;
	hogl::output *o0 = 0, *o1 = 0; Fmt *f = new Fmt; Str p0 = path + "x", p1 = path + "y";
	if (kind == 3) { o0 = SUT(make(1, p0, *f, 512, 0, 0, 0)); o1 = SUT(make(1, p1, *f, 512, 0, 0, 0)); }
	Before b; hogl::output *out = 0; u64 g0 = gen();
	auto fn = [&] { out = make(kind, path, *f, cap, 1000000, o0, o1); };
	Res r = attempt(&o, fn);
	if (out && SUT(out->failed())) { if (!r.fired) oracle("C25", "oom:spurious", "a new output is marked failed"); probe("output marked failed"); SUT((delete out, 0)); out = 0; }
	if (!out) { failed(o, b); g0 = gen(); Res q = attempt(0, fn); if (q.threw || !out || SUT(out->failed())) { oracle("C25", "oom:no-recovery", "a later attempt to create the output fails too"); return; } }
	f->fed.clear(); feed(out, 5); bool fl = SUT(out->failed()); SUT((delete out, 0)); if (o0) { SUT((delete o0, 0)); SUT((delete o1, 0)); }
	int h, ft; Str c = content(kind == 3 ? p0 : path, g0), body = strip(c, h, ft); if (kind == 3) { c = content(p1, 0); }
	if (kind == 3) { int h2, f2; Str b2 = strip(content(p1, 0), h2, f2); body = strip(content(p0, 0), h, ft); if (b2 != f->fed) body = b2; }
	if (fl || body != f->fed) oracle("C25", "oom:broken-output", "an output was handed out (kind %d) but what was written to it did not arrive: %zu of %zu bytes%s", kind, body.size(), f->fed.size(), fl ? ", marked failed" : "");
	if (h != 1 || ft != 1) oracle("C25", "oom:broken-output", "an output was handed out (kind %d) but it has %d headers and %d footers", kind, h, ft);
	if (vfs::open_fds() != b.fds - (kind == 3 ? 2 : 0)) oracle("C25", "oom:fd-leak", "descriptors are left open after the output was deleted");
	delete f;
}
void op_act(const Plan &p, const Op &o)
{
	int e = new_eng(p); hogl::engine::options *eo = new hogl::engine::options(eopts(p)); hogl::output *out = W->engs[e].out; Before b; int refs = hogl::default_ring.refcnt();
	auto f = [&] { hogl::activate(*out, *eo); };
	Res r = attempt(&o, f);
	if (r.threw) {
		failed(o, b);
		if (hogl::default_engine) oracle("C25", "oom:activate", "activate failed but left a default engine"); 
		if (hogl::default_ring.refcnt() != refs) oracle("C25", "oom:activate", "activate failed but left the default ring with %d references, %d before", hogl::default_ring.refcnt(), refs);
		Res q = attempt(0, f); if (q.threw || !hogl::default_engine) { oracle("C25", "oom:no-recovery", "activate failed (%s), and a later attempt fails too (%s)", r.what.c_str(), q.what.c_str()); violate("oom:no-recovery", "cannot go on"); }
	}
	delete eo; W->engs[e].e = hogl::default_engine; hogl::engine *E = hogl::default_engine; eng_area(e);
	hogl::ringbuf *x = SUT(E->find_ring("DEFAULT")); if (x != &hogl::default_ring) oracle("C25", "oom:activate", "activate succeeded but the default ring is not registered"); if (x) SUT((x->release(), 0));
	RingInfo &d = W->rings[0]; d.eng = e; hogl::ringbuf *dr = &hogl::default_ring; hogl::timesource *ts = ts_counter_src(); (void) ts; (void) dr;
	for (int k = 0; k < o.d % 8; k++) { st->prog[0]++; do_post(0, 0, st->areas[e], 0, k & 7, 0); }
	W->rings[0].dropcnt = hogl::default_ring.dropcnt();
	SUT((hogl::deactivate(), 0)); W->engs[e].e = 0;
	if (hogl::default_engine) oracle("C25", "oom:activate", "deactivate did not work after a failed activate");
	if (!hogl::default_ring.empty()) oracle("C25", "oom:activate", "the default ring was not emptied");
	hogl::output *oo = W->engs[e].out; hogl::format *ff = W->engs[e].fmt; SUT((delete oo, 0)); SUT((delete ff, 0)); W->engs[e].out = 0;
	W->rings[0].eng = -1;
}
// Calls that are refused anyway, and refused again after a failure: they must not take anything away
void op_bad(const Plan &p, const Op &o)
{
	hogl::engine *E = st->base; Before b; in_use(0); bool got = false; int w = o.d; Str n = W->rings[1].name; hogl::ringbuf::options ro = ropts(4); static const char *odd[] = { "ODD", 0 };
	auto f = [&] { if (w) got = E->add_ring(n.c_str(), ro) != 0; else got = E->add_area("A0", odd) != 0; };
	Res r = attempt(&o, f); if (r.threw) failed(o, b);
	if (got) oracle("C25", "oom:replaced", "a name that is in use was handed out again");
	if (w && W->rings[1].r && W->rings[1].r->refcnt() != 2) oracle("C25", "oom:ring-refs", "a refused add_ring left the existing ring with %d references", W->rings[1].r->refcnt());
}
void settle(int n) { u64 l = st->base->get_stats().loops; wait_until([=] { return crashed() || st->base->get_stats().loops >= l + n; }, 100000000000LL, 500000); }
void op_house(const Plan &p, const Op &o)
{
	Str n = ring_name(p, "H", o.id); hogl::ringbuf::options ro = ropts(o.d); hogl::engine *E = st->base; in_use(0);
	hogl::ringbuf *rg = SUT(E->add_ring(n.c_str(), ro)); if (!rg) violate("setup", "no ring");
	arm_fail(st->eng_fiber, o.c, o.a, 1); probe("engine's own memory requests fail");
	int ri = use_ring(n, 0, rg, ro, 1 + o.id % 6); if (o.id & 1) settle(2); if (crashed()) return; drop_ring(ri); settle(4); if (crashed()) return;
	disarm(st->eng_fiber);
}
void op_rot(const Plan &p, const Op &o)
{
	char pn[40]; snprintf(pn, sizeof pn, "/sim/log/rot%d", o.id); Str path = pn; Fmt *f = new Fmt; u64 g0 = gen(); int before = last_sut_fiber();
	hogl::output *out = SUT(make(0, path, *f, 40, 150, 0, 0)); int hf = last_sut_fiber(); if (hf == before) violate("setup", "no helper");
	arm_fail(hf, o.c, o.a, 1);
	for (int k = 0; k < 12 && !crashed(); k++) { feed(out, 2); sleep_ns(2000000); }
	bool fired = disarm(hf) > 0; if (fired) probe("rotation's own memory request failed");
	if (crashed()) { int h, t; Str body = strip(content(path, g0), h, t); if (body.compare(0, body.size(), f->fed, 0, body.size())) oracle("C25", "oom:rotation", "the file's contents are not what was written when the helper ran out of memory"); return; }
	for (int k = 0; k < 6; k++) { feed(out, 2); sleep_ns(2000000); }
	SUT((delete out, 0));
	int h, t; Str body = strip(content(path, g0), h, t); u64 chunks = 0; for (u64 i : vfs::inodes()) if (i > g0) { Str nm = vfs::inode_name_at_creation(i); if (nm.compare(0, path.size(), path) == 0 && vfs::inode_data(i).size()) chunks++; }
	if (body != f->fed) oracle("C25", "oom:rotation", "after the rotation helper ran out of memory the chunks hold %zu bytes, %zu were written", body.size(), f->fed.size());
	if (h != t || (u64) h != chunks) oracle("C25", "oom:rotation", "after the rotation helper ran out of memory %llu chunks have %d headers and %d footers", ULL(chunks), h, t);
	if (chunks < 2) oracle("C25", "oom:rotation", "rotation never happened after the helper ran out of memory once");
	delete f;
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S; *st = S(); allow_terminate(true);
	int nthr = p.k("nthr"), ne = 2; for (auto &o : p.ops) if (o.kind == OP_ENG || o.kind == OP_ACT) ne++;
	W->engs.resize(ne); W->rings.reserve(256); W->posts.reserve(4096); st->prog.assign(nthr, 0); st->noisy = p.k("debug"); st->tlsring = -1; st->anames.push_back("A0"); st->anames.reserve(64); W->nth.assign(nthr + 2, 0);
	for (auto &E : W->engs) { E.tso = p.k("tso") >= 0; E.cap = E.tso ? std::max<i64>(p.k("tso"), 1) : 0; }
	{ hogl::ringbuf::options o; o.capacity = 64; o.prio = 0; o.flags = hogl::ringbuf::SHARED | hogl::ringbuf::IMMORTAL; o.record_tailroom = 128; SUT((hogl::default_ring.~ringbuf(), ::new ((void *) &hogl::default_ring) hogl::ringbuf("DEFAULT", o), 0)); int ri = add_ring_info("DEFAULT", -1, &hogl::default_ring, o); W->rings[ri].shared = true; W->rings[ri].weird = true; }
	int boot = spawn("boot", [&] {
		op_begin(90000); int e = new_eng(p); hogl::engine::options *eo = new hogl::engine::options(eopts(p)); hogl::output *out = W->engs[e].out;
		hogl::engine *E = SUT(new hogl::engine(*out, *eo)); st->eng_fiber = last_sut_fiber(); delete eo; W->engs[e].e = st->base = E; eng_area(0);
		for (int t = 1; t < std::max(nthr, 2); t++) { Str n = ring_name(p, "R", t); hogl::ringbuf::options ro = ropts(8 << t); hogl::ringbuf *r = SUT(E->add_ring(n.c_str(), ro)); if (!r) violate("setup", "no ring"); add_ring_info(n, 0, r, ro); if (st->noisy) W->rings.back().shared = true; }
	});
	if (!join(boot, 100000000000LL)) violate("hang:setup", "%s", where(boot).c_str());
	settle(2);                                                         // the first index is built, see failed()
	enable_faults(true); std::vector<int> fib;
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &o : p.ops) if (o.thr == t) ops.push_back(o);
		char nm[16]; snprintf(nm, sizeof nm, t ? "thr%d" : "oom", t);
		fib.push_back(spawn(nm, [=, &p] {
			hogl::tls *own = 0; 
			if (!t && p.k("own")) { op_begin(80000); Str n = ring_name(p, "OWN", 0); hogl::ringbuf::options *ro = new hogl::ringbuf::options(ropts(32)); hogl::engine *E = st->base; own = SUT(new hogl::tls(n.c_str(), *ro, E)); hogl::ringbuf *r = SUT(hogl::tls::ring()); st->tlsring = add_ring_info(n, 0, r, *ro); W->rings[st->tlsring].shared = true; delete ro; }
			for (auto &o : ops) {
				op_begin(o.id); st->prog[t]++; logf("op %d kind %d nth %lld count %lld kinds %llx arg %lld", o.id, o.kind, (long long) o.a, (long long) o.b, ULL(o.c), (long long) o.d);
				switch (o.kind) {
				case OP_POST: for (int k = 0; k < o.a; k++) { st->prog[t]++; do_post(t, t, st->areas[0], 0, (o.c + k) & 7, o.b); } break;
				case OP_SLEEP: sleep_ns(o.a * 1000); break;
				case OP_YIELD: yield_point(); break;
				case OP_ENG: op_eng(p, o); break;
				case OP_RING: case OP_RINGP: op_ring(p, o); break;
				case OP_HUGE: op_huge(p, o); break;
				case OP_AREA: op_area(p, o); break;
				case OP_TLS: op_tls(p, o); break;
				case OP_MASK: op_mask(p, o); break;
				case OP_LIST: op_list(p, o); break;
				case OP_OUT: op_out(p, o); break;
				case OP_ACT: op_act(p, o); break;
				case OP_BAD: op_bad(p, o); break;
				case OP_HOUSE: op_house(p, o); break;
				case OP_ROT: op_rot(p, o); break;
				}
			}
			op_begin(95000 + t);
			if (own) { RingInfo &i = W->rings[st->tlsring]; i.dropcnt = i.r->dropcnt(); i.closed = true; i.r = 0; SUT((delete own, 0)); st->tlsring = -1; }
		}));
	}
	for (int t = 0; t < nthr; t++) for (u64 seen = ~0ULL;;) {
		if (join(fib[t], 100000000000LL) || crashed()) break;
		u64 sum = 0; for (u64 x : st->prog) sum += x;
		if (sum != seen) { seen = sum; continue; }
		oracle("C25", "oom:hang", "%s does not return: %s", fiber_name(fib[t]), where(fib[t]).c_str()); violate("hang:oom", "%s: %s", fiber_name(fib[t]), where(fib[t]).c_str());
	}
	enable_faults(false); Checks c; c.tso_order = false; c.by_name = false; c.moving = true;
	if (crashed()) {
		// hogl's own thread ran out of memory and took the process down
		if (terminated() != "bad_alloc") violate("crash:terminate", "the process was terminated by %s in %s", terminated().c_str(), fiber_name(terminated_fiber()));
		if (terminated_fiber() < 0 || std::find(fib.begin(), fib.end(), terminated_fiber()) != fib.end()) violate("oom:terminate", "std::terminate was called in a call that should have reported failure");
		crash_clear(); probe("terminated by its own out-of-memory"); c.complete = false;
		for (auto &ri : W->rings) { if (ri.r) ri.dropcnt = ri.r->dropcnt(); ri.r = 0; ri.specials = 1 << 20; ri.weird = true; }
		evaluate(c); return;
	}
	for (size_t i = 1; i < W->rings.size(); i++) if (W->rings[i].r && !W->rings[i].closed) { RingInfo &ri = W->rings[i]; i64 lim = 0; (void) lim; if (ri.r->refcnt() != 2) oracle("C25", "oom:ring-refs", "ring %s has %d references at the end", ri.name.c_str(), ri.r->refcnt()); }
	check_areas("at the end");
	int fin = spawn("fin", [&] {
		op_begin(97000);
		for (size_t i = 1; i < W->rings.size(); i++) if (W->rings[i].r && !W->rings[i].closed) drop_ring(i);
		settle(6);
		hogl::string_list *l = SUT(new hogl::string_list); hogl::engine *E = st->base; SUT((E->list_rings(*l), 0)); if (l->size()) oracle("C25", "oom:ring-leak", "%zu rings are still registered after all were released, among them %s", l->size(), l->front().c_str()); SUT((delete l, 0));
		end_eng(0);
	});
	if (!join(fin, 600000000000LL)) { oracle("C25", "oom:hang", "the engine does not stop: %s", where(fin).c_str()); violate("hang:oom", "%s", where(fin).c_str()); }
	if (sut_threads()) oracle("C25", "oom:thread-leak", "%d threads are left at the end", sut_threads());
	if (hogl::default_ring.refcnt()) oracle("C25", "oom:ring-refs", "the default ring has %d references at the end", hogl::default_ring.refcnt());
	if (vfs::bad_closes()) oracle("C25", "oom:double-close", "a descriptor that was not open was closed");
	for (auto &ri : W->rings) ri.r = 0;
	if (W->obs.size()) probe("records output");
	g_prop = "C01"; evaluate(c); g_prop = p.prop;
}
const Scenario sc = { "oom", "C25", generate, run, 0 };
Registrar reg_(&sc);
}
