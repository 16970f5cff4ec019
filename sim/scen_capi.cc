// The C interface as a C program uses it (capi_posts.c is compiled as C): activate, areas, thread-local rings, posts through
// the macros, flush, masks, deactivate, over every output it can create, judged by the bytes that reach the sink. C28.
#include "hog.h"
#include "hogl/output-file.hpp"
#include "capi_posts.h"
extern "C" {
#include "hogl/c-api/area.h"
#include "hogl/c-api/mask.h"
#include "hogl/c-api/format.h"
#include "hogl/c-api/output.h"
#include "hogl/c-api/engine.h"
#include "hogl/c-api/tls.h"
void hogl_flush();
}
#include <sched.h>
#include <string.h>
#include <stdio.h>
#include <algorithm>
using namespace sim;
typedef std::string Str;

namespace {
enum { OP_POST = 1, OP_SLEEP, OP_FLUSH, OP_OPEN, OP_CLOSE, OP_SET, OP_AREA, OP_MASK, OP_CALM };
enum { K_FILE, K_PLAIN, K_STDOUT, K_STDERR, K_PIPE, K_N };
struct P { int thr; u64 id; int ring; int area; unsigned sect; Str want; bool maybe; bool returned; };
struct R { Str name; u64 dropped; };
struct S {
	int cyc; void *fmt, *out; Str path; int kind; std::vector<u64> gens0; size_t pipe0; std::vector<P> posts; std::vector<R> rings; std::vector<u64> prog; std::vector<void *> area; std::vector<std::vector<bool> > on; u64 nid; std::vector<void *> tls; std::vector<int> ring;
	std::vector<bool> masked; i64 mask_on[2]; bool anymask; size_t base; int masks_running; u64 noflush;
};
S *st;

void generate(Plan &p, Rng &r)
{
	static const int polls[] = { 1000, 1000, 3000, 10000 }, tsos[] = { 1, 4, 16, 64, 4096 }, caps[] = { 2, 4, 8, 64, 256, 1024 }, tails[] = { 0, 512, 512, 600, 1024 }, bufs[] = { 1, 64, 1024, 8192 };
	static const int us[] = { 1, 20, 200, 1000, 2000, 5000, 12000 };
	int nthr = 1 + r.below(3), ncyc = 1 + r.below(2); p.set("nthr", nthr); p.set("ncyc", ncyc);
	for (int c = 0; c < ncyc; c++) {
		char b[16];
		snprintf(b, sizeof b, "kind%d", c); p.set(b, r.below(K_N)); snprintf(b, sizeof b, "eopt%d", c); p.set(b, r.chance(5, 6)); snprintf(b, sizeof b, "fopt%d", c); p.set(b, r.chance(3, 4));
		snprintf(b, sizeof b, "fields%d", c); p.set(b, r.below(3)); snprintf(b, sizeof b, "mask%d", c); p.set(b, r.below(3));
		snprintf(b, sizeof b, "poll%d", c); p.set(b, r.pick(polls)); snprintf(b, sizeof b, "tso%d", c); p.set(b, r.pick(tsos)); snprintf(b, sizeof b, "notso%d", c); p.set(b, r.chance(1, 3));
		snprintf(b, sizeof b, "max%d", c); p.set(b, 600 << r.below(8)); snprintf(b, sizeof b, "cnt%d", c); p.set(b, 2 + r.below(60)); snprintf(b, sizeof b, "buf%d", c); p.set(b, r.pick(bufs));
		snprintf(b, sizeof b, "fail%d", c); p.set(b, r.chance(1, 3) ? 1 + r.below(8) : 0); snprintf(b, sizeof b, "failk%d", c); p.set(b, r.below(3));
		for (int t = 0; t < nthr; t++) {
			bool toggles = r.chance(1, 2); int T = c * 16 + t;
			if (r.chance(3, 4)) p.op(T, OP_OPEN, r.pick(caps), r.pick(tails), r.below(3) * 50);
			for (int n = 4 + r.below(16); n > 0; n--) {
				u64 x = r.below(100);
				if (x < 60) p.op(T, OP_POST, 1 + r.below(r.chance(1, 5) ? 12 : 4), r.chance(1, 4) ? 0 : r.below(CAPI_NVARIANT), r.below(8), r.below(2));
				else if (x < 72) p.op(T, OP_SLEEP, r.pick(us));
				else if (x < 80) p.op(T, OP_FLUSH);
				else if (x < 85) p.op(T, OP_OPEN, r.pick(caps), r.pick(tails), r.below(3) * 50);
				else if (x < 90) p.op(T, OP_CLOSE);
				else if (x < 95) { if (toggles) p.op(T, OP_SET, r.below(10), r.below(2)); }
				else p.op(T, OP_AREA, r.below(3), r.chance(1, 2) ? 1 + r.below(8) : 0);
			}
		}
		if (r.chance(1, 2)) for (int n = 1 + r.below(4); n > 0; n--) { if (r.chance(1, 2)) p.op(c * 16 + 15, OP_SLEEP, r.pick(us)); else p.op(c * 16 + 15, OP_MASK, r.below(2), r.below(2)); }
	}
	if (r.chance(1, 3)) p.set("f.slow_io", 20000);
	if (r.chance(1, 3)) { p.set("f.short_write", 50000); p.set("f.eintr", 50000); }
	if (r.chance(1, 5)) p.set("f.spurious_wakeup", 50000);
	p.set("max_s", 3000);
}

Str kk(const char *n, int c) { char b[24]; snprintf(b, sizeof b, "%s%d", n, c); return b; }
#define KC(n) p.k(kk(n, c).c_str())

Str content()
{
	Str s; bool file = st->kind == K_FILE;
	std::vector<u64> all = vfs::inodes();
	if (st->kind == K_STDOUT || st->kind == K_STDERR) { vfs::read_file(st->path, s); return s.substr(std::min(st->base, s.size())); }
	for (size_t i = st->base; i < all.size(); i++) { Str n = vfs::inode_name_at_creation(all[i]); if (file ? n.compare(0, st->path.size() + 1, st->path + ".") == 0 : n == st->path) s += vfs::inode_data(all[i]); }
	return s;
}
struct Line { Str ring, area, sect, text; u64 seq; };
bool parse(const Str &l, Line &o)
{
	// ... RING:SEQ AREA:SECT text; only records of our own areas ("A" digit) and hogl's drop reports matter
	for (size_t p = 0; (p = l.find(' ', p)) != Str::npos; p++) {
		size_t e = l.find(' ', p + 1); Str tok = l.substr(p + 1, e == Str::npos ? Str::npos : e - p - 1), text = e == Str::npos ? "" : l.substr(e + 1); size_t c = tok.find(':');
		if (c == Str::npos || !((tok[0] == 'A' && c == 2) || tok.compare(0, 5, "HOGL:") == 0)) continue;
		size_t b = l.rfind(' ', p - 1); Str rs = p ? l.substr(b == Str::npos ? 0 : b + 1, p - (b == Str::npos ? 0 : b + 1)) : Str(); size_t k = rs.find(':');
		if (k == Str::npos) continue;
		o.ring = rs.substr(0, k); o.seq = strtoull(rs.c_str() + k + 1, 0, 10); o.area = tok.substr(0, c); o.sect = tok.substr(c + 1); o.text = text; return true;
	}
	return false;
}
std::vector<Line> lines(const Str &s) { std::vector<Line> v; for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); if (e == Str::npos) break; Line l; if (parse(s.substr(i, e - i), l)) v.push_back(l); i = e + 1; } return v; }
bool listed(const std::vector<Line> &v, const P &q) { for (auto &l : v) if (l.ring == st->rings[q.ring].name && l.text == q.want) return true; return false; }

void close_tls(int t)
{
	if (!st->tls[t]) return;
	hogl::ringbuf *r = SUT(hogl::tls::ring()); st->rings[st->ring[t]].dropped = r->dropcnt();
	void *h = st->tls[t]; SUT((hogl_delete_tls(h), 0)); st->tls[t] = 0; st->ring[t] = 0;
	if (SUT(hogl::tls::ring()) != &hogl::default_ring) oracle("C28", "capi:tls-left", "after hogl_delete_tls the thread does not use the default ring again");
}
void step(const Plan &p, int c, int t, const Op &o)
{
	switch (o.kind) {
	case OP_SLEEP: sleep_ns(o.a * 1000); break;
	case OP_OPEN: {
		close_tls(t); char nm[24]; snprintf(nm, sizeof nm, "T%d", o.id); char *h = strdup(nm); unsigned cap = o.a, tail = o.b, prio = o.c;
		void *x = SUT(capi_new_tls(h, cap, prio, tail)); memset(h, '#', strlen(h)); free(h);
		hogl::ringbuf *r = SUT(hogl::tls::ring());
		if (!x || r == &hogl::default_ring || !r || strcmp(r->name(), nm)) { oracle("C28", "capi:tls", "hogl_new_tls(\"%s\") does not give the thread its ring", nm); return; }
		if (r->capacity() < cap || r->prio() != prio || r->record_tailroom() < (tail ? tail : 80)) oracle("C28", "capi:tls-options", "ring of hogl_new_tls has capacity %u prio %u tailroom %u, asked for %u %u %u", r->capacity(), r->prio(), r->record_tailroom(), cap, prio, tail);
		R ri; ri.name = nm; ri.dropped = 0; st->rings.push_back(ri); st->ring[t] = st->rings.size() - 1; st->tls[t] = x; break; }
	case OP_CLOSE: close_tls(t); break;
	case OP_SET: {
		if (st->anymask) return;
		unsigned s = o.a; void *a = st->area[t]; bool on = o.b;
		if (s < 8) { if (on) SUT((hogl_area_set(a, s), 0)); else SUT((hogl_area_reset(a, s), 0)); st->on[t][s] = on; }
		else { if (on) SUT((hogl_area_set_all(a), 0)); else SUT((hogl_area_reset_all(a), 0)); st->on[t].assign(8, on); }
		for (unsigned i = 0; i < 8; i++) { bool b = SUT(hogl_area_test(a, i)); if (b != st->on[t][i]) oracle("C28 C11", "capi:area", "section %u tests %d after hogl_area_%s(%u)", i, b, on ? "set" : "reset", s); }
		break; }
	case OP_AREA: {
		// the same area again; another of the same name; one whose allocation fails
		static const char *other[] = { "X0", "X1", 0 }; char nm[24]; const char **sec = o.a == 1 ? other : g_sections;
		if (o.a == 2) snprintf(nm, sizeof nm, "N%d", o.id); else snprintf(nm, sizeof nm, "A%d", t);
		char *h = strdup(nm); void *a = 0; if (o.b) arm_fail(self(), 1u << F_ALLOC, o.b, 1);
		bool thrown = false; u64 live0 = sut_live_blocks();
		try { a = SUT(hogl_add_area(h, sec)); } catch (...) { thrown = true; }
		(void) live0; u64 hit = o.b ? disarm() : 0;
		free(h);
		if (thrown) { oracle("C28", "capi:exception", "hogl_add_area lets a C++ exception out into C code when allocation fails, it is documented to return null"); return; }
		if (hit) { probe("add_area out of memory"); if (a && o.a == 1) oracle("C28", "capi:area-clash", "hogl_add_area returned an area with other sections"); break; }
		if (o.a == 0 && a != st->area[t]) oracle("C28", "capi:area-again", "adding the same area again gives another handle");
		if (o.a == 1 && a) oracle("C28", "capi:area-clash", "hogl_add_area of an existing name with other sections returned an area");
		if (o.a == 2 && !a) oracle("C28", "capi:area-new", "hogl_add_area failed");
		break; }
	case OP_FLUSH: {
		size_t n = st->posts.size(); std::vector<size_t> mine; hogl::ringbuf *r = SUT(hogl::tls::ring());
		for (size_t i = 0; i < n; i++) if (st->posts[i].ring == st->ring[t] && st->posts[i].returned && (st->ring[t] || st->posts[i].thr == t)) mine.push_back(i);
		i64 t0 = now(); SUT((hogl_flush(), 0)); if (now() - t0 > 9000000000LL) { probe("flush timed out"); break; }
		u64 dropped = r->dropcnt(); (void) dropped;
		// dropped records cannot be told from unflushed ones one by one: count
		std::vector<Line> v = lines(content()); u64 missing = 0; std::map<Str, int> have; for (auto &l : v) have[l.ring + " " + l.text]++;
		Str ex; for (size_t i : mine) { P &q = st->posts[i]; if (q.maybe) continue; if (!have.count(st->rings[q.ring].name + " " + q.want)) { missing++; ex = q.want; } }
		u64 allow = st->ring[t] ? r->dropcnt() : r->dropcnt();
		if (missing > allow) oracle("C28 C09", "capi:flush", "hogl_flush returned but %llu records posted before it are not in the output (%llu were dropped), e.g. '%s'", (unsigned long long) missing, (unsigned long long) allow, ex.c_str());
		probe("flush succeeded"); break; }
	case OP_POST:
		for (int k = 0; k < o.a; k++) {
			P q; q.thr = t; q.id = ++st->nid; q.ring = st->ring[t]; q.area = o.d ? t : (t + 1) % st->area.size(); q.sect = (o.c + k) & 7; q.returned = false; q.maybe = st->anymask && q.sect >= 6; st->prog[t]++;
			if (q.area != t) q.area = t;
			unsigned room = SUT(hogl::tls::ring()->record_tailroom()); int var = o.b;
			char s1[100], s2[100]; unsigned l1 = 1 + mix(q.id, 1) % 60, l2 = 1 + mix(q.id, 2) % 60; for (unsigned i = 0; i < l1; i++) s1[i] = 'a' + mix(q.id, i + 10) % 26; s1[l1] = 0; for (unsigned i = 0; i < l2; i++) s2[i] = 'A' + mix(q.id, i + 90) % 26; s2[l2] = 0;
			if (var != CAPI_BARE && room < 400) var &= 1;
			char w[600]; capi_want(w, sizeof w, var, q.id, s1, s2); q.want = w;
			bool on = st->on[t][q.sect];
			void *a = st->area[t]; char *h1 = strdup(s1), *h2 = strdup(s2); unsigned sect = q.sect; u64 id = q.id; size_t pi = st->posts.size();
			if (on || q.maybe) st->posts.push_back(q);
			SUT((capi_post(a, sect, var, id, h1, h2), 0));
			if (on || q.maybe) st->posts[pi].returned = true;
			memset(h1, '!', l1); memset(h2, '?', l2); free(h1); free(h2);
			logf("posted %s:%s '%s'%s", st->rings[q.ring].name.c_str(), g_sections[sect], w, on ? "" : " (disabled)");
		}
		break;
	}
}

// Scheduling parameters for the engine (which = 0) and the file (1), and what they mean.
struct Sch { int policy, prio; const char *cpus; std::vector<int> set; };
Sch sch(const Plan &p, int c, int which)
{
	static const char *const t[] = { 0, "list:1-2", "mask:0x25", "list:oops", "2147483649", "" }; static const std::vector<int> *v = new std::vector<int>[6] { {}, { 1, 2 }, { 0, 2, 5 }, {}, { 0, 31 }, {} };
	u64 h = mix(KC("poll") * 77 + KC("buf"), p.seed ^ (which * 5 + c)); Sch s; s.policy = h % 3 == 0 ? SCHED_OTHER : which ? SCHED_RR : SCHED_FIFO; s.prio = h % 3 ? 1 + h / 3 % 99 : 0; int k = h / 1000 % 6; s.cpus = t[k]; s.set = v[k]; return s;
}
void *make_output(const Plan &p, int c, void *fmt)
{
	const char *dir = "/sim/log/capi"; char b[64]; snprintf(b, sizeof b, "%s%d", dir, c); int given = KC("fopt"), fields = KC("fields"); (void) fields;
	st->base = vfs::inodes().size(); st->path = b; unsigned max = KC("max"), cnt = KC("cnt"), buf = KC("buf");
	switch (st->kind) {
	case K_FILE: { Str n = st->path + ".#"; const char *s = n.c_str(); Sch w = sch(p, c, 1); char *cp = w.cpus ? strdup(w.cpus) : 0; int pol = w.policy, pri = w.prio; void *o = SUT(capi_new_file(s, fmt, given, 0644, max, cnt, buf, pol, pri, cp)); if (cp) { memset(cp, '9', strlen(cp)); free(cp); } return o; }
	case K_PLAIN: { const char *s = st->path.c_str(); return SUT(hogl_new_output_plainfile(s, fmt)); }
	case K_STDOUT: { Str x; st->path = "/sim/dev/stdout"; vfs::read_file(st->path, x); st->base = x.size(); return SUT(hogl_new_output_stdout(fmt)); }
	case K_STDERR: { Str x; st->path = "/sim/dev/stderr"; vfs::read_file(st->path, x); st->base = x.size(); return SUT(hogl_new_output_stderr(fmt)); }
	default: { void *o = SUT(hogl_new_output_pipe("cat", fmt)); char b[32]; snprintf(b, sizeof b, "/sim/pipe/%zu", st->pipe0); st->path = b; return o; }
	}
}

void cycle(const Plan &p, int c)
{
	int nthr = p.k("nthr", 1); st->cyc = c; st->kind = KC("kind"); st->posts.clear(); st->rings.clear(); R d; d.name = "DEFAULT"; d.dropped = 0; st->rings.push_back(d);
	u64 drop0 = hogl::default_ring.dropcnt();
	st->area.assign(nthr, (void *) 0); st->on.assign(nthr, std::vector<bool>(8, true)); st->tls.assign(nthr, (void *) 0); st->ring.assign(nthr, 0); st->mask_on[0] = st->mask_on[1] = -1; st->masks_running = 0;
	std::vector<std::vector<Op> > ops(16); for (auto &o : p.ops) if (o.thr / 16 == c) ops[o.thr % 16].push_back(o);
	st->anymask = false; for (auto &o : ops[15]) if (o.kind == OP_MASK) st->anymask = true;
	int fields = KC("fields"), eopt = KC("eopt"), maskk = KC("mask");
	size_t sched0 = sched_log().size();
	void *fmt = SUT(hogl_new_format_basic(fields == 0 ? (const char *) 0 : fields == 1 ? "ring|seqnum|area|section" : "timestamp|timedelta|ring|seqnum|area|section")); st->fmt = fmt;
	// creating the output may fail: documented to return zero, with nothing left behind
	if (KC("fail")) {
		u64 live0 = sut_live_blocks(); int thr0 = sut_threads(), fd0 = vfs::open_fds(); bool thrown = false; void *o = 0; i64 k = KC("failk"); u32 kinds = k == 0 ? 1u << F_OPEN : k == 1 ? 1u << F_ALLOC : (1u << F_OPEN | 1u << F_ALLOC | 1u << F_THREAD);
		arm_fail(self(), kinds, KC("fail"), 1);
		try { o = make_output(p, c, fmt); } catch (...) { thrown = true; }
		u64 hit = armed_hits(); disarm();
		if (thrown) oracle("C28", "capi:exception", "creating output kind %d lets a C++ exception out into C code when it fails, it is documented to return zero", st->kind);
		if (hit && !thrown) probe(o ? "output creation survived a failure" : "output creation failed");
		if (st->kind == K_PIPE && (o || vfs::exists(Str("/sim/pipe/") + std::to_string(st->pipe0)))) st->pipe0++;
		if (o) SUT((hogl_delete_output(o), 0)); else if (!hit && !thrown) oracle("C28", "capi:output", "output kind %d could not be created although nothing failed", st->kind);
		if (!o) { if (sut_live_blocks() != live0 || sut_threads() != thr0 || vfs::open_fds() != fd0) oracle("C28", "capi:output-leak", "a failed creation of output kind %d leaves %lld allocations, %d threads, %d descriptors", st->kind, (long long)(sut_live_blocks() - live0), sut_threads() - thr0, vfs::open_fds() - fd0); }
	}
	void *out = make_output(p, c, fmt); st->out = out; if (st->kind == K_PIPE) st->pipe0++;
	if (!out) { oracle("C28", "capi:output", "output kind %d could not be created although nothing failed", st->kind); return; }
	void *m = 0; if (maskk != 1) m = maskk ? SUT(capi_new_mask(".*:.*", "!HOGL:.*DEBUG.*")) : SUT(capi_new_mask(".*:.*", (const char *) 0));
	if (maskk == 2) { SUT((hogl_mask_clear(m), 0)); SUT((hogl_mask_add(m, ".*:.*"), 0)); SUT((hogl_mask_add(m, "!HOGL:.*DEBUG.*"), 0)); SUT((hogl_mask_add(m, "!.*:S5"), 0)); }
	unsigned poll = KC("poll"), tso = KC("tso"); int notso = KC("notso"); Sch es = sch(p, c, 0); char *cpus = es.cpus ? strdup(es.cpus) : 0; int epol = es.policy, epri = es.prio;
	SUT((capi_activate(out, eopt, poll, tso, notso, m, epol, epri, cpus), 0)); if (cpus) { memset(cpus, '9', strlen(cpus)); free(cpus); }
	hogl::engine *E = hogl::default_engine;
	if (!E) { oracle("C28", "capi:activate", "no engine after hogl_activate"); return; }
	{
		hogl::engine::options &eo = *new hogl::engine::options(E->get_options()); const hogl::engine::options &w = hogl::engine::default_options;
		if (eo.polling_interval_usec != (eopt ? poll : w.polling_interval_usec) || eo.tso_buffer_capacity != (eopt ? tso : w.tso_buffer_capacity) || eo.features != (eopt ? (notso ? 1u : 0u) : w.features)) oracle("C28", "capi:engine-options", "engine options are poll %u tso %u features %u, asked for %u %u %d (given: %d)", eo.polling_interval_usec, eo.tso_buffer_capacity, eo.features, poll, tso, notso, eopt);
		delete &eo;
	}
	for (int t = 0; t < nthr; t++) {
		char nm[8]; snprintf(nm, sizeof nm, "A%d", t); void *a = SUT(hogl_add_area(nm, g_sections)); st->area[t] = a; if (!a) { oracle("C28", "capi:area-new", "hogl_add_area failed"); return; }
		bool dflt = !eopt || maskk == 1;
		for (int s = 0; s < 8; s++) { bool want = dflt ? false : !(maskk == 2 && s == 5); bool got = SUT(hogl_area_test(a, s)); if (got != want) oracle("C28 C11", "capi:default-mask", "section S%d of a new area is %s with the %s mask", s, got ? "enabled" : "disabled", dflt ? "default" : "given"); st->on[t][s] = want; }
		if (dflt) { SUT((hogl_area_set_all(a), 0)); st->on[t].assign(8, true); }
	}
	enable_faults(true);
	std::vector<int> fib;
	for (int t = 0; t < nthr; t++) { char nm[16]; snprintf(nm, sizeof nm, "thr%d", t); std::vector<Op> v = ops[t]; fib.push_back(spawn(nm, [=, &p] { for (auto &o : v) { op_begin(o.id); st->prog[t]++; step(p, c, t, o); } op_begin(1000000 + t); close_tls(t); })); }
	std::vector<Op> v = ops[15];
	fib.push_back(spawn("masks", [=] { for (auto &o : v) { op_begin(o.id); st->prog[15]++; if (o.kind == OP_SLEEP) sleep_ns(o.a * 1000); else { char b[16]; snprintf(b, sizeof b, "%s.*:S%d", o.b ? "" : "!", 6 + (int) o.a); char *h = strdup(b); void *k = SUT(capi_new_mask(h, (const char *) 0)); memset(h, 0, strlen(b)); free(h); SUT((hogl_apply_mask(k), 0)); SUT((hogl_delete_mask(k), 0)); st->mask_on[o.a] = o.b; } } }));
	for (int f : fib) for (u64 seen = ~0ULL; !join(f, 60000000000LL);) { u64 x = 0; for (u64 y : st->prog) x += y; if (x != seen) { seen = x; continue; } violate("hang:thread", "a thread using the C interface does not finish: %s", where(f).c_str()); }
	enable_faults(false);
	for (int i = 0; i < 2; i++) if (st->mask_on[i] >= 0) for (void *a : st->area) { unsigned s = 6 + i; bool b = SUT(hogl_area_test(a, s)); if (b != (bool) st->mask_on[i]) oracle("C28 C11", "capi:mask", "the last hogl_apply_mask %s S%u, but it tests %d", st->mask_on[i] ? "enabled" : "disabled", s, b); }
	int stop = spawn("stop", [=] { op_begin(2000000); SUT((hogl_deactivate(), 0)); void *o = st->out, *f = st->fmt; SUT((hogl_delete_output(o), 0)); SUT((hogl_delete_format(f), 0)); if (m) SUT((hogl_delete_mask(m), 0)); });
	if (!join(stop, 600000000000LL)) violate("hang:stop", "hogl_deactivate does not finish: %s", where(stop).c_str());
	st->rings[0].dropped = hogl::default_ring.dropcnt() - drop0;
	if (hogl::default_engine) oracle("C28", "capi:deactivate", "the engine is still there after hogl_deactivate");
	if (sut_threads()) oracle("C28", "capi:thread-leak", "%d threads are left after hogl_deactivate and hogl_delete_output", sut_threads());
	if (vfs::open_fds() || vfs::bad_closes()) oracle("C28", "capi:fd-leak", "%d descriptors are left, %d bad closes", vfs::open_fds(), vfs::bad_closes());
	// scheduling parameters reached the threads they were meant for
	for (int which = 0; which < 2; which++) if (which ? st->kind == K_FILE && KC("fopt") : eopt) {
		Sch w = sch(p, c, which); int n = 0, na = 0;
		for (size_t k = sched0; k < sched_log().size(); k++) { const SchedRec &s = sched_log()[k]; if (s.affinity || s.policy != w.policy || s.prio != w.prio) continue; bool ok = s.caller == s.target, any = false; for (size_t j = sched0; j < sched_log().size(); j++) if (sched_log()[j].affinity && sched_log()[j].caller == s.caller) { any = true; if (sched_log()[j].cpus != w.set) ok = false; } if (any == !w.set.empty() && ok) { n++; na += any; } }
		if (!n) oracle("C28 C29", "capi:schedparam", "no thread runs with policy %d priority %d affinity \"%s\" as asked for the %s", w.policy, w.prio, w.cpus ? w.cpus : "(null)", which ? "file" : "engine"); else probe("scheduling parameters applied");
	}
	// the bytes
	Str all = content(); std::vector<Line> v2 = lines(all);
	std::map<u64, size_t> at; std::map<Str, u64> seqs; std::map<u64, const P *> by; for (auto &q : st->posts) by[q.id] = &q;
	std::vector<u64> lastid(16, 0); std::vector<u64> got(st->rings.size(), 0), must(st->rings.size(), 0), may(st->rings.size(), 0);
	for (size_t i = 0; i < v2.size(); i++) {
		Line &l = v2[i]; if (l.area == "HOGL") continue;
		u64 id = strtoull(l.text.c_str() + (l.text.compare(0, 3, "id ") ? 0 : 3), 0, 10); auto it = by.find(id);
		if (it == by.end()) { oracle("C28", "capi:invented", "output has a record nobody posted: %s:%llu %s:%s %s", l.ring.c_str(), (unsigned long long) l.seq, l.area.c_str(), l.sect.c_str(), l.text.c_str()); continue; }
		const P &q = *it->second; char an[8]; snprintf(an, sizeof an, "A%d", q.area);
		if (at.count(id)) oracle("C28", "capi:duplicate", "record %llu is in the output twice", (unsigned long long) id); at[id] = i;
		if (l.text != q.want) oracle("C28", "capi:content", "posted '%s', the output has '%s'", q.want.c_str(), l.text.c_str());
		if (l.area != an || l.sect != g_sections[q.sect] || l.ring != st->rings[q.ring].name) oracle("C28", "capi:origin", "record %llu posted as %s %s:%s is in the output as %s %s:%s", (unsigned long long) id, st->rings[q.ring].name.c_str(), an, g_sections[q.sect], l.ring.c_str(), l.area.c_str(), l.sect.c_str());
		auto s = seqs.find(l.ring); if (s != seqs.end() && l.seq <= s->second) oracle("C28", "capi:order", "ring %s: sequence number %llu after %llu", l.ring.c_str(), (unsigned long long) l.seq, (unsigned long long) s->second); seqs[l.ring] = l.seq;
		got[q.ring]++;
	}
	std::map<int, u64> last; // order per thread and ring
	{ std::vector<std::pair<size_t, const P *> > o; for (auto &x : at) o.push_back(std::make_pair(x.second, by[x.first])); std::sort(o.begin(), o.end()); for (auto &x : o) { int k = x.second->ring * 16 + x.second->thr; if (last.count(k) && last[k] > x.second->id) oracle("C28", "capi:order", "record %llu is in the output after %llu of the same thread", (unsigned long long) x.second->id, (unsigned long long) last[k]); last[k] = x.second->id; } }
	for (auto &q : st->posts) { if (q.maybe) { if (at.count(q.id)) must[q.ring]++; else may[q.ring]++; } else must[q.ring]++; }
	for (size_t i = 0; i < st->rings.size(); i++) {
		u64 miss = must[i] - got[i], dr = st->rings[i].dropped;
		if (miss > dr) { Str ex; for (auto &q : st->posts) if (q.ring == (int) i && !q.maybe && !at.count(q.id)) { ex = q.want; break; } oracle("C28", "capi:missing", "ring %s: %llu records are not in the output, %llu were dropped; e.g. '%s'", st->rings[i].name.c_str(), (unsigned long long) miss, (unsigned long long) dr, ex.c_str()); }
		if (dr) probe("records dropped");
	}
	if (at.size()) probe("records output");
	if (st->kind == K_FILE) {
		unsigned cnt = KC("fopt") ? KC("cnt") : hogl::output_file::default_options.max_count, n = 0; std::set<Str> names; std::vector<u64> ino = vfs::inodes();
		for (size_t i = st->base; i < ino.size(); i++) { Str nm = vfs::inode_name_at_creation(ino[i]); if (nm.compare(0, st->path.size() + 1, st->path + ".") == 0) { names.insert(nm); n++; u64 lim = KC("fopt") ? KC("max") : 0; if (lim && i + 1 < ino.size() && vfs::inode_data(ino[i]).size() < lim / 2) oracle("C28", "capi:rotate-early", "chunk %s was closed with %zu bytes, the limit given is %llu", nm.c_str(), vfs::inode_data(ino[i]).size(), (unsigned long long) lim); } }
		if (names.size() > cnt) oracle("C28", "capi:chunks", "%zu chunks, at most %u asked for", names.size(), cnt);
		if (!KC("fopt") && n > 1) oracle("C28", "capi:chunks", "the file was rotated although it is far from the default size limit");
		if (n > 1) probe("rotated");
	}
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; W->engs.resize(1); st = new S; st->nid = 0; st->pipe0 = 0; st->prog.assign(16, 0); st->noflush = 0;
	vfs::fault_ok = [](int kind, const Str &) { return kind != F_WERR && (kind != F_OPEN || armed_seen()); };
	// a first engine comes and goes, so what the library keeps for good is there
	u64 live = 0, mark = 0;
	for (int c = -1; c < p.k("ncyc", 1); c++) {
		if (c < 0) { Plan q = p; q.ops.clear(); q.knobs["kind-1"] = K_PLAIN; q.knobs["eopt-1"] = 1; q.knobs["fields-1"] = 1; q.knobs["mask-1"] = 0; q.knobs["poll-1"] = 1000; q.knobs["tso-1"] = 16; cycle(q, -1); live = sut_live_blocks(); mark = alloc_mark(); }
		else cycle(p, c);
	}
	if (sut_live_blocks() != live) { dump_live(mark); oracle("C28", "leak:blocks", "%lld allocations are left after everything was deleted", (long long)(sut_live_blocks() - live)); }
	vfs::fault_ok = 0;
}
const Scenario sc = { "capi", "C28", generate, run, 0 };
Registrar reg_(&sc);
}
