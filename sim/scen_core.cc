// Recovery from a core image. A real engine with posting threads is killed at an arbitrary step; the memory of the
// simulated process at that instant, cut into segments as a core file has it, is what the real recovery code (coredump.cc,
// recovery-engine.cc, recover.cc) then works on. Serves C24.
#include "hog.h"
#include "hogl/detail/ostrbuf-stdio.hpp"
#include "coredump.hpp"
#include "recovery-engine.hpp"
#include <string.h>
#include <stdlib.h>
#include <getopt.h>
#include <sstream>
#include <iostream>
#include <algorithm>
using namespace sim;
int hogl_main_recover(int, char **);

namespace {
enum { OP_POST = 1, OP_NEW, OP_SLEEP, OP_YIELD, OP_HANG, OP_CRASH, OP_TS };
typedef std::string Str;
#define ULL(x) ((unsigned long long) (x))
struct Got { Str ring, area; unsigned sect; u64 seq, ts, id; std::vector<ArgVal> args; bool special; };
struct S {
	std::vector<int> cur; std::vector<u64> prog; std::vector<const hogl::area *> areas; std::vector<hogl::area *> own; bool dead; bool tschange;
	std::vector<Segment> img; std::vector<std::vector<Segment *> > files; bool bfd_bad; int fail_read; int reads; Str dumptext; std::vector<Got> got; int gaps; bool text_only;
};
S *st;

void generate(Plan &p, Rng &r)
{
	int nthr = 1 + r.below(4); p.set("nthr", nthr); p.set("sharedring", nthr > 1 && r.chance(1, 4));
	static const int polls[] = { 1000, 3000, 10000, 100000, 1000000 }, tsos[] = { 1, 2, 4, 16, 64, 4096 }, caps[] = { 2, 4, 8, 16, 64, 256 }, sinks[] = { 1, 20, 40, 512, 8192 };
	p.set("poll", r.pick(polls)); p.set("tso", r.chance(1, 5) ? -1 : r.pick(tsos)); p.set("sink", r.pick(sinks)); p.set("ts", r.below(3)); p.set("keep_freed", r.below(2)); p.set("debug", r.chance(1, 4)); p.set("cap", r.pick(caps)); p.set("ops_def", r.chance(1, 5));
	static const int rooms[] = { 0, 64, 128, 128, 300 }; p.set("room", r.pick(rooms));
	static const int us[] = { 1, 20, 200, 1000, 5000, 12000, 40000 };
	int nops = 4 + r.below(40); bool simple = r.chance(1, 4); p.set("tool", simple && r.chance(3, 4)); p.set("all", r.chance(1, 3)); p.set("longname", r.chance(1, 3) ? r.below(!p.k("tool") && r.chance(1, 2) ? 5000 : 300) : 0);
	for (int i = 0; i < nops; i++) {
		int t = r.below(nthr); u64 x = r.below(100);
		if (x < 62) p.op(t, OP_POST, 1 + (r.chance(1, 4) ? r.below(20) : r.below(4)), simple ? 0 : r.chance(1, 3) ? 0 : r.below(NVARIANT), r.below(8));
		else if (x < 70) p.op(t, OP_NEW, r.pick(caps), r.chance(1, 4) ? hogl::ringbuf::BLOCKING : 0, r.below(3));
		else if (x < 82) p.op(t, OP_SLEEP, r.pick(us));
		else if (x < 90) p.op(t, OP_YIELD);
		else if (x < 94) p.op(t, OP_HANG, r.below(3) > 0);
		else if (x < 96) p.op(t, OP_CRASH);
		else if (!simple) p.op(t, OP_TS, r.below(2));
	}
	p.set("crash_n", r.chance(1, 12) ? 0 : 1 + r.below(200 << r.below(9)));
	u64 m = r.below(10); p.set("miss", m < 5 ? 0 : m < 7 ? 1 : m < 8 ? 2 : m < 9 ? 3 : 4); p.set("miss_n", 1 + r.below(30)); p.set("missseed", r.below(1 << 30)); p.set("chunk", r.chance(1, 3) ? 0 : 1 + r.below(16));
	if (r.chance(1, 4)) p.set("f.slow_io", 100000);
	p.set("cpu_s", 30);
}

// ---- the image -----------------------------------------------------------------------------------------------------
enum { BFD_CORE = 1, BFD_EXEC = 2 };
struct Pages { std::vector<Segment> seg; };
void make_image(const Plan &p)
{
	std::vector<Segment> all; memory_image(all, true);
	int miss = p.k("miss"), chunk = p.k("chunk"); Rng r(p.k("missseed") + 5);
	st->files.resize(3); Str note = "registers";
	u64 cut = 0; if (miss == 3) { u64 tot = 0; for (auto &s : all) tot += s.size; cut = (r.below(tot) + 1); }
	u64 pos = 0;
	std::sort(all.begin(), all.end(), [](const Segment &a, const Segment &b) { return a.vma < b.vma; });
	for (auto &s : all) {
		bool ro = s.kind == SEG_RO; 
		if (miss == 1 && ro) { probe("image without read-only data"); continue; }
		int file = ro && miss == 4 ? BFD_EXEC : BFD_CORE;
		for (u64 o = 0; o < s.size;) {
			u64 n = chunk ? std::min<u64>(s.size - o, 4096 * (1 + r.below(chunk))) : s.size - o;
			if (miss == 3 && pos >= cut) break;
			if (miss == 3 && pos + n > cut) { n = (cut - pos) & ~4095ULL; if (!n) break; }
			pos += n;
			bool drop = miss == 2 && s.kind != SEG_RO && r.below(100) < (u64) p.k("miss_n");
			if (miss == 2 && !chunk) n = std::min<u64>(n, 4096 * (1 + r.below(8)));
			if (!drop) { Segment x; x.vma = s.vma + o; x.size = n; x.kind = file; x.data = s.data.substr(o, n); st->img.push_back(x); } else fault(F_DAMAGE);
			o += n;
		}
	}
	if (miss == 2) probe("image with missing pages"); if (miss == 3) probe("image cut short"); if (miss == 4) probe("read-only data from the executable");
	Segment n; n.vma = 0; n.size = 100; n.kind = BFD_CORE; n.data = Str(100, 'r'); st->img.push_back(n);
	if (r.chance(1, 2)) std::reverse(st->img.begin(), st->img.end());
}

Str show_got(const Got &g) { char b[300]; snprintf(b, sizeof b, "ring %.60s seq %llu ts %llu %.60s:%u ", g.ring.c_str(), ULL(g.seq), ULL(g.ts), g.area.c_str(), g.sect); return b + show(g.args); }
bool readable(const char *s) { for (size_t i = 0; i < 100000; i++) { if (!addressable(s + i, 1)) return false; if (!s[i]) return true; } return false; }
Str str_of(const char *s, const char *what) { if (!s) return "(null)"; if (!readable(s)) violate("memory:string", "%s of a recovered record runs past the end of the image", what); return s; }

// Format handler given to the recovery engine: remembers every record, then lets the real one produce text.
struct CapFormat : public hogl::format {
	hogl::format_basic basic; CapFormat(const char *f) : basic(f) {}
	virtual void process(hogl::ostrbuf &s, const data &d)
	{
		{
			Quiet q; Got g; const hogl::record *r = d.record; g.ring = str_of(d.ring_name, "the ring name"); g.seq = r->seqnum; g.ts = r->timestamp.to_nsec(); g.sect = r->section; g.id = 0; g.special = false;
			const hogl::area *a = r->area; if (a && !addressable(a, sizeof *a)) violate("memory:area", "the area of a recovered record is not valid memory");
			g.area = a ? str_of(a->name(), "the area name") : "(none)"; g.special = g.area == "SPECIAL";
			if (a && g.sect < a->size()) str_of(a->section_name(g.sect), "the section name");
			for (unsigned i = 0; i < hogl::record::NARGS; i++) if (r->get_arg_type(i) == hogl::arg::GSTR) str_of((const char *) r->get_arg_val64(i), "a constant string argument");
			if (!g.special) { g.args = record_args(r); for (auto &x : g.args) if (x.type == hogl::arg::UINT64) { g.id = x.v; break; } }
			st->got.push_back(g); note(g.seq, g.id); logf("RECOVERED %s", show_got(g).c_str());
		}
		basic.process(s, d);
	}
	virtual void header(hogl::ostrbuf &, const char *, bool) {}
	virtual void footer(hogl::ostrbuf &, const char *) {}
};
}

// ---- stand-in for libbfd: serves the image -----------------------------------------------------------------------------
static char bfd_handle[3];
static int bfd_file(bfd *b) { return (char *) b - bfd_handle; }
static asection *bfd_secs(int file, int &n)
{
	static asection *sec[3]; static int cnt[3];
	if (!sec[file]) { Quiet q; sec[file] = (asection *) calloc(st->img.size() + 1, sizeof(asection)); int k = 0; for (auto &s : st->img) if (s.kind == file) { sec[file][k].vma = s.vma; sec[file][k].size = s.size; sec[file][k].userdata = &s; k++; } cnt[file] = k; }
	n = cnt[file]; return sec[file];
}
extern "C" {
unsigned bfd_init(void) { return BFD_INIT_MAGIC; }
bfd *bfd_openr(const char *name, const char *) { Quiet q; if (!strcmp(name, "/sim/core")) return (bfd *)(bfd_handle + BFD_CORE); if (!strcmp(name, "/sim/prog")) return (bfd *)(bfd_handle + BFD_EXEC); return 0; }
bool bfd_check_format_matches(bfd *b, bfd_format f, char ***m) { *m = 0; return (f == bfd_core) == (bfd_file(b) == BFD_CORE); }
const char *bfd_core_file_failing_command(bfd *) { return "prog"; }
bool core_file_matches_executable_p(bfd *, bfd *) { return true; }
void bfd_map_over_sections(bfd *b, void (*fn)(bfd *, asection *, void *), void *o) { int n; asection *s = bfd_secs(bfd_file(b), n); for (int i = 0; i < n; i++) fn(b, s + i, o); }
asection *bfd_sections_find_if(bfd *b, bool (*fn)(bfd *, asection *, void *), void *o) { int n; asection *s = bfd_secs(bfd_file(b), n); for (int i = 0; i < n; i++) if (fn(b, s + i, o)) return s + i; return 0; }
bool bfd_get_section_contents(bfd *, asection *s, void *to, file_ptr off, bfd_size_type n)
{
	Quiet q; Segment *g = (Segment *) s->userdata; if (off < 0 || (u64) off + n > g->size) return false;
	if (!addressable(to, n)) violate("memory:out-of-bounds", "section contents are loaded past the end of the buffer");
	memcpy(to, g->data.data() + off, n); return true;
}
bool bfd_close(bfd *) { return true; }
}

namespace {
void new_ring(const Plan &p, int t, int cap, unsigned flags, int how, int id)
{
	int old = st->cur[t];
	char nm[6000]; snprintf(nm, sizeof nm, "R%d_%d", t, id); { size_t n = p.k("longname"); if (n) { Quiet q; Str s = nm; s.append(n, '_'); strcpy(nm, s.c_str()); } } hogl::ringbuf::options o; o.capacity = cap; o.prio = (id % 3) * 10; o.flags = flags; o.record_tailroom = p.k("room");
	if (old >= 0) { RingInfo &ri = W->rings[old]; ri.dropcnt = ri.r->dropcnt(); ri.closed = true; hogl::ringbuf *r = ri.r; ri.r = 0; st->cur[t] = -1; SUT((r->release(), 0)); }
	hogl::ringbuf *r;
	if (how == 0) { r = SUT(W->engs[0].e->add_ring(nm, o)); if (!r) violate("setup", "no ring"); }
	else { r = SUT(new hogl::ringbuf(nm, o)); SUT((r->hold(), 0)); if (!SUT(W->engs[0].e->add_ring(r))) violate("setup", "ring refused"); }
	st->cur[t] = add_ring_info(nm, 0, r, o);
}

void recover(const Plan &p)
{
	unsigned fl = p.k("all") ? hogl::recovery_engine::DUMP_ALL : 0; const char *exec = p.k("miss") == 4 ? "/sim/prog" : 0;
	if (p.k("tool")) {
		const char *av[10]; int n = 0; av[n++] = "hogl-recover"; av[n++] = "-f"; av[n++] = "timespec,ring,seqnum,area,section"; if (fl) av[n++] = "-a"; av[n++] = "/sim/core"; if (exec) av[n++] = exec; av[n] = 0; optind = 0;
		int rc = SUT(hogl_main_recover(n, (char **) av)); if (rc) violate("recover:failed", "hogl-recover returned %d", rc);
		return;
	}
	hogl::coredump *c = SUT(new hogl::coredump("/sim/core", exec));
	if (c->failed) { Str e; vfs::read_file("/sim/dev/stderr", e); oracle("C24", "recover:load", "the core image could not be loaded: %.200s", e.c_str()); return; }
	CapFormat *f = SUT(new CapFormat("timespec,ring,seqnum,area,section"));
	hogl::recovery_engine *re = SUT(new hogl::recovery_engine(*c, *f, fl));
	std::ostringstream *os = new std::ostringstream; std::streambuf *sb = std::cout.rdbuf(os->rdbuf());
	SUT((re->dump_rings(), 0)); SUT((re->dump_areas(), 0));
	std::cout.rdbuf(sb); st->dumptext = os->str();
	SUT((re->dump_outbufs(), 0)); SUT((re->dump_records(), 0));
	SUT((delete re, 0)); SUT((delete f, 0)); SUT((delete c, 0));
}

// Lines the tool printed for simple records: "sec.nsec ring:seq area:section id"
void parse_tool(const Str &out)
{
	size_t k = out.find("Dumping records from ring buffers:\n"); if (k == Str::npos) { oracle("C24", "recover:output", "hogl-recover printed no record section"); return; }
	std::istringstream s(out.substr(k)); Str l; std::getline(s, l);
	while (std::getline(s, l)) {
		if (l.compare(0, 4, "####") == 0) break;
		unsigned long long a, b, id; char ring[600], area[200]; 
		if (l.find(" SPECIAL:") != Str::npos) continue;
		if (l.find(" HOGL:") != Str::npos) continue;
		int n = sscanf(l.c_str(), "%llu.%llu %599s %199s %llu", &a, &b, ring, area, &id);
		if (n == 4 && !a && !b) continue;      // a slot that was never used (--all)
		if (n != 5) { if (!st->gaps) oracle("C24", "recover:line", "hogl-recover printed a line that is no record: '%.120s'", l.c_str()); continue; }
		Got g; g.special = false; g.ts = a * 1000000000 + b; g.id = id; char *c = strrchr(ring, ':'); if (!c) continue; *c = 0; g.ring = ring; g.seq = strtoull(c + 1, 0, 10); c = strchr(area, ':'); if (c) { *c = 0; g.sect = c[1] == 'S' ? atoi(c + 2) : 99; } g.area = area; ArgVal v; v.type = hogl::arg::UINT64; v.v = id; g.args.push_back(v); st->got.push_back(g);
	}
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; W->engs.resize(1); st = new S; st->dead = false; st->tschange = false; st->reads = 0; st->text_only = p.k("tool");
	int nthr = p.k("nthr"); bool shared = p.k("sharedring"); st->cur.assign(nthr, -1); st->prog.assign(nthr, 0);
	Eng &E = W->engs[0]; E.poll = p.k("poll"); i64 tso = p.k("tso"); E.tso = tso >= 0; E.cap = tso > 0 ? tso : 0;
	hogl::timesource *ts = SUT(p.k("ts") == 1 ? ts_clock_src() : p.k("ts") == 2 ? ts_equal_src() : ts_counter_src()), *ts2 = SUT(ts_counter2_src());
	hogl::engine::options o = hogl::engine::default_options; o.default_mask = p.k("debug") ? hogl::mask(".*:.*", 0) : hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0);
	o.polling_interval_usec = E.poll; o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = tso >= 0 ? 0 : hogl::engine::DISABLE_TSO; o.timesource = ts;
	if (p.k("crash_n") && p.k("crash_n") % 7 == 0) crash_after(p.k("crash_n"));
	int boot = spawn("boot", [=, &p] {
		op_begin(90000); Eng &E = W->engs[0];
		E.fmt = SUT(new ObsFormat(0, 0)); E.out = SUT(new MemOutput(*E.fmt, 0, p.k("sink"))); E.e = SUT(new hogl::engine(*E.out, o));
		for (int i = 0; i < 2; i++) { char an[8]; snprintf(an, sizeof an, "A%d", i); hogl::area *a = SUT(E.e->add_area(an, g_sections)); if (!a) violate("setup", "no area"); st->areas.push_back(a); }
		if (shared) { new_ring(p, 0, p.k("cap"), hogl::ringbuf::SHARED, 0, 0); W->rings[0].shared = true; for (int t = 1; t < nthr; t++) { st->cur[t] = 0; SUT((W->rings[0].r->hold(), 0)); } }
		else for (int t = 0; t < nthr; t++) new_ring(p, t, p.k("cap"), 0, t % 2, 0);
	});
	auto wait = [&](int f, const char *n) { for (u64 seen = ~0ULL; !join(f, 100000000000LL);) { if (crashed()) return; u64 x = 0; for (u64 v : st->prog) x += v; if (x != seen) { seen = x; continue; } violate("hang:thread", "%s does not finish: %s", n, where(f).c_str()); } };
	wait(boot, "the set-up");
	if (!crashed()) {
		if (p.k("crash_n") && p.k("crash_n") % 7) crash_after(p.k("crash_n"));
		enable_faults(true); std::vector<int> fib;
		for (int t = 0; t < nthr; t++) {
			std::vector<Op> ops; for (auto &x : p.ops) if (x.thr == t) ops.push_back(x);
			char nm[16]; snprintf(nm, sizeof nm, "thr%d", t);
			fib.push_back(spawn(nm, [=, &p] {
				for (auto &x : ops) {
					op_begin(x.id); st->prog[t]++;
					switch (x.kind) {
					case OP_POST: for (int k = 0; k < x.a; k++) { if (W->engs[0].hang && (W->rings[st->cur[t]].o.flags & hogl::ringbuf::BLOCKING)) break; st->prog[t]++; do_post(t, st->cur[t], st->areas[x.id & 1], x.id & 1, (x.c + k) & 7, x.b); } break;
					case OP_NEW: if (!shared) new_ring(p, t, x.a, x.b, x.c % 2, x.id); break;
					case OP_SLEEP: sleep_ns(x.a * 1000); break;
					case OP_YIELD: yield_point(); break;
					case OP_HANG: W->engs[0].hang = x.a; if (x.a) probe("sink stalled"); break;
					case OP_CRASH: if (!p.replay && p.k("crash_n")) crash_soon(); yield_point(); break;
					case OP_TS: st->tschange = true; { hogl::ringbuf *r = W->rings[st->cur[t]].r; hogl::timesource *to = x.a ? ts2 : ts; W->rings[st->cur[t]].specials++; if (W->engs[0].hang) break; SUT(hogl::change_timesource(r, to, 2000)); } break;
					}
				}
			}));
		}
		for (int f : fib) { for (u64 seen = ~0ULL; !join(f, 100000000000LL);) { if (crashed()) break; u64 x = 0; for (u64 v : st->prog) x += v; if (x != seen) { seen = x; continue; } if (W->engs[0].hang) { probe("writer blocked at the crash"); break; } violate("hang:thread", "a posting thread does not finish: %s", where(f).c_str()); } if (crashed()) break; }
	}
	enable_faults(false);
	if (crashed()) { crash_clear(); probe("crash"); } else { freeze_sut(); probe("died when idle"); }
	crash_after(0);
	for (auto &ri : W->rings) if (ri.r && !ri.closed) ri.dropcnt = ri.r->dropcnt();
	std::vector<u64> qs(W->rings.size(), 0); for (size_t i = 0; i < W->rings.size(); i++) if (W->rings[i].r && !W->rings[i].closed) qs[i] = W->rings[i].r->size();
	make_image(p); bool whole = p.k("miss") != 2 && p.k("miss") != 3; st->gaps = !whole;
	int rf = spawn("recover", [&p] { op_begin(95000); recover(p); st->dead = true; fflush(stdout); });
	if (!wait_until([&] { return done(rf) || sut_exit_code() >= 0; }, 100000000000LL, 1000000)) violate("hang:recover", "recovery does not finish: %s", where(rf).c_str());
	if (sut_exit_code() >= 0) { oracle("C24", "recover:exit", "hogl-recover gave up with exit code %d", sut_exit_code()); return; }
	Str out; vfs::read_file("/sim/dev/stdout", out);
	if (st->text_only) parse_tool(out);

	// what was delivered, is buffered, or was recovered
	std::set<u64> have; std::vector<size_t> &ob = E.obs; size_t nlines = std::min(E.lines, ob.size());
	for (size_t i = 0; i < nlines; i++) if (W->obs[ob[i]].id) have.insert(W->obs[ob[i]].id);
	Str tail = E.sink.substr(E.sink.rfind('\x1e') == Str::npos ? 0 : E.sink.rfind('\x1e') + 1);
	size_t k = 0, nbuf = 0;
	while ((k = out.find("Dumping output buffer: ", k)) != Str::npos) {
		size_t e = out.find('\n', k); if (e == Str::npos) break;
		size_t x = out.find("#### #### #### ####\n", e); Str body = tail + out.substr(e + 1, x == Str::npos ? Str::npos : x - e - 1); k = e; nbuf++;
		for (size_t i = 0; i < body.size();) { size_t z = body.find("\n\x1e", i); if (z == Str::npos) break; size_t h = body.rfind('#', z); if (h != Str::npos && h >= i) { size_t idx = strtoull(body.c_str() + h + 1, 0, 10); if (idx < W->obs.size()) { if (W->obs[idx].id) { have.insert(W->obs[idx].id); probe("record recovered from the output buffer"); } } } i = z + 2; }
	}
	std::set<u64> seen; u64 lastts = 0; std::map<Str, u64> lastseq; bool roless = p.k("miss") == 1 || !whole;
	for (auto &g : st->got) {
		if (g.ts < lastts) oracle("C24", "recover:order", "recovered records are not sorted by timestamp: %s after %llu", show_got(g).c_str(), ULL(lastts));
		lastts = g.ts;
		if (g.special || g.area == "HOGL" ) continue;
		if (!g.seq && !g.ts && g.args.empty() && p.k("all")) continue;      // a slot that was never used
		auto it = W->by_id.find(g.id);
		if (it == W->by_id.end()) { if (whole || !g.args.empty()) oracle("C24", "recover:invented", "recovery outputs a record that was never posted: %s", show_got(g).c_str()); continue; }
		Post &q = W->posts[it->second]; RingInfo &ri = W->rings[q.ring];
		if (!seen.insert(g.id).second) oracle("C24", "recover:duplicate", "record %llx was recovered twice", ULL(g.id));
		have.insert(g.id); probe("record recovered from a ring");
		if (g.ring != ri.name) oracle("C24", "recover:ring", "record %llx posted to ring %s was recovered from ring %s", ULL(g.id), ri.name.c_str(), g.ring.c_str());
		std::vector<ArgVal> a = g.args, b = q.args; bool eq = a.size() == b.size();
		if (eq && !st->text_only) for (size_t i = 0; i < a.size(); i++) { if (roless && a[i].type == hogl::arg::GSTR && b[i].type == hogl::arg::GSTR) continue; if (!(a[i] == b[i])) eq = false; }
		if (!eq) oracle("C24", "recover:content", "record %llx of ring %s posted as %s was recovered as %s", ULL(g.id), ri.name.c_str(), show(b).c_str(), show(a).c_str());
		char an[8]; snprintf(an, sizeof an, "A%d", q.area); bool noarea = !whole && (g.area == "(none)" || g.area == "INVALID");
		if (!noarea && (g.area != an || (!(roless && st->text_only) && (int) g.sect != q.sect))) oracle("C24", "recover:area", "record %llx posted as %s:%d was recovered as %s:%u", ULL(g.id), an, q.sect, g.area.c_str(), g.sect);
		if (!st->tschange) { auto ls = lastseq.find(g.ring); if (ls != lastseq.end() && g.seq <= ls->second) oracle("C24", "recover:ring-order", "ring %s: record with seq %llu recovered after seq %llu", g.ring.c_str(), ULL(g.seq), ULL(ls->second)); lastseq[g.ring] = g.seq; }
	}
	if (whole) for (size_t i = 0; i < W->rings.size(); i++) {
		RingInfo &ri = W->rings[i]; u64 missing = 0, posted = 0; Str m; char b[24];
		for (auto &q : W->posts) if (q.ring == (int) i && q.returned) { posted++; if (!have.count(q.id)) { if (missing++ < 6) { snprintf(b, sizeof b, " %llx", ULL(q.id)); m += b; } } }
		if (missing > ri.dropcnt) oracle("C24", "recover:lost", "ring %s: %llu records posted, %llu dropped, but %llu were neither delivered, nor in the output buffer, nor recovered:%s (the ring held %llu)", ri.name.c_str(), ULL(posted), ULL(ri.dropcnt), ULL(missing), m.c_str(), ULL(qs[i]));
		if (qs[i]) probe("ring held records at the crash");
		if (!st->text_only && ri.r && !ri.closed && st->dumptext.find(ri.name + ":") == Str::npos) oracle("C24", "recover:ring-missing", "ring %s was not found in the image", ri.name.c_str());
	}
	if (st->got.size()) probe("records recovered"); if (p.k("all")) probe("everything dumped");
}
const Scenario sc = { "core", "C24", generate, run, 0 };
Registrar reg_(&sc);
}
