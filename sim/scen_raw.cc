// Raw logs and text lines. A real engine with posting threads writes a raw log (or text) through a real file output onto a
// simulated disk. The log is then damaged and read back (C23), or followed by a reader while it grows (C27); text lines
// are compared with an independent rendering of their records for arbitrary clock histories (C26).
#include "hog.h"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-file.hpp"
#include "hogl/detail/ostrbuf-stdio.hpp"
#include "raw-parser.hpp"
#include "rdbuf.hpp"
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <getopt.h>
#include <algorithm>
using namespace sim;
int hogl_main_cook(int, char **);
void post_odd(hogl::ringbuf *, const hogl::area *, unsigned sect, u64 seed, bool noempty);

namespace {
enum { OP_POST = 1, OP_XD, OP_SLEEP, OP_YIELD, OP_DAMAGE, OP_STEP, OP_ODD };
enum { D_CUT, D_FLIP, D_LOSE, D_DUP, D_RAND, D_ZERO, D_FIELD, D_N };
typedef std::string Str;
#define ULL(x) ((unsigned long long) (x))

struct Rec { Str ring, area, sect; u64 seq, ts; std::vector<ArgVal> args; Str text; bool textual; };
bool same(const Rec &a, const Rec &b) { return a.ring == b.ring && a.area == b.area && a.sect == b.sect && a.seq == b.seq && a.ts == b.ts && a.args == b.args; }
Str show_rec(const Rec &r) { char b[400]; snprintf(b, sizeof b, "ring %.60s seq %llu ts %llu %.60s:%.60s ", r.ring.c_str(), ULL(r.seq), ULL(r.ts), r.area.c_str(), r.sect.c_str()); return b + show(r.args); }
struct Scratch : public hogl::ostrbuf { Str s; size_t n; Scratch() : hogl::ostrbuf(32), n(0) {} virtual void do_flush(const uint8_t *d, size_t k) { Quiet q; s.append((const char *) _data, _size); reset(); if (k) s.append((const char *) d, k); if (s.size() > 50000000) violate("raw:endless-output", "formatting one damaged record produced more than 50 MB of text"); } };

struct S { std::vector<Rec> recs; std::vector<size_t> bounds; std::vector<u64> prog; std::vector<Rec> got; size_t base; bool constructed, ended, started; Str why; u64 tsn; i64 tscur; std::vector<Str> lines; u64 tsseed; int fault_reader; };
S *st;

Str render_fresh(const hogl::format::data &d, const char *f = "timespec,ring,seqnum,area,section") { hogl::format_basic fb(f); Scratch b; fb.process(b, d); b.flush(); return b.s; }

Rec capture(const hogl::format::data &d, bool check)
{
	Rec r; const hogl::record *x = d.record; r.ring = d.ring_name; r.area = x->area ? x->area->name() : "INVALID"; r.sect = x->area ? x->area->section_name(x->section) : "INVALID"; r.seq = x->seqnum; r.ts = x->timestamp.to_nsec(); r.args = record_args(x); r.textual = true;
	for (auto &a : r.args) { if (a.type == hogl::arg::GSTR) a.type = hogl::arg::CSTR; if (a.type == hogl::arg::RAW) r.textual = false; }
	if (r.textual && check) r.text = render_fresh(d);
	if (g_prop == "C30" && !check) { r.text = render_fresh(d, "seqnum"); char b[40]; snprintf(b, sizeof b, "%llu ", ULL(r.seq)); if (r.text.compare(0, strlen(b), b)) violate("harness:fresh", "'%s'", r.text.c_str()); r.text = r.text.substr(strlen(b)); }
	return r;
}

const char *const field_sets[] = { 0, "default", "fast0", "fast1", "timestamp", "timespec", "timespec|timedelta", "timedelta,ring", "timestamp|timespec|timedelta|ring|seqnum|area|section", "ring,seqnum", "seqnum", "area", "section|seqnum", "timespec,area,section", "timestamp,section" };
enum { NFS = sizeof field_sets / sizeof field_sets[0] };
bool has(const char *fs, const char *n) { Str s = Str(fs), t; for (char c : s) t += c == ',' ? '|' : c; t = "|" + t + "|"; return t.find(Str("|") + n + "|") != t.npos; }

// The header text a record must have, computed from scratch.
Str calendar(u64 ts, int utcoff, bool zone)
{
	time_t s = ts / 1000000000; char b[80]; struct tm tm; memset(&tm, 0, sizeof tm);
	if (zone) localtime_r(&s, &tm);
	else {
		i64 t = (i64) s + utcoff, d = t / 86400, r = t % 86400; if (r < 0) { r += 86400; d--; }
		i64 z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097; u64 doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
		tm.tm_mday = doy - (153 * mp + 2) / 5 + 1; tm.tm_mon = (mp < 10 ? mp + 3 : mp - 9) - 1; tm.tm_year = yoe + era * 400 + (tm.tm_mon <= 1) - 1900; tm.tm_hour = r / 3600; tm.tm_min = r / 60 % 60; tm.tm_sec = r % 60;
	}
	snprintf(b, sizeof b, "%02d%02d%04d %02d:%02d:%02d.%09llu ", tm.tm_mon + 1, tm.tm_mday, 1900 + tm.tm_year, tm.tm_hour, tm.tm_min, tm.tm_sec, ULL(ts % 1000000000)); return b;
}
Str ref_header(const char *fs, const Rec &r, u64 last, int utcoff, bool zone, bool &backward)
{
	Str h; char b[64]; u64 delta = last ? r.ts - last : 0; backward = last && r.ts < last;
	bool def = !fs || !strcmp(fs, "default"), f0 = fs && !strcmp(fs, "fast0"), f1 = fs && !strcmp(fs, "fast1");
	if (f0 || f1 || (!def && has(fs, "timespec"))) { snprintf(b, sizeof b, "%011llu.%09llu ", ULL(r.ts / 1000000000), ULL(r.ts % 1000000000)); h += b; }
	if (def || (!f0 && !f1 && has(fs, "timestamp"))) h += calendar(r.ts, utcoff, zone);
	if (f1 || (!def && !f0 && has(fs, "timedelta"))) { snprintf(b, sizeof b, "(%llu) ", ULL(delta)); h += b; }
	bool all = def || f0 || f1, ring = all || has(fs, "ring"), seq = all || has(fs, "seqnum"), area = all || has(fs, "area"), sect = all || has(fs, "section");
	snprintf(b, sizeof b, "%llu", ULL(r.seq));
	if (ring || seq) h += (ring ? r.ring : Str()) + (ring && seq ? ":" : "") + (seq ? b : "") + " ";
	if (area || sect) h += (area ? r.area : Str()) + (area && sect ? ":" : "") + (sect ? r.sect : Str()) + " ";
	return h;
}

struct Fmt : public hogl::format {
	hogl::format *f; bool raw, split; 
	virtual void process(hogl::ostrbuf &s, const data &d)
	{
		{ Quiet q; Rec r = capture(d, raw); st->recs.push_back(r); note(r.seq, r.ts); }
		if (raw) {
			Scratch b; f->process(b, d); { Quiet q; b.flush(); st->base += b.s.size(); st->bounds.push_back(st->base); }
			if (split) { f->process(s, d); return; }
			s.push_back((const uint8_t *) b.s.data(), b.s.size());
		} else { f->process(s, d); s.push_back("\036", 1); }
	}
};

// ---- clock histories (C26) ---------------------------------------------------------------------------------
i64 next_ts(i64 c, u64 seed, u64 n)
{
	const i64 G = 1000000000; u64 x = mix(seed, n), k = (x >> 8) % 14, v = x >> 16; u64 style = seed % 3;
	if (style == 0) k %= 4; else if (style == 1 && k > 9) k = 0;
	switch (k) {
	case 0: c += 1 + v % 1000; break;
	case 1: c += 10000 - (c % 10000) - 1 + v % 3; break;                 // around the boundary the cache splits nanoseconds at
	case 2: c += G - c % G - 1 - v % 20; break;                          // just before the next second
	case 3: c += G - c % G + v % 2 * (v % 20); break;                    // exactly the next second, or just after
	case 4: c += G * (1 + (i64)(v % 3)); break;                          // same nanoseconds, another second
	case 5: break;                                                       // repeated
	case 6: c -= 1 + v % 1000; break;
	case 7: c -= G * (1 + (i64)(v % 3)); break;
	case 8: c -= (i64)(v % (86400ULL * 3 * G)); break;
	case 9: c += (i64)(v % 9) * 10000000; break;
	case 10: c += 86400 * G - c % (86400 * G) - (i64)(v % 2); break;     // midnight
	case 11: c = 1 + v % G; break;                                       // within the first second of the epoch
	case 12: c = (i64)(4102444800ULL * G) + v % (86400ULL * 400 * G); break;
	case 13: c = 1700000000LL * G + (i64)(v % (400ULL * 86400 * G)); break;
	}
	if (c < 1) c = 1 + v % 5;
	return c;
}
hogl::timestamp cb_hist(const hogl::timesource *) { Quiet q; st->tscur = next_ts(st->tscur, st->tsseed, ++st->tsn); return hogl::timestamp((uint64_t) st->tscur); }

Str name_of(u64 seed, const char *pre, size_t len) { Str s = pre; u64 x = mix(seed, 31); while (s.size() < len) { x = mix(x, 7); s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_. :/%#+"[x % 72]; } return s; }

void generate(Plan &p, Rng &r)
{
	bool C23 = p.prop == "C23", C26 = p.prop == "C26", C27 = p.prop == "C27", C30 = p.prop == "C30";
	static const int caps[] = { 0, 1, 7, 32, 100, 1024, 4096, 8192 };
	int nthr = 1 + r.below(2), nring = 1 + r.below(3); p.set("nthr", nthr); p.set("nring", nring);
	p.set("cap", r.pick(caps)); p.set("split", r.chance(1, 2)); p.set("poll", 500 << r.below(5)); p.set("tso", r.chance(2, 3) ? 4 << r.below(8) : -1);
	static const int nl[] = { 2, 2, 3, 4, 8, 8, 20, 63, 127, 128 };
	for (int i = 0; i < 4; i++) { char b[16]; snprintf(b, sizeof b, "nl%d", i); p.set(b, r.pick(nl)); }
	static const int rooms[] = { 128, 128, 160, 200, 300, 600, 1500 };
	p.set("room", r.pick(rooms)); p.set("rcap", 8 << r.below(5)); p.set("ts", C26 ? r.below(4) : r.below(2));
	if (C26) { p.set("tsseed", r.below(1 << 30)); p.set("fields", r.below(NFS)); p.set("tz", r.below(6)); p.set("f.clock_jump", p.k("ts") == 3 ? 20000 : 0); if (r.chance(1, 4)) p.set("longname", 140 + r.below(800)); }
	if (C30) { p.set("fields", r.below(NFS)); p.set("tz", r.below(6)); p.set("rawfmt", r.chance(1, 4)); p.set("cook", r.chance(1, 3)); static const int rc[] = { 5, 64, 4096 }; p.set("rdcap", r.pick(rc)); }
	int n = 3 + r.below(C27 ? 30 : 22);
	for (int i = 0; i < n; i++) {
		u64 x = r.below(100); int t = r.below(nthr);
		if (C30 && x < 55) p.op(t, OP_ODD, r.below(nring), r.below(1LL << 40), r.below(4));
		else if (x < 62) p.op(t, OP_POST, r.below(nring), 1 + r.below(4), r.below(C26 || C30 ? 2 : NVARIANT), r.below(4));
		else if (x < 76) p.op(t, OP_XD, r.below(nring), r.below(1 << 20), r.below(3), r.below(1 << 20));
		else if (x < 92) p.op(t, OP_SLEEP, 10 << r.below(10)); else p.op(t, OP_YIELD);
	}
	p.set("f.short_write", r.chance(1, 2) ? 20000 << r.below(5) : 0); p.set("f.slow_io", r.chance(1, 4) ? 20000 : 0);
	if (C23) {
		int nd = r.below(8) == 0 ? 0 : 1 + r.below(r.chance(1, 3) ? 4 : 1);
		for (int i = 0; i < nd; i++) p.op(9, OP_DAMAGE, r.below(10) < 4 ? D_FIELD : r.below(D_N), r.below(1 << 30), 1 + r.below(1 << r.below(9)), r.below(1 << 30));
	}
	if (C23 || C27) {
		static const int rc[] = { 1, 2, 5, 16, 64, 100, 4096 };
		p.set("rdcap", r.pick(rc)); p.set("f.short_read", r.chance(1, 2) ? 50000 << r.below(4) : 0); p.set("f.eintr", r.chance(1, 2) ? 20000 << r.below(4) : 0); p.set("cook", r.chance(1, 4)); p.set("slack", r.chance(2, 3) ? 0 : r.below(100000));
		if (C23) p.set("f.read_error", r.chance(1, 10) ? 30000 : 0);
		p.set("fields", r.below(NFS)); p.set("V1", 0);
	}
	if (C27) { p.set("append", r.chance(1, 2)); p.set("phase1", r.below(2)); p.set("piece", 1 + r.below(1 << r.below(9))); p.set("gap", 1 << r.below(12)); p.set("rotfile", r.chance(1, 3)); }
	p.set("max_s", 4000);
}

Str log_path;
const char *const RAWLOG = "/sim/log/raw.log";
std::vector<const char *> *sects;
hogl::engine *eng; hogl::output *outp; Fmt *fm; hogl::area *area; std::vector<hogl::ringbuf *> *rings;

void wait(int f, const char *n)
{
	for (u64 seen = ~0ULL; !join(f, 60000000000LL);) { u64 x = 0; for (u64 y : st->prog) x += y; if (x != seen) { seen = x; continue; } violate("hang:thread", "%s does not finish: %s", n, where(f).c_str()); }
}

void start_engine(const Plan &p, bool raw)
{
	fm = new Fmt; fm->raw = raw; fm->split = p.k("split");
	fm->f = raw ? SUT((hogl::format *) new hogl::format_raw()) : SUT((hogl::format *) new hogl::format_basic(field_sets[p.k("fields")]));
	unsigned cap = p.k("cap", 1024);
	if (p.k("rotfile")) {
		hogl::output_file::options fo = hogl::output_file::default_options; fo.max_size = 1000000000; fo.max_count = 10; fo.buffer_capacity = cap; fo.schedparam = 0;
		outp = SUT((hogl::output *) new hogl::output_file("/sim/log/raw.#", *fm, fo));
		log_path = "/sim/log/raw.0";
		for (auto &n : vfs::list()) { Str o; if (n.compare(0, 12, "/sim/log/raw") == 0 && vfs::link_target(n).empty() && vfs::resolve(n, o)) log_path = n; }
	} else { outp = SUT((hogl::output *) new hogl::output_plainfile(RAWLOG, *fm, cap)); log_path = RAWLOG; }
	hogl::engine::options o = hogl::engine::default_options; o.default_mask = hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0); o.polling_interval_usec = p.k("poll", 1000); i64 tso = p.k("tso", -1); o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = tso > 0 ? 0 : hogl::engine::DISABLE_TSO;
	hogl::timesource *hist = new hogl::timesource("history", cb_hist);
	o.timesource = raw ? (p.k("ts") ? ts_clock_src() : ts_counter_src()) : p.k("ts") == 3 ? 0 : hist;
	eng = SUT(new hogl::engine(*outp, o));
	W->engs[0].e = eng;
	size_t extra = p.k("longname");
	sects = new std::vector<const char *>;
	static const char *const sn[] = { "S0", "sec", "INFO", "x." };
	for (int i = 0; i < 4; i++) { char b[16]; snprintf(b, sizeof b, "nl%d", i); Str *s = new Str(name_of(100 + i, sn[i], p.k(b, 2) + (i == 1 ? extra : 0))); sects->push_back(s->c_str()); }
	sects->push_back(0);
	Str an = name_of(7, "A7", p.k("nl1", 2) + (extra & 1 ? extra : 0));
	area = SUT(eng->add_area(an.c_str(), sects->data()));
	rings = new std::vector<hogl::ringbuf *>;
	int nring = p.k("nring", 1);
	for (int i = 0; i < nring; i++) {
		hogl::ringbuf::options ro; ro.capacity = p.k("rcap", 16); ro.prio = 0; ro.flags = hogl::ringbuf::SHARED; ro.record_tailroom = p.k("room", 128);
		char b[8]; snprintf(b, sizeof b, "R%d", i); char kb[8]; snprintf(kb, sizeof kb, "nl%d", i); Str nm = name_of(50 + i, b, p.k(kb, 2) + (i == 0 && extra % 3 == 0 ? extra : 0));
		hogl::ringbuf *r = SUT(new hogl::ringbuf(nm.c_str(), ro)); SUT((r->hold(), 0)); SUT(eng->add_ring(r)); rings->push_back(r); add_ring_info(nm, 0, r, ro);
	}
}

void post_xd(const Op &x)
{
	static const char types[] = { 'H', 'x', 'd', 'u', 'f' }; static const int bw[] = { 1, 2, 4, 8 };
	char ty = types[x.b % 5]; int w = bw[(x.b >> 4) % 4]; if (ty == 'f' && w < 4) w = 4; int lw = ty == 'H' ? 1 + (x.b >> 6) % 30 : (x.b >> 6) % 30; unsigned n = (x.b >> 12) % 5 == 0 ? (x.d % 400) : (x.d % 12) * w;
	Str data; for (unsigned i = 0; i < n; i++) data += (char)(mix(x.d, i / (ty == 'f' ? 400 : 1)) & 0x3f);
	hogl::arg_xdump xd(data.data(), n, ty, w, x.b % 6, lw, ','); hogl::ringbuf *r = (*rings)[x.a]; hogl::area *a = area; unsigned s = x.id & 3; Str lead(x.d % 150, 'q');
	const char *ls = lead.c_str();
	if (x.c == 0) SUT((hogl::post(r, a, s, xd), 0)); else if (x.c == 1) SUT((hogl::post(r, a, s, ls, xd, 7), 0)); else SUT((hogl::post(r, a, s, 5u, ls, xd), 0));
}

std::vector<int> start_posters(const Plan &p)
{
	std::vector<int> fs; int nthr = p.k("nthr", 1); bool p_rawfmt = p.k("rawfmt");
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &x : p.ops) if (x.thr == t) ops.push_back(x);
		char nm[8]; snprintf(nm, sizeof nm, "thr%d", t);
		fs.push_back(spawn(nm, [=] { bool rawfmt = p_rawfmt; for (auto &x : ops) { op_begin(x.id); st->prog[t]++; switch (x.kind) { case OP_POST: for (int k = 0; k < x.b; k++) do_post(t, x.a, area, 0, (x.d + k) & 3, x.c); break; case OP_XD: post_xd(x); break; case OP_ODD: post_odd((*rings)[x.a], area, x.c, x.b, rawfmt); probe("odd record"); break; case OP_SLEEP: sleep_ns(x.a * 1000); break; case OP_YIELD: yield_point(); break; } } }));
	}
	return fs;
}
void drain() { wait_until([&] { for (auto r : *rings) if (!r->empty()) return false; return true; }, 300000000000LL, 1000000); u64 l = eng->get_stats().loops; wait_until([&] { return eng->get_stats().loops >= l + 3; }, 300000000000LL, 1000000); }
void stop_engine()
{
	for (auto r : *rings) SUT((r->release(), 0));
	int d = spawn("destroyer", [] { op_begin(92000); SUT((delete eng, 0)); W->engs[0].e = 0; SUT((delete outp, 0)); }); wait(d, "destroying the engine");
	fm->raw ? 0 : 0;
}
unsigned needed() { size_t m = 0; for (auto &r : st->recs) { size_t n = 32 + 128; for (auto &a : r.args) if (a.type == hogl::arg::CSTR || a.type == hogl::arg::RAW || a.type == hogl::arg::XDUMP) n += a.data.size() + 1; m = std::max(m, n); } return m + 32; }

// the reader: decodes until the end, keeping what it got
void read_all(const Plan &p, unsigned flags, const Str &path, unsigned maxrec)
{
	hogl::file_rdbuf *in = SUT(new hogl::file_rdbuf(path, flags, p.k("rdcap", 4096)));
	if (!in->valid()) violate("setup", "cannot open the log");
	hogl::raw_parser *ps = SUT(new hogl::raw_parser(*in, hogl::raw_parser::V1_1, maxrec));
	st->constructed = true;
	hogl::format_basic *fb = SUT(new hogl::format_basic(field_sets[p.k("fields")])); hogl::format_raw *fr = SUT(new hogl::format_raw());
	while (1) {
		const hogl::format::data *d = SUT(ps->next());
		if (!d) break;
		Rec r = capture(*d, false); 
		Scratch b1, b2; SUT((fb->process(b1, *d), 0)); SUT((fr->process(b2, *d), 0)); b1.flush();
		r.text = Str();
		if (r.textual) { static const char *f = "timespec,ring,seqnum,area,section"; hogl::format_basic *x = SUT(new hogl::format_basic(f)); Scratch b; SUT((x->process(b, *d), 0)); b.flush(); r.text = b.s; SUT((delete x, 0)); }
		note(r.seq, r.ts); st->got.push_back(r);
		if (st->got.size() > 200000) violate("raw:endless", "decoding does not end");
	}
	st->why = SUT(ps->failed()) ? "failed: " + SUT(ps->error()) : Str("end of input");
	st->ended = true;
	SUT((delete ps, 0)); SUT((delete in, 0)); SUT((delete fb, 0)); SUT((delete fr, 0));
}

// What a record prints after its header, by the rules for its arguments and printf's; false where they leave it open.
bool one_arg(const ArgVal &a, Str &out)
{
	char b[400]; double d;
	switch (a.type) {
	case hogl::arg::CSTR: if (a.data.empty()) return false; out += a.data.c_str(); return true;
	case hogl::arg::POINTER: if (!a.v) return false; snprintf(b, sizeof b, "%p", (void *) a.v); break;
	case hogl::arg::INT32: snprintf(b, sizeof b, "%d", (int) a.v); break;
	case hogl::arg::UINT32: snprintf(b, sizeof b, "%u", (unsigned) a.v); break;
	case hogl::arg::INT64: snprintf(b, sizeof b, "%lld", (long long) a.v); break;
	case hogl::arg::UINT64: snprintf(b, sizeof b, "%llu", ULL(a.v)); break;
	case hogl::arg::DOUBLE: memcpy(&d, &a.v, 8); if (d != d || d > 1e15 || d < -1e15) return false; snprintf(b, sizeof b, "%f", d); break;
	case hogl::arg::XDUMP: {
		hogl::arg_xdump::format f(0, 1, 0, 0, 0); if (a.data.size() < sizeof f) return false; memcpy((void *) &f, a.data.data(), sizeof f); const unsigned char *p = (const unsigned char *) a.data.data() + sizeof f; unsigned bw = f.byte_width;
		if ((bw != 1 && bw != 2 && bw != 4 && bw != 8) || !strchr("Hxduf", f.type) || !f.type || (f.type == 'H' && bw != 1) || (f.type == 'f' && bw < 4)) return false;
		size_t n = (a.data.size() - sizeof f) / bw, lw = f.line_width ? f.line_width : n;
		for (size_t i = 0; i < n; i++) {
			if (f.type == 'H') {
				if (i % lw == 0) { snprintf(b, sizeof b, "\n\t%03d: ", (int) i); out += b; for (size_t k = i; k < i + lw; k++) if (k < n) { snprintf(b, sizeof b, "%02x ", p[k]); out += b; } else out += "   "; out += "  "; for (size_t k = i; k < i + lw && k < n; k++) out += p[k] >= 32 && p[k] < 127 ? (char) p[k] : '.'; }
				continue;
			}
			if (f.line_width && i % lw == 0) out += "\n\t"; else if (i) out += (char) f.delim;
			u64 v = 0; memcpy(&v, p + i * bw, bw); i64 sv = bw == 8 ? (i64) v : (i64) (v << (64 - 8 * bw)) >> (64 - 8 * bw);
			if (f.type == 'x') snprintf(b, sizeof b, "%llx", ULL(v)); else if (f.type == 'u') snprintf(b, sizeof b, "%llu", ULL(v)); else if (f.type == 'd') snprintf(b, sizeof b, "%lld", (long long) sv);
			else if (f.type == 'f') { float fl; if (bw == 4) { memcpy(&fl, &v, 4); d = fl; } else memcpy(&d, &v, 8); if (d != d || d > 1e15 || d < -1e15) return false; int pr = f.precision; snprintf(b, sizeof b, "%.*f", pr >= 1 && pr <= 5 ? pr : 6, d); }
			else return false;
			out += b;
		}
		return true; }
	default: return false;
	}
	out += b; return true;
}
bool ref_body(const Rec &r, Str &out)
{
	const std::vector<ArgVal> &a = r.args; out = ""; typedef hogl::arg A;
	if (a.empty() || a[0].type == A::RAW) return false;
	if (a[0].type != A::CSTR || a.size() == 1 || a[1].type == A::XDUMP || a[1].type == A::RAW) {
		for (size_t i = 0; i < a.size(); i++) { if (i) out += ' '; if (!one_arg(a[i], out)) return false; }
		out += '\n'; return true;
	}
	if (a[0].data.empty()) return false;
	size_t k = 1;
	for (const char *f = a[0].data.c_str(); *f; f++) {
		if (*f != '%') { out += *f; continue; }
		if (f[1] == '%') { out += '%'; f++; continue; }
		Str c = "%"; f++; while (*f && strchr("+-0# ", *f)) c += *f++; size_t fl = c.size(); int w = 0; while (*f >= '0' && *f <= '9') { w = w * 10 + *f - '0'; if (w > 300) return false; c += *f++; } bool prec = *f == '.'; if (prec) { c += *f++; w = 0; while (*f >= '0' && *f <= '9') { w = w * 10 + *f - '0'; if (w > 300) return false; c += *f++; } }
		int ll = 0; while (*f == 'l') { ll++; f++; }
		if (!*f || k >= a.size() || ll > 2) return false;
		const ArgVal &v = a[k++]; char b[1400]; b[0] = 0; char t = *f; double d; (void) fl;
		if ((t == 'd' || t == 'i') && !prec && v.type == A::INT32 && !ll) snprintf(b, sizeof b, (c + t).c_str(), (int) v.v);
		else if (t == 'u' && !prec && fl == 1 && v.type == A::UINT32 && !ll) snprintf(b, sizeof b, (c + t).c_str(), (unsigned) v.v);
		else if ((t == 'd' || t == 'i') && !prec && v.type == A::INT64 && ll) snprintf(b, sizeof b, (c + "ll" + t).c_str(), (long long) v.v);
		else if ((t == 'u' || t == 'x') && !prec && fl == 1 && v.type == A::UINT64 && ll) snprintf(b, sizeof b, (c + "ll" + t).c_str(), ULL(v.v));
		else if (t == 'f' && v.type == A::DOUBLE && !ll && fl == 1) { memcpy(&d, &v.v, 8); if (d != d || d > 1e15 || d < -1e15) return false; snprintf(b, sizeof b, (c + t).c_str(), d); }
		else if (t == 's' && v.type == A::CSTR && !ll && !v.data.empty() && !strchr(c.c_str(), '0') && !strchr(c.c_str(), '+') && c.find('\x20') == Str::npos) { if (w > 0 && strlen(v.data.c_str()) > 1000) return false; for (char x : v.data) if (x & 0x80) { if (c.size() > 1) return false; } if (c == "%") { out += v.data.c_str(); continue; } if (v.data.size() > 1000) return false; snprintf(b, sizeof b, (c + t).c_str(), v.data.c_str()); }
		else return false;
		out += b;
	}
	out += '\n'; return true;
}

void run_text(const Plan &p)
{
	static const struct { const char *tz; int off; bool zone; } tzs[] = { { "UTC0", 0, false }, { "AAA-5:30", 19800, false }, { "BBB8", -28800, false }, { "EST5EDT,M3.2.0,M11.1.0", 0, true }, { "CET-1CEST,M3.5.0,M10.5.0/3", 0, true }, { "CCC-13:59", 50340, false } };
	int tz = p.k("tz"); setenv("TZ", tzs[tz].tz, 1); tzset();
	const char *fs = field_sets[p.k("fields")];
	start_engine(p, false); enable_faults(true);
	for (int f : start_posters(p)) wait(f, "a posting thread");
	drain(); enable_faults(false); stop_engine();
	Str text; vfs::read_file(RAWLOG, text);
	std::vector<Str> lines; for (size_t i = 0, j; (j = text.find('\036', i)) != Str::npos; i = j + 1) lines.push_back(text.substr(i, j - i));
	if (lines.size() != st->recs.size()) violate("text:count", "%zu records were formatted, the text has %zu", st->recs.size(), lines.size());
	u64 last = 0;
	for (size_t i = 0; i < lines.size(); i++) {
		Rec &r = st->recs[i]; bool back; Str h = ref_header(fs, r, last, tzs[tz].off, tzs[tz].zone, back); bool ok = lines[i].compare(0, h.size(), h) == 0 && lines[i].size() > h.size() && lines[i][lines[i].size() - 1] == '\n';
		if (back) {
			probe("backward timestamp");
			// A step back has no agreed rendering: a negative number is as good as the two's complement one.
			char a[40], b[40]; snprintf(a, sizeof a, "(%llu) ", ULL(r.ts - last)); snprintf(b, sizeof b, "(-%llu) ", ULL(last - r.ts)); size_t k = h.find(a); if (!ok && k != Str::npos) { h.replace(k, strlen(a), b); ok = lines[i].compare(0, h.size(), h) == 0; }
		}
		if (!ok) oracle("C26 C30", "text:header", "fields '%s', line %zu of a record with timestamp %llu ns (previous line's %llu), ring %.40s seq %llu %.40s:%.40s: '%s' should begin '%s'", fs ? fs : "default", i, ULL(r.ts), ULL(last), r.ring.c_str(), ULL(r.seq), r.area.c_str(), r.sect.c_str(), lines[i].substr(0, h.size() + 20).c_str(), h.c_str());
		if (r.area.compare(0, 2, "A7") == 0 && r.args.size() == 1 && r.args[0].type == hogl::arg::UINT64) { char b[40]; snprintf(b, sizeof b, "%llu\n", ULL(r.args[0].v)); if (lines[i] != h + b) oracle("C26 C30", "text:line", "line %zu should be '%s%s' but is '%s'", i, h.c_str(), b, lines[i].c_str()); }
		if (last / 1000000000 != r.ts / 1000000000) probe("second changed"); if (last == r.ts) probe("repeated timestamp");
		if (g_prop == "C30" && lines[i] != h + r.text) { size_t k = 0; Str w = h + r.text; while (k < w.size() && k < lines[i].size() && w[k] == lines[i][k]) k++; oracle("C30", "text:disturbed", "line %zu differs at byte %zu from what the record alone gives: '%s' instead of '%s' (%s)", i, k, lines[i].substr(k, 60).c_str(), w.substr(k, 60).c_str(), show_rec(r).c_str()); }
		if (Str want; g_prop == "C30" && ref_body(r, want)) { probe("line predicted"); want = h + want; if (lines[i] != want) { size_t k = 0; while (k < want.size() && k < lines[i].size() && want[k] == lines[i][k]) k++; oracle("C30", "text:wrong", "line %zu differs at byte %zu from what its arguments call for: '%s' instead of '%s' (%s)", i, k, lines[i].substr(k, 60).c_str(), want.substr(k, 60).c_str(), show_rec(r).c_str()); } }
		last = r.ts;
	}
	if (lines.size()) probe("lines compared");
}

// Applies the damage; returns the position of the first byte that is not as written (the size of the log if none).
size_t damage(const Plan &p, Str &d, bool &only_cut)
{
	size_t first = d.size(); only_cut = true;
	for (auto &x : p.ops) {
		if (x.kind != OP_DAMAGE || d.empty()) continue;
		size_t pos = x.b % d.size(), len = std::min<size_t>(x.c, d.size() - pos); u64 v = x.d; int k = x.a; size_t at = pos;
		if (k == D_FIELD) {         // a byte in the fixed or length part of some record
			size_t j = v % st->bounds.size(), o = j ? st->bounds[j - 1] : 0; static const int offs[] = { 0, 7, 8, 15, 16, 17 }; pos = o + ((v >> 8) % 3 ? offs[(v >> 10) % 6] : (v >> 12) % (st->bounds[j] - o));
			if (pos >= d.size()) continue; static const int vals[] = { 0xff, 0x80, 0x7f, 1, 0 }; at = pos; char nv = (v >> 20) % 2 ? vals[(v >> 22) % 5] : (char)(d[pos] ^ (1 << ((v >> 22) % 8))); if (d[pos] == nv) continue; d[pos] = nv; only_cut = false; probe("field byte changed");
		} else if (k == D_CUT) { d.resize(pos); probe("log cut"); }
		else if (k == D_FLIP) { d[pos] ^= 1 << (v % 8); only_cut = false; probe("bit flipped"); }
		else if (k == D_LOSE) { d.erase(pos, len); only_cut = false; probe("bytes lost"); }
		else if (k == D_DUP) { d.insert(pos + len, d.substr(pos, len)); at = pos + len; only_cut = false; probe("bytes duplicated"); }
		else if (k == D_RAND) { for (size_t i = 0; i < len; i++) d[pos + i] = (char) mix(v, i); only_cut = false; probe("bytes overwritten"); }
		else { for (size_t i = 0; i < len; i++) d[pos + i] = 0; only_cut = false; probe("bytes zeroed"); }
		fault(F_DAMAGE); first = std::min(first, at);
	}
	return first;
}

void run_damage(const Plan &p)
{
	start_engine(p, true); enable_faults(true);
	for (int f : start_posters(p)) wait(f, "a posting thread");
	drain(); enable_faults(false); stop_engine();
	Str log, orig; vfs::read_file(RAWLOG, log); orig = log;
	if (log.size() != st->base) violate("raw:size", "the raw log has %zu bytes, %zu were written", log.size(), st->base);
	bool only_cut; size_t dam = damage(p, log, only_cut);
	size_t intact = 0; while (intact < st->bounds.size() && st->bounds[intact] <= dam) intact++;
	bool untouched = dam >= orig.size() && log.size() == orig.size();
	vfs::write_file("/sim/alt/in.log", log);
	unsigned maxrec = needed() + p.k("slack");
	enable_faults(true);
	if (p.k("cook")) {
		int f = spawn("cook", [=, &p] {
			op_begin(93000); char M[16], R[16]; snprintf(M, sizeof M, "%u", maxrec); snprintf(R, sizeof R, "%d", (int)(dam % 5)); optind = 0;
			const char *av[] = { "hogl-cook", "-M", M, "-R", R, "-f", "timespec,ring,seqnum,area,section", "/sim/alt/in.log", 0 };
			SUT(hogl_main_cook(8, (char **) av)); st->ended = true; fflush(stdout);
		});
		if (!wait_until([&] { return done(f) || sut_exit_code() >= 0; }, 600000000000LL, 1000000)) violate("hang:cook", "hogl-cook does not finish: %s", where(f).c_str());
		enable_faults(false);
		Str out; vfs::read_file("/sim/dev/stdout", out);
		bool rerr = fault_count(F_RERR); Str want; bool textual = true; for (size_t i = 0; i < intact && textual; i++) { textual = st->recs[i].textual; if (textual) want += st->recs[i].text; }
		// when fewer records than asked for could be read, the tool starts over at later offsets, which prints lines again
		if (!rerr && (out.size() < want.size() || out.compare(0, want.size(), want))) { size_t k = 0; while (k < out.size() && k < want.size() && out[k] == want[k]) k++; oracle("C23 C30", "raw:cook", "%zu records lie before the damage, hogl-cook's output differs at byte %zu: '%s' instead of '%s'", intact, k, out.substr(k, 60).c_str(), want.substr(k, 60).c_str()); }
		if (untouched && !rerr && textual && intact == st->recs.size() && out != want) oracle("C23 C30", "raw:cook-extra", "hogl-cook prints %zu bytes for an undamaged log, expected %zu", out.size(), want.size());
		probe("read by hogl-cook");
		return;
	}
	int f = spawn("reader", [=, &p] { op_begin(93000); read_all(p, 0, "/sim/alt/in.log", maxrec); });
	wait(f, "the reader"); enable_faults(false);
	bool rerr = fault_count(F_RERR); size_t n = rerr ? std::min(intact, st->got.size()) : intact;
	if (st->got.size() < n) oracle("C23 C30", "raw:lost", "%zu of %zu records lie completely before the first damaged byte (%zu of %zu), only %zu were decoded (%s, record limit %u)", intact, st->recs.size(), dam, orig.size(), st->got.size(), st->why.c_str(), maxrec);
	for (size_t i = 0; i < n && i < st->got.size(); i++) {
		if (!same(st->got[i], st->recs[i])) oracle("C23 C30", "raw:content", "record %zu decoded as %s, written as %s", i, show_rec(st->got[i]).c_str(), show_rec(st->recs[i]).c_str());
		if (st->recs[i].textual && st->got[i].text != st->recs[i].text) oracle("C23 C30", "raw:text", "decoded record %zu prints as '%s', directly as '%s'", i, st->got[i].text.c_str(), st->recs[i].text.c_str());
	}
	if (!rerr && dam < orig.size() && only_cut && st->got.size() > intact) oracle("C23 C30", "raw:invented", "%zu records decoded from a log cut after %zu", st->got.size(), intact);
	if (untouched && !rerr && st->got.size() != st->recs.size()) oracle("C23 C30", "raw:extra", "%zu records decoded from an undamaged log of %zu", st->got.size(), st->recs.size());
	if (untouched && !rerr && st->why != "end of input") oracle("C23 C30", "raw:complaint", "reading an undamaged log ends with '%s'", st->why.c_str());
	if (dam < orig.size() && st->got.size() > intact) probe("decoded past the damage");
	if (intact) probe("intact records before the damage");
}

void run_tail(const Plan &p)
{
	bool append = p.k("append"), cook = p.k("cook"); Str path; int reader = -1; size_t skip = 0;
	auto begin_reader = [&](const Str &file) {
		Str f2 = file; unsigned maxrec = 1 << 17;
		if (cook) reader = spawn("cook", [=] { op_begin(93000); optind = 0; char cap[16]; snprintf(cap, sizeof cap, "%u", maxrec); const char *av[] = { "hogl-cook", "-t", "-M", cap, "-f", "timespec,ring,seqnum,area,section", f2.c_str(), 0 }; st->constructed = true; SUT(hogl_main_cook(7, (char **) av)); st->ended = true; });
		else reader = spawn("reader", [=, &p] { op_begin(93000); read_all(p, hogl::file_rdbuf::TAILF, f2, maxrec); });
		if (cook) { if (!wait_until([&] { return where(reader).find("file change") != Str::npos || done(reader); }, 60000000000LL, 100000)) violate("hang:cook", "hogl-cook does not get to wait for the file: %s", where(reader).c_str()); }
		else if (!wait_until([&] { return st->constructed; }, 60000000000LL, 100000)) violate("hang:reader", "the reader does not start: %s", where(reader).c_str());
	};
	start_engine(p, true);
	Str src = log_path; u64 head;
	if (append) {
		for (int f : start_posters(p)) wait(f, "a posting thread");
		drain(); stop_engine();
		Str log; vfs::read_file(src, log); path = "/sim/alt/tail.log";
		if (p.k("phase1") && st->bounds.size()) { skip = 1 + p.seed % st->bounds.size(); vfs::write_file(path, log.substr(0, st->bounds[skip - 1])); } else vfs::write_file(path, "");
		enable_faults(true);
		begin_reader(path);
		size_t o = skip ? st->bounds[skip - 1] : 0; int piece = p.k("piece", 1); u64 gap = p.k("gap", 1); Str rest = log.substr(o);
		int ap = spawn("appender", [=] { op_begin(94000); size_t i = 0; u64 n = 0; while (i < rest.size()) { size_t k = std::min<size_t>(rest.size() - i, 1 + mix(piece, n) % piece); vfs::append_file(path, rest.substr(i, k)); i += k; n++; st->prog[7]++; if (mix(n, 3) % 3 == 0) sleep_ns((1 + mix(n, gap) % gap) * 1000); else yield_point(); } });
		wait(ap, "the appender");
	} else {
		path = src; sleep_ns(1000000);
		drain(); wait_until([&] { std::string d; vfs::read_file(path, d); return d.size() == st->base && (eng->get_stats().loops > 0); }, 10000000000LL, 1000000);
		Str d0; vfs::read_file(path, d0);
		while (skip < st->bounds.size() && st->bounds[skip] <= d0.size()) skip++;
		if ((skip ? st->bounds[skip - 1] : 0) != d0.size()) violate("harness:boundary", "the log does not end at a record boundary");
		enable_faults(true); begin_reader(path);
		for (int f : start_posters(p)) wait(f, "a posting thread");
		drain(); stop_engine();
	}
	(void) head;
	size_t want = st->recs.size() - skip;
	if (cook) {
		Str out, exp; bool textual = true; for (size_t i = skip; i < st->recs.size(); i++) { textual = textual && st->recs[i].textual; if (textual) exp += st->recs[i].text; }
		bool ok = wait_until([&] { vfs::read_file("/sim/dev/stdout", out); return out.size() >= exp.size(); }, 60000000000LL, 1000000);
		if (done(reader) || sut_exit_code() >= 0) { Str err; vfs::read_file("/sim/dev/stderr", err); oracle("C27", "tail:ended", "hogl-cook stopped following the log: %s", err.c_str()); }
		if (!ok) oracle("C27", "tail:stuck", "all %zu bytes are in the log, but hogl-cook printed only %zu of %zu bytes of text (%s)", st->base, out.size(), exp.size(), where(reader).c_str());
		if (out.compare(0, exp.size(), exp) || (textual && out.size() != exp.size())) { size_t k = 0; while (k < out.size() && k < exp.size() && out[k] == exp[k]) k++; oracle("C27", "tail:content", "followed text differs at byte %zu: '%s' instead of '%s'", k, out.substr(k, 60).c_str(), exp.substr(k, 60).c_str()); }
		probe("followed by hogl-cook"); if (want) probe("records followed"); return;
	}
	wait_until([&] { return st->got.size() >= want || st->ended; }, 60000000000LL, 1000000);
	if (st->ended) oracle("C27", "tail:ended", "the reader stopped after %zu of %zu records: %s", st->got.size(), want, st->why.c_str());
	if (st->got.size() < want) oracle("C27", "tail:stuck", "all %zu records are in the log, the reader got only %zu within a minute: %s", want, st->got.size(), where(reader).c_str());
	if (st->got.size() > want) oracle("C27", "tail:invented", "%zu records decoded, %zu written", st->got.size(), want);
	for (size_t i = 0; i < want && i < st->got.size(); i++) if (!same(st->got[i], st->recs[skip + i])) { oracle("C27", "tail:content", "record %zu followed as %s, written as %s", i, show_rec(st->got[i]).c_str(), show_rec(st->recs[skip + i]).c_str()); break; }
	if (want) probe("records followed"); if (skip) probe("started behind existing records");
	enable_faults(false);
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; W->engs.resize(1); st = new S; st->prog.assign(10, 0); st->base = 0; st->constructed = st->ended = false; st->tsn = 0; st->tsseed = p.k("tsseed"); st->tscur = 1700000000000000000LL;
	vfs::fault_ok = [=](int kind, const Str &path) { if (kind == F_OPEN || kind == F_WERR) return false; if (path.find("/dev/") != Str::npos) return false; return true; };
	if (p.prop == "C26" || (p.prop == "C30" && !p.k("rawfmt"))) run_text(p); else if (p.prop == "C30") run_damage(p); else if (p.prop == "C23") run_damage(p); else run_tail(p);
}
const Scenario sc = { "raw", "C23 C26 C27 C30", generate, run, 0 };
Registrar reg_(&sc);
}
