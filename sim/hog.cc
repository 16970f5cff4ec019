#include "hog.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <cmath>

namespace sim {

std::string g_prop;
World *W;
const char *g_sections[] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7", 0 };

bool serves(const char *props)
{
	std::string t = std::string(" ") + props + " ";
	return t.find(" " + g_prop + " ") != t.npos;
}
void oracle(const char *props, const char *cls, const char *fmt, ...)
{
	char b[2500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (serves(props)) violate(cls, "%s", b);
	logf("(other property %s) %s: %s", props, cls, b);
}

std::string show(const std::vector<ArgVal> &a)
{
	std::string s = "["; char b[64];
	for (size_t i = 0; i < a.size(); i++) {
		if (i) s += ", ";
		snprintf(b, sizeof b, "t%u:", a[i].type); s += b;
		if (a[i].type == hogl::arg::CSTR || a[i].type == hogl::arg::RAW || a[i].type == hogl::arg::XDUMP) { snprintf(b, sizeof b, "(%zu)", a[i].data.size()); s += b; for (size_t k = 0; k < a[i].data.size() && k < 48; k++) { unsigned char c = a[i].data[k]; if (c >= 32 && c < 127) s += c; else { snprintf(b, sizeof b, "\\x%02x", c); s += b; } } }
		else { snprintf(b, sizeof b, "%llu", (unsigned long long) a[i].v); s += b; }
	}
	return s + "]";
}

// ---- observation -------------------------------------------------------------------------------------
std::vector<ArgVal> record_args(const hogl::record *r)
{
	std::vector<ArgVal> v;
	for (unsigned i = 0; i < hogl::record::NARGS; i++) {
		unsigned t = r->get_arg_type(i);
		if (t == hogl::arg::NONE) break;
		ArgVal a; a.type = t; a.v = 0;
		if (t == hogl::arg::CSTR || t == hogl::arg::RAW || t == hogl::arg::XDUMP) {
			unsigned len = 0; const uint8_t *p = r->get_arg_data(i, len);
			if (len > 100000) { a.data = "<impossible length>"; }
			else { if (!addressable(p, len)) violate("memory:record-data", "argument %u of a record points outside the heap block of its ring", i); a.data.assign((const char *) p, len); if (t == hogl::arg::CSTR && len && p[len] != 0) a.data += "<not terminated>"; }
		} else if (hogl::arg::is_32bit(t)) a.v = r->get_arg_val32(i);
		else if (t == hogl::arg::GSTR) { const char *s = (const char *) r->get_arg_val64(i); a.v = 0; a.data = s ? s : "null"; }
		else a.v = r->get_arg_val64(i);
		v.push_back(a);
	}
	return v;
}

class ScratchBuf : public hogl::ostrbuf { public: std::string s; ScratchBuf() : hogl::ostrbuf(64) {} virtual void do_flush(const uint8_t *d, size_t n) { s.append((const char *) _data, _size); reset(); if (n) s.append((const char *) d, n); } };

std::string render(const Obs &, const hogl::format::data &d)
{
	hogl::format_basic fb("timespec|timedelta|ring|seqnum|area|section");
	ScratchBuf b; fb.process(b, d); b.flush(); return b.s;
}

Obs snapshot(int eng, const hogl::format::data &d)
{
	Obs o; o.eng = eng; o.t = now(); o.ev = event(); o.sink_t = 0; o.sink_ev = 0; o.sink_step = 0; o.sink_busy = 0; o.id = 0; o.n = 0;
	const hogl::record *r = d.record;
	o.ring = d.ring_name ? d.ring_name : "(null)";
	o.sect = r->section; o.seq = r->seqnum; o.ts = r->timestamp.to_nsec();
	const hogl::area *a = r->area;
	if (!a) { o.area = "(null)"; }
	else { if (!addressable(a, sizeof *a)) violate("memory:area", "a record handed to the output refers to an area that is not valid memory"); o.area = a->name(); }
	o.kind = OB_REC;
	if (o.area == "HOGL") {
		o.kind = OB_INTERNAL;
		if (W->engs[eng].e && a != W->engs[eng].e->internal_area()) oracle("C22 C15", "internal:foreign", "output of engine %d contains a message of another engine: ring %s: %s", eng, o.ring.c_str(), render(o, d).c_str());
		o.tag = a->section_name(o.sect);
		o.text = render(o, d);
		if (o.tag == "DROPMARK") { o.kind = OB_DROP; size_t p = o.text.rfind("dropped "); o.n = p == o.text.npos ? 0 : strtoull(o.text.c_str() + p + 8, 0, 10); }
		else if (o.tag == "TSOFULLMARK") o.kind = OB_TSOFULL;
		else if (o.text.find("switching timesource") != o.text.npos) o.kind = OB_TSWITCH;
	} else {
		o.args = record_args(r);
		for (auto &x : o.args) if (x.type == hogl::arg::UINT64) { o.id = x.v; break; }
	}
	return o;
}

ObsFormat::ObsFormat(int e, int k) : eng(e), kind(k), basic(0) { if (k == 1) basic = new hogl::format_basic("timespec|timedelta|ring|seqnum|area|section"); }
ObsFormat::~ObsFormat() { delete basic; }
void ObsFormat::header(hogl::ostrbuf &, const char *, bool) {}
void ObsFormat::footer(hogl::ostrbuf &, const char *) {}

static bool same_obs(const Obs &a, const Obs &b) { return a.ring == b.ring && a.area == b.area && a.sect == b.sect && a.seq == b.seq && a.ts == b.ts && a.args == b.args; }

void ObsFormat::process(hogl::ostrbuf &s, const data &d)
{
	size_t idx; std::string line;
	{
		Quiet q;
		Obs o = snapshot(eng, d);
		if (W->engs[eng].eng_fiber < 0) W->engs[eng].eng_fiber = self();
		W->obs.push_back(o); idx = W->obs.size() - 1; W->engs[eng].obs.push_back(idx);
		note(o.seq, o.id * 31 + o.n);
		logf("OUTPUT eng%d ring %s %s:%u seq %llu ts %llu id %llx %s", eng, o.ring.c_str(), o.area.c_str(), o.sect, (unsigned long long) o.seq, (unsigned long long) o.ts, (unsigned long long) o.id, o.kind == OB_REC ? "" : o.text.c_str());
		char b[64]; snprintf(b, sizeof b, "#%zu\n\x1e", idx); line = b;
	}
	// loud: other threads may run while the engine works on this record
	{
		volatile const uint64_t *p = (volatile const uint64_t *) d.record; uint64_t x = 0;
		for (unsigned i = 0; i < 4; i++) x += p[i];
		(void) x;
	}
	if (kind == 1) { basic->process(s, d); s.push_back((const uint8_t *) "\x1e", 1); }    // end of record mark, counted by the sink
	else s.push_back((const uint8_t *) line.data(), line.size());
	{
		Quiet q;
		Obs o2 = snapshot(eng, d);
		if (!same_obs(W->obs[idx], o2))
			oracle("C03 C04 C07 C10", "record:changed-while-output", "record seq %llu of ring %s changed while the engine was writing it out: args %s became %s, seq %llu", (unsigned long long) W->obs[idx].seq, W->obs[idx].ring.c_str(), show(W->obs[idx].args).c_str(), show(o2.args).c_str(), (unsigned long long) o2.seq);
	}
}

void sink_bytes(int eng, const uint8_t *d, size_t n)
{
	Eng &E = W->engs[eng];
	E.sink.append((const char *) d, n);
	u64 ev = event();
	for (size_t i = 0; i < n; i++) if (d[i] == '\x1e') { if (E.lines < E.obs.size()) { Obs &o = W->obs[E.obs[E.lines]]; o.sink_t = now(); o.sink_ev = ev; o.sink_step = steps(); o.sink_busy = E.busy; } E.lines++; }
}
void MemBuf::do_flush(const uint8_t *d, size_t n)
{
	Quiet q;
	Eng &E = W->engs[eng];
	if (!_size && !n) return;
	i64 t = now();
	i64 s = fault(F_SLOWIO, 1000, slow_ns > 0 ? slow_ns : 20000000);
	if (s > 0) sleep_ns(s);
	while (E.hang) sleep_ns(1000000);
	E.busy += now() - t;
	if (fault(F_WERR) >= 0 || E.failing) { E.failing = true; failure("simulated sink failure"); reset(); return; }
	sink_bytes(eng, _data, _size); reset();
	if (n) sink_bytes(eng, d, n);
}
MemOutput::MemOutput(hogl::format &f, int e, unsigned cap) : hogl::output(f) { MemBuf *b = new MemBuf(e, cap); { Quiet q; W->engs[e].mem = b; } init(b); header("mem"); }
MemOutput::~MemOutput() { footer(); }

// ---- timesources ----------------------------------------------------------------------------------------
static hogl::timestamp cb_counter(const hogl::timesource *) { Quiet q; return hogl::timestamp(++W->ts_counter); }
static hogl::timestamp cb_counter2(const hogl::timesource *) { Quiet q; return hogl::timestamp(1000000000000ULL + ++W->ts_counter); }
static hogl::timestamp cb_counter3(const hogl::timesource *) { Quiet q; return hogl::timestamp(2000000000000ULL + ++W->ts_counter); }
static hogl::timestamp cb_clock(const hogl::timesource *) { Quiet q; return hogl::timestamp((uint64_t) now()); }
static hogl::timestamp cb_equal(const hogl::timesource *) { Quiet q; return hogl::timestamp(5000 + (++W->ts_counter >> 5)); }
static hogl::timestamp cb_weird(const hogl::timesource *) { Quiet q; u64 n = ++W->ts_counter; return hogl::timestamp(5000000 + (i64)(mix(n, 77) % 2001) - 1000 + (n >> 4) * 10); }
#define TSRC(fn, nm, cb) hogl::timesource *fn() { static hogl::timesource *t = new hogl::timesource(nm, cb); return t; }
TSRC(ts_counter_src, "counter", cb_counter) TSRC(ts_counter2_src, "counter2", cb_counter2) TSRC(ts_counter3_src, "counter3", cb_counter3) TSRC(ts_clock_src, "simclock", cb_clock) TSRC(ts_equal_src, "equal", cb_equal) TSRC(ts_weird_src, "weird", cb_weird)

// ---- posting ----------------------------------------------------------------------------------------------
static std::string text_for(u64 id, unsigned len) { std::string s; s.reserve(len); u64 x = mix(id, 4242); while (s.size() < len) { x = mix(x, 1); s += (char)('a' + x % 26); } return s; }
static std::string blob_for(u64 id, unsigned len) { std::string s; u64 x = mix(id, 555); while (s.size() < len) { x = mix(x, 3); s += (char)(x & 0xff); } return s; }
struct Gen { unsigned l1, l2, l3; int i; unsigned u; double d; long long ll; };
static Gen gen(u64 id)
{
	Gen g; u64 x = mix(id, 99);
	static const unsigned lens[] = { 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 24, 40, 56, 64, 72, 88, 96, 104, 112, 120, 127, 128, 129, 200, 400, 1000 };
	const unsigned nl = sizeof lens / sizeof lens[0];
	g.l1 = lens[x % nl]; g.l2 = lens[(x >> 8) % nl]; g.l3 = (x >> 16) % 140;
	g.i = (int)(x >> 20) - 0x40000000; g.u = (unsigned)(x >> 13); g.d = (double)(i64)(x >> 11) / 1024.0 - 7e9; g.ll = (long long) x;
	return g;
}
static ArgVal av(unsigned t, u64 v) { ArgVal a; a.type = t; a.v = v; return a; }
static ArgVal ad(unsigned t, const std::string &s) { ArgVal a; a.type = t; a.v = 0; a.data = s; return a; }
static u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; }

struct XD { char type; int width, prec, lw; std::string hdr; };
static XD xdump_of(u64 id, unsigned) { XD x; u64 r = mix(id, 1234); x.type = "Hxduf"[r % 5]; x.width = 1 << (r >> 8) % 4; if (x.type == 'f' && x.width < 4) x.width = 4; x.prec = (r >> 16) % 7; x.lw = (r >> 24) % 25; x.hdr = std::string(1, x.type); x.hdr += (char)(x.width | x.prec << 4); x.hdr += (char) x.lw; x.hdr += ','; return x; }
// What the record must contain: the documented packing rule (values first, then data in argument order in what room
// is left), i.e. text that does not fit is cut and ends in ">>>", blobs are cut.
void build_args(int variant, u64 id, unsigned room, std::vector<ArgVal> &out)
{
	using namespace hogl;
	Gen g = gen(id); out.clear();
	const char *gf = "id %llu";
	switch (variant) {
	case 0: out.push_back(av(arg::UINT64, id)); break;
	case 1: out.push_back(ad(arg::GSTR, gf)); out.push_back(av(arg::UINT64, id)); out.push_back(av(arg::INT32, (u32) g.i)); out.push_back(av(arg::DOUBLE, dbits(g.d))); out.push_back(av(arg::UINT32, g.u)); break;
	case 2: out.push_back(ad(arg::CSTR, text_for(id, g.l1))); out.push_back(av(arg::UINT64, id)); break;
	case 3: out.push_back(av(arg::UINT64, id)); out.push_back(ad(arg::CSTR, text_for(id, g.l1))); out.push_back(av(arg::INT64, g.ll)); out.push_back(ad(arg::CSTR, text_for(id + 1, g.l2))); break;
	case 4: out.push_back(av(arg::UINT64, id)); out.push_back(ad(arg::RAW, blob_for(id, g.l3))); out.push_back(ad(arg::CSTR, text_for(id + 1, g.l2))); break;
	case 5: { out.push_back(av(arg::UINT64, id)); std::string x(4, 0); x[0] = 'H'; x[1] = 0x21; x[2] = 20; x[3] = ' '; out.push_back(ad(arg::XDUMP, x + blob_for(id, g.l3))); out.push_back(av(arg::INT64, -g.ll)); break; }
	case 6: out.push_back(ad(arg::GSTR, gf)); out.push_back(av(arg::UINT64, id)); for (int i = 0; i < 14; i++) { if (i % 3 == 0) out.push_back(av(arg::INT32, (u32)(g.i + i))); else if (i % 3 == 1) out.push_back(av(arg::UINT64, id ^ ((u64) i << 32))); else out.push_back(av(arg::DOUBLE, dbits(g.d + i))); } break;
	case 7: out.push_back(ad(arg::GSTR, gf)); out.push_back(av(arg::UINT64, id)); for (int i = 0; i < 12; i++) out.push_back(av(arg::INT32, (u32)(g.i + i))); out.push_back(ad(arg::CSTR, text_for(id, g.l1))); out.push_back(ad(arg::CSTR, text_for(id + 1, g.l2))); break;
	case 8: { out.push_back(ad(arg::CSTR, text_for(id, g.l1))); XD x = xdump_of(id, g.l3); out.push_back(ad(arg::XDUMP, x.hdr + blob_for(id, g.l3))); out.push_back(av(arg::UINT64, id)); break; }
	case 9: out.push_back(ad(arg::GSTR, "%llu %s %d %s")); out.push_back(av(arg::UINT64, id)); out.push_back(ad(arg::GSTR, "const one")); for (int i = 0; i < 8; i++) out.push_back(av(arg::INT32, (u32)(g.i + i))); out.push_back(ad(arg::GSTR, "another constant")); out.push_back(ad(arg::CSTR, text_for(id, g.l1))); break;
	}
	unsigned off = out.size() * 8;
	for (auto &a : out) {
		if (a.type == arg::CSTR) {
			unsigned left = room - off;
			if (a.data.empty() || !left) { a.data.clear(); continue; }
			left--;
			if (a.data.size() > left) { a.data.resize(left); if (left > 3) a.data.replace(left - 3, 3, ">>>"); }
			off += a.data.size() + 1;
		} else if (a.type == arg::RAW) { unsigned left = room - off; if (a.data.size() > left) a.data.resize(left); off += a.data.size(); }
		else if (a.type == arg::XDUMP) { unsigned left = room - off; if (a.data.size() > left) a.data.resize(left); if (a.data.size() < 4) a.data.clear(); else off += a.data.size(); }
	}
}

struct PostTarget { hogl::ringbuf *r; bool tls, unlocked; };
// Every call site expands the whole posting stack, so keep one per variant.
#define PUT(...) do { if (t.tls) hogl::post(a, s, __VA_ARGS__); else if (t.unlocked) hogl::post_unlocked(t.r, a, s, __VA_ARGS__); else hogl::post(t.r, a, s, __VA_ARGS__); } while (0)
static void post0(PostTarget t, const hogl::area *a, unsigned s, u64 id) { PUT((unsigned long) id); }
static void post1(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g) { PUT(hogl::arg_gstr("id %llu"), (unsigned long) id, g.i, g.d, g.u); }
static void post2(PostTarget t, const hogl::area *a, unsigned s, u64 id, const char *c) { PUT(c, (unsigned long) id); }
static void post3(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g, const std::string &c, const char *c2) { PUT((unsigned long) id, c, g.ll, c2); }
static void post4(PostTarget t, const hogl::area *a, unsigned s, u64 id, const void *b, unsigned n, const std::string &c) { PUT((unsigned long) id, hogl::arg_raw(b, n), c); }
static void post5(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g, const void *b, unsigned n) { PUT((unsigned long) id, hogl::arg_xdump(b, n), -g.ll); }
static void post6(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g) {
#define X(i) (id ^ ((u64) i << 32))
	PUT(hogl::arg_gstr("id %llu"), (unsigned long) id, g.i, X(1), g.d + 2, g.i + 3, X(4), g.d + 5, g.i + 6, X(7), g.d + 8, g.i + 9, X(10), g.d + 11, g.i + 12, X(13));
}
static void post7(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g, const char *c, const std::string &c2) {
	PUT(hogl::arg_gstr("id %llu"), (unsigned long) id, g.i, g.i + 1, g.i + 2, g.i + 3, g.i + 4, g.i + 5, g.i + 6, g.i + 7, g.i + 8, g.i + 9, g.i + 10, g.i + 11, c, c2);
}

static void post8(PostTarget t, const hogl::area *a, unsigned s, u64 id, const char *c, const void *b, unsigned n, const XD &x) { PUT(c, hogl::arg_xdump(b, n, x.type, x.width, x.prec, x.lw, ','), (unsigned long) id); }

static void post9(PostTarget t, const hogl::area *a, unsigned s, u64 id, const Gen &g, const char *c) { PUT(hogl::arg_gstr("%llu %s %d %s"), (unsigned long) id, hogl::arg_gstr("const one"), g.i, g.i + 1, g.i + 2, g.i + 3, g.i + 4, g.i + 5, g.i + 6, g.i + 7, hogl::arg_gstr("another constant"), c); }

unsigned ring_slot_room(hogl::ringbuf *r) { return r->record_tailroom(); }

u64 do_post(int thr, int ring, const hogl::area *a, int area_id, int sect, int variant, bool tls, bool unlocked, bool off)
{
	RingInfo &ri = W->rings[ring];
	if ((int) W->nth.size() <= thr) W->nth.resize(thr + 1, 0);
	u64 n = W->nth[thr]++, id = make_id(thr + 1, n);
	Post p; p.id = id; p.thr = thr; p.ring = ring; p.eng = ri.eng; p.area = area_id; p.sect = sect; p.variant = variant; p.nth = n; p.returned = false; p.enabled = !off; p.maybe = false; p.ev1 = 0; p.t1 = 0; p.step1 = 0; p.busy1 = 0;
	build_args(variant, id, ri.tailroom, p.args);
	p.ev0 = event(); p.t0 = now();
	size_t pi = W->posts.size(); W->by_id[id] = pi; W->posts.push_back(p);
	PostTarget t = { ri.r, tls, unlocked }; Gen g = gen(id);
	// Argument buffers live in the simulated heap and are overwritten and freed as soon as the call returns.
	XD xd = xdump_of(id, g.l3); std::string s1 = text_for(id, g.l1), s2 = text_for(id + 1, g.l2), bl = blob_for(id, g.l3);
	char *c1 = 0; std::string *cs = 0;
	sut_enter();
	{
		struct Leave { ~Leave() { sut_leave(); } } l;
		switch (variant) {
		case 0: post0(t, a, sect, id); break;
		case 1: post1(t, a, sect, id, g); break;
		case 2: { { Quiet q; c1 = (char *) malloc(s1.size() + 1); memcpy(c1, s1.c_str(), s1.size() + 1); } post2(t, a, sect, id, c1); break; }
		case 3: { { Quiet q; c1 = (char *) malloc(s2.size() + 1); memcpy(c1, s2.c_str(), s2.size() + 1); cs = new std::string(s1); } post3(t, a, sect, id, g, *cs, c1); break; }
		case 4: { { Quiet q; c1 = (char *) malloc(bl.size() + 1); memcpy(c1, bl.data(), bl.size()); cs = new std::string(s2); } post4(t, a, sect, id, c1, bl.size(), *cs); break; }
		case 5: { { Quiet q; c1 = (char *) malloc(bl.size() + 1); memcpy(c1, bl.data(), bl.size()); } post5(t, a, sect, id, g, c1, bl.size()); break; }
		case 6: post6(t, a, sect, id, g); break;
		case 7: { { Quiet q; c1 = (char *) malloc(s1.size() + 1); memcpy(c1, s1.c_str(), s1.size() + 1); cs = new std::string(s2); } post7(t, a, sect, id, g, c1, *cs); break; }
		case 9: { { Quiet q; c1 = (char *) malloc(s1.size() + 1); memcpy(c1, s1.c_str(), s1.size() + 1); } post9(t, a, sect, id, g, c1); break; }
		case 8: { { Quiet q; c1 = (char *) malloc(s1.size() + 1); memcpy(c1, s1.c_str(), s1.size() + 1); cs = new std::string(bl); } post8(t, a, sect, id, c1, cs->data(), cs->size(), xd); break; }
		}
	}
	if (c1) { memset(c1, '!', variant == 3 ? s2.size() : variant == 4 || variant == 5 ? bl.size() : s1.size()); free(c1); }
	if (cs) { if (cs->size()) memset(&(*cs)[0], '?', cs->size()); delete cs; }
	Post &q = W->posts[pi]; q.returned = true; q.ev1 = event(); q.t1 = now(); q.step1 = steps(); q.busy1 = q.eng < 0 ? 0 : W->engs[q.eng].busy;
	return id;
}

int add_ring_info(const std::string &name, int eng, hogl::ringbuf *r, const hogl::ringbuf::options &o)
{
	RingInfo ri; ri.name = name; ri.eng = eng; ri.r = r; ri.o = o; ri.dropcnt = 0; ri.tailroom = ring_slot_room(r); ri.closed = false; ri.specials = 0; ri.flush_to = 0; ri.weird = false; ri.shared = o.flags & hogl::ringbuf::SHARED; ri.reused = false; ri.base_seq = 0;
	W->rings.push_back(ri); return W->rings.size() - 1;
}

i64 finish_engine(int eng, i64 timeout)
{
	Eng &E = W->engs[eng];
	i64 t = now();
	int f = spawn("destroyer", [eng] { Eng &E = W->engs[eng]; SUT((delete E.e, 0)); E.e = 0; SUT((delete E.out, 0)); E.out = 0; SUT((delete E.fmt, 0)); E.fmt = 0; });
	if (!join(f, timeout)) return -1;
	(void) E;
	return now() - t;
}

// ---- oracles over the finished history ---------------------------------------------------------------------
#define ULL(x) ((unsigned long long) (x))
void evaluate(const Checks &c)
{
	std::map<u64, size_t> seen;           // id -> obs index
	size_t nr = W->rings.size();
	std::map<std::pair<int, std::string>, int> rname;
	std::map<std::pair<int, std::string>, int> rcount;
	for (size_t i = 0; i < nr; i++) { auto key = std::make_pair(c.by_name ? 0 : W->rings[i].eng, W->rings[i].name); rname[key] = i; rcount[key]++; }
	std::vector<std::set<u64> > iseq(nr);                // sequence numbers used by hogl's own messages
	std::vector<std::vector<size_t> > by_ring(nr);       // delivered record obs per ring, output order (by posting ring)
	std::vector<std::vector<size_t> > marks(nr);         // drop markers per ring name

	for (size_t k = 0; k < W->obs.size(); k++) {
		Obs &o = W->obs[k];
		if (o.kind == OB_INTERNAL) { auto it = rname.find(std::make_pair(c.by_name ? 0 : o.eng, o.ring)); if (it != rname.end()) iseq[it->second].insert(o.seq); }
		if (o.kind == OB_DROP) { auto it = rname.find(std::make_pair(c.by_name ? 0 : o.eng, o.ring)); if (it == rname.end()) oracle("C04 C22", "drop:unknown-ring", "drop report for unknown ring %s", o.ring.c_str()); else marks[it->second].push_back(k); continue; }
		if (o.kind != OB_REC) continue;
		auto it = W->by_id.find(o.id);
		if (it == W->by_id.end()) { oracle("C01 C03 C22", "record:invented", "output contains a record that was never posted: ring %s area %s seq %llu args %s", o.ring.c_str(), o.area.c_str(), ULL(o.seq), show(o.args).c_str()); continue; }
		Post &p = W->posts[it->second]; RingInfo &ri = W->rings[p.ring];
		if (p.eng != o.eng && !(c.moving && ri.eng < 0)) oracle("C22 C01", "record:wrong-engine", "record %llx posted to engine %d came out of engine %d", ULL(o.id), p.eng, o.eng);
		if (!p.enabled && !p.maybe) oracle("C01 C08 C11", "record:disabled", "record %llx of a disabled section was output", ULL(o.id));
		if (seen.count(o.id)) oracle("C01 C09 C10 C13 C15", "record:duplicate", "record %llx (ring %s seq %llu) was output twice", ULL(o.id), o.ring.c_str(), ULL(o.seq));
		seen[o.id] = k;
		if (o.ring != ri.name) oracle("C01 C02 C15", "record:wrong-ring", "record %llx posted to ring %s came out as ring %s", ULL(o.id), ri.name.c_str(), o.ring.c_str());
		if (!(o.args == p.args)) oracle("C03", "record:content", "record %llx (ring %s, room %u): posted %s, output has %s", ULL(o.id), ri.name.c_str(), ri.tailroom, show(p.args).c_str(), show(o.args).c_str());
		if (p.area >= 0) { char an[16]; snprintf(an, sizeof an, "A%d", p.area); if (o.area != an || (int) o.sect != p.sect) oracle("C03", "record:area", "record %llx posted as %s:%d came out as %s:%u", ULL(o.id), an, p.sect, o.area.c_str(), o.sect); }
		if (o.ev < p.ev0) oracle("C01", "record:early", "record output before it was posted");
		by_ring[p.ring].push_back(k);
	}

	for (size_t i = 0; i < nr; i++) {
		RingInfo &ri = W->rings[i]; Eng &E = W->engs[ri.eng < 0 ? 0 : ri.eng];
		std::vector<size_t> &v = by_ring[i];
		u64 enabled = 0; std::vector<size_t> posted;
		for (size_t k = 0; k < W->posts.size(); k++) if (W->posts[k].ring == (int) i && W->posts[k].enabled && !(W->posts[k].maybe && !seen.count(W->posts[k].id))) { enabled++; posted.push_back(k); }
		// C01 / C07: accepted = posted - dropped, all delivered
		if (c.complete) {
			if (v.size() + ri.dropcnt < enabled) {
				std::string miss; int n = 0; for (size_t k : posted) if (!seen.count(W->posts[k].id) && n++ < 8) { char b[24]; snprintf(b, sizeof b, " %llx", ULL(W->posts[k].id)); miss += b; }
				oracle("C01 C10 C13 C14 C15 C22 C07 C11", "record:missing", "ring %s: %llu records posted, %llu counted as dropped, only %zu delivered; not delivered:%s", ri.name.c_str(), ULL(enabled), ULL(ri.dropcnt), v.size(), miss.c_str());
			}
			if (v.size() + ri.dropcnt > enabled) oracle("C04 C01", "drop:overcounted", "ring %s: %llu posted, %zu delivered, but %llu counted as dropped", ri.name.c_str(), ULL(enabled), v.size(), ULL(ri.dropcnt));
			if ((ri.o.flags & hogl::ringbuf::BLOCKING) && ri.dropcnt) oracle("C07 C04", "blocking:dropped", "blocking ring %s dropped %llu records", ri.name.c_str(), ULL(ri.dropcnt));
		}
		// C02: order
		u64 maxend = 0; std::map<int, u64> lastn;
		for (size_t k = 0; k < v.size(); k++) {
			Obs &o = W->obs[v[k]]; Post &p = W->posts[W->by_id[o.id]];
			if (k) { Obs &b = W->obs[v[k - 1]]; if (o.seq <= b.seq) oracle("C02 C07 C09 C10 C13 C14 C15", "order:seqnum", "ring %s: sequence number %llu output after %llu", ri.name.c_str(), ULL(o.seq), ULL(b.seq)); }
			auto it = lastn.find(p.thr); if (it != lastn.end() && p.nth <= it->second) oracle("C02 C07 C09 C10 C13 C14 C15", "order:thread", "ring %s: record %llx output after a later record of the same thread", ri.name.c_str(), ULL(o.id));
			lastn[p.thr] = p.nth;
		}
		// a post that finished before another began comes first: scan from the back
		u64 minend = ~0ULL;
		for (size_t k = v.size(); k-- > 0;) { Post &p = W->posts[W->by_id[W->obs[v[k]].id]]; if (p.returned) { if (minend < p.ev0) oracle("C02 C07", "order:realtime", "ring %s: record %llx output before a record whose post had already finished when its own began", ri.name.c_str(), ULL(p.id)); if (p.ev1 < minend) minend = p.ev1; } }
		(void) maxend;
		// C04: drop reports
		if (ri.weird) continue;
		std::vector<size_t> &m = marks[i];
		if (!E.tso) { if (m.size()) oracle("C04", "drop:unexpected", "drop report without timestamp ordering"); continue; }
		if (E.nomark && m.size()) oracle("C04 C11", "drop:unwanted-report", "a drop report came out although its section is masked off");
		size_t mi = 0; u64 slack = 0, marksum = 0; for (size_t x : m) marksum += W->obs[x].n;
		std::set<size_t> used;
		size_t pp = 0;                                    // private ring: position in posted
		u64 prevseq = ri.base_seq;
		for (size_t k = 0; k < v.size(); k++) {
			Obs &o = W->obs[v[k]]; u64 ms = 0, mc = 0; size_t lastm = 0;
			while (mi < m.size() && m[mi] < v[k]) { ms += W->obs[m[mi]].n; mc++; lastm = m[mi]; mi++; }
			if (!ri.shared && !ri.reused) {
				u64 miss = 0;
				while (pp < posted.size() && W->posts[posted[pp]].id != o.id) { miss++; pp++; }
				pp++;
				if (E.nomark) E.unreported += miss;
				else if (ms != miss) oracle("C04 C09 C10", "drop:report", "ring %s: %llu records are missing before record %llx (seq %llu), the drop reports in between say %llu", ri.name.c_str(), ULL(miss), ULL(o.id), ULL(o.seq), ULL(ms));
			} else {
				u64 gap = o.seq - prevseq; gap -= std::distance(iseq[i].lower_bound(prevseq), iseq[i].lower_bound(o.seq));
				if (ms > gap) oracle("C04 C10", "drop:report", "ring %s: drop reports before seq %llu say %llu, the gap is only %llu", ri.name.c_str(), ULL(o.seq), ULL(ms), ULL(gap));
				slack += gap - ms;
				if (E.nomark) E.unreported += gap;
				else if (slack > ri.specials) oracle("C04 C10", "drop:report", "ring %s: gap of %llu before seq %llu but drop reports say %llu", ri.name.c_str(), ULL(gap), ULL(o.seq), ULL(ms));
			}
			if (ri.specials) E.vague = true;
			if (!ri.specials && mc) {
				if (mc > 1) oracle("C04", "drop:split", "ring %s: %llu drop reports for one gap", ri.name.c_str(), ULL(mc));
				// immediately before: no other record in between in this engine's output
				Eng &e2 = W->engs[o.eng]; auto a = std::lower_bound(e2.obs.begin(), e2.obs.end(), lastm); if (a + 1 == e2.obs.end() || *(a + 1) != v[k]) oracle("C04", "drop:position", "ring %s: the drop report is not immediately before the next record of its ring", ri.name.c_str());
			}
			prevseq = o.seq + 1;
		}
		if (mi < m.size() && !ri.specials) oracle("C04", "drop:trailing", "ring %s: drop report with no record of the ring after it", ri.name.c_str());
		if (!ri.reused && marksum > ri.dropcnt && rcount[std::make_pair(c.by_name ? 0 : ri.eng, ri.name)] == 1) oracle("C04 C09 C10 C14", "drop:false-report", "ring %s: drop reports total %llu but only %llu were dropped", ri.name.c_str(), ULL(marksum), ULL(ri.dropcnt));
		if (marksum) probe("drop reported");
	}
	for (size_t e = 0; e < W->engs.size(); e++) {
		Eng &E = W->engs[e]; if (!E.have_stats || !E.tso) continue;
		u64 sum = 0, full = 0; for (size_t k : E.obs) { if (W->obs[k].kind == OB_DROP) sum += W->obs[k].n; if (W->obs[k].kind == OB_TSOFULL) full++; }
		if (E.nomark) { if (E.unreported) probe("drops with reports masked off"); if (!E.vague && E.unreported != E.stats.recs_dropped) oracle("C04", "drop:stats", "engine counts %lu dropped records, %llu are missing in its output (reports masked off)", E.stats.recs_dropped, ULL(E.unreported)); }
		else if (sum != E.stats.recs_dropped) oracle("C04", "drop:stats", "engine counts %lu dropped records, its reports add up to %llu", E.stats.recs_dropped, ULL(sum));
		if (full != E.stats.tso_full) oracle("C05", "tso:stats", "engine counts %lu full ordering buffers, %llu were announced", E.stats.tso_full, ULL(full));
		if (full) probe("ordering buffer full");
	}
	// C05: causal order across rings
	if (c.tso_order && serves("C05 C22")) for (size_t e = 0; e < W->engs.size(); e++) {
		Eng &E = W->engs[e]; if (!E.tso) continue;
		std::vector<size_t> rec; for (size_t k : E.obs) if (W->obs[k].kind == OB_REC && W->by_id.count(W->obs[k].id)) rec.push_back(k);
		std::vector<u64> full; for (size_t k : E.obs) if (W->obs[k].kind == OB_TSOFULL) full.push_back(W->obs[k].ev);
		std::vector<u64> begins; for (auto &p : W->posts) if (p.eng == (int) e) begins.push_back(p.ev0);
		std::sort(begins.begin(), begins.end());
		for (size_t x = 0; x < rec.size(); x++) for (size_t y = x + 1; y < rec.size(); y++) {
			Obs &b = W->obs[rec[x]], &a = W->obs[rec[y]];            // b is output before a
			Post &pb = W->posts[W->by_id[b.id]], &pa = W->posts[W->by_id[a.id]];
			if (!(pa.returned && pa.ev1 < pb.ev0 && a.ts < b.ts)) continue;
			size_t lo = std::lower_bound(begins.begin(), begins.end(), pa.ev0) - begins.begin(), hi = std::lower_bound(begins.begin(), begins.end(), b.ev) - begins.begin();
			u64 between = hi - lo + W->flushes;
			if (between > E.cap / 8) continue;
			bool ann = false; for (u64 f : full) if (f > pa.ev0 && f < b.ev) ann = true;
			if (ann) continue;
			oracle("C05", "tso:causal-order", "record %llx (ts %llu) was output before %llx (ts %llu), whose post had finished first, with only %llu records posted meanwhile (ordering buffer %u) and no overflow announced", ULL(b.id), ULL(b.ts), ULL(a.id), ULL(a.ts), ULL(between), E.cap);
		}
	}
}

} // namespace sim
