// Registries of one engine under concurrent use: areas, masks, rings by name, timesource changes. Serves C11-C14.
#include "hog.h"
#include <string.h>
#include <stdio.h>
#include <regex.h>
#include <algorithm>
#include <sstream>
using namespace sim;

namespace {
enum { OP_AREA = 1, OP_FINDAREA, OP_LISTAREAS, OP_MASK, OP_POST, OP_ADDRING, OP_ADDPTR, OP_RELEASE, OP_FINDRING, OP_LISTRINGS, OP_CHTS, OP_SLEEP, OP_YIELD, OP_DUMP };
const char *sets1[] = { "S0", "S1", "T", 0 }, *sets2[] = { "S1", "S0", "S2", "S3", "S4", "S5", "S6", "S7", 0 }, *sets3[] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", 0 };
const char **secsets[] = { g_sections, sets1, 0, sets2, sets3 };
enum { NSETS = 5, NAREA = 14, NRNAME = 3, NMASK = 10 };
const char *defsec[] = { "INFO", "WARN", "ERROR", "FATAL", "DEBUG", "TRACE", 0 };
const char **secs(int s) { return secsets[s] ? secsets[s] : defsec; }
int nsec(int s) { int n = 0; while (secs(s)[n]) n++; return n; }
const char *masks[NMASK][5] = {
	{ ".*:.*" }, { ".*:.*", "!.*:S[0-3]" }, { "!A.*:.*", "A[01]:.*" }, { ".*:S(0|2|4|6)", "!A3:.*" }, { "!A.*:" }, { "A0:S1", "!A1:.*", "A2:INFO" },
	{ "S5" }, { "A.*:.*", "!S7", "A2:S7" }, { ":(INFO|WARN).*", "!A1:" }, { "!A.*:.*", "A.*:S[1-6]", "A0:.*", "!A0:S2" },
};
// reference reading of one mask entry
struct Ent { std::string area, sect; bool on; };
std::vector<Ent> entries(int m) { std::vector<Ent> v; for (int i = 0; i < 5 && masks[m][i]; i++) { std::string s = masks[m][i]; Ent e; e.on = s[0] != '!'; if (!e.on) s = s.substr(1); size_t c = s.find(':'); if (c == s.npos) { e.area = ".*"; e.sect = s; } else { e.area = s.substr(0, c); e.sect = s.substr(c + 1); } if (e.area.empty()) e.area = ".*"; if (e.sect.empty()) e.sect = ".*"; v.push_back(e); } return v; }
bool full(const std::string &re, const std::string &s)
{
	static std::map<std::string, bool> memo; std::string key = re + "\1" + s; auto it = memo.find(key); if (it != memo.end()) return it->second;
	regex_t r; std::string x = "^(" + re + ")$"; if (regcomp(&r, x.c_str(), REG_EXTENDED | REG_NOSUB)) return false; bool ok = !regexec(&r, s.c_str(), 0, 0, 0); regfree(&r); return memo[key] = ok;
}
// what a mask decides about a section: -1 nothing, 0 off, 1 on; touch gets bit 0 if some entry switches it off, bit 1 on
int decides(int m, const std::string &area, const std::string &sect, int *touch = 0) { int d = -1; if (touch) *touch = 0; for (auto &e : entries(m)) if (full(e.area, area) && full(e.sect, sect)) { d = e.on; if (touch) *touch |= e.on ? 2 : 1; } return d; }

struct MaskOp { int mask; u64 e0, e1; };
struct AreaOp { int name, set; hogl::area *a; u64 e0, e1; bool find; };
struct Hold { int ring; bool own; u64 a0, a1, r0, r1; };               // acquisition and release intervals
struct RingOp { std::string name; unsigned flags; hogl::ringbuf *r; u64 e0, e1; bool ptr; int hold; };
struct Chts { int ts; u64 e0, e1; bool acked, queued, maybe; };
struct S {
	std::vector<MaskOp> mops; std::vector<AreaOp> aops; std::vector<Hold> holds; std::vector<RingOp> rops; std::vector<Chts> ch;
	std::vector<std::pair<u64, u64> > dumps;              // engine dumps: they hold rings for a moment
	std::vector<std::vector<int> > held;                  // per thread: open holds
	std::vector<int> priv; std::map<const hogl::ringbuf *, int> inst; std::vector<std::vector<std::pair<u64, u64> > > finds_null; std::vector<u64> prog;
	int curmask0; hogl::area *area[NAREA]; int aset[NAREA]; bool have_area[NAREA];
};
S *st;
hogl::area *late;                                          // registered when everything else was over
hogl::timesource *tsrc(int i) { return i == 0 ? ts_counter_src() : i == 1 ? ts_counter2_src() : ts_counter3_src(); }

void generate(Plan &p, Rng &r)
{
	bool C11 = p.prop == "C11", C12 = p.prop == "C12", C13 = p.prop == "C13", C14 = p.prop == "C14";
	int nthr = 2 + r.below(3); p.set("nthr", nthr);
	static const int polls[] = { 1000, 1000, 3000, 10000 }, tsos[] = { -1, 4, 16, 64, 4096 }, rcaps[] = { 2, 4, 8, 32, 256 };
	p.set("poll", r.pick(polls)); p.set("tso", r.pick(tsos)); p.set("sink", r.chance(1, 2) ? 0 : 512);
	p.set("mask0", C13 || C14 ? 0 : r.below(NMASK)); if (C11) p.set("pshare", r.below(16)); p.set("noposts", r.chance(1, 4)); p.set("selfmask", (C11 || C12) && r.chance(1, 3));
	for (int t = 0; t < nthr; t++) { char b[16]; snprintf(b, sizeof b, "p%d.cap", t); p.set(b, C14 || C13 ? r.pick(rcaps) : 256); }
	int nops = 6 + r.below(40); bool dumps = r.chance(1, 4);
	int nm = 1 + r.below(NMASK), nn = 1 + r.below(4), nr = 1 + r.below(NRNAME), base = r.below(NMASK);
	if (C12 && r.chance(1, 3)) {
		// many registrations in a row while others keep looking up what is there already
		int ord[NAREA]; for (int i = 0; i < NAREA; i++) ord[i] = i;
		if (r.chance(1, 4)) for (int i = NAREA - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
		int n = 6 + r.below(NAREA - 5); p.set("sched", 1 + 2 * r.below(2)); p.set("p_den", 30 << r.below(6)); p.set("q_den", 2 << r.below(4));
		for (int i = 0; i < n; i++) { p.op(0, OP_AREA, ord[i], 0); for (int t = 1; t < nthr; t++) for (int k = 2 + r.below(6); k > 0; k--) p.op(t, r.chance(5, 6) ? OP_FINDAREA : OP_AREA, ord[r.below(i + 1)], 0); }
		nops = r.below(6);
	}
	for (int i = 0; i < nops; i++) {
		int t = r.below(nthr); u64 x = r.below(100);
		if (r.chance(1, 8)) { static const int us[] = { 1, 50, 1000, 3000, 12000 }; p.op(t, OP_SLEEP, r.pick(us)); continue; }
		if (r.chance(1, 16)) { p.op(t, OP_YIELD); continue; }
		if (dumps && r.chance(1, 10)) { p.op(t, OP_DUMP); continue; }
		if (C11 || C12) {
			if (x < (C11 ? 25 : 40)) p.op(t, OP_AREA, r.below(nn), r.chance(2, 3) ? 0 : r.below(NSETS));
			else if (x < (C11 ? 30 : 60)) p.op(t, OP_FINDAREA, r.below(nn));
			else if (x < (C11 ? 33 : 72)) p.op(t, OP_LISTAREAS);
			else if (x < (C11 ? 65 : 85)) p.op(t, OP_MASK, (base + r.below(nm)) % NMASK);
			else p.op(t, OP_POST, -1, 1 + r.below(4), r.below(nn), r.below(8));
		} else if (C13) {
			if (r.chance(1, 6)) {
				// a release and the next owner's registration close together, while the engine decides about the orphan
				int n = r.below(nr), fl = r.chance(1, 3) ? hogl::ringbuf::SHARED | hogl::ringbuf::REUSABLE : hogl::ringbuf::REUSABLE; static const int gap[] = { 1, 50, 300, 1000, 1000, 2000 };
				p.op(t, OP_ADDRING, n, fl, 8); if (r.chance(1, 2)) p.op(t, OP_POST, r.below(2), 1, r.below(nn), r.below(8));
				p.op(t, OP_RELEASE, 3); if (r.chance(2, 3)) p.op(t, OP_SLEEP, r.pick(gap)); if (r.chance(1, 4)) p.op(t, OP_FINDRING, n); else p.op(t, OP_ADDRING, n, fl, 8);
				p.op(t, OP_POST, 3, 1 + r.below(3), r.below(nn), r.below(8)); p.op(t, OP_RELEASE, 3);
			}
			else if (x < 35) { int f = 0; u64 y = r.below(6); f = y == 0 ? 0 : y == 1 ? hogl::ringbuf::SHARED : y == 2 ? hogl::ringbuf::SHARED | hogl::ringbuf::REUSABLE : hogl::ringbuf::REUSABLE; p.op(t, OP_ADDRING, r.below(nr), f, r.pick(rcaps)); }
			else if (x < 42) p.op(t, OP_ADDPTR, r.below(nr), r.chance(1, 3) ? hogl::ringbuf::SHARED : r.chance(1, 2) ? hogl::ringbuf::REUSABLE : 0, r.pick(rcaps));
			else if (x < 65) p.op(t, OP_RELEASE, r.below(4));
			else if (x < 72) p.op(t, OP_FINDRING, r.below(nr));
			else if (x < 76) p.op(t, OP_LISTRINGS);
			else p.op(t, OP_POST, r.below(4), 1 + r.below(5), r.below(nn), r.below(8));
		} else if (r.chance(1, 3)) {
			// registrations and changes close together
			if (r.chance(1, 2)) p.op(t, OP_ADDRING, r.below(nr), r.chance(1, 2) ? hogl::ringbuf::SHARED : hogl::ringbuf::REUSABLE, 8); else p.op(t, OP_ADDPTR, r.below(nr), 0, 8);
			p.op((t + 1) % nthr, OP_CHTS, 3, r.below(3), r.chance(1, 4) ? 0 : 10000000);
			if (r.chance(1, 2)) p.op(t, OP_RELEASE, r.below(4));
		} else {
			if (x < 12) p.op(t, OP_ADDRING, r.below(nr), r.chance(1, 2) ? hogl::ringbuf::SHARED : hogl::ringbuf::REUSABLE, r.pick(rcaps));
			else if (x < 15) p.op(t, OP_ADDPTR, r.below(nr), 0, r.pick(rcaps));
			else if (x < 25) p.op(t, OP_RELEASE, r.below(4));
			else if (x < 50) { static const int to[] = { 0, 1000, 2000, 20000, 10000000, 10000000, 10000000 }; p.op(t, OP_CHTS, r.below(4), r.below(3), r.pick(to)); }
			else p.op(t, OP_POST, r.below(4), 1 + r.below(5), 0, r.below(8));
		}
	}
	if (r.chance(1, 3)) p.set("f.slow_io", 30000);
	p.set("max_s", 3000);
}

bool overlap(u64 a0, u64 a1, u64 b0, u64 b1) { return a0 < b1 && b0 < a1; }
const u64 INF = ~0ULL;

// ---- areas ---------------------------------------------------------------------------------------------------------
// masks that may be in force somewhere in [e0,e1]; -1 stands for the engine's default mask
std::vector<int> masks_at(u64 e0, u64 e1)
{
	std::vector<int> v; bool init_ok = true;
	for (auto &m : st->mops) if (m.e1 && m.e1 < e0) init_ok = false;
	if (init_ok) v.push_back(-1);
	for (auto &m : st->mops) { if (m.e0 > e1) continue; bool dead = false; for (auto &n : st->mops) if (m.e1 && n.e1 && m.e1 < n.e0 && n.e1 < e0) dead = true; if (!dead) v.push_back(m.mask); }
	return v;
}
bool mask_quiet(u64 e0, u64 e1) { for (auto &m : st->mops) if (overlap(m.e0, m.e1 ? m.e1 : INF, e0, e1)) return false; return true; }
int mid(int m) { return m < 0 ? st->curmask0 : m; }
void check_area_bits(const char *props, const char *cls, const hogl::area *a, int set, u64 e0, u64 e1, const char *when)
{
	if (!mask_quiet(e0, e1)) return;
	std::vector<int> v = masks_at(e0, e1);
	if (v.size() > 1) { int x = mid(v[0]); for (int m : v) if (mid(m) != x) return; }
	if (v.empty()) return;
	for (int i = 0; i < nsec(set); i++) { int d = decides(mid(v[0]), a->name(), secs(set)[i]); if (d >= 0 && a->test(i) != (d == 1)) oracle(props, cls, "%s: section %s:%s is %s, but the engine's mask (number %d) says %s", when, a->name(), secs(set)[i], a->test(i) ? "enabled" : "disabled", mid(v[0]), d ? "enabled" : "disabled"); }
}
void note_area(const AreaOp &o) { if (o.a && !st->have_area[o.name]) { st->have_area[o.name] = true; st->area[o.name] = o.a; for (int s = 0; s < NSETS; s++) { bool eq = (int) o.a->count() == nsec(s); for (int i = 0; eq && i < nsec(s); i++) eq = !strcmp(o.a->section_name(i), secs(s)[i]); if (eq) st->aset[o.name] = s; } } }
void op_area(int name, int set, bool find)
{
	char nm[8]; snprintf(nm, sizeof nm, "A%d", name);
	AreaOp o; o.name = name; o.set = set; o.find = find; o.e0 = event(); o.e1 = 0; o.a = 0;
	size_t k = st->aops.size(); st->aops.push_back(o);
	hogl::area *a; { char *h; { h = strdup(nm); } if (find) a = (hogl::area *) SUT(W->engs[0].e->find_area(h)); else a = SUT(W->engs[0].e->add_area(h, secsets[set])); memset(h, '#', strlen(h)); free(h); }
	AreaOp &q = st->aops[k]; q.a = a; q.e1 = event();
	logf("%s area %s set %d -> %p", find ? "find" : "add", nm, set, (void *) a);
	if (!a) return;
	if (!addressable(a, sizeof *a)) violate("area:freed", "%s returned an area that is not valid memory", find ? "find_area" : "add_area");
	note_area(q);
	if (strcmp(a->name(), nm)) oracle("C12", "area:name", "asked for area %s, got one named %s", nm, a->name());
	int s = st->aset[name];
	if (!find) { bool eq = (int) a->count() == nsec(set); for (int i = 0; eq && i < nsec(set); i++) eq = !strcmp(a->section_name(i), secs(set)[i]); if (!eq) oracle("C12", "area:sections", "add_area(%s) returned an area with other sections than requested", nm); s = set; }
	check_area_bits("C12 C11", find ? "area:mask-at-find" : "area:mask-at-add", a, s, q.e0, event(), find ? "after find_area" : "after add_area");
}
void op_listareas()
{
	hogl::string_list *l = SUT(new hogl::string_list); u64 e0 = event(); SUT((W->engs[0].e->list_areas(*l), 0)); u64 e1 = event();
	std::map<std::string, int> n; for (auto &s : *l) n[s]++;
	for (auto &x : n) if (x.second > 1) oracle("C12", "area:listed-twice", "list_areas shows %s %d times", x.first.c_str(), x.second);
	if (n["HOGL"] != 1) oracle("C12", "area:internal", "list_areas does not show the internal area");
	for (int i = 0; i < NAREA; i++) {
		char nm[8]; snprintf(nm, sizeof nm, "A%d", i); bool must = false, may = false;
		for (auto &a : st->aops) if (a.name == i && !a.find) { if (a.e1 && a.e1 < e0 && a.a) must = true; if (a.e0 < e1) may = true; }
		if (must && !n.count(nm)) oracle("C12", "area:unlisted", "list_areas does not show %s, which is registered", nm);
		if (!may && n.count(nm)) oracle("C12", "area:phantom", "list_areas shows %s, which nobody registered", nm);
	}
	SUT((delete l, 0));
}
void op_mask(int m)
{
	const char **k = masks[m];
	hogl::mask *x = SUT(new hogl::mask(k[0], k[1], k[1] ? k[2] : (const char *) 0, k[1] && k[2] ? k[3] : (const char *) 0, (const char *) 0));
	MaskOp o; o.mask = m; o.e0 = event(); o.e1 = 0; size_t i = st->mops.size(); st->mops.push_back(o);
	SUT((W->engs[0].e->apply_mask(*x), 0));
	u64 e1 = st->mops[i].e1 = event();
	SUT((delete x, 0));
	logf("mask %d applied", m);
	// no other change overlapped: everything it decides holds now in every area registered before
	for (size_t j = 0; j < st->mops.size(); j++) if (j != i && overlap(st->mops[j].e0, st->mops[j].e1 ? st->mops[j].e1 : INF, st->mops[i].e0, e1)) return;
	for (int n = 0; n < NAREA; n++) if (st->have_area[n]) check_area_bits("C11", "mask:not-applied", st->area[n], st->aset[n], e1 - 1, e1, "when apply_mask returned");
}
void check_areas_end()
{
	// first winner per name
	for (int n = 0; n < NAREA; n++) {
		hogl::area *a = 0; bool any_ok = false; int tried = 0;
		for (auto &o : st->aops) if (o.name == n) {
			if (!o.find) tried++;
			if (!o.a) continue;
			any_ok = true;
			if (a && o.a != a) oracle("C12", "area:two", "two different areas are known as A%d", n);
			a = o.a;
		}
		if (tried && !any_ok) oracle("C12", "area:refused", "no registration of A%d succeeded", n);
		if (!a) continue;
		int s = st->aset[n];
		for (auto &o : st->aops) if (o.name == n && !o.find) {
			if (o.set == s && !o.a) oracle("C12", "area:refused", "add_area(A%d) with the same sections as the existing area failed", n);
			if (o.set != s && o.a) oracle("C12", "area:wrong", "add_area(A%d) with other sections than the existing area succeeded", n);
		} else if (o.name == n) {
			bool must = false, may = false; for (auto &q : st->aops) if (q.name == n && !q.find) { if (q.a && q.e1 < o.e0) must = true; if (q.e0 < o.e1) may = true; }
			if (must && !o.a) oracle("C12", "area:not-found", "find_area(A%d) failed although it is registered", n);
			if (!may && o.a) oracle("C12", "area:phantom", "find_area(A%d) found an area nobody registered", n);
		}
		if (!addressable(a, sizeof *a) || !addressable(a->name(), 1)) violate("area:freed", "area A%d was freed while its engine exists", n);
		char nm[8]; snprintf(nm, sizeof nm, "A%d", n);
		if (strcmp(a->name(), nm) || (int) a->count() != nsec(s)) oracle("C12", "area:changed", "area A%d changed", n);
		for (int i = 0; i < nsec(s); i++) if (strcmp(a->section_name(i), secs(s)[i])) oracle("C12", "area:changed", "section %d of area A%d changed to %s", i, n, a->section_name(i));
	}
	// final mask
	std::ostringstream os; os << W->engs[0].e->get_mask(); std::string dump = os.str();
	std::vector<int> v = masks_at(event(), event()), fits;
	for (int m : v) { std::string d; for (int i = 0; i < 5 && masks[mid(m)][i]; i++) d += std::string(masks[mid(m)][i]) + "\n"; if (d == dump) fits.push_back(mid(m)); }
	if (fits.empty()) oracle("C11", "mask:lost", "the engine's mask at the end is none of those applied last: %s", dump.c_str());
	int fin = fits[0];
	for (int n = 0; n < NAREA + 1; n++) if (n < NAREA ? st->have_area[n] : late != 0) { hogl::area *a = n < NAREA ? st->area[n] : late; int s = n < NAREA ? st->aset[n] : 0;
		for (int i = 0; i < nsec(s); i++) {
			int d = decides(fin, a->name(), secs(s)[i]);
			if (d >= 0 && a->test(i) != (d == 1)) oracle("C11", "mask:unsettled", "after everything returned section %s:%s is %s, the engine's mask (number %d) says %s", a->name(), secs(s)[i], a->test(i) ? "enabled" : "disabled", fin, d ? "enabled" : "disabled");
			if (d < 0) { bool on = decides(st->curmask0, a->name(), secs(s)[i]) == 1; bool off = decides(st->curmask0, a->name(), secs(s)[i]) != 1; for (auto &m : st->mops) { int x = decides(m.mask, a->name(), secs(s)[i]); if (x == 1) on = true; if (x == 0) off = true; }
				if (a->test(i) && !on) oracle("C11", "mask:stray", "section %s:%s is enabled, which no mask ever asked for", a->name(), secs(s)[i]);
				(void) off; }
		}
		if (st->mops.size() > 1) probe("areas checked against final mask"); }
}

// ---- rings ---------------------------------------------------------------------------------------------------------
int instance(hogl::ringbuf *r, const std::string &name, const hogl::ringbuf::options &o)
{
	auto it = st->inst.find(r); if (it != st->inst.end()) { W->rings[it->second].reused = true; return it->second; }
	int i = add_ring_info(name, 0, r, o); W->rings[i].shared = r->shared(); W->rings[i].o.flags = (r->shared() ? 1 : 0) | (r->reusable() ? 4 : 0); st->inst[r] = i; return i;
}
std::vector<int> ts_at(u64 e0, u64 e1)
{
	std::vector<int> v; bool init = true;
	for (auto &c : st->ch) if (c.acked && c.e1 < e0) init = false;
	if (init) v.push_back(0);
	for (auto &c : st->ch) {
		if (c.e0 > e1) continue;
		bool dead = false;
		if (c.acked) for (auto &d : st->ch) if (d.acked && c.e1 < d.e0 && d.e1 < e0) dead = true;
		if (!c.acked && c.e1 && !c.queued && !c.maybe) dead = true;
		if (!dead) v.push_back(c.ts);
	}
	return v;
}
std::string tsnames(const std::vector<int> &v) { std::string s; for (int x : v) s += std::string(" ") + tsrc(x)->name(); return s; }
void check_ring_ts(const char *cls, hogl::ringbuf *r, u64 e0, u64 e1, const char *when)
{
	std::vector<int> v = ts_at(e0, e1); for (int x : v) if (r->timesource() == tsrc(x)) return;
	oracle("C14", cls, "%s: ring %s uses timesource %s, the engine's is%s", when, r->name(), r->timesource() ? r->timesource()->name() : "(null)", tsnames(v).c_str());
}
void check_all_ts(const char *when) { for (auto &h : st->holds) if (h.own && h.a1 && !h.r0) check_ring_ts("timesource:ring-missed", W->rings[h.ring].r, event() - 1, event(), when); }

void op_addring(int t, const std::string &name, unsigned flags, unsigned cap, bool ptr)
{
	hogl::ringbuf::options o = hogl::ringbuf::default_options; o.flags = flags; o.capacity = cap;
	RingOp ro; ro.name = name; ro.flags = flags; ro.ptr = ptr; ro.e0 = event(); ro.e1 = 0; ro.r = 0; ro.hold = -1;
	size_t k = st->rops.size(); st->rops.push_back(ro);
	hogl::ringbuf *r; char *nm = strdup(name.c_str());
	if (ptr) { r = SUT(new hogl::ringbuf(nm, o)); SUT((r->hold(), 0)); bool ok = SUT(W->engs[0].e->add_ring(r)); if (!ok) { SUT((r->release(), 0)); r = 0; } }
	else r = SUT(W->engs[0].e->add_ring(nm, o));
	memset(nm, '#', strlen(nm)); free(nm);
	st->rops[k].r = r; st->rops[k].e1 = event();
	logf("add ring %s flags %u -> %p", name.c_str(), flags, (void *) r);
	if (!r) return;
	if (!addressable(r, sizeof *r)) violate("ring:freed", "add_ring returned a ring that is not valid memory");
	if (name != r->name()) oracle("C13", "ring:name", "add_ring(%s) returned ring %s", name.c_str(), r->name());
	bool fresh = !st->inst.count(r); for (size_t j = 0; j < st->rops.size(); j++) if (j != k && st->rops[j].name == name && !st->rops[j].e1) fresh = false;
	if (fresh && (r->shared() != !!(flags & 1) || r->reusable() != !!(flags & 4) || r->capacity() < cap)) oracle("C13", "ring:options", "a new ring does not have the options asked for");
	if (!fresh) probe("ring reused or shared");
	int i = instance(r, name, o);
	Hold h; h.ring = i; h.own = true; h.a0 = st->rops[k].e0; h.a1 = st->rops[k].e1; h.r0 = h.r1 = 0;
	st->rops[k].hold = st->holds.size(); st->holds.push_back(h); st->held[t].push_back(st->rops[k].hold);
	check_ring_ts("timesource:new-ring", r, h.a0, event(), "when add_ring returned");
}
void op_findring(int t, const std::string &name)
{
	u64 e0 = event(); hogl::ringbuf *r = SUT(W->engs[0].e->find_ring(name.c_str())); u64 e1 = event();
	logf("find ring %s -> %p", name.c_str(), (void *) r);
	if (!r) {
		for (auto &h : st->holds) if (h.own && W->rings[h.ring].name == name && h.a1 < e0 && (!h.r0 || h.r0 > e1)) oracle("C13", "ring:not-found", "find_ring(%s) found nothing although the ring's owner holds it", name.c_str());
		return;
	}
	if (!addressable(r, sizeof *r)) violate("ring:freed", "find_ring returned a ring that is not valid memory");
	if (name != r->name()) oracle("C13", "ring:name", "find_ring(%s) returned ring %s", name.c_str(), r->name());
	for (auto &h : st->holds) if (h.own && W->rings[h.ring].name == name && h.a1 < e0 && (!h.r0 || h.r0 > e1) && W->rings[h.ring].r != r) oracle("C13", "ring:two-live", "find_ring(%s) returned another ring than the one its owner holds", name.c_str());
	bool known = st->inst.count(r);
	hogl::ringbuf::options o = hogl::ringbuf::default_options; o.capacity = r->capacity();
	bool was = known ? W->rings[st->inst[r]].reused : false;
	int i = instance(r, name, o); W->rings[i].reused = was;
	Hold h; h.ring = i; h.own = false; h.a0 = e0; h.a1 = e1; h.r0 = h.r1 = 0; st->holds.push_back(h); st->held[t].push_back(st->holds.size() - 1);
}
void op_release(int t, size_t which)
{
	if (st->held[t].empty()) return;
	which %= st->held[t].size(); int k = st->held[t][which]; st->held[t].erase(st->held[t].begin() + which);
	RingInfo &ri = W->rings[st->holds[k].ring];
	if (!addressable(ri.r, sizeof *ri.r)) violate("ring:freed", "ring %s was freed while it is held", ri.name.c_str());
	ri.dropcnt = std::max<u64>(ri.dropcnt, ri.r->dropcnt());
	st->holds[k].r0 = event();
	{ hogl::ringbuf *rp = ri.r; SUT((rp->release(), 0)); }
	st->holds[k].r1 = event();
	logf("released ring %s", W->rings[st->holds[k].ring].name.c_str());
}
void op_listrings()
{
	hogl::string_list *l = SUT(new hogl::string_list); u64 e0 = event(); SUT((W->engs[0].e->list_rings(*l), 0)); u64 e1 = event();
	std::map<std::string, int> n; for (auto &s : *l) n[s]++;
	for (auto &x : n) { if (x.second > 1) oracle("C13", "ring:listed-twice", "list_rings shows %s %d times", x.first.c_str(), x.second); bool may = false; for (auto &o : st->rops) if (o.name == x.first && o.e0 < e1) may = true; if (!may) oracle("C13", "ring:phantom", "list_rings shows %s, which nobody registered", x.first.c_str()); }
	for (auto &h : st->holds) if (h.own && h.a1 < e0 && (!h.r0 || h.r0 > e1) && !n.count(W->rings[h.ring].name)) oracle("C13", "ring:unlisted", "list_rings does not show %s although its owner holds it", W->rings[h.ring].name.c_str());
	SUT((delete l, 0));
}
// the engine printed into a stream, as a debugging application does it
void op_dump()
{
	size_t k = st->dumps.size(); u64 e0 = event(); st->dumps.push_back({ e0, INF });
	hogl::engine *e = W->engs[0].e; std::ostringstream *os = SUT(new std::ostringstream); SUT(((*os << *e), 0)); u64 e1 = event(); st->dumps[k].second = e1;
	std::string d = os->str(); SUT((delete os, 0)); probe("engine dumped");
	// the mask as read is one the engine had meanwhile
	hogl::mask *mk = SUT(new hogl::mask); u64 g0 = event(); SUT((*mk = e->get_mask(), 0)); u64 g1 = event();
	std::ostringstream ms; ms << *mk; SUT((delete mk, 0)); bool fits = false;
	for (int m : masks_at(g0, g1)) { std::string x; for (int i = 0; i < 5 && masks[mid(m)][i]; i++) x += std::string(masks[mid(m)][i]) + "\n"; if (x == ms.str()) fits = true; }
	if (!fits) oracle("C11", "mask:torn", "get_mask returned a mask the engine did not have at that time: %s", ms.str().c_str());
	size_t ra = d.find("Rings:"), aa = d.find("Areas:"); if (ra == d.npos || aa == d.npos || d.find("Mask:") == d.npos || d.find("Stats:") == d.npos || d.find("Options:") == d.npos) { oracle("C12 C13", "dump:incomplete", "the engine's dump lacks a section: %s", d.c_str()); return; }
	for (auto &h : st->holds) if (h.own && h.a1 < e0 && (!h.r0 || h.r0 > e1) && d.substr(ra, aa - ra).find(W->rings[h.ring].name + ": {") == std::string::npos) oracle("C13", "ring:unlisted", "the engine's dump does not show ring %s although its owner holds it", W->rings[h.ring].name.c_str());
	for (auto &a : st->aops) if (!a.find && a.a && a.e1 && a.e1 < e0) { char nm[8]; snprintf(nm, sizeof nm, "A%d", a.name); if (d.find(nm, aa) == d.npos) oracle("C12", "area:unlisted", "the engine's dump does not show area %s", nm); }
}
u64 inf(u64 x) { return x ? x : INF; }
void check_rings_end()
{
	std::vector<Hold> &H = st->holds;
	for (size_t a = 0; a < H.size(); a++) for (size_t b = a + 1; b < H.size(); b++) {
		RingInfo &x = W->rings[H[a].ring], &y = W->rings[H[b].ring]; if (x.name != y.name) continue;
		bool both = std::max(H[a].a1, H[b].a1) < std::min(inf(H[a].r0), inf(H[b].r0)); if (!both) continue;
		if (H[a].ring != H[b].ring) oracle("C13", "ring:two-live", "two different rings named %s were held at the same time", x.name.c_str());
		else if (H[a].own && H[b].own && !x.shared) oracle("C13", "ring:two-owners", "private ring %s was handed to a second owner while the first still held it", x.name.c_str());
	}
	for (auto &o : st->rops) {
		bool busy = false, live_private = false; const RingInfo *live_shared = 0, *last = 0; u64 laste = 0; bool ever = false, owner_now = false;
		for (auto &q : st->rops) if (&q != &o && q.name == o.name) { if (q.e0 < o.e1) ever = true; if (overlap(q.e0, q.e1, o.e0, o.e1)) busy = true; }
		for (size_t k = 0; k < H.size(); k++) { if ((int) k == o.hold) continue; RingInfo &x = W->rings[H[k].ring]; if (x.name != o.name) continue;
			if (H[k].a0 < o.e1 && inf(H[k].r1) > o.e0) busy = true;
			if (H[k].a1 < o.e0 && inf(H[k].r0) > o.e1) { owner_now = true; if (x.shared) live_shared = &x; else live_private = true; }
			if (H[k].a1 < o.e0 && H[k].a1 >= laste) { laste = H[k].a1; last = &x; } }
		for (auto &x : st->dumps) if (overlap(x.first, x.second, o.e0, o.e1)) busy = true;
		if (o.ptr) { if (o.r && (live_private || live_shared)) oracle("C13", "ring:two-live", "add_ring accepted a second ring named %s", o.name.c_str()); }
		else if (live_private && o.r) oracle("C13", "ring:stolen", "add_ring(%s) handed out a private ring that is in use", o.name.c_str());
		else if (live_shared && o.r != live_shared->r) oracle("C13", "ring:shared-refused", "add_ring(%s) did not return the shared ring of that name", o.name.c_str());
		(void) owner_now;
		if (!o.r && !busy && (!ever || (!o.ptr && last && (last->shared || (last->o.flags & 4))))) oracle("C13", "ring:refused", "add_ring(%s) failed although %s", o.name.c_str(), ever ? "the previous owner had released the ring, which is reusable" : "the name was never used");
		if (o.r && !o.ptr) { int n = 0; for (auto &q : st->rops) if (q.r == o.r) n++; RingInfo &x = W->rings[st->inst[o.r]]; if (n > 1 && !x.shared && !(x.o.flags & 4)) oracle("C13", "ring:reused-private", "private ring %s, not reusable, was handed out twice", o.name.c_str()); }
	}
}
void op_chts(int t, int slot, int ts, i64 to, i64 dt)
{
	std::vector<int> own; for (int k : st->held[t]) if (st->holds[k].own) own.push_back(st->holds[k].ring);
	int ring = slot < (int) own.size() ? own[slot] : st->priv[t];
	Chts c; c.ts = ts; c.e0 = event(); c.e1 = 0; c.acked = c.queued = c.maybe = false; size_t k = st->ch.size(); st->ch.push_back(c);
	RingInfo &ri = W->rings[ring]; ri.specials++;
	i64 t0 = now(); u64 s0 = steps(), f0 = fault_count(F_STALL);
	bool room = ri.r->room() > 0;
	hogl::timesource *tp = tsrc(ts); hogl::ringbuf *rp = ri.r; bool ok = SUT(hogl::change_timesource(rp, tp, to));
	i64 el = now() - t0 - (i64)(steps() - s0) * dt;
	Chts &d = st->ch[k]; d.e1 = event(); d.acked = ok && to; d.queued = ok; d.maybe = !ok;
	logf("change timesource %s to %lld on %s -> %d", tsrc(ts)->name(), (long long) to, W->rings[ring].name.c_str(), ok);
	probe(ok ? to ? "timesource change acknowledged" : "timesource change queued" : "timesource change timed out");
	(void) room;
	if (!W->rings[ring].shared && f0 == fault_count(F_STALL) && el > to * 1000 + 3000000) oracle("C14", "timesource:late", "change_timesource with a limit of %lld us returned after %lld us", (long long) to, (long long) el / 1000);
	if (d.acked) check_all_ts("after change_timesource reported success");
}

void run(const Plan &p)
{
	g_prop = p.prop; late = 0; W = new World; st = new S; memset(st->have_area, 0, sizeof st->have_area); memset(st->aset, 0, sizeof st->aset);
	int nthr = p.k("nthr"); i64 dt = p.k("dt_ns", 20); for (int i = 0; i < 3; i++) tsrc(i);
	W->engs.resize(1); Eng &E = W->engs[0];
	E.poll = p.k("poll"); i64 tso = p.k("tso"); E.tso = tso >= 0; E.cap = tso < 0 ? 0 : tso;
	st->curmask0 = p.k("mask0");
	const char **mk = masks[st->curmask0];
	hogl::engine::options o = hogl::engine::default_options;
	o.default_mask = hogl::mask(mk[0], mk[1], mk[1] ? mk[2] : (const char *) 0, mk[1] && mk[2] ? mk[3] : (const char *) 0, (const char *) 0);
	o.polling_interval_usec = E.poll; o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = E.tso ? 0 : hogl::engine::DISABLE_TSO; o.timesource = tsrc(0);
	u64 live0 = sut_live_blocks(), mark0 = alloc_mark(); E.fmt = SUT(new ObsFormat(0, 0)); E.out = SUT(new MemOutput(*E.fmt, 0, p.k("sink"))); E.e = SUT(new hogl::engine(*E.out, o));
	st->held.resize(nthr); st->prog.assign(nthr, 0); st->priv.assign(nthr, -1);
	bool C1314 = p.prop == "C13" || p.prop == "C14";
	if (C1314) for (int i = 0; i < 4; i++) op_area(i, 0, false);
	enable_faults(true);
	std::vector<int> fib;
	for (int t = 0; t < nthr; t++) {
		std::vector<Op> ops; for (auto &x : p.ops) if (x.thr == t) ops.push_back(x);
		char nm[16]; snprintf(nm, sizeof nm, "thr%d", t);
		fib.push_back(spawn(nm, [=, &p] {
			char b[16]; snprintf(b, sizeof b, "p%d.cap", t);
			snprintf((char *) b + 8, 8, "P%d", t);
			{ char pn[8]; snprintf(pn, sizeof pn, "P%d", t); char key[16]; snprintf(key, sizeof key, "p%d.cap", t); op_addring(t, pn, p.k("pshare") >> t & 1 ? hogl::ringbuf::SHARED : 0, p.k(key, 64), false); if (st->held[t].empty()) { oracle("C13", "ring:refused", "add_ring refused the unused name %s", pn); return; } st->priv[t] = st->holds[st->held[t][0]].ring; st->held[t].clear(); }
			int ph = -1; for (size_t k = 0; k < st->holds.size(); k++) if (st->holds[k].ring == st->priv[t]) ph = k;
			for (auto &x : ops) {
				op_begin(x.id); st->prog[t]++;
				char rn[8]; snprintf(rn, sizeof rn, "R%d", (int) x.a);
				switch (x.kind) {
				case OP_AREA: op_area(x.a, x.b, false); break;
				case OP_FINDAREA: op_area(x.a, -1, true); break;
				case OP_LISTAREAS: op_listareas(); break;
				case OP_MASK: op_mask(x.a); break;
				case OP_ADDRING: case OP_ADDPTR: if (st->held[t].size() < 5) op_addring(t, rn, x.b, x.c, x.kind == OP_ADDPTR); break;
				case OP_FINDRING: if (st->held[t].size() < 5) op_findring(t, rn); break;
				case OP_RELEASE: op_release(t, x.a); break;
				case OP_LISTRINGS: op_listrings(); break;
				case OP_DUMP: op_dump(); break;
				case OP_CHTS: op_chts(t, x.a, x.b, x.c, dt); break;
				case OP_SLEEP: sleep_ns(x.a * 1000); break;
				case OP_YIELD: yield_point(); break;
				case OP_POST: {
					if (!st->have_area[x.c]) break;
					std::vector<int> own; for (int k : st->held[t]) if (st->holds[k].own) own.push_back(st->holds[k].ring);
					int ring = x.a >= 0 && x.a < (int) own.size() ? own[x.a] : st->priv[t]; hogl::area *a = st->area[x.c]; int set = st->aset[x.c];
					for (int k = 0; k < x.b; k++) {
						int s = (x.d + k) % nsec(set); bool on = a->test(s); u64 e0 = event(), q0 = W->rings[ring].r->seqnum();
						u64 id = do_post(t, ring, a, x.c, s, C1314 ? 0 : (x.id + k) % NVARIANT, false, !W->rings[ring].shared && x.id % 3 == 0);
						u64 e1 = event(); bool may_on = false, may_off = false;
						for (auto &m : st->mops) if (overlap(m.e0, inf(m.e1), e0, e1)) { int tt; decides(m.mask, a->name(), secs(set)[s], &tt); if (tt & 2) may_on = true; if (tt & 1) may_off = true; }
						Post &q = W->posts[W->by_id[id]];
						if (on && !may_off) q.enabled = true; else if (!on && !may_on) q.enabled = false; else q.maybe = true;
						if (!q.maybe && !q.enabled && ring == st->priv[t] && W->rings[ring].r->seqnum() != q0) oracle("C11", "mask:disabled-post", "a post to the disabled section %s:%s used up a sequence number", a->name(), secs(set)[s]);
					}
					break; }
				}
			}
			op_begin(1000000 + t);
			for (size_t n = st->held[t].size(); n-- > 0;) op_release(t, 0);
			(void) ph;
		}));
	}
	for (int t = 0; t < nthr; t++) for (u64 seen = ~0ULL; !join(fib[t], 60000000000LL);) { if (st->prog[t] != seen) { seen = st->prog[t]; continue; } violate("hang:thread", "a thread does not finish: %s", where(fib[t]).c_str()); }
	enable_faults(false);
	// everything but the private rings has been released: the engine drains them and lets them go
	i64 lim = 40LL * E.poll * 1000 + 2000000000LL;
	bool gone = wait_until([&] { for (auto &x : st->inst) { bool priv = false; for (int q : st->priv) if (q == x.second) priv = true; if (!priv && addressable(x.first, 8)) return false; } return true; }, lim, 500000);
	if (!gone) for (auto &x : st->inst) { bool priv = false; for (int q : st->priv) if (q == x.second) priv = true; if (!priv && addressable(x.first, 8)) oracle("C13 C10", "ring:not-freed", "ring %s was released by everybody but the engine never lets it go (references %d, %u records in it)", W->rings[x.second].name.c_str(), x.first->refcnt(), x.first->size()); }
	if (!wait_until([&] { for (int q : st->priv) if (!W->rings[q].r->empty()) return false; return true; }, lim, 500000)) oracle("C13 C14", "ring:not-served", "a registered ring is not served by the engine");
	if (p.k("selfmask")) {
		// the engine's own mask applied to it again, then an area nobody has seen before
		hogl::engine *ee = E.e; SUT((ee->apply_mask(ee->get_mask()), 0)); probe("own mask applied again");
		hogl::area *a = SUT(ee->add_area("A9", g_sections)); if (!a) oracle("C12", "area:refused", "add_area(A9) failed"); else late = a;
	}
	check_areas_end();
	check_all_ts("at the end");
	for (int t = 0; t < nthr; t++) for (size_t k = 0; k < st->holds.size(); k++) if (st->holds[k].ring == st->priv[t]) { W->rings[st->priv[t]].dropcnt = W->rings[st->priv[t]].r->dropcnt(); st->holds[k].r0 = event(); SUT((W->rings[st->priv[t]].r->release(), 0)); st->holds[k].r1 = event(); }
	hogl::engine::stats fin = E.e->get_stats();
	if (finish_engine(0, 600000000000LL) < 0) violate("hang:shutdown", "destroying the engine does not finish");
	if (sut_live_blocks() != live0) dump_live(mark0);
	if (sut_live_blocks() != live0) oracle("C12 C13", "leak:blocks", "%lld allocations are left after the engine was destroyed", (long long) (sut_live_blocks() - live0));
	check_rings_end();
	for (int n = 0; n < NAREA; n++) if (st->have_area[n] && addressable(st->area[n], 8)) oracle("C12 C10", "area:leaked", "area A%d still exists after its engine was destroyed", n);
	for (auto &x : st->inst) if (addressable(x.first, 8)) oracle("C13 C10", "ring:leaked", "ring %s still exists after its engine was destroyed", W->rings[x.second].name.c_str());
	Checks c; c.tso_order = false; evaluate(c);
	if (p.prop == "C14") {
		u64 sw = 0, lo = 0, hi = 0; for (auto &x : st->ch) { if (x.queued) lo++; if (x.queued || x.maybe) hi++; }
		std::string cur = tsrc(0)->name();
		for (auto &ob : W->obs) if (ob.kind == OB_TSWITCH) {
			sw++;
			size_t a = ob.text.find(" from "), b = ob.text.find(" to "); std::string f = ob.text.substr(a + 6, b - a - 6), to = ob.text.substr(b + 4); while (to.size() && (to.back() == '\n' || to.back() == ' ')) to.pop_back();
			if (f != cur) oracle("C14", "timesource:notice", "switch notice says 'from %s', the engine was using %s", f.c_str(), cur.c_str());
			cur = to;
		}
		if (sw < lo || sw > hi) oracle("C14", "timesource:notice-count", "%llu timesource changes were accepted (%llu tried), the output shows %llu switch notices", (unsigned long long) lo, (unsigned long long) hi, (unsigned long long) sw);
		if (fin.timesource_changed != sw) oracle("C14", "timesource:stats", "the engine's statistics count %llu timesource changes, the output shows %llu", (unsigned long long) fin.timesource_changed, (unsigned long long) sw);
		for (auto &ob : W->obs) if (ob.kind == OB_REC && W->by_id.count(ob.id)) {
			Post &q = W->posts[W->by_id[ob.id]]; int cls = ob.ts >= 2000000000000ULL ? 2 : ob.ts >= 1000000000000ULL ? 1 : 0;
			std::vector<int> v = ts_at(q.ev0, q.ev1); bool ok = false; for (int x : v) if (x == cls) ok = true;
			if (!ok) oracle("C14", "timesource:record", "record %llx carries a timestamp of %s although the timesource was%s while it was posted", (unsigned long long) q.id, tsrc(cls)->name(), tsnames(v).c_str());
		}
		// a notice carries the time of the change
		{ std::map<std::string, int> c1; for (auto &x : st->inst) c1[W->rings[x.second].name]++;
		  for (auto &a : W->obs) if (a.kind == OB_TSWITCH && c1[a.ring] == 1) for (auto &b : W->obs) if (b.kind == OB_REC && b.ring == a.ring && !W->rings[W->posts[W->by_id[b.id]].ring].shared) {
			int ca = a.ts >= 2000000000000ULL ? 2 : a.ts >= 1000000000000ULL ? 1 : 0, cb = b.ts >= 2000000000000ULL ? 2 : b.ts >= 1000000000000ULL ? 1 : 0;
			if (ca == cb && (a.seq < b.seq) != (a.ts < b.ts)) oracle("C14", "timesource:notice-time", "the switch notice with sequence number %llu of ring %s carries timestamp %llu, record %llu of the ring %llu", (unsigned long long) a.seq, a.ring.c_str(), (unsigned long long) a.ts, (unsigned long long) b.seq, (unsigned long long) b.ts); } }
		// position of the notice among the records of its own ring
		std::map<std::string, int> cnt; for (auto &x : st->inst) cnt[W->rings[x.second].name]++;
		for (size_t i = 0; i < W->obs.size(); i++) if (W->obs[i].kind == OB_TSWITCH && cnt[W->obs[i].ring] == 1) for (size_t j = 0; j < W->obs.size(); j++) if (W->obs[j].kind == OB_REC && W->obs[j].ring == W->obs[i].ring && (W->obs[j].seq < W->obs[i].seq) != (j < i)) oracle("C14", "timesource:notice-place", "the switch notice of ring %s (seq %llu) is on the wrong side of record seq %llu", W->obs[i].ring.c_str(), (unsigned long long) W->obs[i].seq, (unsigned long long) W->obs[j].seq);
	}
	if (W->obs.size()) probe("records output");
}
const Scenario sc = { "reg", "C11 C12 C13 C14", generate, run, 0 };
Registrar reg_(&sc);
}
