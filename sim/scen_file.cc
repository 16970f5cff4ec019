// hogl::output_file on the simulated file system: one writer, the real rotation helper, name switches, failing opens and
// header writes, process crashes and restarts. Serves C17, C18, C19.
#include "hog.h"
#include "hogl/output-file.hpp"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_REC = 1, OP_FLUSH, OP_SLEEP, OP_SWITCH, OP_YIELD };
typedef std::string Str;

// where a relative name is, seen from the working directory, and what a link leads to
Str abspath(const Str &p) { return p.compare(0, 3, "rel") ? p : "/sim/cwd/" + p; }
Str link_path(const Str &l) { Str t = vfs::link_target(l); return t.empty() || t[0] == '/' ? t : l.substr(0, l.rfind('/') + 1) + t; }
struct Name { Str spec, pref, sufx, stable; unsigned width; };
Name parse_name(const Str &s, unsigned maxc)
{
	Name n; n.spec = s; size_t h = s.find('#');
	if (h == s.npos) { n.pref = s + "."; n.stable = s; }
	else { n.pref = s.substr(0, h); n.sufx = s.substr(h + 1); size_t k = h; if (h > 0 && !n.sufx.empty() && s[h - 1] == n.sufx[0]) k--; n.stable = s.substr(0, k) + n.sufx; }
	n.pref = abspath(n.pref); n.stable = abspath(n.stable);
	n.width = 1; for (unsigned s = 10; s < maxc; s *= 10) n.width++;
	return n;
}
Str chunk(const Name &n, unsigned i) { char b[16]; snprintf(b, sizeof b, "%0*u", (int) n.width, i); return n.pref + b + n.sufx; }
int chunk_index(const Name &n, const Str &p, unsigned maxc)
{
	if (p.size() <= n.pref.size() + n.sufx.size() || p.compare(0, n.pref.size(), n.pref) || p.compare(p.size() - n.sufx.size(), Str::npos, n.sufx)) return -1;
	Str d = p.substr(n.pref.size(), p.size() - n.pref.size() - n.sufx.size());
	for (char c : d) if (c < '0' || c > '9') return -1;
	unsigned i = atoi(d.c_str()); return i < maxc && chunk(n, i) == p ? (int) i : -1;
}

// number of a chunk that was written with another max_count
int other_width(const Name &n, const Str &p)
{
	if (p.size() <= n.pref.size() + n.sufx.size() || p.compare(0, n.pref.size(), n.pref) || p.compare(p.size() - n.sufx.size(), Str::npos, n.sufx)) return -1;
	Str d = p.substr(n.pref.size(), p.size() - n.pref.size() - n.sufx.size());
	if (d.size() > 8) return -1;
	for (char c : d) if (c < '0' || c > '9') return -1;
	return atoi(d.c_str());
}

const char *const specs[] = { "/sim/log/app.#.log", "/sim/log/app#log", "/sim/log/app-#", "/sim/log/app", "/sim/alt/other.#.log", "/sim/log/third.#.txt", "/sim/late/x.#.log",
	"/sim/log/r#5", "/sim/log/#.log", "relapp.#.log", "reldir/app.#.log", "relsub/d/app" };
enum { LATE = 6 };

struct Parsed { bool hdr; bool first; Str name; Str body; bool ftr; Str next; bool clean; Str why; };
struct S {
	unsigned maxc; size_t maxsz; int hdrpad; int pieces;
	std::vector<Name> names;
	Str fed; size_t flushed;                // bytes given to the output in this session, bytes covered by a finished flush
	hogl::output_file *of; hogl::format *fmt; u64 gen0; int writer_fib;
	bool ctor_done; bool crash_sess; bool faulty;
	std::vector<std::pair<u64, int> > switches; // event at start, name
	int cur_name; int last_switch; bool switch_open;
	std::map<Str, bool> stable_seen;
	u64 nops; u64 vfs_events, crash_vfs; bool checking;
	std::vector<std::pair<u64, Str> > pre;    // existing before
	std::vector<u64> prog;
};
S *st;

struct Fmt : public hogl::format {
	Str rec; int pieces;
	virtual void process(hogl::ostrbuf &s, const data &)
	{
		size_t n = rec.size(), o = 0; int k = pieces < 1 ? 1 : pieces;
		for (int i = 0; i < k; i++) { size_t e = i == k - 1 ? n : std::min(n, o + n / k); s.push_back((const uint8_t *) rec.data() + o, e - o); o = e; }
	}
	virtual void header(hogl::ostrbuf &s, const char *n, bool first)
	{
		s.push_back(first ? "\001H1" : "\001H0"); s.push_back(n, strlen(n)); s.push_back("|");
		Str pad(st->hdrpad, 'h'); if (!pad.empty()) s.push_back(pad.data(), pad.size()); s.push_back("\002");
	}
	virtual void footer(hogl::ostrbuf &s, const char *n) { s.push_back("\001F"); s.push_back(n ? n : "-"); s.push_back("\002"); }
};

Parsed parse(const Str &d)
{
	Parsed p; p.hdr = p.ftr = p.first = false; p.clean = true;
	if (d.size() < 3 || d[0] != 1 || d[1] != 'H') { if (d.size() >= 3) { p.clean = false; p.why = "does not start with a header"; p.body = d; } return p; }
	size_t e = d.find('\002'), b = d.find('|');
	if (e == d.npos) { if (d.find('\001', 1) != d.npos) { p.clean = false; p.why = "broken header"; } return p; }
	if (b == d.npos || b > e) { p.clean = false; p.why = "broken header"; return p; }
	p.hdr = true; p.first = d[2] == '1'; p.name = abspath(d.substr(3, b - 3));
	if (d.substr(b + 1, e - b - 1) != Str(st->hdrpad, 'h')) { p.clean = false; p.why = "damaged header"; }
	size_t f = d.find('\001', e + 1);
	if (f == d.npos) { p.body = d.substr(e + 1); return p; }
	p.body = d.substr(e + 1, f - e - 1);
	size_t fe = d.find('\002', f);
	if (f + 1 < d.size() && d[f + 1] == 'H') { p.clean = false; p.why = "a second header"; return p; }
	if (fe == d.npos) { p.next = d.substr(f); return p; }            // partial footer
	p.ftr = true; p.next = abspath(d.substr(f + 2, fe - f - 2));
	if (fe + 1 != d.size()) { p.clean = false; p.why = "bytes after the footer"; }
	return p;
}

// which of our names (if any) a path belongs to
int name_of(const Str &path, int *idx = 0) { for (size_t i = 0; i < st->names.size(); i++) { int x = chunk_index(st->names[i], path, st->maxc); if (x >= 0) { if (idx) *idx = x; return i; } } return -1; }

std::vector<u64> chunks_since(u64 g0) { std::vector<u64> v; for (u64 i : vfs::inodes()) if (i > g0 && name_of(vfs::inode_name_at_creation(i)) >= 0) v.push_back(i); return v; }

// paths the stable name of names[n] may point to right now
bool link_ok(int n, Str &target, Str &want)
{
	const Name &N = st->names[n];
	target = link_path(N.stable);
	std::vector<u64> all = vfs::inodes(); std::vector<Str> ok; int k = 0;
	for (size_t i = all.size(); i-- > 0;) {
		Str p = vfs::inode_name_at_creation(all[i]); int ix; if (name_of(p, &ix) != n) continue;
		ok.push_back(p);
		if (k++) { Parsed q = parse(vfs::inode_data(all[i])); bool pre = false; for (auto &x : st->pre) pre |= x.first == all[i]; if (pre || (q.hdr && !q.body.empty())) break; }
	}
	for (auto &p : ok) want += " " + p;
	for (auto &p : ok) if (p == target) { Str o; return vfs::exists(target) && vfs::resolve(N.stable, o) && o == target; }
	return false;
}

void on_change(const char *what, const Str &path)
{
	if (!st || !st->checking) return;
	if (st->crash_vfs && ++st->vfs_events == st->crash_vfs) { probe("crash at a file operation"); crash_soon(); }
	for (size_t n = 0; n < st->names.size(); n++) {
		const Name &N = st->names[n];
		if (path == N.stable && !strcmp(what, "rename") && !vfs::link_target(N.stable).empty()) st->stable_seen[N.stable] = true;
		if (!st->stable_seen.count(N.stable)) continue;
		if (!strcmp(what, "write") || !strcmp(what, "close")) continue;
		Str t, w;
		if (!vfs::exists(N.stable)) oracle("C18", "link:missing", "the stable name %s does not exist for a moment (after %s %s)", N.stable.c_str(), what, path.c_str());
		else if (!link_ok(n, t, w)) oracle("C18", "link:stale", "the stable name %s points to '%s' after %s %s; allowed:%s", N.stable.c_str(), t.c_str(), what, path.c_str(), w.c_str());
	}
}

void generate(Plan &p, Rng &r)
{
	bool C17 = p.prop == "C17", C18 = p.prop == "C18", C19 = p.prop == "C19";
	static const int szs[] = { 1, 20, 60, 60, 150, 150, 400, 1000, 3000 }, caps[] = { 0, 1, 16, 64, 64, 200, 1024, 8192 }, cnts[] = { 2, 2, 3, 3, 4, 10, 11, 101 }, pads[] = { 0, 0, 0, 40, 110, 150, 300 };
	p.set("max_size", r.pick(szs)); p.set("cap", r.pick(caps)); p.set("count", r.pick(cnts)); p.set("pad", r.pick(pads));
	{ u64 nm = r.chance(1, 2) ? 0 : r.below(9); p.set("name", nm < 4 ? nm : nm + 3); }
	p.set("pre", r.chance(1, 3) ? 1 + r.below(7) : 0); p.set("pre_i", r.below(200)); p.set("pre_n", 1 + r.below(4));
	int nsess = 1; if ((C18 && r.chance(2, 3)) || r.chance(1, 5)) nsess = 2 + r.below(2);
	p.set("nsess", nsess);
	for (int s = 0; s < nsess; s++) { char b[16]; snprintf(b, sizeof b, "crash%d", s); p.set(b, s + 1 < nsess && r.chance(3, 4) ? (r.chance(1, 2) ? 1 : 2) : (C18 || C17) && s + 1 == nsess && r.chance(1, 6) ? 1 + r.below(2) : 0); snprintf(b, sizeof b, "crashn%d", s); i64 c = p.k((std::string("crash") + char('0' + s)).c_str()); p.set(b, c == 1 ? 1 + r.below(1 << (2 + r.below(6))) : 50 + r.below(200 << r.below(7))); }
	bool sw = r.chance(1, 2); int pending = -1;
	for (int s = 0; s < nsess; s++) {
		int n = 3 + r.below(r.chance(1, 6) ? 120 : 30);
		for (int i = 0; i < n; i++) {
			u64 x = r.below(100);
			if (x < 60) { static const int rs[] = { 1, 5, 10, 10, 30, 30, 80, 200, 700 }; p.op(0, OP_REC, s, r.pick(rs), 1 + r.below(3), r.chance(1, 2)); }
			else if (x < 72) p.op(0, OP_FLUSH, s);
			else if (x < 84) { static const int us[] = { 1, 10, 50, 100, 1000, 20000 }; p.op(0, OP_SLEEP, s, r.pick(us)); }
			else if (x < 88) p.op(0, OP_YIELD, s);
			else if (sw) {
				static const int us[] = { 1, 10, 50, 100, 1000, 20000 };
				p.op(1, OP_SLEEP, s, r.pick(us));
				int nm = r.chance(1, 3) ? (int) p.k("name") : 4 + (int) r.below(C19 ? 3 : 2); pending = nm;
				p.op(1, OP_SWITCH, s, nm);
			}
		}
	}
	(void) pending;
	if (r.chance(1, 2)) { p.set("f.short_write", 20000 << r.below(4)); p.set("f.eintr", 20000 << r.below(4)); }
	if (r.chance(1, 3)) p.set("f.slow_io", 20000 << r.below(3));
	if (r.chance(1, 3)) p.set("f.spurious_wakeup", 100000);
	if (r.chance(1, 4)) p.set("f.fsync", 200000);
	if (C19) {
		int m = 1 + r.below(3);
		if (m & 1) p.set("f.open", 100000 << r.below(4));
		if (m & 2) { p.set("f.write_error", 100000 << r.below(4)); }
		if (r.chance(1, 4)) p.set("werr_footer", 1);
	}
	p.set("max_s", 3000);
}

void session(const Plan &p, int s)
{
	char b[16]; snprintf(b, sizeof b, "crash%d", s); int ck = p.k(b); snprintf(b, sizeof b, "crashn%d", s); u64 cn = p.k(b);
	bool C19 = p.prop == "C19";
	std::vector<u64> all = vfs::inodes(); st->gen0 = all.empty() ? 0 : all.back();
	st->fed.clear(); st->flushed = 0; st->of = 0; st->ctor_done = false; st->crash_sess = false; st->switches.clear(); st->cur_name = p.k("name"); st->last_switch = -1;
	st->crash_vfs = ck == 1 ? cn : 0; st->vfs_events = 0; 
	st->prog.assign(2, 0);
	const Name &N0 = st->names[st->cur_name];
	// what a restart must not touch and where it must continue
	std::vector<int> cont; bool have = false, badlink = false; Str newest; u64 newest_gen = 0;
	{
		Str t = link_path(N0.stable); int ix;
		if (!t.empty() && (ix = chunk_index(N0, t, st->maxc)) >= 0) { cont.push_back((ix + 1) % st->maxc); have = true; }
		else if ((ix = other_width(N0, t)) >= 0) { cont.push_back(ix < (int) st->maxc ? (ix + 1) % st->maxc : 0); have = true; probe("restart with another max_count"); }
		else badlink = !t.empty();
		for (size_t i = all.size(); i-- > 0;) {
			Str q = vfs::inode_name_at_creation(all[i]); if (name_of(q, &ix) != st->cur_name) continue;
			bool pre = false; for (auto &x : st->pre) pre |= x.first == all[i];
			if (!pre && !parse(vfs::inode_data(all[i])).body.empty()) { newest = q; newest_gen = all[i]; break; }
			if (q == t) break;               // the link leads to this one or a later one
		}
	}
	hogl::output_file::options o = hogl::output_file::default_options;
	o.max_size = st->maxsz; o.max_count = st->maxc; o.buffer_capacity = p.k("cap"); o.perms = 0644; o.schedparam = 0;
	if (ck == 2) { crash_after(cn); }
	std::vector<Op> o0, o1; for (auto &x : p.ops) if (x.a == s) (x.thr == 0 ? o0 : o1).push_back(x);
	Fmt *F = new Fmt; F->pieces = 1; st->fmt = F;
	bool ctor_fail = false, *cf = &ctor_fail;
	enable_faults(false);
	st->checking = true;
	int wf = spawn("writer", [=, &N0] {
		op_begin(10000 + s);
		try { Sut q; st->of = new hogl::output_file(N0.spec.c_str(), *F, o); } catch (std::exception &) { *cf = true; }
		if (*cf) { st->ctor_done = true; return; }
		enable_faults(true);
		st->ctor_done = true;
		hogl::format::data d; memset(&d, 0, sizeof d);
		for (auto &x : o0) {
			op_begin(x.id); st->prog[0]++;
			switch (x.kind) {
			case OP_REC: {
				char h[32]; snprintf(h, sizeof h, "<%d.%d.%zu:", s, x.id, st->fed.size()); Str rec = h; while ((i64) rec.size() < x.b) rec += (char)('a' + rec.size() % 26); rec += ">";
				st->fed += rec; F->rec = rec; F->pieces = x.c;
				SUT((st->of->process(d), 0));
				if (x.d) { SUT((st->of->flush(), 0)); st->flushed = st->fed.size(); }
				break; }
			case OP_FLUSH: SUT((st->of->flush(), 0)); st->flushed = st->fed.size(); break;
			case OP_SLEEP: sleep_ns(x.b * 1000); break;
			case OP_YIELD: yield_point(); break;
			}
			if (st->of->failed()) oracle("C19 C17", "file:failed", "the output reports failure (%s) although no write of the writer failed", st->of->error());
		}
	});
	st->writer_fib = wf;
	int sf = -1;
	if (!o1.empty()) sf = spawn("switcher", [=] {
		op_begin(20000 + s);
		wait_until([] { return st->ctor_done; }, 100000000000LL, 10000);
		if (!st->of) return;
		for (auto &x : o1) {
			op_begin(x.id); st->prog[1]++;
			if (x.kind == OP_SLEEP) sleep_ns(x.b * 1000);
			else if (x.kind == OP_SWITCH) { st->switches.push_back(std::make_pair(event(), (int) x.b)); st->last_switch = x.b; SUT(st->of->switch_name(st->names[x.b].spec.c_str())); probe("name switch"); }
		}
	});
	auto wait = [&](int f, const char *n) { for (u64 seen = ~0ULL; !join(f, 60000000000LL);) { if (crashed()) return false; u64 x = st->prog[0] + st->prog[1]; if (x != seen) { seen = x; continue; } oracle("C17 C18 C19", "file:hang", "%s does not finish: %s", n, where(f).c_str()); violate("hang:thread", "%s does not finish: %s", n, where(f).c_str()); } return !crashed(); };
	bool alive = wait(wf, "the writer"); if (alive && sf >= 0) alive = wait(sf, "switch_name");
	if (alive && ctor_fail) violate("setup", "output_file constructor failed");
	if (crashed()) alive = false;
	if (alive) {
		// faults stop; writing goes on; rotation that is due must happen
		enable_faults(false);
		if (!vfs::exists("/sim/late")) vfs::make_dir("/sim/late");
		sleep_ns(300000000);            // a helper busy with the old chunk looks at its state when it is done
		for (int round = 0; alive && !crashed() && round < 4; round++) {
			int lf = spawn("tail-writer", [=] {
				op_begin(30000 + s * 10 + round);
				char h[32]; snprintf(h, sizeof h, "<tail%d.%d>", s, round); Str rec = h; hogl::format::data d; memset(&d, 0, sizeof d);
				st->fed += rec; F->rec = rec; F->pieces = 1; SUT((st->of->process(d), 0)); SUT((st->of->flush(), 0)); st->flushed = st->fed.size();
			});
			u64 g0 = chunks_since(st->gen0).back(), g_now = g0; size_t body0 = parse(vfs::inode_data(g0)).body.size();
			if (!wait(lf, "the writer")) { alive = false; break; }
			// after this write the chunk that was current before it is over its limit, or a switch is outstanding: wait for rotation
			Parsed q = parse(vfs::inode_data(g0)); (void) body0;
			bool due = q.hdr && q.body.size() >= st->maxsz && !q.ftr;
			if (st->last_switch >= 0 && round >= 1) { int ix; if (name_of(vfs::inode_name_at_creation(chunks_since(st->gen0).back()), &ix) != st->last_switch) due = true; }
			bool ok = wait_until([&] { g_now = chunks_since(st->gen0).back(); return due && g_now != g0; }, due ? 20000000000LL : 100000000LL, 1000000);
			if (crashed()) { alive = false; break; }
			if (due && !ok) oracle("C18 C19", "rotate:lost", "chunk %s holds %zu bytes, the limit is %zu%s, writing continues and no fault is active, but it is not rotated", vfs::inode_name_at_creation(g0).c_str(), q.body.size(), st->maxsz, st->last_switch >= 0 ? " (or a name switch is outstanding)" : "");
			// let the helper finish its work on the old chunk
			sleep_ns(200000000);
		}
		if (crashed()) alive = false;
		if (alive) {
			u64 gl = chunks_since(st->gen0).back(); int ix, nm = name_of(vfs::inode_name_at_creation(gl), &ix);
			if (st->last_switch >= 0 && nm != st->last_switch) oracle("C18 C19", "switch:lost", "switch_name(%s) returned, writing continued, but the output is still %s", st->names[st->last_switch].spec.c_str(), vfs::inode_name_at_creation(gl).c_str());
			Str o; if (!vfs::resolve(st->names[nm].stable, o) || o != vfs::inode_name_at_creation(gl)) oracle("C18", "link:old", "writing goes to %s, the stable name %s leads to %s", vfs::inode_name_at_creation(gl).c_str(), st->names[nm].stable.c_str(), vfs::link_target(st->names[nm].stable).c_str());
			int fd = vfs::open_fds(); if (fd != 1) oracle("C17 C19", "file:fd-leak", "%d file descriptors are open while one chunk is being written", fd);
			if (st->crash_vfs || ck == 2) probe("crash point not reached");
		}
		if (crashed()) alive = false;
		if (alive) {
			enable_faults(true);
			int df = spawn("destroyer", [=] { op_begin(40000 + s); SUT((delete st->of, 0)); });
			if (!wait(df, "the destructor")) alive = false;
			enable_faults(false);
		}
	}
	st->checking = false; 
	if (crashed()) { st->crash_sess = true; crash_clear(); probe("crash"); crash_after(0); vfs::close_all(); }
	else { crash_after(0); if (vfs::open_fds()) oracle("C17 C19", "file:fd-leak", "%d file descriptors left open", vfs::open_fds()); if (vfs::bad_closes()) oracle("C17 C19", "file:double-close", "a descriptor that was not open was closed"); if (sut_threads()) oracle("C17", "file:thread-leak", "the rotation helper is still running"); }
	enable_faults(false);

	// ---- the chunks of this session ----
	std::vector<u64> gens = chunks_since(st->gen0); Str cat; int prevok = -1; size_t nsucc = 0; size_t early = 0;
	bool hdr_faults = fault_count(F_OPEN) + fault_count(F_WERR) > 0;
	std::vector<u64> good; std::vector<Parsed> gp;
	for (size_t i = 0; i < gens.size(); i++) {
		Parsed q = parse(vfs::inode_data(gens[i])); Str path = vfs::inode_name_at_creation(gens[i]);
		if (!q.hdr && q.clean && q.body.empty()) {
			if (!(hdr_faults || st->crash_sess)) oracle("C17", "chunk:no-header", "chunk %s has no header", path.c_str());
			if (i + 1 == gens.size() && !st->crash_sess) oracle("C17 C19", "chunk:no-header", "the last chunk %s has no header", path.c_str());
			probe("failed rotation left an empty chunk"); continue;
		}
		if (!q.clean) oracle("C17 C19", "chunk:malformed", "chunk %s is malformed: %s", path.c_str(), q.why.c_str());
		good.push_back(gens[i]); gp.push_back(q);
	}
	for (size_t i = 0; i < good.size(); i++) {
		Parsed &q = gp[i]; Str path = vfs::inode_name_at_creation(good[i]); bool last = i + 1 == good.size();
		if (q.name != path) oracle("C17", "header:name", "the header of chunk %s says %s", path.c_str(), q.name.c_str());
		if (q.first != (i == 0)) oracle("C17", "header:first", "the header of chunk %s (number %zu) has first=%d", path.c_str(), i, (int) q.first);
		if (!(C19 && p.k("werr_footer")) && !st->crash_sess) {
			if (!q.ftr) oracle("C17 C19", "footer:missing", "chunk %s has no footer", path.c_str());
			Str want = last ? Str("-") : vfs::inode_name_at_creation(good[i + 1]);
			if (q.next != want) oracle("C17 C18", "footer:next", "the footer of chunk %s names %s as its successor, it is %s", path.c_str(), q.next.c_str(), want.c_str());
		} else if (q.ftr && !last && q.next != vfs::inode_name_at_creation(good[i + 1])) oracle("C17 C18", "footer:next", "the footer of chunk %s names %s as its successor", path.c_str(), q.next.c_str());
		if (st->crash_sess && i + 2 < good.size() && !q.ftr) oracle("C17", "footer:missing", "chunk %s has no footer", path.c_str());
		cat += q.body;
		size_t hl = vfs::inode_data(good[i]).find('\002') + 1;
		if (!last && q.body.size() + (i == 0 ? hl : 0) < st->maxsz) early++;
	}
	if (early > st->switches.size()) oracle("C18", "rotate:early", "%zu chunks were rotated below the size limit of %zu bytes although there were only %zu name switches", early, st->maxsz, st->switches.size());
	if (good.size() > 1) probe("rotated"); if (good.size() > st->maxc) probe("numbering wrapped");
	if (!st->crash_sess) {
		if (cat != st->fed) { size_t k = 0; while (k < cat.size() && k < st->fed.size() && cat[k] == st->fed[k]) k++; oracle("C17 C19", "stream:content", "the chunks contain %zu bytes, %zu were written; first difference at byte %zu: '%s' instead of '%s'", cat.size(), st->fed.size(), k, cat.substr(k, 40).c_str(), st->fed.substr(k, 40).c_str()); }
	} else {
		if (cat.size() > st->fed.size() || st->fed.compare(0, cat.size(), cat)) { size_t k = 0; while (k < cat.size() && k < st->fed.size() && cat[k] == st->fed[k]) k++; oracle("C17", "stream:content", "after the crash the chunks differ from what was written at byte %zu: '%s' instead of '%s'", k, cat.substr(k, 40).c_str(), st->fed.substr(k, 40).c_str()); }
		if (cat.size() < st->flushed) oracle("C17", "stream:lost", "after the crash %zu bytes are in the files, %zu had been flushed", cat.size(), st->flushed);
	}
	// numbering
	for (size_t i = 0; i < gens.size(); i++) {
		Str path = vfs::inode_name_at_creation(gens[i]); int ix, nm = name_of(path, &ix); u64 cr = vfs::inode_created(gens[i]);
		if (i == 0) {
			if (nm != st->cur_name) oracle("C18", "number:name", "the first chunk is %s", path.c_str());
			bool ok = false; for (int c : cont) ok |= c == ix; if (!have && (ix == 0 || badlink)) ok = true;
			Str ws; char b[16]; for (int c : cont) { snprintf(b, sizeof b, " %d", c); ws += b; }
			if (newest_gen && path == newest) oracle("C18", "restart:overwrites-newest", "a restart overwrote the newest chunk %s", path.c_str());
			if (!ok) oracle("C18", "restart:number", "a restart began with chunk %s, numbering should go on with%s", path.c_str(), ws.c_str());
			continue;
		}
		bool switched = false; for (auto &x : st->switches) switched |= x.first < cr && x.second == nm;
		// last chunk of the same name that was really used before this one
		int lastix = -1; bool pre_ok = false;
		for (size_t k = 0; k < good.size(); k++) { int jx; if (good[k] < gens[i] && name_of(vfs::inode_name_at_creation(good[k]), &jx) == nm) lastix = jx; }
		if (lastix < 0) { for (u64 a : all) { int jx; if (name_of(vfs::inode_name_at_creation(a), &jx) == nm && ix == (int)((jx + 1) % st->maxc)) pre_ok = true; } if (ix == 0) pre_ok = true; if (!switched) oracle("C18", "number:name", "chunk %s was created, nobody asked for that name", path.c_str()); }
		else pre_ok = ix == (int)((lastix + 1) % st->maxc);
		if (!pre_ok) oracle("C18 C19", "number:order", "chunk %s was opened, the last one of that name was number %d of %u", path.c_str(), lastix, st->maxc);
	}
	(void) prevok; (void) nsucc;
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S;
	st->maxc = std::max<i64>(2, p.k("count", 3)); st->maxsz = p.k("max_size", 100); st->hdrpad = p.k("pad"); st->checking = false; st->crash_vfs = 0; st->vfs_events = 0; st->faulty = false;
	for (auto s : specs) st->names.push_back(parse_name(s, st->maxc));
	vfs::on_change(on_change);
	const Name &N = st->names[p.k("name")]; int pre = p.k("pre"), pi = p.k("pre_i") % st->maxc, pn = p.k("pre_n");
	auto mk = [&](unsigned i) { vfs::write_file(chunk(N, i), "old chunk\n"); st->pre.push_back(std::make_pair(vfs::inode_of(chunk(N, i)), chunk(N, i))); };
	if (pre == 1) { for (int i = std::min<int>(pn, st->maxc) - 1; i >= 0; i--) mk((pi + st->maxc - i) % st->maxc); symlink(chunk(N, pi).substr(N.spec[0] == '/' ? 0 : N.stable.rfind('/') + 1).c_str(), N.stable.c_str()); st->stable_seen[N.stable] = true; }
	if (pre == 2) vfs::write_file(N.stable, "not ours");
	if (pre == 3) { vfs::write_file("/sim/log/elsewhere", "x"); symlink("/sim/log/elsewhere", N.stable.c_str()); }
	if (pre == 4) symlink((N.pref + "junk" + N.sufx).c_str(), N.stable.c_str());
	if (pre == 5) { symlink("/sim/log/stale", (N.stable + "$").c_str()); }
	if (pre == 6) { symlink((N.pref + "99999" + N.sufx).c_str(), N.stable.c_str()); }
	if (pre == 7) { Name o = N; o.width += pn; if (pn == 4) o.width = 1; vfs::write_file(chunk(o, pi), "chunk of a run with another max_count"); symlink(chunk(o, pi).substr(N.spec[0] == '/' ? 0 : N.stable.rfind('/') + 1).c_str(), N.stable.c_str()); }
	bool wf = p.k("werr_footer");
	vfs::fault_ok = [wf](int kind, const Str &path) {
		int ix; if (kind == F_OPEN) return name_of(path, &ix) >= 0;
		if (kind != F_WERR) return true;
		if (self() == st->writer_fib || fiber_name(self())[0] == 't' || fiber_name(self())[0] == 'd') return false;        // data writes are not C19's subject
		return wf || path == Str() || vfs::inode_data(vfs::inode_of(path)).find('\002') == Str::npos;    // headers only, unless footers too
	};
	for (int s = 0; s < p.k("nsess", 1); s++) session(p, s);
	vfs::on_change(0);
}
const Scenario sc = { "file", "C17 C18 C19", generate, run, 0 };
Registrar reg_(&sc);
}
