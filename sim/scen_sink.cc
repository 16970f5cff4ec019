// hogl's outputs (file, plain file, stdout, stderr, pipe, descriptor, tee) on simulated files with short, interrupted,
// failing and slow writes and full disks; driven directly or by a real engine with posting threads. Serves C20, C21.
#include "hog.h"
#include "hogl/output-file.hpp"
#include "hogl/output-plainfile.hpp"
#include "hogl/output-stdout.hpp"
#include "hogl/output-stderr.hpp"
#include "hogl/output-pipe.hpp"
#include "hogl/output-tee.hpp"
#include "hogl/detail/ostrbuf-fd.hpp"
#include "hogl/flush.hpp"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
using namespace sim;

namespace {
enum { OP_REC = 1, OP_FLUSH, OP_SLEEP, OP_YIELD, OP_POST };
typedef std::string Str;
enum { K_FILE, K_PLAIN, K_STDOUT, K_STDERR, K_PIPE, K_FD, K_N };
const char *const kname[] = { "output_file", "output_plainfile", "output_stdout", "output_stderr", "output_pipe", "ostrbuf_fd" };

struct Fmt : public hogl::format {
	Str fed; int pieces, pad; Str rec; bool engine;
	virtual void process(hogl::ostrbuf &s, const data &d)
	{
		Str r;
		if (engine) {
			Quiet q; char b[96]; snprintf(b, sizeof b, "<%s:%llu:%s", d.ring_name, (unsigned long long) d.record->seqnum, d.record->area ? d.record->area->name() : "-"); r = b;
			size_t n = mix(d.record->seqnum, pad) % 4 ? pad / 8 : pad; for (size_t i = 0; i < n; i++) r += (char)('a' + mix(d.record->seqnum * 100 + d.ring_name[1], i) % 26); r += ">\n";
		} else { Quiet q; r = rec; }
		{ Quiet q; fed += r; }
		size_t n = r.size(), o = 0; int k = pieces < 1 ? 1 : pieces;
		for (int i = 0; i < k; i++) { size_t e = i == k - 1 ? n : std::min(n, o + n / k); s.push_back((const uint8_t *) r.data() + o, e - o); o = e; }
	}
	virtual void header(hogl::ostrbuf &s, const char *, bool) { s.push_back("\001H\002"); }
	virtual void footer(hogl::ostrbuf &s, const char *) { s.push_back("\001F\002"); }
};
struct FdOutput : public hogl::output {
	int fd; FdOutput(int f, hogl::format &fm, unsigned cap) : hogl::output(fm), fd(f) { init(new hogl::ostrbuf_fd(f, hogl::ostrbuf_fd::CLOSE_ON_DELETE, cap)); header("fd"); }
	virtual ~FdOutput() { footer(); }
};

struct Branch { int kind; hogl::output *o; Fmt *f; Str path; bool may_fail; u64 gen0; i64 maxsz; u64 fail_size; bool failed; };
struct S { std::vector<Branch> br; hogl::output *top; Fmt *f; std::vector<u64> prog; bool any_err; bool dead_post; };
S *st;

Str content(const Branch &b)            // everything written, in creation order of the chunks
{
	Str r; for (u64 i : vfs::inodes()) if (i > b.gen0) { Str p = vfs::inode_name_at_creation(i); if (p.compare(0, b.path.size(), b.path) == 0) r += vfs::inode_data(i); }
	if (b.kind == K_STDOUT || b.kind == K_STDERR) vfs::read_file(b.path, r);
	return r;
}
// headers and footers taken out; ok=false if they are malformed
Str strip(const Str &c, int &heads, int &feet)
{
	Str r; heads = feet = 0;
	for (size_t i = 0; i < c.size(); i++) {
		if (c[i] != 1) { r += c[i]; continue; }
		// a header or footer, possibly cut short by an error
		if (i + 1 < c.size() && (c[i + 1] == 'H' || c[i + 1] == 'F')) { i++; if (i + 1 < c.size() && c[i + 1] == 2) { i++; if (c[i - 1] == 'H') heads++; else feet++; } }
	}
	return r;
}

void generate(Plan &p, Rng &r)
{
	bool C21 = p.prop == "C21";
	static const int caps[] = { 0, 1, 3, 7, 16, 64, 64, 200, 1024, 4096, 8192 };
	p.set("tee", C21); p.set("engine", r.chance(C21 ? 1 : 1, 3));
	p.set("k0", r.below(K_N)); int k1 = r.below(K_N); p.set("k1", k1);
	if (C21 && (k1 == K_STDOUT || k1 == K_STDERR) && k1 == p.k("k0")) p.set("k1", K_PLAIN);
	p.set("cap0", r.pick(caps)); p.set("cap1", r.pick(caps)); p.set("capt", r.pick(caps));
	p.set("max0", r.chance(1, 3) ? 50 << r.below(6) : 100000000); p.set("max1", r.chance(1, 3) ? 50 << r.below(6) : 100000000);
	int mode = r.below(4);                       // 0 benign, 1 hard error, 2 full disk, 3 error on one call then fine
	if (C21) mode = r.below(3) == 0 ? 0 : 1; 
	p.set("mode", mode); p.set("victim", r.below(2));
	if (mode == 0 || r.chance(2, 3)) { p.set("f.short_write", 20000 << r.below(5)); p.set("f.eintr", 20000 << r.below(5)); }
	if (mode == 1) p.set("f.write_error", 5000 << r.below(7));
	if (mode == 2) p.set("disk", 20 + r.below(40 << r.below(8)));
	if (mode == 3) p.set("f.write_error", 20000);
	if (r.chance(1, 3)) p.set("f.slow_io", 20000 << r.below(4));
	static const int pads[] = { 0, 3, 20, 60, 200, 1000, 5000 };
	p.set("pad", r.pick(pads)); p.set("pieces", 1 + r.below(3));
	int n = 5 + r.below(r.chance(1, 5) ? 150 : 40);
	if (p.k("engine")) {
		int nthr = 1 + r.below(2); p.set("nthr", nthr); p.set("rcap", 4 << r.below(5)); p.set("poll", 1000 << r.below(4)); p.set("tso", r.chance(1, 2) ? 4 << r.below(8) : -1);
		for (int i = 0; i < n; i++) { u64 x = r.below(100); int t = r.below(nthr); if (x < 70) p.op(t, OP_POST, 0, 1 + r.below(4), 0, r.below(8)); else if (x < 80) p.op(t, OP_FLUSH); else p.op(t, OP_SLEEP, 10 << r.below(10)); }
	} else for (int i = 0; i < n; i++) {
		u64 x = r.below(100); static const int rs[] = { 0, 1, 5, 10, 10, 30, 30, 80, 200, 700, 5000 };
		if (x < 70) p.op(0, OP_REC, 0, r.pick(rs), 1 + r.below(3)); else if (x < 88) p.op(0, OP_FLUSH); else p.op(0, OP_SLEEP, 1 << r.below(14));
	}
	p.set("max_s", 3000);
}

hogl::output *make(int kind, const Str &path, Fmt &f, unsigned cap, i64 maxsz)
{
	switch (kind) {
	case K_FILE: { hogl::output_file::options o = hogl::output_file::default_options; o.max_size = maxsz; o.max_count = 1000; o.buffer_capacity = cap; o.schedparam = 0; return SUT(new hogl::output_file((path + ".#").c_str(), f, o)); }
	case K_PLAIN: return SUT(new hogl::output_plainfile(path.c_str(), f, cap));
	case K_STDOUT: return SUT(new hogl::output_stdout(f, cap));
	case K_STDERR: return SUT(new hogl::output_stderr(f, cap));
	case K_PIPE: return SUT(new hogl::output_pipe("cat", f, cap));
	default: { int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644); return SUT(new FdOutput(fd, f, cap)); }
	}
}

void run(const Plan &p)
{
	g_prop = p.prop; W = new World; st = new S; st->any_err = false; st->prog.assign(8, 0); W->engs.resize(1); Eng &E = W->engs[0];
	bool tee = p.k("tee"), eng = p.k("engine"); int mode = p.k("mode"), victim = tee ? p.k("victim") : 0;
	Fmt *F = new Fmt; F->engine = eng; F->pieces = p.k("pieces", 1); F->pad = p.k("pad"); st->f = F;
	int npipe = 0;
	for (int i = 0; i < (tee ? 2 : 1); i++) {
		char b[32]; Branch B; snprintf(b, sizeof b, "k%d", i); B.kind = p.k(b); snprintf(b, sizeof b, "/sim/%s/out%d", i ? "alt" : "log", i); B.path = b;
		if (B.kind == K_STDOUT) B.path = "/sim/dev/stdout"; if (B.kind == K_STDERR) B.path = "/sim/dev/stderr"; if (B.kind == K_PIPE) { snprintf(b, sizeof b, "/sim/pipe/%d", npipe++); B.path = b; }
		snprintf(b, sizeof b, "max%d", i); B.maxsz = p.k(b); B.f = i ? new Fmt(*F) : F; B.may_fail = mode && i == victim; B.gen0 = vfs::inodes().size(); B.failed = false; B.fail_size = 0; B.o = 0; st->br.push_back(B);
	}
	vfs::fault_ok = [=](int kind, const Str &path) {
		if (kind == F_OPEN) return false;
		if (kind == F_WERR) return mode && path.compare(0, st->br[victim].path.size(), st->br[victim].path) == 0 && (mode != 3 || !fault_count(F_WERR));
		if (kind == F_SLOWIO && tee) return path.compare(0, st->br[victim].path.size(), st->br[victim].path) == 0;
		return true;
	};
	vfs::on_change([=](const char *w, const Str &path) { (void) w; (void) path; Branch &B = st->br[victim]; if (!B.failed && fault_count(F_WERR) + fault_count(F_DISKFULL)) { B.failed = true; } else if (!B.failed) B.fail_size = vfs::used(); });
	auto wait = [&](int f, const char *n) { for (u64 seen = ~0ULL; !join(f, 60000000000LL);) { u64 x = 0; for (u64 y : st->prog) x += y; if (x != seen) { seen = x; continue; } oracle("C20 C21", "sink:hang", "%s does not finish: %s", n, where(f).c_str()); violate("hang:thread", "%s: %s", n, where(f).c_str()); } };
	int setup = spawn("setup", [=, &p] {
		op_begin(90000);
		for (size_t i = 0; i < st->br.size(); i++) { char b[16]; snprintf(b, sizeof b, "cap%d", (int) i); Branch &B = st->br[i]; B.o = make(B.kind, B.path, *B.f, p.k(b, 100), B.maxsz); }
		st->top = tee ? SUT((hogl::output *) new hogl::output_tee(st->br[0].o, st->br[1].o, p.k("capt", 100))) : st->br[0].o;
	});
	wait(setup, "creating the output");
	// what reached the victim before the first error
	struct Err { static void watch() {} };
	if (mode == 2) { vfs::set_capacity(vfs::used() + p.k("disk")); }
	enable_faults(true);
	// after a flush every healthy sink has everything it was given
	auto flushed = [=](size_t n) {
		for (size_t i = 0; i < st->br.size(); i++) {
			Branch &B = st->br[i]; if (B.may_fail && fault_count(F_WERR) + fault_count(F_DISKFULL)) continue;
			int h, f; Str body = strip(content(B), h, f); if (body.size() < n) { oracle(tee ? "C21 C20" : "C20", "sink:unflushed", "after a flush %s (branch %zu) has %zu bytes, it was given %zu", kname[B.kind], i, body.size(), n); return; }
		}
		probe("flushed");
	};
	if (!eng) {
		std::vector<Op> ops = p.ops;
		int w = spawn("writer", [=] {
			hogl::format::data d; memset(&d, 0, sizeof d);
			for (auto &x : ops) {
				op_begin(x.id); st->prog[0]++;
				if (x.kind == OP_REC) { char h[32]; snprintf(h, sizeof h, "<%d.%zu:", x.id, F->fed.size()); Str rec; if (x.b) { rec = h; while ((i64) rec.size() < x.b) rec += (char)('a' + mix(F->fed.size(), rec.size()) % 26); rec += ">"; } F->rec = rec; F->pieces = x.c; SUT((st->top->process(d), 0)); }
				else if (x.kind == OP_FLUSH) { SUT((st->top->flush(), 0)); flushed(F->fed.size()); } else if (x.kind == OP_SLEEP) sleep_ns(x.a * 1000);
			}
			op_begin(91000); SUT((st->top->flush(), 0)); flushed(F->fed.size());
		});
		wait(w, "the writer");
	} else {
		hogl::engine::options o = hogl::engine::default_options; o.default_mask = hogl::mask(".*:.*", "!HOGL:.*DEBUG.*", 0); o.polling_interval_usec = p.k("poll", 1000); i64 tso = p.k("tso", -1); o.tso_buffer_capacity = tso > 0 ? tso : 1; o.features = tso > 0 ? 0 : hogl::engine::DISABLE_TSO; o.timesource = 0;
		E.e = SUT(new hogl::engine(*st->top, o));
		hogl::area *a = SUT(E.e->add_area("A0", g_sections)); int nthr = p.k("nthr", 1); std::vector<int> fs;
		for (int t = 0; t < nthr; t++) { char nm[8]; snprintf(nm, sizeof nm, "R%d", t); hogl::ringbuf::options ro; ro.capacity = p.k("rcap", 16); ro.prio = 0; ro.flags = 0; ro.record_tailroom = 128; hogl::ringbuf *r = SUT(new hogl::ringbuf(nm, ro)); SUT((r->hold(), 0)); SUT(E.e->add_ring(r)); add_ring_info(nm, 0, r, ro); }
		for (int t = 0; t < nthr; t++) { std::vector<Op> ops; for (auto &x : p.ops) if (x.thr == t) ops.push_back(x); char nm[8]; snprintf(nm, sizeof nm, "thr%d", t); fs.push_back(spawn(nm, [=] { for (auto &x : ops) { op_begin(x.id); st->prog[t]++; if (x.kind == OP_POST) for (int k = 0; k < x.b; k++) do_post(t, t, a, 0, (x.d + k) & 7, 0);
			else if (x.kind == OP_FLUSH) { if (!SUT(hogl::flush(W->rings[t].r, 100000000))) continue; char pat[8]; snprintf(pat, sizeof pat, "<R%d:", t); size_t n = 0; for (size_t q = 0; (q = F->fed.find(pat, q)) != Str::npos; q++) if (F->fed.compare(F->fed.find(':', q + 5), 4, ":A0:") == 0) n = F->fed.find('\n', q) + 1; flushed(n); }
			else sleep_ns(x.a * 1000); } })); }
		for (int f : fs) wait(f, "a posting thread");
		if (!wait_until([&] { for (auto &ri : W->rings) if (!ri.r->empty()) return false; return true; }, 300000000000LL, 1000000)) oracle("C20 C21", "sink:engine-stuck", "the engine does not take records out any more after the sink failed");
		for (auto &ri : W->rings) { ri.dropcnt = ri.r->dropcnt(); SUT((ri.r->release(), 0)); }
		int d = spawn("destroyer", [&] { op_begin(92000); SUT((delete W->engs[0].e, 0)); });
		wait(d, "destroying the engine");
		if (E.e) E.e = 0;
		u64 out = 0, posted = W->posts.size(), dropped = 0; for (auto &ri : W->rings) dropped += ri.dropcnt;
		size_t pos = 0; while ((pos = F->fed.find(":A0", pos)) != Str::npos) { out++; pos++; }
		if (out + dropped != posted) oracle("C20", "sink:engine-lost", "%llu records posted, %llu dropped, %llu reached the format handler", (unsigned long long) posted, (unsigned long long) dropped, (unsigned long long) out);
	}
	bool top_failed = st->top->failed();
	std::vector<bool> bfail; u64 errs0 = fault_count(F_WERR) + fault_count(F_DISKFULL); for (auto &b : st->br) bfail.push_back(b.o->failed());
	{ Branch &V = st->br[victim]; if (errs0 && !bfail[victim] && (V.kind != K_FILE || V.maxsz > 1000000)) oracle("C20", "sink:unreported", "%s does not report failure although a write failed", kname[V.kind]); }
	if (tee && !top_failed && (bfail[0] || bfail[1])) oracle("C21", "tee:unreported", "the tee does not report that a branch failed");

	int del = spawn("deleter", [=] { op_begin(93000); if (tee) SUT((delete st->top, 0)); for (auto &b : st->br) SUT((delete b.o, 0)); });
	wait(del, "destroying the output");
	enable_faults(false);
	u64 errs = fault_count(F_WERR) + fault_count(F_DISKFULL);
	if (errs) probe("hard error");
	if (sut_threads()) oracle("C20 C21", "sink:thread-leak", "a thread is left behind");
	if (vfs::bad_closes()) oracle("C20 C21", "sink:double-close", "a descriptor that was not open was closed");
	if (vfs::open_fds()) oracle("C20 C21", "sink:fd-leak", "%d descriptors left open", vfs::open_fds());
	for (size_t i = 0; i < st->br.size(); i++) {
		Branch &B = st->br[i]; Str c = content(B); int h, f; Str body = strip(c, h, f);
		size_t k = 0; while (k < body.size() && k < F->fed.size() && body[k] == F->fed[k]) k++;
		bool hurt = B.may_fail && errs;
		if (!hurt || (mode == 2 && !fault_count(F_DISKFULL))) {
			if (body != F->fed) oracle(tee ? "C21 C20" : "C20", "sink:content", "%s (branch %zu) received %zu bytes, %zu were written; first difference at byte %zu: '%s' instead of '%s'", kname[B.kind], i, body.size(), F->fed.size(), k, body.substr(k, 40).c_str(), F->fed.substr(k, 40).c_str());
			if (h < 1 || f != h || c.compare(0, 3, "\001H\002") || c.compare(c.size() - 3, 3, "\001F\002")) oracle(tee ? "C21 C20" : "C20", "sink:frame", "%s (branch %zu): %d headers, %d footers", kname[B.kind], i, h, f);
			if (bfail[i]) oracle("C20 C21", "sink:false-failure", "%s reports failure although no write failed", kname[B.kind]);
		} else {
			probe("branch failed");
			// Everything before the first error is intact and in order. What can follow depends on the sink: whole later flushes or nothing.
			bool gappy = B.kind == K_FILE || B.kind == K_PIPE || B.kind == K_STDOUT || B.kind == K_STDERR;
			if (!gappy && k < body.size()) oracle("C20", "sink:corrupted", "%s: after a hard error the bytes already written are not what was given: byte %zu of %zu is '%s' instead of '%s'", kname[B.kind], k, body.size(), body.substr(k, 40).c_str(), F->fed.substr(k, 40).c_str());
			if (gappy) {
				// later pieces may follow after a gap, nothing else: the bytes are a subsequence of the stream
				size_t pos = 0, gaps = 0;
				for (size_t j = 0; j < body.size(); j++) { if (pos < F->fed.size() && F->fed[pos] == body[j]) { pos++; continue; } gaps++; while (pos < F->fed.size() && F->fed[pos] != body[j]) pos++; if (pos++ >= F->fed.size()) { oracle("C20", "sink:corrupted", "%s: after a hard error the output contains '%s' at byte %zu, which was not written there", kname[B.kind], body.substr(j, 40).c_str(), j); break; } }
				// and what was there before the first error is intact
				if (!tee && mode != 2 && h == 1) { int h2, f2; size_t before = strip(c.substr(0, B.fail_size), h2, f2).size(); if (k < before) oracle("C20", "sink:corrupted", "%s: %zu bytes were written before the first error, but byte %zu of the output is wrong", kname[B.kind], before, k); }
				if (gaps) probe("gap after an error");
			}
		}
	}
	if (tee && top_failed && !(bfail[0] || bfail[1])) oracle("C21", "tee:false-failure", "the tee reports failure, its branches do not");
	if (eng) probe("engine"); 
	vfs::on_change(0);
}
const Scenario sc = { "sink", "C20 C21", generate, run, 0 };
Registrar reg_(&sc);
}
