// hsim command line: run a batch of seeds, run one seed, replay a file, minimise a failing run.
#include "kern.h"
#include <stdlib.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <time.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>

using namespace sim;
namespace sim { void gen_schedule(Plan &p, Rng &r); }

static Result *R;
static double wall() { struct timespec t; sysc(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 hstr(const std::string &s) { u64 h = 5; for (unsigned char c : s) h = mix(h, c); return h; }

void sim::gen_schedule(Plan &p, Rng &r)
{
	static const int pd[] = { 3, 10, 30, 100, 400, 1500 }, qd[] = { 2, 3, 6, 12 }, dts[] = { 5, 20, 20, 100, 500 };
	u64 x = r.below(100);
	p.set("dt_ns", r.pick(dts));
	if (x < 28) { p.set("sched", 1); p.set("p_den", r.pick(pd)); }
	else if (x < 58) { p.set("sched", 3); p.set("q_den", r.pick(qd)); p.set("p_den", 60 << r.below(6)); }
	else if (x < 80) { static const int len[] = { 300, 1500, 6000, 25000, 100000 }; p.set("sched", 2); p.set("pct_d", 1 + r.below(7)); p.set("pct_len", r.pick(len)); }
	else if (x < 92) { p.set("sched", 4); p.set("q_den", r.pick(qd)); }
	else p.set("sched", 0);
	if (r.chance(1, 4)) { static const int pm[] = { 5, 30, 120 }; p.set("stall_pm", r.pick(pm)); p.set("stall_max", 2000LL << r.below(14)); }
	if (r.chance(1, 6)) { p.set("eng_stall", 100LL << r.below(6)); p.set("eng_stall_max", 2000LL << r.below(13)); }
}

static u64 run_seed(const std::string &prop, u64 seed, u64 idx) { return mix(mix(seed, hstr(prop)), idx + 1); }
static Plan make_plan(const std::string &prop, u64 seed, u64 idx, const std::string &only)
{
	Plan p; p.prop = prop; p.seed = run_seed(prop, seed, idx);
	Rng r(mix(p.seed, 1));
	std::vector<const Scenario *> v = scenarios_for(prop);
	if (!only.empty()) { std::vector<const Scenario *> w; for (auto s : v) if (only == s->name) w.push_back(s); if (w.empty() && find_scenario(only)) w.push_back(find_scenario(only)); v = w; }
	if (v.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); exit(2); }
	const Scenario *s = v[r.below(v.size())];
	p.scen = s->name;
	gen_schedule(p, r);
	s->generate(p, r);
	return p;
}

// ---- replay files ------------------------------------------------------------------------------------
static void save(const Plan &p, const std::string &path, const std::string &cls, const std::string &msg, u64 hash)
{
	std::ofstream o(path);
	o << "hsim-replay 1\nprop " << p.prop << "\nscenario " << p.scen << "\nseed " << p.seed << "\n";
	o << "violation " << cls << "\nmessage "; for (char c : msg) o << (c == '\n' ? ' ' : c); o << "\nhash " << hash << "\n";
	for (auto &k : p.knobs) o << "knob " << k.first << " " << k.second << "\n";
	for (auto &x : p.ops) o << "op " << x.id << " " << x.thr << " " << x.kind << " " << x.a << " " << x.b << " " << x.c << " " << x.d << "\n";
	for (auto &x : p.faults) o << "fault " << fault_names[x.kind] << " " << x.nth << " " << x.param << "\n";
	for (auto &x : p.devs) o << "switch " << x.fiber << " " << x.epoch << " " << x.step << " " << (int) x.block << " " << x.target << " " << x.stall << "\n";
}
static bool load(const std::string &path, Plan &p, std::string &cls)
{
	std::ifstream f(path); std::string line; if (!std::getline(f, line) || line.compare(0, 11, "hsim-replay")) return false;
	while (std::getline(f, line)) {
		std::istringstream s(line); std::string w; s >> w;
		if (w == "prop") s >> p.prop; else if (w == "scenario") s >> p.scen; else if (w == "seed") s >> p.seed;
		else if (w == "violation") { s >> std::ws; std::getline(s, cls); }
		else if (w == "knob") { std::string n; i64 v; s >> n >> v; p.knobs[n] = v; }
		else if (w == "op") { Op o; s >> o.id >> o.thr >> o.kind >> o.a >> o.b >> o.c >> o.d; p.ops.push_back(o); }
		else if (w == "fault") { std::string n; FaultRec r; s >> n >> r.nth >> r.param; for (int i = 0; i < F_NKINDS; i++) if (n == fault_names[i]) { r.kind = i; p.faults.push_back(r); } }
		else if (w == "switch") { Dev d; int b; s >> d.fiber >> d.epoch >> d.step >> b >> d.target >> d.stall; d.block = b; p.devs.push_back(d); }
	}
	p.replay = true;
	return true;
}

// ---- executing one run in a child --------------------------------------------------------------------
struct Out { int status; std::string cls, msg; u64 hash, shash, steps, switches; i64 ns; };
static Out exec(std::function<Plan()> mk, bool verbose)
{
	R->status = ST_NONE;
	pid_t pid = fork();
	if (pid == 0) { child_heap_reset(); Plan p = mk(); run_child(p, R, verbose); }
	int st; while (waitpid(pid, &st, 0) < 0) {}
	Out o; o.status = R->status; o.cls = R->cls; o.msg = R->msg; o.hash = R->hash; o.shash = R->sched_hash; o.steps = R->steps; o.ns = R->sim_ns; o.switches = R->switches;
	if (o.status != ST_OK && o.status != ST_VIOL && o.status != ST_LIMIT) {
		char b[120]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
		o.status = ST_VIOL; o.cls = "crash:exit"; o.msg = std::string("the simulated process ended unexpectedly: ") + b;
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 95 && WEXITSTATUS(st) <= 97) { o.cls = "harness:exit"; }
	}
	return o;
}
static Plan recorded(Plan p) { p.replay = true; p.devs.assign(R->devs, R->devs + R->ndev); p.faults.assign(R->frs, R->frs + R->nfr); return p; }

// ---- minimiser ---------------------------------------------------------------------------------------
static double min_end;
static int min_runs;
static bool fails(const Plan &p, const std::string &cls) { min_runs++; Out o = exec([&] { return p; }, false); return o.status == ST_VIOL && o.cls == cls; }
template<class T> static bool ddmin(std::vector<T> &v, std::function<bool(const std::vector<T> &)> test)
{
	bool any = false; size_t n = 2;
	if (v.size() && wall() < min_end) { std::vector<T> e; if (test(e)) { v.clear(); return true; } }
	while (v.size() >= 1 && wall() < min_end) {
		size_t ch = (v.size() + n - 1) / n; bool red = false;
		for (size_t i = 0; i < v.size() && wall() < min_end; i += ch) {
			std::vector<T> w(v.begin(), v.begin() + i); w.insert(w.end(), v.begin() + std::min(v.size(), i + ch), v.end());
			if (w.size() == v.size()) continue;
			if (test(w)) { v = w; any = red = true; n = std::max<size_t>(n - 1, 2); break; }
		}
		if (!red) { if (ch <= 1) break; n = std::min(n * 2, v.size()); }
	}
	return any;
}
static Plan minimise(Plan p, const std::string &cls, double secs)
{
	min_end = wall() + secs * 0.5;
	const Scenario *sc = find_scenario(p.scen); (void) sc;
	ddmin<Op>(p.ops, [&](const std::vector<Op> &o) {
		Plan q = p; q.ops = o;
		if (fails(q, cls)) return true;
		for (int i = 0; i < 25 && wall() < min_end; i++) {
			Plan z = q; z.replay = false; z.devs.clear(); z.faults.clear(); z.seed = mix(p.seed, 1000 + i);
			if (fails(z, cls)) { Plan rec = recorded(z); p.devs = rec.devs; p.faults = rec.faults; p.seed = z.seed; return true; }
		}
		return false;
	});
	min_end = wall() + secs * 0.1;
	ddmin<FaultRec>(p.faults, [&](const std::vector<FaultRec> &f) { Plan q = p; q.faults = f; return fails(q, cls); });
	min_end = wall() + secs * 0.3;
	ddmin<Dev>(p.devs, [&](const std::vector<Dev> &d) { Plan q = p; q.devs = d; return fails(q, cls); });
	min_end = wall() + secs * 0.1;
	ddmin<Op>(p.ops, [&](const std::vector<Op> &o) { Plan q = p; q.ops = o; return fails(q, cls); });
	return p;
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static const char *arg(int c, char **v, const char *n, const char *d) { for (int i = 2; i + 1 < c; i++) if (!strcmp(v[i], n)) return v[i + 1]; return d; }
static bool flag(int c, char **v, const char *n) { for (int i = 2; i < c; i++) if (!strcmp(v[i], n)) return true; return false; }

static int cmd_run(int c, char **v)
{
	std::string prop = arg(c, v, "--prop", ""), out = arg(c, v, "--out", "."), only = arg(c, v, "--scen", ""), tag = arg(c, v, "--tag", "0");
	u64 seed = strtoull(arg(c, v, "--seed", "1"), 0, 10), first = atoll(arg(c, v, "--first", "0")), stride = atoll(arg(c, v, "--stride", "1")), count = atoll(arg(c, v, "--count", "100"));
	double tmax = atof(arg(c, v, "--time", "60")), t0 = wall(); int maxviol = atoi(arg(c, v, "--maxviol", "3"));
	u64 nruns = 0, nok = 0, steps = 0, sw = 0, nontriv = 0; double simns = 0; u64 fired[F_NKINDS] = { 0 }; std::map<std::string, u64> probes, scen; std::set<u64> hs; std::map<std::string, int> vclass;
	u64 nlimit = 0, nviol = 0, ntwice = 0, nmism = 0, twice = atoll(arg(c, v, "--twice", "0"));
	memset(R->cov, 0, sizeof R->cov);
	std::ofstream vf(out + "/viol." + tag);
	std::vector<std::string> samples;
	for (u64 i = 0; i < count; i++) {
		if (wall() - t0 > tmax) break;
		u64 idx = first + i * stride;
		Out o = exec([&] { return make_plan(prop, seed, idx, only); }, false);
		std::string vfile; if (o.status != ST_OK && vclass[o.cls] < 2 && (int) vclass.size() <= maxviol + 5) {
			std::ostringstream fn; fn << out << "/raw-" << prop << "-" << idx << ".replay"; vfile = fn.str();
			save(recorded(make_plan(prop, seed, idx, only)), vfile, o.cls, o.msg, o.hash);
		}
		nruns++; steps += o.steps; simns += o.ns - 1e9; sw += o.switches;
		for (int k = 0; k < F_NKINDS; k++) fired[k] += R->fired[k];
		for (int k = 0; k < R->nprobe; k++) probes[R->probes[k].name]++;
		if (o.switches > 3 || R->nfr > 0) if (hs.insert(o.shash).second) nontriv++;
		if (samples.size() < 2) { Plan p = make_plan(prop, seed, idx, only); std::ostringstream s; s << "index " << idx << " scenario " << p.scen << " seed " << p.seed << " ops " << p.ops.size() << " steps " << o.steps << " switches " << o.switches << " schedule-hash " << o.shash << " status " << o.status; samples.push_back(s.str()); }
		if (twice && i % twice == 0) {
			Out o2 = exec([&] { return make_plan(prop, seed, idx, only); }, false); ntwice++;
			if (o2.hash != o.hash || o2.status != o.status || o2.steps != o.steps || o2.ns != o.ns) { nmism++; vf << "{\"file\":\"\",\"index\":" << idx << ",\"class\":\"harness:nondeterministic\",\"message\":\"two executions of one seed differ\",\"hash\":0}\n"; vf.flush(); }
		}
		if (o.status == ST_OK) { nok++; continue; }
		if (o.status == ST_LIMIT) nlimit++;
		nviol++;
		if (vclass[o.cls]++ < 2 && (int) vclass.size() <= maxviol + 5) {
			vf << "{\"file\":\"" << jesc(vfile) << "\",\"index\":" << idx << ",\"class\":\"" << jesc(o.cls) << "\",\"message\":\"" << jesc(o.msg) << "\",\"hash\":" << o.hash << "}\n"; vf.flush();
		}
		if (flag(c, v, "--stop") && (int) nviol >= maxviol) break;
	}
	std::ofstream s(out + "/stat." + tag);
	u64 cov = 0; for (size_t i = 0; i < COVSZ; i++) cov += __builtin_popcount(R->cov[i]);
	s << "{\"runs\":" << nruns << ",\"ok\":" << nok << ",\"violating\":" << nviol << ",\"limit\":" << nlimit << ",\"steps\":" << steps << ",\"switches\":" << sw << ",\"sim_s\":" << simns / 1e9 << ",\"wall\":" << wall() - t0 << ",\"twice\":" << ntwice << ",\"mismatch\":" << nmism << ",\"distinct\":" << nontriv << ",\"cov\":" << cov;
	s << ",\"faults\":{"; for (int k = 0, f = 1; k < F_NKINDS; k++) if (fired[k]) { s << (f ? "" : ",") << "\"" << fault_names[k] << "\":" << fired[k]; f = 0; }
	s << "},\"probes\":{"; { bool f = true; for (auto &x : probes) { s << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } }
	s << "},\"classes\":{"; { bool f = true; for (auto &x : vclass) { s << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } }
	s << "},\"samples\":["; { bool f = true; for (auto &x : samples) { s << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; } }
	s << "]}\n";
	std::ofstream b(out + "/cov." + tag, std::ios::binary); b.write((const char *) R->cov, COVSZ);
	std::ofstream h(out + "/hash." + tag, std::ios::binary); for (u64 x : hs) h.write((const char *) &x, 8);
	return 0;
}

static void print_out(const Out &o) { printf("RESULT status=%s class=%s hash=%llu steps=%llu switches=%llu sim_us=%.1f ndev=%u nfault=%u\nMESSAGE %s\n", o.status == ST_OK ? "ok" : o.status == ST_LIMIT ? "limit" : "violation", o.status == ST_OK ? "-" : o.cls.c_str(), (unsigned long long) o.hash, (unsigned long long) o.steps, (unsigned long long) o.switches, (o.ns - 1e9) / 1e3, R->ndev, R->nfr, o.status == ST_OK ? "" : o.msg.c_str()); for (int i = 0; i < R->nprobe; i++) printf("PROBE %s %llu\n", R->probes[i].name, (unsigned long long) R->probes[i].n); }

int main(int c, char **v)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("HSIM_REEXEC")) { if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("HSIM_REEXEC", "1", 1); char p[4096]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 1); if (n > 0) { p[n] = 0; execv(p, v); } } }
	setenv("TZ", "UTC0", 1); tzset(); { time_t t = 1700000000; struct tm m; localtime_r(&t, &m); gmtime_r(&t, &m); char b[64]; strftime(b, sizeof b, "%c", &m); }
	kernel_init();
	R = (Result *) mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string cmd = c > 1 ? v[1] : "";
	if (cmd == "run") return cmd_run(c, v);
	if (cmd == "one") {
		std::string prop = arg(c, v, "--prop", ""), only = arg(c, v, "--scen", ""); u64 seed = strtoull(arg(c, v, "--seed", "1"), 0, 10), idx = atoll(arg(c, v, "--index", "0"));
		Out o = exec([&] { return make_plan(prop, seed, idx, only); }, flag(c, v, "-v")); print_out(o);
		const char *s = arg(c, v, "--save", 0); if (s) save(recorded(make_plan(prop, seed, idx, only)), s, o.cls, o.msg, o.hash);
		return o.status == ST_OK ? 0 : 1;
	}
	if (cmd == "replay" && c > 2) {
		std::string file = v[2], cls; { Plan p; if (!load(file, p, cls)) { fprintf(stderr, "not a replay file: %s\n", v[2]); return 2; } }
		Out o = exec([&] { Plan p; std::string x; load(file, p, x); return p; }, flag(c, v, "-v")); print_out(o);
		if (o.status == ST_OK) return 0; return o.cls == cls ? 1 : 3;
	}
	if (cmd == "minimize" && c > 3) {
		std::string cls; Plan p; if (!load(v[2], p, cls)) return 2;
		if (!fails(p, cls)) { fprintf(stderr, "does not reproduce: wanted %s, got %s\n", cls.c_str(), R->cls); return 3; }
		size_t a = p.ops.size(), b = p.devs.size(), f = p.faults.size();
		p = minimise(p, cls, atof(arg(c, v, "--time", "40")));
		Out o = exec([&] { return p; }, false);
		if (o.status != ST_VIOL || o.cls != cls) { fprintf(stderr, "minimised run lost the violation\n"); return 3; }
		save(p, v[3], o.cls, o.msg, o.hash);
		printf("MINIMISED ops %zu->%zu switches %zu->%zu faults %zu->%zu runs %d\n", a, p.ops.size(), b, p.devs.size(), f, p.faults.size(), min_runs);
		return 0;
	}
	if (cmd == "list") { for (int i = 2; i < c; i++) for (auto s : scenarios_for(v[i])) printf("%s\n", s->name); return 0; }
	fprintf(stderr, "usage: hsim run|one|replay|minimize|list ...\n"); return 2;
}
