// Glue between the simulator and hogl: observing format handler, in-memory sink, test timesources, record generator,
// history of posts, and the oracles over that history that several scenarios share.
#ifndef HSIM_HOG_H
#define HSIM_HOG_H
#include "hsim.h"
#include <set>
#include <memory>
#include "hogl/engine.hpp"
#include "hogl/area.hpp"
#include "hogl/mask.hpp"
#include "hogl/post.hpp"
#include "hogl/flush.hpp"
#include "hogl/ring.hpp"
#include "hogl/tls.hpp"
#include "hogl/timesource.hpp"
#include "hogl/format-basic.hpp"
#include "hogl/format-raw.hpp"
#include "hogl/detail/engine.hpp"
#include "hogl/detail/ringbuf.hpp"
#include "hogl/detail/area.hpp"
#include "hogl/detail/output.hpp"
#include "hogl/detail/format.hpp"
#include "hogl/detail/ostrbuf.hpp"
#include "hogl/detail/internal.hpp"

namespace sim {

extern std::string g_prop;                       // property being checked by this run
// Reports a violated oracle if it belongs to the property under check (props: space separated ids); otherwise remembers
// nothing and returns, so one property's defect is not charged to another.
void oracle(const char *props, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
bool serves(const char *props);

struct ArgVal { unsigned type; u64 v; std::string data; bool operator==(const ArgVal &o) const { return type == o.type && v == o.v && data == o.data; } };
std::string show(const std::vector<ArgVal> &a);

enum ObsKind { OB_REC, OB_DROP, OB_TSOFULL, OB_TSWITCH, OB_INTERNAL };
struct Obs {                                      // one record handed to the output
	u64 ev; i64 t; int eng; ObsKind kind;
	std::string ring, area, text, tag; unsigned sect; u64 seq, ts;
	std::vector<ArgVal> args;
	u64 id, n;                                    // id of the post / number of dropped records
	i64 sink_t; u64 sink_ev, sink_step; i64 sink_busy; // when its bytes reached the sink (0: not yet)
};

struct Post {                                     // one call to hogl::post
	u64 id; int thr, ring, eng, area, sect, variant; bool enabled; bool maybe; bool returned;   // maybe: the section may have been disabled
	u64 ev0, ev1; i64 t0, t1; u64 step1; i64 busy1;
	std::vector<ArgVal> args; u64 nth;            // nth post on this thread
};

struct RingInfo {
	std::string name; int eng; hogl::ringbuf *r; hogl::ringbuf::options o;
	u64 dropcnt; unsigned tailroom; bool closed; u64 specials; u64 flush_to; bool weird; bool shared; bool reused;
	u64 base_seq;
};

class MemBuf;
struct Eng {
	hogl::engine *e; hogl::output *out; hogl::format *fmt; MemBuf *mem;
	std::string sink;                             // bytes that reached the sink
	size_t lines; std::vector<size_t> obs;        // obs indices in output order; lines completed in the sink
	i64 busy;                                     // simulated time spent inside the sink
	bool hang; bool failing; unsigned poll; unsigned cap; bool tso; int fmtkind; int eng_fiber;
	hogl::engine::stats stats; bool have_stats; u64 proc_points; bool nomark, vague; u64 unreported;   // drop reports masked off
	Eng() : e(0), out(0), fmt(0), mem(0), lines(0), busy(0), hang(false), failing(false), poll(10000), cap(4096), tso(true), fmtkind(0), eng_fiber(-1), have_stats(false), proc_points(0), nomark(false), vague(false), unreported(0) {}
};

struct World {
	std::vector<Obs> obs; std::vector<Post> posts; std::vector<RingInfo> rings; std::vector<Eng> engs;
	std::map<u64, size_t> by_id;
	std::vector<u64> nth;                         // per thread post counter
	u64 ts_counter; u64 flushes;
	bool pace;                                    // scheduling points inside the format handler
	World() : ts_counter(1000), flushes(0), pace(true) {}
};
extern World *W;

// Format handler that takes a snapshot of every record (twice, to catch a record changing under the engine's feet),
// then lets the real format_basic (kind 1), or a short line (kind 0) produce the bytes.
class ObsFormat : public hogl::format {
public:
	int eng, kind; hogl::format_basic *basic;
	ObsFormat(int e, int k);
	virtual ~ObsFormat();
	virtual void process(hogl::ostrbuf &s, const data &d);
	virtual void header(hogl::ostrbuf &s, const char *n, bool first);
	virtual void footer(hogl::ostrbuf &s, const char *n);
};
// In-memory sink with the same buffering protocol as hogl's own.
class MemBuf : public hogl::ostrbuf {
public:
	int eng; i64 slow_ns;
	MemBuf(int e, unsigned cap) : hogl::ostrbuf(cap), eng(e), slow_ns(0) {}
	virtual ~MemBuf() {}
	virtual void do_flush(const uint8_t *d, size_t n);
};
class MemOutput : public hogl::output {
public:
	MemOutput(hogl::format &f, int e, unsigned cap);
	virtual ~MemOutput();
};
void sink_bytes(int eng, const uint8_t *d, size_t n);   // record arrival of bytes

// timesources
extern hogl::timesource *ts_counter_src(), *ts_clock_src(), *ts_equal_src(), *ts_weird_src(), *ts_counter2_src(), *ts_counter3_src();

Obs snapshot(int eng, const hogl::format::data &d);
std::vector<ArgVal> record_args(const hogl::record *r);
std::string render(const Obs &o, const hogl::format::data &d);

// Posting: variant decides the argument mix, deterministic in id.
enum { NVARIANT = 10 };
void build_args(int variant, u64 id, unsigned tailroom, std::vector<ArgVal> &out);
u64 do_post(int thr, int ring, const hogl::area *a, int area_id, int sect, int variant, bool through_tls = false, bool unlocked = false, bool off = false);
inline u64 make_id(int thr, u64 n) { return ((u64) thr << 24) | n; }

extern const char *g_sections[];                 // 8 sections S0..S7
int add_ring_info(const std::string &name, int eng, hogl::ringbuf *r, const hogl::ringbuf::options &o);
unsigned ring_slot_room(hogl::ringbuf *r);

struct Checks { bool complete; bool tso_order; bool by_name; bool moving; Checks() : complete(true), tso_order(true), by_name(false), moving(false) {} };  // by_name: ring names are unique over all engines, a ring may move between engines; moving: so may the default ring, records come out of whichever engine serves it
void evaluate(const Checks &c);
i64 finish_engine(int eng, i64 timeout_ns);      // destroys engine+output in a helper fiber; returns elapsed or -1 on timeout
}
#endif
