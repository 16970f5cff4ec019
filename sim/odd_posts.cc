// Posts whose format strings and arguments need not fit together (C30): everything an application can hand to hogl::post.
#include "hog.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
using namespace sim;
typedef std::string Str;

// A format string made of pieces, most of which are valid.
Str odd_format(u64 seed)
{
	static const char *const pieces[] = {
		"%d", "%u", "%s", "%x", "%lld", "%llu", "%lx", "%p", "%c", "%f", "%5.3f", "%-10s", "%08d", "%+d", "%.2s", "%hhd", "%hu", "%zu", "%jd", "%g", "%e", "%i", "%o", "%#x", "% d", "%5d", "%%",
		"%q", "%", "%-", "%l", "%.", "%*d", "%.*f", "%-*s", "%1$d", "%2$s", "%3$x", "%99$d", "%0$d", "%n", "%S", "%C", "%b", "%a", "%A", "%99999999999999d", "%.99999999999s", "%*", "%1$", "%ll", "%.300f", "%300d", "%-120s|",
		"{}", "{0}", "{", "}", "text ", "\n", "\t", "\xff\xfe", "\xc3\xa4", ": ", "a rather long piece of constant text that does not mean anything at all, ", "" };
	enum { N = sizeof pieces / sizeof pieces[0] };
	Str s; u64 x = mix(seed, 0x0dd); int n = 1 + x % 6, valid = (x >> 8) % 3;
	for (int i = 0; i < n; i++) { x = mix(x, i); s += pieces[x % (valid == 0 ? 27 : (u64) N)]; if ((x >> 16) % 3 == 0) s += ' '; }
	return s;
}
static double odd_double(u64 x) { static const double d[] = { 0.0, -0.0, 1.5, -2.25e300, 5e-324, NAN, INFINITY, -INFINITY, 1e18, 3.14159, 1e-7, 123456789.125 }; return d[x % 12]; }
static i64 odd_int(u64 x) { static const i64 d[] = { 0, 1, -1, 7, 255, 65, 32767, -32768, 2147483647, -2147483648LL, 4294967295LL, 9223372036854775807LL, (i64) 0x8000000000000000ULL, 10 }; return d[x % 14]; }

struct Given { hogl::ringbuf *r; const hogl::area *a; unsigned s; const char *f, *str, *gs, *gf; void *p; const char *blob; unsigned bl; int i; unsigned u; long l; unsigned long ul; double d, d2; bool b; std::string *cs; hogl::arg_xdump *xd; };
#define ODD(n, ...) static void odd##n(const Given &g) { hogl::post(g.r, g.a, g.s, __VA_ARGS__); }
ODD(0, g.f, g.i)
ODD(1, g.f, g.u, g.d)
ODD(2, g.f, g.str, g.l)
ODD(3, g.f, hogl::arg_gstr(g.gs), g.i)
ODD(4, g.f, g.p, g.b, g.ul)
ODD(5, g.f, *g.xd, g.i)
ODD(6, g.f, g.i, *g.xd)
ODD(7, g.f, g.i, hogl::arg_raw(g.blob, g.bl), g.str)
ODD(8, hogl::arg_gstr(g.gf), g.i, g.str)
ODD(9, g.str, g.i, g.d)
ODD(10, *g.cs, g.i, *g.cs)
ODD(11, g.f, g.i, g.u, g.l, g.ul, g.d, g.str, hogl::arg_gstr(g.gs), g.p, g.b, g.i, g.u, g.l, g.ul, g.d2, g.str)
ODD(12, g.f)
ODD(13, g.i, g.f, g.u)
ODD(14, g.d, g.d2, g.l, g.b, (uint8_t) g.i, (uint16_t) g.u)
ODD(15, hogl::arg_raw(g.blob, g.bl), g.i)
ODD(16, *g.xd)
ODD(17, hogl::arg_gstr(g.gs))
ODD(18, hogl::arg_gstr(g.gs), g.f, g.i)
ODD(19, g.f, g.i, g.i, g.d, g.str)
ODD(20, g.f, g.str, g.str, g.str)
ODD(21, g.p, g.str)
// names and numbers of sections that do not exist
static void odd22(const Given &g) { hogl::push(g.r, (const hogl::area *) 0, g.s, g.f, g.i, g.str); }
static void odd23(const Given &g) { hogl::push(g.r, g.a, 4 + g.u % 4000, g.f, g.u); }
static void odd24(const Given &g) { hogl::push(g.r, g.a, g.s, g.str, hogl::arg_gstr(g.gs), g.f); }
static void odd25(const Given &g) { hogl::push(g.r, g.a, g.s, g.f, g.f, g.i); }
static void (*const odds[])(const Given &) = { odd0, odd1, odd2, odd3, odd4, odd5, odd6, odd7, odd8, odd9, odd10, odd11, odd12, odd13, odd14, odd15, odd16, odd17, odd18, odd19, odd20, odd21, odd22, odd23, odd24, odd25 };

// (an empty global string comes back from a raw log as an empty string, which prints as 'null' as every empty string argument does)
void post_odd(hogl::ringbuf *r, const hogl::area *a, unsigned sect, u64 seed, bool noempty)
{
	u64 x = mix(seed, 1); Given g; g.r = r; g.a = a; g.s = sect;
	auto nx = [&] { x = mix(x, 3); return x >> 20; };
	Str f = odd_format(seed), s; size_t sl = nx() % 4 ? nx() % 20 : nx() % 400; for (size_t i = 0; i < sl; i++) s += "abc %sd{}\\ \xe2"[mix(seed, i) % 12];
	Str bl; for (size_t i = 0, n = nx() % 40; i < n; i++) bl += (char) mix(seed, 100 + i);
	Str cs = nx() % 3 ? f : f + Str("\0z", 2) + f;
	static const char *const gss[] = { "constant", "", "100% sure", "%d", 0, "multi\nline" }; static const char *const gfs[] = { "%d %s", "value %d of %s", "%s %s", "100%", "plain", "" };
	static const char types[] = { 'H', 'x', 'd', 'u', 'f', 'z', '%', 0 }; static const int bw[] = { 1, 2, 4, 8, 3, 1, 2, 4 };
	hogl::arg_xdump xd(bl.data(), bl.size(), types[nx() % 8], bw[nx() % 8], nx() % 7, nx() % 5, ',');
	g.i = odd_int(nx()); g.u = odd_int(nx()); g.l = odd_int(nx()); g.ul = odd_int(nx()); g.d = odd_double(nx()); g.d2 = odd_double(nx()); g.b = nx() & 1; g.p = nx() % 3 ? (void *) (nx() & 0xffffff) : 0; g.xd = &xd; g.bl = bl.size();
	// a width or precision taken from an argument is honoured however large it is, which only fills memory
	if (f.find('*') != Str::npos || cs.find('*') != Str::npos) { g.i = (int) (g.i % 300); g.u %= 300; g.l %= 300; g.ul %= 300; }
	g.gs = gss[nx() % 6]; g.gf = gfs[nx() % 6]; if (noempty && g.gs && !*g.gs) g.gs = "empty"; if (noempty && !*g.gf) g.gf = "empty"; bool nul = nx() % 6 == 0; int k = nx() % 26;
	// what the caller hands over is overwritten and freed as soon as the call returns
	Str *c; char *cf = (char *) malloc(f.size() + 1), *cstr = (char *) malloc(s.size() + 1), *cb = (char *) malloc(bl.size() + 1); memcpy(cf, f.c_str(), f.size() + 1); memcpy(cstr, s.c_str(), s.size() + 1); memcpy(cb, bl.data(), bl.size());
	c = new Str(cs); g.cs = c; g.f = cf; g.str = nul ? 0 : cstr; g.blob = cb; xd.ptr = (const uint8_t *) cb;
	note(mix(seed, k));
	void (*post)(const Given &) = odds[k];
	SUT((post(g), 0));
	memset(cf, '!', f.size()); memset(cstr, '?', s.size()); memset(cb, '#', bl.size()); free(cf); free(cstr); free(cb); if (c->size()) memset(&(*c)[0], '$', c->size()); delete c;
}
