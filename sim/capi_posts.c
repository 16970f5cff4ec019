/* C side of the C interface scenario: posts through the macros of hogl/c-api/post.h, as a C program does. */
#include <hogl/c-api/area.h>
#include <hogl/c-api/mask.h>
#include <hogl/c-api/post.h>
#include <hogl/c-api/format.h>
#include <hogl/c-api/output.h>
#include <hogl/c-api/engine.h>
#include <hogl/c-api/tls.h>
#include <stdio.h>
#include "capi_posts.h"

struct vals { uint64_t id; int i; unsigned u; int64_t l; uint16_t us; int16_t s; uint8_t uc; int8_t sc; double d; float f; long long ll; unsigned long long ull; char c; bool b; const char *str; char *mstr; void *p; const void *cp; };
static void fill(struct vals *v, uint64_t id, const char *str, char *mstr)
{
	uint64_t x = id * 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32;
	v->id = id; v->i = (int) x; v->u = (unsigned)(x >> 7); v->l = (int64_t)(x * 3); v->us = x >> 11; v->s = x >> 13; v->uc = x >> 17; v->sc = x >> 19; v->d = (double)(x % 1000003) / 8; v->f = (float)(x % 4099) / 4;
	v->ll = (long long)(x * 7); v->ull = x * 11; v->c = 'a' + x % 26; v->b = x >> 40 & 1; v->str = str; v->mstr = mstr; v->p = (void *)(uintptr_t)(x & 0xffffffffffULL); v->cp = (const void *)(uintptr_t)(x >> 24 | 1);
}
#define VARIANTS(X, v) \
	X(0, "id %lu", v.id) \
	X(1, "id %lu %d %u", v.id, v.i, v.u) \
	X(2, "id %lu %f %g", v.id, v.d, v.f) \
	X(3, "id %lu %ld %u %d %u %d", v.id, v.l, v.us, v.s, v.uc, v.sc) \
	X(4, "id %lu <%s> <%s>", v.id, v.str, v.mstr) \
	X(5, "id %lu %p %d", v.id, v.p, v.i) \
	X(6, "id %lu %d %u %d %u %d %u %d %u %d %u %d %u %d %ld", v.id, v.i, v.u, v.i + 1, v.u + 1, v.i + 2, v.u + 2, v.i + 3, v.u + 3, v.i + 4, v.u + 4, v.i + 5, v.u + 5, v.i + 6, v.l) \
	X(7, "id %lu %lld %llu %d", v.id, v.ll, v.ull, v.i) \
	X(8, "id %lu %c %d %u", v.id, v.c, v.b, v.u) \
	X(9, "id %lu %d <%s> %ld %f %u", v.id, v.s, hogl_string(v.mstr), v.l, v.d, v.us) \
	X(10, "id %lu %p %d", v.id, v.cp, v.i) \
	X(11, "id %lu %d %d %d", v.id, v.i, v.i + 1, v.i + 2) \
	X(12, "id %lu %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3) \
	X(13, "id %lu %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5) \
	X(14, "id %lu %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6) \
	X(15, "id %lu %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7) \
	X(16, "id %lu %u %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7, v.u + 8) \
	X(17, "id %lu %u %u %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7, v.u + 8, v.u + 9) \
	X(18, "id %lu %u %u %u %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7, v.u + 8, v.u + 9, v.u + 10) \
	X(19, "id %lu %u %u %u %u %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7, v.u + 8, v.u + 9, v.u + 10, v.u + 11) \
	X(20, "id %lu %u %u %u %u %u %u %u %u %u %u %u %u %u", v.id, v.u, v.u + 1, v.u + 2, v.u + 3, v.u + 4, v.u + 5, v.u + 6, v.u + 7, v.u + 8, v.u + 9, v.u + 10, v.u + 11, v.u + 12)

void capi_post(void *area, unsigned sect, int variant, uint64_t id, const char *str, char *mstr)
{
	struct vals v; fill(&v, id, str, mstr);
	switch (variant) {
#define X(n, ...) case n: hogl_post(area, sect, __VA_ARGS__); break;
	VARIANTS(X, v)
#undef X
	case CAPI_BARE: hogl_post(area, sect, v.id); break;
	}
}
int capi_want(char *out, size_t n, int variant, uint64_t id, const char *str, char *mstr)
{
	struct vals v; fill(&v, id, str, mstr);
	switch (variant) {
#define X(k, ...) case k: return snprintf(out, n, __VA_ARGS__);
	VARIANTS(X, v)
#undef X
	case CAPI_BARE: return snprintf(out, n, "%lu", v.id);
	}
	return 0;
}
void *capi_new_mask(const char *a, const char *b) { return b ? hogl_new_mask(a, b, (char *) 0) : hogl_new_mask(a, (char *) 0); }
void *capi_new_tls(const char *name, unsigned cap, unsigned prio, unsigned tail) { struct hogl_tls_options o = { cap, prio, tail }; return hogl_new_tls(name, &o); }
void *capi_new_file(const char *name, void *fmt, int given, unsigned perms, size_t max_size, unsigned max_count, unsigned cap, int policy, int prio, const char *cpus)
{
	struct hogl_output_options o = { perms, max_size, max_count, cap, { policy, prio, cpus } };
	return hogl_new_output_file(name, fmt, given ? &o : 0);
}
void capi_activate(void *out, int given, unsigned poll, unsigned tso, int notso, void *mask, int policy, int prio, const char *cpus)
{
	struct hogl_engine_options o = { notso ? HOGL_DISABLE_TSO : 0, mask, poll, tso, { policy, prio, cpus } };
	hogl_activate(out, given ? &o : 0);
}
