#ifndef CAPI_POSTS_H
#define CAPI_POSTS_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { CAPI_NVARIANT = 22, CAPI_BARE = 21 };
void capi_post(void *area, unsigned sect, int variant, uint64_t id, const char *str, char *mstr);
int  capi_want(char *out, size_t n, int variant, uint64_t id, const char *str, char *mstr);
void *capi_new_mask(const char *a, const char *b);
void *capi_new_tls(const char *name, unsigned cap, unsigned prio, unsigned tail);
void *capi_new_file(const char *name, void *fmt, int given, unsigned perms, size_t max_size, unsigned max_count, unsigned cap, int policy, int prio, const char *cpus);
void capi_activate(void *out, int given, unsigned poll, unsigned tso, int notso, void *mask, int policy, int prio, const char *cpus);
#ifdef __cplusplus
}
#endif
#endif
