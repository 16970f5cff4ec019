// hsim: in-memory files, pipes and stdio streams with fault injection. Paths under /sim/ and descriptors >= 5000.
#include "kern.h"
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <limits.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/inotify.h>
#include <poll.h>
#include <algorithm>

#define EXP extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

namespace sim {
namespace vfs {
bool slow_ok = true;
std::function<bool(int, const std::string &)> fault_ok;
static int nbad_close;
int bad_closes() { return nbad_close; }
static i64 vfault(int kind, const std::string &path, i64 lo, i64 hi) { if (fault_ok && !fault_ok(kind, path)) return -1; return fault(kind, lo, hi); }
struct Gen { std::string path, data; u64 created; bool destroyed; u64 ino; };
struct Node { bool link; std::string target; u64 gen; u64 ino; bool dir; };    // a name
struct Desc { bool used; u64 ino; u64 pos; int flags; bool inotify; std::string path; u64 seen; int fdflags; bool dead; };
static std::map<std::string, Node> names;
static std::vector<Gen> gens;                 // 1-based ids: gens[id-1]
static std::map<u64, u64> cur_gen;            // inode -> current generation
static std::vector<Desc> fds;
static u64 next_ino; static i64 capacity; static i64 used_bytes;
static std::function<void(const char *, const std::string &)> change_cb;
static const int BASE = 5000;

static void changed(const char *w, const std::string &p) { note(mix(0xf5, w[0] * 256 + w[1]), p.size()); if (g.verbose) logf("vfs %s %s", w, p.c_str()); if (change_cb) change_cb(w, p); }
static u64 new_gen(u64 ino, const std::string &path) { Gen x; x.path = path; x.created = ++g.events; x.destroyed = false; x.ino = ino; gens.push_back(x); cur_gen[ino] = gens.size(); return gens.size(); }
// The simulated processes run in /sim/cwd.  Relative names of files begin with "rel" (all others are refused, see blocked()).
static std::string norm(const std::string &r) { std::string o, p = r.compare(0, 3, "rel") ? r : "/sim/cwd/" + r; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '/' && o.size() && o.back() == '/') continue; o += p[i]; } return o; }
static bool follow(std::string p, std::string &out)
{
	for (int i = 0; i < 10; i++) {
		p = norm(p);
		auto it = names.find(p);
		if (it == names.end() || !it->second.link) { out = p; return it != names.end(); }
		std::string t = it->second.target;
		if (!t.empty() && t[0] == '/') p = t; else p = p.substr(0, p.rfind('/') + 1) + t;
	}
	out = p; return false;
}
bool exists(const std::string &p) { K k; return names.count(norm(p)); }
std::string link_target(const std::string &p) { K k; auto it = names.find(norm(p)); return it != names.end() && it->second.link ? it->second.target : std::string(); }
bool resolve(const std::string &p, std::string &out) { K k; return follow(p, out) && !names[out].dir; }
static Gen *gen_at(const std::string &p) { std::string o; if (!follow(p, o) || names[o].dir) return 0; return &gens[cur_gen[names[o].ino] - 1]; }
bool read_file(const std::string &p, std::string &out) { K k; Gen *x = gen_at(p); if (!x) return false; out = x->data; return true; }
static Node &create(const std::string &p) { Node n; n.link = n.dir = false; n.ino = ++next_ino; n.gen = new_gen(n.ino, p); names[p] = n; return names[p]; }
void write_file(const std::string &p, const std::string &d) { K k; Gen *x = gen_at(p); if (!x) { create(norm(p)); x = gen_at(p); } x->data = d; }
void append_file(const std::string &p, const std::string &d) { K k; Gen *x = gen_at(p); if (!x) { create(norm(p)); x = gen_at(p); } x->data += d; wake_obj(&names, 1000); }
std::vector<std::string> list() { K k; std::vector<std::string> v; for (auto &x : names) if (!x.second.dir) v.push_back(x.first); return v; }
u64 inode_of(const std::string &p) { K k; std::string o; if (!follow(p, o) || names[o].dir) return 0; return cur_gen[names[o].ino]; }
std::string inode_data(u64 i) { return gens[i - 1].data; }
u64 inode_created(u64 i) { return gens[i - 1].created; }
std::string inode_name_at_creation(u64 i) { return gens[i - 1].path; }
bool inode_destroyed(u64 i) { return gens[i - 1].destroyed; }
std::vector<u64> inodes() { K k; std::vector<u64> v; for (size_t i = 0; i < gens.size(); i++) v.push_back(i + 1); return v; }
void on_change(std::function<void(const char *, const std::string &)> cb) { change_cb = cb; }
void close_all() { for (size_t i = 3; i < fds.size(); i++) { fds[i].used = true; fds[i].dead = true; } }
int open_fds() { int n = 0; for (size_t i = 3; i < fds.size(); i++) n += fds[i].used && !fds[i].dead; return n; }
void set_capacity(i64 b) { capacity = b; }
i64 used() { return used_bytes; }

static int new_fd(u64 ino, int flags, const std::string &p)
{
	size_t i = 3; while (i < fds.size() && fds[i].used) i++;
	if (i >= fds.size()) fds.resize(i + 1);
	Desc d; d.used = true; d.ino = ino; d.pos = 0; d.flags = flags; d.inotify = false; d.path = p; d.seen = 0; d.fdflags = 0; d.dead = false; fds[i] = d;
	return BASE + i;
}
static Desc *desc(int fd)
{
	if (fd == 1 || fd == 2) return &fds[fd];
	int i = fd - BASE; if (i < 3 || (size_t) i >= fds.size() || !fds[i].used) return 0;
	return &fds[i];
}
static bool parent_ok(const std::string &p) { size_t s = p.rfind('/'); if (s == 0 || s == p.npos) return false; auto it = names.find(p.substr(0, s)); return it != names.end() && it->second.dir; }
static int do_open(const char *path, int flags, bool quiet)
{
	std::string p = norm(path), o;
	if (!quiet && armed_fault(F_OPEN)) { errno = EMFILE; return -1; }
	if (!quiet) { static const int es[] = { EMFILE, EACCES, ENOSPC, ENOENT, EINTR }; i64 f = vfault(F_OPEN, p, 0, 3); if (f >= 0) { errno = es[f]; return -1; } }
	bool ex = follow(p, o);
	if (ex && names[o].dir) { errno = EISDIR; return -1; }
	if (!ex) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if (!parent_ok(o)) { errno = ENOENT; return -1; }
		create(o); changed("create", o);
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (flags & O_TRUNC) { Gen &x = gens[cur_gen[names[o].ino] - 1]; if (x.data.size() || true) { used_bytes -= x.data.size(); x.destroyed = true; new_gen(names[o].ino, o); } changed("truncate", o); }
	}
	return new_fd(names[o].ino, flags, o);
}
static i64 do_write(Desc *d, const u8 *p, size_t n, bool pw, u64 off)
{
	Gen &x = gens[cur_gen[d->ino] - 1];
	if (capacity >= 0) { i64 room = capacity - used_bytes; if (room <= 0 && n) { g.res->fired[F_DISKFULL]++; errno = ENOSPC; return -1; } if ((i64) n > room) n = room; }
	u64 pos = pw ? off : (d->flags & O_APPEND) ? x.data.size() : d->pos;
	if (pos > x.data.size()) x.data.resize(pos);
	size_t over = x.data.size() - pos < n ? n - (x.data.size() - pos) : 0;
	x.data.replace(pos, std::min(n, x.data.size() - pos), (const char *) p, n);
	used_bytes += over;
	if (!pw) d->pos = pos + n;
	wake_obj(&names, 1000);
	if (g.verbose && d->path == "/sim/dev/stderr") logf("stderr: %.*s", (int) n, (const char *) p);
	changed("write", d->path);
	return n;
}
// one write system call of possibly several pieces; faults decided here
static i64 sys_writev(int fd, const struct iovec *iov, int cnt, bool may_yield)
{
	Desc *d = desc(fd);
	if (!d) { errno = EBADF; return -1; }
	if ((d->flags & O_ACCMODE) == O_RDONLY && fd > 2) { errno = EBADF; return -1; }
	size_t tot = 0; for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
	if (may_yield) {
		if (vfault(F_EINTR, d->path, 0, 0) >= 0) { errno = EINTR; return -1; }
		static const int es[] = { EIO, ENOSPC, EDQUOT, EPIPE };
		i64 e = vfault(F_WERR, d->path, 0, 3); if (e >= 0) { errno = es[e]; return -1; }
		i64 sl = slow_ok ? vfault(F_SLOWIO, d->path, 1000, 30000000) : -1;
		if (sl > 0) { i64 t = g.mono + sl; while (g.mono < t) block("slow write", 0, t); d = desc(fd); if (!d) { errno = EBADF; return -1; } }
	} else { static const int es[] = { EIO, ENOSPC, EDQUOT, EPIPE }; i64 e = vfault(F_WERR, d->path, 0, 3); if (e >= 0) { errno = es[e]; return -1; } }
	size_t lim = tot;
	if (tot > 1) { i64 s = vfault(F_SHORT, d->path, 1, tot - 1); if (s > 0) lim = s; }
	std::string buf; for (int i = 0; i < cnt; i++) buf.append((const char *) iov[i].iov_base, iov[i].iov_len);
	if (!tot) return 0;
	return do_write(d, (const u8 *) buf.data(), lim, false, 0);
}
static i64 sys_read(int fd, void *p, size_t n, bool pr, u64 off)
{
	Desc *d = desc(fd);
	if (!d) { errno = EBADF; return -1; }
	if (d->inotify) {
		while (1) {
			if (vfault(F_EINTR, "inotify", 0, 0) >= 0) { errno = EINTR; return -1; }      // stop and continue signals interrupt this read
			auto &x = gens[cur_gen[d->ino] - 1];
			if (x.data.size() != d->seen) { d->seen = x.data.size(); if (n < sizeof(struct inotify_event)) { errno = EINVAL; return -1; } struct inotify_event *e = (struct inotify_event *) p; memset(e, 0, sizeof *e); e->wd = 1; e->mask = IN_MODIFY; return sizeof *e; }
			block("waiting for a file change", &names, -1);
			d = desc(fd); if (!d) { errno = EBADF; return -1; }
		}
	}
	if (fault(F_EINTR) >= 0) { errno = EINTR; return -1; }
	if (fault(F_RERR) >= 0) { errno = EIO; return -1; }
	Gen &x = gens[cur_gen[d->ino] - 1];
	u64 pos = pr ? off : d->pos;
	if (pos >= x.data.size() || !n) return 0;
	size_t m = std::min((u64) n, (u64)(x.data.size() - pos));
	if (m > 1) { i64 s = fault(F_READSHORT, 1, m - 1); if (s > 0) m = s; }
	memcpy(p, x.data.data() + pos, m);
	if (!pr) d->pos = pos + m;
	return m;
}
static int set_symlink(const char *t, const char *l)
{
	std::string p = norm(l);
	static const int es[] = { ENOSPC, EIO, EACCES };
	i64 f = fault(F_SYMLINK, 0, 2); if (f >= 0) { errno = es[f]; return -1; }
	if (names.count(p)) { errno = EEXIST; return -1; }
	if (!parent_ok(p)) { errno = ENOENT; return -1; }
	Node n; n.link = true; n.target = t; n.gen = 0; n.ino = ++next_ino; n.dir = false; names[p] = n; changed("symlink", p); return 0;
}
static int do_unlink(const char *q) { std::string p = norm(q); auto it = names.find(p); if (it == names.end()) { errno = ENOENT; return -1; } if (it->second.dir) { errno = EISDIR; return -1; } names.erase(it); changed("unlink", p); return 0; }
static int do_rename(const char *a, const char *b)
{
	std::string x = norm(a), y = norm(b); auto it = names.find(x);
	static const int es[] = { ENOSPC, EIO, EACCES };
	i64 f = fault(F_RENAME, 0, 2); if (f >= 0) { errno = es[f]; return -1; }
	if (it == names.end() || !parent_ok(y)) { errno = ENOENT; return -1; }
	auto yt = names.find(y); if (yt != names.end() && yt->second.dir) { errno = EISDIR; return -1; }
	Node n = it->second; names.erase(it); names[y] = n; changed("rename", y); return 0;
}
static void fill_stat(struct stat *s, const Node &n) { memset(s, 0, sizeof *s); s->st_ino = n.ino; s->st_nlink = 1; s->st_blksize = 4096; if (n.dir) s->st_mode = S_IFDIR | 0755; else if (n.link) { s->st_mode = S_IFLNK | 0777; s->st_size = n.target.size(); } else { s->st_mode = S_IFREG | 0644; s->st_size = gens[cur_gen[n.ino] - 1].data.size(); } }

// ---- stdio ------------------------------------------------------------------------------------------
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	K k; int fd = (int)(long) c; size_t o = 0;
	while (o < n) { struct iovec v = { (void *)(b + o), n - o }; i64 r = sys_writev(fd, &v, 1, false); if (r < 0) break; o += r; }
	return o;
}
static ssize_t ck_read(void *c, char *b, size_t n) { K k; return sys_read((int)(long) c, b, n, false, 0); }
static int ck_close(void *c) { K k; Desc *d = desc((int)(long) c); if (!d) { errno = EBADF; return -1; } if ((long) c > 2) { d->used = false; changed("close", d->path); } return 0; }
static int ck_seek(void *c, off64_t *o, int w) { Desc *d = desc((int)(long) c); if (!d) return -1; u64 sz = gens[cur_gen[d->ino] - 1].data.size(); i64 p = w == SEEK_SET ? *o : w == SEEK_CUR ? (i64) d->pos + *o : (i64) sz + *o; d->pos = p; *o = p; return 0; }
static FILE *wrap(int fd, const char *mode) { cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close }; return fopencookie((void *)(long) fd, mode, io); }
static std::map<FILE *, int> filefd;
static void mkd(const char *p) { Node n; n.link = false; n.dir = true; n.gen = 0; n.ino = ++next_ino; names[p] = n; }
void make_dir(const std::string &p) { K k; mkd(p.c_str()); }
static void init()
{
	capacity = -1; used_bytes = 0; next_ino = 0; fds.resize(3); mkd("/sim"); mkd("/sim/log"); mkd("/sim/dev"); mkd("/sim/alt"); mkd("/sim/pipe"); mkd("/sim/cwd"); mkd("/sim/cwd/reldir"); mkd("/sim/cwd/relsub"); mkd("/sim/cwd/relsub/d");
	for (int i = 1; i <= 2; i++) { const char *p = i == 1 ? "/sim/dev/stdout" : "/sim/dev/stderr"; Node &n = create(p); Desc d; d.used = true; d.ino = n.ino; d.pos = 0; d.flags = O_WRONLY | O_APPEND; d.inotify = false; d.path = p; d.seen = 0; d.fdflags = 0; d.dead = false; fds[i] = d; }
	stdout = wrap(1, "w"); stderr = wrap(2, "w"); setvbuf(stderr, 0, _IONBF, 0); static char obuf[8192]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
}
static FILE *open_path(const char *path, const char *mode)
{
	int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
	if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC; if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
	int fd = do_open(path, fl, false); if (fd < 0) return 0;
	FILE *f = wrap(fd, mode); if (!f) { desc(fd)->used = false; return 0; }
	filefd[f] = fd; return f;
}
FILE *open_stream(const char *p) { K k; return open_path(p, "w"); }
} // vfs
void vfs_reset() { vfs::init(); }
}

using namespace sim; using namespace sim::vfs;
static bool on() { return g.cur && g.active; }
static bool simp(const char *p) { return on() && ((!strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4])) || !strncmp(p, "rel", 3)); }
static bool blocked(const char *p) { return on() && !g.in_kernel && !g.cur->quiet && !simp(p) && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6) && strncmp(p, "/etc/", 5) && strncmp(p, "/usr/", 5) && strncmp(p, "/sys/", 5); }
static bool simfd(int fd) { return on() && (fd >= BASE || ((fd == 1 || fd == 2) && !g.in_kernel)); }
#define SYSP(what) if (on() && !g.in_kernel && !g.cur->quiet) { g.cur->n_sys++; point(2, PC, what); } K k_

EXP int open(const char *p, int fl, ...)
{
	int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
	if (simp(p)) { SYSP("open"); return do_open(p, fl, g.cur->quiet); }
	if (blocked(p) && (fl & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC))) { errno = EACCES; return -1; }
	return sysc(SYS_open, p, fl, mode);
}
EXP int open64(const char *p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } return open(p, fl, mode); }
EXP int openat(int d, const char *p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } if (p[0] == '/' || simp(p)) return open(p, fl, mode); return sysc(SYS_openat, d, p, fl, mode); }
EXP int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP int close(int fd)
{
	if (!simfd(fd)) { if (on() && !g.in_kernel && !g.cur->quiet) { g.cur->n_sys++; errno = EBADF; return -1; } return sysc(SYS_close, fd); }
	SYSP("close"); Desc *d = desc(fd); if (!d || fd <= 2) { if (fd > 2) nbad_close++; errno = EBADF; return fd <= 2 ? 0 : -1; } d->used = false; changed("close", d->path); return 0;
}
EXP ssize_t writev(int fd, const struct iovec *v, int n)
{
	if (!simfd(fd)) { if (on() && !g.in_kernel && !g.cur->quiet) { SYSP("writev"); errno = EBADF; return -1; } return sysc(SYS_writev, fd, v, n); }
	if (!g.in_kernel && !g.cur->quiet) for (int i = 0; i < n; i++) access_range(v[i].iov_base, v[i].iov_len, false, PC);
	ssize_t r; { SYSP("writev"); r = sys_writev(fd, v, n, true); }
	return r;
}
EXP ssize_t write(int fd, const void *p, size_t n)
{
	if (!simfd(fd)) { if (on() && !g.in_kernel && !g.cur->quiet) { SYSP("write"); errno = EBADF; return -1; } return sysc(SYS_write, fd, p, n); }
	struct iovec v = { (void *) p, n }; if (!g.in_kernel && !g.cur->quiet) access_range(p, n, false, PC);
	ssize_t r; { SYSP("write"); r = sys_writev(fd, &v, 1, true); }
	return r;
}
EXP ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { if (!simfd(fd)) return sysc(SYS_pwrite64, fd, p, n, o); SYSP("pwrite"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; } return do_write(d, (const u8 *) p, n, true, o); }
EXP ssize_t read(int fd, void *p, size_t n)
{
	if (!simfd(fd)) { if (on() && !g.in_kernel && !g.cur->quiet && fd < 0) { errno = EBADF; return -1; } return sysc(SYS_read, fd, p, n); }
	if (!g.in_kernel && !g.cur->quiet) access_range(p, n, true, PC);
	ssize_t r; { SYSP("read"); r = sys_read(fd, p, n, false, 0); } return r;
}
EXP ssize_t readv(int fd, const struct iovec *v, int n) { if (!simfd(fd)) return sysc(SYS_readv, fd, v, n); ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; } return t; }
EXP ssize_t pread(int fd, void *p, size_t n, off_t o) { if (!simfd(fd)) return sysc(SYS_pread64, fd, p, n, o); SYSP("pread"); return sys_read(fd, p, n, true, o); }
EXP off_t lseek(int fd, off_t o, int w)
{
	if (!simfd(fd)) return sysc(SYS_lseek, fd, o, w);
	SYSP("lseek"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; } if (fd <= 2) { errno = ESPIPE; return -1; }
	u64 sz = gens[cur_gen[d->ino] - 1].data.size(); i64 p = w == SEEK_SET ? o : w == SEEK_CUR ? (i64) d->pos + o : (i64) sz + o; if (p < 0) { errno = EINVAL; return -1; } d->pos = p; return p;
}
EXP int fsync(int fd) { if (!simfd(fd)) { if (on() && !g.in_kernel && !g.cur->quiet) { errno = EBADF; return -1; } return sysc(SYS_fsync, fd); } SYSP("fsync"); i64 s = fault(F_SLOWIO, 1000, 30000000); if (s > 0) { i64 t = g.mono + s; while (g.mono < t) block("slow fsync", 0, t); } if (fault(F_FSYNC) >= 0) { errno = EIO; return -1; } if (!desc(fd)) { errno = EBADF; return -1; } return 0; }
EXP int fdatasync(int fd) { return fsync(fd); }
EXP int ftruncate(int fd, off_t n) { if (!simfd(fd)) return sysc(SYS_ftruncate, fd, n); SYSP("ftruncate"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; } Gen &x = gens[cur_gen[d->ino] - 1]; used_bytes += (i64) n - (i64) x.data.size(); x.data.resize(n); changed("truncate", d->path); return 0; }
EXP int posix_fadvise(int, off_t, off_t, int) { return 0; }
EXP int posix_fallocate(int, off_t, off_t) { return 0; }
EXP int symlink(const char *t, const char *l) { if (simp(l)) { SYSP("symlink"); return set_symlink(t, l); } if (blocked(l)) { errno = EACCES; return -1; } return sysc(SYS_symlink, t, l); }
EXP ssize_t readlink(const char *p, char *b, size_t n)
{
	if (!simp(p)) return sysc(SYS_readlink, p, b, n);
	SYSP("readlink"); auto it = names.find(norm(p)); if (it == names.end()) { errno = ENOENT; return -1; } if (!it->second.link) { errno = EINVAL; return -1; }
	size_t m = std::min(n, it->second.target.size()); memcpy(b, it->second.target.data(), m); return m;
}
EXP int rename(const char *a, const char *b) { if (simp(b)) { SYSP("rename"); return do_rename(a, b); } if (blocked(b)) { errno = EACCES; return -1; } return sysc(SYS_rename, a, b); }
EXP int unlink(const char *p) { if (simp(p)) { SYSP("unlink"); return do_unlink(p); } if (blocked(p)) { errno = EACCES; return -1; } return sysc(SYS_unlink, p); }
EXP int remove(const char *p) { if (simp(p)) { SYSP("remove"); return do_unlink(p); } if (blocked(p)) { errno = EACCES; return -1; } return sysc(SYS_unlink, p); }
EXP int link(const char *a, const char *b) { if (!simp(b)) { if (blocked(b)) { errno = EACCES; return -1; } return sysc(SYS_link, a, b); } SYSP("link"); auto it = names.find(norm(a)); if (it == names.end()) { errno = ENOENT; return -1; } if (names.count(norm(b))) { errno = EEXIST; return -1; } Node n = it->second; names[norm(b)] = n; changed("link", b); return 0; }
EXP int mkdir(const char *p, mode_t m) { if (!simp(p)) { if (blocked(p)) { errno = EACCES; return -1; } return sysc(SYS_mkdir, p, m); } SYSP("mkdir"); if (names.count(norm(p))) { errno = EEXIST; return -1; } if (!parent_ok(norm(p))) { errno = ENOENT; return -1; } mkd(norm(p).c_str()); return 0; }
EXP int access(const char *p, int m) { if (!simp(p)) return sysc(SYS_access, p, m); SYSP("access"); std::string o; if (!follow(p, o)) { errno = ENOENT; return -1; } return 0; }
EXP int stat(const char *p, struct stat *s) { if (!simp(p)) return sysc(SYS_stat, p, s); SYSP("stat"); std::string o; if (!follow(p, o)) { errno = ENOENT; return -1; } fill_stat(s, names[o]); return 0; }
EXP int lstat(const char *p, struct stat *s) { if (!simp(p)) return sysc(SYS_lstat, p, s); SYSP("lstat"); auto it = names.find(norm(p)); if (it == names.end()) { errno = ENOENT; return -1; } fill_stat(s, it->second); return 0; }
EXP int fstat(int fd, struct stat *s) { if (!simfd(fd)) return sysc(SYS_fstat, fd, s); SYSP("fstat"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; } Node n; n.dir = n.link = false; n.ino = d->ino; fill_stat(s, n); return 0; }
EXP int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *) s); }
EXP int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *) s); }
EXP int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *) s); }
EXP int fcntl(int fd, int c, ...)
{
	va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a);
	if (!simfd(fd)) return sysc(SYS_fcntl, fd, c, v);
	SYSP("fcntl"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; }
	if (c == F_GETFL) return d->flags; if (c == F_SETFL) { d->flags = (d->flags & ~(O_APPEND | O_NONBLOCK)) | (v & (O_APPEND | O_NONBLOCK)); return 0; }
	if (c == F_GETFD) return d->fdflags; if (c == F_SETFD) { d->fdflags = v; return 0; }
	if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) { int n = new_fd(d->ino, d->flags, d->path); return n; }
	errno = EINVAL; return -1;
}
EXP int dup(int fd) { if (!simfd(fd)) return sysc(SYS_dup, fd); SYSP("dup"); Desc *d = desc(fd); if (!d) { errno = EBADF; return -1; } return new_fd(d->ino, d->flags, d->path); }
EXP int isatty(int fd) { if (simfd(fd)) { errno = ENOTTY; return 0; } char t[128]; return sysc(SYS_ioctl, fd, 0x5401, t) == 0; }
EXP int inotify_init() { if (!on()) return sysc(SYS_inotify_init1, 0); SYSP("inotify_init"); int fd = new_fd(0, O_RDONLY, "inotify"); desc(fd)->inotify = true; return fd; }
EXP int inotify_init1(int) { return inotify_init(); }
EXP int inotify_add_watch(int fd, const char *p, u32 m) { if (!simfd(fd)) return sysc(SYS_inotify_add_watch, fd, p, m); SYSP("inotify_add_watch"); Desc *d = desc(fd); std::string o; if (!d || !follow(p, o)) { errno = ENOENT; return -1; } d->ino = names[o].ino; d->seen = gens[cur_gen[d->ino] - 1].data.size(); return 1; }
EXP int inotify_rm_watch(int, int) { return 0; }

EXP int poll(struct pollfd *p, nfds_t n, int ms)
{
	if (!on()) return sysc(SYS_poll, p, n, ms);
	SYSP("poll"); i64 dl = ms < 0 ? -1 : g.mono + (i64) ms * 1000000;
	while (1) {
		int c = 0;
		for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Desc *d = p[i].fd >= 0 ? desc(p[i].fd) : 0; if (!d) continue; if (d->inotify) { if (gens[cur_gen[d->ino] - 1].data.size() != d->seen) p[i].revents |= p[i].events & POLLIN; } else p[i].revents |= p[i].events & (POLLIN | POLLOUT); if (p[i].revents) c++; }
		if (c) return c; if (dl >= 0 && g.mono >= dl) return 0;
		block("poll", &names, dl);
	}
}
EXP int select(int, fd_set *, fd_set *, fd_set *, struct timeval *t) { if (!on()) return sysc(SYS_select, 0, 0, 0, 0, t); SYSP("select"); i64 d = t ? g.mono + (i64) t->tv_sec * 1000000000 + (i64) t->tv_usec * 1000 : -1; while (d < 0 || g.mono < d) block("select", 0, d); return 0; }

typedef FILE *(*fopen_t)(const char *, const char *);
#include <dlfcn.h>
EXP FILE *fopen(const char *p, const char *m)
{
	if (simp(p)) { SYSP("fopen"); return open_path(p, m); }
	if (blocked(p) && m[0] != 'r') { errno = EACCES; return 0; }
	static fopen_t real; if (!real) real = (fopen_t) dlsym(RTLD_NEXT, "fopen"); return real(p, m);
}
EXP FILE *fopen64(const char *p, const char *m)
{
	if (on()) return fopen(p, m);
	static fopen_t real; if (!real) real = (fopen_t) dlsym(RTLD_NEXT, "fopen64"); return real(p, m);
}
EXP FILE *fdopen(int fd, const char *m)
{
	if (simfd(fd)) { SYSP("fdopen"); if (!desc(fd)) { errno = EBADF; return 0; } FILE *f = wrap(fd, m); if (f) filefd[f] = fd; return f; }
	static FILE *(*real)(int, const char *); if (!real) real = (FILE *(*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen"); return real(fd, m);
}
EXP int fileno(FILE *f) __attribute__((nothrow));
EXP int fileno(FILE *f)
{
	if (on()) { if (f == stdout) return 1; if (f == stderr) return 2; auto it = filefd.find(f); if (it != filefd.end()) return it->second; }
	return f->_fileno;
}
// A command run by popen: its standard input is the file /sim/pipe/<n>; fault "open" makes it fail.
static int npipes;
EXP FILE *popen(const char *cmd, const char *m)
{
	if (!on()) { errno = ENOSYS; return 0; }
	SYSP("popen"); (void) cmd; char b[64]; snprintf(b, sizeof b, "/sim/pipe/%d", npipes);
	FILE *f = open_path(b, m[0] == 'r' ? "r" : "w"); if (f) npipes++; return f;
}
EXP int pclose(FILE *f) { return fclose(f); }
EXP int system(const char *) { errno = ENOSYS; return -1; }
