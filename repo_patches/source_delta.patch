From 3403de05f24d3f2e3187c095f9f820592d10a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 01/46] fix: wake up blocked writers even if their ring had no
 new records

With TSO enabled the engine signalled blocked writers only after committing
records of their ring. A writer that found the ring full right before such a
commit and went to sleep right after it was never woken up again.
---
 src/engine.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..dd64209 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -473,16 +473,19 @@ void engine::process_rings_tso()
 
 	// Commit all changes
 	for (i = 0; i < _ring_index.count; i++) {
-		if (!_ring_index(i)->lastrec)
-			continue;
-
 		ringbuf::pop_iterator &it = _ring_index(i)->pit;
 		if (hogl_unlikely(!it.valid()))
 			continue;
-		it.rewind(_ring_index(i)->lastrec);
-		it.commit(ringbuf::NOBARRIER);
+
+		if (_ring_index(i)->lastrec) {
+			it.rewind(_ring_index(i)->lastrec);
+			it.commit(ringbuf::NOBARRIER);
+			_ring_index(i)->lastrec = 0;
+		}
+
+		// The writer might have decided to block after our last commit.
+		// It must be woken up even if there was nothing new in its ring.
 		it.ring()->unblock();
-		_ring_index(i)->lastrec = 0;
 	}
 }
 
-- 
2.43.0


From 4d856a827c8f1355e9f7bd2a080b6bbd8a098c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 02/46] fix: do not kill a ring that got a new owner

The engine decided that a ring is an orphan without holding the ring mutex.
If add_ring() or find_ring() handed that ring out before the engine removed
it from the map, the new owner was left with a ring that nobody serves.
---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index dd64209..0dacaf0 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Recheck under the lock. Somebody might have found this ring by name,
+		// and used it since the caller looked at it.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From c8e0cf90035c14099881f15cfc76aa07340b5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 03/46] fix: give a new ring the timesource under the ring
 mutex

Otherwise a timesource change that runs between reading the current
timesource and inserting the ring into the map misses the new ring.
---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 0dacaf0..243f1d2 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -660,9 +660,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From 998565e5253b853fe5bd21d68221540c595b3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 04/46] fix: apply the mask to a new area under the area mutex

Applying it later races with apply_mask(), which could leave the area with
the old mask, and exposed areas with no mask applied to concurrent callers.
---
 src/engine.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 243f1d2..f0f5b3a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -623,13 +623,13 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
+	// Apply current mask to the new area before anybody else can see it.
+	if (s.second != false)
+		_mask.apply(a);
 	pthread_mutex_unlock(&_area_mutex);
 
 	if (s.second != false) {
 		// New area.
-		// Apply current mask before returning the area to the caller.
-		_mask.apply(a);
-
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From a4deb79d27b61b8899dbd71fd9103c166c53d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 05/46] fix: TSO buffer with capacity of one record overflows

Half of one is zero, i.e. nothing was flushed from the full buffer and the
next record was pushed past its end.
---
 src/engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index f0f5b3a..d82e4cf 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -393,7 +393,7 @@ void engine::do_flush_tso(unsigned int size)
 // We only flush half of it to avoid flushing records out-of-order.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2; // make room for at least one record
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 16474d0ed07ccd236d34b1ed5ee1dbf86526bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 06/46] fix: flush the output before acknowledging a flush
 request

The request was acknowledged as soon as the engine reached it. At that point
the records posted before it could still be sitting in the output buffer.
---
 src/engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index d82e4cf..c68caf1 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -304,6 +304,11 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything that is already in the output buffer must hit
+			// the sink before we ack it.
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From d630e885749fcf626a2b03a53cd9e89dad030bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 07/46] fix: flush and timesource change that time out must not
 look like a drop

They took a sequence number before waiting for room in the ring. If the ring
stayed full the number was never used, and the engine reported it as a
dropped record.
---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f3b17db 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From 2139489ca2b74c9108ae1aaba1cfd75a270c049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 08/46] fix: start the output_file helper thread when
 everything else is ready

The thread used the symlink name while the constructor was still building it.
And if the file could not be opened the constructor threw an exception
leaving the thread behind, using a destroyed object.
---
 src/output-file.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..67bdbc5 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -254,14 +254,8 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
+	output::init(new ostrbuf_file(*this, opts.buffer_capacity));
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (_fd < 0) {
@@ -270,12 +264,20 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 		throw std::runtime_error("hogl::output_file: failed open file");
 	}
 
-	output::init(new ostrbuf_file(*this, opts.buffer_capacity));
-
 	// Write format header
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// Must be the last step because it uses fields initialized above and there
+	// is nobody to stop it if we fail.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
-- 
2.43.0


From b1d254f4cc4fdf317b8072c836f3ef1f2a462e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 09/46] fix: output_file helper thread must not miss early
 signals

A rotation request, or the shutdown, signalled before the helper thread
started waiting on the condition was lost. Lost rotation request disables
rotation for good because it stays pending, lost shutdown hangs the destructor.
---
 src/output-file.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 67bdbc5..dc8aee7 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -422,15 +422,16 @@ void output_file::thread_loop()
 
 	pthread_mutex_lock(&_rotate_mutex);
 
-	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
-		if (_killed)
-			break;
-
+	// Check the flags before going to sleep. They can be set, and the condition
+	// signalled, before this thread gets here.
+	while (!_killed) {
 		if (_rotate_pending) {
 			do_rotate();
 			_rotate_pending = false;
+			continue;
 		}
+
+		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From 3efaf8b7f2b54c1dbf6333e0976e127d196fc2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 10/46] fix: failed rotation must not advance the chunk number

Each failed attempt skipped a number, and truncated yet another old chunk if
it was writing the header that failed. A switch to a new name that failed was
not retried until the current chunk exceeded the size limit.
---
 include/hogl/output-file.hpp |  1 +
 src/output-file.cc           | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/hogl/output-file.hpp b/include/hogl/output-file.hpp
index 8989b79..161a2a1 100644
--- a/include/hogl/output-file.hpp
+++ b/include/hogl/output-file.hpp
@@ -145,6 +145,7 @@ private:
 	pthread_mutex_t _rotate_mutex;   /// Mutex that protects rotate state
 	pthread_cond_t  _rotate_cond;    /// Rotate signaling
 	volatile bool   _rotate_pending; /// Rotate is pending
+	volatile bool   _rotate_retry;   /// Last rotation attempt failed
 	hogl::schedparam* _rotate_schedparam; /// Scheduler params for the rotation thread
 
 	// No copies
diff --git a/src/output-file.cc b/src/output-file.cc
index dc8aee7..cb5b25e 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -248,7 +248,7 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 		_max_size(opts.max_size), _max_count(opts.max_count), _mode(opts.perms),
 		_fd(-1), _size(0),
 		_running(false), _killed(false),
-		_rotate_pending(false), _rotate_schedparam(opts.schedparam)
+		_rotate_pending(false), _rotate_retry(false), _rotate_schedparam(opts.schedparam)
 {
 	pthread_mutex_init(&_write_mutex, NULL);
 	pthread_mutex_init(&_rotate_mutex, NULL);
@@ -315,7 +315,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 	n = ::writev(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
-		if (_size >= _max_size && !_rotate_pending) {
+		if ((_size >= _max_size || _rotate_retry) && !_rotate_pending) {
 			// Try to wakeup rotation thread.
 			// If we can't lock the mutex that means the rotation thread 
 			// is still busy rotating things. So we'll just retry next 
@@ -345,6 +345,9 @@ void output_file::do_rotate()
 {
 	int ofd = _fd;
 
+	const unsigned int oindex = _name_index;
+	const std::string  oname  = _name;
+
 	_name_index++;
 	if (_name_index >= _max_count)
 		_name_index = 0;
@@ -354,6 +357,9 @@ void output_file::do_rotate()
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (nfd < 0) {
 		// Retry later. Let the writer thread wake us up again.
+		_name_index = oindex;
+		_name = oname;
+		_rotate_retry = true;
 		return;
 	}
 
@@ -366,9 +372,14 @@ void output_file::do_rotate()
 	if (nsb.failed()) {
 		// Failed to write. Retry later.
 		close(nfd);
+		_name_index = oindex;
+		_name = oname;
+		_rotate_retry = true;
 		return;
 	}
 
+	_rotate_retry = false;
+
 	// Swap the fd
 	pthread_mutex_lock(&_write_mutex);
 	_fd   = nfd;
-- 
2.43.0


From 59f6422701d5c6036ef9f4f0e98d52c18315f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 11/46] fix: update the symlink before writing into the new
 chunk

If the process dies between swapping the descriptor and updating the link
the next instance picks the number of the newest chunk again and truncates it.
---
 src/output-file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index cb5b25e..6fc1606 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -380,6 +380,10 @@ void output_file::do_rotate()
 
 	_rotate_retry = false;
 
+	// Update the link before any data goes into the new chunk. If we crash later
+	// the next instance starts after the chunk that the link is pointing to.
+	update_link();
+
 	// Swap the fd
 	pthread_mutex_lock(&_write_mutex);
 	_fd   = nfd;
@@ -388,8 +392,6 @@ void output_file::do_rotate()
 
 	//printf("rotate: switched fds - new %u old %u\n", nfd, ofd);
 
-	update_link();
-
 	// Generate footer, write it out and close the old chunk.
 	// Note that we don't check for write errors here because we 
 	// can't do much about them.
-- 
2.43.0


From 961ea2da15f63fcc0aa81020da218725b8ff4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 12/46] fix: switch_name() must not skip a chunk number

Number picked based on the link was advanced again by the rotation. With
only two chunks that is the number of the newest chunk of the new name which
was then truncated.
---
 src/output-file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 6fc1606..c1f98a4 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -463,6 +463,9 @@ bool output_file::switch_name(const char *filename)
 	// Reinit filename bits (sufx, etc)
 	init_name(filename);
 
+	// init_name() picked the next number to use, rotation will advance to it.
+	_name_index = (_name_index ? _name_index : _max_count) - 1;
+
 	// Trigger rotation
 	_rotate_pending = true;
 	pthread_cond_signal(&_rotate_cond);
-- 
2.43.0


From cf28bbede4dd05e834880458f982b21f3584216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 13/46] fix: continue short and interrupted writes

The rest of the data was lost if writev() wrote only a part of it (e.g. a pipe,
a socket or a full disk), and all of it if writev() was interrupted by a signal.
---
 include/hogl/detail/ostrbuf-fd.hpp |  9 +++++++
 src/ostrbuf-fd.cc                  | 42 ++++++++++++++++++++++++++++--
 src/output-file.cc                 |  9 ++++---
 3 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..0934633 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,8 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -53,6 +55,13 @@ public:
 		CLOSE_ON_DELETE = (1<<0) // Close the file descriptor on delete
 	};
 
+	/**
+	 * Write all data to the file descriptor.
+	 * Short and interrupted writes are continued.
+	 * @return number of bytes written. If that is less than requested errno explains why.
+	 */
+	static size_t full_writev(int fd, const struct iovec *iov, int iovcnt);
+
 	// Get file descriptor value
 	int fd() const { return _fd; }
 
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..63b6a39 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,45 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+size_t ostrbuf_fd::full_writev(int fd, const struct iovec *iov, int iovcnt)
+{
+	size_t total = 0;
+	size_t skip  = 0; // Number of bytes of the first vector that are already written
+
+	while (iovcnt > 0) {
+		ssize_t r;
+
+		if (skip == iov->iov_len) {
+			iov++; iovcnt--;
+			skip = 0;
+			continue;
+		}
+
+		if (skip)
+			r = ::write(fd, (const uint8_t *) iov->iov_base + skip, iov->iov_len - skip);
+		else
+			r = ::writev(fd, iov, iovcnt);
+
+		if (r < 0 && errno == EINTR)
+			continue;
+		if (r == 0)
+			errno = EIO;
+		if (r <= 0)
+			break;
+
+		total += r;
+
+		// Advance past the data that was written
+		skip += r;
+		while (iovcnt > 0 && skip >= iov->iov_len) {
+			skip -= iov->iov_len;
+			iov++; iovcnt--;
+		}
+	}
+
+	return total;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,8 +102,7 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
-		if (r < 0)
+		if (full_writev(_fd, iov, i) < _size + len)
 			ostrbuf::failure(strerror(errno));
 	}
 
diff --git a/src/output-file.cc b/src/output-file.cc
index c1f98a4..731b51a 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,8 +75,8 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
-			if (r < 0)
+			ssize_t r = _of.writev(iov, i);
+			if (r < 0 || (size_t) r < _size + len)
 				ostrbuf::failure(strerror(errno));
 		}
 
@@ -312,7 +312,10 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	errno = 0;
+	n = ostrbuf_fd::full_writev(_fd, iov, iovcnt);
+	if (!n && errno)
+		n = -1;
 	if (n > 0) {
 		_size += n;
 		if ((_size >= _max_size || _rotate_retry) && !_rotate_pending) {
-- 
2.43.0


From 080f3b3a3905730b8c9798d290472f76a9e42539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 14/46] fix: keep feeding the healthy branch of the tee

Once one of the branches failed the other one stopped getting data too.
---
 src/ostrbuf-tee.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ostrbuf-tee.cc b/src/ostrbuf-tee.cc
index c69db14..ae29578 100644
--- a/src/ostrbuf-tee.cc
+++ b/src/ostrbuf-tee.cc
@@ -49,8 +49,7 @@ const char* ostrbuf_tee::error() const
 
 void ostrbuf_tee::do_flush(const uint8_t *data, size_t len)
 {
-	if (failed())
-		return;
+	// A failed branch discards its data. Keep feeding the other one.
 
 	// Flush buffered data
 	if (_size) {
-- 
2.43.0


From 4d35ba144a03ca3aff1674da00d61ea3d8784499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 15/46] fix: flush stdio buffer in ostrbuf_stdio

Data that was flushed by the engine stayed in the stdio buffer (unless stdout
is a terminal) until some later data filled that buffer up.
---
 src/ostrbuf-stdio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ostrbuf-stdio.cc b/src/ostrbuf-stdio.cc
index 8a73c90..a670c3a 100644
--- a/src/ostrbuf-stdio.cc
+++ b/src/ostrbuf-stdio.cc
@@ -51,6 +51,9 @@ void ostrbuf_stdio::do_flush(const uint8_t *data, size_t len)
 	if (len)
 		fwrite(data, 1, len, _file);
 
+	// Don't leave the data in the stdio buffer
+	fflush(_file);
+
 	if (ferror(_file))
 		ostrbuf::failure(strerror(errno));
 
-- 
2.43.0


From 9f2ed41efd485c4ca5c11d1ade599c4c36a2a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/46] fix: keep the expected sequence number in the ring

An engine that picked up a ring used earlier with another engine (for example
the default ring after deactivate() and activate()) expected its sequence
numbers to start from zero and reported everything before that as dropped.
---
 include/hogl/detail/ringbuf.hpp |  4 ++++
 src/engine.cc                   | 12 +++++-------
 src/ringbuf.cc                  |  2 ++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..6409376 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -109,6 +109,10 @@ protected:
 	// R/O access by the writer
 	vo_uint         _head;
 
+	// Sequence number that the reader expects next.
+	// Survives moving the ring from one engine to another.
+	uint64_t        _popseq;
+
 	/**
  	 * Get a pointer the record with a specific index 
  	 * @param i record index.
diff --git a/src/engine.cc b/src/engine.cc
index c68caf1..47f3095 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,12 +218,7 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
-
-		ring_index::entry *re = oi(ring);
-		if (re) {
-			ni(i)->seqnum = re->seqnum;
-		}
+		ni(i)->seqnum    = ring->_popseq;
 	}
 
 	// Sort it by priority
@@ -294,7 +289,10 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 
 void engine::flush_record(unsigned int i, record *r)
 {
-	const ringbuf *ring = _ring_index(i)->pit.ring();
+	ringbuf *ring = _ring_index(i)->pit.ring();
+
+	// Must be updated before the record is acked
+	ring->_popseq = r->seqnum + 1;
 
 	if (r->special()) {
 		// Process special record
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..e949046 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -87,6 +87,7 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_flags    = opts.flags;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_popseq   = 0;
 	_timesource = &default_timesource;
 
 	_prio = opts.prio;
@@ -157,6 +158,7 @@ void ringbuf::reset(void)
 	_head = _capacity;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_popseq   = 0;
 	unlock();
 }
 
-- 
2.43.0


From 8e46630a7468e3bdf33b7ab9f8cf92048d0b6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 17/46] fix: output_file must write the header of the first
 chunk into that chunk

The header stayed in the output buffer until the first flush. If a rotation
(switch_name) came first the header ended up in the next chunk.
---
 src/output-file.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 731b51a..95d55aa 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -264,8 +264,11 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 		throw std::runtime_error("hogl::output_file: failed open file");
 	}
 
-	// Write format header
+	// Write format header.
+	// Don't leave it in the buffer, it has to end up in this chunk even if we
+	// rotate before the first flush.
 	output::header(_name.c_str());
+	output::flush();
 
 	update_link();
 
-- 
2.43.0


From 221a2c87be0b2372615e6045a164b17ee1593552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 18/46] fix: tls messages went into a ring of another engine

tls::update() and ~tls() posted their debug messages into the previous ring of
the thread. That is normally the default ring, which outlives the engine: the
next engine then read the freed internal area. It may also belong to another
engine. ~tls() of an invalid tls used the engine even though nothing keeps that
engine alive.
---
 src/tls.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/tls.cc b/src/tls.cc
index 6b889e3..7df7d66 100644
--- a/src/tls.cc
+++ b/src/tls.cc
@@ -50,11 +50,13 @@ void tls::update(ringbuf *r)
 	// hold a reference to the previous ring (ie current tls pointer)
 	_previous_ring = _ring->hold();
 
-	hogl::post(_engine->internal_area(), internal::TLS_DEBUG,
-		"created tls %p. ring %s(%p)", this, r->name(), r);
-
 	// Set TLS ring pointer
 	_ring = _current_ring = r;
+
+	// This must go into the new ring. The previous one may belong to another engine,
+	// which must never see a record that refers to the internal area of this one.
+	hogl::post(r, _engine->internal_area(), internal::TLS_DEBUG,
+		"created tls %p. ring %s(%p)", this, r->name(), r);
 }
 
 /**
@@ -83,11 +85,10 @@ tls::tls(ringbuf *r, engine *engine) :
 
 tls::~tls()
 {
-	// Looks like allocation failed in the constructor
-	if (!valid()) {
-		hogl::post(_engine->internal_area(), internal::WARN, "destroyed tls %p null-ring", this);
+	// Looks like allocation failed in the constructor.
+	// Without a ring nothing keeps the engine around, it may be gone by now.
+	if (!valid())
 		return;
-	}
 
 	// Set TLS ring pointer back to the previous ring
 	_ring = _previous_ring;
@@ -95,8 +96,10 @@ tls::~tls()
 	// release the reference to the previous ring
 	_previous_ring->release();
 
+	// The engine cannot go away until we release our ring, but it may have
+	// dropped the previous one already. So this goes into our ring too.
 	ringbuf *r = _current_ring;
-	hogl::post(_engine->internal_area(), internal::TLS_DEBUG,
+	hogl::post(r, _engine->internal_area(), internal::TLS_DEBUG,
 		"destroyed tls %p ring %p (empty %u)", this, r, r->empty());
 
 	r->release();
-- 
2.43.0


From e28a5f4b127f1e036249adfdab4a6678beef7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 19/46] fix: engines posted internal messages into rings they
 do not serve

add_area() and add_ring() report through the ring of the calling thread. When
that ring was served by another engine the message came out of the wrong output,
and it referred to an internal area that may be freed before it is output.
---
 include/hogl/detail/engine.hpp |  3 ++
 src/engine.cc                  | 50 ++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index da357ae..b70a9f6 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -177,6 +177,9 @@ private:
 	void switch_timesource(const ringbuf *ring, record *r);
 	void add_internal_area();
 
+	// Ring of the calling thread if it belongs to this engine, null otherwise
+	ringbuf *caller_ring() const;
+
 	void inject_record(const char *ring_name, timestamp ts, uint64_t seqnum, unsigned int sect, const char *fmt, 
 				uint64_t arg0 = 0, uint64_t arg1 = 0);
 	void inject_record(const char *ring_name, timestamp ts, uint64_t seqnum, unsigned int sect, const char *fmt, 
diff --git a/src/engine.cc b/src/engine.cc
index 47f3095..b955b1a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -597,6 +597,24 @@ void engine::loop()
 	_running = false;
 }
 
+/**
+ * Get the ring of the calling thread for posting internal messages.
+ * The messages refer to the internal area of this engine. They must not be posted into a ring
+ * that is served by another engine, or by nobody, because that area will be gone with this engine.
+ */
+ringbuf *engine::caller_ring() const
+{
+	ringbuf *r = tls::ring();
+
+	pthread_mutex_lock(&_ring_mutex);
+	ring_map::const_iterator it = _ring_map.find(r->name());
+	if (it == _ring_map.end() || it->second != r)
+		r = 0;
+	pthread_mutex_unlock(&_ring_mutex);
+
+	return r;
+}
+
 /**
  * Find log area by name
  */
@@ -633,8 +651,10 @@ area *engine::add_area(const char *name, const char **sections)
 
 	if (s.second != false) {
 		// New area.
-		hogl::post(internal_area(), internal::AREA_DEBUG,
-			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
+		ringbuf *cr = caller_ring();
+		if (cr)
+			hogl::post(cr, internal_area(), internal::AREA_DEBUG,
+				"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
 		return a;
 	}
@@ -647,8 +667,12 @@ area *engine::add_area(const char *name, const char **sections)
 	if (reuse)
 		return a;
 
-	hogl::post(internal_area(), internal::ERROR,
+	ringbuf *cr = caller_ring();
+	if (cr)
+		hogl::post(cr, internal_area(), internal::ERROR,
 			"failed to add area %s. already exists and is not reusable.", name);
+	else
+		fmt::fprintf(stderr, "hogl::engine: failed to add area %s. already exists and is not reusable.\n", name);
 	return 0;
 }
 
@@ -674,7 +698,9 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 		// Ring added. Invalidate the index.
 		_ring_index.dirty = true;
 
-		hogl::post(internal_area(), internal::RING_DEBUG,
+		ringbuf *cr = caller_ring();
+		if (cr)
+			hogl::post(cr, internal_area(), internal::RING_DEBUG,
 			"new ring %s(%p): prio %u capacity %u record-size %u",
 				nr->name(), nr, nr->prio(), nr->capacity(), nr->record_size());
 		
@@ -699,8 +725,12 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	if (r->reusable() && r->refcnt() == 2)
 		return r;
 
-	hogl::post(internal_area(), internal::ERROR,
-		"failed to add ring %s. already exists and is not reusable.", r->name());
+	ringbuf *cr = caller_ring();
+	if (cr)
+		hogl::post(cr, internal_area(), internal::ERROR,
+			"failed to add ring %s. already exists and is not reusable.", r->name());
+	else
+		fmt::fprintf(stderr, "hogl::engine: failed to add ring %s. already exists and is not reusable.\n", r->name());
 
 	// Cannot reuse it. Original owner is probably still alive.
 	// Drop the local reference.
@@ -725,8 +755,12 @@ bool engine::add_ring(ringbuf *r)
 	pthread_mutex_unlock(&_ring_mutex);
 
 	if (!s.second) {
-		hogl::post(internal_area(), internal::ERROR,
-			"failed to add ring %s. already exists.", r->name());
+		ringbuf *cr = caller_ring();
+		if (cr)
+			hogl::post(cr, internal_area(), internal::ERROR,
+				"failed to add ring %s. already exists.", r->name());
+		else
+			fmt::fprintf(stderr, "hogl::engine: failed to add ring %s. already exists.\n", r->name());
 	}
 
 	return s.second;
-- 
2.43.0


From a0dd93f583be4094135c4d0878317928507dfb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:06 +0000
Subject: [PATCH 20/46] fix: file_rdbuf gave up when a read was interrupted

---
 tools/rdbuf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/rdbuf.cc b/tools/rdbuf.cc
index 5a37787..922f776 100644
--- a/tools/rdbuf.cc
+++ b/tools/rdbuf.cc
@@ -100,6 +100,8 @@ bool file_rdbuf::read_in()
 retry:
 	ssize_t r = ::read(_fd, _data, _capacity);
 	if (r < 0) {
+		if (errno == EINTR)
+			goto retry;
 		_errno = errno;
 		return false;
 	}
@@ -107,7 +109,7 @@ retry:
 		if (_flags & TAILF) {
 			uint8_t buf[sizeof(struct inotify_event) + NAME_MAX + 1];
 			r = ::read(_ifd, buf, sizeof(buf));
-			if (r < 0) {
+			if (r < 0 && errno != EINTR) {
 				_errno = errno;
 				return false;
 			}
-- 
2.43.0


From df2570d074086935643dacad57c661342316197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 21/46] fix: raw_parser wrote past its record buffer on damaged
 input

---
 tools/raw-parser.cc  | 16 ++++++++++------
 tools/raw-parser.hpp | 23 +++++++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..1ca7804 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -75,6 +75,7 @@ void raw_parser::read_args(hogl::record &r)
 		if (_failed) return;
 
 		unsigned int type = r.get_arg_type(i);
+		unsigned long room = _max_record_size - r.header_size() - offset;
 		unsigned long n;
 
 		switch (type) {
@@ -88,7 +89,7 @@ void raw_parser::read_args(hogl::record &r)
 			r.set_arg_type(i, hogl::arg::CSTR);
 			// fall through
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, room, "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -96,9 +97,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, room, "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, room, "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -115,13 +116,16 @@ void raw_parser::read_args(hogl::record &r)
 }
 
 raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_record_size) :
-	_in(in), _ver(ver)
+	_in(in), _record(0), _ring_name(0), _ver(ver)
 {
 	reset();
 
+	// There must be enough room for the record itself
+	_max_record_size = std::max(max_record_size, (unsigned int) sizeof(hogl::record));
+
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
-	int err = posix_memalign((void **)&_record, 64, max_record_size);
+	int err = posix_memalign((void **)&_record, 64, _max_record_size);
 	if (err) {
 		_error << "init: failed to allocate record buffer. "
 			<< strerror(errno) << "(" <<  errno << ")";
@@ -171,7 +175,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, _area.MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..db1c8dc 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -70,6 +70,7 @@ private:
 	char              *_ring_name;   // ringbuffer name for last record
 
 	unsigned int       _ver;
+	unsigned int       _max_record_size; // size of the record buffer
 
 	// Read uint from the input stream
 	template <typename T>
@@ -84,9 +85,10 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob from the input stream.
+	// Fails if the blob doesn't fit into the room bytes.
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +96,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: blob is too large @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -106,11 +114,18 @@ private:
 	// Strings are guarantied to be null-terminated
 	// Returns string length including the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		// Save room for the null-terminator
+		if (!room) {
+			_error << "format: string is too large @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From f0594e8374176857511a5bc224b9d20f2cbd6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 22/46] fix: format_basic crashed or hung on truncated xdumps

---
 src/format-basic.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..9d87f65 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,22 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
+	// Zero line_width means single line
+	const unsigned int line_width = xf.line_width ? xf.line_width : n;
+
 	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
@@ -149,6 +152,12 @@ static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
+	// The argument is empty if there was no room for it in the record
+	if (len < sizeof(arg_xdump::format) || !xf.byte_width) {
+		sb.push_back("xdump truncated");
+		return;
+	}
+
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
 	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
 
-- 
2.43.0


From d3ad8e432c4318880b1163e84111dde1c875bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 23/46] fix: recovery dropped records with equal timestamps

The recovered records were kept in a std::set sorted by timestamp, which keeps
only one of several records that have the same timestamp.
---
 tools/recovery-engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..c29673a 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,8 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	// Records with equal timestamps stay in the order in which they were inserted
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From 3622c02c02174f41c51817a6481f74cbcf86eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 24/46] fix: recovery of entire rings lost records and used
 half written ones

With --all the iteration always covered slots 1 to N-2, whatever the position
of the tail. Valid records in the first and last slot were not dumped, and the
slot at the tail, which the writer may have been filling when the process died,
was treated as a valid record (crashing the tool if it was not complete).
---
 tools/recovery-engine.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..f254a11 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -166,9 +166,10 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset head for dumping the entire ring.
+			// The only slot left out is the one at the tail. That's where the next
+			// record goes, and it may be half written.
+			r->_head = r->_tail;
 		}
 
 		return true;
-- 
2.43.0


From 0c76e5f23fa9113dff887483c4a17b066162d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:08 +0000
Subject: [PATCH 25/46] fix: recovery of records with constant strings that are
 not in the core

A constant string argument whose text is not in the core (normal for strings in
read-only segments of the executable) was left null and crashed the formatter.
Constant strings in arguments 8 to 15 were not remapped at all.
---
 tools/recovery-engine.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index f254a11..56001e9 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -312,7 +312,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
@@ -320,6 +320,11 @@ void recovery_engine::fixup_records(ringbuf *ring)
 					r->argval[i].u32 = (uint64_t) _core.remap((void *) (uint64_t) r->get_arg_val32(i));
 				else
 					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
+
+				// String is not in the core (ie mmaped from the executable or hogl.so).
+				// Set to a dummy string to avoid segfaults in the formats.
+				if (!r->argval[i].u64)
+					r->argval[i].u64 = (uint64_t) "NA";
 				break;
 			default:
 				break;
-- 
2.43.0


From 04013c92b9d7dd7c546693644372f21c8885369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:06 +0000
Subject: [PATCH 26/46] fix: rings under construction were taken for valid
 rings by recovery

The signature was set first. With hogl-recover --all a core taken before the
record buffers were cleared produced garbage records. Set it when the ring is
complete.
---
 src/ringbuf.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index e949046..c5becf8 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -82,7 +82,6 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 {
 	int err;
 
-	_magic    = hogl::ring_magic;
 	_name     = strdup(name);
 	_flags    = opts.flags;
 	_seqnum   = 0;
@@ -148,6 +147,10 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 
 	pthread_cond_init(&_block_cond, NULL);
 
+	// Ring is complete now. Make it visible to the recovery tools.
+	barrier::memw();
+	_magic = hogl::ring_magic;
+
 	dprint("created ringbuf %p. name %s capacity %u prio %u", (void*)this, _name, _capacity, _prio);
 }
 
-- 
2.43.0


From e376854bde944f5597b3f0a9a98284cf64ee242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:58 +0000
Subject: [PATCH 27/46] fix: rings being destroyed were taken for valid rings
 by recovery

The record buffers are released first, the signature stayed intact.
---
 src/ringbuf.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index c5becf8..d1e8c39 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -178,6 +178,10 @@ ringbuf::~ringbuf()
 			_name, (void*)this);
 	}
 
+	// Ring is going away. Hide it from the recovery tools.
+	memset(&_magic, 0, sizeof(_magic));
+	barrier::memw();
+
 	pthread_cond_destroy(&_block_cond);
 	pthread_mutex_destroy(&_block_mutex);
 	pthread_mutex_destroy(&_mutex);
-- 
2.43.0


From 0f5a5655d639b6058ea47d14bbcdd5f04388b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 28/46] fix: recovery read past the end of the core when part
 of a string is missing

---
 tools/coredump.cc        | 18 ++++++++++++++++++
 tools/coredump.hpp       |  3 +++
 tools/recovery-engine.cc | 12 ++++++------
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 51e78ab..a27effb 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -288,6 +288,24 @@ void* coredump::remap(const void *ptr, unsigned long n)
 	return 0;
 }
 
+const char* coredump::remap_str(const char *str)
+{
+	uint64_t start = (uint64_t) str;
+
+	section_set::const_iterator it;
+	for (it = sections.begin(); it != sections.end(); ++it) {
+		const section *s = *it;
+		if (start < s->vma || start >= (s->vma + s->size))
+			continue;
+
+		// The rest of the string may be missing from the core
+		const char *p = (const char *) s->addr + (start - s->vma);
+		if (memchr(p, '\0', s->size - (start - s->vma)))
+			return p;
+	}
+	return 0;
+}
+
 } // namespace hogl
 __HOGL_PRIV_NS_CLOSE__
 
diff --git a/tools/coredump.hpp b/tools/coredump.hpp
index 15eb296..7cc7d8e 100644
--- a/tools/coredump.hpp
+++ b/tools/coredump.hpp
@@ -86,6 +86,9 @@ public:
 
 	void* remap(const void *ptr, unsigned long n = 0);
 
+	// Remap a string. Fails if the core does not contain all of it.
+	const char* remap_str(const char *str);
+
 private:
 	void load(bfd *b);
 	void load_section(coredump::section *s);
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 56001e9..09e3ec5 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -84,7 +84,7 @@ public:
 		if (!a->count() || a->count() > 256*1024)
 			return 0;
 
-		a->_name = (char *) core.remap(a->_name);
+		a->_name = (char *) core.remap_str(a->_name);
 		if (!a->_name)
 			return 0;
 
@@ -95,7 +95,7 @@ public:
 
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = core.remap_str(a->_section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -125,7 +125,7 @@ public:
 
 		timesource_validator *ts = (timesource_validator *) ptr;
 
-		ts->_name = (char *) core.remap(ts->_name);
+		ts->_name = (char *) core.remap_str(ts->_name);
                 if (!ts->_name)
                         return 0;
 		return ts;
@@ -159,7 +159,7 @@ public:
 		if (r->_head > r->_capacity || r->_tail > r->_capacity)
 			return false;
 
-		r->_name    = (char *)    core.remap(r->_name);
+		r->_name    = (char *)    core.remap_str(r->_name);
 		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
 
 		if (!r->_name || !r->_rec_top)
@@ -317,9 +317,9 @@ void recovery_engine::fixup_records(ringbuf *ring)
 			switch (type) {
 			case arg::GSTR:
 				if (arg::is_32bit(arg::GSTR))
-					r->argval[i].u32 = (uint64_t) _core.remap((void *) (uint64_t) r->get_arg_val32(i));
+					r->argval[i].u32 = (uint64_t) _core.remap_str((const char *) (uint64_t) r->get_arg_val32(i));
 				else
-					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
+					r->argval[i].u64 = (uint64_t) _core.remap_str((const char *) r->get_arg_val64(i));
 
 				// String is not in the core (ie mmaped from the executable or hogl.so).
 				// Set to a dummy string to avoid segfaults in the formats.
-- 
2.43.0


From 0d4dcaec42d794f12410f40c9bd6f36243811339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 29/46] fix: ring magic was not updated with the layout of the
 ring

---
 include/hogl/detail/magic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/detail/magic.hpp b/include/hogl/detail/magic.hpp
index 4b968f5..9748d26 100644
--- a/include/hogl/detail/magic.hpp
+++ b/include/hogl/detail/magic.hpp
@@ -56,7 +56,7 @@ namespace hogl {
 	 * Ring magic number
 	 */
 	static const magic ring_magic = { 
-		{ 0xe1272734, 0xba8a7dc8, 0xdd223344, 0x51691388 }
+		{ 0xe1272735, 0xba8a7dc8, 0xdd223344, 0x51691388 }
 	};
 
 	/**
-- 
2.43.0


From 5befb03f481bb20081c2dee22de583275e245aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 30/46] fix: mask and buffers were left without data when
 memory runs out

mask, bitmap and tsobuf deleted the old data before allocating the new one. That left dangling
pointers behind when the allocation failed, and when a mask was assigned to itself.
---
 include/hogl/detail/bitmap.hpp | 3 ++-
 include/hogl/detail/tsobuf.hpp | 3 ++-
 src/mask.cc                    | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/bitmap.hpp b/include/hogl/detail/bitmap.hpp
index d46dcdd..5fba114 100644
--- a/include/hogl/detail/bitmap.hpp
+++ b/include/hogl/detail/bitmap.hpp
@@ -80,9 +80,10 @@ protected:
 public:
 	void resize(unsigned int size)
 	{
+		word *d = new word[nwords(size)];
 		delete [] _data;
 		_size = size;
-		_data = new word[nwords(size)];
+		_data = d;
 	}
 
 	void set()
diff --git a/include/hogl/detail/tsobuf.hpp b/include/hogl/detail/tsobuf.hpp
index abc0481..da4d2e2 100644
--- a/include/hogl/detail/tsobuf.hpp
+++ b/include/hogl/detail/tsobuf.hpp
@@ -71,9 +71,10 @@ private:
 public:
 	void resize(unsigned int n)
 	{
+		entry *e = new entry[n];
 		delete [] _entry;
 		_capacity = n;
-		_entry = new entry[n];
+		_entry = e;
 		_head  = 0;
 		_tail  = 0;
 	}
diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..255d04f 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,8 +183,10 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	// Allocate first. We might run out of memory, or be assigned to ourselves.
+	data_list *l = new data_list(*m._list);
 	delete _list;
-	_list = new data_list(*m._list);
+	_list = l;
 }
 
 mask::~mask()
-- 
2.43.0


From 333a0c3729634555bf530affa535cb60daec6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 31/46] fix: areas ignored failed string allocations

The constructor of the area did not check strdup(), and leaked whatever it had allocated when it
ran out of memory.
---
 include/hogl/detail/area.hpp |  3 +++
 src/area.cc                  | 39 ++++++++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/hogl/detail/area.hpp b/include/hogl/detail/area.hpp
index 874a132..2e4e641 100644
--- a/include/hogl/detail/area.hpp
+++ b/include/hogl/detail/area.hpp
@@ -55,6 +55,9 @@ protected:
 	magic          _magic;   /// Magic number 
 	char          *_name;    /// Area name
 	const char   **_section; /// Section names
+
+	void init(const char *name, const char **section);
+	void release();
 	bitmap _bitmap;  /// Bitmap (one bit per section)
 
 public:
diff --git a/src/area.cc b/src/area.cc
index 277fb49..9ef2221 100644
--- a/src/area.cc
+++ b/src/area.cc
@@ -31,6 +31,7 @@
 #include <string.h>
 
 #include <map>
+#include <new>
 #include <string>
 #include <sstream>
 
@@ -52,32 +53,58 @@ static const char *default_section_names[] = {
 
 area::area(const char *name, const char **section) :
 	_magic(hogl::area_magic),
-	_name(strdup(name))
+	_name(0),
+	_section(default_section_names)
 {
+	try {
+		init(name, section);
+	} catch (...) {
+		release();
+		throw;
+	}
+
+	dprint("created area %p. name %s size %u", (void*)this, _name, _bitmap.size());	
+}
+
+// Part of the constructor that might run out of memory.
+// What was allocated up to that point is cleaned up by the release() below.
+void area::init(const char *name, const char **section)
+{
+	_name = strdup(name);
+	if (!_name)
+		throw std::bad_alloc();
+
 	if (section) {
 		// Count number of sections and resize the bitmap
 		unsigned int i;
 		for (i=0; section[i]; ++i) /* noop */;
 		_bitmap.resize(i);
 
-		_section = new const char* [_bitmap.size()];
-		for (i=0; i < _bitmap.size(); ++i)
+		_section = new const char* [_bitmap.size()]();
+		for (i=0; i < _bitmap.size(); ++i) {
 			_section[i] = strdup(section[i]);
+			if (!_section[i])
+				throw std::bad_alloc();
+		}
 	} else {
 		_section = default_section_names;
 		_bitmap.resize(6);
 	}
 
 	_bitmap.reset();
-
-	dprint("created area %p. name %s size %u", (void*)this, _name, _bitmap.size());	
 }
 
 area::~area()
 {
-	unsigned int i;
 	dprint("destroyed area %p. name %s", (void*)this, _name);
 
+	release();
+}
+
+void area::release()
+{
+	unsigned int i;
+
 	free(_name);
 
 	if (_section != default_section_names) {
-- 
2.43.0


From 7e44d82e07e3ee12369802e1a70eaaf653812b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 32/46] fix: rings ignored failed allocations

posix_memalign() returns a positive error code. A ring without record buffers or without a name was
treated as a valid one, and a failure in the constructor leaked everything allocated before it.
---
 src/ringbuf.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index d1e8c39..fe9efe4 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -29,6 +29,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 
+#include <new>
 #include <stdexcept>
 
 #include "hogl/detail/ringbuf.hpp"
@@ -49,7 +50,7 @@ extern timesource default_timesource;
 void* ringbuf::operator new(size_t s)
 {
 	void *m = NULL;
-	if (posix_memalign(&m, 64, s) < 0)
+	if (posix_memalign(&m, 64, s))
 		throw std::bad_alloc();
 	return m;
 }
@@ -83,6 +84,9 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	int err;
 
 	_name     = strdup(name);
+	if (!_name)
+		throw std::bad_alloc();
+
 	_flags    = opts.flags;
 	_seqnum   = 0;
 	_dropcnt  = 0;
@@ -116,9 +120,9 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	// Allocate record buffers
 	_rec_top = 0;
 	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
-	if (err && !_rec_top) {
-		_capacity = 0;
-		return;
+	if (err) {
+		free(_name);
+		throw std::bad_alloc();
 	}
 	memset(_rec_top, 0, capacity() * record_size());
 
@@ -134,12 +138,19 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	err = pthread_mutex_init(&_mutex, &mattr);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::ring: failed to init ring mutex. err %u\n", err);
+		pthread_mutexattr_destroy(&mattr);
+		free(_rec_top);
+		free(_name);
 		throw std::runtime_error("hogl::ring: failed to init ring mutex.");
 	}
 
 	err = pthread_mutex_init(&_block_mutex, &mattr);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::ring: failed to init ring block mutex. err %u\n", err);
+		pthread_mutex_destroy(&_mutex);
+		pthread_mutexattr_destroy(&mattr);
+		free(_rec_top);
+		free(_name);
 		throw std::runtime_error("hogl::ring: failed to init ring block mutex.");
 	}
 
-- 
2.43.0


From 1bf36bf91cf166fff29e0e37254529970a71a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 33/46] fix: engine kept its mutexes locked when memory runs
 out

An exception under the area or ring mutex left it locked, and everything else touching that engine was
stuck from then on. It also leaked the new area or ring. caller_ring() does not allocate any more
because the ring or area is already added at that point.
---
 src/engine.cc | 93 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 30 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index b955b1a..259a670 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -35,6 +35,7 @@
 #include <string>
 #include <map>
 #include <algorithm>
+#include <memory>
 #include <stdexcept>
 
 #include "hogl/detail/internal.hpp"
@@ -53,6 +54,33 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+// Mutex lock that is released when we leave the scope.
+// What we do under the mutex might run out of memory.
+class mutex_lock {
+private:
+	pthread_mutex_t &_mutex;
+	bool _locked;
+
+	// No copies
+	mutex_lock(const mutex_lock&);
+	mutex_lock& operator=( const mutex_lock& );
+
+public:
+	mutex_lock(pthread_mutex_t &mutex) : _mutex(mutex), _locked(true)
+	{
+		pthread_mutex_lock(&_mutex);
+	}
+
+	~mutex_lock() { unlock(); }
+
+	void unlock()
+	{
+		if (_locked)
+			pthread_mutex_unlock(&_mutex);
+		_locked = false;
+	}
+};
+
 // Defaults for engine options
 engine::options engine::default_options = {
 	.default_mask = hogl::mask(".*:(INFO|WARN|ERROR|FATAL).*", 0), // enable default sections in all areas
@@ -76,7 +104,8 @@ void engine::add_internal_area()
 	// logs things in the caller's context and we're not ready to process 
 	// log records yet.
 
-	_internal_area = new area(name, internal::section_names);
+	std::unique_ptr<area> ia(new area(name, internal::section_names));
+	_internal_area = ia.get();
 
 	_internal_area->enable(internal::INFO);
 	_internal_area->enable(internal::WARN);
@@ -84,8 +113,9 @@ void engine::add_internal_area()
 	_internal_area->enable(internal::DROPMARK);
 	_internal_area->enable(internal::TSOFULLMARK);
 
-	_area_map.insert(area_map::value_type(name, _internal_area));
 	_mask.apply(_internal_area);
+	_area_map.insert(area_map::value_type(name, _internal_area));
+	ia.release();
 }
 
 extern timesource default_timesource;
@@ -129,6 +159,7 @@ engine::engine(output &out, const engine::options &opts) :
 	err = pthread_create(&_thread, NULL, entry, (void *)this);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::engine: failed to create engine thread. %d\n", err);
+		delete _internal_area;
 		throw std::runtime_error("hogl::engine: failed to create engine thread");
 	}
 }
@@ -606,13 +637,14 @@ ringbuf *engine::caller_ring() const
 {
 	ringbuf *r = tls::ring();
 
-	pthread_mutex_lock(&_ring_mutex);
-	ring_map::const_iterator it = _ring_map.find(r->name());
-	if (it == _ring_map.end() || it->second != r)
-		r = 0;
-	pthread_mutex_unlock(&_ring_mutex);
+	mutex_lock lock(_ring_mutex);
+	ring_map::const_iterator it;
+	for (it = _ring_map.begin(); it != _ring_map.end(); ++it) {
+		if (it->second == r)
+			return r;
+	}
 
-	return r;
+	return 0;
 }
 
 /**
@@ -622,11 +654,10 @@ const area *engine::find_area(const char *name) const
 {
 	area *a = 0;
 
-	pthread_mutex_lock(&_area_mutex);
+	mutex_lock lock(_area_mutex);
 	area_map::const_iterator it = _area_map.find(name);
 	if (it != _area_map.end())
 		a = it->second;
-	pthread_mutex_unlock(&_area_mutex);
 	return a;
 }
 
@@ -640,14 +671,18 @@ area *engine::add_area(const char *name, const char **sections)
 	std::pair<area_map::iterator, bool> s;
 	area *a, *na = new area(name, sections);
 
-	pthread_mutex_lock(&_area_mutex);
+	// The map takes over the new area once it's in there.
+	std::unique_ptr<area> owner(na);
+
+	mutex_lock lock(_area_mutex);
+	// Apply current mask to the new area before anybody else can see it.
+	_mask.apply(na);
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
-	// Apply current mask to the new area before anybody else can see it.
 	if (s.second != false)
-		_mask.apply(a);
-	pthread_mutex_unlock(&_area_mutex);
+		owner.release();
+	lock.unlock();
 
 	if (s.second != false) {
 		// New area.
@@ -662,7 +697,6 @@ area *engine::add_area(const char *name, const char **sections)
 	// Area with this name already exists.
 	// Let's see if it can be reused.
 	bool reuse = (*na == *a);
-	delete na;
 
 	if (reuse)
 		return a;
@@ -688,11 +722,16 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
 
-	pthread_mutex_lock(&_ring_mutex);
+	mutex_lock lock(_ring_mutex);
 	nr->timesource(_timesource);
-	s = _ring_map.insert(ring_map::value_type(name, nr));
+	try {
+		s = _ring_map.insert(ring_map::value_type(name, nr));
+	} catch (...) {
+		nr->release();
+		throw;
+	}
 	s.first->second->hold();
-	pthread_mutex_unlock(&_ring_mutex);
+	lock.unlock();
 
 	if (s.second == true) {
 		// Ring added. Invalidate the index.
@@ -745,14 +784,14 @@ bool engine::add_ring(ringbuf *r)
 {
 	std::pair<ring_map::iterator, bool> s;
 
-	pthread_mutex_lock(&_ring_mutex);
+	mutex_lock lock(_ring_mutex);
 	s = _ring_map.insert(ring_map::value_type(r->name(), r));
 	if (s.second == true) {
 		_ring_index.dirty = true;
 		r->hold();
 		r->timesource(_timesource);
 	}
-	pthread_mutex_unlock(&_ring_mutex);
+	lock.unlock();
 
 	if (!s.second) {
 		ringbuf *cr = caller_ring();
@@ -773,13 +812,12 @@ ringbuf *engine::find_ring(const char *name) const
 {
 	ringbuf *r = 0;
 
-	pthread_mutex_lock(&_ring_mutex);
+	mutex_lock lock(_ring_mutex);
 	ring_map::const_iterator it = _ring_map.find(name);
 	if (it != _ring_map.end()) {
 		r = it->second;
 		r = r->hold();
 	}
-	pthread_mutex_unlock(&_ring_mutex);
 	return r;
 }
 
@@ -788,18 +826,16 @@ ringbuf *engine::find_ring(const char *name) const
  */
 void engine::list_rings(string_list &l) const
 {
-	pthread_mutex_lock(&_ring_mutex);
+	mutex_lock lock(_ring_mutex);
 
 	ring_map::const_iterator it;
 	for (it = _ring_map.begin(); it != _ring_map.end(); ++it)
 		l.push_back(it->second->name());
-
-	pthread_mutex_unlock(&_ring_mutex);
 }
 
 void engine::apply_mask(const mask &m)
 {
-	pthread_mutex_lock(&_area_mutex);
+	mutex_lock lock(_area_mutex);
 
 	_mask = m;
 
@@ -808,7 +844,6 @@ void engine::apply_mask(const mask &m)
 		m.apply(it->second);
 
 	_stats.mask_changed++;
-	pthread_mutex_unlock(&_area_mutex);
 }
 
 /**
@@ -816,13 +851,11 @@ void engine::apply_mask(const mask &m)
  */
 void engine::list_areas(string_list &l) const
 {
-	pthread_mutex_lock(&_area_mutex);
+	mutex_lock lock(_area_mutex);
 
 	area_map::const_iterator it;
 	for (it = _area_map.begin(); it != _area_map.end(); ++it)
 		l.push_back(it->second->name());
-
-	pthread_mutex_unlock(&_area_mutex);
 }
 
 std::ostream& operator<< (std::ostream& s, const engine::stats& stats)
-- 
2.43.0


From b3b4111a594a6d22683652b8f728d5a1a63f9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 34/46] fix: activate() leaked the engine when it fails to add
 the default ring

The engine thread kept running, with the output that the caller is about to delete.
---
 src/default-engine.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..96f8d0d 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -74,7 +74,13 @@ void activate(output &out, const engine::options &engine_opts)
 	default_ring.hold();
 
 	// Register default shared ringbuf
-	e->add_ring(&default_ring);
+	try {
+		e->add_ring(&default_ring);
+	} catch (...) {
+		default_ring.release();
+		delete e;
+		throw;
+	}
 
 	default_engine = e;
 
-- 
2.43.0


From 9a986c887d5cb54fe38f426b5ae2636768e516a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 35/46] fix: outputs leaked descriptors when memory runs out

Constructors of file, plainfile and pipe outputs left the file or pipe open if anything failed later.
---
 src/output-file.cc      | 11 ++++++++---
 src/output-pipe.cc      |  7 ++++++-
 src/output-plainfile.cc |  7 ++++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 95d55aa..a54e7a1 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -267,10 +267,15 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	// Write format header.
 	// Don't leave it in the buffer, it has to end up in this chunk even if we
 	// rotate before the first flush.
-	output::header(_name.c_str());
-	output::flush();
+	try {
+		output::header(_name.c_str());
+		output::flush();
 
-	update_link();
+		update_link();
+	} catch (...) {
+		close(_fd);
+		throw;
+	}
 
 	// Start helper thread.
 	// Must be the last step because it uses fields initialized above and there
diff --git a/src/output-pipe.cc b/src/output-pipe.cc
index 825f757..a3da8a0 100644
--- a/src/output-pipe.cc
+++ b/src/output-pipe.cc
@@ -47,7 +47,12 @@ output_pipe::output_pipe(const char *command, format &fmt, unsigned int buffer_c
 	// Disable stdio buffering
 	setvbuf(pipe, NULL, _IONBF, 0);
 
-	init(new ostrbuf_stdio(pipe, ostrbuf_stdio::CLOSE_ON_DELETE, buffer_capacity));
+	try {
+		init(new ostrbuf_stdio(pipe, ostrbuf_stdio::CLOSE_ON_DELETE, buffer_capacity));
+	} catch (...) {
+		pclose(pipe);
+		throw;
+	}
 
 	header("pipe");
 }
diff --git a/src/output-plainfile.cc b/src/output-plainfile.cc
index 339625c..637a623 100644
--- a/src/output-plainfile.cc
+++ b/src/output-plainfile.cc
@@ -48,7 +48,12 @@ output_plainfile::output_plainfile(const char *name, format &fmt, unsigned int b
 		throw std::runtime_error("hogl::output_plainfile: failed to open file for writing");
 	}
 
-	init(new ostrbuf_fd(fd, ostrbuf_fd::CLOSE_ON_DELETE, buffer_capacity));
+	try {
+		init(new ostrbuf_fd(fd, ostrbuf_fd::CLOSE_ON_DELETE, buffer_capacity));
+	} catch (...) {
+		close(fd);
+		throw;
+	}
 
 	output::header(name);
 }
-- 
2.43.0


From 444f266b0daa3cf84af5552e697bde2f8a4853c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 36/46] fix: rotation lost the footer when memory runs out

The buffer for the footer was allocated after the old chunk was already replaced.
---
 src/output-file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index a54e7a1..9922c87 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -405,8 +405,8 @@ void output_file::do_rotate()
 
 	// Generate footer, write it out and close the old chunk.
 	// Note that we don't check for write errors here because we 
-	// can't do much about them.
-	ostrbuf_fd osb(ofd, 0, 128);
+	// can't do much about them. Not buffered because we can't run out of memory here.
+	ostrbuf_fd osb(ofd, 0, 0);
 	_format.footer(osb, _name.c_str());
 	osb.flush();
 
-- 
2.43.0


From ca5815ba2dc51c16af774f55c6c6a5671981ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:48 +0000
Subject: [PATCH 37/46] fix: reading the mask of an engine raced with changing
 it

---
 include/hogl/detail/engine.hpp | 5 +++--
 src/engine.cc                  | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index b70a9f6..0289554 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -205,9 +205,10 @@ public:
 	const options& get_options() const { return _opts; }
 
 	/**
- 	 * Get current mask
+ 	 * Get a copy of the current mask.
+ 	 * Safe to call while other threads change the mask.
  	 */
-	const mask& get_mask() const { return _mask; }
+	mask get_mask() const;
 
 	/**
 	 * Add log area.
diff --git a/src/engine.cc b/src/engine.cc
index 259a670..ea0ae30 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -833,6 +833,12 @@ void engine::list_rings(string_list &l) const
 		l.push_back(it->second->name());
 }
 
+mask engine::get_mask() const
+{
+	mutex_lock lock(_area_mutex);
+	return _mask;
+}
+
 void engine::apply_mask(const mask &m)
 {
 	mutex_lock lock(_area_mutex);
-- 
2.43.0


From 65ee13547d8b435b0e5560a90ebad6cb072e56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 38/46] fix: C interface lost long long, char, bool and const
 void* arguments

hogl_setarg() did not recognize these types and stored HOGL_ARG_NONE, which
also ends the argument list: neither the argument nor any after it made it
into the record.
---
 include/hogl/c-api/post.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..9b0dfe5 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -124,7 +124,24 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
-		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {\
+			un.u64 = *(unsigned long long *)__hogl_p;		\
+			args[i].type = HOGL_ARG_UINT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {\
+			un.s64 = *(long long *)__hogl_p;			\
+			args[i].type = HOGL_ARG_INT64;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {	\
+			un.s64 = *(char *)__hogl_p;				\
+			args[i].type = HOGL_ARG_INT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), bool)) {	\
+			un.u64 = *(bool *)__hogl_p;				\
+			args[i].type = HOGL_ARG_UINT32;				\
+		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), void *) ||	\
+		    __builtin_types_compatible_p (typeof(__hogl_x), const void *)) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
 		} else {							\
-- 
2.43.0


From fc3ba59e049c3ab88ab46caada6c53a818daa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 39/46] fix: C interface let C++ exceptions out into C code

hogl_add_area() and hogl_new_output_*() are documented to return null on
failure, a failed open, popen or allocation ended the process instead.
---
 src/c-api.cc | 67 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/c-api.cc b/src/c-api.cc
index d2ad174..84e0fed 100644
--- a/src/c-api.cc
+++ b/src/c-api.cc
@@ -81,7 +81,11 @@ extern "C" void hogl_area_reset_all(const hogl_area_t _area)
 }
 extern "C" const hogl_area_t hogl_add_area(const char *name, const char **sections)
 {
-	return (const hogl_area_t) hogl::add_area(name, sections);
+	try {
+		return (const hogl_area_t) hogl::add_area(name, sections);
+	} catch (...) {
+		return 0;
+	}
 }
 
 // ---- Engine wrappers ----
@@ -169,48 +173,67 @@ extern "C" void hogl_apply_mask(hogl_mask_t _mask)
 extern "C" hogl_output_t hogl_new_output_stdout(hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_stdout *out = new hogl::output_stdout(*fmt);
-	return out;
+	try {
+		return new hogl::output_stdout(*fmt);
+	} catch (...) {
+		return 0;
+	}
 }
 extern "C" hogl_output_t hogl_new_output_stderr(hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_stderr *out = new hogl::output_stderr(*fmt);
-	return out;
+	try {
+		return new hogl::output_stderr(*fmt);
+	} catch (...) {
+		return 0;
+	}
 }
 
 extern "C" hogl_output_t hogl_new_output_file(const char *name, hogl_format_t _fmt, struct hogl_output_options *_opts)
 {
 	struct hogl::output_file::options opts(hogl::output_file::default_options);
-	// we could use memcpy here but there is a risk that these structs
-	// would diverge so it is safer to have it one field at a time
-	if(_opts) {
-		opts.perms     = _opts->perms;
-		opts.max_size  = _opts->max_size;
-		opts.max_count = _opts->max_count;
-		opts.buffer_capacity = _opts->buffer_capacity;
-		opts.schedparam = new hogl::schedparam(_opts->schedparam.policy, _opts->schedparam.priority,
-					hogl::schedparam::DELETE_ON_EXIT,
-					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");
-	}
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_file *out = new hogl::output_file(name, *fmt, opts);
-	return out;
+	hogl::schedparam *sp = 0;
+
+	try {
+		// we could use memcpy here but there is a risk that these structs
+		// would diverge so it is safer to have it one field at a time
+		if(_opts) {
+			opts.perms     = _opts->perms;
+			opts.max_size  = _opts->max_size;
+			opts.max_count = _opts->max_count;
+			opts.buffer_capacity = _opts->buffer_capacity;
+			opts.schedparam = sp = new hogl::schedparam(_opts->schedparam.policy, _opts->schedparam.priority,
+						hogl::schedparam::DELETE_ON_EXIT,
+						_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");
+		}
+		return new hogl::output_file(name, *fmt, opts);
+	} catch (...) {
+		// There is no helper thread that would delete it on exit
+		delete sp;
+		return 0;
+	}
 }
 
 
 extern "C" hogl_output_t hogl_new_output_plainfile(const char *name, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_plainfile *out = new hogl::output_plainfile(name, *fmt);
-	return out;
+	try {
+		return new hogl::output_plainfile(name, *fmt);
+	} catch (...) {
+		return 0;
+	}
 }
 
 extern "C" hogl_output_t hogl_new_output_pipe(const char *cmd, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_pipe *out = new hogl::output_pipe(cmd, *fmt);
-	return out;
+	try {
+		return new hogl::output_pipe(cmd, *fmt);
+	} catch (...) {
+		return 0;
+	}
 }
 
 extern "C" void hogl_delete_output(hogl_output_t _out)
-- 
2.43.0


From 7b41b43ebf50cf01f1cf1cc7b1ac1f27f2afee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 40/46] fix: CPU masks were wrong for CPUs 31 and up

The mask was tested with an int shifted by up to 255: CPU 31 was set by
any of the bits 31 to 63, and every CPU n also set n + 32, n + 64, ...
---
 src/schedparam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..9cd93f1 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -185,8 +185,8 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
+		if (m & (1ULL << i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From b79dd9799fea6fdf31e9d077093150d200bdfa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 41/46] fix: CPU numbers beyond 32 bits were taken modulo 2^32

A list like 4294967297 passed as CPU 1 instead of being out of range.
---
 src/schedparam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 9cd93f1..f2078a1 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
-- 
2.43.0


From 899b086a14ef386e09d463b17254b39f27e936b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:42 +0000
Subject: [PATCH 42/46] fix: a restart must find the chunk number when it
 contains the file name's suffix

The suffix was cut off at its first occurrence. With a suffix that is made of digits
(log#5) numbering restarted from a wrong chunk, and overwrote those that followed it.
---
 src/output-file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 9922c87..83985fb 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -170,9 +170,10 @@ unsigned int output_file::read_link()
 	str = str.substr(_name_pref.size());
 
 	// Validate and strip suffix
+	// It's at the very end, the same characters might show up in the index.
 	if (_name_sufx.size()) {
-		pos = str.find(_name_sufx);
-		if (_name_sufx.size() && pos == str.npos) {
+		pos = str.rfind(_name_sufx);
+		if (pos == str.npos || pos + _name_sufx.size() != str.size()) {
 			// Suffix does not match.
 			// Ignore, we'll fix it during update.
 			return 0;
-- 
2.43.0


From 99439a8e2c2bf74100ede65b3f33d977734631d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:47 +0000
Subject: [PATCH 43/46] fix: the symlink of a log file with a relative path led
 nowhere

The target of a symlink is looked up from the directory of the link and not from the working
directory: for logs/app.#.log the link logs/app.log pointed to logs/logs/app.0.log.
---
 src/output-file.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 83985fb..b49af44 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -122,6 +122,16 @@ void output_file::update_name()
 	_name = ss.str();
 }
 
+// Directory of the symlink, if it is a relative one.
+// Relative targets are looked up from there and not from our working directory.
+static std::string link_dir(const std::string &link)
+{
+	size_t slash = link.rfind('/');
+	if (slash == link.npos || link[0] == '/')
+		return "";
+	return link.substr(0, slash + 1);
+}
+
 // Update symlink.
 // Creates a temp symlink that points to the new file and renames it
 // on top of the old symlink.
@@ -130,7 +140,12 @@ void output_file::update_link()
 	std::string link = _symlink + "$";
 	remove(link.c_str());
 
-	int err = symlink(_name.c_str(), link.c_str());
+	std::string target = _name;
+	std::string dir = link_dir(_symlink);
+	if (target.compare(0, dir.size(), dir) == 0)
+		target = target.substr(dir.size());
+
+	int err = symlink(target.c_str(), link.c_str());
 	if (err < 0)
 		fmt::fprintf(stderr, "hogl::output_file: failed to create symlink %s -> %s. %s(%d)\n",
 			_name.c_str(), _symlink.c_str(), strerror(errno), errno);
@@ -156,6 +171,8 @@ unsigned int output_file::read_link()
 	}
 
 	std::string str(cstr, rlen);
+	if (str.find(_name_pref) != 0)
+		str = link_dir(_symlink) + str;
 
 	size_t pos;
 
-- 
2.43.0


From 8bde220dc2e9e7dafef62af2caa5f7e813d840a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:36 +0000
Subject: [PATCH 44/46] fix: a null global string as argument stopped the
 engine

---
 include/hogl/detail/args.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hogl/detail/args.hpp b/include/hogl/detail/args.hpp
index f705086..7223c2f 100644
--- a/include/hogl/detail/args.hpp
+++ b/include/hogl/detail/args.hpp
@@ -172,7 +172,7 @@ struct arg {
 	hogl_force_inline arg(const std::string &str) :
 		type(CSTR), val((uint64_t) str.data()), len(str.length()) {}
 
-	hogl_force_inline arg(const arg_gstr &s) : type(GSTR), val((uint64_t) s.str) {}
+	hogl_force_inline arg(const arg_gstr &s) : type(GSTR), val((uint64_t) (s.str ? s.str : "null")) {}
 
 	hogl_force_inline arg(const arg_xdump &xd) :
 		type(XDUMP), val((uint64_t) &xd) {}
-- 
2.43.0


From f7675774f7e53f3250fb43147b4824f89c45e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:11 +0000
Subject: [PATCH 45/46] fix: ring sizes beyond 32 bits corrupted memory or
 never returned

---
 include/hogl/detail/ringbuf.hpp |  2 +-
 src/ringbuf.cc                  | 27 ++++++++++++++-------------
 tools/recovery-engine.cc        |  2 +-
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 6409376..23289e5 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -120,7 +120,7 @@ protected:
  	 */
 	record* get_record(unsigned int i)
 	{
-		return (record *) (_rec_top + (i << _rec_shift));
+		return (record *) (_rec_top + ((size_t) i << _rec_shift));
 	}
 
 	/**
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index fe9efe4..9b3e1ed 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -62,19 +62,13 @@ void ringbuf::operator delete(void *p)
 }
 
 // Round up to a power of two and return the exponent
-static unsigned int __roundup_log2(unsigned int v)
+static unsigned int __roundup_log2(uint64_t v)
 {
 	unsigned int i;
-	for (i=0; (1U << i) < v; i++);
+	for (i=0; (1ULL << i) < v; i++);
 	return i;
 }
 
-// Round up to a power of two
-static unsigned int __roundup_power2(unsigned int size)
-{
-	return (1 << __roundup_log2(size));
-}
-
 /**
  * Allocate ringbuf with specified options
  */
@@ -100,8 +94,8 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	// Compute the desired capacity.
 	// This field is used as a mask for advancing head and tail indexes
 	// hence the decrement. ie tail = ((tail + 1) & capacity).
-	_capacity = __roundup_power2(opts.capacity);
-	_capacity--;
+	unsigned int cap_shift = __roundup_log2(opts.capacity);
+	_capacity = (1ULL << cap_shift) - 1;
 
 	_tail = 0;
 	_head = _capacity;
@@ -111,7 +105,14 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 		_rec_tailroom = opts.record_tailroom - record::argval_size();
 	else
 		_rec_tailroom = 0;
-	_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom);
+	_rec_shift    = __roundup_log2((uint64_t) sizeof(record) + _rec_tailroom);
+
+	// Indices and record sizes are limited to 32bit
+	if (cap_shift > 31 || _rec_shift > 30) {
+		free(_name);
+		throw std::bad_alloc();
+	}
+
 	_rec_tailroom = record_size() - record::header_size();
 
 	// At this point this->record_size() and this->capacity() functions
@@ -119,12 +120,12 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 
 	// Allocate record buffers
 	_rec_top = 0;
-	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
+	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), (size_t) capacity() * record_size());
 	if (err) {
 		free(_name);
 		throw std::bad_alloc();
 	}
-	memset(_rec_top, 0, capacity() * record_size());
+	memset(_rec_top, 0, (size_t) capacity() * record_size());
 
 	// Init ringbuf mutex.
 	// Enable priority inherintance.
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 09e3ec5..964e88a 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -160,7 +160,7 @@ public:
 			return false;
 
 		r->_name    = (char *)    core.remap_str(r->_name);
-		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
+		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, (size_t) r->record_size() * r->capacity());
 
 		if (!r->_name || !r->_rec_top)
 			return false;
-- 
2.43.0


From 797a3b2a587cf3c4cc56d161220b0636bb207435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:36 +0000
Subject: [PATCH 46/46] fix: a restart must find the chunk number when the
 chunk's index is wider than ours

---
 src/output-file.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index b49af44..2ba1906 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -158,10 +158,10 @@ void output_file::update_link()
 // If the symlink does not exist or is invalid the index starts from zero.
 unsigned int output_file::read_link()
 {
-	unsigned int len = _symlink.size() + _index_width + 1;
-	char cstr[len];
+	// The index is wider than ours if the name was used with a larger max_count.
+	char cstr[PATH_MAX];
 
-	ssize_t rlen = readlink(_symlink.c_str(), cstr, len);
+	ssize_t rlen = readlink(_symlink.c_str(), cstr, sizeof(cstr));
 	if (rlen < 0) {
 		if (errno == ENOENT)
 			return 0;
-- 
2.43.0

