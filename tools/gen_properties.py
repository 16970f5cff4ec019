#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator because the text is easier to review here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None))
    P.append(d)

ENG, RB, RBC = "src/engine.cc", "include/hogl/detail/ringbuf.hpp", "src/ringbuf.cc"
POST = "include/hogl/post.hpp"
REC = "include/hogl/detail/record.hpp"

p("C01", "Every accepted record is delivered exactly once, also through shutdown",
  "Every record that a ring registered with an engine accepts (the section is enabled and the record is not counted as dropped) reaches that engine's output exactly once, and the output contains no record that was not posted. "
  "This holds for every interleaving of posting threads, the engine thread, ring release and engine shutdown: once the engine has been destroyed nothing accepted is missing.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several writers on private, shared and blocking rings with the engine thread, ring release and engine destruction, for every ring capacity, ordering-buffer size, polling interval and with timestamp ordering on or off",
  "The tests post on real threads whose interleaving the OS picks; they look at totals of a few runs with large rings. Index wrap, the one-slot reserve, a record published while the engine is between reading the tail and committing the head, and the release/drain race are reached by chance or never.",
  [ENG, RB, POST], [("single-producer/single-consumer index protocol", RB), ("lastrec commit after timestamp-ordered flush", ENG + " process_rings_tso"), ("drain until no rings are left", ENG + " drain_rings/kill_orphan")],
  ["format::process calls on the output, in order", "ring drop counters"],
  [("head/tail", "ring indices, one slot reserved", RB), ("lastrec", "last record flushed per ring", ENG)])

p("C02", "Records of one ring come out in the order they were posted",
  "Records posted to the same ring are output in posting order with strictly increasing sequence numbers, with timestamp ordering on or off, even when the timesource returns equal timestamps or goes backwards. "
  "For a ring shared by several threads the order is one in which each thread's records keep their order and a post that finished before another began comes first.",
  ["schedules", "histories", "inputs"], "every interleaving of writers and engine, and every timestamp history including equal and backward steps, and ordering-buffer overflow",
  "Ordering tests use a monotonic clock or a few hand-made timestamps on one thread.",
  [ENG, RB, POST, "include/hogl/detail/tsobuf.hpp"], [("per-ring monotone timestamp adjustment before sorting", ENG + " process_rings_tso"), ("ring lock held from sequence number to publication", POST)],
  ["order of records per ring in the output"])

p("C03", "A record is an exact snapshot of its arguments at post time",
  "Each delivered record carries the area, section and argument values passed to the post call, and strings and binary blobs passed by value are copied before the call returns, so the caller may reuse or free its buffers immediately and a slow engine never shows later contents or another record's data. "
  "When the arguments exceed the record's room the text is cut and marked with \">>>\" and blobs are cut to fit; nothing outside the record's slot is ever written, and printing such a record never crashes or hangs the engine.",
  ["schedules", "inputs", "configurations"], "every interleaving of slot reuse with the engine's reading, for every mix of argument types and sizes and every record tailroom",
  "Tests check printed text of records that are read back quickly from rings that never wrap while being read.",
  [REC, "include/hogl/detail/args.hpp", "include/hogl/detail/argpack.hpp", RB, POST], [("argument packing with room accounting", REC), ("head is moved only after the record was output", ENG)],
  ["record contents seen by format::process", "memory outside the slot"])

p("C04", "Dropped records are counted exactly and reported where they went missing",
  "When a non-blocking ring is full a post is dropped and counted exactly once, and posting never overwrites an undelivered record. "
  "With timestamp ordering on, each gap is reported in the output immediately before the next delivered record of that ring with the exact number of missing records, and the engine's dropped total equals the sum of these reports; nothing is reported when nothing was dropped. Turning the reports off with a mask does not change the totals.",
  ["schedules", "histories", "configurations"], "every interleaving in which rings fill, wrap and empty, including drops around a flush request, a timesource change, mask changes and ring reuse",
  "Drop behaviour depends on the exact race between a full check and the engine's commit; the tests check one static overflow.",
  [ENG, RB, POST, "src/flush.cc", "src/timesource.cc"], [("sequence-number gap detection", ENG + " do_flush_tso"), ("drop counter", RB + " push_commit")],
  ["drop markers in the output", "ringbuf::dropcnt", "engine stats recs_dropped"])

p("C05", "Causally ordered records come out in order; buffer overflow is announced",
  "With timestamp ordering on and distinct increasing timestamps, a record whose post finished before another post began (on any ring of the same engine) is output first, provided no more records than one eighth of the ordering buffer were posted from the start of the first post until the second was output, and no overflow was announced meanwhile. "
  "Records that were all posted while the engine slept and fit in the buffer come out fully sorted by timestamp, and whenever the buffer fills the notice 'following records may be out of order' precedes the records flushed early.",
  ["schedules", "histories", "configurations"], "every interleaving of the engine's scan over rings with posts on other rings, every ring priority order and ordering-buffer size",
  "The ordering bug window is between the engine's visit of one ring and the next; ooo_test and tso_test use a single thread or fixed buffers.",
  [ENG, "include/hogl/detail/tsobuf.hpp"], [("newest eighth is held back one pass", ENG + " flush_tso"), ("overflow marker", ENG + " flush_full_tso"), ("sort by timestamp", "include/hogl/detail/tsobuf.hpp")],
  ["order of records in the output versus post start/end events"])

p("C07", "A blocking ring loses nothing and its writer always resumes",
  "A post on a full blocking ring waits instead of dropping: no record is ever dropped or reordered, and as long as the engine keeps running every blocked post eventually completes, for one or several writers sharing the ring. "
  "Spurious wakeups and any timing of the engine's unblock relative to the writer's check do not break this.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of the full check, the wait and the engine's wakeup, with spurious condition wakeups, on private and shared blocking rings of every capacity",
  "A lost wakeup needs the engine to drain between the writer's full check and its wait; ring_block uses one pair of threads and real timing.",
  [RB, ENG], [("block/unblock with condition variable", RB), ("unblock after commit", ENG + " process_rings_tso")], ["completion of posts within bounded simulated time", "drop counters"])

p("C08", "Posting never blocks on, allocates for, or calls into the system",
  "Posting on a private non-blocking ring finishes in a bounded number of the caller's own steps, without system calls, locks, waiting or memory allocation, no matter what other threads, the engine or the output are doing, including an engine that is stalled for ever, a full ring or a sink that hangs. "
  "A post whose section is disabled has no effect at all.",
  ["schedules", "fault_sequences", "inputs"], "every state the engine, output and other writers can be stalled in, for every argument mix; the only exception is the timesource callback the user supplied",
  "Tests measure average cost; they cannot stall the engine at an arbitrary instruction nor see which primitives a post uses.",
  [POST, RB, REC, "src/tls.cc"], [("SPSC ring without locks", RB), ("argument packing in place", REC)], ["primitives and steps used by the posting thread"])

p("C09", "A successful flush means everything posted earlier has reached the sink",
  "When a flush of a ring reports success, every record posted to that ring before the flush call has been output and written to the underlying file or pipe, exactly once and in order; when it times out it reports failure within its time limit and has no other visible effect (in particular no false drop report and the ring stays usable). "
  "This holds with timestamp ordering on or off, on a full ring, and while other threads post.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of a flushing thread with the engine pass, slow or stalled sinks, full rings and timeouts",
  "No test checks sink contents at the instant flush returns, or a flush that times out.",
  ["src/flush.cc", ENG, "src/ostrbuf.cc"], [("special record acknowledged by the engine", ENG + " flush_record"), ("time limited wait", "src/flush.cc")], ["sink contents when flush returns", "simulated duration of the call"])

p("C10", "Engines start, stop and restart cleanly at any moment",
  "Destroying an engine, or deactivating the default engine, terminates soon after every ring has been released, outputs every record whose post finished before the shutdown began (and every record of a ring that is still held, until it is released), and never touches a ring, area or output after it is freed; all its rings, areas, memory and its thread are gone afterwards. "
  "The default engine can be activated and deactivated repeatedly while threads go on posting records of their own areas: such a record comes out of the engine being stopped or of the next one, exactly once, with drops of the default ring reported correctly across engines; an engine active at exit is stopped by the exit handler, and a second activation is refused without effect.",
  ["schedules", "histories"], "every interleaving of engine construction/destruction with posting and releasing threads, and every sequence of activate/deactivate cycles",
  "Each test process starts and stops an engine once, at a quiet moment.",
  [ENG, "src/default-engine.cc", RB, "include/hogl/detail/refcount.hpp"], [("reference counting", "include/hogl/detail/refcount.hpp"), ("drain loop", ENG)], ["termination within bounded simulated time", "memory accesses to freed objects", "output contents"])

p("C11", "Section masks settle to the last applied mask in every area",
  "After mask changes and area registrations by any threads have returned, every area's enabled sections are exactly what the engine's final mask says, for areas registered before, during or after the change. "
  "A section that both the old and the new mask decide the same way and whose area is registered before the change is restored to it when the change returns, and a record of a section that has been disabled since before the post began never appears. Reading the engine's mask or printing the engine meanwhile shows a mask it had.",
  ["schedules", "histories"], "every interleaving of apply_mask, add_area and posting threads, for every mask list",
  "Mask tests are single threaded.",
  [ENG, "src/mask.cc", "src/area.cc", "include/hogl/detail/bitmap.hpp"], [("mask applied to the area map under a lock", ENG + " apply_mask/add_area")], ["area::test for every section after quiescence"])

p("C12", "Area registration is atomic: one area per name, stable and usable at once",
  "Concurrent registrations of one name with identical sections all get the same area, a registration with different sections fails without disturbing the existing area, and an area returned by registration or lookup is fully initialised with the current mask applied and stays valid until the engine is destroyed. "
  "Listing and lookup running concurrently see each registered area exactly once, and a refused or repeated registration leaves nothing behind.",
  ["schedules", "histories"], "every interleaving of add, find and list calls over a small set of names",
  "Tests register areas from one thread.",
  [ENG, "src/area.cc"], [("area map under the area mutex", ENG + " add_area")], ["returned pointers and their contents", "history of calls versus a map"])

p("C13", "Ring registration: unique names, safe reuse, release never loses records",
  "At most one live ring exists per name in an engine: a private ring's name is refused while its owner is alive, a shared ring is handed to every caller, and a reusable ring is handed to the next owner after the previous one released it, with sequence numbers continuing. "
  "A ring handed out is always served by the engine until it is released, and a released ring is freed only after its last record was output and nobody refers to it.",
  ["schedules", "histories"], "every interleaving of add, find, post and release of rings of one name with the engine's orphan collection",
  "The race between orphan collection and reuse needs a specific interleaving; tests reuse rings after sleeping.",
  [ENG, RB, "include/hogl/detail/refcount.hpp"], [("orphan detection by reference count", ENG + " kill_orphan"), ("ring map under the ring mutex", ENG + " add_ring/find_ring")], ["delivery of records posted on a ring handed out", "freed memory accesses"])

p("C14", "A timesource change reaches every ring and is never lost or torn",
  "When a timesource change reports success, every ring of the engine, including rings being registered at that moment and rings registered later, uses the new timesource for records posted afterwards, and the output shows one switch notice at that point. "
  "When it reports failure within its time limit no record or sequence number is lost, and records posted earlier keep the timestamps they had.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of changes with ring registration, posting and a stalled engine",
  "The test switches timesources on idle rings.",
  ["src/timesource.cc", ENG, RBC], [("special record handled by the engine under the ring mutex", ENG + " switch_timesource")], ["timestamps of records posted after the change returned", "ring::timesource for every ring"])

p("C15", "Thread-local rings are private to their thread and end with their scope",
  "While a thread-local ring exists, that thread's posts go to its ring and to no other, threads without one post to the shared default ring, and after it is destroyed or the thread ends the thread falls back to the default ring, the engine drains the ring and frees it. "
  "Nothing posted before the end of the scope is lost.",
  ["schedules", "histories"], "every interleaving of threads creating, using and destroying thread-local rings of the same and different names with the engine",
  "Tests run one scope per thread at a time.",
  ["src/tls.cc", "include/hogl/tls.hpp", "include/hogl/ring.hpp", ENG], [("thread local ring pointer", "src/tls.cc"), ("release on destruction", "src/tls.cc")], ["ring name of every delivered record", "list of rings"])

p("C16", "Records show up in the sink within a few polling intervals",
  "While the engine runs and its output accepts data, a record that has been posted is written to the sink within four polling intervals plus the time the output itself takes, also when no further records arrive, when other rings are busy, and when the wall clock jumps forwards or backwards. "
  "Equally an idle engine sleeps: it does not spin without pausing.",
  ["schedules", "histories", "fault_sequences"], "every posting pattern, clock history and polling interval",
  "Tests sleep long enough and use a well-behaved clock.",
  [ENG, "src/ostrbuf.cc"], [("poll loop", ENG + " loop"), ("left-over flush in the next pass", ENG + " flush_tso"), ("output flushed each pass", ENG + " process_rings")], ["simulated time from end of post to sink write"])

p("C17", "File rotation keeps the log a continuous byte stream",
  "Concatenating the chunks of a rotated file output in creation order, without their headers and footers, gives exactly the bytes written, none lost, duplicated or moved, for every interleaving of the writing thread with the rotation helper, name switches and shutdown. "
  "Each chunk starts with one header naming that chunk, each completed chunk ends with one footer naming its successor, the last ends with the final footer, and no chunk is written after its footer.",
  ["schedules", "histories", "configurations"], "every interleaving of writes, rotation, switch_name and destruction, and every chunk size, count and buffer capacity",
  "No existing test rotates a file at all.",
  ["src/output-file.cc", "src/ostrbuf-fd.cc"], [("descriptor swap under the write mutex", "src/output-file.cc do_rotate"), ("helper thread handshake", "src/output-file.cc thread_loop")], ["file contents in the simulated file system"])

p("C18", "Rotation happens when due and the symlink always leads to a live chunk",
  "Once a chunk exceeds its size limit, or a name switch was requested, rotation follows as soon as the helper runs while writing continues, and it is never lost; after it the stable name is a symlink to the chunk being written. "
  "At every instant, including a crash at any point, the stable name once created resolves to an existing chunk that is the newest or the one before it, and a restart continues numbering after the chunk the name leads to, wrapping at the configured count, so it never overwrites that chunk (counts of at least 2; symlink() and rename() succeed).",
  ["schedules", "crash_points", "histories"], "every interleaving of the trigger with the helper thread, and a crash after any file-system operation followed by a restart",
  "Crash points and lost triggers cannot be produced by tests; none rotates.",
  ["src/output-file.cc"], [("temporary symlink renamed over the old one", "src/output-file.cc update_link"), ("number recovered from the symlink", "src/output-file.cc read_link")], ["simulated directory after each operation", "chunk sizes"])

p("C19", "A failed rotation harms nothing",
  "When the next chunk cannot be opened or its header cannot be written, output continues in the current chunk with no byte lost, no existing chunk is destroyed other than the one the numbering would replace next, and rotation is retried and succeeds once the fault is gone. "
  "The same holds for a switch to a name that cannot be opened.",
  ["fault_sequences", "schedules", "histories"], "every sequence and placement of failing opens, full disks and failing header writes during rotation",
  "Tests inject no I/O faults.",
  ["src/output-file.cc"], [("keep the old descriptor when anything fails", "src/output-file.cc do_rotate")], ["file contents and names in the simulated file system"])

p("C20", "Sinks deliver every byte across short and interrupted writes and survive errors",
  "For file and descriptor outputs a write that is short or interrupted is continued until all buffered bytes are written, in order and exactly once, for every buffer size and record size, and a successful flush hands over everything the sink was given. "
  "A hard error (full disk, I/O error, closed pipe) never crashes or hangs the engine, never corrupts bytes written before it, and the application's posts keep working; the output reports that it failed.",
  ["fault_sequences", "inputs", "schedules"], "every sequence of short writes, interruptions and hard errors placed at any write",
  "Tests write to healthy files.",
  ["src/ostrbuf-fd.cc", "src/ostrbuf-stdio.cc", "src/ostrbuf.cc", "src/output-file.cc", "include/hogl/detail/ostrbuf.hpp"], [("buffer + overflow pair written with writev", "src/ostrbuf-fd.cc"), ("failure flag", "include/hogl/detail/ostrbuf.hpp")], ["bytes accepted by the simulated device"])

p("C21", "A tee output gives every branch the full stream",
  "Each branch of a tee output receives exactly the bytes it would receive alone, headers and footers included, in order and exactly once, and after a flush both have all of it. "
  "A branch that fails or lags does not change what the other branch receives.",
  ["fault_sequences", "inputs", "histories"], "every record sequence and buffer size and every fault sequence on one branch",
  "Tests compare nothing under faults.",
  ["src/ostrbuf-tee.cc", "src/output-tee.cc"], [("forwarding buffer", "src/ostrbuf-tee.cc")], ["bytes received by each branch"])

p("C22", "Engines running side by side do not interfere",
  "Records, drop reports, masks, areas, rings and timesources of one engine never appear in or alter another engine running concurrently in the same process, and stopping or stalling one engine delays or loses nothing of the other.",
  ["schedules", "histories"], "every interleaving of two engines with their own rings, areas, outputs and mask changes",
  "aux_engine_test runs two engines briefly and prints.",
  [ENG, "src/tls.cc", "include/hogl/tls.hpp"], [("all state is per engine", "include/hogl/detail/engine.hpp")], ["outputs of both engines"])

p("C23", "A damaged raw log yields the intact records and never harms the reader",
  "Decoding a raw binary log written by the engine gives back every record with the same ring, area, section, sequence number, timestamp and arguments. "
  "When the file is cut at any byte or bytes in it are damaged, decoding terminates, never accesses memory outside its buffers, and every record that lies completely before the first damaged byte is decoded intact (names of 2 to 128 printable characters, records within the decoder's size limit).",
  ["crash_points", "fault_sequences", "inputs"], "a cut at every byte and flipped, lost or duplicated bytes at any position of logs made of any mix of records",
  "rawrec_test prints one healthy stream.",
  ["src/format-raw.cc", "tools/raw-parser.cc", "tools/rdbuf.cc", "tools/cook.cc"], [("length-prefixed blobs", "src/format-raw.cc"), ("bounded parsing", "tools/raw-parser.cc")], ["decoded records versus posted records", "memory errors", "steps"])

p("C24", "After a crash the undelivered records are recovered from the core image",
  "If the process dies at any instant, the recovery tool run on its memory image outputs every record that was completely posted and not yet committed as delivered by the engine, with its original text and arguments, per ring in order and sorted by timestamp, and invents none; what the output's buffer held at that moment is saved as well. "
  "It terminates without memory errors also when the crash hit in the middle of a post or of the engine's work, or the image is incomplete; then constant strings and names that are missing from the image may be replaced by a placeholder, and with --all slots that were never used may appear as blank records.",
  ["crash_points", "schedules"], "a crash at every instruction of every interleaving of writers and engine, and images with missing segments",
  "No test covers recovery.",
  ["tools/recovery-engine.cc", "tools/coredump.cc", "tools/recover.cc", RB, "include/hogl/detail/magic.hpp"], [("magic numbers in live objects", "include/hogl/detail/magic.hpp"), ("pointer fix-up into the image", "tools/recovery-engine.cc")], ["records output by the recovery engine versus ring contents at the crash"])

p("C25", "Running out of memory or threads fails cleanly",
  "When memory, a thread or a mutex cannot be obtained while creating an engine, ring, area, thread-local ring or output, activating the default engine, changing the mask, or looking something up, the call reports failure (an exception, a null result, or an output marked failed) or works fully; on failure it leaves everything that existed before fully working, leaks no thread, descriptor, memory or ring reference, holds no lock, and a later attempt succeeds. It never crashes, hangs, or hands out a broken object. "
  "The engine and the rotation helper survive an allocation failure in their own housekeeping or terminate through the standard out-of-memory path, without corrupting delivered output.",
  ["fault_sequences", "schedules"], "a failure of any single allocation or thread creation made by any of these calls",
  "Tests never fail an allocation.",
  [RBC, ENG, "src/output-file.cc", "src/area.cc", "src/ostrbuf.cc", "src/tls.cc"], [("exceptions from constructors", RBC)], ["result of the call, later behaviour, live threads"])

p("C26", "Printed timestamps and headers are right for every history of clock readings",
  "In the text format every line's timestamp fields, ring, area, section and sequence number are those of its own record, for every history of earlier records: day, second and sub-second roll-over, repeated and backward timestamps included; timestamps print in full nanosecond precision, and the time delta is the difference to the previous line's timestamp. "
  "The date and time printed are the local calendar time of the record's timestamp.",
  ["histories", "inputs"], "every sequence of record timestamps (the formatter caches earlier ones) and every combination of header fields",
  "tscache test uses one short increasing sequence.",
  ["src/format-basic.cc"], [("timestamp cache", "src/format-basic.cc")], ["text lines versus the records"])

p("C27", "Following a growing raw log neither loses nor tears records",
  "Reading a raw log while it is being written, in tail-follow mode and also across any split of the writes, decodes the same records in the same order as reading the complete file afterwards; following that starts at a record boundary delivers every record written from then on, and is not ended by interrupted or short reads.",
  ["schedules", "fault_sequences"], "every interleaving of the reader with a writer that appends in pieces of any size",
  "No test covers the reader.",
  ["tools/rdbuf.cc", "tools/raw-parser.cc"], [("retry at end of file", "tools/rdbuf.cc")], ["decoded records"])

p("C28", "The C interface keeps the guarantees of the C++ one",
  "Everything a C program does through hogl's C interface has the effect of the C++ call it stands for: records posted with the C macros, with any number of arguments of any supported type, come out exactly once with the values and strings they had at the call; areas, masks, thread-local rings, outputs and engines get the names, options and sections they were given (the caller may free or reuse its strings and option structures at once); hogl_flush and hogl_deactivate deliver what was posted before them; sections tested, set and reset are those named. A call that is documented to return zero when it fails (registering an area, creating an output) does so when memory, threads or descriptors run out or the arguments conflict: no C++ exception escapes from it into C code, and nothing is left behind.",
  ["schedules", "fault_sequences"], "every sequence of calls by several C threads, every argument shape, option structure given or not, every failing allocation, open or thread creation",
  "The C test posts a few integers to stdout and looks at nothing; failures are never provoked.",
  ["src/c-api.cc", "include/hogl/c-api/post.h", "include/hogl/c-api/engine.h", "include/hogl/c-api/tls.h", "include/hogl/c-api/output.h", "include/hogl/c-api/area.h", "include/hogl/c-api/mask.h"],
  [("argument packing of the C post macros", "include/hogl/c-api/post.h"), ("wrappers", "src/c-api.cc")], ["output bytes", "return values", "ring attributes", "allocations, threads and descriptors left"])

p("C29", "Engine and helper threads run under the scheduling parameters they were given",
  "Every thread hogl creates (engine, log file helper) that was given scheduling parameters calls their thread_enter on itself before it does any other work and thread_exit after the last, once each, whatever the schedule and however soon it is destroyed; several threads may share one object. "
  "The standard parameters apply policy, priority and exactly the CPUs the affinity text names, to that thread only; text that is malformed or names CPUs beyond the supported range applies no affinity, validate() says so beforehand and changes no thread. "
  "What the operating system refuses makes thread_enter return false and costs one warning (in the default engine's log, or on stderr when there is none), the rest is applied, and logging works as if nothing had been asked for. "
  "Objects marked DELETE_ON_EXIT are deleted exactly once, by the thread as it ends; others never, and their owner may free them as soon as the destructor of the engine or output has returned.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of threads starting and being destroyed, every refusal by the operating system, every affinity text",
  "The scheduling tests set one affinity on a live engine and look at nothing; refusals need privileges taken away.",
  ["src/schedparam.cc", ENG, "src/output-file.cc", "src/platform.cc"], [("thread entry points", ENG), ("affinity parser", "src/schedparam.cc")], ["calls that reach the kernel and their thread", "enter and exit of each thread", "warnings", "live objects"])

p("C30", "No record an application can post stops the engine or disturbs other records",
  "Whatever format string and arguments a post hands over - fewer or more arguments than conversions, conversions of another type, malformed or unknown conversions, positions, widths and precisions, null or empty strings (regular and global), strings with zero or non-ASCII bytes, dumps of any conversion, width and length, raw data at any position, a section the area does not have, no area at all - the record comes out with its header and the text that this record alone gives under the rules for its arguments, exactly as it was at the call; the engine, the output and the decoders of the raw format go on, no memory outside the record is touched, and every other record is written as if the odd one had not been there.",
  ["inputs", "histories", "schedules"], "every sequence of records from any number of threads, every format string and list of arguments",
  "Tests post well-formed records only; the formatter keeps state from record to record and runs in the engine's thread, where one escaping exception ends the process.",
  ["src/format-basic.cc", "src/format-raw.cc", "include/hogl/detail/args.hpp", "include/hogl/detail/record.hpp", "include/hogl/detail/argpack.hpp", "tools/raw-parser.cc"],
  [("dispatch on argument types", "src/format-basic.cc"), ("argument capture", "include/hogl/detail/record.hpp")], ["each line against a fresh formatter given the same record", "decoded raw records", "process survival", "memory"])

p("C40", "Argument formatting matches printf",
  "The text printed for a record equals what printf prints for its format string and arguments.",
  ["inputs"], "every format string and argument list", "Tests sample a few formats.",
  ["src/format-basic.cc", "src/fmt-format.cc"], [("fmt based printf", "src/format-basic.cc")], ["formatted text"])
p("C41", "Mask expressions select exactly the sections their patterns match",
  "A mask entry selects the sections whose area and section names match its patterns; later entries override earlier ones and '!' disables.",
  ["inputs"], "every list of mask expressions", "Tests sample a few masks.",
  ["src/mask.cc"], [("regular expressions", "src/mask.cc")], ["area::test"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
