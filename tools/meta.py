#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique,
         level, note, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, level=level,
                  note=note, state=state or []))


ASAN = "AddressSanitizer + UndefinedBehaviorSanitizer build of /repo's sources"

# ---------------------------------------------------------------- mailboxes
prop("C01", "mbox delivers every accepted message once, whole and in order",
     "Every message accepted by a push on a fixed-size mailbox is returned by exactly one later peek, byte for byte, and "
     "messages of one producer come out in the order it pushed them, whatever the number of producer threads. "
     "A push that fails (full mailbox, invalid argument) queues nothing, and a peek that fails (empty mailbox, invalid "
     "argument) consumes nothing and leaves the caller's buffer alone. "
     "Any message size from 1 to PIPE_BUF - 1 bytes is accepted at creation and no other size is.",
     ["schedules", "histories", "inputs"],
     "all message sizes 1..PIPE_BUF-1, all interleavings of several producers and a consumer, all histories including "
     "full and empty mailboxes",
     "futils_test_mbox.c pushes a few messages of one struct type from one thread; no concurrency, no boundary size, and "
     "it is not even built here",
     ["src/mbox.c", "include/futils/mbox.h"],
     [("one atomic write/read of msg_size < PIPE_BUF bytes on a non-blocking pipe", "src/mbox.c mbox_push/mbox_peek")],
     ["return codes and buffers of mbox_push/mbox_push_block/mbox_peek"],
     "runtime monitoring: trace checker (model queue, per-producer FIFO, exactly-once, checksummed messages) over "
     "single-thread histories and multi-producer stress with injected delays, under ASan/UBSan", "exploration",
     "Executions only: randomised single-thread histories are judged against an exact queue model; concurrent runs are "
     "judged by sequence numbers and checksums in each message. Trusts the kernel's pipe atomicity on this machine.")

prop("C02", "mbox blocking push: queued exactly once, or an honest timeout",
     "A blocking push on a fixed-size mailbox returns 0 only once its message has been queued, exactly once; it returns "
     "-ETIMEDOUT only when nothing was queued and not before the given number of milliseconds has elapsed, even when "
     "signals interrupt the wait, the system time is changed or other producers compete for the space; it does not wait "
     "much longer than that either. "
     "With a timeout of 0 it waits as long as needed, so it never fails because of a full mailbox, and in every case it "
     "completes once a consumer has freed enough space.",
     ["schedules", "inputs", "histories"],
     "all timeouts, fill levels, competing producers, consumer schedules and signal deliveries",
     "the tests block once with one producer on a full mailbox; no contention, no signals, no large timeout",
     ["src/mbox.c"],
     [("poll for POLLOUT then write, retried with the remaining time", "src/mbox.c mbox_push_block")],
     ["return code, elapsed monotonic time, messages read back"],
     "runtime monitoring: elapsed-time and conservation monitors over contended blocking pushes with injected delays and "
     "signals", "exploration",
     "Lower time bounds are checked exactly against CLOCK_MONOTONIC; 'completes' is judged with generous watchdogs "
     "(tens of seconds) and a hang is only reported when it repeats.")

prop("C03", "dynmbox blocking push: queued exactly once, or an honest timeout",
     "A blocking push on a variable-size mailbox returns 0 only once its message has been queued, exactly once; it returns "
     "-ETIMEDOUT only when nothing was queued and not before the given number of milliseconds has elapsed, for any "
     "timeout value up to UINT_MAX and even when the system time is changed meanwhile; it does not wait much longer than "
     "that either. "
     "With a timeout of 0 it waits as long as needed, and in every case it completes soon after the consumer has freed "
     "enough space for the message.",
     ["schedules", "inputs", "histories"],
     "all timeouts 0..UINT_MAX, message sizes, fill levels and consumer schedules",
     "the tests use one short timeout and one consumer pattern",
     ["src/dynmbox.c", "src/timetools.c"],
     [("condition variable signalled by the consumer, absolute deadline", "src/dynmbox.c dynmbox_push_block/dynmbox_peek")],
     ["return code, elapsed monotonic time, messages read back"],
     "runtime monitoring: elapsed-time, lost-wakeup and conservation monitors over blocking pushes with a concurrent "
     "consumer, delay injection around locks and condition waits", "exploration",
     "Lower time bounds exact; lost wakeups are judged by a watchdog much longer than any correct run and must repeat. "
     "Changes of the system time are made in virtual time, where both the waits and the clocks are simulated.")

prop("C04", "dynmbox delivers variable-size messages once, whole and in order",
     "With one producer and one consumer, every message accepted by a variable-size mailbox is returned by exactly one "
     "later peek with exactly the size and bytes it was pushed with, in push order. "
     "This holds for every size from 0 to the mailbox maximum (including sizes above PIPE_BUF), at every position of "
     "the internal storage, and for any mix of blocking and non-blocking pushes running concurrently with peeks; a peek "
     "never writes beyond the size it returns.",
     ["schedules", "histories", "inputs"],
     "all message size sequences and producer/consumer interleavings",
     "the tests check a few sizes from one thread and one two-thread pattern",
     ["src/dynmbox.c", "include/futils/dynmbox.h"],
     [("ring buffer with length headers under a mutex", "src/dynmbox.c rbuf_write/rbuf_read/do_push/do_peek")],
     ["return codes and buffers of dynmbox_push/dynmbox_push_block/dynmbox_peek"],
     "runtime monitoring: model-based history checker and two-thread stress with self-describing messages, exact-size "
     "guarded peek buffers, under ASan/UBSan", "exploration",
     "Executions only; wraparound positions are covered by random walks over the ring offset, and the offsets reached are "
     "counted.")

prop("C05", "Mailbox read fd is readable exactly when a message is pending",
     "When no call is in progress, the read file descriptor of a mailbox (fixed or variable size) polls readable if and "
     "only if at least one message is pending. "
     "Hence a consumer that only peeks after a poll event receives every message, and never spins on a readable but empty "
     "mailbox, whatever the interleaving of past pushes, failed pushes and peeks.",
     ["schedules", "histories"],
     "all histories of pushes and peeks and all producer/consumer interleavings leading to a quiescent state",
     "the tests never poll the descriptor after concurrent use; the stale notification needs a peek inside the push",
     ["src/dynmbox.c", "src/mbox.c"],
     [("one notification byte per queued message", "src/dynmbox.c push_notify/pop_notify"),
      ("pipe as queue", "src/mbox.c")],
     ["poll() on the read fd at quiescent points"],
     "runtime monitoring: quiescence monitor comparing poll() readiness with the number of pending messages, with delays "
     "injected at lock, unlock, read and write calls", "exploration",
     "Each injected-delay run visits many producer/consumer overlaps; readiness is compared at quiescent points only.")

prop("C06", "dynmbox capacity is never lost and refused pushes change nothing",
     "A variable-size mailbox that is empty, whatever its past, accepts one message of its declared maximum size, and a "
     "given sequence of pushes is accepted or refused on it exactly as on a new mailbox. "
     "A refused push (-EAGAIN for lack of space, -EINVAL for a size above the maximum or a missing buffer) leaves the "
     "pending messages and the remaining space unchanged. Creation succeeds exactly for maximum sizes up to "
     "DYNMBOX_MAX_SIZE, and the mailbox reports the declared one.",
     ["histories", "inputs"],
     "all histories of pushes, refusals and peeks; all declared maximum sizes",
     "the tests fill a fresh mailbox once",
     ["src/dynmbox.c"],
     [("used-bytes accounting of the ring buffer", "src/dynmbox.c rbuf_space_left/do_push")],
     ["return codes of dynmbox_push compared between an aged and a new mailbox"],
     "runtime monitoring: differential monitor of an aged mailbox against a fresh one after random histories, model of "
     "pending messages across refusals, under ASan/UBSan", "exploration",
     "Capacity units are left unspecified by the API, so the oracle is the behaviour of a new mailbox of the same kind.")

prop("C07", "Mailboxes and the random generator are free of data races",
     "Using a fixed-size mailbox from any number of producer threads and a consumer thread, a variable-size mailbox from "
     "one producer and one consumer thread, and the pseudo random generator (including reseeding) from any number of "
     "threads, involves no data race.",
     ["schedules"],
     "all interleavings of the documented concurrent uses",
     "no existing test runs under a race detector; most are single threaded",
     ["src/dynmbox.c", "src/mbox.c", "src/random.c"],
     [("mutex around the ring buffer", "src/dynmbox.c"), ("thread local pools and an atomic era", "src/random.c")],
     ["ThreadSanitizer reports"],
     "ThreadSanitizer over concurrent workloads of the documented uses (with random delays)", "exploration",
     "TSan reports races on the executions run; memory of the library only (harness synchronisation is by atomics).")

# ---------------------------------------------------------------- containers
prop("C08", "Hash table behaves as a map from 32-bit keys",
     "After any sequence of insertions, removals, clears and lookups, lookups return exactly the data most recently "
     "inserted for each present key, -ENOENT for absent ones, and inserting a present key fails with -EEXIST leaving the "
     "stored entry unchanged. "
     "Entries inserted as const are found by the const lookup and refused (-EPERM) by the mutable one, and walking the "
     "entry list visits every present entry exactly once in insertion order.",
     ["histories", "inputs"],
     "all operation sequences, keys (including colliding ones) and table sizes",
     "the hash table has no test at all in this repository",
     ["src/hash.c", "include/futils/hash.h"],
     [("chained buckets plus an entry list", "src/hash.c")],
     ["return codes and data of the hash API, public entries list"],
     "runtime monitoring: model-based checking of random operation histories (colliding keys, many table sizes) under "
     "ASan/UBSan", "exploration",
     "Every operation's result and, at intervals, the whole content and order are compared with a reference map.")

prop("C09", "Hash table frees each owned entry exactly once",
     "When a table is created with a free callback, the callback is called exactly once with the data of each mutable "
     "entry when that entry leaves the table (removal, clear, destruction), and never otherwise: not on failed insertions, "
     "lookups or for entries still present. "
     "Without a callback the table never touches the data, and after destruction no memory of the table is left "
     "allocated; a cleared table can be used again.",
     ["histories"],
     "all operation sequences ending in removal, clear or destruction",
     "no test exercises the free callback",
     ["src/hash.c"],
     [("hfree called on removal", "src/hash.c futils_hash_remove/futils_hash_remove_all")],
     ["calls of the free callback, allocator balance"],
     "runtime monitoring: ownership monitor (callback call log per entry) and allocator balance over random histories "
     "under ASan", "exploration",
     "Mutable entries only with a callback (whether const data is to be freed is not specified).")

prop("C10", "Intrusive list operations keep a consistent doubly linked sequence",
     "After any sequence of insertions, deletions, moves, replacements and pops on one or several lists, walking each list "
     "forward gives exactly the sequence a reference model predicts, walking it backward gives the reverse, and length, "
     "emptiness, first, last, next and previous queries agree with it. "
     "A deleted node is recognisable as unlinked, and an element of one list is never reachable from another.",
     ["histories"],
     "all sequences of list operations over several lists",
     "the unit tests perform a handful of fixed operations",
     ["include/futils/list.h"],
     [("pointer updates of list_add/list_detach/list_replace", "include/futils/list.h")],
     ["walks and queries of the list API"],
     "runtime monitoring: model-based checking of random operation sequences over several lists under ASan/UBSan",
     "exploration", "Each operation is followed by a full comparison of all lists, both directions.")

prop("C11", "List walks visit every element once, also when elements are removed",
     "Every forward and backward walk, by node or by entry, visits each element exactly once in order; the safe variants "
     "still do when the current element is deleted, moved to another list or freed during the walk. "
     "Used as a FIFO, elements are popped in push order and popping an empty list gives NULL.",
     ["histories", "inputs"],
     "all list lengths and removal patterns during the walk, all positions of the node in its container",
     "the tests remove one fixed element pattern",
     ["include/futils/list.h"],
     [("next element fetched before the body in *_safe walks", "include/futils/list.h")],
     ["visited sequence"],
     "runtime monitoring: visit-sequence monitor with elements deleted/freed during walks under ASan/UBSan (use after free "
     "detection)", "exploration", "Small lists with all removal patterns, larger ones at random.")

# ---------------------------------------------------------------- varint
prop("C12", "Varint encodings round-trip in canonical little-endian base-128 form",
     "For every 16, 32 and 64-bit value, signed or unsigned, decoding the encoded bytes gives the value back and consumes "
     "exactly the number of bytes written; the bytes are the shortest LEB128 form, signed values being zigzag encoded. "
     "Encoding writes only that many bytes, never beyond them, and refuses a destination smaller than the documented "
     "maximum (3, 5, 10 bytes) without writing.",
     ["inputs"],
     "all values of the six types, all destination sizes",
     "the tests use four to seven values per type",
     ["src/varint.c", "include/futils/varint.h"],
     [("7-bit groups with continuation bit, zigzag", "src/varint.c")],
     ["encoded bytes, lengths, decoded values"],
     "runtime monitoring: round trip against an independent reference encoder, all 16-bit values and boundary/random "
     "32/64-bit ones, guarded buffers under ASan/UBSan", "exploration",
     "Exhaustive for 16-bit types; boundary values and random samples for the others.")

prop("C13", "Varint decoding is safe and exact on arbitrary bytes",
     "Decoding never reads outside the given source bytes, and its result depends only on the bytes it consumes. "
     "It succeeds exactly when a complete encoding whose value fits the requested type is present within the given length "
     "and the type's maximum encoded length, giving that value and the consumed length; otherwise (truncated, too long, "
     "overflowing or missing arguments) it fails with a negative errno.",
     ["inputs"],
     "all byte strings and lengths",
     "the tests only decode well formed maximal buffers",
     ["src/varint.c"],
     [("length and overflow checks before each byte", "src/varint.c futils_varint_read")],
     ["return code, value, consumed length"],
     "runtime monitoring: differential decoding of exhaustive short and random/mutated byte strings in exact-size heap "
     "buffers under ASan, trailing-byte independence monitor", "exploration",
     "All byte strings up to 2 bytes and structured/random longer ones are decoded by all six readers.")

# ---------------------------------------------------------------- random
prop("C14", "Bounded random values stay in range and are uniform",
     "For every maximum, a bounded random value of 8, 16, 32 or 64 bits lies between 0 and the maximum included. "
     "All values of that range are equally likely (no modulo bias, no unreachable value), through both the returning and "
     "the pointer variants.",
     ["inputs", "histories"],
     "all maxima of each width",
     "the tests check ranges for some maxima and not the distribution at the edges",
     ["src/random.c", "include/futils/random.h"],
     [("mask and rejection sampling", "src/random.c _pool_rand*_maximum")],
     ["returned values"],
     "runtime monitoring: range monitor over maxima of every bit length and chi-square / reachability monitors with "
     "false-alarm probability below 1e-12, under ASan/UBSan", "exploration",
     "Statistical: biases of a few percent on small ranges and per-quantile on large ones are detected.")

prop("C15", "Random bytes, integers and unit reals are complete and well distributed",
     "A request for n random bytes (from the generator or from the operating system) fills exactly those n bytes for any n "
     "and any previous use of the generator; every bit of the buffers and of the 8 to 64-bit integers is unbiased and "
     "independent of the other ones, and output never repeats. "
     "Unit-interval reals are multiples of 2^-53 (double) or 2^-24 (float) in [0, 1), uniformly distributed.",
     ["inputs", "histories"],
     "all request sizes and mixes of previous requests",
     "the tests sample few sizes and cannot see a repeated or unfilled part of the stream",
     ["src/random.c"],
     [("chacha20 keystream pool, direct fill for large requests", "src/random.c pool_rand/pool_stir/pool_reload")],
     ["returned bytes and values"],
     "runtime monitoring: guarded buffers, per-byte fill monitor, stream duplicate detector over random request mixes and "
     "bit/bucket statistics with false-alarm probability below 1e-12, under ASan/UBSan", "exploration",
     "Statistical checks cannot establish cryptographic quality; they detect constant, repeated, correlated or unfilled "
     "output.")

prop("C16", "Random text has the announced length, alphabet, padding and randomness",
     "Random strings, base16, base32 and base64 texts return the full length that was asked for, write at most the given "
     "buffer size, are NUL terminated whenever the size is not 0, are truncated prefixes of a full result otherwise, and "
     "use only their alphabet, with RFC 4648 padding and zeroed unused bits for base32/base64. "
     "Every non padding character is uniformly distributed and independent of the others, so that count bytes of text "
     "carry 8*count random bits; counts whose length does not fit an int fail with -EINVAL.",
     ["inputs"],
     "all counts, buffer sizes and alphabets",
     "the tests check lengths and alphabets of small counts, not truncation at each size nor randomness of each position",
     ["src/random.c"],
     [("per-group generation with truncation and padding", "src/random.c futils_random_base32/base64/base16/string")],
     ["returned length, buffer content"],
     "runtime monitoring: exact-size buffers under ASan for every (count, size) pair of a dense grid, RFC 4648 form "
     "checker, per-position uniformity and pairwise independence statistics", "exploration",
     "Dense grid for small counts, random large ones; statistics with false-alarm probability below 1e-12.")

prop("C17", "Shuffle yields every permutation with equal probability",
     "Shuffling an array of any number of items of any size leaves a permutation of the same items, touches nothing "
     "outside the array, keeps no memory, and every permutation is equally likely; 0 or 1 items, or items of size 0, are left unchanged.",
     ["inputs"],
     "all item counts and sizes",
     "the tests check one array and not the distribution",
     ["src/random.c"],
     [("Fisher-Yates with unbiased indexes", "src/random.c futils_random_shuffle")],
     ["array content"],
     "runtime monitoring: multiset/permutation monitor over item counts and sizes in exact-size buffers under ASan, "
     "chi-square over all permutations of small arrays", "exploration",
     "All permutations of 2 to 5 items and positions of larger arrays are counted.")

prop("C18", "Random streams of threads and reseeded processes never coincide",
     "Different threads obtain unrelated random streams. "
     "After a reseed, in whichever thread it was requested, all threads of the process continue with streams unrelated to "
     "what they would have produced otherwise, so that a forked child which reseeds shares no further output with its "
     "parent or with other reseeded children.",
     ["schedules", "histories"],
     "all fork, thread and reseed histories",
     "no test forks, and none compares streams across threads",
     ["src/random.c"],
     [("thread local pools reseeded when the global era changes", "src/random.c pool_seed_if_needed/futils_random_reseed")],
     ["streams of several threads and processes"],
     "runtime monitoring: offline duplicate detection over recorded streams of threads, forked children and reseeded "
     "siblings", "exploration",
     "Streams are compared by aligned and unaligned 8-byte windows; a chance match has probability below 1e-9.")

prop("C19", "Random output already delivered is not kept by the generator",
     "Once random bytes have been returned, they can no longer be found in the memory the generator keeps nor computed "
     "again from the key it keeps, and neither can the seed obtained from the operating system once output has been produced from it.",
     ["histories"],
     "all request mixes",
     "no test looks at the generator's memory",
     ["src/random.c"],
     [("consumed bytes cleared, key replaced at each reload", "src/random.c pool_buffer_consume/pool_reload")],
     ["the process's own writable memory (globals, TLS, heap)"],
     "runtime monitoring: scan of the process's own writable memory, stacks excluded, for bytes returned earlier and for "
     "the OS seed; cipher states found there are run again and their blocks compared with the output", "exploration",
     "Stack residue is not judged (the compiler may keep copies). Seeds are observed by interposing getrandom and read.")

prop("C20", "Entropy faults never yield unseeded or partial random output",
     "When the operating system's random source is interrupted, returns short counts, is unavailable or not ready, the "
     "library retries or falls back to the random device and still delivers exactly the requested number of fresh random "
     "bytes, or reports a negative errno (strong random, reseed) without claiming success. "
     "The pseudo random generator never produces output from a missing or partial seed.",
     ["fault_sequences"],
     "all sequences of results of the OS calls (EINTR, short counts, ENOSYS, EAGAIN, other errors, end of file)",
     "no fault can be provoked in the unit tests",
     ["src/random.c"],
     [("retry loops and fallback to /dev/(u)random", "src/random.c rand_fetch")],
     ["return codes, bytes received from the stand-in entropy source, process exit"],
     "fault enumeration: scripted getrandom/open/read results, with an oracle on which delivered source bytes make up the "
     "output", "fault_enumeration",
     "getrandom, open, read and close are interposed at link time in the harness; every script up to a small length is "
     "enumerated.")

# ---------------------------------------------------------------- time
prop("C21", "timespec arithmetic is exact and normalised",
     "For all normalised times, differences, comparisons, additions of signed nano or microsecond deltas and conversions "
     "between timespec, timeval and ns/us/ms integers agree with exact integer arithmetic (conversions to a coarser unit "
     "truncate), as long as the exact result fits its type. "
     "Every resulting timespec has nanoseconds in 0..999999999, a difference is refused exactly when the end precedes the "
     "start, missing arguments are refused, and the result of a difference or an addition may be stored in one of its arguments.",
     ["inputs"],
     "all normalised timespecs and deltas whose exact result is representable",
     "the tests use a table of a few values",
     ["src/timetools.c", "include/futils/timetools.h"],
     [("carry and borrow handling", "src/timetools.c time_timespec_*")],
     ["results of the conversion functions"],
     "runtime monitoring: differential check against 128-bit integer arithmetic on boundary and random values under "
     "ASan/UBSan", "exploration", "Boundary products and random samples.")

prop("C22", "Formatted local times parse back to the same instant and offset",
     "For every time from 1970 to year 9999 and every UTC offset of whole minutes within a day, formatting in ISO 8601 "
     "short or long form or in RFC 1123 form gives the text a calendar predicts, and parsing it gives back the same epoch "
     "seconds and offset. "
     "Formatting never writes beyond the given size, always NUL terminates, and refuses an empty buffer or an unknown "
     "format.",
     ["inputs"],
     "all epochs 0..253402300799, offsets -23:59..+23:59, formats and buffer sizes",
     "the tests have a table of about twenty dates",
     ["src/systimetools.c"],
     [("own epoch computation with shifted year", "src/systimetools.c tm_mkepoch_local"),
      ("parsers", "src/systimetools.c parse_date_time")],
     ["formatted text, parsed values"],
     "runtime monitoring: every day of the range and random seconds/offsets checked against an independent calendar "
     "(days-from-civil), exact-size buffers under ASan/UBSan", "exploration",
     "All days in thorough mode, a seed-dependent stride plus all month/leap/century boundaries in quick mode.")

prop("C23", "Hostile date strings are rejected or parsed without memory errors",
     "Parsing an arbitrary string as a date, an hour or a complete time never reads outside the string or any table, never "
     "invokes undefined behaviour, and either fails with a negative errno or yields a time. "
     "Valid ISO 8601 and RFC 1123 variants (optional T or space, Z, GMT, UT, UTC, numeric zones with or without colon, one "
     "or two digit days) give the instant they denote; numeric months outside 01..12 and texts with missing or trailing "
     "parts are refused.",
     ["inputs"],
     "all strings",
     "the tests only parse well formed strings and a few errors",
     ["src/systimetools.c"],
     [("length checks and field parsers", "src/systimetools.c parse_date/parse_date_rfc1123/parse_time")],
     ["return codes, values, sanitizer reports"],
     "sanitizer-monitored fuzzing: grammar-based valid variants with an oracle, truncations, mutations and random strings "
     "in exact-size heap buffers under ASan/UBSan", "exploration",
     "Structured mutation fuzzing; quick mode runs some 10^5 strings, thorough 10^7.")

prop("C24", "A time context completes exactly when date and hour are both known",
     "A time context accepts the date and the hour in either order, or both at once, each at most once: it reports "
     "-EINPROGRESS until both are known, 0 when complete, -EEXIST for a field already set (or a whole time when any field "
     "is set), and refuses unparsable text without any effect on later calls. "
     "Once complete it yields the epoch and offset of exactly that date and hour; before that it yields nothing.",
     ["histories", "inputs"],
     "all sequences of calls with valid and invalid texts",
     "the tests try few orders",
     ["src/systimetools.c"],
     [("field bits", "src/systimetools.c time_ctx_set_date/hour/time")],
     ["return codes and results of time_ctx_*"],
     "runtime monitoring: state machine model over random call sequences under ASan/UBSan", "exploration",
     "All call sequences up to length 4 over a set of texts, random longer ones.")

prop("C25", "Broken-down and system local time conversions are exact",
     "Converting an epoch and offset to a broken-down time gives the calendar fields of the local instant and the offset, "
     "and converting it back gives the same epoch and offset. "
     "Setting the local time asks the system for exactly that UTC time and reports a refusal as a negative errno; getting "
     "it reports the system's UTC seconds, milliseconds of that second and the local offset of the process time zone, and "
     "missing arguments are refused.",
     ["inputs", "fault_sequences"],
     "all epochs and offsets; results of the system clock calls; time zones",
     "the tests cannot set the clock and check few dates",
     ["src/systimetools.c"],
     [("gmtime_r and tm_mkepoch_local", "src/systimetools.c time_local_to_tm/time_local_from_tm"),
      ("settimeofday/gettimeofday", "src/systimetools.c time_local_set/time_local_ms_get")],
     ["struct tm fields, arguments of the interposed settimeofday"],
     "runtime monitoring: calendar oracle, recorded stand-ins for settimeofday/gettimeofday (the real clock is never set), "
     "several TZ values, under ASan/UBSan", "exploration",
     "settimeofday/clock_settime are replaced at link time by recorders and blocked by a seccomp filter.")

prop("C26", "Clock readings, sleeps and monotonic-to-realtime conversion are faithful",
     "Monotonic and real time readings come from the matching system clock, errors included; a sleep of n milliseconds "
     "that reports success lasts at least n milliseconds, and elapsed time since a past reading is exact. "
     "A monotonic timestamp converts to the real time that differs from the current real time by the same duration, to "
     "within the spread of the clock readings taken by the conversion (rounded for milliseconds), for past and future "
     "timestamps.",
     ["inputs", "fault_sequences"],
     "all timestamps and clock states, clock read failures",
     "the tests compare with loose bounds at the current time only",
     ["src/timetools.c"],
     [("bracketing monotonic reads around the realtime read", "src/timetools.c time_monotonic_to_realtime_us")],
     ["results under a scripted clock"],
     "runtime monitoring: scripted clock_gettime (link-time stand-in) with bracketing oracle, real clock lower bounds for "
     "sleeps, under ASan/UBSan", "exploration",
     "Scripted clocks cover arbitrary values and steps between reads; the conversion may read clocks in any order.")

# ---------------------------------------------------------------- safe write
prop("C42", "With a property store, local offset and simulated clock come from the store",
     "When the library is built with libputils, setting the local time asks the system for exactly that UTC time, keeps the "
     "offset in the property timezone.utc_offset.sec, and reports the failure of either; getting the local time gives the "
     "offset kept there (0 when there is none), whatever the process time zone. "
     "When the property ro.simulator.clock_rt0_us is set, a monotonic timestamp converts to the real time which is exactly "
     "that many microseconds later (rounded for milliseconds), without depending on the system clocks, and a value beyond "
     "a signed 64-bit integer is refused; without it the conversion uses the system clocks.",
     ["inputs", "fault_sequences"],
     "all times, offsets, property values and refusals",
     "the tests are built without libputils",
     ["src/systimetools.c", "src/timetools.c"],
     [("BUILD_LIBPUTILS branches", "src/systimetools.c time_local_set/time_local_ms_get"),
      ("time_monotonic_to_realtime_us_2", "src/timetools.c time_monotonic_to_realtime_us")],
     ["the stand-in store, arguments of the interposed settimeofday, results"],
     "runtime monitoring: the library compiled with BUILD_LIBPUTILS against a stand-in property store, model of the store, "
     "stand-ins for the clocks (the real clock is never set), under ASan/UBSan", "exploration",
     "Property values which are not numbers are not specified. libputils itself is not present here.")
prop("C27", "Safe write replaces a file atomically at every crash point",
     "While a file is rewritten through the safe-write API and at whatever instant the process dies, the file holds either "
     "its complete previous content (or still does not exist) or the complete new content; concurrent readers never see "
     "anything else, and it still does after a power loss that drops data not yet synchronised, also when system calls "
     "failed before. "
     "A successful commit stores exactly the bytes written, in order, and a rollback leaves the previous content; both "
     "leave no temporary file.",
     ["crash_points", "inputs", "schedules"],
     "all kill points between system calls, all write sequences, all reader schedules, loss of unsynchronised data",
     "the tests only commit and roll back without any crash",
     ["src/safew.c", "include/futils/safew.h"],
     [("write to a temporary, fsync, rename", "src/safew.c safew_fclose_commit")],
     ["file content after each crash point, power-loss images"],
     "crash-point enumeration: real code stopped at every system call by a ptrace monitor, directory image and simulated "
     "power-loss images checked against old/new; concurrent reader monitor", "fault_enumeration",
     "Crash points are system call boundaries (plus partially applied writes). Power loss model: names are journalled in "
     "order, unsynchronised file data may be lost entirely or partly.")

prop("C28", "CRC-protected safe write always recovers the old or the new file",
     "If the process dies or power is lost at any instant of a CRC-protected rewrite starting from a valid file, the file "
     "check that follows reports success and leaves the complete previous or the complete new content with a matching CRC "
     "and no temporary files; this still holds when the check itself is interrupted at any instant and run again. "
     "A first creation that is interrupted leaves either the complete new file or nothing, and after a successful commit "
     "the check always keeps the new content.",
     ["crash_points", "histories"],
     "all kill points of the commit, all kill points of each recovery, loss of unsynchronised data",
     "the tests build a few file combinations by hand and never interrupt anything",
     ["src/safew.c"],
     [("ordered creation and renames of payload and crc", "src/safew.c safew_fclose_commit/futils_safew_file_check")],
     ["directory images after crash and recovery"],
     "crash-point enumeration with nested crashes: every system call boundary of the commit, then every boundary of the "
     "recovery run on each distinct image, power-loss images included", "fault_enumeration",
     "As C27; nested recovery crashes are enumerated to depth 2.")

prop("C29", "A failed safe write is reported and keeps the previous file",
     "If any system call fails during a safe write (no space, I/O error, no descriptors, interrupted or short writes...), "
     "either the new content is completely and correctly in place and the commit reports success, or the commit (or open) "
     "reports failure and the file, after a file check in the CRC-protected case, holds the complete previous content or "
     "the complete new one. "
     "A commit never reports success with missing or altered content, or with a CRC that does not match, and failures "
     "leak no descriptor or memory.",
     ["fault_sequences", "inputs"],
     "failure of each system call of the transaction, with each plausible errno, for all write sequences",
     "no test injects a failure",
     ["src/safew.c"],
     [("failure flag, checks of fflush/fsync/fclose/rename", "src/safew.c")],
     ["return codes, directory content after each injected failure"],
     "fault enumeration: nth system call failed, short or interrupted through a ptrace monitor, outcome checked against "
     "old/new contents", "fault_enumeration",
     "One fault per transaction (persistent write faults too); close() faults are injected after the real close.")

prop("C30", "The file check accepts only matching payload/CRC pairs, per its table",
     "For every combination of present, absent, matching, mismatching or truncated payload, temporary payload, CRC and "
     "temporary CRC files, the check keeps exactly the pair its documented table designates (moved in place), removes all "
     "temporary files and returns 0, or removes everything and returns a negative value when no designated pair matches. "
     "Any change of a payload or CRC byte makes a pair mismatch, a successful check can be repeated with the same result, "
     "and files written by a commit keep the established CRC format.",
     ["inputs", "histories"],
     "all 4-file states over valid, stale, corrupt and truncated contents; all single byte corruptions",
     "the tests cover each presence combination once, with one kind of content",
     ["src/safew.c", "include/futils/safew.h"],
     [("decision table on present files", "src/safew.c futils_safew_file_check")],
     ["directory content and return code"],
     "runtime monitoring: exhaustive state enumeration of the four files against the documented decision table, byte/bit "
     "corruption sweep, idempotence monitor, under ASan/UBSan", "exploration",
     "All combinations of absent/A/B/corrupt/empty/short for the four files. CRC collisions among random contents "
     "are excluded by construction.")

prop("C31", "I/O errors during a file check never destroy a valid file",
     "If a system call fails while an existing valid payload/CRC pair (in place or recoverable) is being checked, the "
     "check may report an error but the valid content is still recoverable: the next check without failure succeeds with "
     "a complete, matching content. "
     "The check never reports success while the payload and CRC in place do not match.",
     ["fault_sequences"],
     "failure of each system call of the check, for all recoverable file states",
     "no test injects a failure",
     ["src/safew.c"],
     [("errors told from absence and mismatch", "src/safew.c futils_safew_file_check")],
     ["directory content after a failed check, result of the next check"],
     "fault enumeration: nth system call of the check failed through a ptrace monitor for every recoverable state",
     "fault_enumeration", "One fault per check, several errno values per call.")

# ---------------------------------------------------------------- strings, files
prop("C32", "UTF-8 sanitising replaces forbidden characters and cuts between characters",
     "Sanitising a valid UTF-8 string gives the longest prefix of whole characters that fits the output, with every "
     "forbidden character and no other replaced, NUL terminated within the given size, and returns its length in bytes; "
     "the result is itself valid UTF-8. "
     "Malformed UTF-8 and missing or too small buffers are refused with a negative errno, and nothing is ever written "
     "beyond the given size.",
     ["inputs"],
     "all strings, output sizes, forbidden sets and replacement characters",
     "the tests use a dozen strings",
     ["src/string.c", "include/futils/string.h"],
     [("conversion to wide characters and back", "src/string.c")],
     ["output buffer, return value"],
     "runtime monitoring: independent UTF-8 codec as oracle over generated, mutated and random strings, exact-size buffers "
     "under ASan/UBSan", "exploration",
     "Returned length excludes the NUL, as the existing tests require (the header says otherwise).")

prop("C33", "UTF-8 validation accepts exactly the sane strings",
     "Checking a string succeeds exactly when it is well formed UTF-8, fits the byte limit (terminator included) and the "
     "character limit (terminator excluded) when these are given, and contains no forbidden character; otherwise it "
     "returns -E2BIG for a limit, -EPROTO for a forbidden character or another negative errno for malformed text. "
     "A limit of 0 is not checked.",
     ["inputs"],
     "all strings, limits and forbidden sets",
     "the tests use a dozen strings",
     ["src/string.c"],
     [("length checks, conversion, forbidden scan", "src/string.c futils_string_check_utf8")],
     ["return value"],
     "runtime monitoring: independent UTF-8 validator as oracle over generated, mutated and random strings with limits "
     "around the exact sizes, under ASan/UBSan", "exploration", "As C32.")

prop("C34", "C++ string and path helpers match their definitions",
     "For all strings (including empty and embedded NUL or high bytes), startsWith and endsWith tell whether the text "
     "begins or ends with the given one, and convertToLowerCase maps exactly the ASCII capitals in the C locale and keeps "
     "the length. "
     "dirname and basename follow the POSIX definitions for every path, do not modify their argument and leak nothing.",
     ["inputs"],
     "all strings and paths",
     "the tests use three paths and a few prefixes",
     ["src/string.cpp", "src/fs.cpp"],
     [("std::string::compare", "src/string.cpp"), ("libgen on a copy", "src/fs.cpp")],
     ["returned values, allocator balance"],
     "runtime monitoring: reference implementations over exhaustive short and random strings/paths under ASan/UBSan, "
     "allocator balance", "exploration", "All paths over {a,b,/,.} up to length 7 in quick mode.")

prop("C35", "Directory size is the sum of the regular files it contains",
     "The size of a directory is the sum of the sizes of its regular files, hidden ones included, plus, when recursive, "
     "those of all its sub-directories at any depth; symbolic links, fifos and directories themselves count for nothing and "
     "links are never followed. "
     "A directory that cannot be read at any level gives a negative errno, and no descriptor or memory is leaked in any "
     "case.",
     ["inputs", "fault_sequences"],
     "all directory trees; failures of the directory operations",
     "there is no test of the directory size",
     ["src/fs.c", "include/futils/fs.h"],
     [("readdir and lstat walk", "src/fs.c futils_fs_dir_size")],
     ["returned size, open descriptors, allocator balance"],
     "runtime monitoring: generated directory trees (links, fifos, sparse and large files, unreadable folders as an "
     "unprivileged user) against the size known by construction, leak monitors, under ASan/UBSan", "exploration",
     "Trees live in a scratch directory.")

prop("C36", "Sync helpers report success only if everything was synchronised",
     "Synchronising a file, a folder, or a file and its folder returns 0 only if the named file and/or folder were opened "
     "and successfully synchronised to storage by this call; any failure of any of these steps is returned as a negative "
     "errno. Conversely, if no step can fail the call succeeds: permission to read is enough. "
     "A folder request on something else fails, missing arguments are refused, and no descriptor or memory is leaked.",
     ["fault_sequences", "inputs"],
     "all failures of the system calls, all paths",
     "there is no test of these helpers",
     ["src/synctools.c", "include/futils/synctools.h"],
     [("open, fsync, close", "src/synctools.c synctool/sync_file_and_folder")],
     ["system call trace and return codes"],
     "fault enumeration: system call trace by a ptrace monitor (which inodes were really fsynced) with the nth call failed",
     "fault_enumeration", "close() failures are not required to be reported.")

prop("C37", "Inotify processing reports every event once, in order and complete",
     "Processing an inotify descriptor calls the callback exactly once for every event queued at that time, in order, with "
     "the watch, mask, cookie and name the kernel reported, whatever their number and name lengths; with nothing queued "
     "it returns at once without calling it; a read which fails leaves the events to the next call and leaks nothing. "
     "Creation gives a close-on-exec descriptor watching the path, or -1 without leaking a descriptor.",
     ["histories", "inputs"],
     "all event histories, burst sizes and name lengths",
     "there is no test of inotify",
     ["src/inotify.c", "include/futils/inotify.h"],
     [("FIONREAD sized read, heap buffer for large bursts", "src/inotify.c inotify_process_fd")],
     ["callback log compared with a raw inotify descriptor watching the same folder"],
     "runtime monitoring: differential event log against a second raw inotify descriptor over random bursts of file "
     "operations, under ASan/UBSan", "exploration",
     "Both descriptors see the same kernel events; bursts from 1 to several thousand events, names from 1 to 255 bytes.")

prop("C38", "Descriptors are close-on-exec, keep their flags and are never leaked",
     "Adding flags to a descriptor keeps the flags it had; setting close-on-exec is visible to the query and closes the descriptor across "
     "exec; errors are reported as negative errno (0 for the query). "
     "All descriptors created by mailboxes and inotify helpers are close-on-exec and, for mailboxes, non-blocking; creating "
     "and destroying them in any order, including failed creations when descriptors run out, leaves no descriptor or "
     "memory behind.",
     ["histories", "fault_sequences"],
     "all creation/destruction histories, descriptor exhaustion at any point",
     "the tests do not look at the descriptor table",
     ["src/fdutils.c", "src/mbox.c", "src/dynmbox.c", "src/inotify.c"],
     [("fcntl flag updates", "src/fdutils.c"), ("error paths of constructors", "src/mbox.c, src/dynmbox.c, src/inotify.c")],
     ["the process's descriptor table, children after exec"],
     "runtime monitoring: descriptor-table monitor (/proc/self/fd, fcntl) around random lifecycles, RLIMIT_NOFILE "
     "exhaustion and exec, under ASan/UBSan", "exploration",
     "Descriptors opened only for the duration of a call (random device) are out of scope for close-on-exec.")

prop("C39", "Allocation failures are reported and corrupt nothing",
     "If any memory allocation fails inside a library call, the call fails with its documented error (a negative errno, "
     "-1 or NULL, std::bad_alloc in C++), or manages without and gives the right result; it never crashes, leaks memory or "
     "descriptors, or changes the objects it was applied to when it failed, and the same call succeeds once memory is "
     "available. "
     "This holds for mailboxes, hash tables, safe writes, string sanitising, shuffling, directory sizes, sync helpers, "
     "inotify and the C++ path helpers.",
     ["fault_sequences"],
     "failure of each allocation of each call",
     "no test makes an allocation fail",
     ["src/hash.c", "src/mbox.c", "src/dynmbox.c", "src/safew.c", "src/string.c", "src/random.c", "src/fs.c",
      "src/synctools.c", "src/inotify.c", "src/fs.cpp"],
     [("checks of malloc/calloc/strdup results", "all of these files")],
     ["return codes, allocator balance, state of the object"],
     "fault enumeration: nth allocation of each operation failed through link-time interposition, allocator and descriptor "
     "balance, object state compared, under ASan/UBSan", "fault_enumeration",
     "Allocations made by the library and by the C library on its behalf (stdio, opendir, iconv) are all failed; the ASan "
     "variant fails only the library's own.")

prop("C40", "Min, max and bound macros are exact and evaluate arguments once",
     "For all integer and floating values of the same type, the minimum, maximum and bound helpers give the mathematical "
     "result (the bound helper gives the nearest limit outside the range) and evaluate each argument exactly once, nested "
     "uses included; the array size helper gives the number of elements.",
     ["inputs"],
     "all argument values and types",
     "the test checks a few constant bounds",
     ["include/futils/futils.h"],
     [("statement expressions with typed temporaries", "include/futils/futils.h")],
     ["values and side effects"],
     "runtime monitoring: reference comparison over boundary and random values of several types with side-effect counters "
     "under UBSan", "exploration", "NaN and mixed-sign comparisons are out of scope.")


prop("C41", "Functions on distinct objects can be used by several threads at once",
     "Calls of the time, date, varint, string, path, directory size, synchronisation, safe write, hash, list, mailbox and "
     "inotify functions made by different threads on different objects do not disturb each other: each gives exactly what "
     "it gives when called alone, and no hidden state is shared without synchronisation. "
     "Lookups and walks that do not modify a hash table or a list may run concurrently on the same one.",
     ["schedules", "inputs"],
     "all combinations of functions, arguments and thread schedules, objects and file paths being distinct",
     "every existing test is single-threaded apart from the mailboxes, and the failures need two threads in the same call",
     ["src/systimetools.c", "src/timetools.c", "src/varint.c", "src/string.c", "src/string.cpp", "src/fs.c", "src/fs.cpp",
      "src/safew.c", "src/hash.c", "src/synctools.c", "src/inotify.c", "include/futils/list.h"],
     [("no static state: reentrant libc calls (gmtime_r, localtime_r), per-call iconv descriptors and buffers",
       "src/systimetools.c, src/string.c, src/fs.c"),
      ("lookups do not modify the table", "src/hash.c futils_hash_lookup")],
     ["results and outputs of every call, compared with the same calls made alone"],
     "runtime monitoring: ThreadSanitizer over concurrent works, and comparison of every result with a sequential run of "
     "the same work", "exploration",
     "Races are reported on the executions run. Setting the system clock and changes of the environment (TZ) are out of "
     "scope, and so is sharing an object between a writer and other threads (mailboxes excepted, see C07).")
prop("C43", "Results never depend on uninitialised memory",
     "Whatever a successful call gives back (values, buffers up to the reported length, messages, contexts, files, events) is "
     "made of data it was given or produced, never of uninitialised or stale memory, and no decision of the library "
     "(result code, length, branch) depends on such memory, also when an input is refused, a read comes back short or a "
     "file is empty. Bytes behind the end of the input which the caller never set have no influence.",
     ["inputs", "histories"],
     "all calls and inputs, whatever memory, stack and caller's buffers hold before",
     "uninitialised memory usually happens to be zero in a test, so that results look right",
     ["src/hash.c", "src/varint.c", "src/systimetools.c", "src/timetools.c", "src/random.c", "src/string.c", "src/safew.c",
      "src/mbox.c", "src/dynmbox.c", "src/inotify.c", "src/fs.c", "src/fdutils.c", "src/string.cpp", "src/fs.cpp",
      "include/futils/list.h"],
     [("results written on success only", "src/varint.c, src/systimetools.c, src/timetools.c"),
      ("entries fully set on insertion", "src/hash.c hash_entry"),
      ("crc read completely or refused", "src/safew.c read_crc"),
      ("message assembled before it is given", "src/mbox.c mbox_peek, src/dynmbox.c dynmbox_peek")],
     ["definedness of every output byte, of every branch condition and of every byte given to a system call"],
     "runtime monitoring: MemorySanitizer (clang) over all C sources, outputs and the surroundings of inputs marked "
     "uninitialised before each call, definedness of what comes back checked after it; every report must be confirmed by "
     "valgrind (memcheck) running the same driver, since the sanitizer does not know all functions and system calls which "
     "write memory; the C++ functions under valgrind", "exploration",
     "What a failing call leaves in its outputs is not specified.")
prop("C44", "Calls leave the state of the process as they found it",
     "No call, successful, refused or failing, changes what belongs to the process and not to the library: current directory, "
     "file creation mask, signal mask, handlers and pending signals, environment, locale, rounding mode, timers, resource limits, "
     "priority, cancellation, open descriptors with their flags and positions (except those the call is documented to create "
     "or change), the sequences of rand(), random() and lrand48(), the buffers of gmtime() and asctime(), and the positions of "
     "strtok() and getopt(). Process-wide ones are not changed for the duration of the call either, since other threads would "
     "see it.",
     ["inputs", "histories"],
     "all calls with all outcomes, in all states of the process",
     "no test looks at the process around the call",
     ["src/fs.c", "src/fs.cpp", "src/safew.c", "src/string.c", "src/string.cpp", "src/systimetools.c", "src/timetools.c",
      "src/random.c", "src/mbox.c", "src/dynmbox.c", "src/synctools.c", "src/inotify.c", "src/fdutils.c"],
     [("re-entrant libc calls only", "src/systimetools.c gmtime_r/localtime_r"),
      ("own generator state", "src/random.c pool"), ("paths used as given", "src/fs.c, src/synctools.c"),
      ("no signal is touched", "src/mbox.c, src/dynmbox.c")],
     ["state of the process before and after each call, calls of the C library which change it"],
     "runtime monitoring: comparison of the whole process state around each call in varied settings, interposed C library "
     "entry points for changes made and undone inside a call", "exploration",
     "The calls which set the system time are stand-ins here; setting the time is C26 and C42. Memory leaks belong to the properties of each part.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(o) + "\n")
    ready = set(open(os.path.join(ROOT, "tools", "ready.txt")).read().split())
    checks, na = [], []
    for p in P:
        if p["id"] in ready:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all monitors work from outside through the public API, link-time interposition, "
                  "compiler sanitizers and ptrace of the harness's own children."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    from jobs import CHECKS, JOBS
    rd = lambda n: open(os.path.join(ROOT, "tools", n)).read()
    o = [rd("design_head.md"), "\n## Per property\n\n"]
    for p in P:
        c = CHECKS[p["id"]]
        js = []
        for n in c["jobs"]:
            j = JOBS[n]
            js.append("`%s` (%s %s, %s, %d run%s)" % (n, j.src, j.mode, j.flavour, j.inst, "s" if j.inst > 1 else ""))
        o.append("### %s — %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
        o.append("* Decided by: %s.\n" % p["technique"])
        o.append("* Over: %s.\n" % p["qtext"])
        o.append("* Runs: %s.\n" % ", ".join(js))
        o.append("* Counting: %s.\n" % c["rule"].strip())
        o.append("* Observed at: %s. Must have been seen for an answer: %s.\n" % ("; ".join(p["observe"]), ", ".join(c["need"]) or "-"))
        o.append("* Why tests cannot: %s.\n" % p["why"])
        o.append("* Limits: %s\n" % p["note"])
        for a in c["assumptions"]:
            o.append("* Assumption: %s.\n" % a)
        o.append("\n")
    o.append(rd("design_tail.md"))
    o.append("\n## Repaired defects\n\n| property | commit | what failed |\n|---|---|---|\n")
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith("fixed: "):
            a, b, c = l[7:].split(" ", 2)
            o.append("| %s | %s | %s |\n" % (a.split("=")[1], b, c.strip()))
    o.append("\n## Seeded bugs and the checks that catch them\n\n"
             "Each was run against the checks named (exit 1 and a VIOLATION line of that property).\n\n"
             "| seeded bug | caught by | needs |\n|---|---|---|\n")
    sd = os.path.join(ROOT, "tools", "seeded.txt")
    for l in open(sd) if os.path.exists(sd) else []:
        o.append("| %s | %s | %s |\n" % tuple(x.strip() for x in l.split("\t")))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("".join(o))


if __name__ == "__main__":
    main()
    design()
