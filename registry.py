"""Which drivers decide which property, and how the code is built for them."""

_D = ["-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D_GNU_SOURCE"]
_SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,null,return,unreachable,vla-bound",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]

MODES = {
    # Sequential drivers: sanitizers, tracked allocator.
    "asan": {
        "base": ["-g", "-O1", "-fno-common", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern"] + _D,
        "lib": ["-std=gnu99", "-w"] + _SAN,
        "harness": ["-std=gnu11", "-Wall", "-Wno-unused-function"] + _SAN,
        "rt": ["-std=gnu11", "-Wall"],
        "runtime": ["mc/mc.c"],
        "link": ["-fsanitize=address,bounds"],
        "libs": ["-lssl", "-lcrypto", "-lpthread", "-lm", "-lrt", "-lcrypt"],
    },
    # Drivers with threads: instrumented for, and run under, the controlled scheduler.
    "sched": {
        "base": ["-g", "-O1", "-fno-common", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern", "-fno-pie", "-fno-omit-frame-pointer"] + _D,
        "lib": ["-std=gnu99", "-w", "-fsanitize=thread", "-include", "libsect.h"],
        "harness": ["-std=gnu11", "-Wall", "-Wno-unused-function", "-fsanitize=thread"],
        "rt": ["-std=gnu11", "-Wall", "-DMC_NO_ALLOC"],
        "runtime": ["mc/mc.c", "mc/sched.c"],
        "link": ["-no-pie"],
        "libs": ["-lssl", "-lcrypto", "-lpthread", "-lm", "-lrt", "-lcrypt"],
        "wraps": ["pthread_" + f for f in ("mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init cond_destroy cond_wait "
                  "cond_timedwait cond_signal cond_broadcast create join detach self setname_np").split()] +
                 "usleep sleep nanosleep sched_yield clock_gettime gettimeofday".split(),
    },
}
# The same with the entropy source substituted.
MODES["schedrand"] = dict(MODES["sched"], wraps=MODES["sched"]["wraps"] + "RAND_bytes RAND_priv_bytes RAND_seed open open64 read close getrandom".split())
MODES["asanclock"] = dict(MODES["asan"], wraps="clock_gettime gettimeofday time".split())
MODES["asanpause"] = dict(MODES["asan"], wraps="usleep sleep nanosleep clock_nanosleep select poll".split())
MODES["asanpw"] = dict(MODES["asan"], wraps="tcgetattr tcsetattr".split())

CHECKS = {}
NOT_APPLICABLE = {}

SEQ = "bounded-exhaustive exploration of operation sequences on the real code against a reference model"
INP = "bounded-exhaustive enumeration of inputs on the real code against a reference"
THR = "systematic exploration of thread interleavings on the real code under a controlled scheduler"
FLT = "exhaustive enumeration of fault positions on the real code"


def check(pid, runs, technique, note, **kw):
    CHECKS[pid] = dict(runs=[dict(harness=h, mode=m, **(x[0] if x else {})) for h, m, *x in runs],
                       technique=technique, note=note, **kw)


check("C01", [("arraylist", "asan"), ("big", "asan", {"scenarios": ["list"]})], SEQ,
      "Every operation sequence within the depth bound is executed on the library built with sanitizers and compared step by step with a "
      "plain sequence; nothing is sampled. Beyond the bound only fixed long histories are run.")
check("C02", [("orderedmap", "asan"), ("big", "asan", {"scenarios": ["map"]})], SEQ,
      "Every operation sequence within the bounds is executed on the real map, including maps around the sizes where out-of-order inserts "
      "are buffered; compared step by step with a sorted dictionary. Larger maps only by fixed long histories.")
check("C03", [("ownership", "asan")], SEQ,
      "Ghost owner counts are kept for every object; after every operation each object's block is compared with the ghost (alive and readable "
      "while owned, returned to the allocator the moment nobody owns it). All sequences within the bound are run.")
check("C05", [("roundtrip", "asan")], INP,
      "Every value in the stated spaces is serialized, compared byte for byte with an independent shortest encoder, packed again through output "
      "buffers of twelve sizes, read back and compared with the original structure.")
check("C06", [("packsize", "asan")], INP,
      "Every item kind is packed into heap buffers of every capacity (overruns trap in the sanitizer); predicted sizes are compared with an "
      "independent encoder over the same value spaces as C05.")
check("C07", [("decode", "asan")], INP,
      "Every byte string in the stated spaces goes through every decoding entry point with the bytes placed so that any access outside them "
      "traps; acceptance is compared with an independent reader of the format.")
check("C08", [("order", "asan")], INP,
      "All pairs of value trees within the bounds are compared as values and as bytes, in both directions, against an independent total order; "
      "cursor positions are checked with other data before and after the items.")
check("C09", [("readers", "asan")], INP,
      "All 256 tags with boundary payloads, every header width and every non-minimal re-encoding of small trees are read by every reader and "
      "compared with an independent reader of the format.")
check("C10", [("queue", "asan"), ("big", "asan", {"scenarios": ["asqueue", "cfqueue", "items"]})], SEQ,
      "Every operation sequence within the bounds from every rotation and fill of small rings, and from positions moved next to the counter limits, "
      "is executed on both queues and compared step by step with a plain sequence.")
check("C14", [("llist", "asan"), ("big", "asan", {"scenarios": ["llist"]}), ("llist_mt", "sched")], SEQ,
      "Every operation sequence within the bounds is executed and the list is read forwards, backwards, by index, by iterator, by search and by reduce "
      "after each step and compared with a plain sequence. Two and three threads on a locked list are run under every interleaving and their results must "
      "have a sequential explanation.")
check("C15", [("vector", "asan"), ("big", "asan", {"scenarios": ["vector", "wide"]})], SEQ,
      "Every operation sequence within the bounds for every storage kind, item size and capacity is executed and compared with a plain sequence.")
check("C16", [("strings", "asan"), ("big", "asan", {"scenarios": ["builder", "copy"]})], SEQ,
      "Every append sequence within the bounds for every builder kind and capacity, every (length, buffer size) pair of the bounded copy and every short "
      "path are executed on the real code and compared with plain concatenation and the POSIX rule.")
check("C17", [("bytes", "asan"), ("big", "asan", {"scenarios": ["bytes"]})], SEQ,
      "Every operation sequence within the bounds with positions and lengths around zero, the size, the capacity and the integer limits is executed on all "
      "storage kinds and compared with a plain byte array.")
check("C18", [("codec", "asan"), ("big", "asan", {"scenarios": ["codec"]})], INP,
      "All byte strings and texts within the bounds go through every codec entry point with exactly sized buffers and are compared with an independent "
      "codec. Non-zero discarded bits before padding are accepted as well-formed.")
check("C19", [("digest", "asan", {"hang": 300})], INP,
      "Every message length over several blocks, every split into four updates and every alignment is digested and compared with an independent "
      "implementation; message contents are fixed patterns and single bits, which is not exhaustive in the contents.")
check("C11", [("mtqueue", "sched")], THR,
      "Every short program of two to four threads within the bounds is run under every interleaving (where stated, up to a preemption bound) of its "
      "locks, waits, signals, time-outs and spurious wake-ups; results must have a sequential explanation. Sequentially consistent memory; unsynchronised "
      "accesses are found by a happens-before check.")
check("C04", [("refcount", "sched")], THR,
      "Every short program of two or three owners of one object is run under every interleaving of its atomic operations (three owners: up to the "
      "preemption bound); freed memory is never reused within a run and every access is checked. Sequentially consistent memory plus a "
      "happens-before check that uses the memory orders in the code.")
check("C26", [("monitor", "sched")], THR,
      "Every interleaving of a waiter and up to two notifiers over several rounds is run, with spurious wake-ups as choices; a lost notification shows as a deadlock.")
check("C12", [("tpool", "sched")], THR,
      "Every interleaving up to the preemption bound of workers, offering threads and shutdown is run, with every subset of worker creations failing; "
      "a missing worker, task or finalization is counted, a stuck shutdown is a deadlock.")
check("C13", [("bufpool", "asan"), ("bufpool_mt", "sched")], SEQ,
      "Every operation sequence within the bounds, with sizes around the pool's size and the integer limit, is compared with a plain set of buffers; two and "
      "three threads are run under every interleaving up to the preemption bound, holders write their buffers and the results must have a sequential explanation.")
check("C21", [("random", "schedrand")], THR,
      "The entropy source is substituted by a known stream: every byte handed out is located in it and may be handed out once. Every length, every short request "
      "sequence around the refill, every failure of the source and every interleaving of two (three: bounded) threads within the bounds is run.")
check("C20", [("tls", "asan")], INP,
      "Certificates with every short name over a small alphabet, in every position the code reads, are asked for every short host name and compared with the rule "
      "written down independently; several names, many names, long names and addresses are enumerated separately.")
check("C23", [("clock", "asanclock")], INP,
      "The clock is substituted: every reading, deadline and conversion is computed at every stated time and wait and compared with arithmetic in a wider type.")
check("C24", [("password", "asanpw")], INP,
      "Hashes are compared with the system's bcrypt for every password and setting within the bounds, each in exactly sized buffers. Costs above 7 are only run "
      "for the fixed salt (10); the reference shares its origin with the code under test, so a defect in both would not show.")
check("C25", [("render", "asan")], INP,
      "All value trees up to the node bound, all text lengths in windows around every growth step of the rendering, all pairs of elements and every typed "
      "getter on every kind; compared with an independent renderer under sanitizers. Exhaustive within the stated bounds.")
check("C22", [("oom", "asan")], FLT,
      "Every allocation attempt of every operation sequence within the bounds is a choice point: it succeeds, fails alone, fails with the rest of the call or "
      "fails for good. After each call the object is compared with its state before or after, then used again with memory back; blocks are accounted for.")
check("C27", [("dispatch", "asan")], INP,
      "Every operation of every interface is called in every provider configuration, with several results and argument sets; the provider records what reaches "
      "it. The space is finite and run completely.")
check("C28", [("atomics", "sched")], THR,
      "Every operation of every width is run on boundary values, and every small combination of them by several threads, under every interleaving; "
      "the locks under all interleavings within the preemption bound, with happens-before race detection on the data they protect. Memory is "
      "sequentially consistent during exploration; missing ordering shows as a race, not as a reordered read.")
check("C29", [("logging", "asan")], SEQ,
      "Every history of configuring and logging within the bound, and every combination of threshold, callback, level and message, is run and "
      "compared with what must be delivered.")
check("C30", [("byteorder", "asan")], INP,
      "All 16-bit numbers (all 32-bit ones in the thorough tier), every byte value in every position over several backgrounds, and every "
      "combination of boundary bytes are converted and compared with the bytes written out by hand; other 64-bit numbers are not.")
check("C31", [("dir", "asan")], SEQ,
      "Every subset of nine unusual names, directories of up to 1999 files, every interleaved history of two listings within the bound and every shortage of "
      "descriptors is run in a real scratch directory of the run; descriptors are accounted for.")
check("C32", [("pause", "asanpause")], INP,
      "Pausing is substituted by adding up the time asked for: every pause up to 65 seconds, around every power of two and around every overflow of the "
      "microseconds. Names of every length and nine indices are given to real threads and read back.")
check("C33", [("alloc", "asan")], SEQ,
      "Every history within the bounds of requests, resizings, counts and releases on three blocks, with refusals by the system at every attempt, every size up "
      "to the bound by every way to ask, and requests whose size does not fit are run and compared with plain arrays.")
