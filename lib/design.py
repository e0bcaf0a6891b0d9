"""The text of DESIGN.md; gen.py adds the tables that follow from properties, checks, findings and seeds."""
HEAD = r"""# Runtime monitoring of neolib

neolib is a C++ foundation library: containers and strings of its own (with abstract, plugin-safe
variants), text codecs and parsers, reference counting, tasks/threads/events/timers, numerics, files
and archives. Its users rely on broad guarantees ("this container is a sequence whatever I do to
it", "every subscribed slot sees each event once", "no document crashes the reader") that its five
tests sample at a few points. Every property here is decided by **runtime monitoring and
sanitizers**: the real code, compiled from /repo's working tree, is run under seeded random,
hostile and stress workloads while an independent oracle judges every observed state.

## How a check runs

`./check ID [thorough]` -> `lib/runner.py`:

1. compiles the property's harness (`harness/*.cpp`) and the library sources it needs from
   /repo's current tree into `build/` (git-ignored, keyed by content so that an edit of any header
   is noticed; headers are never copied, except two which g++ rejects and which are re-generated
   from the current tree with only the rejected syntax adjusted, see `make_overlay`).
   Variants: `asan` = ASan+UBSan with `-fno-sanitize-recover=all` and libstdc++ assertions; `tsan`;
   `plain` = optimised with libstdc++ assertions.
2. runs it in shards on all cores. Case *n* of a run is a pure function of (seed, n); the seed is
   `VERIF_SEED`. Runs are bounded by case count, never by a clock; a case has a generous watchdog
   whose firing is rerun alone with four times the budget before it is called a hang, so a loaded
   machine is inconclusive, not a violation.
3. collects failures from three sources: the harness's oracle (`vf::fail(key, detail)`), the sanitizers'
   reports (classified by kind and innermost repo function) and abnormal ends. Each is matched against
   `known_findings.json`; anything unlisted gives `VIOLATION property=ID replay=PATH`, where the replay
   holds the command that re-runs that one case, and exit 1.
4. writes `evidence/ID.json`: what was executed (cases, distinct cases by hash, operation counters, interleavings,
   maxima, samples of actual histories), including what was *not* conclusive. A run that observed too little
   (a counter the harness declares necessary stays at zero) is an error, exit 2, not a pass.

Harness rules: only public interfaces are used, so refactorings stay quiet; oracles are written from documentation,
standards and mathematics, or use an independent implementation (std containers, zlib, boost, `unsigned __int128`,
long double), never the code's own helpers; `vf::tracked` elements carry a registry of live objects which
reports construction over live objects, use outside lifetime, double destruction and leaks (which is why LeakSanitizer
is off: leaks are judged by ownership, not by reachability at exit). Where the statement of a property does not
fix a behaviour (iterators after self-assignment, moved-from contents, ...), the oracle does not judge it.

Why this reaches what the tests cannot: the tests contain tens of inputs; a quick check contains 10^4 to 10^6
distinct histories, chosen to fall on the places where such code goes wrong (sizes around a segment, gap
or register boundary, self-aliasing arguments, empty ranges, damaged input, callbacks which
re-enter or destroy the thing calling them, threads lined up on the same step).

Limits: exploration, not proof. ASan does not see reads of uninitialised memory (MSan would need an
instrumented libstdc++, which is not installed; the value oracles stand in). TSan sees only synchronisation it intercepts. The library
is compiled with g++ 13 with neolib's hosted defines on x86-64 Linux; other platforms' code is not run.
No hooks were needed in /repo.

"""
#  id: (what is specified and against what oracle, workload and bounds, why beyond tests)
D = {
"C01": ("std::vector is the reference; after every operation size, every element by every access path, returned iterators and live-object count are compared", "segment sizes 2, 3, 4, 5, 16, 64; int, tracked and string elements; histories of up to a few hundred edits biased to segment borders, self-aliasing values, single-pass and empty ranges, copies/moves/swaps"),
"C02": ("as C01 (shared model `seqmodel.hpp`)", "gap sizes 4, 8, 16, 256; edits clustered around and away from the gap, so that it opens, moves, grows and closes"),
"C03": ("a table-driven decoder/encoder written from the Unicode standard (Table 3-7)", "well-formed texts over boundary code points, the same damaged (truncated, overlong, surrogates, stray continuation), raw bytes, all strings of up to 3 bytes from an alphabet of boundary bytes (exhaustive), UTF-16 with lone surrogates; buffers are exact-size heap copies so over-reads trap"),
"C04": ("straightforward definitions re-implemented over std::string", "random and adversarial strings over tiny alphabets (many adjacent and overlapping delimiters), empty operands, every option combination, bytes over 127"),
"C05": ("dynamic-programming matcher; naive all-positions search", "texts and patterns over 2-3 letters so that overlaps and shared prefixes are the rule"),
"C06": ("decimal/hex/octal by std::to_chars and strtod; LEB128 by definition over __int128; table-free CRC-32; UUID by text; Bresenham by exact rationals", "extreme and boundary values of every width, malformed text, every base"),
"C07": ("an independent strict RFC 8259 recursive-descent reader with the documented bare-word extension (`jsonref.hpp`)", "generated documents, documents damaged by one to a few edits, token soup, raw bytes, stream block boundaries through seekable and unseekable streams, re-reading with the same object, 64 kB documents"),
"C08": ("a plain tree model edited in step with the document; the reference reader reads what was written", "edit histories over objects/arrays through views and iterators, RJSON relaxations inserted into valid documents one kind at a time, hostile RJSON, real files in scratch directories"),
"C09": ("a plain tree model and an independent serialiser/reader for the supported subset of XML", "generated documents with entities, CDATA, comments, PIs and character references, edits through the API, truncation at every place, mismatched tags, hostile bytes; pooled and heap nodes"),
"C11": ("zlib (compress, crc32, inflate) and a zip writer written from APPNOTE; the expected content is what was stored", "generated archives (stored/deflated, data descriptors, extra fields, comments, directories, empty files); every kind of damage: truncation, bit flips, lying sizes, offsets and checksums; extraction into scratch directories only, names with `..` and absolute paths must be refused. Copies of a zip object and the archive comment are not claimed"),
"C14": ("RFC 3986 split (regular expression of its appendix B) and percent coding", "URIs built from parts with any bytes, arbitrary texts, ports around 65535, setters followed by to_string and re-parse, escapes of every byte"),
"C15": ("a model of owners per object; destruction is observed by the objects themselves; weak references must read empty exactly after it", "histories over ref_ptr/weak_ref_ptr copies, moves, swaps, casts, self-assignment; threads copying and dropping references to the same objects under TSan"),
"C16": ("std::vector/list/deque/set/multiset/map/... in step, through both the concrete type and its abstract interface", "15 instantiations; iterators obtained through the interface, arguments which are elements of the container"),
"C17": ("std::optional/variant/any/pair in step, through concrete and abstract interfaces", "self-assignment, assignment between alternatives, exceptions thrown by constructors, streams"),
"C18": ("std::string / std::string_view in step", "owning and viewing quick strings, searches with every position incl. npos and beyond the end, comparisons of bytes over 127, hashing"),
"C19": ("map from cookie to item; a cookie in use is never issued again; threads: conservation of items", "insert/emplace/erase/copy/assign/swap/clear histories over 8- to 64-bit cookies (exhaustion included), reference-counted cookies, a jar shared by threads under TSan"),
"C20": ("a list of (element, width) or (element, tag)", "splices, range inserts/erases, copies, self-assignment; positions sought for every offset"),
"C21": ("a plain recursive tree with skip flags", "insertion, erasure, skipping and unskipping of nodes at any depth, copies and swaps, segment sizes 3, 4, 64, iterators in every documented order"),
"C22": ("long double / __int128 re-computation per component with a rounding bound, exact where the operation is exact", "vectors and matrices of every dimension and element type with swizzles and initialisers; all SIMD dispatch variants (static AVX, dynamic)"),
"C23": ("exactly-once ledger per task, order of priorities observed on a blocked pool, quiescence after wait(), thread life cycle", "pools of 1-8 threads, tasks that queue, throw, cancel and wait, stop with work left; TSan and ASan"),
"C24": ("ledger per (event trigger, slot) giving who must, may and must not be called, with order and thread", "single-threaded histories with slots that subscribe, unsubscribe, destroy and throw while being called; threads with fan-out, churn and shutdown under TSan and ASan"),
"C25": ("model of wanted timers and their due times under the library's own clock; each callback is judged as it happens", "reset/cancel/waiting/again/copy/move/destroy inside and outside callbacks, subscribers, contexts; threaded tasks"),
"C26": ("a non-atomic counter guarded by the mutex (TSan) with owner checks; signals accounted exactly; sleepers are observed through /proc/self/task so that 'would have missed it' is not a matter of time", "all mutex kinds, profiling on and off, events with timeouts, lists of events"),
"C27": ("rotation matrices re-computed in long double; quaternion and affine identities; boxes by corner enumeration", "angles around 0, pi and 2 pi, nearly parallel and opposite vectors, degenerate boxes"),
"C29": ("std::sort/multiset in step; red-black invariants checked structurally through the public accessors after every operation", "presorted, reversed, few-valued and killer sequences (introsort fallback), insert/erase/swap/clear histories"),
"C33": ("std iterators in step; a ledger of scope exits; exact rational steps", "copies, self-assignment, moved-from objects, iterators as large as the storage"),
"C36": ("std::vector in step with tracked elements; a map of live blocks (no overlap, alignment, content patterns)", "sizes around the inline capacity, allocator-aware copies/moves/swaps, element sizes which do not divide chunks"),
"C28": ("maps from entity to record per component, from handle to pointer, ledgers of announcements; who applied a system and when is recorded by the system itself", "histories over four component kinds (one holding handles), shared components, archetypes, owned entities, snapshots, asynchronous queues, all locking strategies; threads creating/destroying/iterating together, and systems with threads of their own paused, resumed, slept and destroyed, under TSan and ASan"),
"C31": ("a state per object which its flags must tell; a table of instances and starts per service; announcements in order", "histories of objects copied, assigned and destroyed while flags of them are copied, moved and kept; every services case runs in a forked process of its own (one provider per process) with providers replaced, migrated and set again; first use by 2-6 threads at once under TSan (its lock-order checker included)"),
"C30": ("a model of the directory tree, compared with what POSIX calls see after every step; the dump is read back", "trees in the scratch directory with names of any bytes, dates around second boundaries, sparse files to 1 TB, relative paths, users without a record (forked process), dumps of any width. What renaming does to directories is left to the system"),
"C12": ("splitting the whole text at once; independent copies of contents", "texts of delimiters, NULs and long runs cut at every kind of place (single bytes, between CR and LF), other delimiter sets and character types, histories of clone, copy_from, assignment and clear"),
"C13": ("a model of the connection's state which every event must fit; the other end is plain system calls (and OpenSSL), which compares the bytes it gets with those of the packets in the order they must leave; ASan for what is used after close or destruction", "text, binary and 7-byte-buffer streams and TLS ones over loopback; histories of open (also to a port nobody listens on), send (empty, tiny, 1.5 MB, high priority), close and destroy, a part of them from inside event handlers; the other end reads late, writes in pieces, leaves orderly, abruptly or with a reset"),
"C34": ("a model of filters, categories, formatters and copies which says what each stream holds after every commit; for threads, the texts are taken apart again into messages, each of which must be the next one its thread logged, none missing at the end, and what a thread logged before wait() returned is looked up in the stream; TSan and ASan watch", "three loggers copying into each other under random histories; 1-5 threads at a time, over several rounds so that threads end and begin, a slow stream, with and without logging threads. Not claimed: logging from the handler of a message (the logger holds its locks there) and copying in circles"),
"C37": ("a model of default, applied and pending value per setting; counts and order of the events of settings and manager after every step; the file is read by a second manager", "settings of twelve types with limits, tiny and huge numbers, markup and UTF-8 in strings, keys which begin other keys; histories of set, change, apply_value, clear, set_default_value, apply, discard, delete, save and read again; files cut, mutated, or of any bytes. Not claimed: settings in the file which nobody registered (saving drops them), infinities, enumerations and custom types"),
}
TAIL = r"""
## Corrections to the machinery (false alarms and what was too strong)

* C23 once reported a pool that woke its waiters late on a loaded machine; the verdict was changed from
  elapsed time to the observed state (tasks finished and waiter still asleep, seen through /proc, after the
  runner's re-run with four times the budget).
* C11 does not claim copies of a zip object (the implicit copy refers to the original's buffer; the class documents
  neither) nor the archive comment.
* C16 `variable_stack` was left out: what re-using a frame means is not documented.
* UBSan's `vptr`, `alignment` and `nonnull-attribute` groups are off: the library's intended CRTP bases and `memcpy(p, q, 0)` trip them
  without any effect.
* C13's first TLS peer took stale entries of OpenSSL's error queue for the end of the connection; it clears the queue before each call.
  The other end resets what it closes, so that many connections do not use up the local ports (a shortage was reported as a failed opening).
* C31 does not claim concurrent calls of set_service_provider; C30 leaves renaming of directories to the system.
* C27/C22 compare with rounding bounds derived from the operand magnitudes, not equality, wherever the operation is inexact.

## How planted bugs changed the checks

S05 (pool stopped while waited for), S06 (copied timer's context) and S14 (division by reciprocal) were missed at first: the workloads
got stopping pools with other waiters, contexts which die between copy and expiry, and exact quotients. S21 was missed until
jars were assigned and swapped with jars that had free cookies. S10 and S24 were replaced because their first versions did not
break the property; S07 and S20 were planted again on lines of the original repository.
"""
