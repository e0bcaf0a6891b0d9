PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, technique="model-based runtime monitor under ASan+UBSan", note=None, na="not yet claimed: the monitor for it has not been built"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
        technique=technique, na=na,
        note=note or "Exploration: an independent oracle judges every observed state of seeded random workloads; assurance extends to the executions observed (counts in the evidence file). Trusts the oracle, g++-13 and the sanitizers."))


I, H, S, PR, F, CF = "inputs", "histories", "schedules", "programs", "fault_sequences", "configurations"

P("C01", "segmented_array behaves as a sequence under every edit history",
  "After any sequence of insertions, erasures, resizes, copies, moves, swaps and writes, a segmented array holds exactly the elements an ordinary vector would, in the same order, whatever its segment size, through every access path (index, forward and reverse iteration, random-access iterator arithmetic, front/back/at). Every operation returns an iterator to the position it documents, and every element constructed is destroyed exactly once without ever being used outside its lifetime.",
  [H, I], "every finite history of the container's public operations, element type (trivial, heap-owning, lifetime-tracking) and segment size",
  "The only container tests are disabled in this build and exercise one fixed script each; splitting, merging and overflowing segments depends on where in which segment an edit falls.",
  ["include/neolib/core/segmented_array.hpp", "include/neolib/core/array_tree.hpp", "include/neolib/core/static_vector.hpp", "include/neolib/core/vecarray.hpp"],
  [("segment split/overflow on insert", "segmented_array::allocate_space"), ("order statistics over segments", "array_tree (find_node, insert/erase fixup)")],
  ["segmented_array public interface", "element constructors/destructors"])
P("C02", "gap_vector behaves as a vector under every edit history",
  "After any sequence of insertions, erasures, resizes, reserves, copies, moves, swaps and writes, a gap vector holds exactly the elements an ordinary vector would, in the same order, wherever its gap currently lies, through every access path. Every operation returns an iterator to the position it documents, and every element constructed is destroyed exactly once without ever being used outside its lifetime.",
  [H, I], "every finite history of the container's public operations over trivial, heap-owning and lifetime-tracking element types and both default and small gap sizes",
  "No enabled test covers it; correctness depends on the gap's position and size relative to each edit, i.e. on the history.",
  ["include/neolib/core/gap_vector.hpp"],
  [("opening, moving and closing the gap", "gap_vector::make_gap/unmake_gap/adjust"), ("iterators that step over the gap", "gap_vector::iterator")],
  ["gap_vector public interface", "element constructors/destructors"])
P("C03", "UTF conversions are exact inverses and total on arbitrary bytes",
  "Converting well-formed UTF-8, UTF-16 or UTF-32 text between the three encodings yields exactly the encoding of the same code points, so a round trip returns the original text; check_utf8 accepts exactly the well-formed strings and the reported source/target positions are those of each code point. Every byte string whatsoever is converted without undefined behaviour, with each byte that starts no well-formed sequence replaced by U+FFFD and the well-formed text around it preserved.",
  [I], "every byte / code unit string, well-formed or not, with and without a byte order mark",
  "No enabled test covers the converters; their state machines go wrong on particular truncations, overlong forms and boundary code points.",
  ["include/neolib/core/string_utf.hpp", "include/neolib/core/string_utils.hpp"],
  [("UTF-8 decoding state machine", "utf8_to_utf32 / utf8_to_utf16 / check_utf8"), ("UTF-8 encoding", "utf32_to_utf8 / utf16_to_utf8")],
  ["conversion functions of string_utf.hpp"])
P("C04", "String utilities compute what their documentation says on every input",
  "tokens splits a string at its delimiters (honouring skip-empty, delimiter-set and maximum options) so that tokens and delimiters partition the input; replace_string, remove_leading/trailing, reverse find, format (text and argument spans), ASCII case conversion and case-insensitive comparison, unescape, to_escaped_string and parse_url_escapes each equal their straightforward definition. No input, however empty or odd, makes any of them crash, loop or touch memory outside the string.",
  [I], "every input string, delimiter set, replacement and option",
  "The enabled tests sample a handful of strings; empty operands, adjacent delimiters, overlapping matches and bytes over 127 are not reached.",
  ["include/neolib/core/string_utils.hpp", "include/neolib/core/string_ci.hpp", "src/core/string_utils.cpp"],
  [("tokenising loop", "tokens / tokens_impl"), ("replacement loop", "replace_string")],
  ["functions of string_utils.hpp, string_ci.hpp"])
P("C05", "Wildcard matching and multi-pattern search find exactly the matches",
  "wildcard_match answers whether the whole text matches a pattern of literal characters, '?' (any one character) and '*' (any run), for every text and pattern. A string search automaton built from any set of patterns reports every occurrence of each wildcard-free pattern exactly once at its correct position, reports a pattern with '*' whenever it occurs at all, and never reports a span that does not match.",
  [I], "every text and every set of patterns",
  "Matching by backtracking and by automaton goes wrong on particular overlaps, shared prefixes and wildcard placements that no test holds.",
  ["include/neolib/core/string_utils.hpp", "src/core/string_utils.cpp"],
  [("wildcard matcher", "wildcard_match"), ("automaton construction and search", "string_search_fsa")],
  ["wildcard_match", "string_search_fsa"])
P("C06", "Numeric text, LEB128, CRC, UUID and enum codecs are exact",
  "Integers of every width convert to decimal, hexadecimal and octal text (with padding) and back exactly, and reals to within parsing precision; string_to_number picks the narrowest numeric type that holds the text's value. LEB128 encodings are the shortest that denote the value, CRC-32 is the IEEE checksum, UUIDs parse, print, order and hash consistently, enumerators convert to and from their names with unknown names and values reported, and the Bresenham counters step evenly between their exact end points.",
  [I], "every value of every supported type and every input text or byte string",
  "Tests cover none of the codecs beyond a few literals; sign extension, extreme values, base 2-36 and malformed encodings are where they go wrong.",
  ["include/neolib/core/string_numeric.hpp", "include/neolib/core/leb128.hpp", "include/neolib/core/crc.hpp", "src/core/crc.cpp", "include/neolib/core/uuid.hpp", "src/core/uuid.cpp", "include/neolib/core/i_enum.hpp", "include/neolib/core/enum.hpp", "include/neolib/core/bresenham_counter.hpp"],
  [("number formatting/parsing", "int32_to_string, uint64_to_string, string_to_*"), ("LEB128", "leb128 encode/decode"), ("UUID text form", "uuid parse / to_string")],
  ["functions of string_numeric.hpp, leb128.hpp, crc.hpp, uuid.hpp, i_enum.hpp"])
P("C07", "The JSON reader accepts exactly well-formed documents and yields their values",
  "Reading a document succeeds exactly when its text is well-formed JSON (RFC 8259, plus bare words as keyword values and field names), and otherwise reports an error text; the resulting tree has the document's values, field names and order, with escapes decoded, whole numbers in the narrowest type that holds them and parent, sibling and document-order iteration consistent. Object lookup and array indexing agree with the tree, UTF-8 validation rejects exactly ill-formed text when asked for, and reading again with the same object is independent of what it read before. No byte string makes the reader crash or touch memory it does not own.",
  [I], "every byte string offered as a document, through seekable and unseekable streams",
  "The tests parse a list of fixed documents; the state machine's behaviour on misplaced separators, escapes, brackets and stream block boundaries is unbounded.",
  ["include/neolib/file/json.hpp", "include/neolib/file/json.inl"],
  [("parser state machine", "basic_json::do_parse"), ("value construction", "basic_json::buy_value"), ("input", "basic_json::do_read")],
  ["basic_json::read, root, begin/end, json_object, json_array"])
P("C08", "JSON survives editing, writing and reading back, and RJSON extends it",
  "A document written from any tree, read or built by edits (field and element assignment, append, removal, renaming, clearing), is well-formed and means the same tree, reals included to the last bit in its text; lookups by key, index and dotted path always agree with the tree's current state. Relaxed JSON gives every standard document the same meaning and additionally accepts comments, optional commas and three kinds of quotes without changing any value.",
  [I], "every tree, every edit history, every placement of comments, separators and quotes",
  "Tests write no document back, make hardly any edit and contain no relaxed document; stale lookups and quoting errors depend on the history and on particular characters.",
  ["include/neolib/file/json.hpp", "include/neolib/file/json.inl"],
  [("writer", "basic_json::write"), ("lazy object and array views", "basic_json_object::cache, basic_json_array::cache"), ("relaxed state tables and comment skipping", "json_detail::next_state")],
  ["basic_json::write, at; json_value, json_object and json_array edits"])
P("C09", "The XML reader yields a document's tree, and editing and writing preserve it",
  "Reading a well-formed document (elements, attributes, text with predefined entities and character references, comments, CDATA sections, processing instructions, a document type) yields its tree: names, attributes, text as UTF-8, node kinds and order, with white space collapsed when asked for and filtered iteration and lookup by name agreeing with it. Trees built or edited by insert, append, erase, attribute and text changes equal what was asked for, and a written document reads back as the same tree. A document cut short inside its root element or with mismatched tags is reported as an error, and no byte string makes the reader crash or touch memory it does not own.",
  [I, H], "every document in the supported subset, every edit history and every hostile byte string",
  "No enabled test covers XML; scanning for tag ends, quotes and entity references goes wrong on particular characters in particular places.",
  ["include/neolib/file/xml.hpp", "include/neolib/file/xml.inl"],
  [("tag scanner", "basic_xml::next_tag / next_token"), ("tree construction", "basic_xml::parse"), ("writer", "basic_xml::write_node")],
  ["basic_xml read, write, insert, append, erase, find; xml_element edits"])
P("C15", "Counted references keep objects alive exactly as long as they are held",
  "An object managed by reference counting lives exactly as long as some counted pointer or pin holds it, whatever sequence of construction, copy, move, assignment, swap, cast, reset, release and detach got there, and is destroyed exactly once; use counts and uniqueness always equal the number of holders. A weak reference answers expired from the moment of destruction and never before, and throws rather than hands out a dead object. Strong references to one object may be copied and dropped by any number of threads at once without losing or repeating its destruction.",
  [H, S], "every history of pointer operations over any number of objects, holders and threads",
  "Leaks, early and double destruction depend on which operation meets which aliasing of holders, and on how threads interleave; no enabled test covers them.",
  ["include/neolib/core/reference_counted.hpp", "include/neolib/core/i_reference_counted.hpp", "src/core/reference_counted.cpp"],
  [("count and destruction", "reference_counted::add_ref/release"), ("transfer between holders", "ref_ptr, weak_ref_ptr assignment and moves"), ("weak control block", "reference_counted::control_block")],
  ["ref_ptr, weak_ref_ptr, make_ref and object destructors"])
P("C16", "Plugin-boundary containers behave as their standard counterparts",
  "After any history of operations, neolib's vector, deque, list, set, multiset, map, multimap and unordered maps hold, through their abstract interfaces as through the concrete class, exactly the elements the standard container would hold, in the same order. Insert, erase, find and bounds return iterators to the documented position; abstract iterators step forward and back (prefix and postfix), offset, compare, convert and report being singular; comparison, copying, moving and assignment, also from the same or another implementation of the interface, follow the elements.",
  [H, I], "every finite history of interface operations over fundamental and abstractable element types",
  "The enabled tests only instantiate some of these classes; which iterator or position an operation yields depends on the history.",
  ["include/neolib/core/i_container.hpp", "include/neolib/core/i_iterator.hpp", "include/neolib/core/container_iterator.hpp", "include/neolib/core/vector.hpp", "include/neolib/core/deque.hpp", "include/neolib/core/list.hpp", "include/neolib/core/set.hpp", "include/neolib/core/mutable_set.hpp", "include/neolib/core/map.hpp", "include/neolib/core/unordered_map.hpp"],
  [("wrapping of standard iterators", "container::iterator, const_iterator and random access variants"), ("interface operations", "do_insert, do_erase, do_find, assign of each container")],
  ["i_vector, i_list, i_set, i_map ... interfaces"])
P("C17", "optional, variant, any and pair hold exactly what was last stored",
  "However they are constructed, copied, moved, assigned (from values, from each other, or through their abstract interfaces, themselves included), swapped, emplaced and reset, optional, variant, any and pair hold exactly the alternative and value last stored, compare as the standard counterparts do, and refuse access to an alternative they do not hold. Every value stored is destroyed exactly once, and a printed optional reads back as the same.",
  [H, I], "every finite history of operations over fundamental, abstractable and lifetime-tracking values",
  "No enabled test covers them beyond construction; overload choice and stale state depend on what is stored from where.",
  ["include/neolib/core/optional.hpp", "include/neolib/core/i_optional.hpp", "include/neolib/core/variant.hpp", "include/neolib/core/i_variant.hpp", "include/neolib/core/any.hpp", "include/neolib/core/pair.hpp", "include/neolib/core/i_pair.hpp"],
  [("assignment through interfaces", "optional::operator=, variant::assign, pair::assign"), ("type erased storage", "any")],
  ["optional, variant, any, pair and their interfaces"])
P("C18", "Strings and string views behave as the standard ones, owning or viewing",
  "neolib's string, string view and quick string give the same content, searches, substrings, comparisons, concatenations and errors as std::string would after any history of edits. A quick string gives those answers whether it currently owns its text or views text it does not own, and editing one never changes the text it viewed or another string; equal strings hash equally.",
  [H, I], "every history of edits and every text, search text and position, embedded NULs and bytes above 127 included",
  "A view that is not detached before an edit, or a search forwarded to the wrong algorithm, shows only for particular operations and operands; no enabled test covers them.",
  ["include/neolib/core/string.hpp", "include/neolib/core/i_string.hpp", "include/neolib/core/string_view.hpp", "include/neolib/core/i_string_view.hpp", "include/neolib/core/quick_string.hpp", "include/neolib/core/fast_hash.hpp"],
  [("view to owner transition", "basic_quick_string::get_string"), ("interface string", "string, i_string"), ("hash", "fast_hash, hash_value")],
  ["string, string_view, quick_string"])
P("C24", "Every subscribed slot gets each event exactly once, in order, on its own thread",
  "Triggering an event calls each slot subscribed to it, priority slots first and otherwise in subscription order, exactly once with the triggered arguments: at once on the triggering thread, or, for a slot of another thread and for asynchronous triggers, from that thread's queue in each emitter's order, a slot or event that asks not to be queued twice getting only the latest call. An unsubscribed slot, or one whose event has been destroyed, is not called again by its thread and is released; slots may subscribe, unsubscribe, trigger, pump, throw or destroy the event without disturbing deliveries still owed. Accepting an event stops that trigger, and only that one, and its result says so; all of this holds with any number of threads emitting, subscribing and ending concurrently.",
  [H, S, I], "every history of subscriptions, triggers, pumps and unsubscriptions, nested in slots or on any number of threads, under every locking strategy for threads",
  "The event test prints a few lines without checking them; re-entrancy, accept, unsubscription during delivery and cross-thread queues depend on history and interleaving.",
  ["include/neolib/task/event.hpp", "include/neolib/task/i_event.hpp", "src/task/event.cpp", "include/neolib/core/lifetime.hpp", "src/core/lifetime.cpp", "include/neolib/core/mutex.hpp"],
  [("synchronous delivery", "event::sync_trigger, accept"), ("cross-thread queues", "async_event_queue::enqueue, pump_events, instance"), ("subscription", "slot, sink, event::add_slot/remove_slot")],
  ["event, slot, sink, async_event_queue"],
  technique="online monitor of every slot call under ASan+UBSan; multi-threaded stress with offline exactly-once and order checking under TSan and ASan")
P("C23", "A thread pool runs each task exactly once, and waiting for it is reliable",
  "Every task given to a pool by any number of threads, also from within tasks, is run exactly once by one of its threads (not at all if it was cancelled first), its result or exception reaches its future, and owned tasks are then released; a single free thread takes waiting tasks highest priority first and equal priorities in the order given. Every thread in wait() returns, and does so only once everything given before has run, destroying a pool runs what was given, and after stop() returns nothing runs or is accepted; parallel_apply visits each element once and returns when all are done. A thread runs its function once, reports its state, ends at a cancel from within or at the next blocking point after abort(), and waiting for it, alone or with events or messages, ends when it does.",
  [S, PR, H], "every schedule of producers, waiters and pool threads, every task, priority, failure, cancellation and moment of stopping",
  "The thread pool test runs one workload and prints; lost wakeups, double runs and early returns from wait depend on the interleaving.",
  ["include/neolib/task/thread_pool.hpp", "src/task/thread_pool.cpp", "include/neolib/task/task.hpp", "include/neolib/task/thread.hpp", "src/task/thread.cpp", "src/task/waitable_event.cpp"],
  [("queueing and stealing", "thread_pool_thread::add, next_task, steal_work"), ("idle accounting", "thread_pool::update_idle, wait, stop"), ("thread lifecycle", "thread::start, cancel, abort, entry_point")],
  ["thread_pool, thread, function_task, parallel_apply"],
  technique="exactly-once, ordering and quiescence monitors over stressed pools under TSan and ASan+UBSan")
P("C26", "Mutexes exclude and nest, and waitable events lose no signal",
  "At most one thread at a time is inside any of the recursive, spinning, yielding, switchable or proxied mutexes, with or without profiling, the thread inside sees all that its predecessors wrote, may lock again and keeps the mutex until it has unlocked as often; try_lock succeeds exactly when the mutex is free or its caller's own, lock always returns once it is, several mutexes are locked together without deadlock, and the profiler reports contention only when it is enabled and lasts long and often enough. Signalling an event releases one (signal_one) or every (signal_all) thread waiting for it, or failing that the next to wait, by any wait, timed wait, message wait or list wait; a signal is neither lost nor seen twice, and no wait succeeds without one or gives up before its time. A wait on several events, messages or a waitable reports something that did happen and consumes only that.",
  [S, H], "every interleaving of threads locking, trying, nesting, waiting and signalling",
  "No test covers mutexes or events; exclusion and lost signals are properties of interleavings.",
  ["include/neolib/core/mutex.hpp", "include/neolib/core/i_mutex.hpp", "src/core/mutex.cpp", "include/neolib/task/waitable_event.hpp", "src/task/waitable_event.cpp"],
  [("lock acquisition and nesting", "recursive_mutex::lock, unlock, try_lock"), ("locking several", "scoped_multi_lock"), ("signalling", "waitable_event::signal_one, signal_all, wait")],
  ["recursive_mutex, switchable_mutex, proxy_mutex, mutex_profiler, waitable_event, waitable_event_list"],
  technique="exclusion, ownership and signal-accounting monitors over stressed threads, kernel-observed sleepers, under TSan and ASan+UBSan")
P("C25", "Timers fire once, when due and while wanted, on their task's thread",
  "A timer set waiting calls its ready() exactly once, on the thread doing its task's work and not before its duration has passed, in the first round of work after that finds it due; it does not if it was first cancelled, disabled or destroyed or its context or task died, and each operation (again, again_if, reset, cancel, enable, disable, set_duration, assignment) leaves the timer enabled or waiting as its name says or throws the documented exception, from outside or from within any callback. Callbacks may create, destroy or change any timer or subscriber, run the task's work again or throw, without another timer firing wrongly, being lost or called after it is gone; every timer object and subscriber is released with its last user. A task delivers the events of its thread, runs each posted handler once in order, does nothing once halted, and has stopped when cancel returns.",
  [H, PR, S], "every history of timer operations and rounds of work, nested in callbacks, and every schedule of threads feeding a task on its own thread",
  "The task test waits for one timer; re-entrancy, cancellation, exceptions and destruction in callbacks depend on history.",
  ["include/neolib/task/timer.hpp", "src/task/timer.cpp", "include/neolib/task/i_timer_object.hpp", "src/task/timer_object.cpp", "include/neolib/task/async_task.hpp", "src/task/async_task.cpp", "src/task/async_thread.cpp", "src/task/time_slice.cpp"],
  [("timer state", "timer::again, cancel, handler"), ("expiry", "timer_object::poll, timer_service::poll"), ("task loop", "async_task::do_work, run, cancel")],
  ["timer, callback_timer, i_timer_object, i_timer_subscriber, async_task, async_thread, time_slice"],
  technique="online monitor of every callback against a model of wanted timers under ASan+UBSan; threaded tasks under TSan and ASan")
P("C22", "Vector, matrix and SIMD arithmetic equals its definition, per component",
  "For every dimension, orientation and element type, operators and functions on vectors, matrices, arrays of vectors and swizzles give what the mathematical definition gives component by component (exactly for integers and exactly representable values, to rounding otherwise), whether the scalar or the SIMD path runs and whether or not an operand is the identity. Comparison is lexicographic, swizzles read and write exactly the components named, and text output reads back as the same value. A matrix rounded to a step has every element at the nearest multiple, and an initializer list that is too long is refused.",
  [I, CF], "all operand values for dimensions 1 to 5 (float, double, 32-bit integer), with the SIMD path fixed and switched at run time",
  "Wrong lanes, transposed indices and shortcut paths give plausible numbers; nothing in the test suite multiplies two matrices.",
  ["include/neolib/core/numerical.hpp", "include/neolib/core/swizzle.hpp", "include/neolib/core/simd.hpp"],
  [("vector operators", "basic_vector"), ("matrix products and identity shortcuts", "basic_matrix, operator*"), ("SIMD lanes", "simd_fma_4d, simd_mul_4d, simd_rand"), ("swizzles", "swizzle")],
  ["basic_vector, basic_matrix, matrix_array, swizzle, simd_*"])
P("C27", "Rotations, affine interpolation and bounding boxes mean what geometry says",
  "Axis-angle, Euler and vector-to-vector rotation matrices (and the quaternion of Euler angles) are proper rotations by exactly the rotation asked for, including half turns and parallel or opposite vectors; affine interpolation starts at the first transformation, ends at the second, and in between scales and translates linearly and rotates at constant speed along the shortest arc (per axis when asked). Bounding boxes contain, intersect, unite, order and measure exactly as their component intervals do, and a transformed box is the tight box around its transformed corners. Bezier points lie on the curve, and nearly_equal holds exactly within its epsilon.",
  [I], "all angles, axes, vectors, transformations, boxes and points in the generated ranges, singular positions included, in float and double",
  "The singular cases (half turns, opposite vectors, touching boxes, negative components) are where formulas break, and no test calls any of them.",
  ["include/neolib/core/numerical.hpp"],
  [("rotation", "rotation_matrix, affine_rotation_matrix, euler_to_quat"), ("interpolation", "affine_transformation_lerp"), ("bounding boxes", "aabb_transform, aabb_contains, to_aabb, to_aabb_2d")],
  ["rotation_matrix, affine_transformation_lerp, aabb_*, bezier_cubic, nearly_equal"])
P("C19", "A jar finds, keeps and counts exactly the items put in it",
  "After any history of adding, emplacing, inserting, removing, erasing and clearing, a jar of any cookie width (locked or not, cookies integer or enumeration) holds exactly the items put in and not yet taken out; each item's cookie finds that item and no other for as long as it is in the jar, no two items in the jar share a cookie, and a cookie not in use is refused. A jar out of cookies says so, and goes on working once one is free. An item whose references are counted leaves the jar exactly when its last reference goes, and threads sharing a locked jar lose, repeat or confuse no item.",
  [H, S], "every history of jar operations, exhaustion of the cookie space included, and every schedule of threads sharing a locked jar",
  "A cookie handed out twice, or left pointing at the item that moved into a removed item's place, needs a particular history of removals; the enabled tests never remove anything.",
  ["include/neolib/core/jar.hpp", "include/neolib/core/i_jar.hpp"],
  [("cookie allocation", "basic_jar::next_cookie"), ("removal and re-indexing", "basic_jar::remove, erase"), ("reference counts per cookie", "cookie_ref_ptr, basic_cookie_ref_ptr")],
  ["jar, small_jar, std_vector_jar, cookie_ref_ptr, i_cookie_consumer"],
  technique="model-based runtime monitor of jar histories under ASan+UBSan; conservation monitor of threads sharing jars under TSan")
P("C36", "Vectors with room inside and pooled allocators own every element exactly once",
  "Vectors with storage of their own (small vector, growable static vector, vecarray and its polymorphic form) hold after any history of operations exactly what std::vector would, before, while and after they outgrow that storage, and each keeps its elements in storage no other vector uses, after copies, moves and swaps too. One that may not grow refuses what does not fit and is left as it was. Pool, omega and reserving allocators never hand out storage that is still in use, misaligned or short, and give storage back for reuse.",
  [H], "every finite history of operations over fundamental and lifetime-tracking elements, crossing the capacity of the built-in storage in either direction",
  "Copies and swaps between vectors of which some have outgrown their storage need a history no test has; borrowed storage is only visible once its owner is gone.",
  ["include/neolib/core/vecarray.hpp", "include/neolib/core/polymorphic_vecarray.hpp", "include/neolib/core/small_buffer_allocator.hpp", "include/neolib/core/static_vector.hpp", "include/neolib/core/allocator.hpp"],
  [("in-place buffer", "small_buffer_allocator"), ("fixed capacity", "vecarray"), ("pools", "neolib allocators in allocator.hpp")],
  ["small_vector, vecarray, growable_static_vector, omega_recycle, pools"])
P("C20", "Sequences with widths or tags agree with their plain model",
  "An indexitor holds after any history the elements a plain sequence would, in that order; each element's position along the sequence is the sum of the widths and skips before it, and looking a position up finds the element whose width covers it, or the end when a skip or nothing does, by the same start in the iterator and the result. A tag_array likewise holds the elements a plain sequence would, each with the tag it was inserted with, whatever tags meet in one insertion and however segments fill, split and empty. Copies, assignments and swaps keep widths, skips and tags, and iterators step, offset, compare and are returned by insert and erase as for a plain sequence.",
  [H], "every finite history of insertions, erasures, updates, copies and lookups",
  "Whether a sum or a segment boundary is right depends on the shape the tree took and on which neighbour has room; no test uses either class.",
  ["include/neolib/core/indexitor.hpp", "include/neolib/core/index_array_tree.hpp", "include/neolib/core/tag_array.hpp", "include/neolib/core/array_tree.hpp"],
  [("partial sums in the tree", "index_array_tree::set_foreign_index, rotations, find_node_by_foreign_index"), ("segment splitting by tag", "tag_array::do_insert, allocate_space")],
  ["indexitor, tag_array"])
P("C21", "A segmented tree keeps its nodes, their order, counts and skipping",
  "After any history of inserting, pushing, popping, erasing, clearing, sorting, skipping and unskipping nodes, a segmented_tree holds exactly the nodes a plain tree of lists would, with the same parents, children and order. Its size counts every node, iterating visits every node depth first in that order and forward and back alike, skip iterators visit exactly the nodes not hidden under a skipped ancestor, and insert and erase return an iterator to the node in that place. Copies and assignments are independent trees with the same content, and every node's value is owned exactly once.",
  [H], "every finite history of tree operations at any depth, of one or several trees",
  "Counts and skipping are maintained incrementally along the ancestors, so whether they are right depends on the history; the enabled tests never build such a tree.",
  ["include/neolib/core/segmented_tree.hpp", "include/neolib/core/segmented_array.hpp"],
  [("node and iterators", "segmented_tree::node, segmented_tree iterators"), ("counts", "segmented_tree descendent and skip counters")],
  ["segmented_tree"])
P("C29", "Intrusive sorting sorts, and a red-black tree stays ordered and balanced",
  "intrusive_sort leaves any random access range in the order asked for using only the swapper given to it, never compares or swaps anything outside of the range, loses no element, and takes O(n log n) comparisons whatever the input. A red_black_tree holds, after any history of inserting (with or without a hint), deleting and reinserting nodes, clearing and swapping trees, exactly the nodes put in, in order with equal nodes in the order inserted. It stays a proper red-black tree throughout (parents, black heights, no two reds, logarithmic height), and one tree's nodes never refer to another tree.",
  [I, H], "every key sequence including adversarial ones, and every finite history of operations on two trees",
  "The heapsort fallback only runs on inputs that defeat the partitioning, and deletion repairs depend on colours many operations back; no test sorts intrusively or uses the tree.",
  ["include/neolib/core/intrusive_sort.hpp", "include/neolib/core/red_black_tree.hpp"],
  [("partition, heapsort, introsort", "neolib::detail in intrusive_sort.hpp"), ("repairs after insertion and deletion", "red_black_tree::insert_fixup, delete_fixup, node::replace")],
  ["intrusive_sort, red_black_tree"])
P("C33", "Erased iterators and references, guards and counters keep to what they stand for",
  "Type-erased iterators and references (any, const, generic) behave exactly as what they were made from through copying, assigning (to themselves too), stepping and comparing, convert back to exactly its type and refuse any other, and own what they hold exactly once; zipped iterators step, offset, dereference and swap all their iterators as one. Scope guards put back exactly what they changed when their scope ends, by exception too, unless told not to; a recursion limiter admits exactly its limit per thread and tag, and a refusal changes nothing. Step counters run from start to end on the line between them, and mutable sets keep keys in order, unique where they must be, while values change.",
  [H, I], "every history of operations on iterators of any size and kind, every nesting of guards with and without exceptions, every range and count",
  "Storage limits, self-assignment, refusal and unwinding depend on sizes and control flow the tests never produce.",
  ["include/neolib/core/any_iterator.hpp", "include/neolib/core/any_ref.hpp", "include/neolib/core/generic_iterator.hpp", "include/neolib/core/zip_iterator.hpp", "include/neolib/core/scoped.hpp", "include/neolib/core/recursion.hpp", "include/neolib/core/bresenham_counter.hpp", "include/neolib/core/mutable_set.hpp"],
  [("storage and ownership", "any_iterator::create, generic_iterator::construct2"), ("restoring", "scoped_* destructors"), ("depth per thread and tag", "recursion_limiter::depth"), ("error accumulation", "bresenham_counter::operator T")],
  ["any_iterator, any_const_iterator, any_ref, any_const_ref, generic_iterator, zip_iterator, scoped_*, recursion_limiter, bresenham_counter, mutable_set"])
P("C11", "Zip and gzip archives yield exactly what was put in, or are refused",
  "From a zip archive, given as a file or in memory, every entry (stored or deflated, empty or not, sizes in the local header or only in the directory) is counted, named, found and extracted exactly as it was put in, to a buffer, string or directory; gunzip yields exactly the content of a gzip file whatever optional fields its header has. From a damaged, truncated, forged or foreign one they yield content that was put in or nothing, ok() is false once anything failed, and nothing is read beyond the data or written outside of the target directory.",
  [I, F], "every archive and every corruption of it, at any byte and in every length and offset field",
  "Lengths and offsets in archives come from outside; the tests never open an archive, and only corrupted ones show whether bounds and checksums are checked.",
  ["src/file/zip.cpp", "include/neolib/file/zip.hpp", "src/file/gunzip.cpp", "src/core/crc.cpp"],
  [("directory parsing", "zip::parse"), ("extraction", "zip::extract_to, zip::extract"), ("gzip header and trailer", "gunzip::gunzip")],
  ["zip, gunzip"],
  technique="differential runtime monitor over generated and fault-injected archives under ASan+UBSan")
P("C14", "A URI is taken apart as written, and its string means the same URI",
  "Parsing a URI gives its scheme, user information, host (IPv6 addresses too), port, path, query and fragment as the first separators divide them, escapes decoded, however much or little of them is there and whatever separators later parts contain; a port that is not one is refused. The string of a URI consists of URL characters only, and parsing it gives the same parts again, for parts that were set as for parts that were parsed. Escaping keeps URL characters, unescaping decodes exactly the complete escapes, and the two undo one another.",
  [I], "every byte string as URI, and every combination and content of parts",
  "Separators inside later parts, escapes at the very end and missing parts are a combinatorial space; no test touches URIs.",
  ["include/neolib/io/uri.hpp", "src/io/uri.cpp"],
  [("parsing", "uri::parse_*, uri_authority::parse_*"), ("escaping", "uri::escaped, uri::unescaped"), ("output", "operator<<")],
  ["uri, uri_authority"])
P("C28", "An entity component system keeps data, ids, handles and events straight",
  "An entity's id and a handle's id are issued to nothing else while in use, and every record, found through its entity or by iteration, is the one last given to that entity, across creation, destruction, sorting, snapshots, shared data and archetypes, immediate or asynchronous; each entity is announced created once and destroyed once, if asked for. A handle yields what was last stored under it or, once released or never issued, an error or nothing but no read outside the table; the handles of destroyed records are released once. Systems are applied only by the thread they belong to, not while paused, on after being resumed, and an ecs may be stopped and destroyed at any time without a race or a hang.",
  [H, S], "every history of entity, component, handle, snapshot and system operations, and every interleaving of threads creating, destroying and applying under the multi-threaded locking strategies",
  "Reverse indices, recycled ids and handles and the life of system threads go wrong only after histories and interleavings; the tests never create an ecs.",
  ["include/neolib/ecs/component.hpp", "include/neolib/ecs/i_ecs.hpp", "src/ecs/ecs.cpp", "include/neolib/ecs/system.hpp", "src/ecs/system.cpp", "src/ecs/entity.cpp", "include/neolib/ecs/ecs_mutex.hpp", "include/neolib/ecs/time.hpp"],
  [("records and reverse indices", "component::do_populate, remove_entity_record, sort, take_snapshot"), ("ids and handles", "ecs::next_entity_id, add_handle, release_handle, to_handle"), ("asynchronous creation and destruction", "ecs::commit_async_*"), ("system threads", "system_thread, system::pause/resume/wait_for/apply")],
  ["ecs, entity, entity_archetype, component, shared_component, system, scoped_component_lock, scoped_snapshot"])
P("C31", "Lifetime flags, object events and services follow the life of their subjects",
  "A lifetime flag tells the state of the object it was taken from, for as long as it is kept, on any thread, and whatever is copied, assigned or destroyed meanwhile; a copy of an object has a life of its own; states only go forwards, other transitions being refused. An object announces that it is about to be destroyed, then that it is destroyed, once each. A service is started at most once, at its first use, however many threads use it first, and everyone gets that instance until it is unregistered or replaced, through every change of the service provider.",
  [H, S], "every history of objects, flags, services and providers, and every interleaving of first uses and of watching flags",
  "Flags outlive their subjects and services outlive providers; no test has either, nor a thread.",
  ["include/neolib/core/lifetime.hpp", "src/core/lifetime.cpp", "include/neolib/core/service.hpp", "src/core/service.cpp", "include/neolib/app/object.hpp"],
  [("states", "lifetime::set_*"), ("flags", "lifetime_flag"), ("announcements", "object::set_destroying, set_destroyed"), ("services", "services::service, service_provider, set_service_provider")],
  ["lifetime, lifetime_flag, object, services::service/register_service/unregister_service/set_service_provider"])
P("C30", "File helpers act on exactly the path given, and hex dumps list every byte",
  "Whatever bytes a path consists of, with or without a directory, narrow or wide, the file helpers say whether that very file exists, can be read, how large it is (beyond 4 GB too) and its date to the second, create it without touching its content, create its directory, move it there with its content and nothing else, or say they did not; nothing else is created, changed or lost. The extension is what follows the last dot of the file's own name. A hex dump lists every byte at its offset, as text and in hexadecimal, and leaves the stream as it was.",
  [I, H], "every path, every history of files in a directory tree, every buffer and width",
  "File names are bytes and trees have histories; the tests ask about a couple of ASCII names.",
  ["src/file/file.cpp", "include/neolib/file/file.hpp", "include/neolib/file/hexdump.hpp"],
  [("paths", "native_path, convert_path, file_ext"), ("actions", "create_path, create_file, move_file, simple_file"), ("dump", "hex_dump")],
  ["file_exists, file_date, file_size, large_file_size, large_file_seek, can_read_file, file_ext, create_path, create_file, move_file, simple_file, hex_dump, program_file, user_*_directory"])
P("C12", "Packets hold what they were given; framing does not depend on how data arrives",
  "A packet holds the content it was given, a clone, copy or assignment of it an independent and equal one, and an empty one has no data. From a stream of text, however it is cut into pieces, string packets take exactly the non-empty stretches between delimiters, in order and unaltered, each as soon as its delimiter is there, what follows the last one staying pending; binary packets lose, invent and reorder nothing.",
  [I, S], "every content, delimiter set and way of cutting a stream into pieces",
  "Framing must not depend on where reads end; no test feeds a packet at all.",
  ["include/neolib/io/string_packet.hpp", "include/neolib/io/binary_packet.hpp", "include/neolib/io/i_packet.hpp"],
  [("framing", "basic_string_packet::take_some"), ("content", "basic_binary_packet::take_some, clone, copy_from")],
  ["string_packet, binary_packet, basic_string_packet"])
P("C13", "A packet stream delivers each packet once, in order, and tells its state truly",
  "Over an established connection, secure or not, the other end receives the packets sent, complete and in the order of sending (those of high priority first), each reported as sent once, and every packet the other end sends arrives once, in order, however the data is cut; packets sent before the connection is established follow once it is. Each opening is reported established or failed, and each established connection closed, once, and connected, opened, closed and error tell the state; what belongs to a connection that was closed neither reaches the next one nor stops it. A stream may be closed, opened again or destroyed at any time, in its own event handlers too, and is not used or heard of after its destruction.",
  [H, S, F], "every history of opening, sending, receiving, closing and destroying, from handlers too, with every way the other end answers, stalls or leaves",
  "Queues, pending operations and handlers outlive connections; no test opens one.",
  ["include/neolib/io/packet_connection.hpp", "include/neolib/io/packet_stream.hpp"],
  [("life of a connection", "basic_packet_connection::open, close, handle_connect, handle_handshake, handler_proxy"), ("sending", "send_packet, send_any, handle_write"), ("receiving", "receive_any, handle_read"), ("ownership of packets", "packet_stream::send_packet, remove_packet, remove_all_packets")],
  ["tcp_string_packet_stream, tcp_binary_packet_stream, packet_stream"])
P("C34", "A logger writes what passes its filters once, whole and in order, everywhere",
  "Every message whose severity and category pass the filters of a logger is written to its stream exactly once, whole, formatted by its formatter, numbered and announced once, and in order for each thread, however many threads log, come and go, and whether a logging thread writes or commit is called; other messages are not. Loggers it is copied to get each message too, and severities and categories as they are set, by their own filters, until that is cancelled. All logged before waiting for the logging thread ends, or before the logger is finalized or destroyed, is written by then, without a race.",
  [H, S], "every history of filters, categories, formatters, copies and messages on each thread, and every interleaving of logging, committing, waiting and ending threads",
  "Messages are lost or torn only by interleavings and by threads which end; no test logs anything.",
  ["include/neolib/app/logger.hpp", "include/neolib/app/i_logger.hpp", "include/neolib/app/ostream_logger.hpp"],
  [("buffers of threads", "logger::buffer, commit, any_available"), ("filters and copies", "logger::flush"), ("end", "logger::wait, finalize")],
  ["ostream_logger, i_logger, formatter"])
P("C37", "Settings hold what was last applied, tell of every change, and survive saving",
  "A setting has the value last applied to it, else its default; a new value stays apart until it is applied or discarded, and setting the value there is already, or clearing, ends it. Every such step is announced once, by the setting, by its manager and, when changes are applied, for each category with one. After being saved and read back, by the same keys, settings of every built-in type have the values they had, and whatever bytes the file holds, settings come up and work; titles and friendly texts are those registered.",
  [H, I], "every history of registering, setting, clearing, applying, discarding, deleting and saving, every value and every content of the file",
  "What is pending, applied and stored differs only after histories; no test creates a setting.",
  ["src/app/settings.cpp", "include/neolib/app/setting.hpp", "include/neolib/app/i_setting.hpp", "include/neolib/app/setting_value.hpp", "include/neolib/app/settings.hpp", "include/neolib/core/string_utils.hpp"],
  [("values", "setting::set_value, clear, apply_change, discard_change"), ("announcements", "settings::changing_setting, changed_setting, apply_changes"), ("file", "settings::load, save, register_setting")],
  ["settings, setting, i_setting, setting_value"])
