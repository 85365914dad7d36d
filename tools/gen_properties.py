#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["rst/" + f for f in files],
            state=[dict(name=a, meaning=b, where="rst/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="rst/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "StrCat returns exactly the in-order concatenation of its arguments",
 "For every list of arguments of any number and any lengths (including empty texts and texts with NUL bytes), StrCat returns a string whose size is the sum of the texts' sizes and whose bytes are the arguments' texts one after another in order. It reads only the arguments' texts and writes only its result, never past either end.",
 ["inputs"], "every argument list (any count, any text lengths whose total is below 2^62, any bytes)",
 "Tests sample a few short lists; an off-by-one for an empty, first, last or large argument, or a skipped argument at some count, is an input class of its own.",
 ["strings/str_cat.cc", "strings/arg.h", "stl/resize_uninitialized.h"],
 [("size pre-computation and copy loop", "strings/str_cat.cc StrCat")], observe=["return value of rst::StrCat"])

prop("C02", "Format substitutes placeholders in order and rejects malformed formats",
 "For every format text and argument list where braces are well formed and the number of {} placeholders equals the number of arguments, Format returns the format with each {} replaced by the corresponding argument's text in order, {{ by { and }} by }, all other characters unchanged and without writing outside the result. In checked builds every other format (lone brace, unmatched brace, too few or too many arguments) ends in an assertion failure and never returns.",
 ["inputs"], "every format string and every argument list of any length",
 "Tests sample ~30 fixed formats; adjacency of escapes and placeholders, empty arguments and large texts form an unbounded grammar.",
 ["strings/format.cc", "strings/format.h", "strings/arg.h"],
 [("single-pass scanner", "strings/format.cc FormatAndReturnString")], observe=["return value of rst::Format", "assertion failure"])

prop("C03", "Format/StrCat arguments render every value as its canonical text",
 "An argument made from an integer of any built-in type renders as its exact decimal value, a bool as true or false, a char as that one character, an enum as its underlying integer, a string or C string as its own characters, and a floating-point number as printf %g would print it. The conversion never writes outside the argument's own buffer, for any value.",
 ["inputs"], "every value of every accepted argument type",
 "Extreme values (minimum of each type, longest %g output) and every type's own overload need all values, tests try a handful.",
 ["strings/arg.h"], [("Arg constructors", "strings/arg.h internal::Arg"), ("20-byte buffer", "strings/arg.h kBufferSize")],
 observe=["rst::StrCat / rst::Format output"])

prop("C04", "Generated GUIDs are well-formed version 4 GUIDs keeping 122 random bits",
 "Whatever bits the random source delivers, a generated GUID prints as 36 characters 8-4-4-4-12 with lower-case hexadecimal digits, version digit 4 and a variant digit in 8, 9, a, b. The string form and the view form are equal and stable, and every one of the other 122 bits is the random source's bit, so distinct random bits give distinct GUIDs.",
 ["inputs"], "every 128-bit output of the random source",
 "A test draws a few random GUIDs; a mask that loses one bit or leaks one nibble in rare cases is invisible to sampling.",
 ["guid/guid.cc", "guid/guid.h", "random/random_device.cc"],
 [("version and variant masks", "guid/guid.cc Guid::Guid"), ("printf rendering", "guid/guid.cc GuidInternal")],
 observe=["Guid::AsString", "Guid::AsStringView"])

prop("C05", "GUID validators accept exactly the version 4 GUID strings",
 "Guid::IsValid(s) is true exactly when s is 36 characters of the form xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx with hexadecimal digits x of either case and y in 8, 9, a, b, A, B; Guid::IsValidOutputString(s) is true exactly when moreover no digit is upper case. Neither ever reads outside s.",
 ["inputs"], "every string of every length, including embedded NUL and non-ASCII bytes",
 "Tests list about ten strings; the predicates range over 2^288 candidates and each position has its own rule.",
 ["guid/guid.cc", "guid/guid.h"], [("per-position scan", "guid/guid.cc IsValidGuidInternal")],
 observe=["Guid::IsValid", "Guid::IsValidOutputString"])

prop("C06", "HashCombine folds every element, in order, and never loses a difference",
 "HashCombine of an empty list is 0 and of one element is that element's std::hash; for longer lists the result is a fixed deterministic function of the sequence of the elements' hashes. Two lists of the same length whose element hashes differ in exactly one position always get different results.",
 ["inputs"], "every list length and every sequence of 64-bit element hashes",
 "Tests compare two or three literal lists; injectivity in each position is a statement over all 2^64 values of an element.",
 ["stl/hash.cc", "stl/hash.h"], [("bijective mixing step", "stl/hash.cc HashCombineSizeT")], observe=["rst::HashCombine"])

prop("C07", "WriteFile and ReadFile move exact bytes or report an error",
 "When WriteFile returns OK the named file holds exactly the given bytes, and when ReadFile returns a string it is exactly the file's content up to end of file, for every content and every way the OS splits the reads. Every failure to open is reported as FileOpenError and every read, write or close failure as FileError naming the file; the file is closed exactly once on every path.",
 ["inputs", "fault_sequences"], "every content and size, every sequence of short reads and of failures of open, read, write and close",
 "Tests read and write small files on a healthy disk; failing fread/fwrite/fclose, zero-size special files and files growing while read are not reachable from them.",
 ["files/file_utils.cc", "files/file_utils.h"],
 [("chunked read loop", "files/file_utils.cc ReadFile"), ("write and close checks", "files/file_utils.cc WriteFile")],
 observe=["returned Status/StatusOr", "file content", "stream close"])

prop("C08", "WriteImportantFile replaces the target atomically or leaves it alone",
 "At every point of WriteImportantFile, a crash included, the target file holds either its previous content or the complete new data. On success it holds the new data; on any failure the target is unchanged, an error is returned, and no temporary file created by the call stays behind.",
 ["inputs", "crash_points", "fault_sequences"], "every data, every failing or crashing point among open, write, close, rename and remove",
 "Tests only observe the end state of a successful call; the intermediate states and failing system calls cannot be produced by them.",
 ["files/file_utils.cc"], [("exclusive temp file then rename", "files/file_utils.cc WriteImportantFile")],
 observe=["sequence of file-system operations", "returned Status"])

prop("C09", "A Status carries its error faithfully and cannot be dropped unchecked",
 "A Status is an error exactly when it was made with one, and construction, moves and assignment pass on that same error object, which is destroyed exactly once. In checked builds destroying a Status, overwriting it, or reading its error without having asked err() (or Ignore) since it received its value ends in an assertion failure; a moved-from Status may be destroyed silently, and a correctly checked one never asserts.",
 ["inputs", "histories"], "every sequence of make, move, assign, err, Ignore, GetError and destroy on any Statuses",
 "Each test runs one hand-written history; the check flag is a typestate over all histories.",
 ["status/status.h", "status/status.cc"], [("checked flag", "status/status.h Status")],
 state=[("was_checked_", "whether err() or Ignore() was called since the value arrived", "status/status.h")],
 observe=["err()", "GetError()", "assertion failure"])

prop("C10", "A StatusOr holds exactly one of a value and an error at all times",
 "For every value type, a StatusOr holds either the value it was given or the error it was given; every construction, move and assignment, in any combination of value and error states, constructs and destroys value and error exactly once each and delivers the new content. In checked builds dereferencing before err(), dereferencing an error, taking the status of a value, or dropping or overwriting an unchecked StatusOr ends in an assertion failure; correct use never asserts.",
 ["inputs", "histories"], "every value type, every pair of states and every sequence of operations",
 "Tests use a few types and single steps; leaks and double destruction in a particular state combination do not show in values.",
 ["status/status_or.h"], [("manual union lifetime", "status/status_or.h StatusOr")],
 state=[("has_error_", "which union member is alive", "status/status_or.h")],
 observe=["operator*", "status()", "payload constructor/destructor counts"])

prop("C11", "The TRY macros return the first error and otherwise continue",
 "RST_TRY, RST_TRY_ASSIGN, RST_TRY_ASSIGN_UNWRAP and RST_TRY_CREATE evaluate their statement exactly once. If it is an error the enclosing function returns immediately with that same error object, otherwise execution continues with the value assigned, and no unchecked-status assertion fires in either case.",
 ["inputs", "programs"], "every outcome of the statement and every surrounding control flow",
 "Tests run each macro once per outcome with integer payloads only; identity of the error object and single evaluation are not observed.",
 ["status/status_macros.h", "status/status.h", "status/status_or.h"], [("macro expansion", "status/status_macros.h")],
 observe=["returned Status", "side effects of the statement"])

prop("C12", "NotNull is never null and Nullable is never used unchecked",
 "A NotNull built or assigned from a null raw pointer, unique_ptr, shared_ptr or Nullable ends in an assertion failure, otherwise it yields exactly that pointer with ownership kept (or handed over) exactly once. Dereferencing a Nullable, or converting it to NotNull, asserts unless it is non-null and was compared with nullptr since its value was assigned (a copy or move constructed from a compared Nullable of the same type counts as compared); comparisons and conversions agree with the raw pointers.",
 ["inputs", "histories"], "every pointer value, every pointer kind and every sequence of construct, assign, compare, convert and dereference",
 "Tests cover single conversions; the check flag across assignments and the ownership of smart pointers are histories.",
 ["not_null/not_null.h"], [("null checks", "not_null/not_null.h NotNull"), ("was_checked_ flag", "not_null/not_null.h Nullable")],
 observe=["get()", "operator*", "operator->", "assertion failure"])

prop("C13", "A WeakPtr yields its object while alive and null afterwards",
 "Every WeakPtr obtained from an object, through any copies, moves, assignments and base-class conversions, yields the pointer to that object as long as the object lives and null after it is destroyed. Default, nulled and moved-from WeakPtrs yield null, and no access to the destroyed object happens.",
 ["histories", "inputs"], "every sequence of create, copy, move, convert, assign and destroy on objects and weak pointers",
 "Tests check single steps; stale handles need histories mixing several handles and object death.",
 ["memory/weak_ptr.h"], [("shared liveness flag", "memory/weak_ptr.h SupportsWeakPtr")], observe=["WeakPtr::GetNullable"])

prop("C14", "A function bound to a weak pointer runs only while its object lives",
 "Calling the result of Bind on a WeakPtr or std::weak_ptr invokes the bound method exactly once with the bound and call-time arguments, in order, and only when the object is still alive; when it is gone the call does nothing. While a std::weak_ptr-bound call runs its object stays alive, and DoNothing and NullFunction convert to a callable that does nothing and to an empty function.",
 ["inputs", "histories"], "every argument value and every order of binding, copying, object destruction and calls",
 "Tests exercise a few arities; liveness at call time and forwarding for all values need quantification.",
 ["bind/bind.h", "bind/bind_helpers.h", "memory/weak_ptr.h"], [("liveness test before invoke", "bind/bind.h Bind")],
 observe=["calls received by the bound object"])

prop("C15", "A Value owns exactly one payload of its declared type",
 "After any construction, move, assignment or destruction of Values of any two types (also assigning from an element nested inside the target), the Value has the type and payload it was given and the typed getters return that payload. Every string, array and object payload is constructed and destroyed exactly once, no freed memory is touched, and in checked builds a getter of another type ends in an assertion failure.",
 ["inputs", "histories"], "every pair of types and payloads, every sequence of operations",
 "36 type pairs times aliasing are only sampled by the tests, and lifetime errors do not change the compared values.",
 ["value/value.h", "value/value.cc"], [("manual union lifetime", "value/value.cc MoveConstruct/MoveAssign/Cleanup")],
 state=[("type_", "which union member is alive", "value/value.h")], observe=["type()", "GetXxx()"])

prop("C16", "Numbers are integers exactly when exactly representable",
 "IsInt (IsInt64) holds exactly when the stored double is an integer within the range of int (within plus or minus 2^53-1), and then GetInt (GetInt64) returns exactly that integer; integer construction and GetInt/GetInt64 round-trip. In checked builds constructing from a non-finite double or from an int64 outside plus or minus 2^53-1, the most negative one included, ends in an assertion failure, and no conversion overflows.",
 ["inputs"], "every double bit pattern and every 64-bit integer",
 "Boundaries of 2^64 bit patterns (signed zero, fractions near the limits, INT64_MIN) cannot be enumerated by tests.",
 ["value/value.h"], [("range predicates", "value/value.h IsInt/IsInt64"), ("kMaxSafeInteger", "value/value.h")],
 observe=["IsInt", "IsInt64", "GetInt", "GetInt64", "FindIntKey", "FindInt64Key"])

prop("C17", "Clone makes an equal, fully independent deep copy",
 "Cloning any Value, array or object of any size and nesting gives the same type with elements in the same order, keys and values equal to the source. Nothing is shared: the source is unchanged and changing either one never affects the other.",
 ["inputs"], "every finite Value tree",
 "Trees are unbounded in width and depth; tests clone a few fixed ones.",
 ["value/value.cc", "clone/clone.h"], [("recursive copy", "value/value.cc Value::Clone")], observe=["Value::Clone"])

prop("C18", "Value comparisons are structural and mutually consistent",
 "Values of different types are never equal and are ordered by type; same-type values compare by payload (numbers equal when they differ by less than the machine epsilon), arrays and objects element-wise and lexicographically. Equality is reflexive and symmetric, less-than is a strict weak order, and !=, >, <=, >= are derived from them consistently.",
 ["inputs"], "every pair and triple of Values",
 "Transitivity and symmetry range over all triples of trees; tests fix examples.",
 ["value/value.cc", "value/value.h"], [("operator== and operator<", "value/value.cc")], observe=["comparison operators"])

prop("C19", "Object key operations behave as a map and typed lookups as a filter",
 "After SetKey(k, v) FindKey(k) yields v, after RemoveKey(k) it yields nothing, RemoveKey reports whether the key was there, and every other key keeps its value. A typed lookup returns the value exactly when the key is present with that type (for the integer lookups: exactly representable), and nothing otherwise; key operations on a non-object assert in checked builds.",
 ["inputs", "histories"], "every object, key and value, every sequence of key operations",
 "The statement quantifies over all other keys and all prior contents; tests inspect one or two keys.",
 ["value/value.h", "value/value.cc"], [("map operations", "value/value.cc FindKey/SetKey/RemoveKey"), ("typed lookups", "value/value.cc FindXxxKey")],
 observe=["FindKey and typed variants", "RemoveKey result"])

prop("C20", "Dotted paths address nested keys, and set-then-find agree",
 "FindPath(p) follows the dot-separated components of p through nested objects and yields the last component's value, or nothing when a component is missing or an inner one is not an object. SetPath(p, v) creates or replaces exactly the objects needed along p and stores v there, so that FindPath(p) then yields v, while keys not on the path keep their values.",
 ["inputs", "histories"], "every path string (any number of components, empty components included) and every prior tree",
 "Unbounded component counts and all prior tree shapes; tests use paths of two or three components.",
 ["value/value.cc"], [("component loop", "value/value.cc FindPath/SetPath")], observe=["FindPath", "SetPath"])

prop("C21", "A preference reads as its last written value, else its default",
 "A registered preference reads as the last value set for it and, when none was set, as its registered default, for every type; setting or registering one preference never changes another whose path does not extend or prefix it. In checked builds reading or writing an unregistered preference, registering one twice, or using another type ends in an assertion failure before anything changes.",
 ["inputs", "histories"], "every set of registered paths and every history of register, set and get",
 "Histories and path sets are unbounded; tests run one write and one read per type.",
 ["preferences/preferences.h", "preferences/preferences.cc", "preferences/memory_preferences_store.cc"],
 [("registry with defaults", "preferences/preferences.h"), ("path store", "preferences/memory_preferences_store.cc")],
 observe=["Get*", "Set*", "Register*"])

prop("C22", "The polling runner runs each due task exactly once, in due order",
 "RunPendingTasks runs exactly the posted tasks whose due time (post time plus delay) is at or before the current time, each its posted number of times, ordered by due time and, for equal due times, by posting order; every other task stays queued, none is lost or repeated, and tasks posted meanwhile wait for the next call.",
 ["inputs", "histories", "schedules"], "every number of tasks, delays, clock values, iteration counts and interleaved posts",
 "Queue contents and clocks are unbounded and posting may come from other threads; tests post a few tasks with a fake clock.",
 ["task_runner/polling_task_runner.cc", "task_runner/item.h", "stl/algorithm.h"],
 [("heap of (due time, sequence)", "task_runner/item.h operator>"), ("drain then run", "task_runner/polling_task_runner.cc RunPendingTasks")],
 observe=["task invocations"])

prop("C23", "The thread pool never loses, repeats or runs a task early",
 "Under every schedule each task posted to a living thread pool is eventually taken by a worker exactly as many times as it was posted for and never more, delayed tasks not before their due time, and undelayed tasks are taken in posting order. At most the configured number of worker threads exists, and destruction waits for all workers to finish and then releases them.",
 ["schedules", "histories"], "every interleaving of posts, workers timing out, waking and exiting, and destruction",
 "The races are between a worker's timeout and a post, a few instructions wide; a run of the tests sees one schedule.",
 ["task_runner/thread_pool_task_runner.cc", "task_runner/thread_pool_task_runner.h"],
 [("locked task queue with waiting-thread count", "task_runner/thread_pool_task_runner.cc DelayedTaskRunner"), ("timer heap", "task_runner/thread_pool_task_runner.cc ServiceTaskRunner")],
 state=[("tasks_", "tasks not yet taken", "task_runner/thread_pool_task_runner.h"), ("waiting_threads_num_", "workers blocked for work", "task_runner/thread_pool_task_runner.h")],
 observe=["task invocations", "thread count"])

prop("C24", "ApplyTaskSync runs each index once and returns after the last",
 "ApplyTaskSync(f, n) makes the runner execute f for each index 0..n-1 exactly once, in any distribution over threads, and returns only after all n executions have finished. The shared state outlives every execution.",
 ["schedules", "inputs"], "every n and every interleaving of the iterations",
 "Only interleavings can show a duplicated index or an early return, and tests see few of them.",
 ["task_runner/task_runner.cc", "threading/barrier.cc"], [("atomic index and barrier", "task_runner/task_runner.cc ApplyTaskSync")],
 observe=["indices received by f", "return of ApplyTaskSync"])

prop("C25", "A Barrier opens exactly when its count reaches zero",
 "Wait and CountDownAndWait return only after the counter has been counted down to zero, and once it has, every present and later waiter is released under every schedule, spurious wake-ups included. Each CountDown lowers the counter by one; in checked builds counting below zero, creating with zero, or destroying a barrier that has not opened ends in an assertion failure.",
 ["schedules", "histories"], "every number of threads, every interleaving and every spurious wake-up",
 "A lost wake-up needs a particular interleaving of the last CountDown and several waiters; tests sample a few runs.",
 ["threading/barrier.cc", "threading/barrier.h"], [("counter under mutex, wake-up chain", "threading/barrier.cc")],
 state=[("counter_", "remaining count", "threading/barrier.h")], observe=["return of Wait/CountDownAndWait"])

prop("C26", "A one-shot timer fires its latest task at most once",
 "After Start the timer is running until its task has been taken to run; the task of the latest Start runs exactly once, when the runner executes the posted callback or at FireNow, whichever is first, while tasks replaced by a later Start and tasks of a destroyed timer never run. A task may restart or destroy its own timer, and IsRunning reports the resulting state.",
 ["histories"], "every sequence of Start, FireNow, runner callbacks (in any order, any number of stale ones) and destruction, also from inside a task",
 "Stale callbacks of earlier starts and restarts from within the task are histories which tests barely touch.",
 ["timer/one_shot_timer.cc", "timer/one_shot_timer.h"], [("task id and weak self pointer", "timer/one_shot_timer.cc")],
 state=[("task_id_", "identifies the latest start", "timer/one_shot_timer.h")], observe=["task runs", "IsRunning()"])

prop("C27", "The logger emits exactly the enabled messages in the documented form",
 "A message is passed to the sink exactly once, as [LEVEL:file(line)] message, if its level is at least the logger's level, and not at all otherwise. A fatal message that is emitted is emitted before the process aborts, other levels never abort; in checked builds logging without a global logger or with a non-positive line ends in an assertion failure, and so does an enabled message whose level is not a message level.",
 ["inputs", "configurations"], "every level, threshold, file name, line and message",
 "All level and threshold pairs with arbitrary texts (braces included) exceed the sampled cases.",
 ["logger/logger.cc", "logger/logger.h", "strings/format.cc"], [("filter, format, dispatch", "logger/logger.cc Logger::Log")],
 observe=["Sink::Log calls", "abort"])

prop("C28", "File sinks write each message as one complete flushed line",
 "Each Log call on a file sink appends exactly the message's bytes, whatever they are, followed by one newline, as one unit that calls from other threads do not split, and flushes it before returning. A write or flush failure aborts the process; an owned stream is closed exactly once and a borrowed one never.",
 ["inputs", "schedules", "fault_sequences"], "every message, every interleaving of loggers, every failing write or flush",
 "Embedded NUL bytes, interleaved writers and failing disks are outside the tests.",
 ["logger/file_name_sink.cc", "logger/file_ptr_sink.cc", "logger/file_name_sink.h", "logger/file_ptr_sink.h"],
 [("locked write and flush", "logger/file_ptr_sink.cc Log")], observe=["stream content", "fclose calls"])

prop("C29", "Error types are recognised along their inheritance chain only",
 "IsA<T>() and dyn_cast<T>() on an error succeed exactly when T is the dynamic type of the error or one of its declared ancestors, and dyn_cast then yields that same object; otherwise it yields null. Every error class has its own identity.",
 ["programs", "inputs"], "every hierarchy of error classes and every pair of dynamic type and target type",
 "Tests use one chain; sibling and deeper chains, and identity clashes, need every pair.",
 ["rtti/rtti.h", "status/status.h", "status/status.cc"], [("class id chain", "status/status.h ErrorInfo::IsA")],
 observe=["IsA", "dyn_cast"])

prop("C30", "Deferred actions, taken functions and NoDestructor run as specified",
 "An RST_DEFER action runs exactly once, at the end of its scope on every exit path and in reverse order of declaration. TakeFunction returns the callable and leaves the source empty, and NoDestructor constructs its object once from the given arguments, gives access to that object, and never destroys it.",
 ["programs", "histories"], "every exit path, every callable and every payload type",
 "Tests run straight-line scopes; early returns, nesting and payload lifetimes are left out.",
 ["defer/defer.h", "stl/function.h", "no_destructor/no_destructor.h"], [("destructor-run action", "defer/defer.h"), ("explicit reset", "stl/function.h"), ("aligned storage", "no_destructor/no_destructor.h")],
 observe=["calls and lifetimes of the payload"])

prop("C31", "Strong types, reversed ranges and container helpers add no behaviour",
 "rst::Type keeps and compares exactly its underlying value (all six comparisons, conversion and hash), Reversed visits the same elements back to front, the container algorithms act on the whole container as their std counterparts, and the vector builder yields the given elements once each in order. StringResizeUninitialized leaves the string with the requested size and its old prefix intact.",
 ["inputs"], "every underlying value, container content and size",
 "Comparison operators and ranges are sampled at one or two values.",
 ["type/type.h", "stl/reversed.h", "stl/algorithm.h", "stl/vector_builder.h", "stl/resize_uninitialized.h"],
 [("forwarding members", "type/type.h")], observe=["operators", "iteration order", "container content"])

prop("C32", "Checks abort exactly when their condition is false",
 "RST_CHECK evaluates its condition once and aborts exactly when it is false, in every build; RST_DCHECK does so in checked builds and evaluates nothing in unchecked ones. The branch-hint macros never change the value of the boolean or integer expression they wrap.",
 ["inputs", "configurations"], "every condition value, both build modes",
 "Tests use boolean literals; non-boolean conditions and the unchecked configuration of other modules stay open.",
 ["check/check.h", "macros/optimization.h", "macros/macros.h"], [("macro expansion", "check/check.h")], observe=["abort", "side effects of the condition"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
