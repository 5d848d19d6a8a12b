# Properties, in order. `na=` marks one this family (static analysis) does not decide here.
AI = "path-sensitive typestate dataflow over go/ssa (disjunctive abstract interpretation, inlined call graph)"

p("C01", "Every stream handed out is closed exactly once, after its last element",
  "Every stream that an xstream constructor or operation hands out (including the inner streams it emits and the copies it makes) is closed exactly once, after its last element was sent, so its consumer always terminates. This also holds when a user callback run by the operation in the background panics: the panicking callback may lose its own element, but never leaves the output open, closes it twice, or sends on it after closing.",
  ["schedules", "inputs", "fault_sequences"], "for every operation, every upstream content, every interleaving of its goroutines, and a panic at any background callback invocation",
  "The tests drain a handful of finite streams under one schedule with callbacks that never panic; a missing close on a rarely taken path or a close that races a worker's send is not reached.",
  ["xstream/xstream.go", "xstream/ring.go"],
  [("producer goroutine closes its own output channel", "xstream/xstream.go: Of, From, Distinct, Buffer, Split, SplitSteam, Tail, Skip, Limit, Group, Merge, Peek, Copy"), ("worker join before close", "xstream/xstream.go: Walk, Concat")],
  technique=AI + ": channel close/send typestate with fork-join (WaitGroup) obligations",
  note="Decides the close obligation on every path of the source of every exported operation. Assumes user callbacks return or panic (no Goexit) and that the ants pool runs every submitted task and recovers its panics.")

p("C02", "Stream operations never strand their upstream",
  "Whatever an xstream operation's argument and result, once it has been invoked the stream it was invoked on (and every stream passed to it) is consumed to the end: by the operation itself, by a background drain after an early result, or by being handed on to the caller. An argument that is rejected with a panic drains the upstream as well; only a panicking user callback is exempt.",
  ["schedules", "inputs"], "for every operation, argument value and upstream content",
  "goleak in the tests only sees the few argument values and already buffered upstreams tried; an undrained upstream shows only with an unbuffered producer that still has elements.",
  ["xstream/xstream.go", "xstream/collection.go"],
  [("range over the source until it is closed", "xstream/xstream.go: all operations"), ("drain in the background after an early exit", "xstream/xstream.go: drain, AnyMach, AllMach, FindFirst, Tail, Skip, Limit")],
  technique=AI + ": upstream-exhaustion obligation on every exit",
  note="Decides that every non-callback-panic path to an exit reaches the end of the upstream, spawns a task that does, or returns the stream itself. Assumes a consumer reads the output.")

p("C03", "Element-wise stream operations lose, duplicate and invent no element",
  "Buffer, Peek, Concat, Copy, Map, FlatMap, Filter, Walk, Distinct, Foreach, ForeachOrdered, ParallelFinish, Merge, Group, GroupBy(...).Map, Sort and Reverse treat every upstream element exactly once: it (or its image under the callback) is emitted or delivered once per output, iff the predicate accepts it (Filter) or its key was not seen before (Distinct), and nothing else is emitted. The callback is invoked exactly once per element.",
  ["inputs", "schedules"], "for every stream content, callback and worker count",
  "Tests compare a few short lists; a path that skips or repeats an element for particular values, positions or worker interleavings is not reached.",
  ["xstream/xstream.go", "xstream/collection.go"],
  [("one send per received element on each loop path", "xstream/xstream.go"), ("per-item worker task", "xstream/xstream.go: Walk")],
  technique=AI + ": per-element event counting with element provenance",
  note="Decides multiplicity and provenance of elements, not the order produced by Sort or Reverse. Assumes callbacks do not panic and equal keys compare equal.")

p("C04", "Parallel stream stages respect their worker limit and join their workers",
  "Walk and the operations built on it (Map, FlatMap, Filter, ParallelFinish) never run more callbacks at once than the configured work size (one when unset or not positive). Each worker slot is taken before a task starts and given back exactly once after the task's callback has finished or panicked, so a panicking callback never shrinks the pool, and every task ends before the result stream ends.",
  ["schedules", "inputs", "fault_sequences"], "for every work size, interleaving and panicking callback",
  "Tests never observe the number of simultaneously running callbacks and never let one panic.",
  ["xstream/xstream.go", "xstream/option.go"],
  [("token channel of capacity workSize", "xstream/xstream.go: Walk"), ("work size defaulting", "xstream/option.go: loadOptions")],
  technique=AI + ": semaphore acquire/release pairing and capacity provenance",
  note="Decides token discipline and capacity on every path; trusts channel semantics and the ants pool.")

p("C05", "Terminal stream operations return what the elements say",
  "AnyMach returns true iff the predicate accepts some element and AllMach returns false iff it rejects some element (the predicate being asked in stream order until decided); FindFirst and FindLast return the first and last element; FindFirst and FindLast report ErrNoElement iff the stream is empty; Count returns the number of elements.",
  ["inputs"], "for every stream content and predicate",
  "Tests use three or four fixed lists; nil elements, early or late matches and empty streams multiply beyond them.",
  ["xstream/xstream.go"],
  [("scan loops", "xstream/xstream.go: AnyMach, AllMach, FindFirst, FindLast, Count")],
  technique=AI + ": quantifier-scan rule with linear counters",
  note="Decides each return value against the events on its path. Assumes pure, non-panicking predicates.")

p("C06", "Limit, Skip and Split cut the stream at exactly the requested position",
  "Limit(n) emits exactly the first n elements (all when there are fewer) and ends its output as soon as the n-th has been sent; Skip(n) emits exactly the elements after the first n; Split(n) groups consecutive elements into non-empty chunks of exactly n, with only the last one allowed to be shorter, every element in one chunk and no chunk modified after it was emitted. Out-of-range arguments are rejected by panicking.",
  ["inputs"], "for every n and every stream length",
  "Tests try a few n on four-element streams.",
  ["xstream/xstream.go"],
  [("counting loop", "xstream/xstream.go: Limit, Skip, Split")],
  technique=AI + " with a linear-inequality (polyhedra) counter domain",
  note="Decides the counting relation with ghost counters (received, sent, chunk length) for all n. Integers are mathematical (no wrap-around of element counts).")

p("C07", "Task execution: outcome, cleanup and panics are reported faithfully",
  "xtask.Do (and its timeout and no-cleanup variants) runs the given cleanup exactly once on every outcome before the call ends; it never starts the task when the context is already done and starts it at most once otherwise; it returns the task's own error when it finished and the context's error when the context ended first; and a panic of the task is re-raised in the caller.",
  ["schedules", "inputs", "fault_sequences"], "for every task result, task panic, and moment of cancellation",
  "Tests sample one timing per outcome; the cleanup count is never asserted.",
  ["xtask/do.go"],
  [("deferred cleanup", "xtask/do.go: Do"), ("result and panic channels", "xtask/do.go: Do")],
  technique=AI + ": exactly-once and must-pass rules on every exit, including panic exits",
  note="Assumes the task returns or panics with a non-nil value (no runtime.Goexit).")

p("C08", "Abandoned tasks never block forever and timers are released",
  "When xtask.Do returns because its context ended, the goroutine still running the task can always finish: delivering its result or panic never blocks, even though nobody is receiving any more. DoWithTimeout applies exactly the requested timeout and releases its timer on every exit.",
  ["schedules", "fault_sequences"], "for every interleaving of completion, panic and cancellation",
  "A leaked goroutine is invisible to the assertions in the tests.",
  ["xtask/do.go"],
  [("buffered hand-over channels", "xtask/do.go: Do"), ("deferred cancel", "xtask/do.go: DoWithTimeout")],
  technique=AI + ": bounded sends versus channel capacity on every path of the spawned goroutine",
  note="Decides that the number of sends per channel on any goroutine path is within its buffer, or that the send is selectable with the context's end.")

p("C09", "Retry stops at the first success and reports every failure",
  "DoWithRetry calls the function until its first success, at least once and at most retries+1 times (3 retries by default, none for a negative count), returns nil for a success, and returns nil only then; otherwise the returned error covers the error of every failed attempt.",
  ["inputs", "histories"], "for every retry count (including zero and negative) and every success/failure history of the function",
  "Tests try four histories with positive retry counts.",
  ["xtask/retry.go", "xerror/err.go"],
  [("attempt loop", "xtask/retry.go: DoWithRetry")],
  technique=AI + " with a linear-inequality counter domain",
  note="Decides call counts symbolically in the retry count and the nil/non-nil outcome on every path.")

p("C10", "Workers bound concurrency and always give their slot back",
  "A Worker of size n accepts a task only while fewer than n accepted tasks hold a slot. Every accepted task gives its slot back exactly once, after its completion callback ran exactly once, whether the task finished, panicked or its context ended; the task is run at most once, under the context given with it.",
  ["schedules", "fault_sequences"], "for every interleaving of submissions, completions, panics and cancellations",
  "The tests never measure concurrency nor make a task fail.",
  ["xworker/xworker.go", "xtask/do.go"],
  [("slot channel", "xworker/xworker.go: Worker.c"), ("release in cleanup", "xworker/xworker.go: Run")],
  technique=AI + ": slot acquire/release pairing across the goroutine boundary",
  note="The slot is tied to the task's context by design: when the context ends while the task still runs, the slot is returned then.")

p("C11", "Map/reduce maps each generated element once and closes after the mappers",
  "xmapreduce.Map hands every element taken from the generator to the map function exactly once unless the context has ended, with at most the configured number of mappers holding a worker slot. The generator's channel is closed when it ends, and the result channel is closed exactly once on every path, only after every started mapper was waited for.",
  ["schedules", "inputs"], "for every generator output, worker count, interleaving and cancellation point",
  "Tests run one worker and sleep a second around cancellation.",
  ["xmapreduce/xmapreduce.go", "xworker/xworker.go", "xbarrier/writebarrier.go"],
  [("WaitGroup join before close", "xmapreduce/xmapreduce.go: doMap"), ("deferred close of the source", "xmapreduce/xmapreduce.go: buildSource")],
  technique=AI + ": close typestate, fork-join and per-element counting",
  note="'Waited for' means its completion callback ran; a mapper that outlives the end of the context is detached by xtask.Do.")

p("C12", "Barriers never transfer after the context ended and never hang past it",
  "Once a barrier's context has ended, Read and Write report failure without touching the channel, and a Read or Write that is blocked when the context ends returns promptly. Success is reported iff a value was actually transferred: exactly one value per successful call, the one given or received.",
  ["schedules"], "for every interleaving of reads, writes and cancellation",
  "Tests only cancel while no operation is blocked.",
  ["xbarrier/readbarrier.go", "xbarrier/writebarrier.go"],
  [("select on context and channel", "xbarrier/*.go")],
  technique=AI + ": guarded blocking operations and result/transfer agreement",
  note="Decides that every blocking channel operation is selectable with the context's end, is preceded by a context check, and that the result tells whether the transfer happened. A closed input channel counts as readable or as failure.")

p("C13", "Write-once cells accept exactly one write",
  "Of any number of Write calls on a write-once cell exactly one reports success, the cell then holds exactly that call's value for ever, and every other Write reports false without blocking, panicking or changing it, whatever the dynamic types of the values. The channel variant delivers that value exactly once and is then closed.",
  ["schedules", "inputs", "histories"], "for every interleaving of writers and every combination of values, including nil and mixed types",
  "Tests write ints from many goroutines; mixed types and nil are never tried.",
  ["xonce/chan.go", "xonce/value.go"],
  [("single compare-and-swap gate", "xonce/chan.go: Write; xonce/value.go: Write")],
  technique=AI + ": compare-and-swap gate rule and uniform-dynamic-type rule for atomic.Value",
  note="Decides that success is exactly the outcome of one atomic gate that can succeed once. Trusts sync/atomic.")

p("C14", "The spin lock is a lock",
  "At most one holder exists at a time: TryLock reports true and Lock returns only after atomically moving the lock from free to held, Lock keeps retrying with a bounded back-off until it succeeds, and only Unlock frees the lock. The lock word is only ever accessed atomically.",
  ["schedules"], "for every interleaving of Lock, TryLock and Unlock",
  "Tests run two goroutines.",
  ["xsync/spinlock.go"],
  [("compare-and-swap 0 to 1", "xsync/spinlock.go: TryLock"), ("back-off loop", "xsync/spinlock.go: Lock")],
  technique=AI + ": must-pass-through successful CAS, atomic-only field, interval bound on back-off",
  note="Trusts sync/atomic; fairness is not claimed.")

p("C15", "No lock survives the call that took it",
  "Every mutex taken inside any operation of the library is released on every exit of that operation, including an exit by a panic of a user-supplied function (compute functions, resource constructors and closers, range callbacks), and no lock is released twice or released without being held. A panicking user function therefore never leaves a container unusable.",
  ["inputs", "fault_sequences", "schedules"], "for every operation of Map, SharedMap, ResourceManager and Ring, every path, and a panic at every user callback",
  "No test makes a user function panic inside a locked section.",
  ["xsync/map.go", "xsync/resourcemanager.go", "xring/xring.go"],
  [("lock/unlock pairing", "xsync/map.go, xsync/resourcemanager.go, xring/xring.go")],
  technique=AI + ": lock typestate on every normal and panic exit of every exported function",
  note="Explores a panic edge at every call of a user-supplied function or interface method. Runtime panics inside library code are the subject of other properties.")

p("C16", "Concurrent map: no unsynchronised access to shared state",
  "Any mix of concurrent operations on one Map (Load, Store, LoadOrStore, LoadAndDelete, Delete, Range, Clear, ComputeIfAbsent, ComputeIfPresent) is free of data races: the snapshot read without the lock is never modified once it has been published and is only ever replaced atomically with the lock held, the write-side map and miss counter are touched only with the lock held, and entry values are only read and replaced atomically.",
  ["schedules"], "for every interleaving of map operations",
  "The race detector only sees the schedules and operation pairs the tests happen to run; Clear is never run concurrently.",
  ["xsync/map.go"],
  [("mutex over dirty map and counter", "xsync/map.go: Map"), ("immutable read snapshot in atomic.Value", "xsync/map.go: Map.read"), ("atomic entry pointer", "xsync/map.go: entry.p")],
  technique=AI + ": lockset, publication-immutability and atomic-only field rules",
  note="Guard table confirmed by reading; fields are identified by their types, so renames and extracted helpers do not matter.")

p("C17", "Concurrent map: every update is atomic on its key",
  "Each update of a key takes effect atomically against concurrent updates of that key: a computed value is stored only if the value it was computed from is still the current one (otherwise it is recomputed), absent-only operations never overwrite a present value, LoadAndDelete removes exactly the value it returns, and each operation's result tells what really happened (the value found, or the value it stored itself). A compute function is called only for a key in the state its contract names.",
  ["schedules"], "for every interleaving of updates on a key",
  "A lost update needs a store between the read and the swap of a compute; no test runs that interleaving.",
  ["xsync/map.go"],
  [("compare-and-swap on the entry pointer", "xsync/map.go: tryStore, tryLoadOrStore, tryComputeIfAbsent, tryComputeIfPresent, delete")],
  technique=AI + ": CAS provenance (new value derived from the expected old value) and result/linearisation-event agreement",
  note="Decides per-entry atomicity and result agreement; not the linearizability of whole histories.")

p("C18", "Concurrent map: no key is lost or revived by internal reorganisation",
  "A completed store of a key stays visible until that key is deleted or the map is cleared, and a deleted key stays absent until stored again, however the map moves keys between its read-only snapshot and its write-side map: every live key is carried over, new keys are inserted only where later lookups look, decisions taken before acquiring the lock are re-validated under it, and an entry that has been dropped from the write side is never stored into without being re-linked first.",
  ["schedules", "histories"], "for every history of operations and every promotion, copy and deletion point",
  "Promotion, expunging and re-linking depend on miss counts and on races the tests reach only by luck.",
  ["xsync/map.go"],
  [("expunged marker protocol", "xsync/map.go: unexpungeLocked, tryExpungeLocked, tryStore"), ("promotion", "xsync/map.go: missLocked, Range"), ("copy of live entries", "xsync/map.go: dirtyLocked"), ("double check under the lock", "xsync/map.go")],
  technique=AI + ": protocol rules (re-link before unlock, double-check, complete copy, promote-and-reset) as inductive lock invariants",
  note="Decides the inductive invariants that make the two-map design correct, at every unlock on every path; not the linearizability of whole histories.")

p("C19", "Sharded map: a key always lives in one in-range shard",
  "Every keyed operation of SharedMap sends a given key to the same shard, the shard is always in range for every configured shard count, and the number of shards is a power of two not below the requested count (a count that cannot be honoured is rejected when the map is built). Range and Clear visit every shard, MStore stores every pair, and each operation forwards its key, value and result unchanged.",
  ["inputs", "configurations"], "for every key and every configured shard count",
  "Tests use the default and one other count and keys built from small integers.",
  ["xsync/shared_map.go"],
  [("mask of a pure hash", "xsync/shared_map.go: GetShard"), ("power-of-two rounding", "xsync/shared_map.go: getShardBlockSize")],
  technique="value-numbering agreement of the shard index across sibling operations, purity analysis of the hash, known-bits analysis of the rounding, full-range loop rule",
  note="Decides index agreement and range for all keys and counts; hash quality is not claimed.")

p("C20", "Resource manager: one live resource per key, all closed, all errors reported",
  "Concurrent Get calls for a key create at most one resource and all return the one that is registered; a failed creation registers nothing and reports its error; no lock is held while a resource is created. Close closes every registered resource exactly once even if some fail and reports every failure; a resource whose creation overlaps Close is not left behind unclosed and does not crash the manager. Remove reports whether the key was registered and unregisters it.",
  ["schedules", "fault_sequences", "inputs"], "for every interleaving of Get, Remove and Close and every failing constructor or closer",
  "Tests are sequential; a Close during a creation is never tried.",
  ["xsync/resourcemanager.go"],
  [("single flight per key", "xsync/resourcemanager.go: Get"), ("guarded registry", "xsync/resourcemanager.go: resources"), ("error batch", "xsync/resourcemanager.go: Close")],
  technique=AI + ": single-flight section rule, registry lock discipline, close-all loop rule",
  note="Trusts golang.org/x/sync/singleflight.")

p("C21", "Byte pool: buffers have the promised size and one owner",
  "Malloc(size, capacity) returns a buffer of length size whose capacity is at least max(size, capacity) for every pool history, because a freed buffer only ever goes to the pool of its own capacity; a buffer that has been handed out is not in the pool until it is freed. All callers asking for one capacity share one pool.",
  ["inputs", "histories", "schedules"], "for every size, capacity and history of Malloc and Free",
  "Tests free buffers into the pool they came from and check two sizes.",
  ["xbytes/pool.go"],
  [("pool per capacity", "xbytes/pool.go: getOrCreatePool, Malloc, Free")],
  technique=AI + ": pool-key/capacity invariant with linear inequalities",
  note="Decides the class invariant 'every slice in the pool of c has capacity c' at every Put, New and Get. Buffer contents are not promised to be zero.")

p("C22", "Pooled scratch buffers are never used after being given back",
  "In the binary codec, a buffer obtained from the byte pool is given back at most once on every path, is never read, written, passed on or returned after it was given back, and a buffer returned to the caller is never given back by the codec.",
  ["inputs", "fault_sequences"], "for every reader/writer behaviour (short, failing, panicking) and every path",
  "A buffer used after release shows only under concurrent load with unlucky reuse.",
  ["xbinary/xbinary.go"],
  [("Malloc/Free pairing", "xbinary/xbinary.go")],
  technique=AI + ": ownership typestate (live, freed, escaped)",
  note="A leaked buffer (never given back) is harmless and not reported.")

p("C23", "Binary codec: readers decode exactly what writers encode",
  "For every value, what WriteUint16, WriteUint32 and WriteBool put on the wire is decoded to the same value by the matching reader, in big-endian order; WriteBytes is followed on the wire by exactly the bytes given, after a 16-bit length that equals their number (longer slices are rejected rather than truncated), which is what ReadBytes consumes.",
  ["inputs"], "for every 16/32-bit value, boolean and byte slice",
  "Tests encode the number 1; all other bit patterns and lengths, in particular above 65535, are untested.",
  ["xbinary/xbinary.go"],
  [("byte lanes", "xbinary/xbinary.go: WriteUint16, ReadUint16, WriteUint32, ReadUint32, WriteBool, ReadBool"), ("length prefix", "xbinary/xbinary.go: WriteBytes, ReadBytes")],
  technique="bit-provenance dataflow (each wire bit traced to its source bit) with linear guards",
  note="The bit-lane domain is exact for shifts, masks, ors and conversions by constants.")

p("C24", "Binary codec: success means complete, errors are never swallowed",
  "A read function reports success only if every byte of the value was read in that call, however the reader chunks its data; otherwise it returns an error and no value. A write function returns the writer's error whenever a write failed and writes nothing further after a failure.",
  ["inputs", "fault_sequences"], "for every reader/writer chunking and failure point",
  "Tests use in-memory readers that always deliver everything at once.",
  ["xbinary/xbinary.go"],
  [("length checks after reads", "xbinary/xbinary.go"), ("error propagation", "xbinary/xbinary.go")],
  technique=AI + ": full-read-before-success and error-propagation rules with linear facts about byte counts",
  note="Trusts the io.Reader/io.Writer contracts and io.ReadFull.")

p("C25", "Pooled bufio objects are bound to their new stream, detached when idle",
  "A pooled reader or writer handed out is bound to exactly the stream given with the call and carries nothing over from its previous use, provides at least the buffer size asked for, and has left the pool; one that is given back is detached from its stream before it becomes available to others, so no pooled object keeps or leaks a previous user's stream or data.",
  ["histories", "inputs", "schedules"], "for every history of gets and puts and every requested size",
  "Tests use one size per pool and never look at reused contents.",
  ["xio/buffer.go"],
  [("Reset on get and on put", "xio/buffer.go")],
  technique=AI + ": reset-before-publish ownership rules and size facts",
  note="Trusts bufio.Reset and sync.Pool.")

p("C26", "Batch errors keep every error and nil stays nil",
  "A batch without added non-nil errors yields a nil error and NotNil false; with exactly one it yields that very error; with more it yields an error whose text contains every added error's text, in order, one per line. Adding nil changes nothing and no added error is ever dropped.",
  ["inputs", "histories"], "for every sequence of Add calls",
  "Tests add at most two errors.",
  ["xerror/err.go", "xstring/stringjoiner.go"],
  [("append of non-nil errors", "xerror/err.go: Add"), ("case split on count", "xerror/err.go: Err")],
  technique=AI + ": linear length facts and full-range loop rule",
  note="Batches are not claimed to be safe for concurrent use.")

p("C27", "Ring: bounded, consistent and isolated snapshots",
  "A Ring of size n never holds more than n items and Take returns exactly the last min(n, number of Adds) items, oldest first, for every history, without any out-of-range access; the snapshot it returns is a fresh slice that later Adds do not change and whose modification does not change the ring. Every access to ring state happens under its lock, exclusively when writing, and a size below one is rejected.",
  ["histories", "schedules", "inputs"], "for every size, every history of Add and Take, and every interleaving",
  "Tests run nine Adds on one goroutine.",
  ["xring/xring.go"],
  [("modular index", "xring/xring.go: Add, Take"), ("RWMutex", "xring/xring.go: Ring.lock")],
  technique=AI + " with a linear-inequality domain over a most-general client; lockset rule; escape rule",
  note="Number of items, bounds, isolation and locking: every size and history. Which items come back and in which order: each size from 1 to 6 (16 in the thorough check), any number of laps. Assumes fewer than 2^63 Adds.")

p("C28", "Max and Min return the exact extreme for every pair",
  "MaxInt, MinInt, MaxInt64 and MinInt64 return exactly the larger/smaller of their arguments for all values, including those a float64 cannot represent; the float variants agree with math.Max and math.Min: NaN if either argument is NaN, unless the other one is the infinity that dominates, and -0 ordered below +0.",
  ["inputs"], "for every pair of arguments",
  "Tests use pairs of one-digit numbers.",
  ["xmath/xmath.go"],
  [("comparison", "xmath/xmath.go")],
  technique="ordering-domain evaluation: finite case split over argument orderings and float classes, with exact-conversion checks",
  note="Exact: the functions touch their arguments only through comparisons and lossless conversions, so the finite set of orderings is complete.")

p("C29", "String helpers never panic",
  "No xstring function other than the explicitly panicking MustReverse panics on any input: every index, slice bound, divisor, capacity request and pointer it uses is in range for every string (including empty, multi-byte and invalid UTF-8) and every integer argument, negative or beyond the string's length. A Joiner never panics except for a negative Grow.",
  ["inputs"], "for every string and integer argument",
  "Table tests try a few in-range positions; boundary combinations of offsets and lengths are unbounded.",
  ["xstring/xstring.go", "xstring/stringjoiner.go"],
  [("clamping and length guards", "xstring/xstring.go: sub, RegionMatches, Abbreviate, IndexOfDifference, CommonPrefix, Rotate, PadCenterChar")],
  technique="abstract interpretation with a linear-inequality (polyhedra) domain over lengths and indices",
  note="Every potentially panicking instruction reachable from the exported API is an obligation. Out-of-memory for absurd sizes and integer wrap-around of sums of lengths are excluded.")

p("C30", "Character-class and membership predicates quantify over every element",
  "IsAlpha, IsNumeric and IsAlphanumeric are true iff the string is non-empty and every code point is a letter, a digit, or either; IsBlank iff every code point is white space; IsAnyEmpty and IsAnyBlank iff some string is (or none was given); EqualsAny, ContainsAnySubstrings and EndsWithAny iff some candidate equals, is contained in, or ends the string; and every negated or DefaultIf form agrees with its positive form.",
  ["inputs"], "for every string and argument list",
  "Table tests use short ASCII and a few CJK strings.",
  ["xstring/xstring.go"],
  [("scan loops", "xstring/xstring.go: IsAlpha, IsAlphanumeric, IsNumeric, IsBlank, IsAnyEmpty, IsAnyBlank, EqualsAny, ContainsAnySubstrings, EndsWithAny")],
  technique=AI + ": quantifier-scan rule (every element visited, verdict justified by its predicate facts)",
  note="Character classes are those of package unicode; containment and suffix tests are those of package strings or the library's own EndsWith.")

p("C31", "Character filters keep exactly the characters they should",
  "RemoveChar and DeleteWhitespace return the code points of their input, in order and each exactly once, except precisely those equal to the removed character, respectively those that are white space; when nothing has to be removed the content of valid UTF-8 is unchanged (a byte that is not valid UTF-8 counts as U+FFFD).",
  ["inputs"], "for every string and character",
  "Tests use ASCII, where byte and character counts coincide.",
  ["xstring/xstring.go"],
  [("filtering loop", "xstring/xstring.go: RemoveChar, DeleteWhitespace")],
  technique=AI + ": filtering-scan rule (emitted exactly when kept) with linear length facts",
  note="Invalid UTF-8 bytes are treated as U+FFFD, as by range.")

p("C32", "Joiner puts the delimiter exactly between consecutive elements",
  "For every sequence of Write, WriteString, WriteByte, WriteRune, Grow, Len, Cap, String and Reset calls on a Joiner, the delimiter is written exactly once before every element except the first since creation or the last Reset; String is prefix, accumulated content, suffix, and Len is the length of that string. Len, Cap, Grow and String never change the content.",
  ["histories", "inputs"], "for every call sequence and every prefix, delimiter, suffix and element, including empty ones",
  "Tests never write after Grow or Reset with a delimiter set.",
  ["xstring/stringjoiner.go"],
  [("tryWriteStep", "xstring/stringjoiner.go")],
  technique=AI + " over a most-general client: delimiter typestate",
  note="Explores all method sequences over the abstract joiner state to a fixpoint.")

p("C33", "Zero-copy conversions never let a string change",
  "No string that a caller passed in or received ever changes: bytes obtained from a string without copying are only read inside the library and never handed out, and a byte slice turned into a string without copying is not written afterwards and no other reference to it is kept or handed out.",
  ["inputs", "programs"], "for every call of the library",
  "A violated string immutability shows only when the aliased memory is written later, possibly by other code.",
  ["internal/hack/xstring.go", "xstring/xstring.go"],
  [("unsafe conversions", "internal/hack/xstring.go"), ("their uses", "xstring/xstring.go: Reverse")],
  technique="interprocedural alias/ownership dataflow on the results of the unsafe conversions, plus who-may-use-unsafe",
  note="Covers every use of unsafe and of the conversions in the module.")

p("C34", "The library builds for every Go platform",
  "Every package compiles for every first-class and common Go target, 32-bit as well as 64-bit: no constant, conversion or dependency on a platform's integer size or build constraint prevents it, and 64-bit atomic operations are only applied to fields that are aligned on 32-bit targets.",
  ["configurations"], "for every supported GOOS/GOARCH pair",
  "The tests run on one platform.",
  ["xstring/xstring.go", "xsync/map.go"],
  [("plain Go sources", "all packages")],
  technique="type-checking of every package under each target's sizes and build constraints; 64-bit atomic alignment rule",
  note="Decided by the Go type checker over each target's file set.")

p("C35", "The whole-history linearizability of Map",
  "Every concurrent history of Map operations is linearizable to a sequential map, with Range weakly consistent.",
  ["schedules", "histories"], "for every history", "Unbounded histories.",
  ["xsync/map.go"], [("two-map design", "xsync/map.go")],
  na="Linearizability of whole histories quantifies over unbounded interleavings of runtime values; no sound static argument in reach decides it. Its structural necessary conditions are claimed as C16, C17 and C18.")

p("C36", "Substring, rotate, reverse, abbreviate and difference results",
  "Sub/Left/Right, Rotate, Reverse, Shuffle, Abbreviate, Difference, CommonPrefix, padding and the case-insensitive comparisons return the string their documentation defines.",
  ["inputs"], "for every string and argument", "Tests sample inputs.",
  ["xstring/xstring.go"], [("string algorithms", "xstring/xstring.go")],
  na="These are equalities between computed string contents (numerical/positional results); the shape of the code does not decide them. Their panic-freedom is claimed as C29.")

p("C37", "Elements come out in the order each operation promises",
  "Sort emits its elements in non-decreasing order (never an element before one that is less). Reverse emits, and ForeachOrdered visits, the elements in exactly reversed order. Tail(n) emits exactly the last n elements (all if there are fewer), oldest first. Of, Buffer, Peek, Distinct, Limit, Skip, Split, SplitSteam, Merge, Copy (each copy), Foreach and, for each of its streams, Concat keep the order in which their elements came, on the output and inside the emitted chunks.",
  ["inputs", "schedules", "histories"], "for every content, length and less function; every n up to a bound for Tail",
  "Tests sample one or two short lists per operation; lengths of other parity, streams that go round a ring several times, slow consumers and concurrent deliveries are not among them.",
  ["xstream/xstream.go", "xstream/ring.go"],
  [("sort.Slice call and comparison", "xstream/xstream.go: Sort"), ("swap loop", "xstream/xstream.go: Reverse"), ("modular index", "xstream/ring.go: add, take"), ("forwarding loops", "xstream/xstream.go: Buffer, Peek, Distinct, Copy, Concat, Split, Merge")],
  technique=AI + ": one or two arbitrary elements tracked through arrays and channels, positions as linear relations",
  note="Two arbitrary elements decide every pairwise order, one arbitrary element its position. Tail: every n from 1 to 6 (16 in the thorough check), streams of any length. Parallel stages (Walk, Map, Filter, FlatMap) promise no order. Trusts package sort to sort by the comparison it is given.")

# What the interleaving checks really do.
IL = "exhaustive abstract exploration of interleavings over go/ssa (threads stepped at shared accesses, states canonicalised and merged to a fixpoint)"
def amend(i, **kw):
    for q in P:
        if q["id"] == i:
            q.update(kw)
            return
    raise KeyError(i)
amend("C13", technique=IL + ", with a write-once monitor", note="All interleavings of three concurrent writers and a reader, each with arbitrary values (nil, same and differing dynamic types). Trusts sync/atomic.")
amend("C14", technique=IL + ", with a mutual-exclusion monitor and a progress rule", note="All interleavings of up to three threads that lock, try and unlock without limit (states merge, so the number of rounds is unbounded). Trusts sync/atomic; fairness is not claimed.")
amend("C16", statement="Any mix of concurrent operations on one Map (Load, Store, LoadOrStore, LoadAndDelete, Delete, Range, Clear, ComputeIfAbsent, ComputeIfPresent) is free of data races: no two operations access the same memory at the same time, one of them writing it, unless both accesses are atomic, the memory being the map's own fields, its internal maps and its entries. In particular a snapshot that is read without the lock is never modified once it has been published.",
  technique=IL + ", with a happens-before race detector", note="Pairs and selected triples of operations from every small start shape (key in the snapshot, in the write side, deleted, expunged; promotion due or not), each followed through every interleaving.")
amend("C17", technique=IL + ", with a per-key atomicity monitor", note="Each operation's result must be explained by one atomic step inside its interval on the state of its key, over all interleavings of pairs and selected triples of operations from every start shape. Whole histories are C35.")
amend("C18", technique=IL + ", with a per-key content monitor", note="As C17, with follow-up operations that read back what earlier ones stored across promotion, copying and deletion.")
amend("C19", technique="abstract interpretation with value numbering of pure functions (shard agreement), known-bits and linear bounds (shard count and index range)", note="Index agreement for all keys; range and rounding for all counts, one case per power of two. Hash quality is not claimed.")
amend("C20", statement="Concurrent Get calls for a key create at most one resource at a time and all return the one that is registered; a failed creation registers nothing and reports its error; a creation never holds up operations on other keys. Close closes every registered resource exactly once even if some fail and reports every failure; a resource whose creation overlaps Close is not left behind unclosed and does not crash the manager. Remove reports whether the key was registered and unregisters it.",
  technique=IL + ", with a resource-registry monitor", note="Trusts golang.org/x/sync/singleflight. A Get that joined a creation may return its result even if that resource was removed meanwhile.")
amend("C15", technique="lock typestate along every path: abstract exploration over go/ssa of all operation sequences and overlapping pairs, with a panic edge at every user function", note="A lock must be free when the operation that took it ends, normally or in a panic. All sequences of operations, and all pairs of overlapping operations after any sequence (the slow paths). A user function that leaves by runtime.Goexit is not considered.")

amend("C21",
  statement="Malloc(size, capacity) returns a buffer of length size whose capacity is at least max(size, capacity) for every pool history; a freed buffer is only ever handed out again to a caller asking for the capacity it has; a buffer that has been handed out is not in a pool, and is handed to nobody else, until it is freed. All callers asking for one capacity share one pool.",
  technique=AI + ": symbolic sizes and capacities over bounded histories and all interleavings of pairs of callers; sync.Pool as a bag that may forget",
  note="Histories of three operations (four in the thorough tier) on buffers of arbitrary size and capacity, own buffers included; two concurrent callers for a table of capacity pairs that coarser or truncated keys would confuse. xsync.Map is taken as a linearizable map (C15-C18 decide that), singleflight by its model. Buffer contents are not promised to be zero; negative sizes are outside (Malloc panics).")
amend("C25", technique=AI + ": bounded histories with a ghost stream, size and carried-over state per bufio object; ownership of pooled objects",
  note="Histories of three operations (readers and writers apart, mixed: two), thorough: four for writers, three mixed; every size and every stream (nil, plain, itself a bufio object, one from the pool), streams that leave data or errors behind; two concurrent users. bufio is a model (size, stream, carried state), sync.Pool a bag that may forget. Handing in nil or an object already given back is outside.")
amend("C22", technique=AI + ": ownership typestate (live, given back) of every buffer on every path",
  note="Readers and writers that chunk, fail and panic in every way the io contracts allow. Uses by indexing, slicing, copying, passing to the stream and returning are observed. A leaked buffer (never given back) is harmless and not reported. Does not follow what the stream itself does with the buffer after its call (io.Writer must not retain it).")
amend("C23", technique=AI + ": exact linear arithmetic over shared quotients (shifts, masks, ors and conversions are decompositions of the value), one arbitrary payload byte tracked",
  note="Every value, every slice and every chunking of the stream; a complete value delivered without an error before its end is always read. Booleans are judged by round trip.")
amend("C24", technique=AI + ": ghost byte counts of the stream, with linear relations through the read loops",
  note="Streams that chunk and fail in every way the io contracts allow (errors with and without data, empty reads). Trusts io.ReadFull and io.ReadAtLeast (modelled).")
amend("C29", technique=AI + ": every potentially panicking instruction is an obligation, with linear inequalities over lengths, indices and (wrapping) integers",
      note="Every exported function of the package is explored with arbitrary arguments; of an argument list one arbitrary element is tracked besides the others. Integer wrap-around is modelled. Non-termination and running out of memory are not considered; standard library functions without a model are assumed not to panic.")
amend("C30", statement="IsAlpha, IsNumeric and IsAlphanumeric are true iff the string is non-empty and every code point is a letter, a digit, or either; IsBlank iff every code point is white space (package unicode's classes); IsAnyEmpty and IsAnyBlank iff some string is (or none was given); EqualsAny, ContainsAnySubstrings and EndsWithAny iff some candidate equals, is contained in, or (for a non-empty string) ends the string; and every negated or DefaultIf form agrees with its positive form.",
      technique=AI + ": quantifier scan - the truth of the predicate (holds everywhere, or fails first at one arbitrary position) is part of the state, code points and list elements are delivered with their class, and every returned verdict has to agree",
      note="For strings and lists of any length; loops are explored to a fixpoint. Containment is strings.Contains, suffix is strings.HasSuffix or the library's own case-sensitive EndsWith, whose correctness is not part of this property.")
amend("C31", technique=AI + ": filtering scan - every delivered code point has to be written exactly when it is kept, in order; a returned input needs the fact that nothing had to go",
      note="For strings of any length; a byte that is not valid UTF-8 counts as U+FFFD, as when ranging.")
amend("C33", technique=AI + ": ownership of the memory behind strings - every use of unsafe in the module is modelled as an alias, a write to memory a string shares is flagged on every path",
      note="Covers every use of unsafe and of the conversions in the module. A string made from the caller's bytes is only flagged when it escapes; goroutines are not followed.")
