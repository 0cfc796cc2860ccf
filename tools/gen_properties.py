"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
S = "python/xoscar/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Object graphs survive serialization unchanged",
  "Any object graph of the supported Python types (scalars, strings and bytes of any length, nested lists, tuples, dicts, subclasses of them, sets, enums, exceptions, picklable instances, cyclic lists/dicts) deserializes to an equal graph of the same types with the same sharing: two list/dict/tuple positions hold the same object afterwards exactly when they held the same object before. This is the same for the plain, the thread-spawning and the stream (wire-format) serializer, with buffers handed back as bytes or memory views. Serializing never alters the object, and user-registered serializers are chosen for the types (or subclasses) they were registered for.",
  ["inputs"], "every object graph (shape, sharing, cycles, sizes around the inline/buffer and spawn thresholds), every way of driving the serializer",
  "The tests round-trip a dozen fixed objects; sharing between repeated, empty or cyclic nodes, threshold-sized payloads and mixed graphs are unbounded in number.",
  ["serialization/core.pyx", "serialization/aio.py", "serialization/exception.py"],
  [("id-ordered back references (placeholders)", "serialization/core.pyx"), ("spawned resume of the serializer stack", "serialization/core.pyx"), ("framed header + buffers", "serialization/aio.py")])

p("C02", "Arrays, tables and tensors survive serialization unchanged",
  "Any CPU numpy array (dtype, shape, memory layout, views, structured, object, masked, zero-size), sparse CSR matrix, pandas object, arrow table or torch tensor comes back from serialization with equal values, dtype, shape and type, alone or inside containers, in memory or over a stream. The original is not modified.",
  ["inputs"], "every dtype x shape x memory layout x value, alone or nested",
  "The tests use a few contiguous float/int arrays; views with odd strides, byte orders, sub-array dtypes and empty shapes are not reached.",
  ["serialization/numpy.py", "serialization/scipy.py", "serialization/torch.py", "serialization/core.pyx"],
  [("buffer + dtype description + strides", "serialization/numpy.py"), ("component arrays of CSR", "serialization/scipy.py"), ("tensor header + raw buffer", "serialization/torch.py")])

p("C03", "Protocol messages survive the wire with every field",
  "Every protocol message (control, result, error, create/destroy/has actor, actor reference, send, tell, cancel, both data-copy kinds, and forward wrapping any of them to any depth) arrives as the same kind of message with every field equal to what was sent. If only its payload cannot be reconstructed at the receiver, the failure still names that message's id, so that the waiting caller can be answered.",
  ["inputs"], "every message kind x field values x payload x nesting",
  "The tests round-trip two messages with small payloads.",
  ["backends/message.pyx", "serialization/core.pyx"],
  [("per-kind field tuples", "backends/message.pyx"), ("deserialization failure carries message id", "backends/message.pyx")])

p("C04", "Channels deliver every message once, in order and intact",
  "On every kind of channel (in-process, TCP, unix socket), each object sent is received exactly once, unmodified and in the order in which the sends were issued, in both directions at once, whatever the sizes of the payloads and however sends and receives overlap, also when several tasks send at the same time. The bytes of one message are never mixed with those of another.",
  ["inputs", "schedules"], "every sequence of payload sizes, every interleaving of concurrent sends and receives, every chunking of the byte stream",
  "The tests send a couple of small messages one at a time.",
  ["backends/communication/socket.py", "backends/communication/dummy.py", "backends/communication/utils.py", "serialization/aio.py"],
  [("per-channel send and receive locks", "backends/communication/socket.py"), ("coalescing write of small buffers, exact reads", "backends/communication/utils.py")])

p("C05", "A damaged or cut byte stream never becomes a message",
  "When the byte stream of a connection is cut at any offset, continues with bytes that are no message, or has a damaged frame header, the receiver gets all messages that arrived complete and then an end-of-stream or error, never a fabricated, truncated or altered message and, once the stream has ended, never an endless wait. A server keeps serving its other connections and accepts new ones after any garbage on one connection.",
  ["inputs", "fault_sequences"], "every cut point, every header corruption, every chunking of the bytes",
  "The tests never truncate or corrupt a stream.",
  ["serialization/aio.py", "backends/communication/socket.py", "backends/communication/utils.py", "backends/pool.py"],
  [("version byte and length checks", "serialization/aio.py"), ("exact reads", "backends/communication/utils.py"), ("per-connection error handling", "backends/pool.py")])

p("C06", "A stateful actor runs one method at a time",
  "In a stateful actor no two methods (plain, asynchronous, batched -- a batched call counts as one invocation -- or results still being produced by an asynchronous generator's own steps) are ever inside their bodies at the same time, except while one of them is suspended at a yielded awaitable or is explicitly marked as lock-free. Stateless actors and lock-free methods do run concurrently. However a method ends (return, exception, cancellation, at a yield), the actor is available to the next caller.",
  ["schedules", "programs"], "every program of methods (sync, async, generator with yields, lock-free), every schedule of concurrent callers, cancellations and failures",
  "The tests check one or two hand-written overlaps with sleeps; atomicity must hold for every interleaving.",
  ["core.pyx", "api.py", "batch.py"],
  [("per-actor lock around method bodies", "core.pyx"), ("lock released around yielded awaitables", "core.pyx"), ("lock-free marking", "core.pyx")])

p("C07", "Every call returns the result of its own invocation",
  "For any mix of concurrent calls to any actors, each caller gets exactly the result or exception of its own invocation and each invocation runs exactly once, with exactly the arguments that were passed. A sequential history of calls on an actor gives the same results as the same calls on a plain object of the same class. It does not matter whether actor and caller share a process, which sub-pool hosts the actor, or by which reference (fresh, looked up, passed through another actor) it is reached.",
  ["histories", "inputs", "schedules"], "every history of method calls with any arguments, every placement of caller and callee, every completion order of in-flight calls",
  "The tests call a handful of methods with small ints, mostly one at a time.",
  ["core.pyx", "context.pyx", "api.py", "backends/context.py", "backends/core.py", "backends/pool.py"],
  [("message id to future matching", "backends/core.py"), ("local and remote call paths", "core.pyx"), ("result processing", "backends/context.py")])

p("C08", "Calls from one caller to one actor start in the order issued",
  "Messages sent one after another by one caller through one reference to an actor, with or without waiting for the reply, each handed over before the next is issued, are started by the actor in the order in which they were sent (methods that take the lock; those written as generators or marked lock-free are ordered among themselves), whatever their payload sizes and whether or not other callers and other actors are active; a one-way message returns to its sender without waiting for the method and is run exactly once.",
  ["schedules", "histories"], "every sequence of sends/tells with any payload sizes, with concurrent traffic",
  "The tests never look at the order of a long pipelined sequence.",
  ["core.pyx", "context.pyx", "backends/core.py", "backends/context.py", "backends/pool.py", "backends/communication/socket.py"],
  [("in-order channel, per-message task start in arrival order, FIFO actor lock", "backends/pool.py")])

p("C09", "Actor existence follows creations and destructions exactly",
  "An actor exists from its successful creation until it is destroyed, killed or its pool stops: existence queries, reference look-ups, creating a second actor under the same id, destroying, and calling through any old reference all answer accordingly, the same from every pool of the cluster and through the main or the hosting address (ids are unique per hosting pool). Creating an existing id or touching a missing one raises the documented errors and changes nothing. Start-up and shut-down hooks run exactly once per life.",
  ["histories"], "every history of create/has/look-up/call/destroy/kill over several ids, pools and clients",
  "The tests exercise single create/destroy pairs; the registry is shared state over arbitrary histories and several processes.",
  ["backends/pool.py", "backends/context.py", "context.pyx", "api.py", "core.pyx"],
  [("actor registries of the pool and of the main pool", "backends/pool.py"), ("existence checks on create", "backends/pool.py")])

p("C10", "A failing creation or destruction leaves no half-made actor",
  "If creating an actor fails at any point (constructor, start-up hook, argument transport, host not reachable), the caller gets that error, no actor exists under the id afterwards in any pool, slots and labels are not consumed, and the same id can be created again. If the shut-down hook fails, the caller gets that error and all pools agree on whether the actor still exists; concurrent destructions of the same actor run its shut-down hook once, and every loser gets the missing-actor error.",
  ["fault_sequences", "histories"], "every failure point x placement x allocation strategy, mixed with successful operations and concurrent attempts",
  "The tests contain one failing hook; none checks what is left behind.",
  ["backends/pool.py", "core.pyx"],
  [("order of registration and hooks", "backends/pool.py"), ("main pool's allocation bookkeeping", "backends/pool.py")])

p("C11", "Exceptions reach the caller with type, data and cause",
  "An exception raised by an actor method arrives at the caller as an instance of the same type with the same arguments, attributes, cause and a message naming where it happened, however many actors it passed through, and catchable like the original. If the exception or the result cannot be transported, the caller still gets an error that says so. In no case does the call hang, does the pool die, or does an unrelated call fail.",
  ["inputs", "fault_sequences"], "every exception class shape (plain, custom constructor, slots, groups, chained, unpicklable, base exceptions), every hop count and placement",
  "The tests raise a few built-in exceptions.",
  ["backends/message.pyx", "utils.py", "backends/pool.py", "serialization/exception.py", "backends/context.py"],
  [("error message with wrapped type", "backends/message.pyx"), ("exception wrapping", "utils.py"), ("fallback for unpicklable errors", "serialization/exception.py")])

p("C12", "Cancelling a call affects that call only",
  "Cancelling (or timing out) a call raises cancellation at its caller, cancels the running method at its next suspension point whichever pool it runs in, and lets it clean up; a call cancelled while it waits never starts. Other calls in flight through the same connection or on the same actor, and later calls, behave as if the cancelled one had not existed, and a cancellation arriving after completion has no effect.",
  ["schedules", "fault_sequences"], "every point in time of the cancellation, every nesting of calls, every mix with other calls",
  "The tests cancel a sleeping call at one fixed moment.",
  ["core.pyx", "api.py", "backends/context.py", "backends/core.py", "backends/pool.py"],
  [("cancel message to the pool", "backends/pool.py"), ("cancellation of the pending task", "backends/pool.py"), ("wait_for", "api.py")])

p("C13", "Losing a server fails its calls promptly and only those",
  "When a pool process or connection goes away, every call in flight to it fails with an error saying that the server is closed (whatever other calls were cancelled or malformed on that connection), none waits forever, later calls to it fail, and calls to other pools go on undisturbed. A response that arrives late or is unknown never disturbs other calls.",
  ["fault_sequences", "crash_points"], "every set of in-flight calls (plain, cancelled, control) and every moment of death or cut, any stray response",
  "The tests kill a server with one pending call.",
  ["backends/core.py", "backends/context.py", "backends/communication/socket.py", "backends/communication/dummy.py", "backends/pool.py"],
  [("listener fails pending futures on end of stream", "backends/core.py")])

p("C14", "A batched call equals its calls one by one",
  "For a method with a batch implementation, submitting any list of delayed calls (positional, keyword and default arguments in any spelling) gives, in order, the results of the individual calls, and the batch implementation is given each call's bound arguments exactly once; without a batch implementation each of the calls is made exactly once (asynchronous ones may interleave). It holds for synchronous and asynchronous methods, on plain objects and on local or remote actors, for empty and single-element batches too, and a failing batch raises its error at the caller.",
  ["inputs", "programs"], "every method signature, every spelling of arguments, every batch size, with and without batch implementation",
  "The tests use three signatures with two or three calls each.",
  ["batch.py", "core.pyx"],
  [("argument binder generated from the signature", "batch.py"), ("batch dispatch", "batch.py")])

p("C15", "Results made of awaitables are awaited and put back in place",
  "When an actor method returns awaitables or asynchronous generators, alone or at any positions of a (not further nested) tuple, the caller gets their results at exactly those positions with all other elements untouched. A method that yields awaitables (singly, in tuples, nested) is resumed with exactly their results or their exception at the yield, and the value of a raised Return, or the exception it raises, is what the caller gets; a method that just ends returns none.",
  ["programs", "inputs"], "every tuple layout of values/coroutines/generators, every sequence of yields, failures and nesting",
  "The tests use a few tuples with fixed positions.",
  ["core.pyx"],
  [("result handling of coroutine and async generator results", "core.pyx")])

p("C16", "Remote generators yield exactly the method's items",
  "Iterating over a generator returned by an actor method (synchronous or asynchronous, local or remote, also passed on through other actors) yields the items of the method in order, each once, then ends; an exception raised by the method, whatever its text, is raised to the consumer after the items that preceded it. A generator abandoned early is released and does not disturb others; iterating an ended one raises; several generators of one actor are independent of each other.",
  ["programs", "histories"], "every item sequence, exception point, interleaving of several consumers, early abandonment",
  "The tests consume a few generators completely.",
  ["api.py", "core.pyx"],
  [("generator registry of the actor and iterator wrapper", "api.py")])

p("C17", "Actors are placed as their allocation strategy says",
  "The main-pool, process-index, random, label, address and idle strategies put an actor on exactly the sub-pool they document, an impossible placement raises the documented error and places nothing, and idle placement under one mark never puts two live actors of that mark in the same sub-pool, also when creations run concurrently, fail or are followed by destructions.",
  ["histories", "schedules", "configurations"], "every pool layout with labels, every history and overlap of creations, failures and destructions",
  "The tests create one actor per strategy in sequence.",
  ["backends/allocate_strategy.py", "backends/pool.py"],
  [("allocation over the main pool's bookkeeping", "backends/allocate_strategy.py")],
  [("allocated actors", "actor placement known to the main pool", "backends/pool.py")])

p("C18", "A crashed sub-pool recovers as configured",
  "After a sub-pool process dies unexpectedly, it is restarted or not as configured; when recovery is over a waiter is released, the sub-pool serves at the same addresses and labels, and with actor recovery each actor that was alive in it exists again under its id with its creation arguments, while destroyed ones do not come back. Other sub-pools and their actors are not affected, and a waiter is never left waiting.",
  ["crash_points", "histories"], "every history of creations/destructions before the kill, every recovery setting, repeated kills",
  "The tests kill one process once per setting.",
  ["backends/pool.py", "backends/indigen/pool.py", "api.py"],
  [("monitor of sub-pools and recovery of actors", "backends/pool.py")])

p("C19", "Bulk copies put every byte at its place",
  "Copying local buffers or file objects to remote ones moves exactly the bytes of each source into its destination at the right offset, for any number, sizes and order of buffers and destinations in any pools and for any block size, and leaves everything else untouched. A copy that fails anywhere raises at the caller instead of appearing done.",
  ["inputs", "fault_sequences"], "every partition into buffers/files, destination pools, block sizes around the boundaries, failing destinations",
  "The tests copy two or three buffers with one block size.",
  ["backends/context.py", "backends/pool.py", "core.pyx", "api.py"],
  [("chunking of copies and per-destination grouping", "backends/context.py"), ("write side", "backends/pool.py")])

p("C20", "Messages reach the pool they are addressed to, through any proxies",
  "Any call, look-up or creation addressed to a pool ends at that pool and its answer comes back to the caller, whichever of its addresses is used, whether it is in the same process, on the same host or reached through a configured chain of proxies. Address mappings and proxy rules resolve exactly as configured (a rule for the exact address, then one for its host, then the wildcard; a rule naming the address itself does not apply; proxies may be each other's), merging and removing mappings included. A pool that listens on all interfaces is usable at each of its addresses.",
  ["configurations", "histories"], "every mapping/proxy table and address, every add/remove history, every chain length",
  "The tests check a few static routers and one proxy hop.",
  ["backends/router.py", "backends/pool.py", "backends/core.py", "backends/context.py"],
  [("mapping and proxy resolution", "backends/router.py"), ("forward message handling", "backends/pool.py")])

p("C21", "Pool configuration and sub-pool changes stay consistent",
  "The pool configuration always describes the pools that exist: index, label, address, environment and module look-ups, and the configuration served to clients, agree with each other for any sequence of added and removed sub-pools. A sub-pool added at run time is fully usable (placement, calls, look-ups, configuration) at every main and sub address, and a removed one is not listed any more while all others keep working.",
  ["histories", "configurations"], "every history of pool additions and removals, every configuration",
  "The tests append and remove one sub-pool once.",
  ["backends/config.py", "backends/pool.py", "backends/indigen/pool.py"],
  [("configuration tables", "backends/config.py"), ("append/remove of sub-pools", "backends/indigen/pool.py")])

p("C22", "Stopping a pool leaves nothing behind",
  "Stopping a pool (explicitly, by leaving its context, or because start-up failed midway) ends all its sub-processes, closes its servers, frees its addresses for reuse and releases every waiter, whatever its actors are doing, and stopping again is harmless. Sub-processes do not outlive a main process that dies without stopping them.",
  ["crash_points", "histories", "configurations"], "every pool layout, activity at the time of stop, stop order, start-up failure point, death of the main process",
  "The tests stop idle pools.",
  ["backends/pool.py", "backends/indigen/pool.py", "backends/indigen/fate_sharing.py", "backends/communication/base.py"],
  [("stop/join of sub-processes and servers", "backends/pool.py"), ("fate sharing", "backends/indigen/fate_sharing.py")])

p("C23", "An actor reference denotes the same actor everywhere",
  "Two references are equal, and hash equal, exactly when they denote the same actor id at the same address; a reference keeps its identity, id, address and proxies when stored, pickled, copied, sent through actors or compared as a dictionary key, and can be called wherever it arrives. Ids may be text or bytes with the same meaning, generated ids included; calling a method the reference does not have raises and changes nothing.",
  ["inputs", "histories"], "every uid/address, every way a reference travels",
  "The tests compare a few references.",
  ["core.pyx", "_utils.pyx", "context.pyx", "serialization/core.pyx"],
  [("reference equality, hash and reduce", "core.pyx"), ("id normalisation", "_utils.pyx")])

p("C24", "Type-based dispatch picks the most specific handler",
  "Looking up the handler of a type gives the handler registered for the first class in its method resolution order that has one (by class, by dotted name, or by named variant), whatever was looked up before and in which order handlers were registered or removed, and a type without a handler raises the documented error.",
  ["histories", "inputs"], "every class hierarchy and every history of register/unregister/look-up",
  "The tests register a few types once and look them up.",
  ["_utils.pyx"],
  [("inheritance cache and lazy names", "_utils.pyx")])

p("C25", "Generated identifiers, process indexes and addresses never collide",
  "Identifiers for messages and actors, process indexes of pools and the default addresses derived from them are distinct within a process, across all processes of a host and after forks, whatever the process ids and however many are drawn; random byte strings have exactly the requested length.",
  ["histories", "configurations"], "every set of process ids, counts, threads and forks",
  "The tests draw a few ids in one process.",
  ["_utils.pyx", "backends/indigen/pool.py", "backends/pool.py", "backends/communication/socket.py", "utils.py"],
  [("process index generator", "backends/communication/socket.py"), ("random ids", "_utils.pyx")])

p("C26", "Asynchronous helpers behave like their synchronous models",
  "An asynchronous file behaves like the same file used synchronously, an asynchronous event like its threading model, and the asynchronous LRU cache like the wrapped function run once per live key: overlapping calls share one run, hits, misses, eviction of the least recently used key, invalidation, clearing, closing and opening are exact, an exception is kept only if asked for, and a cancelled run or caller never spoils the cache or other callers -- for any sequence and overlap of operations.",
  ["histories", "schedules"], "every sequence and overlap of operations and arguments",
  "The tests do one or two operations of each.",
  ["aio/file.py", "aio/base.py", "aio/lru.py", "aio/parallelism.py", "utils.py"],
  [("thread delegation", "aio/base.py"), ("cache and in-flight tasks", "aio/lru.py")])

p("C27", "Metrics report what was recorded",
  "Counters report the sum of what was recorded, gauges the last value, histograms, percentiles and meters the statistic of the recorded window that they document, per metric and tag set, on every backend; recording never fails for declared tags, never mixes metrics or tag sets and never changes the caller's objects.",
  ["histories", "configurations"], "every sequence of records with any values and tags, window sizes, several metrics",
  "The tests record a few fixed values.",
  ["metrics/api.py", "metrics/backends/metric.py", "metrics/backends/prometheus/prometheus_metric.py", "metrics/backends/console/console_metric.py"],
  [("metric objects per backend", "metrics/api.py")])

p("C28", "Profiling and debugging observe without changing behaviour",
  "With profiling or any debug option enabled, every call gives the same results, errors and order as without. The profile reports exactly the calls made (counts, times, the slowest ones in order) for any actor ids, and cycle detection reports a call chain exactly when a message comes back to an actor it is already waiting in, while calls without cycle are never reported.",
  ["programs", "histories", "configurations"], "every call graph, every option combination, any actor ids and durations",
  "The tests profile a handful of calls and detect one two-actor cycle.",
  ["profiling.py", "debug.py", "context.pyx", "backends/pool.py"],
  [("call statistics", "profiling.py"), ("message trace", "debug.py")])

p("C29", "Virtual-environment requirements resolve by their markers",
  "From a requirement list with markers, custom markers, engine/version variables and library placeholders, exactly the requirements whose marker holds are kept, each with its name, extras, url, versions and order intact; splitting and normalising specifications never loses or changes a requirement, and malformed entries are passed on or rejected as documented, never silently altered.",
  ["inputs", "configurations"], "every requirement line, marker expression and environment",
  "The tests check a few lines each.",
  ["virtualenv/core.py", "virtualenv/utils.py", "virtualenv/uv.py", "virtualenv/platform.py"],
  [("marker evaluation and filtering", "virtualenv/core.py"), ("split of specifications", "virtualenv/utils.py")])

p("C30", "Core helper functions obey their stated laws",
  "Readable sizes, text/bytes conversions, checks and repairs of all-zero addresses, lazy imports, retries, slotted data classes and exception wrapping do what they state for every argument: conversions are inverse to each other, a retried function (sync or async) returns the first success or raises the last failure after exactly the stated number of attempts, load hooks run exactly once, and wrappers keep type, arguments, text and behaviour of what they wrap.",
  ["inputs"], "every argument of every helper",
  "The tests use one to five examples per helper.",
  ["utils.py", "_utils.pyx", "nvutils.py"],
  [("helpers", "utils.py")])

p("C31", "Collective communication delivers the reduced data to every rank",
  "Every collective operation (broadcast, reduce, gather, scatter, all-reduce, all-to-all, ...) called by all ranks of a group gives each rank the mathematically defined result for any data, shapes, operator, root and group.",
  ["inputs", "configurations"], "every operation, group, root, dtype and data",
  "The tests of the collective package need the native gloo binding, which does not exist in this build.",
  ["collective/core.py", "collective/process_group.py"],
  [("process groups", "collective/process_group.py")])

p("C32", "GPU and UCX transports deliver device data intact",
  "Messages holding device (CUDA, MLX) buffers arrive intact over every transport, including UCX, and are placed on the device they came from.",
  ["inputs", "configurations"], "every payload and device configuration",
  "Needs UCX, CUDA or Apple hardware.",
  ["backends/communication/ucx.py", "serialization/cuda.py", "serialization/mlx.py", "nvutils.py"],
  [("ucx channel", "backends/communication/ucx.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
