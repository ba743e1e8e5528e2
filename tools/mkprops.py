#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as Python only because it is easier to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Thread pool runs every accepted task exactly once and wait() means done",
  "Every task handed to a thread pool runs exactly once, whatever thread submits it (including a running task), and every future it returned becomes ready with the value returned or the exception thrown (a task cancelled, or not yet begun when the pool is stopped, is not run). A wait on the pool returns, for every thread waiting, only after all tasks submitted before the wait have finished, and it always returns once the submitted work is finite. Stopping or destroying the pool finishes cleanly, abandoning no task that has begun and running none twice.",
  ["schedules", "programs"], "every interleaving of submitters, waiters, reservers, stoppers and pool threads, with spurious wakeups and failing thread creation",
  "The Task test is not built here and, where it is, samples one OS-chosen schedule; lost wakeups, double starts and premature wait() need particular interleavings.",
  ["src/task/thread_pool.cpp", "include/neolib/task/thread_pool.hpp", "include/neolib/task/task.hpp"],
  [("pool mutex, waiting-task queues and idle notification", "src/task/thread_pool.cpp"), ("pool thread loop and condition variable", "src/task/thread_pool.cpp: thread_pool_thread")],
  ["thread_pool::start/run/wait/stop/reserve/parallel_apply, futures"])
p("C02", "Thread pool honours priority, FIFO order and its thread limit",
  "With one pool thread, queued tasks of higher priority run before queued tasks of lower priority and tasks of equal priority run in the order submitted. The number of tasks running at the same time never exceeds the maximum thread count in force when a task starts, and the reported counts of active and available threads agree with it. A task that try_start accepts is started without waiting behind others; one it refuses is never run.",
  ["schedules", "programs"], "every interleaving of submitters with pool threads, for every mix of priorities and limits",
  "Needs a history of submissions and starts under adversarial scheduling; no built test starts a pool.",
  ["src/task/thread_pool.cpp", "include/neolib/task/thread_pool.hpp"],
  [("priority-ordered insertion", "src/task/thread_pool.cpp: thread_pool_thread::add"), ("delegation to idle threads", "src/task/thread_pool.cpp: thread_pool::delegate_task")])
p("C03", "A thread's body runs once and its end is seen by every waiter and owner",
  "A started thread executes its body exactly once and reports started, running and finished consistently with that, to any thread that looks. Waiting for it returns only after the body has ended, and always returns once it has, whether waiting directly, with a timeout, or together with events; cancelling, aborting or destroying a thread object in any state (never started, running, finished) neither hangs nor terminates the process.",
  ["schedules", "programs"], "every interleaving of owner, waiters and the thread itself; timeouts racing completion",
  "Races between completion and waiting, and clock-dependent timeouts, cannot be placed by a unit test.",
  ["src/task/thread.cpp", "include/neolib/task/thread.hpp", "include/neolib/task/i_thread.hpp"],
  [("state word, stop token and join", "src/task/thread.cpp"), ("waitable interface", "src/task/thread.cpp: waitable_ready")])
p("C04", "waitable_event: no signal is lost, invented or given to two waiters",
  "A waiter on an event is released only by a signal, and a signal made while nobody waits is kept for the next waiter until it is reset. signal_one releases exactly one waiter and signal_all releases every thread waiting at that moment; a timed wait reports success exactly when it consumed a signal, and otherwise returns at its deadline and not before. Waiting on a list of events reports an event that was really signalled and loses no signal of the others.",
  ["schedules", "fault_sequences"], "every interleaving of signallers, resetters and waiters; spurious wakeups; timeouts racing signals",
  "Spurious wakeups and timeout/signal races never occur on demand in a test run.",
  ["src/task/waitable_event.cpp", "include/neolib/task/waitable_event.hpp", "include/neolib/task/i_waitable.hpp"],
  [("condition variable with ready flag and waiter count", "src/task/waitable_event.cpp"), ("event lists", "src/task/waitable_event.cpp: waitable_event_list")])
p("C05", "Mutexes give exclusive, recursive ownership and always make progress",
  "At most one thread holds a neolib mutex at a time, whichever variant is active, a holder may lock again and must unlock as often, and writes made while holding it are visible to the next holder. try_lock succeeds only when the lock is free or already held by the caller, and fails without side effects otherwise. A thread asking for the lock gets it once the others release it, and locking several mutexes at once never deadlocks against others doing the same in another order.",
  ["schedules", "configurations"], "every interleaving of lockers for each variant (blocking, spin, switchable, multi-lock)",
  "Mutual exclusion and lost wakeups are properties of schedules; no test contends a mutex.",
  ["include/neolib/core/mutex.hpp", "include/neolib/core/i_mutex.hpp", "src/core/mutex.cpp"],
  [("atomic flag wait/notify with owner id", "include/neolib/core/mutex.hpp: recursive_mutex"), ("scoped_multi_lock", "include/neolib/core/mutex.hpp")])
p("C06", "Timers fire once per arm, never early, never after cancel or destruction",
  "A timer that is armed fires exactly once per arming, never before its duration has elapsed and always within a bounded delay after it while its task is run. A timer that was cancelled, disabled or destroyed, or whose owner context was destroyed, does not call back for that arming, even when the expiry was already queued, and a destroyed timer leaves nothing behind in its task. A timer may be cancelled, reset, re-armed, copied, have its duration changed or be destroyed at any time on its task's thread, including inside its own or another timer's callback, and a callback that throws, or a task destroyed before its timers, disturbs no other timer.",
  ["schedules", "histories", "programs"], "every history of timer operations against every position of the clock and the task's polling, from the owning and other threads",
  "Expiry racing cancel/destroy needs a controlled clock; the Task test is not built here and uses real sleeps.",
  ["src/task/timer.cpp", "src/task/timer_object.cpp", "src/task/async_task.cpp", "include/neolib/task/timer.hpp"],
  [("asio deadline timer wrapper", "src/task/timer_object.cpp"), ("handler proxies and in-callback flag", "src/task/timer.cpp"), ("polling loop", "src/task/async_task.cpp")])
p("C07", "Async task: posted work runs once, in order, until the task is halted",
  "Work given to an asynchronous task (posted to its I/O service, queued to its thread's events, or armed as a timer) is run by the thread that pumps the task, exactly once and in the order given, and a pump that is waiting wakes for it. A run loop ends after it is asked to quit, halted or cancelled, from any thread or from inside a handler and also when a handler throws, and no handler is run after its task is destroyed. An asynchronous thread runs its task until then, whether it was started, never started or attached to a thread that already runs.",
  ["schedules", "histories"], "every interleaving of posters, the pumping thread and the quit request",
  "Needs schedules where posts race the pump going idle or shutting down.",
  ["src/task/async_task.cpp", "include/neolib/task/async_task.hpp", "src/task/async_thread.cpp", "include/neolib/task/i_async_task.hpp"],
  [("do_io / run loop", "src/task/async_task.cpp"), ("async_thread", "src/task/async_thread.cpp")])
p("C08", "Events reach every live subscriber once, in order, on the right thread",
  "Triggering an event calls every handler subscribed at that moment exactly once, in subscription order with the triggering arguments, on the triggering thread if the subscriber asked for that and otherwise on the thread that subscribed, when that thread next pumps its events. Queued calls for one thread arrive in the order they were triggered and none is lost or duplicated; only subscribers that asked for triggers not to be queued up, or said they keep no state, may be given several triggers as one call, with the latest arguments. A handler that accepts the event stops later handlers of that trigger from running, and a handler that throws loses no other handler's call.",
  ["schedules", "histories", "programs"], "every interleaving of triggering, subscribing and pumping threads, and every history of subscriptions",
  "The Event test is not built here and runs single-threaded histories; cross-thread delivery depends on the schedule.",
  ["include/neolib/task/event.hpp", "include/neolib/task/i_event.hpp", "src/task/event.cpp"],
  [("callback list and trigger work lists", "include/neolib/task/event.hpp"), ("per-thread event queue", "src/task/event.cpp: async_event_queue")])
p("C09", "No handler runs after its subscription, sink or event is gone",
  "Once a subscription is removed, its sink cleared or destroyed, or its event destroyed, the handler is not started again, including calls already queued for another thread (a call that another thread has already begun may finish). Subscribing, unsubscribing, triggering and destroying events, slots and sinks, inside handlers and from different threads, and threads that exit with calls queued for them, never corrupt memory, deadlock or skip other live subscribers.",
  ["schedules", "histories", "programs"], "every history and interleaving of trigger/subscribe/unsubscribe/destroy, nested in handlers",
  "The interesting cases (destroying an event inside its own handler, unsubscribing while a call is queued elsewhere) need particular nesting and interleavings.",
  ["include/neolib/task/event.hpp", "include/neolib/task/i_event.hpp", "src/task/event.cpp", "include/neolib/core/lifetime.hpp"],
  [("slot reference counting and destroyed flags", "include/neolib/task/event.hpp"), ("queue transaction filters", "src/task/event.cpp")])
p("C10", "Logger writes every accepted message exactly once and in order",
  "Each message a thread logs (what it streams between two flushes) at or above the filter level and in an enabled category is delivered to the logger's target and to every logger it is copied to exactly once, whole and unmixed with other messages, and messages from one thread appear in the order that thread logged them; filtered messages never appear, and a message that cannot be written in full affects no other message. After wait() returns on a logger that has a logging thread, after commit() returns on one that has none, and after the logger is finalized or destroyed, everything logged before it has been written, including messages of threads that have already exited. Logging from any number of threads, also from inside a new-message handler, while filters, categories, copies and logging threads change, never deadlocks, races or loses data.",
  ["schedules", "programs"], "every interleaving of logging threads, thread exits, the logger's own thread, flushes and shutdown",
  "The Logger test is not built here and, where it is, checks nothing about concurrent order or loss.",
  ["include/neolib/app/logger.hpp", "include/neolib/app/i_logger.hpp"],
  [("per-thread double buffers and commit", "include/neolib/app/logger.hpp"), ("logger thread", "include/neolib/app/logger.hpp: logger")])
p("C11", "Packet streams deliver sent packets whole, in order and exactly once",
  "Packets sent over a connected packet stream (TCP, not TLS) arrive at the peer whole, unmodified, in the order in which packet_sent reports them and exactly once, however the network splits, merges or delays the bytes, however short its reads and writes are and however sends and receives are interleaved; for binary packets, which have no boundaries, this is said of the bytes. Packets of equal priority are sent in the order they were queued, and a high priority packet goes before those waiting. While a connection stays up everything queued is sent and arrives. If it fails or is closed, what arrived is a prefix of what was sent. packet_sent is reported once for each packet and not after its session ended. Closing and reopening a stream starts clean: nothing of the old session is sent or delivered in the new one.",
  ["fault_sequences", "schedules", "histories"], "every segmentation, short read/write, delay, reset, close and reopen over the simulated network",
  "The Io test only parses in-memory buffers; partial reads, short writes, resets and reopens never occur.",
  ["include/neolib/io/packet_stream.hpp", "include/neolib/io/packet_connection.hpp", "include/neolib/io/string_packet.hpp", "include/neolib/io/binary_packet.hpp"],
  [("send queue and receive buffer", "include/neolib/io/packet_connection.hpp"), ("packet events", "include/neolib/io/packet_stream.hpp")])
p("C12", "Connections fail cleanly: nothing is called or touched after close or destroy",
  "Opening, closing, reopening or destroying a stream, connection, server or resolver at any point - while resolving, connecting, sending, receiving or inside one of its own callbacks - neither accesses freed memory, nor hangs, nor leaks a socket, nor calls back into the closed or destroyed object. Every open attempt ends in exactly one outcome: established or failed (or open() returns false), unless it is closed first; a session that was established ends with exactly one connection_closed, after at most one transfer_failure, when it is closed, destroyed or lost. A server reports each stream it adds, and its removal, once, and keeps accepting new clients after any individual connection or accept fails. A resolver reports exactly one outcome for each request, unless its requester was removed or the resolver destroyed, and then none.",
  ["fault_sequences", "schedules", "histories"], "every point of the connection life cycle at which close/destroy or a network or resolver error can land",
  "No test opens a connection; lifetime errors only show when completion handlers are pending.",
  ["include/neolib/io/packet_connection.hpp", "include/neolib/io/packet_stream.hpp", "include/neolib/io/tcp_packet_stream_server.hpp", "include/neolib/io/resolver.hpp"],
  [("handler proxies", "include/neolib/io/packet_connection.hpp"), ("accept loop", "include/neolib/io/tcp_packet_stream_server.hpp"), ("resolver requests", "include/neolib/io/resolver.hpp")])
p("C13", "Packet framing does not depend on how bytes are split into chunks",
  "The packets that a packet stream delivers are a function of the bytes received in its session alone, however they are cut into chunks on their way: for string packets the non-empty runs of characters between carriage returns and line feeds (blank lines aside), each delivered as soon as the delimiter after it has arrived, and an unterminated rest never; for binary packets the bytes. Nothing is carried over from one session to the next, and an end of the connection loses no packet that was complete.",
  ["inputs", "fault_sequences"], "every byte stream and every segmentation of it",
  "The Io test feeds a handful of fixed buffers; segmentation is a property of all splits.",
  ["include/neolib/io/string_packet.hpp", "include/neolib/io/binary_packet.hpp", "include/neolib/io/packet_connection.hpp"],
  [("take_some", "include/neolib/io/string_packet.hpp"), ("receive loop", "include/neolib/io/packet_connection.hpp")])
p("C14", "A damaged or truncated archive is reported, never misread",
  "Opening and extracting from a ZIP archive or gzip stream yields exactly the bytes that were stored, however the underlying reads are split. If the bytes are truncated, corrupted or unreadable, or writing the extracted file fails, the operation reports an error; it never returns other data as good, never reads or writes outside its buffers, never writes a file outside the directory it was told to extract to and never hangs.",
  ["fault_sequences", "inputs"], "every truncation point and corruption of stored bytes, every read/write/allocation failure during open or extract",
  "The File test has no archives; corruption and I/O failure need fault injection.",
  ["src/file/zip.cpp", "src/file/gunzip.cpp", "include/neolib/file/zip.hpp", "include/neolib/file/gunzip.hpp"],
  [("directory parsing and inflate", "src/file/zip.cpp"), ("inflate loop", "src/file/gunzip.cpp")])
p("C15", "Saved settings and files survive a crash or a failed write",
  "After registered settings are saved successfully, a later load that registers the same settings returns exactly the saved values. If the process dies or the disk fails at any point during a save, the next load finds either the complete old values or the complete new ones, and a save that could not write everything reports it. move_file() either completes or leaves both files as they were and returns false; create_file() never damages a file that exists.",
  ["crash_points", "fault_sequences"], "every crash point and every failing, short or refused system call during save, move and create",
  "Crash points and disk errors need injection; no test writes settings.",
  ["src/app/settings.cpp", "include/neolib/app/settings.hpp", "src/file/file.cpp", "include/neolib/file/file.hpp"],
  [("settings file writing", "src/app/settings.cpp: settings::save"), ("file copy/move", "src/file/file.cpp")])
p("C16", "JSON and XML documents are never silently read or written in part",
  "Reading a JSON or XML document from a stream or file gives the same document however the bytes are delivered. If the stream fails or ends before the document is complete, the read reports failure; it never reports success with part of the document missing, and the document object stays usable for another read. Memory exhaustion during a read is reported and leaks nothing. Writing a document to a stream or file that fails reports failure, and a JSON or XML document whose writing reported success reads back with the same names, structure, strings and whole numbers.",
  ["fault_sequences", "inputs"], "every stream failure offset, truncation and failing allocation, for generated documents",
  "The NoFussJSON test reads complete files from healthy streams only.",
  ["include/neolib/file/json.inl", "include/neolib/file/json.hpp", "include/neolib/file/xml.inl", "include/neolib/file/xml.hpp"],
  [("document loading", "include/neolib/file/json.inl: do_read"), ("xml read", "include/neolib/file/xml.inl: read")])
p("C17", "Reference-counted objects live exactly as long as they are referenced",
  "A reference-counted object exists as long as any owning pointer refers to it, is destroyed exactly once when the last one lets go, and is not touched afterwards, through every history of copying, moving, assigning, swapping, resetting, detaching and weak referencing. A weak reference yields the object while it lives and reports expiry from the moment it is destroyed, also during the destructor and when references are taken and dropped by different threads.",
  ["histories", "schedules"], "every history of pointer operations over several objects, and interleavings of threads sharing them",
  "Leaks, double releases and stale weak references need specific operation sequences and races; no test covers them.",
  ["include/neolib/core/reference_counted.hpp", "include/neolib/core/i_reference_counted.hpp", "src/core/reference_counted.cpp"],
  [("atomic reference count and control block", "include/neolib/core/reference_counted.hpp"), ("ref_ptr / weak_ref_ptr", "include/neolib/core/reference_counted.hpp")])
p("C18", "A jar maps each live cookie to its own item and to nothing else",
  "An item stored in a jar is found under the cookie it was given, and under no other, until it is removed; a removed cookie is reported as absent and cookies are only given again once free. This holds through every history of adding, inserting, removing and iterating, for basic and thread-safe jars used from several threads, and when an allocation fails midway the jar keeps its previous contents.",
  ["histories", "schedules", "fault_sequences"], "every history of jar operations, interleaved threads, and allocation failures",
  "The Containers test is not built here; cookie reuse and failed inserts need long histories and injected failures.",
  ["include/neolib/core/jar.hpp", "include/neolib/core/i_jar.hpp"],
  [("cookie allocation and index", "include/neolib/core/jar.hpp")])
p("C19", "Containers keep their contents when memory runs out or a copy throws",
  "Every history of operations on neolib's sequence containers (gap_vector, segmented_array, small_vector and vecarray, polymorphic::vecarray, vector, list, deque), on tree, and on the interface containers and value types (map, multimap, unordered_map, set, string, optional, variant) has the effect it has on the corresponding standard container or value: the same elements in the same order, the same iterator returned, the same results from lookup, indexing, iterator arithmetic and comparison, and for the tree the same structure, depths, descendent counts and skipped subtrees. When an allocation or an element's copy fails partway through an operation, the container stays valid and usable, no element is leaked or destroyed twice, and elements not involved keep their values: a failed removal leaves at most elements it was to remove, a failed insertion loses no earlier element (inserting several elements into a container built on std::vector, and replacing the contents, promise only that it stays usable), and a failed insertion of one element into a gap_vector, segmented_array, tree, map or set leaves it as it was or as asked for.",
  ["histories", "fault_sequences"], "every history of container operations with an allocation or element copy failing at every point",
  "The Containers test is not built here and injects no failure.",
  ["include/neolib/core/gap_vector.hpp", "include/neolib/core/segmented_array.hpp", "include/neolib/core/array_tree.hpp", "include/neolib/core/segmented_tree.hpp", "include/neolib/core/tree.hpp", "include/neolib/core/static_vector.hpp", "include/neolib/core/small_buffer_allocator.hpp", "include/neolib/core/polymorphic_vecarray.hpp", "include/neolib/core/vector.hpp", "include/neolib/core/list.hpp", "include/neolib/core/deque.hpp", "include/neolib/core/map.hpp", "include/neolib/core/unordered_map.hpp", "include/neolib/core/set.hpp", "include/neolib/core/mutable_set.hpp", "include/neolib/core/optional.hpp", "include/neolib/core/variant.hpp", "include/neolib/core/string.hpp", "include/neolib/core/container_iterator.hpp"],
  [("element construction and rollback", "include/neolib/core/gap_vector.hpp"), ("balanced tree of segments", "include/neolib/core/array_tree.hpp")])
p("C20", "ECS component data stays matched to its entities",
  "Each entity's component record is found under that entity and holds the values last written to it, for every history of creating, populating, updating, sorting and destroying entities at once or asynchronously, taking and releasing snapshots and failing allocations; a snapshot holds the records of the moment it was taken except those of entities destroyed since, and an operation that fails leaves the entities and their records as they were. A destroyed entity has no record anywhere, its identifier and its handles are reused only afterwards, and its destruction is reported once. Several threads may use one world: each gets its own identifiers and handles, what they do under the component locks has the same effect as some one-at-a-time order, every asynchronous creation or destruction is carried out once, and no locking strategy deadlocks.",
  ["histories", "schedules", "fault_sequences"], "every history of entity and component operations, interleaved threads and failing allocations",
  "No test uses the ECS; entity/record correspondence is a property of long histories.",
  ["include/neolib/ecs/component.hpp", "src/ecs/ecs.cpp", "include/neolib/ecs/ecs.hpp", "include/neolib/ecs/i_ecs.hpp", "src/ecs/entity.cpp"],
  [("entity/record index, snapshots", "include/neolib/ecs/component.hpp"), ("entity ids, handles, async create/destroy, locking", "src/ecs/ecs.cpp")])
p("C21", "ECS systems run, pause, resume and stop without losing a wakeup",
  "A running system that is signalled or resumed applies at least once more, also when the signal comes just before it waits. A paused system's thread begins at most one more application, plus one for each signal not yet acted on, until the matching number of resumes has been given, after which it continues; pausing and resuming the world does this for every system, also one created meanwhile. The world clock's system destroys each entity whose life span is over, and none before. A system is never applied by two threads at once, and pausing, resuming, signalling, terminating or destroying the world at any moment ends with every system thread finished and none applying afterwards.",
  ["schedules", "histories"], "every interleaving of control calls with system threads",
  "No test runs a system thread; lost wakeups depend on the schedule.",
  ["include/neolib/ecs/system.hpp", "src/ecs/system.cpp", "src/ecs/ecs.cpp", "src/ecs/time.cpp"],
  [("pause counter, signal and condition variable", "include/neolib/ecs/system.hpp"), ("system thread loop", "src/ecs/system.cpp")])
p("C22", "A shared service or per-thread object is created once and safely shared",
  "Whatever threads ask for a service first and at the same time, it is created once and all of them get the same instance, a replaced provider is the one used afterwards, and no thread sees a half-built one. A shared thread-local gives each thread its own value, keeps it for that thread's life, destroys it exactly once when the thread ends and never hands it to another thread.",
  ["schedules"], "every interleaving of first uses, re-registration and thread exits",
  "First-use races and thread-exit order cannot be arranged in a unit test.",
  ["src/core/service.cpp", "include/neolib/core/service.hpp", "src/app/shared_thread_local.cpp", "include/neolib/app/i_shared_thread_local.hpp", "include/neolib/core/thread_local.hpp"],
  [("service table", "src/core/service.cpp"), ("per-thread storage", "src/app/shared_thread_local.cpp")])
p("C23", "Lifetime flags report an object's destruction exactly when it happens",
  "A flag watching an object's lifetime reads alive until destruction of that object begins, then destroying until it ends and destroyed ever after, and stays readable once the object is gone; a copy of an object has a lifetime of its own. Objects and flags may be created, copied and destroyed in any order and on different threads without a flag being missed, touched after it is gone, or reporting another object's state.",
  ["histories", "schedules"], "every order of creating and destroying objects and flags, and interleavings across threads",
  "Needs destruction races and orderings no test performs.",
  ["include/neolib/core/lifetime.hpp", "src/core/lifetime.cpp", "include/neolib/core/i_lifetime.hpp"],
  [("shared state and flag list", "src/core/lifetime.cpp")])
p("C24", "Time slices and activity timeouts follow the clock",
  "Time attributed to a named slice on a thread is the time spent in it excluding slices nested inside it, adds up over repeated entries, and a budgeted slice reports expiry exactly when its budget has passed. Power modes change on schedule: green mode is entered only after the full inactivity timeout and within a bounded delay after it, and is left on activity.",
  ["histories", "schedules"], "every nesting of slices and every placement of activity against a simulated clock, including jumps and stalls",
  "Tests cannot control the clock.",
  ["src/task/time_slice.cpp", "include/neolib/task/time_slice.hpp", "src/app/power.cpp", "include/neolib/app/power.hpp"],
  [("slice accounting", "src/task/time_slice.cpp"), ("inactivity timer", "src/app/power.cpp")])
p("C25", "An HTTP request ends with exactly one true outcome",
  "Each request made with http sends exactly the request the caller described and ends with exactly one outcome, completed or failure. It completes only for a 2xx response that arrived whole, whether its length is given by Content-Length, by chunks or by the end of the connection, and then status, headers and body are exactly what the server sent, however the network cuts it up; a response that is malformed, cut short, refused or has another status ends in failure. A handler may make the next request on the same object or destroy it.",
  ["inputs", "fault_sequences", "schedules"], "every segmentation, truncation and connection failure of generated responses, and every point at which a handler makes a new request or destroys the client",
  "No test uses the network; the outcome depends on where the network cuts the response.",
  ["src/io/http.cpp", "include/neolib/io/http.hpp", "include/neolib/io/packet_stream.hpp", "include/neolib/io/string_packet.hpp"],
  [("response parsing and outcome", "src/io/http.cpp"), ("line packets", "include/neolib/io/string_packet.hpp")])
# --- pure or out of reach: not_applicable in MANIFEST.json
p("C26", "A plugin is offered exactly while it is loaded and its module open",
  "For every history of loading modules one by one, scanning folders, initialising, enabling, finding and unloading plugins, a plugin manager offers exactly the plugins that loaded and were not unloaded since: a module that cannot be opened, lacks its entry point or plugin, or whose plugin refuses or throws while loading or initialising is reported once, leaves nothing behind (plugin destroyed, module closed) and the other plugins as they were; scanning loads and initialises every good module below the folders whatever the others do, in whatever order the folder lists them. No plugin is called, announced or destroyed once its module is closed, and no module is closed twice or left open without its plugin. Two plugins of one identity are never offered. A plugin is loaded before it is initialised, initialised at most once, and announced once as loaded, initialised and unloaded, in that order. A module object, however copied, moved, assigned, loaded, unloaded or failing in between, has open, once, what its path names or nothing. A plugin that refuses to be unloaded stays offered and does not keep the others from being unloaded. All of that also holds when memory runs out or the file system fails meanwhile (then an announcement may be missing). Plugins whose unload() or destructor throws are excluded.",
  ["histories", "fault_sequences"], "every history of plugin operations, directory orders, misbehaving modules, failing module loads, directory errors and allocations",
  "No test loads a plugin.",
  ["src/plugin/plugin_manager.cpp", "include/neolib/plugin/plugin_manager.hpp", "include/neolib/plugin/plugin.hpp", "src/app/module.cpp", "src/posix/app/posix_module.cpp"],
  [("loading, initialising, unloading", "src/plugin/plugin_manager.cpp"), ("module handles", "src/app/module.cpp")])
p("C90", "JSON and XML texts are accepted, rejected and decoded as the chosen syntax says",
  "Every text is accepted or rejected as the chosen syntax (standard, relaxed, functional, XML) says, every escape is decoded as it says, and fractional numbers keep their exact value when they are written and read.",
  ["inputs"], "every document and syntax option", "The test corpus is finite; grammar conformance is over all inputs.",
  ["include/neolib/file/json.inl", "include/neolib/file/xml.inl", "include/neolib/file/parser.hpp"], [("state machine parser", "include/neolib/file/json.inl")])
p("C91", "Vector, matrix and quaternion algebra obeys its laws with and without SIMD",
  "SIMD and scalar paths agree within rounding and the algebraic identities (inverse, transpose, associativity within tolerance) hold for all operands.",
  ["inputs", "configurations"], "every operand", "The Numerical test samples a few operands.",
  ["include/neolib/core/numerical.hpp", "include/neolib/core/simd.hpp"], [("SIMD kernels", "include/neolib/core/simd.hpp")])
p("C92", "String, number and encoding conversions are exact inverses and total",
  "Converting between UTF encodings, numbers, identifiers, URIs and their text forms and back is the identity on valid input, and invalid input is reported.",
  ["inputs"], "every string and value", "StringUtils samples fixed strings.",
  ["src/core/string_utils.cpp", "include/neolib/core/string_utf.hpp", "src/core/uuid.cpp", "src/io/uri.cpp"], [("conversion routines", "include/neolib/core/string_utils.hpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
