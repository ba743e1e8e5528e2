"""Scenario binaries and which property each scenario decides."""
TASK = ["src/task/thread_pool.cpp", "src/task/thread.cpp", "src/task/waitable_event.cpp", "src/core/lifetime.cpp"]
UNITS = {
    "pool": dict(src=["pool.cpp"], repo=TASK),
    "threads": dict(src=["threads.cpp"], repo=["src/task/thread.cpp", "src/task/waitable_event.cpp"]),
    "mutexes": dict(src=["mutexes.cpp"], repo=["src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp"]),
    "core": dict(src=["core.cpp"], repo=["src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/core/lifetime.cpp", "src/core/reference_counted.cpp", "src/app/shared_thread_local.cpp", "src/task/time_slice.cpp"]),
    "jars": dict(src=["jars.cpp"], repo=["src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/core/reference_counted.cpp"]),
    "containers": dict(src=["containers.cpp"], repo=["src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/core/reference_counted.cpp"]),
    "archives": dict(src=["archives.cpp"], repo=["src/file/zip.cpp", "src/file/gunzip.cpp", "src/core/crc.cpp"]),
    "documents": dict(src=["documents.cpp"], repo=["src/core/string_utils.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp"]),
    "settings": dict(src=["settings.cpp"], repo=["src/app/settings.cpp", "src/file/file.cpp", "src/core/string_utils.cpp", "src/task/event.cpp", "src/task/async_task.cpp", "src/task/timer.cpp", "src/task/timer_object.cpp", "src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/core/reference_counted.cpp", "src/task/thread.cpp", "src/task/waitable_event.cpp", "src/app/shared_thread_local.cpp", "src/task/time_slice.cpp", "src/posix/app/posix_module.cpp", "src/app/module.cpp"]),
}
CORE = ["src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/service.cpp", "src/core/uuid.cpp", "src/io/openssl.cpp", "src/core/reference_counted.cpp"]
ASYNC = CORE + ["src/task/event.cpp", "src/task/async_task.cpp", "src/task/async_thread.cpp", "src/task/timer.cpp", "src/task/timer_object.cpp", "src/task/thread.cpp", "src/task/waitable_event.cpp", "src/app/shared_thread_local.cpp", "src/task/time_slice.cpp", "src/posix/app/posix_module.cpp", "src/app/module.cpp"]
UNITS["events"] = dict(src=["events.cpp"], repo=CORE + ["src/task/event.cpp"])
UNITS["tasks"] = dict(src=["tasks.cpp", "power.cpp"], repo=ASYNC + ["src/app/power.cpp", "src/file/file.cpp", "src/core/string_utils.cpp"])
UNITS["loggers"] = dict(src=["loggers.cpp"], repo=CORE + ["src/task/event.cpp"])
UNITS["net"] = dict(src=["net.cpp"], repo=ASYNC + ["src/file/file.cpp", "src/core/string_utils.cpp"])
UNITS["http"] = dict(src=["http.cpp"], repo=ASYNC + ["src/io/http.cpp", "src/file/file.cpp", "src/core/string_utils.cpp"])
UNITS["ecs"] = dict(src=["ecs.cpp", "ecs_systems.cpp", "ecs_shared.cpp"], repo=ASYNC + ["src/ecs/ecs.cpp", "src/ecs/entity.cpp", "src/ecs/entity_archetype.cpp", "src/ecs/system.cpp", "src/ecs/time.cpp", "src/app/power.cpp", "src/task/thread_pool.cpp", "src/file/file.cpp", "src/core/string_utils.cpp"])
UNITS["plugins"] = dict(src=["plugins.cpp"], repo=ASYNC + ["src/plugin/plugin_manager.cpp", "src/app/application_info.cpp", "src/file/file.cpp", "src/core/string_utils.cpp"], flags=["-Ddlopen=sim_dlopen", "-Ddlsym=sim_dlsym", "-Ddlclose=sim_dlclose", "-Ddlerror=sim_dlerror"])
for k, v in UNITS.items(): v["name"] = k
# property -> list of (unit, scenario, share of the time budget)
CHECKS = {
    "C11": dict(scen=[("net", "packet_pipes", 1)], real="packet_stream, packet_connection, tcp_packet_stream_server, string_packet, binary_packet, event, async_task; boost::asio", stub="the network (simulated sockets, epoll, eventfd, timerfd, name resolution, with faults), clocks, pthread/futex primitives, heap"),
    "C12": dict(scen=[("net", "stream_lifecycle", 3), ("net", "resolver_requests", 1)], real="packet_stream, packet_connection, tcp_packet_stream_server, basic_resolver, event, lifetime, async_task; boost::asio", stub="the network (simulated sockets, epoll, eventfd, timerfd, name resolution, with faults), clocks, pthread/futex primitives, heap"),
    "C13": dict(scen=[("net", "packet_framing", 1)], real="string_packet, binary_packet, packet_connection, packet_stream, tcp_packet_stream_server, async_task; boost::asio", stub="the network (simulated sockets, epoll, eventfd, timerfd, name resolution, with faults), clocks, pthread/futex primitives, heap"),
    "C10": dict(scen=[("loggers", "loggers", 1)], real="logger, ostream_logger, i_logger, event, lifetime; libstdc++ streams, threads, condition variables", stub="OS scheduler, clocks, pthread/futex primitives, thread creation failures, the device behind the target stream, heap (failing allocations)"),
    "C06": dict(scen=[("tasks", "timers", 3), ("tasks", "timer_leftovers", 1)], real="timer, callback_timer, timer_object, timer_service, async_task, time slices; boost::asio", stub="OS scheduler, clocks, epoll/timerfd/eventfd, pthread/futex primitives, heap"),
    "C07": dict(scen=[("tasks", "task_loop", 2), ("tasks", "task_attached", 1), ("tasks", "task_busy", 1)], real="async_task, async_thread, thread, timer, events, io service; boost::asio", stub="OS scheduler, clocks, epoll/timerfd/eventfd, pthread/futex primitives, heap"),
    "C08": dict(scen=[("events", "events_local", 2), ("events", "events_threads", 4), ("events", "events_generations", 1)], real="event, slot, sink, async_event_queue, lifetime, mutex; libstdc++ threads", stub="OS scheduler, clocks, pthread/futex primitives, heap"),
    "C09": dict(scen=[("events", "events_local", 2), ("events", "events_threads", 4), ("events", "events_generations", 1)], real="event, slot, sink, async_event_queue, lifetime, mutex; libstdc++ threads", stub="OS scheduler, clocks, pthread/futex primitives, heap"),
    "C16": dict(scen=[("documents", "json_reads", 2), ("documents", "xml_reads", 2), ("documents", "document_writes", 1)], real="json (standard, relaxed, pooled), xml; libstdc++ streams", stub="stream devices and file system (simulated, with faults), heap (failing allocations)"),
    "C15": dict(scen=[("settings", "settings_saves", 3), ("settings", "file_moves", 1)], real="settings, setting, xml, string conversions, file utilities; libstdc++ file streams and filesystem", stub="file system (simulated disk with faults and crash points), heap"),
    "C14": dict(scen=[("archives", "zip_files", 3), ("archives", "gzip_streams", 1)], real="zip, gunzip, crc32; libstdc++ file streams and filesystem, zlib", stub="file system (simulated disk with faults), heap (failing allocations)"),
    "C18": dict(scen=[("jars", "jar_history", 2), ("jars", "jar_shared", 1)], real="basic_jar, basic_std_vector_jar, neolib::vector, recursive_mutex; libstdc++ containers", stub="OS scheduler, clocks, pthread/futex primitives, heap (failing allocations)"),
    "C26": dict(scen=[("plugins", "plugins", 3), ("plugins", "module_handles", 1)], real="plugin_manager, plugin, module, event, lifetime, string, vector, map; std::filesystem directory iteration", stub="dlopen/dlsym/dlclose (simulated modules that misbehave), the file system with its directory order (simulated, with faults), heap (failing allocations)"),
    "C19": dict(scen=[("containers", "seq_history", 3), ("containers", "tree_history", 2), ("containers", "keyed_history", 2)], real="gap_vector, segmented_array, array_tree, segmented_tree, growable_static_vector with its small buffer allocator, polymorphic::vecarray, vector, list, deque, map, multimap, unordered_map, set, string, optional, variant; libstdc++ and Boost containers", stub="heap (failing allocations), the element type (failing copies)"),
    "C20": dict(scen=[("ecs", "ecs_history", 2), ("ecs", "ecs_shared", 2)], real="ecs, component, shared_component, entity, entity_archetype, time, ecs mutexes, timers, async_task, thread_pool", stub="OS scheduler, clocks, pthread/futex primitives, heap (with failures)"),
    "C21": dict(scen=[("ecs", "ecs_systems", 1)], real="ecs, system, ecs::thread, time, async_thread, thread, async_task, timers, power", stub="OS scheduler, clocks, pthread/futex primitives, thread creation (with failures), heap"),
    "C22": dict(scen=[("core", "services", 1), ("core", "thread_locals", 1)], real="service(), service_provider, shared_thread_local and its macros; libstdc++ threads and thread_local", stub="OS scheduler, clocks, pthread/futex primitives, heap (failing allocations); the services themselves and one replacement provider are test doubles"),
    "C23": dict(scen=[("core", "lifetimes", 1)], real="lifetime, lifetime_flag, reference_counted, ref_ptr", stub="OS scheduler, clocks, pthread/futex primitives, heap"),
    "C17": dict(scen=[("core", "references", 1), ("core", "references_mt", 1)], real="reference_counted, ref_control_block, ref_ptr, weak_ref_ptr", stub="OS scheduler, clocks, pthread/futex primitives, heap (failing allocations)"),
    "C24": dict(scen=[("core", "time_slices", 1), ("tasks", "power_modes", 1)], real="power, timer, async_task, time_slice, scoped_time_slice, scoped_time_slice_task, service()", stub="OS scheduler, clocks (simulated, with jumps), pthread/futex primitives, heap"),
    "C25": dict(scen=[("http", "http_requests", 1)], real="http, packet_stream, packet_connection, string_packet, tokens(), async_task, asio", stub="sockets and resolver (simulated network), OS scheduler, clocks, heap; the HTTP server is a scripted peer"),
    "C05": dict(scen=[("mutexes", "mutexes", 1)], real="recursive_mutex (all variants), switchable_mutex, proxy_mutex, scoped_multi_lock, mutex profiler", stub="OS scheduler, clocks, futex and pthread primitives, heap"),
    "C03": dict(scen=[("threads", "thread_life", 2), ("threads", "thread_wait", 1)], real="thread, waitable_event; libstdc++ threads", stub="OS scheduler, clocks, pthread/futex primitives, thread creation failures, heap"),
    "C04": dict(scen=[("threads", "events", 1)], real="waitable_event, waitable_event_list; libstdc++ condition_variable", stub="OS scheduler, clocks, pthread/futex primitives, heap"),
    "C02": dict(scen=[("pool", "pool_order", 1), ("pool", "pool_limit", 1)], real="thread_pool, thread, waitable_event; libstdc++ threads, futures", stub="OS scheduler, clocks, pthread/futex primitives, heap, processor count"),
    "C01": dict(scen=[("pool", "pool", 3), ("pool", "pool_stop", 1)], real="thread_pool, thread, waitable_event, lifetime; libstdc++ threads, futures", stub="OS scheduler, clocks, pthread/futex primitives, heap"),
}
NOT_APPLICABLE = {
    "C90": "A pure function of the document and its text: no schedule, clock, fault or interleaving in it (reading from failing streams is C16).",
    "C91": "Pure arithmetic on its operands: nothing for a simulator to schedule, delay or fail.",
    "C92": "Pure functions of their input: nothing for a simulator to schedule, delay or fail.",
}
