#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

BB = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/"
HB = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
SCHED = "schedule points at every iox::concurrent::Atomic operation (guard IOX_VERIF_HOOKS)"

p("C01", "Zero-copy ownership: a sample someone holds is never overwritten or reused",
  "From the moment a publisher, client or server loans memory until it publishes, sends or releases it, nobody else is handed overlapping memory; from the moment a sample, request or response is received until the receiver releases it, its payload, user header and size stay exactly what the sender wrote before sending. Memory becomes reusable only after the last holder (sender, queues, history, receivers) has let go of it.",
  ["schedules", "histories", "configurations"],
  "every interleaving of loan, publish, release, overflow, history replacement, take and release by any number of publishers and subscribers, clients and servers, and every mempool configuration",
  "Module tests follow one thread through a handful of operations; the stress tests do not check payload bytes against an ownership model, and use-after-free of a pool chunk is invisible because the memory stays mapped.",
  ["iceoryx_posh/source/mepoo/shared_chunk.cpp", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp", "iceoryx_posh/source/mepoo/mem_pool.cpp", BB+"chunk_sender.inl", BB+"chunk_receiver.inl", BB+"chunk_distributor.inl", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl"],
  [("reference counted chunks", "iceoryx_posh/source/mepoo/shared_chunk.cpp"), ("last-chunk reuse only without other owners", BB+"chunk_sender.inl tryAllocate"), ("lock-free free list", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp")],
  ["Publisher/Subscriber/Client/Server user ports: loan, publish, take, release; payload bytes"], SCHED)

p("C02", "Chunk conservation: no chunk leaks, none is freed twice",
  "At every quiescent point the number of used chunks of each memory pool equals the number of distinct chunks that are loaned, queued, kept in a history, kept for reuse by a sender, or held by a receiver. When all endpoints are gone all chunks of all pools are free again, whatever happened before (overflow, unsubscribe or stop offering with data in flight, failed sends, release without send).",
  ["schedules", "histories", "configurations"],
  "every operation history and interleaving of endpoint creation, subscribe/unsubscribe, offer/stopOffer, loan, publish, take, release and destruction",
  "Tests check the used-chunk counter after short scripted sequences; leaks on rarely taken paths (overflow while unsubscribing, sending to a vanished client, history resize) and under races are not sampled.",
  ["iceoryx_posh/source/mepoo/mem_pool.cpp", "iceoryx_posh/source/mepoo/memory_manager.cpp", "iceoryx_posh/source/mepoo/shared_chunk.cpp", BB+"chunk_distributor.inl", BB+"chunk_queue_popper.inl", BB+"chunk_queue_pusher.inl", "iceoryx_posh/source/popo/ports/server_port_user.cpp", "iceoryx_posh/source/popo/ports/client_port_user.cpp"],
  [("SharedChunk RAII", "iceoryx_posh/source/mepoo/shared_chunk.cpp"), ("releaseAll on port destruction", "iceoryx_posh/source/popo/ports/*_port_roudi.cpp")],
  ["MemPool used/free chunk counters"], SCHED)

p("C03", "Per-publisher order: taken samples are an in-order subsequence of those sent",
  "A subscriber takes the samples of one publisher in the order they were published, each at most once per connection and with intact content, and never takes something that was not published to it. As long as its queue does not overflow nothing published while it was connected is missing.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several publishers and subscribers of one topic, every queue capacity and queue-full policy",
  "Stress tests check totals on one configuration without schedule control; unit tests are sequential.",
  [BB+"chunk_distributor.inl", BB+"chunk_queue_pusher.inl", BB+"chunk_queue_popper.inl", BB+"variant_queue.inl", HB+"spsc_sofi.inl", HB+"mpmc_lockfree_queue/mpmc_lockfree_queue.inl"],
  [("one queue per subscriber, pushed under the publisher lock", BB+"chunk_distributor.inl deliverToAllStoredQueues")],
  ["Subscriber take()"], SCHED)

p("C04", "Overflow keeps the newest samples, and the missed-data flag tells the truth",
  "With the discard-oldest policy a subscriber that does not take keeps exactly the newest N samples, N being its queue capacity, and a publisher is never blocked or refused by it. The missed-data indication is raised when and only when at least one sample was discarded since it was last read.",
  ["schedules", "histories", "configurations"],
  "every queue capacity, burst length, number of publishers and interleaving of publishing, taking and reading the flag",
  "The tests cover a few capacities sequentially; lost-flag and off-by-one-capacity races need interleavings of push-with-overflow and pop.",
  [BB+"chunk_queue_pusher.inl", BB+"chunk_queue_popper.inl", BB+"variant_queue.inl", HB+"spsc_sofi.inl", HB+"mpmc_resizeable_lockfree_queue.hpp"],
  [("lostAChunk / hasLostChunks exchange", BB+"chunk_queue_popper.inl")],
  ["Subscriber take(), hasMissedData(), queue size"], SCHED)

p("C05", "Blocking policies never lose a sample and never block forever",
  "When subscriber (or server/client) and publisher agree on waiting for the consumer, every sample sent is taken exactly once and in order however small the queue is. A sender blocked on a full queue proceeds as soon as the consumer takes a sample, unsubscribes or disappears, and no other combination of policies ever blocks a sender. (Peers that block on each other in a circle are a dead-lock of the application, not covered.)",
  ["schedules", "histories", "configurations"],
  "every interleaving of blocked senders with takers, unsubscribe and destruction, for pub/sub and request/response",
  "Blocking behaviour is tested with fixed sleeps on one schedule.",
  [BB+"chunk_distributor.inl", BB+"chunk_queue_pusher.inl", "iceoryx_hoofs/posix/time/source/adaptive_wait.cpp"],
  [("remainingQueues retry loop re-checks membership under lock", BB+"chunk_distributor.inl deliverToAllStoredQueues")],
  ["publish()/send() return, take()"], SCHED)

p("C06", "Late joiners get exactly the requested history, then the stream without gap",
  "A subscriber that connects receives the newest min(requested, publisher history, published so far) samples, oldest first and without duplicates, followed by every later sample (as far as its queue and queue-full policy allow; what does not fit is reported as missed). There is no published sample between the first delivered history sample and the last live sample that it misses, even if it connects while the publisher is publishing.",
  ["schedules", "histories", "configurations"],
  "every history request, history and queue capacity, and every interleaving of connecting with publishing",
  "Tests connect while the publisher is idle.",
  [BB+"chunk_distributor.inl", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_multi_producer.cpp"],
  [("tryAddQueue pushes the history under the distributor lock", BB+"chunk_distributor.inl")],
  ["Subscriber take()"], SCHED)

p("C07", "Request/response: a response reaches exactly the client and request it answers",
  "A request sent by a connected client reaches exactly the server offering that service, and each response a server sends is received only by the client whose request it answers, at most once, in order, with the sequence id of that request and intact content. Responses to clients that have disconnected or been replaced by another client are dropped without being delivered to anyone, and the sender is told.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several clients and a server, with clients connecting, disconnecting, being destroyed and recreated while requests are in flight, and every queue policy",
  "Tests use one or two clients in fixed sequences; stale client queue ids and indices need slot reuse while responses are pending.",
  ["iceoryx_posh/source/popo/ports/server_port_user.cpp", "iceoryx_posh/source/popo/ports/client_port_user.cpp", "iceoryx_posh/source/popo/ports/server_port_roudi.cpp", "iceoryx_posh/source/popo/ports/client_port_roudi.cpp", "iceoryx_posh/source/popo/rpc_header.cpp", BB+"chunk_distributor.inl", BB+"chunk_sender.inl"],
  [("client queue id + last known index in the RPC header", "iceoryx_posh/source/popo/rpc_header.cpp"), ("getQueueIndex/deliverToQueue by unique id", BB+"chunk_distributor.inl")],
  ["Client::take, Server::take, send results"], SCHED)

p("C08", "WaitSet: no lost wake-up, and exactly the active attachments are reported",
  "Whenever an attached event was signalled or an attached state holds, a thread in wait() (now or later) returns and the returned notifications include that attachment, with the id, origin and callback it was attached with; nothing that was never signalled, is detached or is no longer active is reported (wait() may return without any notification). Attach beyond capacity or twice fails without side effect, and destroying either side cleans the other up.",
  ["schedules", "histories"],
  "every interleaving of signalling, waiting, attaching, detaching and destruction of up to the maximum number of attachments",
  "Tests signal before waiting or with sleeps; lost-wakeup windows between flag, counter and semaphore are a few instructions wide.",
  ["iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp", "iceoryx_posh/source/popo/trigger.cpp", "iceoryx_posh/source/popo/trigger_handle.cpp"],
  [("per-trigger notification flags + semaphore", "iceoryx_posh/source/popo/building_blocks/condition_*.cpp")],
  ["WaitSet::wait/timedWait results"], SCHED)

p("C09", "Listener: callbacks run for every event, never concurrently, never after detach",
  "After an attached event is signalled its callback is invoked at least once afterwards with the origin and user data it was attached with; callbacks are never invoked more often than events were signalled and never concurrently with another callback of the same listener. When detach returns, in any other thread, the callback is not running and will not be invoked again; a callback may detach itself or others without deadlock.",
  ["schedules", "histories"],
  "every interleaving of signalling, attaching, detaching (from outside and from callbacks), and destruction of listener and event origin",
  "Tests use sleeps and one schedule; detach-versus-running-callback races are not sampled.",
  ["iceoryx_posh/source/popo/listener.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/listener.inl", "iceoryx_posh/source/popo/trigger_handle.cpp", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp"],
  [("recursive lock per event slot held during the callback", "iceoryx_posh/source/popo/listener.cpp"), ("IndexManager free list", "iceoryx_posh/source/popo/listener.cpp")],
  ["callback invocations"], SCHED)

p("C10", "A crashed process is cleaned up completely and disturbs nobody else",
  "When an application is killed at any moment while it is not inside a call that modifies shared state, the daemon, once it notices or the name is reused, removes all its endpoints and services, frees every chunk it held and accepts a new registration under the same name. Other processes keep communicating: they neither block, crash nor lose data among themselves, and see the dead endpoints disconnect.",
  ["crash_points", "histories", "configurations"],
  "every point of an application's life outside shared-state critical sections (idle, holding loans and samples, waiting, blocked on a full queue, where the one chunk it is sending may be lost as documented), every combination of endpoints it owns",
  "The integration tests kill nothing while endpoints hold data; recovery is tested at unit level with mocks.",
  ["iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/roudi/roudi.cpp", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_roudi.cpp"],
  [("heartbeat monitoring and deletePortsOfProcess", "iceoryx_posh/source/roudi/process_manager.cpp"), ("UsedChunkList::cleanup", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl")],
  ["real daemon and SIGKILLed client processes; mempool counters; peers' streams"], None)

p("C11", "Endpoints connect iff service and QoS match, and states are reported truthfully",
  "A publisher and a subscriber (a server and a client) become connected if and only if the service description is equal, the provider is offered, the consumer wants the connection and their policies are compatible as documented (queue-full policies, history support). After any sequence of offer, stopOffer, subscribe, unsubscribe, creation and destruction the connection set, the reported states and the data flow agree with that rule once the daemon has processed the changes, and a refused pair never exchanges data.",
  ["histories", "configurations", "schedules"],
  "every sequence of state changes of any number of endpoints over several services, every policy combination, every interleaving with the daemon's discovery loop",
  "Tests enumerate single pairs and short state sequences.",
  ["iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_multi_producer.cpp", "iceoryx_posh/source/popo/ports/client_port_roudi.cpp", "iceoryx_posh/source/popo/ports/server_port_roudi.cpp", "iceoryx_posh/source/capro/capro_message.cpp"],
  [("CaPro state machines and isCompatiblePubSub/isCompatibleClientServer", "iceoryx_posh/source/roudi/port_manager.cpp")],
  ["isOffered, hasSubscribers, getSubscriptionState, hasClients, getConnectionState, data flow"], SCHED)

p("C12", "Discovery reports exactly the offered services",
  "A service search returns exactly the services currently offered that match every non-wildcard string, each once, separately for publish/subscribe and request/response, and a service appears when its first provider offers it and disappears when its last provider stops, is destroyed or dies. A search result that changed since the last search makes the service-registry notification fire.",
  ["histories", "configurations"],
  "every history of offering and un-offering by several providers and every combination of wildcards, up to the registry's capacity",
  "Tests use a few services; reference counting per service and slot reuse in the registry need long histories.",
  ["iceoryx_posh/source/roudi/service_registry.cpp", "iceoryx_posh/include/iceoryx_posh/internal/roudi/service_registry.hpp", "iceoryx_posh/source/runtime/service_discovery.cpp", "iceoryx_posh/source/roudi/port_manager.cpp"],
  [("registry entries with provider counters", "iceoryx_posh/source/roudi/service_registry.cpp")],
  ["ServiceDiscovery::findService, ServiceRegistry::find"], None)

p("C13", "Multi-producer multi-consumer queues are linearizable bounded FIFO queues",
  "Concurrent push, overflowing push, pop and capacity changes behave as if executed one at a time on a bounded FIFO queue: nothing is lost, duplicated, invented or reordered, a push fails or evicts only if the queue is full at some moment during the call, and a pop fails only if it is empty at some moment during the call. With no operation in progress size and capacity are exact. Evicted elements are returned to the caller exactly once and are the oldest.",
  ["schedules", "histories"],
  "every interleaving at the granularity of atomic operations of any number of producers and consumers, every capacity, every fill level and index wrap-around",
  "The stress tests check element counts under the OS scheduler, where the windows are rarely hit, and never check linearizability.",
  [HB+"mpmc_lockfree_queue/mpmc_index_queue.inl", HB+"mpmc_lockfree_queue/mpmc_lockfree_queue.inl", HB+"mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl", HB+"mpmc_lockfree_queue/cyclic_index.inl"],
  [("cyclic index with CAS", HB+"mpmc_lockfree_queue/mpmc_index_queue.inl")],
  ["push/tryPush/pop/size/setCapacity of the queue classes"], SCHED)

p("C14", "Single-producer single-consumer queues are bounded FIFO queues under concurrency",
  "With one producer and one consumer thread a FIFO or overflowing FIFO delivers each pushed element at most once, unmodified and in push order; an element is missing only if it was handed back to the producer as the overflow victim, which happens only when the queue is full. Emptiness, size and capacity reports agree with that.",
  ["schedules", "histories"],
  "every interleaving of one producer and one consumer, every capacity and wrap-around",
  "The stress tests rely on the OS scheduler and check counts only.",
  [HB+"spsc_fifo.inl", HB+"spsc_sofi.inl"],
  [("read/write positions with acquire/release and CAS", HB+"spsc_sofi.inl")],
  ["push/pop/size/empty/capacity"], SCHED)

p("C15", "Memory pools hand out each chunk to one owner at a time",
  "A lock-free free list or memory pool hands out each index or chunk to at most one owner at a time, accepts back only what is currently handed out, and fails to allocate only if everything is handed out. Allocation takes the smallest pool whose chunks fit, chunks lie inside their pool's memory, do not overlap, are aligned, and the used, free and minimum-free numbers are exact at quiescence.",
  ["schedules", "histories", "configurations"],
  "every interleaving of allocations and frees including ABA patterns, every pool configuration and request size",
  "Stress tests sample few schedules; ABA and double-free acceptance need specific interleavings.",
  ["iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp", "iceoryx_posh/source/mepoo/mem_pool.cpp", "iceoryx_posh/source/mepoo/memory_manager.cpp"],
  [("ABA counter in the head node, marker for handed-out slots", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp")],
  ["MpmcLoFFLi push/pop, MemPool getChunk/freeChunk, MemoryManager::getChunk/getMemPoolInfo"], SCHED)

p("C16", "Chunk layout: headers and payload never overlap and are always recoverable",
  "For every payload size, payload alignment, user-header size and alignment for which a chunk is granted, the user payload is aligned as requested and lies with the user header completely inside the chunk without overlapping each other or the management data, and the chunk is found again from the payload pointer alone. Requests that cannot be laid out or exceed every pool are refused with the proper error instead of being granted.",
  ["inputs", "configurations"],
  "every combination of payload size, alignment, user header size/alignment and chunk size, including extremes near overflow",
  "Tests sample a parameter grid; off-by-padding mistakes appear only for particular residues.",
  ["iceoryx_posh/source/mepoo/chunk_header.cpp", "iceoryx_posh/source/mepoo/chunk_settings.cpp", "iceoryx_posh/source/mepoo/memory_manager.cpp"],
  [("back-offset before the payload", "iceoryx_posh/source/mepoo/chunk_header.cpp"), ("required chunk size computation", "iceoryx_posh/source/mepoo/chunk_settings.cpp")],
  ["loan results: payload and user-header pointers, fromUserPayload round trip, byte patterns"], None)

p("C17", "Relative pointers stay valid across mappings and relocation",
  "A relative or relocatable pointer stored in shared memory designates the same object in every process whatever address the memory is mapped to; null stays null; copies, moves, assignments, comparison and casts behave like those of a raw pointer. Registering, resolving and unregistering memory segments gives each segment a distinct id and resolves every address inside a segment to that segment and offset.",
  ["inputs", "histories", "configurations"],
  "every segment layout, address within or at the border of a segment, registration history and mapping address",
  "Tests use few fixed offsets and a single mapping address.",
  ["iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl", "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl", "iceoryx_hoofs/memory/include/iox/detail/relocatable_ptr.inl", "iceoryx_hoofs/memory/source/relative_pointer_data.cpp", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp"],
  [("segment id + offset", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl")],
  ["pointer values after double mapping / memcpy relocation"], None)

p("C18", "Fixed-capacity containers match reference containers and own their elements",
  "For every sequence of operations the vector, list, forward list, fixed-position container, stack and uninitialised array hold the same elements in the same order as the corresponding unbounded reference container, reject exactly the operations that exceed capacity or are out of range, and leave the content unchanged when they reject. Every element constructed is destroyed exactly once, iterators stay valid where documented, and no memory outside the container is touched.",
  ["inputs", "histories"],
  "every sequence of operations, every capacity and element type with non-trivial lifetime",
  "Example-based tests cover short sequences; interactions (erase after wrap-around of the free list, self-assignment, move between different fill levels) are combinatorial.",
  ["iceoryx_hoofs/container/include/iox/detail/vector.inl", "iceoryx_hoofs/container/include/iox/detail/list.inl", "iceoryx_hoofs/container/include/iox/detail/forward_list.inl", "iceoryx_hoofs/container/include/iox/detail/fixed_position_container.inl", "iceoryx_hoofs/buffer/include/iox/detail/stack.inl", "iceoryx_hoofs/container/include/iox/detail/uninitialized_array.inl"],
  [("index-linked free lists and placement new", "iceoryx_hoofs/container/include/iox/detail/*.inl")],
  ["container public API, element life-time counters"], None)

p("C19", "Vocabulary types own exactly one live value and never leak or double-destroy",
  "optional, variant, expected, the storable function and function reference, unique pointer and scope guard hold at every moment exactly the value their operation history determines, across copy, move, assignment, swap, emplace, reset and self-assignment. Every contained value is constructed and destroyed exactly once, moved-from objects are in the documented state, and the error/empty state is reported truthfully.",
  ["inputs", "histories"],
  "every operation sequence over several objects and several contained types",
  "Example tests check single operations, mostly with trivial types; life-time accounting over sequences is not checked.",
  ["iceoryx_hoofs/vocabulary/include/iox/detail/optional.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/expected.inl", "iceoryx_hoofs/functional/include/iox/detail/storable_function.inl", "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl", "iceoryx_hoofs/memory/include/iox/detail/scope_guard.inl"],
  [("placement new with state flag/index", "iceoryx_hoofs/vocabulary/include/iox/detail/*.inl")],
  ["public API of the types, life-time counters"], None)

p("C20", "Text input is converted and parsed exactly or rejected",
  "Converting text to a number succeeds exactly if the whole text denotes a value representable in the target type, and yields that value; everything else is rejected without crash. Command lines and TOML configuration files yield exactly the options and memory configuration written in them, or an error naming the problem, and never a silently different configuration.",
  ["inputs"],
  "every text, every target type, every command line and configuration document",
  "Tests list examples; boundaries, signs, embedded blanks, exponents and locale forms are not enumerated.",
  ["iceoryx_hoofs/utility/include/iox/detail/convert.inl", "iceoryx_hoofs/cli/source/command_line_parser.cpp", "iceoryx_hoofs/cli/include/iox/cli/arguments.inl", "iceoryx_posh/source/roudi/roudi_cmd_line_parser.cpp", "iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp", "iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp", "iceoryx_posh/source/mepoo/mepoo_config.cpp"],
  [("strto* with errno/end-pointer and range checks", "iceoryx_hoofs/utility/include/iox/detail/convert.inl")],
  ["convert::from_string, parseCommandLineArguments, CmdLineParser, TomlRouDiConfigFileProvider::parse"], None)

p("C21", "Control channels and messages transport everything unmodified and in order",
  "Every message accepted by a message queue, domain socket or named pipe is received exactly once, unmodified, without merging or truncation and in sending order; a message that is too long, a full or empty channel and a timeout are reported as such and change nothing. A list of valid entries put into a control message or a serialised service description is read back identically, and malformed messages are recognised as invalid instead of being misread.",
  ["inputs", "histories", "schedules"],
  "every message content and length up to and beyond the limit, every interleaving of several senders and a receiver",
  "Tests send a few fixed strings.",
  ["iceoryx_hoofs/posix/ipc/source/message_queue.cpp", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp", "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp", "iceoryx_posh/source/runtime/ipc_message.cpp", "iceoryx_posh/source/runtime/ipc_interface_base.cpp", "iceoryx_posh/source/capro/service_description.cpp", "iceoryx_hoofs/utility/include/iox/detail/serialization.inl"],
  [("separator-terminated entries", "iceoryx_posh/source/runtime/ipc_message.cpp"), ("length-prefixed serialization", "iceoryx_hoofs/utility/include/iox/detail/serialization.inl")],
  ["send/receive results"], None)

p("C22", "Locks exclude, semaphores count, timers and periodic tasks keep their promises",
  "Mutexes, spin locks and lock wrappers admit at most one holder at a time, try-lock never blocks or wrongly succeeds, recursive variants need as many unlocks as locks, and non-recursive ones refuse re-locking. Semaphores let exactly as many waits through as initial value plus posts and never lose a post; waiting with a timeout never returns early without being posted; a mutex whose owner died is reported and can be made usable again, and a primitive whose initialisation failed is not handed out. Deadline timers expire exactly when their time has passed, and a periodic task runs repeatedly, never twice at once, never sooner than its interval after the previous run, and not after stop returned.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of lock, try-lock, unlock, post, wait and try-wait of several threads, owner death included",
  "Tests use two threads and sleeps.",
  ["iceoryx_hoofs/posix/sync/source/mutex.cpp", "iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp", "iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp", "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp", "iceoryx_hoofs/concurrent/sync/include/iox/detail/smart_lock.inl", "iceoryx_hoofs/posix/time/source/deadline_timer.cpp", "iceoryx_hoofs/concurrent/sync_extended/include/iox/detail/periodic_task.hpp"],
  [("pthread/POSIX primitives and atomic flags", "iceoryx_hoofs/posix/sync/source")],
  ["lock/tryLock/unlock/post/wait results, critical-section monitor"], SCHED)

p("C23", "Access control: data segments are writable and readable only as configured",
  "A process gets write access to a shared-memory segment only if one of its groups is the segment's writer group and read access only if one of its groups is its reader or writer group, enforced by the operating system and reflected by what it can loan and which segments it maps. A process without write access to any segment cannot obtain a publishing endpoint, and nobody but the user the daemon runs as gains more than configured.",
  ["configurations", "inputs"],
  "every assignment of users to groups and of groups to segments",
  "The tests run as one user; group resolution and ACL contents are checked for a single constellation.",
  ["iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl", "iceoryx_hoofs/posix/filesystem/source/posix_acl.cpp", "iceoryx_hoofs/posix/auth/source/posix_user.cpp", "iceoryx_hoofs/posix/auth/source/posix_group.cpp"],
  [("POSIX ACL on the segment and group matching", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/segment_manager.inl")],
  ["segment mappings/information for a user, shm_open as that user"], None)

p("C24", "Introspection shows the system as it is",
  "The introspection topics report, for every history, exactly the registered processes, the existing ports with their service, owner and connections, and for every mempool the chunk size, total, used and minimum-ever-free number. A change becomes visible with the next publication, and nothing that is gone stays listed.",
  ["histories", "schedules", "configurations"],
  "every history of process, port and chunk operations",
  "Tests use mocked ports and a couple of events.",
  ["iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/mempool_introspection.inl", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl", "iceoryx_posh/source/mepoo/mem_pool.cpp"],
  [("introspection published by the daemon from its own tables", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection")],
  ["introspection subscribers"], None)

p("C25", "The C API behaves like the C++ API",
  "Every operation of the C binding has the effect and result of the corresponding C++ operation, with every result, state, policy and error mapped to the equivalent C value, and data exchanged between C and C++ endpoints arrives unchanged. Options structs carry every option through, and an uninitialised options struct is recognised.",
  ["inputs", "histories"],
  "every operation sequence mixing C and C++ endpoints, every option value and error",
  "Binding tests check selected calls with fixed arguments.",
  ["iceoryx_binding_c/source/c_publisher.cpp", "iceoryx_binding_c/source/c_subscriber.cpp", "iceoryx_binding_c/source/c_client.cpp", "iceoryx_binding_c/source/c_server.cpp", "iceoryx_binding_c/source/c_wait_set.cpp", "iceoryx_binding_c/source/c_listener.cpp", "iceoryx_binding_c/include/iceoryx_binding_c/internal/c2cpp_enum_translation.hpp", "iceoryx_binding_c/source/cpp2c_enum_translation.cpp"],
  [("enum translation tables and thin wrappers", "iceoryx_binding_c/source")],
  ["C API results versus model"], None)

p("C26", "Documented concurrent use is free of data races and memory errors",
  "Using separate endpoints from separate threads, and the queues, pools, wait sets and listeners as documented, never makes two threads access the same memory without the synchronisation the C++ memory model requires, nor reads or writes outside an object or after its end. In particular what was written before publishing happens before what the receiver reads, and what the receiver read happens before the memory is reused.",
  ["schedules", "histories"],
  "all executions of documented concurrent use",
  "On x86 with strong ordering a missing release/acquire never fails a functional test.",
  ["iceoryx_posh/source/mepoo/shared_chunk.cpp", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp", HB+"mpmc_lockfree_queue/mpmc_index_queue.inl", HB+"spsc_fifo.inl", HB+"spsc_sofi.inl", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp"],
  [("release/acquire atomics", "iceoryx_hoofs/concurrent, iceoryx_posh/source")],
  ["ThreadSanitizer happens-before monitor"], SCHED)

p("C27", "Loan, hold and endpoint limits are enforced exactly and recoverably",
  "A publisher, client or server can hold exactly the documented number of loans in parallel and a receiver exactly the documented number of received samples; one more is refused with the proper error and leaves everything held untouched (a refused take drops the one sample it would have returned), and succeeds again after one is released. When pools, endpoints, attachments or queues run out, the request is refused with the documented error and everything that existed continues to work.",
  ["histories", "configurations"],
  "every history of taking and releasing in any order around the limits, and every resource",
  "Tests fill each limit once in one order.",
  ["iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl", BB+"chunk_sender.inl", BB+"chunk_receiver.inl", "iceoryx_posh/include/iceoryx_posh/iceoryx_posh_types.hpp", "iceoryx_posh/source/roudi/port_manager.cpp"],
  [("UsedChunkList capacity", "iceoryx_posh/include/iceoryx_posh/internal/popo/used_chunk_list.inl")],
  ["loan/take error values"], None)

p("C28", "One daemon per domain, isolated domains, orderly registration",
  "At most one daemon runs per domain; daemons and applications of different domains never see each other's services, data or resources. An application is registered under a unique valid name, gets refused when the daemon's version is incompatible or the name is in use by a live process, and after daemon and applications have ended no shared-memory, lock or socket files of theirs remain.",
  ["histories", "configurations", "schedules"],
  "every order of starting and stopping daemons and applications in several domains",
  "Tests run a single embedded daemon in one domain.",
  ["iceoryx_posh/source/roudi/roudi.cpp", "iceoryx_posh/source/roudi/process_manager.cpp", "iceoryx_posh/source/runtime/ipc_runtime_interface.cpp", "iceoryx_posh/source/runtime/ipc_interface_base.cpp", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp", "iceoryx_posh/source/version/version_info.cpp", "iceoryx_posh/source/runtime/posh_runtime.cpp"],
  [("file locks per name", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp"), ("resource prefix with domain id", "iceoryx_posh/include/iceoryx_posh/iceoryx_posh_types.inl")],
  ["process exit codes, service discovery, /dev/shm, /tmp lock and socket files"], None)

p("C29", "Fixed-capacity strings and file names are always valid and bounded",
  "A fixed-capacity string always equals what the same operations on an unbounded string followed by the documented truncation or rejection give, is zero-terminated, never exceeds its capacity and compares like a character sequence. File, path, user and group name types accept exactly the valid names, and no sequence of modifications turns a valid one into an invalid one.",
  ["inputs", "histories"],
  "every content, capacity pair and operation sequence",
  "Example tests; position and truncation arithmetic has corner cases per capacity pair.",
  ["iceoryx_hoofs/vocabulary/include/iox/detail/string.inl", "iceoryx_hoofs/vocabulary/include/iox/detail/semantic_string.inl", "iceoryx_hoofs/posix/vocabulary/include/iox/detail/path_and_file_verifier.inl", "iceoryx_hoofs/posix/vocabulary/source/file_name.cpp", "iceoryx_hoofs/posix/vocabulary/source/file_path.cpp"],
  [("bounded copy with explicit truncation", "iceoryx_hoofs/vocabulary/include/iox/detail/string.inl"), ("validity re-check after modification", "iceoryx_hoofs/vocabulary/include/iox/detail/semantic_string.inl")],
  ["public API"], None)

p("C30", "Durations and units are computed exactly, saturating instead of overflowing",
  "Creating, adding, subtracting, scaling, comparing and converting durations yields the mathematically exact result where representable and the documented saturation or rounding otherwise, without undefined behaviour. Conversions to timespec, timeval and to other units round as documented for every value, and deadline timers built on them expire no earlier than asked.",
  ["inputs"],
  "every pair of durations and every scalar, including the extremes of each numeric type",
  "Tests sample boundary values per function but not their combinations.",
  ["iceoryx_hoofs/time/include/iox/detail/duration.inl", "iceoryx_hoofs/time/source/duration.cpp", "iceoryx_hoofs/posix/time/source/deadline_timer.cpp"],
  [("seconds + nanoseconds with saturation", "iceoryx_hoofs/time/include/iox/detail/duration.inl")],
  ["public API versus 128-bit reference arithmetic"], None)

p("C31", "Shared objects of the OS are created, opened and removed exactly as asked",
  "Shared memory, memory maps, files, file locks and named semaphores are created, opened, purged and removed according to the requested open mode, with the requested size, permissions and access mode, and ownership decides who removes them. A failed or raced creation leaves nothing behind and disturbs no existing object, and memory freshly provided is zeroed and lies fully inside the mapping. Of several processes racing to create one object exclusively exactly one succeeds, and of several racing to open or create it exactly one owns it.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every open mode x access mode x pre-existing state, every order of creating, opening and destroying handles, failing system calls included",
  "Tests exercise individual modes from clean state.",
  ["iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp", "iceoryx_hoofs/posix/ipc/source/posix_memory_map.cpp", "iceoryx_hoofs/posix/filesystem/source/file.cpp", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp", "iceoryx_hoofs/posix/sync/source/named_semaphore.cpp", "iceoryx_hoofs/memory/source/bump_allocator.cpp"],
  [("builders with open mode and ownership flag", "iceoryx_hoofs/posix/ipc/source")],
  ["/dev/shm contents, permissions, results"], None)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
