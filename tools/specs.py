"""What each property's check runs. cases are per shard."""
SPECS = {}

def prop(id, jobs, technique, note, assumptions=(), level="exploration"):
    SPECS[id] = {"jobs": jobs, "technique": technique, "note": note, "assumptions": list(assumptions), "level": level}

def job(harness, quick, thorough, mode="", **kw):
    d = {"harness": harness, "mode": mode, "cases": {"quick": quick, "thorough": thorough}}
    d.update(kw)
    return d

SC = "interleavings are sequentially consistent and switch at atomic operations, locks, semaphores, sleeps and yields only"

prop("C13", [job("h_mpmc", 40000, 1200000, require={"pushes": 1000, "evictions": 100, "empty_pops": 100, "resizes": 100})],
     "controlled-schedule stress with FIFO linearizability oracle, life-time monitor, ASan/UBSan",
     "holds on all schedules explored", [SC])

prop("C14", [job("h_spsc", 30000, 1000000, require={"pushes": 1000, "evictions": 100, "empty_pops": 100, "refused": 100})],
     "controlled-schedule stress with exact linearizability check, ASan/UBSan", "holds on all schedules explored", [SC])

prop("C15", [job("h_pool", 30000, 800000, require={"pops": 1000, "allocations": 1000, "exhausted": 100, "handovers": 100})],
     "controlled-schedule stress with ownership-interval and accounting monitors, ASan/UBSan", "holds on all schedules explored", [SC])

SEQ = "exact sequential reference model compared with the real endpoints, daemon port manager and pools after every operation of random histories; ASan/UBSan"
PS = {"publishes": 2000, "takes": 1000, "conservation_checks": 10000, "content_checks": 1000, "connections": 500, "evictions": 100}
RPC = {"requests": 1000, "responses": 500, "connections": 500, "conservation_checks": 10000, "content_checks": 1000}
def seq_ps(q, t, mode="", **req): return job("h_seq_ps", q, t, mode=mode, require={**PS, **req})
def seq_rpc(q, t, mode="", **req): return job("h_seq_rpc", q, t, mode=mode, require={**RPC, **req})

CON = "the same endpoints under a seeded controlled scheduler (random walk + PCT) with interval-based delivery, ownership, content and conservation monitors"
def con_ps(q, t, mode, **req): return job("h_pubsub", q, t, mode=mode, require={"publishes": 1000, "takes": 500, "content_checks": 1000, **req})
def con_rpc(q, t, mode, **req): return job("h_rpc", q, t, mode=mode, require={"requests": 500, "responses": 300, "content_checks": 1000, **req})
BOTH = SEQ + "; " + CON

prop("C01", [seq_ps(4500, 100000), seq_rpc(3000, 60000), con_ps(2800, 60000, ""), con_rpc(1600, 40000, "")], BOTH,
     "content pattern of every sample, request and response re-verified at every step of its life; no chunk handed out while somebody else owns it", [SC])
prop("C02", [seq_ps(4500, 100000, crashes=10), seq_rpc(3000, 60000, crashes=10), con_ps(2000, 50000, "chaos", leak_checks=100, crashes=20), con_rpc(1200, 30000, "chaos", leak_checks=100, crashes=20)], BOTH,
     "used-chunk counters equal the model after every operation of sequential histories, and zero at the end of concurrent ones", [SC])
prop("C03", [seq_ps(6000, 120000), con_ps(3600, 60000, "static", judged_streams=100), con_ps(2800, 50000, "join", judged_epochs=50)], BOTH,
     "per-publisher order, no duplicates, no inventions, completeness", [SC])
prop("C04", [seq_ps(7500, 120000, missed_true=50, missed_false=50), con_ps(4800, 80000, "static", lost_samples=50, missed_true=20)], BOTH,
     "latest samples kept, loss always reported", [SC])
prop("C05", [con_ps(8000, 120000, "block", judged_streams=100, left_unsubscribe=20, left_destroy=20, left_crash=20), con_rpc(4000, 60000, "block", left_disconnect=20, left_destroy=20, left_crash=20, server_stopped=5)], CON + "; progress watchdog of the scheduler",
     "nothing lost to a blocking receiver, and waiting ends when the receiver makes room, leaves or dies", [SC, "waiting in both directions at once (request and response queue both blocking and full) is a circular wait of the application and is not generated"])
prop("C06", [seq_ps(6000, 120000, history_deliveries=500, merged_histories=20), con_ps(8000, 120000, "join", history_joins=100, joins_during_publish=20)], BOTH,
     "late joiners get exactly the newest min(requested, kept) samples and then every following one", [SC])
prop("C07", [seq_rpc(6000, 120000, responses_taken=500, respond_gone=50, respond_disconnected=50), con_rpc(4000, 80000, "", responses_taken=300)], BOTH,
     "each response reaches the client that asked, once, with its sequence id", [SC])
prop("C11", [seq_ps(7500, 100000, state_checks=10000), seq_rpc(6000, 80000, stop_offer_to_unconnected=100, stop_offers=100)], SEQ,
     "connection state of every endpoint equals the model's after every operation")
prop("C27", [seq_ps(1200, 80000, mode="limits", port_limit_runs=20, limit_runs=10), seq_rpc(3000, 80000, refused_limit=100, refused_hold=50)], SEQ,
     "every limit is refused with its documented error and nothing else changes")

SEQ1 = "random operation histories on the real type, every observable compared with an exact reference model after every operation; element life-time monitor; expected terminations judged in forked children; ASan/UBSan"
prop("C18", [job("h_containers", 16000, 600000, require={"operations": 20000, "comparisons": 50000, "iterator_checks": 2000, "life_checks": 20000, "terminations": 50})], SEQ1,
     "vector, list, forward_list, stack, fixed_position_container, uninitialized storage behave as their std counterparts with a fixed capacity",
     ["arguments that alias elements of the same container are not generated"])
prop("C19", [job("h_vocab", 20000, 800000, require={"operations": 20000, "state_checks": 20000, "calls": 1000, "assign_to_empty": 100, "refused_assignments": 20, "terminations": 50})], SEQ1,
     "optional, variant, expected, function, unique_ptr, ScopeGuard keep value and life-time semantics", ["operations on moved-from unique_ptr and function, which terminate by design, are not generated"])
prop("C29", [job("h_string", 20000, 800000, require={"operations": 20000, "comparisons": 20000, "relations": 20000, "searches": 5000, "name_operations": 5000, "names_accepted": 500, "names_rejected": 500, "names_modified": 200, "terminations": 20})], SEQ1,
     "bounded strings and semantic names", ["arguments without embedded zeros that do not alias the modified string"])
prop("C30", [job("h_duration", 60000, 3000000, extra=("-fsanitize=float-cast-overflow",), require={"results": 100000, "creations": 10000, "scalings": 10000, "float_scalings": 10000, "conversions": 5000, "timer_checks": 500})],
     "all operations on durations around the borders of the numeric types compared with exact 128-bit arithmetic; ASan/UBSan incl. float-cast-overflow", "exact or documented saturation")
prop("C17", [job("h_relptr", 15000, 600000, require={"lookups": 20000, "registrations": 5000, "dereferences": 20000, "mappings": 5000, "relocations": 1000, "runs_repository": 500, "runs_relative": 500, "runs_relocatable": 500}), job("h_views", 1200, 40000, require={"view_changes": 5000, "publishes": 1000, "takes": 500, "requests": 200, "responses": 100, "notifications": 200, "crashes": 20, "content_checks": 1000})],
     "segments mapped several times at different addresses: every operation runs with one mapping accessible and all the others protected, so that any stored raw address faults; results compared with an exact model; ASan/UBSan", "nothing stored in shared memory depends on where it is mapped")
prop("C16", [job("h_layout", 40000, 1500000, require={"valid_requests": 10000, "invalid_requests": 5000, "oversized_requests": 200, "placements": 10000, "huge_placements": 200, "granted": 5000, "refused_oversized": 500, "refused_exhausted": 500, "takes": 200, "responses": 500, "endpoint_refusals": 500})],
     "requests over the whole range of the parameter types, granted chunks placed on ASan-guarded memory of exactly the required size (or reserved address space for huge ones), layout judged from the request alone and by writing patterns to every part; ASan/UBSan", "granted layouts are aligned, disjoint, inside the chunk and recoverable; everything else is refused with the right error",
     ["requests within 64 bytes (plus alignment) of the limits of the size types may be refused a little early"])
prop("C20", [job("h_text", 30000, 1200000, require={"conversions": 500000, "accepted": 100000, "rejected": 100000, "command_lines": 3000, "rejected_lines": 1000, "option_values": 5000, "definitions": 1500, "daemon_lines": 1500, "toml_accepted": 500, "toml_rejected": 500, "toml_broken": 50, "toml_through_file": 50, "gateway_files": 1000})],
     "numbers around the borders of all types, damaged numbers, command lines and configuration files generated together with their meaning and handed to the real converters and parsers; ASan/UBSan", "accepted exactly when meaningful, with exactly the meant values, otherwise the right error and never a crash",
     ["leading blanks and subnormal floats may be accepted or refused; abbreviated long options, unknown TOML keys and --help combined with --config-file are only checked for the absence of crashes"])

prop("C08", [job("h_waitset", 12000, 300000, require={"signals": 20000, "reported_events": 5000, "reported_states": 5000, "several_active": 1000, "waits": 5000, "destroyed_origins": 500, "moved_attachments": 100, "refused_full": 500, "refused_twice": 100, "marked_for_destruction": 50})],
     CON.replace("the same endpoints", "WaitSet, user triggers, subscribers, clients and servers") + "; sequential histories against an exact model", "every signalled event is reported, once and with its own origin and id; no lost wake-up; nothing is reported for detached or destroyed origins", [SC])
prop("C09", [job("h_listener", 3000, 120000, require={"signals": 20000, "invocations": 10000, "attachments": 5000, "detachments": 2000, "self_detached": 500, "attached_in_callback": 100, "detached_in_callback": 50, "destroyed_attached": 50, "early_destroy": 200, "satisfied_checks": 2000}),
             job("h_listener", 1000, 10000, mode="selfdetach", require={"invocations": 10}), job("h_listener", 1000, 10000, mode="cbattach", require={"invocations": 10})],
     "Listener with its own thread, user threads and callbacks which signal, attach and detach under a seeded controlled scheduler; online monitor in the callbacks, bounded-wait and deadlock detection of the scheduler; ASan/UBSan", "every signal is followed by its callback, one callback at a time, none after detach returned, no hang", [SC])

prop("C12", [job("h_discovery", 1000, 40000, leaks=False, require={"providers": 2000, "offers": 1000, "stops": 1000, "deaths": 200, "exact_searches": 5000, "found": 2000, "searches_in_between": 1000, "notifications": 500, "synchronisations": 2000}), seq_rpc(3000, 60000), seq_ps(2000, 60000)],
     "a real daemon with several applications in one domain: random histories of offering, stopping, creating, destroying and dying providers, every search at a quiescent point compared with the exact set of offered services and every search in between with the sets before and after; ASan/UBSan", "a search finds exactly the services which are offered, in any filter combination, and the listener of discovery changes is notified")
prop("C24", [job("h_intro", 200, 8000, leaks=False, require={"publishers_seen": 500, "subscribers_seen": 500, "processes_seen": 1000, "used_chunks_seen": 300, "deaths": 50, "destroyed": 500, "stability_checks": 100, "synchronisations": 500})],
     "a real daemon with introspection: random histories of applications, endpoints, loans and deaths; at quiescent points the published introspection data are compared with the exact model of the system; ASan/UBSan", "processes, ports, connections and memory pool usage are reported as they are")
prop("C25", [job("h_capi", 800, 30000, leaks=False, require={"c_publishers": 1000, "c_subscribers": 1000, "c_clients": 500, "c_servers": 500, "results_compared": 50000, "notified": 500, "listener_callbacks": 500, "received": 2000, "searches": 200, "replaced_during_destruction": 20, "misuse": 5, "limits_reached": 20})],
     "differential monitoring: every random history of endpoint, WaitSet, Listener and discovery operations is executed with the C++ API and again with the C API (mixed with C++ partners) against a real daemon, all observable results compared; ports replaced during destruction by injected operations; ASan/UBSan", "same results, same notifications, same limits")
prop("C21", [job("h_ipc", 500, 20000, mode="channels", require={"channels": 500, "sent": 5000, "received": 5000, "full": 200, "empty": 500, "too_long": 500, "absent_channels": 100, "malformed": 50, "names_accepted": 20, "concurrent_messages": 2000, "moves": 200}),
             job("h_ipc", 8000, 400000, mode="messages", require={"messages": 2000, "messages_invalid": 500, "mutants_refused": 5000, "round_trips": 3000, "wrapped_lengths": 100}),
             job("h_ipc", 120, 4000, mode="daemon", leaks=False, require={"hostile_messages": 2000, "witnessed": 500, "fresh_registrations": 50})],
     "random histories on real message queues, domain sockets and named pipes compared with an exact FIFO model, concurrent senders and receivers with exactly-once and order monitors, raw malformed messages; generated and mutated control messages and serialisations judged by an independent strict reader; hostile messages sent to a real daemon watched by a witness application; ASan/UBSan", "exactly once, unmodified, in order; limits and timeouts reported; malformed input recognised",
     ["strings without embedded zeros; control message entries without separator characters"])
prop("C26", [job("h_race", 1200, 40000, mode="blocks", flavour="tsan", require={"handed_over": 20000, "chunks": 5000, "evictions": 2000, "critical_sections": 5000, "queue_runs": 1000, "pool_runs": 200, "helper_runs": 100}),
             job("h_race", 800, 30000, mode="endpoints", flavour="tsan", require={"published": 20000, "payloads_read": 20000, "requests": 5000, "responses": 1000, "callbacks": 5000, "triggers": 5000, "reattached": 500, "short_lived": 50, "pubsub_runs": 100, "rpc_runs": 100, "notify_runs": 200}),
             job("h_race", 150, 6000, mode="runtime", flavour="tsan", leaks=False, require={"published": 5000, "payloads_read": 3000, "searches": 2000, "found": 1000, "runtime_runs": 200})],
     "freely running threads with random structure (queues, pools, endpoints, WaitSet, Listener, locks, periodic tasks, several threads of an application with a real daemon) under ThreadSanitizer: everything handed over is written and read with plain accesses, so that a missing happens-before edge is a reported race", "no data race between the documented concurrent uses",
     ["ThreadSanitizer's happens-before of the C++ memory model on the executed schedules; socket messages are modelled as release/acquire"])
prop("C10", [job("h_proc", 5, 150, mode="crash", leaks=False, pin=False, shards=16, parallel=16, require={"kills": 40, "all_chunks_free": 40, "reregistered": 20, "cleanups_observed": 20, "killed_in_request": 1, "killed_while_blocked": 1, "killed_in_registration": 1, "survivor_blocked_by_victim": 1, "held_samples_verified": 10, "samples_exact": 500})],
     "a real daemon process and real application processes: random histories, applications killed with SIGKILL while idle, holding loans, samples and requests, waiting, blocked on a full queue, in the middle of registration and of requests to the daemon; exact stream monitors in the survivors, pool counters, service and port lists, gap watchers for blocked survivors; ASan/UBSan in every process", "everything of the dead process is removed and freed, its name can be used again, and the others notice nothing but the disconnection",
     ["the one chunk being published by a publisher which is killed while blocked on a full queue may be lost, as documented in the code"])
prop("C28", [job("h_proc", 12, 400, mode="domains", leaks=False, pin=False, shards=16, parallel=16, require={"daemon_races": 20, "name_races": 20, "handovers": 20, "duplicate_names_refused": 5, "second_daemons_refused": 20, "daemons_replaced": 5, "isolation_checks": 50, "versions_accepted": 5, "versions_refused": 20, "file_checks": 50})],
     "real daemon and application processes of several domains: random histories of starting, stopping and racing for a domain or a name with injected delays in the file operations; at most one owner at every time, data and services of other domains never seen, hand-made registrations with other versions refused, files compared with the living processes; ASan/UBSan in every process", "one daemon per domain, one process per name, no cross-talk, nothing left behind")
prop("C23", [job("h_access", 40, 1000, leaks=False, pin=False, shards=16, parallel=16, require={"rights_checks": 200, "writable": 50, "readable": 20, "inaccessible": 100, "outsiders": 10, "endpoints_granted": 50, "endpoints_refused": 30, "processes": 150, "transfers": 50})],
     "a real daemon process with randomly assigned segments, processes really running with the ids of randomly assigned users and groups (virtual user database): what the operating system lets them open, what they map, obtain and loan compared with what their groups entitle them to; ASan/UBSan", "nobody can read, write, map, loan or publish more or less than configured",
     ["users who are in the writer groups of two segments are refused by design and not generated"])
prop("C31", [job("h_osobj", 3000, 100000, require={"state_checks": 50000, "created": 5000, "opened": 2000, "refused": 5000, "faults": 2000, "mappings": 1000, "moved": 1000, "content_checks": 30000, "locked": 1000, "provided": 50, "allocations": 1000, "bad_names": 50}),
             job("h_osobj", 6000, 200000, mode="race", require={"races": 10000, "race_won": 5000, "race_lost": 5000})],
     "random histories of builders, handles, moves and removals of shared memory, maps, files, locks, semaphores and allocators with injected failures of every system call, the operating system's view compared with a model after every step; threads racing to create one object under the controlled scheduler; ASan/UBSan", "what exists, its size, permissions, contents and owner are those of the model; failures leave nothing behind; one winner",
     ["an owner removes by name: an object purged and created anew under the same name by somebody else included", "a racing open may be refused while the creator has not set the size yet", "failures of flock are not injected"])
prop("C22", [job("h_sync", 20000, 2000000, require={"acquired": 100000, "foreign_unlocks": 10000, "relocks": 20000, "visits": 10000, "overflows": 1000, "posts": 100000, "taken": 100000, "waits": 50000, "try_won": 50000, "try_lost": 20000, "smart_operations": 50000}),
             job("h_sync", 1500, 60000, mode="real", pin=False, leaks=False, require={"builders": 500, "owner_deaths": 2000, "process_runs": 1000, "repaired": 1000, "stalled": 100, "unrecoverable": 500, "shared_operations": 500000, "task_runs": 4000, "task_starts": 1000, "task_stops": 1000, "timeouts": 1000, "tokens": 1000, "timer_checks": 1000})],
     "random programs of several threads on one mutex, spin lock, smart_lock or semaphore under the controlled scheduler with a holder and token monitor; real time, real deaths of owning threads and processes, processes sharing a primitive, failing initialisations, periodic tasks and timers; ASan/UBSan", "one holder, tokens conserved, results as the state demands, no early timeouts or runs",
     ["unlocking a NORMAL mutex one does not hold and destroying a primitive in use are undefined and not generated"])
