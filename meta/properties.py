"""The properties, as data (properties.jsonl and MANIFEST.json are generated)."""

TS = "ipyparallel/controller/task_scheduler.py"
SIM_NOTE = ("Exploration: a seeded sample of whole-system executions (real client, hub, schedulers, engines) on a "
            "simulated transport, scheduler and clock; no claim beyond the sampled runs. ")

T_OVER = ["schedules", "crash_points", "programs", "configurations", "fault_sequences"]
T_QUANT = ("every program of load-balanced submissions (dependencies, retries, timeouts, targets), scheduling scheme "
           "and high-water mark, every timing of messages, and every sequence of engine deaths, arrivals, stalls, "
           "pauses and clock jumps")

HUB = "ipyparallel/controller/hub.py"
HM = "ipyparallel/controller/heartmonitor.py"
CAPP = "ipyparallel/controller/app.py"
EAPP = "ipyparallel/engine/app.py"
CLI = "ipyparallel/client/client.py"
AR = "ipyparallel/client/asyncresult.py"
VIEW = "ipyparallel/client/view.py"
BS = "ipyparallel/controller/broadcast_scheduler.py"
KERN = "ipyparallel/engine/kernel.py"
E_OVER = ["schedules", "crash_points", "fault_sequences", "configurations", "histories"]
E_QUANT = ("every sequence of engine starts, deaths, stalls, lost heartbeats, hub pauses and clock jumps, every "
           "heartbeat period and miss limit, and every timing of messages")

C_OVER = ["schedules", "programs", "crash_points", "fault_sequences"]
C_QUANT = ("every client program mixing load-balanced, direct and broadcast calls, every interleaving of its threads "
           "(down to single lines of client code), every timing of messages and every engine death, stall or arrival")

DDB = "ipyparallel/controller/dictdb.py"
SDB = "ipyparallel/controller/sqlitedb.py"
H_OVER = ["schedules", "programs", "crash_points", "fault_sequences", "configurations"]
H_QUANT = ("every history of direct and load-balanced messages of several clients, interleaved with requests to the "
           "hub by other clients, every engine death, stall or arrival, every timing of messages, both databases")

LAUN = "ipyparallel/cluster/launcher.py"
CLU = "ipyparallel/cluster/cluster.py"
ASYN = "ipyparallel/_async.py"
K_OVER = ["schedules", "fault_sequences", "histories"]
K_QUANT = ("every sequence of operations, also concurrent ones, in asynchronous, threaded and synchronous use; every moment at which "
           "a process ends by itself, ignores or takes its time for signals, or cannot be started; every interleaving of the "
           "waiting threads")
K_NOTE = (SIM_NOTE + "The operating system's processes are simulated (spawn, wait, signals, zombies), the controller and engines behind "
          "them are stubs; process ids are not reused. ")

PROPERTIES = [
    {
        "id": "T01",
        "title": "Every load-balanced task gets exactly one truthful outcome, in bounded time",
        "statement": "Every task submitted to the load-balanced scheduler by a client that stays connected resolves "
        "exactly once: with the value or exception of one of its actual executions, with an engine-died error only "
        "if an engine it was given to died or was declared dead, or with an impossible-dependency, "
        "invalid-dependency or timeout error from the scheduler. It does so within bounded time after failures stop "
        "and engines able to run it are connected, whatever engines die, arrive or stall meanwhile. The reported "
        "status, executing engine and value agree with what really happened.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "the tests run a handful of dependency graphs on healthy engines and one engine death; "
        "loss of a task needs a death, requeue or dependency failure at a particular point of a particular graph",
        "anchors": {
            "files": [TS, "ipyparallel/client/client.py", "ipyparallel/controller/hub.py"],
            "mechanism": [
                {"name": "dispatch_submission, save_unmet, maybe_run, update_graph", "where": TS},
                {"name": "handle_stranded_tasks (engine death)", "where": TS},
                {"name": "_handle_apply_reply / future resolution", "where": "ipyparallel/client/client.py"},
            ],
        },
        "tech": "outcomes compared with the recorded executions; bounded liveness after the last fault",
        "note": SIM_NOTE + "Liveness bound: about 90 simulated s plus twice the work, after the last fault and with "
        "fresh engines. Wall clock of the hub is not set back by more than 5 s.",
    },
    {
        "id": "T02",
        "title": "A load-balanced task never runs more often than its retries allow",
        "statement": "A load-balanced task starts executing at most once plus its number of retries. It is executed "
        "again only after a previous attempt failed or the engine running it was lost, never while an attempt on a "
        "live engine is still running, and never twice on the same engine. A task reported as failed by its own "
        "exception, without loss of an engine, has used all its retries.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "a double submission needs a task to be reachable from two of the scheduler's queues at "
        "once, which depends on the order of completions, failures and capacity changes",
        "anchors": {"files": [TS], "mechanism": [
            {"name": "dispatch_result retries, handle_unmet_dependency, update_graph", "where": TS}]},
        "tech": "execution history of every task compared with its retry budget",
        "note": SIM_NOTE,
    },
    {
        "id": "T03",
        "title": "A task starts only when its after and follow dependencies are met",
        "statement": "A load-balanced task is never handed to an engine before its time dependency holds for the "
        "outcomes of the tasks it names (all or any of them, counting successes and/or failures as requested). It "
        "is never handed to an engine on which its location dependency does not hold.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "the tests check two small random graphs without failures, retries or engine loss",
        "anchors": {"files": [TS, "ipyparallel/controller/dependency.py"], "mechanism": [
            {"name": "Dependency.check / unreachable", "where": "ipyparallel/controller/dependency.py"},
            {"name": "dispatch_submission dependency reduction, maybe_run can_run filter, update_graph", "where": TS}]},
        "tech": "every assignment on the wire judged against a reference model of the dependency state",
        "note": SIM_NOTE,
    },
    {
        "id": "T04",
        "title": "Impossible or invalid dependencies are reported, and only those",
        "statement": "A task is reported as having an impossible dependency only if, given the outcomes and engine "
        "losses so far, no execution can still satisfy its dependencies and placement; a task naming tasks that "
        "were never submitted is reported as invalid and never runs, and no other task is reported as invalid. A "
        "task whose time dependency can no longer be met never runs.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "the tests cover a few fixed unreachable graphs; false or missed reports depend on when "
        "failures, deaths and requeues interleave",
        "anchors": {"files": [TS, "ipyparallel/controller/dependency.py"], "mechanism": [
            {"name": "fail_unreachable, Dependency.unreachable, maybe_run impossibility", "where": TS}]},
        "tech": "reported failures judged against a reference model of reachability",
        "note": SIM_NOTE + "One known finding (see known_findings.txt).",
    },
    {
        "id": "T05",
        "title": "Load balancing respects placement, the high-water mark and idle engines",
        "statement": "A load-balanced task runs only on engines it is allowed on (its targets, and engines where its "
        "functional dependency is true), no engine ever holds more unfinished tasks than the high-water mark, and "
        "no unconstrained task keeps waiting while a connected engine has a free slot. An engine whose loss the "
        "scheduler has learned of gets no more tasks. Under the least-load scheme an unconstrained task is not given "
        "to an engine holding more unfinished tasks than another available engine.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "occupancy at every instant under arbitrary completion orders and membership changes is "
        "not observed by any test",
        "anchors": {"files": [TS], "mechanism": [
            {"name": "available_engines, maybe_run, submit_task, add_job/finish_job, schemes", "where": TS}]},
        "tech": "engine occupancy reconstructed from the wire and checked at every assignment",
        "note": SIM_NOTE,
    },
    {
        "id": "T06",
        "title": "Waiting tasks without constraints start in submission order",
        "statement": "Tasks of one client that have no dependencies, retries, timeouts or placement constraints are "
        "handed to engines in the order in which they were submitted, even when they had to wait for capacity "
        "and other tasks with constraints wait among them.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "reordering needs several rescans of a mixed waiting queue; no test looks at start order",
        "anchors": {"files": [TS], "mechanism": [{"name": "queue and update_graph rescans", "where": TS}]},
        "tech": "assignment order on the wire compared with submission order",
        "note": SIM_NOTE,
    },
    {
        "id": "T07",
        "title": "Dependency timeouts fire on time, and only on tasks still waiting",
        "statement": "A task submitted with a timeout that is still waiting for its dependencies or for an engine when "
        "it expires is failed with a timeout error soon after, never earlier. A task without a timeout never times "
        "out, and a task that has been handed to an engine is not failed by its timeout while the engine has it; when "
        "it goes back to waiting (retry, unmet dependency, lost engine) its full timeout starts again.",
        "quantifier": {"over": T_OVER, "text": T_QUANT},
        "why_tests_cant": "the tests exercise one timeout; stale timers firing on requeued or already running tasks "
        "need particular interleavings",
        "anchors": {"files": [TS], "mechanism": [{"name": "save_unmet timer, job_timeout", "where": TS}]},
        "tech": "timeout events on the simulated clock checked against arrival, assignment and expiry times",
        "note": SIM_NOTE,
    },
    {
        "id": "E01",
        "title": "Engine ids and uuids are unique, stable and never recycled",
        "statement": "No two engines that are registered or being registered have the same id or the same uuid. An id "
        "given out once is not given to another engine unless that engine explicitly asks for it, and an engine "
        "asking for an unused id gets it. An engine whose registration is accepted and which answers heartbeats is "
        "registered soon after under the id it was given, even if the engine state cannot be saved; an engine that "
        "is refused or gets no answer stops.",
        "quantifier": {"over": E_OVER, "text": E_QUANT + ", with requested ids, duplicate uuids and full disks"},
        "why_tests_cant": "the tests start a few engines one after another; collisions need registrations that "
        "overlap with each other, with requested ids and with heartbeats",
        "anchors": {"files": [HUB, EAPP], "mechanism": [
            {"name": "register_engine, finish_registration, _next_id, incoming_registrations", "where": HUB},
            {"name": "register / complete_registration / abort", "where": EAPP}]},
        "tech": "every registration message recorded and replayed against a model of id ownership",
        "note": SIM_NOTE + "Registrations purged because the engine stayed silent or the hub was paused for longer "
        "than registration_timeout are out of scope of the completion bound.",
    },
    {
        "id": "E02",
        "title": "Hub, schedulers and clients agree on which engines exist",
        "statement": "Once membership changes stop, the hub, every scheduler and every connected client know exactly "
        "the same engines under the same ids: a new client is told them, long-lived clients list them in order, and "
        "a task sent to each engine through the direct, broadcast and load-balanced routes is answered by that very "
        "engine. wait_for_engines returns once enough engines are there, and raises a timeout only "
        "after its timeout.",
        "quantifier": {"over": E_OVER, "text": E_QUANT},
        "why_tests_cant": "divergence needs notifications racing with connections, registrations and deaths",
        "anchors": {"files": [HUB, "ipyparallel/controller/scheduler.py", TS, CLI], "mechanism": [
            {"name": "registration/unregistration notifications, connection_request", "where": HUB},
            {"name": "_update_engines, _unregister_engine, wait_for_engines", "where": CLI}]},
        "tech": "settled state probed through every route and compared with the announced membership",
        "note": SIM_NOTE + "One known finding (see known_findings.txt).",
    },
    {
        "id": "E03",
        "title": "Dead engines are detected in bounded time, live engines are never dropped",
        "statement": "An engine that stops answering heartbeats is unregistered and announced as gone within its miss "
        "limit plus a few heartbeat periods. An engine that keeps answering heartbeats, or is silent for clearly "
        "less than the miss limit, is not unregistered unless it asks for it itself or is shut down.",
        "quantifier": {"over": E_OVER, "text": E_QUANT},
        "why_tests_cant": "the tests wait for one killed engine; false positives and missed deaths depend on where "
        "beats, pauses and clock jumps fall",
        "anchors": {"files": [HM, HUB], "mechanism": [
            {"name": "beat, handle_heart_failure, on_probation, handle_pong", "where": HM},
            {"name": "handle_heart_failure, unregister_engine", "where": HUB}]},
        "tech": "unregistrations compared with the engines' true heartbeat silences on the simulated clock",
        "note": SIM_NOTE + "Bound: (misses + 3) periods + 1 s, plus hub pauses and clock set-backs (at most 5 s).",
    },
    {
        "id": "E05",
        "title": "Engines whose controller is gone stop; engines with a controller keep running",
        "statement": "With a heartbeat miss limit set, an engine whose controller (or its heartbeat process) has died "
        "stops within the limit plus a few heartbeat periods, and an engine that gets no answer to its registration "
        "stops after its registration timeout. An engine that keeps receiving heartbeats does not stop by itself, "
        "nor does one whose registration was accepted in time; with the limit off it never stops because of "
        "missing heartbeats.",
        "quantifier": {"over": E_OVER, "text": E_QUANT + ", and every point at which the controller dies"},
        "why_tests_cant": "no test kills a controller under running engines",
        "anchors": {"files": [EAPP], "mechanism": [
            {"name": "start_heartbeat, _hb_monitor, abort after registration timeout", "where": EAPP}]},
        "tech": "engine exits compared with the last heartbeat received on the simulated clock",
        "note": SIM_NOTE,
    },
    {
        "id": "E06",
        "title": "A restarted controller gets its engines back",
        "statement": "When the controller is killed at any moment, including while it writes its engine state or while "
        "it restores it, and is started again with restore enabled, it comes up, still lists under their old ids all "
        "engines that were registered before and keep running, reaches each of them through the direct and "
        "load-balanced routes, drops the ones that died meanwhile, and gives no id of the former engines to new ones.",
        "quantifier": {"over": ["crash_points", "schedules", "fault_sequences"], "text": "every crash point of the "
                       "controller, torn state files, and any set of engines dying or arriving meanwhile"},
        "why_tests_cant": "the tests restart one idle controller; crash points inside the state save are not reachable",
        "anchors": {"files": [HUB, CAPP], "mechanism": [
            {"name": "_save_engine_state, _load_engine_state", "where": HUB},
            {"name": "restore_engines, connection file reuse", "where": CAPP}]},
        "tech": "controller crashes at file-operation granularity, restarted cluster probed through every route",
        "note": SIM_NOTE + "The controller's processes are crashed together (or the heartbeat process alone); no disk "
        "errors besides the crash.",
    },
    {
        "id": "E04",
        "title": "Losing an engine never leaves a client waiting",
        "statement": "When an engine is lost, every request a connected client sent or is just sending to it (direct, "
        "broadcast with or without coalescing, load-balanced, maps) still resolves, soon after the loss is announced: "
        "with what really happened on the engine, or with an EngineError naming its death. An EngineError is never "
        "reported for an engine that was not lost, nor before its loss. Requests to other engines keep their "
        "own outcomes.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "the tests kill one engine under one sleeping task; a stranded request needs the death to "
        "fall between two statements of a submission or reply",
        "anchors": {"files": [CLI, VIEW], "mechanism": [
            {"name": "_handle_stranded_msgs, _check_stranded, _unregister_engine, _send", "where": CLI},
            {"name": "BroadcastView._make_async_result", "where": VIEW}]},
        "tech": "engine deaths at every point of submissions and replies; bounded liveness and truthful outcomes",
        "note": SIM_NOTE + "Late bound: 3 simulated s after the announced loss for single-engine requests; others by the end of "
        "the run.",
    },
    {
        "id": "C01",
        "title": "An AsyncResult is a consistent future that resolves exactly once",
        "statement": "An AsyncResult resolves exactly once and never changes: once it is ready it stays ready, get and "
        "result give the same value or raise the same error ever after, callbacks run exactly once, successful agrees "
        "with get, an error in any of its messages is raised and none is invented. wait and get return as soon "
        "as the result is there, report it only then, never wait longer than their timeout, never give up before it, "
        "and honour return_when and return_exceptions.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "the result is resolved in the client's IO thread while other threads look at it; tests "
        "see only the interleavings the machine happens to choose",
        "anchors": {"files": [AR, "ipyparallel/client/futures.py", CLI], "mechanism": [
            {"name": "wait, get, _resolve_result, _finalize_result", "where": AR},
            {"name": "multi_future, MessageFuture", "where": "ipyparallel/client/futures.py"}]},
        "tech": "every query's answer and timing compared with the moment of resolution, under line-level preemption",
        "note": SIM_NOTE + "A query that overlaps the resolution may see either state.",
    },
    {
        "id": "C02",
        "title": "Client.wait and Client.outstanding tell the truth",
        "statement": "Client.wait returns True only when everything it was asked to wait for is resolved, returns False only "
        "after its timeout, returns soon after the last of them resolves, and never hangs. Client.outstanding lists "
        "exactly the requests that are not resolved yet; when all are, it is empty.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "leaks and early returns depend on the order of submission, reply and death handling in two "
        "threads",
        "anchors": {"files": [CLI, VIEW], "mechanism": [
            {"name": "wait, _await_futures, outstanding, _handle_apply_reply", "where": CLI},
            {"name": "BroadcastView outstanding bookkeeping", "where": VIEW}]},
        "tech": "answers compared with the submission and resolution history of the client",
        "note": SIM_NOTE,
    },
    {
        "id": "C03",
        "title": "Maps give every item's result once, in the promised order",
        "statement": "map, map_async and imap over views give exactly the function's value for each item, each item being "
        "run at most once, whatever the chunking: in input order when ordered, as a permutation otherwise. "
        "A failing item, a lost engine or an input iterator that raises surfaces as that error, after a correct prefix, and never "
        "as a missing, duplicated or invented item. imap consumes at most max_outstanding inputs beyond the finished "
        "ones, works with lazily produced inputs, and stops consuming once cancelled.",
        "quantifier": {"over": C_OVER, "text": C_QUANT + ", every number of items, chunk size and max_outstanding"},
        "why_tests_cant": "tests map over a few sizes on idle engines; order and completeness must hold for every "
        "completion order",
        "anchors": {"files": [VIEW, AR, "ipyparallel/client/remotefunction.py", "ipyparallel/client/map.py"], "mechanism": [
            {"name": "imap, map", "where": VIEW},
            {"name": "AsyncMapResult iteration, _reconstruct_result", "where": AR},
            {"name": "ParallelFunction", "where": "ipyparallel/client/remotefunction.py"},
            {"name": "Map.getPartition / joinPartitions", "where": "ipyparallel/client/map.py"}]},
        "tech": "values gathered by every iteration style compared with the input sequence and recorded executions",
        "note": SIM_NOTE + "The consumption bound counts finished executions on the engines, not replies received.",
    },
    {
        "id": "C04",
        "title": "A direct view acts on each engine exactly once and in submission order",
        "statement": "Each call through a direct view runs at most once on each target engine and on no other, in the order in "
        "which the client submitted, with results in the order of the targets. Every pull, gather or execution sees exactly "
        "the pushes, scatters and executions submitted before it to the same engine; scattered sequences are "
        "gathered back unchanged. After a message was lost with its engine no later one to that engine succeeds.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "tests check single operations; order must hold across asynchronous calls, several clients and "
        "engine losses",
        "anchors": {"files": [VIEW, CLI, KERN, "ipyparallel/client/map.py"], "mechanism": [
            {"name": "DirectView.apply/push/pull/scatter/gather/execute", "where": VIEW},
            {"name": "apply_request, execute_request", "where": KERN}]},
        "tech": "refinement against a per-engine namespace model and per-engine execution order",
        "note": SIM_NOTE,
    },
    {
        "id": "C05",
        "title": "A broadcast reaches each target once; results are attributed correctly",
        "statement": "A call through a broadcast view runs exactly once on each target engine that stays alive and on no other, in "
        "submission order per engine. Its results, coalesced or not, contain one entry per target, each attributed to the "
        "engine that produced it; errors are not dropped. Concurrent broadcasts, of one or several clients, never mix.",
        "quantifier": {"over": C_OVER, "text": C_QUANT + ", every scheduler tree depth and number of engines"},
        "why_tests_cant": "the tests broadcast one call at a time to idle engines and cannot see replies of several broadcasts "
        "meeting in the scheduler tree",
        "anchors": {"files": [BS, VIEW, CLI], "mechanism": [
            {"name": "dispatch_submission, coalescing of replies", "where": BS},
            {"name": "BroadcastView._make_async_result", "where": VIEW}]},
        "tech": "per-engine executions and attributed results compared, through the real scheduler tree",
        "note": SIM_NOTE + "Coalesced results are compared in the order of the reply's own engine list.",
    },
    {
        "id": "C06",
        "title": "Task output reaches its result, completely and in order",
        "statement": "Once the client and the engine have settled, everything a task prints on stdout and stderr appears exactly "
        "once, in order, in the metadata of the message that produced it and of no other. wait_for_output returns True only "
        "when the output is complete, within its timeout otherwise, and never blocks forever, even if the engine "
        "died or the result came from a coalesced broadcast; the output of a lost engine is a prefix.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "output travels on another channel than results; their relative order is up to the network",
        "anchors": {"files": [CLI, AR, KERN], "mechanism": [
            {"name": "_dispatch_iopub, _handle_stranded_output", "where": CLI},
            {"name": "wait_for_output, _resolve_output", "where": AR}]},
        "tech": "metadata of every message compared with what its execution printed",
        "note": SIM_NOTE + "Output published before the subscription of a client reached the engine is not covered (PUB/SUB); "
        "per-message output of coalesced broadcasts is not attributed by design.",
    },
    {
        "id": "C07",
        "title": "Abort stops exactly the named tasks that have not started",
        "statement": "A direct task named in an abort that has been confirmed does not start afterwards. Every aborted task resolves "
        "with TaskAborted and never ran; no task that was not named is aborted, and a running or finished "
        "task keeps its own outcome. Aborting resolves in bounded time and leaves the engine usable.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "an abort races with the start of the tasks it names, on another channel",
        "anchors": {"files": [CLI, KERN, VIEW], "mechanism": [
            {"name": "abort_request, should_handle, aborted ids", "where": KERN},
            {"name": "Client.abort", "where": CLI}]},
        "tech": "start times on engines compared with abort confirmations",
        "note": SIM_NOTE + "An abort without a list of jobs is checked for bystanders only.",
    },
    {
        "id": "C08",
        "title": "View executors honour the concurrent.futures contract",
        "statement": "Futures of view.executor work with as_completed and wait, each completing exactly once; executor.map gives the results in input "
        "order; shutdown(wait=True) and leaving a with block return once, and only once, all submitted "
        "work is done, also after failed, abandoned or partly consumed maps.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "completion races between the IO thread and the waiting thread",
        "anchors": {"files": [VIEW, AR], "mechanism": [
            {"name": "ViewExecutor.submit/map/shutdown, imap bookkeeping", "where": VIEW}]},
        "tech": "executor programs under thread preemption, results and return times compared with the history",
        "note": SIM_NOTE,
    },
    {
        "id": "H01",
        "title": "Any client can get any recorded result from the hub, and it is the true one",
        "statement": "Once a direct or load-balanced message has been resolved for its submitter, the hub reports it as completed "
        "to every client soon after (messages lost with an engine: after the registration timeout) and serves the same "
        "value or error; never one that no execution produced, and never before it finished. result_status "
        "partitions the ids asked for. get_result gives exactly the results asked for, in order, whoever submitted them; waiting "
        "on them respects its timeout and resolves, and failed results are results.",
        "quantifier": {"over": H_OVER, "text": H_QUANT},
        "why_tests_cant": "requests race with results, losses of engines and the relayed traffic the hub learns from",
        "anchors": {"files": [HUB, CLI, AR], "mechanism": [
            {"name": "get_results, save_queue_result, save_task_result, _handle_stranded_msgs", "where": HUB},
            {"name": "result_status, get_result, _asyncresult_from_jobs", "where": CLI},
            {"name": "AsyncHubResult", "where": AR}]},
        "tech": "what every client is told about a message compared with what its submitter got and when it ran",
        "note": SIM_NOTE + "Messages the hub first heard of after it had unregistered their engine may be unknown to it.",
    },
    {
        "id": "H02",
        "title": "Task records and queue status agree with what happened",
        "statement": "Every direct or load-balanced message the hub saw has exactly one record, with its client, engine, outcome, ordered "
        "timestamps and printed output. queue_status lists a message at most once among pending and completed ones, never as "
        "pending long after it was resolved, never as completed before it ran, and its counts match its lists. History is "
        "complete and ordered by submission; queries return the matching records.",
        "quantifier": {"over": H_OVER, "text": H_QUANT},
        "why_tests_cant": "the hub learns of messages from relayed copies on several sockets, in any order, while engines come and go",
        "anchors": {"files": [HUB, DDB, SDB], "mechanism": [
            {"name": "save_queue_request/result, save_task_request/destination/result, save_iopub_message", "where": HUB},
            {"name": "queue_status, get_history, db_query", "where": HUB}]},
        "tech": "hub state read by clients at any time and at the end compared with the recorded history",
        "note": SIM_NOTE + "Output is compared only if the hub's subscription had settled and no engine was lost.",
    },
    {
        "id": "H03",
        "title": "Purging removes exactly the named results, and they stay gone",
        "statement": "purge_hub_results removes the completed messages it names (by id, by engine, or all) and no others; it refuses "
        "pending ids. Purged results are reported as unknown, in bounded time, and never come back; requests "
        "about them do not disturb later ones.",
        "quantifier": {"over": H_OVER, "text": H_QUANT},
        "why_tests_cant": "a purge races with results, output and other clients' requests for the same messages",
        "anchors": {"files": [HUB, DDB, SDB, CLI], "mechanism": [
            {"name": "purge_results, save_iopub_message, get_results", "where": HUB},
            {"name": "drop_matching_records", "where": DDB}, {"name": "drop_matching_records", "where": SDB}]},
        "tech": "records and results at any later time compared with the purges",
        "note": SIM_NOTE,
    },
    {
        "id": "H04",
        "title": "A resubmitted task runs again and gets a result of its own",
        "statement": "Resubmitting recorded messages yields one new id per message, in order. Each runs once more and gets the result "
        "of its own execution, started after the resubmission, with the original function and arguments; the original's "
        "result stays as it was.",
        "quantifier": {"over": H_OVER, "text": H_QUANT},
        "why_tests_cant": "resubmission races with the original message, with other resubmissions and with engine deaths",
        "anchors": {"files": [HUB, CLI, TS], "mechanism": [
            {"name": "resubmit_task, save_task_request", "where": HUB}, {"name": "resubmit", "where": CLI}]},
        "tech": "run numbers in results of resubmissions compared with the recorded executions",
        "note": SIM_NOTE,
    },
    {
        "id": "H05",
        "title": "Both hub databases answer the same queries the same, right way",
        "statement": "A database query with any combination of equality, order, membership and pattern ($glob) conditions on "
        "the fields of task records returns exactly the records matching it, with the requested keys and the stored values, "
        "whether the hub keeps records in memory or in SQLite; times are compared as times.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "every conjunction of conditions over the "
                       "records that a history of direct and load-balanced messages of several clients leaves in the "
                       "hub, and both databases"},
        "why_tests_cant": "the tests ask a few fixed queries of records made up for them; the space of queries times "
        "records (missing values, several engines, errors, execute results, time zones) is not sampled",
        "anchors": {"files": [DDB, SDB, HUB], "mechanism": [
            {"name": "CompositeFilter, find_records", "where": DDB},
            {"name": "_render_expression, find_records, _list_to_dict", "where": SDB},
            {"name": "db_query", "where": HUB}]},
        "tech": "random queries answered by the hub compared with a reference evaluator over all its records",
        "note": SIM_NOTE + "Records arise from simulated runs; the queries themselves are input fuzzing inside them.",
    },
    {
        "id": "H06",
        "title": "SQLite results survive crash and restart of the controller",
        "statement": "With SQLiteDB, every message whose outcome reached the hub more than the commit period before the "
        "controller was killed, or before it was stopped in an orderly way, is recorded with its true outcome in the "
        "database a restarted controller finds; so are its history, purges and resubmissions. The restarted controller "
        "never serves a half-written record, a wrong result or a second record of a message, whatever disk errors "
        "occurred, and serves new work.",
        "quantifier": {"over": ["crash_points", "schedules", "fault_sequences", "histories"], "text":
                       "every point (down to single writes) at which the controller is killed, every orderly stop, and "
                       "every sequence of full disks and I/O errors, over histories of several clients, two restarts"},
        "why_tests_cant": "no test stops a controller with a database and reads it again; loss depends on the moment",
        "anchors": {"files": [SDB, HUB, CAPP], "mechanism": [
            {"name": "_init_db, _commit callback, close", "where": SDB},
            {"name": "shutdown", "where": HUB}, {"name": "terminate_children, cleanup", "where": CAPP}]},
        "tech": "the real database file is cut at the crash, the hub restarted on it and its answers compared with the history",
        "note": SIM_NOTE + "SQLite itself is trusted to recover its journal. The commit period is the documented 2 s; "
        "records of commits failing for disk errors get until after the errors.",
    },
    {
        "id": "H07",
        "title": "The hub's memory stays within its limits, dropping the oldest records",
        "statement": "With DictDB the number of records and the bytes of their buffers never exceed record_limit and size_limit "
        "when asked; what is dropped is the oldest the hub knew, and no more than the limits ask for; dropped records stay dropped, "
        "whatever arrives for them later, and are reported as unknown; live results of clients are not affected. "
        "With NoDB nothing is recorded and everything else works.",
        "quantifier": {"over": H_OVER, "text": H_QUANT + "; every setting of the limits"},
        "why_tests_cant": "culling races with results and output of the culled messages",
        "anchors": {"files": [DDB, HUB], "mechanism": [
            {"name": "_maybe_cull, _cull_oldest, _add_bytes, _drop_bytes", "where": DDB},
            {"name": "save_iopub_message, save_task_result", "where": HUB}]},
        "tech": "number and size of records asked for at any time compared with limits and history",
        "note": SIM_NOTE,
    },
    {
        "id": "C09",
        "title": "wait_for_engines returns exactly when the engines are there",
        "statement": "Client.wait_for_engines(n) returns, promptly, once n engines are known to the client, whether they "
        "registered before, during or after the call and whoever else waits; it raises TimeoutError only when its timeout "
        "has passed with fewer, at about that time, and EngineError only if an engine unregistered meanwhile. Both forms "
        "(blocking, Future) agree.",
        "quantifier": {"over": C_OVER, "text": "every number of threads and clients waiting, every timing of "
                       "registrations and deaths of engines and of notifications, every timeout, and every interleaving "
                       "down to single lines of client code"},
        "why_tests_cant": "the window between counting engines and listening for more is a few lines wide",
        "anchors": {"files": [CLI], "mechanism": [
            {"name": "wait_for_engines", "where": CLI}, {"name": "_register_engine, _unregister_engine", "where": CLI}]},
        "tech": "return times and outcomes compared with the notifications delivered to the client",
        "note": SIM_NOTE + "What a client learns is taken from the notifications sent to it; one sent before its "
        "subscription took effect is a finding of E02.",
    },
    {
        "id": "C10",
        "title": "Control requests reach exactly their engines and always return",
        "statement": "clear, abort and shutdown act on the engines named and on no others, resolve promptly for each of them, "
        "also if the engine dies or leaves meanwhile (then with an engine error at the latest when it is unregistered), "
        "and raise nothing else. clear empties the engine's namespace, before later requests of that client and not after; "
        "engines shut down stop, the others and the controller go on, unless hub=True, which stops everything.",
        "quantifier": {"over": C_OVER, "text": C_QUANT},
        "why_tests_cant": "control requests overtake running work and race with engine deaths, other requests and notifications",
        "anchors": {"files": [CLI, KERN, HUB, "ipyparallel/controller/scheduler.py"], "mechanism": [
            {"name": "clear, abort, shutdown, _flush_control, _handle_stranded_msgs", "where": CLI},
            {"name": "abort_request, clear_request, control queue", "where": KERN},
            {"name": "shutdown_request", "where": HUB}]},
        "tech": "replies, who stopped when and what namespaces hold compared with the requests made",
        "note": SIM_NOTE + "Requests made while the client connects are excluded (finding of E02).",
    },
    {
        "id": "K01",
        "title": "Launchers report the end of each process, once, truthfully and promptly",
        "statement": "Whoever registers on_stop with the launcher of a controller, an engine or an engine set, before or after "
        "the end, is told exactly once, not before the process (all processes of the set) ended and soon after, with its true "
        "exit code. A launcher says 'running' until then and 'after' from then on.",
        "quantifier": {"over": K_OVER, "text": K_QUANT},
        "why_tests_cant": "a process can end while it is being started, stopped, signalled or waited for, from another thread",
        "anchors": {"files": [LAUN, CLU, ASYN], "mechanism": [
            {"name": "LocalProcessLauncher.start, _wait, poll, notify_stop, on_stop", "where": LAUN},
            {"name": "LocalEngineSetLauncher._notice_engine_stopped", "where": LAUN}]},
        "tech": "callbacks and states compared with a simulated process table",
        "note": K_NOTE,
    },
    {
        "id": "K02",
        "title": "Stopping, restarting and signalling a cluster does just that, to all of it",
        "statement": "When stop_engines, stop_controller, stop_cluster or restart_engines returns, every process it covers has "
        "ended: asked to terminate first, killed only after the grace period, within bounded time; nothing else is signalled. "
        "start_* and restart_* start exactly the processes asked for, in their cluster's environment; signal_engines reaches every "
        "running engine once. Whatever operations came before, failed ones and concurrent ones included, a cluster with "
        "shutdown_atexit leaves nothing running when its process exits.",
        "quantifier": {"over": K_OVER, "text": K_QUANT},
        "why_tests_cant": "needs concurrent operations, processes that ignore TERM or end by themselves at the wrong moment, and failing spawns",
        "anchors": {"files": [CLU, LAUN, ASYN], "mechanism": [
            {"name": "start_controller, start_engines, stop_*, restart_engines, signal_engines, _atexit_cleanup_clusters", "where": CLU},
            {"name": "LocalProcessLauncher.stop, signal; LocalEngineSetLauncher", "where": LAUN},
            {"name": "_synchronize", "where": ASYN}]},
        "tech": "every operation's effect on a simulated process table compared with what it was asked to do",
        "note": K_NOTE,
    },
    {
        "id": "K03",
        "title": "The cluster file always describes the running cluster, and never part of it",
        "statement": "The cluster file is complete or absent at every moment, also if a process dies writing it or the disk is full. "
        "While no operation is under way it lists every running process of the cluster and no controller or engine set that is "
        "gone; it is removed when everything has stopped. Cluster.from_file, ClusterManager and clean_cluster_files in other processes "
        "find exactly what runs, can stop all of it, and never remove the file of a running cluster.",
        "quantifier": {"over": K_OVER + ["crash_points"], "text": K_QUANT + "; every point at which the owner dies, every full disk"},
        "why_tests_cant": "depends on crash points within file writes and on readers racing with the owner",
        "anchors": {"files": [CLU], "mechanism": [
            {"name": "write_cluster_file, update_cluster_file, from_dict, from_file, load_clusters, clean_cluster_files", "where": CLU}]},
        "tech": "the file checked at every file operation and compared with a simulated process table",
        "note": K_NOTE + "The owner is the only writer: a reader that writes back an older state meanwhile is a recorded finding.",
    },
    {
        "id": "K04",
        "title": "Connection files lead to the running controller, complete and private",
        "statement": "At no moment, a crash or disk error while writing them included, is a connection file partial or its key readable by "
        "other users. Whatever happened to earlier controllers in the same directory, Cluster.start_and_connect without further "
        "faults returns a client connected to the new controller with all engines registered, and engines and clients that wait for the "
        "file by themselves connect too; with reuse_files the connection stays the same across restarts, without it the files are removed at a clean stop.",
        "quantifier": {"over": ["schedules", "fault_sequences", "crash_points", "histories"], "text":
                       "every file operation at which a controller dies, every disk error, every sequence of stopped, killed and "
                       "crashed clusters, every moment at which readers look"},
        "why_tests_cant": "the tests start every cluster in a fresh directory and never kill a controller while it starts",
        "anchors": {"files": [CAPP, LAUN, CLU, "ipyparallel/engine/app.py", CLI], "mechanism": [
            {"name": "save_connection_dict, load_config_from_json, cleanup_connection_files, touch_connection_files", "where": CAPP},
            {"name": "get_connection_info, _note_stale_connection_files", "where": LAUN},
            {"name": "start_and_connect", "where": CLU},
            {"name": "init_engine, load_connection_file", "where": "ipyparallel/engine/app.py"}]},
        "tech": "files checked at every file operation; real clusters started after every fault must connect and compute",
        "note": SIM_NOTE + "Processes that read a killed controller's file before the new one replaced it cannot tell; engines doing so are a recorded finding.",
    },
    {
        "id": "K05",
        "title": "The ipcluster command starts, reports and stops whole clusters",
        "statement": "ipcluster start runs until it is interrupted, terminated, stopped from elsewhere, its controller ends or its engines end early; "
        "then it ends in bounded time with nothing it started left running and no cluster file, and if a process could not be started it "
        "ends with an error. With --daemonize it leaves the cluster and its file; start refuses only while the cluster runs, stop stops all of "
        "it (or says there is none), list and clean see exactly what runs; ipcluster engines relays SIGINT and ends with its engines.",
        "quantifier": {"over": K_OVER, "text": "every timing of signals (also while starting or stopping), deaths of controller, engines and "
                       "of ipcluster itself, failing spawns, and sequences of commands in one profile"},
        "why_tests_cant": "signals, deaths and failing spawns at every moment of start and stop",
        "anchors": {"files": ["ipyparallel/cluster/app.py", CLU, LAUN], "mechanism": [
            {"name": "IPClusterStart, IPClusterEngines, IPClusterStop, IPClusterList, IPClusterClean", "where": "ipyparallel/cluster/app.py"}]},
        "tech": "exit codes, times and what is left compared with a simulated process table",
        "note": K_NOTE + "Two commands that start clusters in one profile at the same moment are excluded.",
    },
]
