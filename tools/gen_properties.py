#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable and in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A task starts only after all its dependencies have succeeded",
  "A task's command is launched (run locally or handed to a remote worker) only when every task it directly depends on has succeeded: finished with status 0 in this session, or recorded as its latest outcome in the log. "
  "A dependency that failed, was cancelled or was lost never enables its dependents, neither in the same execute() call nor in a later execute() call of the same session, nor in a later session unless it was re-run and succeeded.",
  ["programs", "schedules", "histories"],
  "Every DAG, every interleaving of worker requests and task completions, every outcome assignment, every sequence of execute() calls and sessions over one log.",
  "The tests run a handful of fixed or random DAGs once, almost always all-successful and with one execute() call; they never check ordering after failures across repeated execute() calls or under remote completion orders.",
  ["src/sync.rs", "src/execgraph.rs"],
  [("unmet-dependency counting and poisoning", "src/sync.rs ReadyTrackerServer::_finished_bookkeeping_2"),
   ("selection of the runnable subgraph", "src/execgraph.rs get_subgraph")],
  [("statuses", "unmet dependency count / poisoned flag per task", "src/sync.rs"), ("completed", "keys finished in this session", "src/execgraph.rs")],
  ["/start replies", "task processes' own start events", "Ready/Started records of the log"])

p("C02", "Each task is launched at most once per execute() and never after success",
  "Within one execute() call each task is launched at most once, whatever number of queues it is eligible for and however many local runners or remote workers compete for it. "
  "A task that has already finished in the session, or whose latest outcome in the log is success, is not launched again (except a task with the empty key, which is never skipped because of the log).",
  ["schedules", "histories", "configurations"],
  "Every interleaving of competing runners over 1..64 queues, every multi-queue affinity mask, every sequence of execute() calls.",
  "Tests with multi-queue tasks or competing workers check only that everything finishes; a duplicated hand-out needs a race between two runners or a stale copy in a second queue.",
  ["src/sync.rs", "src/execgraph.rs", "src/server.rs", "src/localrunner.rs"],
  [("shared 'taken' tombstone", "src/sync.rs ReadyTrackerClient::recv"), ("filter of completed/logged keys", "src/execgraph.rs get_subgraph")],
  [("TaskItem.taken", "claimed flag shared by all the queue copies of a task", "src/sync.rs")],
  ["/start replies", "task processes' own start events", "Started records"])

p("C03", "Every runnable task runs, failures stay confined, and the result is exact",
  "When execute() is not cut short (no shutdown, no exhausted failure budget), it returns once and only once every selected task is either finished or has a failed ancestor: each task all of whose ancestors succeed has been run, no task with a failed ancestor has been run, and nothing is left in flight. "
  "The returned failure count equals the number of tasks that finished unsuccessfully, and the returned list contains exactly the keys of the finished tasks, once each, in the order in which they finished. "
  "A worker waiting on a queue is given a task whenever one eligible for that queue is ready.",
  ["programs", "schedules", "inputs"],
  "Every DAG (including duplicate dependencies and diamonds), every outcome assignment, every completion order, every number of runners.",
  "Tests compare a few fixed graphs; lost wakeups, tasks stuck behind a failure in another branch and miscounted parallel edges need particular shapes and completion orders.",
  ["src/sync.rs", "src/execgraph.rs"],
  [("n_ready_or_inflight termination test", "src/sync.rs ReadyTrackerServer::background_serve"), ("finished_order / n_failed", "src/sync.rs")],
  [("n_ready_or_inflight", "tasks ready or running", "src/sync.rs")],
  ["return value of execute()", "log", "/start replies"])

p("C04", "The failure budget stops new work exactly when it is used up",
  "With failures_allowed=N>0, execution keeps going while fewer than N tasks have failed quickly (within 5 seconds of starting), and once the N-th such failure has been processed no further task is launched, running tasks that started less than 5 seconds earlier are cancelled and recorded as failed, longer-running ones are allowed to finish with their real status, and execute() then returns. "
  "failures_allowed=0 means no limit, and successes and slow failures never use up the budget.",
  ["schedules", "configurations", "inputs"],
  "Every N, every order and timing of failures and successes, every set of tasks in flight at the moment the budget is exhausted.",
  "Tests use one or two failing tasks with N=1 or 0; off-by-one budgets, slow failures, and what happens to tasks in flight need specific orders and timings.",
  ["src/sync.rs", "src/fancy_cancellation_token.rs", "src/localrunner.rs", "src/server.rs", "src/pylib.rs"],
  [("fizzle counter and soft cancel", "src/sync.rs background_serve"), ("cutoff-time cancellation", "src/fancy_cancellation_token.rs"), ("reaper honours soft cancel", "src/server.rs reap_pings_forever")],
  [("n_fizzled", "quick failures so far", "src/sync.rs")],
  ["/start replies", "log", "return value of execute()"])

p("C05", "The log is a faithful, well-formed account of every task's lifecycle",
  "In every session each task's records are Ready, then at most one Started, then at most one Finished, in that order and without gaps, and a task is only recorded Started after its direct dependencies' successful Finished records. "
  "Every task reported as started has a Finished record by the time execute() returns (at a hard stop a task handed out but not yet started keeps only its Ready record); its status is the process's exit code, minus the signal number if it was killed by a signal, or a non-zero status if it was cancelled, lost or could not be started, and 0 only if the command really exited with 0. "
  "Records carry the task's own display command, run count, storage root, host, pid, slurm job id and reported values.",
  ["schedules", "fault_sequences", "inputs"],
  "Every interleaving of starts, completions, disconnects and shutdowns; every exit code and signal; every way a launch can fail.",
  "Tests look at logs of quiet, mostly successful runs; lifecycle violations arise from lost /begun messages, disconnects, cancellation and drain.",
  ["src/sync.rs", "src/logfile2.rs", "src/localrunner.rs", "src/server.rs"],
  [("lifecycle assertions on write", "src/logfile2.rs LogFile::write"), ("drain of in-flight tasks", "src/sync.rs drain"), ("fabricated Started", "src/sync.rs background_serve")],
  [("runcounts", "last lifecycle state per key", "src/logfile2.rs")],
  ["the log file"])

p("C06", "Resuming from a log re-runs exactly what is not already done",
  "Opening an existing log and executing again skips exactly the tasks whose latest recorded outcome is success (each skipped, needed task gets one backreference), re-runs the others, and, with rerun_failures=False, also skips tasks whose latest outcome is failure together with everything downstream of them. "
  "The run count given to a task is fixed when it is added: 0 for a new key, unchanged if its last run only became ready or succeeded, and one larger if its last run started and did not succeed. "
  "The workflow key is created once and stays the same for every later session of the log.",
  ["histories", "configurations", "programs"],
  "Every history of sessions, outcomes, interruptions and graph changes over one log; both values of rerun_failures.",
  "Tests check two-session histories of tiny graphs; the combination of failures, interrupted runs, changing graphs and several sessions is unbounded.",
  ["src/execgraph.rs", "src/logfile2.rs", "src/pylib.rs"],
  [("get_subgraph filters and Backref records", "src/execgraph.rs get_subgraph"), ("logfile_runcount", "src/pylib.rs")],
  [("runcounts", "latest lifecycle state and run count per key", "src/logfile2.rs"), ("completed", "keys finished or reused in this session", "src/execgraph.rs")],
  ["log records of the next session", "launched tasks", "logfile_runcount()"])

p("C07", "Executing a target runs the target's ancestors and nothing else",
  "execute(target) considers exactly the target and its transitive dependencies: it launches every one of them that is not already done, and never launches, records or backreferences any task outside that set. "
  "A later execute() of another target or of the whole graph completes the rest without repeating what was done.",
  ["programs", "histories"],
  "Every DAG, every target, every sequence of targets.",
  "Tests execute a target on one or two fixed graphs; an error in the transitive closure shows only on particular shapes (long chains, diamonds, duplicate edges).",
  ["src/execgraph.rs", "src/graphtheory.rs"],
  [("transitive closure", "src/graphtheory.rs transitive_closure_dag"), ("relevant-node filter", "src/execgraph.rs get_subgraph")],
  [], ["launched tasks", "log records"])

p("C08", "A crash at any point loses no acknowledged success and blocks no restart",
  "If the process is killed at any moment, so that the log ends after an arbitrary byte, the log can be opened again and the workflow completed; every completely recorded success is honoured and not re-run, every task without a completely recorded success is run again, and no success is invented. "
  "Outcomes reach the file within a fraction of a second while execute() runs, and records written after the restart are as readable as ever, for every later session and reader.",
  ["crash_points", "histories"],
  "Every byte offset at which the log of any run can end, repeated crashes, and kill -9 at any moment of a real run.",
  "Tests only close the log cleanly or cut it at record boundaries.",
  ["src/logfile2.rs", "src/sync.rs", "src/execgraph.rs"],
  [("load_runcounts", "src/logfile2.rs"), ("periodic flush", "src/sync.rs background_serve")],
  [], ["ExecGraph() on the truncated log", "launched tasks", "load_logfile"])

p("C09", "At most one session can hold a log at any time",
  "While one process or object has a log open for writing, every other attempt to open that log (by the same path) for writing fails at once with an error and changes nothing; two sessions never write the same log concurrently, whatever the interleaving of their opening and closing steps. "
  "Once the holder closes the log, or dies in any way, the log can be opened again.",
  ["schedules", "crash_points", "fault_sequences"],
  "Every interleaving of the open/lock/verify/unlink/close steps of several processes, and death of the holder at any step.",
  "The tests open the same log twice sequentially in one process; the lock-file hand-over has races that need two or three processes interleaved between system calls.",
  ["src/logfile2.rs"],
  [("lock file .wrk.lock with flock", "src/logfile2.rs LogFile::new"), ("unlink on drop", "src/logfile2.rs Drop")],
  [("lockf", "the held lock file", "src/logfile2.rs")],
  ["ExecGraph() / write_logfile() success or failure", "records in the log"])

p("C10", "The current/outdated view splits the log correctly",
  "For every log, the current view is the latest session's header and records plus, for each backreferenced key, exactly the records of the run the backreference refers to; the outdated view never contains a record of a key that appears in the current view, and no task record is lost: each one is in the current view, in the outdated view, or belongs to a key of the current view. "
  "Reading never changes the log, works while it is being written, and keeps task records in log order (after the header).",
  ["histories", "inputs"],
  "Every log that any sequence of sessions can produce (any number of sessions, re-runs, failures, backreferences, interrupted tasks).",
  "Tests cover three hand-written histories; users delete work directories based on the outdated view, so any history on which it is wrong loses data.",
  ["src/logfile2.rs", "src/pylib.rs"],
  [("read_current_and_outdated", "src/logfile2.rs LogFileSnapshotReader")],
  [], ["load_logfile(path, mode)"])

p("C11", "Remote requests act only on their own live transaction, and end it once",
  "A request without the workflow's authorization token is refused (401, or 400 if the header is missing or malformed) and has no effect; a /begun or /end naming an unknown, already ended or disconnected transaction, or an /end from a different slurm job, is refused and has no effect on any task. "
  "Each transaction is ended at most once and its task gets exactly the status, values and output reported by that /end; repeated, reordered or delayed messages (/begun after /begun, /end without /begun, /ping after /end) never stop execute() from completing.",
  ["fault_sequences", "schedules", "inputs"],
  "Every sequence of duplicated, lost, reordered, mismatched and unauthorised requests from any number of workers.",
  "Tests send well-formed sequences from well-behaved workers, plus one or two bad requests in isolation.",
  ["src/server.rs", "src/sync.rs", "src/http_extensions/axum.rs"],
  [("connections table", "src/server.rs"), ("bearer-token comparison", "src/server.rs handlers")],
  [("connections", "open transactions", "src/server.rs State")],
  ["HTTP replies", "log", "return of execute()"])

p("C12", "Silent workers are timed out; pinging workers never are",
  "A remote worker that pings at least every 30 seconds keeps its task for as long as it runs. "
  "A worker that stops pinging has its task ended as lost (status -1, its disconnect message reported) no earlier than about 34.5 seconds and no later than a few seconds beyond 35 seconds after its last sign of life, exactly once, and its later requests have no effect. "
  "Timing one worker out never affects another.",
  ["schedules", "fault_sequences"],
  "Every pattern of ping times of any number of concurrent workers, including timer-wheel wrap-around over many minutes and completions racing with the time-out.",
  "Each time-out takes 35 seconds, so the tests exercise at most one or two patterns; slot arithmetic errors show only at particular phases.",
  ["src/server.rs", "src/time/timewheel.rs", "src/constants.rs"],
  [("time wheel", "src/time/timewheel.rs"), ("reaper", "src/server.rs reap_pings_forever"), ("ping handler", "src/server.rs ping_handler")],
  [("timeouts", "wheel of pending disconnects", "src/server.rs State")],
  ["Finished(-1) records", "replies to /end after the time-out"])

p("C13", "A slurm job reported as cancelable is never given work afterwards",
  "The cancelation endpoint returns exactly those of the requested slurm job ids that are not currently holding a task. "
  "Once an id has been returned, no worker presenting that id is handed a task again for the rest of that execute() call (it is told to shut down), whatever request it had pending at that moment; ids that were not returned keep receiving work.",
  ["schedules", "histories"],
  "Every interleaving of cancelation requests with /start and /end hand-outs, including requests already waiting for a task.",
  "Tests check one id before and one id during a task; the guarantee is about the race between hand-out and cancelation.",
  ["src/server.rs"],
  [("cancelled_slurm_jobids under a lock", "src/server.rs mark_slurm_job_cancelation, start_handler")],
  [("cancelled_slurm_jobids", "ids promised to the canceller", "src/server.rs State")],
  ["replies of /mark-slurm-job-cancelation, /start and /end"])

p("C14", "Soft shutdown hands out nothing new and waits for what is running",
  "After an administrator's soft shutdown has taken effect no further task is handed out, waiting workers are told to shut down, the status endpoint shows no ready tasks, tasks already handed out run to completion with their real status recorded, and execute() returns as soon as none is left, at once if none was running. "
  "Tasks not handed out have no Started record and run normally in a later session.",
  ["schedules", "configurations"],
  "Every point of a run at which the request can arrive, with any number of tasks ready, just handed out, begun or finishing, and repeated requests.",
  "The test triggers it once, in the middle of one running task.",
  ["src/sync.rs", "src/admin_server.rs"],
  [("soft_shutdown_trigger", "src/sync.rs background_serve"), ("POST /shutdown", "src/admin_server.rs")],
  [("shutdown_state", "Normal or SoftShutdown", "src/sync.rs")],
  ["/start replies", "log", "return of execute()"])

p("C15", "A hard stop returns promptly, closes every record and leaves no process",
  "When execute() is interrupted (SIGINT, an administrator's hard shutdown, or exit of the provisioner) it hands out nothing more and returns promptly; every task that had been reported as started ends with exactly one Finished record (non-zero unless its completion had already been reported), local task processes are killed, and waiting workers and long-polling clients are answered. "
  "The log stays usable: interrupted tasks are re-run by the next session and finished ones are not.",
  ["schedules", "crash_points"],
  "Every point of a run at which the interruption can arrive, with any mix of local and remote tasks ready, claimed, running or just finished.",
  "Tests interrupt a single sleeping task once; hand-outs, completions and long polls in progress at that moment are not covered.",
  ["src/sync.rs", "src/execgraph.rs", "src/localrunner.rs", "src/server.rs", "src/fancy_cancellation_token.rs", "src/admin_server.rs"],
  [("drain", "src/sync.rs"), ("hard cancellation", "src/fancy_cancellation_token.rs"), ("kill_on_drop / killpg", "src/localrunner.rs, src/sync.rs")],
  [], ["return of execute()", "log", "processes left running"])

p("C16", "The status endpoint reports true counts and long polls are never missed",
  "When the system is quiescent, /status reports for every queue mask exactly the number of tasks ready and the number handed out but not finished, the number not yet ready, and the total. "
  "Its etag never decreases and grows whenever tasks become ready; a long poll with the etag last received is answered as soon as tasks become ready after that answer (but not before the requested minimum time), and otherwise at its time-out.",
  ["schedules", "histories"],
  "Every state of a run, every etag, minimum time and time-out, every interleaving of polls with tasks becoming ready.",
  "Tests poll once or twice in one state; a lost wakeup or a leaking counter needs a particular interleaving or history.",
  ["src/sync.rs", "src/async_flag.rs", "src/server.rs"],
  [("queuestate counters", "src/sync.rs"), ("AsyncCounter", "src/async_flag.rs"), ("get_queuestate", "src/sync.rs")],
  [("queuestate", "per-mask ready/inflight counts", "src/sync.rs")],
  ["GET /status replies and their timing"])

p("C17", "The launch rate limit holds over every window, and never starves",
  "With a limit of r tasks per second, the number of tasks launched in any time window of w seconds is at most (w+1)*r, for local and remote workers together; 0 means no limit. "
  "Launches are not delayed forever: work that is ready proceeds at about r tasks per second, a waiting worker is answered with a retryable refusal after about 30 seconds, and a limit changed by the administrator applies from then on.",
  ["schedules", "configurations", "inputs"],
  "Every rate, every pattern of competing requests and idle periods, and every change of rate at run time.",
  "Tests use one rate with one steady pattern; bursts after idle periods and concurrent claims are not explored.",
  ["src/time/gcra.rs", "src/sync.rs", "src/server.rs", "src/admin_server.rs"],
  [("GCRA limiter", "src/time/gcra.rs"), ("until_ready before each claim", "src/sync.rs ReadyTrackerClient::recv")],
  [("tat/tau", "theoretical arrival time and increment", "src/time/gcra.rs")],
  ["times of task launches", "429 replies"])

p("C18", "Tasks go only to eligible queues, most-downstream first",
  "A task is handed out only to a runner of a queue in its affinity mask: queue 0 is the local runners, queue 1 the single console runner, and remote workers get tasks of the queue number they ask for. "
  "Among the tasks ready for a queue when a runner asks, one with the greatest depth (longest chain of dependencies above it) is handed out first.",
  ["programs", "configurations", "schedules"],
  "Every affinity mask over 64 queues, every DAG, every set of simultaneously ready tasks.",
  "Tests use one or two queue bits and never check hand-out order.",
  ["src/sync.rs", "src/graphtheory.rs", "src/execgraph.rs", "src/localrunner.rs"],
  [("one priority channel per queue", "src/sync.rs"), ("tlevel_dag priorities", "src/graphtheory.rs")],
  [], ["/start replies per queue", "local runs"])

p("C19", "The remote worker follows the protocol and cleans up after itself",
  "execgraph-remote asks /start once; it runs at most one task at a time and reports every task it accepts with one /begun and then, unless it gives up, exactly one /end carrying the command's true exit status, output and values (a command that cannot be started is reported as failed), pinging meanwhile at the interval it was given; tasks do not see the authorization token. "
  "It asks for another task with /end unless it was told (SIGUSR1, accept-time limit) to stop accepting. It gives up, killing its task, when the controller refuses it or leaves it without an answer for two ping intervals, or when the scheduler announces cancellation (which it reports as the end of its task). At its own time limit it sends the task one SIGTERM and reports the outcome, saying why. "
  "It exits only after all processes it started, directly or indirectly, are gone: each has been sent SIGTERM, and SIGKILL if it did not heed that.",
  ["schedules", "fault_sequences", "inputs"],
  "Every sequence of controller answers, refusals and silences, every moment of a signal or slurm message, every command outcome.",
  "Tests run the worker against the real, healthy controller; controller faults at each protocol step are not exercised.",
  ["src/bin/execgraph-remote.rs", "src/localrunner.rs"],
  [("run_command", "src/bin/execgraph-remote.rs"), ("cleanup_child_processes_carefully", "src/bin/execgraph-remote.rs")],
  [], ["the requests it sends to a scripted controller", "its process tree"])

p("C20", "Task input, output and reported values are carried over faithfully",
  "Bytes given as fd_input are delivered complete, followed by end-of-file, on the requested descriptor, and key=value words written by the task to descriptor 3 appear in its Finished record, one map per parsable line of text (UTF-8, words quoted as in a POSIX shell), in order; both work the same locally and remotely, for any size. "
  "A task that ignores its input, closes it early, exits at once, writes malformed or huge output or cannot be started never disturbs other tasks or the completion of execute().",
  ["inputs", "fault_sequences"],
  "Every input size and descriptor, every output content, every way a command can ignore its pipes or fail to start.",
  "Tests use one small well-formed input read completely by the task.",
  ["src/localrunner.rs", "src/bin/execgraph-remote.rs"],
  [("run_local_process_loop", "src/localrunner.rs"), ("fd3_values", "src/localrunner.rs")],
  [], ["Finished records", "bytes seen by the task process"])

p("C21", "Adding tasks builds exactly the described acyclic graph",
  "add_task returns consecutive ids for new keys and the existing id for a key already added, the empty key included (leaving the first definition in force); an empty command line, a self-dependency or an unknown dependency is rejected and leaves the graph unchanged, so the same key can be added correctly afterwards. "
  "ntasks, task_keys and get_task always describe exactly the accepted tasks, and adding tasks between execute() calls behaves as if they had been added from the start.",
  ["inputs", "histories"],
  "Every sequence of valid, duplicate and invalid add_task calls, interleaved with execute() calls.",
  "Tests check each rejection once, on a fresh graph, and never look at the state after a rejection.",
  ["src/execgraph.rs", "src/pylib.rs"],
  [("ExecGraph::add_task", "src/execgraph.rs")],
  [("key_to_nodeid", "ids by key", "src/execgraph.rs")],
  ["return values of add_task/ntasks/task_keys/get_task", "order of execution"])

p("C22", "Preamble and postamble run exactly once around each launched task",
  "For every task that is launched, its preamble is called exactly once, before the task is started or handed to a worker, and its postamble exactly once, after it has finished and before any task depending on it is launched; the postamble receives whether the task succeeded, its run count and the number of tasks in the executed graph. "
  "Neither is called for a task that is skipped or never launched.",
  ["schedules", "fault_sequences"],
  "Every interleaving of launches, completions, disconnects and shutdowns, locally and remotely.",
  "The tests check that the callbacks print something for one task.",
  ["src/execgraph.rs", "src/sync.rs", "src/localrunner.rs", "src/server.rs"],
  [("call_preamble / call_postamble", "src/execgraph.rs Cmd")],
  [], ["calls of C callbacks registered through capsules"])

p("C23", "Log identity: version, workflow key and storage roots are checked and kept",
  "A log whose header has another format version, or whose headers disagree on the workflow key, is refused with an error and left unchanged. "
  "Each session adds exactly one header with the workflow's key and the storage roots of that session ($KEY replaced), and a task reused from the log is reported in the directory <storage root>/<key>.<run count>, relative roots being resolved against the log's directory.",
  ["histories", "inputs"],
  "Every history of sessions with any keys, versions and storage roots.",
  "Tests check one bad version and one pair of storage roots.",
  ["src/logfile2.rs", "src/pylib.rs"],
  [("load_runcounts header checks", "src/logfile2.rs"), ("storage_root", "src/logfile2.rs"), ("PyExecGraph::new", "src/pylib.rs")],
  [("header", "latest header", "src/logfile2.rs")],
  ["ExecGraph(), key(), all_storage_roots(), logfile_runcount()", "log records"])

p("C24", "Local tasks run num_parallel at a time, console tasks one at a time",
  "During execute() at most num_parallel tasks taken from the local queue run at the same time, and at most one task of the console queue beside them (none of either with num_parallel=0). "
  "While fewer are running, a ready local task is started without waiting for a running one to finish, so that num_parallel local tasks and a console task can run side by side.",
  ["schedules", "inputs"],
  "Every workflow, num_parallel, mix of local, console and remote tasks, failures and durations.",
  "Tests run local tasks but don't observe how many run at a time.",
  ["src/execgraph.rs", "src/localrunner.rs", "src/sync.rs"],
  [("run_local_process_loop", "src/localrunner.rs"), ("ExecGraph::execute", "src/execgraph.rs")],
  [], ["start and end of local task processes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
