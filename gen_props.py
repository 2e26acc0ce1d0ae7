import json
R="rexecutor/src/"; S="rexecutor-sqlx/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=x) for x in state],observe_at=obs,hook_needed=('yield points at lock/atomic operations of the in-memory backend, controlled random words in backoff (cfg rexecutor_verif)' if hook else None))))

p("C01","Each attempt of a job is handed to exactly one worker",
 "However many workers and clients share one in-memory backend, and however their operations interleave, every attempt of a job is handed to exactly one worker: the same attempt is never delivered twice and one job never has two executions in flight at once. A job that is executing, complete, cancelled or discarded is handed out again only after an explicit retry, snooze or rerun of it. Concurrent enqueues of other jobs, duplicate enqueues, updates and prunes never cause a second delivery.",
 ["schedules","histories"],"all interleavings of concurrent claim/enqueue/duplicate-enqueue/finish/prune operations of up to 3-4 actors on a shared backend, at every lock and atomic operation",
 "A test runs one interleaving; a double hand-out needs a particular preemption between looking a job up and marking it.",
 [R+"backend/memory.rs",R+"job/runner.rs"],[("claim under one write lock",R+"backend/memory.rs load_job_mark_as_executing_for_executor"),("job stream",R+"backend/memory.rs ReadyJobStream::next")],
 ["jobs table","job status","attempt counter"],["jobs yielded by the ready-job stream","executions started"],True)

p("C02","Runnable jobs start promptly and no wake-up is ever lost",
 "While a worker for the executor is running and has spare capacity, every job that becomes runnable - enqueued as due, reaching its scheduled time, retried, snoozed, rerun, or rescheduled by an update or a replacing duplicate - is started within a fraction of a second of being due, under every interleaving of the change with the worker going to sleep. No job waits for the fallback poll and none is stranded. On a paused backend changes wake nobody until all subscribers are explicitly notified.",
 ["schedules","histories"],"all interleavings of one or two workers with every operation that makes a job runnable, jobs due now/soon/later, with and without other sleeping jobs",
 "Lost wake-ups hide in a narrow window between the worker's check and its wait, and in combinations (a sooner job arriving while sleeping for a later one) that sampled tests miss.",
 [R+"backend/memory.rs",R+"job/runner.rs"],[("sleep until next due job or notification",R+"backend/memory.rs ReadyJobStream::next"),("notification after every change",R+"backend/memory.rs notify_subscribers, notify_all")],
 ["subscriber list","paused flag","jobs table"],["time between a job being due and its execution starting"],True)

p("C03","No job runs before its scheduled time",
 "A job is never handed to a worker more than 100 ms before its scheduled time, whether that time came from enqueueing, a retry backoff, a snooze, a rerun, an update or a replacing duplicate. Only jobs waiting to run are handed out, only to workers of their own executor.",
 ["schedules","histories","inputs"],"all schedule offsets around the tolerance window, all ways of setting the schedule, mixed with other due and not-due jobs and executors",
 "Tests try a couple of offsets; early execution appears only when an earlier job wakes the worker while another is just outside the window, or after a particular operation rewrites the schedule.",
 [R+"backend/memory.rs",R+"job/runner.rs"],[("due filter",R+"backend/memory.rs load_job_mark_as_executing_for_executor")],["job scheduled_at","job status"],["execution start time versus scheduled time"])

p("C04","Due jobs are handed out in schedule and priority order",
 "Among the waiting jobs of one executor, those with the same scheduled time are handed out lowest priority number first, and those with the same priority earliest scheduled first. This holds for every mixture of fresh, retried, snoozed, rerun and re-prioritised jobs, and jobs of other executors neither take part nor delay it.",
 ["inputs","histories"],"all combinations of priorities, schedule times, statuses and executors for up to 4 jobs, and all re-prioritising operations",
 "The order matters only when several jobs are due at once; tests check one such set.",
 [R+"backend/memory.rs"],[("ordering of the claim",R+"backend/memory.rs load_job_mark_as_executing_for_executor")],["priority","scheduled_at"],["order in which jobs are yielded"])

p("C05","Every outcome of an execution is recorded as specified",
 "Success marks the job complete; a cancel result marks it cancelled with the reason recorded as a cancellation; a snooze reschedules it the requested delay later; a returned error, panic or timeout is recorded once with its attempt number, kind and message, and either reschedules the job its backoff later or discards it. Exactly one outcome is recorded per execution, with its timestamp, nothing else about the job changes, and this is the same for blocking and non-blocking executors, with and without a time limit.",
 ["inputs","histories","fault_sequences"],"all outcomes x blocking/non-blocking x timeout/no timeout x attempt position x outcome histories up to the depth bound, plus backend write failures",
 "The outcome matrix has dozens of cells and histories multiply it; tests cover a few single-step cells with a mock.",
 [R+"job/runner.rs",R+"backend/memory.rs",R+"executor.rs"],[("outcome dispatch",R+"job/runner.rs execute_job_with_timeout, execute_job_without_timeout"),("failure handling",R+"job/runner.rs handle_job_error"),("timeout",R+"job/runner.rs execute_job")],
 ["job status","errors","scheduled_at","completed_at/cancelled_at/discarded_at"],["job record after each execution"])

p("C06","Attempts are counted exactly and retries are bounded",
 "The attempt number seen by each execution is one more than the number of earlier executions that were not snoozed; snoozing never consumes an attempt. A job that keeps failing is executed until its attempts reach its current maximum and is then discarded - never earlier, never later, even when the maximum is lowered or raised while it is retrying - and rerunning a finished job grants it exactly one more attempt.",
 ["histories","inputs"],"all outcome histories up to the depth bound for every small maximum, including maximum changes between attempts and reruns",
 "The failure needs a specific history (snooze then fail, lower the maximum below the count, rerun after discard) that example tests do not sample.",
 [R+"job/runner.rs",R+"job.rs",R+"backend/memory.rs"],[("final attempt decision",R+"job.rs is_final_attempt"),("attempt increment and snooze decrement",R+"backend/memory.rs mark_job_executing, mark_job_snoozed"),("rerun",R+"backend/memory.rs mark_job_rerunable")],
 ["attempt","max_attempts","status"],["attempt seen by each execution","final status","number of executions"])

p("C07","One bad job never stops a worker from serving the others",
 "A panicking, failing, timing-out or undecodable job, a long computation in an executor declared blocking, an extreme but accepted backoff or snooze delay, a job vanishing while it runs, or an error from the backend while reading or recording affects only that job: the worker keeps serving every other job of its executor, and other executors are unaffected. Jobs left behind by a failed read are still served once the backend works again.",
 ["fault_sequences","histories","schedules"],"all single and double fault placements over the operations of a worker serving up to 3 jobs, for each kind of bad job",
 "Needs a fault at a particular operation followed by further work; tests inject none.",
 [R+"job/runner.rs",R+"backend.rs",R+"backoff.rs"],[("runner loop",R+"job/runner.rs spawn"),("decoding",R+"backend.rs TryFrom for Job")],["worker task liveness"],["later jobs of the same and other executors still execute"])

p("C08","Concurrency limits are respected and capacity is used",
 "A worker never has more executions in flight than its executor's maximum concurrency, and whenever fewer are in flight and a job is due it starts another one; with no maximum, all due jobs run at once. Slots are freed by every kind of outcome, for blocking and non-blocking executors, and distinct executors do not share limits.",
 ["schedules","configurations"],"all completion orders and outcomes of up to 5 jobs for limits 1, 2, 3 and unlimited, two executors",
 "Overshoot and slot leaks show only under particular completion orders.",
 [R+"job/runner.rs"],[("bounded concurrent execution",R+"job/runner.rs spawn")],["in-flight set"],["number of concurrently running executions at every step"])

p("C09","Graceful shutdown starts nothing new and loses nothing started",
 "After shutdown is requested - explicitly, or by dropping the drop guard - no worker starts a further execution, no cron schedule enqueues a further job and no pruner starts a further round. Executions already started run to completion and their outcome is recorded exactly as without shutdown; jobs not started stay waiting, unchanged. This holds whenever the request arrives.",
 ["schedules","crash_points"],"shutdown injected at every step of all explored executions with workers, cron schedules and pruner active",
 "A test shuts down at one moment; the guarantee is about every moment.",
 [R+"lib.rs",R+"job/runner.rs",R+"cron_runner.rs",R+"pruner/runner.rs"],[("cancellation token",R+"lib.rs graceful_shutdown, drop_guard"),("stop taking jobs",R+"job/runner.rs spawn take_until")],["cancellation token","in-flight executions"],["executions, enqueues and prunes after the request","job records at the end"])

p("C10","Concurrent unique enqueues never create duplicates",
 "When several clients concurrently enqueue jobs under the same uniqueness criteria on one backend, at most one job is created and every client receives the id of that one job, under every interleaving among themselves and with workers claiming or finishing it. The conflict resolution applied is one that some sequential order would give, and it never disturbs a field it was not asked to replace, in particular not the progress of an execution. Ordinary concurrent enqueues all succeed with distinct ids and none is lost.",
 ["schedules"],"all interleavings, at every lock and atomic operation, of 2-3 concurrent unique enqueues with and without a concurrent claim or completion",
 "Check-then-insert races need a preemption between check and insert.",
 [R+"backend/memory.rs"],[("unique insertion",R+"backend/memory.rs insert_unique_job"),("plain insertion",R+"backend/memory.rs insert_new_job")],["jobs table","id counter"],["ids returned","jobs stored"],True)

p("C11","Uniqueness criteria match and resolve conflicts exactly as specified",
 "A unique enqueue conflicts with a stored job exactly when the job satisfies every criterion given - same key if a key is given, same executor if restricted to it, status among the listed ones, scheduled within the duration of now or at the very same time if a duration is given - and criteria not given restrict nothing. Without a conflict the job is stored; with one nothing is stored, the conflicting job's id is returned, and exactly the fields named for replacement change, only when that job's status is among those named. The criteria builders and per-executor defaults mean the same in every combination.",
 ["inputs","histories"],"all combinations of criteria, stored-job shapes, statuses, durations and replacement sets",
 "Thousands of combinations of criteria x stored state; tests sample a handful.",
 [R+"backend/queryable.rs",R+"backend/memory.rs",R+"job/uniqueness_criteria.rs",R+"job/builder.rs"],[("matching",R+"backend/queryable.rs EnqueuableJob::matches"),("resolution",R+"backend/memory.rs replace"),("builders",R+"job/uniqueness_criteria.rs")],
 ["stored key","status","scheduled_at"],["number of jobs","returned id","fields of the conflicting job"])

p("C12","Enqueueing stores and delivers exactly what was asked for",
 "For every combination of builder options in any order, the stored job has exactly the given data, metadata, tags, priority, maximum attempts and schedule, and the documented default for each option not given, including executor-level defaults. It starts as scheduled with no attempts and a fresh id, and the executor later receives that same data, metadata, tags, priority, limits and schedule.",
 ["inputs"],"all subsets and orders of builder options over boundary values and several data shapes, through enqueue, storage, query and execution",
 "Defaulting and option-order interactions form a large product; tests check single options.",
 [R+"job/builder.rs",R+"backend.rs",R+"executor.rs",R+"backend/memory.rs"],[("builder",R+"job/builder.rs"),("encoding and decoding",R+"backend.rs TryFrom for Job")],["stored job"],["stored job record","job passed to the executor"])

p("C13","Queries return exactly the matching jobs of the executor",
 "For every query built from the provided conditions with and, or and not in any nesting, the result contains exactly the executor's jobs that satisfy it under ordinary boolean logic, each once and with its full details, and never a job of another executor. This holds for id, data, metadata, status, tags and schedule conditions, including empty lists and boundary instants.",
 ["inputs"],"all formulas up to the depth bound over all condition kinds, evaluated on populations covering all job shapes",
 "Formula space is combinatorial; grouping and negation errors appear only in particular nestings.",
 [R+"job/query.rs",R+"backend/queryable.rs",R+"backend.rs",R+"executor.rs"],[("formula translation",R+"job/query.rs and backend.rs Query::from"),("evaluation",R+"backend/queryable.rs Query::matches"),("executor scoping",R+"backend.rs for_executor")],["jobs table"],["set of jobs returned"])

p("C14","Pruning removes exactly the finished jobs it was asked to remove",
 "Pruning by age removes exactly the jobs with the given finished status, of the selected executors, scheduled longer ago than the limit; pruning by length keeps exactly the newest jobs up to the limit per rule and removes the older ones. Jobs of any other status or of unselected executors are never removed or changed, whatever the rule combination, limits, insertion order and population. Pruning is idempotent and never disturbs running work.",
 ["inputs","histories"],"all rules x executor selections x limits x populations of up to 5 jobs with all orders of schedule times",
 "What survives depends on the relation of limits, order and population; tests check one population.",
 [R+"backend/memory.rs",R+"backend/queryable.rs",R+"pruner.rs"],[("prune",R+"backend/memory.rs prune_jobs"),("rule matching",R+"backend/queryable.rs PruneSpec/Spec::matches"),("rule builders",R+"pruner.rs")],["jobs table"],["jobs left after pruning"])

p("C15","Cron schedules enqueue exactly one job per tick",
 "For every schedule and time zone, each tick of a running cron schedule produces exactly one job with the configured data, scheduled at exactly the tick, enqueued no earlier than a fraction of a second before it and run promptly when due; nothing is enqueued between ticks. Several application instances sharing one backend and running the same schedule still produce exactly one job per tick, while schedules with different data or executors are independent. A failing enqueue loses at most that tick.",
 ["schedules","configurations","fault_sequences"],"several schedules and time zones, start phases around the tick boundary, 1-3 instances with all interleavings of their enqueues with each other and with workers, single enqueue faults",
 "Duplicates and skips need an instance to be delayed at a particular point relative to the tick or to the worker.",
 [R+"cron_runner.rs",R+"lib.rs",R+"backend/queryable.rs"],[("tick loop",R+"cron_runner.rs spawn"),("cluster deduplication",R+"cron_runner.rs enqueue_job")],["virtual time","jobs table"],["jobs stored per tick","their scheduled time and data"])

p("C16","The pruner applies every rule on every tick and survives failures",
 "At each tick of its schedule the pruner applies every configured rule exactly once, with at most the configured number of rules in progress at a time, and does nothing between ticks. A failing rule neither prevents the other rules nor later ticks from running.",
 ["schedules","fault_sequences","configurations"],"1-4 rules, concurrency limits 1, 2, 3 and none, all completion orders and failures of the rules over several ticks",
 "Depends on which rule fails or is slow and in which order they finish.",
 [R+"pruner/runner.rs",R+"pruner.rs",R+"lib.rs"],[("tick loop and rule fan-out",R+"pruner/runner.rs spawn, prune")],["virtual time"],["prune operations issued to the backend, their overlap and time"])

p("C17","Backoff delays follow their formula, stay in bounds and never fail",
 "For every attempt number and every accepted configuration, the constant, linear, polynomial and exponential strategies give exactly their formula in seconds, clipped to the configured maximum and saturating instead of overflowing; the delay is never negative and never decreases with the attempt number. Jitter moves the delay in both directions, by at most its configured bound, never below zero, and no strategy, jitter or configuration ever panics.",
 ["inputs","configurations"],"every attempt number 0..65535 x boundary configurations of every strategy x all jitter kinds with the random source driven through its extremes",
 "Overflow appears only at large attempts and factors; tests use tiny ones and a real random source.",
 [R+"backoff.rs"],[("strategies",R+"backoff.rs BackoffStrategy"),("jitter",R+"backoff.rs Jitter")],["attempt number","random source"],["delay returned"],True)

p("C18","The in-memory backend follows its job life-cycle contract",
 "For every sequence of operations, each operation changes exactly what it promises on exactly the job it names and leaves every other job untouched: completing, retrying, discarding, cancelling, snoozing, rerunning and updating set the status, schedule, counters, timestamps and error log as documented, and errors accumulate in order and are never lost. Operations on unknown ids report that the job is not found and change nothing; ids are never reused.",
 ["histories","inputs"],"all operation sequences up to the depth bound over 2-3 jobs and two executors, compared with an independent reference model",
 "Contract violations that need a history (rerun after cancel after retry, id reuse after prune) are out of reach of single-operation tests.",
 [R+"backend/memory.rs",R+"backend.rs",R+"executor.rs"],[("state changes",R+"backend/memory.rs impl Backend"),("executor-level cancel/rerun/update",R+"executor.rs")],["all job fields"],["query results after every operation"])

p("C19","The process-wide backend is set at most once and used everywhere",
 "However many threads try to install the process-wide backend, exactly one installation succeeds, all others report that it is already set, and from then on every operation that does not name a backend uses that one. Before it is installed such operations fail with an error and never panic or block.",
 ["schedules","histories"],"all orders of up to 4 operations (install backend A/B, enqueue, query, cancel, rerun, update, start cron or executor) each in a fresh process",
 "The state is a process-wide static: a test process can only see one history.",
 [R+"global_backend.rs",R+"lib.rs",R+"executor.rs",R+"job/builder.rs"],[("one-time installation",R+"global_backend.rs set"),("lookup",R+"global_backend.rs as_ref")],["process-wide backend"],["results of the operations and which backend changed"])

p("C20","PostgreSQL: each attempt is claimed once, when due, in order",
 "However many workers on however many connections claim from one PostgreSQL database, and whatever other statements run in between, every attempt of a job is handed to exactly one worker, counted once, never more than 100 ms before its schedule, never unless it is waiting to run, and only to its own executor. With equal schedules the lowest priority number goes first, with equal priorities the earliest schedule; when a due unlocked job exists a claim returns one.",
 ["schedules","histories"],"all statement-level interleavings of 2-3 claiming connections with each other and with enqueue, update and finish statements under read-committed semantics",
 "The repository's database tests need a server and run sequentially; double claims need concurrent transactions.",
 [S+"lib.rs",S+"stream.rs"],[("claim statement",S+"lib.rs load_job_mark_as_executing_for_executor"),("job stream",S+"stream.rs ReadyJobStream::next")],["rexecutor_jobs rows and row locks"],["jobs yielded by the streams","rows afterwards"])

p("C21","PostgreSQL: unique enqueues create no duplicates and resolve correctly",
 "A unique enqueue on PostgreSQL conflicts with a stored job exactly when the job satisfies every criterion given (key, executor, statuses, schedule within the duration of the new one), and then returns that job's id and changes exactly the fields named for replacement if its status is among those named; otherwise it stores the job. Concurrent enqueues with the same criteria on different connections never create duplicates and never deadlock, under every interleaving of their statements.",
 ["schedules","inputs"],"all combinations of criteria, stored shapes and replacement sets; all statement interleavings of 2-3 concurrent unique enqueues and a claim",
 "Needs a database, concurrent transactions and a combinatorial set of criteria.",
 [S+"lib.rs",S+"unique.rs"],[("advisory lock, lookup, insert or update",S+"lib.rs insert_unique_job"),("lookup statement",S+"unique.rs Unique::query")],["rexecutor_jobs rows","advisory locks"],["ids returned, rows afterwards"])

p("C22","PostgreSQL: queries return exactly the matching jobs",
 "For every query built from the provided conditions with and, or and not in any nesting, the statement sent to PostgreSQL is valid and returns exactly the jobs that satisfy it under ordinary boolean logic, each once with its full details - the same jobs the in-memory backend returns. This includes empty lists and empty conjunctions.",
 ["inputs"],"all formulas up to the depth bound over all condition kinds and populations covering all job shapes",
 "Operator precedence and list operators fail only for particular nestings.",
 [S+"query.rs",S+"lib.rs"],[("statement generation",S+"query.rs handle_query")],["generated SQL"],["set of jobs returned"])

p("C23","PostgreSQL: pruning removes exactly what was asked for",
 "On PostgreSQL, pruning by age removes exactly the jobs of the given status and selected executors scheduled longer ago than the limit, and pruning by length keeps exactly the newest up to the limit and removes the older ones, for the finished statuses. Jobs of other statuses or unselected executors are never removed or changed.",
 ["inputs"],"all rules x executor selections x limits x populations of up to 5 rows",
 "The repository's prune tests need a server and use one population.",
 [S+"query.rs",S+"lib.rs"],[("delete statement",S+"query.rs PruneSpec::query")],["rexecutor_jobs rows"],["rows left"])

p("C24","PostgreSQL: the backend follows its job life-cycle contract",
 "For every sequence of operations the PostgreSQL backend changes exactly what each operation promises on exactly the named job - status, schedule, counters, timestamps, errors in order - returns jobs with every field as stored, and reports unknown ids as not found without changing anything. Every change that makes a job runnable wakes the subscribers of its executor, and the stream delivers it promptly, also after the connection to the database was lost and restored.",
 ["histories","inputs","fault_sequences"],"all operation sequences up to the depth bound over 2 jobs, compared with the reference model shared with the in-memory backend; all runnable-making operations x moments of losing connections",
 "Needs a server; single-operation tests do not cover histories.",
 [S+"lib.rs",S+"backend.rs",S+"types.rs",S+"stream.rs"],[("update statements",S+"lib.rs _mark_job_*"),("row decoding",S+"types.rs"),("notification listener",S+"lib.rs from_pool")],["rexecutor_jobs rows"],["query results","stream deliveries"])

p("C25","Enqueue assertions decide exactly what they say",
 "The test assertion for enqueued jobs passes exactly when the number of stored jobs satisfying every stated condition equals the stated count - or is at least one when no count is stated - and panics otherwise. This holds for every combination of conditions (executor, data, metadata, tags, and being scheduled at, before or after an instant), every population of jobs, and both a named and the process-wide backend.",
 ["inputs"],"all combinations of asserted conditions x populations of jobs differing in one aspect each x count requirements",
 "An assertion that is too lenient is invisible to tests that use it positively.",
 [R+"testing.rs"],[("assert_enqueued and variants",R+"testing.rs")],["jobs table"],["panic or not"])
p("C26","PostgreSQL: failures are reported and leave nothing half done",
 "Whatever goes wrong with the database during an operation - a statement fails, the connection is lost before or after the server dealt with a statement, no connection becomes free - the operation ends and reports a failure; it never claims success for what did not happen, nor that the job does not exist. The stored jobs are afterwards exactly as before the operation or exactly as after it, operations of others at the same time are not affected, nothing stays locked, and the same backend, its queries and its job streams work again as soon as the database does.",
 ["fault_sequences","schedules"],"every operation x every statement of it x every kind of fault, alone and at the same time as another operation, on private and shared pools",
 "Faults at a chosen statement can not be produced with a real server in a test, and the atomicity of a multi-statement operation shows only when it is interrupted between statements.",
 [S+"lib.rs",S+"backend.rs",S+"stream.rs"],[("transaction of unique enqueues",S+"lib.rs insert_unique_job"),("mapping of results",S+"backend.rs handle_update, "+S+"lib.rs map_err")],["rexecutor_jobs rows","connections of the pool"],["results of operations","rows stored afterwards"])
p("C27","PostgreSQL: migrations can be repeated, run concurrently and interrupted",
 "When run_migrations reports success the database is ready: jobs are stored, handed out and new jobs wake waiting workers. It succeeds on an empty database, again on a migrated one, on one that is in use, and when several processes call it at the same time; stored jobs and operations of others under way are never affected by it. If it fails - a statement fails or the connection is lost at any point - it says so, and running it again succeeds.",
 ["fault_sequences","schedules","histories"],"every statement of the migrations x every kind of fault, repeated; all interleavings of 2-3 processes up to the bound, with faults; every other operation at the same time",
 "Interruptions between two particular statements and races between starting processes do not happen in tests.",
 [S+"lib.rs","rexecutor-sqlx/migrations/20240330221437_add-job-table.up.sql"],[("run_migrations",S+"lib.rs run_migrations"),("script","rexecutor-sqlx/migrations/20240330221437_add-job-table.up.sql")],["schema","_sqlx_migrations rows","rexecutor_jobs rows"],["result of run_migrations","usability of the database","rows stored"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
