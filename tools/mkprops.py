#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "A command is one transaction: all of it commits or none of it does",
  "With transactions on, a run opens at most one storage transaction, performs every query and write of the command (including mid-command saves and event persistence) inside it, and ends it with exactly one commit if every step succeeded, or exactly one rollback and no commit if any step returned an error, asked to break, or panicked (the panic still reaches the caller). The result carries no error only if the commit itself succeeded. With transactions off, no begin, commit or rollback is ever issued.",
  ["fault_sequences","inputs"], "every combination of outcome (ok, error, break, panic) of begin, business code, converter, hook, each write, event persistence, event dispatch, rollback and commit",
  "Tests run only the all-ok path and one failing main function; no test makes commit, rollback, a hook or the n-th write fail.",
  ["engine.go","executor.go"], [("runWithTransaction","engine.go"),("Stage.do / persist / exec","engine.go")],
  ["calls and context seen by the executor","Result.Error / Result.Break"])
p("C02", "Command locks are all held during the run and all released afterwards",
  "A command that names lock keys opens its transaction and runs its business code only while it holds a lock for every one of them; acquisition follows one global (sorted) order for any set of keys, duplicate keys are refused, and the list of keys the command gave is left as it is. Each lock that was acquired is released exactly once, after the transaction has ended, whatever the outcome, panics included, and also when the caller's context is cancelled meanwhile. If any lock cannot be obtained, nothing of the command body runs and an error is returned (one that still matches the locker's own error).",
  ["fault_sequences","inputs"], "any key values and number of keys up to the bound, any failing acquisition or release, any outcome of the body",
  "The lock used in tests never fails and records nothing, so order, pairing and cleanup are never observed.",
  ["engine.go"], [("runOnLock","engine.go"),("Stage.Save","engine.go")], ["sequence of Lock/UnLock/Begin/Commit/RollBack calls"])
p("C03", "Saving writes exactly the difference between loaded and final aggregate",
  "For any aggregate and any edit of it, a save issues exactly one insert for each entity that was added, one update for each entity that was present before and is marked dirty, and one delete for each entity that was taken out (of the repository or of any child field), and nothing for any other entity. Inserts are issued before updates and updates before deletes, and all entities of the same kind and operation are written together. The children of an entity are those its GetChildren answers, and only if that answer is nil those in its exported fields. An entity type the executor does not know is skipped without failing the save.",
  ["inputs","histories"], "every aggregate of the bounded shape (two roots, single/list/map child fields, grandchildren), every subset of adds, removals and dirty marks, every map iteration order",
  "Tests check five hand-made edits; the result depends on the combination of edits at several levels and on map iteration order.",
  ["engine.go","snapshot.go"], [("entityDiff / findChildren","snapshot.go"),("makeActions","engine.go")], ["Actions received by the executor"])
p("C04", "Moving entities between parents updates them, ambiguous ownership fails",
  "Entities that were loaded under one parent and are found under another parent (or another child field) at save time are each written as one update against the new parent, never as an insert or a delete, however many entities move or are removed in the same save. An entity newly placed under two parents, or kept under one parent and also placed under another, makes the save fail with an error and writes nothing.",
  ["inputs"], "any number of moved, removed, kept and new children between two parents within the bound",
  "One test moves a single child; list-position dependent mistakes need several entities moving at once.",
  ["snapshot.go"], [("handleEntityMove","snapshot.go")], ["Actions received by the executor","Result.Error"])
p("C05", "Recursive delete removes the whole subtree and nothing else",
  "With recursive delete on, deleting an entity (root or child) also deletes every entity below it, at every level, once each; entities outside the deleted subtrees are not deleted. With it off, only the removed entities themselves are deleted.",
  ["inputs","configurations"], "every tree of the bounded shape, any set of removed roots and children, option on and off",
  "One test deletes one fixed tree with the option on.",
  ["snapshot.go","engine.go"], [("recursiveDelete","snapshot.go"),("getEntityChanged","engine.go")], ["delete Actions received by the executor"])
p("C06", "Repeated saves in one command write each change once",
  "When a command saves several times, each save (and the final one) writes only what changed since the previous save: nothing is inserted, updated or deleted twice and no change is lost. After a save the saved entities are no longer dirty and a later update is compared against the state that save wrote.",
  ["histories"], "every sequence of up to the bounded number of edit/save steps over a small set of entities",
  "Tests run two fixed sequences and look only at final presence in a map.",
  ["engine.go","snapshot.go"], [("Stage.commit / flush / updateSnapshot / unDirty","engine.go")], ["Actions per save","dirty flags after save"])
p("C07", "Every insert has a unique id and every update its matching old state",
  "An entity saved without an id gets one fresh id from the id generator before its model and the models of its children are built, and an id that is already set is never replaced; if the generator fails the save fails and nothing is written. Every update carries, at the same position as the new model, the model of the same entity as it was when loaded or last saved. New elements of one list, and new roots of one Add, get their ids and are written in the order of the list.",
  ["inputs","fault_sequences"], "any mix of entities with and without ids, any generator failure point, any set of dirty entities",
  "Tests check single entities; alignment of old and new models with several entities of the same type is never checked.",
  ["engine.go"], [("putNewID","engine.go"),("makeActions PrevModels","engine.go")], ["Models and PrevModels of Actions"])
p("C08", "Lifecycle hooks run once per change, around the write, and can veto it",
  "For each entity that is created, updated or deleted by a save, its matching before-hook runs exactly once before anything is written and its matching after-hook exactly once after everything was written, and no other hook of it runs. What a before-hook changes in the entity is what is written. An error from a before-hook prevents every write of that save; an error from any hook makes the command fail.",
  ["inputs","fault_sequences"], "every combination of created/updated/deleted entities and every failing hook",
  "The hook test runs one entity through one success path.",
  ["engine.go"], [("execHook / persist","engine.go")], ["order of hook calls and Exec calls"])
p("C09", "Every event of a successful command is sent once, in order",
  "A command that succeeds hands every event raised by any entity it touched (live at any depth, or removed, in any of its saves) to the event bus exactly once, with the type, sender, send type, time and content it had when it was raised, ordered by creation time and then by id; a command whose business code or writes fail hands over none. If event persistence is configured, all of these events are first written in one insert inside the same transaction, and the dispatch does not happen if that write fails. A dispatch error fails the command. In an engine without an event bus a command that raised an event fails, unless it is a dry run.",
  ["inputs","histories","fault_sequences"], "any assignment of events to roots, children and removed entities, any creation-time order including ties, any failing step",
  "No test has more than one event or an event on a removed entity; ordering comes out of an unordered map.",
  ["engine.go","event.go"], [("collectEvents / dispatchEvents / makeEventPersistAction","engine.go")], ["Dispatch calls on the bus"])
p("C10", "Transactional events follow the outcome of the storage transaction",
  "On a bus that supports transactional events, events marked transactional are announced with begin before the storage commit and are then committed exactly when the storage commit succeeded, or rolled back when the command failed or broke after begin; if the commit itself fails, neither is called, so that the check-back decides. Other events on such a bus, and all events on a bus without that support, are sent the normal way; no event is sent both ways.",
  ["fault_sequences","inputs"], "every mix of normal and transactional events and every outcome of begin, dispatch, persistence and commit",
  "Needs a database in the existing tests, and only the fixed success and commit-failure runs are sampled.",
  ["engine.go"], [("dispatchEvents","engine.go"),("runWithTransaction","engine.go")], ["DispatchBegin/Dispatch/Commit/Rollback calls"])
p("C11", "Dry run changes nothing outside",
  "A command run in dry-run mode performs no insert, update or delete and sends no event by any way, for any business code, intermediate saves included, while queries still work and the outcome (error, break, success) is the same as the command's own.",
  ["inputs","histories"], "every edit sequence and event set of the other properties with the option on",
  "No test uses dry run.",
  ["engine.go"], [("Stage.exec / dispatchEvents","engine.go")], ["executor and bus calls"])
p("C12", "Outcomes are reported truthfully and runs do not leak into each other",
  "Post-save hooks (engine-wide, per-run and the command's own) each run exactly once, with the final result, after a run that ended without error and after its transaction and locks are finished, and never after one that failed; a break ends the run without error, with the break flag set and its changes rolled back. The roots handed to the business code are those it loaded, and stay so while it removes and adds. Adding or loading an entity that the repository already holds, or removing through a container one that it does not hold, is reported as the error of the run. An output set by a command is the one its result carries. Every option takes effect where it is given: for all runs of an engine, or for one run only, where it outweighs the engine's; and a bus or timer given to either is told whom to call. Options, hooks, events and changes given to one run never affect another run of the same engine, whether it comes later or runs nested inside.",
  ["inputs","histories","configurations"], "every outcome, any number of engine-wide hooks, sequential and nested runs",
  "Tests run one command per engine; leakage needs two runs with particular numbers of hooks.",
  ["engine.go","command.go"], [("Stage.Save / WithOption / NewStage","engine.go"),("ResultErrOrBreak","engine.go")], ["hook calls","Result fields"])
p("C13", "Loading an aggregate gives back what is stored",
  "Loading a root with its child pointers queries by the root's id and by the parent relation and fills the root and every requested child field with exactly the stored rows, in the order returned, one new entity per row, keeping elements already present in a slice. A missing root is reported as not found, a missing optional single child leaves the pointer empty, a root without id is refused, and any executor or converter error is returned. Loading alone never causes a write.",
  ["inputs","fault_sequences"], "any stored rows up to the bound, any subset of requested children, any failing query or conversion",
  "Tests load one fixed aggregate.",
  ["engine.go"], [("BuildEntity / buildEntity / buildEntitySliceByParent","engine.go")], ["entity contents after Get","executor calls"])
p("C14", "Model comparison reports exactly the changed columns",
  "Comparing two models of the same type reports a field if and only if its value differs between them, for plain values, times (a moment is the same in every zone), pointers, slices, structs with unexported parts, nested and embedded structs (for embedded struct values, the individual fields), including changes to and from the zero value. (Whether a nil and an empty slice differ is left open.)",
  ["inputs"], "every pair of values of a model type with fields of all supported kinds within the bounds",
  "One test compares one pair; a miss for one kind or one zero/non-zero combination silently loses an update.",
  ["executor/mysql/diff.go"], [("DiffModel / diffStruct / diffValue","executor/mysql/diff.go")], ["returned field names"])
p("C15", "The SQL executor stores, updates, deletes and finds exactly the given rows",
  "After an insert every given model is stored; an update changes exactly the differing columns of exactly the given row, zero values included and columns of several embedded structs not confused; a delete removes exactly the rows of the given ids; a query returns exactly the rows matching the non-zero fields of the query model. Inside a transaction nothing is visible outside before commit and nothing remains after rollback; without a registered entity type, a transaction or an operation an error is returned. Each entity type is converted by the converter registered for it, in either form of registration, with the entity, parent and operation given, and a refusal of the converter is reported.",
  ["inputs","histories"], "any field values, any row sets up to the bound, commit or rollback",
  "The existing tests of the package need a MySQL server and sample a single scenario.",
  ["executor/mysql/executor.go","executor/mysql/diff.go"], [("opMap / Exec / Begin / Commit / RollBack","executor/mysql/executor.go")], ["table contents"])
p("C16", "Events reach all registered handlers, check-backs the registered checker",
  "An incoming event is given, decoded, to every handler registered for its type, in registration order, and to no other; the first handler error or undecodable payload stops the delivery and is returned, and an event type without handler succeeds. A transactional check-back returns what the registered checker answered, and rollback if there is no checker or the payload cannot be decoded; every checker or handler that registration accepted can actually be called. A handler that builds a command runs that command and reports its error. While it runs, a handler may have other events handled, register handlers and run commands.",
  ["inputs","histories"], "any registration sequence over several event types and handler kinds, any handler outcomes",
  "Tests register one handler and ignore its outcome.",
  ["event.go","engine.go"], [("RegisterEventHandler / onEvent / onTXChecker","event.go"),("Engine.RegisterEventHandler","engine.go")], ["handler calls and returned errors"])
p("C17", "Dispatching on the SQL bus reaches every service, or nothing is stored",
  "A successful dispatch stores each event once and creates one pending delivery record per event for every registered service, immediately due; a dispatch that returns an error leaves no event and no delivery record behind. The stored event carries the same content, sender and creation time as the one dispatched, and events keep their order.",
  ["inputs","fault_sequences"], "any number of events and services up to the bound, any single failing statement",
  "Needs MySQL in the existing tests, and no test makes a statement fail.",
  ["eventbus/mysql/eventbus.go","eventbus/mysql/po.go"], [("EventBus.Dispatch","eventbus/mysql/eventbus.go"),("eventPersist","eventbus/mysql/po.go")], ["rows of the event and delivery tables"])
p("C18", "The SQL bus delivers at least once and records outcomes truthfully",
  "In each poll every due pending delivery of the service within the scan window and batch limit is handed once to the handler with its own event; it is marked successful only if the handler returned no error for that event, and otherwise stays pending with its retry count and next time taken from the retry strategy and the failure noted (whatever its message), or is marked failed once the strategy gives up. A handler error or panic, or a failing statement, for one event never prevents the other due events from being delivered, never loses an event, and other services' records, finished records and records not yet due are not touched.",
  ["inputs","fault_sequences","histories"], "any pending/finished/failed records with any due times and retry counts, any handler outcome per event, failing statements",
  "The existing tests need MySQL and sample few outcomes; a lost or wrongly marked delivery shows only for particular table states.",
  ["eventbus/mysql/eventbus.go"], [("handleEvents / getScanEvents / handleEvent / doRetryStrategy","eventbus/mysql/eventbus.go")], ["handler calls","delivery records after the poll"])
p("C19", "Ordered events are never overtaken by their successors",
  "For events of one sender sent as FIFO, an event is handed to the handler only when the sender's preceding event has succeeded or expired for this service; as LaxFIFO, only when the preceding event is no longer pending. The preceding event is the sender's latest event stored before it with a creation time not after its own. The first event of a sender, and one whose predecessor has fallen out of the retention window or has no record for this service, is deliverable; a blocked event stays pending and keeps its retry budget, and other senders and services do not matter.",
  ["inputs","histories"], "any statuses, send types, senders and creation times of the sender's earlier events within the bound",
  "The existing FIFO tests need MySQL, and only assert monotone times of whatever was delivered.",
  ["eventbus/mysql/eventbus.go"], [("checkPrecedingEvent","eventbus/mysql/eventbus.go")], ["handler calls"])
p("C20", "Retry strategies bound and space the retries as configured",
  "A failing delivery is retried a bounded number of times given by its strategy: a custom list of n intervals gives exactly n retries, a limit of n gives n+1 (none for a negative limit). The n-th retry is scheduled no earlier than the failure plus the configured interval, retry numbers increase by one, and a strategy never changes its answer for the same state.",
  ["inputs"], "every limit, interval list, retry count and clock value within the bounds",
  "Tests count calls for two fixed configurations and need MySQL.",
  ["eventbus/mysql/eventbus.go"], [("LimitRetry/IntervalRetry/CustomRetry.Next","eventbus/mysql/eventbus.go")], ["RetryInfo returned"])
p("C21", "Transactional messages on the SQL bus are resolved exactly as decided",
  "Events announced with begin are not delivered until committed, are dispatched once on commit and never after rollback. A begun transaction left undecided past its timeout is resolved by asking the check-back: commit dispatches its events, rollback drops them, unknown leaves it for the next poll (as does a check-back that panics, which keeps no other transaction from being resolved), and transactions not yet due or of other services are left alone. A transaction whose events were already dispatched is finished without dispatching them again, and a failure while resolving never leaves it half dispatched.",
  ["histories","fault_sequences"], "any set of open transactions with any due times, any check-back answers, failing statements, crash between dispatch and finish",
  "The existing tests need MySQL and cover the plain commit, rollback and one timeout.",
  ["eventbus/mysql/eventbus.go"], [("DispatchBegin / Commit / Rollback / checkTX / handleTransactions","eventbus/mysql/eventbus.go")], ["transaction, event and delivery tables"])
p("C22", "Cleaning removes only what every service has finished with",
  "Cleaning removes delivery records only of its own service, only successful ones older than the retention time, and an event only when no delivery record of any service refers to it any more; pending, failed, expired and recent records and their events stay. Whatever is eligible is removed, for any number of records, by default once every night at two.",
  ["inputs"], "any delivery records of two services with any status and age, any number across batch boundaries",
  "The existing clean tests check only that no successful record is left for the remaining events.",
  ["eventbus/mysql/eventbus.go"], [("cleanEvents","eventbus/mysql/eventbus.go")], ["event and delivery tables after cleaning"])
p("C23", "Concurrent instances of a service do not process a finished event again",
  "When several instances of the same service poll at the same time, under any interleaving of their database statements, an event that one instance has already processed successfully is not handed to the handler again, a failed attempt is neither lost nor repeated before its time, recorded outcomes are never overwritten, a transaction awaiting its check-back is resolved once, and no delivery is lost, also when one instance loses its database in the middle.",
  ["schedules"], "every interleaving at statement granularity of two polling instances over the same records",
  "The one concurrent test needs MySQL and samples a few schedules.",
  ["eventbus/mysql/eventbus.go"], [("handleEvent row lock and status re-check","eventbus/mysql/eventbus.go")], ["handler calls per event","delivery records"])
p("C24", "The database lock excludes all others until released or expired",
  "At most one caller holds the lock of a key at any time: a lock request succeeds only if there is no holder or the holder's lease is older than the time-to-live, also when requests, renewals and releases of several callers interleave. Every acquisition yields a new owner identity, and a release or renewal with an identity that no longer owns the lock fails without disturbing the present owner; requests refused because of a live holder report the locked error.",
  ["schedules","inputs"], "any lease age, any interleaving at statement granularity of acquisitions, renewals and releases by up to three callers",
  "Tests run one holder and one contender with sleeps.",
  ["lock/db/sql.go","lock/db/po.go"], [("lock / UnLock / update","lock/db/sql.go")], ["returned locks and errors","lock table"])
p("C25", "A guarded run keeps its lease, stops when it loses it, and cleans up",
  "A function run under the database lock runs only if the lock was obtained; while it runs its lease is renewed at the renewal interval, and if a renewal fails the function's context is cancelled. When it returns or panics the lock it still owns is released, also if the caller's context was cancelled, and no background activity of the run remains.",
  ["schedules","fault_sequences"], "any run length in renewal intervals, any failing renewal, return or panic",
  "The test runs one two-second function and checks a failed contender.",
  ["lock/db/sql.go"], [("DBLock.Run","lock/db/sql.go")], ["lock table","context state","goroutines left"])
p("C26", "Timer jobs fire when due, once per due time, and never otherwise",
  "A poll invokes the callback once, with the registered key, cron expression and data, for every job of the service that is active and due, and for no other job; afterwards a cron job is active with its next time strictly in the future as its expression says, and a one-shot job is finished, whether or not the callback failed or panicked; several instances polling together fire it once between them, and a job that is due before a handler is registered waits for it. Registering an existing key, also at the same moment in several instances, does not disturb the existing job, a one-shot time in the past and an invalid cron expression are refused without storing a job, and cancelling a key removes the service's job of that key and no other. A cron task registered with the engine has its function, or the command that builds, run once per due time; handlers registered for a timer's key get its key, expression and data.",
  ["inputs","histories"], "any jobs with any due times and statuses, any callback outcome",
  "All timer tests need MySQL and sample a few real-time runs.",
  ["d_timer/sql/timer.go","d_timer/sql/model.go","timer.go","engine.go"], [("handleJobs / run","d_timer/sql/timer.go"),("TimerJob.Next/Reset/Close","d_timer/sql/model.go")], ["callback calls","timer table"])
p("C27", "The memory bus delivers each event once, in order, until stopped",
  "Every event dispatched to a started memory bus is handed to the registered handler exactly once and in dispatch order, whatever the handler returns and also when it panics, for any number of dispatchers, and starting twice does not duplicate delivery. After its context is cancelled the bus stops consuming and leaves nothing running.",
  ["schedules","histories"], "any number of events up to the bound, before and after start, handler errors, cancellation at any point",
  "The test sends one event and never looks at the end of the bus's life.",
  ["eventbus/mem/eventbus.go"], [("Dispatch / Start","eventbus/mem/eventbus.go")], ["handler calls","goroutines left after cancellation"])
p("C28", "The redis lock excludes all others until released or expired",
  "At most one caller holds the redis lock of a key at any time: a request is granted only if there is no holder or the holder's lease has ended, it gives the caller a fresh identity and a lease of exactly the time-to-live, and it waits, retrying, a bounded time for a live holder, taking the lock once that one releases it. A request refused because of a live holder reports the locked error, whatever the time-to-live; a failing server or a caller that gives up is reported as such and never as granted or locked. A release by the holder frees the lock; with an identity that no longer owns it, it fails without disturbing the present owner.",
  ["schedules","inputs","fault_sequences"], "any remaining lease of a holder, any overlap of up to three callers, any order of requests, releases and waiting, a failing command or a cancellation at any point",
  "There is no test of this lock (it needs a redis server).",
  ["lock/redis/redis.go"], [("RedisLock.Lock / UnLock","lock/redis/redis.go")], ["returned locks and errors","keys and leases in the server"])
p("C29", "What commands report as saved is what is stored and delivered",
  "With the engine, the SQL executor, the database lock and the SQL event bus working together: a command that reports success has stored exactly its changes, read back equal by a later command; a command with any other outcome (an error, a break, a panic, a failing statement) leaves the storage as it was. Commands on one key guarded by the database lock never lose each other's updates. An event of a successful command is delivered, a transactional event is delivered exactly if the order it belongs to is stored, and nothing of a command that gave up is delivered.",
  ["inputs","schedules","fault_sequences"], "any sequence of commands and outcomes up to the bound, a failing statement at any point, any interleaving of two instances at statement granularity",
  "No test runs the parts together; each is sampled alone with fixed data.",
  ["engine.go","stage.go","executor/mysql/executor.go","lock/db/sql.go","eventbus/mysql/eventbus.go"],
  [("Engine.Run / Stage.run","engine.go"),("MySQLExecutor","executor/mysql/executor.go"),("EventBus.Dispatch / evalEvent","eventbus/mysql/eventbus.go")], ["command results","tables","handler calls"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
