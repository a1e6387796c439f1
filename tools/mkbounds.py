# writes harness/bounds.json: the bounds of every harness, quoted in the evidence
import json, os
SZ = "1, 3, 12, 33, 70 or 140 elements (thorough: also 2, 21, 101, 257, 520, 1030)"
SQ = "1, 12, 33, 70 or 130 elements (thorough: also 2, 21, 51, 101, 257)"
SB = "1, 12, 33 or 70 elements (thorough: more)"
AGG = "2 roots, their child fields, at most one new entity more (thorough: two)"
B = {
"C01.body": "3 steps of 7 kinds (thorough 4), 5 endings, one failing call among the first 16, with or without cancellation",
"C01.events": "up to 2 events, ordinary or transactional bus, one failing call among the first 16",
"C01.off": "as C01.body, with transactions off",
"C01.two": "as C01.body with fewer steps and two failing calls among the first 12",
"C01.forms": "all nine forms of commands, each stage ending in any way, one failing call among the first 10",
"C02.locks": "up to 3 keys (thorough 4) of 5 names, one failing call among the first 12, cancelled caller",
"C02.errors": "up to 2 keys, refusals with any of 4 causes, 3 kinds of tokens, failure causes of the engine's own errors",
"C02.dblock": "1-2 keys over the real database lock, one failing statement, other holders",
"C02.names": "key strings of a fixed list of awkward names",
"C02.sizes": "1 to 140 keys (thorough 1030), failures at the ends and in the middle",
"C03.fields": "one root, any combination of edits of every child field",
"C03.depth": "three levels of entities, each kept, changed, removed or moved",
"C03.moves": "2 roots, 2-3 loaded children, 1 new (thorough 2), each at any of 4 places or gone",
"C03.kinds": "all six kinds of child fields and a list of the entity's own, each child in any of them",
"C03.loads": "4 steps (thorough 5) of loading, changing, removing, saving two roots",
"C03.own": "an entity whose GetChildren answers nil, nothing, or lists (5 answers), one child in the field and one in the list, each before/after/changed; new, kept or removed, recursive delete on and off",
    "C03.sizes": SZ + ", in six patterns of changes",
"C04.moves": "as C03.moves", "C04.depth": "as C03.depth", "C04.kinds": "as C03.kinds",
"C04.double": "one loaded or new entity at two places",
"C05.kinds": "as C03.kinds, recursive delete on and off", "C05.depth": "as C03.depth, recursive delete on and off",
"C05.fields": "as C03.fields, recursive delete on and off", "C05.moves": "as C03.moves, recursive delete on and off",
"C05.sizes": SZ + ", recursive delete on",
"C06.kids": "2 saves (thorough 3) before the final one, a few children, values -1000..1000",
"C06.deep": "as C06.kids with three levels", "C06.sizes": SZ + ", saved twice",
"C07.ids": AGG + "; own ids, failing id generator at call 0..6",
"C07.order": "3 new elements of a list below a loaded or a new root, or 3 new roots; every map order",
"C07.pairs": "up to 3 updated entities of two kinds, values -1000..1000", "C07.sizes": SZ,
"C08.kids": AGG + "; one failing call among the first 14", "C08.deep": "three levels, one failing call among the first 14",
"C08.unknown": "entities of a type the executor does not know", "C08.sizes": SZ,
"C09.order": "up to 2 events (thorough 3) at 8 entities, any nanosecond of a second, removals before or after an intermediate save",
"C09.many": "up to 4 events (thorough 5)", "C09.nobus": "an event of three kinds at a root, a child or a removed root, or none; with or without transaction and dry run",
"C09.failures": "one event (thorough 2), one failing call among the first 18 of any cause",
"C09.twins": "2 or 3 events of the same content at 4 entities (live, new, removed), one object or several, three ways of sending",
    "C09.raised": "2 events (thorough 3) of 3 kinds of content raised at 2 entities, one object raised again and changed afterwards",
"C09.still": "up to 2 events (thorough 4) at entities nothing is written for, beside little or much that is written, also with a cancelled caller",
"C09.sizes": SZ + " of events",
"C10.outcome": "up to 3 events (thorough 4) of 3 kinds, two failing calls among the first 12, cancelled caller",
"C11.dry": "2 steps (thorough 3) of 7 kinds, one failing call among the first 8", "C11.sizes": SZ + " of entities, up to 3 events",
"C12.hooks": "up to 4 engine hooks, 2 run hooks, a nested run, one failing call among the first 9",
"C12.forms": "all nine forms of commands, each stage ending in any way, one failing call among the first 10",
"C12.roots": "3 roots (thorough 4), each kept, changed or removed while they are gone through, one added at any point; a command or a function",
    "C12.misuse": "3 calls (thorough 4) of 6 kinds on 2 entities, more than one of them senseless, repository and container",
"C12.options": "2 options (thorough 3) of 10, each given to the engine, to the run or to both; normal and transaction events; the run and a plain one after it",
"C12.leaks": "two runs of one engine after each other, with options",
"C13.load": "10 forms of children arguments, up to 3 stored children, one failing call among the first 9 of any cause",
"C13.sizes": SZ,
"C14.opaque": "times at any nanosecond of 2000 seconds in three zones, in 6 kinds of fields; structs with unexported parts (slices, pointers, maps) of 7 values, in 2 kinds of fields; the other fields empty or filled",
    "C14.sizes": "slices, maps and strings of 1..65 (thorough 257) elements that differ in any one element, at their ends, or in the order of two",
    "C14.fields": "every field of a model with 30-odd fields of every supported kind, two at a time (thorough: every pair), on empty and filled models; integers -1000..1000 or the whole of int8, strings of a list, slices and maps up to 3 elements",
"C15.actions": "tables of 2 and 3 rows, sequences of 2 actions (thorough 3) of 6 kinds over up to 3 models, then any of 5 queries; integers -100..100",
"C15.apart": "two executors, two transactions", "C15.faults": "one failing statement among the first 9 of a transaction",
"C15.converters": "two entity types, either form of registration, any operation, with or without parent, refusing or not",
"C15.refused": "any operation code -128..127", "C15.sizes": SQ + " of models", "C15.wide": "1, 4, 6 or 11 (thorough: any 1 to 11) neighbouring columns of a row, to zero or other values",
"C15.update": "2 changed fields (thorough: every pair) of a model with 13 columns, four modes of use; integers -100..100",
"C16.handlers": "up to 3 handlers (raw or typed) for 2 types, 3 payloads, failures", "C16.checkers": "6 kinds of checkers, 5 payloads, any answer",
"C16.signatures": "18 signatures of handlers, 17 of checkers, 9 of constructs",
"C16.inner": "5 things a handler does while it runs (handle another event, also inside a command, register, ask the checker), direct or as a command",
    "C16.commands": "5 forms of constructs, 5 payloads, 3 endings",
"C17.dispatch": "up to 2 events (thorough 3), up to 2 other services, one failing statement among the first 8", "C17.sizes": SB + " of events",
"C18.due": "3 records (thorough 4) of any status, due time and age around the limits, batch limits 1..3",
"C18.outcome": "2 records (thorough 3), any outcome, any answer of the retry strategy, 1-2 workers (thorough 3)",
"C18.orphan": "3 records (thorough 4), the event of one is gone", "C18.message": "messages around the column's size, 6 kinds",
"C18.errors": "a failure wrapping any of the library's errors", "C18.faults": "one failing statement in the first poll", "C18.sizes": SB + " of records",
"C19.order": "3 events (thorough 4), the last one of interest; types, senders, statuses of the others free, creation times within 4 seconds, one perhaps older than a day", "C19.polls": "polls until quiet over 2-3 ordered events whose handler fails in any pattern, 1-2 workers",
"C19.workers": "as C19.order with 2 workers",
"C20.bus": "deliveries until the strategy gives up, up to 4 retries", "C20.chain": "strategies asked along their own answers",
"C20.custom": "lists of up to 4 intervals (thorough more), any count up to 2^31", "C20.limit": "any limit -3..2^31, count up to 2^31, failure time to the nanosecond, five intervals",
"C21.decide": "1-2 events, one failing statement among the first 12, two timeouts", "C21.poll": "2 transactions (thorough 3), due -400000..70 s around the poll, any answers, two polls",
"C21.faults": "2 transactions (thorough 3), one failing statement in the first poll", "C21.nothing": "the empty cases", "C21.raised": "2 transactions (thorough 3), 0-2 panicking check-backs each, then any answer, three polls", "C21.sizes": SB + " of transactions or events",
"C22.which": "2 events (thorough 3) with records of up to 5 services of any status, age up to 100 h, three retention times",
"C22.number": "0 to 31 records (thorough 63)", "C22.faults": "12 records, one failing statement among the first 20", "C22.default": "three days of the default schedule",
"C23.poll": "2 instances (thorough 3), one event, 3 preemptions (thorough 2) at statements", "C23.poll2": "2 instances, 2 events, 2 preemptions (thorough 3)",
"C23.fifo": "2 instances, 2 ordered events, 2 preemptions (thorough 3)", "C23.lost": "2 instances, 2 events (thorough 3), one instance dead from any statement on",
"C23.again": "2 instances, one event due again at once after a failure, 2 preemptions (thorough 3)",
    "C23.checks": "2 instances, 2 transactions (thorough 3), 2 preemptions (thorough 3)",
"C24.state": "one row of any age -10..8000 s, to the second, and to the nanosecond around the time-to-live", "C24.sequence": "4 steps (thorough 5) of 2 callers on 2 keys",
"C24.retry": "a holder that leaves at any of the retries", "C24.faults": "one failing statement of each operation", "C24.race": "2 callers, preemption at every statement (bounded)",
"C24.renew": "a renewal against a take-over, preemption at every statement (bounded)",
"C25.life": "runs of up to 2 intervals (thorough 3) in half steps, every end, one failing renewal, caller cancelled at any half step",
"C25.long": "12, 40 or 130 (thorough 700) renewal intervals", "C25.refused": "a held lock, a failing statement, a cancelled caller", "C25.exclusive": "2 runs, start and length in seconds, 2 preemptions",
"C26.due": "2 jobs (thorough 3) of any status, service and kind, due up to 30 s before or after the poll", "C26.kinds": "one job of every kind and cron expression, polls at several clock times",
"C26.early": "a callback registered late", "C26.handler": "up to 2 handlers, 4 kinds of data, 3 keys", "C26.none": "no callback", "C26.engine": "the engine's own timer handler", "C26.faults": "2 jobs (thorough 3), one failing statement in the first poll",
"C26.instances": "2 instances, 2 jobs, 2 preemptions (thorough 3) at statements", "C26.register": "3 steps (thorough 4) of registering, replacing, cancelling and polling over 2 keys and 2 services", "C26.sizes": "1 to 130 jobs in one poll", "C26.together": "2 instances registering one key",
"C27.life": "5 to 6 steps of starting, dispatching (3 events, thorough 4, by 2 callers), stepping and cancelling, capacity 0..2, handlers ending in any way", "C27.sizes": "1 to 300 events, 1, 2 or 40 callers, capacity 0 to 1000",
"C28.sequence": "4 steps (thorough 5) of 2 clients on 2 keys", "C28.contend": "3 overlapping callers, starts and lengths around the time-to-live", "C28.wait": "a holder leaving after 0.05 to 4.05 s",
"C28.lease": "any remaining lease up to 6 s", "C28.release": "any remaining lease from -1 ms to 10 s", "C28.faults": "one failing request, a cancelled caller, a caller's deadline",
"C29.commands": "2 commands of one step of 9 kinds with intermediate saves over one database, one failing statement among the first 9, any ending", "C29.locked": "2 commands on one key at the same time, 2 preemptions",
"C29.events": "commands with events over both buses until delivered, one failing statement",
}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "bounds.json")
with open(p, "w") as f:
    json.dump(B, f, indent=1)
    f.write("\n")
