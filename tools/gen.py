#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts are kept here once)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
def P(id, title, statement, over, quant, why, files, mech, tech, note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, state=state, observe=observe)

DIRECT = "Explicit-state model checking of the compiled repository code itself (no model): mcvm forks on every choice, restores memory, and prunes states seen before by a 128-bit hash of all mutable memory and stacks. "
CONC = DIRECT + "One transition is one access to shared memory, locked instruction or library call of the code compiled at -O0; sequentially consistent memory is assumed. "
PROPS = [
P("C01", "The ring buffer is an exact bounded queue",
  "Used from one thread, a buffer of capacity N behaves as a sequence of the N most recently pushed events that have not been removed: push appends and reports an overflow exactly when the oldest event had to be dropped, pull removes the oldest, pop the newest, both report an empty buffer without touching anything. Reading or writing an index, the length and the reported positions and timestamps always agree with that sequence; an invalid index is refused. This holds for every capacity, every data type, and at every position of the ring.",
  ["histories", "inputs", "configurations"], "every sequence of push, pull, pop, read, write, state, length, of pushes by writers and attachments of writers in between, every capacity, every ring position",
  "The tests push a handful of events into one buffer size; wrap-around, overflow and mixtures of pull and pop at each ring position are not visited.",
  [S + "circularbuffer.h", S + "writer.h", S + "event.h"], [("index arithmetic modulo N+1 and overflow handling", S + "circularbuffer.h: push, pull, pop, read, write, length"), ("writer push on the same ring", S + "writer.h: push, push_all")],
  "explicit-state enumeration of all operation sequences to the fixpoint", DIRECT + "For capacities 1..5 (thorough 1..8) the state space of all operation sequences is explored to its fixpoint, so the result holds for sequences of any length over two (three) event values; larger capacities and writers up to the stated depth. Out-of-range indexing and uninitialised reads are made visible by sanitizer traps and pattern initialisation."),
P("C02", "Assigning a buffer makes an independent snapshot",
  "After one buffer is assigned from another, the target holds exactly the events the source held, in order, and from then on operations on either of them do not affect the other. This holds for every type of event data, also when writers were attached to the source, when the source is destroyed afterwards, and for self-assignment.",
  ["histories"], "every sequence of operations and assignments on two buffers, before and after the assignment, with and without writers",
  "One test copies one buffer once and looks at the copy; nothing modifies either side afterwards.",
  [S + "circularbuffer.h"], [("operator= rebinds the copied page to the target's own state", S + "circularbuffer.h: operator=")],
  "explicit-state enumeration of all operation sequences on two buffers", DIRECT + "Capacities 1..3 to the fixpoint (thorough 4); with writers attached depth 7 (thorough 9)."),
P("C03", "Concurrent pushes are linearizable: none lost, duplicated, torn or misplaced",
  "When any number of writers push concurrently into one buffer, the final content, length and positions are those of some sequential order of the pushes that respects their real-time order: no event is lost (other than the oldest ones by overflow), none is duplicated, none is torn, and exactly as many pushes report an overflow as overflowed. A concurrent observer of the length or of the positions only ever sees a value that held at some moment during its call, never more than the capacity.",
  ["schedules"], "every interleaving of the writers' and the observer's accesses to shared memory",
  "The concurrent tests run free threads once and print; a lost push needs a suspension at one particular instruction.",
  [S + "writer.h", S + "circularbuffer.h", S + "atomic_compat.h"], [("double-word compare-and-swap of the page (state pointer and counter)", S + "writer.h: push, push_all"), ("two private states per writer, used alternately", S + "writer.h: fc, fc2"), ("snapshot reading of the page", S + "circularbuffer.h: state, length")],
  "exhaustive exploration of all interleavings of the real code", CONC + "All interleavings of 2 writers x 2 pushes, 3+1, 3+2 (3+3 and 4+2 in the thorough tier), 3 writers x 1; larger ones up to the preemption bound listed per configuration.",
  state=[dict(name="page", meaning="pointer to the state in force and its version", where=S + "circularbuffer.h"), dict(name="dt.bottom, dt.top", meaning="positions", where=S + "circularbuffer.h")]),
P("C04", "Concurrent pushes cannot livelock or deadlock",
  "Whatever the schedule, writers pushing concurrently never wait for each other in a cycle: as long as every writer is scheduled again and again every push completes, and in no reachable situation is every writer waiting. Writers may be destroyed while others go on pushing.",
  ["schedules"], "every reachable state of the concurrent writers and every infinite schedule (cycle) through them",
  "A test that hangs once in millions of runs passes; absence of cycles of waiting cannot be observed by running.",
  [S + "writer.h"], [("the waiting loop reloads the page", S + "writer.h: push"), ("retry of the compare-and-swap only after another push succeeded", S + "writer.h: push")],
  "state-graph construction, fair-cycle and deadlock detection on the real code", CONC + "The whole state graph of 2 writers (2 x 2, 2+1 ...) and of 3 writers x 1 push is built and searched for cycles in which every runnable writer takes part, deadlocks, and (solo configurations) states from which a writer running alone does not complete. The latter is a recorded finding: a suspended writer blocks the others."),
P("C05", "Push timestamps are true and agree with the order in the buffer",
  "An event pushed by a writer that takes the timestamp itself carries a time between the call and the return of its push, also when several writers push concurrently and the clock advances or stands still at any point, and the events in the buffer are ordered by non-decreasing time. A push that keeps the caller's timestamp stores exactly that.",
  ["schedules", "inputs"], "every interleaving of the writers and every way the clock can advance between two readings",
  "The tests do not compare timestamps under concurrency; an inversion needs a preemption between reading the clock and publishing.",
  [S + "writer.h", S + "time_compat.h"], [("the time is taken again at every attempt, before the compare-and-swap", S + "writer.h: push")],
  "exhaustive exploration of all interleavings and clock choices of the real code", CONC + "The clock is a choice point: at every reading it may or may not have advanced."),
P("C06", "A buffer outlives its writers",
  "A writer can be destroyed at any time relative to the pushes of the other writers; the events pushed through it stay in the buffer, the buffer's length and positions are unaffected, the other writers, new writers and readers go on working, and the destroyed writer's memory is not used any more.",
  ["schedules", "histories"], "every interleaving of pushes and destructions of the writers, whoever pushed last",
  "In the tests writers live as long as the buffer (or nobody looks afterwards); the dangling state is only used if the destroyed writer pushed last.",
  [S + "writer.h", S + "circularbuffer.h"], [("the destructor hands the state in force back to the buffer", S + "writer.h: ~RTML_writer")],
  "exhaustive exploration of all interleavings of pushes and destructions", CONC + "The destroyed writer's memory is overwritten at once, then the buffer is checked and used by new writers. A writer that is being destroyed is not used by its own thread any more."),
P("C07", "A reader delivers every event once, in order, and reports every loss",
  "A reader that synchronizes and pulls receives the events of the buffer, whose timestamps increase, in the order they were pushed, each at most once; if events were overwritten, or taken from the front by another consumer, before it received them, synchronizing or pulling reports a gap (or an overwritten buffer), and it never reports one when nothing was lost. Several readers of one buffer do not affect each other, and a reader never changes the buffer.",
  ["histories", "configurations"], "every sequence of pushes, synchronizations, reader pulls and pops and buffer removals, every capacity, one or two readers, every ring position",
  "The reader tests follow one script without overflow between synchronization and pull.",
  [S + "reader.h", S + "circularbuffer.h"], [("comparison of the remembered timestamp with the one found", S + "reader.h: pull, synchronize, gap"), ("window bottom/top of the reader", S + "reader.h")],
  "explicit-state enumeration of all operation sequences against a reference reader", DIRECT + "All sequences up to depth 11..13 (thorough 14..16) for capacities 1..4 (5), one or two readers, with buffer pushes or writer pushes."),
P("C08", "A reader running concurrently with writers never delivers a wrong event",
  "While writers push concurrently, every event a reader delivers as available is one that was pushed, untorn, newer than the one it delivered before; if it skipped one, a gap was reported. What it sees after all the pushes have completed is what a sequential reader would see.",
  ["schedules"], "every interleaving of the reader's and the writers' accesses to shared memory",
  "The tests run reader and writer once on free threads; half-written slots are visible for a few instructions only.",
  [S + "reader.h", S + "writer.h", S + "circularbuffer.h"], [("the timestamp is checked before and after the event is copied", S + "reader.h: pull"), ("synchronize reads positions and timestamps as one snapshot", S + "circularbuffer.h: state")],
  "exhaustive exploration of all interleavings of reader and writers", CONC + "One or two writers of up to 5 pushes (thorough 6), reader with fixed or free choice of operations; popping concurrently with a push is a recorded finding."),
P("C09", "Trace cursor navigation is exact on every window of every ring",
  "On a synchronized trace, moving the cursor to an instant selects the event in force at it (the last one not later) and says so exactly when that event and its successor exist in the window, from whatever position the cursor had before; stepping, reading the previous, current and next event, resetting and the length all agree with the window. No navigation leaves the window or reads outside the ring.",
  ["histories", "inputs", "configurations"], "every window, every cursor position, every ring position, every instant",
  "The tests set a few instants on one trace that starts at slot 0 of the ring.",
  [S + "rmtld3/reader.h"], [("set forward and backward, increment/decrement modulo the ring", S + "rmtld3/reader.h: set, read_next, read_previous, increment_cursor, decrement_cursor, length")],
  "exhaustive enumeration of windows, cursors and navigation sequences", DIRECT + "Capacities 1..6 (thorough 9), every start position, fill level, cursor and instant."),
P("C10", "Three-valued connectives are Kleene's in every context",
  "Negation, conjunction, disjunction, implication and comparison of three-valued verdicts, and the conversions between truth values, give the truth value of strong Kleene logic for every combination of arguments, however they are nested in an expression. A comparison of durations is unknown exactly when one of them is unknown; durations add and multiply as numbers and are unknown if an operand is.",
  ["inputs", "programs"], "all argument combinations and all two-level nestings",
  "The tests try a few rows of the tables and no nesting, where operator precedence shows.",
  [S + "rmtld3/rmtld3.h"], [("connectives and conversions", S + "rmtld3/rmtld3.h")],
  "exhaustive enumeration of arguments and nestings", DIRECT + "Complete for the truth tables and two levels of nesting; durations over boundary values."),
P("C11", "Future operators give the three-valued verdict of the logic",
  "For every finite trace and every instant in it, until, bounded and unbounded eventually, eventually at a point and always give exactly the verdict of the three-valued semantics over the events in the window: true or false only if the observed events decide it, unknown otherwise, the end of the interval being excluded.",
  ["inputs", "histories", "configurations"], "every trace (symbols, gaps, ring position, overwritten prefixes), every instant, several bounds",
  "The tests evaluate one long trace and a few formulas and compare with a value or just print.",
  [S + "rmtld3/formulas.h", S + "rmtld3/reader.h"], [("folding over the events with a symbol for undecided", S + "rmtld3/formulas.h: until_less, eventually_equal, eventually_less_unbounded, always_less, always_equal")],
  "bounded-exhaustive enumeration of traces against a reference semantics", DIRECT + "All traces of up to 6 events over 3 symbols and 2 gaps (thorough up to 8/9 events), every instant, at several ring positions, small and nanosecond timestamps; the reference is an independent evaluator on arrays."),
P("C12", "Past operators give the three-valued verdict of the logic",
  "For every finite trace and every instant in it, since, historically, eventually in the past at a point and historically at a point give exactly the verdict of the three-valued semantics over the events in the window, being unknown when the window's history does not reach back far enough to decide. The present instant is excluded.",
  ["inputs", "histories", "configurations"], "every trace (symbols, gaps, ring position, overwritten prefixes), every instant, several bounds",
  "The tests have one trace per operator; histories shorter than the bound and wraps of the ring are not tried.",
  [S + "rmtld3/formulas.h", S + "rmtld3/reader.h"], [("folding backwards over the events", S + "rmtld3/formulas.h: since_less, pasteventually_equal, historically_less, historically_equal")],
  "bounded-exhaustive enumeration of traces against a reference semantics", DIRECT + "As C11."),
P("C13", "The duration term is the exact integral",
  "The duration of a formula over a window is the exact total time for which it is true between the window's two ends, counting partial intervals at both ends, from whatever earlier event the evaluation starts; it is unknown exactly when the trace does not reach beyond the window or the formula is unknown somewhere in it.",
  ["inputs", "histories", "configurations"], "every trace, every window, every starting event",
  "The tests check a couple of sums; windows inside one interval or aligned with events are not tried.",
  [S + "rmtld3/terms.h"], [("accumulation over the intervals between events", S + "rmtld3/terms.h: duration_term")],
  "bounded-exhaustive enumeration of traces against a reference integral", DIRECT + "As C11, with windows of several widths and every starting event before the instant."),
P("C14", "A definitive verdict is never revised",
  "Once a formula is true or false at an instant on a trace, it never becomes the opposite when further events arrive, be it that earlier events are overwritten meanwhile; an unknown verdict may become definitive. (A verdict whose history has been overwritten may at most become unknown.)",
  ["histories", "inputs"], "every trace and every extension of it, every instant, all operators and nestings",
  "The tests evaluate each trace once, never again after more events.",
  [S + "rmtld3/formulas.h", S + "rmtld3/terms.h"], [("conclusion only when the trace reaches the end of the interval", S + "rmtld3/formulas.h")],
  "bounded-exhaustive enumeration of traces and their extensions", DIRECT + "Every formula is evaluated after every event at every instant; the first definitive verdict is remembered. In-between checking of until is a recorded finding."),
P("C15", "Evaluation has no side effects and does not depend on placement",
  "Evaluating a formula or a duration leaves buffer, window, cursor and the instant it was given as they were, gives the same result when repeated, in debug builds too, and the result depends only on the events and the instant, not on where they lie in the ring.",
  ["histories", "configurations", "inputs"], "every formula, trace, ring position and instant",
  "The tests evaluate every formula once at one ring position.",
  [S + "rmtld3/formulas.h", S + "rmtld3/terms.h", S + "rmtld3/reader.h"], [("saving and restoring the cursor around subformulas", S + "rmtld3/formulas.h")],
  "bounded-exhaustive enumeration of traces at every ring position", DIRECT + "Memory of the buffer is compared byte for byte, cursor and instant are compared after every evaluation."),
P("C16", "The lifecycle of a monitor is right in every schedule",
  "A monitor runs only after it has been enabled, never two runs at once, and keeps running until it is disabled; at most one more run begins after disable returned, and only if it was due by then or the scheduler held the thread up; joining a disabled monitor always returns and nothing runs afterwards. Whether it says it is running agrees with that, whatever the timing of enable, disable and start-up, spurious wake-ups and late scheduling, also when operations are repeated or come from several threads. A monitor whose thread the system refuses to create says so when it is enabled, never runs, and joining it returns.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of the controlling threads and the task, every sequence of lifecycle operations, every spurious wake-up",
  "The tests enable a monitor and sleep; start-up races, disable before the start and spurious wake-ups do not occur.",
  [S + "task_compat.h", S + "periodicmonitor.h"], [("status word with ACTIVATE/RUNNING/ABORT/ABORTED and compare-and-swap", S + "task_compat.h: task"), ("enable/disable/isRunning/join", S + "periodicmonitor.h")],
  "exhaustive exploration of all interleavings of the real task code under a virtual clock", CONC + "Threads, mutexes, condition variables, sleeping and the clock are those of the explorer; all interleavings of up to 5 (thorough 7) lifecycle operations."),
P("C17", "Periodic runs keep their times without drift",
  "The n-th run of a monitor starts n periods after it was started, however long earlier runs took: there is no accumulated drift, a run that comes late is made up for and none is skipped, and no run starts before its time, also with spurious wake-ups. A new period takes effect from the next computed start on; every period from 1 us to the largest representable one works.",
  ["schedules", "inputs", "fault_sequences"], "every choice of run durations, period changes at every point, spurious wake-ups, late scheduling",
  "The tests check that a monitor runs at all; drift or a skipped run after an overrun is not measured.",
  [S + "task_compat.h", S + "time_compat.h"], [("absolute deadlines: next = next + period", S + "task_compat.h: task"), ("conversion of the period and addition of timespecs", S + "time_compat.h")],
  "exhaustive exploration of run times, period changes and wake-ups under a virtual clock", CONC + "Run times from a set of 4 (0 to 2.3 periods), change of the period at up to 7 (9) instants or in any run."),
P("C18", "The verdict of a running monitor is right for the events pushed",
  "A monitor that synchronizes and evaluates a formula while writers push concurrently, and does not report a gap, gives a definitive verdict only if it is the one of the logic on the events pushed up to some moment between the beginning and the end of its synchronization. The same holds for the whole chain of writer, periodic task, reader and formula.",
  ["schedules", "histories"], "every interleaving of writers and monitor, every choice of events and formula",
  "Only whole-program runs of generated monitors could show it, and they see one schedule.",
  [S + "rmtld3/reader.h", S + "reader.h", S + "writer.h", S + "rmtld3/formulas.h", S + "periodicmonitor.h"], [("gap detection around the evaluation", S + "reader.h: gap"), ("snapshot of the window in synchronize", S + "reader.h: synchronize")],
  "exhaustive exploration of all interleavings of the full chain against a reference semantics", CONC + "Ten formulas, up to 3 concurrent pushes with free symbols, ring wrap and overwriting."),
P("C19", "Order and equality of events are consistent",
  "Events are ordered by time alone; two events are equal exactly if their time and their data are; inequality is the negation of equality, and each of the other comparisons agrees with the order of the times. An event gives back exactly the data and time it was given, by construction, assignment or setters.",
  ["inputs"], "all pairs of events over boundary values of every data type",
  "The tests compare two or three events.",
  [S + "event.h"], [("comparison operators and setters", S + "event.h")],
  "exhaustive enumeration of pairs over boundary values", DIRECT + "All pairs and triples over boundary times and data for six data types."),
P("C20", "Time conversion and arithmetic are exact",
  "Adding, subtracting, comparing and converting times gives the mathematically exact, normalised result for all normalised inputs in range, and the current time is the system clock in nanoseconds, also beyond 32 bits.",
  ["inputs"], "all pairs of boundary times and periods, all clock values",
  "Tests use these macros implicitly with small values; carries and borrows at the nanosecond boundary are not covered.",
  [S + "time_compat.h"], [("timespecadd, timespecsub, timespeccmp, useconds_t2timespec, clockgettime", S + "time_compat.h")],
  "exhaustive enumeration of pairs over boundary values", DIRECT + "All pairs of boundary seconds and nanoseconds against 128-bit arithmetic."),
P("C21", "Every supported target behaves as the x86 one",
  "Built for the hardware-synthesis, RISC-V and ARM targets, buffers, readers, cursors and operators satisfy the same sequential properties as on x86-64, and on the targets with threads concurrent pushes, readers, tasks and periods satisfy the same concurrent ones.",
  ["configurations", "schedules", "histories"], "every operation sequence, trace and interleaving, for each target's branch of the sources",
  "The tests are built for x86-64 only.",
  [S + "atomic_compat.h", S + "circularbuffer.h", S + "writer.h", S + "time_compat.h", S + "task_compat.h", S + "reader.h"], [("conditional compilation per target: page without a counter, tick-based time", S + "atomic_compat.h, " + S + "time_compat.h"), ("fall-backs without threads", S + "writer.h")],
  "the explorations of the other properties on each target's branch of the sources", CONC + "The target's preprocessor branch is compiled for the host with stand-ins for the vendor headers; compilers and instruction sets of the targets are not modelled. Loss of pushes without a version counter (ABA) is a recorded finding."),
P("C22", "Nested formulas compose",
  "A formula built from operators nested in each other gives the verdict that the three-valued semantics assigns to the composition, at every event and instant; checking instants in between events never invents a witness, and without one the verdict is that of the events.",
  ["inputs", "programs", "histories"], "a set of nested formulas (future in past, past in future, durations, negations), every trace, every instant",
  "Nested formulas are evaluated on one trace each in the tests.",
  [S + "rmtld3/formulas.h", S + "rmtld3/terms.h"], [("cursor save and restore around subformulas", S + "rmtld3/formulas.h"), ("in-between loop of until_less", S + "rmtld3/formulas.h")],
  "bounded-exhaustive enumeration of traces against a reference semantics", DIRECT + "As C11, with nested formulas."),
P("C23", "A monitor's thread gets the scheduling policy and priority asked for",
  "The thread that runs a monitor has the scheduling policy and priority the monitor was constructed with (the target's default policy and priority for a monitor constructed with a period only), whatever those of the thread that constructed it are; on a system where new threads inherit the creator's unless told otherwise this holds too.",
  ["inputs", "configurations"], "every policy with every priority of the system, monitors constructed by ordinary threads and by other monitors",
  "The tests never ask which policy a monitor's thread runs under.",
  [S + "task_compat.h", S + "periodicmonitor.h"], [("thread attributes", S + "task_compat.h: create_task")],
  "enumeration of all policies and priorities through the monitor class under the controlled scheduler", CONC + "All policies and priorities for a monitor constructed by an ordinary thread, with another monitor (boundary priorities) constructed by the first one's thread; on systems where new threads inherit by default (a recorded finding: Linux) and where they do not."),
]

def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            if p["state"]: a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
    json.dump(dict(version=1, setup_cmd="python3 run.py --setup",
                   checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                                technique="model checking: " + p["tech"], level="model_checking", level_note=p["note"]) for p in PROPS],
                   not_applicable=[], notes="No hooks in /repo: the explorer instruments at compile time (-fsanitize=thread callbacks) and replaces library calls at link time."),
              open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)

main()
