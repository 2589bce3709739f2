#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source; the .jsonl is committed next to it."""
import json, os
P=[]
I="sdk/include/teiacare/sdk/"; S="sdk/src/"
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})

# ---------------------------------------------------------------- concurrency utilities
p("C01","Blocking queue delivers every item exactly once, in order, within capacity",
 "Every item whose push was accepted is handed out by exactly one pop, items of one producer come out in the order that producer put them in, and nothing is handed out that was not put in. At no instant does the queue hold more items than its capacity. Concurrent use never causes a data race or an invalid memory access.",
 ["schedules","inputs"],"All interleavings of producers and consumers using blocking and non-blocking operations, all capacities and item values.",
 "The tests run a few real threads once; the interesting interleavings (between testing for space and storing, between unlocking and notifying) are never forced.",
 [I+"blocking_queue.hpp"],[("mutex around every queue access",I+"blocking_queue.hpp"),("full/empty predicate re-tested on wake",I+"blocking_queue.hpp")],["values returned by pop/try_pop","size()"])
p("C02","Blocking queue never leaves an operation blocked that could proceed",
 "A thread blocked in a push completes as soon as there is room for its item, and a thread blocked in a pop completes as soon as there is an item for it. No order of arrival of producers and consumers, however many wait at once, loses a wake-up.",
 ["schedules"],"All interleavings of several blocked producers and/or consumers, with capacities 1 and above, including spurious wake-ups.",
 "A lost wake-up needs two waiters and one particular interleaving of unlock and notify; a passing test run only shows that run did not hang.",
 [I+"blocking_queue.hpp"],[("notify_all on the empty-to-one and full-to-one-below transitions",I+"blocking_queue.hpp")],["completion of push/pop"])
p("C03","Blocking queue behaves as a bounded FIFO in every sequential history",
 "In every sequence of operations the queue behaves as a first-in first-out list bounded by its capacity: a non-blocking push fails and changes nothing exactly when the queue is full, a non-blocking pop yields nothing exactly when it is empty, and the reported size and capacity are exact. A requested capacity of zero is treated as one.",
 ["histories","inputs"],"All sequences of push/pop/try_push/try_pop/size up to a bound, all item values, all capacities.",
 "The tests fix a handful of sequences; the guarantee is about every sequence and every capacity.",
 [I+"blocking_queue.hpp"],[("is_full/is_empty tests",I+"blocking_queue.hpp")],["return values","size()","capacity()"])
p("C04","Observable notifies exactly on real changes, with the new value",
 "Assigning a value equal to the current one triggers no notification and leaves the value as it is; assigning a different one stores it and, if notifications are enabled at that moment, notifies exactly once with the new value. Reading always yields the last value assigned, and disabling or enabling notifications never loses or replays a change.",
 ["histories","inputs"],"All sequences of assignments (copying and moving), reads and enable/disable operations up to a bound, all values.",
 "Tests check a few constants; the change-detection must be right for every pair of values and every order of toggles.",
 [I+"observable.hpp"],[("equality test before store and call",I+"observable.hpp")],["callback invocations","value()"])
p("C05","Observable under concurrent writers: notifications match the change order",
 "With several threads assigning, reading and toggling notifications, the notified values are exactly the successive distinct values the observable took while notifications were on, one notification per change, and after all writers finish the last change notified is the value stored. Readers only ever see values that were assigned, and no data race occurs.",
 ["schedules","inputs"],"All interleavings of concurrent assignments, reads and toggles, all values.",
 "The tests exercise the observable from one thread or without controlling the interleaving.",
 [I+"observable.hpp"],[("mutex held across compare, store and call",I+"observable.hpp")],["callback invocations","value()"])
p("C06","Thread pool runs each submitted task exactly once and delivers its outcome",
 "A callable submitted to a running pool runs exactly once, on a pool thread, with the arguments given at submission, and its future yields its return value or the exception it threw. A throwing task affects neither the pool nor other tasks. A single-thread pool runs tasks in submission order.",
 ["schedules","inputs"],"All interleavings of submitters and workers, all argument values, pools of one and more threads, tasks that return or throw.",
 "Tests run on the scheduler's favourite interleavings; double or lost execution needs a specific one.",
 [I+"thread_pool.hpp",S+"thread_pool.cpp",I+"task.hpp"],[("task queue guarded by a mutex, popped under it",S+"thread_pool.cpp"),("packaged task and future",I+"thread_pool.hpp")],["future results","side effects of tasks"])
p("C07","Thread pool lifecycle is safe and prompt from any state",
 "Starting a stopped pool succeeds and starting a running one is refused; stopping mirrors this; between them the reported state and thread count agree, the count being the requested one limited to between one and the hardware's. Stopping returns in every interleaving, after it no task runs and queued tasks are dropped with their futures reporting a broken promise, and the pool can be started again.",
 ["schedules","histories","configurations"],"All start/stop/submit histories up to a bound, all interleavings with workers and concurrent callers, all thread counts and hardware thread counts including unknown (0).",
 "Shutdown races need a worker between its check and its wait; the tests do not control that.",
 [I+"thread_pool.hpp",S+"thread_pool.cpp"],[("running flag plus locked queue clear before notify",S+"thread_pool.cpp"),("latch on start",S+"thread_pool.cpp")],["start/stop results","threads_count","is_running","futures"])
p("C08","Task wrapper owns its callable and runs it faithfully",
 "A task built from any callable keeps its own copy for as long as it lives, whatever happens to the original, invokes it once per invocation with its state preserved between invocations, and destroys it exactly once. Moving a task transfers the callable without copying or losing it.",
 ["inputs","histories"],"All captured values, callables given as temporaries or named objects, all orders of move/invoke/destroy up to a bound.",
 "Dangling references survive in tests because the original object is still on the stack.",
 [I+"task.hpp"],[("type-erased callable held by unique ownership",I+"task.hpp")],["calls and destructions of the callable"])
p("C09","Scheduler runs a one-shot task exactly once and never early",
 "An enabled task scheduled for an instant or after a delay starts no earlier than that instant and exactly once if the scheduler keeps running and time passes, however late the scheduler is woken; its future yields its result. Tasks that become due in the same or a different order than they were added are each run.",
 ["schedules","inputs","histories"],"All due times and delays (past, present, future), all wake-up latencies, all interleavings of adding tasks with the scheduling thread.",
 "Tests use real time with tolerances and cannot place an addition between the scheduler's decision and its wait.",
 [I+"task_scheduler.hpp",S+"task_scheduler.cpp"],[("tasks ordered by due time",S+"task_scheduler.cpp"),("timed wait re-evaluated on notification",S+"task_scheduler.cpp")],["start times of tasks","futures"])
p("C10","Scheduler's recurring tasks stay on their time grid",
 "A recurring task with a positive interval runs only at or after multiples of its interval counted from its first due time, at most once per multiple, and when the scheduler is late the missed multiples are skipped without shifting the grid. While disabled it does not run but keeps its place on the grid, and after its interval is changed the new interval applies from its previous due time on, once it has run.",
 ["schedules","inputs","histories"],"All intervals and wake-up latencies, all points in time at which the task is disabled, enabled, re-timed or removed.",
 "Drift and double firing appear only for particular latencies that real-time tests with tolerances cannot select.",
 [I+"task_scheduler.hpp",S+"task_scheduler.cpp"],[("next due time computed from previous due time",S+"task_scheduler.cpp")],["start times of tasks","get_interval()"])
p("C11","Scheduler's task registry answers exactly for the tasks it holds",
 "A task identifier is held by at most one pending task: adding a second one is refused without any effect, and adding is refused when the scheduler is not running. Whether an identifier is scheduled, enabled, recurring and with what interval is answered according to the operations performed so far, each modifying operation succeeds exactly when the identifier is pending (and recurring, for the interval), affects only that task, and a removed task never runs again apart from an execution already handed to the thread pool.",
 ["histories","inputs"],"All histories of add/remove/enable/disable/update/query operations up to a bound over several identifiers and untagged tasks.",
 "Tests check one identifier at a time; cross-talk between tasks needs several in specific orders.",
 [I+"task_scheduler.hpp",S+"task_scheduler.cpp"],[("identifier lookup over pending tasks",S+"task_scheduler.cpp")],["return values of registry operations","task executions"])
p("C12","Scheduler shutdown always completes promptly and discards pending tasks",
 "Stopping a running scheduler returns in every interleaving without waiting for any pending task's due time, and afterwards no task runs, nothing is pending, and it can be started again with no memory of earlier tasks. Starting a running scheduler or stopping a stopped one is refused without effect.",
 ["schedules","histories"],"All interleavings of stop with the scheduling thread, with task addition and with workers; all pending due times.",
 "A lost stop notification only shows when the stop lands between the scheduler's check and its timed wait; tests then would just take longer.",
 [I+"task_scheduler.hpp",S+"task_scheduler.cpp"],[("stop flag, notification and join",S+"task_scheduler.cpp")],["return of stop()","virtual time at which stop returns","task executions"])
p("C13","Event dispatcher calls exactly the matching handlers, once, with their values",
 "Emitting an event runs, once each and with exactly the emitted values, every handler registered under that name for those argument types (in that order), and no other handler. The emission reports whether any such handler was registered. Handlers registered for the same name with different argument types or for other names are never called.",
 ["inputs","histories"],"All emitted values, several argument-type lists that are permutations or prefixes of one another, several event names including names that are prefixes of others, all registration orders up to a bound.",
 "Tests use disjoint names and signatures; confusion needs related names or permuted types.",
 [I+"event_dispatcher.hpp",S+"event_dispatcher.cpp"],[("handlers keyed by event name and argument types",I+"event_dispatcher.hpp")],["handler invocations","emit result"])
p("C14","Event dispatcher registrations are identified and removed exactly",
 "Each registration gets an identifier different from those of all other live registrations of that dispatcher, removal by identifier removes that registration alone and reports whether it existed, and removal by event name removes exactly the registrations under that name, for all argument types, and reports whether there were any. Dispatchers are independent of one another, whatever the order in which they are created, used and destroyed.",
 ["histories","inputs"],"All histories of add/remove/emit over one and two dispatchers up to a bound, names that are prefixes of one another, empty names.",
 "Tests use one dispatcher and unrelated names.",
 [I+"event_dispatcher.hpp",S+"event_dispatcher.cpp"],[("identifier counter",S+"event_dispatcher.cpp"),("erase by id / by name",S+"event_dispatcher.cpp")],["identifiers","removal results","handler invocations"])
p("C15","Event dispatcher is safe under concurrent registration, emission and shutdown",
 "Registering, removing, emitting and stopping from several threads at once causes no data race, invalid access or deadlock. An emission concurrent with a removal calls each handler at most once, a handler registered before the emission and not removed is called, and after stopping returns no handler runs.",
 ["schedules"],"All interleavings of concurrent add/remove/emit/stop with the worker threads.",
 "The tests emit and register from one thread.",
 [I+"event_dispatcher.hpp",S+"event_dispatcher.cpp"],[("handler table mutex",I+"event_dispatcher.hpp"),("handlers kept alive by shared ownership during delivery",I+"event_dispatcher.hpp")],["handler invocations","completion of calls"])
p("C16","High precision timer never fires early and accounts for every tick",
 "For positive intervals, the timer's callback never runs before its tick, ticks being the start time plus multiples of the interval, and runs at most once per tick. However late it runs, each tick whose time has passed is counted either as invoked or as missed, exactly once, so that the two counters always add up to the number of ticks passed at the last accounting.",
 ["schedules","inputs"],"All intervals, wake-up latencies and callback durations, including being late by exactly a multiple of the interval.",
 "Tests use real time with tolerances; exact-multiple lateness and long overruns are not selectable.",
 [I+"high_precision_timer.hpp",S+"high_precision_timer.cpp"],[("next tick computed from previous tick",S+"high_precision_timer.cpp"),("missed-tick counting loop",S+"high_precision_timer.cpp")],["callback times","invoked/missed counters"])
p("C17","High precision timer starts and stops reliably",
 "For positive intervals, starting without a callback is refused; starting resets the counters and replaces any running schedule; stopping returns in every interleaving, is harmless when not running, and no callback runs after it returned. After stopping, the timer can be started again.",
 ["schedules","histories"],"All start/stop/destroy histories up to a bound and all interleavings with the worker thread.",
 "A stop that lands before the worker begins to wait, or before it marks itself running, is not controllable in the tests.",
 [I+"high_precision_timer.hpp",S+"high_precision_timer.cpp"],[("running flag under the worker mutex",S+"high_precision_timer.cpp"),("start waits for the worker",S+"high_precision_timer.cpp")],["return of stop()","callback invocations"])
p("C18","Rate limiter never lets callers run ahead of the configured rate",
 "The k-th synchronisation never returns earlier than k periods after construction (to within one clock tick per call), and a call made when that instant has already passed returns without sleeping. Delays of the caller do not shift later deadlines, so the long-run rate is met.",
 ["inputs","histories"],"All rates in range, all caller delays and sleep overshoots, a bounded number of calls.",
 "The tests measure one or two real rates with tolerance.",
 [I+"rate_limiter.hpp",S+"rate_limiter.cpp"],[("deadline advanced by one period per call, sleep until deadline",S+"rate_limiter.cpp")],["times at which sync returns"])
p("C19","Stopwatch reports exactly the time since construction or last reset",
 "The elapsed time is the difference between the clock's current reading and its reading at construction or last reset, never negative, and non-decreasing between resets. Reading it in a coarser unit truncates, and reading never disturbs the measurement.",
 ["inputs","histories"],"All non-decreasing clock readings, all sequences of reads and resets up to a bound, all provided units.",
 "Tests sleep for fixed times and compare with tolerances.",
 [I+"stopwatch.hpp",I+"clock.hpp"],[("difference to stored start",I+"stopwatch.hpp")],["elapsed()","start_time()"])
p("C20","Service locator maps each interface to its one registered service",
 "For each interface at most one service is registered: the first registration wins until it is removed, later ones are refused without effect, and results of registering, removing and querying say exactly what happened. A lookup yields the very service registered for that interface, usable through it for any class hierarchy, and nothing when none is registered. A service obtained stays alive while held, even after it is unregistered.",
 ["histories","inputs"],"All histories of register/unregister/lookup over several interfaces up to a bound, implementations with single and multiple inheritance, all constructor arguments.",
 "Tests use single inheritance and fixed orders.",
 [I+"service_locator.hpp",S+"service_locator.cpp"],[("map from interface type to shared owner",I+"service_locator.hpp")],["get()","register/unregister results"])
p("C21","Signals reach the installed callback and release the waiter",
 "After installation, an interrupt, abort or terminate signal invokes the installed callback exactly once with that signal's name and number and then lets a thread waiting for quit continue; a programmatic quit does the same with the given message and number, and works when no callback is installed. A waiter never continues before a quit, and a quit that precedes the wait is not lost.",
 ["schedules","inputs"],"All signal numbers, all messages, all orders of quit and wait.",
 "The tests raise one signal in one order.",
 [I+"signal_handler.hpp",S+"signal_handler.cpp"],[("signal name switch",S+"signal_handler.cpp"),("binary semaphore",S+"signal_handler.cpp")],["callback arguments","completion of wait_for_quit"])
# ---------------------------------------------------------------- uuid
p("C22","UUID text form round-trips and is canonical",
 "Converting any UUID to text gives 36 lower-case characters in the 8-4-4-4-12 layout, and parsing that text gives the same UUID. Any accepted spelling (upper or lower case, with or without dashes, with or without matching braces) parses to the UUID those hex digits denote.",
 ["inputs"],"All 128-bit values and all accepted spellings.",
 "2^128 values; tests use a few literals.",
 [I+"uuid.hpp",S+"uuid.cpp",S+"uuid_generator.cpp"],[("hex encode/decode",S+"uuid.cpp")],["to_string()","from_string()"])
p("C23","UUID validation and parsing agree on every string",
 "For every string, the validity check answers yes exactly when parsing succeeds, parsing signals bad input only by its documented exception, and both are free of invalid memory accesses. A string is accepted only if, apart from dashes and one matching pair of enclosing braces, it consists of exactly 32 hex digits.",
 ["inputs"],"All byte strings up to a bound, including near-misses around the length and brace rules.",
 "The space of malformed strings is unbounded; tests list a few.",
 [S+"uuid_generator.cpp"],[("parallel scanners in validation and parsing",S+"uuid_generator.cpp")],["is_valid()","from_string()"])
p("C24","UUID comparisons form one total order consistent with the text form",
 "Exactly one of less, equal and greater holds for any two UUIDs, the remaining comparisons follow from these, the order is transitive, and it is the same as comparing the text forms. A default-constructed UUID is the all-zero one and the least.",
 ["inputs"],"All pairs and triples of 128-bit values.",
 "Tests compare a few literals.",
 [I+"uuid.hpp"],[("byte-wise comparison operators",I+"uuid.hpp")],["comparison operators","to_string()"])
p("C25","Generated UUIDs are version 4 and carry all their randomness",
 "Every generated UUID has the version-4 and standard-variant marks, and each of the remaining 122 bits comes from its own random bit, so that different random input gives different UUIDs and all values can occur. Successive generated UUIDs use fresh random input.",
 ["inputs","histories"],"All outputs of the random source, successive generations.",
 "Tests check format and a small sample for duplicates.",
 [S+"uuid_generator.cpp"],[("masking of version/variant bits",S+"uuid_generator.cpp")],["create()"])
# ---------------------------------------------------------------- date/time
p("C26","Calendar dates convert and calculate exactly",
 "A date built from a point in time is the civil day containing it (also before 1970), converting a valid date to a point in time and back gives the same date, and its weekday is the civil one. Adding or subtracting a time span gives the civil day containing the resulting instant, the difference of two dates is their exact number of days, and comparisons agree with chronology.",
 ["inputs"],"All dates and time spans whose results are representable.",
 "Leap years, century rules and negative day counts make the interesting inputs sparse.",
 [I+"datetime/date.hpp"],[("floor to days, sys_days conversion",I+"datetime/date.hpp")],["date accessors and operators"])
p("C27","A datetime splits into date and time of day and recomposes exactly",
 "For every instant, also before 1970, its date is the day containing it, its time of day is the non-negative remainder below 24 hours, and composing the two gives the instant back; building from calendar and clock fields gives the instant those fields denote. Adding a span and subtracting it again is the identity, differences invert addition, and comparisons agree with chronology.",
 ["inputs"],"All representable instants and spans without overflow, all valid field values.",
 "Negative remainders and boundary nanoseconds are not sampled by the tests.",
 [I+"datetime/datetime.hpp",I+"datetime/date.hpp",I+"datetime/time.hpp"],[("floor-based split",I+"datetime/datetime.hpp")],["date()","time()","operators"])
p("C28","Time of day wraps at 24 hours and exposes consistent components",
 "Building a time of day from any span keeps the span modulo 24 hours (the remainder keeps the span's sign, the components being magnitudes), its hour, minute, second and sub-second components are in range and recompose to it, and comparing two times agrees with comparing their spans. Adding or subtracting a span wraps in the same way, and the sum or difference of two times is the exact span.",
 ["inputs"],"All spans representable in nanoseconds.",
 "Tests use a few values well inside the range.",
 [I+"datetime/time.hpp"],[("modulo 24h and field split",I+"datetime/time.hpp")],["components","to_duration()","operators"])
p("C29","Time spans decompose, convert and calculate exactly",
 "For every span the components from hours down to nanoseconds are in range and add up to the span, also when it is negative, and each total in a given unit is the span truncated toward zero in that unit. Addition, subtraction, scaling and comparison agree with integer arithmetic on nanoseconds, and dividing by zero is reported as a domain error.",
 ["inputs"],"All 64-bit spans (no overflow in the operation itself).",
 "Negative and boundary spans are where floor and truncation differ; the tests sample few.",
 [I+"datetime/timedelta.hpp"],[("floor differences, duration casts",I+"datetime/timedelta.hpp")],["components","totals","operators"])
p("C30","Dates, times and datetimes survive a trip through text",
 "Formatting a valid date, time of day or datetime and parsing the text with the same format gives the value back, truncated to the printed precision. The text has the documented fixed layout with zero-padded fields. Datetimes before 1970 print the second that contains them. Dates keep this for every four-digit year, datetimes for the years the nanosecond clock can represent.",
 ["inputs"],"All valid values with four-digit years, all printed precisions (bounded as stated by the check).",
 "Padding and truncation errors show only for particular field values.",
 [S+"datetime/date.cpp",S+"datetime/time.cpp",S+"datetime/datetime.cpp"],[("format and parse with the same format string",S+"datetime/datetime.cpp")],["to_string()","from_string()"])
p("C31","Malformed date and time text is rejected, never misread",
 "Parsing text as a date, time or datetime either yields the value the text denotes in the given format or signals failure by the documented exception. Missing separators, truncated text and impossible dates are rejected, in datetimes also hours, minutes or seconds out of range (a plain time of day takes such fields modulo a day, as its constructor does), and no input causes an invalid memory access. Fields may have fewer digits than the layout shows, and text after the end of the format is not looked at.",
 ["inputs"],"All byte strings up to a bound around the documented layouts.",
 "The space of malformed strings is unbounded; tests list a few.",
 [S+"datetime/date.cpp",S+"datetime/time.cpp",S+"datetime/datetime.cpp"],[("stream state tested after parsing",S+"datetime/datetime.cpp")],["from_string()"])
p("C32","Time spans print as sign, hours, minutes, seconds and fraction exactly",
 "The text of a time span is an optional minus sign followed by at least two-digit hours, two-digit minutes and seconds and, for sub-second precision, a point and the fraction zero-padded to the precision. Reading these fields back gives the span truncated to the printed precision.",
 ["inputs"],"All spans (bounded as stated by the check) and all four precisions.",
 "Padding and sign handling depend on particular values.",
 [S+"datetime/timedelta.cpp"],[("field widths and fill",S+"datetime/timedelta.cpp")],["to_string()"])
# ---------------------------------------------------------------- geometry / math
p("C33","Minimum and maximum of two to four values are correct",
 "The maximum (minimum) of two, three or four values is one of them and no other of them is greater (smaller). This holds for every argument order, including ties.",
 ["inputs"],"All tuples of integer and non-NaN floating values.",
 "Nested conditionals have many orderings; tests take a few.",
 [I+"math.hpp"],[("nested comparisons",I+"math.hpp")],["min()","max()"])
p("C34","Numeric ranges follow half-open interval semantics",
 "A range contains exactly the values from its lower bound up to but excluding its upper bound; two ranges intersect exactly when they overlap in more than an end point, their intersection contains exactly the values in both (and is the null range if there are none), and their union is the smallest range covering both. Clamping gives the nearest value within the bounds, moving a bound past the other drags the other along, and mapping a fraction interpolates linearly.",
 ["inputs"],"All ordered bounds and values (no overflow).",
 "Touching, nested and degenerate ranges are corner cases tests sample sparsely.",
 [I+"geometry/range.hpp"],[("bound comparisons",I+"geometry/range.hpp")],["range operations"])
p("C35","Rectangles follow planar set semantics",
 "A point is inside a rectangle exactly when it is strictly between its edges; two non-null rectangles intersect exactly when their interiors overlap; the intersection is the largest rectangle inside both (null when they are apart) and the union is the smallest rectangle enclosing both, null rectangles being neutral. One rectangle contains another when it lies strictly inside on every side; a rectangle is null when it has no extent in both directions. Corners, size, area and centre follow from position and extent, and translation moves the position only.",
 ["inputs"],"All rectangles with non-negative extents and no overflow, all points.",
 "Touching, nested and disjoint-by-one configurations are a thin slice of the input space.",
 [I+"geometry/rectangle.hpp",I+"math.hpp"],[("edge comparisons, min/max of edges",I+"geometry/rectangle.hpp")],["rectangle operations"])
p("C36","Segment intersection is decided and located exactly",
 "Two segments that are not parallel are reported as intersecting exactly when they share a point, including when they only touch at an end point, and the reported point lies on both to within rounding. Parallel segments without a common point are never reported as intersecting; the test is symmetric in the two segments and in the direction of each.",
 ["inputs"],"All segments with integer end points in a bounded coordinate box.",
 "End-point touches and near misses are rare among random segments.",
 [I+"geometry/line.hpp"],[("determinant quotient test",I+"geometry/line.hpp")],["intersects()","get_intersection()"])
p("C37","Points, sizes and lines obey vector arithmetic and value equality",
 "Point addition and subtraction are component-wise and inverse to each other, in-place and returning forms agree, scaling multiplies or divides each component, and equality is component-wise. Line equality ignores direction, and the orientation and null tests for points, sizes and lines say exactly what their coordinates say.",
 ["inputs"],"All coordinates without overflow, all scalars.",
 "Tests use a few coordinates; swapped components go unnoticed on symmetric values.",
 [I+"geometry/point.hpp",I+"geometry/size.hpp",I+"geometry/line.hpp"],[("component-wise operators",I+"geometry/point.hpp")],["point/size/line operations"])
# ---------------------------------------------------------------- argparse
p("C38","Command-line parsing is total: every argument vector yields a result",
 "For every argument vector and environment, a parser used for one parse returns success, error or quit; it never terminates the program, lets an exception escape, or accesses memory invalidly. An argument that matches nothing declared, a missing value, or a missing required argument yields error, and success implies that every required argument was given.",
 ["inputs","configurations"],"All argument strings up to a bound, all environment values, parsers with positionals, options and flags with and without short names.",
 "Arbitrary user input; tests list well-formed and a few malformed command lines.",
 [S+"argparse/argument_parser.cpp",I+"argparse/argument_base.hpp"],[("exceptions turned into results at the entry point",S+"argparse/argument_parser.cpp")],["parse() result"])
p("C39","Command-line arguments are assigned exactly as written",
 "On success each option variable holds the value written last for it by its long or short name, joined by an equals sign or, when nothing follows the name, as the next argument; each flag is set exactly if it was given, positionals are assigned in order of declaration, and everything not given keeps its default. No argument ever affects a variable other than the one it names.",
 ["inputs","configurations"],"All values and argument orders up to a bound over a parser with several options, flags and positionals.",
 "Cross-talk needs combinations that tests do not enumerate.",
 [S+"argparse/argument_parser.cpp",I+"argparse/optional_argument.hpp",I+"argparse/flag_argument.hpp",I+"argparse/positional_argument.hpp"],[("key/value split and lookup by name",S+"argparse/argument_parser.cpp")],["argument variables","parse() result"])
p("C40","Environment variables supply defaults that the command line overrides",
 "An option or flag bound to an environment variable takes its value from it when the variable is set and the command line does not mention it; the command line wins otherwise. A flag counts as set by any text. A required option is satisfied by its environment variable, and a malformed environment value yields an error result.",
 ["inputs","configurations"],"All environment values up to a bound, set and unset, with and without command-line mention.",
 "Tests cover one well-formed variable.",
 [S+"argparse/argument_parser.cpp",I+"argparse/argument_base.hpp"],[("environment read before the command line",S+"argparse/argument_parser.cpp")],["argument variables","parse() result"])
p("C41","Argument text converts to typed values correctly or is rejected",
 "Text denoting a signed integer, character, boolean, string or comma-separated list of these is converted to exactly that value (text after the leading digits of an int and an empty last list element are ignored); text with no leading value or with a value outside the type's range yields an error and leaves the variable as it was. A validator's rejection has the same effect, and an accepted value has passed the validator.",
 ["inputs"],"All texts up to a bound per target type.",
 "Overflow boundaries and signs are sparse in the input space.",
 [I+"argparse/argument_base.hpp",I+"argparse/optional_argument.hpp"],[("per-type conversion",I+"argparse/argument_base.hpp")],["argument variables","parse() result"])
p("C42","Help and version requests quit without acting on the rest",
 "The names of help and version are reserved. An argument vector in which help or version (long or short form) comes before any erroneous argument yields quit, prints to standard output, and assigns nothing from the arguments after it. Quit is returned only if help or version was requested.",
 ["inputs"],"All argument vectors up to a bound with a help or version request at any position.",
 "Tests use the request alone.",
 [S+"argparse/argument_parser.cpp"],[("help/version tested before lookup",S+"argparse/argument_parser.cpp")],["parse() result","argument variables"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
