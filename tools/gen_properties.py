#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
I = "cpp_utils/include/cpp_utils/"
S = "cpp_utils/src/cpp/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop("P01", "Leased data is never destroyed or dangling while a guard is held",
     "While any guard obtained from a lease exists, the owned object is not destroyed: the owner's reset, replacement, move-assignment or destruction waits until every guard over the old object is gone, and then destroys it exactly once with the deleter it was given. "
     "A lock attempt yields either a usable guard over the live object or an empty one (or, in the throwing form and the direct access operators, the documented exception) once the object is gone, and a lease that has turned invalid never turns valid again. "
     "Moving owners, leases or guards transfers exactly that responsibility: nothing is destroyed twice or leaked, no hold is lost, and an owner is never blocked by a guard that no longer exists.",
     ["schedules", "histories"],
     "Every interleaving of owner, lessee and guard operations (create, copy, move, lock, use, reset, replace, destroy) from any number of threads.",
     "The unit tests take a few fixed sequences with sleeps; races between lock() and reset(), guard moves and last-release orders are not enumerated and nothing watches memory.",
     [I + "memory/impl/" + f for f in ("OwnerPtr.hpp", "OwnerPtr.ipp", "LesseePtr.hpp", "LesseePtr.ipp", "GuardedPtr.hpp", "GuardedPtr.ipp", "InternalPtrData.hpp", "InternalPtrData.ipp")],
     [("shared/unique timed mutex around release_reference_", I + "memory/impl/InternalPtrData.ipp"), ("GuardedPtr RAII unlock", I + "memory/impl/GuardedPtr.ipp")],
     [("reference_", "raw pointer, null once released", I + "memory/impl/InternalPtrData.hpp")],
     ["deleter calls", "guard lifetime events", "lock() results"])

prop("P02", "Thread-safe database is linearizable and stable under iteration",
     "Every operation of the thread-safe key/value database (add, modify, add-or-modify, erase, is, find, at, size) takes effect atomically at one instant between its call and its return, with the results of a sequential map: add fails on an existing key and leaves its value, modify and erase report false on a missing key, at throws on a missing key, add-or-modify reports whether it added. "
     "While any iterator over it (also a copied or moved one) is alive, no addition, modification or removal takes effect, iteration visits every key exactly once in order, and other readers still proceed. "
     "Once all the iterators are gone the blocked writers proceed.",
     ["schedules", "histories", "inputs"],
     "All histories of concurrent operations over all keys and values, and all iterator lifetimes.",
     "The tests of the database run one thread and need Fast DDS-free headers only; no test checks a concurrent history or a writer blocked by an iterator copy.",
     [I + "collection/database/SafeDatabase.hpp", I + "collection/database/impl/SafeDatabase.ipp", I + "collection/database/IDatabase.hpp"],
     [("shared_timed_mutex: unique for writers, shared for readers", I + "collection/database/impl/SafeDatabase.ipp"), ("iterator holds a shared lock for its life", I + "collection/database/impl/SafeDatabase.ipp")],
     [("internal_db_", "the map", I + "collection/database/SafeDatabase.hpp")],
     ["invocation/response history of each operation"])

prop("P03", "Event handlers deliver, count and wake exactly as documented",
     "Each event that occurs while a handler's callback is set runs the currently set callback exactly once with the event's arguments and, once that run has finished, increases the event count by one, and an event that occurs while it is unset runs nothing and counts nothing; callback runs never overlap, and a derived handler is told exactly once of each enabling, change and disabling. "
     "When unsetting a callback returns, no run of it is in progress or will start, and replacing a callback means that every later event runs only the new one. "
     "Waiting for n events returns true exactly when the count has reached n, returns false only when the handler is unset (or was never set) with the count below n, is always woken by either cause, and the handler may be destroyed as soon as an unset has returned.",
     ["schedules", "histories"],
     "Every interleaving of set, change, unset, simulated events, waits, counter resets and destruction from several threads, for handlers with any argument list.",
     "The handler tests sleep between steps and need Fast DDS, so most are not even built; lost wake-ups, use after destruction and callbacks after unset need rare interleavings.",
     [I + "event/EventHandler.hpp", I + "event/impl/EventHandler.ipp"],
     [("recursive mutexes for set/unset and callback execution", I + "event/impl/EventHandler.ipp"), ("condition variable with count and enabled predicate", I + "event/impl/EventHandler.ipp")],
     [("number_of_events_registered_", "event count", I + "event/EventHandler.hpp"), ("threads_waiting_", "waiters to drain before unset returns", I + "event/EventHandler.hpp")],
     ["callback invocations", "event_count()", "return of wait_for_event()"])

prop("P04", "Periodic handler fires at its period only while enabled",
     "A periodic handler with a callback runs it again and again, for ever, with at least the configured period between the end of one run (or the enabling) and the start of the next; it never fires early, and never more often than the elapsed time allows. "
     "It does not fire before a callback is set nor after unset or destruction has returned, which happens promptly and not after a full period, and it can be enabled again afterwards. "
     "A period of zero is rejected at construction with the documented exception.",
     ["schedules", "inputs", "histories"],
     "All periods, callback durations, and interleavings of set, change, unset and destruction with the timer thread.",
     "The periodic tests need Fast DDS (not built here) and compare counts after sleeps with generous slack.",
     [I + "event/PeriodicEventHandler.hpp", S + "event/PeriodicEventHandler.cpp"],
     [("timer thread with condition variable wait_for", S + "event/PeriodicEventHandler.cpp")],
     [("timer_active_", "stop flag of the timer thread", I + "event/PeriodicEventHandler.hpp")],
     ["callback start and end times"])

prop("P05", "Every caught signal runs every enabled signal handler exactly once",
     "Each delivery to the process of a handled signal (also bursts, also on any thread) runs the callback of every signal handler enabled for that signal exactly once, in a normal thread context and with that signal as argument, and never runs a handler of another signal. "
     "Deliveries are not lost or duplicated, whatever the callbacks do with locks of their own. "
     "A handler that was disabled or destroyed before a delivery is never run for it, no callback runs after disabling returned, and handlers can be created, disabled and enabled again any number of times.",
     ["schedules", "histories"],
     "All sequences and timings of signals, over all sets of enabled handlers of the supported signals, changing over time.",
     "The signal tests need Fast DDS and raise single signals followed by waits.",
     [I + "event/SignalManager.hpp", I + "event/impl/SignalManager.ipp", I + "event/SignalEventHandler.hpp", I + "event/impl/SignalEventHandler.ipp"],
     [("atomic pending counter plus dedicated thread", I + "event/impl/SignalManager.ipp"), ("callback map by unique id", I + "event/impl/SignalManager.ipp")],
     [("signals_received_", "pending deliveries", I + "event/SignalManager.hpp")],
     ["callback invocations per handler per raised signal"])

prop("P06", "A multiple handler fires once for every event of any inner handler",
     "A handler composed of other handlers runs its own callback and counts exactly once for each event of any of them, of whatever kind, and waiting on it is woken by whichever comes first. "
     "The callbacks the inner handlers had before being registered are never run afterwards. "
     "Destroying it destroys every inner handler, and none of their events reaches a callback after that, also when events keep arriving during the destruction.",
     ["schedules", "histories"],
     "All mixes of inner handler kinds, event orders and destruction times.",
     "Its tests need Fast DDS and use a few events in fixed order.",
     [I + "event/MultipleEventHandler.hpp", I + "event/impl/MultipleEventHandler.ipp", S + "event/MultipleEventHandler.cpp"],
     [("inner callbacks redirected to the composite", I + "event/impl/MultipleEventHandler.ipp"), ("inner handlers destroyed first", S + "event/MultipleEventHandler.cpp")],
     [], ["callback invocations", "event_count()"])

prop("P07", "Log handlers see each matching log entry exactly once, in order",
     "While a log handler is enabled, each log entry consumed by the logging system is passed to its callback exactly once, in the order of consumption and with its kind, category and text unchanged; the severe handler does so for exactly those entries at least as severe as its threshold, from the first to the last instant of its life. "
     "Creating and destroying log handlers is safe while other threads are logging: a destroyed handler is never called again. "
     "The test log checker reports success exactly when the number of consumed entries of each watched severity matches the expectation it was given.",
     ["schedules", "histories", "inputs"],
     "All sequences of log entries of all kinds, and all interleavings of the logging thread with construction, set, unset and destruction.",
     "These tests need Fast DDS and are not built here; nothing exercises destruction during logging.",
     [I + "event/LogEventHandler.hpp", S + "event/logging/LogEventHandler.cpp", S + "event/logging/LogSevereEventHandler.cpp", S + "event/logging/LogConsumerConnection.cpp", I + "testing/LogChecker.hpp", "cpp_utils/src/cpp/testing/LogChecker.cpp"],
     [("owner/lessee connection between log consumer and handler", S + "event/logging/LogConsumerConnection.cpp")],
     [("entries_consumed_", "entries so far", I + "event/LogEventHandler.hpp")],
     ["callback invocations", "LogChecker results"])

prop("P08", "File watching reports every change of the watched file, and only that",
     "While a file watching handler is enabled, every modification of the watched file (opened, written and closed; rewritten in place; truncated) leads to at least one callback with that file's name after the modification, and changes of other files in the same directory lead to none. "
     "No callback runs before it is set or after unset or destruction has returned, and both finish promptly also when no event ever comes. "
     "The handler can be enabled again and then reports again, and no thread or file descriptor is left behind.",
     ["schedules", "histories", "fault_sequences"],
     "All sequences of file operations in the watched directory, over all enable/disable histories.",
     "The test needs Fast DDS, and checks one or two writes with sleeps.",
     [I + "event/FileWatcherHandler.hpp", S + "event/FileWatcherHandler.cpp", S + "event/FileWatcher.hpp", "thirdparty/filewatch/FileWatch.hpp"],
     [("inotify watch thread and callback thread", "thirdparty/filewatch/FileWatch.hpp"), ("modified events only", S + "event/FileWatcherHandler.cpp")],
     [], ["callback invocations per file operation", "thread and fd counts"])

prop("P09", "Console line editing yields exactly the lines a user typed",
     "Each line the interactive input handler delivers is the result of the keys typed since the last one (printable characters, backspace, delete, arrows, home, end, line feed), and is delivered exactly once and in order, for any key sequence; up and down recall the command history and unknown keys change nothing. "
     "It never crashes, hangs or reads out of bounds for any byte sequence, terminal width or end of input, and "
     "a terminal has its own settings again once the handler has stopped. "
     "The command reader splits a delivered line into command and arguments (joining a quoted run of words into one) and turns it into the enumeration value of the command, or reports that it is not a known one.",
     ["inputs", "histories"],
     "All byte sequences on standard input, in all chunkings, with all histories.",
     "The tests need Fast DDS and feed two or three full lines without any editing key.",
     [I + "event/StdinEventHandler.hpp", S + "event/StdinEventHandler.cpp", I + "user_interface/CommandReader.hpp", I + "user_interface/impl/CommandReader.ipp"],
     [("key decoder and line buffer", S + "event/StdinEventHandler.cpp"), ("tokenizer with quotes", I + "user_interface/impl/CommandReader.ipp")],
     [], ["delivered lines", "parsed commands"])

prop("P10", "Value wait handlers wake for the right reason and never miss a wake-up",
     "A wait on a value, boolean door or integer handler returns 'condition met' only if the awaited condition was true at some instant of the wait, 'timeout' only after at least the given time with the condition not seen (and soon after it, however often the value changes meanwhile), and 'disabled' only if the handler was disabled at some instant of it. "
     "Every thread waiting, or starting to wait, when the condition becomes and stays true, or when the handler is disabled, is woken: no wake-up is lost. "
     "Blocking disable and destruction return only when no thread is waiting any more, a disabled handler never blocks, and an enabled again one waits again.",
     ["schedules", "histories"],
     "All interleavings of waits, value changes, enabling and disabling, and destruction, with any number of threads and any timeouts.",
     "The wait tests are not built here (Fast DDS), and use sleeps of tens of milliseconds so that every notify finds the waiter already asleep.",
     [I + "wait/WaitHandler.hpp", I + "wait/impl/WaitHandler.ipp", I + "wait/BooleanWaitHandler.hpp", S + "wait/BooleanWaitHandler.cpp", I + "wait/IntWaitHandler.hpp", S + "wait/IntWaitHandler.cpp"],
     [("condition variable guarded by one mutex with enabled flag in predicate", I + "wait/impl/WaitHandler.ipp")],
     [("value_", "awaited value", I + "wait/WaitHandler.hpp"), ("threads_waiting_", "drained by blocking_disable", I + "wait/WaitHandler.hpp")],
     ["awake reasons", "return times"])

prop("P11", "Counter and queue wait handlers hand out each element exactly once",
     "Each element produced is consumed by exactly one consumer call, elements of one producer in the order it produced them, and none is lost, duplicated or made up, whatever the numbers of producers and consumers; disabling keeps the elements for when it is enabled again. "
     "A consumer blocks only while nothing is available and is woken when something arrives; it raises the timeout exception only after its time (and soon after it) and the disabled exception only when disabled. "
     "Waiting for the counter to reach its threshold, or for all to be consumed, returns 'condition met' only when that was the case, returns as soon as it stays the case or the handler is disabled, and disabling or destroying the handler releases every waiter safely.",
     ["schedules", "histories"],
     "All interleavings of produce, consume, timed consume, wait-all, enable, disable and destruction by any number of threads.",
     "The tests are not built here and check totals after sleeps; element loss, lost notifications when one consumer hands over to the next, and disabling during waits need rare interleavings.",
     [I + "wait/CounterWaitHandler.hpp", S + "wait/CounterWaitHandler.cpp", I + "wait/ConsumerWaitHandler.hpp", I + "wait/impl/ConsumerWaitHandler.ipp", I + "wait/DBQueueWaitHandler.hpp", I + "wait/impl/DBQueueWaitHandler.ipp"],
     [("counter with one-at-a-time notification chain", S + "wait/CounterWaitHandler.cpp"), ("double buffered queue with pop mutex", I + "wait/impl/DBQueueWaitHandler.ipp")],
     [("value_", "elements ready", I + "wait/WaitHandler.hpp")],
     ["produced and consumed element history"])

prop("P12", "Thread pool runs every emitted task exactly once",
     "Every emission of a registered task to the thread pool leads to exactly one execution of that task on a pool thread, also when emitted before enabling or while disabled (then after the next enabling), and at most as many run at once as the pool has threads; emitting an unregistered id or registering one twice raises the documented exception and changes nothing. "
     "After disabling returned, no task is running or starts until it is enabled again, and destruction stops all threads. "
     "Waiting for all tasks reports 'condition met' only when every task emitted before has finished. "
     "Task ids handed out are unique over all threads of the process.",
     ["schedules", "histories"],
     "All interleavings of registering, emitting (also from inside tasks), enabling, disabling, waiting and destruction, for all pool sizes.",
     "The pool tests are not built here (Fast DDS) and never enable a pool twice.",
     [I + "thread_pool/pool/SlotThreadPool.hpp", S + "thread_pool/pool/SlotThreadPool.cpp", S + "thread_pool/task/TaskId.cpp"],
     [("queue wait handler of task ids consumed by threads", S + "thread_pool/pool/SlotThreadPool.cpp")],
     [("slots_", "registered tasks", I + "thread_pool/pool/SlotThreadPool.hpp")],
     ["task executions", "returned ids"])

prop("P13", "Double-buffered queue keeps FIFO order and loses nothing",
     "Items pushed to the double-buffered queue by any number of producers are seen by the consumer in push order (per producer, and overall for a sequential history), exactly once each. "
     "Only the foreground side is visible to front, pop, size and empty until a swap, a swap discards what was left in the foreground and exposes exactly what had been pushed before it, and clearing empties both sides. "
     "Pushing is never blocked by, and never corrupts, what the consumer is doing, and other threads that ask for the sizes meanwhile get those of some instant.",
     ["schedules", "histories"],
     "All operation sequences, and all interleavings of producers with one consumer.",
     "One small sequential test, not built here.",
     [I + "queue/DBQueue.hpp"],
     [("two queues with one mutex each", I + "queue/DBQueue.hpp")],
     [], ["pushed and popped item history"])

prop("P14", "Unbounded object pool never lends one object twice and frees every one",
     "The unbounded pool always delivers an object when asked, never delivers an object that is currently lent out, and gives it out again only after it was returned and reset; an object is created only when no returned one is waiting. "
     "Pre-allocation and growth follow the configured initial and batch sizes. "
     "At destruction every object that the pool created and holds is destroyed exactly once, and pools of different threads do not affect each other.",
     ["histories", "configurations", "schedules"],
     "All sequences of loan and return, over all pool configurations, by one thread or by several with objects of their own.",
     "The pool tests cover fixed loops on a few configurations without watching memory.",
     [I + "pool/IPool.hpp", I + "pool/impl/IPool.ipp", I + "pool/UnboundedPool.hpp", I + "pool/impl/UnboundedPool.ipp"],
     [("reservoir of free elements", I + "pool/impl/UnboundedPool.ipp")],
     [("reservoir_", "free elements", I + "pool/UnboundedPool.hpp")],
     ["object identities lent, returned, created, destroyed"])

prop("P15", "Seeded random values are reproducible and independent",
     "A random manager built with a seed, or reseeded with it, yields the same sequence of values every time, and the random number associated with a given seed is the same whenever, however often and by whichever manager it is asked, whatever was called before. "
     "The three features (pure random values, the sequence, values for a given seed) never influence each other. "
     "The thread-safe manager gives the results of some sequential order of the calls: concurrent callers together receive exactly the values of the sequence, each once, and per-seed values stay right under concurrent use.",
     ["inputs", "schedules", "histories"],
     "All seeds and call orders, and concurrent use of the thread-safe manager.",
     "The tests check a few seeds in a single thread.",
     [I + "math/random/RandomManager.hpp", S + "math/random/RandomManager.cpp", I + "math/random/TSafeRandomManager.hpp", S + "math/random/TSafeRandomManager.cpp"],
     [("one engine per feature", S + "math/random/RandomManager.cpp"), ("mutex in the thread-safe variant", S + "math/random/TSafeRandomManager.cpp")],
     [], ["returned values"])

prop("P16", "Singletons give every thread one and the same instance",
     "Every access to a singleton of a given type and index, from any thread and also when the first accesses race, returns the same fully constructed instance, built exactly once, and different indexes give different instances. "
     "A run-time initializable singleton keeps the object of the first initialization, however many initializations and accesses race: exactly one of them takes effect and reports so, and an access either creates the default object or, when told not to create, returns nothing until there is one. "
     "The shared instance lives until every holder has let it go.",
     ["schedules", "histories"],
     "All interleavings of first accesses and initializations from any number of threads.",
     "Sequential tests with fixed types; racing first accesses are never tried.",
     [I + "types/Singleton.hpp", I + "types/impl/Singleton.ipp", I + "types/InitializableSingleton.hpp", I + "types/impl/InitializableSingleton.ipp", I + "types/SafeInitializableSingleton.hpp", I + "types/impl/SafeInitializableSingleton.ipp"],
     [("function local static", I + "types/impl/Singleton.ipp"), ("mutex guarded shared pointer", I + "types/impl/SafeInitializableSingleton.ipp")],
     [], ["instance addresses", "constructor runs and arguments"])

prop("P17", "Number helpers agree with exact arithmetic",
     "The integer helpers (even test, power-of-two test, fast modulo, fast division, arithmetic progression sum, fast exponentiation) equal the exact mathematical result for every argument in their documented domain whose result is representable, including zero and the ends of the range. "
     "They compute it without undefined behaviour, in any number of threads, and always terminate. The MAX and MIN macros give the larger and the smaller of any two expressions within any larger one.",
     ["inputs", "schedules"],
     "All argument values with a representable result, by one thread or several at once.",
     "The tests sample a dozen values per function and never the ends of the range.",
     [I + "math/math_extension.hpp", S + "math/math_extension.cpp", I + "macros/macros.hpp"],
     [("closed formulas", S + "math/math_extension.cpp")], [], ["return values"])

prop("P18", "Timers measure elapsed time, and pausable ones exclude pauses",
     "The elapsed time a timer reports is never negative, never decreases between resets, never exceeds the real time since its last reset and never falls below the real time before the query by more than its resolution. "
     "The pausable timer reports exactly the time spent in its playing periods since the last reset: it stands still while paused, is unaffected by redundant play and pause calls, and continues from where it stood. "
     "Reset brings it to zero without starting or stopping it, and adjusting the system clock, or other threads with timers, changes nothing.",
     ["histories", "inputs", "schedules"],
     "All sequences of play, pause, reset and query, at any times, by one thread or by several with objects of their own.",
     "Two or three fixed sequences with wide tolerance.",
     [I + "time/Timer.hpp", S + "time/Timer.cpp", I + "time/PausableTimer.hpp", S + "time/PausableTimer.cpp"],
     [("accumulated time and start mark", S + "time/PausableTimer.cpp")], [], ["elapsed values against an independent clock"])

prop("P19", "Timestamps survive conversion to text and back",
     "Formatting a timestamp of whole seconds as text and parsing that text with the same complete format gives the same second back, in UTC and in local time (but for local texts that name two instants), before and after 1970 and also when several threads convert at once. "
     "Building a timestamp from date fields gives the instant that the calendar says, formatting shows the fields that the calendar says, and text with a character or a field that does not fit the format, or a date that a timestamp cannot hold, is refused with an exception. "
     "Sleeping for a duration never returns early, and durations convert exactly.",
     ["inputs", "schedules"],
     "All timestamps, formats, time zones and malformed strings, and concurrent conversions.",
     "The tests convert a few dates, one thread, one zone, and are not built here.",
     [I + "time/time_utils.hpp", S + "time/time_utils.cpp"],
     [("put_time/get_time with gmtime/timegm", S + "time/time_utils.cpp")], [], ["converted values against an independent calendar"])

prop("P20", "Generated enumerations map names and values one to one",
     "For each enumeration made with the enumeration macros, the enum builders or the code generator, converting a value to its name and the name back gives that value, every declared name is known and nothing else is, and the list of names is complete and in declaration order. "
     "A string matches a value exactly if it is one of the names or aliases given to it, and anything else is reported as not found or raises the documented exception. "
     "This holds for any number, order and spelling of the elements that the tools accept, and for threads that convert at the same time.",
     ["inputs", "programs", "schedules"],
     "All element lists that the macros and the generator accept, and all strings given to the converters, by one thread or several at once.",
     "The tests declare two or three small enumerations by hand.",
     [I + "macros/custom_enumeration.hpp", I + "macros/recursive_macros.hpp", I + "enum/EnumBuilder.hpp", I + "enum/impl/EnumBuilder.ipp", I + "types/Builder.hpp", I + "types/impl/Builder.ipp", "dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py"],
     [("recursive macros over the element list", I + "macros/recursive_macros.hpp"), ("string to value map", I + "types/impl/Builder.ipp")], [], ["conversions over generated enumerations"])


prop("P21", "Fuzzy and heritable values keep value semantics and certainty levels",
     "A fuzzy value reports exactly the value and level last given to it: it is valid from the default level up and set from the fuzzy level up, unsetting changes the level and not the value, and setting changes both. "
     "Two fuzzy values are equal when neither is set, or when they have the same level and equal values; it equals a plain value when it is valid and the values are equal, and inequality is always the opposite. "
     "A heritable object behaves under copy, move, comparison, ordering and casts like the object it was made from, whatever its dynamic type, copies refer to the same object, which is never sliced and is destroyed exactly once, as what it is, when the last of them goes, also when threads hold them; casts to what the object is not are refused with std::bad_cast.",
     ["inputs", "histories"],
     "All sequences of operations over all levels, values and class hierarchies.",
     "A few cases per operation on one type; levels between the named ones and the lifetimes of heritable copies are not tested.",
     [I + "types/Fuzzy.hpp", I + "types/impl/Fuzzy.ipp", I + "memory/Heritable.hpp", I + "memory/impl/Heritable.ipp"],
     [("level comparisons", I + "types/impl/Fuzzy.ipp"), ("shared pointer to dynamic type", I + "memory/impl/Heritable.ipp")], [], ["observers after each operation"])

prop("P22", "String utilities are exact for every input and always terminate",
     "Splitting a string and joining the pieces with the delimiter gives the original back, no piece contains the (non-empty) delimiter, and there is always at least one piece; splitting by several delimiters leaves none of them in any piece and loses nothing else. "
     "Replacing the first or all occurrences (from left to right, in the original text) changes exactly those and reports how many, stripping replaces in order every occurrence of each unwanted string, case conversion changes ASCII letters only, and padding a non-negative number with zeros gives exactly its decimal digits with the requested minimum width (1 or more) or, when longer is not allowed, an exception exactly if it has more digits. "
     "Wildcard matching follows shell pattern rules, and every call terminates, also for empty or self-containing arguments, and is not affected by calls of other threads.",
     ["inputs", "schedules"],
     "All strings, delimiters, replacements, numbers and widths, also empty, overlapping and non-ASCII ones, by one thread or several at once.",
     "Not built here (Fast DDS); a handful of hand-picked strings.",
     [I + "utils.hpp", S + "utils.cpp"],
     [("find and replace loops", S + "utils.cpp"), ("fnmatch", S + "utils.cpp")], [], ["returned strings against reference implementations"])

prop("P23", "Byte quantities and base64 convert both ways exactly",
     "Decoding the base64 encoding of any byte string gives it back, the encoding is the standard one with padding, and decoding stops at the first foreign character without reading beyond the input. "
     "A quantity of bytes written as a number and a unit is accepted exactly if it is well formed with a known unit (any letter case) and fits in 64 bits, and gives number times unit, exactly for whole numbers and dropping fractions of a byte (within the precision of a double) for decimals; anything else is refused with std::invalid_argument. "
     "A number of bytes is printed with the largest decimal unit not above it, with at most two decimals and less than about a hundredth away; calls of several threads do not affect each other.",
     ["inputs", "schedules"],
     "All byte strings, all quantity strings and all 64-bit numbers, by one thread or several at once.",
     "Not built here (Fast DDS); short ASCII strings and round numbers only.",
     [I + "utils.hpp", S + "utils.cpp"],
     [("bit accumulator", S + "utils.cpp"), ("regular expression and unit table", S + "utils.cpp")], [], ["values against exact arithmetic"])

prop("P24", "Container helpers compare, convert and print exactly their elements",
     "A set of shared pointers contains an element exactly if it has an equal pointee or the same pointer (null only matches null), and comparing sets is symmetric and true exactly if each has for every element an equal one in the other and they have the same size. "
     "Converting, listing keys, copying raw memory and printing containers yield exactly the elements, once each and in order, separated as asked, also for empty and one-element containers. "
     "A tree reports its branches, all its nodes, leaves and depth (levels below the root) as built, and casts between related references and pointers refer to the same object; calls of several threads do not affect each other.",
     ["inputs", "histories", "schedules"],
     "All containers, elements (also null ones) and separators, by one thread or several at once.",
     "Not built here (Fast DDS); small fixed sets.",
     [I + "utils.hpp", I + "impl/utils.ipp", I + "types/Tree.hpp", I + "types/impl/Tree.ipp", I + "types/cast.hpp", I + "types/impl/cast.ipp"],
     [("pointee comparison loops", I + "impl/utils.ipp")], [], ["results against naive references"])

prop("P25", "Return codes and QoS policy names convert without confusion",
     "A return code equals another exactly if they stand for the same outcome, is negated ('!') to false for OK only, converts to number and text accordingly, keeps the value it was built from or assigned, and orders consistently; each known code has its own distinct name. A native DDS return code OK, error, no data, not enabled or precondition not met converts to the outcome of the same name, and any other number to unknown. "
     "Each quality-of-service policy identifier is printed with its own distinct name, a mask or set of them is printed with exactly the names of its members, once each, and values outside the known range never lead to undefined behaviour, nor do calls of several threads at once.",
     ["inputs", "programs", "schedules"],
     "All return codes and all policies and sets of them, by one thread or several at once.",
     "Not built here (Fast DDS).",
     [I + "ReturnCode.hpp", S + "ReturnCode.cpp", I + "qos/qos_utils.hpp", S + "qos/qos_utils.cpp"],
     [("wrapper of the native code with a name map", S + "ReturnCode.cpp"), ("switch over policy ids", S + "qos/qos_utils.cpp")], [], ["comparisons and printed names"])

prop("P26", "ROS 2 names mangle and demangle as exact inverses",
     "Mangling a ROS 2 topic name (one that starts with '/'), service name or message or service type name gives the DDS name ROS 2 defines for it (prefix rt, rq or rr, suffix Request or Reply, dds_:: and a trailing underscore), and demangling that gives the original back, for every valid name and kind, whatever number of namespaces it has. "
     "Names that are not ROS 2 names of that kind are returned unchanged, or as empty where the function's documentation says so, and are never half converted. "
     "No input, however malformed or short, and no number of threads that call leads to a crash, a wrong result or to reading out of bounds.",
     ["inputs", "schedules"],
     "All strings, valid names and malformed ones, by one thread or several at once.",
     "Not built here (Fast DDS); some dozens of well formed names.",
     [I + "ros2_mangling.hpp", S + "ros2_mangling.cpp"],
     [("prefix and suffix tables", S + "ros2_mangling.cpp")], [], ["round trips and reference results"])

prop("P27", "Log filters print exactly the entries they should, once each",
     "A log consumer with a given configuration accepts exactly those entries whose severity is at least the configured verbosity and whose category or message matches the regular expression configured for that severity, and prints each accepted entry once, with its text, errors and warnings to the error stream and information to the output stream. "
     "A configuration value replaces the present one exactly when its certainty level is at least as high, per severity. "
     "Later changes of the configuration object do not affect consumers already built.",
     ["inputs", "configurations"],
     "All entries over all configurations.",
     "Not built here (Fast DDS); a few entries through the real logging thread.",
     [I + "logging/BaseLogConfiguration.hpp", S + "logging/BaseLogConfiguration.cpp", I + "logging/BaseLogConsumer.hpp", S + "logging/BaseLogConsumer.cpp", I + "logging/StdLogConsumer.hpp", S + "logging/StdLogConsumer.cpp"],
     [("regex per kind and kind comparison", S + "logging/BaseLogConsumer.cpp"), ("fuzzy levels", S + "logging/BaseLogConfiguration.cpp")], [], ["printed entries per stream"])

prop("P28", "Files are read back completely, and access checks tell the truth",
     "Reading a file as lines gives every line of it once, in order and with all its bytes, except for carriage returns or (then) empty lines when their removal was asked; reading it as one string gives the same lines each ended by a line feed. "
     "A file that cannot be opened or read (a missing one, a directory, a read error) is reported with a PreconditionNotMet exception instead of an incomplete result, and no file is left open. "
     "The access check returns true exactly if the calling user has all the requested permissions on an existing path, and threads that read or check at the same time do not affect each other.",
     ["inputs", "fault_sequences", "schedules"],
     "All file contents and all permission combinations, for privileged and unprivileged users, by one thread or several at once.",
     "Not built here (Fast DDS); one small fixture file.",
     [I + "file/file_utils.hpp", S + "file/file_utils.cpp", I + "utils.hpp", S + "utils.cpp"],
     [("getline loop", S + "file/file_utils.cpp"), ("access()", S + "utils.cpp")], [], ["returned lines and booleans"])

prop("P29", "Python wait handlers wake for the right reason and never deadlock",
     "A wait in the Python wait handlers, whatever values they hold, returns 'condition met' only if the condition held at some instant of the wait, 'timeout' only after the given time, and 'disabled' only if it was disabled at some instant of it. An exception of a condition ends only the wait it was given to. "
     "Every waiter is woken when its condition becomes and stays true or when the handler is disabled, none is missed, and no method ever deadlocks. "
     "Blocking disable returns once no thread is waiting, and the Python timer's elapsed time agrees with the clock.",
     ["schedules", "histories"],
     "All interleavings of waiting, changing, enabling and disabling threads.",
     "Eleven tests with sleeps; none calls blocking disable while a thread is waiting.",
     ["py_utils/py_utils/wait/WaitHandler.py", "py_utils/py_utils/wait/IntWaitHandler.py", "py_utils/py_utils/wait/BooleanWaitHandler.py", "py_utils/py_utils/time/Timer.py", "py_utils/py_utils/debugging/debug_utils.py"],
     [("threading.Condition with predicate", "py_utils/py_utils/wait/WaitHandler.py")], [], ["awake reasons and times"])

prop("P30", "Exceptions and formatted messages carry exactly the text given",
     "Every exception type of the library can be caught as itself, as the library's base exception and as the standard one, and its text is exactly the message it was built with (to its first null character), whatever way it was built, copied, moved, rethrown or passed to another thread; copies are independent. "
     "A formatter yields the concatenation of everything streamed into it in order, with any bytes, unaffected by other formatters, other threads or by being moved. ",
     ["inputs", "programs", "schedules"],
     "All messages and streamed values, and all ways of building and propagating, by one thread or several at once.",
     "Fixed messages for each type.",
     [I + "exception/Exception.hpp", S + "exception/Exception.cpp", I + "Formatter.hpp", I + "impl/Formatter.ipp", S + "Formatter.cpp"],
     [("owned std::string message", S + "exception/Exception.cpp"), ("string stream", S + "Formatter.cpp")], [], ["what() and to_string()"])

prop("P31", "Command history walks back and forth over exactly the stored commands",
     "Going to the previous command walks from the last stored one back to the first and then yields nothing new, and going to the next walks forward again to the last and then yields the empty line. "
     "Empty commands are not stored, storing a command puts the position after it, and any sequence of calls, also on an empty history, is defined and returns a stored command or the empty string, whatever other histories and threads do.",
     ["histories", "inputs", "schedules"],
     "All sequences of add, previous and next, by one thread or by several with objects of their own.",
     "Not built here (Fast DDS); the empty history is never walked twice.",
     [I + "history/CommandHistoryHandler.hpp", S + "history/CommandHistoryHandler.cpp"],
     [("index into the vector of commands", S + "history/CommandHistoryHandler.cpp")],
     [("current_index_", "position in the history", I + "history/CommandHistoryHandler.hpp")], ["returned strings against a model"])

prop("P32", "The Python logger prints each record of its level once; helpers are transparent",
     "The Python logger prints a record exactly once, whole and in the present format, when its level is at least the level set last (in any way, and whatever was logged before), and otherwise not at all, from any number of threads. "
     "A function decorated for debugging is called once with the very same arguments, gives its own result or exception, and its calls are told only at debug level; so is the introspection of objects. ",
     ["histories", "inputs", "schedules"],
     "All sequences of level and format changes and records; all decorated functions, arguments and results.",
     "Only imported by the tests.",
     ["py_utils/py_utils/logging/log_utils.py", "py_utils/py_utils/debugging/debug_utils.py"],
     [("subclass of logging.Logger with its own handler", "py_utils/py_utils/logging/log_utils.py"), ("wrapper function", "py_utils/py_utils/debugging/debug_utils.py")], [], ["printed lines, results of decorated functions"])

prop("P33", "An object joined with a mutex locks like it and behaves like itself",
     "An Atomicable object can be built (with any constructor but copying) and used as the type it extends, and locked as the mutex it extends, with the standard lock classes: at most one thread holds it at a time, or any number of shared holders and no exclusive one for a shared mutex, every waiting thread gets it in the end, and threads that change the object only while they hold it never lose a change or see a partial one. ",
     ["schedules", "inputs"],
     "All interleavings of lockers and all types.",
     "No test.",
     [I + "types/Atomicable.hpp"],
     [("inheritance from the type and the mutex", I + "types/Atomicable.hpp")], [], ["values seen under the lock"])

prop("P34", "The option parser reads command lines and lays out usage as documented",
     "For every table of options, argument vector and setting, the option parser finds exactly the options, arguments, non-options and errors of its documented grammar (short options and groups, attached and separate arguments, long options, abbreviations, single-minus long options, --, unknown options, GNU reordering), in order, without reading or writing outside the vector, the strings and arrays of the announced sizes. "
     "Counting and parsing agree, several vectors accumulate, each option is asked once with the argument it would get, and the list of each index holds exactly its options in order whichever way it is walked. "
     "The usage message contains all the text of the table, aligned in columns, wrapped and separated into tables as documented, for every width and with wide characters, through every kind of writer; parsers of several threads do not affect each other.",
     ["inputs", "configurations", "schedules"],
     "All tables of options, argument vectors, abbreviation lengths, buffer limits, and usage texts in valid UTF-8 of all shapes and widths, by one thread or by several with objects of their own.",
     "No test; a bug needs a particular mixture of groups, arguments, abbreviations and reordering, or a layout whose text does not fit.",
     ["thirdparty/optionparser/optionparser.h"],
     [("Parser::workhorse over the vector, shift() for the reordering", "thirdparty/optionparser/optionparser.h"), ("tagged pointers of the lists", "thirdparty/optionparser/optionparser.h"), ("LinePartIterator and LineWrapper", "thirdparty/optionparser/optionparser.h")],
     [], ["options, buffer and lists filled", "calls of the argument checks", "text written"])

prop("P35", "A watch reports what happens to each file it watches, in order",
     "While a watch exists, every creation, write, truncation and removal of a file (or creation and removal of a directory) in the watched directory whose name matches the whole pattern, or of the one watched file whatever the form of its path, is reported with its name and kind in the order in which it happened (equal reports in a row may be merged), and nothing else is. "
     "Callback runs do not overlap, one that throws or takes long loses nothing, and a copy of a watch reports the same as the original whether that still exists or not. "
     "Once the destructor has returned, which waits for no event, nothing runs, and neither it nor a construction refused for a missing path leaves a thread or descriptor behind.",
     ["schedules", "histories", "inputs"],
     "All sequences of file operations over all names, patterns and path forms, and all lifetimes of watches and copies.",
     "The only test goes through the handler with one file and one change at a time.",
     ["thirdparty/filewatch/FileWatch.hpp"],
     [("inotify thread that parses events, callback thread that takes them over", "thirdparty/filewatch/FileWatch.hpp")],
     [("_callback_information", "events not yet reported", "thirdparty/filewatch/FileWatch.hpp")],
     ["callback invocations", "threads and descriptors of the process"])

prop("P36", "A module built with the CMake helpers is what its settings say",
     "After configure_project every variable and option has the value set for it or its documented default (the version numbers from the version file), and builds in the sources, an unnamed module, an unknown C++ version, both sanitizers at once, and packages that are missing or older than their minimum version are refused. "
     "A library or tool is compiled from all its sources (or exactly those listed) with the flags, macros, directories and packages asked for and installed under the names and directories set, with all its headers and nothing else, its licence and resources, so that another project finds it exactly with compatible versions and gets its version, headers and functions. "
     "Tests exist only when asked for, as one test for each listed case (that runs this case alone with the files it needs), with the labels given to it, and fail when the case fails.",
     ["configurations", "inputs"],
     "All settings, options, versions, source trees and test lists of modules on Linux.",
     "The build of this repository is one configuration.",
     ["cmake_utils/cmake/project/configure_project.cmake", "cmake_utils/cmake/project/read_version.cmake", "cmake_utils/cmake/project/load_project_settings.cmake", "cmake_utils/cmake/compilation/compile_library.cmake", "cmake_utils/cmake/compilation/compile_tool.cmake", "cmake_utils/cmake/test/test_target.cmake", "cmake_utils/cmake/cpp_common/find_external.cmake"],
     [("defaults for variables that are not set", "cmake_utils/cmake/project/load_project_settings.cmake"), ("export of targets and package version file", "cmake_utils/cmake/compilation/compile_library.cmake"), ("a filter for each case", "cmake_utils/cmake/test/gtest.cmake")],
     [], ["variables after configuration", "commands of compilation", "installed files", "results of programs and tests"])

prop("P37", "The log macros queue one whole entry when enabled and evaluate nothing otherwise",
     "In every configuration of the build and wherever it is used, a debug or developer log macro queues exactly one entry (its prefix, then its message, and the category, file, line and function of its use) when information is built in and the verbosity is at least Info, and otherwise queues nothing and evaluates nothing of its message. "
     "Entries of several threads are whole and those of one thread keep their order; a message that throws passes its exception on and leaves no entry. "
     "The macro for users prints exactly its message and an end of line, at once, whatever the build and the verbosity.",
     ["configurations", "inputs", "schedules"],
     "All build configurations, verbosities, places of use and messages.",
     "No test looks at entries of these macros, and the tests are built in one configuration.",
     [I + "Log.hpp"],
     [("conditional definitions of the macros", I + "Log.hpp")], [], ["entries consumed", "standard output"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), a
        for m in p["anchors"]["mechanism"]:
            assert os.path.exists("/repo/" + m["where"]), m
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
