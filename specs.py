"""What each check builds and runs."""
SPECS = {}


def spec(pid, **kw):
    SPECS[pid] = kw


EXC = ["exception/Exception.cpp", "Formatter.cpp", "utils.cpp", "math/math_extension.cpp"]

spec("P01",
     parts=[dict(name="ptr", driver="p01_ptr.cpp", libs=EXC, shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC, defs=["VF_PART=1"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule="Executions of concurrent scenarios (owner operations against lock/use/release in 2-4 threads): each point of each thread delayed in turn, plus random delays; and random operation sequences checked step by step against a model. Non-trivial: an execution in which threads switched at instrumented points (distinct switch sequences are counted), or a distinct operation sequence.",
     )

CONC_RULE = ("Executions of concurrent scenarios: each instrumented point (edge of the code under test or lock/notify call) of each "
             "thread delayed in turn, plus plain runs, random delays and random pairs of delays. An execution is non-trivial when threads "
             "switched at such points; distinct sequences of switches are counted. ")

spec("P02",
     parts=[dict(name="db", driver="p02_database.cpp", libs=[], log=False, shards=4),
            dict(name="patience", driver="patient.cpp", libs=[], log=False, defs=["VF_PART=2"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Each recorded history of operations is checked for linearizability against a map. Sequential operation sequences are distinct by their operations.")

spec("P03",
     parts=[dict(name="event", driver="p03_event.cpp", libs=EXC, shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC, defs=["VF_PART=3"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Recorded histories of set, unset, events, counts, resets and waits are checked for linearizability against {callback, count}. Sequential operation sequences are distinct by their operations.")

spec("P04",
     parts=[dict(name="periodic", driver="p04_periodic.cpp", libs=EXC + ["event/PeriodicEventHandler.cpp"], shards=4),
            dict(name="clock", driver="clock_jumps.cpp", libs=EXC + ["event/PeriodicEventHandler.cpp"], defs=["VF_PART=4"], shards=1, tools=["asan"]),
            dict(name="patience", driver="patient.cpp", libs=EXC + ["event/PeriodicEventHandler.cpp"], defs=["VF_PART=4"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Every run of the callback is stamped with the monotonic clock and compared with the end of the previous run or the enabling.")

spec("P05",
     parts=[dict(name="signal", driver="p05_signal.cpp", extra=["p05_other.cpp"], build_viol=[("duplicate symbol: eprosima", "two-files-do-not-link")], libs=EXC, shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC, defs=["VF_PART=5"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Signals are raised in the process itself; runs of each callback are counted against deliveries.")

spec("P06",
     parts=[dict(name="multiple", driver="p06_multiple.cpp", libs=EXC + ["event/MultipleEventHandler.cpp", "event/PeriodicEventHandler.cpp"], shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC + ["event/MultipleEventHandler.cpp"], defs=["VF_PART=6"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Events fired by inner handlers are counted against runs and event counts of the multiple handler.")

spec("P07",
     parts=[dict(name="log", driver="p07_log.cpp", libs=EXC + ["event/logging/LogConsumerConnection.cpp", "event/logging/LogEventHandler.cpp",
                                                                "event/logging/LogSevereEventHandler.cpp", "testing/LogChecker.cpp"], shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC + ["event/logging/LogConsumerConnection.cpp", "event/logging/LogEventHandler.cpp", "event/logging/LogSevereEventHandler.cpp"], defs=["VF_PART=7"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     assumptions=["Fast DDS is not installed: the logging thread is the stand-in in stub/ (one thread, consumers called one by one under a lock, in queue order), as Fast DDS documents it."],
     rule=CONC_RULE + "The entries each handler passed on are compared with those that a recording consumer saw.")

spec("P08",
     parts=[dict(name="filewatch", driver="p08_filewatch.cpp", libs=EXC + ["event/FileWatcherHandler.cpp"], shards=4),
            dict(name="patience", driver="patient.cpp", libs=EXC + ["event/FileWatcherHandler.cpp"], defs=["VF_PART=8"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Callbacks are compared with the modifications made to files of a scratch directory; descriptors and threads of the process are counted before and after.")

spec("P31",
     parts=[dict(name="history", driver="p31_history.cpp", libs=EXC + ["history/CommandHistoryHandler.cpp"], shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC + ["history/CommandHistoryHandler.cpp"], defs=["VF_PART=31"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=100,
     rule="Calls on a history, compared one by one with a list and a position: every sequence of up to 8 calls, and random long ones. A case is one sequence of calls; distinct ones by calls and results are counted.")

spec("P09",
     parts=[dict(name="stdin", driver="p09_stdin.cpp", libs=EXC + ["event/StdinEventHandler.cpp", "history/CommandHistoryHandler.cpp",
                                                                  "wait/CounterWaitHandler.cpp", "time/time_utils.cpp"], shards=4, link=["-lutil"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule="Key sequences fed through a pipe to the handler, with the output a file, closed, or a terminal of some width, and lines compared with a model of the keys; command lines compared with a model of the splitting. " + CONC_RULE)

WAIT_LIBS = EXC + ["time/time_utils.cpp"]
spec("P10",
     parts=[dict(name="wait", driver="p10_wait.cpp", libs=WAIT_LIBS + ["wait/BooleanWaitHandler.cpp", "wait/IntWaitHandler.cpp"], shards=4),
            dict(name="clock", driver="clock_jumps.cpp", libs=WAIT_LIBS + ["wait/BooleanWaitHandler.cpp", "wait/IntWaitHandler.cpp"], defs=["VF_PART=10"], shards=1, tools=["asan"]),
            dict(name="patience", driver="patient.cpp", libs=WAIT_LIBS + ["wait/BooleanWaitHandler.cpp", "wait/IntWaitHandler.cpp"], defs=["VF_PART=10"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Histories of waits (with their reasons), value changes and enabling are checked for linearizability against {value, enabled}; waiters of every other scenario must return, with the right reason.")

spec("P11",
     parts=[dict(name="consumer", driver="p11_consumer.cpp", libs=WAIT_LIBS + ["wait/CounterWaitHandler.cpp"], shards=4),
            dict(name="clock", driver="clock_jumps.cpp", libs=WAIT_LIBS + ["wait/CounterWaitHandler.cpp"], defs=["VF_PART=11"], shards=1, tools=["asan"]),
            dict(name="patience", driver="patient.cpp", libs=WAIT_LIBS + ["wait/CounterWaitHandler.cpp"], defs=["VF_PART=11"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Histories of the counter are checked for linearizability; elements are followed from producers to consumers.")

POOL_LIBS = WAIT_LIBS + ["wait/CounterWaitHandler.cpp", "wait/IntWaitHandler.cpp", "thread_pool/pool/SlotThreadPool.cpp",
                         "thread_pool/task/TaskId.cpp"]

spec("P12",
     parts=[dict(name="pool", driver="p12_pool.cpp", libs=POOL_LIBS, shards=4),
            dict(name="clock", driver="clock_jumps.cpp", libs=POOL_LIBS, defs=["VF_PART=12"], shards=1, tools=["asan"]),
            dict(name="patience", driver="patient.cpp", libs=POOL_LIBS, defs=["VF_PART=12"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Starts and ends of every task are counted against its emissions and against the state of the pool.")

spec("P13",
     parts=[dict(name="dbqueue", driver="p13_dbqueue.cpp", libs=[], log=False, shards=4)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Histories of producers and one consumer are checked for linearizability against a foreground and a background queue.")

spec("P14",
     parts=[dict(name="pool", driver="p14_pool.cpp", libs=EXC, shards=4, tools=["asan"],
                 build_viol=[("undefined.*PoolConfiguration", "configuration-not-defined"), ("inaccessible base.*IPool|cannot cast 'UnboundedPool", "create-pool-does-not-compile")]),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=14"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=200,
     rule="Sequences of loans and returns, with creations that fail, compared step by step with what is free and what is lent; objects alive are counted. Distinct sequences by the objects delivered.")

spec("P15",
     parts=[dict(name="random", driver="p15_random.cpp", libs=["math/random/RandomManager.cpp", "math/random/TSafeRandomManager.cpp"], log=False, shards=4),
            dict(name="threads", driver="threads.cpp", libs=["math/random/RandomManager.cpp", "math/random/TSafeRandomManager.cpp"], log=False, defs=["VF_PART=15"], shards=1)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Every value is compared with that of a fresh manager of the same seed; histories of the thread-safe manager are checked for linearizability against {seed, position}. Sequences are distinct by their calls and seeds.")

spec("P16",
     parts=[dict(name="singleton", driver="p16_singleton.cpp", extra=["p16_other.cpp"], libs=[], log=False, shards=4),
            dict(name="patience", driver="patient.cpp", libs=[], log=False, defs=["VF_PART=16"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule=CONC_RULE + "Addresses, constructions and what is read of each instance are recorded; histories of racing initializations are checked for linearizability; the order of destruction is observed in processes of their own.")

spec("P17",
     parts=[dict(name="math", driver="p17_math.cpp", libs=["math/math_extension.cpp"], log=False, shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=["math/math_extension.cpp"], log=False, defs=["VF_PART=17"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=100000, min_distinct=500,
     rule="Calls with arguments of all magnitudes, compared with 128-bit arithmetic; a case is distinct by the function and the bit lengths of its arguments.")

spec("P18",
     parts=[dict(name="timer", driver="p18_timer.cpp", libs=["time/Timer.cpp", "time/PausableTimer.cpp"], log=False, shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=["time/Timer.cpp", "time/PausableTimer.cpp"], log=False, defs=["VF_PART=18"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=1000,
     rule="Calls on timers while the clocks of the process are put forward and the wall clock is set, compared with an account on the true clock. Distinct sequences by their calls.")

spec("P19",
     parts=[dict(name="time", driver="p19_time.cpp", libs=EXC + ["time/time_utils.cpp"], shards=4)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=500, min_distinct=200,
     rule="Conversions of timestamps over the whole range, formats and zones, compared with a calendar (and daylight saving rules) of the harness; distinct by format, zone and month. " + CONC_RULE)

spec("P20",
     parts=[dict(name="builder", driver="p20_builder.cpp", libs=EXC, shards=2, tools=["asan"], build_viol=[("refactor_values|indexed_map_from", "refactor-does-not-compile")]),
            dict(name="programs", py="p20_enum.py", shards=4),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=20"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=5000, min_distinct=100,
     rule="Programs with enumerations of 1 to 18 (macros) or more (code generator) elements with generated names, in several namespaces and files, that ask for every name and for strings that are none; tables of builders made and changed at run time. Distinct element lists and tables are counted.")

spec("P21",
     parts=[dict(name="values", driver="p21_values.cpp", libs=EXC, shards=4)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=20000, min_distinct=500,
     rule="Random operations on fuzzy values of six types and on heritable objects of four classes, each followed by every observer, compared with a model; objects alive are counted by class. Copies taken and dropped by four threads. " + CONC_RULE)

spec("P22",
     parts=[dict(name="strings", driver="p22_strings.cpp", libs=EXC, shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=22"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=100000, min_distinct=1000,
     rule="Calls with strings over small alphabets (so that occurrences are frequent, overlap and contain one another) and of any bytes, with the results of naive reference implementations; distinct by function, lengths and number of occurrences, or by pattern.")

spec("P23",
     parts=[dict(name="bytes", driver="p23_bytes.cpp", libs=EXC, shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=23"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=50000, min_distinct=1000,
     rule="Byte strings, texts that are (nearly) base64, quantities of all magnitudes and units, malformed ones, and numbers of bytes, compared with bit by bit and 128-bit references; distinct by function, unit, lengths and outcome.")

spec("P24",
     parts=[dict(name="containers", driver="p24_containers.cpp", libs=EXC, shards=4, tools=["asan"],
                 build_viol=[("MAX", "depth-does-not-compile"), ("element_to_stream|indirection requires pointer", "print-does-not-compile")]),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=24"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=50000, min_distinct=1000,
     rule="Pairs of sets of pointers (with nulls, shared and equal objects), containers of all sizes and separators, sequences of changes of trees, casts in a class hierarchy, each compared with a naive reference; distinct by contents.")

spec("P25",
     parts=[dict(name="codes", driver="p25_codes.cpp", libs=EXC + ["ReturnCode.cpp", "qos/qos_utils.cpp"], shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC + ["ReturnCode.cpp", "qos/qos_utils.cpp"], defs=["VF_PART=25"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=50000, min_distinct=1000,
     rule="Codes made from every DDS code, random numbers and every value, by construction and assignment, compared in pairs and printed; every policy, numbers that are none, and random masks. Distinct numbers and masks are counted.")

spec("P26",
     parts=[dict(name="ros2", driver="p26_ros2.cpp", libs=EXC + ["ros2_mangling.cpp"], shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC + ["ros2_mangling.cpp"], defs=["VF_PART=26"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=100000, min_distinct=1000,
     rule="Topics, services and types with names that ROS 2 allows (many that look like what the mangling adds), their mangled names, and strings made of its words in any order, or of any bytes; distinct strings are counted.")

spec("P27",
     parts=[dict(name="logcfg", driver="p27_logcfg.cpp", libs=EXC + ["logging/BaseLogConfiguration.cpp", "logging/BaseLogConsumer.cpp", "logging/StdLogConsumer.cpp"], shards=4)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=500,
     assumptions=["Fast DDS is not installed: the logging thread and the printing of one entry are the stand-ins in stub/."],
     rule="Entries of every severity made of words that filters look for, against random configurations whose filters are alternatives of (anchored) words, decided without a regular expression library; the streams are captured. Distinct configurations and sequences of changes are counted.")

spec("P28",
     parts=[dict(name="files", driver="p28_files.cpp", libs=EXC + ["file/file_utils.cpp"], shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=EXC + ["file/file_utils.cpp"], defs=["VF_PART=28"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=500,
     rule="Files with lines of all lengths and bytes, read from disk in reads of any size, with interrupted and failing reads, and from pipes; every combination of modes, owners and groups of files and directories asked by root and by four unprivileged users, and tried. Distinct contents and (mode, owner, user) are counted.")

spec("P29",
     parts=[dict(name="wait", py="p29_wait.py", shards=8)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=5000, min_distinct=500,
     rule="Random programs of one to three waiting threads and one or two that change, enable and disable, run with a delay at each line of the handlers and of threading.Condition in turn and with random delays; an execution is non-trivial when threads switched there, and distinct sequences of switches are counted. "
          "Each recorded history is checked for linearizability against (value, enabled). Sequential sequences are distinct by their operations.")

spec("P30",
     parts=[dict(name="exceptions", driver="p30_exceptions.cpp", libs=EXC, shards=4),
            dict(name="threads", driver="threads.cpp", libs=EXC, defs=["VF_PART=30"], shards=1)],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=20000, min_distinct=500,
     rule="Every type of exception with messages of all lengths and bytes, built from a C string, a string and a formatter, copied, assigned, moved, thrown, rethrown, kept in a pointer, nested and passed to other threads; formatters with random values and manipulators against a standard stream. Distinct messages and types are counted. " + CONC_RULE)

spec("P32",
     parts=[dict(name="pylog", py="p32_pylog.py", shards=4)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=10000, min_distinct=500,
     rule="Sequences of changes of level and format and of records of every level on new loggers, with the stream captured; records of several threads; decorated functions with any arguments, results and exceptions. Distinct sequences of changes and records are counted.")

spec("P33",
     parts=[dict(name="atomicable", driver="p33_atomicable.cpp", libs=[], log=False, shards=4),
            dict(name="patience", driver="patient.cpp", libs=[], log=False, defs=["VF_PART=33"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=5000, min_distinct=200,
     rule="Objects with several mutexes, changed by three or four threads under every kind of lock; two counters show lost and partial changes, and holders are counted. " + CONC_RULE)

spec("P34",
     parts=[dict(name="options", driver="p34_options.cpp", libs=[], log=False, shards=4, tools=["asan"]),
            dict(name="threads", driver="threads.cpp", libs=[], log=False, defs=["VF_PART=34"], shards=1)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=20000, min_distinct=5000,
     rule="Random tables of options and vectors of arguments that nearly use them, counted and parsed with every setting into arrays of exactly the size announced, with the strings and arrays ending at the edge of their memory, against a model of the documented grammar that also says which arguments are offered to each check; random usage texts in cells, lines and tables, of all widths and with wide characters, against a model of the documented layout. Distinct (table, vectors, settings) and usages are counted.")

spec("P35",
     parts=[dict(name="watch", driver="p35_watch.cpp", libs=[], log=False, shards=4),
            dict(name="patience", driver="patient.cpp", libs=[], log=False, defs=["VF_PART=35"], shards=1, tools=["asan"])],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=2000, min_distinct=300,
     rule="Random creations, writes, truncations and removals of files and directories with names that patterns nearly match, in a scratch directory watched as a whole, through a pattern, or for one file; the reports are compared with what was done (equal ones in a row merged, as the kernel may do), with callbacks that are slow or throw. Descriptors and threads of the process are counted. " + CONC_RULE)

spec("P36",
     parts=[dict(name="cmake", py="p36_cmake.py", shards=8)],
     evaluations=["steps"], distinct=["sequences"],
     min_evaluations=2000, min_distinct=80,
     rule="Generated modules with random settings, options, versions, trees of sources and headers, dependencies, resources, sanitizers and tests: configured, built, installed, used from another generated project through find_package with many requested versions, and their tests run with ctest; variables, commands of compilation, installed files, outputs of programs and logs of the test cases are compared with the documented ones. Distinct configurations are counted.")

MACRO_BUILDS = [("enforced", 1, ["FASTDDS_ENFORCE_LOG_INFO", "HAVE_LOG_NO_INFO=0"]), ("release", 0, []), ("no-info", 0, ["FASTDDS_ENFORCE_LOG_INFO", "HAVE_LOG_NO_INFO=1"]),
                ("internal", 1, ["__INTERNALDEBUG=1", "VF_DEBUG_BUILD"]), ("internal-release", 0, ["__INTERNALDEBUG=1"]), ("internal-2", 1, ["_INTERNALDEBUG=1", "_DEBUG=1"]), ("debug", 0, ["VF_DEBUG_BUILD"])]
spec("P37",
     parts=[dict(name="logmacros-" + n, driver="p37_logmacros.cpp", libs=[], shards=1, defs=["VF_LOGS=%d" % on] + d, tools=["asan", "tsan"] if n == "enforced" else ["asan"]) for n, on, d in MACRO_BUILDS],
     evaluations=["executions", "steps"], distinct=["interleavings", "sequences"],
     min_evaluations=20000, min_distinct=500,
     assumptions=["Fast DDS is not installed: the logging thread is the stand-in in stub/."],
     rule="Uses of the macros in functions, classes, templates, lambdas and messages that log or throw themselves, in seven configurations of the build and under every verbosity, against a recording consumer and a captured std::cout. Distinct sequences of uses are counted. " + CONC_RULE)
