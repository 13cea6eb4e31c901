# The one table behind properties.jsonl and MANIFEST.json (see mkprops.py).
SEQ = "bounded model checking of the real code: exhaustive enumeration of operation/input sequences against a reference model"
CONC = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler, with happens-before race detection"
SNOTE = "Every case inside the stated alphabet and depth is executed on the real headers (ASan build) and compared with a small reference model; nothing is said about values or lengths outside it."
CNOTE = "Every interleaving at synchronisation points up to the reported preemption bound is executed on the real code (timeouts and spurious orders included as choices); unsynchronised accesses are caught by a vector-clock race detector on each schedule. Sequentially consistent memory is assumed; thread counts and operations per thread are those of the drivers."
NOT_APPLICABLE = {}

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=SEQ, note=SNOTE, state=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=list(state))

P = []
def add(*a, **k): P.append(prop(*a, **k))

# ------------------------------------------------------------------ command line
add("C01", "Command words select exactly one command and pass the rest to its action",
    "Reading the command line from left to right, each word that names (by long title, short title or alias) a direct sub-command of the command selected so far selects it; when the selected command has no sub-commands every further word, and everything after a lone \"--\", is handed to its action in order and unchanged. When the line ends on a command without sub-commands its action runs exactly once and run() returns the action's result; when it ends on a command that still has sub-commands no action runs.",
    ["inputs", "programs"], "all argument vectors over an alphabet of titles, aliases, flags and free words, and several command trees",
    "Tests print a handful of parses; they cannot cover every word sequence over every naming form and tree depth.",
    ["cmdr_impl.hh", "cmdr_cmd_inl.h", "cmdr_app_inl.h"],
    [("app::run argument loop", "cmdr_impl.hh"), ("app::matching_command", "cmdr_impl.hh"), ("app::after_run/invoke_command", "cmdr_impl.hh")],
    ["on_invoke callbacks, their remain_args, run()'s result"])
add("C02", "An option's value is what the command line says, in every documented spelling",
    "For a flag with a value type, --name=v, --name v, -nv, -n v and -n=v (and the same with aliases) all store the value v, also when v is empty or contains \"=\" or blanks; the last occurrence wins and the other arguments keep their meaning. A boolean flag becomes true when given, true with a trailing \"+\", and false with a trailing \"-\". A text that is not a value of the flag's type leaves the flag unchanged and is reported. A flag that is not given keeps its default.",
    ["inputs"], "all sequences of option spellings and values over int, unsigned, bool, string and float flags up to a length",
    "Tests exercise a few spellings; interaction of spellings, repetition and neighbouring arguments is unbounded.",
    ["cmdr_impl.hh", "cmdr_var_t_inl.h", "cmdr_arg.hh"],
    [("app::process_flag", "cmdr_impl.hh"), ("variable operator>>", "cmdr_var_t_inl.h")],
    ["option store values after run(), remain args, invoked action"])
add("C03", "Flags match by longest name, nearest command first, and are counted exactly",
    "A flag argument matches the longest flag name that is a prefix of what is left of it, searching the selected command before its ancestors, and combined short flags (-abc) act like the same flags given one by one. The matched flag's hit count rises by exactly one per occurrence and no other flag's hit count, hit title or value changes.",
    ["inputs", "programs"], "all argument vectors over flags whose names are prefixes of one another, aliases, combined shorts and ancestor/descendant duplicates",
    "Name-prefix collisions and iteration order of the tables only show for particular name sets that tests do not use.",
    ["cmdr_impl.hh", "cmdr_arg.hh"],
    [("app::matching_flag_on", "cmdr_impl.hh"), ("app::process_flag combined loop", "cmdr_impl.hh"), ("arg::update_hit_count", "cmdr_arg.hh")],
    ["arg::hit_count/hit_title, option store"])
add("C04", "Unknown input never runs an action",
    "If the command line contains a word that is not a sub-command where one is expected, or a flag that neither the selected command nor its ancestors define, then (unless the application tolerates unknown input) no action runs, a message naming the offending text goes to the error stream, and arguments after it have no effect. An application that tolerates unknown input ignores it and gives every other argument its usual meaning. The message suggests, under one heading and only when there are any, the titles similar to the offending text that could stand in its place; in feel-like mode the most similar command stands in for an unknown one instead.",
    ["inputs", "configurations"], "all argument vectors with unknown elements at every position, x tolerant/strict x feel-like mode",
    "Every position and kind of unknown input in every context cannot be sampled by fixed tests.",
    ["cmdr_impl.hh", "cmdr_app.hh"],
    [("app::unknown_command_found / unknown_*_flag_found", "cmdr_impl.hh"), ("app::process_command/process_flag", "cmdr_impl.hh")],
    ["action invocations, handler calls, cerr text"])
add("C05", "Exactly one member of a toggle group is on",
    "After any sequence of hits on members of a toggle group, by whatever spelling (also when a member is given with an explicit value that turns it on), only the last member hit is true in the option store, all its siblings are false, and the group's entry on the command that owns it names that member. Before any hit the group's entry follows the member that is true by default, and toggle groups of different commands with the same name do not affect each other.",
    ["histories", "inputs"], "all hit sequences over members of two groups on two commands, with defaults",
    "The invariant must hold after every sequence of toggles, and tests only print one.",
    ["cmdr_impl.hh", "cmdr_cmd_inl.h"],
    [("app::on_arg_matched toggle block", "cmdr_impl.hh"), ("cmd::add toggle bookkeeping", "cmdr_cmd_inl.h")],
    ["option store values of members and group key; cmd::toggle_group"])
add("C06", "A required flag must be given before an action runs",
    "A command's action (and its before/after hooks) runs only if every flag marked required on that command or on any of its ancestors was given on the command line or through its environment variable; otherwise nothing is invoked and run() reports an error (-1, or the library's exception when the application asked for it). Required flags of commands that were not selected do not matter.",
    ["inputs", "configurations"], "all subsets of required flags given, by every spelling and by environment, over a three-level tree",
    "All combinations of levels, subsets and sources are needed.",
    ["cmdr_impl.hh"], [("app::check_required_flags", "cmdr_impl.hh"), ("app::run catch blocks", "cmdr_impl.hh")],
    ["action invocations, run() result"])
add("C07", "Command line overrides environment overrides configuration overrides default",
    "For every flag the effective value is the command line's if given there, else the value of the last of its environment variables that is set (its own automatic variable first, then the declared ones in order), else the value set while loading external configuration, else the declared default. The value keeps the flag's declared type whichever source it came from.",
    ["configurations"], "every combination of the four sources present/absent for flags of several types",
    "Sixteen source combinations per type with interactions; tests cover none of them with assertions.",
    ["cmdr_impl.hh", "cmdr_arg.hh", "cmdr_var_t_inl.h"],
    [("app::prepare/apply_env_vars", "cmdr_impl.hh"), ("app::on_arg_matched", "cmdr_impl.hh"), ("arg::default_value", "cmdr_arg.hh")],
    ["option store value and type after run()"])
add("C08", "Hooks run in order around the action, and the after hooks always run once",
    "When a command is invoked the order is: global before-hook, command before-hook, action, command after-hook, global after-hook. A before-hook returning non-zero skips what follows up to the after-hooks and its result becomes the exit code, otherwise the action's result does; once a command is being invoked, both after-hooks run exactly once whatever the before-hooks and the action do, including throwing; the first exception decides the result (run() gives -1 for a std::exception). Post-run callbacks run exactly once per run() whatever happens.",
    ["fault_sequences", "configurations"], "every assignment of {absent, ok, non-zero, throws} to the five callbacks",
    "The failure combinations of five callbacks are a product space that tests do not enumerate.",
    ["cmdr_impl.hh", "cmdr_app_inl.h"], [("app::invoke_command", "cmdr_impl.hh"), ("app::run post_runner", "cmdr_impl.hh")],
    ["callback trace, run() result"])
add("C09", "Running is repeatable: a reset application behaves like a fresh one",
    "After reset() an application to which the same commands and flags are added again gives, for any command line, the same action, values, hit counts, toggle state and (apart from column widths) output as a newly created application. No state of previous runs shows through and no destroyed definition is ever used.",
    ["histories"], "all pairs of (first command line, second command line) from the alphabet, reset in between, against a fresh application",
    "State leaks show only for particular pairs of runs.",
    ["cmdr_impl.hh", "cmdr_app_inl.h"], [("app::reset", "cmdr_impl.hh")],
    ["action trace, store, hit counts, toggle groups"])
add("C10", "Duplicate names are rejected; lookups find exactly the defined names",
    "Defining a command or flag whose long title or alias is already a long title or alias of a sibling of the same kind, or whose short title is already a short title of one, throws the matching duplicate error and leaves nothing of the rejected definition behind; names on different levels do not clash. Looking up a command or flag by long title finds the one defined with it, extended lookup also finds it by short title and by alias, and an undefined name is reported as not found.",
    ["programs"], "all pairs/triples of definitions over a tiny name alphabet, then all lookups",
    "The set of definitions is unbounded; each colliding combination has its own path.",
    ["cmdr_cmd_inl.h", "cmdr_cmd.hh"], [("cmd::add(arg)/add(cmd)", "cmdr_cmd_inl.h"), ("cmd::find_flag/find_command", "cmdr_cmd_inl.h")],
    ["exceptions thrown, lookup results"])
add("C11", "Help and information requests show what is visible and run no action",
    "When help is requested at any position of an otherwise valid command line, or the line stops at a command with sub-commands, the help screen of the selected command is printed with every non-hidden sub-command and every non-hidden flag of it and its ancestors, and no hidden one unless help is requested three times or more; no action runs. A version, build-information or tree request anywhere on a valid command line likewise prints that information and runs no action; the last request wins.",
    ["inputs", "programs"], "help and info flags in every spelling at every position of command lines over trees with hidden and visible items, groups and toggle groups",
    "Which items appear depends on tree shape, grouping, hiding and position of the request.",
    ["cmdr_impl.hh", "cmdr_cmd_inl.h", "cmdr_app_inl.h"], [("app::print_usages/print_cmd", "cmdr_impl.hh"), ("cmd::print_commands/print_flags", "cmdr_cmd_inl.h"), ("app::after_run", "cmdr_impl.hh")],
    ["stdout text, action invocations"])

add("C12", "Callbacks report every definition, match and hit once, in order",
    "Every flag or command that is accepted is reported once to each added-handler, with its default already in the option store, and a rejected one never. While a line is parsed, each matched-handler is called once per matched flag or command, in the order of the line, with hit count, title and value already updated; then the flag's or command's own hit handler is called once, with the selected command, the flag and the arguments that follow. A hit handler that answers below OK or at least Abortion ends the run there: result 0, no action, no further callback. A request for a registered custom action, made by a hit handler or by cmdr_requests_exception from the invocation, runs that action once instead of the command, and its result is the result of run().",
    ["inputs", "histories"], "all lines over an alphabet with every answer of every hit handler, and all sequences of accepted and rejected definitions",
    "Which callback runs when depends on the whole line, on combined flags and on the answers of earlier callbacks; tests register one handler.",
    ["cmdr_impl.hh", "cmdr_cmd_inl.h", "cmdr_app.hh"], [("app::process_flag/process_command", "cmdr_impl.hh"), ("app::on_arg_added/on_arg_matched/on_cmd_matched", "cmdr_impl.hh"), ("cmd::add", "cmdr_cmd_inl.h")],
    ["calls of the callbacks and their arguments"])
add("C13", "Colours can be switched off everywhere; the debug report lists what was hit",
    "With --no-color (-nc), PLAIN or NO_COLOR, nothing run() prints - help, tree, reports, dumps, messages - contains an escape sequence, and apart from escape sequences the text, the result and the actions are the same as with colours; switched back on, or in the next application, colours are there again. A ~~debug request runs no action and lists exactly the flags that were hit, each with its number of hits, titles, the title hit last, whether it was hit as special, long or from the environment, its key and value; from two requests on it also dumps the option store, without the keys of the application unless --cli is given.",
    ["inputs"], "all requests and messages under every switch, compared with the coloured run; the report on all lines over an alphabet",
    "Every printing path has to honour the switch; tests look at none of them.",
    ["cmdr_impl.hh", "cmdr_app_inl.h", "cmdr_cmd_inl.h", "cmdr_terminal.hh"], [("app::print_debug_info_screen/on_invoking_print_cmd", "cmdr_app_inl.h"), ("app::colorizer/print_usages", "cmdr_impl.hh")],
    ["stdout and stderr text"])

# ------------------------------------------------------------------ option store and values
add("C14", "The help screen shows every text it was given, complete and in columns",
    "The help screen of a command shows, each once: the program's name and version with author and copyright (or the header set); the command's description and examples (with ~ as the program's name) where there are any; the usage with the command's path; for each listed command all its titles and its description; for each listed flag its titles with the name of its value, its description, its environment variables and its default. Descriptions are complete and all start in one column, also their wrapped lines, not before the minimal tab stop; group titles appear once, without their ordering number, above their members; tail line and ending appear unless switched off; the descriptions in the command tree are aligned.",
    ["inputs", "programs", "configurations"], "all combinations of the program's texts and screen settings; all shapes (titles, aliases, value names, defaults, variables, groups, hidden, long descriptions) of two flags and two or three commands; all shapes of small trees",
    "Texts, shapes and settings multiply; the tests print help screens without looking at them.",
    ["cmdr_impl.hh", "cmdr_cmd.hh", "cmdr_app.hh", "cmdr_arg.hh"], [("app::print_usages, app::print_cmd", "cmdr_impl.hh"), ("opt::cmd::print_commands, print_flags", "cmdr_cmd.hh")],
    ["printed help screen"])
add("C15", "The generated bash completion offers exactly what the application accepts",
    "The script that `generate shell` makes for bash is valid, has no unfilled placeholder and registers one function for the executable. After any path of commands of the line, each called by any of its titles, it offers exactly the titles (long, short, aliases, hidden ones too) of the commands and flags accepted there that begin with what was typed. The script is written to the file named by the executable, or by --name, every dash replaced by an underscore: in the current directory, or with --feel-like in the first completion directory that can be written. --stdout prints it; --dry-run changes no file; --drop removes that file and writes nothing; no other file is touched; the options work alike as flags and as environment variables; for another shell nothing is made and that is said.",
    ["inputs", "programs", "configurations"], "all trees over kinds of commands and flags x all paths x typed prefixes, asked in a real bash; all combinations of the generator's options as flags or variables x initial states of the directories x executable names",
    "Trees, paths and options multiply, and the script has to agree with the application it is generated from; the tests never generate it.",
    ["cmdr_app_inl.h", "cmdr_impl.hh", "cmdr_cmd.hh"], [("app::on_generate_shell_completion, generate_bash_completion", "cmdr_app_inl.h"), ("app::print_cmd (shell completion)", "cmdr_impl.hh")],
    ["files written and removed", "stdout", "candidates offered by bash"])
add("S01", "The option store is a faithful map from dotted keys to typed values",
    "After any sequence of sets, get of a key returns the last value set for it with its type, has reports exactly the keys that were set, and reading a key that was never set gives an empty value and does not disturb other keys. Setting or reading one key never changes another key's value.",
    ["histories"], "all operation sequences over a small set of overlapping dotted keys and value types",
    "Sequences of sets over overlapping key paths are unbounded; tests only print the tree.",
    ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], [("nodeT::_set/get/has", "cmdr_var_t_inl.h"), ("storeT", "cmdr_var_t.hh")],
    ["store get/has/set results"])
add("S02", "Prefix views, walks and dumps of the store agree with its content",
    "For every prefix, prefixed get/set/has address exactly the key formed by prefix and key; a full-key walk or a full-key dump lists every stored value exactly once under its dotted key, in sorted order.",
    ["histories"], "all store contents over a small key universe x all prefixes and filters",
    "Needs every content shape (leaf, branch, leaf-and-branch) for each view.",
    ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], [("nodeT::walk*/dump*", "cmdr_var_t_inl.h"), ("storeT prefixed accessors", "cmdr_var_t.hh")],
    ["walk callbacks, dump text"])
add("S03", "The option store can be used by several threads at once",
    "Concurrent sets (through the store), gets and existence tests, where no thread gets a key while another sets that same key (keys may share a path and be created on the fly), behave as some sequential order of the calls, without data races, lost keys or deadlock.",
    ["schedules"], "all interleavings of 2-3 threads with 1-2 store operations each up to the preemption bound",
    "Races depend on schedules that tests do not control.",
    ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], [("nodeT lock (shared mutex)", "cmdr_var_t_inl.h")],
    ["return values and final content"], technique=CONC, note=CNOTE)
add("V01", "Printing a value and reading it back gives the same value",
    "For booleans, integers of every width, floating-point numbers of up to six significant digits, complex numbers of such parts, texts, and arrays of these (of non-empty texts without commas and brackets), writing a value as text and parsing that text into a value of the same type gives the same value back, writing leaves the stream's formatting as it was, and parsing the documented text forms (true/false/yes/no/on/off/1/0, decimal numbers, plain and quoted strings) gives the documented value.",
    ["inputs"], "all values of small domains per type and all token forms",
    "Only a few literals are tested, without assertions on most.",
    ["cmdr_var_t_inl.h", "cmdr_var_t.hh", "cmdr_chrono.hh"], [("variable::format/parse", "cmdr_var_t_inl.h")],
    ["as<T>(), as_string(), operator>>"])
add("V02", "Typed access to a value is checked and never alters it",
    "Reading a value as the type it holds returns it unchanged, reading it as another type throws an error instead of reinterpreting it (except that a text may be read as a C string, and anything else read as one from a modifiable value gives the empty C string), and neither reading nor copying nor moving values changes what other values hold. An unset value reports itself empty.",
    ["inputs", "histories"], "all pairs (stored type, read type) and all short copy/move/assign sequences",
    "The pair table and copy/move sequences are not covered by tests.",
    ["cmdr_var_t.hh", "cmdr_var_t_inl.h"], [("variable::as/cast_as/emplace/assign", "cmdr_var_t.hh")],
    ["as<T>() results and exceptions"])

# ------------------------------------------------------------------ concurrency
add("T01", "The thread pool runs every task it accepted exactly once",
    "No task queued on a pool is executed more than once. Every task queued on a running pool by any thread is executed exactly once by a pool thread and its future becomes ready with the task's result or its exception, unless the pool is joined or destroyed first: a task still waiting in the queue then may be dropped, and its future reports a broken promise instead of staying pending. One task's failure does not prevent others from running. join() returns only when no pool thread is executing a task, never deadlocks, and a task queued after it is never run; destroying the pool needs no further calls and leaves no future pending.",
    ["schedules", "fault_sequences"], "all schedules of 1-2 producers, 1-2 workers, 1-3 tasks, with join/destruction racing, throwing tasks",
    "A test observes one schedule per run.",
    ["cmdr_pool.hh"], [("thread_pool::runner/queue_task/join", "cmdr_pool.hh")],
    ["task execution counts, futures, termination"], technique=CONC, note=CNOTE)
add("T02", "The lite thread pool finishes all accepted work before it is destroyed",
    "Every task accepted by enqueue is executed exactly once, with one worker in the order of enqueueing, its future yields its result or exception, and destruction returns only after all accepted tasks have finished. Enqueueing while the pool is stopping is either accepted and executed or refused with an error, never lost.",
    ["schedules", "fault_sequences"], "all schedules of producers, workers and destruction within the drivers",
    "A test observes one schedule per run.",
    ["cmdr_pool.hh"], [("thread_pool_lite::enqueue/~thread_pool_lite", "cmdr_pool.hh")],
    ["task execution order and counts, futures"], technique=CONC, note=CNOTE)
add("T03", "The message queue delivers each message to exactly one consumer",
    "With any number of producers and consumers each pushed message is popped exactly once; no message is lost, duplicated or invented. A pop on an empty queue waits until a message arrives or the queue is cleared; after clear() waiting and later pops return no message instead of blocking forever. Emptiness queries running beside producers and consumers are safe.",
    ["schedules"], "all schedules of 2-3 threads with 1-3 queue operations each",
    "Loss and duplication depend on interleavings.",
    ["cmdr_pool.hh"], [("threaded_message_queue", "cmdr_pool.hh")],
    ["popped messages"], technique=CONC, note=CNOTE)
add("T04", "Condition waits wake exactly when their condition is set, or time out",
    "A wait without a time limit returns only after the condition was set, never misses a set made before or during the wait, and never reports failure; a timed wait returns success if and only if the condition was set, and false only after its time limit elapsed. One set wakes at least one waiter, a set-for-all wakes all waiters, and counting waits are satisfied exactly when the count is reached. A timer killer's wait ends early exactly when it was killed, and its state may be queried by any thread.",
    ["schedules"], "all schedules of 1-2 waiters and 1-2 setters, timeouts as explicit choices",
    "Missed wake-ups need one particular interleaving.",
    ["cmdr_pool.hh"], [("conditional_wait::wait/wait_for/set/set_for_all", "cmdr_pool.hh"), ("timer_killer", "cmdr_pool.hh")],
    ["wait results, termination"], technique=CONC, note=CNOTE)
add("T05", "Thread-safe observables notify exactly the registered observers",
    "When observers are added, removed and notified from several threads, an observer registered before a notification starts and not removed until it ends is called exactly once by it, an observer never registered or already removed before it starts is not called, and there is no data race, lost registration or deadlock, also when observers add or remove observers while they are being notified.",
    ["schedules"], "all schedules of add/remove/emit from 2-3 threads",
    "Depends on interleavings between registration and notification.",
    ["cmdr_common.hh"], [("util::observable (thread-safe specialisation)", "cmdr_common.hh")],
    ["observer call counts"], technique=CONC, note=CNOTE)
add("T06", "A singleton is constructed once, before any thread sees it",
    "However many threads first ask for a singleton at the same time, exactly one instance is constructed and all callers get that same fully constructed instance. A first construction that throws leaves nothing behind and is retried by the next caller.",
    ["schedules"], "all schedules of 2-3 threads making the first call",
    "First-use races need a specific interleaving.",
    ["cmdr_common.hh"], [("util::singleton / singleton_with_optional_construction_args", "cmdr_common.hh")],
    ["instance identity and construction count"], technique=CONC, note=CNOTE)

# ------------------------------------------------------------------ data structures and utilities
add("D01", "The priority queue pops in priority order, first-in first-out among equals",
    "For every sequence of pushes and pops the queue pops the element with the highest priority (the lowest for the reversed ordering) and, among equal priorities, the one pushed first; the front element is the next one popped, iteration visits all elements once in pop order, and size and emptiness are exact. Popping an empty queue yields the null value.",
    ["histories"], "all push/pop sequences up to a depth over a few priorities, both orderings",
    "Order after partial draining depends on the history; tests print one sequence.",
    ["cmdr_priority_queue.hh"], [("priority_queue::_push, element::pop/next", "cmdr_priority_queue.hh")],
    ["pop/front/iteration/size"])
add("D02", "Durations print exactly and leave the stream as it was",
    "Printing a non-negative duration shows its exact value: the printed components, read back, add up to the duration with no digit lost or misplaced, for every magnitude from nanoseconds to days and whatever formatting the stream has, and printing does not change the stream's formatting state. (A zero duration may print as nothing.)",
    ["inputs"], "a grid of all combinations of unit components at boundary values, in several duration types",
    "Tests print a few values; boundary combinations (1s + 5ns, 59.9..s) are not covered.",
    ["cmdr_chrono.hh"], [("chrono::format_duration", "cmdr_chrono.hh")],
    ["printed text"])
add("D03", "Calendar helpers agree with the proleptic Gregorian calendar",
    "For every date and in every time zone, with or without daylight saving time, the last-day-of-month and last-day-of-year helpers, the date comparison and the conversions between time points and calendar fields agree with the civil calendar. A time prints its exact calendar fields in the zone and precision that were chosen and leaves the stream's formatting state as it was, and formatting then parsing a time point gives it back to the second.",
    ["inputs"], "every day of several centuries in six time zones, times around every DST change, all zone and precision choices",
    "Month-end and leap rules vary by date; tests check the current date only.",
    ["cmdr_chrono.hh"], [("chrono::last_day_at_this_month, compare_date_part, parse_datetime, format_time_point", "cmdr_chrono.hh")],
    ["returned time points, printed text"])
add("D04", "String utilities compute their mathematical definition",
    "Trimming, prefix and suffix tests, splitting, joining, replacing, quoting/stripping, case conversion, padding, decimal conversion and reading up to a delimiter return exactly what their definition says for every input, without reading outside the string. (Splitting drops the empty piece behind a final delimiter.)",
    ["inputs"], "all strings up to a length over an alphabet of letters, separators, quotes and blanks x all patterns",
    "Edge cases (empty, all-quotes, overlapping pattern) are numerous; tests use samples.",
    ["cmdr_string.hh"], [("string::* helpers", "cmdr_string.hh")],
    ["returned strings"])
add("D05", "Environment expansion replaces exactly the variable references and terminates",
    "Expanding a text replaces every $NAME and ${NAME} by the variable's value (empty if unset), leaves everything else unchanged, and always terminates. Values are inserted as they are: references inside a value are not expanded again.",
    ["inputs", "configurations"], "all texts over an alphabet of $, braces, names and literals x environments including self-referring values",
    "Texts x environments is a product space.",
    ["cmdr_string.hh"], [("string::expand_env", "cmdr_string.hh")],
    ["returned text"])
add("D06", "Similarity scores are sound",
    "The similarity of two non-empty texts is 1 exactly when they are equal, lies between 0 and 1, is symmetric, and equals the Jaro definition; equal texts always count as matched.",
    ["inputs"], "all pairs of strings up to a length over a small alphabet",
    "All pairs are needed for symmetry and range.",
    ["cmdr_string.hh"], [("text::jaro_winkler_distance", "cmdr_string.hh")],
    ["calculated distance, matched()"])
add("D07", "The factory creates exactly the registered product",
    "Creating by a registered name yields one new object of exactly that class built from the given arguments and constructs no other product; the products of a factory (classes that are no template instances) have distinct names, and creating by any other name yields nothing.",
    ["programs", "inputs"], "all registered types x creation forms x names including unknown ones",
    "Each name/argument combination takes its own path.",
    ["cmdr_utils.hh", "cmdr_dbg.hh"], [("util::factory::factory, util::id_name", "cmdr_utils.hh"), ("debug::type_name", "cmdr_dbg.hh")],
    ["dynamic type and arguments of created objects"])
add("D08", "Signals and observables call each registered slot once per emission, in order",
    "For any sequence of connects, removals and emissions on one thread, each emission calls exactly the currently registered slots or observers, once each, in registration order, every one with the arguments that were emitted.",
    ["histories"], "all sequences of add/remove/emit up to a depth",
    "Histories of add/remove/emit are unbounded.",
    ["cmdr_common.hh"], [("util::signal::emit", "cmdr_common.hh"), ("util::observable::emit", "cmdr_common.hh")],
    ["slot call trace"])
add("D09", "Scope guards undo their effect exactly once on every exit path",
    "Deferred actions run exactly once when their scope ends, normally or by an exception; redirections of standard streams and saved stream flags are restored exactly as they were when the guard ends, also when guards are nested.",
    ["histories", "fault_sequences"], "all nestings of guards up to a depth x normal/exception exit at every point",
    "Exit points x nestings form a product space.",
    ["cmdr_common.hh", "cmdr_ios.hh", "cmdr_os_io_redirect.hh"], [("util::defer", "cmdr_common.hh"), ("ios flags saver", "cmdr_ios.hh"), ("os::pipe_* redirections", "cmdr_os_io_redirect.hh")],
    ["action counts, stream state, captured text"])
add("D10", "The fixed-capacity string holds what fits and never overruns",
    "A fixed-capacity string constructed or assigned from any text holds that text when it fits and its longest fitting prefix otherwise, reports its length exactly, compares equal exactly to equal contents, is always terminated, and never touches memory outside itself.",
    ["histories", "inputs"], "all lengths around the capacity x all operation sequences up to a depth, for several capacities",
    "Boundary lengths x operations; not tested.",
    ["cmdr_small_string.hh"], [("small_string_preallocated", "cmdr_small_string.hh")],
    ["content, size, memory sanitizer"])
add("D11", "A memory mapping shows the file's bytes and releases what it took",
    "Mapping an existing file exposes exactly its bytes and size, and writes through a shared mapping reach the file; closing, destroying, copying or moving mappings releases each mapping and file descriptor exactly once and never touches any other descriptor. A mapping of an empty, missing or unusable file is not open and leaves nothing open. A mapping of a temporary file starts filled with zeros and removes its own file at the end.",
    ["fault_sequences", "histories"], "all sequences of open/close/move/destroy over files of boundary sizes x failing system calls",
    "System-call failures and move sequences are not reachable in tests.",
    ["cmdr_mmap.hh"], [("mmap::open/close/move", "cmdr_mmap.hh")],
    ["mapped bytes, open descriptors, mappings"])
add("D12", "Running a child process returns its complete output and its exit status",
    "For any command the captured standard output and standard error are exactly what the child wrote, of any size, and its exit status (128 + n for signal n) is reported; runs, successive or alive at the same time, also in other processes, do not mix their outputs, and leave no temporary file or descriptor behind.",
    ["inputs", "histories"], "all output sizes around buffer boundaries x exit codes x sequences of runs",
    "Buffer-boundary sizes and run sequences are not sampled by tests.",
    ["cmdr_process.hh"], [("process::exec", "cmdr_process.hh")],
    ["stdout text, exit code"])
add("D13", "Colour escapes are well formed and disappear when colours are off",
    "Whatever styles and colours are combined, stripping the escape sequences from the output gives back exactly the text (padded as the stream is told to), every sequence is well-formed, the text looks as the combined operations say, the style is reset after the text unless that is turned off, and with colours disabled the output is exactly the text.",
    ["inputs", "programs"], "all combinations of styles, foreground and background colours up to a depth",
    "Combinations are a product space; tests print samples.",
    ["cmdr_terminal.hh"], [("colorize", "cmdr_terminal.hh")],
    ["generated text"])
add("D14", "Function adapters call their target once with exactly the given arguments",
    "A function adapted by bind_this, easy_bind, partial, curry, bind, bind_tie, a lambda-to-function conversion or a pipe is called once per call, on the bound object, with the bound arguments followed by the given ones (a piped value comes first), unchanged and in order, and its result is returned; references stay references, lvalue arguments stay intact, what can only be moved is moved. A value visitor is called with the value exactly when its type is listed. Ownership conversions keep the object, or for shared to unique its content, and destroy each object exactly once.",
    ["programs", "histories", "inputs"], "every adapter x every split of the arguments into bound and given x all argument values x all histories of two instances with copies in between; all held types x lists of types; all ownership conversions",
    "The number of adapters x splits x value categories; hardly tested.",
    ["cmdr_common.hh", "cmdr_utils.hh", "cmdr_pipeable.hh"], [("util::bind_this, util::easy_bind, util::cool::partial, curry, bind_tie", "cmdr_common.hh"), ("pipeable::piped", "cmdr_pipeable.hh"), ("std::to_unique, std::to_shared", "cmdr_common.hh")],
    ["calls of the target, results, object lifetimes"])
add("D15", "File helpers do what they report, and temporary names are unique",
    "After any sequence of writing, appending, ensuring, deleting and sparse creation of files and directories, the directory holds exactly what the sequence made, existing files are not touched by ensuring them, success is reported exactly when the operation succeeded, a file's whole content is read whatever was read before, and existence, status and sparseness are those of the file (a missing one has an all-zero status). Joining and splitting well-formed relative and absolute paths are exact. No two calls for a temporary name, from any threads, return the same one; the directory it names exists.",
    ["histories", "inputs", "schedules"], "all histories of file operations on four nested names up to a depth; all paths of up to four (thorough five) components; all sequences of temporary names; all schedules of 2-3 threads asking for names up to a preemption bound",
    "Histories including failures (missing parent, file in the way) and interleavings are not tested.",
    ["cmdr_path.hh"], [("io::create_sparse_file, io::read_file_content, io::delete_file", "cmdr_path.hh"), ("path::ensure_file, path::ensure_directory, path::stat", "cmdr_path.hh"), ("path::tmpname_autoincr, path::tmpname_for_stderr", "cmdr_path.hh")],
    ["directory content, file bytes, returned values"])
add("D16", "Diagnostics are complete, go where they are told and change nothing",
    "A container or tuple is printed completely, in order, to the given stream and to no other. A log line holds the time, the whole message, file, line and function. An exception of the library tells its text, file and line, is caught as each of its bases, and keeps them and its saved stack trace when copied, rethrown or printed any number of times; a trace prints one line per frame, within the limits asked for, for any text of the frames. A chain of nested exceptions is reported once each, outermost first. After any series of installed signal and termination handlers, the function installed last for what happens is called once with the signal and the process exits with 1. Names of types are exact and hashes combine as defined.",
    ["inputs", "histories"], "all containers and tuples of a few values up to a length; all frame texts up to a length over the characters that matter and all frames of parts; all message lengths; all chains of nested exceptions; all histories of up to two (thorough four) installed handlers x ten ways to end",
    "Texts, lengths, chains and histories are product spaces; the existing tests print without checking.",
    ["cmdr_dbg.hh", "cmdr_defs.hh", "cmdr_log.hh", "cmdr_types.hh"], [("debug::print_stacktrace, save_stacktrace, dump_stacktrace, type_name", "cmdr_dbg.hh"), ("exception::cmdr_exception", "cmdr_dbg.hh"), ("detail::vector_to_string, detail::print_tuple, std::hash_combine", "cmdr_defs.hh"), ("log::detail::Log::vdebug", "cmdr_log.hh")],
    ["text written to each stream, what(), saved frames, calls of the handlers, exit status"])
