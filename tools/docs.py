# What each check specifies, within what bounds, and what lies outside them. Used for the evidence files and DESIGN.md.
# id: (oracle, quick bounds, thorough bounds, outside the bounds)
DOCS = {
'C01': ("The harness computes the decimation factor and the expected start time and length of every step itself and checks every `do_step` of every fake slave, and the list of finished simulators and the simulated time after every base step.",
        "2 simulators, 5 base steps, every pair of factors 1..3 (set through hints or explicitly, also changed between steps); all 24-bit base step sizes and hints with one simulator; 2 workers, 2 simulators, 2 steps, every schedule with up to 2 preemptions",
        "3 simulators, 9 steps, factors 1..4; 40-bit step sizes, 8 steps; 3 simulators with 2 workers",
        "Step sizes of 2^40 ns (18 min) and more; more simulators, steps, workers and preemptions; hardware memory reordering (the schedules are sequentially consistent, but unsynchronised accesses are reported as data races)."),
'C02': ("Every value the target slave is given is compared bit for bit with the value the source slave had after its latest step; sync points are computed from the factors; between them any delivery is a violation. Function inputs and outputs likewise.",
        "all values of all four types (symbolic 64/32/1-bit values, strings of varying length), factors 1..3, 6 steps; source or target a function; chains of 3 functions and simulators; disconnection at any step",
        "factors 1..4, 12 steps, chains of 5", "Longer chains, more than two connections per simulator, embedded NULs in strings."),
'C03': ("The rule of the statement, evaluated by the harness for every request, decides whether the request must be accepted; afterwards a step shows which source drives the target.",
        "every combination of existing/unknown entity, reference, type and causality on both ends, for simulators and functions; sequences of 3 requests, including ones refused",
        "sequences of 4 requests", "Calculated parameters and parameters as ends (system_structure, C20, also accepts those)."),
'C04': ("A log of every callback of observers and manipulators is compared with the expected one, with all arguments.",
        "2 simulators, 2 observers and 2 manipulators added in any order before and between steps, symbolic start time and step size, 2 steps, a slave failing at any step",
        "3 simulators, 3 steps", "More participants; observers that call back into the execution (C05)."),
'C05': ("The number of steps, the result and the final time are computed by the harness from start, step and end time; the stop request is made from an observer, a manipulator, a slave or another thread.",
        "all start/end/step durations below 2^20 ns with up to 3 steps, a failing step anywhere, calling again afterwards; with simulate_until_async a stop request from another thread in every schedule with up to 2 preemptions",
        "6 steps; 3 preemptions", "Times of more than 20 bits; several concurrent simulate_until calls (not allowed by the interface)."),
'C06': ("A model of the pending values per variable, compared with every set_variables/get_variables call of the slave.",
        "every sequence of 4 operations out of exposing, setting, stepping and iterating, on variables of all four types with symbolic values", "6 operations",
        "Values read from a variable exposed for getting after the last step, before the next one (the library documents that they are not there yet)."),
'C07': ("A model of installed modifiers; modifiers are symbolic functions (value and step length are passed through and recorded).",
        "every sequence of 4 operations out of installing, removing, setting, iterating and stepping, on input and output variables of all four types, exposed or not", "6 operations",
        "Modifiers that throw."),
'C08': ("A state machine of the slave interface inside every fake slave; whatever call fails, the harness checks that the caller gets an error, that no time passed, and that the process survives (std::terminate is a violation).",
        "2 simulators, 2 steps, any one slave call failing (exception or failed/discarded result); with 1 worker every schedule with up to 2 preemptions", "3 simulators and 3 steps; 2 workers",
        "Several failing calls in one step; the calls after a failure, other than destruction."),
'C09': ("The override in force is tracked per variable and compared with the values delivered and read after every step, through an execution with connections.",
        "3 steps with up to 2 override/reset operations before each, all four types, inputs and outputs, symbolic values; overrides from another thread in every schedule with up to 6 preemptions", "4 steps; 20 preemptions", "More than two variables per type."),
'C10': ("The harness keeps the list of events and works out which are due, with event, end and step times symbolic.",
        "3 events with any times (20-bit), with or without end time, 3 steps, load and abort at any step; within an execution, 4 steps", "4 events, 5 steps; 7 steps",
        "Loading a scenario while another one is running; scenarios that name unknown simulators; the scenario file (C11)."),
'C11': ("The parsed events are executed on a recording manipulable; variable, kind of modifier and the modifier's effect on a symbolic value are compared with the document.",
        "one event with every combination of present/absent/wrong model, variable, type, causality, action and value kind, and symbolic numbers; documents of 2 events with defaults and end time", "3 events",
        "The YAML library is a model (nodes, not text): syntax errors of YAML and JSON files are outside."),
'C12': ("A list of all samples recorded, cut to the buffer size, is compared with what the observer returns.",
        "3 operations out of starting/stopping observation and steps, followed by any query, buffer sizes 1..2, real and integer; step numbers for all time intervals after up to 3 steps; a reader in another thread in every schedule with up to 6 preemptions", "5 operations, buffers of up to 3, 5 steps; 20 preemptions", "Buffer size 0 is refused by the library."),
'C13': ("The values each slave had when it last finished a step, compared for all four types and request orders.",
        "2 simulators with factors 1..2, 3 steps; a reader in another thread in every schedule with up to 6 preemptions", "6 steps, factors 1..3; 20 preemptions", "Observers added after the simulation has started."),
'C14': ("The lines expected in each file, written by the harness while it steps, compared with the files in the (modelled) file system; numbers are compared as tokens, i.e. as the values formatted.",
        "4 steps with simulator factors 1..2 and decimation 1..2, five kinds of configuration, recording stopped and started at any step; XML configuration files with present/absent/unknown variables; stop from another thread in every schedule with up to 6 preemptions", "6 steps, factors and decimation 1..3; 20 preemptions", "Decimation factor 0; failures of the disk; how the stream formats a number."),
'C15': ("An independent recogniser of the RFC 3986 grammar written in the harness, and recomposition.",
        "every byte string of up to 4 bytes; every combination of components of up to 1 byte each", "6 bytes; 2 bytes per component", "Longer strings (the scanners have no state that depends on more)."),
'C16': ("The pseudo code of RFC 3986 section 5.2, written down independently.",
        "base paths of 3 and reference paths of 4 symbolic bytes, and any base/reference of 3 and 2 bytes; all combinations of component templates with dot segments, empty components and queries", "5 and 6 bytes; 4 and 4", "Longer symbolic strings. A merged path that starts with `//` without an authority is what the RFC prescribes, too."),
'C17': ("Round trips and an independent decoder.",
        "3 bytes to encode with 1 exception, 4 bytes to decode; paths of 2 bytes and file URIs in all forms", "4 bytes with 2 exceptions; 7 bytes; paths of 4 bytes", "Windows paths (not compiled here)."),
'C18': ("The formula, evaluated by the harness in the same order of operations; integer sums modulo nothing (overflow is excluded as the library leaves it undefined); bit equality for reals.",
        "linear transformation: 4 operations in any order; vector sum: 3 inputs, dimension 2, 3 operations; 3 steps in an execution", "7 operations; 4 inputs, dimension 3; 6 steps", "Signed overflow of integer sums."),
'C19': ("The statement's rule decides for every value (symbolic int/double, strings) and every combination of bounds.",
        "one parameter at a time with any value, bounds and type; all placeholders of a description; the two built-in functions with any parameters up to 4 inputs", "same", "Parameters no placeholder uses are not looked at by the library, whatever their value."),
'C20': ("A model of the structure (entities, connections) and the rule for connections, compared after every edit.",
        "the connection rule for every pair of type, causality and variability; every sequence of 2 edits (add simulator/function, connect, valid or not) followed by a comparison of everything that can be read", "3 edits", "Two models with the same UUID and different variables (the library caches descriptions by UUID)."),
'C21': ("The statement's rule.", "3 additions of any kind to any of the variables of a structure, with symbolic values; is_valid_variable_value with and without a reason", "4 additions", "-"),
'C22': ("The calls the fake slaves get, compared with the structure.", "structures of 2 simulators and a function with any subset of connections and initial values of all types, step-size hints symbolic", "same", "More entities."),
'C23': ("A model of holders per key; directories and lock files are in a modelled file system.",
        "every sequence of 6 operations on one key, 3 operations on 6 keys that include `..`, empty and percent-encoded ones, 3 operations on the persistent cache including symbolic links and clean-up while others hold; 2 threads with up to 2 preemptions", "9, 4 and 4 operations; 3 threads", "Other processes are only represented by locks held on the same files; clean-up that races with creation in another process."),
'C24': ("A model of holders per file; POSIX record locks are modelled in harness/oslock.hpp with another process that may hold any lock.",
        "every sequence of 4 operations on 3 lock objects on the same file (by path, by another path, by symbolic link); 2 threads with up to 2 preemptions; one object used by two threads with up to 20", "6 operations; 3 threads", "Deadlock between locks taken in different order by the caller."),
'C25': ("Counters of the tasks run; a schedule that cannot go on is a deadlock and a violation.",
        "2 threads and 3 tasks, 2 rounds of reuse, several waiters, destruction at any point; every schedule with up to 2 preemptions", "3 threads; 3 rounds; 3 preemptions", "More preemptions; failure to create a thread."),
'C26': ("The entries expected from the names by an independent normalisation; fake libzip with symbolic contents; modelled disk with failures.",
        "2 entries whose names have up to 3 and 2 components out of `..`, `.`, empty and names, absolute or not; 4 bytes in chunks, any read, write or close failing", "4 and 3 components; 7 bytes", "libzip itself; names with symbolic bytes; symbolic links that are already in the target."),
'C27': ("Exact inequalities between sleep requests, clock readings and simulated time; ratios compared by cross-multiplication.",
        "2 steps with any 28-bit clock increments and step lengths and factors from a list, configuration changed between steps; metrics over 5 steps with concrete and 4 with symbolic clocks; through an execution with 2 steps", "3 steps, 26 bits; 8 and 6 steps", "Clocks that go backwards; factors that are not in the list; times of more than 28 bits (0.27 s) per step."),
'C28': ("Integer arithmetic on ticks in the harness; rounding is handled by a relaxation that is sound for violations (see below) and by exact solving.",
        "|seconds| <= 2^21, |ticks| < 2^51, whole seconds < 2^31; sums of 2 steps", "4 steps", "NaN and infinity, times outside the range. Ticks to seconds is additive to the precision of the numbers (m * 2^-51), and exactly for durations up to half the time elapsed."),
'C29': ("A model of owners; the directories in the modelled file system.", "every sequence of 4 operations (create, move construct, move assign, destroy) on 3 objects; creation or removal failing", "6 operations", "Self-move; UUIDs are assumed not to repeat."),
'C30': ("The first resolver in order that answers; the arguments every resolver gets; RFC 3986 resolution is checked in C16.", "2 resolvers with any answers, base and reference from a list that covers every combination of absolute, relative and fragment; file URIs with 2 symbolic bytes", "3 resolvers; 3 bytes", "The FMU importer behind the resolver (a stand-in records the path); file URIs without authority may be refused."),
'C31': ("A configuration is built piece by piece together with the structure it describes, and loaded by the real parser through models of Xerces (a DOM parser and a validator for the schema in /repo/data/xsd) and of the model resolver; the result is compared as a whole. Found paths are replayed against the real Xerces.",
        "2 simulators with present/absent/wrong attributes, 2 initial values with symbolic numbers, 2 connections; all simulation settings; functions of every kind with all connections; group connections nested up to 3 levels with groups of different size, name and order; documents that lack any one element or attribute, end at any byte, or have unknown or ill-formed content", "same", "proxyfmu queries, NaN and infinite times, non-ASCII names, an empty StartTime."),
'C32': ("As C31, with the real boost property tree (rapidxml) run symbolically, and a fake libzip.",
        "2 components with transformations, 2 connections, settings and algorithm annotations, parameter sets inline and in files at both levels with 2 parameters, documents that lack any one piece or end at any byte, archives with failing reads", "all combinations in one run", "Parameter mappings, prefixes, boolean/integer/enumeration transformations, connector kinds that disagree with the model; non-ASCII names."),
'C33': ("The call log and the resource counters of a fake FMI Library (harness/fakefmi.hpp) that answers each call with an arbitrary status, against the calls and errors the slave interface asks for.",
        "FMI 1.0 and 2.0, set-up, start, 2 steps and end, 3 variables of each type with arbitrary references and values, every status of every call, 2 instances with failing loads, instantiations and parses, 2 variables of every type, causality and variability", "3 steps, 4 variables", "The FMI Library itself (its interface is replaced: extlib/fmilib.h declares what libcosim uses of it), FMI 2.0 state saving, logging callbacks' formatting."),
'C34': ("The bytes in the archive and the fake FMI Library's load directory; a copy of the cache directory taken at an arbitrary read of the archive stands for a crash, and another importer goes on from it.",
        "2 identifiers and 3 archives, 3 imports and releases, any one failing or interrupted read, headers with missing, empty, blank and unsupported version and identifier", "4 imports and releases", "Files whose identifiers are no file names, other processes that ignore the locks, crashes that lose what was written before."),
'C35': ("The call log of a fake proxyfmu client (extlib/proxyfmu declares the interface that libcosim uses).",
        "set-up, start, 2 steps and end with an arbitrary answer to every call, 3 variables of every type, 2 variables of every kind in descriptions, 8 queries with 7 hosts", "4 steps, 4 variables", "proxyfmu itself and its network protocol, `file=/absolute` (joined to the base), state saving (not supported)."),
}
