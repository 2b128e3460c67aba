#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

ALG = "src/cosim/algorithm/fixed_step_algorithm.cpp"
EXE = "src/cosim/execution.cpp"
SIM = "src/cosim/slave_simulator.cpp"
URI = "src/cosim/uri.cpp"

p("C01", "Fixed-step schedule: each simulator steps exactly when and as far as due",
  "With base step size h, a simulator whose step-size hint is d is stepped on base step k exactly when k is a multiple of its decimation factor max(1, floor(d/h)) counted from the start of simulation, with the current time as start and factor*h as length, so its steps tile simulated time without gap or overlap. A step reports as finished exactly the simulators that end a step of theirs at the new time. The result is the same for every number of worker threads.",
  ["inputs", "schedules", "histories"],
  "all step-size hints and base step sizes, all explicit decimation factors, any number of simulators and worker threads, any thread schedule, any number of steps",
  "fixed_step_algorithm_test and multi_fixed_step_algorithm_test use one or two fixed step ratios and whatever schedule the OS picks",
  [ALG, "include/cosim/algorithm/fixed_step_algorithm.hpp", "src/cosim/utility/thread_pool.hpp"],
  [("decimation factors and step counter in do_step", ALG), ("worker tasks per simulator joined before the end of the step", ALG)],
  ["slave::do_step arguments", "fixed_step_algorithm::do_step / execution observers' simulator_step_complete"])

p("C02", "Connected variables receive the source value bit for bit at every sync point",
  "At the end of initialisation, and after every base step at which both ends of a connection are at a boundary of their own steps, the target variable's slave is given exactly the value the source variable had after the source's latest step, for real, integer, boolean and string variables alike; between such points the target value is not changed by the connection. Functions are evaluated on the inputs current at the sync point and their outputs are delivered to their targets in the same transfer. Disconnected connections transfer nothing any more.",
  ["inputs", "histories", "configurations", "schedules"],
  "all values of all four types (NaN payloads, infinities, signed zero, INT_MIN, any string), all topologies and decimation factors within the bounds, any sequence of steps",
  "tests connect a handful of identity slaves and compare a few chosen values at a fixed step ratio",
  [ALG, SIM, EXE],
  [("outgoing connection tables per simulator and per function", ALG), ("transfer on least common multiple of decimation factors", ALG), ("expose_for_getting / expose_for_setting caches", SIM)],
  ["slave::set_variables calls", "slave::get_variables calls"])

p("C03", "Connections are accepted exactly when they are valid; one source per input",
  "An execution accepts a variable connection exactly when source and target entities exist, the source is an existing output and the target an existing input of the same type, and the target is not already connected to any source, whether a simulator or a function. A rejected connection raises an exception and changes nothing. At any time an input variable is driven by at most one connection.",
  ["inputs", "histories", "configurations"],
  "all combinations of causality, type, variable reference and entity on both ends, and any sequence of accepted and rejected connection requests",
  "no existing test requests an invalid connection through the execution interface",
  [EXE, "include/cosim/execution.hpp", ALG],
  [("variable validation in connect_variables", EXE), ("ssConnections_/fsConnections_ maps from target to source", EXE)],
  ["exceptions from execution::connect_variables", "slave::set_variables calls"])

p("C04", "Execution time, step counting and observer notification order",
  "Every step advances the current time by exactly the duration the algorithm used and increments the step number by one, manipulators are told a step commences with the time before the step, and every observer is told of each simulator that finished a step and then of the completed step with the step number, duration and time after the step, in the order the observers were added. Observers are told of initialisation exactly once, before the first step. A simulator added before the start is announced exactly once to every manipulator and observer.",
  ["inputs", "histories", "configurations"],
  "all start times, step durations and sequences of step/simulate_until/add_* calls, any number of observers and manipulators",
  "tests look at end values for one start time and step size; none checks the order or arguments of the notifications",
  [EXE, "include/cosim/observer/observer.hpp", "include/cosim/manipulator/manipulator.hpp"],
  [("execution::impl::step", EXE), ("add_slave/add_observer/add_manipulator announcements", EXE)],
  ["observer and manipulator callbacks", "execution::current_time"])

p("C05", "simulate_until: stops at the target time, on request, and reports truthfully",
  "Simulating until a time T takes whole steps and returns when the current time has reached T (to within one hundredth of a step), never steps beyond that, and at least one step is taken; simulating without an end goes on until stopped. A stop request from any thread ends it after the step in progress and is what decides the result (completed versus stopped). The execution reports that it is running exactly while such a call is in progress, also when a step fails with an exception.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all start/end times and step durations, stop requests at any point (including from observers and other threads), failing steps",
  "tests call it with one end time that is a multiple of the step, and never let a step fail",
  [EXE, "src/cosim/timer.cpp"],
  [("simulate_until loop, stopped_ flag, time-difference tolerance", EXE)],
  ["execution::simulate_until result", "execution::is_running", "execution::current_time"])

p("C06", "Setting and getting variables through the simulator cache loses nothing",
  "A value set on an exposed variable of a simulator reaches the slave exactly once, bit for bit, in the next initialisation iteration or step, and when several values are set in between, the last one wins; variables that were not set since they were exposed are not written. Values read from an exposed variable are those the slave had after its last step or iteration.",
  ["inputs", "histories", "configurations"],
  "all values of the four types, all orders of exposing, setting, getting, iterating and stepping, any number of variables",
  "tests set a few variables once each through constant-input slaves",
  [SIM, "src/cosim/slave_simulator.hpp"],
  [("set_variable_cache / get_variable_cache", SIM)],
  ["slave::set_variables / slave::get_variables calls", "simulator::get_real/integer/boolean/string"])

p("C07", "Modifiers change values only while installed and only where installed",
  "While an input modifier is installed on a variable, the value given to the slave at every step is the modifier applied to the last value set (or to the start value), with the step's duration, and while an output modifier is installed the value read is the modifier applied once to the value of the slave. Removing the modifier restores the unmodified value. Modifiers on one variable never change any other variable, and the set of variables reported as modified is exactly the set with a modifier installed.",
  ["inputs", "histories", "configurations"],
  "all values, all modifier functions, any order of installing, removing, setting and stepping",
  "ramp_modifier_test and monitor_modified_variables_test install one or a few modifiers in one order",
  [SIM, EXE],
  [("modifier maps in set_variable_cache and get_variable_cache", SIM), ("get_modified_variables", EXE)],
  ["slave::set_variables", "simulator::get_*", "execution::get_modified_variables"])

p("C08", "Slave life cycle: calls come in the documented order, failures surface as errors",
  "Every slave is set up exactly once before anything else, gets variables set and read during initialisation, is told once that the simulation starts before its first step, and is never called again out of that order. When a slave reports a failed step or throws from any call, the stepping or initialisation call that caused it raises an error after all workers have finished; the process is never terminated and time does not advance.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "any slave call failing at any point (exception or failed/discarded result), any number of worker threads and schedule",
  "no test contains a failing slave; only the successful call order is exercised",
  [SIM, ALG, EXE, "include/cosim/slave.hpp"],
  [("slave state machine in slave_simulator", SIM), ("collection of task errors in fixed_step_algorithm", ALG)],
  ["slave interface calls", "exceptions from execution::step"])

p("C09", "Overridden variables keep their override until it is reset",
  "After an override is given for a variable, from the next step on every value read from (output) or delivered to (input) that variable is the override value, whatever the model or connections produce, until it is reset, from when on the original value is used again. Overriding one variable never affects another, the last override of several wins, and an override for an unknown simulator raises an error.",
  ["inputs", "histories"],
  "all values of the four types, all sequences of overrides and resets between steps, inputs and outputs",
  "override tests set one value and reset it once",
  ["src/cosim/manipulator/override_manipulator.cpp", SIM],
  [("queued actions executed in step_commencing", "src/cosim/manipulator/override_manipulator.cpp")],
  ["simulator::get_*", "slave::set_variables"])

p("C10", "Scenario events fire exactly once, at their time and in time order",
  "Each event of a loaded scenario is executed exactly once, on the first step whose time relative to the scenario's start is at or after the event's time, events due on the same step being executed in the order of their times; events that are not due are not executed. The scenario ends on the first step at or after its end time (if it has one) by which all its events were executed on earlier steps, or when it is aborted; then every variable it manipulated is reset, and no further event is executed. A scenario reports that it is running exactly from loading until then.",
  ["inputs", "histories"],
  "all event times, end times, load times and step times; all orders of events; aborts and reloads at any step",
  "scenario_manager_test runs two scenarios with well-separated events and checks end results",
  ["src/cosim/manipulator/scenario_manager.cpp", "include/cosim/scenario.hpp"],
  [("remaining/executed event maps", "src/cosim/manipulator/scenario_manager.cpp")],
  ["set_*_input_modifier / set_*_output_modifier calls on the manipulable", "scenario_manager::is_scenario_running"])

p("C11", "A scenario file is read into exactly the scenario it describes",
  "Parsing a scenario yields one event per listed event with the stated time, target model and variable, type, causality and action (override, bias or reset with the stated value), and the stated end time; defaults apply to events that leave out a field. A model, variable, type, causality or action that does not exist is rejected with an error and never silently dropped or mapped to something else.",
  ["inputs", "configurations"],
  "all times and values, every combination of type, causality and action, presence or absence of every optional field",
  "two sample files are parsed",
  ["src/cosim/scenario_parser.cpp", "include/cosim/scenario_parser.hpp"],
  [("parse_scenario / generate_action / find_variable", "src/cosim/scenario_parser.cpp")],
  ["scenario::scenario returned by parse_scenario", "modifier functions inside the actions"])

p("C12", "Time-series observer keeps the latest samples and returns those asked for",
  "For an observed variable with buffer size n, the buffer holds the samples of the last n recorded steps (value, step number and time of each), and asking for n samples from a step number returns the held samples whose numbers lie in the n steps from there on, oldest first. Synchronised series of two variables contain exactly the steps recorded for both. The step numbers for a time interval are those of the last recorded step at or before its begin (or else the oldest one) and the first recorded step at or after its end (or else the latest one).",
  ["inputs", "histories"],
  "all values, buffer sizes, numbers of steps, query ranges and start/stop of observation in any order",
  "tests use one simulator with ten steps and buffers that are rarely full",
  ["src/cosim/observer/time_series_observer.cpp", "include/cosim/observer/time_series_observer.hpp"],
  [("bounded per-variable sample maps", "src/cosim/observer/time_series_observer.cpp")],
  ["time_series_observer::get_real_samples / get_integer_samples / get_synchronized_real_series / get_step_numbers"])

p("C13", "Last-value observer returns the value after each simulator's latest step",
  "For an observer added before the simulation starts, the value returned for a variable of any type is the one the simulator had when it last completed a step (or, before any, when it was initialised), for the requested variables in the requested order. Variables of other simulators do not affect it, and unknown simulators raise an error.",
  ["inputs", "histories"],
  "all values of the four types, all request orders and all interleavings of steps of several simulators",
  "one test with constant slaves",
  ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp"],
  [("value cache updated on step completion", "src/cosim/observer/slave_value_provider.cpp")],
  ["last_value_provider::get_real/integer/boolean/string"])

p("C14", "Output files contain one row per due step with the values of that step",
  "While recording, the file of each logged simulator has a header naming exactly the logged variables and then one row for the initial state (if it is recording then) and one for every step it completes whose number is a multiple of the decimation factor, holding the time, the step number and each logged variable's value after that step, in header order and in step order. Stopping recording leaves all rows up to then in the file, and nothing is recorded while recording is off.",
  ["inputs", "histories", "configurations"],
  "all values, decimation factors, selections of variables and sequences of steps with recording switched on and off",
  "tests check that files exist, not what is in them",
  ["src/cosim/observer/file_observer.cpp", "include/cosim/observer/file_observer.hpp"],
  [("slave_value_writer buffers and persist", "src/cosim/observer/file_observer.cpp")],
  ["content of the CSV files"])

p("C15", "URI parsing splits and composes without loss and rejects what is malformed",
  "For every string, parsing as a URI reference either fails with an error or yields the components (scheme, authority, path, query, fragment) of RFC 3986, and composing these components gives back the same string. Building a URI from components succeeds exactly when every component consists of permitted characters. Comparison and copies agree with the text.",
  ["inputs"],
  "every byte string up to the bound, every combination of present and absent components",
  "the tests parse a dozen well-formed URIs",
  [URI, "include/cosim/uri.hpp"],
  [("component scanners", URI), ("uri constructors", URI)],
  ["uri::uri, uri::view, uri::scheme/authority/path/query/fragment"])

p("C16", "Reference resolution follows RFC 3986 for every base and reference",
  "Resolving any reference against any absolute base gives the URI that the algorithm of RFC 3986 section 5.2 prescribes, including removal of dot segments and merging of paths. A base that is not absolute is rejected.",
  ["inputs"],
  "all base and reference components up to the length bound",
  "the tests sample the RFC's own example table for one base URI",
  [URI],
  [("resolve_reference, merge_paths, remove_dot_segments", URI)],
  ["cosim::resolve_reference"])

p("C17", "Percent-encoding and file URI conversions are lossless and in range",
  "Decoding an encoded string gives back the original for every byte string and every set of exceptions; the encoded text contains only unreserved characters, the exceptions and %XX triplets; and malformed triplets are rejected with an error. Converting a path to a file URI and back yields the same path, and a URI that is not a local file URI is rejected.",
  ["inputs"],
  "all byte strings up to the length bound, all exception sets",
  "the tests encode and decode a few fixed strings",
  [URI],
  [("percent_encode / percent_decode", URI), ("path_to_file_uri / file_uri_to_path", URI)],
  ["cosim::percent_encode, percent_decode, path_to_file_uri, file_uri_to_path"])

p("C18", "Built-in functions compute the documented formula at every sync point",
  "A linear transformation's output is always offset + factor * input, and a vector sum's output is, for each element, the sum over all inputs of that input's element, for the numeric type chosen; inputs not set count as zero. Setting or getting a variable that does not exist raises an error, and the described variables and types match what can be set and read.",
  ["inputs", "configurations"],
  "all values, offsets, factors, input counts and dimensions within the bound, and all orders of setting, calculating and reading",
  "one value per function is tested",
  ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "include/cosim/function/vector_sum.hpp"],
  [("calculate()", "include/cosim/function/vector_sum.hpp")],
  ["function_instance::get_real_variable / get_integer_variable / description"])

p("C19", "Function parameters are checked against their description before use",
  "A function type is instantiated exactly when the value of every parameter it uses has the declared type and lies within the declared minimum and maximum, bounds included; anything else is rejected with an error. Parameters not given take their defaults, and every placeholder in the description (group counts, variable counts, types, causality) is replaced by the parameter's value.",
  ["inputs", "configurations"],
  "all parameter values and combinations of bounds, types and presence",
  "tests use valid parameters only",
  ["src/cosim/function/utility.cpp", "src/cosim/function/vector_sum.cpp", "src/cosim/function/linear_transformation.cpp", "src/cosim/system_structure.cpp"],
  [("substitute_function_parameters", "src/cosim/function/utility.cpp"), ("add_entity parameter validation", "src/cosim/system_structure.cpp")],
  ["exceptions", "function_type_description after substitution"])

p("C20", "A system structure is well-formed after every sequence of edits",
  "After any sequence of accepted and rejected edits, all entity names are unique and non-empty, every connection joins existing variables of compatible type and causality, and no variable is the target of two connections. An edit is accepted exactly when it keeps this true, and a rejected edit raises an error that says that the system structure is invalid, and changes nothing.",
  ["inputs", "histories", "configurations"],
  "all sequences of edits up to the bound, all variable types, causalities and variabilities",
  "the basic-use test makes a handful of edits",
  ["src/cosim/system_structure.cpp", "include/cosim/system_structure.hpp"],
  [("is_valid_connection and the entity and connection tables", "src/cosim/system_structure.cpp")],
  ["system_structure::entities, connections, get_variable_description", "exceptions"])

p("C21", "Initial values in a parameter set are type-checked and the last one wins",
  "A value is accepted for a variable in a parameter set exactly when the variable exists on a simulator, its type is that of the value and it is not a constant; the stored value is the one given last. A rejected value raises an error and leaves the set unchanged.",
  ["inputs", "configurations", "histories"],
  "all values, types, causalities and variabilities, any sequence of additions",
  "no existing test uses a value of the wrong type or kind",
  ["src/cosim/system_structure.cpp", "src/cosim/orchestration.cpp"],
  [("add_variable_value / is_valid_variable_value", "src/cosim/system_structure.cpp")],
  ["variable_value_map contents", "exceptions"])

p("C22", "Injecting a system structure sets up exactly what it describes",
  "After injection the execution contains one simulator or function per entity, all connections of the structure and only those, and every initial value is set on the variable it was given for; the returned map gives, for every entity name, the index and type under which it was added. Step-size hints are passed on.",
  ["inputs", "configurations"],
  "all structures up to the bound with any mix of simulators and functions, connections and initial values of all types",
  "no stable test injects a system structure",
  ["src/cosim/execution.cpp", "src/cosim/system_structure.cpp", "include/cosim/execution.hpp"],
  [("inject_system_structure", EXE)],
  ["slave interface calls", "entity_index_maps"])

p("C23", "A file cache directory never has a writer together with anyone else",
  "For every key, at any time a cache directory is held either by at most one read-write owner or by any number of read-only owners, never both; a request that cannot be granted is refused (or waits) instead of breaking this. Read-only access requires that the directory exists. Different keys never share a directory, and every directory lies inside the cache.",
  ["histories", "inputs", "schedules"],
  "all sequences of acquiring and releasing handles, all keys up to the bound",
  "there is no test of the file caches in the stable set",
  ["src/cosim/file_cache.cpp", "include/cosim/file_cache.hpp"],
  [("ownership bookkeeping in temporary_file_cache", "src/cosim/file_cache.cpp"), ("lock files in persistent_file_cache", "src/cosim/file_cache.cpp")],
  ["directory_ro/directory_rw handles and exceptions"])

p("C24", "File locks exclude each other between threads and objects",
  "Among all holders of locks on the same file within a process, at any time there is either at most one exclusive holder or any number of shared holders; a lock that is released can be acquired again, a try that fails leaves nothing locked, and no sequence of lock, try and unlock calls deadlocks by itself.",
  ["schedules", "histories"],
  "all interleavings of two or three threads and all sequences of lock, try_lock, unlock and their shared forms within the bound",
  "the file_lock test samples one schedule with sleeps",
  ["src/cosim/utility/concurrency.cpp", "src/cosim/utility/concurrency.hpp"],
  [("file_mutex registry and shared mutex in concurrency.cpp", "src/cosim/utility/concurrency.cpp")],
  ["utility::file_lock members"])

p("C25", "The worker pool runs every task exactly once and joins cleanly",
  "Every task submitted to the thread pool is executed exactly once, waiting for tasks returns only when all tasks submitted before have finished (and their effects are visible), and destroying the pool ends all threads without losing a submitted task or hanging. With zero threads tasks are run immediately by the submitter.",
  ["schedules", "histories"],
  "all interleavings of workers and submitter within the bound, any number of tasks and threads",
  "tests only see the schedules the OS happens to pick",
  ["src/cosim/utility/thread_pool.hpp"],
  [("queue, condition variables and pending-task count", "src/cosim/utility/thread_pool.hpp")],
  ["task side effects", "thread_pool::wait_for_tasks_to_finish"])

p("C26", "Archive extraction writes exactly the entries' bytes, and only inside the target",
  "Extracting an archive creates, for every entry, a file or directory below the target directory with the entry's content, whatever the chunking of reads, and nothing outside it; entries with absolute or escaping names are rejected. Read and write failures are reported, and asking for an entry that does not exist is distinguished from an error.",
  ["inputs", "fault_sequences"],
  "all entry names up to the bound, all contents and chunk sizes, any read failing",
  "one well-formed archive is extracted",
  ["src/cosim/utility/zip.cpp", "src/cosim/utility/zip.hpp"],
  [("extract_all / extract_file_to / copy_to_stream", "src/cosim/utility/zip.cpp")],
  ["files written", "exceptions"])

p("C27", "Real-time pacing never runs ahead and keeps its metrics truthful",
  "With real-time pacing enabled and a positive target factor, after every step the wall-clock time since pacing started is at least the simulated time advanced since then divided by the target factor, to within 100 microseconds, and never more sleep is requested than needed for that, nor any when the execution lags or pacing is off. The reported real-time factors are the ratios of simulated to wall-clock time since the start of the measurement and over the monitored window. Changing the configuration or starting again restarts the measurement.",
  ["inputs", "schedules"],
  "all clock readings, step durations and target factors within the bound",
  "no test controls the clock",
  ["src/cosim/timer.cpp", "include/cosim/timer.hpp"],
  [("real_time_timer::impl::sleep", "src/cosim/timer.cpp")],
  ["sleep requests", "real_time_metrics"])

p("C28", "Time conversions are exact where they can be and additive",
  "Converting a time in seconds to a time point or duration and back is accurate to the clock's resolution, and whole seconds are converted without loss. Splitting a time into a time point and a duration and converting both gives the same sum as converting the whole, so that repeated stepping does not drift.",
  ["inputs"],
  "all doubles and all tick counts in the stated ranges",
  "two fixed numbers are tested",
  ["include/cosim/time.hpp"],
  [("to_duration, to_time_point, to_double_duration, to_double_time_point", "include/cosim/time.hpp")],
  ["return values"])

p("C29", "Temporary directories are unique, owned and removed exactly once",
  "Each temporary directory object refers to a directory nobody else has, moving it transfers ownership, and the directory is removed exactly when its last owner lets go; a moved-from object removes nothing.",
  ["histories", "fault_sequences"],
  "all sequences of creation, move construction, move assignment and destruction, any file-system failure",
  "one move sequence is tested",
  ["src/cosim/utility/filesystem.cpp", "src/cosim/utility/filesystem.hpp"],
  [("temp_dir ownership", "src/cosim/utility/filesystem.cpp")],
  ["directories in the file system"])

p("C30", "Model URIs are resolved by the first resolver that knows them",
  "A model URI is offered to the sub-resolvers in the order they were added, the first that returns a model decides, and if none does the lookup raises an error; relative references are resolved against the given base first. A file URI leads to the model at exactly that path, and other schemes are not taken for files.",
  ["inputs", "configurations"],
  "all numbers and orders of resolvers and their answers, all base and reference URIs within the bound",
  "orchestration is not exercised by any stable test",
  ["src/cosim/orchestration.cpp", "include/cosim/orchestration.hpp"],
  [("model_uri_resolver::lookup_model", "src/cosim/orchestration.cpp"), ("fmu_file_uri_sub_resolver", "src/cosim/orchestration.cpp")],
  ["returned models, exceptions, calls on sub-resolvers"])

p("C31", "OSP configuration files load into the structure they describe or are rejected",
  "Loading an OSP system structure file yields exactly the simulators, functions, initial values and simulation settings it lists, and a variable connection for every connection it lists, where the connection of two variable groups connects their variables pairwise, including those of nested groups. A file, or the description of a model it needs, is rejected with an error when it is malformed, and when it refers to a simulator, function, variable or group that does not exist, or connects things that cannot be connected; nothing in it is silently ignored or used twice.",
  ["inputs", "configurations"],
  "all well-formed and malformed configuration documents",
  "the loader's tests need the FMI library and are not runnable here",
  ["src/cosim/osp_config_parser.cpp"],
  [("DOM traversal", "src/cosim/osp_config_parser.cpp")],
  ["osp_config returned by load_osp_config"])

p("C32", "SSP files load into the structure they describe or are rejected",
  "Loading an SSP archive or directory yields exactly the components, connections, parameter sets and default experiment settings it lists, for each of the system structure descriptions in it, with the values of a parameter set given to the variables it names in the component it belongs to. Malformed or unsupported descriptions are rejected with an error instead of being read as something else. Nothing of an archive is left in the file system afterwards.",
  ["inputs", "configurations"],
  "all well-formed and malformed SSP documents",
  "the loader's tests need the FMI library and are not runnable here",
  ["src/cosim/ssp/ssp_parser.cpp", "src/cosim/ssp/ssp_loader.cpp"],
  [("property tree traversal", "src/cosim/ssp/ssp_parser.cpp")],
  ["ssp_configurations returned by the loader"])

p("C33", "FMI slaves translate calls and statuses faithfully",
  "A slave of an FMU that was imported through the FMI 1.0 or 2.0 layer turns each call of the slave interface into the corresponding FMI calls, with the same references, values and times in the same order, and FMI error statuses into errors, whereas warnings are no errors and discarded steps are failed steps. The description of an FMU is what its model description says. A slave that still runs is terminated before it goes away, and every instance, library, handle and context is freed, once, whatever the order in which slaves, FMUs and importers are released and whatever fails.",
  ["inputs", "fault_sequences", "histories"],
  "all values, references, statuses and call sequences within the bound, all orders of release, every failing call",
  "the FMI tests need the FMI library and are not runnable here",
  ["src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp", "src/cosim/fmi/glue.cpp", "src/cosim/fmi/importer.cpp"],
  [("slave_instance classes", "src/cosim/fmi/v2/fmu.cpp"), ("slave_instance classes", "src/cosim/fmi/v1/fmu.cpp")],
  ["FMI calls", "slave values, descriptions and step results", "exceptions"])

p("C34", "An imported FMU is complete, up to date and shared while in use",
  "Importing an FMU file unpacks it into the cache directory of its identifier and loads it from there; what is loaded is complete and as in the file, also if the directory already holds an older version, if unpacking failed before or was interrupted at any point. An FMU in use is not unpacked or loaded again, but shared, and its directory stays locked against writers; FMUs that are no longer in use are released. A file without model description, version or identifier, or of a version that is not supported, is rejected with an error, and nothing is left loaded, locked or unpacked.",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "all sequences of imports and releases within the bound, every failing or interrupted read of the archive, all forms of headers",
  "the FMI tests need the FMI library and are not runnable here",
  ["src/cosim/fmi/importer.cpp", "src/cosim/file_cache.cpp", "src/cosim/utility/zip.cpp"],
  [("importer::import", "src/cosim/fmi/importer.cpp"), ("importer::import_unpacked", "src/cosim/fmi/importer.cpp")],
  ["FMUs returned by the importer", "cache directories and locks", "exceptions"])

p("C35", "Proxied FMUs behave as the FMUs they stand for",
  "A slave behind proxyfmu gets each call of the slave interface with the same references, values and times in the same order; a refused call is an error of the model, and a slave is terminated and freed exactly once. Its description is that of the FMU behind the proxy. A proxyfmu URI leads to the file that it names, relative to the base URI or absolute, on the host and port it names; other URIs are left to other resolvers, and a URI without host or file, or that names a file that does not exist, is rejected with an error.",
  ["inputs", "fault_sequences", "histories"],
  "all values, references, answers and call sequences within the bound, all forms of URIs",
  "the proxy tests need proxyfmu and are not runnable here",
  ["src/cosim/proxy/remote_slave.cpp", "src/cosim/proxy/remote_fmu.cpp", "src/cosim/proxy/proxy_uri_sub_resolver.cpp"],
  [("remote_slave", "src/cosim/proxy/remote_slave.cpp"), ("lookup_model", "src/cosim/proxy/proxy_uri_sub_resolver.cpp")],
  ["calls on the proxied slave", "models returned by the resolver", "exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
