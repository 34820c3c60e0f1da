"""Texts of the properties: properties.jsonl, MANIFEST.json and part of DESIGN.md come from here."""

TESTS = {
    "paths": "The tests walk a few of the ways through this code; the property must hold on every "
             "way in and out, including the exceptional ones no test provokes.",
    "inputs": "Tests sample a handful of inputs; the property ranges over all of them.",
}


def P(pid, title, statement, over, text, why, files, mech, technique, decides, note=None):
    return dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, decides=decides, note=note)


B = "pythagoras/_010_basic_portals/"
L = "pythagoras/_020_logging_portals/"
D = "pythagoras/_030_data_portals/"
O = "pythagoras/_040_ordinary_functions/"
S = "pythagoras/_050_safe_functions/"
A = "pythagoras/_060_autonomous_functions/"
F = "pythagoras/_070_pure_functions/"
W = "pythagoras/_090_swarming_portals/"
DL = "pythagoras/_100_default_local_portals/"
X = "pythagoras/_800_persidict_extensions/"
OM = "pythagoras/_810_output_manipulators/"
ST = "pythagoras/_820_strings_signatures_converters/"

PATHS = "path-enumerating effect analysis of the syntax trees (helpers expanded, handlers followed)"

SPEC = [
P("C01", "Leaving a portal block restores the portal that was current before",
  "After a with-block on a portal ends, normally or by an exception (even when recording that exception fails), "
  "the stack of entered portals is exactly what it was before the block. "
  "Entering a portal makes it the current one, the same portal may be entered again inside itself and in any "
  "nesting with others, and leaving portals in the wrong order is refused instead of corrupting the stack.",
  ["histories", "fault_sequences"], "every nesting of portal blocks, with re-entry, and every exception leaving them",
  TESTS["paths"],
  [B + "foundation.py", L + "logging_portals.py"],
  [("BasicPortal.__enter__/__exit__", "foundation.py"), ("LoggingPortal.__exit__", "logging_portals.py")],
  PATHS + "; typestate of the stack of entered portals: the effects of __enter__ and __exit__ are applied to every small stack, their composition must be the identity",
  "For every abstract shape of the stack (same portal on top or not) the composition of the enumerated effects of "
  "__enter__ and __exit__ is applied to every stack of up to three entries over two portals and compared with the identity; every exit path (also exceptional) of every "
  "__exit__ pops exactly once; wrong order raises before any change; nobody else touches the stacks."),
P("C02", "Library context managers never swallow an exception",
  "An exception raised inside a with-block of any context manager offered by the library (portals, execution frames, "
  "output capturing or suppressing) always leaves the block.",
  ["fault_sequences"], "every exception raised in the body of a with-block of any context manager",
  "The tests raise one or two kinds of exception in one or two of the managers; a true value returned on some other path "
  "silently drops user errors.",
  [B + "foundation.py", L + "logging_portals.py", F + "pure_core_classes.py", OM + "output_capturer.py", OM + "output_suppressor.py"],
  [("every __exit__ method and every @contextmanager generator", "whole package")],
  PATHS + "; truth value of every value an __exit__ can return; generator managers re-raise",
  "All classes with __exit__ and all contextmanager generators are discovered; every returning path must return a value "
  "that is known to be false; generator managers must not catch what the body raises."),
P("C03", "Portal selection: explicit, innermost entered, latest created, default",
  "An operation or object uses the portal passed to it if one is passed, otherwise the innermost entered portal, otherwise "
  "the most recently created one, and only when no portal exists at all the default local one, which is then created. "
  "An object that was bound to a portal when it was created keeps using it, whatever portals are entered or created later.",
  ["histories", "configurations"], "every combination of passed / entered / created / no portals",
  "Tests enter one portal and look at the result; the precedence has to hold in every combination of the four sources.",
  [B + "foundation.py", B + "portal_aware_classes.py", D + "value_addresses.py"],
  [("BasicPortal.get_best_portal_to_use", "foundation.py"), ("PortalAwareClass", "portal_aware_classes.py")],
  PATHS + "; decision table over the four sources",
  "Decision table over {passed?, entered?, created?}: all paths consistent with a row must return the expected source; the "
  "innermost portal is the top of the stack, the latest one is the last registered; portal-aware constructors keep what they selected."),
P("C04", "Enumerations of other and entered portals are complete",
  "The list of non-current portals contains every known portal of the requested kind except the current one, and the list of entered portals "
  "contains every portal that is currently entered exactly once and no other.",
  ["histories", "configurations"], "all sets of created and entered portals",
  TESTS["inputs"], [B + "foundation.py", L + "logging_portals.py", D + "data_portals.py"],
  [("_noncurrent_portals, _entered_portals and their class level wrappers", "foundation.py")],
  PATHS + "; symbolic summary of the comprehension or loop that builds each list, applied to small worlds of portals",
  "The comprehension or loop that builds each list is summarised (source collection, filter, element) and compared with the definition; where the form is unusual, the summary is applied to all small worlds of known and entered portals."),
P("C05", "A global reset forgets every portal and restores initial state",
  "After a global reset no portal is known, entered or current, and every counter, registry and flag kept at the level of the portal "
  "classes has the value it had when the library was loaded. Every portal known before the reset is cleared in the process, which makes it let go of all its storages.",
  ["histories"], "all histories of portal creation, entering and failure before the reset",
  "Tests call the reset between cases but never compare all class level state with the initial one.",
  [B + "foundation.py", L + "logging_portals.py", DL + "default_local_portal.py"],
  [("_clear_all of every portal class", "whole package")],
  "inventory of mutable class level state compared with the writes on all paths of the reset",
  "All class level variables of portal classes that any function mutates are discovered; all paths of every _clear_all must set each back to its initial value."),
P("C06", "Portals and multi-dictionaries refuse to be pickled",
  "Pickling or unpickling a portal or an overlapping multi-dictionary always fails with the library's not-allowed error, so a live resource can never be "
  "smuggled into stored data or into another process.",
  ["inputs"], "every portal class and every state of the object", "Only one class is tried by the tests.",
  [B + "foundation.py", X + "overlapping_multi_dict.py"],
  [("__getstate__/__setstate__ of portals and OverlappingMultiDict", "foundation.py, overlapping_multi_dict.py")],
  PATHS + "; every path of the pickling hooks raises",
  "Every path of the resolved pickling hooks of each portal class and of the multi-dictionary raises NotAllowedError; no class overrides other pickling protocols."),
P("C07", "Pickles of portal-aware objects carry no portal and no cached values",
  "What is pickled for a portal-aware object (addresses, functions) contains everything that defines the object but neither a portal nor a cached value or "
  "readiness. When loaded, the object has exactly the same defining content and is bound to the innermost entered portal, not to the portal of the process or block that created it.",
  ["inputs", "histories"], "every portal-aware object, in every state of its caches, loaded under any portal",
  "Tests pickle a few fresh objects; caches and portal bindings accumulate over an object's history.",
  [B + "portal_aware_classes.py", D + "value_addresses.py", O + "ordinary_core_classes.py", A + "autonomous_core_classes.py", F + "pure_core_classes.py"],
  [("__getstate__/__setstate__ and _capture hooks of portal-aware classes", "whole package")],
  PATHS + "; agreement of the writer's and reader's tables of the pickled state",
  "Keys written by __getstate__ and keys read by __setstate__ must agree and restore the same attribute; no portal, cache or readiness among them; every path of loading rebinds."),
P("C08", "A portal's reported parameters recreate the portal",
  "The parameters a configurable portal reports are exactly the parameters its constructor takes, with the values that were "
  "actually given to it (or the defaults applied for those that were not), so a portal created from them is configured identically.",
  ["configurations"], "all constructor arguments of all configurable portal classes",
  "Tests compare a few parameters of portals created with defaults.",
  [B + "foundation.py", D + "data_portals.py", A + "autonomous_core_classes.py", W + "swarming_portals.py"],
  [("get_params and __init__ of portal classes", "whole package")],
  "agreement of constructor signatures, attribute writes and reported dictionaries on all paths",
  "For each portal class: the reported keys equal the constructor's parameters, each is read from the attribute the constructor stores that parameter in, unmodified, and each is passed to the base constructor."),
P("C09", "Stored results, values and logs are write-once; nothing recorded is deleted",
  "The storages for values, execution results, recorded outputs, events and crashes are configured so that an entry can never be overwritten, "
  "each in its own place under the portal's root, while execution requests and node records remain changeable. "
  "No operation of the library deletes a stored value, a result, or a recorded execution, event or crash.",
  ["histories", "configurations"], "every history of operations, every root dictionary configuration",
  "A test would have to try to overwrite each kind of entry in each store after each operation.",
  [D + "data_portals.py", L + "logging_portals.py", F + "pure_core_classes.py", X + "overlapping_multi_dict.py", B + "foundation.py"],
  [("portal constructors", "data_portals.py, logging_portals.py, pure_core_classes.py, swarming_portals.py"), ("OverlappingMultiDict.__init__", "overlapping_multi_dict.py")],
  "dataflow of store parameters from the root dictionary through the portal constructors; who-may-delete",
  "The parameters every store is created with are traced on all paths of the constructors and compared with the required mutability, type and place; all functions that delete items are enumerated and must not delete from recorded stores."),
P("C10", "A first-entry dictionary keeps the first value of every key",
  "Writing to a key that already has a value never changes that value; writing to a key without one stores it. "
  "When consistency checks are on and are triggered for a repeated write, a different value raises an error and an equal one is accepted; a write that fails is "
  "retried once, and the write never reports success while the key is still missing.",
  ["histories", "fault_sequences"], "all sequences of writes, also concurrent ones that make a write fail half-way",
  "Tests write twice sequentially; losing the race between the membership test and the write is never exercised.",
  [X + "first_entry_dict.py"], [("FirstEntryDict.__setitem__", "first_entry_dict.py")],
  PATHS + "; typestate of the key (absent/present) along every path including failing writes",
  "All paths of __setitem__ with failing membership tests and writes: a write only happens on paths where the key was tested absent; a failing write is retried after a new test; the check compares stored and new value and raises when they differ."),
P("C11", "The address of a value depends only on its content",
  "The address of a value is determined by the value alone: not by the portal, the time, the process, earlier addresses or their caches. "
  "Objects whose content is given by other objects (functions, execution signatures) are addressed by everything that defines them, and using an object (reading it, calling it) never changes its address; "
  "something that cannot be addressed by content raises instead of getting a wrong address.",
  ["inputs", "histories"], "all values, all histories of use",
  TESTS["inputs"], [D + "hash_addresses.py", D + "value_addresses.py", O + "ordinary_core_classes.py", F + "pure_core_classes.py"],
  [("HashAddr / ValueAddr construction", "hash_addresses.py, value_addresses.py"), ("hash signature helpers", "_820_strings_signatures_converters")],
  PATHS + "; taint of the address term: only the value may flow into it",
  "The term the address is built from is computed on all paths: its only free variable is the value; no clock, randomness, id(), portal or global state; the hashed state of functions and signatures covers all defining attributes and is not changed by calls."),
P("C12", "Addresses compare and hash by kind and content",
  "Two addresses are equal exactly when they are of the same class and have the same textual parts, and equal addresses have equal hashes, so that they are interchangeable as dictionary and set members. Comparison with an object of another class is false, and never depends on portals or readiness.",
  ["inputs"], "all pairs of objects", TESTS["inputs"], [D + "hash_addresses.py", D + "value_addresses.py", F + "pure_core_classes.py"],
  [("HashAddr.__eq__/__ne__/__hash__", "hash_addresses.py")],
  PATHS + "; decision table over (same class?, same parts?)",
  "Decision table of __eq__/__ne__ over class and parts, on symbolic and on concrete small addresses; the parts used by __hash__ are a subset of those compared; classes that define __eq__ also provide __hash__."),
P("C13", "An address of a value is only handed out once the value is stored",
  "Creating an address from a value stores that value, under that address, in the portal the address is bound to before the address is returned; "
  "if storing fails, no address is created. The new address counts as ready only from then on.",
  ["inputs", "fault_sequences"], "all values and failures of the storage", TESTS["paths"],
  [D + "value_addresses.py", D + "hash_addresses.py"], [("ValueAddr.__init__", "value_addresses.py")],
  PATHS + "; must-store-before-return",
  "Every returning path of the constructor that received a plain value contains a write of that value into the store of the selected portal; failing writes propagate; readiness is cached only after the write."),
P("C14", "Readiness and retrieval never invent a value",
  "An address reports ready only when its value is present in a portal, and once its value has been seen it may keep reporting it. Retrieving a value returns exactly what is stored under the address and raises KeyError when no known portal has it.",
  ["histories"], "all histories of portals and addresses", TESTS["paths"],
  [D + "value_addresses.py", F + "pure_core_classes.py"], [("ValueAddr.ready/get", "value_addresses.py")],
  PATHS + "; every 'ready' is backed by a membership test, a read or a write of the same key",
  "On every path on which ready() returns true or the readiness cache is set there is a positive membership test, read or write of the same key; get returns only values read under that key; when all tests are negative KeyError is raised."),
P("C15", "A value found in another portal is copied into the address's own portal",
  "If the portal an address is bound to lacks the value but any other known portal has it, checking readiness or retrieving the value finds it, whichever portals are entered at that moment, and stores a copy, "
  "unchanged and under the same address, in the address's own portal. The portal it was found in is not modified.",
  ["histories", "configurations"], "all distributions of values over portals and all nestings of portal blocks", TESTS["inputs"],
  [D + "value_addresses.py"], [("ValueAddr.ready/get", "value_addresses.py")],
  PATHS + "; search loop over all portals but the own, must-copy before success",
  "The search loop's source is all known portals except the address's own; it is not left before a hit; on a hit the value read from the hit portal is written under the same key to the own portal, on every path, with the right portal entered."),
P("C16", "An exception escaping portal blocks is logged once in every entered portal",
  "An exception that leaves the block of a logging portal is recorded, under the current UTC date and a randomised id naming its class, in every logging portal that is entered at that moment, "
  "and is recorded only once however many nested blocks it passes through. The record contains the exception itself, its traceback and the execution environment; leaving a block without an exception records nothing.",
  ["fault_sequences", "histories"], "every exception, nesting of portals and failure of recording",
  "Tests raise once in a two-level nesting and count entries.",
  [L + "logging_portals.py"], [("LoggingPortal.__exit__/_exception_logger", "logging_portals.py")],
  PATHS + "; loop over entered portals, must-write per iteration, marker test-and-set",
  "Every path of __exit__ with an exception that was not marked writes to each entered portal and marks the exception; marked ones are not written again; the body of the record includes type, value and traceback of that exception.",
  "A failure of recording itself may replace the exception that was being recorded; the portal is left nevertheless (C01)."),
P("C17", "Uncaught exceptions are recorded and still reported as without the library",
  "The process-wide handler for uncaught exceptions (in a notebook: that of its session) is installed when the first logging portal is created and not again; it records an uncaught exception in the entered portals (unless it has been recorded already) and then always "
  "reports that same exception to the user as usual. Unregistering puts back the handler that was installed before. What is recorded is always the exception that is escaping, never another one that merely is being handled.",
  ["histories", "fault_sequences"], "all orders of portal creation, reset and exceptions",
  "The hook only runs when a process dies; the tests do not do this for every history.",
  [L + "logging_portals.py", L + "global_event_loggers.py"], [("register/unregister_systemwide_uncaught_exception_handlers", "logging_portals.py")],
  PATHS + "; typestate of the installed hook",
  "All paths of registering, unregistering and the hook; the delegation to the saved hook is on all paths of the hook; every call of the exception logger passes the escaping exception.",),
P("C18", "Events are written to every entered portal without losing caller data",
  "Posting an event writes one record into the event log of every entered logging portal, filed under the current UTC date and the event id given by the caller (a random one if none is given). "
  "The record contains every item the caller passed, positional messages included, and the added information about the environment never replaces any of them.",
  ["inputs", "configurations"], "all event contents and nestings of portals", TESTS["inputs"],
  [L + "logging_portals.py", L + "global_event_loggers.py", F + "pure_core_classes.py"],
  [("log_event", "global_event_loggers.py"), ("LoggingPortal._event_logger", "logging_portals.py")],
  PATHS + "; loop over entered portals, must-write per iteration, merge order of the record",
  "The writing loop covers all entered portals; the key contains the UTC date; the merge order of the record lets the caller's items win."),
P("C19", "Only ordinary functions can be wrapped",
  "Wrapping anything callable that is not a plain function with named parameters (a callable object, method, closure, "
  "lambda, coroutine function, or a function taking *args) is refused before its source is taken or anything is registered, "
  "and every plain function passes this admission check. "
  "Source text, whether taken from a function or given as a string, is accepted only if it begins with a plain function "
  "definition that has at most one decorator.",
  ["inputs"], "every object offered for wrapping", TESTS["inputs"],
  [O + "assert_ordinarity.py", O + "check_n_positional_args.py", O + "code_normalizer_implementation.py", O + "ordinary_core_classes.py"],
  [("assert_ordinarity", "assert_ordinarity.py"), ("accepts_unlimited_positional_args", "check_n_positional_args.py"),
   ("__get_normalized_function_source__", "code_normalizer_implementation.py")],
  PATHS + "; decision table over the kinds of callables, must-precede on the way to the source",
  "The admission check is evaluated symbolically for each kind of callable; the source of a function is taken only after admission; every function class gets its source from the normalisation; the accepting paths of the normalisation imply one FunctionDef with at most one decorator; the call wrappers are evaluated for positional, named and no arguments."),
P("C20", "Wrapped functions are called with keyword arguments only",
  "Calling a wrapped function of any kind with a positional argument is refused with an error before anything is executed. "
  "A call with keyword arguments executes the function exactly once with exactly these arguments and returns what the "
  "execution returned.",
  ["inputs"], "every call of every kind of wrapped function", TESTS["inputs"],
  [O + "ordinary_core_classes.py"], [("OrdinaryFn.__call__ and its overrides", "ordinary_core_classes.py")],
  PATHS + "; decision table over the positional arguments",
  "__call__ of every function class is enumerated for zero, one and several positional arguments."),
P("C21", "Normalisation removes only what does not matter",
  "Normalising a function's source removes comments, docstrings, the annotations of parameters, return values and local "
  "variables, and (when asked to) the library's own decorator, whatever construct they occur in. "
  "Everything else stays: other statements and expressions, string literals with their exact contents, annotations of "
  "class fields, the values of annotated assignments, the decorators of nested functions. "
  "A function whose decorator is not the library's is refused instead of being stripped of it.",
  ["programs"], "every function definition", "The tests normalise about a dozen functions; what may be removed is a statement about every program.",
  [O + "code_normalizer_implementation.py"], [("__get_normalized_function_source__", "code_normalizer_implementation.py"),
   ("_VariableAnnotationsRemover", "code_normalizer_implementation.py")],
  PATHS + "; the edit made to a tree node is tabulated over all kinds of nodes and shapes of bodies",
  "For every node kind and every shape of its body the edits of the tree walk are enumerated and compared with the table of permitted ones; every visitor method of the transformers likewise; the text handed to the parser is the source itself; the result is the unparsed tree under meaning-preserving formatting."),
P("C22", "A wrapped function runs its registered source in a namespace of its own",
  "Every execution of a wrapped function runs the code compiled from its registered source, once, in a fresh namespace that "
  "is not shared with other executions or with the library, with the arguments of this call, and gives the caller exactly "
  "the value this execution returned. "
  "In that namespace the function finds itself under its own name (the wrapped one, so recursion goes through the library), "
  "the library as pth and, if it is autonomous, the functions it depends on; a copy made from another wrapped function has "
  "the same source, name and code.",
  ["programs", "histories"], "every function, call and sequence of (nested) calls", TESTS["paths"],
  [O + "ordinary_core_classes.py", A + "autonomous_core_classes.py"],
  [("OrdinaryFn.execute/_available_names/_complete_fn_registration/update", "ordinary_core_classes.py"),
   ("AutonomousFn._available_names", "autonomous_core_classes.py")],
  PATHS + "; construction of the namespace and of the compiled text as terms",
  "On every returning path of execute the namespace handed to exec is a fresh dictionary with the required entries and the result is read from it under the name the compiled text assigns to; the compiled text is built from the registered source by renaming only the definition; the name is found by evaluating the search on concrete first lines; the value reaches the caller through every layer, and a copy takes source, name and code from the function it is made from."),
P("C23", "A failing function is recorded and its exception reaches the caller",
  "If executing a wrapped function raises anything, exception or interrupt, a record with the exception, the function's name, "
  "its source code and the arguments of the call is written to every entered portal, both under the function's own prefix "
  "and among all exceptions, unless that exception was already recorded. "
  "The very same exception then reaches the caller; it is never replaced by a value or by another exception.",
  ["fault_sequences"], "every exception raised by every function in every nesting of portals", TESTS["paths"],
  [O + "ordinary_core_classes.py", S + "safe_core_classes.py", A + "autonomous_core_classes.py", L + "logging_portals.py"],
  [("OrdinaryFn.execute/_exception_prefixes/_extra_exception_data", "ordinary_core_classes.py")],
  PATHS + "; a failure of exec is followed through the handlers",
  "For every function class the failure of exec is followed; each path re-raises the same exception and contains, for each entered portal, writes of complete records under both prefixes."),
P("C24", "The names a function needs from outside are found",
  "Every name that a function reads - in its own body or in functions, classes, lambdas and comprehensions nested in it - is reported as needed from outside unless it is a parameter or an "
  "assignment, loop, comprehension, with, except, pattern, import or definition in the function binds it before the use; names declared global or nonlocal are reported as such. Names bound that way are never reported, "
  "and what a nested function or lambda binds does not count as bound outside it. Yields of the function itself are counted, those of nested functions are not, and a source that is not exactly one plain function definition is refused.",
  ["inputs"], "all function sources and nestings", "The tests analyse some twenty functions; the statement is about every construct of the language.",
  [A + "names_usage_analyzer.py"], [("NamesUsageAnalyzer.visit_*", "names_usage_analyzer.py"), ("analyze_names_in_function", "names_usage_analyzer.py")],
  PATHS + "; decision table of name uses; coverage of the binding constructs of the grammar",
  "Every visitor: reads of unbound names are added to the needed set, every construct that binds a name has a visitor that makes the bound name accessible, the iterable of a comprehension is analysed before its targets are bound, nested scopes get their own analyzer whose needs (and only those) are merged, nothing found before is forgotten, decorators and defaults are read outside the function and its own name is bound inside it, every visitor descends into all child nodes, entry checks of the analysis."),

P("C25", "Functions that are not self-contained are refused",
  "A function that uses names of enclosing scopes or that yields never enters an island. Before its first execution, every name an autonomous function needs from outside must be a builtin, the library itself, a decorator of the library, "
  "'self', the function itself or - unless it is strictly autonomous - a function of the same island; otherwise it is refused. A strictly autonomous function depends on nothing but itself.",
  ["inputs", "histories"], "all functions, islands and orders of definition", TESTS["inputs"],
  [A + "autonomous_core_classes.py", A + "pth_available_names_retriever.py"],
  [("AutonomousFn._begin_fn_registration", "autonomous_core_classes.py"), ("AutonomousFn._complete_fn_registration", "autonomous_core_classes.py")],
  PATHS + "; algebra of the set of names that is tested for emptiness",
  "All paths of registration and completion of every function class: registration lies behind the two checks; on every path to completion the tested set is the union of unclassified and global names minus permitted sets only."),

P("C26", "A name in an island keeps its function",
  "Once a name is registered in an island of a portal, defining a function with that name there again is refused if its source, its decorator or its kind differs, and the registered function stays; an identical definition is accepted at any time. "
  "Nothing else than a reset of the portal removes or replaces registered functions.",
  ["histories"], "all sequences of definitions", TESTS["paths"],
  [A + "autonomous_core_classes.py", F + "pure_core_classes.py"], [("AutonomousFn._begin_fn_registration", "autonomous_core_classes.py")],
  PATHS + "; decision table over (source, decorator, kind) equal or not",
  "All paths of registration for every function class: with the name taken nothing is written and each difference raises; every other function that touches the table of islands is shown not to write it."),

P("C27", "Recorded dependencies are complete and exact",
  "The dependencies recorded for an autonomous function at its first execution are the function itself and exactly those functions of its island, known at that time, to which it refers directly or through other functions of the island, over any number of steps.",
  ["inputs", "histories"], "all call graphs, including cyclic ones", TESTS["inputs"],
  [A + "call_graph_explorer.py", A + "autonomous_core_classes.py"], [("explore_call_graph_deep", "call_graph_explorer.py"), ("AutonomousFn._complete_fn_registration", "autonomous_core_classes.py")],
  PATHS + "; fixed-point shape of the closure loop (def-use through loop variables and exit condition)",
  "Referenced names are the union of all needed names and the name itself; the shallow graph covers every function and keeps known names only; the deep graph follows members of the growing set until nothing is added; what is stored is the entry of the function in the graph of all functions of its island."),

P("C28", "Pure functions are memoised",
  "Executing a pure function for arguments whose result is already stored returns the stored result without executing the body again, except when a randomly chosen consistency check is due, which never happens while the portal's probability is unset or zero. "
  "Otherwise the body is executed exactly once, its result is stored under the address of the call and returned; a failed execution stores no result and fails for the caller too. "
  "Executing the address of a call is the same as executing the call, and run() executes it and returns the address.",
  ["histories", "inputs", "fault_sequences"], "all histories of calls, all outcomes of the body, all probabilities",
  "The tests count executions of one or two functions; memoisation has to hold for every result (None included), every probability and every failure.",
  [F + "pure_core_classes.py"], [("PureFn.execute", "pure_core_classes.py"), ("PureFnExecutionResultAddr.execute", "pure_core_classes.py"), ("PureFn.run", "pure_core_classes.py")],
  PATHS + "; decision table over (stored, probability, draw), terms of stored and returned values, failing edges",
  "All paths of execute are sorted by whether a result is stored, the portal's probability and the random draw; on each the number of executions of the body, the key and value stored and the value returned are compared; failing edges of the body and of the storage are followed; methods of the execution frame are shown not to write results."),

P("C29", "Guards are executed before the function and can veto it",
  "The body of a pure function is executed only after every one of its guards was executed with the arguments of the call and none of them raised; otherwise the call fails and neither executes nor stores anything. "
  "can_be_executed is true exactly if no guard raises. "
  "Only strictly autonomous functions of the same island and portal, or names known in the island, are accepted as guards, and copies of a function, pickled ones included, keep its guards.",
  ["inputs", "fault_sequences", "histories"], "all guards, arguments and exceptions raised by guards",
  "One test has one guard; the gate must hold for any number of guards and any exception.",
  [F + "pure_core_classes.py"], [("PureFn.execute", "pure_core_classes.py"), ("PureFn.can_be_executed", "pure_core_classes.py"), ("PureFn._preprocess_guards", "pure_core_classes.py")],
  PATHS + "; dominance of the body by a passed test of can_be_executed, generic iteration of the guard loop",
  "Every path to the body carries an earlier condition that is decided by can_be_executed and is true; the loop over the guards executes each with the keyword arguments and has no early exit; all guards accepted carry the four conditions."),

P("C30", "A call is identified by the function and all its arguments",
  "The address of a result is determined by the function (its own address, its name and its island) and by every argument with its name, whatever the order of the keyword arguments and whichever way the address is made (get_address, run, swarm, execute, or the constructor). "
  "From the address alone the function, its name, island and source code and the arguments are recovered. "
  "An address keeps the arguments by address, not as live objects.",
  ["inputs"], "all functions and arguments", TESTS["inputs"],
  [F + "kw_args.py", F + "pure_core_classes.py"], [("SortedKwArgs", "kw_args.py"), ("PureFnCallSignature", "pure_core_classes.py"), ("PureFnExecutionResultAddr.__init__", "pure_core_classes.py")],
  PATHS + "; provenance of what is hashed, generic iteration of the normalising loops, state round trip",
  "What flows into the signature, its pickled state, the normalised arguments and the prefix and hash of the address is compared with the function and the unchanged arguments; the ways back are inverse, field by field."),

P("C31", "A request stays in the queue exactly as long as the result is missing",
  "Requesting an execution puts it into the queue if its result is missing and takes it out if the result is available; asking whether it is requested reflects the queue, and removing a request that is not there is harmless. "
  "Executing a call records the request before the body runs and removes it only after the result is stored, so a call that fails or is interrupted stays requested. "
  "Waiting for a result requests it first and removes the request once the result is found; swarming a call requests it without executing it and returns its address.",
  ["fault_sequences", "histories"], "all crash points of an execution, all histories of requests",
  "A crash between two statements is not what a unit test can sample; the order of writes has to be right on every path.",
  [F + "pure_core_classes.py"], [("PureFnExecutionResultAddr.request_execution", "pure_core_classes.py"), ("PureFn.execute", "pure_core_classes.py"), ("PureFnExecutionResultAddr.get", "pure_core_classes.py")],
  PATHS + "; order of effects on the queue and on the storage of results, failing edges included",
  "Decision table of request_execution over (result available, queued); on every path of execute the order request, body, result, removal; no removal on failing paths; get and swarm."),

P("C32", "Waiting for a result respects the timeout and never executes",
  "get() on the address of a call returns only a stored result and never executes the function. "
  "Without a timeout it waits as long as it takes; with a timeout it raises TimeoutError only after that time is over, does not go on waiting past it, and a zero timeout is allowed while a negative one is refused. "
  "While waiting it looks for the result, then pauses for a positive time, and before the end of the time pauses no longer than what is left (or one second).",
  ["inputs", "schedules"], "all timeouts and moments at which a result arrives", "Tests would have to wait; the loop has to be right for every timeout.",
  [F + "pure_core_classes.py"], [("PureFnExecutionResultAddr.get", "pure_core_classes.py")],
  PATHS + "; generic iteration of the waiting loop under valuations of clock and timeout, sign analysis of the pause",
  "Conditions of all paths and of the loop are evaluated for representative clocks and timeouts (none, in time, late, zero, negative); every TimeoutError depends on a comparison of the clock with the deadline; the pause is positive for every assignment of the loop variables and, evaluated for representative clocks, never longer than the time left or one second."),

P("C33", "Every execution of a pure function leaves a complete audit trail",
  "Every execution of the body of a pure function happens inside a frame of its call, which first records the attempt with the execution environment under a new random session name, and the plain and the augmented source code, each in a place of its own. "
  "When the execution ends, normally or not, everything it printed is recorded, and the address of its result is recorded before that result is published. "
  "An exception of the body is recorded, unless an inner call already did, among the crashes of the innermost running call of the function under a name made of the session and a counter that advances; records of attempts, results, outputs and crashes cannot be overwritten.",
  ["histories", "fault_sequences"], "all executions and all exceptions they raise",
  "The tests look at the records of a few executions; the trail has to be complete for every way an execution can end.",
  [F + "pure_core_classes.py"], [("PureFnExecutionFrame", "pure_core_classes.py"), ("PureFn.execute", "pure_core_classes.py"), ("PureFn._persist_exception_information", "pure_core_classes.py"), ("PureFn._exception_id", "pure_core_classes.py")],
  PATHS + "; identity of the places of records, order of effects, provenance of names and values",
  "Every place a record is written to is reduced to (format, path below the address, name) and compared with the place it is read from; frame, result and output events are ordered on every path of execute, __enter__ and __exit__; names must flow from the session and the counter; the configuration of each format's storage is read from the constructor."),

P("C34", "An execution frame is used once and always left completely",
  "A frame of an execution can be entered only once; a second use is refused and changes nothing. "
  "While it is active its portal is entered, the output is captured and the frame is on the call stack of its function; afterwards, however the body or the recording ended, the portal is left, the capturing is over and the frame is off the stack, once each. "
  "If recording the attempt fails, everything done by the entry is undone and the failure is passed on.",
  ["fault_sequences"], "all exceptions at all points of entering and leaving", "Failing storage at a chosen moment is not what the tests of the repository can produce.",
  [F + "pure_core_classes.py"], [("PureFnExecutionFrame.__enter__/__exit__", "pure_core_classes.py")],
  PATHS + "; typestate of the frame, pairing of acquire and release on failing edges",
  "On all paths of __enter__ and __exit__, including those on which each call raises, the three acquisitions and the three releases are counted; the single-use flag is found from the constructor and its effect on __enter__ decided."),

P("C35", "Workers skip calls that are done, hopeless or in progress",
  "A call needs execution exactly if its result is missing and it was either never attempted, or was attempted at most five times and the newest of its n attempts is older than 10*2^n seconds.",
  ["histories"], "all histories of attempts", TESTS["inputs"],
  [F + "pure_core_classes.py"], [("PureFnExecutionResultAddr.needs_execution", "pure_core_classes.py")],
  PATHS + "; decision table over (result available, number of attempts, age of the newest)",
  "Conditions and value of every path are evaluated for 0..7 and 50 attempts, on both sides of each threshold; the age is that of the maximum time stamp over all attempts."),

P("C46", "Batches: one address per set of arguments, in order",
  "Swarming or running a list of sets of arguments returns exactly one address per set, in the order of the list, whatever order they are processed in; for a grid, one per point of the grid in its order. "
  "The swarming forms request every call and execute none, the running forms execute every one; an input that is no list or tuple of dictionaries is refused before anything is requested.",
  ["inputs"], "all lists and grids", TESTS["inputs"],
  [F + "pure_core_classes.py"], [("PureFn.swarm_list", "pure_core_classes.py"), ("PureFn.run_list", "pure_core_classes.py"), ("PureFn.swarm_grid/run_grid", "pure_core_classes.py")],
  PATHS + "; element-wise provenance of the returned list, aliasing of the list that is shuffled",
  "The returned list is the image of the input under the address constructor, element by element and unfiltered; the list object that is shuffled or sorted is another one; each request or execution is made in every iteration, and no failure of one is swallowed before the others."),

P("C47", "A consistency check really compares and leaves no trace",
  "When a consistency check of a stored result is conducted, the comparison of the new result with the stored one is certain to take place, and afterwards, however the check ends, the storage checks with the portal's own probability again. "
  "The probability given to a portal reaches its storage of values and of execution results.",
  ["fault_sequences", "configurations"], "all outcomes of a check, all probabilities", "No test of the repository fails a consistency check inside an execution.",
  [F + "pure_core_classes.py", D + "data_portals.py"], [("PureFn.execute", "pure_core_classes.py"), ("DataPortal.__init__", "data_portals.py"), ("PureCodePortal.__init__", "pure_core_classes.py")],
  PATHS + "; last write of the setting on every path, failing edges included",
  "On every path with a stored result that executes the body the probability of the storage is set to one before the write; on every path, failing ones included, the last write restores the portal's value; the constructors pass the parameter on, along every constructor of the portal classes."),

P("C48", "An execution record gives exactly what belongs to its execution",
  "The records of a call's attempts, results, outputs, crashes and events are kept apart. "
  "There is one execution record per attempt, named as the execution named itself, and it gives exactly the entries named after its execution: the output and the environment or None, all its crashes and events, the value of its result (a missing result is a failure) and the arguments of the call. "
  "The last_* properties of an address give the newest record of their kind, or None if there is none.",
  ["histories"], "all histories of attempts of a call", "The tests make one or two attempts; with several, a record must not mix them up.",
  [F + "pure_core_classes.py"], [("PureFnExecutionRecord", "pure_core_classes.py"), ("PureFnExecutionResultAddr.execution_records", "pure_core_classes.py")],
  PATHS + "; element-wise provenance of results with the conditions they are selected by, agreement of written and read names",
  "Each property is reduced to its source, the condition on the key and the value given, and compared with the place the frame writes to; the suffix removed from the key is the one the frame appends."),

P("C43", "A stored function brings all the code it needs, guards included",
  "A function whose registration is completed, and one that is stored, carries the decorator and the source of every function it depends on, of its guards and of what those need, in an order that depends on nothing but their names; code recorded first is never replaced, and code that differs from it is refused. "
  "The decorator text reads back as the same kind with the same island and guards. "
  "When such a function is loaded, everything it carries is registered in its own portal - every definition, exactly one decorator each, parameters read as literals, guards before what they guard - before its own code is checked.",
  ["programs", "histories"], "all functions, guards and orders of loading", "The tests load functions with at most one guard, which happens to come first in the alphabet.",
  [F + "pure_core_classes.py", F + "process_augmented_func_src.py", F + "astkeywords_dict_convertors.py", A + "autonomous_core_classes.py"],
  [("PureFn._complete_fn_registration", "pure_core_classes.py"), ("PureFn.__setstate__/__getstate__", "pure_core_classes.py"), ("decorator", "pure_core_classes.py"), ("process_augmented_func_src", "process_augmented_func_src.py")],
  PATHS + "; symbolic evaluation of the text that is built, provenance of the collections it is built from",
  "The text is reduced to the pieces added per element and the collections the elements come from; the decorator text is evaluated for sample kinds, islands and guards and parsed again; on every path of the loader each definition is validated, registered with its own parameters and source or put off, and never dropped."),

P("C36", "Workers: one request at a time, only live ones, only while the parent lives",
  "A worker looks at its parent before each request and ends when the parent is not live, and only then; it starts one process per request and waits for it. "
  "That process goes through the queued requests (all of them, or until it has found hundreds it could execute), executes exactly one, chosen at random among those that need execution and can be executed (one that cannot be loaded here cannot), and, when there is none, pauses and looks again as long as the parent lives. "
  "Portals of workers start no workers themselves, and workers print nothing.",
  ["schedules", "histories", "fault_sequences"], "all queues of requests and all moments at which the parent ends", "Tests run a few requests to their end with live parents.",
  [W + "swarming_portals.py", F + "pure_core_classes.py"], [("_background_worker", "swarming_portals.py"), ("_process_random_execution_request", "swarming_portals.py")],
  PATHS + "; typestate of a round of the loops (parent checked, process started, joined), provenance and conditions of the candidates",
  "Each way through a round of the worker's loop has the parent's check first, one process started and joined; the list the executed call is chosen from is reduced to its elements, their source and the conditions they passed; parameters of every portal made in a worker are followed to the assignment that asks for no workers."),

P("C37", "A runtime is live exactly while its own id is recorded, and cleans up",
  "A portal not told a runtime id records a fresh random one for its node before it starts its workers, and removes it when the process ends or the portals are cleared (at the end in every portal, whatever fails in another); a portal told one keeps it and records nothing. "
  "The parent is live exactly if the recorded id equals the portal's own; if it cannot be read, it is not live. "
  "A portal starts exactly as many workers as asked for, as spawned processes with its own portable parameters; a negative number is refused.",
  ["histories", "fault_sequences", "configurations"], "all sequences of runtimes on a node, all failures at the end", "Tests start one runtime and never end it while workers run.",
  [W + "swarming_portals.py"], [("SwarmingPortal.__init__/_clear", "swarming_portals.py"), ("parent_runtime_is_live", "swarming_portals.py"), ("_clean_runtime_id", "swarming_portals.py")],
  PATHS + "; agreement of the record's address between writer, reader and remover; order of recording and launching; failing edges of every call at the end",
  "All paths of the constructor, of the check and of the removers are enumerated; writer, reader and removers must use the node signature and the same name; the loop of the final clean-up goes on after every failing call."),

P("C38", "Captured output is complete, ordered and passed on; streams are restored",
  "While output is captured, everything written to stdout or stderr goes, unchanged and once, both to the original stream and to one common record in the order it is written; a log record reaching the root logger's handlers is added to it as a line and passed once to each original handler whose level and filters admit it. "
  "If the block fails, the traceback of its exception is printed and captured before capturing ends. "
  "However the block ends, even if printing the traceback fails, stdout, stderr and the root handlers are the original ones again, and the captured text is given whole and unaltered.",
  ["inputs", "fault_sequences"], "all output, all log records and all ways a block can end", "The tests print a few lines and look for them in the output.",
  [OM + "output_capturer.py"], [("OutputCapturer", "output_capturer.py"), ("OutputCapturer._TeeStream/_CaptureHandler", "output_capturer.py")],
  PATHS + "; roles of the fields of the replacement objects, effects of their methods, last write of the streams on every path out",
  "The replacements are followed back to the constructor to tell original stream and record apart; each method's effects on both are counted on every path; the condition for forwarding is a decision table over levels; every path out of __exit__, failing ones included, ends with the originals in place."),

P("C39", "Suppressed output goes nowhere and the streams are restored",
  "While output is suppressed, stdout and stderr both go to the null device. However the block ends, even if closing the device fails, both are what they were when the block began, and a block that cannot begin changes nothing.",
  ["fault_sequences"], "all ways a block can begin and end", TESTS["paths"],
  [OM + "output_suppressor.py"], [("OutputSuppressor", "output_suppressor.py")],
  PATHS + "; last write of the streams on every path, failing edges of every call included",
  "Both streams are replaced by one opened for writing on the null device; on every path out of __exit__, with every call failing in turn, the last value written is the one remembered at the beginning."),

P("C40", "Base-32 texts are the numerals of their numbers, and read back",
  "The base-32 text of a positive number is its numeral with the digits 0-9 and a-v, most significant first. Reading a base-32 text in either case gives the number back, and a text with any other character is refused. "
  "The base-32 form of a hexadecimal text has the same value, and an empty text gives '0'.",
  ["inputs"], "all non-negative numbers and all texts", "The tests convert a few hundred numbers; addresses are built from 256-bit ones.",
  [ST + "base_16_32_convertors.py"], [("convert_int_to_base32", "base_16_32_convertors.py"), ("convert_base_32_to_int", "base_16_32_convertors.py"), ("convert_base16_to_base32", "base_16_32_convertors.py")],
  "extraction of the loops as recurrences; inductive invariant (text so far is preceded by the numeral of the rest) over a finite table of residues",
  "The step of each loop is extracted as a term; the invariant numeral(n) + text = numeral(n') + digit + text is decided for all residues modulo 4096 and for large numbers, the digit values for every character; the tables of digits are folded from their definitions."),

P("C41", "Random signatures are fresh randomness, node signatures the node",
  "A random signature is made anew on every call from all the bits of a random (version 4) UUID and of nothing else, and is their first 22 base-32 digits. "
  "The node signature is the hash signature of the hardware address, system, release, version, machine, processor and user name of this node and of nothing else, so that processes of one user on one node agree on it.",
  ["histories", "configurations"], "all calls in all processes", "A test cannot see which sources a signature does not depend on.",
  [ST + "random_signatures.py", ST + "node_signatures.py"], [("get_random_signature", "random_signatures.py"), ("get_node_signature", "node_signatures.py")],
  PATHS + "; closed set of sources flowing into the result",
  "All outside calls, variables and parameters the returned term is made of are collected and compared with the allowed and required sets; truncation, masking and caching are refused."),

P("C42", "Date strings are the UTC date of the call",
  "The date string is the date at the moment of the call, in UTC whatever the local time zone, written as year, month number with abbreviated name, and day, as in 2024_12Dec_22_utc.",
  ["configurations"], "all time zones and moments", "Tests run in one time zone, usually UTC.",
  [ST + "current_date_gmt_str.py"], [("current_date_gmt_string", "current_date_gmt_str.py")],
  PATHS + "; source of the time stamp and constant format",
  "On every path the text is the fixed format applied to a clock reading made in the call and converted to UTC."),

P("C44", "Code of functions runs only when an operation is asked to run it",
  "Defining, decorating, registering, storing, loading, copying, comparing, addressing and describing functions, requesting their execution and asking for readiness, results or records never "
  "runs the code of a function: that happens only in calling, executing or running them, in checking guards and in worker processes. Code loaded from a storage may consist only of function "
  "definitions, each with one of the library's decorators whose parameters are read as literals, and no stored text is ever evaluated otherwise. Nothing but the installation and removal of "
  "packages starts an external program or imports a module by its name.",
  ["programs", "inputs"], "all calls the library's own code can make, whatever functions, addresses and stored code it deals with",
  "Tests run functions when they mean to; they never look for a run that nobody asked for.",
  [O + "ordinary_core_classes.py", F + "process_augmented_func_src.py", F + "astkeywords_dict_convertors.py", S + "package_manager.py"],
  [("OrdinaryFn.execute and all operations that must not reach it", "whole package"), ("exec, eval, subprocess, importlib", "whole package")],
  "class hierarchy call graph of the whole package: reachability of code running primitives from every public operation; " + PATHS,
  "The call graph is built from the syntax trees (every reference is an edge); from each operation outside the running ones no execution is reachable, and exec is reachable only through one."),
P("C45", "The default local portal is created at most once",
  "Until a global reset, creating the default local portal any number of times yields one and the same portal, which is set up exactly once, in the library's standard directory, and a "
  "global reset makes a new one possible.",
  ["histories"], "all histories of requests for the default portal", TESTS["paths"],
  [DL + "default_local_portal.py"], [("DefaultLocalPortal.__new__/__init__/_clear_all", "default_local_portal.py")],
  PATHS + "; typestate of the instance and the set-up counter",
  "All paths of __new__, __init__ and _clear_all: the instance is created only when there is none and always stored; the base constructor runs only the first time; the reset restores both; the directory is the constant one below the home directory."),
P("C49", "Installing and removing packages does what is asked or fails",
  "Installing a package runs pip of the running interpreter once, for exactly the given package and version (the newest acceptable one if none is given), upgrading if and only if asked to, "
  "and then imports the package. Removing runs pip of the running interpreter once, without asking, and succeeds only if the package can no longer be imported. A failure of pip, and an "
  "installed package that can not be imported, is always reported to the caller.",
  ["inputs", "fault_sequences"], "all packages, versions and failures of pip", "The tests need a network and are not run; failures of pip are not tested at all.",
  [S + "package_manager.py"], [("install_package, uninstall_package", "package_manager.py")],
  PATHS + "; decision table over the arguments, exception paths",
  "For each combination of arguments the command term is evaluated and compared with the required one; exceptional paths of pip and of the import must end in an exception (or, for removal, in success)."),
P("C50", "Top-level functions set up and describe exactly the portals asked for",
  "Initialising forgets all portals and restores the initial state (the default portal's included), then creates one swarming portal in the given directory with three workers and leaves it entered. "
  "Connecting to a local portal creates one in the given directory with the given number of workers, connecting to the default portal yields that one, and neither resets anything nor changes the current portal; "
  "all three return the description of their portal. Describing everything gives the descriptions of all known portals, in the order of their creation and numbered from 0 if there are several.",
  ["histories", "configurations"], "all histories of portals before the call", "No test calls these functions with portals left from before.",
  ["pythagoras/_110_top_level_API/top_level_API.py"], [("initialize, connect_to_local_portal, connect_to_default_portal, describe", "top_level_API.py")],
  PATHS + "; comparison with the class level state all resets restore",
  "All paths of the four functions with the resets expanded: state reset before creation, constructor arguments, entered portals and the returned term are compared with the statement."),
P("C51", "A portal's description shows its own current state",
  "The description of a portal has, besides the rows of the more basic kinds, exactly the rows of its kind, in this order: base directory and backend type; exceptions in total and today (UTC); stored values and "
  "probability of checks; number of islands, default island, their names and for every island the number and (if there are any) the names of its functions; stored results and size of the queue; number of workers. "
  "Each row shows the portal's own value at the time of the call, and says whether it is kept on disk or in the running program.",
  ["histories", "configurations"], "all portals in all states", "Tests look at a few rows of fresh portals.",
  [B + "foundation.py", L + "logging_portals.py", D + "data_portals.py", A + "autonomous_core_classes.py", F + "pure_core_classes.py", W + "swarming_portals.py"],
  [("describe of every portal class", "whole package")],
  PATHS + "; symbolic table of rows",
  "The description of every portal class is expanded into its symbolic rows; number, order, labels, type and the term behind every value are compared with the required table."),
P("C52", "The portal tester starts and ends with no portals",
  "While a portal tester is in use, creating or entering another one is refused. Entering one clears all portals (and what the given class keeps for itself), then creates the portal of the given class with exactly the given parameters, if one is given, "
  "and enters it; leaving it, normally or by an exception in the block, leaves that portal, clears everything (what the given class keeps for itself included) and allows the next tester.",
  ["histories"], "all orders of using testers and all states left by the code under test", "The tests rely on the tester; nothing tests it.",
  [B + "portal_tester.py"], [("_PortalTester", "portal_tester.py")], PATHS + "; typestate of the active tester",
  "All paths of the three methods, as decision tables over the active tester and the given class."),
P("C53", "Decorators and constructors keep the kind and parameters asked for",
  "Each decorator makes a function of its own kind from the function it is applied to, in its own portal, with exactly the island, strictness and guards given to it, and refuses an island name that is no text. "
  "A function for which no island is given belongs to the default island of its portal, and one made from an autonomous function keeps the island and strictness of that one or is refused if another island is asked for. "
  "The predicates about kinds hold exactly for the kinds they name: strictly and loosely autonomous exclude each other, and pure functions are autonomous.",
  ["inputs", "configurations"], "all functions, islands, guards and portals", TESTS["inputs"],
  [O + "ordinary_decorator.py", S + "safe_decorator.py", A + "autonomous_decorators.py", F + "pure_decorator.py", A + "autonomous_core_classes.py", A + "autonomicity_checks.py"],
  [("decorators, AutonomousFn.__init__, is_* predicates", "whole package")], PATHS + "; decision tables",
  "Constructor and call of every decorator: what is stored, what is passed on and what is returned; tables for islands, strictness and the predicates."),
P("C54", "The environment summary is complete and fresh; notebooks are recognised",
  "The summary of the execution environment, made anew on every call, tells host, user, process id, platform, Python implementation and version, processor, number and load of processors, number of GPUs, disk usage "
  "of the working directory, memory, working directory, local time zone and whether it runs in a notebook, each under its own name. A notebook is reported exactly if an IPython session with support for custom exception handlers "
  "is active; anything that fails while looking for it means there is none.",
  ["configurations"], "all environments", "Tests run in one environment and look at the presence of some keys.",
  [L + "execution_environment_summary.py", L + "notebook_checker.py"], [("build_execution_environment_summary, is_executed_in_notebook", L)],
  PATHS + "; table of sources",
  "The returned dictionary term is compared item by item with the required sources; the notebook check is a decision table including its exceptional paths."),
P("C55", "An address rebuilt from its texts or copied is the same address",
  "Rebuilding an address from its two texts gives an address of the same class with exactly these texts, in the portal given (the one that is current if none is given); an empty text is refused and so, unless told otherwise, is an address "
  "that is not ready. The prefix and the hash signature of an address are its first and its second text, and a copy of a value's address has the same texts and the same portal, whether or not the value is available. "
  "A typed read waits as long as asked to and returns the value if and only if it is of the expected type, and raises otherwise.",
  ["inputs", "configurations"], "all texts, flags, portals and types", "Tests rebuild and copy a handful of addresses whose values are stored.",
  [D + "hash_addresses.py", D + "value_addresses.py"], [("HashAddr.from_strings, prefix, hash_signature", D + "hash_addresses.py"), ("ValueAddr.__copy__, get_typed", D + "value_addresses.py")],
  PATHS + "; decision table",
  "Every path of from_strings initialises the object it returns with exactly the given texts and portal, and its acceptance is a decision table over empty texts, the flag and readiness; a copy is built from the object's own texts and portal with the flag off; typed reads return get()'s value under an isinstance guard."),
P("C56", "Wrapper dictionaries show exactly the dictionaries they wrap",
  "A first-entry dictionary can be made only from an immutable persistent dictionary and a probability of checks that is None (as by default) or from 0 to 1; it declares itself immutable and for the same class of values, and its items, membership, length, iteration, "
  "timestamps and every attribute it does not have itself are those of the dictionary it wraps. A multi-dictionary makes for each file type it is told of one dictionary of the given class, available as an attribute named like the type, from the shared parameters, "
  "its own ones over them and the type; reading, writing or deleting items of the multi-dictionary itself is refused with the library's not-allowed error.",
  ["inputs", "configurations"], "all wrapped dictionaries, attributes, probabilities and file types", "Tests use two file types and a few attributes.",
  [X + "first_entry_dict.py", X + "overlapping_multi_dict.py"], [("FirstEntryDict.__init__, __getattr__, _generic_iter", X + "first_entry_dict.py"), ("OverlappingMultiDict.__init__, __getitem__, __setitem__, __delitem__", X + "overlapping_multi_dict.py")],
  PATHS + "; decision tables",
  "Decision tables over the constructor's arguments; every path of a forwarding method returns the wrapped dictionary's answer to the same question; every round of the constructor's loop makes one dictionary from the merged parameters and stores it under the round's own key."),
P("C57", "The address of a value tells its class, its size and its content hash",
  "The hash signature of a value consists of the first 22 base-32 digits of the SHA-256 hash that joblib computes of the whole value (with numpy loaded, by the hasher that knows arrays). A value that has no address of its own is addressed by the name of its class in lower case "
  "and by its hash signature, preceded by its shape or, if it has none, by its length. An object that has an address of its own (it offers get_ValueAddr) is addressed by exactly that one, and an address of anything else than a value is refused.",
  ["inputs"], "all values", "Tests look at the addresses of a few dozen values.",
  [ST + "hash_signatures.py", D + "hash_addresses.py", D + "value_addresses.py"], [("get_hash_signature and its parts", ST + "hash_signatures.py"), ("_build_prefix, _build_hash_signature", D + "hash_addresses.py"), ("ValueAddr.__init__", D + "value_addresses.py")],
  PATHS + "; decision table",
  "On every path the two texts an address is initialised with are compared, as terms over the value, with what they must be; the hash term must be SHA-256 of the value itself, converted whole and cut to its first 22 digits; the description of the size is a decision table."),
]


def NA(pid, title, statement, over, text, why, files, mech, reason):
    return dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason)


NOT_APPLICABLE = [
NA("N01", "Equal values have equal addresses in every process",
   "Two values that are equal and of the same type always get the same address, in every process and on every machine.",
   ["inputs", "programs"], "all pairs of equal values, all processes", "No finite sample of values settles it.",
   [ST + "hash_signatures.py", D + "hash_addresses.py"], [("get_hash_signature", "hash_signatures.py")],
   "Whether two equal values are serialised to the same bytes depends on joblib's pickler, memoisation of shared sub-objects and dictionary order: runtime quantities that no static argument over this repository bounds. The part in this code, that nothing but the value flows into the address, is claimed as C11."),
NA("N02", "Normalisation is idempotent and preserves meaning",
   "Normalising the source of a function twice gives the same text as normalising it once, and the normalised function behaves like the original.",
   ["programs"], "all function sources", "The tests normalise about a dozen functions.",
   [O + "code_normalizer_implementation.py"], [("_get_normalized_function_source_impl", "code_normalizer_implementation.py")],
   "Depends on ast.unparse and autopep8 over all programs; the structural part (what is removed from the tree) is claimed as C21."),
NA("N03", "Swarmed executions are eventually carried out",
   "A requested execution is eventually performed by some worker of some node as long as one is alive.",
   ["schedules", "fault_sequences"], "all schedules of workers and crashes", "Liveness over unbounded schedules.",
   [W + "swarming_portals.py"], [("background worker loop", "swarming_portals.py")],
   "A liveness property of several processes with random choices and sleeps; the structural parts (what a worker does with each request, how it stops) are claimed as C36 and C37."),
NA("N04", "Concurrent first writers agree on one value",
   "When several processes write the same key of a first-entry dictionary at once, all of them read the same value afterwards.",
   ["schedules"], "all interleavings of writers on a shared file system", "Tests run one process.",
   [X + "first_entry_dict.py"], [("FirstEntryDict.__setitem__", "first_entry_dict.py")],
   "Decided by the atomicity of file creation and renaming in persidict and the file system, not by code in this repository; the sequential typestate and the behaviour after a lost race are claimed as C10."),
NA("N05", "A stored value reads back equal to what was stored",
   "Whatever value is stored, retrieving it in any process yields an equal value.",
   ["inputs"], "all values", "Tests round-trip a few dozen values.",
   [D + "value_addresses.py"], [("ValueAddr", "value_addresses.py")],
   "Round-trip equality of pickling arbitrary user values is a runtime property of joblib and of the values' classes. That the bytes stored under an address are those of the value it was created from is part of C13 and C14."),
]
