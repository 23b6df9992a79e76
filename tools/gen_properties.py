#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of truth for titles/statements/anchors)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
W, PL, PA, WU, RG, MI = ("whatami/what.py", "whatami/plugins.py", "whatami/parsers.py",
                         "whatami/whatutils.py", "whatami/registry.py", "whatami/misc.py")

p("C01", "Id strings are canonical: documented format, independent of build order",
  "The id string of a configuration is exactly [out_name=]name(k1=v1,...,kn=vn) with parameters sorted by name and values rendered recursively (None/True/False and numbers as in Python, text single-quoted with quotes escaped, tuples (..), lists [..], sets and dicts {..} with their members sorted by their rendering, frozenset({..}), set() and frozenset() when empty, ordered dicts and subclasses of collections as Class(seq=..), nested configurations as ids). "
  "Building the same configuration in another order (parameters, dict entries or set members inserted differently), asking again, or asking for a deep copy gives the very same string.",
  ["inputs", "histories"], "all configurations nested to any depth over the supported value types, and every insertion order of their dicts, sets and parameters",
  "Tests compare about thirty literal ids of small flat configurations, each built in one order; the claim is over every nesting of every value type and over all build orders.",
  [W, PL], [("What.id", W), ("collection and string plugins", PL), ("WhatamiPluginManager.build_string", PL)],
  observe=["What.id()", "str(What)"])

p("C02", "Parsing an id gives back the configuration that produced it",
  "For every configuration made of names, parameters and plain values (None, booleans, numbers, text without backslash-escaped quotes, tuples, lists, sets and frozensets of hashable values, dicts, importable classes other than the numeric types, nested configurations, with or without output names), parsing its id returns a configuration with the same name, output name and id parameters, each value of the same type and equal at every depth. "
  "The id of the parsed configuration is the very id that was parsed.",
  ["inputs"], "all configurations over the plain value types, to any depth, any text content (quotes, leading blanks, separators, keywords, unicode)",
  "Three round-trip tests and about twenty literal parses; nothing quantifies over text content, nesting, names that begin with a keyword or types lost on the way.",
  [PA, W, PL], [("build_whatami_parser grammar", PA), ("WhatamiTreeVisitor", PA), ("What.id", W)],
  observe=["parse_whatid / id2what", "What.id()"])

p("C03", "The parser accepts exactly the id language, ignoring blanks between tokens",
  "A text is accepted if and only if it is one complete id of the id language, and anything else (truncated, unbalanced, missing names, keys, values or separators, trailing text) is rejected with the parser's no-match error instead of yielding a configuration. "
  "Blanks between tokens never change the result of parsing and blanks inside quoted text are always kept.",
  ["inputs"], "all texts, in particular every id with blanks added between tokens and every id with characters deleted, inserted, swapped or replaced",
  "Seven malformed texts and one id with blanks are tested; acceptance is a property of an infinite language.",
  [PA], [("build_whatami_parser grammar", PA), ("parse_whatid", PA)], observe=["parse_whatid result or NoMatch"])

p("C04", "Different configurations never share an id",
  "Two configurations that differ in name, output name, an id parameter's name, or the type or value of an id parameter at any depth (1, 1.0, '1' and True; None and 'None'; list, tuple, set, frozenset, dict, ordered dict; a nested configuration and the text of its id; different order where order is meaningful) have different ids, save that a subclass of a collection is identified as the configuration Class(seq=contents). "
  "This also holds when collections, including ordered dicts, sets, frozensets and their subclasses, are identified directly rather than nested in a configuration.",
  ["inputs"], "all pairs of configurations over plain values with text free of backslashes next to quotes or at the end",
  "No test compares the ids of a family of near-miss configurations; injectivity quantifies over all pairs.",
  [W, PL], [("What.id", W), ("type-specific plugins", PL), ("whatareyou", W)], observe=["What.id()", "what2id()"])

p("C05", "Non-id parameters never influence ids, keys or values unless asked for",
  "Changing, adding or removing the value of a parameter declared non-id leaves the id, the positional id, the keys, the values and the id of every enclosing configuration unchanged. "
  "When non-id parameters are explicitly requested they all appear (top level for id strings, every level for keys and values), and the string form of a configuration always includes its own; declaring a name that is not a parameter changes nothing.",
  ["inputs", "configurations"], "all configurations, all subsets of their parameters declared non-id at any level, all values for those parameters",
  "Tests cover one flat configuration and one fixture with one non-id parameter.",
  [W], [("What.id/flatten non_id_keys filter", W), ("whatable non_id_keys", W)], state=[("non_id_keys", "parameters left out of the id", W)],
  observe=["What.id", "What.keys/values", "str"])

p("C06", "Bounded-length ids and positional ids are faithful short forms",
  "With a positive length limit the id is returned unchanged when it fits (its length is at most the limit) and is otherwise replaced by the 40-digit hexadecimal SHA-1 of its UTF-8 text (lone surrogates, which file names can have, encoded like any other character); a zero or negative limit never shortens. "
  "The positional id is name(v1,...,vn), prefixed by the output name if any, where the values are exactly the renderings of the top-level parameter values in parameter-name order, and the same length limit applies.",
  ["inputs"], "all configurations (including nested ones and non-ASCII text) and all integer limits, in particular around the id length",
  "One test uses a limit of 1 and two flat positional ids; boundaries and nested configurations are never tried.",
  [W], [("What._trim_too_long", W), ("What.positional_id", W)], observe=["What.id(maxlength)", "What.positional_id"])

p("C07", "Flattened keys address exactly their values",
  "Flattening lists each parameter before its nested ones, in sorted parameter order at each level (list and tuple members by position), entering nested configurations if recursive and collections if also requested, and pairs every key with the value that indexing the configuration by that key returns; keys() and values() are the two halves of it. The listing never depends on the order in which parameters were given or dictionaries filled. "
  "Indexing follows a path through configurations, whatable objects, dicts, lists and tuples; a path that does not exist raises a key error when indexed and yields the default when fetched with a default, whatever lies along the path.",
  ["inputs"], "all configurations, all option combinations, all existing and non-existing paths",
  "One doctest and a handful of lookups; missing paths through non-containers, unorderable dict keys and option combinations are not covered.",
  [W], [("What.flatten", W), ("What.__getitem__/get", W)], observe=["What.flatten/keys/values", "What[...]", "What.get"])

p("C08", "Copies and fluent updates never leak into other configurations",
  "A copy equals the original and has the same ids (with and without non-id parameters); setting a parameter on a copy, or asking set for a copy, leaves the original as it was, while setting in place changes that object only and returns it. "
  "A deep copy shares no mutable value with the original, and producing variants of a configuration for several values of a new key yields one id per value in order, refuses a key already present and never modifies the configuration.",
  ["histories"], "all sequences of copy, deep copy, set, set-with-copy, variant generation and in-place mutation of nested values over several configurations",
  "Tests only check that copies compare equal; aliasing shows only after a sequence of updates.",
  [W, WU], [("What.copy/set", W), ("whatadd", WU)], state=[("conf", "parameter dictionary", W)], observe=["ids of all live configurations after every step"])

p("C09", "Configuration equality is name, output name and parameters, and nothing else",
  "Two configurations are equal exactly when their names, output names and parameter dictionaries are equal (nested configurations compared the same way), independently of parameter insertion order and of which parameters are declared non-id. "
  "Equality is reflexive and symmetric, inequality is its negation, and comparing with an object that is not a configuration (nor has all three of those attributes) is False without raising.",
  ["inputs"], "all pairs of configurations and of configurations with foreign objects",
  "Tests compare three fixtures; symmetric near misses and foreign objects with similar attributes are not tried.",
  [W], [("What.__eq__", W)], observe=["==, !="])

p("C10", "The rendering plugin chain behaves as an ordered list without duplicates",
  "After any sequence of inserts, drops and resets the chain is the list those operations describe: insertion goes right before the given plugin (by default before the catch-all, or last when asked), dropping removes just that plugin, reset restores the default chain, and an operation that is refused (duplicate insert, unknown anchor, dropping an absent plugin) leaves the chain unchanged. "
  "Every value, at every nesting depth, is rendered by the first plugin in the chain that does not decline it (the catch-all, asked to go deep, renders objects as configurations of all their members), and a chain obtained earlier never changes afterwards.",
  ["histories", "inputs"], "all operation sequences over several custom plugins, and values nested to any depth",
  "One doctest walks a single sequence.",
  [PL], [("WhatamiPluginManager", PL)], state=[("PLUGINS", "current chain", PL)], observe=["plugins()", "build_string / ids"])

p("C11", "Introspection exposes exactly the requested, non-excluded attributes",
  "The configuration inferred for an object is named after its class (or the override) and contains exactly the attributes from the enabled sources (instance attributes, assigned slots including inherited ones, properties, class members) minus names starting with the exclusion prefix, ending with the exclusion postfix or listed as excluded, with current values. "
  "An empty or absent prefix or postfix excludes nothing, slots never assigned are skipped, instance values win over class members, and callable instances, collections and subclasses of collections are introspected like any other object, collections contributing their contents under 'seq'. Objects that pass for functions (FunctionLike) do the same, with the default sources and leaving out the names with a leading or trailing underscore.",
  ["configurations", "inputs"], "all class hierarchies mixing dict, slots, properties and class members, all option combinations, attribute names and exclusions",
  "One hierarchy with eight option settings is tested, always with the default exclusions and with every slot assigned.",
  [W, MI], [("whatareyou", W), ("config_dict_for_object, trim_dict", MI)], observe=["whatareyou(obj).conf", "whatable(obj).what()"])

p("C12", "A callable's configuration is the set of parameters already bound",
  "For a function, lambda or any nesting of partial applications over it, the inferred name is the underlying function's (lambda for lambdas) and the parameters are exactly those the call would see bound: positional arguments bound left to right, keyword arguments with the outermost application winning, remaining parameters with defaults at their defaults, unbound ones absent. "
  "Invalid applications (unknown keyword, too many positional arguments, one parameter bound both by position and by keyword) are never reported as bound parameters: extracting the call, decorating or nesting them is refused. So are arguments bound by position to builtins and classes, whose parameters cannot be told, while those bound by name are reported. The result is the same whether the callable is identified directly, nested as a value, curried or decorated.",
  ["inputs"], "all signatures with positional-or-keyword parameters and all nestings of partial applications over them",
  "About fifteen literal cases; positional binding over defaulted parameters and multi-level overriding are not tried.",
  [MI, PL, W], [("callable2call", MI), ("function_plugin, partial_plugin", PL), ("whatable", W)], observe=["callable2call", "whatareyou", "ids with callables as values"])

p("C13", "Making an object whatable is transparent, live and independent",
  "A decorated function or partial is a new callable with the same name, documentation and results whose original is untouched (unless in-place was asked for); a decorated class or object keeps its behaviour, subclasses describe themselves, and an attribute called what that is not ours is never replaced. "
  "Each request for the configuration reflects the object's current state, and setting, adding or removing parameters of a returned configuration never changes later answers of that object or of any other; copies of whatable objects answer for themselves, and a whatable class may itself appear as a value.",
  ["histories"], "all interleavings of decorating, attribute updates, asking for configurations and mutating what was returned, over functions, partials, classes, subclasses and instances",
  "Each test decorates once and asks once.",
  [W], [("whatable", W), ("is_whatable", W), ("whatable_plugin", PL)], observe=["obj.what()", "is_whatable", "calls through the wrapper"])

p("C14", "The nickname registry is always a one-to-one mapping",
  "After any history of registrations, removals and resets, nicknames and ids are in one-to-one correspondence, both lookup directions and the sorted listing agree, and the contents are exactly the accepted registrations not since removed. "
  "A registration conflicting with an existing nickname or id, a missing argument, a removal of something absent, or a removal naming a nickname and an id that do not belong together is refused and changes nothing; re-registering the same pair is accepted, and removal works by nickname, by id, or by a matching pair.",
  ["histories"], "all sequences of register, remove (by nickname, object, both), lookups, list and reset, over any ids and nicknames including equal strings on both sides",
  "Tests use one nickname and one id, and never remove by a matching pair.",
  [RG], [("WhatamiRegistry.register/remove", RG)], state=[("_id2nick, _nick2id", "the two directions", RG)], observe=["list, nick2id, id2nick, nick_or_id after every step"])

p("C15", "Recorder additions are all-or-nothing, unique and ordered",
  "An addition either adds every one of its records or, when any id is already present or repeated, a column clashes with the id column, or a postprocessor fails, adds none and leaves the recorder exactly as before. "
  "Ids are unique forever, records keep insertion order (also in the tabular export), records once added never change through later operations, and lookup returns the known records in the requested order, skipping unknown ids.",
  ["histories", "fault_sequences"], "all sequences of single and multiple additions, failing at any record for any reason, interleaved with lookups",
  "The doctest fails once, on the second of two ids.",
  [RG], [("Recorder.add commit", RG), ("Recorder.get/unique/to_df", RG)], state=[("_registry", "id to record, ordered", RG)], observe=["get, len, unique, to_df, return values"])

p("C16", "Each record holds exactly the columns assigned to it",
  "A record contains its extracted id under the id column, every assigned column (a text or non-iterable value is shared by all ids, an iterable is dealt out to the ids in order with None past its end, or assigned verbatim if unboxing is off, a dict assigns by id and skips ids it lacks), and the column defaults for columns not assigned. "
  "This holds for any ids the extractor yields, textual or not and whatever their spelling, and the record is then passed through the recorder's and the call's postprocessors in order (or the call's only, when overriding).",
  ["inputs", "configurations"], "all id lists, extractors, column assignments, defaults and postprocessor combinations",
  "Tests only use a few text ids with one or two columns; non-text ids with unboxed columns and unusual ids are not tried.",
  [RG], [("Recorder._params2dict, _DefaultDict", RG), ("Recorder.add", RG)], observe=["returned and stored records"])

p("C17", "Recorder settings and frozen calls are isolated and take effect in order",
  "Column defaults and postprocessors changed on a recorder affect later additions of that recorder only: not existing records, not other recorders, and not the collections passed in or handed out. "
  "Calling add without ids freezes the given columns into a reusable function, refinable repeatedly with later values winning, that neither alters the recorder nor its parent function and reads the recorder's settings when finally called; the partial-based variant is equivalent, and overriding add without an ids parameter is refused at class definition.",
  ["histories"], "all interleavings of settings changes, freezing, refining and adding over several recorders",
  "The doctest exercises one recorder and one straight-line sequence.",
  [RG, MI], [("Recorder.add_column_defaults and postprocessor methods", RG), ("curried add via decorate_some", MI), ("padd", RG)],
  state=[("_column_defaults, _record_postprocessors", "settings", RG)], observe=["records added afterwards, column_defaults, record_postprocessors()"])

p("C18", "Template matching selects exactly the ids equal up to the ignored keys",
  "Matching returns, in input order and with duplicates kept, exactly those ids whose configuration has the template's name, the same flattened keys and equal values at every key that is neither ignored nor below an ignored key; nested configurations compare by name, output name and parameters. "
  "The template matches itself, ignored keys may be given as any iterable of names and paths, ignoring more keys never loses matches, and options for recursion and collections decide which keys count.",
  ["inputs"], "all templates, id lists, ignored-key sets (names, paths, prefixes, absent keys) and recursion settings",
  "One doctest with six ids and four ignored-key choices.",
  [WU], [("match_whatids", WU), ("What.flatten", W)], observe=["match_whatids result"])

p("C19", "Sorting and tabulating ids preserve rows and report true parameter values",
  "Sorting ids or configurations by parameters returns a stable permutation of the input ordered by the tuple of those values together with the values themselves, aligned. "
  "Extracting parameters into a data frame keeps rows, index and existing columns, adds one column per requested key (every top-level parameter when none is requested; nested keys joined by underscores; prefix and postfix applied) holding each row's value or nothing where the row lacks that path, and modifies the given frame only when in place.",
  ["inputs"], "all lists of ids with repeated and heterogeneous parameters, all key selections, including paths missing or passing through non-configurations in some rows",
  "Two doctests sort five ids; the data frame test is skipped with the installed pandas.",
  [WU], [("sort_whats, sort_whatids, whatvalues", WU), ("whatid2columns", WU)], observe=["returned sequences and frames"])

p("C20", "Old-style ids migrate without losing or inventing information",
  "For every old-style id (out=name#Class#k=v#... with nested ids in double quotes), migration gives the configuration of the same class, parameters and values with the output name as parameter out, and its new-style id parses back to an equal configuration. "
  "An output given both ways is refused, and a text that is not an old-style id is returned unchanged by the string converter.",
  ["inputs"], "all old-style ids over the plain value types, any nesting, with and without out, with arbitrary blanks",
  "Five doctest lines.",
  [WU, PA], [("oldid2what, id2whatami4", WU), ("build_oldwhatami_parser", PA)], observe=["oldid2what, id2whatami4"])

p("C21", "Parsing is independent of what was parsed before",
  "Whatever sequence of successful parses, rejected texts, non-text arguments, failing conversions, old-style migrations and custom parsers or visitors came before, every parse gives the same configuration, or the same kind of error, as it would in a fresh process. "
  "Configurations returned by earlier parses are never altered by later ones, and parsing the same text twice gives equal but independent configurations.",
  ["histories", "fault_sequences"], "all sequences of parses and failing parses over both parsers",
  "One test parses once after one failure.",
  [PA, WU], [("parse_whatid recovery", PA), ("module-level parsers", WU)], state=[("DEFAULT_WHATAMI_PARSER, OLD_WHATID_PARSER", "shared parsers", PA)], observe=["result of every parse in a history"])

p("C22", "The plain-dictionary export is faithful and made of plain values",
  "Exporting a configuration or an id as a dictionary gives its name, its output name and its id parameters (all parameters if requested), where every nested configuration at any depth, also inside lists, tuples and dicts, becomes such a dictionary and all other values are kept. "
  "The result contains no configuration objects, and exporting the configuration and exporting its id agree.",
  ["inputs"], "all configurations over plain values, nested in any way",
  "One test with configurations nested directly under parameters.",
  [W, WU], [("What.to_dict", W), ("id2dict", WU)], observe=["to_dict, id2dict"])

p("C23", "Array and data frame ids depend on content, and on all of it",
  "Arrays with the same class, type, shape, memory layout and elements have the same id wherever and however they were built, and arrays differing in any of these have different ids; likewise data frames and series differing in a value, a label, a name or a type, and random generators have the same id if and only if they are of the same class and in the same state. "
  "Identifying an array, frame or generator never modifies it, and the ids also distinguish such values when nested inside collections and configurations.",
  ["inputs"], "all small arrays over several types, shapes and orders; frames and series over them; generator histories; nesting in collections in any order",
  "The array and frame hash tests fail or are skipped in this environment and compare fixed hashes only.",
  [PL, "whatami/minijoblib/hashing.py"], [("numpy_plugin, pandas_plugin, rng_plugin", PL), ("NumpyHasher", "whatami/minijoblib/hashing.py")], observe=["ids"])

p("C24", "scikit-learn estimators identify by exactly their result-changing parameters",
  "Once the library is patched, every estimator's configuration has its registered short name (class name otherwise) and all its constructor parameters with current values, of which exactly the declared non-id ones are left out of the id; updating a parameter changes the id if and only if it is an id parameter whose rendering changed. "
  "Clones have the same id, composite estimators nest their parts' ids, user subclasses (also of splitters and kernels) identify themselves without registration, and patching again or after a class defined its own what changes nothing.",
  ["inputs", "histories"], "all registered estimators, splitters and kernels, user subclasses of them, and sequences of parameter updates, cloning and re-patching",
  "Four estimators are tested.",
  ["whatami/wrappers/what_sklearn.py", WU], [("_what_for_sklearn", "whatami/wrappers/what_sklearn.py"), ("whatamize_object", WU)], observe=["estimator.what()"])

p("C25", "Captured calls report exactly the arguments in effect",
  "Capturing the current call yields every named parameter with its value at that moment, defaults included, but the ignored ones (the instance or class by default), with keyword extras merged in and explicit overrides applied last, and stays as captured whatever happens to the call later; surplus positional arguments are refused unless ignored. "
  "The depth selects the caller, and the configuration captured from a frame is named after that function and holds its local variables, the declared non-id ones left out of the id.",
  ["inputs"], "all signatures and calls, depths, ignore lists and overrides",
  "A few doctest calls.",
  [MI, WU], [("call_dict", MI), ("call2what", WU)], observe=["call_dict, call2what"])

p("C26", "Every route to an id of the same object agrees",
  "For any whatable object, the id obtained from its configuration, from the object-to-configuration and object-to-id helpers, by rendering it as a parameter of another configuration, and by registering or recording it, is the same string; a text is taken as an id verbatim and None stays None, also when they describe the data, the model and the evaluation of an experiment. Any other object goes by its own id() method, if it has one, or else by the configuration inferred from it. What cannot be rendered (builtins, dynamic properties, invalid applications, objects that fail to say what they are) has no id, by any route and at any depth: the failure is always known. "
  "An object other than a class is reported whatable exactly when asking it for its configuration, with what() and no arguments, yields one; a class, exactly when it was made whatable or its what is a class method that yields one; and the question never raises.",
  ["inputs"], "all kinds of objects: configurations, decorated functions, partials, classes and instances, objects with foreign what members, plain values",
  "Each helper is tested alone on one or two objects.",
  [WU, W, PL, RG], [("what2id, obj2what", WU), ("is_whatable", W), ("what_plugin, whatable_plugin", PL)], observe=["what2id, obj2what, is_whatable, nested ids, nick2id"])

p("C27", "Class-wide decoration reaches every definition of a method exactly once",
  "With a metaclass built to decorate chosen methods, every class of the hierarchy that defines such a method gets it wrapped once by all the decorators in the given order, overrides included, while inherited definitions are not wrapped again and other members are untouched. "
  "Required positional parameters are enforced at class definition: a definition that lacks one is refused naming all those missing, and any other is accepted unchanged.",
  ["programs", "configurations"], "all small class hierarchies, decorator lists and overriding patterns",
  "One doctest with a two-class hierarchy.",
  [MI], [("decorate_some", MI), ("ensure_has_positional_args, required_args", MI)], observe=["call traces through decorated methods"])

p("C28", "Optional imports fail late, with a full account, and never half-way",
  "Trying an optional import never raises by itself: it yields the first importable variant's very module, or else a stand-in on which reading any attribute raises an import error naming the attribute, the library, every variant tried and the installation hint, if any. "
  "Fetching a member by qualified name returns that member, or raises or yields None on import failure as requested; whatamizing by name or class assigns the function when there is none or when forced, leaves an existing one alone otherwise, and collecting submodules returns exactly the importable modules under the package.",
  ["inputs", "configurations"], "all lists of importable and missing variants, hints, member names and force/failure flags",
  "A few literal names.",
  [MI, WU], [("_LazyImportError, maybe_import, maybe_import_member, import_submodules", MI), ("whatamize_object", WU)], observe=["returned modules/stand-ins and raised errors"])

p("C29", "Ids are the same in every process, with or without the optional libraries",
  "numpy, pandas and scikit-learn are optional: whether each of them is there, missing or fails to import, the library can be imported, in any order of its modules, and every id, parse, comparison, migration and export gives exactly the same, also in processes with other hash seeds, locales or optimisation levels; the ids of functions, objects, arrays, frames and estimators are the same in every process that can make them, and a configuration pickled in one process has the same id in another. "
  "What does need a library says so truthfully: has_numpy() and has_pandas() are true exactly when the library works, tables of recorders and the scikit-learn wrappers work exactly when theirs does and raise an import error when it is missing, and asking does not change any answer.",
  ["configurations", "inputs", "histories"], "all combinations of working, missing and broken libraries, sets of processes, orders of imports, and everything that can be asked in them",
  "All tests run in one process with the libraries of the machine.",
  [PL, MI, RG, W, "whatami/minijoblib/hashing.py", "whatami/wrappers/what_sklearn.py"], [("has_numpy, has_pandas, numpy_plugin, rng_plugin, pandas_plugin", PL), ("_LazyImportError, is_imported", MI), ("hasher", "whatami/minijoblib/hashing.py")],
  observe=["import of whatami, ids and parses, has_numpy, has_pandas, Recorder.to_df in each process"])

p("C30", "Threads asking at once get what each would get alone",
  "Whatever several threads of a process parse, migrate, identify, compare, flatten, match or export at the same time, also the very same configurations, functions and arrays, and wherever one is interrupted for others to go on, each gets exactly the answer, or the kind of error, that it would get alone, and all of them get one. "
  "The same holds for a parse that happens in the middle of another one. When one of them changes the chain of rendering plugins (inserting, dropping, resetting), each plain value that the others render meanwhile is rendered by the chain before the change or by the chain after it, never by a mix of them or by a chain half made.",
  ["schedules", "inputs"], "all interleavings of the threads, at any line of the library and of its parser generator, over all that can be asked",
  "All tests are sequential.",
  [PA, WU, W, PL], [("DEFAULT_WHATAMI_PARSER, PerThreadParser", PA), ("WhatamiPluginManager.insert, drop, reset, build_string", PL), ("OLD_WHATID_PARSER", WU), ("What.id", W)], state=[("parsers hold the state of the parse", "one parser per thread", PA)], observe=["calls and returns of each thread, in their order"])

p("C31", "Printed, pickled or copied, a configuration comes back the same",
  "Evaluating what a configuration of plain values prints as (its repr) gives a configuration with the same name, output name, non-id parameters and parameters, in the same order and with values of the same types at every depth, and so do pickling it and copying it with the copy module, shallowly or deeply. "
  "All of them have its ids, with and without the non-id parameters, and altering anything in those printed, pickled or copied deeply never alters the original.",
  ["inputs"], "all configurations, with any output and non-id parameters, nested in any way",
  "One test looks for pieces of one repr; none evaluates it or pickles a configuration.",
  [W], [("What.__repr__", W), ("What.copy", W), ("What.__slots__", W)], observe=["repr, pickle, copy of configurations"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
