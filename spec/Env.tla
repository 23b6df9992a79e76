---------------------------------- MODULE Env ----------------------------------
(***************************************************************************)
(* Processes.  numpy, pandas, scipy and scikit-learn are optional: each of  *)
(* them is "ok", "missing" or "broken" in a process.  Whatever they are, and *)
(* whatever else tells a process from another (not in the state: nothing    *)
(* may depend on it), what is asked has one answer, that of Lang.           *)
(* st.procs: for each process, [libs, loaded, patched]:                     *)
(*   libs: [lib, s] for each library; loaded: the modules of whatami that   *)
(*   were asked for and are there; patched: whether scikit-learn was        *)
(* st.seen: <<thing, its id>> for the things with an id that Lang does not  *)
(*   say (hashes, code...): the first process that is asked says it for all *)
(***************************************************************************)
EXTENDS Text, TLC, FiniteSets
L == INSTANCE Lang

Ran(s) == {s[i] : i \in 1..Len(s)}
Start(cfg) == [procs |-> <<>>, seen |-> <<>>]

Requires(lib) == CASE lib = "numpy" -> {"numpy"}
                   [] lib = "pandas" -> {"numpy", "pandas"}
                   [] lib = "scipy" -> {"numpy", "scipy"}
                   [] lib = "sklearn" -> {"numpy", "scipy", "sklearn"}
StateOf(libs, lib) == LET i == CHOOSE i \in 1..Len(libs) : libs[i].lib = lib IN libs[i].s
Works(libs, lib) == \A l \in Requires(lib) : StateOf(libs, l) = "ok"
\* All that keeps it from working is that libraries are not there
JustMissing(libs, lib) == \A l \in Requires(lib) : StateOf(libs, l) # "broken"

\* Modules of whatami that are about a library
About(m) == IF m \in {"whatami.wrappers", "whatami.wrappers.what_sklearn"} THEN {"sklearn"} ELSE {}
CanImport(libs, m) == \A l \in About(m) : Works(libs, l)
Loads(m) == IF About(m) # {} THEN {"whatami", "whatami.wrappers", "whatami.wrappers.what_sklearn"} ELSE {"whatami", m}

Libs(st, p) == st.procs[p].libs
Step(st, op) ==
  CASE op.op = "start" -> [st EXCEPT !.procs = Append(@, [libs |-> op.libs, loaded |-> {"whatami"}, patched |-> FALSE])]
    [] op.op = "import" -> IF CanImport(Libs(st, op.p), op.module) THEN [st EXCEPT !.procs[op.p].loaded = @ \cup Loads(op.module)] ELSE st
    [] op.op = "patch" -> IF Works(Libs(st, op.p), "sklearn")
                          THEN [st EXCEPT !.procs[op.p].loaded = @ \cup Loads("whatami.wrappers"), !.procs[op.p].patched = TRUE] ELSE st
    [] OTHER -> st

\* A failure to import is an import error, but for libraries that fail otherwise
JImport(libs, lib, works, o) == IF works THEN (IF o.ok THEN "" ELSE "must_be_imported")
                                ELSE IF o.ok THEN "imported_without_library"
                                ELSE IF JustMissing(libs, lib) /\ ~o.importerror THEN "import_error" ELSE ""

Thing(op) == <<op.key, op.nested>>
JThing(st, op) ==
  IF ~(op.need = "" \/ (Works(Libs(st, op.p), op.need) /\ (op.need = "sklearn" => st.procs[op.p].patched))) THEN ""
  ELSE IF ~op.obs.ok THEN "thing_error"
  ELSE IF \E i \in 1..Len(st.seen) : st.seen[i][1] = Thing(op) /\ st.seen[i][2] # op.obs.v THEN "another_id_in_another_process"
  ELSE ""

JOp(st, op) ==
  CASE op.op = "start" -> IF op.obs.ok THEN "" ELSE "whatami_must_be_imported"
    [] op.op = "import" -> JImport(Libs(st, op.p), "sklearn", CanImport(Libs(st, op.p), op.module), op.obs)
    [] op.op = "patch" -> JImport(Libs(st, op.p), "sklearn", Works(Libs(st, op.p), "sklearn"), op.obs)
    \* Tables are of pandas: without it, the stand-in tells of it (an import error, however pandas fails)
    [] op.op = "table" -> IF Works(Libs(st, op.p), "pandas") THEN (IF op.obs.ok /\ op.obs.v = 0 THEN "" ELSE "table")
                          ELSE IF ~op.obs.ok /\ op.obs.importerror THEN "" ELSE "table_without_pandas"
    [] op.op = "has" -> IF op.obs.ok /\ op.obs.v = Works(Libs(st, op.p), op.lib) THEN "" ELSE "has_library"
    [] op.op = "thing" -> JThing(st, op)
    [] op.op = "carry" -> L!Judge(<<>>, op.do).bad
    [] op.op = "ask" -> IF ~op.obs.ok THEN "cannot_be_asked" ELSE L!Judge(<<>>, op.do).bad

Judge(st, op) ==
  LET bad == JOp(st, op)
      s == Step(st, op)
  IN [st |-> IF op.op = "thing" /\ op.obs.ok THEN [s EXCEPT !.seen = Append(@, <<Thing(op), op.obs.v>>)] ELSE s, bad |-> bad]
=============================================================================
