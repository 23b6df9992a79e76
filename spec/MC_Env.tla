--------------------------------- MODULE MC_Env ---------------------------------
(* Processes over every state of the libraries, and what can be done in them.   *)
EXTENDS Env, Json
CONSTANTS MaxProcs, States
VARIABLES st
Names == <<"numpy", "pandas", "sklearn">>
Worlds == {[i \in 1..4 |-> IF i = 4 THEN [lib |-> "scipy", s |-> "ok"] ELSE [lib |-> Names[i], s |-> f[i]]] : f \in [1..3 -> States]}
V == [t |-> "what", n |-> T("f"), o |-> [t |-> "none"], x |-> <<>>, how |-> "plain",
      c |-> << <<T("x"), [t |-> "list", e |-> <<[t |-> "none"], [t |-> "str", s |-> T("y")]>>]>> >>]
Question == [op |-> "roundtrip", v |-> V, nonids |-> FALSE]
Ops(s) == (IF Len(s.procs) < MaxProcs THEN [op : {"start"}, libs : Worlds] ELSE {})
   \cup [op : {"import"}, p : 1..Len(s.procs), module : {"whatami.registry", "whatami.wrappers", "whatami.wrappers.what_sklearn"}]
   \cup [op : {"has"}, p : 1..Len(s.procs), lib : {"numpy", "pandas"}]
   \cup [op : {"table", "patch"}, p : 1..Len(s.procs)]
   \cup [op : {"ask"}, p : 1..Len(s.procs), do : {Question}]
   \cup [op : {"carry"}, p : 1..Len(s.procs), q : 1..Len(s.procs), protocol : {2}, do : {[op |-> "id", v |-> V, nonids |-> FALSE]}]
   \cup UNION {[op : {"thing"}, p : {p}, key : {0, 3, 5}, nested : {TRUE}] : p \in 1..Len(s.procs)}
   \cup UNION {[op : {"thing"}, p : {p}, key : {22, 26}, nested : {TRUE}] : p \in {p \in 1..Len(s.procs) : Works(Libs(s, p), "numpy")}}
   \cup UNION {[op : {"thing"}, p : {p}, key : {36}, nested : {TRUE}] : p \in {p \in 1..Len(s.procs) : Works(Libs(s, p), "pandas")}}
   \cup UNION {[op : {"thing"}, p : {p}, key : {41}, nested : {TRUE}] : p \in {p \in 1..Len(s.procs) : s.procs[p].patched}}
Init == st = Start(<<>>)
Next == \E op \in Ops(st) : /\ st' = Step(st, op)
                            /\ PrintT("EDGE " \o ToJson(<<st, op, st'>>))
Spec == Init /\ [][Next]_st
\* What is there, is there with all it needs
Grounded == \A p \in 1..Len(st.procs) :
   /\ "whatami" \in st.procs[p].loaded
   /\ \A m \in st.procs[p].loaded : CanImport(Libs(st, p), m)
   /\ st.procs[p].patched => Works(Libs(st, p), "sklearn")
\* Only what is about a library needs it
Optional == \A p \in 1..Len(st.procs) : \A m \in {"whatami", "whatami.registry", "whatami.plugins"} : CanImport(Libs(st, p), m)
\* Processes do not know of each other
Apart == \A op \in Ops(st) : \A p \in 1..Len(st.procs) : ("p" \notin DOMAIN op \/ op.p # p) => Step(st, op).procs[p] = st.procs[p]
\* Missing more can only take away
Less == \A a, b \in Worlds : (\A i \in 1..4 : b[i].s = "ok" => a[i].s = "ok")
   => \A l \in {"numpy", "pandas", "scipy", "sklearn"} : Works(b, l) => Works(a, l)
=============================================================================
