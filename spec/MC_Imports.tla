------------------------------- MODULE MC_Imports -------------------------------
(* A package with a module and a subpackage (named like another library), and   *)
(* that library: each working or failing in either way; all short histories.    *)
EXTENDS Imports, Json
CONSTANTS MaxOps
VARIABLES st, hist, cfg
vars == <<st, hist, cfg>>
One == T("vpone")  Two == T("vptwo")  Alpha == T("alpha")  Beta == T("beta")  K == T("K")
M(p, pkg, s, needs, has) == [path |-> p, pkg |-> pkg, s |-> s, needs |-> needs, has |-> has]
States == {"ok", "import", "other"}
Worlds == {[mods |-> <<M(<<One>>, TRUE, a, <<>>, << <<T("foo"), 1>> >>), M(<<One, Alpha>>, FALSE, b, n, << <<T("foo"), 2>> >>),
                       M(<<One, Two>>, TRUE, c, <<>>, <<>>), M(<<One, Two, Beta>>, FALSE, d, <<>>, <<>>),
                       M(<<Two>>, FALSE, e, <<>>, << <<T("foo"), 3>> >>)>>,
            classes |-> << << <<One, Alpha, K>>, 0, 0>>, << <<Two, K>>, 4, 0>> >>] :
           a \in States, b \in States, c \in States, d \in {"ok", "other"}, e \in States, n \in {<<>>, << <<Two>> >>}}
Libs == {<<One, Alpha>>, <<Two>>, <<T("vpmissing")>>}
Ops(s) == [op : {"maybe"}, lib : Libs, hint : {<<>>, <<T("conda")>>}, variants : {<<>>}]
          \cup {[op |-> "maybe", lib |-> <<T("vplib")>>, hint |-> <<T("pip")>>, variants |-> <<a, b>>] : a \in Libs, b \in Libs}
          \cup [op : {"submodules"}, pkg : {<<One>>}, deep : BOOLEAN, ignore : BOOLEAN]
          \cup [op : {"member"}, fqn : {Append(l, T("foo")) : l \in Libs}, fail : BOOLEAN, hint : {<<>>}, variants : {<<>>}]
          \cup [op : {"whatamize"}, class : {<<One, Alpha, K>>, <<Two, K>>}, f : {9}, force : BOOLEAN, fail : BOOLEAN, byclass : {FALSE}]
          \cup [op : {"install"}, path : {m.path : m \in {m \in Ran(s.mods) : m.s # "ok"}}]
          \cup [op : {"use"}, h : 1..Len(s.hands), attr : {T("module")}]
Init == \E w \in Worlds : cfg = w /\ st = Start(w) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops(st) :
             /\ st' = Step(st, op)
             /\ hist' = Append(hist, op)
             /\ cfg' = cfg
             /\ Len(hist') = MaxOps => PrintT("CASE " \o ToJson([cfg |-> cfg, ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* Whatever is imported is all there: its packages and what it needs
NeverHalfWay == \A m \in Ran(st.mods) : Importable(st, m.path) =>
   (m.s = "ok" /\ \A i \in 1..Len(m.path) : Importable(st, SubSeq(m.path, 1, i)))
\* What is importable stays so; installing can only help
Monotonic == \A op \in Ops(st) : \A m \in Ran(st.mods) : Importable(st, m.path) => Importable(Step(st, op), m.path)
\* Exactly one of a module or a stand-in with everything tried
Late == \A op \in Ops(st) : op.op = "maybe" => LET m == Maybe(st, op) IN (m.ok <=> m.hand = <<>>) /\ (m.ok => Importable(st, m.mod))
\* Without failures, collecting does not depend on whether they are ignored; if they are, it is the best effort
Collecting == \A op \in Ops(st) : op.op = "submodules" =>
   /\ (CollectOk(st, op) /\ ~op.ignore) => Collected(st, op) = Reached(st, op.pkg, op.deep)
   /\ ~Importable(st, op.pkg) => Collected(st, op) = {}
   /\ ~op.deep => Collected(st, op) \subseteq Collected(st, [op EXCEPT !.deep = TRUE])
\* An existing what is only replaced when forced
Polite == \A op \in Ops(st) : (op.op = "whatamize" /\ ~op.force) =>
   \A i \in 1..Len(st.classes) : (st.classes[i][2] # 0 \/ st.classes[i][3] # 0) => Step(st, op).classes[i] = st.classes[i]
=============================================================================
