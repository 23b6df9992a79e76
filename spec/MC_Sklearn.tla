------------------------------- MODULE MC_Sklearn -------------------------------
(* Short lives of a few things of the library and of a class deriving from one of *)
(* them: made, changed also inside, cloned, patched again, with their own what(). *)
EXTENDS Sklearn, Json
CONSTANTS MaxOps, Vals, Patched
ValsQuick == {1, 2}
ValsThorough == {1, 2, 3}
VARIABLES st, hist
vars == <<st, hist>>
Lib(n, base, attrs) == [n |-> T(n), base |-> base, lib |-> TRUE, attrs |-> attrs, own |-> FALSE]
Ridge == [op |-> "class", c |-> Lib("Ridge", 0, FALSE), fqn |-> "sklearn.linear_model.Ridge"]
Bag == [op |-> "class", c |-> Lib("BaggingClassifier", 0, FALSE), fqn |-> "sklearn.ensemble.BaggingClassifier"]
KFold == [op |-> "class", c |-> Lib("KFold", 0, TRUE), fqn |-> "sklearn.model_selection.KFold"]
Mine == [op |-> "class", c |-> [n |-> T("Ridge"), base |-> 1, lib |-> FALSE, attrs |-> FALSE, own |-> FALSE],
         fqn |-> "", init |-> << <<T("alpha"), Int_(1)>>, <<T("copy_X"), Int_(1)>> >>]
Setup == <<Ridge, Bag, KFold, Mine>>
Est(i, ps) == [t |-> "est", cls |-> i, c |-> ps]
Simple(i, a, b) == Est(i, << <<T("alpha"), Int_(a)>>, <<T("copy_X"), Int_(b)>> >>)
Makes == {Simple(1, 1, 1), Simple(4, 1, 1)}
         \cup {Est(2, << <<T("base_estimator"), Simple(1, 1, 1)>>, <<T("n_estimators"), Int_(1)>>, <<T("n_jobs"), Int_(1)>> >>),
               Est(3, << <<T("n_splits"), Int_(2)>>, <<T("random_state"), Int_(1)>>, <<T("shuffle"), True_>> >>)}
At1(n) == [k |-> "p", n |-> T(n)]
Sets(x) == CASE x.cls \in {1, 4} -> {<<At1("alpha")>>, <<At1("copy_X")>>}
             [] x.cls = 2 -> {<<At1("n_jobs")>>, <<At1("n_estimators")>>, <<At1("base_estimator"), At1("alpha")>>, <<At1("base_estimator"), At1("copy_X")>>}
             [] x.cls = 3 -> {<<At1("random_state")>>}
Ops(s) == {[op |-> "new", x |-> x] : x \in Makes}
          \cup UNION {{[op |-> "set", e |-> e, path |-> p, v |-> Int_(v)] : p \in Sets(s.insts[e]), v \in Vals} : e \in 1..Len(s.insts)}
          \cup {[op |-> "clone", e |-> e] : e \in 1..Len(s.insts)}
          \cup {[op |-> o] : o \in {"patch", "check"}}
          \cup {[op |-> "own", i |-> i] : i \in {1, 3, 4}}
RECURSIVE Fold(_, _)
Fold(s, ops) == IF ops = <<>> THEN s ELSE Fold(Step(s, Head(ops)), Tail(ops))
Cfg == [patched |-> Patched]
Init == st = Fold(Start(Cfg), Setup) /\ hist = Setup
Next == /\ Len(hist) < Len(Setup) + MaxOps
        /\ \E op \in Ops(st) :
             /\ (Len(hist) = Len(Setup) => op.op \in {"new", "patch"})
             /\ st' = Step(st, op)
             /\ hist' = Append(hist, op)
             /\ Len(hist') = Len(Setup) + MaxOps => PrintT("CASE " \o ToJson([cfg |-> Cfg, ops |-> hist']))
Spec == Init /\ [][Next]_vars
IdOf(s, x) == Id(Conf(s, x), FALSE)
Last == hist[Len(hist)]
\* Short names tell classes apart
ASSUME \A i, j \in 1..Len(Table) : Table[i].short = Table[j].short => Table[i].n = Table[j].n
\* What changes with an update: nothing but the ids of what holds the parameter, and only by id parameters
NonId == {T("copy_X"), T("n_jobs")}
Updates == [][\A e \in 1..Len(st.insts) :
   IF hist'[Len(hist')].op = "own" THEN TRUE
   ELSE LET op == hist'[Len(hist')]
            a == IdOf(st, st.insts[e])  b == IdOf(st', st'.insts[e])
            mine == OwnOf(st, st.insts[e].cls) # 0
            p == op.path[Len(op.path)].n
            deep == Len(op.path) = 2
            \* The table is of library classes: in user ones all are id parameters
            counts == (st.insts[e].cls = 4 \/ p \notin NonId) /\ ~mine /\ (deep => OwnOf(st, 1) = 0)
        IN IF op.op = "set" /\ op.e = e /\ counts
           THEN (a = b) <=> (st.insts[e] = st'.insts[e])
           ELSE a = b]_vars
\* A clone is identified as the original
Clones == Last.op = "clone" => IdOf(st, st.insts[Last.e]) = IdOf(st, st.insts[Len(st.insts)])
\* The ids of parts are in the ids of wholes
Nested == \A e \in 1..Len(st.insts) : (st.insts[e].cls = 2 /\ OwnOf(st, 2) = 0) =>
   LET part == st.insts[e].c[1][2] IN Contains(IdOf(st, st.insts[e]), T("base_estimator=") \o IdOf(st, part))
\* Who answers
Answering == \A e \in 1..Len(st.insts) : st.patched => Answers(st, st.insts[e])
=============================================================================
