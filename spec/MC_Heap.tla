-------------------------------- MODULE MC_Heap --------------------------------
(* All the short histories of copies and updates over a configuration with  *)
(* mutable parameters.                                                      *)
EXTENDS Heap, Json
CONSTANTS MaxHands, MaxOps
VARIABLES st, hist
vars == <<st, hist>>
A == T("a")  B == T("b")  C == T("c")
First == What(T("w"), None, << <<A, List(<<Int_(1)>>)>>, <<B, What(T("in"), None, << <<A, List(<<>>)>> >>, <<>>)>> >>, <<>>)
Vals == {Int_(2), List(<<>>)}
Hs(s) == 1..Len(s.hands)
Ops(s) == [op : {"copy"}, h : Hs(s), deep : BOOLEAN]
          \cup [op : {"set"}, h : Hs(s), k : {A, C}, v : Vals, copy : BOOLEAN]
          \cup [op : {"poke"}, h : Hs(s), p : {<<A>>, <<B>>, <<B, A>>}]
          \cup [op : {"hide"}, h : Hs(s), k : {A}]
          \cup [op : {"whatadd"}, h : Hs(s), k : {A, C}, vs : {<<Int_(1), Str(T("x"))>>}]
New == [op |-> "new", v |-> First]
Init == st = Step(Start(<<>>), New).st /\ hist = <<New>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops(st) :
             LET r == Step(st, op)
             IN /\ Len(r.st.hands) <= MaxHands
                /\ st' = r.st
                /\ hist' = Append(hist, op)
                /\ (Len(hist') = MaxOps) => PrintT("CASE " \o ToJson([ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* A copy equals its original right away, and has the same ids
Copies == \A h \in Hs(st), deep \in BOOLEAN :
            LET s == Step(st, [op |-> "copy", h |-> h, deep |-> deep]).st
                w == WhatAt(s, s.hands[h])  c == WhatAt(s, s.hands[Len(s.hands)])
            IN SameWhat(w, c) /\ PyEq(w, c) /\ Id(w, TRUE) = Id(c, TRUE)
\* Mutable addresses reachable from a configuration
RECURSIVE Reach(_, _)
ReachObj(s, i) == UNION {Reach(s, s.objs[i].c[k][2]) : k \in 1..Len(s.objs[i].c)}
Reach(s, a) == LET v == s.mem[a]
               IN CASE v.t \in {"list", "dict", "tuple"} -> {a} \cup UNION {Reach(s, v.e[k]) : k \in 1..Len(v.e)}
                    [] v.t = "obj" -> {a} \cup ReachObj(s, v.i)
                    [] OTHER -> {}
\* A deep copy shares nothing mutable with anything
DeepIsolated == \A h \in Hs(st) :
            LET s == Step(st, [op |-> "copy", h |-> h, deep |-> TRUE]).st
                n == Len(s.hands)
            IN \A g \in 1..(n - 1) : ReachObj(s, s.hands[g]) \cap ReachObj(s, s.hands[n]) = {}
\* Setting on a copy leaves all the others as they were
SetOnCopy == \A h \in Hs(st), k \in {A, C}, v \in Vals :
            LET s == Step(st, [op |-> "set", h |-> h, k |-> k, v |-> v, copy |-> TRUE]).st
            IN \A g \in Hs(st) : WhatAt(s, s.hands[g]) = WhatAt(st, st.hands[g])
=============================================================================
