----------------------------- MODULE MC_Introspect -----------------------------
(* All hierarchies of one or two classes over a couple of names, every name   *)
(* a slot, a member, a property or nothing in each, and all short histories   *)
(* of assignments.  The code is asked with all the combinations of sources.   *)
EXTENDS Introspect, Json
CONSTANTS MaxClasses, MaxOps
VARIABLES st, hist
vars == <<st, hist>>
A == T("a")  P == T("_p")
Names == {A, P}
KindsOf == {"absent", "slot", "plain", "prop", "mirror"}
Other(n) == IF n = A THEN P ELSE A
Mem(n, k, i) == [n |-> n, k |-> k, v |-> IF k = "mirror" THEN Str(Other(n)) ELSE Int_(10 * i + (IF n = A THEN 1 ELSE 2))]
ClassOf(ka, kp, has, i) ==
  [slots |-> IF has THEN << (IF ka = "slot" THEN <<A>> ELSE <<>>) \o (IF kp = "slot" THEN <<P>> ELSE <<>>) >> ELSE <<>>,
   members |-> (IF ka \in {"plain", "prop", "mirror"} THEN <<Mem(A, ka, i)>> ELSE <<>>)
               \o (IF kp \in {"plain", "prop", "mirror"} THEN <<Mem(P, kp, i)>> ELSE <<>>)]
Classes(i) == {ClassOf(ka, kp, has, i) : ka \in KindsOf, kp \in KindsOf, has \in BOOLEAN}
Ok(cs) == \* mirrors only of what is not a property anywhere
          \A i \in 1..Len(cs) : \A m \in Range1(cs[i].members) : m.k = "mirror" =>
            \A j \in 1..Len(cs) : \A k \in Range1(cs[j].members) : k.n = m.v.s => k.k = "plain"
Hierarchies == {cs \in UNION {[1..n -> UNION {Classes(i) : i \in 1..MaxClasses}] : n \in 1..MaxClasses} :
                  Ok(cs) /\ \A i \in 1..Len(cs) : cs[i] \in Classes(i)}
Cfg(cs) == [n |-> T("K"), classes |-> cs, base |-> "object", contents |-> None]
Ops == [op : {"set"}, n : Names, v : {Int_(7)}] \cup [op : {"del"}, n : Names]
Init == /\ \E cs \in Hierarchies : st = Start(Cfg(cs))
        /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops :
             /\ Accepted(st, op)
             /\ st' = Step(st, op)
             /\ hist' = Append(hist, op)
        /\ PrintT("CASE " \o ToJson([cfg |-> st.cfg, ops |-> hist']))
Spec == Init /\ [][Next]_vars
Options == [dict : BOOLEAN, slots : BOOLEAN, props : BOOLEAN, class : BOOLEAN, prefix : {<<>>, T("_")}, postfix : {<<>>}, excludes : {<<>>}]
NamesIn(s) == {p[1] : p \in s}
\* One value per name
Functional == \A o \in Options : Cardinality(NamesIn(Expected(st, o))) = Cardinality(Expected(st, o))
\* Another source never removes anything, nor changes a value, unless it was only a class member
Monotone == \A o \in Options : \A f \in {"dict", "slots", "props"} :
              LET m == [o EXCEPT ![f] = TRUE] IN
              /\ NamesIn(Expected(st, o)) \subseteq NamesIn(Expected(st, m))
              /\ ~o.class => Expected(st, o) \subseteq Expected(st, m)
\* What was assigned and is not excluded is there when all the sources are
Assigned == \A i \in 1..Len(st.inst) :
              LET o == [dict |-> TRUE, slots |-> TRUE, props |-> TRUE, class |-> FALSE, prefix |-> <<>>, postfix |-> <<>>, excludes |-> <<>>]
              IN st.inst[i] \in Expected(st, o) /\ st.inst[i] \in Expected(st, [o EXCEPT !.class = TRUE])
\* Exclusions only remove
Trims == \A o \in Options : Expected(st, o) = {p \in Expected(st, [o EXCEPT !.prefix = <<>>]) : o.prefix = <<>> \/ ~StartsWith(p[1], o.prefix)}
=============================================================================
