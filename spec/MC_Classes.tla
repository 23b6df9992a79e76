------------------------------- MODULE MC_Classes -------------------------------
(* All small hierarchies under two decorating metaclasses, whatever each class    *)
(* defines.                                                                       *)
EXTENDS Classes, Json
CONSTANTS MaxClasses, Mems
MemsQuick == {T("foo")}
MemsThorough == {T("foo"), T("bar")}
VARIABLES st, hist
vars == <<st, hist>>
Foo == T("foo")  Bar == T("bar")  Alpha == T("alpha")
Self == [n |-> T("self"), k |-> "pos", has |-> FALSE]
P(has) == [n |-> Alpha, k |-> "pos", has |-> has]
Val(id, sig) == [tags |-> <<>>, id |-> id, fn |-> TRUE, coop |-> TRUE, sig |-> sig]
Tag(i) == [t |-> "tag", id |-> i]
Need == [t |-> "need", args |-> <<Alpha>>]
Meta1 == [op |-> "meta", name |-> T("Meta"), forms |-> <<"iter">>, decs |-> << <<Foo, <<Tag(101), Tag(102)>> >> >>]
Meta2 == [op |-> "meta", name |-> T("Meta"), forms |-> <<"list", "single">>,
          decs |-> << <<Foo, <<Need, Tag(103)>> >>, <<Bar, <<Tag(104)>> >> >>]
Setup == <<Meta1, Meta2>>
\* What a class may define
Owns(n) == {<<>>, << <<Foo, Val(n, <<Self, P(FALSE)>>)>> >>, << <<Foo, Val(n, <<Self, P(TRUE)>>)>> >>}
           \cup (IF Bar \in Mems THEN {<< <<Bar, Val(n + 10, <<Self>>)>>, <<Foo, Val(n, <<Self, P(FALSE)>>)>> >>} ELSE {})
Bases(s) == {<<>>} \cup {<<i>> : i \in 1..Len(s.classes)}
            \cup {<<i, j>> : i \in 1..Len(s.classes), j \in 1..Len(s.classes)}
Ops(s) == {[op |-> "class", meta |-> m, bases |-> b, own |-> o, reuse |-> 0, how |-> IF Len(b) = 1 THEN "new" ELSE "call"] :
             m \in 0..Len(s.metas), b \in {b \in Bases(s) : Len(b) < 2 \/ b[1] # b[2]}, o \in Owns(Len(s.classes) + 1)}
Init == st = Step(Step(Start(<<>>), Meta1).st, Meta2).st /\ hist = Setup
Next == /\ Len(hist) < 2 + MaxClasses
        /\ \E op \in Ops(st) :
             /\ st' = Step(st, op).st
             /\ hist' = Append(hist, op)
             /\ (Len(hist') = 2 + MaxClasses \/ ~Step(st, op).ok) => PrintT("CASE " \o ToJson([ops |-> hist']))
             /\ Step(st, op).ok
Spec == Init /\ [][Next]_vars
\* Every definition of a chosen member is wrapped by each decorator once, in order, and nothing else is
Once == \A c \in 1..Len(st.classes) : \A i \in 1..Len(st.classes[c].own) :
   LET m == st.classes[c].meta  a == st.classes[c].own[i][1]  v == st.classes[c].own[i][2]
   IN v.tags = (IF m = 1 /\ a = Foo THEN <<102, 101>> ELSE IF m = 2 /\ a = Foo THEN <<103>> ELSE IF m = 2 /\ a = Bar THEN <<104>> ELSE <<>>)
\* Classes are decorated as all those they derive from
Inherited == \A c \in 1..Len(st.classes) : \A b \in Ran(st.classes[c].bases) :
   st.classes[b].meta # 0 => st.classes[c].meta = st.classes[b].meta
\* What lacks what is required is never a member
Enforced == \A c \in 1..Len(st.classes) : (st.classes[c].meta = 2 /\ HasM(st.classes[c].own, Foo)) =>
   Alpha \in Ran(Required(GetM(st.classes[c].own, Foo).sig))
\* In a call, each definition is reached once
Reached == \A c \in 1..Len(st.classes) : LET r == Run(st, Mro(st, c), Foo, 1) IN
   \A k \in 1..Len(st.classes) : Cardinality({i \in 1..Len(r) : r[i] = k}) = IF k \in Ran(Mro(st, c)) /\ HasM(st.classes[k].own, Foo) THEN 1 ELSE 0
=============================================================================
