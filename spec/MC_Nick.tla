-------------------------------- MODULE MC_Nick --------------------------------
EXTENDS Nick, Json
CONSTANTS NNicks, NIds
VARIABLES st
vars == st
Nicks == {T("n") \o <<48 + i>> : i \in 1..NNicks}
\* A nickname can read like an id
Ids == {T("n1")} \cup {T("i") \o <<48 + i>> : i \in 2..NIds}
Ops == [op : {"register", "remove"}, r : {1}, nick : Nicks \cup {NoText}, id : Ids \cup {NoText}]
       \cup [op : {"reset"}, r : {1}]
Init == st = Start([registries |-> 1])
Next == \E op \in Ops :
          LET r == Step(st, op) IN st' = r.st /\ PrintT("EDGE " \o ToJson(<<st, op, r.st>>))
Spec == Init /\ [][Next]_vars
AlwaysOneToOne == OneToOne(st[1])
\* Refusals change nothing, and what was accepted and not removed is there
Refused == \A op \in Ops : ~Step(st, op).ok => Step(st, op).st = st
Again == \A p \in st[1] : LET r == Step(st, [op |-> "register", r |-> 1, nick |-> p[1], id |-> p[2]]) IN r.ok /\ r.st = st
Undo == \A op \in Ops : (op.op = "register" /\ Step(st, op).ok /\ <<op.nick, op.id>> \notin st[1])
          => Step(Step(st, op).st, [op |-> "remove", r |-> 1, nick |-> op.nick, id |-> NoText]).st = st
=============================================================================
