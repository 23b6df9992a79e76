-------------------------------- MODULE MC_Calls --------------------------------
(* All short programs over two functions: calls, updates of the variables,       *)
(* captures at every depth, updates of what was captured.                        *)
EXTENDS Calls, Json
CONSTANTS MaxOps, MaxDepth, MaxHands
VARIABLES st, hist
vars == <<st, hist>>
X == T("x")  Y == T("y")  S == T("self")  J == T("j")
P(n, k, has) == [n |-> n, k |-> k, has |-> has, d |-> IF has THEN Int_(8) ELSE None]
F == [op |-> "call", n |-> T("f"), sig |-> <<P(S, "pos", FALSE), P(X, "pos", FALSE), P(Y, "pos", TRUE)>>, va |-> <<>>, kw |-> <<T("kw")>>,
      args |-> <<Int_(0), Int_(1)>>, kws |-> << <<T("e"), Int_(3)>> >>, cell |-> FALSE]
G(args) == [op |-> "call", n |-> T("g"), sig |-> <<P(X, "pos", FALSE), P(Y, "kwonly", TRUE)>>, va |-> <<T("args")>>, kw |-> <<>>,
            args |-> args, kws |-> << >>, cell |-> TRUE]
Calls == {F, G(<<Int_(1)>>), G(<<Int_(1), Int_(2)>>)}
Dict_(d, ign, novar, ov, over) == [op |-> "dict", depth |-> d, default |-> ign = <<S, T("cls")>>, ignores |-> ign, novar |-> novar,
                                   overrides |-> ov, over |-> over]
Ops(s) == (IF Len(s.stack) < MaxDepth THEN Calls ELSE {})
          \cup (IF Len(s.stack) = 0 THEN {} ELSE
                  [op : {"set"}, n : {X, J}, v : {Int_(9)}]
                  \cup {Dict_(d, <<S, T("cls")>>, nv, <<>>, <<>>) : d \in 1..Len(s.stack), nv \in BOOLEAN}
                  \cup {Dict_(1, <<X>>, TRUE, << <<Y, Int_(6)>>, <<X, Int_(6)>> >>, << <<Y, Int_(7)>> >>)}
                  \cup {[op |-> "what", depth |-> d, nonids |-> ns] : d \in 1..Len(s.stack), ns \in {<<>>, <<X>>}}
                  \cup {[op |-> "put", h |-> h, n |-> X, v |-> Int_(5)] : h \in 1..Len(s.hands)}
                  \cup (IF Level(s, 1).kw # <<>> THEN {[op |-> "extra", n |-> T("e"), v |-> Int_(4)]} ELSE {}))
          \cup (IF Len(s.stack) > 1 THEN {[op |-> "return"]} ELSE {})
Init == st = Start(<<>>) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops(st) :
             /\ Len(Step(st, op).st.hands) <= MaxHands
             /\ st' = Step(st, op).st
             /\ hist' = Append(hist, op)
             /\ (Len(hist') = MaxOps /\ Len(st'.hands) > 0) => PrintT("CASE " \o ToJson([ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* What was captured stays as captured, whatever happens to the call, and the call whatever happens to it
Snapshots == \A op \in Ops(st) : LET s == Step(st, op).st IN
   /\ op.op # "put" => \A h \in 1..Len(st.hands) : s.hands[h] = st.hands[h]
   /\ op.op = "put" => s.stack = st.stack /\ \A h \in 1..Len(st.hands) : h # op.h => s.hands[h] = st.hands[h]
   /\ op.op \in {"dict", "what"} => s.stack = st.stack
\* Overrides are applied last; nothing ignored is there, unless as an override; the rest is
Arguments == \A op \in Ops(st) : (op.op = "dict" /\ Step(st, op).ok) =>
   LET s == Step(st, op).st  d == OfDict(s.hands[Len(s.hands)])  f == Level(st, op.depth) IN
   /\ \A i \in 1..Len(op.over) : GetP(d, op.over[i][1]) = op.over[i][2]
   /\ \A i \in 1..Len(op.overrides) : HasP(op.over, op.overrides[i][1]) \/ GetP(d, op.overrides[i][1]) = op.overrides[i][2]
   /\ \A j \in 1..Len(f.sig) : LET n == f.sig[j].n IN
        IF HasP(op.over, n) \/ HasP(op.overrides, n) THEN TRUE
        ELSE IF n \in Range1(op.ignores) THEN ~HasP(d, n) ELSE GetP(d, n) = GetP(f.vars, n)
   /\ Cardinality({d[i][1] : i \in 1..Len(d)}) = Len(d)
=============================================================================
