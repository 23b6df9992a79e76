-------------------------------- MODULE MC_Bind --------------------------------
(* All signatures of a few parameters and all short nestings of applications *)
EXTENDS Bind, Json
CONSTANTS MaxParams, MaxLayers, MaxPos, MaxKw
VARIABLES st, hist, cfg
vars == <<st, hist, cfg>>
Names == <<T("a"), T("b"), T("c"), T("d")>>
Sigs == {[i \in 1..n |-> [n |-> Names[i], has |-> i > n - d, d |-> IF i > n - d THEN Int_(90 + i) ELSE None]]
         : n \in 0..MaxParams, d \in 0..MaxParams}
Cfgs == {[n |-> T("f"), sig |-> s] : s \in Sigs} \cup {[n |-> n, sig |-> <<>>, open |-> TRUE] : n \in {T("max"), T("Opener")}}
\* Keywords among the parameters, and one that is not
KwNames == {Names[i] : i \in 1..MaxParams} \cup {T("zz")}
Fresh(k) == Int_(10 * (Len(hist) + 1) + k)
KwSets == {s \in SUBSET KwNames : Cardinality(s) <= MaxKw}
Order(s) == CHOOSE q \in [1..Cardinality(s) -> s] : \A i, j \in 1..Cardinality(s) : i < j => TextLt(q[i], q[j])
Ops == {[op |-> "apply", pos |-> [i \in 1..p |-> Fresh(i)], kw |-> [i \in 1..Cardinality(s) |-> <<Order(s)[i], Fresh(5 + i)>>]]
        : p \in 0..MaxPos, s \in KwSets}
       \cup {[op |-> "redefault", ds |-> [i \in 1..Defaulted(st, Len(st.sig)) |-> Fresh(i)]]}
Init == cfg \in Cfgs /\ st = Start(cfg) /\ hist = <<>>
Next == /\ Len(hist) < MaxLayers
        /\ \E op \in Ops :
             /\ st' = Step(st, op)
             /\ hist' = Append(hist, op)
             /\ UNCHANGED cfg
             /\ (Len(hist') = MaxLayers \/ Invalid(st')) => PrintT("CASE " \o ToJson([cfg |-> cfg, ops |-> hist']))
Spec == Init /\ [][Next]_vars
Constr == ~Invalid(st)
\* Every bound name is a parameter, once
Sound == LET b == Bound(st)
         IN \A i \in 1..Len(b) : (st.open \/ \E j \in 1..Len(st.sig) : st.sig[j].n = b[i][1]) /\ \A k \in 1..Len(b) : b[k][1] = b[i][1] => k = i
\* Defaults never go missing, and what was bound is never unbound
Nothing == st.open /\ ~Invalid(st) => st.pos = <<>> /\ \A i \in 1..Len(st.kw) : HasName(Bound(st), st.kw[i][1])
Defaults == Invalid(st) \/ \A j \in 1..Len(st.sig) : st.sig[j].has => BoundTo(st, j) # <<>>
Grows == \A op \in Ops : LET s == Step(st, op) IN
           /\ Invalid(st) => Invalid(s)
           /\ ~Invalid(s) => \A j \in 1..Len(st.sig) : BoundTo(st, j) # <<>> => BoundTo(s, j) # <<>>
\* Two applications in a row are one
OneByOne == \A op \in Ops : Len(hist) = 0 \/
              LET l == hist[Len(hist)]
              IN Len(hist) # 1 \/ l.op # "apply" \/ op.op # "apply" \/ Step(st, op) = Apply(Start(cfg), l.pos \o op.pos, SelectSeq(l.kw, LAMBDA p : ~HasName(op.kw, p[1])) \o op.kw)
\* Other defaults change nothing of what was applied
AppliedStays == \A op \in Ops : op.op = "redefault" => LET s == Step(st, op) IN
           /\ Invalid(st) <=> Invalid(s)
           /\ \A j \in 1..Len(st.sig) : ByPosition(st, j) \/ HasName(st.kw, st.sig[j].n) => BoundTo(s, j) = BoundTo(st, j)
=============================================================================
