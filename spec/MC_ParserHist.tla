----------------------------- MODULE MC_ParserHist -----------------------------
(* All the short histories of parses, over one kind of each sort.           *)
EXTENDS ParserHist, Json
CONSTANTS MaxOps
VARIABLES st, hist
vars == <<st, hist>>
\* Texts with meaning, and the rest: what comes out of those in a fresh process does not matter here
Texts == << <<"ok_num", T("f(a=1)")>>, <<"ok_shared", T("f(a=[1],b=[1],c=g(d=[1]),e=g(d=[1]))")>>, <<"no_open2", T("f(a=[1,(2")>>,
            <<"odd_set", T("f(a={[1]})")>> >>
Refused == {"odd_set", "not_none", "fails_type", "kept_parser_no"}
Kinds == <<"odd_set", "not_none", "fails_type", "old", "kept_parser", "kept_parser_no", "kept_doubler", "first_parser">>
Others == {"not_none", "fails_type", "old", "kept_parser", "kept_parser_no", "kept_doubler", "first_parser"}
W == What(T("w"), None, << <<T("a"), List(<<Int_(1)>>)>> >>, <<>>)
Table == [i \in 1..Len(Kinds) |->
            LET k == Kinds[i]
            IN <<k, IF k \in Refused THEN [ok |-> FALSE, err |-> "TypeError"] ELSE [ok |-> TRUE, v |-> W]>>]
Full == {[op |-> "parse", kind |-> Texts[i][1], meaning |-> TRUE, s |-> Texts[i][2], env |-> NoEnv] : i \in 1..Len(Texts)}
Ops == Full \cup [op : {"parse"}, kind : Others, meaning : {FALSE}] \cup [op : {"change"}, i : {1, 2}]
Short(op) == IF op.op = "parse" THEN [op |-> "parse", kind |-> op.kind] ELSE op
Init == st = Start([fresh |-> Table]) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E op \in Ops : /\ st' = Step(st, op).st
                           /\ hist' = Append(hist, Short(op))
                           /\ (Len(hist') = MaxOps) => PrintT("CASE " \o ToJson([ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* What a call gives does not depend on the state, and leaves earlier results as they were
Independent == \A op \in Full \cup [op : {"parse"}, kind : Others, meaning : {FALSE}] :
                 LET r == Step(st, op)
                 IN /\ r.out = Step(Start([fresh |-> Table]), op).out
                    /\ SubSeq(r.st.results, 1, Len(st.results)) = st.results
\* A change is seen in one result only
Isolated == \A i \in 1..Len(st.results) :
              LET r == Step(st, [op |-> "change", i |-> i]).st
              IN \A j \in 1..Len(st.results) : (r.results[j] = st.results[j]) <=> (j # i)
=============================================================================
