------------------------------- MODULE MC_Threads -------------------------------
(* All interleavings of small programs, each operation in Cuts + 1 pieces.      *)
EXTENDS Threads, Json
CONSTANTS MaxThreads, MaxOps, Cuts, Kinds, Chains
VARIABLES st, left, hist
vars == <<st, left, hist>>
V == [t |-> "what", n |-> T("f"), o |-> [t |-> "none"], x |-> <<>>,
      c |-> << <<T("x"), [t |-> "list", e |-> <<[t |-> "none"], [t |-> "str", s |-> T("y")]>>]>>,
               <<T("y"), [t |-> "what", n |-> T("g"), o |-> [t |-> "none"], x |-> <<>>, c |-> <<>>]>> >>]
Do(kind) == CASE kind = "roundtrip" -> [op |-> "roundtrip", v |-> V, nonids |-> FALSE]
              [] kind = "parse" -> [op |-> "parse", s |-> T("h(a=(1,2),b={'k':None})")]
              [] kind = "reject" -> [op |-> "parse", s |-> T("h(a=(1,2),b={'k':None)")]
              [] kind = "old" -> [op |-> "old", s |-> T("A#x=1#y=[2,3]")]
\* The first thread changes the chain, the others render
Default == <<"what_plugin", "whatable_plugin", "builtin_plugin", "numeric_type_plugin", "property_plugin", "string_plugin", "tuple_plugin", "list_plugin",
             "dict_plugin", "set_plugin", "partial_plugin", "function_plugin", "pandas_plugin", "numpy_plugin", "rng_plugin",
             "anyobject0x_plugin", "anyobject_plugin">>
Writing == {[op |-> "insert", p |-> "c1", before |-> "what_plugin"], [op |-> "insert", p |-> "c5", before |-> "default"],
            [op |-> "drop", p |-> "string_plugin"], [op |-> "reset"]}
Reading == {[op |-> "chained", v |-> [t |-> "int", s |-> T("3"), q |-> T("3"), py |-> T("3")]],
            [op |-> "chained", v |-> [t |-> "tuple", e |-> <<>>, py |-> T("()")]],
            [op |-> "chained", v |-> [t |-> "list", e |-> <<>>, py |-> T("[]")]]}
Of(does) == UNION {[1..n -> {[do |-> d] : d \in does}] : n \in 1..MaxOps}
Programs == UNION {[1..n -> Kinds] : n \in 1..MaxOps}
ChainInit == \E p \in [1..MaxThreads -> Of(Writing) \cup Of(Reading)] :
               /\ p[1] \in Of(Writing) /\ \A t \in 2..MaxThreads : p[t] \in Of(Reading)
               /\ st = Start([programs |-> p, ended |-> [t \in 1..MaxThreads |-> TRUE], alone |-> <<>>, chain |-> Default])
Init == /\ IF Chains THEN ChainInit ELSE \E p \in [1..MaxThreads -> Programs] :
              st = Start([programs |-> [t \in 1..MaxThreads |-> [k \in 1..Len(p[t]) |-> [do |-> Do(p[t][k])]]],
                          ended |-> [t \in 1..MaxThreads |-> TRUE], alone |-> <<>>])
        /\ left = [t \in 1..MaxThreads |-> 0]
        /\ hist = <<>>
\* left: the pieces left of the operation of each busy thread
Piece(t) == \/ /\ CanCall(st, t)
               /\ st' = Call(st, t)
               /\ left' = [left EXCEPT ![t] = Cuts]
            \/ /\ CanReturn(st, t) /\ left[t] > 0
               /\ left' = [left EXCEPT ![t] = @ - 1]
               /\ st' = IF left[t] = 1 THEN Return(st, t) ELSE st
Next == \E t \in 1..MaxThreads : /\ Piece(t)
                                 /\ hist' = Append(hist, t)
                                 /\ Over(st') => PrintT("CASE " \o ToJson([programs |-> st.programs, schedule |-> hist', shared |-> <<>>,
                                                                           pick |-> Len(hist'), reach |-> IF Chains THEN 2 ELSE 3]))
Spec == Init /\ [][Next]_vars
\* Each in its own order, each as far as its pieces
Orderly == \A t \in 1..MaxThreads : /\ st.at[t] <= Len(st.programs[t])
                                    /\ (t \in st.busy) <=> (left[t] > 0)
Progress == Over(st) \/ \E t \in 1..MaxThreads : CanCall(st, t) \/ CanReturn(st, t)
\* Two chains at most; one, when nobody is changing it; and renderings always have some chain to go by
OneChain == /\ Cardinality(st.now) \in 1..2
            /\ (\A t \in st.busy : Doing(st, t).op \notin Changes) => Cardinality(st.now) = 1
            /\ \A t \in st.busy : st.seen[t] # {}
            /\ \A t \in st.busy : Doing(st, t).op \in Changes => Cardinality(st.seen[t]) = 1
            /\ \A c \in st.now : P!NoDuplicates(c)
\* A rendering that nothing interrupted has one chain to go by
Quiet == \A t \in st.busy : (st.busy = {t} /\ Doing(st, t).op = "chained" /\ hist[Len(hist)] = t /\ left[t] = Cuts) => Cardinality(st.seen[t]) = 1
=============================================================================
