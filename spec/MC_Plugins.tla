------------------------------ MODULE MC_Plugins ------------------------------
(* Exhaustive exploration of the plugin chain, and of all the histories up  *)
(* to every chain (exported as edges).                                      *)
EXTENDS Plugins, Json, TLC
CONSTANTS New, Dropped, Anchors, MaxOps
Default == <<"what_plugin", "whatable_plugin", "builtin_plugin", "numeric_type_plugin", "property_plugin", "string_plugin",
             "tuple_plugin", "list_plugin", "dict_plugin", "set_plugin", "partial_plugin", "function_plugin", "pandas_plugin",
             "numpy_plugin", "rng_plugin", "anyobject0x_plugin", "anyobject_plugin">>
VARIABLES st, hist
vars == <<st, hist>>
Ops == [op : {"insert"}, p : New, before : Anchors] \cup [op : {"drop"}, p : Dropped] \cup [op : {"reset"}]
Init == st = Start([default |-> Default]) /\ hist = 0
Next == \E op \in Ops :
          LET r == Step(st, op)
          IN /\ st' = r.st
             /\ PrintT("EDGE " \o ToJson(<<st.chain, op, r.st.chain, r.ok>>))
             /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
\* Properties of the design
Unique == NoDuplicates(st.chain)
Subset == \A i \in 1..Len(st.chain) : In(st.chain[i], Default) \/ st.chain[i] \in New
\* The plugins that stay keep their relative order
OrderKept == \A i, j \in 1..Len(Default) :
               i < j /\ In(Default[i], st.chain) /\ In(Default[j], st.chain) /\ Default[i] \notin New /\ Default[j] \notin New
               => Pos(Default[i], st.chain) < Pos(Default[j], st.chain)
RefusedUnchanged == [][\A op \in Ops : ~Step(st, op).ok => Step(st, op).st = st]_vars
=============================================================================
