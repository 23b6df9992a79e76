-------------------------------- MODULE MC_Rows --------------------------------
(* All the short lists of a few ids, sorted and tabulated by any few of their keys *)
EXTENDS Lang, Json
CONSTANTS MaxRows, Rows
VARIABLE ids
vars == ids
A == Str(T("a"))  B == Str(T("b"))  G == Str(T("g"))  C == Str(T("c"))
F(c) == What(T("f"), None, c, <<>>)
Row(x, y, z) == F(<< <<T("a"), x>>, <<T("b"), y>>, <<T("g"), What(T("h"), None, << <<T("c"), z>> >>, <<>>)>> >>)
P == Str(T("p"))  Q == Str(T("q"))
RowsQuick == {Row(Int_(x), P, z) : x \in {1, 10}, z \in {P, Q}} \cup {Row(Int_(2), Q, P), F(<< <<T("a"), Int_(0 - 3)>> >>)}
RowsThorough == {Row(Int_(x), y, z) : x \in {1, 10, 0 - 2}, y \in {P, Q}, z \in {P, Q}} \cup {F(<< <<T("a"), Int_(0 - 3)>> >>), F(<< >>)}
KeyLists == {<<A>>, <<B>>, <<B, A>>, <<A, B>>, <<Tuple(<<G, C>>), A>>, <<A, Tuple(<<G, C>>), B>>}
Init == ids = <<>>
Next == Len(ids) < MaxRows /\ \E r \in Rows : ids' = Append(ids, Id(r, FALSE))
Spec == Init /\ [][Next]_vars

Whats == [i \in 1..Len(ids) |-> ParseId(ids[i]).v]
Table(ks) == [i \in 1..Len(ids) |-> RowOf(Whats[i], ks)]
Full(ks) == \A i \in 1..Len(ids) : Missing \notin Range1(Table(ks)[i])
\* Sorting gives a permutation, in order, that keeps the order of equal rows, and does nothing twice
Sorted == \A ks \in KeyLists : Full(ks) =>
   LET t == Table(ks)  o == OrderOf(t) IN
   /\ Range1(o) = 1..Len(ids) /\ Len(o) = Len(ids)
   /\ \A i \in 1..(Len(o) - 1) : /\ ~TupLt(t[o[i + 1]], t[o[i]], 1)
                                 /\ ~TupLt(t[o[i]], t[o[i + 1]], 1) => o[i] < o[i + 1]
   /\ OrderOf([i \in 1..Len(o) |-> t[o[i]]]) = [i \in 1..Len(o) |-> i]
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Sorts == {[op |-> "sort", ids |-> ids, keys |-> ks, route |-> r] : ks \in KeyLists, r \in {"ids", "whats"}}
Index(k) == [i \in 1..Len(ids) |-> CASE k = 1 -> Int_(i - 1) [] k = 2 -> Int_(Len(ids) - i) [] k = 3 -> Int_(5)]
Columns == {[op |-> "columns", ids |-> ids, index |-> Index(k), others |-> others, all |-> ks = <<>>, keys |-> ks, prefix |-> pre, postfix |-> <<>>,
             inplace |-> k # 2, first |-> k = 3] :
            k \in 1..3, ks \in {<<>>, <<A>>, <<B, A>>, <<Tuple(<<G, C>>), A>>, <<G>>, <<Str(T("zz"))>>}, pre \in {<<>>, T("p_")},
            others \in {<<>>, << <<T("a"), [i \in 1..Len(ids) |-> Int_(i)]>>, <<T("n"), [i \in 1..Len(ids) |-> Str(T("v"))]>> >>}}
Export == Len(ids) > 0 => PrintT("CASE " \o ToJson([ops |-> SeqOfSet(Sorts) \o SeqOfSet(IF Len(ids) < MaxRows THEN Columns ELSE {})]))
=============================================================================
