-------------------------------- MODULE MC_Arrays --------------------------------
(* All short histories of views, copies and changes of a small array, and of two *)
(* generators; every one is replayed, asking everybody for an id at the end.     *)
EXTENDS Arrays, Json
CONSTANTS Depth, Shapes, Things
ShapesQuick == {<<2>>, <<1, 2>>, <<2, 2>>}
ShapesThorough == {<<>>, <<0, 2>>, <<3>>, <<1, 2>>, <<2, 2>>, <<2, 1, 2>>}
VARIABLES st, hist
vars == <<st, hist>>
Nd == T("ndarray")  I8 == T("i8")
Count(shape) == Prod(shape)
News == {[op |-> "new", cls |-> Nd, dt |-> I8, shape |-> s, order |-> o, e |-> [i \in 1..Prod(s) |-> i % 4]] : s \in Shapes, o \in {"C", "F"}}
        \cup {[op |-> "rng", cls |-> T("RandomState"), seed |-> 1]}
Perms(n) == {[i \in 1..n |-> n + 1 - i]} \cup (IF n = 3 THEN {<<2, 1, 3>>} ELSE {})
Cuts1(d) == IF d = 0 THEN {<<0, 0, 1>>} ELSE {<<0, d, 1>>, <<d - 1, d, -1>>, <<0, 1, 1>>}
            \cup (IF d = 3 THEN {<<0, 2, 2>>} ELSE {}) \cup (IF d = 2 THEN {<<1, 1, 1>>} ELSE {})
RECURSIVE CutsFrom(_)
CutsFrom(s) == IF s = <<>> THEN {<<>>} ELSE {<<c>> \o r : c \in Cuts1(s[1]), r \in CutsFrom(Tail(s))}
OfArr(s, i) == LET a == s.things[i]  n == Len(a.shape) IN
  {[op |-> "transpose", a |-> i, perm |-> p] : p \in Perms(n)}
  \cup {[op |-> "copy", a |-> i, order |-> o] : o \in {"C", "F"}}
  \cup (IF n > 0 THEN {[op |-> "slice", a |-> i, cuts |-> c] : c \in CutsFrom(a.shape)} ELSE {})
  \cup (IF n < 3 THEN {[op |-> "newaxis", a |-> i, at |-> p] : p \in {1, n + 1}} ELSE {})
  \cup (IF Prod(a.shape) > 0 THEN {[op |-> "put", a |-> i, at |-> [d \in 1..n |-> a.shape[d] - 1], v |-> 0]} ELSE {})
  \cup {[op |-> "clone", a |-> i]} \cup {[op |-> "ascls", a |-> i, cls |-> T("MyArray")], [op |-> "asdt", a |-> i, dt |-> T("u8")]}
OfRng(s, i) == {[op |-> "draw", a |-> i, n |-> 2], [op |-> "clone", a |-> i]}
               \cup (IF s.things[i].gauss = 0 THEN {[op |-> "rng", cls |-> T("RandomState"), seed |-> 1]} ELSE {})
Ops(s) == UNION {IF s.things[i].k = "arr" THEN OfArr(s, i) ELSE OfRng(s, i) : i \in 1..Len(s.things)}
Asks(s) == [i \in 1..Len(s.things) |-> [op |-> "ask", x |-> [t |-> "leaf", i |-> i]]]
Init == st = Start(<<>>) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in IF hist = <<>> THEN News ELSE Ops(st) :
             /\ Len(st.things) < Things \/ op.op \in {"put", "draw"}
             /\ st' = Step(st, op)
             /\ hist' = Append(hist, op)
             /\ Len(hist') = Depth => PrintT("CASE " \o ToJson([ops |-> hist' \o Asks(st')]))
Spec == Init /\ [][Next]_vars
Arr(i) == st.things[i]
Arrs == {i \in 1..Len(st.things) : st.things[i].k = "arr"}
\* All within their memory
Within == \A i \in Arrs : \A j \in 1..Prod(Arr(i).shape) :
            Arr(i).off + Dot(IndexOfFlat(Arr(i).shape, j - 1), Arr(i).strides) \in 1..Len(st.bufs[Arr(i).buf])
\* Codes tell apart whatever has different classes, types, shapes, elements or layouts, and nothing else
Injective == \A i, j \in Arrs :
   (ArrCode(st, Arr(i)) = ArrCode(st, Arr(j))) <=>
     /\ Arr(i).cls = Arr(j).cls /\ Arr(i).dt = Arr(j).dt /\ Arr(i).shape = Arr(j).shape
     /\ Elems(st, Arr(i)) = Elems(st, Arr(j)) /\ Layout(Arr(i)) = Layout(Arr(j))
\* Contiguous arrays have the code of their copies in the same order
Copies == \A i \in Arrs : LET a == Arr(i) IN \A o \in {"C", "F"} :
   IsOrder(a, o) => LET s == Step(st, [op |-> "copy", a |-> i, order |-> o])
                        b == s.things[Len(s.things)]
                    IN ArrCode(s, b) = ArrCode(st, a)
\* Transposing twice changes nothing
Twice == \A i \in Arrs : LET a == Arr(i)  p == [d \in 1..Len(a.shape) |-> Len(a.shape) + 1 - d]
   IN LET s1 == Step(st, [op |-> "transpose", a |-> i, perm |-> p])
          s2 == Step(s1, [op |-> "transpose", a |-> Len(s1.things), perm |-> p])
      IN s2.things[Len(s2.things)] = a
\* A change is seen by all those sharing that place, and by nobody else
PutSeen == \A i \in Arrs : LET a == Arr(i) IN (Prod(a.shape) > 0) =>
   LET at == [d \in 1..Len(a.shape) |-> a.shape[d] - 1]
       place == a.off + Dot(at, a.strides)
       s == Step(st, [op |-> "put", a |-> i, at |-> at, v |-> 9])
   IN \A j \in Arrs : LET b == Arr(j) IN
        (ArrCode(s, b) # ArrCode(st, b)) <=>
          /\ b.buf = a.buf
          /\ \E k \in 1..Prod(b.shape) : b.off + Dot(IndexOfFlat(b.shape, k - 1), b.strides) = place
=============================================================================
