-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Keys that address parameters: What.flatten, [], get, and what is built  *)
(* on them: template matching, sorting, tabulation and plain export.       *)
(***************************************************************************)
EXTENDS Render

\* The key of a path: the name itself at the top level, otherwise a tuple
KeyOf(path) == IF Len(path) = 1 THEN path[1] ELSE Tuple(path)
PathOf(key) == IF key.t = "tuple" THEN key.e ELSE <<key>>

(***************************************************************************)
(* Order of dictionary keys, when they are all texts or all integers       *)
(***************************************************************************)
Orderable(m) == \/ \A i \in 1..Len(m) : m[i][1].t = "str"
                \/ \A i \in 1..Len(m) : m[i][1].t = "int"
KeyLt(a, b) == IF a.t = "str" THEN TextLt(a.s, b.s) ELSE IntLt(a.s, b.s)
SortDict(m) == IF Orderable(m) THEN SortSeq(m, LAMBDA p, q : KeyLt(p[1], q[1])) ELSE m

RECURSIVE Members(_, _, _)
Members(v, nonids, colls) ==
  CASE v.t = "what" -> LET c == Kept(v, nonids) IN [i \in 1..Len(c) |-> <<Str(c[i][1]), c[i][2]>>]
    [] v.t \in {"list", "tuple"} /\ colls -> [i \in 1..Len(v.e) |-> <<Int_(i - 1), v.e[i]>>]
    [] v.t \in {"dict", "odict"} /\ colls -> SortDict(v.m)
    [] v.t = "sub" -> Members(v.v, nonids, colls)
    [] OTHER -> <<>>

RECURSIVE FlattenAt(_, _, _, _, _)
FlattenAt(v, path, nonids, colls, rec) ==
  LET ms == Members(v, nonids, colls)
      One(i) == LET p == Append(path, ms[i][1])
                IN << <<p, ms[i][2]>> >> \o (IF rec THEN FlattenAt(ms[i][2], p, nonids, colls, rec) ELSE <<>>)
  IN FlattenSeqs([i \in 1..Len(ms) |-> One(i)])

\* Sequence of <<path, value>>
Flatten(w, nonids, colls, rec) == FlattenAt(w, <<>>, nonids, colls, rec)

\* Is the order of the keys fully determined?
RECURSIVE Determined(_)
Determined(v) ==
  CASE v.t = "what" -> \A i \in 1..Len(v.c) : Determined(v.c[i][2])
    [] v.t \in {"list", "tuple"} -> \A i \in 1..Len(v.e) : Determined(v.e[i])
    [] v.t = "sub" -> Determined(v.v)
    [] v.t \in {"dict", "odict"} -> Orderable(v.m) /\ \A i \in 1..Len(v.m) : Determined(v.m[i][2])
    [] OTHER -> TRUE

(***************************************************************************)
(* Following a path                                                        *)
(***************************************************************************)
Missing == [t |-> "missing"]
IndexOfValue(k) == IF k.t = "int" THEN SmallInt(k.s) ELSE IF k.t = "bool" THEN (IF k.b THEN 1 ELSE 0) ELSE 1000000

RECURSIVE Step(_, _)
Step(v, k) ==
  CASE v.t = "what" -> IF k.t = "str" /\ \E i \in 1..Len(v.c) : v.c[i][1] = k.s
                       THEN v.c[CHOOSE i \in 1..Len(v.c) : v.c[i][1] = k.s][2] ELSE Missing
    [] v.t = "whatable" -> IF k.t = "str" /\ \E i \in 1..Len(v.w.c) : v.w.c[i][1] = k.s
                           THEN v.w.c[CHOOSE i \in 1..Len(v.w.c) : v.w.c[i][1] = k.s][2] ELSE Missing
    [] v.t \in {"dict", "odict"} -> IF \E i \in 1..Len(v.m) : PyEq(v.m[i][1], k)
                                    THEN v.m[CHOOSE i \in 1..Len(v.m) : PyEq(v.m[i][1], k)][2] ELSE Missing
    [] v.t \in {"list", "tuple"} ->
         IF k.t \notin {"int", "bool"} THEN Missing
         ELSE LET n == IndexOfValue(k)
                  j == IF n < 0 THEN n + Len(v.e) ELSE n
              IN IF j \in 0..(Len(v.e) - 1) THEN v.e[j + 1] ELSE Missing
    [] v.t = "sub" -> Step(v.v, k)
    [] OTHER -> Missing

RECURSIVE Address(_, _)
Address(v, path) == IF path = <<>> THEN v
                    ELSE LET u == Step(v, Head(path)) IN IF u = Missing THEN Missing ELSE Address(u, Tail(path))

(***************************************************************************)
(* Export as plain dictionaries                                            *)
(***************************************************************************)
RECURSIVE Plain(_)
Plain(v) ==
  CASE v.t = "what" -> Dict(<< <<Str(T("whatami_name")), Str(v.n)>>,
                               <<Str(T("whatami_out_name")), v.o>>,
                               <<Str(T("whatami_conf")),
                                 Dict([i \in 1..Len(v.c) |-> <<Str(v.c[i][1]), Plain(v.c[i][2])>>])>> >>)
    [] v.t \in {"list", "tuple"} -> [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Plain(v.e[i])]]
    [] v.t = "dict" -> Dict([i \in 1..Len(v.m) |-> <<v.m[i][1], Plain(v.m[i][2])>>])
    [] OTHER -> v

(***************************************************************************)
(* Template matching.  ignored: sequence of keys (as KeyOf)                *)
(***************************************************************************)
IsIgnored(path, ignored) ==
  \E i \in 1..Len(ignored) : LET p == PathOf(ignored[i])
                             IN Len(p) <= Len(path) /\ \A j \in 1..Len(p) : PyEq(p[j], path[j])

SameAt(a, b, rec) ==
  IF rec /\ a.t = "what" /\ b.t = "what" THEN a.n = b.n /\ PyEq(a.o, b.o) ELSE PyEq(a, b)

Matches(w, tmpl, ignored, colls, rec) ==
  LET fw == Flatten(w, FALSE, colls, rec)
      ft == Flatten(tmpl, FALSE, colls, rec)
  IN /\ w.n = tmpl.n
     /\ Len(fw) = Len(ft)
     /\ \A i \in 1..Len(fw) : /\ SeqEq(fw[i][1], ft[i][1])
                              /\ IsIgnored(ft[i][1], ignored) \/ SameAt(fw[i][2], ft[i][2], rec)

(***************************************************************************)
(* Order of parameter values when sorting: integers, texts, and tuples and *)
(* lists of them                                                           *)
(***************************************************************************)
RECURSIVE ValLt(_, _)
RECURSIVE TupLt(_, _, _)
TupLt(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF PyEq(a[i], b[i]) THEN TupLt(a, b, i + 1)
  ELSE ValLt(a[i], b[i])
ValLt(a, b) == CASE a.t = "str" -> TextLt(a.s, b.s)
                 [] a.t \in {"int", "bool", "float"} -> IntLt(a.q, b.q)
                 [] OTHER -> TupLt(a.e, b.e, 1)

\* Column of a path: underscores join the names
ColumnText(k) == IF k.t = "str" THEN k.s ELSE Render(k)
ColumnName(key) == IF key.t \in {"tuple", "list"}
                   THEN Join([i \in 1..Len(key.e) |-> ColumnText(key.e[i])], T("_")) ELSE key.s
=============================================================================
