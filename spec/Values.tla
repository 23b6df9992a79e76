------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Abstract Python values, as records:                                     *)
(*   [t |-> "none"]                                                        *)
(*   [t |-> "bool",  b, q]          q: exact value, as a text ("0", "1")   *)
(*   [t |-> "int",   s, q]          s: decimal text                        *)
(*   [t |-> "float", s, q]          s: Python's repr; q: exact value       *)
(*   [t |-> "cplx",  s]                                                    *)
(*   [t |-> "str",   s]                                                    *)
(*   [t |-> "list" | "tuple" | "set" | "fset", e]                          *)
(*   [t |-> "dict",  m]             m: sequence of <<key, value>>          *)
(*   [t |-> "odict", n, m]          ordered dict (n: class name)           *)
(*   [t |-> "sub",   n, v]          v seen as a subclass n of its type     *)
(*   [t |-> "class", s]             s: qualified name                      *)
(*   [t |-> "what",  n, o, c, x]    configuration: name, output name,      *)
(*        c: sequence of <<name, value>>, x: sequence of non-id names      *)
(*   [t |-> "whatable", w]          an object whose what() is w            *)
(*   [t |-> "opaque", s]            anything else, rendered by str() as s  *)
(***************************************************************************)
EXTENDS Text

None == [t |-> "none"]
True_ == [t |-> "bool", b |-> TRUE, q |-> <<49>>]
False_ == [t |-> "bool", b |-> FALSE, q |-> <<48>>]
Bool(x) == IF x THEN True_ ELSE False_
IntT(s) == [t |-> "int", s |-> s, q |-> s]
Int_(n) == IntT(IF n < 0 THEN <<45>> \o NatText(0 - n) ELSE NatText(n))
Str(s) == [t |-> "str", s |-> s]
List(e) == [t |-> "list", e |-> e]
Tuple(e) == [t |-> "tuple", e |-> e]
Dict(m) == [t |-> "dict", m |-> m]
What(n, o, c, x) == [t |-> "what", n |-> n, o |-> o, c |-> c, x |-> x]

IsNumeric(v) == v.t \in {"bool", "int", "float"}
NaN == T("nan")

(***************************************************************************)
(* Python equality (==)                                                    *)
(***************************************************************************)
RECURSIVE PyEq(_, _)
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : PyEq(a[i], b[i])
SetEq(a, b) == /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : PyEq(a[i], b[j])
               /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : PyEq(a[i], b[j])
MapEq(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : PyEq(a[i][1], b[j][1]) /\ PyEq(a[i][2], b[j][2])
ConfEq(a, b) == /\ Len(a) = Len(b)
                /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i][1] = b[j][1] /\ PyEq(a[i][2], b[j][2])
PyEq(a, b) ==
  IF IsNumeric(a) /\ IsNumeric(b) THEN a.q # NaN /\ a.q = b.q
  ELSE IF a.t = "sub" THEN PyEq(a.v, b)
  ELSE IF b.t = "sub" THEN PyEq(a, b.v)
  ELSE IF a.t \in {"set", "fset"} /\ b.t \in {"set", "fset"} THEN SetEq(a.e, b.e)
  ELSE IF a.t = "odict" /\ b.t = "odict" THEN
       Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : PyEq(a.m[i][1], b.m[i][1]) /\ PyEq(a.m[i][2], b.m[i][2])
  ELSE IF a.t \in {"dict", "odict"} /\ b.t \in {"dict", "odict"} THEN MapEq(a.m, b.m)
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "none" -> TRUE
         [] a.t \in {"str", "class", "cplx", "opaque"} -> a.s = b.s
         [] a.t \in {"list", "tuple"} -> SeqEq(a.e, b.e)
         [] a.t = "what" -> a.n = b.n /\ PyEq(a.o, b.o) /\ ConfEq(a.c, b.c)
         [] a.t = "whatable" -> a = b
         [] OTHER -> FALSE

RECURSIVE Hashable(_)
Hashable(v) == CASE v.t \in {"list", "set", "dict", "odict", "what"} -> FALSE
                 [] v.t = "sub" -> Hashable(v.v)
                 [] v.t \in {"tuple", "fset"} -> \A i \in 1..Len(v.e) : Hashable(v.e[i])
                 [] OTHER -> TRUE

(***************************************************************************)
(* Canonical form: a value of which two are equal exactly when they are    *)
(* the same configuration data, types included, at every depth, whatever   *)
(* the order in which dictionaries, sets and parameters were built.        *)
(* Which parameters are declared non-id is not part of it.                 *)
(***************************************************************************)
RECURSIVE Canon(_)
Canon(v) ==
  CASE v.t = "bool" -> [t |-> "bool", b |-> v.b]
    [] v.t \in {"int", "float"} -> [t |-> v.t, s |-> v.s]
    [] v.t \in {"list", "tuple"} -> [t |-> v.t, e |-> [i \in 1..Len(v.e) |-> Canon(v.e[i])]]
    [] v.t \in {"set", "fset"} -> [t |-> v.t, es |-> {Canon(v.e[i]) : i \in 1..Len(v.e)}]
    [] v.t = "dict" -> [t |-> "dict", ms |-> {<<Canon(v.m[i][1]), Canon(v.m[i][2])>> : i \in 1..Len(v.m)}]
    [] v.t = "odict" -> [t |-> "odict", n |-> v.n,
                         m |-> [i \in 1..Len(v.m) |-> <<Canon(v.m[i][1]), Canon(v.m[i][2])>>]]
    [] v.t = "sub" -> [t |-> "sub", n |-> v.n, v |-> Canon(v.v)]
    [] v.t = "what" -> [t |-> "what", n |-> v.n, o |-> v.o,
                        cs |-> {<<v.c[i][1], Canon(v.c[i][2])>> : i \in 1..Len(v.c)}]
    [] v.t = "whatable" -> [t |-> "whatable", w |-> Canon(v.w)]
    [] OTHER -> v

TypedEq(a, b) == Canon(a) = Canon(b)

(***************************************************************************)
(* Leaving out what is not part of the identity: the id parameters of a    *)
(* configuration, at every level (what an id says, and nothing else).      *)
(***************************************************************************)
RECURSIVE IdPart(_, _)
IdMembers(e) == [i \in 1..Len(e) |-> IdPart(e[i], FALSE)]
IdPairs(m) == [i \in 1..Len(m) |-> <<IdPart(m[i][1], FALSE), IdPart(m[i][2], FALSE)>>]
IdConf(c, x, all) ==
  LET keep == SelectSeq(c, LAMBDA kv : all \/ kv[1] \notin Range1(x))
  IN [i \in 1..Len(keep) |-> <<keep[i][1], IdPart(keep[i][2], FALSE)>>]
IdPart(v, all) ==
  CASE v.t \in {"list", "tuple", "set", "fset"} -> [v EXCEPT !.e = IdMembers(v.e)]
    [] v.t \in {"dict", "odict"} -> [v EXCEPT !.m = IdPairs(v.m)]
    [] v.t = "sub" -> [v EXCEPT !.v = IdPart(v.v, FALSE)]
    [] v.t = "what" -> What(v.n, v.o, IdConf(v.c, v.x, all), <<>>)
    [] v.t = "whatable" -> IdPart(v.w, FALSE)
    [] OTHER -> v
=============================================================================
