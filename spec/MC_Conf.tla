-------------------------------- MODULE MC_Conf --------------------------------
(* All the configurations made from a small universe of values, one parameter at   *)
(* a time and in any order, with any parameters declared non-id.  The properties   *)
(* of ids, keys, equality and exports over them; every one is asked to the code.   *)
EXTENDS Lang, Json
CONSTANTS Prop, Leaves, Nest, MaxParams
VARIABLE w
vars == w

A == T("a")  B == T("b")  Z == T("zz")
Flt(s, q) == [t |-> "float", s |-> T(s), q |-> T(q)]
Cls(s) == [t |-> "class", s |-> T(s)]
Env == [old |-> FALSE, fl |-> << <<T("1.0"), Flt("1.0", "1")>> >>, cl |-> << <<T("str"), Cls("str")>> >>]

LeavesQuick == {None, True_, Int_(1), Flt("1.0", "1"), Str(T("1")), Str(T("it's"))}
LeavesThorough == LeavesQuick \cup {Str(<<>>), Str(T("a=1,b=2)")), Str(T(" a ")), Int_(0 - 12), False_, Cls("str"), Str(<<233, 8364>>)}
Few == {None, Int_(1), Flt("1.0", "1"), Str(T("1"))}

Seqs(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
Distinct(S) == {e \in Seqs(S) : Len(e) = 2 => ~PyEq(e[1], e[2])}
Keys == {Str(A), Str(B), Int_(1)}
Maps(S) == {<<>>} \cup {<< <<k, v>> >> : k \in Keys, v \in S}
           \cup {m \in {<< <<k, v>>, <<l, Int_(1)>> >> : k \in Keys, l \in Keys, v \in {Str(A), Int_(1)}} : m[1][1] # m[2][1]}
In(o, c, x) == What(T("g"), o, c, x)
Inner(S) == {In(None, <<>>, <<>>), In(Str(T("o")), <<>>, <<>>)} \cup {In(None, << <<A, v>> >>, x) : v \in S, x \in {<<>>, <<A>>}}
Flat(S) == S \cup {List(e) : e \in Seqs(Few)} \cup {Tuple(e) : e \in Seqs(Few)}
           \cup [t : {"set", "fset"}, e : Distinct(Few)]
           \cup {Dict(m) : m \in Maps(Few)} \cup {[t |-> "odict", n |-> T("OrderedDict"), m |-> m] : m \in Maps({Int_(1)})}
           \cup Inner(S)
Wrap(V) == {List(<<v>>) : v \in V} \cup {Tuple(<<None, v>>) : v \in V} \cup {Dict(<< <<Str(B), v>> >>) : v \in V}
           \cup {In(None, << <<B, v>> >>, <<>>) : v \in V}
Values == IF Nest THEN Flat(Leaves) \cup Wrap(Flat(Leaves)) ELSE Flat(Leaves) \cup Wrap(Inner({Int_(1)}))

Has(x, k) == \E i \in 1..Len(x.c) : x.c[i][1] = k
Init == w \in {What(T("f"), o, <<>>, x) : o \in {None, Str(T("o"))}, x \in {<<>>, <<A>>, <<B, Z>>}}
Next == /\ Len(w.c) < MaxParams
        /\ \E k \in {A, B} : /\ ~Has(w, k)
                             /\ \E v \in IF Len(w.c) = 0 THEN Values ELSE Leaves : w' = [w EXCEPT !.c = Append(w.c, <<k, v>>)]
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The same, built in another order                                        *)
(***************************************************************************)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Rev(_)
Rev(v) ==
  CASE v.t \in {"list", "tuple"} -> [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Rev(v.e[i])]]
    [] v.t \in {"set", "fset"} -> [v EXCEPT !.e = RevSeq([i \in 1..Len(v.e) |-> Rev(v.e[i])])]
    [] v.t = "dict" -> [v EXCEPT !.m = RevSeq([i \in 1..Len(v.m) |-> <<v.m[i][1], Rev(v.m[i][2])>>])]
    [] v.t = "odict" -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> <<v.m[i][1], Rev(v.m[i][2])>>]]
    [] v.t = "what" -> [v EXCEPT !.c = RevSeq([i \in 1..Len(v.c) |-> <<v.c[i][1], Rev(v.c[i][2])>>])]
    [] OTHER -> v

\* Those that differ from w in one thing
Near(x) == {[x EXCEPT !.n = T("ff")], [x EXCEPT !.o = Str(T("p"))], [x EXCEPT !.o = None], [x EXCEPT !.x = <<>>], [x EXCEPT !.x = <<B>>]}
           \cup UNION {{[x EXCEPT !.c[i][2] = v] : v \in {None, Int_(1), Str(T("1")), List(<<x.c[i][2]>>), Tuple(<<x.c[i][2]>>), Str(Render(x.c[i][2]))}}
                       : i \in 1..Len(x.c)}
           \cup (IF Has(x, B) THEN {} ELSE {[x EXCEPT !.c = Append(x.c, <<B, None>>)]})
           \cup (IF Len(x.c) > 0 /\ ~Has(x, Z) THEN {[x EXCEPT !.c[1][1] = Z]} ELSE {})

IdOf(x) == Id(x, FALSE)

\* C01: the documented form, whatever the order in which things were built
Canonical == \A n \in BOOLEAN : Id(Rev(w), n) = Id(w, n)
Prefixed == StartsWith(IdOf(w), OutPrefix(w) \o w.n \o T("(")) /\ EndsWith(IdOf(w), T(")"))
SubIds == \A i \in 1..Len(w.c) : w.c[i][1] \notin Range1(w.x) => Contains(IdOf(w), w.c[i][1] \o T("=") \o Render(w.c[i][2]))

\* C02: what is read is what was written
RoundTrip == Faithful(w) => LET r == ParseTop(IdOf(w), Env)
                            IN r.ok = "yes" /\ TypedEq(r.v, IdPart(w, FALSE)) /\ IdOf(r.v) = IdOf(w)
\* ...and nothing shorter can be read
Complete == Faithful(w) => \A i \in 0..(Len(IdOf(w)) - 1) : ParseTop(SubSeq(IdOf(w), 1, i), Env).ok = "no"

\* C04
Injective == \A x \in Near(w) : (IdOf(x) = IdOf(w)) <=> SameIdData(x, w)

\* C05
Hold(x) == What(T("h"), None, << <<A, List(<<x>>)>> >>, <<>>)
Changed(x) == UNION {{[x EXCEPT !.c[i][2] = v] : v \in {Str(T("other")), List(<<>>)}} : i \in {j \in 1..Len(x.c) : x.c[j][1] \in Range1(x.x)}}
              \cup {[x EXCEPT !.c = SelectSeq(x.c, LAMBDA kv : kv[1] \notin Range1(x.x))]}
              \cup (IF Z \in Range1(x.x) THEN {[x EXCEPT !.c = Append(x.c, <<Z, Int_(3)>>)]} ELSE {})
Unseen == \A x \in Changed(w) : /\ IdOf(x) = IdOf(w) /\ PositionalId(x, FALSE) = PositionalId(w, FALSE)
                                /\ Flatten(x, FALSE, TRUE, TRUE) = Flatten(w, FALSE, TRUE, TRUE)
                                /\ IdOf(Hold(x)) = IdOf(Hold(w))
Shown == /\ \A i \in 1..Len(w.c) : \E j \in 1..Len(Flatten(w, TRUE, FALSE, FALSE)) : Flatten(w, TRUE, FALSE, FALSE)[j][1] = <<Str(w.c[i][1])>>
         /\ Id(w, TRUE) = IdOf([w EXCEPT !.x = <<>>])

\* C06
Bounded == LET s == IdOf(w) IN
           /\ \A m \in {0, 0 - 1, Len(s), Len(s) + 1} : Shorten(s, m) = s
           /\ Len(s) < 56 => LET h == Shorten(s, Len(s) - 1) IN Len(h) = 40 /\ Range1(h) \subseteq Range1(HexDigits)
Positions == PositionalId(w, TRUE) = OutPrefix(w) \o w.n \o T("(") \o Join([i \in 1..Len(SortConf(w.c)) |-> Render(SortConf(w.c)[i][2])], Comma) \o T(")")

\* C07
Addressed == \A c \in BOOLEAN : LET f == Flatten(w, TRUE, c, TRUE) IN
   \A i \in 1..Len(f) : /\ TypedEq(Address(w, f[i][1]), f[i][2])
                        /\ \A j \in 1..Len(f) : f[i][1] = f[j][1] => i = j
                        /\ Len(f[i][1]) > 1 => \E j \in 1..(i - 1) : f[j][1] = SubSeq(f[i][1], 1, Len(f[i][1]) - 1)
Less == \A n \in BOOLEAN : \A c \in BOOLEAN : LET all == Flatten(w, n, c, TRUE)  top == Flatten(w, n, c, FALSE)
   IN top = SelectSeq(all, LAMBDA kv : Len(kv[1]) = 1)

\* C09
Equality == /\ PyEq(w, w) /\ PyEq(w, Rev(w)) /\ PyEq(w, [w EXCEPT !.x = <<A, B>>])
            /\ \A x \in Near(w) : PyEq(w, x) = PyEq(x, w) /\ (Canon(w) = Canon(x) => PyEq(w, x))

\* C18
PathsOf(x) == {KeyOf(f[1]) : f \in Range1(Flatten(x, FALSE, TRUE, TRUE))}
Selecting == \A x \in Near(w) : \A c \in BOOLEAN : \A r \in BOOLEAN :
   /\ Matches(w, w, <<>>, c, r)
   /\ Matches(x, w, <<>>, c, r) => \A k \in PathsOf(w) : Matches(x, w, <<k>>, c, r)
   /\ Matches(x, w, <<>>, c, r) = Matches(w, x, <<>>, c, r)

\* C22
RECURSIVE NoWhats(_)
NoWhats(v) == CASE v.t = "what" -> FALSE
                [] v.t \in {"list", "tuple", "set", "fset"} -> \A i \in 1..Len(v.e) : NoWhats(v.e[i])
                [] v.t \in {"dict", "odict"} -> \A i \in 1..Len(v.m) : NoWhats(v.m[i][2])
                [] OTHER -> TRUE
Exported == Faithful(w) => NoWhats(Plain(IdPart(w, FALSE)))
Keeps == \A x \in Near(w) : Faithful(w) /\ Faithful(x) => (TypedEq(Plain(IdPart(w, FALSE)), Plain(IdPart(x, FALSE))) <=> SameIdData(w, x))

\* C31: what is the same in all is equal, and has the same ids
Reproduced == \A x \in Near(w) \cup {Rev(w)} : SameAll(x, w) => PyEq(x, w) /\ \A n \in BOOLEAN : Id(x, n) = Id(w, n)

(***************************************************************************)
(* What is asked to the code                                               *)
(***************************************************************************)
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
IdOp(x, n) == [op |-> "id", v |-> x, nonids |-> n]
Bools == <<FALSE, TRUE>>
Sized(kind, s, n, m) == IF m > 0 /\ m < Len(s) /\ Len(s) > 100 THEN <<>> ELSE <<[op |-> "short", kind |-> kind, v |-> w, nonids |-> n, max |-> m]>>
Gets == LET ks == {KeyOf(f[1]) : f \in Range1(Flatten(w, TRUE, TRUE, TRUE))}
            more == ks \cup {Str(Z), Int_(0), Tuple(<<Str(A), Int_(1)>>), Tuple(<<Str(A), Str(T("0"))>>), Tuple(<<Str(A), Str(B), Int_(0 - 1)>>), None}
        IN SeqOfSet({[op |-> "get", v |-> w, key |-> k, default |-> Str(Z)] : k \in more})
NearIds == SeqOfSet({IdOf(x) : x \in Near(w) \cup {w}})
Ignored == <<<<>>>> \o SeqOfSet({<<k>> : k \in PathsOf(w)})
Routes == SeqOfSet({[op |-> "routes", kind |-> k, w |-> w] : k \in
             {"probe", "duck", "attribute", "static", "classmethod", "whatfunc"}
             \cup (IF w.o.t = "none" /\ Range1(w.x) \subseteq {w.c[i][1] : i \in 1..Len(w.c)}
                   THEN {"instance", "subclass", "object", "function", "inplace", "partial"} \cup (IF w.x = <<>> THEN {"dict", "list", "functionlike"} ELSE {}) ELSE {})})
Asked ==
  CASE Prop = "C01" -> <<IdOp(w, FALSE), IdOp(w, TRUE), IdOp(Rev(w), FALSE), [op |-> "id", v |-> w, nonids |-> TRUE, how |-> "str"]>>
                       \o [i \in 1..Len(w.c) |-> [op |-> "render", v |-> w.c[i][2]]]
    [] Prop = "C02" -> [i \in 1..2 |-> [op |-> "roundtrip", v |-> w, nonids |-> Bools[i]]]
    [] Prop = "C04" -> <<[op |-> "inj", vs |-> <<w, Rev(w)>> \o SeqOfSet(Near(w)), direct |-> FALSE]>>
    [] Prop = "C05" -> <<[op |-> "inj", vs |-> <<w>> \o SeqOfSet(Changed(w)), direct |-> FALSE],
                         [op |-> "inj", vs |-> <<Hold(w)>> \o SeqOfSet({Hold(x) : x \in Changed(w)}), direct |-> FALSE],
                         IdOp(w, TRUE), IdOp(w, FALSE), [op |-> "id", v |-> w, nonids |-> TRUE, how |-> "str"]>>
                       \o [i \in 1..2 |-> [op |-> "flatten", v |-> w, nonids |-> Bools[i], colls |-> TRUE, rec |-> TRUE]]
                       \o [i \in 1..2 |-> [op |-> "posid", v |-> w, nonids |-> Bools[i]]]
    [] Prop = "C06" -> [i \in 1..2 |-> [op |-> "posid", v |-> w, nonids |-> Bools[i]]]
                       \o FlattenSeqs([i \in 1..2 |-> LET n == Bools[i] IN
                            LET s == Id(w, n)  p == PositionalId(w, n) IN
                            FlattenSeqs([j \in 1..5 |-> LET m == <<0, 0 - 1, 0, 1, 0 - Len(s)>>[j] IN
                                                        Sized("id", s, n, IF j \in {1, 4} THEN Len(s) - m ELSE m)])
                            \o Sized("pos", p, n, Len(p)) \o Sized("pos", p, n, Len(p) - 1) \o Sized("pos", p, n, 0)])
    [] Prop = "C07" -> FlattenSeqs([i \in 1..2 |-> FlattenSeqs([j \in 1..2 |-> [k \in 1..2 |->
                            [op |-> "flatten", v |-> w, nonids |-> Bools[i], colls |-> Bools[j], rec |-> Bools[k]]]])]) \o Gets
    [] Prop = "C09" -> SeqOfSet({[op |-> "eq", a |-> w, b |-> x] : x \in Near(w) \cup {w, Rev(w)}})
    [] Prop = "C18" -> FlattenSeqs([i \in 1..Len(Ignored) |-> [j \in 1..2 |->
                            [op |-> "match", ids |-> NearIds, tmpl |-> IdOf(w), ignored |-> Ignored[i], colls |-> Bools[j], rec |-> TRUE]]])
                       \o <<[op |-> "match", ids |-> NearIds, tmpl |-> IdOf(w), ignored |-> <<>>, colls |-> TRUE, rec |-> FALSE]>>
    [] Prop = "C22" -> [i \in 1..2 |-> [op |-> "plain", v |-> w, nonids |-> Bools[i]]]
    [] Prop = "C26" -> Routes
    [] Prop = "C31" -> <<[op |-> "again", v |-> w], [op |-> "again", v |-> Rev(w)], [op |-> "again", v |-> Hold(w)]>>
Export == (Prop # "C18" \/ Faithful(w)) => PrintT("CASE " \o ToJson([ops |-> Asked]))
=============================================================================
