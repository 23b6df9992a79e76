------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* From values to id texts: What.id, What.positional_id and the plugins.   *)
(***************************************************************************)
EXTENDS Values

QuoteT == <<QUOTE>>
EscQuote == <<BSL, QUOTE>>

\* Text: single quotes get escaped; a quote that already was escaped stays so
RenderText(s) == QuoteT \o Replace(Replace(s, EscQuote, QuoteT), QuoteT, EscQuote) \o QuoteT

NumericTypes == {T("int"), T("float"), T("complex")}

RECURSIVE Render(_)

RenderAll(e) == [i \in 1..Len(e) |-> Render(e[i])]
RenderPairs(m) == [i \in 1..Len(m) |-> Render(m[i][1]) \o <<58>> \o Render(m[i][2])]

Brace(ss) == T("{") \o Join(SortTexts(ss), Comma) \o T("}")
RenderSet(e) == IF e = <<>> THEN T("set()") ELSE Brace(RenderAll(e))
RenderFSet(e) == IF e = <<>> THEN T("frozenset()") ELSE T("frozenset(") \o Brace(RenderAll(e)) \o T(")")
RenderList(e) == T("[") \o Join(RenderAll(e), Comma) \o T("]")
RenderTuple(e) == T("(") \o Join(RenderAll(e), Comma) \o T(")")
RenderDict(m) == Brace(RenderPairs(m))
RenderItems(m) == T("[") \o Join([i \in 1..Len(m) |-> RenderTuple(m[i])], Comma) \o T("]")
SeqOf(n, txt) == n \o T("(seq=") \o txt \o T(")")

\* Contents of a subclass of a collection
RenderSub(v) == CASE v.t \in {"set", "fset"} -> RenderSet(v.e)
                  [] v.t = "odict" -> RenderItems(v.m)
                  [] OTHER -> Render(v)

SortConf(c) == SortSeq(c, LAMBDA a, b : TextLt(a[1], b[1]))

Kept(w, nonids) == SortConf(SelectSeq(w.c, LAMBDA kv : nonids \/ kv[1] \notin Range1(w.x)))

OutPrefix(w) == IF w.o.t = "none" THEN <<>> ELSE w.o.s \o <<61>>

Id(w, nonids) ==
  LET c == Kept(w, nonids)
  IN OutPrefix(w) \o w.n \o T("(")
     \o Join([i \in 1..Len(c) |-> c[i][1] \o <<61>> \o Render(c[i][2])], Comma) \o T(")")

PositionalId(w, nonids) ==
  LET c == Kept(w, nonids)
  IN OutPrefix(w) \o w.n \o T("(") \o Join([i \in 1..Len(c) |-> Render(c[i][2])], Comma) \o T(")")

Render(v) ==
  CASE v.t = "none" -> T("None")
    [] v.t = "bool" -> IF v.b THEN T("True") ELSE T("False")
    [] v.t \in {"int", "float", "cplx", "opaque"} -> v.s
    [] v.t = "str" -> RenderText(v.s)
    [] v.t = "list" -> RenderList(v.e)
    [] v.t = "tuple" -> RenderTuple(v.e)
    [] v.t = "set" -> RenderSet(v.e)
    [] v.t = "fset" -> RenderFSet(v.e)
    [] v.t = "dict" -> RenderDict(v.m)
    [] v.t = "odict" -> SeqOf(v.n, RenderItems(v.m))
    [] v.t = "sub" -> SeqOf(v.n, RenderSub(v.v))
    [] v.t = "class" -> IF v.s \in NumericTypes THEN v.s \o T("()")
                        ELSE T("<class '") \o v.s \o T("'>")
    [] v.t = "what" -> Id(v, FALSE)
    [] v.t = "whatable" -> Id(v.w, FALSE)

(***************************************************************************)
(* The values whose renderings can be parsed back: \' and ' are the same in *)
(* a text, and numeric types are rendered as configurations.                *)
(***************************************************************************)
CleanText(s) == \A i \in 1..Len(s) : s[i] = BSL => i = Len(s) \/ s[i + 1] # QUOTE
RECURSIVE Faithful(_)
Faithful(v) ==
  CASE v.t \in {"none", "bool", "int", "float"} -> TRUE
    [] v.t = "str" -> CleanText(v.s)
    [] v.t \in {"list", "tuple", "set", "fset"} -> \A i \in 1..Len(v.e) : Faithful(v.e[i])
    [] v.t = "dict" -> \A i \in 1..Len(v.m) : Faithful(v.m[i][1]) /\ Faithful(v.m[i][2])
    [] v.t = "class" -> v.s \notin NumericTypes
    [] v.t = "what" -> \A i \in 1..Len(v.c) : Faithful(v.c[i][2])
    [] v.t = "whatable" -> Faithful(v.w)
    [] OTHER -> FALSE

(***************************************************************************)
(* The id of a value identified directly (whatareyou, what2id)             *)
(***************************************************************************)
ClassName(v) == CASE v.t = "list" -> T("list") [] v.t = "tuple" -> T("tuple") [] v.t = "set" -> T("set")
                  [] v.t = "fset" -> T("frozenset") [] v.t = "dict" -> T("dict")
                  [] v.t \in {"odict", "sub"} -> v.n
IsCollection(v) == v.t \in {"list", "tuple", "set", "fset", "dict", "odict", "sub"}
DirectId(v) ==
  CASE v.t = "what" -> Id(v, FALSE)
    [] v.t = "whatable" -> Id(v.w, FALSE)
    [] v.t = "odict" -> SeqOf(v.n, RenderItems(v.m))
    [] v.t = "sub" -> SeqOf(v.n, RenderSub(v.v))
    [] OTHER -> SeqOf(ClassName(v), Render(v))
=============================================================================
