-------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* From id texts back to values: the id language as a parsing expression   *)
(* grammar, in the shape of the two arpeggio grammars (new and old style). *)
(* Every terminal first skips blanks.  All operators take the text s and a *)
(* position, and yield [p |-> next position or 0 if no match, v |-> value].*)
(*                                                                         *)
(* env gives the meaning of literals that is not the business of this      *)
(* specification: env.fl, a sequence of <<literal, float value>>, and      *)
(* env.cl, a sequence of <<class name, value>> of the importable ones.     *)
(***************************************************************************)
EXTENDS Values

NoMatch == [p |-> 0, v |-> None]
Fail(r) == r.p = 0

RECURSIVE Ws(_, _)
Ws(s, i) == IF i <= Len(s) /\ s[i] \in Blanks THEN Ws(s, i + 1) ELSE i

\* The position after the literal, or 0
Lit(s, i, lit) == LET j == Ws(s, i) IN IF At(s, j, lit) THEN j + Len(lit) ELSE 0

RECURSIVE RunOf(_, _, _)
RunOf(s, i, cs) == IF i <= Len(s) /\ s[i] \in cs THEN RunOf(s, i + 1, cs) ELSE i

Name(s, i) == LET j == Ws(s, i)
              IN IF j <= Len(s) /\ s[j] \in NameStart
                 THEN LET k == RunOf(s, j + 1, NameChar) IN [p |-> k, v |-> SubSeq(s, j, k - 1)]
                 ELSE NoMatch

(***************************************************************************)
(* Terminals                                                               *)
(***************************************************************************)
RECURSIVE ScanText(_, _)
ScanText(s, k) == IF k > Len(s) THEN 0
                  ELSE IF s[k] = QUOTE THEN k
                  ELSE IF s[k] = BSL THEN (IF k + 1 > Len(s) THEN 0 ELSE ScanText(s, k + 2))
                  ELSE ScanText(s, k + 1)

\* A quoted text, as a single token; escaped quotes get unescaped
RawText(s, i) == LET j == Ws(s, i)
                 IN IF j <= Len(s) /\ s[j] = QUOTE
                    THEN LET k == ScanText(s, j + 1)
                         IN IF k = 0 THEN NoMatch
                            ELSE [p |-> k + 1, v |-> Replace(SubSeq(s, j + 1, k - 1), <<BSL, QUOTE>>, <<QUOTE>>)]
                    ELSE NoMatch
TextLit(s, i) == LET r == RawText(s, i) IN IF Fail(r) THEN NoMatch ELSE [p |-> r.p, v |-> Str(r.v)]

LookUp(tab, key, default) ==
  IF \E i \in 1..Len(tab) : tab[i][1] = key
  THEN tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = key][2] ELSE default

FloatOf(lit, env) == LookUp(env.fl, lit, [t |-> "float", s |-> lit, q |-> lit])

\* -?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?
NumEnd(s, j) ==
  LET d == IF j <= Len(s) /\ s[j] = 45 THEN j + 1 ELSE j
      k == RunOf(s, d, Digits)
      f == IF k <= Len(s) /\ s[k] = 46 THEN RunOf(s, k + 1, Digits) ELSE k
      sg == IF f <= Len(s) /\ s[f] \in {69, 101}
            THEN (IF f + 1 <= Len(s) /\ s[f + 1] \in {43, 45} THEN f + 2 ELSE f + 1) ELSE 0
      x == IF sg = 0 THEN 0 ELSE RunOf(s, sg, Digits)
  IN IF k = d THEN 0 ELSE IF x > sg THEN x ELSE f
NumLit(s, i, env) ==
  LET j == Ws(s, i)
      k == NumEnd(s, j)
      lit == SubSeq(s, j, k - 1)
      Word(w) == LET p == Lit(s, i, w) IN p
  IN IF k > 0 THEN [p |-> k, v |-> IF IsIntText(lit) THEN IntT(NormInt(lit)) ELSE FloatOf(lit, env)]
     ELSE IF Word(T("-inf")) > 0 THEN [p |-> Word(T("-inf")), v |-> FloatOf(T("-inf"), env)]
     ELSE IF Word(T("inf")) > 0 THEN [p |-> Word(T("inf")), v |-> FloatOf(T("inf"), env)]
     ELSE IF Word(T("nan")) > 0 THEN [p |-> Word(T("nan")), v |-> FloatOf(T("nan"), env)]
     ELSE NoMatch

Word(s, i, w, v) == LET p == Lit(s, i, w) IN IF p = 0 THEN NoMatch ELSE [p |-> p, v |-> v]

(***************************************************************************)
(* Set and dict displays: as in Python, of equal members the first stays,  *)
(* and the last value assigned to a key wins.  An unhashable member makes  *)
(* the text meaningless.                                                   *)
(***************************************************************************)
Meaningless == [t |-> "meaningless"]
RECURSIVE Dedup(_, _)
Dedup(e, acc) == IF e = <<>> THEN acc
                 ELSE IF \E i \in 1..Len(acc) : PyEq(acc[i], Head(e)) THEN Dedup(Tail(e), acc)
                 ELSE Dedup(Tail(e), Append(acc, Head(e)))
RECURSIVE DictOf(_, _)
DictOf(m, acc) ==
  IF m = <<>> THEN acc
  ELSE LET kv == Head(m)
       IN IF \E i \in 1..Len(acc) : PyEq(acc[i][1], kv[1])
          THEN LET i == CHOOSE i \in 1..Len(acc) : PyEq(acc[i][1], kv[1])
               IN DictOf(Tail(m), [acc EXCEPT ![i] = <<acc[i][1], kv[2]>>])
          ELSE DictOf(Tail(m), Append(acc, kv))
RECURSIVE ConfOf(_, _)
ConfOf(c, acc) ==
  IF c = <<>> THEN acc
  ELSE LET kv == Head(c)
       IN IF \E i \in 1..Len(acc) : acc[i][1] = kv[1]
          THEN LET i == CHOOSE i \in 1..Len(acc) : acc[i][1] = kv[1]
               IN ConfOf(Tail(c), [acc EXCEPT ![i] = kv])
          ELSE ConfOf(Tail(c), Append(acc, kv))

Sane(v) == v.t # "meaningless"
AllSane(e) == \A i \in 1..Len(e) : Sane(e[i])
SetVal(kind, e) == IF AllSane(e) /\ \A i \in 1..Len(e) : Hashable(e[i])
                   THEN [t |-> kind, e |-> Dedup(e, <<>>)] ELSE Meaningless
DictVal(m) == IF \A i \in 1..Len(m) : Sane(m[i][1]) /\ Sane(m[i][2]) /\ Hashable(m[i][1])
              THEN Dict(DictOf(m, <<>>)) ELSE Meaningless
SeqVal(kind, e) == IF AllSane(e) THEN [t |-> kind, e |-> e] ELSE Meaningless
WhatVal(n, o, c) == IF \A i \in 1..Len(c) : Sane(c[i][2]) THEN What(n, o, ConfOf(c, <<>>), <<>>) ELSE Meaningless

(***************************************************************************)
(* Both grammars share everything but the configurations themselves, the   *)
(* order of the alternatives of a value, and the sets and classes.         *)
(***************************************************************************)
RECURSIVE Value(_, _, _)
RECURSIVE MoreValues(_, _, _, _)

MoreValues(s, i, env, acc) ==
  LET c == Lit(s, i, Comma)
      r == IF c = 0 THEN NoMatch ELSE Value(s, c, env)
  IN IF Fail(r) THEN [p |-> i, v |-> acc] ELSE MoreValues(s, r.p, env, Append(acc, r.v))
Elements(s, i, env) ==
  LET r == Value(s, i, env) IN IF Fail(r) THEN [p |-> 0, v |-> <<>>] ELSE MoreValues(s, r.p, env, <<r.v>>)

\* open [elements] close
Bracketed(s, i, env, open, close, optional) ==
  LET o == Lit(s, i, open)
      es == IF o = 0 THEN [p |-> 0, v |-> <<>>] ELSE Elements(s, o, env)
      at == IF es.p > 0 THEN es.p ELSE IF optional THEN o ELSE 0
      c == IF o = 0 \/ at = 0 THEN 0 ELSE Lit(s, at, close)
  IN [p |-> c, v |-> es.v]

ListLit(s, i, env) == LET r == Bracketed(s, i, env, T("["), T("]"), TRUE)
                      IN IF Fail(r) THEN NoMatch ELSE [p |-> r.p, v |-> SeqVal("list", r.v)]
TupleLit(s, i, env) == LET r == Bracketed(s, i, env, T("("), T(")"), TRUE)
                       IN IF Fail(r) THEN NoMatch ELSE [p |-> r.p, v |-> SeqVal("tuple", r.v)]
BraceSet(s, i, env) == LET r == Bracketed(s, i, env, T("{"), T("}"), FALSE)
                       IN IF Fail(r) THEN NoMatch ELSE [p |-> r.p, v |-> SetVal("set", r.v)]
FSetLit(s, i, env) == LET r == Bracketed(s, i, env, T("frozenset({"), T("})"), FALSE)
                      IN IF Fail(r) THEN NoMatch ELSE [p |-> r.p, v |-> SetVal("fset", r.v)]
EmptySet(s, i) == Word(s, i, T("set()"), [t |-> "set", e |-> <<>>])
EmptyFSet(s, i) == Word(s, i, T("frozenset()"), [t |-> "fset", e |-> <<>>])

DictKV(s, i, env) ==
  LET k == Value(s, i, env)
      c == IF Fail(k) THEN 0 ELSE Lit(s, k.p, <<58>>)
      v == IF c = 0 THEN NoMatch ELSE Value(s, c, env)
  IN IF Fail(v) THEN NoMatch ELSE [p |-> v.p, v |-> <<k.v, v.v>>]
RECURSIVE MoreDict(_, _, _, _)
MoreDict(s, i, env, acc) ==
  LET c == Lit(s, i, Comma)
      r == IF c = 0 THEN NoMatch ELSE DictKV(s, c, env)
  IN IF Fail(r) THEN [p |-> i, v |-> acc] ELSE MoreDict(s, r.p, env, Append(acc, r.v))
DictLit(s, i, env) ==
  LET o == Lit(s, i, T("{"))
      f == IF o = 0 THEN NoMatch ELSE DictKV(s, o, env)
      all == IF Fail(f) THEN [p |-> o, v |-> <<>>] ELSE MoreDict(s, f.p, env, <<f.v>>)
      c == IF o = 0 THEN 0 ELSE Lit(s, all.p, T("}"))
  IN IF c = 0 THEN NoMatch ELSE [p |-> c, v |-> DictVal(all.v)]

ClassLit(s, i, env) ==
  LET o == Lit(s, i, T("<class "))
      r == IF o = 0 THEN NoMatch ELSE RawText(s, o)
      c == IF Fail(r) THEN 0 ELSE Lit(s, r.p, T(">"))
  IN IF c = 0 THEN NoMatch
     ELSE [p |-> c, v |-> LookUp(env.cl, r.v, Dict(<< <<Str(T("class")), Str(r.v)>> >>))]

KV(s, i, env) ==
  LET k == Name(s, i)
      c == IF Fail(k) THEN 0 ELSE Lit(s, k.p, <<61>>)
      v == IF c = 0 THEN NoMatch ELSE Value(s, c, env)
  IN IF Fail(v) THEN NoMatch ELSE [p |-> v.p, v |-> <<k.v, v.v>>]
RECURSIVE MoreKVs(_, _, _, _)
MoreKVs(s, i, env, acc) ==
  LET c == Lit(s, i, IF env.old THEN T("#") ELSE Comma)
      r == IF c = 0 THEN NoMatch ELSE KV(s, c, env)
  IN IF Fail(r) THEN [p |-> i, v |-> acc] ELSE MoreKVs(s, r.p, env, Append(acc, r.v))
\* Optional parameters: always matches
KVs(s, i, env) ==
  LET r == KV(s, i, env) IN IF Fail(r) THEN [p |-> i, v |-> <<>>] ELSE MoreKVs(s, r.p, env, <<r.v>>)

\* [out_name=]name(k1=v1,...,kn=vn)
NewWhat(s, i, env) ==
  LET a == Name(s, i)
      e == IF Fail(a) THEN 0 ELSE Lit(s, a.p, <<61>>)
      n == IF e = 0 THEN a ELSE Name(s, e)
      o == IF Fail(n) THEN 0 ELSE Lit(s, n.p, T("("))
      ps == IF o = 0 THEN [p |-> 0, v |-> <<>>] ELSE KVs(s, o, env)
      c == IF o = 0 THEN 0 ELSE Lit(s, ps.p, T(")"))
  IN IF c = 0 THEN NoMatch
     ELSE [p |-> c, v |-> WhatVal(n.v, IF e = 0 THEN None ELSE Str(a.v), ps.v)]

\* name#k1=v1#...#kn=vn, or the same in double quotes
OldBody(s, i, env) ==
  LET n == Name(s, i)
      h == IF Fail(n) THEN 0 ELSE Lit(s, n.p, T("#"))
      ps == KVs(s, h, env)
  IN IF h = 0 THEN NoMatch ELSE [p |-> ps.p, v |-> WhatVal(n.v, None, ps.v)]
OldWhat(s, i, env) ==
  LET plain == OldBody(s, i, env)
      o == Lit(s, i, T("\""))
      b == IF o = 0 THEN NoMatch ELSE OldBody(s, o, env)
      c == IF Fail(b) THEN 0 ELSE Lit(s, b.p, T("\""))
  IN IF ~Fail(plain) THEN plain ELSE IF c = 0 THEN NoMatch ELSE [p |-> c, v |-> b.v]

OrElse(a, b) == IF Fail(a) THEN b ELSE a

SetLit(s, i, env) ==
  IF env.old THEN OrElse(EmptySet(s, i), BraceSet(s, i, env))
  ELSE OrElse(EmptySet(s, i), OrElse(EmptyFSet(s, i), OrElse(BraceSet(s, i, env), FSetLit(s, i, env))))

Simple(s, i, env) ==
  OrElse(Word(s, i, T("None"), None),
  OrElse(Word(s, i, T("True"), True_),
  OrElse(Word(s, i, T("False"), False_),
  OrElse(NumLit(s, i, env), TextLit(s, i)))))

Value(s, i, env) ==
  IF env.old
  THEN OrElse(Simple(s, i, env), OrElse(TupleLit(s, i, env), OrElse(ListLit(s, i, env), OrElse(SetLit(s, i, env),
       OrElse(DictLit(s, i, env), OldWhat(s, i, env))))))
  ELSE OrElse(SetLit(s, i, env), OrElse(NewWhat(s, i, env), OrElse(Simple(s, i, env),
       OrElse(TupleLit(s, i, env), OrElse(ListLit(s, i, env), OrElse(DictLit(s, i, env), ClassLit(s, i, env)))))))

(***************************************************************************)
(* A whole text: [ok |-> "yes", v |-> configuration], or ok "no" when it    *)
(* is not in the language, or "meaningless".                               *)
(***************************************************************************)
ParseTop(s, env) ==
  LET r == IF env.old THEN OldWhat(s, 1, env) ELSE NewWhat(s, 1, env)
  IN IF Fail(r) \/ Ws(s, r.p) <= Len(s) THEN [ok |-> "no", v |-> None]
     ELSE IF ~Sane(r.v) THEN [ok |-> "meaningless", v |-> None]
     ELSE [ok |-> "yes", v |-> r.v]

NoEnv == [old |-> FALSE, fl |-> <<>>, cl |-> <<>>]
ParseId(s) == ParseTop(s, NoEnv)
=============================================================================
