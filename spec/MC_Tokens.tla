------------------------------- MODULE MC_Tokens -------------------------------
(* All the short sequences of tokens of the id language after the beginning of an  *)
(* id, old style or new, well formed or not.  What accepted ones have in common;   *)
(* every one is given to the code, as it is and with blanks between the tokens.    *)
EXTENDS Lang, Json
CONSTANTS Old, Tokens, Starts, MaxTokens
VARIABLES toks, n
vars == <<toks, n>>

NewTokens == {T("f"), T("a"), T("="), T("("), T(")"), T(","), T("1"), T("'x'"), T("["), T("]"), T("{"), T("}"), T(":"), T("None")}
NewMore == NewTokens \cup {T("-1"), T("1.5"), T("nan"), T("set()"), T("frozenset({"), T("})"), T("'"), T("\""), T("#"), T("<class "), T(">"), T("$"), T("_")}
OldTokens == {T("f"), T("a"), T("="), T("#"), T("("), T(")"), T(","), T("1"), T("'x'"), T("["), T("]"), T("\""), T("out"), T("None")}
NewStarts == {<<>>, <<T("f"), T("(")>>, <<T("f"), T("("), T("a"), T("=")>>}
MoreStarts == NewStarts \cup {<<T("f"), T("("), T("a"), T("="), T("[")>>, <<T("f"), T("("), T("a"), T("="), T("{")>>, <<T("f"), T("("), T("a"), T("="), T("{"), T("1"), T(":")>>,
                              <<T("f"), T("("), T("a"), T("="), T("1"), T(",")>>, <<T("f"), T("("), T("a"), T("="), T("g"), T("(")>>}
OldStarts == {<<>>, <<T("f"), T("#")>>, <<T("f"), T("#"), T("a"), T("=")>>, <<T("out="), T("o"), T("#"), T("f"), T("#")>>, <<T("f"), T("#"), T("a"), T("="), T("\"")>>}

Env == [old |-> Old, fl |-> <<>>, cl |-> <<>>]
Init == toks \in Starts /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Tokens : toks' = Append(toks, t)
Spec == Init /\ [][Next]_vars

Text == FlattenSeqs(toks)
\* Two words are never written together
Wordy(t) == t[Len(t)] \in NameChar /\ t[1] \in NameChar
Apart == \A i \in 1..(Len(toks) - 1) : ~(toks[i][Len(toks[i])] \in NameChar /\ toks[i + 1][1] \in NameChar)
Spaced == Join(toks, T(" "))
Reads(s) == IF Old THEN OldMeaning(s, Env) ELSE ParseTop(s, Env)
R == Reads(Text)

Count(c) == Cardinality({i \in 1..Len(Text) : Text[i] = c})
Quoted == Count(39) > 0
\* Accepted texts are balanced
Balanced == (R.ok \in {"yes", "meaningless"} /\ ~Quoted) =>
              /\ Count(40) = Count(41) /\ Count(91) = Count(93) /\ Count(123) = Count(125) /\ Count(34) % 2 = 0
\* ...can have blanks between tokens
Blank == (Apart /\ R.ok = "yes" /\ ~(Old /\ StartsWith(Text, OutText)) /\ (\A i \in 1..Len(toks) : toks[i] \notin {T("'"), T("-"), T("})")}))
            => LET r == Reads(Spaced) IN r.ok = "yes" /\ TypedEq(r.v, R.v)
\* ...mean what their new-style id says
Stable == (R.ok = "yes" /\ Faithful(R.v)) => LET r == ParseTop(Id(R.v, FALSE), [Env EXCEPT !.old = FALSE]) IN r.ok = "yes" /\ TypedEq(r.v, R.v)
\* ...and are complete: a new-style one has no accepted beginning
Complete == (~Old /\ R.ok # "no") => \A i \in 1..(Len(Text) - 1) : Reads(SubSeq(Text, 1, i)).ok = "no"

\* A case has the texts that are one token longer
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Op == IF Old THEN "old" ELSE "parse"
Longer == {Append(toks, t) : t \in Tokens}
Enders == IF Old THEN {<<>>, T("\"")} ELSE {<<>>, T(")")}
Texts == {FlattenSeqs(ts) \o e : ts \in Longer, e \in Enders} \cup {Join(ts, T(" ")) : ts \in {x \in Longer : ~Old \/ x[1] # T("out=")}}
Export == (n < MaxTokens) => PrintT("CASE " \o ToJson([ops |-> SeqOfSet({[op |-> Op, s |-> s] : s \in Texts})]))
=============================================================================
