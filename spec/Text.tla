-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are finite sequences of Unicode code points, so that the          *)
(* specification can look inside them, order them as Python does and       *)
(* exchange any character with the implementation through JSON.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]

\* The text of a TLA+ string literal
T(lit) == [i \in 1..Len(lit) |-> CodeOf[SubSeq(lit, i, i)]]

\* TLA+ string of an ASCII text (for messages only)
Show(s) == LET RECURSIVE Go(_, _)
               Go(i, acc) == IF i > Len(s) THEN acc
                             ELSE Go(i + 1, acc \o (IF s[i] \in 32..126 THEN SubSeq(Ascii, s[i] - 31, s[i] - 31)
                                                    ELSE "?"))
           IN Go(1, "")

QUOTE == 39
BSL == 92
Blanks == {9, 10, 13, 32}
Digits == 48..57
NameStart == (65..90) \cup (97..122) \cup {95}
NameChar == NameStart \cup Digits

\* Lexicographic order by code point: the order of Python's text
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LtFrom(a, b, i + 1)
TextLt(a, b) == LtFrom(a, b, 1)

SortTexts(ss) == SortSeq(ss, TextLt)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
  IF i > Len(ss) THEN <<>>
  ELSE IF i = Len(ss) THEN ss[i]
  ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

Comma == <<44>>

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

\* Does lit occur in s at position i?
At(s, i, lit) == i + Len(lit) - 1 <= Len(s) /\ \A k \in 1..Len(lit) : s[i + k - 1] = lit[k]

Contains(s, lit) == \E i \in 1..Len(s) : At(s, i, lit)

StartsWith(s, lit) == At(s, 1, lit)
EndsWith(s, lit) == Len(lit) <= Len(s) /\ At(s, Len(s) - Len(lit) + 1, lit)

\* Replace every (leftmost, non overlapping) occurrence of the non-empty text old
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, old, new, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF At(s, i, old) THEN new \o ReplaceFrom(s, old, new, i + Len(old))
  ELSE <<s[i]>> \o ReplaceFrom(s, old, new, i + 1)
Replace(s, old, new) == IF Contains(s, old) THEN ReplaceFrom(s, old, new, 1) ELSE s

\* Position of the first occurrence of code c at or after i (0 if none)
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexOf(s, c, i + 1)

Range1(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))

(***************************************************************************)
(* Decimal integers as texts                                               *)
(***************************************************************************)
IsIntText(s) == LET d == IF Len(s) > 0 /\ s[1] = 45 THEN Tail(s) ELSE s
                IN Len(d) > 0 /\ \A i \in 1..Len(d) : d[i] \in Digits

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d

\* The canonical text of the integer an integer literal denotes
NormInt(s) == LET neg == s[1] = 45
                  d == StripZeros(IF neg THEN Tail(s) ELSE s)
              IN IF neg /\ d # <<48>> THEN <<45>> \o d ELSE d

\* a < b over canonical integer texts
IntLt(a, b) ==
  LET na == a[1] = 45  nb == b[1] = 45
      da == IF na THEN Tail(a) ELSE a
      db == IF nb THEN Tail(b) ELSE b
      MagLt(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ TextLt(x, y))
  IN IF na # nb THEN na
     ELSE IF na THEN MagLt(db, da) ELSE MagLt(da, db)

\* The canonical text of a TLA+ natural number
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>

\* The (small) natural number denoted by a text of digits
RECURSIVE NatOf(_, _, _)
NatOf(s, i, acc) == IF i > Len(s) THEN acc ELSE NatOf(s, i + 1, 10 * acc + s[i] - 48)
SmallInt(s) == IF s[1] = 45 THEN 0 - NatOf(Tail(s), 1, 0) ELSE NatOf(s, 1, 0)

HexDigits == T("0123456789abcdef")
=============================================================================
