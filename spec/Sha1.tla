--------------------------------- MODULE Sha1 ---------------------------------
(***************************************************************************)
(* SHA-1 of the UTF-8 encoding of a text.  32-bit words are pairs of       *)
(* 16-bit halves <<hi, lo>>, as TLC integers are signed 32-bit ones.       *)
(***************************************************************************)
EXTENDS Text, Bitwise

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Utf8From(_, _)
Utf8From(s, i) == IF i > Len(s) THEN <<>> ELSE Utf8Of(s[i]) \o Utf8From(s, i + 1)
Utf8(s) == Utf8From(s, 1)

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
\* Rotate left by n < 16
RotS(a, n) == LET p == 2 ^ n  q == 2 ^ (16 - n)
              IN <<((a[1] * p) % 65536) + (a[2] \div q), ((a[2] * p) % 65536) + (a[1] \div q)>>
Rot(a, n) == IF n = 0 THEN a ELSE IF n < 16 THEN RotS(a, n) ELSE RotS(<<a[2], a[1]>>, n - 16)

Padded(b) == LET n == Len(b)
                 z == (55 - n) % 64
             IN b \o <<128>> \o [i \in 1..z |-> 0]
                \o <<0, 0, 0, 0, (n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n * 8) % 256>>

WordAt(b, off) == <<b[off + 1] * 256 + b[off + 2], b[off + 3] * 256 + b[off + 4]>>

RECURSIVE Expand(_)
Expand(w) == IF Len(w) = 80 THEN w
             ELSE LET n == Len(w)
                  IN Expand(Append(w, Rot(WXor(WXor(w[n - 2], w[n - 7]), WXor(w[n - 13], w[n - 15])), 1)))

KOf(t) == IF t < 20 THEN <<23170, 31129>> ELSE IF t < 40 THEN <<28377, 60321>>
          ELSE IF t < 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
FOf(t, b, c, d) == IF t < 20 THEN WOr(WAnd(b, c), WAnd(WNot(b), d))
                   ELSE IF t < 40 THEN WXor(WXor(b, c), d)
                   ELSE IF t < 60 THEN WOr(WOr(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
                   ELSE WXor(WXor(b, c), d)

RECURSIVE Rounds(_, _, _)
Rounds(t, w, h) ==
  IF t = 80 THEN h
  ELSE Rounds(t + 1, w,
         <<WAdd(WAdd(WAdd(Rot(h[1], 5), FOf(t, h[2], h[3], h[4])), WAdd(h[5], KOf(t))), w[t + 1]),
           h[1], Rot(h[2], 30), h[3], h[4]>>)

RECURSIVE Blocks(_, _, _)
Blocks(b, k, h) ==
  IF 64 * k >= Len(b) THEN h
  ELSE LET w == Expand([i \in 1..16 |-> WordAt(b, 64 * k + 4 * (i - 1))])
           r == Rounds(0, w, h)
       IN Blocks(b, k + 1, [i \in 1..5 |-> WAdd(h[i], r[i])])

H0 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>

Hex16(n) == <<HexDigits[1 + (n \div 4096)], HexDigits[1 + ((n \div 256) % 16)],
              HexDigits[1 + ((n \div 16) % 16)], HexDigits[1 + (n % 16)]>>

Sha1Hex(s) == LET h == Blocks(Padded(Utf8(s)), 0, H0)
              IN Hex16(h[1][1]) \o Hex16(h[1][2]) \o Hex16(h[2][1]) \o Hex16(h[2][2]) \o Hex16(h[3][1])
                 \o Hex16(h[3][2]) \o Hex16(h[4][1]) \o Hex16(h[4][2]) \o Hex16(h[5][1]) \o Hex16(h[5][2])
=============================================================================
