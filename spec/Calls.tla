--------------------------------- MODULE Calls ---------------------------------
(***************************************************************************)
(* Capturing calls.  st: [stack, hands].                                   *)
(* stack: the calls in progress, innermost last: [n, sig, va, kw, vars]    *)
(*   n: name of the function                                               *)
(*   sig: its parameters [n, k, has, d]: name, kind ("pos" or "kwonly"),   *)
(*        whether it has a default, default                                *)
(*   va, kw: <<>> or <<name>>, where surplus arguments go                  *)
(*   vars: pairs <<name, value>>, all the variables of the call            *)
(* hands: what was captured, either a dictionary (of dict literals) or a   *)
(* configuration; they belong to whoever captured them.                    *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [stack |-> <<>>, hands |-> <<>>]

HasP(c, n) == \E i \in 1..Len(c) : c[i][1] = n
GetP(c, n) == c[CHOOSE i \in 1..Len(c) : c[i][1] = n][2]
WithoutP(c, n) == SelectSeq(c, LAMBDA p : p[1] # n)
WithP(c, n, v) == Append(WithoutP(c, n), <<n, v>>)
Merge(c, d) == SelectSeq(c, LAMBDA p : ~HasP(d, p[1])) \o d
AsDict(c) == Dict([i \in 1..Len(c) |-> <<Str(c[i][1]), c[i][2]>>])
OfDict(d) == [i \in 1..Len(d.m) |-> <<d.m[i][1].s, d.m[i][2]>>]

\* A call: op: [n, sig, va, kw, args, kws]
Frame(op) ==
  LET pos == SelectSeq(op.sig, LAMBDA p : p.k = "pos")
      place(p) == LET js == {j \in 1..Len(pos) : pos[j].n = p.n} IN IF js = {} THEN 0 ELSE CHOOSE j \in js : TRUE
      value(p) == LET j == place(p)
                  IN IF j # 0 /\ j <= Len(op.args) THEN op.args[j]
                     ELSE IF HasP(op.kws, p.n) THEN GetP(op.kws, p.n) ELSE p.d
      named == [j \in 1..Len(op.sig) |-> <<op.sig[j].n, value(op.sig[j])>>]
      surplus == SubSeq(op.args, Len(pos) + 1, Len(op.args))
      extras == SelectSeq(op.kws, LAMBDA p : ~HasP(named, p[1]))
  IN [n |-> op.n, sig |-> op.sig, va |-> op.va, kw |-> op.kw,
      vars |-> named \o (IF op.va = <<>> THEN <<>> ELSE << <<op.va[1], Tuple(surplus)>> >>)
                     \o (IF op.kw = <<>> THEN <<>> ELSE << <<op.kw[1], AsDict(extras)>> >>)]

Level(st, depth) == st.stack[Len(st.stack) + 1 - depth]

\* The named parameters with their values now, the keyword extras, the overrides
CallDict(f, op) ==
  LET named == [j \in 1..Len(f.sig) |-> <<f.sig[j].n, GetP(f.vars, f.sig[j].n)>>]
      kept == SelectSeq(named, LAMBDA p : p[1] \notin Range1(op.ignores))
      extras == IF f.kw = <<>> THEN <<>> ELSE OfDict(GetP(f.vars, f.kw[1]))
  IN Merge(Merge(Merge(kept, extras), op.overrides), op.over)
Surplus(f) == f.va # <<>> /\ GetP(f.vars, f.va[1]).e # <<>>

CallConf(f, op) == What(f.n, None, f.vars, op.nonids)

Top(st) == Len(st.stack)
Step(st, op) ==
  CASE op.op = "call" -> [ok |-> TRUE, st |-> [st EXCEPT !.stack = Append(@, Frame(op))]]
    [] op.op = "return" -> [ok |-> TRUE, st |-> [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]]
    [] op.op = "set" -> [ok |-> TRUE, st |-> [st EXCEPT !.stack[Top(st)].vars = WithP(@, op.n, op.v)]]
    [] op.op = "del" -> [ok |-> TRUE, st |-> [st EXCEPT !.stack[Top(st)].vars = WithoutP(@, op.n)]]
    [] op.op = "extra" -> LET f == Level(st, 1) IN
         [ok |-> TRUE, st |-> [st EXCEPT !.stack[Top(st)].vars =
            WithP(@, f.kw[1], AsDict(WithP(OfDict(GetP(f.vars, f.kw[1])), op.n, op.v)))]]
    [] op.op = "dict" -> LET f == Level(st, op.depth) IN
         IF Surplus(f) /\ ~op.novar THEN [ok |-> FALSE, st |-> st]
         ELSE [ok |-> TRUE, st |-> [st EXCEPT !.hands = Append(@, AsDict(CallDict(f, op)))]]
    [] op.op = "what" -> [ok |-> TRUE, st |-> [st EXCEPT !.hands = Append(@, CallConf(Level(st, op.depth), op))]]
    \* whoever has a hand updates it
    [] op.op = "put" -> [ok |-> TRUE, st |-> [st EXCEPT !.hands[op.h] =
         IF @.t = "dict" THEN AsDict(WithP(OfDict(@), op.n, op.v)) ELSE [@ EXCEPT !.c = WithP(@, op.n, op.v)]]]

SameHand(want, got) ==
  /\ got.ok
  /\ got.v.t = want.t
  /\ TypedEq(want, got.v)
  /\ want.t = "what" => Range1(want.x) = Range1(got.v.x)

\* op.vars: the variables of the innermost call, as its own code sees them; op.hands: each hand now;
\* op.ids: the id of each configuration in hand
Judge(st, op) ==
  LET r == Step(st, op)
      n == Len(r.st.hands)
      badH == {h \in 1..n : h > Len(op.hands) \/ ~SameHand(r.st.hands[h], op.hands[h])}
      badI == {h \in 1..n : r.st.hands[h].t = "what" /\ h \notin badH /\
                            ~(op.ids[h].ok /\ op.ids[h].v = Id(r.st.hands[h], FALSE))}
      new == Len(st.hands) + 1
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_be_accepted" ELSE "surplus_must_be_refused")
              ELSE IF badH # {} THEN (IF badH = {new} THEN op.op \o "_captured" ELSE "captured_before")
              ELSE IF badI # {} THEN "id"
              ELSE IF Len(r.st.stack) > 0 /\ ~TypedEq(op.vars, AsDict(Level(r.st, 1).vars)) THEN "caller_disturbed" ELSE ""]
=============================================================================
