--------------------------------- MODULE Heap ---------------------------------
(***************************************************************************)
(* Configuration objects in memory: who shares what with whom.              *)
(* st.objs: the configurations, [n, o, c, x] with c a sequence of           *)
(*   <<parameter name, address of its value>>                               *)
(* st.mem: the values: atoms (as in Values), [t |-> "list", e |-> addresses]*)
(*   or [t |-> "dict", k |-> keys, e |-> addresses], or                     *)
(*   [t |-> "obj", i |-> number of a configuration]                         *)
(* st.hands: the configurations the user holds (numbers of objs)            *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [objs |-> <<>>, mem |-> <<>>, hands |-> <<>>]

RECURSIVE ValueAt(_, _)
WhatAt(st, i) == LET o == st.objs[i]
                 IN What(o.n, o.o, [k \in 1..Len(o.c) |-> <<o.c[k][1], ValueAt(st, o.c[k][2])>>], o.x)
ValueAt(st, a) ==
  LET v == st.mem[a]
  IN CASE v.t = "list" -> List([k \in 1..Len(v.e) |-> ValueAt(st, v.e[k])])
       [] v.t = "tuple" -> Tuple([k \in 1..Len(v.e) |-> ValueAt(st, v.e[k])])
       [] v.t = "dict" -> Dict([k \in 1..Len(v.e) |-> <<v.k[k], ValueAt(st, v.e[k])>>])
       [] v.t = "obj" -> WhatAt(st, v.i)
       [] OTHER -> v

\* Storing a new value: [st, a]
RECURSIVE Alloc(_, _)
RECURSIVE AllocAll(_, _, _)
AllocAll(st, vs, acc) == IF vs = <<>> THEN [st |-> st, as |-> acc]
                         ELSE LET r == Alloc(st, Head(vs)) IN AllocAll(r.st, Tail(vs), Append(acc, r.a))
Put(st, v) == [st |-> [st EXCEPT !.mem = Append(@, v)], a |-> Len(st.mem) + 1]
NewObj(st, n, o, c, x) == [st EXCEPT !.objs = Append(@, [n |-> n, o |-> o, c |-> c, x |-> x])]
Alloc(st, v) ==
  CASE v.t = "list" -> LET r == AllocAll(st, v.e, <<>>) IN Put(r.st, [t |-> "list", e |-> r.as])
    [] v.t = "tuple" -> LET r == AllocAll(st, v.e, <<>>) IN Put(r.st, [t |-> "tuple", e |-> r.as])
    [] v.t = "dict" -> LET r == AllocAll(st, [k \in 1..Len(v.m) |-> v.m[k][2]], <<>>)
                       IN Put(r.st, [t |-> "dict", k |-> [k \in 1..Len(v.m) |-> v.m[k][1]], e |-> r.as])
    [] v.t = "what" -> LET r == AllocAll(st, [k \in 1..Len(v.c) |-> v.c[k][2]], <<>>)
                           s == NewObj(r.st, v.n, v.o, [k \in 1..Len(v.c) |-> <<v.c[k][1], r.as[k]>>], v.x)
                       IN Put(s, [t |-> "obj", i |-> Len(s.objs)])
    [] OTHER -> Put(st, v)

Hold(st, i) == [st EXCEPT !.hands = Append(@, i)]

\* Setting a parameter of configuration i to the (stored) value at a
SetParam(st, i, k, a) ==
  LET c == st.objs[i].c
      old == {j \in 1..Len(c) : c[j][1] = k}
  IN [st EXCEPT !.objs[i].c = IF old = {} THEN Append(c, <<k, a>>)
                              ELSE [c EXCEPT ![CHOOSE j \in old : TRUE] = <<k, a>>]]
HasParam(st, i, k) == \E j \in 1..Len(st.objs[i].c) : st.objs[i].c[j][1] = k
ParamAt(st, i, k) == LET c == st.objs[i].c IN c[CHOOSE j \in 1..Len(c) : c[j][1] = k][2]

Shallow(st, i) == LET o == st.objs[i] IN NewObj(st, o.n, o.o, o.c, o.x)
Deep(st, i) == LET w == WhatAt(st, i)
                   r == AllocAll(st, [k \in 1..Len(w.c) |-> w.c[k][2]], <<>>)
               IN NewObj(r.st, w.n, w.o, [k \in 1..Len(w.c) |-> <<w.c[k][1], r.as[k]>>], w.x)

\* Mutable values directly below a parameter
Poke(st, a) ==
  LET v == st.mem[a]
  IN CASE v.t = "list" -> LET r == Alloc(st, Int_(9)) IN [r.st EXCEPT !.mem[a].e = Append(@, r.a)]
       [] v.t = "dict" -> LET r == Alloc(st, Int_(9))
                              key == Int_(Len(v.e))
                          IN [r.st EXCEPT !.mem[a] = [t |-> "dict", k |-> Append(v.k, key), e |-> Append(v.e, r.a)]]
       [] v.t = "obj" -> LET r == Alloc(st, Int_(9)) IN SetParam(r.st, v.i, T("poked"), r.a)
       [] OTHER -> st

\* The value at the end of a path: positions (from 1) in collections, names of parameters in configurations. 0 if none
RECURSIVE Walk(_, _, _)
WalkObj(st, i, p) == IF p = <<>> \/ ~HasParam(st, i, Head(p)) THEN 0 ELSE Walk(st, ParamAt(st, i, Head(p)), Tail(p))
Walk(st, a, p) ==
  IF p = <<>> THEN a
  ELSE LET v == st.mem[a]
       IN CASE v.t \in {"list", "tuple", "dict"} -> IF Len(Head(p)) = 1 /\ Head(p)[1] \in 1..Len(v.e) THEN Walk(st, v.e[Head(p)[1]], Tail(p)) ELSE 0
            [] v.t = "obj" -> WalkObj(st, v.i, p)
            [] OTHER -> 0

\* The transitions.  out: what the operation yields: "none", a hand (number of configuration), ids or an error
Step(st, op) ==
  LET i == IF op.op = "new" THEN 0 ELSE st.hands[op.h]
  IN CASE op.op = "new" -> LET r == Alloc(st, op.v)
                               n == r.st.mem[r.a].i
                           IN [st |-> Hold(r.st, n), ok |-> TRUE, same |-> 0, ids |-> <<>>]
       [] op.op = "copy" -> LET s == IF op.deep THEN Deep(st, i) ELSE Shallow(st, i)
                            IN [st |-> Hold(s, Len(s.objs)), ok |-> TRUE, same |-> 0, ids |-> <<>>]
       [] op.op = "set" -> LET r == Alloc(st, op.v)
                               s == IF op.copy THEN Shallow(r.st, i) ELSE r.st
                               j == IF op.copy THEN Len(s.objs) ELSE i
                           IN [st |-> Hold(SetParam(s, j, op.k, r.a), j), ok |-> TRUE,
                               same |-> IF op.copy THEN 0 ELSE op.h, ids |-> <<>>]
       [] op.op = "poke" -> [st |-> LET a == WalkObj(st, i, op.p) IN IF a = 0 THEN st ELSE Poke(st, a),
                             ok |-> TRUE, same |-> 0, ids |-> <<>>]
       [] op.op = "hide" -> [st |-> IF op.k \in Range1(st.objs[i].x) THEN st
                                    ELSE [st EXCEPT !.objs[i].x = Append(@, op.k)],
                             ok |-> TRUE, same |-> 0, ids |-> <<>>]
       [] op.op = "whatadd" ->
            IF HasParam(st, i, op.k) THEN [st |-> st, ok |-> FALSE, same |-> 0, ids |-> <<>>]
            ELSE LET w == WhatAt(st, i)
                 IN [st |-> st, ok |-> TRUE, same |-> 0,
                     ids |-> [j \in 1..Len(op.vs) |-> Id([w EXCEPT !.c = Append(@, <<op.k, op.vs[j]>>)], FALSE)]]

(***************************************************************************)
(* op.hands: all the configurations held, after the operation: value, ids   *)
(* with and without non-id parameters; op.is: for each, the first hand that *)
(* holds that very object; op.eqs: for each, whether it equals the last one *)
(***************************************************************************)
FirstOf(hands, j) == CHOOSE k \in 1..Len(hands) : hands[k] = hands[j] /\ \A l \in 1..(k - 1) : hands[l] # hands[j]

SameWhat(a, b) == TypedEq(a, b) /\ Range1(a.x) = Range1(b.x)

Judge(st, op) ==
  LET r == Step(st, op)
      ws == [j \in 1..Len(r.st.hands) |-> WhatAt(r.st, r.st.hands[j])]
      n == Len(ws)
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_work" ELSE op.op \o "_must_be_refused")
              ELSE IF Len(op.hands) # n THEN "hands"
              ELSE IF \E j \in 1..n : ~SameWhat(ws[j], op.hands[j].v) THEN "leak_after_" \o op.op
              ELSE IF \E j \in 1..n : op.hands[j].id # Id(ws[j], FALSE) \/ op.hands[j].full # Id(ws[j], TRUE)
                   THEN "ids_after_" \o op.op
              ELSE IF \E j \in 1..n : op.hands[j].is # FirstOf(r.st.hands, j) THEN "identity_after_" \o op.op
              ELSE IF \E j \in 1..n : op.hands[j].eq # PyEq(ws[j], ws[n]) THEN "equality_after_" \o op.op
              ELSE IF op.op = "whatadd" /\ r.ok /\ op.obs.v # r.ids THEN "whatadd_ids" ELSE ""]
=============================================================================
