--------------------------------- MODULE Decor ---------------------------------
(***************************************************************************)
(* Making things whatable.  st: [ents, hands].                             *)
(* ents: functions  [k |-> "fn", n, c, w]      c: what they have bound     *)
(*       classes    [k |-> "cls", n, base, w]  base: its base class or 0   *)
(*       instances  [k |-> "inst", cls, c, w, room]  c: their attributes,  *)
(*                  room: whether attributes can be added to them          *)
(* w: what their own attribute what is: [t, nonids, excl] with t           *)
(*   "none"     they have no such attribute                                *)
(*   "ours"     made by whatable (for functions, with what was bound then) *)
(*   "custom"   made by whatable with a function of the user               *)
(*   "what"     a method of the user giving a configuration                *)
(*   "flagged"  the same, declared to be as good as ours                   *)
(*   "value"    anything else                                              *)
(* hands: the configurations handed out, which belong to whoever asked.    *)
(***************************************************************************)
EXTENDS Render

NoWhat == [t |-> "none", nonids |-> <<>>, excl |-> <<>>]
UserConf == What(T("mine"), None, << <<T("k"), Int_(5)>> >>, <<>>)
CustomConf == What(T("custom"), None, << <<T("k"), Int_(6)>> >>, <<>>)

Start(cfg) == [ents |-> <<>>, hands |-> <<>>]

RECURSIVE ClassWhat(_, _)
ClassWhat(st, i) == IF i = 0 THEN NoWhat ELSE IF st.ents[i].w.t # "none" THEN st.ents[i].w ELSE ClassWhat(st, st.ents[i].base)
\* What the attribute what of an entity is
WhatOf(st, i) == LET e == st.ents[i]
                 IN IF e.k = "cls" THEN ClassWhat(st, i)
                    ELSE IF e.k = "inst" /\ e.w.t = "none" THEN ClassWhat(st, e.cls) ELSE e.w
Marked(w) == w.t \in {"ours", "custom", "flagged"}
Foreign(w) == w.t \in {"what", "value"}

\* Can they be asked?
Answers(st, i) == st.ents[i].k # "cls" /\ WhatOf(st, i).t \in {"ours", "custom", "what", "flagged"}
IsWhatable(st, i) == IF st.ents[i].k = "cls" THEN Marked(WhatOf(st, i)) ELSE Answers(st, i)

Trim(c, excl) == SelectSeq(c, LAMBDA p : /\ ~StartsWith(p[1], T("_")) /\ ~EndsWith(p[1], T("_"))
                                         /\ p[1] # T("what") /\ p[1] \notin Range1(excl))
\* What a thing answers
Answer(st, i) ==
  LET e == st.ents[i]  w == WhatOf(st, i)
  IN CASE w.t = "custom" -> CustomConf
       [] w.t \in {"what", "flagged"} -> UserConf
       [] w.t = "ours" /\ e.k = "fn" -> What(e.n, None, e.c, w.nonids \o w.excl)
       [] w.t = "ours" /\ e.k = "inst" -> What(st.ents[e.cls].n, None, Trim(e.c, w.excl), w.nonids)

\* Functions keep excluded parameters out of the ids only
SameAnswer(st, i, got) ==
  LET want == Answer(st, i)
  IN IF st.ents[i].k = "fn" THEN TypedEq(IdPart(want, FALSE), IdPart(got, FALSE))
     ELSE TypedEq(want, got) /\ Range1(want.x) = Range1(got.x)

Ours(op) == [t |-> IF op.custom THEN "custom" ELSE "ours", nonids |-> op.nonids, excl |-> op.excl]

\* Decorating: [ok, st, e] with e the entity that comes out
Decorate(st, op) ==
  LET e == st.ents[op.e]  w == WhatOf(st, op.e)  n == Len(st.ents) + 1
  IN IF e.k = "fn" /\ ~op.inplace
     THEN [ok |-> TRUE, st |-> [st EXCEPT !.ents = Append(@, [e EXCEPT !.w = Ours(op)])], e |-> n]
     ELSE IF Foreign(w)
          THEN IF e.k # "fn" /\ op.force /\ w.t = "what"
               THEN \* the method is declared as good as ours, wherever it is
                    [ok |-> TRUE, e |-> op.e,
                     st |-> LET owner == IF e.k = "inst" /\ e.w.t # "none" THEN op.e ELSE 0
                                RECURSIVE Find(_)
                                Find(i) == IF st.ents[i].w.t # "none" THEN i ELSE Find(st.ents[i].base)
                                at == IF owner # 0 THEN owner ELSE Find(IF e.k = "inst" THEN e.cls ELSE op.e)
                            IN [st EXCEPT !.ents[at].w.t = "flagged"]]
               ELSE [ok |-> FALSE, st |-> st, e |-> 0]
     ELSE IF e.k = "inst" /\ ~e.room THEN [ok |-> FALSE, st |-> st, e |-> 0]
     ELSE [ok |-> TRUE, st |-> [st EXCEPT !.ents[op.e].w = Ours(op)], e |-> op.e]

HasP(c, n) == \E i \in 1..Len(c) : c[i][1] = n
WithoutP(c, n) == SelectSeq(c, LAMBDA p : p[1] # n)
WithP(c, n, v) == Append(WithoutP(c, n), <<n, v>>)

Step(st, op) ==
  CASE op.op = "new" -> [ok |-> TRUE, st |-> [st EXCEPT !.ents = Append(@, op.ent)], e |-> Len(st.ents) + 1]
    [] op.op = "decorate" -> Decorate(st, op)
    [] op.op = "set" -> [ok |-> TRUE, e |-> op.e, st |-> [st EXCEPT !.ents[op.e].c = WithP(@, op.n, op.v)]]
    [] op.op = "del" -> [ok |-> HasP(st.ents[op.e].c, op.n), e |-> op.e, st |-> [st EXCEPT !.ents[op.e].c = WithoutP(@, op.n)]]
    [] op.op = "ask" -> IF Answers(st, op.e) THEN [ok |-> TRUE, e |-> op.e, st |-> [st EXCEPT !.hands = Append(@, Answer(st, op.e))]]
                        ELSE [ok |-> FALSE, e |-> op.e, st |-> st]
    [] op.op = "copy" -> [ok |-> TRUE, e |-> Len(st.ents) + 1, st |-> [st EXCEPT !.ents = Append(@, @[op.e])]]
    [] op.op = "put" -> [ok |-> TRUE, e |-> 0, st |-> [st EXCEPT !.hands[op.h].c = WithP(@, op.n, op.v)]]
    [] op.op = "drop" -> [ok |-> HasP(st.hands[op.h].c, op.n), e |-> 0, st |-> [st EXCEPT !.hands[op.h].c = WithoutP(@, op.n)]]
    [] op.op = "hide" -> [ok |-> TRUE, e |-> 0, st |-> [st EXCEPT !.hands[op.h].x = Append(@, op.n)]]
    [] op.op = "rename" -> [ok |-> TRUE, e |-> 0, st |-> [st EXCEPT !.hands[op.h].n = op.n]]

\* op.seen: for each entity: whatable, asked: what it answers, value: its rendering as a value,
\* kept: behaves as before (name, documentation, results, its own foreign attribute), for each hand, what it is now
JEnt(s, i, seen) ==
  LET w == WhatOf(s, i)
  IN IF ~seen.kept THEN "behaviour"
     ELSE IF ~(seen.whatable.ok /\ seen.whatable.v = IsWhatable(s, i)) THEN "is_whatable"
     ELSE IF ~Answers(s, i) THEN (IF s.ents[i].k # "cls" /\ seen.asked.ok THEN "must_not_answer" ELSE
            IF s.ents[i].k = "cls" /\ ~(seen.value.ok /\ seen.value.v = T("v(x=<class '") \o seen.class \o T("'>)")) THEN "class_as_value"
            ELSE "")
     ELSE IF ~seen.asked.ok THEN "must_answer"
     ELSE IF ~SameAnswer(s, i, seen.asked.v) THEN "answer"
     ELSE IF ~(seen.value.ok /\ seen.value.v = T("v(x=") \o Id(Answer(s, i), FALSE) \o T(")")) THEN "as_value"
     ELSE ""
\* Hands of functions carry what is excluded too
JHand(s, h, seen) == LET want == s.hands[h] IN
  IF ~seen.ok THEN "hand" ELSE IF TypedEq(IdPart(want, FALSE), IdPart(seen.v, FALSE)) THEN "" ELSE "hand"

Judge(st, op) ==
  LET r == Step(st, op)
      es == [i \in 1..Len(r.st.ents) |-> IF i <= Len(op.seen) THEN JEnt(r.st, i, op.seen[i]) ELSE "lost"]
      hs == [h \in 1..Len(r.st.hands) |-> JHand(r.st, h, op.hands[h])]
      badE == {i \in 1..Len(es) : es[i] # ""}
      badH == {h \in 1..Len(hs) : hs[h] # ""}
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_be_accepted" ELSE op.op \o "_must_be_refused")
              ELSE IF op.op = "decorate" /\ r.ok /\ ~op.right THEN "decorate_gives_back"
              ELSE IF badE # {} THEN es[CHOOSE i \in badE : TRUE]
              ELSE IF badH # {} THEN hs[CHOOSE h \in badH : TRUE] ELSE ""]
=============================================================================
