-------------------------------- MODULE MC_Decor --------------------------------
(* All short histories over a function, a class, a subclass and an instance of  *)
(* each, with or without a method what of their own.                            *)
EXTENDS Decor, Json
CONSTANTS MaxOps, MaxEnts, MaxHands
VARIABLES st, hist
vars == <<st, hist>>
A == T("a")  B == T("b")
W(t) == [NoWhat EXCEPT !.t = t]
Fn(t) == [k |-> "fn", n |-> T("f"), c |-> << <<A, Int_(1)>>, <<B, Int_(2)>> >>, w |-> W(t)]
Cls(base, n, t) == [k |-> "cls", n |-> n, base |-> base, w |-> W(t)]
Inst(cls) == [k |-> "inst", cls |-> cls, c |-> << <<A, Int_(1)>> >>, w |-> NoWhat, room |-> TRUE]
New(e) == [op |-> "new", ent |-> e]
Worlds == {<<New(Fn(t))>> : t \in {"none", "what"}}
          \cup {<<New(Cls(0, T("A"), t)), New(Cls(1, T("B"), u)), New(Inst(1)), New(Inst(2))>> : t \in {"none", "what"}, u \in {"none", "what"}}
RECURSIVE After(_, _, _)
After(s, ops, i) == IF i > Len(ops) THEN s ELSE After(Step(s, ops[i]).st, ops, i + 1)
Es(s) == 1..Len(s.ents)
Fns(s) == {i \in Es(s) : s.ents[i].k = "fn"}
Insts(s) == {i \in Es(s) : s.ents[i].k = "inst"}
Ops(s) == [op : {"decorate"}, e : Es(s), nonids : {<<>>}, excl : {<<>>, <<A>>}, custom : {FALSE}, inplace : {FALSE}, force : {FALSE}]
          \cup [op : {"decorate"}, e : Fns(s), nonids : {<<B>>}, excl : {<<>>}, custom : {FALSE}, inplace : {TRUE}, force : {FALSE}]
          \cup [op : {"decorate"}, e : Es(s) \ Fns(s), nonids : {<<A>>}, excl : {<<>>}, custom : {FALSE}, inplace : {FALSE}, force : {TRUE}]
          \cup [op : {"set"}, e : Insts(s), n : {B}, v : {Int_(7)}]
          \cup {[op |-> "copy", e |-> i, how |-> h] : i \in Insts(s), h \in {"copy", "deepcopy"}}
          \cup [op : {"ask"}, e : Es(s) \ {i \in Es(s) : s.ents[i].k = "cls"}]
          \cup [op : {"put"}, h : 1..Len(s.hands), n : {A}, v : {Int_(9)}]
          \cup [op : {"drop"}, h : 1..Len(s.hands), n : {A}]
Init == \E w \in Worlds : st = After(Start(<<>>), w, 1) /\ hist = w
Base == IF st.ents[1].k = "fn" THEN 1 ELSE 4
Next == /\ Len(hist) < Base + MaxOps
        /\ \E op \in Ops(st) :
             \* (decorating again what was declared to be ours: nothing is said)
             /\ ~(op.op = "decorate" /\ st.ents[op.e].w.t = "flagged")
             \* (a known finding)
             /\ ~(op.op = "copy" /\ op.how = "copy" /\ st.ents[op.e].w.t \in {"ours", "custom"})
             /\ Len(Step(st, op).st.ents) <= MaxEnts /\ Len(Step(st, op).st.hands) <= MaxHands
             /\ st' = Step(st, op).st
             /\ hist' = Append(hist, op)
             /\ Len(hist') = Base + MaxOps => PrintT("CASE " \o ToJson([ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* What is not ours is never replaced
OwnWhat(s, i) == s.ents[i].w.t
NeverReplaced == \A op \in Ops(st) : \A i \in Es(st) :
   OwnWhat(st, i) \in {"what", "value"} => OwnWhat(Step(st, op).st, i) \in {OwnWhat(st, i), "flagged"}
\* Decorating twice with the same options is decorating once, and refusals change nothing
Idempotent == \A op \in Ops(st) : op.op = "decorate" =>
   LET r == Step(st, op) IN
   /\ ~r.ok => r.st = st
   /\ (r.ok /\ st.ents[op.e].k # "fn" /\ ~Foreign(WhatOf(st, op.e))) => Step(r.st, op).st = r.st
\* Updating what was handed out changes no answer
Independent == \A op \in Ops(st) : op.op \in {"put", "drop"} =>
   \A i \in Es(st) : Answers(st, i) => Answer(Step(st, op).st, i) = Answer(st, i)
\* A new callable leaves the original as it was
Untouched == \A op \in Ops(st) : (op.op = "decorate" /\ op.e \in Fns(st) /\ ~op.inplace) => Step(st, op).st.ents[op.e] = st.ents[op.e]
\* Copies answer the same, and go their own way
Apart == \A op \in Ops(st) : op.op = "copy" =>
   LET s == Step(st, op).st  n == Len(s.ents)  t == Step(s, [op |-> "set", e |-> n, n |-> B, v |-> Int_(8)]).st IN
   Answers(s, n) => Answer(s, n) = Answer(s, op.e) /\ Answer(t, op.e) = Answer(s, op.e)
\* Subclasses describe themselves
Themselves == \A i \in Insts(st) : (Answers(st, i) /\ WhatOf(st, i).t = "ours") => Answer(st, i).n = st.ents[st.ents[i].cls].n
=============================================================================
