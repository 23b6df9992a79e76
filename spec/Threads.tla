--------------------------------- MODULE Threads ---------------------------------
(***************************************************************************)
(* Threads, each with a program: a sequence of questions (of Lang, none of   *)
(* which changes anything).  A call and its return are two events, so that  *)
(* others can happen in between: the answer is the one of asking alone.     *)
(* Some questions are not of Lang: a parse in the middle of another parse     *)
(* ("nested"), and the ids of things (functions, arrays, frames...), that    *)
(* cfg.alone tells: <<key, what was answered when nothing else happened>>.   *)
(* One of the threads can also change the chain of plugins, while others     *)
(* render values: each value by the chain as it was at some moment of the     *)
(* rendering.  A change happens at some moment of its call: meanwhile there    *)
(* are two chains that can be the current one.                              *)
(* st: [programs, at (operations begun by each thread), busy, alone,         *)
(*      now (the chains that can be the current one), seen (the chains that   *)
(*      each busy thread can have found)]                                    *)
(***************************************************************************)
EXTENDS Text, TLC, FiniteSets
L == INSTANCE Lang
P == INSTANCE Plugins

Chain(cfg) == IF "chain" \in DOMAIN cfg THEN cfg.chain ELSE <<>>
Start(cfg) == [programs |-> cfg.programs, at |-> [t \in 1..Len(cfg.programs) |-> 0], busy |-> {}, ended |-> cfg.ended, alone |-> cfg.alone,
               default |-> Chain(cfg), now |-> {Chain(cfg)}, seen |-> [t \in 1..Len(cfg.programs) |-> {}]]
Changes == {"insert", "drop", "reset"}
Current(st) == CHOOSE c \in st.now : TRUE
Doing(st, t) == st.programs[t][st.at[t]].do
\* What a change does to the chain: [ok, chain]
Change(st, do) == LET r == P!Step([default |-> st.default, chain |-> Current(st), taken |-> <<>>], do) IN [ok |-> r.ok, chain |-> r.st.chain]

CanCall(st, t) == t \notin st.busy /\ st.at[t] < Len(st.programs[t])
CanReturn(st, t) == t \in st.busy
Begin(st, t) == [st EXCEPT !.at[t] = @ + 1, !.busy = @ \cup {t}]
\* A change about to happen can be found by all that are busy, and by those that begin before it is over
Call(st, t) == LET s == Begin(st, t)
                   do == Doing(s, t)
                   c == Change(st, do).chain
               IN IF do.op \in Changes
                  THEN [s EXCEPT !.now = {Current(st), c}, !.seen = [u \in DOMAIN s.seen |-> IF u = t THEN {Current(st)} ELSE s.seen[u] \cup {c}]]
                  ELSE [s EXCEPT !.seen[t] = st.now]
\* The chain it was before the change is that its own thread has seen
Before(st, t) == [st EXCEPT !.now = st.seen[t]]
Return(st, t) == LET s == [st EXCEPT !.busy = @ \ {t}]
                 IN IF Doing(st, t).op \in Changes THEN [s EXCEPT !.now = {Change(Before(st, t), Doing(st, t)).chain}] ELSE s
Over(st) == st.busy = {} /\ \A t \in 1..Len(st.programs) : st.at[t] = Len(st.programs[t])

JDo(st, t, do) ==
  CASE do.op = "thing" -> LET i == CHOOSE i \in 1..Len(st.alone) : st.alone[i][1] = do.key
                          IN IF do.obs = st.alone[i][2] THEN "" ELSE "thing"
    [] do.op = "nested" -> IF \E i \in 1..Len(do.inner) : L!Judge(<<>>, do.inner[i]).bad # "" THEN "nested_inner"
                           ELSE IF L!Judge(<<>>, do.outer).bad # "" THEN "nested_outer" ELSE ""
    [] do.op \in Changes -> IF do.obs.ok = Change(Before(st, t), do).ok THEN "" ELSE "change_outcome"
    [] do.op = "chained" -> IF (\E c \in st.seen[t] : ~P!Covered(c, do.v)) \/ (do.obs.ok /\ \E c \in st.seen[t] : do.obs.v = P!BuildString(c, do.v))
                            THEN "" ELSE "chained"
    [] OTHER -> L!Judge(<<>>, do).bad

Judge(st, op) ==
  CASE op.op = "call" ->
         IF CanCall(st, op.t) /\ op.k = st.at[op.t] + 1 THEN [st |-> Call(st, op.t), bad |-> ""] ELSE [st |-> st, bad |-> "call_out_of_order"]
    [] op.op = "return" ->
         IF ~CanReturn(st, op.t) THEN [st |-> st, bad |-> "return_without_call"]
         ELSE IF "crash" \in DOMAIN op.do THEN [st |-> st, bad |-> "crash"]
         ELSE LET bad == JDo(st, op.t, op.do)
                  s == Return(st, op.t)
              IN [st |-> s, bad |-> bad]
    [] op.op = "end" -> [st |-> st, bad |-> IF Over(st) /\ \A t \in 1..Len(st.ended) : st.ended[t] THEN "" ELSE "never_ends"]
=============================================================================
