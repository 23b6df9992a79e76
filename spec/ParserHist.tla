------------------------------ MODULE ParserHist ------------------------------
(***************************************************************************)
(* Parsing, over histories.  A call is one of a table of kinds, each with   *)
(* the outcome it has in a fresh process (cfg.fresh: <<kind, outcome>>) and, *)
(* for the texts given to the default parser, its meaning (Parse).          *)
(* st.fresh: the table; st.results: the configurations obtained so far      *)
(***************************************************************************)
EXTENDS Parse

Start(cfg) == [fresh |-> cfg.fresh, results |-> <<>>]

FreshOf(st, kind) == st.fresh[CHOOSE i \in 1..Len(st.fresh) : st.fresh[i][1] = kind][2]

SameOutcome(a, b) == a.ok = b.ok /\ (IF a.ok THEN TypedEq(a.v, b.v) ELSE a.err = b.err)

\* Everything that can be changed in place within a value, changed
RECURSIVE Changed(_)
ChangedAll(e) == [i \in 1..Len(e) |-> Changed(e[i])]
Changed(v) ==
  CASE v.t = "list" -> List(Append(ChangedAll(v.e), Int_(9)))
    [] v.t = "tuple" -> Tuple(ChangedAll(v.e))
    [] v.t = "set" -> [t |-> "set", e |-> Append(v.e, Str(T("poked")))]
    [] v.t = "dict" -> Dict(Append([i \in 1..Len(v.m) |-> <<v.m[i][1], Changed(v.m[i][2])>>], <<Str(T("poked")), Int_(9)>>))
    [] v.t = "what" -> What(v.n \o T("_"), v.o, Append([i \in 1..Len(v.c) |-> <<v.c[i][1], Changed(v.c[i][2])>>], <<T("poked"), Int_(9)>>),
                            Append(v.x, T("poked")))
    [] OTHER -> v

\* The outcome of a call: from its meaning if it is a text for the default parser
Meaning(st, op) ==
  IF ~op.meaning THEN FreshOf(st, op.kind)
  ELSE LET r == ParseTop(op.s, op.env)
       IN CASE r.ok = "yes" -> [ok |-> TRUE, v |-> r.v]
            [] r.ok = "no" -> [ok |-> FALSE, err |-> "NoMatch"]
            [] OTHER -> FreshOf(st, op.kind)

Step(st, op) ==
  CASE op.op = "parse" -> LET m == Meaning(st, op)
                          IN [out |-> m, st |-> IF m.ok THEN [st EXCEPT !.results = Append(@, m.v)] ELSE st]
    [] op.op = "change" -> [out |-> [ok |-> TRUE, v |-> None],
                            st |-> IF Len(st.results) = 0 THEN st
                                   ELSE LET i == ((op.i - 1) % Len(st.results)) + 1 IN [st EXCEPT !.results[i] = Changed(@)]]

SameWhat(a, b) == TypedEq(a, b) /\ (a.t # "what" \/ Range1(a.x) = Range1(b.x))

\* op.results: all the configurations obtained, as they are after the operation
Judge(st, op) ==
  LET r == Step(st, op)
  IN [st |-> r.st,
      bad |-> IF op.op = "parse" /\ ~SameOutcome(op.obs, r.out) THEN "not_as_in_a_fresh_process"
              ELSE IF op.op = "parse" /\ op.meaning /\ ~SameOutcome(FreshOf(st, op.kind), r.out) THEN "meaning"
              ELSE IF Len(op.results) # Len(r.st.results) THEN "results"
              ELSE IF \E i \in 1..Len(op.results) : ~SameWhat(op.results[i], r.st.results[i]) THEN "earlier_result_changed"
              ELSE ""]
=============================================================================
