------------------------------- MODULE Plugins -------------------------------
(***************************************************************************)
(* The chain of rendering plugins (WhatamiPluginManager): a global list     *)
(* without duplicates, and the rendering of values with it.                *)
(* st.default: the default chain, st.chain: the current one, st.taken: the  *)
(* chains handed out so far (they never change).  Plugins go by name.       *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [default |-> cfg.default, chain |-> cfg.default, taken |-> <<>>]

In(p, chain) == \E i \in 1..Len(chain) : chain[i] = p
Pos(p, chain) == CHOOSE i \in 1..Len(chain) : chain[i] = p
InsertAt(chain, i, p) == SubSeq(chain, 1, i - 1) \o <<p>> \o SubSeq(chain, i, Len(chain))
NoDuplicates(chain) == \A i, j \in 1..Len(chain) : chain[i] = chain[j] => i = j

CatchAll == "anyobject0x_plugin"

\* [ok, chain]: what an operation does to the chain
InsertOp(chain, p, before) ==
  LET anchor == IF before = "default" THEN CatchAll ELSE before
  IN IF In(p, chain) THEN [ok |-> FALSE, chain |-> chain]
     ELSE IF before = "last" THEN [ok |-> TRUE, chain |-> Append(chain, p)]
     ELSE IF ~In(anchor, chain) THEN [ok |-> FALSE, chain |-> chain]
     ELSE [ok |-> TRUE, chain |-> InsertAt(chain, Pos(anchor, chain), p)]
DropOp(chain, p) == IF In(p, chain) THEN [ok |-> TRUE, chain |-> SelectSeq(chain, LAMBDA q : q # p)]
                    ELSE [ok |-> FALSE, chain |-> chain]

(***************************************************************************)
(* Rendering.  Custom plugins of the harness:                               *)
(*   c1: integers as c1; c2: integers and texts as c2; c3: declines always; *)
(*   c4: texts, as an empty text; c5: lists as c5; c6: anything as c6;      *)
(*   deep: the catch-all, looking into the objects (anyobject0x_plugin with  *)
(*   deep=True: their class, and all their members as its parameters)       *)
(* Values carry in py what Python's str gives. Objects are [n, c, py]: the  *)
(* name of their class and their members.                                   *)
(***************************************************************************)
Handles(p, v) ==
  CASE p = "c1" -> v.t = "int"
    [] p = "c2" -> v.t \in {"int", "str"}
    [] p = "c3" -> FALSE
    [] p = "c4" -> v.t = "str"
    [] p = "c5" -> v.t = "list"
    [] p = "c6" -> TRUE
    [] p = "what_plugin" -> v.t = "what"
    [] p = "whatable_plugin" -> v.t = "whatable"
    [] p = "string_plugin" -> v.t = "str"
    [] p = "tuple_plugin" -> v.t = "tuple"
    [] p = "list_plugin" -> v.t = "list"
    [] p = "dict_plugin" -> v.t = "dict"
    [] p = "set_plugin" -> v.t = "set"
    [] p \in {"anyobject0x_plugin", "deep"} -> v.t \notin {"what", "whatable"} /\ Contains(v.py, T(" at 0x"))
    [] p = "anyobject_plugin" -> TRUE
    [] OTHER -> FALSE

NameOf(v) == CASE v.t = "obj" -> v.n [] v.t = "str" -> T("str") [] OTHER -> ClassName(v)
Customs == {"c1", "c2", "c3", "c4", "c5", "c6"}

RECURSIVE BuildString(_, _)
RECURSIVE IdWith(_, _)
IdWith(chain, w) ==
  LET c == SortConf(w.c)
  IN w.n \o T("(") \o Join([i \in 1..Len(c) |-> c[i][1] \o <<61>> \o BuildString(chain, c[i][2])], Comma) \o T(")")
BuildString(chain, v) ==
  LET is == {i \in 1..Len(chain) : Handles(chain[i], v)}
      p == chain[CHOOSE i \in is : \A j \in is : i <= j]
      All(e) == [i \in 1..Len(e) |-> BuildString(chain, e[i])]
  IN CASE p = "c4" -> <<>>
       [] p \in Customs \ {"c4"} -> T(p)
       [] p = "what_plugin" -> IdWith(chain, v)
       [] p = "whatable_plugin" -> IdWith(chain, v.w)
       [] p = "string_plugin" -> RenderText(v.s)
       [] p = "tuple_plugin" -> T("(") \o Join(All(v.e), Comma) \o T(")")
       [] p = "list_plugin" -> T("[") \o Join(All(v.e), Comma) \o T("]")
       [] p = "dict_plugin" -> Brace([i \in 1..Len(v.m) |-> BuildString(chain, v.m[i][1]) \o <<58>>
                                                            \o BuildString(chain, v.m[i][2])])
       [] p = "set_plugin" -> IF v.e = <<>> THEN T("set()") ELSE Brace(All(v.e))
       [] p = "anyobject0x_plugin" -> NameOf(v) \o T("()")
       [] p = "deep" -> IF v.t = "obj" THEN IdWith(chain, v) ELSE NameOf(v) \o T("()")
       [] p = "anyobject_plugin" -> IF v.t = "what" THEN IdWith(chain, v) ELSE v.py

\* Is there a plugin for every value in v?  (otherwise there is nothing to say)
RECURSIVE Covered(_, _)
Covered(chain, v) ==
  /\ \E i \in 1..Len(chain) : Handles(chain[i], v)
  /\ CASE v.t \in {"list", "tuple", "set"} -> \A i \in 1..Len(v.e) : Covered(chain, v.e[i])
       [] v.t = "dict" -> \A i \in 1..Len(v.m) : Covered(chain, v.m[i][1]) /\ Covered(chain, v.m[i][2])
       [] v.t \in {"what", "obj"} -> \A i \in 1..Len(v.c) : Covered(chain, v.c[i][2])
       [] v.t = "whatable" -> /\ Covered(chain, v.w)
                              /\ In("deep", chain) => In("whatable_plugin", chain) /\ Pos("whatable_plugin", chain) < Pos("deep", chain)
       [] OTHER -> TRUE

(***************************************************************************)
(* The transitions: [st, ok], for the operations that are not queries      *)
(***************************************************************************)
Step(st, op) ==
  CASE op.op = "insert" -> LET r == InsertOp(st.chain, op.p, op.before) IN [st |-> [st EXCEPT !.chain = r.chain], ok |-> r.ok]
    [] op.op = "drop" -> LET r == DropOp(st.chain, op.p) IN [st |-> [st EXCEPT !.chain = r.chain], ok |-> r.ok]
    [] op.op = "reset" -> [st |-> [st EXCEPT !.chain = st.default], ok |-> TRUE]
    [] op.op = "take" -> [st |-> [st EXCEPT !.taken = Append(st.taken, st.chain)], ok |-> TRUE]
    [] OTHER -> [st |-> st, ok |-> TRUE]

\* op.obs: how the operation ended; op.chain: the chain afterwards; op.taken: the chains handed out, as they are now
Judge(st, op) ==
  LET r == Step(st, op)
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok /\ op.op # "render" THEN (IF r.ok THEN "must_be_accepted" ELSE "must_be_refused")
              ELSE IF op.chain # r.st.chain THEN "chain_after_" \o op.op
              ELSE IF op.taken # r.st.taken THEN "chain_taken_changed"
              ELSE IF op.op = "render" /\ Covered(st.chain, op.v) /\ ~(op.obs.ok /\ op.obs.v = BuildString(st.chain, op.v))
                   THEN "rendered_by_another" ELSE ""]
=============================================================================
