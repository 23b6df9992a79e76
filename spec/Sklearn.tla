--------------------------------- MODULE Sklearn ---------------------------------
(***************************************************************************)
(* Estimators, splitters and kernels of scikit-learn, and their            *)
(* configurations.  st: [patched, classes, insts].                         *)
(* classes: [n, base, lib, attrs, own]                                     *)
(*   n      its name                                                       *)
(*   base   the class it derives from, when it matters: its index, or 0    *)
(*   lib    whether it is of the library, and so identified by its entry   *)
(*          in the table                                                   *)
(*   attrs  configured by its public attributes (splitters), not by the    *)
(*          parameters of its constructor                                  *)
(*   own    whether it defines its own what()                              *)
(* insts: [t |-> "est", cls, c] with c the parameters, [name, value];      *)
(*   values may have such things inside (pipelines...)                     *)
(***************************************************************************)
EXTENDS Render, SkTable

Start(cfg) == [patched |-> cfg.patched, classes |-> <<>>, insts |-> <<>>]

Table == [i \in 1..Len(Declared) |-> [n |-> T(Declared[i][1]), short |-> T(Declared[i][3]),
                                      x |-> [j \in 1..Len(Declared[i][4]) |-> T(Declared[i][4][j])]]]
Names == [i \in 1..Len(Table) |-> Table[i].n]
InTable(c) == c.lib /\ c.n \in Range1(Names)
Entry(c) == Table[CHOOSE i \in 1..Len(Table) : Table[i].n = c.n]

RECURSIVE OwnOf(_, _)
\* Which class defined the what() in use: 0 for ours
OwnOf(st, i) == IF i = 0 THEN 0 ELSE IF st.classes[i].own THEN i ELSE OwnOf(st, st.classes[i].base)
Answers(st, x) == st.patched \/ OwnOf(st, x.cls) # 0

MineConf == What(T("mine"), None, << <<T("k"), Int_(5)>> >>, <<>>)
Public(c) == SelectSeq(c, LAMBDA p : ~StartsWith(p[1], T("_")) /\ ~EndsWith(p[1], T("_")) /\ p[1] # T("what"))
ParamsOf(st, x) == IF st.classes[x.cls].attrs THEN Public(x.c) ELSE x.c

\* What a value looks like, with the things inside as they are
RECURSIVE Plain(_, _)
PlainConf(st, c) == [i \in 1..Len(c) |-> <<c[i][1], Plain(st, c[i][2])>>]
Plain(st, v) ==
  CASE v.t = "est" -> What(st.classes[v.cls].n, None, SortConf(PlainConf(st, v.c)), <<>>)
    [] v.t \in {"list", "tuple", "set", "fset"} -> [v EXCEPT !.e = [i \in 1..Len(@) |-> Plain(st, @[i])]]
    [] v.t = "dict" -> [v EXCEPT !.m = [i \in 1..Len(@) |-> <<Plain(st, @[i][1]), Plain(st, @[i][2])>>]]
    [] OTHER -> v
\* The configuration of a thing; within values, as whatables
RECURSIVE Conv(_, _)
RECURSIVE Conf(_, _)
Conf(st, x) ==
  IF OwnOf(st, x.cls) # 0 THEN MineConf
  ELSE LET c == st.classes[x.cls]  ps == ParamsOf(st, x)
       IN What(IF InTable(c) THEN Entry(c).short ELSE c.n, None,
               [i \in 1..Len(ps) |-> <<ps[i][1], Conv(st, ps[i][2])>>], IF InTable(c) THEN Entry(c).x ELSE <<>>)
Conv(st, v) ==
  CASE v.t = "est" -> [t |-> "whatable", w |-> Conf(st, v)]
    [] v.t \in {"list", "tuple", "set", "fset"} -> [v EXCEPT !.e = [i \in 1..Len(@) |-> Conv(st, @[i])]]
    [] v.t = "dict" -> [v EXCEPT !.m = [i \in 1..Len(@) |-> <<Conv(st, @[i][1]), Conv(st, @[i][2])>>]]
    [] OTHER -> v

\* Changing something, somewhere inside: path steps are [k |-> "p", n] (a parameter) or [k |-> "i", i] (an element)
Put(c, n, v) == IF \E i \in 1..Len(c) : c[i][1] = n THEN [i \in 1..Len(c) |-> IF c[i][1] = n THEN <<n, v>> ELSE c[i]]
                ELSE Append(c, <<n, v>>)
RECURSIVE SetAt(_, _, _)
SetAt(x, path, v) ==
  IF path = <<>> THEN v
  ELSE LET p == path[1] IN
       IF p.k = "i" THEN [x EXCEPT !.e[p.i] = SetAt(@, Tail(path), v)]
       ELSE LET here == {i \in 1..Len(x.c) : x.c[i][1] = p.n}
                old == IF here = {} THEN None ELSE x.c[CHOOSE i \in here : TRUE][2]
            IN [x EXCEPT !.c = Put(@, p.n, SetAt(old, Tail(path), v))]

Step(st, op) ==
  CASE op.op = "class" -> [st EXCEPT !.classes = Append(@, op.c)]
    [] op.op = "new" -> [st EXCEPT !.insts = Append(@, op.x)]
    [] op.op = "set" -> [st EXCEPT !.insts[op.e] = SetAt(@, op.path, op.v)]
    [] op.op = "clone" -> [st EXCEPT !.insts = Append(@, @[op.e])]
    [] op.op = "own" -> [st EXCEPT !.classes[op.i].own = TRUE]
    [] op.op \in {"patch", "check"} -> [st EXCEPT !.patched = TRUE]
    [] op.op = "litter" -> st

\* op.seen: for each thing: asked (its configuration, with the things inside as they are), id,
\* long (its id, by the name of its class), value (of something else that has it)
JInst(st, x, seen) ==
  IF ~Answers(st, x) THEN (IF seen.asked.ok THEN "must_not_answer" ELSE "")
  ELSE IF ~seen.asked.ok THEN "must_answer"
  ELSE LET want == Conf(st, x)  got == seen.asked.v
           ps == IF OwnOf(st, x.cls) # 0 THEN MineConf.c ELSE PlainConf(st, ParamsOf(st, x))
       IN IF got.n # want.n THEN "name"
          ELSE IF got.o.t # "none" THEN "out_name"
          ELSE IF ~TypedEq([want EXCEPT !.c = ps, !.x = <<>>], [got EXCEPT !.x = <<>>]) THEN "parameters"
          ELSE IF \E i \in 1..Len(ps) : (ps[i][1] \in Range1(want.x)) # (ps[i][1] \in Range1(got.x)) THEN "non_ids"
          ELSE IF ~(seen.id.ok /\ seen.id.v = Id(want, FALSE)) THEN "id"
          ELSE IF OwnOf(st, x.cls) = 0 /\ ~(seen.long.ok /\ seen.long.v = Id([want EXCEPT !.n = st.classes[x.cls].n], FALSE)) THEN "long_id"
          ELSE IF ~(seen.value.ok /\ seen.value.v = T("v(x=") \o Id(want, FALSE) \o T(")")) THEN "nested_id"
          ELSE ""

Judge(st, op) ==
  LET s == Step(st, op)
      js == [i \in 1..Len(s.insts) |-> JInst(s, s.insts[i], op.seen[i])]
      badI == {i \in 1..Len(js) : js[i] # ""}
  IN [st |-> s,
      bad |-> IF ~op.obs.ok THEN "machinery_" \o op.op
              ELSE IF badI # {} THEN js[CHOOSE i \in badI : TRUE] ELSE ""]
=============================================================================
