--------------------------------- MODULE Bind ---------------------------------
(***************************************************************************)
(* Callables and what they have bound.  st: a function (its name and its   *)
(* parameters, [n, has, d] each: name, whether it has a default, default)  *)
(* with the arguments applied so far.  A further application (partial or   *)
(* curried) binds more; decorating binds nothing.  The parameters of open  *)
(* callables (builtins, classes) cannot be told: any can be bound by name, *)
(* none by position.                                                       *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [n |-> cfg.n, sig |-> cfg.sig, open |-> "open" \in DOMAIN cfg, pos |-> <<>>, kw |-> <<>>]

HasName(kw, n) == \E i \in 1..Len(kw) : kw[i][1] = n
ValueOf(kw, n) == kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = n][2]

\* Positional arguments pile up; the outermost application of a keyword wins
Apply(st, pos, kw) ==
  [st EXCEPT !.pos = @ \o pos,
             !.kw = SelectSeq(@, LAMBDA p : ~HasName(kw, p[1])) \o kw]

ByPosition(st, i) == i <= Len(st.pos)
Invalid(st) ==
  \/ Len(st.pos) > Len(st.sig)
  \/ ~st.open /\ \E i \in 1..Len(st.kw) : ~\E j \in 1..Len(st.sig) : st.sig[j].n = st.kw[i][1]
  \/ \E j \in 1..Len(st.sig) : ByPosition(st, j) /\ HasName(st.kw, st.sig[j].n)

\* <<>> or <<value>>: what parameter j has bound
BoundTo(st, j) == IF ByPosition(st, j) THEN <<st.pos[j]>>
                  ELSE IF HasName(st.kw, st.sig[j].n) THEN <<ValueOf(st.kw, st.sig[j].n)>>
                  ELSE IF st.sig[j].has THEN <<st.sig[j].d>> ELSE <<>>
Bound(st) == IF st.open THEN st.kw ELSE FlattenSeqs([j \in 1..Len(st.sig) |-> IF BoundTo(st, j) = <<>> THEN <<>>
                                                   ELSE << <<st.sig[j].n, BoundTo(st, j)[1]>> >>])
\* What the function gets when called with f for each parameter not bound yet
Got(st, f) == [j \in 1..Len(st.sig) |-> <<st.sig[j].n, IF BoundTo(st, j) = <<>> THEN f ELSE BoundTo(st, j)[1]>>]

Conf(st) == What(st.n, None, Bound(st), <<>>)

\* The function can be given other defaults later (not another number of them)
Defaulted(st, j) == Len(SelectSeq(SubSeq(st.sig, 1, j), LAMBDA p : p.has))
Redefault(st, ds) == [st EXCEPT !.sig = [j \in 1..Len(@) |-> IF @[j].has THEN [@[j] EXCEPT !.d = ds[Defaulted(st, j)]] ELSE @[j]]]

Step(st, op) == CASE op.op = "apply" -> Apply(st, op.pos, op.kw)
                  [] op.op = "redefault" -> Redefault(st, op.ds)
                  [] OTHER -> st

\* op.obs: pairs <<route, observation>>
Texts == {"what2id", "str", "object_decorated_id"}
Refusing == {"callable2call", "nested", "listed", "decorated", "decorated_id"}
JRoute(st, r, o) ==
  IF Invalid(st)
  THEN IF r \in Refusing THEN ~o.ok
       ELSE IF r = "call" THEN ~o.ok
       ELSE IF r \in Texts THEN ~o.ok \/ ~StartsWith(o.v, st.n \o T("("))
       ELSE ~o.ok \/ o.v.n # st.n
  ELSE IF ~o.ok THEN FALSE
       ELSE CASE r = "nested" -> o.v = T("w(x=") \o Id(Conf(st), FALSE) \o T(")")
              [] r = "listed" -> o.v = T("w(x=[") \o Id(Conf(st), FALSE) \o T(",1])")
              [] r \in Texts \/ r = "decorated_id" -> o.v = Id(Conf(st), FALSE)
              [] r = "call" -> TypedEq(Dict([j \in 1..Len(o.v) |-> <<Str(o.v[j][1]), o.v[j][2]>>]),
                                       Dict([j \in 1..Len(st.sig) |-> <<Str(Got(st, Str(T("f")))[j][1]), Got(st, Str(T("f")))[j][2]>>]))
              [] OTHER -> TypedEq(o.v, Conf(st))

Judge(st, op) ==
  LET s == Step(st, op)
      bad == {i \in 1..Len(op.obs) : ~JRoute(s, op.obs[i][1], op.obs[i][2])}
      first == CHOOSE i \in bad : \A k \in bad : i <= k
  IN [st |-> s,
      bad |-> IF bad = {} THEN "" ELSE (IF Invalid(s) THEN "invalid_" ELSE "bound_") \o op.obs[first][1]]
=============================================================================
