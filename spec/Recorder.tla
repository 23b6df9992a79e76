------------------------------- MODULE Recorder -------------------------------
(***************************************************************************)
(* Recorders: tables of records with unique ids, in insertion order.        *)
(* st.recs: the recorders, [idcol, ext, sub, defs, posts, rows, count]      *)
(*   idcol: name of the id column; ext: how ids are extracted               *)
(*   sub: of a subclass whose add gives column "sub" when it is not given   *)
(*   defs: <<column, value>>...; posts: names of postprocessors             *)
(*   rows: <<id, record>>..., a record being <<column, value>>...           *)
(*   count: how many ids were extracted so far                              *)
(* st.frozen: calls to add awaiting ids, [r, cols, unbox, posts, over]      *)
(* st.held: collections of settings the user holds (passed in, handed out)  *)
(* Options are <<>> when not given, or <<value>>.                           *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [recs |-> <<>>, frozen |-> <<>>, held |-> <<>>]

Unset == <<>>

\* Associations
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Of(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]
With(m, k, v) == IF Has(m, k) THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)
RECURSIVE Update(_, _)
Update(m, n) == IF n = <<>> THEN m ELSE Update(With(m, n[1][1], n[1][2]), Tail(n))
Without(m, ks) == SelectSeq(m, LAMBDA p : p[1] \notin ks)

RowOf(rows, id) == {i \in 1..Len(rows) : PyEq(rows[i][1], id)}

(***************************************************************************)
(* Ids                                                                     *)
(***************************************************************************)
TextOf(v) == CASE v.t = "str" -> v.s
               [] v.t = "what" -> Id(v, TRUE)
               [] v.t = "none" -> T("None")
               [] v.t = "bool" -> IF v.b THEN T("True") ELSE T("False")
               [] OTHER -> v.s
Extract(ext, v, n) ==
  CASE ext = "str" -> [ok |-> TRUE, v |-> Str(TextOf(v))]
    [] ext = "what2id" -> [ok |-> TRUE, v |-> CASE v.t = "what" -> Str(Id(v, FALSE)) [] v.t = "whatable" -> Str(Id(v.w, FALSE)) [] OTHER -> v]
    [] ext = "verbatim" -> [ok |-> Hashable(v), v |-> v]
    [] ext = "nothing" -> [ok |-> TRUE, v |-> None]
    [] ext = "size" -> [ok |-> TRUE, v |-> IntT(NatText(Len(TextOf(v))))]
    [] ext = "count" -> [ok |-> TRUE, v |-> IntT(NatText(n))]
    [] ext = "first" -> IF v.t # "str" \/ v.s = <<>> THEN [ok |-> FALSE, v |-> v] ELSE [ok |-> TRUE, v |-> Str(<<v.s[1]>>)]
    [] ext = "pair" -> [ok |-> TRUE, v |-> Tuple(<<Str(TextOf(v)), Int_(1)>>)]

(***************************************************************************)
(* Columns.  An argument is                                                 *)
(*   [k |-> "one", v]: shared by all the ids                                *)
(*   [k |-> "deal", e, v]: an iterable of elements e (v as a value)          *)
(*   [k |-> "byid", m]: a dictionary from ids to values                     *)
(***************************************************************************)
Assigned(arg, id, j, unbox) ==
  CASE arg.k = "one" -> [has |-> TRUE, v |-> arg.v]
    [] arg.k = "deal" -> [has |-> TRUE, v |-> IF ~unbox THEN arg.v ELSE IF j <= Len(arg.e) THEN arg.e[j] ELSE None]
    [] arg.k = "byid" -> LET is == RowOf(arg.m, id)
                         IN IF is = {} THEN [has |-> FALSE, v |-> None] ELSE [has |-> TRUE, v |-> arg.m[CHOOSE i \in is : TRUE][2]]

RECURSIVE Assign(_, _, _, _)
Assign(cols, id, j, unbox) ==
  IF cols = <<>> THEN <<>>
  ELSE LET a == Assigned(cols[1][2], id, j, unbox)
           more == Assign(Tail(cols), id, j, unbox)
       IN IF a.has THEN << <<cols[1][1], a.v>> >> \o more ELSE more

(***************************************************************************)
(* Postprocessors                                                          *)
(***************************************************************************)
ColA == T("a")  ColB == T("b")
ValuesIn(rec, c) == {Of(rec.rows[i][2], c) : i \in {j \in 1..Len(rec.rows) : Has(rec.rows[j][2], c)}}
Distinct(vs) == Cardinality({Canon(v) : v \in vs})
Refuse == [ok |-> FALSE, v |-> <<>>]
Yes(record) == [ok |-> TRUE, v |-> record]
Order(record) == IF Has(record, T("order")) /\ Of(record, T("order")).t = "str" THEN Of(record, T("order")).s ELSE <<>>
Post(p, rec, id, record) ==
  CASE p = "stamp" -> Yes(With(record, T("stamp"), id))
    [] p = "renew" -> Yes(With(record, T("new"), True_))
    [] p = "drop_a" -> Yes(Without(record, {ColA}))
    [] p = "same_id" -> Yes(With(record, rec.idcol, Str(T("same"))))
    [] p = "no_id" -> Yes(Without(record, {rec.idcol}))
    [] p = "blank" -> Yes(<<>>)
    [] p = "count" -> Yes(With(record, T("n"), IntT(NatText(Len(rec.rows)))))
    [] p = "one" -> Yes(With(record, T("order"), Str(Order(record) \o T("1"))))
    [] p = "two" -> Yes(With(record, T("order"), Str(Order(record) \o T("2"))))
    [] p = "need_a" -> IF Has(record, ColA) THEN Yes(record) ELSE Refuse
    [] p = "new_b" -> IF Has(record, ColB) /\ (\/ ~Hashable(Of(record, ColB))
                                              \/ \E v \in ValuesIn(rec, ColB) : ~Hashable(v) \/ PyEq(v, Of(record, ColB))) THEN Refuse ELSE Yes(record)
    [] p \in {"no_z", "no_z_stop", "no_z_exit", "no_z_type"} -> IF PyEq(id, Str(T("z"))) \/ PyEq(id, Int_(26)) THEN Refuse ELSE Yes(record)

\* "parent" adds a record by itself (unless it is there already, or ids could be anything), whatever becomes of the addition it takes part in
RECURSIVE AddTo(_, _, _)
ParentId == Str(T("y"))
WithParent(rec) == IF rec.ext = "verbatim" THEN rec ELSE AddTo(rec, <<ParentId>>, [cols |-> <<>>, unbox |-> <<>>, posts |-> << <<>> >>, over |-> <<TRUE>>]).rec

RECURSIVE PostAll(_, _, _, _)
PostAll(ps, rec, id, record) ==
  IF ps = <<>> THEN [ok |-> TRUE, v |-> record, rec |-> rec]
  ELSE IF Head(ps) = "parent" THEN PostAll(Tail(ps), WithParent(rec), id, record)
  ELSE LET r == Post(Head(ps), rec, id, record)
       IN IF ~r.ok THEN [ok |-> FALSE, v |-> <<>>, rec |-> rec] ELSE PostAll(Tail(ps), rec, id, r.v)

(***************************************************************************)
(* Adding                                                                  *)
(***************************************************************************)
\* Nothing gets in but all together, if none of them got in meanwhile
RECURSIVE AddAll(_, _, _, _, _, _, _)
AddAll(rec, ids, cols, unbox, posts, j, acc) ==
  LET no == [ok |-> FALSE, v |-> <<>>, rec |-> rec] IN
  IF j > Len(ids) THEN IF \E i \in 1..Len(acc) : RowOf(rec.rows, acc[i][1]) # {} THEN no
                       ELSE [ok |-> TRUE, v |-> acc, rec |-> rec]
  ELSE LET id == ids[j]
           assigned == Assign(cols, id, j, unbox)
           record == With(assigned, rec.idcol, id)
           full == record \o SelectSeq(rec.defs, LAMBDA d : ~Has(record, d[1]))
           r == PostAll(posts, rec, id, full)
       IN IF RowOf(rec.rows, id) # {} \/ RowOf(acc, id) # {} THEN no
          ELSE IF Has(assigned, rec.idcol) THEN no
          ELSE IF ~r.ok THEN r
          ELSE AddAll(r.rec, ids, cols, unbox, posts, j + 1, Append(acc, <<id, r.v>>))

\* call: [cols, unbox, posts, over].  Result: [ok, rec, added]
AddTo(rec, raw, call) ==
  LET xs == [j \in 1..Len(raw) |-> Extract(rec.ext, raw[j], rec.count + j)]
      rec1 == [rec EXCEPT !.count = IF rec.ext = "count" THEN rec.count + Len(raw) ELSE rec.count]
      ids == [j \in 1..Len(raw) |-> xs[j].v]
      cols == IF rec.sub /\ ~Has(call.cols, T("sub")) THEN Append(call.cols, <<T("sub"), [k |-> "one", v |-> Str(T("yes"))]>>) ELSE call.cols
      posts == IF call.posts = Unset THEN rec.posts
               ELSE IF call.over = <<TRUE>> THEN call.posts[1] ELSE rec.posts \o call.posts[1]
      r == AddAll(rec1, ids, cols, call.unbox # <<FALSE>>, posts, 1, <<>>)
  IN IF \E j \in 1..Len(raw) : ~xs[j].ok THEN [ok |-> FALSE, rec |-> rec1, added |-> <<>>]
     ELSE IF ~r.ok THEN [ok |-> FALSE, rec |-> r.rec, added |-> <<>>]
     ELSE [ok |-> TRUE, rec |-> [r.rec EXCEPT !.rows = @ \o r.v], added |-> r.v]

NoCall(r) == [r |-> r, cols |-> <<>>, unbox |-> Unset, posts |-> Unset, over |-> Unset]
\* Later values win
Refine(call, op) == [r |-> call.r, cols |-> Update(call.cols, op.cols),
                     unbox |-> IF op.unbox = Unset THEN call.unbox ELSE op.unbox,
                     posts |-> IF op.posts = Unset THEN call.posts ELSE op.posts,
                     over |-> IF op.over = Unset THEN call.over ELSE op.over]
\* What an operation starts from: a recorder (f = 0) or a frozen call
Base(st, op) == IF op.f = 0 THEN NoCall(op.r) ELSE st.frozen[op.f]

Step(st, op) ==
  CASE op.op = "new" ->
         [ok |-> TRUE, v |-> <<>>,
          st |-> [st EXCEPT !.recs = Append(@, [idcol |-> op.idcol, ext |-> op.ext, sub |-> op.sub, defs |-> op.defs, posts |-> op.posts,
                                               rows |-> <<>>, count |-> 0]),
                            !.held = @ \o << [k |-> "defs", v |-> op.defs], [k |-> "posts", v |-> op.posts] >>]]
    [] op.op = "misname" -> [ok |-> op.col.t = "str", v |-> <<>>, st |-> st]  \* a recorder that is not kept
    [] op.op = "set_defaults" -> [ok |-> TRUE, v |-> <<>>, st |-> [st EXCEPT !.recs[op.r].defs = Update(@, op.defs)]]
    [] op.op = "del_defaults" -> [ok |-> TRUE, v |-> <<>>, st |-> [st EXCEPT !.recs[op.r].defs = Without(@, Range1(op.names))]]
    [] op.op = "add_posts" -> [ok |-> TRUE, v |-> <<>>, st |-> [st EXCEPT !.recs[op.r].posts = @ \o op.posts]]
    [] op.op = "set_posts" -> [ok |-> TRUE, v |-> <<>>, st |-> [st EXCEPT !.recs[op.r].posts = op.posts]]
    [] op.op = "take" -> [ok |-> TRUE, v |-> <<>>,
                          st |-> [st EXCEPT !.held = @ \o << [k |-> "defs", v |-> st.recs[op.r].defs],
                                                             [k |-> "posts", v |-> st.recs[op.r].posts] >>]]
    [] op.op = "change" -> [ok |-> TRUE, v |-> <<>>,
                            st |-> LET h == st.held[op.h]
                                   IN [st EXCEPT !.held[op.h].v = IF h.k = "defs" THEN With(@, T("changed"), Int_(1)) ELSE Append(@, "stamp")]]
    [] op.op = "freeze" -> [ok |-> TRUE, v |-> <<>>, st |-> [st EXCEPT !.frozen = Append(@, Refine(Base(st, op), op))]]
    [] op.op = "add" -> LET call == Refine(Base(st, op), op)
                            a == AddTo(st.recs[call.r], op.ids, call)
                        IN [ok |-> a.ok, v |-> a.added, st |-> [st EXCEPT !.recs[call.r] = a.rec]]
    [] op.op = "unique" -> [ok |-> \A v \in ValuesIn(st.recs[op.r], op.col) : Hashable(v), v |-> <<>>, st |-> st]
    [] op.op \in {"get", "table"} -> [ok |-> TRUE, v |-> <<>>, st |-> st]
    [] op.op = "define" -> [ok |-> op.hasids, v |-> <<>>, st |-> st]

(***************************************************************************)
(* Judging observations                                                    *)
(***************************************************************************)
SameRecord(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Has(b, a[i][1]) /\ TypedEq(Of(b, a[i][1]), a[i][2])
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : TypedEq(a[i][1], b[i][1]) /\ SameRecord(a[i][2], b[i][2])

\* Records for some ids, skipping those that are not there
Lookup(rec, asked) == LET known == SelectSeq(asked, LAMBDA i : RowOf(rec.rows, i) # {})
                      IN [j \in 1..Len(known) |-> rec.rows[CHOOSE i \in RowOf(rec.rows, known[j]) : TRUE][2]]
SameRecords(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameRecord(a[i], b[i])

Cell(v) == IF v.t = "float" /\ v.q = NaN THEN None ELSE v
SameTable(rec, tab) ==
  LET cols == UNION {{rec.rows[i][2][j][1] : j \in 1..Len(rec.rows[i][2])} : i \in 1..Len(rec.rows)}
      n == Len(rec.rows)
  IN /\ Len(tab.index) = n
     /\ \A i \in 1..n : PyEq(tab.index[i], rec.rows[i][1])
     /\ {tab.cols[j][1] : j \in 1..Len(tab.cols)} = cols
     /\ Len(tab.cols) = Cardinality(cols)
     /\ \A j \in 1..Len(tab.cols) : \A i \in 1..n :
          PyEq(Cell(tab.cols[j][2][i]), IF Has(rec.rows[i][2], tab.cols[j][1]) THEN Cell(Of(rec.rows[i][2], tab.cols[j][1])) ELSE None)

\* What each recorder shows after the operation
JSeen(rec, seen) ==
  IF seen.len # Len(rec.rows) THEN "number_of_records"
  ELSE IF ~SameRecords(seen.got, Lookup(rec, seen.asked)) THEN "records"
  ELSE IF ~SameRecord(seen.defs, rec.defs) THEN "column_defaults"
  ELSE IF seen.posts # rec.posts THEN "postprocessors" ELSE ""
SameHeld(a, b) == IF a.k = "defs" THEN SameRecord(a.v, b) ELSE a.v = b

Judge(st, op) ==
  LET r == Step(st, op)
      n == Len(r.st.recs)
      seen == [i \in 1..n |-> JSeen(r.st.recs[i], op.seen[i])]
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_work" ELSE op.op \o "_must_be_refused")
              ELSE IF op.op = "add" /\ r.ok /\ ~SameRows(op.obs.v, r.v) THEN "added_records"
              ELSE IF op.op = "get" /\ ~SameRecords(op.obs.v, Lookup(st.recs[op.r], op.ids)) THEN "get"
              ELSE IF op.op = "unique" /\ (\A v \in ValuesIn(st.recs[op.r], op.col) : Hashable(v)) /\ ~(LET vs == ValuesIn(st.recs[op.r], op.col)
                                            IN /\ \A v \in vs : \E i \in 1..Len(op.obs.v) : PyEq(op.obs.v[i], v)
                                               /\ \A i \in 1..Len(op.obs.v) : \E v \in vs : PyEq(op.obs.v[i], v)) THEN "unique"
              ELSE IF op.op = "table" /\ ~SameTable(st.recs[op.r], op.obs.v) THEN "table"
              ELSE IF op.op \in {"add", "freeze"} /\ ~op.argsafe THEN "arguments_changed"
              ELSE IF \E i \in 1..n : seen[i] # "" THEN seen[CHOOSE i \in 1..n : seen[i] # ""] \o "_after_" \o op.op
              ELSE IF \E i \in 1..Len(r.st.held) : ~SameHeld(r.st.held[i], op.held[i]) THEN "collections_after_" \o op.op
              ELSE ""]
=============================================================================
