--------------------------------- MODULE Arrays ---------------------------------
(***************************************************************************)
(* Arrays, frames and random generators, and their ids.                    *)
(* st: [bufs, things, seen].                                               *)
(* bufs: memory, as sequences of elements (small numbers)                  *)
(* things: [k |-> "arr", cls, dt, buf, off, shape, strides]  a view of the *)
(*           buffer buf, strides in elements                               *)
(*         [k |-> "rng", cls, seed, pos, gauss]                            *)
(*         [k |-> "frame", cls, ik, index, iname, ck, cols, cname, ver]    *)
(*           ik, ck: types of the labels of the index and the columns;     *)
(*           cols: [label, dt, e]; hist: how it came to be                 *)
(* seen: the ids given until now, [same, differ, id]: two asked for with   *)
(*   the same "same" must be equal, with different "differ" must differ    *)
(***************************************************************************)
EXTENDS Text, SequencesExt

Start(cfg) == [bufs |-> <<>>, things |-> <<>>, seen |-> <<>>]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
StdStrides(shape, order) ==
  IF order = "C" THEN [i \in 1..Len(shape) |-> Prod(SubSeq(shape, i + 1, Len(shape)))]
  ELSE [i \in 1..Len(shape) |-> Prod(SubSeq(shape, 1, i - 1))]

\* The i-th (from 0) index of a shape, the last dimension running fastest
RECURSIVE IndexOfFlat(_, _)
IndexOfFlat(shape, i) == IF shape = <<>> THEN <<>>
                         ELSE LET n == shape[Len(shape)] IN Append(IndexOfFlat(SubSeq(shape, 1, Len(shape) - 1), i \div n), i % n)
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE a[1] * b[1] + Dot(Tail(a), Tail(b))
\* Elements of an array, the last dimension running fastest
Elems(st, a) == [i \in 1..Prod(a.shape) |-> st.bufs[a.buf][a.off + Dot(IndexOfFlat(a.shape, i - 1), a.strides)]]
Used(shape, strides) == [i \in 1..Len(shape) |-> IF shape[i] > 1 THEN strides[i] ELSE 0]
\* Strides matter along dimensions with more than one element, if there are elements at all
Layout(a) == IF Prod(a.shape) = 0 THEN <<>> ELSE Used(a.shape, a.strides)
IsOrder(a, order) == Layout(a) = (IF Prod(a.shape) = 0 THEN <<>> ELSE Used(a.shape, StdStrides(a.shape, order)))

NewArray(st, cls, dt, shape, order, elems) ==
  LET strides == StdStrides(shape, order)
      n == Prod(shape)
      mem == [j \in 1..n |-> elems[CHOOSE i \in 1..n : 1 + Dot(IndexOfFlat(shape, i - 1), strides) = j]]
  IN [st EXCEPT !.bufs = Append(@, mem),
                !.things = Append(@, [k |-> "arr", cls |-> cls, dt |-> dt, buf |-> Len(st.bufs) + 1, off |-> 1,
                                      shape |-> shape, strides |-> strides])]
AddThing(st, x) == [st EXCEPT !.things = Append(@, x)]

\* Codes: injective
E(s) == <<Len(s)>> \o s
EE(ss) == <<Len(ss)>> \o FlattenSeqs([i \in 1..Len(ss) |-> E(ss[i])])
ArrCode(st, a) ==
  LET layout == IF a.dt = T("O") THEN (IF IsOrder(a, "F") /\ ~IsOrder(a, "C") THEN <<1>> ELSE <<0>>) ELSE Layout(a)
  IN <<1>> \o E(a.cls) \o E(a.dt) \o E(a.shape) \o E(layout) \o E(Elems(st, a))
RngCode(r) == <<2>> \o E(r.cls) \o <<r.seed, r.pos, r.gauss>>
FrameCode(f) == <<3>> \o E(f.cls) \o E(T(f.ik)) \o E(f.index) \o <<f.iname>> \o E(T(f.ck)) \o <<f.cname>>
                \o <<Len(f.cols)>> \o FlattenSeqs([i \in 1..Len(f.cols) |-> <<f.cols[i].label>> \o E(f.cols[i].dt) \o E(f.cols[i].e)])
\* Whether an id must be the same: frames with the same contents may differ in how they came to be
\* (op.code says so)
LeafCode(st, i, same) ==
  LET x == st.things[i]
  IN CASE x.k = "arr" -> ArrCode(st, x)
       [] x.k = "rng" -> RngCode(x)
       [] OTHER -> IF same THEN <<4>> \o x.hist \o FrameCode(x) ELSE FrameCode(x)

\* Trees: [t |-> "leaf", i], [t |-> "int", n], [t, kids] for collections, each kid [n, x] with a name n
SortKids(kids) == LET ns == {kids[i].n : i \in 1..Len(kids)}
                      rank(n) == Cardinality({m \in ns : TextLt(m, n)}) + 1
                  IN [j \in 1..Len(kids) |-> kids[CHOOSE i \in 1..Len(kids) : rank(kids[i].n) = j]]
RECURSIVE Code(_, _, _)
Code(st, x, same) ==
  CASE x.t = "leaf" -> LeafCode(st, x.i, same)
    [] x.t = "int" -> <<5, x.n>>
    [] x.t \in {"list", "tuple"} -> <<IF x.t = "list" THEN 6 ELSE 7, Len(x.kids)>>
                                    \o FlattenSeqs([i \in 1..Len(x.kids) |-> E(Code(st, x.kids[i].x, same))])
    [] OTHER -> LET ks == SortKids(x.kids) IN <<IF x.t = "dict" THEN 8 ELSE 9, Len(ks)>>
                   \o FlattenSeqs([i \in 1..Len(ks) |-> E(ks[i].n) \o E(Code(st, ks[i].x, same))])

ChangeFrame(st, op, f) == [st EXCEPT !.things[op.a] = [f EXCEPT !.hist = @ \o op.code]]

Step(st, op) ==
  LET a == st.things[op.a] IN
  CASE op.op = "new" -> NewArray(st, op.cls, op.dt, op.shape, op.order, op.e)
    \* cuts: for each dimension, start (from 0), how many, step
    [] op.op = "slice" -> AddThing(st, [a EXCEPT !.shape = [d \in 1..Len(@) |-> op.cuts[d][2]],
                                                 !.strides = [d \in 1..Len(@) |-> @[d] * op.cuts[d][3]],
                                                 !.off = @ + Dot([d \in 1..Len(a.shape) |-> IF op.cuts[d][2] = 0 THEN 0 ELSE op.cuts[d][1]], a.strides)])
    [] op.op = "transpose" -> AddThing(st, [a EXCEPT !.shape = [d \in 1..Len(@) |-> a.shape[op.perm[d]]],
                                                     !.strides = [d \in 1..Len(@) |-> a.strides[op.perm[d]]]])
    [] op.op = "newaxis" -> AddThing(st, [a EXCEPT !.shape = SubSeq(@, 1, op.at - 1) \o <<1>> \o SubSeq(@, op.at, Len(@)),
                                                   !.strides = SubSeq(@, 1, op.at - 1) \o <<0>> \o SubSeq(@, op.at, Len(@))])
    [] op.op = "ascls" -> AddThing(st, [a EXCEPT !.cls = op.cls])
    [] op.op = "asdt" -> AddThing(st, [a EXCEPT !.dt = op.dt])
    [] op.op = "copy" -> NewArray(st, a.cls, a.dt, a.shape, op.order, Elems(st, a))
    [] op.op = "clone" -> IF a.k = "rng" THEN AddThing(st, a)
                          ELSE NewArray(st, a.cls, a.dt, a.shape, IF ~IsOrder(a, "C") /\ IsOrder(a, "F") THEN "F" ELSE "C", Elems(st, a))
    [] op.op = "put" -> [st EXCEPT !.bufs[a.buf][a.off + Dot(op.at, a.strides)] = op.v]
    [] op.op = "rng" -> AddThing(st, [k |-> "rng", cls |-> op.cls, seed |-> op.seed, pos |-> 0, gauss |-> 0])
    [] op.op = "draw" -> [st EXCEPT !.things[op.a].pos = @ + op.n]
    [] op.op = "gauss" -> [st EXCEPT !.things[op.a].gauss = 1]
    [] op.op = "frame" -> AddThing(st, [k |-> "frame", hist |-> op.code] @@ op.f)
    [] op.op = "fcopy" -> AddThing(st, [a EXCEPT !.hist = @ \o op.code])
    [] op.op = "fput" -> ChangeFrame(st, op, [a EXCEPT !.cols[op.c].e[op.r] = op.v])
    [] op.op = "flabel" -> ChangeFrame(st, op, IF op.c = 0 THEN [a EXCEPT !.index[op.r] = op.v] ELSE [a EXCEPT !.cols[op.c].label = op.v])
    [] op.op = "fname" -> ChangeFrame(st, op, IF op.c = 0 THEN [a EXCEPT !.iname = op.v] ELSE [a EXCEPT !.cname = op.v])
    [] op.op = "ftype" -> ChangeFrame(st, op, [a EXCEPT !.cols[op.c].dt = op.v])
    [] op.op = "ask" -> [st EXCEPT !.seen = IF op.obs.ok THEN Append(@, [same |-> Code(st, op.x, TRUE), differ |-> Code(st, op.x, FALSE), id |-> op.obs.v])
                                            ELSE @]

\* op.now: for each thing, its contents: arrays [shape, layout, elems], frames [cols, index...], generators nothing
JNow(st, i, now) ==
  LET x == st.things[i]
  IN CASE x.k = "arr" -> /\ now.e = Elems(st, x) /\ now.shape = x.shape /\ now.dt = x.dt /\ now.cls = x.cls
                         /\ (IF Prod(now.shape) = 0 THEN <<>> ELSE Used(now.shape, now.strides)) = Layout(x)
       [] x.k = "frame" -> FrameCode([now EXCEPT !.cls = x.cls]) = FrameCode(x)
       [] OTHER -> now.kept

Judge(st, op) ==
  LET s == Step(st, op)
      same == Code(st, op.x, TRUE)
      differ == Code(st, op.x, FALSE)
      wrong == {i \in 1..Len(st.things) : ~JNow(st, i, op.now[i])}
  IN [st |-> s,
      bad |-> IF op.op # "ask" THEN (IF op.obs.ok THEN "" ELSE "machinery_" \o op.op)
              ELSE IF ~op.obs.ok THEN "must_have_an_id"
              ELSE IF \E i \in 1..Len(st.seen) : st.seen[i].same = same /\ st.seen[i].id # op.obs.v THEN "same_contents_same_id"
              ELSE IF \E i \in 1..Len(st.seen) : st.seen[i].differ # differ /\ st.seen[i].id = op.obs.v THEN "different_contents_different_ids"
              ELSE IF wrong # {} THEN "modified" ELSE ""]
=============================================================================
