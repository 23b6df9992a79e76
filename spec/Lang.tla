--------------------------------- MODULE Lang ---------------------------------
(***************************************************************************)
(* The stateless part of the library as operations with observations.      *)
(* Judge says, for one recorded operation, which clause of the             *)
(* specification its observation breaks ("" if none).                      *)
(***************************************************************************)
EXTENDS Parse, Paths, Sha1

Start(cfg) == <<>>

Is(obs, txt) == obs.ok /\ obs.v = txt
IsErr(obs, e) == ~obs.ok /\ obs.err = e

Shorten(txt, max) == IF 0 < max /\ max < Len(txt) THEN Sha1Hex(txt) ELSE txt

\* What the id of v says: its id part, in canonical form
SameIdData(a, b) == Canon(IdPart(a, FALSE)) = Canon(IdPart(b, FALSE))

(***************************************************************************)
(* Ids                                                                     *)
(***************************************************************************)
JId(op) == IF Is(op.obs, Id(op.v, op.nonids)) THEN "" ELSE "id"
JPosId(op) == IF Is(op.obs, PositionalId(op.v, op.nonids)) THEN "" ELSE "positional_id"
JShort(op) ==
  LET full == IF op.kind = "id" THEN Id(op.v, op.nonids) ELSE PositionalId(op.v, op.nonids)
  IN IF Is(op.obs, Shorten(full, op.max)) THEN "" ELSE "maxlength"
JRender(op) == IF Is(op.obs, Render(op.v)) THEN "" ELSE "render"
JDirect(op) == IF Is(op.obs, DirectId(op.v)) THEN "" ELSE "direct_id"

\* Several values with their ids: same id iff same data
JInj(op) ==
  IF \E i \in 1..Len(op.ids) : ~op.ids[i].ok THEN "inj_error"
  ELSE IF \E i, j \in 1..Len(op.ids) : i < j /\ op.ids[i].v = op.ids[j].v /\ ~SameIdData(op.vs[i], op.vs[j])
       THEN "collision"
  ELSE IF \E i, j \in 1..Len(op.ids) : i < j /\ op.ids[i].v # op.ids[j].v /\ SameIdData(op.vs[i], op.vs[j])
       THEN "not_canonical"
  ELSE ""

(***************************************************************************)
(* Parsing                                                                 *)
(***************************************************************************)
JParse(op) ==
  LET r == ParseTop(op.s, op.env)
  IN CASE r.ok = "no" -> IF IsErr(op.obs, "NoMatch") THEN "" ELSE "must_be_rejected"
       [] r.ok = "meaningless" -> IF ~op.obs.ok THEN "" ELSE "meaningless_accepted"
       [] r.ok = "yes" -> IF ~op.obs.ok THEN "must_be_accepted"
                          ELSE IF TypedEq(op.obs.v, r.v) THEN "" ELSE "parsed_value"

\* The id of v, what it parses to, and the id of that
JRoundTrip(op) ==
  IF ~Is(op.id, Id(op.v, op.nonids)) THEN "id"
  ELSE IF ~Faithful(op.v) THEN ""
  ELSE IF ~op.parsed.ok THEN "does_not_parse"
  ELSE IF Canon(IdPart(op.v, op.nonids)) # Canon(op.parsed.v) THEN "parsed_differs"
  ELSE IF ~Is(op.id2, op.id.v) THEN "id_of_parsed"
  ELSE ""

\* Two texts that differ in blanks between tokens
JSame(op) == IF op.a.ok /\ op.b.ok /\ TypedEq(op.a.v, op.b.v) THEN "" ELSE "blanks"

(***************************************************************************)
(* Keys                                                                    *)
(***************************************************************************)
JFlatten(op) ==
  LET f == Flatten(op.v, op.nonids, op.colls, op.rec)
      ks == [i \in 1..Len(f) |-> KeyOf(f[i][1])]
      vs == [i \in 1..Len(f) |-> f[i][2]]
      okeys == op.keys  ovals == op.values
  IN IF ~okeys.ok \/ ~ovals.ok \/ ~op.keys2.ok \/ ~op.values2.ok THEN "flatten_error"
     ELSE IF ~TypedEq(okeys.v, op.keys2.v) \/ ~TypedEq(ovals.v, op.values2.v) THEN "keys_values_halves"
     ELSE IF ~(op.keys3.ok /\ TypedEq(okeys.v, op.keys3.v)) THEN "order_of_build"
     ELSE IF Len(okeys.v.e) # Len(f) \/ Len(ovals.v.e) # Len(f) THEN "flatten_length"
     ELSE IF Determined(op.v)
          THEN IF ~TypedEq(okeys.v, List(ks)) THEN "flatten_keys"
               ELSE IF ~TypedEq(ovals.v, List(vs)) THEN "flatten_values" ELSE ""
          ELSE IF {<<Canon(ks[i]), Canon(vs[i])>> : i \in 1..Len(f)}
                  # {<<Canon(okeys.v.e[i]), Canon(ovals.v.e[i])>> : i \in 1..Len(f)} THEN "flatten_pairs" ELSE ""

JGet(op) ==
  LET a == Address(op.v, PathOf(op.key))
  IN IF a = Missing
     THEN IF ~IsErr(op.item, "KeyError") THEN "missing_key"
          ELSE IF ~(op.get.ok /\ TypedEq(op.get.v, op.default)) THEN "get_default" ELSE ""
     ELSE IF ~(op.item.ok /\ TypedEq(op.item.v, a)) THEN "getitem"
          ELSE IF ~(op.get.ok /\ TypedEq(op.get.v, a)) THEN "get" ELSE ""

(***************************************************************************)
(* Equality                                                                *)
(***************************************************************************)
JEq(op) ==
  LET e == PyEq(op.a, op.b)
  IN IF ~(op.eq.ok /\ op.eq.v = e) THEN "eq"
     ELSE IF ~(op.qe.ok /\ op.qe.v = e) THEN "eq_symmetric"
     ELSE IF ~(op.ne.ok /\ op.ne.v = ~e) THEN "ne" ELSE ""
JForeign(op) == IF op.eq.ok /\ ~op.eq.v /\ op.ne.ok /\ op.ne.v THEN "" ELSE "eq_foreign"

(***************************************************************************)
(* Lists of ids                                                            *)
(***************************************************************************)
Parsed(s, env) == ParseTop(s, env).v

JMatch(op) ==
  LET tmpl == Parsed(op.tmpl, op.env)
      want == SelectSeq(op.ids, LAMBDA s : Matches(Parsed(s, op.env), tmpl, op.ignored, op.colls, op.rec))
  IN IF ~op.obs.ok THEN "match_error"
     ELSE IF op.obs.v = want THEN ""
     ELSE IF \E i \in 1..Len(want) : want[i] \notin Range1(op.obs.v) THEN "match_lost" ELSE "match_extra"

\* Stable sort of the positions of rows (tuples of values)
OrderOf(rows) ==
  SortSeq([i \in 1..Len(rows) |-> i],
          LAMBDA i, j : TupLt(rows[i], rows[j], 1) \/ (~TupLt(rows[j], rows[i], 1) /\ i < j))
RowOf(w, keys) == [i \in 1..Len(keys) |-> Address(w, PathOf(keys[i]))]
\* obs.perm: the position in the input of each returned row; obs.vals: their values
JSort(op) ==
  LET whats == [i \in 1..Len(op.ids) |-> Parsed(op.ids[i], op.env)]
      rows == [i \in 1..Len(whats) |-> RowOf(whats[i], op.keys)]
      n == Len(rows)
      order == OrderOf(rows)
  IN IF \E i \in 1..n : Missing \in Range1(rows[i])
     THEN IF IsErr(op.obs, "KeyError") THEN "" ELSE "sort_missing_key"
     ELSE IF ~op.obs.ok THEN "sort_error"
     ELSE IF op.obs.perm # order THEN "sort_order"
     ELSE IF ~TypedEq(op.obs.vals, Tuple([i \in 1..n |-> Tuple(rows[order[i]])])) THEN "sort_values" ELSE ""

\* Data frames: cols is a sequence of <<name, sequence of cells>>; a cell without value is "none"
Cell(v) == IF v = Missing \/ (v.t = "float" /\ v.q = NaN) THEN None ELSE v
SameCell(a, b) == LET x == Cell(a) y == Cell(b) IN PyEq(x, y)
SameCells(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameCell(a[i], b[i])
SameCols(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ SameCells(a[i][2], b[i][2])
ColOf(cols, name) == cols[CHOOSE i \in 1..Len(cols) : cols[i][1] = name][2]
HasCol(cols, name) == \E i \in 1..Len(cols) : cols[i][1] = name

JColumns(op) ==
  LET whats == [i \in 1..Len(op.ids) |-> Parsed(op.ids[i], op.env)]
      tops == UNION {{w.c[i][1] : i \in 1..Len(w.c)} : w \in Range1(whats)}
      full(k) == op.prefix \o ColumnName(k) \o op.postfix
      cells(k) == [i \in 1..Len(whats) |-> Address(whats[i], IF k.t = "list" THEN k.e ELSE PathOf(k))]
      before == op.before  after == op.after
      wanted == IF op.all THEN {Str(n) : n \in tops} ELSE Range1(op.keys)
      names == {full(k) : k \in wanted}
  IN IF ~op.obs.ok THEN "columns_error"
     ELSE IF after.index # before.index THEN "columns_index"
     ELSE IF \E k \in wanted : ~HasCol(after.cols, full(k)) THEN "columns_missing"
     ELSE IF \E k \in wanted : ~SameCells(ColOf(after.cols, full(k)), cells(k)) THEN "columns_values"
     ELSE IF ~SameCols(SelectSeq(after.cols, LAMBDA c : HasCol(before.cols, c[1]) /\ c[1] \notin names),
                       SelectSeq(before.cols, LAMBDA c : c[1] \notin names)) THEN "columns_existing"
     ELSE IF ~op.all /\ \E i \in 1..Len(after.cols) : /\ ~HasCol(before.cols, after.cols[i][1])
                                                     /\ after.cols[i][1] \notin names THEN "columns_extra"
     ELSE IF op.inplace # op.same THEN "columns_inplace"
     ELSE IF ~op.inplace /\ ~(op.given.index = before.index /\ SameCols(op.given.cols, before.cols)) THEN "columns_modified"
     ELSE ""

(***************************************************************************)
(* Old-style ids: out=name#Class#k=v#...                                   *)
(***************************************************************************)
OutText == T("out=")
OldMeaning(s, env) ==
  LET has == StartsWith(s, OutText)
      h == IndexOf(s, 35, 1)
      outv == IF h = 0 THEN SubSeq(s, 5, Len(s)) ELSE SubSeq(s, 5, h - 1)
      rest == IF h = 0 THEN <<>> ELSE SubSeq(s, h + 1, Len(s))
      r == ParseTop(IF has THEN rest ELSE s, env)
  IN IF r.ok # "yes" THEN r
     ELSE IF ~has THEN r
     ELSE IF \E i \in 1..Len(r.v.c) : r.v.c[i][1] = T("out") THEN [ok |-> "ambiguous", v |-> None]
     ELSE [ok |-> "yes", v |-> What(r.v.n, r.v.o, Append(r.v.c, <<T("out"), Str(outv)>>), <<>>)]

JOld(op) ==
  LET r == OldMeaning(op.s, op.env)
  IN CASE r.ok = "yes" -> IF ~(op.what.ok /\ TypedEq(op.what.v, r.v)) THEN "old_meaning"
                          ELSE IF ~Is(op.conv, Id(r.v, FALSE)) THEN "old_conversion"
                          ELSE IF ~Faithful(r.v) \/ (op.back.ok /\ TypedEq(op.back.v, r.v)) THEN "" ELSE "old_reparse"
       [] r.ok = "ambiguous" -> IF IsErr(op.what, "ValueError") /\ IsErr(op.conv, "ValueError") THEN "" ELSE "old_ambiguous"
       [] r.ok = "meaningless" -> IF ~op.what.ok /\ ~op.conv.ok THEN "" ELSE "old_meaningless"
       [] r.ok = "no" -> IF ~IsErr(op.what, "NoMatch") THEN "old_rejected"
                         ELSE IF Is(op.conv, op.s) THEN "" ELSE "old_unchanged"

(***************************************************************************)
(* Plain dictionaries                                                      *)
(***************************************************************************)
JPlain(op) ==
  LET want == Plain(IdPart(op.v, op.nonids))
  IN IF ~Faithful(op.v) THEN ""
     ELSE IF ~(op.dict.ok /\ TypedEq(op.dict.v, want)) THEN "to_dict"
     ELSE IF ~(op.iddict.ok /\ TypedEq(op.iddict.v, want)) THEN "id2dict" ELSE ""

(***************************************************************************)
(* Routes to an id                                                         *)
(***************************************************************************)
JRoutes(op) ==
  LET bad == {i \in 1..Len(op.routes) : ~Is(op.routes[i][2], IF op.routes[i][1] = "nested"
                                                              THEN T("holder(p=") \o Id(op.w, FALSE) \o T(")")
                                                              ELSE Id(op.w, FALSE))}
  IN IF bad = {} THEN "" ELSE "route_" \o op.routes[CHOOSE i \in bad : TRUE][1]
\* The description of an experiment: [v] a text or nothing, or [w] what a thing is
SetupOf(s) == IF "w" \in DOMAIN s THEN Str(Id(s.w, FALSE)) ELSE s.v
ExperimentNames == <<"title", "data_setup", "model_setup", "eval_setup", "fsource", "date", "idate", "host", "comments">>
JExperiment(op) ==
  LET r == op.obs.v
      v(i) == r[i][2]
  IN IF ~op.obs.ok THEN "experiment_error"
     ELSE IF [i \in 1..Len(r) |-> r[i][1]] # [i \in 1..9 |-> T(ExperimentNames[i])] THEN "experiment_names"
     ELSE IF \E i \in 1..3 : ~TypedEq(v(i + 1), SetupOf(op.setups[i])) THEN "experiment_setup"
     ELSE IF ~(TypedEq(v(1), op.title) /\ TypedEq(v(7), op.time) /\ TypedEq(v(9), op.comments)) THEN "experiment_given"
     ELSE IF v(6).t # "str" \/ v(8).t # "str" THEN "experiment_made"
     ELSE IF ~(IF op.function THEN v(5).t = "str" /\ Contains(v(5).s, T("def an_experiment")) ELSE v(5).t = "none") THEN "experiment_source"
     ELSE ""
JVerbatim(op) == IF op.obs.ok /\ TypedEq(op.obs.v, op.v) THEN "" ELSE "verbatim"
\* What is whatable.  facts about asking obj.what(), for anything but classes:
\*   "absent", "notcallable", "raises", "other" (yields something else), "what" (yields a configuration)
\* and for classes: "absent", "unmarked" (takes an instance), "marked" (made whatable), "bound_what", "bound_other"
IsWhatable(facts) == facts \in {"what", "marked", "bound_what"}
JIsWhatable(op) == IF op.obs.ok /\ op.obs.v = IsWhatable(op.facts) /\ op.again.ok /\ op.again.v = op.obs.v
                   THEN (IF ~op.object \/ op.facts = "raises" THEN ""
                         ELSE IF op.facts \in {"what", "bound_what"} THEN (IF op.id.ok /\ op.inferred = op.id THEN "" ELSE "whatable_id")
                         ELSE IF op.id.ok = op.inferred.ok /\ (op.id.ok => op.id.v = op.inferred.v) THEN "" ELSE "other_id")
                   ELSE "is_whatable"
\* Objects that are not whatable: their own id, if they have a method for it, or else what they look like
OwnId == {"method", "static", "classmethod", "callable", "class_classmethod"}
Looks(op) == CASE op.has \in {"class", "class_classmethod"} -> What(op.w.n, None, <<>>, <<>>)
               [] op.has \in {"attribute", "property"} -> What(op.w.n, None, Append(op.w.c, <<T("id"), op.attribute>>), <<>>)
               [] OTHER -> op.w
JOwnId(op) == IF ~Is(op.id, IF op.has \in OwnId THEN op.own ELSE Id(Looks(op), FALSE)) THEN "own_id"
              ELSE IF op.has # "callable" /\ ~Is(op.inferred, Id(Looks(op), FALSE)) THEN "looks" ELSE ""
\* What cannot be rendered has no id, by no route; unless it is no part of the identity
JBroken(op) == IF op.hidden THEN JRoutes(op)
               ELSE IF \E i \in 1..Len(op.routes) : op.routes[i][2].ok THEN "id_of_the_broken" ELSE ""

(***************************************************************************)
(* Printed, pickled and copied                                             *)
(***************************************************************************)
\* What prints as an expression with its value
RECURSIVE Printable(_)
Printable(v) ==
  CASE v.t \in {"none", "bool", "int", "float", "str"} -> TRUE
    [] v.t \in {"list", "tuple", "set", "fset"} -> \A i \in 1..Len(v.e) : Printable(v.e[i])
    [] v.t = "dict" \/ (v.t = "odict" /\ v.n = T("OrderedDict")) -> \A i \in 1..Len(v.m) : Printable(v.m[i][1]) /\ Printable(v.m[i][2])
    [] v.t = "what" -> Printable(v.o) /\ \A i \in 1..Len(v.c) : Printable(v.c[i][2])
    [] OTHER -> FALSE
\* With the names declared non-id, and the order of the parameters, as part of the data
RECURSIVE Unabridged(_)
Unabridged(v) ==
  CASE v.t \in {"list", "tuple", "set", "fset"} -> [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Unabridged(v.e[i])]]
    [] v.t \in {"dict", "odict"} -> [v EXCEPT !.m = [i \in 1..Len(v.m) |-> <<Unabridged(v.m[i][1]), Unabridged(v.m[i][2])>>]]
    [] v.t = "sub" -> [v EXCEPT !.v = Unabridged(v.v)]
    [] v.t = "what" -> Tuple(<<[t |-> "what", n |-> v.n, o |-> v.o, c |-> [i \in 1..Len(v.c) |-> <<v.c[i][1], Unabridged(v.c[i][2])>>], x |-> <<>>],
                               List([i \in 1..Len(v.c) |-> Str(v.c[i][1])]),
                               [t |-> "set", e |-> [i \in 1..Len(v.x) |-> Str(v.x[i])]]>>)
    [] OTHER -> v
SameAll(a, b) == TypedEq(Unabridged(a), Unabridged(b))
JAgain(op) ==
  LET bad == {i \in 1..Len(op.back) :
                LET b == op.back[i] IN
                /\ b.how # "repr" \/ Printable(op.v)
                /\ ~(/\ b.obs.ok /\ SameAll(b.obs.v, op.v)
                      /\ Is(b.id, Id(op.v, FALSE)) /\ Is(b.long, Id(op.v, TRUE)))}
      altered == {i \in 1..Len(op.back) : ~SameAll(op.back[i].after, op.v)}
  IN IF bad # {} THEN "again_" \o op.back[CHOOSE i \in bad : TRUE].how
     ELSE IF altered # {} THEN "altered_" \o op.back[CHOOSE i \in altered : TRUE].how ELSE ""

Judge(st, op) ==
  [st |-> st,
   bad |-> CASE op.op = "id" -> JId(op)
             [] op.op = "posid" -> JPosId(op)
             [] op.op = "short" -> JShort(op)
             [] op.op = "render" -> JRender(op)
             [] op.op = "direct" -> JDirect(op)
             [] op.op = "inj" -> JInj(op)
             [] op.op = "parse" -> JParse(op)
             [] op.op = "roundtrip" -> JRoundTrip(op)
             [] op.op = "same" -> JSame(op)
             [] op.op = "flatten" -> JFlatten(op)
             [] op.op = "get" -> JGet(op)
             [] op.op = "eq" -> JEq(op)
             [] op.op = "foreign" -> JForeign(op)
             [] op.op = "match" -> JMatch(op)
             [] op.op = "sort" -> JSort(op)
             [] op.op = "columns" -> JColumns(op)
             [] op.op = "old" -> JOld(op)
             [] op.op = "plain" -> JPlain(op)
             [] op.op = "again" -> JAgain(op)
             [] op.op = "routes" -> JRoutes(op)
             [] op.op = "experiment" -> JExperiment(op)
            [] op.op = "ownid" -> JOwnId(op)
            [] op.op = "broken" -> JBroken(op)
             [] op.op = "verbatim" -> JVerbatim(op)
             [] op.op = "iswhatable" -> JIsWhatable(op)]
=============================================================================
