----------------------------- MODULE MC_Recorder -----------------------------
(* All the short histories of a small recorder: additions, frozen additions *)
(* and changes of settings.                                                 *)
EXTENDS Recorder, Json
CONSTANTS MaxOps, Exts
VARIABLES st, hist
vars == <<st, hist>>
X == Str(T("x"))  Y == Str(T("y"))  Z == Str(T("z"))
A == T("a")  B == T("b")  IdCol == T("id")
One(v) == [k |-> "one", v |-> v]
Deal == [k |-> "deal", e |-> <<Int_(1)>>, v |-> List(<<Int_(1)>>)]
ById == [k |-> "byid", m |-> << <<X, Int_(7)>> >>]
New(ext) == [op |-> "new", idcol |-> IdCol, ext |-> ext, sub |-> FALSE, defs |-> << <<A, Str(T("d"))>> >>, posts |-> <<>>]
IdLists == {<<>>, <<X>>, <<X, Y>>, <<Y, X>>, <<X, X>>, <<Y, Z>>}
ColSets == {<<>>, << <<A, One(Int_(1))>> >>, << <<A, Deal>>, <<B, ById>> >>, << <<IdCol, ById>> >>}
Calls(s) == [op : {"add"}, f : 0..Len(s.frozen), r : {1}, ids : IdLists, cols : {<<>>}, unbox : {<<>>}, posts : {<<>>}, over : {<<>>}, kw : {FALSE}]
            \cup [op : {"add"}, f : 0..Len(s.frozen), r : {1}, ids : {<<X, Y>>}, cols : ColSets \ {<<>>}, unbox : {<<>>, <<FALSE>>},
                  posts : {<<>>, << <<"no_z", "one">> >>}, over : {<<>>, <<TRUE>>}, kw : {TRUE}]
Freezes(s) == IF Len(s.frozen) >= 2 THEN {}
              ELSE [op : {"freeze"}, f : 0..Len(s.frozen), r : {1}, cols : {<< <<A, One(Int_(2))>> >>, << <<B, ById>> >>}, unbox : {<<>>},
                    posts : {<<>>, << <<"two">> >>}, over : {<<>>}, how : {"call", "padd"}]
Settings == [op : {"set_defaults"}, r : {1}, defs : {<< <<B, Str(T("e"))>> >>, << <<A, None>> >>}]
            \cup [op : {"del_defaults"}, r : {1}, names : {<<A>>}]
            \cup [op : {"add_posts", "set_posts"}, r : {1}, posts : {<<"need_a">>, <<"one">>, <<"no_z">>, <<"parent">>}]
            \cup {[op |-> "take", r |-> 1]}
            \cup [op : {"change"}, h : {1, 2}]
Ops(s) == Calls(s) \cup Freezes(s) \cup Settings
Init == \E e \in Exts : st = Step(Start(<<>>), New(e)).st /\ hist = <<New(e)>>
Next == /\ Len(hist) <= MaxOps
        /\ \E op \in Ops(st) : /\ st' = Step(st, op).st
                               /\ hist' = Append(hist, op)
                               /\ (Len(hist') = MaxOps + 1) => PrintT("CASE " \o ToJson([ops |-> hist' \o <<[op |-> "table", r |-> 1]>>]))
Spec == Init /\ [][Next]_vars
Rec == st.recs[1]
UniqueIds == \A i, j \in 1..Len(Rec.rows) : i # j => ~PyEq(Rec.rows[i][1], Rec.rows[j][1])
\* Earlier records never change, and what is refused leaves everything as it was
Grows == \A op \in Ops(st) :
           LET r == Step(st, op)
           IN /\ SubSeq(r.st.recs[1].rows, 1, Len(Rec.rows)) = Rec.rows
              /\ (op.op # "add" => r.st.recs[1].rows = Rec.rows)
              /\ LET new == SubSeq(r.st.recs[1].rows, Len(Rec.rows) + 1, Len(r.st.recs[1].rows))
                     others == IF "parent" \in Range1(Rec.posts) THEN SelectSeq(new, LAMBDA p : ~PyEq(p[1], ParentId)) ELSE new
                     more == Len(new) - Len(others)
                 IN /\ (~r.ok => others = <<>>)
                    /\ (op.op = "add" /\ r.ok => Len(others) \in {Len(op.ids), Len(op.ids) - more})
\* Freezing and calling leave settings and other frozen calls as they were
Isolated == \A op \in Calls(st) \cup Freezes(st) :
              LET r == Step(st, op).st
              IN /\ r.recs[1].defs = Rec.defs /\ r.recs[1].posts = Rec.posts
                 /\ SubSeq(r.frozen, 1, Len(st.frozen)) = st.frozen
                 /\ r.held = st.held
\* Every record has its id and all the defaults that were there when it was added
HasId == \A i \in 1..Len(Rec.rows) : Has(Rec.rows[i][2], IdCol) /\ Of(Rec.rows[i][2], IdCol) = Rec.rows[i][1]
\* A frozen call is the call with all its columns
FrozenIsCall == \A i \in 1..Len(st.frozen), ids \in IdLists :
                  LET c == st.frozen[i]
                      none == [op |-> "add", f |-> i, r |-> 1, ids |-> ids, cols |-> <<>>, unbox |-> <<>>, posts |-> <<>>, over |-> <<>>]
                  IN Step(st, none).st = Step(st, [none EXCEPT !.f = 0, !.cols = c.cols, !.unbox = c.unbox, !.posts = c.posts, !.over = c.over]).st
=============================================================================
