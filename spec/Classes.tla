-------------------------------- MODULE Classes --------------------------------
(***************************************************************************)
(* Classes made by metaclasses that decorate.  st: [metas, classes].       *)
(* metas: their decorators, as pairs <<member, decorators>>, in order      *)
(* decorators: [t |-> "tag", id]   wraps what it gets, hiding its signature*)
(*             [t |-> "need", args] lets pass what requires these arguments*)
(* classes: [meta, bases, own]: index of its metaclass (0: not decorating),*)
(*   of its base classes, and its own members, as pairs <<member, value>>  *)
(* values: [tags, id, fn, coop, sig]: the tags that wrap it, outermost     *)
(*   first; what it is; whether it is a function, and one that calls what  *)
(*   it overrides; its parameters [n, k, has]                              *)
(***************************************************************************)
EXTENDS Text, TLC, FiniteSets

Start(cfg) == [metas |-> <<>>, classes |-> <<>>]

HasM(ms, a) == \E i \in 1..Len(ms) : ms[i][1] = a
GetM(ms, a) == ms[CHOOSE i \in 1..Len(ms) : ms[i][1] = a][2]
Ran(s) == {s[i] : i \in 1..Len(s)}

\* Positional parameters without a default
Required(sig) == LET r == SelectSeq(sig, LAMBDA p : p.k \in {"only", "pos"} /\ ~p.has) IN [i \in 1..Len(r) |-> r[i].n]
Visible(v) == IF v.tags = <<>> THEN Required(v.sig) ELSE <<>>
Missing(v, args) == Ran(args) \ Ran(Visible(v))

\* A decorated value or the missing arguments: [ok, v, missing]
RECURSIVE Apply(_, _, _)
Apply(v, ds, i) ==
  IF i > Len(ds) THEN [ok |-> TRUE, v |-> v, missing |-> {}]
  ELSE IF ds[i].t = "tag" THEN Apply([v EXCEPT !.tags = <<ds[i].id>> \o @], ds, i + 1)
  ELSE IF Missing(v, ds[i].args) # {} THEN [ok |-> FALSE, v |-> v, missing |-> Missing(v, ds[i].args)]
  ELSE Apply(v, ds, i + 1)

\* Linearization of a class from those of its bases: <<>> if there is none
RECURSIVE Merge(_, _)
Merge(ls, acc) ==
  LET rest == SelectSeq(ls, LAMBDA l : l # <<>>)
      good == {i \in 1..Len(rest) : ~\E j \in 1..Len(rest) : rest[i][1] \in Ran(Tail(rest[j]))}
      first == rest[CHOOSE i \in good : \A j \in good : i <= j][1]
  IN IF rest = <<>> THEN acc
     ELSE IF good = {} THEN <<>>
     ELSE Merge([j \in 1..Len(rest) |-> IF rest[j][1] = first THEN Tail(rest[j]) ELSE rest[j]], Append(acc, first))
RECURSIVE Mro(_, _)
Mro(st, c) == LET bs == st.classes[c].bases
              IN Merge([i \in 1..Len(bs) |-> Mro(st, bs[i])] \o <<bs>>, <<c>>)
CanMix(st, bs) == bs = <<>> \/ Merge([i \in 1..Len(bs) |-> Mro(st, bs[i])] \o <<bs>>, <<0>>) # <<>>

\* The metaclass that makes a class: its own, or that of its bases
MetaOf(st, op) == LET ms == ({op.meta} \cup {st.classes[op.bases[i]].meta : i \in 1..Len(op.bases)}) \ {0}
                  IN IF ms = {} THEN 0 ELSE CHOOSE m \in ms : TRUE
Conflict(st, op) == Cardinality(({op.meta} \cup {st.classes[op.bases[i]].meta : i \in 1..Len(op.bases)}) \ {0}) > 1

Decorated(st, op) ==
  LET m == MetaOf(st, op)
      ds == IF m = 0 THEN <<>> ELSE st.metas[m]
  IN [i \in 1..Len(op.own) |-> IF HasM(ds, op.own[i][1]) THEN Apply(op.own[i][2], GetM(ds, op.own[i][1]), 1)
                               ELSE [ok |-> TRUE, v |-> op.own[i][2], missing |-> {}]]

\* [ok, st, missing]: missing arguments that a refusal may name, one set per member refused
Step(st, op) ==
  CASE op.op = "meta" -> [ok |-> TRUE, missing |-> {}, st |-> [st EXCEPT !.metas = Append(@, op.decs)]]
    [] op.op = "class" ->
         IF Conflict(st, op) \/ ~CanMix(st, op.bases) THEN [ok |-> FALSE, missing |-> {}, st |-> st]
         ELSE LET d == Decorated(st, op)
                  bad == {d[i].missing : i \in {j \in 1..Len(d) : ~d[j].ok}}
              IN IF bad # {} THEN [ok |-> FALSE, missing |-> bad, st |-> st]
                 ELSE [ok |-> TRUE, missing |-> {},
                       st |-> [st EXCEPT !.classes = Append(@, [meta |-> MetaOf(st, op), bases |-> op.bases,
                                                                 own |-> [i \in 1..Len(d) |-> <<op.own[i][1], d[i].v>>]])]]
    [] op.op = "need" -> LET m == Missing(op.f, op.args) IN [ok |-> m = {}, missing |-> IF m = {} THEN {} ELSE {m}, st |-> st]
    [] op.op = "required" -> [ok |-> TRUE, missing |-> {}, st |-> st]

\* What a member of a class is: <<>> or <<value>>
Lookup(st, c, a) == LET l == SelectSeq(Mro(st, c), LAMBDA k : HasM(st.classes[k].own, a))
                    IN IF l = <<>> THEN <<>> ELSE <<GetM(st.classes[l[1]].own, a)>>
\* What happens when a function that calls its super is called in an instance of c: each definition, after its tags
RECURSIVE Run(_, _, _, _)
Run(st, l, a, i) == IF i > Len(l) THEN <<>>
                    ELSE IF ~HasM(st.classes[l[i]].own, a) THEN Run(st, l, a, i + 1)
                    ELSE LET v == GetM(st.classes[l[i]].own, a)
                         IN v.tags \o <<v.id>> \o (IF v.fn /\ v.coop THEN Run(st, l, a, i + 1) ELSE <<>>)

Project(v) == [tags |-> v.tags, id |-> v.id]
Names(s, msg) == \A n \in s : Contains(msg, n)

\* op.seen: for each class, for each of the members asked for, its own definition and what is looked up,
\* <<>> or <<[tags, id]>>; calls: for functions, the trace of a call
JMember(s, c, o) ==
  LET own == s.classes[c].own
      l == Lookup(s, c, o.a)
  IN IF o.own # (IF HasM(own, o.a) THEN <<Project(GetM(own, o.a))>> ELSE <<>>) THEN "definition"
     ELSE IF o.found # (IF l = <<>> THEN <<>> ELSE <<Project(l[1])>>) THEN "inherited"
     ELSE IF l # <<>> /\ l[1].fn /\ ~(o.call.ok /\ o.call.v = Run(s, Mro(s, c), o.a, 1)) THEN "call"
     ELSE ""
JClass(s, c, seen) ==
  LET bad == {i \in 1..Len(seen.members) : JMember(s, c, seen.members[i]) # ""}
  IN IF ~seen.name THEN "class_name"
     ELSE IF bad # {} THEN JMember(s, c, seen.members[CHOOSE i \in bad : \A j \in bad : i <= j])
     ELSE IF Ran(seen.members_own) # {s.classes[c].own[i][1] : i \in 1..Len(s.classes[c].own)} THEN "members" ELSE ""

Judge(st, op) ==
  LET r == Step(st, op)
      js == [c \in 1..Len(r.st.classes) |-> IF c <= Len(op.seen) THEN JClass(r.st, c, op.seen[c]) ELSE "lost"]
      bad == {c \in 1..Len(js) : js[c] # ""}
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_be_accepted" ELSE op.op \o "_must_be_refused")
              ELSE IF ~r.ok /\ r.missing # {} /\ ~(\E m \in r.missing : Names(m, op.obs.msg)) THEN "must_name_missing"
              ELSE IF op.op \in {"meta", "need"} /\ r.ok /\ ~op.obs.v THEN op.op \o "_gives_back"
              ELSE IF op.op = "required" /\ op.obs.v # Visible(op.f) THEN "required"
              ELSE IF bad # {} THEN js[CHOOSE c \in bad : \A d \in bad : c <= d] ELSE ""]
=============================================================================
