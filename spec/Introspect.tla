------------------------------ MODULE Introspect ------------------------------
(***************************************************************************)
(* The configuration inferred from an object.                              *)
(* cfg: n, the name of its class; classes, in method resolution order,     *)
(*   each [slots, members]: slots is <<>> (no slots) or <<names>>, members *)
(*   a sequence of [n, k, v]: name, kind ("plain", "prop", "method") and   *)
(*   value; a property gives v, or mirrors the attribute v.s when k is     *)
(*   "mirror" (none when it is not there); base: the kind of collection    *)
(*   it is ("object" if none) and contents, its contents.                  *)
(* st: [cfg, inst]: inst, the sequence of <<name, value>> assigned.        *)
(***************************************************************************)
EXTENDS Render

Start(cfg) == [cfg |-> cfg, inst |-> <<>>]

Nothing == <<>>

InSlots(c, n) == c.slots # <<>> /\ n \in Range1(c.slots[1])
MemberOf(c, n) == {i \in 1..Len(c.members) : c.members[i].n = n}
DefinedBy(c, n) == InSlots(c, n) \/ MemberOf(c, n) # {}
\* What a name is for the class: the first definition in resolution order
Kind(cfg, n) ==
  LET at == {i \in 1..Len(cfg.classes) : DefinedBy(cfg.classes[i], n)}
  IN IF at = {} THEN [k |-> "absent"]
     ELSE LET c == cfg.classes[CHOOSE i \in at : \A j \in at : i <= j]
          IN IF InSlots(c, n) THEN [k |-> "slot"] ELSE c.members[CHOOSE i \in MemberOf(c, n) : TRUE]
IsProp(k) == k.k \in {"prop", "mirror"}
HasDict(cfg) == \E i \in 1..Len(cfg.classes) : cfg.classes[i].slots = <<>>

Has(inst, n) == \E i \in 1..Len(inst) : inst[i][1] = n
Val(inst, n) == inst[CHOOSE i \in 1..Len(inst) : inst[i][1] = n][2]
Without(inst, n) == SelectSeq(inst, LAMBDA p : p[1] # n)
With(inst, n, v) == Append(Without(inst, n), <<n, v>>)

\* Names: where an attribute can be kept
CanSet(cfg, n) == LET k == Kind(cfg, n) IN k.k = "slot" \/ (~IsProp(k) /\ HasDict(cfg))
CanDel(cfg, inst, n) == ~IsProp(Kind(cfg, n)) /\ Has(inst, n)

\* What getting the attribute gives, <<>> if it is not there (methods, and what is not here, are nobody's mirror)
Get(cfg, inst, n) == IF Has(inst, n) THEN <<Val(inst, n)>>
                     ELSE IF Kind(cfg, n).k = "plain" THEN <<Kind(cfg, n).v>> ELSE <<>>
PropValue(cfg, inst, k) == IF k.k = "prop" THEN k.v
                           ELSE IF Get(cfg, inst, k.v.s) = <<>> THEN None ELSE Get(cfg, inst, k.v.s)[1]

ClassNames(cfg) == UNION {(IF c.slots = <<>> THEN {} ELSE Range1(c.slots[1])) \cup {c.members[i].n : i \in 1..Len(c.members)}
                          : c \in Range1(cfg.classes)}
AllNames(st) == ClassNames(st.cfg) \cup {st.inst[i][1] : i \in 1..Len(st.inst)}

\* Values that are only known to be there (methods, descriptors seen through their class)
Member == [t |-> "opaque", s |-> T("member")]

\* The value of a name in the configuration, <<>> if it does not appear
Source(st, o, n) ==
  LET k == Kind(st.cfg, n)
      class == IF ~o.class THEN <<>>
               ELSE IF k.k = "plain" THEN <<k.v>> ELSE IF k.k = "absent" THEN <<>> ELSE <<Member>>
  IN CASE k.k = "slot" -> IF o.slots /\ Has(st.inst, n) THEN <<Val(st.inst, n)>> ELSE class
       [] IsProp(k) -> IF o.props THEN <<PropValue(st.cfg, st.inst, k)>> ELSE class
       [] OTHER -> IF o.dict /\ Has(st.inst, n) THEN <<Val(st.inst, n)>> ELSE class
\* Slots and properties seen as class members: nothing is said about those
Unsaid(st, o, n) == LET k == Kind(st.cfg, n) IN o.class /\ ((IsProp(k) /\ ~o.props) \/ (k.k = "slot" /\ ~(o.slots /\ Has(st.inst, n))))

Contents(cfg) == cfg.contents
SEQ == T("seq")

\* prefix, postfix: texts; excludes: a sequence of names
Excluded(o, n) == \/ o.prefix # <<>> /\ StartsWith(n, o.prefix)
                  \/ o.postfix # <<>> /\ EndsWith(n, o.postfix)
                  \/ n \in Range1(o.excludes)

Expected(st, o) ==
  LET names == {n \in AllNames(st) : ~Excluded(o, n) /\ Source(st, o, n) # <<>> /\ ~Unsaid(st, o, n)}
  IN {<<n, Source(st, o, n)[1]>> : n \in (IF st.cfg.base = "object" THEN names ELSE names \ {SEQ})}
     \cup (IF st.cfg.base = "object" \/ Excluded(o, SEQ) THEN {} ELSE {<<SEQ, Contents(st.cfg)>>})

Free(st, o) == {n \in AllNames(st) : Unsaid(st, o, n) /\ ~(n = SEQ /\ st.cfg.base # "object")}

Step(st, op) ==
  CASE op.op = "set" -> IF CanSet(st.cfg, op.n) THEN [st EXCEPT !.inst = With(@, op.n, op.v)] ELSE st
    [] op.op = "del" -> IF CanDel(st.cfg, st.inst, op.n) THEN [st EXCEPT !.inst = Without(@, op.n)] ELSE st
    [] op.op = "class" -> \* a plain member of the i-th class gets a new value
         [st EXCEPT !.cfg.classes[op.i].members = [j \in 1..Len(@) |-> IF @[j].n = op.n /\ @[j].k = "plain"
                                                                       THEN [@[j] EXCEPT !.v = op.v] ELSE @[j]]]
    [] OTHER -> st
Accepted(st, op) ==
  CASE op.op = "set" -> CanSet(st.cfg, op.n)
    [] op.op = "del" -> CanDel(st.cfg, st.inst, op.n)
    [] OTHER -> TRUE

SameSeq(a, b) == IF a.t \in {"set", "fset"} /\ b.t \in {"set", "fset"}
                 THEN {Canon(a.e[i]) : i \in 1..Len(a.e)} = {Canon(b.e[i]) : i \in 1..Len(b.e)}
                 ELSE TypedEq(a, b)

\* op.obs: pairs [o, r]: the options and what came out, a configuration
JOne(st, x) ==
  LET o == x.o
      want == Expected(st, o)
      free == Free(st, o)
      got == SelectSeq(x.r.v.c, LAMBDA p : p[1] \notin free)
      names == {w[1] : w \in want}
  IN IF ~x.r.ok THEN "refused"
     ELSE IF x.r.v.n # (IF o.name = <<>> THEN st.cfg.n ELSE o.name[1]) THEN "name"
     ELSE IF x.r.v.o.t # "none" THEN "out_name"
     ELSE IF Range1(x.r.v.x) # Range1(o.nonids) THEN "non_ids"
     ELSE IF \E n \in names : ~\E i \in 1..Len(got) : got[i][1] = n THEN "missing"
     ELSE IF \E i \in 1..Len(got) : got[i][1] \notin names THEN "extra"
     ELSE IF \E i \in 1..Len(got) : \E w \in want : w[1] = got[i][1] /\ ~(IF w[1] = SEQ THEN SameSeq(w[2], got[i][2])
                                                                          ELSE TypedEq(w[2], got[i][2])) THEN "value"
     ELSE ""

Judge(st, op) ==
  LET s == Step(st, op)
      js == [i \in 1..Len(op.obs) |-> JOne(s, op.obs[i])]
      bad == {i \in 1..Len(js) : js[i] # ""}
  IN [st |-> s,
      bad |-> IF op.done # Accepted(st, op) THEN "machinery_" \o op.op
              ELSE IF bad = {} THEN "" ELSE js[CHOOSE i \in bad : TRUE]]
=============================================================================
