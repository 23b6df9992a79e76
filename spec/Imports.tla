-------------------------------- MODULE Imports --------------------------------
(***************************************************************************)
(* Optional imports.  st: [mods, hands, classes].                          *)
(* mods: the modules there are: [path, pkg, s, needs, has]                 *)
(*   path: their name, as a sequence of names; pkg: whether a package      *)
(*   s: "ok", "import" (raises an import error) or "other" (another error) *)
(*   needs: modules they import themselves (paths)                         *)
(*   has: pairs <<name of a member, what it is (an identifier)>>           *)
(* hands: the stand-ins given, [lib, tried, hint]: hint is <<>> or <<text>>*)
(* classes: pairs <<qualified name (path), identifier of its own what or   *)
(*   0, that of the one it inherits or 0>>                                 *)
(***************************************************************************)
EXTENDS Text, TLC, FiniteSets

Ran(s) == {s[i] : i \in 1..Len(s)}
HasMod(st, p) == \E i \in 1..Len(st.mods) : st.mods[i].path = p
ModAt(st, p) == st.mods[CHOOSE i \in 1..Len(st.mods) : st.mods[i].path = p]
Start(cfg) == [mods |-> cfg.mods, hands |-> <<>>, classes |-> cfg.classes]

\* Importable: they are there, they and the packages they are in work, and so does what they need
RECURSIVE Importable(_, _)
Importable(st, p) ==
  /\ HasMod(st, p)
  /\ ModAt(st, p).s = "ok"
  /\ Len(p) > 1 => (Importable(st, SubSeq(p, 1, Len(p) - 1)) /\ ModAt(st, SubSeq(p, 1, Len(p) - 1)).pkg)
  /\ \A n \in Ran(ModAt(st, p).needs) : Importable(st, n)

Dotted(p) == Join(p, T("."))

\* [ok, mod, hand]: the first variant that can be imported, or a stand-in
Tried(op) == IF op.variants = <<>> THEN <<op.lib>> ELSE op.variants
Hint(op) == IF op.hint = <<>> THEN <<>>
            ELSE IF op.hint[1] \in {T("pip"), T("conda")} THEN <<op.hint[1] \o T(" install ") \o Dotted(Tried(op)[1])>>
            ELSE op.hint
Maybe(st, op) ==
  LET vs == Tried(op)
      good == {i \in 1..Len(vs) : Importable(st, vs[i])}
  IN IF good # {} THEN [ok |-> TRUE, mod |-> vs[CHOOSE i \in good : \A j \in good : i <= j], hand |-> <<>>]
     ELSE [ok |-> FALSE, mod |-> <<>>, hand |-> <<[lib |-> op.lib, tried |-> vs, hint |-> Hint(op)]>>]

Account(h, attr, msg) ==
  /\ Contains(msg, attr)
  /\ Contains(msg, Dotted(h.lib))
  /\ \A i \in 1..Len(h.tried) : Contains(msg, Dotted(h.tried[i]))
  /\ h.hint # <<>> => Contains(msg, h.hint[1])

Under(st, pkg, deep) == {p \in {st.mods[i].path : i \in 1..Len(st.mods)} :
   /\ Len(p) >= Len(pkg) /\ SubSeq(p, 1, Len(pkg)) = pkg
   /\ deep \/ Len(p) <= Len(pkg) + 1}
\* Where an import error cannot be avoided: modules in importable packages
Reached(st, pkg, deep) == {p \in Under(st, pkg, deep) : Len(p) = Len(pkg) \/ Importable(st, SubSeq(p, 1, Len(p) - 1))}
Collected(st, op) == {p \in Under(st, op.pkg, op.deep) : Importable(st, p)}
CollectOk(st, op) == op.ignore \/ (Importable(st, op.pkg) /\ \A p \in Reached(st, op.pkg, op.deep) : Importable(st, p))

OwnerMod(p) == SubSeq(p, 1, Len(p) - 1)
IsClass(st, p) == \E i \in 1..Len(st.classes) : st.classes[i][1] = p
WhatsOf(st, p) == st.classes[CHOOSE i \in 1..Len(st.classes) : st.classes[i][1] = p]
Whatamized(st, op) == [st EXCEPT !.classes = [i \in 1..Len(@) |->
   IF @[i][1] = op.class /\ (op.force \/ (@[i][2] = 0 /\ @[i][3] = 0)) THEN <<@[i][1], op.f, @[i][3]>> ELSE @[i]]]
Reachable(st, op) == op.byclass \/ Importable(st, OwnerMod(op.class))

Step(st, op) ==
  CASE op.op = "maybe" -> [st EXCEPT !.hands = @ \o Maybe(st, op).hand]
    [] op.op = "install" -> [st EXCEPT !.mods = [i \in 1..Len(@) |-> IF @[i].path = op.path THEN [@[i] EXCEPT !.s = "ok"] ELSE @[i]]]
    [] op.op = "whatamize" -> IF Reachable(st, op) THEN Whatamized(st, op) ELSE st
    [] OTHER -> st

JUse(h, attr, o) == ~o.ok /\ o.importerror /\ Account(h, attr, o.msg)
JOp(st, op) ==
  LET o == op.obs IN
  CASE op.op = "maybe" ->
         LET m == Maybe(st, op) IN
         IF ~o.ok THEN "maybe_import_must_not_raise"
         ELSE IF m.ok THEN (IF o.v.mod = Dotted(m.mod) THEN "" ELSE "first_importable_variant")
         ELSE IF o.v.mod # <<>> THEN "stand_in"
         ELSE IF \A i \in 1..Len(o.v.uses) : JUse(m.hand[1], o.v.uses[i].attr, o.v.uses[i].o) THEN "" ELSE "full_account"
    [] op.op = "use" -> IF JUse(st.hands[op.h], op.attr, o) THEN "" ELSE "full_account_later"
    [] op.op = "member" ->
         LET m == Maybe(st, [lib |-> OwnerMod(op.fqn), variants |-> op.variants, hint |-> op.hint])
             name == op.fqn[Len(op.fqn)]
         IN IF m.ok THEN LET has == ModAt(st, m.mod).has IN
                         IF ~\E i \in 1..Len(has) : has[i][1] = name THEN (IF o.ok THEN "missing_member" ELSE "")  \* not an import failure: told, whatever was requested
                         ELSE IF o.ok /\ o.v = has[CHOOSE i \in 1..Len(has) : has[i][1] = name][2] THEN "" ELSE "member"
            ELSE IF ~op.fail THEN (IF o.ok /\ o.v = 0 THEN "" ELSE "none_on_import_failure")
            ELSE IF JUse(m.hand[1], name, o) THEN "" ELSE "member_must_raise"
    [] op.op = "submodules" ->
         IF CollectOk(st, op) THEN (IF ~o.ok THEN "submodules_must_be_collected"
                                    ELSE IF Ran(o.v) = {Dotted(p) : p \in Collected(st, op)} THEN "" ELSE "submodules")
         ELSE IF o.ok THEN "submodules_must_raise" ELSE ""
    [] op.op = "whatamize" -> IF Reachable(st, op) \/ ~op.fail THEN (IF o.ok THEN "" ELSE "whatamize_must_not_raise")
                              ELSE IF ~o.ok /\ o.importerror THEN "" ELSE "whatamize_must_raise"
    [] OTHER -> ""

\* op.whats: after whatamizing, for each class, the identifier of its own what and of the one it has
\* (0: none), <<>> if its module cannot be imported
JWhats(st, c, seen) == seen = IF Importable(st, OwnerMod(c[1])) THEN <<c[2], IF c[2] # 0 THEN c[2] ELSE c[3]>> ELSE <<>>
Judge(st, op) ==
  LET s == Step(st, op)
      bad == JOp(st, op)
      wrong == IF op.op # "whatamize" THEN {} ELSE {i \in 1..Len(s.classes) : ~JWhats(s, s.classes[i], op.whats[i])}
  IN [st |-> s, bad |-> IF bad # "" THEN bad ELSE IF wrong # {} THEN "whats" ELSE ""]
=============================================================================
