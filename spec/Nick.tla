--------------------------------- MODULE Nick ---------------------------------
(***************************************************************************)
(* The registries of nicknames (WhatamiRegistry): one-to-one mappings.      *)
(* st: one sequence of <<nick, id>> per registry (in no particular order).  *)
(* Nicknames and ids are texts; NoText stands for a missing argument.      *)
(***************************************************************************)
EXTENDS Text

NoText == <<0>>

Start(cfg) == [r \in 1..cfg.registries |-> {}]

NickOf(m, id) == IF \E p \in m : p[2] = id THEN (CHOOSE p \in m : p[2] = id)[1] ELSE NoText
IdOf(m, nick) == IF \E p \in m : p[1] = nick THEN (CHOOSE p \in m : p[1] = nick)[2] ELSE NoText

OneToOne(m) == \A p, q \in m : (p[1] = q[1]) <=> (p[2] = q[2])

Register(m, id, nick) ==
  IF id = NoText \/ nick = NoText THEN [ok |-> FALSE, m |-> m]
  ELSE IF IdOf(m, nick) \notin {NoText, id} \/ NickOf(m, id) \notin {NoText, nick} THEN [ok |-> FALSE, m |-> m]
  ELSE [ok |-> TRUE, m |-> m \cup {<<nick, id>>}]

Remove(m, nick, id) ==
  LET gone == CASE nick = NoText /\ id = NoText -> {}
                [] nick = NoText -> {p \in m : p[2] = id}
                [] id = NoText -> {p \in m : p[1] = nick}
                [] OTHER -> {p \in m : p[1] = nick /\ p[2] = id}
  IN [ok |-> gone # {}, m |-> m \ gone]

Step(st, op) ==
  LET m == st[op.r]
      r == CASE op.op = "register" -> Register(m, op.id, op.nick)
             [] op.op = "remove" -> Remove(m, op.nick, op.id)
             [] op.op = "reset" -> [ok |-> TRUE, m |-> {}]
  IN [st |-> [st EXCEPT ![op.r] = r.m], ok |-> r.ok]

PairLt(p, q) == TextLt(p[1], q[1]) \/ (p[1] = q[1] /\ TextLt(p[2], q[2]))

\* op.seen: per registry, its list, and for each nickname and id what the lookups gave
JSeen(m, seen) ==
  IF {seen.list[i] : i \in 1..Len(seen.list)} # m \/ Len(seen.list) # Cardinality(m) THEN "list"
  ELSE IF \E i \in 1..(Len(seen.list) - 1) : ~PairLt(seen.list[i], seen.list[i + 1]) THEN "list_order"
  ELSE IF \E i \in 1..Len(seen.nicks) : seen.nicks[i][2] # IdOf(m, seen.nicks[i][1]) THEN "nick2id"
  ELSE IF \E i \in 1..Len(seen.ids) : seen.ids[i][2] # NickOf(m, seen.ids[i][1]) THEN "id2nick"
  ELSE IF \E i \in 1..Len(seen.either) : seen.either[i][2] #
            (IF NickOf(m, seen.either[i][1]) = NoText THEN seen.either[i][1] ELSE NickOf(m, seen.either[i][1])) THEN "nick_or_id"
  ELSE ""

Judge(st, op) ==
  LET r == Step(st, op)
      js == [i \in 1..Len(st) |-> JSeen(r.st[i], op.seen[i])]
  IN [st |-> r.st,
      bad |-> IF op.obs.ok # r.ok THEN (IF r.ok THEN op.op \o "_must_be_accepted" ELSE op.op \o "_must_be_refused")
              ELSE IF op.op = "register" /\ r.ok /\ ~op.fluent THEN "register_returns_what"
              ELSE IF \E i \in 1..Len(st) : js[i] # "" THEN js[CHOOSE i \in 1..Len(st) : js[i] # ""] ELSE ""]
=============================================================================
