------------------------------ MODULE OwnRegs ------------------------------
(* The registers a topological circuit keeps by name, on a quantum circuit *)
(* that may be shared with other topological circuits and with the user.   *)
(*                                                                         *)
(*   q, c   the quantum and classical registers of the circuit, in order:  *)
(*          [name, size]                                                   *)
(*   nb     numbers of qubits and of classical bits                        *)
(*   own    what each topological circuit calls them: <<circuit, kind,     *)
(*          name>> -> position in q or c                                   *)
(*                                                                         *)
(* Gen* generate histories of calls; Trace* judge recordings of them.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE)

---------------------------------------------------------------------------
(* The effect of a call ev on such a state: the relation Step.             *)
Name(regs) == {regs[i][1] : i \in 1..Len(regs)}
Grown(new, old, n) == Len(new) = Len(old) + n /\ SubSeq(new, 1, Len(old)) = old
Distinct(s) == Cardinality(Name(s.q) \cup Name(s.c)) = Len(s.q) + Len(s.c)
(* two topological circuits never mean the same register *)
Apart(s) == \A x, y \in DOMAIN s.own : x # y /\ x[2] = y[2] => s.own[x] # s.own[y]
Exists(s) == \A x \in DOMAIN s.own : s.own[x] \in 1..Len(IF x[2] = "q" THEN s.q ELSE s.c)
Kept(o, n) == \A x \in DOMAIN o.own : x \in DOMAIN n.own /\ n.own[x] = o.own[x]

AddProblem(ev, o, n) ==
  LET key == <<ev.t, ev.kind, ev.name>>
      mine(s) == IF ev.kind = "q" THEN s.q ELSE s.c
      theirs(s) == IF ev.kind = "q" THEN s.c ELSE s.q
      w == IF ev.kind = "q" THEN 1 ELSE 2
      last == mine(n)[Len(mine(n))]
      taken == Name(o.q) \cup Name(o.c)
  IN CASE key \in DOMAIN o.own /\ ~ev.override -> IF ev.out # "ok" THEN "failed: " \o ev.out
                                                   ELSE IF n # o THEN "adding a name again changed something" ELSE ""
       [] ev.size < 0 -> IF ev.out = "ok" THEN "an impossible register was accepted"
                         ELSE IF n # o THEN "a refusal changed something" ELSE ""
       [] ev.out # "ok" -> "failed: " \o ev.out
       [] ~Grown(mine(n), mine(o), 1) -> "not exactly one register added"
       [] theirs(n) # theirs(o) -> "a register of the other kind"
       [] last[2] # ev.size -> "size"
       [] n.nb[w] # o.nb[w] + (IF ev.bits THEN 0 ELSE ev.size) \/ n.nb[3 - w] # o.nb[3 - w] -> "bits"
       [] ev.name \notin taken /\ last[1] # ev.name -> "the name is free but not used"
       [] n.own # (key :> Len(mine(n))) @@ o.own -> "the names of the circuit's registers"
       [] OTHER -> ""

(* any other use of the circuit (operations on topological qubits, new qubits and registers) *)
UseProblem(ev, o, n) ==
  CASE ev.out # "ok" -> "failed: " \o ev.out
    [] ~(Len(n.q) >= Len(o.q) /\ Grown(n.q, o.q, Len(n.q) - Len(o.q)) /\ Len(n.c) >= Len(o.c) /\ Grown(n.c, o.c, Len(n.c) - Len(o.c))) ->
         "earlier registers changed"
    [] ~Kept(o, n) -> "a name means another register than before"
    [] \E x \in DOMAIN n.own \ DOMAIN o.own : x[1] # ev.t -> "a name of another topological circuit"
    [] OTHER -> ""

Problem(ev, o, n) ==
  LET p == IF ev.k = "add" THEN AddProblem(ev, o, n) ELSE UseProblem(ev, o, n)
  IN CASE p # "" -> p
       [] ~Distinct(n) -> "two registers of one name"
       [] ~Exists(n) -> "a name means no register of the circuit"
       [] ~Apart(n) -> "two names mean one register"
       [] OTHER -> ""

---------------------------------------------------------------------------
Traces == Input.traces
VARIABLES tr, l, s, h
vars == <<tr, l, s, h>>
Ev == Traces[tr].ev[l]
Fun(f) == [x \in {<<f[i][1], f[i][2], f[i][3]>> : i \in 1..Len(f)} |->
             f[CHOOSE i \in 1..Len(f) : <<f[i][1], f[i][2], f[i][3]>> = x][4]]
Seen(ob) == [q |-> ob.q, c |-> ob.c, nb |-> ob.nb, own |-> Fun(ob.own)]

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Seen(Traces[tr].first) /\ h = <<>>
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET n == Seen(Ev.ob)
         p == Problem(Ev, s, n)
     IN /\ s' = n
        /\ IF p # "" THEN l' = Len(Traces[tr].ev) + 1 /\ PrintT(<<"REJECT", Traces[tr].id, l, p>>)
           ELSE l' = l + 1 /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACCEPT", Traces[tr].id, l>>))
  /\ UNCHANGED <<tr, h>>
TraceSpec == TraceInit /\ [][TraceNext]_vars

---------------------------------------------------------------------------
(* Generation: all histories up to a length, or random longer ones.        *)
Random == Input.random
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Adds == [k : {"add"}, t : 1..Input.circuits, kind : {"q", "c"}, name : Range(Input.names), size : Range(Input.sizes),
         override : BOOLEAN, bits : Range(Input.bits)]
Uses == [k : {"use"}, t : 1..Input.circuits, what : Range(Input.uses), name : Range(Input.names)]
GenInit == tr = 0 /\ l = 0 /\ s = <<>> /\ h = <<>>
GenNext ==
  /\ l < Input.len
  /\ \E w \in Pick(IF Input.uses = <<>> THEN {1} ELSE {1, 2, 3}) :
       \E e \in (IF w = 3 THEN Pick(Uses) ELSE Pick(Adds)) : h' = Append(h, e)
  /\ l' = l + 1 /\ UNCHANGED <<tr, s>>
  /\ l' = Input.len => PrintT(<<"OUT", ToJson(h')>>)
GenSpec == GenInit /\ [][GenNext]_vars
===========================================================================
