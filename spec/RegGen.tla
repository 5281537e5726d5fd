------------------------------- MODULE RegGen -------------------------------
(* The calling side of topological registers: building one, adding to its  *)
(* sub-registers (also lists that must be refused, wholly or from some     *)
(* item on), and looking things up.  TLC generates all such histories up   *)
(* to a length, or random longer ones; CircuitTrace judges the recordings. *)
(*                                                                         *)
(* Items: g  buildable, b  unbuildable dimensions, u  unknown type,        *)
(* s  (last) one parameter set too many.  cnt is the number of topological *)
(* qubits that should exist, subs the names of the sub-registers in use.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cfg    == JsonDeserialize(IOEnv.TRACE)
Names  == Range(Cfg.names)
Lists  == Range(Cfg.lists)          \* patterns, e.g. <<"g", "b">>
First  == Range(Cfg.first)
Random == Cfg.random
Len0   == Cfg.len
Gets   == Cfg.gets                  \* look-ups in between

VARIABLES h, cnt, subs
vars == <<h, cnt, subs>>
Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

Unknown(p) == \E i \in 1..Len(p) : p[i] \in {"u", "s"}
Built(p) == IF Unknown(p) THEN 0
            ELSE IF \E i \in 1..Len(p) : p[i] = "b"
                 THEN (CHOOSE i \in 1..Len(p) : p[i] = "b" /\ \A j \in 1..i-1 : p[j] # "b") - 1
                 ELSE Len(p)
Grow(s, p) == IF Built(p) > 0 THEN subs \cup {s} ELSE subs

Init == \E p \in Pick(First) :
          /\ h = <<[k |-> "treg", p |-> p]>>
          /\ cnt = Built(p) /\ subs = IF Built(p) > 0 THEN {"data"} ELSE {}

Add == \E s \in Pick(Names), p \in Pick(Lists) :
          /\ h' = Append(h, [k |-> "treg_add", sub |-> s, p |-> p])
          /\ cnt' = cnt + Built(p) /\ subs' = Grow(s, p)
Get == \E x \in Pick(-1..cnt + 1) :
          /\ h' = Append(h, [k |-> "treg_get", key |-> x]) /\ UNCHANGED <<cnt, subs>>
Sub == \E s \in Pick(Names) :
          /\ h' = Append(h, [k |-> "treg_sub", name |-> s]) /\ UNCHANGED <<cnt, subs>>

Kinds == IF Gets THEN {"add", "add2", "get", "sub"} ELSE {"add"}
Next ==
  /\ Len(h) < Len0
  /\ \E k \in Pick(Kinds) : IF k = "get" THEN Get ELSE IF k = "sub" THEN Sub ELSE Add
  /\ Len(h') = Len0 => PrintT(<<"OUT", ToJson([h |-> h', n |-> cnt', subs |-> SetToSeq(subs')])>>)

Spec == Init /\ [][Next]_vars
===========================================================================
