---------------------------- MODULE CallHistory ----------------------------
(* Decoders and parsers as functions of their question.  A history is a    *)
(* sequence of calls on one long-lived object, mixed with calls on freshly *)
(* built ones and with other spellings of a question; the first answer to  *)
(* a question is the answer to it for ever.  Nothing that is passed in is  *)
(* modified.                                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Input  == JsonDeserialize(IOEnv.TRACE)
Traces == Input.traces

VARIABLES tr, l, memo, bad
vars == <<tr, l, memo, bad>>
Ev == Traces[tr].ev[l]

Known(q) == q \in DOMAIN memo

Call ==
  LET known == Known(Ev.q)
  IN /\ bad' = IF ~Ev.intact THEN "an argument of the call was modified: " \o Ev.what
               ELSE IF known /\ memo[Ev.q].a # Ev.a
                    THEN Ev.what \o ": answered " \o Ev.a \o ", but " \o memo[Ev.q].a \o " in " \o memo[Ev.q].what
               ELSE ""
     /\ memo' = IF known THEN memo ELSE Ev.q :> [a |-> Ev.a, what |-> Ev.what] @@ memo

Init == tr \in 1..Len(Traces) /\ l = 1 /\ memo = <<>> /\ bad = ""
Next ==
  /\ bad = "" /\ l <= Len(Traces[tr].ev)
  /\ Call
  /\ l' = l + 1 /\ tr' = tr
  /\ IF bad' # "" THEN PrintT(<<"REJECT", Traces[tr].id, l, bad'>>)
     ELSE IF l' > Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", Traces[tr].id, l>>)
     ELSE TRUE
Spec == Init /\ [][Next]_vars
===========================================================================
