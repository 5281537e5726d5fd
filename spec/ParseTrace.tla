---------------------------- MODULE ParseTrace ----------------------------
(* Conformance of parse_readout (of encoders, decoders, circuits) to Parse. *)
(* A batch is a list of questions about one lattice; every question carries *)
(* the distinct answers the implementation gave, and by whom.               *)
EXTENDS Parse, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE)
Batches == Input.batches

VARIABLES b, l, bad
vars == <<b, l, bad>>

SameHits(list, want) == Len(list) = Cardinality(want) /\ Range(list) = want

Problem(B, c) ==
  LET v == Value(B.dh, B.dw, c.fields, c.rt)
      hx == Hits(B.dh, B.dw, c.fields, "X", c.rt)
      hz == Hits(B.dh, B.dw, c.fields, "Z", c.rt)
      wrong == {i \in 1..Len(c.answers) :
                  LET a == c.answers[i]
                  IN ~ (a.out = "ok" /\ a.v = v /\ SameHits(a.X, hx) /\ SameHits(a.Z, hz))}
  IN IF wrong = {} THEN ""
     ELSE LET a == c.answers[CHOOSE i \in wrong : TRUE]
          IN a.who \o " answered " \o a.out \o " " \o ToString(<<a.v, a.X, a.Z>>) \o ", specified " \o ToString(<<v, hx, hz>>)

Init == b \in 1..Len(Batches) /\ l = 1 /\ bad = ""
Next ==
  /\ l <= Len(Batches[b].cases)
  /\ bad' = Problem(Batches[b], Batches[b].cases[l])
  /\ l' = l + 1 /\ b' = b
  /\ IF bad' # "" THEN PrintT(<<"REJECT", Batches[b].id, l, bad'>>) ELSE TRUE
  /\ IF l' > Len(Batches[b].cases) THEN PrintT(<<"ACCEPT", Batches[b].id, l>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
===========================================================================
