------------------------------- MODULE Draw -------------------------------
(* What a drawn decoding graph shows.  A case records a graph (nodes as    *)
(* <<round, twice row, twice column>>, edges as pairs of positions in that *)
(* list with weights in millionths) and what was drawn of it (positions in *)
(* thousandths): marks, node labels, straight lines, weight labels.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE)
Traces == Input.traces
VARIABLES tr, l

Abs(n) == IF n < 0 THEN -n ELSE n

(* columns to the right, rows downwards, rounds upwards; the boundary sites belong to no round: half height *)
Place(c, v) == <<500 * v[3], -500 * v[2], IF ~c.deep THEN 0 ELSE IF v[1] = -1 THEN 500 * (c.T - 1) ELSE 1000 * v[1]>>
Mid(p, q) == [k \in 1..3 |-> (p[k] + q[k]) \div 2]
Bag(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Ends(c) == [k \in 1..Len(c.edges) |-> <<Place(c, c.nodes[c.edges[k][1]]), Place(c, c.nodes[c.edges[k][2]])>>]

Problem(c) ==
  LET places == [k \in 1..Len(c.nodes) |-> Place(c, c.nodes[k])]
      ends == Ends(c)
      shown == [k \in 1..Len(c.lines) |-> {c.lines[k][1], c.lines[k][2]}]
      meant == [k \in 1..Len(ends) |-> {ends[k][1], ends[k][2]}]
      at == [k \in 1..Len(ends) |-> Mid(ends[k][1], ends[k][2])]
      weights(p) == SortSeq(FoldLeft(LAMBDA acc, k : IF at[k] = p THEN Append(acc, c.edges[k][3]) ELSE acc, <<>>, [k \in 1..Len(at) |-> k]), <)
      labels(p) == SortSeq(FoldLeft(LAMBDA acc, x : IF x[1] = p THEN Append(acc, x[2]) ELSE acc, <<>>, c.weights), <)
  IN CASE c.out # "ok" -> "failed: " \o c.out
       [] Bag(c.marks) # Bag(places) -> "marks are not the nodes: " \o ToString(<<Range(c.marks) \ Range(places), Range(places) \ Range(c.marks)>>)
       [] Bag(c.labels) # Bag([k \in 1..Len(c.nodes) |-> <<places[k], c.nodes[k]>>]) -> "labels of nodes"
       [] Bag(shown) # Bag(meant) -> "lines are not the edges: " \o ToString(<<Range(shown) \ Range(meant), Range(meant) \ Range(shown)>>)
       [] Len(c.weights) # Len(c.edges) -> "number of weights shown"
       [] \E p \in Range(at) : Len(labels(p)) # Len(weights(p)) -> "a weight is not shown at its edge"
       [] \E p \in Range(at) : \E k \in 1..Len(weights(p)) : Abs(weights(p)[k] - labels(p)[k]) > 5100 ->
            "weights shown at " \o ToString(CHOOSE p \in Range(at) : \E k \in 1..Len(weights(p)) : Abs(weights(p)[k] - labels(p)[k]) > 5100)
       [] c.asked # c.used -> "options: asked " \o ToString(c.asked) \o ", used " \o ToString(c.used)
       [] ~c.intact -> "the graph was modified"
       [] OTHER -> ""

Init == tr \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET p == Problem(Traces[tr].ev[l])
     IN IF p # "" THEN l' = Len(Traces[tr].ev) + 1 /\ PrintT(<<"REJECT", Traces[tr].id, l, p>>)
        ELSE l' = l + 1 /\ (l' > Len(Traces[tr].ev) => PrintT(<<"ACCEPT", Traces[tr].id, l>>))
  /\ tr' = tr
Spec == Init /\ [][Next]_<<tr, l>>
===========================================================================
