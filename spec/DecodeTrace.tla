---------------------------- MODULE DecodeTrace ----------------------------
(* Conformance of the decoders.  Every batch is about one lattice, number  *)
(* of round comparisons and readout type:                                  *)
(*   kind "graph"  the decoder's graph must be the graph of single faults  *)
(*   kind "class"  every answer must be in a least-weight class            *)
(*   kind "degen"  the same with weights reduced by the number of paths    *)
(*   kind "steps"  error graph, matching and matched graph of hits         *)
(*   kind "model"  no implementation: the closed form used for "class"     *)
(*                 against exhaustion of all fault sets                    *)
EXTENDS DecodeGraph, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACE)
Batches == Input.batches

VARIABLES b, l, m, bad
vars == <<b, l, m, bad>>
View == <<b, l, bad>>
B == Batches[b]

(* Labels come as <<t, 2*row, 2*col>>. *)
FromLabel(x) == <<x[1], (x[2] + 1) \div 2, (x[3] + 1) \div 2>>
Genuine(x) == x[2] % 2 # 0 /\ x[3] % 2 # 0

---------------------------------------------------------------------------
GraphProblem ==
  LET c == B.graph
      want == Nodes(B.dh, B.dw, B.T, B.ty)
      got == {FromLabel(c.nodes[i]) : i \in 1..Len(c.nodes)}
      wantE == Edges(B.dh, B.dw, B.T, B.ty)
      gotE == {{FromLabel(c.nodes[c.edges[i][1]]), FromLabel(c.nodes[c.edges[i][2]])} : i \in 1..Len(c.edges)}
      virt == {FromLabel(c.virtual[i]) : i \in 1..Len(c.virtual)}
  IN CASE c.out # "ok" -> "building the decoder: " \o c.out
       [] ~ \A i \in 1..Len(c.nodes) : Genuine(c.nodes[i]) -> "node labels"
       [] got # want -> "nodes: missing " \o ToString(want \ got) \o ", extra " \o ToString(got \ want)
       [] Len(c.nodes) # Cardinality(want) -> "a node is there twice"
       [] gotE # wantE -> "edges: missing " \o ToString(wantE \ gotE) \o ", extra " \o ToString(gotE \ wantE)
       [] Len(c.edges) # Cardinality(wantE) -> "an edge is there twice"
       [] \E i \in 1..Len(c.edges) : c.edges[i][3] # 1 -> "an edge has not unit weight"
       [] virt # {n \in want : n[1] = -1} \/ Len(c.virtual) # Cardinality(virt) -> "boundary nodes " \o ToString(virt)
       [] OTHER -> ""

---------------------------------------------------------------------------
Hits(c) == [i \in 1..Len(c.hits) |-> FromLabel(c.hits[i])]
AnswerOK(c, a, w, tol) ==
  /\ a.out = "ok" /\ a.v \in {0, 1}
  /\ LET p == (a.v + c.v) % 2 IN w[p + 1] <= w[2 - p] + tol

Judged(c, w, tol) ==
  LET wrong == {i \in 1..Len(c.answers) : ~AnswerOK(c, c.answers[i], w, tol)}
  IN IF wrong = {} THEN ""
     ELSE LET a == c.answers[CHOOSE i \in wrong : TRUE]
          IN "measured " \o ToString(c.v) \o ", answered " \o a.out \o " " \o ToString(a.v) \o " (" \o a.who
             \o "); least weights uncrossed and crossed: " \o ToString(w)

ClassProblem(c) == Judged(c, ClassWeights(B.dh, B.dw, B.ty, Hits(c)), 0)

---------------------------------------------------------------------------
(* Shortest paths in the graph of single faults: length and number.        *)
Paths(adj, src) ==
  LET RECURSIVE go(_, _, _)
      go(acc, front, k) ==
        LET next == UNION {adj[u] : u \in DOMAIN front} \ DOMAIN acc
            cnt == [v \in next |-> FoldSet(LAMBDA u, s : s + front[u], 0, adj[v] \cap DOMAIN front)]
        IN IF next = {} THEN acc
           ELSE go([v \in next |-> <<k, cnt[v]>>] @@ acc, cnt, k + 1)
  IN go(src :> <<0, 1>>, src :> 1, 1)

Asked == UNION {Range(Hits(B.cases[i])) : i \in 1..Len(B.cases)}
Matrix ==
  LET N == Nodes(B.dh, B.dw, B.T, B.ty)
      E == Edges(B.dh, B.dw, B.T, B.ty)
      adj == [v \in N |-> UNION {e \in E : v \in e} \ {v}]
  IN [v \in {n \in N : n[1] # -1} \cap Asked |-> Paths(adj, v)]

Virt == {<<-1, f[1], f[2]>> : f \in Boundary(B.dh, B.dw, B.ty)}

(* The weight that k paths save, in millionths: c[k] is ln(k)/ln((1-p)/p),  *)
(* for larger k halved as often as it takes, and between two entries.      *)
RECURSIVE Bonus(_, _, _)
Bonus(c, k, half) ==
  LET q == k \div half
  IN IF q >= Len(c) THEN Bonus(c, k, 2 * half)
     ELSE IF half = 1 THEN c[k]
     ELSE LET s == CHOOSE s \in 1..31 : 2^s = half
          IN c[q] + s * c[2] + ((c[q + 1] - c[q]) * ((1000 * (k % half)) \div half)) \div 1000

(* Weights in millionths.                                                  *)
MatchWeight(c, u, v) ==
  LET d == m[u][v][1]
      deg == IF v[1] # -1 THEN m[u][v][2]
             ELSE FoldSet(LAMBDA x, s : s + m[u][x][2], 0, {x \in Virt : m[u][x][1] = d})
  IN d * 1000000 - Bonus(c, deg, 1)

RECURSIVE Matching(_, _, _)
Matching(bonus, hits, free) ==
  IF hits = <<>> THEN <<0, 1000000000>>
  ELSE LET u == hits[1]
           rest == Tail(hits)
           toV == FoldSet(LAMBDA v, acc :
                     LET r == Plus(Matching(bonus, rest, free \ {v}), MatchWeight(bonus, u, v))
                     IN MinW(acc, IF Near(B.ty, v) THEN Swap(r) ELSE r),
                     <<1000000000, 1000000000>>, free)
       IN FoldLeft(LAMBDA acc, k :
                     MinW(acc, Plus(Matching(bonus, RemoveAt(rest, k), free), MatchWeight(bonus, u, rest[k]))),
                   toV, [k \in 1..Len(rest) |-> k])

(* The matcher resolves each match to a ten-thousandth. *)
DegenProblem(c) ==
  Judged(c, Matching(Input.bonus[c.p], Hits(c), Virt), 110 * (Len(c.hits) + 1))

---------------------------------------------------------------------------
(* The steps of decoding one by one.  c.p = 0: path counts play no role.   *)
Cost(c, u, v) ==
  LET x == IF u[1] = -1 THEN v ELSE u
      y == IF u[1] = -1 THEN u ELSE v
  IN IF c.p = 0 THEN m[x][y][1] * 1000000 ELSE MatchWeight(Input.bonus[c.p], x, y)
Close(x, y) == Abs(x - y) <= 3
Least(c) == LET w == IF c.p = 0 THEN ClassWeights(B.dh, B.dw, B.ty, Hits(c)) ELSE Matching(Input.bonus[c.p], Hits(c), Virt)
            IN Min2(w[1], w[2]) * (IF c.p = 0 THEN 1000000 ELSE 1)
Total(c, prs) == FoldLeft(LAMBDA acc, e : acc + Cost(c, e[1], e[2]), 0, prs)

(* pairs: a sequence of <<node, node>> *)
MatchingProblem(c, prs) ==
  LET H == Range(Hits(c))
      in(v) == {i \in 1..Len(prs) : prs[i][1] = v \/ prs[i][2] = v}
  IN CASE \E i \in 1..Len(prs) : prs[i][1] = prs[i][2] \/ {prs[i][1], prs[i][2]} \subseteq Virt -> "a pair of boundary sites"
       [] \E i \in 1..Len(prs) : ~ {prs[i][1], prs[i][2]} \subseteq H \cup Virt -> "a pair with something else"
       [] \E h \in H : Cardinality(in(h)) # 1 -> "a hit is not matched exactly once"
       [] \E v \in Virt : Cardinality(in(v)) > 1 -> "a boundary site is matched twice"
       [] Total(c, prs) > Least(c) + (IF c.p = 0 THEN 0 ELSE 110 * (Len(c.hits) + 1)) ->
            "total weight " \o ToString(Total(c, prs)) \o ", least is " \o ToString(Least(c))
       [] OTHER -> ""

PairsOf(es) == [i \in 1..Len(es) |-> <<FromLabel(es[i][1]), FromLabel(es[i][2])>>]
ErrorGraphProblem(c) ==
  LET H == Range(Hits(c))
      lab == [i \in 1..Len(c.nodes) |-> FromLabel(c.nodes[i])]
      at == [v \in Range(lab) |-> {i \in 1..Len(lab) : lab[i] = v}]
      real == {i \in 1..Len(lab) : lab[i] \in H \cup Virt}
      w == [e \in {{x[1], x[2]} : x \in Range(c.edges)} |->
              {c.edges[i][3] : i \in {i \in 1..Len(c.edges) : {c.edges[i][1], c.edges[i][2]} = e}}]
      boundary(i) == c.nodes[i][1] = -1
  IN CASE ~ H \cup Virt \subseteq Range(lab) -> "nodes missing: " \o ToString((H \cup Virt) \ Range(lab))
       [] \E v \in H \cup Virt : Cardinality(at[v]) # 1 -> "a node is there twice"
       [] \E i \in (1..Len(lab)) \ real : ~boundary(i) -> "nodes that are no hits"
       [] Cardinality(DOMAIN w) # Len(c.edges) -> "an edge is there twice"
       [] \E e \in DOMAIN w : ~ e \subseteq real /\ (w[e] # {0} \/ \E i \in e : ~boundary(i)) -> "an extra node joined to a hit"
       [] \E i, j \in real : i < j /\ {i, j} \notin DOMAIN w -> "an edge is missing"
       [] \E i, j \in real : i < j /\ boundary(i) /\ boundary(j) /\ w[{i, j}] # {0} -> "boundary sites joined at a cost"
       [] \E i, j \in real : i < j /\ ~(boundary(i) /\ boundary(j)) /\ ~ \E x \in w[{i, j}] : Close(-x, Cost(c, lab[i], lab[j])) ->
            LET p == CHOOSE p \in real \X real : p[1] < p[2] /\ ~(boundary(p[1]) /\ boundary(p[2]))
                                                /\ ~ \E x \in w[{p[1], p[2]}] : Close(-x, Cost(c, lab[p[1]], lab[p[2]]))
            IN "edge " \o ToString(<<lab[p[1]], lab[p[2]]>>) \o " weighs " \o ToString(w[{p[1], p[2]}]) \o ", specified "
               \o ToString(-Cost(c, lab[p[1]], lab[p[2]]))
       [] OTHER -> ""
MatchedGraphProblem(c) ==
  LET prs == PairsOf(c.medges)
      got == {FromLabel(c.mnodes[i]) : i \in 1..Len(c.mnodes)}
  IN CASE MatchingProblem(c, prs) # "" -> MatchingProblem(c, prs)
       [] got # UNION {{prs[i][1], prs[i][2]} : i \in 1..Len(prs)} \/ Cardinality(got) # Len(c.mnodes) -> "nodes are not the matched ones"
       [] \E i \in 1..Len(prs) : ~Close(-c.medges[i][3], Cost(c, prs[i][1], prs[i][2])) -> "an edge does not have the weight of its match"
       [] OTHER -> ""
StepsProblem(c) ==
  LET e == ErrorGraphProblem(c)
      p == MatchingProblem(c, PairsOf(c.pairs))
      g == MatchedGraphProblem(c)
  IN CASE c.out # "ok" -> "failed: " \o c.out
       [] e # "" -> "error graph: " \o e
       [] p # "" -> "matching: " \o p
       [] g # "" -> "matched graph: " \o g
       [] ~c.intact -> "an argument was modified"
       [] OTHER -> ""

---------------------------------------------------------------------------
Count == IF B.kind \in {"graph", "model"} THEN 1 ELSE Len(B.cases)

Problem ==
  CASE B.kind = "graph" -> GraphProblem
    [] B.kind = "class" -> ClassProblem(B.cases[l])
    [] B.kind = "degen" -> DegenProblem(B.cases[l])
    [] B.kind = "steps" -> StepsProblem(B.cases[l])
    [] B.kind = "model" -> IF WeightsAgree(B.dh, B.dw, B.T, B.ty) THEN "" ELSE "MODEL: class weights disagree"

Init ==
  /\ b \in 1..Len(Batches) /\ l = 1 /\ bad = ""
  /\ m = IF Batches[b].kind \in {"degen", "steps"} THEN Matrix ELSE <<>>

Next ==
  /\ l <= Count
  /\ bad' = Problem
  /\ l' = l + 1 /\ UNCHANGED <<b, m>>
  /\ IF bad' # "" THEN PrintT(<<"REJECT", B.id, l, bad'>>) ELSE TRUE
  /\ IF l' > Count THEN PrintT(<<"ACCEPT", B.id, l>>) ELSE TRUE

Spec == Init /\ [][Next]_vars
===========================================================================
