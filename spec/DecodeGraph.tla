---------------------------- MODULE DecodeGraph ----------------------------
(* The decoding problem of one readout type, defined from the faults.      *)
(*                                                                         *)
(* A site of a type is a face whose parity is of that type, real or just   *)
(* outside the lattice; the outside ones are the boundary sites.  A data   *)
(* error joins the two sites of the type at its corners; a measurement     *)
(* error joins a face to itself one time later.  Nodes are <<t, i, j>>;    *)
(* boundary sites have no time and get t = -1.                             *)
EXTENDS Surface, TLC

Boundary(dh, dw, ty) ==
  IF ty = "Z" THEN {f \in {0, dh} \X (0..dw) : (f[1] + f[2]) % 2 = 0}
              ELSE {f \in (0..dh) \X {0, dw} : (f[1] + f[2]) % 2 = 1}

Node(dh, dw, ty, t, f) == IF f \in Faces(dh, dw, ty) THEN <<t, f[1], f[2]>> ELSE <<-1, f[1], f[2]>>

Nodes(dh, dw, T, ty) ==
  {<<t, f[1], f[2]>> : t \in 0..T-1, f \in Faces(dh, dw, ty)} \cup {<<-1, f[1], f[2]>> : f \in Boundary(dh, dw, ty)}

(* The two sites next to data qubit (r, c). *)
Corners(dh, dw, ty, q) ==
  LET r == q \div dw
      c == q % dw
      par == IF ty = "X" THEN 1 ELSE 0
  IN {f \in {r, r + 1} \X {c, c + 1} : (f[1] + f[2]) % 2 = par}

DataEdges(dh, dw, T, ty) ==
  {{Node(dh, dw, ty, t, f) : f \in Corners(dh, dw, ty, q)} : t \in 0..T-1, q \in 0..dh*dw-1}
TimeEdges(dh, dw, T, ty) ==
  {{<<t, f[1], f[2]>>, <<t + 1, f[1], f[2]>>} : t \in 0..T-2, f \in Faces(dh, dw, ty)}
Edges(dh, dw, T, ty) == DataEdges(dh, dw, T, ty) \cup TimeEdges(dh, dw, T, ty)

(* Boundary sites on the side where the logical operator lies. *)
Near(ty, n) == n[1] = -1 /\ (IF ty = "Z" THEN n[2] = 0 ELSE n[3] = 0)

---------------------------------------------------------------------------
(* Least weight of the explanations of a sequence of hits, by class: how   *)
(* often, modulo two, the explanation crosses the logical operator.        *)
INF == 100000
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b

Apart(u, v) == Abs(u[1] - v[1]) + Max2(Abs(u[2] - v[2]), Abs(u[3] - v[3]))
ToNear(ty, u) == IF ty = "Z" THEN u[2] ELSE u[3]
Across(dh, dw, ty) == IF ty = "Z" THEN dh ELSE dw
ToFar(dh, dw, ty, u) == Across(dh, dw, ty) - ToNear(ty, u)

Plus(w, c) == <<w[1] + c, w[2] + c>>
Swap(w) == <<w[2], w[1]>>
MinW(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2])>>

(* All ways to explain subsets of the hits, by class: entry S + 1 is for   *)
(* the subset whose characteristic number is S (hit i counts 2^(i-1)); the *)
(* last hit of a subset is explained alone or with one of the others.      *)
Doubled(dh, dw, ty, hits, f, k) ==
  LET u == hits[k]
      n == ToNear(ty, u)
      r == ToFar(dh, dw, ty, u)
      bit == [j \in 1..k-1 |-> 2^(j-1)]
      ap == [j \in 1..k-1 |-> Apart(u, hits[j])]
      with(S) == FoldLeft(LAMBDA acc, j : IF (S \div bit[j]) % 2 = 0 THEN acc
                                         ELSE MinW(acc, Plus(f[S - bit[j] + 1], ap[j])),
                          MinW(Swap(Plus(f[S + 1], n)), Plus(f[S + 1], r)), [j \in 1..k-1 |-> j])
  IN f \o [S1 \in 1..2^(k-1) |-> with(S1 - 1)]
Pairing(dh, dw, ty, hits) ==
  LET f == FoldLeft(LAMBDA acc, k : Doubled(dh, dw, ty, hits, acc, k), <<<<0, INF>>>>, [k \in 1..Len(hits) |-> k])
  IN f[Len(f)]

ByPairing(dh, dw, ty, hits) ==
  LET w == Pairing(dh, dw, ty, hits)
      c == Across(dh, dw, ty)
  IN MinW(w, Plus(Swap(w), c))

(* On a line of data qubits, hits of one time have one explanation by data *)
(* errors per class, and no other is lighter: any number of hits.          *)
OnLine(dh, dw, ty, hits) ==
  /\ (IF ty = "Z" THEN dw ELSE dh) = 1
  /\ \A i \in 1..Len(hits) : hits[i][1] = hits[1][1]
LineWeights(dh, dw, ty, hits) ==
  LET before == [q \in 0..Across(dh, dw, ty)-1 |-> Cardinality({i \in 1..Len(hits) : ToNear(ty, hits[i]) <= q})]
      errors(c) == Cardinality({q \in DOMAIN before : (before[q] + c) % 2 = 1})
  IN <<errors(0), errors(1)>>

ClassWeights(dh, dw, ty, hits) ==
  IF Len(hits) > 12 /\ OnLine(dh, dw, ty, hits) THEN LineWeights(dh, dw, ty, hits) ELSE ByPairing(dh, dw, ty, hits)

---------------------------------------------------------------------------
(* The same by exhausting all fault sets, for small graphs: layer k holds  *)
(* the <<hits, class>> that need k faults.                                 *)
FaultEffect(ty, e) == <<{n \in e : n[1] # -1}, Cardinality({n \in e : Near(ty, n)}) % 2>>
Layers(dh, dw, T, ty) ==
  LET eff == {FaultEffect(ty, e) : e \in Edges(dh, dw, T, ty)}
      RECURSIVE grow(_, _, _)
      grow(seen, front, k) ==
        IF front = {} THEN <<>>
        ELSE LET next == {<<SymDiff(s[1], f[1]), (s[2] + f[2]) % 2>> : s \in front, f \in eff} \ seen
             IN <<front>> \o grow(seen \cup next, next, k + 1)
  IN grow({<<{}, 0>>}, {<<{}, 0>>}, 0)

WeightsAgree(dh, dw, T, ty) ==
  LET ls == Layers(dh, dw, T, ty)
  IN \A k \in 1..Len(ls) : \A s \in ls[k] :
        LET hits == SetToSeq(s[1])
        IN /\ ByPairing(dh, dw, ty, hits)[s[2] + 1] = k - 1
           /\ OnLine(dh, dw, ty, hits) => LineWeights(dh, dw, ty, hits)[s[2] + 1] = k - 1
===========================================================================
