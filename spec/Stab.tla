------------------------------- MODULE Stab -------------------------------
(* Stabilizer states as groups of signed Pauli operators over qubits and   *)
(* classical bits.                                                         *)
(*                                                                         *)
(* A row <<x, z, b, k>> stands for  i^k * prod_{q in x} X_q *              *)
(* prod_{q in z} Z_q * prod_{c in b} Z_c   (all X to the left of all Z),   *)
(* q ranging over qubits and c over classical bits; b therefore carries a  *)
(* sign (-1)^(sum of the bits in b).  A group G is a set of independent,   *)
(* commuting, Hermitian rows; it denotes the (possibly mixed) state that   *)
(* is stabilized by the rows and maximally mixed otherwise.  A classical   *)
(* bit that was never written has no row.  Two programs leave the same     *)
(* joint state of qubits and classical record iff Canon(G1) = Canon(G2),   *)
(* so ONE symbolic run covers every measurement outcome.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

XOR(a, b) == (a \ b) \cup (b \ a)
B2N(p) == IF p THEN 1 ELSE 0

Row(x, z) == <<x, z, {}, 0>>
ZRow(q) == <<{}, {q}, {}, 0>>
XRow(q) == <<{q}, {}, {}, 0>>

Mul(r, s) == << XOR(r[1], s[1]), XOR(r[2], s[2]), XOR(r[3], s[3]),
                (r[4] + s[4] + 2 * Cardinality(r[2] \cap s[1])) % 4 >>

Anti(r, s) == (Cardinality(r[1] \cap s[2]) + Cardinality(r[2] \cap s[1])) % 2 = 1

Neg(r) == <<r[1], r[2], r[3], (r[4] + 2) % 4>>
AddBit(r, b) == <<r[1], r[2], XOR(r[3], {b}), r[4]>>

---------------------------------------------------------------------------
(* Unitary gates, by conjugation of a row.                                 *)
Tog(s, q, on) == IF on THEN XOR(s, {q}) ELSE s

GateRow(r, n, q) ==
  LET a  == q[1]
      xa == a \in r[1]
      za == a \in r[2]
  IN CASE n = "h"   -> << IF za THEN r[1] \cup {a} ELSE r[1] \ {a},
                          IF xa THEN r[2] \cup {a} ELSE r[2] \ {a},
                          r[3], (r[4] + 2 * B2N(xa /\ za)) % 4 >>
       [] n = "x"   -> << r[1], r[2], r[3], (r[4] + 2 * B2N(za)) % 4 >>
       [] n = "z"   -> << r[1], r[2], r[3], (r[4] + 2 * B2N(xa)) % 4 >>
       [] n = "y"   -> << r[1], r[2], r[3], (r[4] + 2 * B2N(xa # za)) % 4 >>
       [] n = "s"   -> << r[1], Tog(r[2], a, xa), r[3], (r[4] + B2N(xa)) % 4 >>
       [] n = "sdg" -> << r[1], Tog(r[2], a, xa), r[3], (r[4] + 3 * B2N(xa)) % 4 >>
       [] n = "cx"  -> << Tog(r[1], q[2], xa), Tog(r[2], a, q[2] \in r[2]), r[3], r[4] >>
       [] n = "cz"  -> << r[1], Tog(Tog(r[2], q[2], xa), a, q[2] \in r[1]), r[3],
                          (r[4] + 2 * B2N(xa /\ q[2] \in r[1])) % 4 >>
       [] n = "swap" -> LET t == q[2]
                            sw(s) == (s \ {a, t}) \cup (IF a \in s THEN {t} ELSE {})
                                                  \cup (IF t \in s THEN {a} ELSE {})
                        IN << sw(r[1]), sw(r[2]), r[3], r[4] >>
       [] n = "id"  -> r

KnownGates == {"h", "x", "y", "z", "s", "sdg", "cx", "cz", "swap", "id"}
PauliGates == {"x", "y", "z", "id"}

Gate(G, n, q) == {GateRow(r, n, q) : r \in G}

(* Apply the Pauli operator P. *)
ApplyPauli(G, P) == {IF Anti(r, P) THEN Neg(r) ELSE r : r \in G}

(* Apply P iff bit b is 1 (val = 1) / is 0 (val = 0). *)
CondPauli(G, P, b, val) ==
  {IF Anti(r, P) THEN (IF val = 1 THEN AddBit(r, b) ELSE Neg(AddBit(r, b))) ELSE r : r \in G}

(* (1+P)/2 + (1-P)/2 Q for commuting P, Q: the CNOT "if P = -1 then Q". *)
ControlledPauli(G, P, Q) ==
  LET f(r) == LET ap == Anti(r, P)  aq == Anti(r, Q)
              IN CASE ap /\ aq -> Neg(Mul(Mul(r, P), Q))
                   [] ap /\ ~aq -> Mul(r, Q)
                   [] ~ap /\ aq -> Mul(r, P)
                   [] OTHER -> r
  IN {f(r) : r \in G}

---------------------------------------------------------------------------
(* Gaussian elimination.  A column is <<kind, index>>, kind 1 = x, 2 = z,  *)
(* 3 = classical bit.                                                      *)
Has(r, col) == col[2] \in r[col[1]]

(* Remove every element of the group that has support in column col. *)
Project(G, col) ==
  LET hit == {r \in G : Has(r, col)}
  IN IF hit = {} THEN G
     ELSE LET p == CHOOSE r \in hit : TRUE
          IN {IF Has(r, col) THEN Mul(p, r) ELSE r : r \in G \ {p}}

DiscardQubit(G, q) == Project(Project(G, <<1, q>>), <<2, q>>)
DiscardBit(G, b) == Project(G, <<3, b>>)

SortedSeq(S) == SetToSortSeq(S, <)

DiscardQubits(G, Q) == FoldLeft(DiscardQubit, G, SortedSeq(Q \cap UNION {r[1] \cup r[2] : r \in G}))
DiscardBits(G, B) == FoldLeft(DiscardBit, G, SortedSeq(B \cap UNION {r[3] : r \in G}))

CanonStep(acc, col) ==
  LET hit == {r \in acc[2] : Has(r, col)}
  IN IF hit = {} THEN acc
     ELSE LET p == CHOOSE r \in hit : TRUE
              f(r) == IF Has(r, col) THEN Mul(p, r) ELSE r
          IN << {f(r) : r \in acc[1]} \cup {p}, {f(r) : r \in acc[2] \ {p}} >>

Cols(G) ==
  LET xs == SortedSeq(UNION {r[1] : r \in G})
      zs == SortedSeq(UNION {r[2] : r \in G})
      bs == SortedSeq(UNION {r[3] : r \in G})
  IN [i \in 1..Len(xs) |-> <<1, xs[i]>>] \o [i \in 1..Len(zs) |-> <<2, zs[i]>>]
       \o [i \in 1..Len(bs) |-> <<3, bs[i]>>]

(* The unique reduced row-echelon form of the group.  acc[2] ends up with  *)
(* the rows without any support: {} or {<<{},{},{},0>>} for a proper group *)
Canon(G) == LET acc == FoldLeft(CanonStep, <<{}, G>>, Cols(G)) IN acc[1] \cup acc[2]

(* Is the row r (up to sign) in the group?  If so, its sign as a row. *)
Reduce(G, r) ==
  LET C == Canon(G)
      lead(p) == IF p[1] # {} THEN <<1, Min(p[1])>>
                 ELSE IF p[2] # {} THEN <<2, Min(p[2])>>
                 ELSE <<3, Min(p[3])>>
      step(acc, p) == IF Has(acc, lead(p)) THEN Mul(p, acc) ELSE acc
  IN FoldLeft(step, r, SetToSeq({p \in C : p[1] # {} \/ p[2] # {} \/ p[3] # {}}))

---------------------------------------------------------------------------
(* Measurement of the Hermitian Pauli P into classical bit b, and reset.   *)
MeasureInto(G, P, b) ==
  LET G0 == DiscardBit(G, b)
      hit == {r \in G0 : Anti(r, P)}
      out == AddBit(P, b)
  IN IF hit = {} THEN G0 \cup {out}
     ELSE LET g == CHOOSE r \in hit : TRUE
          IN {IF Anti(r, P) THEN Mul(g, r) ELSE r : r \in G0 \ {g}} \cup {out}

ResetQubit(G, q) == DiscardQubit(G, q) \cup {ZRow(q)}
ResetQubits(G, Q) == FoldLeft(ResetQubit, G, SortedSeq(Q))

(* Value of bit b if the group fixes it, else -1. *)
BitValue(G, b) ==
  LET r == Reduce(G, <<{}, {}, {b}, 0>>)
  IN IF r[1] = {} /\ r[2] = {} /\ r[3] = {} THEN r[4] \div 2 ELSE -1
===========================================================================
