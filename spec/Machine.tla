------------------------------ MODULE Machine ------------------------------
(* Design: a lattice refines one ideal qubit.                              *)
(*                                                                         *)
(* L is the lattice: data qubits 0..n-1, the qubit USER of the environment *)
(* and a reference REF that starts maximally entangled with the logical    *)
(* qubit (so every logical input state is covered at once), bit OUT for    *)
(* the latest logical readout and bits 100.. / 200.. for the latest round. *)
(* I is the ideal machine: one qubit 0 in the place of the lattice.        *)
(* Every action is executed on both with the operators CircuitTrace        *)
(* specifies for the API.  TLC explores all histories, of any length (the  *)
(* joint states are finitely many), with Pauli errors struck in between.   *)
(*                                                                         *)
(* Refines:  measuring X, Z or Y of the logical qubit next would give the  *)
(*   same correlations with reference, user qubit and record as on I.      *)
(* RoundOK:  a round repeats the previous one but for exactly the faces    *)
(*   next to the errors since; a round after a reset reads +1 on the type  *)
(*   of the reset.                                                         *)
EXTENDS Stab, Surface, TLC, Json, IOUtils

Cfg  == JsonDeserialize(IOEnv.TRACE)
Codes == Range(Cfg.codes)          \* [type, dh, dw, budget, user, zop]

USER == 1001
REF  == 1000
OUT  == 1

VARIABLES cd, L, I, errs, last, act
vars == <<cd, L, I, errs, last, act>>

N == cd.dh * cd.dw
Even(S) == {q \in S : q % 2 = 0}
OpX(c, S) == LET plain == IF c.type = "XZZX" THEN S \ Even(S) ELSE S IN Row(plain, S \ plain)
OpZ(c, S) == LET plain == IF c.type = "XZZX" THEN S \ Even(S) ELSE S IN Row(S \ plain, plain)
XL(c) == OpX(c, LeftColumn(c.dh, c.dw))
ZL(c) == OpZ(c, TopRow(c.dh, c.dw))
FacesOf(c) == LET zs == FaceSeq(c.dh, c.dw, "Z")  xs == FaceSeq(c.dh, c.dw, "X")
              IN [i \in 1..Len(zs) |-> <<"Z", zs[i]>>] \o [i \in 1..Len(xs) |-> <<"X", xs[i]>>]
FaceOp(c, f) == IF f[1] = "Z" THEN OpZ(c, DataOf(c.dh, c.dw, f[2])) ELSE OpX(c, DataOf(c.dh, c.dw, f[2]))
Pauli(q, P) == CASE P = "x" -> XRow(q) [] P = "z" -> ZRow(q) [] P = "y" -> <<{q}, {q}, {}, 1>>
Bit(b) == <<{}, {}, {b}, 0>>

(* Mixed stabilizer state: only the logical qubit is known to be entangled *)
(* with REF, the faces are arbitrary.                                      *)
Init ==
  /\ cd \in Codes
  /\ L = Canon({Mul(XL(cd), XRow(REF)), Mul(ZL(cd), ZRow(REF)), ZRow(USER), Bit(OUT)})
  /\ I = Canon({Mul(XRow(0), XRow(REF)), Mul(ZRow(0), ZRow(REF)), ZRow(USER), Bit(OUT)})
  /\ errs = {} /\ last = "none" /\ act = "init"

Both(l2, i2) == L' = Canon(l2) /\ I' = Canon(i2)
Same == UNCHANGED <<cd, errs, last>>

Prep(G, c, op(_, _)) == DiscardQubits(G, 0..N-1) \cup {op(c, {q}) : q \in 0..N-1}
(* A reset forgets which faces were known, but for those of its own type.  *)
ResetX == /\ Both(Prep(L, cd, OpX), DiscardQubit(I, 0) \cup {XRow(0)})
          /\ last' = "X" /\ errs' = {} /\ UNCHANGED cd /\ act' = "reset_x"
ResetZ == /\ Both(Prep(L, cd, OpZ), DiscardQubit(I, 0) \cup {ZRow(0)})
          /\ last' = "Z" /\ errs' = {} /\ UNCHANGED cd /\ act' = "reset_z"
X == Both(ApplyPauli(L, XL(cd)), ApplyPauli(I, XRow(0))) /\ Same /\ act' = "x"
(* cd.zop = 0 is the design; other values are broken designs.             *)
ZAct == CASE cd.zop = 0 -> ZL(cd) [] cd.zop = 1 -> OpZ(cd, {0}) [] cd.zop = 2 -> OpZ(cd, LeftColumn(cd.dh, cd.dw))
Z == Both(ApplyPauli(L, ZAct), ApplyPauli(I, ZRow(0))) /\ Same /\ act' = "z"
ReadX == Both(MeasureInto(L, XL(cd), OUT), MeasureInto(I, XRow(0), OUT)) /\ Same /\ act' = "readout_x"
ReadZ == Both(MeasureInto(L, ZL(cd), OUT), MeasureInto(I, ZRow(0), OUT)) /\ Same /\ act' = "readout_z"
CondX(v) == Both(CondPauli(L, XL(cd), OUT, v), CondPauli(I, XRow(0), OUT, v)) /\ Same /\ act' = "x_c_if"
CondZ(v) == Both(CondPauli(L, ZL(cd), OUT, v), CondPauli(I, ZRow(0), OUT, v)) /\ Same /\ act' = "z_c_if"
CxControl == /\ cd.user
             /\ Both(ControlledPauli(L, ZRow(USER), XL(cd)), ControlledPauli(I, ZRow(USER), XRow(0)))
             /\ Same /\ act' = "cx_control"
CxTarget  == /\ cd.user
             /\ Both(ControlledPauli(L, ZL(cd), XRow(USER)), ControlledPauli(I, ZRow(0), XRow(USER)))
             /\ Same /\ act' = "cx_target"
UserH == /\ cd.user /\ Both(Gate(L, "h", <<USER>>), Gate(I, "h", <<USER>>)) /\ Same /\ act' = "user_h"

(* A round: the new record is compared with what is due, then replaces it. *)
Known == last = "round" \/ last \in {"X", "Z"}
RoundBit(i) == 100 + i
NewBit(i) == 200 + i
Measured(G) == LET fs == FacesOf(cd)
               IN FoldLeft(LAMBDA g, i : MeasureInto(g, FaceOp(cd, fs[i]), NewBit(i)), G, [i \in 1..Len(fs) |-> i])
Flips(f) == Cardinality({e \in errs : Anti(Pauli(e[1], e[2]), FaceOp(cd, f))}) % 2
IsId(r) == r[1] = {} /\ r[2] = {} /\ r[3] = {} /\ r[4] = 0
DueOK(G) ==
  LET fs == FacesOf(cd)
  IN \A i \in 1..Len(fs) :
       LET base == CASE last = "round" -> {RoundBit(i), NewBit(i)}
                     [] last = fs[i][1] -> {NewBit(i)}
                     [] OTHER -> {}
       IN base # {} => IsId(Reduce(G, <<{}, {}, base, 2 * Flips(fs[i])>>))
Rename(G) == LET old == {RoundBit(i) : i \in 1..Len(FacesOf(cd))}
                 D == DiscardBits(G, old)
                 mv(b) == IF b >= 200 THEN b - 100 ELSE b
             IN {<<r[1], r[2], {mv(b) : b \in r[3]}, r[4]>> : r \in D}
Round ==
  /\ LET G == Measured(L)
     IN /\ Assert(DueOK(G), <<"ROUND", cd, last, errs>>)
        /\ Both(Rename(G), I)
  /\ errs' = {} /\ last' = "round" /\ UNCHANGED cd /\ act' = "stabilize"

(* An error: on I it is the logical Pauli with the same effect on readouts.*)
Error(q, P) ==
  /\ Cardinality(errs) < cd.budget /\ \A e \in errs : e[1] < q
  /\ LET E == Pauli(q, P)
         i1 == IF Anti(E, XL(cd)) THEN ApplyPauli(I, ZRow(0)) ELSE I
         i2 == IF Anti(E, ZL(cd)) THEN ApplyPauli(i1, XRow(0)) ELSE i1
     IN Both(ApplyPauli(L, E), i2)
  /\ errs' = errs \cup {<<q, P>>} /\ UNCHANGED <<cd, last>> /\ act' = "error"

Next == \/ ResetX \/ ResetZ \/ X \/ Z \/ ReadX \/ ReadZ \/ Round
        \/ \E v \in {0, 1} : CondX(v) \/ CondZ(v)
        \/ CxControl \/ CxTarget \/ UserH
        \/ \E q \in 0..N-1, P \in {"x", "y", "z"} : Error(q, P)
Spec == Init /\ [][Next]_vars

(* What a logical measurement of P would correlate with, nothing else.     *)
PROBE == 2
YL(P, Q) == LET r == Mul(P, Q) IN <<r[1], r[2], r[3], (r[4] + 1) % 4>>
Seen(G, P, qs) == Canon(DiscardBits(DiscardQubits(MeasureInto(G, P, PROBE), qs),
                                    {b \in UNION {r[3] : r \in G} : b >= 100}))
Refines ==
  /\ Seen(L, XL(cd), 0..N-1) = Seen(I, XRow(0), {0})
  /\ Seen(L, ZL(cd), 0..N-1) = Seen(I, ZRow(0), {0})
  /\ Seen(L, YL(XL(cd), ZL(cd)), 0..N-1) = Seen(I, YL(XRow(0), ZRow(0)), {0})
(* What a round leaves: every face fixed up to its record. *)
RoundFixes == last = "round" /\ errs = {} =>
  LET fs == FacesOf(cd)
  IN \A i \in 1..Len(fs) : IsId(Reduce(L, AddBit(FaceOp(cd, fs[i]), RoundBit(i))))
View == <<cd, L, I, errs, last>>

ASSUME \A dh \in 1..9, dw \in 1..9 : (OddDim(dh) /\ OddDim(dw)) => CodeOK(dh, dw)
===========================================================================
