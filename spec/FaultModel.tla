---------------------------- MODULE FaultModel ----------------------------
(* A memory experiment with faults: encode a logical value, run rounds,    *)
(* read out.  Between the rounds Pauli errors hit data qubits, and record  *)
(* bits of a round may be flipped.  The state is the fault history; what   *)
(* must be observed is defined from it.  TLC generates the behaviours      *)
(* (all of them up to a number of faults, or random ones), the harness     *)
(* executes each of them on the real library and compares.                 *)
(*                                                                         *)
(* Round numbers 0..R-1; an error at time t happens after round t.         *)
EXTENDS Parse, TLC, Json, IOUtils

Input   == JsonDeserialize(IOEnv.TRACE)
Configs == Input.configs
Random  == Input.random

VARIABLES c, faults, done
vars == <<c, faults, done>>
Cfg == Configs[c]
NQ(k) == k.dh * k.dw
NS(k) == k.dh * k.dw - 1

(* In the XZZX code, the lattice's X is a physical Z on even-index qubits. *)
Conj(k, q) == k.type = "XZZX" /\ q % 2 = 0
HasX(k, f) == f.k = "data" /\ (IF Conj(k, f.q) THEN f.p \in {"z", "y"} ELSE f.p \in {"x", "y"})
HasZ(k, f) == f.k = "data" /\ (IF Conj(k, f.q) THEN f.p \in {"x", "y"} ELSE f.p \in {"z", "y"})
(* Does the fault flip plaquettes (and the logical operator) of this type? *)
Flips(k, f, ty) == IF ty = "Z" THEN HasX(k, f) ELSE HasZ(k, f)

(* The same as FacesAt, by the four faces around a data qubit (NearOK). *)
Near(k, ty, q) ==
  LET r == q \div k.dw
      d == q % k.dw
  IN {f \in {<<r, d>>, <<r, d + 1>>, <<r + 1, d>>, <<r + 1, d + 1>>} :
        IF ty = "X" THEN (f[1] + f[2]) % 2 = 1 /\ f[2] >= 1 /\ f[2] <= k.dw - 1
                    ELSE (f[1] + f[2]) % 2 = 0 /\ f[1] >= 1 /\ f[1] <= k.dh - 1}
At(k, ty, q) == Near(k, ty, q)
FSeq(k, ty) == FaceSeq(k.dh, k.dw, ty)

(* Plaquettes of a type whose true value is flipped by errors up to time t *)
Syndrome(k, fs, ty, t) ==
  FoldLeft(LAMBDA acc, f : IF Flips(k, f, ty) /\ f.t <= t THEN SymDiff(acc, At(k, ty, f.q)) ELSE acc,
           {}, fs)
(* The plaquette of a recorded bit. *)
BitFace(k, ty, s) ==
  LET nz == Len(FSeq(k, "Z"))
  IN IF s < nz THEN IF ty = "Z" THEN {FSeq(k, "Z")[s + 1]} ELSE {}
     ELSE IF ty = "X" THEN {FSeq(k, "X")[s - nz + 1]} ELSE {}
Recorded(k, fs, ty, r) ==
  FoldLeft(LAMBDA acc, f : IF f.k = "flip" /\ f.t = r THEN SymDiff(acc, BitFace(k, ty, f.s)) ELSE acc,
           Syndrome(k, fs, ty, r - 1), fs)

(* Time t compares round t with round t+1; a lattice readout adds a round. *)
Record(k, fs, ty) ==
  [r \in 1..(k.R + (IF k.form = "lattice" /\ k.rt = ty THEN 1 ELSE 0)) |->
      IF r = k.R + 1 THEN Syndrome(k, fs, ty, k.R - 1) ELSE Recorded(k, fs, ty, r - 1)]
WantHits(k, fs, ty) ==
  LET rec == Record(k, fs, ty)
  IN UNION {{<<t - 1, Centre2(f)[1], Centre2(f)[2]>> : f \in SymDiff(rec[t], rec[t + 1])} : t \in 1..(Len(rec) - 1)}

Logical(k) == IF k.rt = "Z" THEN TopRow(k.dh, k.dw) ELSE LeftColumn(k.dh, k.dw)
WantValue(k, fs) ==
  FoldLeft(LAMBDA acc, f : IF Flips(k, f, k.rt) /\ f.q \in Logical(k) THEN 1 - acc ELSE acc, k.v, fs)

Behaviour(k, fs) ==
  [cfg |-> k.id, faults |-> fs, value |-> WantValue(k, fs), encoded |-> k.v,
   X |-> SetToSeq(WantHits(k, fs, "X")), Z |-> SetToSeq(WantHits(k, fs, "Z"))]

---------------------------------------------------------------------------
(* Faults in one fixed order, so that every set of faults comes up once. *)
PNum(p) == CASE p = "x" -> 0 [] p = "y" -> 1 [] p = "z" -> 2
Key(k, f) == IF f.k = "data" THEN (f.t * NQ(k) + f.q) * 3 + PNum(f.p)
             ELSE 3 * NQ(k) * (k.R + 2) + f.t * NS(k) + f.s

Possible(k) ==
  {[k |-> "data", t |-> t, q |-> q, p |-> p, s |-> 0] :
      t \in k.from..k.to, q \in 0..NQ(k)-1, p \in {k.paulis[i] : i \in 1..Len(k.paulis)}}
  \cup (IF k.flips THEN {[k |-> "flip", t |-> t, q |-> 0, p |-> "", s |-> s] : t \in 1..k.R-2, s \in 0..NS(k)-1} ELSE {})

(* One of them, uniformly. *)
RandomFault(k) ==
  LET nd == (k.to - k.from + 1) * NQ(k) * Len(k.paulis)
      nf == IF k.flips /\ k.R > 2 THEN (k.R - 2) * NS(k) ELSE 0
      n  == RandomElement(1..nd + nf)
  IN IF n <= nd
     THEN [k |-> "data", t |-> RandomElement(k.from..k.to), q |-> RandomElement(0..NQ(k)-1),
           p |-> k.paulis[RandomElement(1..Len(k.paulis))], s |-> 0]
     ELSE [k |-> "flip", t |-> RandomElement(1..k.R-2), q |-> 0, p |-> "", s |-> RandomElement(0..NS(k)-1)]

(* One next to the last one: faults in a chain are the hardest to tell apart. *)
Clamp(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
NextFault(k, fs) ==
  IF ~k.walk \/ fs = <<>> \/ RandomElement(1..8) = 1 THEN RandomFault(k)
  ELSE LET o == Last(fs)
           r == Clamp((o.q \div k.dw) + RandomElement(-1..1), k.dh - 1)
           d == Clamp((o.q % k.dw) + RandomElement(-1..1), k.dw - 1)
           t == IF RandomElement(1..4) = 1 THEN RandomElement(k.from..k.to) ELSE o.t
       IN [k |-> "data", t |-> IF t > k.to THEN k.to ELSE t, q |-> r * k.dw + d,
           p |-> k.paulis[RandomElement(1..Len(k.paulis))], s |-> 0]

Init == c \in 1..Len(Configs) /\ faults = <<>> /\ done = FALSE

Fault ==
  /\ ~done /\ Len(faults) < Cfg.maxf
  /\ \E f \in IF Random THEN {NextFault(Cfg, faults)} ELSE Possible(Cfg) :
        /\ IF Random \/ faults = <<>> THEN TRUE ELSE Key(Cfg, f) > Key(Cfg, Last(faults))
        /\ faults' = Append(faults, f)
  /\ UNCHANGED <<c, done>>

ReadOut ==
  /\ ~done /\ (Random => Len(faults) >= Cfg.maxf) /\ Len(faults) >= Cfg.minf
  /\ done' = TRUE /\ UNCHANGED <<c, faults>>
  /\ PrintT(<<"OUT", ToJson(Behaviour(Cfg, faults))>>)

Next == Fault \/ ReadOut
Spec == Init /\ [][Next]_vars

(* Every error shows as an even number of ends: two plaquettes, or one and *)
(* a boundary; all hits of a type cancel against boundaries only.          *)
EndsOK ==
  (faults = <<>> /\ Cfg.dh * Cfg.dw <= 25) =>
  \A ty \in {"X", "Z"} : \A q \in 0..NQ(Cfg)-1 : 
    Cardinality(Near(Cfg, ty, q)) <= 2 /\ Near(Cfg, ty, q) = FacesAt(Cfg.dh, Cfg.dw, ty, q)
===========================================================================
