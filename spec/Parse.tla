------------------------------- MODULE Parse -------------------------------
(* What a result string of one topological qubit says.                     *)
(*                                                                         *)
(* A string is a sequence of fields, leftmost first; a field is a sequence *)
(* of bits, leftmost first, so bit 0 is the last one.  Fields: the readout *)
(* (one bit, or one bit per data qubit), then the rounds, newest first.    *)
EXTENDS Surface

Bit(field, i) == field[Len(field) - i]          \* i from 0

(* Value of plaquette number i (from 1) of a type in a round's field.      *)
(* Z plaquettes are in the low bits, X plaquettes above them.              *)
Plaq(dh, dw, field, ty, i) ==
  IF ty = "Z" THEN Bit(field, i - 1) ELSE Bit(field, NumSyn(dh, dw, "Z") + i - 1)

(* Rounds oldest first, as sets of plaquettes that read 1. *)
Round(dh, dw, field, ty) ==
  LET s == FaceSeq(dh, dw, ty)
  IN {s[i] : i \in {i \in 1..Len(s) : Plaq(dh, dw, field, ty, i) = 1}}

Odd(dh, dw, ones, sites) == Cardinality(ones \cap sites) % 2

(* Lattice readout: the data qubits that read 1. *)
Ones(dh, dw, field) == {q \in 0..dh*dw-1 : Bit(field, q) = 1}

IsLattice(fields) == Len(fields[1]) > 1

Value(dh, dw, fields, rt) ==
  IF ~IsLattice(fields) THEN fields[1][1]
  ELSE Odd(dh, dw, Ones(dh, dw, fields[1]), IF rt = "X" THEN LeftColumn(dh, dw) ELSE TopRow(dh, dw))

(* The sequence of records of one type, oldest first. *)
Records(dh, dw, fields, ty, rt) ==
  LET n == Len(fields) - 1
      rounds == [t \in 1..n |-> Round(dh, dw, fields[n + 2 - t], ty)]
      fs == Faces(dh, dw, ty)
      final == {f \in fs : Odd(dh, dw, Ones(dh, dw, fields[1]), DataOf(dh, dw, f)) = 1}
  IN IF IsLattice(fields) /\ ty = rt THEN Append(rounds, final) ELSE rounds

(* Hits of a type: <<t, 2*row, 2*col>>. *)
Hits(dh, dw, fields, ty, rt) ==
  LET rec == Records(dh, dw, fields, ty, rt)
  IN UNION {{<<t - 1, Centre2(f)[1], Centre2(f)[2]>> : f \in SymDiff(rec[t], rec[t + 1])} :
               t \in 1..(Len(rec) - 1)}
===========================================================================
