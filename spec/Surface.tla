------------------------------ MODULE Surface ------------------------------
(* The rotated lattice, by coordinates.                                    *)
(*                                                                         *)
(* Data qubit (r, c), 0 <= r < dh, 0 <= c < dw, has index r*dw + c.  The   *)
(* face (i, j) lies between the data qubits (i-1,j-1), (i-1,j), (i,j-1)    *)
(* and (i,j), those of them that exist; its centre is (i-1/2, j-1/2).      *)
(* Faces with i+j odd are X-type, they exist for 1 <= j <= dw-1 and so     *)
(* close the top and bottom boundary; faces with i+j even are Z-type, they *)
(* exist for 1 <= i <= dh-1 and close the left and right boundary.         *)
(* The logical X is X on the left column, the logical Z is Z on the top    *)
(* row.  The XZZX code is this code after a Hadamard on every data qubit   *)
(* with an even index.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

OddDim(n) == n >= 1 /\ n % 2 = 1

Faces(dh, dw, ty) ==
  IF ty = "X" THEN {f \in (0..dh) \X (1..dw-1) : (f[1] + f[2]) % 2 = 1}
              ELSE {f \in (1..dh-1) \X (0..dw) : (f[1] + f[2]) % 2 = 0}

(* Row-major order of the faces of one type: syndrome index 0 first. *)
FaceSeq(dh, dw, ty) ==
  LET key(f) == f[1] * (dw + 1) + f[2]
  IN SetToSortSeq(Faces(dh, dw, ty), LAMBDA f, g : key(f) < key(g))

DataOf(dh, dw, f) ==
  {r * dw + c : r \in {f[1] - 1, f[1]} \cap 0..dh-1, c \in {f[2] - 1, f[2]} \cap 0..dw-1}

NumSyn(dh, dw, ty) == Cardinality(Faces(dh, dw, ty))

LeftColumn(dh, dw) == {r * dw : r \in 0..dh-1}
TopRow(dh, dw) == 0..dw-1

(* Faces of a type that see an error on data qubit q. *)
FacesAt(dh, dw, ty, q) == {f \in Faces(dh, dw, ty) : q \in DataOf(dh, dw, f)}

(* Centre of a face in half-integer units times two: <<2*row, 2*col>>. *)
Centre2(f) == <<2 * f[1] - 1, 2 * f[2] - 1>>
FaceOf2(rc) == <<(rc[1] + 1) \div 2, (rc[2] + 1) \div 2>>

---------------------------------------------------------------------------
(* Sanity of the code itself, checked by TLC for all small dimensions.     *)
CommuteSets(xs, zs) == Cardinality(xs \cap zs) % 2 = 0

CodeOK(dh, dw) ==
  /\ \A f \in Faces(dh, dw, "X"), g \in Faces(dh, dw, "Z") :
        CommuteSets(DataOf(dh, dw, f), DataOf(dh, dw, g))
  /\ \A f \in Faces(dh, dw, "X") : CommuteSets(DataOf(dh, dw, f), TopRow(dh, dw))
  /\ \A g \in Faces(dh, dw, "Z") : CommuteSets(LeftColumn(dh, dw), DataOf(dh, dw, g))
  /\ ~CommuteSets(LeftColumn(dh, dw), TopRow(dh, dw))
  /\ NumSyn(dh, dw, "X") + NumSyn(dh, dw, "Z") = dh * dw - 1
  /\ \A ty \in {"X", "Z"} : \A f \in Faces(dh, dw, ty) :
        Cardinality(DataOf(dh, dw, f)) \in {2, 4}
  /\ \A ty \in {"X", "Z"} : \A q \in 0..dh*dw-1 :
        Cardinality(FacesAt(dh, dw, ty, q)) <= 2
===========================================================================
