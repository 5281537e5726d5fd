------------------------------- MODULE LookUp -------------------------------
(* Look-up-table decoding by Bayes' rule, over histories of setting,       *)
(* resetting and asking the tables of several decoders, which share        *)
(* nothing; a decoder may be replaced by a new one, which has no tables.   *)
(* Probabilities are compared as integers:                                 *)
(*   P(i|s) = p_i c_i N_j / (p_0 c_0 N_1 + p_1 c_1 N_0)                    *)
(* where c_i counts s in table i and N_i is the total of table i.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Input  == JsonDeserialize(IOEnv.TRACE)
Traces == Input.traces

VARIABLES tr, l, tab, bad
vars == <<tr, l, tab, bad>>
Strings == 1..Traces[tr].n
Ev == Traces[tr].ev[l]

Decoders == 1..Traces[tr].dec
Empty(n) == [ty \in {"X", "Z"} |-> [i \in {0, 1} |-> [s \in 1..n |-> 0]]]
Total(t) == FoldSet(LAMBDA s, acc : acc + t[s], 0, Strings)
Abs(x) == IF x < 0 THEN -x ELSE x

(* An unset table has no counts and says probability 0. *)
Num(ty, s, p, i) ==
  LET j == 1 - i
      N == Total(tab[Ev.d][ty][j])
  IN p[i + 1] * tab[Ev.d][ty][i][s] * (IF N = 0 THEN 1 ELSE N)

Scale == 10000
ProbOK(ty, s, p, i, r) ==
  LET d == Num(ty, s, p, 0) + Num(ty, s, p, 1)
  IN Abs(r * d - Num(ty, s, p, i) * Scale) <= d

Set == /\ Ev.k = "set"
       /\ tab' = [tab EXCEPT ![Ev.d][Ev.ty][Ev.i] = [s \in Strings |-> Ev.counts[s]]]
       /\ bad' = IF Ev.out # "ok" THEN "setting failed: " \o Ev.out
                 ELSE IF ~Ev.intact THEN "the caller's counts were modified" ELSE ""
Reset == /\ Ev.k = "reset"
         /\ tab' = [tab EXCEPT ![Ev.d] = Empty(Traces[tr].n)]
         /\ bad' = IF Ev.out # "ok" THEN "resetting failed: " \o Ev.out ELSE ""
Fresh == /\ Ev.k = "new"
         /\ tab' = [tab EXCEPT ![Ev.d] = Empty(Traces[tr].n)]
         /\ bad' = IF Ev.out # "ok" THEN "building a decoder failed: " \o Ev.out ELSE ""
(* The caller goes on using the dictionary it passed; the table stands. *)
Reuse == /\ Ev.k = "reuse" /\ tab' = tab /\ bad' = ""
Prob == /\ Ev.k = "prob" /\ tab' = tab
        /\ bad' = IF Ev.out # "ok" THEN "failed: " \o Ev.out
                  ELSE IF ~(ProbOK(Ev.ty, Ev.s, Ev.p, 0, Ev.r[1]) /\ ProbOK(Ev.ty, Ev.s, Ev.p, 1, Ev.r[2]))
                       THEN "probabilities " \o ToString(Ev.r) \o " of " \o ToString(Scale) \o ", specified proportions "
                            \o ToString(<<Num(Ev.ty, Ev.s, Ev.p, 0), Num(Ev.ty, Ev.s, Ev.p, 1)>>)
                  ELSE ""
Decide == /\ Ev.k = "decide" /\ tab' = tab
          /\ LET n0 == Num(Ev.ty, Ev.s, <<1, 1>>, 0)
                 n1 == Num(Ev.ty, Ev.s, <<1, 1>>, 1)
                 want == IF n1 > n0 THEN 1 ELSE 0
             IN bad' = IF Ev.out # "ok" THEN "failed: " \o Ev.out
                       ELSE IF Ev.v # want THEN "decided " \o ToString(Ev.v) \o ", specified " \o ToString(want) ELSE ""

Init == tr \in 1..Len(Traces) /\ l = 1 /\ tab = [d \in Decoders |-> Empty(Traces[tr].n)] /\ bad = ""
Next ==
  /\ bad = "" /\ l <= Len(Traces[tr].ev)
  /\ Set \/ Reset \/ Fresh \/ Reuse \/ Prob \/ Decide
  /\ l' = l + 1 /\ tr' = tr
  /\ IF bad' # "" THEN PrintT(<<"REJECT", Traces[tr].id, l, bad'>>)
     ELSE IF l' > Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", Traces[tr].id, l>>)
     ELSE TRUE
Spec == Init /\ [][Next]_vars
===========================================================================
