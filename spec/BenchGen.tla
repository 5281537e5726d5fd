------------------------------ MODULE BenchGen ------------------------------
(* Histories of benchmarking: saves, single runs, serial and parallel      *)
(* sweeps on several codes, process deaths and failures at any point,      *)
(* loads, batches and plots.  TLC generates them at random (-simulate) for *)
(* replay into qtcodes.tools.benchmarking.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cfg   == JsonDeserialize(IOEnv.TRACE)
Kinds == Cfg.kinds          \* repetitions weigh
NB    == Cfg.nb             \* codes
NP    == Cfg.np             \* physical rates
Shots == Range(Cfg.shots)
MaxL  == Cfg.maxrates       \* longest sweep
MaxRate == Cfg.unit        \* logical rates are multiples of 1/unit
Len0  == Cfg.len

VARIABLES h, files
vars == <<h, files>>

Pick(S) == {RandomElement(S)}
Codes == 0..NB-1
Add(a, f) == h' = Append(h, a) /\ files' = f

RandRates(n) == [i \in 1..n |-> RandomElement(1..NP)]
Perm(n) == LET f[k \in 0..n] == IF k = 0 THEN <<>>
                                ELSE LET i == RandomElement(1..k) IN SubSeq(f[k-1], 1, i-1) \o <<k>> \o SubSeq(f[k-1], i, k-1)
           IN f[n]

Act(k) ==
  \E b \in Pick(Codes), p \in Pick(1..NP), l \in Pick(0..MaxRate), at \in Pick(0..999), n \in Pick(0..MaxL), sh \in Pick(Shots),
     save \in Pick({TRUE, TRUE, FALSE}), flag \in Pick(BOOLEAN), val \in Pick({0, 1}) :
   CASE k = "append" -> Add([k |-> k, b |-> b, p |-> p, l |-> l, via |-> RandomElement({"here", "fresh", "child"})], files \cup {b})
     [] k = "crash" -> Add([k |-> k, b |-> b, p |-> p, l |-> l, at |-> at, how |-> RandomElement({"line", "line", "bytes"})], files)
     [] k = "fail" -> Add([k |-> k, b |-> b, p |-> p, l |-> l, at |-> at, how |-> RandomElement({"interrupt", "disk"})], files)
     [] k = "single" -> Add([k |-> k, b |-> b, p |-> p, save |-> save, shots |-> sh, want |-> val], IF save THEN files \cup {b} ELSE files)
     [] k \in {"sweep", "mp"} ->
          LET m == IF k = "mp" /\ n = 0 THEN 1 ELSE n
          IN Add([k |-> k, b |-> b, ps |-> RandRates(m), save |-> save, deg |-> flag, shots |-> sh, want |-> val,
               form |-> RandomElement({"list", "list", "tuple", "array"}), order |-> Perm(m)],
              IF save /\ m > 0 THEN files \cup {b} ELSE files)
     [] k = "killsweep" ->
          LET m == IF n < 2 THEN 2 ELSE n
          IN Add([k |-> k, b |-> b, ps |-> RandRates(m), mp |-> flag, at |-> at, shots |-> sh, want |-> val], files)
     [] k = "put" -> \E m \in Pick(1..MaxL) :
          Add([k |-> k, b |-> b, ps |-> RandRates(m), ls |-> [i \in 1..m |-> RandomElement(0..MaxRate)]], files \cup {b})
     [] k = "load" -> \E f \in Pick(files) : Add([k |-> k, b |-> f], files)
     [] k = "plot" -> \E f \in Pick(files) :
          Add([k |-> k, b |-> f, log |-> flag, round |-> RandomElement(BOOLEAN),
               ax |-> RandomElement({"none", "fig", "both", "other"})], files)
     [] k = "batch" -> Add([k |-> k, plot |-> RandomElement({TRUE, FALSE, FALSE})], files)

Fits(k) == k \in {"load", "plot", "batch"} => files # {}
Init == h = <<>> /\ files = {}
Next ==
  /\ Len(h) < Len0
  /\ \E i \in Pick({i \in 1..Len(Kinds) : Fits(Kinds[i])}) : Act(Kinds[i])
  /\ Len(h') = Len0 => PrintT(<<"OUT", ToJson(h')>>)
Spec == Init /\ [][Next]_vars
===========================================================================
