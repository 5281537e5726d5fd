----------------------------- MODULE BenchTrace -----------------------------
(* The contract of benchmarking, and the recorded histories TLC judges by  *)
(* it.  State: what each code's file holds (as a bag of points, and as the *)
(* sequence last seen there), per code.  A point is <<p, l>>: p numbers a  *)
(* physical rate in increasing order, l is a logical rate in units of      *)
(* 1/Unit; the recorder writes -1 for values it does not know.             *)
(*                                                                         *)
(* A crashed or failed save is the one nondeterministic step: the file     *)
(* holds the points before, or those and the new one.                      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Bags, TLC, Json, IOUtils

Input  == JsonDeserialize(IOEnv.TRACE)
Traces == Input.traces
Unit   == Input.unit
Clauses == Range(Input.clauses)   \* which parts are judged: rate, sweep, file, show

VARIABLES tr, l, held, seen, bad
vars == <<tr, l, held, seen, bad>>
T  == Traces[tr]
Ev == T.ev[l]
Codes == 0..Len(T.codes)-1
Code(b) == T.codes[b + 1]         \* [dh, dw, t]

---------------------------------------------------------------------------
BagOfSeq(s) == LET B(x) == Cardinality({i \in 1..Len(s) : s[i] = x}) IN [x \in Range(s) |-> B(x)]
Pairs(ps, ls) == [i \in 1..Min({Len(ps), Len(ls)}) |-> <<ps[i], ls[i]>>]
Sorted(ps) == \A i \in 1..Len(ps)-1 : ps[i] <= ps[i+1]
SortedSeqOf(ps) == SortSeq(ps, <)
First(conds) ==     \* the first complaint among <<condition, text>> pairs, "" if none
  LET f == {i \in 1..Len(conds) : ~conds[i][1]} IN IF f = {} THEN "" ELSE conds[Min(f)][2]

(* One file as observed: [there, ok, dh, dw, t, ps, ls]. *)
FileIs(o, b, B) ==
  IF ~o.there THEN B = EmptyBag
  ELSE /\ o.ok /\ Len(o.ps) = Len(o.ls)
       /\ o.dh = Code(b).dh /\ o.dw = Code(b).dw /\ o.t = Code(b).t
       /\ BagOfSeq(Pairs(o.ps, o.ls)) = B

Describe(o) == IF ~o.there THEN "no file" ELSE IF ~o.ok THEN "an unreadable file" ELSE ToString(<<o.dh, o.dw, o.t, Pairs(o.ps, o.ls)>>)

(* All files, given the bags each of them may hold now. *)
FilesBad(may, sorted) ==
  LET wrong == {b \in Codes : ~\E B \in may[b] : FileIs(Ev.files[b+1], b, B)}
      uns   == {b \in Codes : Ev.files[b+1].there /\ Ev.files[b+1].ok /\ sorted /\ b = Ev.b /\ ~Sorted(Ev.files[b+1].ps)}
  IN IF wrong # {} THEN LET b == Min(wrong) IN "file of code " \o ToString(b) \o " holds " \o Describe(Ev.files[b+1])
                                                \o ", specified one of " \o ToString(may[b])
     ELSE IF uns # {} THEN "file of code " \o ToString(Min(uns)) \o " is not sorted by physical rate"
     ELSE ""

HeldNow(may) == [b \in Codes |-> LET S == {B \in may[b] : FileIs(Ev.files[b+1], b, B)}
                                 IN IF S = {} THEN held[b] ELSE CHOOSE B \in S : TRUE]
SeenNow == [b \in Codes |-> IF Ev.files[b+1].there THEN [ps |-> Ev.files[b+1].ps, ls |-> Ev.files[b+1].ls] ELSE seen[b]]
Same == [b \in Codes |-> {held[b]}]
With(b, S) == [Same EXCEPT ![b] = S]

Judge(may, sorted, others) ==
  /\ held' = HeldNow(may) /\ seen' = SeenNow
  /\ bad' = IF others # "" THEN others
            ELSE IF "file" \in Clauses THEN FilesBad(may, sorted) ELSE ""

---------------------------------------------------------------------------
(* Runs: what the simulator and decoder were seen to do for each rate:     *)
(* <<p, err, shots, wrong, want>>; err = 0 without an error probability.   *)
RateOf(r) == r[4] * (Unit \div r[3])
Exact(r) == Unit % r[3] = 0
RunPairs == [i \in 1..Len(Ev.runs) |-> <<Ev.runs[i][1], RateOf(Ev.runs[i])>>]
RunsBag == BagOfSeq(RunPairs)

RunsOK(ps, deg) ==
  First(<<
    <<BagOfSeq([i \in 1..Len(Ev.runs) |-> Ev.runs[i][1]]) = BagOfSeq(ps), "simulated rates " \o
         ToString([i \in 1..Len(Ev.runs) |-> Ev.runs[i][1]]) \o ", specified once each " \o ToString(ps)>>,
    <<\A i \in 1..Len(Ev.runs) : Ev.runs[i][3] = Ev.shots, "ran " \o ToString([i \in 1..Len(Ev.runs) |-> Ev.runs[i][3]])
         \o " shots, specified " \o ToString(Ev.shots) \o " each">>,
    <<\A i \in 1..Len(Ev.runs) : Ev.runs[i][2] = (IF deg THEN Ev.runs[i][1] ELSE 0),
         "decoded with error probabilities " \o ToString([i \in 1..Len(Ev.runs) |-> <<Ev.runs[i][1], Ev.runs[i][2]>>])>> >>)

FullRuns == SelectSeq(Ev.runs, LAMBDA r : r[3] = Ev.shots)
SubBagsOf(s) == {BagOfSeq([i \in 1..Cardinality(S) |-> s[SetToSortSeq(S, <)[i]]]) : S \in SUBSET (1..Len(s))}
(* A sweep that was killed or failed: some of the finished runs are in the file. *)
Partial == {held[Ev.b] (+) B : B \in SubBagsOf([i \in 1..Len(FullRuns) |-> <<FullRuns[i][1], RateOf(FullRuns[i])>>])}
SavedRuns == IF Ev.out # "ok" THEN Partial ELSE {IF Ev.save THEN held[Ev.b] (+) RunsBag ELSE held[Ev.b]}

Sweep(deg) ==
  Judge(With(Ev.b, SavedRuns), TRUE,
    IF "sweep" \notin Clauses THEN ""
    ELSE IF Ev.out # "ok" THEN Ev.k \o " failed: " \o Ev.out
    ELSE IF RunsOK(Ev.ps, deg) # "" THEN RunsOK(Ev.ps, deg)
    ELSE First(<<
      <<Ev.intact, "the caller's list of rates was changed">>,
      <<Ev.mem.ps = SortedSeqOf(Ev.ps), "reports physical rates " \o ToString(Ev.mem.ps) \o ", specified " \o ToString(SortedSeqOf(Ev.ps))>>,
      <<Len(Ev.mem.ls) = Len(Ev.mem.ps), "reports " \o ToString(Len(Ev.mem.ls)) \o " logical rates">>,
      <<BagOfSeq(Pairs(Ev.mem.ps, Ev.mem.ls)) = RunsBag, "reports " \o ToString(Pairs(Ev.mem.ps, Ev.mem.ls))
           \o ", specified " \o ToString(RunPairs)>> >>))

Single ==
  Judge(With(Ev.b, SavedRuns), TRUE,
    IF "sweep" \notin Clauses THEN ""
    ELSE IF Ev.out # "ok" THEN "single failed: " \o Ev.out
    ELSE IF RunsOK(<<Ev.p>>, TRUE) # "" THEN RunsOK(<<Ev.p>>, TRUE)
    ELSE IF Ev.ret # RunPairs[1][2] THEN "returned " \o ToString(Ev.ret) \o ", specified " \o ToString(RunPairs[1][2])
    ELSE "")

KillSweep == Judge(With(Ev.b, Partial), TRUE, "")

Point == BagOfSeq(<<<<Ev.p, Ev.l>>>>)
Save == Judge(With(Ev.b, {held[Ev.b] (+) Point}), TRUE,
              IF "file" \in Clauses /\ Ev.out # "ok" THEN "saving failed: " \o Ev.out ELSE "")
CrashedSave == Judge(With(Ev.b, {held[Ev.b], held[Ev.b] (+) Point}), TRUE, "")
FailedSave == Judge(With(Ev.b, IF Ev.out = "ok" THEN {held[Ev.b] (+) Point} ELSE {held[Ev.b], held[Ev.b] (+) Point}), TRUE, "")
(* The harness itself writes a file. *)
Put == Judge(With(Ev.b, {BagOfSeq(Pairs(Ev.ps, Ev.ls))}), FALSE, "")

---------------------------------------------------------------------------
Shows(a, b) == /\ a.dh = Code(b).dh /\ a.dw = Code(b).dw /\ a.t = Code(b).t
               /\ a.ps = seen[b].ps /\ a.ls = seen[b].ls

Load == Judge(Same, FALSE,
  IF "show" \notin Clauses THEN ""
  ELSE IF Ev.out # "ok" THEN "loading failed: " \o Ev.out
  ELSE IF ~Shows(Ev.a, Ev.b) THEN "loaded " \o ToString(Ev.a) \o ", the file holds " \o ToString(<<Code(Ev.b), seen[Ev.b]>>)
  ELSE "")

(* A drawn line: xs and the same ys read as plain rates (-1 if not one)    *)
(* and as rates per round.                                                 *)
Drawn(ln, b, round) == /\ ln.xs = seen[b].ps
                       /\ (IF round THEN ln.yround ELSE ln.yplain) = seen[b].ls
Plot == Judge(Same, FALSE,
  IF "show" \notin Clauses THEN ""
  ELSE IF Ev.out # "ok" THEN "plotting failed: " \o Ev.out
  ELSE First(<<
    <<Len(Ev.lines) = 1, ToString(Len(Ev.lines)) \o " lines were drawn on the axes, specified one">>,
    <<Len(Ev.lines) = 1 => Drawn(Ev.lines[1], Ev.b, Ev.round), "drew " \o ToString(Ev.lines) \o ", the data are "
        \o ToString(seen[Ev.b]) \o (IF Ev.round THEN " per round" ELSE "")>>,
    <<Ev.stray = 0, "drew on axes that were not asked for">>,
    <<Ev.xlog = Ev.log /\ Ev.ylog = Ev.log, "logarithmic axes " \o ToString(<<Ev.xlog, Ev.ylog>>) \o ", specified " \o ToString(Ev.log)>> >>))

Present == {b \in Codes : Ev.files[b+1].there}
Batch == Judge(Same, FALSE,
  IF "show" \notin Clauses THEN ""
  ELSE IF Ev.out # "ok" THEN "batch failed: " \o Ev.out
  ELSE LET as == Ev.as
           matches(i, b) == Shows(as[i], b)
       IN First(<<
    <<Len(as) = Cardinality(Present), "loaded " \o ToString(Len(as)) \o " of " \o ToString(Cardinality(Present)) \o " files">>,
    <<Cardinality({as[i].name : i \in 1..Len(as)}) = Len(as), "loaded a file twice">>,
    <<\A b \in Present : \E i \in 1..Len(as) : as[i].name = b /\ matches(i, b), "the analyses do not show the files' data: "
         \o ToString(as)>>,
    <<\A i \in 1..Len(as)-1 : as[i].dh <= as[i+1].dh, "codes are not in order of increasing height: "
         \o ToString([i \in 1..Len(as) |-> as[i].dh])>>,
    <<Ev.figs = <<>> \/ ({<<f.xlog, f.ylog>> : f \in Range(Ev.figs)} = {<<TRUE, TRUE>>, <<FALSE, FALSE>>} /\ Len(Ev.figs) = 2),
         "figures are not one logarithmic and one linear">>,
    <<\A f \in Range(Ev.figs) : \A i \in 1..Len(as) : \E ln \in Range(f.lines) : Drawn(ln, as[i].name, FALSE),
         "a figure lacks the points of a code">>,
    <<\A f \in Range(Ev.figs) : \A ln \in Range(f.lines) :
         \/ \E i \in 1..Len(as) : Drawn(ln, as[i].name, FALSE)
         \/ ln.diagonal, "a figure shows points that are no code's">> >>))

(* <<decoded value, count>> of every result string, the expected value,    *)
(* and the rate as errors of total.                                        *)
Rate == Judge(Same, FALSE,
  IF "rate" \notin Clauses THEN ""
  ELSE IF Ev.out # "ok" THEN "failed: " \o Ev.out
  ELSE LET tot == FoldLeft(LAMBDA a, v : a + v[2], 0, Ev.vals)
           err == FoldLeft(LAMBDA a, v : a + (IF v[1] # Ev.want THEN v[2] ELSE 0), 0, Ev.vals)
       IN First(<<
    <<Ev.intact, "the dictionary of counts was changed">>,
    <<Ev.exact /\ Ev.num = err, "rate " \o Ev.text \o " of " \o ToString(tot) \o " shots, specified " \o ToString(err) \o "/" \o ToString(tot)>> >>))

---------------------------------------------------------------------------
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ held = [b \in Codes |-> EmptyBag]
        /\ seen = [b \in Codes |-> [ps |-> <<>>, ls |-> <<>>]]
Next ==
  /\ bad = "" /\ l <= Len(T.ev)
  /\ CASE Ev.k = "append" -> Save
       [] Ev.k = "crash" -> CrashedSave
       [] Ev.k = "fail" -> FailedSave
       [] Ev.k = "single" -> Single
       [] Ev.k = "sweep" -> Sweep(Ev.deg)
       [] Ev.k = "mp" -> Sweep(TRUE)
       [] Ev.k = "killsweep" -> KillSweep
       [] Ev.k = "put" -> Put
       [] Ev.k = "load" -> Load
       [] Ev.k = "plot" -> Plot
       [] Ev.k = "batch" -> Batch
       [] Ev.k = "rate" -> Rate
  /\ l' = l + 1 /\ tr' = tr
  /\ IF bad' # "" THEN PrintT(<<"REJECT", T.id, l, bad'>>)
     ELSE IF l' > Len(T.ev) THEN PrintT(<<"ACCEPT", T.id, l>>)
     ELSE TRUE
Spec == Init /\ [][Next]_vars
===========================================================================
