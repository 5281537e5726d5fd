----------------------------- MODULE SaveModel -----------------------------
(* Design of saving benchmark data: a sweep of several physical rates,     *)
(* simulated by parallel workers or by one process, saving each point.     *)
(* A save reads the file, appends, writes a temporary file and renames it. *)
(* Any process may die between any two file operations and be replaced.    *)
(* Two designs that the code does not follow are kept as switches; TLC     *)
(* must reject both (that is how we know the invariants bite):             *)
(*   InPlace   the file itself is opened and rewritten                     *)
(*   EachSaves every worker saves its own points                           *)
EXTENDS Integers, Sequences, FiniteSets, Bags, TLC

CONSTANTS Rates,      \* the points to simulate (each once per sweep)
          Workers, InPlace, EachSaves, MaxCrashes,
          None, Torn

VARIABLES file,    \* bag of points, or Torn
          tmp,     \* None, Torn, or a bag
          queue,   \* rates waiting for a worker, in order
          sim,     \* worker -> the rate it simulates, or None
          results, \* rates simulated whose results nobody saved yet
          saver,   \* process -> [pc, snap, pt]
          done,    \* bag of points whose save returned
          begun,   \* bag of points a save of which may have reached the file, but did not return
          crashes
vars == <<file, tmp, queue, sim, results, saver, done, begun, crashes>>

Parent == "parent"
Savers == IF EachSaves THEN Workers ELSE {Parent}
Idle == [pc |-> "idle", snap |-> EmptyBag, pt |-> None]

RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o s : s \in Orders(S \ {x})} : x \in S}

Init == /\ file = EmptyBag /\ tmp = None
        /\ queue \in Orders(Rates)
        /\ sim = [w \in Workers |-> None]
        /\ results = {}
        /\ saver = [p \in Savers |-> Idle]
        /\ done = EmptyBag /\ begun = EmptyBag /\ crashes = 0

One(p) == SetToBag({p})

Start(w) == /\ sim[w] = None /\ queue # <<>>
            /\ EachSaves => saver[w].pc = "idle"
            /\ sim' = [sim EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
            /\ UNCHANGED <<file, tmp, results, saver, done, begun, crashes>>

Finish(w) == /\ sim[w] # None
             /\ IF EachSaves
                THEN /\ saver' = [saver EXCEPT ![w] = [pc |-> "read", snap |-> EmptyBag, pt |-> sim[w]]]
                     /\ UNCHANGED results
                ELSE /\ results' = results \cup {sim[w]} /\ UNCHANGED saver
             /\ sim' = [sim EXCEPT ![w] = None]
             /\ UNCHANGED <<file, tmp, queue, done, begun, crashes>>

Take == /\ ~EachSaves /\ saver[Parent].pc = "idle"
        /\ \E r \in results :
             /\ results' = results \ {r}
             /\ saver' = [saver EXCEPT ![Parent] = [pc |-> "read", snap |-> EmptyBag, pt |-> r]]
        /\ UNCHANGED <<file, tmp, queue, sim, done, begun, crashes>>

Read(p) == /\ saver[p].pc = "read" /\ file # Torn
           /\ saver' = [saver EXCEPT ![p].pc = "open", ![p].snap = file]
           /\ UNCHANGED <<file, tmp, queue, sim, results, done, begun, crashes>>

Open(p) == /\ saver[p].pc = "open"
           /\ IF InPlace THEN file' = Torn /\ UNCHANGED tmp ELSE tmp' = Torn /\ UNCHANGED file
           /\ saver' = [saver EXCEPT ![p].pc = "write"]
           /\ UNCHANGED <<queue, sim, results, done, begun, crashes>>

Write(p) == /\ saver[p].pc = "write"
            /\ LET b == saver[p].snap (+) One(saver[p].pt)
               IN IF InPlace THEN file' = b /\ UNCHANGED tmp ELSE tmp' = b /\ UNCHANGED file
            /\ saver' = [saver EXCEPT ![p].pc = IF InPlace THEN "return" ELSE "rename"]
            /\ UNCHANGED <<queue, sim, results, done, begun, crashes>>

Rename(p) == /\ saver[p].pc = "rename"
             /\ file' = tmp /\ tmp' = None
             /\ saver' = [saver EXCEPT ![p].pc = "return"]
             /\ UNCHANGED <<queue, sim, results, done, begun, crashes>>

Return(p) == /\ saver[p].pc = "return"
             /\ done' = done (+) One(saver[p].pt)
             /\ saver' = [saver EXCEPT ![p] = Idle]
             /\ UNCHANGED <<file, tmp, queue, sim, results, begun, crashes>>

(* Everything dies; a new process sweeps what it likes (here: all again). *)
Crash == /\ crashes < MaxCrashes
         /\ crashes' = crashes + 1
         /\ saver' = [p \in Savers |-> Idle] /\ sim' = [w \in Workers |-> None] /\ results' = {}
         /\ begun' = begun (+) (LET ps == {p \in Savers : saver[p].pc # "idle"} IN SetToBag({saver[p].pt : p \in ps}))
         /\ queue' \in Orders(Rates)
         /\ UNCHANGED <<file, tmp, done>>

Next == \/ \E w \in Workers : Start(w) \/ Finish(w)
        \/ Take
        \/ \E p \in Savers : Read(p) \/ Open(p) \/ Write(p) \/ Rename(p) \/ Return(p)
        \/ Crash
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Saving == SetToBag({saver[p].pt : p \in {p \in Savers : saver[p].pc # "idle"}})
Quiet == \A p \in Savers : saver[p].pc = "idle"

(* The contract BenchTrace checks on the real code. *)
NeverTorn == Quiet => file # Torn
NothingLost == file # Torn => done \sqsubseteq file
NothingInvented == file # Torn => file \sqsubseteq (done (+) begun (+) Saving)
(* A reader at any moment sees a whole file. *)
AlwaysWhole == file # Torn
Complete == (queue = <<>> /\ results = {} /\ Quiet /\ crashes = 0 /\ \A w \in Workers : sim[w] = None)
               => file = SetToBag(Rates)
(* The file only grows: no step takes a point out of it. *)
Grows == [][file # Torn /\ file' # Torn => file \sqsubseteq file']_vars
===========================================================================
