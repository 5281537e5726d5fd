------------------------------- MODULE ApiGen -------------------------------
(* The calling side of the API: which histories of calls are meaningful.   *)
(* TLC generates histories from this spec, at random (-simulate) or        *)
(* exhaustively up to a length (BFS); the harness replays each into the    *)
(* real library and CircuitTrace judges the recording.                     *)
(*                                                                         *)
(* out  topological qubits whose data were measured out (only a reset may  *)
(*      follow);  rnd  user bits that may hold a random value.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cfg   == JsonDeserialize(IOEnv.TRACE)
TQ    == Range(Cfg.tq)            \* numbers of the topological qubits
Kinds == Cfg.kinds                \* repetitions weigh in random mode
NU    == Cfg.nu                   \* user qubits
UB    == Cfg.ub                   \* sizes of user bit registers
Vias  == Range(Cfg.vias)
ND    == Cfg.nd                   \* data qubits of the tqubits, by position
Random == Cfg.random
Sim    == Cfg.sim
Len0   == Cfg.len

VARIABLES h, out, rnd
vars == <<h, out, rnd>>

Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S
Regs1 == {r \in 1..Len(UB) : UB[r] = 1}
Idx(t) == CHOOSE i \in 1..Len(Cfg.tq) : Cfg.tq[i] = t
Live == TQ \ out

NRnd(r) == Cardinality({x \in rnd : x[1] = r})

Do(a, o, r) == h' = Append(h, a) /\ out' = o /\ rnd' = r

U(i) == "u" \o ToString(i)
D(t, i) == "d" \o ToString(t) \o "." \o ToString(i)
BitName(r, b) == ToString(r - 1) \o "." \o ToString(b - 1)

Plain(k) == \E t \in Pick(Live), v \in Pick(Vias) : Do([k |-> k, t |-> t, via |-> v], out, rnd)

Act(k) ==
  CASE k \in {"x", "z", "id", "id_data", "stabilize", "entangle", "entangle_x", "entangle_z"} -> Plain(k)
    [] k \in {"reset_x", "reset_z"} ->
         \E t \in Pick(TQ), v \in Pick(Vias) : Do([k |-> k, t |-> t, via |-> v], out \ {t}, rnd)
    [] k \in {"readout_x", "readout_z"} -> Plain(k)
    [] k \in {"readout_x_creg", "readout_z_creg"} ->
         \E t \in Pick(Live), r \in Pick(Regs1), v \in Pick(Vias) :
            Do([k |-> IF k = "readout_x_creg" THEN "readout_x" ELSE "readout_z", t |-> t, creg |-> r - 1, via |-> v],
               out, rnd \cup {<<r, 1>>})
    [] k \in {"lattice_readout_x", "lattice_readout_z"} ->
         \E t \in Pick(Live), v \in Pick(Vias) : Do([k |-> k, t |-> t, via |-> v], out \cup {t}, rnd)
    [] k \in {"x_c_if", "z_c_if"} ->
         \E t \in Pick(Live), r \in Pick({r \in 1..Len(UB) : NRnd(r) <= 1}) :
           \E val \in Pick(0..2^UB[r]-1) : Do([k |-> k, t |-> t, creg |-> r - 1, val |-> val], out, rnd)
    [] k \in {"cx_control", "cx_target"} ->
         \E t \in Pick(Live), u \in Pick(0..NU-1) : Do([k |-> k, t |-> t, u |-> u], out, rnd)
    [] k = "cx_bad" ->
         \E t \in Pick(Live), b \in Pick(BOOLEAN) : Do([k |-> k, t |-> t, both |-> b], out, rnd)
    [] k = "tcx" ->
         \E s \in Pick({p \in Live \X Live : p[1] # p[2]}), v \in Pick(Vias \ {"method"}) :
            Do([k |-> k, t |-> s[1], t2 |-> s[2], via |-> v], out, rnd)
    [] k = "tcx_bad" ->
         \E s \in Pick({p \in Live \X Live : p[1] # p[2]}), hf \in Pick({"type", "params"}) :
            Do([k |-> k, t |-> s[1], t2 |-> s[2], half |-> hf], out, rnd)
    \* the user's own operations
    [] k = "u_gate1" ->
         \E g \in Pick({"h", "s", "x", "z"}), u \in Pick(0..NU-1) :
            Do([k |-> "user", g |-> <<<<g, U(u)>>>>], out, rnd)
    [] k = "u_gate2" ->
         \E g \in Pick({"cx", "cz"}), u \in Pick({p \in (0..NU-1) \X (0..NU-1) : p[1] # p[2]}) :
            Do([k |-> "user", g |-> <<<<g, U(u[1]), U(u[2])>>>>], out, rnd)
    [] k = "u_error" ->
         \E t \in Pick(Live), g \in Pick({"x", "y", "z"}) : \E i \in Pick(0..ND[Idx(t)]-1) :
            Do([k |-> "user", g |-> <<<<g, D(t, i)>>>>], out, rnd)
    [] k = "u_scramble" ->
         \E t \in Pick(Live), g \in Pick({"h", "s"}), u \in Pick(0..NU-1) : \E i \in Pick(0..ND[Idx(t)]-1) :
            Do([k |-> "user", g |-> <<<<g, D(t, i)>>, <<"cx", D(t, i), U(u)>>>>], out, rnd)
    [] k = "u_measure" ->
         \E r \in Pick({r \in 1..Len(UB) : NRnd(r) = 0 \/ UB[r] = 1}), u \in Pick(0..NU-1) :
           \E b \in Pick(1..UB[r]) :
            Do([k |-> "user", g |-> <<<<"measure", U(u), BitName(r, b)>>>>], out, rnd \cup {<<r, b>>})
    [] k = "u_set" ->
         \E r \in Pick(1..Len(UB)), u \in Pick(0..NU-1), one \in Pick(BOOLEAN) :
           \E b \in Pick(1..UB[r]) :
            Do([k |-> "user", g |-> <<<<"reset", U(u)>>>> \o (IF one THEN <<<<"x", U(u)>>>> ELSE <<>>)
                                    \o <<<<"measure", U(u), BitName(r, b)>>>>], out, rnd \ {<<r, b>>})

NeedsLive(k) == k \notin {"reset_x", "reset_z", "u_gate1", "u_gate2", "u_measure", "u_set"}
Fits(k) == /\ NeedsLive(k) => Live # {}
           /\ k \in {"tcx", "tcx_bad"} => Cardinality(Live) >= 2
           /\ k = "u_measure" => \E r \in 1..Len(UB) : NRnd(r) = 0 \/ UB[r] = 1
           /\ k \in {"x_c_if", "z_c_if"} => \E r \in 1..Len(UB) : NRnd(r) <= 1

Init == h = <<>> /\ out = {} /\ rnd = {}

Emit == PrintT(<<"OUT", ToJson(h)>>)

Next ==
  /\ Len(h) < Len0
  /\ \E i \in Pick({i \in 1..Len(Kinds) : Fits(Kinds[i])}) : Act(Kinds[i])
  /\ Len(h') = Len0 => PrintT(<<"OUT", ToJson(h')>>)

Spec == Init /\ [][Next]_vars
===========================================================================
