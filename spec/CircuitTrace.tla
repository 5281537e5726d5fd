---------------------------- MODULE CircuitTrace ----------------------------
(* Conformance of recorded API histories of qtcodes.circuits.              *)
(*                                                                         *)
(* Every recorded event is one call of the public API together with the    *)
(* circuit instructions and registers that call appended.  The spec keeps  *)
(* two joint states of qubits and classical bits (stabilizer groups, so    *)
(* all measurement outcomes and, through Bell-paired reference qubits, all *)
(* input states at once):                                                  *)
(*   G  the state the emitted instructions really produce,                 *)
(*   A  the state the abstract API action of that name specifies.          *)
(* After every call the projection of G onto what a user can see (data     *)
(* qubits, user qubits, references, classical record) must equal A.        *)
EXTENDS Stab, Surface, TLC, Json, IOUtils

Input   == JsonDeserialize(IOEnv.TRACE)
Traces  == Input.traces
Clauses == Range(Input.clauses)    \* which clauses are enforced
Calls   == Range(Input.calls)      \* for which calls; the others are trusted

VARIABLES tr, l, G, A, code, hidQ, hidB, crs, tn, sub, bad
vars == <<tr, l, G, A, code, hidQ, hidB, crs, tn, sub, bad>>
View == <<tr, l, bad>>

RefId(q) == 1000000 + q
NoCode == [type |-> "none"]

---------------------------------------------------------------------------
(* Executing emitted instructions on a group.                              *)
CondBits(H, bits) == [i \in 1..Len(bits) |-> BitValue(H, bits[i])]

Apply1(H, g, q, b) ==
  CASE g = "measure" -> MeasureInto(H, ZRow(q[1]), b[1])
    [] g = "reset" -> ResetQubit(H, q[1])
    [] OTHER -> Gate(H, g, q)

Supported(g) == g \in KnownGates \/ g \in {"measure", "reset"}

PauliRow(g, q) == CASE g = "x" -> XRow(q) [] g = "z" -> ZRow(q)
                    [] g = "y" -> <<{q}, {q}, {}, 1>> [] g = "id" -> <<{}, {}, {}, 0>>

(* values of registers are sequences of bits, least first, without leading zeros *)
BitOf(v, i) == IF i <= Len(v) THEN v[i] ELSE 0

(* acc = <<group, problem>>; problem = "" as long as all is well *)
ExecCond(H, g, q, b, bits, v) ==
  IF Len(bits) = 1 /\ g \in PauliGates /\ Len(v) <= 1
  THEN <<CondPauli(H, PauliRow(g, q[1]), bits[1], BitOf(v, 1)), "">>
  ELSE IF Len(v) > Len(bits) THEN <<H, "">>
  ELSE LET val == CondBits(H, bits)
           free == {i \in 1..Len(bits) : val[i] = -1}
           match == \A i \in 1..Len(bits) : val[i] = -1 \/ val[i] = BitOf(v, i)
       IN IF ~match THEN <<H, "">>
          ELSE IF free = {} THEN <<Apply1(H, g, q, b), "">>
          ELSE IF Cardinality(free) = 1 /\ g \in PauliGates
               THEN LET i == CHOOSE i \in free : TRUE
                    IN <<CondPauli(H, PauliRow(g, q[1]), bits[i], BitOf(v, i)), "">>
          ELSE <<H, "condition">>

Exec(acc, ins) ==
  IF acc[2] # "" THEN acc
  ELSE IF ~Supported(ins.g) THEN <<acc[1], "gate " \o ins.g>>
  ELSE IF ins.c = <<>> THEN <<Apply1(acc[1], ins.g, ins.q, ins.b), "">>
  ELSE ExecCond(acc[1], ins.g, ins.q, ins.b, ins.c, ins.v)

Run(H, instrs) == FoldLeft(Exec, <<H, "">>, instrs)

---------------------------------------------------------------------------
(* Pauli operators of a code.  In the XZZX code X and Z are exchanged on   *)
(* even-index data qubits.                                                 *)
Even(S) == {q \in S : q % 2 = 0}
OpX(c, S) ==
  LET plain == IF c.type = "XZZX" THEN S \ Even(S) ELSE S
  IN Row({c.data[q + 1] : q \in plain}, {c.data[q + 1] : q \in S \ plain})
OpZ(c, S) ==
  LET plain == IF c.type = "XZZX" THEN S \ Even(S) ELSE S
  IN Row({c.data[q + 1] : q \in S \ plain}, {c.data[q + 1] : q \in plain})

XL(c) == OpX(c, LeftColumn(c.dh, c.dw))
ZL(c) == OpZ(c, TopRow(c.dh, c.dw))
DataSet(c) == Range(c.data)
NSyn(c) == NumSyn(c.dh, c.dw, "X") + NumSyn(c.dh, c.dw, "Z")

(* The operators a round measures, in the order of the register's bits. *)
OpsOf(c, types) ==
  LET zs == IF "Z" \in types THEN FaceSeq(c.dh, c.dw, "Z") ELSE <<>>
      xs == IF "X" \in types THEN FaceSeq(c.dh, c.dw, "X") ELSE <<>>
  IN [i \in 1..Len(zs) |-> OpZ(c, DataOf(c.dh, c.dw, zs[i]))]
       \o [i \in 1..Len(xs) |-> OpX(c, DataOf(c.dh, c.dw, xs[i]))]

RoundOps(c) == OpsOf(c, {"Z", "X"})

MeasureAll(H, ops, bits) ==
  FoldLeft(LAMBDA acc, i : MeasureInto(acc, ops[i], bits[i]), H, [i \in 1..Len(ops) |-> i])

Prepare(H, c, op(_, _)) ==
  LET H0 == DiscardQubits(H, DataSet(c))
  IN H0 \cup {op(c, {q}) : q \in 0..Len(c.data) - 1}

---------------------------------------------------------------------------
(* What a request for a lattice asks for.                                  *)
(*   d: [form |-> "none" | "num" | "tuple" | "list" | "other", v |-> <<>>] *)
ReqDims(type, d, pf) ==
  CASE d.form = "none" -> IF type = "Repetition" THEN IF pf THEN <<1, 3>> ELSE <<3, 1>>
                          ELSE <<3, 3>>
    [] d.form = "num" -> IF type = "Repetition" THEN IF pf THEN <<1, d.v[1]>> ELSE <<d.v[1], 1>>
                         ELSE <<d.v[1], d.v[1]>>
    [] d.form = "tuple" -> d.v
    [] d.form = "list" -> IF type = "Repetition" THEN <<>> ELSE d.v
    [] OTHER -> <<>>

DimsOK(type, dims, pf) ==
  /\ Len(dims) = 2
  /\ OddDim(dims[1]) /\ OddDim(dims[2])
  /\ type = "Repetition" => IF pf THEN dims[1] = 1 ELSE dims[2] = 1

RegsOf(name, dh, dw) ==
  LET nz == NumSyn(dh, dw, "Z")  nx == NumSyn(dh, dw, "X")
  IN {<<name \o "_data", dh * dw>>, <<name \o "_ancilla", 1>>}
       \cup (IF nz > 0 THEN {<<name \o "_mz", nz>>} ELSE {})
       \cup (IF nx > 0 THEN {<<name \o "_mx", nx>>} ELSE {})

---------------------------------------------------------------------------
Ev == Traces[tr].ev[l]
Regs(rs) == {<<rs[i].n, Len(rs[i].b)>> : i \in 1..Len(rs)}
IdsOf(rs) == UNION {Range(rs[i].b) : i \in 1..Len(rs)}
FreshQ(Q) == {ZRow(q) : q \in Q}
FreshB(B) == {<<{}, {}, {b}, 0>> : b \in B}
Project2(H, hq, hb) == DiscardBits(DiscardQubits(H, hq), hb)

Must(cl, ev) == cl \in Clauses /\ ev.k \in Calls
First(list) == LET bads == SelectSeq(list, LAMBDA x : ~x[1])
               IN IF bads = <<>> THEN "" ELSE bads[1][2]

(* Every call is judged by: its outcome, the registers it added, what it   *)
(* left alone, whom it touched, and the joint state it produced.           *)
(*   want: [out, nq, nc, hideQ, hideB, own, A] - the specified effect      *)
Judge(ev, want) ==
  LET G0  == G \cup FreshQ(IdsOf(ev.nq)) \cup FreshB(IdsOf(ev.nc))
      run == Run(G0, ev.ins)
      hq  == want.hq
      hb  == want.hb
      ideal == "ideal" \in Clauses            \* follow the specification alone
      vis == IF ~ideal /\ "state" \in Clauses THEN Canon(Project2(run[1], hq, hb)) ELSE {}
      ca  == IF ideal \/ Must("state", ev) THEN Canon(want.A) ELSE {}
      written == UNION {Range(ev.ins[i].b) : i \in 1..Len(ev.ins)}
      touched == UNION {Range(ev.ins[i].q) : i \in 1..Len(ev.ins)}
      verdict == First(<<
        <<Must("outcome", ev) => ev.out = want.out, "outcome " \o ev.out \o ", specified " \o want.out>>,
        <<Must("earlier", ev) => ev.prefix, "earlier contents of the circuit changed">>,
        <<Must("arguments", ev) => ev.args, "an argument of the call was modified">>,
        <<Must("registers", ev) => want.nq = Regs(ev.nq) \/ want.anyreg,
          "quantum registers: specified " \o ToString(want.nq) \o ", added " \o ToString(Regs(ev.nq))>>,
        <<Must("registers", ev) => want.nc = Regs(ev.nc) \/ want.anyreg,
          "classical registers: specified " \o ToString(want.nc) \o ", added " \o ToString(Regs(ev.nc))>>,
        <<Must("registers", ev) => Len(ev.nq) = Cardinality(Regs(ev.nq)) /\ Len(ev.nc) = Cardinality(Regs(ev.nc)),
          "a register was added twice">>,
        <<Must("noop", ev) /\ want.noop => ev.ins = <<>>, "a call that is no operation emitted instructions">>,
        <<Must("own", ev) => touched \subseteq want.own \cup IdsOf(ev.nq),
          "touched qubits of others: " \o ToString(touched \ (want.own \cup IdsOf(ev.nq)))>>,
        <<Must("writes", ev) => written \subseteq want.wb \cup IdsOf(ev.nc),
          "wrote to bits of an earlier record: " \o ToString(written \ (want.wb \cup IdsOf(ev.nc)))>>,
        <<Must("writes", ev) /\ want.noop => written = {}, "a call that records nothing wrote bits">>,
        <<Must("markers", ev) /\ want.marked # {-1} =>
             LET ids == SelectSeq(ev.all, LAMBDA x : x.g = "id")
             IN /\ \A i \in 1..Len(ev.all) : ev.all[i].g = "id" /\ ev.all[i].c = <<>>
                /\ Len(ids) = Cardinality(want.marked)
                /\ {ids[i].q[1] : i \in 1..Len(ids)} = want.marked,
          "identity markers: specified one on each of " \o ToString(want.marked)>>,
        <<Must("markers", ev) /\ want.marked = {-1} =>
             \A i \in 1..Len(ev.all) : ev.all[i].g # "id", "identity marker in an operation that has none">>,
        <<Must("state", ev) => run[2] = "", "not an operation of the specification: " \o run[2]>>,
        <<Must("state", ev) => vis = ca, "joint state of data qubits and classical record differs from the specified one">> >>)
  IN [bad |-> verdict, G |-> run[1], A |-> IF ideal \/ Must("state", ev) THEN ca ELSE vis]

Want0(ev) == [out |-> "ok", nq |-> {}, nc |-> {}, hq |-> hidQ, hb |-> hidB, anyreg |-> FALSE,
              noop |-> FALSE, own |-> {}, marked |-> {-1}, wb |-> {}, A |-> A]

(* A call that is refused changes nothing. *)
Refused(ev, out) == [Want0(ev) EXCEPT !.out = out, !.noop = TRUE]

AllQ(c) == c.own
---------------------------------------------------------------------------
Reg1(name, n) == {<<name, n>>}
Bits(ev) == [i \in 1..Len(ev.nc) |-> ev.nc[i].b]

(* The abstract API actions: specified effect of each call on A. *)
OpWant(ev) ==
  LET c == code[ev.t]
      W == [Want0(ev) EXCEPT !.own = AllQ(c)]
      nb == IdsOf(ev.nc)
      bitseq == IF ev.nc = <<>> THEN <<>> ELSE ev.nc[1].b
      A1 == A \cup FreshB(nb)
  IN CASE ev.k = "reset_x" -> [W EXCEPT !.A = Prepare(A, c, OpX), !.hq = hidQ \ DataSet(c)]
       [] ev.k = "reset_z" -> [W EXCEPT !.A = Prepare(A, c, OpZ), !.hq = hidQ \ DataSet(c)]
       [] ev.k = "x" -> [W EXCEPT !.A = ApplyPauli(A, XL(c))]
       [] ev.k = "z" -> [W EXCEPT !.A = ApplyPauli(A, ZL(c))]
       [] ev.k = "id" -> [W EXCEPT !.marked = AllQ(c)]
       [] ev.k = "id_data" -> [W EXCEPT !.marked = DataSet(c)]
       [] ev.k = "stabilize" ->
            [W EXCEPT !.nc = Reg1(c.name \o "_c" \o ToString(c.T), NSyn(c)),
                      !.A = IF Len(bitseq) = NSyn(c) THEN MeasureAll(A1, RoundOps(c), bitseq) ELSE A1]
       [] ev.k \in {"readout_x", "readout_z"} ->
            LET P == IF ev.k = "readout_x" THEN XL(c) ELSE ZL(c)
            IN IF ev.creg = <<>>
               THEN [W EXCEPT !.nc = Reg1(c.name \o "_readout_" \o ToString(c.nr), 1),
                              !.A = IF Len(bitseq) = 1 THEN MeasureInto(A1, P, bitseq[1]) ELSE A1]
               ELSE [W EXCEPT !.A = MeasureInto(A1, P, ev.creg[1]), !.wb = Range(ev.creg)]
       [] ev.k \in {"lattice_readout_x", "lattice_readout_z"} ->
            LET n == Len(c.data)
                ops == [i \in 1..n |-> IF ev.k = "lattice_readout_x" THEN OpX(c, {i - 1}) ELSE OpZ(c, {i - 1})]
            IN [W EXCEPT !.nc = Reg1(c.name \o "_lattice_readout_" \o ToString(c.nl), n),
                         !.hq = hidQ \cup DataSet(c),
                         !.A = IF Len(bitseq) = n
                               THEN DiscardQubits(MeasureAll(A1, ops, bitseq), DataSet(c)) ELSE A1]
       [] ev.k \in {"x_c_if", "z_c_if"} ->
            LET P == IF ev.k = "x_c_if" THEN XL(c) ELSE ZL(c)
                n == Len(ev.creg)
                val == CondBits(A, ev.creg)
                free == {i \in 1..n : val[i] = -1}
                fires == Len(ev.val) <= n /\ \A i \in 1..n : val[i] = -1 \/ val[i] = BitOf(ev.val, i)
            IN [W EXCEPT !.A = IF ~fires THEN A
                               ELSE IF free = {} THEN ApplyPauli(A, P)
                               ELSE LET i == CHOOSE i \in free : TRUE
                                    IN CondPauli(A, P, ev.creg[i], BitOf(ev.val, i))]
       [] ev.k = "cx_control" -> [W EXCEPT !.own = AllQ(c) \cup {ev.q},
                                           !.A = ControlledPauli(A, ZRow(ev.q), XL(c))]
       [] ev.k = "cx_target" -> [W EXCEPT !.own = AllQ(c) \cup {ev.q},
                                          !.A = ControlledPauli(A, ZL(c), XRow(ev.q))]
       [] ev.k = "cx_bad" -> Refused(ev, "ValueError")
       \* one type of plaquettes entangled by the lattice, then that type's (fresh) syndrome qubits
       \* measured into a register of the user's and reset: exactly these plaquettes are measured
       [] ev.k \in {"entangle", "entangle_x", "entangle_z"} ->
            LET ops == OpsOf(c, IF ev.k = "entangle" THEN {"Z", "X"} ELSE {IF ev.k = "entangle_x" THEN "X" ELSE "Z"})
            IN [W EXCEPT !.nc = IF ops = <<>> THEN {} ELSE Reg1(ev.reg, Len(ops)),
                         !.noop = ops = <<>>,
                         !.A = IF Len(bitseq) = Len(ops) THEN MeasureAll(A1, ops, bitseq) ELSE A1]
       [] OTHER -> [W EXCEPT !.out = "unknown call " \o ev.k]

Counted(ev) ==
  CASE ev.k = "stabilize" -> [code[ev.t] EXCEPT !.T = @ + 1]
    [] ev.k \in {"readout_x", "readout_z"} /\ ev.creg = <<>> -> [code[ev.t] EXCEPT !.nr = @ + 1]
    [] ev.k \in {"lattice_readout_x", "lattice_readout_z"} -> [code[ev.t] EXCEPT !.nl = @ + 1]
    [] OTHER -> code[ev.t]

Op ==
  /\ Ev.k \in {"reset_x", "reset_z", "x", "z", "id", "id_data", "stabilize", "readout_x", "readout_z",
               "lattice_readout_x", "lattice_readout_z", "x_c_if", "z_c_if", "cx_control", "cx_target", "cx_bad",
               "entangle", "entangle_x", "entangle_z"}
  /\ LET w == OpWant(Ev)
         j == Judge(Ev, w)
     IN /\ bad' = j.bad /\ G' = j.G /\ A' = j.A
        /\ hidQ' = w.hq
        /\ code' = [code EXCEPT ![Ev.t] = Counted(Ev)]
  /\ crs' = crs \o Bits(Ev) /\ UNCHANGED <<hidB, tn, sub>>

(* The register <name>_data among the added ones. *)
DataReg(ev, name) ==
  LET s == SelectSeq(ev.nq, LAMBDA r : r.n = name \o "_data")
  IN IF s = <<>> THEN <<>> ELSE s[1].b

MkCode(type, name, dims, data, own) ==
  [type |-> IF type = "XZZX" THEN "XZZX" ELSE "CSS", name |-> name, dh |-> dims[1], dw |-> dims[2],
   data |-> data, own |-> own, T |-> 0, nr |-> 0, nl |-> 0]

(* Build one topological qubit (t is the number the trace gives it). *)
New ==
  /\ Ev.k = "new"
  /\ LET dims == ReqDims(Ev.type, Ev.d, Ev.pf)
         ok == DimsOK(Ev.type, dims, Ev.pf)
         data == DataReg(Ev, Ev.name)
         w == IF ok THEN [Want0(Ev) EXCEPT !.nq = RegsOf(Ev.name, dims[1], dims[2]), !.noop = TRUE,
                                           !.hq = hidQ \cup (IdsOf(Ev.nq) \ Range(data)),
                                           !.A = A \cup FreshQ(Range(data))]
              ELSE Refused(Ev, "LatticeError")
         j == Judge(Ev, w)
         usable == ok /\ Ev.out = "ok" /\ Len(data) = dims[1] * dims[2]
     IN /\ bad' = IF j.bad = "" /\ ok /\ ~usable THEN "unusable lattice" ELSE j.bad
        /\ G' = j.G /\ A' = j.A /\ hidQ' = w.hq
        /\ code' = IF usable
                   THEN Ev.t :> MkCode(Ev.type, Ev.name, dims, data, IdsOf(Ev.nq)) @@ code
                   ELSE code
  /\ crs' = crs \o Bits(Ev) /\ UNCHANGED <<hidB, tn, sub>>

(* Logical CNOT of the circuit layer.  Whatever it creates is internal. *)
TCx ==
  /\ Ev.k \in {"tcx", "tcx_bad"}
  /\ LET cc == code[Ev.t]
         ct == code[Ev.t2]
         \* the last one of the ancillas that is neither control nor target, if there is one
         free == {x \in DOMAIN sub : sub[x] = "ancilla"} \ {Ev.t, Ev.t2}
         anc == IF free = {} THEN {} ELSE {CHOOSE x \in free : \A y \in free : y <= x}
         own == AllQ(cc) \cup AllQ(ct) \cup UNION {AllQ(code[x]) : x \in anc} \cup hidQ
         makes == anc = {} /\ Ev.k = "tcx"
         data == DataReg(Ev, Ev.treg \o "_" \o ToString(tn))
         \* the ancilla asked for cannot be built (no matter when there is one already)
         unbuildable == makes /\ Ev.asked /\ ~DimsOK(Ev.atype, ReqDims(Ev.atype, Ev.ad, Ev.apf), Ev.apf)
         w == IF Ev.k = "tcx_bad" THEN Refused(Ev, "ValueError")
              ELSE IF unbuildable THEN Refused(Ev, "LatticeError")
              ELSE [Want0(Ev) EXCEPT !.anyreg = TRUE, !.own = own,
                      !.hq = hidQ \cup IdsOf(Ev.nq) \cup UNION {DataSet(code[x]) : x \in anc},
                      !.hb = hidB \cup IdsOf(Ev.nc), !.wb = hidB,
                      !.A = DiscardQubits(ControlledPauli(A, ZL(cc), XL(ct)),
                                          UNION {DataSet(code[x]) : x \in anc})]
         j == Judge(Ev, w)
     IN /\ bad' = j.bad /\ G' = j.G /\ A' = j.A /\ hidQ' = w.hq /\ hidB' = w.hb
        /\ IF makes /\ ~unbuildable /\ data # <<>>
           THEN /\ LET kind == IF Ev.asked THEN Ev.atype ELSE cc.type
                       dims == IF Ev.asked THEN ReqDims(Ev.atype, Ev.ad, Ev.apf) ELSE <<cc.dh, cc.dw>>
                   IN code' = tn :> MkCode(kind, Ev.treg \o "_" \o ToString(tn),
                                           IF Len(data) = dims[1] * dims[2] THEN dims ELSE <<Len(data), 1>>,
                                           data, IdsOf(Ev.nq)) @@ code
                /\ sub' = tn :> "ancilla" @@ sub
                /\ tn' = tn + 1
           ELSE UNCHANGED <<code, sub, tn>>
        /\ crs' = crs \o Bits(Ev)

(* Adding topological qubits to a register: all types are looked at before *)
(* anything is built; a lattice that cannot be built stops the addition    *)
(* after those already built.                                              *)
KnownTypes == {"Repetition", "XXZZ", "XZZX"}
TRegAdd ==
  /\ Ev.k = "treg_add"
  /\ LET n == Len(Ev.types)
         dims == [i \in 1..Len(Ev.ds) |-> IF i <= n /\ Ev.types[i] \in KnownTypes
                                          THEN ReqDims(Ev.types[i], Ev.ds[i], Ev.pfs[i]) ELSE <<>>]
         valueErr == Len(Ev.ds) # n \/ \E i \in 1..n : Ev.types[i] \notin KnownTypes
         good == [i \in 1..n |-> ~valueErr /\ DimsOK(Ev.types[i], dims[i], Ev.pfs[i])]
         upto == IF valueErr THEN 0
                 ELSE IF \A i \in 1..n : good[i] THEN n
                 ELSE (CHOOSE i \in 1..n : ~good[i] /\ \A m \in 1..i-1 : good[m]) - 1
         nm(i) == Ev.treg \o "_" \o ToString(tn + i - 1)
         datas == [i \in 1..upto |-> DataReg(Ev, nm(i))]
         own(i) == UNION {Range(Ev.nq[m].b) : m \in {m \in 1..Len(Ev.nq) :
                       \E s \in {"_data", "_mz", "_mx", "_ancilla"} : Ev.nq[m].n = nm(i) \o s}}
         alldata == UNION {Range(datas[i]) : i \in 1..upto}
         w == [Want0(Ev) EXCEPT
                 !.out = IF valueErr THEN "ValueError" ELSE IF upto < n THEN "LatticeError" ELSE "ok",
                 !.noop = TRUE,
                 !.nq = UNION {RegsOf(nm(i), dims[i][1], dims[i][2]) : i \in 1..upto},
                 !.hq = hidQ \cup (IdsOf(Ev.nq) \ alldata),
                 !.A = A \cup FreshQ(alldata)]
         j == Judge(Ev, w)
         usable == \A i \in 1..upto : Len(datas[i]) = dims[i][1] * dims[i][2]
         look == [x \in tn..tn+upto-1 |-> Ev.sub]
     IN /\ bad' = IF j.bad = "" /\ ~usable THEN "unusable lattice" ELSE j.bad
        /\ G' = j.G /\ A' = j.A /\ hidQ' = w.hq
        /\ code' = IF usable THEN [x \in tn..tn+upto-1 |->
                       MkCode(Ev.types[x-tn+1], nm(x-tn+1), dims[x-tn+1], datas[x-tn+1], own(x-tn+1))] @@ code
                   ELSE code
        /\ sub' = look @@ sub
        /\ tn' = tn + upto
  /\ crs' = crs \o Bits(Ev) /\ UNCHANGED hidB

(* Look-up by number (found: the number of the returned qubit, -1 = none), *)
(* or by sub-register name (found: the numbers in it).                     *)
TRegGet ==
  /\ Ev.k \in {"treg_get", "treg_sub"}
  /\ LET want == IF Ev.k = "treg_get"
                 THEN IF Ev.key \in DOMAIN sub THEN {Ev.key} ELSE {}
                 ELSE {x \in DOMAIN sub : sub[x] = Ev.name}
         out == IF want = {} THEN IF Ev.k = "treg_get" THEN "ValueError" ELSE Ev.out ELSE "ok"
         j == Judge(Ev, [Want0(Ev) EXCEPT !.out = out, !.noop = TRUE])
     IN /\ bad' = IF j.bad # "" THEN j.bad
                  ELSE IF "lookup" \in Clauses /\ Range(Ev.found) # want
                       THEN "look-up found " \o ToString(Ev.found) \o ", specified " \o ToString(want)
                  ELSE ""
        /\ G' = j.G /\ A' = j.A
  /\ UNCHANGED <<code, hidQ, hidB, crs, tn, sub>>

(* An operation on a number that names no qubit is refused. *)
TBad ==
  /\ Ev.k = "tbad"
  /\ LET j == Judge(Ev, Refused(Ev, "ValueError")) IN bad' = j.bad /\ G' = j.G /\ A' = j.A
  /\ UNCHANGED <<code, hidQ, hidB, crs, tn, sub>>

(* The circuit interprets a string as the qubit itself does, and nothing else happens. *)
TParse ==
  /\ Ev.k = "tparse"
  /\ LET j == Judge(Ev, [Want0(Ev) EXCEPT !.noop = TRUE])
     IN /\ bad' = IF j.bad # "" THEN j.bad
                  ELSE IF "lookup" \in Clauses /\ Ev.got # Ev.want
                       THEN "interpretation " \o ToString(Ev.got) \o " by the circuit, " \o ToString(Ev.want) \o " by the qubit"
                  ELSE ""
        /\ G' = j.G /\ A' = j.A
  /\ UNCHANGED <<code, hidQ, hidB, crs, tn, sub>>

(* Building a decoder for a code: only its refusals are judged here. *)
Dec ==
  /\ Ev.k = "dec"
  /\ LET want == IF DimsOK(Ev.type, ReqDims(Ev.type, Ev.d, Ev.pf), Ev.pf) THEN "ok" ELSE "LatticeError"
     IN bad' = IF Must("outcome", Ev) /\ Ev.out # want
               THEN "decoder: outcome " \o Ev.out \o ", specified " \o want ELSE ""
  /\ UNCHANGED <<G, A, code, hidQ, hidB, crs, tn, sub>>

(* An executed run: the result string, field by field, leftmost first.     *)
(* It must list all registers, newest first, bit 0 rightmost, and its bits *)
(* must satisfy every classical relation of the specified state.           *)
ParityOf(S, val) == Cardinality({b \in S : val[b] = 1}) % 2
Executed ==
  /\ Ev.k = "run"
  /\ LET n == Len(crs)
         shape == Len(Ev.fields) = n /\ \A i \in 1..n : Len(Ev.fields[i]) = Len(crs[n + 1 - i])
         val == [b \in UNION {Range(crs[i]) : i \in 1..n} |->
                   LET i == CHOOSE i \in 1..n : b \in Range(crs[i])
                       p == CHOOSE p \in 1..Len(crs[i]) : crs[i][p] = b
                   IN Ev.fields[n + 1 - i][Len(crs[i]) + 1 - p]]
         laws == {r \in A : r[1] = {} /\ r[2] = {}}
     IN bad' = IF Ev.out # "ok" THEN "execution failed: " \o Ev.out
               ELSE IF ~shape THEN "result string does not list the registers newest first"
               ELSE IF \E r \in laws : ParityOf(r[3], val) # r[4] \div 2
                    THEN "result string contradicts the specified record"
               ELSE ""
  /\ UNCHANGED <<G, A, code, hidQ, hidB, crs, tn, sub>>

(* The environment: the user's own gates and registers, applied alike. *)
User ==
  /\ Ev.k = "user"
  /\ LET add == FreshQ(IdsOf(Ev.nq)) \cup FreshB(IdsOf(Ev.nc))
         g == Run(G \cup add, Ev.ins)
         a == Run(A \cup add, Ev.ins)
     IN /\ bad' = IF g[2] # "" \/ a[2] # "" THEN "bad user event" ELSE ""
        /\ G' = g[1] /\ A' = a[1]
  /\ crs' = crs \o Bits(Ev) /\ UNCHANGED <<code, hidQ, hidB, tn, sub>>

(* The environment: arbitrary input state.  Every listed qubit becomes one *)
(* half of a Bell pair whose other half is a reference nobody can touch.   *)
Bell(H, Q) == DiscardQubits(H, Q) \cup {<<{q, RefId(q)}, {}, {}, 0>> : q \in Q}
                                  \cup {<<{}, {q, RefId(q)}, {}, 0>> : q \in Q}
Entangle ==
  /\ Ev.k = "bell"
  /\ G' = Bell(G, Range(Ev.qs)) /\ A' = Bell(A, Range(Ev.qs)) /\ bad' = ""
  /\ UNCHANGED <<code, hidQ, hidB, crs, tn, sub>>

---------------------------------------------------------------------------
Init ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1 /\ G = {} /\ A = {} /\ code = <<>> /\ hidQ = {} /\ hidB = {} /\ crs = <<>> /\ tn = 0 /\ sub = <<>>
  /\ bad = ""

Step == New \/ Op \/ TCx \/ TRegAdd \/ TRegGet \/ User \/ Entangle \/ Dec \/ Executed \/ TBad \/ TParse

Next ==
  /\ bad = "" /\ l <= Len(Traces[tr].ev)
  /\ Step
  /\ l' = l + 1
  /\ tr' = tr
  /\ IF bad' # "" THEN PrintT(<<"REJECT", Traces[tr].id, l, bad'>>)
     ELSE IF l' > Len(Traces[tr].ev) THEN PrintT(<<"ACCEPT", Traces[tr].id, l>>)
     ELSE TRUE

Spec == Init /\ [][Next]_vars
===========================================================================
