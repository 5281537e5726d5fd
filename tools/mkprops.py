"""Writes properties.jsonl (one place to edit titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
        observe_at=observe or [], hook_needed=None)))
B='qtcodes/circuits/base.py'; RS='qtcodes/circuits/rotated_surface.py'; XX='qtcodes/circuits/xxzz.py'; XZ='qtcodes/circuits/xzzx.py'
RP='qtcodes/circuits/repetition.py'; CI='qtcodes/circuits/circ.py'; FB='qtcodes/fitters/base.py'; LD='qtcodes/fitters/lattice_decoder.py'
FR='qtcodes/fitters/rotated_surface.py'; FP='qtcodes/fitters/repetition.py'; BM='qtcodes/tools/benchmarking.py'

prop('C01','A topological qubit has exactly the lattice that was asked for, or is refused',
 "For every odd height and width and every accepted way of writing them (a number, a pair, the default; for repetition codes also the protection flag), building a topological qubit adds to the circuit exactly one quantum register per role - height*width data qubits, one syndrome qubit per Z-type and per X-type plaquette of the rotated lattice (no register for a type without plaquettes), one ancilla - named after the qubit and its role, and no gates. Every other request (even, zero or negative dimension, wrong number of dimensions, a repetition lattice along the wrong axis, a repetition d that is neither number nor tuple) is refused with LatticeError by the encoder, and by the decoder of the same code, and leaves a circuit that was passed in unchanged.",
 ['inputs','configurations'],"all code types, all dimensions, all spellings of the parameters, fresh and shared circuits",
 "Tests build a handful of small valid lattices and four wrong repetition shapes; none checks the registers, the encoder's refusal of surface-code dimensions, or the state of a shared circuit after a refusal.",
 [B,RS,RP,FR,FP],[('parameter validation and register generation',RS+' _params_validate_and_generate/_gen_registers'),('repetition parameters',RP+' _validate_params'),('decoder validation',FR+' _params_validation')],
 [('registers','data/mz/mx/ancilla registers of one lattice','lattice.qregisters')],['circuit qregs/cregs after construction'])

prop('C02','A stabilizer round measures exactly the plaquettes, and nothing else',
 "After any history and for any state of the data qubits, one stabilizer round measures every plaquette operator of the lattice (X/Z parity of its two or four neighbours; for XZZX the same after a Hadamard on every even data qubit) exactly once and records it in one fresh classical register in the documented order (Z plaquettes from bit 0 up in row-major order, then X plaquettes). Nothing else about the data qubits, other qubits or earlier record is disturbed, so a logical qubit encoded in them survives and a second round repeats the first.",
 ['histories','inputs','configurations'],"all code types and dimensions, all data states (also entangled with the outside), all earlier call histories, all measurement outcomes",
 "Tests look at hits of a single error on 3x3..3x5 lattices in two product states; a plaquette measured in the wrong basis order, residual entanglement with an ancilla, or a wrong bit order on other sizes or in superpositions is invisible to them.",
 [RS,XX,XZ],[('plaquette circuits',XX+' _XXXX/_ZZZZ.entangle'),('XZZX plaquette circuit',XZ+' _XZZX.entangle'),('lattice geometry',RS+' _set_geometry'),('round and measurement order',RS+' RotatedQubit.stabilize')],
 [('syndrome register','bits of one round','<name>_c<T>')],['joint state of data qubits and classical record after the call'])

prop('C03','Resets and logical X/Z act as on one ideal qubit',
 "A logical reset puts the lattice in the +1 eigenstate of the asked basis (every data qubit in that basis, so the logical operator and all plaquettes of that type read +1) whatever was there before, and the logical X and Z apply exactly the left-column and top-row logical operator: they anticommute with each other, commute with every plaquette, and change neither syndromes, other qubits nor the classical record. Any sequence of them acts as the same sequence on one ideal qubit.",
 ['histories','inputs','configurations'],"all sequences of resets and logical gates interleaved with stabilizer rounds and readouts, all code types and dimensions, all input states",
 "No test applies a logical gate at all, and resets are only used once, on fresh |0> qubits; only histories with earlier content, entangled or non-eigenstate inputs tell a correct reset or gate from a wrong one.",
 [XX,XZ,B],[('logical operators and resets',XX+' reset_x/reset_z/x/z'),('XZZX logical operators and resets',XZ+' reset_x/reset_z/x/z')])

prop('C04','A logical readout reports the logical value without destroying it',
 "A logical X or Z readout, at any point of any history and for any state, performs exactly a projective measurement of that logical operator: one bit lands in a fresh one-bit register of the qubit, or in the register the caller supplied, and the data qubits are otherwise untouched. Repeating it gives the same value, syndromes do not change, and later readouts of any kind agree with it.",
 ['histories','inputs','configurations'],"all histories, all states (superpositions, entangled logical qubits), own and caller-supplied registers, all code types and dimensions, all outcomes",
 "Tests read out once, at the end, from an eigenstate; they cannot see a readout that collapses too much, leaves the ancilla entangled, or mistreats an ancilla used by an earlier call.",
 [XX,XZ,B],[('readout through the ancilla',XX+' _readout_x_into_ancilla/_readout_z_into_ancilla/readout_x/readout_z'),('XZZX readout',XZ+' readout_x/readout_z')])

prop('C05','A lattice readout yields the logical value and a last round of syndromes',
 "Measuring out the lattice in the X (Z) basis records every data qubit in that basis, in register order, in one fresh register; the parities of that record over the plaquettes of that type and over the logical operator are exactly what a stabilizer round and a logical readout at that point would have reported, and other qubits and records are untouched.",
 ['histories','inputs','configurations'],"all histories, all states, all code types and dimensions, all outcomes",
 "No test uses a lattice readout at all, neither the circuit nor the form of result string it produces.",
 [XX,XZ,RS],[('lattice readout',XX+' lattice_readout_x/lattice_readout_z'),('XZZX lattice readout',XZ+' lattice_readout_x/lattice_readout_z')])

prop('C06','A conditioned logical gate fires exactly when the register has the given value',
 "A classically conditioned logical X or Z applies the whole logical operator when the classical register holds exactly the given value, and does nothing otherwise, for every register size and value; it never changes the classical record, syndromes or other qubits.",
 ['inputs','histories','configurations'],"all register contents and values (deterministic and random bits), one- and multi-bit registers, all code types and dimensions, all data states",
 "No test calls the conditioned gates.",
 [XX,XZ,B],[('conditioned logical gates',XX+' x_c_if/z_c_if'),('XZZX conditioned logical gates',XZ+' x_c_if/z_c_if')])

prop('C07','CX between a physical and a topological qubit is a true controlled NOT',
 "With a physical control the logical X is applied exactly when the control is 1; with a physical target the target is flipped exactly when the logical Z value is -1; in superposition both behave as one coherent CNOT that entangles nothing else and can be undone by repeating it. A call with neither or both of control and target is refused with ValueError and adds nothing to the circuit.",
 ['inputs','histories','configurations'],"all joint states of the physical and the topological qubit (also entangled), all histories, all code types and dimensions",
 "No test calls cx; computational-basis runs would not have shown the decoherence that was found here.",
 [XX,XZ,B],[('logical CX',XX+' cx'),('XZZX logical CX',XZ+' cx'),('argument check',B+' TopologicalQubit.cx')])

prop('C08','CX between two topological qubits is a logical CNOT, for every pair and use',
 "For any two topological qubits of a register, of any types and sizes, in any joint state and at any point of the history, the circuit-level CX acts on them exactly as a CNOT between their logical qubits, whatever the outcomes of its internal measurements and however often it has been used before; no other topological qubit (outside the sub-register of ancillas) or earlier record changes. An ancilla type given without ancilla parameters, or the reverse, is refused with ValueError and changes nothing.",
 ['histories','inputs','configurations'],"all pairs of code types and dimensions, all joint logical states, all outcomes of the internal measurements, repeated and chained CXs, default and explicit ancilla",
 "circ.py is not imported by any test.",
 [CI,XX,XZ],[('lattice surgery CNOT',CI+' TopologicalCircuit.cx')],
 [('ancilla sub-register','the shared ancilla topological qubit','TopologicalRegister.tqubits["ancilla"]')])

prop('C09','Topological qubits that share a circuit or parameters never influence each other',
 "Any number of topological qubits may be built on one circuit, also from one and the same parameter dictionary: an operation on one of them acts only on its own qubits and adds only its own classical registers, each keeps its own round and readout numbering, and the caller's parameter dictionary and the circuit's earlier contents are not altered by any of it.",
 ['histories','configurations'],"all interleavings of calls on several qubits, shared or separate circuits, shared or separate parameter dictionaries, all code types",
 "Every test builds one topological qubit per circuit.",
 [B,RS,RP,CI],[('own copy of params',B+' _TopologicalLattice.__init__'),('per-qubit register names and counters',RS+' stabilize; '+XX+' readout_*')])

prop('C10','A topological register and circuit address exactly the qubit that was named',
 "Topological qubits get consecutive indices in order of creation across all sub-registers; indexing by number or sub-register returns exactly those, an unknown number is refused with ValueError, and every circuit-level operation given an index or the qubit itself acts on that qubit exactly as its own method would. Mismatched or unknown types and unbuildable qubits are refused (ValueError; LatticeError for dimensions), a list with an unknown type or wrong length adds nothing, and a refusal leaves register and circuit usable as before.",
 ['histories','inputs'],"all sequences of additions (also failing ones) to any sub-registers, look-ups and circuit-level operations",
 "circ.py is not imported by any test.",
 [CI,'qtcodes/circuits/qubit_types.py'],[('add and look up',CI+' TopologicalRegister.add_tqubits/add_tqubit/__getitem__'),('dispatch',CI+' TopologicalCircuit._get_index and operations')])

prop('C11','The classical record only grows, newest entry first in the result string',
 "Every stabilizer round, own-register readout and lattice readout of a history appears exactly once in the measured result string as its own space-separated field, newest first, with bit 0 rightmost; no call ever changes a field recorded by an earlier one. Hence the string of an actual run, fed unchanged to the parser, is read as (readout, last round, ..., first round).",
 ['histories','configurations'],"all histories of rounds and readouts on one or several qubits, all code types and dimensions, executed on the simulator",
 "Tests always run exactly two rounds and one readout.",
 [RS,XX,XZ],[('fresh numbered registers',RS+' RotatedQubit.stabilize'),('fresh readout registers',XX+' readout_*/lattice_readout_*')])

prop('C12','Parsing a result string is exact for every string, form, size and round count',
 "For every result string - a logical readout bit or a full lattice readout, followed by any number of rounds - parsing returns the logical value and, for each type, exactly the plaquettes whose value changed between consecutive rounds, each once, as (index of the later round minus one, row, column) of the plaquette's centre; a lattice readout contributes the logical parity and one more round for its own type only. Encoder and decoder of a code parse alike.",
 ['inputs','configurations'],"all result strings of both forms, any number of rounds, all dimensions, both readout types",
 "Tests parse strings with two rounds and at most one error on 3x3..3x5 lattices, never the lattice-readout form; they only check that reported hits are expected ones, not that all are reported.",
 [RS,LD,FP],[('string parsing',RS+' _RotatedLattice.parse_readout'),('lattice-readout extraction',RS+' extract_final_stabilizer_and_logical_readout_x/z'),('decoder parsing',LD+' parse_readout')])

prop('C13','A physical error shows at exactly the neighbouring plaquettes of the next round',
 "In an executed circuit, any Pauli error on any data qubit between two rounds changes, in the next recorded round and in no other, exactly the X- (Z-) type plaquettes next to it that anticommute with it, and changes the logical readouts exactly when it anticommutes with that logical operator; errors combine by addition modulo two and errors on one topological qubit never show in the record of another.",
 ['fault_sequences','configurations','inputs'],"all data qubits, all Pauli errors and combinations of them, all times, all code types and dimensions, both readout types and forms",
 "Tests inject single X/Z errors between the first two rounds and accept a missing hit; combinations, Y errors, later rounds, lattice readouts and the conjugated error type of XZZX are never tried.",
 [RS,XX,XZ],[('plaquette circuits',XX+' _XXXX/_ZZZZ; '+XZ+' _XZZX'),('parsing',RS+' parse_readout')])

prop('C14','The decoding graph is exactly the graph of single faults',
 "For every code, dimensions and number of rounds, the decoder's graph of a type has one node per plaquette of that type and round comparison, one boundary node per boundary site, and exactly one unit-weight edge for every single fault: data errors join the two plaquettes (or plaquette and boundary) next to the qubit at the same time, measurement errors join a plaquette to itself at the next time. Nothing is missing, duplicated or extra.",
 ['configurations'],"all odd dimensions (also 1 x n and n x 1 for the type the code has), all numbers of rounds",
 "Tests only use the graph implicitly for single errors with one round comparison on a few small lattices.",
 [FR,FP,LD],[('graph construction',FR+' _make_syndrome_graph/_populate_syndrome_graph/_valid_syndrome/_specify_virtual')])

prop('C15','Decoding returns the logical value of a least-weight explanation of the hits',
 "For every set of hits and either measured value, the corrected value is the measured value flipped exactly if a set of data and measurement faults of least total weight that explains the hits crosses the logical operator an odd number of times (either answer when both classes tie). This holds for both readout types, any dimensions and number of rounds, and however the hits are ordered.",
 ['inputs','configurations'],"all hit sets, both measured values, both types, all dimensions and numbers of rounds",
 "Tests decode single errors with one round comparison; pairs across time, several hits sharing a boundary, odd/even counts and ties never occur there.",
 [LD,FR],[('matching',LD+' _make_error_graph/_run_mwpm/_corrections/correct_readout'),('boundary crossing',FR+' _is_crossing_readout_path')])

prop('C16','A distance-d code corrects every combination of up to (d-1)/2 faults',
 "Encode a logical eigenstate, run rounds, suffer at most (d-1)/2 faults - Pauli errors on data qubits between the first and last round and flipped syndrome bits in rounds other than first and last, where d is the distance against that readout's errors - and read out: decoding the actual result string returns the encoded value, for logical and lattice readouts, without degeneracy weighting or with it for a small error probability, for every code.",
 ['fault_sequences','configurations'],"all fault sets up to half the distance, all code types, dimensions, numbers of rounds, both encoded values and readout types and forms",
 "Tests cover one data error and two rounds, encoded value +1 only; no measurement errors, no two-fault combinations, no logical-1 states.",
 [RS,XX,XZ,LD,FR],[('encode, record, parse, match','all circuits and fitters modules')])

prop('C17','Degeneracy weighting prefers the class of the likelier matching',
 "Given an error probability 0 < p < 1/2, each candidate match of two hits (or of a hit and the boundary) is weighted by its length minus ln(number of shortest paths)/ln((1-p)/p), where paths to equally close boundary sites are added up, and the corrected value is that of a matching of least total weight; with the probability omitted, path counts play no role.",
 ['inputs','configurations'],"all hit sets, all p in (0, 1/2), both types, all dimensions and numbers of rounds; answers within the weight resolution of a tie are left open",
 "No test passes an error probability.",
 [LD],[('path degeneracy',LD+' _path_degeneracy/_path_degeneracy_helper'),('weights',LD+' _make_error_graph, _run_mwpm')])

prop('C18','Decoding and parsing are repeatable and leave their arguments alone',
 "A decoder or qubit gives the same answer to the same question however many and whatever other questions were asked before and however its argument is given (result string, or measured value and hits parsed from it), equals the answer of a freshly built one, and modifies neither the parameters it was built from, the hits, result strings, dictionaries nor circuits passed to it. A decoder's code is fixed by its parameters as given when it is built, whatever the caller does with them afterwards.",
 ['histories','inputs'],"all sequences of decoding, parsing and look-up calls on one decoder, all argument forms",
 "Every test asks one question of a new decoder at a time, always in string form.",
 [LD,FB,RS],[('no caller list changed',LD+' _make_error_graph'),('encoder kept by the decoder',LD+' encoder')])

prop('C19','Look-up-table decoding returns the likelier value by Bayes\' rule',
 "After tables of observed counts have been set per readout type and prepared value (the latest setting counts, resetting empties all of them), the probability of each value given an observed string is exactly Bayes' rule with each table's relative frequencies and the given (by default even) prior, and decoding returns the likelier value, 0 on a tie. Tables of other types and strings not asked about have no influence.",
 ['histories','inputs'],"all sequences of setting and resetting tables, all count tables with different totals, all observed strings, priors",
 "No test uses the look-up table.",
 [FB],[('tables and Bayes rule',FB+' set_look_up_table/reset_look_up_table/_run_look_up/correct_readout_look_up_table')])

prop('C20','The logical error rate is the fraction of shots decoded to the wrong value',
 "For every set of result strings with counts and either expected value, the logical error rate is the number of shots whose string decodes (with the given error probability, if any) to a different value than expected, divided by the number of shots.",
 ['inputs','configurations'],"all count dictionaries, expected values, codes, error probabilities",
 "The benchmarking module is only imported by tests; their own helper computes rates.",
 [BM],[('rate',BM+' TopologicalBenchmark.logical_error_rate')])

prop('C21','A sweep pairs every physical error rate with its own logical error rate',
 "A sweep, serial or parallel, over any list of physical error rates (between 0 and 1/2 where errors are weighted by degeneracy) simulates each of them once with its own noise model and the asked number of shots and reports both lists in increasing order of physical rate, each logical rate at the index of the physical rate it belongs to; a new sweep starts afresh and the caller's list is not changed.",
 ['inputs','schedules','histories'],"all lists of rates in any order and with repeats, serial and parallel sweeps, repeated sweeps, with and without degeneracy weighting",
 "No test runs a sweep.",
 [BM],[('sweeps',BM+' sweep/sweep_mp/single')])

prop('C22','Saved benchmark data accumulate and survive interruptions',
 "Every point saved under a code's file, by serial or parallel sweeps, single runs or direct saves and across processes following each other, is in that file with its pair, sorted by physical rate, together with d and T, and no earlier point is ever lost, altered or duplicated; if the process dies at any moment of a save, or the save fails or is interrupted, the file holds either exactly the points before or those and the new one, and later saves continue from it.",
 ['histories','crash_points','schedules'],"all sequences of saves and sweeps, crashes at every file operation, parallel sweeps in every completion order",
 "No test saves benchmark data.",
 [BM],[('atomic append',BM+' append_data'),('only the parent saves',BM+' sweep_mp')])

prop('C23','Analyses load and show exactly the saved data, codes in increasing order',
 "Loading a saved file returns its dimensions, rounds and both rate lists unchanged; a batch over a directory prefix loads every file there once and orders the codes by increasing height; a plot draws exactly the loaded points on the given axes (new ones if none are given), divided by the number of rounds if asked, on logarithmic scales only if asked.",
 ['inputs','configurations'],"all sets of saved files in any creation order, all data, all plot options",
 "No test uses the analysis classes.",
 [BM],[('load',BM+' TopologicalAnalysis.load_data/plot'),('batch',BM+' TopologicalBatchAnalysis')])

prop('C24','Noise markers cover each qubit of the lattice exactly once and do nothing else',
 "Inserting identity markers puts exactly one identity on every data, syndrome and ancilla qubit of that topological qubit, or on every data qubit only when asked for data only, never on any other qubit, and leaves states and the classical record unchanged; so a noise model on identities hits exactly those qubits once per marker.",
 ['configurations','histories'],"all code types and dimensions, any position in the history, several qubits on one circuit, through the qubit or the circuit",
 "No test inserts markers.",
 [B,CI],[('markers',B+' TopologicalQubit.id/id_data'),('circuit level',CI+' TopologicalCircuit.id/id_data')])

prop('C25','Entangling one type of plaquettes measures exactly those plaquettes',
 "Asking a lattice to entangle only its X-type or only its Z-type plaquettes (or all), at any point of any history and for any state of the data qubits, brings onto the fresh syndrome qubit of each plaquette of that type, in their order, exactly that plaquette's parity: measuring these syndrome qubits then is the same as measuring those plaquette operators, each once, and nothing else about the data qubits, the other type, other qubits or the classical record changes. Where a lattice has no plaquettes of that type, nothing is added to the circuit.",
 ['histories','inputs','configurations'],"all code types and dimensions (also one-dimensional ones, which lack a type), all states, any point of the history",
 "No test entangles one type alone.",
 [RS,B],[('partial rounds',RS+' _RotatedLattice.entangle_x/entangle_z'),('plaquette loop',B+' _TopologicalLattice.entangle')])

prop('C26','Each step of decoding is exact: error graph, matching, matched graph',
 "For every set of hits of a type, the error graph has as nodes exactly the hits and all boundary sites of that type (besides padding that is joined to boundary sites only, at no cost); any two of them are joined once, boundary sites at no cost, all others with the weight minus the length of the shortest fault path between them, less ln(number of shortest paths)/ln((1-p)/p) if an error probability is given. The matching pairs every hit exactly once, with another hit or a boundary site, uses no boundary site twice, lists no pair of two boundary sites, and has the least total length; the matched graph shows such a matching with those weights. Neither the hits nor the error graph passed in are modified.",
 ['inputs','configurations'],"all hit sets, both types, all dimensions and numbers of rounds, with and without an error probability",
 "Tests only look at the final corrected value, where errors of two steps may cancel and where most wrong weights do not show.",
 [LD],[('error graph',LD+' _make_error_graph'),('matching',LD+' _run_mwpm'),('matched graph',LD+' _run_mwpm_graph')])

prop('C27','A drawn decoding graph shows every node and edge in its place',
 "Drawing a decoding graph (syndrome, error or matched graph, also an empty one) marks every node of it exactly once, at its column to the right and its row downwards and, in three dimensions, its round upwards (boundary sites and padding at half height), labelled with its coordinates; joins exactly the pairs that have an edge by straight lines, each labelled at its middle with the weight to at least two decimals; uses the size, resolution, font, angle and display options given; and leaves the graph unchanged. Graphs of one round comparison are drawn in two dimensions, all others in three.",
 ['inputs','configurations'],"all graphs of all decoders, all drawing options",
 "No test draws a graph.",
 [LD],[('two dimensions',LD+' draw'),('three dimensions',LD+' draw3D')])

prop('C28','Named registers of a topological circuit are its own and are added once',
 "Adding a quantum or classical register by name to a topological circuit adds exactly one register of that kind and size to the underlying circuit (over existing bits if such are given), called so if no register of the circuit has that name yet and otherwise by an unused name, and makes the name mean it. Adding a name again changes nothing, unless it is asked to override: then a new register takes over the name and the old one stays in the circuit. Quantum and classical names are separate; a name never means a register of another topological circuit on the same quantum circuit, nor changes its meaning by other operations; an impossible register is refused and changes nothing.",
 ['histories','configurations'],"all histories of such calls and other operations on any number of topological circuits sharing a quantum circuit",
 "circ.py is not imported by any test.",
 [CI],[('registers by name',CI+' TopologicalCircuit.add_creg/add_qreg/_free_name')],[('register tables','what the circuit calls its registers','TopologicalCircuit.qreg/creg')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
