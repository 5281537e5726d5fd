"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLA+ specification (spec/%s) checked with TLC; histories generated by TLC from the specification are replayed into "
         "the real code and the recordings are validated by TLC as behaviours of the specification")
CIRC = TRACE % "Stab, Surface, CircuitTrace, ApiGen"
SYM = ("Every recorded call is compared with its specified effect as a transformation of signed stabilizer groups over qubits and "
       "classical bits, so one trace covers every measurement outcome; input states are arbitrary (data Bell-paired with references) "
       "or produced by random histories. Histories, codes and dimensions are sampled up to stated sizes. Trusted: the recorder's "
       "reading of the circuit's instructions, and TLC.")
NOTE = {
 "C11": "Executed on the Aer stabilizer simulator: TLC predicts every field of the result string of random histories. Trusted: Aer.",
 "C12": "All strings for small lattices, random ones for larger: the recorded parse is compared with Parse.tla. Trusted: TLC.",
 "C13": "Every single fault on small codes and random fault sets; the specification predicts the whole result string of the run on Aer. Trusted: Aer.",
 "C14": "The decoder's graph, read through its public attribute S, is compared with DecodeGraph.tla for all dimensions up to the stated size.",
 "C15": "All hit sets of small graphs, structured random ones of larger; TLC computes the weight of the best explanation of each class exactly.",
 "C16": "TLC enumerates or samples fault sets up to (d-1)/2 and proves for the model that the specified decoder corrects them; each experiment is run on Aer and decoded by the real decoder.",
 "C17": "Weights and path counts are computed exactly by TLC; comparisons with logarithms use certified integer bounds, ties are left free.",
 "C18": "Histories of calls on long-lived and fresh objects; TLC checks that a question has one answer for ever and that arguments stay intact.",
 "C19": "Histories of set/reset/ask; probabilities are compared with exact integers to 1/10000.",
 "C20": "Real decoders on random strings and decoders with given answers on all small tables; TLC computes the rate from the decoded values.",
 "C21": "Serial and parallel sweeps through the real simulator with noise models that label each rate; forced completion orders. The design of saving (SaveModel) is model checked exhaustively.",
 "C22": "The save design (SaveModel) is model checked with crashes between any two file operations and two broken designs are rejected; the real code is killed or made to fail at every executed line, sampled lines below and byte counts, and TLC checks what the files hold.",
 "C26": "Every step is judged by itself: nodes, edges and weights of the error graph, the matching against the exact least weight, the matched graph.",
 "C27": "The artists of the drawing (marks, lines, texts) are read back and compared by TLC with the graph that was drawn. Trusted: the harness's reading of matplotlib figures.",
 "C28": "All short and random long histories generated by TLC; registers of the circuit and meanings of names after each call are compared with the specified step.",
 "C23": "Files written by the code and by the harness in all orders; TLC compares what is loaded and drawn with what the files hold.",
}
TECH = {"C11": "Stab, Surface, CircuitTrace, ApiGen", "C12": "Parse, ParseTrace", "C13": "FaultModel, Parse", "C14": "DecodeGraph, DecodeTrace",
        "C15": "DecodeGraph, DecodeTrace", "C16": "FaultModel, DecodeGraph", "C17": "DecodeGraph, DecodeTrace", "C18": "CallHistory",
        "C19": "LookUp", "C20": "BenchTrace", "C21": "BenchTrace, BenchGen, SaveModel", "C22": "BenchTrace, BenchGen, SaveModel",
        "C26": "DecodeGraph, DecodeTrace", "C27": "Draw", "C28": "OwnRegs",
        "C23": "BenchTrace, BenchGen"}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python harness/run.py " + p,
                       thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python harness/run.py " + p,
                       technique=TRACE % TECH[p] if p in TECH else CIRC, level="model_checking", level_note=NOTE.get(p, SYM)))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo are needed. known_findings.json lists the repaired defects; none is open."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
