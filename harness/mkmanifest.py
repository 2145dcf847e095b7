"""Regenerates MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "C01": "TLA+ spec Quantizer.tla: exhaustive TLC model of the rounding relation on a grid, every model case and random wide cases replayed through the code, each recorded event judged exactly by TLC",
 "C02": "TLA+ spec Quantizer.tla: round trip, half-step and monotonicity model-checked; recorded quantise/dequantise events judged exactly by TLC",
 "C03": "TLA+ spec Quantizer.tla: policy relation model-checked; recorded policy events judged by TLC",
 "C04": "TLA+ spec Quantizer.tla: TLC computes every entry of recorded lookup tables and judges table-driven layers",
 "C05": "TLA+ spec Lut.tla: run-length reduction model-checked over every small table; all model tables replayed through the code, answers judged by TLC",
 "C06": "TLA+ spec Typed.tla: widening arithmetic model-checked over boundary values and operation chains; TLC-generated cases and random chains judged by TLC",
 "C08": "TLA+ spec Engine.tla: exact accumulator and requantisation relation, model-checked on every small layer (FCMC), replayed through the layer; random layers judged exactly by TLC",
 "C09": "TLA+ spec Engine.tla/ScaleMC.tla: fixed-point multiplier model-checked; recorded products judged exactly by TLC",
 "C10": "TLA+ spec Engine.tla/QLinMC.tla: round-half-even product and addition relations model-checked; cases replayed, recorded layers judged exactly by TLC",
 "C11": "TLA+ spec Engine.tla/BatchMC.tla: row-wise semantics; recorded batches, singles and permutations of layers and networks judged by TLC",
 "C12": "TLA+ spec NetworkMC.tla state machine of loading and layered inference explored by TLC, every history replayed on real networks; state-carrying trace spec (Engine.tla) judges loads, inferences and intermediate results",
 "C13": "TLA+ spec Lstm.tla: gate recurrence; LstmMC state machine explored by TLC, histories replayed; every recorded intermediate tensor of every time step judged exactly by TLC",
 "C14": "TLA+ spec Lstm.tla: layer as a function of the input prefix; LstmMC explored by TLC, call histories replayed; trace spec carries facts from earlier calls to later ones",
 "C24": "TLA+ specs Engine.tla and Transc.tla (exact exponential): element-wise layer relations judged by TLC on recorded layers",
 "C15": "TLA+ spec Calib.tla: representation relation model-checked over every small integer range and type (CalibMC); all ranges replayed, random samples and layer calibrations judged exactly by TLC",
 "C25": "TLA+ spec Calib.tla: histogram and interval relations judged exactly by TLC on recorded distributions, including every interval of the small grid generated by TLC (HistMC)",
 "C16": "TLA+ spec Node.tla: state machine of tensor nodes, tables and hooks; NodeMC explored by TLC and its histories replayed on real nodes; every observation judged by the state-carrying trace spec",
 "C17": "TLA+ spec Node.tla (bias links) and DenseMC.tla: dependency state machine explored by TLC, histories replayed on real chains of dense and recurrent layers and after real searches; observations judged by TLC",
 "C18": "TLA+ spec Search.tla: optimisation histories; SearchMC explored by TLC over every loss landscape of small grids, its loss scripts replayed on the real search; every evaluation and end point of real searches over nodes and whole networks judged by the state-carrying trace spec",
 "C19": "TLA+ spec Search.tla/RoundMC.tla: annealing plus greedy phase explored by TLC over every cost function of small tensors; cost scripts replayed, every evaluation and result of real rounding searches judged by the state-carrying trace spec",
 "C20": "TLA+ spec Qubo.tla: exact energies and reconstruction errors; QuboMC explored by TLC over small layers which are replayed on both formulations; problems, solutions and applied policies of real layers judged by the state-carrying trace spec",
    "C21": "TLA+ spec Export (exporter state machine + relation of file to model, with Engine/Lstm for its execution), TLC-enumerated model structures built with the real exporter, trace validation of written files and their inference by TLC",
    "C22": "TLA+ spec Convert (TLC): converters as state machines, every source sequence replayed through the three converters, files judged by trace validation",
    "C23": "TLA+ spec Remote (TLC): request/answer protocol model-checked over all delays, duplicates and losses; TLC schedules replayed on the real client, calls judged by trace validation",
 "C26": "TLA+ spec Trim.tla: trimming relations; TrimMC explored by TLC over every small sample set and share, which are replayed through the code; trimmed distributions, reduced histograms and trimmed layers judged exactly by TLC",
 "C27": "TLA+ spec Config.tla: state machine of several live configurations; ConfigMC explored by TLC and its histories replayed on real objects; fields of all live objects after every operation and the networks built from them judged by the state-carrying trace spec",
 "C28": "TLA+ spec Quality.tla (exact counts, logarithm in dyadic arithmetic): QualityMC explored by TLC over small samples and grids, which are replayed; recorded measures judged by TLC",
 "C07": "TLA+ spec Quantizer.tla: type ranges; recorded accepted/rejected names judged by TLC",
}
NOTE = "TLC explores the specification exhaustively within small constants and judges every recorded event of the real code in exact arithmetic; inputs of the real code beyond the model's cases are sampled (seeded). Trusted: TLC, the event recorder, documented binary64 tolerances."
extra = {}
p = os.path.join(V, "harness", "manifest_extra.json")
if os.path.exists(p):
    extra = json.load(open(p))
TECH.update(extra.get("technique", {}))
checks = [dict(property=q["id"], quick_cmd=f"python3 check.py {q['id']}", thorough_cmd=f"python3 check.py {q['id']} --thorough",
               technique=TECH[q["id"]], level="model_checking", level_note=extra.get("note", {}).get(q["id"], NOTE)) for q in props if q["id"] in TECH]
na = [dict(property=q["id"], reason=extra.get("not_applicable", {}).get(q["id"], "check under construction: not claimed yet")) for q in props if q["id"] not in TECH]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
