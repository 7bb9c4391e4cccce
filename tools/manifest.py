#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after an edit; no check uses it)."""
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"generated histories and parameters, invariant on the shape of the results, shrinking",
"C02":"metamorphic property: a history against its prefix",
"C03":"stateful generation of call sequences against fresh objects",
"C04":"generated sets of indicators run alone, interleaved and concurrently under the race detector, differential",
"C05":"generated histories, range and order invariants",
"C06":"generated histories, differential against crossing rules evaluated on the reported data",
"C07":"metamorphic property: scaled and shifted histories",
"C08":"differential between constructors over generated histories and parameters",
"C09":"generated strategy lists, differential against each strategy alone",
"C10":"generated pairs of parameters, differential against an indicator made with the second",
"C11":"stateful generation of changes to the candles, differential against a new indicator after each",
"T01":"differential against a reference model with error bounds",
"T02":"differential against a reference model with error bounds",
"T03":"differential against a bar-by-bar reference model with error bounds",
"T04":"differential against a reference model with error bounds",
"T05":"differential against a bar-by-bar reference state machine; model-based list operations",
"N01":"differential against a reference model with error bounds",
"O01":"differential against a reference model with error bounds",
"O02":"differential against a reference model with error bounds",
"V01":"differential against a reference model with error bounds",
"A01":"differential against direct evaluation of each window, random and small-scope exhaustive",
"A02":"algebraic laws over generated series",
"A03":"differential against direct search, random and small-scope exhaustive",
"A04":"generated series, capacities and pacings, differential against window sums",
"K01":"differential against direct aggregation, metamorphic two-step conversion, known findings replayed",
"K02":"model-based operation sequences against a list",
"K03":"validity predicate over generated and enumerated ranges",
"K04":"differential against the definitions over generated candles",
"B01":"model-based operation sequences against a multiset, random and small-scope exhaustive",
"B02":"model-based operation sequences against a slice",
"B03":"order laws over generated pairs and triples",
"H01":"generated inputs, capacities, pacings and compositions against slice counterparts, leak and deadlock detection",
"H02":"generated channel lists against slice comparison",
"L01":"optimality and differential checks against exact sums over generated points",
"U01":"validity predicate and differential over generated numbers",
"U02":"round trip and generated faults",
"U04":"round trip and differential of text forms over generated values",
"M01":"the built program run over generated data files, differential against each strategy alone; generated file faults",
"U03":"differential against a direct decision over generated instants",
}
NOTE="Random search with shrinking over generated inputs, a fixed number of cases per seed: it shows the presence of failures, not their absence. "
X={
"C04":NOTE+"Concurrent runs are those the scheduler gives; the race detector reports unsynchronised access it sees.",
"H01":NOTE+"Schedules are those random pacing on several threads gives, not all of them.",
"A04":NOTE+"Schedules are those random pacing on several threads gives, not all of them.",
"K01":NOTE+"Windows partly outside the history are compared only for the recorded findings.",
}
P=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
checks=[]
for p in P:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"property-based testing: "+T[i],"level":"exploration",
     "level_note":X.get(i,NOTE+"Trusts the harness's own model or relation, the generators' domain and IEEE-754 doubles.")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks: every property is observed through the public API of /repo. ./check.sh --replay FILE runs a recorded failure again; VERIF_SEED chooses the cases."}
open(os.path.join(root,"MANIFEST.json"),"w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")
