#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the table below"""
import json
TECH="symbolic execution of the real code (generic over its float type) + SMT (z3/cvc5, nonlinear real arithmetic)"
NOTE="Every obligation is decided for all real inputs within the stated sizes; floating-point rounding is outside the model (counterexamples are replayed in f64). Trusts z3/cvc5, the symbolic number type and ndarray's index arithmetic."
PY={"technique":"symbolic execution of the real Python code on proxy numbers (z3: IEEE binary64, integers, reals), path by path",
 "note":"All parameter values and all data values of the stated shapes; numpy/scikit-learn C code runs on tags standing for symbols; the compiled module is a recording stand-in (its behaviour is P17). Trusts z3 and the proxy classes."}
CLAIM={
 "P01":{},"P02":{},"P03":{},"P04":{},"P05":{},"P06":{},"P07":{},"P08":{},"P09":{},"P10":{},"P11":{},"P12":{},"P13":{},"P14":{},"P15":{},"P16":{},"P17":{},"P18":PY,"P26":PY,"P19":{},"P20":{},"P21":{},"P22":{},"P23":{},"P24":{},"P25":{},"P27":{},"P28":{},"P29":{},"P30":{},"P31":{},
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash /verif/bin/setup","checks":[],"not_applicable":[],
   "notes":"Real code is executed on a symbolic number type implementing sparseglm's Float; see DESIGN.md."}
for p in props:
    i=p['id']
    if i in CLAIM:
        c=CLAIM[i]
        m["checks"].append({"property":i,"quick_cmd":"bash /verif/bin/check %s"%i,"thorough_cmd":"bash /verif/bin/check %s --thorough"%i,
          "technique":c.get("technique",TECH),"level":c.get("level","model_checking"),"level_note":c.get("note",NOTE)})
    else:
        m["not_applicable"].append({"property":i,"reason":"no check built yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m["checks"]),"claimed")
