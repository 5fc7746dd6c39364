"""writes /verif/MANIFEST.json; a property is claimed iff listed in CLAIMED"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Assumes real arithmetic for floats and machine integers, and the models of numpy/scipy/tabmat in dv/ (cross-checked on every run "
         "by executing the same contracts on the compiled code).")
CLAIMED = {
    "P01": ("proof", ""),
}
NA = {
    "P30": "formula parsing and design construction are done by formulaic and tabmat, string- and dataframe-valued code outside any contract language available here",
}
PENDING = "contracts for this property are not finished yet"
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -m dv.selftest", checks=[], not_applicable=[])
for i in ids:
    if i in CLAIMED:
        lvl, note = CLAIMED[i]
        tech = "contracts on the real functions, deductive verification (symbolic execution of the current source, obligations discharged by a normaliser, z3 and cvc5)"
        if lvl != "proof":
            tech += "; bounded contract checks on the compiled code for functions beyond the verifier"
        m["checks"].append(dict(property=i, quick_cmd=f"/opt/venv/bin/python -m dv.run {i} quick", thorough_cmd=f"/opt/venv/bin/python -m dv.run {i} thorough",
                                technique=tech, level=lvl, level_note=(note + " " if note else "") + TRUST))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
