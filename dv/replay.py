"""Re-runs a failing input on the real code: python -m dv.replay FILE"""
import json
import os
os.environ.setdefault("OMP_NUM_THREADS", "1")
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    from dv import run, contract as ct
    d = json.load(open(sys.argv[1]))
    cs = run.load_contracts()
    c = [c for c in cs if c.prop == d["property"] and c.name == d["ci"]][0]
    f = d.get("failing_input")
    if not f:
        print("no failing input was found; open obligations:")
        for o in d["open_obligations"]:
            print(" -", o["label"], o["status"], "\n", o["verifier_output"])
        sys.exit(1)
    r = ct.run_one(c, d["case"], abs(ct.hash_str(c.case_name(d["case"]))) % (2**31), f["seed"], f["style"], f["specials"])
    print("inputs:", json.dumps(f["inputs"])[:2000])
    print(r[0], r[2] and r[2]["label"], r[2] and r[2]["message"])
    sys.exit(0 if r[0] != "fail" else 1)
