"""Decides one property: python -m dv.run P01 quick|thorough"""
import os
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMEXPR_NUM_THREADS", "1")
import importlib
import json
import multiprocessing as mp
import pkgutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def load_contracts():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)
    from .contract import CONTRACTS
    return CONTRACTS


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


FOUND = None  # shared: a failing input is known


def task(arg):
    ci, k, tier, seed, budget = arg
    from . import contract as ct, prove
    c = ct.CONTRACTS[ci]
    out = dict(ci=ci, k=k, results=[], note=None, paths=0, fails=[], accepted=0, checked=0, labels={}, t_sym=0, t_con=0, ext=0)
    for key in prove.STATS:
        prove.STATS[key] = 0 if isinstance(prove.STATS[key], int) else 0.0
    thorough = tier == "thorough"
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    # the whole check has to answer in time: what is left for this case (less once a failing input is known)
    left = budget["total"] - (t0 - budget["start"])
    lim = max(5, min(budget["sym"], left - 100))
    if FOUND is not None and FOUND.value:
        lim = min(lim, 20)
        budget = dict(budget, ext=min(budget["ext"], 6))
    trials, secs = budget["trials"], budget["con"]
    if c.trials:
        trials = c.trials * (10 if thorough else 1)
    if c.bounded:
        trials, secs = trials * 4, secs * 3
    first = None
    try:
        first = ct.run_concrete(c, k, trials, seed, secs)
    except Exception:
        pass  # reported below
    if first is not None and first[2]:
        # the real code fails on an input: nothing left to prove for this case
        if FOUND is not None:
            FOUND.value = 1
        out["accepted"], out["checked"], out["fails"], out["labels"] = first
        out["note"] = "not proved: a failing input is known"
        out["stats"], out["t_con"] = {}, time.time() - t0
        return out
    t_first = time.time() - t0
    t0 = time.time()
    if not c.bounded:
        signal.alarm(int(lim) + 30)
        try:
            res, note, paths = ct.run_symbolic(c, k, lim)
            out["results"] = [(r.label, r.kind, r.status, r.backend, r.reason, r.consts) for r in res]
            out["note"], out["paths"] = note, paths
        except Timeout:
            out["note"] = "undecided: time limit"
        except Exception as e:
            out["note"] = f"undecided: verifier error {type(e).__name__}: {e}"
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        finally:
            signal.alarm(0)
    out["t_sym"] = time.time() - t0
    out["stats"] = dict(prove.STATS)
    t1 = time.time()
    try:
        bad = [r for r in out["results"] if r[2] != "proved"]
        a, n, fails, labels = first if first is not None else ct.run_concrete(c, k, trials, seed, secs)
        if not fails and (bad or (out["note"] and not c.bounded)):
            # an obligation is open: look hard for a failing input of the real code
            specials = sorted({x for r in bad for x in r[5]} | {0.0, 1.0})
            out["ext"] = 1
            for rnd in range(3):
                ext = max(1, min(budget["ext"], budget["total"] - (time.time() - budget["start"])))
                a2, n2, fails, labels = ct.run_concrete(c, k, 20000, seed + 17 + rnd, ext / 3, specials if rnd != 1 else ())
                a, n = a + a2, n + n2
                if fails:
                    if FOUND is not None:
                        FOUND.value = 1
                    break
        out["accepted"], out["checked"], out["fails"], out["labels"] = a, n, fails, labels
    except Exception as e:
        out["fails"] = []
        out["note"] = (out["note"] or "") + f" concrete run impossible: {type(e).__name__}: {e}"
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
    out["t_con"] = time.time() - t1 + t_first
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" -- ")[0].split())
                d["text"] = line.split(" -- ", 1)[1] if " -- " in line else ""
                out.append(d)
    return out


def main(prop, tier="quick"):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, VERIF)
    cs = load_contracts()
    from . import load, real
    mine = [(i, c) for i, c in enumerate(cs) if c.prop == prop]
    if not mine:
        print(f"no contract for {prop}")
        return 2
    real.load()
    ld = load.loader()
    budget = dict(sym=150, con=2.5, trials=40, ext=60, total=720) if tier == "quick" else dict(sym=600, con=60, trials=4000, ext=240, total=20000)
    budget["start"] = t0
    tasks = [(i, k, tier, seed, budget) for i, c in mine for k in range(len(c.cases))]
    only = os.environ.get("DV_ONLY")
    if only:
        tasks = [t for t in tasks if only in cs[t[0]].case_name(t[1])]
    nproc = int(os.environ.get("DV_JOBS", "8"))
    outs = []
    global FOUND
    FOUND = mp.get_context("fork").Value("i", 0)
    if nproc == 1:
        outs = [task(t) for t in tasks]
    else:
        with mp.get_context("fork").Pool(min(nproc, len(tasks)), maxtasksperchild=8) as pool:
            for o in pool.imap_unordered(task, tasks, chunksize=1):
                outs.append(o)
    outs.sort(key=lambda o: (o["ci"], o["k"]))
    return report(prop, tier, seed, cs, mine, outs, t0, ld)


def report(prop, tier, seed, cs, mine, outs, t0, ld):
    kf = [k for k in known_findings() if k.get("property") == prop]
    nobl = nproved = 0
    backends = {}
    open_obl, violations, known, notes, bounded = [], [], [], [], []
    samples = []
    funcs = set()
    stats = {}
    nchk = 0
    acc = 0
    for o in outs:
        c = cs[o["ci"]]
        name = c.case_name(o["k"])
        nchk += o["checked"]
        acc += o["accepted"]
        for kk, v in o.get("stats", {}).items():
            stats[kk] = stats.get(kk, 0) + v
        funcs.update(c.under)
        allp = bool(o["results"]) and o["note"] is None
        for label, kind, status, be, reason, consts in o["results"]:
            nobl += 1
            if status == "proved":
                nproved += 1
                backends[be] = backends.get(be, 0) + 1
            else:
                allp = False
                open_obl.append((o, label, kind, status, reason))
        if c.bounded:
            bounded.append((name, c.bounded, o["accepted"]))
            if o["accepted"] == 0:
                notes.append(f"{name}: no input was accepted by the precondition")
        elif o["note"]:
            notes.append(f"{name}: {o['note']}")
            bounded.append((name, o["note"], o["accepted"]))
        elif not o["results"]:
            notes.append(f"{name}: no obligation was generated")
        if not c.bounded and o["accepted"] == 0 and not o["note"]:
            notes.append(f"{name}: no concrete input accepted (contract not cross-checked)")
        samples.append(dict(contract=name, obligations=[f"{r[0]}: {r[2]} ({r[3]})" for r in o["results"][:4]], concrete_inputs=o["accepted"], conditions_evaluated=o["checked"],
                            paths=o["paths"], seconds=round(o["t_sym"] + o["t_con"], 2)))
        for f in o["fails"]:
            k = match_known(kf, name, f["label"])
            if k:
                known.append((k, name, f))
            else:
                violations.append((o, name, f["label"], f, None))
    failed_cases = {(v[0]["ci"], v[0]["k"]) for v in violations}
    for o, label, kind, status, reason in open_obl:
        name = cs[o["ci"]].case_name(o["k"])
        if match_known(kf, name, label):
            continue
        if (o["ci"], o["k"]) in failed_cases:
            continue
        if any(x[1] == name for x in known):
            continue
        violations.append((o, name, label, None, (kind, status, reason)))
        failed_cases.add((o["ci"], o["k"]))
    known_ids = {}
    for k, name, f in known:
        known_ids.setdefault(k["text"], (name, f))
    # ---- replay files
    lines = []
    rdir = os.path.join(VERIF, "replay")
    violations.sort(key=lambda v: v[3] is None)
    for n, (o, name, label, f, obl) in enumerate(violations[:20]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, f"{prop}-{n}.json")
        d = dict(property=prop, contract=name, ci=cs[o["ci"]].name, case=o["k"], obligation=label,
                 open_obligations=[dict(label=r[0], kind=r[1], status=r[2], verifier_output=r[4]) for r in o["results"] if r[2] != "proved"][:10],
                 failing_input=f, note=o["note"])
        if f:
            d["replay"] = f"cd {VERIF} && /opt/venv/bin/python -m dv.replay {p}"
        with open(p, "w") as fh:
            json.dump(d, fh, indent=1, default=str)
        if f:
            print(f"  {name}: '{label}' fails on the real code: {f['message']}")
            lines.append(f"VIOLATION property={prop} replay={p}")
        else:
            print(f"  {name}: obligation '{label}' ({obl[0]}) not discharged [{obl[1]}]")
            lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    unresolved = [o for o in outs if o["note"] and not cs[o["ci"]].bounded]
    claimed = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    lvl = next((c["level"] for c in claimed["checks"] if c["property"] == prop), "proof")
    if lvl == "proof" and (nobl == 0 or nproved != nobl or bounded and not nobl):
        lvl = "other"
    if nobl == 0:
        lvl = lvl if lvl != "proof" else "other"
    assumptions = sorted({a for _, c in mine for a in c.assumes})
    ev = dict(
        property=prop, tier=tier, seed=seed, level=lvl,
        coverage=dict(
            obligations=nobl, discharged=nproved, backends=backends,
            checker_cmd=f"cd {VERIF} && /opt/venv/bin/python -m dv.run {prop} {tier}",
            trusted_base=["dv/ (symbolic executor, Cython-to-Python extraction, normaliser)", "z3", "cvc5", "models of numpy, numexpr, scipy, tabmat, scikit-learn in dv/symnp.py and dv/models.py",
                          "real arithmetic in place of IEEE floats and machine integers"],
            functions_under_contract=sorted(funcs),
            contracts=len(mine), cases=len(outs), paths=sum(o["paths"] for o in outs),
            solver=dict((k, round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()),
            evaluations=nchk, concrete_inputs=acc,
            samples=samples[:12],
            bounded_standins=[dict(contract=n, reason=str(r)[:300], inputs=a) for n, r, a in bounded][:40],
            not_decided=notes[:40],
            source_sha256=ld.hashes,
        ),
        assumptions=assumptions, violations=len(violations), wall_s=round(time.time() - t0, 2))
    if lvl != "proof":
        ev["coverage"]["rule"] = "contracts run on drawn inputs of the compiled code where no obligation could be generated or discharged"
        ev["coverage"]["explanation"] = "obligations generated from the current source and discharged, plus the bounded stand-ins listed"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop} {tier}: {nproved}/{nobl} obligations discharged over {len(outs)} contract cases ({len(bounded)} bounded), {nchk} conditions evaluated on {acc} concrete inputs, {time.time() - t0:.1f}s {backends}")
    for n in notes:
        print("  note:", n[:400])
    for t, (name, f) in known_ids.items():
        print(f"KNOWN-FINDING: property={prop} {t}")
    # a finding that no longer reproduces prints nothing
    for l in lines:
        print(l)
    return 1 if violations else 0


def match_known(kf, name, label):
    for k in kf:
        if k.get("contract") == name.split("[")[0] and label.replace(" ", "_").startswith(k.get("label", "")):
            return k
    return None


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    # run as the importable module, not __main__ (contracts register there)
    from dv import run as _run
    sys.exit(_run.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
