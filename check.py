#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]    decides property ID on /repo's tree
   check.py --replay FILE                 runs a reported case again
Exit 0: held. 1: VIOLATION printed. 2: the check itself failed."""
import json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import tool, engine, judge, plans, extra

LEVEL = {"C18": "fault_enumeration"}

def findings():
    out = {}
    with open(os.path.join(tool.VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                p, k, what = line[len("finding: "):].strip().split(" ", 2)
                out[(p.split("=")[1], k.split("=")[1])] = what
    return out

def group_filter(prop, verdicts):
    """C02 and C09 compare a case with its plain companion: what is wrong in
    the same way without the context (label) is no matter of theirs."""
    if prop not in ("C02", "C09"):
        return
    plain = {}
    for v in verdicts:
        g = v["info"].get("group")
        if g is not None and v["info"]["tag"] == "plain":
            plain[g] = v["cls"]
    keep = {"C02": {"pos"}, "C09": {"label"}}[prop]
    for v in verdicts:
        g = v["info"].get("group")
        if g in plain:
            drop = plain[g] - keep
            if v["info"]["tag"] == "plain":
                v["cls"] = v["cls"] & keep if prop == "C02" else frozenset()
            else:
                v["cls"] = v["cls"] - drop

def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = os.path.join(tool.VERIF, "work", "%s-%d" % (prop, os.getpid()))
    E = engine.Engine(prop, work)
    known, violations, samples = {}, [], []
    distinct = set()
    budget = float(os.environ.get("VERIF_SECONDS", "600")) if tier == "thorough" else 0
    rounds = 0
    try:
        while True:
            r = random.Random("%d/%s/%d" % (seed, prop, rounds))
            for B in plans.ALL[prop](E, r, tier == "thorough"):
                vs = E.batch(B)
                group_filter(prop, vs)
                judge.fault_filter(prop, vs)
                for v in vs:
                    if v["dev"]:
                        known.setdefault(v["dev"], v)
                    bad = judge.relevant(prop, v)
                    if bad:
                        violations.append((sorted(bad), v))
                for v in vs:
                    c = v["rec"]
                    distinct.add(hash((c["entry"], c["flt"], c["ty"], str(c["bufs"]), str(c["gh"]), str(c["st"]))))
                if vs and len(samples) < 6:
                    v = r.choice(vs)
                    samples.append(sample(v))
                if violations:
                    break
            rounds += 1
            if violations or time.time() - t0 > budget * 0.9:
                break
        notes = {}
        if not violations:
            for w in extra.EXTRA.get(prop, []):
                w(E, random.Random("%d/%s/x" % (seed, prop)), tier == "thorough", known, violations, samples, notes)
                if violations:
                    break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    listed = findings()
    for dev, v in sorted(known.items()):
        if (prop, dev) in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[(prop, dev)]))
        elif not any(k == dev for _, k in listed):
            violations.append((["unlisted deviation " + dev], v))
    evidence(prop, tier, seed, E, samples, violations, distinct, rounds, time.time() - t0, notes)
    print("%s %s: %d runs of the library judged, %d states, %d transitions, %.0f s" %
          (prop, tier, E.traces, E.states, E.transitions, time.time() - t0))
    if violations:
        path = save(prop, violations)
        for bad, v in violations[:5]:
            print("  ", ",".join(bad), describe(v))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

def sample(v):
    if "rec" not in v:
        return v
    c = v["rec"]
    return {"entry": c["entry"], "type": c["ty"], "position": c["pos"], "fault": c["flt"],
            "data": [bytes(b).hex()[:200] for b in c["bufs"]],
            "result": c["r"]["e"]["k"] or c["r"]["st"], "tokens": len(c["r"]["toks"])}

def describe(v):
    if "rec" not in v:
        return json.dumps(v)[:600]
    s = sample(v)
    return json.dumps(dict(s, spec=v["spec_st"] + " " + v["spec_e"], got=v["rec"]["r"]["e"]))[:600]

def save(prop, violations):
    d = os.path.join(tool.VERIF, "work", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, os.getpid()))
    bad, v = violations[0]
    out = {"property": prop, "classes": bad, "count": len(violations)}
    if "rec" in v and "batch" in v:
        B = v["batch"]
        i = int(v["base"]) - 1
        line = B.cases[i].split(" ")
        m = int(line[2])
        line[2] = "1"
        if prop == "C25":
            out["history"] = [B.lines, B.cases]
        out.update(meta=B.lines[m - 1], case=" ".join(line), recorded=v["rec"], spec=[v["spec_st"], v["spec_e"]])
    else:
        out.update(detail=v)
    with open(path, "w") as f:
        json.dump(out, f)
    return path

def replay(path):
    d = json.load(open(path))
    if "case" not in d:
        print(json.dumps(d, indent=1))
        return 0
    work = os.path.join(tool.VERIF, "work", "replay-%d" % os.getpid())
    try:
        E = engine.Engine(d["property"] if "history" in d else "replay", work)
        class One:
            lines, cases = d.get("history") or ([d["meta"]], [d["case"]])
            info = {}
        for v in E.batch(One):
            if "history" in d and not v["cls"]:
                continue
            print(v["rec"]["id"], "differences:", sorted(v["cls"]) or "none", "deviation:", v["dev"] or "none",
                  "specification:", v["spec_st"], v["spec_e"])
            print("  recorded:", json.dumps(v["rec"]["r"])[:3000])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0

def evidence(prop, tier, seed, E, samples, violations, distinct, rounds, wall, notes):
    level = LEVEL.get(prop, "model_checking")
    cov = {"rounds": rounds, "outcomes": dict(sorted(E.outcomes.items(), key=lambda x: -x[1])[:40]),
           "samples": samples or ["none"]}
    cov.update(notes)
    cov.update({"states": E.states, "transitions": E.transitions, "traces_validated_against_impl": E.traces})
    if level == "fault_enumeration":
        cov.update({"evaluations": E.traces, "distinct_nontrivial": len(distinct),
                    "rule": "one run per memory access of every generated case, failing there once or from there on; "
                            "runs with equal results are judged once; distinct by entry, fault mode, type and data"})
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 1),
         "violations": len(violations),
         "assumptions": ["the TLA+ specification in spec/ says what the property means",
                         "TLC, the JSON reader and the hash operators written in Java are right",
                         "frame-metadata and scale-info decode metadata rightly"]}
    os.makedirs(os.path.join(tool.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(tool.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)

if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except tool.ToolError as e:
        print("CHECK ERROR:", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
