"""Further parts of single checks: model checking runs and special inputs."""
import json, os, random, time
from . import gen, judge, plans, profiles, tool
from .gen import F, V, compact

def crashing(E, r, big, known, violations, samples, notes):
    """The two recorded ways to make the library not end in a result."""
    R = gen.Registry(r)
    unit = R.tuple([])
    vec = len(R.t)
    R.seq(vec)
    z = R.seq(unit)
    lines = [gen.meta_line(gen.meta_of(R.t))]
    found = {}
    for key, ty, data in (("deep-nesting", vec, b"\4" * 200000 + b"\0"), ("zero-sized", z, compact(2**32 - 1))):
        rec = tool.run_cases(E.exe, lines, [tool.case_line(1, 1, "all", data, ty=ty)], 10, gib=2)[0]
        found[key] = rec["r"]["st"]
        if rec["r"]["st"] not in ("ok", "err"):
            known.setdefault(key, {"rec": rec})
    notes["recorded_findings_rerun"] = found

# --- Model checking --------------------------------------------------------
# Family, quick settings, settings of one thorough round (its seeds go on
# until the time is used up).
FAMILIES = {
    "C01": [("MCItem", dict(MCSTRIDE=397, MCLEN=2), dict(MCSTRIDE=97, MCLEN=3)),
            ("MCDeep", dict(MCSTRIDE=160, MCLEN=30), dict(MCSTRIDE=23, MCDATA=24))],
    "C04": [("MCCompact", dict(MCSTRIDE=17, MCPRINT=3), dict(MCSTRIDE=3, MCPRINT=11))],
    "C05": [("MCTx", dict(MCSTRIDE=40, MCTHIN=97), dict(MCSTRIDE=100, MCTHIN=5, MCPRINT=5))],
    "C10": [("MCCall", dict(MCSTRIDE=149, MCPRINT=3), dict(MCSTRIDE=23, MCPRINT=17))],
    "C11": [("MCSpecial", dict(MCSTRIDE=97), dict(MCSTRIDE=13, MCPRINT=5))],
    "C13": [("MCBits", dict(MCSTRIDE=17, MCPRINT=7), dict(MCSTRIDE=3, MCPRINT=41))],
    "C15": [("MCStore", dict(MCSTRIDE=47), dict(MCSTRIDE=7, MCPRINT=3))],
    "C16": [("MCUx", dict(MCSTRIDE=197, MCPRINT=3), dict(MCSTRIDE=37, MCPRINT=11))],
    "C17": [("MCMeta", dict(MCSTRIDE=14, MCPRINT=3), dict(MCSTRIDE=3, MCPRINT=11)),
            ("MCTx", dict(MCSTRIDE=80, MCTHIN=97), dict(MCSTRIDE=200, MCTHIN=5, MCPRINT=5))],
    "C18": [("MCFault", dict(), dict())],
    "C20": [("MCCards", dict(MCSTRIDE=101), dict(MCSTRIDE=31))],
    "C21": [("MCBal", dict(MCSTRIDE=37), dict(MCSTRIDE=5, MCPRINT=3))],
    "C23": [("MCCards", dict(MCSTRIDE=211), dict(MCSTRIDE=31))],
    "C24": [("MCSteps", dict(MCSTRIDE=331, MCPRINT=3), dict(MCSTRIDE=61, MCPRINT=19))],
    "C25": [("MCHistory", dict(MCSTRIDE=1999, MCPRINT=1), dict(MCSTRIDE=499, MCPRINT=1))],
    "C22": [("MCEra", dict(MCSTRIDE=17, MCPRINT=3), dict(MCSTRIDE=1, MCPRINT=17))],
}
for _p in ("C02", "C03", "C09", "C12", "C14", "C19"):
    FAMILIES[_p] = FAMILIES["C01"]
for _p in ("C06", "C07", "C08"):
    FAMILIES[_p] = FAMILIES["C05"]
ONCE = {"MCFault"}                       # complete in one run, whatever the seed
REPLAYED = {False: 900, True: 4000}

def said(out):
    """the finished behaviours TLC printed"""
    for line in out.splitlines():
        if line.startswith('"B|') and line.endswith('"'):
            try:
                yield json.loads(json.loads(line)[2:])
            except json.JSONDecodeError:
                continue                 # two workers on one line

def spread(found, n, r):
    """n of the behaviours, all kinds of outcome alike"""
    kinds = {}
    for d in found:
        k = (d["case"]["entry"], d["res"]["st"], d["res"]["e"]["w"], d["res"]["e"]["k"], d["res"]["ce"]["k"], d["dev"])
        kinds.setdefault(k, []).append(d)
    for v in kinds.values():
        r.shuffle(v)
    out, i = [], 0
    while len(out) < n and any(len(v) > i for v in kinds.values()):
        out += [v[i] for v in kinds.values() if len(v) > i]
        i += 1
    return out[:n]

def histories(found, n, r):
    """whole histories, their calls in order"""
    by = {}
    for d in found:
        by.setdefault(d["n"], {}).setdefault(d["i"], d)
    ks = sorted(by)
    r.shuffle(ks)
    out = []
    for k in ks:
        if len(out) < n:
            out += [by[k][i] for i in sorted(by[k])]
    return out

def behaviours(E, prop, found, r):
    """the printed cases for the harness"""
    B = profiles.Batch(r)
    ids = {}
    for d in found:
        c = d["case"]
        if c["entry"] == "bit32" and not E.hook:
            continue
        key = json.dumps(c["m"], sort_keys=True)
        if key not in ids:
            ids[key] = B.meta(c["m"])
        flags = []
        if c["card"]:
            k = c["card"][0]
            flags = ["K:%d:%d:%s:%s:%d" % (k["prefix"], k["dec"], k["unit"].encode().hex(), k["name"].encode().hex(), k["bal"])]
        elif prop in ("C20", "C25"):
            flags = plans.cardflag(r)()
        if prop == "C18":
            flags = ["f"] if r.random() < 0.5 else ["x"]
        a = c.get("aux")
        if a and (a["h"] != "None" or a["c"] != -1 or a["ids"]):
            flags = flags + ["A:%s:%s:%s" % (a["h"], "-" if a["c"] == -1 else a["c"], "+".join(str(x) for x in a["ids"]))]
        B.add(ids[key], c["entry"], bufs=[bytes(b) for b in c["bufs"]], pos=c["pos"], ty=c["ty"],
              gh=bytes(c["gh"][0]) if c["gh"] else None, st=c["st"][0] if c["st"] else None, flags=flags, tag="model")
    return B

def narrow(prop, v):
    """C02 and C09 are about position and labels only where no plain companion
    runs alongside."""
    bad = judge.relevant(prop, v)
    if prop == "C09":
        bad &= {"label"}
    if prop == "C02" and not ({v["spec_e"], v["rec_e"]} & {"SomeDataNotUsedBlob", "OutOfRange"}):
        bad &= {"pos"}
    return bad

def model(prop):
    def run(E, r, big, known, violations, samples, notes):
        t0, seed = time.time(), int(os.environ.get("VERIF_SEED", "1"))
        budget = float(os.environ.get("VERIF_SECONDS", "600")) * 0.6 if big else 0
        done, n = notes.setdefault("model_checking", []), 0
        while True:
            for module, quick, deep in FAMILIES[prop]:
                if n and module in ONCE:
                    continue
                env = dict(MCPRINT=1)
                env.update(deep if big else quick)
                env["MCSEED"] = seed * 977 + int(prop[1:]) * 31 + n
                env = {k: str(v) for k, v in env.items()}
                s0, b0 = E.states, E.transitions
                rc, out = E.tlc(module, env=env, timeout=600 if big else 240)
                if rc and rc != 99:          # 99: out of time, without an error so far
                    raise tool.ToolError("model checking of %s failed (%s)\n%s" % (module, env, "\n".join(
                        x for x in out.splitlines() if not x.startswith(('"B|', "Parsing file", "Semantic ")))[-3000:]))
                found = list(said(out))
                chosen = (histories if prop == "C25" else spread)(found, REPLAYED[big], r)
                entry = {"module": module, "settings": env, "complete": rc == 0, "states": E.states - s0, "transitions": E.transitions - b0,
                         "behaviours_printed": len(found), "replayed": len(chosen)}
                vs = E.batch(behaviours(E, prop, chosen, r))
                entry["runs_judged"] = len(vs)
                judge.fault_filter(prop, vs)
                done.append(entry)
                for v in vs:
                    if v["dev"]:
                        known.setdefault(v["dev"], v)
                    bad = narrow(prop, v)
                    if bad:
                        violations.append((sorted(bad), v))
            n += 1
            if violations or not budget or time.time() - t0 > budget * 0.85 or all(f[0] in ONCE for f in FAMILIES[prop]):
                return
    return run

EXTRA = {p: [model(p)] for p in FAMILIES}
EXTRA["C14"].insert(0, crashing)
