"""Building and running the harness and TLC."""
import json, os, resource, subprocess, sys, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"

class ToolError(Exception):
    pass

STEPS = {"prim", "dwt", "pick", "bvp", "husk", "order", "spec", "fld", "fty", "hint", "exth", "info"}

def build_harness(std=True):
    """Returns (executable, whether it was built with the hook, whether with the steps).
    The hook exports one private function, the steps are the parser's inner public
    functions; a tree in which these do not compile is judged without them.
    Without std the library is built without its default feature."""
    said = ""
    for hook, steps in ((True, True), (False, True), (True, False), (False, False)):
        target = os.path.join(HARNESS, "target", ("hook" if hook else "plain") + ("" if steps else "-few") + ("" if std else "-nostd"))
        env = dict(os.environ, RUSTFLAGS="--cfg substrate_parser_verif" if hook else "", CARGO_NET_OFFLINE="true",
                   CARGO_TARGET_DIR=target)
        features = ["std"] * std + ["steps"] * steps
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--no-default-features",
                            "--features", ",".join(features)], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode:
            return os.path.join(target, "release", "verif-harness"), hook, steps
        said = said or r.stdout
    raise ToolError("harness build failed\n" + said[-4000:])

def classes():
    """Java definitions of the hash operators."""
    d, src = os.path.join(BUILD, "classes"), os.path.join(SPEC, "java", "Hashes.java")
    out = os.path.join(d, "Hashes.class")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d,
                            os.path.join(SPEC, "java", "Hashes.java")], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed\n" + r.stderr)
    return d

def tlc(module, cfg=None, env=None, workers="auto", heap="6g", timeout=800, extra=(), work=None):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-cp", ":".join([classes(), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 99, (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def _limits(gib=8):
    resource.setrlimit(resource.RLIMIT_AS, (gib << 30, gib << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def dump(exe, metas):
    """metas: list of input lines (F path / M hex). Returns dumped metas and storage lists."""
    r = subprocess.run([exe, "dump"], input="\n".join(metas) + "\n", capture_output=True, text=True)
    if r.returncode:
        raise ToolError("dump failed: " + r.stderr[-2000:])
    ms, ss = [], []
    for line in r.stdout.splitlines():
        (ms if line[0] == "M" else ss).append(json.loads(line[2:]))
    return ms, ss

def _case_words(line):
    p = line.split(" ")
    return p

def run_cases(exe, metas, cases, seconds=10, gib=8):
    """cases: list of C lines. Returns list of recorded cases (dicts). A case that
    kills the process is recorded as such and the run goes on after it."""
    out, i, crashes, slow = [], 0, 0, 0
    by_id = {c.split(" ")[1]: k for k, c in enumerate(cases)}
    while i < len(cases):
        text = "\n".join(metas + cases[i:]) + "\n"
        p = subprocess.run([exe, "run"], input=text, capture_output=True, text=True,
                           preexec_fn=lambda: _limits(gib), env=dict(os.environ, CASE_SECONDS=str(seconds)))
        last = i - 1
        for line in p.stdout.splitlines():
            try:
                d = json.loads(line)
            except json.JSONDecodeError:
                continue
            out.append(d)
            base = d["id"].split("~")[0]
            last = max(last, by_id[base])
        if p.returncode == 0:
            break
        if p.returncode in (4, 5):
            raise ToolError("harness: " + p.stderr[-2000:])
        crashes += 1
        if p.returncode != 3:          # killed in the case after the last reported one
            last += 1
            if last < len(cases):
                out.append(crash_record(cases[last], "abort"))
        slow += p.returncode == 3
        if crashes > 25 or slow > 6:           # enough to report; the rest is not run
            break
        i = last + 1
    return out

def run_history(exe, metas, cases, seed, seconds=60, gib=8):
    """All outcomes of the cases over several orders in one process; None if it did not end."""
    p = subprocess.run([exe, "history"], input="\n".join(metas + cases) + "\n", capture_output=True, text=True,
                       preexec_fn=lambda: _limits(gib), env=dict(os.environ, CASE_SECONDS=str(seconds), HISTORY_SEED=str(seed)))
    if p.returncode in (4, 5):
        raise ToolError("harness: " + p.stderr[-2000:])
    return [json.loads(l) for l in p.stdout.splitlines()] if p.returncode == 0 else None

def crash_record(line, st):
    p = line.split(" ")
    opt = lambda s: None if s == "-" else s
    e = {"w": "", "k": "", "p": 0, "n": [], "s": ""}
    stor = []
    if opt(p[7]):
        q = p[7].split(":")
        un = lambda d: [bytes.fromhex(x).decode() for x in d[1:].split(",")] if d else []
        stor = [{"plain": True, "h": [], "key": 0, "val": int(q[1]), "docs": un(q[2])}] if q[0] == "plain" else \
               [{"plain": False, "h": [h for h in q[1].split("+") if h], "key": int(q[2]), "val": int(q[3]), "docs": un(q[4])}]
    return {"id": p[1], "m": int(p[2]), "entry": p[3], "pos": int(p[4]), "ty": int(p[5]),
            "gh": [list(bytes.fromhex(p[6]))] if opt(p[6]) else [], "st": stor,
            "bufs": [list(bytes.fromhex(b)) for b in p[8].split(",")] if opt(p[8]) else [[]],
            "flt": "", "card": [], "aux": aux_of(p[9].split("/")), "n": 1,
            "r": {"st": st, "e": e, "toks": [], "pos": 0, "cst": "", "ce": e, "x": [], "words": [], "cards": []}}

def aux_of(flags):
    for f in flags:
        if f.startswith("A:"):
            q = f.split(":")
            return {"h": q[1], "c": -1 if q[2] == "-" else int(q[2]), "ids": [int(x) for x in q[3].split("+") if x]}
    return {"h": "None", "c": -1, "ids": []}

def case_line(id, m, entry, buf=b"", pos=0, ty=0, gh=None, st=None, bufs=None, flags=()):
    bufs = bufs if bufs is not None else [buf]
    s = "-"
    if st is not None:
        docs = (":" + ",".join(d.encode().hex() for d in st.get("docs", []))) if st.get("docs") else ""
        s = f"plain:{st['val']}:{docs}" if st["plain"] else \
            f"map:{'+'.join(st['h'])}:{st['key']}:{st['val']}:{docs}"
    hexes = ",".join(b.hex() for b in bufs)
    return " ".join(["C", str(id), str(m), entry, str(pos), str(ty), gh.hex() if gh is not None else "-",
                     s, hexes if hexes else "-", "/".join(flags) if flags else "-"])

def write_nd(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
