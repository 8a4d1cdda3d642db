#!/usr/bin/env python3
"""Looks for places of the library that the checks' inputs do not reach: many
small changes of the source are built in scratch copies, and the recorded
outcomes of every plan's cases compared with those of the unchanged source. A
change that leaves all of them as they were is either without effect or shows
a gap in the inputs. Nothing here is used by the checks.
  mutate_code.py dump DIR [seed]           the cases of every plan, and their outcomes
  mutate_code.py run DIR WORKERS [seed] [part/of] [file ...]
Results go to DIR/results.jsonl; everything else of DIR may be removed."""
import glob, hashlib, json, os, queue, random, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import tool, engine, plans, extra

FILES = ["additional_types", "cards", "compacts", "decoding_sci", "decoding_sci_ext", "error", "lib",
         "printing_balance", "propagated", "special_indicators", "special_types", "storage_data", "traits",
         "unchecked_extrinsic"]
PROPS = ["C%02d" % i for i in range(1, 26)]

# --- the cases --------------------------------------------------------------
class Taker(engine.Engine):
    def batch(self, B, seconds=10):
        if B.cases:
            if not B.lines:
                B.lines = [engine.EMPTY_META]
            self.n = getattr(self, "n", 0) + 1
            with open(os.path.join(self.to, "%s-%02d%s.txt" % (self.prop, self.n, "-m" * self.modelled)), "w") as f:
                f.write("\n".join(B.lines + B.cases) + "\n")
        return []
    modelled = False

def dump(d, seed):
    for p in ("cases", "base"):
        os.makedirs(os.path.join(d, p), exist_ok=True)
    def one(prop):
        work = os.path.join(d, "work-" + prop)
        E = Taker(prop, work)
        E.to = os.path.join(d, "cases")
        if prop == "C23":
            E.exe = E.std
        r = random.Random("%d/%s/0" % (seed, prop))
        for B in plans.ALL[prop](E, r, False):
            E.batch(B)
        E.modelled = True
        for w in extra.EXTRA.get(prop, []):
            if w is not extra.crashing:
                w(E, random.Random("%d/%s/x" % (seed, prop)), False, {}, [], [], {})
        shutil.rmtree(work, ignore_errors=True)
    ps = list(PROPS)
    lock = threading.Lock()
    def go():
        while True:
            with lock:
                if not ps:
                    return
                p = ps.pop(0)
            one(p)
            print("dumped", p, flush=True)
    ts = [threading.Thread(target=go) for _ in range(3)]
    [t.start() for t in ts]
    [t.join() for t in ts]

def outcome(exe, path, seconds=60):
    with open(path) as f:
        try:
            p = subprocess.run([exe, "run"], stdin=f, capture_output=True, timeout=seconds,
                               preexec_fn=lambda: tool._limits(4), env=dict(os.environ, CASE_SECONDS="10"))
        except subprocess.TimeoutExpired:
            return "timeout"
    return "%d %s" % (p.returncode, hashlib.sha256(p.stdout).hexdigest())

# --- the changes --------------------------------------------------------------
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
       (r" \+= ", " -= "), (r" -= ", " += "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.is_empty\(\)", ".is_empty() == false"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"if !", "if "), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""),
       (r"\bcheck_compact\.", "check_compact_."), (r"\.\.=", ".."), (r"\bbreak;", ""), (r"\bcontinue;", ""),
       (r"\.\.(?=[a-z(\]])", "..="), (r"\.checked_add\(", ".checked_sub("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"from_le_bytes", "from_be_bytes"), (r"\.trim_end_matches\('0'\)", "")]

def mutants(name):
    path = "/repo/src/%s.rs" % name
    text = open(path).read()
    lines = text.split("\n")
    kinds = {}
    for en, v in re.findall(r"\b([A-Z][A-Za-z0-9]+)::([A-Z][A-Za-z0-9_]*)\b", text):
        kinds.setdefault(en, set()).add(v)
    out = []
    r = random.Random(name)
    for i, line in enumerate(lines):
        s = line.strip()
        if s.startswith("#[cfg(test)]") and lines[i + 1].strip().endswith("{"):
            break
        if not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "mod ", "pub mod", "extern", "use{")):
            continue
        code = re.sub(r"\s//.*$", "", line)
        def put(new, what):
            if new != line:
                out.append((name, i, new, what))
        for pat, to in OPS:
            for m in re.finditer(pat, code):
                if to == "check_compact_.":
                    continue
                put(line[:m.start()] + to + line[m.end():], m.group(0).strip() + " -> " + to.strip())
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w\"'])(?!\.\d)", code):
            n = int(m.group(1))
            for k in (n + 1, n - 1):
                if k >= 0:
                    put(line[:m.start()] + str(k) + line[m.end():], "%d -> %d" % (n, k))
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code):
            put(line[:m.end() - 1] + "Q" + line[m.end() - 1:], "string + Q")
        for m in re.finditer(r"\bif (?!let)(.*?) \{", code):
            put(line[:m.start()] + "if true || (" + m.group(1) + ") {" + line[m.end():], "if true")
            put(line[:m.start()] + "if false && (" + m.group(1) + ") {" + line[m.end():], "if false")
        for m in re.finditer(r"\b([A-Z][A-Za-z0-9]+)::([A-Z][A-Za-z0-9_]*)\b", code):
            others = sorted(kinds[m.group(1)] - {m.group(2)})
            r.shuffle(others)
            for o in others[:2]:
                put(line[:m.start(2)] + o + line[m.end(2):], m.group(0) + " -> " + o)
        if re.match(r"^[\w*(].*;$", s) and not re.match(r"(let|return|pub|fn|type|const|static|impl|struct|enum|trait|where)\b", s):
            put("", "statement removed")
        if re.match(r"^[^=]* => .*,$", s) and not s.startswith("_"):
            put("", "arm removed")
        if re.match(r"^[\w().]+\s*$", s) and s in ("Ok(())",):
            pass
    seen, res = set(), []
    for m in out:
        if m[1:3] not in seen:
            seen.add(m[1:3])
            res.append(m)
    return res

# --- running them ---------------------------------------------------------------
def run(d, workers, seed, part, files):
    todo = [m for n in files or FILES for m in mutants(n)]
    random.Random(seed).shuffle(todo)
    a, b = part
    todo = todo[a::b]
    results = os.path.join(d, "results.jsonl")
    done = set()
    if os.path.exists(results):
        for l in open(results):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["new"]))
    todo = [m for m in todo if (m[0], m[1] + 1, m[2]) not in done]
    print(len(todo), "changes", flush=True)
    cases = sorted(glob.glob(os.path.join(d, "cases", "*.txt")), key=os.path.getsize)
    lock, q = threading.Lock(), queue.Queue()
    for m in todo:
        q.put(m)
    base, hits = {}, {}
    def build(w):
        env = dict(os.environ, RUSTFLAGS="--cfg substrate_parser_verif", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
                   CARGO_TARGET_DIR=os.path.join(w, "target"))
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "-j", "2"], cwd=os.path.join(w, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0
    def setup(k):
        w = os.path.join(d, "w%d" % k)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s/ --one-top-level=repo" % w, shell=True, check=True)
        shutil.copytree(tool.HARNESS, os.path.join(w, "harness"), ignore=shutil.ignore_patterns("target"))
        c = os.path.join(w, "harness", "Cargo.toml")
        s = open(c).read().replace('path = "/repo"', 'path = "%s/repo"' % w)
        s = s.replace("opt-level = 1", "opt-level = 0\nincremental = true\ncodegen-units = 64")
        s += '\n[profile.release.package."*"]\nopt-level = 2\n[profile.release.package.substrate_parser]\nopt-level = 0\n'
        open(c, "w").write(s)
        if not build(w):
            raise SystemExit("the harness does not build in " + w)
        return w, os.path.join(w, "target", "release", "verif-harness")
    ready = threading.Event()
    def go(k):
        w, exe = setup(k)
        if k == 0:
            for c in list(cases):
                x, y = outcome(exe, c, 200), outcome(exe, c, 200)
                if x != y or not x.startswith("0 "):
                    print("not steady:", c, x[:12], y[:12], flush=True)
                    cases.remove(c)
                base[c] = x
            ready.set()
        ready.wait()
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            name, i, new, what = m
            path = os.path.join(w, "repo", "src", name + ".rs")
            lines = open(path).read().split("\n")
            was = lines[i]
            lines[i] = new
            open(path, "w").write("\n".join(lines))
            found = ""
            try:
                if not build(w):
                    found = "no build"
                else:
                    order = sorted(cases, key=lambda c: (-hits.get((name, c), 0), os.path.getsize(c)))
                    for c in order:
                        if outcome(exe, c) != base[c]:
                            found = os.path.basename(c)
                            hits[name, c] = hits.get((name, c), 0) + 1
                            break
            finally:
                lines[i] = was
                open(path, "w").write("\n".join(lines))
            with lock:
                with open(results, "a") as f:
                    f.write(json.dumps({"file": name, "line": i + 1, "was": was, "new": new, "what": what, "found": found or "SAME"}) + "\n")
                if not found:
                    print("SAME %s:%d %s\n   - %s\n   + %s" % (name, i + 1, what, was.strip(), new.strip()), flush=True)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in range(workers):
        shutil.rmtree(os.path.join(d, "w%d" % k), ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "dump":
        dump(a[1], int(a[2]) if len(a) > 2 else 1)
    else:
        part = tuple(int(x) for x in a[4].split("/")) if len(a) > 4 else (0, 1)
        run(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 1, part, a[5:])
