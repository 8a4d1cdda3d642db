#!/usr/bin/env python3
"""plant.py BUGFILE... [--force]: build /verif/seeded/<id>/ from the descriptions in tools/bugs.

A description is a Python file with BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], demo (Rust: the body after the shared prelude, with fn main). A bug is kept only when the
patched copy builds, passes the repository's tests, and the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys
REPO, WT, SEED = '/repo', '/tmp/wt', '/verif/seeded'
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', DEMO_TARGET_DIR='/tmp/demotarget')
ENV.pop('CARGO_TARGET_DIR', None)

def sh(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def tests():
    rc, out = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', WT,
                 dict(ENV, CARGO_TARGET_DIR=WT + '/target'))
    n = sum(int(x) for x in re.findall(r'(\d+) passed', out))
    bad = re.findall(r'^test (\S+).*FAILED', out, re.M)
    return rc, n, bad, out

def plant(b, force):
    d = f"{SEED}/{b['id']}"
    if os.path.exists(d + '/meta.json') and not force:
        return None
    sh('git checkout -q -- .', WT)
    for fn, old, new in b['edits']:
        p = f'{WT}/{fn}'
        t = open(p).read()
        if t.count(old) != 1:
            return f'edit matches {t.count(old)} times in {fn}: {old[:60]!r}'
        open(p, 'w').write(t.replace(old, new))
    rc, patch = sh('git diff', WT)
    rc, n, bad, out = tests()
    if rc != 0:
        return f'tests: {bad or out[-1500:]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/main.rs', 'w').write(open(HERE + '/demo/prelude.rs').read() + '\n' + b['demo'].strip() + '\n')
    shutil.copy(HERE + '/demo/Cargo.lock', d + '/Cargo.lock')
    toml = open(HERE + '/demo/Cargo.toml').read()
    if b.get('nostd'):
        toml = toml.replace('{ path = "@REPO@" }', '{ path = "@REPO@", default-features = false }')
    open(d + '/Cargo.toml.in', 'w').write(toml)
    shutil.copy(HERE + '/demo/demo.sh', d + '/demo.sh')
    r1, o1 = sh(['bash', d + '/demo.sh'], REPO)
    r2, o2 = sh(['bash', d + '/demo.sh'], WT)
    if r1 != 0 or r2 in (0, 3):
        shutil.rmtree(d)
        return f'demo: unchanged {r1}, patched {r2}\n{o1[-1500:] if r1 else o2[-1500:]}'
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return f'kept ({n} tests passed)'

def main():
    force = '--force' in sys.argv
    if not os.path.exists(WT):
        shutil.copytree(REPO, WT, symlinks=True)
    head = subprocess.check_output(['git', '-C', REPO, 'rev-parse', 'HEAD'], text=True).strip()
    sh('git checkout -q -- .', WT)
    sh(f'git fetch -q {REPO} HEAD && git reset -q --hard {head}', WT)
    for fn in [a for a in sys.argv[1:] if not a.startswith('-')]:
        ns = {}
        exec(open(fn).read(), ns)
        for b in ns['BUGS']:
            r = plant(b, force)
            if r:
                print(b['id'], r, flush=True)
    sh('git checkout -q -- .', WT)
main()
