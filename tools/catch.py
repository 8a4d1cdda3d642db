#!/usr/bin/env python3
"""catch.py [ID...] [--prop Cxx]: apply each planted bug to /repo, run its property's quick check, undo. Prints
which are caught; results are kept in work/catch.json."""
import json, os, re, subprocess, sys, time
SEED, V = '/verif/seeded', '/verif'
def git(*a): subprocess.run(['git', '-C', '/repo', *a], check=True)
def run(i, prop=None):
    meta = json.load(open(f'{SEED}/{i}/meta.json'))
    prop = prop or meta['property']
    man = json.load(open(V + '/MANIFEST.json'))
    cmd = next(c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in man['checks'] if c.get('property', c.get('id')) == prop)
    git('apply', f'{SEED}/{i}/patch.diff')
    t = time.time()
    try:
        p = subprocess.run(cmd, shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        git('checkout', '-q', '--', '.')
    vio = re.findall(r'VIOLATION property=(\S+)', p.stdout)
    return dict(rc=p.returncode, caught=p.returncode == 1 and prop in vio, s=round(time.time() - t),
                n=len(vio), out=p.stdout[-600:])
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(SEED))
    f = V + '/work/catch.json'
    os.makedirs(V + '/work', exist_ok=True)
    res = json.load(open(f)) if os.path.exists(f) else {}
    for i in ids:
        r = run(i)
        res[i] = r
        json.dump(res, open(f, 'w'), indent=1)
        print(i, json.load(open(f'{SEED}/{i}/meta.json'))['property'], 'CAUGHT' if r['caught'] else 'MISSED', r['rc'], r['s'], 's', flush=True)
        if not r['caught']:
            print(r['out'])
main()
