"""Case profiles: which inputs each property is exercised on.

A profile yields Batches: metadata plus cases. It has no opinion on results."""
import json, random
from . import gen, chain, scale, tool
from .gen import F, V, compact, mutate

class Batch:
    """Metadata and cases of one TLC run."""
    def __init__(self, rng):
        self.r = rng
        self.lines = []        # metadata input lines
        self.cases = []        # case lines
        self.info = {}         # case id -> dict(group=..., tag=...)
        self.n = 0

    def meta(self, m):
        self.lines.append(gen.meta_line(m))
        return len(self.lines)

    def real(self, name):
        self.lines.append(gen.real_line(name))
        return len(self.lines)

    def add(self, m, entry, group=None, tag="", **kw):
        if callable(kw.get("flags")):
            kw["flags"] = kw["flags"]()
        self.n += 1
        self.cases.append(tool.case_line(self.n, m, entry, **kw))
        self.info[str(self.n)] = {"group": group, "tag": tag or entry}
        return self.n

LIMIT = 400          # longest value in the quick tier

def merged(r, batches):
    """one batch of all, in any order but for neighbours"""
    B = Batch(r)
    todo = []
    for x in batches:
        base = len(B.lines)
        B.lines += x.lines
        for c in x.cases:
            w = c.split(" ")
            w[2] = str(int(w[2]) + base)
            todo.append(w)
    n = 8                                 # cases that belong together stay together
    runs = [todo[i:i + n] for i in range(0, len(todo), n)]
    r.shuffle(runs)
    todo = [w for x in runs for w in x]
    for i, w in enumerate(todo, 1):
        w[1] = str(i)
        B.cases.append(" ".join(w))
        B.info[str(i)] = {}
    return B

def twin(r, reg):
    """a registry of the same numbers in which one sort of thing is different"""
    kind = r.choice(["prims", "prims", "variants", "docs", "names", "refs", "paths", "lens"])
    n = len(reg)
    out = json.loads(json.dumps(reg))
    turn = dict(zip(gen.PRIMS, gen.PRIMS[1:] + gen.PRIMS[:1]))
    wider = {"U8": "U16", "U16": "U32", "U32": "U64", "U64": "U128", "U128": "U8"}
    for i, t in enumerate(out):
        if kind == "prims" and t["def"] == "Primitive":
            t["prim"] = wider.get(t["prim"]) or turn[t["prim"]]
        elif kind == "variants" and t["def"] == "Variant" and t["variants"]:
            vs = t["variants"]
            ixs = [v["ix"] for v in vs]
            for v, x in zip(vs, ixs[1:] + ixs[:1]):
                v["ix"] = x
            if r.random() < 0.3:
                vs.pop()
        elif kind == "docs":
            t["docs"] = ["other"] if not t["docs"] else []
        elif kind == "names":
            for fs in [t.get("fields", [])] + [v["fields"] for v in t.get("variants", [])]:
                for x in fs:
                    x["name"] = ["nonce"] if not x["name"] else r.choice([[], [x["name"][0] + "_"], ["spec_version"]])
                    x["tn"] = ["Balance"] if not x["tn"] else []
        elif kind == "paths" and t["path"] and t["path"][-1] not in ("Lsb0", "Msb0"):
            t["path"] = r.choice([[], ["other"] + t["path"], t["path"][:-1]])
        elif kind == "lens" and t["def"] == "Array":
            t["len"] = [0, (t["len"][1] + 1) % 5]
        elif kind == "refs" and i > 20 and r.random() < 0.3:
            if "ty" in t:
                t["ty"] = r.randrange(min(i, n))
            for x in t.get("fields", []):
                x["ty"] = r.randrange(min(i, n))
    return out

def flip(r, b):
    """the same but for one byte, often an end"""
    if not b:
        return b"\0"
    i = r.choice([0, len(b) - 1, len(b) - 1, r.randrange(len(b))])
    return b[:i] + bytes([b[i] ^ r.choice([1, 2, 4, 32, 128, 255])]) + b[i + 1:]

def other_flags(r, f):
    """the display set otherwise in one regard"""
    p = f.split(":")
    i = r.randrange(1, 6)
    p[i] = [None, str((int(p[1]) + 1) % 16384), str((int(p[2]) + 1) % 256), b"OTHER".hex() if p[3] != b"OTHER".hex() else b"X".hex(),
            b"n".hex(), str(1 - int(p[5]))][i]
    return ":".join(p)

def twins(r, count, make, flags=()):
    """neighbouring cases that have nearly everything in common"""
    B = Batch(r)
    for _ in range(count):
        R, vals = make(r)
        t2 = twin(r, R.t)
        v = r.choice([14, 15])
        m = [B.meta(gen.meta_of(R.t, v)), B.meta(gen.meta_of(t2, r.choice([v, 14, 15])))]
        vals2 = gen.Values(r, t2)
        for id in range(len(R.t)):
            if vals.trap(id) or vals2.trap(id):
                continue
            b = value_of(r, vals, id, 200)
            if b is None:
                continue
            b2 = r.choice([b, b, value_of(r, vals2, id, 200) or b])
            k = flags() if callable(flags) else list(flags)
            quads = [(m[0], b, k), (m[1], b2, k), (m[0], flip(r, b), k),
                     (m[0], b, [other_flags(r, k[0])] + k[1:] if k else k)]
            if r.random() < 0.5:
                quads.append((m[0], b[:r.randint(0, len(b))], k))
            r.shuffle(quads)
            for mm, x, kk in quads[:r.choice([2, 3, 4, 5])]:
                if r.random() < 0.8:
                    B.add(mm, "at", buf=x + b"\0", ty=id, flags=kk)
                else:
                    B.add(mm, "at", buf=b"\0\1" + x, ty=id, pos=2, flags=kk)
    return B

def twin_chains(r, count, flags=()):
    B = Batch(r)
    for _ in range(count):
        C, W, m = chain_writer(B, odd=0.0)
        t2 = twin(r, C.meta["reg"])
        ids = [C.xp[k] for k in "case"] + [q for y in C.exts for q in (y["ty"], y["add"])]
        v2 = gen.Values(r, t2)
        meta2 = dict(C.meta, reg=t2)
        if any(v2.trap(x) for x in ids):
            meta2 = dict(C.meta, reg=C.meta["reg"], xver=C.meta["xver"] ^ 1)
        if r.random() < 0.3:
            meta2["exts"] = list(reversed(meta2["exts"]))
        ms = [m, B.meta(meta2)]
        for e in ("mver", "mcall", "mparams", "mexts"):
            for x in ms:
                B.add(x, e)
        for _ in range(2):
            call, ext, x = W.call(), W.ext(), W.extrinsic()
            if len(call) + len(ext) + len(x) > 600:
                continue
            k = flags() if callable(flags) else list(flags)
            k2 = [other_flags(r, k[0])] + k[1:] if k else k
            for e in ("tx", "txu"):
                pre = compact(len(call)) if e == "tx" else b""
                for mm, g, kk in ((ms[0], W.genesis, k), (ms[1], W.genesis, k), (ms[0], flip(r, W.genesis), k), (ms[0], W.genesis, k2), (ms[0], None, k)):
                    B.add(mm, e, buf=pre + call + ext, gh=g, flags=kk)
            for mm in ms:
                B.add(mm, "uxt", buf=compact(len(x)) + x)
                B.add(mm, "uxt", buf=compact(len(x)) + flip(r, x))
    return B

def registry(r, **kw):
    R = gen.Random(r, **kw)
    return R, gen.Values(r, R.t)

def junk(r, n=40):
    return bytes(r.randrange(256) for _ in range(r.randint(0, n)))

def value_of(r, vals, id, limit=LIMIT):
    b = vals.get(id, limit=limit)
    if b is None or len(b) > limit:
        return junk(r) if b is None else None
    return b

def items(B, m, reg, vals, ids, valid=1, bad=1, limit=LIMIT, flags=(), positions=True):
    """Valid and mutated values of the types, whole and at a position."""
    r = B.r
    for id in ids:
        if vals.trap(id):
            continue
        for k in range(valid + bad):
            b = value_of(r, vals, id, limit)
            if b is None:
                continue
            if k >= valid:
                b = mutate(r, b)
            if r.random() < 0.5 or not positions:
                B.add(m, "all", buf=b, ty=id, flags=flags)
            else:
                pre, suf = junk(r, 3), junk(r, 3)
                B.add(m, "at", buf=pre + b + suf, ty=id, pos=len(pre), flags=flags)

def reg_batch(r, count, make, valid=1, bad=1, flags=(), limit=LIMIT, only=None):
    B = Batch(r)
    for _ in range(count):
        R, vals = make(r)
        m = B.meta(gen.meta_of(R.t, r.choice([14, 15])))
        ids = [i for i in range(len(R.t)) if only is None or only(R.t[i])]
        items(B, m, R.t, vals, ids, valid, bad, limit, flags)
    return B

# --- real metadata -------------------------------------------------------------
SMALL_REAL = ["westend9111", "westmint9270", "westmint9270_spoiled_digest", "statemint1002000", "acala2200", "bifrost982"]
def pick_real(r, n=1):
    return r.sample(gen.REAL, n)

_dumps = {}
def real_dump(exe, name):
    if name not in _dumps:
        ms, ss = tool.dump(exe, [gen.real_line(name)])
        _dumps[name] = (ms[0], ss[0])
    return _dumps[name]

def real_items(exe, r, names, count, valid=1, bad=1, flags=(), only=None, limit=LIMIT):
    B = Batch(r)
    for name in names:
        meta, _ = real_dump(exe, name)
        m = B.real(name)
        vals = gen.Values(r, meta["reg"])
        ids = [i for i in range(len(meta["reg"])) if only is None or only(meta["reg"][i])]
        r.shuffle(ids)
        items(B, m, meta["reg"], vals, ids[:count], valid, bad, limit, flags)
    return B

# --- chains ----------------------------------------------------------------------
def chain_writer(B, odd=0.03, extodd=None, right=0.93, wild=0.0, v=None, n=18):
    r = B.r
    while True:
        C = chain.Chain(r, v=v or r.choice([14, 15]), odd=odd, extodd=extodd, wild=wild, n=n)
        W = chain.Writer(r, C.meta, C.ver, C.xp, right=right)
        ids = [C.xp[k] for k in "case"] + [q for y in C.exts for q in (y["ty"], y["add"])]
        if not any(W.vals.trap(x) for x in ids):
            break
    return C, W, B.meta(C.meta)

def real_writer(B, exe, name, right=0.93):
    """writer for a real metadata; None if it declares no extrinsic parts"""
    meta, sts = real_dump(exe, name)
    xp = chain.std_real_params(meta)
    if xp is None:
        return None
    W = chain.Writer(B.r, meta, real_version(meta), xp, right=right)
    return W, B.real(name), sts

def real_version(meta):
    """spec version from the constant: a compact string or two, then u32s"""
    for p in meta["pallets"]:
        if p["name"] == "System":
            for c in p["consts"]:
                if c["name"] == "Version":
                    b, i = bytes(c["value"]), 0
                    for _ in range(2):
                        i += 1 + (b[i] >> 2)
                    return int.from_bytes(b[i + 4:i + 8], "little")
    return 0

def transaction(B, W, m, entries, lens=0.1, bad=0.25, flags=(), group=None, call=None, ext=None, gh="?", limit=900):
    r = B.r
    gh = W.gh() if gh == "?" else gh
    call = W.call() if call is None else call
    ext = W.ext() if ext is None else ext
    if len(call) + len(ext) > limit:
        return
    L = len(call)
    pre = compact(L)
    if r.random() < bad / 3:               # cut where one part ends
        ext = ext[:r.choice(W.cuts)]
    k = r.random()
    if k < lens:
        j = r.randrange(11)
        if j >= 9:                         # more in the call than it takes, announced rightly
            call = call + (junk(r, 3) or b"\0") if j == 9 else call + bytes(r.randrange(256) for _ in range(r.choice([1, 9, 70])))
            pre = compact(len(call))
        elif j == 0:
            pre = compact(L + 1)
        elif j == 1:
            pre = compact(max(0, L - 1))
        elif j == 2:
            pre = compact(r.randint(0, L + len(ext) + 2))
        elif j == 3:
            pre = compact(L + len(ext))
        elif j == 4:
            pre = compact(L + len(ext) + 1)
        elif j == 5:
            pre = compact(r.choice([2**16, 2**30 - 1, 2**30, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64 - L]))
        elif j == 6:                       # not canonical
            pre = r.choice([(L * 4 + 1).to_bytes(4, "little")[:2], (L * 4 + 2).to_bytes(4, "little"),
                            b"\x03" + L.to_bytes(4, "little"), b"\x07" + L.to_bytes(5, "little")])
        elif j == 7:
            pre = b""
        else:
            call = mutate(r, call)
    cut = r.random() < bad
    for e in entries:
        if e in ("tx", "dcall", "dext", "mark"):
            b = pre + call + ext
        elif e in ("txu", "call"):
            b = call + ext
        else:
            b = ext
        kw = {}
        if cut:
            j = r.randrange(6)
            if j == 0:
                b = b[:len(b) - r.randint(1, max(1, min(len(b), 5)))]
            elif j == 1:
                b = b + junk(r, 3)
            elif j == 2:
                i = r.randint(0, len(b))
                b = b[:i]
            else:
                b = mutate(r, b)
        if e in ("call", "ext") and r.random() < 0.3:
            p = junk(r, 4)
            b, kw = p + b, {"pos": len(p)}
        B.add(m, e, buf=b, gh=gh, flags=flags, group=group, **kw)

def chains_batch(r, count, entries, reps, **kw):
    B = Batch(r)
    ckw = {k: kw.pop(k) for k in ("odd", "extodd", "right", "wild", "v", "n") if k in kw}
    for _ in range(count):
        C, W, m = chain_writer(B, **ckw)
        for _ in range(reps):
            transaction(B, W, m, entries, **kw)
    return B

def real_tx_batch(exe, r, names, entries, reps, **kw):
    B = Batch(r)
    right = kw.pop("right", 0.93)
    for name in names:
        w = real_writer(B, exe, name, right)
        if w is None:
            continue
        W, m, _ = w
        for _ in range(reps):
            transaction(B, W, m, entries, **kw)
    return B

def storage_batch(exe, r, count, reps, names=(), entries=("storage", "key"), flags=(), odd=0.06, real_reps=120, bad=0.4):
    B = Batch(r)
    def one(m, vals, st, limit=500):
        if vals.trap(st["val"]) or not st["plain"] and vals.trap(st["key"]):
            return
        k, v = chain.storage_case(r, vals, st)
        if len(k) + len(v) > limit:
            return
        if r.random() < bad:
            j = r.randrange(8)
            if j < 3:
                k = k[:32] + mutate(r, k[32:])
            elif j == 3:
                v = mutate(r, v)
            elif j == 4:
                k = k[:r.choice([0, 31, 32, 33, r.randint(0, len(k))])]
            elif j == 5:
                k = k + junk(r, 4)
            elif j == 6 and len(k) > 32:          # one bit of a hash or a key
                i = r.randrange(32, len(k))
                k = k[:i] + bytes([k[i] ^ (1 << r.randrange(8))]) + k[i + 1:]
            else:
                v = v + junk(r, 2)
        e = r.choice(entries)
        if e == "key" and st["plain"]:
            e = "storage"
        B.add(m, e, bufs=[k, v], st=st, pos=32 if e == "key" else 0, flags=flags)
    for _ in range(count):
        R = gen.Random(r, n=20, special=0.25)
        m = B.meta(gen.meta_of(R.t, r.choice([14, 15])))
        vals0 = None
        sts = [chain.random_storage(r, R, odd) for _ in range(6)]
        B.lines[-1] = gen.meta_line(gen.meta_of(R.t, r.choice([14, 15])))
        vals = gen.Values(r, R.t)
        for st in sts:
            for _ in range(reps):
                one(m, vals, st)
    for name in names:
        meta, ss = real_dump(exe, name)
        m = B.real(name)
        vals = gen.Values(r, meta["reg"])
        for _ in range(real_reps):
            st = dict(r.choice(ss))
            one(m, vals, st, 400)
    return B

def uxt_batch(exe, r, count, reps, names=(), flags=(), odd=0.05, real_reps=60, bad=0.3):
    B = Batch(r)
    def one(W, m):
        b = W.extrinsic()
        if len(b) > 900:
            return
        L = len(b)
        if r.random() < bad:
            j = r.randrange(7)
            if j == 0:
                L += r.choice([-1, 1])
            elif j == 1:
                b += junk(r, 4)
            elif j == 2:
                b = mutate(r, b)
                L = len(b)
            elif j == 3:
                b = mutate(r, b)
            elif j == 4:
                b = bytes([r.choice([b[0] ^ 128, b[0] ^ 1, 4, 132, 0, 255])]) + b[1:]
            elif j == 5:
                L = r.choice([0, 1, 2**31, 2**32 - 1, 2**32])
            else:
                b = b[:r.randint(0, len(b))]
                L = len(b)
        B.add(m, "uxt", buf=compact(max(0, L)) + b, flags=flags)
    for _ in range(count):
        C, W, m = chain_writer(B, odd=odd)
        if r.random() < 0.15:                  # versions that no seven bits hold
            C.meta["xver"] = r.choice([127, 128, 129, 132, 133, 200, 255])
            B.lines[-1] = gen.meta_line(C.meta)
        for _ in range(reps):
            one(W, m)
    for name in names:
        w = real_writer(B, exe, name)
        if w:
            for _ in range(real_reps):
                one(w[0], w[1])
    return B

def meta_batch(r, count, names=(), odd=0.08, flags=()):
    B = Batch(r)
    for _ in range(count):
        C = chain.Chain(r, v=r.choice([14, 14, 15]), odd=odd, n=6)
        m = B.meta(C.meta)
        for e in ("mver", "mcall", "mparams", "mexts"):
            B.add(m, e, flags=flags)
    for name in names:
        m = B.real(name)
        for e in ("mver", "mcall", "mparams", "mexts"):
            B.add(m, e, flags=flags)
    return B

# --- focused registries -------------------------------------------------------------
W0 = {"Composite": 0, "Variant": 0, "Sequence": 0, "Array": 0, "Tuple": 0, "Compact": 0, "BitSequence": 0,
      "Pallet": 0, "Multi": 0, "Primitive": 0}

def default_registry(r):
    return registry(r, n=r.choice([10, 25, 40]), wild=r.choice([0, 0, 0.03]), special=r.choice([0.1, 0.3, 0.5]))

def compact_registry(r):
    """compacts around chains of wrappers"""
    R = gen.Random(r, n=8, special=0.4)
    targets = []
    for _ in range(14):
        k = r.random()
        if k < 0.45:
            x = R.uref()
        elif k < 0.65:
            p = r.choice(list(gen.PERS))
            w = R.p[{1: "U8", 2: "U16", 4: "U32", 8: "U64"}[gen.PERS[p]]]
            x = R.comp([F(r.choice([w, w, R.ref()]))], path=["sp_arithmetic", "per_things", p])
        else:
            x = R.ref()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            j = r.randrange(10)
            if j < 4:
                x = R.comp([F(x, r.choice([None, "nonce", "a"]), r.choice([None, "Balance"]))], path=R.path(),
                           docs=R.docs())
            elif j < 7:
                x = R.tuple([x], docs=R.docs())
            elif j == 7:
                x = R.comp([F(x), F(R.tuple([]))])
            elif j == 8:
                x = R.tuple([x, R.tuple([])])
            else:
                x = R.compact(x)
        targets.append(R.compact(x, docs=R.docs()))
    for _ in range(10):                    # elements that are compacts, of compacts too
        x = r.choice(targets)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            x = R.comp([F(x, r.choice([None, "nonce", "a"]))], path=R.path(), docs=R.docs())
        if r.random() < 0.35:
            x = R.compact(x, docs=R.docs())
        x = R.array(x, r.choice([0, 1, 2])) if r.random() < 0.3 else R.seq(x)
    targets.append(R.compact(R.comp([])))
    targets.append(R.compact(R.tuple([])))
    targets.append(R.compact(R.variant([])))
    targets.append(R.compact(R.variant([V("a", 0), V("b", 4, [F(R.p["U8"])])])))
    return R, gen.Values(r, R.t)

def sequence_registry(r):
    """sequences and arrays of everything, elements in wrappers and with hints"""
    R = gen.Random(r, n=10, special=0.2)
    for _ in range(16):
        k = r.random()
        if k < 0.35:
            x = R.uref()
        elif k < 0.55:
            x = R.seq(R.wrapped_u8() if hasattr(R, "wrapped_u8") else R.p["U8"], docs=R.docs())
        elif k < 0.62:
            x = R.array(R.p["U8"], r.choice([0, 1, 3]))
        elif k < 0.7:                             # empty or byte vectors, by variant
            a = R.seq(R.p["U8"])
            b = R.seq(R.p["U16"])
            x = R.variant([V("A", 0, [F(a)]), V("B", 1, [F(b)])])
        else:
            x = R.ref()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            j = r.randrange(8)
            if j < 4:
                x = R.comp([F(x, r.choice([None, "nonce", "value"]), r.choice([None, "Balance", "u8"]), R.docs())],
                           path=R.path(special=r.random() < 0.3), docs=R.docs())
            elif j == 4:
                x = R.compact(x, docs=R.docs())
            elif j == 5:
                x = R.seq(x, docs=R.docs())
            elif j == 6:
                x = R.tuple([x])
            else:
                x = R.comp([F(x), F(R.p["U8"])])
        if r.random() < 0.6:
            R.seq(x, docs=R.docs())
        else:
            R.array(x, r.choice([0, 1, 2, 3, 5]), docs=R.docs())
        if r.random() < 0.3:
            s = R.seq(x)
            R.seq(s, docs=R.docs())
    vals = SeqValues(r, R.t)
    return R, vals

class SeqValues(gen.Values):
    """mixes empty and non-empty inner sequences more"""
    def val(self, id, cmp=False, depth=0):
        if not cmp and 0 <= id < len(self.reg):
            t = self.reg[id]
            if t["def"] == "Sequence" and depth and self.r.random() < 0.25 and not gen.hinted(t):
                return b"\0"
        return super().val(id, cmp, depth)

def special_registry(r):
    """paths with a meaning on top of every kind of definition"""
    R = gen.Random(r, n=6, special=0.3)
    kinds = ["prim", "comp0", "comp1", "comp2", "variant", "seq", "array", "tuple", "compact"]
    for a in gen.SPECIALS + ["Public", "Public", "Public", "Signature", "Signature", "Signature"]:
        ns = r.choice(gen.NAMESPACES)
        if a in ("Public", "Signature"):
            ns = r.choice([["sp_core", "ed25519"], ["sp_core", "sr25519"], ["sp_core", "ecdsa"]] * 2 +
                          [["sp_core", "ed25519", "inner"], ["other", "ed25519"], ["ed25519"], ["sp_core"], [],
                           ["sp_core", "crypto"], ["my", "sp_core", "sr25519"]])
        if r.random() < 0.12:
            a = gen.near(r, a)
        elif ns and r.random() < 0.12:
            i = r.randrange(len(ns))
            ns = ns[:i] + [gen.near(r, ns[i])] + ns[i + 1:]
        path, docs = list(ns) + [a], R.docs()
        k = r.choice(kinds)
        if a in ("Call", "RuntimeCall", "Event", "RuntimeEvent", "MultiSignature") and r.random() < 0.5:
            k = "variant"
        kw = {"path": path, "docs": docs}
        if k == "prim":
            x = R.prim(r.choice(gen.PRIMS), **kw)
        elif k == "variant":
            x = R.variant([V("A", 0), V("B", 1, [F(R.ref())])][:r.choice([0, 1, 2, 2])], **kw)
        elif k == "seq":
            x = R.seq(R.ref(), **kw)
        elif k == "array":
            x = R.array(R.ref(), r.choice([0, 1, 4, 32]), **kw)
        elif k == "tuple":
            x = R.tuple([R.ref() for _ in range(r.choice([0, 1, 2]))], **kw)
        elif k == "compact":
            x = R.compact(R.uref(), **kw)
        else:
            x = R.comp([R.field() for _ in range(int(k[-1]))], **kw)
        j = r.random()
        if j < 0.15:
            R.seq(x)
        elif j < 0.25:
            R.compact(x)
        elif j < 0.35:
            R.comp([F(x, "a"), F(R.p["U8"], "b")])
    for _ in range(3):
        gen.multi_signature(R, r)
    return R, gen.Values(r, R.t)

def call_registry(r):
    R = gen.Random(r, n=10, special=0.15)
    for _ in range(4):
        t = gen.call_tree(R, r.choice(["call", "event"]), R.ref, R.docs, odd=0.4)
        k = r.random()
        if k < 0.3:
            R.seq(t, docs=R.docs())
        elif k < 0.5:
            R.comp([F(t, r.choice([None, "call"]), "Box<Call>", R.docs())], docs=R.docs())
        elif k < 0.6:
            R.compact(t)
        elif k < 0.7:
            gen.call_tree(R, "call", lambda: t, R.docs, odd=0.1)
    return R, gen.Values(r, R.t)

def hint_registry(r):
    """numbers, texts and hashes at the end of chains of named wrappers"""
    R = gen.Random(r, n=6, special=0.15, hints=0.9)
    ends = [R.p[u] for u in gen.UINTS] + [R.p["Str"], R.p["I32"], R.p["Bool"],
            R.comp([F(R.array(R.p["U8"], 32))], path=["primitive_types", "H256"]),
            R.comp([F(R.array(R.p["U8"], 32))], path=["sp_core", "crypto", "AccountId32"])]
    hp = ["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"]
    for _ in range(22):
        x = r.choice(ends)
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            j = r.randrange(12)
            name = r.choice(gen.FIELD_NAMES + [None] * 4)
            tn = r.choice(gen.TYPE_NAMES + [None] * 4)
            name, tn = name and gen.maybe(r, name, 0.15), tn and gen.maybe(r, tn, 0.15)
            path = ["frame_system", gen.maybe(r, r.choice(hp), 0.15)] if r.random() < 0.3 else []
            if j < 5:
                x = R.comp([F(x, name, tn, R.docs())], path=path)
            elif j == 5:
                x = R.tuple([x], path=path)
            elif j == 6 and R.t[x]["def"] != "Compact":
                x = R.compact(x, path=path)
            elif j == 7:
                x = R.seq(x, path=path)
            elif j == 8:
                x = R.array(x, r.choice([1, 2]), path=path)
            elif j == 9:
                x = R.comp([F(x, name, tn), F(r.choice(ends), "b", None)][::r.choice([1, -1])], path=path)
            elif j == 10:
                x = R.tuple([x, r.choice(ends)], path=path)
            else:
                x = R.variant([V("A", 0, [F(x, name, tn)])], path=path)
        r.random() < 0.5 and ends.append(x)
    return R, gen.Values(r, R.t)

def docs_registry(r):
    return registry(r, n=30, special=0.2, docs=0.5)

def bits_registry(r):
    R = gen.Random(r, n=3, special=0.1)
    for _ in range(14):
        k = r.random()
        o = R.comp([], path=["bitvec", "order", gen.maybe(r, r.choice(["Lsb0", "Msb0"]), 0.12)])
        s = R.p[r.choice(["U8", "U16", "U32", "U64"])]
        if k < 0.08:
            s = R.p[r.choice(["U128", "I8", "Bool", "U256", "Char", "Str"])]
        elif k < 0.13:
            s = R.comp([F(s)])
        elif k < 0.2:
            o = r.choice([R.p["U8"], R.tuple([]), R.comp([], path=["bitvec", "order", "Lsb"]), R.comp([]),
                          R.variant([], path=["Lsb0"]), R.comp([F(R.p["U8"])], path=["Msb0"])])
        elif k < 0.24:
            s = len(R.t) + 99
        elif k < 0.28:
            o = len(R.t) + 99
        b = R.bits(o, s, docs=R.docs())
        if r.random() < 0.15:
            R.compact(b)
        if r.random() < 0.1:
            R.seq(b)
    return R, gen.Values(r, R.t)

def wild_registry(r):
    """dangling and cyclic references everywhere"""
    return registry(r, n=r.choice([6, 12, 25]), wild=r.choice([0.1, 0.3, 0.6]), special=r.choice([0.1, 0.4]))
