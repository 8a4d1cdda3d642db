"""What each property's check runs: a generator of batches per property.

Each plan(E, r, big) yields Batch objects; big asks for the thorough tier."""
import random
from . import gen, chain, profiles as P, scale
from .gen import F, V, compact, mutate

def C01(E, r, big):
    yield P.reg_batch(r, 45, P.default_registry, 1, 1)
    yield P.reg_batch(r, 10, P.sequence_registry, 1, 1)
    yield P.reg_batch(r, 10, P.hint_registry, 1, 0)
    yield counts(r, 6)
    yield P.real_items(E.exe, r, P.pick_real(r, 2), 300, 1, 1)
    yield P.real_items(E.exe, r, ["polkadot1003003_v15"], 200, 1, 1)

def counts(r, each, lsb=True):
    """declared lengths that data falls short of, though not in few bits"""
    B = P.Batch(r)
    R = gen.Random(r, n=6)
    p = R.p
    o = [R.comp([], path=["bitvec", "order", n]) for n in ("Lsb0", "Msb0")]
    of = [p["U8"], p["Bool"], p["U16"], p["Str"], R.compact(p["U32"]), R.tuple([p["U8"], p["I8"]]),
          R.variant([V("None", 0), V("Some", 1, [F(p["U8"])])], path=["Option"]), R.array(p["U8"], 4)]
    seqs = [(R.seq(t), t) for t in of] + [(p["Str"], p["U8"])] + \
        [(R.bits(x, p[s]), p[s]) for x in o for s in ("U8", "U16", "U64")]
    boxed = [(R.comp([F(s, "a")]), t) for s, t in seqs] + [(R.tuple([p["U8"], s]), t) for s, t in seqs[:9]]
    arrays = [R.array(t, n) for t in of for n in (256, 65536, 65537, 65539, 2**24 + 1, 2**31, 2**32 - 1)]
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t, 14))
    for id, t in seqs + boxed:
        for _ in range(each):
            n = r.choice([0, 1, 1, 2, 3, 5])
            els = b"".join(bytes([0x41]) if id == p["Str"] else vals.val(t) for _ in range(n))
            if R.t[id]["def"] == "BitSequence":
                n *= 8 * gen.UINTS[R.t[t]["prim"]]
            b = compact(n + gen.alias(r)) + els
            if R.t[id]["def"] == "Tuple":
                b = bytes([r.randrange(256)]) + b
            B.add(m, r.choice(["all", "at"]), buf=b, ty=id)
    for a in arrays:
        n = r.randint(0, 4)
        B.add(m, "all", buf=b"".join(vals.val(R.t[a]["ty"]) for _ in range(n)), ty=a)
    return B

def C02(E, r, big):
    for make, count in ((P.default_registry, 22), (P.sequence_registry, 5), (P.bits_registry, 4), (P.special_registry, 5)):
        B = P.Batch(r)
        for _ in range(count):
            R, vals = make(r)
            m = B.meta(gen.meta_of(R.t, 14))
            for id in range(len(R.t)):
                if vals.trap(id) or r.random() < 0.25:
                    continue
                b = P.value_of(r, vals, id, 150)
                if b is None:
                    continue
                g = (m, id, B.n)
                B.add(m, "all", buf=b, ty=id, group=g, tag="plain")
                pre, suf = P.junk(r, 5) + b"\0", r.choice([P.junk(r, 4), b"\0", b"\0\0\0\0", b"\xff", b]) + b"\1"
                B.add(m, "at", buf=pre + b, ty=id, pos=len(pre), group=g, tag="before")
                B.add(m, "at", buf=b + suf, ty=id, pos=0, group=g, tag="after")
                B.add(m, "at", buf=pre + b + suf, ty=id, pos=len(pre), group=g, tag="both")
                B.add(m, "all", buf=b + suf[:r.choice([1, 1, 2, len(suf)])], ty=id, group=g, tag="left")
                cuts = set(r.sample(range(len(b)), min(len(b), 2)))
                if b:
                    cuts.add(len(b) - 1)
                for k in cuts:
                    B.add(m, "all", buf=b[:k], ty=id, group=g, tag="prefix")
                if r.random() < 0.1:
                    n = len(b)
                    B.add(m, "at", buf=b, ty=id, pos=n + r.choice([0, 1, 7]), group=g, tag="past")
        yield B
    B = P.real_items(E.exe, r, P.pick_real(r, 1), 250, 1, 1)
    yield B
    yield far(r)

def far(r):
    """items at positions of more than two bytes, and around the edges"""
    B = P.Batch(r)
    R, vals = P.default_registry(r)
    m = B.meta(gen.meta_of(R.t, 14))
    ids = [i for i in range(len(R.t)) if not vals.trap(i)]
    for n in (255, 256, 4095, 4096, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65700):
        for id in r.sample(ids, min(len(ids), 3 if n > 20000 else 5)):
            b = P.value_of(r, vals, id, 150)
            if b is None:
                continue
            if r.random() < 0.3:
                b = mutate(r, b)
            pre = bytes(r.randrange(256) for _ in range(n))
            B.add(m, "at", buf=pre + b + P.junk(r, 3), ty=id, pos=n)
    return B

def C03(E, r, big):
    def broken(make, count, each):
        B = P.Batch(r)
        for _ in range(count):
            R, vals = make(r)
            m = B.meta(gen.meta_of(R.t, r.choice([14, 15])))
            for id in range(len(R.t)):
                if vals.trap(id):
                    continue
                b = P.value_of(r, vals, id, 150)
                if b is None:
                    continue
                for _ in range(each):
                    pre = P.junk(r, 3)
                    k = r.randrange(6)
                    x = b
                    if k == 0 and b:
                        x = b[:r.randrange(len(b))]
                    elif k == 1 and b:
                        x = b[:-1]
                    elif k == 2:
                        B.add(m, "at", buf=b, ty=id, pos=len(b) + r.choice([0, 1, 2, 9]))
                        continue
                    elif k == 3:
                        B.add(m, "all", buf=b + P.junk(r, 3), ty=id)
                        continue
                    else:
                        x = mutate(r, b)
                    B.add(m, "at", buf=pre + x, ty=id, pos=len(pre))
        return B
    yield broken(P.default_registry, 40, 3)
    yield broken(P.compact_registry, 6, 3)
    yield broken(P.special_registry, 6, 3)
    yield broken(P.bits_registry, 4, 3)
    yield broken(bad_texts, 6, 6)
    yield P.chains_batch(r, 12, ["tx", "txu", "ext", "call"], 4, lens=0.2, bad=0.6, odd=0.06)
    yield P.chains_batch(r, 10, ["tx", "txu"], 6, lens=1.0, bad=0.0, odd=0.0, extodd=0.0)
    yield P.storage_batch(E.exe, r, 6, 3, bad=0.8)
    yield P.uxt_batch(E.exe, r, 8, 6, bad=0.7)
    yield P.meta_batch(r, 20, odd=0.12)
    yield P.real_items(E.exe, r, P.pick_real(r, 1), 300, 0, 2)

def bad_texts(r):
    """texts, chars, bools, eras, fractions: types that refuse some values"""
    R = gen.Random(r, n=0)
    p = R.p
    R.seq(p["Str"])
    R.seq(p["Char"])
    R.seq(p["Bool"])
    R.seq(R.comp([], path=["Era"]))
    for k in gen.PERS:
        x = R.comp([], path=["sp_arithmetic", "per_things", k])
        R.seq(x)
        R.array(x, 2)
    R.comp([F(p["Str"], "a"), F(p["Char"], "b"), F(p["Bool"], "c")])
    return R, BadValues(r, R.t)

class BadValues(gen.Values):
    """values that are refused now and then"""
    def val(self, id, cmp=False, depth=0):
        r = self.r
        if r.random() < 0.5 or not 0 <= id < len(self.reg):
            return super().val(id, cmp, depth)
        t = self.reg[id]
        h = gen.hinted(t)
        if h in gen.PERS:
            v = gen.PERMAX[h] + r.choice([0, 1, 1, 2])
            v %= 256 ** gen.PERS[h]
            return compact(v) if cmp else v.to_bytes(gen.PERS[h], "little")
        if h == "Era":
            return bytes([r.randrange(256), r.randrange(256)])
        if t["def"] == "Primitive" and not h:
            if t["prim"] == "Char":
                return r.choice([0xd800, 0xdfff, 0x110000, 0xffffffff, 0xd7ff, 0xe000, 0x10ffff, 0x01000041]).to_bytes(4, "little")
            if t["prim"] == "Bool":
                return bytes([r.choice([0, 1, 2, 255])])
            if t["prim"] == "Str":
                b = r.choice([b"\xff", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
                              b"\xf0\x80\x80\x80", b"\x80", b"a\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\x9f\xbf",
                              b"\xf4\x8f\xbf\xbf", b"ok\xc3\xa9", b"\xf5\x80\x80\x80", b"\xc2\x80", b"\xe0\xa0\x80"])
                return compact(len(b)) + b
        return super().val(id, cmp, depth)

def C04(E, r, big):
    B = P.Batch(r)
    B.meta(gen.meta_of([{"path": [], "docs": [], "params": [], "def": "Tuple", "tys": []}]))
    def cmp(b, w, pre=b""):
        B.add(1, "cmp", buf=pre + b, ty=w, pos=len(pre))
    for w in (1, 2, 4, 8, 16):
        for x in range(256):
            cmp(bytes([x]), w)
            cmp(bytes([x, r.randrange(256), r.choice([0, 1, r.randrange(256)])]), w)
        two = [(x << 2 | 1) for x in (0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 257, 16383)]
        for x in two + [r.randrange(65536) for _ in range(40)]:
            cmp(x.to_bytes(2, "little"), w, P.junk(r, 2))
        four = [(x << 2 | 2) for x in (0, 63, 64, 255, 256, 16383, 16384, 16385, 65535, 65536, 65537, 2**30 - 1)]
        for x in four + [r.randrange(2**32) for _ in range(30)]:
            cmp(x.to_bytes(4, "little"), w, P.junk(r, 2))
        for n in range(4, 68):
            for body in (bytes(n), b"\xff" * n, bytes(n - 1) + b"\1", b"\xff" * (n - 1) + b"\0",
                         bytes(n - 1) + b"\x3f", bytes(n - 1) + b"\x40", P.Batch and bytes(r.randrange(256) for _ in range(n))):
                if n <= w + 2 or r.random() < 0.1:
                    cmp(bytes([(n - 4) << 2 | 3]) + body, w)
                    if r.random() < 0.2:
                        cmp(bytes([(n - 4) << 2 | 3]) + body[:r.randrange(n)], w)
                    if r.random() < 0.2:
                        cmp(bytes([(n - 4) << 2 | 3]) + body + b"\0", w)
        B.add(1, "cmp", buf=b"\4", ty=w, pos=1)
        B.add(1, "cmp", buf=b"\4", ty=w, pos=2)
        B.add(1, "cmp", buf=b"", ty=w, pos=0)
    yield B
    yield P.reg_batch(r, 26, P.compact_registry, 2, 2, only=lambda t: True)

def C05(E, r, big):
    yield P.chains_batch(r, 30, ["tx", "dcall", "dext", "mark"], 5, lens=0.6, bad=0.3, odd=0.01)
    yield P.chains_batch(r, 20, ["tx"], 6, lens=0.3, bad=0.8, odd=0.0)
    yield swaps(r, 14)
    yield long_calls(r)
    yield bulky(r, ["tx", "mark"])
    yield P.real_tx_batch(E.exe, r, ["westend9111"] + P.pick_real(r, 1), ["tx", "mark"], 40, lens=0.5, bad=0.4)

def long_calls(r):
    """calls longer than two bytes count, in every form of the prefix"""
    B = P.Batch(r)
    for _ in range(2):
        C, W, m = P.chain_writer(B, odd=0.0)
        gh = W.genesis
        call, ext = W.call(), W.ext()
        for n in (63, 64, 255, 256, 16383, 16384, 65535, 65536, 65536 + len(call)):
            b = compact(n) + (call + bytes(max(0, n - len(call))))[:n] + ext
            es = ["mark", "dext", "tx"] if n < 60000 else r.sample(["mark", "dext", "tx"], 2)
            for e in es:
                B.add(m, e, buf=b, gh=gh)
            B.add(m, "mark", buf=b[:-len(ext) - 1])
    return B

def swaps(r, count):
    """the same call with other extensions and the same extensions with other
    calls; ends of one part that look like the start of the other"""
    B = P.Batch(r)
    for _ in range(count):
        C, W, m = P.chain_writer(B, odd=0.0)
        calls = [W.call() for _ in range(3)]
        exts = [W.ext() for _ in range(3)]
        gh = W.genesis
        for c in calls:
            for x in exts:
                if len(c) + len(x) < 700:
                    B.add(m, "tx", buf=compact(len(c)) + c + x, gh=gh)
                    for k in (1, 2):
                        if len(c) >= k:
                            B.add(m, "tx", buf=compact(len(c) - k) + c + x, gh=gh)
                        B.add(m, "tx", buf=compact(len(c) + k) + c + x, gh=gh)
    return B

def C06(E, r, big):
    yield P.chains_batch(r, 60, ["tx", "ext"], 5, lens=0.0, bad=0.03, odd=0.0, extodd=0.25, right=0.7)
    yield small_exts(r, 260, 16)
    yield P.chains_batch(r, 30, ["txu", "dext"], 5, lens=0.0, bad=0.03, odd=0.01, extodd=0.1, right=0.85)
    yield P.real_tx_batch(E.exe, r, ["westend9111"] + P.pick_real(r, 1), ["tx", "txu"], 40, lens=0, bad=0.03, right=0.6)

def small_exts(r, count, each):
    """small chains: every width and form of the version, hashes and eras in
    several forms, once, twice or not at all, in any order"""
    B = P.Batch(r)
    for _ in range(count):
        R = gen.Registry(r)
        p = R.prims()
        unit = R.tuple([])
        h = R.comp([F(R.array(p["U8"], 32))], path=["primitive_types", "H256"])
        era = R.variant([V("Immortal", 0), V("Mortal1", 1, [F(p["U8"])])], path=["sp_runtime", "generic", "era", "Era"])
        outer, inner = len(R.t), len(R.t) + 1
        R.variant([V("Sys", 0, [F(inner)])], path=["rt", "RuntimeCall"])
        R.variant([V("go", 0), V("put", 1, [F(p["U8"], "x")])], path=["sys", "pallet", "Call"])
        def form(x):
            k = r.randrange(12)
            return x if k < 6 else R.comp([F(x, r.choice([None, "spec_version", "nonce"]))]) if k < 8 else \
                R.comp([F(R.comp([F(x)]))]) if k == 8 else R.tuple([x]) if k == 9 else \
                R.comp([F(x, "a"), F(unit, "b")]) if k == 10 else R.comp([F(x)], path=["x", r.choice(gen.EXT_IDS)])
        vt = r.choice(list(gen.UINTS))
        ver = r.choice([0, 1, 71, 255, 300, 9111, 2**32 - 1, 2**32 + 5, 2**64 - 1]) % 256 ** gen.UINTS[vt]
        vty = R.comp([F(p["Str"], "spec_name"), F(p[vt], "spec_version")])
        value = b"\4x" + ver.to_bytes(gen.UINTS[vt], "little")
        exts = []
        def uint(w):
            x = p[w]
            return R.compact(x) if r.random() < 0.25 else x
        def versioned():
            return ("CheckSpecVersion", unit, form(uint(r.choice(list(gen.UINTS)))))
        base = [versioned, lambda: ("CheckGenesis", unit, form(h)), lambda: ("CheckMortality", form(era), form(h))]
        for k in base:
            for _ in range(r.choice([1, 1, 1, 1, 1, 0, 2] if r.random() < 0.5 else [1])):
                exts.append(k())
        if r.random() < 0.4:
            exts.append((gen.ext_id(r, 0.3), form(r.choice([unit, era, h, p["U32"]])), form(r.choice([unit, h, p["U64"]]))))
        if r.random() < 0.2:
            exts = [(a, d, b) if r.random() < 0.5 else (a, b, d) for a, b, d in exts]
        if r.random() < 0.15:
            exts = [(gen.maybe(r, a, 0.3), b, d) for a, b, d in exts]
        r.random() < 0.6 and r.shuffle(exts)
        es = [{"id": a, "ty": b, "add": d} for a, b, d in exts]
        xp = {"a": p["U8"], "c": outer, "s": p["U8"], "e": unit}
        meta = gen.meta_of(R.t, 15, [{"name": "System", "consts": [{"name": "Version", "ty": vty, "value": list(value)}]}],
                           es, 0, 4, xp)
        m = B.meta(meta)
        W = chain.Writer(r, meta, ver, xp, right=r.choice([0.9, 0.5, 0.2]))
        for _ in range(each):
            W.genesis = bytes(r.choice([0, 1, 255, r.randrange(256)]) for _ in range(32))
            gh = W.gh()
            if gh and r.random() < 0.3:                 # one bit or byte off
                i = r.randrange(32)
                gh = gh[:i] + bytes([gh[i] ^ (1 << r.randrange(8))]) + gh[i + 1:]
            P.transaction(B, W, m, [r.choice(["ext", "ext", "tx", "txu", "dext"])], lens=0, bad=0.02, gh=gh)
    return B

def small_versions(r, count):
    """version constants of a few fields of every form, in any order"""
    B = P.Batch(r)
    for _ in range(count):
        R = gen.Registry(r)
        p = R.prims()
        def field():
            k = r.randrange(10)
            n = gen.maybe(r, r.choice(["spec_version", "spec_version", "spec_name", "spec_name", "impl_name", "nonce",
                                       "transaction_version"]), 0.1)
            if k < 5:
                n = "spec_version" if r.random() < 0.7 else n
                w = r.choice(list(gen.UINTS))
                x = r.choice([0, 1, 9111, 2**32 - 1, 2**64 - 1, 2**128 - 1]) % 256 ** gen.UINTS[w]
                t, b = (p[w], x.to_bytes(gen.UINTS[w], "little")) if r.random() < 0.8 else (R.compact(p[w]), compact(x))
            elif k < 8:
                n = "spec_name" if r.random() < 0.7 else n
                x = r.choice([b"", b"node", "\u00e9".encode(), b"\xff"] if r.random() < 0.1 else [b"node", b"a b"])
                t, b = p["Str"], compact(len(x)) + x
            else:
                t, b = r.choice([(p["U8"], b"\7"), (p["I32"], b"\1\0\0\0"), (p["Bool"], b"\1"), (R.seq(p["U8"]), b"\x08ab"),
                                 (R.tuple([]), b"")])
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                t = R.comp([F(t, r.choice([None, None, "spec_version", "spec_name", "x"]))]) if r.random() < 0.7 else R.tuple([t])
            return F(t, n if r.random() < 0.95 else None), b
        fs = [field() for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
        if r.random() < 0.7:
            fs.insert(r.randrange(len(fs) + 1), (F(p["Str"], "spec_name"), b"\x08ok"))
        if r.random() < 0.5:
            fs.insert(r.randrange(len(fs) + 1), (F(p["U32"], "spec_version"), b"\5\0\0\0"))
        vty = R.comp([f for f, _ in fs])
        data = b"".join(b for _, b in fs)
        if r.random() < 0.05:
            data = mutate(r, data)
        if r.random() < 0.03:
            vty = r.choice([R.tuple([vty]), R.comp([F(vty)]), R.variant([V("A", 0)])])
        m = B.meta(gen.meta_of(R.t, 15, [{"name": "System", "consts": [{"name": "Version", "ty": vty, "value": list(data)}]}],
                               [], 0, 4, {"a": 0, "c": 0, "s": 0, "e": 0}))
        B.add(m, "mver")
        if r.random() < 0.1:
            B.add(m, "ext")
    return B

def C07(E, r, big):
    yield P.chains_batch(r, 60, ["ext", "dext"], 5, lens=0.0, bad=0.05, odd=0.0, extodd=0.2, right=0.95)
    yield P.chains_batch(r, 25, ["tx", "txu"], 3, lens=0.0, bad=0.05, odd=0.0, extodd=0.3, right=0.95)
    yield small_exts(r, 120, 5)
    yield P.real_tx_batch(E.exe, r, P.pick_real(r, 2), ["ext"], 25, lens=0, bad=0.05)

def C08(E, r, big):
    B = P.Batch(r)
    for _ in range(40):
        C, W, m = P.chain_writer(B, odd=r.choice([0.0, 0.0, 0.02]), extodd=0.05)
        for _ in range(6):
            P.transaction(B, W, m, ["tx", "txu"], lens=0, bad=r.choice([0, 0, 0.3]))
            if r.random() < 0.3:
                P.transaction(B, W, m, ["call", "dcall", "ext", "dext"], lens=0, bad=0)
            if r.random() < 0.4:           # parts left out at their borders
                call, ext = W.call(), W.ext()
                if len(call) + len(ext) < 900:
                    for k in sorted({0, r.choice(W.cuts), r.choice(W.cuts)}):
                        P.transaction(B, W, m, ["tx", "txu"], lens=0, bad=0, call=call, ext=ext[:k])
                    P.transaction(B, W, m, ["tx", "txu"], lens=0, bad=0, call=b"", ext=ext)
                    P.transaction(B, W, m, ["tx", "txu"], lens=0, bad=0, call=b"", ext=b"")
                    P.transaction(B, W, m, ["tx", "txu"], lens=0, bad=0, call=call, ext=ext + P.junk(r, 2) + b"\0")
    yield B
    yield P.real_tx_batch(E.exe, r, ["westend9111"] + P.pick_real(r, 1), ["tx", "txu"], 40, lens=0, bad=0.1)
    yield bulky(r, ["tx", "txu", "call", "dcall"])

def bulky(r, entries):
    """calls that decode and take more than two bytes count"""
    B = P.Batch(r)
    for v in (14, 15):
        C, W, m = P.chain_writer(B, odd=0.0, v=v)
        R = C.R
        h = R.comp([F(R.array(R.p["U8"], 64))], path=["primitive_types", "H512"])
        n = r.choice([1023, 1024, 1025, 1030])
        top = R.t[C.xp["c"]]
        x = R.variant([V("bulk", 3, [F(R.array(h, n), "all"), F(R.p["U8"], "last")])], path=["pallet_bulk", "pallet", top["path"][-1]])
        ix = min(set(range(256)) - {y["ix"] for y in top["variants"]})
        top["variants"].append(V("Bulk", ix, [F(x)]))
        C.meta["reg"] = R.t
        B.lines[-1] = gen.meta_line(C.meta)
        call = bytes([ix, 3]) + bytes(r.randrange(256) for _ in range(64 * n + 1))
        for _ in range(2):
            P.transaction(B, W, m, entries, lens=0, bad=0, call=call, ext=W.ext(), limit=10**6)
            P.transaction(B, W, m, entries[:2], lens=0, bad=0, call=call[:-1], ext=W.ext(), limit=10**6)
    return B

def neutral(reg):
    """the registry without anything that attaches a meaning to a number"""
    drop = {"CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"}
    out = []
    for t in reg:
        t = dict(t)
        if t["path"] and t["path"][-1] in drop:
            t["path"] = t["path"][:-1] + ["Plain"]
        ff = lambda fs: [dict(f, name=["f"] if f["name"] else [], tn=["T"] if f["tn"] else []) for f in fs]
        if "fields" in t:
            t["fields"] = ff(t["fields"])
        if "variants" in t:
            t["variants"] = [dict(v, fields=[dict(f, name=["f"] if f["name"] else [],
                             tn=f["tn"] if f["tn"] and f["tn"][0].endswith("::Signature") else ["T"] if f["tn"] else [])
                             for f in v["fields"]]) for v in t["variants"]]
        out.append(t)
    return out

def C09(E, r, big):
    for make, count, each in ((P.hint_registry, 40, 2), (P.default_registry, 12, 1)):
        B = P.Batch(r)
        for _ in range(count):
            R, vals = make(r)
            m = B.meta(gen.meta_of(R.t, 14))
            m2 = B.meta(gen.meta_of(neutral(R.t), 14))
            for id in range(len(R.t)):
                if vals.trap(id):
                    continue
                for _ in range(each):
                    b = P.value_of(r, vals, id, 150)
                    if b is None:
                        continue
                    if r.random() < 0.15:
                        b = mutate(r, b)
                    g = (m, id, B.n)
                    B.add(m2, "all", buf=b, ty=id, group=g, tag="plain")
                    B.add(m, "all", buf=b, ty=id, group=g, tag="hinted")
        yield B
    yield two_labels(r)
    yield near_names(r, 14)
    yield P.chains_batch(r, 40, ["ext"], 4, lens=0.0, bad=0.0, odd=0.0, extodd=0.2, right=1.0)
    yield P.real_items(E.exe, r, P.pick_real(r, 1), 250, 1, 0)

NAMES = ["nonce", "spec_version", "spec_name", "tx_version", "transaction_version"]
TYPE_NAMES = gen.TYPE_NAMES[:7]
def near_names(r, each):
    """every telling field name and type name, and what is nearly one"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    u = [p[k] for k in ("U8", "U16", "U32", "U64", "U128")]
    u += [R.compact(x) for x in u[2:]]
    def some(s):
        ns = gen.nears(s)
        return [s, s] + r.sample(ns, min(each, len(ns)))
    fs = []
    for s in NAMES:
        for n in some(s):
            fs.append(F(p["Str"] if s == "spec_name" else r.choice(u), n, r.choice([None, None, "u32", "Balance"]) if r.random() < 0.3 else None))
    for s in TYPE_NAMES:
        for n in some(s):
            fs.append(F(r.choice(u), r.choice([None, None, None, "a", "value", "nonces"]), n))
    for a in HINTING:                     # types whose name tells
        for n in some(a):
            fs.append(F(R.comp([F(r.choice(u), r.choice([None, "era", "a", "tip"]))], path=r.choice([["x"], ["frame_system", "extensions"], []]) + [n])))
    r.shuffle(fs)
    ids = []
    while fs:
        k = r.randint(1, 6)
        ids.append(R.comp(fs[:k]) if r.random() < 0.7 else R.variant([V("A", 1, fs[:k])]))
        fs = fs[k:]
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        b = P.value_of(r, vals, id, 400)
        if b is not None:
            B.add(m, "all", buf=b, ty=id, tag="hinted")
    return B

HINTING = ["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment"]
def near_idents(r, idents, each, spaces=()):
    """types named as those with a meaning of their own, and nearly so"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    a32, a20, a64 = R.array(p["U8"], 32), R.array(p["U8"], 20), R.array(p["U8"], 64)
    leaves = [p["U8"], p["U16"], p["U32"], p["U64"], a32, a20, a64]
    ids = []
    def add(path):
        x = r.choice(leaves)
        if r.random() < 0.7:
            ids.append(R.comp([F(x)], path=path))
        else:
            ids.append(R.variant([V("A", 0, [F(x)]), V("B", 1)], path=path))
    for a in idents:
        ns = gen.nears(a)
        for n in [a, a] + r.sample(ns, min(each, len(ns))):
            add(r.choice([[], ["x"], ["sp_core", "crypto"], ["pallet_x", "pallet"]]) + [n])
        add([a, "T"])
        add(["x", a, "inner", "T"])
    for sp in spaces:                     # keys and signatures, which are so by the whole path
        for a in ("Public", "Signature"):
            add(list(sp) + [a])
            for i in range(len(sp)):
                ns = gen.nears(sp[i])
                for n in r.sample(ns, min(each, len(ns))):
                    add(list(sp[:i]) + [n] + list(sp[i + 1:]) + [a])
            ns = gen.nears(a)
            for n in r.sample(ns, min(each, len(ns))):
                add(list(sp) + [n])
            add(["x"] + list(sp) + [a])
            add(list(sp) + ["x", a])
            add(list(sp[1:]) + [a])
            add(list(reversed(sp)) + [a])
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        b = P.value_of(r, vals, id, 300)
        if b is None or R.t[id]["def"] != "Composite" or r.random() < 0.25:
            b = bytes([r.choice([0, 0, 1, 2])]) + P.junk(r, 3) * 30
            b = b[:80]
        B.add(m, "at", buf=b + b"\0" * 8, ty=id)
    return B

def two_labels(r):
    """pairs of telling names, one around the other, with a number inside, in
    structs of one field alone and as elements"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    labels = [("nonce", None), ("tx_version", None), ("spec_version", None), (None, "Balance"), ("value", "T::Balance"), ("tip", None),
              (None, None), ("x", "u32")]
    hp = [[], [], ["x", "CheckNonce"], ["x", "ChargeAssetTxPayment"], ["x", "ChargeTransactionPayment"]]
    for _ in range(60):
        (a, ta), (b, tb) = r.choice(labels), r.choice(labels)
        x = p[r.choice(["U8", "U16", "U32", "U64", "U128"])]
        if r.random() < 0.3:
            x = R.compact(x)
        x = R.comp([F(x, b, tb, [r.choice("pq")] if r.random() < 0.3 else [])], path=r.choice(hp))
        if r.random() < 0.3:
            x = r.choice([R.tuple([x]), R.comp([F(x)])])
        x = R.comp([F(x, a, ta)], path=r.choice(hp))
        if r.random() < 0.8:
            x = r.choice([R.seq(x), R.seq(x), R.array(x, 2), R.seq(R.seq(x))])
        if r.random() < 0.3:
            x = R.comp([F(x, *r.choice(labels))])
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in range(len(p), len(R.t)):
        b = P.value_of(r, vals, id, 150)
        if b is not None:
            B.add(m, "all", buf=b, ty=id, tag="hinted")
    return B

def C10(E, r, big):
    called = lambda t: True
    yield P.reg_batch(r, 40, P.call_registry, 2, 1)
    yield near_calls(r, 14)
    yield P.chains_batch(r, 30, ["call", "dcall", "tx"], 4, lens=0.1, bad=0.3, odd=0.1, extodd=0.0)
    names = P.pick_real(r, 2)
    yield P.real_items(E.exe, r, names, 40, 3, 1, only=lambda t: t["path"] and t["path"][-1] in gen.CALLS + gen.EVENTS)
    yield P.real_tx_batch(E.exe, r, names, ["call"], 60, lens=0, bad=0.15)

def near_calls(r, each):
    """enums named as those of a pallet, and nearly so, below enums of pallets"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    ids = []
    for a in gen.CALLS + gen.EVENTS:
        ns = gen.nears(a)
        for n in [a] + r.sample(ns, min(each, len(ns))):
            for inner, outer in ((n, a), (a, n), (n, r.choice(gen.CALLS + gen.EVENTS + ["Error"]))):
                i = R.variant([V("x", 0, [F(p["U8"])]), V("y", 3)], path=["pallet_a", "pallet", inner], docs=["inner"])
                ids.append(R.variant([V("A", 0, [F(i)]), V("B", 1, [F(i, "a", inner), F(p["U8"])]), V("C", 2)], path=["rt", outer], docs=["outer"]))
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        B.add(m, "at", buf=bytes([r.choice([0, 0, 0, 1, 2]), r.choice([0, 0, 3, 1]), 5, 6, 7]), ty=id)
    return B

def C11(E, r, big):
    yield P.reg_batch(r, 60, P.special_registry, 2, 1)
    yield P.reg_batch(r, 20, lambda r: P.registry(r, n=25, special=0.8, weights={"Multi": 6}), 1, 1)
    yield P.reg_batch(r, 8, bad_texts, 4, 2)
    yield near_idents(r, gen.SPECIALS[:12], 14, [("sp_core", "ed25519"), ("sp_core", "sr25519"), ("sp_core", "ecdsa")])
    B = P.Batch(r)                       # every era and the edges of every fraction
    R = gen.Registry(r)
    ids = {k: R.comp([], path=["x", k]) for k in list(gen.PERS) + ["Era"]}
    m = B.meta(gen.meta_of(R.t))
    for k, w in gen.PERS.items():
        top = gen.PERMAX[k]
        for v in {0, 1, top - 1, top, min(top + 1, 256**w - 1), 256**w - 1, 256**w // 2}:
            B.add(m, "all", buf=v.to_bytes(w, "little"), ty=ids[k])
    for b1 in range(256):
        for b2 in r.sample(range(256), 12):
            B.add(m, "all", buf=bytes([b1, b2]), ty=ids["Era"])
    yield B
    yield P.real_items(E.exe, r, P.pick_real(r, 2), 200, 2, 1, only=lambda t: gen.hinted(t) or (t["path"] and t["path"][-1] == "MultiSignature"))

def C12(E, r, big):
    yield P.reg_batch(r, 30, P.sequence_registry, 3, 1)
    yield P.reg_batch(r, 15, P.default_registry, 1, 1, only=lambda t: t["def"] in ("Sequence", "Array"))
    yield mixed_vectors(r)
    yield labelled(r)
    yield many(r)
    yield P.real_items(E.exe, r, P.pick_real(r, 2), 150, 2, 1, only=lambda t: t["def"] in ("Sequence", "Array"))

def many(r):
    """more elements, fields and variants than a byte counts: all there, as
    many as the low byte says, one short"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    unit = R.tuple([])
    opt = R.variant([V("None", 0), V("Some", 1, [F(p["U8"])])], path=["Option"])
    ends = [p["U8"], p["U16"], p["Bool"], R.compact(p["U8"]), unit, opt, R.seq(p["U8"]), R.comp([F(p["U8"])], path=["x", "Byte"])]
    vals = gen.Values(r, R.t)
    def some(t, n):
        return b"".join(b"\0" if R.t[t]["def"] in ("Sequence", "Variant", "Compact") and r.random() < 0.8 else vals.val(t) for _ in range(n))
    cases = []
    for t in ends:
        n = 256 + r.choice([0, 1, 2, 5, 40])
        x = R.array(t, n)
        cases += [(x, some(t, k)) for k in (n, n - 256, n - 1)]
        n = 256 + r.choice([0, 1, 2, 5, 40])
        x = R.seq(t)
        cases += [(x, compact(n) + some(t, k)) for k in (n, n - 256, n - 1)]
    for make, pre in ((lambda ts: R.tuple(ts), b""),
                      (lambda ts: R.comp([F(t, "f%d" % (i % 7)) for i, t in enumerate(ts)]), b""),
                      (lambda ts: R.variant([V("A", 3, [F(t) for t in ts])]), b"\3")):
        n = 256 + r.choice([0, 1, 3])
        ts = [r.choice([p["U8"], p["Bool"], unit]) for _ in range(n)]
        x = make(ts)
        body = [some(t, 1) for t in ts]
        cases += [(x, pre + b"".join(body[:k])) for k in (n, n - 256, n - 1)]
    x = R.variant([V("v%d" % i, i, [F(p["U8"])] if i % 3 else []) for i in r.sample(range(256), 256)])
    cases += [(x, bytes([i, 7][:2 if i % 3 else 1])) for i in (0, 1, 127, 128, 129, 254, 255)]
    m = B.meta(gen.meta_of(R.t))
    for x, b in cases:
        B.add(m, "all", buf=b, ty=x)
    return B

def labelled(r):
    """vectors of every label by every width, some elements plain"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    ids = []
    for k in list(gen.UINTS) + ["Str", "Char", "Bool", "I32"]:
        for n, tn in (("nonce", None), ("spec_version", None), ("tx_version", None), ("spec_name", None), (None, "Balance"), ("tip", None)):
            e = R.comp([F(p[k], n, tn)], path=r.choice([[], [], ["x", "ChargeTransactionPayment"], ["x", "CheckNonce"]]))
            if k in gen.UINTS and r.random() < 0.3:
                e = R.comp([F(R.compact(p[k]), n, tn)])
            ids.append(r.choice([R.seq(e), R.array(e, r.choice([1, 2, 3]))]))
    for a in gen.SPECIALS[:12] + ["Public", "Signature"]:
        e = R.comp([F(R.array(p["U8"], 4))], path=r.choice([["sp_core", "ed25519"], ["sp_core", "ecdsa"], []]) + [a])
        ids.append(r.choice([R.seq(e), R.array(e, 2)]))
        g = R.comp([F(e, "x")], path=["x", r.choice(["CheckGenesis", "CheckMortality"])])
        ids.append(r.choice([R.seq(g), R.array(g, 2)]))
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        for _ in range(2):
            b = P.value_of(r, vals, id, 300)
            if b is not None:
                B.add(m, "all", buf=b, ty=id)
    return B

def mixed_vectors(r):
    """vectors whose elements differ: which may be empty, of another label or
    of another width (through enums that are transparent to nothing)"""
    B = P.Batch(r)
    for _ in range(6):
        R = gen.Registry(r)
        p = R.prims()
        u8s = R.seq(p["U8"])
        wrap = R.comp([F(u8s, None, None, ["wrapped"])], path=["x", "BoundedVec"], docs=["doc"])
        u8w = R.seq(R.comp([F(p["U8"])], path=["x", "Byte"], docs=["byte"]))
        cu8 = R.seq(R.compact(p["U8"]))
        lab = R.seq(R.comp([F(p["U8"], "nonce")]))
        tys = [u8s, wrap, u8w, cu8, lab, R.seq(p["U16"]), R.seq(R.seq(p["U8"])), R.array(p["U8"], 2), R.array(p["U8"], 0),
               R.seq(R.array(p["U8"], 0)), R.comp([F(p["U8"])])]
        outer = [R.seq(t) for t in tys] + [R.array(t, n) for t in tys for n in (0, 1, 3)]
        outer += [R.seq(o) for o in outer[:6]]
        m = B.meta(gen.meta_of(R.t))
        vals = P.SeqValues(r, R.t)
        for o in outer:
            if vals.trap(o):
                continue
            for _ in range(6):
                b = P.value_of(r, vals, o, 200)
                if b is not None:
                    B.add(m, "all", buf=b, ty=o)
    return B

def C13(E, r, big):
    B = P.Batch(r)
    B.meta(gen.meta_of([{"path": [], "docs": [], "params": [], "def": "Tuple", "tys": []}]))
    R = gen.Registry(r)
    p = R.prims()
    o = {k: R.comp([], path=["bitvec", "order", k]) for k in ("Lsb0", "Msb0")}
    bits = [(k, w, R.bits(o[k], p[w])) for k in o for w in ("U8", "U16", "U32", "U64")]
    m = B.meta(gen.meta_of(R.t))
    def bit32(**kw):
        if E.hook:
            B.add(1, "bit32", **kw)
    def data(n):
        k = r.random()
        if k < 0.25:
            return bytes(r.choice([0, 0, 1, 128, r.randrange(256)]) for _ in range(n))
        if k < 0.4:                       # halves of 64-bit elements that are zero
            b = bytearray(r.randrange(256) for _ in range(n))
            for i in range(0, n, 4):
                if r.random() < 0.5:
                    b[i:i + 4] = bytes(len(b[i:i + 4]))
            return bytes(b)
        return bytes(r.randrange(256) for _ in range(n))
    ns = list(range(0, 140)) + [191, 192, 193, 255, 256, 257, 511, 512, 513]
    for n in ns:
        for _, w, id in bits:
            sb = gen.UINTS[w]
            need = (n + 8 * sb - 1) // (8 * sb) * sb
            B.add(m, "at", buf=compact(n) + data(need) + P.junk(r, 2), ty=id)
            if r.random() < 0.15 and need:
                B.add(m, "all", buf=compact(n) + data(need - r.randint(1, min(need, sb))), ty=id)
            if r.random() < 0.1:
                B.add(m, "all", buf=compact(n) + data(need) + b"\0", ty=id)
        for k in (0, 1):
            pre = P.junk(r, 3)
            need = (n + 63) // 64 * 8
            for _ in range(2):
                bit32(buf=pre + compact(n) + data(need) + P.junk(r, 2), ty=k, pos=len(pre))
            if r.random() < 0.2 and need:
                bit32(buf=pre + compact(n) + data(need)[:-r.randint(1, need)], ty=k, pos=len(pre))
    for n in (2**20, 2**29 - 1, 2**29, 2**30, 2**31 - 1, 2**31, 2**32 - 8, 2**32 - 7, 2**32 - 1, 2**32, 2**40):
        for _, w, id in bits:
            B.add(m, "all", buf=compact(n) + b"abcdefgh", ty=id)
        for k in (0, 1):
            bit32(buf=compact(n) + b"abcdefgh", ty=k)
    for k in (0, 1):
        bit32(buf=b"", ty=k)
        bit32(buf=b"\1\0", ty=k)
        bit32(buf=b"\0", ty=k, pos=3)
    yield B
    yield P.reg_batch(r, 40, P.bits_registry, 2, 1)
    B = P.Batch(r)                       # orders and stores that are nearly so
    R = gen.Registry(r)
    p = R.prims()
    ids = []
    for o in ("Lsb0", "Msb0"):
        for n in [o] + gen.nears(o):
            ids.append(R.bits(R.comp([], path=r.choice([["bitvec", "order"], [], ["x"]]) + [n]), p[r.choice(["U8", "U16", "U32", "U64"])]))
        for x in (R.tuple([], path=[o]), R.variant([], path=["bitvec", "order", o]), R.comp([], path=[o, "x"]), R.comp([], path=[]),
                  R.comp([F(p["U8"])], path=["bitvec", o]), R.prim("U8", path=[o]), R.seq(p["U8"], path=[o])):
            ids.append(R.bits(x, p["U8"]))
        x = R.comp([], path=["bitvec", "order", o])
        stores = [p[k] for k in gen.PRIMS] + [R.compact(p["U8"]), R.comp([F(p["U8"])]), R.comp([F(p["U8"])], path=["U8"]), R.tuple([p["U8"]]),
                  R.array(p["U8"], 1), R.prim("U8", path=["Era"]), R.prim("U32", path=["x", "H256"]), 10**6]
        ids += [R.bits(x, q) for q in stores]
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        for n in (0, 9):
            B.add(m, "at", buf=compact(n) + data(16), ty=id)
    yield B

def C14(E, r, big):
    yield P.reg_batch(r, 60, P.wild_registry, 1, 1)
    yield P.reg_batch(r, 20, P.default_registry, 0, 2)
    yield loops(r)
    yield deep(r, [1, 2, 7, 20, 40, 70, 130, 260] + ([600, 1100] if big else []))
    yield P.chains_batch(r, 30, ["tx", "txu", "call", "ext", "mark"], 2, wild=0.2, odd=0.1, bad=0.4)
    yield P.storage_batch(E.exe, r, 8, 2, bad=0.7, odd=0.3)
    yield P.uxt_batch(E.exe, r, 15, 5, bad=0.5, odd=0.15)
    yield P.meta_batch(r, 40, odd=0.2)
    yield wild_storage(r)

def loops(r):
    """cycles of every kind and length, with and without data on the way"""
    B = P.Batch(r)
    for _ in range(90):
        R = gen.Registry(r)
        p = R.prims()
        unit = R.tuple([])
        n = r.randint(1, 4)
        base = len(R.t)
        kinds = []
        for i in range(n):
            nxt = base + (i + 1) % n
            k = r.choice(["comp", "comp2", "tuple", "tuple2", "compact", "array", "seq", "variant", "array0", "bits", "hint"])
            path = R_path(r)
            if k == "comp":
                R.comp([F(nxt, r.choice([None, "a"]))], path=path)
            elif k == "comp2":
                R.comp([F(r.choice([unit, p["U8"]]), "a"), F(nxt, "b")][::r.choice([1, -1])], path=path)
            elif k == "tuple":
                R.tuple([nxt], path=path)
            elif k == "tuple2":
                R.tuple(r.choice([[unit, nxt], [nxt, unit], [p["U8"], nxt], [nxt, nxt]]), path=path)
            elif k == "compact":
                R.compact(nxt, path=path)
            elif k == "array":
                R.array(nxt, r.choice([1, 2]), path=path)
            elif k == "array0":
                R.array(nxt, 0, path=path)
            elif k == "seq":
                R.seq(nxt, path=path)
            elif k == "variant":
                R.variant([V("Stop", 0), V("Go", 1, [F(nxt)]), V("Two", 2, [F(nxt, "a"), F(nxt, "b")])], path=path)
            elif k == "bits":
                R.bits(nxt, nxt, path=path)
            else:
                R.comp([F(nxt)], path=["x", r.choice(gen.SPECIALS)])
            kinds.append(k)
        if r.random() < 0.4:                       # entered through wrappers
            R.comp([F(base)])
            R.seq(base)
            R.tuple([p["U8"], base])
            R.compact(base)
            R.array(base, 2)
        m = B.meta(gen.meta_of(R.t, r.choice([14, 15]), xty=base))
        vals = gen.Values(r, R.t)
        for id in range(base, len(R.t)):
            if vals.trap(id):
                continue
            for _ in range(3):
                b = r.choice([b"", bytes([1] * r.randint(1, 30)), bytes([2] * r.randint(1, 12)), P.junk(r, 12),
                              bytes([4] * r.randint(1, 12)), bytes(r.randrange(4) for _ in range(12)) + bytes(20)])
                B.add(m, r.choice(["all", "at"]), buf=b, ty=id)
        for e in ("mcall", "mparams"):
            B.add(m, e)
        B.add(m, "uxt", buf=b"\x08\x04\0")
        B.add(m, "call", buf=b"\0\0\0")
    return B

def deep(r, depths):
    """legitimate recursion, to a depth"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    v = len(R.t)
    R.seq(v)                                             # Vec<Self>
    b = len(R.t)
    R.variant([V("Leaf", 0), V("Node", 1, [F(b, "next")])])
    c = len(R.t)
    R.variant([V("Leaf", 0), V("Node", 1, [F(c + 1), F(p["U8"])])])
    R.comp([F(c, "inner")])
    t = len(R.t)
    R.tuple([p["U8"], t + 1])
    R.seq(t)
    call = len(R.t) + 1
    R.variant([V("batch", 0, [F(call + 1, "calls")]), V("stop", 1)], path=["p", "pallet", "Call"])
    R.variant([V("P", 0, [F(call - 1)])], path=["rt", "Call"])
    R.seq(call)
    m = B.meta(gen.meta_of(R.t))
    for d in depths:
        B.add(m, "all", buf=b"\4" * d + b"\0", ty=v)
        B.add(m, "all", buf=b"\1" * d + b"\0", ty=b)
        B.add(m, "all", buf=b"\1" * d + b"\0" + b"\7" * d, ty=c)
        B.add(m, "all", buf=b"\5\4" * d + b"\6\0", ty=t)
        B.add(m, "all", buf=b"\0\0\4" * d + b"\0\1", ty=call)
        B.add(m, "all", buf=b"\4" * d, ty=v)
    return B

def R_path(r):
    return r.choice([[], [], [], ["x", "Thing"], ["x", "Call"], ["sp_runtime", "MultiSignature"]])

def wild_storage(r):
    B = P.Batch(r)
    for _ in range(20):
        R, vals = P.wild_registry(r)
        m = B.meta(gen.meta_of(R.t))
        for _ in range(8):
            n = r.choice([0, 1, 1, 2, 3])
            st = {"plain": r.random() < 0.15, "h": [r.choice(chain.HASHERS) for _ in range(n)], "key": R.ref(),
                  "val": R.ref(), "docs": []}
            if vals.trap(st["key"]) or vals.trap(st["val"]):
                continue
            k, v = chain.storage_case(r, vals, st)
            if r.random() < 0.4:
                k = mutate(r, k)
            B.add(m, "storage", bufs=[k[:300], v[:200]], st=st)
    return B

def C15(E, r, big):
    yield P.storage_batch(E.exe, r, 40, 4, names=P.pick_real(r, 1), bad=0.45)
    yield P.storage_batch(E.exe, r, 15, 4, bad=0.1, odd=0.2)
    yield hollow_keys(r, 90)

def hollow_keys(r, count):
    """key parts of no bytes, of one, and of many; their hashes with a bit off"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    unit = R.tuple([])
    tys = [unit, unit, R.array(p["U8"], 0), R.comp([], path=["x", "Nothing"]), R.comp([F(unit, "a"), F(unit, "b")]), R.array(unit, 3), R.compact(unit),
           p["U8"], p["Bool"], R.array(p["U8"], r.choice([31, 32, 33])), R.array(p["U8"], r.choice([63, 64, 127, 128, 129])), R.seq(p["U8"]), p["Str"]]
    sts = []
    for _ in range(count):
        n = r.choice([1, 2, 2, 3])
        ts = [r.choice(tys) for _ in range(n)]
        h = [r.choice(["Blake2_128Concat", "Twox64Concat"] if r.random() < 0.7 else chain.HASHERS) for _ in range(n)]
        sts.append({"plain": False, "h": h, "key": ts[0] if n == 1 and r.random() < 0.8 else R.tuple(ts), "val": p["U8"], "docs": []})
        if n == 1 and R.t[sts[-1]["key"]]["def"] == "Tuple" and sts[-1]["key"] != unit and r.random() < 0.5:
            sts[-1]["h"] = h
    m = B.meta(gen.meta_of(R.t, r.choice([14, 15])))
    vals = gen.Values(r, R.t)
    for st in sts:
        k, v = chain.storage_case(r, vals, st)
        B.add(m, "storage", bufs=[k, v], st=st)
        for _ in range(2):
            if len(k) > 32:
                i = r.randrange(32, len(k)) if r.random() < 0.5 else 32 + r.randrange(min(16, len(k) - 32))
                B.add(m, "storage", bufs=[k[:i] + bytes([k[i] ^ (1 << r.randrange(8))]) + k[i + 1:], v], st=st)
    return B

def C16(E, r, big):
    yield P.uxt_batch(E.exe, r, 60, 10, names=P.pick_real(r, 2))

def C17(E, r, big):
    yield P.meta_batch(r, 150, names=gen.REAL, odd=0.06)
    yield P.meta_batch(r, 150, odd=0.15)
    yield small_versions(r, 700)
    yield same_facts(r, 25)

def same_facts(r, count):
    """the same chain as V14 and as V15"""
    B = P.Batch(r)
    for _ in range(count):
        s = r.getrandbits(64)
        ms = []
        for v in (14, 15):
            C = chain.Chain(random.Random(s), v=14, odd=0.0)
            meta = dict(C.meta, v=v, xp=C.xp)
            ms.append((B.meta(meta), C, meta))
        C = ms[0][1]
        W = chain.Writer(r, ms[0][2], C.ver, C.xp)
        ids = [C.xp[k] for k in "case"] + [q for y in C.exts for q in (y["ty"], y["add"])]
        if any(W.vals.trap(x) for x in ids):
            continue
        for _ in range(3):
            call, ext, gh, x = W.call(), W.ext(), W.gh(), W.extrinsic()
            if len(call) + len(ext) > 900:
                continue
            for m, _, _ in ms:
                B.add(m, "tx", buf=compact(len(call)) + call + ext, gh=gh)
                B.add(m, "uxt", buf=compact(len(x)) + x)
        for m, _, _ in ms:
            for e in ("mver", "mcall", "mparams", "mexts"):
                B.add(m, e)
    return B

def C18(E, r, big):
    yield P.reg_batch(r, 14, P.default_registry, 1, 1, flags=("f",), limit=60)
    yield P.reg_batch(r, 5, P.bits_registry, 1, 1, flags=("f",), limit=60)
    yield P.reg_batch(r, 5, P.sequence_registry, 1, 0, flags=("f",), limit=60)
    yield P.chains_batch(r, 10, ["tx", "txu", "call", "ext", "mark"], 2, flags=("f",), limit=300)
    yield P.storage_batch(E.exe, r, 6, 2, flags=("f",))
    yield P.uxt_batch(E.exe, r, 6, 4, flags=("f",))
    yield P.meta_batch(r, 8, flags=("f",))
    yield steps_batch(r, 5, 1, P.default_registry, flags=("f",), limit=60)
    yield lone_steps(r, 8, flags=("f",))
    if E.hook:
        B = P.Batch(r)
        m = B.meta(gen.meta_of([{"path": [], "docs": [], "params": [], "def": "Tuple", "tys": []}]))
        for n in (0, 1, 63, 64, 65, 128, 129, 200):
            for k in (0, 1):
                need = (n + 63) // 64 * 8
                B.add(m, "bit32", buf=compact(n) + bytes(r.randrange(256) for _ in range(need - r.choice([0, 0, 1]) if need else 0)), ty=k, flags=["f"])
        yield B
    yield P.reg_batch(r, 30, P.default_registry, 1, 1, flags=("x",))
    yield P.real_tx_batch(E.exe, r, ["westend9111"], ["tx", "txu"], 12, flags=("x",))

def C19(E, r, big):
    yield P.reg_batch(r, 35, P.docs_registry, 1, 0)
    for _ in range(3):
        yield alike(r)
    yield P.reg_batch(r, 12, P.sequence_registry, 1, 0)
    yield P.reg_batch(r, 12, P.call_registry, 1, 0)
    yield P.reg_batch(r, 8, P.compact_registry, 1, 0)
    yield P.chains_batch(r, 12, ["tx", "ext"], 3, lens=0, bad=0, odd=0.0, right=1.0)
    yield P.storage_batch(E.exe, r, 10, 3, bad=0.0)
    yield P.real_items(E.exe, r, P.pick_real(r, 2), 200, 1, 0)

def alike(r):
    """one type around the other, their descriptions out of a few"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    few = [([], []), (["a", "A"], []), ([], ["doc"]), (["a", "A"], ["doc"]), (["a", "A"], ["doc", "doc"]), (["A"], ["doc"])]
    def put(make, *args):
        path, docs = few[r.randrange(len(few))] if r.random() < 0.8 else few[3]
        return make(*args, path=path, docs=docs)
    ids = []
    for _ in range(110):
        k = r.random()
        if k < 0.25 or not ids:
            x = put(R.prim, r.choice(gen.PRIMS[:8]))
        elif k < 0.3:
            x = put(R.tuple, [r.choice(ids) for _ in range(r.choice([0, 1, 2]))])
        else:
            x = r.choice(ids)
        for _ in range(r.randint(1, 4)):
            k = r.randrange(12)
            if k < 5:
                x = put(R.comp, [F(x, r.choice([None, "x", "nonce"]), None, r.choice([[], ["doc"]]))])
            elif k == 5:
                x = put(R.compact, R.prim(r.choice(list(gen.UINTS)), path=["a", "A"], docs=["doc"]))
                x = put(R.comp, [F(x)])
            elif k == 6:
                x = put(R.seq, x)
            elif k == 7:
                x = put(R.array, x, r.choice([0, 1, 2]))
            elif k == 8:
                x = put(R.variant, [V("A", 0, [F(x, None, None, ["doc"])], ["doc"])])
            elif k == 9:
                x = R.variant([V("Q", 0, [F(R.variant([V("q", 0, [F(x)], ["doc"])], path=["a", "Call"], docs=r.choice([[], ["doc"]])))], ["doc"])], path=["a", "Call"], docs=r.choice([[], ["doc"]]))
            elif k == 10:
                x = put(R.comp, [F(x, "a"), F(x, "b")])
            else:
                x = put(R.tuple, [x])
        ids.append(x)
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        b = P.value_of(r, vals, id, 100)
        if b is not None:
            B.add(m, "all", buf=b, ty=id)
    return B

UNITS = ["WND", "DOT", "", "u", "k T", "\u00b5\u20ac", "\"x\"", "0.1"]
def cardflag(r, faults=False):
    """settings of the display, new ones for every case"""
    def f():
        pre = r.choice([0, 2, 42, 63, 64, 100, 255, 256, 1284, 16383, 16384, 65535, r.randrange(65536)])
        dec = r.choice([0, 1, 2, 3, 6, 10, 12, 15, 18, 19, 24, r.randrange(256)])
        name = r.choice(["westend", "node", "", "a b", "\u4e2d"])
        return ["K:%d:%d:%s:%s:%d" % (pre, dec, r.choice(UNITS).encode().hex(), name.encode().hex(), r.randrange(2))] + \
            (["x"] if faults else [])
    return f

def near_pallets(r, each):
    """balances in calls of pallets named as, and nearly as, those with units"""
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    k = cardflag(r)
    bal = [R.comp([F(p["U128"], "value", "Balance"), F(p["U8"], "n")]), R.seq(R.comp([F(p["U64"], None, "BalanceOf<T>")])),
           R.compact(p["U128"]), p["U32"]]
    ids = []
    for a in ("Balances", "Staking"):
        ns = gen.nears(a)
        for n in [a] + r.sample(ns, min(each, len(ns))):
            for e in (["Call", "RuntimeCall", "Event"] if n == a else [r.choice(["Call", "Call", "Event"])]):
                i = R.variant([V(r.choice(["transfer", "Balances"]), 0, [F(r.choice(bal), r.choice([None, "a"]), "Balance"), F(R.tuple([]), "t")])], path=["pallet_a", "pallet", e])
                o = R.variant([V(n, 0, [F(i)])], path=[r.choice(["rt", "Balances"]), e])
                ids.append(o)
                if r.random() < 0.3:      # one call in the other
                    j = R.variant([V("batch", 0, [F(R.seq(o), "calls"), F(p["U128"], "after", "Balance")])], path=["pallet_u", "pallet", "Call"])
                    ids.append(R.variant([V(r.choice(["Utility", "Staking", "Balances"]), 0, [F(j)])], path=["rt", "Call"]))
    vals = gen.Values(r, R.t)
    m = B.meta(gen.meta_of(R.t))
    for id in ids:
        b = P.value_of(r, vals, id, 100)
        if b is not None:
            B.add(m, "all", buf=b, ty=id, flags=k())
    return B

def texts_registry(r):
    """texts and byte vectors, as they stand and in wrappers"""
    R = gen.Random(r, n=6, special=0.3, docs=0.5)
    R, vals = R, None
    for _ in range(10):
        x = r.choice([R.p["Str"], R.p["Char"], R.seq(R.p["U8"], docs=R.docs()), R.seq(R.seq(R.p["U8"], docs=R.docs())),
                      R.array(R.p["U8"], r.choice([0, 1, 4, 20, 40])), R.seq(R.comp([F(R.p["U8"])], path=R.path()))])
        for _ in range(r.choice([0, 1, 1, 2])):
            x = R.comp([F(x, r.choice([None, None, "spec_name", "text"]), None, R.docs())], path=R.path(), docs=R.docs())
        if r.random() < 0.4:
            R.tuple([x, R.ref()], docs=R.docs())
        if r.random() < 0.3:
            R.seq(x, docs=R.docs())
    return R, TextValues(r, R.t)

class TextValues(gen.Values):
    TEXTS = ["", "hello", "\u00e9t\u00e9", "\u4e2d\u6587", "\U0001f600", "a\nb", "\"quoted\" \\ back", "tab\t", "\x7f", "  "]
    def val(self, id, cmp=False, depth=0):
        if not cmp and 0 <= id < len(self.reg) and self.r.random() < 0.6:
            t = self.reg[id]
            if t["def"] == "Sequence" and not gen.hinted(t) and 0 <= t["ty"] < len(self.reg):
                u = self.reg[t["ty"]]
                if u["def"] == "Primitive" and u["prim"] == "U8":
                    b = self.r.choice(self.TEXTS).encode()
                    if self.r.random() < 0.25:
                        b = mutate(self.r, b)
                    return compact(len(b)) + b
        return super().val(id, cmp, depth)

def C20(E, r, big):
    k = cardflag(r)
    yield P.reg_batch(r, 25, P.docs_registry, 1, 0, flags=k)
    yield near_pallets(r, 14)
    yield P.reg_batch(r, 15, P.sequence_registry, 1, 0, flags=k)
    yield P.reg_batch(r, 15, texts_registry, 2, 0, flags=k)
    yield P.reg_batch(r, 15, P.hint_registry, 1, 0, flags=k)
    yield P.reg_batch(r, 20, P.call_registry, 1, 0, flags=k)
    yield P.reg_batch(r, 6, P.special_registry, 1, 0, flags=k)
    yield P.reg_batch(r, 5, P.bits_registry, 1, 0, flags=k)
    yield P.chains_batch(r, 40, ["tx", "txu", "call", "dcall"], 2, lens=0.03, bad=0.1, odd=0.02, extodd=0.1, right=1.0, flags=k)
    names = P.pick_real(r, 2)
    yield P.real_items(E.exe, r, names, 150, 1, 0, flags=k)
    yield P.real_tx_batch(E.exe, r, names, ["tx", "txu"], 30, lens=0, bad=0.05, flags=k)

def amounts(r, w):
    """numbers of every length, with runs of zeros and of nines"""
    top = 256**w - 1
    out = [0, 1, 9, top, top // 2, top // 10]
    for n in range(1, len(str(top)) + 1):
        lo, hi = 10**(n - 1), min(10**n - 1, top)
        out += [lo, hi, r.randint(lo, hi), r.randint(lo, hi)]
        x = "".join(r.choice("0" if r.random() < 0.6 else "123456789") for _ in range(n - 1))
        out.append(min(int(r.choice("123456789") + x), top))
    return out

def C21(E, r, big):
    for w in (1, 2, 4, 8, 16):
        B = P.Batch(r)
        for a in amounts(r, w):
            ds = set(range(0, 8)) | set(r.sample(range(256), 8)) | {18, 19, 20, 21, 254, 255} | set(r.sample(range(64), 14))
            L = len(str(a))
            ds |= {d for d in range(L - 15, L + 22) if 0 <= d < 256}
            if w < 16 and not big:
                ds = set(r.sample(sorted(ds), 24))
            for d in ds:
                B.add(1, "bal", ty=w, pos=d, bufs=[a.to_bytes(w, "little"), r.choice(UNITS).encode()])
        yield B
    yield P.chains_batch(r, 30, ["tx", "txu"], 2, lens=0, bad=0, odd=0.0, extodd=0.1, right=1.0, flags=cardflag(r))
    yield P.reg_batch(r, 15, P.hint_registry, 2, 0, flags=cardflag(r))

def C22(E, r, big):
    B = P.Batch(r)
    B.add(1, "era", buf=b"")
    for b1 in range(256):
        B.add(1, "era", buf=bytes([b1]))
        for b2 in range(256):
            B.add(1, "era", buf=bytes([b1, b2]))
    for _ in range(300):
        B.add(1, "era", buf=P.Batch and bytes(r.randrange(256) for _ in range(r.randint(3, 6))))
        B.add(1, "era", buf=b"\0" + P.junk(r, 3))
    yield B
    B = P.Batch(r)
    R = gen.Registry(r)
    p = R.prims()
    e = R.comp([], path=["sp_runtime", "generic", "era", "Era"])
    s = R.seq(e)
    c = R.comp([F(e, "a"), F(p["U8"], "b")])
    k = R.compact(e)
    m = B.meta(gen.meta_of(R.t))
    vals = BadValues(r, R.t)
    for b1 in range(256):
        for b2 in r.sample(range(256), 256 if big else 10):
            pre = P.junk(r, 2)
            B.add(m, "at", buf=pre + bytes([b1, b2]) + P.junk(r, 2), ty=e, pos=len(pre))
    for _ in range(200):
        for t in (s, c, k):
            b = vals.get(t)
            if b is not None:
                B.add(m, "at", buf=b, ty=t)
    yield B

def C23(E, r, big):
    k = cardflag(r)
    yield P.reg_batch(r, 24, P.default_registry, 1, 1, flags=k)
    for make, n in ((P.docs_registry, 5), (P.sequence_registry, 5), (texts_registry, 6), (P.hint_registry, 6),
                    (P.call_registry, 6), (P.special_registry, 6), (P.bits_registry, 4), (P.compact_registry, 3)):
        yield P.reg_batch(r, n, make, 1, 1, flags=k)
    yield bad_spots(r)
    yield P.chains_batch(r, 14, ["tx", "txu", "call", "dcall"], 2, lens=0.2, bad=0.3, odd=0.02, extodd=0.1, flags=k)
    yield P.chains_batch(r, 10, ["tx", "ext", "dext", "mark"], 3, lens=0.3, bad=0.5, odd=0.03, extodd=0.1)
    yield P.storage_batch(E.exe, r, 12, 3, bad=0.4)
    yield P.uxt_batch(E.exe, r, 10, 5)
    yield P.meta_batch(r, 40, odd=0.12)
    yield small_versions(r, 60)
    yield P.reg_batch(r, 6, P.default_registry, 1, 1, flags=("f",), limit=60)
    names = P.pick_real(r, 1)
    yield P.real_items(E.exe, r, names, 120, 1, 1, flags=k)
    yield P.real_tx_batch(E.exe, r, names, ["tx", "txu"], 20, lens=0.1, bad=0.2, flags=k)
    B = P.Batch(r)
    for w in (1, 2, 4, 8, 16):
        for a in r.sample(amounts(r, w), 5 * w if w < 4 else 30):
            for d in (r.randrange(256), r.randrange(20), r.choice([0, 10, 12, 18])):
                B.add(1, "bal", ty=w, pos=d, bufs=[a.to_bytes(w, "little"), r.choice(UNITS).encode()])
    for _ in range(400):
        B.add(1, "era", buf=P.junk(r, 3))
    for w in (1, 2, 4, 8, 16):
        for _ in range(60):
            x = compact(r.getrandbits(r.randrange(1, 8 * w + 3)))
            B.add(1, "cmp", buf=x if r.random() < 0.7 else mutate(r, x), ty=w)
    yield B

def bad_spots(r):
    B = P.Batch(r)
    for _ in range(4):
        R, vals = bad_texts(r)
        m = B.meta(gen.meta_of(R.t))
        for id in range(len(R.t)):
            for _ in range(3):
                b = None if vals.trap(id) else P.value_of(r, vals, id, 120)
                if b is not None:
                    B.add(m, "at", buf=b, ty=id)
    return B

# --- Steps on their own ------------------------------------------------------
HINTS = ["None", "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment",
         "ChargeTransactionPayment", "FieldBalance", "FieldNonce", "FieldSpecName", "FieldSpecVersion", "FieldTxVersion"]
STEP_DEFS = {"Variant": ["pick"], "BitSequence": ["order"], "Composite": ["fld"], "Primitive": ["prim"]}

def children(t):
    if t["def"] == "Composite":
        return [f["ty"] for f in t["fields"]]
    if t["def"] == "Tuple":
        return list(t["tys"])
    return [t["ty"]] if "ty" in t else []

def aux(r, reg, id):
    """what may have been passed before the type is reached"""
    t = reg[id] if id < len(reg) else None
    ids = []
    for _ in range(r.choice([0, 0, 1, 2, 4, 4, 12, 40])):
        near = children(t) if t else []
        ids.append(r.choice(near) if near and r.random() < 0.35 else r.choice([id, r.randrange(len(reg) + 1), r.randrange(len(reg))]))
    cmp = str(r.randrange(len(reg))) if r.random() < 0.2 else "-"
    return "A:%s:%s:%s" % (r.choice(HINTS), cmp, "+".join(str(x) for x in dict.fromkeys(ids)))

def steps(B, m, reg, vals, id, n, limit=400, flags=()):
    r = B.r
    t = reg[id]
    mem = bool(flags)
    kinds = ["dwt", "dwt", "husk", "spec", "info", "fty"] + 3 * STEP_DEFS.get(t["def"], [])
    if mem:                       # of those that read the memory and say so
        kinds = [k for k in kinds if k not in ("spec", "info", "fty", "fld")]
    for _ in range(n):
        e = r.choice(kinds)
        if e in ("dwt", "spec") and vals.trap(id) or e == "prim" and t["path"] or e == "fld" and not t["fields"]:
            continue
        b = P.value_of(r, vals, id, limit) if e in ("dwt", "spec", "prim", "pick") and not vals.trap(id) else b""
        if b is None:
            continue
        if r.random() < 0.35:
            b = mutate(r, b)
        pre = P.junk(r, 3)
        pos = len(pre)
        if e == "fld":
            pos = r.randrange(len(t["fields"]))
        if e in ("pick", "dwt") and r.random() < 0.06:
            pos = len(pre) + len(b) + r.choice([0, 1, 3])
        fl = list(flags)
        if r.random() < 0.8:
            fl.append(aux(r, reg, id))
        B.add(m, e, buf=pre + b + P.junk(r, 3), ty=id, pos=pos, flags=fl)

def steps_batch(r, count, each, make, flags=(), limit=400):
    B = P.Batch(r)
    for _ in range(count):
        R, vals = make(r)
        m = B.meta(gen.meta_of(R.t, r.choice([14, 15])))
        for id in range(len(R.t)):
            steps(B, m, R.t, vals, id, each, limit, flags)
        for _ in range(3 if not flags else 0):
            B.add(m, r.choice(["husk", "fty", "dwt", "info", "order"]), ty=len(R.t) + r.randrange(3), flags=[aux(r, R.t, len(R.t))])
    return B

def lone_steps(r, n, flags=()):
    """bit sequences by element size, hints, extensions"""
    B = P.Batch(r)
    exts = [{"id": gen.ext_id(r, 0.1) if r.random() < 0.5 else r.choice(HINTS[1:8]), "ty": 0, "add": 0} for _ in range(40)]
    m = B.meta(gen.meta_of([{"path": [], "docs": [], "params": [], "def": "Tuple", "tys": []}], r.choice([14, 15]), exts=exts))
    for w in (1, 2, 4, 8):
        for _ in range(n):
            k = r.choice([r.randrange(70), 8 * w * r.randrange(1, 9) + r.choice([-1, 0, 1]), r.getrandbits(r.randrange(1, 31)), r.getrandbits(29)])
            b = compact(k) + P.junk(r, 3)
            if r.random() < 0.2:
                b = mutate(r, b)
            pre = P.junk(r, 4)
            B.add(m, "bvp", buf=pre + b, ty=w, pos=len(pre) + (r.choice([9, 20]) if r.random() < 0.03 else 0), flags=flags)
    if not flags:
        for h in HINTS:
            for _ in range(3):
                B.add(m, "hint", flags=["A:%s:%s:%s" % (h, r.choice(["-", "-", "0", "7"]), r.choice(["", "0", "3+1+2"]))])
        for i in range(len(exts)):
            B.add(m, "exth", pos=i)
    return B

def real_steps(E, r, names, count):
    B = P.Batch(r)
    for name in names:
        meta, _ = P.real_dump(E.exe, name)
        m = B.real(name)
        vals = gen.Values(r, meta["reg"])
        for id in r.sample(range(len(meta["reg"])), min(count, len(meta["reg"]))):
            steps(B, m, meta["reg"], vals, id, 2)
        for i in range(len(meta["exts"])):
            B.add(m, "exth", pos=i)
    return B

def C24(E, r, big):
    yield steps_batch(r, 14, 3, P.default_registry)
    yield steps_batch(r, 5, 3, P.hint_registry)
    yield steps_batch(r, 5, 3, P.special_registry)
    yield steps_batch(r, 4, 3, P.call_registry)
    yield steps_batch(r, 4, 3, P.compact_registry)
    yield steps_batch(r, 4, 3, P.sequence_registry)
    yield steps_batch(r, 4, 3, P.bits_registry)
    yield steps_batch(r, 4, 3, P.docs_registry)
    yield steps_batch(r, 6, 3, P.wild_registry)
    yield lone_steps(r, 60)
    yield real_steps(E, r, P.pick_real(r, 1), 250)
    yield steps_batch(r, 6, 1, P.default_registry, flags=("x",))

def C25(E, r, big):
    for _ in range(2):
        k = cardflag(r)
        names = P.pick_real(r, 1)
        yield P.merged(r, [P.twins(r, 4, P.default_registry, k), P.twins(r, 3, P.sequence_registry, k), P.twins(r, 2, P.hint_registry, k),
            P.twins(r, 2, P.call_registry, k), P.twins(r, 2, P.special_registry, k), P.twins(r, 1, P.bits_registry, k), P.twin_chains(r, 8, k)])
        yield P.merged(r, [P.reg_batch(r, 8, P.default_registry, 1, 1, flags=k), P.reg_batch(r, 3, P.sequence_registry, 1, 1),
            P.reg_batch(r, 3, P.special_registry, 1, 1, flags=k), P.reg_batch(r, 3, P.hint_registry, 1, 1),
            P.reg_batch(r, 3, P.call_registry, 1, 1), P.reg_batch(r, 2, P.compact_registry, 1, 1), P.reg_batch(r, 2, P.wild_registry, 1, 1)])
        yield P.merged(r, [P.chains_batch(r, 8, ["tx", "txu", "call", "dcall", "ext", "dext", "mark"], 2, lens=0.2, bad=0.3, odd=0.02, extodd=0.1, flags=k),
            P.storage_batch(E.exe, r, 8, 3, bad=0.3), P.uxt_batch(E.exe, r, 8, 4), P.meta_batch(r, 14, odd=0.1),
            steps_batch(r, 3, 1, P.default_registry), P.real_items(E.exe, r, names, 60, 1, 1, flags=k),
            P.real_tx_batch(E.exe, r, names, ["tx", "txu"], 12, lens=0.1, bad=0.2)])

ALL = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}
