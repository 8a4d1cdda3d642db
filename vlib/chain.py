"""Synthetic chains: a whole metadata with calls, extensions, a version
constant, an extrinsic type, storage entries - and encoded transactions,
extrinsics and storage entries for them and for real metadata."""
import hashlib, random
from .gen import *
from . import scale

M64 = (1 << 64) - 1
def xxh64(data, seed=0):
    P1, P2, P3, P4, P5 = (11400714785074694791, 14029467366897019727, 1609587929392839161,
                          9650029242287828579, 2870177450012600261)
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M64
    rnd = lambda a, x: (rot((a + x * P2) & M64, 31) * P1) & M64
    n, i = len(data), 0
    if n >= 32:
        v = [(seed + P1 + P2) & M64, (seed + P2) & M64, seed, (seed - P1) & M64]
        while i + 32 <= n:
            for k in range(4):
                v[k] = rnd(v[k], int.from_bytes(data[i + 8 * k:i + 8 * k + 8], "little"))
            i += 32
        h = (rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18)) & M64
        for k in range(4):
            h = ((h ^ rnd(0, v[k])) * P1 + P4) & M64
    else:
        h = (seed + P5) & M64
    h = (h + n) & M64
    while i + 8 <= n:
        h = (rot(h ^ rnd(0, int.from_bytes(data[i:i + 8], "little")), 27) * P1 + P4) & M64
        i += 8
    if i + 4 <= n:
        h = (rot(h ^ (int.from_bytes(data[i:i + 4], "little") * P1) & M64, 23) * P2 + P3) & M64
        i += 4
    while i < n:
        h = (rot(h ^ (data[i] * P5) & M64, 11) * P1) & M64
        i += 1
    h = ((h ^ (h >> 33)) * P2) & M64
    h = ((h ^ (h >> 29)) * P3) & M64
    return h ^ (h >> 32)

def twox64(b):
    return xxh64(b).to_bytes(8, "little")
def blake128(b):
    return hashlib.blake2b(b, digest_size=16).digest()

HASHERS = ["Blake2_128", "Blake2_256", "Twox128", "Twox256", "Blake2_128Concat", "Twox64Concat", "Identity"]
OPAQUE = {"Blake2_128": 16, "Blake2_256": 32, "Twox128": 16, "Twox256": 32}

class Chain:
    """A metadata in dumped form with what is needed to write transactions.
    odd: probability of each irregularity."""
    def __init__(self, rng, v=14, odd=0.06, n=18, wild=0.0, special=0.25, extodd=None):
        self.r, self.odd = rng, odd
        self.extodd = odd if extodd is None else extodd
        R = self.R = Random(rng, n=n, wild=wild, special=special)
        r = rng
        self.h256 = R.comp([F(R.array(R.p["U8"], 32), None, "[u8; 32]")], path=["primitive_types", "H256"])
        self.era = R.variant([V("Immortal", 0), V("Mortal1", 1, [F(R.p["U8"])])],
                             path=["sp_runtime", "generic", "era", "Era"], docs=R.docs())
        self.unit = R.tuple([])
        self.pallets = []
        self.version()
        if r.random() < 1 - odd / 2:
            call = call_tree(R, "call", R.ref, R.docs, odd=0.05 + 2 * odd)
        else:
            call = R.ref()
        self.call = call
        addr = r.choice([R.comp([F(R.array(R.p["U8"], 32))], path=["sp_core", "crypto", "AccountId32"]), R.ref(),
                         R.variant([V("Id", 0, [F(R.ref())]), V("Index", 1, [F(R.compact(R.p["U32"]))])],
                                   path=["sp_runtime", "MultiAddress"])])
        sig = multi_signature(R, r) if r.random() < 0.8 else R.ref()
        self.extensions()
        extra = R.tuple([e["ty"] for e in self.exts])
        xver = r.choice([4, 4, 4, 5, 0, 127])
        xty = 0
        xp = {"a": addr, "c": call, "s": sig, "e": extra}
        if v == 14:
            params = [{"name": n, "ty": [t]} for n, t in
                      [("Address", addr), ("Call", call), ("Signature", sig), ("Extra", extra)]]
            if self.hit():
                r.shuffle(params)
            if self.hit():
                params.pop(r.randrange(4))
            if self.hit():
                params[r.randrange(len(params))]["ty"] = []
            if self.hit(self.odd / 2):
                p = params[r.randrange(len(params))]
                p["name"] = near(r, p["name"])
            if r.random() < 0.2:
                params.insert(r.randrange(len(params) + 1), {"name": near(r, r.choice(["Address", "Call", "Signature", "Extra"])), "ty": [R.ref()]})
            if self.hit():
                params.append({"name": r.choice(["Address", "Call", "Signature", "Extra", "Other"]), "ty": [R.ref()]})
            vu8 = R.seq(R.p["U8"])
            k = r.random()
            path = ["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"]
            if k < 1 - 1.5 * odd or not odd:
                xty = R.comp([F(vu8)], path=path, params=params)
            else:
                xty = r.choice([lambda: R.seq(R.p["U8"], path=path, params=params),
                                lambda: R.comp([F(R.comp([F(vu8)], path=path, params=params))]),
                                lambda: R.comp([F(R.comp([F(vu8)]))], path=path, params=params),
                                lambda: R.comp([F(vu8), F(R.p["U8"])], path=path, params=params),
                                lambda: R.comp([F(R.seq(R.p["U16"]))], path=path, params=params),
                                lambda: R.comp([F(R.p["U8"])], path=path, params=params),
                                lambda: R.compact(R.p["U8"], path=path, params=params),
                                lambda: R.compact(R.comp([F(vu8)], path=path, params=params)),
                                lambda: R.comp([F(len(R.t) + 7)], path=path, params=params),
                                lambda: R.comp([F(R.seq(len(R.t) + 7))], path=path, params=params),
                                lambda: R.comp([F(len(R.t))], path=path[:-1] + ["X"], params=params),
                                lambda: len(R.t) + 9])()
        self.meta = meta_of(R.t, v, self.pallets, self.exts, xty, xver, xp if v == 15 else None)
        self.xp = xp

    def hit(self, p=None):
        return self.r.random() < (self.odd if p is None else p)

    def version(self):
        R, r = self.R, self.r
        self.ver = r.choice([0, 1, 9111, 255, 42, 65535, 2**32 - 1])
        fields = []
        data = b""
        nm = b"westend" if r.random() < 0.8 else "n\u00e9".encode()
        vt = r.choice(["U32"] * 6 + ["U8", "U16", "U64", "U128"])
        self.ver %= 256 ** UINTS[vt]
        plan = [("spec_name", R.p["Str"], compact(len(nm)) + nm), ("impl_name", R.p["Str"], b"\x04x"),
                ("authoring_version", R.p["U32"], b"\x02\0\0\0"),
                ("spec_version", R.p[vt], self.ver.to_bytes(UINTS[vt], "little")),
                ("impl_version", R.p["U32"], b"\0\0\0\0"),
                ("apis", R.seq(R.p["U8"]), b"\x08ab"),
                ("transaction_version", R.p["U32"], b"\x07\0\0\0")]
        if self.hit():
            plan.pop(r.randrange(len(plan)))
        if self.hit():
            plan.insert(r.randrange(len(plan) + 1), plan[r.choice([0, 3])] if len(plan) > 3 else plan[0])
        if self.hit(self.odd * 2):                 # the version again, in another width or form
            w = r.choice(list(UINTS))
            x = r.choice([self.ver, self.ver + 1, 5]) % 256 ** UINTS[w]
            again = ("spec_version", R.p[w], x.to_bytes(UINTS[w], "little"))
            if r.random() < 0.2:
                again = ("spec_version", R.compact(R.p[w]), compact(x))
            if r.random() < 0.2:
                again = ("spec_version", R.comp([F(R.p[w])]), x.to_bytes(UINTS[w], "little"))
            if r.random() < 0.2:
                again = ("spec_name", R.p["Str"], b"\x08zz")
            plan.insert(r.randrange(len(plan) + 1), again)
        if self.hit():
            i = r.randrange(len(plan))
            plan[i] = (near(r, plan[i][0]), plan[i][1], plan[i][2])
        if self.hit():
            i = r.randrange(len(plan) + 1)
            plan.insert(i, (near(r, r.choice(["spec_version", "spec_name"])), R.p["U32"], b"\x09\0\0\0"))
        if self.hit():
            plan.insert(0, ("tuplewrap", R.comp([F(R.p["U32"], "spec_version")]), b"\x05\0\0\0"))
        if self.hit():
            i = r.randrange(len(plan))
            plan[i] = (plan[i][0], R.comp([F(plan[i][1])]), plan[i][2])
        if self.hit():
            i = r.randrange(len(plan))
            w = r.choice(list(UINTS))
            plan[i] = (plan[i][0], R.compact(R.p[w]), compact(self.ver % 256 ** UINTS[w]))
        if self.hit():
            r.shuffle(plan)
        vty = R.comp([F(t, n) for n, t, _ in plan], path=["sp_version", "RuntimeVersion"])
        data = b"".join(d for _, _, d in plan)
        if self.hit(self.odd / 2):
            vty = r.choice([lambda: R.tuple([vty]), lambda: R.p["U32"], lambda: R.comp([F(vty)]),
                            lambda: len(R.t) + 5])()
        if self.hit(self.odd / 2):
            data = mutate(r, data)
        consts = [{"name": "BlockWeights", "ty": R.p["U32"], "value": [1, 0, 0, 0]},
                  {"name": "Version", "ty": vty, "value": list(data)}]
        if self.hit():
            consts.pop(1)
        if self.hit():
            consts.insert(r.randrange(3) % (len(consts) + 1), {"name": "Version", "ty": R.p["U32"], "value": [1, 0, 0, 0]})
        for _ in range(r.choice([0, 0, 1, 2])):    # others, some nearly of that name, which say something else
            other = [(n, t, b) for n, t, b in plan if n != "tuplewrap"]
            oty = R.comp([F(t, n) for n, t, _ in other], path=["sp_version", "RuntimeVersion"])
            odata = b"".join((bytes([b[0] ^ 1]) + b[1:]) if n == "spec_version" else b for n, _, b in other)
            consts.insert(r.randrange(len(consts) + 1),
                          {"name": r.choice(["VersionOld", "StorageVersion", "version", "VERSION", "Versions", "SS58Prefix",
                                             near(r, "Version")]), "ty": oty, "value": list(odata)})
        ps = [{"name": "System", "consts": consts}, {"name": "Balances", "consts": [{"name": "Version", "ty": vty, "value": list(data)}]}]
        if self.hit():
            r.shuffle(ps)
        if r.random() < 0.3:
            other = [dict(c, value=[x ^ 1 for x in c["value"][:1]] + c["value"][1:]) for c in consts]
            ps.insert(r.randrange(len(ps) + 1), {"name": r.choice(["SystemOld", "ParaSystem", "system", "SYSTEM", near(r, "System")]),
                                                "consts": other})
        if self.hit(self.odd / 2):
            ps = [p for p in ps if p["name"] != "System"]
        if self.hit(self.odd / 2):
            ps.append({"name": "System", "consts": consts})
        self.pallets = ps

    def wrapped(self, ty, p=None):
        """the type, now and then inside transparent or opaque wrappers"""
        R, r = self.R, self.r
        if r.random() > (0.25 + self.extodd if p is None else p):
            return ty
        k = r.randrange(7)
        if k <= 2:
            return R.comp([F(ty, r.choice([None, "tip"]))], path=R.path(special=False) if r.random() < 0.5 else [])
        if k == 3:
            return R.tuple([ty])
        if k == 4:
            return R.comp([F(ty, "a"), F(self.unit, "b")])
        if k == 5:
            return R.tuple([ty, self.unit])
        return self.wrapped(R.comp([F(ty)]))

    def extensions(self):
        R, r = self.R, self.r
        u32, u128 = R.p["U32"], R.p["U128"]
        c32, c128 = R.compact(u32), R.compact(u128)
        w = self.wrapped
        unit = self.unit
        exts = [("CheckSpecVersion", unit, u32), ("CheckTxVersion", unit, u32), ("CheckGenesis", unit, self.h256),
                ("CheckMortality", w(self.era), self.h256), ("CheckNonce", w(c32), unit), ("CheckWeight", unit, unit),
                ("ChargeTransactionPayment", w(c128), unit)]
        if r.random() < 0.4:
            exts.append(("ChargeAssetTxPayment", R.comp([F(c128, "tip"), F(R.variant([V("None", 0), V("Some", 1, [F(u32)])],
                         path=["Option"]), "asset_id")]), unit))
        if self.hit(self.extodd):
            exts[0] = ("CheckSpecVersion", unit, w(R.p[r.choice(list(UINTS))], 0.7))
        if self.hit(self.extodd):
            exts[2] = ("CheckGenesis", unit, w(self.h256, 0.9))
        if self.hit(self.extodd):
            exts[3] = ("CheckMortality", w(self.era), w(self.h256, 0.9))
        if self.hit(self.extodd * 2):
            exts.append((ext_id(r), w(r.choice([self.era, self.h256, u32, c32, R.ref()]), 0.4),
                         w(r.choice([unit, self.h256, u32, R.ref()]), 0.4)))
        if self.hit(self.extodd * 2):
            exts.pop(r.randrange(len(exts)))
        if self.hit(self.extodd * 2):
            i = r.randrange(len(exts))
            exts[i] = (ext_id(r), exts[i][1], exts[i][2])
        if self.hit(self.extodd * 2):              # one type in both parts
            t = w(r.choice([u32, c32, c128, self.h256, R.uref(), R.ref()]), 0.4)
            exts.append((ext_id(r, 0.2), t, t))
        if self.hit(self.extodd):
            i = r.randrange(len(exts))
            t = exts[i][r.choice([1, 2])]
            exts[i] = (exts[i][0], t, t)
        if self.hit(self.extodd * 2):              # nearly a known identifier, on a type that takes a label
            t = w(r.choice([u32, c32, c128, self.h256, R.uref()]), 0.3)
            exts.append((near(r, r.choice(EXT_IDS[:7])), t, unit) if r.random() < 0.6 else
                        (near(r, r.choice(EXT_IDS[:7])), unit, t))
        if self.hit(self.extodd * 2):
            i = r.randrange(len(exts))
            exts[i] = (exts[i][0], exts[i][2], exts[i][1])
        if r.random() < 0.5:
            r.shuffle(exts)
        self.exts = [{"id": a, "ty": b, "add": d} for a, b, d in exts]

def std_real_params(m):
    """call type etc. of a dumped metadata, as the V14 extrinsic parameters say"""
    if m["v"] == 15:
        return {"a": m["xp"]["a"], "c": m["xp"]["c"], "s": m["xp"]["s"], "e": m["xp"]["e"]}
    if not 0 <= m["xty"] < len(m["reg"]):
        return None
    names = {p["name"]: p["ty"] for p in m["reg"][m["xty"]]["params"]}
    try:
        return {"a": names["Address"][0], "c": names["Call"][0], "s": names["Signature"][0], "e": names["Extra"][0]}
    except (KeyError, IndexError):
        return None

class Writer:
    """Writes transactions etc. for a metadata in dumped form."""
    def __init__(self, rng, m, ver, xp, right=0.93):
        self.r, self.m, self.ver, self.xp, self.right = rng, m, ver, xp, right
        self.vals = Values(rng, m["reg"])
        self.genesis = bytes(rng.randrange(256) for _ in range(32))

    def call(self):
        b = self.vals.get(self.xp["c"], limit=500)
        return b if b is not None else self.vals.rb(self.r.randint(0, 6))

    def ext(self):
        r = self.r
        out, self.cuts = b"", [0]
        immortal = r.random() < 0.5
        block = self.genesis if r.random() < (0.7 if immortal else 0.3) else bytes(r.randrange(256) for _ in range(32))
        for part in ("ty", "add"):
            for e in self.m["exts"]:
                v = ForcedValues(self.vals, None, None, b"\0" if immortal else self.vals.era() )
                if e["id"] == "CheckSpecVersion":
                    v.u = self.ver if r.random() < self.right else wrong_version(r, self.ver)
                if e["id"] == "CheckGenesis":
                    v.h = self.genesis if r.random() < self.right else None
                if e["id"] == "CheckMortality":
                    v.h = block
                b = v.get(e[part], limit=600)
                out += b if b is not None else b""
                self.cuts.append(len(out))
        return out

    def gh(self):
        k = self.r.random()
        return None if k < 0.4 else self.genesis if k < 0.92 else bytes(32)

    def extrinsic(self):
        r = self.r
        signed = r.random() < 0.6
        ver = self.m["xver"]
        if r.random() > self.right:
            ver = r.randrange(256)
        body = bytes([(ver & 127) | (128 if signed else 0)])
        if signed:
            for k in ("a", "s", "e"):
                b = self.vals.get(self.xp[k], limit=500)
                body += b if b is not None else b""
        body += self.call()
        return body

def wrong_version(r, v):
    """a number that resembles the version, or any"""
    d = str(v)
    out = [None, v + 1, max(0, v - 1), v + 2**8, v + 2**16, v + 2**32, v + 2**64, v + 2**127, v * 10, v // 10,
           int(d + "0"), int("1" + d), int(d[1:] or "0"), int(d[:-1] or "0"), v % 256, v % 65536, v ^ 2**31, v ^ 128,
           int(d[::-1]), int.from_bytes((v % 2**32).to_bytes(4, "little"), "big"), v << 32, v << 8, 2**32 - 1 - v, 0]
    return r.choice(out)

class ForcedValues(Values):
    def __init__(self, base, u, h, era):
        self.__dict__.update(base.__dict__)
        self.u, self.h, self.e = u, h, era

    def uint(self, w):
        if self.u is not None:
            return self.u % 256 ** w
        return super().uint(w)

    def rb(self, n):
        if self.h is not None and n == 32:
            return self.h
        return super().rb(n)

    def era(self):
        return self.e

def storage_case(r, vals, st):
    """key and value bytes for a storage description"""
    reg = vals.reg
    key = bytes(r.randrange(256) for _ in range(32))
    val = vals.get(st["val"], limit=300)
    val = val if val is not None else vals.rb(r.randint(0, 8))
    if not st["plain"]:
        hs = st["h"]
        k = st["key"]
        if len(hs) == 1:
            tys = [k]
        elif 0 <= k < len(reg) and reg[k]["def"] == "Tuple":
            tys = (reg[k]["tys"] + [0] * len(hs))[:len(hs)]
        else:
            tys = [k] * len(hs)
        for h, t in zip(hs, tys):
            b = vals.get(t, limit=120)
            b = b if b is not None else b""
            if h == "Blake2_128Concat":
                key += blake128(b) + b
            elif h == "Twox64Concat":
                key += twox64(b) + b
            elif h == "Identity":
                key += b
            else:
                key += vals.rb(OPAQUE[h])
    return key, val

def random_storage(r, R, odd=0.06):
    if r.random() < 0.15:
        return {"plain": True, "h": [], "key": 0, "val": R.ref(), "docs": list(r.choice(DOCS))}
    n = r.choice([1, 1, 1, 2, 2, 3, 0 if r.random() < odd * 3 else 1])
    hs = [r.choice(HASHERS) for _ in range(n)]
    m = n if r.random() > odd else n + r.choice([-1, 1])
    if n == 1 and r.random() < 0.8:
        key = R.ref()
    else:
        key = R.tuple([R.ref() for _ in range(max(0, m))], docs=R.docs())
    if n != 1 and r.random() < odd:
        key = R.ref()
    return {"plain": False, "h": hs, "key": key, "val": R.ref(), "docs": list(r.choice(DOCS))}
