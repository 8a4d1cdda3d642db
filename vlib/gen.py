"""Generators: registries, metadata, encoded values, mutations.

Nothing here is an oracle. What a case must give is decided by the
specification alone; the generators only aim at interesting inputs."""
import random
from . import scale
from .scale import compact

PRIMS = scale.PRIMS
UINTS = {"U8": 1, "U16": 2, "U32": 4, "U64": 8, "U128": 16}
PWIDTH = dict(UINTS, U256=32, I8=1, I16=2, I32=4, I64=8, I128=16, I256=32, Bool=1, Char=4)
PERS = {"PerU16": 2, "Percent": 1, "Permill": 4, "Perbill": 4, "Perquintill": 8}
PERMAX = {"PerU16": 65535, "Percent": 100, "Permill": 10**6, "Perbill": 10**9, "Perquintill": 10**18}
FIXED = {"AccountId32": 32, "H160": 20, "AccountId20": 20, "H256": 32, "H512": 64}

def hinted(t):
    """the special meaning of the path, for value generation only"""
    p = t["path"]
    if not p:
        return None
    a = p[-1]
    if a in FIXED or a in PERS or a == "Era":
        return a
    if a in ("Public", "Signature") and len(p) == 3 and p[0] == "sp_core" and p[1] in ("ed25519", "sr25519", "ecdsa"):
        return a + ("33" if p[1] == "ecdsa" and a == "Public" else "32" if a == "Public"
                    else "65" if p[1] == "ecdsa" else "64")
    return None

class Dead(Exception):
    pass

class Values:
    """Random encodings of the types of a registry."""
    INF = 10**6

    def __init__(self, rng, reg, maxdepth=9, big=False):
        self.r, self.reg, self.maxdepth, self.big = rng, reg, maxdepth, big
        self.mind = [self.INF] * len(reg)
        changed = True
        while changed:
            changed = False
            for i, t in enumerate(reg):
                m = self._mind(t)
                if m < self.mind[i]:
                    self.mind[i] = m
                    changed = True
        self.zcache = {}

    def _md(self, id):
        return self.mind[id] if 0 <= id < len(self.reg) else self.INF

    def _mind(self, t):
        if hinted(t):
            return 0
        d = t["def"]
        if d == "Composite":
            return 1 + max([self._md(f["ty"]) for f in t["fields"]], default=0)
        if d == "Variant":
            return 1 + min([max([self._md(f["ty"]) for f in v["fields"]], default=0)
                            for v in t["variants"]], default=0)
        if d == "Array":
            return 1 + (self._md(t["ty"]) if scale.length(t["len"]) else 0)
        if d == "Tuple":
            return 1 + max([self._md(x) for x in t["tys"]], default=0)
        if d == "Compact":
            return 1 + self._md(t["ty"])
        return 0

    def zst(self, id, seen=()):
        """may the type take no bytes? (or be a trap of any kind)"""
        if id in seen or not 0 <= id < len(self.reg):
            return True
        t = self.reg[id]
        if hinted(t):
            return False
        s = seen + (id,)
        d = t["def"]
        if d == "Composite":
            return all(self.zst(f["ty"], s) for f in t["fields"])
        if d == "Variant":
            return not t["variants"]
        if d == "Array":
            return scale.length(t["len"]) == 0 or self.zst(t["ty"], s)
        if d == "Tuple":
            return all(self.zst(x, s) for x in t["tys"])
        if d == "Compact":
            return self.zst(t["ty"], s)
        return False

    def trap(self, id):
        """does the type contain a sequence of possibly empty elements, or a
        huge array of such? (documented finding C14; kept out elsewhere)"""
        if id not in self.zcache:
            self.zcache[id] = self._trap(id, set())
        return self.zcache[id]

    def _trap(self, id, seen):
        if id in seen or not 0 <= id < len(self.reg):
            return False
        seen.add(id)
        t = self.reg[id]
        if hinted(t):
            return False
        d = t["def"]
        if d == "Sequence" and self.zst(t["ty"]):
            return True
        if d == "Array" and scale.length(t["len"]) > 2000:
            return True
        sub = []
        if d == "Composite":
            sub = [f["ty"] for f in t["fields"]]
        elif d == "Variant":
            sub = [f["ty"] for v in t["variants"] for f in v["fields"]]
        elif d in ("Sequence", "Array", "Compact"):
            sub = [t["ty"]]
        elif d == "Tuple":
            sub = t["tys"]
        return any(self._trap(x, seen) for x in sub)

    def uint(self, w):
        r = self.r
        k = r.random()
        top = 256 ** w
        if k < 0.15:
            v = 0
        elif k < 0.3:
            v = top - 1
        elif k < 0.5:
            v = r.randrange(min(top, 300))
        elif k < 0.7:
            v = r.choice([63, 64, 16383, 16384, 2**30 - 1, 2**30, 2**32 - 1, 2**32, 2**56 - 1, 2**56, 2**64 - 1]) % top
        else:
            v = r.randrange(256 ** r.randint(1, w))
        return v

    def text(self):
        r = self.r
        pool = ["", "a", "abc", "Westend", "\u00e9", "\u20ac", "\U0001f600", "\u07ff", "\u0800", "\uffff",
                "\ud7ff", "\ue000", "\U0010ffff", "x" * r.randint(0, 70), "line\nbreak", "quo\"te"]
        return "".join(r.choice(pool) for _ in range(r.randint(0, 3)))

    def era(self):
        r = self.r
        if r.random() < 0.3:
            return b"\x00"
        lg = r.randint(2, 16)
        period = 1 << lg
        q = max(1, period >> 12)
        phase = r.randrange(period) // q
        code = (lg - 1) | (phase << 4)
        return code.to_bytes(2, "little")

    def rb(self, n):
        r = self.r
        k = r.random()
        if k < 0.1:
            return bytes(n)
        if k < 0.2:
            return b"\xff" * n
        return bytes(r.randrange(256) for _ in range(n))

    def val(self, id, cmp=False, depth=0):
        r = self.r
        if not 0 <= id < len(self.reg) or depth > 60:
            raise Dead
        t = self.reg[id]
        h = hinted(t)
        deep = depth >= self.maxdepth
        if h:
            if h in PERS:
                v = r.randrange(PERMAX[h] + 1) if r.random() < 0.8 else r.choice([0, PERMAX[h]])
                if cmp:
                    return compact(v if r.random() < 0.8 else self.uint(PERS[h]))
                return v.to_bytes(PERS[h], "little")
            if cmp:
                raise Dead
            if h == "Era":
                return self.era()
            if h in FIXED:
                return self.rb(FIXED[h])
            return self.rb(int(h[-2:]))
        d = t["def"]
        if d == "Composite":
            if cmp and len(t["fields"]) > 1:
                raise Dead
            return b"".join(self.val(f["ty"], cmp, depth + 1) for f in t["fields"])
        if d == "Tuple":
            if cmp and len(t["tys"]) > 1:
                raise Dead
            return b"".join(self.val(x, cmp, depth + 1) for x in t["tys"])
        if d == "Primitive":
            p = t["prim"]
            if p in UINTS:
                v = self.uint(UINTS[p])
                return compact(v) if cmp else v.to_bytes(UINTS[p], "little")
            if cmp:
                raise Dead
            if p == "Bool":
                return bytes([r.randrange(2)])
            if p == "Char":
                c = r.choice([0x41, 0, 0x7f, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, r.randrange(0xd800)])
                return c.to_bytes(4, "little")
            if p == "Str":
                b = self.text().encode("utf-8")
                return compact(len(b)) + b
            return self.rb(PWIDTH[p])
        if cmp:
            if d == "Compact" and r.random() < 0.6:      # refused, but not for want of data
                return self.val(t["ty"], True, depth + 1)
            raise Dead
        if d == "Variant":
            vs = t["variants"]
            if not vs:
                return b""
            ok = [v for v in vs if max([self._md(f["ty"]) for f in v["fields"]], default=0) < self.INF]
            if not ok:
                raise Dead
            if deep:
                m = min(max([self._md(f["ty"]) for f in v["fields"]], default=0) for v in ok)
                ok = [v for v in ok if max([self._md(f["ty"]) for f in v["fields"]], default=0) == m]
            v = r.choice(ok)
            first = next(x for x in vs if x["ix"] == v["ix"])
            return bytes([v["ix"]]) + b"".join(self.val(f["ty"], False, depth + 1) for f in first["fields"])
        if d == "Sequence":
            if deep:
                n = 0 if r.random() < 0.7 else 1
            else:
                n = r.choice([0, 1, 1, 2, 3, 4])
                el = self.reg[t["ty"]] if 0 <= t["ty"] < len(self.reg) else None
                if el and el["def"] == "Primitive" and not hinted(el):
                    n = r.choice([0, 1, 2, 3, 5, 17, 63, 64, 70] if el["prim"] == "U8" else [0, 1, 2, 3, 5])
            try:
                body = b"".join(self.val(t["ty"], False, depth + 1) for _ in range(n))
            except Dead:
                n, body = 0, b""
            return compact(n) + body
        if d == "Array":
            n = scale.length(t["len"])
            if n > 2000:
                raise Dead
            return b"".join(self.val(t["ty"], False, depth + 1) for _ in range(n))
        if d == "Compact":
            return self.val(t["ty"], True, depth + 1)
        if d == "BitSequence":
            st = self.reg[t["store"]] if 0 <= t["store"] < len(self.reg) else {"def": ""}
            sb = UINTS.get(st.get("prim", ""), 1) if st["def"] == "Primitive" else 1
            bits = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 130])
            return compact(bits) + self.rb((bits + 8 * sb - 1) // (8 * sb) * sb)
        raise Dead

    def get(self, id, tries=6, limit=4000):
        for _ in range(tries):
            try:
                b = self.val(id)
                if len(b) <= limit:
                    return b
            except Dead:
                pass
        return None

def alias(r):
    return r.choice([2**6, 2**8, 2**14, 2**16, 2**16, 3 * 2**16, 2**24, 2**30, 2**31, 2**32, 2**32, 2**33, 2**64, 2**128]) 

# --- mutations ---------------------------------------------------------------
def mutate(r, b):
    k = r.randrange(11)
    b = bytearray(b)
    n = len(b)
    if k == 0 and n:
        return bytes(b[:r.randrange(n)])
    if k == 1:
        return bytes(b) + bytes(r.randrange(256) for _ in range(r.randint(1, 3)))
    if k in (2, 3, 4) and n:
        i = r.randrange(n)
        b[i] = r.choice([0, 1, 2, 3, 0xfc, 0xfd, 0xfe, 0xff, r.randrange(256), (b[i] + 1) % 256, (b[i] - 1) % 256,
                         b[i] ^ (1 << r.randrange(8))])
        return bytes(b)
    if k == 5 and n:
        i = r.randrange(n)
        del b[i]
        return bytes(b)
    if k == 6:
        i = r.randrange(n + 1)
        b.insert(i, r.choice([0, 1, 4, 0xff, r.randrange(256)]))
        return bytes(b)
    if k == 7 and n:          # a non-canonical compact for a small one
        i = r.randrange(n)
        x = b[i] >> 2
        alt = r.choice([(x << 2 | 1).to_bytes(2, "little"), (x << 2 | 2).to_bytes(4, "little"),
                        b"\x03" + x.to_bytes(4, "little"), b"\x07" + x.to_bytes(5, "little"),
                        b"\x33" + x.to_bytes(16, "little")])
        return bytes(b[:i]) + alt + bytes(b[i + 1:])
    if k == 8 and n:          # two changes
        return mutate(r, mutate(r, bytes(b)))
    if k == 10 and n:         # a small compact becomes one that is equal to it in fewer bits
        i = 0 if r.random() < 0.5 else r.randrange(n)
        return bytes(b[:i]) + compact((b[i] >> 2) + alias(r)) + bytes(b[i + 1:])
    if k == 9 and n:          # cut near the end
        return bytes(b[:n - r.randint(1, min(n, 3))])
    return bytes(b)

# --- registries ----------------------------------------------------------------
FIELD_NAMES = ["nonce", "spec_version", "spec_name", "tx_version", "transaction_version", "value", "dest",
               "Nonce", "specVersion", "spec_version_", "a", "b"]
TYPE_NAMES = ["Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance",
              "PalletBalanceOf<T>", "T::Balance", "u32", "Vec<u8>", "balance", "BalanceOf", "T::Nonce"]
EXT_IDS = ["CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce",
           "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckWeight", "CheckNonZeroSender"]
def ext_id(r, p=0.4):
    return maybe(r, r.choice(EXT_IDS), p)
SPECIALS = ["AccountId32", "AccountId20", "H160", "H256", "H512", "Era", "PerU16", "Percent", "Permill", "Perbill",
            "Perquintill", "MultiSignature", "Call", "RuntimeCall", "Event", "RuntimeEvent"]
PLAIN_IDENTS = ["Thing", "Option", "Result", "BoundedVec", "CheckNonce", "ChargeAssetTxPayment",
                "ChargeTransactionPayment", "CheckGenesis", "Public", "Signature", "h256", "Balance", "Lsb0", "Msb0",
                "UncheckedExtrinsic", "CallX", "Vec"]
NAMESPACES = [[], ["sp_core", "crypto"], ["sp_core", "ed25519"], ["sp_core", "sr25519"], ["sp_core", "ecdsa"],
              ["pallet_x"], ["pallet_x", "pallet"], ["sp_runtime", "generic", "unchecked_extrinsic"],
              ["sp_core", "ed25519", "inner"], ["other", "ed25519"]]
def near(r, s):
    """a text that is nearly the given one"""
    k = r.randrange(14)
    if k == 0:
        return s + r.choice(["2", "V2", "s", "_", "X", " ", "Old", "<T>", "_version"])
    if k == 1:
        return r.choice(["X", "My", "_", "Old", "T::", "r#", " ", "Skip", "sub_"]) + s
    if k == 2 and len(s) > 1:
        return s[:-1]
    if k == 3 and len(s) > 1:
        return s[1:]
    if k == 4:
        return s.lower()
    if k == 5:
        return s.upper()
    if k == 6:
        return s.replace("_", "") if "_" in s else s[:1].swapcase() + s[1:]
    if k == 7:
        return s + s
    if k == 8 and len(s) > 2:
        i = r.randrange(len(s) - 1)
        return s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if k == 9 and len(s) > 2:
        return s[:len(s) // 2]
    if k == 10:
        return s.split("::")[-1] if "::" in s else "x::" + s
    if k == 11:
        return s.split("<")[0] if "<" in s else s + "<T, I>"
    if k == 12 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice("aeT0_") + s[i + 1:]
    return s.replace(", ", ",") if ", " in s else s[::-1]

def nears(s):
    """every text that is nearly the given one, in the ways software gets it wrong"""
    out = [x + s for x in ("X", "My", "_", "Old", "Local", "New", "Raw", "T::", "r#", " ", "Skip", "sub_", "x::", "Pre", "pre_", "Un", "0")]
    out += [s + x for x in ("2", "V2", "V4", "s", "_", "X", " ", "Old", "<T>", "<T, I>", "<T::Inner>", "_version", "Of", "_id", "New", "s<T>", "\n", "0")]
    out += [s[:-1], s[1:], s.lower(), s.upper(), s[:1].swapcase() + s[1:], s + s, s[::-1], s[:len(s) // 2], s[len(s) // 2:], "", s.title(),
            s.replace("_", ""), s.replace("_", "-"), s.split("_")[0], s.split("_")[-1], s.split("::")[-1], s.split("::")[0], s.split("<")[0],
            "".join(w.title() for w in s.split("_")), s.replace(", ", ",")]
    if "<" in s:
        for a in ("<T, ()>", "<T, J>", "<T,I>", "<T>", "<I>", "<Self>", "<T, Instance1>", "<T, I, J>", "<U>", "< T >", "<T", "<T, I> "):
            out.append(s.split("<")[0] + a)
        out += ["Pallet" + s, s.replace("Pallet", "")]
    for i, ch in enumerate(s):
        if ch.isdigit():
            out += [s[:i] + d + s[i + 1:] for d in "0123468"]
        if ch.isupper() and i:
            out += [s[i:], s[:i], s[:i] + "_" + s[i:], s[:i] + ch.lower() + s[i + 1:]]
    return [x for x in dict.fromkeys(out) if x != s]

def maybe(r, s, p=0.12):
    return near(r, s) if r.random() < p else s

DOCS = [[], [], [], ["Some docs."], ["First line.", "Second line."], [""], ["", ""]]

class Registry:
    def __init__(self, rng):
        self.r = rng
        self.t = []

    def add(self, d, path=(), docs=(), params=(), **kw):
        self.t.append(dict({"path": list(path), "docs": list(docs), "params": list(params), "def": d}, **kw))
        return len(self.t) - 1

    # plain constructors
    def prim(self, p, **kw):
        return self.add("Primitive", prim=p, **kw)

    def comp(self, fields, **kw):
        return self.add("Composite", fields=fields, **kw)

    def variant(self, variants, **kw):
        return self.add("Variant", variants=variants, **kw)

    def seq(self, ty, **kw):
        return self.add("Sequence", ty=ty, **kw)

    def array(self, ty, n, **kw):
        return self.add("Array", ty=ty, len=[n >> 16, n & 65535], **kw)

    def tuple(self, tys, **kw):
        return self.add("Tuple", tys=tys, **kw)

    def compact(self, ty, **kw):
        return self.add("Compact", ty=ty, **kw)

    def bits(self, order, store, **kw):
        return self.add("BitSequence", order=order, store=store, **kw)

    def prims(self):
        self.p = {p: self.prim(p) for p in PRIMS}
        return self.p

def F(ty, name=None, tn=None, docs=()):
    return {"name": [name] if name is not None else [], "tn": [tn] if tn is not None else [], "ty": ty,
            "docs": list(docs)}

def V(name, ix, fields=(), docs=()):
    return {"name": name, "ix": ix, "fields": list(fields), "docs": list(docs)}

class Random(Registry):
    """A random registry. wild: probability of a reference that is not to an
    earlier type; special: probability of a path with a meaning."""
    def __init__(self, rng, n=25, wild=0.0, special=0.25, weights=None, compacts=True, docs=0.3, hints=0.3):
        super().__init__(rng)
        self.wild, self.special, self.n, self.docsp, self.hints = wild, special, n, docs, hints
        self.prims()
        w = {"Composite": 6, "Variant": 4, "Sequence": 4, "Array": 3, "Tuple": 3, "Compact": 3, "BitSequence": 1,
             "Pallet": 1, "Multi": 1, "Primitive": 1}
        w.update(weights or {})
        total = len(PRIMS) + n
        self.total = total
        while len(self.t) < total:
            k = rng.choices(list(w), list(w.values()))[0]
            getattr(self, "_" + k)()

    def ref(self):
        r = self.r
        if r.random() < self.wild:
            return r.choice([len(self.t), r.randrange(self.total), r.randrange(self.total + 3)])
        if r.random() < 0.5:
            return r.randrange(len(PRIMS))
        return r.randrange(max(0, len(self.t) - 12), len(self.t))

    def uref(self):
        return self.p[self.r.choice(list(UINTS))]

    def docs(self):
        return list(self.r.choice(DOCS)) if self.r.random() < self.docsp * 2 else []

    def path(self, special=True):
        r = self.r
        if special and r.random() < self.special:
            a = r.choice(SPECIALS + PLAIN_IDENTS)
        elif r.random() < 0.5:
            return []
        else:
            a = r.choice(PLAIN_IDENTS)
        if r.random() < 0.1:
            a = near(r, r.choice(SPECIALS + PLAIN_IDENTS))
        ns = list(r.choice(NAMESPACES))
        if ns and r.random() < 0.08:
            i = r.randrange(len(ns))
            ns[i] = near(r, ns[i])
        return ns + [a]

    def field(self, named=None):
        r = self.r
        named = r.random() < 0.6 if named is None else named
        name = None
        if named:
            name = maybe(r, r.choice(FIELD_NAMES[:5] if r.random() < self.hints else FIELD_NAMES[5:]))
        tn = maybe(r, r.choice(TYPE_NAMES[:7] if r.random() < self.hints else TYPE_NAMES[7:])) if r.random() < 0.6 else None
        return F(self.ref(), name, tn, self.docs())

    def fieldset(self, ks=(0, 1, 1, 1, 2, 3)):
        n = self.r.choice(ks)
        named = self.r.random() < 0.6
        return [self.field(named) for _ in range(n)]

    def _Primitive(self):
        self.prim(self.r.choice(PRIMS), path=self.path() if self.r.random() < 0.5 else [], docs=self.docs())

    def _Composite(self):
        self.comp(self.fieldset(), path=self.path(), docs=self.docs())

    def _Variant(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4])
        ixs = [r.choice([0, 1, 2, 3, 255, r.randrange(256)]) if r.random() < 0.3 else i for i in range(n)]
        self.variant([V("V%d" % i, ix, self.fieldset((0, 0, 1, 1, 2)), self.docs()) for i, ix in enumerate(ixs)],
                     path=self.path(), docs=self.docs())

    def _Sequence(self):
        self.seq(self.ref(), path=self.path() if self.r.random() < 0.3 else [], docs=self.docs())

    def _Array(self):
        self.array(self.ref(), self.r.choice([0, 1, 2, 3, 4, 32]), docs=self.docs(),
                   path=self.path() if self.r.random() < 0.2 else [])

    def _Tuple(self):
        self.tuple([self.ref() for _ in range(self.r.choice([0, 1, 1, 2, 3]))], docs=self.docs(),
                   path=self.path() if self.r.random() < 0.2 else [])

    def _Compact(self):
        r = self.r
        inner = self.uref() if r.random() < 0.6 else self.ref()
        self.compact(inner, docs=self.docs(), path=self.path() if r.random() < 0.2 else [])

    def _BitSequence(self):
        r = self.r
        o = self.comp([], path=["bitvec", "order", maybe(r, r.choice(["Lsb0", "Msb0"]), 0.2)])
        s = self.p[r.choice(["U8", "U16", "U32", "U64", "U128" if r.random() < 0.3 else "U8"])]
        if r.random() < 0.07:
            o = self.ref()
        self.bits(o, s, docs=self.docs())

    def _Pallet(self):
        call_tree(self, self.r.choice(["call", "event"]), self.ref, self.docs)

    def _Multi(self):
        multi_signature(self, self.r)

CALLS, EVENTS = ["Call", "RuntimeCall"], ["Event", "RuntimeEvent"]

def call_tree(R, kind, ref, docs, pallets=None, odd=0.3):
    """an outer enum of pallets, some of them irregular"""
    r = R.r
    good = CALLS if kind == "call" else EVENTS
    bad = (EVENTS if kind == "call" else CALLS) + ["Other"]
    variants = []
    for i in range(pallets or r.randint(1, 4)):
        k = r.choice(["path", "two", "bare", "none", "other", "empty"]) if r.random() < odd else ""
        inner_path = ["pallet_%d" % i, "pallet", r.choice(good)]
        if k == "path":
            inner_path = ["pallet_%d" % i, r.choice(bad + [near(r, r.choice(good))])]
        if k in ("", "path", "two", "empty"):
            n = 0 if k == "empty" else r.randint(1, 3)
            inner = R.variant([V("c%d" % j, r.choice([j, j, j, j + 1, 255]),
                                 [R.field() if hasattr(R, "field") and r.random() < 0.7 else F(ref(), "x", None, docs())
                                  for _ in range(r.choice([0, 1, 1, 2, 3]))], docs()) for j in range(n)],
                              path=inner_path, docs=docs())
            fs = [F(inner, r.choice([None, "p", "nonce"]), r.choice([None, None, "Balance"]), docs())]
            if k == "two":
                fs.append(F(ref()))
        elif k == "none":
            fs = []
        elif k == "bare":                     # a struct of the right path is no enum
            fs = [F(R.comp([F(ref())], path=inner_path))]
        else:
            fs = [F(ref())]
        variants.append(V("Pallet%d" % i if r.random() < 0.6 else
                          maybe(r, r.choice(["Balances", "Staking", "System", "Balances", "Staking"]), 0.35),
                          r.choice([i, i, i, i + 2]), fs, docs()))
    return R.variant(variants, path=["runtime", maybe(r, r.choice(good), odd / 3)], docs=docs())

def multi_signature(R, r):
    u8 = R.p["U8"]
    def sig(n, path=()):
        a = R.array(u8 if r.random() < 0.93 else R.p["U16"], n if r.random() < 0.85 else r.choice([n - 1, n + 1, 0, 65, 64]))
        return R.comp([F(a, None, "[u8; %d]" % n)], path=path)
    names = [("Ed25519", "ed25519::Signature", 64, "ed25519"), ("Sr25519", "sr25519::Signature", 64, "sr25519"),
             ("Ecdsa", "ecdsa::Signature", 65, "ecdsa")]
    vs = []
    for i, (n, tn, ln, ns) in enumerate(names):
        path = ["sp_core", ns, "Signature"] if r.random() < 0.6 else []
        if r.random() < 0.12:
            tn = r.choice(["ed25519::Signature", "sr25519::Signature", "ecdsa::Signature", "Signature", None, near(r, tn)])
        if r.random() < 0.7:
            ty = sig(ln, path)
        else:                                       # field straight to the array
            ty = R.array(u8, ln)
        fs = [F(ty, None, tn)]
        if r.random() < 0.08:
            fs.append(F(R.p["U8"]))
        vs.append(V(n, i if r.random() < 0.9 else r.randrange(4), fs, []))
    return R.variant(vs, path=["sp_runtime", "MultiSignature"] if r.random() < 0.93 else [near(r, "MultiSignature")])

def meta_of(reg, v=14, pallets=(), exts=(), xty=0, xver=4, xp=None):
    return {"v": v, "reg": reg, "pallets": list(pallets), "exts": list(exts), "xty": xty, "xver": xver,
            "xp": xp or {"a": 0, "c": 0, "s": 0, "e": 0}}

def meta_line(m):
    return "M " + scale.metadata(m).hex()

REAL = ["westend9111", "westmint9270", "westmint9270_spoiled_digest", "acala2012", "acala2200", "astar66",
        "bifrost982", "polkadot9430", "polkadot1000001_v15", "polkadot1003003_v15", "statemint1002000"]
def real_line(name):
    return "F /repo/for_tests/" + name
