"""SCALE encoding of metadata (V14, V15) from the dictionaries the harness dumps.

Registries are lists of dictionaries in the vocabulary of spec/Parser.tla:
  {"path":[..],"docs":[..],"params":[{"name","ty":[]|[id]}],"def":...}
"""

def compact(n):
    if n < 64:
        return bytes([n << 2])
    if n < 1 << 14:
        return ((n << 2) | 1).to_bytes(2, "little")
    if n < 1 << 30:
        return ((n << 2) | 2).to_bytes(4, "little")
    w = max(4, (n.bit_length() + 7) // 8)
    return bytes([((w - 4) << 2) | 3]) + n.to_bytes(w, "little")

def vec(items, f):
    return compact(len(items)) + b"".join(f(x) for x in items)

def string(s):
    b = s.encode("utf-8")
    return compact(len(b)) + b

def strings(v):
    return vec(v, string)

def option(o, f):          # o is [] or [x]
    return b"\x01" + f(o[0]) if o else b"\x00"

PRIMS = ["Bool", "Char", "Str", "U8", "U16", "U32", "U64", "U128", "U256",
         "I8", "I16", "I32", "I64", "I128", "I256"]

def field(f):
    return (option(f["name"], string) + compact(f["ty"]) + option(f["tn"], string)
            + strings(f["docs"]))

def variant(v):
    return string(v["name"]) + vec(v["fields"], field) + bytes([v["ix"]]) + strings(v["docs"])

def length(p):
    return p[0] * 65536 + p[1]

def typedef(t):
    d = t["def"]
    if d == "Composite":
        return b"\x00" + vec(t["fields"], field)
    if d == "Variant":
        return b"\x01" + vec(t["variants"], variant)
    if d == "Sequence":
        return b"\x02" + compact(t["ty"])
    if d == "Array":
        return b"\x03" + length(t["len"]).to_bytes(4, "little") + compact(t["ty"])
    if d == "Tuple":
        return b"\x04" + vec(t["tys"], compact)
    if d == "Primitive":
        return b"\x05" + bytes([PRIMS.index(t["prim"])])
    if d == "Compact":
        return b"\x06" + compact(t["ty"])
    if d == "BitSequence":
        return b"\x07" + compact(t["store"]) + compact(t["order"])
    raise ValueError(d)

def type_(t):
    return (strings(t["path"])
            + vec(t["params"], lambda p: string(p["name"]) + option(p["ty"], compact))
            + typedef(t) + strings(t["docs"]))

def registry(reg):
    return compact(len(reg)) + b"".join(compact(i) + type_(t) for i, t in enumerate(reg))

def constant(c):
    return string(c["name"]) + compact(c["ty"]) + compact(len(c["value"])) + bytes(c["value"]) + strings([])

def pallet(p, v15):
    return (string(p["name"]) + b"\x00\x00\x00" + vec(p["consts"], constant) + b"\x00"
            + b"\x00" + (strings([]) if v15 else b""))

def exts(e):
    return vec(e, lambda x: string(x["id"]) + compact(x["ty"]) + compact(x["add"]))

def metadata(m):
    """m: the dumped form of a metadata."""
    head = b"meta" + bytes([m["v"]])
    v15 = m["v"] == 15
    body = registry(m["reg"]) + vec(m["pallets"], lambda p: pallet(p, v15))
    if not v15:
        body += compact(m["xty"]) + bytes([m["xver"]]) + exts(m["exts"]) + compact(0)
    else:
        xp = m["xp"]
        body += (bytes([m["xver"]]) + compact(xp["a"]) + compact(xp["c"]) + compact(xp["s"])
                 + compact(xp["e"]) + exts(m["exts"]))
        body += compact(0)                                  # runtime type
        body += compact(0)                                  # apis
        body += compact(0) * 3                              # outer enums
        body += compact(0)                                  # custom
    return head + body
