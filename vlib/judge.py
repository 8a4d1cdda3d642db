"""Which differences between specification and implementation break which
property. The specification decides; this only sorts its verdicts."""

VALUE = {"kind", "val"}
SHAPE = {"kind", "val", "names"}
DECIDE = {"accepted", "refused", "callaccepted", "callrefused"}
ERR = {"errkind", "errpos", "errval"}
CALLERR = {"callerrkind", "callerrpos", "callerrval"}
CRASH = {"panic", "timeout", "abort", "cut-mismatch"}
ALLERR = ERR | CALLERR | {"message"}
EVERY = SHAPE | DECIDE | ALLERR | {"label", "info", "einfo", "pinfo", "docs", "wrap", "pos", "fact"}

CLASSES = {
    "C01": SHAPE | DECIDE | {"pos"},
    "C02": {"pos", "accepted", "refused"} | VALUE,
    "C03": ALLERR | {"accepted", "callaccepted"},
    "C04": VALUE | DECIDE | ERR | {"pos", "fact"},
    "C05": SHAPE | DECIDE | ERR | CALLERR | {"pos", "fact"},
    "C06": DECIDE | ERR | {"message"},
    "C07": SHAPE | DECIDE | ERR | {"label", "pos", "info"},
    "C08": EVERY - {"message"},
    "C09": {"label"} | VALUE | DECIDE | {"pos"},
    "C10": EVERY - {"message", "label", "wrap"},
    "C11": VALUE | DECIDE | ERR | {"pos"},
    "C12": VALUE | DECIDE | {"wrap", "einfo", "pos", "label"},
    "C13": VALUE | DECIDE | ERR | {"pos", "fact"},
    "C14": {"accepted", "refused", "errkind", "errval", "errpos"},
    "C15": EVERY - {"label", "wrap"},
    "C16": EVERY - {"label", "wrap", "message"},
    "C17": {"fact", "message"} | DECIDE | ERR,
    "C18": EVERY,
    "C19": {"info", "einfo", "pinfo", "docs", "names"},
    "C20": {"card", "amount", "info", "einfo", "pinfo", "docs", "names"},
    "C21": {"fact", "amount"},
    "C22": VALUE | DECIDE | ERR | {"pos", "fact"},
    "C24": EVERY - {"message"},
    "C25": EVERY | {"card", "amount"},
    "C23": EVERY | {"card", "amount"},
}

CYCLE = {"CyclicMetadata", "TypeNotResolved"}

def relevant(prop, v):
    """v: verdict of one record. Returns the classes that break the property."""
    cls = set(v["cls"])
    if not cls:
        return set()
    crash = cls & CRASH
    keep = cls & CLASSES[prop]
    sk, rk = v["spec_e"], v["rec_e"]
    if prop == "C14":
        if crash:
            return crash
        return keep if (sk in CYCLE or rk in CYCLE) else set()
    if prop == "C02" and cls & ERR:
        if {sk, rk} & {"SomeDataNotUsedBlob", "OutOfRange"}:
            keep |= cls & ERR
    if crash:
        # a crash is a missing value, a missing error, or both
        if v["spec_st"] == "ok" or CLASSES[prop] & {"errkind", "accepted", "fact"}:
            keep |= crash
    return keep

def fault_filter(prop, verdicts):
    """C18 is about the difference to the run from memory."""
    if prop != "C18":
        return
    base = {id(v["batch"]): {} for v in verdicts}
    for v in verdicts:
        if not v["sub"]:
            base[id(v["batch"])][v["base"]] = v["cls"]
    for v in verdicts:
        if v["sub"]:
            if v["rec"]["id"].endswith("~x") and not v["cls"]:
                continue
            v["cls"] = v["cls"] - base[id(v["batch"])].get(v["base"], frozenset())
            if v["rec"]["id"].endswith("~x"):
                v["cls"] = v["cls"] | {"kind"}          # differs from the run in memory
        else:
            v["cls"] = v["cls"] & CRASH
