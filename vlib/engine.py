"""Runs batches through the real library and the specification."""
import json, os, re, shutil, tempfile, time
from . import tool

class Engine:
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        os.makedirs(work, exist_ok=True)
        self.exe, self.hook, self.steps = tool.build_harness()
        self.std = None
        if prop == "C23":                # the library without its std feature, next to the usual one
            self.std = self.exe
            self.exe, self.hook, self.steps = tool.build_harness(std=False)
        self.states = self.transitions = self.traces = 0
        self.outcomes = {}
        self.histories = 0

    def tlc(self, module, cfg=None, env=None, **kw):
        rc, out = tool.tlc(module, cfg, env, work=self.work, **kw)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return rc, out

    def batch(self, B, seconds=10):
        """Returns verdicts, one per recorded run."""
        if not B.cases:
            return []
        if not self.steps:
            if self.prop == "C24":
                raise tool.ToolError("the parser's inner public functions have changed; C24 is not decided")
            B.cases = [c for c in B.cases if c.split(" ")[3] not in tool.STEPS]
            if not B.cases:
                return []
        if not B.lines:
            B.lines = [EMPTY_META]
        metas, _ = tool.dump(self.exe, B.lines)
        if self.prop == "C25":
            return self.history(B, metas, seconds)
        recs = tool.run_cases(self.exe, B.lines, B.cases, seconds)
        vs = self.trace(B, metas, recs)
        if self.std and any(v["cls"] for v in vs):
            usual = {}
            for v in self.trace(B, metas, tool.run_cases(self.std, B.lines, B.cases, seconds)):
                usual[v["rec"]["id"]] = v["cls"]
            for v in vs:                 # what the usual build does as well is no matter of C23
                v["cls"] = v["cls"] - usual.get(v["rec"]["id"], frozenset())
        return vs

    def history(self, B, metas, seconds):
        """Everything in several orders in one process; what goes wrong counts
        unless it goes wrong in the same way alone."""
        self.histories += 1
        recs = tool.run_history(self.exe, B.lines, B.cases, self.histories, 6 * seconds)
        if recs is None:                  # it did not come to an end
            recs = tool.run_cases(self.exe, B.lines, B.cases, seconds)
            if all(x["r"]["st"] not in ("abort", "timeout") for x in recs):
                recs[0] = tool.crash_record(B.cases[0], "abort")
                return self.trace(B, metas, recs)
            recs = [x for x in recs if x["r"]["st"] not in ("abort", "timeout")]
        vs = self.trace(B, metas, recs)
        again = 0
        for v in vs:
            if v["cls"] and again < 60:
                again += 1
                line = B.cases[int(v["base"]) - 1]
                m = int(line.split(" ")[2])
                alone = tool.run_cases(self.exe, B.lines[m - 1:m], [" ".join(line.split(" ")[:2] + ["1"] + line.split(" ")[3:])], seconds)
                for a in self.trace(B, metas[m - 1:m], alone):
                    v["cls"] = v["cls"] - a["cls"]
            elif v["cls"]:
                v["cls"] = frozenset()
        return vs

    def trace(self, B, metas, recs, module="Trace"):
        d = tempfile.mkdtemp(prefix="trace-", dir=self.work)
        try:
            mp, cp = os.path.join(d, "metas.nd"), os.path.join(d, "cases.nd")
            tool.write_nd(mp, metas)
            tool.write_nd(cp, recs)
            rc, out = self.tlc(module, env={"METAS": mp, "CASES": cp})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        branches = {}
        for line in out.splitlines():
            if line.startswith('"V|'):
                p = line.strip().strip('"').split("|")
                branches.setdefault(int(p[1]), []).append(p)
        if rc != 0 or len(branches) != len(recs):
            raise tool.ToolError("TLC ended with %s; %d of %d cases judged\n%s" %
                                 (rc, len(branches), len(recs), out[-3000:]))
        res = []
        for i, rec in enumerate(recs, 1):
            best = None
            for p in branches[i]:
                cls = frozenset(x for x in p[2].split(",") if x)
                key = (len(cls) > 0, p[3] != "", len(cls))
                if best is None or key < best[0]:
                    best = (key, cls, p)
            _, cls, p = best
            res.append({"rec": rec, "cls": cls, "dev": p[3] if not cls else "", "spec_st": p[4],
                        "spec_e": p[5].split(":")[1] or p[7], "rec_e": rec["r"]["e"]["k"] or rec["r"]["ce"]["k"],
                        "base": rec["id"].split("~")[0], "sub": "~" in rec["id"],
                        "info": B.info.get(rec["id"].split("~")[0], {}), "batch": B})
            o = rec["entry"] + " " + (rec["flt"] + " " if rec["flt"] else "") + \
                (rec["r"]["e"]["k"] or (rec["r"]["st"] + (" call " + (rec["r"]["ce"]["k"] or rec["r"]["cst"]) if rec["r"]["cst"] else "")))
            self.outcomes[o] = self.outcomes.get(o, 0) + 1
        self.traces += len(recs)
        return res

from . import gen
EMPTY_META = gen.meta_line(gen.meta_of([{"path": [], "docs": [], "params": [], "def": "Tuple", "tys": []}]))
