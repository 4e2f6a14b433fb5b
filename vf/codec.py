"""Recording runs of generated code and having TLC judge them against Codec.tla."""
import json, os
from . import core, harness
from .core import Infra, log


class Judge:
    """Collects cases for CodecTrace and returns TLC's verdicts."""

    def __init__(self, schemas):
        self.schemas = schemas
        self.cases, self.info = [], []

    def add(self, s, t, m, st, b, r, e, z=-1, src=None, g=None, rt=None, last=True, info=None, sk=(), sf=()):
        self.cases.append(dict(i=len(self.cases), s=s + 1, t=t, m=m, st=st, src=src if src is not None else {},
                               b=b, r=r, e=e, z=z, g=g if g is not None else {}, rt=[] if rt is None else [rt], last=last, sk=list(sk), sf=list(sf)))
        self.info.append(info)

    def run(self, check, name="trace", timeout=800):
        """[(case, verdict, info)] in the order of the cases."""
        if not self.cases:
            return []
        sp = core.write_ndjson(core.path(name, "schemas.ndjson"), [s.tla() for s in self.schemas])
        cp = core.write_ndjson(core.path(name, "cases.ndjson"), self.cases)
        r = core.tlc_ok("CodecTrace", "CodecTrace.cfg", env={"SCHEMAS": sp, "CASES": cp}, timeout=timeout, name=name)
        vs = {v["i"]: v for v in r.records("VERDICT")}
        if len(vs) != len(self.cases):
            raise Infra("%d cases, %d verdicts" % (len(self.cases), len(vs)))
        if check is not None:
            check.tlc(r)
            check.add("traces_validated_against_impl", len(self.cases))
        log("%s: %d cases judged by TLC in %.1fs (%d states)" % (name, len(self.cases), r.wall, r.distinct))
        return [(c, vs[c["i"]], i) for c, i in zip(self.cases, self.info)]


def pyval(v):
    """A readable rendering of a value."""
    if isinstance(v, list) and len(v) == 4 and all(isinstance(x, int) and x < 65536 for x in v):
        u = v[0] << 48 | v[1] << 32 | v[2] << 16 | v[3]
        return u - (1 << 64) if u >> 63 else u
    if isinstance(v, list): return [pyval(x) for x in v]
    if isinstance(v, dict): return {k: pyval(x) for k, x in v.items()}
    return v


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."
