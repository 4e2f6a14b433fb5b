"""The record-and-judge flow: objects are marshalled, decoded and their runs judged against Codec.tla."""
from collections import Counter
from . import core, harness, codec, values
from .core import log


def one(o, k=0):
    """The k-th call of a result, a crash or the missing call counting as a panic."""
    if "crash" in o:
        return dict(r="panic", e=0, z=-1, st=0, msg=o["crash"][:600])
    return o["res"][k] if k < len(o["res"]) else None


class Flow:
    """cases: enc(...) / dec(...) queue work, go() runs it and returns the verdicts."""

    def __init__(self, schemas, name="flow", batch=None, **kw):
        self.name, self.schemas = name, schemas
        self.batch = batch or harness.Batch(schemas, name, **kw)
        self.encs, self.decs, self.sinks = [], [], {}
        self.alive = [i for i in self.batch.alive]

    def ok(self, i):
        return i not in self.batch.rejected and i not in self.batch.broken

    def enc(self, i, objs, st=0, rt=True, info=None, after=False, sinks=None):
        """objs: [(type, value)] marshalled into one stream"""
        self.encs.append((i, objs, st, rt, info, after))
        if sinks: self.sinks[len(self.encs) - 1] = sinks

    def dec(self, i, t, b, st=0, pars=None, info=None, fail=None):
        self.decs.append((i, t, b, st, pars, info, fail))

    def params(self, i, t, v):
        return {p["n"]: v[p["n"]] for p in self.schemas[i].defs[t].get("p", []) if v and p["n"] in v}

    def encode(self):
        """Marshal everything queued; the outcome is kept in self.eres."""
        cmds = []
        for i, objs, st, rt, info, after in self.encs:
            c = dict(op="enc", st=st, objs=[dict(t="%s.%s" % (self.schemas[i].pkg, t), v=v) for t, v in objs])
            if after: c["after"] = 1
            if len(cmds) in self.sinks: c["sinks"] = self.sinks[len(cmds)]
            cmds.append(c)
        self.eres = self.batch.run(cmds)
        return self.eres

    def go(self, check, sizes=True):
        """[(case, verdict, info)]"""
        if self.encs and not hasattr(self, "eres"): self.encode()
        j = codec.Judge(self.schemas)
        eres = getattr(self, "eres", [])
        rts, rtcmd = [], []
        for (i, objs, st, rt, info, after), o in zip(self.encs, eres):
            if rt and "crash" not in o and o["res"] and all(x["r"] == "ok" for x in o["res"]) and o["close"] == "ok":
                rtcmd.append(dict(op="dec", st=st, b=o["b"],
                                  objs=[dict(t="%s.%s" % (self.schemas[i].pkg, t), v=self.params(i, t, v)) for t, v in objs]))
                rts.append(len(rtcmd) - 1)
            else:
                rts.append(None)
        rres = self.batch.run(rtcmd) if rtcmd else []
        for (i, objs, st, rt, info, after), o, k in zip(self.encs, eres, rts):
            n = len(o["res"]) if "crash" not in o else 1
            for q in range(n):
                x = one(o, q)
                t, v = objs[q]
                r = None
                if k is not None:
                    y = one(rres[k], q)
                    r = dict(r=y["r"], e=y["e"], g=y.get("g", {})) if y else dict(r="err", e=0, g={})
                j.add(i, t, "enc", x["st"], o.get("b", []), x["r"], x["e"], x["z"], src=v, rt=r,
                      last=q == len(objs) - 1, sk=o.get("sk", []) if q == len(objs) - 1 else [], info=(info, x["msg"], None if k is None else one(rres[k], q)))
                # zserio.Marshal and zserio.Unmarshal where they do something else
                if "top" in x:
                    y = x["top"]
                    j.add(i, t, "enc", x["st"], y["b"], y["r"], x["e"], x["z"], src=v, last=True, info=(info, y["msg"], None))
                if r and "top" in (one(rres[k], q) or {}):
                    y = one(rres[k], q)
                    z = y["top"]
                    j.add(i, t, "enc", x["st"], o["b"], x["r"], x["e"], x["z"], src=v, rt=dict(r=z["r"], e=y["e"], g=z.get("g", {})), last=True, info=(info, z["msg"], z))
        if self.decs:
            cmds = []
            for i, t, b, st, pars, info, fail in self.decs:
                c = dict(op="dec", st=st, b=b, objs=[dict(t="%s.%s" % (self.schemas[i].pkg, t), v=pars or {})])
                if fail is not None: c["fail"] = fail
                cmds.append(c)
            self.dres = self.batch.run(cmds)
            for (i, t, b, st, pars, info, fail), o in zip(self.decs, self.dres):
                x = one(o)
                j.add(i, t, "dec", st, b if fail is None else b[:fail], x["r"], x["e"], src=pars or {}, g=x.get("g"),
                      sf=[] if fail is None else [bool(x.get("src"))], info=(info, x["msg"], None))
                if "top" in x:
                    y = x["top"]
                    j.add(i, t, "dec", st, b, y["r"], x["e"], src=pars or {}, g=y.get("g"), info=(info, y["msg"], None))
        return j.run(check, self.name)


def describe(flow, c, v, info):
    """One line about a judged case."""
    s = flow.schemas[c["s"] - 1]
    d = "%s %s.%s at bit %d: %s" % ("marshal" if c["m"] == "enc" else "unmarshal", s.pkg, c["t"], c["st"], ",".join(v["w"]))
    if c["m"] == "enc":
        d += "; value " + codec.short(codec.pyval(c["src"]), 300)
    else:
        d += "; bytes " + codec.short(c["b"], 200)
    d += "; got %s end=%s expected %s end=%s" % (c["r"], c["e"], v["ph"], v["e"])
    if info and info[1]: d += "; message " + codec.short(info[1], 200)
    return d


def oom(c, v, info):
    """Running out of memory on an input that announces billions of elements that take no bits is no violation."""
    return v["ph"] == "huge" and info and info[1] and "out of memory" in str(info[1])


def report(check, flow, verdicts, kinds, sig, only=None):
    """Violations for verdicts of the given kinds; kinds maps mode -> set of kinds."""
    cnt = Counter()
    for c, v, info in verdicts:
        cnt[(c["m"], v["ph"])] += 1
        hit = [w for w in v["w"] if w in kinds.get(c["m"], ())]
        if hit and not oom(c, v, info) and (only is None or only(c, v, info)):
            s = flow.schemas[c["s"] - 1]
            check.violation("%s:%s:%s:%s" % (sig, c["m"], "+".join(hit), s.note or s.pkg), describe(flow, c, v, info),
                            dict(schema=flow.batch.worlds[c["s"] - 1].files() if hasattr(flow.batch, "worlds") else s.text(), case=c, verdict=v))
    for (m, ph), n in cnt.items():
        check.add("%s_%s" % (m, ph), n)
    return cnt


def schema_violations(check, batch, sig="schema"):
    """A schema the property covers that the generator refuses or turns into code that does not compile."""
    for i, m in list(batch.rejected.items()) + list(batch.broken.items()):
        s = batch.schemas[i]
        check.violation("%s:%s:%s" % (sig, "rejected" if i in batch.rejected else "broken", s.note or s.pkg),
                        "a valid schema is %s: %s" % ("rejected" if i in batch.rejected else "turned into code that does not compile", m[:400]),
                        dict(schema=s.text(), message=m))
