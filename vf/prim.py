"""Tables of primitive values, marshalled and unmarshalled in bulk and judged by TLC against Wire.tla."""
from . import core, harness
from .core import Infra, log
from .codec import short
from .schema import *

EXTRA = r'''
func extra(c, out map[string]any) bool {
	t := ""
	if x, ok := c["t"]; ok {
		t = x.(string)
	}
	st := num(c, "st", 0)
	switch c["op"].(string) {
	case "prim":
		rows := []any{}
		for _, v := range c["vs"].([]any) {
			o := make_(t, map[string]any{"x": v})
			s := &sink{max: -1}
			w := zstream.NewWriter(s)
			skipOut(w, st)
			z := size(o, st)
			r, msg := call(func() error { return o.(zserio.Marshaler).MarshalZserio(w) })
			q := map[string]any{"v": v, "r": r, "msg": msg, "e": w.BitPosition(), "z": z, "rr": "", "re": 0, "g": 0}
			if r == "ok" {
				if rc, m := call(w.Close); rc != "ok" {
					q["r"], q["msg"] = rc, m
				}
			}
			q["b"] = byteList(s.buf.Bytes())
			if q["r"] == "ok" {
				p := zstream.NewReader(sourceOf(s.buf.Bytes(), st))
				skipIn(p, st)
				n := make_(t, nil)
				rr, m := call(func() error { return n.(zserio.Unmarshaler).UnmarshalZserio(p) })
				e, _ := p.Align(1)
				q["rr"], q["re"] = rr, e
				if rr == "ok" {
					q["g"] = get(reflect.ValueOf(n).Elem()).(map[string]any)["x"]
				} else {
					q["msg"] = m
				}
			}
			rows = append(rows, q)
		}
		out["rows"] = rows
	case "unprim":
		rows := []any{}
		for _, b := range c["bs"].([]any) {
			p := zstream.NewReader(sourceOf(unbytes(b), st))
			skipIn(p, st)
			n := make_(t, nil)
			r, msg := call(func() error { return n.(zserio.Unmarshaler).UnmarshalZserio(p) })
			e, _ := p.Align(1)
			q := map[string]any{"b": b, "r": r, "msg": msg, "e": e, "g": 0}
			if r == "ok" {
				q["g"] = get(reflect.ValueOf(n).Elem()).(map[string]any)["x"]
			}
			rows = append(rows, q)
		}
		out["rows"] = rows
	default:
		return false
	}
	return true
}
'''

CHUNK = 120


class Table:
    """Single-field objects of many primitive types."""

    def __init__(self, name, types):
        self.name, self.types = name, types
        d = {"T%d" % i: struct([fld(t, "x")]) for i, t in enumerate(types)}
        # a few schemas, so that one that is refused does not hide the others
        self.schemas, self.where = [], {}
        for k in range(0, len(types), 6):
            s = Schema({"T%d" % i: d["T%d" % i] for i in range(k, min(k + 6, len(types)))}, pkg="p%d" % (k // 6), note="prim-%s" % "-".join(t["zs"] for t in types[k:k + 6]))
            for i in range(k, min(k + 6, len(types))): self.where[i] = len(self.schemas)
            self.schemas.append(s)
        self.batch = harness.Batch(self.schemas, name, extra=EXTRA)
        self.cmds, self.meta = [], []

    def enc(self, i, vals, st=0):
        self._add(i, "prim", "vs", vals, st)

    def dec(self, i, bs, st=0):
        self._add(i, "unprim", "bs", bs, st)

    def _add(self, i, op, key, l, st):
        k = self.where[i]
        if k not in self.batch.alive: return
        for a in range(0, len(l), CHUNK):
            self.cmds.append({"op": op, "t": "p%d.T%d" % (k, i), "st": st, key: l[a:a + CHUNK]})
            self.meta.append((i, op))

    def run(self, check, kinds, sig, only=None):
        """kinds: {"enc": set, "dec": set} of deviations that are reported."""
        res = self.batch.run(self.cmds)
        cases, rows = [], []
        for c, (i, op), o in zip(self.cmds, self.meta, res):
            m = "enc" if op == "prim" else "dec"
            if "crash" in o:
                check.violation("%s:%s:crash:%s" % (sig, m, self.types[i]["zs"]), "the process dies: " + o["crash"][:300], c)
                continue
            t = {k: v for k, v in self.types[i].items() if k != "zs"}
            rows.append((i, m, c["st"], o["rows"]))
            cases.append(dict(i=len(cases), t=t, st=c["st"], m=m, rows=[{k: v for k, v in q.items() if k != "msg"} for q in o["rows"]]))
        cp = core.write_ndjson(core.path(self.name, "cases.ndjson"), cases)
        r = core.tlc_ok("PrimTrace", "PrimTrace.cfg", env={"CASES": cp}, name=self.name)
        vs = r.records("VERDICT")
        if len(vs) != len(cases): raise Infra("%d tables, %d verdicts" % (len(cases), len(vs)))
        n = sum(len(x[3]) for x in rows)
        log("%s: %d values judged by TLC in %.1fs" % (self.name, n, r.wall))
        check.tlc(r)
        check.add("traces_validated_against_impl", n)
        check.add("valid", sum(v["ok"] for v in vs))
        check.add("invalid", n - sum(v["ok"] for v in vs))
        for v in vs:
            i, m, st, q = rows[v["i"]]
            zs = self.types[i]["zs"]
            check.sample("%s %s at bit %d: %s" % (m, zs, st, short(q[0], 300)))
            for b in v["bad"]:
                x = q[b["k"] - 1]
                hit = [w for w in b["w"] if w in kinds.get(m, ())]
                if hit and (only is None or only(i, m, x)):
                    check.violation("%s:%s:%s:%s" % (sig, m, "+".join(hit), zs),
                                    "%s %s at bit %d: %s: %s" % ("marshal" if m == "enc" else "unmarshal", zs, st, ",".join(hit), short(x, 500)),
                                    dict(type=zs, st=st, row=x))
        return rows, vs
