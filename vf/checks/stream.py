"""Checks of the bit stream: behaviours of BitStream.tla replayed with the real writer and reader."""
from .. import core, flow, harness, values
from ..core import THOROUGH, log, Infra
from ..codec import short
from ..schema import *
from ..values import limbs
from .codec import go, fill, random_schemas, rounds, scaled, fields_of, ENC, RT

STREAM = r'''
func opStep(c map[string]any) map[string]any {
	return map[string]any{"op": c, "r": "ok", "p": 0, "v": limbs(0), "b": []any{}, "msg": ""}
}

func extra(c, out map[string]any) bool {
	switch c["op"].(string) {
	case "write":
		s := &sink{max: -1}
		w := zstream.NewWriter(s)
		ops := []any{}
		for _, x := range c["script"].([]any) {
			m := x.(map[string]any)
			q := opStep(m)
			pos := int64(-1)
			r, msg := call(func() (err error) {
				switch m["o"].(string) {
				case "bits":
					return w.WriteBits(unlimb(m["v"]), uint8(num(m, "n", 0)))
				case "raw":
					return w.WriteBitsUnsafe(unlimb(m["v"]), uint8(num(m, "n", 0)))
				case "bool":
					return w.WriteBool(unlimb(m["v"])&1 == 1)
				case "byte":
					return w.WriteByte(byte(unlimb(m["v"])))
				case "slice":
					b := unbytes(m["b"])
					n, err := w.Write(b)
					if err == nil && n != len(b) {
						return errors.New("short write")
					}
					return err
				case "align":
					pos, err = w.Align(uint8(num(m, "n", 1)))
					return err
				}
				panic("harness: op")
			})
			q["r"], q["msg"], q["p"] = r, msg, w.BitPosition()
			if r == "ok" && pos >= 0 && pos != w.BitPosition() {
				q["p"] = pos
			}
			ops = append(ops, q)
			if r != "ok" {
				break
			}
		}
		out["c"], _ = call(w.Close)
		out["ops"], out["fin"] = ops, byteList(s.buf.Bytes())
	case "read":
		r := zstream.NewReader(bytes.NewReader(unbytes(c["b"])))
		ops := []any{}
		for _, x := range c["script"].([]any) {
			m := x.(map[string]any)
			q := opStep(m)
			pos := int64(-1)
			res, msg := call(func() (err error) {
				switch m["o"].(string) {
				case "bits", "raw":
					v, err := r.ReadBits(uint8(num(m, "n", 0)))
					q["v"] = limbs(v)
					return err
				case "bool":
					v, err := r.ReadBool()
					if v {
						q["v"] = limbs(1)
					}
					return err
				case "byte":
					v, err := r.ReadByte()
					q["v"] = limbs(uint64(v))
					return err
				case "slice":
					b := make([]byte, len(m["b"].([]any)))
					n, err := r.Read(b)
					if err == nil && n != len(b) {
						return errors.New("short read")
					}
					if n == len(b) && n == 0 {
						err = nil // nothing was wanted
					}
					q["b"] = byteList(b)
					return err
				case "align":
					pos, err = r.Align(uint8(num(m, "n", 1)))
					return err
				}
				panic("harness: op")
			})
			q["r"], q["msg"] = res, msg
			if res == "ok" {
				p, err := r.Align(1)
				if err != nil {
					q["r"] = "err"
				}
				q["p"] = p
				if pos >= 0 && pos != p {
					q["p"] = pos
				}
			}
			ops = append(ops, q)
			if res != "ok" {
				break
			}
		}
		out["c"], out["ops"], out["fin"] = "ok", ops, c["b"]
	case "align":
		ops := []any{}
		for _, x := range c["rows"].([]any) {
			a := x.([]any)
			n, k := int(a[0].(float64)), int(a[1].(float64))
			s := &sink{max: -1}
			w := zstream.NewWriter(s)
			p, rp := int64(0), int64(0)
			r, msg := call(func() (err error) {
				for i := 0; i < k; i += 64 {
					m := k - i
					if m > 64 {
						m = 64
					}
					if err := w.WriteBits(math.MaxUint64, uint8(m)); err != nil {
						return err
					}
				}
				if p, err = w.Align(uint8(n)); err != nil {
					return err
				}
				if p != w.BitPosition() {
					p = -1
				}
				if err := w.WriteBool(true); err != nil {
					return err
				}
				if err := w.Close(); err != nil {
					return err
				}
				rd := zstream.NewReader(bytes.NewReader(s.buf.Bytes()))
				for i := 0; i < k; i += 64 {
					m := k - i
					if m > 64 {
						m = 64
					}
					if _, err := rd.ReadBits(uint8(m)); err != nil {
						return err
					}
				}
				if rp, err = rd.Align(uint8(n)); err != nil {
					return err
				}
				b, err := rd.ReadBool()
				if err == nil && !b {
					rp = -1
				}
				return err
			})
			ops = append(ops, map[string]any{"n": n, "k": k, "r": r, "msg": msg, "p": p, "rp": rp, "fin": byteList(s.buf.Bytes())})
		}
		out["c"], out["ops"], out["fin"] = "ok", ops, []any{}
	default:
		return false
	}
	return true
}
'''


def judge(c, cases, name):
    """TLC's verdicts on recorded stream runs; [(case, step, what)] of those that are wrong"""
    def strip(q): return {k: v for k, v in q.items() if k != "msg"}
    cp = core.write_ndjson(core.path(name, "stream.ndjson"), [dict(i=i, m=m, ops=[strip(q) for q in o["ops"]], fin=o["fin"], c=o["c"]) for i, (m, o) in enumerate(cases)])
    t = core.tlc_ok("BitStreamTrace", "BitStreamTrace.cfg", env={"CASES": cp}, name=name)
    vs = t.records("VERDICT")
    if len(vs) != len(cases): raise Infra("%d runs, %d verdicts" % (len(cases), len(vs)))
    c.tlc(t)
    c.add("traces_validated_against_impl", len(cases))
    log("%s: %d runs judged by TLC in %.1fs (%d states)" % (name, len(cases), t.wall, t.distinct))
    return [(v["i"], v["k"], v["w"]) for v in vs if v["w"]]


def align_schemas(r):
    out = []
    ns = [1, 2, 3, 5, 7, 8, 9, 16, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255] + [r.randint(1, 255) for _ in range(6)]
    for k in range(0, len(ns), 7):
        d = {"In": struct([fld(bit(3), "p"), fld(uint(8), "q", al=r.choice(ns))])}
        for j, n in enumerate(ns[k:k + 7]):
            d["T%d" % j] = struct([fld(bit(r.randint(1, 7)), "a"), fld(bit(5), "x", al=n), fld(STR, "o", opt=True, al=r.choice(ns)), fld(uint(16), "arr", arr=[], al=n),
                                   fld(BOOL, "b"), fld(vars_(9), "c", cond=F("b", y="b"), al=n), fld(ref("In"), "i", al=r.choice(ns)), fld(ref("In"), "is", arr=[], packed=j % 2 == 0), fld(bit(1), "z", al=r.choice(ns))])
        out.append(Schema(d, note="align-%s" % "-".join(map(str, ns[k:k + 7]))))
    return out


def c07(c):
    r = core.rng("c07")
    ss = align_schemas(r)
    batch = harness.Batch(ss, "c07", extra=STREAM)
    # scripts from the specification
    g = core.tlc("BitStreamGen", "BitStreamGen.cfg", workers=1, name="bg", extra=["-simulate", "num=%d" % scaled(900, 10), "-depth", "14", "-seed", str(core.SEED)])
    if "Error" in g.out: raise Infra("TLC: " + g.out[-2000:])
    sc = g.records("SCRIPT")
    if len(sc) < 200: raise Infra("too few scripts from TLC: %d" % len(sc))
    sc = sc[:scaled(1000, 10)]
    c.tlc(g)
    log("c07: %d scripts from TLC in %.1fs" % (len(sc), g.wall))
    w = batch.run([dict(op="write", script=s) for s in sc])
    # the reader: the same operations on what was written, other operations on other bytes
    rd, meta = [], []
    for k, (s, o) in enumerate(zip(sc, w)):
        if "crash" in o: continue
        rd.append(dict(op="read", script=s, b=o["fin"]))
        other = sc[(k * 7 + 3) % len(sc)]
        rd.append(dict(op="read", script=other, b=o["fin"]))
    ro = batch.run(rd)
    rows = []
    for n in range(1, 256):
        ks = range(0, n + 3) if THOROUGH else sorted({0, 1, 2, n - 1, n, n + 1, r.randint(0, n), r.randint(0, n), r.randint(0, 300), r.randint(0, 700)})
        rows += [[n, k] for k in ks]
    al = batch.run([dict(op="align", rows=rows[k:k + 60]) for k in range(0, len(rows), 60)])
    c.add("align_pairs", len(rows))
    cases = []
    for m, l in (("w", w), ("r", ro), ("a", al)):
        for o in l:
            if "crash" in o: c.violation("stream:crash:" + m, "the process dies: " + o["crash"][:300], o)
            else: cases.append((m, o))
    for i, k, what in judge(c, cases, "c07"):
        m, o = cases[i]
        q = o["ops"][k - 1]
        c.violation("stream:%s:%s:%s" % (m, "+".join(what), q.get("op", {}).get("o", "align")),
                    "%s: step %d: %s: %s" % ({"w": "writer", "r": "reader", "a": "align"}[m], k, ",".join(what), short(q, 400)), o)
    c.sample(short(cases[0][1], 300))
    # fields that are declared with align
    f, vs, _ = go(c, "c07s", ss, [lambda f: fill(f, r, scaled(60), starts=[0, 0, 1, 3, 7, 8, 13, 31, 40, 100, 255])], {"enc": {"bits", "length", "padding", "refused", "panic", "rt-refused", "rt-length", "rt-value"}}, batch=batch)
