"""Checks of failures, reuse and concurrency: runs of the real code judged by TLC."""
from .. import core, flow, harness, values
from ..core import THOROUGH, log, Infra
from ..schema import *
from ..values import limbs
from .numbers import size_bytes
from .codec import (go, exhaustive, single_schemas, packed_leafs, fill, random_schemas, rounds, scaled, fields_of, ENC, RT, layout_schemas, packed_schemas, opt_schemas,
                    choice_schemas, union_schemas, width_schemas, WIDTHS, param_schemas, array_schemas)


def encoded(f):
    """(schema, type, value, start, bytes) of the single objects that have been marshalled."""
    for (i, objs, st, rt, info, after), o in zip(f.encs, f.eres):
        if len(objs) != 1 or "crash" in o or o["close"] != "ok" or o["res"][0]["r"] != "ok": continue
        yield i, objs[0][0], objs[0][1], st, o["b"][:(o["res"][0]["e"] + 7) // 8]


DEC = {"accepted", "refused", "panic", "length", "value", "source-other"}


# ---------------------------------------------------------------------------
# C13

def singles(c, r):
    """One value of each type, cut at every byte."""
    f = flow.Flow(single_schemas(), "c13-single")
    flow.schema_violations(c, f.batch, "c13-single")
    for i in f.alive:
        for t in f.schemas[i].tops:
            if f.schemas[i].defs[t]["k"] != "struct": continue
            for _ in range(scaled(5)):
                try: f.enc(i, [(t, values.Gen(f.schemas[i], r).top(t))], st=r.choice([0, 0, 3, 5]))
                except values.Skip: pass
    f.encode()
    g = flow.Flow(f.schemas, "c13-cut", batch=f.batch)
    for i, t, v, st, b in encoded(f):
        pars, first = f.params(i, t, v), (st + 7) // 8
        cuts = list(range(first, len(b)))
        if len(cuts) > 12: cuts = cuts[:6] + cuts[-6:]
        for n in cuts:
            g.dec(i, t, b[:n], st=st, pars=pars)
            if n % 2: g.dec(i, t, b, st=st, pars=pars, fail=n)
    # announced lengths that the input does not have
    for i in f.alive:
        for t in f.schemas[i].tops:
            if f.schemas[i].defs[t]["k"] != "struct": continue
            d = f.schemas[i].defs[t]["f"]
            if f.schemas[i].base(d[0]["t"])["k"] not in ("str", "bytes", "ext"): continue
            for n in (3, 127, 128, 65536, 65537, 70000, 8 * 65536 + 1, 8 * 70000, 1 << 21, (1 << 31) - 1):
                for k in (0, 2, 20): g.dec(i, t, size_bytes(n) + [r.getrandbits(8) for _ in range(k)])
    flow.report(c, g, g.go(c), {"dec": DEC}, "c13-single")


def c13(c):
    for k in range(rounds(8)):
        r = core.rng("c13", k)
        ss = random_schemas(r, scaled(16, 2), None, depth=2)
        ss += width_schemas()
        if k == 0: ss += layout_schemas() + packed_schemas() + union_schemas()[:2] + choice_schemas(r)[:2]
        f = flow.Flow(ss, "c13-%d" % k)
        flow.schema_violations(c, f.batch, "c13")
        fill(f, r, scaled(7, 2), multi=False, starts=[0, 0, 0, 3, 7])
        f.encode()
        g = flow.Flow(ss, "c13dec-%d" % k, batch=f.batch)
        per = 14 if THOROUGH else 7
        for i in f.alive:
            if f.schemas[i].note == "widths":
                for t in f.schemas[i].tops:
                    if f.schemas[i].defs[t].get("p"): continue
                    for n in WIDTHS:
                        head = list(n.to_bytes(4 if t == "I" else 2, "big"))
                        g.dec(i, t, head + [r.getrandbits(8) for _ in range(r.choice([0, 8, 40]))])
        for i, t, v, st, b in encoded(f):
            pars = f.params(i, t, v)
            first = (st + 7) // 8
            cuts = list(range(first, len(b)))
            if len(cuts) > per: cuts = sorted(r.sample(cuts[:-1], per - 2) + [cuts[-1]])
            for n in cuts:
                if r.random() < 0.5: g.dec(i, t, b[:n], st=st, pars=pars)
                else: g.dec(i, t, b, st=st, pars=pars, fail=n)
            g.dec(i, t, b + [r.getrandbits(8)], st=st, pars=pars, fail=len(b))
            for _ in range(per // 2):
                x = list(b)
                m = r.random()
                if len(x) * 8 <= st: continue
                if m < 0.6:
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        p = r.randint(st, 8 * len(x) - 1)
                        x[p // 8] ^= 128 >> (p % 8)
                elif m < 0.8:
                    p = r.randrange(first, len(x)) if len(x) > first else 0
                    if p: x[p] = r.choice([0, 255, 0x80, 0x7f])
                else:
                    x = x[:first] + [r.choice([0, 255, 0x80, r.getrandbits(8), r.getrandbits(8)]) for _ in range(r.randint(0, 30))]
                g.dec(i, t, x, st=st, pars=pars)
        vs = g.go(c)
        flow.report(c, g, vs, {"dec": DEC}, "c13")
        for cs, v, info in vs[:1200:400]: c.sample(flow.describe(g, cs, v, info))
    singles(c, core.rng("c13s"))
    exhaustive(c, "c13-all", {"enc": set()}, {"prim", "opt", "array", "choice", "union", "packed"}, {"dec": DEC})


# ---------------------------------------------------------------------------
# C14

def c14(c):
    for k in range(rounds(8)):
        r = core.rng("c14", k)
        ss = random_schemas(r, scaled(16, 2), None, depth=2)
        if k == 0: ss += layout_schemas() + packed_schemas() + single_schemas() + packed_leafs() + union_schemas()[:2] + choice_schemas(r)[-2:] + opt_schemas()
        f = flow.Flow(ss, "c14-%d" % k)
        flow.schema_violations(c, f.batch, "c14")
        # the lengths of the streams decide where the failures go
        p = flow.Flow(ss, "c14pre-%d" % k, batch=f.batch)
        fill(p, r, scaled(9, 2), starts=[0])
        p.encode()
        runs = 0
        for (i, objs, st, rt, info, after), o in zip(p.encs, p.eres):
            n = len(o.get("b", []))
            pts = list(range(n + 1))
            if n > 40 and not THOROUGH: pts = sorted(r.sample(pts, 32) + [0, 1, n - 1, n])
            sinks = [dict(max=x, part=r.random() < 0.5, once=q) for x in pts for q in (False, True)]
            runs += len(sinks)
            f.enc(i, objs, st=0, rt=False, sinks=sinks)
        vs = f.go(c)
        c.add("faults", runs)
        flow.report(c, f, vs, {"enc": {"panic", "sink-panic", "sink-refused", "sink-silent", "sink-other", "sink-prefix"}}, "c14")
        for cs, v, info in vs[:400:140]: c.sample(flow.describe(f, cs, v, info))


# ---------------------------------------------------------------------------
# C25

SESSION = r'''
// the fields of an object without parameters, which belong to the parents
func own(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return get(v)
		}
		r := make([]any, v.Len())
		for i := range r {
			r[i] = own(v.Index(i))
		}
		return r
	case reflect.Pointer:
		if v.Type().Elem() == tBytes || v.Type().Elem() == tExtern {
			return get(v)
		}
		if v.IsNil() {
			return []any{}
		}
		return []any{own(v.Elem())}
	case reflect.Struct:
		if v.Type() == tBytes || v.Type() == tExtern {
			return get(v)
		}
		r := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Tag.Get("json") != "" || f.Name == "UnionChoice" {
				r[f.Name] = own(v.Field(i))
			}
		}
		return r
	}
	return get(v)
}

func extra(c, out map[string]any) bool {
	if c["op"].(string) != "session" {
		return false
	}
	t := c["t"].(string)
	st := num(c, "st", 0)
	vals := c["vals"].([]any)
	type stream struct {
		b []byte
		z int
	}
	streams := []stream{}
	marshal := func(o any, max int) (string, string, []byte, int) {
		s := &sink{max: -1}
		w := zstream.NewWriter(s)
		skipOut(w, st)
		if max >= 0 {
			s.max = s.n + max
		}
		r, msg := call(func() error { return o.(zserio.Marshaler).MarshalZserio(w) })
		e := w.BitPosition()
		rc, m := call(w.Close)
		if r == "ok" {
			r, msg = rc, m
		}
		return r, msg, s.buf.Bytes(), int(e)
	}
	bs, zs := []any{}, []any{}
	for _, v := range vals {
		r, msg, b, e := marshal(make_(t, v), -1)
		if r != "ok" {
			out["unusable"] = msg
			return true
		}
		streams = append(streams, stream{b, e})
		bs = append(bs, byteList(b))
		zs = append(zs, e-st)
	}
	slots := []any{make_(t, vals[0]), make_(t, vals[1])}
	snap := func() []string {
		r := []string{}
		for _, o := range slots {
			b, err := json.Marshal(own(reflect.ValueOf(o).Elem()))
			if err != nil {
				panic("harness: " + err.Error())
			}
			r = append(r, string(b))
		}
		return r
	}
	pars := map[string]any{}
	for _, p := range c["pars"].([]any) {
		pars[p.(string)] = nil
	}
	steps := []any{}
	later := []func(){}
	was := snap()
	for _, x := range c["script"].([]any) {
		op := x.(map[string]any)
		si, j := num(op, "s", 1)-1, num(op, "j", 0)
		o := slots[si]
		q := map[string]any{"o": op["o"], "s": si + 1, "j": j, "r": "ok", "b": []any{}, "z": 0, "can": true, "msg": ""}
		switch op["o"].(string) {
		case "marshal":
			r, msg, b, _ := marshal(o, -1)
			q["r"], q["msg"], q["b"] = r, msg, byteList(b)
			if st == 0 && r == "ok" {
				// the result of zserio.Marshal is looked at when the session is over
				kept, err := zserio.Marshal(o.(zserio.Marshaler))
				if err != nil {
					q["r"], q["msg"] = "err", "zserio.Marshal: "+err.Error()
				} else {
					later = append(later, func() { q["b"] = byteList(kept) })
				}
			}
		case "size":
			q["z"] = size(o, st)
		case "failm":
			r, msg, _, _ := marshal(o, num(op, "max", 0))
			q["r"], q["msg"] = r, msg
			// whether it has to fail depends on the length of what the slot holds; see C14
			q["can"] = false
		case "unm", "funm":
			s := streams[j-1]
			b := append([]byte{}, s.b...)
			q["can"] = false
			if op["o"].(string) == "funm" {
				if first := (st + 7) / 8; len(b) > first {
					b = b[:first+num(op, "cut", 0)%%(len(b)-first)]
					q["can"] = true
				}
			}
			// the parameters of the outermost object come from its user
			for name := range pars {
				set(reflect.ValueOf(o).Elem(), map[string]any{name: vals[j-1].(map[string]any)[name]})
			}
			was = snap()
			p := zstream.NewReader(bytes.NewReader(b))
			skipIn(p, st)
			r, msg := call(func() error { return o.(zserio.Unmarshaler).UnmarshalZserio(p) })
			e, _ := p.Align(1)
			q["r"], q["msg"], q["e"] = r, msg, e
			if r == "ok" && op["o"].(string) == "unm" {
				q["g"] = get(reflect.ValueOf(o).Elem())
			}
		}
		now := snap()
		ch := []any{}
		for k := range now {
			if now[k] != was[k] {
				ch = append(ch, k+1)
			}
		}
		was = now
		q["ch"] = ch
		steps = append(steps, q)
	}
	for _, f := range later {
		f()
	}
	out["steps"], out["streams"], out["sizes"] = steps, bs, zs
	return true
}
'''.replace("%%", "%")


def scripts(c, r, nsim):
    """All histories of three operations and some long ones, from TLC."""
    a = core.tlc_ok("SessionGen", "SessionGen.cfg", name="sg", coverage=False)
    c.tlc(a)
    b = core.tlc("SessionGen", "SessionSim.cfg", name="ss", workers=1, extra=["-simulate", "num=%d" % nsim, "-depth", "16", "-seed", str(core.SEED)])
    if "Error" in b.out: raise Infra("TLC: " + b.out[-2000:])
    short, long = a.records("SCRIPT"), b.records("SCRIPT")
    if len(short) < 1000 or len(long) < nsim // 2: raise Infra("too few histories from TLC: %d, %d" % (len(short), len(long)))
    return short, r.sample(long, nsim) if len(long) > nsim else long


def c25(c):
    for k in range(rounds(8)):
        r = core.rng("c25", k)
        short, long = scripts(c, r, scaled(500, 3))
        if not THOROUGH: short = r.sample(short, 1300)
        ss = random_schemas(r, scaled(22, 2), None, depth=2) + packed_schemas()[:1] + param_schemas() + opt_schemas()[:2] + union_schemas()[:1]
        batch = harness.Batch(ss, "c25-%d" % k, extra=SESSION)
        flow.schema_violations(c, batch, "c25")
        # contents: three values of one type
        conts = []
        for i in batch.alive:
            s = ss[i]
            for _ in range(14):
                t = r.choice(s.tops)
                try:
                    g = values.Gen(s, r, maxlen=3)
                    first = g.top(t)
                    conts.append((i, t, [first] + [values.Gen(s, r, maxlen=3).top(t) for _ in range(2)]))
                except values.Skip:
                    pass
        cmds, meta = [], []
        for n, sc in enumerate(short + long):
            i, t, vals = conts[n % len(conts)]
            sc = [dict(op) for op in sc]
            for op in sc:
                if op["o"] == "failm": op["max"] = r.choice([0, 0, 1, 2, 5])
                if op["o"] == "funm": op["cut"] = r.randint(0, 40)
            cmds.append(dict(op="session", t="%s.%s" % (ss[i].pkg, t), st=r.choice([0, 0, 0, 1, 3, 7]), vals=vals, script=sc,
                             pars=[p["n"] for p in ss[i].defs[t].get("p", [])]))
            meta.append((i, t))
        res = batch.run(cmds)
        cases, at = [], []
        from .. import codec
        j = codec.Judge(ss)
        for cmd, (i, t), o in zip(cmds, meta, res):
            if "crash" in o:
                c.violation("c25:crash:%s" % (ss[i].note or ss[i].pkg), "the process dies: " + o["crash"][:300], cmd); continue
            if "unusable" in o: c.add("unusable"); continue
            cases.append(dict(i=len(cases), streams=o["streams"], sizes=o["sizes"], steps=[{x: y for x, y in q.items() if x not in ("msg", "g", "e")} for q in o["steps"]]))
            at.append((i, t, cmd, o))
            for q in o["steps"]:
                if q["o"] == "unm" and q["r"] == "ok":
                    v = cmd["vals"][q["j"] - 1]
                    j.add(i, t, "dec", cmd["st"], o["streams"][q["j"] - 1], "ok", q["e"], src={p: v[p] for p in cmd["pars"] if p in v}, g=q["g"], info=(None, "", None))
        if not cases: raise Infra("no session could be run")
        cp = core.write_ndjson(core.path("c25-%d" % k, "sessions.ndjson"), cases)
        t = core.tlc_ok("SessionTrace", "SessionTrace.cfg", env={"CASES": cp}, name="c25")
        vs = t.records("VERDICT")
        if len(vs) != len(cases): raise Infra("%d sessions, %d verdicts" % (len(cases), len(vs)))
        c.tlc(t)
        c.add("traces_validated_against_impl", len(cases))
        log("c25: %d sessions judged by TLC in %.1fs" % (len(cases), t.wall))
        for v in vs:
            i, ty, cmd, o = at[v["i"]]
            if v["w"]:
                q = o["steps"][v["k"] - 1]
                ops = " ".join("%s(%d%s)" % (x["o"], x["s"], ",%d" % x["j"] if x["j"] else "") for x in o["steps"][:v["k"]])
                c.violation("c25:%s:%s:%s" % (q["o"], "+".join(v["w"]), ss[i].note or ss[i].pkg),
                            "%s.%s: after %s: %s %s; contents %s" % (ss[i].pkg, ty, ops, ",".join(v["w"]), q["msg"][:200], codec.short(codec.pyval(cmd["vals"]), 400)),
                            dict(schema=ss[i].text(), cmd=cmd, out=o))
        for v in vs[:900:300]:
            i, ty, cmd, o = at[v["i"]]
            c.sample("%s.%s: %s" % (ss[i].pkg, ty, " ".join("%s(%d,%d)=%s" % (x["o"], x["s"], x["j"], x["r"]) for x in o["steps"])))
        # what is in an object after decoding into it
        jj = codec.Judge(ss)
        keep = r.sample(range(len(j.cases)), min(len(j.cases), scaled(1500, 3)))
        jj.cases = [dict(j.cases[x], i=n) for n, x in enumerate(keep)]
        jj.info = [(None, "", None)] * len(keep)
        f = flow.Flow.__new__(flow.Flow)
        f.schemas = ss
        flow.report(c, f, jj.run(c, "c25dec-%d" % k), {"dec": {"value", "length", "refused"}}, "c25dec")


# ---------------------------------------------------------------------------
# C24

CONC = r'''
// a stream whose every call waits for its turn
type gate struct {
	turn chan struct{} // given by the scheduler
	back chan bool     // true: waiting again; false: finished
}

func (g *gate) wait() {
	if g != nil {
		g.back <- true
		<-g.turn
	}
}

type gatedSink struct {
	sink
	g *gate
}

func (s *gatedSink) Write(p []byte) (int, error) { s.g.wait(); return s.sink.Write(p) }
func (s *gatedSink) WriteByte(c byte) error      { s.g.wait(); return s.sink.WriteByte(c) }

type gatedSource struct {
	source
	g *gate
}

func (s *gatedSource) Read(p []byte) (int, error) { s.g.wait(); return s.source.Read(p) }
func (s *gatedSource) ReadByte() (byte, error)    { s.g.wait(); return s.source.ReadByte() }

// one job; everything it needs is made beforehand
type job struct {
	m   string
	o   any
	st  int
	b   []byte
	out map[string]any
	// the result of zserio.Marshal, looked at when all jobs are done
	whole bool
	kept  []byte
}

func (j *job) finish() {
	if b := byteList(j.kept); j.whole && !reflect.DeepEqual(any(b), j.out["b"]) {
		j.out["b"], j.out["msg"] = byteList(j.kept), "zserio.Marshal"
	}
}

func (j *job) run(g *gate) {
	switch j.m {
	case "enc":
		s := &gatedSink{sink: sink{max: -1}}
		w := zstream.NewWriter(s)
		skipOut(w, j.st)
		s.g = g
		z := size(j.o, j.st)
		r, msg := call(func() error { return j.o.(zserio.Marshaler).MarshalZserio(w) })
		e := w.BitPosition()
		cr, cm := call(w.Close)
		if r == "ok" && cr != "ok" {
			r, msg = cr, cm
		}
		if g == nil && j.st == 0 && r == "ok" {
			var err error
			j.kept, err = zserio.Marshal(j.o.(zserio.Marshaler))
			j.whole = err == nil
			if err != nil {
				r, msg = "err", "zserio.Marshal: "+err.Error()
			}
		}
		j.out = map[string]any{"r": r, "msg": msg, "e": e, "z": z, "b": byteList(s.buf.Bytes())}
	case "dec":
		s := &gatedSource{source: source{b: j.b, max: -1}}
		p := zstream.NewReader(s)
		skipIn(p, j.st)
		s.g = g
		r, msg := call(func() error { return j.o.(zserio.Unmarshaler).UnmarshalZserio(p) })
		s.g = nil
		e, _ := p.Align(1)
		if g == nil && j.st == 0 && r == "ok" {
			// once more, into the same object
			r, msg = call(func() error { return zserio.Unmarshal(j.b, j.o.(zserio.Unmarshaler)) })
		}
		j.out = map[string]any{"r": r, "msg": msg, "e": e}
		if r == "ok" {
			j.out["g"] = get(reflect.ValueOf(j.o).Elem())
		}
	}
}

func jobs(c map[string]any) []*job {
	js := []*job{}
	for _, x := range c["jobs"].([]any) {
		m := x.(map[string]any)
		j := &job{m: m["m"].(string), st: num(m, "st", 0)}
		j.o = make_(m["t"].(string), m["v"])
		if b, ok := m["b"]; ok {
			j.b = unbytes(b)
		}
		js = append(js, j)
	}
	return js
}

func extra(c, out map[string]any) bool {
	switch c["op"].(string) {
	case "gated":
		js := jobs(c)
		gs := []*gate{}
		live := []bool{}
		for _, j := range js {
			g := &gate{turn: make(chan struct{}), back: make(chan bool)}
			gs = append(gs, g)
			go func(j *job) {
				g.wait()
				j.run(g)
				g.back <- false
			}(j)
			live = append(live, <-g.back)
		}
		step := func(p int) {
			if live[p] {
				gs[p].turn <- struct{}{}
				live[p] = <-gs[p].back
			}
		}
		for _, x := range c["sched"].([]any) {
			step((int(x.(float64)) - 1) %% len(js))
		}
		for p := range js {
			for live[p] {
				step(p)
			}
		}
		res := []any{}
		for _, j := range js {
			res = append(res, j.out)
		}
		out["res"] = res
	case "free":
		// the same jobs all at once, several times; only results that were not there before are reported
		res := []any{}
		seen := map[string]bool{}
		for n := 0; n < num(c, "rounds", 1); n++ {
			js := jobs(c)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, j := range js {
				wg.Add(1)
				go func(j *job) {
					defer wg.Done()
					<-start
					j.run(nil)
				}(j)
			}
			close(start)
			wg.Wait()
			for k, j := range js {
				j.finish()
				b, err := json.Marshal(j.out)
				if err != nil {
					panic("harness: " + err.Error())
				}
				key := fmt.Sprint(k, " ", string(b))
				if !seen[key] {
					seen[key] = true
					j.out["job"] = k
					res = append(res, j.out)
				}
			}
		}
		out["res"] = res
	default:
		return false
	}
	return true
}
'''.replace("%%", "%")


def schedules(c, r, n):
    a = core.tlc_ok("Interleave", "Interleave.cfg", name="il")
    c.tlc(a)
    b = core.tlc("Interleave", "InterleaveSim.cfg", workers=1, name="is", extra=["-simulate", "num=%d" % n, "-depth", "50", "-seed", str(core.SEED)])
    if "Error" in b.out: raise Infra("TLC: " + b.out[-2000:])
    short, long = a.records("SCRIPT"), b.records("SCRIPT")
    if len(short) < 2000 or len(long) < n // 2: raise Infra("too few schedules: %d, %d" % (len(short), len(long)))
    return short, long


def c24(c):
    for k in range(rounds(6)):
        r = core.rng("c24", k)
        short, long = schedules(c, r, scaled(300, 4))
        ss = random_schemas(r, scaled(10, 2), None, depth=2) + packed_schemas()[:3] + param_schemas()[:1] + union_schemas()[:1] + layout_schemas()[:2]
        batch = harness.Batch(ss, "c24-%d" % k, extra=CONC, race=True)
        flow.schema_violations(c, batch, "c24")
        # values and what they look like on the wire
        f = flow.Flow(ss, "c24", batch=batch)
        fill(f, r, scaled(12, 2), multi=False, starts=[0, 0, 3, 8], maxlen=5)
        f.encode()
        by = {}
        for i, t, v, st, b in encoded(f):
            by.setdefault((i, t), []).append((v, st, b))
        types = [x for x in by if len(by[x]) >= 2]

        def job(i, t):
            v, st, b = r.choice(by[i, t])
            if r.random() < 0.5: return dict(m="enc", t="%s.%s" % (ss[i].pkg, t), v=v, st=st), (i, t, v)
            return dict(m="dec", t="%s.%s" % (ss[i].pkg, t), v=f.params(i, t, v), st=st, b=b), (i, t, f.params(i, t, v))
        cmds, meta = [], []
        for sched in r.sample(short, scaled(300, 4)) + r.sample(long, min(len(long), scaled(300, 4))):
            i, t = r.choice(types)
            js = [job(*((i, t) if r.random() < 0.8 else r.choice(types))) for _ in range(3)]
            cmds.append(dict(op="gated", jobs=[j for j, _ in js], sched=sched)); meta.append(js)
        for i, t in types:
            for _ in range(scaled(2, 3)):
                js = [job(*((i, t) if r.random() < 0.9 else r.choice(types))) for _ in range(8)]
                cmds.append(dict(op="free", jobs=[j for j, _ in js], rounds=scaled(12, 3))); meta.append(js)
        res = batch.run(cmds, procs=4)
        from .. import codec
        j = codec.Judge(ss)
        for cmd, js, o in zip(cmds, meta, res):
            if "crash" in o:
                what = "data race" if "DATA RACE" in o["crash"] else "deadlock" if "does not return" in o["crash"] or "all goroutines are asleep" in o["crash"] else "crash"
                names = sorted({x["t"] for x, _ in js})
                c.violation("c24:%s" % what.replace(" ", "-"), "%s while several goroutines work on their own objects (%s): %s" % (what, ", ".join(names), o["crash"][:1500]),
                            dict(cmd=cmd, crash=o["crash"]))
                continue
            for n, x in enumerate(o["res"]):
                q, (i, t, src) = js[x.get("job", n)]
                if q["m"] == "enc":
                    j.add(i, t, "enc", q["st"], x["b"], x["r"], x["e"], x["z"], src=src, last=True, info=(cmd["op"], x["msg"], None))
                else:
                    j.add(i, t, "dec", q["st"], q["b"], x["r"], x["e"], src=src, g=x.get("g"), info=(cmd["op"], x["msg"], None))
        if j.cases:
            vs = j.run(c, "c24-%d" % k)
            flow.report(c, f, vs, {"enc": {"refused", "panic", "bits", "length", "padding", "size"}, "dec": {"refused", "panic", "value", "length"}}, "c24")
            for cs, v, info in vs[:900:300]: c.sample(flow.describe(f, cs, v, info))
        c.add("schedules", sum(1 for x in cmds if x["op"] == "gated"))
        c.add("free_runs", sum(x["rounds"] for x in cmds if x["op"] == "free"))
