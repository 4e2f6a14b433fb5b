"""Random schemas."""
from .schema import *

CTRL = [uint(8), bit(4), uint(16), intb(6), sint(8), bit(3)]


class SchemaGen:
    """feat: set of features to use; see FEATURES."""
    FEATURES = {"struct", "choice", "union", "enum", "mask", "sub", "opt", "cond", "align", "array", "packed", "fixed",
                "param", "bitd", "float", "blob", "fun", "index"}

    def __init__(self, rnd, feat=None, depth=2, nfields=(2, 6), leafs=None):
        self.r = rnd
        self.feat = self.FEATURES if feat is None else set(feat)
        self.maxdepth, self.nf = depth, nfields
        self.defs, self.cnt = {}, 0
        self.leafs = leafs

    def has(self, f, p=1.0):
        return f in self.feat and self.r.random() < p

    def name(self, base):
        self.cnt += 1
        return "%s%d" % (base, self.cnt)

    # -- types --------------------------------------------------------------------
    def intleaf(self):
        r = self.r
        m = r.random()
        if m < 0.35: return bit(r.choice([1, 2, 3, 5, 7, 9, 13, 17, 24, 31, 33, 48, 57, 63, 64, r.randint(1, 64)]))
        if m < 0.6: return intb(r.choice([1, 2, 4, 6, 8, 11, 16, 23, 32, 40, 57, 63, 64, r.randint(1, 64)]))
        return r.choice(INTS)

    def leaf(self):
        r = self.r
        if self.leafs: return r.choice(self.leafs)
        m = r.random()
        if m < 0.1: return BOOL
        if m < 0.2 and "float" in self.feat: return r.choice([F16, F32, F64])
        if m < 0.33 and "blob" in self.feat: return r.choice([STR, STR, BYTES, EXT])
        return self.intleaf()

    def enumdef(self):
        r = self.r
        n = self.name("Enum")
        t = r.choice([uint(8), uint(16), bit(5), bit(12), sint(8), intb(10), sint(32), uint(64), varu(4), bit(33), vars_(2)])
        lo, hi = int_range(t)
        items, v = [], -1
        for i in range(r.randint(2, 5)):
            if r.random() < 0.4:
                v = max(v + 1, min(hi - 6, v + r.randint(1, 9)))
                items.append(("IT%d_%s" % (i, n.upper()), v))
            else:
                v += 1
                items.append(("IT%d_%s" % (i, n.upper()), None))
        if lo < 0 and r.random() < 0.4:
            # start below zero
            items[0] = (items[0][0], -3)
            v = -3
            for k in range(1, len(items)):
                v = items[k][1] if items[k][1] is not None and items[k][1] > v else None
                if v is None:
                    items[k] = (items[k][0], None)
                from .values import item_values
                v = item_values({"k": "enum", "items": items})[k]
        self.defs[n] = enum(t, items)
        return n

    def maskdef(self):
        r = self.r
        n = self.name("Mask")
        t = r.choice([uint(8), uint(16), bit(6), bit(13), uint(32), uint(64), varu(4)])
        k = r.randint(2, 5)
        items = []
        for i in range(k):
            items.append(("FL%d_%s" % (i, n.upper()), 1 << (i + 1) if r.random() < 0.2 else None))
        from .values import item_values
        vs = item_values({"k": "mask", "items": items})
        if len(set(vs)) < len(vs): items = [(x[0], None) for x in items]
        self.defs[n] = mask(t, items)
        return n

    def subdef(self, t):
        n = self.name("Sub")
        self.defs[n] = sub(t)
        return n

    def simple(self, vis):
        """A non-compound field type."""
        if self.has("enum", 0.12): return ref(self.enumdef())
        if self.has("mask", 0.08): return ref(self.maskdef())
        if self.has("bitd", 0.1): return bitd(B("+", self.small(vis, 9), N(self.r.choice([1, 1, 3, 8, 20, 50]))), self.r.random() < 0.4)
        t = self.leaf()
        if self.has("sub", 0.15):
            t = ref(self.subdef(t))
            if self.r.random() < 0.3: t = ref(self.subdef(t))
        return t

    # -- expressions over the visible names -----------------------------------------
    # vis: list of (path, type-kind) with kind "i" (small integer, known range) or "b" or ("a", path)
    def small(self, vis, hi):
        """An integer expression with a value in 0..hi."""
        r = self.r
        ints = [v for v in vis if v[1] == "u"]
        arrs = [v for v in vis if v[1] == "a"]
        m = r.random()
        if ints and m < 0.75:
            p = r.choice(ints)[0]
            return r.choice([B("%", F(*p), N(r.randint(1, hi + 1))), B("&", F(*p), N(r.choice([1, 2, 3, 4, 7] if hi >= 7 else [1, 2, 3] if hi >= 3 else [1])))])
        if arrs and m < 0.85 and hi >= 3:
            return B("%", LEN(*r.choice(arrs)[0]), N(r.randint(1, hi + 1)))
        return N(r.randint(0, hi))

    def cond(self, vis, depth=0):
        r = self.r
        ints = [v for v in vis if v[1] in ("u", "s")]
        bools = [v for v in vis if v[1] == "b"]
        m = r.random()
        if depth < 1 and m < 0.25:
            return B(r.choice(["&&", "||"]), self.cond(vis, depth + 1), self.cond(vis, depth + 1))
        if depth < 1 and m < 0.32: return U("!", dict(o="()", a=self.cond(vis, depth + 1)))
        if bools and m < 0.5: return F(*r.choice(bools)[0], y="b")
        if ints:
            p, k = r.choice(ints)
            if k == "u" and r.random() < 0.5: return B(r.choice(["==", "!=", "<"]), B("%", F(*p), N(r.randint(2, 4))), N(r.randint(0, 2)))
            return B(r.choice(["<", "<=", ">", ">=", "==", "!="]), F(*p), N(r.randint(0, 9)))
        return N(r.random() < 0.7)

    # -- compounds ---------------------------------------------------------------------
    def field(self, n, depth, vis, packed_ok=True, always=False):
        r = self.r
        compound = depth < self.maxdepth and r.random() < 0.4 and bool(self.feat & {"struct", "choice", "union"})
        arr, packed = None, False
        if self.has("array", 0.4):
            arr = [self.small(vis, 4)] if self.has("fixed", 0.35) else []
            packed = self.has("packed", 0.5)
        if compound:
            t = self.compound_ref(depth + 1, vis, arr is not None)
        else: t = self.simple(vis)
        opt = not always and self.has("opt", 0.2)
        cond = self.cond(vis) if not always and not opt and vis and self.has("cond", 0.2) else None
        al = r.choice([8, 8, 16, 3, 2, 32, 7]) if not always and self.has("align", 0.12) else 0
        return fld(t, n, opt, cond, al, arr, packed)

    def compound_ref(self, depth, vis, isarr):
        r = self.r
        kinds = [k for k in ("struct", "choice", "union") if k in self.feat]
        k = r.choice(kinds + (["struct"] if "struct" in kinds else []))
        # reuse an earlier definition now and then
        old = [n for n, d in self.defs.items() if d["k"] == k and d.get("depth", 0) >= depth]
        if old and r.random() < 0.35: n = r.choice(old)
        else: n = {"struct": self.structdef, "choice": self.choicedef, "union": self.uniondef}[k](depth)
        args = []
        for p in self.defs[n]["p"]:
            if p["y"] == "b": args.append(self.cond(vis, 1))
            elif p["t"]["k"] == "ref":
                c = [v for v in vis if v[1] == ("e", p["t"]["n"])]
                args.append(F(*r.choice(c)[0]) if c else N(self.ev_item(p["t"]["n"])[1], "%s.%s" % (p["t"]["n"], self.ev_item(p["t"]["n"])[0])))
            elif isarr and self.has("index", 0.4): args.append(IDX)
            else: args.append(self.small(vis, 9))
        t = ref(n, *args)
        if self.has("sub", 0.12):
            # a subtype of the compound; the arguments are given where the subtype is used
            s = self.subdef(ref(n))
            t = ref(s, *args)
        return t

    def ev_item(self, n):
        from .values import item_values
        d = self.defs[n]
        return d["items"][0][0], item_values(d)[0]

    def see(self, f, vis):
        """What a field adds to the names visible to later expressions."""
        if f["c"]: return
        n = "?" * f["o"] + f["n"]
        if f["r"]:
            vis.append(((n,), "a"))
            return
        t = f["t"]
        if t["k"] == "uint" and t["w"] <= 16: vis.append(((n,), "u"))
        elif t["k"] == "int" and t["w"] <= 16: vis.append(((n,), "s"))
        elif t["k"] == "bool": vis.append(((n,), "b"))
        elif t["k"] == "ref":
            d = self.defs[t["n"]]
            # an absent item need not be one of the items
            if d["k"] == "enum" and not f["o"]: vis.append(((n,), ("e", t["n"])))
            elif d["k"] == "struct":
                for g in d["f"]:
                    if not (g["c"] or g["r"]) and g["t"]["k"] == "uint" and g["t"]["w"] <= 16:
                        vis.append(((n, "?" * g["o"] + g["n"]), "u"))

    def params(self, force=0):
        ps, vis = [], []
        if force or self.has("param", 0.4):
            for _ in range(max(force, self.r.randint(1, 2))):
                n = self.name("p")
                if self.r.random() < 0.2 and not force:
                    ps.append(par(n, BOOL, "b")); vis.append(((n,), "b"))
                else:
                    ps.append(par(n, self.r.choice([uint(8), uint(16), sint(32), uint(32), bit(4)])))
                    vis.append(((n,), "s" if ps[-1]["t"]["k"] == "int" else "u"))
        return ps, vis

    def structdef(self, depth=0):
        r = self.r
        ps, vis = self.params() if depth else ([], [])
        fl = []
        k = r.randint(*self.nf)
        if r.random() < 0.6:
            fl.append(fld(r.choice(CTRL), self.name("c")))
            self.see(fl[-1], vis)
        for _ in range(k):
            f = self.field(self.name("f"), depth, vis)
            fl.append(f)
            self.see(f, vis)
        n = self.name("Struct")
        d = struct(fl, ps)
        d["depth"] = depth
        self.defs[n] = d
        return n

    def uniondef(self, depth=0):
        ps, vis = self.params()
        fl = [self.field(self.name("f"), depth, list(vis), always=True) for _ in range(self.r.randint(1, 4))]
        n = self.name("Union")
        d = union(fl, ps)
        d["depth"] = depth
        self.defs[n] = d
        return n

    def choicedef(self, depth=0):
        r = self.r
        m = r.random()
        pn = self.name("p")
        if m < 0.25 and "enum" in self.feat:
            en = self.enumdef()
            from .values import item_values
            p = par(pn, ref(en))
            labels = [N(v, it[0]) for v, it in zip(item_values(self.defs[en]), self.defs[en]["items"])]
        elif m < 0.35:
            p = par(pn, BOOL, "b")
            labels = [N(True), N(False)]
        else:
            p = par(pn, r.choice([uint(8), sint(32), uint(16), sint(8)]))
            labels = [N(v) for v in r.sample(range(0, 9), 6)]
        ps, vis = self.params() if r.random() < 0.4 else ([], [])
        r.shuffle(labels)
        cases = []
        for _ in range(r.randint(1, 4)):
            if not labels: break
            k = r.choice([1, 1, 2, 3])
            l, labels = labels[:k], labels[k:]
            cases.append((l, self.field(self.name("f"), depth, list(vis), always=True) if r.random() < 0.85 else None))
        if not any(f for _, f in cases):
            cases[0] = (cases[0][0], self.field(self.name("f"), depth, list(vis), always=True))
        default = None
        d = choice([p] + ps, F(pn, y=p["y"]), cases)
        if labels and r.random() < 0.6 and p["y"] != "b":
            d["hasd"] = True
            if r.random() < 0.75: d["d"] = [self.field(self.name("f"), depth, list(vis), always=True)]
        d["depth"] = depth
        n = self.name("Choice")
        self.defs[n] = d
        return n

    def schema(self, note=""):
        top = self.structdef(0)
        tops = [n for n, d in self.defs.items() if d["k"] in ("struct", "choice", "union")]
        return Schema(self.defs, tops=tops, note=note)
