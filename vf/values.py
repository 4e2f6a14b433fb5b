"""Values for schemas.  Guidance only: what a value should lead to is decided by the specification."""
import re

from .schema import storage, int_range


def limbs(i):
    u = i & ((1 << 64) - 1)
    return [u >> 48, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff]


def unlimbs(l, signed=True):
    u = l[0] << 48 | l[1] << 32 | l[2] << 16 | l[3]
    return u - (1 << 64) if signed and u >> 63 else u


class Skip(Exception):
    """This expression cannot be evaluated here; the value is not usable."""


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def numbits(n):
    return 0 if n <= 0 else 1 if n == 1 else (n - 1).bit_length()


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": tdiv,
       "%": lambda a, b: a - b * tdiv(a, b), "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
       "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "isset": lambda a, b: a & b == b}


def unescape(raw):
    """The bytes a string literal stands for."""
    def one(m):
        t = m.group(1)
        if t[0] in "ux": return chr(int(t[1:], 16))
        if t[0] == "0": return chr(int(t[1:], 8))
        return {"n": "\n", "r": "\r", "t": "\t", "f": "\f"}.get(t, t)
    return re.sub(r'\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|0[0-3]?[0-7][0-7]?|.)', one, raw).encode()


def walk(v, x):
    """The member that the path of x leads to; None if an optional one is absent."""
    for i, k in enumerate(x["p"]):
        v = v[k]
        if i + 1 in x.get("z", ()):
            if not v: return None
            v = v[0]
    return v


def ev(x, env, sch, idx=0, signed=True):
    o = x["o"]
    if o == "n": return x["v"]
    if o == "f" or o == "at":
        v = env
        if o == "f":
            v = walk(v, x)
            if v is None: return dict(i=0, u=0, b=False, s=b"")[x["y"]]
        else:
            for k in x["p"]: v = v[k]
            v = v[ev(x["i"], env, sch, idx)]
            for k in x["q"]: v = v[k]
        return unlimbs(v, x["y"] == "i") if x["y"] in ("i", "u") else v
    if o == "idx": return idx
    if o == "len":
        return len(walk(env, x) or [])
    if o in ("lit", "str"): return unescape(bytes(x["v"]).decode()) if o == "lit" else bytes(x["v"])
    if o == "cat": return ev(x["a"], env, sch, idx) + ev(x["b"], env, sch, idx)
    if o == "nb": return numbits(ev(x["a"], env, sch, idx))
    if o == "call":
        v = env
        for k in x["p"]: v = v[k]
        return ev(sch.defs[x["t"]]["fn"][x["f"]], v, sch, idx)
    if o in ("()", "vo"): return ev(x["a"], env, sch, idx)
    if o == "neg": return -ev(x["a"], env, sch, idx)
    if o == "!": return not ev(x["a"], env, sch, idx)
    if o == "mc": return ev(x["a"], env, sch, idx) ^ ((1 << x["w"]) - 1)
    if o == "~": return ~ev(x["a"], env, sch, idx)
    if o == "?": return ev(x["b"] if ev(x["a"], env, sch, idx) else x["c"], env, sch, idx)
    if o == "&&": return ev(x["a"], env, sch, idx) and ev(x["b"], env, sch, idx)
    if o == "||": return ev(x["a"], env, sch, idx) or ev(x["b"], env, sch, idx)
    return BIN[o](ev(x["a"], env, sch, idx), ev(x["b"], env, sch, idx))


F32S = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x80000001, 0x007fffff,
        0x00800000, 0x477fe000, 0x477fefff, 0x477ff000, 0x33800000, 0x33000000, 0x33000001, 0x387fc000, 0x38800000,
        0x3f802000, 0x3f801000, 0x3f803000, 0x387fe000, 0x387fffff, 0x7f7fffff, 0xc77fe000, 0x34000000, 0x33c00000]
F64S = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x000fffffffffffff,
        0x7fefffffffffffff, 0x0010000000000000]


class Gen:
    def __init__(self, sch, rnd, bad=0.0, maxlen=4, biglen=0.0, wild=0.5, nan=True):
        self.s, self.r = sch, rnd
        self.bad, self.maxlen, self.biglen, self.wild, self.nan = bad, maxlen, biglen, wild, nan
        self.badcount = 0
        self.left = 600     # elements a value may still get
        self.depth = 0

    # -- leaves ---------------------------------------------------------------
    def integer(self, t, w=None):
        if w is not None and not 0 <= w <= 64: raise Skip()
        lo, hi = int_range(t, w)
        bits, sg = storage(t)
        slo, shi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        r = self.r
        if self.bad and r.random() < self.bad and (slo < lo or shi > hi):
            self.badcount += 1
            c = [x for x in (lo - 1, hi + 1, slo, shi, hi + 1 + (1 << (max(hi.bit_length(), 1))), lo * 2 - 1,
                             r.randint(slo, shi), hi + r.randint(1, 300), lo - r.randint(1, 300)) if slo <= x <= shi and not lo <= x <= hi]
            if c: return r.choice(c)
        m = r.random()
        if m < 0.25: v = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1])
        elif m < 0.25 + 0.75 * self.wild:
            k = r.randint(0, max(1, hi.bit_length()))
            v = r.choice([1, -1]) * ((1 << k) + r.choice([-1, 0, 0, 1, r.randint(-5, 5)]) if r.random() < 0.6 else r.getrandbits(max(1, k)))
        else: v = r.randint(-3, 12)
        if not lo <= v <= hi: v = -v
        if not lo <= v <= hi: v = r.choice([lo, hi, max(lo, min(hi, r.randint(0, 9)))])
        return v

    def leaf(self, t, w=None):
        r, k = self.r, t["k"]
        if k in ("uint", "int", "varu", "vars", "size", "bitd"): return limbs(self.integer(t, w))
        if k == "bool": return r.random() < 0.5
        if k in ("f16", "f32"):
            v = r.choice(F32S) if r.random() < 0.6 else r.getrandbits(32)
            if k == "f16" and r.random() < 0.5:
                # around the half-precision grid
                e, m = r.randint(-26, 17), r.getrandbits(10) << 13 | r.choice([0, 0x1000, 0xfff, 0x1001, 0x1fff, r.getrandbits(13)])
                v = r.getrandbits(1) << 31 | (e + 127) << 23 | m
            if not self.nan and (v >> 23) & 255 == 255 and v & 0x7fffff: v = 0x3f800000
            return limbs(v)
        if k == "f64":
            v = r.choice(F64S) if r.random() < 0.6 else r.getrandbits(64)
            return limbs(v)
        n = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < 0.9 else r.choice([127, 128, 129, 16, 40])
        if k == "str":
            if r.random() < 0.6:
                b = "".join(r.choice("abcXYZ 019_äß€\U0001f600") for _ in range(n)).encode()
            else:
                b = bytes(r.getrandbits(8) for _ in range(n))
            return list(b)
        if k == "bytes":
            d = {"b": [r.getrandbits(8) for _ in range(n)], "n": n}
            if self.bad and r.random() < self.bad:
                d["n"] = max(0, n + r.choice([-1, 1, 2])); self.badcount += 1
            return d
        if k == "ext":
            bits = max(0, 8 * n - r.choice([0, 0, 1, 3, 7, 5, 9, 17]))
            d = {"b": [r.getrandbits(8) for _ in range(n)], "n": bits}
            if self.bad and r.random() < self.bad:
                d["n"] = 8 * n + r.choice([1, 7, 8, 9]); self.badcount += 1
            return d
        raise KeyError(k)

    # -- compounds --------------------------------------------------------------
    def value(self, t, env, idx=0):
        b = self.s.base(t)
        if b["k"] == "ref":
            d = self.s.defs[b["n"]]
            pars = {}
            for p, a in zip(d.get("p", []), b["a"]):
                v = ev(a, env, self.s, idx)
                pars[p["n"]] = limbs(v) if p["y"] in ("i", "u") else v
            return self.compound(b["n"], pars)
        if b["k"] == "bitd":
            return self.leaf(b, ev(b["e"], env, self.s))
        if t["k"] == "ref" and self.s.defs[t["n"]]["k"] in ("enum", "mask") and self.r.random() < 0.85 and not self.bad:
            return limbs(self.enumval(t))
        return self.leaf(b)

    def enumval(self, t):
        d = self.s.defs[t["n"]]
        vals = item_values(d)
        if d["k"] == "mask":
            v = 0
            for x in vals:
                if self.r.random() < 0.5: v |= x
            return v
        return self.r.choice(vals)

    def stale(self, p):
        """Parameter fields of nested objects hold whatever was there before."""
        if p["y"] == "b": return self.r.random() < 0.5
        if p["y"] in ("i", "u"): return limbs(self.r.randint(0, 7))
        return None

    def compound(self, n, pars, top=False):
        d = self.s.defs[n]
        env = dict(pars)
        out = {}
        for p in d.get("p", []):
            v = pars[p["n"]] if top else self.stale(p)
            if v is not None: out[p["n"]] = v
        if d["k"] == "struct": fl = d["f"]
        elif d["k"] == "union":
            i = self.r.randint(1, len(d["f"]))
            if self.bad and self.r.random() < self.bad:
                i = self.r.choice([0, len(d["f"]) + 1, 200]); self.badcount += 1
            out["UnionChoice"] = env["UnionChoice"] = limbs(i)
            fl = [d["f"][i - 1]] if 1 <= i <= len(d["f"]) else []
        else:
            s = ev(d["sel"], env, self.s)
            fl = d["d"]
            for c in d["c"]:
                if any(ev(l, env, self.s) == s for l in c["l"]):
                    fl = c["f"]
                    break
        self.depth += 1
        self.fields(fl, env, out)
        self.depth -= 1
        return out

    def fields(self, fl, env, out):
        r = self.r
        for f in fl:
            if f["c"] and not ev(f["c"][0], env, self.s):
                # not on the wire: sometimes filled with something all the same
                if r.random() < 0.3 and not f["r"] and self.s.base(f["t"])["k"] != "ref" and not f["o"] and self.s.base(f["t"])["k"] != "bitd":
                    out[f["n"]] = self.leaf(self.s.base(f["t"]))
                continue
            if f["o"] and (r.random() < 0.4 or self.depth > 7):
                out[f["n"]] = env[f["n"]] = []
                continue
            v = self.array(f, env) if f["r"] else self.value(f["t"], env)
            out[f["n"]] = env[f["n"]] = [v] if f["o"] else v

    def array(self, f, env):
        r, a = self.r, f["r"][0]
        b = self.s.base(f["t"])
        if a["l"]:
            n = ev(a["l"][0], env, self.s)
            if n > 400 or n < 0: raise Skip()
            if self.bad and r.random() < self.bad / 2:
                n = max(0, n + r.choice([-1, 1, 2])); self.badcount += 1
        elif r.random() < self.biglen: n = r.choice([127, 128, 129, 150])
        else: n = r.randint(0, self.maxlen) if r.random() < 0.8 else r.randint(0, 3 * self.maxlen)
        if not a["l"]: n = max(0, min(n, self.left))
        self.left -= n
        if self.left < -400: raise Skip()
        if b["k"] in ("uint", "int", "varu", "vars", "size", "bitd") and n > 1 and r.random() < 0.75:
            w = ev(b["e"], env, self.s) if b["k"] == "bitd" else None
            if f["t"]["k"] == "ref" and self.s.defs[f["t"]["n"]]["k"] in ("enum", "mask"):
                pool = [self.enumval(f["t"]) for _ in range(2)]
                return [limbs(r.choice(pool)) for _ in range(n)]
            lo, hi = int_range(b, w)
            mode = r.random()
            cur = self.integer(b, w)
            if mode < 0.2: seq = [cur] * n
            elif mode < 0.75:
                step = 1 << r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 40, 60, 61, 62, 63])
                seq = []
                for _ in range(n):
                    seq.append(cur)
                    cur = cur + r.choice([0, step, -step, step - 1, 1 - step, r.randint(-step, step)])
                    if not lo <= cur <= hi: cur = max(lo, min(hi, cur))
            elif mode < 0.9: seq = [r.choice([lo, hi, 0 if lo <= 0 <= hi else lo]) for _ in range(n)]
            else: seq = [self.integer(b, w) for _ in range(n)]
            seq = [max(lo, min(hi, x)) for x in seq]
            if self.bad and r.random() < self.bad:
                seq[r.randrange(n)] = self.integer(b, w)
            return [limbs(x) for x in seq]
        out = []
        for i in range(n):
            out.append(self.value(f["t"], env, i))
        return out

    def top(self, n, pars=None):
        d = self.s.defs[n]
        self.left, self.depth = 600, 0
        pars = dict(pars or {})
        for p in d.get("p", []):
            if p["n"] not in pars:
                bt = self.s.base(p["t"])
                if p["y"] == "b": pars[p["n"]] = self.r.random() < 0.5
                elif p["y"] in ("i", "u"):
                    if p["t"]["k"] == "ref" and self.s.defs[p["t"]["n"]]["k"] in ("enum", "mask"): pars[p["n"]] = limbs(self.enumval(p["t"]))
                    else:
                        lo, hi = int_range(bt)
                        pars[p["n"]] = limbs(max(lo, min(hi, self.r.randint(-2, 9) if self.r.random() < 0.9 else self.r.randint(0, 300))))
                else: pars[p["n"]] = self.value(p["t"], {})
        return self.compound(n, pars, top=True)


def item_values(d):
    res, nxt = [], (0 if d["k"] == "enum" else 1)
    for it in d["items"]:
        v = it[1] if len(it) > 1 and it[1] is not None else nxt
        res.append(v)
        nxt = v + 1 if d["k"] == "enum" else 1 << v.bit_length()
    return res
