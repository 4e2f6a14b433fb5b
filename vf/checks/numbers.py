"""Checks of numbers and other primitive values: variable-length integers, delta packing, floats and blobs."""

import struct as pystruct
from .. import core, flow, harness, values
from ..core import THOROUGH, log, Infra
from ..codec import short
from ..schema import *
from ..values import limbs
from .codec import go, fill, mutants, random_schemas, rounds, scaled, fields_of, ENC, RT
from ..prim import Table

ALLENC = {"accepted", "refused", "panic", "bits", "length", "padding", "size", "rt-refused", "rt-length", "rt-value"}
ALLDEC = {"accepted", "refused", "panic", "length", "value"}
VARINTS = [varu(n) for n in (2, 4, 8, 9)] + [vars_(n) for n in (2, 4, 8, 9)] + [SIZE]


# ---------------------------------------------------------------------------
# C03

def boundary_ints(t, r, extra):
    """Values around every power of two and every length change of the format that its Go type can hold."""
    bits, sg = storage(t)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    vs = set()
    for k in range(bits + 1):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                vs.add(s * ((1 << k) + d))
    for v in range(-130, 131): vs.add(v)
    rl, rh = int_range(t)
    for d in (-2, -1, 0, 1, 2): vs |= {rl + d, rh + d}
    for _ in range(extra):
        vs.add(r.choice([1, -1]) * r.getrandbits(r.randint(1, bits)))
    return [limbs(v) for v in sorted(vs) if lo <= v <= hi]


def var_inputs(t, r, extra):
    """Byte sequences: every first byte, every continuation pattern, overlong and over-range forms, truncated ones."""
    n = {"varu": t.get("n"), "vars": t.get("n"), "size": 5}[t["k"]]
    out = []
    for b0 in range(256):
        out.append([b0] + [r.getrandbits(8) for _ in range(n + 1)])
        out.append([b0] + [r.choice([0, 0x7f, 0x80, 0xff]) for _ in range(n + 1)])
    for k in range(n + 1):
        for body in (0x80, 0xff, 0x81):
            for last in (0, 1, 0x7f, 0x80, 0xff, 0x08, 0x10):
                full = [body] * k + [last]
                out.append(full + [0x55])
                out.append(full)
                out.append([0xc0 | (body & 0x3f)] + full[1:] + [0x33])
                out.append([0x40 | (body & 0x3f)] + full[1:])
                out.append([body] * k)
    for _ in range(extra):
        out.append([r.getrandbits(8) | (0x80 if r.random() < 0.7 else 0) for _ in range(r.randint(0, n + 2))])
    return out


def at(bs, st, r):
    """The input shifted to a start offset."""
    out = []
    for b in bs:
        bits = "".join("%d" % r.getrandbits(1) for _ in range(st)) + "".join("{:08b}".format(x) for x in b)
        bits += "0" * (-len(bits) % 8)
        out.append([int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)])
    return out


def c03(c):
    r = core.rng("c03")
    t = Table("c03", VARINTS)
    for i, ty in enumerate(VARINTS):
        t.enc(i, boundary_ints(ty, r, scaled(150, 20)), 0)
        t.enc(i, boundary_ints(ty, r, 50)[::1 if THOROUGH else 3], r.choice([1, 3, 5, 7]))
        b = var_inputs(ty, r, scaled(150, 20))
        t.dec(i, b, 0)
        t.dec(i, at(b[::1 if THOROUGH else 4], 3, r), 3)
    t.run(c, {"enc": ALLENC, "dec": ALLDEC}, "varint")
    # and where they are used: arrays, packed arrays, optional fields
    for k in range(rounds(6)):
        r = core.rng("c03b", k)
        d = {}
        for j, ty in enumerate(VARINTS):
            d["T%d" % j] = struct([fld(bit(r.randint(1, 7)), "a"), fld(ty, "x"), fld(ty, "o", opt=True), fld(ty, "arr", arr=[]), fld(ty, "pk", arr=[], packed=True), fld(bit(2), "z")])
        go(c, "c03b-%d" % k, [Schema(d, note="varint-struct")], [lambda f: fill(f, r, 120, bad=0.12, badshare=0.4, multi=False)],
           {"enc": ENC})


c03.level = "model_checking"


# ---------------------------------------------------------------------------
# C26

def half_around(r):
    """float32 patterns around the half-precision grid: exact points, ties and their neighbours."""
    out = []
    for s in (0, 1):
        for h in list(range(0, 0x7c01, 1 if THOROUGH else 61)) + [0, 1, 2, 3, 0x3fe, 0x3ff, 0x400, 0x401, 0x402, 0x7bfe, 0x7bff, 0x7c00, 0x3c00, 0x3bff]:
            # the value of the half pattern and the midpoint to the next one, as float32
            a = half_value(h)
            b = half_value(h + 1) if h < 0x7bff else a + 32
            m = (a + b) / 2
            for v in (a, m):
                p = pystruct.unpack(">I", pystruct.pack(">f", v))[0]
                for d in (-1, 0, 1):
                    q = p + d
                    if 0 <= q <= 0x7f800000: out.append(s << 31 | q)
    return out


def half_value(h):
    e, m = h >> 10, h & 1023
    return m * 2.0 ** -24 if e == 0 else (1024 + m) * 2.0 ** (e - 25) if e < 31 else 65536.0


def size_bytes(n):
    """A varsize."""
    g = next(k for k in range(1, 6) if n < 1 << 7 * k or k == 5)
    if g < 5: return [(0x80 if k else 0) | n >> 7 * k & 127 for k in reversed(range(g))]
    return [0x80 | n >> 29, 0x80 | n >> 22 & 127, 0x80 | n >> 15 & 127, 0x80 | n >> 8 & 127, n & 255]


def c26(c):
    r = core.rng("c26")
    types = [F16, F32, F64, STR, BYTES, EXT, BOOL]
    t = Table("c26", types)
    hs = half_around(r)
    t.enc(0, [limbs(v) for v in hs])
    t.enc(0, [limbs(v) for v in values.F32S + [r.getrandbits(32) for _ in range(scaled(400, 20))]], 3)
    pats = range(0, 65536) if THOROUGH else sorted(set(list(range(0, 65536, 13)) + [s | h for s in (0, 0x8000) for b in range(0, 0x7c01, 0x400) for h in range(max(0, b - 3), b + 4)] + list(range(0, 40)) + list(range(0x7c00, 0x7c20))))
    t.dec(0, [[p >> 8, p & 255] for p in pats])
    t.dec(0, at([[p >> 8, p & 255] for p in list(pats)[::9]], 5, r), 5)
    f32 = values.F32S + [0x7fa00000, 0xffa00001, 0x7f800001, 0xffc12345] + [r.getrandbits(32) for _ in range(scaled(200, 20))]
    f64 = values.F64S + [0x7ff0000000000001, 0x7ff4000000000000, 0xfff8000000000123] + [r.getrandbits(64) for _ in range(scaled(200, 20))]
    for st in (0, 1, 6):
        t.enc(1, [limbs(v) for v in f32], st)
        t.enc(2, [limbs(v) for v in f64], st)
    t.dec(1, [list(pystruct.pack(">I", v)) for v in f32])
    t.dec(2, [list(pystruct.pack(">Q", v)) for v in f64])
    g = values.Gen(Schema({"T": struct([])}), r, bad=0.0)
    lens = [0, 1, 2, 3, 7, 8, 9, 15, 31, 63, 64, 65, 126, 127, 128, 129, 200] + ([255, 256, 4095, 4096, 16383, 16384, 16385] if THOROUGH else [])
    for st in (0, 3):
        for n in (16384, 65536, 65537, 70001):
            x = [r.getrandbits(8) for _ in range(n)]
            t.enc(3, [x], st)
            t.enc(4, [{"b": x, "n": n}], st)
            t.enc(5, [{"b": x, "n": 8 * n - 3}], st)
    for st in range(8):
        ls = lens if st in (0, 3) or THOROUGH else lens[:9]
        rb = lambda n: [r.getrandbits(8) for _ in range(n)]
        t.enc(3, [rb(n) for n in ls] + [list(("\u20acäx\U0001f600\0" * n).encode()) for n in (1, 3)], st)
        t.enc(4, [{"b": rb(n), "n": n} for n in ls] + [{"b": rb(n), "n": max(0, n + d)} for n in (0, 1, 5) for d in (1, -1) if n + d >= 0], st)
        t.enc(5, [{"b": rb((n + 7) // 8 + x), "n": n} for n in list(range(0, 34)) + ls for x in (0, 1)] + [{"b": rb(n), "n": 8 * n + k} for n in (0, 1, 3) for k in (1, 7, 8)], st)
        t.enc(6, [True, False], st)
    # damaged headers and contents
    bl = []
    for n in (0, 1, 2, 5, 127, 128, 300):
        hd = [n] if n < 128 else [0x80 | n >> 7, n & 127]
        for k in (0, 1, n - 1, n, n + 1):
            if k >= 0: bl.append(hd + [r.getrandbits(8) for _ in range(k)])
    for n in (65535, 65536, 65537, 70000, 8 * 65536, 8 * 65536 + 1, 8 * 70000 - 3, 1 << 21, (1 << 28) + 5, (1 << 31) - 1):
        for k in (0, 1, 30): bl.append(size_bytes(n) + [r.getrandbits(8) for _ in range(k)])
    bl += [[0xff] * k for k in range(7)] + [[0x80] * k + [0] for k in range(6)] + [[0x87, 0xff, 0xff, 0xff, 0xff, 1, 2], [0x88, 0x80, 0x80, 0x80, 0x00, 1]]
    for i in (3, 4, 5):
        t.dec(i, bl)
        t.dec(i, at(bl, 5, r), 5)
    t.run(c, {"enc": ALLENC, "dec": ALLDEC}, "prim", only=lambda i, m, q: True)
    for k in range(rounds(6)):
        r2 = core.rng("c26b", k)
        ss = random_schemas(r2, scaled(10, 2), {"struct", "opt", "cond", "array", "align", "float", "blob", "bitd", "sub", "union"},
                            lambda s: sum(1 for f in fields_of(s) if s.base(f["t"])["k"] in ("f16", "f32", "f64", "str", "bytes", "ext")) >= 4,
                            leafs=[F16, F32, F64, STR, BYTES, EXT, BOOL, bit(3)])
        go(c, "c26b-%d" % k, ss, [lambda f: fill(f, r2, scaled(30))], {"enc": ENC})


# ---------------------------------------------------------------------------
# C05

PACKABLE = INTS + [bit(w) for w in (1, 2, 3, 7, 9, 15, 17, 24, 31, 33, 47, 62, 63, 64)] + [intb(w) for w in (1, 2, 5, 8, 9, 17, 31, 33, 62, 63, 64)]
PLAIN = [BOOL, F16, F32, F64, STR, BYTES, EXT]


def delta_seq(r, lo, hi, m, n):
    """n values in lo..hi whose largest difference takes exactly m bits, if that is possible."""
    if n == 0: return []
    span = hi - lo
    if m == 0: return [r.choice([lo, hi, r.randint(lo, hi)])] * n
    big = r.choice([1 << (m - 1), (1 << m) - 1, r.randint(1 << (m - 1), (1 << m) - 1)])
    if big > span: return None
    k = r.randrange(max(1, n - 1))          # where the large step is
    up = r.random() < 0.5
    a = r.choice([lo, hi - big, r.randint(lo, hi - big)])
    pair = (a, a + big) if up else (a + big, a)
    seq = [None] * n
    seq[k] = pair[0]
    if k + 1 < n: seq[k + 1] = pair[1]
    for i in range(k - 1, -1, -1):
        seq[i] = near(r, seq[i + 1], lo, hi, big)
    for i in range(k + 2, n):
        seq[i] = near(r, seq[i - 1], lo, hi, big)
    return seq


def near(r, v, lo, hi, big):
    d = r.choice([0, 1, -1, big, -big, r.randint(-big, big), r.randint(-big, big)])
    return v + d if lo <= v + d <= hi else v - d if lo <= v - d <= hi else v


def packed_cases(r, t, dense):
    """Value sequences around every decision of the packing, for one element type."""
    lo, hi = int_range(t)
    w = t.get("w") or {2: 16, 4: 32, 8: 64, 9: 72}.get(t.get("n"), 40)
    ms = sorted({0, 1, 2, 3, 4, 7, 8, w // 2, 60, 61, 62, 63, 64} | set(range(max(0, w - 8), w + 1)) | {r.randint(0, 64) for _ in range(4)})
    if dense: ms = range(0, 65)
    out = [[], [lo], [hi], [lo, hi], [hi, lo], [lo, hi, lo], [hi, lo, lo, hi] * 2, [0 if lo <= 0 else lo] * 9]
    for m in ms:
        gain = w - m - 1 if m else w
        ns = {1, 2, 3, r.randint(4, 9)}
        if gain > 0:
            x = 6 // gain + 1
            ns |= {max(1, x - 1), x, x + 1, x + 2}
        for n in sorted(ns):
            if n > 12: continue
            for _ in range(3 if dense else 1):
                s = delta_seq(r, lo, hi, m, n)
                if s is not None: out.append(s)
    return out


def c05(c):
    for k in range(rounds(4)):
        r = core.rng("c05", k)
        ss, items = [], []
        for j in range(0, len(PACKABLE), 6):
            d = {}
            for i, t in enumerate(PACKABLE[j:j + 6]):
                d["T%d" % i] = struct([fld(bit(r.randint(1, 7)), "p"), fld(t, "x", arr=[], packed=True), fld(bit(3), "q")])
            s = Schema(d, note="packed-" + "-".join(t["zs"] for t in PACKABLE[j:j + 6]))
            ss.append(s)
        # bit fields of computed width, enums, bitmasks, subtypes, several arrays in a row
        d = {"E": enum(intb(9), [("A", -200), ("B", None), ("C", 7), ("D", 255)]), "E64": enum(uint(64), [("A", 0), ("B", (1 << 63) - 1), ("C", 1 << 40), ("D", 1 << 61)]),
             "M": mask(bit(13), [("P",), ("Q",), ("R",), ("S", 4096)]), "Sb": sub(sint(32)), "Sc": sub(ref("Sb")), "Se": sub(ref("E"))}
        d["Bd"] = struct([fld(bit(6), "w"), fld(bitd(B("+", F("w"), N(1))), "x", arr=[], packed=True), fld(bit(3), "q"), fld(bitd(B("+", F("w"), N(1)), True), "y", arr=[], packed=True), fld(bit(1), "z")])
        d["Nm"] = struct([fld(ref(n), "a%d" % i, arr=[], packed=True) for i, n in enumerate(["E", "E64", "M", "Sb", "Sc", "Se"])] + [fld(bit(3), "q")])
        d["Fx"] = struct([fld(bit(3), "n"), fld(uint(16), "a", arr=[F("n")], packed=True), fld(sint(64), "b", arr=[N(3)], packed=True), fld(uint(64), "o", arr=[], packed=True, opt=True), fld(varu(9), "v", arr=[N(2)], packed=True), fld(bit(1), "z")])
        d["Pl"] = struct([fld(t, "a%d" % i, arr=[] if i % 2 else [N(2)], packed=True) for i, t in enumerate(PLAIN)] + [fld(bit(3), "q")])
        ss.append(Schema(d, note="packed-special"))
        f = flow.Flow(ss, "c05-%d" % k)
        flow.schema_violations(c, f.batch, "c05")
        for i in f.alive:
            s = ss[i]
            if s.note == "packed-special":
                fill(f, r, scaled(260), only=[i], tops=["Bd", "Nm", "Fx", "Pl"], multi=False)
                for w in range(64) if THOROUGH else [0, 1, 7, 12, 31, 32, 60, 61, 62, 63]:
                    for seq in packed_cases(r, uint(w + 1), False)[::2]:
                        f.enc(i, [("Bd", {"w": limbs(w), "x": [limbs(v) for v in seq], "q": limbs(5), "y": [limbs(v - (1 << w)) for v in seq], "z": limbs(1)})], st=r.choice([0, 3]))
                continue
            for t, d in s.defs.items():
                for seq in packed_cases(r, d["f"][1]["t"], THOROUGH):
                    f.enc(i, [(t, {"p": limbs(1), "x": [limbs(v) for v in seq], "q": limbs(5)})], st=r.choice([0, 0, 1, 4, 7]))
        vs = f.go(c)
        flow.report(c, f, vs, {"enc": ENC}, "c05")
        for cs, v, info in vs[:2000:700]: c.sample(flow.describe(f, cs, v, info))
        mutants(f, r, 1 if THOROUGH else 0, c, {"dec": {"value", "length", "refused", "panic"}}, "c05-%d" % k)
        # streams with every delta width, as another encoder might write them
        g = flow.Flow(ss, "c05dec-%d" % k, batch=f.batch)
        for i in f.alive:
            if ss[i].note == "packed-special": continue
            for t, d in ss[i].defs.items():
                for _ in range(scaled(8, 8)):
                    n = r.randint(0, 5)
                    m = r.choice([0, 1, 62, 63, r.randint(0, 63)])
                    bits = "".join(str(r.getrandbits(1)) for _ in range(d["f"][0]["t"]["w"])) + "{:08b}".format(n) + "1" + "{:06b}".format(m)
                    bits += "".join(str(r.getrandbits(1)) for _ in range(r.choice([80, 400, 72 + n * (m + 1)])))
                    bits += "0" * (-len(bits) % 8)
                    g.dec(i, t, [int(bits[x:x + 8], 2) for x in range(0, len(bits), 8)])
        vs = g.go(c)
        flow.report(c, g, vs, {"dec": {"value", "length", "refused", "panic"}}, "c05dec")
