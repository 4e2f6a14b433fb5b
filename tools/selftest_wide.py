"""Compares the arithmetic of spec/Wide.tla with Python's."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.schema import wide
from vf.values import tdiv
r = random.Random(1)


def rn():
    return r.choice([r.randint(-5, 5), r.choice([1, -1]) * r.getrandbits(r.randint(1, 63)), (1 << 30) + r.randint(-2, 2), -(1 << 30) + r.randint(-2, 2),
                     r.choice([0, -1, 1, 32767, 32768, -32768, 1 << 63, -(1 << 63), (1 << 64) - 1])])


recs = []


def w(o, a, b, v):
    if -(1 << 79) <= v < (1 << 79): recs.append(dict(o=o, a=wide(a), b=wide(b), r=wide(v)))


for _ in range(700):
    a, b = rn(), rn()
    for o, v in (("+", a + b), ("-", a - b), ("*", a * b), ("&", a & b), ("|", a | b), ("^", a ^ b), ("<", int(a < b)), ("id", a)): w(o, a, b, v)
    if b: w("/", a, b, tdiv(a, b)); w("%", a, b, a - b * tdiv(a, b))
    n = r.randint(0, 70)
    w(">>", a, n, a >> n); w("<<", a, n, a << n)
p = core.write_ndjson(core.path("w", "c.ndjson"), recs)
x = core.tlc_ok("WideTest", "WideTest.cfg", env=dict(CASES=p), workers=1)
print(len(recs), "cases", x.distinct, "states")
