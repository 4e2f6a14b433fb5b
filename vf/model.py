"""Small schemas whose values CodecModel.tla enumerates: the specification is checked on all of them, and so is the real code."""
from . import core, harness
from .schema import *
from .schema import Schema

U = lambda w: bit(w) if w not in (8, 16, 32, 64) else uint(w)


def SCHEMAS():
    """[(definitions, type, start positions)]"""
    out = []
    about = [""]

    def add(defs, t="T", st=(0, 3)):
        out.append((defs, t, list(st), about[0]))

    # plain fields of odd widths, around alignment
    about[0] = "plain"
    add({"T": struct([fld(bit(1), "a"), fld(intb(2), "b"), fld(bit(2), "cc", al=4), fld(BOOL, "dd", al=8)])}, st=(0, 1, 5))
    # variable-length integers, strings, blobs
    about[0] = "prim"
    add({"T": struct([fld(varu(2), "a"), fld(vars_(4), "b"), fld(STR, "s")])})
    add({"T": struct([fld(BYTES, "a"), fld(EXT, "b"), fld(F16, "cc"), fld(F64, "dd")])})
    # optional, conditional, aligned optional
    about[0] = "opt"
    add({"T": struct([fld(BOOL, "p"), fld(bit(2), "a", opt=True), fld(bit(2), "b", cond=F("p", y="b")), fld(bit(1), "cc", opt=True, al=8)])})
    add({"T": struct([fld(bit(2), "n"), fld(bit(2), "b", cond=B("==", F("n"), N(1))), fld(bit(1), "cc", cond=B(">", F("n"), N(1)), opt=True),
                      fld(uint(8), "dd", cond=B("==", F("n"), N(3)))])})
    # arrays of all three kinds
    about[0] = "array"
    add({"T": struct([fld(bit(2), "n"), fld(bit(2), "a", arr=[F("n")]), fld(BOOL, "b", arr=[])])}, st=(0,))
    add({"T": struct([fld(uint(8), "a", arr=[], packed=True)])})
    add({"T": struct([fld(sint(8), "a", arr=[N(3)], packed=True), fld(bit(1), "z")])})
    add({"T": struct([fld(vars_(2), "a", arr=[], packed=True, opt=True), fld(bit(1), "z")])})
    add({"T": struct([fld(STR, "a", arr=[], packed=True), fld(BOOL, "b", arr=[N(2)], packed=True)])}, st=(0,))
    # a choice with several labels, an empty case, a default
    about[0] = "choice"
    ch = choice([par("s", bit(2))], F("s"), [([N(0)], fld(bit(2), "a")), ([N(1), N(2)], fld(BOOL, "b", arr=[]))], fld(STR, "o"))
    add({"C": ch, "T": struct([fld(bit(2), "n"), fld(ref("C", F("n")), "ch"), fld(bit(1), "z")])})
    add({"C": choice([par("s", BOOL, "b")], F("s", y="b"), [([N(True)], None), ([N(False)], fld(bit(2), "x", arr=[N(2)]))]), "T": struct([fld(BOOL, "n"), fld(ref("C", F("n", y="b")), "ch")])})
    add({"C": ch}, "C")
    # unions, by themselves, in arrays and packed
    about[0] = "union"
    un = union([fld(bit(2), "a"), fld(uint(8), "b"), fld(BOOL, "cc", arr=[N(2)])])
    add({"Un": un}, "Un")
    add({"Un": union([fld(bit(2), "a"), fld(uint(8), "b")]), "T": struct([fld(ref("Un"), "l", arr=[])])}, st=(0,))
    add({"Un": union([fld(BOOL, "a"), fld(uint(8), "b")]), "T": struct([fld(ref("Un"), "l", arr=[N(3)], packed=True)])}, st=(0,))
    # packed compounds: nested, with optional and aligned fields, with arrays of their own
    about[0] = "packed"
    add({"In": struct([fld(uint(8), "x")]), "E": struct([fld(ref("In"), "i"), fld(BOOL, "b")]), "T": struct([fld(ref("E"), "l", arr=[N(2)], packed=True)])})
    add({"E": struct([fld(uint(8), "x", opt=True)]), "T": struct([fld(ref("E"), "l", arr=[N(3)], packed=True)])}, st=(0,))
    add({"E": struct([fld(bit(1), "x"), fld(uint(8), "y", al=8)]), "T": struct([fld(ref("E"), "l", arr=[N(2)], packed=True)])}, st=(0, 3))
    add({"E": struct([fld(bit(1), "n"), fld(uint(8), "y", arr=[F("n")])]), "T": struct([fld(ref("E"), "l", arr=[N(2)], packed=True)])}, st=(0,))
    # parameters and @index
    about[0] = "param"
    add({"E": struct([fld(uint(8), "x", cond=B("<", F("k"), F("m")))], [par("k", uint(8)), par("m", bit(2))]),
         "T": struct([fld(bit(2), "m"), fld(ref("E", IDX, F("m")), "l", arr=[N(2)])])})
    add({"E": struct([fld(bitd(B("+", F("k"), N(1))), "x")], [par("k", bit(1))]), "T": struct([fld(bit(1), "k"), fld(ref("E", F("k")), "e"), fld(ref("E", IDX), "l", arr=[N(2)], packed=True)])})
    add({"E": struct([fld(bit(2), "x", arr=[F("k")])], [par("k", bit(2))])}, "E")
    # enums, bitmasks and subtypes as leaves
    about[0] = "leaf"
    add({"Col": enum(bit(2), [("RED",), ("GREEN", 1), ("BLUE", 2), ("GREY", 3)]), "Flg": mask(bit(2), [("A",), ("B",), ("AB", 3)]), "Su": sub(ref("Col")),
         "T": struct([fld(ref("Col"), "a"), fld(ref("Flg"), "b"), fld(ref("Su"), "l", arr=[], packed=True)])}, st=(0,))
    return out


def schemas():
    return [(Schema(d, pkg="m%d" % i, tops=[t], note="model%d" % i), t, st, a) for i, (d, t, st, a) in enumerate(SCHEMAS())]


def explore(check, about=None, timeout=600):
    """TLC checks CodecModel; returns the schemas and the values it went through: [(schema number, type, start, value)]."""
    ss = [x for x in schemas() if about is None or x[3] in about]
    mp = core.write_ndjson(core.path("model", "model.ndjson"), [dict(sch=s.tla(), t=t, st=st) for s, t, st, a in ss])
    r = core.tlc_ok("CodecModel", "CodecModel.cfg", env={"MODEL": mp}, timeout=timeout, name="model")
    vs = r.records("VALUE")
    if check is not None:
        check.tlc(r)
        check.add("model_values", len(vs))
    core.log("model: %d values of %d schemas, %d states in %.1fs" % (len(vs), len(ss), r.distinct, r.wall))
    return [x[0] for x in ss], [(v["i"] - 1, ss[v["i"] - 1][1], v["st"], v["v"]) for v in vs]
