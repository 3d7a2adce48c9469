"""M08 (Decomp.tla, Published.tla) and M20 (Numeric.tla, Vectors.tla)"""
import math
from fractions import Fraction
from . import num as N
from .laws import val
from .dens import fl


def ext(x):
    """a number of Decomp.tla; a zero denominator is minus infinity"""
    return -math.inf if x[1] == 0 else N.f64(N.num(x))


def exact(ck, what, got, want, det):
    w = ext(want)
    if isinstance(got, str) and val(got) == w:
        ck.passed()
    else:
        ck.fail(f"{what} = {N.show(val(got))}, should be {w}", det)


def m08(ck):
    inv = "TypeOK InvParts InvIid InvConcat InvOne InvEmpty InvReverse InvLong Emit"
    c = lambda n, small: (f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxTerms = {n}\n Small = {'TRUE' if small else 'FALSE'}\n"
                          f"INVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n")
    obl, _ = ck.tlc("Decomp", c(4 if ck.deep else 3, True))
    obl2, _ = ck.tlc("Decomp", c(12, False), simulate=600 if ck.deep else 60, depth=16)
    cases, meta = [], []
    for o in obl + obl2:
        ops = [[e["c"], N.bits(ext(e["v"])) if e["c"] == "const" else e["n"]] for e in o["ops"]]
        for w in ("f64", "f32"):
            cases.append({"op": "decomp", "w": w, "start": o["start"], "ops": ops, "xs": [fl(x) for x in o["xs"]], "th": [fl(x) for x in o["th"]], "long": [n for n, _ in o["long"]]})
            meta.append((o, w, ops))
    for (o, w, ops), r in zip(meta, ck.harness(cases)):
        det = {"start": o["start"], "ops": ops, "w": w}
        if not isinstance(r, dict):
            ck.fail(f"decomposition: {r}", det)
            continue
        ck.validated += 1
        ck.part(o["start"])
        if r["sizes"] != o["sizes"]:
            ck.fail(f"numbers of terms {r['sizes']}, should be {o['sizes']}", det)
        exact(ck, "constant_sum", r["const"], o["const"], det)
        for i, x in enumerate(o["data"]):
            exact(ck, f"evaluate_data_terms(x{i})", r["data"][i], x, det)
        for j, t in enumerate(o["param"]):
            exact(ck, f"evaluate_param_terms(t{j})", r["param"][j], t, det)
            for i, x in enumerate(o["eval"][j]):
                exact(ck, f"evaluate(x{i}, t{j})", r["eval"][j][i], x, det)
            for n, x in enumerate(o["iid"][j]):
                exact(ck, f"evaluate_iid(first {n}, t{j})", r["iid"][j][n], x, det)
        for i, (n, x) in enumerate(o["long"]):
            if w == "f64":
                exact(ck, f"evaluate_iid of {n} points", r["long"][i], x, det)
    ck.sample({"ops": ops})
    obl, _ = ck.tlc("Published", f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Deep = {'TRUE' if ck.deep else 'FALSE'}\nINVARIANTS InvLaw Emit\nCHECK_DEADLOCK FALSE\n")
    cases, meta = [], []
    for o in obl:
        for w in ("f64", "f32"):
            cases.append({"op": "published", "w": w, "f": o["f"], "p": [fl(a) for a in o["inst"]], "q": [fl(a) for a in o["p"]], "xs": [fl(x) for x in o["xs"]]})
            meta.append((o, w))
    for (o, w), r in zip(meta, ck.harness(cases)):
        name = f"decomposition of {o['f']}{[float(N.num(a)) for a in o['inst']]} at {[float(N.num(a)) for a in o['p']]} ({w})"
        det = {"f": o["f"], "instance": o["inst"], "p": o["p"], "w": w}
        if not isinstance(r, dict):
            ck.fail(f"{name}: {r}", det)
            continue
        ck.validated += 1
        ck.part("published")
        for what, e, g in [(f"{k} x{i}", e, r[k][i]) for k in ("at", "parts") for i, e in enumerate(o["at"])] + [("iid", o["iid"], r["iid"])]:
            if N.close(val(g), N.ll(e), w, 2):
                ck.passed()
            else:
                ck.fail(f"{name}: {what} = {N.show(val(g))}, should be {N.show(N.ll(e))}", det)


# ---- M20 ------------------------------------------------------------------------------------------------
def wire(x, t):
    """a number of Numeric.tla as the harness reads and prints it"""
    isf = t in ("f32", "f64")
    if x["k"] == "nan":
        return "nan"
    s = -1 if x["sg"] else 1
    if x["k"] == "inf":
        return N.bits(s * float("inf"))
    v = s * sum((Fraction(2) ** e for e in x["ex"]), Fraction(0))
    if isf:
        return N.bits(-0.0 if v == 0 and s < 0 else float(v))
    return str(int(v))


def m20(ck):
    c = f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Deep = {'TRUE' if ck.deep else 'FALSE'}\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    obl, _ = ck.tlc("Numeric", c % "InvExact InvTarget InvRoundTrip InvSpecial Emit")
    cases, meta = [], []
    for o in obl:
        for v, r in zip(o["v"], o["r"]):
            cases.append({"op": "conv", "from": o["from"], "to": o["to"], "v": wire(v, o["from"])})
            meta.append((o["from"], o["to"], v, r))
    for (a, b, v, want), r, cs in zip(meta, ck.harness(cases), cases):
        isf = b in ("f32", "f64")
        z, seven = (N.bits(0.0), N.bits(7.0)) if isf else ("0", "7")
        failed = want["k"] == "fail"
        ex = {"convert": z if failed else wire(want, b), "or": seven if failed else wire(want, b)}
        if isf:
            ex["float"] = ex["constant"] = wire(want, b)
        det = {"from": a, "to": b, "value": cs["v"], "exponents": v["ex"]}
        if not isinstance(r, dict):
            ck.fail(f"{a} -> {b}: {r}", det)
            continue
        ck.validated += 1
        for k, g in r.items():
            if g == ex[k]:
                ck.passed()
            else:
                ck.fail(f"{k}: {a} {cs['v']} -> {b} gives {g}, should be {ex[k]}", dict(det, route=k))
    ck.part("conversions", len(cases))
    obl, _ = ck.tlc("Vectors", c % "InvSymmetric InvLinear InvInverse InvSplit Emit")
    cases, meta = [], []
    for o in obl:
        if not o["rows"]:
            continue
        for w in ("f64", "f32"):
            cases.append({"op": "vecs", "w": w, "rows": [[fl(x) for x in r] for r in o["rows"]]})
            meta.append((o, w))
    for (o, w), r in zip(meta, ck.harness(cases)):
        det = {"n": o["n"], "rows": [[float(N.num(x)) for x in q] for q in o["rows"]], "w": w}
        if not isinstance(r, dict):
            ck.fail(f"vectors: {r}", det)
            continue
        ck.validated += 1
        ck.part("vectors")
        if len(o["rows"]) >= 2:
            for k in ("dot", "vdot"):
                exact(ck, k, r[k], o["dot"], det)
        for k, e in (("sub", "sub"), ("add", "add"), ("sum", "sum"), ("stats", "sum"), ("zero", "zero")):
            g = r[k]
            if isinstance(g, list) and [val(x) for x in g] == [N.f64(N.num(x)) for x in o[e]]:
                ck.passed()
            else:
                ck.fail(f"{k} of vectors of length {o['n']}: {g}, should be {[float(N.num(x)) for x in o[e]]}", det)
