"""M07: replay of MeasureTree.tla"""
from fractions import Fraction
import mpmath
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl

INVS = "TypeOK InvAdmissible InvWeights InvMixTrivial InvMixZero InvMixFinite Emit"


def cfg(ck, steps, small, spec="Spec", invs=INVS):
    return (f"SPECIFICATION {spec}\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxSteps = {steps}\n Small = {'TRUE' if small else 'FALSE'}\n"
            f"INVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n")


def pt(sort, x):
    if sort in ("R", "C"):
        return fl(x)
    a, b = {"RRC": ("RR", "C"), "R.RC": ("R", "RC"), "R.RR": ("R", "RR")}.get(sort, (sort[:1], sort[1:]))
    return [pt(a, x[0]), pt(b, x[1])]


def enc(t):
    k, r = t["k"], t["r"]
    if k == "leaf":
        return {"k": "leaf", "f": r["f"], "p": [fl(a) for a in r["p"]]}
    if k == "w":
        return {"k": "w", "c": fl(r["c"]), "m": enc(r["m"])}
    if k == "int":
        return {"k": "int", "c": [fl(a) for a in r["c"]], "m": enc(r["m"])}
    if k == "mix":
        return {"k": "mix", "ms": [enc(m) for m in r["ms"]], "ws": [fl(a) for a in r["given"]], "route": r["route"]}
    if k == "push":
        m = r["t"]
        d = {"k": "push", "t": m["t"], "m": enc(r["m"]), "route": r["route"]}
        if m["t"] == "lin":
            d.update(a=fl(m["a"]), b=fl(m["b"]))
        return d
    if k == "prod":
        return {"k": "prod", "a": enc(r["a"]), "b": enc(r["b"]), "route": r["route"]}
    return {"k": "dirac", "x": pt(t["sort"], r["x"])}


def text(t):
    k, r = t["k"], t["r"]
    f = lambda a: str(float(N.num(a)))
    if k == "leaf":
        return r["f"] + "(" + ",".join(map(f, r["p"])) + ")"
    if k == "w":
        return f"weighted({f(r['c'])}, {text(r['m'])})"
    if k == "int":
        return f"integral({[f(a) for a in r['c']]}, {text(r['m'])})"
    if k == "mix":
        return f"mixture.{r['route']}({[f(a) for a in r['given']]}, {', '.join(map(text, r['ms']))})"
    if k == "push":
        return f"push({r['t']['t']}, {text(r['m'])})"
    if k == "prod":
        return f"product({text(r['a'])}, {text(r['b'])})"
    return "dirac"


def has_push(t):
    return '"push"' in __import__("json").dumps(t)


def m07(ck):
    obl, _ = ck.tlc("MeasureTree", cfg(ck, 4 if ck.deep else 3, True), timeout=850)
    obl2, _ = ck.tlc("MeasureTree", cfg(ck, 9, False), simulate=6000 if ck.deep else 1500, depth=12, timeout=850)
    seen, uniq = set(), []
    for o in obl + obl2:
        k = text(o["tree"]) + str(o["ok"])
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    cases, meta = [], []
    for o in uniq:
        ps = [pt(o["sort"], p["x"]) for p in o["pts"]]
        for w in ("f64", "f32"):
            if w == "f32" and has_push(o["tree"]):
                continue
            cases.append({"op": "tree", "sort": o["sort"], "w": w, "tree": enc(o["tree"]), "pts": ps})
            meta.append((o, w))
    memo = {}
    for (o, w), r in zip(meta, ck.harness(cases)):
        name = f"{text(o['tree'])} ({w})"
        det = {"tree": text(o["tree"]), "sort": o["sort"], "width": w}
        if not isinstance(r, dict):
            ck.fail(f"{name}: {r}", det)
            continue
        if not o["ok"]:
            if r["new"] == "ok":
                ck.fail(f"{name}: inadmissible weights accepted", det)
            else:
                ck.passed()
                ck.part("rejected")
            continue
        if r["new"] != "ok":
            ck.fail(f"{name}: construction failed: {r['new']}", det)
            continue
        ck.validated += 1
        ck.part(o["tree"]["k"])
        for i, (p, g) in enumerate(zip(o["pts"], r["pts"])):
            one(ck, name, dict(det, x=pt(o["sort"], p["x"])), p, g, w, memo, (id(o), i))
    ck.sample({"tree": text(uniq[-1]["tree"])})
    maps(ck)


def one(ck, name, det, p, g, w, memo, key):
    if key not in memo:
        try:
            d = N.tval(p["d"][0]) if p["d"] else None
        except N.Ambiguous:
            d = "skip"
        try:
            s = None if d == "skip" else N.cond(p["s"])
        except N.Ambiguous:
            s = None
        if p["l"] and isinstance(d, N.Val):
            l = N.ll(p["l"][0])
            if not (l.v == d.v or abs(l.v - d.v) < 1e-30 * (1 + abs(l.v))):
                raise ToolError(f"specification disagrees with itself: {name} {l.v} {d.v}")
            d = N.Val(d.v, d.scale + l.scale)
            ck.part("two denotations agree")
        memo[key] = (d, s)
    d, s = memo[key]
    if s is not None:
        if g["in"] is not s:
            ck.fail(f"{name}: in_support({det['x']}) = {g['in']}, should be {s}", det)
        else:
            ck.passed()
    if d is None or d == "skip":
        return
    for k in ("root", "at", "again"):
        if N.close(val(g[k]), d, w):
            ck.passed()
        else:
            ck.fail(f"{name}: {k} at {det['x']} = {N.show(val(g[k]))}, should be {N.show(d)}", dict(det, route=k))


def maps(ck):
    obl, _ = ck.tlc("Maps", cfg(ck, 0, False, "MSpec", "EmitMap"))
    cases, meta = [], []
    for o in obl:
        t = dict(o["t"])
        for k in ("a", "b"):
            if k in t:
                t[k] = fl(t[k])
        for w in ("f64", "f32"):
            cases.append({"op": "transform", "w": w, "t": t, "xs": [fl(x["x"]) for x in o["xs"]], "ys": [fl(y["y"]) for y in o["ys"]]})
            meta.append((o, w))
    for (o, w), r in zip(meta, ck.harness(cases)):
        ck.validated += 1
        for y, g in zip(o["ys"], r["ij"]):
            if y["u"] and w == "f64":
                v, got = N.num(y["u"][0]), val(g[0])
                if abs(got - v) <= abs(v) * Fraction(1, 10 ** 12):
                    ck.passed()
                else:
                    ck.fail(f"inverse of {float(N.num(o['t']['a']))} x + {float(N.num(o['t']['b']))} at {float(N.num(y['y']))} is {got}, should be {float(v)}", {"t": o["t"], "y": y["y"]})
        for what, e, g in [("forward", x["f"], g) for x, g in zip(o["xs"], r["f"])] + \
                          [(k, y[f], g[i]) for y, g in zip(o["ys"], r["ij"]) for i, (k, f) in enumerate((("inverse", "i"), ("log-jacobian", "j")))]:
            try:
                v = N.tval(e)
            except N.Ambiguous:
                continue
            if N.close(val(g), v, w):
                ck.passed()
            else:
                ck.fail(f"{o['t']['t']} transform ({w}): {what} = {N.show(val(g))}, should be {N.show(v)}", {"t": o["t"], "w": w})
