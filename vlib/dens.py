"""M05, M06: replay of DensitySession.tla"""
import math, struct
import mpmath
from mpmath import mpf
from . import num as N
from .laws import val

INVS = "TypeOK InvSelf InvAntisymmetric InvChain InvBase InvKnown InvTransparent Emit"


def cfg(ck, maxlen, maxobjs, menus, small):
    return (f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxLen = {maxlen}\n MaxObjs = {maxobjs}\n"
            f" Menus = {{{', '.join(map(str, menus))}}}\n Small = {'TRUE' if small else 'FALSE'}\nINVARIANTS {INVS}\nCHECK_DEADLOCK FALSE\n")


def fl(a):
    return N.bits(N.f64(N.num(a)))


def leaf(m):
    t = {"k": "leaf", "f": m["f"], "p": [fl(a) for a in m["p"]]}
    if m["c"][0] != 0:
        t = {"k": "w", "c": fl(m["c"]), "m": t}
    t["e"] = m["e"]
    return t


def want(v):
    if v["k"] == "fin":
        return N.ll(v["ll"])
    return {"ninf": N.Val(-mpmath.inf, mpf(0)), "pinf": N.Val(mpmath.inf, mpf(0)), "undef": None}[v["k"]]


def histories(ck):
    obl, _ = ck.tlc("DensitySession", cfg(ck, 5 if ck.deep else 4, 2, [1, 2], True), timeout=850)
    obl2, _ = ck.tlc("DensitySession", cfg(ck, 30, 4, [3, 4, 5, 6], False), simulate=400 if ck.deep else 50, depth=33, timeout=850)
    out = obl + obl2
    cases = []
    for o in out:
        ops = []
        for e in o["h"]:
            op, a = e["op"], e["a"] - 1
            ops.append({"build": lambda: [op, a], "wrt": lambda: [op, a, e["b"] - 1], "fork": lambda: [op, a, e["b"] - 1],
                        "at": lambda: [op, a, fl(e["x"])], "obs": lambda: [op, a], "cache": lambda: [op, a, e["r"]],
                        "q": lambda: [op, a, fl(e["x"])], "cobs": lambda: [op, a],
                        "sweep": lambda: [op, a, e["c"]]}[op]())
        cases.append({"op": "dsess", "dom": o["dom"], "key": o["key"], "ms": [leaf(m) for m in o["ms"]], "ops": ops})
    return out, cases, ck.harness(cases)


def describe(o, n):
    return {"measures": [f"{m['f']}{[float(N.num(a)) for a in m['p']]}" for m in o["ms"]],
            "history": [" ".join(str(float(N.num(v)) if k == "x" else v) for k, v in e.items() if k in ("op", "a", "b", "c", "x", "r")) for e in o["h"][:n + 1]]}


def m05(ck):
    out, cases, res = histories(ck)
    for o, r in zip(out, res):
        if not isinstance(r, list):
            ck.fail(f"session failed: {r}", describe(o, 40))
            continue
        ck.validated += 1
        ck.part(f"menu{o['k']}")
        for n, (e, g) in enumerate(zip(o["h"], r)):
            if e["op"] == "at":
                w = want(e["v"])
                if w is None:
                    continue
                if N.close(val(g), w):
                    ck.passed()
                else:
                    ck.fail(f"relative log-density at {float(N.num(e['x']))} is {N.show(val(g))}, should be {N.show(w)}", describe(o, n))
            elif e["op"] == "obs":
                if g == [e["m"] - 1, e["b"] - 1]:
                    ck.passed()
                else:
                    ck.fail(f"object reports measure/base {g}, should be {[e['m'] - 1, e['b'] - 1]}", describe(o, n))
    ck.sample(describe(out[-1], 40))
    pairs(ck)


def m06(ck):
    out, cases, res = histories(ck)
    for o, r in zip(out, res):
        if not isinstance(r, list):
            ck.fail(f"session failed: {r}", describe(o, 40))
            continue
        ck.validated += 1
        for n, (e, g) in enumerate(zip(o["h"], r)):
            if e["op"] == "q":
                ck.part(f"key{o['key']}")
                got, plain, cnt = g
                w = want(e["v"])
                if got != plain:
                    ck.fail(f"cached value {N.show(val(got))} differs from uncached {N.show(val(plain))} at {float(N.num(e['x']))}", describe(o, n))
                elif w is not None and not N.close(val(got), w):
                    ck.fail(f"cached value {N.show(val(got))} at {float(N.num(e['x']))} should be {N.show(w)}", describe(o, n))
                elif cnt > e["n"]:
                    ck.fail(f"wrapped log-density evaluated {cnt} times for {e['n']} distinct points", describe(o, n))
                else:
                    ck.passed()
            elif e["op"] == "sweep":
                ck.part("sweeps")
                if g[0]:
                    ck.fail(f"cached values differ from uncached ones in a sweep over {e['c']} points: {g[0]}", describe(o, n))
                elif g[1] > e["n"]:
                    ck.fail(f"wrapped log-density evaluated {g[1]} times for {e['n']} distinct points", describe(o, n))
                else:
                    ck.passed()
            elif e["op"] == "cobs":
                if g == [e["m"] - 1, e["b"] - 1]:
                    ck.passed()
                else:
                    ck.fail(f"cache reports measure/base {g}, should be {[e['m'] - 1, e['b'] - 1]}", describe(o, n))
    ck.sample(describe(out[-1], 40))


# ---- every ordered pair of concrete measure types -------------------------------------------------
PAIR_INVS = "InvAnti Emit"


def pairs(ck):
    c = f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Deep = {'TRUE' if ck.deep else 'FALSE'}\nINVARIANTS {PAIR_INVS}\nCHECK_DEADLOCK FALSE\n"
    obl, _ = ck.tlc("DensityPairs", c)
    cases, meta = [], []
    for o in obl:
        pts = [p["x"] for p in o["pts"]]
        for w in ("f64", "f32"):
            m = {"f": o["m"]["f"], "p": [fl(a) for a in o["m"]["p"]]}
            b = {"f": o["b"]["f"], "p": [fl(a) for a in o["b"]["p"]]}
            cases.append({"op": "pair", "dom": o["dom"], "w": w, "m": m, "b": b, "xs": [fl(x) for x in pts]})
            meta.append((o, w))
    for (o, w), r in zip(meta, ck.harness(cases)):
        name = f"{o['m']['f']}{[float(N.num(a)) for a in o['m']['p']]} wrt {o['b']['f']}{[float(N.num(a)) for a in o['b']['p']]} ({w})"
        if not isinstance(r, list):
            ck.fail(f"{name}: {r}", {"m": o["m"], "b": o["b"]})
            continue
        ck.validated += 1
        ck.part("pairs")
        for p, g in zip(o["pts"], r):
            fwd, back, rev, self_ = want(p["rel"]), want(p["root"]), want(p["rev"]), want(p["self"])
            exp = {"wrt": fwd, "stored": fwd, "boxed": fwd, "trait": fwd, "wrt2": fwd, "back": back, "rev": rev, "self": self_, "self2": self_}
            for k, wv in exp.items():
                if wv is None:
                    continue
                gv = val(g[k])
                big = N.Val(wv.v, wv.scale + back.scale)
                if N.close(gv, big, w) and not (k.startswith("self") and gv != 0.0):
                    ck.passed()
                else:
                    ck.fail(f"{name}: {k} at {float(N.num(p['x']))} = {N.show(gv)}, should be {N.show(wv)}",
                            {"m": o["m"], "b": o["b"], "x": p["x"], "route": k})
