"""M21: replay of Transforms.tla"""
import math
from fractions import Fraction
from . import num as N
from .laws import val
from .dens import fl

INVS = "InvChain InvLinear InvCompose InvVolume InvTranspose InvTangent InvQuotient InvRelative Emit"
EPS = {"f64": Fraction(1, 2 ** 49), "f32": Fraction(1, 2 ** 20), "forward": Fraction(1, 2 ** 49), "reverse": Fraction(1, 2 ** 49)}
TOP = {"f32": Fraction(2) ** 120}


def cfg(ck, dim, stages, small):
    return (f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxDim = {dim}\n MaxStages = {stages}\n Small = {'TRUE' if small else 'FALSE'}\n"
            f"INVARIANTS {INVS}\nCHECK_DEADLOCK FALSE\n")


def near(got, want, w, scale):
    got = val(got)
    if not isinstance(got, float) or not math.isfinite(got):
        return False
    return abs(Fraction(got) - want) <= EPS[w] * max(abs(want), scale)


def scales(o, at):
    """per stage and coordinate: the size of the terms that are added up, errors of earlier stages included"""
    x = [N.num(v) for v in o["x"]]
    err, out = [abs(v) for v in x], []
    for s, y in zip(o["stages"], at):
        if s["k"] == "lin":
            n, a, b = s["n"], [abs(N.num(v)) for v in s["a"]], [abs(N.num(v)) for v in s["b"]]
            err = [b[i] + sum(a[i * n + j] * err[j] for j in range(n)) for i in range(s["m"])]
        else:
            err = [e * e if s["f"] == "square" else 3 * e + 1 if s["f"] == "affine" else e for e in err]
        out.append(err)
        x = y
    return out


def m21(ck):
    obl, _ = ck.tlc("Transforms", cfg(ck, 2, 2 if ck.deep else 1, True))
    obl2, _ = ck.tlc("Transforms", cfg(ck, 4, 3, False), simulate=600 if ck.deep else 120, depth=60)
    chains = [o for o in obl + obl2 if o["k"] == "chain"]
    seen, todo = set(), []
    for o in chains:
        k = repr((o["x"], o["stages"]))
        if k not in seen:
            seen.add(k)
            todo.append(o)
    cases = [{"op": "ad_chain", "x": [fl(v) for v in o["x"]],
              "stages": [dict(s, a=[fl(v) for v in s["a"]], b=[fl(v) for v in s["b"]]) for s in o["stages"]]} for o in todo]
    for o, r in zip(todo, ck.harness(cases)):
        one(ck, o, r)
    for o in obl:
        if o["k"] == "shape":
            shapes(ck, o["cases"])
        elif o["k"] == "dens":
            dens(ck, o["cases"])


def describe(o):
    return [f"{s['f']}" if s["k"] == "cw" else f"{s['m']}x{s['n']} {[float(N.num(v)) for v in s['a']]} + {[float(N.num(v)) for v in s['b']]}" for s in o["stages"]]


def one(ck, o, r):
    det = {"x": [float(N.num(v)) for v in o["x"]], "stages": describe(o)}
    ck.validated += 1
    ck.part(f"{len(o['stages'])} stages")
    if not isinstance(r, dict):
        ck.fail(f"transform: {r}", det)
        return
    at = [[N.num(v) for v in y] for y in o["at"]]
    sc = scales(o, at)
    for w in ("f64", "f32", "forward", "reverse"):
        if w == "f32" and not o["small"]:
            continue
        got = r[w]
        if got["dims"] != [[s["n"], s["m"]] for s in o["stages"]]:
            ck.fail(f"dimensions {got['dims']} ({w})", det)
        for i, y in enumerate(at):
            if len(got["at"][i]) == len(y) and all(near(g, v, w, e * 4 ** i) for g, v, e in zip(got["at"][i], y, sc[i])):
                ck.passed()
            else:
                ck.fail(f"image after stage {i + 1} is {[N.show(val(g)) for g in got['at'][i]]}, should be {[float(v) for v in y]} ({w})", det)
        for i, d in enumerate(o["det"]):
            g = val(got["vol"][i])
            if d:
                d = abs(N.num(d[0]))
                # elimination may round a singular matrix to one that is just not singular
                tol = 1e-11 if w != "f32" else 1e-5
                want = -math.inf if d == 0 else math.log(d.numerator) - math.log(d.denominator)
                ok = g < -25 if d == 0 else abs(g - want) <= tol * max(1.0, abs(want))
                if ok:
                    ck.passed()
                else:
                    ck.fail(f"log_abs_det_jacobian of stage {i + 1} is {g}, should be {want} ({w})", det)
            elif o["slope"][i]:
                s = abs(N.num(o["slope"][i][0]))
                want = -math.inf if s == 0 else math.log(s)
                if g == want or math.isfinite(want) and abs(g - want) <= 1e-6 * max(1.0, abs(want)):
                    ck.passed()
                else:
                    ck.fail(f"log_abs_det_jacobian of the componentwise stage {i + 1} is {g}, should be {want} ({w})", det,
                            "componentwise-volume-placeholder" if g == 0.0 else None)
    big = max([abs(N.num(v)) for c in o["jac"] for v in c] + [Fraction(1)])
    for k, w in (("fjac", "forward"), ("rjac", "reverse")):
        for j, col in enumerate(o["jac"]):
            if len(r[k][j]) == len(col) and all(near(g, N.num(v), w, big) for g, v in zip(r[k][j], col)):
                ck.passed()
            else:
                ck.fail(f"derivative along input {j + 1} ({w} mode) is {[N.show(val(g)) for g in r[k][j]]}, should be {[float(N.num(v)) for v in col]}", det)
    ck.sample(det)


def shapes(ck, cases):
    for c, r in zip(cases, ck.harness([dict(c, op="ad_shape") for c in cases])):
        ck.validated += 1
        ck.part("shapes")
        lin = "rejected" if not c["ok"] else "input rejected" if not c["apply"] else c["m"]
        cw = "input rejected" if not c["apply"] else c["n"]
        if isinstance(r, dict) and r["linear"] == lin and r["componentwise"] == cw:
            ck.passed()
        else:
            ck.fail(f"shapes {c}: {r}, should be {lin} / {cw}", c)


def dens(ck, cases):
    cs = [{"op": "ad_dens", "m": [fl(v) for v in c["m"]], "b": [fl(v) for v in c["b"]], "x": fl(c["x"])} for c in cases]
    for c, r in zip(cases, ck.harness(cs)):
        det = {"m": [float(N.num(v)) for v in c["m"]], "b": [float(N.num(v)) for v in c["b"]], "x": float(N.num(c["x"]))}
        ck.validated += 1
        ck.part("log-densities")
        if not isinstance(r, dict):
            ck.fail(f"log-density over AD numbers: {r}", det)
            continue
        v, d, rv, rd = (N.num(c[k]) for k in ("v", "d", "rv", "rd"))
        for w in ("f64", "f32", "forward", "reverse"):
            for what, g, e in zip(("ad_log_density.at_ad", "at_ad", "at", "relative at_ad", "relative at"), r[w], (v, v, v, rv, rv)):
                if near(g, e, w, 100):
                    ck.passed()
                else:
                    ck.fail(f"{what} ({w}) = {N.show(val(g))}, should be {float(e)}", det)
        for k, m in (("fd", 1), ("fd2", -2), ("rd", 1)):
            for what, g, e in zip(("ad_log_density.at_ad", "at_ad", "at", "relative at_ad", "relative at"), r[k], (d, d, d, rd, rd)):
                if near(g, e * m, "f64", 100):
                    ck.passed()
                else:
                    ck.fail(f"derivative of {what} ({k}) = {N.show(val(g))}, should be {float(e * m)}", det)
        for g in r["with"] + r["vag"][:1]:
            if near(g, v, "f64", 100):
                ck.passed()
            else:
                ck.fail(f"value {N.show(val(g))}, should be {float(v)}", det)
        if near(r["vag"][1], d, "f64", 100):
            ck.passed()
        else:
            ck.fail(f"value_and_grad gives the gradient {N.show(val(r['vag'][1]))}, should be {float(d)}", det,
                    "value-and-grad-placeholder" if r["vag"][1] == r["vag"][0] else None)
