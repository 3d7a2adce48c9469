"""M01, M02, M03, M17, M18: replay of LawSession.tla"""
import math
from fractions import Fraction
from mpmath import mpf
import mpmath
from . import num as N

ALL = ["normal", "cauchy", "studentt", "stdnormal", "gamma", "beta", "chisq", "exponential", "bernoulli",
       "binomial", "negbin", "geometric", "poisson", "categorical"]
COEF = ["factorial", "bincoef", "nbcoef"]
REAL = {"normal", "cauchy", "studentt", "stdnormal", "gamma", "beta", "chisq", "exponential"}
PROB = {"bernoulli", "binomial", "negbin", "geometric", "categorical"}
INVS = "InvNormalised InvPmf InvMoments InvPascal InvSymmetric InvNBCoef InvRecurrence InvInclusion InvExpFam InvOffSupport Emit"


def cfg(ck, fams):
    fs = ", ".join(f'"{f}"' for f in fams)
    return (f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Deep = {'TRUE' if ck.deep else 'FALSE'}\n"
            f" Families = {{{fs}}}\nINVARIANTS {INVS}\nCHECK_DEADLOCK FALSE\n")


def generate(ck, fams):
    obl, _ = ck.tlc("LawSession", cfg(ck, fams))
    groups = {}
    for o in obl:
        k = (o["f"], N.key(o["p"]))
        g = groups.setdefault(k, {"new": None, "at": []})
        if o["k"] == "new":
            g["new"] = o
        else:
            g["at"].append(o)
    return groups


def moderate(f, p):
    """f32 is only asked where the parameters are exactly representable and not extreme"""
    return all(N.f32_exact(x) for x in p) and (f not in PROB or f == "categorical" or all(x == 0 or x == 1 or 2.0 ** -18 < x < 1 - 2.0 ** -18 or x >= 2 for x in p))


def cases(ck, groups, extra_invalid=True):
    out, meta = [], []
    for (f, pk), g in groups.items():
        p = [N.f64(N.num(a)) for a in pk]
        pts = []
        for o in g["at"]:
            x = N.f64(N.num(o["x"]))
            pts.append((x, o))
            if x == 0.0 and f in REAL:
                pts.append((-0.0, o))
        for w in ("f64", "f32"):
            if w == "f32" and not moderate(f, p):
                continue
            pp = [(x, o) for x, o in pts if w == "f64" or f not in REAL or N.f32_exact(x)]
            out.append({"op": "dist", "f": f, "w": w, "p": [N.bits(x) for x in p], "xs": [N.bits(x) for x, _ in pp]})
            meta.append((f, w, p, g, pp))
    return out, meta


DIRECT = ["wrt_root", "at", "at_new", "fn_at", "fn_batch", "log_pdf"]
EFR = ["ef", "ef_fn", "ef_manual", "ef_own"]


def val(s):
    return N.unbits(s) if isinstance(s, str) and not s.startswith("P:") else s


def where(f, w, p, x=None):
    d = {"family": f, "width": w, "params": p}
    if x is not None:
        d["x"] = x
    return d


def mult32(f, x):
    return 1 + (x / 24 if f == "poisson" else 0)


def compare(ck, f, w, p, x, route, got, want, dev=None, finding=None, extra=0):
    got = val(got)
    mult = (mult32(f, x) if w == "f32" else 1) + extra
    if N.close(got, want, w, mult):
        ck.passed()
        return True
    fk = None
    if dev is not None and finding:
        if dev == "nan":
            fk = finding if isinstance(got, float) and math.isnan(got) else None
        elif N.close(got, dev, w, mult + 1):
            fk = finding
    ck.fail(f"{f}{tuple(p)} at {x}: {route} = {N.show(got)} but the law gives {N.show(want)}",
            dict(where(f, w, p, x), route=route, got=got, want=N.show(want)), fk)
    return False


def run_routes(ck, fams, routes, which):
    groups = generate(ck, fams)
    cs, meta = cases(ck, groups)
    res = ck.harness(cs)
    for (f, w, p, g, pp), r in zip(meta, res):
        new = g["new"]
        if new is None or not isinstance(r, dict):
            ck.fail("harness", {"case": where(f, w, p), "result": r})
            continue
        yield f, w, p, g, pp, r


def m01(ck):
    for f, w, p, g, pp, r in run_routes(ck, [f for f in ALL if f != "stdnormal"], None, None):
        if not g["new"]["ok"] or r["new"] != "ok":
            continue
        ck.part(f, len(pp))
        for (x, o), ro in zip(pp, r["pts"]):
            want = N.ll(o["law"])
            ck.validated += 1
            for rt in DIRECT:
                if rt in ro and not (rt == "log_pdf" and not o["in"]):
                    compare(ck, f, w, p, x, rt, ro[rt], want)
        if pp:
            ck.sample({"family": f, "width": w, "params": p, "x": pp[0][0], "law": N.show(N.ll(pp[0][1]["law"])), "got": val(r["pts"][0].get("at", "nan"))})
    stdn = run_routes(ck, ["stdnormal"], None, None)
    for f, w, p, g, pp, r in stdn:
        for (x, o), ro in zip(pp, r["pts"]):
            ck.validated += 1
            for rt in EFR:
                compare(ck, f, w, p, x, rt, ro[rt], N.ll(o["law"]))


DEFAULTS = None


def sp(v):
    tot, sc = Fraction(0), Fraction(0)
    for prod in v:
        t = Fraction(1)
        for b, e in prod:
            t *= N.num(b) ** e
        tot += t
        sc += abs(t)
    return N.Val(N.tomp(tot), N.tomp(sc))


def m02(ck):
    for f, w, p, g, pp, r in run_routes(ck, ALL, None, None):
        ck.part(f)
        ok = g["new"]["ok"]
        ck.validated += 1
        if (r["new"] == "ok") != ok:
            ck.fail(f"{f}::new{tuple(p)} ({w}): documented outcome {'accept' if ok else 'reject'}, got {r['new']}", where(f, w, p))
            continue
        ck.passed()
        if not ok:
            continue
        got = [val(v) for v in r["params"]]
        want = [N.f64(N.num(a)) for a in g["new"]["p"]]
        if got != want and f != "stdnormal":
            ck.fail(f"{f}{tuple(p)} ({w}) stores {got}", where(f, w, p))
        mom = r["moments"]
        for nm, kind, v in g["new"]["mom"]:
            wv = sp(v) if kind == "sp" else N.ll(v)
            gv = val(mom.get(nm))
            # (1 - p) is formed in floating point: relative error eps/(1-p)
            if not N.close(gv, wv, w, 1, floor=0 if abs(wv.v) > 0 else 1):
                ck.fail(f"{f}{tuple(p)} ({w}): {nm} = {N.show(gv)}, law has {N.show(wv)}", dict(where(f, w, p), quantity=nm))
            else:
                ck.passed()
        for a, b in (("params0", 0), ("params1", 1), ("fss_shape", 0)):
            if a in mom and val(mom[a]) != got[b]:
                ck.fail(f"{f}{tuple(p)} ({w}): accessor {a} = {val(mom[a])}", where(f, w, p))
        if "fss_rate" in mom and not N.close(val(mom["fss_rate"]), N.Val(mpf(got[1]), abs(mpf(got[1]))), w):
            ck.fail(f"gamma{tuple(p)} ({w}): from_shape_scale gives rate {val(mom['fss_rate'])}", where(f, w, p))
        if "std0" in mom and [val(mom["std0"]), val(mom["std1"])] != [0.0, 1.0]:
            ck.fail("Cauchy::standard", where(f, w, p))
        if "uniform" in mom:
            k = len(p)
            u = mom["uniform"]
            if isinstance(u, str) or len(u) != k or any(not N.close(val(a), N.Val(mpf(1) / k, mpf(1) / k), w) for a in u):
                ck.fail(f"Categorical::uniform({k}) ({w}) = {u}", where(f, w, p))
            else:
                ck.passed()
        for (x, o), ro in zip(pp, r["pts"]):
            if ro["in"] is not o["in"]:
                ck.fail(f"{f}{tuple(p)} ({w}): in_support({x}) = {ro['in']}, documented {o['in']}", where(f, w, p, x))
            else:
                ck.passed()
            if o["in"] and ro["root_in"] is not True:
                ck.fail(f"{f}{tuple(p)} ({w}): {x} lies in the support but not in that of the root measure ({ro['root_in']})", where(f, w, p, x))
            for rt in ("wrt_root", "at"):
                if rt in ro and not o["in"] and val(ro[rt]) != -math.inf:
                    ck.fail(f"{f}{tuple(p)} ({w}): density exp({val(ro[rt])}) at {x} outside the support", where(f, w, p, x))
        ck.sample({"family": f, "params": p, "moments": {k: v for k, v in mom.items() if k != "uniform"}})
    extra(ck)


def extra(ck):
    """constructor arguments the exact numbers of the model cannot write (NaN, infinities), defaults, uniform sizes"""
    nan, inf = math.nan, math.inf
    bad = {"normal": [[0.0, nan], [0.0, -inf]], "cauchy": [[0.0, nan], [0.0, -inf]], "studentt": [[nan], [-inf]],
           "chisq": [[nan], [-inf]], "exponential": [[nan], [-inf]], "poisson": [[nan], [-inf]],
           "gamma": [[nan, 1.0], [1.0, nan], [-inf, 1.0], [1.0, -inf]], "beta": [[nan, 1.0], [1.0, nan], [-inf, 1.0], [1.0, -inf]],
           "bernoulli": [[nan], [inf], [-inf]], "geometric": [[nan], [inf], [-inf]], "binomial": [[3.0, nan], [3.0, inf]],
           "negbin": [[3.0, nan], [3.0, inf]], "categorical": [[nan], [0.5, nan], [1.0, nan], [inf], [inf, -inf]]}
    obl, _ = ck.tlc("LawDefaults", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1)
    cs, meta = [], []
    for w in ("f64", "f32"):
        for f, l in bad.items():
            for p in l:
                cs.append({"op": "dist", "f": f, "w": w, "p": [N.bits(x) for x in p], "xs": []})
                meta.append(("bad", f, w, p))
        for o in obl:
            cs.append({"op": "dist", "f": o["f"], "w": w, "p": [], "xs": []})
            meta.append(("default", o["f"], w, [N.f64(N.num(a)) for a in o["p"]]))
        for k in list(range(1, 33)) + [100, 1000]:
            cs.append({"op": "uniform", "w": w, "k": k})
            meta.append(("uniform", "categorical", w, [k]))
    for (kind, f, w, p), r in zip(meta, ck.harness(cs)):
        if kind == "bad":
            good = r["new"] != "ok"
        elif kind == "default":
            good = r["new"] == "ok" and [val(v) for v in r["params"]] == p
        else:
            k = p[0]
            good = isinstance(r, list) and len(r) == k and all(N.close(val(a), N.Val(mpf(1) / k, mpf(1) / k), w) for a in r)
        if good:
            ck.passed()
        else:
            ck.fail(f"{kind}: {f}{tuple(p)} ({w}) -> {str(r)[:200]}", where(f, w, p))


def terms_fit(f, w, p, x, law):
    """the exponential form of a normal is eta1*x + eta2*x*x - A: where x*x leaves the number range although the
    log-density does not, or the linear term does, the form cannot say"""
    if f != "normal":
        return True
    top = mpf(2) ** (1022 if w == "f64" else 126)
    linear = abs(mpf(p[0]) * mpf(x)) / mpf(p[1]) ** 2
    return linear < top and (mpf(x) ** 2 < top or abs(law.v) >= 2 * top)


def m03(ck):
    for f, w, p, g, pp, r in run_routes(ck, [f for f in ALL if f not in ("cauchy", "studentt")], None, None):
        if not g["new"]["ok"] or r["new"] != "ok" or not g["new"]["ef"]:
            continue
        ck.part(f, len(pp))
        em = r["efm"]
        A = N.ll(g["new"]["ef"][0])
        if f != "negbin":
            compare(ck, f, w, p, 0, "log_partition", em["A"], A)
        if em["A"] != em["A2"] or em["eta"] != em["eta2"]:
            ck.fail(f"{f}{tuple(p)} ({w}): natural_and_log_partition disagrees with to_natural/log_partition", dict(where(f, w, p), em=em))
        if f not in ("binomial", "negbin"):          # documented to need n / r as well
            rt = em["rt"]
            tol = (1e-12, 1e-9) if w == "f64" else (1e-5, 1e-4)
            if isinstance(rt, str) or len(rt) != len(r["params"]) or any(
                    not abs(val(a) - val(b)) <= tol[0] + tol[1] * abs(val(b)) for a, b in zip(rt, r["params"])):
                ck.fail(f"{f}{tuple(p)} ({w}): from_natural(to_natural()) gives {[val(a) for a in rt] if not isinstance(rt, str) else rt}", where(f, w, p))
            else:
                ck.passed()
        for (x, o), ro in zip(pp, r["pts"]):
            law = N.ll(o["law"])
            if not o["ef"] or not terms_fit(f, w, p, x, law):
                continue
            ck.validated += 1
            want = N.ll(o["ef"][0])
            want = N.Val(law.v, want.scale + law.scale)
            dev = N.ll(o["dev"][0]) if o["dev"] else None
            for rt in EFR:
                compare(ck, f, w, p, x, rt, ro[rt], want, dev, "negbin-log-odds-form")
            compare(ck, f, w, p, x, "base_measure", ro["h"], N.ll(o["h"][0]))
        if pp and pp[0][1]["ef"]:
            ck.sample({"family": f, "params": p, "x": pp[0][0], "law": N.show(N.ll(pp[0][1]["law"])), "ef": val(r["pts"][0]["ef"])})


def m17(ck):
    for f, w, p, g, pp, r in run_routes(ck, COEF, None, None):
        ck.part(f, len(pp))
        for (x, o), ro in zip(pp, r["pts"]):
            ck.validated += 1
            want = N.ll(o["law"])
            for rt in DIRECT + ["log_factorial", "log_coef"]:
                if rt in ro:
                    compare(ck, f, w, p, x, rt, ro[rt], want)
            if ro["in"] is not o["in"]:
                ck.fail(f"{f}{tuple(p)} ({w}): in_support({x}) = {ro['in']}", where(f, w, p, x))
        if pp:
            ck.sample({"measure": f, "params": p, "x": pp[-1][0], "law": N.show(N.ll(pp[-1][1]["law"]))})


def unoffered(ck, f, w, p, x, ro, law):
    """evaluators a distribution may decline to offer: declined, or right"""
    for rt in ("auto_jit", "compile_jit"):
        if rt in ro:
            if ro[rt] == "unavailable":
                ck.passed()
            else:
                compare(ck, f, w, p, x, rt, ro[rt], law)


def m18(ck):
    for f, w, p, g, pp, r in run_routes(ck, [f for f in ALL if f not in ("cauchy", "studentt")], None, None):
        if not g["new"]["ok"] or r["new"] != "ok":
            continue
        ck.part(f, len(pp))
        for i, ((x, o), ro) in enumerate(zip(pp, r["pts"])):
            law = N.ll(o["law"])
            if "inline" in ro and w == "f64":
                ck.validated += 1
                compare(ck, f, w, p, x, "static inline", ro["inline"], law)
            unoffered(ck, f, w, p, x, ro, law)
            if not o["ef"] or not terms_fit(f, w, p, x, law):
                continue
            ck.validated += 1
            want = N.ll(o["ef"][0])
            want = N.Val(law.v, want.scale + law.scale)
            dev = N.ll(o["dev"][0]) if o["dev"] else None
            for rt, got in (("zero_overhead", ro["zo"]), ("zero_overhead function", ro["zo_fn"]), ("zero_overhead of a user's own family", ro["zo_own"]), ("zero_overhead built once", r["zo_many"][i])):
                compare(ck, f, w, p, x, rt, got, want, dev, "negbin-log-odds-form")
    m18_pairs(ck)
    m18_registry(ck)


def m18_pairs(ck):
    obl, _ = ck.tlc("LawPairs", f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Deep = {'TRUE' if ck.deep else 'FALSE'}\nINVARIANTS TypeOK InvFinite InvSelf Emit\nCHECK_DEADLOCK FALSE\n")
    cs, meta = [], []
    for o in obl:
        m, b = ([N.f64(N.num(a)) for a in o[k]["p"]] for k in ("m", "b"))
        for w in ("f64", "f32"):
            if w == "f32" and not (moderate(o["m"]["f"], m) and moderate(o["b"]["f"], b)):
                continue
            pts = [q for q in o["pts"] if w == "f64" or N.f32_exact(N.f64(N.num(q["x"])))]
            cs.append({"op": "wrt", "dom": o["dom"], "w": w, "m": {"f": o["m"]["f"], "p": [N.bits(v) for v in m]}, "b": {"f": o["b"]["f"], "p": [N.bits(v) for v in b]},
                       "xs": [N.bits(N.f64(N.num(q["x"]))) for q in pts]})
            meta.append((o, w, m, b, pts))
    for (o, w, m, b, pts), r in zip(meta, ck.harness(cs)):
        name = f"{o['m']['f']} relative to {o['b']['f']}{tuple(b)}"
        ck.part("pairs", len(pts))
        if not isinstance(r, list) or len(r) != len(pts):
            ck.fail(f"{name} ({w}): {str(r)[:200]}", {"m": o["m"], "b": o["b"]})
            continue
        for q, ro in zip(pts, r):
            x, rel, law = N.f64(N.num(q["x"])), q["rel"], N.ll(q["law"])
            ck.validated += 1
            for rt, got in ro.items():
                if rel["k"] == "pinf":
                    if val(got) == math.inf:
                        ck.passed()
                    else:
                        ck.fail(f"{name} at {x} ({w}): {rt} = {N.show(val(got))} where the other measure has density 0", {"m": o["m"], "b": o["b"], "x": x})
                    continue
                want = N.ll(rel["ll"])
                dev = N.ll(q["dev"][0]["ll"]) if q["dev"] else None
                compare(ck, o["m"]["f"], w, m, x, f"{rt} relative to {o['b']['f']}{tuple(b)}", got, N.Val(want.v, want.scale + law.scale), dev, "negbin-log-odds-form")


def m18_registry(ck):
    obl, _ = ck.tlc("Registry", f"SPECIFICATION Spec\nCONSTANT Len0 = {4 if ck.deep else 3}\nINVARIANTS InvLast InvAfter Emit\nCHECK_DEADLOCK FALSE\n")
    cs = [{"op": "registry", "h": h, "dflt": i % 2 == 1} for i, h in enumerate(obl)]
    for h, r in zip(obl, ck.harness(cs)):
        want = [[0, 0, 0]] + [[0 if p == 0 else 10.0 * p + t + 1 for t, p in enumerate(e["after"])] for e in h]
        ck.part("registry")
        ck.validated += 1
        if isinstance(r, dict) and r.get("seen") == want and r.get("optimizer") == [False, False]:
            ck.passed()
        else:
            ck.fail(f"pattern registry after {[(e['t'], e['p']) for e in h]}: {str(r)[:300]}, expected {want}", {"h": h})
