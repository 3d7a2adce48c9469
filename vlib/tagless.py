"""M14 (Tagless.tla, TaglessValues.tla; recorded trees and texts go through ExprJudge.tla and Reader.tla)"""
import json, math, re
import numpy as np
from fractions import Fraction
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl
from .expr import dec, parallel, Batch, judge, read_texts, near, hard, shown, outcome

SLACK = 12          # as for M12: the inline approximations of compiled code
BASE = {"c", "v", "add", "sub", "mul", "div", "pow", "neg", "ln", "exp", "sqrt", "sin", "cos"}
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "^"}


def enc(e):
    k = e["k"]
    if k == "c":
        return ["c", fl(e["a"][0])]
    if k == "v":
        return ["v", e["a"][0]]
    if k in BASE:
        return [k] + [enc(x) for x in e["a"]]
    return [k, [fl(c) for c in e["a"][0]], [enc(x) for x in e["a"][1]]]


def text(e):
    k = e["k"]
    if k == "c":
        return repr(float(N.num(e["a"][0])))
    if k == "v":
        return e["a"][0]
    if k in SYM:
        return f"({text(e['a'][0])} {SYM[k]} {text(e['a'][1])})"
    if k in BASE:
        return f"{k}({text(e['a'][0])})"
    cs, es = e["a"]
    return f"{k}({', '.join([str(float(N.num(c))) for c in cs] + [text(x) for x in es])})"


def cfg(ck, mode, n=7):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Mode = "{mode}"\n MaxOps = {n}\n'
            "INVARIANTS TypeOK InvHorner InvRoots InvPlain Emit\nCHECK_DEADLOCK FALSE\n")


def meaning(term, env, width, slack=0):
    """("ok", value) | ("undef",) | None when it is not decided in this width"""
    N.ENV, N.DEMOTE, N.SLACK = env, True, slack
    N.set_width(width)
    try:
        return ("ok", N.tval(term))
    except N.Ambiguous:
        return None
    except N.Undefined:
        return ("undef",)
    finally:
        N.ENV, N.DEMOTE, N.SLACK = {}, False, 0
        N.set_width("f64")


def klass(g):
    return "nan" if math.isnan(g) else "inf" if math.isinf(g) else "finite"


def deviation(e, got, width):
    """the recorded deviations: helpers without the stability they promise, and the shortened Poisson pattern"""
    k = e["k"]
    with np.errstate(all="ignore"):
        f = np.float32 if width == "f32" else np.float64
        if k in ("softplus", "ssoftplus", "lse"):
            args = [float(N.num(a["a"][0])) for a in e["a"][1] if a["k"] == "c"]
            if len(args) != len(e["a"][1]):
                return None
            s = f(0)
            for a in args + ([0.0] if k != "lse" else []):
                s = f(s + np.exp(f(a)))
            r = float(np.log(s))
            small = float(s) < float(np.finfo(f).tiny)
            if not (math.isinf(float(s)) or small) or (k == "lse" and len(args) == 1):
                return None
            same = got == r or (small and abs(got - r) <= 0.05 * abs(r))
            return (("softplus" if k != "lse" else "log-sum-exp") + ("-overflow" if math.isinf(float(s)) else "-underflow")) if same else None
    return None


def poisson(e, got, env):
    if e["k"] != "e.poisson":
        return None
    k = float(N.num(e["a"][1][0]["a"][0]))
    lam = e["a"][1][1]
    l = env["s"] if lam["k"] == "v" else Fraction(math.exp(env["y"]))
    l = float(l)
    want = k * math.log(l) - l - (math.log(k) if k else -math.inf)
    return "poisson-pattern-log-factorial" if got == want or abs(got - want) <= 1e-9 * (1 + abs(want) + k) else None


def points(o):
    xs = [N.num(v) for v in o["xs"]]
    return [{"x": x, "y": N.num(p[0]), "s": N.num(p[1])} for p in o["ps"] for x in xs]


def show(env, vs):
    return {k: float(v) for k, v in env.items() if k in vs}


def judge_values(chunk):
    b = Batch()
    b.known = []
    for o, r in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "text": name}
        if not isinstance(r, dict):
            b.fail(f"running {name}: {r}", det)
            continue
        pts = points(o)
        memo = {}
        ran = set()
        for who, gs in r["vals"].items():
            width = who[-3:]
            if gs is None:
                continue
            ran.add(who)
            jit = who.startswith("JITEval")
            if not isinstance(gs, list):
                b.fail(f"{who} of {name}: {gs}", dict(det, who=who))
                continue
            for i, (env, g) in enumerate(zip(pts, gs)):
                key = (i, width, jit)
                if key not in memo:
                    memo[key] = meaning(o["val"], env, width, SLACK if jit else 0)
                w = memo[key]
                if isinstance(g, str) and g.startswith("P:"):
                    b.fail(f"{who} of {name} at {show(env, o['vars'])} panics: {g[2:]}", dict(det, who=who))
                    continue
                v = val(g)
                if w is None:
                    b.part("undecided " + width)
                elif w[0] == "ok":
                    if N.close(v, w[1], width):
                        b.ok()
                        b.part(who)
                        continue
                    known = deviation(o["e"], v, width) or poisson(o["e"], v, env)
                    what = f"{who} of {name} at {show(env, o['vars'])} = {v!r}, should be {N.show(w[1])}"
                    if known:
                        b.known.append((what, known))
                    else:
                        b.fail(what, dict(det, who=who, at=show(env, o["vars"])))
                elif not jit or all(x["k"] in ("c", "v") for x in o["e"]["a"] if isinstance(x, dict)):
                    # no value (compiled ln and exp are not exact, so only single operations are compared there): the interpreters of one width still agree on the kind of answer
                    ref = r["vals"].get(f"DirectEval {width}") or r["vals"].get(f"mathjit DirectEval {width}")
                    if isinstance(ref, list) and isinstance(ref[i], str) and not ref[i].startswith("P:"):
                        if klass(val(ref[i])) == klass(v):
                            b.ok()
                            b.part("undefined alike")
                        else:
                            b.fail(f"{who} of {name} at {show(env, o['vars'])} = {v!r}, direct evaluation gives {val(ref[i])!r}", dict(det, who=who))
        want = expected(o)
        if ran != want:
            b.fail(f"{name}: interpreted by {sorted(ran)}, should be {sorted(want)}", det)
    return b


def kinds(e):
    if e["k"] in ("c", "v"):
        return set()
    if e["k"] in BASE:
        return set().union(*[kinds(x) for x in e["a"]])
    return {e["k"]}.union(*[kinds(x) for x in e["a"][1]])


STAT = {"slogistic", "ssoftplus", "sigmoid"}


def expected(o):
    """which interpreters can run it at all (rust's types decide that)"""
    ks = kinds(o["e"])
    out = set()
    for w in ("f64", "f32"):
        pat = any("." in k for k in ks)
        if "s" in o["langs"] and not (pat and w == "f32"):
            out |= {f"DirectEval {w}", f"JITEval {w}"}
            if not ks & STAT:
                out |= {f"ExpFamEval {w}", f"DistributionEval {w}"}
        if "m" in o["langs"]:
            out.add(f"mathjit DirectEval {w}")
    return out


def judge_trees(chunk):
    """recorded trees and texts read back: their exact meaning against the meaning of the program"""
    b = Batch()
    for o, which, shown_, j in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "which": which, "got": shown_}
        if "ok" in j and not j["ok"]:
            b.fail(f"{which} of {name} cannot be read: {shown_}", det)
            continue
        if not set(j["free"]) <= set(o["vars"]) or (o["plain"] and set(j["free"]) != set(o["vars"])):
            b.fail(f"{which} of {name} mentions {sorted(j['free'])}: {shown_}", det)
            continue
        for env in points(o):
            w = outcome(o["val"], [], env)
            if w is None:
                continue
            g = outcome(j["val"], [], env)
            if g is None:
                if o["e"]["k"] == "e.poisson" and N.num(o["e"]["a"][1][0]["a"][0]) == 0:
                    b.part("poisson-pattern-log-factorial")
                elif hard(j["val"], env):
                    b.fail(f"{which} of {name} has no value at {show(env, o['vars'])}, where it is {N.show(w[1])}: {shown_}", det)
            elif near(g[1], w[1]):
                b.ok()
                b.part(which)
            elif poisson(o["e"], float(g[1].v), env):
                b.part("poisson-pattern-log-factorial")
            else:
                b.fail(f"{which} of {name} denotes {N.show(g[1])} at {show(env, o['vars'])}, should be {N.show(w[1])}: {shown_}", dict(det, at=show(env, o["vars"])))
    return b


NUM = re.compile(r"(?<![A-Za-z_0-9.])\d+\.?\d*(?:[eE][+-]?\d+)?")


def widened(s, which):
    """a text printed from f32 numbers, with each number written out exactly"""
    if not which.endswith("f32"):
        return s
    return NUM.sub(lambda m: repr(float(np.float32(m.group(0)))), s)


def single(e):
    """are all its constants within the range of single precision?"""
    if e["k"] == "c":
        v = abs(N.num(e["a"][0]))
        return v == 0 or Fraction(2) ** -120 <= v <= Fraction(2) ** 120
    if e["k"] == "v":
        return True
    return all(single(x) for x in (e["a"] if e["k"] in BASE else e["a"][1]))


def m14(ck):
    obl = []
    for mode in ("helpers", "ops", "wide", "mags"):
        for o in ck.tlc("Tagless", cfg(ck, mode))[0]:
            obl.append(dict(o, mode=mode))
    n = 1200 if ck.deep else 120
    for k in ((7, 12) if ck.deep else (8,)):
        obl += [dict(o, mode="prog") for o in ck.tlc("Tagless", cfg(ck, "prog", k), simulate=n, depth=60)[0]]
    seen, todo = set(), []
    for o in obl:
        key = json.dumps([o["e"], o["xs"], o["ps"]])
        if key not in seen:
            seen.add(key)
            todo.append(o)
    obl = todo
    cases = [{"op": "tagless", "e": enc(o["e"]), "xs": [fl(v) for v in o["xs"]], "ps": [[fl(v) for v in p] for p in o["ps"]]} for o in obl]
    rs = ck.harness(cases)
    ck.validated += len(obl)
    run_values(ck, list(zip(obl, rs)))
    # what the interpreters record and print
    items, trip = [], []
    for o, r in zip(obl, rs):
        if not isinstance(r, dict) or o["mode"] == "wide":
            continue
        for which, t in r["trees"].items():
            if isinstance(t, str):
                ck.fail(f"{which} of {text(o['e'])}: {t}", {"e": enc(o["e"])})
            elif t is not None and (not which.endswith("f32") or single(o["e"])):
                trip.append((o, which, t, r["stats"] if which == "JITEval" else None))
        for which, s in r["texts"].items():
            if s is None:
                continue
            if s.startswith("P:"):
                ck.fail(f"{which} of {text(o['e'])}: {s}", {"e": enc(o["e"])})
            elif which.endswith("f32") and not single(o["e"]):
                ck.part("constants beyond single precision")
            elif "inf" not in s and "NaN" not in s:
                items.append((o, which, "infix", widened(s, which)))
    js = judge(ck, [(o, {"k": "c", "a": [[0, 1, 0]]}, t) for o, _, t, _ in trip])
    parallel(ck, judge_trees, [(o, which, json.dumps(t), j) for (o, which, t, _), j in zip(trip, js)])
    for (o, which, t, st), j in zip(trip, js):
        if st is not None:
            want = {"vars": sorted(j["free"]), "consts": j["consts"], "complexity": j["cost"]}
            if st == want:
                ck.passed()
                ck.part("statistics of compiled programs")
            else:
                ck.fail(f"statistics of {text(o['e'])}: {st}, should be {want}", {"tree": t})
    rd = read_texts(ck, items)
    parallel(ck, judge_trees, [(o, which, s, j) for (o, which, _, s), j in zip(items, rd)])
    values(ck)
    for k in ("DirectEval f64", "DirectEval f32", "ExpFamEval f64", "DistributionEval f32", "mathjit DirectEval f64", "JITEval f64", "JITEval f32", "PrettyPrint f64",
              "mathjit PrettyPrint f32", "own interpreter", "own mathjit interpreter", "undefined alike"):
        if not ck.parts.get(k) and not ck.nviol:
            raise ToolError(f"vacuous: no {k}")
    for o in obl[-3:]:
        ck.sample({"program": text(o["e"]), "libraries": o["langs"]})


def run_values(ck, pairs):
    size = max(1, min(200, len(pairs) // 32 + 1))
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        for b in ex.map(judge_values, [pairs[i:i + size] for i in range(0, len(pairs), size)]):
            ck.passed(b.passed)
            for k, n in b.parts.items():
                ck.part(k, n)
            for w, d in b.fails:
                ck.fail(w, d)
            for w, k in b.known:
                ck.fail(w, {}, k)
            ck.nviol += b.n - len(b.fails)


def values(ck):
    obl, _ = ck.tlc("TaglessValues", f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\nINVARIANTS TypeOK InvRoots InvSplit InvShape Emit\nCHECK_DEADLOCK FALSE\n")
    cases = [{"op": "taglessval", "k": o["k"], "p": [fl(v) for v in o["p"]], "q": [fl(v) for v in o["q"]]} for o in obl]
    rs = ck.harness(cases)
    ck.validated += len(obl)
    for o, c, r in zip(obl, cases, rs):
        what = f"{o['k']}({[float(N.num(v)) for v in o['p']][-40:]} of {len(o['p'])}, {[float(N.num(v)) for v in o['q']]})"
        if isinstance(r, dict):
            want = N.num(o["want"]["a"][0])
            for t, g in r.items():
                if t.startswith("u") and (o["k"] == "roots" or want < 0):
                    continue
                if t.startswith("f") and abs(want) >= 2 ** 24:
                    continue
                if g == str(want) or (want == 0 and g == "-0"):
                    ck.passed()
                    ck.part("polynomials in " + t)
                else:
                    ck.fail(f"{what} in {t} = {g}, should be {want}", c)
            continue
        if not isinstance(r, list):
            ck.fail(f"{what}: {r}", c)
            continue
        w = N.tval(o["want"])
        for g in r:
            if isinstance(g, str) and not g.startswith("P:") and N.close(val(g), w):
                ck.passed()
                ck.part(o["k"])
            else:
                ck.fail(f"{what} = {shown(g)}, should be {N.show(w)}", c)
