"""M16 (BayesSession.tla, ExprJudge.tla)"""
import math
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl
from .jit import SLACK
from .expr import enc, envf, shown, outcome, agree, near, judge, Batch, parallel, show_env, wanted
import mpmath

ASSUMPTIONS = ["a mixture component 700 or more below zero is only recognised as the known underflow, not compared more finely"]


def cfg(ck, mode, n):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Mode = "{mode}"\n MaxSteps = {n}\nINVARIANTS InvLatest InvTold InvBind InvLaws Emit\n'
            + ("PROPERTY Own\n" if mode != "session" else "") + "CHECK_DEADLOCK FALSE\n")


def model(m):
    """a model as the harness reads it"""
    return {"k": m["k"], "v": m["v"], "n": [fl(q) for q in m["n"]], "s": [model(q) for q in m["s"]], "e": enc(m["e"])}


def text(m):
    n = [float(N.num(q)) for q in m["n"]]
    k = m["k"]
    if k in ("lik", "var"):
        return f"{k}({', '.join(m['v'])})"
    if k in ("post", "mixs"):
        return f"{k}({', '.join([str(n)] * (k == 'mixs') + [text(q) for q in m['s']])})"
    from .expr import text as etext
    return f"{k}({', '.join(m['v'] + [str(q) for q in n] + [etext(m['e'])] * (k in ('raw', 'reg')))})"


def floats(d):
    return {k: fl(v) for k, v in d.items()} if isinstance(d, dict) else {}


def meaning(den, env):
    """("ok", value), ("none",) where the model names no density, or None when undecided"""
    N.ENV, N.DEMOTE = env, True
    try:
        return ("ok", N.tval(den))
    except N.Ambiguous:
        return None
    except N.Undefined:
        return ("none",)
    finally:
        N.ENV, N.DEMOTE = {}, False


def deviant(got, want, exps, env, compiled):
    """is it the known deviation?  where every exponential of a mixture is below e^-745 their sum is zero: the interpreter
    reports ln(0), compiled code has -inf; a little above, the sum is only right to a few denormals"""
    if want is None or want[0] != "ok":
        return False
    N.ENV, N.DEMOTE = env, True
    sums = []
    try:
        for parts in exps:
            vs = [N.tval(p).v for p in parts]
            m = max(vs, default=-N.INF)
            if m != -N.INF:
                sums.append(m + mpmath.log(sum(mpmath.exp(v - m) for v in vs)))
    except (N.Ambiguous, N.Undefined):
        return False
    finally:
        N.ENV, N.DEMOTE = {}, False
    if not any(s < -700 for s in sums):
        return False
    if isinstance(got, list):
        return not compiled and got[0] == "ln" and val(got[1]) == 0 and any(s < -741 for s in sums)
    if not isinstance(got, str) or got.startswith("P:"):
        return False
    g = val(got)
    if g == -math.inf:
        return compiled and any(s < -741 for s in sums)
    if not math.isfinite(g):
        return False
    lost = sum(min(N.mpf(5), 16 * mpmath.exp(-s) * N.mpf(2) ** -1074) for s in sums if s < -700)
    return abs(g - want[1].v) <= lost + N.mpf(1e-9) * (abs(want[1].v) + want[1].scale)


def judge_models(chunk):
    b = Batch()
    N.SLACK = 0
    for o, r, j in chunk:
        m = o["m"]
        name = text(m)
        det = {"model": model(m)}
        if not o["well"]:
            if isinstance(r, dict) and "refused" in r and r["alias"]:
                b.ok()
                b.part("refused models")
            else:
                b.fail(f"{name} is accepted, although its lists have different lengths", det)
            continue
        if not isinstance(r, dict) or "refused" in r:
            b.fail(f"{name}: {r}", det)
            continue
        if not r["alias"]:
            b.fail(f"{name} built by the short names is a different expression", det)
        if sorted(o["mvars"]) != r["vars"]:
            b.fail(f"{name} mentions {r['vars']}, should mention {sorted(o['mvars'])}", det)
        else:
            b.ok(2)
        for env, got in zip([envf(e) for e in o["envs"]], r["values"]):
            at = dict(det, at=show_env(env))
            w = meaning(o["den"], env)
            if w is None:
                b.part("undecided")
                continue
            for l in o["laws"]:
                q = meaning(l, env)
                if q is not None and q[0] == "ok" and w[0] == "ok":
                    if not near(q[1], w[1]):
                        raise ToolError(f"the specification contradicts itself: {name} at {env}: {q[1].v} {w[1].v}")
                    b.part("laws")
            if w[0] == "none":
                if isinstance(got, list):
                    b.ok()
                    b.part("no value")
                else:
                    b.fail(f"{name} at {show_env(env)} = {shown(got)}, but it has no value there", at)
                continue
            if agree(got, w):
                b.ok()
                b.part(m["k"])
                if w[1].v == -N.INF:
                    b.part("minus infinity")
            elif deviant(got, w, o["exps"], env, False):
                b.part("known:mixture-underflow")
            else:
                b.fail(f"{name} at {show_env(env)} = {shown(got)}, should be {N.show(w[1])}", at)
            g = outcome(j["val"], j["errs"], env)
            if g is None:
                b.part("tree undecided")
            elif g[0] == "ok" and near(g[1], w[1]):
                b.ok()
                b.part("trees")
            else:
                b.fail(f"the expression of {name} denotes {wanted(g)} at {show_env(env)}, should be {N.show(w[1])}", at)
    return b


def step(s):
    if s["op"] == "compile":
        f = s["f"]
        return {"compile": [s["slot"], model(f["m"]), f["data"], f["params"], floats(f["consts"])]}
    return {"eval": [s["slot"], [fl(v) for v in s["ds"]], [fl(v) for v in s["ps"]]]}


def judge_sessions(chunk):
    b = Batch()
    N.SLACK = SLACK
    for o, r in chunk:
        steps = [s for s in o["steps"] if s["op"] != "end"]
        det = {"steps": [step(s) for s in steps[:30]]}
        if not isinstance(r, list):
            b.fail(f"history: {r}", det)
            continue
        held = {}
        for n, (s, g) in enumerate(zip(steps, r)):
            det = {"steps": [step(q) for q in steps[max(0, n - 12):n + 1]]}
            if s["op"] == "compile":
                f = s["f"]
                what = f"compiling {s['slot']} {text(f['m'])} data {f['data']} params {f['params']} constants {sorted(floats(f['consts']))}"
                if s["ok"]:
                    held[s["slot"]] = what
                    if g == "ok":
                        b.ok()
                        b.part("compiled")
                    else:
                        b.fail(f"{what}: {g}", det)
                elif isinstance(g, dict) and "err" in g:
                    b.ok()
                    b.part("not compiled")
                else:
                    b.fail(f"{what}: {g}, should be refused", det)
                continue
            what = f"evaluating {s['slot']} ({held.get(s['slot'], 'empty')}) with data {[float(N.num(v)) for v in s['ds']]} params {[float(N.num(v)) for v in s['ps']]}"
            if s["answer"] == "nothing":
                if g is None:
                    b.ok()
                    b.part("nothing")
                else:
                    b.fail(f"{what} gives {shown(g)}, although nothing was compiled", det)
            elif s["answer"] == "refused":
                if isinstance(g, str) and g.startswith("P:"):
                    b.ok()
                    b.part("refused")
                else:
                    b.fail(f"{what} gives {shown(g)}, should be refused", det)
            else:
                env = envf(s["env"])
                w = meaning(s["den"], env)
                if g is None or isinstance(g, str) and g.startswith("P:"):
                    b.fail(f"{what} gives {g}", det)
                elif w is None or w[0] == "none":
                    b.part("undecided or no value")
                elif agree(g, w):
                    b.ok()
                    b.part("values of the " + s["slot"])
                elif deviant(g, w, s["exps"], env, True):
                    b.part("known:mixture-underflow")
                else:
                    b.fail(f"{what} = {shown(g)}, should be {N.show(w[1])}", det)
    return b


def known(ck):
    for k in [k for k in ck.parts if k.startswith("known:")]:
        n, key = ck.parts.pop(k), k[6:]
        for _ in range(n):
            ck.fail(f"deviation {key}, which is not listed", {}, finding=key)


def m16(ck):
    obl, _ = ck.tlc("BayesSession", cfg(ck, "models", 1))
    ms = [o["steps"][0] for o in obl]
    rs = ck.harness([{"op": "bayesmodel", "m": model(o["m"]), "envs": [floats(e) for e in o["envs"]]} for o in ms])
    triples = [(o, {"k": "c", "a": [[0, 1, 0]]}, r["tree"]) for o, r in zip(ms, rs) if isinstance(r, dict) and "tree" in r]
    js = iter(judge(ck, triples))
    ck.validated += len(ms)
    parallel(ck, judge_models, [(o, r, next(js) if isinstance(r, dict) and "tree" in r else None) for o, r in zip(ms, rs)])
    ses = ck.tlc("BayesSession", cfg(ck, "divide", 2))[0]
    ses += ck.tlc("BayesSession", cfg(ck, "slots", 4 if ck.deep else 3))[0]
    ses += ck.tlc("BayesSession", cfg(ck, "session", 60 if ck.deep else 30), simulate=120 if ck.deep else 12, depth=70)[0]
    rs = ck.harness([{"op": "bayes", "default": n % 2 == 0, "steps": [step(s) for s in o["steps"] if s["op"] != "end"], "risky": True} for n, o in enumerate(ses)])
    ck.validated += len(ses)
    parallel(ck, judge_sessions, list(zip(ses, rs)))
    known(ck)
    ck.sample({"model": text(ms[-1]["m"])})
    ck.sample({"steps": [step(s) for s in ses[-1]["steps"][:4] if s["op"] != "end"]})
    for k in ("refused models", "no value", "laws", "trees", "hier", "mix", "mixs", "reg", "nothing", "refused", "not compiled", "values of the prior", "minus infinity"):
        if not ck.parts.get(k) and not ck.nviol:
            raise ToolError(f"vacuous: no {k}")
