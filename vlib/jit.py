"""M12 (JitSession.tla; ExprSession.tla for the breadth of expressions)"""
import json, math
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl
from .expr import enc, text, outcome, agree, envf, shown, wanted, parallel, Batch, generate

SLACK = 12      # the inline approximations of ln and exp are documented to be good to about 4e-12


def cfg(ck, mode, n=12):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Mode = "{mode}"\n MaxSteps = {n}\nINVARIANTS TypeOK InvBind InvShape InvMade InvMarked Emit\n'
            + ("PROPERTY Stable\n" if mode != "session" else "") + "CHECK_DEADLOCK FALSE\n")


def envs(d):
    return {k: fl(v) for k, v in d.items()} if isinstance(d, dict) else {}


def step(s):
    if s["op"] == "compile":
        f = s["f"]
        return {"compile": {"e": enc(f["e"]), "route": f["route"], "data": f["data"], "params": f["params"], "consts": envs(f["consts"])}}
    return {"call": [s["i"] - 1, s["m"], [fl(v) for v in s["ds"]], [fl(v) for v in s["ps"]]]}


def judge_sessions(chunk):
    b = Batch()
    N.SLACK = SLACK
    memo = {}
    for o, r in chunk:
        steps = [s for s in o["steps"] if s["op"] != "end"]
        if not isinstance(r, list):
            f = steps[0]["f"]
            b.fail(f"session starting with {f['route']} of {text(f['e'])}: {r}", {"steps": [step(s) for s in steps]})
            continue
        fns = []
        for n, (s, g) in enumerate(zip(steps, r)):
            if s["op"] == "compile":
                fns.append(s)
                f = s["f"]
                what = f"{f['route']} of {text(f['e'])} data {f['data']} params {f['params']} constants {sorted(envs(f['consts']))}"
                det = {"steps": [step(q) for q in steps[:n + 1]]}
                if s["ok"]:
                    if g.get("ok") == [s["shape"], len(f["data"]), len(f["params"])]:
                        b.ok()
                        b.part("compiled by " + f["route"])
                    else:
                        b.fail(f"{what}: {g}, should have shape {s['shape']} {len(f['data'])} {len(f['params'])}", det)
                elif "err" in g:
                    b.ok()
                    b.part("refused to compile")
                else:
                    b.fail(f"{what}: {g}, should be refused", det)
                continue
            c = fns[s["i"] - 1]
            f = c["f"]
            if not c["ok"]:
                if g is not None:
                    b.fail(f"a refused function answers {g}", {"steps": [step(q) for q in steps[:n + 1]]})
                continue
            if not s["ok"]:
                if isinstance(g, str) and g.startswith("P:"):
                    b.ok()
                    b.part("refused calls")
                else:
                    b.fail(f"{f['route']} of {text(f['e'])}: call_{s['m']} with {len(s['ds'])} data and {len(s['ps'])} parameters answers {shown(g)}; the function takes {len(f['data'])} and {len(f['params'])}",
                           {"steps": [step(q) for q in steps[:n + 1]]})
                continue
            env = envf(s["env"])
            k = (json.dumps(c["f"]["e"]), tuple(sorted(env.items())))
            if k not in memo:
                memo[k] = outcome(c["val"], c["errs"], env)
            w = memo[k]
            if w is None or w[0] == "err":
                b.part("undecided or erroneous values")
                continue
            if agree(g, w):
                b.ok()
                b.part("calls of " + s["m"])
            else:
                b.fail(f"{f['route']} of {text(f['e'])}, {s['m']} data {dict(zip(f['data'], [float(N.num(v)) for v in s['ds']]))} params {dict(zip(f['params'], [float(N.num(v)) for v in s['ps']]))}"
                       f" = {shown(g)}, should be {wanted(w)}", {"steps": [step(q) for q in steps[:n + 1]]})
    return b


def judge_breadth(chunk):
    b = Batch()
    N.SLACK = SLACK
    for o, c, r in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "steps": c["steps"]}
        if not isinstance(r, list):
            b.fail(f"compiled {name}: {r}", det)
            continue
        memo = {}
        for (kind, route, env), g in zip(c["plan"], r):
            if kind == "c":
                if "ok" not in g:
                    b.fail(f"{route} of {name}: {g}", det)
                else:
                    b.ok()
                continue
            k = tuple(sorted(env.items()))
            if k not in memo:
                memo[k] = outcome(o["val"], o["errs"], {n: v for n, v in env.items() if n in o["vars"]}, True)
            w = memo[k]
            if w is None or w[0] == "err":
                b.part("undecided or erroneous values")
            elif agree(g, w):
                b.ok()
                b.part(route)
            else:
                b.fail(f"{route} of {name} at { {n: float(v) for n, v in env.items()} } = {shown(g)}, should be {wanted(w)}", det)
    return b


def breadth(ck):
    """every small expression and larger random ones, by both code generators"""
    obl = generate(ck, n_any=None if ck.deep else 250, n_poly=None if ck.deep else 60)
    cases = []
    for n, o in enumerate(obl):
        xs, ys = o["xs"], o["ys"]
        more = o["more"] if isinstance(o["more"], dict) else {}
        ks = {k: fl(v) for k, v in more.items()}
        e = enc(o["e"])
        mo = envf(more)
        steps, plan = [], []
        def add(route, data, params, consts, method, calls):
            steps.append({"compile": {"e": e, "route": route, "data": data, "params": params, "consts": consts}})
            plan.append(("c", route, {}))
            i = sum("compile" in s for s in steps) - 1
            for d, p in calls:
                steps.append({"call": [i, method, [fl(v) for v in d], [fl(v) for v in p]]})
                plan.append(("v", route + " " + method, dict(mo, **{**dict(zip(data, map(N.num, d))), **dict(zip(params, map(N.num, p)))})))
        pts = [(x, y) for x in xs for y in ys]
        add("expr", ["x"], ["y"], ks, "dp", [([x], [y]) for x, y in pts])
        add("tagless", ["y", "x"], [], ks, "batch", [([y, x], []) for x, y in pts])
        if n % 3 == 0:
            add("custom", ["x"], [], dict(ks, y=fl(ys[0])), "single", [([x], []) for x in xs])
            for q in range(len(xs)):
                plan[-1 - q][2]["y"] = N.num(ys[0])
        cases.append({"op": "jit", "steps": steps, "plan": plan, "risky": True})
    rs = ck.harness([{k: v for k, v in c.items() if k != "plan"} for c in cases])
    ck.validated += len(obl)
    parallel(ck, judge_breadth, list(zip(obl, cases, rs)))


def ends(ck):
    """elementary functions at the ends of their range: no value may be wrong and nothing may trap"""
    inf, nan = math.inf, math.nan
    args = [0.0, -0.0, 5e-324, 2.3e-308, 1e-300, 1.0, 709.7, 709.79, 710.0, 745.0, 746.0, 1e5, 1e10, 1e300, 1.7e308, inf, nan]
    args += [-a for a in args]
    v, c = ["v", "x"], lambda x: ["c", N.bits(float(x))]
    fns = {"exp": math.exp, "ln": math.log, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos}
    cases = []
    for k in fns:
        for route in ("expr", "tagless"):
            cases.append({"op": "jit", "risky": True, "k": k, "steps": [{"compile": {"e": [k, v], "route": route, "data": ["x"], "params": [], "consts": {}}}] + [{"call": [0, "single", [N.bits(a)], []]} for a in args]})
    for cs, r in zip(cases, ck.harness(cases)):
        if not isinstance(r, list):
            ck.fail(f"compiled {cs['k']} at the ends of its range: {r}", {"steps": cs["steps"]})
            continue
        for a, g in zip(args, r[1:]):
            try:
                w = fns[cs["k"]](a)
            except OverflowError:
                w = inf
            except ValueError:
                continue           # the interpreter reports an error here
            g = val(g)
            ok = g == w or (g != g and w != w) or (math.isfinite(w) and abs(g - w) <= 1e-10 * (abs(w) if cs["k"] == "exp" else 1 + abs(w)) + 1e-320)
            if cs["k"] == "exp" and 709.7 < a < 709.79:
                ok = True
            if ok:
                ck.passed()
                ck.part("ends of the range")
            else:
                ck.fail(f"compiled {cs['k']}({a}) = {g}, should be {w}", {"steps": cs["steps"][0]})


def m12(ck):
    obl = []
    for mode in ("partition", "wide"):
        obl += ck.tlc("JitSession", cfg(ck, mode))[0]
    obl += ck.tlc("JitSession", cfg(ck, "session", 40 if ck.deep else 24), simulate=400 if ck.deep else 60, depth=50)[0]
    rs = ck.harness([{"op": "jit", "steps": [step(s) for s in o["steps"] if s["op"] != "end"], "risky": True} for o in obl])
    ck.validated += len(obl)
    parallel(ck, judge_sessions, list(zip(obl, rs)))
    ck.sample({"steps": [step(s) for s in obl[-1]["steps"][:4] if s["op"] != "end"]})
    ends(ck)
    breadth(ck)
    for k in ("refused calls", "refused to compile", "calls of batch", "calls of dps", "compiled by custom", "compiled by auto", "custom single"):
        if not ck.parts.get(k) and not ck.nviol:
            raise ToolError(f"vacuous: no {k}")
