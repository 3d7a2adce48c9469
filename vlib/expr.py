"""M09 (ExprSession.tla), M10 (+ ExprJudge.tla), M15 (+ Reader.tla), M19 (SymbolicSession.tla)"""
import ast, json, math, os, re
import numpy as np
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl

INVS = "TypeOK InvSubst InvFree InvBound InvDepth Emit"


def cfg(ck, ops, small, shape="any", spec="Spec", invs=INVS, more=""):
    return (f"SPECIFICATION {spec}\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxOps = {ops}\n Small = {'TRUE' if small else 'FALSE'}\n Shape = \"{shape}\"\n{more}"
            f"INVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n")


def enc(e):
    """an expression of Expr.tla as the harness reads it"""
    k = e["k"]
    if k == "c":
        return ["c", fl(e["a"][0])]
    if k == "v":
        return ["v", e["a"][0]]
    return [k] + [enc(x) for x in e["a"]]


def dec(v):
    """a recorded expression as Expr.tla reads it"""
    k = v[0]
    if k == "c":
        return {"k": "b", "a": [v[1]]}
    if k == "v":
        return {"k": "v", "a": [v[1]]}
    return {"k": k, "a": [dec(x) for x in v[1:]]}


SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "^"}


def text(e):
    k = e["k"]
    if k == "c":
        return str(float(N.num(e["a"][0])))
    if k == "b":
        return str(N.unbits(e["a"][0]))
    if k == "v":
        return e["a"][0]
    if k in SYM:
        return f"({text(e['a'][0])} {SYM[k]} {text(e['a'][1])})"
    return f"{k}({text(e['a'][0])})"


def grid_cfg(ck, mode):
    return f'SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Mode = "{mode}"\n Width = {20 if ck.deep else 3}\nINVARIANTS TypeOK InvNeutral Emit\nCHECK_DEADLOCK FALSE\n'


def generate(ck, exhaustive=True, n_any=None, n_poly=None, magnitudes=True, long_sums=True):
    """the expressions the model builds, with their meaning"""
    obl = []
    if magnitudes:
        obl += ck.tlc("ExprGrid", grid_cfg(ck, "one"))[0] + ck.tlc("ExprGrid", grid_cfg(ck, "two"))[0]
    obl += ck.tlc("ExprGrid", grid_cfg(ck, "tall"))[0]
    if long_sums:
        obl += ck.tlc("ExprGrid", grid_cfg(ck, "long"))[0]
    if exhaustive:
        obl += ck.tlc("ExprSession", cfg(ck, 2, True))[0]
    a, p = (3000, 600) if ck.deep else (500, 200)
    a, p = n_any if n_any is not None else a, n_poly if n_poly is not None else p
    obl += ck.tlc("ExprSession", cfg(ck, 9 if ck.deep else 7, False), simulate=a, depth=40)[0]
    obl += ck.tlc("ExprSession", cfg(ck, 7, False, "poly"), simulate=p, depth=30)[0]
    seen, out = set(), []
    for o in obl:
        k = json.dumps(o["e"]) + json.dumps(o["xs"])
        if k not in seen:
            seen.add(k)
            out.append(o)
    return out


# ---- meaning ----------------------------------------------------------------------------------
def envf(d):
    return {k: N.num(v) for k, v in d.items()} if isinstance(d, dict) else {}


def soft(t):
    """does some part of the term have no value for a reason that evaluators need not report?"""
    if t["o"] == "pow":
        try:
            N.term(t)
        except N.Soft:
            return True
        except N.Undefined:
            pass
    return any(soft(x) for x in t["a"] if isinstance(x, dict) and "o" in x)


def ieee_pow(t):
    """a single power of leaves that has no real value is what the floating-point standard makes of it"""
    if t["o"] != "pow" or any(x["o"] not in ("q", "v") for x in t["a"]):
        return None
    with np.errstate(all="ignore"):
        u, v = (np.float64(float(N.term(x)[0])) for x in t["a"])
        return ("ieee", float(np.power(u, v)))


def outcome(val_, errs, env, ieee=False):
    """("ok", value) | ("err", [(kind, payload)]) | None when the model does not decide | ("ieee", float)"""
    N.ENV, N.DEMOTE = env, True
    try:
        found = []
        for q in errs:
            try:
                if N.cond(q["c"]):
                    found.append((q["kind"], q["c"]["a"][0] if q["kind"] == "var" else N.tval(q["w"])))
            except N.Undefined:
                pass
        if soft(val_):
            return ieee_pow(val_) if ieee and not found else None
        if found:
            return ("err", found)
        return ("ok", N.tval(val_))
    except N.Ambiguous:
        return None
    except N.Undefined:
        return None
    finally:
        N.ENV, N.DEMOTE = {}, False


def err_in(got, errs):
    if not isinstance(got, list) or not got:
        return False
    for kind, w in errs:
        if got[0] != kind:
            continue
        if kind == "var":
            if got[1] == w:
                return True
        elif kind == "div" or N.close(val(got[1]), w):
            return True
    return False


def agree(got, want, tol=1):
    """does one recorded result agree with the outcome the model computes?"""
    if want is None:
        return True
    if want[0] == "ieee":
        return isinstance(got, str) and not got.startswith("P:") and (val(got) == want[1] or val(got) != val(got) and want[1] != want[1])
    if want[0] == "ok":
        return isinstance(got, str) and not got.startswith("P:") and N.close(val(got), want[1], "f64", tol)
    return err_in(got, want[1])


def shown(got):
    if isinstance(got, str) and not got.startswith("P:"):
        return repr(val(got))
    return str(got)


def wanted(w):
    if w is None:
        return "undecided"
    if w[0] == "ieee":
        return str(w[1])
    if w[0] == "ok":
        return N.show(w[1])
    return "error " + " or ".join(str((k, p if isinstance(p, str) else N.show(p))) for k, p in w[1])


class Batch:
    """results of a worker process, merged into the check"""
    def __init__(self):
        self.passed, self.fails, self.parts, self.n = 0, [], {}, 0

    def ok(self, n=1):
        self.passed += n

    def part(self, k, n=1):
        self.parts[k] = self.parts.get(k, 0) + n

    def fail(self, what, det):
        self.n += 1
        if len(self.fails) < 20:
            self.fails.append((what, det))


def parallel(ck, fn, items, procs=8):
    if not items:
        return
    size = max(1, min(400, len(items) // (procs * 4) + 1))
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    with ProcessPoolExecutor(procs) as ex:
        for b in ex.map(fn, chunks):
            ck.passed(b.passed)
            for k, n in b.parts.items():
                ck.part(k, n)
            for w, d in b.fails:
                ck.fail(w, d)
            ck.nviol += b.n - len(b.fails)


# ---- M09 ----------------------------------------------------------------------------------------
def judge_eval(chunk):
    b = Batch()
    for o, r in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "text": name}
        if not isinstance(r, dict):
            b.fail(f"{name}: {r}", det)
            continue
        xs, ys = [N.num(v) for v in o["xs"]], [N.num(v) for v in o["ys"]]
        more = envf(o["more"])
        memo = {}

        def at(env):
            env = {k: v for k, v in env.items() if k in o["vars"]}
            k = tuple(sorted(env.items()))
            if k not in memo:
                memo[k] = outcome(o["val"], o["errs"], env, True)
            return memo[k]

        def one(route, got, want, at_):
            if agree(got, want):
                b.ok()
                b.part(route if want is not None else route + " undecided")
                if want is not None and want[0] != "ok":
                    b.part(route + (" errors" if want[0] == "err" else " without a real value"))
            else:
                b.fail(f"{route} of {name} at {at_} = {shown(got)}, should be {wanted(want)}", dict(det, route=route, at=str(at_)))

        def many(route, got, wants):
            """a batch: all values in order, or one of the errors"""
            if not isinstance(got, dict):
                b.fail(f"{route} of {name}: {got}", det)
                return
            errs = [e for w in wants if w is not None and w[0] == "err" for e in w[1]]
            if "ok" in got:
                if errs or len(got["ok"]) != len(wants):
                    b.fail(f"{route} of {name} = {[shown(g) for g in got['ok']]}, should be {[wanted(w) for w in wants]}", dict(det, route=route))
                    return
                for i, (g, w) in enumerate(zip(got["ok"], wants)):
                    one(route, g, w, f"input {i}")
            elif any(w is None for w in wants) or err_in(got["err"], errs):
                b.ok()
            else:
                b.fail(f"{route} of {name} reports {got['err']}, should be {[wanted(w) for w in wants]}", dict(det, route=route))

        full = [[at(dict(more, x=x, y=y)) for x in xs] for y in ys]
        for j, y in enumerate(ys):
            for i, x in enumerate(xs):
                one("evaluate", r["full"][j][i], full[j][i], {"x": float(x), "y": float(y)})
        many("evaluate_batch_vars", r["sets"], [w for row in full for w in row])
        two = [[at({"x": x, "y": y}) for x in xs] for y in ys]
        flat = lambda g: {"ok": [v for row in g["ok"] for v in row]} if isinstance(g, dict) and "ok" in g else g
        for route, g, wants in (("evaluate_grid", r["grid"], two), ("evaluate_grid yx", r["dirg"], [[two[j][i] for j in range(len(ys))] for i in range(len(xs))])):
            if isinstance(g, dict) and "ok" in g and [len(row) for row in g["ok"]] != [len(row) for row in wants]:
                b.fail(f"{route} of {name}: shape {[len(row) for row in g['ok']]}", det)
            else:
                many(route, flat(g), [w for row in wants for w in row])
        for n, vs in (("x", xs), ("y", ys)):
            ws = [at({n: v}) for v in vs]
            q = r[n]
            for i, v in enumerate(vs):
                for k, route in (("evaluate", "evaluate"), ("single_var", "evaluate_single_var"), ("smart", "evaluate_smart")):
                    one(route, q[k][i], ws[i], {n: float(v)})
                for k in ("polynomial", "linear"):
                    g = q[k][i]
                    if g is None:
                        b.part(k + " declined")
                        continue
                    one("evaluate_" + k, g, ws[i], {n: float(v)})
                if q["coefficients"] is not None and ws[i] is not None:
                    a, c = (Fraction(val(z)) for z in q["coefficients"])
                    if ws[i][0] == "ok" and abs(N.tomp(a * v + c) - ws[i][1].v) <= N.mpf(1e-12) * (ws[i][1].scale + abs(ws[i][1].v)):
                        b.ok()
                        b.part("coefficients")
                    else:
                        b.fail(f"extract_linear_coefficients({n}) of {name} = {float(a), float(c)}, but its value at {float(v)} is {wanted(ws[i])}", det)
            many("evaluate_batch", q["batch"], ws)
            many("evaluate_batch_optimized", q["batch_optimized"], ws)
        one("evaluate", r["none"], at({}), {})
        if all(g == {"ok": []} for g in r["empty"]):
            b.ok()
        else:
            b.fail(f"batches of {name} over no inputs = {r['empty']}", det)
        if r["routes"]:
            b.fail(f"{name} built by another route is {r['routes']}", det)
        if r["complexity"] != o["ops"] or sorted(o["vars"]) != r["variables"]:
            b.fail(f"{name}: complexity {r['complexity']}, variables {r['variables']}; should be {o['ops']}, {sorted(o['vars'])}", det)
        else:
            b.ok(2)
    return b


def case(o, want):
    return {"op": "expr", "e": enc(o["e"]), "xs": [fl(v) for v in o["xs"]], "ys": [fl(v) for v in o["ys"]],
            "more": {k: fl(v) for k, v in o["more"].items()} if isinstance(o["more"], dict) else {}, "want": want}


def m09(ck):
    obl = generate(ck)
    rs = ck.harness([case(o, ["routes", "eval"]) for o in obl])
    ck.validated += len(obl)
    parallel(ck, judge_eval, list(zip(obl, rs)))
    for k in ("evaluate_polynomial", "evaluate_linear", "evaluate errors", "evaluate_single_var errors", "coefficients"):
        if not ck.parts.get(k) and not ck.nviol:
            raise ToolError(f"vacuous: no {k}")
    ck.sample({"e": text(obl[-1]["e"]), "xs": [float(N.num(v)) for v in obl[-1]["xs"]]})
    builders(ck)


def builders(ck):
    """helpers that build expressions, and the expr! macro"""
    obl, _ = ck.tlc("ExprBuilders", f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n")
    cases = [{"op": "builder", "name": o["b"]["name"], "p": [fl(v) for v in o["b"]["p"]], "es": [enc(e) for e in o["b"]["es"]]} for o in obl]
    rs = ck.harness(cases)
    good = []
    for o, c, r in zip(obl, cases, rs):
        if isinstance(r, list):
            good.append((o, r))
        else:
            ck.fail(f"builder {c['name']}: {r}", c)
    judged = judge(ck, [(o, {"k": "c", "a": [[0, 1, 0]]}, r) for o, r in good])
    for (o, r), j in zip(good, judged):
        ck.validated += 1
        for env in o["envs"]:
            w = outcome(o["b"]["want"], [], envf(env))
            g = outcome(j["val"], j["errs"], envf(env))
            if w is None:
                continue
            if g is not None and g[0] == "ok" and near(g[1], w[1]):
                ck.passed()
                ck.part("builders")
            elif g is not None:
                ck.fail(f"{o['b']['name']}({[float(N.num(p)) for p in o['b']['p']]}, {[text(e) for e in o['b']['es']]}) at {env} denotes {wanted(g)}, should be {N.show(w[1])}", {"tree": r})
    got = ck.harness([{"op": "macros"}])[0]
    v, c = (lambda s: ["v", s]), (lambda x: ["c", N.bits(float(x))])
    want = {"x": v("x"), "2.5": c(2.5), "3": c(3), "x+y": ["add", v("x"), v("y")], "x-y": ["sub", v("x"), v("y")], "x*y": ["mul", v("x"), v("y")],
            "x/y": ["div", v("x"), v("y")], "x^2.0": ["pow", v("x"), c(2)], "2.0*x": ["mul", c(2), v("x")], "ln x": ["ln", v("x")], "exp x": ["exp", v("x")],
            "sqrt x": ["sqrt", v("x")], "sin x": ["sin", v("x")], "cos y": ["cos", v("y")]}
    for k, w in want.items():
        if isinstance(got, dict) and got.get(k) == w:
            ck.passed()
        else:
            ck.fail(f"expr!({k}) builds {got.get(k) if isinstance(got, dict) else got}", {"form": k})


def near(g, w):
    """two exact meanings, equal up to the rounding of the constants involved"""
    if abs(w.v) == N.INF or abs(g.v) == N.INF:
        return g.v == w.v
    return abs(g.v - w.v) <= N.mpf(1e-12) * (w.scale + g.scale * N.mpf(1e-3) + abs(w.v)) + N.mpf(1e-290)


def run_model(ck, module, recs, invs):
    """a second TLC run over what was recorded from the code"""
    if not recs:
        return []
    path = os.path.join(ck.work, f"{module}{len(ck.runs)}.ndjson")
    with open(path, "w") as f:
        for i, r in enumerate(recs):
            f.write(json.dumps(dict(r, id=i)) + "\n")
    obl, _ = ck.tlc(module, f'SPECIFICATION Spec\nCONSTANTS\n File = "{path}"\n Count = {len(recs)}\n Blocks = {min(len(recs), 64)}\n'
                            f"INVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n")
    out = [None] * len(recs)
    for o in obl:
        out[o["id"]] = o
    if any(o is None for o in out):
        raise ToolError(f"{module} did not judge every record")
    return out


def judge(ck, triples):
    return run_model(ck, "ExprJudge", [{"e": e, "s": dec(s)} for _, e, s in triples], "TypeOK Emit")


# ---- M10 ----------------------------------------------------------------------------------------
def grid(o):
    xs, ys = [N.num(v) for v in o["xs"]], [N.num(v) for v in o["ys"]]
    more = envf(o["more"])
    seen, out = set(), []
    for x in xs:
        for y in ys:
            e = {k: v for k, v in dict(more, x=x, y=y).items() if k in o["vars"]}
            k = tuple(sorted(e.items()))
            if k not in seen:
                seen.add(k)
                out.append(e)
    return out


def judge_same(chunk):
    b = Batch()
    for o, which, tree, j in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "text": name, "which": which, "result": tree}
        for env in grid(o):
            w = outcome(o["val"], o["errs"], env)
            if w is None or w[0] != "ok":
                continue
            g = outcome(j["val"], j["errs"], env)
            if g is None:
                if hard(j["val"], env):
                    b.fail(f"{which} of {name} has no value at {show_env(env)}, where it is {N.show(w[1])}", det)
                else:
                    b.part("undecided")
            elif g[0] == "ok" and near(g[1], w[1]):
                b.ok()
                b.part(which)
            else:
                b.fail(f"{which} of {name} is {wanted(g)} at {show_env(env)}, should be {N.show(w[1])}", dict(det, at=show_env(env)))
    return b


def hard(v, env):
    """the term is undefined, not merely undecided"""
    N.ENV, N.DEMOTE = env, True
    try:
        N.term(v)
        return False
    except N.Ambiguous:
        return False
    except N.Undefined:
        return True
    finally:
        N.ENV, N.DEMOTE = {}, False


def show_env(env):
    return {k: float(v) for k, v in env.items()}


def rewritten(ck, obl, rs, keys, ops=True):
    """judge every tree the code made from an expression"""
    trip = []
    for o, r in zip(obl, rs):
        for k in keys:
            t = r[k] if isinstance(r, dict) else r
            if not isinstance(t, list):
                ck.fail(f"{k} of {text(o['e'])}: {t}", {"e": enc(o["e"])})
            elif t == enc(o["e"]):
                ck.part(k + " unchanged")
                if o["redex"]:
                    ck.fail(f"{k} of {text(o['e'])} takes nothing away", {"e": enc(o["e"])})
                else:
                    ck.passed()
            else:
                trip.append((o, k, t))
    js = judge(ck, [(o, o["e"], t) for o, _, t in trip])
    for (o, k, t), j in zip(trip, js):
        if j["vars"] and not ops and j["mass"] > o["mass"]:
            ck.fail(f"{k} of {text(o['e'])} = {text(dec(t))} is a bigger tree", {"e": enc(o["e"])})
        elif not j["vars"] or (ops and not j["ops"]):
            ck.fail(f"{k} of {text(o['e'])} = {text(dec(t))}: " + ("introduces a variable" if not j["vars"] else f"has {j['n']} operations, the original {o['ops']}"), {"e": enc(o["e"])})
        elif o["redex"] and (j["n"] >= o["ops"] if ops else j["mass"] >= o["mass"]):
            ck.fail(f"{k} of {text(o['e'])} = {text(dec(t))} takes nothing away", {"e": enc(o["e"])})
        else:
            ck.passed(2)
    parallel(ck, judge_same, [(o, k, t, j) for (o, k, t), j in zip(trip, js)])
    return len(trip)


def m10(ck):
    obl = generate(ck)
    rs = ck.harness([case(o, ["simp"]) for o in obl])
    ck.validated += len(obl)
    n = rewritten(ck, obl, rs, ["simp", "simp2"])
    if n < 1000:
        raise ToolError(f"vacuous: only {n} expressions were rewritten")
    for o, r in list(zip(obl, rs))[-3:]:
        ck.sample({"e": text(o["e"]), "simplified": text(dec(r["simp"]))})


# ---- M15 ----------------------------------------------------------------------------------------
LEX = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?)|(math\.[a-z]+|\\[a-z]+|[A-Za-z_][A-Za-z_0-9]*)|(\*\*|[-+*/^(){}]))")
JUXT = re.compile(r"\s*(?:(\d+\.?\d*)|(\\[a-z]+|[A-Za-z_][A-Za-z_0-9]*)|([-+*/^(){}]))")


CONSTANTS = {"math.e": math.e, "math.pi": math.pi}


def lex(s, nt):
    s = s.replace("\\left(", "(").replace("\\right)", ")")
    out, p = [], 0
    rx = JUXT if nt == "latex" else LEX
    s = s.rstrip()
    while p < len(s):
        m = rx.match(s, p)
        if not m:
            return None
        p = m.end()
        if m.group(1):
            out.append({"t": "num", "s": N.bits(float(m.group(1)))})
        elif nt == "python" and m.group(2) in CONSTANTS:
            out.append({"t": "num", "s": N.bits(CONSTANTS[m.group(2)])})
        elif m.group(2):
            out.append({"t": "id", "s": m.group(2)})
        else:
            out.append({"t": "sym", "s": m.group(3)})
    return out


def pytree(s):
    """Python's own reading of a text, to hold the reader of the model against"""
    ops = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow"}
    fn = {"log": "ln", "exp": "exp", "sqrt": "sqrt", "sin": "sin", "cos": "cos"}

    def go(n):
        if isinstance(n, ast.BinOp):
            return {"k": ops[type(n.op)], "a": [go(n.left), go(n.right)]}
        if isinstance(n, ast.UnaryOp):
            return {"k": "neg", "a": [go(n.operand)]}
        if isinstance(n, ast.Call):
            return {"k": fn[n.func.attr], "a": [go(n.args[0])]}
        if isinstance(n, ast.Constant):
            return {"k": "b", "a": [N.bits(float(n.value))]}
        if isinstance(n, ast.Attribute):
            return {"k": "b", "a": [N.bits(CONSTANTS[f"{n.value.id}.{n.attr}"])]}
        return {"k": "v", "a": [n.id]}
    return go(ast.parse(s, mode="eval").body)


def bitsform(e):
    return {"k": "b", "a": [fl(e["a"][0])]} if e["k"] == "c" else e if e["k"] in ("v", "b") else {"k": e["k"], "a": [bitsform(x) for x in e["a"]]}


def stripped(which, s):
    if which == "equation":
        return s[4:] if s.startswith("f = ") else None
    if which == "dlatex":
        return s[1:-1] if s.startswith("$") and s.endswith("$") else None
    if which == "dpython":
        return s[len("lambda vars: "):] if s.startswith("lambda vars: ") else None
    return s


NOTATION = {"infix": "infix", "pretty": "infix", "equation": "infix", "latex": "latex", "dlatex": "latex", "python": "python", "dpython": "python"}


def judge_text(chunk):
    b = Batch()
    for o, which, s, j in chunk:
        name = text(o["e"])
        det = {"e": enc(o["e"]), "text": s, "which": which}
        if not j["ok"]:
            b.fail(f"{which} text of {name} cannot be read: {s}", det)
            continue
        if set(j["free"]) != set(o["vars"]):
            # a factor 1 or the like may hide nothing: every variable must still be there
            b.fail(f"{which} text of {name} mentions {sorted(j['free'])}: {s}", det)
            continue
        if j["e"] == bitsform(o["e"]):
            b.ok()
            b.part(which + " identical")
            continue
        for env in grid(o):
            w = outcome(o["val"], o["errs"], env)
            if w is None or w[0] != "ok":
                continue
            g = outcome(j["val"], [], env)
            if g is None:
                if hard(j["val"], env):
                    b.fail(f"{which} text of {name} has no value at {show_env(env)}, where it is {N.show(w[1])}: {s}", det)
            elif near(g[1], w[1]):
                b.ok()
                b.part(which)
            else:
                b.fail(f"{which} text of {name} reads as {text(j['e'])} = {N.show(g[1])} at {show_env(env)}, should be {N.show(w[1])}: {s}", det)
    return b


def read_texts(ck, items):
    """items: (obligation, which, notation, text); returns the model's readings"""
    recs, keys = [], {}
    for o, which, nt, s in items:
        if (nt, s) not in keys:
            keys[(nt, s)] = len(recs)
            recs.append({"nt": nt, "ts": lex(s, nt) or [{"t": "sym", "s": "?"}]})
    out = run_model(ck, "Reader", recs, "TypeOK InvRoundTrip Emit")
    for (nt, s), i in keys.items():
        if nt == "python" and out[i]["ok"] and i % 5 == 0:
            try:
                own = pytree(s)
            except Exception as e:
                own = str(e)
            if own != out[i]["e"]:
                raise ToolError(f"the reader and Python disagree about {s}")
    return [out[keys[(nt, s)]] for _, _, nt, s in items]


def m15(ck):
    obl = generate(ck)
    rs = ck.harness([case(o, ["text"]) for o in obl])
    ck.validated += len(obl)
    items = []
    for o, r in zip(obl, rs):
        for which, s in (r["text"].items() if isinstance(r, dict) else ()):
            body = stripped(which, s)
            if body is None or s.startswith("P:"):
                ck.fail(f"{which} text of {text(o['e'])}: {s}", {"e": enc(o["e"])})
            else:
                items.append((o, which, NOTATION[which], body))
        if not isinstance(r, dict):
            ck.fail(f"printing {text(o['e'])}: {r}", {"e": enc(o["e"])})
    js = read_texts(ck, items)
    parallel(ck, judge_text, [(o, which, s, j) for (o, which, _, s), j in zip(items, js)])
    # two expressions with one text have one value
    groups = {}
    for o, which, _, s in items:
        if which == "infix":
            groups.setdefault(s, []).append(o)
    for s, g in groups.items():
        if len(g) < 2:
            continue
        ck.part("shared texts")
        for o in g[1:]:
            for env in [{"x": Fraction(1, 2), "y": Fraction(-2)}, {"x": Fraction(3), "y": Fraction(5, 4)}]:
                a, c = outcome(g[0]["val"], g[0]["errs"], env), outcome(o["val"], o["errs"], env)
                if a and c and a[0] == c[0] == "ok":
                    if near(a[1], c[1]):
                        ck.passed()
                    else:
                        ck.fail(f"{text(g[0]['e'])} and {text(o['e'])} both print as {s}", {"text": s})
    for which, s in [(w, s) for _, w, _, s in items[-7:]]:
        ck.sample({which: s})


# ---- M19 ----------------------------------------------------------------------------------------
def m19(ck):
    invs = "STypeOK InvSubstSame InvIdem InvVars SEmit"
    obl = ck.tlc("SymbolicSession", cfg(ck, 1, True, "any", "SSpec", invs, f" MaxHist = 2\n"))[0]
    obl += ck.tlc("SymbolicSession", cfg(ck, 6, False, "any", "SSpec", invs, f" MaxHist = 3\n"), simulate=4000 if ck.deep else 600, depth=30)[0]
    cases = [{"op": "symdens", "e": enc(o["e"]), "params": {k: fl(v) for k, v in o["params"].items()} if isinstance(o["params"], dict) else {},
              "envs": [{k: fl(v) for k, v in e.items()} if isinstance(e, dict) else {} for e in o["envs"]], "ops": o["hist"]} for o in obl]
    rs = ck.harness(cases)
    ck.validated += len(cases)
    trip = []
    for o, c, r in zip(obl, cases, rs):
        if not isinstance(r, list):
            ck.fail(f"symbolic density {text(o['e'])}: {r}", c)
            continue
        for i, step in enumerate(r):
            for w in ("plain", "custom"):
                trip.append(((o, i, w, step[w]), o["e"], step[w]["e"]))
    js = judge(ck, trip)
    parallel(ck, judge_sym, [(t[0], j) for t, j in zip(trip, js)])
    ck.sample({"e": text(obl[-1]["e"]), "history": obl[-1]["hist"]})


def judge_sym(chunk):
    b = Batch()
    for (o, i, which, got), j in chunk:
        h = o["hist"][:i]
        # the other kind of density has no substitution of its own
        steps = o["steps"][i] if which == "plain" else o["steps"][0]
        exact = steps["exact"] if which == "plain" else "simplify" not in h
        name = f"{text(o['e'])} with {{{', '.join(k + '=' + str(float(N.num(v))) for k, v in (o['params'] or {}).items())}}} after {h} ({which})" if isinstance(o["params"], dict) else f"{text(o['e'])} after {h} ({which})"
        det = {"e": enc(o["e"]), "params": o["params"], "history": h, "which": which}
        if got["vars"] != sorted(j["free"]):
            b.fail(f"{name}: variables {got['vars']}, the expression mentions {sorted(j['free'])}", det)
        else:
            b.ok()
        if exact and got["e"] != enc(steps["e"]):
            b.fail(f"{name}: expression {text(dec(got['e']))}, should be {text(steps['e'])}", det)
        elif not set(j["free"]) <= set(steps["vars"]):
            b.fail(f"{name}: mentions {j['free']}, should only mention {steps['vars']}", det)
        else:
            b.ok()
        want_p = {k: fl(v) for k, v in o["params"].items()} if isinstance(o["params"], dict) else {}
        if got["params"] != want_p:
            b.fail(f"{name}: stored parameters changed to {got['params']}", det)
        for k, (env, a) in enumerate(zip(o["envs"], o["at"])):
            w = outcome(steps["val"], steps["errs"], envf(a))
            simplified = "simplify" in h
            for route in ("at", "single"):
                g = got[route][k]
                if g is None or w is None:
                    continue
                # simplification preserves values; where there is none it may do anything
                if w[0] == "err" and simplified:
                    continue
                if agree(g, w):
                    b.ok()
                    b.part(f"{which} {route}")
                else:
                    b.fail(f"{name}: value with {show_env(envf(env))} = {shown(g)}, should be {wanted(w)}", dict(det, at=str(env), route=route))
    return b


# ---- M13 ----------------------------------------------------------------------------------------
def m13(ck):
    """Saturation.tla: requests to an optimiser; the answers are judged by ExprJudge.tla"""
    sat = lambda mode, n, **kw: ck.tlc("Saturation", f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n Mode = \"{mode}\"\n MaxHist = {n}\n"
                                       "INVARIANTS TypeOK InvSound InvWrong Emit\nCHECK_DEADLOCK FALSE\n", **kw)[0]
    hists = [(o["hist"], o["same"]) for o in sat("rules", 1) + sat("pairs", 2) + sat("session", 6, simulate=120 if ck.deep else 15, depth=20)]
    single = generate(ck, exhaustive=True, n_any=1200 if ck.deep else 150, n_poly=200 if ck.deep else 30, long_sums=False)
    few = [o for i, o in enumerate(single) if ck.deep or i % 3 == ck.seed % 3 or o["ops"] > 2 or o["ops"] < 2]
    cases = [{"op": "egg", "es": [enc(o["e"]) for o in h], "risky": True} for h, _ in hists]
    # one optimiser each for runs of unrelated expressions
    chunks = [few[i:i + 12] for i in range(0, len(few), 12)]
    cases += [{"op": "egg", "es": [enc(o["e"]) for o in h], "fresh": False, "risky": True} for h in chunks]
    rs = ck.harness(cases, timeout=800, patience=100 if ck.deep else 25)
    todo, known = [], set()
    for (h, same), c, r in zip(hists + [(h, None) for h in chunks], cases, rs):
        if isinstance(r, dict) and r.get("timeout"):
            ck.part("given up on time")
            continue
        ck.validated += 1
        if not isinstance(r, dict) or "shared" not in r:
            ck.fail(f"optimising {[text(o['e']) for o in h]}: {r}", c)
            continue
        for i, o in enumerate(h):
            for which in ("shared", "fresh") if r["fresh"] else ("shared",):
                k = (json.dumps(c["es"][i]), json.dumps(r[which][i]))
                if k not in known:
                    known.add(k)
                    todo.append((o, which, r[which][i]))
            if r["fresh"]:
                ck.part("against a fresh optimiser")
                if r["fresh"][i] == r["shared"][i]:
                    ck.passed()
                else:
                    ck.fail(f"{text(o['e'])} after {[text(q['e']) for q in h[:i]]} is optimised to {r['shared'][i]}, on a fresh optimiser to {r['fresh'][i]}", c)
            if same is not None and same[i] != i + 1:
                ck.part("repeated requests")
                if r["shared"][i] == r["shared"][same[i] - 1]:
                    ck.passed()
                else:
                    ck.fail(f"{text(o['e'])} optimised again in {[text(q['e']) for q in h[:i]]}: {r['shared'][i]}, before {r['shared'][same[i] - 1]}", c)
    if ck.parts.get("given up on time", 0) * 4 > len(cases):
        ck.fail(f"{ck.parts['given up on time']} of {len(cases)} histories of optimisations do not finish", {"cases": [c for c, r in zip(cases, rs) if isinstance(r, dict) and r.get("timeout")][:3]})
    n = 0
    for which in ("shared", "fresh"):
        part = [(o, t) for o, w, t in todo if w == which]
        n += rewritten(ck, [o for o, _ in part], [{"optimised": t} for _, t in part], ["optimised"], ops=False)
    if n < 1000 and not ck.nviol:
        raise ToolError(f"vacuous: only {n} expressions were rewritten")
    for o, w, t in todo[-3:]:
        ck.sample({"e": text(o["e"]), "optimised": text(dec(t)) if isinstance(t, list) else str(t)})
