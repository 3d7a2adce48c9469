"""M04: replay of IidSession.tla"""
import math
from mpmath import mpf
import mpmath
from . import num as N
from .laws import ALL, val, where

INVS = "TypeOK InvEmpty InvOrder InvConcat InvAbsorb InvTile Emit"
EFROUTES = {"iid_fn", "iid_hand", "iid_own", "iid_parts", "iid", "iid_ext", "iid_root", "iid_ef", "iid_zo"}


def cfg(ck, maxlen, wide):
    fs = ", ".join(f'"{f}"' for f in ALL)
    return (f"SPECIFICATION Spec\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxLen = {maxlen}\n Wide = {'TRUE' if wide else 'FALSE'}\n"
            f" Families = {{{fs}}}\nINVARIANTS {INVS}\nCHECK_DEADLOCK FALSE\n")


def m04(ck):
    obl, _ = ck.tlc("IidSession", cfg(ck, 4 if ck.deep else 3, ck.deep and False), timeout=800)
    # invariants are evaluated on every state of the random walks too
    obl2, _ = ck.tlc("IidSession", cfg(ck, 40, True), simulate=200 if ck.deep else 24, depth=44, timeout=800)
    seen, groups = set(), {}
    for o in obl + obl2:
        k = (o["f"], N.key(o["p"]), N.key(o["xs"]), o["rep"])
        if k in seen:
            continue
        seen.add(k)
        groups.setdefault(k[:2], []).append(o)
    cases, meta = [], []
    for (f, pk), every in groups.items():
        p = [N.f64(N.num(a)) for a in pk]
        for w in ("f64", "f32"):
            # single precision: histories whose samples it can hold
            obs = [o for o in every if w == "f64" or all(abs(N.num(x)) < 2 ** 120 for x in o["xs"])]
            cases.append({"op": "iid", "f": f, "w": w, "p": [N.bits(x) for x in p], "xs": [],
                          "seqs": [{"xs": [N.bits(N.f64(N.num(x))) for x in o["xs"]], "rep": o["rep"]} for o in obs]})
            meta.append((f, w, p, obs))
    for (f, w, p, obs), r in zip(meta, ck.harness(cases)):
        if not isinstance(r, dict) or r["new"] != "ok":
            ck.fail(f"{f}{tuple(p)}: constructor {r}", where(f, w, p))
            continue
        ck.part(f, len(obs))
        for o, s in zip(obs, r["seqs"]):
            one(ck, f, w, p, o, s)
    ck.sample({"family": obs[-1]["f"], "params": p, "samples": [N.f64(N.num(x)) for x in obs[-1]["xs"]], "joint": N.show(N.ll(obs[-1]["joint"]))})


def short(xs):
    return xs if len(xs) <= 40 else f"{xs[:6]}... ({len(xs)} samples)"


def one(ck, f, w, p, o, s):
    xs = [N.f64(N.num(x)) for x in o["xs"]] * o["rep"]
    ck.validated += 1
    want = N.ll(o["joint"])
    form = [N.ll(x) for x in o["formal"]]
    # the exponential-family routes cancel n*A against eta.sum(T): the scale of the formal terms counts
    wide = N.Val(want.v, want.scale + (form[0].scale if form else 0))
    mult = 1 + len(xs) / 4 + (max(xs) / 24 if f == "poisson" and xs and w == "f32" else 0)
    for rt, g in s.items():
        if rt == "iid_in":
            if g is not o["in"]:
                ck.fail(f"{f}{tuple(p)} ({w}): joint in_support({short(xs)}) = {g}", where(f, w, p, short(xs)))
            else:
                ck.passed()
            continue
        if rt.startswith("same ") or rt in ("iid_root_in", "iid_base_root_in"):
            # everything lies in the root's support; two descriptions of one family agree
            if rt == "same from natural" and not o["interior"]:
                continue        # no finite natural parameter
            if g is True or isinstance(g, list) and len(g) == 2 and g[0] == g[1]:
                ck.passed()
            else:
                ck.fail(f"{f}{tuple(p)} ({w}): {rt} of {short(xs)}: {g}", where(f, w, p, short(xs)))
            continue
        got = val(g)
        ef = rt in EFROUTES
        if N.close(got, wide if ef else want, w, mult):
            ck.passed()
            continue
        key = None
        if ef and isinstance(got, float):
            nan = math.isnan(got) or o["out"] == "nan" and got == math.inf
            if not o["interior"] and nan:
                key = "iid-boundary-nan"
            elif f == "negbin" and form and N.close(got, form[0], w, mult):
                key = "negbin-log-odds-form"
            elif rt == "iid_zo" and (o["out"] == "nan" and nan or form and N.close(got, form[1], w, mult)):
                key = "iid-zero-overhead-n1"
            elif o["out"] == "nan" and nan or o["out"] == "value" and form and N.close(got, form[0], w, mult):
                key = "iid-formal-off-support"
        ck.fail(f"{f}{tuple(p)} ({w}): {rt}({short(xs)}) = {N.show(got)} but the joint log-density is {N.show(want)}",
                dict(where(f, w, p, short(xs)), route=rt, got=got, want=N.show(want)), key)
