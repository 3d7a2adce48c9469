"""M11: ExprCache.tla (histories), ExprCacheThreads.tla (all interleavings), ExprCacheTrace.tla (recorded threads)"""
import json, os, random
from . import num as N
from .core import ToolError
from .laws import val
from .dens import fl
from .expr import enc, text, outcome, agree, envf, shown, wanted


def m11(ck):
    c = lambda n, ne, nv, spec, inv: (f"SPECIFICATION {spec}\nCONSTANTS\n Seed = {ck.seed % 1000}\n MaxHist = {n}\n NExpr = {ne}\n NEnv = {nv}\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n")
    inv = "TypeOK InvCount InvRepeat Emit"
    desc, _ = ck.tlc("ExprCache", c(0, 1, 1, "Spec", "Describe"))
    pool, envs = desc[0]["pool"], desc[0]["envs"]
    obl = ck.tlc("ExprCache", c(4 if ck.deep else 3, 4, 3, "Spec", inv))[0]
    obl += ck.tlc("ExprCache", c(40, 99, len(envs), "Spec", "TypeOK InvCount InvRepeat Emit"), simulate=1500 if ck.deep else 150, depth=42)[0]
    obl += ck.tlc("ExprCache", c(12, 6, 3, "LSpec", inv), simulate=100 if ck.deep else 12, depth=14)[0]
    obl = [o for o in obl if "hist" in o]      # TLC evaluates the constant Describe in every run
    ex, ev = [enc(p["e"]) for p in pool], [{k: fl(v) for k, v in e.items()} if isinstance(e, dict) else {} for e in envs]
    want = [[outcome(p["val"], p["errs"], envf(e)) for e in envs] for p in pool]
    cases = []
    for o in obl:
        calls = [[h["op"], h["i"] if h["op"] in "SE" else h["i"] - 1, h["j"] - 1 if h["j"] else 0] for h in o["hist"]]
        cases.append({"op": "cache", "exprs": ex, "envs": ev, "calls": calls})
    rs = ck.harness(cases)
    for o, cs, r in zip(obl, cases, rs):
        det = {"history": [[h["op"], h["i"], h["j"]] for h in o["hist"]]}
        if not isinstance(r, list):
            ck.fail(f"history of cached calls: {r}", det)
            continue
        ck.validated += 1
        for p, (h, g) in enumerate(zip(o["hist"], r)):
            d = dict(det, step=p + 1)
            hit = "hit" if h["hit"] else "miss"
            if h["op"] == "e":
                w = want[h["i"] - 1][h["j"] - 1]
                if agree(g["r"], w):
                    ck.passed()
                    ck.part("evaluations")
                else:
                    ck.fail(f"call {p + 1}: evaluate_cached of {text(pool[h['i'] - 1]['e'])} at {envs[h['j'] - 1]} = {shown(g['r'])}, should be {wanted(w)}", d)
            elif h["op"] == "s":
                if isinstance(g["r"], dict) and g["r"]["got"] == g["r"]["plain"]:
                    ck.passed()
                    ck.part("simplifications")
                else:
                    ck.fail(f"call {p + 1}: simplify_cached of {text(pool[h['i'] - 1]['e'])}: {g['r']}", d)
            elif h["op"] in "SE":
                ck.part("sweeps")
                if g["r"] != 0:
                    ck.fail(f"call {p + 1}: {g['r']} of {h['i']} cached calls differ from the uncached ones", d)
            st, ws = g["st"], h["st"]
            if any(st[k] != ws[k] for k in ("sh", "sm", "eh", "em")):
                ck.fail(f"call {p + 1} ({h['op']} {h['i']} {h['j']}, a {hit}): statistics {[st[k] for k in ('sh', 'sm', 'eh', 'em')]}, should be {[ws[k] for k in ('sh', 'sm', 'eh', 'em')]}", d)
            else:
                ck.passed()
            for k, a, b in (("sr", "sh", "sm"), ("er", "eh", "em")):
                t = ws[a] + ws[b]
                if abs(val(st[k]) - (ws[a] / t if t else 0.0)) > 1e-12:
                    ck.fail(f"call {p + 1}: hit rate {val(st[k])} for {ws[a]} hits and {ws[b]} misses", d)
    ck.sample({"history": det["history"][:12]})
    # all interleavings of the locking protocol
    t = lambda n, k, keys, bad, clear: (f"SPECIFICATION Spec\nCONSTANTS\n Threads = {n}\n Calls = {k}\n Keys = {keys}\n BadKeys = {bad}\n MayClear = {clear}\n NestedClear = FALSE\n"
                                        "INVARIANTS InvResult InvNoErrorKept InvCount InvMisses InvLocks\nPROPERTY Finishes\n")
    ck.tlc("ExprCacheThreads", t(2, 2, "{1, 2}", "{2}", "TRUE"))
    ck.tlc("ExprCacheThreads", t(3, 1, "{1, 2}", "{2}", "TRUE"))
    ck.tlc("ExprCacheThreads", t(2, 3, "{1, 2}", "{}", "FALSE"))
    if ck.deep:
        ck.tlc("ExprCacheThreads", t(3, 2, "{1, 2}", "{2}", "TRUE"), timeout=900)
    # recorded threads
    rnd = random.Random(ck.seed)
    runs = []
    for k in range(400 if ck.deep else 80):
        nt = rnd.choice([2, 3, 4])
        thr = []
        for _ in range(nt):
            calls = []
            for _ in range(rnd.choice([1, 2, 3, 4] if nt < 4 else [1, 2])):
                q = rnd.random()
                if q < 0.12 and k % 2:
                    calls.append(["clear"])
                elif q < 0.5:
                    calls.append(["s", rnd.randrange(2), 0])
                else:
                    calls.append(["e", rnd.choice([0, 2, 3]), rnd.choice([0, 2])])
            thr.append(calls)
        runs.append(thr)
    cases = [{"op": "cthreads", "exprs": ex, "envs": ev, "threads": thr, "risky": True} for thr in runs]
    n_stress = 16 if ck.deep else 6
    stress = []
    for k in range(n_stress):
        pick = lambda: ["s", rnd.randrange(len(ex)), 0] if rnd.random() < 0.4 else ["e", rnd.randrange(len(ex)), rnd.randrange(len(ev))]
        # every second run has a thread that keeps clearing
        stress.append([[pick() for _ in range(12)] for _ in range(7)] + ([[["clear"]] * 6] if k % 2 else []))
    cases += [{"op": "cthreads", "exprs": ex, "envs": ev, "threads": s, "repeat": 400 if ck.deep else 120, "risky": True} for s in stress]
    rs = ck.harness(cases, procs=4)
    recs = []
    for n, (cs, r) in enumerate(zip(cases, rs)):
        det = {"threads": cs["threads"], "repeat": cs.get("repeat", 1)}
        if not isinstance(r, dict):
            ck.fail(f"threads sharing the caches: {'blocked or died' if r == 'CRASH' else r}", det)
            continue
        if r["wrong"]:
            ck.fail(f"a cached call among threads differs from the uncached one: {r['wrong'][0]}", det)
        if n >= len(runs):
            ck.part("stress runs")
            rep = cs["repeat"]
            thr = [c for t in cs["threads"] for c in t]
            if any(c[0] == "clear" for c in thr):
                if r["st"]["sh"] + r["st"]["sm"] > rep * sum(c[0] == "s" for c in thr) or r["st"]["eh"] + r["st"]["em"] > rep * sum(c[0] == "e" for c in thr):
                    ck.fail(f"statistics count more calls than were made: {r['st']}", det)
                continue
            for kind, hk, mk in (("s", "sh", "sm"), ("e", "eh", "em")):
                calls = rep * sum(c[0] == kind for c in thr)
                if r["st"][hk] + r["st"][mk] != calls:
                    ck.fail(f"{calls} calls by {len(cs['threads'])} threads are counted as {r['st'][hk]} hits and {r['st'][mk]} misses", det)
                else:
                    ck.passed()
            good = {(json.dumps(ex[c[1]]), c[2]) for c in thr if c[0] == "e" and (want[c[1]][c[2]] or ("err",))[0] == "ok"}
            bad = rep * sum(1 for c in thr if c[0] == "e" and (want[c[1]][c[2]] or ("ok",))[0] == "err")
            lo, hi = len(good) + bad, len(good) * len(cs["threads"]) + bad
            if all(want[c[1]][c[2]] is not None for c in thr if c[0] == "e") and not lo <= r["st"]["em"] <= hi:
                ck.fail(f"{r['st']['em']} evaluation misses; between {lo} and {hi} are possible", det)
            continue
        calls, ev_ = [], []
        for t, (thr, stamps) in enumerate(zip(cs["threads"], r["stamps"])):
            for q, (b, e) in zip(thr, stamps):
                ev_ += [(b, len(calls) + 1, True), (e, len(calls) + 1, False)]
                if q[0] == "clear":
                    calls.append({"kind": "c", "key": "", "ok": True})
                elif q[0] == "s":
                    calls.append({"kind": "s", "key": json.dumps(ex[q[1]]), "ok": True})
                else:
                    calls.append({"kind": "e", "key": json.dumps(ex[q[1]]) + str(q[2]), "ok": want[q[1]][q[2]][0] == "ok"})
        recs.append({"ev": [{"c": c, "b": b} for _, c, b in sorted(ev_)], "calls": calls, "id": n,
                     "h": {"s": r["st"]["sh"], "e": r["st"]["eh"]}, "m": {"s": r["st"]["sm"], "e": r["st"]["em"]}, "det": det})
    if recs:
        path = os.path.join(ck.work, "traces.ndjson")
        with open(path, "w") as f:
            for q in recs:
                f.write(json.dumps({k: q[k] for k in q if k != "det"}) + "\n")
        acc, _ = ck.tlc("ExprCacheTrace", f'SPECIFICATION Spec\nCONSTANTS\n File = "{path}"\n Count = {len(recs)}\nINVARIANTS TypeOK Accept\nCHECK_DEADLOCK FALSE\n')
        acc = {a["tr"] for a in acc}
        for q in recs:
            if q["id"] in acc:
                ck.passed()
                ck.validated += 1
                ck.part("recorded interleavings accepted")
            else:
                ck.fail(f"no interleaving of the calls explains the statistics {q['h']}, {q['m']}", dict(q["det"], events=q["ev"]))
