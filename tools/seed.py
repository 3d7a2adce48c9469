#!/usr/bin/env python3
"""Development tool (no check uses it): plant bugs and try the checks on them.
   seed.py make FILE.py     each entry of SEEDS there becomes seeded/<id>/ after it is confirmed
   seed.py try ID [CHECK..] apply, run the checks, undo"""
import json, os, shutil, subprocess, sys, importlib.util
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def confirm(i):
    d = f"{R}/seeded/{i}"
    if sh(f"git -C /repo apply {d}/patch.diff").returncode: return "does not apply"
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "does not build: " + (b.stdout + b.stderr)[-1500:]
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        got = json.load(open("/tmp/seed_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        lost = sorted(set(base["stable"]) - set(got["passed"]))
        if lost: return "tests fail: " + " ".join(lost[:5])
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0: return "demo passes with the patch"
        if r.returncode == 3: return "demo does not compile: " + r.stderr[-1500:]
        print("  demo with patch:", r.returncode, (r.stdout + r.stderr).strip()[-200:])
    finally:
        clean()
    return None
def trybug(i, checks):
    d = f"{R}/seeded/{i}"
    if sh(f"git -C /repo apply {d}/patch.diff").returncode: return print(i, "does not apply")
    try:
        for c in checks:
            r = sh(f"python3 {R}/check.py {c} quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i}: {c} exit {r.returncode} {v[:1] if r.returncode == 1 else (r.stdout + r.stderr)[-1500:]}", flush=True)
    finally:
        clean()
def main():
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("seeds", sys.argv[2]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        made = []
        for s in m.SEEDS:
            d = f"{R}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
            try:
                for f, a, b in s["edits"]:
                    p = "/repo/" + f; t = open(p).read(); assert t.count(a) == 1, (s["id"], f, t.count(a), a); open(p, "w").write(t.replace(a, b))
                open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            finally: clean()
            open(f"{d}/demo.sh", "w").write(s.get("head") or open(f"{R}/tools/demo_head.sh").read()); open(f"{d}/demo.rs", "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(f"{d}/meta.json", "w"), indent=1)
            made.append(s)
        sh("bash /opt/vp/build.sh")
        for s in made:
            d = f"{R}/seeded/{s['id']}"
            r = sh(f"bash {d}/demo.sh", cwd="/repo")
            e = f"demo fails on the unchanged tree {r.returncode}: " + (r.stdout + r.stderr)[-1500:] if r.returncode else None
            s["err"] = e
        for s in made:
            e = s["err"] or confirm(s["id"])
            print(s["id"], "CONFIRMED" if not e else "REJECTED " + e, flush=True)
            if e: shutil.rmtree(f"{R}/seeded/{s['id']}")
            elif len(sys.argv) < 4: trybug(s["id"], [s["property"]])
        sh("bash /opt/vp/build.sh")
    else:
        ids = [sys.argv[2]] if sys.argv[2] != "all" else sorted(os.listdir(R + "/seeded"))
        for i in ids:
            trybug(i, sys.argv[3:] or [json.load(open(f"{R}/seeded/{i}/meta.json"))["property"]])
main()
