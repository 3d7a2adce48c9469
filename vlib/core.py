import hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
from . import num as N

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
BIN = os.path.join(TARGET, "debug", "vharness")


class ToolError(Exception):
    pass


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError(f"timeout after {timeout}s: {cmd}")


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--offline", "--quiet"], 850, cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode != 0:
        raise ToolError("harness build failed\n" + r.stdout[-4000:])


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.deep = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.validated = self.compared = 0
        self.samples, self.violations, self.known_seen = [], [], {}
        self.runs, self.assumptions, self.parts = [], [], {}
        self.known = load_known(pid)
        self.nviol = 0
        self.hung, self.panics = False, []

    # ---- model side --------------------------------------------------------------------------
    def tlc(self, module, cfg, simulate=None, depth=None, workers=8, timeout=600, expect_ok=True, prefix="@@", name=None, extra=(), again=True):
        """run TLC; returns (obligations printed by the model, output text)"""
        name = name or module
        n = len(self.runs)
        cfgf = os.path.join(self.work, f"{name}{n}.cfg")
        open(cfgf, "w").write(cfg)
        cmd = ["tlc", "-noGenerateSpecTE", "-lncheck", "final", "-workers", str(workers), "-metadir", os.path.join(self.work, f"meta{n}"), "-config", cfgf]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed), "-depth", str(depth or 30)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m", JDK_JAVA_OPTIONS="-Xss256m")
        r = sh(cmd, timeout, env=env, cwd=SPEC)
        out, obl = [], []
        for line in r.stdout.splitlines():
            if line.startswith('"' + prefix):
                obl.append(json.loads(json.loads(line)[len(prefix):]))
            else:
                out.append(line)
        text = "\n".join(out)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            self.transitions += int(m.group(1).replace(",", ""))
            self.states += int(m.group(2).replace(",", ""))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", text)
            if m:
                g = int(m.group(1).replace(",", ""))
                self.transitions += g
                self.states += g
        ok = r.returncode == 0 and "Error:" not in text
        self.runs.append({"module": module, "mode": "simulate" if simulate else "exhaustive", "obligations": len(obl), "ok": ok})
        if expect_ok and not ok and again:
            self.runs.pop()
            shutil.rmtree(os.path.join(self.work, f"meta{n}"), ignore_errors=True)
            # TLC's workers share lazily evaluated values and, on a busy machine, have been seen to trip over each other;
            # an error of the specification itself comes back
            print(f"note: TLC failed on {module}, running it again\n" + text[max(0, text.find("Error:")):][:600], file=sys.stderr)
            return self.tlc(module, cfg, simulate, depth, workers if simulate else 2, timeout, expect_ok, prefix, name, extra, False)
        if expect_ok and not ok:
            i = text.find("Error:")
            raise ToolError(f"TLC failed on {module} (exit {r.returncode})\n" + text[max(0, i - 200):i + 3000])
        shutil.rmtree(os.path.join(self.work, f"meta{n}"), ignore_errors=True)
        return obl, text

    # ---- code side ---------------------------------------------------------------------------
    def harness(self, cases, procs=8, timeout=600, patience=400):
        """execute the cases against the code; a case that kills the process yields 'CRASH'"""
        for i, c in enumerate(cases):
            c["id"] = i
        if not cases:
            return []
        procs = max(1, min(procs, len(cases) // 4 + 1))
        chunks = [cases[i::procs] for i in range(procs)]

        def one(k):
            res, todo, rnd, hangs, announce = {}, chunks[k], 0, 0, []
            while todo:
                fi = os.path.join(self.work, f"in{len(self.runs)}_{k}_{rnd}.json")
                fo = fi + ".out"
                with open(fi, "w") as f:
                    for c in todo:
                        f.write(json.dumps(c) + "\n")
                r = sh([BIN, fi, fo] + announce, timeout, env=dict(os.environ, VHARNESS_CPU="20" if self.hung else "120"))
                last = hang = None
                if os.path.exists(fo):
                    for line in open(fo):
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue
                        if "begin" in o:
                            last = o["begin"]
                        elif "hang" in o:
                            hang = o["hang"]
                        else:
                            res[o["id"]] = o["r"]
                rest = [c for c in todo if c["id"] not in res]
                if r.returncode == 0 and not rest:
                    break
                rnd += 1
                if r.returncode == 9 and isinstance(res.get(last), dict) and res[last].get("timeout") and rnd < 400:
                    if rnd > patience:             # too many of them: leave the rest
                        for c in rest:
                            res[c["id"]] = {"timeout": True}
                        break
                    todo = rest                    # the case gave up on time; go on behind it
                    continue
                if r.returncode == 8 and hang is not None:
                    hangs += 1
                    self.hung = True
                    res[hang] = "HANG"
                    todo = [c for c in rest if c["id"] != hang]
                    if hangs > 1:                  # not worth the time to try the others
                        for c in todo:
                            res[c["id"]] = "SKIPPED"
                        break
                    continue
                if last is None or last in res or rnd > 400:
                    if not announce and rest:      # died without a name: run the rest again, every case announced
                        announce, todo = ["announce"], rest
                        continue
                    raise ToolError(f"harness died (exit {r.returncode}) outside a guarded case\n{r.stdout[-2000:]}")
                res[last] = "CRASH"
                hangs += 0.02                      # a hundred crashes are enough
                todo = [c for c in rest if c["id"] != last]
                if hangs > 2:
                    for c in todo:
                        res[c["id"]] = "SKIPPED"
                    break
            return res

        allr = {}
        with ThreadPoolExecutor(procs) as ex:
            for r in ex.map(one, range(procs)):
                allr.update(r)
        for i, c in enumerate(cases):
            if allr[i] in ("HANG", "CRASH"):
                self.fail("the code never returns" if allr[i] == "HANG" else "the code kills its process", {k: v for k, v in c.items() if k != "id"})
            elif isinstance(allr[i], str) and allr[i].startswith("P:") and len(self.panics) < 20:
                self.panics.append((allr[i][2:], c))
        return [allr[i] for i in range(len(cases))]

    # ---- verdicts ----------------------------------------------------------------------------
    def passed(self, n=1):
        self.compared += n

    def part(self, name, n=1):
        self.parts[name] = self.parts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def fail(self, what, detail, finding=None):
        """a disagreement; `finding` is the identifier of the deviation it matches exactly, if any"""
        if finding and finding in self.known:
            self.known_seen[finding] = self.known_seen.get(finding, 0) + 1
            return
        self.nviol += 1
        if len(self.violations) < 40:
            self.violations.append({"what": what, "detail": detail, "finding": finding})

    def finish(self, level="model_checking", assumptions=()):
        for k, n in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k]} [{n} cases]")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "comparisons": self.compared, "parts": self.parts,
                           "tlc_runs": self.runs[:40], "samples": self.samples or ["none"]},
              "assumptions": list(assumptions) + self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.nviol:
            path = os.path.join(self.replays, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "violations": self.violations}, f, indent=1, default=str)
            for v in self.violations[:12]:
                print("  " + v["what"])
                print("    " + json.dumps(v["detail"], default=str)[:600])
            print(f"  ({self.nviol} disagreements)")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.validated} comparisons={self.compared} wall={ev['wall_s']}s")
        return 0


def load_known(pid):
    """known_findings.txt: 'known: property=<id> <key> : <what>' and 'fixed: ...' lines"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (\S+) : (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
