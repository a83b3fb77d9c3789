"""Shared machinery: building the harness, running TLC, replaying cases, reporting."""
import json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
FIX = os.path.join(VERIF, "fixtures")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SIMS = 6          # parallel runs in simulation mode


class ToolError(Exception):
    """Something of ours failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
class Harness:
    def __init__(self, verify=True):
        """Builds the driver and the real CLI from /repo's working tree."""
        self.target = os.path.join(BUILD, "target")
        os.makedirs(self.target, exist_ok=True)
        lock = os.path.join(VERIF, "harness", "Cargo.lock")
        keep = open(lock, "rb").read()
        self.verify = False
        t = time.time()
        try:
            if verify:
                self.verify = self._cargo(["--features", "verify"])
            if not self.verify and not self._cargo([]):
                raise ToolError("the harness does not build against /repo:\n" + self.err[-4000:])
        finally:
            if open(lock, "rb").read() != keep:
                open(lock, "wb").write(keep)
        self.driver = os.path.join(self.target, "debug", "driver")
        self.cli = os.path.join(self.target, "debug", "ksusig")
        log(f"harness built in {time.time()-t:.1f}s (verify={self.verify})")

    def _cargo(self, extra):
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k, None)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + extra, cwd=os.path.join(VERIF, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.err = p.stdout
        return p.returncode == 0

    def replay(self, mode, cases, env=None, timeout=6000 if THOROUGH else 800):
        """Runs cases (list of dicts) through the driver. Returns (issues, hits, outputs).
        issues: list of (index, kind, what)"""
        d = scratch("replay-" + mode)
        path = os.path.join(d, "cases.jsonl")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        e = dict(os.environ, VERIF_FIXTURES=FIX, VERIF_SCRATCH=d, KSUSIG_CLI=self.cli)
        e.update(env or {})
        try:
            p = subprocess.run([self.driver, mode, path], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"driver {mode}: no result within {timeout}s")
        issues, hits, outs, done = [], {}, {}, None
        for l in p.stdout.splitlines():
            if not l.startswith("{"):
                continue
            try:
                o = json.loads(l)
            except ValueError:
                continue
            if "issues" in o:
                issues += [(o["i"], x["kind"], x["what"]) for x in o["issues"]]
            elif "out" in o:
                outs[o["i"]] = o["out"]
            elif "done" in o:
                done, hits = o["done"], o["hits"]
        if p.returncode == 2:
            raise ToolError(f"driver {mode}: {p.stderr[-2000:]}")
        if done is None and not any(k == "hang" for _, k, _ in issues):
            # the process died (abort, stack overflow, out of memory): find the case
            q = subprocess.run([self.driver, mode, path, "--trace"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
            m = re.findall(r"^CASE (\d+)", q.stderr, re.M)
            if q.returncode == 0 or not m:
                raise ToolError(f"driver {mode} died with {p.returncode} but not when repeated: {p.stderr[-1000:]}")
            issues.append((int(m[-1]), "abort", f"the process died (status {q.returncode}): {q.stderr[-300:]}"))
        shutil.rmtree(d, ignore_errors=True)
        return issues, hits, outs


_n = [0]


def scratch(name):
    _n[0] += 1
    d = os.path.join(BUILD, "scratch", f"{os.getpid()}-{_n[0]}-{name}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------- TLC
class Tlc:
    """One TLC run. cases: what the specification printed with PrintT(ToJson(..))."""

    def __init__(self, module, consts=None, files=None, cfg=None, extra=None, timeout=6000 if THOROUGH else 700, workers=8, sim=None, cap=None):
        self.module, self.sim = module, sim
        d = scratch("tlc-" + module)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, content in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(content)
        cfgname = cfg or module + ".cfg"
        if consts:
            p = os.path.join(d, cfgname)
            t = open(p).read()
            for k, v in consts.items():
                t, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?){k}\s*=.*$", rf"\g<1>{k} = {v}", t)
                if not n:
                    raise ToolError(f"{cfgname} has no constant {k}")
            open(p, "w").write(t)
        cmd = ["tlc", "-workers", str(workers), "-config", cfgname] + (extra or [])
        # random behaviours: (number, depth); single workers, so that the seeds decide them
        cmds = [cmd] if not sim else [cmd[:2] + ["1"] + cmd[3:] + ["-simulate", f"num={-(-sim[0] // SIMS)}", "-depth", str(sim[1]), "-seed", str(SEED * 1000 + i)] for i in range(SIMS)]
        t = time.time()
        env = dict(os.environ)
        env["TMPDIR"] = d
        env["JDK_JAVA_OPTIONS"] = f"-Xss64m -Djava.io.tmpdir={d}"
        ps = []
        for i, c in enumerate(cmds):
            with open(os.path.join(d, f"out{i}.txt"), "w") as f:
                ps.append(subprocess.Popen(c + ["-metadir", os.path.join(d, f"meta{i}"), module + ".tla"], cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env))
        try:
            for p in ps:
                p.wait(timeout=max(1, timeout - (time.time() - t)))
        except subprocess.TimeoutExpired:
            for p in ps:
                p.kill()
            raise ToolError(f"TLC {module}: no result within {timeout}s")
        p = max(ps, key=lambda p: p.returncode != 0)
        self.wall = time.time() - t
        self.cases, rest = [], []
        for l in (l for i in range(len(cmds)) for l in open(os.path.join(d, f"out{i}.txt"))):
            if l.startswith('"{') or l.startswith('"['):
                self.cases.append(json.loads(json.loads(l)))
            else:
                rest.append(l)
        self.log = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", self.log)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        if sim:
            self.generated = self.distinct = sum(map(int, re.findall(r"The number of states generated: (\d+)", self.log)))
            seen = {json.dumps(x): x for x in self.cases}
            self.cases = list(seen.values())
            if cap and len(self.cases) > cap:
                self.cases = random.Random(SEED).sample(self.cases, cap)
        m = re.search(r"depth of the complete state graph search is (\d+)", self.log)
        self.depth = int(m[1]) if m else 0
        self.ok = p.returncode == 0
        self.code = p.returncode
        # 12: invariant/assumption violated
        self.violated = re.findall(r"Invariant (\w+) is violated", self.log)
        shutil.rmtree(d, ignore_errors=True)
        log(f"TLC {module}: {self.generated} states, {self.distinct} distinct, {len(self.cases)} cases, {self.wall:.1f}s, exit {self.code}")

    def need(self):
        if not self.ok:
            raise ToolError(f"TLC {self.module} failed:\n{self.log[-3000:]}")
        return self


# ---------------------------------------------------------------- verdict
class Check:
    def __init__(self, prop, level, known):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.trans = self.traces = self.evals = 0
        self.samples, self.cov, self.viol, self.parts, self.assume = [], {}, [], [], []
        self.known = known            # list of (key, text) of listed findings of this property
        self.known_hit = set()

    def model(self, tlc):
        """account for a model checking run"""
        if not tlc.sim:
            self.states += tlc.distinct
            self.trans += tlc.generated
        self.parts.append({"model": tlc.module, **({"random_behaviours": tlc.sim[0]} if tlc.sim else {}), "states": tlc.distinct, "generated": tlc.generated, "depth": tlc.depth, "wall_s": round(tlc.wall, 1)})

    def replayed(self, name, cases, issues, hits, kinds=None, key=None):
        """account for cases replayed into the code; kinds: the aspects this property is about"""
        self.traces += len(cases)
        self.cov.setdefault("replayed", {})[name] = {"cases": len(cases), "exercised": hits}
        if cases:
            for i in (0, len(cases) // 2, len(cases) - 1):
                s = json.dumps(cases[i])
                self.samples.append({"suite": name, "case": cases[i] if len(s) < 1500 else s[:1500]})
        seen = {}
        for i, kind, what in issues:
            if kinds is not None and kind not in kinds and kind not in ("abort", "hang"):
                continue
            k = key(cases[i], kind, what) if key else None
            if k and any(k == kk for kk, _ in self.known):
                self.known_hit.add(k)
                continue
            seen.setdefault(i, []).append((kind, what))
        for i, ws in sorted(seen.items()):
            self.viol.append({"suite": name, "case_index": i, "case": cases[i], "differences": [{"kind": k, "what": w} for k, w in ws]})

    def violation(self, suite, case, what, key=None):
        if key and any(key == kk for kk, _ in self.known):
            self.known_hit.add(key)
            return
        self.viol.append({"suite": suite, "case": case, "differences": [{"kind": "difference", "what": what}]})

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update({"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                    "models": self.parts, "samples": self.samples[:12] or ["none"]})
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assume, "wall_s": round(wall, 2), "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known:
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {text}")
        if not self.viol:
            print(f"OK property={self.prop} states={self.states} replayed={self.traces} wall={wall:.0f}s")
            return 0
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{self.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "count": len(self.viol), "violations": self.viol[:20],
                       "how": f"bash: cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 run/check.py {self.prop}"}, f, indent=1)
        for v in self.viol[:5]:
            print(f"  {v['suite']}: {v['differences'][0]['kind']}: {v['differences'][0]['what'][:600]}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
