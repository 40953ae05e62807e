"""Shared machinery of the checks: building the harness from /repo, running TLC, running the harness, reporting."""
import json, os, random, re, shutil, subprocess, sys, time, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.environ.get("VP_TARGET", os.path.join(BUILD, "target"))


class ToolError(Exception):
    pass


def cleared(path):
    """Removes one of our scratch directories; code that goes wrong may have filled it with more than there's time for."""
    try:
        subprocess.run(["rm", "-rf", "--", path], timeout=60)
    except subprocess.TimeoutExpired:
        pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.legs, self.failures, self.known, self.built = [], [], [], set()
        self.findings = load_findings(prop)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ building
    def build(self, crate):
        if crate in self.built:
            return
        t = time.time()
        log = os.path.join(self.dir, f"build-{crate}.log")
        with open(log, "w") as f:
            r = subprocess.run([os.path.join(ROOT, "harness/build.sh"), crate], stdout=f, stderr=subprocess.STDOUT)
        if r.returncode:
            with open(log) as f:
                lines = f.read().splitlines()
            errs = [i for i, l in enumerate(lines) if l.startswith("error")]
            show = lines[errs[0]:errs[0] + 40] if errs else lines[-40:]
            raise ToolError(f"harness crate {crate} does not build:\n" + "\n".join(show))
        self.built.add(crate)
        print(f"  built {crate} in {time.time() - t:.0f}s", flush=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, out=None, extra=(), timeout=1500):
        """Returns (stdout lines that are not emitted JSON, stats, path of emitted lines)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        out = out or os.path.join(self.dir, os.path.basename(cfg).replace(".cfg", "") + ".out")
        e = dict(os.environ, **(env or {}))
        e.setdefault("JAVA_TOOL_OPTIONS", "-Xmx6g -Dfile.encoding=UTF-8")
        with open(out, "w") as f:
            try:
                r = subprocess.run(["tlc", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module],
                                   cwd=SPECS, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC did not finish on {cfg} within {timeout}s")
        shutil.rmtree(meta, ignore_errors=True)
        head, stats = [], {"states": 0, "generated": 0, "diameter": 0}
        with open(out) as f:
            for l in f:
                if l[:1] in '{"' or l[:3] == "<<\"":
                    continue
                m = re.search(r"^(\d+) states generated, (\d+) distinct states found", l)
                if m:
                    stats["generated"], stats["states"] = int(m[1]), int(m[2])
                m = re.search(r"depth of the complete state graph search is (\d+)", l)
                if m:
                    stats["diameter"] = int(m[1])
                head.append(l.rstrip())
        head = [l for l in head if not re.match(r"(Semantic|Linting|Parsing|Picked up)", l)]
        return r.returncode, head, stats, out

    def graph(self, module, cfg, **kw):
        """Explores a model exhaustively, checking its own properties, and emits its transitions."""
        rc, head, stats, out = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise ToolError(f"TLC rejects the specification itself ({cfg}):\n" + "\n".join(head[-60:]))
        return out, stats

    def validate(self, module, cfg, trace, n, env=None):
        """Checks a recorded execution against a trace specification. None if accepted, else a description."""
        rc, head, stats, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=trace), workers=1,
                                        out=os.path.join(self.dir, "validate.out"))
        if rc == 0 and stats["diameter"] - 1 == n:
            if os.environ.get("VP_SELFTEST") and not trace.endswith(".changed"):
                self.selftest(module, cfg, trace, n, env)
            return None, stats
        text = "\n".join(head)
        if stats["generated"] == 0 or "Parse Error" in text or "Semantic error" in text:
            raise ToolError(f"TLC could not check the trace ({cfg}):\n" + text[-3000:])
        i = max(0, stats["diameter"] - 1)
        with open(trace) as f:
            lines = f.read().splitlines()
        return {"what": "the specification does not allow the recorded execution", "step": i + 1,
                "event": json.loads(lines[i]) if i < len(lines) else None,
                "previous": [json.loads(x) for x in lines[max(0, i - 3):i]], "tlc": head[-12:]}, stats

    def selftest(self, module, cfg, trace, n, env):
        """Changes one value of an accepted trace, a few times: which of the changed ones are accepted as well?"""
        rng = random.Random(self.seed)
        with open(trace) as f:
            lines = f.read().splitlines()
        kept = 0
        tries = int(os.environ["VP_SELFTEST"]) if int(os.environ["VP_SELFTEST"]) > 1 else 12
        for _ in range(tries):
            i = rng.randrange(len(lines))
            e = json.loads(lines[i])
            spots = []

            def walk(v, path):
                it = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()
                for k, x in it:
                    if isinstance(x, (dict, list)) and x:
                        walk(x, path + [k])
                        if isinstance(x, list):
                            spots.append((v, k, path + [k], x[:-1]))
                    elif isinstance(x, bool):
                        spots.append((v, k, path + [k], not x))
                    elif isinstance(x, int):
                        spots.append((v, k, path + [k], x + 1))
                    elif isinstance(x, str):
                        spots.append((v, k, path + [k], x + "x"))
            walk(e, [])
            v, k, path, new = rng.choice(spots)
            old, v[k] = v[k], new
            changed = trace + ".changed"
            with open(changed, "w") as f:
                f.write("".join((json.dumps(e) if j == i else l) + "\n" for j, l in enumerate(lines)))
            try:
                bad, _ = self.validate(module, cfg, changed, n, env)
            except ToolError:
                bad = {}
            if bad is None:
                kept += 1
                print(f"    accepted as well: line {i + 1}, {path}: {json.dumps(old)[:60]} -> {json.dumps(new)[:60]}  in {lines[i][:200]}")
        print(f"  {module}: {tries - kept} of {tries} changed traces are rejected", flush=True)

    # ------------------------------------------------------------------ the harness
    def harness(self, crate, sub, cfg, timeout=1500, env=None):
        self.build(crate)
        p = os.path.join(self.dir, f"{sub}-{len(os.listdir(self.dir))}.json")
        cfg = dict({"seed": self.seed, "known": sorted(self.findings)}, **cfg)
        with open(p, "w") as f:
            json.dump(cfg, f)
        scratch = os.path.join(self.dir, "scratch")
        os.makedirs(scratch, exist_ok=True)
        e = dict(os.environ, TMPDIR=scratch, **(env or {}))
        e.pop("RUST_LOG", None)
        e.pop("RUST_BACKTRACE", None)
        err = p + ".stderr"
        with open(err, "w") as f:
            try:
                r = subprocess.run([os.path.join(TARGET, "debug", crate), sub, p], stdout=subprocess.PIPE, stderr=f,
                                   env=e, timeout=timeout, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise ToolError(f"{crate} {sub} did not finish within {timeout}s")
        line = [l for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("RESULT ")]
        if not line:
            with open(err) as f:
                tail = f.read()[-2000:]
            if r.returncode < 0 or r.returncode in (134, 139, 101) and "harness:" not in tail:
                # the code under test took the process down
                return {"failure": {"what": f"the process died (status {r.returncode}) while running {sub}",
                                    "stderr": tail, "config": cfg}, "crashed": True}
            raise ToolError(f"{crate} {sub}: no result (status {r.returncode})\n{tail}")
        r = json.loads(line[-1][7:])
        if isinstance(r.get("failure"), dict) and r["failure"].get("what") == "a step does not end":
            # the watchdog of the harness; the legs after this one would only wait as well
            self.leg(sub, dict(r, config=cfg))
            raise ToolError(f"{crate} {sub}: a step does not end")
        return r

    # ------------------------------------------------------------------ results
    def leg(self, name, result, spec=None, **extra):
        """Books one leg of the check. result: what the harness printed."""
        r = dict(result)
        fails = list(r.pop("failures", []) or [])
        if r.get("failure"):
            fails.append(r["failure"])
        r.pop("failure", None)
        self.legs.append(dict({"leg": name, **({"spec": spec} if spec else {})}, **extra, **r))
        for f in fails:
            k = f.get("key") if isinstance(f, dict) else None
            if k and k in self.findings:
                if k not in self.known:
                    self.known.append(k)
                continue
            self.failures.append(dict(f, leg=name, **({"config": result.get("config")} if "config" in result else {})))
        print(f"  {name}: " + ", ".join(f"{k}={v}" for k, v in r.items() if isinstance(v, (int, float))) +
              (f"  FAILED x{len(fails)}" if fails else ""), flush=True)

    def tour(self, name, cfg, budget, module="MCCatalog.tla", crate="h_core", sub="catalog-tour", **kw):
        out, st = self.graph(module, cfg)
        r = self.harness(crate, sub, dict({"graph": out, "budget_s": budget}, **kw))
        with open(out) as f:
            sample = next((json.loads(json.loads(l)) if l[0] == '"' else json.loads(l) for l in f if l[:1] in '{"'), None)
        os.remove(out)
        self.leg(name, r, spec=cfg, sample=sample, exhaustive=r.get("covered") == r.get("transitions"))
        return r

    def cases(self, name, module, cfg, sub, crate="h_core", **kw):
        """Every reachable state of a specification is a case; each is evaluated on the real code."""
        out, st = self.graph(module, cfg)
        r = self.harness(crate, sub, dict({"graph": out}, **kw))
        with open(out) as f:
            ls = [l for l in f if l[:2] == '"{']
        sample = json.loads(json.loads(ls[(self.seed * 7919) % len(ls)])) if ls else None
        os.remove(out)
        r.setdefault("tlc_generated", st["generated"])
        self.leg(name, r, spec=cfg, sample=sample, exhaustive=r.get("covered") == r.get("states"))
        return r

    def finish(self, level, assumptions=()):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tot = lambda k: sum(int(l.get(k) or 0) for l in self.legs)
        ex = [l["exhaustive"] for l in self.legs if "exhaustive" in l]
        cov = {"legs": [{k: v for k, v in l.items() if k != "sample"} for l in self.legs],
               "samples": [l["sample"] for l in self.legs if l.get("sample")][:6] or [self.legs[0] if self.legs else {}]}
        if level == "model_checking":
            cov.update(states=tot("states"), transitions=tot("transitions"),
                       traces_validated_against_impl=tot("histories") + tot("traces"))
            if ex:
                cov["exhaustive"] = all(ex)
        else:
            cov.update(evaluations=tot("evaluations"), distinct_nontrivial=tot("distinct"),
                       rule="; ".join(sorted({l["rule"] for l in self.legs if l.get("rule")})) or "see legs")
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.failures)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {self.findings[k]}")
        cleared(os.path.join(self.dir, "scratch"))
        if not self.failures:
            cleared(self.dir)
            print(f"{self.prop}: held on everything explored ({ev['wall_s']}s)")
            return 0
        rep = os.path.join(BUILD, "replays")
        os.makedirs(rep, exist_ok=True)
        for i, f in enumerate(self.failures[:5]):
            p = os.path.join(rep, f"{self.prop}-{i}.json")
            with open(p, "w") as o:
                json.dump({"property": self.prop, "tier": ev["tier"], "seed": self.seed, **f}, o, indent=1)
            print("  " + str(f.get("what"))[:300])
            print(f"VIOLATION property={self.prop} replay={p}")
        cleared(self.dir)
        return 1


def load_findings(prop):
    """finding: property=<id> key=<key> <what fails>; lines starting with fixed: suppress nothing."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m[1] == prop:
                    out[m[2]] = m[3].strip()
    return out
