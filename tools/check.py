#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N]: decide one property.

Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; any
other exit is an error of the check itself.
"""
import glob, json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import tlc as T

VERIF = B.VERIF


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class CheckError(Exception):
    pass


def known_findings(pid):
    """Listed findings of a property: {identifier: what fails}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) id=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.dir = os.path.join(VERIF, "build", "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.models = {}
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.bins = {}
        self.jobs = min(8, os.cpu_count() or 4)
        self.violations = 0
        self.known = known_findings(pid)
        self.seen_known = set()

    # -- building -----------------------------------------------------------
    def build(self, targets):
        t0 = time.time()
        self.bins.update(B.build(targets))
        self.extra["build_s"] = round(time.time() - t0, 1)

    # -- running the real code ----------------------------------------------
    def drive(self, driver, *args, timeout=240, shards=None, stdin=None, seed=0):
        """Runs a driver; a crash or a hang that repeats is a violation."""
        cmd = [self.bins[driver], "--seed", str(self.seed * 100 + seed), "--tier", self.tier, "--out", self.dir]
        if shards:
            cmd += ["--shards", str(shards)]
        cmd += [str(a) for a in args]
        for attempt in (1, 2):
            t0 = time.time()
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=self.dir, input=stdin)
                code = r.returncode
                tail = (r.stdout + r.stderr)[-2000:]
            except subprocess.TimeoutExpired:
                code, tail, r = "timeout", "", None
            if code == 0:
                self.extra["drive_s"] = round(self.extra.get("drive_s", 0) + time.time() - t0, 1)
                return r.stdout
            if code == 3:
                raise CheckError(f"driver {driver} could not do its work: {tail}")
        at = ""
        pf = os.path.join(self.dir, "progress.txt")
        if os.path.exists(pf):
            at = open(pf).read().strip()
        self.fail(f"driver {driver} ended with {code} while doing: {at}", {"cmd": cmd, "progress": at, "output": tail})

    # -- judging what it did --------------------------------------------------
    def files(self, pattern):
        fs = sorted(glob.glob(os.path.join(self.dir, pattern)))
        fs = [f for f in fs if os.path.getsize(f) > 0]
        if not fs:
            raise CheckError(f"no trace files match {pattern}")
        return fs

    def tlc(self, jobs):
        """jobs: list of dict(module, cfg, env, trace, model, ...); all must pass."""
        def one(j):
            env = dict(j.get("env", {}), **{"KNOWN_" + k: "1" for k in self.known})
            if j.get("trace"):
                env["TRACE"] = j["trace"]
            kw = dict(cfg=j.get("cfg"), env=env, timeout=j.get("timeout", 700), heap=j.get("heap", "3g"), workers=j.get("workers", 1),
                      simulate=j.get("simulate"), depth=j.get("depth"), seed=self.seed, coverage=j.get("coverage", False))
            r = T.run_tlc(j["module"], **kw)
            if r.status != "ok":
                again = T.run_tlc(j["module"], **kw)
                if again.status == "ok":
                    r = again       # not reproducible: a failure of the machinery, and it has now succeeded
                elif again.status != r.status:
                    r.status = "error"
            return j, r
        for j in jobs:
            if j.get("trace"):
                with open(j["trace"]) as f:
                    lines = f.read().split("\n")
                self.events += sum(1 for x in lines if x)
                if len(self.samples) < 3 and lines and lines[0]:
                    self.samples.append({"file": os.path.basename(j["trace"]), "first_events": [x[:300] for x in lines[:3]]})
        with ThreadPoolExecutor(self.jobs) as ex:
            results = list(ex.map(one, jobs))
        bad = None
        for j, r in results:
            name = j["module"] + (":" + os.path.basename(j["trace"]) if j.get("trace") else "")
            print(f"tlc {name}: {r.brief()}", flush=True)
            self.states += r.states
            self.transitions += r.transitions
            m = self.models.setdefault(j["module"] + ("/" + j["cfg"] if j.get("cfg") else ""), {"runs": 0, "states": 0, "transitions": 0})
            m["runs"] += 1
            m["states"] += r.states
            m["transitions"] += r.transitions
            if r.coverage:
                for k, v in r.coverage.items():
                    c = m.setdefault("actions", {})
                    c[k] = c.get(k, 0) + v
            for k in set(re.findall(r'@@KNOWN", "([A-Z0-9a-z_]+)"', r.out)):
                if k in self.known and k not in self.seen_known:
                    self.seen_known.add(k)
                    print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}", flush=True)
            if r.status != "ok" and bad is None:
                bad = (j, r)
        if bad:
            j, r = bad
            text = r.out[max(0, r.out.find("Starting...")):]
            if r.status == "error" or not j.get("trace"):
                raise CheckError(f"TLC failed on {j['module']}: {text[-3000:]}")
            event = None
            if r.progress is not None:
                ls = open(j["trace"]).read().split("\n")
                event = {"line": r.progress + 1, "event": ls[r.progress] if r.progress < len(ls) else None}
            self.fail(f"{j['module']} rejects {os.path.basename(j['trace'])}: {(event or {})} {' '.join(r.notes)[:600]}",
                      {"module": j["module"], "cfg": j.get("cfg"), "env": j.get("env", {}), "trace": j["trace"], "event": event, "tlc": text[-6000:]}, j["trace"])
        return [r for _, r in results]

    def validate(self, module, pattern, cfg=None, sessions_key=None, **kw):
        fs = self.files(pattern)
        res = self.tlc([dict(module=module, cfg=cfg, trace=f, **kw) for f in fs])
        n = 0
        for f in fs:
            with open(f) as g:
                t = g.read()
            n += t.count('"ev":"begin"') or t.count("\n")
        self.traces += n
        return res

    def model(self, module, cfg=None, **kw):
        return self.tlc([dict(module=module, cfg=cfg, **kw)])[0]

    def fail(self, what, detail, *files):
        d = os.path.join(VERIF, "evidence", "replay", f"{self.pid}-{self.tier}-{self.seed}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in files:
            shutil.copy(f, d)
        detail = dict(detail, what=what, property=self.pid, rerun=f"VERIF_SEED={self.seed} python3 tools/check.py {self.pid} --tier {self.tier}")
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump(detail, f, indent=1, default=str)
        raise Violation(what, os.path.join(d, "violation.json"))

    def evidence(self, wall, spec):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["none"], "events": self.events, "models": self.models, **self.extra},
              "assumptions": self.assumptions + spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    import props
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = props.CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    t0 = time.time()
    code = 0
    try:
        ctx.build({d: props.DRIVERS[d] for d in spec["drivers"]})
        spec["run"](ctx)
    except Violation as v:
        ctx.violations = 1
        print(f"violated: {v.what}")
        print(f"VIOLATION property={pid} replay={v.replay}")
        code = 1
    except (CheckError, B.BuildError) as e:
        print(f"ERROR: {e}")
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    if code != 2:
        ctx.evidence(time.time() - t0, spec)
    if code == 0:
        for f in glob.glob(os.path.join(ctx.dir, "*")):
            if os.path.isfile(f):
                os.unlink(f)
    print(f"{pid} {tier} seed={seed}: exit {code} after {time.time() - t0:.1f}s; states={ctx.states} traces={ctx.traces} events={ctx.events}")
    sys.exit(code)


if __name__ == "__main__":
    main()
