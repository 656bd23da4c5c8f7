"""Running TLC and reading its verdict."""
import os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self):
        self.status = None      # ok | rejected | evalerror | error
        self.states = 0
        self.transitions = 0
        self.depth = 0
        self.out = ""
        self.wall = 0.0
        self.progress = None    # highest trace position reached, for a trace spec
        self.trace_len = None
        self.notes = []
        self.coverage = {}

    def brief(self):
        return f"{self.status} states={self.states} generated={self.transitions} depth={self.depth} {self.wall:.1f}s"


def run_tlc(module, cfg=None, env=None, timeout=600, heap="2g", workers=1, simulate=None, depth=None, seed=None,
            coverage=False, extra_jvm=(), stack="64m"):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg."""
    res = TlcResult()
    meta = tempfile.mkdtemp(prefix="tlcmeta-", dir=os.path.join(VERIF, "build"))
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
           "-XX:TieredStopAtLevel=4", "-Dtlc2.TLC.stopAfter=100000", "-Djava.io.tmpdir=" + meta, *extra_jvm, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None and simulate:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=meta, env=e, errors="replace")
        res.out = r.stdout + r.stderr
        code = r.returncode
    except subprocess.TimeoutExpired as x:
        res.out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        code = -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.wall = time.time() - t0
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", res.out)
    if m:
        res.transitions = int(m[-1][0].replace(",", ""))
        res.states = int(m[-1][1].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
    if m:
        res.depth = int(m.group(1))
    m = re.findall(r'<<"@@END", (\d+), (\d+)>>', res.out)
    if m:
        res.progress, res.trace_len = int(m[-1][0]), int(m[-1][1])
    res.notes = re.findall(r'<<"@@MISMATCH".*', res.out)[:10]
    for name, a, b in re.findall(r"<(\w+) line[^>]*>: (\d+):(\d+)", res.out):
        res.coverage[name] = int(b)
    if code == 0:
        res.status = "ok"
    elif code in (10, 11, 12, 13):
        res.status = "rejected"
    elif code in (75, 76, 77) and "OutOfMemory" not in res.out and "StackOverflow" not in res.out:
        res.status = "evalerror"
    else:
        res.status = "error"
    return res
