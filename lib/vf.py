"""Shared machinery: build /repo's sources, run drivers, run TLC, report.

Every check is a python function `run(ctx)` in /verif/checks/<id>.py.  It
 1. model-checks the specification (ctx.mc),
 2. compiles /repo's current sources with a driver from /verif/drivers
    (ctx.driver) and records a trace of the real code,
 3. validates the trace against the specification with TLC (ctx.validate).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class Violation(Exception):
    pass


class Machinery(Exception):
    """The check itself could not run (no verdict)."""


CONFIGS = {
    # name: (cc, cflags, ldflags, defines)
    "rel": ("gcc", ["-O2", "-g"], [], []),
    "log": ("gcc", ["-O2", "-g"], [], ["-DLIBSWIFTNAV_ENABLE_STDERR_LOGGING"]),
    "asan": ("gcc", ["-O1", "-g", "-fsanitize=address",
                     "-fno-omit-frame-pointer",
                     "-ftrivial-auto-var-init=pattern"], ["-fsanitize=address"], []),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(SRCS\s+([^)]*)\)", cm)
    srcs = m.group(1).split() if m else []
    srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if not srcs:
        srcs = ["src/" + f for f in os.listdir(os.path.join(REPO, "src"))
                if f.endswith(".c")]
    return sorted(srcs)


def repo_files():
    out = []
    for d in ("src", "include"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return out


def build_lib(cfg):
    """Compile the library from /repo's working tree; cached by content."""
    cc, cflags, ldflags, defs = CONFIGS[cfg]
    key = tree_hash(repo_files()) + "-" + cfg
    out = os.path.join(BUILD, "lib-" + key)
    if os.path.exists(os.path.join(out, "ok")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    with open(os.path.join(REPO, "src/max_channels.h.in")) as f:
        t = f.read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r'set\s*\(\s*(?:libswiftnav_)?MAX_CHANNELS\s+"?(\d+)', cm, re.I)
    mc = m.group(1) if m else "63"
    t = re.sub(r"@\w+@|\$\{\w+\}", mc, t)
    with open(os.path.join(tmp, "max_channels.h"), "w") as f:
        f.write(t)
    base = [cc, "-std=gnu99", "-w", "-UNDEBUG", "-fPIC"] + cflags + defs + [
        "-I" + os.path.join(REPO, "include"), "-I" + tmp,
        "-I" + os.path.join(REPO, "src")]
    srcs = repo_sources()

    def comp(s):
        o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
        return s, sh(base + ["-c", os.path.join(REPO, s), "-o", o])
    with ThreadPoolExecutor(NCPU) as ex:
        for s, r in ex.map(comp, srcs):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise Machinery("cannot compile %s:\n%s" % (s, r.stdout[-3000:]))
    objs = [os.path.join(tmp, os.path.basename(s)[:-2] + ".o") for s in srcs]
    r = sh(["ar", "rcs", os.path.join(tmp, "libswiftnav.a")] + objs)
    if r.returncode:
        raise Machinery(r.stdout)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def build_driver(name, cfg):
    lib = build_lib(cfg)
    cc, cflags, ldflags, defs = CONFIGS[cfg]
    src = os.path.join(VERIF, "drivers", name + ".c")
    std = "-std=gnu99"
    if not os.path.exists(src):
        src, std, cc = src + "c", "-std=gnu++14", "g++"
    hdrs = [os.path.join(VERIF, "drivers", f)
            for f in os.listdir(os.path.join(VERIF, "drivers")) if f.endswith(".h")]
    key = tree_hash([src] + hdrs)
    exe = os.path.join(lib, name + "-" + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
    r = sh([cc, std, "-w", "-UNDEBUG"] + cflags + [
        "-I" + os.path.join(REPO, "include"), "-I" + lib,
        "-I" + os.path.join(VERIF, "drivers"), src,
        os.path.join(lib, "libswiftnav.a"), "-lm", "-lpthread", "-o", tmp] + ldflags)
    if r.returncode:
        raise Machinery("cannot compile driver %s:\n%s" % (name, r.stdout[-4000:]))
    os.rename(tmp, exe)
    return exe


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")
DEPTH = re.compile(r"The depth of the complete state graph search is (\d+)")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.coverage, self.mcs = [], {}, []
        self.violations = []
        self.assumptions = []
        self.nfile = 0

    # ---- TLC -----------------------------------------------------------
    def _tlc(self, module, cfg, workers, env=None, timeout=600, xmx="3g",
             extra=(), specdir=None):
        self.nfile += 1
        meta = os.path.join(self.tmp, "meta%d-%d" % (self.nfile, os.getpid()))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + xmx, "-Xss64m", "-cp", JARS,
               "-Djava.io.tmpdir=" + self.tmp, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        try:
            r = sh(cmd, cwd=specdir or os.path.join(VERIF, "specs"), env=e,
                   timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            shutil.rmtree(meta, ignore_errors=True)
            raise Machinery("TLC timed out on %s after %ss" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        st = STAT.findall(r.stdout)
        gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
        return r.returncode, gen, dist, r.stdout, cmd

    def mc(self, module, cfg=None, workers=NCPU, timeout=600, extra=(), env=None):
        """Model-check a specification. A violated invariant of the *spec* is a
        machinery error: the spec does not depend on /repo."""
        cfg = cfg or module + ".cfg"
        rc, gen, dist, out, cmd = self._tlc(module + ".tla", cfg, workers,
                                            timeout=timeout, extra=extra, env=env)
        if rc != 0:
            raise Machinery("specification %s does not satisfy its own properties (rc=%d)\n%s"
                            % (module, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.mcs.append({"module": module, "config": os.path.basename(cfg),
                         "distinct_states": dist, "states_generated": gen})
        return out

    def validate(self, module, trace, cfg=None, what="", jobs=NCPU, timeout=800,
                 reset=None, env=None, report_line=None, minchunk=2000, extra_note=""):
        """Check a recorded trace against a trace specification.
        reset: None -> records are independent, split anywhere;
               "ev"  -> split only before lines whose event is ev; False -> no split."""
        cfg = cfg or module + ".cfg"
        lines = open(trace, errors="replace").read().splitlines()
        lines = [x for x in lines if x]
        if not lines:
            raise Machinery("empty trace for " + module)
        if not self.samples or len(self.samples) < 6:
            self.samples.append({"trace_of": module, "lines": [s[:400] for s in lines[:2]]})
        chunks = split(lines, jobs, reset, minchunk)
        files = []
        for c in chunks:
            self.nfile += 1
            p = os.path.join(self.tmp, "t%d.ndjson" % self.nfile)
            with open(p, "w") as f:
                f.write("\n".join(c) + "\n")
            files.append(p)

        def one(p):
            ee = {"TRACE": p}
            if env:
                ee.update(env)
            return self._tlc(module + ".tla", cfg, 1, env=ee, timeout=timeout)
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, files))
        for (rc, gen, dist, out, cmd), c, p in zip(res, chunks, files):
            self.states += dist
            self.transitions += gen
            if rc == 0 and "Model checking completed. No error" in out:
                self.traces += 1
                self.lines += len(c)
                continue
            # the specification has no value for what was recorded (a number beyond
            # TLC's integers, an index outside a table): not a behaviour of it
            undefined = rc == 255 and re.search(
                r"Overflow when computing|Attempted to |The error occurred when TLC was evaluating", out) \
                and not re.search(r"OutOfMemory|StackOverflow", out)
            if not undefined and (rc in (0, 150, 151, 152, 153, 255)
                                  or "Parsing or semantic analysis failed" in out):
                raise Machinery("TLC cannot run %s (rc=%d)\n%s" % (module, rc, out[-3000:]))
            rc2 = one(p)[0]
            if rc2 == 0:
                raise Machinery("TLC rejected a trace of %s once and accepted it the second time\n%s"
                                % (module, out[-2000:]))
            n = failing_line(out, len(c))
            bad = c[n - 1] if 0 < n <= len(c) else "?"
            rp = self.replay(module, cfg, p, c, n, out, what)
            self.violation(what or module, "%s: trace line %d is not a behaviour of the "
                           "specification: %s" % (module, n, bad[:600]), rp)
        return len(lines)

    # ---- driver --------------------------------------------------------
    def driver(self, name, args=(), cfg="rel", timeout=240, what="", stdin=None,
               outname=None):
        """Run a driver on the real code; returns the trace it wrote. A crash,
        abort, sanitizer report or hang of the code under test is a violation."""
        exe = build_driver(name, cfg)
        self.nfile += 1
        out = os.path.join(self.tmp, (outname or name) + "-%d.ndjson" % self.nfile)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
        cmd = [exe, out] + [str(a) for a in args]
        err = out + ".err"
        for attempt in (1, 2):
            rc = None
            with open(err, "wb") as ef:
                try:
                    rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=e, timeout=timeout,
                                        stdin=open(stdin) if stdin else subprocess.DEVNULL).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout after %ds" % timeout
            if rc == 0:
                return out
            if rc == 77:
                raise Machinery("driver %s: %s" % (name, open(err, errors="replace").read()[-2000:]))
        tail = open(err, errors="replace").read()[-6000:]
        last = ""
        try:
            last = open(out, errors="replace").read().splitlines()[-1][:500]
        except Exception:
            pass
        rp = self.save_replay({"kind": "driver failure", "cmd": cmd, "exit": str(rc),
                               "last_trace_line": last, "stderr": tail})
        self.violation(what or name, "driver %s: the code under test stopped with %s" % (name, rc), rp)
        raise Violation()

    # ---- reporting -----------------------------------------------------
    def save_replay(self, obj):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.json" % (self.prop, os.getpid(), len(self.violations)))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def replay(self, module, cfg, path, chunk, n, out, what):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, "%s-%d-%d" % (self.prop, os.getpid(), len(self.violations)))
        lo = max(0, n - 400)
        with open(base + ".ndjson", "w") as f:
            f.write("\n".join(chunk[:n]) + "\n")
        obj = {"property": self.prop, "what": what, "kind": "trace rejected",
               "spec": os.path.join(VERIF, "specs", module + ".tla"), "config": cfg,
               "line": n, "event": chunk[n - 1][:4000] if 0 < n <= len(chunk) else None,
               "trace_prefix": base + ".ndjson",
               "rerun": "cd %s/specs && TRACE=%s.ndjson tlc -config %s %s.tla" % (VERIF, base, cfg, module),
               "tlc_output_tail": out[-2500:]}
        with open(base + ".json", "w") as f:
            json.dump(obj, f, indent=1)
        return base + ".json"

    def violation(self, what, msg, replay):
        self.violations.append({"what": what, "message": msg, "replay": replay})

    def finish(self, spec):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": spec.get("level", "model_checking"),
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces,
                                "trace_lines_validated": self.lines,
                                "model_checking_runs": self.mcs,
                                "samples": self.samples or ["none"]}, **self.coverage),
              "assumptions": self.assumptions + spec.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2),
              "violations": self.violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, self.prop + ".json"))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def failing_line(out, total):
    """Trace specs print <<"REJECTED", n>> from their POSTCONDITION; with an
    evaluation error the length of the error trace tells."""
    m = re.findall(r'<<"REJECTED", (\d+)>>', out)
    if m:
        return int(m[-1])
    st = re.findall(r"^State (\d+):", out, re.M)
    if st:
        return int(st[-1])
    m = re.findall(r"/\\ l = (\d+)", out)
    if m:
        return int(m[-1])
    st = STAT.findall(out)
    if st:
        return min(total, int(st[-1][1]))
    return total


def split(lines, jobs, reset, minchunk):
    n = len(lines)
    if reset is False or n <= minchunk:
        return [lines]
    k = max(1, min(jobs, n // minchunk))
    size = (n + k - 1) // k
    out, cur = [], []
    if isinstance(reset, str):
        reset = (reset,)
    tags = None if reset is None else ['"e":"%s"' % r for r in reset]
    for x in lines:
        if len(cur) >= size and (tags is None or any(t in x[:80] for t in tags)):
            out.append(cur)
            cur = []
        cur.append(x)
    if cur:
        out.append(cur)
    return out
