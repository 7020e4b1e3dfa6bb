"""Shared machinery of the checks: build, decks, runs, Exodus reading, TLC, evidence, verdicts."""
import concurrent.futures as cf
import contextlib, fcntl, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    """Something other than the code under test went wrong: the check gives no verdict."""


def env():
    e = dict(os.environ)
    e.update(OMPI_CC="gcc", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_plm="isolated", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.pop("LD_PRELOAD", None)
    return e


ENV = env()


# --------------------------------------------------------------------------- build
def build(*targets):
    """Builds the program (and drivers) from /repo's working tree; returns the directory of the binaries."""
    targets = targets or ("Peridigm",)
    os.makedirs(BUILD, exist_ok=True)
    e = dict(ENV)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    cmd = ["cmake", "-S", REPO, "-B", BUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_CXX_COMPILER=mpicxx", "-DCMAKE_C_COMPILER=mpicc", "-DHAVE_YAML=ON",
           "-DCMAKE_CXX_FLAGS=-DUSE_YAML -O1", "-DCMAKE_CXX_STANDARD_LIBRARIES=-lexoIIv2c -lnetcdf",
           "-DVERIF_HARNESS=" + os.path.join(VERIF, "harness"),
           "-DCMAKE_PROJECT_Peridigm_INCLUDE=" + os.path.join(VERIF, "harness", "include.cmake")]
    if shutil.which("ccache"):
        cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(BUILD, "build.log")
        with open(log, "w") as f:
            for c in (cmd, ["ninja", "-C", BUILD] + list(targets)):
                try:
                    r = subprocess.run(c, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=850)
                except subprocess.TimeoutExpired:
                    raise ToolError("build timed out")
                if r.returncode:
                    f.flush()
                    raise ToolError("build failed:\n" + open(log).read()[-4000:])
    return os.path.join(BUILD, "src")


def driver(name):
    """Builds one of the drivers in /verif/harness on top of the program."""
    return os.path.join(build("Peridigm", name), name)


# --------------------------------------------------------------------------- decks
def q(v):
    """YAML scalar as Peridigm's reader wants it."""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        s = repr(v)
        if "e" in s and "." not in s:
            s = s.replace("e", ".0e")
        return s
    return '"' + str(v) + '"'


def yaml(d, ind=0):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            if not v:
                continue
            out.append(" " * ind + '%s:' % k)
            out.append(yaml(v, ind + 2))
        else:
            out.append(" " * ind + '%s: %s' % (k, q(v)))
    return "\n".join(out)


def num(x):
    return repr(float(x))


class Run:
    """Result of one execution of the real program."""
    __slots__ = ("rc", "log", "files", "dir", "timeout", "wall")


def scratch_root():
    d = os.environ.get("VERIF_SCRATCH") or os.path.join(VERIF, "_work")
    os.makedirs(d, exist_ok=True)
    return d


@contextlib.contextmanager
def scratch(prefix="r"):
    d = tempfile.mkdtemp(prefix=prefix, dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


HANGS = []                        # runs that did not end; after a few of them the rest is not attempted
PATIENCE = 4


def execute(cwd, deckname="deck.yaml", np=1, timeout=60, exe=None, args=None):
    exe = exe or os.path.join(BUILD, "src", "Peridigm")
    cmd = [exe] + (args if args is not None else [deckname])
    if np > 1:
        cmd = ["mpirun", "-np", str(np)] + cmd
    e = dict(ENV)
    e["TMPDIR"] = cwd
    r = Run()
    t = time.time()
    r.dir, r.files, r.wall = cwd, {}, 0.0
    if len(HANGS) >= PATIENCE:
        r.rc, r.timeout, r.log = 124, True, "not attempted"
        return r
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        r.rc, r.timeout = p.returncode, False
        r.log = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        r.rc, r.timeout, r.log = 124, True, (ex.stdout or b"").decode("utf-8", "replace")
        HANGS.append(cwd)
    r.wall = time.time() - t
    return r


def simulate(deck, files, np=1, outputs=("out",), timeout=60, keep=None, exe=None):
    """Runs one deck (dict, without the Peridigm root) in a scratch directory and reads its output files."""
    with scratch() as d:
        for n, t in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        with open(os.path.join(d, "deck.yaml"), "w") as f:
            f.write(yaml({"Peridigm": deck}) + "\n")
        r = execute(d, np=np, timeout=timeout, exe=exe)
        if r.rc == 0:
            for o in outputs:
                r.files[o] = read_output(d, o, np)
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        return r


def crashed_by_tool(r):
    """True if the failure is one of the MPI launcher or the machine, not of the program."""
    return r.rc in (-9, 137) or (r.rc != 0 and ("opal_init" in r.log or "orte_init" in r.log or "not enough slots" in r.log))


# --------------------------------------------------------------------------- Exodus
def read_exo(path):
    from scipy.io import netcdf_file
    import numpy as np
    f = netcdf_file(path, "r", mmap=False)

    def names(k):
        if k not in f.variables:
            return []
        d = f.variables[k][:]
        return [b"".join(r).split(b"\0")[0].decode().strip() for r in d.reshape(-1, d.shape[-1])]
    V = f.variables
    o = {"time": [float(t) for t in V["time_whole"][:]] if "time_whole" in V else []}
    o["node_ids"] = [int(i) for i in V["node_num_map"][:]] if "node_num_map" in V else []
    o["elem_ids"] = [int(i) for i in V["elem_num_map"][:]] if "elem_num_map" in V else []
    o["coord"] = [[float(V["coord" + c][i]) for c in "xyz"] for i in range(len(o["node_ids"]))] if "coordx" in V else []
    o["blocks"] = names("eb_names")
    nb = len(o["blocks"])
    o["block_ids"] = [int(i) for i in V["eb_prop1"][:]] if "eb_prop1" in V else []
    o["sets"] = names("ns_names")
    o["set_nodes"] = [[int(i) for i in V["node_ns%d" % (k + 1)][:]] if "node_ns%d" % (k + 1) in V else []
                      for k in range(len(o["sets"]))]
    o["elem_block"] = []
    cnt = []
    for b in range(nb):
        k = "connect%d" % (b + 1)
        n = V[k].shape[0] if k in V else 0
        cnt.append(n)
        o["elem_block"] += [o["blocks"][b]] * n
    o["connect"] = []
    for b in range(nb):
        k = "connect%d" % (b + 1)
        if k in V:
            o["connect"] += [[int(x) for x in r] for r in V[k][:]]
    o["nodal"] = {n: np.array(V["vals_nod_var%d" % (i + 1)][:]) for i, n in enumerate(names("name_nod_var"))
                  if "vals_nod_var%d" % (i + 1) in V}
    o["nodal_names"] = names("name_nod_var")
    o["elem_names"] = names("name_elem_var")
    o["elem"] = {}
    nt = len(o["time"])
    for i, n in enumerate(o["elem_names"]):
        cols = []
        for b in range(nb):
            k = "vals_elem_var%deb%d" % (i + 1, b + 1)
            if k in V:
                cols.append(np.array(V[k][:]))
            else:
                cols.append(np.full((nt, cnt[b]), float("nan")))
        o["elem"][n] = np.concatenate(cols, axis=1) if cols else np.zeros((nt, 0))
    o["global_names"] = names("name_glo_var")
    g = np.array(V["vals_glo_var"][:]) if "vals_glo_var" in V else None
    o["global"] = {n: g[:, i] for i, n in enumerate(o["global_names"])} if g is not None else {}
    f.close()
    return o


def read_output(d, base, np_, suffix="e"):
    """Merges the per-rank files of one output request.  Values are indexed by point id (1-based)."""
    paths = [os.path.join(d, "%s.%s" % (base, suffix))] if np_ == 1 else \
            [os.path.join(d, "%s.%s.%d.%0*d" % (base, suffix, np_, len(str(np_)), i)) for i in range(np_)]
    if not any(os.path.exists(p) for p in paths):
        return None
    parts = [read_exo(p) for p in paths if os.path.exists(p)]
    return merge(parts)


def column(a, j):
    """The history of one point; not a number if the file does not have it."""
    return [float(x) for x in a[:, j]] if j < a.shape[1] else [float("nan")] * a.shape[0]


def merge(parts):
    o = {"nfiles": len(parts), "time": parts[0]["time"], "times_agree": all(p["time"] == parts[0]["time"] for p in parts),
         "dup": [], "pts": {}, "nodal": {}, "elem": {}, "elem_block": {}, "global": parts[0]["global"],
         "globals_agree": True, "id_mismatch": [], "sets": {}, "blocks": parts[0]["blocks"],
         "nodal_names": parts[0]["nodal_names"], "elem_names": parts[0]["elem_names"],
         "global_names": parts[0]["global_names"], "names_agree": True}
    for p in parts:
        if p["node_ids"] and not o["pts"]:          # ranks without points describe nothing
            o["nodal_names"], o["elem_names"], o["blocks"] = p["nodal_names"], p["elem_names"], p["blocks"]
        if not p["node_ids"]:
            pass
        elif p["nodal_names"] != o["nodal_names"] or p["elem_names"] != o["elem_names"] or p["blocks"] != o["blocks"]:
            o["names_agree"] = False
        for k, v in p["global"].items():
            w = o["global"].get(k)
            if w is None or len(w) != len(v) or any(a != b and not (a != a and b != b) for a, b in zip(w, v)):
                o["globals_agree"] = False
        loc = {}
        for j, i in enumerate(p["node_ids"]):
            if i in o["pts"]:
                o["dup"].append(i)
            o["pts"][i] = p["coord"][j]
            loc[j + 1] = i
        for n, a in p["nodal"].items():
            dst = o["nodal"].setdefault(n, {})
            for j, i in enumerate(p["node_ids"]):
                dst[i] = column(a, j)
        # the element number map lists elements in block order; so does read_exo
        for j, i in enumerate(p["elem_ids"]):
            if j < len(p["connect"]):
                nid = loc.get(p["connect"][j][0])
                if nid != i:
                    o["id_mismatch"].append((i, nid))
            if j < len(p["elem_block"]):
                o["elem_block"][i] = p["elem_block"][j]
        for n, a in p["elem"].items():
            dst = o["elem"].setdefault(n, {})
            for j, i in enumerate(p["elem_ids"]):
                dst[i] = column(a, j)
        for n, s in zip(p["sets"], p["set_nodes"]):
            o["sets"].setdefault(n, []).extend(loc.get(x, -x) for x in s)
    for dst in o["elem"].values():
        for i in o["pts"]:
            dst.setdefault(i, [float("nan")] * len(o["time"]))
    return o


class OffGrid(Exception):
    pass


BAD = 2000000011      # a value no specification expects: off the grid, NaN or out of range


def qz(x, unit, tol=1e-6, big=1900000000):
    """Observed value in grid units; BAD when it does not lie on the grid."""
    y = x / unit
    if not (abs(y) < big):
        return BAD
    r = round(y)
    if abs(y - r) > tol:
        return BAD
    return int(r)


def sig(x, unit, big=1900000000):
    """Observed value rounded to grid units (for comparisons with tolerance)."""
    y = x / unit
    if not (abs(y) < big):
        return BAD
    return int(round(y))


# --------------------------------------------------------------------------- TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tlc:
    __slots__ = ("rc", "out", "generated", "distinct", "diameter", "violated", "wall", "prints")


def tlc(module, cfg, workers=1, extra=(), envv=None, timeout=800, heap="3g", deque=False, ok=(0,)):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.  Anything but success or a reported violation is a ToolError."""
    with scratch("tlc") as d:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        if not cfg.endswith(".cfg"):
            with open(os.path.join(d, module + "_gen.cfg"), "w") as f:
                f.write(cfg)
            cfg = module + "_gen.cfg"
        e = dict(ENV)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if envv:
            e.update(envv)
        opts = ["-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d]
        if deque:
            opts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = ["java"] + opts + ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir",
                                 os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        r = Tlc()
        r.wall = time.time() - t
        r.rc, r.out = p.returncode, p.stdout.decode("utf-8", "replace")
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.out)
        r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", r.out)
        r.diameter = int(m[-1]) if m else 0
        r.violated = None
        if r.rc in (10, 11, 12, 13):
            m = re.search(r"(?:Invariant|Action property|Temporal properties?|property) ?(\S*) (?:is|was|were) violated", r.out)
            r.violated = m.group(1) if m else "rc%d" % r.rc
        elif r.rc != 0:
            raise ToolError("TLC rc=%d on %s/%s:\n%s" % (r.rc, module, cfg, r.out[-3500:]))
        r.prints = re.findall(r"^(<<.*>>)\s*$", r.out, re.M)
        return r


def model_check(module, cfg, **kw):
    """An exhaustive exploration whose violation means that the specification itself is broken: no verdict on the code."""
    r = tlc(module, cfg, **kw)
    if r.violated:
        raise ToolError("specification %s violates %s:\n%s" % (module, r.violated, r.out[-3000:]))
    return r


TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
%s
"""


def validate(module, runs, consts="", chunks=None, timeout=800, heap="3g"):
    """Validates recorded runs (each a list of events) against <module>.  Returns (rejected, stats).

    rejected: list of (run index, event index) - the first event of that run which is no step of the specification.
    Every run has to start with an event that resets the machine.  Chunks are validated in parallel."""
    runs = list(runs)
    if not runs:
        return [], dict(states=0, transitions=0, traces=0)
    n = chunks or min(NCPU, max(1, len(runs) // 4))
    order = list(range(len(runs)))
    groups = [order[i::n] for i in range(n)]
    groups = [g for g in groups if g]
    stats = dict(states=0, transitions=0, traces=0, why={})
    why = stats["why"]
    rejected = []

    def one(group):
        rej, st, tr, acc = [], 0, 0, 0
        pending = list(group)
        while pending:
            idx, lines = [], []
            for k in pending:
                for j, ev in enumerate(runs[k]):
                    idx.append((k, j))
                    lines.append(json.dumps(ev))
            with scratch("tr") as d:
                p = os.path.join(d, "trace.ndjson")
                with open(p, "w") as f:
                    f.write("\n".join(lines) + "\n")
                r = tlc(module, TRACE_CFG % consts, workers=1, envv={"TRACE": p}, timeout=timeout, heap=heap,
                        extra=())
            st += r.distinct
            tr += r.generated
            m = re.search(r'"TRACE_DEPTH", (\d+), (\d+)', r.out)
            if not m:
                raise ToolError("no depth reported by " + module + "\n" + r.out[-3000:])
            depth, ln = int(m.group(1)), int(m.group(2))
            if ln != len(lines):
                raise ToolError("trace length mismatch")
            if depth == ln:
                if r.violated:
                    raise ToolError("violation without rejection: " + r.out[-2000:])
                acc += len(pending)
                break
            bad = idx[depth]                       # events 1..depth were consumed
            m = re.findall(r'^(<<\s*"MISMATCH".*)', r.out, re.M | re.S)
            why[bad] = " ".join(m[0].split(">>\nTRACE")[0].split())[:3000] if m else ""
            rej.append(bad)
            pos = pending.index(bad[0])
            acc += pos
            pending = pending[pos + 1:]
            if len(rej) >= 3:
                break
        return rej, st, tr, acc

    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        for rej, st, tr, acc in ex.map(one, groups):
            rejected += rej
            stats["states"] += st
            stats["transitions"] += tr
            stats["traces"] += acc
    return sorted(rejected), stats


def pmap(fn, items, workers=None):
    with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
        return list(ex.map(fn, items))


# --------------------------------------------------------------------------- verdicts
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def known_findings(prop):
    """Lines 'open: property=<id> key=<key> <text>' of the committed file."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, prop, level="model_checking", assumptions=()):
        self.prop, self.level = prop, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = list(assumptions)
        self.violations = []
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.phases = {}
        self.known = {}

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def mc(self, module, cfg, **kw):
        r = model_check(module, cfg, **kw)
        self.add(states=r.distinct, transitions=r.generated)
        self.phases[module + "/" + (cfg if cfg.endswith(".cfg") else "generated")] = dict(states=r.distinct, transitions=r.generated)
        return r

    def refuted(self, module, cfg, **kw):
        """A deliberately wrong design: TLC has to find the violation, otherwise the model says nothing."""
        r = tlc(module, cfg, **kw)
        if not r.violated:
            raise ToolError("%s/%s was expected to be refuted" % (module, cfg))
        self.add(refuted_designs=1)

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def conform(self, module, scenarios, runner, consts="", chunks=None, label=None, confirm=True):
        """runner(scenario) -> list of events (a recorded run).  All are validated by TLC; a rejected run is repeated
        and only reported when it is rejected again."""
        t = time.time()
        runner = readable(runner)
        recs = pmap(lambda s: runner(s), scenarios)
        t1 = time.time()
        rej, st = validate(module, recs, consts, chunks)
        self.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["traces"])
        ph = self.phases.setdefault(label or module, dict(runs=0, accepted=0, events=0, run_s=0, tlc_s=0))
        ph["runs"] += len(recs)
        ph["accepted"] += st["traces"]
        ph["events"] += sum(len(r) for r in recs)
        ph["run_s"] = round(ph["run_s"] + t1 - t, 1)
        ph["tlc_s"] = round(ph["tlc_s"] + time.time() - t1, 1)
        if scenarios:
            k = self.rng.randrange(len(scenarios))
            self.sample(dict(module=module, scenario=brief(scenarios[k]), events=len(recs[k])))
        for k, j in rej[:3]:
            if confirm:
                HANGS.clear()
                again = runner(scenarios[k])
                rej2, st2 = validate(module, [again], consts, 1)
                if not rej2:
                    print("note: rejection of run %d did not repeat; not reported: %s %s" % (k, brief(recs[k][j], 400), st["why"].get((k, j), "")[:300]))
                    continue
                rec, j = again, rej2[0][1]
                why = st2["why"].get(rej2[0], "")
            else:
                rec, why = recs[k], st["why"].get((k, j), "")
            self.violation("%s rejects event %d (%s) of run %d" % (module, j, rec[j].get("ev"), k),
                           dict(module=module, consts=consts, scenario=scenarios[k], event=j, why=why, rejected=rec[j], trace=rec))
        return recs

    def finding(self, key, module, scenario, runner, consts=""):
        """A history listed as open in KNOWN_FINDINGS: reported as such while it is rejected.  An unlisted one is a violation."""
        rec = runner(scenario)
        rej, st = validate(module, [rec], consts, 1)
        self.add(known_histories=1)
        if not rej:
            print("note: known finding %s is no longer seen" % key)
        elif key in known_findings(self.prop):
            self.known[key] = known_findings(self.prop)[key]
        else:
            j = rej[0][1]
            self.violation("%s rejects event %d (%s) of %s" % (module, j, rec[j].get("ev"), key),
                           dict(module=module, consts=consts, scenario=scenario, event=j, why=st["why"].get(rej[0], ""), rejected=rec[j], trace=rec))

    def finish(self):
        self.cov["phases"] = self.phases
        self.cov["samples"] = self.cov["samples"] or ["none"]
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for t in self.known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (what, rp) in enumerate(self.violations):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(dict(what=what, seed=SEED, tier=TIER, **rp), f, indent=1, default=str)
                print(what)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("property %s held: %s" % (self.prop, {k: v for k, v in self.cov.items() if k not in ("samples",)}))
        return 0


def readable(runner):
    """Output that lacks what every file of the unchanged program has is an event no specification has a step for."""
    def run(s):
        try:
            return runner(s)
        except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError):
            return [{"ev": "unreadable", "log": traceback.format_exc()[-1500:]}]
    return run


def brief(s, n=1500):
    t = json.dumps(s, default=str)
    return s if len(t) <= n else t[:n]


def main(fn, prop):
    try:
        sys.exit(fn())
    except ToolError as e:
        print("ERROR in check of %s: %s" % (prop, e))
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
