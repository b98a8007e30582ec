"""Shared machinery of the checks: builds the simulation host and the drivers from
/repo's working tree, runs scenarios, runs TLC on the specifications and reports."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = VERIF + "/harness"
SPEC = VERIF + "/spec"
OUT = VERIF + "/out"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar"

WRAPS = """pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv
_ZNSt18condition_variableC1Ev _ZNSt18condition_variableD1Ev
pthread_once pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait sem_init sem_destroy sem_wait sem_trywait sem_post sem_getvalue getcpu clock_nanosleep
pthread_create pthread_join pthread_detach pthread_self pthread_setaffinity_np _ZNSt6thread20hardware_concurrencyEv
sched_getcpu numa_node_of_cpu sched_yield pthread_yield usleep sleep nanosleep rand random rand_r
pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific memcpy __assert_fail
nc_open nc_close nc_inq_varid nc_inq_varndims nc_inq_vardimid nc_inq_dim nc_inq_dimlen nc_inq_dimname nc_inq_vartype nc_inq_type nc_inq_var
nc_get_var nc_get_var1 nc_get_vara nc_get_vars nc_get_varm""".split()
for _k in "var var1 vara vars varm".split():
    for _t in "uchar schar int long float double longlong short".split():
        WRAPS.append("nc_get_%s_%s" % (_k, _t))

BASE_DEFS = ["MAX_DIMENSIONS=4", "THREADSAFE", "USE_PTHREAD", "USE_MPI", "USE_MPI3", "ROUND_ROBIN", "DEBUG_LEVEL=0", "OMPI_SKIP_MPICXX"]


class Fail(Exception):
    """The check itself could not run."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    res = []
    for d in ["", "allocator", "cache", "fortran", "grid", "grid/level", "io", "magic", "mpi", "numa", "perf", "threads", "transfer", "types"]:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            b = os.path.basename(f)
            if b.startswith("no") and d in ("mpi", "numa"):
                continue
            res.append(f)
    return res


class Check:
    """One run of one check."""

    def __init__(self, pid, tier=None):
        self.pid = pid
        self.t0 = time.time()
        self.tier = tier or TIER
        self.rng = random.Random(SEED * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.extra = {}
        self.bg, self.bgdone, self.bgx = [], [], cf.ThreadPoolExecutor(3)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ building
    def build(self, drivers):
        try:
            return self.build1(drivers)
        except Fail:
            if not any(d.get("fast", True) for d in drivers):
                raise
            self.log("building with all element types instead")
            return self.build1([dict(d, fast=False) for d in drivers])

    def build1(self, drivers):
        """drivers: list of (name, driver source | None, sources, defines, options).
        Returns {name: .so path}; also builds simhost and mknc."""
        b = self.dir + "/b"
        os.makedirs(b, exist_ok=True)
        jobs = []   # (command, output)
        host = subprocess.Popen(["bash", H + "/host/build.sh", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        mk = subprocess.Popen(["g++", "-O1", "-std=c++11", "-w", H + "/tools/mknc.cpp", "-o", b + "/mknc", "-lnetcdf"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        links = {}
        for d in drivers:
            name, drv = d["name"], d["driver"]
            srcs = d.get("sources", "all")
            srcs = lib_sources() if srcs == "all" else [os.path.join(REPO, s) for s in srcs]
            if "ASAGI_NOMPI" in d.get("defs", []):
                srcs = [s for s in srcs if os.path.basename(os.path.dirname(s)) != "mpi"]
            defs = [x for x in BASE_DEFS if x not in d.get("undef", [])] + d.get("defs", [])
            inc = []
            if d.get("fast", True):
                inc = ["-I" + H + "/shim_fast"]
            flags = ["clang++", "-std=c++11", "-w", "-fPIC", d.get("opt", "-O0"), "-g1"] + ["-D" + x for x in defs] + \
                ["-include", "cstring",] + inc + ["-I" + H + "/shim", "-I" + REPO, "-I" + REPO + "/include", "-fno-stack-protector"]
            if d.get("tsan", True):
                flags += ["-fsanitize=thread"]
            od = b + "/" + name
            os.makedirs(od, exist_ok=True)
            objs = []
            for s in [H + "/drv/" + drv] + srcs:
                o = od + "/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
                objs.append(o)
                jobs.append((flags + ["-c", s, "-o", o], s))
            if d.get("fortran"):      # the Fortran module and a program on top of it, and C's view of the header
                for s, cmd in [(REPO + "/include/asagi.f90", None), (H + "/drv/fapi.f90", None), (H + "/drv/capi.c", ["gcc", "-std=c99"])]:
                    o = od + "/" + os.path.basename(s) + ".o"
                    objs.append(o)
                    r = sh((cmd or ["gfortran", "-J", od, "-I", od]) + ["-w", "-fPIC", "-O0"] + (["-DASAGI_NOMPI"] if "ASAGI_NOMPI" in defs else []) + ["-I" + H + "/shim", "-I" + REPO + "/include", "-c", s, "-o", o])
                    if r.returncode:
                        host.wait(), mk.wait()
                        raise Fail("build of %s failed:\n%s" % (s, r.stdout[-3000:]))
            links[name] = objs
        jobs.sort(key=lambda j: 0 if "grid.cpp" in j[1] else 1)
        errs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (cmd, s), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
                if r.returncode:
                    errs.append(s + "\n" + r.stdout[-3000:])
        ho, _ = host.communicate()
        mo, _ = mk.communicate()
        if host.returncode or mk.returncode:
            raise Fail("host build failed\n" + (ho or "") + (mo or ""))
        if errs:
            raise Fail("build of /repo's sources failed:\n" + "\n".join(errs[:3]))
        res = {}

        def link(name):
            so = b + "/" + name + ".so"
            r = sh(["g++", "-shared", "-o", so, "-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAPS] + links[name] + ["-nodefaultlibs", "-lnetcdf"] + (["-lgfortran"] if any(o.endswith("fapi.f90.o") for o in links[name]) else []) + [ "-lstdc++", "-lm", "-lc", "-l:libgcc_s.so.1"])
            return name, so, r
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for name, so, r in ex.map(link, links):
                if r.returncode:
                    raise Fail("link of %s failed:\n%s" % (name, r.stdout[-3000:]))
                res[name] = so
        self.host = b + "/simhost"
        self.mknc = b + "/mknc"
        self.log("built", ", ".join(res))
        return res

    def files(self, lines):
        """create netCDF files; lines as for mknc"""
        p = self.dir + "/files.txt"
        open(p, "w").write("\n".join(lines) + "\n")
        r = sh([self.mknc, p])
        if r.returncode:
            raise Fail("mknc: " + r.stdout)

    def run(self, so, jobs, par=None, cap=1 << 20, tag="run", timeout=800):
        """jobs: list of (head dict, text).  Returns list of {job, verdict, ev}."""
        scen = "%s/%s.scen" % (self.dir, tag)
        out = "%s/%s.out" % (self.dir, tag)
        with open(scen, "w") as f:
            for h, t in jobs:
                f.write(" ".join("%s=%s" % kv for kv in h.items()) + "|" + t.replace("\n", " ") + "\n")
        t = time.time()
        try:
            r = sh([self.host, "--so", so, "--scen", scen, "--out", out, "--par", str(par or NPROC), "--cap", str(cap)], timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Fail("simulation timed out")
        if r.returncode:
            raise Fail("simulation host failed: rc=%d %s" % (r.returncode, r.stdout[-2000:]))
        res = []
        for line in open(out):
            try:
                res.append(json.loads(line))
            except ValueError:
                raise Fail("bad trace line: " + line[:300])
        if len(res) != len(jobs):
            raise Fail("%d results for %d jobs" % (len(res), len(jobs)))
        for x in res:
            if x["verdict"].startswith("harness"):
                raise Fail(x["verdict"])
        self.log("ran %d scenarios (%s) in %.1fs" % (len(jobs), tag, time.time() - t))
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=None, timeout=800, heap="3g", simulate=None):
        """Runs TLC; returns (ok, output, stats)."""
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.dir)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR + ":" + community(), "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += (extra or []) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            shutil.rmtree(meta, ignore_errors=True)
            raise Fail("TLC timed out on %s" % module)
        shutil.rmtree(meta, ignore_errors=True)
        o = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        st = {"generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0}
        ok = r.returncode == 0 and "No error has been found" in o or (simulate and r.returncode == 0)
        return ok, o, st

    def model(self, module, cfg, what, env=None, workers=2, timeout=800, heap="6g", extra=None):
        """Exhaustive check of a design model, in the background; a failure is an error of the spec, not of the code."""
        self.bg.append(self.bgx.submit(self.model1, module, cfg, what, env, workers, timeout, heap, extra))

    def model1(self, module, cfg, what, env, workers, timeout, heap, extra):
        t = time.time()
        ok, o, st = self.tlc(module, cfg, env, workers or NPROC, extra, timeout, heap)
        if not ok:
            open(self.dir + "/model.out", "w").write(o)
            raise Fail("model %s/%s: %s" % (module, cfg, o[-3000:]))
        self.bgdone.append((module, cfg, what, st, time.time() - t))

    def models(self):
        for f in self.bg:
            f.result()
        for module, cfg, what, st, w in self.bgdone:
            self.modeldone(module, cfg, what, st, w)

    def modeldone(self, module, cfg, what, st, w):
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.extra.setdefault("models", []).append({"module": module, "cfg": cfg, "what": what, "distinct": st["distinct"], "generated": st["generated"]})
        self.log("model %s/%s: %d distinct states, %d generated, %.1fs" % (module, cfg, st["distinct"], st["generated"], w))

    def validate(self, module, cfg, traces, heap="3g", shards=None, env=None, timeout=800):
        """traces: list of dicts (each one trace record as the spec expects it, with "ev").
        The trace spec picks the trace number t and consumes its events; it must print, for each
        trace, the longest prefix it accepts through the POSTCONDITION (line 'REJ <t> <pos>').
        Returns the list of (index, pos) of rejected traces."""
        if not traces:
            return []
        shards = shards or min(NPROC, max(1, len(traces) // 4))
        idx = [[] for _ in range(shards)]
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
        load = [0] * shards
        for i in order:
            s = load.index(min(load))
            idx[s].append(i)
            load[s] += len(traces[i]["ev"]) + 3
        idx = [x for x in idx if x]

        def one(k):
            p = "%s/tr_%s_%s_%d.ndjson" % (self.dir, module, cfg.replace(".cfg", ""), k)
            with open(p, "w") as f:
                for i in idx[k]:
                    f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            e = {"TRACES": p}
            e.update(env or {})
            return k, p, self.tlc(module, cfg, e, 1, None, timeout, heap)
        rej = []
        t = time.time()
        with cf.ThreadPoolExecutor(len(idx)) as ex:
            for k, p, (ok, o, st) in ex.map(one, range(len(idx))):
                m = re.search(r'"?VALIDATED (\d+)', o)
                r = [(int(a), int(b)) for a, b in re.findall(r"REJ (\d+) (\d+)", o)]
                if not m or int(m.group(1)) != len(idx[k]):
                    open(p + ".tlc", "w").write(o)
                    raise Fail("trace validation %s failed to run: %s" % (module, o[-3000:]))
                self.cov["states"] += st["distinct"]
                self.cov["transitions"] += st["generated"]
                for a, b in r:
                    rej.append((idx[k][a - 1], b))
        self.cov["traces_validated_against_impl"] += len(traces)
        self.log("validated %d traces (%d events) against %s in %.1fs: %d rejected" % (len(traces), sum(len(x["ev"]) for x in traces), module, time.time() - t, len(rej)))
        return sorted(rej)

    # ------------------------------------------------------------------ reporting
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        """Record a violation (data is written to the replay file)."""
        for k in known_findings(self.pid):
            if k["match"] and re.search(k["match"], what):
                if k["text"] not in self.known_hit:
                    self.known_hit.append(k["text"])
                return
        p = "%s/violation%d.json" % (self.dir, len(self.violations))
        if len(self.violations) < 20:
            json.dump({"property": self.pid, "what": what, "data": data}, open(p, "w"), indent=1)
        self.violations.append((what, p))

    def finish(self):
        self.models()
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": dict(self.cov, **self.extra), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.pid), "w"), indent=1)
        shutil.rmtree(self.dir + "/b", ignore_errors=True)
        for f in glob.glob(self.dir + "/tr_*") + glob.glob(self.dir + "/*.nc"):
            os.unlink(f)
        if self.violations:
            for what, p in self.violations[:10]:
                print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(self.violations[0][1], VERIF)))
            return 1
        self.log("ok")
        return 0


_cm = None


def community():
    global _cm
    if _cm is None:
        c = glob.glob("/opt/veriftools/tla/*ommunity*.jar")
        _cm = ":".join(c)
    return _cm


def known_findings(pid):
    p = VERIF + "/known-findings.txt"
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "text": m.group(3).strip()})
    return res


def main(pid, fn):
    try:
        c = Check(pid)
        fn(c)
        rc = c.finish()
    except Fail as e:
        print("ERROR of the check: %s" % e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
