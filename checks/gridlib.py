"""Scenarios on the public interface: random generation, execution and validation against spec/Grid.tla."""
import glob
import json
import os

STAT = "live_mem live_comm live_win live_type live_group live_request live_file live_key live_thread live_mpimem unreceived"
DROP = ("log", "mpi", "note", "pin", "leftover_ok")
SIZES = {"byte": 1, "int": 4, "long": 8, "float": 4, "double": 8}

BUILDS = {
    "std": dict(name="std", driver="api.cpp"),
    "types": dict(name="types", driver="api.cpp", fast=False),
    "ts": dict(name="ts", driver="api.cpp", defs=["THREADSAFE_MPI", "THREADSAFE_COUNTER"]),
    "cnt": dict(name="cnt", driver="api.cpp", defs=["THREADSAFE_COUNTER"]),
    "norr": dict(name="norr", driver="api.cpp", undef=["ROUND_ROBIN"]),
    "nompi": dict(name="nompi", driver="api.cpp", undef=["USE_MPI", "USE_MPI3", "OMPI_SKIP_MPICXX"], defs=["ASAGI_NOMPI"]),
    "fort": dict(name="fort", driver="api.cpp", fast=False, defs=["VERIF_F"], fortran=True),
    "fortnompi": dict(name="fortnompi", driver="api.cpp", fast=False, undef=["USE_MPI", "USE_MPI3", "OMPI_SKIP_MPICXX"], defs=["ASAGI_NOMPI", "VERIF_F"], fortran=True),
    "mpi2": dict(name="mpi2", driver="api.cpp", undef=["USE_MPI3"]),
    "nothr": dict(name="nothr", driver="api.cpp", undef=["THREADSAFE"]),
    "dbgnuma": dict(name="dbgnuma", driver="api.cpp", defs=["DEBUG_NUMA"]),
    "dim6": dict(name="dim6", driver="api.cpp", undef=["MAX_DIMENSIONS=4"], defs=["MAX_DIMENSIONS=6"], fast=True),
    "dim2": dict(name="dim2", driver="api.cpp", undef=["MAX_DIMENSIONS=4"], defs=["MAX_DIMENSIONS=2"]),
    "nonuma": dict(name="nonuma", driver="api.cpp", defs=["ASAGI_NONUMA"]),
}


def var(t="float", size=(10, 7), base=5, K=1, off=None, d=None, has=None, scale=1024):
    """A variable; off and d in 1/scale units; has[i]: has a coordinate variable."""
    nd = len(size)
    has = has or [True] * nd
    off = off or [0] * nd
    d = d or [scale] * nd
    off = [o if h else 0 for o, h in zip(off, has)]
    d = [x if h else scale for x, h in zip(d, has)]
    return dict(t=t, K=K, size=list(size), off=list(off), d=list(d), has=list(has), base=base, mod=0)


def ncline(path, name, v, scale):
    ty = v["t"] if v["K"] == 1 or v["t"].startswith("struct") else "arr%d_%s" % (v["K"], v["t"])
    if v.get("compound") and v["K"] == 1:
        ty = "arr1_" + v["t"]
    r = [path, name, ty, str(len(v["size"]))] + [str(n) for n in v["size"]]
    for o, d, h in zip(v["off"], v["d"], v["has"]):
        r += [repr(o / scale), repr(d / scale) if h else "-"]
    return " ".join(r + [v["base"] if isinstance(v["base"], str) else repr(v["base"])])


def pos_for(rng, v, ties=True, wide=True):
    """a random position in interface order, in scale units"""
    p = []
    for n, o, d in zip(v["size"], v["off"], v["d"]):
        if n == 1:
            p.append(o + rng.randint(-3000, 3000))
            continue
        x = rng.random()
        if wide and x < 0.08:
            k = rng.choice([-1, n]) + rng.randint(-3, 3)
        else:
            k = rng.randrange(n)
        ad = abs(d)
        j = rng.randint(-(ad // 2) + 1, ad // 2 - 1) if ad > 3 else 0
        if rng.random() < 0.4:
            j = 0
        q = o + k * d + j
        if ties and ad & (ad - 1) == 0 and rng.random() < 0.15:
            q = o + k * d + ad // 2
        p.append(q)
    return p[::-1]


def base2(b):
    """the specification's code for a base: doubled, or wide"""
    if isinstance(b, str):
        return {"M": 800000000, "B": 1000000000}[b[0]] + int(b[1:])
    return int(b * 2)


class Scn:
    """One run."""

    def __init__(self, R=1, T=1, nodes=None, build="std", scale=1024, seq=False, lognc=1, **head):
        self.R, self.T, self.build = R, T, build
        self.nodes = nodes or [[0] * T for _ in range(R)]
        self.scale = scale
        self.vars = {}        # file basename -> {name: var}
        self.body = []
        self.seq, self.lognc = seq, lognc
        self.head = dict(R=R, lognc=lognc, budget=400000, **head)
        self.colors = [0] * R
        self.pn = [0] * R
        self.keys = list(range(R))
        self.info = {}

    def op(self, who, *a):
        self.body.append("%s:%s" % (who, " ".join(str(x) for x in a)))

    def add(self, name, v, fbase="f"):
        self.vars.setdefault(fbase, {})[name] = v
        return "@%s@" % fbase

    def header(self, key):
        b = BUILDS[self.build]
        defs = b.get("defs", [])
        fs = {}
        for f, vs in self.vars.items():
            fs[self.fname(key, f)] = {n: dict(t=v["t"], K=v["K"], base2=base2(v["base"]), size=v["size"], off=v["off"], d=v["d"], mod=v["mod"]) for n, v in vs.items()}
        return dict(R=self.R, files=fs or {"-": {"-": {"t": "int"}}}, nodes=self.nodes, colors=self.colors, pn=self.pn, keys=self.keys, scale=self.scale, seq=self.seq,
                    nclog=bool(self.lognc), pred=bool(self.lognc) and not self.seq, cnt="THREADSAFE_COUNTER" in defs, nompi="ASAGI_NOMPI" in defs, nonuma="ASAGI_NONUMA" in defs,
                    tsmpi="THREADSAFE_MPI" in defs, dbgnuma="DEBUG_NUMA" in defs, maxdim=int(([x[15:] for x in defs if x.startswith("MAX_DIM")] + [4])[0]))

    def fname(self, key, f):
        return f if f.endswith(".bad") else "%s_%s.nc" % (key, f)

    def text(self, key, d):
        s = "team=%d;*.*:scale %d;" % (self.T, self.scale)
        c = 0
        for r in range(self.R):
            for t in range(self.T):
                s += "%d.%d:cpu %d %d;" % (r, t, c if self.nodes[r][t] != -2 else -1, self.nodes[r][t])
                c += 1
        s += ";".join(self.body)
        for f in self.vars:
            s = s.replace("@%s@" % f, d + "/" + self.fname(key, f))
        return s.replace("@DIR@", d)


def grid(s, g, kind="float", params=(), threads=None, comm="world", api=None, before=None):
    """ops that create grid g on every process; params: (name, value, level)"""
    if api is not None:
        s.op("*.0", "api", api)
    if kind.startswith("arr_"):
        s.op("*.0", "createarr", g, kind[4:])
    elif kind.startswith("struct"):
        s.op("*.0", "createstruct", g, kind)
    else:
        s.op("*.0", "create", g, kind)
    if before:
        s.op("*.0", "threads", g, before)      # the last call counts
    s.op("*.0", "threads", g, threads or s.T)
    if comm:
        s.op("*.0", "comm", g, comm)
    for p in params:
        n, v, l = p if len(p) == 3 else (p[0], p[1], 0)
        s.op("*.0", "param", g, n, v if v != "" else "''", l)


def gen(rng, type="FULL", R=1, T=1, D=1, mpi="WINDOW", numa=None, nd=None, levels=1, kind=None, ftype=None, nreads=30,
        seq=False, build="std", lognc=1, cs=None, spread=None, maxn=7, maxblocks=None, grids=1, sched=True, vp=None, time=None, getters=None,
        meta=True, counters=True, edges=False, bs=None, spec_size=None, api=0, stat=True, hot=0.5, K=None, base=None, has=True, tmode=None, serialmpi=0, spur=None, wide=0):
    """A random scenario: create, open all levels, read, counters, close."""
    head = dict(seed=rng.randrange(1 << 30))
    if sched:
        head["pol"] = rng.choice([0, 0, 1])
        head["pp"] = rng.choice([5, 20, 50])
        head["eager"] = rng.choice([0, 1])
        head["rmalazy"] = rng.choice([0, 1])
        head["pm"] = rng.choice([0, 0, 10, 100, 400])
        head["spur"] = rng.choice([0, 0, 100]) if spur is None else spur
        head["msgdelay"] = rng.choice([0, 3, 10]) if not seq else 0
    if serialmpi:
        head["serialmpi"] = 1
    if T >= 2 and D >= 2 and rng.random() < .2:      # more domains than asked for
        T += rng.choice([1, 2])
        D += rng.choice([1, 1, 2])
    D = min(D, T)
    nodes = [[(t % D if rng.random() < 0.8 or t < D else rng.randrange(D)) for t in range(T)] for _ in range(R)]
    for r in range(R):
        rng.shuffle(nodes[r])
    s = Scn(R, T, nodes, build, seq=seq, lognc=lognc, **head)
    thread = mpi == "THREAD" and R > 1 and build not in ("ts", "nompi")
    if api:
        s.op("*.0", "api", api)
    if stat:      # one-time allocations first
        for g in range(grids):
            s.op("*.0", "create", g, "float")
        for g in range(grids):
            s.op("*.0", "close", g)
        if thread:      # ... and the table of receivers
            f = s.add("w", var("float", [1], 1), "w")
            s.op("*.0", "startcomm")
            grid(s, 0, "float", [("MPI_COMMUNICATION", "THREAD"), ("VARIABLE", "w")], 1)
            s.op("*.0", "open", 0, f, 0)
            s.op("*.0", "close", 0)
            s.op("*.0", "stopcomm")
        s.op("*.*", "abar")
        s.op("*.0", "stat", *(STAT.replace(" unreceived", "") if thread and type == "CACHE" else STAT).split())
        s.op("*.*", "abar")
    if thread:
        s.op("*.0", "startcomm")
    allr = []
    for g in range(grids):
        kd = kind or rng.choice(["byte", "int", "long", "float", "double"] if build == "types" else ["float", "int"])
        ps = []
        if type != "FULL" or rng.random() < 0.5:
            ps.append(("GRID", type, 0))
        if R > 1 and (mpi != "WINDOW" or rng.random() < 0.5):
            ps.append(("MPI_COMMUNICATION", mpi, 0))
        nm = numa if numa is not None else rng.choice(["ON", "CACHE", "OFF", None, None])
        if nm:
            ps.append(("NUMA_COMMUNICATION", nm, 0))
        v_p = vp or rng.choice([None, None, "VERTEX_CENTERED", "CELL_CENTERED"])
        if v_p:
            ps.append(("VALUE_POSITION", v_p, 0))
        n_d = len(spec_size) if spec_size else nd or rng.choice([1, 2, 2, 2, 3, 3, 4])
        tm = time if time is not None else rng.choice([-1, -1, -1] + list(range(n_d)) * 2 + [rng.choice([n_d, n_d + 2, 40])])
        if tm >= 0:
            ps.append(("TIME_DIMENSION", tm, 0))
        lv = []
        for l in range(levels):
            size = list(spec_size) if spec_size else [rng.choice([1, 2, 3, 4, 5, maxn, rng.randint(1, maxn)]) for _ in range(n_d)]
            if maxblocks and not spec_size:
                while prod(size) > maxblocks:
                    size[rng.randrange(n_d)] = rng.randint(1, 3)
            if kd.startswith("arr_"):
                ft, k = kd[4:], K or rng.randint(1, 4)
                if l > 0:
                    k = lv[0][1]["K"]
            elif kd.startswith("struct"):
                ft, k = kd, 1
            else:
                ft, k = ftype or rng.choice(["byte", "int", "long", "float", "double"] if build == "types" else [kd, "float", "int", "double"]), 1
            hs = [rng.random() < 0.8 for _ in range(n_d)] if has else [True] * n_d
            sg = [rng.choice([1, 1, 1, -1]) for _ in range(n_d)]
            dd = [sg[i] * rng.choice([1024, 512, 2048, 1000, 300, 14, 2, 4096]) for i in range(n_d)]
            of = [rng.choice([0, 0, 1024, -5120, 77, -3333, 20480]) for _ in range(n_d)]
            for i in range(n_d):
                if size[i] == 1:
                    hs[i] = hs[i] and rng.random() < 0.5
            bmax = 20 if (kd in ("byte", "arr_byte") or ft == "byte") else 100
            b0 = base if base is not None else rng.randint(0, bmax)
            if ft in ("float", "double") and rng.random() < 0.4:
                b0 += 0.5
            if ft in ("int", "long", "float", "double") and kd in ("int", "long", "float", "double") and rng.random() < 0.2:
                b0 -= 60
            if kd.startswith("struct") and base is None and rng.random() < .4:
                b0 -= 300
            kk = kd[4:] if kd.startswith("arr_") else kd
            if wide and rng.random() < (.8 if kk == "long" else wide) and not kd.startswith("struct"):
                if rng.random() < .6 and not ftype:
                    ft = kk
                m = [x for x, fk, gk in (("M", ("int", "long", "float", "double"), ("int", "long", "float", "double")), ("B", ("long", "double"), ("long", "double", "float")))
                     if ft in fk and kk in gk]
                if m:
                    b0 = rng.choice(m) + str(rng.randint(0, 400))
            v = var(ft, size, b0, k, of, dd, hs)
            if kd.startswith("arr_"):
                v["compound"] = True
            name = "z" if (g == 0 and l == 0 and rng.random() < 0.5) else "v%d_%d" % (g, l)
            if name != "z" and rng.random() < .08:
                name += rng.choice(["_" + "long" * 25, "-Dash", ".d", "_UpLo"])
            f = s.add(name, v, rng.choice(["f", "g"]) if levels > 1 else "f")
            if name != "z":
                ps.append(("VARIABLE", name, l))
            if kd == "byte" or ft == "byte":
                pass
            for n in range(n_d):
                x = (bs[n] if bs else rng.choice([0, 1, 2, 2, 3, 3, 4, -1, rng.randint(1, maxn + 1)]))
                if x or rng.random() < 0.2:
                    ps.append(("BLOCK_SIZE_%d" % n, x, l))
            c = cs if cs is not None else rng.choice([1, 2, 3, 4, 8, None])
            if callable(c):
                c = c(rng)
            if c:
                ps.append(("CACHE_SIZE", c, l))
            sp = spread if spread is not None else rng.choice([None, None, 0, 1, 2, 7, -1])
            if sp is not None and sp != "def":
                ps.append(("CACHE_HAND_SPREAD", sp, l))
            lv.append((f, v, name))
        rng.shuffle(ps)
        grid(s, g, kd, ps, T, "world" if R > 1 and build != "nompi" else None, before=rng.choice([T + 1, T + 3, 1]) if rng.random() < .15 else None)
        allr.append((g, kd, lv))
    s.op("*.*", "bar")
    for g, kd, lv in allr:
        order = list(range(levels))
        rng.shuffle(order)
        for l in order:
            s.op("*.*", "open", g, lv[l][0], l)
    if seq:
        s.op("*.*", "qbar")
    reads = {}
    for i in range(nreads):
        g, kd, lv = rng.choice(allr)
        l = rng.randrange(levels)
        v = lv[l][1]
        r, t = rng.randrange(R), rng.randrange(T)
        k = (r, t)
        if rng.random() < hot and reads.get("last"):
            g, l, p = reads["last"]
            kd = allr[g][1]
            if rng.random() < 0.5:
                v = allr[g][2][l][1]
                p = pos_for(rng, v)
        else:
            p = pos_for(rng, v)
        reads["last"] = (g, l, p)
        if kd.startswith("struct") or (kd.startswith("arr_") and not getters):
            gt = "buf"
        else:
            gt = rng.choice(getters or (["byte", "int", "long", "float", "double", "buf"]))
            v = allr[g][2][l][1]
            kk = kd[4:] if kd.startswith("arr_") else kd
            if isinstance(v["base"], str):
                if kk in ("float", "double"):
                    gt = rng.choice(["long", "float", "double", "buf"] if v["base"][0] == "B" else ["int", "long", "float", "double", "buf"])
                top = 0
            else:
                top = v["base"] + prod(v["size"]) * v["K"]
            if gt == "byte" and kd in ("float", "double", "arr_float", "arr_double") and not isinstance(v["base"], str) and (v["base"] < 0 or top > 250):
                gt = "int"
        s.op("%d.%d" % k, "get", g, l, gt, *p)
        if seq:
            s.op("*.*", "qbar")
    if edges:
        for g, kd, lv in allr:
            n = len(lv[0][1]["size"])
            if not kd.startswith("struct"):
                for b in rng.sample(range(1 << n), min(4, 1 << n)):
                    s.op("%d.%d" % (rng.randrange(R), rng.randrange(T)), "edge", g, 0, b)
    s.op("*.*", "abar")
    for g, kd, lv in allr:
        for l in range(levels):
            if counters and api != 2:
                s.op("*.0", "counters", g, l)
            if meta:
                s.op("*.%d" % (rng.randrange(T)), "meta", g, l)
    s.op("*.*", "abar")
    cl = list(range(grids))
    rng.shuffle(cl)
    for g in cl:
        s.op("*.0", "close", g)
    if thread:
        s.op("*.0", "stopcomm")
    if stat:
        s.op("*.*", "abar")
        s.op("*.0", "stat", *(STAT.replace(" unreceived", "") if thread and type == "CACHE" else STAT).split())
        s.op("*.*", "abar")
    s.info = dict(type=type, R=R, T=T, D=D, mpi=mpi, kind=[a[1] for a in allr])
    return s


def prod(x):
    r = 1
    for y in x:
        r *= y
    return r


def execute(c, so, scns, tag="api"):
    """Runs the scenarios on the driver builds, returns the traces for validation."""
    lines = []
    keys = []
    for i, s in enumerate(scns):
        key = "%s%d" % (tag, i)
        keys.append(key)
        for f, vs in s.vars.items():
            for n, v in vs.items():
                lines.append(ncline(c.dir + "/" + s.fname(key, f), n, v, s.scale))
    if lines:
        c.files(lines)
    traces = [None] * len(scns)
    by = {}
    for i, s in enumerate(scns):
        by.setdefault(s.build, []).append(i)
    for b, idx in by.items():
        res = c.run(so[b], [(scns[i].head, scns[i].text(keys[i], c.dir)) for i in idx], tag=tag + "_" + b)
        for i, x in zip(idx, res):
            ev = [e for e in x["ev"] if e["e"] not in DROP]
            ev.append({"e": "verdict", "v": x["verdict"][:200]})
            ev.append({"e": "end"})
            traces[i] = {"h": scns[i].header(keys[i]), "ev": ev}
    for f in glob.glob(c.dir + "/%s*.nc" % tag):
        os.unlink(f)
    return traces


def check(c, so, scns, tag="api", what="run"):
    """execute + validate; a trace that is rejected again when repeated is a violation"""
    traces = execute(c, so, scns, tag)
    rej = c.validate("GridTrace.tla", "GridTrace.cfg", traces)
    c.extra["scenarios"] = c.extra.get("scenarios", 0) + len(scns)
    c.extra["events"] = c.extra.get("events", 0) + sum(len(t["ev"]) for t in traces)
    if rej:
        again = [i for i, p in rej[:12]]
        tr2 = execute(c, so, [scns[i] for i in again], tag + "again")
        n = c.cov["traces_validated_against_impl"]
        rej2 = c.validate("GridTrace.tla", "GridTrace.cfg", tr2)
        c.cov["traces_validated_against_impl"] = n
        for j, p in rej2:
            i = again[j]
            ev = tr2[j]["ev"]
            e = ev[p - 1] if p <= len(ev) else {}
            if e.get("e") == "verdict" and e.get("v") == "timeout":
                continue      # the machine is too slow, not the code
            c.violation("%s: %s build=%s rejected at %s" % (what, json.dumps(scns[i].info), scns[i].build, json.dumps(e)[:300]),
                        {"build": scns[i].build, "head": scns[i].head, "scenario": scns[i].text("x", "DIR"),
                         "files": [ncline("DIR/" + scns[i].fname("x", f), n, v, scns[i].scale) for f, vs in scns[i].vars.items() for n, v in vs.items()],
                         "h": tr2[j]["h"], "events": ev[max(0, p - 60):p]})
    if traces:
        k = len(scns) // 2
        c.sample({"scenario": scns[k].text("x", "DIR")[:700], "events": len(traces[k]["ev"]), "last_events": traces[k]["ev"][-6:-3]})
    return traces, rej
