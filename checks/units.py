"""Checks of single classes: a driver exercises the class on the simulated machine, the traces are
validated against the class's specification."""
import json
import vlib
import gridlib as g
import grids


class U:
    """One scenario of a class driver."""
    def __init__(self, head, ops, h, build, info=None):
        self.head, self.ops, self.h, self.build, self.info = head, ops, h, build, info or {}

    def text(self):
        return ";".join(self.ops)


def ubuild(c, units, grid=()):
    """Build class drivers (and grid builds for the integration part).  A class driver that does not
    compile against the tree (the class was changed incompatibly) is left out."""
    ds = [g.BUILDS[n] for n in grid]
    us = []
    for u in units:
        us.append(dict(u, sources=u.get("sources", [])))
    try:
        return c.build1(us + ds)
    except vlib.Fail as e:
        so = {}
        for u in us if len(us) > 1 else []:
            try:
                so.update(c.build1([u]))
            except vlib.Fail:
                pass
        if so:
            so.update(c.build(ds) if ds else {})
            c.extra["class_driver"] = "not all built: " + str(e)[:300]
            return so
        if not ds:
            raise
        c.log("a class driver does not build on this tree; using the grid interface only: " + str(e)[-600:])
        c.extra["class_driver"] = "not built: " + str(e)[:300]
        return c.build(ds)


def execute(c, so, scns, tag):
    traces = [None] * len(scns)
    by = {}
    for i, s in enumerate(scns):
        by.setdefault(s.build, []).append(i)
    for b, idx in by.items():
        res = c.run(so[b], [(scns[i].head, scns[i].text()) for i in idx], tag=tag + "_" + b)
        for i, x in zip(idx, res):
            ev = [e for e in x["ev"] if e["e"] not in ("log", "mpi", "note", "leftover_ok") and (e["e"] != "pin" or scns[i].info.get("pin"))]
            ev += [{"e": "verdict", "v": x["verdict"][:200]}, {"e": "end"}]
            if scns[i].info.get("pair"):
                pair(ev)
            traces[i] = {"h": scns[i].h, "ev": ev}
    return traces


def check(c, so, scns, module, tag, what):
    scns = [s for s in scns if s.build in so]
    if not scns:
        return
    traces = execute(c, so, scns, tag)
    rej = c.validate(module + ".tla", module + ".cfg", traces)
    c.extra["scenarios"] = c.extra.get("scenarios", 0) + len(scns)
    c.extra["events"] = c.extra.get("events", 0) + sum(len(t["ev"]) for t in traces)
    if rej:
        again = [i for i, p in rej[:12]]
        tr2 = execute(c, so, [scns[i] for i in again], tag + "again")
        n = c.cov["traces_validated_against_impl"]
        rej2 = c.validate(module + ".tla", module + ".cfg", tr2)
        c.cov["traces_validated_against_impl"] = n
        for j, p in rej2:
            s = scns[again[j]]
            ev = tr2[j]["ev"]
            e = ev[p - 1] if p <= len(ev) else {}
            if e.get("e") == "verdict" and e.get("v") == "timeout":
                continue
            c.violation("%s: %s build=%s %s rejected at %s" % (what, json.dumps(s.info), s.build, json.dumps(s.h)[:200], json.dumps(e)[:300]),
                        {"module": module, "build": s.build, "head": s.head, "scenario": s.text(), "h": s.h, "events": ev[max(0, p - 60):p]})
    k = len(scns) // 2
    c.sample({"scenario": scns[k].text()[:700], "events": len(traces[k]["ev"]), "last_events": traces[k]["ev"][-6:-2]})


def sched(rng, **kw):
    """A random schedule policy."""
    h = {"R": 1, "budget": 300000, "seed": rng.randrange(1, 1 << 30), "pol": rng.choice([0, 0, 1]), "pp": rng.choice([50, 150, 400, 800]),
         "pm": rng.choice([0, 20, 100, 400]), "spur": rng.choice([0, 0, 100, 500]), "depth": rng.randrange(1, 5)}
    h.update(kw)
    return h


CACHE = dict(name="ucache", driver="u_cache.cpp", sources=[])
SYNC = dict(name="usync", driver="u_sync.cpp", sources=[])
NUMA = dict(name="unuma", driver="u_numa.cpp", sources=["numa/numa.cpp"])
NONUMA = dict(name="unonuma", driver="u_numa.cpp", sources=["numa/numa.cpp"], defs=["ASAGI_NONUMA"])
MPISRC = ["mpi/mpicomm.cpp", "numa/numa.cpp"]
MUTEX = dict(name="umutex", driver="u_mutex.cpp", sources=MPISRC)
DIR = dict(name="udir", driver="u_dir.cpp", sources=MPISRC)
XFER = dict(name="uxfer", driver="u_xfer.cpp", sources=MPISRC + ["mpi/commthread.cpp"])
HANDLE = dict(name="uhandle", driver="u_handle.cpp", sources="all")
COMM = dict(name="ucomm", driver="u_comm.cpp", sources=MPISRC + ["mpi/commthread.cpp"])


# ---------------------------------------------------------------- C16
def lists(rng, n):
    res = []
    for i in range(n):
        k = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 16])
        sp = rng.choice([-1, -1, -1, 0, 1, k // 2, k - 1, k, k + 3, rng.randrange(0, k + 1)])
        ops = ["0.0:ldef %d" % k] if sp == -1 and rng.random() < .5 else ["0.0:lnew %d %d" % (k, sp)]
        ops.insert(0, "0.0:shift %d" % rng.choice([0, 0, 0, 8, 16, 31, 32, 35, 40]))
        blocks = rng.choice([k, k + 1, k + 2, 2 * k + 1, 3 * k])
        base = rng.choice([0, 0, 0, 1000, 1 << 20])
        hot = [rng.randrange(blocks) for _ in range(2)]
        for _ in range(rng.choice([20, 60, 150])):
            b = rng.choice(hot) if rng.random() < .3 else rng.randrange(blocks)
            r = rng.random()
            ops.append("0.0:luse %d" % (b + base) if r < .75 else "0.0:lget %d %d" % (b + base, rng.choice([0, 0, 1, 2])))
        ops.append("0.0:ldel")
        res.append(U({"R": 1, "seed": 1 + i}, ops, {"n": k, "spread": sp}, "ucache", {"slots": k, "spread": sp}))
    return res


def managers(rng, n, T=None, tries=0.2):
    res = []
    for i in range(n):
        nt = T or rng.choice([2, 3, 3, 4])
        k = rng.choice([1, 2, 2, 3, 4, 6])
        sp = rng.choice([-1, -1, 0, 1, k - 1, k])
        bs = rng.choice([1, 2, 3, 8, 16])
        blocks = rng.choice([k, k + 1, k + 2, 2 * k + 1])
        ops = ["team=%d" % nt, "0.0:shift %d" % rng.choice([0, 0, 0, 16, 32, 40]), "0.0:cnew %d %d %s" % (k, bs, sp if sp >= 0 or rng.random() < .5 else ""), "*.*:bar"]
        for _ in range(rng.choice([6, 12, 20])):
            t = rng.randrange(nt)
            op = "try" if rng.random() < tries else "get"
            ops.append("0.%d:%s %d %d" % (t, op, rng.randrange(blocks), rng.choice([0, 1, 1])))
            if rng.random() < .1:
                ops.append("0.%d:yield %d" % (t, rng.randrange(1, 9)))
        ops += ["*.*:bar", "0.0:cdel"]
        res.append(U(sched(rng), ops, {"n": k, "spread": sp}, "ucache", {"slots": k, "spread": sp, "threads": nt}))
    return res


def trynoblock(rng, n):
    """While one thread holds a block and another waits for it, attempts of a third must return."""
    res = []
    for i in range(n):
        k = rng.choice([1, 2])
        ops = ["team=3", "0.0:cnew %d 4" % k, "*.*:bar", "0.0:get 0 0 3 1", "0.1:yield 30", "0.1:get 0 0", "0.2:yield %d" % rng.randrange(0, 120)]
        ops += ["0.2:try %d 0" % rng.choice([0, 1, 5]) for _ in range(4)] + ["0.2:done 3", "*.*:bar", "0.0:cdel"]
        res.append(U(sched(rng), ops, {"n": k, "spread": -1}, "ucache", {"slots": k, "case": "try while held"}))
    return res


def C16(c):
    so = ubuild(c, [CACHE], ["std"])
    c.model("CacheModel.tla", "CacheModel.cfg", "two-hand clock cache, all access sequences")
    check(c, so, lists(c.rng, c.n(1500, 20000)), "CacheTrace", "list", "cache list")
    check(c, so, managers(c.rng, c.n(150, 4000), T=1, tries=.1), "CacheTrace", "mgr", "cache manager")
    small = lambda r: [r.choice([1, 2]) for _ in range(8)]
    grids.go(c, so, c.n(120, 1200), [(1, dict(type="CACHE", R=1, T=1, D=1, nreads=60)),
                                     (2, dict(type="CACHE", R=1, T=grids.ch(1, 2), D=grids.ch(1, 2), levels=grids.ch(1, 2), seq=True, nreads=150, maxn=6, bs=small, has=False))], "cache grid")


def C17(c):
    so = ubuild(c, [CACHE], ["std"])
    c.model("CacheExcl.tla", "CacheExcl_big.cfg" if c.thorough else "CacheExcl.cfg", "cache manager's locking, all interleavings")
    check(c, so, managers(c.rng, c.n(900, 20000)), "CacheTrace", "mgr", "cache manager")
    check(c, so, trynoblock(c.rng, c.n(100, 1000)), "CacheTrace", "try", "cache manager")
    grids.go(c, so, c.n(60, 800), [(1, dict(type="CACHE", R=1, T=3, D=lambda r: r.choice([1, 2]), nreads=20))], "cache grid")




# ---------------------------------------------------------------- C18, C19
def barriers(rng, n):
    res = []
    for i in range(n):
        nt = rng.choice([1, 2, 2, 3, 3, 4, 6])
        objs = rng.choice([1, 1, 2])
        ops = ["team=%d" % nt] + ["0.0:snew %d" % k for k in range(objs)] + ["*.*:bar"]
        case = rng.choice(["fixed", "phase", "bcast", "bcast", "bcast", "any", "mixed"])
        late = set(t for t in range(nt) if rng.random() < .3)
        if case == "any" and nt in (4, 6):       # pairs of any two threads
            n2 = 2
            per = 1
            for t in range(nt):
                for _ in range(per):
                    ops.append("0.%d:sbar 0 %d" % (t, n2) if rng.random() < .5 else "0.%d:phase 0 %d 0" % (t, n2))
                    if rng.random() < .3:
                        ops.append("0.%d:yield %d" % (t, rng.randrange(1, 20)))
            if nt * per % n2:
                ops.append("0.0:sbar 0 2")
        else:
            ids = list(range(nt))
            rng.shuffle(ids)
            for r in range(rng.randrange(1, 9)):
                k = rng.randrange(objs)
                kind = case if case != "mixed" else rng.choice(["fixed", "phase", "bcast"])
                root, v = rng.choice([0, rng.randrange(nt)]), rng.randrange(1, 1000)
                for t in range(nt):
                    if rng.random() < .15:
                        ops.append("0.%d:yield %d" % (t, rng.randrange(1, 30)))
                    if kind == "bcast":
                        ops.append("0.%d:bcast %d %d %d %d %d" % (t, k, nt, ids[t], root, v if ids[t] == root else rng.randrange(1000, 2000)))
                    elif kind == "phase":
                        ops.append("0.%d:phase %d %d %d" % (t, k, nt, t in late))
                    else:
                        ops.append("0.%d:sbar %d %d" % (t, k, nt))
        ops += ["*.*:bar"] + ["0.0:sdel %d" % k for k in range(objs)]
        res.append(U(sched(rng), ops, {"n": nt}, "usync", {"threads": nt, "case": case}))
    return res


def onces(rng, n):
    res = []
    for i in range(n):
        nt = rng.choice([1, 2, 3, 4, 6])
        objs = rng.choice([1, 1, 2, 3])
        ops = ["team=%d" % nt] + ["0.0:onew %d" % k for k in range(objs)] + ["*.*:bar"]
        for _ in range(rng.choice([nt, 2 * nt, 4 * nt])):
            t = rng.randrange(nt)
            ops.append("0.%d:once %d" % (t, rng.randrange(objs)))
            if rng.random() < .2:
                ops.append("0.%d:yield %d" % (t, rng.randrange(1, 20)))
        ops += ["*.*:bar"] + ["0.0:odel %d" % k for k in range(objs)]
        res.append(U(sched(rng), ops, {"n": nt}, "usync", {"threads": nt, "objects": objs}))
    return res


def C18(c):
    so = ubuild(c, [SYNC, NUMA], ["std"])
    c.model("SyncModel.tla", "SyncModel_big.cfg" if c.thorough else "SyncModel.cfg", "the monitor of threads::Sync, all interleavings and spurious wake-ups")
    check(c, so, barriers(c.rng, c.n(1500, 30000)), "SyncTrace", "sync", "barrier/broadcast")
    check(c, so, numas(c.rng, c.n(300, 6000), sync=True), "NumaTrace", "numa", "barriers and broadcasts of threads and domains")
    grids.go(c, so, c.n(60, 600), [(1, dict(type=grids.ch("FULL", "CACHE"), R=1, T=grids.ch(3, 4), D=grids.ch(1, 2, 3), nreads=4, spur=300, levels=grids.ch(1, 2)))], "several threads and domains open a grid")


def C19(c):
    so = ubuild(c, [SYNC], ["std"])
    c.model("OnceModel.tla", "OnceModel.cfg", "double-checked initialisation, all interleavings")
    check(c, so, onces(c.rng, c.n(1200, 30000)), "SyncTrace", "once", "one-time initialisation")
    grids.go(c, so, c.n(80, 800), [(1, dict(type=grids.ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=grids.ch(2, 3, 4), D=1, nreads=4, levels=grids.ch(1, 2)))], "first use of a grid by several threads")


# ---------------------------------------------------------------- C20, C21
def numas(rng, n, sync=False, comms=False, build="unuma"):
    res = []
    for i in range(n):
        nt = rng.choice([1, 2, 2, 3, 3, 4, 4, 6])
        nodes = rng.choice([1, 2, 2, 3, 4])
        if rng.random() < .04:      # many domains
            nt = nodes = rng.choice([8, 9, 10, 12])
        nn = [rng.randrange(nodes) for _ in range(nt)]
        if nt > 6:
            nn = list(range(nt))
            rng.shuffle(nn)
        names = rng.sample(range(0, max(9, nodes)), nodes)
        ops = ["team=%d" % nt, "0.0:nnew 0 %d" % nt]
        two = not comms and rng.random() < .3
        if two:
            ops.append("0.0:nnew 1 %d" % nt)
        for t in range(nt):
            ops.append("0.%d:cpu %d %d" % (t, t + rng.randrange(3), names[nn[t]]))
        ops.append("*.*:bar")
        det = rng.choice([0, 1, 1, 1, 2, 2])
        for t in range(nt):
            if rng.random() < .3:
                ops.append("0.%d:yield %d" % (t, rng.randrange(1, 30)))
            ops.append("0.%d:reg 0 %d" % (t, det))
            if two:
                ops.append("0.%d:reg 1 %d" % (t, rng.choice([1]) if det else 0))
            if rng.random() < .5 and not comms:
                ops.append("0.%d:cpu %d %d" % (t, rng.randrange(8), rng.randrange(9)))
                ops.append("0.%d:reg 0 %d" % (t, det))
        if sync:
            for _ in range(rng.randrange(1, 7)):
                r, v, b = rng.choice([0, rng.randrange(nt)]), rng.randrange(1, 1000) * 10, rng.random() < .4
                for t in range(nt):
                    ops.append("0.%d:%s" % (t, "nbar 0" if b else "nbc 0 %d %d" % (r, v + rng.randrange(2))))
                    if two and rng.random() < .0:
                        pass
                if two and rng.random() < .5:
                    ops.append("*.*:nbar 1")
        if comms:
            live = []
            for _ in range(rng.randrange(1, 10)):
                x = rng.random()
                if not live or x < .25 and len(live) < 6:
                    k = min(j for j in range(7) if j not in live)
                    ops.append("*.*:Mcomm 0 %d %d" % (k, rng.choice([-1] + live) if live else -1))
                    live.append(k)
                elif x < .55:
                    ops.append("*.*:Mbc %d %d %d" % (rng.choice(live), rng.choice([0, rng.randrange(nodes)]), rng.randrange(1, 1000) * 10))
                elif x < .85:
                    k, w = rng.choice(live), rng.randrange(2)
                    if rng.random() < .3:      # more than 2 or 4 GiB: only reserved
                        ops += ["*.*:Mhuge %d %d %d" % (k, rng.choice([1, 700, 1024, 2047, 2048, 2049, 4096, 6000, 9000]), w), "*.*:bar"]
                    ops += ["*.*:Malloc %d %d %d" % (k, rng.choice([1, 2, 3, 5, 16, 100]), w), "*.*:bar", "*.*:Mfree %d 0 %d" % (k, w)]
                    if rng.random() < .5:
                        ops.append("*.*:bar")
                elif len(live) > 1:
                    k = live.pop(rng.randrange(len(live)))
                    ops += ["*.*:bar", "*.*:Mdel %d" % k, "*.*:bar"]
            ops += ["*.*:bar"] + ["*.*:Mdel %d" % k for k in live]
        ops += ["*.*:bar", "0.0:ndel 0"] + (["0.0:ndel 1"] if two else [])
        res.append(U(sched(rng), ops, {"n": nt}, build, {"threads": nt, "nodes": nodes, "detect": det}))
    return res


def C20(c):
    so = ubuild(c, [NUMA, NONUMA], ["std"])
    c.model("NumaModel.tla", "NumaModel_big.cfg" if c.thorough else "NumaModel.cfg", "registration, all interleavings and placements")
    check(c, so, numas(c.rng, c.n(1500, 20000)) + numas(c.rng, c.n(150, 2000), build="unonuma"), "NumaTrace", "reg", "registration")
    grids.go(c, so, c.n(60, 600), [(1, dict(type=grids.ch("FULL", "CACHE"), R=1, T=grids.ch(3, 4), D=grids.ch(2, 3), nreads=6, numa=grids.ch("ON", "CACHE")))], "threads on several NUMA domains")


def C21(c):
    so = ubuild(c, [NUMA, NONUMA], ["std"])
    c.model("NumaCommModel.tla", "NumaCommModel.cfg", "creation and use of communicators, all interleavings")
    check(c, so, numas(c.rng, c.n(1200, 20000), comms=True) + numas(c.rng, c.n(100, 2000), comms=True, build="unonuma"), "NumaTrace", "comm", "domain communicator")
    grids.go(c, so, c.n(60, 600), [(1, dict(type=grids.ch("FULL", "CACHE"), R=1, T=grids.ch(3, 4), D=grids.ch(2, 3), nreads=6, levels=2, numa=grids.ch("ON", "CACHE")))], "grids of several NUMA domains")


# ---------------------------------------------------------------- C22
def mutexes(rng, n):
    res = []
    for i in range(n):
        R, nt = rng.choice([(1, 3), (2, 1), (2, 2), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1)])
        nodes = rng.choice([1, 2])
        ops = ["team=%d" % nt, "*.0:numa"]
        for t in range(nt):
            ops.append("*.%d:cpu %d %d" % (t, t, t % nodes))
        ops += ["*.*:bar", "*.*:reg %d" % rng.randrange(2), "*.*:bar"]
        comms = rng.choice([1, 1, 2])
        ops += ["*.0:comm %d" % k for k in range(comms)]
        m = rng.choice([1, 1, 2, 3])
        places = rng.choice([1, 1, 2, 3])
        for k in range(m):
            if rng.random() < .3:
                ops.append("*.0:tags %d %d" % (rng.randrange(comms), rng.choice([1, 2, 5])))
            ops.append("*.0:mnew %d %d %d" % (k, rng.randrange(comms), places))
            if rng.random() < .3:
                ops.append("*.0:tags %d %d" % (rng.randrange(comms), rng.choice([1, 2, 5])))
        ops.append("*.*:abar")
        hot = rng.random() < .6
        hp = (rng.randrange(m), rng.randrange(R), rng.randrange(places))
        if R > 1 and nt > 1 and m > 1 and rng.random() < .6:     # pairs of threads of different ranks compete for different mutexes at once
            k1, k2 = rng.sample(range(m), 2)
            r1, r2 = rng.sample(range(R), 2)
            w1, w2 = rng.sample(range(nt), 2)
            o1, o2 = rng.randrange(R), rng.randrange(R)
            for _ in range(rng.choice([3, 6, 10])):
                for r, t, k, o in [(r1, w1, k1, o1), (r2, w1, k1, o1), (r1, w2, k2, o2), (r2, w2, k2, o2)]:
                    ops.append("%d.%d:cs %d %d 0 %d" % (r, t, k, o, rng.choice([0, 3, 10, 30])))
        for _ in range(rng.choice([R * nt, 2 * R * nt, 4 * R * nt])):
            k, r, o = hp if hot and rng.random() < .7 else (rng.randrange(m), rng.randrange(R), rng.randrange(places))
            ops.append("%d.%d:cs %d %d %d %d" % (rng.randrange(R), rng.randrange(nt), k, r, o, rng.choice([0, 1, 3, 10])))
        ops += ["*.*:abar"] + ["*.0:mdel %d" % k for k in range(m)] + ["*.0:cdel %d" % k for k in range(comms)] + ["*.*:abar", "*.0:ndel"]
        res.append(U(sched(rng, R=R, eager=rng.randrange(2), rmalazy=rng.choice([0, 300, 900]), msgdelay=rng.choice([0, 300])), ops, {"n": nt}, "umutex",
                     {"ranks": R, "threads": nt, "mutexes": m}))
    return res


def C22(c):
    so = ubuild(c, [MUTEX], ["std"])
    c.model("MpiMutexModel.tla", "MpiMutexModel_big.cfg" if c.thorough else "MpiMutexModel_b.cfg", "the queue of swapped ids and synchronous messages, all interleavings")
    check(c, so, mutexes(c.rng, c.n(1500, 25000)), "MpiMutexTrace", "mutex", "distributed mutex")
    grids.go(c, so, c.n(60, 600), [(1, dict(type="CACHE", R=grids.ch(2, 3), T=grids.ch(1, 2), D=grids.ch(1, 2), mpi="WINDOW", cs=grids.ch(1, 2), nreads=30, levels=grids.ch(1, 2)))], "caches that share a directory")


# ---------------------------------------------------------------- C23
def dirs(rng, n):
    res = []
    for i in range(n):
        nt = rng.choice([1, 1, 1, 2, 3])
        per = rng.choice([1, 2, 3, 5])
        holders = rng.choice([3, 5, 6, 9, 40])
        ops = ["team=%d" % nt, "0.0:numa"] + ["0.%d:cpu %d %d" % (t, t, t) for t in range(nt)]
        ops += ["0.0:shift %d" % rng.choice([0, 0, 16, 32, 40]), "*.*:bar", "*.*:dnew %d %d %d" % (rng.choice([1, 3, 8]), per, rng.randrange(2)), "*.*:bar", "0.0:dump"]
        base = rng.choice([0, 0, 1000])
        for _ in range(rng.choice([20, 60, 120])):
            b = rng.randrange(per * nt) if rng.random() < .6 else 0
            x = rng.random()
            h = base + rng.randrange(holders)
            if x < .3:
                op = "reg %d %d" % (b, h)
            elif x < .5:
                op = "fetchreg %d %d" % (b, h)
            elif x < .65:
                op = "fetch %d" % b
            elif x < .8:
                op = "unlist %d %d" % (b, rng.randrange(4))
            elif x < .9:
                op = "unreg %d %d" % (b, h)
            else:
                op = "dump"
            ops.append("0.0:" + op)
        ops += ["0.0:dump", "*.*:bar", "*.*:ddel", "*.*:bar", "0.0:del0"]
        res.append(U({"R": 1, "seed": 1 + i}, ops, {"n": nt}, "udir", {"domains": nt, "blocks": per * nt, "holders": holders}))
    return res


def xfers(rng, n, wins=(0, 1)):
    """the transfer classes of distributed caches: processes register and remove blocks at the same time"""
    res = []
    for i in range(n):
        win = rng.choice(wins)
        R, nt = rng.choice([(1, 2), (2, 1), (2, 2), (2, 2), (3, 1), (2, 3), (3, 2)])
        nodes = rng.choice([1, 1, 2])
        D = min(nodes, nt)
        k = rng.choice([1, 2, 3])           # slots of a thread
        cs = -(-nt * k // D)
        per = rng.choice([1, 2])
        nb = min(R * D * per, rng.choice([1, 2, 4]))
        ops = ["team=%d" % nt, "*.0:numa"] + ["*.%d:cpu %d %d" % (t, t, t % nodes) for t in range(nt)]
        ops += ["*.0:mem %d" % (cs * D)]
        if not win:
            ops.append("*.0:startcomm")
        ops += ["*.*:abar", "*.*:regthread", "*.*:abar", "*.*:xnew %d %d %d" % (win, cs, per), "*.*:qbar", "0.0:quiet", "*.*:abar"]
        held = {}                           # (r, t) -> {slot: block}
        for _ in range(rng.choice([4, 8, 14])):
            touched = {}
            for _ in range(rng.choice([1, 2, 3, 4, 5])):
                r, t = rng.randrange(R), rng.randrange(nt)
                mine = held.setdefault((r, t), {})
                free = [t * k + j for j in range(k) if t * k + j not in mine]
                y = rng.random()
                if mine and (not free or y < .35):
                    o = rng.choice(sorted(mine))
                    b = mine.pop(o)
                    op = "del %d %d" % (b, o)
                elif y < .5 and not win:
                    b = rng.randrange(nb)
                    op = "look %d 0" % b
                elif free:
                    b, o = rng.randrange(nb), rng.choice(free)
                    op = "%s %d %d" % ("get" if y < .8 else "add", b, o)
                    mine[o] = b
                else:
                    continue
                touched[b] = touched.get(b, 0) + 1
                ops.append("%d.%d:%s" % (r, t, op))
                if rng.random() < .05:
                    ops.append("%d.%d:delnone 0 0" % (r, t))
                if max(touched.values()) >= 5:
                    break
            ops += ["*.*:qbar", "0.0:quiet", "*.*:abar"]
            # the entries show in lookups by one thread at a time
            for b in sorted(touched) if not win else []:
                for _ in range(rng.choice([0, 1, 3])):
                    ops += ["%d.%d:look %d 0" % (rng.randrange(R), rng.randrange(nt), b)]
                    if rng.random() < .3:
                        ops += ["*.*:qbar", "0.0:quiet", "*.*:abar"]
        # empty the caches: the last holder of every block has to be found
        left = [(w, o, b) for w, m in held.items() for o, b in m.items()]
        rng.shuffle(left)
        for (r, t), o, b in left:
            ops += ["%d.%d:del %d %d" % (r, t, b, o), "*.*:qbar", "0.0:quiet", "*.*:abar"]
            ops += ["%d.%d:look %d 0" % (rng.randrange(R), rng.randrange(nt), b)] if not win else []
            ops += ["*.*:qbar", "0.0:quiet", "*.*:abar"]
        ops += ["*.*:abar", "*.*:xdel", "*.*:abar"] + ([] if win else ["*.0:stopcomm"]) + ["*.*:abar", "*.0:del0"]
        res.append(U(sched(rng, R=R, eager=rng.randrange(2), rmalazy=rng.choice([0, 300, 900])), ops, {"win": bool(win)}, "uxfer",
                     {"ranks": R, "threads": nt, "domains": D, "window": bool(win), "blocks": nb}))
    return res


def directories(c, n):
    """used by the checks of the grids as well"""
    try:
        so = c.build1([XFER])
    except vlib.Fail as e:
        c.extra["class_driver"] = "not built: " + str(e)[:300]
        return
    check(c, so, xfers(c.rng, n), "DirTrace", "xfer", "directory used by several processes at once")


def C23(c):
    so = ubuild(c, [DIR, XFER], ["std"])
    c.model("BlockDirModel.tla", "BlockDirModel.cfg", "the arrays of the directory against the history of registrations")
    check(c, so, dirs(c.rng, c.n(900, 15000)), "BlockDirTrace", "dir", "directory of cached blocks")
    check(c, so, xfers(c.rng, c.n(500, 10000)), "DirTrace", "xfer", "directory used by several processes at once")
    grids.go(c, so, c.n(120, 1200), [
        (1, dict(type="CACHE", R=grids.ch(2, 3), T=grids.ch(1, 2), D=grids.ch(1, 2), mpi=grids.ch("WINDOW", "THREAD"), cs=grids.ch(1, 2, 3), nreads=40)),
        (1, dict(type="CACHE", R=grids.ch(3, 5, 6), T=1, D=1, seq=True, mpi=grids.ch("WINDOW", "THREAD"), cs=grids.ch(1, 2, 3), nreads=60, maxn=6)),
    ], "caches that share a directory")


# ---------------------------------------------------------------- C25, C26
def comms(rng, n, life=False):
    """life: mostly starting, pinning and stopping"""
    res = []
    for i in range(n):
        R, nt = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1)] + ([] if life else [(3, 1), (4, 1), (5, 1)]))
        cpus = rng.choice([1, 2, 4, 8])
        ops = ["team=%d" % nt]
        kinds = [rng.choice([0, 1, 2, 4] if life else [0, 1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 3]))]
        if life and R > 1 and rng.random() < .3:
            kinds[0] = 3      # every rank alone
        ops += ["*.0:comm %d %d" % (k, x) for k, x in enumerate(kinds)]
        j = 0

        def member(k, r):      # ranks of r's communicator in order
            x = kinds[k]
            m = [q for q in range(R) if x != 2 or q % 2 == r % 2] if x != 3 else [r]
            return sorted(m, key=lambda q: -q if x == 1 else (q + 1) % R if x == 4 else q)
        if rng.random() < .3:
            ops.append("*.0:reg %d 0 0" % j)
            j += 1
        for gen in range(rng.choice([1, 2, 3]) if life else rng.choice([1, 1, 2])):
            ops.append("*.*:abar")
            sub = life and kinds[0] == 3 and rng.random() < .5
            if sub:           # one rank starts alone; then nobody can start with it
                r = rng.randrange(R)
                ops += ["%d.0:start %d 0" % (r, rng.randrange(-cpus - 2, cpus + 2)), "*.*:abar", "*.0:start 0 -1", "*.*:abar", "%d.0:stop" % r, "*.*:abar"]
            for r in range(R):
                ops.append("%d.0:start %d -1" % (r, rng.choice([-1, 0, cpus - 1, -cpus, cpus, -cpus - 1, rng.randrange(-cpus - 2, cpus + 2)])))
            if rng.random() < .3:
                ops += ["*.*:abar", "*.0:start 0 -1"]
            active = []
            for step in range(rng.randrange(1, 3) if life else rng.randrange(1, 8)):
                if len(active) < (3 if life else 5) and j < 36 and kinds:
                    k = rng.randrange(len(kinds))
                    # only the members of one of the communicators of this kind, or all of them
                    who = list(range(R)) if life or rng.random() < .5 else member(k, rng.randrange(R))
                    answers = [x for x in active if x[1] == k and x[2] < 0 and set(who) <= set(x[4])]
                    ans = rng.choice(answers)[0] if answers and rng.random() < .4 else -1
                    if rng.random() < .3:
                        ops.append("*.*:abar")
                    z = rng.choice([0, 0, 3])
                    ops += ["%d.0:reg %d %d %d %d" % (r, j, k, z, ans) for r in who] if len(who) < R else ["*.0:reg %d %d %d %d" % (j, k, z, ans)]
                    active.append([j, k, ans, [0] * R, who])
                    j += 1
                ops.append("*.*:bar")
                cross = rng.random() < .7
                for _ in range(rng.choice([0, 1, 4, 10])):
                    x = rng.choice(active)
                    r = rng.choice(x[4])
                    m = member(x[1], r)
                    d = rng.choice(m) if cross else r
                    ops.append("%d.%d:send %d %d %d" % (r, rng.randrange(nt), x[0], m.index(d), rng.randrange(1000) if rng.random() < .9 else 5))
                    x[3][d] += 1
                    if x[2] >= 0:
                        y = [z for z in active if z[0] == x[2]]
                        if y:
                            y[0][3][r] += 1
                tell = rng.random()
                if tell < .6 or any(x[2] >= 0 for x in active):
                    for x in active:
                        ops += ["%d.0:await %d %d" % (r, x[0], x[3][r]) for r in x[4]]
                    ops.append("*.*:bar")
                if cross:
                    ops.append("*.*:abar")
                else:
                    ops.append("*.*:bar")
                if active and rng.random() < .4:
                    x = active.pop(rng.randrange(len(active)))
                    if not any(y[2] == x[0] for y in active):
                        ops += ["%d.0:unreg %d" % (r, x[0]) for r in x[4]]
                    else:
                        active.append(x)
            for x in sorted(active, key=lambda x: -x[2]) if rng.random() < .8 else []:
                ops += ["%d.0:unreg %d" % (r, x[0]) for r in x[4]]
            ops += ["*.*:abar", "*.0:stop", "*.*:abar", "*.0:stat live_request live_thread"]
            ops += ["*.*:abar"]
        if rng.random() < .3 and j < 39:
            ops += ["*.0:reg %d 0 0" % j, "*.*:abar"]
        ops += ["*.0:freecomm %d" % k for k in range(len(kinds))] + ["*.*:abar", "*.0:stat live_comm live_request live_thread", "*.*:abar"]
        res.append(U(sched(rng, R=R, maxcpu=cpus, eager=1, msgdelay=rng.choice([0, 200, 700])), ops, {"R": R, "cpus": cpus, "T": nt}, "ucomm",
                     {"ranks": R, "threads": nt, "comms": kinds, "pin": 1}))
    return res


def C25(c):
    so = ubuild(c, [COMM], ["std"])
    c.model("CommModel.tla", "CommModel_big.cfg" if c.thorough else "CommModel.cfg", "registration, messages and stopping, all interleavings")
    check(c, so, comms(c.rng, c.n(1500, 20000)), "CommThreadTrace", "comm", "communication thread")
    grids.go(c, so, c.n(80, 800), [
        (1, dict(type="FULL", R=grids.ch(2, 3), T=grids.ch(1, 2), D=grids.ch(1, 2), mpi="THREAD", nreads=20, levels=grids.ch(1, 2))),
        (1, dict(type="CACHE", R=grids.ch(2, 3), T=grids.ch(1, 2), D=grids.ch(1, 2), mpi="THREAD", cs=grids.ch(1, 2), nreads=30, levels=grids.ch(1, 2)))], "grids using the communication thread")


def C26(c):
    so = ubuild(c, [COMM], ["std"])
    c.model("CommModel.tla", "CommModel.cfg", "registration, messages and stopping, all interleavings")
    check(c, so, comms(c.rng, c.n(1500, 20000), life=True), "CommThreadTrace", "life", "communication thread")
    grids.go(c, so, c.n(60, 600), [(1, dict(type=grids.ch("FULL", "CACHE"), R=grids.ch(2, 3), T=grids.ch(1, 2), D=1, mpi="THREAD", nreads=10, levels=1))], "grids using the communication thread")


# ---------------------------------------------------------------- C27
def pair(ev):
    """give the begin of an operation the result its end reports"""
    last = {}
    for e in ev:
        if e["e"] == "b":
            last[e["t"]] = e
            e["v"] = -1000
        elif e["e"] == "f" and e["t"] in last:
            last[e["t"]]["v"] = e["v"]
    return ev


def handles(rng, n, api=False):
    res = []
    new, get, rem = ("create", "use", "close") if api else ("add", "get", "del")
    for i in range(n):
        nt = rng.choice([1, 2, 2, 3, 4])
        ops = ["team=%d" % nt]
        if api:
            ops.append("*.0:file @FILE@")
        else:
            ops.append("0.0:tnew")
        obj = [0]

        def create(t, s):
            o = obj[0] % 32
            obj[0] += 1
            ops.append("0.%d:%s %d %d%s" % (t, new, s, o, " %d" % rng.choice([0, 0, 1, 2]) if api else ""))
            if api:
                ops.append("0.%d:conf %d %d%s" % (t, s, o, rng.choice(["", "", " CACHE", " PASS_THROUGH"])))
                ops.append("0.%d:open %d" % (t, s))
            return o
        live = {}
        shared = rng.choice([0, 1, 2])      # slots 0.. that all threads use
        for s in range(shared):
            live[("s", s)] = create(0, s)
        ops.append("*.*:bar")
        own = {t: {} for t in range(nt)}
        if i % 8 == 3:
            ops.append("0.%d:%s %d" % (rng.randrange(nt), "many" if api else "tmany", 67000 if i == 35 and not api else 33000 if i == 67 and not api else rng.randrange(110, 300)))
            if rng.random() < .5:
                ops.append("*.*:bar")
        for _ in range(rng.choice([8, 15, 30]) if not api else rng.choice([6, 12])):
            t = rng.randrange(nt)
            r = rng.random()
            free = [s for s in range(8 + 8 * t, 12 + 8 * t) if s not in own[t]]
            if free and (r < .4 or not own[t]):
                s = rng.choice(free)
                if len(live) + sum(len(x) for x in own.values()) < 30:
                    own[t][s] = create(t, s)
            elif r < .6 and own[t]:
                s = rng.choice(list(own[t]))
                ops.append("0.%d:%s %d" % (t, rem, s))
                del own[t][s]
            else:
                c = [(s, o) for s, o in own[t].items()] + [(s[1], o) for s, o in live.items()]
                if c:
                    s, o = rng.choice(c)
                    ops.append("0.%d:%s %d %d" % (t, rng.choice([get, get, "dims", "max"]) if api else get, s, o))
        ops.append("*.*:bar")
        for t in range(nt):      # what is left still designates the same
            for s, o in own[t].items():
                ops.append("0.%d:%s %d %d" % (t, get, s, o))
                ops.append("0.%d:%s %d" % (t, rem, s))
        ops.append("*.*:bar")
        for (x, s), o in live.items():
            ops.append("0.0:%s %d %d" % (get, s, o))
            ops.append("0.0:%s %d" % (rem, s))
        if not api:
            ops.append("0.0:tdel")
        res.append(U(sched(rng), ops, {"api": api}, "uhandle", {"threads": nt, "api": api, "pair": True}))
    return res


def C27(c):
    c.model("HandlesModel.tla", "HandlesModel%s.cfg" % ("_big" if c.thorough else ""), "HandlesModel.tla, exhaustively")
    so = ubuild(c, [HANDLE])
    f = c.dir + "/handles.nc"
    c.files([g.ncline(f, "v%d" % o, g.var("int", [1] * (o % 4) + [2], o, 1, [0] * (o % 4) + [(o + 9) * 1024], [1024] * (o % 4 + 1), [False] * (o % 4) + [True]), 1024) for o in range(32)])
    for i in range(c.n(1, 20)):
        scns = handles(c.rng, c.n(700, 1500)) + handles(c.rng, c.n(500, 1500), True)
        for s in scns:
            s.ops = [o.replace("@FILE@", f) for o in s.ops]
        check(c, so, scns, "HandlesTrace", "h%d" % i, "handles")
        if c.violations:
            break


ALL = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}
