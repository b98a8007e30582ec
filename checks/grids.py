"""The properties decided on the public interface with spec/Grid.tla."""
import gridlib as gl
from gridlib import BUILDS, Scn, var, grid, gen, pos_for, STAT


prod = gl.prod


def protocol(c, quick, thorough=()):
    """the protocols between processes (CacheWin: windows; CacheMsg, FullMsg: communication threads)"""
    for m in list(quick) + (list(thorough) if c.thorough else []):
        c.model(m.split("_")[0] + ".tla", m + ".cfg", "protocol between processes, exhaustively")


def build(c, *names):
    return c.build([BUILDS[n] for n in names])


def mix(c, n, specs):
    """n scenarios from a list of (weight, keywords); values that are functions are called with the generator"""
    tot = sum(w for w, _ in specs)
    out = []
    for w, k in specs:
        m = max(1, round(n * w / tot))
        if "fn" in k:
            out += k["fn"](c.rng, m)
            continue
        for _ in range(m):
            kk = {a: (b(c.rng) if callable(b) else b) for a, b in k.items()}
            out.append(gen(c.rng, **kk))
    return out


def ch(*a):
    return lambda rng: rng.choice(a)


def go(c, so, n, specs, what):
    """quick: one batch; thorough: batches until the time is used up"""
    import time
    if not c.thorough:
        gl.check(c, so, mix(c, n, specs), "q", what)
        return
    end = c.t0 + 2400
    i = 0
    while time.time() < end and i < 60 and not c.violations:
        gl.check(c, so, mix(c, 2500, specs), "t%d" % i, what)
        i += 1


T4 = ch(1, 2, 3, 4)
D3 = ch(1, 2, 2, 3)


def parts(c, quick, thorough=()):
    for m in list(quick) + (list(thorough) if c.thorough else []):
        c.model("OpenModel.tla", "OpenModel_%s.cfg" % m, "open made of registration, domain masters and broadcasts, exhaustively")


def model(c, quick, thorough=()):
    for m in list(quick) + (list(thorough) if c.thorough else []):
        c.model("GridModel.tla", "GridModel_%s.cfg" % m, "Grid.tla, exhaustively")


def huge(rng, n, types=("FULL", "CACHE", "PASS_THROUGH"), Rs=(1, 1, 2, 3), build=("types",), mpis=("WINDOW",), long=False):
    """grids with more than 2^31 bytes, 2^32 bytes or 2^31 cells: only the cells that are read hold something"""
    res = []
    for i in range(n):
        typ, R, T = rng.choice(types), rng.choice(Rs), rng.choice([1, 2, 2])
        D = rng.choice([1, T])
        full = typ == "FULL"
        bu = rng.choice(build)
        kind = rng.choice(["byte", "int", "float", "double", "long"] if bu == "types" else ["int", "float"])
        es = gl.SIZES[kind]
        total = rng.choice([2200000000, 4400000000, 6000000000, 9000000000, 20000000000] + ([40000000000] if R == T == 1 else [])) // es if full else rng.choice([2200000000, 5000000000, 40000000000])
        shape = rng.randrange(4)
        if shape == 0 and total < 2000000000:
            size = [total]
        elif shape == 1:
            a = rng.randint(2, 5)
            size = [total // a, a] if rng.random() < .5 else [a, total // a]
        elif shape == 2:
            a, b = rng.randint(100, 900), rng.randint(100, 900)
            size = [total // (a * b) + 1, b, a]
        else:
            a = rng.randint(20000, 40000)
            size = [a, total // a + 1]
        if max(size) >= 500000000:
            size = [40000, total // 40000 + 1]
        if long:      # one dimension needs more than single precision
            size = [rng.randint(1 << 24, 490000000)] + [rng.randint(1, 90) for _ in range(rng.choice([0, 0, 1]))]
        rng.shuffle(size)
        nblk = rng.choice([40, 500, 3000] if full else [40, 3000, 100000])
        bs = list(size)
        if full and R == T == 1 and rng.random() < .3:      # one block, of more than 2^32 elements
            nblk = 1
            while not 4500000000 < prod(size) < 12000000000:
                size = [rng.randint(100, 90000) for _ in range(rng.choice([2, 2, 3]))]
            bs = list(size)
        while prod([-(-s // b) for s, b in zip(size, bs)]) < nblk:
            k = max(range(len(size)), key=lambda k: bs[k])
            bs[k] = -(-bs[k] // rng.choice([2, 2, 3]))
        if not full or R > 1 or T > 1:
            while prod(bs) > (100000 if full else 2000000 // es):
                k = max(range(len(size)), key=lambda k: bs[k])
                bs[k] = -(-bs[k] // 2)
        if typ == "CACHE" and R == 1 and not long and rng.random() < .5:     # more than 2^32 blocks
            if prod(size) < 6000000000:
                size[0] *= 6000000000 // prod(size) + 1
            if max(size) >= 500000000:
                size = [120000, 55001]
            bs = [rng.choice([1, 1, 2]) if n > 20 else 1 for n in size]
            while prod(size) // prod(bs) < 5000000000:
                bs[max(range(len(size)), key=lambda k: bs[k])] = 1
                if prod(bs) == 1:
                    break
        s = Scn(R, T, [[t % D for t in range(T)] for _ in range(R)], bu, scale=2, lognc=0, seed=rng.randrange(1 << 30), pp=5, eager=rng.choice([0, 1]), rmalazy=rng.choice([0, 1]), pm=0)
        s.head["budget"] = 40000000
        nd = len(size)
        v = var(kind, size, 1, 1, [0] * nd, [2] * nd, [False] * nd, scale=2)
        v["mod"] = 10007
        f = s.add("huge", v, "f")
        mpi = rng.choice(mpis)
        ps = [("GRID", typ), ("VARIABLE", "huge"), ("CACHE_SIZE", rng.choice([1, 2, 4])), ("MPI_COMMUNICATION", mpi)]
        if rng.random() < .6:
            ps.append(("NUMA_COMMUNICATION", rng.choice(["ON", "CACHE", "OFF"])))
        ps += [("BLOCK_SIZE_%d" % k, x) for k, x in enumerate(bs[::-1])]
        thread = mpi == "THREAD" and R > 1 and typ != "PASS_THROUGH"
        if thread:
            s.op("*.0", "startcomm")
        grid(s, 0, kind, ps, T, "world" if R > 1 else None)
        reads = []
        nb = [-(-n // b) for n, b in zip(size, bs)]
        for _ in range(12 if full else 16):
            if reads and prod(nb) > 1 << 32 and rng.random() < .5:       # a block whose number is that of the last one plus or minus 2^32
                x = 0
                for n, q, b in zip(nb, reads[-1], bs):
                    x = x * n + q // b
                x = x + (1 << 32) if x + (1 << 32) < prod(nb) else abs(x - (1 << 32))
                cell = []
                for n, b in zip(nb[::-1], bs[::-1]):
                    cell.insert(0, x % n * b)
                    x //= n
            else:
                cell = [rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]) for n in size]
            lin = 0
            for n, x in zip(size, cell):
                lin = lin * n + x
            s.op("0.0", "set", "touch", lin)
            reads.append(cell)
        s.op("*.*", "abar")
        s.op("*.*", "open", 0, f, 0)
        for cell in reads:
            for _ in range(rng.choice([1, 2])):
                s.op("%d.%d" % (rng.randrange(R), rng.randrange(T)), "get", 0, 0, rng.choice([kind, "long", "double", "buf"] if kind != "byte" else [kind, "int", "buf"]), *[2 * x for x in cell[::-1]])
        s.op("*.*", "abar")
        s.op("*.0", "close", 0)
        if thread:
            s.op("*.0", "stopcomm")
        s.info = dict(case="huge", type=typ, R=R, T=T, D=D, kind=kind, size=size, blocks=bs, mpi=mpi)
        res.append(s)
    return res


def C01(c):
    model(c, ["full1"])
    so = build(c, "std", "norr", "nonuma", "nompi", "nothr")
    go(c, so, 1300, [
        (4, dict(type="FULL", R=1, T=T4, D=D3, build=ch("std", "std", "norr"))),
        (2, dict(type="FULL", R=1, T=ch(2, 3, 4), D=ch(2, 3), build=ch("std", "norr"), numa=ch("ON", "CACHE"), nreads=60, hot=0.7)),
        (2, dict(type="FULL", R=1, T=ch(2, 3), D=2, numa="CACHE", cs=ch(1, 2), nreads=80, maxn=5, bs=lambda r: [1] * 8)),
        (1, dict(type="FULL", R=1, T=T4, D=1, build=ch("nonuma", "nompi"))),
        (1, dict(type="FULL", R=1, T=2, D=2, kind=ch("arr_int", "struct", "structw"), build="norr")),
        (.7, dict(fn=lambda r, n: huge(r, n, ("FULL",), (1,), ("std", "std", "norr")))),
        (1, dict(type="FULL", R=1, T=1, build="nothr")),
        (.4, dict(type="FULL", R=1, T=ch(9, 11), D=12, numa=ch("ON", "CACHE"), nreads=60)),
    ], "reads from a FULL grid in one process")


def C02(c):
    model(c, ["full2"], ["full3"])
    protocol(c, ["FullMsg_sync", "FullMsg_eager"], ["FullMsg_three", "FullMsg_big"])
    so = build(c, "std", "norr", "ts", "mpi2")
    go(c, so, 1000, [
        (3, dict(type="FULL", R=ch(2, 3, 4), T=ch(1, 2), D=ch(1, 2), mpi="WINDOW", build=ch("std", "norr"))),
        (3, dict(type="FULL", R=ch(2, 3), T=ch(1, 2, 3), D=ch(1, 2), mpi="THREAD", build=ch("std", "norr"))),
        (1, dict(type="FULL", R=2, T=2, D=ch(1, 2), mpi="OFF")),
        (1, dict(type="FULL", R=2, T=ch(1, 2), D=2, mpi=ch("WINDOW", "THREAD"), build="ts", serialmpi=1)),
        (2, dict(type="FULL", R=ch(2, 3), T=2, D=2, mpi=ch("WINDOW", "THREAD"), cs=ch(1, 2), nreads=80, maxn=5, bs=lambda r: [1] * 8, numa=ch("CACHE", "ON"))),
        (1, dict(type="FULL", R=2, T=2, D=2, mpi=ch("WINDOW", "THREAD"), kind=ch("arr_int", "struct", "structw"), build="norr")),
        (.7, dict(fn=lambda r, n: huge(r, n, ("FULL",), (2, 3, 4), ("std",), ("WINDOW", "WINDOW", "THREAD")))),
        (1.5, dict(type="FULL", R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), build="mpi2", mpi=ch("WINDOW", "THREAD", "OFF"))),
        (.4, dict(type="FULL", R=ch(2, 8, 9), T=ch(2, 9), D=12, mpi=ch("WINDOW", "THREAD"), numa=ch("ON", "CACHE"), nreads=60)),
    ], "reads from a FULL grid over MPI")


def C03(c):
    model(c, ["cache1"], ["cache1big"])
    so = build(c, "std", "norr", "nonuma", "dbgnuma")
    go(c, so, 1100, [
        (3, dict(type="CACHE", R=1, T=T4, D=D3, build=ch("std", "norr"), nreads=50)),
        (3, dict(type="CACHE", R=1, T=ch(2, 3, 4), D=ch(1, 2, 3), cs=ch(1, 2, 3), nreads=80, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], build=ch("std", "norr"))),
        (1, dict(type="CACHE", R=1, T=T4, D=1, build="nonuma", cs=ch(1, 2, 3))),
        (1, dict(type="CACHE", R=1, T=2, D=2, kind=ch("arr_int", "struct", "structw"), build="norr", cs=ch(1, 2))),
        (1, dict(type="CACHE", R=1, T=ch(1, 2, 3), D=ch(1, 2, 3), seq=True, cs=ch(1, 2, 3, 4, 5), nreads=80, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)])),
        (.7, dict(fn=lambda r, n: huge(r, n, ("CACHE",), (1,), ("std",)))),
        (1, dict(type="CACHE", R=1, T=ch(2, 3), D=ch(1, 2), build="dbgnuma", cs=ch(1, 2, 3), nreads=50)),
        (.4, dict(type="CACHE", R=1, T=ch(9, 11), D=12, numa=ch("ON", "CACHE"), nreads=60, cs=ch(1, 2, 3))),
    ], "reads from a CACHE grid in one process")


def C04(c):
    model(c, ["cacheR2"], ["cacheR3", "cacheW"])
    protocol(c, ["CacheWin_ser", "CacheMsg_two"], ["CacheWin_a", "CacheWin_three", "CacheMsg_three", "CacheMsg_numa"])
    so = build(c, "std", "norr", "ts", "mpi2")
    go(c, so, 1100, [
        (2, dict(type="CACHE", R=ch(2, 3, 4), T=ch(1, 2), D=ch(1, 2), mpi="WINDOW", build=ch("std", "norr"), nreads=50)),
        (2, dict(type="CACHE", R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), mpi="THREAD", build=ch("std", "norr"), nreads=50)),
        (3, dict(type="CACHE", R=ch(2, 3), T=ch(1, 2, 3), D=ch(1, 2), mpi=ch("WINDOW", "THREAD"), cs=ch(1, 2, 3), nreads=90, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], hot=0.6)),
        (2, dict(type="CACHE", R=2, T=ch(2, 3, 4), D=ch(1, 2, 3), mpi=ch("THREAD", "THREAD", "WINDOW"), levels=ch(2, 3), cs=1, nreads=100, maxn=4, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], hot=0.6)),
        (1, dict(type="CACHE", R=ch(3, 5), T=ch(2, 3), D=ch(2, 3), mpi=ch("WINDOW", "THREAD"), seq=True, cs=ch(1, 2, 3), nreads=80)),
        (1, dict(type="CACHE", R=2, T=2, D=ch(1, 2), mpi="WINDOW", build="ts", serialmpi=1, cs=ch(1, 2))),
        (1, dict(type="CACHE", R=2, T=2, D=2, mpi=ch("WINDOW", "THREAD"), kind=ch("arr_int", "struct", "structw"), build="norr", cs=ch(1, 2))),
        (1, dict(type="CACHE", R=2, T=2, D=ch(1, 2), mpi="OFF", cs=ch(1, 2, None))),
        (.7, dict(fn=lambda r, n: huge(r, n, ("CACHE",), (2, 3, 4), ("std",), ("WINDOW", "THREAD", "OFF")))),
        (.3, dict(fn=lambda r, n: many(r, max(4, n // 4), ("std", "ts")))),
        (1, dict(type="CACHE", R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), mpi=ch("THREAD", "OFF"), build="mpi2", cs=ch(1, 2, 3))),
        (.4, dict(type="CACHE", R=ch(2, 8, 9), T=ch(2, 9), D=12, mpi=ch("WINDOW", "THREAD"), numa=ch("ON", "CACHE"), nreads=60, cs=ch(1, 2, 3))),
    ], "reads from a CACHE grid over MPI")
    import units
    units.directories(c, c.n(250, 3000))


def C05(c):
    model(c, ["pass", "pass2"])
    so = build(c, "std", "types", "nompi")
    go(c, so, 1100, [
        (3, dict(type="PASS_THROUGH", R=ch(1, 2), T=T4, D=D3, nreads=40)),
        (3, dict(type="PASS_THROUGH", R=1, T=ch(1, 2), kind=ch("byte", "int", "long", "float", "double"), build="types")),
        (2, dict(type="PASS_THROUGH", R=1, T=ch(1, 3), kind=ch("arr_byte", "arr_int", "arr_long", "arr_float", "arr_double", "struct", "structb", "structw"), build="types")),
        (1, dict(type="PASS_THROUGH", R=2, T=2, levels=2)),
        (1, dict(type="PASS_THROUGH", R=1, T=2, grids=2, build="nompi")),
        (.7, dict(fn=lambda r, n: huge(r, n, ("PASS_THROUGH",), (1, 2), ("std",)))),
    ], "reads from a PASS_THROUGH grid")


def many(rng, n, build=("std", "ts")):
    """distributed caches with so many slots and blocks that messages exceed 32 bits"""
    res = []
    for i in range(n):
        R, T = rng.choice([2, 2, 3]), rng.choice([1, 2])
        D, bu, kind = rng.choice([1, T]), rng.choice(build), rng.choice(["int", "float"])
        mpi = "WINDOW" if bu == "ts" else rng.choice(["THREAD", "THREAD", "WINDOW"])
        cs = rng.choice([2100, 4500]) * (2 if mpi == "THREAD" else 1)
        per = (1 << 32) // (cs * D) + rng.choice([7, 50000]) if mpi == "THREAD" else 70001
        size = [per * R * D]
        if rng.random() < .5:
            a = rng.choice([3, 7, 64])
            size = rng.choice([[a, size[0] // a + 1], [size[0] // a + 1, a]])
        s = Scn(R, T, [[t % D for t in range(T)] for _ in range(R)], bu, scale=2, seq=True, seed=rng.randrange(1 << 30), pp=5, eager=rng.choice([0, 1]), rmalazy=rng.choice([0, 1]), pm=0)
        s.head["budget"] = 40000000
        v = var(kind, size, 1, 1, [0] * len(size), [2] * len(size), [False] * len(size), scale=2)
        v["mod"] = 10007
        f = s.add("huge", v, "f")
        ps = [("GRID", "CACHE"), ("VARIABLE", "huge"), ("CACHE_SIZE", cs), ("MPI_COMMUNICATION", mpi)] + [("BLOCK_SIZE_%d" % k, 1) for k in range(len(size))]
        if mpi == "THREAD":
            s.op("*.0", "startcomm")
        grid(s, 0, kind, ps, T, "world")
        cells = [[rng.choice([0, n - 1, n - 1 - rng.randrange(9) % n, rng.randrange(n)]) for n in size] for _ in range(8)]
        for cell in cells:
            lin = 0
            for n, x in zip(size, cell):
                lin = lin * n + x
            s.op("0.0", "set", "touch", lin)
        s.op("*.*", "abar")
        s.op("*.*", "open", 0, f, 0)
        s.op("*.*", "qbar")
        for _ in range(24):
            s.op("%d.%d" % (rng.randrange(R), rng.randrange(T)), "get", 0, 0, kind, *[2 * x for x in rng.choice(cells)[::-1]])
            s.op("*.*", "qbar")
        s.op("*.*", "abar")
        s.op("*.0", "counters", 0, 0)
        s.op("*.*", "abar")
        s.op("*.0", "close", 0)
        if mpi == "THREAD":
            s.op("*.0", "stopcomm")
        s.info = dict(many=size, R=R, T=T, D=D, mpi=mpi, cs=cs)
        res.append(s)
    return res


def geo(rng, n, odd=True):
    """reads all over one variable, many geometries per second: one thread, FULL or PASS_THROUGH or CACHE"""
    out = []
    for _ in range(n):
        nd = rng.choice([1, 1, 2, 2, 3, 4])
        size = [rng.choice([1, 2, 3, 4, 7, rng.randint(1, 30)]) for _ in range(nd)]
        while gl.prod(size) > 3000:
            size[rng.randrange(nd)] = rng.randint(1, 4)
        s = Scn(1, 1, seed=1)
        hs = [rng.random() < 0.75 for _ in range(nd)]
        dd = [rng.choice([1, -1]) * rng.choice([1024, 1024, 512, 2048, 4096, 1000, 300, 14, 2, 100000] + ([7, 3] if odd else [])) for _ in range(nd)]
        of = [rng.choice([0, 1024, -5120, 77, -3333, 20480, 1000003]) for _ in range(nd)]
        v = var("int", size, 0, 1, of, dd, hs)
        f = s.add("z", v)
        ty = rng.choice(["FULL", "FULL", "CACHE", "PASS_THROUGH"])
        ps = [("GRID", ty)]
        vp = rng.choice([None, "VERTEX_CENTERED", "CELL_CENTERED"])
        if vp:
            ps.append(("VALUE_POSITION", vp))
        for d in range(nd):
            if rng.random() < 0.5:
                ps.append(("BLOCK_SIZE_%d" % d, rng.randint(1, 9)))
        grid(s, 0, "int", ps, 1, None)
        s.op("*.0", "open", 0, f, 0)
        for _ in range(30):
            p = pos_for(rng, v)
            x = rng.random()
            if x < 0.1:
                p[rng.randrange(nd)] = rng.choice(["inf", "-inf", "1e30", "-1e30", "9e18", "-9e18", "300000000", "-300000000", "5e12"])
            elif x < 0.35:      # at and around a cell's border
                i = rng.randrange(nd)
                n_, o, d = v["size"][i], v["off"][i], v["d"][i]
                if n_ > 1 and abs(d) >= 2:
                    q = o + rng.randint(-1, n_) * d
                    h = (abs(d) - 1) // 2 if d & (d - 1) else abs(d) // 2 - 1
                    p[nd - 1 - i] = q + rng.choice([1, -1]) * h
            s.op("0.0", "get", 0, 0, "int", *p)
        for b in range(min(1 << nd, 8)):
            s.op("0.0", "edge", 0, 0, rng.randrange(1 << nd))
        if not odd:
            s.op("*.0", "meta", 0, 0)
        s.op("*.0", "close", 0)
        s.info = dict(size=size, d=dd, off=of, type=ty, vp=vp)
        out.append(s)
    return out


def C06(c):
    c.model("GeoModel.tla", "GeoModel.cfg", "Geometry.tla against the declarative definition of the nearest cell")
    so = build(c, "std")
    for i in range(c.n(1, 20)):
        gl.check(c, so, geo(c.rng, c.n(900, 3000)), "geo%d" % i, "selection of cells")
        gl.check(c, so, huge(c.rng, c.n(60, 300), ("PASS_THROUGH", "CACHE"), (1,), ("std",), long=True), "long%d" % i, "selection of cells in long dimensions")
        if c.violations:
            break


def C07(c):
    so = build(c, "std", "norr", "nompi", "dim6")
    for i in range(c.n(1, 20)):
        gl.check(c, so, geo(c.rng, c.n(600, 3000), False), "geo%d" % i, "extents")
        sp = [(2, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=ch(1, 2), T=ch(1, 2), D=1, levels=ch(1, 1, 2), edges=True, nreads=5, counters=False, build=ch("std", "norr"))),
              (1, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=1, nd=ch(4, 5, 6), maxn=3, edges=True, nreads=9, build="dim6")),
              (1, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 2), api=ch(0, 1, 2), edges=True, nreads=5, counters=False, kind=ch("arr_int", "struct", "float", "int"), build=ch("nompi")))]
        gl.check(c, so, mix(c, c.n(300, 1000), sp), "m%d" % i, "description of the grid")
        if c.violations:
            break


def C08(c):
    model(c, ["full1", "full2"], ["full3"])
    so = build(c, "std", "norr")
    big = lambda rng: rng.choice([[130, 3], [3, 130], [65], [64, 2], [128], [70, 65], [2, 2, 65], [66, 2, 3], [1, 1, 129]])
    go(c, so, 1100, [
        (4, dict(type="FULL", R=ch(1, 1, 2, 3), T=ch(1, 2, 3), D=ch(1, 2, 3), nreads=6, build=ch("std", "norr"), mpi=ch("WINDOW", "WINDOW", "THREAD", "OFF"))),
        (2, dict(type="FULL", R=ch(1, 2), T=ch(1, 2), D=ch(1, 2), nreads=3, spec_size=big, bs=lambda r: [r.choice([0, 0, -1, 64, 63, 65, 1000]) for _ in range(8)], kind="int", time=ch(-1, 0, 1))),
        (1, dict(type="FULL", R=ch(1, 2), T=2, D=2, levels=2, nreads=3)),
        (1, dict(type="FULL", R=4, T=3, D=3, nreads=3, bs=lambda r: [1] * 8, maxn=5)),
        (1, dict(type="FULL", R=ch(1, 2), T=2, D=2, nreads=40, numa=ch("ON", "CACHE"), cs=1)),
    ], "loading of a FULL grid")


def C09(c):
    so = build(c, "types")
    S = ("byte", "int", "long", "float", "double")
    A = ("arr_byte", "arr_int", "arr_long", "arr_float", "arr_double", "struct", "structb", "structw")
    go(c, so, 1100, [
        (5, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=1, kind=ch(*S), build="types", nreads=40, wide=.3)),
        (2, dict(type=ch("FULL", "CACHE"), R=2, T=ch(1, 2), D=ch(1, 2), mpi=ch("WINDOW", "THREAD"), kind=ch(*S), build="types", nreads=40, wide=.3)),
        (2, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=ch(1, 2), T=1, kind=ch(*A), build="types", mpi=ch("WINDOW", "THREAD"), nreads=40, wide=.2)),
        (1, dict(type=ch("FULL", "CACHE"), R=1, T=1, kind=ch(*A[:5]), build="types", nreads=40, getters=lambda r: S + ("buf",))),
        (1, dict(type=ch("FULL", "CACHE"), R=1, T=2, D=2, kind=ch(*(S + A)), build="types", nreads=40, api=ch(1, 2))),
        (.05, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 1, 2), D=ch(1, 2), nd=1, maxn=3, kind="arr_byte", K=66000, build="types", nreads=2, cs=ch(1, 2), counters=False)),
        (.07, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=ch(1, 1, 2), T=ch(1, 1, 2), D=ch(1, 2), nd=ch(1, 2), maxn=3, kind=ch("arr_int", "arr_float"), K=16500,
                  build="types", mpi=ch("WINDOW", "THREAD"), nreads=2, cs=ch(1, 2), counters=False)),  # elements of more than 64 KiB
    ], "values returned by getters")


def C10(c):
    so = build(c, "std", "types")
    odd = lambda r: [r.choice([1, 2, 3, 4, 5, 6]) for _ in range(8)]
    go(c, so, 1100, [
        (4, dict(type=ch("FULL", "CACHE"), R=1, T=1, nd=ch(1, 2, 3, 4), bs=odd, maxn=9, nreads=60, hot=0)),
        (2, dict(type=ch("FULL", "CACHE"), R=1, T=1, nd=ch(1, 2, 3, 4), bs=odd, maxn=9, nreads=60, hot=0, kind=ch("arr_int", "arr_float", "arr_double", "struct", "structb", "structw", "arr_byte", "arr_long"), build="types")),
        (2, dict(type=ch("FULL", "CACHE"), R=1, T=1, nd=ch(1, 2, 3, 4), bs=odd, maxn=9, nreads=60, hot=0, kind=ch("byte", "long", "double", "int", "float"), build="types")),
        (1, dict(type=ch("FULL", "CACHE"), R=2, T=2, D=2, nd=ch(2, 3), bs=odd, maxn=7, nreads=60, hot=0, mpi=ch("WINDOW", "THREAD"))),
        (.7, dict(fn=lambda r, n: huge(r, n, ("FULL", "CACHE"), (1, 1, 2), ("types",), ("WINDOW", "THREAD")))),
    ], "cut-off blocks")


def C11(c):
    model(c, ["full1"])
    so = build(c, "std", "norr")
    go(c, so, 900, [
        (3, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 2, 3), D=ch(1, 2), levels=ch(2, 3), nreads=50, build=ch("std", "norr"))),
        (3, dict(type=ch("FULL", "CACHE"), R=2, T=ch(1, 2), D=ch(1, 2), levels=ch(2, 3), nreads=50, mpi=ch("WINDOW", "THREAD"))),
        (2, dict(type="CACHE", R=ch(1, 2), T=2, D=2, levels=2, nreads=60, mpi=ch("WINDOW", "THREAD"), seq=True, cs=ch(1, 2, 3))),
        (1, dict(type=ch("FULL", "CACHE"), R=ch(1, 2), T=2, D=2, levels=2, kind=ch("arr_int", "struct", "structw"), mpi=ch("WINDOW", "THREAD"))),
        (1, dict(type=ch("FULL", "CACHE"), R=2, T=1, levels=ch(4, 5), nreads=60, mpi=ch("WINDOW", "THREAD"), maxn=4)),
        (1, dict(type=ch("FULL", "CACHE"), R=2, T=2, D=2, levels=2, grids=2, mpi=ch("WINDOW", "THREAD"), maxn=4, nreads=40)),
    ], "levels")


def spell(rng, s, verbatim=False):
    if verbatim:
        return s
    o = ""
    for ch_ in str(s):
        if ch_ == "_" and rng.random() < 0.5:
            ch_ = "-"
        if rng.random() < 0.5:
            ch_ = ch_.lower()
        o += ch_
    return o


def respell(rng, s):
    """the same scenario with parameters in other spellings, and with values that are overwritten"""
    NOISE = {"GRID": ["CACHE", "FULL", "PASS_THROUGH", "NOSUCH"], "MPI_COMMUNICATION": ["OFF", "WINDOW"], "NUMA_COMMUNICATION": ["OFF", "CACHE", "ON"],
             "VALUE_POSITION": ["VERTEX_CENTERED", "CELL_CENTERED", "SOMEWHERE"], "CACHE_SIZE": ["1", "9"], "CACHE_HAND_SPREAD": ["0", "3"], "TIME_DIMENSION": ["0", "1"],
             "VARIABLE": ["zz", "Z"], "BLOCK_SIZE_0": ["1", "5"], "BLOCK_SIZE_1": ["2"]}
    body = []
    for b in s.body:
        who, _, op = b.partition(":")
        w = op.split()
        if w[0] == "param":
            n, v, l = w[2], w[3], w[4]
            if n in NOISE and rng.random() < 0.5:      # set before: overwritten; set for other levels: no influence
                body.append("%s:param %s %s %s %s" % (who, w[1], spell(rng, n), spell(rng, rng.choice(NOISE[n]), n == "VARIABLE"), l))
            if n in NOISE and rng.random() < 0.4 and n not in ("GRID",):
                body.append("%s:param %s %s %s %s" % (who, w[1], spell(rng, n), spell(rng, rng.choice(NOISE[n]), n == "VARIABLE"), 7))
            body.append("%s:param %s %s %s %s" % (who, w[1], spell(rng, n), spell(rng, v, n == "VARIABLE"), l))
            continue
        body.append(b)
        if w[0] == "threads" and rng.random() < 0.3:
            body.append("%s:param %s %s %s %s" % (who, w[1], rng.choice(["GRYD", "block_size_9", "cache-size-", "NUMA"]), rng.choice(["1", "OFF"]), 0))
        if w[0] == "threads" and rng.random() < 0.25:
            if not any(" GRID " in x for x in s.body):
                body.append("%s:param %s %s %s 0" % (who, w[1], spell(rng, "GRID"), rng.choice(["bogus", "FULLY", "cached", "pass through"]).replace(" ", "")))
            if not any("VALUE_POSITION" in x for x in s.body):
                body.append("%s:param %s %s %s 0" % (who, w[1], spell(rng, "VALUE_POSITION"), rng.choice(["corner", "VERTEX"])))
    s.body = body
    return s


def C12(c):
    so = build(c, "std", "norr")

    def batch(n):
        r = c.rng
        S = mix(c, n, [
            (4, dict(type=ch("FULL", "FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 2, 3), D=ch(1, 2), levels=ch(1, 2), nreads=25, build=ch("std", "norr"), seq=True, edges=False)),
            (1, dict(type="CACHE", R=1, T=ch(1, 2), D=2, seq=True, cs=ch(1, 2, 3, 5, None), spread=ch(None, 0, 1, 2, 3, -1, -5), nreads=90, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], has=False, hot=0.5)),
            (2, dict(type="CACHE", R=1, T=ch(1, 2), D=ch(1, 2), levels=ch(2, 3), seq=True, nreads=150, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], has=False, hot=0.5)),
            (2, dict(type=ch("FULL", "CACHE"), R=2, T=ch(1, 2), D=ch(1, 2), levels=1, nreads=20, mpi=ch("WINDOW", "THREAD", "OFF"), seq=True)),
            (1, dict(type="CACHE", R=1, T=1, seq=True, cs=ch(None), spec_size=lambda r: [150], bs=lambda r: [1] * 4, nreads=250, kind="int", hot=0, has=False)),
        ])
        out = []
        for s in S:
            # a parameter at a level that is never opened must have no influence, so levels above only
            out.append(respell(r, s))
        return out
    for i in range(c.n(1, 25)):
        gl.check(c, so, batch(c.n(700, 2000)), "p%d" % i, "parameters")
        if c.violations:
            break


def errs(rng, n):
    out = []
    for _ in range(n):
        R = rng.choice([1, 1, 2])
        T = rng.choice([1, 2, 3])
        D = rng.choice([1, 2])
        nodes = [[t % D for t in range(T)] for _ in range(R)]
        kind = rng.choice(["none", "file", "ncfail", "var", "dims", "size", "wrong", "comm", "node", "cpu", "second", "compound", "mpifail", "mpifail", "ncfailn"])
        ty = rng.choice(["FULL", "CACHE", "PASS_THROUGH"])
        mpi = rng.choice(["WINDOW", "THREAD", "OFF"]) if R > 1 else "WINDOW"
        if kind == "ncfailn":
            T, D = rng.choice([2, 3]), 2
            nodes = [[t % D for t in range(T)] for _ in range(R)]
        if kind == "comm":
            R, mpi = 2, "THREAD"
            nodes = [[t % D for t in range(T)] for _ in range(R)]
            ty = rng.choice(["FULL", "CACHE"])
        if kind == "mpifail":
            R, mpi = 2, rng.choice(["WINDOW", "WINDOW", "WINDOW", "THREAD"])
            nodes = [[t % D for t in range(T)] for _ in range(R)]
        who = list(range(R)) if R > 1 else [0]
        bad = who      # the processes that see the error: all of them (an error of a single process is only possible without MPI)
        if kind in ("node", "cpu"):
            for r in bad:
                for t in range(T):
                    if rng.random() < 0.5 or t == 0:
                        nodes[r][t] = -1 if kind == "node" else -2
            # all threads have to see it
            nodes = [[-1 if kind == "node" else -2] * T for r in range(R)]
        head = dict(seed=rng.randrange(1 << 30), pol=rng.choice([0, 1]), pp=rng.choice([5, 30]), pm=rng.choice([0, 50]))
        s = Scn(R, T, nodes, "std", **head)
        gk = rng.choice(["float", "int", "arr_int", "struct"]) if kind not in ("size", "wrong") else rng.choice(["arr_int", "arr_int", "struct", "structb"]) if kind == "wrong" else "arr_int"
        if kind == "size":
            v = var("byte", [3, 2], 1, rng.choice([1, 2, 3, 5, 6, 7]))
            v["compound"] = True
        elif kind == "wrong" and gk != "arr_int":
            v = var(gk, [3, 2], 1)
        elif kind == "wrong":
            v = var(gk[4:], [3, 2], 1, 2)
            v["compound"] = True
        elif gk == "struct":
            v = var("struct", [3, 2], 1)
        elif gk == "arr_int":
            v = var("int", [3, 2], 1, 2)
            v["compound"] = True
        else:
            v = var("int", [2, 1, 2, 1, 2] if kind == "dims" else [3, 2], 1)
        if kind == "dims" and gk in ("struct", "arr_int"):
            v["size"], v["off"], v["d"], v["has"] = [2, 1, 2, 1, 2], [0] * 5, [1024] * 5, [True] * 5
        f = s.add("v", v)
        if gk == "structb" or (kind == "wrong" and gk == "struct"):
            s.build = "types"
        if kind == "wrong":
            if gk == "arr_int" or rng.random() < .4:
                v2 = var("int", [3, 2], 1, rng.choice([1, 3]))
                v2["compound"] = True
            else:
                v2 = var(rng.choice(["struct", "structb"]), [3, 2], 1)
            s.add("w", v2)
        wu = s.add("wu", var("float", [1], 1), "wu")
        if rng.random() < 0.3:
            s.op("*.0", "api", rng.choice([1, 2]))
        # one-time allocations
        s.op("*.0", "create", 0, "float")
        s.op("*.0", "close", 0)
        # what a first successful and a first failed open allocate once
        started = mpi == "THREAD" and R > 1
        if started:
            s.op("*.0", "startcomm")
            grid(s, 0, "float", [("MPI_COMMUNICATION", "THREAD"), ("VARIABLE", "wu"), ("NUMA_COMMUNICATION", "OFF")], 1)
            s.op("*.0", "open", 0, wu, 0)
            s.op("*.0", "close", 0)
            s.op("*.0", "stopcomm")
        s.op("*.*", "abar")
        st = STAT.replace(" unreceived", "") if started and ty == "CACHE" else STAT
        s.op("*.0", "stat", *st.split())
        s.op("*.*", "abar")
        if started and kind != "comm":
            if kind == "mpifail" and rng.random() < .3:      # the communication thread cannot be started, but later
                s.op("*.0", "set", "mpifail", 1)
                s.op("*.0", "startcomm")
                s.op("*.0", "set", "mpifail", 0)
            s.op("*.0", "startcomm")
        ps = [("GRID", ty), ("VARIABLE", "nosuch" if kind == "var" else "v"), ("BLOCK_SIZE_0", 2), ("CACHE_SIZE", 2)]
        if kind == "wrong":
            ps.append(("VARIABLE", "w", 1))
        if kind == "second":
            ps.append(("VARIABLE", "nosuch", 1))
        if R > 1:
            ps.append(("MPI_COMMUNICATION", mpi))
        nm = rng.choice(["ON", "CACHE"] + ["OFF"])
        ps.append(("NUMA_COMMUNICATION", nm))
        grid(s, 0, gk, ps, T, "world" if R > 1 else None)
        if kind == "ncfail":
            s.op("*.0", "set", "ncfail", 1)
        if kind == "ncfailn":
            s.op("*.0", "set", "ncfailn", rng.choice([1, 2, 2, 3]))
        if kind == "mpifail":
            s.op("*.0", "set", "mpifail", rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]))
            if rng.random() < .2:
                s.op("*.0", "comm", 0, "world")
                s.op("*.0", "set", "mpifail", rng.choice([0, 1, 2]))
        s.op("*.*", "abar")
        ff = "@DIR@/missing.bad" if kind == "file" else f
        s.op("*.*", "open", 0, ff, 0)
        if kind == "ncfail":
            s.op("*.*", "abar")
            s.op("*.0", "set", "ncfail", 0)
        if kind in ("mpifail", "ncfailn"):
            s.op("*.*", "abar")
            s.op("*.0", "set", kind, 0)
        ok = kind in ("none", "wrong", "second", "compound")
        if ok:
            for t in range(T):
                s.op("0.%d" % t, "get", 0, 0, "buf", *pos_for(rng, v))
        if kind == "mpifail" and gk in ("float", "int") and rng.random() < .5:      # the next level can be opened
            s.op("*.0", "param", 0, "VARIABLE", "w", 1)
            s.op("*.*", "abar")
            fw = s.add("w", var("int", [2, 3], 5))
            s.op("*.*", "open", 0, fw, 1)
            for t in range(T):
                s.op("*.%d" % t, "get", 0, 1, "buf", *pos_for(rng, v))
        if kind in ("wrong", "second"):
            s.op("*.*", "open", 0, f, 1)
            for t in range(T):
                s.op("0.%d" % t, "get", 0, 0, "buf", *pos_for(rng, v))
        s.op("*.*", "abar")
        s.op("*.0", "close", 0)
        if started and kind != "comm":
            s.op("*.0", "stopcomm")
        s.op("*.*", "abar")
        s.op("*.0", "stat", *st.split())
        s.op("*.*", "abar")
        s.info = dict(kind=kind, type=ty, R=R, T=T, D=D, mpi=mpi, gk=gk, numa=nm)
        out.append(s)
    return out


def dims(rng, n):
    """variables with about as many dimensions as the build supports"""
    res = []
    for i in range(n):
        b, m = rng.choice([("std", 4), ("dim2", 2), ("dim6", 6)])
        R, T = rng.choice([1, 1, 2]), rng.choice([1, 2])
        s = Scn(R, T, None, b, seed=rng.randrange(1 << 30))
        grid(s, 0, rng.choice(["float", "int", "arr_int"]), [("GRID", rng.choice(["FULL", "CACHE", "PASS_THROUGH"]))], T, "world" if R > 1 else None)
        k = s.body[0].split()[1:]
        for l in range(rng.choice([1, 2, 3])):
            nd = m + rng.choice([-1, 0, 1, 1, 2, 4])
            v = var("int", [rng.choice([1, 2, 2, 3]) for _ in range(nd)], 3)
            v["compound"] = s.body[0].startswith("*.0:createarr")
            f = s.add("v%d" % l, v)
            s.op("*.0", "param", 0, "VARIABLE", "v%d" % l, l)
            s.op("*.*", "abar")
            s.op("*.*", "open", 0, f, l)
            s.op("*.*", "abar")
            if nd <= m:
                s.op("*.*", "get", 0, l, "int", *pos_for(rng, v))
            s.op("*.*", "abar")
        s.op("*.0", "close", 0)
        s.info = dict(case="dimensions", build=b)
        res.append(s)
    return res


def C13(c):
    model(c, ["missing"])
    parts(c, ["pass"])
    so = build(c, "std", "types", "dim2", "dim6")
    for i in range(c.n(1, 20)):
        gl.check(c, so, errs(c.rng, c.n(1200, 3000)) + dims(c.rng, 150), "e%d" % i, "error codes of open")
        if c.violations:
            break


def C14(c):
    model(c, ["full1", "missing"], ["full2"])
    parts(c, ["full", "win"], ["thread", "big"])
    so = build(c, "std", "norr", "types")
    go(c, so, 1100, [
        (4, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(2, 3, 4), D=ch(1, 2, 3), nreads=12, levels=ch(1, 2, 3), build=ch("std", "norr"))),
        (3, dict(type=ch("FULL", "CACHE"), R=2, T=ch(2, 3), D=ch(1, 2, 3), nreads=12, mpi=ch("WINDOW", "THREAD", "OFF"), levels=ch(1, 2))),
        (1, dict(type=ch("FULL", "CACHE"), R=1, T=ch(2, 3), D=2, kind=ch("arr_int", "struct", "structw"), nreads=12, levels=ch(1, 2))),
        (1, dict(type=ch("FULL", "CACHE"), R=1, T=ch(2, 3), D=2, grids=2, nreads=12)),
    ], "open")
    for i in range(c.n(1, 10)):
        gl.check(c, so, [s for s in errs(c.rng, c.n(400, 2000)) if s.T > 1], "e%d" % i, "failing open")


def C15(c):
    model(c, ["cache1", "cacheOff", "alone"], ["cacheR3", "cacheW"])
    so = build(c, "std", "norr", "cnt")
    go(c, so, 1000, [
        (3, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 2, 3), D=ch(1, 2, 3), seq=True, nreads=60, build=ch("std", "norr"), cs=ch(1, 2, 3, 4, None), levels=ch(1, 1, 2))),
        (3, dict(type=ch("FULL", "CACHE"), R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), seq=True, nreads=60, mpi=ch("WINDOW", "THREAD", "OFF"), cs=ch(1, 2, 3, 4), levels=ch(1, 1, 2))),
        (2, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=ch(1, 2), T=ch(1, 2, 3), D=ch(1, 2), nreads=50, mpi=ch("WINDOW", "THREAD"), build="cnt", cs=ch(1, 2, 3))),
        (3, dict(type=ch("FULL", "CACHE", "CACHE"), R=ch(1, 2, 2, 3), T=ch(1, 2, 3), D=9, nreads=70, mpi=ch("WINDOW", "THREAD", "THREAD", "OFF"), cs=ch(1, 1, 2, 3), maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], hot=.6, build=ch("std", "cnt", "norr"))),
        (2, dict(type=ch("FULL", "CACHE", "CACHE"), R=ch(1, 2, 2, 3), T=ch(2, 3, 4), D=ch(1, 1, 2, 3), nreads=90, mpi=ch("WINDOW", "THREAD", "OFF"), cs=64, maxn=6, bs=lambda r: [r.choice([1, 2]) for _ in range(8)], hot=.6, build="cnt", levels=ch(1, 2))),
        (1, dict(type="CACHE", R=5, T=2, D=2, seq=True, nreads=80, mpi=ch("WINDOW", "THREAD"), cs=2)),
        (1, dict(type="PASS_THROUGH", R=2, T=2, D=2, seq=True, nreads=40, levels=2)),
    ], "counters")


def C24(c):
    model(c, ["cache1", "cacheR2"], ["cacheR3", "cacheW", "cache1big"])
    protocol(c, ["CacheMsg_one"], ["CacheWin_seq", "CacheMsg_seq"])
    so = build(c, "std", "norr", "ts")
    sm = lambda r: [r.choice([1, 2]) for _ in range(8)]
    go(c, so, 1100, [
        (3, dict(type="CACHE", R=ch(2, 3, 4, 5), T=ch(1, 2, 3), D=ch(1, 2, 3), seq=True, nreads=80, mpi="WINDOW", cs=ch(1, 2, 3, 4, None), bs=sm, build=ch("std", "norr"))),
        (3, dict(type="CACHE", R=ch(2, 3, 4, 5), T=ch(1, 2, 3, 4), D=ch(1, 2, 3), seq=True, nreads=80, mpi="THREAD", cs=ch(1, 2, 3, 4, None), bs=sm, build=ch("std", "norr"))),
        (2, dict(type="CACHE", R=1, T=ch(2, 3, 4), D=ch(2, 3), seq=True, nreads=80, cs=ch(1, 2, 3, 4, None), bs=sm)),
        (1, dict(type="CACHE", R=2, T=4, D=ch(3, 4), seq=True, nreads=80, mpi=ch("WINDOW", "THREAD"), cs=ch(2, 3, 4), bs=sm)),
        (1, dict(type="CACHE", R=2, T=2, D=2, seq=True, nreads=50, mpi="OFF", cs=ch(1, 2, 3))),
        (1, dict(type="CACHE", R=3, T=2, D=2, seq=True, nreads=50, mpi=ch("WINDOW", "THREAD"), numa="OFF", cs=ch(1, 2, 3))),
        (1, dict(type="CACHE", R=2, T=2, D=2, nreads=60, mpi="WINDOW", cs=64, numa=ch("ON", "CACHE"))),
        (.4, dict(fn=lambda r, n: many(r, max(4, n // 4), ("std", "ts")))),
        (.4, dict(type="CACHE", R=ch(2, 8), T=ch(2, 9), D=12, seq=True, mpi=ch("WINDOW", "THREAD"), nreads=80, cs=ch(1, 2, 3), bs=sm)),
    ], "sources of cached blocks")
    import units
    units.directories(c, c.n(250, 3000))


def langs(rng, n, kw):
    """random scenarios through the C interface (1), the Fortran interface (2), or grids in different languages"""
    res = []
    for i in range(n):
        k = {a: (b(rng) if callable(b) else b) for a, b in kw.items()}
        s = gen(rng, api=k.pop("api"), **k)
        if rng.random() < 0.25:      # change the language before creating each grid
            b = []
            for o in s.body:
                if " " in o and o.split(":")[1].split()[0].startswith("create"):
                    b.append("*.0:api %d" % rng.randrange(3))
                b.append(o)
            s.body = b
        res.append(s)
    return res


def inits(rng, n):
    """constants, node-local ranks and the start of the communication thread in every language"""
    res = []
    for i in range(n):
        R = rng.choice([1, 2, 3])
        s = Scn(R, 1, build=rng.choice(["fort", "fort", "fortnompi"]) if R == 1 else "fort", seed=i + 1)
        s.op("*.0", "consts")
        for _ in range(4):
            nompi = s.build == "fortnompi"
            s.op("*.0", "api", 2 if nompi else rng.randrange(3))
            if nompi:
                s.op("*.0", "nodelocal")
            else:
                s.op("*.0", "nodelocal", rng.choice(["world", "self"]))
                s.op("*.0", "startcomm")
                s.op("*.*", "abar")
                s.op("*.0", "startcomm")
                s.op("*.*", "abar")
                s.op("*.0", "stopcomm")
        s.info = {"case": "constants and start-up", "R": R}
        res.append(s)
    return res


def C28(c):
    model(c, ["full1"])
    so = build(c, "fort", "fortnompi", "std")
    n = c.n(1, 6)
    for i in range(n):
        scns = inits(c.rng, 30)
        for w, kw in [
                (260, dict(build="fort", R=1, T=ch(1, 2), D=ch(1, 2), type=ch("FULL", "CACHE", "PASS_THROUGH"), kind=ch("byte", "int", "long", "float", "double"), levels=ch(1, 2, 3), edges=True, wide=.3)),
                (100, dict(build="fort", R=1, type=ch("FULL", "CACHE"), kind=ch("arr_byte", "arr_int", "arr_long", "arr_float", "arr_double", "struct", "structb", "structw"), levels=ch(1, 2))),
                (50, dict(build="fort", R=1, type=ch("FULL", "CACHE"), kind=ch("arr_byte", "arr_int", "arr_long", "arr_float", "arr_float", "arr_double"), getters=lambda r: ["int", "long", "float", "double", "buf"])),
                (90, dict(build="fort", R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), type=ch("FULL", "CACHE"), mpi=ch("WINDOW", "THREAD", "OFF"), kind=ch("int", "float"), levels=ch(1, 2))),
                (90, dict(build="fort", R=ch(1, 2), grids=ch(2, 3), type=ch("FULL", "CACHE"), kind=ch("int", "float", "double", "byte"), maxn=4)),
                (60, dict(build="fortnompi", R=1, T=ch(1, 2), D=1, type=ch("FULL", "CACHE"), kind=ch("int", "float", "double"), levels=ch(1, 2))),
                (60, dict(build="std", R=ch(1, 2), type=ch("FULL", "CACHE"), kind=ch("int", "float"), levels=ch(1, 2)))]:
            scns += langs(c.rng, w, dict(kw, api=ch(0, 1, 1, 2, 2), nreads=16, stat=True))
        er = errs(c.rng, c.n(400, 1500))
        for s in er:
            if s.build in ("std", "types"):
                s.build = "fort"
            if s.build in so:
                s.body.insert(0, "*.0:api %d" % c.rng.choice([1, 2]))
                scns.append(s)
        gl.check(c, so, scns, "l%d" % i, "languages")
        if c.violations:
            break


def names(rng, n, big=False):
    res = []
    close = [[50, 51], [53, 54, 55, 56], [1, 57, 58, 61, 62], [59, 60, 50], [63, 64, 53], [1000, 1001, 1010, 1100], list(range(69)), [50, 51, 52], [0], [65, 66], [67, 68, 65]]
    for i in range(n):
        R = rng.choice([1, 2, 3, 4, 5, 6] + ([8] if i % 4 == 0 else []))
        T = rng.choice([1, 1, 2])
        s = Scn(R, T, build="fort" if rng.random() < .2 else "std", seed=rng.randrange(1 << 30), pol=rng.choice([0, 1]), pp=rng.choice([5, 20, 50]), eager=rng.choice([0, 1]), msgdelay=rng.choice([0, 3]))
        if rng.random() < 0.85:
            cl = rng.choice(close)
            if rng.random() < .4:
                k = rng.randrange(37)
                cl = [2000 + 10 * k, 2001 + 10 * k] + ([2000 + 10 * rng.randrange(37)] if i % 3 == 0 else [])
            s.pn = [rng.choice(cl) for _ in range(R)]
        else:      # all processes of a large machine: nodes filled in turn or one after the other
            k = rng.choice([1, 2, 3])
            s.pn = [1000 + (r % k if i % 2 else r // k) for r in range(R)]
        for r in range(R):
            s.op("%d.0" % r, "set", "procname", s.pn[r])
        if R > 1:
            s.colors = [rng.randrange(rng.choice([1, 2, 3])) for _ in range(R)]
            if rng.random() < 0.5:
                s.keys = [rng.randrange(R) for _ in range(R)]
            for r in range(R):
                s.op("%d.0" % r, "newcomm", s.colors[r], s.keys[r])
        s.op("*.*", "abar")
        s.op("*.0", "api", rng.randrange(3))
        s.op("*.0", "nodelocal")
        s.op("*.*", "abar")
        s.op("*.0", "stat", *STAT.split())
        s.op("*.*", "abar")
        for _ in range(rng.choice([1, 2, 4])):
            s.op("*.0", "api", rng.randrange(3))
            s.op("*.0", "nodelocal", rng.choice(["world", "self", "user"] if R > 1 else ["world", "self"]))
        s.op("*.*", "abar")
        s.op("*.0", "stat", *STAT.split())
        s.op("*.*", "abar")
        if R > 1:
            s.op("*.0", "freecomm")
        s.info = dict(case="node-local ranks", R=R, names=s.pn)
        res.append(s)
    return res


def C29(c):
    c.model("NodeLocalModel.tla", "NodeLocalModel.cfg", "NodeLocalModel.tla, exhaustively")
    if c.thorough:
        c.model("NodeLocalModel.tla", "NodeLocalModel_big.cfg", "NodeLocalModel.tla, exhaustively")
    so = build(c, "std", "fort")
    for i in range(c.n(1, 12)):
        gl.check(c, so, names(c.rng, 1500), "n%d" % i, "node-local ranks")


def C30(c):
    so = build(c, "std", "norr", "ts", "types")
    go(c, so, 700, [
        (3, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=1, T=ch(1, 2, 3), D=ch(1, 2), nreads=15, levels=ch(1, 2, 3), kind=ch("float", "int", "arr_int", "struct", "structw"))),
        (3, dict(type=ch("FULL", "CACHE", "PASS_THROUGH"), R=ch(2, 3), T=ch(1, 2), D=ch(1, 2), nreads=15, levels=ch(1, 2), mpi=ch("WINDOW", "THREAD", "OFF"), kind=ch("float", "int", "arr_int", "struct", "structw"))),
        (2, dict(type=ch("FULL", "CACHE"), R=ch(1, 2), T=2, D=2, nreads=15, grids=ch(2, 3), mpi=ch("WINDOW", "THREAD"), maxn=4)),
        (1, dict(type=ch("FULL", "CACHE"), R=2, T=2, D=2, nreads=10, mpi="WINDOW", build="ts", serialmpi=1)),
    ], "resources")
    gl.check(c, so, errs(c.rng, c.n(500, 5000)), "e", "resources after failures")


def C31(c):
    so = build(c, "std", "ts")
    go(c, so, 800, [
        (3, dict(type=ch("PASS_THROUGH", "CACHE", "FULL"), R=1, T=ch(2, 3, 4), D=ch(1, 2, 3), nreads=40, levels=ch(1, 2), cs=ch(1, 2))),
        (3, dict(type=ch("PASS_THROUGH", "CACHE", "FULL"), R=1, T=ch(2, 3), D=ch(1, 2), nreads=30, grids=ch(2, 3), cs=1, maxn=4)),
        (3, dict(type=ch("CACHE", "FULL"), R=2, T=ch(2, 3), D=ch(1, 2), nreads=40, mpi="WINDOW", build="ts", serialmpi=1, cs=ch(1, 2), kind=ch("float", "int", "arr_int", "struct", "structw"))),
        (2, dict(type=ch("CACHE", "FULL", "PASS_THROUGH"), R=2, T=2, D=ch(1, 2), nreads=30, grids=2, mpi="WINDOW", build="ts", serialmpi=1, cs=ch(1, 2), maxn=4)),
        (1, dict(type=ch("CACHE", "FULL"), R=2, T=2, D=ch(1, 2), nreads=30, grids=2, mpi=ch("WINDOW", "THREAD"), cs=ch(1, 2), maxn=4)),
    ], "serialisation")


def cycles(rng, n):
    """caches that ask each other: every cache holds what all threads of the previous one want, while it is itself busy getting something from the next one"""
    res = []
    for i in range(n):
        R = rng.choice([1, 2, 2, 2, 3])
        D = rng.choice([2, 3]) if R == 1 else rng.choice([1, 1, 2])
        P = rng.choice([2, 2, 3])          # threads per cache
        T = D * P
        mpi = rng.choice(["THREAD", "THREAD", "WINDOW"])
        s = Scn(R, T, [[t % D for t in range(T)] for _ in range(R)], "std", seed=rng.randrange(1 << 30), pol=rng.choice([0, 0, 1]), pp=rng.choice([5, 20, 50]), eager=rng.choice([0, 1]),
                rmalazy=rng.choice([0, 1]), pm=rng.choice([0, 10, 100]), msgdelay=rng.choice([0, 3, 10]))
        nb = rng.randint(12, 30)
        f = s.add("z", var("int", [nb], 5, 1, [0], [1024], [False]), "f")
        if R > 1 and mpi == "THREAD":
            s.op("*.0", "startcomm")
        grid(s, 0, "int", [("GRID", "CACHE"), ("CACHE_SIZE", rng.choice([2, 2, 3])), ("BLOCK_SIZE_0", 1), ("MPI_COMMUNICATION", mpi)], T, "world" if R > 1 else None)
        s.op("*.*", "bar")
        s.op("*.*", "open", 0, f, 0)
        N = R * D                          # caches; cache c = domain c % D of process c // D
        th = lambda c: [(c // D, t) for t in range(T) if t % D == c % D]
        for k in range(rng.choice([4, 8])):
            x = rng.sample(range(nb), N)
            for c in range(N):
                r, t = rng.choice(th(c))
                s.op("%d.%d" % (r, t), "get", 0, 0, "int", 1024 * x[c])
            s.op("*.*", "abar")
            for c in range(N):
                for r, t in th(c):
                    s.op("%d.%d" % (r, t), "get", 0, 0, "int", 1024 * x[(c + 1) % N])
                    if rng.random() < .3:
                        s.op("%d.%d" % (r, t), "get", 0, 0, "int", 1024 * x[(c + rng.randrange(N)) % N])
            s.op("*.*", "abar")
        s.op("*.0", "close", 0)
        if R > 1 and mpi == "THREAD":
            s.op("*.0", "stopcomm")
        s.info = dict(case="cycle of caches", R=R, T=T, D=D, mpi=mpi)
        res.append(s)
    return res


def C32(c):
    so = build(c, "std", "norr", "ts")
    protocol(c, ["CacheWin_numa", "CacheMsg_sync", "FullMsg_three"], ["CacheWin_three", "CacheMsg_numa", "FullMsg_big"])
    parts(c, ["cache"], ["thread"])
    b1 = lambda r: [r.choice([1, 1, 2]) for _ in range(8)]
    go(c, so, 1200, [
        (3, dict(type="CACHE", R=ch(2, 3), T=ch(2, 3), D=ch(1, 2, 3), cs=1, nreads=80, mpi=ch("WINDOW", "THREAD"), bs=b1, hot=0.7)),
        (2, dict(type="CACHE", R=1, T=ch(2, 3, 4), D=ch(1, 2, 3), cs=1, nreads=90, bs=b1, hot=0.7)),
        (2, dict(type="FULL", R=ch(1, 2, 3), T=ch(2, 3), D=ch(2, 3), cs=1, nreads=80, mpi=ch("WINDOW", "THREAD"), numa=ch("CACHE", "ON"), bs=b1, hot=0.7)),
        (2, dict(type=ch("CACHE", "FULL"), R=2, T=2, D=ch(1, 2), cs=1, nreads=60, mpi=ch("WINDOW", "THREAD"), grids=ch(2, 3), bs=b1, maxn=4)),
        (1, dict(type="CACHE", R=2, T=2, D=2, cs=1, nreads=60, mpi="WINDOW", build="ts", serialmpi=1)),
        (1, dict(type=ch("CACHE", "FULL"), R=2, T=2, D=2, cs=1, nreads=60, mpi=ch("WINDOW", "THREAD"), levels=3, maxn=4)),
        (3, dict(fn=cycles)),
    ], "termination")


ALL = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}
