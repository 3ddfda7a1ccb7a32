"""C22: files and columns of several ranks."""
import os, numpy, pymc, itertools, bigfile
from bigfile import File, FileMPI, ColumnMPI, Column
from pycomm import World
from c20lib import *
CREATE = [("f8", 1, 3, 2), (">i4", 2, 4, 3), ("S3", 1, 0, 0), ("u1", 1, 2, 1)]
def parts(n, size, how):
    """ranges of the ranks"""
    if how == 0: c = [(i * n) // size for i in range(size + 1)]
    elif how == 1: c = [0] * size + [n]                 # all on the last
    else: c = [0] + [n] * size if size == 1 else [0, n - n // 2] + [n - n // 2] * (size - 2) + [n]
    return [(c[i], c[i + 1]) for i in range(size)]

class Rank:
    """one rank following the script: (comm is None: the serial reference)"""
    def __init__(self, path, comm, dist, log):
        self.path = path; self.comm = comm; self.rank = comm.rank if comm else 0; self.size = comm.size if comm else 1; self.dist = dist; self.f = None; self.cols = {}; self.log = log; self.seed = 0
    def coll(self, f, view=None):
        """an operation of all ranks: what came of it here"""
        try: r = f()
        except Exception as e: self.log.append(("raise", type(e).__name__)); raise Stop()
        v = view(r) if view else None; self.log.append(("ok", v)); return r
    def local(self, f):
        try: return f()
        except Exception as e: self.failed = repr(e); self.log.append(("local", repr(e)))
    def refused(self, f):
        try: r = f()
        except Exception: self.log.append(("refused", None)); return
        self.log.append(("accepted", repr(r))); raise Stop()
    def view(self, c): return (c.size, c.Nfile, str(c.dtype), sorted((k, repr(c.attrs[k])) for k in c.attrs))
    def mine(self, n): a, b = parts(n, self.size, self.dist)[(self.rank + self.seed) % self.size if self.dist == 2 else self.rank]; return slice(a, b)
    def open(self, create):
        def go(): self.f = File(self.path, create=create) if self.comm is None else FileMPI(self.comm, self.path, create=create); return self.f
        self.coll(go, lambda f: (sorted(f.blocks), sorted(f), "a" in f))
    def fill(self, c, dt, nm, n):
        self.seed += 1; v = values((n,) + rowshape(nm), dt, self.seed); s = self.mine(n)
        def go():
            if s.stop == s.start and self.seed % 2: return
            if self.seed % 2: c[s] = v[s]
            else: c.write(s.start, v[s])
        self.local(go)
    def step(self, op):
        kind = op[0]; f = self.f
        if kind == "open": self.open(False)
        elif kind == "create":
            name, (dt, nm, size, nf), how = op[1:]
            c = self.coll(lambda: f.create(name, ft(dt, nm), size, nf), self.view)
            self.log.append(("blocks", sorted(f.blocks), name in f)); self.fill(c, dt, nm, size)
            if how == 0: self.coll(c.close, lambda r: self.view(c))
            elif how == 1: self.coll(c.flush, lambda r: self.view(c))
            else:
                def go():
                    with c: pass
                self.coll(go, lambda r: self.view(c))
            self.cols[name] = c
        elif kind == "cfa":
            name, (dt, nm, size, nf), lim = op[1:]; self.seed += 1; v = values((size,) + rowshape(nm), dt, self.seed); a = v[slice(*parts(size, self.size, self.dist)[self.rank])]
            self.cols[name] = self.coll(lambda: f.create_from_array(name, a, nf, lim), self.view); self.log.append(("blocks", sorted(f.blocks), name in f))
        elif kind == "read":
            name = op[1]; c = self.coll(lambda: f[name], self.view); self.cols[name] = c; got = self.local(lambda: c[:]); one = self.local(lambda: c[-1]) if c.size else None; self.log.append(("content", None if got is None else got.tobytes(), None if one is None else numpy.asarray(one).tobytes())); self.comm and self.comm.barrier()
        elif kind == "rewrite":
            name, how = op[1:]; c = self.cols.get(name) if how else None
            if c is None: c = self.coll(lambda: f.open(name), self.view); self.cols[name] = c
            dt = c.dtype.base.str; nm = c.dtype.shape[0] if c.dtype.shape else 1; self.fill(c, dt, nm, c.size); self.coll(c.flush if how else c.close, lambda r: self.view(c))
        elif kind == "attr":
            name, v = op[1:]; c = self.coll(lambda: f.open(name), self.view); self.local(lambda: c.attrs.__setitem__("k", v)); self.local(lambda: c.attrs.__setitem__("l", 3)); self.coll(c.flush, lambda r: self.view(c)); self.local(lambda: c.attrs.__delitem__("l")); self.coll(c.close, lambda r: self.view(c)); self.cols[name] = c
        elif kind == "sub":
            s = self.coll(lambda: f[op[1]], lambda s: (sorted(s.blocks), s.basename))
            if len(op) > 2: c = self.coll(lambda: s.create_from_array("n", numpy.arange(2.)[slice(*parts(2, self.size, self.dist)[self.rank])], 1), self.view); d = self.coll(lambda: s["n"], self.view); got = self.local(lambda: d[:].tobytes()); self.log.append(("content", got, sorted(s.blocks))); self.comm and self.comm.barrier()
        elif kind == "refresh": self.coll(f.refresh, lambda r: sorted(f.blocks)) if self.comm is not None else None
        elif kind == "none": self.refused(lambda: f.open("zz")); self.refused(lambda: f["zz/y"])
        elif kind == "badcreate":
            self.refused(lambda: f.create("blocked/x", "f8", 2, 1)); self.refused(lambda: f.create_from_array("blocked/x", numpy.arange(2.), 1)); self.refused(lambda: f.create("zz", "O", 2, 1)); self.refused(lambda: f.create("zz", "f8", 2, 0)); self.refused(lambda: f.create("zz", "f8", 2, -1))
        elif kind == "closed":
            if self.comm is None: c = Column()
            else: c = ColumnMPI(self.comm)
            for g in (c.flush, c.close, lambda: c[:], lambda: c.attrs["k"], lambda: c.open(f, "zz"), c.flush): self.refused(g)
            self.coll(lambda: c.open(f, "a"), lambda r: self.view(c)); self.refused(lambda: c.open(f, "zz")); self.coll(c.flush, lambda r: self.view(c)); self.coll(lambda: c.open(f, "g/b"), lambda r: self.view(c)); self.coll(c.close, lambda r: self.view(c))
        elif kind == "nofile": self.refused(lambda: FileMPI(self.comm, self.path + "-none") if self.comm is not None else File(self.path + "-none")); self.refused(lambda: FileMPI(self.comm, self.path + "/blocked/y", create=True) if self.comm is not None else File(self.path + "/blocked/y", create=True)); self.refused(lambda: f.subfile("yy"))
        elif kind == "differ" and self.size > 1:
            nm = "a" if self.rank < self.size - 1 else "b"
            self.refused(lambda: f.open(nm)); self.refused(lambda: f.create("new" + nm, "f8", 2, 1)); self.refused(lambda: FileMPI(self.comm, self.path + ("" if self.rank else "/g"))); self.refused(lambda: f.create_from_array(nm, numpy.arange(2.), 1)); self.log.append(("blocks", sorted(f.blocks)))
class Stop(Exception): pass

def tree(path):
    t = {}
    for d, ds, fs in os.walk(path):
        for x in ds: t[os.path.relpath(os.path.join(d, x), path) + "/"] = b""
        for x in fs: t[os.path.relpath(os.path.join(d, x), path)] = open(os.path.join(d, x), "rb").read()
    return t
def setup(path):
    """a file with a block, and something in the way of another"""
    f = File(path, create=True); c = f.create_from_array("a", values((4,), "i4", 50), 2); c.attrs["old"] = "x"; c.close(); c = f.create_from_array("g/b", values((3, 2), "f8", 60), 3); open(path + "/blocked", "w").close()
def follow(path, comm, dist, script, log):
    r = Rank(path, comm, dist, log); cur = None
    try:
        if script[0][0] != "open": r.open(True)
        for op in script: r.step(op)
    except Stop: pass
    return r
def strip(log): return [e if e[0] not in ("raise", "refused") else (e[0],) for e in log]

def go(mc, script, n, faults, dev):
    early = mc.choose(2, "early"); order = mc.pick([list(range(n)), list(range(n))[::-1]] if n > 1 and not (faults and not mc.thorough) else [list(range(n))], "order"); dist = mc.choose(3 if n > 1 and not faults and not dev else 1, "dist")
    base = mc.dir; os.mkdir(base + "/s"); os.mkdir(base + "/p"); slog = []
    # the same serially, once for each script
    if not hasattr(mc, "cache"): mc.cache = {}
    if repr(script) not in mc.cache:
        setup(base + "/s/f"); follow(base + "/s/f", None, 0, script, slog); mc.cache[repr(script)] = (tree(base + "/s/f"), slog)
    want, slog = mc.cache[repr(script)]
    setup(base + "/p/f"); logs = [[] for r in range(n)]; w = World(mc, n, early, order, dev); [mc.note(op) for op in script]
    fa = mc.faults() if faults else None
    if fa: mc.live = True; fa.__enter__()
    try:
        import gc
        def rank(r, comm): x = follow(base + "/p/f", comm, dist, script, logs[r]); x.cols.clear(); x.f = None
        w.run(rank)
    finally:
        if fa: fa.__exit__()
    failed = mc.nfaults if faults else 0; what = "%d ranks, %s, %d faults" % (n, script, failed)
    if faults: mc.heal()
    # all ranks went through the same
    for r in range(n):
        for e in logs[r]: mc.check(e[0] != "accepted", what, ": rank", r, "was not refused:", e[1])
    colls = [[e for e in strip(l) if e[0] != "local"] for l in logs]
    loc = [[e for e in l if e[0] == "local"] for l in logs]
    kinds = [[e[0] for e in c] for c in colls]
    mc.check(all(k == kinds[0] for k in kinds), what, ": the ranks do not agree:", [k[-3:] for k in kinds])
    mc.check(failed or not any(loc) and not any("raise" in k for k in kinds), what, ": failed without a fault:", loc, [l[-2:] for l in logs])
    ok = not any(loc) and "raise" not in kinds[0]
    for r in range(1, n):
        for x, y in zip(colls[0], colls[r]):
            if x[0] != "content" or not any(loc): mc.check(x == y, what, ": rank 0 sees", x, "and rank", r, y)
    if ok:
        ser = [e for e in strip(slog) if e[0] != "local"]
        mc.check([e for e in ser if e[0] == "content"] == [e for e in colls[0] if e[0] == "content"], what, ": reads", colls[0], "serially", ser)
        got = tree(base + "/p/f"); d = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        mc.check(not d or failed and "refused" in kinds[0], what, ": differs from serial execution in", [(k, got.get(k), want.get(k)) for k in d[:3]])
    else:
        # a block that exists can be opened, and a checksum is never one that some ranks' writes are missing from
        File(base + "/p/f").blocks
        if len(script) == 1 and script[0][0] == "rewrite" and not any(loc):
            h = "%s/header" % script[0][1]; got = tree(base + "/p/f"); setup(base + "/s/i"); old = tree(base + "/s/i"); mc.check(got[h] in (old[h], want[h]), what, ": the header becomes", got[h], "from", old[h], "instead of", want[h])
        if not any(op[:2] == ("create", "a") for op in script) and "a" in [op[1] for op in script if op[0] in ("rewrite", "attr")]: Column().open(File(base + "/p/f"), "a")
    mc.state(n, repr(script), early, order, kinds[0], ok)

def scripts(T):
    C = [("create", "n", s, h) for s, h in zip(CREATE, (0, 1, 2, 0))] + [("create", "g/n", CREATE[0], 2), ("create", "a", CREATE[0], 0)]
    A = [("cfa", "m", ("i8", 1, 5, 2), 8), ("cfa", "g/m", ("f4", 3, 3, None), 1 << 20), ("cfa", "m", ("c16", 1, 0, 1), 100)]
    R = [("read", "a"), ("rewrite", "a", 0), ("rewrite", "a", 1), ("rewrite", "g/b", 0), ("attr", "a", "text"), ("attr", "a", ""), ("attr", "g/b", [1.5, 2]), ("sub", "g/"), ("sub", "g/", 1), ("sub", "/g/"), ("closed",), ("refresh",), ("none",), ("badcreate",), ("nofile",), ("differ",)]
    ops = C + A + R; out = [[o] for o in ops] + [[("open",), o] for o in R]
    out += [[a, b] for a in ops for b in ops]
    for a in C + A[:2]:
        n = a[1]; out += [[a, ("read", n)], [a, ("rewrite", n, 0), ("read", n)], [a, ("rewrite", n, 1), ("rewrite", n, 1)], [a, ("attr", n, "v"), ("rewrite", n, 0), ("read", n)], [a, ("refresh",), ("open",), ("read", n)]]
    if T: out += [[a, b, c] for a in ops[::2] for b in ops for c in R[:8]]
    return out
def configs(mc):
    import warnings; warnings.simplefilter("ignore"); T = mc.thorough; out = []
    for s in scripts(T):
        for n in ((1, 2, 3) if T or len(s) == 1 else (2, 3) if len(s) > 2 else (2,)): out.append((s, n, False, False))
    for s in scripts(False):
        for n in (2, 3, 4) if T else (2, 3) if len(s) == 1 else (2,) if len(s) > 2 else (): out.append((s, n, False, True))
        for n in (2, 3) if T else ((3,) if s[0][0] not in ('none', 'badcreate', 'nofile', 'differ', 'closed') else (2,)) if len(s) == 1 else (2,) if len(s) > 2 and s[0][1] == "n" and s[0][2] is CREATE[0] else (): out.append((s, n, True, False))
    if T: out += [(s, 4, False, False) for s in scripts(False)]
    warm(mc); out.sort(key=lambda c: (-c[2], -c[3], -c[1], -len(c[0])))
    return out
def body(mc, c): go(mc, *c)
pymc.main("C22", configs, body, dev=1, mcfs=os.environ["MCFS"])
