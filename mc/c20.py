"""C20: File and Column behave like arrays on disk."""
import os, numpy, pymc, bigfile
from bigfile import File, Column
CONV = set("i4 i8 u4 u8 f4 f8".split())
DT = ["f8", "i4", ">i2", "u1", "S3", "c16", "f4", ">u8", "b1", "i8"]
from c20lib import *
def indices(n):
    B = [None] + list(range(-n - 2, n + 3))
    for a in B:
        for b in B:
            for s in (None, 1): yield slice(a, b, s)
    for s in (2, -1, -2, 0): yield slice(None, None, s); yield slice(0, n, s); yield slice(n, 0, s); yield slice(1, 1, s)
    yield slice(numpy.int64(0), numpy.int32(n)); yield slice(numpy.int8(-n - 1), numpy.uint16(1)); yield Ellipsis
    for i in range(-n - 2, n + 3):
        yield i; yield numpy.int64(i); yield numpy.int8(i); yield numpy.int32(i)
        if i >= 0: yield numpy.uint64(i); yield numpy.uint8(i)
    yield 2 ** 40; yield -2 ** 40; yield 2 ** 70
BAD = [1.0, "0", None, [0], (0,), (0, 1), b"0", numpy.float64(0), object()]

def g_get(mc, dt, nm, size, nf):
    f, c, ref = make(mc, dt, nm, size, nf)
    for h, col in (("handle", c), ("new handle", File(mc.dir + "/f")["a"])):
        expect(mc, h, col, ref, nf)
        for ix in indices(size):
            what = "%s[%r] of %d rows" % (h, ix, size); mc.transitions += 1
            if isinstance(ix, slice) and ix.step not in (None, 1): refused(mc, what, lambda: col[ix]); continue
            try: want = ref[ix]
            except IndexError: refused(mc, what, lambda: col[ix], IndexError); continue
            got = col[ix]
            mc.check(same(got, want), what, ": got", repr(got), "expected", repr(want))
            if isinstance(got, numpy.ndarray) and got.size: got[...] = got[::-1].copy(); got.fill(0)        # a copy
        for ix in BAD: refused(mc, "%s[%r]" % (h, ix), lambda: col[ix])
        mc.check(same(numpy.array(list(col), ref.dtype).reshape(ref.shape), ref), "iteration gives", list(col))
        expect(mc, h + " after reading", col, ref, nf)
    mc.state(dt, nm, size, nf)

def g_set(mc, dt, nm, size, nf):
    f, c, ref = make(mc, dt, nm, size, nf); seed = 2; base = numpy.dtype(dt)
    conv = base.str[1:] in CONV
    def vals(n):
        nonlocal seed
        rs = rowshape(nm); seed += 1
        v = values((n,) + rs, dt, seed); yield "rows", v
        yield "reversed rows", values((n,) + rs, dt, seed + 1)[::-1]
        w = numpy.zeros((n, 2) + rs, base); w[:, 1] = values((n,) + rs, dt, seed + 2); yield "strided rows", w[:, 1]
        if nm > 1: yield "fortran rows", numpy.asfortranarray(values((n,) + rs, dt, seed + 3)); yield "one row", values(rs, dt, seed + 4); yield "columns", values((n, 1), dt, seed + 9); yield "too wide", values((n, nm + 1), dt, seed)
        yield "one value", values((1,), dt, seed + 5)[0]; yield "0-d", values((), dt, seed + 6)
        yield "more rows", values((n + 1,) + rs, dt, seed); yield "many rows", values((n + 3,) + rs, dt, seed)
        if n > 1: yield "fewer rows", values((n - 1,) + rs, dt, seed + 7)
        yield "list", values((n,) + rs, dt, seed + 8).tolist() if conv and n else values((n,) + rs, dt, seed)
        if conv:
            yield "int", 5; yield "float", 6.0
            for o in sorted(CONV): yield "rows of " + o, values((n,) + rs, "i4", seed).astype(o); yield "swapped rows of " + o, values((n,) + rs, "i4", seed + 1).astype(">" + o)
    for ix in indices(size):
        step = isinstance(ix, slice) and ix.step not in (None, 1)
        try: n = len(ref[ix]) if isinstance(ix, slice) and not step or ix is Ellipsis else 1
        except Exception: n = 1
        for name, v in vals(n):
            if not (isinstance(ix, slice) or ix is Ellipsis) and (name == "list" or numpy.shape(v) == (1,) + rowshape(nm)): continue      # numpy itself is not sure
            what = "[%r] = %s of %d rows" % (ix, name, size); mc.transitions += 1; new = ref.copy(); ok = True
            try: new[ix] = v
            except Exception as e: ok = e
            if step or ok is not True:
                refused(mc, what, lambda: c.__setitem__(ix, v), *([IndexError] if isinstance(ok, IndexError) and not step else []))
            else: c[ix] = v; ref = new
            got = c[:]
            mc.check(same(got, ref), what, ": content", got.tolist(), "expected", ref.tolist(), "" if ok is True else "(refused)")
    for ix in BAD: refused(mc, "[%r] =" % (ix,), lambda: c.__setitem__(ix, values((1,), dt)[0]))
    c.close(); expect(mc, "re-opened", File(mc.dir + "/f")["a"], ref, nf); mc.state(dt, nm, size, nf)

def g_read(mc, dt, nm, size, nf):
    f, c, ref = make(mc, dt, nm, size, nf); rs = rowshape(nm); base = ref.dtype
    for start in range(size + 1):
        for length in range(-1, size + 3):
            want = ref[start:] if length == -1 else ref[start:start + length]; n = len(want); what = "read(%d, %d) of %d" % (start, length, size); mc.transitions += 1
            got = c.read(start, length); mc.check(same(got, want), what, "gives", got.tolist(), "expected", want.tolist())
            junk = values((1,), dt, 5)[0]
            def outs():
                o = numpy.full((n,) + rs, junk, base); yield "plain", o, o
                o = numpy.full((2 * n,) + rs, junk, base); yield "strided", o, o[::2]
                o = numpy.full((n,) + rs, junk, base); yield "reversed", o, o[::-1]
                o = numpy.full((n + 2,) + rs, junk, base); yield "inner", o, o[1:n + 1]
                if nm > 1: o = numpy.full((nm, n), junk, base); yield "transposed", o, o.T; o = numpy.full((n, 2 * nm), junk, base); yield "strided elements", o, o[:, ::2]
            for name, whole, o in outs():
                before = whole.copy(); r = c.read(start, length, o); mc.transitions += 1
                mc.check(same(o, want) and same(r, want), what, "into", name, "gives", o.tolist(), "and", r.tolist(), "expected", want.tolist())
                o[...] = junk; mc.check(same(whole, before), what, "into", name, "wrote beside the array")
            bad = [("longer", numpy.full((n + 1,) + rs, junk, base)), ("wider", numpy.full((n,) + ((nm + 1,) if nm > 1 else (2,)), junk, base))] + ([("shorter", numpy.full((n - 1,) + rs, junk, base))] if n else [])
            for name, o in bad:
                if o.size == n * nm and n == 0: continue
                before = o.copy(); refused(mc, what + " into a " + name + " array", lambda: c.read(start, length, o)); mc.check(same(o, before), what, ": refused, but changed the array")
            for od in ("f4", "i8", ">f8", "u1", "S5"):
                if numpy.dtype(od) == base: continue
                o = numpy.zeros((n,) + rs, od); before = o.copy()
                try: c.read(start, length, o)
                except Exception: mc.check(same(o, before), what, "into", od, ": refused, but changed the array"); continue
                with numpy.errstate(all="ignore"): mc.check(same(o, want.astype(od)), what, "into", od, "gives", o.tolist(), "expected", want.tolist())
            if n:
                o = numpy.full((n,) + rs, junk, base); o.flags.writeable = False; before = o.copy(); refused(mc, what + " into a read-only array", lambda: c.read(start, length, o)); mc.check(same(o, before), what, "changed a read-only array")
    expect(mc, "after reading", c, ref, nf); mc.state(dt, nm, size, nf)

def g_write(mc, dt, nm, size, nf):
    f, c, ref = make(mc, dt, nm, size, nf); rs = rowshape(nm); base = ref.dtype; seed = 3
    for start in range(size + 2):
        for n in range(size + 3 - start if start <= size else 2):
            def bufs():
                nonlocal seed
                seed += 1; v = values((n,) + rs, dt, seed); yield "plain", v; yield "reversed", values((n,) + rs, dt, seed + 1)[::-1]
                w = numpy.zeros((2 * n,) + rs, base); w[::2] = values((n,) + rs, dt, seed + 2); yield "strided", w[::2]
                if nm > 1: yield "transposed", numpy.asfortranarray(values((n,) + rs, dt, seed + 3)); yield "broadcast", numpy.broadcast_to(values(rs, dt, seed), (n,) + rs); w = numpy.zeros((n, 2 * nm), base); w[:, ::2] = values((n, nm), dt, seed + 4); yield "strided elements", w[:, ::2]
                v = values((n,) + rs, dt, seed + 5); v.flags.writeable = False; yield "read-only", v
                v = values((n,) + rs, dt, seed + 6); yield "swapped", v.astype(base.newbyteorder())
                if base.str[1:] in CONV:
                    for o in sorted(CONV): yield o, values((n,) + rs, "i4", seed + 7).astype(o)
                    yield "swapped f8", values((n,) + rs, "i4", seed + 8).astype(">f8")
            for name, b in bufs():
                what = "write(%d, %s of %d) into %d rows" % (start, name, n, size); before = b.copy(); mc.transitions += 1
                if start + n > size and n or start > size: refused(mc, what, lambda: c.write(start, b)) if n else None
                else: c.write(start, b); ref[start:start + n] = b
                mc.check(same(b, before), what, "changed the array"); got = c[:]
                mc.check(same(got, ref), what, ": content", got.tolist(), "expected", ref.tolist())
            if n and base.str[1:] in CONV:
                for o in ("S3", "c16", "i2"): refused(mc, "writing " + o, lambda: c.write(min(start, size), numpy.zeros((1,) + rs, o)) if size > start else (_ for _ in ()).throw(ValueError())); mc.check(same(c[:], ref), "a refused type changed the column")
    c.close(); expect(mc, "re-opened", File(mc.dir + "/f")["a"], ref, nf); mc.state(dt, nm, size, nf)

class Lazy:                           # array-like that gives copies (like a dataset on disk)
    def __init__(self, a): self.a = a; self.dtype = a.dtype; self.shape = a.shape
    def __len__(self): return len(self.a)
    def __getitem__(self, s): return self.a[s].copy()
def g_cfa(mc, dt, nm, size):
    f = File(mc.dir + "/f", create=True); k = 0; isz = numpy.dtype(dt).itemsize * nm; refs = {}
    for nf in (None, 1, 2, size + 2) if size else (None, 0, 1, 2):
        for lim in (1, isz, 2 * isz, 3 * isz - 1, 1024 * isz, 1 << 28):
            for lay in range(4):
                v = values((size,) + rowshape(nm), dt, k)
                if lay == 1: v = v[::-1]
                if lay == 2: v = Lazy(v)
                if lay == 3: v = numpy.asfortranarray(v) if nm > 1 else numpy.repeat(v, 2)[::2]
                name = "x%d" % (k % 7) if k % 2 else "g/y%d" % (k % 5); k += 1; mc.transitions += 1
                ref = numpy.array(v.a if lay == 2 else v)
                c = f.create_from_array(name, v, memorylimit=lim) if nf is None else f.create_from_array(name, v, Nfile=nf, memorylimit=lim)
                what = "create_from_array(Nfile %r, limit %d, layout %d) of %d rows" % (nf, lim, lay, size); refs[name] = ref
                expect(mc, what, c, ref, nf); expect(mc, what + " re-opened", File(mc.dir + "/f")[name], ref, nf)
                mc.check(sorted(f) == sorted(refs) == sorted(File(mc.dir + "/f").keys()) and name in f, what, ": listed", list(f), "expected", sorted(refs))
    for n, r in refs.items(): expect(mc, n, f[n], r)
    big = values((5000,) + rowshape(nm), dt, 1)
    for lim in (1000, 1024 * isz, 1500 * isz, 2048 * isz + 5, 1 << 28): expect(mc, "create_from_array of 5000 rows, limit %d" % lim, f.create_from_array("big", big, Nfile=3, memorylimit=lim), big, 3)
    if size: refused(mc, "no file for rows", lambda: f.create_from_array("bad", values((size,), dt), Nfile=0)); refused(mc, "a negative number of files", lambda: f.create_from_array("bad", values((size,), dt), Nfile=-1))
    refused(mc, "objects", lambda: f.create_from_array("bad", numpy.array([object()])))
    mc.state(dt, nm, size)

NAMES = ["a", "g/b", "g/h/c"]
def g_seq(mc, first, depth):
    path = mc.dir + "/f"; f = File(path, create=True); ref = {}; cols = {}; files = {}; seed = 0; stale = False
    def verify(what):
        names = sorted(ref)
        for nm, ff in (("new file object", File(path)),) + ((("file object", f),) if not stale else ()):
            mc.check(sorted(ff) == names and sorted(ff.keys()) == names and sorted(ff.blocks) == names, what, ":", nm, "lists", list(ff), "expected", names)
            for x in NAMES + ["g", "zz"]: mc.check((x in ff) == (x in ref), what, ":", nm, x, "in:", x in ff)
            sub = ff["g/"] if any(n.startswith("g/") for n in ref) else None
            if sub is not None: mc.check(sorted(sub) == [n[2:] for n in names if n.startswith("g/")], what, ": subfile lists", list(sub))
        for n in ref:
            if n in cols: expect(mc, what + ": handle of " + n, cols[n], ref[n], files[n])
            expect(mc, what + ": " + n, f[n], ref[n], files[n])
            if n.startswith("g/"): expect(mc, what + ": in subfile " + n, f["g/"][n[2:]], ref[n], files[n])
        for n in NAMES + ["zz"]:
            if n not in ref: refused(mc, what + ": opening " + n, lambda: f.open(n))
    for step in range(depth):
        ops = ["create", "cfa", "subcreate", "bad"] + (["append", "setitem", "reopen", "badappend", "with", "close"] if ref else [])
        if step == 0 and first is not None: op, name = first
        else: op = mc.pick(ops, "op"); name = mc.pick(NAMES if op in ("create", "cfa", "subcreate") else sorted(ref) if ref and op not in ("reopen", "bad") else [""], "name")
        seed += 1
        if op in ("create", "cfa", "subcreate") and name in cols: cols.pop(name).flush()      # (what an earlier handle did not flush would be, later)
        if op == "create":
            dt, nm, size, nf = mc.pick([("f8", 1, 3, 2), (">i4", 2, 2, 1), ("S3", 1, 1, 3), ("u1", 1, 0, 0)], "spec"); mc.note("create", name, dt, nm, size, nf)
            c = f.create(name, ft(dt, nm), size, nf); ref[name] = values((size,) + rowshape(nm), dt, seed); files[name] = nf
            mc.check(c.size == size and c.Nfile == nf, "created with", c.size, c.Nfile); c[:] = ref[name]; c.flush(); cols[name] = c; stale = False
        elif op == "cfa":
            dt, nm, size, nf, lim = mc.pick([("i8", 1, 4, 3, 8), ("f4", 3, 2, 1, 1), ("c16", 1, 0, None, 100)], "spec"); v = values((size,) + rowshape(nm), dt, seed); mc.note("create_from_array", name, dt, nm, size, nf)
            cols[name] = f.create_from_array(name, v, nf, lim); ref[name] = v; files[name] = 0 if nf is None else nf; stale = False
        elif op == "subcreate":
            if not name.startswith("g/"): raise pymc.Prune()
            if not any(n.startswith("g/") for n in ref): sub = File(path + "/g", create=True)
            else: sub = f.subfile(mc.pick(["g", "g/", "/g/"], "how"))
            v = values((2,), "f8", seed); mc.note("create in the subfile", name); cols[name] = sub.create_from_array(name[2:], v, 2); ref[name] = v; files[name] = 2; stale = True
            mc.check(name[2:] in sub, "not in the subfile:", name)
        elif op == "bad":
            k = mc.choose(6, "bad"); mc.note("refused", k)
            if k == 0: refused(mc, "no files for rows", lambda: f.create("zz", "f8", 2, 0))
            if k == 1: refused(mc, "negative files", lambda: f.create("zz", "f8", 2, -1))
            if k == 2: refused(mc, "objects", lambda: f.create("zz", "O", 2, 1))
            if k == 3: refused(mc, "no size", lambda: f.create("zz", "f8", None, 1))
            if k == 4: refused(mc, "unknown type", lambda: f.create("zz", "nonsense", 2, 1))
            if k == 5: refused(mc, "nothing there", lambda: f["zz"])
            for n in ("zz",): ref.pop(n, None)
        elif op == "append":
            n, nf = mc.pick([(1, 1), (3, 2), (0, 1), (2, 4), (0, 0)], "how"); r = ref[name]; v = values((n,) + r.shape[1:], r.dtype, seed); mc.note("append", name, n, nf)
            c = cols.get(name) or f.open(name); cols[name] = c; c.append(v[::-1] if seed % 2 else v, nf); ref[name] = numpy.concatenate([r, v[::-1] if seed % 2 else v]).astype(r.dtype); files[name] += nf
        elif op == "badappend":
            r = ref[name]; c = cols.get(name) or f.open(name); cols[name] = c; k = mc.choose(4, "bad"); mc.note("refused append", name, k)
            if k == 0: refused(mc, "append without files", lambda: c.append(values((2,) + r.shape[1:], r.dtype), 0))
            if k == 1: refused(mc, "append negative files", lambda: c.append(values((2,) + r.shape[1:], r.dtype), -1))
            if k == 2: refused(mc, "append objects", lambda: c.append(numpy.array([object()] * 2), 1))
            if k == 3: refused(mc, "append wide rows", lambda: c.append(values((2, 5), r.dtype), 1))
        elif op == "setitem":
            r = ref[name]; c = cols.get(name) or f.open(name); cols[name] = c; sl = mc.pick([slice(None), slice(1, None), slice(0, 1), slice(-1, None), slice(5, 2)], "range"); mc.note("setitem", name, sl)
            v = values(r[sl].shape, r.dtype, seed); r = r.copy(); r[sl] = v; ref[name] = r; c[sl] = v
        elif op == "reopen": mc.note("re-open"); [c.flush() for c in cols.values()]; f = File(path); cols = {n: f[n] for n in ref}; stale = False
        elif op == "with":
            r = ref[name].copy(); mc.note("with", name)
            try:
                with File(path) as g:
                    with g.open(name) as c: r[:1] = values(r[:1].shape, r.dtype, seed); c[:1] = r[:1]; raise KeyError("leave")
            except KeyError: pass
            ref[name] = r; cols.pop(name, None)
        elif op == "close": mc.note("close", name); (cols.pop(name, None) or f.open(name)).close()
        if len(mc.trace) < len(mc.prefix): continue        # seen already
        verify("after " + mc.log[-1]); mc.state(sorted((n, files[n], r.dtype.str, r.tobytes()) for n, r in ref.items()), sorted(cols), stale)

def g_fault(mc, op):
    path = mc.dir + "/f"; f = File(path, create=True); A = values((4,), "f8", 1); B = values((3, 2), "i4", 2)
    f.create_from_array("a", A, 2); f.create_from_array("g/b", B, 3); ref = {"a": A, "g/b": B}; exc = None
    new = dict(ref); may = {}        # what it becomes; rows that may be anything if it fails
    col = f["a"]; V = values((3,), "f8", 7); extra = []; names = []
    holder = Column(); holder.open(f, "g/b")
    def run():
        if op == "file": extra.append(File(path).blocks)
        elif op == "newfile": extra.append(File(path + "2/x/y", create=True))
        elif op == "open": extra.append(f.open("a")[:])
        elif op == "openother": holder.open(f, "a")
        elif op == "createother": holder.create(f, "n", "f8", 0, 0)
        elif op == "create": f.create("n", "f8", 3, 2)[:] = V
        elif op == "createwith":
            with f.create("n", "f8", 3, 2) as c: c[:] = V
        elif op == "cfa": extra.append(f.create_from_array("g/n", V, 2, 8))
        elif op == "replace": f.create_from_array("a", V, 1)
        elif op == "setitem": col[1:4] = V
        elif op == "flush": col[1:4] = V; col.flush()
        elif op == "close": col.attrs["k"] = "v"; col[1:4] = V; col.close()
        elif op == "append": col.append(V, 2)
        elif op == "read": extra.append(col[1:4])
        elif op == "readout": o = numpy.zeros(4); extra.append(col.read(0, 4, o))
        elif op == "subfile": extra.append(f["g/"].blocks)
        elif op == "iter": extra.append(list(col))
    try:
        with mc.faults(): run()
    except Exception as e: exc = e
    failed = mc.nfaults; mc.heal(); mc.note(op, "->", repr(exc)); what = "%s with %d faults (%r)" % (op, failed, exc)
    mc.check(exc is None or failed, what, ": failed without a fault")
    mc.check(mc.lib.pymcfs_leaked() == 0, what, ": a descriptor stays open")
    if exc is None:
        if op == "file": mc.check(extra[0] == ["a", "g/b"], what, extra)
        if op == "newfile": File(path + "2/x/y")
        if op == "open": mc.check(same(extra[0], A), what, extra)
        if op == "openother": expect(mc, what, holder, A, 2)
        if op in ("create", "createwith"): new["n"] = V
        if op == "createother": new["n"] = numpy.zeros(0)
        if op == "cfa": new["g/n"] = V; expect(mc, what, extra[0], V, 2)
        if op == "replace": new["a"] = V; col = f["a"]
        if op in ("setitem", "flush", "close"): new["a"] = numpy.concatenate([A[:1], V])
        if op == "append": new["a"] = numpy.concatenate([A, V])
        if op in ("read",): mc.check(same(extra[0], A[1:]), what, extra)
        if op == "readout": mc.check(same(extra[0], A), what, extra)
        if op == "subfile": mc.check(extra[0] == ["b"], what, extra)
        if op == "iter": mc.check(same(numpy.array(extra[0]), A), what, extra)
        expect(mc, what + ": handle", col, new["a"])
    else:
        for n in ("n", "g/n"): names.append(n)                          # may have come into being
        if op in ("setitem", "flush", "close"): may["a"] = slice(1, 4)
        if op in ("openother", "createother"): expect(mc, what + ": the block opened before", holder, B, 3)
        if op == "append": mc.check(col.size in (4, 7), what, ": size", col.size)
        elif op == "replace": may["a"] = slice(0, 4)
        else: mc.check(col.size == 4 and col.Nfile == 2 and col.dtype == numpy.dtype("f8"), what, ": the column changed to", col)
        if op not in ("replace",):
            keep = numpy.ones(4, bool); keep[may.get("a", slice(0, 0))] = False; mc.check(same(col[:4][keep], A[keep]), what, ": rows changed to", col[:4], "from", A)
        if op == "flush": col.flush(); may.pop("a", None); 
        if op == "close" and col.size == 4: col.close()
    g = File(path); got = sorted(n for n in g.blocks if n not in names)
    mc.check(got == sorted(n for n in new if n not in names) or op == "replace" and exc is not None, what, ": lists", g.blocks)
    for n, r in new.items():
        if op == "replace" and exc is not None and n == "a": continue
        c = g[n]
        if exc is None or n not in ("a",): expect(mc, what + ": " + n, c, r)
        else:
            mc.check(c.size == 4 or op == "append" and c.size == 7, what, ": on disk", c.size, "rows"); keep = numpy.ones(4, bool); keep[may.get("a", slice(0, 0) if op != "flush" else slice(1, 4))] = False
            mc.check(same(c[:4][keep], A[keep]), what, ": on disk", c[:4])
    mc.state(op, repr(exc), failed)

def g_closed(mc):
    c = Column(); f = File(mc.dir + "/f", create=True)
    for k in range(2):
        for name, op in dict(read=lambda: c.read(0, 1), get=lambda: c[0], slice=lambda: c[:], set=lambda: c.__setitem__(slice(None), 1), write=lambda: c.write(0, numpy.zeros(1)), append=lambda: c.append(numpy.zeros(1)), flush=lambda: c.flush(), close=lambda: c.close(), attrs=lambda: c.attrs["a"], setattrs=lambda: c.attrs.__setitem__("a", 1), keys=lambda: c.attrs.keys()).items():
            mc.note(name); refused(mc, name + " of a column that is not open", op)
        repr(c); refused(mc, "opening nothing", lambda: c.open(f, "zz"))
    c.create(f, "a", "f8", 2, 1); c[:] = [1, 2]; refused(mc, "opening nothing", lambda: c.open(f, "zz")); expect(mc, "column after a failed open", c, numpy.array([1., 2.]), 1)
    refused(mc, "creating nothing", lambda: c.create(f, "b", "O", 2, 1)); expect(mc, "column after a failed create", c, numpy.array([1., 2.]), 1)
    c.create(f, "b", "i4", 1, 1); c[:] = 3; c.open(f, "a"); expect(mc, "a", c, numpy.array([1., 2.]), 1); c.open(f, "b"); expect(mc, "b", c, numpy.array([3], "i4"), 1)
    h = f.create("head"); mc.check(h.size == 0 and "head" in f, "block without data"); h.attrs["x"] = 1; h.close(); mc.check(f["head"].attrs["x"] == 1, "attribute of a block without data")
    refused(mc, "a file that is not there", lambda: File(mc.dir + "/none")); refused(mc, "name with NUL", lambda: f.create("x", "f8", -1, 1))

def configs(mc):
    import warnings; warnings.simplefilter("ignore")
    T = mc.thorough; shapes = [(dt, nm) for dt in (DT if T else DT[:7]) for nm in (1, 3)]; out = []
    lay = [(0, 0), (0, 1), (1, 1), (3, 1), (3, 2), (4, 5)] + ([(5, 3), (2, 3), (4, 4)] if T else [])
    for dt, nm in shapes:
        for size, nf in lay:
            for g in (g_get, g_set, g_read, g_write):
                if g is g_set and not T and size > 3 and dt not in ("f8", "i4"): continue
                out.append((g, dt, nm, size, nf))
        for size in (0, 1, 4): out.append((g_cfa, dt, nm, size))
    d = 4 if T else 3
    for n in NAMES: out += [(g_seq, ("create", n), d), (g_seq, ("cfa", n), d)]
    out += [(g_seq, ("subcreate", "g/b"), d), (g_seq, ("bad", ""), d)]
    out += [(g_fault, op) for op in "file newfile open openother createother create createwith cfa replace setitem flush close append read readout subfile iter".split()] + [(g_closed,)]
    out.sort(key=lambda c: [g_seq, g_fault].index(c[0]) if c[0] in (g_seq, g_fault) else 5 - c[3 if len(c) > 3 else 0] / 10 if len(c) > 3 else 9)
    warm(mc)
    return out
def body(mc, c): c[0](mc, *c[1:])
pymc.main("C20", configs, body, dev=1, mcfs=os.environ["MCFS"])
