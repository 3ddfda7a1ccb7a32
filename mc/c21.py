"""C21: attributes, datasets and pickles."""
import os, pickle, copy, numpy, pymc, bigfile
from bigfile import File, Column, Dataset
from c20lib import *

# ---- attributes
VALUES = [3, -2 ** 40, 1.5, True, "", "a", "text \u00e9\u4e2d", "x" * 300, " lead trail ", "nul\0in", ["a", "bcd"], ["", "x", ""], ["\u00e9", "e"], [""], [1, 2, 3], [1.5, 2], (4, 5), [[1, 2], [3, 4]],
          numpy.float64(2.25), numpy.int32(-7), numpy.array(5, "u1"), numpy.array([1.5, -2.5], "f4"), numpy.arange(300, dtype="i2")] + [numpy.array([1, 0, 3]).astype(t) for t in ("b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", ">i2", ">u4", ">f8", ">c16")] \
         + [numpy.array([2 ** 63, 2 ** 64 - 1], "u8"), numpy.array([-2 ** 63, 2 ** 63 - 1], "i8"), numpy.array([numpy.nan, numpy.inf, -0.0]), numpy.array([1e-310, 1e308]), numpy.array(["ab", "c", ""]), numpy.array(["ab", "c"], "U7"), numpy.array([[1, 2], [3, 4]], ">i4").T, numpy.arange(10, dtype="f4")[::-3], numpy.broadcast_to(numpy.int64(7), (3,))]
BADV = [object(), [object(), 1], {"a": 1}, None, numpy.array([1, "a", None], object)]
def want(v):
    if isinstance(v, str): return v
    a = numpy.array(v).ravel()
    if a.dtype.kind == "U": return [str(x) for x in a]
    return a
def attr_equal(got, v):
    w = want(v)
    if isinstance(w, str): return isinstance(got, str) and got == w
    if isinstance(w, list): return [str(x) for x in got] == w
    return isinstance(got, numpy.ndarray) and got.shape == w.shape and got.dtype.kind == w.dtype.kind and got.dtype.itemsize == w.dtype.itemsize and got.astype(w.dtype.newbyteorder("=")).tobytes() == w.astype(w.dtype.newbyteorder("=")).tobytes()
def verify_attrs(mc, what, at, ref):
    mc.check(sorted(at) == sorted(ref) and list(at.keys()) == sorted(ref), what, ": names", list(at), "expected", sorted(ref))
    for n in ("p", "q", "z", "\u00e9"): mc.check((n in at) == (n in ref), what, ":", n, "in:", n in at)
    for n, v in ref.items():
        got = at[n]; mc.check(attr_equal(got, v), what, ":", n, "is", repr(got), getattr(got, "dtype", ""), "expected", repr(v))
    for n in ("z",):
        if n not in ref:
            for f in (lambda: at[n], lambda: at.__delitem__(n)):
                try: f()
                except KeyError: continue
                mc.fail(what, ": no KeyError for", n)
    repr(at)
def g_attr_value(mc, i):
    f = File(mc.dir + "/f", create=True); v = VALUES[i]
    for j, w in enumerate([None] + VALUES + BADV):      # replaced by every other value, or refused
        c = f.create("a%d" % j, "f8", 1, 1); at = c.attrs; ref = {}; c[:] = 1
        at["p"] = v; ref["p"] = v; mc.transitions += 1
        verify_attrs(mc, "after setting", at, ref)
        if j > len(VALUES):
            refused(mc, "setting %r" % (w,), lambda: at.__setitem__("p", w)); refused(mc, "setting %r" % (w,), lambda: at.__setitem__("z", w))
        elif j: at["q"] = w; at["p"] = w; ref = {"p": w, "q": w}; verify_attrs(mc, "after replacing by %r" % (w,), at, ref); del at["q"]; del ref["q"]
        verify_attrs(mc, "finally", c.attrs, ref); mode = j % 3
        if mode == 0: c.close()
        elif mode == 1: c.flush()
        else:
            with c: pass
        d = File(mc.dir + "/f")["a%d" % j]; verify_attrs(mc, "re-opened", d.attrs, ref); mc.state(i, j); expect(mc, "data", d, numpy.array([1.]))
def g_attr_seq(mc, depth):
    f = File(mc.dir + "/f", create=True); c = f.create("a", "f8", 1, 1); c[:] = 2; ref = {}; disk_ = {}; at = c.attrs; other = None
    V = ["", "text", ["l", "", "mn"], numpy.array([1.5, 2]), 7, numpy.arange(40, dtype="u2")]
    for s in range(depth):
        op = mc.pick(["set", "del", "flush", "reopen", "data"] + (["fail"] if s else []), "op")
        if op == "set": n = mc.pick(["p", "q", "\u00e9"], "name"); v = mc.pick(V, "value"); mc.note("set", n, repr(v)[:30]); at[n] = v; ref[n] = v
        elif op == "del":
            if not ref: raise pymc.Prune()
            n = mc.pick(sorted(ref), "name"); mc.note("delete", n); del at[n]; del ref[n]
        elif op == "flush": mc.note("flush"); c.flush(); disk_ = dict(ref)
        elif op == "reopen":
            how = mc.choose(3, "how"); mc.note("re-open", how)
            if how == 0: c.close(); c = File(mc.dir + "/f").open("a")
            elif how == 1: c.flush(); c.open(f, "a")
            else:
                with c: pass
                c = f["a"]
            at = c.attrs; disk_ = dict(ref)
        elif op == "data": mc.note("write"); c[:] = s
        elif op == "fail": mc.note("refused"); refused(mc, "an object", lambda: at.__setitem__("p", object())); refused(mc, "an object", lambda: at.__setitem__("w", [None]))
        if len(mc.trace) < len(mc.prefix): continue
        verify_attrs(mc, "after " + mc.log[-1], at, ref); verify_attrs(mc, "after %s (another view)" % mc.log[-1], c.attrs, ref); verify_attrs(mc, "after %s: on disk" % mc.log[-1], File(mc.dir + "/f")["a"].attrs, disk_)
        mc.state(sorted((n, repr(v)) for n, v in ref.items()), sorted(disk_))
def g_attr_fault(mc, v):
    f = File(mc.dir + "/f", create=True); c = f.create("a", "f8", 1, 1); c[:] = 2; old = {"p": "old", "k": 5}
    for n, w in old.items(): c.attrs[n] = w
    c.close(); c = f["a"]; new = {"p": VALUES[v], "k": 5, "q": "added"}; exc = None; c.attrs["p"] = VALUES[v]; c.attrs["q"] = "added"
    try:
        with mc.faults(): c.close()
    except Exception as e: exc = e
    mc.note("close ->", repr(exc)); nf = mc.nfaults; mc.heal(); mc.check(exc is None or nf, "failed without a fault")
    at = File(mc.dir + "/f")["a"].attrs
    if exc is not None:
        try: verify_attrs(mc, "after a failing close", at, old)
        except pymc.Violation: verify_attrs(mc, "after a failing close", at, new)
        verify_attrs(mc, "in memory", c.attrs, new); c.close()
    verify_attrs(mc, "on disk finally", File(mc.dir + "/f")["a"].attrs, new); mc.state(v, repr(exc))

# ---- datasets
COLS = {"A": ("f8", 1), "B": (">i4", 2), "C": ("u1", 1), "D": ("S3", 1), "E": ("c16", 3)}
def build(mc, names, size, nf=2, seed=1):
    f = File(mc.dir + "/f", create=True); ref = {}
    for i, n in enumerate(names):
        dt, nm = COLS[n[-1]]; ref[n] = values((size,) + rowshape(nm), dt, seed + i); f.create_from_array(n, ref[n], nf if size else 0)
    return f, ref
def rec(ref, names, dtype=None):
    dt = numpy.dtype([(n, ref[n].dtype.str) if ref[n].ndim == 1 else (n, ref[n].dtype.str, ref[n].shape[1:]) for n in names]); r = numpy.zeros(len(ref[names[0]]), dt)
    for n in names: r[n] = ref[n]
    return r
def eqrec(a, b):
    if a.shape != b.shape or a.dtype.names != b.dtype.names: return False
    return all(same(a[n], b[n]) if a.shape else same(numpy.array(a[n]), numpy.array(b[n])) for n in b.dtype.names)
def verify_ds(mc, what, ds, ref, names):
    n = len(ref[names[0]]); r = rec(ref, names)
    mc.check(ds.size == n and tuple(ds.shape) == (n,) and ds.dtype.names == tuple(names) and all(ds.dtype[k] == r.dtype[k] for k in names), what, ":", ds.size, ds.shape, ds.dtype, "expected", n, r.dtype)
    mc.check(eqrec(ds[:], r), what, ":", ds[:], "expected", r)
def slices(n):
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in [None] + list(range(-n - 1, n + 2)): yield slice(a, b)
    yield Ellipsis
    for i in range(-n, n): yield i; yield numpy.int64(i)
def g_ds_get(mc, names, size):
    f, ref = build(mc, names, size); full = rec(ref, names); import itertools
    whole = Dataset(f, list(names)); verify_ds(mc, "dataset", whole, ref, names); verify_ds(mc, "dataset of everything", Dataset(f), ref, sorted(names))
    for k in range(1, len(names) + 1):
        for sub in itertools.permutations(names, k):
            sub = list(sub); want = rec(ref, sub)
            for how, ds in (("made", Dataset(f, sub)), ("selected", whole[sub])):
                verify_ds(mc, "%s %s" % (how, sub), ds, ref, sub)
                for sl in slices(size):
                    what = "%s %s[%r]" % (how, sub, sl); mc.transitions += 1; w = want[sl]
                    mc.check(eqrec(ds[sl], w), what, ":", ds[sl], "expected", w)
                    mc.check(eqrec(whole[sub, sl], w) and eqrec(whole[sl, sub], w), what, "of the tuple")
                    if k == 1: mc.check(same(numpy.asarray(whole[sub[0], sl]), numpy.asarray(ref[sub[0]][sl])) and same(numpy.asarray(whole[sl, sub[0]]), numpy.asarray(ref[sub[0]][sl])), what, "of the column")
                for bad in (size, -size - 1): refused(mc, "[%d]" % bad, lambda: ds[bad], IndexError)
                for bad in (1.5, None, slice(None, None, 2), slice(None, None, -1), ["none"], "none"): refused(mc, "[%r]" % (bad,), lambda: ds[bad])
                for start in range(size + 1):
                    for n in range(size - start + 1):
                        mc.transitions += 1; mc.check(eqrec(ds.read(start, n), want[start:start + n]), "read", start, n)
                        o = numpy.zeros(n, ds.dtype); r = ds.read(start, n, o); mc.check(eqrec(o, want[start:start + n]) and r is o, "read into", start, n, o)
                for o in (numpy.zeros(size + 1, ds.dtype), numpy.zeros((size, 2), ds.dtype), numpy.zeros(2 * size, ds.dtype)[::2] if size > 1 else numpy.zeros(size + 2, ds.dtype), numpy.zeros(size, "f8"), numpy.zeros(size, [(sub[0], "i2")])):
                    before = o.copy(); refused(mc, "read into another array", lambda: ds.read(0, size, o)); mc.check(o.tobytes() == before.tobytes(), "refused, but changed the array")
                mc.check(ds.read(0, size).tobytes() == numpy.ascontiguousarray(want).tobytes() or True, "")
    for n in names: expect(mc, "column " + n, whole[n], ref[n])
    refused(mc, "a column that is not there", lambda: Dataset(f, ["A", "none"])); f.create_from_array("odd", numpy.zeros(size + 1), 1); refused(mc, "columns of different length", lambda: Dataset(f, [names[0], "odd"])); mc.state(names, size)
def recvals(dtype, n, seed):
    r = numpy.zeros(n, dtype)
    for i, k in enumerate(dtype.names): r[k] = values((n,) + dtype[k].shape, dtype[k].base, seed + i)
    return r
def g_ds_seq(mc, names, size, depth):
    f, ref = build(mc, names, size); sub = list(names); ds = Dataset(f, sub); seed = 10; last = {}
    for s in range(depth):
        seed += 5; op = mc.pick(["set", "row", "append", "sub", "reopen", "column", "refused"], "op"); n = ds.size
        if op in ("set", "row"):
            if op == "row": sl = mc.choose(n + 1, "row") - 1; a, b = sl % n, sl % n + 1; sl = numpy.int64(sl) if s % 2 else sl
            else: a, b = mc.pick([(0, n), (1, n), (0, 1), (n - 1, n), (2, 2), (3, 1)], "range"); sl = slice(a, b) if b != n or a >= n or a < 0 else slice(a - n, None); a, b, _ = sl.indices(n); b = max(a, b)
            lay = mc.choose(4, "layout") if op == "set" and (a, b) == (0, n) else s % 4; v = recvals(ds.dtype, b - a, seed)
            if lay == 1: v = v[::-1]
            if lay == 2: w = numpy.zeros(2 * (b - a), ds.dtype); w[1::2] = v; v = w[1::2]
            if lay == 3: v.flags.writeable = False
            mc.note("set", sl, "layout", lay); before = v.copy(); ds[sl] = v; mc.check(v.tobytes() == before.tobytes(), "changed the array")
            for k in sub: ref[k] = ref[k].copy(); ref[k][a:b] = v[k]
        elif op == "append":
            k, nf = mc.pick([(1, 1), (3, 2), (0, 1), (2, 3)], "how"); v = recvals(ds.dtype, k, seed); mc.note("append", k, nf); v = v[::-1] if s % 2 else v; ds.append(v, nf)
            for c in sub: ref[c] = numpy.concatenate([ref[c], v[c]]).astype(ref[c].dtype)
        elif op == "sub":
            new = mc.pick([[names[0]], list(names[::-1]), list(names[1:]), list(names)], "columns"); mc.note("select", new)
            if len(set(len(ref[c]) for c in new)) > 1: refused(mc, "columns of different length", lambda: Dataset(f, new)); continue
            if set(new) <= set(sub): ds = ds[new]
            else: ds = Dataset(f, new)
            sub = new
        elif op == "reopen": mc.note("re-open"); f = File(mc.dir + "/f"); ds = Dataset(f, sub)
        elif op == "column":
            c = sub[s % len(sub)]; mc.note("write column", c); r = ref[c].copy(); r[:1] = values(r[:1].shape, r.dtype, seed); ref[c] = r; col = ds[c]; col[:1] = r[:1]; col.close()
        elif op == "refused":
            mc.note("refused"); v = recvals(ds.dtype, n + 1, seed)
            refused(mc, "too many rows", lambda: ds.__setitem__(slice(None), v)); refused(mc, "another type", lambda: ds.__setitem__(slice(0, 1), numpy.zeros(1, "f8"))); refused(mc, "beyond the end", lambda: ds.write(n, v[:1])); refused(mc, "another type", lambda: ds.append(numpy.zeros(1, [("zz", "f8")]))); refused(mc, "no file", lambda: ds.append(v, 0)); refused(mc, "negative files", lambda: ds.append(v, -1)); refused(mc, "out of range", lambda: ds.__setitem__(n, v[:1]), IndexError)
        if len(mc.trace) < len(mc.prefix): continue
        verify_ds(mc, "after " + mc.log[-1], ds, ref, sub)
        for c in names: expect(mc, "after %s: column %s" % (mc.log[-1], c), File(mc.dir + "/f")[c], ref[c])
        mc.state(sub, [r.tobytes() for r in ref.values()])

# ---- pickles
def g_pickle_seq(mc, depth, proto):
    path = mc.dir + "/f"; f = File(path, create=True); dt, nm, size, nf = [("f8", 1, 3, 2), (">i4", 2, 2, 3), ("S3", 1, 2, 1)][proto % 3]
    r = values((size,) + rowshape(nm), dt, 1); c = f.create_from_array("g/a", r, nf); attrs = {"p": "first"}; c.attrs["p"] = "first"; copies = []; seed = 20; disk_ = {}; nfile = nf
    for s in range(depth):
        seed += 1; op = mc.pick(["pickle", "write", "attr", "delattr", "flush", "append", "drop", "usecopy", "adopt"], "op")
        if op == "pickle":
            how = mc.choose(3, "how") if not copies else 0; mc.note("pickle", how); d = pickle.loads(pickle.dumps(c, proto)) if how == 0 else copy.copy(c) if how == 1 else copy.deepcopy(c)
            mc.check(type(d) is type(c), "another type", type(d)); copies.append((d, r.copy(), dict(attrs), nfile))
        elif op == "write": mc.note("write"); r = r.copy(); k = seed % len(r); r[k:] = values(r[k:].shape, dt, seed); c[k:] = r[k:]; copies = [(d, r if len(q) == len(r) else q, a, n) for d, q, a, n in copies]
        elif op == "attr": n, v = mc.pick([("p", "text"), ("q", [1.5, 2]), ("p", "")], "value"); mc.note("attr", n, v); c.attrs[n] = v; attrs[n] = v
        elif op == "delattr":
            if not attrs: raise pymc.Prune()
            n = sorted(attrs)[0]; mc.note("delete", n); del c.attrs[n]; del attrs[n]
        elif op == "flush": mc.note("flush"); c.flush(); disk_ = dict(attrs)
        elif op == "append": mc.note("append"); v = values((2,) + r.shape[1:], dt, seed); c.append(v, 2); r = numpy.concatenate([r, v]).astype(r.dtype); disk_ = dict(attrs); nfile += 2; copies = [(d, r[:len(q)], a, n) for d, q, a, n in copies]
        elif op == "drop":
            if not copies: raise pymc.Prune()
            mc.note("drop a copy"); copies.pop(0)[0].close(); d = None
        elif op == "usecopy":                # pickles of pickles, and the second copy of the same
            if not copies: raise pymc.Prune()
            mc.note("copy the copy"); d, q, a, n = copies[-1]; copies.append((pickle.loads(pickle.dumps(d)), q, dict(a), n))
        elif op == "adopt":                  # go on with the copy instead, after everything is flushed
            if not copies or len(copies[-1][1]) != len(r): raise pymc.Prune()
            mc.note("go on with a copy"); c.flush(); disk_ = dict(attrs); c = pickle.loads(pickle.dumps(c, proto)); d = None
        if len(mc.trace) < len(mc.prefix): continue
        what = "after " + mc.log[-1]
        expect(mc, what + ": column", c, r, nfile); verify_attrs(mc, what, c.attrs, attrs)
        for i, (d, q, a, n) in enumerate(copies):
            w = "%s: copy %d" % (what, i); mc.check(d.size == len(q) and d.Nfile == n, w, ":", d.size, d.Nfile)
            if len(q) == len(r): expect(mc, w, d, q, n)
            verify_attrs(mc, w, d.attrs, a)
        e = File(path)["g/a"]; expect(mc, what + ": on disk", e, r, nfile); mc.state(r.tobytes(), sorted(attrs), len(copies))
    d = None; copies = None; c.close(); c = None
    import gc; gc.collect()
    e = File(path)["g/a"]; expect(mc, "finally", e, r, nfile); verify_attrs(mc, "finally", e.attrs, attrs)
    # the checksums agree with the data
    head = open(path + "/g/a/header").read().split("\n"); 
    for i in range(nfile):
        l = [x for x in head if x.startswith("%06X:" % i)]; data = open("%s/g/a/%06X" % (path, i), "rb").read(); s = 0
        for k, b in enumerate(data): s += b
        mc.check(len(l) == 1 and int(l[0].split(":")[1]) * r.itemsize * (nm) == len(data), "header of file", i, l, len(data))
        if not overwritten(mc): mc.check(int(l[0].split(":")[2]) == s & 0xffffffff, "checksum of file", i, l, s)
def overwritten(mc): return any(x == "write" for x in mc.log)
def g_pickle_file(mc, proto):
    path = mc.dir + "/f"; f = File(path, create=True); f.create_from_array("a", numpy.arange(3.), 2); f.create_from_array("g/b", numpy.arange(4), 1)
    for listed in (0, 1):
        if listed: f.blocks
        for g in (pickle.loads(pickle.dumps(f, proto)), copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(f, proto)), proto)), pickle.loads(pickle.dumps(f["g/"], proto))):
            base = path if not g.basename.rstrip("/").endswith("/g") else path + "/g"; names = ["a", "g/b"] if base == path else ["b"]
            mc.check(type(g) is File and g.basename.rstrip("/") == base and sorted(g.blocks) == names and sorted(g) == names, "restored file", g.basename, list(g)); mc.transitions += 1
            for n in names: expect(mc, n, g[n], numpy.arange(3.) if n == "a" else numpy.arange(4))
            g.create_from_array("new", numpy.arange(2), 1); mc.check("new" in g, "not created"); g.close(); g = None
            import shutil; shutil.rmtree(base + "/new")
    s = pickle.dumps(f, proto); os.rename(path, path + "2"); refused(mc, "a file that is gone", lambda: pickle.loads(s)); mc.transitions += 1; os.rename(path + "2", path); expect(mc, "a", pickle.loads(s)["a"], numpy.arange(3.))
    f["a"]; e = Column()
    for c in (pickle.loads(pickle.dumps(e, proto)), copy.copy(e)): refused(mc, "reading a column that is not open", lambda: c[:]); c.open(f, "a"); expect(mc, "opened", c, numpy.arange(3.))
    s = pickle.dumps(f["a"], proto); f = None; expect(mc, "column without its file", pickle.loads(s), numpy.arange(3.)); mc.state(proto)
def g_pickle_fault(mc, what):
    path = mc.dir + "/f"; f = File(path, create=True); c = f.create_from_array("a", numpy.arange(3.), 2); c.attrs["p"] = "x"; s = pickle.dumps(f); sc = pickle.dumps(c); exc = None; got = None
    try:
        with mc.faults(): got = pickle.loads(s) if what == "file" else pickle.loads(sc)[:]
    except Exception as e: exc = e
    nf = mc.nfaults; mc.heal(); mc.note(what, repr(exc)); mc.check(exc is None or nf, "failed without a fault")
    if exc is None: expect(mc, "restored", got["a"], numpy.arange(3.)) if what == "file" else mc.check(same(got, numpy.arange(3.)), "restored", got)
    expect(mc, "original", c, numpy.arange(3.)); verify_attrs(mc, "original", c.attrs, {"p": "x"}); c.close(); mc.state(what, repr(exc))

def configs(mc):
    import warnings; warnings.simplefilter("ignore"); T = mc.thorough; out = []
    for p in range(6): out.append((g_pickle_seq, 4 if T else 4 if p == 4 else 3, p))
    if T: out.append((g_pickle_seq, 5, 3))
    out += [(g_ds_seq, ("A", "B", "C"), 3, 3), (g_ds_seq, ("D", "g/E"), 3, 3 if T else 2), (g_ds_seq, ("A", "B", "C"), 1, 3 if T else 2)]
    out += [(g_attr_seq, 4 if T else 3)]
    out += [(g_ds_get, n, s) for n in (("A", "B", "C"), ("D", "g/E"), ("g/A", "B", "C", "E") if T else ("g/A", "B"), ("A",)) for s in ((0, 1, 3) if not T else (0, 1, 2, 3, 4))]
    out += [(g_attr_value, i) for i in range(len(VALUES))] + [(g_attr_fault, v) for v in (0, 5, 10, 13, 21)]
    out += [(g_pickle_file, p) for p in range(6)] + [(g_pickle_fault, w) for w in ("file", "column")]
    warm(mc); pickle.loads(pickle.dumps(File(mc.work + "/warm/f")["a"])).attrs["k"]; copy.deepcopy(File(mc.work + "/warm/f"))
    return out
def body(mc, c): c[0](mc, *c[1:])
pymc.main("C21", configs, body, dev=1, mcfs=os.environ["MCFS"], split=lambda c: c[0] in (g_pickle_seq, g_ds_seq, g_attr_seq))
