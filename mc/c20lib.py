"""Shared by the Python harnesses."""
import os, numpy
from bigfile import File, Column
def same(a, b):
    a = numpy.asarray(a); b = numpy.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
def values(shape, dtype, seed=1):
    """different values for every element"""
    n = int(numpy.prod(shape)); d = numpy.dtype(dtype)
    if d.kind == "S": v = numpy.array([("%03d" % ((seed * 37 + i) % 1000)).encode()[:d.itemsize] for i in range(n)], d) if n else numpy.zeros(0, d)
    elif d.kind == "b": v = numpy.array([(seed + i) * 7 % 3 == 0 for i in range(n)], d)
    elif d.kind == "c": v = (numpy.arange(n) + seed * 1.5 + 1j * (numpy.arange(n) * 2 + seed)).astype(d)
    else: v = ((numpy.arange(n) * 3 + seed * 11) % 97 + (0.25 if d.kind == "f" else 0)).astype(d)
    return v.reshape(shape)
def rowshape(nm): return () if nm == 1 else (nm,)
def ft(dt, nm): return dt if nm == 1 else (dt, (nm,))
def refused(mc, what, f, *kind):
    try: r = f()
    except (kind or Exception): return
    except Exception as e: mc.fail(what, "raised", repr(e), "instead of", kind)
    mc.fail(what, "was not refused but gave", repr(r))
def disk(path, name):
    with File(path).open(name) as c: return c[:]
def expect(mc, what, col, ref, nfile=None):
    mc.check(col.size == len(ref), what, ": size", col.size, "expected", len(ref))
    want = numpy.dtype((ref.dtype, ref.shape[1:])) if ref.ndim > 1 else ref.dtype
    mc.check(col.dtype == want, what, ": type", col.dtype, "expected", want)
    if nfile is not None: mc.check(col.Nfile == nfile, what, ": files", col.Nfile, "expected", nfile)
    got = col[...]
    mc.check(same(got, ref), what, ": content", got.tolist(), "expected", ref.tolist())

def make(mc, dt, nm, size, nf, seed=1):
    f = File(mc.dir + "/f", create=True); ref = values((size,) + rowshape(nm), dt, seed)
    c = f.create("a", ft(dt, nm), size, nf); c.write(0, ref); c.flush()
    return f, c, ref

def warm(mc):
    """everything that is imported lazily is there before system calls fail"""
    d = mc.work + "/warm"; os.mkdir(d); f = File(d + "/f", create=True); c = f.create_from_array("a", numpy.arange(3.), 2); c.append(numpy.arange(2.)); c.attrs["k"] = "v"; c.close(); repr(c); list(c); repr(numpy.zeros(3)); f["a"]; c.read(0, 1, numpy.zeros(1))
    try: f["zz"]
    except Exception as e: repr(e)
