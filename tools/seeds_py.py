I, X = "bigfile/__init__.py", "bigfile/pyxbigfile.pyx"
SH = '''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh
cd "$t" && PYTHONPATH=$r/_build/site timeout -k 5 100 python "$d/demo.py"
'''
HEAD = '''import sys, os, copy, pickle, threading
import numpy
import bigfile
from numpy.testing import assert_array_equal as eq
'''
COMM = '''
class Comm(object):
    """threads of this process as ranks"""
    def __init__(self, group, rank): self.g, self.rank, self.size = group, rank, group[0].parties
    def _all(self, v):
        b, slots = self.g
        slots[self.rank] = v
        b.wait(30)
        r = list(slots)
        b.wait(30)
        return r
    def allgather(self, v): return self._all(v)
    def bcast(self, v, root=0): return self._all(v)[root]
    def barrier(self): self._all(None)
    def allreduce(self, v): return sum(self._all(v))
    def Allreduce(self, src, dst):
        r = sum(numpy.array(x).astype('u8') for x in self._all(numpy.array(src)))
        numpy.asarray(dst)[...] = r.astype('u4')
def run(n, func):
    group = (threading.Barrier(n), [None] * n)
    out = [None] * n
    def work(rank):
        try: out[rank] = func(Comm(group, rank))
        except BaseException as e:
            out[rank] = e
            if isinstance(e, (threading.BrokenBarrierError, AssertionError)): group[0].abort()
    th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    for t in th: t.start()
    for t in th: t.join(60)
    return out
'''
def py(id, prop, edits, body, needs, breaks, comm=False):
    return dict(id=id, property=prop, edits=edits, files={"demo.py": HEAD + (COMM if comm else "") + body}, sh=SH, needs=needs, breaks=breaks)
SEEDS = [
 py("py-byteorder", "C20", [(X, """        big_array_init(&array, buf.data, buf.dtype.str.encode(), 
                buf.ndim, 
""", """        # the library takes care of other types
        typestr = '%s%d' % (buf.dtype.kind, buf.dtype.itemsize)
        big_array_init(&array, buf.data, typestr.encode(),
                buf.ndim, 
""")], '''
f = bigfile.File("f", create=True)
a = numpy.arange(10, dtype='>i4')
b = f.create("x", 'i4', 10, 2)
b.write(0, a)
b.flush()
eq(f["x"][...], a)
''', "an array in the byte order of other machines is written to a column", "writes from byte-swapped arrays store numbers with their bytes reversed"),
 py("py-last-chunk", "C20", [(I, """        with self.create(blockname, dtype, size, Nfile) as b:
            for i in range(0, len(array), itemlimit):
                b.write(i, numpy.array(array[i:i+itemlimit]))

        return self.open(blockname)

    def subfile""", """        itemlimit = min(itemlimit, max(size, 1))
        with self.create(blockname, dtype, size, Nfile) as b:
            for chunk in range(size // itemlimit):
                i = chunk * itemlimit
                b.write(i, numpy.array(array[i:i+itemlimit]))

        return self.open(blockname)

    def subfile""")], '''
f = bigfile.File("f", create=True)
a = numpy.arange(1024 * 3 + 5, dtype='i4')
b = f.create_from_array("x", a, Nfile=2, memorylimit=4096)
eq(b[...], a)
''', "an array larger than the memory limit, whose length is not a multiple of the chunk", "create_from_array loses the last rows"),
 py("py-read-clip", "C20", [(X, """        if length + start > self.size:
            length = self.size - start
        if out is None:""", """        length = min(length, self.size - start)
        if out is not None:
            # several rows in one go
            out = out[:length]
        if out is None:""")], '''
f = bigfile.File("f", create=True)
b = f.create_from_array("x", numpy.arange(5, dtype='i4'))
o = numpy.full(4, -1, 'i4')
try: b.read(0, 3, o)
except (ValueError, AssertionError): pass
else: assert 0, "not refused"
''', "reading into an array that is longer than the request", "a read into an array of another length is not refused"),
 py("py-step", "C20", [(I, """            start, end, stop = sl.indices(self.size)
            if stop != 1:
                raise ValueError('must request a contiguous chunk')
            return self.read""", """            start, end, stop = sl.indices(self.size)
            if stop > 1:
                raise ValueError('must request a contiguous chunk')
            if stop < 0:
                start, end = end + 1, start + 1
            return self.read""")], '''
f = bigfile.File("f", create=True)
b = f.create_from_array("x", numpy.arange(5, dtype='i4'))
for sl in [slice(None, None, -1), slice(3, 0, -2)]:
    try: r = b[sl]
    except ValueError: continue
    eq(r, numpy.arange(5)[sl])
''', "a slice with a negative step", "slices with negative steps return the rows in ascending order, including those that are skipped"),
 py("py-text-attr", "C21", [(X, """            if value.dtype.char == 'U':
                value = numpy.array([i.encode() for i in value])
""", """            if value.dtype.char == 'U':
                value = value.astype('S')
""")], '''
f = bigfile.File("f", create=True)
b = f.create("x", 'i4', 1)
b.attrs["u"] = [u"h\\u00e9", u"m/s"]
assert list(b.attrs["u"]) == [u"h\\u00e9", u"m/s"], b.attrs["u"]
''', "a list of texts with a letter outside ASCII", "such attributes cannot be set"),
 py("py-attr-order", "C21", [(X, """            dtype = value.dtype.base.str.encode()

        cdef""", """            # the native representation
            dtype = value.dtype.base.str.encode().lstrip(b'<>|=')

        cdef""")], '''
f = bigfile.File("f", create=True)
b = f.create("x", 'i4', 1)
b.attrs["u"] = numpy.arange(3, dtype='>f8')
b.close()
eq(f["x"].attrs["u"], [0., 1., 2.])
''', "an attribute set from a byte-swapped array", "the numbers read back have their bytes reversed"),
 py("py-ds-order", "C21", [(I, """            assert all([(col in self.dtype.names) for col in sl])
            return type(self)(self.file, sl)
""", """            names = [col for col in self.dtype.names if col in sl]
            assert len(names) == len(set(sl))
            return type(self)(self.file, names)
""")], '''
f = bigfile.File("f", create=True)
f.create_from_array("x", numpy.arange(4)); f.create_from_array("y", numpy.arange(4) + 10.)
d = bigfile.Dataset(f, ["x", "y"])
r = d[["y", "x"]][...]
assert r.dtype.names == ("y", "x"), r.dtype
assert r[1].item() == (11., 1)
''', "columns selected in another order than that of the dataset", "the columns of the structured array come in another order than asked for"),
 py("py-ds-blank", "C21", [(X, """            basedtype = dtype[name].base.str.encode()
            nmemb = int(numpy.prod(dtype[name].shape))
""", """            basedtype = dtype[name].base.str.encode()
            nmemb = dtype[name].itemsize // 8 or 1 if dtype[name].shape else 1
""")], '''
f = bigfile.File("f", create=True)
f.create_from_array("x", numpy.arange(6, dtype='f4').reshape(2, 3)); f.create_from_array("y", numpy.arange(2))
d = bigfile.Dataset(f, ["x", "y"])
r = d[...]
eq(r["x"], numpy.arange(6).reshape(2, 3))
''', "a dataset with a column of several numbers per row that are not 8 bytes wide", "the rows of the structured array are laid out with the wrong width"),
 py("py-pickle-blocks", "C21", [(I, """        return (self.comm, getattr(self, 'blocks', None), FileLowLevelAPI.__getstate__(self)) 
""", """        return (self.comm, getattr(self, '_blocks', []), FileLowLevelAPI.__getstate__(self))
""")], '''
bigfile.File("f", create=True).create("x", 'i4', 1).close()
f = bigfile.File("f")
g = pickle.loads(pickle.dumps(f))
assert "x" in g and g.keys() == f.keys() == ["x"], g.keys()
''', "a file is pickled before its blocks were listed", "the restored file shows no blocks"),
 py("py-mpi-offset", "C22", [(I, """        offset = sum(self.comm.allgather(len(array))[:self.comm.rank])
""", """        offset = size * self.comm.rank // self.comm.size
""")], '''
parts = [numpy.arange(3), numpy.arange(3, 4), numpy.arange(4, 8)]
def script(comm):
    f = bigfile.FileMPI(comm, "f", create=True)
    b = f.create_from_array("x", parts[comm.rank])
    b.close()
print(run(3, script))
eq(bigfile.File("f")["x"][...], numpy.arange(8))
''', "ranks that contribute different numbers of rows", "rows of different ranks overwrite each other and others stay unwritten", True),
 py("py-mpi-dirty", "C22", [(X, """        dirty = any(comm.allgather(self.bb.dirty))
""", """        dirty = comm.bcast(self.bb.dirty)
""")], '''
def script(comm):
    f = bigfile.FileMPI(comm, "f", create=True)
    b = f.create("x", 'i4', 4, 1)
    b.flush()
    if comm.rank == 1: b.write(0, numpy.arange(4, dtype='i4') + 7)
    b.close()
print(run(2, script))
eq(bigfile.File("f")["x"][...], numpy.arange(4) + 7)
s = sum(bytearray((numpy.arange(4, dtype='i4') + 7).tobytes()))
line = open("f/x/header").read().split("000000:")[1]
assert (" %d :" % s) in line, line
''', "only ranks other than the root change the block between two flushes", "the checksum of what they wrote is not stored", True),
 py("py-mpi-rows", "C22", [(I, """        size = self.comm.allreduce(len(array))

        # sane value -- 32 million items per physical file
        sizeperfile = 32 * 1024 * 1024

        if Nfile is None:
            Nfile = (size + sizeperfile - 1) // sizeperfile
""", """        size = self.comm.allreduce(len(array))

        # sane value -- 32 million items per physical file
        sizeperfile = 32 * 1024 * 1024

        if Nfile is None:
            Nfile = (len(array) + sizeperfile - 1) // sizeperfile
""")], '''
parts = [numpy.zeros(0, 'i8'), numpy.arange(4)]
def script(comm):
    f = bigfile.FileMPI(comm, "f", create=True)
    b = f.create_from_array("x", parts[comm.rank])
    b.close()
    return b.size
r = run(2, script)
assert r == [4, 4], r
eq(bigfile.File("f")["x"][...], numpy.arange(4))
''', "the root rank contributes no rows and the number of files is left to the library", "the block cannot be created", True),
 py("py-mpi-attrs", "C22", [(X, """        if comm.rank != root:
            _big_block_close_internal(&self.bb)
            _big_block_unpack(&self.bb, container.data)
""", """        if comm.rank != root and self.bb.dirty:
            _big_block_close_internal(&self.bb)
            _big_block_unpack(&self.bb, container.data)
""")], '''
def script(comm):
    f = bigfile.FileMPI(comm, "f", create=True)
    b = f.create("x", 'i4', 4, 1)
    b.flush()
    if comm.rank == 0: b.attrs["a"] = [1, 2]
    b.flush()
    return list(b.attrs["a"]) if "a" in b.attrs else None
r = run(2, script)
assert r == [[1, 2], [1, 2]], r
''', "the root sets an attribute and flushes collectively", "the other ranks do not see it", True),
]
