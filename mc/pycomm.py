"""A communicator between threads of one process of which only one runs at a time; who continues is a choice at every
communication call. Calls return as early as the standard permits (a broadcast on its root, a reduction elsewhere), or
only when everybody is there. Ranks that wait for each other for ever, or in different calls, are reported."""
import threading, pickle, operator, functools, numpy, pymc

class Abort(BaseException): pass

class World:
    def __init__(self, mc, n, early, order, dev=True):
        self.mc = mc; self.n = n; self.early = early; self.order = order; self.dev = dev
        self.sems = [threading.Semaphore(0) for i in range(n)]; self.main = threading.Semaphore(0)
        self.ops = []; self.wait = [None] * n; self.done = [False] * n; self.bad = None; self.out = [None] * n; self.seq = [0] * n; self.aborting = False
    def runnable(self): return [r for r in self.order if not self.done[r] and (self.wait[r] is None or self.wait[r]())]
    def next(self, me=None):
        """give the baton to somebody"""
        while True:
            if self.aborting:
                left = [r for r in range(self.n) if not self.done[r]]
                if not left: self.main.release(); return False
                r = left[0]
            else:
                c = self.runnable()
                if not c:
                    if all(self.done): self.main.release(); return False
                    self.abort("hangs: " + "; ".join("rank %d %s" % (r, "has finished" if self.done[r] else "waits in call %d, %s" % (self.seq[r], self.ops[self.seq[r] - 1]["kind"])) for r in range(self.n))); continue
                r = c[self.mc.choose(len(c), "rank", True) if len(c) > 1 and self.dev else 0]
            if r == me: return True
            self.sems[r].release(); return False
    def abort(self, why):
        if not self.bad: self.bad = why
        self.aborting = True
    def switch(self, me, cond):
        self.wait[me] = cond
        if not self.next(me): self.sems[me].acquire()
        self.wait[me] = None
        if self.aborting: raise Abort()
    def run(self, f):
        def body(r):
            self.sems[r].acquire()
            try:
                if not self.aborting: self.out[r] = f(r, Comm(self, r))
            except Abort: pass
            except pymc.Violation as e: self.abort("rank %d: %s" % (r, e))
            except BaseException as e:
                import traceback; self.abort("rank %d: unexpected %r\n%s" % (r, e, traceback.format_exc()))
            self.done[r] = True; self.next()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.n)]
        for t in ts: t.start()
        self.next(); self.main.acquire()
        for t in ts: t.join()
        if self.bad: raise pymc.Violation(self.bad)
        return self.out

SUM = operator.add
class Comm:
    def __init__(self, w, r): self.w = w; self.rank = r; self.size = w.n
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def _op(self, kind, value, root=None, reads="all"):
        """reads: whose values this call needs here: all, root, none"""
        w = self.w; k = w.seq[self.rank]; w.seq[self.rank] += 1; w.mc.transitions += 1
        if w.aborting: raise Abort()
        if len(w.ops) <= k: w.ops.append({"kind": kind, "root": root, "in": {}})
        o = w.ops[k]
        if (o["kind"], o["root"]) != (kind, root): w.abort("rank %d calls %s (root %r) while others call %s (root %r)" % (self.rank, kind, root, o["kind"], o["root"])); raise Abort()
        o["in"][self.rank] = value
        all_ = lambda: len(o["in"]) == w.n
        if reads == "all" or not w.early: w.switch(self.rank, all_)
        elif reads == "root": w.switch(self.rank, lambda: root in o["in"])
        else: w.switch(self.rank, lambda: True)
        return o["in"]
    def barrier(self): self._op("barrier", None)
    Barrier = barrier
    def bcast(self, obj, root=0):
        v = self._op("bcast", pickle.dumps(obj) if self.rank == root else None, root, "none" if self.rank == root else "root"); return obj if self.rank == root else pickle.loads(v[root])
    def allgather(self, obj):
        v = self._op("allgather", pickle.dumps(obj)); return [pickle.loads(v[r]) for r in range(self.size)]
    def gather(self, obj, root=0):
        v = self._op("gather", pickle.dumps(obj), root, "all" if self.rank == root else "none"); return [pickle.loads(v[r]) for r in range(self.size)] if self.rank == root else None
    def scatter(self, obj, root=0):
        v = self._op("scatter", [pickle.dumps(x) for x in obj] if self.rank == root else None, root, "none" if self.rank == root else "root"); return pickle.loads(v[root][self.rank])
    def alltoall(self, obj):
        v = self._op("alltoall", [pickle.dumps(x) for x in obj]); return [pickle.loads(v[r][self.rank]) for r in range(self.size)]
    def _red(self, op):
        if op is None or getattr(op, "name", "SUM") == "SUM" or op is SUM: return SUM
        return op
    def allreduce(self, obj, op=None):
        v = self._op("allreduce", pickle.dumps(obj)); return functools.reduce(self._red(op), [pickle.loads(v[r]) for r in range(self.size)])
    def reduce(self, obj, op=None, root=0):
        v = self._op("reduce", pickle.dumps(obj), root, "all" if self.rank == root else "none"); return functools.reduce(self._red(op), [pickle.loads(v[r]) for r in range(self.size)]) if self.rank == root else None
    def Allreduce(self, a, b, op=None):
        v = self._op("Allreduce", numpy.array(a)); s = functools.reduce(self._red(op), [v[r] for r in range(self.size)]); numpy.asarray(b)[...] = s
    def Reduce(self, a, b, op=None, root=0):
        v = self._op("Reduce", numpy.array(a), root, "all" if self.rank == root else "none")
        if self.rank == root: numpy.asarray(b)[...] = functools.reduce(self._red(op), [v[r] for r in range(self.size)])
    def Bcast(self, a, root=0):
        v = self._op("Bcast", numpy.array(a) if self.rank == root else None, root, "none" if self.rank == root else "root")
        if self.rank != root: numpy.asarray(a)[...] = v[root]
