"""Explorer for the Python harnesses: every vector of choices of every configuration, each in a scratch directory of its own.
A worker that dies (the sanitizer, a signal) or hangs is a violation too."""
import zlib, sys, os, json, time, signal, struct, mmap, shutil, hashlib, traceback, ctypes, multiprocessing, argparse

SPLIT = 3
class Violation(Exception): pass
class Prune(Exception): pass

class MC:
    def __init__(self, opts, work):
        self.o = opts; self.work = work; self.thorough = opts.tier == "thorough"
        self.states = set(); self.transitions = 0; self.depth = 0; self.lib = None; self.n = 0; self.base = None
    # one execution
    def begin(self, prefix, dev):
        self.prefix = prefix; self.trace = []; self.log = []; self.bound = dev; self.fa = None
        self.n += 1; self.nd = getattr(self, "nd", 0) + 1; self.dir = "%s/x%d" % (self.base, self.nd); os.mkdir(self.dir)
        if self.lib: self.lib.pymcfs_reset()
    def end(self):
        self.depth = max(self.depth, len(self.trace)); shutil.rmtree(self.dir, ignore_errors=True)
    fa = None
    def choose(self, n, tag="", dev=False):
        if self.fa: self.fa.pull()
        i = len(self.trace); k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n: print("engine error: %d of %d at %s" % (k, n, tag), file=sys.stderr); os._exit(70)
        self.trace.append((n, k, tag, dev))
        if len(self.trace) == SPLIT and self.part and not self.o.replay and zlib.crc32(bytes(x[1] & 255 for x in self.trace)) % self.part[1] != self.part[0]: self.n -= 1; raise Prune()      # somebody else's
        if self.fa: self.fa.arm()
        return k
    def pick(self, seq, tag="", dev=False):
        seq = list(seq); return seq[self.choose(len(seq), tag, dev)]
    def note(self, *a): self.log.append(" ".join(str(x) for x in a)); self.transitions += 1; self.o.replay and print("  |", self.log[-1], flush=True)
    def state(self, *a): self.states.add(hashlib.blake2b(repr(a).encode(), digest_size=8).digest())
    def fail(self, *a): raise Violation(" ".join(str(x) for x in a))
    def check(self, ok, *a):
        if not ok: self.fail(*a)
    # system calls of the calls inside fail, as chosen
    def faults(self, mode=2): return Faults(self, mode)
    def heal(self): self.lib.pymcfs_heal()
    @property
    def nfaults(self): return self.lib.pymcfs_faults()

class Faults:
    def __init__(self, mc, mode): self.mc = mc; self.mode = mode
    def arm(self):
        mc = self.mc; p = mc.prefix[len(mc.trace):]; a = (ctypes.c_int * max(len(p), 1))(*p); mc.lib.pymcfs_on(self.mode, len(p), a)
    def pull(self):
        mc = self.mc; m = mc.lib.pymcfs_off(); n = ctypes.c_int(); tag = ctypes.create_string_buffer(16)
        for i in range(m):
            k = mc.lib.pymcfs_taken(i, ctypes.byref(n), tag); mc.trace.append((n.value, k, tag.value.decode(), True))
            if k: mc.log.append("    (%s: alternative %d)" % (tag.value.decode(), k))
    def __enter__(self): self.mc.fa = self; self.arm()
    def __exit__(self, *e): self.pull(); self.mc.fa = None

def successor(trace, bound):
    """the next vector in depth first order, with at most bound deviations"""
    devs = [0]
    for n, k, t, d in trace: devs.append(devs[-1] + (1 if d and k else 0))
    for i in range(len(trace) - 1, -1, -1):
        n, k, t, d = trace[i]
        if k + 1 < n and not (d and not k and devs[i] >= bound): return [x[1] for x in trace[:i]] + [k + 1]
    return None

def main(pid, configs, body, dev=0, mcfs=None, hang=120, split=None):
    ap = argparse.ArgumentParser()
    for a in ("out", "replay-dir", "tier", "replay"): ap.add_argument("--" + a)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--budget", type=float, default=400)
    o = ap.parse_args(); t0 = time.time(); work = os.getcwd()
    mc = MC(o, work); cfgs = list(configs(mc))
    if os.environ.get("PYMC_ONLY"): cfgs = [c for c in cfgs if os.environ["PYMC_ONLY"] in repr(c)]
    parts = []
    for c in list(cfgs): k = o.jobs if split and split(c) else 1; parts += [(i, k) if k > 1 else None for i in range(k)]
    cfgs = [c for c in cfgs for i in range(o.jobs if split and split(c) else 1)]
    if mcfs:
        mc.lib = ctypes.CDLL(mcfs); mc.lib.pymcfs_calls.restype = ctypes.c_ulong
    def start(w):
        mc.base = "%s/scratch-%s-%s" % (work, pid, w); os.mkdir(mc.base)
        if mc.lib: mc.lib.pymcfs_install(int(mc.thorough))
        signal.signal(signal.SIGALRM, lambda *a: (sys.stderr.write("an operation does not return\n"), sys.stderr.flush(), os._exit(97)))
    def once(ci, prefix):
        """None or what is wrong"""
        mc.part = parts[ci]; mc.begin(prefix, dev); signal.alarm(hang)
        try:
            try: body(mc, cfgs[ci]); return None
            except Prune: return None
            finally:
                if mc.lib: mc.lib.pymcfs_off()
        except Violation as e: return str(e)
        except Exception as e: return "unexpected %s\n%s" % (repr(e), traceback.format_exc())
        finally: signal.alarm(0); mc.end()
    if o.replay:
        r = json.load(open(o.replay)); start("replay"); w = once(r["config"], r["choices"])
        print("replay: " + ("violation reproduced: " + w if w else "no violation"), flush=True); os._exit(1 if w else 0)
    # workers take configurations from a shared counter, and leave in shared memory what they are doing
    nxt = multiprocessing.Value("l", 0); stop = multiprocessing.Value("b", 0); J = max(1, min(o.jobs, len(cfgs))); SZ = 1 << 16
    shm = mmap.mmap(-1, SZ * J); pids = {}; deadline = t0 + o.budget
    for w in range(J):
        p = os.fork()
        if p == 0:
            rc = 0; sample = None; done = True
            def put(obj):
                b = json.dumps(obj).encode()[:SZ - 8]; shm[w * SZ:w * SZ + 4 + len(b)] = struct.pack("I", len(b)) + b
            errf = os.open("%s/err-%d" % (work, w), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(errf, 2)
            start(w)
            while not stop.value and rc == 0:
                with nxt.get_lock(): ci = nxt.value; nxt.value += 1
                if ci >= len(cfgs): break
                prefix = []
                while prefix is not None:
                    if stop.value or time.time() > deadline: done = False; break
                    put({"config": ci, "choices": prefix})
                    bad = once(ci, prefix)
                    if sample is None or len(mc.trace) > 2 and len(sample) < 200: sample = "configuration %s\n%s" % (repr(cfgs[ci])[:300], "\n".join(mc.log[:40]))
                    if bad:
                        put({"config": ci, "choices": [x[1] for x in mc.trace], "what": bad[:6000], "log": mc.log[-60:]}); rc = 1; stop.value = 1; break
                    prefix = successor(mc.trace, dev)
                if not done: break
            if mc.lib: mc.transitions += mc.lib.pymcfs_calls()
            with open("%s/res-%d" % (work, w), "w") as f: json.dump({"n": mc.n, "t": mc.transitions, "d": mc.depth, "done": done, "sample": sample, "states": [s.hex() for s in mc.states]}, f)
            shutil.rmtree(mc.base, ignore_errors=True); sys.stdout.flush(); os._exit(rc)
        pids[p] = w
    bad = None; err = ""
    while pids:
        p, st = os.wait(); w = pids.pop(p)
        if st == 0: continue
        stop.value = 1; d = json.loads(shm[w * SZ + 4:w * SZ + 4 + struct.unpack("I", shm[w * SZ:w * SZ + 4])[0]])
        e = open("%s/err-%d" % (work, w), errors="replace").read()
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 70: print("ENGINE ERROR\n" + e, file=sys.stderr); sys.exit(2)
        if "what" not in d: d["what"] = "crash: " + ("signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else {97: "hangs", 99: "memory error"}.get(os.WEXITSTATUS(st), "exit status %d" % os.WEXITSTATUS(st)))
        if bad is None: bad = d; err = e
    n = t = depth = 0; states = set(); full = bad is None; samples = []
    for w in range(J):
        try: r = json.load(open("%s/res-%d" % (work, w)))
        except Exception: full = False; continue
        n += r["n"]; t += r["t"]; depth = max(depth, r["d"]); states.update(r["states"]); full = full and r["done"]; samples += [r["sample"]] if r["sample"] else []
    rc = 0
    if bad:
        rc = 1; bad["configuration"] = repr(cfgs[bad["config"]])[:2000]; bad["stderr"] = err[-6000:]
        path = os.path.join(o.replay_dir, "%s-%s.json" % (pid, hashlib.md5(json.dumps([bad["config"], bad["choices"]]).encode()).hexdigest()[:10]))
        with open(path, "w") as f: json.dump(bad, f, indent=1)
        print("%s: %s\nconfiguration %s\n%s\n%s" % (pid, bad["what"], bad["configuration"], "\n".join(bad.get("log", [])), err[-3000:]), file=sys.stderr)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    with open(o.out, "w") as f: json.dump({"executions": n, "transitions": t, "states": len(states), "max_choice_depth": depth, "configurations": sum(not x or not x[0] for x in parts), "deviation_bound": dev, "exhaustive": full, "rc": rc, "wall_s": round(time.time() - t0, 2), "violation": bad["what"] if bad else "", "samples": samples[:3]}, f)
    print("%s: executions %d transitions %d states %d configs %d depth %d %s rc %d %.1fs" % (pid, n, t, len(states), len(cfgs), depth, "complete" if full else "TRUNCATED", rc, time.time() - t0), file=sys.stderr)
    sys.exit(rc)
