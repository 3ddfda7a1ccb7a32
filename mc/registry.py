"""What each check builds and runs."""
import os, subprocess, json, glob, sys, shutil
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_container_overflow=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_sigill=0:use_sigaltstack=0:max_allocation_size_mb=3000"
CF = ["-O1", "-g", "-fno-omit-frame-pointer", "-fPIC", "-DNDEBUG", "-w"]
SAN = ["-fsanitize=address"]
CXX = ["-std=gnu++17", "-O1", "-g", "-w", "-fno-omit-frame-pointer"]
JOBS = int(os.environ.get("BFV_JOBS", str(min(8, os.cpu_count() or 1))))

class BuildError(Exception): pass
def par(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        out = p.communicate()[0].decode("utf8", "replace")
        if p.returncode: raise BuildError(" ".join(c) + "\n" + out)
def serial_sources(repo):
    return [f for f in sorted(glob.glob(repo + "/src/*.c")) if os.path.basename(f) not in ("bigfile-mpi.c", "mp-mpiu.c")]
def mpi_sources(repo): return sorted(glob.glob(repo + "/src/*.c"))

SUB = ""
def run_harness(pid, exe, work, here, tier, replay, budget, extra=(), env=None):
    out = os.path.join(work, "out-%s.json" % os.path.basename(exe))
    e = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL="C"); e.update(env or {})
    cmd = [exe, "--out", out, "--replay-dir", os.path.join(here, "evidence", "replay", SUB), "--jobs", str(JOBS), "--budget", str(budget), "--tier", tier] + list(extra)
    if replay: cmd += ["--replay", replay]
    os.makedirs(os.path.join(here, "evidence", "replay", SUB), exist_ok=True)
    rc = subprocess.call(cmd, env=e, cwd=work)
    if replay: return rc, {}
    if rc not in (0, 1) or not os.path.exists(out): return 2, {}
    return rc, json.load(open(out))

def c_harness(src, libs=("serial",), extra_src=(), dev=None, budget=(400, 3000), extra_args=(), cflags=(), ldflags=()):
    """a C++ harness linked with the serial library as a shared object"""
    def f(pid, repo, here, work, tier, replay):
        inc = ["-I" + repo + "/src", "-I" + here + "/mc"]
        lib = os.path.join(work, "libbf.so")
        srcs = [here + "/mc/" + s for s in (src, "mc.cc") + tuple(extra_src)]
        objs = [os.path.join(work, os.path.basename(s) + ".o") for s in srcs]
        par([["gcc"] + CF + SAN + list(cflags) + ["-shared", "-Wl,-z,now", "-o", lib, "-I" + repo + "/src"] + list(ldflags) + serial_sources(repo) + ["-lm"]]
            + [["g++"] + CXX + SAN + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)])
        exe = os.path.join(work, src.split(".")[0])
        par([["g++"] + SAN + ["-o", exe] + objs + ["-L" + work, "-lbf", "-Wl,-rpath," + work, "-ldl", "-lm"]])
        ex = list(extra_args)
        if dev: ex += ["--dev", str(dev[0] if tier == "quick" else dev[1])]
        rc, r = run_harness(pid, exe, work, here, tier, replay, budget[0] if tier == "quick" else budget[1], ex)
        return rc, r
    return f

def procs_harness(src, n=3, mpi=False, extra_src=(), dev=None, budget=(400, 3000), extra_args=(), cflags=(), tool=None, ldflags=()):
    """a C++ harness that loads n copies of the library, one per simulated process"""
    def f(pid, repo, here, work, tier, replay):
        inc = (["-I" + here + "/mc/fakempi", "-DWITH_MPI"] if mpi else []) + ["-I" + repo + "/src", "-I" + here + "/mc"]
        srcs = [here + "/mc/" + s for s in (src, "mc.cc", "mcfs.cc", "coro.cc") + (("fakempi/fakempi.cc",) if mpi else ()) + tuple(extra_src)]
        objs = [os.path.join(work, os.path.basename(s) + ".o") for s in srcs]
        lib = os.path.join(work, "libbf0.so"); lsrc = mpi_sources(repo) if mpi else serial_sources(repo)
        if tool:
            lsrc = lsrc + [os.path.join(work, "tool.o")]
            par([["gcc"] + CF + SAN + inc + ["-include", here + "/mc/toolwrap.h", "-c", os.path.join(repo, tool), "-o", lsrc[-1]]])
        par([["gcc"] + CF + SAN + list(cflags) + ["-shared", "-Wl,-Bsymbolic", "-o", lib] + list(ldflags) + inc + lsrc + ["-lm"]]
            + [["g++"] + CXX + SAN + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)])
        for i in range(1, n): shutil.copy(lib, os.path.join(work, "libbf%d.so" % i))
        exe = os.path.join(work, src.split(".")[0])
        par([["g++"] + SAN + ["-rdynamic", "-o", exe] + objs + ["-ldl", "-lm"]])
        ex = list(extra_args)
        if dev: ex += ["--dev", str(dev[0] if tier == "quick" else dev[1])]
        return run_harness(pid, exe, work, here, tier, replay, budget[0] if tier == "quick" else budget[1], ex)
    return f

def tools_harness(src, tools, dev=None, budget=(400, 3000), scripts=()):
    """a C++ harness that runs the command line tools, each in a process of its own: as shared objects with the sanitizers, and as programs"""
    def f(pid, repo, here, work, tier, replay):
        inc = ["-I" + repo + "/src", "-I" + here + "/mc"]; lib = os.path.join(work, "libbf.so"); bind = os.path.join(work, "bin"); os.makedirs(bind)
        srcs = [here + "/mc/" + s for s in (src, "mc.cc", "mcfs.cc", "coro.cc")]; objs = [os.path.join(work, os.path.basename(s) + ".o") for s in srcs]
        par([["gcc"] + CF + SAN + ["-shared", "-Wl,-z,now", "-o", lib] + inc + serial_sources(repo) + ["-lm"]]
            + [["gcc"] + CF + SAN + inc + ["-c", "-include", here + "/mc/toolexit.h", "-o", os.path.join(work, t + ".o"), "%s/utils/%s.c" % (repo, t)] for t in tools]
            + [["gcc"] + CF + SAN + inc + ["-c", "-o", os.path.join(work, os.path.basename(x) + ".lo"), x] for x in serial_sources(repo)]
            + [["gcc"] + CF + inc + ["-o", os.path.join(bind, t), "%s/utils/%s.c" % (repo, t)] + serial_sources(repo) + ["-lm"] for t in tools]
            + [["g++"] + CXX + SAN + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)])
        for s in scripts: shutil.copy("%s/utils/%s" % (repo, s), bind); os.chmod(os.path.join(bind, s), 0o755)
        exe = os.path.join(work, src.split(".")[0])
        par([["gcc"] + SAN + ["-shared", "-Wl,-Bsymbolic", "-o", os.path.join(work, t + ".so"), os.path.join(work, t + ".o")] + [os.path.join(work, os.path.basename(x) + ".lo") for x in serial_sources(repo)] + ["-lm"] for t in tools]
            + [["g++"] + SAN + ["-rdynamic", "-o", exe] + objs + ["-L" + work, "-lbf", "-Wl,-rpath," + work, "-ldl", "-lm"]])
        ex = ["--dev", str(dev[0] if tier == "quick" else dev[1])] if dev else []
        return run_harness(pid, exe, work, here, tier, replay, budget[0] if tier == "quick" else budget[1], ex, env=dict(ASAN_OPTIONS=ASAN + ":quarantine_size_mb=1:malloc_context_size=3"))
    return f

def threads_harness(src, dev=None, budget=(400, 3000)):
    """the library compiled with the compiler's instrumentation for races, whose run time is ours (mc/threads.cc); all threads share one copy"""
    def f(pid, repo, here, work, tier, replay):
        inc = ["-I" + repo + "/src", "-I" + here + "/mc"]; lib = os.path.join(work, "libbf0.so"); lsrc = serial_sources(repo); lo = [os.path.join(work, os.path.basename(s) + ".o") for s in lsrc]
        srcs = [here + "/mc/" + s for s in (src, "mc.cc", "mcfs.cc", "coro.cc", "threads.cc")]; objs = [os.path.join(work, os.path.basename(s) + ".o") for s in srcs]
        par([["gcc"] + CF + ["-fsanitize=thread", "-D_GNU_SOURCE", "-include", here + "/mc/tsanwrap.h"] + inc + ["-c", s, "-o", o] for s, o in zip(lsrc, lo)] + [["g++"] + CXX + inc + ["-c", s, "-o", o] for s, o in zip(srcs, objs)])
        exe = os.path.join(work, src.split(".")[0])
        par([["gcc", "-shared", "-Wl,-Bsymbolic", "-o", lib] + lo + ["-lm"], ["g++", "-rdynamic", "-o", exe] + objs + ["-ldl", "-lm"]])
        return run_harness(pid, exe, work, here, tier, replay, budget[0] if tier == "quick" else budget[1], ["--dev", str(dev[0] if tier == "quick" else dev[1])] if dev else [])
    return f

VENV = "/opt/bigfile-venv/bin/python"
def python_harness(src, budget=(400, 3000)):
    """the Python package of the working tree, its extension compiled with the sanitizer, driven by a harness in Python"""
    def f(pid, repo, here, work, tier, replay):
        pkg = os.path.join(work, "pkg", "bigfile"); os.makedirs(pkg); so = os.path.join(pkg, "pyxbigfile.so"); c = os.path.join(work, "pyxbigfile.c")
        for x in glob.glob(repo + "/bigfile/*.py"): shutil.copy(x, pkg)
        inc = ["-I" + repo + "/src", "-I" + here + "/mc"]; lsrc = serial_sources(repo); objs = [os.path.join(work, os.path.basename(x) + ".o") for x in lsrc]; ms = [os.path.join(work, "mcfs-%d.o" % i) for i in range(2)]
        pyinc = subprocess.check_output([VENV, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"]).decode().split()
        par([["gcc"] + CF + SAN + inc + ["-c", "-o", o, x] for x, o in zip(lsrc, objs)] + [["g++"] + CXX + ["-fPIC"] + inc + ["-c", here + "/mc/" + x, "-o", o] for x, o in zip(("mcfs.cc", "pymcfs.cc"), ms)]
            + [[VENV, "-m", "cython", "-o", c, repo + "/bigfile/pyxbigfile.pyx"]])
        par([["gcc"] + CF + SAN + inc + ["-I" + x for x in pyinc] + ["-c", "-o", c + ".o", c], ["g++", "-shared", "-o", os.path.join(work, "libmcfs.so")] + ms])
        par([["gcc"] + SAN + ["-shared", "-o", so, c + ".o"] + objs + ["-lm"]])
        exe = os.path.join(work, src.split(".")[0]); asan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()
        with open(exe, "w") as g: g.write('#!/bin/sh\nexec env LD_PRELOAD=%s PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 ASAN_OPTIONS=$ASAN_OPTIONS:quarantine_size_mb=2:thread_local_quarantine_size_kb=64 PYTHONPATH=%s:%s/mc MCFS=%s/libmcfs.so %s -W ignore %s/mc/%s "$@"\n' % (asan, os.path.dirname(pkg), here, work, VENV, here, src))
        os.chmod(exe, 0o755)
        return run_harness(pid, exe, work, here, tier, replay, budget[0] if tier == "quick" else budget[1])
    return f

def both(a, b, name):
    """two harnesses for one property; the second one's replay files lie in a directory of their own"""
    def f(pid, repo, here, work, tier, replay):
        if replay: return (b if "/%s/" % name in replay else a)(pid, repo, here, work, tier, replay)
        rc, r = a(pid, repo, here, work, tier, None)
        if rc: return rc, r
        w2 = os.path.join(work, name); os.makedirs(w2)
        global SUB; SUB = name
        try: rc, q = b(pid, repo, here, w2, tier, None)
        finally: SUB = ""
        if rc not in (0, 1): return rc, r
        for k in ("executions", "states", "transitions"): r[k] += q[k]
        r["samples"] = (r.get("samples") or [])[:3] + (q.get("samples") or [])[:3]; r[name] = {k: v for k, v in q.items() if k != "samples"}
        return rc, r
    return f

CHECKS = {}
HIST = "stateless model checking: exhaustive enumeration of bounded operation histories on the implementation against a reference model"
def check(pid, runner, level="model_checking", bounds="", assumptions=(), technique=HIST):
    CHECKS[pid] = dict(runner=runner, level=level, bounds=bounds, assumptions=list(assumptions), technique=technique)
MPI = "the MPI library is replaced by one whose calls return as early / as late as the standard permits; ranks are coroutines with their own copy of the library"
SYS = "Linux tmpfs behaves as POSIX; gcc with AddressSanitizer compiles the library as the shipped build does"
check("C01", c_harness("c01.cc"), bounds="histories of 2-3 (thorough 3-4) operations over <=5 rows, <=5 files; 3 sparse giants; 18/258 files", assumptions=[SYS])
check("C02", c_harness("c02.cc"), bounds="sequences of 2-3 (thorough 3-4) seeks/reads/writes, every argument from before the first to beyond the last row, blocks of <=4 rows in <=5 files; 3 sparse blocks of >2^32 rows; every read_simple range", assumptions=[SYS])
check("C05", c_harness("c05.cc"), bounds="arrays of 0-5 and 32 dimensions with <=16 elements, every axis order, sign, padding and broadcast of them, 4 partitions x 3 buffers, 7 type pairs; 10000-element arrays", assumptions=[SYS])
check("C04", c_harness("c04.cc"), bounds="all ordered pairs of 16 types x 4 byte order prefixes each, boundary values, contiguous / strided / >8192 elements, both directions and attributes", assumptions=[SYS])
check("C03", c_harness("c03.cc"), bounds="every division of <=4 rows (20 partitions, 8 types, 3 buffers) into writes, every order of them, with flush / re-open / grow between; 8 attributes; hand written blocks: 6 partitions x 7 types x 4 kinds of attribute files", assumptions=[SYS])
check("C06", c_harness("c06.cc"), bounds="write-once histories of 3-4 (thorough 4-5) operations over <=4 rows + grown ones, 14 partitions, 6 type pairs, 3 buffers; sums beyond 2^16, 2^31 and 2^32", assumptions=[SYS])
check("C07", c_harness("c07.cc"), bounds="sequences of 4 (thorough 5) of 17 operations on 3 names; 1-70 attributes x 5 value sizes x 4 name lengths x 4 orders; all pairs of 12 values; 19 refused settings; legacy files", assumptions=[SYS])
check("C10", c_harness("c10.cc"), bounds="2 blocks: every truncation of every file, every byte x 20 (thorough 256) values, every byte deleted / 7 bytes inserted everywhere, all pairs of hostile header fields, all combinations of hostile attribute fields of both formats, missing / exchanged files", assumptions=[SYS])

check("C17", c_harness("c17.cc"), bounds="sequences of 4 (thorough 5) creations / replacements / grows / re-opens on 7 names; every pair of 6 shapes replaced by each other x fills; every single character as name, names of up to 255 characters and 1500 levels, mixed groups and blocks of up to 40 x 40; 19 refused creations", assumptions=[SYS])

check("C19", c_harness("c19.cc"), bounds="10 types x 5 byte order prefixes: ~1200 integers around every power of two and ten, 20 mantissas x every exponent, all pairs for complex numbers, with signs, leading zeros and text around them, every byte, 14 non-numbers, 25 unsupported types", assumptions=[SYS])

check("C26", c_harness("c26.cc"), bounds="22 kinds of failures x 33 names (percent directives, every length class up to 3700 characters) x 3 earlier messages; every successful call after a failure; sequences of 3 settings of 9 messages", assumptions=[SYS])

check("C18", both(c_harness("c18.cc"), procs_harness("c18m.cc", 5, mpi=True), "collective"), bounds="all record types of <=4 (thorough 5) fields of 7 kinds x 3 ways of building them; 5 types x 3 buffers x with/without conversion: every sequence of 3 (thorough 4) creations / appends / writes / reads at every row of <=7; 5-32 fields; collectively: 1-3 (thorough 4) ranks, 3 types, a creation and every sequence of 2 (thorough 3) of 9 operations, 3 distributions, with and without aggregation and throttling, early / late collectives", assumptions=[SYS, MPI])

FAULT = "stateless model checking with exhaustive fault injection: every system call of every bounded history fails in every way"
CRASH = "stateless model checking with exhaustive crash points: every mutating system call and torn write of every bounded history"
check("C09", c_harness("c09.cc", extra_src=("mcfs.cc",), dev=(1, 2)), level="fault_enumeration", bounds="all sequences of 3 of 14 operations, 8 longer histories, blocks of 300 files / 40 attributes; at every system call: each of its errors, once or from then on, short transfers, device full after one byte; one fault per history (thorough two)", assumptions=[SYS, "faults are injected at the system call boundary (seccomp)"], technique=FAULT)

check("C08", c_harness("c08.cc", extra_src=("mcfs.cc",), dev=(1, 1)), level="fault_enumeration", bounds="all sequences of 3 (thorough 4) of 14 operations, 7 longer histories, header and attribute files larger than a buffer, with and without legacy attributes; crash before every mutating system call and inside every write (7 split points; thorough every byte up to 96)", assumptions=[SYS, "a crash stops the process; completed system calls survive (no power loss)"], technique=CRASH)

SCHED = "stateless model checking of the implementation: dynamic partial-order reduction over all interleavings of the processes"
check("C12", procs_harness("c12.cc", 3), bounds="2-3 processes, 4 rows in 5 partitions, 8 divisions into ranges, 3 buffers; 7 sets of blocks created together under new parents; 8 writer activities x 1-2 readers: every interleaving of their file system calls up to commutation of independent ones", assumptions=[SYS, "system calls are atomic; processes are coroutines with their own copy of the library"], technique=SCHED)

check("C13", procs_harness("c13.cc", 5, mpi=True), bounds="1-4 (thorough 5) ranks, every distribution of 0, 1, 3 (4 ranks: 0-2) rows over them, 5 concurrency limits, 4 aggregation thresholds, 4 partitions of 9 rows, 5 type pairs, 3 array layouts, early / late collectives, all interleavings of the file system calls", assumptions=[SYS, MPI], technique=SCHED)

check("C16", procs_harness("c16.cc", 6, mpi=True), bounds="1-4 (thorough 5) ranks: count matrices of 0-4 elements x 3 policies x 8 combinations of omitted arguments x 3 layouts x 2 types; 1-5 ranks: every count of 0-3, every root; every assignment of 3-4 values; every assignment of 3-4 sizes x 6 segment sizes x all group numbers, with and without second sizes", assumptions=[SYS, MPI], technique=SCHED)

check("C14", procs_harness("c14.cc", 5, mpi=True, dev=(1, 2)), bounds="1-3 (thorough 4) ranks: open, create, grow, read / write of 0-2 rows per rank at 3 positions, records, flush (repeated after a failure); 27 natural failures; every file system call of every rank failing or partial (thorough: two of them, and every order of the calls), with and without aggregation and throttling, early / late collectives", assumptions=[SYS, MPI], technique=FAULT)
check("C15", procs_harness("c15.cc", 5, mpi=True), bounds="1-3 (thorough 4) ranks: open or create followed by every sequence of 3 (thorough 4) of 11 collective operations, 4 layouts, with and without aggregation and throttling, early / late collectives", assumptions=[SYS, MPI], technique=SCHED)
check("C24", procs_harness("c24.cc", 6, mpi=True, dev=(1, 1), tool="utils/bigfile-copy-mpi.c"), bounds="1-4 (thorough 5) ranks, 0-5 (thorough 6) rows, buffers of less than one to 2 rows and the default, 1-4 files, into the same and another file, buffered / synchronous messages, every arrival order of the messages (wildcard receives) up to commutation; every system call of every rank failing or partial, 6 natural failures", assumptions=[SYS, MPI], technique=SCHED)

check("C25", tools_harness("c25.cc", ("bigfile-cat", "bigfile-create", "bigfile-ls", "bigfile-get-attr", "bigfile-set-attr"), scripts=("bigfile-check",)), bounds="the six tools: 14 types, rows of 1-3 elements, 0-4 (thorough 6) rows in 1-3 files, every offset and count, 6 buffer sizes, text and binary; 0-5 rows from a stream; 6 trees for listing; attributes of every printable type, 20 values to set over 6 previous states with every -n; every system call of every tool failing or partial; full output devices, unreadable input, damaged, truncated and missing files", assumptions=[SYS], technique=FAULT)

check("C23", tools_harness("c23.cc", ("bigfile-copy", "bigfile-ls"), scripts=("bigfile-repartition", "bigfile-rename", "bigfile-rm")), bounds="bigfile-copy: 5 types, 7 layouts with empty files, 6 numbers of files, 5 buffer sizes, 6 destinations (same and other file, existing and new, onto itself, inside itself); every system call of it failing or partial in every way, a crash before every change with torn writes; repartition, rename and rm for 4 (thorough 6) blocks and 4-5 requests: every call that changes a file failing with either of two errors, killing its process, or killing everything; repartitioning 2-4 blocks at once, with a fault at every call for one of them", assumptions=[SYS], technique=CRASH)

check("C11", threads_harness("c11.cc", dev=(1, 2)), bounds="2-3 (thorough 4) threads, all combinations of 13 programs (create, shared block, failures, listing, conversion, records, attributes, grow, damaged blocks) on separate handles: every interleaving of file system calls and of accesses to memory that several threads can reach, up to commutation; besides, first, every schedule with one (thorough two) preemptions at such accesses", assumptions=[SYS, "memory is sequentially consistent", "threads are coroutines sharing one copy of the library, whose memory accesses are seen through the compiler's instrumentation and stand-ins for the C library"], technique=SCHED)

PY = "the extension compiled with AddressSanitizer behaves as the shipped build does; Python 3.12 and numpy 1.26 as installed"
check("C20", python_harness("c20.py"),
      bounds="7 (thorough 10) types x rows of 1 or 3 numbers x 6 (9) layouts of <= 4 (5) rows in <= 5 files: every index (integers of several types, slices -n-2..n+2, ellipsis, steps), ~20 kinds of values set at each, every read and write at every start and length with every buffer layout and type; create_from_array x number of files x memory limit x array layout; every sequence of 3 (4) of 10 operations on 3 names; 17 operations with every system call failing or partial once; closed columns", assumptions=[SYS, PY])
check("C21", python_harness("c21.py"),
      bounds="49 attribute values each replaced by every other and by 5 that are refused, every sequence of 3 (thorough 4) attribute operations, every system call of the close failing once; datasets: every ordered subset of <= 4 columns x every slice, scalar, tuple form and read range, every sequence of 3 (2) operations; pickles: every sequence of 4 or 3 (5 or 4) of 9 operations x 6 ways of copying, pickled files, every system call of unpickling failing once", assumptions=[SYS, PY])
check("C22", python_harness("c22.py"),
      bounds="~27 collective operations, all pairs and chosen longer scripts, 1-3 (thorough 4) ranks, 3 distributions of the rows, collectives that synchronize early or late, 2 base orders of the ranks, every schedule with one deviation at communication calls; every system call of every rank failing once; the files compared byte for byte with those of serial execution", assumptions=[SYS, PY], technique=SCHED)

WRAP = tuple("-Wl,--wrap=" + x for x in "malloc calloc realloc reallocarray free strdup strndup __strdup __strndup asprintf vasprintf scandir scandir64 getline getdelim realpath posix_memalign aligned_alloc getcwd".split())
check("C27", both(c_harness("c27.cc", extra_src=("mcfs.cc", "memtrack.cc"), dev=(1, 2), ldflags=WRAP), procs_harness("c27m.cc", 5, mpi=True, extra_src=("memtrack.cc",), dev=(1, 1), ldflags=WRAP), "collective"), level="fault_enumeration",
      bounds="serial: every sequence of 3 of 16 kinds of operations (open, create over, write, read, attributes, grow, flush, pack, list, records, refused calls, malformed headers and attributes, messages), six longer histories, a block of many files; every system call failing or partial once (thorough: twice); collective: every pair of 4 operations x 3 ways of obtaining the block x 4 kinds of misuse, 1-3 (4) ranks, thresholds, concurrency; records; alltoallv, gather, scatter and the segmenter with every vector of counts 0-2; every system call of every rank failing once, every schedule with one deviation", assumptions=[SYS, MPI], technique=FAULT)

def run(pid, repo, here, work, tier, replay):
    c = CHECKS[pid]
    try: rc, r = c["runner"](pid, repo, here, work, tier, replay)
    except BuildError as e:
        print("BUILD FAILED: %s" % e, file=sys.stderr); return 2, {"explanation": "build failed"}, []
    cov = {}
    if r:
        ex = r.pop("executions"); st = r.pop("states"); tr = r.pop("transitions"); samples = r.pop("samples", [])
        r.pop("rc", None)
        if c["level"] == "model_checking":
            cov = dict(states=st, transitions=tr, traces_validated_against_impl=ex, samples=samples or ["(none)"])
        else:
            cov = dict(evaluations=ex, distinct_nontrivial=st, rule=c["bounds"], samples=samples or ["(none)"])
        cov["bounds"] = c["bounds"]; cov["explored_on"] = "the implementation itself: every execution counted is a run of the code built from /repo"
        cov.update(r)
    else: cov = {"explanation": "no result"}
    return rc, cov, c["assumptions"]
