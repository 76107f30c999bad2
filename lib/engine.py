"""Runs the specification (TLC) on grammars and inputs, builds and runs the same grammars with the real code."""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf, time, hashlib, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TOK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("TOK_JOBS", "8"))

class CheckError(Exception): pass

def java(spec, cfg, env=None, workers=1, timeout=600, extra=(), xss="256m", heap="3g", cwd=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK.dir)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=%s" % os.environ.get("TOK_TIER","4"),
           "-Xss" + xss, "-Xmx" + heap, "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, spec]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise CheckError("TLC did not finish within %d s: %s" % (timeout, " ".join(cmd[-8:])))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

class Work:
    """scratch directory, removed at the end"""
    def __init__(self): self.dir = None
    def start(self):
        self.dir = tempfile.mkdtemp(prefix="tokverif")
        import atexit
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
WORK = Work()

# ------------------------------------------------------------------------------------------------ oracle
def weight(p): return sum(len(w) + 3 for w in p.w) + 5

def oracle(progs, shards=None, timeout=600, module="Oracle"):
    """Fills valid / ty / exp of every program from the specification."""
    if not progs: return
    shards = min(shards or NPROC, max(1, len(progs) // 4 + 1))
    bins = [[] for _ in range(shards)]; load = [0] * shards
    for p in sorted(range(len(progs)), key=lambda i: -weight(progs[i])):
        b = load.index(min(load)); bins[b].append(p); load[b] += weight(progs[p])
    def one(k):
        i, o = os.path.join(WORK.dir, "in%d_%d" % (id(progs), k)), os.path.join(WORK.dir, "out%d_%d" % (id(progs), k))
        with open(i, "w") as f:
            for j in bins[k]: f.write(json.dumps(progs[j].case(j)) + "\n")
        rc, out = java(module + ".tla", module + ".cfg", {"TOK_IN": i, "TOK_OUT": o}, timeout=timeout)
        if rc != 0 or not os.path.exists(o): raise CheckError("specification oracle failed:\n" + out[-3000:])
        n = 0
        for line in open(o):
            r = json.loads(line); n += 1
            p = progs[r["id"]]; p.valid, p.ty = r["valid"], r["ty"]
            p.exp = r["r"] if r["valid"] else None
        if n != len(bins[k]): raise CheckError("specification oracle: %d of %d results" % (n, len(bins[k])))
    with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, range(shards)))

# ------------------------------------------------------------------------------------------------ real code
FLAGS = ["-std=c++20", "-O0", "-fno-var-tracking", "-w", "-ftemplate-depth=2000", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-depth=4000", "-fconstexpr-loop-limit=1000000"]
CLANG_FLAGS = ["-std=c++20", "-U__cpp_concepts", "-D__cpp_concepts=202002L", "-O0", "-w", "-ftemplate-depth=2000", "-fconstexpr-steps=200000000", "-fconstexpr-depth=4000"]
def run_cmd(cmd, timeout, stdin=None):
    try:
        r = subprocess.run(cmd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"

BIG_STACK = ["sh", "-c", 'ulimit -s 1000000 2>/dev/null; exec "$0" "$@"']      # deep recursion must not end for want of stack

class Builder:
    """Precompiled header once, then batches of grammars."""
    def __init__(self, cxx="g++", extra=(), header="harness.h"):
        self.cxx, self.extra, self.header = cxx, list(extra), header
        self.tag = hashlib.md5((cxx + " ".join(extra) + header).encode()).hexdigest()[:8]
        self.inc = os.path.join(WORK.dir, "inc" + self.tag)
        self.ready = False
        self.err = None
    def flags(self): return (CLANG_FLAGS if "clang" in self.cxx else FLAGS) + self.extra + ["-I" + self.inc, "-I" + os.path.join(REPO, "include")]
    def prepare_plain(self):
        """without a precompiled header"""
        os.makedirs(self.inc, exist_ok=True)
        for f in os.listdir(os.path.join(VERIF, "harness")): shutil.copy(os.path.join(VERIF, "harness", f), os.path.join(self.inc, f))
        self.ready = True
    def prepare(self):
        if self.ready: return
        os.makedirs(self.inc, exist_ok=True)
        for f in os.listdir(os.path.join(VERIF, "harness")):
            shutil.copy(os.path.join(VERIF, "harness", f), os.path.join(self.inc, f))
        h = os.path.join(self.inc, self.header)
        if self.cxx == "g++":
            rc, _, err = run_cmd([self.cxx] + self.flags() + ["-x", "c++-header", h, "-o", h + ".gch"], 300)
            if rc != 0: raise CheckError("the library header does not compile with the harness:\n" + err[:3000])
        self.ready = True
    def compile(self, name, text, timeout=400, libs=()):
        src = os.path.join(WORK.dir, name + ".cpp"); exe = os.path.join(WORK.dir, name)
        with open(src, "w") as f: f.write(text)
        rc, _, err = run_cmd([self.cxx] + self.flags() + [src, "-o", exe, *libs], timeout)
        return (exe, "") if rc == 0 else (None, err)

def batch_source(progs, header="harness.h", entry="entry"):
    out = ['#include "%s"' % header]
    for i, p in enumerate(progs): out.append(p.cpp("G%d" % i))
    out.append("static constexpr h::Entry table[] = { %s };" % ", ".join("h::%s<G%d>()" % (entry, i) for i in range(len(progs))))
    out.append("int main() { return h::main_loop(table, %d); }" % len(progs))
    return "\n".join(out) + "\n"

class Obs:
    """What the real code did with one input."""
    __slots__ = ("status", "pok", "ppos", "pval", "plog", "lok", "lpos", "lval", "llog", "extra")
    def __init__(self, status): self.status = status

def run_batch(exe, progs, rows_mode=False):
    """-> types {i: str}, obs {(i, k): Obs}"""
    types, obs = {}, {}
    skip = set(); done = set()
    rows = rows_mode
    for attempt in range(len(progs) + 3):
        lines = []
        for i in range(len(progs)):
            if i in skip: continue
            for k, w in enumerate(progs[i].w):
                if (i, k) not in done: lines.append("%d %d %d %s\n" % (i, k, len(w), " ".join(map(str, w))))
        fn = exe + ".in"
        with open(fn, "w") as f: f.writelines(lines)
        with open(fn) as f: rc, out, err = run_cmd(BIG_STACK + [exe], 300, stdin=f)
        for line in out.split("\n"):
            p = line.split("\t")
            if p[0] == "T" and len(p) == 3: types[int(p[1])] = p[2]
            elif rows and len(p) == 3 and p[2] in ("DONE", "CHANGED"):
                o = obs.setdefault((int(p[0]), int(p[1])), Obs("rows"))
                if not hasattr(o, "extra"): o.extra = []
                if p[2] == "CHANGED": o.extra.append(["CHANGED"])
                else: o.status = "ok"; done.add((int(p[0]), int(p[1])))
            elif len(p) == 3:
                o = Obs(p[2]); obs[(int(p[0]), int(p[1]))] = o; done.add((int(p[0]), int(p[1])))
                if p[2] in ("HANG", "CRASH"): skip.add(int(p[0]))
            elif rows and len(p) > 3:
                o = obs.setdefault((int(p[0]), int(p[1])), Obs("rows"))
                if not hasattr(o, "extra"): o.extra = []
                o.extra.append(p[2:])
            elif len(p) == 11:
                o = Obs("ok")
                o.pok, o.ppos, o.pval, o.plog, o.lok, o.lpos, o.lval, o.llog, o.extra = p[2:]
                obs[(int(p[0]), int(p[1]))] = o; done.add((int(p[0]), int(p[1])))
        if rc == 0: return types, obs
        if rc == 7: continue
        # died without telling where: the first case not done
        for l in lines:
            i, k = map(int, l.split()[:2])
            if (i, k) not in done:
                obs[(i, k)] = Obs("HANG" if rc == -999 else "CRASH"); skip.add(i); break
        else: raise CheckError("harness ended with %d: %s" % (rc, err[:500]))
    return types, obs

def conform(progs, builder=None, per_batch=None, label="b", entry="entry", rows=False):
    """Builds and runs all (valid) programs. Returns list of (prog, type or None, {k: Obs}, compile_error or None)."""
    builder = builder or Builder()
    builder.prepare()
    per = per_batch or max(4, min(24, (len(progs) + NPROC - 1) // NPROC))
    batches = [progs[i:i + per] for i in range(0, len(progs), per)]
    res = []
    lock = threading.Lock()
    def one(b, name, depth=0):
        exe, err = builder.compile(name, batch_source(b, builder.header, entry))
        if exe is None:
            if len(b) == 1: return [(b[0], None, {}, err)]
            h = len(b) // 2
            # find the culprits
            parts = [b[:h], b[h:]] if len(b) > 4 else [[x] for x in b]
            out = []
            for n, q in enumerate(parts): out += one(q, "%s_%d" % (name, n), depth + 1)
            return out
        types, obs = run_batch(exe, b, rows)
        os.unlink(exe)
        return [(p, types.get(i), {k: o for (j, k), o in obs.items() if j == i}, None) for i, p in enumerate(b)]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda t: one(t[1], "%s%d" % (label, t[0])), list(enumerate(batches))): res += r
    return res
