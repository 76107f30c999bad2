"""The generic check: model checking of a family, then replay of specification behaviours into the real code."""
import json, os, random, re, time, threading, sys
import engine
from engine import WORK, java, oracle, conform, CheckError, VERIF, Builder
from exprs import *
from gen import uses
import corpus

# what each property speaks about
FIELDS = {
    "C01": "ok pos", "C02": "ok pos val lok lpos", "C03": "lok lpos lval llog parity", "C04": "type", "C05": "pos val lpos place", "C06": "ok pos val type lok lpos", "C07": "ok pos val lok lpos type",
    "C08": "ok pos val lok lpos type", "C09": "ok pos val type lok lpos", "C10": "ok pos val type lok lpos", "C11": "ok pos val lok lpos", "C12": "ok pos val type lok lpos log", "C13": "ok pos val type lok lpos log llog",
    "C14": "log llog", "C15": "ok pos val lok lpos type", "C16": "ok pos val lok lpos", "C17": "ok pos val lok lpos place", "C18": "ok pos val type lok lpos log llog", "C20": "ok pos val log lok lpos place",
    "C21": "ok pos val type log", "C22": "ok pos val lok lpos",
}

def ndlines(path):
    with open(path) as f: return [json.loads(l) for l in f if l.strip()]

class ModelStats:
    def __init__(self): self.states = self.distinct = self.depth = 0; self.programs = 0; self.actions = {}; self.seconds = 0

def family(prop, scale, name=None):
    """the grammars of the property's family, as enumerated by the specification"""
    out = os.path.join(WORK.dir, "fam_%s_%d" % (prop, scale))
    rc, txt = java("Export.tla", "Export.cfg", {"TOK_PROP": prop, "TOK_SCALE": str(scale), "TOK_OUT": out}, timeout=900)
    if rc != 0: raise CheckError("family export failed:\n" + errtail(txt))
    ls = ndlines(out)
    ls.sort(key=lambda l: json.dumps([l["main"], l["rules"]], sort_keys=True))
    return ls

def model_check(prop, fam, scale, workers=4, timeout=800, spec="MC.tla", cfg="MC.cfg", coverage=False):
    """TLC on the machine, for every grammar in fam"""
    st = ModelStats(); t0 = time.time()
    path = os.path.join(WORK.dir, "mc_%s" % prop)
    with open(path, "w") as f:
        for l in fam: f.write(json.dumps(l) + "\n")
    rc, txt = java(spec, cfg, {"TOK_PROP": prop, "TOK_SCALE": str(scale), "TOK_IN": path}, workers=workers, timeout=timeout, heap="8g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if rc != 0 or "Model checking completed. No error" not in txt or not m:
        raise CheckError("model checking of the specification failed for %s:\n%s" % (prop, errtail(txt)))
    st.states, st.distinct = int(m.group(1)), int(m.group(2))
    d = re.search(r"depth of the complete state graph search is (\d+)", txt)
    st.depth = int(d.group(1)) if d else 0
    st.programs = len(fam); st.seconds = time.time() - t0
    st.inits = len(fam) * len(all_words(FAM_ALPHA.get(prop, [97, 98]), FAM_LEN.get(prop, 4 + scale))) * 2
    return st

def all_words(alpha, n):
    out = [[]]; last = [[]]
    for _ in range(n):
        last = [w + [a] for w in last for a in alpha]; out += last
    return out

FAM_ALPHA = {"C11": [97, 98, 44, 100], "C06": [97, 98, 99, 100, 101]}
FAM_LEN = {"C11": 2, "C06": 2}

def family_progs(prop, fam, scale, rng, limit):
    sel = fam if len(fam) <= limit else rng.sample(fam, limit)
    words = all_words(FAM_ALPHA.get(prop, [97, 98]), FAM_LEN.get(prop, 4 + scale))
    return [Prog(l["main"], [(r["e"], r["rt"]) for r in l["rules"]], w=words, note="family", style=rng.randrange(10**6) if rng.random() < .5 else None) for l in sel]

# ------------------------------------------------------------------------------------------------ comparison
class Mismatch:
    def __init__(self, prog, k, field, exp, got): self.prog, self.k, self.field, self.exp, self.got = prog, k, field, exp, got
    def key(self): return (len(json.dumps(self.prog.main)), 0 if self.k is None else len(self.prog.w[self.k]))
    def show(self):
        w = "" if self.k is None else " on %s" % show_word(self.prog.w[self.k])
        return "%s%s: %s is %s, should be %s" % (self.prog.show(), w, self.field, str(self.got)[:300], str(self.exp)[:300])

def show_word(w):
    return '"' + "".join(chr(x) if 32 <= x < 127 and chr(x) not in '"\\' else "\\x{%d}" % x for x in w) + '"' if len(w) <= 80 else show_word(w[:77]) + "...(%d)" % len(w)

def compare(prop, prog, ty, obs, err, fields=None):
    F = (fields or FIELDS[prop]).split()
    out = []
    if err is not None: return [Mismatch(prog, None, "compiles", "a parser of type " + prog.ty, "does not compile: " + " ".join(l for l in err.split("\n") if "error" in l)[:400])]
    if "type" in F and ty != prog.ty: out.append(Mismatch(prog, None, "type", prog.ty, ty))
    gated = uses(prog.main, ("fil", "joi")) or any(uses(e, ("fil", "joi")) for e, _ in prog.rules)
    for k, w in enumerate(prog.w):
        o = obs.get(k)
        if o is None: out.append(Mismatch(prog, k, "result", "a result", "nothing")); continue
        if o.status == "skipped": continue
        if o.status != "ok": out.append(Mismatch(prog, k, "outcome", "a result", o.status)); continue
        ok, p, val, log, lok, lp, llog = prog.exp[k]
        def chk(f, e, g):
            if e != g: out.append(Mismatch(prog, k, f, e, g))
        okexp = "1" if ok else "0"
        if "ok" in F: chk("success", okexp, o.pok)
        if "pos" in F: chk("position", str(p), o.ppos)
        if "val" in F and o.pok == okexp and ty == prog.ty: chk("value", val, o.pval)
        if "lok" in F: chk("lookahead success", "1" if lok else "0", o.lok)
        if "lpos" in F: chk("lookahead position", str(lp), o.lpos)
        if "lval" in F: chk("lookahead value", "-", o.lval)
        if "log" in F: chk("calls", ";".join(log), o.plog)
        if "llog" in F: chk("calls in lookahead", "", o.llog)
        if "parity" in F and not gated: chk("parse and lookahead", (o.pok, o.ppos), (o.lok, o.lpos))
        if "place" in F: chk("same result wherever the input lies, input unmodified", "", o.extra)
    return out

PUMP_AT = (3, 4, 5, 6, 7)
def pumped(p):
    """Expectations for inputs u v^n x with n far beyond what TLC evaluates: every number of the specification's outcome (position, bounds of spans) is an affine
    function of n, which is checked on what the specification says for n in PUMP_AT; no other part of the outcome may depend on n."""
    u, v, x, counts = p.pump
    ks = [p.w.index(u + v * n + x) for n in PUMP_AT]
    def affine(vals, n):
        steps = set(b - a for a, b in zip(vals, vals[1:]))
        if len(steps) != 1: raise CheckError("outcome of %s is not affine in the length of the input" % p.show())
        return vals[0] + steps.pop() * (n - PUMP_AT[0])
    def outcome(rs, n):
        if isinstance(rs[0], dict): return {k: outcome([r[k] for r in rs], n) for k in rs[0]}
        out = []
        for i in range(len(rs[0])):
            col = [r[i] for r in rs]
            if isinstance(col[0], int) and not isinstance(col[0], bool): out.append(affine(col, n))
            elif isinstance(col[0], str):
                parts = [re.split(r"(\d+)", c) for c in col]
                if any(len(q) != len(parts[0]) or q[::2] != parts[0][::2] for q in parts): raise CheckError("value of %s depends on the length of the input" % p.show())
                out.append("".join(str(affine([int(q[j]) for q in parts], n)) if j % 2 else parts[0][j] for j in range(len(parts[0]))))
            else:
                if any(c != col[0] for c in col): raise CheckError("outcome of %s depends on the length of the input" % p.show())
                out.append(col[0])
        return out
    for n in counts: p.exp.append(outcome([p.exp[k] for k in ks], n)); p.w.append(u + v * n + x)

def run_progs(prop, progs, builder=None, label="b", fields=None):
    """oracle and real code; -> (programs used, runs, mismatches, results)"""
    oracle(progs)
    for p in progs:
        if p.pump and p.valid and len(p.w) == len(p.exp) and p.pump[0] + p.pump[1] * p.pump[3][0] + p.pump[2] not in p.w: pumped(p)
    good = [p for p in progs if p.valid]
    res = conform(good, builder=builder, label=label)
    mm, runs = [], 0
    for p, ty, obs, err in res:
        runs += len(obs)
        mm += compare(prop, p, ty, obs, err, fields)
    return good, runs, mm, res

# ------------------------------------------------------------------------------------------------ verdicts
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.violations = []       # (short text, replay dict)
        self.evidence = {}
        self.known = known_findings(prop)
    def mismatches(self, mm):
        for m in sorted(mm, key=lambda m: m.key()):
            self.violations.append((m.show(), {"kind": "grammar", "main": m.prog.main, "rules": m.prog.rules, "elem": m.prog.elem, "inelem": m.prog.inelem, "style": m.prog.style,
                                               "input": None if m.k is None else m.prog.w[m.k], "field": m.field, "expected": m.exp, "actual": m.got, "cpp": m.prog.cpp("G"), "note": m.prog.note}))
    def add(self, text, **kw): self.violations.append((text, kw))

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def finish(rep, ev):
    """prints the verdict, writes replay files and evidence; returns the exit code"""
    real, seen_known = [], set()
    for text, kw in rep.violations:
        for key, desc in rep.known:
            if key in text: seen_known.add((key, desc)); break
        else: real.append((text, kw))
    for key, desc in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (rep.prop, desc))
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(rep.prop + "-"): os.unlink(os.path.join(rdir, f))
    shown = 0
    fieldseen = {}
    for i, (text, kw) in enumerate(real):
        f = kw.get("field", "")
        fieldseen[f] = fieldseen.get(f, 0) + 1
        if fieldseen[f] > 2 or shown >= 8: continue
        path = os.path.join(rdir, "%s-%d.json" % (rep.prop, shown))
        with open(path, "w") as fh: json.dump(dict(kw, property=rep.prop, text=text), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (rep.prop, path)); print("  " + text[:1200])
        shown += 1
    if real: print("%d violations in all" % len(real))
    write_evidence(rep, ev, len(real))
    return 1 if real else 0

def write_evidence(rep, ev, nviol):
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    e = {"property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": "model_checking", "coverage": ev, "wall_s": round(time.time() - rep.t0, 2), "violations": nviol,
         "assumptions": ["the specification in /verif/spec says what the documentation says (its laws are checked on it, its meaning was reviewed against README and tests)",
                         "gcc 13 compiles the headers faithfully; the user-function library of harness.h is the one of the specification"]}
    with open(os.path.join(d, rep.prop + ".json"), "w") as f: json.dump(e, f, indent=1)

# ------------------------------------------------------------------------------------------------ recorded executions against the machine
def validate_traces(prop, recs, workers=4):
    """recs: (prog, k, Obs).  -> number accepted, mismatches"""
    path = os.path.join(WORK.dir, "tr_%s" % prop)
    with open(path, "w") as f:
        for i, (p, k, o) in enumerate(recs):
            f.write(json.dumps({"id": i, "main": p.main, "rules": [{"e": e, "rt": rt} for e, rt in p.rules], "w": p.w[k], "calls": o.plog.split(";") if o.plog else [], "ok": o.pok == "1", "p": o.ppos, "v": o.pval}) + "\n")
    rc, txt = java("Trace.tla", "Trace.cfg", {"TOK_PROP": prop, "TOK_SCALE": "0", "TOK_IN": path}, workers=workers, timeout=800, heap="6g")
    if rc != 0: raise CheckError("trace validation failed to run:\n" + errtail(txt))
    acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', txt))
    mm = []
    for i, (p, k, o) in enumerate(recs):
        if i not in acc:
            m = re.search(r'<<"REJECT", %d, (\d+)>>' % i, txt)
            n = int(m.group(1)) if m else 0
            calls = o.plog.split(";") if o.plog else []
            mm.append(Mismatch(p, k, "recorded execution", "a behaviour of the machine", "rejected after %d calls (%s)" % (n, "; ".join(calls[max(0, n - 3):n + 1]))))
    st = re.search(r"(\d+) states generated", txt)
    return len(acc), mm, int(st.group(1)) if st else 0

def trace_progs(prop, seed, n):
    """instrumented random grammars"""
    out = []
    for p in corpus.random_progs(prop, seed + 7919, n, words=14):
        if any(rt == "sv" for _, rt in p.rules) or p.elem != "char": continue
        q = Prog(corpus.instrument(p.main), p.rules, w=p.w[:12], note="trace", style=None)
        if len(json.dumps(q.main)) < 5000: out.append(q)
    return out

OTHER = [("g++", ["-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]), ("clang++", ["-O2"])]
def generic(rep, n_family, n_random, n_words=40, n_trace=0, scale=0, mc_limit=200, builder=None, extra_progs=(), n_alt=0):
    prop, rng = rep.prop, random.Random("%s/%d" % (rep.prop, rep.seed))
    ev = {}
    fam = family(prop, scale)
    mc_fam = fam if len(fam) <= mc_limit else rng.sample(fam, mc_limit)
    box = {}
    def mc():
        try: box["st"] = model_check(prop, mc_fam, scale)
        except Exception as e: box["err"] = e
    th = threading.Thread(target=mc); th.start()
    t0 = time.time()
    progs = family_progs(prop, fam, scale, rng, n_family) + corpus.boundary(prop) + corpus.huge(prop) + corpus.random_progs(prop, rep.seed, n_random, n_words) + list(extra_progs)
    good, runs, mm, res = run_progs(prop, progs, builder=builder)
    rep.mismatches(mm)
    nalt = 0
    if n_alt:      # the same with an optimizer, with sanitizers, and with another compiler
        rnd = [p for p in good if p.note == "random" and len(json.dumps(p.main)) < 3000]
        src = rng.sample(rnd, min(len(rnd), n_alt)) + rng.sample([p for p in good if p.note == "boundary"], min(n_alt // 2, sum(p.note == "boundary" for p in good)))
        src += [p for p in good if getattr(p, "everywhere", False) and p not in src]
        for b in OTHER:
            b = Builder(*b)
            for p, ty, obs, err in conform(src, builder=b, label="o" + b.tag):
                runs += len(obs); nalt += len(obs); mm = compare(prop, p, ty, obs, err)
                for m in mm: m.field = "%s (%s %s)" % (m.field, b.cxx, " ".join(b.extra))
                rep.mismatches(mm)
    ntr = trs = 0
    if n_trace:
        tp = trace_progs(prop, rep.seed, n_trace)
        tgood, truns, tmm, tres = run_progs(prop, tp, label="t", fields="")
        rep.mismatches(tmm)
        recs = [(p, k, o) for p, ty, obs, err in tres for k, o in sorted(obs.items()) if o.status == "ok"]
        ntr, tmm2, trs = validate_traces(prop, recs)
        rep.mismatches(tmm2)
        runs += truns
    th.join()
    if "err" in box: raise box["err"]
    st = box["st"]
    ex = [p for p in good if p.note == "random"] or good
    smp = []
    for p in rng.sample(ex, min(4, len(ex))):
        k = rng.randrange(len(p.w)); r = p.exp[k]
        smp.append({"grammar": p.show(), "type": p.ty, "input": show_word(p.w[k]), "parse": [r[0], r[1], r[2]], "calls": r[3], "lookahead": [r[4], r[5]]})
    ev.update({"states": st.distinct + trs, "transitions": st.states - st.inits, "traces_validated_against_impl": runs, "recorded_executions_accepted": ntr, "runs_other_compilers": nalt, "model_grammars": st.programs, "model_depth": st.depth, "grammars_replayed": len(good),
               "grammars_family": sum(p.note == "family" for p in good), "grammars_boundary": sum(p.note == "boundary" for p in good), "grammars_random": sum(p.note == "random" for p in good),
               "family_size": len(fam), "samples": smp})
    return ev, res

def errtail(txt):
    i = txt.find("Error:")
    return txt[i:i + 3000] if i >= 0 else txt[-1500:]
