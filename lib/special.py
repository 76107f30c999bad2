"""The properties that need more than one parse of one grammar: constant evaluation, containers and element types, result objects, schedules, examples."""
import json, os, random, re, subprocess, concurrent.futures as cf
import engine, core, corpus
from engine import WORK, java, oracle, conform, CheckError, Builder, run_cmd, NPROC, VERIF, REPO
from core import Mismatch, compare, show_word, errtail
from exprs import *
from gen import uses

# ------------------------------------------------------------------------------------------------ C18: recursion through everything, with either compiler
def plan_rules(rep):
    quick = rep.tier != "thorough"
    ev, _ = core.generic(rep, 120 if quick else 100000, 110 if quick else 1100, 40 if quick else 60, 24 if quick else 200, scale=0 if quick else 1, mc_limit=200 if quick else 1500)
    # how far a compiler looks ahead into a recursive definition differs: optimizing gcc and clang instantiate eagerly
    src = [Prog(q, r, w=[list(map(ord, w)) for w in ("", "a", "ab", "aab", "aabb", "aaabbb", "aba", "a,a,ab", "b", "aaaaaabbbbb")], note="recursion") for q, r in corpus.recursion_shapes()]
    src += [p for p in corpus.random_progs("C18", rep.seed + 31, 40 if quick else 200, 12) if p.rules and not any(rt == "sv" for _, rt in p.rules)]
    oracle(src)
    src = [p for p in src if p.valid]
    n = 0
    for b in (Builder(extra=["-O1"]), Builder("clang++")):
        for p, ty, obs, err in conform(src, builder=b, label="o" + b.tag):
            n += len(obs); mm = compare("C18", p, ty, obs, err, "ok pos val lok lpos log llog")
            for m in mm: m.field = "%s (%s %s)" % (m.field, b.cxx, " ".join(b.extra))
            rep.mismatches(mm)
    ev["traces_validated_against_impl"] += n; ev["grammars_other_compilers"] = len(src)
    return ev

# ------------------------------------------------------------------------------------------------ C16: constant evaluation = run time
def const_source(progs):
    out = ['#include "constexpr.h"']
    for i, p in enumerate(progs):
        T = CPP[p.inelem]
        out.append(p.cpp("G%d" % i))
        for k, w in enumerate(p.w):
            el = ", ".join("h::from_int<%s>(%d)" % (T, x) for x in w)
            # exactly as many elements as the input has (one unused element if it has none)
            out.append("static constexpr %s in_%d_%d[%d] = { %s };" % (T, i, k, max(1, len(w)), el))
            out.append("static constexpr auto c_%d_%d = h::ceval<G%d>(in_%d_%d, %d);" % (i, k, i, i, k, len(w)))
            if p.ty is not None and not any(c in p.ty for c in "vp") and k < 2:
                out.append("static constexpr auto r_%d_%d = G%d::p.parse(h::carrier<%s>::type(in_%d_%d, %d));" % (i, k, i, T, i, k, len(w)))
                out.append("static constexpr auto l_%d_%d = G%d::p.lookahead(h::carrier<%s>::type(in_%d_%d, %d));" % (i, k, i, T, i, k, len(w)))
    out.append("int main() {")
    for i, p in enumerate(progs):
        for k in range(len(p.w)): out.append("h::print_fix(%d, %d, c_%d_%d);" % (i, k, i, k))
    out.append("}")
    return "\n".join(out) + "\n"

def constant_eval(progs, builder, fallback, label="c"):
    """-> list of (prog, {k: fields or 'CUT'}, error)"""
    builder.prepare()
    clang = Builder("clang++", header="constexpr.h")
    per = max(2, min(10, (len(progs) + NPROC - 1) // NPROC))
    batches = [progs[i:i + per] for i in range(0, len(progs), per)]
    def one(b, name):
        exe, err = builder.compile(name, const_source(b))
        if exe is None:
            if len(b) > 1:
                h = len(b) // 2
                return one(b[:h], name + "a") + one(b[h:], name + "b")
            # gcc 13 cannot copy nested arrays of vectors in a constant expression (without this library either): the other compiler decides
            clang.prepare()
            exe, err2 = clang.compile(name + "k", const_source(b))
            if exe is None: return [(b[0], {}, "gcc: " + err + "\nclang: " + err2)]
            fallback.append(b[0])
        rc, out, _ = run_cmd([exe], 60)
        os.unlink(exe)
        res = [{} for _ in b]
        for line in out.split("\n"):
            p = line.split("\t")
            if len(p) >= 3: res[int(p[0])][int(p[1])] = "CUT" if p[2] == "CUT" else p[2:]
        return [(p, r, None) for p, r in zip(b, res)]
    out = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda t: one(t[1], "%s%d" % (label, t[0])), list(enumerate(batches))): out += r
    return out

def plan_constexpr(rep):
    quick = rep.tier != "thorough"
    rng = random.Random("C16/%d" % rep.seed)
    fam = core.family("C16", 0 if quick else 1)
    st = core.model_check("C16", fam, 0 if quick else 1, workers=6)
    progs = core.family_progs("C16", fam, 0, rng, 30 if quick else 400)
    for src, n in (("C16", 40), ("C09", 16), ("C06", 10), ("C08", 14), ("C13", 8), ("C18", 16), ("C21", 14), ("C22", 12), ("C07", 10), ("C11", 6), ("C15", 8), ("C10", 10)):
        progs += corpus.random_progs(src, rep.seed + 31, n if quick else n * 8, 14)
    b = [p for src in ("C01", "C06", "C08", "C09", "C11", "C18", "C21", "C22", "C15", "C07") for p in rng.sample(corpus.boundary(src), 6 if quick else 16)]
    progs += b
    wide = [p for p in corpus.boundary("C11") if p.elem != "char" or p.inelem != "char"]
    progs += [p for p in wide if p.elem in ("struct", "double") and uses(p.main, ("all",))][:8] + rng.sample([p for p in wide if p.inelem != p.elem], 32 if quick else 130) + rng.sample([p for p in wide if p.inelem == p.elem], 16 if quick else 60)
    src = corpus.random_progs("C16", rep.seed + 57, 20 if quick else 200, 14)
    for i, p in enumerate(src):
        el, inel = (MIXED + [(k, k) for k in KINDS])[(i * 7 + rep.seed) % (len(MIXED) + len(KINDS))]
        q = retype(p, el, inel, rng)
        if q is not None: progs.append(q)
    for p in progs:
        p.w = [w for w in p.w if len(w) <= 70]
        if len(p.w) > (6 if quick else 12): p.w = [p.w[0]] + rng.sample(p.w[1:], (5 if quick else 11))
    oracle(progs)
    good = [p for p in progs if p.valid and p.w]
    rt = conform(good)
    run = {id(p): (ty, obs, err) for p, ty, obs, err in rt}
    # what the run-time build refuses altogether is not this property's matter
    cand = [p for p in good if run[id(p)][2] is None and all(o.status == "ok" for o in run[id(p)][1].values())]
    n = agree = 0; fallback = []
    for p, r, err in constant_eval(cand, Builder(header="constexpr.h"), fallback):
        if err is not None:
            rep.mismatches([Mismatch(p, None, "constant evaluation", "possible, as at run time", "not possible: " + " ".join(l for l in err.split("\n") if "error" in l)[:500])]); continue
        for k in range(len(p.w)):
            o = run[id(p)][1].get(k); c = r.get(k)
            if c == "CUT" or o is None: continue
            n += 1
            a = (o.pok, o.ppos, o.pval, o.lok, o.lpos, o.lval)
            if c is None or tuple(c) != a: rep.mismatches([Mismatch(p, k, "result in a constant expression", a, c)])
            e = p.exp[k]
            agree += a == ("1" if e[0] else "0", str(e[1]), e[2], "1" if e[4] else "0", str(e[5]), "-")
    smp = [{"grammar": p.show(), "input": show_word(p.w[-1]), "specification": p.exp[-1][:3]} for p in rng.sample(cand, min(4, len(cand)))]
    return {"states": st.distinct, "transitions": st.states - st.inits, "traces_validated_against_impl": n, "agree_with_specification": agree, "grammars_replayed": len(cand), "decided_by_clang": len(fallback), "model_grammars": st.programs, "samples": smp}

# ------------------------------------------------------------------------------------------------ C17: containers, element types, memory around the input
SIGNED = ["int", "short", "long", "schar", "struct", "enum", "other", "double"]
KINDS = SIGNED + ["uchar", "uint", "wchar_t", "char8_t", "char16_t", "char32_t", "char"]
# grammar element, input element: comparable with each other
MIXED = [("int", "long"), ("long", "short"), ("short", "int"), ("char", "int"), ("int", "char"), ("uchar", "int"), ("int", "uchar"), ("schar", "long"), ("struct", "other"), ("int", "other"), ("uint", "uchar"),
         ("char16_t", "int"), ("int", "char32_t"), ("wchar_t", "int"), ("char32_t", "uchar"), ("short", "schar"), ("char", "wchar_t"), ("wchar_t", "char"), ("double", "int"), ("int", "double"), ("double", "double"), ("char", "double"), ("struct", "struct")]

def all_syms(p):
    out = set()
    def top(x):
        if x["o"] == "s":
            for y in x["m"]: top(y)
            return
        out.update(x.get("s", []))
        for y in x["c"] + x["m"]: top(y)
    top(p.main)
    for e, _ in p.rules: top(e)
    for w in p.w: out.update(w)
    return out

def retype(p, elem, inelem, rng):
    """the same grammar over other element types, or None"""
    if any(rt == "sv" for _, rt in p.rules): return None
    s = all_syms(p)
    small = all(0 <= x < 128 for x in s)
    if not small and not (elem in SIGNED and inelem in SIGNED): return None
    return Prog(p.main, p.rules, elem=elem, inelem=inelem, w=p.w, note="element types", style=rng.randrange(10**6))

def raw_words(p, rng, n):
    """short words with zeros in odd places, derived from the program's own inputs"""
    ws = [w for w in p.w if len(w) <= 6]
    rng.shuffle(ws)
    out = [[], [0]]
    for w in ws[:n]:
        out.append(w)
        r = rng.random()
        if r < .35: out.append(w[:5] + [0])
        elif r < .6: i = rng.randrange(len(w) + 1); out.append((w[:i] + [0] + w[i:])[:6])
        elif r < .7: out.append((w + [0, 0])[:6])
    seen, res = set(), []
    for w in out:
        if tuple(w) not in seen: seen.add(tuple(w)); res.append(w)
    return res

def container_check(rep, progs):
    """-> number of carrier outcomes compared"""
    oracle(progs, module="CarrierOracle")
    good = [p for p in progs if p.valid]
    for p in good:
        if p.pump: core.pumped(p)
    n = 0
    for p, ty, obs, err in conform(good, builder=Builder(header="containers.h"), label="k", entry="centry", rows=True, per_batch=3):
        if err is not None:
            rep.mismatches([Mismatch(p, None, "carriers compile", "yes", "does not compile: " + " ".join(l for l in err.split("\n") if "error" in l)[:500])]); continue
        mm = []
        for k, w in enumerate(p.w):
            o = obs.get(k)
            if o is None or o.status != "ok":
                if o is None or o.status != "skipped": mm.append(Mismatch(p, k, "outcome", "a result on every carrier", "nothing" if o is None else o.status))
                continue
            for row in o.extra:
                if row == ["CHANGED"]: mm.append(Mismatch(p, k, "input", "unmodified", "modified")); continue
                kind, carrier, got = row[0], row[1], row[2:]
                e = p.exp[k][kind]; ok = "1" if e[1] else "0"; lok = "1" if e[4] else "0"
                want = [ok, str(e[2]), e[3], lok, str(e[5]), "-"]
                n += 1
                if carrier.startswith(("empty vector&", "std::array<0>&")): want[2] = got[2] = "-"
                if got != want: mm.append(Mismatch(p, k, "outcome as " + carrier, want, got))
        rep.mismatches(mm)
    return n, good

def plan_containers(rep):
    quick = rep.tier != "thorough"
    rng = random.Random("C17/%d" % rep.seed)
    scale = 0 if quick else 1
    rc, txt = java("CarrierMC.tla", "CarrierMC.cfg", {"TOK_SCALE": str(scale)}, workers=4, timeout=600)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if rc != 0 or "No error" not in txt: raise CheckError("model checking of CarrierMC failed:\n" + core.errtail(txt))
    fam = core.family("C17", scale)
    st = core.model_check("C17", fam if len(fam) <= 200 or not quick else rng.sample(fam, 200), scale, workers=6)
    # same elements, other element types
    src = corpus.random_progs("C17", rep.seed, 60 if quick else 600, 24) + corpus.random_progs("C11", rep.seed + 5, 30 if quick else 300, 24) + corpus.random_progs("C09", rep.seed + 5, 20 if quick else 200, 24)
    progs = core.family_progs("C17", fam, 0, rng, 24 if quick else 400)
    combos = [(k, k) for k in KINDS if k != "other"] + MIXED
    for i, p in enumerate(src):
        for el, inel in rng.sample(combos, 3): 
            q = retype(p, el, inel, rng)
            if q is not None: progs.append(q); break
    progs += [p for p in corpus.boundary("C11") if p.elem != "char"]
    good, runs, mm, _ = core.run_progs("C17", progs)
    rep.mismatches(mm)
    # same elements, every carrier
    cp = []
    for p in core.family_progs("C17", fam, 0, rng, 12 if quick else 150) + corpus.random_progs("C17", rep.seed + 77, 40 if quick else 400, 30) + corpus.random_progs("C09", rep.seed + 78, 12 if quick else 120, 30):
        r = rng.random()
        q = p
        if r > .5: q = retype(p, *rng.choice(combos), rng) or p
        q.w = raw_words(q, rng, 12 if quick else 30); q.note = "carriers"
        cp.append(q)
    for p in corpus.long_carriers():
        for q in [p] + [retype(p, *rng.choice(combos), rng) for _ in range(1 if quick else 6)]:
            if q is not None: q.pump, q.note = p.pump, "carriers"; cp.append(q)
    n, cgood = container_check(rep, cp)
    smp = [{"grammar": p.show(), "element types": [p.elem, p.inelem], "raw elements": p.w[-1], "specification": p.exp[-1]} for p in rng.sample(cgood, min(4, len(cgood)))]
    return {"states": st.distinct + int(m.group(2)), "transitions": st.states - st.inits + int(m.group(1)), "traces_validated_against_impl": runs + sum(len(p.w) for p in cgood) * 2, "carrier_outcomes_distinct": n, "grammars_replayed": len(good) + len(cgood), "model_grammars": st.programs,
            "element_type_pairs": sorted({"%s/%s" % (p.elem, p.inelem) for p in good + cgood}), "samples": smp}

# ------------------------------------------------------------------------------------------------ C19: histories of result objects, equality of spans
def tlc_counts(txt):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def histories(types, depth, slots, start, emit=1, sim=0, seed=1, workers=1):
    extra = ("-noGenerateSpecTE",) + (("-simulate", "num=%d" % sim, "-depth", str(depth + 1), "-seed", str(seed)) if sim else ())
    rc, txt = java("ResultObj.tla", "ResultSim.cfg" if sim else "ResultObj.cfg", {"TOK_TYPES": types, "TOK_DEPTH": str(depth), "TOK_SLOTS": str(slots), "TOK_START": str(start), "TOK_EMIT": str(emit)}, workers=workers, timeout=850, extra=extra, heap="4g")
    if rc != 0 or "Error:" in txt: raise CheckError("ResultObj: " + core.errtail(txt))
    return txt

def plan_results(rep):
    quick = rep.tier != "thorough"
    b = Builder(extra=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"], header="result.h"); b.prepare_plain()
    e = Builder(extra=["-O1"], header="spaneq.h"); e.prepare_plain()
    ex = cf.ThreadPoolExecutor(NPROC)
    fb = ex.submit(b.compile, "res", '#include "result.h"\nint main(int, char** v) { return h::replay(v[1], atoi(v[2])); }\n')
    fe = ex.submit(e.compile, "seq", '#include "spaneq.h"\nint main(int, char** v) { return h::eq_main(v[1]); }\n')
    D = 2 if quick else 3
    jobs = [(t, D, 2, 1, 1, 0) for t in ("tw", "ibo", "uw", "it", "V")] + [("tw", 3, 2, 0, 1, 0), ("V", 3, 2, 0, 1, 0)] + ([] if quick else [("ibo", 3, 2, 0, 1, 0), ("uw", 3, 2, 0, 1, 0), ("it", 3, 2, 0, 1, 0)])
    jobs += [("all", 30, 3, 0, 1, 1000 if quick else 20000), ("all", 14, 2, 0, 1, 2000 if quick else 40000)]
    runs = [(j, ex.submit(histories, *j, rep.seed)) for j in jobs]
    model = ex.submit(histories, "all", 5 if quick else 7, 2, 0, 0, 0, 1, 2)
    sout = os.path.join(WORK.dir, "spaneq.json")
    spaneq = ex.submit(java, "SpanEq.tla", "SpanEq.cfg", {"TOK_SCALE": "0" if quick else "1", "TOK_OUT": sout}, timeout=800)
    exe, err = fb.result()
    nh = ns = states = trans = 0
    if exe is None: rep.add("result objects: the history interpreter does not compile: " + " ".join(l for l in err.split("\n") if "error" in l)[:800], kind="compile", error=err[:6000])
    smp = []
    for j, f in runs:
        txt = f.result(); g, d = tlc_counts(txt); trans += g; states += d
        if exe is None: continue
        path = os.path.join(WORK.dir, "hist"); 
        with open(path, "w") as fh: fh.write(txt)
        rc, out, er = run_cmd([exe, path, str(j[2])], 600)
        c = re.search(r"COUNT\t(\d+)\t(\d+)\t(\d+)", out)
        if c: nh += int(c.group(1)); ns += int(c.group(2))
        for l in out.split("\n"):
            p = l.split("\t")
            if p[0] == "BAD": rep.add("result objects after %s: observed '%s', should be '%s'" % (p[1].replace("|*", ""), p[3], p[2]), kind="history", history=p[1], expected=p[2], actual=p[3], field="history")
        if rc != 0 or not c: rep.add("result objects: the replay of histories (types %s, depth %d) ended abnormally (%d): %s" % (j[0], j[1], rc, er[:600].replace("\n", " ")), kind="history", types=j[0], stderr=er[:4000], field="crash")
        hs = re.findall(r'"H:(.*?)"', txt[:200000])
        if hs and len(smp) < 3: smp.append({"history": hs[len(hs) // 2][:600]})
    g, d = tlc_counts(model.result()); trans += g; states += d
    rc, txt = spaneq.result()
    if rc != 0: raise CheckError("SpanEq: " + core.errtail(txt))
    ine = os.path.join(WORK.dir, "spaneq.txt"); pairs = 0
    with open(ine, "w") as f:
        for r in core.ndlines(sout):
            pairs += 1
            f.write(" ".join(map(str, [len(r["s"]), *r["s"], len(r["t"]), *r["t"]])))
            for m in ("c", "r"): f.write(" %d " % len(r[m]) + " ".join("%s %d" % kv for kv in r[m].items()))
            f.write("\n")
    exe, err = fe.result(); ne = 0
    if exe is None: rep.add("equality of spans: the comparisons do not compile: " + " ".join(l for l in err.split("\n") if "error" in l)[:800], kind="compile", error=err[:6000])
    else:
        rc, out, er = run_cmd([exe, ine], 600)
        c = re.search(r"COUNT\t(\d+)\t(\d+)", out)
        for l in out.split("\n"):
            p = l.split("\t")
            if p[0] == "BAD": rep.add("equality of spans, %s: is %s, should be %s" % (p[1], p[3], p[2]), kind="span equality", case=p[1], expected=p[2], actual=p[3], field="equality")
        if rc != 0 or not c: rep.add("equality of spans: a comparison ended abnormally (%d): reads outside its range?" % rc, kind="span equality", field="crash")
        else: ne = int(c.group(1))
    return {"states": states, "transitions": trans, "traces_validated_against_impl": nh, "steps_compared": ns, "span_pairs": pairs, "span_comparisons": ne, "samples": smp}

# ------------------------------------------------------------------------------------------------ C20: schedules
def par_source(progs):
    out = ['#include "par.h"']
    for i, p in enumerate(progs): out.append(p.cpp("G%d" % i))
    out.append("static constexpr h::TaskFn fns[] = { %s };" % ", ".join("&h::task_of<G%d>" % i for i in range(len(progs))))
    out.append("int main(int c, char** v) { return h::par_main(fns, c, v); }")
    return "\n".join(out) + "\n"

def ren_exp(e, look):
    ok, p, val, log, lok, lp, llog = e
    return "%d\t%d\t%s\t%s" % ((1 if lok else 0, lp, "-", "") if look else (1 if ok else 0, p, val, ";".join(log)))

def plan_schedules(rep):
    quick = rep.tier != "thorough"
    rng = random.Random("C20/%d" % rep.seed)
    scale = 0 if quick else 1
    ev, _ = core.generic(rep, 60 if quick else 100000, 60 if quick else 1100, 24, 0, scale=scale, mc_limit=120 if quick else 1500)
    # grammars that call user functions, instrumented with probes
    src = [p for p in corpus.random_progs("C20", rep.seed + 3, 44 if quick else 300, 30) + corpus.random_progs("C14", rep.seed + 4, 16 if quick else 100, 30) + corpus.random_progs("C18", rep.seed + 4, 20 if quick else 150, 30) + corpus.random_progs("C21", rep.seed + 4, 16 if quick else 150, 30) if p.elem == "char"] + corpus.callers() + corpus.every_kind()
    progs = []
    for p in src:
        if any(rt == "sv" for _, rt in p.rules): continue
        progs.append(Prog(corpus.instrument(p.main) if rng.random() < .7 else p.main, p.rules, w=[w for w in p.w if len(w) <= 24], note="schedule"))
    progs = [p for p in progs if p.w and len(json.dumps(p.main)) < 4000]
    oracle(progs)
    progs = [p for p in progs if p.valid]
    # batches of programs: scenarios pick within a batch
    per = 10
    rng.shuffle(progs)
    progs.sort(key=lambda p: not p.rules)
    nb = (len(progs) + per - 1) // per
    batches = [progs[i::nb] for i in range(nb)]       # user-defined parsers in every batch, first
    def calls(p, k): return len(p.exp[k][3])
    small, large, where = [], [], {}
    def task(p, b, lo, hi):
        c = [k for k in range(len(p.w)) if lo <= calls(p, k) <= hi]
        if not c: return None
        k = rng.choice(c); look = rng.random() < .1
        return {"p": p, "k": k, "look": look, "calls": 0 if look else calls(p, k)}
    def scenario(b, kind):
        p1 = rng.choice(b); p2 = p1 if rng.random() < .5 else rng.choice(b)
        if kind == "small": ts = [task(p1, b, 0, 3), task(p2, b, 0, 3), task(rng.choice([p1, p2]), b, 0, 2)]; nth, nn = 2, 1
        elif kind == "three": ts = [task(p1, b, 0, 2), task(p2, b, 0, 2), task(rng.choice(b), b, 0, 1)]; nth, nn = 3, 0
        else: ts = [task(p1, b, 2, 20), task(p2, b, 1, 20), task(rng.choice(b), b, 1, 12)] + [task(rng.choice([p1, p2]), b, 1, 8) for _ in range(3)]; nth, nn = 3, 3
        if None in ts: return None
        return ts, nth, nn
    nid = 0
    for bi, b in enumerate(batches):
        for kind, n in (("small", 7), ("three", 3), ("large", 5)):
            got = 0
            for _ in range(n * 6):
                s = scenario(b, kind)
                if s is None: continue
                ts, nth, nn = s
                total = sum(t["calls"] for t in ts)
                if kind != "large" and total > 6: continue       # the number of schedules is exponential in it
                used = []
                for t in ts:
                    if not any(t["p"] is q for q in used): used.append(t["p"])
                line = {"id": nid, "progs": [{"main": q.main, "rules": [{"e": e, "rt": rt} for e, rt in q.rules]} for q in used],
                        "tasks": [{"g": 1 + [q is t["p"] for q in used].index(True), "w": t["p"].w[t["k"]], "md": "L" if t["look"] else "P"} for t in ts],
                        "threads": list(range(1, nth + 1)), "nested": list(range(nth + 1, nth + nn + 1)), "throws": 2 if kind == "large" else got % 2 if total <= 5 else 0}
                (large if kind == "large" else small).append(line); where[nid] = (bi, ts, nth, kind); nid += 1; got += 1
                if got == n: break
    def par(lines, cfg, emit, sim, name, workers=1):
        path = os.path.join(WORK.dir, name)
        with open(path, "w") as f:
            for l in lines: f.write(json.dumps(l) + "\n")
        extra = ("-noGenerateSpecTE",) + (("-simulate", "num=%d" % sim, "-depth", "200", "-seed", str(rep.seed)) if sim else ())
        rc, txt = java("Par.tla", cfg, {"TOK_IN": path, "TOK_EMIT": emit}, workers=workers, timeout=850, extra=extra, heap="6g")
        if rc != 0 or "Error:" in txt: raise CheckError("Par: " + core.errtail(txt))
        return txt
    sch = {i: set() for i in where}
    with cf.ThreadPoolExecutor(6) as ex:
        n = 3
        fs = [ex.submit(par, small[i::n], "ParEmit.cfg", "1", 0, "par_s%d" % i) for i in range(n)] + [ex.submit(par, small[::3 if quick else 1], "Par.cfg", "0", 0, "par_m", 1), ex.submit(par, large, "ParSim.cfg", "1", 600 if quick else 20000, "par_l")]
        # the programs are compiled meanwhile
        b = Builder(extra=["-O1", "-pthread"], header="par.h"); ts_ = Builder(extra=["-O1", "-pthread", "-fsanitize=thread"], header="par.h"); b.prepare(); ts_.prepare_plain()
        def build(i, bu, name):
            return bu.compile("%s%d" % (name, i), par_source(batches[i]))
        bs = [ex.submit(build, i, b, "par") for i in range(len(batches))]
        tsan = [ex.submit(build, i, ts_, "tsan") for i in (range(len(batches)) if not quick else rng.sample(range(len(batches)), min(2, len(batches))))]
        states = trans = 0
        for f in fs:
            txt = f.result(); g, d = tlc_counts(txt); states += d; trans += g
            for m in re.finditer(r'"P:(\d+)\|([^"]*)"', txt): sch[int(m.group(1))].add(m.group(2))
        bs = [f.result() for f in bs]; tsan = [f.result() for f in tsan]
    cap = 60 if quick else 2000
    counts = [0, 0, 0, 0, 0]; pool = {}
    def run(bi, exe, name, sched, rounds):
        path = os.path.join(WORK.dir, "scn_%s%d" % (name, bi))
        with open(path, "w") as f:
            for i, (b_, ts, nth, kind) in sorted(where.items()):
                if b_ != bi: continue
                f.write("S%d %d %s\n" % (i, nth, " ".join(map(str, range(nth)))))
                for t in ts:
                    w = t["p"].w[t["k"]]
                    f.write("K%d %d %d %s\t%s\n" % ([q is t["p"] for q in batches[bi]].index(True), t["look"], len(w), " ".join(map(str, w)), ren_exp(t["p"].exp[t["k"]], t["look"])))
                if sched:
                    ss = sorted(sch[i])
                    for x in (ss if len(ss) <= cap else random.Random(i).sample(ss, cap)): f.write("R%s\n" % x)
            pool.setdefault(bi, [])
            for g, p in enumerate(batches[bi]):
                # by length: inputs with the same place and size but different content follow each other
                for k in sorted(range(len(p.w)), key=lambda k: len(p.w[k])):
                    for look in (0, 1):
                        w = p.w[k]; pool[bi].append((p, k, look))
                        f.write("W%d %d %d %s\t%s\n" % (g, look, len(w), " ".join(map(str, w)), ren_exp(p.exp[k], look)))
        return run_cmd([exe, path, str(rounds), str(rep.seed)], 800) + (bi, name)
    jobs = []
    for bi, (exe, err) in enumerate(bs):
        if exe is None: rep.add("programs for schedules do not compile: " + " ".join(l for l in err.split("\n") if "error" in l)[:800], kind="compile", error=err[:4000], field="compile"); continue
        jobs.append((bi, exe, "p", True, 1500 if quick else 20000))
    for exe, err in tsan:
        if exe is None: raise CheckError("no thread sanitizer build: " + "\n".join(l for l in err.split("\n") if "error" in l)[:1500] + "\n" + err[-3000:])
        jobs.append((int(re.search(r"tsan(\d+)$", exe).group(1)), exe, "t", False, 250 if quick else 2000))
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(lambda j: run(*j), jobs))
    for rc, out, er, bi, name in rs:
        c = re.search(r"COUNT\t(\d+)\t(\d+)\t(\d+)\t(\d+)\t(\d+)\t(\d+)", out)
        if c:
            for k in range(5): counts[k] += int(c.group(k + 1 + k // 3))
        for l in out.split("\n"):
            q = l.split("\t")
            if q[0] == "BAD" and len(q) == 7:
                i, k = int(q[2]), int(q[3])
                if i < 0:
                    p = batches[bi][int(q[4].split(":")[0])]
                    rep.add("%s on an input of the grammar, parsed in memory that held others before: is %s, should be %s" % (p.show(), q[6], q[5]), kind="reused", main=p.main, rules=p.rules, words=p.w, expected=q[5], actual=q[6], field="memory used before")
                    continue
                t = where[i][1][k]
                rep.add("%s: %s on %s under schedule [%s] of scenario with %s: is %s, should be %s" % (q[1], t["p"].show(), show_word(t["p"].w[t["k"]]), q[4], "; ".join("%s on %s" % (x["p"].show(), show_word(x["p"].w[x["k"]])) for x in where[i][1] if x is not t)[:600], q[6], q[5]),
                        kind="schedule", schedule=q[4], tasks=[{"main": x["p"].main, "rules": x["p"].rules, "w": x["p"].w[x["k"]], "look": x["look"]} for x in where[i][1]], task=k, expected=q[5], actual=q[6], field=q[1])
            elif q[0] in ("HANG", "CRASH"): rep.add("running the schedules ended in a %s (scenario %s)" % (q[0].lower(), q[1]), kind="schedule", field=q[0])
        if "ThreadSanitizer: data race" in er:
            i = er.index("ThreadSanitizer: data race")
            rep.add("parses on several threads race: " + " ".join(er[i:i + 1500].split())[:900], kind="race", report=er[i:i + 6000], field="race")
        elif rc != 0 and not c and "HANG" not in out and "CRASH" not in out:
            if name == "t": raise CheckError("thread sanitizer run: " + er[:1500])
            rep.add("running the schedules ended abnormally (%d): %s" % (rc, er[:400]), kind="schedule", field="crash")
    ev["states"] += states; ev["transitions"] += trans; ev["traces_validated_against_impl"] += counts[0]
    ev.update({"schedules_replayed": counts[0], "parses_nested_in_calls": counts[1], "parses_run_freely_on_6_threads": counts[2], "parses_left_by_an_exception_in_a_row": counts[3], "parses_in_memory_used_before": counts[4], "scenarios": len(where), "schedules_enumerated": sum(len(x) for x in sch.values()), "race_detector_builds": len(tsan)})
    ev["samples"].append({"schedule": next(iter(sorted(sch[max(sch, key=lambda i: len(sch[i]))])), ""), "of": len(sch[max(sch, key=lambda i: len(sch[i]))])})
    return ev

# ------------------------------------------------------------------------------------------------ C23: the examples
def json_peg():
    """the grammar of examples/json/json.cpp"""
    ws = mod(star(any_(" \n\r\t")), ign); digit = any_("0123456789")
    hexd = any_("0123456789ABCDEFabcdef")
    nat = or_(all_("0"), mod(seq(any_("123456789"), star(digit)), joi))
    integer = mod(seq(oreps(all_("-")), nat), joi)
    frac = mod(seq(ignl("."), plus(digit)), joi)
    exp = mod(seq(mod(any_("Ee"), ign), oreps(any_("-+")), plus(digit)), joi)
    number = seq(integer, opt(frac), opt(exp))
    hx = mod(seq(all_("u"), mod(hexd, exa(4))), joi)
    control = or_(any_('"\\/bfnrt'), hx)
    vc = or_(none_('"\\'), mod(seq(all_("\\"), control), joi))
    string = seq(ignl('"'), mod(star(vc), joi), ignl('"'))
    value = seq(ws, or_(mod(string, mp("mK", 1)), mod(number, mp("mK", 2)), mod(rule(2), mp("mK", 3)), mod(rule(3), mp("mK", 4)), all_("true"), all_("false"), all_("null")), ws)
    pair = seq(ws, string, ws, ignl(":"), rule(1))
    obj = seq(ignl("{"), or_(mod(pair, dele(all_(","))), ws), ignl("}"))
    arr = seq(ignl("["), or_(mod(rule(1), dele(all_(","))), ws), ignl("]"))
    rules = [{"e": value, "rt": "rb"}, {"e": obj, "rt": "rb"}, {"e": arr, "rt": "rb"}]
    return rules, number, string

def calc_peg():
    """the grammar of examples/algebraic/parser.h"""
    ws = mod(star(any_("\t\n\r ")), ign); dgt = any_("0123456789")
    num = seq(mod(plus(dgt), joi), opt(mod(seq(ignl("."), plus(dgt)), joi)), opt(mod(seq(mod(any_("Ee"), ign), opt(all_("-")), plus(dgt)), joi)))
    pw = or_(mod(seq(ignl("("), ws, rule(1), ws, ignl(")")), mp("mK", 1)), mod(seq(ignl("-"), ws, rule(1)), mp("mK", 2)), mod(num, mp("mK", 3)))
    fac = mod(seq(ws, rule(4)), dele(seq(ws, any_("^"))))
    trm = mod(seq(ws, rule(3)), delk(seq(ws, any_("*/"))))
    exp = mod(seq(ws, rule(2)), delk(seq(ws, any_("+-"))))
    return mod(seq(ws, rule(1), ws), com), [{"e": e, "rt": "rb"} for e in (exp, trm, fac, pw)]

class TextGen:
    def __init__(self, rng): self.r = rng
    def ws(self, p=.25): return "".join(self.r.choice(" \n\t\r") for _ in range(self.r.randint(1, 3))) if self.r.random() < p else ""
    def digits(self, n=3): return "".join(self.r.choice("0123456789") for _ in range(self.r.randint(1, n)))
    def jnum(self):
        r = self.r
        return r.choice(["", "", "-"]) + (r.choice(["0", str(r.randint(1, 999)), str(r.randint(1, 9)) + self.digits(20)])) + ("." + self.digits() if r.random() < .3 else "") + (r.choice("eE") + r.choice(["", "+", "-"]) + self.digits(2) if r.random() < .3 else "")
    def jstr(self):
        r = self.r; out = '"'
        for _ in range(r.choice([0, 1, 2, 3, 8, 40])):
            out += r.choice([r.choice("abc{}[],:0 '\n"), r.choice("abc"), chr(r.randint(0, 255)) , "\\" + r.choice('"\\/bfnrt'), "\\u" + "".join(r.choice("0123456789ABCDEFabcdef") for _ in range(4))]) if r.random() < .7 else "x"
        return "".join(c if c not in '"' or i == 0 else c for i, c in enumerate(out)) + '"'
    def jval(self, d):
        r = self.r
        if d <= 0 or r.random() < .3: c = r.choice([self.jnum, self.jstr, lambda: r.choice(["true", "false", "null"])])()
        elif r.random() < .5: c = "{" + (",".join(self.ws() + self.jstr() + self.ws() + ":" + self.jval(d - 1) for _ in range(r.randint(1, 4))) if r.random() < .85 else self.ws()) + "}"
        else: c = "[" + (",".join(self.jval(d - 1) for _ in range(r.randint(1, 5))) if r.random() < .85 else self.ws()) + "]"
        return self.ws() + c + self.ws()
    def cnum(self):
        r = self.r
        return str(r.choice([r.randint(0, 9), r.randint(0, 9), r.randint(0, 99), 0, 1, 2, 10, "007"])) + ("." + r.choice(["5", "25", "0", "125", "1", "50"]) if r.random() < .2 else "") + (r.choice("eE") + r.choice(["", "-"]) + str(r.choice([0, 1, 2, 3])) if r.random() < .12 else "")
    def cexp(self, d):
        r = self.r
        f = lambda k: self.ws(.15) + self.cpow(k)
        out = ""
        for i in range(r.choice([1, 2, 2, 3, 4])):
            if i: out += self.ws(.15) + r.choice("+-*/+-*/^")
            out += f(d - 1)
        return out
    def cpow(self, d):
        r = self.r; x = r.random()
        if d <= 0 or x < .6: return self.cnum()
        if x < .85: return "(" + self.ws(.15) + self.cexp(d - 1) + self.ws(.15) + ")"
        return "-" + self.ws(.15) + self.cexp(d - 1)
    def mutate(self, t):
        r = self.r; t = list(t)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random(); i = r.randrange(len(t) + 1)
            if k < .35 and t: del t[min(i, len(t) - 1)]
            elif k < .7: t.insert(i, r.choice('{}[]",:-+.eE019 \\utrfn(*/^)' + "\x00\xff"))
            elif k < .85: t = t[:i]
            elif t: j = r.randrange(len(t)); i = min(i, len(t) - 1); t[i], t[j] = t[j], t[i]
        return "".join(t)

def small_words(alpha, n):
    out = [""]; last = [""]
    for _ in range(n): last = [w + a for w in last for a in alpha]; out += last
    return out

CALC_EXP = "an exponent that does not fit an int terminates the program"
CALC_SCI = "scientific notation evaluates to mantissa^exponent"
def plan_examples(rep):
    quick = rep.tier != "thorough"
    rng = random.Random("C23/%d" % rep.seed); tg = TextGen(rng)
    rules, number, string = json_peg(); calc, crules = calc_peg()
    mc = [{"what": "value", "main": rule(1), "rules": rules, "alpha": [ord(c) for c in '[]{}",:0 '], "n": 5 if quick else 6}, {"what": "object", "main": rule(2), "rules": rules, "alpha": [ord(c) for c in '{}",:0t '], "n": 5 if quick else 6},
          {"what": "array", "main": rule(3), "rules": rules, "alpha": [ord(c) for c in '[],1-" '], "n": 5 if quick else 7}, {"what": "number", "main": number, "rules": [], "alpha": [ord(c) for c in '-+.eE01'], "n": 5 if quick else 7},
          {"what": "string", "main": string, "rules": [], "alpha": [ord(c) for c in '"\\ua0'], "n": 6 if quick else 8}, {"what": "calc", "main": calc, "rules": crules, "alpha": [ord(c) for c in '1+-*^() '], "n": 5 if quick else 6},
          {"what": "calc", "main": calc, "rules": crules, "alpha": [ord(c) for c in '12.e-/'], "n": 5 if quick else 7}]
    mpath = os.path.join(WORK.dir, "exmc")
    with open(mpath, "w") as f:
        for l in mc: f.write(json.dumps(l) + "\n")
    texts = set()
    N = 500 if quick else 6000
    for _ in range(N): t = tg.jval(rng.choice([0, 1, 2, 3])); texts.add(t); texts.add(tg.mutate(t)); texts.add(tg.mutate(t).strip())
    for _ in range(N): t = tg.ws(.2) + tg.cexp(rng.choice([1, 2, 3])) + tg.ws(.2); texts.add(t); texts.add(tg.mutate(t))
    for _ in range(N // 4): texts.add(tg.jnum()); texts.add(tg.jstr()); texts.add(tg.mutate(tg.jnum())); texts.add(tg.mutate(tg.jstr()))
    texts.add("[" * 30 + "]" * 30); texts.add("[" * 30 + "]" * 29); texts.add("(" * 30 + "1" + ")" * 30); texts.add("-" * 20 + "1"); texts.add("^".join("2111")); texts.add("+".join(["1"] * 60)); texts.add("1-" * 50 + "1")
    texts.add('{"a":' * 12 + "1" + "}" * 12); texts.add("2^3^2"); texts.add("8/4/2"); texts.add("8-4-2"); texts.add("-2^2"); texts.add("2^-1"); texts.add("-1+2"); texts.add("1e2"); texts.add("25e1"); texts.add("3e-2"); texts.add("1.5e3"); texts.add("0e0")
    for a, n in (('[]{}",:0', 3 if quick else 5), ("1+-*/^()e. ", 3 if quick else 5), ('-.e01', 4 if quick else 6), ('"\\u', 5 if quick else 8)): texts.update(small_words(a, n))
    texts = sorted(t for t in texts if len(t) <= 220)
    words = [[((ord(c) + 128) % 256) - 128 for c in t] for t in texts]
    ans = [None] * len(words)
    order = sorted(range(len(words)), key=lambda i: -len(words[i]))
    def orc(k):
        mine = order[k::NPROC - 2]
        i_, o_ = os.path.join(WORK.dir, "exi%d" % k), os.path.join(WORK.dir, "exo%d" % k)
        with open(i_, "w") as f:
            for i in mine: f.write(json.dumps({"id": i, "w": words[i]}) + "\n")
        rc, out = java("ExamplesOracle.tla", "ExamplesOracle.cfg", {"TOK_IN": i_, "TOK_OUT": o_}, timeout=800)
        if rc != 0 or not os.path.exists(o_): raise CheckError("oracle of the examples: " + errtail(out))
        for l in open(o_): r = json.loads(l); ans[r["id"]] = r["r"]
    def tlc():
        rc, txt = java("ExamplesMC.tla", "ExamplesMC.cfg", {"TOK_IN": mpath}, workers=3, timeout=850, heap="6g")
        if rc != 0 or "No error has been found" not in txt: raise CheckError("model checking the example languages: " + errtail(txt))
        return tlc_counts(txt)
    def build(kind, src, extra):
        exe = os.path.join(WORK.dir, "ex" + kind); main = os.path.join(WORK.dir, "ex_%s.h" % kind)
        with open(main, "w") as f:
            for s in src: f.write('#include "%s"\n' % os.path.join(REPO, "examples", s))
        rc, _, err = run_cmd(["g++", "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), '-DEXAMPLE_SOURCE="%s"' % main, os.path.join(VERIF, "harness", "example_%s.cpp" % kind), "-o", exe] + extra, 600)
        return (exe if rc == 0 else None), err
    san = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        m = ex.submit(tlc); bj = ex.submit(build, "json", ["json/json.cpp"], san); bc = ex.submit(build, "calc", ["algebraic/parser.h", "algebraic/evaluate.h"], san)
        list(ex.map(orc, range(NPROC - 2)))
        states, trans = m.result()[1], m.result()[0]; bj, bc = bj.result(), bc.result()
    stat = {"accepted_json": 0, "accepted_calc": 0, "values_compared": 0, "deep": 0}
    def run(exe):
        """-> {index: fields}, index of a crash or None"""
        got = {}; todo = list(range(len(words))); crashes = []
        while todo:
            inp = os.path.join(WORK.dir, "ex.in")
            with open(inp, "w") as f:
                for i in todo: f.write("%d %d %s\n" % (i, len(words[i]), " ".join(map(str, words[i]))))
            with open(inp) as f: rc, out, err = run_cmd([exe], 600, stdin=f)
            lines = out.split("\n")
            for l in lines[:-1]:
                p = l.split("\t"); got[int(p[0])] = p[1:]
            if rc == 0: break
            last = lines[-1].split("\t")[0]
            bad = int(last) if last else next(i for i in todo if i not in got)
            crashes.append((bad, err[:600])); got[bad] = None
            todo = [i for i in todo if i not in got]
            if len(crashes) > 20: break
        return got, crashes
    names = ["JsonValue", "JsonObject", "JsonArray", "number", "string"]
    for (exe, err), kind in ((bj, "json"), (bc, "calc")):
        if exe is None: rep.add("the %s example does not compile: %s" % (kind, " ".join(l for l in err.split("\n") if "error" in l)[:800]), kind="compile", field="compile", error=err[:4000]); continue
        got, crashes = run(exe)
        for i, err in crashes:
            if kind == "calc" and "terminate called without an active exception" in err and re.search(r"[0-9][eE]-?0*(?!21474836(?:4[0-7]|[0-3]))[0-9]{10,}", texts[i]): rep.add("%s: %s" % (CALC_EXP, show_word(words[i])), kind=kind, input=words[i], field="exponent"); continue
            rep.add("%s example on %s: ends abnormally: %s" % (kind, show_word(words[i]), " ".join(err.split())[:300]), kind=kind, input=words[i], field=kind + " crash")
        for i, w in enumerate(words):
            g = got.get(i)
            if g is None: continue
            def bad(what, e, a): rep.add("%s example: %s of %s is %s, should be %s" % (kind, what, show_word(w), a, e), kind=kind, input=w, field=kind + " " + what.split()[0], expected=e, actual=a)
            if kind == "json":
                for n, nm in enumerate(names):
                    e = ans[i]["j"][n]; p, l, v = g[3 * n:3 * n + 3]
                    if p != str(e["p"]): bad("end of " + nm, e["p"], p)
                    elif l != p: bad("lookahead end of " + nm, e["p"], l)
                    elif v != e["v"]: bad("content of " + nm, e["v"], v)
                if ans[i]["j"][0]["p"] == len(w): stat["accepted_json"] += 1
            else:
                e = ans[i]["c"]; ok = e["ok"]; dev = False
                if (g[0] == str(len(w))) != ok: bad("verdict", ok, g[0])
                elif (g[1] == "1") != ok: bad("verdict of lookahead", ok, g[1])
                elif ok:
                    stat["accepted_calc"] += 1
                    if g[2] != e["s"]: bad("reading", e["s"], g[2])
                    elif e["v"]["d"]:
                        real, want = float(g[3]), e["v"]["n"] / e["v"]["d"]
                        stat["values_compared"] += 1
                        close = lambda x: abs(real - x) <= 1e-9 * max(1, abs(x))
                        if not close(want):
                            d = e["d"]
                            if d["d"] == 0 and any(c in (69, 101) for c in w): continue      # cannot tell which of the two it is
                            if d["d"] and close(d["n"] / d["d"]): rep.add("%s: %s evaluates to %s, should be %s" % (CALC_SCI, show_word(w), g[3], want), kind=kind, input=w, field="scientific")
                            else: bad("value", want, g[3])
    k = [i for i in range(len(words)) if len(words[i]) > 12 and ans[i]["c"]["ok"]][:2] + [i for i in range(len(words)) if len(words[i]) > 20 and ans[i]["j"][0]["p"] == len(words[i])][:2]
    return dict({"states": states, "transitions": trans, "traces_validated_against_impl": 2 * len(words), "texts": len(words), "samples": [{"text": show_word(words[i]), "json": ans[i]["j"][0], "calculator": ans[i]["c"]} for i in k]}, **stat)
