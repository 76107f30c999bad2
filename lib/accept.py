"""C24: which combinations, inputs and functions are accepted."""
import json, os, re, random, concurrent.futures as cf
import core, engine
from core import CheckError
from engine import WORK, NPROC, Builder, java, run_cmd
from exprs import *

T3 = ("char", "wchar_t", "int")
OPS2 = ("or", "seq", "mod", "call", "delimit", "delimit_keep", "sub")
OPS1 = ("opt", "plus", "star", "not", "name")
KINDS = ("vector", "array", "carray", "cspan", "mspan", "string", "view", "litarray", "pointer", "list", "deque", "set", "element", "nothing")

class TypedSpell(Spell):
    """every leaf says its element type"""
    def e(self, x):
        o = x["o"]
        if o == "rule": return "Rule_%s{}" % x["f"]
        if o in ("any", "none", "all", "ignl", "anyv", "eps"): self.elem = x["f"]
        return super().e(x)
def spell(o):
    sp = TypedSpell()
    k = o["k"]
    if k == "parser": return sp.e(o["e"][0])
    if k == "mod": return sp.m(o["m"][0])
    if k == "subst": return "(%s = %s)" % (sp.name(o["m"][0]["f"]), sp.m(o["m"][0]["m"][0]))
    return {"num": "1"}.get(k, k)
def retag(x, t):
    """the same expression over another element type"""
    if isinstance(x, list): return [retag(y, t) for y in x]
    if isinstance(x, dict):
        y = {k: retag(v, t) for k, v in x.items()}
        if x["o"] in ("any", "none", "all", "ignl", "anyv", "eps", "rule"): y["f"] = t
        return y
    return x

def expected(a):
    if a["k"] == "no": return 0
    if a["k"] == "parser": return 1 + T3.index(a["t"][0])
    if a["k"] == "subst": return 50
    return 100 + sum(1 << T3.index(t) for t in a["t"])
def say(c):
    return {0: "refused", 50: "a substitution", 99: "something that is neither parser nor modifier"}.get(c) or ("a modifier for " + ("/".join(t for i, t in enumerate(T3) if c - 100 >> i & 1) or "nothing") if c >= 100 else "a parser over " + (T3 + ("another type",))[c - 1])

FUNS = [{"takes": a, "gives": r} for a in ("S", "I", "none", "all") for r in ("int", "bool", "void", "NoTruth")]
def funname(f):
    r = "h::NoTruth" if f["gives"] == "NoTruth" else f["gives"]
    return {"none": "h::fun0<%s>" % r, "all": "h::funAll<%s>" % r}.get(f["takes"]) or "h::fun<%s, %s>" % ({"S": "h::OS", "I": "int"}.get(f["takes"]), r)
STARTS = {"S": '"ab"_any', "V": '"ab"_ign', "I": '(+"a"_any % constant<7>)'}
WRAP = {"": "%s", "name": '(%s %% name<"x">)', "complete": "(%s %% complete)"}
def funexp(q):
    s = STARTS[q["ty"]]
    for f in q["fs"]: s = "(%s %% %s<%s>)" % (s, f["how"], funname(f["f"]))
    return WRAP[q["wrap"]] % s

IN_T = ("char", "wchar_t", "char8_t", "char16_t", "char32_t", "schar", "uchar", "short", "int", "uint", "long", "enum", "struct")
IN_V = IN_T + ("double", "other")

def in_parsers(t):
    L = lambda o, s: E(o, s, f=t)
    a, n, l = L("any", [97, 98]), L("none", [97]), L("all", [98])
    base = [a, n, l]
    if t in ("char", "int", "struct"):
        base += [opt(a), plus(n), star(l), seq(a, opt(n)), or_(l, seq(n, a)), mod(a, ign), mod(star(a), joi), mod(l, com), mod(n, exa(2)), mod(a, nam("x")), mod(a, dele(l)), mod(a, delk(n)), mod(a, mp("cI", 5)), mod(a, fil("fT", 1)), E("anyv", f=t), E("eps", f=t), E("rule", n=1, f=t)]
    return base

PRE = '#include "accept.h"\n' + "".join('struct Rule_%s : custom_parser<Rule_%s, %s> { using result_type = int; static consteval auto get_parser() { return %s %% constant<1>; } };\n' % (t, t, CPP[t], TypedSpell().e(E("any", [97, 98], f=t))) for t in sorted(set(T3 + IN_T)))

def plan_accept(rep):
    quick = rep.tier != "thorough"
    rng = random.Random(rep.seed)
    ex = cf.ThreadPoolExecutor(NPROC)
    def tlc(depth, sim, emit=1):
        extra = ("-noGenerateSpecTE",) + (("-simulate", "num=%d" % sim, "-depth", str(depth + 1), "-seed", str(rep.seed)) if sim else ())
        rc, txt = java("AcceptMC.tla", "AcceptSim.cfg" if sim else "AcceptMC.cfg", {"TOK_DEPTH": str(depth), "TOK_EMIT": str(emit)}, workers=1 if sim else 3, timeout=850, extra=extra, heap="4g")
        if rc != 0 or "Error:" in txt: raise CheckError("AcceptMC: " + core.errtail(txt))
        return txt
    b = Builder(header="accept.h"); fb = ex.submit(b.prepare)
    mc = ex.submit(tlc, 1 if quick else 2, 0, 0)
    base = ex.submit(tlc, 0, 0)
    deep = ex.submit(tlc, 5, 60 if quick else 1500)
    def opds(txt):
        seen = {}
        for m in re.finditer(r'^"A:(.*)"$', txt, re.M):
            s = m.group(1).replace('\\"', '"'); seen.setdefault(s, json.loads(s))
        return [seen[s] for s in sorted(seen)]
    B = opds(base.result())
    D = [o for o in opds(deep.result()) if o not in B and len(json.dumps(o)) < 3000 and not (o["k"] == "subst" and o["ts"])]
    rng.shuffle(D)
    D = D[:60 if quick else 500]
    ops = B + D
    # probing operands: one of each sort
    probe, sorts = [], set()
    for i in rng.sample(range(len(B)), len(B)):
        key = (B[i]["k"], B[i]["t"], tuple(B[i]["ts"]))
        if key not in sorts: sorts.add(key); probe.append(i)
    asks = []
    def ask(i, j):
        for op in OPS2: asks.append({"q": "op", "op": op, "x": i + 1, "y": j + 1})
    for i in range(len(B)):
        for j in range(len(B)): ask(i, j)
    for i in range(len(B), len(ops)):
        for j in probe: ask(i, j); ask(j, i)
        for j in rng.sample(range(len(B), len(ops)), min(6, len(D))): ask(i, j)
    for i in range(len(ops)):
        for op in OPS1: asks.append({"q": "op", "op": op, "x": i + 1, "y": i + 1})
    ins = [(t, p) for t in IN_T for p in in_parsers(t)]
    for n, (t, p) in enumerate(ins):
        for v in IN_V:
            for k in (KINDS if n % 3 == 0 or not quick else rng.sample(KINDS, 5)): asks.append({"q": "in", "t": t, "kind": k, "v": v, "p": n})
    for ty in STARTS:
        hows = [{"how": h, "f": f} for h in ("map", "filter") for f in FUNS]
        for f in hows:
            for w in WRAP: asks.append({"q": "fn", "ty": ty, "fs": [f], "wrap": w})
            for g in (hows if not quick else rng.sample(hows, 8)): asks.append({"q": "fn", "ty": ty, "fs": [f, g], "wrap": ""})
    fo = os.path.join(WORK.dir, "ops")
    with open(fo, "w") as f: f.writelines(json.dumps(o) + "\n" for o in ops)
    def orc(k):
        i, o = os.path.join(WORK.dir, "ask%d" % k), os.path.join(WORK.dir, "ans%d" % k)
        with open(i, "w") as f: f.writelines(json.dumps(q) + "\n" for q in asks[k::4])
        rc, txt = java("AcceptOracle.tla", "AcceptOracle.cfg", {"TOK_IN": fo, "TOK_ASK": i, "TOK_OUT": o}, timeout=850)
        if rc != 0: raise CheckError("AcceptOracle: " + core.errtail(txt))
        return core.ndlines(o)
    ans = [None] * len(asks)
    for k, r in enumerate(ex.map(orc, range(4))): ans[k::4] = r
    rows = [(q, a) for q, a in zip(asks, ans) if a["k"] != "skip"]
    fb.result()
    def cpp(n, q):
        if q["q"] == "op": return "{%d, h::q_%s<O%d, O%d>()}" % (n, q["op"], q["x"], q["y"])
        if q["q"] == "in": return "{%d, h::q_in<I%d, h::k_%s<%s>>()}" % (n, q["p"], q["kind"], CPP[q["v"]])
        return "{%d, h::q_fn<decltype(%s)>()}" % (n, funexp(q))
    def source(part):
        s = [PRE]
        for i in sorted({q[k] for _, q, _ in part if q["q"] == "op" for k in ("x", "y")}): s.append("using O%d = std::remove_cvref_t<decltype(%s)>;" % (i, spell(ops[i - 1])))
        for i in sorted({q["p"] for _, q, _ in part if q["q"] == "in"}): s.append("using I%d = decltype(%s);" % (i, TypedSpell().e(ins[i][1])))
        s.append("struct Row { int n, c; };\nstatic constexpr Row rows[] = {\n%s };" % ",\n".join(cpp(n, q) for n, q, _ in part))
        s.append('int main() { for (auto r : rows) std::printf("%d %d\\n", r.n, r.c); }')
        return "\n".join(s)
    def text(q):
        if q["q"] == "op":
            x, y = spell(ops[q["x"] - 1]), spell(ops[q["y"] - 1])
            return {"or": "%s | %s", "seq": "%s >> %s", "mod": "%s %% %s", "call": "%s(%s)", "delimit": "delimit(%s, %s)", "delimit_keep": "delimit_keep(%s, %s)", "sub": "sub(%s, %s)"}[q["op"]] % (x, y) if q["op"] in OPS2 else \
                   {"opt": "~%s", "plus": "+%s", "star": "*%s", "not": "!%s", "name": 'name<"x"> = %s'}[q["op"]] % x
        if q["q"] == "in": return "%s.parse(%s of %s)" % (TypedSpell().e(ins[q["p"]][1]), q["kind"], CPP[q["v"]])
        return "parsing characters with " + funexp(q)
    hard = []
    def run(job):
        bu, part, name, cxx = job
        exe, err = bu.compile(name, source(part), timeout=600)
        if exe is None:
            if len(part) == 1:
                n, q, a = part[0]
                hard.append(n)
                return [(q, a, None, err)]
            if len(part) > 40:
                h = len(part) // 4 + 1; cut = [part[i:i + h] for i in range(0, len(part), h)]
            else: cut = [[x] for x in part]
            out = []
            for i, c in enumerate(cut):
                if len(hard) >= 3: break        # enough is known; each of these costs another compilation
                out += run((bu, c, "%s_%d" % (name, i), cxx))
            return out
        rc, txt, er = run_cmd([exe], 60); os.unlink(exe)
        got = dict(map(int, l.split()) for l in txt.split("\n") if l)
        return [(q, a, got.get(n), "") for n, q, a in part]
    part = [(n, q, a) for n, (q, a) in enumerate(rows)]
    nb = 16 if quick else 64
    # rows about the same operands together
    part.sort(key=lambda r: (r[1]["q"], r[1].get("x", 0), r[1].get("p", 0)))
    size = len(part) // nb + 1
    jobs = [(b, part[i:i + size], "acc%d" % k, "g++") for k, i in enumerate(range(0, len(part), size))]
    c = Builder(cxx="clang++", header="accept.h"); c.prepare_plain()
    some = rng.sample(part, min(len(part), 1200 if quick else 12000)); some.sort(key=lambda r: r[0])
    size = len(some) // 4 + 1
    jobs += [(c, some[i:i + size], "accc%d" % k, "clang++") for k, i in enumerate(range(0, len(some), size))]
    kinds = {"op": 0, "in": 0, "fn": 0}; yes = 0
    for job, res in zip(jobs, ex.map(run, jobs)):
        for q, a, got, err in res:
            if err:
                rep.add("%s: %s is neither accepted nor refused, but an error: %s" % (job[3], text(q), " ".join(l for l in err.split("\n") if "error" in l)[:500]), kind="accept", ask=q, expected=a, field="hard error"); continue
            kinds[q["q"]] += 1
            want = expected(a) if q["q"] == "op" else (3 if q["q"] == "in" else 7) * (a["k"] == "yes")
            yes += want != 0
            if got != want:
                f = (lambda x: say(x)) if q["q"] == "op" else (lambda x: {0: "refused", 3: "accepted", 7: "accepted"}.get(x, "accepted in some ways only (%s)" % x))
                rep.add("%s: %s is %s, should be %s" % (job[3], text(q), f(got), f(want)), kind="accept", ask=q, expected=want, actual=got, field="accept")
    txt = mc.result()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if "Model checking completed. No error" not in txt or not m: raise CheckError("AcceptMC: " + core.errtail(txt))
    return {"states": int(m.group(2)), "transitions": int(m.group(1)), "operands": len(ops), "combinations_asked": kinds["op"], "inputs_asked": kinds["in"], "functions_asked": kinds["fn"], "accepted": yes,
            "traces_validated_against_impl": sum(kinds.values()), "samples": [text(q) + " -> " + a["k"] for q, a in rng.sample(rows, 3)]}
