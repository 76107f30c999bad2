"""Random grammars, grammar-derived inputs, and boundary cases."""
from exprs import *

# ------------------------------------------------------------------------------------------------ facts about expressions
def nullable(e, rules=()):
    o, c = e["o"], e["c"]
    if o in ("any", "none", "anyv"): return False
    if o in ("all", "ignl"): return not e["s"]
    if o in ("eps", "oreps", "opt", "star"): return True
    if o == "or": return nullable(c[0], rules) or nullable(c[1], rules)
    if o == "seq": return nullable(c[0], rules) and nullable(c[1], rules)
    if o == "rule": return True if not rules else False
    if o == "not": return False
    return nullable(c[0], rules)

def uses(e, ops):
    return e["o"] in ops or any(uses(x, ops) for x in e["c"]) or any(musest(m, ops) for m in e["m"])
def musest(m, ops): return m["o"] in ops or any(uses(x, ops) for x in m["c"]) or any(musest(x, ops) for x in m["m"])

def alphabet(e, acc=None):
    acc = set() if acc is None else acc
    acc.update(e["s"])
    for x in e["c"]: alphabet(x, acc)
    for m in e["m"]: malpha(m, acc)
    return acc
def malpha(m, acc):
    for x in m["c"]: alphabet(x, acc)
    for x in m["m"]: malpha(x, acc)

# ------------------------------------------------------------------------------------------------ inputs
class Inputs:
    def __init__(self, rng, prog_main, rules, alpha=None):
        self.rng, self.main, self.rules = rng, prog_main, rules
        a = set(alphabet(prog_main))
        for e, _ in rules: alphabet(e, a)
        a = sorted(a)[:40]
        self.alpha = a or [97, 98]
        self.foreign = next(x for x in (122, 35, 7, 99, 100, 101, 102) if x not in self.alpha)
        self.fuel = 0
    def sample(self, e):
        """a string that the expression probably matches"""
        self.fuel -= 1
        r, o, c = self.rng, e["o"], e["c"]
        if o == "any" or (o == "not" and c[0]["o"] == "none"):
            ss = e["s"] if o == "any" else c[0]["s"]
            return [r.choice(ss)] if ss else [self.foreign]
        if o == "none" or o == "not":
            ss = e["s"] if o == "none" else c[0]["s"]
            good = [x for x in self.alpha if x not in ss] + [self.foreign]
            return [r.choice(good)]
        if o in ("all", "ignl"): return list(e["s"])
        if o == "anyv": return [r.choice(self.alpha + [self.foreign])]
        if o == "eps": return []
        if o == "or":
            if self.fuel < 0: return min((self.sample0(c[0]), self.sample0(c[1])), key=len)
            return self.sample(r.choice(c))
        if o == "oreps": return [] if self.fuel < 0 or r.random() < .4 else self.sample(c[0])
        if o == "seq": return self.sample(c[0]) + self.sample(c[1])
        if o == "opt": return [] if self.fuel < 0 or r.random() < .4 else self.sample(c[0])
        if o in ("star", "plus"):
            k = (0 if o == "star" else 1) + (0 if self.fuel < 0 else r.choice([0, 0, 1, 1, 2, 3]))
            return [x for _ in range(k) for x in self.sample(c[0])]
        if o == "rule":
            if self.fuel < -40: return []
            return self.sample(self.rules[e["n"] - 1][0])
        if o == "mod": return self.msample(c[0], e["m"][0])
        return []
    def sample0(self, e):
        return self.sample(e) if self.fuel > -60 else []
    def msample(self, x, m):
        o = m["o"]
        if o == "exa": return [s for _ in range(m["n"]) for s in self.sample(x)]
        if o in ("del", "delk"):
            out = self.sample(x)
            for _ in range(0 if self.fuel < 0 else self.rng.choice([0, 1, 1, 2, 3])): out += self.sample(m["c"][0]) + self.sample(x)
            if self.rng.random() < .15: out += self.sample(m["c"][0])
            return out
        if o == "multi":
            if not m["m"]: return self.sample(x)
            y = x
            for k in m["m"][:-1]: y = {"o": "mod", "s": [], "n": 0, "f": "", "c": [y], "m": [k]}
            return self.msample(y, m["m"][-1])
        return self.sample(x)
    def mutate(self, w):
        r = self.rng
        w = list(w)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(6)
            i = r.randrange(len(w) + 1)
            s = r.choice(self.alpha + [self.foreign])
            if k == 0: w.insert(i, s)
            elif k == 1 and w: del w[min(i, len(w) - 1)]
            elif k == 2 and w: w[min(i, len(w) - 1)] = s
            elif k == 3: w = w[:i]
            elif k == 4: w = w + [s]
            elif k == 5 and w:
                j = min(i, len(w) - 1); w = w[:j] + w[j:j + 2] * 2 + w[j + 2:]
        return w
    def make(self, n, maxlen=60, extra=()):
        seen, out = set(), []
        def add(w):
            t = tuple(w)
            if len(t) <= maxlen and t not in seen: seen.add(t); out.append(list(t))
        add([])
        for w in extra: add(w)
        a = (self.alpha if len(self.alpha) <= 4 else self.rng.sample(self.alpha, 4))
        for x in a + [self.foreign]: add([x])
        tries = 0
        while len(out) < n and tries < 6 * n:
            tries += 1
            self.fuel = self.rng.choice([3, 8, 20, 40])
            try: w = self.sample(self.main)
            except RecursionError: continue
            k = self.rng.random()
            if k < .35: add(w)
            elif k < .8: add(self.mutate(w))
            elif k < .9: add([self.rng.choice(a + [self.foreign]) for _ in range(self.rng.randrange(1, 9))])
            else: add(w + w)
        return out

# ------------------------------------------------------------------------------------------------ random expressions
class Gen:
    """weights: leaf kinds and node kinds -> weight"""
    LEAF = {"any": 3, "all": 4, "none": 2, "ignl": 3, "anyv": 1, "eps": .3}
    NODE = {"seq": 5, "or": 4, "oreps": 1, "opt": 2, "plus": 2, "star": 2, "not": .5, "exa": 1.5, "del": 1.5, "delk": 1.5, "ign": 1, "com": .3, "joi": 1,
            "nam": .3, "map": 0, "fil": 0, "multi": .3}
    MAPS = ["mI", "mI", "mB", "mK", "mU", "mV", "mM", "mO", "aI", "aR", "aU", "aV", "aK", "into", "ainto", "cI", "cB", "cK", "dI", "dK", "dI2", "lI", "mT", "mX", "mL", "mA", "mP", "mE"]
    FILS = ["fP", "fP", "lP", "fT", "fF", "fI", "gP", "gT"]
    def __init__(self, rng, alpha="ab", leaf=None, node=None):
        self.rng = rng
        self.alpha = syms(alpha)
        self.leaf = dict(self.LEAF); self.leaf.update(leaf or {})
        self.node = dict(self.NODE); self.node.update(node or {})
        self.k = 0
    def pick(self, d): return self.rng.choices(list(d), list(d.values()))[0]
    def word(self, lo=1, hi=3): return [self.rng.choice(self.alpha) for _ in range(self.rng.randint(lo, hi))]
    def leafx(self):
        k = self.pick(self.leaf)
        if k == "any": return any_(self.word(1, 2))
        if k == "none": return none_(self.word(1, 2))
        if k == "all": return all_(self.word(1, 2))
        if k == "ignl": return ignl(self.word(1, 2))
        if k == "anyv": return anyv()
        return eps()
    def uid(self): self.k += 1; return self.k
    def mapm(self):
        f = self.rng.choice(self.MAPS)
        return mp(f, self.uid() if f[0] not in "d" and f not in ("into", "ainto") else 0)
    def film(self):
        f = self.rng.choice(self.FILS)
        if f in ("fP", "gP", "lP"):
            k = self.rng.choice([2, 2, 3]); return fil(f, 100 * k + self.rng.randrange(k))
        return fil(f, self.uid() + 2)
    def simple_mod(self):
        return self.rng.choice([ign, joi, com, exa(self.rng.randint(1, 3)), nam(self.rng.choice("xyz")), dele(self.leafx())])
    def expr(self, d):
        if d <= 0 or self.rng.random() < .12: return self.leafx()
        k = self.pick(self.node)
        r = self.rng
        if k in ("seq", "or"):
            x, y = self.expr(d - 1), self.expr(d - 1 - r.randrange(2))
            f = seq if k == "seq" else or_
            return f(x, y) if r.random() < .6 else f(y, x) if r.random() < .5 else f(f(x, self.leafx()), y)
        if k == "not": return not_(any_(self.word()) if r.random() < .5 else none_(self.word()))
        if k == "oreps": return oreps(self.expr(d - 1))
        if k == "opt": return opt(self.expr(d - 1))
        if k in ("plus", "star"):
            x = self.expr(d - 1)
            if nullable(x): x = seq(self.leaf_nonnull(), x)
            return plus(x) if k == "plus" else star(x)
        if k == "exa": return mod(self.expr(d - 1), exa(r.choice([1, 2, 2, 3, 4])))
        if k in ("del", "delk"):
            x, s = self.expr(d - 1), self.expr(min(d - 1, 1))
            if nullable(x) and nullable(s): s = self.leaf_nonnull()
            return mod(x, dele(s) if k == "del" else delk(s))
        if k == "map": return mod(self.expr(d - 1), self.mapm())
        if k == "fil": return mod(self.expr(d - 1), self.film())
        if k == "nam": return mod(self.expr(d - 1), nam(r.choice("xyz")))
        if k == "multi": return mod(self.expr(d - 1), multi(*[self.simple_mod() for _ in range(r.randint(2, 3))]))
        return mod(self.expr(d - 1), {"ign": ign, "com": com, "joi": joi}[k])
    def leaf_nonnull(self):
        return self.rng.choice([any_, all_, ignl, none_])(self.word(1, 1))
    # a context with a hole
    def ctx(self, x, d=2, kinds=None):
        r = self.rng
        for _ in range(r.randint(0, d)):
            k = r.choice(kinds or ["pre", "post", "both", "alt1", "alt2", "opt", "star", "exa", "del", "sep", "nam", "ign", "optpre", "ipre", "starpost"])
            l, l2 = self.leafx(), self.leaf_nonnull()
            if k == "pre": x = seq(l, x)
            elif k == "ipre": x = seq(ignl(self.word(1, 1)), x)
            elif k == "optpre": x = seq(opt(l2), x)
            elif k == "post": x = seq(x, l)
            elif k == "both": x = seq(l2, x, l)
            elif k == "alt1": x = or_(x, l)
            elif k == "alt2": x = or_(seq(l, l2), x)
            elif k == "opt": x = opt(x)
            elif k == "star": x = star(seq(x, l2) if nullable(x) else x)
            elif k == "starpost": x = seq(star(seq(l2, x)), l)
            elif k == "exa": x = mod(x, exa(r.choice([1, 2, 3])))
            elif k == "del": x = mod(x, r.choice([dele, delk])(l2))
            elif k == "sep": x = mod(l2, r.choice([dele, delk])(x))
            elif k == "nam": x = mod(x, nam(r.choice("xyz")))
            elif k == "ign": x = mod(x, ign)
            elif k == "com": x = mod(x, com)
            elif k == "joi": x = mod(x, joi)
            elif k == "map": x = mod(x, self.mapm())
        return x
