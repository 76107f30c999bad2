"""The grammars and inputs that are replayed into the real code, per property."""
import random, json, itertools
from exprs import *
from gen import Gen, Inputs, nullable, uses

PLAIN = {"map": 0, "fil": 0}
FUN = {"map": 3, "fil": 2}

def probe(x, k):
    """x, reporting (without a value) where it is attempted"""
    return seq(mod(all_(""), mp("mV", k)), x)
def instrument(e, ids=None):
    """probes before every part of the expression"""
    ids = ids or itertools.count(1000)
    if e["o"] in ("any", "none", "all", "ignl", "anyv", "eps", "rule", "not"): return probe(e, next(ids))
    x = dict(e); x["c"] = [instrument(c, ids) for c in e["c"]]
    ms = []
    for m in e["m"]:
        m = dict(m)
        if m["o"] in ("del", "delk"): m["c"] = [instrument(c, ids) for c in m["c"]]
        ms.append(m)
    x["m"] = ms
    return x

def paths(e, pre=()):
    """the subexpressions of e (operands and separators)"""
    out = [pre]
    for i, x in enumerate(e["c"]): out += paths(x, pre + (("c", i),))
    for i, m in enumerate(e["m"]):
        if m["o"] in ("del", "delk"): out += paths(m["c"][0], pre + (("m", i),))
    return out
def get(e, path):
    for k, i in path: e = e["c"][i] if k == "c" else e["m"][i]["c"][0]
    return e
def put(e, path, x):
    if not path: return x
    (k, i), rest = path[0], path[1:]
    e = dict(e)
    if k == "c": e["c"] = [put(c, rest, x) if j == i else c for j, c in enumerate(e["c"])]
    else: e["m"] = [dict(m, c=[put(m["c"][0], rest, x)]) if j == i else m for j, m in enumerate(e["m"])]
    return e
def sprinkle(e, r, mods, n):
    """modifiers put on randomly chosen parts"""
    for _ in range(n):
        ps = [q for q in paths(e) if get(e, q[:-1])["o"] != "not" or not q]
        q = r.choice(ps); e = put(e, q, mod(get(e, q), r.choice(mods)))
    return e
def outline(e, rules, r):
    """a randomly chosen part becomes the definition of a user-defined parser"""
    ps = [q for q in paths(e) if not q or get(e, q[:-1])["o"] != "not"]
    q = r.choice(ps); x = get(e, q)
    rt = r.choice(["-", "-", "-", "rb", "rb", "l", "b", "os"])
    if rt in ("l", "b"): x = mod(x, r.choice([mp("mI", 1), mp("mI", 0), mp("mB", 1), mp("cI", 2)]))
    if rt == "os": x = mod(x, joi)
    return put(e, q, rule(len(rules) + 1)), list(rules) + [(x, rt)]

def kinds(rng, k, i, body="b"):
    """an expression with a value of the given kind, starting with the distinct element chr(65+i)"""
    lead = chr(65 + i)
    b = any_(body + "c")
    return {"S": seq(ignl(lead), b), "V": ignl(lead), "V2": mod(seq(all_(lead), b), ign), "i": mod(all_(lead), mp("mI", i)), "b": mod(all_(lead), mp("mB", i)), "k": mod(all_(lead), mp("mK", i)),
            "u": mod(all_(lead), mp("mU", i)), "o": seq(ignl(lead), opt(b)), "v": seq(ignl(lead), star(b)), "t": seq(all_(lead), b), "S2": all_(lead),
            "r2": seq(ignl(lead), mod(b, exa(2))), "r3": seq(ignl(lead), mod(b, exa(3))), "p": seq(ignl(lead), mod(any_("b"), delk(any_("c")))),
            "x": seq(ignl(lead), or_(any_("b"), mod(any_("c"), mp("mI", i)))), "vo": seq(ignl(lead), star(seq(ignl("b"), opt(any_("c")))))}[k]
ALLK = ["S", "V", "V2", "i", "b", "k", "u", "o", "v", "t", "S2", "r2", "r3", "p", "x", "vo"]

def big_words(base, ns): return [list(base) * n for n in ns]

# ------------------------------------------------------------------------------------------------ focus generators
def f_core(G, r): return G.expr(r.choice([2, 3, 3, 4])), []
def f_back(G, r):
    x = G.expr(2); half = seq(G.leafx(), G.leafx(), x) if r.random() < .6 else mod(x, r.choice([exa(2), exa(3), joi, com, dele(seq(G.leaf_nonnull(), G.leafx())), fil("fF", 1), fil("fP", 200)]))
    y = G.expr(1)
    k = r.randrange(7)
    e = [lambda: or_(half, y), lambda: seq(opt(half), y), lambda: seq(star(seq(G.leaf_nonnull(), half)), y), lambda: mod(y if not nullable(y) else G.leaf_nonnull(), delk(half)),
         lambda: mod(half, dele(G.leaf_nonnull())), lambda: or_(seq(G.leafx(), or_(half, G.leafx())), y), lambda: seq(plus(seq(G.leaf_nonnull(), half)), y)][k]()
    return G.ctx(e, 1), []
def f_look(G, r):
    g = r.choice([joi, ign, com, exa(2), fil("fP", 200), fil("fP", 201), fil("fF", 1), G.mapm(), mp("mI", 3), dele(G.leaf_nonnull()), nam("x")])
    e = mod(G.expr(r.choice([1, 2, 2, 3])), g)
    if r.random() < .3: e = mod(e, r.choice([ign, joi, exa(2)]))
    return G.ctx(e, 2), []
def f_type(G, r):
    return G.ctx(G.expr(r.choice([2, 3, 3])), 2), []
def f_choice(G, r):
    n = r.choice([2, 3, 3, 4, 4, 5, 6, 7, 9, 12])
    pool = r.sample(ALLK, r.randint(1, 5))
    alts = [kinds(r, r.choice(pool), i) for i in range(n)]
    if r.random() < .3: alts[r.randrange(n)] = dict(alts[r.randrange(n)])
    e = orr(*alts) if r.random() < .4 else or_(*alts)
    if r.random() < .3 and n > 3:
        k = r.randint(1, n - 2); e = or_(mod(or_(*alts[:k]), nam("x")), or_(*alts[k:])) if r.random() < .5 else or_(seq(ignl("z"), or_(*alts[:k])), *alts[k:])
    return G.ctx(e, 1, ["pre", "post", "star", "exa", "opt", "del", "nam"]), []
def f_rep(G, r):
    x = G.expr(r.choice([0, 1, 1, 2]))
    k = r.choice(["opt", "plus", "star", "exa"])
    if k in ("plus", "star") and nullable(x): x = seq(G.leaf_nonnull(), x)
    e = {"opt": lambda: opt(x), "plus": lambda: plus(x), "star": lambda: star(x), "exa": lambda: mod(x, exa(r.choice([1, 2, 3, 4, 5, 7])))}[k]()
    return G.ctx(e, 2), []
def f_del(G, r):
    x, d = G.expr(r.choice([0, 0, 1, 2])), G.expr(r.choice([0, 0, 1, 2]))
    if nullable(x) and nullable(d): d = G.leaf_nonnull()
    if r.random() < .25: x = mod(x, G.mapm())
    if r.random() < .25: d = mod(d, r.choice([mp("mI", 1), mp("mV", 2), mp("mU", 3), ign]))
    e = mod(x, (dele if r.random() < .45 else delk)(d))
    return G.ctx(e, 2), []
def f_join(G, r):
    k = r.randrange(5)
    if k == 0: e = mod(r.choice([star, plus, opt, lambda q: mod(q, exa(r.choice([1, 2, 3, 5])))])(r.choice([any_("ab"), any_("a"), none_("a"), none_("ab"), anyv(), all_("ab"), all_("a")])), joi)
    elif k == 1: e = mod(seq(G.expr(1), G.expr(2)), joi)
    elif k == 2: e = mod(star(seq(G.leaf_nonnull(), G.expr(1))), joi)
    else: e = mod(G.expr(r.choice([1, 2, 3])), joi)
    return G.ctx(e, 2, ["pre", "ipre", "optpre", "post", "star", "alt1", "alt2", "exa", "del", "opt", "ign", "joi"]), []
def f_simp(G, r):
    def chain(f, n):
        xs = [G.expr(r.choice([0, 0, 1])) if r.random() < .7 else r.choice([all_("a"), all_("ab"), all_(""), any_("a"), none_("b"), any_("ba"), none_("a")]) for _ in range(n)]
        while len(xs) > 1:
            i = r.randrange(len(xs) - 1); xs[i:i + 2] = [f(xs[i], xs[i + 1])]
        return xs[0]
    k = r.randrange(5)
    if k == 0: return chain(seq, r.randint(2, 6)), []
    if k == 1: return chain(or_, r.randint(2, 6)), []
    if k == 2:
        x = G.expr(1)
        if nullable(x): x = G.leaf_nonnull()
        for _ in range(r.randint(2, 4)): x = r.choice([opt, plus, star])(x)
        return G.ctx(x, 1), []
    if k == 3:
        x = G.expr(2)
        for _ in range(r.randint(1, 3)): x = r.choice([oreps, lambda q: mod(q, ign), lambda q: mod(q, joi), lambda q: or_(q, q), lambda q: mod(q, com), lambda q: seq(eps(), q), lambda q: seq(q, all_(""))])(x)
        return G.ctx(x, 1), []
    return G.expr(3), []
def f_class(G, r):
    pool = r.choice(["ab", "abc", "\x00\x01a", "\x7f\x80\xff\x00", "azAZ09", " \t\n\"\\?", "abcdefghijklmnop"])
    def cls(d):
        ss = [r.choice(syms(pool)) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, 20]))]
        x = (any_ if r.random() < .5 else none_)(ss)
        k = r.random()
        if d > 0 and k < .3: return not_(cls(d - 1))
        if d > 0 and k < .75: return or_(cls(d - 1), cls(d - 1))
        return x
    e = cls(r.choice([0, 1, 2, 3]))
    k = r.random()
    if k < .2: e = seq(e, cls(1))
    elif k < .3: e = mod(star(e), joi)
    elif k < .4: e = or_(all_("aa"), e)
    return e, []
def f_mod(G, r):
    ms = [r.choice([ign, com, joi, exa(r.randint(1, 3)), mp("mI", G.uid()), mp("mM", 1), fil("fP", 200 + r.randrange(2)), nam(r.choice("xy")), dele(G.leaf_nonnull()), delk(G.leaf_nonnull()),
                    mp("cI", 4), mp("dK"), mp("into"), mp("aI", 5), sub(("x", r.choice([ign, joi, mp("mI", 9), fil("fF", 1)])))]) for _ in range(r.randint(2, 4))]
    x = G.expr(r.choice([0, 1, 2]))
    k = r.randrange(4)
    if k == 0: e = mod(x, *ms)
    elif k == 1: e = mod(x, multi(*ms))
    elif k == 2: e = mod(x, ms[0], multi(*ms[1:])) if len(ms) > 2 else mod(x, multi(*ms))
    else: e = mod(x, multi(ms[0], multi(*ms[1:])) if len(ms) > 2 else multi(*ms))
    return G.ctx(e, 1), []
def f_sub(G, r):
    names = r.sample(["x", "y", "z", "xy", "L:x", "x "], 3)
    def named(d):
        k = r.random()
        if d == 0: return mod(G.leafx(), nam(r.choice(names))) if k < .7 else G.leafx()
        if k < .3: return mod(named(d - 1), nam(r.choice(names)))
        if k < .45: return seq(named(d - 1), named(d - 1))
        if k < .6: return or_(seq(G.leaf_nonnull(), named(d - 1)), named(d - 1))
        x = named(d - 1)
        if k < .66: return opt(x)
        if k < .72: return star(seq(G.leaf_nonnull(), x))
        if k < .78: return mod(x, exa(r.choice([1, 2])))
        if k < .84: return mod(seq(G.leaf_nonnull(), x), (dele if r.random() < .5 else delk)(seq(G.leaf_nonnull(), named(d - 1))))
        if k < .9: return mod(x, r.choice([ign, joi, com]))
        return mod(x, r.choice([mp("mI", G.uid()), mp("mM", 2), fil("fT", 3), fil("fP", 201)]))
    subm = lambda: r.choice([ign, joi, exa(r.choice([1, 2])), mp("mI", 20 + r.randrange(9)), mp("mK", 3), fil("fF", 1), fil("fP", 200), nam(r.choice(names)), com, mp("mV", 4), dele(all_("c")),
                             multi(exa(2), joi), multi(mp("mI", 4), mp("mI", 5)), multi(ign, mp("mV", 5))])
    e = named(r.choice([1, 2, 3, 3]))
    for _ in range(r.choice([1, 1, 2])):
        ns = r.sample(names, r.choice([1, 1, 2, 3]))
        if r.random() < .2 and len(ns) > 1: ns[1] = ns[0]
        e = mod(e, sub(*[(n, subm()) for n in ns]))
    return G.ctx(e, 1), []
def f_call(G, r):
    e = G.expr(r.choice([2, 3, 3, 4]))
    if r.random() < .35: e = instrument(e)
    else:
        e = mod(e, r.choice([G.mapm(), G.film(), ign, exa(2)])) if r.random() < .5 else e
    return G.ctx(e, 1), []
def f_com(G, r):
    e = G.expr(r.choice([0, 1, 2, 2]))
    if r.random() < .4: e = sprinkle(e, r, [com], r.choice([1, 1, 2]))
    e = mod(e, com)
    if r.random() < .25: e = mod(e, r.choice([ign, joi, exa(1), exa(2), mp("mI", 2), nam("x"), com, fil("fP", 201)]))
    return G.ctx(e, 2, ["pre", "post", "optpre", "alt1", "alt2", "opt", "star", "exa", "del", "sep", "ign", "com", "starpost", "nam"]), []
def f_rule(G, r):
    n = r.choice([1, 1, 2, 3])
    def body(i, d):
        k = r.random()
        if d == 0 or k < .2: return G.leafx()
        if k < .4: return seq(G.leaf_nonnull(), rule(r.randint(1, n)) if r.random() < .7 else body(i, d - 1))
        if k < .6: return or_(seq(G.leaf_nonnull(), body(i, d - 1)), body(i, d - 1))
        if k < .68: return seq(G.leaf_nonnull(), opt(rule(r.randint(1, n))))
        if k < .74: return seq(G.leaf_nonnull(), star(seq(G.leaf_nonnull(), body(i, d - 1))))
        if k < .8: return mod(seq(G.leaf_nonnull(), rule(r.randint(1, n))), r.choice([ign, mp("mI", G.uid()), fil("fP", 200), com, nam("x"), mp("mU", 3)]))
        if k < .86: return mod(seq(G.leaf_nonnull(), body(i, d - 1)), r.choice([dele, delk])(G.leaf_nonnull()))
        return seq(body(i, d - 1), G.leafx())
    rules = []
    for i in range(1, n + 1):
        b = body(i, 3)
        rt = r.choice(["rb", "rb", "rb", "-", "b", "l", "os", "sv", "void"])
        if rt == "void": b = mod(b, ign)
        if rt in ("b", "l"): b = mod(b, r.choice([mp("mI", i), mp("mI", 0), mp("mB", i), mp("cI", 0)]))
        if rt == "sv": b = mod(b, joi)
        if rt == "os": b = r.choice([mod(b, joi), opt(mod(b, joi))])
        rules.append((b, rt))
    return G.ctx(rule(1) if r.random() < .7 else seq(G.leafx(), rule(r.randint(1, n))), 2), rules
def f_val(G, r):
    m = G.mapm()
    x = G.expr(r.choice([1, 2, 2, 3]))
    if m["f"][0] == "a" and r.random() < .8:
        x = r.choice([lambda: seq(G.expr(1), G.expr(1)), lambda: mod(G.expr(1), exa(r.choice([2, 3]))), lambda: mod(G.leaf_nonnull(), delk(G.leaf_nonnull())),
                      lambda: seq(mod(G.leafx(), mp("mU", 1)), mod(G.leafx(), mp("mU", 2))), lambda: mod(mod(G.leafx(), mp("mU", 1)), exa(3))])()
    e = mod(x, m)
    if r.random() < .5: e = mod(e, G.mapm())
    return G.ctx(e, 2, ["pre", "post", "both", "alt1", "opt", "star", "exa", "del", "nam", "map", "sep", "optpre", "com"]), []
def f_fil(G, r):
    f = G.film()
    x = G.expr(r.choice([0, 1, 2, 2]))
    if f["f"][0] == "g": x = r.choice([lambda: seq(G.expr(1), G.expr(1)), lambda: mod(G.expr(1), exa(2)), lambda: mod(G.leaf_nonnull(), delk(G.leaf_nonnull())), lambda: seq(mod(G.leafx(), mp("mU", 1)), mod(G.leafx(), mp("mK", 2)))])()
    elif r.random() < .2: x = mod(x, r.choice([ign, mp("mV", 1), mp("mU", 2), mp("mI", 3)]))
    return G.ctx(mod(x, f), 3), []

FOCUS = {"C01": (f_core, PLAIN), "C02": (f_back, {"fil": .4}), "C03": (f_look, FUN), "C04": (f_type, {"map": 1.5, "fil": .5}), "C05": (f_core, PLAIN), "C06": (f_choice, PLAIN),
         "C07": (f_rep, PLAIN), "C08": (f_del, {"map": .6}), "C09": (f_join, {}), "C10": (f_simp, PLAIN), "C11": (f_class, PLAIN), "C12": (f_mod, PLAIN), "C13": (f_sub, PLAIN),
         "C14": (f_call, {"map": 4, "fil": 3}), "C15": (f_com, {"map": .5, "fil": .5}), "C16": (f_core, {"map": 1, "fil": 1}), "C17": (f_core, {"map": .5, "fil": .3}), "C18": (f_rule, PLAIN),
         "C20": (f_call, {"map": 3, "fil": 2}), "C21": (f_val, {"map": 1.5}), "C22": (f_fil, {"map": .8, "fil": 1})}

# ------------------------------------------------------------------------------------------------ boundary cases: sizes, depths, odd elements, earlier defects
def boundary(prop):
    out = []
    def P(main, w, rules=(), **k): out.append(Prog(main, rules, w=[syms(x) if isinstance(x, str) else x for x in w], note="boundary", **k))
    a, b, ab = any_("a"), any_("b"), all_("ab")
    sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
    S = lambda base, post="": ["%s%s" % (base * n, post) for n in sizes]
    digits = "0123456789"
    if prop in ("C01", "C02", "C03", "C05", "C07", "C10", "C16"):
        P(star(a), S("a")); P(seq(star(a), b), S("a", "b")); P(plus(seq(a, b)), S("ab") + S("ab", "a")); P(star(seq(ignl("a"), opt(b))), S("ab", "a"))
        for n in (8, 16, 17, 32) + ((255, 256, 257, 300, 1000) if prop == "C07" else (256, 300)): P(mod(a, exa(n)), ["a" * k for k in (n - 2, n - 1, n, n + 1, 2 * n, n % 256)])
        for n in (256, 257): P(mod(seq(mod(ignl("a"), exa(n)), b), com), ["a" * k + "b" for k in (n - 256, n - 1, n, n + 1)]); P(mod(mod(any_("ab"), exa(n)), joi), ["ab" * 128 + "a" * k for k in (0, 1, 2)] + ["a", ""])
        P(mod(mod(seq(a, opt(b)), exa(260)), mp("mI", 1)) if prop == "C16" else mod(seq(a, opt(b)), exa(260)), ["ab" * 130, "ab" * 260, "a" * 260, "aab" * 130, "a" * 4])
        for n in (7, 8, 9, 15, 16, 17, 24, 33, 64, 65):
            word = "".join(chr(97 + (i * 7) % 26) for i in range(n))
            P(seq(all_(word), opt(a)), [word, word + "a", word[:-1], word[:-1] + "~", word[1:], "~" + word[1:], word[:n // 2] + "~" + word[n // 2 + 1:], word + word])
        parts = [all_(chr(65 + i)) if i % 3 else ignl(chr(65 + i)) for i in range(12)]
        full = "".join(chr(65 + i) for i in range(12))
        P(mod(seq(*parts), com), [full, full[:-1], full + "x", full[:5] + "x" + full[6:]])
        P(seq(*[opt(any_(chr(65 + i))) for i in range(10)]), [full, full[::2], full[::-1], "", "J", "AJ"])
        P(or_(*[seq(all_(full[:i]), all_("!")) for i in range(8, 0, -1)]), [full[:i] + "!" for i in range(9)] + [full[:i] for i in range(9)])
        x = a
        for i in range(14): x = seq(any_("ab"), opt(x))
        P(x, ["a" * i for i in range(0, 17)])
        x = b
        for i in range(12): x = or_(seq(a, x), any_("c"))
        P(x, ["a" * i + "b" for i in range(14)] + ["a" * i + "c" for i in range(14)])
        P(seq(all_("\x00a"), none_("\x00"), anyv()), ["\x00abc", "\x00a\x00c", "\x00", "\x00a", "\x00ab"])
        P(all_("\xff\x80\x7f"), ["\xff\x80\x7f", "\xff\x80", "\x7f\x80\xff"])
        P(eps(), ["", "a"]); P(all_(""), ["", "a"]); P(seq(eps(), eps()), ["", "a"]); P(any_(""), ["", "a"]); P(none_(""), ["", "a", "\x00"])
    if prop == "C04":
        for n in (1, 2, 5, 17): P(mod(a, exa(n)), ["a" * n]); P(mod(seq(a, ignl("b")), exa(n)), ["ab" * n])
        ks = ["S", "i", "o", "v", "t", "b", "k", "r2", "r3", "p", "x", "u", "vo"]
        P(or_(*[kinds(None, k, i) for i, k in enumerate(ks)]), ["A"]); P(seq(*[kinds(None, k, i) for i, k in enumerate(ks)]), ["A"])
        P(or_(*[kinds(None, k, i) for i, k in enumerate(ks[:5] + ["V"] + ks[:5] + ["V"] + ks)]), ["A"])
        P(opt(opt(mod(opt(a), nam("x")))), ["a"]); P(star(mod(star(seq(a, star(b))), nam("q"))) if False else mod(star(a), joi), ["a"])
    if prop == "C05":
        P(mod(star(seq(a, opt(b), ignl("c"))), delk(all_("--"))), ["acabc--ac--abcac", "ac--", "abc--abc--x", ""])
        P(seq(star(mod(any_("ab"), exa(2))), star(anyv())), ["abab" * k + "a" for k in range(0, 12)])
    if prop == "C06":
        for n in (2, 8, 9, 10, 16, 20):
            alts = [kinds(None, ["S", "i", "V", "o", "k", "v", "b", "t"][i % 8], i) for i in range(n)]
            P(or_(*alts), [chr(65 + i) + t for i in range(n) for t in ("", "b", "bc", "bb")] + ["", "z"])
        # D1: duplicates among the alternatives
        for ks in (["S", "i", "S", "k"], ["S", "S", "i", "S", "k", "i"], ["i", "V", "i", "S", "V", "S", "i"], ["S", "i", "k", "k", "i", "S", "o"]):
            P(or_(*[kinds(None, k, i) for i, k in enumerate(ks)]), [chr(65 + i) + t for i in range(len(ks)) for t in ("", "b")])
            P(seq(or_(*[kinds(None, k, i) for i, k in enumerate(ks)]), opt(any_("d"))), [chr(65 + i) + t for i in range(len(ks)) for t in ("", "b", "d", "bd")])
        P(or_(seq(a, b), a, mod(a, mp("mI", 1))), ["ab", "a", "b", "aab"]); P(oreps(mod(a, mp("mI", 1))), ["a", ""]); P(or_(ignl("b"), mod(a, mp("mU", 1)), all_("c")), ["a", "b", "c"])
    if prop == "C07":
        for n in (1, 2, 3, 9, 31, 64, 100):
            P(mod(seq(a, opt(b)), exa(n)), ["a" * k for k in (0, n - 1, n, n + 1)] + ["ab" * k for k in (n - 1, n, n + 1)])
            P(seq(opt(mod(ab, exa(n))), opt(a)), ["ab" * k for k in (0, n - 1, n, n + 1)])
        P(star(seq(ignl("a"), ignl("b"))), S("ab", "a")); P(plus(mod(a, mp("mU", 1))), S("a")); P(seq(star(star(a)) if False else star(plus(a)), b), ["aaab", "b", "a"])
        P(star(mod(a, mp("mB", 1))), ["", "a", "aa", "ab"]); P(opt(mod(a, mp("mU", 2))), ["", "a", "b"])
    if prop == "C08":
        for k in (dele, delk):
            P(mod(a, k(b)), ["ab" * n for n in sizes] + ["ab" * n + "a" for n in sizes]); P(mod(plus(a), k(seq(b, b))), ["aabb" * n + "a" for n in sizes[:12]] + ["aabba", "aabb", "aab", "bb"])
            P(mod(mod(a, k(all_(","))), k(all_(";"))), ["a,a;a", "a,a;", "a,;a", "a;a,a;a", ",a", "a,a;a,"]); P(mod(mod(a, mp("mU", 1)), k(mod(b, mp("mU", 2)))), ["aba", "ab", "ababa", "", "b"])
            P(mod(seq(a, b), k(a)), ["ab", "aba", "abaab", "abaa", "abaaba"]); P(mod(opt(a), k(b)), ["", "b", "bb", "aba", "abba", "abb"]); P(mod(ignl("a"), k(ignl("b"))), ["aba", "ab", "b"])
            P(mod(ignl("a"), k(any_("bc"))), ["aba", "abaca", "ab", "b"]); P(seq(mod(a, k(seq(b, opt(any_("c"))))), star(anyv())), ["abcaba", "abcabc", "abc"])
            P(mod(a, k(opt(b))), ["aaaba", "abab", "aab", ""]); P(mod(a, k(mod(b, com))), ["aba", "ab"]); P(mod(mod(a, mp("mB", 1)), k(mod(b, mp("mB", 2)))), ["ababa", "ab"])
    if prop == "C09":
        for base in (any_("a"), none_("b"), anyv(), all_("ab"), all_("a"), any_("ab")):
            for r_ in (star(base), plus(base), opt(base), mod(base, exa(1)), mod(base, exa(2)), mod(base, exa(9))):
                P(mod(r_, joi), S("a")[:14] + S("ab")[:14] + ["b", "ba", "aab", "abb"]); P(seq(opt(all_("z")), mod(r_, joi), opt(b)), ["z", "za", "zab", "zabab", "", "b", "zb", "zaaaaaaaaab", "aaaaaaaaaa", "ab" * 9 + "b"])
        P(mod(seq(opt(a), opt(b)), joi), ["", "a", "b", "ab", "c"]); P(seq(ignl("z"), mod(seq(star(a), star(b)), joi)), ["z", "zc", "zab"])
        P(mod(seq(a, seq(ignl("x"), seq(opt(b), star(all_("c"))))), joi), ["ax", "axb", "axc", "axbcc", "a"]); P(mod(star(seq(a, opt(ignl("x")))), joi), ["a", "ax", "axa", "aa", "aaxaa", ""])
        P(mod(mod(a, delk(b)), ign), ["ab"]); P(mod(seq(ignl("x"), a, b, ignl("x")), joi), ["xabx", "xab"]); P(mod(mod(a, dele(ignl("b"))), joi), ["a", "aba"])
        for gap in (ignl("-"), opt(ignl("-")), star(ignl("-"))):
            for part in (any_("ab"), ab, opt(any_("ab")), star(any_("ab")), seq(any_("ab"), opt(any_("c")))):
                for x in (seq(gap, part), seq(part, gap)):
                    ws = ["", "-", "a", "ab", "aa", "a-b", "-ab", "ab-", "aab", "a-ab", "aa-b", "-aab", "aab-", "-a-b", "-ab-ab", "ab-ab", "abab", "ab-abab", "abab-ab", "ababab", "-ab-ab-ab", "abc-", "acb-a"]
                    for n in (2, 3, 4): P(mod(x, exa(n), joi), ws)
                    P(mod(seq(x, opt(x)), joi), ws); P(mod(seq(opt(x), x, opt(x)), joi), ws)
                    if not nullable(x): P(mod(star(x), joi), ws); P(mod(plus(x), exa(2), joi), ws); P(mod(mod(x, dele(all_(","))), joi), ["a", "a,a", "-a,a", "a,-a", "a-,a", "ab,ab", "ab-,ab"])
        P(mod(mod(any_("ab"), exa(3)), exa(2), joi), ["ababab", "ababa", "abababa"]); P(mod(opt(opt(star(ab)) if False else opt(plus(ab))), joi), ["", "ab", "abab", "a"])
    if prop == "C10":
        P(or_(any_("ab"), none_("a"), any_("c")), ["", "a", "b", "c", "d"]); P(oreps(oreps(a)), ["", "a"]); P(star(opt(plus(a))), S("a")[:12]); P(plus(opt(a)), S("a")[:12]); P(opt(plus(a)), S("a")[:12]); P(opt(star(a)), ["", "aa"])
        P(or_(a, a), ["a", ""]); P(or_(or_(ab, a), or_(ab, a)), ["ab", "a", ""]); P(or_(a, ab, a), ["a", "ab", "b"]); P(seq(all_("a"), seq(all_("b"), all_("c")), all_("d")), ["abcd", "abc", "abcde"]); P(seq(seq(all_("a"), b), seq(all_("c"), all_("d"))), ["abcd", "abc"])
        mid = [all_("bc"), all_("b"), ignl("bc"), seq(all_("b"), opt(all_("c"))), none_("xyb"), star(all_("b")), mod(all_("bc"), nam("n")), any_("bx"), eps()]
        ws = ["", "a", "b", "c", "x", "bc", "bcd", "xb", "z", "zz", "cb", "-", "az"]
        for m in mid:
            for f, g in ((any_("xy"), any_("bz")), (any_("xy"), none_("xyz")), (none_("bz"), any_("bz")), (none_("xyz"), none_("bz")), (all_("x"), all_("xb"))):
                P(or_(f, m, g), ws); P(orr(f, m, g), ws); P(or_(m, f, g), ws); P(or_(f, g, m), ws); P(or_(or_(f, m), or_(g, all_("az"))), ws); P(or_(all_("az"), f, m, g), ws); P(seq(f, m, g), ws)
            for l, k in ((all_("b"), all_("bc")), (all_("bc"), all_("b"))): P(or_(l, k), ws); P(or_(l, m, k), ws); P(or_(m, l, k), ws); P(seq(or_(l, k), opt(anyv())), ws); P(or_(seq(or_(l, k), ignl("d")), star(anyv())), ws + ["bd", "bcd"])
        P(or_(seq(a, b), seq(a, b)), ["ab", "a"]); P(or_(seq(a, b), seq(a, b), a), ["ab", "a"])
        # the same operand again under another operator
        us = [lambda x: x, opt, plus, star, oreps, lambda x: mod(x, ign), lambda x: mod(x, joi), lambda x: mod(x, exa(2))]
        k = 0
        for u, v in itertools.product(us, us):
            for x, y, xs in ((ignl("a"), ignl("b"), "a"), (a, b, "a"), (all_("ab"), a, "ab"), (seq(a, opt(b)), b, "ab")):
                k += 1
                if k % 2 == 0 and x["o"] != "ignl": continue   # every other one, both for the valueless operand
                ws = ["", xs, xs * 2, xs * 3, xs * 4, xs + "b", xs + "a", "a" + xs, "b"]
                P(seq(u(x), v(x)), ws); P(or_(u(x), v(x)), ws)
                w = us[(k * 5) % len(us)]
                P([lambda: seq(u(x), y, v(x)), lambda: or_(seq(u(x), y), v(x)), lambda: seq(u(x), or_(v(x), y)), lambda: or_(seq(u(x), y), seq(v(x), x)), lambda: seq(u(x), v(x), w(x)), lambda: or_(u(x), seq(x, y), v(x))][k % 6](), ws)
    if prop == "C11":
        allc = list(range(-128, 128))
        one = [[x] for x in allc]
        P(any_("abc"), one); P(none_("abc"), one); P(any_([-1, 0, 127, -128]), one); P(none_([-1, 0, 127, -128]), one); P(or_(any_([-1, 0]), none_([0, 1])), one); P(not_(or_(any_("a"), any_("zab"))), one)
        P(any_(allc[::3]), one); P(none_(allc[::3]), one); P(or_(none_("ab"), none_("bc")), one); P(or_(any_("ab"), none_("bc")), one); P(or_(none_("bc"), any_("ab")), one); P(any_([]), one + [[]]); P(none_([]), one + [[]])
        P(none_(digits), one); P(any_(digits[::-1] * 2), one); P(not_(none_(digits[::-1])), one)
        # elements of a wider type that equal a listed one only modulo the narrower type
        for el, inel in (("char", "int"), ("char", "char32_t"), ("char", "wchar_t"), ("uchar", "int"), ("uchar", "uint"), ("schar", "long"), ("char8_t", "char32_t"), ("char16_t", "char32_t"), ("short", "int"), ("char", "double"), ("uchar", "short")):
            mods = [0, 256, 65536, -256, -65536]
            vals = [[v + m] for v in (97, 98, 99, 0, 122, 5) for m in mods if v + m >= 0 or inel in ("int", "long", "double", "short")]
            if inel == "short": vals = [v for v in vals if abs(v[0]) < 32768]
            for g in (any_("abc"), none_("abc"), not_(any_("abc")), or_(any_("ab"), any_("bc")), or_(none_("ab"), any_("c")), any_("a"), any_([97, 5, 0]), none_([97, 5, 0]), any_("abcdefghijklmnopqrstuvwxy"), none_("zyxwvutsrq"), all_("a"), seq(all_("a"), star(any_("ab")))): P(g, vals + [[97] + v for v in vals], elem=el, inelem=inel)
        for el, vals in (("int", [-2147483648, -1, 0, 1, 5, 2147483647, 65, 256]), ("uchar", [0, 1, 65, 127, 128, 254, 255]), ("long", [-1, 0, 5, 2147483647, -2147483648]), ("short", [-32768, -1, 0, 1, 32767]), ("schar", [-128, -1, 0, 127]),
                         ("uint", [0, 1, 2147483647, 77]), ("char16_t", [0, 65, 255, 256, 65535]), ("char32_t", [0, 65, 65535, 1114111]), ("wchar_t", [0, 65, 255, 300]), ("char8_t", [0, 65, 127, 128, 255]), ("struct", [-3, -1, 0, 2, 9]), ("enum", [-3, 0, 4, 77]), ("double", [-3, -1, 0, 2, 1000000])):
            i1 = [[v] for v in vals] + [[]]
            P(any_(vals[:2] + vals[-1:]), i1, elem=el); P(none_(vals[1:3] + vals[:1]), i1, elem=el); P(or_(none_(vals[1:4]), any_(vals[2:3])), i1, elem=el); P(or_(any_(vals[3:] + vals[:1]), any_(vals[1:4])), i1, elem=el); P(not_(any_(vals[::-1][:3])), i1, elem=el)
            if el not in ("enum", "struct"):
                for g in (any_(vals[:2] + vals[-1:]), none_(vals[1:4]), seq(all_(vals[:3]), opt(any_(vals[:2])))): P(g, i1 + [vals[:3], vals[:3] + vals[:1]], elem=el, style="last"); out[-1].everywhere = True
            P(seq(all_(vals[::-1]), opt(any_(vals[-2:]))), [vals[::-1], vals, vals[::-1] + vals[-1:], vals[::-1][:-1]], elem=el)
    if prop == "C12":
        for ms in ([mp("mI", 1), mp("mI", 2), mp("mK", 3)], [exa(2), joi, mp("mI", 1)], [joi, exa(2)], [ign, exa(2)], [exa(2), ign], [com, ign], [mp("aI", 1)], [fil("gP", 200), mp("aI", 2)], [dele(b), exa(2)], [nam("x"), sub(("x", mp("mI", 3)))]):
            for x in (a, seq(a, b), mod(seq(a, b), nam("x")), star(a)):
                ws = ["", "a", "ab", "aa", "abab", "aba", "aaa", "b"]
                P(mod(x, *ms), ws); P(mod(x, multi(*ms)), ws); P(mod(x, multi(*ms)), ws, style=1); P(mod(x, *ms), ws, style=2)
        # every notation of a list; the separator with a function, without a value, named, a rule
        sv, ws = ignl("b"), ["", "a", "ab", "aba", "ababa", "abb", "aa", "bab"]
        for d in (b, sv, mod(sv, fil("fF", 1)), mod(sv, fil("fT", 1)), mod(b, mp("mV", 2)), mod(sv, mp("mI", 2)), mod(mod(b, mp("mI", 3)), ign), mod(sv, nam("x")), mod(sv, com), mod(sv, exa(2)), seq(sv, opt(sv)), or_(sv, ignl("bb")), rule(1)):
            for k in (dele, delk):
                for x in (a, ignl("a"), mod(a, mp("mI", 1))):
                    for st in ("first", "second", "third"): P(mod(x, k(d)), ws, style=st, rules=[(mod(sv, mp("mV", 4)), "void")] if d["o"] == "rule" else ())
        for m in (ign, com, joi, exa(2), nam("x"), mp("mI", 1), fil("fT", 1), sub(("x", exa(2)))):
            for x in (a, mod(plus(a), nam("x")), seq(a, mod(opt(a), nam("x")))):
                for st in ("first", "second"): P(mod(x, m), ["", "a", "aa", "aaa", "ab"], style=st)
        P(mod(a, multi(*[mp("mI", i) for i in range(9)])), ["a", "b"]); P(mod(a, multi(multi(mp("mI", 1), mp("mI", 2)), multi(mp("mI", 3), multi(mp("mI", 4), mp("mI", 5))))), ["a"])
    if prop == "C13":
        x = lambda e: mod(e, nam("x"))
        deep = x(a)
        for f in (lambda q: mod(q, com), lambda q: mod(q, exa(1)), lambda q: mod(q, mp("mM", 1)), lambda q: mod(q, fil("fT", 1)), lambda q: mod(q, nam("y")), lambda q: opt(q), lambda q: seq(q, ignl("b")), lambda q: or_(q, all_("c"))): deep = f(deep)
        ws = ["ab", "a", "b", "c", "", "aab", "abab"]
        for m in (ign, mp("mI", 3), mp("mK", 2), exa(2), fil("fF", 2), joi, nam("z")):
            P(mod(deep, sub(("x", m))), ws); P(mod(mod(deep, nam("L:x")), sub(("x", m))), ws); P(mod(mod(deep, nam("L:x")), sub(("L:x", m))), ws); P(mod(x(mod(x(a), mp("mI", 4))), sub(("x", m))), ws)
            P(mod(mod(x(a), dele(x(b))), sub(("x", m))), ["a", "ab", "aba", "aabb", "aabbaa"]); P(mod(mod(x(a), delk(x(b))), sub(("x", m))), ["a", "ab", "aba"]); P(mod(star(seq(x(a), opt(x(b)))), sub(("x", m))), ["a", "ab", "aba", "aabb"])
            P(mod(seq(x(a), mod(x(b), nam("y"))), sub(("y", mp("mI", 1)), ("x", m))), ws); P(mod(seq(x(a), mod(x(b), nam("y"))), sub(("x", m), ("y", mp("mI", 1)))), ws); P(mod(mod(seq(x(a), mod(x(b), nam("y"))), sub(("x", nam("y")))), sub(("y", m))), ws)
            P(mod(seq(x(rule(1)), x(b)), sub(("x", m))), ws, rules=[(x(a), "-")]); P(mod(mod(x(plus(a)), joi), sub(("x", m))), ["aa", "a"]); P(mod(seq(*[mod(any_("ab"), nam("n%d" % (i % 3))) for i in range(7)]), sub(("n0", mp("mI", 1)), ("n1", ign), ("n2", m))), ["abababa", "aaaaaaaaaa"])
    if prop in ("C14", "C20"):
        f = lambda x, k: mod(x, mp("mV", k))
        g = lambda x, k: mod(x, fil("fT", k))
        ws = ["", "a", "b", "ab", "aab", "abab", "aabb", "ba", "abc"]
        # D8: valueless elements are parsed, not looked ahead
        P(seq(f(a, 1), f(b, 2)), ws); P(or_(seq(f(a, 1), f(b, 2)), f(a, 3)), ws); P(mod(seq(f(a, 1), f(b, 2)), exa(2)), ws); P(star(f(a, 1)), ws); P(seq(f(a, 1), b), ws); P(or_(f(a, 1), b), ws); P(mod(f(a, 1), dele(f(b, 2))), ws); P(mod(f(a, 1), delk(f(b, 2))), ws)
        P(opt(f(a, 1)), ws); P(mod(f(a, 1), com), ws); P(plus(seq(f(a, 1), g(ignl("b"), 2))), ws); P(or_(g(ignl("a"), 1), g(ignl("b"), 2)), ws); P(seq(g(ignl("a"), 1), g(ignl("b"), 2)), ws); P(mod(seq(f(a, 1), b), ign), ws); P(mod(g(f(a, 1), 2), mp("mV", 3)), ws)
        P(mod(seq(f(a, 1), mod(b, mp("mI", 2))), joi) if False else mod(f(a, 1), nam("x")), ws); P(seq(*[f(opt(any_(chr(97 + i))), i) for i in range(9)]), ["abcdefghi", "acegi", "", "bdfh", "i"]); P(mod(star(mod(a, mp("mI", 1))), mp("mI", 2)), S("a")[:10])
        P(seq(star(or_(seq(mod(a, mp("mI", 1)), mod(b, mp("mI", 2)), all_("c")), seq(mod(a, mp("mI", 3)), mod(b, mp("mI", 4))))), mod(star(anyv()), mp("mI", 5))), ["ab" * n + "c" for n in range(6)] + ["abc" * n + "ab" for n in range(6)])
        P(mod(f(rule(1), 7), exa(2)), ws, rules=[(seq(f(a, 1), opt(rule(1)), opt(f(b, 2))), "rb")] if False else [(or_(seq(f(a, 1), rule(1)), f(b, 2)), "void")])
        for fn in ("cI", "dI", "into", "dK", "mM", "mO", "mU"): P(or_(seq(mod(a, mp(fn, 3)), f(b, 1)), mod(a, mp(fn, 3))), ws)
    if prop == "C15":
        P(mod(star(a), com), S("a") + S("a", "b")); P(or_(mod(a, com), mod(ab, com), mod(all_("abc"), com)), ["a", "ab", "abc", "abcd", ""]); P(seq(opt(b), mod(star(a), com)), ["b", "baa", "bab", "aa", "", "bb"]); P(star(mod(ab, com)), ["ab", "abab", ""])
        P(mod(mod(a, dele(b)), com), ["aba", "ab", "abab"]); P(mod(a, dele(mod(b, com))), ["ab", "aba"]); P(mod(eps(), com), ["", "a"]); P(mod(mod(a, mp("mU", 1)), com), ["a", "aa"]); P(mod(mod(mod(a, com), ign), com), ["a", "aa", ""]); P(seq(mod(opt(a), com), opt(b)), ["a", "ab", ""])
        P(mod(seq(mod(star(a), com), eps()), exa(2)), ["a", "", "ab"]); P(mod(mod(a, com), exa(1), com), ["a", "aa"]); P(opt(mod(opt(a), com)), ["", "a", "ab", "b"]); P(mod(mod(a, mp("mV", 1)), com), ["a", "ab"]); P(mod(ignl("a"), com), ["a", "ab"])
        P(mod(rule(1), com), ["ab", "aabb", "aab", "aabbb"], rules=[(seq(a, opt(rule(1)), b), "rb")])
        ws = ["", "a", "b", "ab", "aa", "aba", "abab", "abb", "ba", "aab", "abc", "ac", "bab", "ababa"]
        # parse and lookahead may end at different places
        for f in (fil("fP", 200), fil("fP", 201), fil("fF", 1)):
            y = mod(any_("ab"), f)
            for x in (y, plus(y), star(y), opt(y), seq(y, opt(y)), or_(seq(y, y), a, b), or_(y, seq(a, b)), mod(y, exa(2)), mod(y, dele(b)), mod(seq(any_("ab"), opt(any_("ab"))), f), or_(mod(ab, f), a), mod(y, ign)): P(mod(x, com), ws); P(or_(mod(x, com), seq(a, b)), ws)
        g = mod(seq(a, ignl("b"), any_("ab")), joi)
        for x in (g, opt(g), or_(g, a), star(g), seq(opt(g), star(a)), or_(g, seq(a, b))): P(mod(x, com), ws)
        for x in nested(com): P(mod(x, com), ws); P(or_(seq(mod(x, com), opt(b)), star(anyv())), ws)
    if prop in ("C10", "C12", "C09"):
        ws = ["", "a", "b", "ab", "aa", "aba", "abab", "abb", "ba", "aab", "abc", "ac", "ababa"]
        for m in {"C10": (ign, joi, com), "C12": (ign, com), "C09": (joi,)}[prop]:
            for x in nested(m): P(mod(x, m), ws)
            if prop == "C12":
                for x in nested(m)[:16]: P(mod(x, multi(m, ign)), ws); P(mod(x, multi(com, m)), ws); P(mod(x, multi(ign, m)), ws); P(mod(x, multi(m, com)), ws); P(mod(x, multi(joi, m) if m["o"] != "joi" else m), ws)
    if prop == "C03":
        ws = ["", "a", "b", "ab", "aa", "aab", "abab", "ba", "aaab"]
        for fn in ("mI", "mV", "mU", "cI", "aI", "fT", "fP", "fF"):
            for rt in ("-", "rb", "l", "void"):
                x = any_("ab") if fn != "aI" else mod(any_("ab"), exa(2))
                d = mod(x, fil(fn, 200 if fn == "fP" else 1) if fn[0] == "f" else mp(fn, 1))
                if rt == "l" and fn not in ("mI", "cI", "aI"): d = mod(d, mp("mI", 3))
                if rt == "void" and fn != "mV": d = mod(d, ign)
                if rt == "void" and fn == "mI": d = mod(mod(x, mp("mI", 2)), mp("mV", 2))
                for y in (rule(1), mod(rule(1), ign), seq(mod(rule(1), ign), opt(b)), mod(a, dele(rule(1))), star(rule(1)), opt(mod(rule(1), com)), or_(seq(rule(1), all_("b")), a), mod(seq(rule(1), opt(rule(1))), ign), mod(rule(1), exa(2))): P(y, ws, rules=[(d, rt)])
    if prop == "C18":
        nest = lambda n: "a" * n + "b" * n
        deep = (300, 600)
        P(mod(rule(1), ign), [nest(n) for n in deep] + [nest(300)[:-1], "a" + nest(300)], rules=[(seq(ignl("a"), opt(rule(1)), ignl("b")), "void")])
        P(mod(rule(1), com), [nest(n) for n in deep] + [nest(300)[:-1], "a" + nest(300)], rules=[(or_(seq(ignl("a"), rule(1), ignl("b")), ab), "rb")])
        P(rule(1), ["a" * n for n in deep] + ["ab" * 260], rules=[(or_(seq(ignl("a"), rule(2)), mod(a, mp("mI", 1))), "rb"), (or_(seq(ignl("b"), rule(1)), seq(ignl("a"), rule(1)), mod(any_("ab"), mp("mI", 2))), "rb")])
        P(mod(rule(1), com), [nest(n) for n in (0, 1, 2, 3, 10, 50, 100, 200)] + ["aabbb", "aaab", "ba"], rules=[(seq(a, opt(rule(1)), b), "rb")])
        P(rule(1), [nest(n) for n in (0, 1, 2, 60)] + ["aab"], rules=[(seq(ignl("a"), oreps(rule(1)), ignl("b")), "void")])
        P(rule(1), ["a" * n for n in (0, 1, 2, 3, 50, 200)] + ["ab", "ba", "aba"], rules=[(or_(seq(a, rule(2)), a), "rb"), (or_(seq(b, rule(1)), seq(a, rule(1)), a), "rb")])
        for rt in ("rb", "b", "l", "os", "sv", "-", "void"):     # D2: a failure stays a failure
            x = {"b": mod(a, mp("mI", 3)), "l": mod(a, mp("mI", 0)), "void": mod(a, ign)}.get(rt, a)
            P(rule(1), ["a", "b", "", "ab"], rules=[(x, rt)]); P(or_(rule(1), all_("b")), ["a", "b", "", "ab"], rules=[(x, rt)]); P(star(rule(1)), ["", "aaab", "b"], rules=[(x, rt)]); P(seq(rule(1), rule(1)), ["aa", "ab", "a"], rules=[(x, rt)])
            P(opt(rule(1)), ["a", "b"], rules=[(x, rt)]); P(mod(rule(1), com), ["a", "aa", ""], rules=[(x, rt)]); P(mod(rule(1), dele(b)), ["aba", "ab", "b"], rules=[(x, rt)]); P(mod(seq(rule(1), opt(b)), exa(2)), ["aab", "ab", "aba"], rules=[(x, rt)])
        P(rule(1), ["", "a", "b"], rules=[(opt(a), "os")]); P(rule(1), ["", "a", "b"], rules=[(mod(opt(a), mp("mI", 0)), "b")]); P(rule(1), ["a", "b"], rules=[(mod(a, fil("fF", 1)), "rb")]); P(rule(1), ["a", "b"], rules=[(mod(a, mp("cI", 0)), "b")])
        P(mod(rule(1), ign), ["ab", "aabb", "b"], rules=[(seq(mod(a, mp("mI", 1)), opt(rule(1)), b), "rb")]); P(rule(1), ["a,a", "(a,a),a", "((a)", "(a),", "((a,a),(a))"], rules=[(mod(rule(2), dele(all_(","))), "rb"), (or_(a, seq(ignl("("), rule(1), ignl(")"))), "rb")])
        for q in recursion_shapes(): P(q[0], ["", "a", "ab", "aab", "aabb", "aaabbb", "aba", "aaaa", "a,a,ab", "b", "aaaaaabbbbb"], rules=q[1])
    if prop in ("C04", "C06", "C07", "C08", "C14", "C16", "C18", "C20", "C21", "C22"): out += lookalikes(prop)
    for x in wide():
        us = {"C01": [lambda x: x], "C02": [lambda x: or_(seq(x, all_("#")), star(anyv())), lambda x: star(seq(x, b))], "C03": [opt, lambda x: mod(x, exa(2))], "C06": [lambda x: x, lambda x: seq(x, all_("#"))], "C07": [opt, plus, star, lambda x: mod(x, exa(2))], "C08": [lambda x: mod(x, dele(all_(","))), lambda x: mod(x, delk(all_(","))), lambda x: mod(all_(","), dele(x)), lambda x: mod(all_(","), delk(x))],
              "C09": [lambda x: mod(x, joi), lambda x: mod(plus(x), joi), lambda x: mod(mod(x, exa(2)), joi), lambda x: mod(opt(x), joi)], "C10": [lambda x: or_(x, a), lambda x: seq(x, a), lambda x: or_(a, x), lambda x: seq(all_("a"), x)], "C12": [lambda x: mod(x, multi(ign, com)), lambda x: mod(x, ign, ign), lambda x: mod(x, multi(com, com, exa(1)))],
              "C13": [lambda x: mod(x, nam("n")), lambda x: mod(opt(mod(x, nam("n"))), sub(("n", com))), lambda x: mod(x, sub(("n", ign)))], "C14": [lambda x: mod(x, mp("mI", 1)), lambda x: mod(x, mp("mV", 1)), lambda x: opt(seq(mod(x, mp("mI", 1)), all_("#")))], "C15": [lambda x: mod(x, com), lambda x: or_(mod(x, com), star(anyv()))],
              "C16": [], "C18": [None], "C21": [lambda x: mod(x, mp("into")), lambda x: mod(x, mp("mI", 4)), lambda x: mod(x, mp("mM", 4))], "C22": [lambda x: mod(x, fil("fP", 200)), lambda x: or_(mod(x, fil("fP", 201)), a)]}.get(prop, [])
        for u in us:
            ws = wide_words(x)
            if prop == "C08": ws = ws + [syms(w) for w in ("ab,b", ",ab,", ",", ",a,b", "abc,abc,", "abab,abcd", ",abab,,")]
            if u is None:
                for rt in ("-", "rb"): out.append(Prog(rule(1), [(x, rt)], w=ws, note="boundary")); out.append(Prog(seq(opt(rule(1)), star(anyv())), [(x, rt)], w=ws, note="boundary"))
            else: out.append(Prog(u(x), (), w=ws, note="boundary"))
    if prop == "C21":
        for x in wide():
            if x["o"] == "seq": out.append(Prog(mod(x, mp("aI", 4)), (), w=wide_words(x), note="boundary")); out.append(Prog(mod(x, mp("aR", 4)), (), w=wide_words(x), note="boundary"))
    if prop == "C21":
        pr = seq(a, b)
        ws = ["ab", "a", "b", "abab", "abc", ""]
        for f in ("mI", "mB", "mK", "mU", "mV", "mM", "mO", "aI", "aK", "aU", "aV", "aR", "into", "ainto", "cI", "cB", "cK", "dI", "dK", "dI2"):
            for x in (pr, mod(any_("ab"), exa(2)), mod(a, delk(b)), mod(seq(mod(a, mp("mU", 1)), mod(b, mp("mU", 2))), nam("n")), mod(mod(any_("ab"), mp("mU", 1)), exa(2)), opt(mod(pr, mp("aU", 1))), star(mod(pr, mp("aU", 1))), mod(pr, ign), or_(mod(a, mp("mU", 1)), b), mod(mod(a, mp("mU", 1)), delk(mod(b, mp("mU", 2)))),
                      seq(a, opt(b), star(mod(any_("ab"), mp("mU", 1))), mod(anyv(), exa(2)))):
                P(mod(x, mp(f, 3)), ws + ["abababab"])
        P(mod(seq(*[mod(any_("ab"), mp("mU", i)) for i in range(9)]), mp("aR", 1)), ["ababababa", "abababab"]); P(mod(mod(any_("ab"), exa(12)), mp("aI", 1)), ["ab" * 6, "ab" * 5]); P(mod(mod(a, mp("mU", 1)), mp("mM", 1), mp("mM", 2), mp("mM", 3)), ["a"])
        u, k, i, s = mod(a, mp("mU", 1)), mod(any_("ab"), mp("mK", 2)), mod(b, mp("mI", 3)), mod(plus(any_("ab")), joi)
        for e in (mod(k, mp("kI", 4)), mod(u, mp("uK", 5)), mod(u, mp("uK", 4)), mod(i, mp("iI", 6)), mod(i, mp("iI", 7)), mod(s, mp("sI", 8)), mod(any_("ab"), mp("sI", 9)), mod(seq(u, i), mp("pK", 1)), mod(u, mp("uK", 2), mp("kI", 3), mp("iI", 4), mp("lI", 5)),
                  mod(ignl("a"), mp("lI", 1)), mod(seq(u, k), mp("lI", 2)), mod(k, fil("kP", 200)), mod(k, fil("kP", 201), mp("kI", 2)), mod(k, multi(mp("kI", 1), mp("iI", 2))), mod(seq(u, ignl("b"), i), mp("pK", 3))):
            P(e, ws + ["abb", "bab"]); P(opt(e), ws); P(plus(e), ws + ["abababab"]); P(or_(seq(e, all_("c")), e, star(anyv())), ws + ["abbc", "abc"]); P(mod(e, exa(2)), ws); P(mod(e, delk(all_(","))), ["a,b", "b,a", "ab,abb", "a,", "abb,abb,"]); P(rule(1), ws, rules=[(e, "-")])
            P(seq(mod(e, nam("n")), opt(e)), ws + ["abbabb"])
        P(star(mod(a, mp("mU", 1))), S("a")[:12]); P(mod(plus(mod(a, mp("mU", 1))), mp("mM", 1)), S("a")[:12])
    if prop == "C22":
        ws = ["", "a", "b", "ab", "ba", "aab", "abab", "bbaa", "abb"]
        for f in (fil("kP", 200), fil("kP", 301), fil("lP", 201)):
            k = mod(mod(any_("ab"), mp("mK", 1)), f)
            for e in (k, seq(k, opt(k)), star(k), or_(k, any_("ab")), or_(seq(k, b), seq(k, k)), mod(k, dele(k)), mod(k, exa(2)), mod(k, ign), mod(mod(k, mp("kI", 1)), fil("lP", 200))): P(e, ws)
        for x in (any_("ab"), seq(any_("ab"), opt(any_("ab"))), ignl("a"), star(any_("ab")), mod(any_("ab"), mp("mU", 1)), mod(any_("ab"), mp("mV", 1)), opt(a), mod(any_("ab"), exa(2)), mod(a, delk(b))):
            for f in (fil("fP", 200), fil("fP", 201), fil("fF", 1), fil("fT", 1), fil("fI", 2), fil("fI", 3)):
                y = mod(x, f)
                P(y, ws); P(or_(y, star(anyv())), ws); P(seq(opt(y), star(anyv())), ws); P(or_(mod(y, ign), star(anyv())), ws)
                if not nullable(x): P(seq(star(y), opt(anyv())), ws); P(mod(y, dele(all_(","))), ws + ["a,b", "a,a,b"])
                if x["o"] == "seq" or x["o"] == "mod" and x["m"][0]["o"] in ("exa", "delk"): P(mod(x, fil("gP", 201)), ws); P(or_(mod(x, fil("gF", 1)), any_("ab")), ws)
    return out

def wide():
    """choices and sequences of three to seven parts, valued or not, with earlier alternatives that begin like later ones"""
    a, b, c = any_("a"), any_("b"), any_("c")
    alts = [all_("abc"), all_("ab"), a, mod(all_("abcd"), mp("mK", 1)), ignl("b"), seq(b, c), seq(a, b, c, opt(all_("d")))]
    parts = [a, opt(b), all_("ab"), ignl("c"), star(b), mod(any_("ab"), mp("mU", 1)), any_("cd")]
    out = []
    for n in (3, 4, 5, 7):
        out += [or_(*alts[:n]), or_(*alts[:n][::-1]), seq(*parts[:n]), seq(*parts[7 - n:])]
    out += [or_(all_("a"), all_("x"), all_("y"), all_("ab")), or_(all_("a"), any_("xy"), all_("bb"), all_("ab"), all_("abab")), or_(ignl("a"), ignl("x"), ignl("y"), ignl("ab")), seq(ignl("a"), ignl("b"), ignl("a"), ignl("b")), seq(a, b, a, b), seq(ignl("a"), opt(b), ignl("a"), ignl("b"))]
    return [x for x in out]
def wide_words(x):
    return [syms(w) for w in ("", "a", "ab", "abc", "abcd", "b", "bc", "abab", "aab", "y", "x", "xy", "bb", "abb", "aabc", "aabcbb", "aabcbbac", "abcbbad", "babcad", "cbbac", "abcabc", "abcdab", "abababab", "a#", "ab#", "abc#", "abcd#", "abb", "aa", "aabcb", "abcbac", "abca", "bad", "cad", "cbad", "ad")]

def lookalikes(prop):
    """functions whose values look like those of combinators: they are no less opaque than other values"""
    ab, a, b = any_("ab"), any_("a"), any_("b"); ws = ["", "a", "b", "ab", "ba", "aab", "aba", "abab", "bbaa", "a,b", "a,b,", "ab,ba"]
    out = []
    for f in ("mO", "mT", "mX", "mL", "mA", "mP", "mE"):
        y = mod(ab, mp(f, 3)); z = mod(b, mp(f, 4))
        es = {"C04": (y, opt(y), star(y), seq(y, y), seq(y, opt(b)), or_(y, a, seq(z, z)), mod(y, exa(2)), mod(seq(y), nam("n")), mod(y, dele(z)), mod(seq(y, ignl("b")), com)),
              "C06": (or_(seq(y, all_(",")), mod(a, mp("mI", 1)), b), or_(seq(mod(a, mp("mI", 1)), all_(",")), y, z), or_(seq(z, z), mod(b, mp("mK", 1)), mod(y, nam("n"))), or_(mod(seq(a, a), ign), y), or_(mod(b, mp("mB", 2)), opt(mod(a, mp(f, 3))))),
              "C07": (opt(y), seq(opt(y), opt(z)), star(y), plus(seq(y, opt(z))), mod(y, exa(2)), mod(opt(y), exa(2)), opt(opt(mod(y, nam("n")))), star(mod(y, exa(2)))), "C08": (mod(y, dele(b)), mod(y, dele(ignl(","))), mod(y, delk(all_(","))), mod(y, delk(mod(any_(",b"), mp(f, 5)))), mod(seq(y, opt(z)), delk(all_(",")))),
              "C14": (mod(y, mp("mI", 1)), mod(seq(y, opt(z)), mp("mV", 1)), mod(mod(y, mp("mM", 1)), fil("fP", 200))), "C16": (y, seq(y, z), opt(y), or_(seq(y, y), y)), "C18": (rule(1), seq(rule(1), opt(rule(1))), star(rule(1))), "C20": (star(y),),
              "C21": (y, mod(y, mp("mI", 1)), mod(y, mp("mM", 1)), mod(y, mp("into")), mod(y, mp(f, 2)), mod(seq(y, opt(z)), mp("aI", 1)), mod(seq(y, z), mp("aR", 1)), mod(seq(y, z), mp("ainto")), mod(mod(y, exa(2)), mp("aI", 2)), mod(star(y), mp("mK", 2)), opt(mod(y, mp("mU", 1)))) + (() if f in ("mO", "mX", "mL") else (mod(y, mp("aI", 1)), mod(y, mp("aR", 1)), mod(y, mp("ainto")), mod(y, mp("aU", 2)), seq(mod(y, mp("aV", 2)), b), star(mod(y, mp("aK", 2))))),
              "C22": (mod(y, fil("fP", 200)), star(mod(y, fil("fP", 201))), mod(y, fil("lP", 200)), or_(mod(y, fil("fF", 1)), a), opt(mod(seq(y, z), fil("gP", 200)))) + (() if f in ("mO", "mX", "mL") else (mod(y, fil("gP", 201)), star(mod(y, fil("gT", 1)))))}[prop]
        for e in es:
            rs = [(mod(ab, mp(f, 3)), r) for r in ("-", "rb")] if prop == "C18" else [None]
            for r in rs: out.append(Prog(e, [r] if r else (), w=[syms(w) for w in ws], note="boundary"))
    return out

def callers():
    """every kind of user function, called in every position, in user-defined parsers too"""
    a, b = any_("a"), any_("b"); ab = any_("ab"); u = mod(a, mp("mU", 1)); k = mod(ab, mp("mK", 2)); i = mod(b, mp("mI", 3))
    fs = [mod(seq(ab, opt(b)), mp("aI", 1)), mod(seq(u, i), mp("pK", 2)), mod(seq(ab, ab), mp("aV", 3)), mod(seq(ab, k), mp("aR", 4)), mod(mod(ab, exa(2)), fil("gP", 200)), mod(mod(ab, delk(all_(","))), mp("aK", 5)), mod(k, mp("kI", 6)), mod(u, mp("uK", 7)),
          mod(i, mp("iI", 8)), mod(plus(ab), mp("lI", 9)), mod(mod(plus(ab), joi), mp("sI", 1)), mod(k, fil("kP", 200)), mod(seq(ab, opt(i)), fil("gT", 2)), mod(ignl("a"), mp("mV", 3)), mod(seq(u, u), mp("aU", 4)), mod(mod(ignl("a"), fil("fT", 3)), mp("mI", 4))]
    ws = [syms(w) for w in ("ab", "abab", "aab", "ba", "a,b,a", "abb", "aabb", "aa", "")]
    out = []
    for n, f in enumerate(fs):
        main, rules = [(star(f), ()), (rule(1), [(f, "-")]), (mod(rule(1), mp("mI", 5)), [(seq(f, opt(rule(1))), "rb")]), (or_(seq(f, all_("c")), f), ())][n % 4]
        p = Prog(main, rules, w=ws, note="callers"); out.append(p)
    return out

def every_kind():
    """a parser of every kind on every short input: many inputs of the same size"""
    a, b = any_("a"), any_("b"); ab = any_("ab"); seqs = seq(ab, opt(b)); i = mp("mI", 1)
    es = [all_("ab"), none_("b"), star(ab), plus(all_("ab")), opt(all_("ab")), or_(all_("ab"), a, b), seq(a, star(b)), mod(ab, exa(2)), mod(seqs, ign), mod(seqs, joi), mod(ab, dele(b)), mod(ab, delk(b)), mod(seqs, com), mod(plus(ab), nam("n")), mod(seqs, i), mod(ab, fil("fT", 1)), oreps(ab), seq(ignl("a"), ab), mod(seqs, com, nam("n")), rule(1), mod(star(rule(1)), joi)]
    ws = [list(w) for n in range(4) for w in itertools.product([97, 98], repeat=n)]
    out = []
    for k in range(0, len(es), 3):
        # three at a time, side by side
        x, y, z = es[k:k + 3]
        for e in (seq(x, opt(y)), mod(or_(seq(mod(z, nam("z")), all_("b")), mod(x, nam("x")), y), nam("m"))):
            r = [(seq(a, opt(rule(1))), "-")] if uses(e, ("rule",)) else []
            out.append(Prog(e, r, w=ws, note="every kind"))
    return out

HUGE = (65535, 65536, 70001)
def huge(prop):
    """grammars for very long inputs"""
    out = []
    a, b, ab = any_("a"), any_("b"), all_("ab")
    def P(main, u, v, x, counts=HUGE):
        u, v, x = syms(u), syms(v), syms(x)
        p = Prog(main, (), w=[u + v * n + x for n in range(8)], note="boundary"); p.pump = (u, v, x, counts); out.append(p)
    if prop in ("C01", "C02", "C03", "C05", "C07", "C09", "C15", "C16"):
        for r_ in (star, plus):
            P(mod(r_(a), joi), "", "a", "b"); P(mod(seq(r_(ignl("a")), b), com), "", "a", "b"); P(seq(mod(r_(none_("b")), joi), opt(b)), "", "ac", "b"); P(or_(seq(mod(r_(ab), joi), all_("c")), a), "", "ab", "a")
            P(mod(r_(seq(a, opt(b))), joi), "", "ab", "c"); P(mod(r_(seq(a, opt(b))), ign), "", "aab", ""); P(seq(mod(r_(or_(ab, a)), joi, com)), "", "aba", "")
            P(mod(seq(ignl("c"), r_(seq(a, b))), joi), "c", "ab", "a")
    if prop in ("C01", "C02", "C03", "C08", "C09", "C16"):
        P(mod(mod(a, dele(b)), joi) if False else mod(mod(a, dele(b)), ign), "a", "ba", ""); P(seq(mod(mod(ignl("a"), dele(b)), ign), opt(b)), "a", "ba", "b"); P(mod(mod(ab, delk(all_(","))), ign), "ab", ",ab", ",")
        P(mod(ignl("a"), dele(ignl(","))), "a", ",a", ",b"); P(mod(mod(ignl("a"), delk(any_("bc"))), joi), "a", "ba", "b")
    return out

LONG = (299, 300, 5000, 70001)
def long_carriers():
    """long inputs for every carrier; the arrays of containers.h have these lengths too"""
    out = []
    def P(main, u, v, x):
        u, v, x = [[ord(c) for c in t.replace("0", "\0")] for t in (u, v, x)]
        p = Prog(main, (), w=[u + v * n + x for n in range(8)], note="carriers"); p.pump = (u, v, x, LONG); out.append(p)
    a, ab, nb = any_("a"), all_("ab"), none_("b")
    P(mod(star(a), joi), "", "a", ""); P(mod(star(nb), joi), "", "a", "0"); P(mod(plus(nb), com, joi), "0", "a", ""); P(mod(plus(a), ign), "", "a", "0a")
    return out

def nested(m):
    """the modifier m on operands with m in all positions"""
    a, b, ab = any_("a"), any_("b"), all_("ab")
    M_ = lambda x: mod(x, m)
    out = [M_(ab), mod(M_(a), nam("n")), mod(M_(ab), exa(1)), mod(M_(a), exa(2)), opt(M_(ab)), plus(M_(ab)), star(M_(ab)), mod(M_(ab), ign), mod(M_(ab), joi), mod(M_(ab), com), or_(M_(ab), a), or_(a, M_(ab)), or_(ab, M_(a)), or_(M_(ab), M_(a)), or_(b, M_(ab), a), oreps(M_(ab)),
           seq(M_(a), b), seq(a, M_(b)), seq(M_(a), opt(b)), seq(M_(a), star(b)), seq(a, M_(opt(b))), seq(opt(a), M_(b)), seq(opt(M_(a)), b), seq(opt(M_(ab)), opt(a)), seq(ignl("a"), M_(b)), seq(M_(a), ignl("b")), seq(M_(ignl("a")), b), seq(M_(opt(a)), M_(opt(b))), seq(M_(star(a)), eps()),
           mod(M_(a), dele(b)), mod(a, dele(M_(b))), mod(M_(a), dele(M_(b))), mod(a, delk(M_(b))), mod(or_(M_(ab), a), nam("n")), or_(seq(M_(a), opt(b)), b), or_(seq(a, M_(b)), a), seq(or_(M_(ab), a), opt(b)), opt(seq(M_(a), b)), star(seq(a, M_(opt(b)))), star(or_(M_(ab), a)), mod(M_(a), mp("mI", 1)), mod(M_(a), fil("fT", 1))]
    return out

def recursion_shapes():
    """rules whose recursion goes through each operator and modifier, with nothing but that at the top of the definition (D10)"""
    a, b = all_("a"), all_("b")
    body = seq(a, opt(rule(1)), opt(b)); void = seq(ignl("a"), opt(rule(1)), opt(ignl("b")))
    mods = [[mp("mI", 1)], [mp("mV", 1)], [mp("cI", 1)], [fil("fT", 1)], [com], [nam("x")], [joi], [ign], [exa(2)], [dele(all_(","))], [delk(all_(","))], [mp("mI", 1), com], [fil("fT", 1), nam("x")], [com, mp("aI", 1)], [exa(2), joi], [dele(ignl(",")), ign]]
    out = []
    for ms in mods:
        last = ms[-1]
        if any(m["o"] == "joi" for m in ms): out.append((rule(1), [(mod(body, *ms), "os")]))
        else: out.append((rule(1), [(mod(body, *ms), "void" if last["o"] == "ign" or last["f"] == "mV" else "rb")]))
        if not any(m["o"] in ("map", "joi") for m in ms): out.append((seq(rule(1), opt(b)), [(mod(void, *ms), "void")]))
    for f in (opt, star, plus): out.append((rule(1), [(f(body), "rb")])); out.append((mod(rule(1), ign), [(f(void), "void")])); out.append((rule(1), [(mod(f(mod(body, mp("mI", 2))), mp("mI", 1)), "l")]))
    out.append((mod(body, mp("mI", 1)), [(mod(body, mp("mI", 1)), "l")]))
    out.append((rule(1), [(mod(seq(a, opt(rule(2))), mp("mI", 1)), "l"), (mod(seq(b, opt(rule(1))), fil("fT", 1), com), "rb")]))
    return out

def random_progs(prop, seed, n, words=40):
    r = random.Random("%s-%d" % (prop, seed))
    fn, node = FOCUS[prop]
    out, seen = [], set()
    while len(out) < n:
        alpha = r.choice(["ab", "ab", "ab", "abc", "a", "\x00a", "\xff\x7f"])
        G = Gen(r, alpha, node=node)
        if prop in ("C05", "C06", "C07"): G.leaf["ignl"] = 2
        main, rules = fn(G, r)
        if r.random() < .2: main = sprinkle(main, r, [r.choice([com, ign, joi, nam("x"), exa(1), exa(2), multi(com, ign), multi(joi, nam("z"))])] if r.random() < .7 else [com, ign, joi, nam("x"), exa(1)], r.choice([1, 2, 2, 3]))
        if r.random() < (.3 if prop == "C03" else .12): main, rules = outline(main, rules, r)
        size = len(json.dumps(main))
        if size > 6000: continue
        elem = inel = "char"
        if r.random() < .12 and alpha not in ("\xff\x7f",):
            elem = r.choice(["int", "wchar_t", "char16_t", "char32_t", "struct", "enum", "uchar", "long"]); inel = elem
            if any(rt == "sv" for _, rt in rules): elem = inel = "char"
        p = Prog(main, rules, elem=elem, inelem=inel, style=r.randrange(10**6) if r.random() < .7 else None, note="random")
        k = p.key()
        if k in seen: continue
        seen.add(k)
        p.w = Inputs(r, main, rules).make(words, extra=[])
        out.append(p)
    return out
