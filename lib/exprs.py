"""Expressions of the parser language (see spec/Tok3n.tla, Norm), their C++ spelling, and random generation."""
import random

def E(o, s=(), n=0, f="", c=(), m=()):
    return {"o": o, "s": list(s), "n": n, "f": f, "c": list(c), "m": list(m)}
def M(o, n=0, f="", c=(), m=()):
    return {"o": o, "n": n, "f": f, "c": list(c), "m": list(m)}

def syms(x):
    return [((ord(ch) + 128) % 256) - 128 for ch in x] if isinstance(x, str) else list(x)

def any_(x): return E("any", syms(x))
def none_(x): return E("none", syms(x))
def all_(x): return E("all", syms(x))
def ignl(x): return E("ignl", syms(x))
def anyv(): return E("anyv")
def eps(): return E("eps")
def or_(*xs):
    r = xs[0]
    for x in xs[1:]: r = E("or", c=[r, x])
    return r
def orr(*xs):
    r = xs[-1]
    for x in reversed(xs[:-1]): r = E("or", c=[x, r])
    return r
def oreps(x): return E("oreps", c=[x])
def seq(*xs):
    r = xs[0]
    for x in xs[1:]: r = E("seq", c=[r, x])
    return r
def seqr(*xs):
    r = xs[-1]
    for x in reversed(xs[:-1]): r = E("seq", c=[x, r])
    return r
def not_(x): return E("not", c=[x])
def opt(x): return E("opt", c=[x])
def plus(x): return E("plus", c=[x])
def star(x): return E("star", c=[x])
def mod(x, *ms):
    for m in ms: x = E("mod", c=[x], m=[m])
    return x
def rule(i): return E("rule", n=i)      # 1-based

ign = M("ign"); com = M("com"); joi = M("joi")
def exa(n): return M("exa", n=n)
def mp(f, n=0): return M("map", n=n, f=f)
def fil(f, n=0): return M("fil", n=n, f=f)
def dele(d): return M("del", c=[d])
def delk(d): return M("delk", c=[d])
def nam(s): return M("nam", f=s)
def sub(*ss): return M("sub", m=[{"o": "s", "n": 0, "f": f, "c": [], "m": [m]} for f, m in ss])
def multi(*ms): return M("multi", m=list(ms))

# ---------------------------------------------------------------------------------------------- C++ spelling
CHARS = {"char": ("", "char"), "wchar_t": ("L", "wchar_t"), "char8_t": ("u8", "char8_t"),
         "char16_t": ("u", "char16_t"), "char32_t": ("U", "char32_t")}
CPP = {"int": "int", "short": "short", "long": "long", "uchar": "unsigned char", "schar": "signed char", "uint": "unsigned",
       "enum": "h::En", "struct": "h::St", "other": "h::Other", "double": "double"}
for k, (p, t) in CHARS.items(): CPP[k] = t

def lit(elem, ss):
    """a quoted literal denoting exactly ss (character element types only)"""
    pre = CHARS[elem][0]
    out = ""
    for x in ss:
        ch = x % 256 if elem in ("char", "char8_t") else x
        out += chr(ch) if 32 <= ch < 127 and chr(ch) not in '"\\?' else ("\\%03o" % ch if ch < 512 else "\\U%08x" % ch)
    return '%s"%s"' % (pre, out)
def elem_lit(elem, x):
    if elem == "char": 
        return "'\\%03o'" % (x % 256) if not (48 <= x < 58 or 97 <= x < 123) else "'%s'" % chr(x)
    return "(%s)(%d)" % (CPP[elem], x)
def fits(elem, ss):
    return elem in CHARS and all((0 <= x < 256 or (elem == "char" and x >= -128)) for x in ss) and not (elem == "char8_t" and any(x > 127 for x in ss))

class Nth:
    """takes the n-th notation of every choice (the last one for -1)"""
    def __init__(self, n): self.n = n
    def choice(self, xs): return xs[self.n % len(xs)]
    def random(self): return 0 if self.n else 1
class Spell:
    """Renders an expression as C++. rng varies the notation (None: canonical)."""
    def __init__(self, elem="char", rng=None, prefix="G"):
        self.elem, self.rng, self.prefix = elem, rng, prefix
    def pick(self, *xs):
        return xs[0] if self.rng is None else self.rng.choice(xs)
    def basic(self, kind, ss):
        el = self.elem
        forms = []
        if fits(el, ss):
            l = lit(el, ss)
            forms += ["%s_%s" % (l, kind), "%s<%s>" % (kind, l)]
            if kind != "ign": forms.append("%s_%s_of" % (l, kind))
        if ss and kind != "ign":
            forms.append("%s_of<%s>" % (kind, ", ".join(elem_lit(el, x) for x in ss)))
            if len(ss) > 1 and el not in ("enum", "struct", "other"):      # the first one says what the others are converted to
                forms.append("%s_of<%s>" % (kind, ", ".join([elem_lit(el, ss[0])] + ["%d%s" % (x, "L" * (i % 2)) for i, x in enumerate(ss[1:])])))
        if not forms:
            if kind == "ign": return "ignore(%s)" % self.basic("all", ss)
            if not ss: return "%s<detail::static_array<%s, 0>{}>" % (kind, CPP[el])
        return self.pick(*forms)
    def e(self, x):
        o = x["o"]
        if o in ("any", "none", "all"): return self.basic(o, x["s"])
        if o == "ignl": return self.basic("ign", x["s"])
        if o == "anyv": return "detail::anything_parser<%s>{}" % CPP[self.elem]
        if o == "eps": return "eps.of<%s>" % CPP[self.elem]
        if o == "or": return "(%s | %s)" % (self.e(x["c"][0]), self.e(x["c"][1]))
        if o == "oreps": return "(%s | eps)" % self.e(x["c"][0])
        if o == "seq": return "(%s >> %s)" % (self.e(x["c"][0]), self.e(x["c"][1]))
        if o == "not": return "(!%s)" % self.e(x["c"][0])
        if o == "opt": return "(~%s)" % self.e(x["c"][0])
        if o == "plus": return "(+%s)" % self.e(x["c"][0])
        if o == "star": return "(*%s)" % self.e(x["c"][0])
        if o == "rule": return "%s_R%d{}" % (self.prefix, x["n"])
        if o == "mod":
            a, m = self.e(x["c"][0]), x["m"][0]
            if m["o"] in ("del", "delk"):
                k = "delimit" if m["o"] == "del" else "delimit_keep"
                d = self.e(m["c"][0])
                return self.pick("(%s %% %s(%s))" % (a, k, d), "%s(%s, %s)" % (k, a, d), "%s(%s)(%s)" % (k, d, a))
            if m["o"] == "sub" and self.rng is not None and self.rng.random() < 0.3:
                return "sub(%s, %s)" % (a, self.subs(m))
            ms = self.m(m)
            return self.pick("(%s %% %s)" % (a, ms), "%s(%s)" % (ms, a))
        raise ValueError(o)
    def name(self, f):
        return 'name<%s>' % ('L"%s"' % f[2:] if f.startswith("L:") else '"%s"' % f)
    def subs(self, m):
        return ", ".join("(%s = %s)" % (self.name(s["f"]), self.m(s["m"][0])) for s in m["m"])
    def m(self, m):
        o, n, f = m["o"], m["n"], m["f"]
        if o == "ign": return "ignore"
        if o == "com": return "complete"
        if o == "joi": return "join"
        if o == "exa": return "exactly<%d>" % n
        if o in ("del", "delk"): return "%s(%s)" % ("delimit" if o == "del" else "delimit_keep", self.e(m["c"][0]))
        if o == "nam": return self.name(f)
        if o == "sub": return "sub(%s)" % self.subs(m)
        if o == "multi": return "(%s)" % " % ".join(self.m(x) for x in m["m"]) if len(m["m"]) > 1 else self.m(m["m"][0])
        if o == "map":
            if f == "into": return "into<h::Into>"
            if f == "ainto": return "apply_into<h::Into>"
            if f == "cI": return "constant<%d>" % n
            if f == "cB": return "constant<%s>" % ("true" if n % 2 else "false")
            if f == "cK": return "constant<h::KBox{%d}>" % n
            if f == "dI": return "defaulted<int>"
            if f == "dK": return "defaulted<h::KBox>"
            if f == "dI2": return "defaulted<h::Into>"
            if f in ("lI", "iI", "uK", "sI"): return "map<%sh::%s<%d>>" % ("&" if f != "lI" and n % 2 else "", f, n)
            if f == "kI": return "map<&h::KBox::kI<%d>>" % n
            if f == "pK": return "apply<h::pK<%d>>" % n
            return "%s<h::%s<%d>{}>" % ("apply" if f[0] == "a" else "map", f, n)
        if o == "fil" and f == "lP": return "filter<h::lP<%d>>" % n
        if o == "fil" and f == "kP": return "filter<&h::KBox::kP<%d>>" % n
        if o == "fil": return "%s<h::%s<%d>{}>" % ("apply_filter" if f[0] == "g" else "filter", f, n)
        raise ValueError(o)

RT = {"rb": "h::RBox", "b": "bool", "l": "long", "sv": "std::string_view", "void": "void"}

class Prog:
    """A grammar: main expression, rules, element type; w: inputs (lists of ints)."""
    def __init__(self, main, rules=(), elem="char", w=(), note="", inelem=None, style=None):
        self.main, self.rules, self.elem, self.w, self.note = main, list(rules), elem, list(w), note
        self.inelem = inelem or elem
        self.style = style          # seed of the notation, None: canonical
        self.valid = None; self.ty = None; self.exp = None
        self.pump = None            # (u, v, x, counts): also inputs u v^n x, see core.pumped
    def case(self, i):
        return {"id": i, "main": self.main, "rules": [{"e": e, "rt": rt} for e, rt in self.rules], "w": self.w}
    def cpp(self, name):
        rng = Nth({"last": -1, "first": 0, "second": 1, "third": 2}[self.style]) if isinstance(self.style, str) else random.Random(self.style) if self.style is not None else None
        sp = Spell(self.elem, rng, name)
        T = CPP[self.elem]
        out = []
        for i, (e, rt) in enumerate(self.rules, 1):
            r = {"os": "std::optional<detail::output_span<%s>>" % CPP[self.inelem]}.get(rt, RT.get(rt))
            out.append("struct %s_R%d : custom_parser<%s_R%d%s> { %sstatic consteval auto get_parser(); };" %
                       (name, i, name, i, "" if T == "char" else ", " + T, "" if rt == "-" else "using result_type = %s; " % r))
        for i, (e, rt) in reversed(list(enumerate(self.rules, 1))):
            out.append("consteval auto %s_R%d::get_parser() { return %s; }" % (name, i, sp.e(e)))
        out.append("struct %s { using V = %s; static constexpr auto p = %s; };" % (name, CPP[self.inelem], sp.e(self.main)))
        return "\n".join(out)
    def show(self):
        s = Spell(self.elem, None, "X").e(self.main)
        for i, (e, rt) in enumerate(self.rules, 1):
            s += "; X_R%d%s := %s" % (i, "" if rt == "-" else ":" + rt, Spell(self.elem, None, "X").e(e))
        return s
    def key(self):
        import json
        return json.dumps([self.main, self.rules, self.elem, self.inelem, self.style], sort_keys=True)
