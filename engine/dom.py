"""Abstract domains of the analyser.

Values that a register or a memory cell can hold:
  int               a known machine integer (canonical signed; i1 is 0/1); pointers are integers too
                    (address = region id << 32 + offset)
  Tab(atom, vals)   an exact function of one finite unknown (character-class / small-range domain)
  Lin(terms, c)     a linear form over bounded unknowns (interval + polyhedra domain)
  Herb(op, args)    an uninterpreted (Herbrand) term
  RF(num, den)      a quotient of polynomials over real unknowns (algebraic normal form domain)
  Vec(tuple)        aggregate
  UNDEF             indeterminate value
A PC (path context) is the conjunction of facts of one partition.  There is no call to a solver:
entailment is computed by domain operations (mask intersection, interval tightening,
Fourier-Motzkin projection of linear systems), and everything else is 'not decided'.
"""
from fractions import Fraction
import math, random

class Split(Exception):
    """the current partition has to be divided before the instruction can be interpreted"""
    def __init__(self, alts): self.alts = alts
class Unknown(Exception): pass
class Infeasible(Exception): pass

class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Atom:
    __slots__ = ('id', 'name', 'kind', 'vals', 'lo', 'hi', 'full', 'index', 'defn', 'label', 'neg')
    def __repr__(self): return self.name
_atoms = {}
_alist = []
def atom(name, kind, vals=None, lo=None, hi=None, defn=None, label=None):
    key = (None if defn is not None else name, kind, vals, lo, hi, defn)
    a = _atoms.get(key)
    if a is None:
        a = Atom(); a.id = len(_alist); a.name = name; a.kind = kind; a.vals = vals; a.lo = lo; a.hi = hi; a.defn = defn; a.label = label
        if vals is not None:
            a.full = (1 << len(vals)) - 1; a.index = {v: i for i, v in enumerate(vals)}; a.lo = min(vals); a.hi = max(vals)
        _atoms[key] = a; _alist.append(a)
    return a

class Tab:
    __slots__ = ('atom', 'vals', 'h')
    def __init__(self, atom, vals): self.atom = atom; self.vals = vals; self.h = hash((atom.id, vals))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Tab) and o.atom is self.atom and o.vals == self.vals
    def __repr__(self):
        if self.vals == self.atom.vals: return self.atom.name
        return 'T(%s)' % self.atom.name
class Lin:
    __slots__ = ('t', 'c', 'h')
    def __init__(self, t, c): self.t = t; self.c = c; self.h = hash((tuple((a.id, k) for a, k in t), c))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Lin) and o.c == self.c and o.t == self.t
    def __repr__(self): return '+'.join('%s*%s' % (k, a.name) for a, k in self.t) + '+%s' % self.c
class Herb:
    __slots__ = ('op', 'args', 'w', 'h')
    def __init__(self, op, args, w): self.op = op; self.args = args; self.w = w; self.h = hash((op, args, w))
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Herb) and o.h == self.h and o.op == self.op and o.w == self.w and o.args == self.args
    def __repr__(self): return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))
class Vec:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __hash__(self): return hash(self.v)
    def __eq__(self, o): return isinstance(o, Vec) and o.v == self.v
    def __repr__(self): return '<%s>' % ','.join(map(repr, self.v))

SYM = (Tab, Lin, Herb)

# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction; monomial: tuple of (atom, exp) sorted by atom id
def p_const(c): return {(): Fraction(c)} if c else {}
def p_atom(a): return {((a, 1),): Fraction(1)}
def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def m_mul(m, n):
    if not m: return n
    if not n: return m
    d = {}
    for a, e in m: d[a] = d.get(a, 0) + e
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
MAXPOLY = 6000
def p_mul(p, q):
    r = {}
    if len(p) * len(q) > 200000: raise Unknown('polynomial too large')
    for m, c in p.items():
        for n, k in q.items():
            x = m_mul(m, n); v = r.get(x, 0) + c * k
            if v: r[x] = v
            else: r.pop(x, None)
    if len(r) > MAXPOLY: raise Unknown('polynomial too large')
    return p_reduce(r)
def p_scale(p, k): return {m: c * k for m, c in p.items()} if k else {}
def p_reduce(p):
    """rewrite r*r -> definition for square-root atoms, and sin^2 -> 1 - cos^2"""
    while True:
        hit = None
        for m in p:
            for i, (a, e) in enumerate(m):
                if e >= 2 and a.kind == 'def' and a.defn[0] in ('sqrt', 'sin', 'fabs'):
                    hit = (m, i, a, e); break
            if hit: break
        if not hit: return p
        m, i, a, e = hit
        c = p[m]; rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
        q = dict(p); del q[m]
        if a.defn[0] == 'sqrt':
            rf = a.defn[1]
            if not rf.den_is_one(): return p
            sub = rf.num
        elif a.defn[0] == 'fabs':
            rf = a.defn[1]
            if not rf.den_is_one(): return p
            sub = p_mul(rf.num, rf.num)
        else:
            ca = def_atom('cos', a.defn[1]); sub = p_add(p_const(1), {((ca, 2),): Fraction(1)}, -1)
        p = p_add(q, p_mul({rest: c}, sub))
def p_key(p): return tuple(sorted(((tuple((a.id, e) for a, e in m)), c) for m, c in p.items()))
def p_lead(p): return max(p, key=lambda m: (sum(e for a, e in m), tuple((a.id, e) for a, e in m)))
def _m_order(m): # lex on atoms
    return tuple(sorted(((-a.id, e) for a, e in m), reverse=True))
def p_divexact(p, d):
    """p / d if d divides p, else None (single-divisor multivariate division)"""
    if not d: return None
    # graded-lex division
    ids = sorted({a for m in list(p) + list(d) for a, e in m}, key=lambda a: a.id)
    def key(m):
        md = dict(m); return (sum(md.values()), tuple(md.get(a, 0) for a in ids))
    ld = max(d, key=key); cd = d[ld]; ldd = dict(ld)
    r = dict(p); q = {}
    n = 0
    while r:
        n += 1
        if n > 400: return None
        lm = max(r, key=key); c = r[lm]; lmd = dict(lm)
        t = {}
        for a, e in ldd.items():
            if lmd.get(a, 0) < e: return None
        t = tuple(sorted(((a, e - ldd.get(a, 0)) for a, e in lmd.items() if e - ldd.get(a, 0)), key=lambda x: x[0].id))
        k = c / cd; q[t] = k
        for m, cc in d.items():
            x = m_mul(m, t); v = r.get(x, 0) - cc * k
            if v: r[x] = v
            else: r.pop(x, None)
    return q

class RF:
    __slots__ = ('num', 'den', 'h')
    def __init__(self, num, den=None):
        if den is None: den = P1
        self.num = num; self.den = den; self.h = None
    def den_is_one(self): return self.den == P1
    def const(self):
        if not self.num: return Fraction(0)
        if len(self.num) == 1 and () in self.num and self.den_is_one(): return self.num[()]
        return None
    def key(self): return (p_key(self.num), p_key(self.den))
    def __hash__(self):
        if self.h is None: self.h = hash(self.key())
        return self.h
    def __eq__(self, o): return isinstance(o, RF) and self.num == o.num and self.den == o.den
    def __repr__(self): return p_str(self.num) + ('' if self.den_is_one() else ' / (' + p_str(self.den) + ')')
    def atoms(self):
        s = set()
        for p in (self.num, self.den):
            for m in p:
                for a, e in m: s.add(a)
        return s
def p_str(p):
    if not p: return '0'
    return ' + '.join((str(float(c)) if m == () or c != 1 else '') + '*'.join('%s%s' % (a.name, '' if e == 1 else '^%d' % e) for a, e in m) for m, c in list(p.items())[:8]) + (' ...' if len(p) > 8 else '')
P1 = {(): Fraction(1)}
def rf_const(c): return RF(p_const(c))
def _roots(p): return {a for m in p for a, e in m if a.kind == 'def' and a.defn[0] == 'sqrt'}
def _unroot(n, d):
    """powers of roots are replaced by what they are roots of; the denominator is freed of roots"""
    for _ in range(40):
        hit = None
        for w, p in ((0, n), (1, d)):
            for m in p:
                for a, e in m:
                    if e >= 2 and a.kind == 'def' and a.defn[0] == 'sqrt': hit = (w, a); break
                if hit: break
            if hit: break
        if hit:
            w, a = hit; f = a.defn[1]; p = (n, d)[w]; A = {}; B = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                if e >= 2: B = p_add(B, {tuple((x, k - 2 if x is a else k) for x, k in m if x is not a or k > 2): c})
                else: A[m] = c
            r = p_add(p_mul(A, f.den), p_mul(B, f.num))
            if w == 0: n, d = r, (p_mul(d, f.den) if f.den != P1 else d)
            else: n, d = (p_mul(n, f.den) if f.den != P1 else n), r
            continue
        rs = _roots(d)
        if not rs: return n, d
        a = max(rs, key=lambda x: x.id); A = {}; B = {}
        for m, c in d.items():
            if any(x is a for x, k in m): B = p_add(B, {tuple((x, k) for x, k in m if x is not a): c})
            else: A[m] = c
        if not A:      # a B -> f B / a
            n = p_mul(n, p_atom(a)); f = a.defn[1]
            d = p_mul(B, f.num)
            if f.den != P1: n = p_mul(n, f.den)
        else:
            k = p_add(A, p_mul(B, p_atom(a)), -1); n = p_mul(n, k); f = a.defn[1]
            A2 = p_mul(A, A); B2 = p_mul(B, B)
            d = p_add(p_mul(A2, f.den), p_mul(B2, f.num), -1)
            if f.den != P1: n = p_mul(n, f.den)
            if not d: raise Unknown('degenerate denominator')
    raise Unknown('roots')
def rf_norm(n, d):
    if not n: return RF({})
    if d != P1 and _roots(d) or any(e >= 2 and a.kind == 'def' and a.defn[0] == 'sqrt' for p in (n, d) for m in p for a, e in m):
        n, d = _unroot(n, d)
        if not n: return RF({})
    if d == P1: return RF(n)
    if len(d) == 1 and () in d: return RF(p_scale(n, 1 / d[()]))
    # monomial common factors
    q = p_divexact(n, d)
    if q is not None: return RF(q)
    lead = d[p_lead(d)]
    if lead != 1: n = p_scale(n, 1 / lead); d = p_scale(d, 1 / lead)
    # cancel a common monomial
    common = None
    for m in list(n) + list(d):
        md = dict(m)
        common = md if common is None else {a: min(e, md.get(a, 0)) for a, e in common.items() if md.get(a, 0)}
        if not common: break
    if common:
        cm = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id))
        n = {m_mul(m, cm): c for m, c in n.items()}; d = {m_mul(m, cm): c for m, c in d.items()}
        if d == P1: return RF(n)
        if len(d) == 1 and () in d: return RF(p_scale(n, 1 / d[()]))
    q = p_divexact(d, n)
    if q is not None and len(n) > 1:
        return rf_norm(P1, q)
    return RF(n, d)
def rf_add(a, b, s=1):
    if a.den == b.den: return rf_norm(p_add(a.num, b.num, s), a.den)
    return rf_norm(p_add(p_mul(a.num, b.den), p_mul(b.num, a.den), s), p_mul(a.den, b.den))
def rf_mul(a, b):
    n1, d1 = a.num, a.den; n2, d2 = b.num, b.den
    if d2 is not P1 and d2 != P1:
        q = p_divexact(n1, d2)
        if q is not None: n1, d2 = q, P1
    if d1 is not P1 and d1 != P1:
        q = p_divexact(n2, d1)
        if q is not None: n2, d1 = q, P1
    return rf_norm(p_mul(n1, n2), p_mul(d1, d2))
def rf_div(a, b):
    if not b.num: raise Unknown('division by zero in the real domain')
    return rf_mul(a, rf_norm_inv(b))
def rf_norm_inv(b):
    # 1/b ; rationalise a pure square-root monomial denominator: 1/r -> r/arg
    n, d = b.num, b.den
    if len(n) == 1:
        (m, c), = n.items()
        for a, e in m:
            if a.kind == 'def' and a.defn[0] == 'sqrt' and a.defn[1].den_is_one() and e == 1:
                rest = tuple(x for x in m if x[0] is not a)
                return rf_norm(p_mul(d, p_atom(a)), p_mul({rest: c}, a.defn[1].num))
    return rf_norm(d, n)
def def_atom(fn, *args):
    """opaque function of abstract values"""
    return atom('%s(%s)' % (fn, ','.join(map(repr, args))), 'def', defn=(fn,) + args)
def is_const_def(a): return a.kind == 'def' and a.defn[0] not in ('urand', 'fptosi') and all(isinstance(x, RF) and all(is_const_def(b) for b in x.atoms()) for x in a.defn[1:])
def const_bounds(a):
    """bounds of a function of constants"""
    if not all(isinstance(x, RF) and x.const() is not None for x in a.defn[1:]) or a.defn[0] in ('urand', 'fptosi'): return None
    try: v = conc_real_fn(a.defn[0], [x.const() for x in a.defn[1:]])
    except (KeyError, ValueError, OverflowError): return None
    v = Fraction(v); k = Fraction(1, 10 ** 12) * max(1, abs(v))
    return v - k, v + k
def to_rf(v):
    """integer-like abstract value -> RF"""
    if isinstance(v, RF): return v
    if isinstance(v, (int, Fraction)): return rf_const(v)
    if isinstance(v, Tab):
        l = tab_lin(v)
        if l is None: return None
        v = l
    if isinstance(v, Lin):
        p = p_const(v.c)
        for a, k in v.t: p = p_add(p, {((a, 1),): Fraction(k)})
        return RF(p)
    return None

# ---------------------------------------------------------------- integer terms
def sgn(v, w):
    if w == 1: return v & 1
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def uns(v, w): return v & ((1 << w) - 1)

def tab_lin(t):
    """affine view of a table"""
    vs, dv = t.vals, t.atom.vals
    if len(dv) == 1: return None
    d = dv[1] - dv[0]; k = vs[1] - vs[0]
    if d == 0 or k % d: return None
    k //= d; c = vs[0] - k * dv[0]
    for x, y in zip(dv, vs):
        if y != k * x + c: return None
    if k == 0: return None
    return Lin(((t.atom, k),), c)
def mk_tab(a, vals):
    v0 = vals[0]
    for v in vals:
        if v != v0: return Tab(a, vals)
    return v0
def mk_lin(terms, c):
    t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda x: x[0].id))
    if not t: return c
    if len(t) == 1 and t[0][0].kind == 'fin':
        a, k = t[0]; return mk_tab(a, tuple(k * v + c for v in a.vals))
    return Lin(t, c)
def as_lin(v):
    if isinstance(v, int): return Lin((), v)
    if isinstance(v, Lin): return v
    if isinstance(v, Tab): return tab_lin(v)
    return None

def conc_bin(op, a, b, w):
    if op == 'add': return sgn(a + b, w)
    if op == 'sub': return sgn(a - b, w)
    if op == 'mul': return sgn(a * b, w)
    if op == 'and': return sgn(a & b, w)
    if op == 'or': return sgn(a | b, w)
    if op == 'xor': return sgn(a ^ b, w)
    if op == 'shl': return sgn(a << uns(b, w), w) if 0 <= uns(b, w) < w else 0
    if op == 'lshr': return sgn(uns(a, w) >> uns(b, w), w) if 0 <= uns(b, w) < w else 0
    if op == 'ashr': return sgn(a >> uns(b, w), w) if 0 <= uns(b, w) < w else 0
    if op in ('sdiv', 'srem'):
        if b == 0: raise ZeroDivisionError
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return sgn(q if op == 'sdiv' else a - q * b, w)
    if op in ('udiv', 'urem'):
        if b == 0: raise ZeroDivisionError
        a, b = uns(a, w), uns(b, w)
        return sgn(a // b if op == 'udiv' else a % b, w)
    raise Unknown('int op ' + op)
def conc_cmp(p, a, b, w):
    if p == 'eq': return int(a == b)
    if p == 'ne': return int(a != b)
    if p[0] == 'u': a, b = uns(a, w), uns(b, w)
    p = p[1:]
    return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)

def conc_real_fn(fn, x):
    x = [float(y) for y in x]
    return {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
            'atan2': math.atan2, 'exp': math.exp, 'log': math.log, 'pow': math.pow, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil, 'fmod': math.fmod,
            'log10': math.log10, 'log2': math.log2, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh, 'cbrt': lambda v: math.copysign(abs(v) ** (1 / 3), v), 'round': lambda v: math.floor(abs(v) + .5) * (1 if v >= 0 else -1), 'trunc': math.trunc,
            'lgamma': math.lgamma, 'erf': math.erf}[fn](*x)

def ev_atom(a, asg):
    if a in asg: return asg[a]
    if a.kind == 'def':
        fn = a.defn[0]; args = [ev(x, asg) for x in a.defn[1:]]
        if fn in ('fptosi', 'floor', 'ceil', 'trunc', 'round') and isinstance(args[0], float) and abs(args[0] * 2 - round(args[0] * 2)) < 1e-6: raise Unknown('near a step')
        if fn == 'fptosi': v = math.trunc(args[0])
        elif fn == 'sqrt':
            x = args[0]
            if isinstance(x, Fraction) and x >= 0:
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                v = Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else math.sqrt(x)
            else: v = math.sqrt(x)
        elif fn in ('fabs', 'floor', 'ceil', 'trunc') and isinstance(args[0], (int, Fraction)):
            x = args[0]; v = abs(x) if fn == 'fabs' else Fraction(math.floor(x) if fn == 'floor' else math.ceil(x) if fn == 'ceil' else math.trunc(x))
        elif fn == 'urand': raise Unknown('opaque')
        else: v = conc_real_fn(fn, args)
        asg[a] = v
        return v
    raise KeyError(a)
def ev_poly(p, asg):
    s = Fraction(0)
    for m, c in p.items():
        t = c
        for a, e in m:
            v = ev_atom(a, asg)
            t = float(t) * v if isinstance(v, float) else t * v
            if e > 1:
                for _ in range(e - 1): t = float(t) * v if isinstance(v, float) else t * v
        s = s + t if isinstance(t, Fraction) and isinstance(s, Fraction) else float(s) + float(t)
    return s
def ev(v, asg):
    """value of an abstract term at a point of the concretisation"""
    if isinstance(v, (int, Fraction, float)): return v
    if isinstance(v, Tab): return v.vals[v.atom.index[ev_atom(v.atom, asg)]]
    if isinstance(v, Lin): return sum(int(ev_atom(a, asg)) * k for a, k in v.t) + v.c
    if isinstance(v, RF):
        n = ev_poly(v.num, asg)
        if v.den_is_one(): return n
        d = ev_poly(v.den, asg)
        if d == 0: raise Unknown('pole')
        return n / d if isinstance(n, Fraction) and isinstance(d, Fraction) else float(n) / float(d)
    if isinstance(v, Herb):
        op = v.op
        if op == 'le0': return int(ev(v.args[0], asg) <= 0)
        if op == 'eq0': return int(ev(v.args[0], asg) == 0)
        if op == 'gt0' or op == 'ge0' or op == 'req0':
            x = ev(v.args[0], asg)
            if isinstance(x, float) and abs(x) < 1e-8 * ev_scale(v.args[0], asg): raise Unknown('near boundary')
            return int(x > 0 if op == 'gt0' else x >= 0 if op == 'ge0' else x == 0)
        if op == 'not': return 1 - ev(v.args[0], asg)
        if op == 'and1': return ev(v.args[0], asg) & ev(v.args[1], asg)
        if op == 'or1': return ev(v.args[0], asg) | ev(v.args[1], asg)
        if op == 'xor1': return ev(v.args[0], asg) ^ ev(v.args[1], asg)
        if op == 'icmp': return conc_cmp(v.args[0], ev(v.args[1], asg), ev(v.args[2], asg), v.args[3])
        if op == 'bin': return conc_bin(v.args[0], ev(v.args[1], asg), ev(v.args[2], asg), v.w)
        if op == 'zext': return uns(ev(v.args[0], asg), v.args[1])
        if op == 'sext': return sgn(ev(v.args[0], asg), v.args[1])
        if op == 'trunc': return sgn(ev(v.args[0], asg), v.w)
        if op == 'concat':
            r = 0
            for i, b in enumerate(v.args): r |= uns(ev(b, asg), 8) << (8 * i)
            return sgn(r, v.w)
        if op == 'sel': return ev(v.args[1], asg) if ev(v.args[0], asg) else ev(v.args[2], asg)
        if op == 'byte': return sgn(uns(ev(v.args[0], asg), v.args[2]) >> (8 * v.args[1]), 8)
        raise Unknown('opaque ' + op)
    raise Unknown('eval %r' % (v,))
def ev_scale(v, asg):
    """magnitude of the terms a value is made of: what rounding in the evaluation is measured against"""
    def mag(p):
        t = 0.0
        for m, c in p.items():
            x = abs(float(c))
            for a, e in m: x *= abs(float(ev_atom(a, asg))) ** e
            t += x
        return t
    if not isinstance(v, RF): return 1.0
    d = abs(float(ev_poly(v.den, asg)))
    return max(1.0, mag(v.num) / d * max(1.0, mag(v.den) / d)) if d else 1e300

# ---------------------------------------------------------------- linear systems (polyhedra domain)
def fm_project(cons, keep=None, cap=400):
    """cons: list of (coeffs dict var->Fraction, const, strict): sum + const <= 0 (or < 0).
    Eliminates all variables by Fourier-Motzkin.  returns False if empty.
    Gives up (returns True) when the system grows beyond a bound."""
    cons = [c for c in cons]
    while True:
        vars_ = {}
        for co, c, s in cons:
            if not co:
                if c > 0 or (s and c == 0): return False
            for v in co: vars_.setdefault(v, [0, 0])[0 if co[v] > 0 else 1] += 1
        cons = [x for x in cons if x[0]]
        if not vars_: return True
        v = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1]))
        up = [x for x in cons if x[0].get(v, 0) > 0]; lo = [x for x in cons if x[0].get(v, 0) < 0]; rest = [x for x in cons if v not in x[0]]
        if len(up) * len(lo) + len(rest) > cap: return True
        new = {}
        for co, c, s in rest:
            key = frozenset(co.items())
            new[key] = (co, c, s) if key not in new else _tight(new[key], (co, c, s))
        for cu, ku, su in up:
            for cl, kl, sl in lo:
                a, b = -cl[v], cu[v]
                co = {}
                for k, q in cu.items():
                    if k != v: co[k] = co.get(k, 0) + q * a
                for k, q in cl.items():
                    if k != v: co[k] = co.get(k, 0) + q * b
                co = {k: q for k, q in co.items() if q}
                c = ku * a + kl * b; s = su or sl
                if not co:
                    if c > 0 or (s and c == 0): return False
                    continue
                n = max(abs(q) for q in co.values())
                if n != 1: co = {k: q / n for k, q in co.items()}; c = c / n
                key = frozenset(co.items())
                new[key] = (co, c, s) if key not in new else _tight(new[key], (co, c, s))
        cons = list(new.values())
def fm_bounds(cons, var, cap=300):
    """(lo, hi) of var entailed by the system, by eliminating all other variables; None = unbounded / not found"""
    cons = list(cons)
    while True:
        vars_ = {}
        for co, c, s in cons:
            for v in co:
                if v != var: vars_.setdefault(v, [0, 0])[0 if co[v] > 0 else 1] += 1
        if not vars_: break
        v = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1]))
        up = [x for x in cons if x[0].get(v, 0) > 0]; lo = [x for x in cons if x[0].get(v, 0) < 0]; rest = [x for x in cons if v not in x[0]]
        if len(up) * len(lo) + len(rest) > cap: return None, None
        new = {}
        for co, c, s in rest:
            key = frozenset(co.items()); new[key] = (co, c, s) if key not in new else _tight(new[key], (co, c, s))
        for cu, ku, su in up:
            for cl, kl, sl in lo:
                a, b = -cl[v], cu[v]; co = {}
                for k, q in cu.items():
                    if k != v: co[k] = co.get(k, 0) + q * a
                for k, q in cl.items():
                    if k != v: co[k] = co.get(k, 0) + q * b
                co = {k: q for k, q in co.items() if q}
                if not co: continue
                c = ku * a + kl * b; n = max(abs(q) for q in co.values())
                if n != 1: co = {k: q / n for k, q in co.items()}; c = c / n
                key = frozenset(co.items()); x = (co, c, su or sl)
                new[key] = x if key not in new else _tight(new[key], x)
        cons = list(new.values())
    lo = hi = None
    for co, c, s in cons:
        k = co.get(var)
        if not k: continue
        b = -c / k
        if k > 0:
            if hi is None or (b, not s) < hi: hi = (b, not s)
        elif lo is None or b > lo[0] or (b == lo[0] and s): lo = (b, s)
    return lo, (None if hi is None else (hi[0], not hi[1]))     # (value, strict)
def _tight(x, y):
    if x[1] > y[1] or (x[1] == y[1] and x[2]): return x
    return y

_DEN = {}
class PC:
    """facts known in one partition"""
    __slots__ = ('dom', 'iv', 'lin', 'rel', 'real', 'known', 'split')
    def __init__(self):
        self.dom = {}; self.iv = {}; self.lin = (); self.rel = (); self.real = (); self.known = {}; self.split = 0
    def copy(self):
        p = PC(); p.dom = dict(self.dom); p.iv = dict(self.iv); p.lin = self.lin; p.rel = self.rel; p.real = self.real; p.known = dict(self.known); p.split = self.split
        return p
    # -- views
    def mask(self, a): return self.dom.get(a, a.full)
    def arange(self, a):
        if a.kind == 'fin':
            m = self.mask(a)
            if m == a.full: return a.lo, a.hi
            vs = [v for i, v in enumerate(a.vals) if m >> i & 1]
            return min(vs), max(vs)
        if a.kind == 'int' or (a.kind == 'def' and a.lo is not None): return self.iv.get(a, (a.lo, a.hi))
        if a.kind == 'def' and a.defn[0] == 'fptosi': return self.iv.get(a, (-(1 << 62), 1 << 62))
        return -math.inf, math.inf
    def range(self, v):
        if isinstance(v, int): return v, v
        if isinstance(v, Tab):
            m = self.mask(v.atom)
            vs = [x for i, x in enumerate(v.vals) if m >> i & 1]
            return min(vs), max(vs)
        if isinstance(v, Lin):
            lo = hi = v.c
            for a, k in v.t:
                l, h = self.arange(a)
                if k > 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
            return lo, hi
        if isinstance(v, Herb):
            w = v.w
            if w == 1: return 0, 1
            if v.op == 'zext': return 0, (1 << v.args[1]) - 1
            if v.op == 'bin':
                o, a, b = v.args
                if o == 'and' and isinstance(b, int) and b >= 0: return 0, b
                if o == 'urem' and isinstance(b, int) and b > 0: return 0, b - 1
                if o == 'lshr' and isinstance(b, int) and b > 0: return 0, (1 << (w - b)) - 1
                if o == 'srem' and isinstance(b, int) and b > 0:
                    l, h = self.range(a)
                    return (0 if l >= 0 else -(b - 1)), (b - 1 if h > 0 else 0)
                if o in ('sdiv', 'udiv') and isinstance(b, int) and b > 0:
                    l, h = self.range(a)
                    if l >= 0: return l // b, h // b
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        raise Unknown('range')
    def decide(self, n):
        """1 / 0 / None"""
        if isinstance(n, int): return n & 1
        if isinstance(n, Tab):
            m = self.mask(n.atom); one = zero = False
            for i, x in enumerate(n.vals):
                if m >> i & 1:
                    if x & 1: one = True
                    else: zero = True
                    if one and zero: return None
            return 1 if one else 0
        if isinstance(n, Herb):
            k = self.known.get(n)
            if k is not None: return k
            if n.op == 'le0':
                lo, hi = self.range(n.args[0])
                if hi <= 0: return 1
                if lo > 0: return 0
                return None
            if n.op == 'eq0':
                lo, hi = self.range(n.args[0])
                if lo > 0 or hi < 0: return 0
                if lo == hi == 0: return 1
                return None
            if n.op == 'not':
                d = self.decide(n.args[0]); return None if d is None else 1 - d
            if n.op == 'and1':
                a, b = self.decide(n.args[0]), self.decide(n.args[1])
                if a == 0 or b == 0: return 0
                return 1 if a == 1 and b == 1 else None
            if n.op == 'or1':
                a, b = self.decide(n.args[0]), self.decide(n.args[1])
                if a == 1 or b == 1: return 1
                return 0 if a == 0 and b == 0 else None
            if n.op == 'icmp': return self.enum_decide(n)
        return None
    def red(self, v):
        """exact reduction: a term over known unknowns is a number, over one unknown a table"""
        if not isinstance(v, (Lin, Herb)): return v
        ats = atoms_of(v); free = None; asg = {}
        for a in ats:
            if a.kind != 'fin':
                if a.kind == 'int':
                    lo, hi = self.arange(a)
                    if lo == hi: asg[a] = lo; continue
                return v
            m = self.mask(a)
            if m & (m - 1):
                if free is not None: return v
                free = a
            else: asg[a] = a.vals[m.bit_length() - 1]
        try:
            if free is None: return ev(v, asg)
            m = self.mask(free); out = []; z = None
            for i, x in enumerate(free.vals):
                if m >> i & 1:
                    y = dict(asg); y[free] = x; y = ev(v, y); out.append(y)
                    if z is None: z = y
                else: out.append(None)
            return mk_tab(free, tuple(z if y is None else y for y in out))
        except (Unknown, ZeroDivisionError, KeyError, TypeError): return v
    def enum_decide(self, n, limit=600):
        """decide a relation of a few finite unknowns from their value sets"""
        ats = list(atoms_of(n)); k = 1; dv = []
        for a in ats:
            if a.kind != 'fin': return None
            m = self.mask(a); vs = [x for i, x in enumerate(a.vals) if m >> i & 1]
            k *= len(vs); dv.append(vs)
            if k > limit: return None
        import itertools
        one = zero = False
        try:
            for c in itertools.product(*dv):
                if ev(n, dict(zip(ats, c))): one = True
                else: zero = True
                if one and zero: return None
        except (Unknown, ZeroDivisionError, KeyError, TypeError): return None
        return 1 if one else 0
    def no_point(self, extra=(), cap=60000):
        """True when no choice of values of the finite unknowns satisfies the facts about them (value sets, relations, inequalities)"""
        facts = [(n, t) for n, t in self.rel + tuple(extra)] + [(Herb('le0', (l,), 1), 1) for l in self.lin]
        fs = []; count = {}
        for n, t in facts:
            ats = atoms_of(n)
            if ats and all(a.kind == 'fin' for a in ats):
                fs.append((n, t, ats))
                for a in ats: count[a] = count.get(a, 0) + 1
        if not fs: return False
        order = []; todo = dict(count); near = set()
        while todo:     # neighbouring unknowns first
            a = max(todo, key=lambda x: (x in near, todo[x], -x.id)); del todo[a]; order.append(a)
            for n, t, ats in fs:
                if a in ats: near |= ats
        pos = {a: k for k, a in enumerate(order)}; at = [[] for _ in order]
        for n, t, ats in fs: at[max(pos[a] for a in ats)].append((n, t))
        vals = [[x for i, x in enumerate(a.vals) if self.mask(a) >> i & 1] for a in order]
        budget = [cap]; asg = {}
        def go(k):
            if k == len(order): return True
            for x in vals[k]:
                budget[0] -= 1
                if budget[0] < 0: return True
                asg[order[k]] = x
                if all(bool(ev(n, asg) & 1) == bool(t) for n, t in at[k]) and go(k + 1): return True
            return False
        try: return not go(0)
        except (Unknown, ZeroDivisionError, KeyError, TypeError): return False
    # -- refinement; returns list of PCs
    def assume(self, n, truth):
        d = self.decide(n)
        if d is not None: return [self] if d == truth else []
        if isinstance(n, Tab):
            m = 0
            for i, x in enumerate(n.vals):
                if (x & 1) == truth: m |= 1 << i
            p = self.copy()
            return [p] if p.restrict(n.atom, m) else []
        if isinstance(n, Herb):
            if n.op == 'not': return self.assume(n.args[0], 1 - truth)
            if (n.op == 'and1' and truth) or (n.op == 'or1' and not truth):
                return [q for p in self.assume(n.args[0], truth) for q in p.assume(n.args[1], truth)]
            if n.op in ('and1', 'or1'):
                a, b = n.args
                return self.assume(a, truth) + [q for p in self.assume(a, 1 - truth) for q in p.assume(b, truth)]
            if n.op == 'xor1':
                a, b = n.args
                return [q for t in (0, 1) for p in self.assume(a, t) for q in p.assume(b, truth ^ t)]
            p = self.copy(); p.known[n] = truth
            if n.op == 'le0':
                d = n.args[0]
                if not truth: d = Lin(tuple((a, -k) for a, k in d.t), 1 - d.c)   # d > 0  ->  -d + 1 <= 0
                return [p] if p.add_lin(d) and p.rel_lin_ok() else []
            if n.op == 'eq0':
                d = n.args[0]
                if truth:
                    return [p] if p.add_lin(d) and p.add_lin(Lin(tuple((a, -k) for a, k in d.t), -d.c)) else []
                p.rel = p.rel + ((n, 0),)
                lo, hi = p.range(d)
                if lo == 0: return [p] if p.add_lin(Lin(tuple((a, -k) for a, k in d.t), 1 - d.c)) else []
                if hi == 0: return [p] if p.add_lin(Lin(d.t, d.c + 1)) else []
                q1 = p.feasible_lin(p.lin + (Lin(d.t, d.c + 1),)); q2 = p.feasible_lin(p.lin + (Lin(tuple((a, -k) for a, k in d.t), 1 - d.c),))
                return [p] if q1 or q2 else []
            if n.op in ('gt0', 'ge0', 'req0'):
                op = n.op; r = n.args[0]
                p.real = p.real + ((r, op, truth),)
                return [p] if p.feasible_real() and p.tighten_trunc() else []
            if n.op == 'fpair':   # relation of two finite unknowns
                pass
            if n.op == 'icmp' and n.args[0] in ('eq', 'ne') and self.lin:
                la, lb = as_lin(n.args[1]), as_lin(n.args[2])
                if la is not None and lb is not None:
                    t = dict(la.t)
                    for a, k in lb.t: t[a] = t.get(a, 0) - k
                    t = tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda x: x[0].id)); c = la.c - lb.c
                    lt = Lin(t, c + 1); gt = Lin(tuple((a, -k) for a, k in t), 1 - c)
                    if (n.args[0] == 'eq') != bool(truth):
                        if not p.feasible_lin(p.lin + (lt,)) and not p.feasible_lin(p.lin + (gt,)): return []
                    elif not p.feasible_lin(p.lin + (Lin(t, c), Lin(tuple((a, -k) for a, k in t), -c))): return []
            p.rel = p.rel + ((n, truth),)
            return [p] if p.prop_rel() and p.rel_consistent(n) else []
        raise Unknown('assume %r' % (n,))
    def rel_lin_ok(self):
        """the linear facts are consistent with the (dis)equalities kept as relations"""
        eqs = (); nes = []
        for n, t in self.rel:
            if n.op != 'icmp' or n.args[0] not in ('eq', 'ne'): continue
            la, lb = as_lin(n.args[1]), as_lin(n.args[2])
            if la is None or lb is None: continue
            d = dict(la.t)
            for a, k in lb.t: d[a] = d.get(a, 0) - k
            d = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)); c = la.c - lb.c
            neg = tuple((a, -k) for a, k in d)
            if (n.args[0] == 'eq') == bool(t): eqs += (Lin(d, c), Lin(neg, -c))
            else: nes.append((Lin(d, c + 1), Lin(neg, 1 - c)))
        if not eqs and not nes: return True
        base = self.lin + eqs
        if eqs and not self.feasible_lin(base): return False
        for lt, gt in nes:
            if not self.feasible_lin(base + (lt,)) and not self.feasible_lin(base + (gt,)): return False
        return True
    def restrict(self, a, m):
        old = self.mask(a); new = old & m
        if new == 0: return False
        if new == old: return True
        self.dom[a] = new
        if self.lin or self.rel or self.real:
            if not self.prop_rel(): return False
            if any(any(x is a for x, k in l.t) for l in self.lin) and not self.feasible_lin(self.lin): return False
        return True
    def join(self, o):
        """exact join of two fact sets: (pc, atom, mask1, mask2), or None when the union is not
        representable.  Exact cases: equal facts; masks that differ in one finite unknown; one pair
        of complementary facts."""
        at = None; ma = mb = 0
        if self.dom != o.dom:
            for a in self.dom.keys() | o.dom.keys():
                x, y = self.dom.get(a, a.full), o.dom.get(a, a.full)
                if x != y:
                    if at is not None: return None
                    at, ma, mb = a, x, y
            if at is not None and ma & mb: 
                # overlapping: exact only as subsumption
                if ma | mb != ma and ma | mb != mb: return None
                return None
        if self.real == o.real and self.lin == o.lin and self.rel == o.rel:
            if self.iv != o.iv and self.lin == o.lin and not self.lin: return None
            if at is not None and (self.lin or self.rel or self.real):
                # facts that mention the unknown may have been tightened differently: same facts, so the union is exact
                pass
            if self.iv != o.iv: return None
            p = self.copy()
            if at is not None: p.dom[at] = ma | mb
            p.known = {k: v for k, v in self.known.items() if o.known.get(k) == v}
            if p.dom.get(at) == getattr(at, 'full', None) and at is not None: del p.dom[at]
            return p, at, ma, mb
        if at is not None: return None
        if self.lin == o.lin and self.rel == o.rel and self.iv == o.iv and len(self.real) == len(o.real):
            d = [(x, y) for x, y in zip(self.real, o.real) if x != y]
            if len(d) == 1 and d[0][0][:2] == d[0][1][:2] and d[0][0][2] != d[0][1][2]:
                p = self.copy(); p.real = tuple(x for x in self.real if x != d[0][0])
                p.known = {k: v for k, v in self.known.items() if o.known.get(k) == v}
                return p, None, 0, 0
        if self.lin == o.lin and self.real == o.real and self.iv == o.iv and len(self.rel) == len(o.rel):
            d = [(x, y) for x, y in zip(self.rel, o.rel) if x != y]
            if len(d) == 1 and d[0][0][0] == d[0][1][0] and d[0][0][1] != d[0][1][1]:
                p = self.copy(); p.rel = tuple(x for x in self.rel if x != d[0][0])
                p.known = {k: v for k, v in self.known.items() if o.known.get(k) == v}
                return p, None, 0, 0
        if self.rel == o.rel and self.real == o.real and len(self.lin) == len(o.lin):
            d = [(x, y) for x, y in zip(self.lin, o.lin) if x != y]
            if len(d) == 1:
                x, y = d[0]
                if y == Lin(tuple((a, -k) for a, k in x.t), 1 - x.c) or x == Lin(tuple((a, -k) for a, k in y.t), 1 - y.c):
                    p = self.copy(); p.lin = (); rest = [l for l in self.lin if l is not x and l != x]
                    p.iv = {}
                    ok = True
                    for l in rest: ok = ok and p.add_lin(l)
                    if not ok: return None
                    p.known = {k: v for k, v in self.known.items() if o.known.get(k) == v}
                    return p, None, 0, 0
        return None
    def add_lin(self, d):
        self.lin = self.lin + (d,)
        # interval tightening
        ch = True; n = 0
        while ch and n < 8:
            ch = False; n += 1
            for l in self.lin:
                lo, hi = self.range(l)
                if lo > 0: return False
                if lo == -math.inf: continue
                for a, k in l.t:
                    al, ah = self.arange(a)
                    rest = lo - (k * al if k > 0 else k * ah)
                    if k > 0:
                        b = (-rest) // k
                        if b < ah:
                            if b < al: return False
                            ch = True; self._tighten(a, al, b)
                    else:
                        b = -((-rest) // (-k))
                        if b > al:
                            if b > ah: return False
                            ch = True; self._tighten(a, b, ah)
                    if a.kind == 'fin' and self.mask(a) == 0: return False
        if len(self.lin) > 1 and not self.feasible_lin(self.lin): return False
        return self.prop_rel()
    def _tighten(self, a, lo, hi):
        if a.kind == 'fin':
            m = 0
            for i, v in enumerate(a.vals):
                if lo <= v <= hi: m |= 1 << i
            self.dom[a] = self.mask(a) & m
        else: self.iv[a] = (lo, hi)
    def lin_system(self, lins):
        cons = []; at = set()
        for l in lins:
            cons.append(({a: Fraction(k) for a, k in l.t}, Fraction(l.c), False))
            for a, k in l.t: at.add(a)
        for a in at:
            lo, hi = self.arange(a)
            if hi != math.inf: cons.append(({a: Fraction(1)}, Fraction(-hi), False))
            if lo != -math.inf: cons.append(({a: Fraction(-1)}, Fraction(lo), False))
        return cons
    def feasible_lin(self, lins):
        # connected component reduction is implicit in the elimination order
        for r, t in self.rel:
            pass
        return fm_project(self.lin_system(lins))
    def entails_lin(self, d):
        """lin system |= d <= 0"""
        neg = Lin(tuple((a, -k) for a, k in d.t), 1 - d.c)
        return not fm_project(self.lin_system(self.lin + (neg,)))
    def prop_rel(self):
        ch = True; n = 0
        while ch and n < 6:
            ch = False; n += 1
            for r, t in self.rel:
                if r.op == 'eq0' and t == 0:
                    lo, hi = self.range(r.args[0])
                    if lo == hi == 0: return False
                    continue
                if r.op == 'icmp' and r.args[0] in ('eq', 'ne'):
                    p, a, b, w = r.args
                    eq = (p == 'eq') == bool(t)
                    if isinstance(a, Tab) and isinstance(b, Tab):
                        av, bv = self.tvals(a), self.tvals(b)
                        if eq:
                            both = av & bv
                            if not both: return False
                            for x, xv in ((a, av), (b, bv)):
                                if xv != both:
                                    m = 0
                                    for i, v in enumerate(x.vals):
                                        if v in both: m |= 1 << i
                                    nm = self.mask(x.atom) & m
                                    if nm == 0: return False
                                    if nm != self.mask(x.atom): self.dom[x.atom] = nm; ch = True
                        else:
                            for x, y, yv in ((a, b, bv), (b, a, av)):
                                if len(yv) == 1:
                                    m = 0
                                    for i, v in enumerate(x.vals):
                                        if v not in yv: m |= 1 << i
                                    nm = self.mask(x.atom) & m
                                    if nm == 0: return False
                                    if nm != self.mask(x.atom): self.dom[x.atom] = nm; ch = True
                    elif isinstance(a, (Tab, int)) and isinstance(b, (Tab, int)):
                        x, c = (a, b) if isinstance(a, Tab) else (b, a)
                        m = 0
                        for i, v in enumerate(x.vals):
                            if (v == c) == eq: m |= 1 << i
                        nm = self.mask(x.atom) & m
                        if nm == 0: return False
                        if nm != self.mask(x.atom): self.dom[x.atom] = nm; ch = True
        return True
    def rel_consistent(self, n, limit=1500):
        """False when no values of the finite unknowns connected to n satisfy all relations among them"""
        if len(self.rel) < 2: return True
        rs = [(r, t, atoms_of(r)) for r, t in self.rel if r.op == 'icmp']
        comp = set(atoms_of(n)); ch = True
        while ch:
            ch = False
            for r, t, s in rs:
                if s & comp and not s <= comp: comp |= s; ch = True
        k = 1; dv = []; ats = sorted(comp, key=lambda a: a.id)
        for a in ats:
            if a.kind != 'fin': return True
            m = self.mask(a); vs = [x for i, x in enumerate(a.vals) if m >> i & 1]
            k *= len(vs); dv.append(vs)
        if k > limit:
            # equalities of whole characters: classes, and a disequality inside one
            up = {}
            def find(x):
                while x in up: x = up[x]
                return x
            idt = lambda v: isinstance(v, Tab) and v.vals == v.atom.vals
            for r, t, s in rs:
                p, x, y, w = r.args
                if p == 'eq' and t and idt(x) and idt(y):
                    u, v = find(x.atom), find(y.atom)
                    if u is not v: up[u] = v
            for r, t, s in rs:
                p, x, y, w = r.args
                if p == 'eq' and not t and idt(x) and idt(y) and find(x.atom) is find(y.atom): return False
            return True
        rs = [(r, t) for r, t, s in rs if s <= comp]
        import itertools
        try:
            for c in itertools.product(*dv):
                g = dict(zip(ats, c))
                if all(ev(r, g) == t for r, t in rs): return True
        except (Unknown, ZeroDivisionError, KeyError, TypeError): return True
        return False
    def tvals(self, t):
        m = self.mask(t.atom)
        return {v for i, v in enumerate(t.vals) if m >> i & 1}
    # -- reals: every monomial is a dimension of the polyhedron; squares are non-negative
    def real_system(self, extra=()):
        cons = []; mons = set()
        def add(p, strict):      # p <= 0 (or < 0)
            co = {m: c for m, c in p.items() if m}
            cons.append((co, p.get((), Fraction(0)), strict))
            mons.update(co)
        for r, op, t in tuple(self.real) + tuple(extra):
            p = r.num if r.den_is_one() or op == 'req0' else self.clear_den(r)
            neg = p_scale(p, Fraction(-1))
            if op == 'gt0': add(neg, True) if t else add(p, False)
            elif op == 'ge0': add(neg, False) if t else add(p, True)
            elif t: add(p, False); add(neg, False)
        for l in self.lin:
            add({**{((a, 1),): Fraction(k) for a, k in l.t}, (): Fraction(l.c)}, False)
        seen = set()
        for m in list(mons):
            if all(e % 2 == 0 for a, e in m): cons.append(({m: Fraction(-1)}, Fraction(0), False))
            for a, e in m:
                if e == 1 and len(m) == 1 and a not in seen:
                    seen.add(a)
                    cb = const_bounds(a) if a.kind == 'def' else None
                    if cb: cons.append(({m: Fraction(1)}, -cb[1], False)); cons.append(({m: Fraction(-1)}, cb[0], False))
                    if a.kind == 'def' and a.defn[0] in ('sqrt', 'fabs', 'exp'): cons.append(({m: Fraction(-1)}, Fraction(0), a.defn[0] == 'exp' or any(r == a.defn[1] and (op == 'gt0' and t or op == 'req0' and not t) for r, op, t in self.real)))
                    elif a.kind == 'def' and a.defn[0] in ('sin', 'cos', 'tan'):
                        l, h = fn_bounds(self, a)
                        if l != -INF: cons.append(({m: Fraction(-1)}, l, False)); cons.append(({m: Fraction(1)}, -h, False))
                    elif a.kind == 'real' and a.lo is not None: cons.append(({m: Fraction(-1)}, Fraction(a.lo), False)); cons.append(({m: Fraction(1)}, -Fraction(a.hi), False))
                    elif a.kind in ('fin', 'int') or (a.kind == 'def' and a.defn[0] == 'fptosi'):
                        lo, hi = self.arange(a)
                        cons.append(({m: Fraction(1)}, Fraction(-hi), False)); cons.append(({m: Fraction(-1)}, Fraction(lo), False))
        return cons
    def mod_eq(self, p):
        """p reduced by the equalities between real terms that hold here"""
        if not any(m and (len(m) > 1 or m[0][1] > 1) for m in p): return p
        eqs = []
        for r, op, t in self.real:
            if op == 'req0' and t and len(r.num) > 1 and any(sum(e for a, e in m) > 1 for m in r.num):
                l = p_lead(r.num)
                eqs.append((dict(l), r.num[l], {m: c for m, c in r.num.items() if m != l}))
        if not eqs: return p
        for _ in range(300):
            hit = None
            for m in p:
                md = dict(m)
                for l, k, rest in eqs:
                    if all(md.get(a, 0) >= e for a, e in l.items()): hit = (m, md, l, k, rest); break
                if hit: break
            if not hit: return p
            m, md, l, k, rest = hit; c = p[m]
            q = tuple(sorted(((a, e - l.get(a, 0)) for a, e in md.items() if e - l.get(a, 0)), key=lambda x: x[0].id))
            p = dict(p); del p[m]
            p = p_add(p, p_mul({q: -c / k}, rest))
        return p
    def implied_eqs(self):
        """linear facts that hold with equality, as substitutions of one unknown"""
        key = (self.real, self.lin, tuple(sorted((a.id, v) for a, v in self.iv.items())))
        r = _IEQ.get(key)
        if r is not None: return r
        if len(_IEQ) > 5000: _IEQ.clear()
        out = []; ats = {a for r, op, t in self.real for a in r.atoms()}
        cand = []
        for a in ats:
            if a.kind in ('fin', 'int') or a.kind == 'def' and a.defn[0] == 'fptosi':
                lo, hi = self.arange(a)
                if lo == hi: out.append((a, p_const(lo)))
            elif a.kind == 'real' and a.lo is not None: cand += [{((a, 1),): Fraction(1), (): -Fraction(a.lo)}, {((a, 1),): Fraction(-1), (): Fraction(a.hi)}]
        for r, op, t in self.real:
            if not r.den_is_one() or any(sum(e for a, e in m) > 1 for m in r.num): continue
            if op == 'req0' and t: out.append(r.num)
            elif (op, t) in (('ge0', 1), ('gt0', 0)): cand.append(r.num if t else p_scale(r.num, Fraction(-1)))
        for q in cand[-24:]:
            if any(m for m in q) and not fm_project(self.real_system(((RF(q), 'gt0', 1),))): out.append(q)
        sub = []
        for q in out:
            if isinstance(q, tuple): sub.append(q); continue
            q = p_subst(q, sub)
            v = [m[0][0] for m in q if m]
            if not v: continue
            a = max(v, key=lambda x: x.id); k = q[((a, 1),)]
            sub = [(b, p_subst(e, [(a, p_scale({m: c for m, c in q.items() if m != ((a, 1),)}, -1 / k))])) for b, e in sub]
            sub.append((a, p_scale({m: c for m, c in q.items() if m != ((a, 1),)}, -1 / k)))
        _IEQ[key] = sub
        return sub
    def feasible_real(self, extra=()):
        for r, op, t in tuple(self.real) + tuple(extra):
            if op == 'req0' and not t:
                if not r.num: return False
                # refuted when the facts force it to zero
                ex = tuple(e for e in tuple(extra) if not (e[1] == 'req0' and not e[2]))
                if not fm_project(self.real_system(ex + ((r, 'gt0', 1),))) and not fm_project(self.real_system(ex + ((rf_mul(r, rf_const(-1)), 'gt0', 1),))): return False
        base = self.real_system(extra)
        if not fm_project(base): return False
        if extra and any(sum(e for a, e in m) > 1 for co, c, st_ in base for m in co) and not fm_project(base + self.products(extra), cap=1500): return False
        return True
    def tighten_trunc(self):
        """integer bounds of truncated reals"""
        ats = {a for r, op, t in self.real for a in r.atoms() if a.kind == 'def' and a.defn[0] == 'fptosi'}
        if not ats or len(self.real) > 24: return True
        sys_ = self.real_system()
        for a in sorted(ats, key=lambda x: x.id):
            lo, hi = self.arange(a); l, h = fm_bounds(sys_, ((a, 1),)); nl, nh = lo, hi
            if l is not None: x = math.ceil(l[0]); nl = max(lo, x + 1 if l[1] and x == l[0] else x)
            if h is not None: x = math.floor(h[0]); nh = min(hi, x - 1 if h[1] and x == h[0] else x)
            if nl > nh: return False
            if (nl, nh) != (lo, hi):
                self.iv[a] = (nl, nh)
                if not self.feasible_real(): return False
        return True
    def clear_den(self, r):
        """a polynomial with the sign of r"""
        s = self.den_sign(r.den)
        return r.num if s > 0 else p_scale(r.num, Fraction(-1)) if s < 0 else p_mul(r.num, r.den)
    def den_sign(self, den):
        """sign of a denominator that the polynomial facts entail, or 0"""
        key = (self.real, p_key(den))
        r = _DEN.get(key)
        if r is None:
            if len(_DEN) > 20000: _DEN.clear()
            q = PC(); q.real = tuple(x for x in self.real if x[0].den_is_one()); q.dom = self.dom; q.iv = self.iv; q.lin = self.lin
            d = RF(den)
            r = 1 if not fm_project(q.real_system(((d, 'gt0', 0),))) else -1 if not fm_project(q.real_system(((d, 'ge0', 1),))) else 0
            _DEN[key] = r
        return r
    def products(self, extra):
        """products of pairs of sign facts are sign facts (only monomials that occur anyway, or one degree up)"""
        fs = []
        for r, op, t in tuple(self.real) + tuple(extra):
            if op == 'req0': continue
            for q in ([r.num] if r.den_is_one() else [self.clear_den(r)]):
                if max((sum(e for a, e in m) for m in q), default=0) > 2 or len(q) > 8: continue
                # as q >= 0 (or > 0)
                if op == 'gt0': f = (q, True) if t else (p_scale(q, Fraction(-1)), False)
                else: f = (q, False) if t else (p_scale(q, Fraction(-1)), True)
                if f not in fs: fs.append(f)
        seen = set()
        for q, st_ in list(fs):
            for m in q:
                for a, e in m:
                    if a.kind == 'real' and a.lo is not None and a not in seen:
                        seen.add(a); fs.append(({((a, 1),): Fraction(1), (): -Fraction(a.lo)}, False)); fs.append(({((a, 1),): Fraction(-1), (): Fraction(a.hi)}, False))
                    elif a.kind == 'def' and a.defn[0] in ('sqrt', 'fabs') and a not in seen:
                        seen.add(a); fs.append(({((a, 1),): Fraction(1)}, False))
        fs = fs[-14:]
        out = []
        for i in range(len(fs)):
            for j in range(i, len(fs)):
                q = p_mul(fs[i][0], fs[j][0])
                if len(q) > 24: continue
                out.append(({m: -c for m, c in q.items() if m}, -q.get((), Fraction(0)), fs[i][1] and fs[j][1]))
        return out
    def all_atoms(self):
        s = set(self.dom) | set(self.iv)
        for l in self.lin: s.update(a for a, k in l.t)
        for r, op, t in self.real: s |= r.atoms()
        for r, t in self.rel: s |= atoms_of(r)
        return s
    def witness(self, goal=(), seed=1, want=()):
        """a point of the concretisation that also satisfies the (node, truth) pairs in goal, or None"""
        ats = self.all_atoms()
        for n, t in goal: ats |= atoms_of(n)
        for v in want: ats |= atoms_of(v)
        # definitions depend on base atoms
        work = list(ats)
        while work:
            a = work.pop()
            if a.kind == 'def':
                for x in a.defn[1:]:
                    for b in atoms_of(x):
                        if b not in ats: ats.add(b); work.append(b)
        base = sorted((a for a in ats if a.kind != 'def'), key=lambda a: a.id)
        rng = random.Random(seed)
        fins = [a for a in base if a.kind == 'fin']; ints = [a for a in base if a.kind == 'int']; reals = [a for a in base if a.kind == 'real']
        checks = [(n, t) for n, t in self.rel] + list(goal)
        pcs = [self]
        for n, t in goal:      # refine by the goal first, it guides the choice
            np_ = []
            for p in pcs:
                try: np_ += p.assume(n, t)
                except Unknown: np_.append(p)
            pcs = np_
        for p in pcs[:8]:
            for att in range(60 if reals or len(fins) + len(ints) > 1 else 300):
                asg = p._pick(fins, ints, reals, rng, att)
                if asg is None: continue
                try:
                    if p._check(asg, checks): return {a: v for a, v in asg.items() if a.kind != 'def'}
                except (Unknown, KeyError, ValueError, ZeroDivisionError, OverflowError): continue
        return None
    def _pick(self, fins, ints, reals, rng, att):
        cur = self; asg = {}
        for a in fins:
            m = cur.mask(a)
            opts = [v for i, v in enumerate(a.vals) if m >> i & 1]
            if not opts: return None
            if att == 0: pr = [v for v in opts if 97 <= v <= 122] or [v for v in opts if 33 <= v <= 126] or opts; v = pr[0]
            else: v = rng.choice(opts)
            asg[a] = v
            q = cur.copy()
            if not q.restrict(a, 1 << a.index[v]): return None
            cur = q
        order = ints + reals
        if att: rng.shuffle(order)
        extra = []
        for a in order:
            if a.kind == 'int':
                lo, hi = cur.arange(a)
                lo, hi = cur._bounds(a, lo, hi)
                if lo > hi: return None
                c = [x for x in (0, 1, 2, -1, lo, hi, (lo + hi) // 2) if lo <= x <= hi]
                v = c[0] if att == 0 else rng.choice(c + [rng.randint(lo, hi)])
                asg[a] = v
                q = cur.copy()
                if not q.add_lin(Lin(((a, 1),), -v)) or not q.add_lin(Lin(((a, -1),), v)): return None
                cur = q
            else:
                lo, hi = cur._real_bounds(a)
                opts = [Fraction(x) for x in (0, 1, -1, 2, Fraction(1, 2), 3, -2, Fraction(3, 2), 5, -3, 10, -10, 100, Fraction(1, 10))]
                ok = [x for x in opts if (lo is None or x > lo) and (hi is None or x < hi)]
                if lo is not None and hi is not None: ok += [(lo + hi) / 2] + ([lo + (hi - lo) * Fraction(rng.randint(1, 99), 100)] if hi > lo else []) + [lo, hi]
                elif lo is not None: ok += [lo + 1, lo + Fraction(rng.randint(1, 50), 7), lo]
                elif hi is not None: ok += [hi - 1, hi - Fraction(rng.randint(1, 50), 7), hi]
                else: ok += [Fraction(rng.randint(-40, 40), rng.randint(1, 9))]
                if not ok: return None
                v = rng.choice(ok)
                asg[a] = v
                q = cur.copy(); q.real = q.real + ((RF(p_add(p_atom(a), p_const(v), -1)), 'req0', 1),)
                cur = q
        return asg
    def _bounds(self, a, lo, hi):
        # exact projection on one variable by bisection-free substitution: use FM entailment at the ends
        for _ in range(0): pass
        return lo, hi
    def _real_bounds(self, a):
        lo = hi = None
        # substitute already-fixed atoms
        fixed = {}
        for r, op, t in self.real:
            if op == 'req0' and t and r.den_is_one() and len(r.num) <= 2:
                ms = [m for m in r.num if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1: fixed[ms[0][0][0]] = -r.num.get((), Fraction(0)) / r.num[ms[0]]
        for r, op, t in self.real:
            if not r.den_is_one(): continue
            k = Fraction(0); c = Fraction(0); bad = False
            for m, q in r.num.items():
                x = q; has = False
                for b, e in m:
                    if b is a and e == 1: has = True
                    elif b in fixed: x *= fixed[b] ** e
                    else: bad = True; break
                if bad: break
                if has: k += x
                else: c += x
            if bad or k == 0: continue
            z = -c / k
            if op == 'req0':
                if t: return z, z
                continue
            up = (k > 0) == bool(t)     # a >= z
            if up: lo = z if lo is None else max(lo, z)
            else: hi = z if hi is None else min(hi, z)
        if a.lo is not None:
            lo = Fraction(a.lo) if lo is None else max(lo, Fraction(a.lo)); hi = Fraction(a.hi) if hi is None else min(hi, Fraction(a.hi))
        return lo, hi
    def _check(self, asg, checks):
        for a, m in self.dom.items():
            if a in asg and not m >> a.index[asg[a]] & 1: return False
        for l in self.lin:
            if ev(l, asg) > 0: return False
        for r, op, t in self.real:
            x = ev(r, asg)
            if isinstance(x, float):
                k = ev_scale(r, asg)
                if abs(x) < 1e-8 * k:
                    if op == 'req0' and t and abs(x) < 1e-13 * k: continue
                    return False
            y = x > 0 if op == 'gt0' else x >= 0 if op == 'ge0' else x == 0
            if int(y) != t: return False
        for n, t in checks:
            if ev(n, asg) != t: return False
        return True

def atoms_of(v):
    if isinstance(v, Tab): return {v.atom}
    if isinstance(v, Lin): return {a for a, k in v.t}
    if isinstance(v, RF): return v.atoms()
    if isinstance(v, Herb):
        s = set()
        for a in v.args: s |= atoms_of(a)
        return s
    if isinstance(v, Vec):
        s = set()
        for a in v.v: s |= atoms_of(a)
        return s
    if isinstance(v, (tuple, list)):
        s = set()
        for a in v: s |= atoms_of(a)
        return s
    return set()

# ---------------------------------------------------------------- operations
def b_not(n):
    if isinstance(n, int): return 1 - (n & 1)
    if isinstance(n, Tab): return mk_tab(n.atom, tuple(1 - (v & 1) for v in n.vals))
    if isinstance(n, Herb) and n.op == 'not': return n.args[0]
    return Herb('not', (n,), 1)

def binop(pc, op, a, b, w):
    if isinstance(a, int) and isinstance(b, int): return conc_bin(op, a, b, w)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not isinstance(a, (int,) + SYM) or not isinstance(b, (int,) + SYM): raise Unknown('int op on %r %r' % (type(a), type(b)))
    if w == 1:
        if op == 'and':
            if a == 0 or b == 0: return 0
            if a == 1: return b
            if b == 1: return a
        elif op == 'or':
            if a == 1 or b == 1: return 1
            if a == 0: return b
            if b == 0: return a
        elif op == 'xor' or op == 'add' or op == 'sub':
            if a == 0: return b
            if b == 0: return a
            if a == 1: return b_not(b)
            if b == 1: return b_not(a)
            op = 'xor'
        if isinstance(a, Tab) and isinstance(b, Tab) and a.atom is b.atom: return _tabbin(op, a, b, 1)
        if op in ('and', 'or', 'xor'): return Herb(op + '1', (a, b), 1)
    ta, tb = isinstance(a, Tab), isinstance(b, Tab)
    if (ta or isinstance(a, int)) and (tb or isinstance(b, int)) and not (ta and tb and a.atom is not b.atom):
        return _tabbin(op, a, b, w)
    if op in ('add', 'sub'):
        if b == 0: return a
        la, lb = as_lin(a), as_lin(b)
        if la is not None and lb is not None:
            s = 1 if op == 'add' else -1
            d = dict(la.t)
            for x, k in lb.t: d[x] = d.get(x, 0) + s * k
            r = mk_lin(d, la.c + s * lb.c)
            if isinstance(r, int): return sgn(r, w)
            lo, hi = pc.range(r)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): return r
        if op == 'sub' and a == b: return 0
    if op == 'mul' or op == 'shl':
        if op == 'shl' and isinstance(b, int) and 0 <= b < w: b = 1 << b; op = 'mul'
        if op == 'mul':
            if isinstance(a, int): a, b = b, a
            if b == 0: return 0
            if b == 1: return a
            if isinstance(b, int):
                la = as_lin(a)
                if la is not None:
                    r = mk_lin({x: k * b for x, k in la.t}, la.c * b)
                    lo, hi = pc.range(r)
                    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): return r
                b = sgn(b, w)
    if op in ('sdiv', 'udiv', 'ashr', 'lshr') and isinstance(b, int):
        k = b if op[-3:] == 'div' else (1 << b if 0 <= b < w else 0)
        if k == 1: return a
        if k > 0 and isinstance(a, Lin):
            lo, hi = pc.range(a)
            if (lo >= 0 or op in ('sdiv', 'ashr')) and a.c % k == 0 and all(q % k == 0 for x, q in a.t):
                return mk_lin({x: q // k for x, q in a.t}, a.c // k)
            l2, h2 = pc.range(mk_lin({x: q for x, q in a.t if q % k}, 0))
            c2 = a.c % k
            if l2 + c2 < 0: c2 += -((l2 + c2) // k) * k
            if l2 + c2 >= 0 and h2 + c2 < k and (op == 'ashr' or lo >= 0): return mk_lin({x: q // k for x, q in a.t if q % k == 0}, (a.c - c2) // k)
    if op in ('sdiv', 'udiv', 'srem', 'urem') and b == 0: raise ZeroDivisionError
    if op == 'and' and b == -1: return a
    if op == 'and' and a == -1: return b
    if op in ('and', 'mul') and (a == 0 or b == 0): return 0
    if op in ('or', 'xor') and b == 0: return a
    if op in ('or', 'xor') and a == 0: return b
    if op in ('xor', 'sub') and a == b: return 0
    if op in ('and', 'or') and a == b: return a
    if op == 'and' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:   # low mask
        lo, hi = pc.range(a)
        if lo >= 0 and hi <= b: return a
    if op in ('urem', 'srem') and isinstance(b, int) and b > 0:
        lo, hi = pc.range(a)
        if lo >= 0 and hi < b: return a
    if op in ('lshr', 'udiv') and isinstance(a, Herb) and a.op == 'bin' and a.args[0] == 'or' and isinstance(b, int):
        k = 1 << b if op == 'lshr' else b
        for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
            if isinstance(y, Herb) and y.op == 'bin' and y.args[0] == 'mul' and y.args[2] == k:
                lo, hi = pc.range(x); l2, h2 = pc.range(y.args[1])
                if lo >= 0 and hi < k and l2 >= 0 and h2 * k < 1 << w: return y.args[1]
    if op == 'or':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Lin):
                g = math.gcd(x.c, *(q for z, q in x.t)); g &= -g
                if g > 1:
                    lo, hi = pc.range(y)
                    if lo >= 0 and hi < g: return binop(pc, 'add', a, b, w)
        r = _reassemble(a, b, w) or _reassemble(b, a, w)
        if r is not None: return r
    if op in ('add', 'mul', 'and', 'or', 'xor') and (isinstance(a, int) or hash(a) > hash(b) and not isinstance(b, int)): a, b = b, a
    return pc.red(Herb('bin', (op, a, b), w))
def _reassemble(lo, hi, w):
    """low part | (high part << k) of the same value"""
    if not (isinstance(lo, Herb) and lo.op == 'zext' and isinstance(hi, Herb) and hi.op == 'bin' and hi.args[0] == 'mul' and isinstance(hi.args[2], int)): return None
    k = hi.args[2].bit_length() - 1
    l, h = lo.args[0], hi.args[1]
    if hi.args[2] != 1 << k or not (isinstance(l, Herb) and l.op == 'trunc' and l.w == k): return None
    if not (isinstance(h, Herb) and h.op == 'zext' and isinstance(h.args[0], Herb) and h.args[0].op == 'trunc' and h.args[0].w == w - k): return None
    h = h.args[0].args[0]
    if isinstance(h, Herb) and h.op == 'bin' and h.args[0] == 'lshr' and h.args[2] == k and h.w == w and h.args[1] == l.args[0]: return h.args[1]
    return None
def _tabbin(op, a, b, w):
    at = a.atom if isinstance(a, Tab) else b.atom
    n = len(at.vals)
    av = a.vals if isinstance(a, Tab) else (a,) * n
    bv = b.vals if isinstance(b, Tab) else (b,) * n
    out = []
    for x, y in zip(av, bv):
        try: out.append(conc_bin(op, x, y, w))
        except ZeroDivisionError: out.append(0)
    return mk_tab(at, tuple(out))

SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}
def icmp(pc, p, a, b, w):
    if isinstance(a, int) and isinstance(b, int): return conc_cmp(p, a, b, w)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not isinstance(a, (int,) + SYM) or not isinstance(b, (int,) + SYM): raise Unknown('icmp on %r' % (type(a),))
    if isinstance(a, (Lin, Herb)) and w > 1: a = pc.red(a)
    if isinstance(b, (Lin, Herb)) and w > 1: b = pc.red(b)
    if isinstance(a, int) and isinstance(b, int): return conc_cmp(p, a, b, w)
    if isinstance(a, int): a, b = b, a; p = SWAP[p]
    if w == 1 and p in ('eq', 'ne'):
        if isinstance(b, int): return a if (b & 1) == (p == 'eq') else b_not(a)
        x = binop(pc, 'xor', a, b, 1); return x if p == 'ne' else b_not(x)
    if isinstance(a, Tab) and (isinstance(b, int) or (isinstance(b, Tab) and b.atom is a.atom)):
        bv = b.vals if isinstance(b, Tab) else (b,) * len(a.vals)
        r = mk_tab(a.atom, tuple(conc_cmp(p, x, y, w) for x, y in zip(a.vals, bv)))
        d = pc.decide(r)
        return r if d is None else d
    if p in ('eq', 'ne') and isinstance(a, Herb) and isinstance(b, Herb) and a.op == b.op and a.op in ('zext', 'sext') and a.args[1] == b.args[1]: return icmp(pc, p, a.args[0], b.args[0], a.args[1])
    if isinstance(a, Herb) and isinstance(b, int):
        if a.op == 'zext':
            x, xw = a.args
            if xw == 1:
                if p == 'ne' and b == 0 or p == 'eq' and b == 1: return x
                if p == 'eq' and b == 0 or p == 'ne' and b == 1: return b_not(x)
            if p in ('eq', 'ne'):
                if not 0 <= b < (1 << xw): return int(p == 'ne')
                return icmp(pc, p, x, sgn(b, xw), xw)
        if a.op == 'sext' and p in ('eq', 'ne'):
            x, xw = a.args
            if sgn(b, xw) == b: return icmp(pc, p, x, b, xw)
            return int(p == 'ne')
        if a.op == 'concat' and p in ('eq', 'ne'):
            r = 1; u = uns(b, w)
            for i, x in enumerate(a.args): r = binop(pc, 'and', r, icmp(pc, 'eq', x, sgn(u >> 8 * i, 8), 8), 1)
            return r if p == 'eq' else b_not(r)
    if isinstance(a, Herb) and isinstance(b, Herb) and a.op == b.op == 'concat' and len(a.args) == len(b.args) and p in ('eq', 'ne'):
        r = 1
        for x, y in zip(a.args, b.args): r = binop(pc, 'and', r, icmp(pc, 'eq', x, y, 8), 1)
        return r if p == 'eq' else b_not(r)
    if a == b: return int(p in ('eq', 'sle', 'sge', 'ule', 'uge'))
    la, lb = as_lin(a), as_lin(b)
    if la is not None and lb is not None and not (isinstance(a, Tab) and isinstance(b, Tab) and p in ('eq', 'ne')):
        if p[0] == 'u':
            (l1, h1), (l2, h2) = pc.range(a), pc.range(b)
            if l1 < 0 <= h1: raise Split([(icmp(pc, 'slt', a, 0, w), 1), (icmp(pc, 'slt', a, 0, w), 0)])
            if l2 < 0 <= h2: raise Split([(icmp(pc, 'slt', b, 0, w), 1), (icmp(pc, 'slt', b, 0, w), 0)])
            n1, n2 = h1 < 0, h2 < 0
            if n1 != n2: return conc_cmp(p, -1 if n1 else 1, -1 if n2 else 1, w)
        d = dict(la.t)
        for x, k in lb.t: d[x] = d.get(x, 0) - k
        t = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda x: x[0].id)); c = la.c - lb.c
        if not t: return conc_cmp('eq' if p == 'eq' else 'ne' if p == 'ne' else 's' + p[1:], c, 0, 64)
        q = p if p in ('eq', 'ne') else p[1:]
        # canonical: le0(d) or eq0(d)
        if q in ('eq', 'ne'):
            if t[0][1] < 0: t = tuple((x, -k) for x, k in t); c = -c
            n = Herb('eq0', (Lin(t, c),), 1); neg = q == 'ne'
        elif q == 'le': n = Herb('le0', (Lin(t, c),), 1); neg = False
        elif q == 'lt': n = Herb('le0', (Lin(t, c + 1),), 1); neg = False
        elif q == 'gt': n = Herb('le0', (Lin(t, c),), 1); neg = True
        else: n = Herb('le0', (Lin(t, c + 1),), 1); neg = True
        d = pc.decide(n)
        if d is not None: return d ^ neg
        return b_not(n) if neg else n
    try:
        (l1, h1), (l2, h2) = pc.range(a), pc.range(b)
        if p in ('eq', 'ne') and (h1 < l2 or h2 < l1): return int(p == 'ne')
        if p[0] == 's' or (l1 >= 0 and l2 >= 0):
            q = p[1:] if p not in ('eq', 'ne') else p
            if q == 'lt' and h1 < l2 or q == 'le' and h1 <= l2 or q == 'gt' and l1 > h2 or q == 'ge' and l1 >= h2: return 1
            if q == 'lt' and l1 >= h2 or q == 'le' and l1 > h2 or q == 'gt' and h1 <= l2 or q == 'ge' and h1 < l2: return 0
        elif p[0] == 'u' and isinstance(b, int) and b >= 0 and h1 < 0: return int(p in ('ugt', 'uge'))
    except Unknown: pass
    if p == 'ne': return b_not(icmp(pc, 'eq', a, b, w))
    if p == 'eq' and isinstance(b, Tab) and isinstance(a, Tab) and a.atom.id > b.atom.id: a, b = b, a
    return pc.red(Herb('icmp', (p, a, b, 64 if p == 'eq' else w), 1))

def p_psd(p):
    """True when the polynomial is a quadratic form (plus lower terms) that is non-negative everywhere"""
    idx = {}; 
    if len(p) > 120: return False
    for m in p:
        if sum(e for a, e in m) > 2: return False
        for a, e in m: idx.setdefault(a, len(idx) + 1)
    n = len(idx) + 1; M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        f = [idx[a] for a, e in m for _ in range(e)] + [0, 0]
        i, j = f[0], f[1]
        if len(m) == 0: i = j = 0
        if i == j: M[i][i] += c
        else: M[i][j] += c / 2; M[j][i] += c / 2
    for k in range(n):
        if M[k][k] < 0: return False
        if M[k][k] == 0:
            if any(M[k][j] for j in range(n)): return False
            continue
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                for j in range(k, n): M[i][j] -= f * M[k][j]
        for i in range(k + 1, n): M[k][i] = Fraction(0)
    return True
INF = float('inf')
def _imul(x, y):
    v = [0 if u == 0 or w == 0 else u * w if abs(u) != INF and abs(w) != INF else (INF if (u > 0) == (w > 0) else -INF) for u in x for w in y]
    return min(v), max(v)
def fn_bounds(pc, a):
    """bounds of a trigonometric function from the bounds of its argument"""
    fn = a.defn[0]
    if fn not in ('sin', 'cos', 'tan'): return (-INF, INF)
    x = a.defn[1]; lo, hi = p_interval(pc, x.num) if isinstance(x, RF) and x.den_is_one() else (-INF, INF)
    full = (-INF, INF) if fn == 'tan' else (Fraction(-1), Fraction(1))
    if lo == -INF or hi == INF: return full
    lo, hi = float(lo), float(hi); e = 1e-9
    if fn == 'tan': return (Fraction(math.tan(lo) - e * (1 + abs(math.tan(lo)))), Fraction(math.tan(hi) + e * (1 + abs(math.tan(hi))))) if -1.57 < lo and hi < 1.57 else full
    s = 0 if fn == 'sin' else math.pi / 2    # extremes of sin(x + s)
    f = lambda v: math.sin(v + s); v = [f(lo), f(hi)]; k = math.ceil((lo + s - math.pi / 2 - e) / math.pi)
    while math.pi / 2 + k * math.pi - s <= hi + e: v.append(1.0 if k % 2 == 0 else -1.0); k += 1
    return (max(Fraction(-1), Fraction(min(v) - e)), min(Fraction(1), Fraction(max(v) + e)))
def p_interval(pc, p):
    """bounds of a polynomial from the bounds of its unknowns, term by term"""
    lo = hi = Fraction(0)
    for m, c in p.items():
        r = (c, c)
        for a, e in m:
            if a.kind == 'real': b = (-INF, INF) if a.lo is None else (Fraction(a.lo), Fraction(a.hi))
            elif a.kind in ('fin', 'int') or a.kind == 'def' and a.defn[0] == 'fptosi': b = tuple(Fraction(x) for x in pc.arange(a))
            elif a.kind == 'def' and a.defn[0] in ('sqrt', 'fabs', 'exp'): b = (Fraction(0), INF)
            elif a.kind == 'def': b = fn_bounds(pc, a)
            else: b = (-INF, INF)
            l, h = b
            if e % 2 == 0 and l < 0: l, h = (Fraction(0), max(-l, h)) if h > 0 else (-h, -l)
            r = _imul(r, tuple(x if abs(x) != INF and not x else x ** e for x in (l, h)))
        lo, hi = lo + r[0], hi + r[1]
    return lo, hi
_IEQ = {}
def p_subst(p, sub):
    """the polynomial with unknowns replaced"""
    for a, e in sub:
        if not any(b is a for m in p for b, _ in m): continue
        r = {}
        for m, c in p.items():
            k = next((x for b, x in m if b is a), 0)
            q = {tuple((b, x) for b, x in m if b is not a): c}
            for _ in range(k): q = p_mul(q, e)
            r = p_add(r, q)
        p = r
    return p
def rcmp(pc, p, a, b):
    """comparison of real terms; p in lt le gt ge eq ne"""
    if p == 'ne': return b_not(rcmp(pc, 'eq', a, b))
    if p in ('lt', 'le'): a, b = b, a; p = 'gt' if p == 'lt' else 'ge'
    d = rf_add(a, b, -1)
    c = d.const()
    if c is None and any(op == 'req0' and t for r, op, t in pc.real):
        q = pc.mod_eq(d.num)
        if q is not d.num:
            d = rf_norm(q, d.den); c = d.const()
    if c is not None: return int(c > 0 if p == 'gt' else c >= 0 if p == 'ge' else c == 0)
    if all(is_const_def(x) for x in d.atoms()):      # a function of constants
        try:
            asg = {}; x = ev(d, asg)
            if abs(x) > 1e-12 * ev_scale(d, asg) or isinstance(x, Fraction): return int(x > 0 if p != 'eq' else x == 0) if x else int(p != 'gt')
        except (Unknown, KeyError, ValueError, ZeroDivisionError, OverflowError): pass
    if d.den_is_one() and len(d.num) > 1 and p != 'eq':
        if p == 'ge' and p_psd(d.num): return 1
        if p == 'gt' and p_psd(p_scale(d.num, Fraction(-1))): return 0
    if d.den_is_one() and len(d.num) == 1:
        (m, c), = d.num.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'def' and m[0][0].defn[0] == 'sqrt':    # the sign of a root
            x = m[0][0].defn[1]
            if p == 'eq': return rcmp(pc, 'eq', x, rf_const(0))
            if p == 'gt': return rcmp(pc, 'gt', x, rf_const(0)) if c > 0 else 0
            return 1 if c > 0 else rcmp(pc, 'eq', x, rf_const(0))
    dl, dh = (1, 1) if d.den_is_one() else p_interval(pc, d.den)
    if dl > 0 or dh < 0 or p == 'eq':
        lo, hi = p_interval(pc, d.num)
        if dh < 0: lo, hi = -hi, -lo
        if p == 'eq':
            if lo > 0 or hi < 0: return 0
        elif lo > 0 or lo >= 0 and p == 'ge': return 1
        elif hi < 0 or hi <= 0 and p == 'gt': return 0
    # canonical scale: make the leading coefficient +-1
    if d.den_is_one():
        k = abs(d.num[p_lead(d.num)])
        if k != 1: d = RF(p_scale(d.num, 1 / k))
        lead = d.num[p_lead(d.num)]
    else: lead = 1
    neg = False
    if p == 'eq':
        if lead < 0: d = RF(p_scale(d.num, Fraction(-1)), d.den)
        n = Herb('req0', (d,), 1)
    elif p == 'gt':
        if lead < 0: n = Herb('ge0', (RF(p_scale(d.num, Fraction(-1)), d.den),), 1); neg = True    # d > 0  <=> !(-d >= 0)
        else: n = Herb('gt0', (d,), 1)
    else:
        if lead < 0: n = Herb('gt0', (RF(p_scale(d.num, Fraction(-1)), d.den),), 1); neg = True
        else: n = Herb('ge0', (d,), 1)
    k = pc.decide(n)
    if k is None:
        op = n.op
        if not pc.feasible_real(((n.args[0], op, 1),)): k = 0
        elif not pc.feasible_real(((n.args[0], op, 0),)): k = 1
        if k is not None: return k ^ neg
        sub = pc.implied_eqs()
        if sub:
            q = p_subst(n.args[0].num, sub)
            if q != n.args[0].num:
                qd = p_subst(n.args[0].den, sub)
                if qd: 
                    k = rcmp(pc, {'req0': 'eq', 'gt0': 'gt', 'ge0': 'ge'}[op], rf_norm(q, qd), rf_const(0))
                    if k in (0, 1): return k ^ neg
        N = n.args[0].num
        if len(N) > 1 and len(N) <= 40 and max(sum(e for _, e in m) for m in N) > 1:
            for r, fop, t in pc.real:      # a factor whose sign is known
                if not r.den_is_one() or (fop, t) not in (('gt0', 1), ('ge0', 0)): continue
                if max((sum(e for _, e in m) for m in r.num), default=0) < 1 or len(r.num) > 12: continue
                q = p_divexact(N, r.num)
                if q is None or q == P1: continue
                k = rcmp(pc, {'req0': 'eq', 'gt0': 'gt', 'ge0': 'ge'}[op], rf_norm(q if fop == 'gt0' else p_scale(q, Fraction(-1)), n.args[0].den), rf_const(0))
                if k in (0, 1): return k ^ neg
        return b_not(n) if neg else n
    return k ^ neg

def cast(pc, op, v, fw, tw):
    if v is UNDEF: return UNDEF
    if isinstance(v, int):
        if op == 'zext': return sgn(uns(v, fw), tw)
        if op == 'sext': return sgn(v, tw) if fw > 1 else (-1 if v else 0)
        return sgn(v, tw)
    if isinstance(v, Tab):
        if op == 'zext': return mk_tab(v.atom, tuple(sgn(uns(x, fw), tw) for x in v.vals))
        if op == 'sext': return mk_tab(v.atom, tuple(x if fw > 1 else -x for x in v.vals))
        return mk_tab(v.atom, tuple(sgn(x, tw) for x in v.vals))
    if isinstance(v, Lin):
        lo, hi = pc.range(v)
        if op == 'sext': return v
        if op == 'zext':
            if lo >= 0: return v
            if hi >= 0: raise Split([(icmp(pc, 'slt', v, 0, fw), 1), (icmp(pc, 'slt', v, 0, fw), 0)])
            return Lin(v.t, v.c + (1 << fw))
        if lo >= -(1 << (tw - 1)) and hi < 1 << (tw - 1): return v
        if any(q % (1 << tw) == 0 for x, q in v.t): return cast(pc, op, mk_lin({x: q for x, q in v.t if q % (1 << tw)}, v.c), fw, tw)
        k = ((lo + (1 << (tw - 1))) >> tw) << tw
        if lo - k >= -(1 << (tw - 1)) and hi - k < 1 << (tw - 1): return Lin(v.t, v.c - k)
        return Herb('trunc', (v,), tw)
    if isinstance(v, Herb):
        if op == 'zext':
            lo, hi = pc.range(v)
            if lo >= 0 and fw > 1 and v.op != 'concat': return Herb(v.op, v.args, tw) if v.op in ('zext',) else Herb('zext', (v, fw), tw)
            return Herb('zext', (v, fw), tw)
        if op == 'sext': return Herb('sext', (v, fw), tw)
        if tw == 1 and v.op in ('zext', 'sext') and v.args[1] == 1: return v.args[0]
        if v.op == 'bin' and v.args[0] == 'or':
            for x, y in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
                if isinstance(y, Herb) and y.op == 'bin' and y.args[0] == 'mul' and isinstance(y.args[2], int) and y.args[2] % (1 << tw) == 0: return cast(pc, 'trunc', x, fw, tw)
        if v.op in ('zext', 'sext') and v.args[1] <= tw:
            return v.args[0] if v.args[1] == tw else Herb(v.op, v.args, tw)
        if v.op == 'concat':
            if tw % 8 == 0: 
                a = v.args[:tw // 8]
                return a[0] if len(a) == 1 else Herb('concat', a, tw)
        return Herb('trunc', (v,), tw)
    if isinstance(v, RF): return v
    raise Unknown('cast')
