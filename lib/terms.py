"""Interned terms, value classes and two value domains (free terms, rational-function normal form)."""
from fractions import Fraction

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'args', 'id')
    def __repr__(s): return show(s)

_tab = {}
def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T); t.op = op; t.args = args; t.id = len(_tab)
        _tab[k] = t
    return t

def show(t, depth=4):
    if not isinstance(t, T): return str(t)
    if t.op == 'i': return str(t.args[0])
    if t.op == 'd': return repr(t.args[0])
    if t.op == 'p': return '&%s+%s' % (short(t.args[0]), t.args[1])
    if t.op == 'alg': return Alg.show(t, depth)
    if t.op == 'sym': return str(t.args[0])
    if t.op == 'num': return str(t.args[0])
    if depth == 0: return '..'
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) if isinstance(a, T) else short(a) for a in t.args))

def short(x):
    s = str(x)
    return s if len(s) < 40 else s[:37] + '...'

def I(v, bits=64):
    v &= (1 << bits) - 1
    if v >> (bits - 1): v -= 1 << bits
    return mk('i', v, bits)

def isI(t): return isinstance(t, T) and t.op == 'i'

NULL = mk('null')
TRUE = mk('i', -1, 1)
FALSE = mk('i', 0, 1)
def B(v): return TRUE if v else FALSE
def ptr(obj, off=0): return mk('p', obj, off)

# ---------------------------------------------------------------- value classes
NAN, NINF, NL, N1, NS, Z, S, P1, L, PINF = (1 << i for i in range(10))
ALL = (1 << 10) - 1
NEG = NINF | NL | N1 | NS
POS = S | P1 | L | PINF
INF = NINF | PINF
FIN = ALL & ~(NAN | INF)
NAMES = ['NaN', '-inf', '(-inf,-1)', '-1', '(-1,0)', '0', '(0,1)', '1', '(1,inf)', '+inf']
SINGLE = NAN, NINF, N1, Z, P1, PINF
def bits(m): return [1 << i for i in range(10) if m >> i & 1]
def cname(m): return '{' + ', '.join(NAMES[i] for i in range(10) if m >> i & 1) + '}' if m != ALL else 'any'

def c_neg(m):
    r = m & (NAN | Z)
    for i in range(1, 10):
        if m >> i & 1: r |= 1 << (10 - i)
    return r

_mag = {Z: 0, NS: 1, S: 1, N1: 2, P1: 2, NL: 3, L: 3, NINF: 4, PINF: 4}
_pos = [Z, S, P1, L, PINF]
def _mk(sign, mags):
    r = 0
    for m in mags:
        b = _pos[m]
        r |= c_neg(b) if sign < 0 else b
    return r
def _sg(b): return -1 if b & NEG else 1

_mulm = {(1, 1): [1, 0], (1, 2): [1], (1, 3): [1, 2, 3], (2, 2): [2], (2, 3): [3], (3, 3): [3, 4], (1, 4): [4], (2, 4): [4], (3, 4): [4], (4, 4): [4],
         (0, 0): [0], (0, 1): [0], (0, 2): [0], (0, 3): [0]}
_divm = {(0, 1): [0], (0, 2): [0], (0, 3): [0], (0, 4): [0], (1, 0): [4], (2, 0): [4], (3, 0): [4], (4, 0): [4],
         (1, 1): [0, 1, 2, 3, 4], (1, 2): [1], (1, 3): [1, 0], (1, 4): [0], (2, 1): [3, 2], (2, 2): [2], (2, 3): [1, 2], (2, 4): [0],
         (3, 1): [3, 4], (3, 2): [3], (3, 3): [0, 1, 2, 3, 4], (3, 4): [0], (4, 1): [4], (4, 2): [4], (4, 3): [4]}

# (1 / x neither overflows nor underflows: the range of the numbers is symmetric up to its very last exponent)
def mul1(a, b):
    if (a | b) & NAN: return NAN
    x, y = _mag[a], _mag[b]
    if x > y: x, y = y, x
    if (x, y) == (0, 4): return NAN
    return _mk(_sg(a) * _sg(b), _mulm[(x, y)])

def div1(a, b):
    if (a | b) & NAN: return NAN
    x, y = _mag[a], _mag[b]
    if (x, y) in ((0, 0), (4, 4)): return NAN
    r = _mk(_sg(a) * _sg(b), _divm[(x, y)])
    if y == 0: r |= c_neg(r)          # the sign of a zero divisor is not modelled
    return r

def add1(a, b):
    if (a | b) & NAN: return NAN
    if a & INF or b & INF:
        if a & INF and b & INF: return a if a == b else NAN
        return a if a & INF else b
    if a == Z: return b
    if b == Z: return a
    x, y = _mag[a], _mag[b]
    if _sg(a) == _sg(b):
        p, q = min(x, y), max(x, y)
        t = {(1, 1): [1, 2, 3], (1, 2): [2, 3], (1, 3): [3], (2, 2): [3], (2, 3): [3], (3, 3): [3, 4]}[(p, q)]
        return _mk(_sg(a), t)
    # opposite signs: |a| - |b| with the sign of a
    if _sg(a) < 0: return c_neg(add1(c_neg(a), c_neg(b)))
    t = {(1, 1): NS | Z | S, (1, 2): NS | N1 | Z, (1, 3): NS | N1 | NL, (2, 1): S | P1 | Z, (2, 2): Z, (2, 3): NS | N1 | NL | Z, (3, 1): S | P1 | L, (3, 2): S | P1 | L | Z,
         (3, 3): NL | N1 | NS | Z | S | P1 | L}[(x, y)]
    return t

def lift2(f):
    cache = {}
    def g(a, b):
        r = cache.get((a, b))
        if r is None:
            r = 0
            for x in bits(a):
                for y in bits(b): r |= f(x, y)
            cache[(a, b)] = r
        return r
    return g
c_add, c_mul, c_div = lift2(add1), lift2(mul1), lift2(div1)
def c_sub(a, b): return c_add(a, c_neg(b))
def lift1(tab):
    def g(m):
        r = 0
        for x in bits(m): r |= tab[x]
        return r
    return g
c_sqrt = lift1({NAN: NAN, NINF: NAN, NL: NAN, N1: NAN, NS: NAN, Z: Z, S: S | P1, P1: P1, L: L | P1, PINF: PINF})
def c_inv(m): return c_div(P1, m)

_ord = {NINF: 0, NL: 1, N1: 2, NS: 3, Z: 4, S: 5, P1: 6, L: 7, PINF: 8}
def cmp1(a, b):
    if (a | b) & NAN: return frozenset((-1, 0, 1))
    x, y = _ord[a], _ord[b]
    if x == y: return frozenset((0,)) if a in SINGLE else frozenset((-1, 0, 1))
    return frozenset((-1,)) if x < y else frozenset((1,))

def c_of_num(q):
    if q == 0: return Z
    s = S if abs(q) < 1 else P1 if abs(q) == 1 else L
    return s if q > 0 else c_neg(s)

# predicate -> (classes where it may be true, classes where it may be false)
PRED = {
    'isnan': (NAN, ALL & ~NAN), 'isinf': (INF, ALL & ~INF), 'isfinite': (FIN, ALL & ~FIN), 'iszero': (Z, ALL & ~Z), 'isone': (P1, ALL & ~P1),
    'isneg': (NEG | NAN, POS | Z | NAN), 'isint': (NL | N1 | Z | P1 | L, NAN | INF | NL | NS | S | L),
}

# ---------------------------------------------------------------- free-term domain
class Free:
    """Operations as uninterpreted, hash-consed operators; only a double negation is simplified."""
    alg = False
    def num(s, q): return mk('num', Fraction(q))
    def sym(s, name): return mk('sym', name)
    def neg(s, a):
        if a.op == 'neg': return a.args[0]
        if a.op == 'num': return mk('num', -a.args[0])
        return mk('neg', a)
    def add(s, a, b):
        if a.id > b.id: a, b = b, a
        return mk('add', a, b)
    def sub(s, a, b): return mk('sub', a, b)
    def mul(s, a, b):
        if a.id > b.id: a, b = b, a
        return mk('mul', a, b)
    def div(s, a, b): return mk('div', a, b)
    def inv(s, a): return mk('div', s.num(1), a)
    def fun(s, name, *args):
        if name == 'sqrt' and s.isnum(args[0]) in (0, 1): return args[0]
        return mk('f:' + name, *args)
    def isnum(s, t): return t.args[0] if t.op == 'num' else None
    def islimit(s, t): return t.op == 'sym' and t.args[0] == ('k', 'value_max')
    def equal(s, a, b): return a is b
    def canon_sign(s, t): return (t.args[0], True) if t.op == 'neg' else (t, False)

# ---------------------------------------------------------------- rational functions over atoms
ODD = {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt', 'log1p1m2', 'integer_part', 'decimal_part', 'fromint', 'csc', 'cot', 'fromdbl'}
EVEN = {'cos', 'cosh', 'sec'}

class Alg:
    """Terms are quotients of polynomials with rational coefficients over opaque atoms."""
    alg = True
    LIMIT = 400
    def _t(s, n, d):
        n, d = s._norm(n, d)
        return mk('alg', frozenset(n.items()), frozenset(d.items()))
    @staticmethod
    def parts(t): return dict(t.args[0]), dict(t.args[1])
    def _norm(s, n, d):
        n = {k: v for k, v in n.items() if v}
        if not n: return {}, {(): Fraction(1)}
        # common monomial
        def mon(p):
            it = iter(p); m = dict(next(it))
            for k in it:
                dk = dict(k)
                m = {a: min(e, dk[a]) for a, e in m.items() if a in dk}
                if not m: break
            return m
        if d != {(): Fraction(1)}:
            a, b = mon(n), mon(d)
            g = {x: min(e, b[x]) for x, e in a.items() if x in b}
            if g:
                def red(p):
                    r = {}
                    for k, v in p.items():
                        dk = dict(k)
                        for x, e in g.items():
                            dk[x] -= e
                            if not dk[x]: del dk[x]
                        r[tuple(sorted(dk.items(), key=lambda z: z[0].id))] = v
                    return r
                n, d = red(n), red(d)
            if len(d) > 1:
                q = s._exact_div(n, d)
                if q is not None: n, d = q, {(): Fraction(1)}
                elif len(n) > 1:
                    q = s._exact_div(d, n)
                    if q is not None: n, d = {(): Fraction(1)}, q
        lk = max(d, key=s._ok); lc = d[lk]
        if lc != 1:
            n = {k: v / lc for k, v in n.items()}; d = {k: v / lc for k, v in d.items()}
        return n, d
    @staticmethod
    def _ok(m): return (sum(e for _, e in m), tuple((a.id, e) for a, e in m))
    def _exact_div(s, n, d):
        # multivariate division with lexicographic order on atom ids; None unless exact
        atoms = sorted({a for k in list(n) + list(d) for a, _ in k}, key=lambda a: a.id)
        if len(atoms) > 12: return None
        def vec(k):
            dk = dict(k); return tuple(dk.get(a, 0) for a in atoms)
        N = {vec(k): v for k, v in n.items()}; D = {vec(k): v for k, v in d.items()}
        ld = max(D); Q = {}
        for _ in range(300):
            if not N: break
            ln = max(N)
            q = tuple(x - y for x, y in zip(ln, ld))
            if min(q) < 0: return None
            c = N[ln] / D[ld]; Q[q] = c
            for k, v in D.items():
                kk = tuple(x + y for x, y in zip(k, q))
                r = N.get(kk, 0) - c * v
                if r: N[kk] = r
                else: N.pop(kk, None)
        else: return None
        if N: return None
        return {tuple((a, e) for a, e in zip(atoms, k) if e): v for k, v in Q.items()}
    def num(s, q): return s._t({(): Fraction(q)}, {(): Fraction(1)})
    def atom(s, a): return s._t({((a, 1),): Fraction(1)}, {(): Fraction(1)})
    def sym(s, name): return s.atom(mk('sym', name))
    @staticmethod
    def _pm(p, q):
        r = {}
        for a, x in p.items():
            for b, y in q.items():
                if not a: k = b
                elif not b: k = a
                else:
                    dk = dict(a)
                    for z, e in b: dk[z] = dk.get(z, 0) + e
                    k = tuple(sorted(dk.items(), key=lambda z: z[0].id))
                r[k] = r.get(k, 0) + x * y
        return r
    def _toobig(s, *ps):
        n = 1
        for p in ps: n *= len(p)
        return n > s.LIMIT
    def neg(s, a):
        n, d = s.parts(a); return s._t({k: -v for k, v in n.items()}, d)
    def add(s, a, b):
        (n, d), (m, e) = s.parts(a), s.parts(b)
        if d == e:
            r = dict(n)
            for k, v in m.items(): r[k] = r.get(k, 0) + v
            return s._t(r, d)
        if s._toobig(n, e) or s._toobig(m, d): return s.atom(mk('opq+', *sorted((a, b), key=lambda z: z.id)))
        r = s._pm(n, e)
        for k, v in s._pm(m, d).items(): r[k] = r.get(k, 0) + v
        return s._t(r, s._pm(d, e))
    def sub(s, a, b): return s.add(a, s.neg(b))
    def mul(s, a, b):
        (n, d), (m, e) = s.parts(a), s.parts(b)
        if s._toobig(n, m) or s._toobig(d, e):
            (x, p), (y, q) = s.canon_sign(a), s.canon_sign(b)
            t = s.atom(mk('opq*', *sorted((x, y), key=lambda z: z.id)))
            return s.neg(t) if p != q else t
        return s._t(s._pm(n, m), s._pm(d, e))
    def inv(s, a):
        n, d = s.parts(a)
        if not n: return s.atom(mk('inv0'))
        return s._t(d, n)
    def div(s, a, b): return s.mul(a, s.inv(b))
    def canon_sign(s, t):
        n, _ = s.parts(t)
        if not n: return t, False
        lk = max(n, key=s._ok)
        return (s.neg(t), True) if n[lk] < 0 else (t, False)
    def fun(s, name, *args):
        if name == 'sqrt':
            q = s.isnum(args[0])
            if q is not None and q in (0, 1): return args[0]
        if name == 'exp' and s.isnum(args[0]) == 0: return s.num(1)
        if name == 'log' and s.isnum(args[0]) == 1: return s.num(0)
        if len(args) == 1 and isinstance(args[0], T) and args[0].op == 'alg':
            a, ng = s.canon_sign(args[0])
            if name in ODD:
                if s.isnum(a) == 0: return a
                t = s._fatom(name, a); return s.neg(t) if ng else t
            if name in EVEN:
                return s.num(1) if s.isnum(a) == 0 else s._fatom(name, a)
            if name == 'exp':
                t = s._fatom(name, a); return s.inv(t) if ng else t
            if name == 'log':
                x, y = args[0], s.inv(args[0])
                if y.id < x.id: return s.neg(s._fatom(name, y))
        return s._fatom(name, *args)
    def _fatom(s, name, *args): return s.atom(mk('f:' + name, *args))
    def islimit(s, t):
        if t.op != 'alg' or len(t.args[0]) != 1: return False
        (m, c), = t.args[0]
        return c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] is mk('sym', ('k', 'value_max')) and len(t.args[1]) == 1 and () in dict(t.args[1])
    def isnum(s, t):
        if t.op != 'alg': return None
        n, d = s.parts(t)
        if d != {(): 1}: return None
        if not n: return Fraction(0)
        return n[()] if len(n) == 1 and () in n else None
    def equal(s, a, b):
        if a is b: return True
        if a is None or b is None or a.op != 'alg' or b.op != 'alg': return False
        (n, d), (m, e) = s.parts(a), s.parts(b)
        x, y = s._pm(n, e), s._pm(m, d)
        for k in set(x) | set(y):
            if x.get(k, 0) != y.get(k, 0): return False
        return True
    @staticmethod
    def show(t, depth=4):
        def poly(p):
            if not p: return '0'
            out = []
            for k, v in sorted(p, key=lambda z: Alg._ok(z[0]), reverse=True)[:8]:
                m = '*'.join((show(a, depth - 1) if depth > 0 else '..') + ('^%d' % e if e != 1 else '') for a, e in k)
                out.append(m if v == 1 and m else '-' + m if v == -1 and m else (str(v) + ('*' + m if m else '')))
            return ' + '.join(out) + (' + ...' if len(p) > 8 else '')
        n, d = t.args
        return poly(n) if dict(d) == {(): 1} else '(%s)/(%s)' % (poly(n), poly(d))
