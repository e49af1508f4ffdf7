"""Identity testing of extracted terms: evaluates a term at sample points (never runs library code)."""
import mpmath
from fractions import Fraction
from terms import *
mp = mpmath.mp
mp.dps = 60

class NoEval(Exception): pass

def nstr(v, n=15):
    """As mpmath.nstr, also for numbers with gigantic exponents."""
    if isinstance(v, mpmath.mpf) and mpmath.isfinite(v) and v:
        m = int(mpmath.mag(v))
        if abs(m) > 40000: return '%s2^%s' % ('-' if v < 0 else '', m if abs(m) < 10 ** 30 else '%s(2^%d)' % ('-' if m < 0 else '', abs(m).bit_length()))
    return mpmath.nstr(v, n)

CONST = {'nan': lambda: mpmath.nan, 'inf': lambda: mpmath.inf, 'value_nan': lambda: mpmath.nan, 'value_inf': lambda: mpmath.inf, 'pi': lambda: mp.pi, 'pi_half': lambda: mp.pi / 2, 'two_pi': lambda: 2 * mp.pi, 'pi_squared': lambda: mp.pi ** 2, 'sqrt_pi': lambda: mpmath.sqrt(mp.pi), 'e': lambda: mp.e, 'ln2': lambda: mpmath.log(2), 'ln10': lambda: mpmath.log(10),
         'sqrt2': lambda: mpmath.sqrt(2), 'sqrt3': lambda: mpmath.sqrt(3), 'phi': lambda: mp.phi, 'euler_gamma': lambda: mp.euler, 'catalan': lambda: mp.catalan, 'khinchin': lambda: mp.khinchin, 'glaisher': lambda: mp.glaisher,
         'value_max': lambda: mpmath.mpf(10) ** 3000000000, 'value_eps': lambda: mpmath.mpf(10) ** -49, 'value_min': lambda: mpmath.mpf(10) ** -3000000000}
def real(f):
    def g(*a):
        r = f(*a)
        if isinstance(r, mpmath.mpc):
            if r.imag != 0: return mpmath.nan
            r = r.real
        return r
    return g
FUN = {'sqrt': real(mpmath.sqrt), 'exp': mpmath.exp, 'log': lambda x: mpmath.log(x) if x > 0 else mpmath.nan if x < 0 else -mpmath.inf, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan,
       'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'asin': real(mpmath.asin), 'acos': real(mpmath.acos), 'atan': mpmath.atan, 'asinh': mpmath.asinh, 'acosh': real(mpmath.acosh),
       'atanh': real(mpmath.atanh), 'atan2': mpmath.atan2, 'cbrt': lambda x: mpmath.sign(x) * mpmath.root(abs(x), 3), 'pow': real(mpmath.power), 'fabs': abs, 'abs': abs, 'log1p': lambda x: mpmath.log(1 + x), 'hypot': mpmath.hypot,
       'log10': lambda x: mpmath.log(x) / mpmath.log(10), 'floor': mpmath.floor, 'ceil': mpmath.ceil, 'integer_part': lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x),
       'decimal_part': lambda x: x - (mpmath.floor(x) if x >= 0 else mpmath.ceil(x)), 'loga': lambda b, x: mpmath.log(x) / mpmath.log(b), 'powi': mpmath.power, 'rootn': lambda x, p: mpmath.root(x, int(p)),
       'csc': mpmath.csc, 'sec': mpmath.sec, 'cot': mpmath.cot, 'log1p1m2': real(mpmath.atanh), 'pow2': lambda k: mpmath.mpf(2) ** k, 'inv': lambda x: 1 / x}
CDBL = {'m:' + k: FUN[k] for k in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'atan2', 'pow', 'hypot', 'log10', 'floor', 'ceil')}
for k in list(CDBL):
    CDBL[k + 'f'] = CDBL[k]; CDBL[k + 'l'] = CDBL[k]
CDBL['m:fabs'] = abs; CDBL['m:fabsf'] = abs; CDBL['m:fabsl'] = abs


def width(t):
    o = t.op
    if o == 'i': return t.args[1]
    if o in ('sext', 'zext', 'trunc', 'iu', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'): return t.args[0]
    if o in ('add', 'sub', 'mul') and isinstance(t.args[0], int): return t.args[0]
    if o == 'cmp': return 32
    if o in ('pred', 'cmpin', 'icmp', 'pc', 'fc', 'not', 'band', 'bor', 'bxor'): return 1
    return 64

def wrap(v, w):
    v = int(v) & ((1 << w) - 1)
    return v - (1 << w) if v >> (w - 1) else v

INTOPS = {'add', 'sub', 'mul', 'sext', 'zext', 'trunc', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'}
MARG = {'double': 53, 'float': 24, 'x86_fp80': 64}


class Ev:
    """point: {symbol name: mpf}."""
    def __init__(s, point): s.p = point; s.memo = {}
    def __call__(s, t):
        r = s.memo.get(t)
        if r is None: r = s.memo[t] = s.ev(t)
        return r
    def ev(s, t):
        o = t.op
        if o == 'alg':
            def poly(p):
                v = mpmath.mpf(0)
                for k, c in p:
                    m = mpmath.mpf(c.numerator) / c.denominator
                    for a, e in k: m *= s(a) ** e
                    v += m
                return v
            n = poly(t.args[0]); d = poly(t.args[1])
            if d == 0: return mpmath.nan if n == 0 else mpmath.inf * mpmath.sign(n)
            return n / d
        if o == 'num': return mpmath.mpf(t.args[0].numerator) / t.args[0].denominator
        if o == 'sym':
            n = t.args[0]
            if n in s.p: return s.p[n]
            if type(n) is tuple and n[0] == 'k' and n[1] in CONST: return CONST[n[1]]()
            if type(n) is tuple and n[0] == 'lit': return litnum(n[1])
            raise NoEval(str(n)[:80])
        if o in ('add', 'opq+') and isinstance(t.args[0], T) : return s(t.args[0]) + s(t.args[1])
        if o in ('opq*',): return s(t.args[0]) * s(t.args[1])
        if o == 'inv0': return mpmath.inf
        if o in ('neg',): return -s(t.args[0])
        if o in ('sub', 'mul', 'div') and isinstance(t.args[0], T):
            a, b = s(t.args[0]), s(t.args[1])
            if o == 'sub': return a - b
            if o == 'mul': return a * b
            return a / b if b else (mpmath.nan if a == 0 else mpmath.inf * mpmath.sign(a))
        if o.startswith('f:'):
            n = o[2:]
            if n == 'div0':
                a = s(t.args[0]); return mpmath.inf * mpmath.sign(a) if a else mpmath.nan
            if n == 'int_u':
                a = t.args[0]; v = s.iv(a)
                return mpmath.mpf(v & ((1 << width(a)) - 1))
            if n == 'int_s': return mpmath.mpf(s.iv(t.args[0]))
            if n == 'fromint' or n == 'fromdbl': return s(t.args[0])
            f = FUN.get(n)
            if f is None: raise NoEval(n)
            return f(*[s(a) for a in t.args])
        if o in CDBL: return CDBL[o](*[s(a) for a in t.args])
        # machine values
        if o in INTOPS and isinstance(t.args[0], int): return mpmath.mpf(s.iv(t))
        if o == 'cmp':
            a, b = s(t.args[0]), s(t.args[1]); return mpmath.mpf((a > b) - (a < b))
        if o == 'i': return mpmath.mpf(t.args[0])
        if o == 'd':
            return mpmath.mpf(t.args[0])
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = s(t.args[1]), s(t.args[2])
            if o == 'fadd': return a + b
            if o == 'fsub': return a - b
            if o == 'fmul': return a * b
            return a / b if b else (mpmath.nan if a == 0 else mpmath.inf * mpmath.sign(a))
        if o == 'fneg': return -s(t.args[-1])
        if o == 'fptrunc':
            v = s(t.args[1])
            if not mpmath.isfinite(v): return v
            with mp.workprec(MARG[t.args[0]]): return +v
        if o in ('sitofp', 'uitofp'):
            v = s.iv(t.args[1])
            if o == 'uitofp': v &= (1 << width(t.args[1])) - 1
            with mp.workprec(MARG.get(t.args[0], 53)): return mpmath.mpf(v)
        if o == 'du': return s(t.args[1])
        if o == 'fabs': return abs(s(t.args[0]))
        if o == 'iu' and t.args[1].op == 'sym': return s(t.args[1])
        if o == 'call' and t.args[0].startswith('llvm.'):
            n = t.args[0].split('.')[1]
            if n in FUN: return FUN[n](*[s(a) for a in t.args[1]])
        raise NoEval(o)

    def iv(s, t):
        """Machine integer, as a signed value of its width."""
        o = t.op
        if o == 'i': return t.args[0]
        if o in INTOPS and isinstance(t.args[0], int):
            w = t.args[0]; a = s.iv(t.args[1]); wa = width(t.args[1])
            if o in ('sext', 'trunc'): return wrap(a, w)
            if o == 'zext': return wrap(a & ((1 << wa) - 1), w)
            b = s.iv(t.args[2]); ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            if o in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: raise NoEval('div by zero')
            q = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'shl': lambda: ua << ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub, 'and': lambda: ua & ub, 'or': lambda: ua | ub,
                 'xor': lambda: ua ^ ub, 'udiv': lambda: ua // ub, 'urem': lambda: ua % ub, 'sdiv': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), 'srem': lambda: abs(a) % abs(b) * (1 if a >= 0 else -1)}[o]
            return wrap(q(), w)
        if width(t) == 1 and not (o == 'iu' and t.args[1].op == 'sym'): return -1 if s.truth(t) else 0
        v = s(t)
        if not mpmath.isfinite(v) or v != mpmath.floor(v): raise NoEval('integer')
        return wrap(int(v), width(t))

    def truth(s, c):
        """Truth of a decision term at the point."""
        o = c.op
        if o == 'i': return bool(c.args[0])
        if o == 'not': return not s.truth(c.args[0])
        if o == 'band': return s.truth(c.args[0]) and s.truth(c.args[1])
        if o == 'bor': return s.truth(c.args[0]) or s.truth(c.args[1])
        if o == 'bxor': return s.truth(c.args[0]) != s.truth(c.args[1])
        if o == 'pred':
            n, t = c.args; v = s(t)
            if n == 'isnan': return bool(mpmath.isnan(v))
            if n == 'isinf': return bool(mpmath.isinf(v))
            if n == 'isfinite': return bool(mpmath.isfinite(v))
            if n == 'iszero': return v == 0
            if n == 'isone': return v == 1
            if n == 'isneg': return v < 0
            if n == 'isint': return bool(mpmath.isfinite(v)) and v == mpmath.floor(v)
        if o == 'cmpin':
            a, b = s(c.args[0]), s(c.args[1])
            return ((a > b) - (a < b)) in c.args[2]
        if o == 'icmp':
            p = c.args[0]; a, b = s.iv(c.args[1]), s.iv(c.args[2])
            if p[0] == 'u': w = (1 << width(c.args[1])) - 1; a &= w; b &= w
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
        if o == 'fc':
            p = c.args[0]; a, b = s(c.args[1]), s(c.args[2])
            un = mpmath.isnan(a) or mpmath.isnan(b)
            if p == 'ord': return not un
            if p == 'uno': return bool(un)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
            return bool(un) if un else bool(r)
        if o == 'iu' and c.args[1].op == 'call' and c.args[1].args[0].startswith('llvm.is.fpclass'):
            a, k = c.args[1].args[1]; v = s(a); k = k.args[0]
            b = 0x3 if mpmath.isnan(v) else (0x200 if v > 0 else 4) if mpmath.isinf(v) else 0x60 if v == 0 else 0x180 if v > 0 else 0x18
            return bool(b & k)
        if o in ('iu', 'trunc') and (o == 'trunc' or c.args[1].op == 'sym'): return bool(s.iv(c) & 1 if o == 'trunc' else s.iv(c))
        raise NoEval('cond ' + o)


FUN.update(hypergeometric_0f0=lambda x: mpmath.exp(x), hypergeometric_0f1=mpmath.hyp0f1, hypergeometric_1f0=lambda a, x: (1 - x) ** -a, hypergeometric_1f1=mpmath.hyp1f1, hypergeometric_2f0=lambda a, b, x: mpmath.hyp2f0(a, b, x),
           hypergeometric_2f1=mpmath.hyp2f1, gamma=real(mpmath.gamma), factorial=lambda n: mpmath.factorial(int(n)), factorial2=lambda n: mpmath.fac2(int(n)), rootn_inverse=lambda x, p: 1 / FUN['rootn'](x, p), pi=None)
del FUN['pi']
FUN['rootn'] = lambda x, p: (mpmath.root(x, int(p)) if x >= 0 else -mpmath.root(-x, int(p)) if int(p) % 2 else mpmath.nan)
FUN['binomial'] = lambda n, k: mpmath.binomial(int(n), int(k))
FUN['riemann_zeta'] = real(mpmath.zeta)


class EvU(Ev):
    """As Ev, but terms without a mathematical meaning are values of uninterpreted functions of their arguments (the same in every run)."""
    def __init__(s, point, salt=0):
        Ev.__init__(s, point); s.salt = salt; s.opq = set()
    def uf(s, *key):
        import hashlib
        h = int.from_bytes(hashlib.sha256(repr((s.salt,) + key).encode()).digest()[:6], 'big')
        return mpmath.mpf(h % 999983) / 250007 + mpmath.mpf(1) / 16
    def ev(s, t):
        o = t.op
        if o == 'iu' and isinstance(t.args[1], T):
            u = t.args[1]
            if u.op == 'order':
                v = abs(s(u.args[0]))
                return mpmath.mpf(0) if v == 0 or not mpmath.isfinite(v) else mpmath.floor(mpmath.log10(v))
            if u.op in ('toll', 'toull'):
                v = s(u.args[0])
                if not mpmath.isfinite(v): raise NoEval('toll')
                return mpmath.floor(v) if v >= 0 else mpmath.ceil(v)
            if u.op in ('fptosi', 'fptoui'):
                v = s(u.args[1])
                if not mpmath.isfinite(v): raise NoEval('fptosi')
                return mpmath.floor(v) if v >= 0 else mpmath.ceil(v)
            if u.op == 'exp2':
                v = abs(s(u.args[0])); return mpmath.mpf(int(mpmath.frexp(v)[1]) if v and mpmath.isfinite(v) else 0)
            if u.op == 'exp10':
                v = abs(s(u.args[0])); return mpmath.mpf(0) if v == 0 or not mpmath.isfinite(v) else mpmath.floor(mpmath.log10(v))
        if o == 'du' and isinstance(t.args[1], T):
            u = t.args[1]
            if u.op in ('todbl', 'told'):
                v = s(u.args[0])
                if not mpmath.isfinite(v): return v
                with mp.workprec(53 if u.op == 'todbl' else 64): return +v
            if u.op == 'mant2':
                v = s(u.args[0]); return mpmath.frexp(v)[0] if v and mpmath.isfinite(v) else v
            if u.op == 'mant':
                v = s(u.args[0]); e = mpmath.floor(mpmath.log10(abs(v))) if v else 0
                return v / mpmath.mpf(10) ** e
        if o == 'f:mantexp': return s(t.args[0]) * mpmath.mpf(10) ** s(t.args[1])
        try: return Ev.ev(s, t)
        except NoEval: pass
        s.opq.add(t)
        key = [o]
        for a in t.args:
            if isinstance(a, T) and a.op not in ('sig', 'site', 'fr', 'prov'):
                try: key.append(nstr(s(a), 20))
                except NoEval: key.append(a.id)
            else: key.append(a.id if isinstance(a, T) else str(a))
        r = s.uf(*key)
        return mpmath.floor(r * 7) if width(t) in (1, 8, 16, 32) or o == 'iu' else r
    def truth(s, c):
        try: return Ev.truth(s, c)
        except NoEval:
            s.opq.add(c); return s.uf('b', c.id) > 2


class OutOfTable(Exception): pass
SIZES = {}
def tab(name, f):
    def g(*a):
        k = [int(v) for v in a]
        if name in SIZES and not 0 <= k[0] < SIZES[name]: raise OutOfTable('%s()[%d] (the table has %d entries)' % (name, k[0], SIZES[name]))
        if len(k) > 1 and not 0 <= k[1] <= k[0]: raise OutOfTable('%s()[%d]()[%d]' % (name, k[0], k[1]))
        return f(*k)
    return g
def bernfrac(n, i):
    return mpmath.mpf(int(mpmath.bernfrac(n)[i]))
FUN.update({'tab:A000142': tab('A000142', lambda k: mpmath.factorial(k)), 'tab:A006882': tab('A006882', lambda k: mpmath.fac2(k)), 'tab:A007318': tab('A007318', lambda n, k: mpmath.binomial(n, k)),
            'tab:A000367': tab('A000367', lambda k: bernfrac(2 * k, 0)), 'tab:A002445': tab('A002445', lambda k: bernfrac(2 * k, 1)),
            'bernoulli': lambda n: mpmath.bernoulli(int(n)), 'jpowx': lambda j, x: mpmath.power(j, x), 'gamma_near_n': lambda n, x: mpmath.gamma(n + x), 'pochhammer': lambda x, n: mpmath.rf(x, n)})
def litnum(txt):
    import re
    t = txt.strip().rstrip('lLfF')
    if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', t): raise NoEval('literal ' + t[:20])
    with mp.workdps(max(mp.dps, 150)): return mpmath.mpf(t)
_primes = []
def nprime(i):
    if not _primes:
        N = 20000; sv = bytearray([1]) * N
        for k in range(2, 142):
            if sv[k]: sv[k * k::k] = bytes(len(range(k * k, N, k)))
        _primes.extend(k for k in range(2, N) if sv[k])
    return _primes[i]


_deps = {}
def deps(t):
    """Loop keys a term depends on."""
    r = _deps.get(t)
    if r is not None: return r
    r = set(); stack = [t]; seen = {t}
    while stack:
        u = stack.pop()
        if u is not t and u in _deps: r |= _deps[u]; continue
        if u.op in ('site', 'fr'): continue
        if u.op == 'mu': r.add(u.args[0])
        if u.op == 'alg': it = [a for p in u.args for k, _ in p for a, _ in k]
        else: it = []; sub = list(u.args)
        if u.op != 'alg':
            while sub:
                a = sub.pop()
                if isinstance(a, T): it.append(a)
                elif type(a) is tuple or type(a) is frozenset: sub.extend(a)
        for a in it:
            if a not in seen: seen.add(a); stack.append(a)
    r = _deps[t] = frozenset(r)
    return r


class EvR(EvU):
    """As EvU; the value a loop leaves in a variable is given by the loop's extracted recurrence (entry values, updates and exit conditions).
    Values of C types are rounded to their formats."""
    def __init__(s, point, recs, salt=0, limit=200000):
        EvU.__init__(s, point, salt); s.recs = recs; s.mu = {}; s.by = {}; s.budget = limit; s.running = set()
    def __call__(s, t):
        r = s.memo.get(t)
        if r is None:
            s.budget -= 1
            if s.budget < 0: raise NoEval('budget')
            r = s.memo[t] = s.ev(t)
            for k in deps(t): s.by.setdefault(k, []).append(t)
        return r
    def forget(s, k):
        for t in s.by.pop(k, ()): s.memo.pop(t, None)
    def step(s, k, state):
        s.forget(k)
        for q in list(s.mu):
            if q is not k and k in deps(q): s.mu.pop(q); s.forget(q)
        s.mu[k] = state
    def iterate(s, k):
        rec = s.recs.get(k)
        if rec is None: raise NoEval('loop without recurrence')
        entry, paths, _ = rec
        if k in s.running: raise NoEval('loop reentry')
        s.running.add(k)
        try:
            state = {}
            for v, t in entry.items(): state[v] = s.lazy(t)
            s.step(k, state)
            n = 0
            while True:
                n += 1
                if n > 30000: raise NoEval('iterations')
                sel = [up for dec, up in paths if all(s.truth(c) == q for c, q in dec)]
                if len(sel) != 1: raise NoEval('loop path %d' % len(sel))
                if sel[0] is None: break
                new = {v: s.lazy(t) for v, t in sel[0].items()}
                s.step(k, new)
        finally: s.running.discard(k)
    def lazy(s, t):
        if t is None: return None
        try: return s.tval(t)
        except NoEval as e: return e
    def tval(s, t):
        if width(t) == 1: return mpmath.mpf(-1 if s.truth(t) else 0)
        return s(t)
    def ev(s, t):
        o = t.op
        if o == 'mu':
            k = t.args[0]
            if k not in s.mu: s.iterate(k)
            v = s.mu[k].get((t.args[1], t.args[2]))
            if v is None: raise NoEval('undefined loop value')
            if isinstance(v, NoEval): raise v
            return v
        if o in ('iu', 'du') and isinstance(t.args[1], T) and t.args[1].op == 'mu': return s(t.args[1])
        if o == 'iu' and isinstance(t.args[1], T) and t.args[1].op == 'prime': return mpmath.mpf(nprime(int(s(t.args[1].args[0]))))
        r = EvU.ev(s, t)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'du') and mpmath.isfinite(r):
            ty = t.args[0]
            if ty in MARG:
                with mp.workprec(MARG[ty]): r = +r
        return r
    def truth(s, c):
        if c.op == 'iu' and isinstance(c.args[1], T) and c.args[1].op == 'mu': return s(c) != 0
        return EvU.truth(s, c)
