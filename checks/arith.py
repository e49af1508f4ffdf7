"""C03: arithmetic on special values; C04: operations whose operands are one object.

The number class of every back end is interpreted (the foreign library's operations, and in the self-contained back end the limb loops, are
primitives).  Each operation is analysed for every combination of operand classes; the class, sign and (for the wrapped back ends) the value term
of the result on each path are compared with the exact operation at sample points.  A violation is reported only when no path that the
point can take gives an allowed result."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report, evalt
from terms import *
from absint import *
from be import BE, BEInterp
from bx import BX, XInterp
from fl import FL
from flx import FLX, table_sizes
SIZES = {}
from multiprocessing import Pool
import mpmath
from fractions import Fraction
mp = mpmath.mp; mp.dps = 120
M = mpmath.mpf
PROP = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] in ('C03', 'C04') else 'C03'
MODS = {}; D = Alg(); DF = Free()
OPS = ('+=', '-=', '*=', '/=')
INTS = {'ll': (0, 1, -1, 2, -7, 12345678, 123456789, -100000000, (1 << 63) - 1, -(1 << 63)), 'ull': (0, 1, 99999999, 100000000, (1 << 64) - 1), 'i': (-(1 << 31), -3, 7), 'u': ((1 << 32) - 1,), 'b': (0, 1), 'sc': (-128,), 'us': (65535,)}
INTW = {'ll': 64, 'ull': 64, 'i': 32, 'u': 32, 'b': 8, 'sc': 8, 'us': 16}
ONAME = {'+=': 'iadd', '-=': 'isub', '*=': 'imul', '/=': 'idiv'}


# ---------------------------------------------------------------- operands at a point
class Num:
    """A concrete operand: value, and for the self-contained back end exponent and limbs."""
    def __init__(s, v, neg=False, exp=None, limbs=None, what=''): s.v = -v if neg else v; s.neg = neg; s.exp = exp; s.limbs = limbs; s.what = what

def num(neg, exp, limbs):
    v = M(0)
    for k, d in enumerate(limbs): v += M(d) * M(10) ** (-8 * k)
    return Num(v * M(10) ** exp, neg, exp, limbs, '%s%s*10^%d' % ('-' if neg else '', '.'.join(str(d) for d in limbs[:3]), exp))

def points(cls, K):
    """Representative operands of a class; K: largest decimal exponent."""
    if cls == NAN: return [Num(mpmath.nan, what='NaN')]
    if cls & INF: return [Num(mpmath.inf, cls == NINF, what='inf' if cls == PINF else '-inf')]
    neg = bool(cls & NEG)
    if cls == Z: return [Num(M(0), False, 0, [], '0')]
    if cls & (P1 | N1): return [num(neg, 0, [1])]
    a = K // 10 * 3 // 8 * 8; b = K // 10 * 7 // 8 * 8
    if cls & (S | NS): return [num(neg, *p) for p in ((-8, [50000000]), (-8, [1]), (-8, [99999999, 99999998]), (-16, [12345678, 87654321, 5]), (-a, [3, 7]), (-b, [77777777, 1]))]
    return [num(neg, *p) for p in ((0, [2, 50000000]), (0, [99999999, 99999999]), (8, [1]), (8, [123, 456]), (40, [5, 5]), (a, [3, 7]), (b, [77777777, 1]))]


class EvB(evalt.EvU):
    """Terms over operands X, Y; anything without a meaning is undecided."""
    def __init__(s, pt, x, y):
        evalt.EvU.__init__(s, pt); s.o = {'X': x, 'Y': y}
    def op(s, tag):
        n = s.o.get(tag)
        if n is None or n.exp is None: raise evalt.NoEval('operand')
        return n
    def lim(s, n, k): return n.limbs[k] if k < len(n.limbs) else 0
    def ev(s, t):
        o = t.op
        if o == 'iu' and isinstance(t.args[1], T):
            u = t.args[1]
            if u.op == 'limb': return M(s.lim(s.op(u.args[0]), u.args[1] if len(u.args) > 1 else 0))
            if u.op == 'exp': return M(s.op(u.args[0]).exp)
            if u.op == 'neg': return M(int(s.op(u.args[0]).neg))
            if u.op == 'cmpdata':
                for p, q in zip(*u.args):
                    a, b = s(p), s(q)
                    if a != b: return M(1 if a > b else -1)
                return M(0)
            if u.op in ('ixexp', 'ixlimb', 'sqexp', 'sqlimb'):
                e = int(s(u.args[0])); v = s.mant(u)
                if u.op[:2] == 'ix': e, v = -e, 1 / v
                else:
                    if e % 16: e -= 8; v *= M(10) ** 8
                    e //= 2; v = mpmath.sqrt(v)
                if v < 1: e -= 8; v *= M(10) ** 8
                return M(e) if u.op[2:] == 'exp' else mpmath.floor(v * M(10) ** (8 * u.args[2])) % (10 ** 8)
            if u.op not in ('order', 'toll', 'toull', 'exp2', 'exp10', 'fptosi', 'fptoui', 'sym', 'mant', 'sign'): raise evalt.NoEval(u.op)
            if u.op == 'sign':
                v = s(u.args[0]); return M(-1 if v < 0 else 1)
        if o in ('f:xadd', 'f:xsub', 'f:xmul', 'f:xdiv'):
            a, b = s(t.args[0]), s(t.args[1]); return exact({'add': '+=', 'sub': '-=', 'mul': '*=', 'div': '/='}[o[3:]], a, b)
        try: return evalt.Ev.ev(s, t) if o not in ('iu', 'du') else evalt.EvU.ev(s, t)
        except ZeroDivisionError: raise evalt.NoEval('zero divisor')
    def mant(s, u):
        v = M(0)
        for k, l in enumerate(u.args[1]): v += s(l) * M(10) ** (-8 * k)
        if v == 0: raise evalt.NoEval('zero')
        return v
    def truth(s, c): return evalt.Ev.truth(s, c)


def exact(op, a, b):
    nan, inf = mpmath.nan, mpmath.inf
    if mpmath.isnan(a) or mpmath.isnan(b): return nan
    if op in ('+=', '-='):
        if op == '-=': b = -b
        if mpmath.isinf(a) and mpmath.isinf(b) and a != b: return nan
        return a + b
    if op == '*=':
        if mpmath.isinf(a) and b == 0 or mpmath.isinf(b) and a == 0: return nan
        return a * b
    if b == 0: return nan if a == 0 else inf * mpmath.sign(a)
    if mpmath.isinf(b): return nan if mpmath.isinf(a) else M(0)
    return a / b


def verdict(want, K, c, v, unsigned_zero=False, ovf=True):
    """None if a result of class mask c (and value v, if known) is allowed for the exact result."""
    if mpmath.isnan(want): return None if c & NAN else 'not NaN'
    if mpmath.isinf(want):
        ok = INF if unsigned_zero else PINF if want > 0 else NINF
        return None if c & ok else 'not %s' % cname(ok)
    neg = want < 0; a = abs(want)
    if a == 0: return None if c & Z and (v is None or v == 0) else 'not zero'
    d = int(mpmath.floor(mpmath.log10(a)))
    if d > K + 24: return None if c & (NINF if neg else PINF) else 'not infinite'
    if d > K - 24: return None if c & ((NINF | NL) if neg else (PINF | L)) else 'wrong sign or class'
    if d < -K + 24: return None if c & (Z | (NS if neg else S)) else 'wrong sign or class'
    k = L if a > 1 else P1 if a == 1 else S
    if neg: k = c_neg(k)
    if d > -48 and abs(a - 1) < M(10) ** -40: k |= (NL | N1 | NS) if neg else (L | P1 | S)
    if not c & k: return 'not of class %s' % cname(k)
    if v is not None and mpmath.isfinite(v) and abs(v - want) > M(10) ** -38 * a: return 'value %s' % evalt.nstr(v, 12)
    return None


# ---------------------------------------------------------------- tasks
CL = bits(ALL)
def tasks():
    t = []
    for cfg in ('gmp', 'mpfr', 'efx'):
        if PROP == 'C03':
            for op in OPS:
                for a in CL:
                    for b in CL: t.append((cfg, 'bin', op, a, b))
                    for N, ns in INTS.items():
                        for n in ns: t.append((cfg, 'int', op, a, (N, n)))
            for a in CL:
                for b in CL:
                    if not (a | b) & NAN: t.append((cfg, 'cmp', 'EF::cmp(EF const&) const', a, b))
                for un in ('EF::negate()', 'EF::calculate_inv()', 'EF::calculate_sqrt()', 'EF::operator++()', 'EF::operator--()'): t.append((cfg, 'un', un, a, None))
                t.append((cfg, 'pred', 'pred', a, None))
        else:
            for a in CL:
                for op in OPS: t.append((cfg, 'alias', op, a, None)); t.append((cfg, 'alias', ONAME[op], a, None))
                for f in ('EF::operator=(EF const&)', 'EF::operator=(EF&&)', 'EF::swap(EF&)', 'vdrv::asg_ef(EF&, EF const&)'): t.append((cfg, 'self', f, a, None))
                t.append((cfg, 'self', 'EF::cmp(EF const&) const', a, None))
            V = [NAN, PINF, NINF, Z, P1, N1, S, NL]
            for w in ('ciadd', 'cisub', 'cimul', 'cidiv', 'casg'):
                for a in V:
                    for b in V: t.append((cfg, 'calias', w, a, b))
            for f in ('ef::sincos(EF const&, EF*, EF*)', 'ef::sinhcosh(EF const&, EF*, EF*)', 'GammaUtil::GammaOfPlusXMinusX(EF const&, EF&, EF&)'):
                for a in (NAN, PINF, NINF, FIN):
                    for k in (1, 2): t.append((cfg, 'out', f, a, k))
        if PROP == 'C04' and cfg == 'efx':
            for P in ('cd', 'cl', 'cf'):
                for o in ('add', 'sub', 'mul', 'div'):
                    for a in V: t += [(cfg, 'dalias', '%s_%s' % (P, o), a, b) for b in V]
            for p in (1, 2, 3, 4, 6): t.append((cfg, 'uv', 'EF::mul_loop_uv(unsigned int*, unsigned int const*, int)', p, None))
    return t + (limbtasks() if PROP == 'C03' else [])

# limb patterns: (constants, positions left symbolic)
LP = {'nines': ([99999999] * 16, (0, 15)), 'sparse': ([0] * 16, (0, 15)), 'mixed': ([12345678 * (k + 3) % 10 ** 8 for k in range(16)], (0, 1, 9)), 'one': ([0] * 16, (0,)),
      'same': ([7] * 8 + [123] * 8, (15,)), 'full': ([0] * 16, tuple(range(16)))}
LV = [[1, 1, 1], [99999999, 99999999, 99999999], [50000000, 0, 12345678], [2, 99999999, 0], [1, 0, 99999999]]
def limbtasks():
    t = []
    for op in ('+=', '-='):
        for d in (0, 8, 16, 56, 104, 112, 120, 128, 136):
            for sg in ((d, 0), (0, d), (-d, 0)) if d else ((0, 0),):
                for n1, n2 in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    for pa, pb in (('nines', 'sparse'), ('one', 'nines'), ('mixed', 'mixed'), ('same', 'same')): t.append(('efx', 'limb', op, (pa, sg[0], n1), (pb, sg[1], n2)))
    for n1, n2, e1, e2 in ((0, 0, 0, 0), (0, 1, 80, -400), (1, 1, 8, 8)):
        for pa, pb in (('full', 'full'), ('nines', 'nines'), ('one', 'mixed')): t.append(('efx', 'limb', '*=', (pa, e1, n1), (pb, e2, n2)))
    for op in ('*=', '/='):
        for n in (1, 2, 3, 7, 10, 65536, 99999999):
            for pa in ('full', 'nines', 'one'): t.append(('efx', 'limb', op, (pa, 16, n & 1), n))
    return t

def limbtask(cfg, op, a, b):
    """The digits of a result of the self-contained back end, as terms over the operands' digits."""
    m, pol, J, st = setup(cfg); pol.kernels = False; J.max_steps = 3000000
    N = st.tag.get(('size', pol.array(J, st, ('T', 0))), 64) // 4
    def operand(name, pat, e, neg):
        st.mem[name] = {}; pol.build(J, st, (name, 0), bool(neg), (e, e), tag=name)
        h = pol.array(J, st, (name, 0)); c, sy = LP[pat]
        for k in range(N):
            if k not in sy: J.wr(st, mk('p', h, 4 * k), 4, I(c[k % 16], 32))
            else: J.setrng(st, J.rd(st, mk('p', h, 4 * k), 4, 'i32'), (1 if k == 0 else 0, 10 ** 8 - 1))
    operand('X', *a)
    if isinstance(b, tuple): operand('Y', *b); fn = m.need('EF::operator%s(EF const&)' % op); av = [ptr('X'), ptr('Y')]
    else:
        fn, = [f for f in m.fns.values() if re.match(r'vdrv::%s_ull\(' % ONAME[op], f.norm)] or [None]
        if fn is None: raise ir.Broken('driver wrapper')
        st.mem['N'] = {0: (8, I(b))}; av = [ptr('X'), ptr('N')]
    st.ev = None; st.trace = None
    R = J.run_fn(fn, av, st, mk('site', 'root'))
    def limbs(o, k): c, sy = LP[o[0]]; return [LV[k][sy.index(i) % 3] if i in sy else c[i % 16] for i in range(N)]
    def val(L, e, neg): return (-1 if neg else 1) * sum(Fraction(d, 10 ** (8 * i)) for i, d in enumerate(L)) * Fraction(10) ** e
    n = 0
    for k in range(len(LV)):
        for k2 in range(len(LV)) if isinstance(b, tuple) else (0,):
            la = limbs(a, k); x = val(la, a[1], a[2])
            if isinstance(b, tuple): lb = limbs(b, k2); y = val(lb, b[1], b[2])
            else: lb = []; y = Fraction(b)
            want = {'+=': x + y, '-=': x - y, '*=': x * y, '/=': x / y}[op]
            ev = EvB({}, Num(M(0), bool(a[2]), a[1], la), Num(M(0), bool(isinstance(b, tuple) and b[2]), b[1] if isinstance(b, tuple) else 0, lb))
            got = []
            for z, _ in R:
                if not possible(ev, z): continue
                h = pol.array(J, z, ('X', 0))
                try:
                    L = [ev.iv(J.rd(z, mk('p', h, 4 * i), 4, 'i32')) & 0xffffffff for i in range(N)]
                    e = ev.iv(z.mem['X'][pol.off['exp']][1]); ng = ev.iv(J.rd(z, ptr('X', pol.off['neg']), 1, 'i8'))
                except (evalt.NoEval, KeyError, ZeroDivisionError): return ('undec', 'efx digits of %s %s %s' % (a, op, b), n, 0, len(R))
                emax = max(a[1], b[1]) if isinstance(b, tuple) else a[1]
                unit = Fraction(10) ** (e - 8 * (N - 1))
                if op in ('+=', '-='):
                    # nothing is lost when the lower operand's last digits fall inside the window of the higher one and the result fits
                    low = a if a[1] < b[1] else b; ll = la if low is a else lb; d = abs(a[1] - b[1]) // 8
                    inside = not any(ll[max(N - d, 0):]) and (want / unit).denominator == 1
                    tol = 0 if inside else 2 * max(unit, Fraction(10) ** (emax - 8 * (N - 1)))
                elif isinstance(b, tuple): tol = 2 * N * Fraction(10) ** (a[1] + b[1] - 8 * (N - 2))
                else: tol = unit
                bad = None
                if any(d >= 10 ** 8 for d in L): bad = 'a digit group of %d' % max(L)
                elif L[0] == 0 and any(L): bad = 'a leading zero digit group'
                elif abs(val(L, e, ng) - want) > tol: bad = 'off by %s of the result' % mpmath.nstr(M(1) * (val(L, e, ng) - want).numerator / (val(L, e, ng) - want).denominator / (M(want.numerator) / want.denominator) if want else M(1), 3)
                got.append((bad, z))
            if not got: continue
            n += 1
            if all(q for q, _ in got):
                return ('viol', 'efx: digits of %s%s.%s..*10^%d %s %s: %s; path [%s]' % ('-' if a[2] else '', la[0], la[1], a[1], op, '%s%s.%s..*10^%d' % ('-' if b[2] else '', lb[0], lb[1], b[1]) if lb else b, got[0][0],
                        ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], xx.get('l'), qq) for f, xx, _, qq in got[0][1].decisions())[-300:]), n, 0, len(R))
    return ('ok' if n else 'undec', 'efx digits of %s %s %s: no point decided' % (a, op, b), n, 0, len(R))

def setup(cfg):
    m = MODS[cfg]
    if cfg == 'efx':
        pol = BX(m, DF); J = XInterp(m, DF, pol)
    else:
        pol = BE(m, D); J = BEInterp(m, D, pol)
    st = pol.setup(J, St())
    return m, pol, J, st

def run(task):
    cfg, kind, op, a, b = task
    try: return run1(*task)
    except Imprecise as e: return ('undec', '%s %s %s %s: %s' % (cfg, op, cname(a) if isinstance(a, int) else a, b, e), 0, 0, 0)
    except ir.Broken as e: return ('broken', str(e), 0, 0, 0)

def run1(cfg, kind, op, a, b):
    if kind == 'calias': return calias(cfg, op, a, b)
    if kind == 'out': return outalias(cfg, op, a, b)
    if kind == 'dalias': return dalias(cfg, op, a, b)
    if kind == 'uv': return uv(cfg, op, a)
    if kind == 'limb': return limbtask(cfg, op, a, b)
    m, pol, J, st = setup(cfg)
    K = pol.maxexp() if cfg == 'efx' else int(pol.maxexp2() / 3.3219281)
    st, x = pol.special(J, st, 'X', a)
    X = points(a, K); Y = [None]
    lab = '%s %s of %s' % (cfg, op, cname(a))
    ret = None
    if kind == 'bin':
        st, y = pol.special(J, st, 'Y', b); Y = points(b, K); lab = '%s %s %s %s' % (cfg, cname(a), op, cname(b))
        fn = m.need('EF::operator%s(EF const&)' % op); av = [ptr('X'), ptr('Y')]
    elif kind == 'alias':
        fn = m.need('EF::operator%s(EF const&)' % op) if op in OPS else m.need('vdrv::%s_ef(EF&, EF const&)' % op); av = [ptr('X'), ptr('X')]
        if op not in OPS: op = [k for k, v in ONAME.items() if v == op][0]
    elif kind == 'self':
        fn = m.find(op) if 'swap' in op else m.need(op)
        if fn is None: return ('none', '', 0, 0, 0)
        av = [ptr('X'), ptr('X')]
    elif kind == 'int':
        N, n = b
        fn = [f for f in m.fns.values() if re.match(r'vdrv::%s_%s\(' % (ONAME[op], N), f.norm)]
        if len(fn) != 1: raise ir.Broken('driver wrapper vdrv::%s_%s' % (ONAME[op], N))
        fn = fn[0]; w = INTW[N]
        st.mem['N'] = {0: (w // 8, I(n, w))}; av = [ptr('X'), ptr('N')]; Y = [Num(M(n), what=str(n))]
        lab = '%s %s %s %s (%s)' % (cfg, cname(a), op, n, N)
    elif kind == 'cmp':
        st, y = pol.special(J, st, 'Y', b); Y = points(b, K); lab = '%s compare %s with %s' % (cfg, cname(a), cname(b))
        fn = m.need(op); av = [ptr('X'), ptr('Y')]
    elif kind == 'un':
        fn = m.need(op); av = [ptr('X')]
        if cfg == 'efx' and 'calculate' in op: pol.coarse = True
    elif kind == 'pred':
        P = []
        R = pol.classify(J, st, ptr('X'))
        bad = [cname(c) for _, c, _ in R if not c & a]
        if bad and len(bad) == len(R): return ('viol', '%s: the predicates of a number of class %s say %s' % (cfg, cname(a), bad), 1, 0, len(R))
        n = 0
        for pn, cm in (('isfinite', FIN), ('isnan', NAN), ('isinf', INF), ('iszero', Z), ('isone', P1), ('isneg', NEG)):
            q = []
            for z, v in J.run_fn(m.need('EF::%s() const' % pn), [ptr('X')], st.copy(), mk('site', pn)):
                for w, bl in J.decide(z, v if J.width(v) == 1 else J.icmp(z, 'ne', v, I(0, J.width(v)))): q.append((w, bl))
            wantv = bool(a & cm); pts = X
            for p in pts:
                ev = evl(cfg, J, x, p, None)
                okp = [bl for w, bl in q if possible(ev, w)]
                n += 1
                if okp and wantv not in okp and not (pn == 'isneg' and a & (Z | NAN)): return ('viol', '%s: %s() of %s is %s' % (cfg, pn, p.what, not wantv), n, 0, len(q))
        return ('ok', '', n, 0, len(R))
    st.ev = None; st.trace = None
    R = J.run_fn(fn, av, st, mk('site', 'root'))
    P = []
    iscmp = 'cmp' in fn.norm
    for z, r in R:
        if iscmp: P.append((z, None, r)); continue
        for w, c, t in pol.classify(J, z, ptr('X')): P.append((w, c, t))
    n = und = vals = 0
    for p in X:
        for q in Y:
            ev = evl(cfg, J, x, p, q, y if kind in ('bin', 'cmp') else None)
            if kind in ('bin', 'int'): want = exact(op, p.v, q.v)
            elif kind == 'alias': want = exact(op, p.v, p.v)
            elif kind == 'self': want = p.v
            elif kind == 'cmp': want = M(0) if p.v == q.v else mpmath.sign(p.v - q.v) if mpmath.isfinite(p.v - q.v) else M(1 if p.v > q.v else -1)
            else: want = unary(op, p.v)
            uz = False
            if op == '/=' and (q or p).v == 0: uz = True
            if 'inv' in op and p.v == 0: uz = True
            Q = [(w, c, t) for w, c, t in P if possible(ev, w)]
            if not Q: und += 1; continue
            best = []
            for w, c, t in Q:
                evs = [e for e in w.events() if e[0] in ('ts', 'div0', 'sqrtneg', 'bound')]
                if evs: best.append(evtext(evs[-1])); continue
                if kind == 'cmp':
                    try: k = ev.iv(t); best.append(None if (k > 0) - (k < 0) == int(want) else 'comparison gives %d' % k)
                    except Exception: best.append(None)
                    continue
                if iscmp:
                    try: k = ev.iv(t); best.append(None if mpmath.isnan(p.v) or k == 0 else 'cmp(x, x) is %d' % k)
                    except Exception: best.append(None)
                    continue
                v = None
                if t is not None and cfg != 'efx' and c & FIN:
                    try: v = ev(t)
                    except (evalt.NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError): v = None
                best.append(verdict(want, K, c, v, uz))
                if best[-1] is None and cfg == 'efx' and c & FIN and not c == Z and mpmath.isfinite(want) and want: best[-1] = expo(pol, J, ev, w, want, op)
            n += 1
            if all(best):
                w, c, t = Q[0]
                return ('viol', '%s: %s: result %s %s, expected %s (%s); path [%s]' % (lab, ', '.join(o.what for o in (p, q) if o), cname(c) if c else '', show(t, 4)[:120] if t is not None else '', evalt.nstr(want, 10),
                        best[0], ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], xx.get('l'), qq) for f, xx, _, qq in w.decisions())[-300:]), n, und, len(P))
    return ('ok' if n else 'undec', lab + ': no point decided', n, und, len(P))

CV = {NAN: mpmath.nan, PINF: mpmath.inf, NINF: -mpmath.inf, Z: M(0), P1: M(1), N1: M(-1), S: M('0.3'), NL: M('-2.5')}

class EvF(evalt.EvR):
    """IEEE-like evaluation of terms of the free domain."""
    def ev(s, t):
        o = t.op
        if o in ('add', 'sub', 'mul', 'div') and len(t.args) == 2 and isinstance(t.args[0], T):
            return exact({'add': '+=', 'sub': '-=', 'mul': '*=', 'div': '/='}[o], s(t.args[0]), s(t.args[1]))
        if o in ('inv', 'f:inv', 'inv0') and isinstance(t.args[0], T): return exact('/=', M(1), s(t.args[0]))
        return evalt.EvR.ev(s, t)

def same(a, b):
    if mpmath.isnan(a) or mpmath.isnan(b): return bool(mpmath.isnan(a) and mpmath.isnan(b))
    if not mpmath.isfinite(a) or not mpmath.isfinite(b): return a == b
    return abs(a - b) <= M(10) ** -40 * (1 + abs(a))

def select(ev, P):
    """The path a point takes; None when that is not determined."""
    q = [i for i, (dec, _) in enumerate(P) if all(ev.truth(c) == b for c, b in dec)]
    return P[q[0]][1] if len(q) == 1 else None

def calias(cfg, op, a, b):
    m = MODS[cfg]; F = DF
    fn = m.need('vdrv::%s(ef::complex<EF>&, ef::complex<EF> const&)' % op)
    R = []
    for al in (False, True):
        J = Interp(m, F, FL(m, F)); st = St(); x, y = F.sym('a'), F.sym('b')
        if a == Z: x = F.num(0)
        elif a in (P1, N1): x = F.num(1 if a == P1 else -1)
        else: J.setcls(st, x, a)
        if b == Z: y = F.num(0)
        elif b in (P1, N1): y = F.num(1 if b == P1 else -1)
        else: J.setcls(st, y, b)
        for o in 'XY': st.mem[o] = {0: (J.SZ, x), J.SZ: (J.SZ, y)}
        r = J.run_fn(fn, [ptr('X'), ptr('X' if al else 'Y')], st, mk('site', 'root'))
        R.append([([(c, q) for _, _, c, q in z.decisions()], [(J.ef_rd(z, ptr('X', k)), J.getcls(z, J.ef_rd(z, ptr('X', k)))) for k in (0, J.SZ)]) for z, _ in r])
    ev = EvF({'a': CV[a], 'b': CV[b]}, {})
    try: p, q = select(ev, R[0]), select(ev, R[1])
    except (evalt.NoEval, ValueError, TypeError): return ('undec', '%s complex %s %s %s' % (cfg, op, cname(a), cname(b)), 0, 1, 2)
    if p is None or q is None: return ('undec', '%s complex %s %s %s: path' % (cfg, op, cname(a), cname(b)), 0, 1, 2)
    for (u, cu), (v, cv), part in zip(p, q, ('real', 'imaginary')):
        bad = not cu & cv
        if not bad:
            try: uv_, vv = ev(u), ev(v); bad = not same(uv_, vv)
            except (evalt.NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError): pass
        else: uv_ = vv = None
        if bad: return ('viol', '%s: complex %s with itself at (%s, %s): the %s part is %s %s, with a copy as operand it is %s %s' % (cfg, op, NAMES[bits(a)[0].bit_length() - 1], NAMES[bits(b)[0].bit_length() - 1], part,
                show(v, 3)[:80], cname(cv), show(u, 3)[:80], cname(cu)), 1, 0, 2)
    return ('ok', '', 2, 0, 2)

FT = {'cd': ('double', 8, 8), 'cl': ('x86_fp80', 16, 10), 'cf': ('float', 4, 4)}
def dalias(cfg, op, a, b):
    m = MODS[cfg]; ty, step, z_ = FT[op[:2]]; R = []
    for al in (False, True):
        J = Interp(m, DF, FL(m, DF)); st = St(); st.mem['O'] = {}
        x, y = [mk('du', ty, mk('sym', n)) for n in 'ab']
        fn = [f for f in m.fns.values() if f.norm.startswith('vdrv::%s%s(' % (op, 'self' if al else ''))]
        if len(fn) != 1: raise ir.Broken('driver function %s' % op)
        r = J.run_fn(fn[0], [x, y] + ([] if al else [x, y]) + [ptr('O')], st, mk('site', 'root'))
        R.append([([(c, q) for _, _, c, q in z.decisions()], [J.rd(z, ptr('O', o), z_, ty) for o in (0, step)]) for z, _ in r])
    ev = EvD({'a': CV[a], 'b': CV[b]})
    try: p, q = select(ev, R[0]), select(ev, R[1])
    except (evalt.NoEval, ValueError, TypeError): p = q = None
    if p is None or q is None: return ('undec', '%s %s %s: path' % (op, cname(a), cname(b)), 0, 1, 2)
    n = 0
    for u, v, part in zip(p, q, ('real', 'imaginary')):
        try: c, d = ev(u), ev(v)
        except (evalt.NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError): continue
        n += 1
        if (abs(c - d) > M(10) ** -5 * (1 + abs(c)) if mpmath.isfinite(c) and mpmath.isfinite(d) else not same(c, d)):
            return ('viol', '%s: %s= with itself at (%s, %s): the %s part is %s, with a copy as operand %s' % (cfg, op, NAMES[bits(a)[0].bit_length() - 1], NAMES[bits(b)[0].bit_length() - 1], part, evalt.nstr(d, 8), evalt.nstr(c, 8)), 1, 0, 2)
    return ('ok' if n else 'undec', op, n, 0, 2)

class EvD(evalt.EvU):
    """IEEE evaluation of C floating-point terms."""
    def ev(s, t):
        if t.op in ('fadd', 'fsub', 'fmul', 'fdiv'): return exact({'fadd': '+=', 'fsub': '-=', 'fmul': '*=', 'fdiv': '/='}[t.op], s(t.args[1]), s(t.args[2]))
        return evalt.Ev.ev(s, t)
    def truth(s, c): return evalt.Ev.truth(s, c)

OUTP = [M(v) for v in ('1e-30', '0.0123', '0.37', '0.79', '1', '1.6', '2.9', '4.6', '7.7', '33.3')]
def outalias(cfg, sig, a, k):
    m = MODS[cfg]; F = DF
    fn = m.find(sig)
    if fn is None: raise ir.Broken('no definition of %s' % sig)
    R = []; JJ = None
    recs = {}
    for al in (False, True):
        J = Interp(m, F, FLX(m, F, sizes=SIZES, inline=(sig,)), max_paths=1500, max_steps=1500000)
        st = St(); x = F.sym('x'); st.cls[x] = a; st.mem['X'] = {0: (J.SZ, x)}; st.mem['O1'] = {0: (J.SZ, F.sym('old1'))}; st.mem['O2'] = {0: (J.SZ, F.sym('old2'))}
        out = ['O1', 'O2']
        if al: out[k - 1] = 'X'
        r = J.run_fn(fn, [ptr('X'), ptr(out[0]), ptr(out[1])], st, mk('site', 'root')); recs.update(J.recs)
        R.append([([(c, q) for _, _, c, q in z.decisions()], [J.ef_rd(z, ptr(o)) for o in out] + [z]) for z, _ in r]); JJ = J
    n = und = 0
    for p in ([CV[a]] if a != FIN else [s_ * v for v in OUTP for s_ in (1, -1)] + [M(0)]):
        ev = EvF({'x': p}, recs)
        try: u, v = select(ev, R[0]), select(ev, R[1])
        except (evalt.NoEval, ValueError, TypeError, ZeroDivisionError, OverflowError): und += 1; continue
        if u is None or v is None: und += 1; continue
        for i in (0, 1):
            try: c, d = ev(u[i]), ev(v[i])
            except (evalt.NoEval, ValueError, TypeError, ZeroDivisionError, OverflowError): und += 1; continue
            n += 1
            if not same(c, d):
                return ('viol', '%s: %s at %s with output %d written over the argument: result %d is %s (%s), otherwise %s (%s)' % (cfg, sig, evalt.nstr(p, 8), k, i + 1, evalt.nstr(d, 8), show(v[i], 4)[:120], evalt.nstr(c, 8), show(u[i], 4)[:120]), n, und, len(R[0]))
    return ('ok' if n else 'undec', '%s %s: nothing decided' % (cfg, sig), n, und, len(R[0]))

def uv(cfg, sig, p):
    """Limb product of a number with itself: the terms of the in-place loop for p limbs."""
    m = MODS[cfg]; fn = m.need(sig); V = []
    for al in (False, True):
        J = Interp(m, DF, FL(m, DF), max_steps=400000); st = St()
        for o in 'UV': st.mem[o] = {4 * k: (4, mk('iu', 32, mk('sym', 'd%d' % k))) for k in range(p)}
        r = J.run_fn(fn, [ptr('U'), ptr('U' if al else 'V'), I(p, 32)], st, mk('site', 'root'))
        if len(r) != 1: raise Imprecise('limb loop with %d paths' % len(r))
        V.append([J.rd(r[0][0], ptr('U', 4 * k), 4, 'i32') for k in range(p)] + [r[0][1]])
    for pt in ([99999999] * p, [12345678 * (k + 3) % 10 ** 8 for k in range(p)], [99999999 if k % 2 else 0 for k in range(p)], [5 * 10 ** 7 + k for k in range(p)]):
        ev = evalt.EvU({'d%d' % k: M(d) for k, d in enumerate(pt)})
        a, b = [[ev.iv(t) & 0xffffffff for t in W] for W in V]
        if a != b: return ('viol', '%s: %s with both operands one array of %d limbs %s gives %s, with a copy %s' % (cfg, sig, p, pt, b, a), 1, 0, 1)
    return ('ok', '', 4, 0, 2)

def evtext(e): return '%s at %s' % (e[1] if e[0] in ('ts', 'bound') else {'div0': 'division by zero in the foreign library', 'sqrtneg': 'square root of a negative number in the foreign library'}[e[0]], where(e[-1]))
def where(w):
    try: return '%s:%s' % (w[0].loc.split('/')[-1], w[1].get('l'))
    except Exception: return '?'

def expo(pol, J, ev, st, want, op):
    """The exponent field, where the path determines it."""
    e = st.mem.get('X', {}).get(pol.off['exp'])
    if e is None: return None
    try: k = ev.iv(e[1])
    except Exception: return None
    d = int(mpmath.floor(mpmath.log10(abs(want)))) // 8 * 8
    if op in ('EF::negate()', '*=', '/='): return None if k == d or k == d + 8 and abs(want) > M(10) ** (d + 8) * (1 - M(10) ** -30) else 'exponent %d instead of %d' % (k, d)
    return None

def unary(op, v):
    if 'negate' in op: return -v
    if 'inv' in op: return mpmath.nan if mpmath.isnan(v) else exact('/=', M(1), v)
    if 'sqrt' in op: return mpmath.nan if mpmath.isnan(v) or v < 0 else mpmath.sqrt(v)
    if '++' in op: return v + 1
    if '--' in op: return v - 1

def evl(cfg, J, x, p, q, y=None):
    pt = {}
    if cfg != 'efx':
        for n, o in (('X', p), ('Y', q)):
            if o is not None: pt[n] = o.v
    return EvB(pt, p, q)

def possible(ev, st):
    for _, _, c, b in st.decisions():
        try:
            if ev.truth(c) != b: return False
        except (evalt.NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError): pass
    return True

def main():
    rep = report.Report(PROP)
    for c in ('efx', 'gmp', 'mpfr'): MODS[c] = ir.load_lib(c)
    if PROP == 'C04': SIZES.update(table_sizes()); evalt.SIZES.update(SIZES)
    ts = tasks()
    with Pool(8) as P:
        for t, (k, info, n, u, paths) in zip(ts, P.imap(run, ts, chunksize=4)):
            if k == 'none': continue
            rep.count('operations_by_class'); rep.count('paths', paths); rep.count('points', n); rep.count('points_without_path', u)
            if k == 'viol': rep.violation('%s:%s:%s' % (t[0], t[1], t[2]), info)
            elif k == 'undec': rep.undecided(info)
            elif k == 'broken': raise ir.Broken(info)
            else: rep.count('decided')
    rep.need('operations_by_class', 200); rep.need('decided', 150)
    return rep.finish('Each arithmetic operation of the number class is interpreted from the current sources for every combination of operand classes; on every path the class, sign and value term of the result must agree with the exact operation')

if __name__ == '__main__':
    report.main(main)
