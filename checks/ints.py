"""C15: built-in integers convert with the right sign and magnitude at the extremes.

1. Construction and assignment from every built-in integer type at its extremes: the value of the number built (digits in the self-contained
   back end, value term in the others).
2. += -= *= /= with every integer type at its extremes.
3. Extraction of signed and unsigned long long (and to_int32/to_int64): in range the truncated value, outside the nearest end of the range.
4. Functions with integer parameters at the ends of the parameter's range: the result, and no undefined integer arithmetic on the path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, report, evalt, re
from fractions import Fraction
from terms import *
from absint import *
from be import BE, BEInterp
from bx import BX, XInterp
from flx import FLX, table_sizes
from multiprocessing import Pool
import mpmath, arith, formula
from evalt import nstr, NoEval
M = mpmath.mpf; mp = mpmath.mp
MODS = {}; D = Alg(); DF = Free()
WID = {'b': (1, 0, 8), 'c': (8, 1, 8), 'sc': (8, 1, 8), 'uc': (8, 0, 8), 's': (16, 1, 16), 'us': (16, 0, 16), 'i': (32, 1, 32), 'u': (32, 0, 32), 'l': (64, 1, 64), 'ul': (64, 0, 64), 'll': (64, 1, 64), 'ull': (64, 0, 64)}
arith.INTW.update({k: v[2] for k, v in WID.items()})
def ends(N):
    w, sg, _ = WID[N]
    if w == 1: return [0, 1]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    v = {lo, lo + 1, hi - 1, hi, 1}
    for k in (31, 32, 63):
        for x in ((1 << k) - 1, 1 << k, -(1 << k), -(1 << k) - 1):
            if lo <= x <= hi: v.add(x)
    for x in (10 ** 8, 10 ** 8 - 1, 10 ** 16, -10 ** 8, -10 ** 16, 10 ** 18):
        if lo <= x <= hi: v.add(x)
    return sorted(v)

class BI(BE):
    """The decimal digits the foreign library writes, read back as an integer."""
    def resolve(s, fn):
        n = fn.norm
        m = re.match(r'((?:un)?signed )?(long long|long|int|unsigned long long|unsigned long|unsigned int) Util::numeric_cast<', n)
        if m and 'basic_string' in n.split('>(')[-1]:
            def h(I_, st, fn, a, x):
                v = st.tag.get('getstr')
                return [(st, mk('iu', 64, mk('toull' if 'unsigned' in n.split('Util')[0] else 'toll', v)) if v is not None else s.D.sym(('numcast', I_.nfresh())))]
            return h
        if n.startswith('EF::e_float(std::initializer_list<unsigned int>'):       # (a decimal literal; the tables of literals are C07's)
            def h(I_, st, fn, a, x):
                p, k, e, ng = a[1:5]
                if not all(z.op == 'i' for z in (k, e, ng)): raise Imprecise('literal')
                oo = I_.obj_of(p); v = [I_.rd(st, mk('p', oo[0], oo[1] + 4 * i), 4, 'i32') for i in range(k.args[0])]
                if not all(q.op == 'i' for q in v): raise Imprecise('literal')
                t = D.num((-1 if ng.args[0] else 1) * sum((q.args[0] & 0xffffffff) * Fraction(10) ** (e.args[0] - 8 * i) for i, q in enumerate(v)))
                s.mkfinite(I_, st, a[0], t); return [(st, None)]
            return h
        return BE.resolve(s, fn)
    def primitive(s, I_, st, op, a, x):
        if op == 'get_str':
            st.tag['getstr'] = s.val(I_, st, a[4], op) if a[2].op == 'i' and a[2].args[0] == 10 and a[3].op == 'i' and (a[3].args[0] == 0 or a[3].args[0] >= 20) else None
        return BE.primitive(s, I_, st, op, a, x)

def setup(cfg):
    m = MODS[cfg]
    if cfg == 'efx': pol = BX(m, DF); pol.kernels = False; J = XInterp(m, DF, pol)
    else: pol = BI(m, D); J = BEInterp(m, D, pol)
    st = pol.setup(J, St())
    J.ub = []; J.max_steps = 3000000
    return m, pol, J, st

def driver(m, name):
    f = [f for f in m.fns.values() if f.norm.startswith('vdrv::%s(' % name)]
    if len(f) != 1: raise ir.Broken('driver function %s' % name)
    return f[0]

def where(w): return '%s:%s' % (w[0].loc.split('/')[-1], w[1].get('l'))
def surely(ev, st):
    """Every decision of the path is known to be taken."""
    for _, _, c, b in st.decisions():
        try:
            if ev.truth(c) != b: return False
        except (NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError): return False
    return True
def path(st): return ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], xx.get('l'), q) for f, xx, _, q in st.decisions())[-300:]

class Digit(Exception): pass
def limbs(pol, J, st, ob, ev=None):
    """The value of a number of the self-contained back end, or None."""
    h = pol.array(J, st, (ob, 0))
    if h is None: return None
    N = st.tag.get(('size', h), 64) // 4
    iv = (lambda t: t.args[0]) if ev is None else ev.iv
    try:
        L = [iv(J.rd(st, mk('p', h, 4 * i), 4, 'i32')) & 0xffffffff for i in range(N)]
        e = iv(st.mem[ob][pol.off['exp']][1]); ng = iv(J.rd(st, ptr(ob, pol.off['neg']), 1, 'i8'))
    except (NoEval, KeyError, ZeroDivisionError, TypeError, AttributeError): return None
    if not all(isinstance(k, int) for k in L + [e, ng]) or abs(e) > 4000: return None
    if any(k >= 10 ** 8 for k in L): raise Digit('a digit group of %d' % max(L))
    if L[0] == 0 and any(L): raise Digit('a leading zero digit group')
    return (-1 if ng else 1) * sum(Fraction(d, 10 ** (8 * i)) for i, d in enumerate(L)) * Fraction(10) ** e

def ctor(cfg, how, N, n):
    m, pol, J, st = setup(cfg); w, sg, z = WID[N]
    st.mem['N'] = {0: (z // 8, I(n, z))}; st.mem['R'] = {}
    if how == 'asg': (st, x) = pol.special(J, st, 'R', L if cfg == 'efx' else FIN)
    st.ev = None; st.trace = None
    R = J.run_fn(driver(m, '%s_%s' % (how, N)), [ptr('R'), ptr('N')], st, mk('site', 'root'))
    lab = '%s %s %s(%d)' % (cfg, 'constructor' if how == 'ctor' else 'assignment', N, n)
    for z, t, w_ in J.ub:
        if not z.decisions(): return ('viol', '%s: %s at %s' % (lab, t, where(w_)), 1)
    if J.ub: return ('undec', lab, 0)
    got = []
    for z, _ in R:
        if cfg == 'efx':
            for q, c, _ in pol.classify(J, z, ptr('R')):
                if not c & FIN: got.append((q, None)); continue
                v = limbs(pol, J, q, 'R')
                if v is None: return ('undec', lab + ': digits not determined', 0)
                got.append((q, v))
        else:
            for q, c, t in pol.classify(J, z, ptr('R')):
                v = D.isnum(t) if t is not None else None
                if t is not None and v is None: return ('undec', lab + ': value not determined (%s)' % show(t, 3)[:80], 0)
                got.append((q, v))
    if not got: return ('undec', lab, 0)
    if all(v != n for _, v in got): return ('viol', '%s builds %s; path [%s]' % (lab, got[0][1] if got[0][1] is not None else 'no finite number', path(got[0][0])), len(got))
    return ('ok', '', len(got))

XV = [M(2) ** 63, M(2) ** 63 - 1, M(2) ** 63 + 1, M(2) ** 63 - M('0.5'), M(2) ** 63 + M('0.5'), M(2) ** 64 - 1, M(2) ** 64, M(2) ** 64 + 1, M(2) ** 62 + 1, M(2) ** 31, M(2) ** 31 - 1, M(2) ** 31 + 1, M(2) ** 32, M(2) ** 32 - 1, M(10) ** 15, M(10) ** 16, M(10) ** 18 + 1,
      M(0), M('0.25'), M('0.75'), M('0.99999999999999999'), M(1), M('1.25'), M('1.5'), M('1.75'), M(2), M(7), M('12.5'), M('12.75'), M('99999999.5'), M(10) ** 8, M(10) ** 8 + M('0.25'), M('123456789.875'), M(10) ** 30, M(10) ** 300]
SIGNED = lambda v, lo, hi: max(lo, min(hi, int(v)))
OUT = {'EF::extract_signed_long_long() const': lambda v: SIGNED(v, -2 ** 63, 2 ** 63 - 1), 'EF::extract_unsigned_long_long() const': lambda v: SIGNED(v, -2 ** 63, 2 ** 64 - 1),
       'ef::to_int64(EF const&)': lambda v: SIGNED(v, -2 ** 63, 2 ** 63 - 1), 'ef::to_int32(EF const&)': lambda v: SIGNED(v, -2 ** 31, 2 ** 31 - 1)}

def out(cfg, sig, k):
    want0 = OUT[sig]; bits_ = 32 if '32' in sig else 64; n = 0
    def differ(v, want): return (int(v) - want) % (1 << bits_) != 0
    if cfg == 'efx':
        und = 0
        v = XV[k >> 1] * (-1 if k & 1 else 1)
        if v == 0 and k & 1: return ('none', '', 0)
        m, pol, J, st = setup(cfg); st.mem['X'] = {}
        F = Fraction(int(v * 2 ** 60), 2 ** 60) if v < 2 ** 70 else Fraction(int(v)); a = abs(F)
        if mpmath.fabs(v) == M('0.99999999999999999'): F = Fraction(99999999999999999, 10 ** 17) * (1 if v > 0 else -1); a = abs(F)
        if a == 0: st, _ = pol.special(J, st, 'X', Z)
        else:
            e = 0
            while a >= 10 ** 8: a /= 10 ** 8; e += 8
            while a < 1: a *= 10 ** 8; e -= 8
            pol.build(J, st, ('X', 0), F < 0, (e, e), tag='X'); h = pol.array(J, st, ('X', 0)); N = st.tag.get(('size', h), 64) // 4
            for i in range(N):
                d = int(a); J.wr(st, mk('p', h, 4 * i), 4, I(d, 32)); a = (a - d) * 10 ** 8
        m.need(sig); st.ev = None; st.trace = None; lab = '%s: %s of %s' % (cfg, sig, nstr(v, 25)); want = want0(F)
        R = J.run_fn(m.need(sig), [ptr('X')], st, mk('site', 'root'))
        for z, t, w_ in J.ub:
            if not z.decisions(): return ('viol', '%s: %s at %s' % (lab, t, where(w_)), 1)
        bad = [(z, r) for z, r in R if r.op == 'i' and differ(r.args[0], want)]
        if bad and len(bad) == len(R): return ('viol', '%s is %d, not %d; path [%s]' % (lab, bad[0][1].args[0], want, path(bad[0][0])), 1)
        ev = [e for z, _ in R for e in z.events() if e[0] in ('bound', 'ts')]
        if ev and len(R) == 1: return ('viol', '%s: %s at %s' % (lab, ev[0][1], where(ev[0][-1])), 1)
        return ('ok' if R and not bad and all(r.op == 'i' for _, r in R) else 'undec', lab, 1)
    m, pol, J, st = setup(cfg)
    st, x = pol.special(J, st, 'X', FIN); st.ev = None; st.trace = None
    R = J.run_fn(m.need(sig), [ptr('X')], st, mk('site', 'root'))
    for i in range(2 * len(XV)):
        v = XV[i >> 1] * (-1 if i & 1 else 1); want = want0(v); ev = arith.EvB({'X': v}, None, None)
        lab = '%s: %s of %s' % (cfg, sig, nstr(v, 25))
        for z, t, w_ in J.ub:
            if surely(ev, z): return ('viol', '%s: %s at %s; path [%s]' % (lab, t, where(w_), path(z)), n)
        bad = []; P = [(z, r) for z, r in R if arith.possible(ev, z)]
        for z, r in P:
            try: q = ev.iv(r); bad.append((z, r, q) if differ(q, want) else None)
            except (NoEval, KeyError, ZeroDivisionError, ValueError, TypeError, OverflowError): bad.append(None); n -= 1
        if bad and all(bad): return ('viol', '%s is %d, not %d (term %s); path [%s]' % (lab, bad[0][2], want, show(bad[0][1], 3)[:100], path(bad[0][0])), n)
        n += bool(P)
    return ('ok' if n > 0 else 'undec', '%s %s' % (cfg, sig), max(n, 0))

KL = {'big': L, 'neg': NL, 'one': P1, 'huge': L, 'full': L}
def op(cfg, o, N, n, cls):
    if cfg == 'efx' and o == '/=' and abs(n) >= 10 ** 8:       # (the iterated inverse: class and sign only)
        k, info, c, u, _ = arith.run1(cfg, 'int', o, KL[cls], (N, n)); return (k, info, c)
    m, pol, J, st = setup(cfg); w, sg, z = WID[N]
    PT = {'big': (M('2.5'), 0, [2, 50000000]), 'neg': (M('-123456.75'), 0, [123456, 75000000]), 'one': (M(1), 0, [1]), 'huge': (M('1e40'), 40, [1]),
          'full': (M('99999999.99999999') + M(10) ** -112, 0, [99999999, 99999999] + [0] * 12 + [1])}
    v, e, dg = PT[cls]
    st.mem['N'] = {0: (z // 8, I(n, z))}
    lab = '%s: %s %s %d (%s)' % (cfg, nstr(v, 8), o, n, N)
    if cfg == 'efx':
        st.mem['X'] = {}; pol.build(J, st, ('X', 0), v < 0, (e, e), tag='X'); h = pol.array(J, st, ('X', 0)); K = st.tag.get(('size', h), 64) // 4
        for i in range(K): J.wr(st, mk('p', h, 4 * i), 4, I(dg[i] if i < len(dg) else 0, 32))
    else: st, x = pol.special(J, st, 'X', KL[cls])
    st.ev = None; st.trace = None
    want = arith.exact(o, v, M(n))
    if not mpmath.isfinite(want): return ('none', '', 0)
    R = J.run_fn(driver(m, '%s_%s' % (arith.ONAME[o], N)), [ptr('X'), ptr('N')], st, mk('site', 'root'))
    ev = arith.evl(cfg, J, x, arith.Num(v), None) if cfg != 'efx' else None
    for z, t, w_ in J.ub:
        if not z.decisions() or ev is not None and surely(ev, z): return ('viol', '%s: %s at %s' % (lab, t, where(w_)), 1)
    res = []
    for z, _ in R:
        if ev is not None and not arith.possible(ev, z): continue
        for q, c, t in pol.classify(J, z, ptr('X')):
            if ev is not None and not arith.possible(ev, q): continue
            if not c & FIN: res.append((q, None)); continue
            if cfg == 'efx': y = limbs(pol, J, q, 'X'); y = None if y is None else M(y.numerator) / M(y.denominator)
            else:
                try: y = ev(t) if t is not None else None
                except (NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError): y = None
            if y is None: return ('undec', lab + ': value not determined' + (show(t, 4)[:100] if cfg != 'efx' and t is not None else ''), 0)
            res.append((q, y))
    if not res: return ('undec', lab, 0)
    bad = [(q, y) for q, y in res if y is None or abs(y - want) > M(10) ** -60 * max(1, abs(want))]
    if len(bad) == len(res): return ('viol', '%s gives %s, not %s; path [%s]' % (lab, nstr(bad[0][1], 25) if bad[0][1] is not None else 'no finite number', nstr(want, 25), path(bad[0][0])), len(res))
    return ('ok', '', len(res))

# ---------------------------------------------------------------- functions with integer parameters
I32 = (-2 ** 31, -2 ** 31 + 1, 2 ** 31 - 1, 2 ** 31 - 2); U32 = (2 ** 32 - 1, 2 ** 32 - 2, 2 ** 31, 2 ** 31 - 1); I64 = (-2 ** 63, -2 ** 63 + 1, 2 ** 63 - 1, 2 ** 31, -2 ** 31, 2 ** 32, -2 ** 32 - 1)
def fns():
    t = []
    X = [(M('0.37'),), (M('1') + M(10) ** -12,), (M('2.5'),)]
    def f(sig, lab, args, orc, pts=[()]): t.append((sig, lab, args, orc, pts))
    for p in I32:
        for g in ('rootn', 'rootn_inverse'): f('ef::%s(EF const&, int)' % g, '%s(x,%d)' % (g, p), ('x', ('i', 32, p)), ('root', -p if g != 'rootn' else p), X)
        f('ef::ldexp(EF const&, int)', 'ldexp(x,%d)' % p, ('x', ('i', 32, p)), ('ldexp', p), X)
        f('ef::factorial2(int)', 'factorial2(%d)' % p, (('i', 32, p),), ('fac2', p))
        f('ef::riemann_zeta(int)', 'riemann_zeta(%d)' % p, (('i', 32, p),), ('zeta', p))
        f('ef::gamma_near_n(int, EF const&)', 'gamma_near_n(%d,x)' % p, (('i', 32, p), 'x'), None, [(M('0.001'),), (M('-0.001'),)])
    for p in I64:
        for sg in ('ef::pow(EF const&, long)', 'EF ef::detail::pown_template<EF>(EF const&, long)', ):
            f(sg, '%s(x,%d)' % ('pown' if 'pown' in sg else 'pow', p), ('x', ('i', 64, p)), ('pow', p), [(M(1) + M(10) ** -18,), (M('1.5'),), (M(-1) - M(10) ** -18,), (M('-0.5'),)])
        f('ef::pow2(long)', 'pow2(%d)' % p, (('i', 64, p),), ('pow2', p))
    for n in U32:
        f('ef::factorial(unsigned int)', 'factorial(%d)' % n, (('i', 32, n),), ('fac', n))
        for k in (0, 1, 2, n - 1, n): f('ef::binomial(unsigned int, unsigned int)', 'binomial(%d,%d)' % (n, k), (('i', 32, n), ('i', 32, k)), ('bin', n, k))
        f('ef::binomial(unsigned int, EF const&)', 'binomial(%d,y)' % n, (('i', 32, n), 'x'), ('biny', n), [(M('0.5'),)])
        f('ef::binomial(EF const&, unsigned int)', 'binomial(x,%d)' % n, ('x', ('i', 32, n)), ('binx', n), [(M('7.25'),)])
        f('ef::pochhammer(EF const&, unsigned int)', 'pochhammer(x,%d)' % n, ('x', ('i', 32, n)), ('poch', n), X)
        f('ef::bernoulli(unsigned int)', 'bernoulli(%d)' % n, (('i', 32, n),), ('bern', n))
    return t

def lgam(x): return mpmath.loggamma(x)
def fwant(o, p):
    """Natural logarithm of the magnitude and sign of the result (the values leave every floating range)."""
    k = o[0]; lg = mpmath.log
    if k == 'root': return lg(p[0]) / o[1], 1
    if k == 'ldexp': return lg(p[0]) + o[1] * lg(2), 1
    if k == 'pow': return lg(abs(p[0])) * o[1], -1 if p[0] < 0 and o[1] & 1 else 1
    if k == 'pow2': return o[1] * lg(2), 1
    if k == 'fac': return lgam(M(o[1]) + 1), 1
    if k == 'fac2' and o[1] > 0: return (lgam(M(o[1]) / 2 + 1) + lg(2) * o[1] / 2 + (lg(2 / mp.pi) / 2 if o[1] & 1 else 0)), 1
    if k == 'fac2':
        if o[1] % 2 == 0: return None
        n = -o[1]; l, _ = fwant(('fac2', n - 2), p); return -l, -1 if ((n - 1) // 2) & 1 else 1
    if k == 'bin': return lgam(M(o[1]) + 1) - lgam(M(o[2]) + 1) - lgam(M(o[1] - o[2]) + 1), 1
    if k == 'biny': return lgam(M(o[1]) + 1) - lgam(p[0] + 1) - lgam(M(o[1]) - p[0] + 1), 1
    if k == 'binx': return None
    if k == 'poch': return lgam(p[0] + o[1]) - lgam(p[0]), 1
    if k == 'zeta' and o[1] > 0: return M(0), 1
    if k == 'zeta' and o[1] % 2 == 0: return None, 0
    if k == 'zeta':
        n = 1 - o[1]; return lg(2) + lgam(M(n)) - n * lg(2 * mp.pi), 1 if n % 4 == 0 else -1        # (-1)^(n/2) 2 (n-1)! / (2 pi)^n
    if k == 'bern' and o[1] & 1: return None, 0
    if k == 'bern': return lg(2) + lgam(M(o[1]) + 1) - o[1] * lg(2 * mp.pi), 1 if o[1] % 4 == 2 else -1
    return None

def fn(cfg, sig, lab, args, orc, pts):
    m = MODS[cfg]; f = m.find(sig)
    if f is None: raise ir.Broken('no definition of %s in the %s configuration' % (sig, cfg))
    J = Interp(m, D, FLX(m, D, sizes=formula.SIZES, inline=(sig,)), max_paths=1500, max_steps=1500000); J.ub = []
    st = St(); av = []; names = []
    if f.args and f.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    for a in args:
        if a == 'x': t = D.sym(a); st.cls[t] = FIN; st.mem['Xx'] = {0: (J.SZ, t)}; av.append(ptr('Xx')); names.append(a)
        else: av.append(I(a[2], a[1]))
    try: R = J.run_fn(f, av, st, mk('site', 'root'))
    except Imprecise as e: R = None; why = str(e)
    n = 0; und = ''
    for p in pts:
        ev = formula.EvR(dict(zip(names, p)), J.recs)
        for z, t, w_ in J.ub:
            if surely(ev, z): return ('viol', '%s: %s at %s: %s at %s; path [%s]' % (cfg, lab, ', '.join(nstr(q, 8) for q in p) or 'any argument', t, where(w_), path(z)), n)
        if R is None: continue
        want = fwant(orc, p) if orc else None
        try:
            P = [z for z, _ in R if all(ev.truth(c) == b for _, _, c, b in z.decisions())]
            if len(P) != 1 or want is None: n += 1; continue
            ev.opq = set(); v = ev(J.ef_rd(P[0], ptr('R')))
            if ev.opq: und = 'opaque'; continue
        except (NoEval, ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError, MemoryError, mpmath.libmp.NoConvergence, evalt.OutOfTable) as e: und = str(e); continue
        l, sg = want
        if mpmath.isinf(v) and l is not None and abs(l) > 10 ** 8 or v == 0 and l is not None and l < -10 ** 8: n += 1; continue        # outside the exponent range
        ok = v == 0 if l is None else mpmath.isfinite(v) and v != 0 and mpmath.sign(v) == sg and abs(mpmath.log(abs(v)) - l) <= M(10) ** -40 * max(1, abs(l))
        if not ok:
            return ('viol', '%s: %s at %s: evaluates to %s, not %s; term %s; path [%s]' % (cfg, lab, ', '.join(nstr(q, 8) for q in p) or 'any argument', nstr(v, 15), 'zero' if l is None else '%sexp(%s)' % ('-' if sg < 0 else '', nstr(l, 15)),
                    show(J.ef_rd(P[0], ptr('R')), 3)[:160], path(P[0])), n)
        n += 1
    if R is None: return ('undec', '%s %s: %s' % (cfg, lab, why), n)
    return ('ok' if n else 'undec', '%s %s: %s' % (cfg, lab, und), n)

def tasks():
    t = []
    for cfg in ('efx', 'gmp', 'mpfr'):
        for N in WID:
            for n in ends(N):
                t.append((ctor, cfg, 'ctor', N, n)); t.append((ctor, cfg, 'asg', N, n))
                for o in arith.OPS:
                    if o == '/=' and n == 0: continue
                    for c in ('big', 'neg', 'one', 'huge', 'full') if N in ('i', 'u', 'll', 'ull') else ('big',): t.append((op, cfg, o, N, n, c))
        for sg in OUT:
            for k in range(2 * len(XV)) if cfg == 'efx' else (0,): t.append((out, cfg, sg, k))
        for f in fns(): t.append((fn, cfg) + f)
    return t

def run(t):
    try: return t[0](*t[1:])
    except Imprecise as e: return ('undec', '%s: %s' % (t[1:5], e), 0)
    except ir.Broken as e: return ('broken', str(e), 0)
    except Digit as e: return ('viol', '%s %s: %s in the result' % (t[1], t[2:], e), 1)

def main():
    rep = report.Report('C15')
    for c in ('efx', 'gmp', 'mpfr'): MODS[c] = arith.MODS[c] = formula.MODS[c] = ir.load_lib(c)
    formula.SIZES.update(table_sizes()); evalt.SIZES.update(formula.SIZES)
    ts = tasks()
    with Pool(8) as P:
        for t, (k, info, n) in zip(ts, P.imap(run, ts, chunksize=2)):
            if k == 'none': continue
            rep.count({'ctor': 'constructions', 'out': 'extractions', 'op': 'operations', 'fn': 'functions'}[t[0].__name__]); rep.count('points', n)
            if k == 'viol': rep.violation('%s:%s' % (t[0].__name__, '-'.join(str(q)[:40] for q in t[2:5] if not isinstance(q, tuple))), info)
            elif k == 'undec': rep.undecided(info)
            elif k == 'broken': raise ir.Broken(info)
            else: rep.count('decided')
    rep.need('constructions', 100); rep.need('operations', 200); rep.need('extractions', 50); rep.need('functions', 50); rep.need('decided', 300)
    return rep.finish('Constructions, operations, extractions and functions of integer parameters interpreted from the current sources at the ends of the integer ranges; undefined integer arithmetic on a feasible path and wrong results are violations')

if __name__ == '__main__':
    report.main(main)
