"""C24: reductions and closed forms of the real functions are mathematical identities.

Every function is interpreted for symbolic arguments; on each path the returned term, with callees and series given
their mathematical meaning, must be the function itself.  Identity is decided by evaluating the extracted TERM at sample
points on the path (no library code is run); paths whose result contains an iteration value are counted as undecided."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report, evalt
from terms import *
from absint import *
from flx import FLX, table_sizes
SIZES = {}
from multiprocessing import Pool
import mpmath
from evalt import nstr, EvR, NoEval, FUN
mp = mpmath.mp
mp.dps = 150
REL = 95
D = Alg()
M = mpmath.mpf
MODS = {}
PI = mp.pi

POSX = [M(10) ** -30, M(10) ** -12, M('0.0001234'), M('0.013'), M('0.0987'), M('0.24'), M('0.37'), M('0.49'), M('0.5'), M('0.51'), M('0.66'), M('0.77'), M('0.86'), M('0.94'), M('0.99'), M('0.99999'), M(1) - M(10) ** -20, M(1), M(1) + M(10) ** -20, M(1) + M(10) ** -9,
        M('1.01'), M('1.1'), M('1.4'), M('1.7'), M(2), M('2.1'), M('2.9'), M('3.3'), M('4.6'), M(5), M('5.8'), M(7), M('10.3'), M('33.7'), M('99.5'), M('100.5'), M('150.25'), M(1234) + M(1) / 7]
TRIG = POSX + [k * mp.pi / 2 * (1 + d) for k in range(1, 9) for d in (0, M(10) ** -9, -M(10) ** -9, M(10) ** -20, -M('0.01'))] + [M(10) ** 9 + M(1) / 3]
UNITX = [x for x in POSX if x < 1] + [M(1)]
def sym(l): return [-x for x in l] + [M(0)] + l
UN = {'cbrt': POSX, 'exp': sym([x for x in POSX if x < 200]), 'log': POSX, 'log10': POSX, 'log1p': [x for x in sym(POSX) if x > -1], 'log1p1m2': [x for x in sym(UNITX) if abs(x) < M('0.9')], 'sin': sym(TRIG), 'cos': sym(TRIG), 'tan': sym(TRIG), 'csc': [x for x in sym(TRIG) if x], 'sec': sym(TRIG),
      'cot': [x for x in sym(TRIG) if x], 'asin': sym(UNITX), 'acos': sym(UNITX), 'atan': sym(POSX), 'sinh': sym([x for x in POSX if x < 200]), 'cosh': sym([x for x in POSX if x < 200]), 'tanh': sym([x for x in POSX if x < 50]), 'asinh': sym(POSX), 'acosh': [x for x in POSX if x >= 1],
      'atanh': [x for x in sym(UNITX) if abs(x) < 1], 'floor': sym(POSX), 'ceil': sym(POSX), 'fabs': sym(POSX), 'abs': sym(POSX), 'inv': [x for x in sym(POSX) if x], 'sqrt': POSX, 'integer_part': sym(POSX), 'decimal_part': sym(POSX),
      'gamma': [x for x in sym(POSX[2:]) if x != mpmath.floor(x) or x > 0]}
SMALLN = list(range(0, 13)) + [15, 20, 31, 32, 33, 63, 64, 65, 100, 128]

def tasks():
    t = []
    def add(cfg, sig, lab, args, res, orc, pts): t.append((cfg, sig, lab, args, res, orc, pts))
    for cfg in ('efx', 'gmp', 'mpfr'):
        for n in UN: add(cfg, 'ef::%s(EF const&)' % n, n, ('x',), 'R', n, [(x,) for x in UN[n]])
        for n, o in (('sincos', ('sin', 'cos')), ('sinhcosh', ('sinh', 'cosh'))):
            for a, tag in ((('x', 'o0', 'o1'), ''), (('x', 'o0', 'null'), ' alone'), (('x', 'null', 'o1'), ' alone')):
                for k in (0, 1):
                    if a[1 + k] != 'null': add(cfg, 'ef::%s(EF const&, EF*, EF*)' % n, '%s:%s%s' % (n, o[k], tag), a, 'O%d' % k, o[k], [(x,) for x in UN[o[k]]])
        XY = [(y, x) for y in sym([M('0.37'), M(1), M('7.5'), M(10) ** -12]) for x in sym([M('0.37'), M(1), M('2.5'), M('1234.5')]) if x or y]
        add(cfg, 'ef::atan2(EF const&, EF const&)', 'atan2', ('x', 'y'), 'R', 'atan2', XY)
        IN = [mpmath.inf, -mpmath.inf]; NF = IN + [M('2.5'), M('-2.5')]
        add(cfg, 'ef::atan2(EF const&, EF const&)', 'atan2 of infinities', ('X', 'Y'), 'R', 'atan2', [(y, x) for y in NF for x in NF if y in IN or x in IN])
        for n in ('atan', 'tanh', 'asinh', 'sinh', 'cosh', 'exp', 'fabs', 'cbrt'): add(cfg, 'ef::%s(EF const&)' % n, n + ' of infinities', ('X',), 'R', n, [(x,) for x in IN])
        PW = [(x, a) for x in (M('0.37'), M(1), M('2.5'), M('1234.5')) for a in sym([M('0.5'), M(1), M(2), M('2.75'), M(7), M('15.5')])] + [(-x, M(a)) for x in (M('0.37'), M(1), M('2.5')) for a in (-3, -2, -1, 1, 2, 3, 4, 7)] + [(M(0), M(2)), (M(0), M('0.5'))]
        add(cfg, 'ef::pow(EF const&, EF const&)', 'pow', ('x', 'y'), 'R', 'pow', PW)
        add(cfg, 'ef::loga(EF const&, EF const&)', 'loga', ('x', 'y'), 'R', 'loga', [(a, x) for a in (M('0.37'), M('2.5'), M(2), M(10)) for x in POSX])
        add(cfg, 'ef::fmod(EF const&, EF const&)', 'fmod', ('x', 'y'), 'R', 'fmod', [(a, b) for a in sym([M('0.37'), M('2.5'), M(7), M('1234.5')]) for b in (M('0.3'), M(2), M('-1.7'), M(-2))])
        for p in (-4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7):
            for f in ('rootn', 'rootn_inverse'): add(cfg, 'ef::%s(EF const&, int)' % f, '%s(x,%d)' % (f, p), ('x', ('i', 32, p)), 'R', '%s:%d' % (f, p), [(x,) for x in POSX])
        for p in list(range(-9, 14)) + [16, 17, 31, 64, 100]:
            for sg in ('ef::pow(EF const&, long)', 'EF ef::detail::pown_template<EF>(EF const&, long)'):
                add(cfg, sg, '%s(x,%d)' % ('pown' if 'pown' in sg else 'pow', p), ('x', ('i', 64, p)), 'R', 'powk:%d' % p, [(x,) for x in sym(POSX[8:]) if x])
        for p in list(range(-70, 140, 7)) + list(range(-8, 9)) + [127, 128, 129, -127, -128, -129, 63, 64, 65, 1000, -1000]: add(cfg, 'ef::pow2(long)', 'pow2(%d)' % p, (('i', 64, p),), 'R', 'pow2k:%d' % p, [()])
        for p in (-5, -1, 0, 1, 3, 40): add(cfg, 'ef::ldexp(EF const&, int)', 'ldexp(x,%d)' % p, ('x', ('i', 32, p)), 'R', 'ldexp:%d' % p, [(x,) for x in sym(POSX[::3])])
        for n in (2, 3, 5): add(cfg, 'ef::pochhammer(EF const&, unsigned int)', 'pochhammer(x,%d)' % n, ('x', ('i', 32, n)), 'R', 'poch:%d' % n, [(x,) for x in sym(POSX[3::2])])
        for n in (0, 1): add(cfg, 'ef::pochhammer(EF const&, unsigned int)', 'pochhammer(x,%d)' % n, ('x', ('i', 32, n)), 'R', 'poch:%d' % n, [(x,) for x in sym(POSX[3::2])])
        add(cfg, 'ef::pochhammer(EF const&, EF const&)', 'pochhammer(x,a)', ('x', 'y'), 'R', 'pocha', [(x, a) for x in (M('0.37'), M('2.5'), M('5.25')) for a in (M('0.5'), M(2), M('3.75'), M(0))])
        for k in (0, 1, 2, 3, 5): add(cfg, 'ef::binomial(EF const&, unsigned int)', 'binomial(x,%d)' % k, ('x', ('i', 32, k)), 'R', 'binx:%d' % k, [(x,) for x in (M('7.25'), M('12.5'), M('0.75') + k)])
        for n in (0, 1, 2, 5): add(cfg, 'ef::binomial(unsigned int, EF const&)', 'binomial(%d,y)' % n, (('i', 32, n), 'x'), 'R', 'biny:%d' % n, [(x,) for x in (M('0.25'), M('0.5'), M('0.75') * (n + 1) / 2)])
        add(cfg, 'ef::binomial(EF const&, EF const&)', 'binomial(x,y)', ('x', 'y'), 'R', 'bin', [(M('7.25'), M('2.5')), (M('3.5'), M('1.25'))])
        for h, sg in (('0f0', 'x'), ('0f1', 'xy'), ('1f0', 'xy'), ('1f1', 'xyz'), ('2f0', 'xyz'), ('2f1', 'xyzw')):
            Z = [M('0.25'), M('-0.21'), M(10) ** -7, -M(10) ** -30] if h != '2f0' else [M('0.0011'), -M('0.002'), M(10) ** -7, -M(10) ** -30]
            PP = [(M('0.7'), M('1.3'), M('2.45')), (M('1.5'), M('0.5'), M('0.75')), (M(3), M(2), M(5)), (M('-0.3'), M('0.6'), M('1.9')), (M(-2), M('0.4'), M('1.5'))]
            if h == '0f1': PP = PP[:4]
            add(cfg, 'ef::hypergeometric_%s(%s)' % (h, ', '.join(['EF const&'] * len(sg))), 'hypergeometric_' + h, tuple(sg), 'R', 'hyp' + h, [p[:len(sg) - 1] + (z,) for p in PP for z in Z])
        for n in (-7, -4, -3, -2, -1, 0, 1, 2, 5): add(cfg, 'ef::gamma_near_n(int, EF const&)', 'gamma_near_n(%d,x)' % n, (('i', 32, n), 'x'), 'R', 'gnn:%d' % n, [(x,) for x in sym([M(10) ** -30, M(10) ** -7, M('0.0013'), M('0.02')]) if x])
        for n in (0, 1, 2, 7, 33, 170, 999, 1000, 1001, 1002, 1500, 3333): add(cfg, 'ef::factorial(unsigned int)', 'factorial(%d)' % n, (('i', 32, n),), 'R', 'fac:%d' % n, [()])
        for n in (-9, -7, -5, -3, -1, 0, 1, 2, 7, 8, 300, 999, 1000, 1001, 1002, 1003, 2500, 2501): add(cfg, 'ef::factorial2(int)', 'factorial2(%d)' % n, (('i', 32, n),), 'R', 'fac2:%d' % n, [()])
        for n in list(range(0, 9)) + [30, 31, 58, 60, 1998, 2000, 2001, 2002, 2004, 2006, 3000, 3002]: add(cfg, 'ef::bernoulli(unsigned int)', 'bernoulli(%d)' % n, (('i', 32, n),), 'R', 'bern:%d' % n, [()])
        for n, k in ((0, 0), (5, 0), (5, 2), (5, 5), (160, 80), (161, 3), (161, 160), (162, 81), (400, 7), (1001, 1001), (1500, 200)): add(cfg, 'ef::binomial(unsigned int, unsigned int)', 'binomial(%d,%d)' % (n, k), (('i', 32, n), ('i', 32, k)), 'R', 'bin2:%d' % (n * 10000 + k), [()])
        for n in list(range(-12, 0)) + [0, 2, 3, 4, 5, 6, 7, 8, 10, 50, 100, 101, 364, 366, 400, 2000, 2002, -100, -101, -2001, -2003]: add(cfg, 'ef::riemann_zeta(int)', 'riemann_zeta(%d)' % n, (('i', 32, n),), 'R', 'zet:%d' % n, [()])
        add(cfg, 'ef::riemann_zeta(EF const&)', 'riemann_zeta', ('x',), 'R', 'riemann_zeta', [(x,) for x in [M('0.013'), M('0.5'), M('0.77'), M('0.999'), M('1.01'), M('1.5'), M(2), M(3), M('3.5'), M(5), M('12.75'), M('31.5'), M('45.25'), M(77), M('150.5'), M(0), M(-1), M(-2), M(-3), M('-0.25'), M('-1.5'), M('-7.75'), M('-12.2')]])
        for k, nm in ((1, 'plus'), (2, 'minus')): add(cfg, 'GammaUtil::GammaOfPlusXMinusX(EF const&, EF&, EF&)', 'gamma_of_plus_x_minus_x:' + nm, ('x', 'o0', 'o1'), 'O%d' % (k - 1), 'gpm:%d' % k, [(x,) for x in sym([M('0.37'), M('2.5'), M('7.125')]) if x])
    return t

def asum(p):
    """The (asymptotic) 2F0 series."""
    a, b, z = p; t = M(1); r = M(1); k = 0
    while abs(t) > M(10) ** -(mp.dps - 5) and k < 3000:
        n = t * (a + k) * (b + k) / (k + 1) * z; k += 1
        if abs(n) > abs(t) and k > 50 or n == 0: break
        t = n; r += t
    return r

def oracle(o, p):
    n, _, k = o.partition(':'); k = int(k) if k else None
    if n == 'rootn' : return mpmath.root(p[0], k)
    if n == 'rootn_inverse': return 1 / mpmath.root(p[0], k)
    if n == 'powk': return p[0] ** k
    if n == 'pow2k': return M(2) ** k
    if n == 'ldexp': return p[0] * M(2) ** k
    if n == 'poch': return mpmath.rf(p[0], k)
    if n == 'pocha': return mpmath.rf(p[0], p[1])
    if n == 'binx': return mpmath.binomial(p[0], k)
    if n == 'biny': return mpmath.binomial(k, p[0])
    if n == 'bin': return mpmath.binomial(p[0], p[1])
    if n == 'fmod': return p[0] - p[1] * (mpmath.floor(p[0] / p[1]) if p[0] / p[1] >= 0 else mpmath.ceil(p[0] / p[1]))
    if n == 'hyp0f0': return mpmath.exp(p[0])
    if n == 'hyp1f0': return (1 - p[1]) ** -p[0]
    if n == 'hyp2f0': return mpmath.nsum(lambda k: mpmath.rf(p[0], k) * mpmath.rf(p[1], k) / mpmath.factorial(k) * p[2] ** k, [0, 400]) if False else asum(p)
    if n.startswith('hyp'): return FUN['hypergeometric_' + n[3:]](*p)
    if n == 'gnn': return mpmath.gamma(k + p[0])
    if n == 'fac': return mpmath.factorial(k)
    if n == 'fac2': return mpmath.fac2(k)
    if n == 'bern': return mpmath.bernoulli(k)
    if n == 'bin2': return mpmath.binomial(k // 10000, k % 10000)
    if n == 'zet': return mpmath.zeta(k)
    if mpmath.isinf(p[0]) or len(p) > 1 and mpmath.isinf(p[1]):
        import math
        if n == 'atan2':
            v = math.atan2(*[float(x) for x in p]); return M(round(v / math.pi * 4)) / 4 * mp.pi
        s_ = mpmath.sign(p[0])
        return {'atan': s_ * mp.pi / 2, 'tanh': s_, 'asinh': p[0], 'sinh': p[0], 'cosh': mpmath.inf, 'exp': mpmath.inf if s_ > 0 else M(0), 'fabs': mpmath.inf, 'cbrt': p[0]}[n]
    if n == 'gpm': return mpmath.gamma(p[0] if k == 1 else -p[0])
    return FUN[n](*p)

PROBE = os.environ.get('PROBE')
def run(task):
    cfg, sig, lab, args, res, orc, pts = task
    m = MODS[cfg]
    fn = m.find(sig)
    if fn is None: return ('broken', 'no definition of %s in the %s configuration' % (sig, cfg), 0, 0, 0)
    J = Interp(m, D, FLX(m, D, sizes=SIZES, inline=(sig,)), max_paths=1500, max_steps=1500000)
    st = St(); av = []; names = []
    if fn.args and fn.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    for k, a in enumerate(args):
        if a in ('x', 'y', 'z', 'w', 'X', 'Y'):
            t = D.sym(a); st.cls[t] = FIN if a.islower() else FIN | INF; st.mem['X' + a] = {0: (J.SZ, t)}; av.append(ptr('X' + a)); names.append(a)
        elif a == 'null': av.append(NULL)
        elif a[0] == 'o': st.mem['O' + a[1]] = {0: (J.SZ, D.sym('old' + a[1]))}; av.append(ptr('O' + a[1]))
        else: av.append(I(a[2], a[1]))
    try: r = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s: %s' % (cfg, lab, e), 0, 0, 0)
    P = []
    for z, _ in r:
        P.append(([(c, q) for _, _, c, q in z.decisions()], J.ef_rd(z, ptr(res)), ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x_.get('l'), q) for f, x_, _, q in z.decisions())))
    ok = und = 0; bad = None; hit = set(); why = {}
    for p in pts:
        ev = EvR(dict(zip(names, p)), J.recs)
        try:
            want = oracle(orc, p)
            want = M(want)
            sel = []
            for i, (dec, t, w) in enumerate(P):
                if all(ev.truth(c) == q for c, q in dec): sel.append(i)
            if len(sel) != 1: und += 1; continue
            dec, t, w = P[sel[0]]
            ev.opq = set(); ev.memo = {}; ev.mu = {}; ev.by = {}
            for c, _ in dec: ev.truth(c)
            v = ev(t)
        except evalt.OutOfTable as e:
            if bad is None: bad = '%s: %s(%s) reads beyond a table: %s' % (cfg, lab, ', '.join(nstr(x, 8) for x in p), e)
            continue
        except (NoEval, ZeroDivisionError, OverflowError, ValueError, TypeError, mpmath.libmp.NoConvergence) as e: und += 1; why[type(e).__name__ + str(e)[:40]] = 1; continue
        if ev.opq:
            und += 1
            if PROBE: why[show(next(iter(ev.opq)), 2)[:60]] = 1
            continue
        hit.add(sel[0])
        if mpmath.isnan(want) and mpmath.isnan(v): ok += 1; continue
        if mpmath.isfinite(v) and mpmath.isfinite(want) and abs(v - want) <= M(10) ** -REL * abs(want) + M(10) ** -130 * (1 + max([abs(x) for x in p if mpmath.isfinite(x)] or [0])): ok += 1; continue
        if not mpmath.isfinite(v) and not mpmath.isfinite(want) and not (mpmath.isinf(p[0]) if p else False): ok += 1; continue
        if mpmath.isinf(want) and v == want: ok += 1; continue
        if mpmath.isinf(want) or abs(want) > M(10) ** 25 or mpmath.isnan(want): und += 1; continue      # a pole: the class tables decide
        if bad is None: bad = '%s: %s(%s) evaluates to %s, the function is %s; term %s; path [%s]' % (cfg, lab, ', '.join(nstr(x, 8) for x in p), nstr(v, 15), nstr(want, 15), show(t, 3)[:260], w)
    if bad: return ('viol', bad, ok, und, len(P))
    return ('ok' if ok else 'undec', '%s %s: %d of %d points not decided %s' % (cfg, lab, und, len(pts), list(why)[:3] if PROBE else ''), ok, und, len(P))

def main():
    rep = report.Report('C24')
    for c in ('efx', 'gmp', 'mpfr'): MODS[c] = ir.load_lib(c)
    SIZES.update(table_sizes()); evalt.SIZES.update(SIZES)
    ts = tasks()
    with Pool(8) as P:
        for t, (k, info, n, u, paths) in zip(ts, P.imap(run, ts, chunksize=1)):
            rep.count('functions'); rep.count('paths', paths); rep.count('point_evaluations_of_terms', n); rep.count('points_undecided', u)
            if k == 'viol': rep.violation(t[2], info)
            elif k == 'undec': rep.undecided(info)
            elif k == 'broken': raise ir.Broken(info)
            else: rep.count('decided')
            if u and PROBE: print('  part:', info[:300])
    rep.need('functions', 200); rep.need('decided', 100)
    return rep.finish('Result terms of the real functions extracted from the IR of the current sources per path, compared as functions of the arguments with the mathematical function (callees and hypergeometric series given their mathematical meaning).')

if __name__ == '__main__':
    report.main(main)
