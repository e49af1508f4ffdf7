"""C10: odd functions are odd and even functions even, on every path.

f is interpreted once for a symbolic positive argument x and once for -x.  Conditions and results are terms in x;
for sample x (and arbitrary values of sub-terms without a closed form, the same in both runs) the path each run
takes is determined and the two results must be opposite (equal for an even function)."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from multiprocessing import Pool
import mpmath
from evalt import nstr, EvU, NoEval
mp = mpmath.mp
D = Alg()
M = mpmath.mpf
MODS = {}
ODDF = ['sin', 'tan', 'csc', 'cot', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh', 'cbrt']
EVENF = ['cos', 'sec', 'cosh', 'fabs', 'abs']

def tasks():
    t = []
    for cfg in ('efx', 'gmp', 'mpfr'):
        for n in ODDF: t.append((cfg, 'ef::%s(EF const&)' % n, n, ('x',), 'R', -1))
        for n in EVENF: t.append((cfg, 'ef::%s(EF const&)' % n, n, ('x',), 'R', 1))
        for n, o in (('sincos', ('sin', 'cos')), ('sinhcosh', ('sinh', 'cosh'))):
            for k in (0, 1): t.append((cfg, 'ef::%s(EF const&, EF*, EF*)' % n, '%s:%s' % (n, o[k]), ('x', 'o0', 'o1'), 'O%d' % k, (-1, 1)[k]))
            t.append((cfg, 'ef::%s(EF const&, EF*, EF*)' % n, '%s(s only)' % n, ('x', 'o0', 'null'), 'O0', -1))
            t.append((cfg, 'ef::%s(EF const&, EF*, EF*)' % n, '%s(c only)' % n, ('x', 'null', 'o1'), 'O1', 1))
        for r in ('u', '-u'): t.append((cfg, 'ef::atan2(EF const&, EF const&)', 'atan2(y,%s)' % ('x>0' if r == 'u' else 'x<0'), ('x', r), 'R', -1))
        for sg in ('ef::pow(EF const&, long)', 'EF ef::detail::pown_template<EF>(EF const&, long)'):
            for k in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8): t.append((cfg, sg, '%s(x,%d)' % ('pown' if 'pown' in sg else 'pow', k), ('x', ('i', k)), 'R', -1 if k % 2 else 1))
        t.append((cfg, 'ef::floor(EF const&)', 'floor/ceil', ('x',), 'R', ('ef::ceil(EF const&)', -1)))
        t.append((cfg, 'ef::ceil(EF const&)', 'ceil/floor', ('x',), 'R', ('ef::floor(EF const&)', -1)))
        t.append((cfg, 'ef::integer_part(EF const&)', 'integer_part', ('x',), 'R', -1))
        t.append((cfg, 'ef::decimal_part(EF const&)', 'decimal_part', ('x',), 'R', -1))
    return t

XS = [M(10) ** -30, M(10) ** -12, M('0.0001234'), M('0.013'), M('0.0987'), M('0.24'), M('0.49'), M('0.51'), M('0.77'), M('0.94'), M('0.99999'), M(1) - M(10) ** -20, M(1), M(1) + M(10) ** -20, M('1.1'), M('1.7'), M(2), M('2.9'), M('3.3'), M('4.6'), M('5.8'), M(7), M('10.3'),
      M('33.7'), M('99.5'), M('100.5'), M(1234) + M(1) / 7, M(10) ** 9 + M(1) / 3, M(10) ** 22 + M(1) / 3]
XS += [k * mp.pi / 2 * (1 + d) for k in range(1, 9) for d in (0, M(10) ** -9, -M(10) ** -9, M(10) ** -20, -M('0.01'))]
US = [M('0.37'), M(1), M('7.5')]

def run1(cfg, sig, args, res, sign):
    m = MODS[cfg]; fn = m.need(sig)
    J = Interp(m, D, FL(m, D, inline=(sig,)), max_paths=1500, max_steps=1500000)
    st = St(); av = []
    x = D.sym('x'); st.cls[x] = S | P1 | L
    u = D.sym('u'); st.cls[u] = S | P1 | L
    if fn.args and fn.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    for k, a in enumerate(args):
        if a == 'x': st.mem['X'] = {0: (J.SZ, D.neg(x) if sign < 0 else x)}; av.append(ptr('X'))
        elif a in ('u', '-u'): st.mem['U'] = {0: (J.SZ, D.neg(u) if a[0] == '-' else u)}; av.append(ptr('U'))
        elif a == 'null': av.append(NULL)
        elif a[0] == 'o': st.mem['O' + a[1]] = {0: (J.SZ, D.sym('old' + a[1]))}; av.append(ptr('O' + a[1]))
        else: av.append(I(a[1], 64 if a[0] == 'i' else 32))
    return [([(c, q) for _, _, c, q in z.decisions()], J.ef_rd(z, ptr(res)), ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x_.get('l'), q) for f, x_, _, q in z.decisions())) for z, _ in J.run_fn(fn, av, st, mk('site', 'root'))]

def run(task):
    cfg, sig, lab, args, res, want = task
    osig = sig; e = want
    if isinstance(want, tuple): osig, e = want
    try: A = run1(cfg, sig, args, res, 1); Bm = run1(cfg, osig, args, res, -1)
    except Imprecise as ex: return ('undec', '%s %s: %s' % (cfg, lab, ex), 0, 0)
    ok = 0; bad = None; und = 0
    two = any(a in ('u', '-u') for a in args)
    hitA = set(); hitB = set()
    for xv in XS:
        for uv in (US if two else US[:1]):
            for salt in (1, 2):
                ev = EvU({'x': xv, 'u': uv}, salt)
                try:
                    def pick(P):
                        r = []
                        for i, (dec, t, w) in enumerate(P):
                            if all(ev.truth(c) == q for c, q in dec): r.append(i)
                        return r
                    pa, pb = pick(A), pick(Bm)
                    if len(pa) != 1 or len(pb) != 1: und += 1; continue
                    a, b = A[pa[0]], Bm[pb[0]]
                    def val(t, dec):
                        ev.opq = set(); ev.memo = {}
                        for c, _ in dec: ev.truth(c)
                        v = ev(t); return v, frozenset(ev.opq)
                    va, oa = val(a[1], a[0]); vb, ob = val(b[1], b[0])
                    hitA.add(pa[0]); hitB.add(pb[0])
                except (NoEval, ZeroDivisionError, OverflowError, ValueError): und += 1; continue
                if mpmath.isnan(va) and mpmath.isnan(vb): ok += 1; continue
                if va == e * vb or abs(va - e * vb) <= M(10) ** -20 * max(1 if abs(va) > 1e-6 else abs(va), abs(va)): ok += 1; continue
                if oa != ob: und += 1; continue
                if bad is None:
                    bad = '%s: %s at x=%s%s: f(x)=%s but f(-x)=%s; terms %s | %s; paths [%s] | [%s]' % (cfg, lab, nstr(xv, 8), ', other operand %s' % nstr(uv, 5) if two else '', nstr(va, 10), nstr(vb, 10), show(a[1], 3)[:150], show(b[1], 3)[:150], a[2], b[2])
    if bad: return ('viol', bad, ok, len(A) + len(Bm))
    if not ok: return ('undec', '%s %s: no comparable pair of paths' % (cfg, lab), 0, len(A) + len(Bm))
    miss = len(A) - len(hitA) + len(Bm) - len(hitB)
    return ('ok', '%s %s: %d of %d paths without a sample' % (cfg, lab, miss, len(A) + len(Bm)) if miss else '', ok, len(A) + len(Bm))

def main():
    rep = report.Report('C10')
    for c in ('efx', 'gmp', 'mpfr'): MODS[c] = ir.load_lib(c)
    ts = tasks()
    with Pool(8) as P:
        for t, (k, info, n, paths) in zip(ts, P.imap(run, ts, chunksize=1)):
            rep.count('obligations'); rep.count('paths', paths); rep.count('path_pairs_compared', n)
            if k == 'viol': rep.violation(t[2], info)
            elif k == 'undec': rep.undecided(info)
            else:
                rep.count('decided')
                if info and os.environ.get('VERIF_UNDEC'): print('  partial:', info)
    rep.need('obligations', 100); rep.need('decided', 80)
    return rep.finish('Each odd or even function interpreted for x and for -x; results on matching paths compared as functions of x. Sub-terms without closed form (iteration results) stand for the same arbitrary value in both runs and '
                      'are compared only when both results depend on the same ones.')

if __name__ == '__main__':
    report.main(main)
