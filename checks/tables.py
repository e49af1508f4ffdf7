"""C07: every tabulated constant is exact to its last written digit.

The table functions, constant functions, series coefficients and transform sine values are interpreted (constructor
arguments, string concatenations, arrays and the vectors built from them); each resulting literal is compared with the
mathematical value at its index, computed independently with exact integers or mpmath."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from multiprocessing import Pool
from fractions import Fraction
from math import comb, factorial
import mpmath
from evalt import nstr, Ev, NoEval
mp = mpmath.mp
D = Free()
sys.set_int_max_str_digits(0)
from flx import Lit as FLT

class SIN(FL):
    def resolve(s, fn):
        if 'template_sin<' in fn.norm: return False
        return FL.resolve(s, fn)


class JT(Interp):
    def const(s, c):
        if c[0] == 'f' and c[1]:
            f = fparse(c[1])
            if f == f and (abs(f) == math.inf and c[1][-1:].isdigit() or abs(f) != math.inf and Fraction(f) != Fraction(c[1])): return mk('dx', c[1])
        return Interp.const(s, c)

def single(m, sig):
    fn = m.need(sig)
    J = JT(m, D, FLT(m, D, contracts=False, inline=(sig,)), max_steps=400000)
    J.policy.raw = True
    r = J.run_fn(fn, [ptr('R')] if fn.args and fn.args[0].get('sret') else [], St(), mk('site', 'root'))
    return J, r

def ptr(o): return mk('p', o, 0)

def litval(txt):
    t = txt.strip().rstrip('lLfF')
    m = re.fullmatch(r'([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?', t)
    if not m or not (m.group(2) or m.group(3)): return None
    digs = m.group(2) + (m.group(3) or ''); e = int(m.group(4) or 0) - len(m.group(3) or '')
    v = Fraction(int(digs)) * Fraction(10) ** e
    return (-v if m.group(1) == '-' else v), Fraction(10) ** e, len(digs.lstrip('0'))

def check_lit(t, exact, what):
    """None, or a message; t is a number term, exact a Fraction."""
    q = D.isnum(t)
    if q is None:
        c = t.args[0] if t.op == 'neg' else t
        if c.op == 'f:fromdbl' and c.args[0].op in ('d', 'dx'):
            q = Fraction(c.args[0].args[0])
            if abs(q - exact) <= abs(exact) / 10**18: q = exact  # (the literal is exact only to its binary format)
            if t.op == 'neg': q = -q
    if q is not None: return None if q == exact else '%s is %s, must be %s' % (what, q, exact)
    s, neg = (t.args[0], True) if t.op == 'neg' else (t, False)
    if s.op == 'sym' and type(s.args[0]) is tuple and s.args[0][0] == 'lit':
        r = litval(s.args[0][1])
        if r is None: return '%s: "%s" is not a number' % (what, s.args[0][1][:40])
        v, ulp, nd = r
        if neg: v = -v
        if ulp >= 1 or exact.denominator == 1 and ulp < 1 and False: pass
        d = abs(v - exact)
        if d == 0: return None
        if ulp <= 1 and exact.denominator == 1: return '%s: literal %s... is not the exact integer; first difference at digit %d' % (what, s.args[0][1][:24], firstdiff(v, exact))
        if d > ulp: return '%s: literal %s... differs from the exact value at significant digit %d of %d' % (what, s.args[0][1][:24], firstdiff(v, exact), nd)
        return None
    return ('?', what, show(t, 2))

def firstdiff(v, x):
    if x == 0 or v == 0: return 1
    r = abs(v - x) / abs(x)
    n = len(str(r.denominator)) - len(str(r.numerator))
    return max(1, n)

def bern(n2):
    p, q = mpmath.bernfrac(n2)
    return Fraction(int(p), int(q))

TAB = {'A000142': lambda k: Fraction(factorial(k)),
       'A000367': lambda k: Fraction(bern(2 * k).numerator),
       'A002445': lambda k: Fraction(bern(2 * k).denominator)}
def f2(k):
    r = 1
    while k > 1: r *= k; k -= 2
    return Fraction(r)
TAB['A006882'] = f2

MT = {}
def row(k):
    """Row k of the binomial table."""
    m = MT['efx']; out = []
    sig = MT['rows'][k]
    J, r = single(m, sig)
    if len(r) != 1: return k, [('?', 'row', '')], 0
    st, p = r[0]; oo = J.obj_of(p); v = st.mem.get(oo[0], {}).get(oo[1])
    if v is None or v[1] is ZFILL or v[1].op != 'vecv': return k, [('?', 'row %d' % k, '')], 0
    b, n, es = v[1].args
    if n != k + 1: out.append('row %d of A007318 has %d entries' % (k, n))
    o = J.obj_of(b)
    for i in range(n):
        t = J.ef_rd(st, mk('p', o[0], o[1] + i * es))
        e = check_lit(t, Fraction(comb(k, i)), 'A007318()[%d]()[%d] (%s)' % (k, i, sig))
        if e: out.append(e)
    return k, out, n

def tabent(a):
    name, k, sig = a
    J, r = single(MT['efx'], sig)
    if len(r) != 1: return ('?', sig, '')
    return check_lit(J.ef_rd(r[0][0], r[0][1]), TAB[name](k), '%s()[%d] (%s)' % (name, k, sig))

def constants():
    mp.dps = 1250
    K = dict(zero=0, one=1, half=Fraction(1, 2), two=2, three=3, four=4, five=5, six=6, seven=7, eight=8, nine=9, ten=10, fifty=50, hundred=100, thousand=1000, million=10**6, billion=10**9, trillion=10**12, googol=10**100,
             int32_min=-2**31, int32_max=2**31 - 1, int64_min=-2**63, int64_max=2**63 - 1, unsigned_long_long_max=2**64 - 1, signed_long_long_min=-2**63, signed_long_long_max=2**63 - 1, one_minus=-1,
             tenth=Fraction(1, 10), eighth=Fraction(1, 8), fifth=Fraction(1, 5), quarter=Fraction(1, 4), third=Fraction(1, 3), two_third=Fraction(2, 3), three_half=Fraction(3, 2), fourth=Fraction(1, 4),
             double_min=Fraction(sys.float_info.min), double_max=Fraction(sys.float_info.max),
             long_double_min=Fraction(1, 2**16382), long_double_max=Fraction((2**64 - 1) * 2**16320))
    R = dict(sqrt2=mpmath.sqrt(2), sqrt3=mpmath.sqrt(3), pi=+mp.pi, pi_half=mp.pi / 2, two_pi=2 * mp.pi, pi_squared=mp.pi ** 2, sqrt_pi=mpmath.sqrt(mp.pi), e=+mp.e, ln2=mpmath.log(2), ln10=mpmath.log(10),
             euler_gamma=+mp.euler, catalan=+mp.catalan, phi=(1 + mpmath.sqrt(5)) / 2)
    ref = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'constants_ref.txt')
    for l in open(ref):
        n, v = l.split(); R[n] = mpmath.mpf(v)
    return K, R

def frac(x):
    """Exact rational value of an mpf."""
    sg, man, ex, _ = x._mpf_
    v = Fraction(int(man)) * (Fraction(2) ** int(ex)); return -v if sg else v

def main():
    rep = report.Report('C07')
    und = []
    def take(e, site):
        if e is None: rep.count('entries_checked'); return
        if isinstance(e, tuple): rep.undecided('%s %s' % (e[1], e[2])); return
        rep.violation(site, e)
    # integer tables (the same source for every back end; interpreted with the self-contained number class)
    m = ir.Module(ir.dump(ir.compile_bc(ir.lib_sources('efx', tables=True), 'efx')), 'efx')
    MT['efx'] = m
    jobs = []; rows = []
    for name in list(TAB) + ['A007318']:
        J, r = single(m, 'Tables::%s()' % name)
        if len(r) != 1: raise ir.Broken('table function Tables::%s() is not understood' % name)
        st, p = r[0]; oo = J.obj_of(p); v = st.mem.get(oo[0], {}).get(oo[1])
        if v is None or v[1] is ZFILL or v[1].op != 'vecv': raise ir.Broken('table Tables::%s() is not a vector built from an array' % name)
        b, n, es = v[1].args; o = J.obj_of(b)
        rep.count('tables')
        for i in range(n):
            f = J.rd(st, mk('p', o[0], o[1] + i * es), 8, 'ptr')
            if f.op == 'null': rep.violation(name, 'Tables::%s()[%d] holds no function' % (name, i)); continue
            if f.op != 'fn' or f.args[0] not in m.fns: rep.undecided('Tables::%s()[%d]' % (name, i)); continue
            sig = m.fns[f.args[0]].norm
            if name == 'A007318': rows.append(sig)
            else: jobs.append((name, i, sig))
    MT['rows'] = rows
    K, R = constants()
    mods = {c: ir.load_lib(c) for c in ('efx', 'gmp', 'mpfr')}
    with Pool(8) as P:
        for a, e in zip(jobs, P.imap(tabent, jobs, chunksize=50)): take(e, a[2])
        for k, out, n in P.imap(row, range(len(rows)), chunksize=4):
            rep.count('entries_checked', max(0, n - len(out)))
            for e in out:
                if isinstance(e, tuple): rep.undecided('%s %s' % (e[1], e[2]))
                else: rep.violation(rows[k], e)
    # named constants: every ef::name() returning a reference to a constant
    for cfg, m in mods.items():
        seen = 0
        done = set()
        for fn in list(m.fns.values()):
            mt = re.fullmatch(r'ef::(\w+)\(\)', fn.norm)
            if not mt or fn.rt != 'ptr' or fn.args or fn.decl or fn.norm in done: continue
            done.add(fn.norm)
            name = mt.group(1)
            if name not in K and name not in R: rep.count('constants_without_reference'); rep.undecided('constant without a reference: ' + name); continue
            try: J, r = single(m, fn.norm)
            except Imprecise: rep.undecided('%s ef::%s' % (cfg, name)); continue
            if len(r) != 1: rep.undecided('%s ef::%s' % (cfg, name)); continue
            t = J.ef_rd(r[0][0], r[0][1])
            exact = Fraction(K[name]) if name in K else None
            lits = leaves(t)
            if t.op in ('sym', 'num', 'neg', 'f:fromdbl'):
                e = check_lit(t, exact if exact is not None else frac(R[name]), '%s: ef::%s' % (cfg, name))
                take(e, 'ef::' + name); rep.count('constants'); continue
            # a formula in other constants: evaluate it with the written literals
            mp.dps = 1250
            try:
                ev = Ev({l: mpmath.mpf(litval(l[1])[0].numerator) / litval(l[1])[0].denominator for l in lits if litval(l[1])})
                v = ev(t)
            except (NoEval, KeyError) as ex: rep.undecided('%s ef::%s is %s' % (cfg, name, show(t, 3)[:100])); continue
            want = R[name] if name in R else mpmath.mpf(exact.numerator) / exact.denominator
            nd = min([litval(l[1])[2] for l in lits if litval(l[1]) and litval(l[1])[2] > 40] or [1200])
            if abs(v - want) > abs(want) * mpmath.mpf(10) ** (5 - nd): rep.violation('ef::' + name, '%s: ef::%s evaluates to %s, must be %s; value %s' % (cfg, name, nstr(v, 20), nstr(want, 20), show(t, 3)[:150]))
            else: rep.count('entries_checked')
            rep.count('constants')
    # series coefficients of 1/gamma
    for cfg, m in mods.items():
        fn = m.find('Gamma_Series::CoefOneOverGammaAtZero()')
        if fn is None: rep.undecided('gamma coefficients'); continue
        J, r = single(m, fn.norm)
        st, p = r[0]; oo = J.obj_of(p); v = st.mem.get(oo[0], {}).get(oo[1])
        if v is None or v[1] is ZFILL or v[1].op != 'vecv': rep.undecided('gamma coefficients'); continue
        b, n, es = v[1].args; o = J.obj_of(b)
        mp.dps = 460
        c = [mpmath.mpf(0), mpmath.mpf(1), +mp.euler]
        for k in range(3, n + 1):
            s = mp.euler * c[k - 1]
            for j in range(2, k): s += (-1) ** (j + 1) * mpmath.zeta(j) * c[k - j]
            c.append(s / (k - 1))
        for i in range(n):
            t = J.ef_rd(st, mk('p', o[0], o[1] + i * es))
            what = '%s: coefficient %d of 1/gamma' % (cfg, i + 1)
            if t.op == 'sym' and t.args[0][0] == 'k':
                nm = t.args[0][1]
                if nm in R and (abs(R[nm] - c[i + 1]) < mpmath.mpf(10) ** -400 if i else R[nm] == 1): rep.count('entries_checked')
                elif nm in R or nm in K: rep.violation(what, '%s is ef::%s(), must be %s' % (what, nm, nstr(c[i + 1], 20)))
                else: rep.undecided(what)
                continue
            take(check_lit(t, frac(c[i + 1]) if i else Fraction(1), what), what)
    # sine values of the transform
    m = mods['efx']
    for fn in list(m.fns.values()):
        mt = re.fullmatch(r'(?:\w+ )*ef::detail::fft::template_sin<(\d+)u, (\d+)u, [\w ]+>::value\(\)', fn.norm)
        if not mt or fn.decl: continue
        N, O = int(mt.group(1)), int(mt.group(2))
        J = JT(m, D, SIN(m, D)); r = J.run_fn(fn, [], St(), mk('site', 'root'))
        v = r[0][1]; mp.dps = 60
        want = mpmath.sin(O * mp.pi / N)
        if abs(want) < mpmath.mpf(10) ** -50: want = mpmath.mpf(0)
        if v.op == 'd': got = mpmath.mpf(v.args[0])
        elif v.op == 'dx': got = mpmath.mpf(v.args[0])
        else: rep.undecided('sine %d %d' % (N, O)); continue
        if abs(got - want) > abs(want) * mpmath.mpf(2) ** -63: rep.violation(fn.norm, '%s returns %s, sin(%d*pi/%d) is %s' % (fn.norm, nstr(got, 25), O, N, nstr(want, 25)))
        else: rep.count('entries_checked')
        rep.count('sine_values')
    rep.need('entries_checked', 17000); rep.need('tables', 5); rep.need('sine_values', 40)
    return rep.finish('Literals of tables, constants, series coefficients and sine values, extracted from the IR of the current sources by interpreting the functions that return them, compared with exact values.')

def leaves(t, seen=None, out=None):
    if out is None: out = set(); seen = set()
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == 'sym' and type(t.args[0]) is tuple and t.args[0][0] == 'lit': out.add(t.args[0])
    for a in t.args:
        if isinstance(a, T): leaves(a, seen, out)
    return out

if __name__ == '__main__':
    report.main(main)
