"""C09: complex arithmetic and functions equal their algebraic definitions.

Every operator / function of ef::complex<T> is interpreted over the rational-function term domain;
the real and imaginary part extracted on every path must be identical, as functions of the operands,
to the definition.  Identity of the extracted terms is decided by normal forms, and where these differ
by evaluating both TERMS at sample points that satisfy the path condition."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from multiprocessing import Pool
import mpmath
from evalt import nstr, Ev, NoEval
mp = mpmath.mp
D = Alg()
MODS = {}
M, C = mpmath.mpf, mpmath.mpc

def cdiv(a, b): return a / b if b != 0 else None
def proj(z): return z
# oracle(z, w | r, ...) on exact values
FUNS = dict(conj=mpmath.conj, proj=proj, acos=mpmath.acos, asin=mpmath.asin, atan=mpmath.atan, asinh=mpmath.asinh, acosh=mpmath.acosh, atanh=mpmath.atanh, cos=mpmath.cos, cosh=mpmath.cosh,
            exp=mpmath.exp, log=mpmath.log, log10=lambda z: mpmath.log(z) / mpmath.log(10), sin=mpmath.sin, sinh=mpmath.sinh, sqrt=mpmath.sqrt, tan=mpmath.tan, tanh=mpmath.tanh)
RFUNS = dict(real=lambda z: z.real, imag=lambda z: z.imag, abs=abs, arg=mpmath.arg, norm=lambda z: z.real ** 2 + z.imag ** 2)

# (driver function, operand kinds, result kind, oracle); kinds: z complex, r real, b built-in int, Z complex in place (first)
POWS = ('ef::pow(EF const&, long)', 'EF ef::detail::pown_template<EF>(EF const&, long)')
def ef_tasks():
    t = []
    A = {'add': lambda u, v: u + v, 'sub': lambda u, v: u - v, 'mul': lambda u, v: u * v, 'div': cdiv}
    for o, f in A.items():
        t.append(('c' + o, 'zz', 'z', f)); t.append(('c%s_r' % o, 'zr', 'z', f)); t.append(('r%s_c' % o, 'rz', 'z', f))
        t.append(('ci' + o, 'Zz', 'Z', f)); t.append(('ci%s_r' % o, 'Zr', 'Z', f))
        for n, w, sg in (('i', 32, 1), ('u', 32, 0), ('ll', 64, 1), ('ull', 64, 0)): t.append(('ci%s_%s' % (o, n), 'Zb%d%d' % (w, sg), 'Z', f))
    for n, w, sg in (('i', 32, 1), ('u', 32, 0), ('ll', 64, 1), ('ull', 64, 0)): t.append(('cctor_' + n, 'b%d%d' % (w, sg), 'z', lambda n: n))
    t += [('casg', 'Zz', 'Z', lambda u, v: v), ('casg_r', 'Zr', 'Z', lambda u, v: v), ('cctor_ef', 'r', 'z', lambda r: r), ('cctor_efef', 'rr', 'z', lambda a, b: C(a, b)), ('cctor_copy', 'z', 'z', lambda z: z),
          ('cneg', 'z', 'z', lambda z: -z), ('cpos', 'z', 'z', lambda z: z),
          ('ceq', 'zz', 'b', lambda u, v: u == v), ('cne', 'zz', 'b', lambda u, v: u != v), ('ceq_r', 'zr', 'b', lambda u, v: u == v), ('cne_r', 'zr', 'b', lambda u, v: u != v), ('req_c', 'rz', 'b', lambda u, v: u == v), ('rne_c', 'rz', 'b', lambda u, v: u != v),
          ('cset_re', 'Zr', 'Z0', lambda u, v: C(v, u.imag)), ('cset_im', 'Zr', 'Z0', lambda u, v: C(u.real, v)),
          ('c_polar', 'rr', 'z', lambda r, a: C(r * mpmath.cos(a), r * mpmath.sin(a))), ('c_pow_r', 'zr', 'z', lambda z, a: mpmath.exp(a * mpmath.log(z))), ('c_pow_c', 'zz', 'z', lambda z, a: mpmath.exp(a * mpmath.log(z))),
          ('r_pow_c', 'rz+', 'z', lambda z, a: mpmath.exp(a * mpmath.log(z)))]
    for n, f in FUNS.items(): t.append(('c_' + n, 'z', 'z', f))
    for n, f in RFUNS.items(): t.append(('c_' + n, 'z', 'r', f))
    for k in (-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 31):
        for sg in POWS: t.append((sg + '@%d' % k, 'r', 'r', lambda x, k=k: mpmath.power(x, k)))
    for n, k in (('p0', 0), ('p1', 1), ('p2', 2), ('p3', 3), ('p4', 4), ('p5', 5), ('p7', 7), ('p6', 6), ('p8', 8), ('p9', 9), ('p13', 13), ('m1', -1), ('m2', -2), ('m3', -3), ('m6', -6)): t.append(('c_pow_' + n, 'z', 'z', lambda z, k=k: mpmath.power(z, k)))
    return t

def bi_tasks(P):
    t = []
    A = {'add': lambda u, v: u + v, 'sub': lambda u, v: u - v, 'mul': lambda u, v: u * v, 'div': cdiv}
    for o, f in A.items():
        t += [(P + '_' + o, 'dd', 'd', f), (P + '_b' + o, 'dd', 'd', f), ('%s_%sr' % (P, o), 'ds', 'd', f), ('%s_r%s' % (P, o), 'ds', 'd', lambda z, c, f=f: f(c, z)), ('%s_i%sr' % (P, o), 'ds', 'd', f)]
    t += [(P + '_asgr', 'ds', 'd', lambda z, c: C(c, 0)), (P + '_neg', 'd', 'd', lambda z: -z), (P + '_eq', 'dd', 'b', lambda u, v: u == v), (P + '_ne', 'dd', 'b', lambda u, v: u != v),
          (P + '_eqr', 'ds', 'b', lambda u, v: u == v), (P + '_ner', 'ds', 'b', lambda u, v: u != v), (P + '_req', 'ds', 'b', lambda u, v: u == v), (P + '_rne', 'ds', 'b', lambda u, v: u != v), (P + '_polar', 'ss', 'd', lambda r, a: C(r * mpmath.cos(a), r * mpmath.sin(a)))]
    for n, f in FUNS.items(): t.append((P + '_' + n, 'd', 'd', f))
    for n, f in RFUNS.items(): t.append((P + '_' + n, 'd', 's', f))
    return t


rnd = random.Random(20210)
VALS = [M(v) / 64 for v in (-291, -200, -131, -77, -50, -33, -9, -2, 3, 11, 21, 40, 59, 70, 101, 150, 222, 300)]
def rv(): return VALS[rnd.randrange(len(VALS))] + M(rnd.randrange(1, 1000)) / 65537

# the points: generic ones, and ones on the axes and with equal parts
def points(kinds, rk, axis, n=28):
    out = []
    for i in range(n):
        p = []
        for k in kinds:
            if k in ('z', 'Z', 'd'):
                z = C(rv(), rv())
                if axis and i % 9 == 5: z = C(abs(rv()) / 6, 0)
                if axis and i % 9 == 6: z = C(0, rv() / 6)
                p.append(z)
            elif k[0] == 'b': p.append(M(rnd.randrange(-50 if k[-1] == '1' else 1, 60)))
            elif k == 'r+': p.append(abs(rv()))
            else: p.append(rv())
        if rk == 'b' and i % 2:
            if len(p) == 2:
                a, b = p
                if isinstance(a, C) and isinstance(b, C): p[1] = C(a.real, b.imag) if i % 3 == 0 else C(b.real, a.imag) if i % 3 == 1 else a
                elif isinstance(a, C): p[0] = C(b, a.imag) if i % 3 else C(b, 0)
                else: p[1] = C(a, b.imag) if i % 3 else C(a, 0)
        out.append(p)
    return out


def parse(kinds):
    out = []; i = 0
    while i < len(kinds):
        if kinds[i] == 'b': out.append(kinds[i:i + 4]); i += 4
        elif kinds[i:i + 2] == 'r' + 'z' and kinds.endswith('+'): out += ['r+', 'z']; break
        else: out.append(kinds[i]); i += 1
    return out


def close(a, b, tol=M(10) ** -18):
    if a is None or b is None: return True
    a, b = C(a), C(b)
    if not (mpmath.isfinite(a.real) and mpmath.isfinite(a.imag)):
        return not (mpmath.isfinite(b.real) and mpmath.isfinite(b.imag))
    return abs(a - b) <= tol * (1 + abs(b))


def run(task):
    cfg, name, kinds, rk, idx = task
    fn_or = ORACLE[(name, kinds)]
    m = MODS[cfg]
    if '@' in name: fn = m.need(name.split('@')[0])
    else: fn = next((f for f in m.fns.values() if f.norm.startswith('vdrv::%s(' % name)), None)
    if fn is None: return ('broken', 'driver function %s not found' % name, 0)
    ks = parse(kinds)
    J = Interp(m, D, FL(m, D)); SZ = J.SZ
    st = St(); av = []; syms = []
    if fn.args and fn.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    outp = None
    for k, kd in enumerate(ks):
        if kd in ('z', 'Z'):
            a, b = D.sym('a%d' % k), D.sym('b%d' % k); st.mem['X%d' % k] = {0: (SZ, a), SZ: (SZ, b)}; av.append(ptr('X%d' % k))
            for q in (a, b): st.cls[D.canon_sign(q)[0]] = FIN
        elif kd in ('r', 'r+'):
            a = D.sym('a%d' % k); st.mem['X%d' % k] = {0: (SZ, a)}; st.cls[a] = FIN if kd == 'r' else S | P1 | L; av.append(ptr('X%d' % k))
        elif kd[0] == 'b':
            t = mk('iu', int(kd[1:3]), mk('sym', 'a%d' % k)); av.append(t)
        elif kd == 'd':
            av += [mk('du', 'double', mk('sym', 'a%d' % k)), mk('du', 'double', mk('sym', 'b%d' % k))]
        elif kd == 's': av.append(mk('du', 'double', mk('sym', 'a%d' % k)))
    fpty = {'cd': ('double', 8), 'cl': ('x86_fp80', 16, 10), 'cf': ('float', 4)}.get(name[:2])
    if '@' in name: av.append(I(int(name.split('@')[1]), 64))
    if rk == 'd': st.mem['O'] = {}; av.append(ptr('O'))
    try: res = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s: %s' % (cfg, name, e), 0)
    out = []
    def symv(p):
        d = {}
        for k, v in enumerate(p):
            if isinstance(v, C): d['a%d' % k] = v.real; d['b%d' % k] = v.imag
            else: d['a%d' % k] = v
        return d
    pts = [(p, Ev(symv(p))) for p in points(ks, rk, 'acosh' not in name)]
    if name.split('_')[-1] in ('sqrt', 'norm', 'abs', 'sin', 'sinh', 'tan', 'tanh', 'cos', 'cosh', 'exp', 'asin', 'asinh', 'atan', 'atanh'): pts.append(([C(0, 0)], Ev(symv([C(0, 0)]))))
    if name in ('c_sqrt', 'c_log', 'c_log10', 'c_arg', 'c_pow_r'):
        for i in range(2): pts.append(((lambda q: (q, Ev(symv(q))))([C(-abs(rv()), 0)] + [rv()] * (len(ks) - 1))))
    hit = 0; und = 0; bad = []
    for z, rv_ in res:
        try:
            if rk in ('z', 'Z', 'Z0'):
                base = ptr('R') if rk == 'z' else ptr('X0')
                val = [J.ef_rd(z, base), J.ef_rd(z, mk('p', base.args[0], SZ))]
                if rk == 'Z' and not (rv_ is not None and rv_.op == 'p' and rv_.args == ('X0', 0)): bad.append('%s: %s does not return its left operand' % (cfg, name))
                # read-only operands are unchanged
            elif rk == 'r': val = [J.ef_rd(z, ptr('R'))]
            elif rk == 'd': val = [J.rd(z, mk('p', 'O', o), fpty[-1] if len(fpty) == 3 else fpty[1], fpty[0]) for o in (0, fpty[1])]
            elif rk == 's': val = [rv_]
            else: val = [rv_]
        except Exception as e: und += 1; continue
        dec = z.decisions()
        ok = 0
        for p, ev in pts:
            try:
                if not all(ev.truth(c) == q for _, _, c, q in dec): continue
                ok += 1
                want = fn_or(*p)
                if want is None: continue
                if rk == 'b': got = ev.truth(val[0]); good = got == bool(want)
                else:
                    got = C(*[ev(v) for v in val]) if len(val) == 2 else C(ev(val[0]))
                    good = close(got, want, M(10) ** (-5 if name[:3] == 'cf_' else -12) if name[:3] in ('cd_', 'cl_', 'cf_') else M(10) ** -18)
                if not good:
                    bad.append('%s: %s%s = %s but the definition gives %s; term: %s; path: %s' % (cfg, name, tuple(str(nstr(x, 6)) for x in p), nstr(got, 8) if not isinstance(got, bool) else got, nstr(want, 8) if not isinstance(want, bool) else want,
                               ' | '.join(show(v, 3)[:160] for v in val), ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x.get('l'), q) for f, x, _, q in dec) or '(straight)')); break
            except NoEval as e: und += 1; out.append('%s %s: term not interpretable (%s)' % (cfg, name, e)); break
            except (ZeroDivisionError, OverflowError, ValueError): continue
        hit += ok
    if bad: return ('viol', bad[0], len(res))
    if und: return ('undec', out[0] if out else '%s %s' % (cfg, name), len(res))
    if not hit: return ('undec', '%s %s: no sample point on any path' % (cfg, name), len(res))
    return ('ok', hit, len(res))


def special(cfg):
    """Values at single points that algebra cannot cover: sqrt(0), and numbers with infinite parts under proj."""
    m = MODS[cfg]; out = []
    F = Free()
    J = Interp(m, F, FL(m, F)); SZ = J.SZ
    def go(name, re, im, cr=None, ci=None):
        fn = m.need('vdrv::c_%s(ef::complex<EF> const&)' % name)
        st = St(); st.mem['R'] = {}; st.mem['X'] = {0: (SZ, re), SZ: (SZ, im)}
        if cr: st.cls[re] = cr
        if ci: st.cls[im] = ci
        r = []
        for z, _ in J.run_fn(fn, [ptr('R'), ptr('X')], st, mk('site', 'root')): r.append((J.getcls(z, J.ef_rd(z, ptr('R'))), J.getcls(z, J.ef_rd(z, mk('p', 'R', SZ)))))
        return r
    zero = F.num(0)
    for name in ('sqrt', 'sin', 'sinh', 'tan', 'tanh', 'asin', 'asinh', 'atan', 'atanh'):
        r = go(name, zero, zero)
        out.append((name + '(0)', not any(not a & Z or not b & Z for a, b in r), str([(cname(a), cname(b)) for a, b in r])))
    for name in ('exp', 'cos', 'cosh'):
        r = go(name, zero, zero)
        out.append((name + '(0)', not any(not a & P1 or not b & Z for a, b in r), str([(cname(a), cname(b)) for a, b in r])))
    a, b = F.sym('re'), F.sym('im')
    r = go('proj', a, b, PINF, FIN)
    out.append(('proj(inf)', not any(not x & PINF or not y & Z for x, y in r), str([(cname(x), cname(y)) for x, y in r])))
    a, b = F.sym('re2'), F.sym('im2')
    r = go('proj', a, b, FIN, NINF)
    out.append(('proj(-i.inf)', not any(not x & PINF or not y & Z for x, y in r), str([(cname(x), cname(y)) for x, y in r])))
    return out


ORACLE = {}
def main():
    rep = report.Report('C09')
    ts = []
    for c in ('efx', 'gmp', 'mpfr'):
        MODS[c] = ir.load_lib(c)
        for n, k, r, f in ef_tasks(): ORACLE[(n, k)] = f; ts.append((c, n, k, r, 0))
    for P in ('cd', 'cl', 'cf'):
        for n, k, r, f in bi_tasks(P): ORACLE[(n, k)] = f; ts.append(('efx', n, k, r, 0))
    with Pool(8) as P:
        for t, (k, info, n) in zip(ts, P.imap(run, ts, chunksize=4)):
            rep.count('obligations'); rep.count('paths', n)
            if k == 'viol': rep.violation('%s' % t[1], info)
            elif k == 'broken': raise ir.Broken(info)
            elif k == 'undec': rep.undecided(info)
            else: rep.count('decided'); rep.count('point_evaluations_of_terms', info)
        for c, rs in zip(MODS, P.map(special, list(MODS))):
            for n, ok, txt in rs:
                rep.count('special_values')
                if not ok: rep.violation('special:' + n, '%s: complex %s has classes %s' % (c, n, txt))
    rep.need('obligations', 300); rep.need('decided', 250)
    return rep.finish('Terms of real and imaginary part extracted from the IR of every operator and function of ef::complex (e_float in three back ends; float, double, long double) on every path, compared with the definition: '
                      'identity of terms decided by evaluating both terms at sample points on the path (no library code is run).')


if __name__ == '__main__':
    report.main(main)
