"""C01 / C02: class analysis of every real elementary function, compositional (callees by their contract)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, spec, report
from multiprocessing import Pool
from terms import *
from absint import *
from fl import FL
from roots import UNARY

D = Free()
MODS = {}
CFGS = ('efx', 'gmp', 'mpfr')
SPECIAL = (NINF, N1, Z, P1, PINF)


def sym_int(J, st, name, w, lo, hi):
    t = mk('iu', w, mk('sym', name)); J.setrng(st, t, (lo, hi)); return t


def tasks(prop):
    """(function signature, label, argument builder spec, list of (class tuple, allowed mask))"""
    out = []
    U = [n for n in UNARY]
    for cfg in CFGS:
        for n in U:
            t = spec.UN['fabs' if n == 'abs' else n]
            for b in bits(ALL):
                if (b == NAN) == (prop == 'C01'): out.append((cfg, 'ef::%s(EF const&)' % n, (('n', b),), 'ret', t[b], n))
        for n, f in (('sin', 0), ('cos', 1)):
            for b in bits(ALL):
                if (b == NAN) == (prop == 'C01'): out.append((cfg, 'ef::sincos(EF const&, EF*, EF*)', (('n', b), ('o', 0), ('o', 1)), f, spec.UN[n][b], 'sincos:' + n))
        for n, f in (('sinh', 0), ('cosh', 1)):
            for b in bits(ALL):
                if (b == NAN) == (prop == 'C01'): out.append((cfg, 'ef::sinhcosh(EF const&, EF*, EF*)', (('n', b), ('o', 0), ('o', 1)), f, spec.UN[n][b], 'sinhcosh:' + n))
        two = [('ef::pow(EF const&, EF const&)', spec.pow2arg, 'pow'), ('ef::atan2(EF const&, EF const&)', spec.atan2arg, 'atan2'), ('ef::loga(EF const&, EF const&)', spec.loga_arg, 'loga')]
        if prop == 'C01': two.append(('ef::fmod(EF const&, EF const&)', spec.fmod_arg, 'fmod'))
        for sig, f, lab in two:
            for a in bits(ALL):
                for b in bits(ALL):
                    if bool((a | b) & NAN) == (prop == 'C01'): out.append((cfg, sig, (('n', a), ('n', b)), 'ret', f(a, b), lab))
        for sig, lab in (('ef::rootn(EF const&, int)', 'rootn'), ('ef::rootn_inverse(EF const&, int)', 'rootn_inverse')):
            for p in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7):
                t = spec.rootn_arg(p)
                if lab == 'rootn_inverse': t = spec.rootn_arg(-p)
                for b in bits(ALL):
                    if (b == NAN) == (prop == 'C01'): out.append((cfg, sig, (('n', b), ('i', 32, p)), 'ret', t[b], '%s(p=%d)' % (lab, p)))
        if prop == 'C01':
            out.append((cfg, 'ef::ldexp(EF const&, int)', (('n', NAN), ('s', 32, 'e')), 'ret', NAN, 'ldexp'))
            out.append((cfg, 'ef::frexp(EF const&, int*)', (('n', NAN), ('w', 4)), 'ret', NAN, 'frexp'))
            for n in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 100):
                out.append((cfg, 'ef::pow(EF const&, long)', (('n', NAN), ('i', 64, n)), 'ret', NAN, 'pow(x,n)'))
                out.append((cfg, 'EF ef::detail::pown_template<EF>(EF const&, long)', (('n', NAN), ('i', 64, n)), 'ret', NAN, 'pown'))
        else:
            for h, k in (('0f0', 0), ('0f1', 1), ('1f0', 1), ('1f1', 2), ('2f0', 2), ('2f1', 3)):
                sg = 'ef::hypergeometric_%s(%s)' % (h, ', '.join(['EF const&'] * (k + 1)))
                for b in (1, 3): out.append((cfg, sg, (('q', b),) * k + (('q', 0),), 'ret', P1, 'hypergeometric_%s(%d..;0)' % (h, b)))
                if h[0] != '0': out.append((cfg, sg, (('q', -1),) + (('q', 1),) * (k - 1) + (('q', 3),), 'ret', NL, 'hypergeometric_%s(-1..;3)' % h))
            for n in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 8):
                for sig in ('ef::pow(EF const&, long)', 'EF ef::detail::pown_template<EF>(EF const&, long)'):
                    for b in bits(ALL & ~NAN):
                        a = c_of_num(n)
                        m = spec.pow2arg(b, a)
                        if b & NEG and b & FIN and a & (NL | N1 | P1 | L): m &= POS | Z if n % 2 == 0 else NEG | Z
                        if b == NINF and n: m = (Z if n < 0 else PINF if n % 2 == 0 else NINF)
                        out.append((cfg, sig, (('n', b), ('i', 64, n)), 'ret', m, '%s(n=%d)' % ('pow' if 'pown' not in sig else 'pown', n)))
    return out


def run(task):
    cfg, sig, args, which, allowed, lab = task
    m = MODS[cfg]
    fn = m.need(sig)
    pol = FL(m, D); J = Interp(m, D, pol)
    st = St(); av = []
    if fn.args and fn.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    for k, a in enumerate(args):
        if a[0] == 'n':
            x = D.sym('x%d' % k); st.mem['X%d' % k] = {0: (J.SZ, x)}; st.cls[x] = a[1]; av.append(ptr('X%d' % k))
        elif a[0] == 'q': st.mem['X%d' % k] = {0: (J.SZ, D.num(a[1]))}; av.append(ptr('X%d' % k))
        elif a[0] == 'o':
            # an output left unwritten keeps an earlier value: give it a class the result must not have
            old = D.sym('old%d' % a[1]); st.cls[old] = next((b for b in (L, NL, S, NAN, Z) if not b & allowed), L)
            st.mem['O%d' % a[1]] = {0: (J.SZ, old)}; av.append(ptr('O%d' % a[1]))
        elif a[0] == 'w': st.mem['W'] = {}; av.append(ptr('W'))
        elif a[0] == 'i': av.append(I(a[2], a[1]))
        elif a[0] == 's': av.append(mk('iu', a[1], mk('sym', a[2])))
    ent = 'class ' + ', '.join(cname(a[1]).strip('{}') for a in args if a[0] == 'n')
    try: r = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s %s: %s' % (cfg, lab, ent, e), 0, J.visited)
    bad = []; und = 0
    for z, _ in r:
        p = ptr('R') if which == 'ret' else ptr('O%d' % which)
        v = J.ef_rd(z, p); c = J.getcls(z, v)
        if not c & allowed:
            at = z.tag.get('ret')
            bad.append('%s: %s with argument of %s returns %s, expected %s; path: %s' % (cfg, sig, ent, cname(c), cname(allowed),
                       ' '.join('%s:%s=%s' % (f.loc.split(':')[0].split('/')[-1], x.get('l'), q) for f, x, _, q in z.decisions()) or '(straight)') + (' exit line %s' % at[1].get('l') if at else ''))
        elif c & ~allowed: und += 1
    if bad: return ('viol', bad, len(r), J.visited)
    if not r: return ('undec', '%s %s %s: no path' % (cfg, lab, ent), 0, J.visited)
    return ('und' if und else 'ok', und, len(r), J.visited)


def check(prop):
    rep = report.Report(prop)
    for c in CFGS: MODS[c] = ir.load_lib(c)
    ts = tasks(prop)
    vis = {c: set() for c in CFGS}
    with Pool(8) as P:
        for t, (k, info, n, vs) in zip(ts, P.imap(run, ts, chunksize=8)):
            cfg, sig, args, which, allowed, lab = t
            rep.count('obligations'); rep.count('paths', n); vis[cfg] |= vs
            key = '%s/%s' % (lab, ','.join(cname(a[1]).strip('{}') for a in args if a[0] == 'n'))
            if k == 'viol': rep.violation(key, info[0])
            elif k == 'undec': rep.undecided(info)
            elif k == 'und': rep.undecided('%s %s: %d of %d paths end in a class the abstraction cannot decide' % (cfg, key, info, n))
            else: rep.count('decided')
    rep.cov['functions_analysed'] = sum(len(v) for v in vis.values())
    rep.need('obligations', 250 if prop == 'C01' else 2000)
    rep.need('decided', 150 if prop == 'C01' else 900)
    return rep.finish('Abstract interpretation over ten value classes of the LLVM IR of the current sources; one obligation per (back end, function, argument class). Violation: a path whose result class is disjoint from the allowed class. '
                      'Undecided obligations (result class too wide) are not reported as violations.')


if __name__ == '__main__':
    report.main(lambda: check(sys.argv[1]))
