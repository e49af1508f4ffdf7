"""C13: back-end fast paths are wired to the matching function and operands.

1. Capability flags: every flag of the number class's table is interpreted; where it is true, the class's own implementation must exist and
   its result term (foreign library operations as primitives) must be the function of that name of the caller's operands, the operands unchanged.
2. Call sites: every function that may use an own implementation is interpreted with all flags unknown; a call of an own implementation needs its
   flag on the path, and on every path the result must be the function (an own implementation standing for the function it is named after).
3. Primitives of the wrapped back ends: += -= *= /= with numbers and every built-in integer type, and the conversions, on finite operands; every
   value-producing operation of the foreign library rounds to nearest."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, report, evalt, re
from terms import *
from absint import *
from be import BE, BEInterp
from flx import FLX, table_sizes
from multiprocessing import Pool
import mpmath, arith, formula, handles
from evalt import nstr, NoEval, FUN
M = mpmath.mpf; mp = mpmath.mp
MODS = {}; D = Alg()
PRODUCING = set('set set4 set_d set_ld add sub mul div add_ui sub_ui mul_ui div_ui ui_div ui_sub add_si sub_si mul_si div_si si_sub si_div sqr sqrt cbrt root rootn_ui sin cos tan asin acos atan sinh cosh tanh asinh '
                'acosh atanh exp log gamma zeta jn yn exp2 exp10 log2 log10 log1p expm1 sec csc cot pow pow_ui pow_si neg abs'.split())
ROUND = {0: 'to nearest', 1: 'toward zero', 2: 'up', 3: 'down', 4: 'away from zero'}

class BW(BE):
    """Foreign operations with their rounding argument on record."""
    def primitive(s, I_, st, op, a, x):
        if s.m.cfg == 'mpfr' and op in PRODUCING and len(a) > 1:
            r = a[2] if op == 'set4' else a[-1]
            if r.op == 'i' and r.args[0] in (1, 2, 3, 4): st.ev = (('round', op, r.args[0], I_.where), st.ev)
        return BE.primitive(s, I_, st, op, a, x)

OWNF = dict(FUN)
SPECIAL = {'ldexp': lambda x, n: x * M(2) ** int(n), 'fmod': lambda x, y: x - y * (mpmath.floor(x / y) if x / y >= 0 else mpmath.ceil(x / y)), 'cyl_bessel_jn': lambda n, x: mpmath.besselj(int(n), x),
           'cyl_bessel_yn': lambda n, x: mpmath.bessely(int(n), x), 'riemann_zeta': lambda x: mpmath.zeta(x), 'cbrt': lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)}
XS = [M('0.37'), M('0.5'), M('0.013'), M('-0.37'), M('-0.77'), M('0.99'), M('1.4'), M('2.5'), M('-2.5'), M('7.3'), M('33.7'), M('1234.5')]
INTS = {'int': (0, 1, 2, 3, 5, 8, -1, -2), 'unsigned int': (1, 2, 3, 4, 5, 7)}

def ofname(nm):
    f = SPECIAL.get(nm) or OWNF.get(nm)
    def g(*a):
        try: v = f(*a)
        except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence): return None
        return v if isinstance(v, M) and mpmath.isfinite(v) else None
    return g if f else None

def flags(cfg):
    """Capability flags of the class: name -> function."""
    m = MODS[cfg]; out = {}
    for n in handles.virtuals(m):
        f = m.fns.get(n); q = re.search(r'::i_have_my_own_(\w+)\(\) const$', f.norm) if f else None
        if q: out[q.group(1)] = f
    return out

def impl(cfg, nm):
    m = MODS[cfg]; f = flags(cfg)[nm]
    if cfg == 'efx': J = Interp(m, D, FLX(m, D, inline=(f.norm,))); st = St()
    else: pol = BW(m, D); J = BEInterp(m, D, pol); st = pol.setup(J, St())
    v = {t for _, t in J.run_fn(f, [ptr('T')], st, mk('site', 'flag'))}
    if len(v) != 1: return ('undec', '%s: %s is not a constant' % (cfg, f.norm), 0)
    v = v.pop()
    if v.op != 'i': return ('undec', '%s: %s is not a constant' % (cfg, f.norm), 0)
    if v.args[0] & 1 == 0: return ('off', '', 0)
    own = [g for g in m.fns.values() if g.norm.startswith('EF::my_own_%s(' % nm) and not g.decl]
    if not own: return ('viol', '%s announces its own %s (%s) and does not define one' % (cfg, nm, f.norm), 0)
    g = own[0]; oracle = ofname(nm)
    if cfg == 'efx' or oracle is None: return ('undec', '%s: own implementation of %s is not interpreted' % (cfg, nm), 0)
    ps = handles.split_params(g.norm)[0]
    if not all(p in INTS or p == 'EF const&' for p in ps): return ('undec', '%s: parameters of %s' % (cfg, g.norm), 0)
    combos = [()]
    for p in ps: combos = [c + (k,) for c in combos for k in (INTS[p] if p in INTS else (None,))]
    n = 0
    for c in combos:
        m = MODS[cfg]; pol = BW(m, D); J = BEInterp(m, D, pol); st = pol.setup(J, St()); xs = []; av = [ptr('R')] if g.args and g.args[0].get('sret') else []
        st.mem['R'] = {}
        for k, (p, v) in enumerate(zip(ps, c)):
            if v is None:
                st, x = pol.special(J, st, 'X%d' % k, FIN); xs.append((k, x)); av.append(ptr('X%d' % k))
            else: av.append(I(v, 32))
        st.ev = None; st.trace = None
        R = J.run_fn(g, av, st, mk('site', 'root'))
        P = [w for z, _ in R for w in pol.classify(J, z, ptr('R'))]
        for x0 in XS:
            args = [v if v is not None else x0 + k for k, v in enumerate(c)]
            want = oracle(*args)
            if want is None: continue
            ev = EvI({'X%d' % k: args[k] for k, _ in xs}, None, None)
            res = []
            for w, cc, t in P:
                if not arith.possible(ev, w): continue
                for e in w.events():
                    if e[0] == 'round': res.append('%s rounds %s (%s)' % (e[1], ROUND[e[2]], handles.spot(e))); break
                    if e[0] == 'ts': res.append(str(e[1])); break
                else:
                    try:
                        if t is None: res.append('is not finite'); continue
                        v = ev(t); n += 1
                        res.append(None if abs(v - want) <= M(10) ** -60 * max(1, abs(want)) else 'is %s, not %s (term %s)' % (nstr(v, 15), nstr(want, 15), show(t, 3)[:120]))
                    except (NoEval, ZeroDivisionError, ValueError, OverflowError, TypeError, KeyError): res.append(None)
                for k, x in xs:
                    if J.ef_rd(w, ptr('X%d' % k)) is not x: res[-1] = 'changes its operand'
            if res and all(res): return ('viol', '%s: %s(%s) %s' % (cfg, g.norm, ', '.join(nstr(M(a), 8) for a in args), next((r for r in res if r != 'is not finite'), res[0])), n)
    return ('ok' if n else 'undec', '%s: %s: no point decided' % (cfg, g.norm), n)

# ---------------------------------------------------------------- call sites
MIS = []
class FLW(FLX):
    """Capability flags are unknown; own implementations are the functions they are named after."""
    def resolve(s, fn):
        q = re.search(r'::i_have_my_own_(\w+)\(\) const$', fn.norm)
        if q:
            t = mk('icmp', 'ne', mk('iu', 8, mk('sym', 'own_' + q.group(1))), I(0, 8))
            return lambda I_, st, f, a, x: [(st, t)]
        q = re.search(r'(?:EF|e_float_base)::my_own_(\w+)\(', fn.norm)
        if q:
            nm = q.group(1)
            def h(I_, st, f, a, x):
                fl = mk('icmp', 'ne', mk('iu', 8, mk('sym', 'own_' + nm)), I(0, 8))
                ok = any(c is fl and b for _, _, c, b in st.decisions())
                st.ev = (('own', nm, ok, I_.where), st.ev)
                if not ok: MIS.append((nm, I_.where))
                v = []
                for k, p in enumerate(a[1:]): v.append(I_.ef_rd(st, p) if p.op == 'p' else p)
                import spec
                if nm in spec.UN and len(v) == 1: t = I_.e_fun(st, nm, v, spec.unary(nm, I_.getcls(st, v[0])))
                else: t = I_.e_fun(st, nm, v, ALL)
                I_.ef_wr(st, a[0], t); return [(st, a[0])]
            return h
        return FLX.resolve(s, fn)

def sites(cfg):
    m = MODS[cfg]; out = {}
    for f in m.fns.values():
        if f.decl: continue
        for b in f.blocks:
            for x in b:
                c = x.get('f')
                g = m.fns.get(c[1]) if isinstance(c, (list, tuple)) and len(c) == 2 and c[0] == 'fn' else None
                if g is not None and re.search(r'::my_own_\w+\(', g.norm): out.setdefault(f.norm, set()).add(g.norm)
    return out

FLAG = [M(1)]
class EvI(arith.EvB):
    """Own implementations of Bessel functions and roots."""
    def ev(s, t):
        if t.op in ('f:cyl_bessel_jn', 'f:cyl_bessel_yn'): return SPECIAL[t.op[2:]](int(s.iv(t.args[0])), s(t.args[1]))
        return arith.EvB.ev(s, t)
class EvW(evalt.EvR):
    """All capability flags on, or all off."""
    def ev(s, t):
        if t.op == 'sym' and isinstance(t.args[0], str) and t.args[0].startswith('own_'): return FLAG[0]
        return evalt.EvR.ev(s, t)

def run(task):
    cfg, kind, a = task
    try:
        if kind == 'impl': return impl(cfg, a)
        if kind == 'prim': k, i, n, u, p = arith.run(a); return (k, i, n)
        del MIS[:]
        formula.FLX = FLW; formula.EvR = EvW; FLAG[0] = M(1 if kind == 'on' else 0)
        k, i, n, u, p = formula.run(a)
        if k == 'viol': i = '%s (capability flags %s)' % (i, kind)
        if MIS and k != 'broken':
            nm, w = MIS[0]
            return ('viol', '%s: %s uses the own implementation of %s without asking whether there is one (%s:%s)' % (cfg, a[1], nm, w[0].loc.split('/')[-1], w[1].get('l')), n)
        return (k, i, n)
    except Imprecise as e: return ('undec', '%s %s %s: %s' % (cfg, kind, a if isinstance(a, str) else a[1:3], e), 0)
    except ir.Broken as e: return ('broken', str(e), 0)

def main():
    rep = report.Report('C13')
    for c in ('efx', 'gmp', 'mpfr'): MODS[c] = arith.MODS[c] = formula.MODS[c] = handles.MODS[c] = ir.load_lib(c)
    formula.SIZES.update(table_sizes()); evalt.SIZES.update(formula.SIZES)
    ts = []
    for c in MODS:
        fl = flags(c); rep.count('capability_flags', len(fl))
        ts += [(c, 'impl', n) for n in sorted(fl)]
    FT = formula.tasks()
    for c in MODS:
        SI = sites(c); rep.count('functions_with_own_fast_path', len(SI))
        for t in FT:
            if t[0] == c and t[1] in SI: ts += [(c, 'on', t), (c, 'off', t)]
        rest = sorted(x for x in SI if x not in {t[1] for t in FT})
        for x in rest: rep.undecided('%s: %s has an own fast path and no oracle' % (c, x))
    R = {S, NS, NL, L}
    for c in ('gmp', 'mpfr'):
        for t in arith.tasks():
            if t[0] != c: continue
            if t[1] == 'bin' and t[3] in R and t[4] in R or t[1] == 'int' and t[3] in R or t[1] == 'un' and t[3] in R: ts.append((c, 'prim', t))
    with Pool(8) as P:
        for t, (k, info, n) in zip(ts, P.imap(run, ts, chunksize=2)):
            rep.count({'impl': 'flags_interpreted', 'on': 'call_site_functions', 'off': 'call_site_functions', 'prim': 'primitive_cases'}[t[1]]); rep.count('points', n)
            if k == 'viol': rep.violation('%s:%s' % (t[1], t[2] if t[1] == 'impl' else t[2][2]), info)
            elif k == 'undec': rep.undecided(info)
            elif k == 'broken': raise ir.Broken(info)
            elif k != 'off': rep.count('decided')
    rep.need('capability_flags', 40); rep.need('functions_with_own_fast_path', 30); rep.need('decided', 300)
    return rep.finish('Capability flags interpreted and the own implementation of every announced function compared, as a term over the foreign library operations, with the function; functions with a fast path interpreted with unknown flags; '
                      'arithmetic primitives of the wrapped back ends on finite operands compared with the exact operation; rounding arguments of value-producing library operations.')

if __name__ == '__main__':
    report.main(main)
