"""C08: mixed arithmetic and comparisons mean what the operators say.

Part 1 (all back ends): every operator u op n, n op u, u op= n and comparison, instantiated for 15 built-in
types, is interpreted with symbolic operands; the extracted result must be u op (value of n) as a function
of the operands.  Built-in integers are modelled bit-precisely, including their extreme values."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from multiprocessing import Pool
import mpmath
from evalt import nstr, Ev, NoEval
mp = mpmath.mp
D = Alg()
M = mpmath.mpf
MODS = {}
TYPES = {'b': (1, 0, 8), 'c': (8, 1, 8), 'sc': (8, 1, 8), 'uc': (8, 0, 8), 's': (16, 1, 16), 'us': (16, 0, 16), 'i': (32, 1, 32), 'u': (32, 0, 32), 'l': (64, 1, 64), 'ul': (64, 0, 64), 'll': (64, 1, 64), 'ull': (64, 0, 64),
         'f': ('float', 4), 'd': ('double', 8), 'ld': ('x86_fp80', 10)}
def div(a, b): return a / b if b != 0 else None
OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': div}
CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ge': lambda a, b: a >= b, 'gt': lambda a, b: a > b}

def tasks():
    t = []
    for N in TYPES:
        for o, f in OPS.items():
            t.append(('%s_ef_%s' % (o, N), 'un', N, 'r', o)); t.append(('%s_bi_%s' % (o, N), 'nu', N, 'r', o)); t.append(('i%s_%s' % (o, N), 'Un', N, 'U', o))
        for o in CMP: t.append(('%s_ef_%s' % (o, N), 'un', N, 'b', o)); t.append(('%s_bi_%s' % (o, N), 'nu', N, 'b', o))
        t.append(('ctor_' + N, 'n', N, 'r', 'val')); t.append(('asg_' + N, 'Un', N, 'U', 'second'))
    for o in OPS: t.append((o + '_ef_ef', 'uu', None, 'r', o)); t.append(('i%s_ef' % o, 'Uu', None, 'U', o))
    for o in CMP: t.append((o + '_ef_ef', 'uu', None, 'b', o))
    t += [('asg_ef', 'Uu', None, 'U', 'second'), ('asgmove_ef', 'Uu', None, 'U', 'second'), ('neg_ef', 'u', None, 'r', 'neg'), ('pos_ef', 'u', None, 'r', 'val'),
          ('preinc', 'U', None, 'U', 'inc'), ('predec', 'U', None, 'U', 'dec'), ('postinc', 'V', None, 'r', 'inc'), ('postdec', 'V', None, 'r', 'dec')]
    return t
FUN = dict(OPS, **CMP)
FUN.update(val=lambda a: a, second=lambda a, b: b, neg=lambda a: -a, inc=lambda a: a + 1, dec=lambda a: a - 1)

rnd = random.Random(8)
def ivals(w, sg):
    if w == 1: return [0, 1]
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    v = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 7, 100}
    if sg: v |= {-1, -2, -7, -100}
    if w >= 32: v |= {x for b in (30, 31, 32, 62, 63) for x in ((1 << b) - 1, 1 << b, -(1 << b)) if lo <= x <= hi}
    return sorted(v) + [rnd.randint(lo, hi) for _ in range(4)]
UV = [M(0), M(1), M(-1), M(2), M(-2), M(1) / 3, M(-7) / 3, M('1e30'), M('-1e30'), M('3.75'), M(10) ** -25]
FV = [M(0), M(1), M(-1), M('0.5'), M('-2.25'), M(1234567), M(-1) / 1024, M(3) * 2 ** 40]

def run(task):
    cfg, name, kinds, N, rk, op = task
    m = MODS[cfg]
    fn = next((f for f in m.fns.values() if f.norm.startswith('vdrv::%s(' % name)), None)
    if fn is None: return ('broken', 'driver function %s not found' % name, 0)
    J = Interp(m, D, FL(m, D, readonly=('X1',) if kinds[0] in 'UV' else ('X0', 'X1')), max_paths=600); SZ = J.SZ
    st = St(); av = []
    if fn.args and fn.args[0].get('sret'): av.append(ptr('R')); st.mem['R'] = {}
    for k, kd in enumerate(kinds):
        ob = 'X%d' % k
        if kd in 'uUV':
            a = D.sym('a%d' % k); st.mem[ob] = {0: (SZ, a)}; st.cls[D.canon_sign(a)[0]] = FIN
        else:
            ty = TYPES[N]
            if isinstance(ty[0], int): st.mem[ob] = {0: (ty[2] // 8, mk('zext', 8, mk('iu', 1, mk('sym', 'a%d' % k))) if N == 'b' else mk('iu', ty[2], mk('sym', 'a%d' % k)))}
            else: st.mem[ob] = {0: (ty[1], mk('du', ty[0], mk('sym', 'a%d' % k)))}
        av.append(ptr(ob))
    pts = []
    def other():
        if N is None: return UV
        ty = TYPES[N]
        if isinstance(ty[0], int): return [M(x) for x in ivals(ty[0], ty[1])]
        d = {'float': 24, 'double': 53, 'x86_fp80': 64}[ty[0]]      # values that need every bit of the type
        return FV + [M(2 ** d - 1) / 2 ** 20, -M(2 ** (d - 1) + 1) / 2 ** 60]
    for i, kd in enumerate(kinds): pass
    O = other()
    if len(kinds) == 1: pts = [[x] for x in (O if kinds == 'n' else UV)]
    else:
        for y in O:
            for x in UV + [y, y + 1, y - 1, y + M(1) / 2, -y]: pts.append([x, y] if kinds[0] in 'uU' else [y, x])
    # the one-bit value of a bool is -1 in its signed reading
    def val(i, v): return M(-1) if N == 'b' and kinds[i] == 'n' and v == 1 else v
    try: res = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s: %s' % (cfg, name, e), 0)
    evs = [(p, Ev({'a%d' % i: val(i, v) for i, v in enumerate(p)})) for p in pts]
    hit = 0; bad = []; und = []
    for z, r in res:
        for e in z.events():
            if e[0] == 'write' and e[1] in ('X0', 'X1'): bad.append('%s: %s writes its read-only operand at %s' % (cfg, name, e[4][0].loc if e[4] else '?'))
        vals = []
        if rk == 'r': vals.append(('result', J.ef_rd(z, ptr('R')), FUN[op] if kinds != 'V' else FUN['val']))
        if kinds == 'V': vals.append(('operand after', J.ef_rd(z, ptr('X0')), FUN[op]))
        if rk == 'U':
            vals.append(('left operand', J.ef_rd(z, ptr('X0')), FUN[op]))
            if r is None or r.op != 'p': bad.append('%s: %s does not return its left operand' % (cfg, name))
            elif r.args != ('X0', 0): bad.append('%s: %s does not return its left operand but %s' % (cfg, name, show(r)))
        if rk == 'b': vals.append(('truth value', r, FUN[op]))
        dec = z.decisions()
        for p, ev in evs:
            try:
                if not all(ev.truth(c) == q for _, _, c, q in dec): continue
                hit += 1
                for what, t, f in vals:
                    want = f(*p)
                    if want is None: continue
                    if rk == 'b': got = ev.truth(t); good = got == want
                    else: got = ev(t); good = (got == want) or (mpmath.isfinite(got) and abs(got - want) <= M(10) ** -30 * max(abs(got), abs(want)))
                    if not good:
                        bad.append('%s: %s(%s): the %s is %s, not %s; term %s; path %s' % (cfg, name, ', '.join(nstr(x, 25) for x in p), what, got, want, show(t, 3)[:200],
                                   ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x.get('l'), q) for f, x, _, q in dec) or '(straight)')); raise StopIteration
            except StopIteration: break
            except NoEval as e: und.append('%s %s: term not interpretable (%s)' % (cfg, name, e)); break
            except (ZeroDivisionError, OverflowError, ValueError): continue
    if bad: return ('viol', bad[0], len(res))
    if und or not hit: return ('undec', und[0] if und else '%s %s: no sample on any path' % (cfg, name), len(res))
    return ('ok', hit, len(res))


def main():
    rep = report.Report('C08')
    ts = []
    for c in ('efx', 'gmp', 'mpfr'):
        MODS[c] = ir.load_lib(c)
        ts += [(c,) + t for t in tasks()]
    with Pool(8) as P:
        for t, (k, info, n) in zip(ts, P.imap(run, ts, chunksize=4)):
            rep.count('operators'); rep.count('paths', n)
            if k == 'viol': rep.violation(t[1], info)
            elif k == 'broken': raise ir.Broken(info)
            elif k == 'undec': rep.undecided(info)
            else: rep.count('decided'); rep.count('point_evaluations_of_terms', info)
    rep.need('operators', 1000); rep.need('decided', 900)
    return rep.finish('Result term of every mixed operator, comparison, conversion and increment, for 15 built-in types, both operand orders and three back ends, extracted from the IR on every path and compared, as a function of the operands '
                      '(machine integers bit-precise), with the operation the operator names.')


if __name__ == '__main__':
    report.main(main)
