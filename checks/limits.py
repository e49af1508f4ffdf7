"""C17: numeric_limits describes the back end truthfully.

Every member of std::numeric_limits<e_float> is interpreted (constants of the class and of the specialisation, and the functions that return
numbers, down to the literal text each number is built from), for each back end at two digit settings, and compared with its definition."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from flx import Lit, STR
from fractions import Fraction
import math
sys.set_int_max_str_digits(0)
D = Free()
DRV = 'vdrv::'

class LP(Lit):
    def resolve(s, fn):
        n = fn.norm
        if re.fullmatch(r'(EF|e_float_base)::my_value_(max|min)\(\) const', n) and not fn.decl: return False
        def put(I_, st, p, t): I_.wr(st, p, 32, mk('strv', t))
        if n.startswith(STR + '::basic_string(unsigned long, char') or n.startswith((STR + '::append(unsigned long, char)', STR + '::assign(unsigned long, char)')):
            def h(I_, st, fn, a, x):
                if a[1].op != 'i' or a[2].op != 'i' or a[1].args[0] > 1 << 22: return I_.opaque(st, fn, a, x, x.get('t', 'void'))
                t = chr(a[2].args[0] & 255) * a[1].args[0]
                if '::append(' in n:
                    o = s.text(I_, st, a[0])
                    if o is None: return I_.opaque(st, fn, a, x, x.get('t', 'void'))
                    t = o + t
                put(I_, st, a[0], t); return [(st, a[0] if x.get('t') == 'ptr' else None)]
            return h
        if re.match(r'(%s )?(Util::lexical_cast<(int|long|unsigned int|unsigned long)>\(|std::(__cxx11::)?to_string\()' % re.escape(STR), n):
            byval = 'to_string' in n; uns = 'unsigned' in n; w = 64 if 'long' in n else 32
            def h(I_, st, fn, a, x):
                v = a[1] if byval else I_.rd(st, a[1], w // 8, 'i%d' % w)
                if v.op != 'i': return I_.opaque(st, fn, a, x, 'void')
                k = v.args[0] & ((1 << w) - 1)
                if not uns and k >> (w - 1): k -= 1 << w
                put(I_, st, a[0], str(k)); return [(st, None)]
            return h
        if n.startswith((STR + '::push_back(char)', STR + '::operator+=(char)')):
            def h(I_, st, fn, a, x):
                o = s.text(I_, st, a[0])
                if o is None or a[1].op != 'i': return I_.opaque(st, fn, a, x, x.get('t', 'void'))
                put(I_, st, a[0], o + chr(a[1].args[0] & 255)); return [(st, a[0] if x.get('t') == 'ptr' else None)]
            return h
        return Lit.resolve(s, fn)

def ptr(o): return mk('p', o, 0)

def num(t):
    """(sign, digits without point, exponent of ten of the last digit) of a literal, or None."""
    t = t.strip()
    m = re.fullmatch(r'([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?', t)
    if not m or not (m.group(2) or m.group(3)): return None
    d = m.group(2) + (m.group(3) or ''); e = int(m.group(4) or 0) - len(m.group(3) or '')
    z = d.rstrip('0'); e += len(d) - len(z)
    return (-1 if m.group(1) == '-' else 1), z.lstrip('0') or '0', e if z else 0

ALLC = 'is_specialized is_signed is_integer is_exact is_bounded is_modulo is_iec559 digits digits10 max_digits10 min_exponent min_exponent10 max_exponent max_exponent10 radix has_infinity has_quiet_NaN'.split()
TRUE = 'is_specialized is_signed is_bounded has_infinity has_quiet_NaN'.split()
FALSE = 'is_integer is_exact is_modulo is_iec559'.split()
L102 = math.log10(2)

class One:
    def __init__(s, rep, m, tag): s.rep = rep; s.m = m; s.tag = tag
    def bad(s, member, text): s.rep.violation('numeric_limits::' + member, '%s: numeric_limits<e_float>::%s %s' % (s.tag, member, text))
    def val(s, sig):
        fn = s.m.need(DRV + sig + '()'); J = Interp(s.m, D, LP(s.m, D, contracts=False, inline=()), max_steps=400000)
        r = J.run_fn(fn, [], St(), mk('site', 'root'))
        v = {t for _, t in r}
        if len(v) != 1: raise Imprecise(sig)
        v = v.pop()
        if v.op != 'i': raise Imprecise(sig)
        k = v.args[0] & (2 ** 64 - 1)
        return k - 2 ** 64 if k >> 63 else k
    def number(s, member):
        """('num', sign, digits, exponent) | ('cls', mask)."""
        sig = DRV + 'nl_' + member + '()'; fn = s.m.need(sig)
        ks = {f.norm for f in s.m.fns.values() if re.fullmatch(r'ef::value_\w+\(\)', f.norm)} | {sig}
        J = Interp(s.m, D, LP(s.m, D, contracts=False, inline=ks), max_steps=400000); J.policy.raw = True
        r = J.run_fn(fn, [], St(), mk('site', 'root'))
        if len(r) != 1: raise Imprecise(member)
        t = J.ef_rd(r[0][0], r[0][1]); g = 1; cl = J.getcls(r[0][0], t)
        while t.op == 'neg': t = t.args[0]; g = -g
        if t.op == 'sym' and type(t.args[0]) is tuple and t.args[0][0] == 'lit':
            v = num(t.args[0][1])
            if v is None: return ('text', t.args[0][1], 0, 0)
            return ('num', v[0] * g, v[1], v[2])
        q = D.isnum(t)
        if q is None and t.op == 'f:fromdbl' and t.args[0].op == 'd' and math.isfinite(t.args[0].args[0]): q = Fraction(t.args[0].args[0])
        if q is not None:
            q = Fraction(q) * g
            if q == 0: return ('num', 1, '0', 0)
            e = 0; n, d = abs(q.numerator), q.denominator
            while d != 1 and e > -5000:
                k = math.gcd(10, d)
                if k == 1: return ('num?', show(t, 3), 0, 0)
                n *= 10; e -= 1; k = math.gcd(n, d); n //= k; d //= k
            z = str(n).rstrip('0'); return ('num', 1 if q > 0 else -1, z, e + len(str(n)) - len(z))
        return ('cls', cl, show(t, 3), g)

def check(rep, cfg, flags):
    tag = cfg + (' (many digits)' if flags else '')
    m = ir.load_lib(cfg, flags=flags)
    o = One(rep, m, tag); V = {}; E = {}
    for c in ALLC:
        try: V[c] = o.val('nlc_' + c); rep.count('members')
        except Imprecise: rep.undecided('%s: %s' % (tag, c))
    for c in 'ef_digits10_setting ef_digits10 ef_max_digits10 ef_digits ef_radix ef_min_exp ef_min_exp10 ef_max_exp ef_max_exp10'.split():
        try: E[c] = o.val('efc_' + c); rep.count('constants')
        except Imprecise: rep.undecided('%s: %s' % (tag, c))
    for c in TRUE:
        if V.get(c) == 0: o.bad(c, 'is false')
    for c in FALSE:
        if V.get(c, 0) != 0: o.bad(c, 'is true')
    def eq(member, other):
        if member in V and other in E and V[member] != E[other]: o.bad(member, 'is %d, the type has %s = %d' % (V[member], other, E[other]))
    for a, b in (('digits', 'ef_digits'), ('digits10', 'ef_digits10'), ('max_digits10', 'ef_max_digits10'), ('min_exponent', 'ef_min_exp'), ('min_exponent10', 'ef_min_exp10'), ('max_exponent', 'ef_max_exp'), ('max_exponent10', 'ef_max_exp10'), ('radix', 'ef_radix')): eq(a, b)
    if len(V) < len(ALLC): return
    st = E['ef_digits10_setting']
    if V['digits10'] != max(30, min(st, 1 << 30)): o.bad('digits10', 'is %d for a setting of %d digits' % (V['digits10'], st))
    if V['max_digits10'] <= V['digits10']: o.bad('max_digits10', 'is %d, not more than digits10 = %d' % (V['max_digits10'], V['digits10']))
    if not (V['min_exponent'] < 0 < V['max_exponent'] and V['min_exponent10'] < 0 < V['max_exponent10']): o.bad('max_exponent', 'and min_exponent do not enclose zero')
    if V['radix'] == 10:
        if V['digits'] != V['digits10']: o.bad('digits', 'is %d decimal digits, digits10 is %d' % (V['digits'], V['digits10']))
        for q in ('min', 'max'):
            if V[q + '_exponent'] != V[q + '_exponent10']: o.bad(q + '_exponent', 'is %d in radix 10, %s_exponent10 is %d' % (V[q + '_exponent'], q, V[q + '_exponent10']))
    elif V['radix'] == 2:
        if not -1 < V['digits'] * L102 - V['digits10'] < 2 + V['digits10'] / 1000: o.bad('digits', '= %d bits do not match digits10 = %d' % (V['digits'], V['digits10']))
        for q in ('min', 'max'):
            x = abs(V[q + '_exponent']) * L102; y = abs(V[q + '_exponent10'])
            if not x * 0.999 - 1 <= y <= x + 1: o.bad(q + '_exponent10', 'is %d, the binary exponent %d spans 10^%d' % (V[q + '_exponent10'], V[q + '_exponent'], int(math.copysign(x, V[q + '_exponent']))))
    else: o.bad('radix', 'is %d' % V['radix'])
    # numbers
    N = {}
    for c in 'min max lowest epsilon round_error infinity quiet_NaN denorm_min signaling_NaN'.split():
        try: N[c] = o.number(c)
        except Imprecise: rep.undecided('%s: %s()' % (tag, c)); continue
        rep.count('numbers')
    def text(v): return '%s%s.%se%d' % ('-' if v[1] < 0 else '', v[2][0], v[2][1:12] + ('...' if len(v[2]) > 12 else ''), v[3] + len(v[2]) - 1) if v[0] == 'num' else 'the number %s' % (v[2] if v[0] == 'cls' else v[1])
    def known(c, want):
        v = N.get(c)
        if v is None: return None
        if v[0] == 'num': return v
        if v[0] == 'text': o.bad(c + '()', 'is built from "%s", which is not a number' % str(v[1])[:40]); return None
        if v[0] == 'cls' and not v[1] & want: o.bad(c + '()', 'is %s, not finite' % v[2]); return None
        rep.undecided('%s: %s() is %s' % (tag, c, v[2] or v[1])); return None
    d10 = V['digits10']
    v = known('max', L | NL)
    def topmax(v, sgn, c):
        e = v[3] + len(v[2]) - 1
        nines = len(v[2]) - len(v[2].lstrip('9'))
        if v[1] != sgn or e != V['max_exponent10'] or nines < d10: o.bad(c + '()', 'is %s; it must be %s9.99... with at least %d nines times ten to max_exponent10 = %d' % (text(v) + (' (%d nines)' % nines if nines else ''), '-' if sgn < 0 else '', d10, V['max_exponent10']))
    if v: topmax(v, 1, 'max')
    w = known('lowest', L | NL)
    if w:
        topmax(w, -1, 'lowest')
        if v and (v[1], v[2], v[3]) != (-w[1], w[2], w[3]): o.bad('lowest()', 'is %s, not the negative of max() = %s' % (text(w), text(v)))
    v = known('min', S)
    if v and (v[1], v[2], v[3]) != (1, '1', V['min_exponent10']): o.bad('min()', 'is %s, must be 1e%d' % (text(v), V['min_exponent10']))
    v = known('epsilon', S)
    if v and (v[1], v[2], v[3]) != (1, '1', 1 - d10): o.bad('epsilon()', 'is %s, must be 1e%d' % (text(v), 1 - d10))
    v = known('round_error', ALL)
    if v and (v[1], v[2], v[3]) != (1, '5', -1): o.bad('round_error()', 'is %s, must be one half' % text(v))
    for c in ('denorm_min', 'signaling_NaN'):
        v = known(c, ALL)
        if v and v[2] != '0': o.bad(c + '()', 'is %s, must be zero as there is none' % text(v))
    for c, want, nm in (('infinity', PINF, 'plus infinity'), ('quiet_NaN', NAN, 'not a number')):
        v = N.get(c)
        if v is None: continue
        if v[0] == 'num': o.bad(c + '()', 'is the number %s' % text(v))
        elif v[0] == 'cls' and not (v[1] & want): o.bad(c + '()', 'is %s, must be %s' % (v[2], nm))
        elif v[0] == 'cls' and v[1] != want: rep.undecided('%s: %s()' % (tag, c))

def main():
    rep = report.Report('C17')
    for cfg in ('efx', 'gmp', 'mpfr'):
        for fl in ((), ('-DE_FLOAT_TEST_PI_ALGOS_TESTS',)): check(rep, cfg, fl)
    rep.need('members', 60); rep.need('constants', 40); rep.need('numbers', 30)
    return rep.finish('Every constant and number of numeric_limits, extracted from the IR of the current sources by interpreting the functions that return it (numbers down to the literal text they are built from), compared with its definition.')

if __name__ == '__main__':
    report.main(main)
