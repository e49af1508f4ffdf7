"""C16: text output denotes the number, rounded to the digits asked for, in every stream format."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from flx import FLX, STR
from strs import *
from multiprocessing import Pool
DF = Free()
MODS = {}

class Layout(Strings, FLX):
    """The number is an order of magnitude and abstract digits; the text is laid out by the code under analysis."""
    forks = 400
    def __init__(s, mod, D, e, zero, **k): s.e = e; s.zero = zero; s.m = mod; super().__init__(mod, D, sizes={}, **k)
    def resolve(s, fn):
        n = fn.norm
        if re.fullmatch(r'(EF|e_float_base)::get_order_(exact|fast)\(\) const', n):
            if 'fast' in n: return None
            return lambda I_, st, fn, a, x: [(st, I(s.e, 64))]
        if re.match(r'(EF|e_float_base)::get_output_string\(%s&, long&, unsigned long\) const' % re.escape(STR), n): return s.digits
        r = s.resolve_str(fn)
        if r is not None: return r
        if not fn.decl and (not re.match(r'(EF|ef|std)::', n) or re.match(r'%s \w' % re.escape(STR), n)): return False
        return super().resolve(fn)
    def digits(s, I_, st, fn, a, x):
        n = s.un(a[3])
        if n is None: raise Imprecise('number of digits')
        if n == 0: s.bad(I_, st, 'asks for no digits at all'); return []
        if n > 100000: s.bad(I_, st, 'asks for %d digits' % n); return []
        if s.zero:
            s.put(I_, st, a[1], s.lit('0' * n)); I_.wr(st, a[2], 8, I(0, 64)); st.tag['digits'] = (n, 0); return [(st, None)]
        z = st.copy()
        d = [mk('iu', 8, mk('dig', n, k)) for k in range(n)]
        for k, t in enumerate(d): I_.setrng(st, t, (49 if k == 0 else 48, 57))
        s.put(I_, st, a[1], d); I_.wr(st, a[2], 8, I(s.e, 64)); st.tag['digits'] = (n, 0)
        s.put(I_, z, a[1], s.lit('1' + '0' * (n - 1))); I_.wr(z, a[2], 8, I(s.e + 1, 64)); z.tag['digits'] = (n, 1)
        return [(st, None), (z, None)]

WR = 'operator<<(std::ostream&, e_float_base const&)'
def runcell(m, cell):
    """[(state, text)], thrown, events for one cell (class, exponent, flags, precision, width, fill)."""
    cls, e, flags, prec, width, fill = cell
    fn = m.need(WR)
    P = Layout(m, DF, e, cls == Z, contracts=False, inline=()); P.raw = True
    J = SInterp(m, DF, P, max_steps=4000000, unroll=400); J.max_paths = 2000
    st = St(); x = DF.sym('x'); J.setcls(st, x, cls)
    J.ef_wr(st, mk('p', 'X', 0), x)
    P.newstream(J, st, mk('p', 'OS', 0))
    st.tag[('ios', 'OS')] = dict(flags=flags, precision=prec, width=width, fill=fill)
    r = J.run_fn(fn, [mk('p', 'OS', 0), mk('p', 'X', 0)], st, mk('site', 'root'))
    return J, P, r

# ---------------------------------------------------------------- expected text
DIGITS10, MAXD = 101, 102      # (set from the code by setlimits)
ZERO = I(48, 8)
class No(Exception): pass

def known(J, st, t):
    """Character code of a term, or None when several are possible."""
    if t.op == 'i': return t.args[0] & 255
    r = J.rng(st, t)
    return r[0] if r[0] == r[1] else None
def notzero(J, st, t):
    r = J.rng(st, t); return r[0] > 48 or r[1] < 48
def same(J, st, a, b):
    if a is b or a == b: return True
    u, v = known(J, st, a), known(J, st, b)
    return u is not None and u == v
def show_(J, st, ch):
    def one(c):
        k = known(J, st, c)
        if k is not None: return chr(k)
        if c.op == 'iu' and isinstance(c.args[1], T) and c.args[1].op == 'dig': return '<%d/%d>' % (c.args[1].args[1] + 1, c.args[1].args[0])
        return '<%s>' % show(c, 3)
    return ''.join(one(c) for c in ch)

def digs(n, carry, zero):
    if zero: return [ZERO] * n
    if carry: return [I(49, 8)] + [ZERO] * (n - 1)
    return [mk('iu', 8, mk('dig', n, k)) for k in range(n)]
def at(d, e, k):
    """The digit at 10**k of the number with digits d and exponent e."""
    i = e - k
    return d[i] if 0 <= i < len(d) else ZERO
def L_(t): return [I(ord(c), 8) for c in t]

class Want:
    """Alternatives of the expected text on one path; None: the path must not exist / is not decided."""
    def __init__(s, J, st, cell): s.J, s.st = J, st; s.cls, s.e, s.flags, s.prec, s.width, s.fill = cell
    def field(s):
        return 'sci' if s.flags & FL_SCI else 'fixed' if s.flags & FL_FIXED else 'none'
    def expo(s, e):
        t = '%s%s' % ('E' if s.flags & FL_UPPER else 'e', '-' if e < 0 else '+')
        return t, abs(e)
    def frac(s, ch, trim, point):
        """Fraction characters with trailing zeros removed when trim; raises when a digit may or may not be zero."""
        ch = list(ch)
        if trim:
            while ch and known(s.J, s.st, ch[-1]) == 48: ch.pop()
            if ch and not notzero(s.J, s.st, ch[-1]): raise No('whether %s is a trailing zero is not considered' % show_(s.J, s.st, ch[-1:]))
        return (L_('.') + ch) if ch or point else []
    def bodies(s, got):
        """[(mantissa, exponent or None)] acceptable, and the number of digits to be asked for."""
        J, st = s.J, s.st
        P = s.prec if s.prec > 0 else 6; f = s.field(); zero = s.cls == Z; e = 0 if zero else s.e
        point = bool(s.flags & FL_SHOWPOINT)
        n, carry = got if got else (0, 0)
        if f == 'fixed':
            want = min(e + 1 + P, MAXD + 1)
            if want <= 0:
                if want < 0 and n == 0: d, ee = [], e
                elif want < 0: d, ee = [], e
                elif n == MAXD + 1 or n == 1:
                    first = digs(n, carry, zero)[0]
                    r = J.rng(st, first)
                    up = bool(carry) or r[0] >= 53
                    if not up and r[1] >= 53: raise No('the first lost digit %s is not considered when the last place is rounded' % show_(J, st, [first]))
                    d, ee = ([I(49, 8)], -P) if up else ([], e)
                else: raise No('the value of a number below the last place is not considered (%s digits)' % n)
            else:
                if n != want: raise No('%d digits of the number are used, the format shows %d' % (n, want))
                d, ee = digs(n, carry, zero), e + carry
            ip = [at(d, ee, k) for k in range(max(ee, 0), -1, -1)] if ee >= 0 else [ZERO]
            return [(ip + s.frac([at(d, ee, -k) for k in range(1, P + 1)], False, point), None)]
        if f == 'sci':
            want = min(P + 1, MAXD + 1)
            if n != want: raise No('%d digits of the number are used, the format shows %d' % (n, want))
            d, ee = digs(n, carry, zero), (0 if zero else e + carry)
            return [(d[:1] + s.frac((d[1:] + [ZERO] * P)[:P], False, point), ee)]
        want = min(P, MAXD)
        if n != want: raise No('%d digits of the number are used, the format shows %d' % (n, want))
        d, ee = digs(n, carry, zero), (0 if zero else e + carry)
        out = []
        hi = min(DIGITS10, max(P, 6))
        for sci in sorted({q < -4 or q >= hi for q in (e, ee)}):
            if sci:
                fr = d[1:] + [ZERO] * (P - n)
                out.append((d[:1] + s.frac(fr, not point, point), ee))
            else:
                ip = [at(d, ee, k) for k in range(ee, -1, -1)] if ee >= 0 else [ZERO]
                nf = (P - ee - 1) if not zero else P
                fr = [at(d, ee, -k) for k in range(1, max(nf, 0) + 1)]
                out.append((ip + s.frac(fr, not point, point), None))
                if zero and point: out.append((ip + s.frac(fr[:-1], False, point), None))
        return out
    def check(s, text, got):
        J, st = s.J, s.st
        if s.cls in (PINF, NINF, NAN):
            neg = s.cls == NINF; t = 'nan' if s.cls == NAN else 'inf'
            if s.flags & FL_UPPER: t = t.upper()
            sg = ['-'] if neg else ['+'] if s.flags & FL_SHOWPOS else ['']
            if s.cls == NAN: sg = ['', '+'] if s.flags & FL_SHOWPOS else ['']
            return s.fit(text, [(L_(g + t), None) for g in sg], False)
        neg = s.cls in (NS, NL)
        sg = L_('-' if neg else '+' if s.flags & FL_SHOWPOS else '')
        return s.fit(text, [(sg + m, x) for m, x in s.bodies(got)], True)
    def fit(s, text, alts, numeric):
        """True when the text is one of the alternatives, filled to the width."""
        for m, x in alts:
            if s.fits(text, m, x): return True
        if text and alts:
            m, x = alts[0]
            e = '' if x is None else '%s%d' % s.expo(x)
            raise No('the text is "%s", expected "%s%s"%s' % (show_(s.J, s.st, text), show_(s.J, s.st, m), e, ' filled to width %d' % s.width if s.width else ''))
        return False
    def fits(s, text, m, x):
        J, st = s.J, s.st; fill = I(s.fill, 8); W = s.width
        left = s.flags & (FL_LEFT | FL_INTERNAL) == FL_LEFT
        def core(t):
            if len(t) < len(m) or not all(same(J, st, a, b) for a, b in zip(t, m)): return False
            r = t[len(m):]
            if x is None: return not r
            if any(known(J, st, c) is None for c in r): return False
            r = ''.join(chr(known(J, st, c)) for c in r)
            p, v = s.expo(x)
            return r.startswith(p) and len(r) - len(p) >= 2 and r[len(p):].isdigit() and int(r[len(p):]) == v
        if len(text) > W or not W: return core(text)
        if len(text) < W: return False
        for k in range(W + 1):
            if left: b, f = text[:W - k], text[W - k:]
            else: b, f = text[k:], text[:k]
            if all(same(J, st, c, fill) for c in f) and core(b): return True
        if s.flags & FL_INTERNAL:
            for k in range(W):
                if all(same(J, st, c, fill) for c in text[1:1 + k]) and core(text[:1] + text[1 + k:]): return True
        return False

def setlimits(m):
    global DIGITS10, MAXD
    from limits import One
    o = One(None, m, ''); DIGITS10 = o.val('nlc_digits10'); MAXD = o.val('nlc_max_digits10')

FIELD = {'scientific': FL_SCI, 'fixed': FL_FIXED, 'default': 0}
def describe(cell):
    cls, e, flags, prec, width, fill = cell
    c = {Z: 'zero', PINF: 'infinity', NINF: 'minus infinity', NAN: 'NaN'}.get(cls) or ('a %snumber of order 1e%d' % ('negative ' if cls in (NS, NL) else '', e))
    f = 'scientific' if flags & FL_SCI else 'fixed' if flags & FL_FIXED else 'default'
    x = [n for n, b in (('showpoint', FL_SHOWPOINT), ('showpos', FL_SHOWPOS), ('uppercase', FL_UPPER), ('left', FL_LEFT), ('right', FL_RIGHT), ('internal', FL_INTERNAL)) if flags & b]
    return '%s, %s format, precision %d%s%s' % (c, f, prec, ''.join(', ' + n for n in x), ', width %d filled with "%s"' % (width, chr(fill)) if width else '')
PRECS = (0, 1, 2, 3, 6, 7, 17, 99, 100, 101, 102, 103, 104, 120)
EXPS = (-1000, -121, -104, -103, -102, -30, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 7, 8, 17, 20, 99, 100, 101, 102, 103, 150, 12345)
def cells():
    D0 = FL_DEC | FL_SKIP; out = []
    def sgncls(e, neg=False): return (NS if e < 0 else NL) if neg else (S | P1 if e < 0 else P1 | L)
    for f in FIELD.values():
        for sp in (0, FL_SHOWPOINT):
            for P in PRECS:
                for e in EXPS:
                    if e == 12345 and f == FL_FIXED: continue
                    out.append(((S if e < 0 else P1 | L), e, D0 | f | sp, P, 0, 32))
                out.append((Z, 0, D0 | f | sp, P, 0, 32))
    for f in FIELD.values():
        for e in (-7, -2, 0, 3, 20):
            for ex in (0, FL_SHOWPOS, FL_UPPER, FL_SHOWPOS | FL_UPPER):
                for neg in (0, 1):
                    for adj in (0, FL_LEFT, FL_RIGHT, FL_INTERNAL):
                        for w in (0, 9, 60): out.append(((NS if e < 0 else NL) if neg else (S if e < 0 else P1 | L), e, D0 | f | ex | adj, 6 if w else 3, w, 42))
        for c in (Z, PINF, NINF, NAN):
            for ex in (0, FL_SHOWPOS, FL_UPPER, FL_SHOWPOS | FL_UPPER):
                for adj in (0, FL_LEFT):
                    for w in (0, 40): out.append((c, 0, D0 | f | ex | adj, 6, w, 42))
    return list(dict.fromkeys(out))

def loc(w):
    try: f, x = w; return ' (%s line %s, in %s)' % (os.path.basename(x.get('lf') or '?'), x.get('l'), f.norm.split('(')[0][-60:])
    except Exception: return ''
def judge(m, cell):
    """(violations [(key, text)], undecided, paths)."""
    V = []; U = []
    what = describe(cell)
    def bad(key, t, w=None): V.append((key, '%s: %s%s' % (what, t, loc(w))))
    try: J, P, r = runcell(m, cell)
    except Imprecise as e: return V, ['%s: %s' % (what, e)], 0
    for st, why, w in P.thrown: bad('throws', 'throws ' + why, w)
    n = 0
    for st, ret in r:
        n += 1
        ev = st.ev
        while ev is not None:
            h, ev = ev
            if h[0] == 'bad': bad('text', h[1], h[2])
            elif h[0] == 'state': U.append('%s: unknown stream %s' % (what, h[1]))
        f = st.tag.get(('ios', 'OS'))
        for k, v in (('flags', cell[2]), ('precision', cell[3]), ('fill', cell[5])):
            if f[k] != v: bad('stream-state', 'the %s of the stream are changed from %s to %s' % (k, v, f[k]))
        if f['width'] not in (0, cell[4]): bad('stream-state', 'the width of the stream is changed to %s' % f['width'])
        text = list(st.tag.get(('out', 'OS'), ()))
        try:
            if not Want(J, st, cell).check(text, st.tag.get('digits')): bad('text', 'no text is written')
        except No as q: bad('text', str(q))
    if J.unknown_calls: return [], ['%s: calls %s' % (what, ' '.join(c.replace(STR, 'string') for c in J.unknown_calls)[:120])], 0
    if not r and not V: U.append(what + ': no path')
    return V, U, n

# ---------------------------------------------------------------- digits of the self-contained back end
from bx import BX, XInterp
class EInterp(SInterp, XInterp):
    def setrng(s, st, t, r):
        if not Interp.setrng(s, st, t, r): return False
        if t.op in ('add', 'sub') and len(t.args) == 3:
            w, a, b = t.args; n = s.rng(st, t); ra = s.rng(st, a); rb = s.rng(st, b); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if b.op == 'i':
                v = b.args[0] if t.op == 'add' else -b.args[0]
                if lo <= ra[0] + v and ra[1] + v <= hi: return s.setrng(st, a, (n[0] - v, n[1] - v))
            elif a.op == 'i' and t.op == 'add' and lo <= rb[0] + a.args[0] and rb[1] + a.args[0] <= hi: return s.setrng(st, b, (n[0] - a.args[0], n[1] - a.args[0]))
        if t.op == 'trunc':
            ra = s.rng(st, t.args[1]); w = s.width(t)
            if -(1 << (w - 1)) <= ra[0] and ra[1] < 1 << (w - 1): return s.setrng(st, t.args[1], s.rng(st, t))
        return True
def lin(t):
    """(term, constant) of a character after conversions."""
    k = 0
    while True:
        if t.op in ('sext', 'zext', 'trunc'): t = t.args[1]
        elif t.op in ('add', 'sub') and len(t.args) == 3 and t.args[2].op == 'i': k += t.args[2].args[0] if t.op == 'add' else -t.args[2].args[0]; t = t.args[1]
        elif t.op == 'add' and len(t.args) == 3 and t.args[1].op == 'i': k += t.args[1].args[0]; t = t.args[2]
        elif t.op == 'i': return (None, t.args[0] + k)
        else: return (t, k)
def samech(J, st, a, b):
    u, v = lin(a), lin(b)
    if u == v: return True
    def val(u):
        if u[0] is None: return u[1]
        r = J.rng(st, u[0]); return r[0] + u[1] if r[0] == r[1] else None
    x, y = val(u), val(v)
    return x is not None and x == y

class Limbs(Strings, BX):
    kernels = True; breaks = True; forks = 160
    L0 = 8
    def number(s, I_, st, f, t, w, signed):
        if t.op == 'iu' and isinstance(t.args[1], T) and t.args[1].op == 'limb':
            a = t.args[1].args; k = a[1] if len(a) > 1 else 0
            short = f['width'] < 8 or f['fill'] != 48 or f['flags'] & (FL_LEFT | FL_INTERNAL)
            if k == 0: n = s.L0; lead = True
            elif not short: n = 8; lead = False
            else: n = 1 if k == 1 else 8; lead = True       # (a limb with leading zeros, written without them)
            out = []
            for j in range(n - 1, -1, -1):
                d = mk('iu', 8, mk('ld', k, j)); I_.setrng(st, d, (49 if lead and j == n - 1 and (n > 1 or k == 0) else 48, 57)); out.append(d)
            return [(st, out)]
        return Strings.number(s, I_, st, f, t, w, signed)
    def resolve(s, fn):
        n = fn.norm
        r = s.resolve_str(fn)
        if r is not None: return r
        if not fn.decl and re.match(r'%s \w' % re.escape(STR), n): return False
        return BX.resolve(s, fn)

def efx_digits(m, n, L0, zero):
    """Violations of the digit contract for n digits of a number whose first limb has L0 digits."""
    V = []
    P = Limbs(m, DF); P.L0 = L0; P.raw = True
    J = EInterp(m, DF, P, max_steps=8000000, unroll=400); J.max_paths = 4000
    st = P.setup(J, St()); st, _ = P.special(J, st, 'X', Z) if zero else (st, None)
    if not zero: P.build(J, st, ('X', 0), False, (5, 5), tag='X', d0=(10 ** (L0 - 1), 10 ** L0 - 1))
    e0 = 0 if zero else 5
    P.put(J, st, ptr_('S'), []); J.wr(st, ptr_('E'), 8, I(e0, 64))
    st.ev = None
    fn = [f for f in m.fns.values() if not f.decl and f.norm.startswith('EF::get_output_string(')]
    if not fn: raise ir.Broken('get_output_string not found')
    r = J.run_fn(fn[0], [ptr_('X'), ptr_('S'), ptr_('E'), I(n, 64)], st, mk('site', 'root'))
    for z, why, w in P.thrown: V.append(('get_output_string', '%d digits: throws %s' % (n, why)))
    for z, _ in r:
        ev = z.ev
        while ev is not None:
            h, ev = ev
            if h[0] in ('bad', 'bound', 'undef'): V.append(('get_output_string', '%d digits: %s' % (n, ' '.join(map(str, h[1:-1])))))
        t = P.get(J, z, ptr_('S')); e = J.rd(z, ptr_('E'), 8, 'i64')
        if t is None: raise Imprecise('text of get_output_string')
        if e.op != 'i': raise Imprecise('exponent')
        if len(t) != n: V.append(('get_output_string', '%d characters are delivered for %d digits' % (len(t), n))); continue
        D_ = [I(48, 8)] * (n + 1) if zero else ([mk('iu', 8, mk('ld', 0, j)) for j in range(L0 - 1, -1, -1)] + [mk('iu', 8, mk('ld', k, j)) for k in range(1, n // 8 + 3) for j in range(7, -1, -1)])
        rd = J.rng(z, D_[n])
        if rd[0] < 53 <= rd[1]: V.append(('get_output_string', '%d digits: the digit after the last one is not considered in rounding' % n)); continue
        if rd[1] < 53: w, ee = D_[:n], e0
        else:
            i = n - 1
            while i >= 0 and J.rng(z, D_[i])[0] == 57: i -= 1
            if i < 0: w, ee = [I(49, 8)] + [I(48, 8)] * (n - 1), e0 + 1
            elif J.rng(z, D_[i])[1] == 57:
                V.append(('get_output_string', '%d digits: rounding up does not consider whether digit %d is a nine' % (n, i + 1))); continue
            else: w, ee = D_[:i] + [J.binop(z, 'add', 'i8', D_[i], I(1, 8))] + [I(48, 8)] * (n - 1 - i), e0
        for k, (a, b) in enumerate(zip(t, w)):
            if not samech(J, z, a, b): V.append(('get_output_string', 'digit %d of %d is %s instead of %s%s' % (k + 1, n, show(a, 4), show(b, 4), ' (rounding up)' if rd[1] >= 53 else ''))); break
        if e.args[0] != ee: V.append(('get_output_string', '%d digits: the exponent becomes %d instead of %d%s' % (n, e.args[0], ee, ' when the digits round up to the next power of ten' if ee > e0 else '')))
    return V, len(r)
def ptr_(o): return mk('p', o, 0)

def mono(J, st, t, lo, hi, x):
    """Interval of a monotonically built number of the integer symbol x in [lo, hi]; None when not understood."""
    import math
    def ev(t, v):
        o = t.op
        if t is x: return v
        if o in ('i', 'd'): return t.args[0]
        a = [ev(u, v) for u in t.args if isinstance(u, T)]
        if any(u is None for u in a): return None
        if o in ('sext', 'zext', 'trunc', 'uitofp', 'sitofp', 'fpext'): return a[0] if 'fp' not in o else float(a[0])
        if o in ('fptosi', 'fptoui'): return int(a[0])
        if o in ('add', 'fadd'): return a[0] + a[1]
        if o in ('sub', 'fsub') and len(a) == 2 and t.args[-1].op in ('i', 'd'): return a[0] - a[1]
        if o in ('fmul', 'mul') and len(a) == 2 and t.args[-1].op in ('i', 'd') and a[1] > 0: return a[0] * a[1]
        if o == 'du' or o == 'iu': return a[-1] if a else None
        if o in ('m:log10', 'm:log', 'm:floor', 'm:ceil', 'm:trunc') and a: return getattr(math, o[2:])(a[0])
        return None
    u, v = ev(t, lo), ev(t, hi)
    return None if u is None or v is None else (u, v)

def efx_order(m, j):
    V = []
    lo, hi = 10 ** j, 10 ** (j + 1) - 1
    P = Limbs(m, DF); P.raw = True
    J = EInterp(m, DF, P, max_steps=400000)
    st = P.setup(J, St()); P.build(J, st, ('X', 0), False, (80, 80), tag='X', d0=(lo, hi))
    r = J.run_fn(m.need('EF::get_order_exact() const'), [ptr_('X')], st, mk('site', 'root'))
    x = mk('iu', 32, mk('limb', 'X'))
    for z, t in r:
        a, b = J.rng(z, x)
        iv = (t.args[0],) * 2 if t.op == 'i' else mono(J, z, t, a, b, x)
        if iv is None: raise Imprecise('order: ' + show(t, 12))
        for q, n in ((iv[0], a), (iv[1], b)):
            if q != 80 + j: V.append(('get_order_exact', 'the order of a number with first element %d and element exponent 80 is %d, not %d' % (n, q, 80 + j))); break
    return V, len(r)

# ---------------------------------------------------------------- digits written by the foreign libraries
class Printf(Strings, FLX):
    """The library writes the digits: d.ddd...e+xx with the number of digits and the rounding the format asks for."""
    forks = 200
    def __init__(s, mod, D, e, neg, zero, order, **k): s.e = e; s.neg = neg; s.order = order; s.zero = zero; super().__init__(mod, D, sizes={}, **k)
    def resolve(s, fn):
        n = fn.norm
        if fn.decl and re.fullmatch(r'(__)?(gmp|mpfr)_(sprintf|snprintf)', fn.n): return s.sprintf
        if re.match(r'EF::get_order_exact\(', n): return False if s.order else lambda I_, st, fn, a, x: [(st, I(s.e, 64))]
        r = s.resolve_str(fn)
        if r is not None: return r
        if not fn.decl and (not re.match(r'(EF|ef|std)::', n) or re.match(r'%s \w' % re.escape(STR), n) or re.match(r'std::(allocator_traits|_Alloc)', n)): return False
        return super().resolve(fn)
    def sprintf(s, I_, st, fn, a, x):
        bounded = 'snprintf' in fn.n; k = 2 if bounded else 1
        f = s.text(I_, st, a[k]); rest = list(a[k + 1:])
        if f is None: raise Imprecise('format')
        m = re.fullmatch(r'%(\+?)(?:\.(\d+|\*))?(F|R[NZ]|R)e', f)
        if not m: raise Imprecise('format ' + f)
        if m.group(2) == '*':
            n = s.un(rest.pop(0), 32)
            if n is None: raise Imprecise('format precision')
        elif m.group(2) is None: raise Imprecise('format ' + f)
        else: n = int(m.group(2))
        n += 1; cut = m.group(3) == 'RZ'
        oo = I_.obj_of(a[0]); z = st.tag.get(('size', oo[0])) if oo else None
        if z is None or not isinstance(oo[1], int): raise Imprecise('buffer of unknown size')
        need = n + 2 + 2 + 20 + (1 if m.group(1) or s.neg else 0)
        if bounded and s.un(a[1]) is not None and s.un(a[1]) <= z: pass
        elif need > z - oo[1]: s.bad(I_, st, 'a number of %d digits is written to a buffer of %d characters' % (n, z - oo[1]))
        if n > 100000: return []
        out = []
        def put(w, d, e):
            t = s.lit('-' if s.neg else '+' if m.group(1) else '') + d[:1] + (s.lit('.') + d[1:] if n > 1 else []) + s.lit('e%s%02d' % ('-' if e < 0 else '+', abs(e))) + [I(0, 8)]
            for i, c in enumerate(t): I_.wr(w, mk('p', oo[0], oo[1] + i), 1, c)
            out.append((w, I(len(t) - 1, 32)))
        known = st.tag.get('carry', {})
        if s.zero: put(st, s.lit('0' * n), 0); return out
        may = not cut and not any(not c and n >= q for q, c in known.items())
        must = not cut and any(c and n <= q for q, c in known.items())
        if not must:
            w = st.copy() if may else st
            d = [mk('iu', 8, mk('dig', -n if cut else n, i)) for i in range(n)]
            for i, t in enumerate(d): I_.setrng(w, t, (49 if i == 0 else 48, 57))
            if not cut: w.tag['carry'] = {**known, n: 0}
            put(w, d, s.e)
        if may or must:
            st.tag['carry'] = {**known, n: 1}; put(st, s.lit('1' + '0' * (n - 1)), s.e + 1)
        return out

def lib_run(m, name, e, neg, zero, args):
    P = Printf(m, DF, e, neg, zero, 'order' in name, contracts=False, inline=()); P.raw = True
    J = SInterp(m, DF, P, max_steps=4000000, unroll=400); J.max_paths = 2000
    st = St(); x = DF.sym('x'); J.setcls(st, x, Z if zero else (NS | NL | N1) if neg else (S | P1 | L))
    J.ef_wr(st, ptr_('X'), x)
    P.put(J, st, ptr_('S'), []); J.wr(st, ptr_('E'), 8, I(0 if zero else e, 64))
    fn = [f for f in m.fns.values() if not f.decl and f.norm.startswith(name)]
    if not fn: raise ir.Broken(name + ' not found')
    return J, P, J.run_fn(fn[0], [ptr_('X')] + args, st, mk('site', 'root'))
def events(V, key, what, r, P):
    for z, why, w in P.thrown: V.append((key, '%s: throws %s' % (what, why)))
    for z, _ in r:
        ev = z.ev
        while ev is not None:
            h, ev = ev
            if h[0] == 'bad': V.append((key, '%s: %s' % (what, h[1])))

def lib_digits(m, n, e, neg, zero):
    V = []; key = 'get_output_string'
    J, P, r = lib_run(m, 'EF::get_output_string(', e, neg, zero, [ptr_('S'), ptr_('E'), I(n, 64)])
    what = '%d digits of a %snumber of order %d' % (n, 'negative ' if neg else '', e) if not zero else '%d digits of zero' % n
    events(V, key, what, r, P)
    for z, _ in r:
        t = P.get(J, z, ptr_('S')); q = J.rd(z, ptr_('E'), 8, 'i64'); c = z.tag.get('carry', {})
        if t is None or q.op != 'i': raise Imprecise('result of get_output_string')
        if not zero and set(c) != {n}:
            if t and any(u.op == 'iu' and u.args[1].op == 'dig' and u.args[1].args[0] != n for u in t): V.append((key, '%s: %s' % (what, 'the digits are cut off, not rounded' if any(u.op == 'iu' and u.args[1].args[0] == -n for u in t) else 'the library is asked for another number of digits')))
            elif t: V.append((key, '%s: the library is asked for %s digits' % (what, sorted(c))))
            continue
        cy = c.get(n, 0)
        w = [I(48, 8)] * n if zero else digs(n, cy, False)
        if len(t) != n or not all(same(J, z, a, b) for a, b in zip(t, w)): V.append((key, '%s: delivers "%s" instead of "%s"' % (what, show_(J, z, t), show_(J, z, w))))
        elif q.args[0] != (0 if zero else e + cy): V.append((key, '%s: the exponent becomes %d instead of %d%s' % (what, q.args[0], 0 if zero else e + cy, ' when the digits round up to the next power of ten' if cy else '')))
    return V, len(r)
def lib_order(m, e, neg, zero):
    V = []; key = 'get_order_exact'
    J, P, r = lib_run(m, 'EF::get_order_exact(', e, neg, zero, [])
    what = 'the order of a %snumber of order %d' % ('negative ' if neg else '', e) if not zero else 'the order of zero'
    events(V, key, what, r, P)
    for z, q in r:
        if q.op != 'i': raise Imprecise('result of get_order_exact')
        c = z.tag.get('carry', {}); big = [k for k, v in c.items() if v and k > MAXD]
        if q.args[0] != (0 if zero else e) and not (big and q.args[0] == e + 1): V.append((key, '%s is given as %d%s' % (what, q.args[0], ', when its first %d digits round up' % max(k for k in c if c[k]) if any(c.values()) else '')))
    return V, len(r)
# ---------------------------------------------------------------- complex numbers
class Pair(Strings, FLX):
    def __init__(s, mod, D, **k): super().__init__(mod, D, sizes={}, **k)
    def resolve(s, fn):
        n = fn.norm
        if n == WR:
            def h(I_, st, fn, a, x):
                f = s.fmt(st, s.ios(I_, a[0]))
                s.out(I_, st, a[0], [mk('iu', 8, mk('number', I_.ef_rd(st, a[1]), f['flags'], f['precision'], f['width'], f['fill']))], False)
                f['width'] = 0; st.tag[s.ios(I_, a[0])] = f
                return [(st, a[0])]
            return h
        r = s.resolve_str(fn)
        if r is not None: return r
        if not fn.decl and 'operator<<' in n and 'std::operator' not in n: return False
        return super().resolve(fn)

def complex_cell(m, flags, prec, width):
    V = []; what = 'a complex number with flags %#x, precision %d, width %d' % (flags, prec, width)
    P = Pair(m, DF, contracts=False, inline=()); P.raw = True
    J = SInterp(m, DF, P, max_steps=400000)
    st = St(); u, v = DF.sym('re'), DF.sym('im')
    J.ef_wr(st, ptr_('C'), u); J.ef_wr(st, mk('p', 'C', J.SZ), v)
    P.newstream(J, st, ptr_('OS')); st.tag[('ios', 'OS')] = dict(flags=flags, precision=prec, width=width, fill=42)
    r = J.run_fn(m.need('vdrv::cput(std::ostream&, ef::complex<EF> const&)'), [ptr_('OS'), ptr_('C')], st, mk('site', 'root'))
    events(V, 'complex', what, r, P)
    for z, _ in r:
        f = z.tag[('ios', 'OS')]
        for k, o in (('flags', flags), ('precision', prec), ('fill', 42)):
            if f[k] != o: V.append(('complex', '%s: the %s of the stream are changed to %s' % (what, k, f[k])))
        t = [c for c in z.tag[('out', 'OS')] if c.op != 'i' or c.args[0] != 42]
        w = [('(', None), (None, u), (',', None), (None, v), (')', None)]
        def one(c, e):
            if e[0]: return c.op == 'i' and chr(c.args[0]) == e[0]
            return c.op == 'iu' and c.args[1].op == 'number' and c.args[1].args[0] is e[1]
        if len(t) != 5 or not all(one(c, e) for c, e in zip(t, w)):
            V.append(('complex', '%s: writes %s' % (what, ' '.join(chr(c.args[0]) if c.op == 'i' else show(c.args[1], 3) for c in t)))); continue
        for c, nm in ((t[1], 'real'), (t[3], 'imaginary')):
            _, fl, pr, wd, fi = c.args[1].args
            if pr != prec: V.append(('complex', '%s: the %s part is written with precision %d' % (what, nm, pr)))
            elif (fl ^ flags) & ~(FL_LEFT | FL_RIGHT | FL_INTERNAL): V.append(('complex', '%s: the %s part is written with other format flags (%#x)' % (what, nm, fl)))
    return V, len(r)

# ---------------------------------------------------------------- driver
def job(a):
    """(kind, violations, undecided, paths)"""
    kind, cfg, args = a; m = MODS[cfg]; tag = cfg + ': '
    try:
        if kind == 'layout':
            V, U, n = judge(m, args); return kind, [(k, tag + t) for k, t in V], [tag + u for u in U], n
        f = {'efx_digits': efx_digits, 'efx_order': efx_order, 'lib_digits': lib_digits, 'lib_order': lib_order, 'complex': complex_cell}[kind]
        V, n = f(m, *args); return kind, [(k, tag + t) for k, t in V], [] if n or V else [tag + '%s%s: no path' % (kind, args)], n
    except Imprecise as e: return kind, [], [tag + '%s%s: %s' % (kind, args, e)], 0

def jobs():
    J = []
    for cfg in ('efx', 'gmp', 'mpfr'): J += [('layout', cfg, c) for c in cells()]
    for n in range(1, MAXD + 2):
        for L0 in range(1, 9): J.append(('efx_digits', 'efx', (n, L0, False)))
        J.append(('efx_digits', 'efx', (n, 1, True)))
    J += [('efx_order', 'efx', (j,)) for j in range(8)]
    for cfg in ('gmp', 'mpfr'):
        for e in (-123456789, -1000, -10, -9, -3, -1, 0, 1, 7, 9, 10, 100, 999, 123456789):
            for neg in (False, True):
                for n in (1, 2, 3, 7, 10, 11, 12, 50, 101, 102, 103): J.append(('lib_digits', cfg, (n, e, neg, False)))
                J.append(('lib_order', cfg, (e, neg, False)))
        for n in (1, 7, 103): J.append(('lib_digits', cfg, (n, 0, False, True)))
        J.append(('lib_order', cfg, (0, False, True)))
    for f in FIELD.values():
        for x in (0, FL_SHOWPOINT, FL_SHOWPOS, FL_UPPER | FL_LEFT):
            for p in (1, 6, 100):
                for w in (0, 60): J.append(('complex', 'efx', (FL_DEC | f | x, p, w)))
    return J

def main():
    rep = report.Report('C16')
    for cfg in ('efx', 'gmp', 'mpfr'): MODS[cfg] = ir.load_lib(cfg)
    setlimits(MODS['efx'])
    J = jobs()
    with Pool(8) as pool:
        for kind, V, U, n in pool.imap_unordered(job, J, 24):
            rep.count(kind); rep.count('paths', n)
            for k, t in V: rep.violation(k, t)
            for u in U: rep.undecided(u)
    rep.need('layout', 3000)
    if len(rep.undec) > len(J) // 2 and not rep.viols: raise ir.Broken('%d of %d cells are not decided: %s' % (len(rep.undec), len(J), rep.undec[0]))
    return rep.finish('Stream output is interpreted with abstract digits for every combination of format field, showpoint, precision and decimal order listed, and for signs, width, fill, adjustment, zero and the special values; on every path '
        'each character written must be the character that belongs at that place for the number rounded to the digits asked for.  The digits delivered by each back end (all lengths) are interpreted from the limbs or the library\'s text with every rounding and carry path.')

if __name__ == '__main__': report.main(main)
