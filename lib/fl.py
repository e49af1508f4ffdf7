"""Function-layer policy: numbers are opaque values, the number class's own methods are primitives."""
import re
from fractions import Fraction
from terms import *
from absint import *
import spec

CONTAINER = re.compile(r'vector|map<|deque|basic_string|_Rb_tree|__normal_iterator|allocator|ostream|istream|stringstream|ios_base|locale|_Bit_|list<|_Bind|tuple|find_if|for_each|accumulate|transform|distance|copy|equal|fill|lexicographical|sort|thread|mutex|atomic|function<')
KNOWN = {'pi': 3.141592653589793, 'pi_half': 1.5707963267948966, 'two_pi': 6.283185307179586, 'pi_squared': 9.869604401089358, 'sqrt_pi': 1.772453850905516, 'e': 2.718281828459045,
         'ln2': 0.6931471805599453, 'ln10': 2.302585092994046, 'sqrt2': 1.4142135623730951, 'phi': 1.618033988749895, 'euler_gamma': 0.5772156649015329, 'catalan': 0.915965594177219,
         'khinchin': 2.6854520010653062, 'glaisher': 1.2824271291006226, 'third': None, 'two_third': None}
NUMC = dict(third=Fraction(1, 3), two_third=Fraction(2, 3))


class FL:
    number_cells = True

    def __init__(s, mod, D, roots=(), inline=(), readonly=(), contracts=True):
        s.m = mod; s.D = D; s.roots = set(roots); s.inline = set(inline)
        s.readonly = set(readonly); s.contracts = contracts
        s.constcache = {}
        s.h = {}
        s.events = True

    # hooks -----------------------------------------------------------------
    def is_ef(s, I_, obj, off): return True
    def vptr_at(s, I_, obj): return True
    def on_write(s, I_, st, obj, off, size, v):
        if obj in s.readonly:
            st.ev = (('write', obj, off, v, I_.where), st.ev)
        elif isinstance(obj, tuple) and obj[0] == 'const':
            st.ev = (('write', obj, off, v, I_.where), st.ev)
    def decide(s, I_, st, c): return None
    def fcmp(s, I_, st, p, a, b): return None
    def loop_enter(s, I_, fn, L): pass

    # constants ---------------------------------------------------------------
    def constant(s, I_, st, fn):
        name = fn.norm[4:-2]
        obj = ('const', name)
        if obj not in st.mem:
            v = s.constcache.get(name)
            if v is None:
                v = s.evalconst(I_, fn, name); s.constcache[name] = v
            t, m = v
            st.mem[obj] = {0: (I_.SZ, t)}
            if s.D.isnum(t) is None: I_.setcls(st, t, m) or st.cls.__setitem__(t, m)
        return [(st, mk('p', obj, 0))]

    def evalconst(s, I_, fn, name):
        if name in KNOWN and name not in NUMC:
            v = KNOWN[name]
            return s.D.sym(('k', name)), c_of_num(v)
        if name == 'value_nan': return s.D.sym(('k', 'nan')), NAN
        if name == 'value_inf': return s.D.sym(('k', 'inf')), PINF
        if name in ('value_max',): return s.D.sym(('k', name)), L
        if name in ('value_min', 'value_eps'): return s.D.sym(('k', name)), S
        if name in NUMC: return s.D.num(NUMC[name]), c_of_num(NUMC[name])
        pol = FL(s.m, s.D, contracts=False); pol.constcache = s.constcache
        J = Interp(s.m, s.D, pol, max_steps=20000)
        st = St()
        try:
            r = J.run_fn(fn, [], st, mk('site', 0, 0, ('const', name)))
            if len(r) == 1:
                t = J.ef_rd(r[0][0], r[0][1])
                q = s.D.isnum(t)
                if q is not None: return t, c_of_num(q)
                return s.D.sym(('k', name)), J.getcls(r[0][0], t)
        except Imprecise: pass
        return s.D.sym(('k', name)), ALL

    # call dispatch ------------------------------------------------------------
    def call(s, I_, st, fn, args, x, site):
        n = fn.norm
        r = s.h.get(fn.n)
        if r is None:
            r = s.resolve(fn); s.h[fn.n] = r
        if r is False: return None
        return r(I_, st, fn, args, x)

    def resolve(s, fn):
        n = fn.norm
        if n.startswith('EF::') or n.startswith('e_float_base::'):
            m = s.method(fn, n)
            if m: return m
            return False
        if n in s.inline or n in s.roots and n in s.inline: return False
        if re.fullmatch(r'ef::\w+\(\)', n) and fn.rt == 'ptr' and not fn.args and not fn.decl: return s.constant_h
        if s.contracts:
            c = s.contract(fn, n)
            if c: return c
        if fn.decl: return False
        if re.match(r'std::numeric_limits|([\w:&]+ )*std::(min|max|fabs|abs|log|log10|pow|sqrt|isnan|isinf|isfinite|signbit|move|forward|__addressof|addressof|swap)\b', n) and 'vector' not in n: return False
        if (n.startswith(('std::', '__gnu_cxx::', 'void std::', 'bool std::')) or re.match(r'[^(]*\bstd::\w', n.split('(')[0]) and not n.startswith(('ef::', 'EF ef::'))) and (CONTAINER.search(n) or fn.loops):
            return s.opaque_h
        if n.startswith(('Util::lexical_cast', 'Util::DigitScale', 'std::__cxx11', 'Tables::')) or 'fft' in n: return s.opaque_h
        return False

    def opaque_h(s, I_, st, fn, args, x): return I_.opaque(st, fn, args, x, x.get('t', 'void'))
    def constant_h(s, I_, st, fn, args, x): return s.constant(I_, st, fn)

    # contracts -----------------------------------------------------------------
    def contract(s, fn, n):
        m = re.fullmatch(r'ef::(\w+)\(EF const&\)', n)
        if m:
            nm = m.group(1)
            nm = 'fabs' if nm == 'abs' else nm
            if nm in ('integer_part', 'decimal_part', 'isnan', 'isfinite', 'isinf', 'isneg', 'ispos', 'isint', 'isone', 'iszero', 'order_of', 'to_double', 'to_int64', 'to_int32', 'real', 'imag', 'sgn', 'inv', 'sqrt', 'small_arg', 'large_arg', 'near_one', 'near_int', 'log10', 'csc', 'sec', 'cot', 'log1p'): return None
            if nm == 'fabs':
                def h(I_, st, fn, args, x):
                    v = I_.ef_rd(st, args[1]); out = []
                    if I_.getcls(st, v) == NAN: I_.ef_wr(st, args[0], v); return [(st, None)]
                    for z, b in I_.decide(st, mk('pred', 'isneg', v), I_.where):
                        I_.ef_wr(z, args[0], I_.e_neg(z, v) if b else v); out.append((z, None))
                    return out
                return h
            if nm in spec.UN:
                def h(I_, st, fn, args, x, nm=nm):
                    v = I_.ef_rd(st, args[1])
                    mth = spec.unary(nm, I_.getcls(st, v))
                    I_.ef_wr(st, args[0], I_.e_fun(st, nm, [v], mth))
                    return [(st, None)]
                return h
        if n == 'ef::sincos(EF const&, EF*, EF*)' or n == 'ef::sinhcosh(EF const&, EF*, EF*)':
            f = ('sin', 'cos') if 'sincos' in n else ('sinh', 'cosh')
            def h(I_, st, fn, args, x):
                v = I_.ef_rd(st, args[0])
                for p, nm in ((args[1], f[0]), (args[2], f[1])):
                    if p.op != 'null': I_.ef_wr(st, p, I_.e_fun(st, nm, [v], spec.unary(nm, I_.getcls(st, v))))
                return [(st, None)]
            return h
        if n in ('EF ef::detail::pown_template<EF>(EF const&, long)', 'ef::pow(EF const&, long)'):
            def h(I_, st, fn, args, x):
                v = I_.ef_rd(st, args[1]); k = args[2]
                if k.op == 'i' and abs(k.args[0]) <= 64:
                    t = s.D.num(1)
                    e = abs(k.args[0])
                    for _ in range(e): t = I_.e_mul(st, t, v)
                    if e and e % 2 == 0: I_.setcls(st, t, POS | Z | NAN)
                    if k.args[0] < 0: t = I_.e_div(st, s.D.num(1), t)
                    I_.ef_wr(st, args[0], t); return [(st, None)]
                m = I_.getcls(st, v)
                r = NAN if m == NAN else POS | Z if not m & ~POS else ALL
                I_.ef_wr(st, args[0], I_.e_fun(st, 'powi', [v, k], r))
                return [(st, None)]
            return h
        two = {'ef::pow(EF const&, EF const&)': ('pow', spec.pow2arg), 'ef::atan2(EF const&, EF const&)': ('atan2', spec.atan2arg), 'ef::loga(EF const&, EF const&)': ('loga', spec.loga_arg)}.get(n)
        if two:
            def h(I_, st, fn, args, x):
                u, v = I_.ef_rd(st, args[1]), I_.ef_rd(st, args[2])
                I_.ef_wr(st, args[0], I_.e_fun(st, two[0], [u, v], lift2(two[1])(I_.getcls(st, u), I_.getcls(st, v))))
                return [(st, None)]
            return h
        if n in ('ef::rootn(EF const&, int)', 'ef::rootn_inverse(EF const&, int)'):
            def h(I_, st, fn, args, x):
                v, p = I_.ef_rd(st, args[1]), args[2]
                m = I_.getcls(st, v)
                if p.op == 'i':
                    t = spec.rootn_arg(p.args[0] if 'inverse' not in n else -p.args[0])
                    r = 0
                    for b in bits(m): r |= t[b]
                else: r = NAN if m == NAN else ALL
                I_.ef_wr(st, args[0], I_.e_fun(st, n[4:].split('(')[0], [v, p], r)); return [(st, None)]
            return h
        if n == 'ef::pow2(long)':
            def h(I_, st, fn, args, x):
                k = args[1]
                if k.op == 'i' and abs(k.args[0]) <= 64: t = s.D.num(Fraction(2) ** k.args[0]); I_.ef_wr(st, args[0], t)
                else: I_.ef_wr(st, args[0], I_.e_fun(st, 'pow2', [k], POS | Z))
                return [(st, None)]
            return h
        m = re.match(r'ef::(\w+)\(', n)
        if m and fn.args and s.efsret(fn) and not fn.decl and n not in s.inline and 'complex' not in n:
            if m.group(1) in ('ldexp', 'fmod', 'frexp', 'real', 'imag', 'inv', 'sqrt', 'integer_part', 'decimal_part', 'log10', 'loga', 'csc', 'sec', 'cot', 'log1p'): return None
            return s.generic(m.group(1))
        return None

    @staticmethod
    def efsret(fn):
        t = fn.args[0].get('sret') or ''
        return t.strip('"').endswith('e_float"') or t.strip('%"').endswith('e_float')

    POSFUN = {'factorial', 'factorial2'}
    def generic(s, nm):
        def h(I_, st, fn, args, x):
            ts = []
            for i, a in enumerate(args[1:]):
                at = fn.args[i + 1]['t']
                if at == 'ptr': ts.append(I_.ef_rd(st, a) if s.numparam(fn, i + 1) else a)
                elif a.op == 'i' and a.args[1] == 32 and a.args[0] < 0 and len(info := param_info(fn)) > i + 1 and info[i + 1][2].startswith('unsigned'):
                    ts.append(I(a.args[0] & 0xffffffff, 64))                       # (what matters is the value, not the width)
                else: ts.append(a)
            cl = ALL
            num = [t for i, t in enumerate(ts) if s.numparam(fn, i + 1)]
            if nm.startswith('hypergeometric_') and num and I_.getcls(st, num[-1]) == Z: cl = P1
            if nm in s.POSFUN: cl = P1 | L | PINF
            I_.ef_wr(st, args[0], I_.e_fun(st, nm, ts, cl))
            return [(st, None)]
        return h

    def numparam(s, fn, i):
        info = param_info(fn)
        return i < len(info) and info[i][2] in ('EF const&', 'EF')

    # methods --------------------------------------------------------------------
    def method(s, fn, n):
        D = s.D
        n = n[4:] if n.startswith('EF::') else n[14:]
        const = n.endswith(' const')
        base = n[:-6] if const else n
        nm = base.split('(')[0]
        if n.startswith('~e_float'): return lambda I_, st, fn, a, x: [(st, None)]
        if nm in ('e_float_base',): return lambda I_, st, fn, a, x: [(st, None)]
        if re.match(r'e_float(<.*>)?\(', n): return s.ctor(fn, n)
        def ret(I_, st, a, t): I_.ef_wr(st, a[0], t); return [(st, a[0])]
        if base in ('operator=(EF const&)', 'operator=(EF&&)'): return lambda I_, st, fn, a, x: ret(I_, st, a, I_.ef_rd(st, a[1]))
        ops = {'operator+=(EF const&)': 'e_add', 'operator-=(EF const&)': 'e_sub', 'operator*=(EF const&)': 'e_mul', 'operator/=(EF const&)': 'e_div'}
        if base in ops:
            f = ops[base]
            return lambda I_, st, fn, a, x: ret(I_, st, a, getattr(I_, f)(st, I_.ef_rd(st, a[0]), I_.ef_rd(st, a[1])))
        m = re.fullmatch(r'(add|sub|mul|div)_unsigned_long_long\(unsigned long long\)', base)
        if m:
            f = 'e_' + m.group(1)
            return lambda I_, st, fn, a, x: ret(I_, st, a, getattr(I_, f)(st, I_.ef_rd(st, a[0]), s.fromint(I_, st, a[1], False)))
        m = re.fullmatch(r'operator(\+\+|--)\(\)', base)
        if m: return lambda I_, st, fn, a, x: ret(I_, st, a, (I_.e_add if m.group(1) == '++' else I_.e_sub)(st, I_.ef_rd(st, a[0]), D.num(1)))
        if base == 'negate()': return lambda I_, st, fn, a, x: ret(I_, st, a, I_.e_neg(st, I_.ef_rd(st, a[0])))
        if base == 'calculate_inv()': return lambda I_, st, fn, a, x: ret(I_, st, a, I_.e_div(st, D.num(1), I_.ef_rd(st, a[0])))
        if base == 'calculate_sqrt()':
            def h(I_, st, fn, a, x):
                v = I_.ef_rd(st, a[0]); return ret(I_, st, a, I_.e_fun(st, 'sqrt', [v], spec.unary('sqrt', I_.getcls(st, v))))
            return h
        if base in ('isnan()', 'isinf()', 'isfinite()', 'iszero()', 'isone()', 'isneg()', 'isint()'):
            p = base[:-2]
            def h(I_, st, fn, a, x):
                t = I_.ef_rd(st, a[0]); q = D.isnum(t)
                if q is not None:
                    v = {'isnan': False, 'isinf': False, 'isfinite': True, 'iszero': q == 0, 'isone': q == 1, 'isneg': q < 0, 'isint': q.denominator == 1}[p]
                    return [(st, B(v))]
                return [(st, mk('pred', p, t))]
            return h
        if base == 'cmp(EF const&)' or base == 'compare(EF const&)':
            def h(I_, st, fn, a, x):
                u, v = I_.ef_rd(st, a[0]), I_.ef_rd(st, a[1])
                return [(st, s.cmpt(u, v))]
            return h
        if base in ('get_order_fast()', 'get_order_exact()', 'order()'):
            def h(I_, st, fn, a, x):
                t = I_.ef_rd(st, a[0]); u, _ = D.canon_sign(t)
                return [(st, mk('iu', 64, mk('order', u)))]
            return h
        if base == 'extract_double()': return lambda I_, st, fn, a, x: [(st, s.todbl(I_, st, I_.ef_rd(st, a[0])))]
        if base == 'extract_long_double()': return lambda I_, st, fn, a, x: [(st, mk('du', 'x86_fp80', mk('told', I_.ef_rd(st, a[0]))))]
        if base in ('extract_signed_long_long()', 'extract_unsigned_long_long()'):
            sg = 'unsigned' not in base
            def h(I_, st, fn, a, x):
                t = I_.ef_rd(st, a[0]); q = D.isnum(t)
                if q is not None and abs(q) < 2 ** 62 and (sg or q >= 0): return [(st, I(int(q)))]
                r = mk('iu', 64, mk('toll' if sg else 'toull', t))
                m = I_.getcls(st, t)
                if sg:
                    if m & ~U_ == 0: return [(st, I(0))]
                    if m in (P1, N1): return [(st, I(1 if m == P1 else -1))]
                    if m & ~(POS | Z) == 0: I_.setrng(st, r, (0 if m & (Z | S) else 1, 2 ** 63 - 1))
                    elif m & ~(NEG | Z) == 0: I_.setrng(st, r, (-2 ** 63, 0 if m & (Z | NS) else -1))
                return [(st, r)]
            return h
        if base == 'extract_parts(double&, long&)':
            def h(I_, st, fn, a, x):
                t = I_.ef_rd(st, a[0])
                I_.wr(st, a[1], 8, mk('du', 'double', mk('mant', t))); I_.wr(st, a[2], 8, mk('iu', 64, mk('exp10', D.canon_sign(t)[0])))
                return [(st, None)]
            return h
        if base in ('extract_integer_part()', 'extract_decimal_part()'):
            f = base[8:-2]
            def h(I_, st, fn, a, x):
                t = I_.ef_rd(st, a[1])
                m = I_.getcls(st, t)
                I_.ef_wr(st, a[0], I_.e_fun(st, f, [t], spec.unary(f, m))); return [(st, None)]
            return h
        if base == 'precision(int)':
            def h(I_, st, fn, a, x):
                oo = I_.obj_of(a[0])
                st.ev = (('prec', oo, a[1], I_.where), st.ev)
                return [(st, None)]
            return h
        if base in ('my_value_nan()', 'my_value_inf()', 'my_value_max()', 'my_value_min()'):
            k = base[9:-2]
            c = {'nan': NAN, 'inf': PINF, 'max': L, 'min': S}[k]
            def h(I_, st, fn, a, x):
                obj = ('const', 'my_' + k)
                if obj not in st.mem:
                    t = D.sym(('k', k if k in ('nan', 'inf') else 'value_' + k)); st.mem[obj] = {0: (I_.SZ, t)}; st.cls[t] = c
                return [(st, mk('p', obj, 0))]
            return h
        m = re.match(r'my_own_(\w+)\(', base)
        if m and not const:
            nm = m.group(1)
            if nm in spec.UN and len(fn.args) == 2:
                def h(I_, st, fn, a, x):
                    v = I_.ef_rd(st, a[1])
                    I_.ef_wr(st, a[0], I_.e_fun(st, nm, [v], spec.unary(nm, I_.getcls(st, v)))); return [(st, None)]
                return h
            return s.generic(nm)
        if base in ('rd_string(char const*)', 'swap(EF&)') or nm in ('wr_string', 'get_output_string'):
            if nm == 'swap':
                def h(I_, st, fn, a, x):
                    u, v = I_.ef_rd(st, a[0]), I_.ef_rd(st, a[1]); I_.ef_wr(st, a[0], v); I_.ef_wr(st, a[1], u); return [(st, None)]
                return h
            def h(I_, st, fn, a, x): return I_.opaque(st, fn, a, x, x.get('t', 'void'))
            return h
        if fn.decl: return lambda I_, st, fn, a, x: I_.opaque(st, fn, a, x, x.get('t', 'void'))
        return None

    def cmpt(s, u, v):
        return mk('cmp', u, v)

    def todbl(s, I_, st, t):
        q = s.D.isnum(t)
        if q is not None: return D_(float(q))
        return mk('du', 'double', mk('todbl', t))

    def fromint(s, I_, st, t, signed):
        """The number denoted by an integer term read as signed or unsigned."""
        D = s.D
        if t.op == 'i':
            v = t.args[0]
            if not signed: v &= (1 << t.args[1]) - 1
            return D.num(v)
        w = I_.width(t)
        if w == 1: signed = False
        neg = False
        r = I_.rng(st, t)
        while True:
            if t.op == 'sext' and (signed or I_.rng(st, t.args[1])[0] >= 0): t = t.args[1]; signed = True if I_.rng(st, t)[0] < 0 else signed; continue
            if t.op == 'zext': t = t.args[1]; signed = False; continue
            break
        if t.op == 'sub' and t.args[1].op == 'i' and t.args[1].args[0] == 0:
            # 0 - u with u <= 0 read unsigned, or u not minimal read signed, is the negated value
            u = t.args[2]; lo, hi = I_.rng(st, u); ww = I_.width(t)
            if (not signed and hi <= 0) or (signed and lo > -(1 << (ww - 1))): 
                return I_.e_neg(st, s.fromint(I_, st, u, True))
        lo, hi = I_.rng(st, t)
        if lo >= 0: signed = True
        v = D.fun('int_s' if signed else 'int_u', t)
        m = 0
        if signed:
            if hi < 0: m = NL | N1
            elif lo > 0: m = P1 | L
            elif lo == 0: m = Z | P1 | L
            else: m = NL | N1 | Z | P1 | L
            if lo > 1 and m == (P1 | L): m = L
        else: m = Z | P1 | L if lo <= 0 <= hi else P1 | L
        return I_.deriv(st, v, m)

    def ctor(s, fn, n):
        D = s.D
        ps, _ = split_params(n)
        def put(I_, st, a, t): I_.ef_wr(st, a[0], t); return [(st, None)]
        if ps == []: return lambda I_, st, fn, a, x: put(I_, st, a, D.num(0))
        if len(ps) == 1:
            p = ps[0]
            if p in ('EF const&', 'EF&&'): return lambda I_, st, fn, a, x: put(I_, st, a, I_.ef_rd(st, a[1]))
            if p in ('bool', 'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long'):
                return lambda I_, st, fn, a, x: put(I_, st, a, s.fromint(I_, st, a[1], False))
            if p in ('char', 'signed char', 'short', 'int', 'long', 'long long'):
                return lambda I_, st, fn, a, x: put(I_, st, a, s.fromint(I_, st, a[1], True))
            if p in ('float', 'double', 'long double'):
                def h(I_, st, fn, a, x):
                    v = a[1]
                    if v.op == 'd':
                        f = v.args[0]
                        if f != f: t = D.sym(('k', 'nan')); st.cls[t] = NAN
                        elif abs(f) == float('inf'):
                            t = D.sym(('k', 'inf')); st.cls[t] = PINF
                            if f < 0: t = I_.e_neg(st, t)
                        else: t = D.num(Fraction(f))
                        return put(I_, st, a, t)
                    if v.op == 'fneg': return put(I_, st, a, I_.e_neg(st, D.fun('fromdbl', v.args[1])))
                    m = re.fullmatch('todbl', v.op)
                    return put(I_, st, a, D.fun('fromdbl', v))
                return h
            if p == 'char const*':
                def h(I_, st, fn, a, x):
                    t = s.cstr(I_, st, a[1])
                    return put(I_, st, a, t)
                return h
            if 'basic_string' in p:
                return lambda I_, st, fn, a, x: put(I_, st, a, D.sym(('str', a[1], st.gen.get(I_.obj_of(a[1])[0], 0))))
            return lambda I_, st, fn, a, x: put(I_, st, a, D.sym(('ctor', n, a[1])))
        if ps == ['double', 'long']:
            def h(I_, st, fn, a, x):
                if a[1].op == 'd' and a[2].op == 'i' and abs(a[2].args[0]) < 400: return put(I_, st, a, D.num(Fraction(a[1].args[0]) * Fraction(10) ** a[2].args[0]))
                m = ALL & ~NAN & ~INF
                return put(I_, st, a, D.fun('mantexp', a[1], a[2]))
            return h
        if 'initializer_list' in ps[0]:
            def h(I_, st, fn, a, x):
                p, k, e, ng = a[1], a[2], a[3], a[4]
                if all(z.op == 'i' for z in (k, e, ng)) and k.args[0] <= 8:
                    oo = I_.obj_of(p); tot = Fraction(0); ok = True
                    for i in range(k.args[0]):
                        v = I_.rd(st, mk('p', oo[0], oo[1] + 4 * i), 4, 'i32')
                        if v.op != 'i': ok = False; break
                        tot += (v.args[0] & 0xffffffff) * Fraction(10) ** (e.args[0] - 8 * i)
                    if ok: return put(I_, st, a, D.num(-tot if ng.args[0] else tot))
                return put(I_, st, a, D.sym(('limbs', p, e)))
            return h
        return lambda I_, st, fn, a, x: put(I_, st, a, D.sym(('ctor', n, *a[1:])))

    def cstr(s, I_, st, p):
        oo = I_.obj_of(p)
        if oo and isinstance(oo[0], tuple) and oo[0][0] == 'g':
            g = s.m.globals.get(oo[0][1])
            if g and g.get('i', [0])[0] == 's':
                txt = g['i'][1][oo[1]:].split('\0')[0].strip().rstrip('lLfF')
                if len(txt) <= 60:
                    try: return s.D.num(Fraction(txt))
                    except ValueError: pass
                    return s.D.sym(('text', txt))
                return s.D.sym(('text', txt[:24], hash(txt)))
        return s.D.sym(('cstr', p, st.gen.get(oo[0], 0) if oo else 0))

U_ = NS | Z | S
