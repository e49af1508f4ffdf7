"""FL extended with literal strings, vectors of known content and the integer tables (whose entries are decided by C07)."""
import re
from fractions import Fraction
from terms import *
from absint import *
from fl import FL

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TABS = {'A000142', 'A000367', 'A002445', 'A006882', 'A007318'}


class Lit(FL):
    """C strings, std::string and vectors built from arrays are kept exactly."""
    def text(s, I_, st, p):
        oo = I_.obj_of(p)
        if oo is None or not isinstance(oo[1], int): return None
        c = st.mem.get(oo[0], {}).get(oo[1])
        if c is not None and c[1] is not ZFILL and c[1].op == 'strv': return c[1].args[0]
        if isinstance(oo[0], tuple) and oo[0][0] == 'g':
            g = s.m.globals.get(oo[0][1])
            if g and g.get('i', [0])[0] == 's': return g['i'][1][oo[1]:].split('\0')[0]
        if isinstance(oo[0], tuple) and oo[0][0] == 'strdata': return oo[0][1][oo[1]:]
        return None
    def cstr(s, I_, st, p):
        t = s.text(I_, st, p)
        if t is None: return s.D.sym(('cstr?', I_.nfresh()))
        return s.D.sym(('lit', t))
    def ctor(s, fn, n):
        ps, _ = split_params(n)
        if len(ps) == 1 and 'basic_string' in ps[0]:
            def h(I_, st, fn, a, x): I_.ef_wr(st, a[0], s.cstr(I_, st, a[1])); return [(st, None)]
            return h
        return FL.ctor(s, fn, n)
    def esize(s, I_, ty): return I_.SZ if ty == 'EF' else {'unsigned int': 4, 'int': 4, 'Util::point<double>': 16, 'Util::point<double, double>': 16}.get(ty, 8)
    def vecof(s, I_, st, p):
        oo = I_.obj_of(p)
        c = st.mem.get(oo[0], {}).get(oo[1]) if oo else None
        return c[1] if c is not None and c[1] is not ZFILL and c[1].op == 'vecv' else None
    def vecm(s, I_, st, fn, a, x, ty, r):
        """A method of a vector; None if not handled."""
        v = s.vecof(I_, st, a[0])
        if v is None: return None
        b, n, es = v.args; o = I_.obj_of(b)
        if r == 'size() const': return [(st, I(n))]
        if r == 'empty() const': return [(st, B(n == 0))]
        if r in ('begin()', 'begin() const', 'cbegin() const'): return [(st, b)]
        if r in ('end()', 'end() const', 'cend() const'): return [(st, mk('p', o[0], o[1] + n * es))]
        if r in ('front() const', 'front()') and n: return [(st, b)]
        if r in ('back() const', 'back()') and n: return [(st, mk('p', o[0], o[1] + (n - 1) * es))]
        if r.startswith(('operator[](unsigned long)', 'at(unsigned long)')) and a[1].op == 'i' and 0 <= a[1].args[0] < n: return [(st, mk('p', o[0], o[1] + a[1].args[0] * es))]
        return None
    def resolve(s, fn):
        n = fn.norm
        def put(I_, st, p, t): I_.wr(st, p, 32, mk('strv', t))
        if n.startswith(STR + '::'):
            r = n[len(STR) + 2:]
            m1 = re.match(r'basic_string(<.*>)?\(char const\*, std::allocator', r) or re.match(r'operator(\+)?=\(char const\*\)|append\(char const\*\)|assign\(char const\*\)', r)
            m2 = re.match(r'(basic_string|operator\+?=|append|assign)\(%s( const)?&&?\)' % re.escape(STR), r)
            if m1 or m2:
                app = r.startswith(('operator+=', 'append'))
                def h(I_, st, fn, a, x):
                    t = s.text(I_, st, a[1])
                    if app: o = s.text(I_, st, a[0]); t = None if o is None or t is None else o + t
                    if t is None: return I_.opaque(st, fn, a, x, x.get('t', 'void'))
                    put(I_, st, a[0], t); return [(st, a[0] if x.get('t') == 'ptr' else None)]
                return h
            if r in ('c_str() const', 'data() const', 'data()'):
                def h(I_, st, fn, a, x):
                    t = s.text(I_, st, a[0])
                    if t is None: return I_.opaque(st, fn, a, x, 'ptr')
                    return [(st, mk('p', ('strdata', t), 0))]
                return h
            if r == 'basic_string()':
                def h(I_, st, fn, a, x): put(I_, st, a[0], ''); return [(st, None)]
                return h
            if r.startswith('~'): return lambda I_, st, fn, a, x: [(st, None)]
        if n.startswith(STR + ' std::operator+<'):
            def h(I_, st, fn, a, x):
                u, v = s.text(I_, st, a[1]), s.text(I_, st, a[2])
                if u is None or v is None: return I_.opaque(st, fn, a, x, 'void')
                put(I_, st, a[0], u + v); return [(st, None)]
            return h
        if re.match(r'(\w+ )?std::(array<|__array_traits|__new_allocator<|allocator<)', n) and not fn.decl: return False
        m = re.match(r'std::vector<(.*), std::allocator<\1>>::(.*)$', n)
        if m:
            ty, r = m.groups()
            if re.match(r'vector<[^(]*(\([^)]*\)[^(]*)*, void>\(', r) and len(fn.args) == 4:
                def h(I_, st, fn, a, x):
                    z = s.vecrange(I_, st, a)
                    if z is not None: I_.wr(st, a[0], 24, z); return [(st, None)]
                    u, v = I_.obj_of(a[1]), I_.obj_of(a[2]); es = s.esize(I_, ty)
                    if u is None or v is None or u[0] != v[0] or not isinstance(u[1], int) or not isinstance(v[1], int): return I_.opaque(st, fn, a, x, 'void')
                    I_.wr(st, a[0], 24, mk('vecv', a[1], (v[1] - u[1]) // es, es)); return [(st, None)]
                return h
            if re.match(r'vector\(std::initializer_list<', r):
                def h(I_, st, fn, a, x):
                    if len(a) < 3 or a[1].op != 'p' or a[2].op != 'i': return I_.opaque(st, fn, a, x, 'void')
                    I_.wr(st, a[0], 24, mk('vecv', a[1], a[2].args[0], s.esize(I_, ty))); return [(st, None)]
                return h
            if re.match(r'(size|empty|c?begin|c?end|front|back|at|operator\[\])\(', r):
                def h(I_, st, fn, a, x):
                    z = s.vecm(I_, st, fn, a, x, ty, r)
                    return z if z is not None else I_.opaque(st, fn, a, x, x.get('t', 'void'))
                return h
        return FL.resolve(s, fn)
    def vecrange(s, I_, st, a): return None


class FLX(Lit):
    """Adds the tables as functions of their index, prime lists, iterators over known vectors."""
    def __init__(s, mod, D, sizes=None, **k):
        Lit.__init__(s, mod, D, **k); s.sizes = sizes or {}
        s.oob = []
    def vecm(s, I_, st, fn, a, x, ty, r):
        oo = I_.obj_of(a[0])
        if oo and isinstance(oo[0], tuple) and oo[0][0] in ('tab', 'row') and oo[1] == 0:
            kind, name = oo[0][:2]
            if kind == 'tab' and r == 'size() const': return [(st, I(s.sizes[name]))]
            if kind == 'row' and r == 'size() const': return [(st, I_.binop(st, 'add', 'i64', I_.cast(st, 'sext', 'i32', 'i64', oo[0][2]) if I_.width(oo[0][2]) < 64 else oo[0][2], I(1)))]
            if r.startswith('operator[](unsigned long)'):
                if kind == 'tab':
                    obj = ('tabel', name, a[1]); st.mem[obj] = {0: (8, mk('tabfn', name, a[1]))}
                    return [(st, mk('p', obj, 0))]
                obj = ('tabv', name, oo[0][2], a[1])
                if obj not in st.mem:
                    t = s.D.fun('tab:' + name, oo[0][2], a[1]); st.mem[obj] = {0: (I_.SZ, t)}; I_.setcls(st, t, P1 | L)
                return [(st, mk('p', obj, 0))]
        if oo:
            c = st.mem.get(oo[0], {}).get(oo[1])
            if c is not None and c[1] is not ZFILL and c[1].op == 'primes':
                k = c[1].args[0]
                if r == 'size() const': return [(st, I(k))]
                if r == 'empty() const': return [(st, B(k == 0))]
                i = a[1] if r.startswith('operator[](unsigned long)') else I(k - 1) if r.startswith('back()') else I(0) if r.startswith('front()') else None
                if i is not None:
                    obj = ('primeel', i); t = mk('iu', 32, mk('prime', i)); st.mem[obj] = {0: (4, t)}
                    I_.setrng(st, t, (2, 2 ** 31 - 1))
                    return [(st, mk('p', obj, 0))]
        return Lit.vecm(s, I_, st, fn, a, x, ty, r)
    def icall(s, I_, st, t, args, x):
        if t.op != 'tabfn': return None
        name, i = t.args
        if name == 'A007318': return [(st, mk('p', ('row', name, i), 0))]
        obj = ('tabv', name, i)
        if obj not in st.mem:
            v = s.D.fun('tab:' + name, i); st.mem[obj] = {0: (I_.SZ, v)}
            I_.setcls(st, v, P1 | L if name != 'A000367' else NL | N1 | P1 | L | Z)
        return [(st, mk('p', obj, 0))]
    def vecrange(s, I_, st, a):
        t = a[1]
        u = I_.obj_of(a[1])
        c = st.mem.get(u[0], {}).get(u[1]) if u else None
        return c[1] if c is not None and c[1] is not ZFILL and c[1].op == 'primes' else None
    def resolve(s, fn):
        n = fn.norm
        m = re.fullmatch(r'Tables::(A\d+)\(\)', n)
        if m and m.group(1) in TABS and m.group(1) in s.sizes:
            return lambda I_, st, fn, a, x: [(st, mk('p', ('tab', m.group(1)), 0))]
        if n.startswith('ef::prime(unsigned int, std::deque'):
            def h(I_, st, fn, a, x):
                if a[0].op != 'i': return I_.opaque(st, fn, a, x, 'void')
                I_.wr(st, a[1], 8, mk('primes', a[0].args[0])); return [(st, None)]
            return h
        if re.match(r'std::deque<unsigned int', n):
            r = n.rsplit('>>::', 1)[-1]
            if r.startswith('empty() const'):
                def h(I_, st, fn, a, x):
                    oo = I_.obj_of(a[0]); c = st.mem.get(oo[0], {}).get(oo[1]) if oo else None
                    return [(st, B(not (c is not None and c[1] is not ZFILL and c[1].op == 'primes')))]
                return h
            if re.match(r'c?(begin|end)\(\) const', r) and fn.args and len(fn.args) == 2:
                def h(I_, st, fn, a, x):
                    oo = I_.obj_of(a[1]); c = st.mem.get(oo[0], {}).get(oo[1]) if oo else None
                    if c is None or c[1] is ZFILL or c[1].op != 'primes': return I_.opaque(st, fn, a, x, 'void')
                    I_.wr(st, a[0], 8, c[1]); return [(st, None)]
                return h
        m = re.match(r'std::_Deque_iterator<unsigned int.*::_Deque_iterator\(', n)
        if m and len(fn.args) == 2:
            def h(I_, st, fn, a, x):
                u = I_.obj_of(a[1]); c = st.mem.get(u[0], {}).get(u[1]) if u else None
                if c is None or c[1] is ZFILL or c[1].op != 'primes': return I_.opaque(st, fn, a, x, 'void')
                I_.wr(st, a[0], 8, c[1]); return [(st, None)]
            return h
        if n.startswith('Util::j_pow_x(unsigned int, EF const&') and n not in s.inline:
            def h(I_, st, fn, a, x):
                v = I_.ef_rd(st, a[2]); I_.ef_wr(st, a[0], I_.e_fun(st, 'jpowx', [s.fromint(I_, st, a[1], False), v], POS | NAN)); return [(st, None)]
            return h
        if n.startswith('Util::DigitScale') and n not in s.inline:
            return s.digitscale
        if re.match(r'(.* )?std::lower_bound<.*Util::point<double(, double)?>.*>\(', n) and len(fn.args) == 3 and not fn.decl:
            def h(I_, st, fn, a, x):
                u, v = I_.obj_of(a[0]), I_.obj_of(a[1])
                w = I_.rd(st, a[2], 8, 'double')
                if u is None or v is None or u[0] != v[0] or w.op != 'd': return I_.opaque(st, fn, a, x, 'ptr')
                for k in range(u[1], v[1], 16):
                    c = I_.rd(st, mk('p', u[0], k), 8, 'double')
                    if c.op != 'd': return I_.opaque(st, fn, a, x, 'ptr')
                    if not c.args[0] < w.args[0]: return [(st, mk('p', u[0], k))]
                return [(st, a[1])]
            return h
        if re.match(r'(.* )?(std::accumulate<|std::lower_bound<|std::__lower_bound<|Util::linear_interpolate|__gnu_cxx::__normal_iterator<|bool __gnu_cxx::operator|bool std::operator)', n) and not fn.decl: return False
        return Lit.resolve(s, fn)
    def digitscale(s, I_, st, fn, a, x):
        if '$ds' not in s.sizes:
            # (its own table and interpolation, interpreted once)
            s.sizes['$ds'] = None
            J = Interp(s.m, s.D, FLX(s.m, s.D, sizes=s.sizes, contracts=False, inline=(fn.norm,)), max_steps=100000)
            try:
                r = J.run_fn(fn, [], St(), mk('site', 'ds'))
                if len(r) == 1:
                    v = J.rd(r[0][0], r[0][1], 8, 'double')
                    if v.op == 'd': s.sizes['$ds'] = v.args[0]
            except Imprecise: pass
        v = s.sizes['$ds']
        if v is None: return I_.opaque(st, fn, a, x, 'ptr')
        obj = ('const', 'digit_scale')
        st.mem[obj] = {0: (8, D_(v))}
        return [(st, mk('p', obj, 0))]


def table_sizes():
    """Number of entries of every table, from the current sources."""
    import ir
    m = ir.Module(ir.dump(ir.compile_bc(ir.lib_sources('efx', tables=True), 'efx')), 'efx')
    out = {}
    for name in TABS:
        sig = 'Tables::%s()' % name
        J = Interp(m, Free(), Lit(m, Free(), contracts=False, inline=(sig,)), max_steps=400000)
        J.policy.raw = True
        r = J.run_fn(m.need(sig), [], St(), mk('site', 'root'))
        v = J.policy.vecof(J, r[0][0], r[0][1]) if len(r) == 1 else None
        if v is None: raise ir.Broken('table function %s is not understood' % sig)
        out[name] = v.args[1]
    return out
