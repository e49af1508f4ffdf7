"""Character strings and text streams: strings of known length whose characters are terms (literals or abstract digits).

A std::string at address (o, k) owns the buffer object ('sb', o, k) with one cell per character and a terminator; positions outside it are
events.  Streams hold text and format state (flags, precision, width, fill)."""
import re
from terms import *
from absint import *
from flx import STR

STREAM0 = {'flags': 0x1002, 'precision': 6, 'width': 0, 'fill': 32}
FL_DEC, FL_FIXED, FL_HEX, FL_INTERNAL, FL_LEFT, FL_OCT, FL_RIGHT, FL_SCI, FL_BOOL, FL_SHOWBASE, FL_SHOWPOINT, FL_SHOWPOS, FL_SKIP, FL_UNIT, FL_UPPER = (1 << 1, 1 << 2, 1 << 3, 1 << 4, 1 << 5, 1 << 6, 1 << 7, 1 << 8, 1, 1 << 9, 1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 14)
ITER = r'__gnu_cxx::__normal_iterator<char( const)?\*, ?%s ?>' % re.escape(STR)


class SInterp(Interp):
    def initval(s, st, obj, off, size, ty):
        if isinstance(obj, tuple) and obj and obj[0] == 'sb': st.ev = (('bad', 'reads character %s of a string of %d' % (off, st.tag.get(('len', obj), 0)), s.where), st.ev)
        return super().initval(st, obj, off, size, ty)
    def external(s, callee, args, st, x):
        r = super().external(callee, args, st, x)
        if callee.n in ('_Znwm', '_Znam', 'malloc') and args[0].op == 'i':
            for z, p in r: z.tag[('size', p.args[0])] = args[0].args[0]
        return r
    def wr(s, st, p, size, v, why=''):
        oo = s.obj_of(p)
        if oo and isinstance(oo[0], tuple) and oo[0][0] == 'sb' and isinstance(oo[1], int) and not 0 <= oo[1] < st.tag.get(('len', oo[0]), 0):
            st.ev = (('bad', 'writes character %d of a string of %d' % (oo[1], st.tag.get(('len', oo[0]), 0)), s.where), st.ev)
        super().wr(st, p, size, v, why)


class Strings:
    """Mixin for a policy."""
    breaks = True; forks = 160; maxearly = 400
    def __init__(s, *a, **k):
        super().__init__(*a, **k); s.thrown = []
    # ---- representation
    def buf(s, I_, p):
        oo = I_.obj_of(p)
        return None if oo is None or not isinstance(oo[1], int) else ('sb', oo[0], oo[1])
    def put(s, I_, st, p, ch):
        b = s.buf(I_, p); d = {i: (1, c) for i, c in enumerate(ch)}; d[len(ch)] = (1, I(0, 8)); st.mem[b] = d; st.tag[('len', b)] = len(ch); st.gen.pop(b, None)
    def get(s, I_, st, p):
        """List of character terms, or None."""
        b = s.buf(I_, p)
        if b is None: return None
        n = st.tag.get(('len', b))
        if n is None: return None
        d = st.mem.get(b, {}); out = []
        for i in range(n):
            c = d.get(i)
            if c is None or c[0] != 1: return None
            out.append(c[1])
        return out
    def text(s, I_, st, p):
        c = s.chars(I_, st, p)
        if c is None or any(x.op != 'i' for x in c): return None
        return ''.join(chr(x.args[0] & 255) for x in c)
    def chars(s, I_, st, p, n=None):
        """Characters of a std::string or of a C string (up to n)."""
        v = s.get(I_, st, p) if n is None else None
        if v is not None: return v
        oo = I_.obj_of(p)
        if oo is None or not isinstance(oo[1], int): return None
        if isinstance(oo[0], tuple) and oo[0][0] == 'g':
            g = s.m.globals.get(oo[0][1])
            if g and g.get('i', [0])[0] == 's':
                t = g['i'][1][oo[1]:]; t = t.split('\0')[0] if n is None else t[:n]
                return [I(ord(c), 8) for c in t]
            if g and g.get('i', [0])[0] == 'z': return []
        d = st.mem.get(oo[0]); out = []
        if d is None: return None
        k = oo[1]
        while True:
            if n is not None and len(out) == n: return out
            c = d.get(k)
            if c is None or c[0] != 1 or c[1] is ZFILL: return None
            if n is None and c[1].op == 'i' and c[1].args[0] & 255 == 0: return out
            out.append(c[1]); k += 1
    def thr(s, I_, st, why):
        s.thrown.append((st, why, I_.where)); return []
    def bad(s, I_, st, why): st.ev = (('bad', why, I_.where), st.ev)
    def ch(s, t): return I(t.args[0], 8) if t.op == 'i' else t
    def un(s, t, w=64):
        return None if t.op != 'i' else t.args[0] & ((1 << w) - 1)
    def lit(s, t): return [I(ord(c), 8) for c in t]
    # ---- streams
    def ios(s, I_, p):
        oo = I_.obj_of(p)
        return None if oo is None else ('ios', oo[0])
    def fmt(s, st, k): return dict(st.tag.get(k) or STREAM0)
    def newstream(s, I_, st, p):
        oo = I_.obj_of(p)
        vt = ('streamvt',); st.mem[vt] = {0: (8, I(0, 64))}; d = dict(st.mem.get(oo[0], {}))
        for k in (0, 16): d[oo[1] + k] = (8, mk('p', vt, 24))
        st.mem[oo[0]] = d; st.tag[('ios', oo[0])] = dict(STREAM0); st.tag[('out', oo[0])] = ()
    def pad(s, f, ch):
        w = f['width']
        if w > len(ch):
            fill = [I(f['fill'], 8)] * (w - len(ch))
            adj = f['flags'] & (FL_LEFT | FL_INTERNAL)
            if adj == FL_LEFT: return ch + fill
            if adj == FL_INTERNAL and ch and ch[0].op == 'i' and chr(ch[0].args[0]) in '+-': return ch[:1] + fill + ch[1:]
            return fill + ch
        return ch
    def out(s, I_, st, p, ch, padded=True):
        oo = I_.obj_of(p); k = ('ios', oo[0]); f = s.fmt(st, k)
        if padded: ch = s.pad(f, list(ch)); f['width'] = 0; st.tag[k] = f
        st.tag[('out', oo[0])] = tuple(st.tag.get(('out', oo[0]), ())) + tuple(ch)
    def number(s, I_, st, f, t, w, signed):
        """Decimal text of a built-in integer: [(state, characters)], or None."""
        if t.op != 'i': return None
        v = t.args[0]
        if f['flags'] & (FL_HEX | FL_OCT): return None
        if not signed: v &= (1 << w) - 1
        return [(st, s.lit(('+' if f['flags'] & FL_SHOWPOS and signed and v >= 0 else '') + str(v)))]
    def other_stream(s, I_, st, fn, a, x): return None
    def io(s, fn, n):
        m = re.match(r'std::(?:__cxx11::)?basic_([io]?stringstream|stringbuf)<char.*?>::basic_\1\((.*)\)$', n)
        if m:
            def h(I_, st, fn, a, x):
                s.newstream(I_, st, a[0])
                if STR in m.group(2):
                    c = s.chars(I_, st, a[1])
                    if c is None: st.tag[('in', I_.obj_of(a[0])[0])] = None
                    else: s.out(I_, st, a[0], c, False)
                return [(st, None)]
            return h
        if re.match(r'std::(__cxx11::)?basic_[io]?stringstream<.*>::~', n): return lambda I_, st, fn, a, x: [(st, None)]
        if re.match(r'std::(__cxx11::)?basic_[io]?stringstream<.*>::str\(\) const$', n):
            def h(I_, st, fn, a, x): s.put(I_, st, a[0], list(st.tag.get(('out', I_.obj_of(a[1])[0]), ()))); return [(st, None)]
            return h
        m = re.match(r'std::(?:ios_base|basic_ios<char.*?>)::(flags|precision|width|fill)\((.*)\)( const)?$', n)
        if m:
            key = m.group(1)
            def h(I_, st, fn, a, x):
                k = s.ios(I_, a[0])
                if k is None: return I_.opaque(st, fn, a, x, x.get('t', 'void'))
                f = s.fmt(st, k); w = {'flags': 32, 'fill': 8}.get(key, 64); old = f[key]
                if m.group(2):
                    if a[1].op != 'i': st.ev = (('state', key, I_.where), st.ev); return [(st, I(old, w))]
                    f[key] = a[1].args[0] if key != 'fill' else a[1].args[0] & 255; st.tag[k] = f
                return [(st, I(old, w))]
            return h
        m = re.match(r'std::ios_base::(setf|unsetf)\((.*)\)$', n)
        if m:
            def h(I_, st, fn, a, x):
                k = s.ios(I_, a[0]); f = s.fmt(st, k); old = f['flags']
                if any(t.op != 'i' for t in a[1:]): st.ev = (('state', 'flags', I_.where), st.ev); return [(st, I(old, 32) if x.get('t', 'void') != 'void' else None)]
                if m.group(1) == 'unsetf': f['flags'] &= ~a[1].args[0]
                elif len(a) > 2: f['flags'] = f['flags'] & ~a[2].args[0] | a[1].args[0] & a[2].args[0]
                else: f['flags'] |= a[1].args[0]
                st.tag[k] = f; return [(st, I(old, 32) if x.get('t', 'void') != 'void' else None)]
            return h
        if re.match(r'std::basic_ios<char.*>::copyfmt\(', n):
            def h(I_, st, fn, a, x): st.tag[s.ios(I_, a[0])] = s.fmt(st, s.ios(I_, a[1])); return [(st, a[0])]
            return h
        if re.match(r'std::(ios_base::(imbue|getloc)|basic_ios<char.*>::(imbue|good|eof|fail|bad|operator|clear|setstate))', n) and fn.decl or re.match(r'std::(locale::|ios_base::getloc|ios_base::~|basic_ios<.*>::imbue)', n):
            return lambda I_, st, fn, a, x: [(st, None if x.get('t', 'void') == 'void' else I(0, bitw(x['t'])) if bitw(x['t']) else mk('p', ('locale',), 0))]
        m = re.match(r'std::(?:ostream|basic_ostream<char.*?>)::operator<<\((.*)\)$', n)
        if m:
            t = m.group(1)
            if t in ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short'):
                w = {'int': 32, 'unsigned int': 32, 'short': 16, 'unsigned short': 16}.get(t, 64)
                def h(I_, st, fn, a, x):
                    r = s.number(I_, st, s.fmt(st, s.ios(I_, a[0])), a[1], w, not t.startswith('unsigned'))
                    if r is None: raise Imprecise('number of unknown value written to a stream')
                    for z, c in r: s.out(I_, z, a[0], c)
                    return [(z, a[0]) for z, _ in r]
                return h
            if '(*)' in t:
                def h(I_, st, fn, a, x):
                    k = s.ios(I_, a[0]); f = s.fmt(st, k)
                    nm = s.m.fns[a[1].args[0]].norm if a[1].op == 'fn' and a[1].args[0] in s.m.fns else ''
                    z = re.match(r'std::(\w+)\(std::ios_base&\)', nm)
                    g = {'fixed': (FL_FIXED, FL_FIXED | FL_SCI), 'scientific': (FL_SCI, FL_FIXED | FL_SCI), 'dec': (FL_DEC, FL_DEC | FL_HEX | FL_OCT), 'hex': (FL_HEX, FL_DEC | FL_HEX | FL_OCT), 'left': (FL_LEFT, FL_LEFT | FL_RIGHT | FL_INTERNAL), 'right': (FL_RIGHT, FL_LEFT | FL_RIGHT | FL_INTERNAL),
                         'showpoint': (FL_SHOWPOINT,) * 2, 'showpos': (FL_SHOWPOS,) * 2, 'uppercase': (FL_UPPER,) * 2, 'noshowpoint': (0, FL_SHOWPOINT), 'noshowpos': (0, FL_SHOWPOS), 'nouppercase': (0, FL_UPPER)}.get(z.group(1) if z else '')
                    if g is None: raise Imprecise('manipulator ' + nm)
                    f['flags'] = f['flags'] & ~g[1] | g[0]; st.tag[k] = f; return [(st, a[0])]
                return h
        if re.match(r'(.* )?std::operator<<<', n) or n.startswith('std::operator<<'):
            if '_Setw' in n or '_Setprecision' in n:
                key = 'width' if '_Setw' in n else 'precision'
                def h(I_, st, fn, a, x):
                    v = a[1] if a[1].op == 'i' else None
                    if v is None: raise Imprecise('width')
                    k = s.ios(I_, a[0]); f = s.fmt(st, k); f[key] = v.args[0]; st.tag[k] = f; return [(st, a[0])]
                return h
            if '_Setfill' in n:
                def h(I_, st, fn, a, x):
                    if a[1].op != 'i': raise Imprecise('fill %s' % show(a[1], 4))
                    k = s.ios(I_, a[0]); f = s.fmt(st, k); f['fill'] = a[1].args[0] & 255; st.tag[k] = f; return [(st, a[0])]
                return h
            if re.search(r'&, char\)$', n):
                def h(I_, st, fn, a, x): s.out(I_, st, a[0], [s.ch(a[1])]); return [(st, a[0])]
                return h
            if n.endswith(('char const*)', STR + ' const&)')) or re.search(r'basic_string<.*const&\)$', n):
                def h(I_, st, fn, a, x):
                    c = s.chars(I_, st, a[1])
                    if c is None: raise Imprecise('unknown text written to a stream')
                    s.out(I_, st, a[0], c); return [(st, a[0])]
                return h
        m = re.match(r'std::(?:ostream|basic_ostream<char.*?>)::(put|write|flush)\(', n)
        if m:
            def h(I_, st, fn, a, x):
                c = [] if m.group(1) == 'flush' else [s.ch(a[1])] if m.group(1) == 'put' else s.chars(I_, st, a[1], s.un(a[2]))
                if c is None: raise Imprecise('unknown text written to a stream')
                s.out(I_, st, a[0], c, False); return [(st, a[0])]
            return h
        m = re.match(r'std::(?:istream|basic_istream<char.*?>)::operator>>\((int|long|unsigned int|unsigned long|long long|unsigned long long)&\)$', n)
        if m:
            w = 32 if 'int' in m.group(1) else 64
            def h(I_, st, fn, a, x):
                c = st.tag.get(('out', I_.obj_of(a[0])[0]), ()); t = ''
                for k in c:
                    if k.op != 'i': raise Imprecise('number of unknown digits read from a stream')
                    t += chr(k.args[0] & 255)
                q = re.match(r'\s*([+-]?\d+)', t)
                v = int(q.group(1)) if q else 0
                I_.wr(st, a[1], w // 8, I(v, w)); return [(st, a[0])]
            return h
        return None
    # ---- strings
    def resolve_str(s, fn):
        n = fn.norm
        r = s.io(fn, n)
        if r: return r
        if re.match(r'((const )?\w+( const)?& |(const )?\w+ |std::_Set\w+(<char>)? )?(std::(operator[&|^~]=?|setw|setfill|setprecision|__addressof|addressof|min|max|move|forward|reverse_iterator|__ops|__niter|distance|__distance|__iterator_category|iterator_traits|char_traits|_Setw|make_reverse_iterator|advance|__advance|next|prev)\b|__gnu_cxx::)', n) and not fn.decl and 'insert' not in n: return False
        if re.match(r'.*\bstd::operator[-+=!<>]=?<.*__normal_iterator<char', n) and not fn.decl: return False
        if re.match(r'.*\bstd::(reverse_iterator<|find_if|find_if_not|__find_if|__find_if_not|distance<|__distance<|__iterator_category|any_of|all_of|none_of|count_if|__count_if)', n) and not fn.decl: return False
        if re.match(r'.*__gnu_cxx::(__normal_iterator<char|__ops::|operator)', n) and not fn.decl: return False
        if re.match(r'std::(__new_allocator|allocator)<char>', n) and 'allocate(' not in n: return lambda I_, st, fn, a, x: [(st, None)]
        if re.match(r'(%s )?std::(__cxx11::)?(operator\+|__str_concat)' % re.escape(STR), n):
            cat = '__str_concat' in n
            ps = split_params(n)[0] or []
            def h(I_, st, fn, a, x):
                if cat: u, v = s.chars(I_, st, a[1], s.un(a[2])), s.chars(I_, st, a[3], s.un(a[4]))
                else: u, v = [[s.ch(t)] if ps[k] == 'char' else s.chars(I_, st, t) for k, t in enumerate(a[1:3])]
                if u is None or v is None: raise Imprecise('unknown text')
                s.put(I_, st, a[0], u + v); return [(st, None)]
            return h
        m = re.match(r'(%s )?std::(__cxx11::)?to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)$' % re.escape(STR), n)
        if m:
            w = 32 if 'int' in m.group(3) else 64
            def h(I_, st, fn, a, x):
                r = s.number(I_, st, dict(STREAM0), a[1], w, 'unsigned' not in m.group(3))
                if r is None: raise Imprecise('text of an unknown number')
                for z, c in r: s.put(I_, z, a[0], c)
                return [(z, None) for z, _ in r]
            return h
        if n == 'strlen' or fn.n == 'strlen':
            def h(I_, st, fn, a, x):
                c = s.chars(I_, st, a[0])
                if c is None: raise Imprecise('strlen')
                return [(st, I(len(c), 64))]
            return h
        if not n.startswith(STR + '::'): return None
        r = n[len(STR) + 2:]
        ps = split_params(r)[0] or []
        nm = re.match(r'[~\w+=\[\]]+', r).group(0) if not r.startswith('operator') else r.split('(')[0]
        ps = [p for p in ps if 'std::allocator<char> const&' not in p or STR in p]
        ps = ['S' if re.fullmatch(re.escape(STR) + r'( const)?( ?&&?)?', p) else 'I' if 'normal_iterator' in p or p in ('char*',) and False else 'c*' if p == 'char const*' else p for p in ps]
        def val(I_, st, p, t):
            if p == 'S' or p == 'c*': return s.chars(I_, st, t)
            if p == 'char': return [s.ch(t)]
            return None
        def self_(I_, st, p):
            c = s.get(I_, st, p)
            if c is None: raise Imprecise('unknown string')
            return c
        def num(t):
            v = s.un(t)
            if v is None: raise Imprecise('unknown string position')
            return v
        def piece(I_, st, ps, a):
            """Characters denoted by an argument list (S | c* | c*,n | n,char | S,pos,n | I,I | char | initializer list)."""
            if len(ps) == 1: c = val(I_, st, ps[0], a[0])
            elif ps[:2] == ['c*', 'unsigned long']: c = s.chars(I_, st, a[0], num(a[1]))
            elif ps[:2] == ['unsigned long', 'char']:
                k = num(a[0])
                if k > 1 << 20: return ('throw', 'length_error: a string of %d characters' % k)
                c = [s.ch(a[1])] * k
            elif ps[:2] == ['S', 'unsigned long']:
                c = s.chars(I_, st, a[0]); k = num(a[1])
                if c is not None:
                    if k > len(c): return ('throw', 'out_of_range: position %d of a string of %d' % (k, len(c)))
                    c = c[k:k + (num(a[2]) if len(ps) > 2 else len(c))]
            elif len(ps) == 2 and (ps[0] == ps[1]):
                u, v = I_.obj_of(a[0]), I_.obj_of(a[1])
                if u is None or v is None or u[0] != v[0]: return None
                c = s.chars(I_, st, a[0], v[1] - u[1]) if v[1] >= u[1] else None
            else: c = None
            return c
        def pos(I_, st, p, t):
            """Offset of an iterator into the string at p."""
            oo = I_.obj_of(t); b = s.buf(I_, p)
            if oo is None or oo[0] != b or not isinstance(oo[1], int): raise Imprecise('iterator')
            return oo[1]
        def fin(st, x, a): return [(st, None if x.get('t', 'void') == 'void' else a[0])]
        if nm.startswith('~') or nm in ('reserve', 'shrink_to_fit'): return lambda I_, st, fn, a, x: [(st, None)]
        if nm == 'basic_string' or nm in ('operator=', 'assign'):
            def h(I_, st, fn, a, x):
                c = [] if not ps else piece(I_, st, ps, a[1:])
                if isinstance(c, tuple): return s.thr(I_, st, c[1])
                if c is None: raise Imprecise('unknown text')
                s.put(I_, st, a[0], c)
                return fin(st, x, a)
            return h
        if nm in ('operator+=', 'append', 'push_back'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); c = piece(I_, st, ps, a[1:])
                if isinstance(c, tuple): return s.thr(I_, st, c[1])
                if c is None: raise Imprecise('unknown text')
                s.put(I_, st, a[0], o + c); return fin(st, x, a)
            return h
        if nm == 'insert':
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); it = ps[0] == 'I'
                k = pos(I_, st, a[0], a[1]) if it else num(a[1])
                q = ps[1:]; c = piece(I_, st, q, a[2:])
                if isinstance(c, tuple): return s.thr(I_, st, c[1])
                if c is None: raise Imprecise('unknown text')
                if not 0 <= k <= len(o):
                    if it: s.bad(I_, st, 'inserts at position %d of a string of %d' % (k, len(o))); return []
                    return s.thr(I_, st, 'out_of_range: insert at position %d of a string of %d' % (k, len(o)))
                s.put(I_, st, a[0], o[:k] + c + o[k:])
                if it: return [(st, None if x.get('t', 'void') == 'void' else mk('p', s.buf(I_, a[0]), k))]
                return fin(st, x, a)
            return h
        if nm in ('erase', 'replace', 'clear', 'pop_back', 'resize'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); ret = None
                if nm == 'clear': o = []
                elif nm == 'pop_back':
                    if not o: s.bad(I_, st, 'removes the last character of an empty string'); return []
                    o = o[:-1]
                elif nm == 'resize':
                    k = num(a[1])
                    if k > 1 << 20: return s.thr(I_, st, 'length_error: resize to %d characters' % k)
                    o = (o + [s.ch(a[2]) if len(ps) > 1 else I(0, 8)] * k)[:k]
                elif nm == 'erase':
                    if ps and ps[0] == 'I':
                        i = pos(I_, st, a[0], a[1]); j = pos(I_, st, a[0], a[2]) if len(ps) > 1 else i + 1
                        if not 0 <= i <= j <= len(o): s.bad(I_, st, 'erases characters %d to %d of a string of %d' % (i, j, len(o))); s.thrown.append((st, 'erases characters %d to %d of a string of %d' % (i, j, len(o)), I_.where)); return []
                        ret = mk('p', s.buf(I_, a[0]), i)
                    else:
                        i = num(a[1]) if len(a) > 1 else 0; k = num(a[2]) if len(a) > 2 else len(o)
                        if i > len(o): return s.thr(I_, st, 'out_of_range: erase at position %d of a string of %d' % (i, len(o)))
                        j = min(len(o), i + k)
                    o = o[:i] + o[j:]
                else:
                    if ps[:2] != ['unsigned long', 'unsigned long']: raise Imprecise('replace')
                    i = num(a[1]); j = min(len(o), i + num(a[2])); c = piece(I_, st, ps[2:], a[3:])
                    if i > len(o): return s.thr(I_, st, 'out_of_range: replace at position %d of a string of %d' % (i, len(o)))
                    if c is None or isinstance(c, tuple): raise Imprecise('replace')
                    o = o[:i] + c + o[j:]
                s.put(I_, st, a[0], o)
                if ret is not None: return [(st, None if x.get('t', 'void') == 'void' else ret)]
                return fin(st, x, a)
            return h
        if nm == 'substr':
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[1]); i = num(a[2]); k = num(a[3])
                if i > len(o): return s.thr(I_, st, 'out_of_range: substr at position %d of a string of %d' % (i, len(o)))
                s.put(I_, st, a[0], o[i:i + k]); return [(st, None)]
            return h
        if nm in ('at', 'operator[]', 'front', 'back'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); i = 0 if nm == 'front' else len(o) - 1 if nm == 'back' else num(a[1])
                if nm == 'at' and i >= len(o): return s.thr(I_, st, 'out_of_range: at(%d) of a string of %d' % (i, len(o)))
                if not 0 <= i <= len(o) or i == len(o) and nm in ('front', 'back'): s.bad(I_, st, 'accesses character %d of a string of %d' % (i, len(o)))
                return [(st, mk('p', s.buf(I_, a[0]), i))]
            return h
        if nm in ('length', 'size', 'empty'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); return [(st, B(not o) if nm == 'empty' else I(len(o), 64))]
            return h
        if nm in ('begin', 'cbegin', 'end', 'cend', 'c_str', 'data'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); return [(st, mk('p', s.buf(I_, a[0]), len(o) if 'end' in nm else 0))]
            return h
        if nm in ('rbegin', 'crbegin', 'rend', 'crend'):
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[1]); I_.wr(st, a[0], 8, mk('p', s.buf(I_, a[1]), 0 if 'end' in nm else len(o))); return [(st, None)]
            return h
        m = re.fullmatch(r'(r?)find(_first_not_of|_last_not_of|_first_of|_last_of|)', nm)
        if m:
            back = bool(m.group(1)) or 'last' in nm; neg = 'not' in nm; whole = nm in ('find', 'rfind')
            def h(I_, st, fn, a, x):
                o = self_(I_, st, a[0]); pat = val(I_, st, ps[0], a[1])
                if pat is None or any(t.op != 'i' for t in pat): raise Imprecise('pattern')
                k = num(a[2]) if len(a) > 2 else (len(o) if back else 0)
                L = len(pat) if whole else 1
                idx = range(min(k, len(o) - L), -1, -1) if back else range(k, len(o) - L + 1)
                out = []; cur = [st]
                for i in idx:
                    nxt = []
                    for z in cur:
                        if whole: cond = TRUE; 
                        if whole:
                            cond = TRUE
                            for q, t in zip(pat, o[i:i + L]): cond = I_.binop(z, 'and', 'i1', cond, I_.icmp(z, 'eq', t, q))
                        else:
                            cond = FALSE
                            for q in pat: cond = I_.binop(z, 'or', 'i1', cond, I_.icmp(z, 'eq', o[i], q))
                            if neg: cond = I_.bnot(cond)
                        for y, v in I_.decide(z, cond, I_.where):
                            if v: out.append((y, I(i, 64)))
                            else: nxt.append(y)
                    cur = nxt
                    if not cur: break
                return out + [(z, I(-1, 64)) for z in cur]
            return h
        return None
    def resolve(s, fn):
        r = s.resolve_str(fn)
        if r is not None: return r
        return super().resolve(fn)
