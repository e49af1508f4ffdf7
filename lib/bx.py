"""Self-contained back end: the number class is interpreted down to its limb array (a heap object).  Values are not tracked; the class
(NaN, infinity, finite), the sign and the first limb are.  Limb loops with symbolic positions make the array unknown and nothing else."""
import re
from terms import *
from absint import *
from fl import FL, CONTAINER, KNOWN
import spec


class XInterp(Interp):
    def rd(s, st, p, size, ty):
        s.use(st, p, 'read of')
        return Interp.rd(s, st, p, size, ty)
    def wr(s, st, p, size, v, why=''):
        s.use(st, p, 'write to')
        wrote(s, st, p)
        Interp.wr(s, st, p, size, v, why)
    def use(s, st, p, what):
        oo = s.obj_of(p)
        if oo is None or p.op == 'p' and isinstance(oo[0], tuple) and oo[0][0] == 'deref' and oo[0][1].op == 'null':
            st.ev = (('ts', what + ' the storage of a number that has none (null array)', s.where), st.ev)
        elif ('freed', oo[0]) in st.tag: st.ev = (('ts', what + ' released storage', s.where), st.ev)
        elif isinstance(oo[0], tuple) and oo[0][0] == 'h' and isinstance(oo[1], int):
            z = st.tag.get(('size', oo[0]))
            if z is not None and not 0 <= oo[1] < z: st.ev = (('bound', '%s byte %d of an array of %d bytes' % (what, oo[1], z), s.where), st.ev)
    def initval(s, st, obj, off, size, ty):
        v = Interp.initval(s, st, obj, off, size, ty)
        if isinstance(obj, tuple) and obj[0] in ('a', 'h') and not st.gen.get(obj) and off not in st.tag.get(('w', obj), ()): st.ev = (('undef', obj, off, s.where), st.ev)
        return v
    def memcpy(s, st, dst, src, n):
        if isI(n) and n.args[0] > 0:
            for p, what in ((dst, 'write to'), (src, 'read of')):
                s.use(st, p, what)
                oo = s.obj_of(p)
                if oo and isinstance(oo[1], int): s.use(st, mk('p', oo[0], oo[1] + n.args[0] - 1), what)
        if isI(n) and n.args[0] == 0: return
        # every limb copied is an explicit cell
        oo = s.obj_of(src)
        if isI(n) and oo is not None and isinstance(oo[0], tuple) and oo[0][0] == 'h' and isinstance(oo[1], int) and n.args[0] <= 4096 and n.args[0] % 4 == 0 and oo[1] % 4 == 0:
            d = st.mem.get(oo[0], {})
            for k in range(oo[1], oo[1] + n.args[0], 4):
                if k not in d and not any(isinstance(o, int) and o < k + 4 and k < o + z for o, (z, _) in d.items()): s.initval(st, oo[0], k, 4, 'i32'); d = st.mem.get(oo[0], {})
        Interp.memcpy(s, st, dst, src, n)
    def external(s, callee, args, st, x):
        n = callee.n
        if n in ('_Znwm', '_Znam', 'malloc'):
            obj = ('h', x.get('l', 0), x['d'], s.nfresh()); st.mem[obj] = {}
            if isI(args[0]): st.tag[('size', obj)] = args[0].args[0]
            return [(st, mk('p', obj, 0))]
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm'):
            oo = s.obj_of(args[0])
            if oo is not None and isinstance(oo[0], tuple) and oo[0][0] == 'h':
                if ('freed', oo[0]) in st.tag: st.ev = (('ts', 'storage released twice', s.where), st.ev)
                st.tag[('freed', oo[0])] = True
            return [(st, None)]
        return Interp.external(s, callee, args, st, x)


class BX(FL):
    number_cells = False
    keep = None
    kernels = True        # limb loops by contract
    breaks = property(lambda s: s.coarse or not s.kernels)         # counted loops left early are enumerated
    forks = property(lambda s: 1 if s.kernels else 48)
    coarse = False        # arithmetic inside an iteration gives any finite number
    def __init__(s, mod, D, roots=(), readonly=()):
        FL.__init__(s, mod, D, roots=roots, readonly=readonly, contracts=False)
        s.f = None
    def is_ef(s, I_, obj, off): return False
    def vptr_at(s, I_, obj): return isinstance(obj, str)
    def curprec(s, st): return None

    def resolve(s, fn):
        n = fn.norm
        if fn.n == '__cxa_guard_acquire': return s.guard
        if n.startswith(('EF::mul_loop', 'EF::div_loop')): return s.limbs if s.kernels else False
        if n in ('EF::e_float(char const*)', 'EF::rd_string(char const*)') or n.startswith('EF::e_float(std::') : return s.text
        if n.startswith('EF::get_output_string') : return s.opaque_h
        if n.startswith('EF::cmp_data('): return s.cmpdata
        if s.coarse and fn.norm not in s.roots and re.fullmatch(r'EF::operator[-+*/]=\(EF const&\)|(?:EF|e_float_base)::((add|sub|mul|div)_(un)?signed_long_long\((unsigned )?long long\))', n): return s.anyfinite
        if s.coarse and n == 'EF::e_float(double, long)' and n not in s.roots: return s.anyfinite
        if s.coarse and n.startswith('EF::extract_parts(double&, long&)') and n not in s.roots: return s.anyparts
        if re.search(r'\bstd::swap<unsigned int>\(', n): return False
        if n in ('EF::calculate_inv()', 'EF::calculate_sqrt()'): return s.newton
        m = re.match(r'[^(]*\bstd::find_if(_not)?<unsigned int(?: const)?\*, (.*)>\(', n)
        if m:
            lam = s.m.find(m.group(2) + '::operator()(unsigned int const&) const')
            if lam is not None: return lambda I_, st, fn, a, x, neg=bool(m.group(1)): s.findif(I_, st, lam, a, neg)
        if re.match(r'[^(]*\bstd::(copy|copy_backward|move|move_backward|fill|fill_n|mismatch|reverse|rotate|__\w*(copy|fill|move|niter|miter|mismatch|reverse|iter_swap)\w*)\b', n) and 'char' not in n: return False
        m = re.fullmatch(r'ef::(\w+)\(\)', n)
        if m and fn.rt == 'ptr' and not fn.args and not fn.decl and m.group(1) in KNOWN: return s.known
        if n == 'ef::pow2(long)' : return s.pow2
        if n.startswith(('EF::', 'e_float_base::', 'ef::', 'EF ef::', 'util::dynamic_array', 'bool ef::')): return False
        if 'native_float_parts' in n: return False
        if fn.decl: return False
        if CONTAINER.search(n) and 'allocator<unsigned int>' not in n and 'allocator_traits' not in n and 'find_if' not in n: return s.opaque_h
        return False

    def guard(s, I_, st, fn, a, x):
        k = ('guard', a[0].args[0])
        if st.tag.get(k): return [(st, I(0, 32))]
        st.tag[k] = True
        return [(st, I(1, 32))]

    def newton(s, I_, st, fn, a, x):
        """Inverse and square root of a finite number that takes the iterating path: contract (the iteration itself is numerical)."""
        out = []
        oo = I_.obj_of(a[0])
        if oo is None: return I_.run_fn(fn, a, st, mk('site', 'newton', I_.nfresh()))
        for z, c, _ in s.classify(I_, st, a[0]):
            h = s.array(I_, z, oo)
            one = c & (P1 | N1) and not c & ~(P1 | N1)
            if c & (NAN | INF | Z) or one or h is None or 'sqrt' in fn.norm and c & NEG:
                out += I_.run_fn(fn, a, z, mk('site', 'newton', I_.nfresh())); continue
            n = z.tag.get(('size', h), 64) // 4
            L = tuple(s.limb(I_, z, (h, 0), k) for k in range(n))
            e = I_.rd(z, mk('p', oo[0], oo[1] + s.off['exp']), 8, 'i64')
            lo, hi = I_.rng(z, e)
            nm = 'ix' if 'inv' in fn.norm else 'sq'
            te = mk('iu', 64, mk(nm + 'exp', e, L))
            I_.setrng(z, te, (-hi - 8, -lo) if nm == 'ix' else (lo // 2 - 8, hi // 2 + 8))
            I_.wr(z, mk('p', oo[0], oo[1] + s.off['exp']), 8, te)
            for k in range(n):
                t = mk('iu', 32, mk(nm + 'limb', e, L, k)); I_.setrng(z, t, (1 if k == 0 else 0, 10 ** 8 - 1)); I_.wr(z, mk('p', h, 4 * k), 4, t)
            out.append((z, a[0]))
        return out

    def anyfinite(s, I_, st, fn, a, x):
        oo = I_.obj_of(a[0])
        if oo is not None:
            h = s.array(I_, st, oo)
            if h is not None: st.tag[('freed', h)] = True       # replaced by a fresh array standing for the new digits
            old = dict(st.mem.get(oo[0], {}))
            s.build(I_, st, oo, None, None)
            if s.keep is None:
                # scalar parts that are not the class stay as they are (the working precision)
                w = st.copy(); s.special(I_, w, 'T2', NAN); t = {o: v for o, z, v in s.template}
                s.keep = [o for o in s.off.get('i32', ()) if w.mem['T2'].get(o, (4, None))[1] is t.get(o)]
            for o in s.keep:
                if oo[1] + o in old and h is not None: st.mem[oo[0]][oo[1] + o] = old[oo[1] + o]
        return [(st, a[0])]

    def anyparts(s, I_, st, fn, a, x):
        k = I_.nfresh()
        I_.wr(st, a[1], 8, mk('du', 'double', mk('anymant', k))); e = mk('iu', 64, mk('anyexp10', k)); I_.setrng(st, e, (-(1 << 61), 1 << 61)); I_.wr(st, a[2], 8, e)
        return [(st, None)]

    def limbs(s, I_, st, fn, a, x):
        """In-place limb arithmetic: the first operand's array becomes unknown, the carry is any 32-bit value."""
        oo = I_.obj_of(a[0])
        if oo is not None: I_.havoc(st, a[0])
        ty = x.get('t', 'void')
        return [(st, None if ty == 'void' else mk('iu', 32, mk('carry', fn.norm.split('(')[0], I_.nfresh())))]

    def limb(s, I_, st, arr, k):
        return I_.rd(st, mk('p', arr[0], arr[1] + 4 * k), 4, 'i32')

    def cmpdata(s, I_, st, fn, a, x):
        """Three-way comparison of two limb arrays."""
        u, v = s.array(I_, st, I_.obj_of(a[0])), None
        oo = I_.obj_of(a[1])
        for o, (z, t) in st.mem.get(oo[0], {}).items():
            if isinstance(o, int) and oo[1] <= o < oo[1] + 24 and t is not ZFILL and t.op == 'p' and isinstance(t.args[0], tuple) and t.args[0][0] == 'h': v = t.args[0]
        if u is None or v is None: return [(st, mk('iu', 32, mk('cmpdata', I_.nfresh())))]
        if u == v: return [(st, I(0, 32))]
        n = st.tag.get(('size', u), 64) // 4
        L = [(s.limb(I_, st, (u, 0), k), s.limb(I_, st, (v, 0), k)) for k in range(n)]
        for p, q in L:
            if p is q: continue
            if p.op == 'i' and q.op == 'i': return [(st, I(1 if p.args[0] > q.args[0] else -1, 32))]
            break
        else: return [(st, I(0, 32))]
        t = mk('iu', 32, mk('cmpdata', tuple(p for p, _ in L), tuple(q for _, q in L)))
        out = []
        for r in (-1, 0, 1):
            z = st.copy(); z.trace = ((I_.where[0], I_.where[1], mk('icmp', 'eq', t, I(r, 32)), True), z.trace)
            if r == 0:
                p, q = L[0]
                lo = max(I_.rng(z, p)[0], I_.rng(z, q)[0]); hi = min(I_.rng(z, p)[1], I_.rng(z, q)[1])
                if not (I_.setrng(z, p, (lo, hi)) and I_.setrng(z, q, (lo, hi))): continue
            out.append((z, I(r, 32)))
        return out

    def findif(s, I_, st, lam, a, neg):
        """First limb of [first, last) with the property: decided limbs are skipped, one undecided limb splits the paths."""
        p, q = I_.obj_of(a[0]), I_.obj_of(a[1])
        if p is None or q is None or p[0] != q[0] or not isinstance(p[1], int) or not isinstance(q[1], int):
            return [(st, mk('p', p[0], mk('goff', 0, 0, mk('found', I_.nfresh()))) if p else NULL)]
        out = []; k = p[1]; cur = st
        while k < q[1]:
            r = I_.run_fn(lam, [ptr('lambda'), mk('p', p[0], k)], cur, mk('site', 'lam', I_.nfresh()))
            if len(r) != 1: raise Imprecise('predicate')
            cur, c = r[0]
            ds = I_.decide(cur, c if I_.width(c) == 1 else I_.icmp(cur, 'ne', c, I(0, I_.width(c))), I_.where)
            if len(ds) == 1:
                cur, v = ds[0]
                if v != neg: return out + [(cur, mk('p', p[0], k))]
                k += 4; continue
            for z, v in ds:
                if v != neg: out.append((z, mk('p', p[0], k)))
                else: cur = z
            k += 4
            if not s.kernels: continue
            if k < q[1]:
                z = cur.copy(); t = mk('p', p[0], mk('goff', k, 0, mk('found', I_.nfresh())))
                for e in (p[1], q[1]):
                    c = I_.pcmp(z, 'eq', t, mk('p', p[0], e))
                    if c.op != 'i': z.dec[c] = False
                out.append((z, t))
            break
        out.append((cur, a[1]))
        return out

    def text(s, I_, st, fn, a, x):
        """Reading text: a finite number (its class and sign are taken from the text when it is a literal)."""
        J = s
        if 'rd_string' in fn.norm: return I_.opaque(st, fn, a, x, x.get('t', 'void'))
        t = s.cstr(I_, st, a[1]) if 'char const*' in fn.norm else None
        q = s.D.isnum(t) if t is not None else None
        s.build(I_, st, I_.obj_of(a[0]), None if q is None else q < 0, None, fresh=True, num=q)
        return [(st, None)]

    def known(s, I_, st, fn, a, x):
        obj = ('const', fn.norm[4:-2])
        if obj not in st.mem:
            st.mem[obj] = {}; s.build(I_, st, (obj, 0), False, (0, 0) if KNOWN.get(obj[1], 1) is None or KNOWN.get(obj[1], 1) > 1 else (-8, -8), fresh=True)
        return [(st, mk('p', obj, 0))]

    def pow2(s, I_, st, fn, a, x):
        s.build(I_, st, I_.obj_of(a[0]), False, None, fresh=True); return [(st, None)]

    # ------------------------------------------------------------ exemplars
    def setup(s, I_, st):
        m = s.m; S = m.structs[m.efstruct]
        fl = S['f']
        s.SZ = S['size']
        s.off = {}
        for o, ty, z in fl:
            if ty == 'i64': s.off['exp'] = o
            elif ty == 'i8': s.off.setdefault('neg', o)
            elif ty == 'i32': s.off.setdefault('i32', []).append(o)
        if 'exp' not in s.off or 'neg' not in s.off: raise Imprecise('layout')
        st.mem['T'] = {}
        st, = [z for z, _ in I_.run_fn(m.need('EF::e_float()'), [ptr('T')], st, mk('site', 'T'))]
        s.template = [(o, z, v) for o, (z, v) in st.mem['T'].items()]
        return st

    def array(s, I_, st, oo):
        """The limb array object of the number at oo, or None."""
        for o, (z, v) in st.mem.get(oo[0], {}).items():
            if isinstance(o, int) and oo[1] <= o < oo[1] + s.SZ and v is not ZFILL and isinstance(v, T) and v.op == 'p' and isinstance(v.args[0], tuple) and v.args[0][0] == 'h': return v.args[0]
        return None

    def build(s, I_, st, oo, neg, exp, fresh=True, num=None, d0=(1, 10 ** 8 - 1), tag=None):
        """A finite non-zero number at oo with unknown limbs (neg, exp may be None: unknown)."""
        obj, off = oo
        d = dict(st.mem.get(obj, {}))
        for o in [o for o, (z, _) in d.items() if isinstance(o, int) and o < off + s.SZ and off < o + z]: d.pop(o)
        tag = tag if tag is not None else I_.nfresh()
        for o, z, v in s.template:
            if v is not ZFILL and isinstance(v, T) and v.op == 'p' and isinstance(v.args[0], tuple) and v.args[0][0] == 'h':
                h = ('h', 'limbs', tag, 0); st.mem[h] = {}; st.gen[h] = 1
                zz = st.tag.get(('size', v.args[0]))
                if zz is not None: st.tag[('size', h)] = zz
                v = mk('p', h, v.args[1])
                if num == 0: I_.wr(st, v, zz or 64, ZFILL)
                elif num == 1: I_.wr(st, v, zz or 64, ZFILL); I_.wr(st, v, 4, I(1, 32))
                else:
                    f = mk('iu', 32, mk('limb', tag)); I_.setrng(st, f, d0); I_.wr(st, v, 4, f)
                    for k in range(4, zz or 64, 4): I_.wr(st, mk('p', h, k), 4, mk('iu', 32, mk('limb', tag, k // 4)))
            d[off + o] = (z, v)
        d[off + s.off['neg']] = (1, I(1 if neg else 0, 8) if neg is not None else mk('iu', 8, mk('neg', tag)))
        if num in (0, 1): e = I(0)
        else:
            e = mk('iu', 64, mk('exp', tag))
            I_.setrng(st, e, exp if exp is not None else (-(1 << 61), 1 << 61))
            if exp is not None and exp[0] == exp[1]: e = I(exp[0])
        d[off + s.off['exp']] = (8, e)
        st.mem[obj] = d

    def special(s, I_, st, name, cls):
        m = s.m; st.mem[name] = {}
        if cls in (NAN, PINF, NINF):
            fn = m.need('vdrv::nl_quiet_NaN()' if cls == NAN else 'vdrv::nl_infinity()')
            (st, p), = I_.run_fn(fn, [], st, mk('site', name, 'k'))
            (st, _), = I_.run_fn(m.need('EF::e_float(EF const&)'), [ptr(name), p], st, mk('site', name, 'c'))
            if cls == NINF:
                r = I_.run_fn(m.need('EF::negate()'), [ptr(name)], st, mk('site', name, 'n'))
                if len(r) != 1: raise Imprecise('negate')
                st = r[0][0]
            return st, None
        K = s.maxexp()
        neg = bool(cls & NEG)
        if cls == Z: s.build(I_, st, (name, 0), False, None, num=0, tag=name)
        elif cls & (P1 | N1): s.build(I_, st, (name, 0), neg, None, num=1, tag=name)
        elif cls & (S | NS): s.build(I_, st, (name, 0), neg, (-K, -8), tag=name)
        else: s.build(I_, st, (name, 0), neg, (0, K), tag=name, d0=(2, 10 ** 8 - 1))
        return st, None

    def maxexp(s):
        r = getattr(s, '_k', None)
        if r is None:
            J = Interp(s.m, s.D, FL(s.m, s.D)); r = s._k = J.run_fn(s.m.need('vdrv::nlc_max_exponent10()'), [], St(), mk('site', 'nlc'))[0][1].args[0]
        return r

    def classify(s, I_, st, p):
        m = s.m; out = []
        def ask(z, pn):
            r = I_.run_fn(m.need('EF::%s() const' % pn), [p], z, mk('site', 'ask', pn, I_.nfresh()))
            q = []
            for w, v in r: q += I_.decide(w, v if I_.width(v) == 1 else I_.icmp(w, 'ne', v, I(0, I_.width(v))))
            return q
        for z, b in ask(st, 'isnan'):
            if b: out.append((z, NAN, None)); continue
            for w, b2 in ask(z, 'isinf'):
                for u, ng in ask(w, 'isneg'):
                    if b2: out.append((u, NINF if ng else PINF, None)); continue
                    for y, zr in ask(u, 'iszero'):
                        if zr: out.append((y, Z, None)); continue
                        e = y.mem.get(I_.obj_of(p)[0], {}).get(I_.obj_of(p)[1] + s.off['exp'])
                        lo, hi = I_.rng(y, e[1]) if e else (-1 << 62, 1 << 62)
                        c = (S if lo < 0 else 0) | (P1 | L if hi >= 0 else 0)
                        if lo >= 0 and c & P1:
                            for x, one in ask(y, 'isone') if not ng else [(y, None)]:
                                cc = c & ~P1 if one is False else P1 if one else c
                                out.append((x, c_neg(cc) if ng else cc, None))
                        else: out.append((y, c_neg(c) if ng else c, None))
        return out
