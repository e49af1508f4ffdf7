"""Back-end policy: the number class's own methods are interpreted; the foreign library's operations on
handles are primitives (a handle cell refers to a handle object holding value, liveness and precision)."""
import re
from fractions import Fraction
from terms import *
from absint import *
from fl import FL, KNOWN
import spec

HSTRUCT = {'gmp': 'struct.__mpf_struct', 'mpfr': 'struct.__mpfr_struct'}


class BEInterp(Interp):
    def hcell(s, st, obj, off):
        """The handle cell covering the given byte, as (offset, size, term)."""
        if not isinstance(off, int): return None
        for o, (z, v) in st.mem.get(obj, {}).items():
            if o <= off < o + z and v is not ZFILL and v.op == 'mpf': return o, z, v
        return None
    def rd(s, st, p, size, ty):
        oo = s.obj_of(p)
        if oo is not None:
            c = s.hcell(st, *oo)
            if c is not None and (c[0], c[1]) != (oo[1], size): return s.part(st, c, oo[1] - c[0], size, ty)
        return Interp.rd(s, st, p, size, ty)
    def part(s, st, c, k, size, ty):
        """A field of a foreign handle."""
        h = c[2].args[0]
        if ty == 'ptr': return mk('p', ('limbs', h), 0) if h is not None else NULL
        if h is None: return s.zero(ty)
        v = s.hval(st, h)
        if size == 4 and (s.m.cfg == 'gmp' and k == 4): return mk('cmp', v, s.D.num(0))
        if size == 4 and s.m.cfg == 'mpfr' and k == 8: return mk('iu', 32, mk('sign', v))
        return s.unk(('part', k), ty)
    def hval(s, st, h):
        c = st.mem.get(('hs', h), {}).get(0)
        if c is None: return s.D.sym(('dead', h))
        return c[1]
    def wr(s, st, p, size, v, why=''):
        oo = s.obj_of(p); wrote(s, st, p)
        if oo is not None and v is not ZFILL:
            c = s.hcell(st, *oo)
            if c is not None and (c[0], c[1]) != (oo[1], size) and c[0] <= oo[1] and oo[1] + size <= c[0] + c[1]:
                d = dict(st.mem[oo[0]])
                if v.op == 'null': d[c[0]] = (c[1], mk('mpf', None))
                else:
                    h = c[2].args[0]
                    if h is not None: s.policy.setval(s, st, h, s.D.sym(('partwrite', s.nfresh())), FIN)
                st.mem[oo[0]] = d; s.policy.on_write(s, st, oo[0], oo[1], size, v); return
        Interp.wr(s, st, p, size, v, why)
    def initval(s, st, obj, off, size, ty):
        v = Interp.initval(s, st, obj, off, size, ty)
        if isinstance(obj, tuple) and obj[0] in ('a', 'h') and not st.gen.get(obj) and off not in st.tag.get(('w', obj), ()): st.ev = (('undef', obj, off, s.where), st.ev)
        return v
    # a number is the handle inside it
    def handle_of(s, st, p):
        oo = s.obj_of(p)
        if oo is None or not isinstance(oo[1], int): return None
        for o, (z, v) in sorted(st.mem.get(oo[0], {}).items(), key=lambda q: str(q[0])):
            if isinstance(o, int) and oo[1] <= o < oo[1] + s.SZ and v is not ZFILL and v.op == 'mpf': return v.args[0]
        return None
    def ef_rd(s, st, p):
        oo = s.obj_of(p)
        if oo and isinstance(oo[0], tuple) and oo[0][0] == 'hs': return Interp.ef_rd(s, st, p)
        h = s.handle_of(st, p)
        return s.hval(st, h) if h is not None else s.D.sym(('nohandle', str(p)))
    def ef_wr(s, st, p, v):
        oo = s.obj_of(p)
        if oo and isinstance(oo[0], tuple) and oo[0][0] == 'hs': return Interp.ef_wr(s, st, p, v)
        s.policy.mkfinite(s, st, p, v)
    def drop(s, st, frame):
        kill = [o for o in st.mem if isinstance(o, tuple) and o[0] == 'a' and o[1] is frame]
        for o in kill:
            for off, (z, v) in st.mem[o].items():
                if v is ZFILL or v.op != 'mpf' or v.args[0] is None: continue
                h = v.args[0]
                if st.mem.get(('hs', h), {}).get('live', (0, FALSE))[1] is TRUE and not any(v2 is v for ob, dd in st.mem.items() if ob is not o and ob not in kill for _, v2 in dd.values()):
                    st.ev = (('leak', h, o[3], s.where), st.ev)
        Interp.drop(s, st, frame)


def names(lib):
    """Primitive name -> (operation, has rounding argument)."""
    r = {}
    if lib == 'gmp':
        for n in ('init init2 init_set init_set_str init_set_ui init_set_si init_set_d clear set set_ui set_si set_d set_str neg abs add sub mul div add_ui sub_ui mul_ui div_ui ui_div ui_sub mul_2exp div_2exp '
                  'sqrt sqrt_ui floor ceil trunc pow_ui cmp cmp_ui cmp_si cmp_d integer_p get_d get_d_2exp get_str get_si get_ui set_prec_raw set_prec get_prec swap set_default_prec get_default_prec '
                  'fits_slong_p fits_ulong_p fits_sint_p eq reldiff').split(): r['__gmpf_' + n] = (n, 0)
    else:
        for n in ('init init2 clear set4 set set_ui set_si set_d set_ld set_inf set_nan set_zero neg abs add sub mul div add_ui sub_ui mul_ui div_ui ui_div ui_sub add_si sub_si mul_si div_si si_sub si_div mul_2si mul_2ui div_2ui div_2si sqr '
                  'sqrt cbrt root rootn_ui sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp log gamma zeta jn yn exp2 exp10 log2 log10 log1p expm1 sec csc cot pow pow_ui pow_si floor ceil trunc rint_floor rint_ceil '
                  'rint_trunc cmp3 cmp cmpabs nan_p inf_p number_p zero_p integer_p regular_p sgn signbit get_d get_ld get_d_2exp get_str get_si get_ui get_sj get_uj swap set_default_prec get_default_prec init_set_str set_str '
                  'set_prec set_prec_raw get_prec free_str set_default_rounding_mode').split(): r['mpfr_' + n] = (n, 1)
    return r


BIN = {'add': 'e_add', 'sub': 'e_sub', 'mul': 'e_mul', 'div': 'e_div'}


class BE(FL):
    def __init__(s, mod, D, roots=(), readonly=(), native=False):
        FL.__init__(s, mod, D, roots=roots, readonly=readonly, contracts=False)
        s.inl = set(roots); s.native = native
        s.prim = names(mod.cfg)
        s.HZ = mod.structs[HSTRUCT[mod.cfg]]['size']
        s.prefix = '__gmp' if mod.cfg == 'gmp' else 'mpfr_'
        s.strict = ()             # named objects whose handle must have been initialised
        s.template = None         # cells of a finite number, see setup
        s.defprec = None
    def vptr_at(s, I_, obj): return isinstance(obj, str)
    def is_ef(s, I_, obj, off): return False

    # ------------------------------------------------------------ handles
    def ts(s, I_, st, kind, p): st.ev = (('ts', kind, I_.where), st.ev)
    def newh(s, I_, st, p, t, c=None):
        """Initialise the handle at p."""
        oo = I_.obj_of(p)
        if oo is None: s.ts(I_, st, 'initialises a null handle', p); return
        old = I_.hcell(st, *oo)
        if old is not None and old[2].args[0] is not None and st.mem.get(('hs', old[2].args[0]), {}).get('live', (0, FALSE))[1] is TRUE:
            s.ts(I_, st, 'initialises a handle that is already live', p)
        h = I_.nfresh()
        I_.wr(st, p, s.HZ, mk('mpf', h)) if old is None or old[0] == oo[1] else None
        d = dict(st.mem.get(oo[0], {}))
        for o in [o for o, (z, _) in d.items() if isinstance(o, int) and o < oo[1] + s.HZ and oo[1] < o + z]: d.pop(o)
        d[oo[1]] = (s.HZ, mk('mpf', h)); st.mem[oo[0]] = d
        st.mem[('hs', h)] = {0: (I_.SZ, t), 'live': (1, TRUE), 'prec': (8, s.curprec(st))}
        if c is not None: I_.deriv(st, t, c)
        return h
    def curprec(s, st): return st.tag.get('defprec', mk('sym', 'defprec'))
    def hd(s, I_, st, p, what):
        """The live handle a pointer refers to."""
        oo = I_.obj_of(p)
        c = None
        if oo is not None: c = st.mem.get(oo[0], {}).get(oo[1]) if isinstance(oo[1], int) else None
        if c is None or c[1] is ZFILL or c[1].op != 'mpf' or c[1].args[0] is None:
            if oo is not None and (isinstance(oo[0], str) and oo[0] not in s.strict or isinstance(oo[0], tuple) and oo[0][0] in ('deref', 'g') or not isinstance(oo[1], int)):
                return None
            s.ts(I_, st, '%s on a handle that was never initialised' % what, p); return None
        h = c[1].args[0]
        if st.mem.get(('hs', h), {}).get('live', (0, FALSE))[1] is not TRUE: s.ts(I_, st, '%s on a handle that was already released' % what, p)
        return h
    def val(s, I_, st, p, what):
        h = s.hd(I_, st, p, what)
        if h is None:
            t = s.D.sym(('ext', p, I_.nfresh()))
            if s.m.cfg == 'gmp': I_.setcls(st, t, FIN)
            return t
        return I_.hval(st, h)
    def setval(s, I_, st, h, t, c=None):
        d = dict(st.mem.get(('hs', h), {})); d[0] = (I_.SZ, t); st.mem[('hs', h)] = d
        if c is not None: I_.deriv(st, t, c)
    def put(s, I_, st, p, t, what):
        h = s.hd(I_, st, p, what)
        oo = I_.obj_of(p)
        if oo is not None: s.on_write(I_, st, oo[0], oo[1], s.HZ, t)
        if h is not None: s.setval(I_, st, h, t)

    # ------------------------------------------------------------ whole numbers
    def mkfinite(s, I_, st, p, t):
        oo = I_.obj_of(p)
        if oo is None: return
        if s.template is None: raise Imprecise('no template')
        d = dict(st.mem.get(oo[0], {})); old = I_.handle_of(st, p)
        for o in [o for o, (z, _) in d.items() if isinstance(o, int) and o < oo[1] + I_.SZ and oo[1] < o + z]: d.pop(o)
        st.mem[oo[0]] = d
        for o, z, v in s.template:
            if v is not ZFILL and v.op == 'mpf':
                h = I_.nfresh(); st.mem[('hs', h)] = {0: (I_.SZ, t), 'live': (1, TRUE), 'prec': (8, s.curprec(st))}; v = mk('mpf', h)
            d[oo[1] + o] = (z, v)
        st.mem[oo[0]] = d
        s.on_write(I_, st, oo[0], oo[1], I_.SZ, t)

    # ------------------------------------------------------------ dispatch
    def resolve(s, fn):
        n = fn.norm
        pr = s.prim.get(fn.n)
        if pr is not None: return lambda I_, st, fn, a, x, pr=pr: s.primitive(I_, st, pr[0], a, x)
        if fn.n.startswith(s.prefix) and fn.decl and 'printf' in fn.n: return s.printf
        if fn.n.startswith(s.prefix) and fn.decl: return lambda I_, st, fn, a, x: s.unknown(I_, st, fn, a, x)
        if fn.n == '__cxa_guard_acquire': return s.guard
        if n in s.inl: return False
        if n == 'EF::e_float(char const*)':
            def h(I_, st, fn, a, x):
                t = s.cstr(I_, st, a[1])
                if s.D.isnum(t) is None: I_.setcls(st, t, FIN)
                s.mkfinite(I_, st, a[0], t); return [(st, None)]
            return h
        m = re.fullmatch(r'EF::e_float<(?:float|double|long double), .*>\((float|double|long double)\)', n)
        if m:
            def h(I_, st, fn, a, x):
                v = a[1]
                if v.op == 'd' and abs(v.args[0]) < float('inf'): s.mkfinite(I_, st, a[0], s.D.num(Fraction(v.args[0]))); return [(st, None)]
                if v.op == 'd': return I_.run_fn(fn, a, st, mk('site', 'fp', x.get('d', 0), I_.nfresh()))
                t = s.D.fun('fromdbl', v); I_.setcls(st, t, FIN if s.m.cfg == 'gmp' else ALL); s.mkfinite(I_, st, a[0], t); return [(st, None)]
            return h
        if n.startswith('EF::e_float(std::') and 'basic_string' in n:
            def h(I_, st, fn, a, x):
                t = s.D.sym(('str', a[1], I_.nfresh())); I_.setcls(st, t, FIN); s.mkfinite(I_, st, a[0], t); return [(st, None)]
            return h
        if 'native_float_parts' in n and '~' not in n: return s.opaque_h if not s.native else False
        if n.startswith(('EF::', 'e_float_base::')): return False
        if re.match(r'std::enable_if<.*>::type (\w+::)*operator', n) and '(EF' in n and not fn.decl: return False       # operators with built-in types
        if n == 'ef::pow2(long)':
            def h(I_, st, fn, a, x):
                k = a[1]
                t = s.D.num(Fraction(2) ** k.args[0]) if k.op == 'i' and abs(k.args[0]) < 70 else s.D.fun('pow2', k)
                I_.deriv(st, t, POS & FIN); s.mkfinite(I_, st, a[0], t); return [(st, None)]
            return h
        m = re.fullmatch(r'ef::(\w+)\(\)', n)
        if m and fn.rt == 'ptr' and not fn.args and (m.group(1) in KNOWN or m.group(1) in ('value_max', 'value_min', 'value_eps')): return s.constant_h
        if re.fullmatch(r'e_float_base::my_value_(max|min)\(\) const', n): return s.constant_h
        if fn.decl: return False
        if n.startswith('ef::'): return False
        if re.match(r'std::numeric_limits|([\w:&]+ )*std::(min|max|fabs|abs|log|log10|pow|sqrt|isnan|isinf|isfinite|signbit|move|forward|__addressof|addressof|swap)\b', n) and 'vector' not in n: return False
        if n.startswith(('std::', '__gnu_cxx::', 'void std::', 'bool std::', 'Util::', 'std::__cxx11', 'util::')) or re.match(r'[^(]*\bstd::\w', n.split('(')[0]): return s.opaque_h
        return False

    def constant(s, I_, st, fn):
        name = re.sub(r'.*::(my_)?', '', fn.norm.split('(')[0])
        obj = ('const', name)
        if obj not in st.mem:
            t, m = s.evalconst(I_, fn, name); st.mem[obj] = {}
            s.mkfinite(I_, st, mk('p', obj, 0), t); I_.setcls(st, t, m)
            e = st.ev
            while e is not None and e[0][0] == 'write' and e[0][1] == obj: e = e[1]
            st.ev = e
        return [(st, mk('p', obj, 0))]

    def guard(s, I_, st, fn, a, x):
        k = ('guard', a[0].args[0])
        if st.tag.get(k): return [(st, I(0, 32))]
        st.tag[k] = True
        return [(st, I(1, 32))]

    def printf(s, I_, st, fn, a, x):
        """Formatting: every handle among the arguments is used, the first argument's buffer is written."""
        for k, p in enumerate(a[1:]):
            oo = I_.obj_of(p)
            if oo is not None and I_.hcell(st, *oo) is not None: s.hd(I_, st, p, 'formatting')
        if a and a[0].op == 'p': I_.havoc(st, a[0])
        return [(st, mk('iu', 32, mk('printed', I_.nfresh())))]

    def unknown(s, I_, st, fn, a, x):
        raise Imprecise('operation %s of the foreign library is not known to the analysis' % fn.n)

    # ------------------------------------------------------------ semantics of the foreign operations
    def nonfinite(s, I_, st, op, x, y, r):
        """Arithmetic whose operands or result are not all finite keeps the class, not a polynomial."""
        m = {'add': c_add, 'sub': c_sub, 'mul': c_mul, 'div': c_div}[op](I_.getcls(st, x), I_.getcls(st, y))
        t = s.D.fun('x' + op, x, y); I_.deriv(st, t, m); return t

    def arith(s, I_, st, op, x, y):
        a, b = I_.getcls(st, x), I_.getcls(st, y)
        if s.m.cfg == 'mpfr' and ((a | b) & ~FIN): return s.nonfinite(I_, st, op, x, y, None)
        if op == 'div' and b == Z and s.m.cfg == 'gmp':
            st.ev = (('div0', I_.where), st.ev)
            t = s.D.sym(('div0', I_.nfresh())); I_.setcls(st, t, FIN); return t
        if op == 'div' and b & Z: return s.nonfinite(I_, st, op, x, y, None)
        t = getattr(I_, BIN[op])(st, x, y)
        if s.m.cfg == 'gmp' and s.D.isnum(t) is None: I_.setcls(st, t, FIN)
        return t

    def primitive(s, I_, st, op, a, x):
        D = s.D; ty = x.get('t', 'void')
        num = lambda k, sg: s.fromint(I_, st, a[k], sg)
        val = lambda k: s.val(I_, st, a[k], op)
        def ret(t=None): return [(st, t if ty != 'void' else None)]
        tern = mk('iu', 32, mk('tern', I_.nfresh()))
        def store(t):
            s.put(I_, st, a[0], t, op); return ret(tern)
        if op == 'set_default_prec': st.tag['defprec'] = a[0]; return ret()
        if op in ('init', 'init2'):
            zero = D.num(0) if s.m.cfg == 'gmp' else None
            if zero is None: zero = D.sym(('initnan', I_.nfresh())); st.cls[D.canon_sign(zero)[0]] = NAN
            h = s.newh(I_, st, a[0], zero)
            if op == 'init2' and h is not None: st.mem[('hs', h)]['prec'] = (8, a[1])
            return ret()
        if op == 'init_set': v = val(1); s.newh(I_, st, a[0], v); return ret()
        if op == 'init_set_ui': s.newh(I_, st, a[0], num(1, False)); return ret()
        if op == 'init_set_si': s.newh(I_, st, a[0], num(1, True)); return ret()
        if op == 'init_set_d': s.newh(I_, st, a[0], D.fun('fromdbl', a[1])); return ret()
        if op in ('init_set_str', 'set_str'):
            t = D.fun('text', a[1], I(st.gen.get(I_.obj_of(a[1])[0], 0) if I_.obj_of(a[1]) else 0))
            if s.m.cfg == 'gmp': I_.setcls(st, t, FIN)
            if op == 'init_set_str': s.newh(I_, st, a[0], t)
            else: s.put(I_, st, a[0], t, op)
            return ret(mk('iu', 32, mk('strok', t)))
        if op == 'clear':
            h = s.hd(I_, st, a[0], op)
            if h is not None:
                d = dict(st.mem[('hs', h)]); d['live'] = (1, FALSE); st.mem[('hs', h)] = d
            return ret()
        if op in ('set_prec_raw', 'set_prec'):
            h = s.hd(I_, st, a[0], op)
            if h is not None:
                cur = st.mem[('hs', h)].get('prec')
                st.ev = (('setprec', op, a[1], s.curprec(st), I_.where), st.ev)
                d = dict(st.mem[('hs', h)]); d['prec'] = (8, a[1]); st.mem[('hs', h)] = d
            return ret()
        if op in ('get_prec', 'get_default_prec'): return ret(mk('iu', 64, mk('prec', I_.nfresh())))
        if op == 'swap':
            h, k = s.hd(I_, st, a[0], op), s.hd(I_, st, a[1], op)
            if h is not None and k is not None:
                u, v = I_.hval(st, h), I_.hval(st, k); s.setval(I_, st, h, v); s.setval(I_, st, k, u)
            return ret()
        if op == 'set': return store(val(1))
        if op == 'set4':
            v = val(1); sg = a[3]
            if sg is mk('iu', 32, mk('sign', v)): return store(v)
            if sg.op == 'i' and sg.args[0] == 1: return store(I_.e_fun(st, 'fabs', [v], spec.UN['fabs'] and ALL))
            return store(I_.e_fun(st, 'set4', [v, sg], ALL))
        if op == 'set_ui': return store(num(1, False))
        if op == 'set_si': return store(num(1, True))
        if op in ('set_d', 'set_ld'):
            v = a[1]
            if v.op == 'd':
                f = v.args[0]
                if f != f: t = D.sym(('k', 'nan')); st.cls[D.canon_sign(t)[0]] = NAN
                elif abs(f) == float('inf'):
                    t = D.sym(('k', 'inf')); st.cls[D.canon_sign(t)[0]] = PINF
                    if f < 0: t = I_.e_neg(st, t)
                else: t = D.num(Fraction(f))
            else: t = D.fun('fromdbl', v)
            return store(t)
        if op in ('set_inf', 'set_nan', 'set_zero'):
            if op == 'set_zero': return store(D.num(0))
            t = D.sym(('k', op[4:])); c = NAN if op == 'set_nan' else PINF; st.cls[D.canon_sign(t)[0]] = c
            if op == 'set_inf' and a[1].op == 'i' and a[1].args[0] < 0: t = I_.e_neg(st, t)
            return store(t)
        if op == 'neg': return store(I_.e_neg(st, val(1)))
        if op == 'abs':
            v = val(1); out = []
            for z, b in I_.decide(st, mk('pred', 'isneg', v), I_.where):
                s.put(I_, z, a[0], I_.e_neg(z, v) if b else v, op); out.append((z, tern if ty != 'void' else None))
            return out
        if op in BIN: u, v = val(1), val(2); return store(s.arith(I_, st, op, u, v))
        m = re.fullmatch(r'(add|sub|mul|div)_(ui|si)', op)
        if m: u = val(1); return store(s.arith(I_, st, m.group(1), u, num(2, m.group(2) == 'si')))
        m = re.fullmatch(r'(ui|si)_(sub|div)', op)
        if m: v = val(2); return store(s.arith(I_, st, m.group(2), num(1, m.group(1) == 'si'), v))
        if op == 'sqr': u = val(1); return store(s.arith(I_, st, 'mul', u, u))
        m = re.fullmatch(r'(mul|div)_2(exp|si|ui)', op)
        if m:
            u = val(1); k = a[2]
            t = D.num(Fraction(2) ** k.args[0]) if k.op == 'i' and abs(k.args[0]) < 300 else I_.e_fun(st, 'pow2', [k], POS & FIN)
            return store(s.arith(I_, st, m.group(1), u, t))
        if op == 'sqrt':
            v = val(1); c = I_.getcls(st, v)
            if s.m.cfg == 'gmp' and c & ~NEG == 0: st.ev = (('sqrtneg', I_.where), st.ev)
            return store(I_.e_fun(st, 'sqrt', [v], spec.unary('sqrt', c)))
        if op in ('floor', 'ceil', 'trunc', 'rint_floor', 'rint_ceil', 'rint_trunc'):
            nm = {'trunc': 'integer_part'}.get(op.replace('rint_', ''), op.replace('rint_', ''))
            v = val(1); return store(I_.e_fun(st, nm, [v], spec.unary(nm, I_.getcls(st, v))))
        if op in ('root', 'rootn_ui'): v = val(1); return store(I_.e_fun(st, 'rootn', [v, a[2]], ALL))
        if op in ('jn', 'yn'): v = val(2); return store(I_.e_fun(st, 'cyl_bessel_' + op, [a[1], v], ALL))
        if op == 'pow': u, v = val(1), val(2); return store(I_.e_fun(st, 'pow', [u, v], ALL))
        if op in ('pow_ui', 'pow_si'): u = val(1); return store(I_.e_fun(st, 'powi', [u, a[2]], ALL))
        if op in ('cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'log', 'gamma', 'zeta', 'exp2', 'exp10', 'log2', 'log10', 'log1p', 'expm1', 'sec', 'csc', 'cot'):
            v = val(1); nm = {'zeta': 'riemann_zeta'}.get(op, op)
            return store(I_.e_fun(st, nm, [v], spec.unary(nm, I_.getcls(st, v)) if nm in spec.UN else ALL))
        # observations
        def one(t): return ret(mk('zext', 32, t))
        def prd(name, v):
            q = D.isnum(v)
            if q is not None: return B({'isnan': False, 'isinf': False, 'isfinite': True, 'iszero': q == 0, 'isint': q.denominator == 1, 'isneg': q < 0}[name])
            return mk('pred', name, v)
        def boolret(t): return ret(I(1 if t is TRUE else 0, 32) if t.op == 'i' else mk('zext', 32, t))
        if op in ('nan_p', 'inf_p', 'number_p', 'zero_p', 'integer_p'): return boolret(prd({'nan_p': 'isnan', 'inf_p': 'isinf', 'number_p': 'isfinite', 'zero_p': 'iszero', 'integer_p': 'isint'}[op], val(0)))
        if op == 'signbit':
            return boolret(prd('isneg', val(0)))
        def cmpret(u, v):
            if (I_.getcls(st, u) | I_.getcls(st, v)) == NAN or I_.getcls(st, u) == NAN or I_.getcls(st, v) == NAN: return ret(I(0, 32))
            o = I_.cmpset(st, u, v)
            if len(o) == 1: return ret(I(next(iter(o)), 32))
            return ret(mk('cmp', u, v))
        if op == 'sgn': return cmpret(val(0), D.num(0))
        if op == 'cmp': return cmpret(val(0), val(1))
        if op == 'cmp3':
            u, v = val(0), val(1)
            if a[2].op == 'i' and a[2].args[0] < 0: v = I_.e_neg(st, v)
            return cmpret(u, v)
        if op in ('cmp_ui', 'cmp_si'): return cmpret(val(0), num(1, op == 'cmp_si'))
        if op == 'cmp_d': return cmpret(val(0), D.fun('fromdbl', a[1]))
        if op == 'get_d': return ret(s.todbl(I_, st, val(0)))
        if op == 'get_ld': return ret(mk('du', 'x86_fp80', mk('told', val(0))))
        if op == 'get_d_2exp':
            v = val(1); u, _ = D.canon_sign(v); c = I_.getcls(st, v)
            e = mk('iu', 64, mk('exp2', u))
            K = s.maxexp2()
            if not c & (NAN | INF):
                lo = -(1 << 40) if c & (S | NS) else 0 if c & Z else 1
                hi = K if c & (L | NL) else 1 if c & (P1 | N1) else 0
                if lo == hi: e = I(lo)
                else: I_.setrng(st, e, (lo, hi))
            I_.wr(st, a[0], 8, e)
            return ret(mk('du', 'double', mk('mant2', v)))
        if op in ('get_si', 'get_ui', 'get_sj', 'get_uj'): return ret(s.toint(I_, st, val(0), op[4] in 's'))
        if op == 'get_str':
            v = val(4); I_.havoc(st, a[0]); I_.wr(st, a[1], 8, mk('iu', 64, mk('dexp', D.canon_sign(v)[0])))
            return ret(a[0])
        if op in ('fits_slong_p', 'fits_ulong_p', 'fits_sint_p', 'eq', 'regular_p', 'cmpabs'): return ret(mk('iu', 32, mk('obs', op, val(0), I_.nfresh())))
        raise Imprecise('operation %s of the foreign library has no model' % op)

    def maxexp2(s):
        """Bound on the binary exponent of the largest finite number."""
        r = getattr(s, '_k2', None)
        if r is None:
            f = s.m.need('vdrv::nlc_max_exponent10()'); J = Interp(s.m, s.D, FL(s.m, s.D)); r = J.run_fn(f, [], St(), mk('site', 'nlc'))[0][1]
            r = s._k2 = int(r.args[0] * 3.3219281) + 2
        return r

    def toint(s, I_, st, v, sg):
        q = s.D.isnum(v)
        if q is not None and q.denominator == 1 and abs(q) < 2 ** 62: return I(int(q))
        c = I_.getcls(st, v)
        if c in (P1, N1, Z): return I({P1: 1, N1: -1, Z: 0}[c])
        if c == PINF: return I((1 << 63) - 1)
        if c == NINF: return I(-(1 << 63))
        if c == NAN: return I(0)
        return mk('iu', 64, mk('toll', v))

    # ------------------------------------------------------------ exemplars
    def setup(s, I_, st):
        """Builds one number of each kind with the class's own constructors; later numbers are copies of these with a new value."""
        m = s.m
        st.mem['T'] = {}
        def only(r, what):
            if len(r) != 1: raise Imprecise('%s: %d paths' % (what, len(r)))
            return r[0]
        st, _ = only(I_.run_fn(m.need('EF::e_float()'), [ptr('T')], st, mk('site', 'T')), 'default constructor')
        s.defprec = st.tag.get('defprec')
        s.template = [(o, z, v) for o, (z, v) in st.mem['T'].items()]
        if not any(v is not ZFILL and v.op == 'mpf' for _, _, v in s.template): raise Imprecise('the default constructor initialises no handle')
        return st

    def special(s, I_, st, name, cls):
        """An object of the given class under the name; returns its value term."""
        m = s.m
        if cls & FIN:
            t = s.D.sym(name); I_.setcls(st, t, cls); st.mem[name] = {}
            s.mkfinite(I_, st, ptr(name), t)
            return st, t
        fn = m.need('vdrv::nl_quiet_NaN()' if cls == NAN else 'vdrv::nl_infinity()')
        r = I_.run_fn(fn, [], st, mk('site', name, 'k'))
        if len(r) != 1: raise Imprecise('special value: %d paths' % len(r))
        st, p = r[0]
        if cls & INF:        # the sign of a zero is not tracked: the named infinity is positive
            h = I_.handle_of(st, p)
            if h is not None and I_.getcls(st, I_.hval(st, h)) & PINF and not I_.getcls(st, I_.hval(st, h)) & FIN: I_.setcls(st, I_.hval(st, h), PINF)
        st.mem[name] = {}
        (st, _), = I_.run_fn(m.need('EF::e_float(EF const&)'), [ptr(name), p], st, mk('site', name, 'c'))
        if cls == NINF:
            r = I_.run_fn(m.need('EF::negate()'), [ptr(name)], st, mk('site', name, 'n'))
            if len(r) != 1: raise Imprecise('negate: %d paths' % len(r))
            st = r[0][0]
        h = I_.handle_of(st, ptr(name))
        v = I_.hval(st, h)
        if I_.getcls(st, v) & FIN:         # the class is held outside the handle: its value is arbitrary
            t = s.D.sym(name); I_.setcls(st, t, FIN); s.setval(I_, st, h, t); return st, t
        return st, v

    def classify(s, I_, st, p):
        """[(state, class mask, value term)] of the number at p, by the class's own predicates."""
        m = s.m; out = []
        def ask(z, pn):
            r = I_.run_fn(m.need('EF::%s() const' % pn), [p], z, mk('site', 'ask', pn, I_.nfresh()))
            q = []
            for w, v in r: q += I_.decide(w, v if I_.width(v) == 1 else I_.icmp(w, 'ne', v, I(0, I_.width(v))))
            return q
        for z, b in ask(st, 'isnan'):
            if b: out.append((z, NAN, None)); continue
            for w, b2 in ask(z, 'isinf'):
                if b2:
                    for u, ng in ask(w, 'isneg'): out.append((u, NINF if ng else PINF, None))
                    continue
                t = I_.ef_rd(w, p); out.append((w, I_.getcls(w, t) & FIN, t))
        return out
