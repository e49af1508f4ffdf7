"""Path-sensitive abstract interpreter over the JSON IR.

Values are interned terms (terms.py).  Every branch whose condition is not determined by
the abstract state is followed both ways with the state refined; loops are unrolled while their
exits are decided by constants and otherwise summarised by `mu` terms with a class fixpoint.
No solver is used and no code of the library is executed."""
import math, re, sys
from fractions import Fraction
from terms import *
from ir import Broken

sys.setrecursionlimit(20000)


class Imprecise(Exception):
    """Analysis of this root gave up (path or step budget); counted as undecided."""


class St:
    __slots__ = ('mem', 'cls', 'dec', 'rel', 'rng', 'trace', 'ev', 'gen', 'tag')
    def __init__(s):
        s.mem = {}; s.cls = {}; s.dec = {}; s.rel = {}; s.rng = {}; s.trace = None; s.ev = None; s.gen = {}; s.tag = {}
    def copy(s):
        r = St.__new__(St)
        r.mem = dict(s.mem); r.cls = dict(s.cls); r.dec = dict(s.dec); r.rel = dict(s.rel); r.rng = dict(s.rng)
        r.trace = s.trace; r.ev = s.ev; r.gen = dict(s.gen); r.tag = dict(s.tag)
        return r
    def events(s):
        out = []; e = s.ev
        while e: out.append(e[0]); e = e[1]
        return out[::-1]
    def decisions(s):
        out = []; e = s.trace
        while e: out.append(e[0]); e = e[1]
        return out[::-1]


NOTMODERATE = ('value_max', 'value_min', 'inf', 'nan', 'value_inf', 'value_nan')

ZFILL = 'zfill'
_bw = {}
def bitw(t):
    r = _bw.get(t)
    if r is None:
        r = int(t[1:]) if re.fullmatch(r'i\d+', t) else 0
        _bw[t] = r
    return r

FP = ('double', 'float', 'x86_fp80')
def D_(v): return mk('d', v)

def split_params(dm):
    """Top-level parameter list of a demangled signature, or None."""
    s = dm
    const = s.endswith(' const')
    if const: s = s[:-6]
    s = s.rstrip()
    if s.endswith('const volatile'): s = s[:-14].rstrip(); const = True
    if not s.endswith(')'): return None, False
    d = 0; i = len(s) - 1
    while i >= 0:
        c = s[i]
        if c in ')>': d += 1
        elif c in '(<': d -= 1
        if d == 0: break
        i -= 1
    inner = s[i + 1:-1]
    if not inner: return [], const
    out = []; d = 0; cur = ''
    for c in inner:
        if c in '(<': d += 1
        if c in ')>': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    out.append(cur.strip())
    return out, const


_pc = {}
def param_info(fn):
    """For each IR argument: (kind, readonly) with kind sret/this/param; plus the parameter types."""
    r = _pc.get(fn.n)
    if r is not None: return r
    ps, const = split_params(fn.norm)
    n = len(fn.args); out = []; i = 0
    if n and fn.args[0].get('sret'): out.append(('sret', False, '')); i = 1
    k = n - i
    if ps is not None and k == len(ps) + 1:
        out.append(('this', const, '')); i += 1
    if ps is None or n - i != len(ps):
        # aggregates passed in pieces: no per-parameter knowledge
        while len(out) < n: out.append(('param', False, ''))
    else:
        for p in ps:
            ro = p.endswith('const&') or p.endswith('const*') or p.endswith('const (&)') or not (p.endswith('&') or p.endswith('*'))
            out.append(('param', ro, p))
    _pc[fn.n] = out
    return out


class Interp:
    def __init__(s, mod, D, policy, max_paths=400, max_steps=400000, unroll=70):
        s.m = mod; s.D = D; s.policy = policy
        s.max_paths = max_paths; s.max_steps = max_steps; s.unroll = unroll
        s.steps = 0; s.fresh = 0; s.depth = 0; s.readlog = []
        s.SZ = mod.structs[mod.efstruct]['size']
        s.callstack = []; s.loopinfo = {}; s.recs = {}; s.where = None
        s.unknown_calls = {}
        s.visited = set()

    # ------------------------------------------------------------ classes
    def getcls(s, st, t):
        if t.op == 'num': return c_of_num(t.args[0])
        u, f = s.D.canon_sign(t)
        if s.D.alg:
            q = s.D.isnum(u)
            if q is not None: m = c_of_num(q)
            else: m = st.cls.get(u, ALL)
        else:
            if u.op == 'num': m = c_of_num(u.args[0])
            else: m = st.cls.get(u, ALL)
        return c_neg(m) if f else m

    def setcls(s, st, t, m):
        """Intersect the class of t with m; False if nothing remains."""
        u, f = s.D.canon_sign(t)
        if f: m = c_neg(m)
        q = s.D.isnum(u)
        if q is not None: return bool(c_of_num(q) & m)
        o = st.cls.get(u, ALL); n = o & m
        if n == 0: return False
        if n != o:
            st.cls[u] = n
            w = u
            if s.D.alg and u.op == 'alg' and len(u.args[0]) == 1:
                (mm, cc), = u.args[0]
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and len(u.args[1]) == 1 and () in dict(u.args[1]): w = mm[0][0]
            if w.op == 'f:int_s':
                t = w.args[0]
                lo = 2 if not n & ~(L | PINF) else 1 if not n & ~POS else 0 if not n & ~(POS | Z) else -1 if not n & (NL | NINF) else -(1 << 70)
                hi = -2 if not n & ~(NL | NINF) else -1 if not n & ~NEG else 0 if not n & ~(NEG | Z) else 1 if not n & (L | PINF) else 1 << 70
                if not s.setrng(st, t, (lo, hi)): return False
        return True

    def moderate(s, t, depth=6):
        """A small combination of named constants and numbers: certainly finite and far below the largest number."""
        if t.op == 'num': return abs(t.args[0]) < 10**9 and t.args[0].denominator < 10**9
        if t.op == 'sym': return type(t.args[0]) is tuple and t.args[0][0] == 'k' and t.args[0][1] not in NOTMODERATE
        if depth == 0: return False
        if t.op in ('neg', 'add', 'sub', 'mul'): return all(s.moderate(x, depth - 1) for x in t.args)
        if t.op == 'div': return s.moderate(t.args[0], depth - 1) and bool(s.D.isnum(t.args[1]))
        if t.op == 'alg':
            n, d = t.args
            return len(n) < 10 and len(d) == 1 and () in dict(d) and all(abs(v) < 10**9 and all(0 < e < 7 and s.moderate(a) for a, e in k) for k, v in n)
        return False

    def deriv(s, st, t, m):
        """Record the class computed for a new term (keeps a contradiction-free map)."""
        if m & INF and m & FIN and s.moderate(t): m &= FIN
        if not s.setcls(st, t, m): st.cls[s.D.canon_sign(t)[0]] = c_neg(m) if s.D.canon_sign(t)[1] else m
        return t

    # arithmetic on number terms, with classes
    def e_neg(s, st, a): return s.deriv(st, s.D.neg(a), c_neg(s.getcls(st, a)))
    def e_add(s, st, a, b):
        if s.D.alg or s.D.isnum(a) is None or s.D.isnum(b) is None: t = s.D.add(a, b)
        else: t = s.D.num(s.D.isnum(a) + s.D.isnum(b))
        return s.deriv(st, t, c_add(s.getcls(st, a), s.getcls(st, b)))
    def e_sub(s, st, a, b):
        m = c_sub(s.getcls(st, a), s.getcls(st, b))
        if a is b: m = (Z if s.getcls(st, a) & FIN else 0) | (NAN if s.getcls(st, a) & (NAN | INF) else 0)
        o = s.cmpset(st, a, b)
        f = 0
        if -1 in o: f |= NEG
        if 1 in o: f |= POS
        if 0 in o: f |= Z
        m = m & (f | NAN) or m
        if s.D.alg or s.D.isnum(a) is None or s.D.isnum(b) is None: t = s.D.sub(a, b)
        else: t = s.D.num(s.D.isnum(a) - s.D.isnum(b))
        return s.deriv(st, t, m)
    def e_mul(s, st, a, b):
        m = c_mul(s.getcls(st, a), s.getcls(st, b))
        if a is b: m &= ~NEG
        if s.D.alg or s.D.isnum(a) is None or s.D.isnum(b) is None: t = s.D.mul(a, b)
        else: t = s.D.num(s.D.isnum(a) * s.D.isnum(b))
        return s.deriv(st, t, m)
    def poszero(s, st, t):
        """t, known to be zero, is the positive zero: a literal zero or the difference of equal non-zero numbers."""
        if s.D.isnum(t) is not None: return True
        return t.op in ('sub', 'add') and isinstance(t.args[0], T) and not s.getcls(st, t.args[0]) & Z
    def e_div(s, st, a, b):
        ca, cb = s.getcls(st, a), s.getcls(st, b)
        m = c_div(ca, cb)
        if cb == Z and s.poszero(st, b): m = (NAN if ca & (Z | NAN) else 0) | (PINF if ca & POS else 0) | (NINF if ca & NEG else 0)
        x, y = s.D.isnum(a), s.D.isnum(b)
        if x is not None and y: t = s.D.num(x / y)
        elif y == 0: t = s.D.fun('div0', a)
        else: t = s.D.div(a, b)
        return s.deriv(st, t, m)
    def e_fun(s, st, name, args, m=ALL):
        t = s.D.fun(name, *args)
        return s.deriv(st, t, m)

    # ------------------------------------------------------------ ordering
    def cmpset(s, st, a, b):
        if a is b and not s.getcls(st, a) & NAN: return frozenset((0,))
        x, y = s.D.isnum(a), s.D.isnum(b)
        if x is not None and y is not None: return frozenset(((x > y) - (x < y),))
        if s.D.alg:
            d = s.D.sub(a, b); q = s.D.isnum(d)
            if q is not None: return frozenset(((q > 0) - (q < 0),))
        else: d = None
        r = set()
        # no finite number exceeds the largest one in magnitude
        for u, v, sg in ((a, b, 1), (b, a, -1)):
            w, f = s.D.canon_sign(v)
            if s.D.islimit(w):
                m = s.getcls(st, u)
                if f: m = c_neg(m)
                e = sg * (-1 if f else 1)
                if not m & NAN:
                    if s.moderate(u): return frozenset((-e,))
                    if m & FIN: r |= {-e} | ({0} if m & L else set())
                    if m & PINF: r.add(e)
                    if m & NINF: r.add(-e)
                    return frozenset(r)
        A, B_ = bits(s.getcls(st, a)), bits(s.getcls(st, b))
        for p in A:
            for q in B_:
                r |= cmp1(p, q)
        if d is not None:
            m = s.getcls(st, d)
            if not m & NAN:
                r &= ({-1} if m & NEG else set()) | ({0} if m & Z else set()) | ({1} if m & POS else set())
        else:
            k, f = ((a, b), 1) if a.id < b.id else ((b, a), -1)
            o = st.rel.get(k)
            if o is not None: r &= {v * f for v in o}
        return frozenset(r)

    def cmprefine(s, st, a, b, out):
        ca, cb = s.getcls(st, a), s.getcls(st, b)
        for u, v, sg in ((a, b, 1), (b, a, -1)):
            w, f = s.D.canon_sign(v)
            if s.D.islimit(w) and not s.getcls(st, u) & NAN:
                e = {x * sg for x in out}
                m = s.getcls(st, u)
                if not f: keep = (PINF if 1 in e else 0) | (L if 0 in e else 0) | (ALL & ~PINF if -1 in e else 0)
                else: keep = (NINF if -1 in e else 0) | (NL if 0 in e else 0) | (ALL & ~NINF if 1 in e else 0)
                return bool(m & keep) and s.setcls(st, u, keep)
        na = nb = 0
        for p in bits(ca):
            for q in bits(cb):
                if cmp1(p, q) & out: na |= p; nb |= q
        if not na: return False
        if not s.setcls(st, a, na) or not s.setcls(st, b, nb): return False
        if s.D.alg:
            d = s.D.sub(a, b)
            m = NAN
            if -1 in out: m |= NEG
            if 0 in out: m |= Z
            if 1 in out: m |= POS
            if not s.setcls(st, d, m): return False
        else:
            k, f = ((a, b), 1) if a.id < b.id else ((b, a), -1)
            o = st.rel.get(k, frozenset((-1, 0, 1)))
            n = frozenset(v * f for v in out) & o
            if not n: return False
            st.rel[k] = n
        return True

    # ------------------------------------------------------------ integer ranges
    def rng(s, st, t, depth=6):
        """Signed range of an integer term of width w."""
        if t.op == 'i': return (t.args[0], t.args[0])
        w = s.width(t)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        r = st.rng.get(t, full)
        if t.op == 'iu' and isinstance(t.args[1], T) and t.args[1].op == 'order':
            # decimal order of magnitude, allowing one unit of rounding
            m = s.getcls(st, t.args[1].args[0])
            if not m & (NAN | INF | Z):
                lo = -1 if not m & (S | NS) else -(1 << 62)
                hi = 1 if not m & (L | NL) else 1 << 62
                r = (max(r[0], lo), min(r[1], hi))
        if depth:
            o = t.op; q = None
            if o == 'sext': q = s.rng(st, t.args[1], depth - 1)
            elif o == 'zext':
                a = s.rng(st, t.args[1], depth - 1); w2 = s.width(t.args[1])
                q = a if a[0] >= 0 else (0, (1 << w2) - 1)
            elif o == 'trunc':
                a = s.rng(st, t.args[1], depth - 1)
                if a[0] >= full[0] and a[1] <= full[1]: q = a
            elif o in ('add', 'sub', 'mul'):
                a, b = s.rng(st, t.args[1], depth - 1), s.rng(st, t.args[2], depth - 1)
                c = {'add': (a[0] + b[0], a[1] + b[1]), 'sub': (a[0] - b[1], a[1] - b[0])}.get(o)
                if c is None:
                    v = [x * y for x in a for y in b]; c = (min(v), max(v))
                if c[0] >= full[0] and c[1] <= full[1]: q = c
            elif o == 'and' and t.args[2].op == 'i' and t.args[2].args[0] >= 0: q = (0, t.args[2].args[0])
            elif o == 'urem' and t.args[2].op == 'i' and t.args[2].args[0] > 0: q = (0, t.args[2].args[0] - 1)
            elif o == 'srem' and t.args[2].op == 'i' and t.args[2].args[0] > 0:
                a = s.rng(st, t.args[1], depth - 1); c = t.args[2].args[0] - 1
                q = (0 if a[0] >= 0 else -c, c)
            elif o in ('udiv', 'lshr') and t.args[2].op == 'i' and t.args[2].args[0] > 0:
                a = s.rng(st, t.args[1], depth - 1); c = t.args[2].args[0] if o == 'udiv' else 1 << t.args[2].args[0]
                if a[0] >= 0: q = (a[0] // c, a[1] // c)
                else: q = (0, ((1 << w) - 1) // c)
                if q[1] > full[1]: q = None
            elif o == 'sdiv' and t.args[2].op == 'i' and t.args[2].args[0] > 0:
                a = s.rng(st, t.args[1], depth - 1); c = t.args[2].args[0]
                dv = lambda v: abs(v) // c * (1 if v >= 0 else -1)
                q = (dv(a[0]), dv(a[1]))
            if q: r = (max(r[0], q[0]), min(r[1], q[1]))
        return r

    def width(s, t):
        if t.op == 'i': return t.args[1]
        if t.op in IOPS or t.op in ('sext', 'zext', 'trunc'): return t.args[0]
        if t.op in BOOLS: return 1
        if t.op == 'iu': return t.args[0]
        if t.op == 'cmp': return 32
        return 64

    # ------------------------------------------------------------ memory
    def obj_of(s, p):
        """(object, offset) of a pointer term; None for null."""
        if p.op == 'p': return p.args
        if p.op == 'null': return None
        return (('deref', p), 0)

    def rd(s, st, p, size, ty):
        oo = s.obj_of(p)
        if oo is None: return s.unk('nullread', ty)
        obj, off = oo
        if s.readlog:
            for r in s.readlog: r.add((obj, off))
        if not isinstance(off, int): return s.typed(mk('ld', obj, off, size, st.gen.get(obj, 0)), ty)
        if ty == '<2 x float>': return mk('vec', s.rd(st, p, 4, 'float'), s.rd(st, mk('p', obj, off + 4), 4, 'float'))
        d = st.mem.get(obj)
        if d is not None:
            c = d.get(off)
            if c is not None and c[0] == size and c[1] is not ZFILL: return c[1]
            if c is not None and c[0] == s.SZ and size == 8 and ty == 'ptr' and s.policy.is_ef(s, obj, off): return mk('p', ('g', s.m.vtable), 16)
            for o, (z, v) in d.items():
                if o <= off and off + size <= o + z:
                    if v is ZFILL: return s.zero(ty)
                    if o == off and z > size and isinstance(v, T) and v.op == 'i' and bitw(ty): return I(v.args[0], bitw(ty))
                if o < off + size and off < o + z: return s.unk(('mix', obj, off), ty)
        v = s.initval(st, obj, off, size, ty)
        return v

    def initval(s, st, obj, off, size, ty):
        if isinstance(obj, tuple) and obj[0] == 'g':
            v = s.globalval(obj[1], off, size, ty)
            if v is not None: return v
        if isinstance(obj, tuple) and obj[0] in ('a', 'h') and not st.gen.get(obj):
            v = s.typed(mk('undef', obj, off), ty)
        else:
            if ty == 'ptr' and off == 0 and s.policy.vptr_at(s, obj): return mk('p', ('g', s.m.vtable), 16)
            v = s.typed(mk('init', obj, off, size, st.gen.get(obj, 0)), ty)
        d = dict(st.mem.get(obj, ())); d[off] = (size, v); st.mem[obj] = d
        return v

    def globalval(s, name, off, size, ty):
        g = s.m.globals.get(name)
        if name.startswith('_ZGV'): return s.zero(ty)
        if g is None or 'i' not in g: return None
        if not g.get('k') and not (name.startswith('_ZZ') or g.get('loc')): return None
        return s.constat(g['i'], off, size, ty)

    def constat(s, c, off, size, ty):
        k = c[0]
        if k == 'z': return s.zero(ty)
        if k == 'agg':
            best = None
            for o, x in c[2:]:
                if o <= off and (best is None or o >= best[0]): best = (o, x)
            return s.constat(best[1], off - best[0], size, ty) if best else None
        if k == 'arr':
            es = c[1]; i = off // es
            if off % es or es != size or i >= len(c) - 2: return None
            return s.const(c[2 + i])
        if k == 's':
            return I(ord(c[1][off]) if off < len(c[1]) else 0, 8) if size == 1 else None
        if off == 0 and k in 'cfn' or k == 'g' or k == 'fn' or k == 'u': return s.const(c) if off == 0 else None
        return None

    def wr(s, st, p, size, v, why=''):
        oo = s.obj_of(p)
        if oo is None: return
        obj, off = oo
        if v is not ZFILL and v.op == 'vec' and isinstance(off, int):
            s.wr(st, p, 4, v.args[0]); s.wr(st, mk('p', obj, off + 4), 4, v.args[1]); return
        s.policy.on_write(s, st, obj, off, size, v)
        if not isinstance(off, int):
            st.mem[obj] = {}; st.gen[obj] = st.gen.get(obj, 0) + 1
            return
        d = dict(st.mem.get(obj, ()))
        kill = [o for o, (z, _) in d.items() if o < off + size and off < o + z]
        for o in kill:
            z, x = d.pop(o)
            if x is ZFILL:
                if o < off: d[o] = (off - o, ZFILL)
                if off + size < o + z: d[off + size] = (o + z - off - size, ZFILL)
        d[off] = (size, v)
        st.mem[obj] = d

    def havoc(s, st, p, deep=False):
        oo = s.obj_of(p)
        if oo is None: return
        obj, off = oo
        s.policy.on_write(s, st, obj, None, None, None)
        st.mem[obj] = {}
        st.gen[obj] = st.gen.get(obj, 0) + 1

    def memcpy(s, st, dst, src, n):
        so, do = s.obj_of(src), s.obj_of(dst)
        if so is None or do is None: return
        if not (isI(n) and isinstance(so[1], int) and isinstance(do[1], int)):
            s.havoc(st, dst); return
        n = n.args[0]
        if s.readlog:
            for r in s.readlog:
                for o in list(st.mem.get(so[0], ())): r.add((so[0], o))
        cells = []
        sd = st.mem.get(so[0], {})
        for o, (z, v) in sd.items():
            if o >= so[1] and o + z <= so[1] + n: cells.append((o - so[1], z, v))
        covered = sum(z for _, z, _ in cells)
        if not cells and isinstance(so[0], tuple) and so[0][0] == 'g':
            # constant source: copy 4/8-byte scalars lazily
            g = s.m.globals.get(so[0][1])
            if g is not None and g.get('k') and n <= 4096:
                for o, z, v in s.flatconst(g.get('i'), 0):
                    if o >= so[1] and o + z <= so[1] + n: cells.append((o - so[1], z, v))
        d = dict(st.mem.get(do[0], ()))
        for o in [o for o, (z, _) in d.items() if o < do[1] + n and do[1] < o + z]: d.pop(o)
        st.mem[do[0]] = d
        s.policy.on_write(s, st, do[0], do[1], n, ('copy', so))
        d = dict(d)
        for o, z, v in cells: d[do[1] + o] = (z, v)
        if not cells and n in (1, 2, 4, 8, 16):
            d[do[1]] = (n, s.typed(mk('init', so[0], so[1], n, st.gen.get(so[0], 0)), 'i%d' % (8 * n) if n < 16 else 'x'))
        st.mem[do[0]] = d

    def flatconst(s, c, off):
        if not c: return
        k = c[0]
        if k == 'agg':
            for o, x in c[2:]: yield from s.flatconst(x, off + o)
        elif k == 'arr':
            for i, x in enumerate(c[2:]): yield off + i * c[1], c[1], s.const(x)
        elif k == 'c': yield off, max(1, c[2] // 8), I(c[1], c[2])
        elif k == 'z': yield off, c[1], ZFILL
        elif k in ('n', 'g', 'fn'): yield off, 8, s.const(c)
        elif k == 'f': yield off, 8, s.const(c)

    # number cells
    def ef_rd(s, st, p):
        oo = s.obj_of(p)
        if oo is None: return s.D.sym(('null',))
        obj, off = oo
        if s.readlog:
            for r in s.readlog: r.add((obj, off))
        if isinstance(off, int):
            d = st.mem.get(obj)
            if d is not None:
                c = d.get(off)
                if c is not None and c[0] == s.SZ and c[1] is not ZFILL: return c[1]
                for o, (z, v) in d.items():
                    if o < off + s.SZ and off < o + z:
                        return s.D.sym(('mix', obj, off, st.gen.get(obj, 0)))
            v = s.D.sym(('init', obj, off, st.gen.get(obj, 0)))
            d = dict(d or ()); d[off] = (s.SZ, v); st.mem[obj] = d
            return v
        return s.D.sym(('ld', obj, off, st.gen.get(obj, 0)))

    def ef_wr(s, st, p, v): s.wr(st, p, s.SZ, v)

    # ------------------------------------------------------------ values
    def typed(s, t, ty):
        w = bitw(ty)
        if w: return mk('iu', w, t)
        if ty in FP: return mk('du', ty, t)
        return t
    def zero(s, ty):
        w = bitw(ty)
        if w: return I(0, w)
        if ty in FP: return D_(0.0)
        if ty == 'ptr': return NULL
        return mk('agg0', ty)
    def unk(s, why, ty):
        return s.typed(mk('unk', why if isinstance(why, (str, tuple)) else str(why), s.nfresh()), ty)
    def nfresh(s):
        s.fresh += 1; return s.fresh

    def const(s, c):
        k = c[0]
        if k == 'c':
            v = c[1]
            return I(int(v), c[2])
        if k == 'f': return D_(fparse(c[1]))
        if k == 'n': return NULL
        if k == 'g': return mk('p', ('g', c[1]), c[2])
        if k == 'fn': return mk('fn', c[1])
        if k == 'u': return mk('undefv')
        if k == 'z': return mk('agg0', 'z')
        if k == 'agg':
            return mk('agg', tuple((i, s.const(x)) for i, (o, x) in enumerate(c[2:])))
        return mk('unk', 'const', 0)

    def val(s, env, o):
        if o[0] == 'v': return env[o[1]]
        return s.const(o)

    # ------------------------------------------------------------ decisions
    def decide(s, st, c, note=None):
        """All (state, truth) pairs for an i1 term."""
        if c.op == 'i': return [(st, bool(c.args[0]))]
        if c.op == 'not': return [(x, not v) for x, v in s.decide(st, c.args[0], note)]
        if c.op in ('band', 'bor'):
            out = []
            for x, v in s.decide(st, c.args[0], note):
                if v == (c.op == 'bor'): out.append((x, v))
                else: out += s.decide(x, c.args[1], note)
            return out
        if c.op == 'bxor':
            return [(y, v != w) for x, v in s.decide(st, c.args[0], note) for y, w in s.decide(x, c.args[1], note)]
        if c.op == 'pred':
            name, t = c.args
            if (name, t) in st.dec: return [(st, st.dec[(name, t)])]
            yes, no = PRED[name]
            m = s.getcls(st, t)
            cy, cn = bool(m & yes), bool(m & no)
            amb = m & yes & no
            out = []
            if cy:
                a = st if not cn else st.copy()
                s.setcls(a, t, yes)
                if cn and amb: a.dec[(name, t)] = True
                out.append((a, True))
            if cn:
                b = st.copy() if cy else st
                s.setcls(b, t, no)
                if cy and amb: b.dec[(name, t)] = False
                out.append((b, False))
            return s.noted(out, c, note)
        if c.op == 'cmpin':
            a, b, sub = c.args
            o = s.cmpset(st, a, b)
            y, n = o & sub, o - sub
            if y and not n: return [(st, True)]
            if n and not y: return [(st, False)]
            out = []
            nan = (s.getcls(st, a) | s.getcls(st, b)) & NAN
            if nan:
                k = ('cmpin', a, b, sub)
                if k in st.dec: return [(st, st.dec[k])]
            for r, v in ((y, True), (n, False)):
                x = st.copy()
                if s.cmprefine(x, a, b, frozenset(r)):
                    if nan: x.dec[k] = v
                    out.append((x, v))
            return s.noted(out, c, note)
        if c.op == 'icmp':
            p, x, y = c.args
            r = s.irange(st, p, x, y)
            if r is not None: return [(st, r)]
            if c in st.dec: return [(st, st.dec[c])]
            out = []
            for v in (True, False):
                z = st.copy(); z.dec[c] = v
                if s.irefine(z, p, x, y, v): out.append((z, v))
            return s.noted(out, c, note)
        if c in st.dec: return [(st, st.dec[c])]
        r = s.policy.decide(s, st, c)
        if r is not None: return s.noted(r, c, note)
        a, b = st.copy(), st.copy()
        a.dec[c] = True; b.dec[c] = False
        return s.noted([(a, True), (b, False)], c, note)

    def noted(s, out, c, note):
        if len(out) > 1 and note:
            for x, v in out: x.trace = ((note[0], note[1], c, v), x.trace)
        return out

    def irange(s, st, p, x, y):
        a, b = s.rng(st, x), s.rng(st, y)
        if p in ('ult', 'ule', 'ugt', 'uge'):
            if a[0] >= 0 and b[0] >= 0: p = 's' + p[1:]
            elif a[0] >= 0 and b[1] < 0: return p in ('ult', 'ule')
            elif a[1] < 0 and b[0] >= 0: return p in ('ugt', 'uge')
            elif a[1] < 0 and b[1] < 0: p = 's' + p[1:]
            else: return None
        if x is y: return p in ('eq', 'sle', 'sge')
        if p == 'slt': return True if a[1] < b[0] else False if a[0] >= b[1] else None
        if p == 'sle': return True if a[1] <= b[0] else False if a[0] > b[1] else None
        if p == 'sgt': return True if a[0] > b[1] else False if a[1] <= b[0] else None
        if p == 'sge': return True if a[0] >= b[1] else False if a[1] < b[0] else None
        if p in ('eq', 'ne'):
            r = True if a == b and a[0] == a[1] else False if a[1] < b[0] or a[0] > b[1] else None
            if r is None: return None
            return r if p == 'eq' else not r
        return None

    def irefine(s, st, p, x, y, v):
        if not v: p = {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule'}[p]
        a, b = s.rng(st, x), s.rng(st, y)
        if p[0] == 'u':
            if a[0] >= 0 and b[0] >= 0: p = 's' + p[1:]
            elif p in ('ult', 'ule') and b[0] >= 0:      # x <u y with y >= 0 : x is non-negative as well
                a = (max(a[0], 0), min(a[1], b[1] - (p == 'ult')))
                if a[0] > a[1]: return False
                return s.setrng(st, x, a)
            elif p in ('ugt', 'uge') and a[0] >= 0:
                b = (max(b[0], 0), min(b[1], a[1] - (p == 'ugt')))
                if b[0] > b[1]: return False
                return s.setrng(st, y, b)
            else: return True
        na, nb = a, b
        if p == 'slt': na = (a[0], min(a[1], b[1] - 1)); nb = (max(b[0], a[0] + 1), b[1])
        elif p == 'sle': na = (a[0], min(a[1], b[1])); nb = (max(b[0], a[0]), b[1])
        elif p == 'sgt': na = (max(a[0], b[0] + 1), a[1]); nb = (b[0], min(b[1], a[1] - 1))
        elif p == 'sge': na = (max(a[0], b[0]), a[1]); nb = (b[0], min(b[1], a[1]))
        elif p == 'eq': na = nb = (max(a[0], b[0]), min(a[1], b[1]))
        elif p == 'ne':
            if b[0] == b[1]:
                if a[0] == b[0]: na = (a[0] + 1, a[1])
                if a[1] == b[0]: na = (na[0], a[1] - 1)
        if na[0] > na[1] or nb[0] > nb[1]: return False
        return s.setrng(st, x, na) and s.setrng(st, y, nb)

    def setrng(s, st, t, r):
        if t.op == 'i': return r[0] <= t.args[0] <= r[1]
        o = s.rng(st, t)
        n = (max(o[0], r[0]), min(o[1], r[1]))
        if n[0] > n[1]: return False
        if n != o:
            st.rng[t] = n
            if t.op == 'iu' and isinstance(t.args[1], T) and t.args[1].op == 'order':
                u = t.args[1].args[0]
                if n[1] < -1 and not s.setcls(st, u, S | NS | Z | NAN | INF): return False
                if n[0] > 1 and not s.setcls(st, u, L | NL | NAN | INF): return False
            if t.op == 'sext': return s.setrng(st, t.args[1], n)
            if t.op == 'zext' and n[1] < (1 << (s.width(t.args[1]) - 1)): return s.setrng(st, t.args[1], n)
        return True

    # ------------------------------------------------------------ instructions
    def binop(s, st, o, ty, a, b):
        w = bitw(ty)
        if w:
            if a.op == 'i' and b.op == 'i':
                x, y = a.args[0], b.args[0]; mask = (1 << w) - 1
                ux, uy = x & mask, y & mask
                try:
                    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: ux & uy, 'or': lambda: ux | uy, 'xor': lambda: ux ^ uy,
                         'shl': lambda: ux << uy if uy < w else None, 'lshr': lambda: ux >> uy if uy < w else None, 'ashr': lambda: x >> uy if uy < w else None,
                         'udiv': lambda: ux // uy, 'urem': lambda: ux % uy, 'sdiv': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                         'srem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[o]()
                except ZeroDivisionError: r = None
                if r is None: return mk('iu', w, mk('ub', o, a, b))
                return I(r, w)
            if w == 1:
                if o == 'and':
                    for p, q in ((a, b), (b, a)):
                        if p.op == 'i': return q if p.args[0] else FALSE
                    return a if a is b else mk('band', a, b)
                if o == 'or':
                    for p, q in ((a, b), (b, a)):
                        if p.op == 'i': return TRUE if p.args[0] else q
                    return a if a is b else mk('bor', a, b)
                if o == 'xor':
                    for p, q in ((a, b), (b, a)):
                        if p.op == 'i': return s.bnot(q) if p.args[0] else q
                    return mk('bxor', a, b)
            if o in ('add', 'mul', 'and', 'or', 'xor') and (a.op == 'i' or (b.op != 'i' and a.id > b.id)): a, b = b, a
            if b.op == 'i':
                v = b.args[0]
                if v == 0 and o in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
                if v == 0 and o in ('mul', 'and'): return b
                if v == 1 and o in ('mul', 'udiv', 'sdiv'): return a
                if v == -1 and o == 'and': return a
                if v == -1 and o in ('mul', 'sdiv'): return s.binop(st, 'sub', ty, I(0, w), a)
                if o == 'sub': return s.binop(st, 'add', ty, a, I(-v, w))
                if o == 'add' and a.op == 'add' and a.args[2].op == 'i': return s.binop(st, 'add', ty, a.args[1], I(a.args[2].args[0] + v, w))
                if o == 'xor' and v == -1: return s.binop(st, 'sub', ty, I(-1, w), a)
                if o == 'shl': return s.binop(st, 'mul', ty, a, I(1 << v, w)) if 0 <= v < w else mk('iu', w, mk('ub', o, a, b))
            if o == 'sub':
                if a is b: return I(0, w)
                if a.op == 'iu' and b.op == 'iu' and a.args[1].op == 'ptrtoint' and b.args[1].op == 'ptrtoint':
                    p, q = a.args[1].args[0], b.args[1].args[0]
                    if p.op == 'p' and q.op == 'p' and p.args[0] == q.args[0] and isinstance(p.args[1], int) and isinstance(q.args[1], int): return I(p.args[1] - q.args[1], w)
                if a.op == 'i' and a.args[0] == 0 and b.op == 'sub' and b.args[1].op == 'i' and b.args[1].args[0] == 0: return b.args[2]
                if a.op == 'i' and b.op == 'add' and b.args[2].op == 'i': return s.binop(st, 'sub', ty, I(a.args[0] - b.args[2].args[0], w), b.args[1])
                if a.op == 'i' and b.op == 'sub' and b.args[1].op == 'i': return s.binop(st, 'add', ty, b.args[2], I(a.args[0] - b.args[1].args[0], w))
            return mk(o, w, a, b)
        if ty in FP:
            if a.op == 'd' and b.op == 'd':
                x, y = a.args[0], b.args[0]
                try:
                    r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y if y else (math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)),
                         'frem': lambda: math.fmod(x, y)}[o]()
                except (OverflowError, ValueError): r = math.nan
                return D_(fnorm(r))
            return mk(o, ty, a, b)
        return s.unk(o, ty)

    ub = None       # a list: undefined integer arithmetic on known values ends its path and is recorded here
    def undefd(s, o, w, a, b, nsw):
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}.get(o)
        if r is not None: return '%d %s %d does not fit a signed %d-bit integer' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[o], b, w) if nsw and not -(1 << (w - 1)) <= r < (1 << (w - 1)) else None
        if o in ('sdiv', 'udiv', 'srem', 'urem') and b == 0: return 'integer division by zero'
        if o in ('sdiv', 'srem') and b == -1 and a == -(1 << (w - 1)): return '%d / -1 does not fit a signed %d-bit integer' % (a, w)
        if o in ('shl', 'lshr', 'ashr') and not 0 <= b < w: return 'shift of a %d-bit integer by %d' % (w, b)
        return None

    def bnot(s, t):
        if t.op == 'i': return B(not t.args[0])
        if t.op == 'not': return t.args[0]
        if t.op == 'cmpin': return mk('cmpin', t.args[0], t.args[1], frozenset((-1, 0, 1)) - t.args[2])
        if t.op == 'icmp':
            return mk('icmp', {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule'}[t.args[0]], t.args[1], t.args[2])
        return mk('not', t)

    def icmp(s, st, p, a, b):
        if a.op == 'i' and b.op == 'i':
            w = a.args[1]; x, y = a.args[0], b.args[0]
            if p[0] == 'u': x &= (1 << w) - 1; y &= (1 << w) - 1
            return B({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])
        if p in ('eq', 'ne'):
            # comparison of two truth values
            x, y = a, b
            while x.op == y.op and x.op in ('zext', 'sext') and s.width(x.args[1]) == s.width(y.args[1]) == 1: x, y = x.args[1], y.args[1]
            if x.op != 'i' and y.op != 'i' and s.width(x) == 1 and s.width(y) == 1:
                r = FALSE if x is y else mk('bxor', x, y)
                return s.bnot(r) if p == 'eq' else r
        if a.op == 'i': a, b, p = b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if b.op == 'i':
            v = b.args[0]
            if a.op == 'cmp' or (a.op in ('sext', 'trunc') and a.args[1].op == 'cmp'):
                c = a if a.op == 'cmp' else a.args[1]
                f = {'eq': lambda r: r == v, 'ne': lambda r: r != v, 'slt': lambda r: r < v, 'sle': lambda r: r <= v, 'sgt': lambda r: r > v, 'sge': lambda r: r >= v}.get(p)
                if f:
                    sub = frozenset(r for r in (-1, 0, 1) if f(r))
                    if not sub: return FALSE
                    if len(sub) == 3: return TRUE
                    x, y = c.args
                    if y.id < x.id: x, y, sub = y, x, frozenset(-r for r in sub)
                    return mk('cmpin', x, y, sub)
            if a.op in ('zext', 'sext') and s.width(a.args[1]) == 1 and p in ('eq', 'ne'):
                one = 1 if a.op == 'zext' else -1
                if v == 0: return s.bnot(a.args[1]) if p == 'eq' else a.args[1]
                if v == one: return a.args[1] if p == 'eq' else s.bnot(a.args[1])
            if s.width(a) == 1 and p in ('eq', 'ne'):
                return a if (v != 0) == (p == 'eq') else s.bnot(a)
            # x < v  <=>  x <= v-1 : one canonical form
            w = b.args[1]
            if p == 'sle' and v < (1 << (w - 1)) - 1: p, b = 'slt', I(v + 1, w)
            elif p == 'sgt' and v < (1 << (w - 1)) - 1: p, b = 'sge', I(v + 1, w)
            elif p == 'ule' and v != -1: p, b = 'ult', I(v + 1, w)
            elif p == 'ugt' and v != -1: p, b = 'uge', I(v + 1, w)
            if p == 'ult' and b.args[0] == 1: p, b = 'eq', I(0, w)
            if p == 'uge' and b.args[0] == 1: p, b = 'ne', I(0, w)
            if a.op in ('sext', 'zext') and p in ('eq', 'ne') and s.width(a.args[1]) > 1:
                wi = s.width(a.args[1])
                if a.op == 'sext' and -(1 << (wi - 1)) <= b.args[0] < 1 << (wi - 1): return s.icmp(st, p, a.args[1], I(b.args[0], wi))
                if a.op == 'zext' and 0 <= b.args[0] < 1 << wi: return s.icmp(st, p, a.args[1], I(b.args[0], wi))
            if a.op == 'sext' and p[0] == 's' and s.width(a.args[1]) > 1:
                wi = s.width(a.args[1])
                if -(1 << (wi - 1)) <= b.args[0] < 1 << (wi - 1): return s.icmp(st, p, a.args[1], I(b.args[0], wi))
        elif a.op in ('p', 'null', 'fn') or b.op in ('p', 'null', 'fn'):
            return s.pcmp(st, p, a, b)
        elif a.id > b.id:
            a, b, p = b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        r = s.irange(st, p, a, b)
        if r is not None: return B(r)
        t = mk('icmp', p, a, b)
        # keep one polarity
        return t

    def pcmp(s, st, p, a, b):
        if a is b and p in ('eq', 'ne', 'uge', 'ule'): return B(p != 'ne')
        if p in ('eq', 'ne'):
            x, y = s.obj_of(a) if a.op != 'fn' else ('fn', a), s.obj_of(b) if b.op != 'fn' else ('fn', b)
            def real(o): return o is not None and not (isinstance(o[0], tuple) and o[0][0] in ('deref',))
            if (x is None) != (y is None):
                o = y if x is None else x
                if real(o): return B(p == 'ne')
            elif x is None: return B(p == 'eq')
            elif real(x) and real(y):
                if x[0] != y[0]: return B(p == 'ne')
                if isinstance(x[1], int) and isinstance(y[1], int): return B((x[1] == y[1]) == (p == 'eq'))
        if p in ('ult', 'ule', 'ugt', 'uge') and a.op == 'p' and b.op == 'p' and a.args[0] == b.args[0] and isinstance(a.args[1], int) and isinstance(b.args[1], int):
            x, y = a.args[1], b.args[1]
            return B({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p])
        if a.id > b.id: a, b, p = b, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        if p == 'ne': return mk('not', mk('pc', 'eq', a, b))
        return mk('pc', p, a, b)

    def fcmp(s, st, p, a, b):
        if a.op == 'd' and b.op == 'd':
            x, y = a.args[0], b.args[0]; un = x != x or y != y
            if p == 'ord': return B(not un)
            if p == 'uno': return B(un)
            if p == 'true': return TRUE
            if p == 'false': return FALSE
            r = {'eq': x == y, 'ne': x != y and not un, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            return B(r or (un and p[0] == 'u'))
        r = s.policy.fcmp(s, st, p, a, b)
        if r is not None: return r
        return mk('fc', p, a, b)

    def cast(s, st, o, ft, ty, a):
        w = bitw(ty)
        if o in ('trunc', 'zext', 'sext'):
            if a.op == 'i':
                v = a.args[0]
                if o == 'zext': v &= (1 << a.args[1]) - 1
                return I(v, w)
            if o == 'trunc':
                if a.op in ('zext', 'sext'):
                    wi = s.width(a.args[1])
                    if wi == w: return a.args[1]
                    if wi < w: return mk(a.op, w, a.args[1])
                    return mk('trunc', w, a.args[1])
                if a.op == 'trunc': return mk('trunc', w, a.args[1])
            elif o == 'sext':
                if a.op == 'sext': return mk('sext', w, a.args[1])
                if a.op == 'zext': return mk('zext', w, a.args[1])
                if s.width(a) > 1 and s.rng(st, a)[0] >= 0: return mk('sext', w, a)
            elif o == 'zext':
                if a.op == 'zext': return mk('zext', w, a.args[1])
                if s.width(a) > 1 and s.rng(st, a)[0] >= 0: return mk('sext', w, a if a.op != 'sext' else a.args[1])
            return mk(o, w, a)
        if o in ('sitofp', 'uitofp'):
            if a.op == 'i':
                v = a.args[0]
                if o == 'uitofp': v &= (1 << a.args[1]) - 1
                return D_(float(v))
            return mk(o, ty, a)
        if o in ('fptosi', 'fptoui'):
            if a.op == 'd' and a.args[0] == a.args[0] and abs(a.args[0]) < 2.0 ** 70:
                v = int(a.args[0])
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if o == 'fptosi' else (0, (1 << w) - 1)
                if lo <= v <= hi: return I(v, w)
            return mk('iu', w, mk(o, w, a))
        if o == 'fpext': return a
        if o == 'fptrunc': return a if a.op == 'd' else mk('fptrunc', ty, a)
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if o == 'inttoptr' and a.op == 'iu' and a.args[1].op == 'ptrtoint': return a.args[1].args[0]
            if o == 'ptrtoint': return mk('iu', w, mk('ptrtoint', a))
            return mk(o, ty, a)
        return s.unk(o, ty)

    # ------------------------------------------------------------ execution
    def run_fn(s, fn, args, st, site):
        """Interpret a call; list of (state, return value)."""
        if s.depth > 120: raise Imprecise('call depth')
        if fn.decl: raise Broken('no body for ' + fn.norm)
        s.visited.add(fn.n)
        frame = mk('fr', fn.n, site)
        env = {i: a for i, a in enumerate(args)}
        s.depth += 1; s.callstack.append(fn)
        try:
            outs = s.region(fn, frame, None, [(None, 0, env, st)])
        finally:
            s.depth -= 1; s.callstack.pop()
        res = []
        for o in outs:
            assert o[0] == 'ret'
            res.append((o[1], o[2]))
        return res

    def region(s, fn, frame, L, work):
        """Execute from the given (prev, block, env, state) items until leaving the loop L (or returning)."""
        outs = []; first = True
        while work:
            prev, b, env, st = work.pop()
            if L is not None and not first:
                if b == L['h']: outs.append(('back', prev, env, st)); continue
                if b not in L['set']: outs.append(('exit', prev, b, env, st)); continue
            if b in fn.header and not (first and L is not None and b == L['h']):
                for it in s.loop(fn, frame, fn.header[b], prev, env, st):
                    work.append(it)
                first = False
                continue
            if not (first and L is not None):     # loop headers get their phis from the caller
                env = s.phis(fn, b, prev, env)
            first = False
            for it in s.block(fn, frame, b, env, st):
                if it[0] == 'ret': outs.append(it)
                else: work.append(it)
            if len(work) + len(outs) > s.max_paths: raise Imprecise('paths in %s' % fn.norm[:80])
        return outs

    def phis(s, fn, b, prev, env):
        ins = fn.blocks[b]
        if not ins or ins[0]['o'] != 'phi': return env
        new = {}
        for x in ins:
            if x['o'] != 'phi': break
            for bb, v in x['in']:
                if bb == prev: new[x['d']] = s.val(env, v); break
        env = dict(env); env.update(new)
        return env

    def block(s, fn, frame, b, env, st):
        """Run the non-phi instructions of a block; returns successor items or ('ret', state, value)."""
        env = dict(env)
        items = [(env, st, 0)]; out = []
        ins = fn.blocks[b]; n = len(ins)
        start = 0
        while start < n and ins[start]['o'] == 'phi': start += 1
        items = [(env, st, start)]
        while items:
            env, st, i = items.pop()
            while i < n:
                x = ins[i]; o = x['o']
                s.steps += 1
                if s.steps > s.max_steps: raise Imprecise('step budget in ' + fn.norm[:80])
                if o == 'load':
                    s.where = (fn, x)
                    env[x['d']] = s.load(st, s.val(env, x['a'][0]), x)
                elif o == 'store':
                    s.where = (fn, x)
                    v, p = s.val(env, x['a'][0]), s.val(env, x['a'][1])
                    if v.op == 'undefv': v = s.typed(mk('undef', 'v', 0), x['st'])
                    s.wr(st, p, x['sz'], v)
                elif o == 'getelementptr':
                    env[x['d']] = s.gep(st, env, x)
                elif o == 'br':
                    a = x['a']
                    if len(a) == 1: out.append((b, a[0][1], env, st))
                    else:
                        s.where = (fn, x)
                        c = s.val(env, a[0])
                        # operands are stored as cond, false, true
                        for z, v in s.decide(st, c, (fn, x)):
                            out.append((b, (a[2] if v else a[1])[1], env, z))
                    break
                elif o == 'switch':
                    out += s.switch(fn, b, env, st, x); break
                elif o == 'ret':
                    a = x['a']
                    st2 = st
                    s.drop(st2, frame)
                    out.append(('ret', st2, s.val(env, a[0]) if a else None)); 
                    st2.tag['ret'] = (fn, x)
                    break
                elif o == 'unreachable': break
                elif o == 'alloca':
                    obj = ('a', frame, x['d'], x.get('nm', ''))
                    st.mem[obj] = {}
                    env[x['d']] = mk('p', obj, 0)
                elif o in ('call', 'invoke'):
                    s.where = (fn, x)
                    r = s.call(fn, frame, b, i, env, st, x)
                    if len(r) == 0: break
                    if len(r) == 1:
                        st, v = r[0]
                        if 'd' in x: env[x['d']] = v if v is not None else s.unk('void', x['t'])
                        if o == 'invoke': out.append((b, x['norm'], env, st)); break
                    else:
                        if len(items) + len(out) + len(r) > s.max_paths: raise Imprecise('paths in %s' % fn.norm[:80])
                        for z, v in r:
                            e = dict(env)
                            if 'd' in x: e[x['d']] = v if v is not None else s.unk('void', x['t'])
                            items.append((e, z, i + 1))
                        break
                elif o == 'icmp':
                    a, c = s.val(env, x['a'][0]), s.val(env, x['a'][1])
                    env[x['d']] = s.icmp(st, x['p'], a, c)
                elif o == 'fcmp':
                    env[x['d']] = s.fcmp(st, x['p'], s.val(env, x['a'][0]), s.val(env, x['a'][1]))
                elif o == 'select':
                    c = s.val(env, x['a'][0])
                    y, z = s.val(env, x['a'][1]), s.val(env, x['a'][2])
                    if y is z: env[x['d']] = y
                    elif c.op == 'i': env[x['d']] = y if c.args[0] else z
                    elif x['t'] == 'i1' and y.op == 'i' and z.op == 'i': env[x['d']] = c if y.args[0] else s.bnot(c)
                    elif x['t'] == 'i1': env[x['d']] = s.binop(st, 'or', 'i1', s.binop(st, 'and', 'i1', c, y), s.binop(st, 'and', 'i1', s.bnot(c), z))
                    else:
                        ds = s.decide(st, c, (fn, x))
                        if len(ds) == 1:
                            st, v = ds[0]; env[x['d']] = y if v else z
                        else:
                            for w_, v in ds:
                                e = dict(env); e[x['d']] = y if v else z
                                items.append((e, w_, i + 1))
                            break
                elif o in IOPS or o in FOPS:
                    ua, ub = s.val(env, x['a'][0]), s.val(env, x['a'][1])
                    v = s.binop(st, o, x['t'], ua, ub)
                    if s.ub is not None and ua.op == 'i' and ub.op == 'i':
                        u_ = s.undefd(o, bitw(x['t']), ua.args[0], ub.args[0], x.get('nsw'))
                        if u_: s.ub.append((st, u_, (fn, x))); break
                    if x.get('nsw') and v.op in ('add', 'sub'):
                        # signed arithmetic that wraps is undefined: only the non-wrapping results continue
                        ra, rb = s.rng(st, ua), s.rng(st, ub)
                        w_ = v.args[0]; full = (-(1 << (w_ - 1)), (1 << (w_ - 1)) - 1)
                        c = (ra[0] + rb[0], ra[1] + rb[1]) if o == 'add' else (ra[0] - rb[1], ra[1] - rb[0])
                        c = (max(c[0], full[0]), min(c[1], full[1]))
                        if c[0] <= c[1] and c != full: s.setrng(st, v, c)
                    env[x['d']] = v
                elif o == 'fneg':
                    a = s.val(env, x['a'][0])
                    env[x['d']] = D_(-a.args[0]) if a.op == 'd' else a.args[1] if a.op == 'fneg' else mk('fneg', x['t'], a)
                elif 'ft' in x:
                    a = s.val(env, x['a'][0])
                    if s.ub is not None and o in ('fptosi', 'fptoui') and a.op == 'd':
                        w_ = bitw(x['t']); f_ = a.args[0]
                        if not f_ == f_ or not (-(1 << (w_ - 1)) - 1 < f_ < (1 << (w_ - 1)) if o == 'fptosi' else -1 < f_ < (1 << w_)):
                            s.ub.append((st, 'the floating-point value %r is converted to a %d-bit integer' % (float(f_), w_), (fn, x))); break
                    env[x['d']] = s.cast(st, o, x['ft'], x['t'], a)
                elif o == 'extractvalue':
                    a = s.val(env, x['a'][0]); env[x['d']] = s.extract(a, x['idx'], x['t'])
                elif o == 'insertvalue':
                    a, v = s.val(env, x['a'][0]), s.val(env, x['a'][1])
                    d = dict(a.args[0]) if a.op == 'agg' else {}
                    d[tuple(x['idx']) if len(x['idx']) > 1 else x['idx'][0]] = v
                    env[x['d']] = mk('agg', tuple(sorted(d.items(), key=lambda z: str(z[0]))))
                elif o == 'freeze': env[x['d']] = s.val(env, x['a'][0])
                elif 'd' in x: env[x['d']] = s.unk(o, x['t'])
                i += 1
        return out

    def extract(s, a, idx, ty):
        k = tuple(idx) if len(idx) > 1 else idx[0]
        if a.op == 'agg':
            d = dict(a.args[0])
            if k in d: return d[k]
        return s.typed(mk('ev', a, k), ty)

    def load(s, st, p, x):
        v = s.rd(st, p, x['sz'], x['t'])
        ty = x['t']
        if bitw(ty) and v.op not in ('i',) and s.width(v) != bitw(ty):
            w = bitw(ty)
            if s.width(v) == 1 and w == 8: return mk('zext', 8, v)
            if v.op == 'zext' and s.width(v.args[1]) == w: return v.args[1]
            return mk('iu', w, mk('reint', v))
        return v

    def gep(s, st, env, x):
        base = s.val(env, x['base'])
        off = x['c']; sym = None
        for v, k in x.get('vi', ()):
            t = s.val(env, v)
            if t.op == 'i': off += t.args[0] * k
            else:
                u = mk('gx', t, k)
                sym = u if sym is None else mk('gs', *sorted((sym, u), key=lambda z: z.id))
        if not x.get('ok', True): return mk('p', ('deref', mk('unk', 'gep', s.nfresh())), 0)
        if base.op == 'null': return NULL if off == 0 and sym is None else mk('p', ('deref', NULL), off)
        oo = s.obj_of(base)
        if oo is None: return mk('p', ('deref', base), off)
        obj, o = oo
        if sym is None and isinstance(o, int): return mk('p', obj, o + off) if not (o + off == 0 and base.op != 'p') else base
        return mk('p', obj, mk('goff', o, off, sym))

    def switch(s, fn, b, env, st, x):
        a = x['a']; c = s.val(env, a[0]); dflt = a[1][1]
        cases = [(s.const(a[i]), a[i + 1][1]) for i in range(2, len(a), 2)]
        if c.op == 'i':
            for k, t in cases:
                if k.args[0] == c.args[0]: return [(b, t, env, st)]
            return [(b, dflt, env, st)]
        out = []; cur = st
        for k, t in cases:
            nxt = None
            for z, v in s.decide(cur, s.icmp(cur, 'eq', c, k), (fn, x)):
                if v: out.append((b, t, env, z))
                else: nxt = z
            if nxt is None: return out
            cur = nxt
        out.append((b, dflt, env, cur))
        return out

    def drop(s, st, frame):
        kill = [o for o in st.mem if isinstance(o, tuple) and o[0] == 'a' and o[1] is frame]
        for o in kill:
            del st.mem[o]; st.gen.pop(o, None)

    # ------------------------------------------------------------ loops
    def loopstat(s, fn, L):
        k = (fn.n, L['h'])
        r = s.loopinfo.get(k)
        if r is None:
            defs = set(); uses = []
            seen = set()
            for b in sorted(L['set']):
                for x in fn.blocks[b]:
                    if 'd' in x: defs.add(x['d'])
            for b in sorted(L['set']):
                for x in fn.blocks[b]:
                    ops = list(x.get('a', ()))
                    if 'base' in x: ops.append(x['base'])
                    for v, _ in x.get('vi', ()): ops.append(v)
                    if 'f' in x: ops.append(x['f'])
                    if x['o'] == 'phi' and b != L['h']: ops += [v for _, v in x['in']]
                    for o in ops:
                        if isinstance(o, list) and o and o[0] == 'v' and o[1] not in defs and o[1] not in seen: seen.add(o[1]); uses.append(o[1])
            r = (defs, uses); s.loopinfo[k] = r
        return r

    def loop(s, fn, frame, L, prev, env, st):
        h = L['h']; ins = fn.blocks[h]
        phis = [x for x in ins if x['o'] == 'phi']
        ent = {}
        for x in phis:
            for bb, v in x['in']:
                if bb == prev: ent[x['d']] = s.val(env, v); break
        # 1. unrolling while every decision is determined
        st0 = st.copy()
        steps0 = s.steps; lim = s.steps + 60000
        e = dict(env); e.update(ent); cur = st; fl = s.fresh
        res = None; early = []
        inner = frame
        s.policy.loop_enter(s, fn, L)
        stuck = getattr(s.policy, 'stuck', None)      # told of iterations that every path completes without leaving the loop
        forks = getattr(s.policy, 'forks', 1); live = [(e, cur)]
        for it in range(s.unroll):
            nxt = []; stop = False
            for e, cur in live:
                try: outs = s.region(fn, frame, L, [(None, h, e, cur)])
                except Imprecise: stop = True; break
                back = [o for o in outs if o[0] == 'back']; ex = [o for o in outs if o[0] == 'exit']
                if not back: early += ex; continue
                # iterations that continue along several paths are followed where the policy allows it
                if len(back) + len(nxt) > forks: stop = True; break
                if ex:
                    # exits on the way (a break on a symbolic condition) are kept where the policy asks for it
                    if not getattr(s.policy, 'breaks', False) or len(early) > getattr(s.policy, 'maxearly', 24): stop = True; break
                    early += ex
                for _, pv, e2, c2 in back:
                    nv = {}
                    for x in phis:
                        for bb, v in x['in']:
                            if bb == pv: nv[x['d']] = s.val(e2, v); break
                    e2 = dict(e2); e2.update(nv)
                    if stuck and not ex and len(back) == 1: stuck(s, fn, L, e, nv, cur, c2)
                    nxt.append((e2, c2))
            if stop: break
            if not nxt: res = early; break
            if s.steps > lim: break
            live = nxt
        if res is not None:
            return [(o[1], o[2], o[3], o[4]) for o in res]
        # 2. summary
        s.steps = steps0 + (s.steps - steps0) // 8
        st = st0
        return s.summarise(fn, frame, L, env, ent, phis, st)

    def summarise(s, fn, frame, L, env, ent, phis, st):
        h = L['h']
        defs, uses = s.loopstat(fn, L)
        pphi = []          # promoted phis (ids), in discovery order
        pcell = []         # promoted cells (obj, off, size)
        cj = {}            # joined classes for promoted number values
        reads = set()
        final = False
        for rnd in range(40):
            s.readlog.append(set())
            sig = None
            if final:
                sg = [('e', d, ent[d]) for d in sorted(ent)]
                sg += [('u', d, env.get(d)) for d in uses]
                rc = sorted(((o, f) for o, f in reads if o in st.mem), key=lambda z: (str(z[0]), str(z[1])))
                for o, f in rc:
                    c = st.mem[o].get(f) if isinstance(f, int) else None
                    if c is not None: sg.append(('c', anon(o, frame), f, c[1]))
                sig = mk('sig', fn.n, h, *[tuple(x) for x in sg])
            hs = st.copy(); he = dict(env); he.update(ent)
            key = sig if final else mk('prov', fn.n, h, frame)
            for k, d in enumerate(pphi):
                t = mk('mu', key, 'phi', k)
                he[d] = s.mutyped(t, ent[d])
            cells = {}
            for k, (o, f, z) in enumerate(pcell):
                oldc = hs.mem.get(o, {}).get(f)
                t = mk('mu', key, 'cell', k)
                old = oldc[1] if oldc and oldc[0] == z else None
                if z == s.SZ and s.policy.number_cells:
                    v = s.D.sym(t) if not s.D.alg else s.D.atom(t)
                    hs.cls[s.D.canon_sign(v)[0]] = cj[(o, f)] if not s.D.canon_sign(v)[1] else c_neg(cj[(o, f)])
                else: v = s.mutyped(t, old) if old is not None and old is not ZFILL else mk('iu', z * 8, t) if z in (1, 2, 4, 8) else t
                dd = dict(hs.mem.get(o, ()))
                for q in [q for q, (zz, _) in dd.items() if q < f + z and f < q + zz]: dd.pop(q)
                dd[f] = (z, v); hs.mem[o] = dd; cells[(o, f)] = v
            g0 = dict(hs.gen)
            outs = s.region(fn, frame, L, [(None, h, he, hs.copy())])
            rl = s.readlog.pop()
            if s.readlog:
                for r in s.readlog: r |= rl
            reads |= rl
            changed = False
            for o in outs:
                if o[0] != 'back': continue
                _, pv, e2, s2 = o
                for x in phis:
                    nv = None
                    for bb, v in x['in']:
                        if bb == pv: nv = s.val(e2, v); break
                    if x['d'] not in pphi and nv is not ent[x['d']]:
                        pphi.append(x['d']); changed = True
                # promoted cells: anything that existed at entry and differs on the back edge
                for ob, dd in s2.mem.items():
                    base = hs.mem.get(ob)
                    if base is None or dd is base: continue
                    if base == dd: continue
                    for f, (z, v) in dd.items():
                        if not isinstance(f, int): continue
                        c = base.get(f)
                        if c is not None and c[0] == z and c[1] is v: continue
                        if (ob, f) in cells and cells[(ob, f)] is not None and c is not None and c[0] == z:
                            if z == s.SZ and s.policy.number_cells and v is not ZFILL:
                                m = s.getcls(s2, v)
                                if m & ~cj[(ob, f)]: cj[(ob, f)] |= m; changed = True
                            continue
                        if z == s.SZ and s.policy.number_cells and v is not ZFILL:
                            m = s.getcls(s2, v)
                            if c is not None and c[0] == z and c[1] is not ZFILL: m |= s.getcls(hs, c[1])
                            elif st.gen.get(ob) or not (isinstance(ob, tuple) and ob[0] in ('a', 'h')): m = ALL
                            cj[(ob, f)] = m
                        if v is ZFILL: continue
                        pcell = [q for q in pcell if not (q[0] == ob and q[1] < f + z and f < q[1] + q[2])]
                        pcell.append((ob, f, z)); cells[(ob, f)] = None; changed = True
                for ob, gn in s2.gen.items():
                    if gn != g0.get(ob, 0) and ob in st.mem:
                        # whole object havocked in the body: make it unknown from the start
                        if st.gen.get(ob, 0) < 1000000:
                            st.gen[ob] = 1000000 + st.gen.get(ob, 0); st.mem[ob] = {}; changed = True
            if final and not changed:
                s.record(fn, L, key, pphi, pcell, phis, ent, st, hs, outs)
                return [(o[1], o[2], o[3], o[4]) for o in outs if o[0] == 'exit']
            final = not changed
        raise Imprecise('loop fixpoint in ' + fn.norm[:80])

    def record(s, fn, L, key, pphi, pcell, phis, ent, st, hs, outs):
        """The recurrence of a summarised loop: entry values, and per path the decisions of one iteration with its updates."""
        if key in s.recs: return
        base = hs.trace
        def dec(z):
            out = []; e = z.trace
            while e is not None and e is not base: out.append((e[0][2], e[0][3])); e = e[1]
            return out[::-1]
        entry = {}
        for k, d in enumerate(pphi): entry[('phi', k)] = ent[d]
        for k, (o, f, z) in enumerate(pcell):
            c = st.mem.get(o, {}).get(f)
            entry[('cell', k)] = c[1] if c is not None and c[0] == z and c[1] is not ZFILL else None
        paths = []
        for o in outs:
            if o[0] == 'back':
                _, pv, e2, s2 = o; up = {}
                for k, d in enumerate(pphi):
                    x = next(y for y in phis if y['d'] == d)
                    up[('phi', k)] = next((s.val(e2, v) for bb, v in x['in'] if bb == pv), None)
                for k, (ob, f, z) in enumerate(pcell):
                    c = s2.mem.get(ob, {}).get(f)
                    up[('cell', k)] = c[1] if c is not None and c[0] == z and c[1] is not ZFILL else None
                paths.append((dec(s2), up))
            elif o[0] == 'exit': paths.append((dec(o[4]), None))
            else: paths.append((dec(o[1]), None))
        s.recs[key] = (entry, paths, fn.norm)

    def mutyped(s, t, like):
        if like is None: return t
        if like.op == 'i' or s.isint(like): return mk('iu', s.width(like), t)
        if like.op == 'd' or like.op in FOPS or like.op == 'du': return mk('du', 'double', t)
        return t
    def isint(s, t): return t.op in IOPS or t.op in ('iu', 'sext', 'zext', 'trunc', 'cmp') or t.op in BOOLS

    # ------------------------------------------------------------ calls
    def call(s, fn, frame, b, i, env, st, x):
        f = x['f']
        args = [s.val(env, a) for a in x['a']]
        name = None
        if f[0] == 'fn': name = f[1]
        elif f[0] == 'v':
            t = env[f[1]]
            if t.op == 'fn': name = t.args[0]
        if name is None:
            h = getattr(s.policy, 'icall', None)
            r = h(s, st, env[f[1]], args, x) if h and f[0] == 'v' else None
            return r if r is not None else s.opaque(st, None, args, x, x.get('t', 'void'))
        if name.startswith('llvm.'): return s.intrinsic(name, args, st, x)
        callee = s.m.fns.get(name)
        if callee is None: return s.opaque(st, None, args, x, x.get('t', 'void'))
        site = (b, i, frame)
        r = s.policy.call(s, st, callee, args, x, site)
        if r is not None: return r
        if callee.decl: return s.external(callee, args, st, x)
        return s.run_fn(callee, args, st, mk('site', b, i, frame))

    def opaque(s, st, callee, args, x, ty):
        """Unknown code: every pointee not taken by pointer-to-const is lost, the result is a term of the inputs."""
        name = callee.n if callee else 'indirect'
        s.unknown_calls[callee.norm if callee else 'indirect'] = s.unknown_calls.get(callee.norm if callee else 'indirect', 0) + 1
        info = param_info(callee) if callee else [('param', False, '')] * len(args)
        gens = []
        for a in args:
            if a.op == 'p' : gens.append(st.gen.get(a.args[0], 0))
        res = mk('call', name, tuple(args), tuple(gens))
        for k, a in enumerate(args):
            if k < len(info) and info[k][1]: continue
            if k < len(info) and info[k][0] == 'param' and info[k][2] and not info[k][2].endswith(('&', '*', ')')): continue
            if a.op == 'p': s.havoc(st, a)
            elif k < len(x.get('ats', ())) and x['ats'][k] == 'ptr' and a.op not in ('null', 'fn', 'undefv'): s.havoc(st, a)
        if ty == 'void': return [(st, None)]
        return [(st, s.typed(res, ty))]

    def external(s, callee, args, st, x):
        n = callee.n; ty = x.get('t', 'void')
        if n == '__cxa_guard_acquire': return [(st, I(1, 32))]
        if n in ('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'): return [(st, I(0, 32) if ty != 'void' else None)]
        if n in ('_Znwm', '_Znam', 'malloc'):
            obj = ('h', x.get('l', 0), x['d'], s.nfresh())
            st.mem[obj] = {}
            return [(st, mk('p', obj, 0))]
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm'): return [(st, None)]
        if ty in FP and all(a.op == 'd' for a in args):
            base = n.rstrip('fl') if n not in ('floor', 'ceil') else n
            f = {'pow': math.pow, 'log': math.log, 'log10': math.log10, 'exp': math.exp, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'fabs': abs, 'sin': math.sin, 'cos': math.cos,
                 'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos}.get(n) or {'pow': math.pow, 'log': math.log, 'log10': math.log10, 'exp': math.exp, 'sqrt': math.sqrt}.get(base)
            if f:
                try: return [(st, D_(fnorm(float(f(*[a.args[0] for a in args])))))]
                except (ValueError, OverflowError): pass
        if callee.rt in FP and not any(t == 'ptr' for t in x.get('ats', ())):
            return [(st, mk('du', ty, mk('m:' + n, *args)))]
        return s.opaque(st, callee, args, x, ty)

    def intrinsic(s, n, args, st, x):
        ty = x.get('t', 'void')
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.stack', 'llvm.va_', 'llvm.invariant')): return [(st, None if ty == 'void' else s.unk(n, ty))]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            s.memcpy(st, args[0], args[1], args[2]); return [(st, None)]
        if n.startswith('llvm.memset'):
            if isI(args[1]) and args[1].args[0] == 0 and isI(args[2]) and s.obj_of(args[0]) and isinstance(s.obj_of(args[0])[1], int):
                if args[2].args[0] > 0: s.wr(st, args[0], args[2].args[0], ZFILL)
            else: s.havoc(st, args[0])
            return [(st, None)]
        if n.startswith('llvm.fabs'):
            a = args[0]
            return [(st, D_(abs(a.args[0])) if a.op == 'd' else mk('du', ty, mk('fabs', a)))]
        m = re.match(r'llvm\.(floor|ceil|trunc|sqrt|pow|log10|log2|log|exp|sin|cos)\.', n)
        if m and all(a.op == 'd' for a in args):
            try: return [(st, D_(float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'sqrt': math.sqrt, 'pow': math.pow, 'log10': math.log10, 'log2': math.log2, 'log': math.log, 'exp': math.exp, 'sin': math.sin, 'cos': math.cos}[m.group(1)](*[a.args[0] for a in args]))))]
            except (ValueError, OverflowError): pass
        if n.startswith('llvm.is.fpclass') and args[0].op == 'd' and args[1].op == 'i':
            v = args[0].args[0]; k = args[1].args[0]
            b = 0
            if v != v: b = 0x3
            elif v == math.inf: b = 0x200
            elif v == -math.inf: b = 0x4
            elif v == 0: b = 0x40 if math.copysign(1, v) > 0 else 0x20
            elif abs(v) < sys.float_info.min: b = 0x80 if v > 0 else 0x10
            else: b = 0x100 if v > 0 else 0x8
            return [(st, B(b & k))]
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.', n)
        if m:
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[m.group(1)]
            return [(z, args[0] if v else args[1]) for z, v in s.decide(st, s.icmp(st, p, args[0], args[1]))]
        if n.startswith('llvm.abs.'):
            a = args[0]; w = bitw(ty)
            if a.op == 'i': return [(st, I(abs(a.args[0]), w))]
            return [(z, s.binop(z, 'sub', ty, I(0, w), a) if v else a) for z, v in s.decide(st, s.icmp(st, 'slt', a, I(0, w)))]
        if n.startswith('llvm.trap'): return []
        if ty == 'void': return [(st, None)]
        return [(st, s.typed(mk('call', n, tuple(args)), ty))]


IOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
BOOLS = {'pred', 'cmpin', 'icmp', 'pc', 'fc', 'not', 'band', 'bor', 'bxor'}

def wrote(I_, st, p):
    """Remember the places of a local or allocated object that have been stored to (they stay set when their value becomes unknown)."""
    oo = I_.obj_of(p)
    if oo is None or not isinstance(oo[0], tuple) or oo[0][0] not in ('a', 'h'): return
    k = ('w', oo[0]); w = st.tag.get(k, frozenset())
    if oo[1] not in w: st.tag[k] = w | {oo[1]}

def anon(o, frame):
    return o

def fparse(t):
    try: return fnorm(float(t))
    except ValueError:
        t = t.lower()
        return math.nan if 'nan' in t else -math.inf if t.startswith('-') else math.inf

_nan = float('nan')
def fnorm(v): return _nan if v != v else v
