"""C12: typestate of foreign handles and digit storage; C14: destinations are fully defined; C18: working precision.

Every method of the number class (constructors, destructor, assignment, reading, arithmetic, conversions, own implementations) is interpreted
from every prior state of the object: each class, a moved-from object, an object of reduced precision.  Afterwards the objects are destroyed."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report, evalt
from terms import *
from absint import *
from be import BE, BEInterp
from bx import BX, XInterp
from flx import FLX, table_sizes
from multiprocessing import Pool
PROP = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] in ('C12', 'C14', 'C18') else 'C12'
MODS = {}; D = Alg(); DF = Free()
STATES = {'NaN': NAN, 'inf': PINF, '-inf': NINF, '0': Z, '1': P1, '(-inf,-1)': NL, '(0,1)': S}
REDUCED = 30
CTOR = re.compile(r'EF::e_float(<.*>)?\(')


def dtor(m):
    r = [f for f in m.fns.values() if f.norm == 'EF::~e_float()' and not f.decl]
    d = [f for f in r if re.search(r'D[12]Ev$', f.n)]
    if not d: raise ir.Broken('no destructor of the number class')
    return d[0]

def virtuals(m):
    """Functions in the class's table of virtual functions."""
    out = set()
    def walk(c):
        if isinstance(c, (list, tuple)):
            if len(c) == 2 and c[0] == 'fn': out.add(c[1])
            for x in c: walk(x)
        elif isinstance(c, dict):
            for x in c.values(): walk(x)
    walk(m.globals[m.vtable])
    return out

def methods(m):
    """The class's interface: constructors, operators, virtual functions and own implementations that have a body.  Other members are helpers
    and are interpreted where they are called."""
    out = []; V = virtuals(m)
    for f in m.fns.values():
        n = f.norm
        if f.decl or not n.startswith('EF::') or '::\'lambda' in n or '::$_' in n or n.startswith('EF::~') or "::operator()" in n: continue
        if f.n not in V and not CTOR.match(n) and not n.startswith(('EF::operator', 'EF::my_own_', 'EF::swap(')): continue
        if '__mpf' in n: continue
        out.append(f)
    return sorted(out, key=lambda f: f.norm)

def mach(cfg, roots=()):
    m = MODS[cfg]
    if cfg == 'efx':
        pol = BX(m, DF); J = XInterp(m, DF, pol, max_paths=3000, max_steps=1500000)
        if roots: pol.coarse = True
    else:
        pol = BE(m, D, roots=roots); J = BEInterp(m, D, pol, max_paths=3000, max_steps=1500000)
    st = pol.setup(J, St())
    return m, pol, J, st

def prepare(cfg, pol, J, st, name, state):
    m = pol.m
    if state in STATES: return pol.special(J, st, name, STATES[state])
    if state == 'moved':
        st, t = pol.special(J, st, name, NL); st.mem[name + 'm'] = {}
        r = J.run_fn(m.need('EF::e_float(EF&&)'), [ptr(name + 'm'), ptr(name)], st, mk('site', name, 'mv'))
        if len(r) != 1: raise Imprecise('move constructor: %d paths' % len(r))
        r = J.run_fn(dtor(m), [ptr(name + 'm')], r[0][0], mk('site', name, 'dm'))
        st = r[0][0]; return st, None
    if state == 'reduced':
        st, t = pol.special(J, st, name, NL)
        r = J.run_fn(m.need('EF::precision(int)'), [ptr(name), I(REDUCED, 32)], st, mk('site', name, 'pr'))
        if len(r) != 1: raise Imprecise('precision: %d paths' % len(r))
        return r[0][0], t
    raise Imprecise(state)

# what an argument of a parameter type is
TEXTS = ('0', '1.5', '-2.25E-7', 'inf', '-inf', 'nan', '+3', '0.00', '123456789012345678901234567890')
def argvals(p, cfg):
    if p in ('EF const&', 'EF&&', 'EF&'): return ['num']
    if p == 'char const*': return ['text']
    if p.startswith('std::__cxx11::basic_string') and p.endswith('const&'): return ['string']
    if p.startswith('std::__cxx11::basic_string') and p.endswith('&'): return ['string']
    if p in ('double', 'long double', 'float'): return [D_(0.0), D_(1.5), D_(-2.5), D_(float('inf')), D_(float('-inf')), D_(float('nan'))]
    w = {'long': 64, 'int': 32, 'unsigned int': 32, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16, 'unsigned short': 16, 'signed char': 8, 'unsigned char': 8, 'char': 8,
         'bool': 1, 'EF::fpclass_type_enum': 32, 'wchar_t': 32, 'char16_t': 16, 'char32_t': 32}.get(p)
    if p == 'EF::fpclass_type_enum': return [I(k, 32) for k in range(4)]
    if w == 1: return [FALSE, TRUE]
    if w: return [I(0, w), I(7, w)] + ([I(-7, w)] if not p.startswith(('unsigned', 'bool', 'EF')) else [I((1 << w) - 1, w)])
    if p in ('double&', 'long&', 'long long&'): return ['out']
    return None

def tasks(cfg):
    m = MODS[cfg]; t = []; left = []
    for f in methods(m):
        ps, const = split_params(f.norm)
        lists = [argvals(p, cfg) for p in ps or []]
        if 'initializer_list' in f.norm:
            for k in (0, 1, 3):
                for e in (0, -16): t.append((cfg, f.n, None, (('list', k), I(e), TRUE if e else FALSE), True, False))
            continue
        if None in lists: left.append(f.norm); continue
        isctor = CTOR.match(f.norm) is not None
        static = len(f.args) - (1 if f.args and f.args[0].get('sret') else 0) == len(ps or [])
        states = [None] if isctor or static else list(STATES) + ['moved', 'reduced']
        combos = [()]
        for l in lists: combos = [c + (v,) for c in combos for v in l]
        for s_ in states:
            if s_ == 'moved' and not re.match(r'EF::(operator=\(|rd_string|swap)', f.norm): continue
            for c in combos:
                if 'num' in c:
                    k = c.index('num')
                    for b in STATES if not static else ('NaN', 'inf', '0', '(-inf,-1)', '(0,1)', '1'):
                        t.append((cfg, f.n, s_, c[:k] + (('num', b),) + c[k + 1:], isctor, static))
                    if re.match(r'EF::(operator=\(|e_float\()', f.norm): t.append((cfg, f.n, s_, c[:k] + (('num', 'reduced'),) + c[k + 1:], isctor, static))
                else: t.append((cfg, f.n, s_, c, isctor, static))
    return t, left

def run(t):
    try: return run1(*t)
    except Imprecise as e: return ('undec', '%s %s: %s' % (t[0], MODS[t[0]].fns[t[1]].norm[:100], e), 0, [])
    except ir.Broken as e: return ('broken', str(e), 0, [])

def spot(e):
    w = e[-1]
    try: return '%s:%s' % (w[0].loc.split('/')[-1], w[1].get('l'))
    except Exception: return '?'

def live(st): return {k[1] for k, d in st.mem.items() if isinstance(k, tuple) and k[0] == 'hs' and d.get('live', (0, FALSE))[1] is TRUE}
def owners(st):
    r = {}
    for o, d in st.mem.items():
        if isinstance(o, tuple) and o[0] == 'hs': continue
        for off, (z, v) in d.items():
            if v is not ZFILL and isinstance(v, T) and v.op == 'mpf' and v.args[0] is not None: r.setdefault(v.args[0], []).append((o, off))
    return r

def run1(cfg, fname, state, args, isctor, static):
    if state == 'low': return run_low(cfg, fname, args)
    m = MODS[cfg]; fn = m.fns[fname]
    m, pol, J, st = mach(cfg, (fn.norm,))
    objs = []; yt = None; xt = None
    lab = '%s %s%s' % (cfg, fn.norm[:120], ' on an object that is %s' % state if state else '')
    if not isctor and not static:
        st, xt = prepare(cfg, pol, J, st, 'X', state); objs.append('X')
    elif isctor: st.mem['X'] = {}; objs.append('X')
    pol.strict = tuple(objs)
    av = []
    for k, a in enumerate(args):
        if isinstance(a, tuple) and a[0] == 'list':
            st.mem['IL'] = {4 * j: (4, I(12345678 + j, 32)) for j in range(a[1])}; av += [ptr('IL'), I(a[1], 64)]
        elif isinstance(a, tuple):
            st, yt = prepare(cfg, pol, J, st, 'Y', a[1]); objs.append('Y'); av.append(ptr('Y')); lab += ' with %s' % a[1]
        elif a == 'text': av.append(ptr('TEXT'))
        elif a == 'string': av.append(ptr('STR'))
        elif a == 'out': st.mem['OUT%d' % k] = {}; av.append(ptr('OUT%d' % k))
        else: av.append(a)
    pre = list(av)
    if not static: pre = [ptr('X')] + pre
    if fn.args and fn.args[0].get('sret'): st.mem['R'] = {}; pre = [ptr('R')] + pre
    elif False: pass
    ev0 = list(st.events())
    if [e for e in ev0 if e[0] == 'ts']: raise Imprecise('preparation: ' + str([e[1] for e in ev0 if e[0] == 'ts']))
    st.ev = None; st.trace = None
    J.y0 = cells(cfg, pol, J, st, 'Y') if PROP == 'C14' and 'Y' in objs else None
    if PROP == 'C18': J.full = fullprec(cfg, m, pol, J, st)
    R = J.run_fn(fn, pre, st, mk('site', 'root'))
    if PROP != 'C12':
        bad, sig = defined(cfg, m, pol, J, fn, R, state, args, isctor, lab) if PROP == 'C14' else (precision(cfg, m, pol, J, fn, R, state, args, isctor), [])
        if bad: return ('viol', '%s: %s' % (lab, bad[0][:700]), len(R), [])
        return ('ok', lab, len(R), sig)
    bad = []; n = 0
    ret_ef = fn.args and fn.args[0].get('sret')
    for z, _ in R:
        n += 1
        path = ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x.get('l'), q) for f, x, _, q in z.decisions())[-200:]
        for e in z.events():
            if e[0] == 'ts': bad.append('%s (%s); path [%s]' % (e[1], spot(e), path))
            elif e[0] == 'leak': bad.append('a local handle goes out of scope without being released (%s); path [%s]' % (spot(e), path))
        if isctor and cfg != 'efx':
            h = J.handle_of(z, ptr('X'))
            if h is None or h not in live(z): bad.append('the constructor leaves the object without a live handle; path [%s]' % path)
        # destroy everything the scenario owns
        w = z
        w.ev = None
        for o in objs + (['R'] if ret_ef and 'R' in w.mem and w.mem['R'] and (cfg == 'efx' or J.handle_of(w, ptr('R')) is not None) else []):
            q = J.run_fn(dtor(m), [ptr(o)], w, mk('site', 'end', o))
            if len(q) != 1: raise Imprecise('destructor: %d paths' % len(q))
            w = q[0][0]
        for e in w.events():
            if e[0] == 'ts': bad.append('at destruction: %s (%s); path [%s]' % (e[1], spot(e), path))
        if cfg != 'efx':
            ow = owners(w)
            for h in live(w):
                own = [o for o, _ in ow.get(h, [])]
                if not own: bad.append('a live handle is no longer referenced by anything (leak); path [%s]' % path)
                elif all(o in ('X', 'Y', 'R') for o in own): bad.append('destruction does not release the handle of %s; path [%s]' % (own[0], path))
        else:
            ow = set()
            for o, d in w.mem.items():
                for off, (zz, v) in d.items():
                    if v is not ZFILL and isinstance(v, T) and v.op == 'p': ow.add(v.args[0])
            for o in list(w.mem):
                if isinstance(o, tuple) and o[0] == 'h' and ('size', o) in w.tag and ('freed', o) not in w.tag and o not in st.mem and not isinstance(o[1], str):
                    if o not in ow: bad.append('allocated storage is never released; path [%s]' % path)
        if bad: break
    if bad: return ('viol', '%s: %s' % (lab, bad[0][:700]), n, [])
    return ('ok', '', n, [])

def pathtext(z): return ' '.join('%s:%s=%s' % (f.loc.split('/')[-1], x.get('l'), q) for f, x, _, q in z.decisions())[-200:]

def fsyms(t, acc=None, seen=None):
    """Names of the symbols and digit cells a term is built from."""
    acc = set() if acc is None else acc; seen = set() if seen is None else seen
    if isinstance(t, (tuple, list, frozenset)):
        for a in t: fsyms(a, acc, seen)
        return acc
    if not isinstance(t, T) or t in seen: return acc
    seen.add(t)
    if t.op in ('sym', 'limb', 'exp', 'neg') and t.args and isinstance(t.args[0], str): acc.add(t.args[0])
    for a in t.args: fsyms(a, acc, seen)
    return acc

def cells(cfg, pol, J, z, o):
    """Named parts of the number at o and their terms."""
    r = {}
    if cfg == 'efx':
        d = z.mem.get(o, {})
        for off, (sz, v) in d.items():
            if v is ZFILL or not isinstance(v, T): continue
            if v.op == 'p' and isinstance(v.args[0], tuple) and v.args[0][0] == 'h':
                n = z.tag.get(('size', v.args[0]), 0)
                for k in range(0, n, 4): r['digit %d' % (k // 4)] = J.rd(z, mk('p', v.args[0], k), 4, 'i32')
        r['exponent'] = J.rd(z, ptr(o, pol.off['exp']), 8, 'i64'); r['sign'] = J.rd(z, ptr(o, pol.off['neg']), 1, 'i8')
    else:
        h = J.handle_of(z, ptr(o))
        if h is not None: r['value'] = J.hval(z, h)
    return r

SOURCE = re.compile(r'EF::(operator=\(|rd_string\(|swap\()')
def defined(cfg, m, pol, J, fn, R, state, args, isctor, lab):
    bad = []; sig = set()
    for z, _ in R:
        for e in z.events():
            if e[0] == 'undef' and not (cfg == 'efx' and state == 'moved'): bad.append('reads %s at offset %s before it is set (%s); path [%s]' % (str(e[1][:2])[:60], e[2], spot(e), pathtext(z)))
    if bad: return bad, []
    if not (isctor or SOURCE.match(fn.norm)): return [], []
    src = [a[1] for a in args if isinstance(a, tuple) and a[0] == 'num']
    for z, _ in R:
        for w, c, t in pol.classify(J, z, ptr('X')):
            sig.add(c if c & ~FIN else FIN & c and 'fin')
            if c & FIN and not c & ~FIN:
                for part, v in cells(cfg, pol, J, w, 'X').items():
                    if 'X' in fsyms(v): bad.append('the %s of the destination afterwards is %s, which depends on what it held before; path [%s]' % (part, show(v, 3)[:120], pathtext(w)))
            if src and src[0] in STATES and not (c & STATES[src[0]]): bad.append('the destination afterwards is %s, the source was %s; path [%s]' % (cname(c), src[0], pathtext(w)))
            elif src and src[0] in STATES and STATES[src[0]] & FIN and c & FIN and J.y0:
                a = cells(cfg, pol, J, w, 'X')
                for part, v in J.y0.items():
                    q = a.get(part)
                    if q is None or q is v: continue
                    if cfg != 'efx':
                        dd = D.isnum(D.sub(q, v))
                        if dd != 0 and (D.isnum(q) is not None or 'Y' not in fsyms(q) or dd is not None): bad.append('the value of the destination is %s, of the source %s; path [%s]' % (show(q, 3)[:100], show(v, 3)[:100], pathtext(w)))
                    elif isI(q) != isI(v) or isI(q) and q.args[0] != v.args[0] or 'Y' not in fsyms(q) and 'Y' in fsyms(v):
                        bad.append('the %s of the destination is %s, of the source %s; path [%s]' % (part, show(q, 3)[:100], show(v, 3)[:100], pathtext(w)))
            if bad: return bad, []
    return bad, sorted(map(str, sig))

def pfields(cfg, J, st, o):
    """Precision-related state of the number at o: every scalar cell outside the digits, and the precision of the handle."""
    r = {}
    for off, (z, v) in st.mem.get(o, {}).items():
        if v is ZFILL or not isinstance(v, T): continue
        if v.op == 'mpf':
            d = st.mem.get(('hs', v.args[0]), {}).get('prec')
            if d is not None: r['handle'] = d[1]
        elif z == 4: r[off] = v
    return r

def fullprec(cfg, m, pol, J, st):
    """The cells that precision() changes and the least value each has in a number of full precision."""
    key = cfg
    r = FULL.get(key)
    if r is not None: return r
    st = st.copy()
    st, _ = pol.special(J, st, 'P0', NL); st, _ = pol.special(J, st, 'P1', S)
    a = pfields(cfg, J, st, 'P0')
    q = J.run_fn(m.need('EF::operator=(EF const&)'), [ptr('P0'), ptr('P1')], st, mk('site', 'pf', 0))
    if len(q) != 1: raise Imprecise('assignment')
    st = q[0][0]; b = pfields(cfg, J, st, 'P0')
    q = J.run_fn(m.need('EF::precision(int)'), [ptr('P0'), I(REDUCED, 32)], st, mk('site', 'pf', 1))
    if len(q) != 1: raise Imprecise('precision')
    c = pfields(cfg, J, q[0][0], 'P0')
    r = {}
    for k in c:
        if isI(c[k]) and c[k] is not b.get(k): r[k] = min(v.args[0] for v in (a.get(k), b.get(k)) if v is not None and isI(v))
    FULL[key] = r
    return r
FULL = {}

def precision(cfg, m, pol, J, fn, R, state, args, isctor):
    """The precision state of the object and of a result after the operation."""
    bad = []
    if fn.norm == 'EF::precision(int)': return []
    red = state == 'reduced' or any(isinstance(a, tuple) and a[1] == 'reduced' for a in args)
    for z, _ in R:
        for e in z.events():
            if e[0] == 'setprec' and e[1] == 'set_prec_raw' and isI(e[2]) and isI(e[3]) and e[2].args[0] > e[3].args[0]:
                bad.append('sets the working precision to %d bits without reallocation, more than the %d allocated (%s)' % (e[2].args[0], e[3].args[0], spot(e)))
        if red and (not SOURCE.match(fn.norm) or 'swap' in fn.norm): continue
        if red and any(isinstance(a, tuple) and a[1] == 'reduced' for a in args): continue
        for o in ('X', 'R', 'Y'):
            if o not in z.mem or not z.mem[o]: continue
            f = pfields(cfg, J, z, o)
            for k, v in J.full.items():
                q = f.get(k)
                if q is not None and isI(q) and q.args[0] < v:
                    bad.append('leaves %s with the working precision %d of its iteration instead of %d; path [%s]' % ({'X': 'the object', 'R': 'the result', 'Y': 'the operand'}[o], q.args[0], v, pathtext(z)))
    return bad

# ------------------------------------------------------------ functions that lower the precision of numbers
class FLP(FLX):
    breaks = True
    """Function layer with the working precision of each number object."""
    full = None
    def key(s, I_, p):
        oo = I_.obj_of(p)
        return None if oo is None else ('wp', oo)
    def method(s, fn, n):
        h = FLX.method(s, fn, n)
        b = re.sub(r' const$', '', n[4:] if n.startswith('EF::') else n[14:])
        if b == 'precision(int)':
            def g(I_, st, fn, a, x):
                oo = I_.obj_of(a[0])
                if oo is not None and (isinstance(oo[0], str) and oo[0] != 'R' or isinstance(oo[0], tuple) and oo[0][0] in ('const', 'g')):
                    st.ev = (('foreign', oo, I_.where), st.ev)
                if oo is not None:
                    if isI(a[1]) and s.isfull(a[1].args[0]): st.tag.pop(('wp', oo), None)
                    else: st.tag[('wp', oo)] = (a[1], I_.where)
                return [(st, None)]
            return g
        if h is None or not callable(h): return h
        if re.match(r'(e_float\(EF( const)?&&?\)|operator=\(EF( const)?&&?\))', b):
            def g(I_, st, fn, a, x):
                r = h(I_, st, fn, a, x)
                for z, _ in r:
                    k, q = s.key(I_, a[0]), s.key(I_, a[1])
                    if k is None: continue
                    if q in z.tag: z.tag[k] = z.tag[q]
                    else: z.tag.pop(k, None)
                return r
            return g
        if re.match(r'e_float(<.*>)?\(', b):
            def g(I_, st, fn, a, x):
                r = h(I_, st, fn, a, x)
                for z, _ in r: z.tag.pop(s.key(I_, a[0]), None)
                return r
            return g
        return h
    def contract(s, fn, n):
        h = FLX.contract(s, fn, n)
        if h is None or not s.efsret(fn) or not fn.args: return h
        def g(I_, st, fn, a, x):
            r = h(I_, st, fn, a, x)
            for z, _ in r: z.tag.pop(s.key(I_, a[0]), None)
            return r
        return g

def roots_low(m):
    """Functions returning a number in whose interpretation precision() is called (callers are followed up to functions known by contract)."""
    pol = FLX(m, DF, sizes={})
    low = lowering(m); seen = {f.n for f in low}; work = list(low)
    rev = {}
    for f in m.fns.values():
        if not f.decl:
            for c in calls(f): rev.setdefault(c, []).append(f)
    while work:
        f = work.pop()
        if f not in low and pol.resolve(f) not in (False, None): continue
        if pol.contract(f, f.norm): continue
        for g in rev.get(f.n, ()):
            if g.n not in seen and not g.norm.startswith(('EF::', 'vdrv::')): seen.add(g.n); work.append(g)
    return sorted((m.fns[n] for n in seen if m.fns[n].args and FLX.efsret(m.fns[n])), key=lambda f: f.norm), low

def tasks_low(cfg):
    m = MODS[cfg]; roots, low = roots_low(m); t = []
    for f in roots:
        info = param_info(f)[1:]
        combos = [()]
        for kind, ro, ty in info:
            if ty in ('EF const&', 'EF'): vals = ['c:%s' % k for k in ('0', '(0,1)', '1', '(-inf,-1)', 'big')]
            elif ty in ('int', 'unsigned int'): vals = [I(2, 32), I(3, 32), I(7, 32)]
            elif ty in ('long', 'unsigned long', 'long long'): vals = [I(2), I(3), I(-3), I(200)]
            else: combos = []; break
            combos = [c + (v,) for c in combos for v in vals]
        for c in combos[:60]: t.append((cfg, f.n, 'low', c, False, True))
    return t, ['%s %s' % (cfg, f.norm) for f in roots if not any(x[1] == f.n for x in t)], len(low)

def run_low(cfg, fname, args):
    m = MODS[cfg]; fn = m.fns[fname]
    pol = FLP(m, DF, sizes=SIZES, inline=(fn.norm,)); pol.isfull = ISFULL.setdefault(cfg, isfull(cfg))
    J = Interp(m, DF, pol, max_paths=2000, max_steps=1500000); st = St(); av = [ptr('R')]; st.mem['R'] = {}
    for k, a in enumerate(args):
        if isinstance(a, str):
            o = 'A%d' % k; x = DF.sym('x%d' % k)
            if a == 'c:0': x = DF.num(0)
            elif a == 'c:1': x = DF.num(1)
            else: st.cls[x] = {'c:(0,1)': S, 'c:(-inf,-1)': NL, 'c:big': L}[a]
            st.mem[o] = {0: (J.SZ, x)}; av.append(ptr(o))
        else: av.append(a)
    R = J.run_fn(fn, av, st, mk('site', 'root'))
    for z, _ in R:
        k = z.tag.get(('wp', ('R', 0)))
        if k is not None and isI(k[0]):
            return ('viol', '%s %s returns a number whose working precision was left at %d digits (set at %s); path [%s]' % (cfg, fn.norm, k[0].args[0], spot((k[1],)), pathtext(z)), len(R), [])
        for e in z.events():
            if e[0] == 'foreign': return ('viol', '%s %s lowers the working precision of an object it does not own (%s)' % (cfg, fn.norm, spot(e)), len(R), [])
    return ('ok', '', len(R), [])
SIZES = {}; ISFULL = {}

def isfull(cfg):
    """Whether precision(k) leaves a number at full precision."""
    m, pol, J, st = mach(cfg); full = fullprec(cfg, m, pol, J, st)
    memo = {}
    def f(k):
        if k not in memo:
            z, _ = pol.special(J, st.copy(), 'P', NL)
            q = J.run_fn(m.need('EF::precision(int)'), [ptr('P'), I(k, 32)], z, mk('site', 'isfull', k))
            p = pfields(cfg, J, q[0][0], 'P')
            memo[k] = all(not isI(p.get(o, NULL)) or p[o].args[0] >= v for o, v in full.items())
        return memo[k]
    return f

def lowering(m):
    """Functions outside the number class that call precision(), with their callers inside the same unit of use."""
    slots = {f.n for f in m.fns.values() if re.search(r'::precision\(int\)$', f.norm)}
    out = []
    for f in m.fns.values():
        if f.decl or f.norm.startswith('EF::'): continue
        if calls(f) & slots: out.append(f)
    return out

def calls(f):
    r = set()
    for b in f.blocks:
        for x in b['i'] if isinstance(b, dict) else b:
            if isinstance(x, dict) and x.get('o') in ('call', 'invoke') and x['f'][0] == 'fn': r.add(x['f'][1])
    return r

WHAT = 'Every constructor, operator, virtual function and own implementation of the number class of the three back ends is interpreted on every path, from each prior state (value classes, moved-from, reduced precision) and each class of operand; '
RULE = {'C12': WHAT + 'foreign handles and heap storage follow a typestate (uninitialised, live, released): a call on a handle in the wrong state, a handle or array live at return that nothing owns, or one that destruction does not release is reported.',
        'C14': WHAT + 'no cell is read before it is set; after construction, assignment and reading no part of the destination depends on its prior contents, its class and value are those of the source, and its classes are the same from every prior state.',
        'C18': WHAT + 'afterwards the precision cells of the object, result and operand are at least those of a fresh number; the functions that call precision() are interpreted with the working precision of each number as typestate, and must return numbers restored to full precision and leave objects they do not own alone.'}

def main():
    rep = report.Report(PROP)
    for c in ('gmp', 'mpfr', 'efx'): MODS[c] = ir.load_lib(c)
    ts = []; left = []
    for c in ('gmp', 'mpfr', 'efx'):
        t, l = tasks(c); ts += t; left += ['%s %s' % (c, x) for x in l]
    if PROP == 'C18':
        SIZES.update(table_sizes())
        for c in ('gmp', 'mpfr', 'efx'):
            t, l, k = tasks_low(c); ts += t; left += l; rep.count('functions_that_set_precision', k)
            ISFULL[c] = isfull(c)
    for l in left: rep.undecided('not driven: ' + l)
    fns = set(); sigs = {}
    with Pool(8) as P:
        for t, (k, info, n, sig) in zip(ts, P.imap(run, ts, chunksize=8)):
            rep.count('scenarios'); rep.count('paths', n); fns.add((t[0], t[1]))
            if k == 'viol': rep.violation('%s:%s' % (t[0], MODS[t[0]].fns[t[1]].norm[:80]), info)
            elif k == 'undec': rep.undecided(info)
            elif k == 'broken': raise ir.Broken(info)
            else:
                rep.count('decided')
                if sig and t[2] is not None: sigs.setdefault((t[0], t[1], t[3]), []).append((t[2], tuple(sig)))
    # one source, several prior states: the classes the destination can have afterwards are the same
    for (c, f, a), l in sigs.items():
        rep.count('sources_compared_over_prior_states')
        if len({q for _, q in l}) > 1:
            rep.violation('%s:%s' % (c, MODS[c].fns[f].norm[:80]), '%s %s: the class of the destination afterwards depends on its prior state: %s' % (c, MODS[c].fns[f].norm[:100], '; '.join('%s: %s' % x for x in l)[:600]))
    rep.count('methods', len(fns))
    rep.need('scenarios', 300); rep.need('decided', 200)
    return rep.finish(RULE[PROP])

if __name__ == '__main__':
    report.main(main)
