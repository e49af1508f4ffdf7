"""Interprocedural effects over the IR: which memory each function may write (through its parameters, into globals), where returned pointers lead.

Memory is split into roots: ('P', i) everything reachable from parameter i, ('G', name) everything reachable from a global, ('L', fn, id) a local
object or an allocation.  One flow-insensitive summary per function; functions are iterated to a fixed point bottom-up over the call graph.
Virtual calls resolve through the number class's table of virtual functions."""
import re, ir
from absint import param_info, split_params

INTRIN_W0 = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset')
CSTATE = {'__gmpf_set_default_prec': 'process', 'mpfr_set_default_prec': 'thread', 'mpfr_set_emin': 'thread', 'mpfr_set_emax': 'thread', 'mpfr_set_default_rounding_mode': 'thread',
          'fesetround': 'thread', 'setlocale': 'process', 'srand': 'process', 'setenv': 'process', 'putenv': 'process'}
NONDET = {'clock', 'time', 'rand', 'random', 'getenv', 'gettimeofday', 'clock_gettime', 'getpid', 'gettid', 'pthread_self', 'rand_r', 'drand48', 'times', 'getrusage',
          'std::chrono::_V2::system_clock::now()', 'std::chrono::_V2::steady_clock::now()', 'std::random_device::_M_getval()'}

def ext_writes(f):
    """Argument positions an external function writes through."""
    n = f.n
    if n.startswith(('__gmpf_', 'mpfr_', '__gmpz_', '__gmp_')):
        o = re.sub(r'^(__gmpf_|mpfr_|__gmpz_|__gmp_)', '', n)
        if o == 'get_str': return {0, 1}
        if o == 'get_d_2exp': return {0}
        if o in ('sin_cos', 'sinh_cosh', 'modf'): return {0, 1}
        if o == 'swap': return {0, 1}
        if o == 'frexp': return {0, 1}
        if o.startswith(('get_', 'cmp', 'sgn', 'fits_', 'custom_get', 'print_')) or o.endswith('_p') or o in ('size', 'eq', 'get_default_prec'): return set()
        return {0}
    if n.startswith('llvm.'):
        return {0} if n.startswith(INTRIN_W0) else set()
    if n in ('strlen', 'strcmp', 'memcmp', 'memchr', 'abs', 'bcmp', 'strncmp', 'strtol', 'strtoul', '__dynamic_cast', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '__cxa_atexit', '__cxa_thread_atexit', '__cxa_guard_acquire', '__cxa_guard_release'): return set()
    if not n.startswith('_Z'):
        return {0} if n in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', '__gmp_sprintf') else {1} if n in ('frexp', 'frexpf', 'frexpl', 'modf', 'modfl', 'remquo') else set()
    out = set()
    for i, (k, ro, p) in enumerate(param_info(f)):
        if k == 'sret': out.add(i)
        elif k == 'this':
            if not ro: out.add(i)
        elif not ro: out.add(i)
    if split_params(f.norm)[0] is None and not out: return {i for i, a in enumerate(f.args) if a['t'] == 'ptr'}
    # non-const accessors only hand out a position
    if re.search(r'::(begin|end|rbegin|rend|data|front|back|at|operator\[\]|cbegin|cend)\(', f.norm): out.discard(0)
    return out

class Sum:
    __slots__ = ('w', 'ret', 'pst')
    def __init__(s): s.w = {}; s.ret = set(); s.pst = set()

class Eff:
    def __init__(s, m):
        s.m = m; s.sum = {}; s.pts = {}; s.content = {}; s.gcontent = {}; s.callers = {}; s.defs = {}
        s.vt = s.slots(m)
        for f in m.fns.values():
            s.sum[f.n] = Sum()
            if not f.decl: s.defs[f.n] = {x['d']: x for b in f.blocks for x in b if 'd' in x}
        s.fix()

    def slots(s, m):
        out = {}
        for g, v in m.globals.items():
            if not g.startswith('_ZTV') or 'i' not in v: continue
            fl = []
            def walk(c):
                if isinstance(c, list) and c and c[0] == 'fn': fl.append(c[1])
                elif isinstance(c, list) and c and c[0] == 'agg':
                    for q in c[2:]: walk(q[1])
            walk(v['i']); out[g] = fl
        return out

    def callees(s, f, x):
        """Functions a call may reach."""
        c = x['f']
        if c[0] == 'fn': return [s.m.fns[c[1]]] if c[1] in s.m.fns else []
        if c[0] == 'v':
            d = s.defs[f.n].get(c[1])
            if d and d['o'] == 'load':
                g = s.base(f, d['a'][0]); off = 0
                if g and g['o'] == 'getelementptr': off = g.get('c', 0) if not g.get('vi') else None
                if off is not None:
                    r = []
                    for vt, fl in s.vt.items():
                        if vt != s.m.vtable and off >= 16: continue
                        if off // 8 < len(fl) and fl[off // 8] in s.m.fns: r.append(s.m.fns[fl[off // 8]])
                    return [q for q in r if len(q.args) == len(x['a'])]
        return []
    def base(s, f, o): return s.defs[f.n].get(o[1]) if o[0] == 'v' else None

    # ---------------------------------------------------------------- points-to
    def val(s, f, P, o):
        k = o[0]
        if k == 'v': return P.get(o[1], frozenset())
        if k == 'g': return frozenset() if s.m.globals.get(o[1], {}).get('k') else frozenset([('G', o[1])])      # (constants of the program cannot be written)
        if k in ('gep', 'ce', 'e', 'x', 'cast', 'expr'):
            out = set()
            for q in o[1:]:
                if isinstance(q, list) and q: out |= s.val(f, P, q)
            return frozenset(out)
        return frozenset()

    def load(s, C, r):
        out = set(r)
        for q in r:
            out |= C.get(q, set())
            if q[0] == 'G': out |= s.gcontent.get(q, set())
        return frozenset(out)

    def fix(s):
        m = s.m
        fs = [f for f in m.fns.values() if not f.decl]
        users = {}
        for f in fs:
            for b in f.blocks:
                for x in b:
                    if x['o'] in ('call', 'invoke'):
                        for g in s.callees(f, x): users.setdefault(g.n, set()).add(f.n)
        s.users = users
        # callees first
        idx = {}; 
        for f in fs:
            if f.n in idx: continue
            st = [(f, iter(s.outs(f)))]; idx[f.n] = None
            while st:
                g, it = st[-1]
                for h in it:
                    if not h.decl and h.n not in idx: idx[h.n] = None; st.append((h, iter(s.outs(h)))); break
                else: idx[g.n] = s._ctr(); st.pop()
        import heapq
        work = [(idx[f.n], f.n) for f in fs]; heapq.heapify(work); inw = {f.n for f in fs}; n = 0
        def add(k):
            if k not in inw: inw.add(k); heapq.heappush(work, (idx[k], k))
        while work:
            _, k = heapq.heappop(work); inw.discard(k); n += 1
            if n > 200000: raise RuntimeError('effects: no fixed point')
            g0 = {q: len(v) for q, v in s.gcontent.items()}
            if s.one(m.fns[k]):
                for u in users.get(k, ()): add(u)
            for q, v in s.gcontent.items():
                if g0.get(q, 0) != len(v):
                    for f in fs:
                        if q[1] in s.greaders(f): add(f.n)
    def _ctr(s):
        s._c = getattr(s, '_c', 0) + 1; return s._c
    def outs(s, f):
        return [g for b in f.blocks for x in b if x['o'] in ('call', 'invoke') for g in s.callees(f, x)]
    def greaders(s, f):
        if not hasattr(s, '_gr'): s._gr = {}
        r = s._gr.get(f.n)
        if r is None:
            r = set()
            def walk(o):
                if isinstance(o, list):
                    if len(o) >= 2 and o[0] == 'g': r.add(o[1])
                    for q in o: walk(q)
            for b in f.blocks:
                for x in b:
                    for o in x.get('a', ()): walk(o)
            s._gr[f.n] = r
        return r

    def one(s, f):
        S = s.sum[f.n]; old = (len(S.w), len(S.ret), len(S.pst))
        P = s.pts.setdefault(f.n, {}); C = s.content.setdefault(f.n, {})
        for i, a in enumerate(f.args):
            if a['t'] == 'ptr': P[i] = frozenset([('P', i)])
        ch = True
        def setv(d, r):
            nonlocal ch
            if d is None: return
            o = P.get(d, frozenset())
            if not r <= o: P[d] = o | r; ch = True
        def put(dst, src, x):
            """pointers in src are stored into objects dst"""
            nonlocal ch
            for q in dst:
                if q[0] == 'G': t = s.gcontent.setdefault(q, set()); new = {r for r in src if r[0] == 'G' and r != q}
                else: t = C.setdefault(q, set()); new = set(src) - {q}
                if q[0] == 'P':
                    for r in src:
                        if r[0] in 'PG' and r != q: S.pst.add((q, r))
                if not new <= t: t |= new; ch = True
        def wr(dst, x, g=None, gi=None):
            for q in dst:
                if q[0] in 'PG' and q not in S.w: S.w[q] = (x, g, gi)
        while ch:
            ch = False
            for b in f.blocks:
                for x in b:
                    o = x['o']
                    if o == 'alloca': setv(x['d'], frozenset([('L', f.n, x['d'])]))
                    elif o == 'load':
                        if x['t'] == 'ptr': setv(x['d'], s.load(C, s.val(f, P, x['a'][0])))
                    elif o == 'getelementptr': setv(x['d'], s.val(f, P, x['base']) if 'base' in x else frozenset().union(*[s.val(f, P, a) for a in x['a']]))
                    elif o in ('phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze', 'insertvalue', 'extractvalue', 'add', 'sub'):
                        r = frozenset()
                        ops = x.get('a') or [q[1] if isinstance(q, (list, tuple)) and len(q) == 2 and isinstance(q[1], list) else q for q in x.get('in', ())]
                        for a in ops:
                            if isinstance(a, list) and a and isinstance(a[0], list):
                                for q in a: r |= s.val(f, P, q) if q[0] != 'b' else frozenset()
                            elif isinstance(a, list): r |= s.val(f, P, a)
                        if r: setv(x['d'], r)
                    elif o == 'store':
                        dst = s.val(f, P, x['a'][1]); src = s.val(f, P, x['a'][0])
                        wr(dst, x)
                        if src: put(dst, src, x)
                    elif o in ('call', 'invoke'): s.call(f, S, P, C, x, setv, put, wr)
                    elif o == 'ret':
                        if x.get('a'):
                            r = {q for q in s.val(f, P, x['a'][0]) if q[0] in 'PG'}
                            if not r <= S.ret: S.ret |= r
        # what is reachable from a local handed back counts as its content
        return (len(S.w), len(S.ret), len(S.pst)) != old

    def call(s, f, S, P, C, x, setv, put, wr):
        A = [s.val(f, P, a) for a in x['a']]
        gs = s.callees(f, x); d = x.get('d')
        for g in gs:
            if g.decl:
                for i in ext_writes(g):
                    if i < len(A): wr(A[i], x, g, i)
                if g.n in ('_Znwm', '_Znam', 'malloc', 'calloc', 'realloc', '_ZnwmSt11align_val_t'): setv(d, frozenset([('L', f.n, d)]))
                elif g.n.startswith(('llvm.memcpy', 'llvm.memmove')): put(A[0], s.load(C, A[1]) - A[1], x)
                elif g.n.startswith('llvm.threadlocal') or x.get('t') == 'ptr':
                    k = 1 if A and g.args and g.args[0].get('sret') else 0          # (an external function hands back its object or its first argument)
                    r = frozenset().union(*[s.load(C, a) if g.n.startswith('_Z') else a for a in A[k:k + 1]]) if A else frozenset()
                    if r: setv(d, r)
                continue
            T = s.sum[g.n]
            for q, w in list(T.w.items()):
                if q[0] == 'P' and q[1] < len(A): wr(A[q[1]], x, g, q[1])
            for q, r in list(T.pst):
                src = s.load(C, A[r[1]]) if r[0] == 'P' and r[1] < len(A) else frozenset([r]) if r[0] == 'G' else frozenset()
                if q[0] == 'P' and q[1] < len(A) and src: put(A[q[1]], src, x)
            if d is not None and (x.get('t') == 'ptr' or x.get('t', '').startswith('{')):
                r = set()
                for q in T.ret:
                    if q[0] == 'P' and q[1] < len(A): r |= s.load(C, A[q[1]])
                    elif q[0] == 'G': r.add(q)
                # an object the callee allocated
                if not T.ret: r.add(('L', f.n, d))
                setv(d, frozenset(r))

    # ---------------------------------------------------------------- start-up of the foreign library
    def once(s, f, bi, i, G, thread, m, seen=()):
        """The statement runs only inside guarded initialisations (of thread-local objects if thread): here, or in every caller."""
        def ok(g, S): return (bi, i) in S and (not thread or m.globals.get(g, {}).get('tls') or m.globals.get('_Z' + g[4:], {}).get('tls'))
        if any(ok(g, S) for g, S in G[f.n].items()): return True
        if f.n in seen: return True
        us = s.users.get(f.n, ())
        if not us: return False
        for u in us:
            h = s.m.fns[u]
            for bj, b in enumerate(h.blocks):
                for j, x in enumerate(b):
                    if x['o'] in ('call', 'invoke') and any(g.n == f.n for g in s.callees(h, x)):
                        if not s.once(h, bj, j, G, thread, m, seen + (f.n,)): return False
        return True

    def startup(s, G, consumer):
        """Numbers of default precision are created only after the precision was set on the same thread: must-call analysis."""
        m = s.m
        SET = {'__gmpf_set_default_prec': False, 'mpfr_set_default_prec': True}
        INIT = set(); thread = False; found = False
        for f in m.fns.values():
            for b in f.blocks if not f.decl else ():
                for x in b:
                    if x['o'] in ('call', 'invoke') and x['f'][0] == 'fn' and x['f'][1] in SET: found = True; thread = thread or SET[x['f'][1]]
        if not found: return [], 0
        def sure(f, x):
            if x['o'] not in ('call', 'invoke'): return False
            if x['f'][0] == 'fn' and x['f'][1] in SET: return True
            gs = s.callees(f, x)
            return bool(gs) and all(g.n in INIT for g in gs)
        def tls(g): return not thread or m.globals.get(g, {}).get('tls') or m.globals.get('_Z' + g[4:], {}).get('tls')
        def isinit(f):
            # a guarded initialisation (once per thread where the setting is kept per thread), or a call on every path to the end
            for g, S in G[f.n].items():
                if tls(g) and any(sure(f, f.blocks[bi][i]) for bi, i in S): return True
            if not any(sure(f, x) for b in f.blocks for x in b): return False
            inn, gen = states(f)
            ex = [inn[b] or gen[b] for b in range(len(f.blocks)) if f.blocks[b][-1]['o'] == 'ret']
            return bool(ex) and all(ex)
        def given(f):
            # a setting of the whole process was made by the construction of any number that is handed in
            return not thread and not re.match(r'EF::e_float\(', f.norm) and any((k == 'this' and f.norm.startswith(('EF::', 'e_float_base::'))) or re.search(r'(^|<)(EF|e_float_base)( const)?(&|\*|>|$)', p) for k, ro, p in param_info(f))
        def states(f):
            """Whether the start-up was surely done on entry of each block (greatest fixed point)."""
            n = len(f.blocks); inn = [True] * n; inn[0] = given(f); ch = True
            pre = [[] for _ in range(n)]
            for bi, b in enumerate(f.blocks):
                for o in b[-1].get('a', ()):
                    if o[0] == 'b': pre[o[1]].append(bi)
            gen = [any(sure(f, x) for x in b) for b in f.blocks]
            while ch:
                ch = False
                for b in range(1, n):
                    v = all(inn[p] or gen[p] for p in pre[b]) if pre[b] else True
                    if v != inn[b]: inn[b] = v; ch = True
            return inn, gen
        ch = True
        while ch:
            ch = False
            for f in m.fns.values():
                if f.decl or f.n in INIT: continue
                if isinit(f): INIT.add(f.n); ch = True
        needs = s.needs = {}; n = 0; ch = True
        for f in m.fns.values():
            if f.decl: continue
            for b in f.blocks:
                for x in b:
                    if x['o'] in ('call', 'invoke') and x['f'][0] == 'fn' and consumer.match(x['f'][1]): n += 1
        while ch:
            ch = False
            for f in m.fns.values():
                if f.decl or f.n in needs: continue
                calls = [(bi, i, x) for bi, b in enumerate(f.blocks) for i, x in enumerate(b) if x['o'] in ('call', 'invoke') and (x['f'][0] == 'fn' and consumer.match(x['f'][1]) or any(g.n in needs for g in s.callees(f, x)))]
                if not calls: continue
                inn, gen = states(f)
                for bi, i, x in calls:
                    done = inn[bi]
                    for y in f.blocks[bi][:i]:
                        if sure(f, y): done = True
                    if not done: needs[f.n] = x; ch = True; break
        out = []
        # reported for what can be called from outside: constructors, and functions no other function of the library calls
        for k, x in sorted(needs.items()):
            f = m.fns[k]
            us = [u for u in s.users.get(k, ()) if not m.fns[u].norm.startswith('vdrv::')]
            if f.norm.startswith('vdrv::') or not f.file.startswith(ir.SRC): continue
            if us and not re.match(r'EF::e_float\(', f.norm): continue
            t = []; y = x; h = f
            while len(t) < 8:
                t.append('%s:%s' % (str(y.get('lf', '?')).split('/')[-1], y.get('l')))
                nx = [g for g in s.callees(h, y) if g.n in needs]
                if not nx: break
                h = nx[0]; y = needs[h.n]
            out.append(('startup:%s' % f.norm[:80], '%s creates a number with %s (%s) on a path on which the default precision of this thread has not been set' % (f.norm[:100], y['f'][1], ' -> '.join(t))))
        return out, n
