"""C05: read-only operands and shared constants are never written.  C06: no state between calls, no race on first use.

Interprocedural effect analysis (lib/eff.py) of every function of the library, the tables included, in each configuration.
C05  a) no function writes memory reached through a parameter of type T const& / T const* or through the object of a const method;
     b) no function writes an object that another function hands out (a function-local static) except that function's own one-time initialisation.
C06  a) static storage is written only inside guarded one-time initialisation;  b) the initial value of a static object does not depend on the
     arguments of the call that happens to be first;  c) global settings of the foreign libraries are made once per process (or per thread where the
     library keeps them per thread), before anything relies on them;  d) no function calls a source of non-determinism."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from eff import *
from multiprocessing import Pool
PROP = sys.argv[1] if len(sys.argv) > 1 else 'C05'
PI = ('-DE_FLOAT_TEST_PI_ALGOS_TESTS',)
CFGS = [(c, f, n) for c in ('efx', 'gmp', 'mpfr') for f, n in (((), ''), (PI, ' (million digits)'))]
CONSUMER = re.compile(r'(__gmpf_init|__gmpf_init_set\w*|mpfr_init|mpfr_init_set\w*)$')
LOCK = re.compile(r'pthread_mutex_lock|::lock\(\)|lock_guard<|unique_lock<|call_once|pthread_once')
RO = re.compile(r'(EF|ef::complex<EF>|std::(__cxx11::)?(basic_string|vector|deque|map|initializer_list)<.*>|(unsigned )?(int|long|long long|char)|double|long double|bool|T) const(&|\*)$')

def line(x): return '%s:%s' % (str(x.get('lf', '?')).split('/')[-1], x.get('l'))

def dm(m, g):
    v = m.globals.get(g, {}); return (v.get('dm') or g).replace('%s::e_float' % m.cfg, 'EF')

def owner(m, g):
    """The function a function-local static belongs to (demangled), '' for others."""
    d = dm(m, g); return d.rsplit('::', 1)[0] if '(' in d else ''

def guards(f):
    """Guarded initialisations of a function: guard variable -> set of (block, index) inside the initialisation."""
    out = {}
    defs = {x['d']: x for b in f.blocks for x in b if 'd' in x}
    def isg(o): return o and o[0] == 'g' and o[1].startswith('_ZGV')
    def root(o):
        for _ in range(6):
            if o[0] != 'v': return o
            d = defs.get(o[1])
            if d is None: return o
            if d['o'] == 'call' and d['f'][0] == 'fn' and d['f'][1].startswith('llvm.threadlocal'): o = d['a'][0]
            elif d['o'] in ('getelementptr',): o = d['base']
            else: return o
        return o
    def grow(g, start, stop):
        S = out.setdefault(g, set()); work = [start]; seen = set()
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b)
            for i, x in enumerate(f.blocks[b]):
                if stop(x): break
                S.add((b, i))
            else:
                for o in f.blocks[b][-1].get('a', ()):
                    if o[0] == 'b': work.append(o[1])
    for bi, b in enumerate(f.blocks):
        for i, x in enumerate(b):
            if x['o'] in ('call', 'invoke') and x['f'][0] == 'fn' and x['f'][1] == '__cxa_guard_acquire':
                g = root(x['a'][0])
                if not isg(g): continue
                t = b[-1]; c = defs.get(t['a'][0][1]) if t['o'] == 'br' and len(t['a']) == 3 else None
                if c is None: continue
                # operands of a conditional branch: condition, false target, true target
                tgt = t['a'][2] if c.get('p') == 'ne' else t['a'][1]
                rel = lambda y, g=g: y['o'] == 'call' and y['f'][0] == 'fn' and y['f'][1] in ('__cxa_guard_release', '__cxa_guard_abort') and root(y['a'][0])[1] == g[1]
                grow(g[1], tgt[1], rel)
            if x['o'] == 'load' and isg(root(x['a'][0])):
                g = root(x['a'][0])[1]
                t = b[-1]
                if t['o'] != 'br' or len(t['a']) != 3: continue
                c = defs.get(t['a'][0][1])
                if c is None or c['o'] != 'icmp' or c['a'][0] != ['v', x['d']]: continue
                tgt = (t['a'][2] if c.get('p') == 'eq' else t['a'][1])[1]
                if any(y['o'] == 'call' and y['f'][0] == 'fn' and y['f'][1] == '__cxa_guard_acquire' for y in f.blocks[tgt]): continue
                st = lambda y, g=g: y['o'] == 'store' and root(y['a'][1])[:2] == ['g', g]
                grow(g, tgt, st)
    return out

def is_init(f): return f.n.startswith(('_GLOBAL__sub_I', '__cxx_global_var_init', '__tls_init', '_ZTH', '_ZTW', '__cxx_global_array_dtor'))

def chain(E, f, q):
    """The statement that finally writes."""
    out = []; k = 0
    while k < 12:
        w = E.sum[f.n].w.get(q)
        if w is None: break
        x, g, i = w; out.append('%s at %s' % (f.norm.split('(')[0][-60:], line(x)))
        if g is None: break
        if g.decl: out.append(g.norm.split('(')[0][-50:]); break
        f = g; q = ('P', i); k += 1
    return ' -> '.join(out)

class Taint:
    """What depends on the arguments of a function."""
    def __init__(s, E, f):
        s.E = E; s.f = f; s.val = set(); s.obj = set(); s.why = {}
        sret = bool(f.args and f.args[0].get('sret'))
        for i, a in enumerate(f.args):
            if i == 0 and sret: continue
            if a['t'] == 'ptr': s.obj.add(('P', i))
            s.val.add(i)
        P = E.pts[f.n]; ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for x in b:
                    d = x.get('d'); ops = x.get('a') or []
                    if x['o'] == 'phi': ops = [q[1] for q in x.get('in', ())]
                    if x['o'] == 'getelementptr': ops = [x['base']] + [q[0] for q in x.get('vi', ())]
                    if x['o'] == 'store':
                        if s.dep(ops[0]):
                            for q in E.val(f, P, ops[1]):
                                if q not in s.obj and q[0] == 'L': s.obj.add(q); ch = True
                    elif x['o'] == 'load':
                        if d not in s.val and s.dep(ops[0]): s.val.add(d); ch = True
                    elif x['o'] in ('call', 'invoke'):
                        if any(s.dep(o) for o in ops):
                            if d is not None and d not in s.val: s.val.add(d); ch = True
                            for g in E.callees(f, x):
                                ws = ext_writes(g) if g.decl else {q[1] for q in E.sum[g.n].w if q[0] == 'P'}
                                for i in ws:
                                    if i < len(ops):
                                        for q in E.val(f, P, ops[i]):
                                            if q[0] == 'L' and q not in s.obj: s.obj.add(q); ch = True
                    elif d is not None and d not in s.val and x['o'] != 'alloca' and any(o[0] == 'v' and o[1] in s.val for o in ops): s.val.add(d); ch = True
    def dep(s, o):
        if o[0] == 'v' and o[1] in s.val and not s.isptr(o[1]): return True
        return any(q in s.obj for q in s.E.val(s.f, s.E.pts[s.f.n], o))
    def isptr(s, v):
        if v < len(s.f.args): return s.f.args[v]['t'] == 'ptr'
        d = s.E.defs[s.f.n].get(v); return bool(d) and d.get('t') == 'ptr'

def lib(f): return not f.decl and f.file.startswith(ir.SRC)

def analyse(cf):
    cfg, flags, cf = cf[0], cf[1], cf[0] + cf[2]
    m = ir.load_lib(cfg, tables=True, flags=flags); E = Eff(m); cfg = cf
    viol = []; und = []; cnt = {}
    def count(k, n=1): cnt[k] = cnt.get(k, 0) + n
    G = {f.n: guards(f) for f in m.fns.values() if not f.decl}
    guarded = {g[4:] for d in G.values() for g in d}
    if PROP == 'C05':
        for f in m.fns.values():
            if not lib(f): continue
            count('functions')
            S = E.sum[f.n]
            for i, (k, ro, p) in enumerate(param_info(f)):
                if i >= len(f.args) or f.args[i]['t'] != 'ptr': continue
                if k == 'this':
                    if not ro or not re.match(r'(EF|e_float_base|ef::complex<|util::dynamic_array<|ef::detail::fixed_dynamic_array<)', f.norm): continue
                    what = 'the object of a const method'
                elif k == 'param' and ro and RO.search(p): what = 'its read-only parameter %d (%s)' % (i, p[-40:])
                else: continue
                count('readonly_parameters')
                if ('P', i) in S.w: viol.append(('ro:%s:%d' % (f.norm[:120], i), '%s: %s writes %s: %s' % (cfg, f.norm[:120], what, chain(E, f, ('P', i)))))
        for f in m.fns.values():
            if f.decl or f.norm.startswith('vdrv::'): continue
            for q in E.sum[f.n].w:
                if q[0] != 'G' or q[1].startswith('_ZGV'): continue
                count('static_objects_written')
                o = owner(m, q[1])
                if o and not is_init(f) and o != f.norm and 'lambda' not in f.norm and (q[1] in guarded):
                    viol.append(('shared:%s:%s' % (f.norm[:100], dm(m, q[1])[-60:]), '%s: %s writes the shared object %s: %s' % (cfg, f.norm[:120], dm(m, q[1])[-80:], chain(E, f, q))))
        cnt['shared_objects'] = len(guarded)
        return viol, und, cnt
    # ---------------------------------------------------------------- C06
    sites = {}
    for f in m.fns.values():
        if f.decl or f.norm.startswith('vdrv::'): continue
        count('functions')
        P = E.pts[f.n]
        for bi, b in enumerate(f.blocks):
            for i, x in enumerate(b):
                dst = set()
                if x['o'] == 'store': dst = E.val(f, P, x['a'][1])
                elif x['o'] in ('call', 'invoke'):
                    for g in E.callees(f, x):
                        ws = ext_writes(g) if g.decl else {q[1] for q in E.sum[g.n].w if q[0] == 'P'}
                        for k in ws:
                            if k < len(x['a']): dst = dst | E.val(f, P, x['a'][k])
                for q in dst:
                    if q[0] == 'G' and not q[1].startswith('_ZGV') and q[1] in m.globals and not m.globals[q[1]].get('decl'):
                        rg = tuple(sorted(g for g, S in G[f.n].items() if (bi, i) in S))
                        sites.setdefault(q[1], []).append((f, x, rg, bi, i))
    locked = {f.n for f in m.fns.values() if not f.decl and any(LOCK.search(g.norm) or LOCK.search(g.n) for g in E.outs(f))}
    for g, L in sorted(sites.items()):
        count('static_objects')
        tls = m.globals[g].get('tls')
        bad = [t for t in L if not is_init(t[0]) and '_ZGV' + g[2:] not in t[2]]
        # written only inside the one-time initialisation of one other object
        if bad and all(t[2] for t in bad) and len({t[2] for t in bad}) == 1 and len({t[0].n for t in bad}) == 1: bad = []
        if not bad: continue
        f, x, rg, _, _ = bad[0]
        t = '%s: %s writes the static object %s outside its one-time initialisation (%s; %d such statements): later calls see it, and two threads doing this at once race' % (
            cfg, f.norm[:100], dm(m, g)[-80:], line(x), len(bad))
        if tls or all(t_[0].n in locked for t_ in bad): und.append(t)
        else: viol.append(('state:%s' % dm(m, g)[-80:], t))
    # initial values
    for f in m.fns.values():
        if f.decl or f.norm.startswith('vdrv::') or not G[f.n]: continue
        T = None
        for g, S in sorted(G[f.n].items()):
            count('initialisations')
            if not f.args or (len(f.args) == 1 and f.args[0].get('sret')): continue
            if T is None: T = Taint(E, f)
            for bi, i in sorted(S):
                x = f.blocks[bi][i]
                if x['o'] in ('call', 'invoke'):
                    hit = [o for o in x['a'] if T.dep(o)]
                elif x['o'] == 'store': hit = [x['a'][0]] if T.dep(x['a'][0]) else []
                elif x['o'] in ('br', 'switch') and x['a'] and x['a'][0][0] == 'v': hit = [x['a'][0]] if T.dep(x['a'][0]) else []
                else: continue
                if hit:
                    viol.append(('first:%s' % dm(m, g)[-90:], '%s: in %s the initial value of %s depends on the arguments of the first call (%s)' % (cfg, f.norm[:100], dm(m, g[:1] + g[1:])[-70:].replace('guard variable for ', ''), line(x))))
                    break
    # settings of the foreign library
    for f in m.fns.values():
        if f.decl or f.norm.startswith('vdrv::'): continue
        for bi, b in enumerate(f.blocks):
            for i, x in enumerate(b):
                if x['o'] in ('call', 'invoke') and x['f'][0] == 'fn' and x['f'][1] in CSTATE:
                    count('library_settings'); n = x['f'][1]
                    if not E.once(f, bi, i, G, CSTATE[n] == 'thread', m):
                        viol.append(('setting:%s:%s' % (n, f.norm[:80]), '%s: %s calls %s (%s) outside an initialisation done once per %s: it changes what later calls compute' % (cfg, f.norm[:80], n, line(x), CSTATE[n])))
    v, n = E.startup(G, CONSUMER); count('numbers_created', n)
    for k, t in v: viol.append((k, '%s: %s' % (cfg, t)))
    # non-determinism
    reach = set(); work = [f for f in m.fns.values() if lib(f) and (f.norm.startswith(('ef::', 'EF::', 'e_float_base::', 'operator')) or ' ef::' in f.norm.split('(')[0])]
    count('roots', len(work))
    while work:
        f = work.pop()
        if f.n in reach: continue
        reach.add(f.n)
        for b in f.blocks:
            for x in b:
                if x['o'] in ('call', 'invoke'):
                    for g in E.callees(f, x):
                        if g.n in NONDET or g.norm in NONDET: viol.append(('nondet:%s:%s' % (f.norm[:80], g.n), '%s: %s calls %s (%s): its result is not determined by its arguments' % (cfg, f.norm[:100], g.norm[:60], line(x))))
                        elif not g.decl: work.append(g)
    count('functions_reached', len(reach))
    return viol, und, cnt

def main():
    rep = report.Report(PROP)
    with Pool(6) as P:
        for cfg, (v, u, c) in zip(CFGS, P.imap(analyse, CFGS)):
            for k, n in c.items(): rep.count(k, n)
            for k, t in v: rep.violation(k, t)
            for t in u: rep.undecided(t)
    if PROP == 'C05':
        rep.need('readonly_parameters', 900); rep.need('shared_objects', 150)
        return rep.finish('Interprocedural effect analysis (write sets per parameter and static object, fixed point over the call graph, virtual calls through the class table, foreign functions by their prototypes) of the LLVM IR of the '
                          'current sources. Violation: a write that reaches a read-only parameter, the object of a const method, or a static object handed out by another function.')
    rep.need('initialisations', 150); rep.need('functions_reached', 600)
    return rep.finish('Interprocedural effect analysis: static storage is written only inside its guarded initialisation, no initial value depends on the arguments of the first call, foreign settings are made once (per thread where kept per '
                      'thread) before any number is created, and no source of non-determinism is called.')

if __name__ == '__main__':
    report.main(main)
