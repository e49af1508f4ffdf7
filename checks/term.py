"""C11: every loop and every recursion of the library ends.

Loops: an exit test that every iteration evaluates must depend on a progress variable (an induction variable known to the compiler's scalar
evolution, an integer or pointer stepped by a constant in the direction of its bound, multiplied or divided by a constant, or a built-in
floating value divided down).  A loop is reported when none of its exits can have such a variable: there is no exit, every exit condition is
the same in each iteration, every progress variable runs away from its bound, or the exits test only whether computed numbers have converged.
Recursion: every function on a cycle of the call graph is interpreted for every class of number (and listed values of integers) with
the calls on the cycle recorded.  It is reported when every path of some class again calls a member of the same non-terminating set."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ir, report
from terms import *
from absint import *
from fl import FL
from multiprocessing import Pool
from fractions import Fraction
import networkx as nx

CFGS = ('efx', 'gmp', 'mpfr')
PL = 'function(sroa,instsimplify,simplifycfg,loop-simplify)'
NUMTEST = re.compile(r'(ef::(is\w+|order_of|tolerance|small_arg|large_arg|near_\w+|max_iteration|tol)\(|EF::(is\w+|order|cmp|compare)\(|EF::(is\w+)\(|(bool )?operator(<|>|<=|>=|==|!=)(<\w+[^(]*>)?\((EF|ef::complex|int|double|long|unsigned))|e_float_base::(is\w+|order|cmp)\(|ef::complex<EF>::(is\w+)|(bool )?ef::operator(<|>|<=|>=|==|!=)')


def ops(x):
    if x['o'] == 'getelementptr': return [x['base']] + [v[0] if isinstance(v, list) and v and isinstance(v[0], list) else v for v in x['vi']] if x.get('ok') else [['v', -1]]
    return x.get('a', [])


class Loops:
    def __init__(s, m, f):
        s.m = m; s.f = f; s.defs = {}; s.preds = {b: [] for b in range(len(f.blocks))}
        for b, ins in enumerate(f.blocks):
            for x in ins:
                if 'd' in x: s.defs[x['d']] = (b, x)
            for t in s.succ(b): s.preds[t].append(b)
        s.idom = None

    def succ(s, b):
        ins = s.f.blocks[b]
        if not ins: return []
        x = ins[-1]
        return [a[1] for a in x.get('a', []) if a[0] == 'b'] if x['o'] in ('br', 'switch', 'invoke') else []

    def dominates(s, L, b, latch):
        """Every way from the header to the latch within the loop passes b."""
        if b == L['h'] or b == latch: return True
        seen = set(); work = [L['h']]
        while work:
            n = work.pop()
            if n == b or n in seen: continue
            seen.add(n)
            if n == latch: return False
            work += [t for t in s.succ(n) if t in L['set'] and t != L['h']]
        return True

    def root(s, p):
        """The alloca behind a pointer operand, or None."""
        for _ in range(8):
            if p[0] != 'v' or p[1] not in s.defs: return None
            x = s.defs[p[1]][1]
            if x['o'] == 'alloca': return p[1]
            if x['o'] in ('gep', 'getelementptr', 'bitcast'): return None
            return None
        return None

    def inv(s, L, o, depth=12):
        """The operand has the same value in every iteration."""
        if o[0] != 'v': return True
        d = s.defs.get(o[1])
        if d is None or d[0] not in L['set']: return True
        if depth == 0: return False
        x = d[1]
        if x['o'] in ('phi', 'call', 'invoke', 'load', 'alloca'):
            if x['o'] == 'load':
                r = s.root(x['a'][0])
                return r is not None and not s.touched(L, r)
            if x['o'] == 'call':
                f = x.get('f')
                if f and f[0] == 'fn':
                    g = s.m.fns.get(f[1])
                    return g is not None and not x.get('a') and not s.state(g)
            return False
        return all(s.inv(L, a, depth - 1) for a in ops(x))

    def state(s, g, depth=5):
        """A function without arguments whose value may change between calls."""
        if g.decl or depth == 0: return True
        for ins in g.blocks:
            for x in ins:
                if x['o'] == 'load' and not (x['a'][0][0] in ('fn', 'g', 'gv') and s.m.globals.get(x['a'][0][1], {}).get('const')): return True
                if x['o'] == 'call':
                    f = x['f']
                    if f[0] != 'fn': return True
                    if f[1].startswith('llvm.'): continue
                    h = s.m.fns.get(f[1])
                    if h is None or s.state(h, depth - 1): return True
        return False

    def touched(s, L, r):
        """A cell may be written in the loop."""
        for b in L['set']:
            for x in s.f.blocks[b]:
                if x['o'] == 'store' and x['a'][1] == ['v', r]: return True
                if x['o'] in ('call', 'invoke') and ['v', r] in x.get('a', []) and not str(x['f'][1] if x['f'][0] == 'fn' else '').startswith('llvm.lifetime'): return True
        return False

    def made(s, L, r):
        """A number computed anew in every iteration."""
        for b in L['set']:
            for x in s.f.blocks[b]:
                if x['o'] in ('call', 'invoke') and x.get('a') and x['a'][0] == ['v', r] and x['f'][0] == 'fn' and not x['f'][1].startswith('llvm.'):
                    g = s.m.fns.get(x['f'][1])
                    if x.get('sret') == 0 or g is not None and re.search(r'operator(=|\*=|/=|\+=|-=)\(|::e_float\(', g.norm): return True
        return False

    # progress ------------------------------------------------------------------------------------------------------
    def step(s, L, o, base, depth=10):
        """The change from `base` to operand o on the ways round the loop: set of ('+',k), ('*',k), ('/',k), ('=',) or None (unknown)."""
        if o == ['v', base[1]] if base[0] == 'phi' else False: return {('+', 0)}
        if o[0] != 'v' or depth == 0: return None
        d = s.defs.get(o[1])
        if d is None or d[0] not in L['set']: return None
        x = d[1]; k = x['o']
        if base[0] == 'cell' and k == 'load' and x['a'][0] == ['v', base[1]]: return {('+', 0)}
        if k in ('sext', 'zext', 'trunc', 'freeze', 'fpext', 'fptrunc', 'bitcast'): return s.step(L, x['a'][0], base, depth - 1)
        if k == 'phi':
            if d[0] == L['h']: return None
            out = set()
            for _, v in x['in']:
                r = s.step(L, v, base, depth - 1)
                if r is None: return None
                out |= r
            return out
        if k == 'select':
            a = s.step(L, x['a'][1], base, depth - 1); b = s.step(L, x['a'][2], base, depth - 1)
            return None if a is None or b is None else a | b
        if k in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'shl', 'lshr', 'ashr', 'fmul', 'fdiv', 'fadd', 'fsub', 'and'):
            a, b = x['a']
            if k in ('add', 'mul', 'fmul', 'fadd') and a[0] == 'c' : a, b = b, a
            r = s.step(L, a, base, depth - 1)
            if r is None: return None
            if k == 'and': return None
            if b[0] not in ('c', 'f'): return ({('+', 'n')} if k == 'add' and s.positive(b) else {(k + '?',)}) if r == {('+', 0)} else None
            try: c = b[1] if isinstance(b[1], (int, float)) else float(b[1])
            except (TypeError, ValueError): return None
            if k in ('add', 'sub'):
                w = b[2] if len(b) > 2 and isinstance(b[2], int) else 64
                if isinstance(c, int) and c >= 1 << (w - 1): c -= 1 << w
                if any(z[0] != '+' or z[1] == 'n' for z in r): return None
                return {('+', z[1] + (c if k == 'add' else -c)) for z in r}
            if r != {('+', 0)}: return None
            if k in ('mul', 'fmul'): return {('*', c)}
            if k == 'shl': return {('*', 1 << c)}
            if k in ('sdiv', 'udiv', 'fdiv'): return {('/', c)}
            if k in ('lshr', 'ashr'): return {('/', 1 << c)}
            return None
        if k in ('gep', 'getelementptr'):
            r = s.step(L, x['base'], base, depth - 1) if x.get('ok') and not x['vi'] else None
            if r is None or any(z[0] != '+' or z[1] == 'n' for z in r): return None
            return {('+', z[1] + x['c']) for z in r}
        return None

    def variable(s, L, o, depth=6):
        """Find what steps behind an operand: (kind, base, steps, start, offset-op) or None; 'num' when only numbers are behind it; 'inv'."""
        if s.inv(L, o): return 'inv'
        d = s.defs[o[1]]; x = d[1]; k = x['o']
        if k == 'phi':
            if d[0] == L['h']:
                st = None; steps = set()
                for pb, v in x['in']:
                    if pb in L['set']:
                        r = s.step(L, v, ('phi', x['d']))
                        if r is None: return 'unknown'
                        steps |= r
                    else: st = v
                return ('var', steps, st)
            out = {str(s.variable(L, v, depth - 1)) if depth else 'unknown' for _, v in x['in']}
            return 'num' if out <= {'num', 'inv'} and 'num' in out else 'unknown'
        if depth == 0: return 'unknown'
        if k == 'load':
            r = s.root(x['a'][0])
            if r is None: return 'unknown'
            steps = set(); dom = False; latch = s.latch(L)
            for b in L['set']:
                for y in s.f.blocks[b]:
                    if y['o'] == 'store' and y['a'][1] == ['v', r]:
                        q = s.step(L, y['a'][0], ('cell', r))
                        if q is None: return 'unknown'
                        steps |= q
                        if latch is not None and s.dominates(L, b, latch): dom = True
            if not steps: return 'unknown'      # changed by a callee
            if not dom: return 'unknown'
            st = None
            for b, ins in enumerate(s.f.blocks):
                if b in L['set']: continue
                for y in ins:
                    if y['o'] == 'store' and y['a'][1] == ['v', r]: st = y['a'][0]
            return ('var', steps, st)
        if k == 'urem' or k == 'srem':
            v = s.variable(L, x['a'][0], depth - 1)
            return ('var', {('%',) + z for z in v[1]}, None) if isinstance(v, tuple) and x['a'][1][0] == 'c' else 'unknown' if v != 'num' else 'num'
        if k in ('sext', 'zext', 'trunc', 'freeze', 'sitofp', 'uitofp', 'fpext', 'fptrunc'): return s.variable(L, x['a'][0], depth - 1)
        if k in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'lshr', 'fadd', 'fsub', 'fmul', 'fdiv'):
            vs = [s.variable(L, a, depth - 1) for a in x['a']]
            if all(v in ('inv', 'num') for v in vs if isinstance(v, str)) and not any(isinstance(v, tuple) for v in vs): return 'num'
            one = [(i, v) for i, v in enumerate(vs) if isinstance(v, tuple)]
            if len(one) == 1 and all(v == 'inv' for v in vs if isinstance(v, str)):
                i, v = one[0]; c = x['a'][1 - i]
                if k in ('add', 'fadd'): return v
                if k in ('sub', 'fsub'): return v if i == 0 else ('var', {(('+', -z[1]) if z[0] == '+' and z[1] != 'n' else ('?',)) for z in v[1]}, None)
                if k in ('mul', 'fmul', 'sdiv', 'udiv', 'lshr', 'fdiv') and i == 0 and c[0] == 'c' and c[1] > 0: return ('var', v[1], None)
            if k == 'mul' and x['a'][0] == x['a'][1] and isinstance(vs[0], tuple): return ('var', {('^',) + z for z in vs[0][1]}, None)
            return 'unknown'
        if k in ('call', 'invoke'):
            f = x.get('f')
            if f and f[0] == 'fn':
                if re.match(r'llvm\.(abs|smax|smin|umax|umin|fabs)', f[1]): return 'num' if all(s.variable(L, a, depth - 1) in ('num', 'inv') for a in x['a'] if a[0] == 'v') else 'unknown'
                g = s.m.fns.get(f[1])
                if g is not None and NUMTEST.match(g.norm) and not s.counted(L, x): return 'num'
            return 'unknown'
        if k in ('icmp', 'fcmp', 'and', 'or', 'xor', 'select'):
            vs = [s.variable(L, a, depth - 1) for a in x['a']]
            return 'num' if all(v in ('num', 'inv') for v in vs) else 'unknown'
        return 'unknown'

    def counted(s, L, x):
        """A number tested here is changed only by stepping operators, as a loop counter is."""
        for a in x.get('a', []):
            if a[0] != 'v' or (s.defs.get(a[1]) or (None, {'o': ''}))[1]['o'] not in ('alloca', 'call', 'load', ''): continue
            st = False; other = False
            for b in L['set']:
                for y in s.f.blocks[b]:
                    if y['o'] == 'call' and a in y.get('a', []) and y['f'][0] == 'fn':
                        g = s.m.fns.get(y['f'][1]); n = g.norm if g else ''
                        pos = y['a'].index(a)
                        if re.search(r'operator(\+\+|--|\+=|-=)', n) and pos == 0:
                            r = s.root(y['a'][1]) if len(y['a']) > 1 and y['a'][1][0] == 'v' and 'EF const&' in n else None
                            if r is not None and s.made(L, r): other = True      # a sum of computed terms
                            else: st = True
                        elif (y.get('sret') == pos) or (pos == 0 and re.search(r'operator(=|\*=|/=)|::e_float\(', n)): other = True
            if st and not other: return True
        return False

    def latch(s, L):
        l = [b for b in s.preds[L['h']] if b in L['set']]
        return l[0] if len(l) == 1 else None

    def judge(s, L, c, stay, depth=5):
        """Verdict for a condition: 'ok' | 'inv' | 'wrong' | 'num' | 'unknown'.  stay: value of the condition that keeps the loop running."""
        if s.inv(L, c): return 'inv'
        x = s.defs[c[1]][1]; k = x['o']
        if k in ('and', 'select', 'or', 'xor') and depth:
            a = x['a']
            if k == 'xor':
                if a[1][0] == 'c': return s.judge(L, a[0], not stay, depth - 1)
                return 'unknown'
            parts = None
            if k == 'and' or (k == 'select' and a[2][0] == 'c' and a[2][1] == 0): parts = ('and', [a[0], a[1]])
            elif k == 'or' or (k == 'select' and a[1][0] == 'c' and a[1][1]): parts = ('or', [a[0], a[2] if k == 'select' else a[1]])
            if parts is None: return 'unknown'
            vs = [s.judge(L, p, stay, depth - 1) for p in parts[1]]
            if (parts[0] == 'and') == bool(stay):          # leaves as soon as one part changes
                return 'ok' if 'ok' in vs else 'unknown' if 'unknown' in vs else 'num' if 'num' in vs else vs[0]
            return 'ok' if all(v == 'ok' for v in vs) else 'unknown' if 'unknown' in vs else 'num' if 'num' in vs else vs[0]
        if k in ('icmp', 'fcmp'):
            a, b = x['a']; p = x['p']
            va, vb = s.variable(L, a), s.variable(L, b)
            if not isinstance(va, tuple) and isinstance(vb, tuple):
                a, b, va, vb = b, a, vb, va
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole'}.get(p, p)
            if isinstance(va, tuple):
                if isinstance(vb, tuple): return 'unknown' if va[1] != vb[1] else 'wrong' if p in ('ne', 'eq') and ((p == 'ne') == bool(stay)) and all(z[0] == '+' for z in va[1]) and len(va[1]) == 1 and s.distinct(va[2], vb[2]) else 'unknown'
                if not stay: p = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq', 'olt': 'oge', 'ogt': 'ole', 'ole': 'ogt', 'oge': 'olt', 'ult_': 'oge'}.get(p, p)
                up = p[-2:] in ('lt', 'le'); down = p[-2:] in ('gt', 'ge')
                steps = va[1]
                if steps == {('+', 0)}: return 'wrong'
                vd = []
                w = s.bits(a)
                for z in steps:
                    if z[0] == '%': vd.append('ok' if p == 'ne' and z[1] == '+' and z[2] in (1, -1) and b == ['c', 0, w] else 'unknown'); continue
                    if z[0] == '^': z = ('+', 'n') if z[1] == '+' and (z[2] == 'n' or z[2] > 0) else ('?',)
                    if z[0] == '+' and (z[1] == 'n' or z[1] > 1) and p == 'ult' and s.param(b, w): vd.append('wrap'); continue
                    if z[0] == '+' and z[1] == 'n': vd.append('ok' if p in ('ult', 'slt', 'ule', 'sle') and s.small(b, w) else 'unknown'); continue
                    if z[0] == '+':
                        if z[1] == 0: vd.append('unknown')
                        elif p == 'eq' or p == 'ne': vd.append('ok')
                        elif p[0] == 'u' and p in ('ult', 'ule', 'ugt', 'uge'): vd.append('ok' if (z[1] > 0) == up else 'unknown')
                        else: vd.append('ok' if (z[1] > 0) == up else 'wrong')
                    elif z[0] == '*':
                        st = va[2]
                        if z[1] in (0, 1): vd.append('wrong')
                        elif st is not None and st[0] == 'c' and st[1] == 0: vd.append('wrong')
                        else: vd.append('ok' if up and z[1] > 1 else 'unknown')
                    elif z[0] == '/':
                        if z[1] in (1, 1.0): vd.append('wrong')
                        else: vd.append('ok' if down or p in ('ne',) else 'unknown')
                    else: vd.append('unknown')
                return 'ok' if all(v == 'ok' for v in vd) else 'wrap' if 'wrap' in vd and all(v in ('ok', 'wrap') for v in vd) else 'wrong' if all(v == 'wrong' for v in vd) else 'unknown'
            if all(v in ('num', 'inv') for v in (va, vb)): return 'num'
            return 'unknown'
        v = s.variable(L, c)
        return v if v in ('num',) else 'unknown'

    def bits(s, o):
        if o[0] == 'c': return o[2]
        d = s.defs.get(o[1])
        t = d[1].get('t', '') if d else s.f.args[o[1]].get('t', '') if o[1] < len(s.f.args) else ''
        return int(t[1:]) if re.fullmatch(r'i\d+', t or '') else 0

    def positive(s, o):
        """A counter of an enclosing loop that starts above zero and steps up, or a positive constant."""
        if o[0] == 'c': return o[1] > 0
        d = s.defs.get(o[1])
        if d is None: return False
        x = d[1]
        if x['o'] in ('zext', 'sext'): return s.positive(x['a'][0])
        L = next((l for l in s.f.loops if l['h'] == d[0]), None)
        if x['o'] != 'phi' or L is None: return False
        for pb, v in x['in']:
            if pb in L['set']:
                r = s.step(L, v, ('phi', x['d']))
                if not r or any(z[0] != '+' or z[1] == 'n' or z[1] < 0 for z in r): return False
            elif v[0] != 'c' or v[1] <= 0: return False
        return True

    def small(s, o, w):
        """A bound far below the largest number of w bits: a constant or a widened narrower number."""
        if o[0] == 'c': return 0 <= o[1] < 1 << (w - 2)
        d = s.defs.get(o[1])
        return d is not None and d[1]['o'] == 'zext' and w >= 64 and s.bits(d[1]['a'][0]) <= 32

    def param(s, o, w, depth=5):
        """The bound may be a parameter of the function, of the same width, that no test restricts."""
        if depth == 0 or o[0] != 'v' or s.bits(o) not in (w, 0): return False
        if o[1] < len(s.f.args): return not s.tested(o)
        d = s.defs.get(o[1])
        if d is None: return False
        x = d[1]
        if x['o'] == 'phi': return any(s.param(v, w, depth - 1) for _, v in x['in'])
        if x['o'] == 'select': return any(s.param(v, w, depth - 1) for v in x['a'][1:])
        if x['o'] == 'load':
            q = x['a'][0]
            r = s.root(q)
            cells_ = [r] if r is not None else []
            if q[0] == 'v' and r is None:
                y = s.defs.get(q[1], (0, {'o': ''}))[1]
                if y['o'] == 'call' and y['f'][0] == 'fn' and re.match(r'_ZSt3max[IjlmiI]', y['f'][1]): cells_ = [s.root(a) for a in y['a']]
            for r in cells_:
                st = [y['a'][0] for ins in s.f.blocks for y in ins if y['o'] == 'store' and r is not None and y['a'][1] == ['v', r]]
                if len(st) == 1 and s.param(st[0], w, depth - 1): return True
        return False

    def tested(s, o):
        return any(x['o'] in ('icmp', 'switch') and o in x.get('a', []) and not any(x['d'] == y['a'][0][1] for L in s.f.loops for b in L['set'] for y in s.f.blocks[b][-1:] if y['o'] == 'br' and len(y['a']) == 3 and y['a'][0][0] == 'v')
                   for ins in s.f.blocks for x in ins if 'd' in x or x['o'] == 'switch')

    def distinct(s, a, b): return a is not None and b is not None and a[0] == 'c' and b[0] == 'c' and a[1] != b[1]

    def check(s, L):
        """(verdict, text)"""
        if L.get('max') or L.get('btc') and 'COULDNOTCOMPUTE' not in L['btc'].upper(): return 'ok', 'counted'
        latch = s.latch(L); vs = []; exits = 0
        for b in L['set']:
            ins = s.f.blocks[b]
            if not ins: continue
            if ins[-1]['o'] in ('ret', 'unreachable', 'resume'): exits += 1; vs.append(('unknown', b)); continue
            out = [t for t in s.succ(b) if t not in L['set']]
            if not out: continue
            exits += 1
            x = ins[-1]
            if x['o'] == 'br' and len(x['a']) == 3:
                j = s.judge(L, x['a'][0], x['a'][2][1] in L['set'])   # operands: condition, target if false, target if true
                if j == 'ok' and not (latch is not None and s.dominates(L, b, latch)): j = 'unknown'
                vs.append((j, b))
            elif x['o'] == 'switch':
                vs.append((s.tagged(L, x), b))
            else: vs.append(('unknown', b))
        for j, b in vs:
            if j == 'ok': return 'ok', 'ranked'
        if not exits: return 'viol', 'no way out of the loop'
        kinds = {j for j, _ in vs}
        if 'unknown' in kinds: return 'undec', ''
        if 'wrap' in kinds and kinds <= {'wrap', 'inv', 'wrong'}: return 'viol', 'the stepped variable wraps past a bound that may be the largest number of its type'
        if kinds == {'inv'}: return 'viol', 'no exit condition changes from one iteration to the next'
        if 'wrong' in kinds and 'num' not in kinds: return 'viol', 'the tested variable does not move towards its bound'
        return 'viol', 'the exits only test whether computed numbers have converged; nothing bounds the number of iterations'

    def gated(s, L, p, q, seen=None):
        """The edge p->q inside the loop is only taken after a test on computed numbers came out one way."""
        seen = seen if seen is not None else set()
        if (p, q) in seen: return True
        seen.add((p, q))
        y = s.f.blocks[p][-1]
        if y['o'] == 'br' and len(y['a']) == 3 and y['a'][1][1] != y['a'][2][1]:
            j = s.judge(L, y['a'][0], y['a'][2][1] != q)
            if j == 'num': return True
            if j != 'inv': return False        # a counter, or something unknown, selects this way
        if p == L['h']: return False
        ps = [b for b in s.preds[p] if b in L['set']]
        return bool(ps) and all(s.gated(L, b, p, seen) for b in ps)

    def tagged(s, L, x):
        """A switch on a phi of constants (the compiler's clean-up code): judge the conditions that select the incoming ways."""
        o = x['a'][0]
        if o[0] == 'v' and o[1] in s.defs and s.defs[o[1]][1]['o'] == 'phi':
            b, p = s.defs[o[1]]; a = x['a']
            to = {a[i][1]: a[i + 1][1] for i in range(2, len(a) - 1, 2)}
            leaving = [(q, v) for q, v in p['in'] if v[0] != 'c' or to.get(v[1], a[1][1]) not in L['set']]
            if leaving and all(v[0] == 'c' and q in L['set'] and s.gated(L, q, b) for q, v in leaving): return 'num'
            js = set(); seen = set()
            work = [q for q, _ in p['in'] if q in L['set']]
            # conditions between the header and the phi
            while work:
                q = work.pop()
                if q in seen: continue
                seen.add(q)
                y = s.f.blocks[q][-1]
                if y['o'] == 'br' and len(y['a']) == 3:
                    j = s.judge(L, y['a'][0], True)
                    js.add('unknown' if j == 'ok' else j)
                if q != L['h']: work += [t for t in s.preds[q] if t in L['set']]
            if not js: return 'unknown'
            return 'unknown' if 'unknown' in js else 'num' if 'num' in js else 'inv'
        return 'unknown'


def loops(cfg):
    m = ir.load_lib(cfg, driver=False, tables=False, pipeline=PL, scev=True)
    out = []
    for f in m.fns.values():
        if f.decl or not f.loops: continue
        S = Loops(m, f)
        for L in f.loops:
            if 'libs/' not in f.file and ir.REPO not in f.file: continue
            lines = [x['l'] for b in L['set'] for x in f.blocks[b] if x.get('l') and (x.get('lf') or f.file) == f.file]
            k, t = S.check(L)
            out.append((cfg, f.norm, f.loc.rsplit(':', 1)[0], min(lines) if lines else f.line, k, t))
    return out


# recursion -------------------------------------------------------------------------------------------------------------
MODS = {}
D = Free(); DX = Alg()
INTS = lambda w, signed: ([-(1 << (w - 1)), -(1 << (w - 1)) + 1, -1000001, -1000000, -101, -100, -9, -3, -2, -1] if signed else []) + [0, 1, 2, 3, 9, 100, 101, 1000000, 1000001, (1 << (w - 1)) - 1] + ([(1 << w) - 1] if not signed else [])
WIDTH = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
DBLS = (0.0, -0.0, 1.0, -1.5, 0.3, 1e300, -1e300, 1e-300, 5e-324, float('inf'), float('-inf'), float('nan'))
CLASSES = tuple(bits(ALL))
EXACT = tuple(Fraction(*q) for q in ((1, 2), (-1, 2), (3, 2), (-3, 2), (2, 1), (-2, 1), (10, 1), (-10, 1), (101, 2)))


def cycles(m):
    G = nx.DiGraph()
    for f in m.fns.values():
        for ins in f.blocks:
            for x in ins:
                if x['o'] in ('call', 'invoke') and x['f'][0] == 'fn': G.add_edge(f.n, x['f'][1])
    out = []
    for S in nx.strongly_connected_components(G):
        S = set(S)
        if any(m.fns[n].norm.startswith(('std::', 'void std::', '__gnu')) for n in S if n in m.fns): continue
        if len(S) > 1 or G.has_edge(*(list(S) * 2)): out.append(frozenset(S))
    return out


_ctl = {}
def control(fn, L):
    """The header phis that decide the ways through a loop, and whether memory or calls do, too."""
    k = (fn.n, L['h']); r = _ctl.get(k)
    if r is None:
        defs = {x['d']: x for b in L['set'] for x in fn.blocks[b] if 'd' in x}
        head = {x['d'] for x in fn.blocks[L['h']] if x['o'] == 'phi'}
        work = [x['a'][0] for b in L['set'] for x in fn.blocks[b][-1:] if x['o'] in ('br', 'switch') and len(x['a']) > 1]
        seen = set(); mem = False
        while work:
            o = work.pop()
            if o[0] != 'v' or o[1] in seen or o[1] not in defs: continue
            seen.add(o[1]); x = defs[o[1]]
            if x['o'] in ('load', 'call', 'invoke'): mem = True
            if x['o'] == 'phi': work += [v for _, v in x['in']]
            else: work += ops(x)
        r = _ctl[k] = (frozenset(seen & head), mem, frozenset(head))
    return r

def repeats(fn, L, e, nv, cur, c2):
    """An iteration without a way out leaves everything that decides the next one as it was."""
    phis, mem, head = control(fn, L)
    if mem: return all(nv.get(d) is e.get(d) for d in head) and c2.mem == cur.mem
    return all(nv.get(d) is e.get(d) for d in phis)


class RL(FL):
    """The function layer with the calls on a cycle followed once and recorded when they come back to a function that is running."""
    breaks = False
    def __init__(s, m, scc, dom): FL.__init__(s, m, dom); s.scc = scc; s.found = None
    def call(s, I_, st, fn, args, x, site):
        if fn.n in s.scc:
            if any(g.n == fn.n for g in I_.callstack):
                ab = absargs(s.m, I_, st, fn, args)
                same = fn.n == s.root and all(p is q for p, q in zip(concrete(s.m, I_, st, fn, args), s.entry)) and (ab is None or ('same object' in ab) == s.alias)
                st.ev = (('rec', fn.n, ab, same, I_.where), st.ev)
                return I_.opaque(st, fn, args, x, x.get('t', 'void'))
            return None
        if fn.n not in s.h and not fn.decl and s.deep(fn): s.h[fn.n] = s.opaque_h
        return FL.call(s, I_, st, fn, args, x, site)
    def deep(s, fn):
        """A computation beside the cycle: only that its result is some number matters here."""
        n = fn.norm
        if re.search(r'operator[*/]', n) and 'ef::complex' in n and fn.args: return True
        if n.startswith(('EF::', 'e_float_base::', 'ef::complex<', 'std::')) or 'operator' in n or (n.startswith('ef::') and s.contract(fn, n)): return False
        if re.match(r'ef::(is\w+|to_\w+|small_arg|large_arg|near_\w+|order_of|sgn|real|imag|abs|fabs|integer_part|decimal_part|floor|ceil|tolerance|max_iteration)\(', n) or not fn.args: return False
        return bool(fn.loops) or 'libs/e_float/src/functions' in fn.file or 'j_pow_x' in n or 'map<' in n
    def stuck(s, I_, fn, L, *a):
        if repeats(fn, L, *a): s.found = (fn, L)


def plist(m, fn):
    """Parameter kinds: 'n' number, 'z' complex, ('i',w,signed), 'd', or None."""
    ps, _ = split_params(fn.norm)
    off = 1 if fn.args and fn.args[0].get('sret') else 0
    if ps is None: return None
    if len(fn.args) - off != len(ps): ps = ['this'] + ps
    if len(fn.args) - off != len(ps): return None
    out = []
    for p in ps:
        if p in ('EF const&', 'EF&'): out.append('n')
        elif p == 'this': out.append('z' if 'ef::complex<EF>::' in fn.norm or 'ef::complex<EF>&' in fn.norm else 'n' if fn.norm.startswith('EF::') else None)
        elif p in ('ef::complex<EF> const&', 'ef::complex<EF>&'): out.append('z')
        elif p in WIDTH: out.append(('i',) + WIDTH[p])
        elif p in ('double', 'float', 'long double'): out.append('d')
        elif p in ('EF*', 'double&', 'long&', 'int*'): out.append('o')
        else: out.append(None)
    return off, out


def concrete(m, I_, st, fn, args):
    off, ks = plist(m, fn); out = []
    for k, a in zip(ks, args[off:]):
        if k == 'n': out.append(I_.ef_rd(st, a))
        elif k == 'z': out += [I_.ef_rd(st, a), I_.ef_rd(st, mk('p', a.args[0], a.args[1] + I_.SZ))]
        else: out.append(a)
    return out

def absval(I_, st, p):
    v = I_.ef_rd(st, p); q = I_.D.isnum(v)
    if q is not None and q not in (0, 1, -1): return Fraction(q)
    return I_.getcls(st, v)

def absargs(m, I_, st, fn, args):
    off, ks = plist(m, fn); out = []
    for k, a in zip(ks, args[off:]):
        if k in ('n', 'z') and (a.op != 'p'): return None
        if k == 'n': out.append(absval(I_, st, a))
        elif k == 'z': out.append((absval(I_, st, a), absval(I_, st, mk('p', a.args[0], a.args[1] + I_.SZ))))
        elif isinstance(k, tuple): out.append(a.args[0] if a.op == 'i' else None)
        else: out.append(None)
    ps = [a for k, a in zip(ks, args[off:]) if k in ('n', 'z')]
    if len(ps) > 1 and len(set(ps)) < len(ps): out.append('same object')
    return tuple(out)


def starts(m, fn, full=True):
    pl = plist(m, fn)
    if pl is None or None in pl[1]: return None
    combos = [()]
    for k in pl[1]:
        vs = CLASSES if k == 'n' else [(a, b) for a in CLASSES for b in (CLASSES if full else (Z, S, NL, NAN, PINF))] if k == 'z' else INTS(*k[1:]) if isinstance(k, tuple) else DBLS if k == 'd' else ('out',)
        combos = [c + (v,) for c in combos for v in vs]
        if len(combos) > 1200: combos = combos[::len(combos) // 900]
    ex = [()]
    for k in pl[1]:
        vs = EXACT if k == 'n' else [(a, b) for a in EXACT for b in (Z, EXACT[0], EXACT[4])] if k == 'z' else INTS(*k[1:])[::2] if isinstance(k, tuple) else DBLS[2:5] if k == 'd' else ('out',)
        ex = [c + (v,) for c in ex for v in vs]
        if len(ex) > 400: ex = ex[::len(ex) // 300]
    if sum(k in ('n', 'z') for k in pl[1]) > 1:
        # the same object passed twice
        i, j = [q for q, k in enumerate(pl[1]) if k in ('n', 'z')][:2]
        if pl[1][i] == pl[1][j]:
            done = set()
            for c in combos:
                c = c[:j] + (c[i],) + c[j + 1:]
                if c not in done: done.add(c)
            combos = combos + [c + ('same object',) for c in sorted(done, key=str)[:120]]
    return combos + ([e for e in ex if exact(e)] if 'n' in pl[1] or 'z' in pl[1] else [])


def node(t):
    """Interpret one function for one choice of argument classes: list of paths, each a list of recorded calls."""
    cfg, n, scc, ab = t
    m = MODS[cfg]; fn = m.fns[n]; off, ks = plist(m, fn)
    dom = DX if exact(ab) else D
    pol = RL(m, scc, dom); J = Interp(m, dom, pol, max_paths=1500, max_steps=150000, unroll=4); st = St(); av = []
    if off: st.mem['R'] = {}; av.append(ptr('R'))
    first = {}
    for i, (k, v) in enumerate(zip(ks, ab)):
        o = 'X%d' % i
        if k in ('n', 'z') and 'same object' in ab[len(ks):]:
            if k in first: av.append(first[k]); continue
            first[k] = ptr(o)
        if k == 'n': st.mem[o] = {0: (J.SZ, term(st, 'x%d' % i, v, dom))}; av.append(ptr(o))
        elif k == 'z': st.mem[o] = {0: (J.SZ, term(st, 'x%d' % i, v[0], dom)), J.SZ: (J.SZ, term(st, 'y%d' % i, v[1], dom))}; av.append(ptr(o))
        elif k == 'o': st.mem[o] = {}; av.append(ptr(o))
        elif k == 'd': av.append(D_(v))
        else: av.append(I(v, k[1]))
    pol.root = n; pol.alias = 'same object' in ab; pol.entry = concrete(m, J, st, fn, av)
    try: R = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s(%s): %s' % (cfg, fn.norm[:100], abtext(ab, ks), e), pol.found and spotl(pol.found))
    paths = []
    for z, _ in R:
        paths.append([(e[1], e[2], e[3], '%s:%s' % (e[4][0].loc.rsplit(':', 1)[0], e[4][1].get('l'))) for e in z.events() if e[0] == 'rec'])
    return ('ok', paths, pol.found and spotl(pol.found))

def spotl(f):
    fn, L = f
    lines = [x['l'] for b in L['set'] for x in fn.blocks[b] if x.get('l')]
    return '%s (%s:%s)' % (fn.norm[:100], fn.loc.rsplit(':', 1)[0], min(lines) if lines else fn.line)

def exact(ab):
    vs = [w for v in ab if v != 'same object' for w in (v if isinstance(v, tuple) else (v,))]
    return any(isinstance(w, Fraction) for w in vs)

def term(st, name, c, dom):
    if isinstance(c, Fraction): return dom.num(c)
    if c == Z: return dom.num(0)
    if c == P1: return dom.num(1)
    if c == N1: return dom.num(-1)
    t = dom.sym(name); st.cls[t] = c; return t

def abtext(ab, ks=None):
    def one(w): return str(w) if isinstance(w, Fraction) else cname(w)
    return ', '.join(('%s + %si' % (one(v[0]), one(v[1]))) if isinstance(v, tuple) else one(v) if ks and i < len(ks) and ks[i] == 'n' else str(v) for i, v in enumerate(ab))


def singles(v, k):
    """The single-class nodes an argument may be."""
    def one(w): return [w] if isinstance(w, Fraction) else list(bits(w))
    return one(v) if k == 'n' else [(a, b) for a in one(v[0]) for b in one(v[1])] if k == 'z' else [v]

def expand(ab, ks):
    out = [()]
    for v, k in zip(ab, ks):
        if v is None: return None
        out = [o + (w,) for o in out for w in singles(v, k)]
        if len(out) > 2000: return None
    return [o + tuple(ab[len(ks):]) for o in out]


def recursion(rep, cfg, P):
    m = MODS[cfg]; n_scc = 0
    for scc in cycles(m):
        if not all(n in m.fns and not m.fns[n].decl for n in scc): continue
        n_scc += 1
        fns = [m.fns[n] for n in sorted(scc)]
        rep.count('recursive_functions', len(fns))
        nodes = {}; todo = []
        kinds = {}
        for f in fns:
            pl = plist(m, f); st = starts(m, f)
            if st is None: rep.undecided('%s: %s takes parameters the analysis does not model' % (cfg, f.norm[:100])); continue
            kinds[f.n] = pl[1]; todo += [(f.n, a) for a in st]
        seen = set(todo); rounds = 0
        while todo and len(nodes) < 6000:
            res = P.map(node, [(cfg, n, scc, a) for n, a in todo], chunksize=8)
            new = []
            for key, r in zip(todo, res):
                nodes[key] = r
                if r[0] == 'ok':
                    for p in r[1]:
                        for c, ab, same, w in p:
                            if ab is None or c not in kinds: continue
                            for e in expand(ab, kinds[c]) or []:
                                if (c, e) not in seen: seen.add((c, e)); new.append((c, e))
            todo = new; rounds += 1
        # the nodes from which some path comes to an end
        T = set(k for k, r in nodes.items() if r[0] != 'ok'); changed = True
        def ends(c, ab):
            if ab is None or c not in kinds: return True
            bs = expand(ab, kinds[c])
            if bs is None: return True
            return any((c, e) not in nodes or (c, e) in T for e in bs)
        while changed:
            changed = False
            for k, r in nodes.items():
                if k not in T and (not r[1] or any(all(ends(c, ab) for c, ab, _, _ in p) for p in r[1])): T.add(k); changed = True
        for k, r in nodes.items():
            f = m.fns[k[0]]
            if r[2]: rep.violation('stuck/' + r[2].split(' (')[0], '%s: %s(%s): the loop in %s comes back to the state it started from' % (cfg, f.norm[:120], abtext(k[1], plist(m, f)[1]), r[2]))
            if r[0] != 'ok': rep.undecided(r[1]); continue
            rep.count('recursion_cases'); rep.count('paths', len(r[1]))
            if k not in T:
                w = [c for p in r[1] for c in p][:1]
                rep.violation('recursion/%s/%s' % (f.norm, abtext(k[1], plist(m, f)[1])), '%s: %s with argument %s never returns: every path calls %s again (%s)' % (cfg, f.norm[:160], abtext(k[1], plist(m, f)[1]), m.fns[w[0][0]].norm[:80], w[0][3]))
            else:
                for p in r[1]:
                    for c, ab, same, w in p:
                        if same: rep.violation('recursion/same/' + f.norm, '%s: %s with argument %s calls itself with its own arguments (%s)' % (cfg, f.norm[:160], abtext(k[1], plist(m, f)[1]), w)); break
    return n_scc


# machine arguments --------------------------------------------------------------------------------------------------------
import handles

class StuckMixin:
    pass

def hrun(t):
    """A method or constructor of the number class for extreme machine arguments; reports loops that return to their first state."""
    cfg, n, state, args, isctor, static = t
    m = MODS[cfg]; fn = m.fns[n]
    handles.MODS[cfg] = m
    m, pol, J, st = handles.mach(cfg, (fn.norm,))
    found = []
    pol.stuck = lambda I_, f, L, *a: repeats(f, L, *a) and found.append(spotl((f, L)))
    try:
        av = []
        if fn.args and fn.args[0].get('sret'): st.mem['R'] = {}; av.append(ptr('R'))
        if isctor: st.mem['X'] = {}; av.append(ptr('X'))
        elif not static: st, _ = handles.prepare(cfg, pol, J, st, 'X', state); av.append(ptr('X'))
        for k, a in enumerate(args):
            if isinstance(a, tuple): st, _ = handles.prepare(cfg, pol, J, st, 'Y', a[1]); av.append(ptr('Y'))
            elif a == 'out': st.mem['OUT%d' % k] = {}; av.append(ptr('OUT%d' % k))
            else: av.append(a)
        del found[:]
        R = J.run_fn(fn, av, st, mk('site', 'root'))
    except Imprecise as e: return ('undec', '%s %s: %s' % (cfg, fn.norm[:100], e), found, 0)
    return ('ok', '', found, len(R))

def mtasks(cfg):
    m = MODS[cfg]; out = []
    handles.MODS[cfg] = m
    for f in handles.methods(m):
        pl = plist(m, f)
        ps, _ = split_params(f.norm)
        if ps is None: continue
        static = len(f.args) - (1 if f.args and f.args[0].get('sret') else 0) == len(ps)
        isctor = handles.CTOR.match(f.norm) is not None
        lists = []
        for p in ps:
            if p in WIDTH: lists.append([I(v, WIDTH[p][0]) for v in INTS(*WIDTH[p])])
            elif p in ('double', 'float', 'long double'): lists.append([D_(v) for v in DBLS])
            elif p == 'EF const&': lists.append([('num', c) for c in ('NaN', 'inf', '0', '(-inf,-1)', '(0,1)', '1')])
            elif p in ('double&', 'long&', 'int*'): lists.append(['out'])
            else: lists = None; break
        if lists is None: continue
        combos = [()]
        for l in lists: combos = [c + (v,) for c in combos for v in l]
        for s_ in ([None] if isctor or static else ['NaN', 'inf', '0', '(-inf,-1)', '(0,1)', '1']):
            for c in combos: out.append((cfg, f.n, s_, c, isctor, static))
    return out

def frun(t):
    cfg, n, ab = t
    r = node((cfg, n, frozenset([n]), ab))
    return r

def ftasks(cfg):
    m = MODS[cfg]; out = []; seen = set()
    for f in m.fns.values():
        if f.decl or not re.match(r'ef::\w+\(', f.norm) or 'libs/e_float/src/functions' not in f.file: continue
        pl = plist(m, f)
        if pl is None or None in pl[1] or not f.args: continue
        if not any(isinstance(k, tuple) or k == 'd' for k in pl[1]): continue
        for a in starts(m, f, False) or []: out.append((cfg, f.n, a))
    return out


def check():
    rep = report.Report('C11')
    for cfg in CFGS: MODS[cfg] = ir.load_lib(cfg)
    with Pool(8) as P:
        for r in P.map(loops, CFGS):
            for cfg, fn, file, line, k, t in r:
                rep.count('loops')
                if k == 'ok': rep.count('loops_' + t)
                elif k == 'undec': rep.undecided('%s: loop at %s:%s in %s: no progress argument found' % (cfg, file, line, fn[:100]))
                else: rep.violation('loop/%s' % fn, '%s: loop at %s:%s in %s: %s' % (cfg, file, line, fn[:160], t))
        for cfg in CFGS: rep.count('recursive_cycles', recursion(rep, cfg, P))
        for cfg in CFGS:
            ts = mtasks(cfg)
            for t, (k, txt, found, n) in zip(ts, P.imap(hrun, ts, chunksize=8)):
                rep.count('method_cases'); rep.count('paths', n)
                if k == 'undec': rep.undecided(txt)
                for w in found[:1]: rep.violation('stuck/' + w.split(' (')[0], '%s: %s with arguments (%s)%s: the loop in %s comes back to the state it started from' % (cfg, MODS[cfg].fns[t[1]].norm[:120], ', '.join(show(a) if isinstance(a, T) else str(a) for a in t[3]), ' on %s' % t[2] if t[2] else '', w))
            ts = ftasks(cfg)
            for t, r in zip(ts, P.imap(frun, ts, chunksize=8)):
                rep.count('function_cases')
                if r[0] == 'undec': rep.undecided(r[1])
                else: rep.count('paths', len(r[1]))
                if r[2]: rep.violation('stuck/' + r[2].split(' (')[0], '%s: %s(%s): the loop in %s comes back to the state it started from' % (cfg, MODS[cfg].fns[t[1]].norm[:120], abtext(t[2], plist(MODS[cfg], MODS[cfg].fns[t[1]])[1]), r[2]))
    rep.need('loops', 250); rep.need('recursive_cycles', 12); rep.need('method_cases', 1000); rep.need('function_cases', 300)
    return rep.finish('Every natural loop of the current sources is given a progress argument (scalar evolution, or a stepped variable tested on every way round). Every cycle of the call graph is interpreted for all classes of number and listed integers. '
                      'Methods and functions with machine arguments are interpreted for extreme values; a loop that returns to its first state with no way out is reported. Loops or cases without an argument either way are counted as undecided.')


if __name__ == '__main__':
    if len(sys.argv) > 2:
        for cfg in sys.argv[2:]:
            for r in loops(cfg):
                if r[4] != 'ok' or os.environ.get('ALL'): print(r)
    else: report.main(check)
