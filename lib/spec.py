"""Mathematical class tables of the real functions (what a correct implementation may return)."""
from terms import *

U = NS | Z | S                  # open unit interval
UC = U | N1 | P1                # closed unit interval
REAL = FIN
NFIN = NL | N1 | NS
PFIN = S | P1 | L

def tab(**k):
    """Build {class bit: mask} from named groups."""
    names = dict(nan=NAN, ninf=NINF, nl=NL, n1=N1, ns=NS, z=Z, s=S, p1=P1, l=L, pinf=PINF)
    r = {}
    for a, m in k.items(): r[names[a]] = m
    for b in bits(ALL): r.setdefault(b, ALL)
    return r

UN = {
    'fabs': tab(nan=NAN, ninf=PINF, nl=L, n1=P1, ns=S, z=Z, s=S, p1=P1, l=L, pinf=PINF),
    'floor': tab(nan=NAN, ninf=NINF, nl=NL | N1, n1=N1, ns=N1, z=Z, s=Z, p1=P1, l=P1 | L, pinf=PINF),
    'ceil': tab(nan=NAN, ninf=NINF, nl=NL | N1, n1=N1, ns=Z, z=Z, s=P1, p1=P1, l=P1 | L, pinf=PINF),
    'integer_part': tab(nan=NAN, ninf=NINF, nl=NL | N1, n1=N1, ns=Z, z=Z, s=Z, p1=P1, l=P1 | L, pinf=PINF),
    'decimal_part': tab(nan=NAN, ninf=ALL, nl=NS | Z, n1=Z, ns=NS, z=Z, s=S, p1=Z, l=S | Z, pinf=ALL),
    'inv': tab(nan=NAN, ninf=Z, nl=NS | N1 | Z, n1=N1, ns=NL | N1 | NINF, z=INF, s=L | P1 | PINF, p1=P1, l=S | P1 | Z, pinf=Z),
    'sqrt': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN, ns=NAN, z=Z, s=S | P1, p1=P1, l=L | P1, pinf=PINF),
    'exp': tab(nan=NAN, ninf=Z, nl=S | Z, n1=S, ns=S | P1, z=P1, s=L | P1, p1=L, l=L | PINF, pinf=PINF),
    'log': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN, ns=NAN, z=NINF, s=NL | N1 | NS | Z, p1=Z, l=S | P1 | L | Z, pinf=PINF),
    'sin': tab(nan=NAN, ninf=NAN, nl=UC, n1=NS, ns=NS, z=Z, s=S, p1=S, l=UC, pinf=NAN),
    'cos': tab(nan=NAN, ninf=NAN, nl=UC, n1=S, ns=S | P1, z=P1, s=S | P1, p1=S, l=UC, pinf=NAN),
    'tan': tab(nan=NAN, ninf=NAN, nl=FIN | INF, n1=NL, ns=NEG & ~NINF, z=Z, s=POS & ~PINF, p1=L, l=FIN | INF, pinf=NAN),
    'csc': tab(nan=NAN, ninf=NAN, nl=ALL & ~NAN & ~U, n1=NL, ns=NEG, z=INF, s=POS, p1=L, l=ALL & ~NAN & ~U, pinf=NAN),
    'sec': tab(nan=NAN, ninf=NAN, nl=ALL & ~NAN & ~U, n1=L, ns=L | P1, z=P1, s=L | P1, p1=L, l=ALL & ~NAN & ~U, pinf=NAN),
    'cot': tab(nan=NAN, ninf=NAN, nl=FIN | INF, n1=NS, ns=NEG, z=INF, s=POS, p1=S, l=FIN | INF, pinf=NAN),
    'asin': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NL, ns=NFIN, z=Z, s=PFIN, p1=L, l=NAN, pinf=NAN),
    'acos': tab(nan=NAN, ninf=NAN, nl=NAN, n1=L, ns=L, z=L, s=S | P1 | L | Z, p1=Z, l=NAN, pinf=NAN),
    'atan': tab(nan=NAN, ninf=NL, nl=NFIN, n1=NS, ns=NS, z=Z, s=S, p1=S, l=PFIN, pinf=L),
    'sinh': tab(nan=NAN, ninf=NINF, nl=NL | NINF, n1=NL, ns=NFIN | Z, z=Z, s=PFIN | Z, p1=L, l=L | PINF, pinf=PINF),
    'cosh': tab(nan=NAN, ninf=PINF, nl=L | PINF, n1=L, ns=L | P1, z=P1, s=L | P1, p1=L, l=L | PINF, pinf=PINF),
    'tanh': tab(nan=NAN, ninf=N1, nl=NS | N1, n1=NS, ns=NS | Z, z=Z, s=S | Z, p1=S, l=S | P1, pinf=P1),
    'asinh': tab(nan=NAN, ninf=NINF, nl=NFIN, n1=NS, ns=NS | Z, z=Z, s=S | Z, p1=S, l=PFIN, pinf=PINF),
    'acosh': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN, ns=NAN, z=NAN, s=NAN, p1=Z, l=PFIN | Z, pinf=PINF),
    'atanh': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN | NINF, ns=NFIN | Z, z=Z, s=PFIN | Z, p1=NAN | PINF, l=NAN, pinf=NAN),
    'cbrt': tab(nan=NAN, ninf=NINF | NAN, nl=NL | N1 | NAN, n1=N1 | NAN, ns=NS | N1 | NAN, z=Z, s=S | P1, p1=P1, l=L | P1, pinf=PINF),
    'log10': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN, ns=NAN, z=NINF, s=NFIN | Z, p1=Z, l=PFIN | Z, pinf=PINF),
    'log1p': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NINF | NAN, ns=NFIN | Z, z=Z, s=S | Z, p1=S, l=PFIN, pinf=PINF),
    'log1p1m2': tab(nan=NAN, ninf=NAN, nl=NAN, n1=NAN | NINF, ns=NFIN | Z, z=Z, s=PFIN | Z, p1=NAN | PINF, l=NAN, pinf=NAN),
    'gamma': tab(nan=NAN, ninf=NAN, nl=ALL, n1=NAN, ns=NL | NINF, z=NAN, s=L | PINF, p1=P1, l=PFIN | PINF, pinf=PINF),
}
PARITY = {'odd': ['sin', 'tan', 'csc', 'cot', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'atanh'], 'even': ['cos', 'sec', 'cosh', 'fabs']}

def unary(name, m):
    t = UN[name]; r = 0
    for b in bits(m): r |= t[b]
    return r


# ---------------------------------------------------------------- two arguments
def pow2arg(x, a):
    """Allowed classes of x^a for single classes x, a."""
    if (x | a) & NAN: return NAN
    if a == P1: return x
    if a == Z: return P1 if x & FIN & ~Z else P1 | NAN
    if x == Z:
        if a & POS: return Z
        return INF
    if x == P1: return P1 if a & FIN else P1 | NAN
    if x == PINF: return PINF if a & POS else Z
    if a & INF:
        if x & (NAN | NINF | N1): return ALL
        small = x & (S | NS); up = a == PINF
        r = Z if (small != 0) == up else PINF
        return r if x & POS else r | NAN | INF
    if x & POS:
        grow = (x == L) == bool(a & POS)
        return P1 | L | PINF if grow else P1 | S | Z
    if x == NINF: return (INF | NAN) if a & POS else Z | NAN
    # negative finite base
    if a & (S | NS): return NAN
    if x == N1: return N1 if a == N1 else N1 | P1 | NAN
    if a == N1: return unary('inv', x)
    grow = (x == NL) == bool(a & POS)
    m = P1 | L | PINF if grow else P1 | S | Z
    return m | c_neg(m) | NAN


def atan2arg(y, x):
    if (x | y) & NAN: return NAN
    if x & INF and y & INF: return FIN | NAN
    if y & INF: return L if y == PINF else NL
    if x == PINF: return Z
    if x == NINF: return L if y & (POS | Z) else NL
    if y == Z:
        return Z if x & POS else L if x & NEG else Z | NAN
    if x == Z: return L if y & POS else NL
    if x & POS: return PFIN | Z if y & POS else NFIN | Z
    return L if y & POS else NL


def rootn_arg(p):
    """Class table of the p-th root, p given as -k, +k by parity and sign; None for p = 0."""
    if p == 0: return {b: NAN for b in bits(ALL)}
    if p < 0:
        t = rootn_arg(-p)
        r = {}
        for b in bits(ALL):
            r[b] = c_div(P1, t[b])
        r[NINF] |= NAN; r[Z] = INF | NAN
        return r
    if p == 1: return {b: b | (NAN if b & NEG else 0) for b in bits(ALL)}
    if p % 2 == 0: return UN['sqrt']
    return UN['cbrt']


def loga_arg(b, x):
    if (b | x) & NAN: return NAN
    if b & NEG or x & NEG: return NAN
    return c_div(unary('log', x), unary('log', b)) | ALL if (b | x) & (INF | Z) else c_div(unary('log', x), unary('log', b))


def fmod_arg(v, m):
    if (v | m) & NAN: return NAN
    return ALL
