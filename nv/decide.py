"""Decision of value templates against their specification.

Proof domains: polynomial normal form with rounding-error coefficients; comparison-only terms over a complete enumeration of
orderings (region abstraction); unary region specialisation followed by the polynomial domain.
Refutation: a template is reported only when its exact value on a region representative contradicts the specification.
"""
import itertools, struct
import numpy as np
from fractions import Fraction
from . import pool as P
from .tmpl import UROUND

DT = {'f': np.float32, 'd': np.float64}
MINNORM = {'f': 2.0 ** -126, 'd': 2.0 ** -1022}
RCP_NOISE = 1.5 * 2.0 ** -12


class Verdict:
    __slots__ = ('st', 'why', 'dom')

    def __init__(s, st, why='', dom=''): s.st = st; s.why = why; s.dom = dom


PROVED = 'proved'; BAD = 'violated'; OPEN = 'undecided'

# ------------------------------------------------------------------------------------------------ polynomial normal form
ONE = ()


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if d[k] == 0: del d[k]
    return tuple(sorted(d.items(), key=lambda z: str(z[0])))


def pmul(A, B, num=Fraction):
    r = {}
    for ma, ca in A.items():
        for mb, cb in B.items():
            m = mmul(ma, mb); r[m] = r.get(m, 0) + ca * cb
    return {k: v for k, v in r.items() if v}


def padd(A, B, s=1):
    r = dict(A)
    for k, v in B.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]: del r[k]
    return r


def pabs(A): return {k: abs(float(v)) for k, v in A.items()}


def perr(val, e, ty):
    """add one rounding of the computed value"""
    u = UROUND[ty]
    r = dict(e)
    for k, v in pabs(val).items(): r[k] = r.get(k, 0.0) + u * v
    for k, v in e.items(): r[k] = r.get(k, 0.0) + u * v
    return r


def eadd(*es):
    r = {}
    for e in es:
        for k, v in e.items(): r[k] = r.get(k, 0.0) + v
    return r


def emax(a, b):
    r = dict(a)
    for k, v in b.items(): r[k] = max(r.get(k, 0.0), v)
    return r


_poly = {}


def poly(t):
    """(value, error) or None"""
    if t in _poly: return _poly[t]
    st = [t]
    while st:
        x = st[-1]
        if x in _poly: st.pop(); continue
        op, ty, c, a = P.NODES[x]
        if ty in ('f', 'd') or op == 'bitcast':
            need = [y for y in a if y not in _poly and P.NODES[y][1] in ('f', 'd')]
            if need: st += need; continue
        _poly[x] = _poly1(op, ty, c, a, x); st.pop()
    return _poly[t]


def signflip(t):
    """t = bitcast(xor(bitcast y, signmask)) -> y"""
    op, ty, c, a = P.NODES[t]
    if op != 'bitcast' or ty not in ('f', 'd'): return None
    o2, t2, c2, a2 = P.NODES[a[0]]
    if o2 != 'xor': return None
    for i in (0, 1):
        k = P.NODES[a2[i]]; z = P.NODES[a2[1 - i]]
        if k[0] == 'const' and k[2] == 1 << (P.width(ty) - 1) and z[0] == 'bitcast' and P.NODES[z[3][0]][1] == ty: return z[3][0]
    return None


def _poly1(op, ty, c, a, x):
    if ty not in ('f', 'd'): return None
    if op == 'leaf': return ({((x, 1),): Fraction(1)}, {})
    if op == 'const':
        v = P.constval(x)
        if v != v or abs(v) == float('inf'): return None
        return ({ONE: Fraction(v)} if v else {}, {})
    if op == 'bitcast':
        y = signflip(x)
        if y is None: return None
        p = poly(y)
        return p and ({k: -v for k, v in p[0].items()}, p[1])
    if op == 'select':
        p, q = _poly.get(a[1]), _poly.get(a[2])
        if p and q and p[0] == q[0]: return (p[0], emax(p[1], q[1]))
        return None
    L = [_poly.get(y) for y in a]
    if any(l is None for l in L): return None
    if op == 'fneg': return ({k: -v for k, v in L[0][0].items()}, L[0][1])
    if op == 'fpext': return L[0]
    if op == 'fptrunc': return (L[0][0], perr(L[0][0], L[0][1], 'f'))
    if op in ('fadd', 'fsub'):
        v = padd(L[0][0], L[1][0], 1 if op == 'fadd' else -1); e = eadd(L[0][1], L[1][1])
        if (not L[0][0] and not L[0][1]) or (not L[1][0] and not L[1][1]): return (v, e)
        return (v, perr(v, e, ty))
    if op in ('fmul', 'fma'):
        A, B = L[0], L[1]
        v = pmul(A[0], B[0])
        e = {}
        if A[1]: e = eadd(e, pmul(A[1], pabs(B[0])))
        if B[1]: e = eadd(e, pmul(B[1], pabs(A[0])))
        if A[1] and B[1]: e = eadd(e, pmul(A[1], B[1]))
        if op == 'fma':
            v = padd(v, L[2][0]); e = eadd(e, L[2][1])
            return (v, perr(v, e, ty))
        return (v, perr(v, e, ty))
    if op == 'fdiv':
        A, B = L
        if len(B[0]) == 1 and not B[1]:
            (m, k), = B[0].items()
            inv = {tuple((l, -e) for l, e in m): 1 / k}
            v = pmul(A[0], inv); e = pmul(A[1], pabs(inv)) if A[1] else {}
            return (v, perr(v, e, ty))
        if B[0] and not B[1]:
            atom = ('recip', frozenset(B[0].items()))
            inv = {((atom, 1),): Fraction(1)}
            v = pmul(A[0], inv); e = pmul(A[1], pabs(inv)) if A[1] else {}
            return (v, perr(v, e, ty))
        return None
    if op == 'rcp':
        A, = L
        if len(A[0]) == 1 and not A[1]:
            (m, k), = A[0].items()
            inv = tuple((l, -e) for l, e in m)
            return ({inv: 1 / k, mmul(inv, ((('noise', x), 1),)): 1 / k}, {})
        return None
    if op == 'sqrt':
        A, = L
        if A[1]: return None
        return ({((('sqrt', frozenset(A[0].items())), 1),): Fraction(1)}, {((('sqrt', frozenset(A[0].items())), 1),): UROUND[ty]})
    return None


def settle_noise(p):
    """move noise monomials of reciprocal approximations into the error"""
    v, e = {}, dict(p[1])

    def strip(m):
        k = 1.0; r = []
        for l, ex in m:
            if isinstance(l, tuple) and l[0] == 'noise': k *= RCP_NOISE ** ex
            else: r.append((l, ex))
        return tuple(r), k
    for m, c in p[0].items():
        r, k = strip(m)
        if r == m: v[m] = c
        else: e[r] = e.get(r, 0.0) + abs(float(c)) * k
    e2 = {}
    for m, c in e.items():
        r, k = strip(m); e2[r] = e2.get(r, 0.0) + c * k
    return v, e2


def poly_proves(t, spec, mag, ty, ulps=16.0, rel=None):
    """spec: exact polynomial; mag: magnitude polynomial the rounding may be proportional to; rel: relative error instead of ulps*u"""
    p = poly(t)
    if p is None: return None
    v, e = settle_noise(p)
    if v != spec: return False
    lim = rel if rel is not None else ulps * UROUND[ty]
    for m, c in e.items():
        if c > lim * mag.get(m, 0.0): return None
    return True


# ------------------------------------------------------------------------------------------------ region abstraction
def cast(vals, ty): return np.array(vals, dtype=np.float64).astype(DT[ty])


def nxt(x, ty, k=1):
    x = DT[ty](x)
    for _ in range(abs(k)): x = np.nextafter(x, DT[ty](np.inf if k > 0 else -np.inf))
    return x


def special(ty):
    tiny = float(np.finfo(DT[ty]).tiny); mx = float(np.finfo(DT[ty]).max); den = float(np.nextafter(DT[ty](0), DT[ty](1)))
    return [0.0, den, den * 3, tiny / 2, float(nxt(tiny, ty, -1)), tiny, float(nxt(tiny, ty)), tiny * 4, mx / 4, float(nxt(mx, ty, -1)), mx, float('inf')]


def consts_of(t, ty):
    """floating constants and bit-pattern constants occurring in a term, as finite magnitudes"""
    r = set()
    for x in P.subterms(t):
        op, tt, c, a = P.NODES[x]
        if op == 'const':
            if tt == ty: v = P.constval(x)
            elif tt == 'i%d' % P.width(ty):
                v = struct.unpack('<f' if ty == 'f' else '<d', struct.pack('<I' if ty == 'f' else '<Q', c))[0]
            elif tt in ('f', 'd'): v = P.constval(x)
            else: continue
            if v == v: r.add(abs(v))
    return r


def reps(ty, cs=(), dense=3, extra=(), nan=True, neg=True):
    """representatives of every region cut out by the constants cs, both signs, with `dense` distinct values strictly between neighbours"""
    pts = sorted({float(DT[ty](abs(c))) for c in list(cs) + special(ty) if c == c} | {1.0})
    out = []
    for a, b in zip(pts, pts[1:]):
        out.append(a)
        # strictly between
        ba, bb = bits(a, ty), bits(b, ty)
        if bb - ba <= dense + 1: out += [unbits(k, ty) for k in range(ba + 1, bb)]
        else:
            for j in range(dense): out.append(unbits(ba + 1 + (bb - ba - 2) * j // max(1, dense - 1), ty))
    out.append(pts[-1])
    out = sorted(set(out) | {float(DT[ty](abs(e))) for e in extra})
    if neg: out = [-x for x in reversed(out)] + out
    arr = np.array(out, dtype=DT[ty])
    if nan: arr = np.concatenate([arr, np.array([np.nan], dtype=DT[ty])])
    return arr


def bits(x, ty): return struct.unpack('<I' if ty == 'f' else '<Q', struct.pack('<f' if ty == 'f' else '<d', x))[0]


def unbits(b, ty): return struct.unpack('<f' if ty == 'f' else '<d', struct.pack('<I' if ty == 'f' else '<Q', b))[0]


def product(arrs):
    g = np.meshgrid(*arrs, indexing='ij')
    return [x.reshape(-1).copy() for x in g]


def run(t, leafvals, undef=0):
    """leafvals: {leaf node: array}; missing leaves -> NoEval"""
    return P.evaluate([t], dict(leafvals), undef)[0]


ORDER_OPS = {'leaf', 'const', 'select', 'folt', 'fole', 'foeq', 'funo', 'not', 'and', 'or', 'xor', 'bitcast', 'fneg', 'fabs', 'minps', 'maxps', 'minnum', 'maxnum', 'sext', 'zext', 'copysign'}


def order_only(t, ty):
    """value touched only through comparisons, sign manipulation and selection -> a finite set of orderings decides it"""
    w = P.width(ty); masks = {0, 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - 1}
    for x in P.subterms(t):
        op, tt, c, a = P.NODES[x]
        if op == 'slt':         # sign-bit test
            k = P.NODES[a[1]]
            if k[0] == 'const' and k[2] == 0: continue
            return False
        if op == 'fsub':
            z = P.NODES[a[0]]
            if z[0] == 'const' and z[2] in (0, 1 << (w - 1)): continue
            return False
        if op not in ORDER_OPS: return False
        if op == 'const' and tt[0] == 'i' and tt != 'i1' and c not in masks:
            # bit pattern of a float constant selected by a mask is fine
            continue
    return True


def witness(leafs, env, k, got, exp):
    names = ', '.join('%s=%r' % ('.'.join(map(str, P.NODES[l][2])) if isinstance(P.NODES[l][2], tuple) else P.NODES[l][2], env[l][k].item()) for l in leafs)
    return '%s -> %r instead of %s' % (names, got[k].item(), exp)


# ------------------------------------------------------------------------------------------------ specifications
def X(p, ty): return P.leaf(('x', p), ty)


def arith_spec(fn, ar, lf):
    """polynomial over the leaves lf (list of polynomials per position) and magnitude polynomial"""
    x = lf

    def mul(*q):
        r = {ONE: Fraction(1)}
        for z in q: r = pmul(r, z)
        return r
    one = {ONE: Fraction(1)}
    if fn == 'plus': s = padd(x[0], x[1])
    elif fn == 'minus': s = padd(x[0], x[1], -1)
    elif fn == 'times': s = mul(x[0], x[1])
    elif fn == 'over':
        if len(x[1]) == 1:
            (m, k), = x[1].items(); s = mul(x[0], {tuple((l, -e) for l, e in m): 1 / k})
        else: s = mul(x[0], {((('recip', frozenset(x[1].items())), 1),): Fraction(1)})
    elif fn == 'square': s = mul(x[0], x[0])
    elif fn == 'cube': s = mul(x[0], x[0], x[0])
    elif fn == 'muladd': s = padd(mul(x[0], x[1]), x[2])
    elif fn == 'ampmod': s = mul(x[0], padd(one, mul(x[1], x[2])))
    elif fn == 'mix': s = padd(mul(x[0], x[1]), mul(x[2], x[3]))
    elif fn == 'sum':
        s = {}
        for z in x: s = padd(s, z)
    elif fn == 'reciprocal':
        (m, k), = x[0].items(); s = {tuple((l, -e) for l, e in m): 1 / k}
    else: raise KeyError(fn)
    return s, pabs(s)


LD = np.longdouble


def polyval(s, env):
    """value and magnitude of polynomial s at arrays env[leaf]"""
    tot = None; mag = None
    for m, c in s.items():
        v = LD(c.numerator) / LD(c.denominator)
        for l, e in m:
            b = env[l].astype(LD)
            for _ in range(abs(e)): v = v * b if e > 0 else v / b
        tot = v if tot is None else tot + v
        mag = abs(v) if mag is None else mag + abs(v)
    n = len(next(iter(env.values())))
    if tot is None: tot = np.zeros(n, LD); mag = np.zeros(n, LD)
    return tot + np.zeros(n, LD), mag + np.zeros(n, LD)


GRID = [0.0, 1.0, 0.3333333, 2.7182817, -1.0, -0.7, 1.0000001, 123.456, -98765.43, 3e-3, -2.5e-5, 1.1e7, 6.5e8, -7.7e-9, 0.5, -2.0]


def grid(k):
    if k <= 2: return GRID
    if k == 3: return GRID[:13]
    if k == 4: return GRID[1:10] + [0.0]
    if k <= 6: return [1.0, -0.7, 2.7182817, 123.456, 3e-3]
    return [1.0, -0.7, 2.7182817]


def arith_verdict(fn, ar, t, ty, leafpolys, leafs, ulps=16.0, rel=None, extra_mag=1.0):
    s, mag = arith_spec(fn, ar, leafpolys)
    r = poly_proves(t, s, {k: v * extra_mag for k, v in mag.items()}, ty, ulps, rel)
    if r: return Verdict(PROVED, dom='polynomial')
    und = [l for l in P.leaves(t) if l not in leafs]
    if und: return Verdict(OPEN, 'depends on %s' % ', '.join(P.show(l) for l in und))
    # refutation on representatives
    lim = rel * 1.25 if rel is not None else ulps * UROUND[ty] * extra_mag
    base = list(grid(len(leafs)))
    cs = sorted(c for c in consts_of(t, ty) if 1e-30 < c < 1e30)
    for attempt in range(2):
        vals = base if attempt == 0 else None
        if attempt == 1:
            if len(leafs) > 4: break
            more = []
            for c in cs[:12]: more += [c, -c, float(nxt(c, ty)), float(nxt(c, ty, -1)), -float(nxt(c, ty)), 1.5 * c, -1.5 * c]
            big = [2.0 ** 20, -2.0 ** 31, 2.0 ** 52, 1e18, 1e-18, -1e-12, 2.0 ** 63, 1e30 if fn in ('plus', 'minus', 'sum') else 1e9] + [4.0, 10.0, 16.0, -100.0, 255.0, 256.0, 1000.0]
            if len(leafs) > 1 and len(leafs) <= 2: vals = base + more + big
            elif len(leafs) == 1: vals = base + more + big + [float(x) for x in np.geomspace(1e-12, 1e12, 200)] + [-float(x) for x in np.geomspace(1e-12, 1e12, 200)]
            else: vals = [1.0, -0.7, 123.456] + more[:10] + [2.0 ** 20, 1e-6]
            if len(leafs) == 4: vals = vals[:9]
        arrs = product([cast(vals, ty)] * len(leafs))
        env = dict(zip(leafs, arrs))
        try: got = run(t, env)
        except P.NoEval as e: return Verdict(OPEN, 'no evaluation of %s' % e)
        with np.errstate(all='ignore'):
            exp, mg = polyval(s, env)
            ok = np.isfinite(exp) & np.isfinite(mg) & (mg < LD(2.0) ** (100 if ty == 'f' else 900))
            if fn in ('over', 'reciprocal'): ok &= (env[leafs[-1]] != 0) if fn == 'over' else (env[leafs[0]] != 0)
            d = abs(got.astype(LD) - exp)
            bad = ok & ~(d <= LD(lim) * mg + LD(MINNORM[ty]) * 64)
        if bad.any():
            k = int(np.argmax(bad)); return Verdict(BAD, witness(leafs, env, k, got, '%.9g' % float(exp[k])), 'representative')
    if r is False: return Verdict(OPEN, 'polynomial differs but no witness')
    return Verdict(OPEN, 'outside the polynomial domain')


# single-operation functions are checked over the whole range, extreme values included
EXTREME = {'plus': np.add, 'minus': np.subtract, 'times': np.multiply, 'over': np.divide, 'square': lambda a: a * a}


def extreme_verdict(fn, t, ty, leafs):
    v = reps(ty, [1e10, 1e-10, 1.5, 3e5], dense=1)
    env = dict(zip(leafs, product([v] * len(leafs))))
    try: got = run(t, env)
    except P.NoEval: return Verdict(OPEN)
    with np.errstate(all='ignore'):
        exp = EXTREME[fn](*[env[l] for l in leafs])
        u = LD(UROUND[ty])
        same = (got == exp) | (np.isnan(got) & np.isnan(exp))
        near = np.isfinite(exp) & np.isfinite(got) & (abs(got.astype(LD) - exp.astype(LD)) <= 8 * u * abs(exp.astype(LD)) + LD(float(np.nextafter(DT[ty](0), DT[ty](1)))) * 8)
        bad = ~(same | near)
    if bad.any():
        k = int(np.argmax(bad)); return Verdict(BAD, witness(leafs, env, k, got, repr(exp[k].item())), 'extreme value')
    return Verdict(PROVED)


def o_min(a, b): return np.minimum(a, b)


def order_oracle(fn, ty):
    tiny = DT[ty](np.finfo(DT[ty]).tiny)
    one, zero = DT[ty](1), DT[ty](0)

    def b(c): return np.where(c, one, zero)
    T = {
        'min': (2, lambda a, c: (np.minimum(a, c), ~(np.isnan(a) | np.isnan(c)), 'v')),
        'max': (2, lambda a, c: (np.maximum(a, c), ~(np.isnan(a) | np.isnan(c)), 'v')),
        'less': (2, lambda a, c: (b(a < c), True, 'b')), 'less_equal': (2, lambda a, c: (b(a <= c), True, 'b')),
        'greater': (2, lambda a, c: (b(a > c), True, 'b')), 'greater_equal': (2, lambda a, c: (b(a >= c), True, 'b')),
        'equal': (2, lambda a, c: (b(a == c), True, 'b')), 'notequal': (2, lambda a, c: (b(a != c), True, 'b')),
        'clip': (3, lambda a, lo, hi: (np.minimum(np.maximum(a, lo), hi), ~(np.isnan(a) | np.isnan(lo) | np.isnan(hi)) & (lo <= hi), 'v')),
        'clip2': (2, lambda a, l: (np.minimum(np.maximum(a, -l), l), ~(np.isnan(a) | np.isnan(l)) & (l >= 0), 'v')),
        'abs': (1, lambda a: (np.abs(a), True, 'b')),
        'sgn': (1, lambda a: (np.sign(a), ~np.isnan(a), 'v')),
        'undenormalize': (1, lambda a: (np.where(np.abs(a) < tiny, zero, a), True, 'v')),
    }
    return T[fn]


def order_verdict(fn, t, ty, leafs):
    ar, orc = order_oracle(fn, ty)
    if len(set(leafs)) != ar: return Verdict(OPEN, 'aliased arguments')
    und = [l for l in P.leaves(t) if l not in leafs]
    if und: return Verdict(OPEN, 'depends on %s' % ', '.join(P.show(l) for l in und))
    cs = {c for c in consts_of(t, ty) if c != float('inf')}
    v = reps(ty, cs, dense=3 if ar < 3 else 3)
    if ar == 3 and len(v) > 110: v = reps(ty, cs, dense=1)
    if ar == 3 and len(v) > 130: v = v[::2]
    env = dict(zip(leafs, product([v] * ar)))
    try: got = run(t, env)
    except P.NoEval as e: return Verdict(OPEN, 'no evaluation of %s' % e)
    exp, valid, mode = orc(*[env[l] for l in leafs])
    same = ((got == exp) | (np.isnan(got) & np.isnan(exp)))
    if mode == 'b': same &= (np.signbit(got) == np.signbit(exp)) | np.isnan(exp)
    bad = ~same & valid
    if np.any(bad):
        k = int(np.argmax(bad)); return Verdict(BAD, witness(leafs, env, k, got, repr(exp[k].item())), 'ordering')
    if order_only(t, ty): return Verdict(PROVED, dom='all orderings (%d regions)' % len(got))
    return Verdict(OPEN, 'not comparison-only')
