"""Abstract interpretation of univariate value templates with Taylor models.

The argument range is covered by cells [lo, hi] (pairs of representable numbers).  Every node of the term is interpreted over a cell as
  * a polynomial in t = (x-xc)/h of degree K with a remainder interval that contains all rounding errors of the template (float domain),
  * a known bit pattern, the bits of a float-domain value, or its sign+mantissa field (bit domain), or
  * a known truth value.
A cell is discharged when |template - reference| is bounded by the tolerance over the whole cell; otherwise it is bisected, down to single
numbers, for which the domain is exact.  A violation is reported only for a single number whose exact template value misses the tolerance.
"""
import math, os, time
import numpy as np
from . import pool as P

K = 5
U64 = np.uint64
PREC = {'f': 24, 'd': 53}
EMIN = {'f': -149, 'd': -1074}
EMINV = {'f': 3e-45, 'd': 1e-320}
FMAX = {'f': float(np.finfo(np.float32).max), 'd': float(np.finfo(np.float64).max)}
DT = {'f': np.float32, 'd': np.float64}
SLOP = 4e-16
LIBM_ULP = 2.0


class F:
    """float-domain value: coefficients c[(K+1), n], remainder r[n], granularity g[n] (value is a multiple of 2**g)"""
    __slots__ = ('c', 'r', 'g')

    def __init__(s, c, r, g): s.c = c; s.r = r; s.g = g

    def dev(s): return np.abs(s.c[1:]).sum(0) + s.r

    def lohi(s):
        d = s.dev() * (1 + 4e-16) + np.abs(s.c[0]) * 2e-16
        d = np.where((s.r == 0) & ~s.c[1:].any(0), 0.0, d)
        return s.c[0] - d, s.c[0] + d

    def const(s): return (s.r == 0) & ~s.c[1:].any(0) & np.isfinite(s.c[0])


def gran_const(v):
    """largest g with v a multiple of 2**g (float64 input)"""
    m, e = np.frexp(v)
    mi = np.abs(np.ldexp(m, 53)).astype(np.int64)
    low = mi & -mi
    tz = np.where(mi == 0, 0, np.log2(np.where(low == 0, 1, low).astype(np.float64)))
    return np.where(v == 0, 4096.0, e - 53.0 + tz)


def fconst(v):
    v = np.asarray(v, dtype=np.float64)
    c = np.zeros((K + 1, len(v))); c[0] = v
    bad = ~np.isfinite(v)
    return F(np.where(bad, 0, c), np.where(bad, np.inf, 0.0), gran_const(np.where(bad, 0, v)))


def unknown(n): return F(np.zeros((K + 1, n)), np.full(n, np.inf), np.full(n, -5000.0))


def tadd(A, B, s=1.0):
    c = A.c + s * B.c
    r = A.r + B.r
    sl = (np.abs(A.c) + np.abs(B.c)).sum(0) * SLOP
    ex = A.const() & B.const()
    return F(c, r + np.where(ex, 0, sl), np.minimum(A.g, B.g))


def tmul(A, B):
    n = A.c.shape[1]
    c = np.zeros((K + 1, n)); over = np.zeros(n)
    ac = np.abs(A.c); bc = np.abs(B.c)
    an = [bool(x.any()) for x in A.c]; bn = [bool(x.any()) for x in B.c]
    for i in range(K + 1):
        if not an[i]: continue
        for j in range(K + 1):
            if not bn[j]: continue
            if i + j <= K: c[i + j] += A.c[i] * B.c[j]
            else: over += ac[i] * bc[j]
    sa = ac.sum(0); sb = bc.sum(0)
    r = over + z0(sa, B.r) + z0(sb, A.r) + z0(A.r, B.r)
    ex = A.const() & B.const()
    return F(c, r + np.where(ex, 0, sa * sb * (K * SLOP)), A.g + B.g)


def z0(a, b):
    """product with 0*inf = inf unless the first factor is an exact zero with finite partner"""
    with np.errstate(all='ignore'):
        p = a * b
    return np.where(np.isnan(p), np.inf, p)


def horner(coef, D, rem):
    """sum coef[k]*D**k + remainder; D has constant term 0"""
    n = D.c.shape[1]
    acc = fconst(np.where(np.isfinite(coef[-1]), coef[-1], 0.0))
    for k in range(len(coef) - 2, -1, -1):
        acc = tmul(acc, D)
        acc.c = acc.c.copy(); acc.c[0] = acc.c[0] + coef[k]
        acc.r = acc.r + np.abs(acc.c[0]) * SLOP
    bad = ~np.isfinite(acc.c).all(0)
    acc.c = np.where(bad, 0, acc.c)
    acc.r = np.where(bad | ~np.isfinite(rem), np.inf, acc.r + rem)
    acc.g = np.full(n, -5000.0)
    return acc


def centred(A):
    c = A.c.copy(); c0 = c[0].copy(); c[0] = 0
    return c0, F(c, A.r, A.g)


def tinv(A):
    with np.errstate(all='ignore'):
        c0, D = centred(A); q = D.dev() / np.abs(c0)
        ok = (q < 0.9) & np.isfinite(q) & (c0 != 0)
        s = np.where(ok, c0, 1.0)
        co = [(-1.0) ** k / s ** (k + 1) for k in range(K + 1)]
        rem = np.where(ok, q ** (K + 1) / (1 - q) / np.abs(s), np.inf)
        return horner(co, D, np.where(np.isnan(rem), np.inf, rem))


def tdiv(A, B): return tmul(A, tinv(B))


def tsqrt(A):
    with np.errstate(all='ignore'):
        c0, D = centred(A); q = D.dev() / c0
        ok = (c0 > 0) & (q < 0.9)
        s = np.where(ok, c0, 1.0)
        b = 1.0; co = []
        for k in range(K + 2):
            co.append(b * np.sqrt(s) / s ** k); b = b * (0.5 - k) / (k + 1)
        rem = np.where(ok, np.abs(co[K + 1]) * (q * s) ** (K + 1) / (1 - q), np.inf)
        return horner(co[:K + 1], D, np.where(np.isnan(rem), np.inf, rem))


def texp(A):
    with np.errstate(all='ignore'):
        c0, D = centred(A); d = D.dev()
        ok = (np.abs(c0) < 700) & (d < 3)
        e = np.exp(np.where(ok, c0, 0.0))
        co = [e / math.factorial(k) for k in range(K + 1)]
        rem = np.where(ok, e * np.exp(np.where(ok, d, 0)) * d ** (K + 1) / math.factorial(K + 1) + e * 4e-16, np.inf)
        return horner(co, D, np.where(np.isnan(rem), np.inf, rem))


def tlog(A):
    with np.errstate(all='ignore'):
        c0, D = centred(A); q = D.dev() / c0
        ok = (c0 > 0) & (q < 0.9)
        s = np.where(ok, c0, 1.0); l = np.log(s)
        co = [l] + [(-1.0) ** (k + 1) / k / s ** k for k in range(1, K + 1)]
        rem = np.where(ok, q ** (K + 1) / (K + 1) / (1 - q) + np.abs(l) * 4e-16, np.inf)
        return horner(co, D, np.where(np.isnan(rem), np.inf, rem))


def tsincos(A):
    with np.errstate(all='ignore'):
        c0, D = centred(A); d = D.dev(); ok = np.abs(c0) < 1e6
        z = np.where(ok, c0, 0.0)
        s, c = np.sin(z), np.cos(z)
        cyc = [s, c, -s, -c]
        rem = np.where(ok & (d < 10), d ** (K + 1) / math.factorial(K + 1) + 1e-15, np.inf)
        rem = np.where(np.isnan(rem), np.inf, rem)
        co = [cyc[k % 4] / math.factorial(k) for k in range(K + 1)]
        co2 = [[c, -s, -c, s][k % 4] / math.factorial(k) for k in range(K + 1)]
        return horner(co, D, rem), horner(co2, D, rem)


def tscale(A, k, off=0.0):
    c = A.c * k; c[0] = c[0] + off
    return F(c, A.r * abs(k) + (np.abs(c).sum(0) + abs(off)) * SLOP, np.full(len(A.r), -5000.0))


def integrate(A, X, f0):
    """antiderivative along X (affine in t) with value f0 at t=0"""
    h = X.c[1]
    c = np.zeros_like(A.c); c[0] = f0
    for k in range(K): c[k + 1] = A.c[k] * h / (k + 1)
    r = np.abs(A.c[K]) * np.abs(h) / (K + 1) + z0(np.abs(h), A.r) + np.abs(f0) * 4e-16
    return F(c, r, np.full(len(r), -5000.0))


def monotone(f, lo, hi):
    a, b = f(lo), f(hi)
    return F(np.concatenate([((a + b) / 2)[None], np.zeros((K, len(a)))]), np.abs(b - a) / 2 + (np.abs(a) + np.abs(b)) * 4e-16, np.full(len(a), -5000.0))


def better(A, B):
    w = ~(A.r <= B.r)
    return F(np.where(w, B.c, A.c), np.where(w, B.r, A.r), np.full(len(w), -5000.0))


# ------------------------------------------------------------------------------------------------ rounding
def ulp_exp(v, ty):
    """exponent of the unit in the last place of |v|"""
    m, e = np.frexp(np.where(np.isfinite(v), np.abs(v), 1.0))
    return np.maximum(np.where(v == 0, -5000.0, e - PREC[ty]).astype(np.float64), EMIN[ty])


def rounded(A, ty, cexact=None, extra=0.0):
    """A: exact result of the operation on the operand values; cexact: (mask, value) cells where both operands are constants"""
    lo, hi = A.lohi()
    mx = np.maximum(np.abs(lo), np.abs(hi))
    bad = ~(mx <= FMAX[ty]) | ~np.isfinite(A.r)
    p = PREC[ty]
    with np.errstate(all='ignore'):
        exact = (mx <= np.ldexp(1.0, np.clip(p + A.g, -1000, 1000).astype(int))) & (A.g >= EMIN[ty])
        if ty == 'f':
            rl, rh = lo.astype(np.float32).astype(np.float64), hi.astype(np.float32).astype(np.float64)
            same = (rl == rh) & ~exact
        else: same = np.zeros(len(lo), bool); rl = lo
        half = np.ldexp(0.5, np.clip(ulp_exp(mx, ty), -1074, 1000).astype(int))
        mn = np.where((lo > 0) | (hi < 0), np.minimum(np.abs(lo), np.abs(hi)), 0.0)
        g2 = np.where(mn > 0, ulp_exp(mn, ty), EMIN[ty])
    r = np.where(exact, A.r, A.r + half * (1 + 1e-9) * (1 + 2 * extra))
    g = np.where(exact, A.g, np.maximum(A.g, g2))
    c = A.c
    if same.any():
        c = np.where(same, 0, c); c[0] = np.where(same, rl, A.c[0]); r = np.where(same, 0, r); g = np.where(same, gran_const(np.where(same, rl, 0)), g)
    if cexact is not None and cexact[0].any():
        k, v = cexact
        c = np.where(k, 0, c); c[0] = np.where(k, v, c[0]); r = np.where(k, 0, r); g = np.where(k, gran_const(np.where(k, v, 0)), g); bad = np.where(k, ~np.isfinite(v), bad)
    return F(np.where(bad, 0, c), np.where(bad, np.inf, r), np.where(bad, -5000.0, g))


# ------------------------------------------------------------------------------------------------ bit domain
CONST, BITS, MANT, UNK = 0, 1, 2, 3


class B:
    """bit-domain value: mode[n]; val[n] for CONST; f (F) for BITS/MANT"""
    __slots__ = ('mode', 'val', 'f')

    def __init__(s, mode, val, f): s.mode = mode; s.val = val; s.f = f


class Tri:
    __slots__ = ('k', 'v')

    def __init__(s, k, v): s.k = k; s.v = v


def fwhere(m, A, Bb):
    if A is None: return Bb
    if Bb is None: return A
    return F(np.where(m, A.c, Bb.c), np.where(m, A.r, Bb.r), np.where(m, A.g, Bb.g))


def sign_of(A):
    """+1/-1 where the sign is fixed (constants included; a cell touching zero from one side counts as that side), 0 unknown"""
    lo, hi = A.lohi()
    return np.where(~np.isfinite(A.r), 0, np.where(lo > 0, 1, np.where(hi < 0, -1, 0)))


def binade(A):
    lo, hi = A.lohi()
    mn = np.minimum(np.abs(lo), np.abs(hi)); mx = np.maximum(np.abs(lo), np.abs(hi))
    e1 = np.frexp(mn)[1]; e2 = np.frexp(mx)[1]
    ok = np.isfinite(A.r) & (lo * hi > 0) & (e1 == e2)
    return ok, e1           # value in [2^(e-1), 2^e)


class Interp:
    def __init__(s, lo, hi, x, ty, xsign):
        """x: leaf node; lo/hi float64 arrays of representable numbers; xsign: sign bit of the cell (array of +-1)"""
        s.n = len(lo); s.x = x; s.memo = {}
        xc = (lo + hi) / 2; h = (hi - lo) / 2
        c = np.zeros((K + 1, s.n)); c[0] = xc; c[1] = h
        # xc and h are rounded: widen
        r = np.where(lo == hi, 0.0, (np.abs(lo) + np.abs(hi)) * 2.3e-16)
        if ty == 'f': r = np.zeros(s.n)     # midpoints of float32 pairs within a factor 2**28 are exact in double
        if ty == 'f': r = np.where(np.abs(h) > 0, (np.abs(lo) + np.abs(hi)) * 1.2e-16 * (np.maximum(np.abs(lo), np.abs(hi)) > 2.0 ** 27 * np.minimum(np.abs(lo), np.abs(hi))), 0)
        mn = np.minimum(np.abs(lo), np.abs(hi))
        g = np.where(lo * hi > 0, ulp_exp(mn, ty), EMIN[ty])
        g = np.where(lo == hi, gran_const(lo), g)
        s.xf = F(c, r, g); s.xsign = xsign; s.ty = ty; s.lo = lo; s.hi = hi

    def run(s, root):
        st = [root]
        with np.errstate(all='ignore'):
            while st:
                t = st[-1]
                if t in s.memo: st.pop(); continue
                op, ty, c, a = P.NODES[t]
                need = [y for y in a if y not in s.memo]
                if need: st += need; continue
                s.memo[t] = s.op(t, op, ty, c, a, [s.memo[y] for y in a]); st.pop()
        return s.memo[root]

    # -------- float ops
    def fsign(s, t, A):
        """sign of node value, using the known sign bit of the argument"""
        if t == s.x: return s.xsign
        return sign_of(A)

    def op(s, t, op, ty, c, a, v):
        n = s.n
        if op == 'leaf':
            if t != s.x: raise P.NoEval('leaf')
            return s.xf
        if op == 'const':
            if ty in ('f', 'd'): return fconst(np.full(n, P.constval(t)))
            if ty == 'i1': return Tri(np.ones(n, bool), np.full(n, bool(c)))
            return B(np.zeros(n, np.int8), np.full(n, c, U64), None)
        if op == 'undef':
            return unknown(n) if ty in ('f', 'd') else Tri(np.zeros(n, bool), np.zeros(n, bool)) if ty == 'i1' else B(np.full(n, UNK, np.int8), np.zeros(n, U64), None)
        at = P.NODES[a[0]][1] if a else None
        if ty in ('f', 'd'):
            if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                A, C = v
                f = {'fadd': lambda: tadd(A, C), 'fsub': lambda: tadd(A, C, -1.0), 'fmul': lambda: tmul(A, C), 'fdiv': lambda: tdiv(A, C)}[op]
                E_ = f()
                if op == 'fsub' and a[0] == a[1]: E_ = fconst(np.zeros(n))
                k = A.const() & C.const()
                ce = None
                if k.any():
                    x, y = A.c[0].astype(DT[ty]), C.c[0].astype(DT[ty])
                    z = {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide}[op](x, y).astype(np.float64)
                    ce = (k, z)
                return rounded(E_, ty, ce)
            if op == 'fma': return rounded(tadd(tmul(v[0], v[1]), v[2]), ty)
            if op == 'fneg': return F(-v[0].c, v[0].r, v[0].g)
            if op == 'fabs':
                sg = s.fsign(a[0], v[0]); return s.setsign(v[0], sg, 1)
            if op == 'sqrt':
                k = v[0].const(); ce = (k, np.sqrt(v[0].c[0].astype(DT[ty])).astype(np.float64)) if k.any() else None
                return rounded(tsqrt(v[0]), ty, ce)
            if op == 'fpext': return v[0]
            if op == 'fptrunc':
                k = v[0].const(); return rounded(F(v[0].c, v[0].r, v[0].g), 'f', (k, v[0].c[0].astype(np.float32).astype(np.float64)) if k.any() else None)
            if op in ('rint', 'rint_dyn', 'floor', 'ceil', 'ftrunc', 'round'):
                lo, hi = v[0].lohi()
                f = {'rint': np.rint, 'rint_dyn': np.rint, 'floor': np.floor, 'ceil': np.ceil, 'ftrunc': np.trunc, 'round': P.cround}[op]
                l, h = f(lo), f(hi); k = (l == h) & np.isfinite(v[0].r)
                u = unknown(n); z = fconst(np.where(k, l, 0.0))
                return fwhere(k, z, u)
            if op in ('sitofp', 'uitofp'):
                b = v[0]; k = b.mode == CONST
                w = P.width(at); x = (P.sx(b.val, w) if op == 'sitofp' else b.val).astype(DT[ty]).astype(np.float64)
                return fwhere(k, fconst(np.where(k, x, 0.0)), unknown(n))
            if op == 'bitcast':
                return s.tofloat(v[0], ty)
            if op == 'select':
                k = v[0].k; r = fwhere(v[0].v, v[1], v[2])
                same = a[1] == a[2]
                u = unknown(n)
                return r if same else fwhere(k, r, u)
            if op in ('minps', 'maxps', 'minnum', 'maxnum'):
                d = tadd(v[1], v[0], -1.0); lo, hi = d.lohi(); f = np.isfinite(d.r)
                first = (lo > 0) if op.startswith('min') else (hi < 0)
                second = (hi <= 0) if op.startswith('min') else (lo >= 0)
                return fwhere(f & first, v[0], fwhere(f & second, v[1], unknown(n)))
            if op.startswith('call:'): return s.call(op[5:], ty, v, a)
            return unknown(n)
        if ty == 'i1':
            if op in ('folt', 'fole', 'foeq'):
                d = tadd(v[1], v[0], -1.0); lo, hi = d.lohi(); f = np.isfinite(d.r)
                if op == 'folt': yes, no = lo > 0, hi <= 0
                elif op == 'fole': yes, no = lo >= 0, hi < 0
                else: yes, no = (lo == 0) & (hi == 0), (lo > 0) | (hi < 0)
                return Tri(f & (yes | no), yes)
            if op == 'funo': return Tri(np.isfinite(v[0].r) & np.isfinite(v[1].r), np.zeros(n, bool))
            if op == 'not': return Tri(v[0].k, ~v[0].v)
            if op in ('and', 'or', 'xor') and at == 'i1':
                if op == 'and':
                    z = (v[0].k & ~v[0].v) | (v[1].k & ~v[1].v); return Tri(z | (v[0].k & v[1].k), v[0].v & v[1].v & ~z)
                if op == 'or':
                    z = (v[0].k & v[0].v) | (v[1].k & v[1].v); return Tri(z | (v[0].k & v[1].k), v[0].v | v[1].v | z)
                return Tri(v[0].k & v[1].k, v[0].v ^ v[1].v)
            if op == 'select': return Tri(v[0].k & np.where(v[0].v, v[1].k, v[2].k), np.where(v[0].v, v[1].v, v[2].v))
            if op in ('slt', 'ult', 'eq') and isinstance(v[0], B):
                k = (v[0].mode == CONST) & (v[1].mode == CONST)
                r = P._ev(t, op, ty, c, a, [v[0].val, v[1].val], {}, 0, n)
                if op == 'slt':     # sign test of float bits
                    zc = (v[0].mode == BITS) & (v[1].mode == CONST) & (v[1].val == 0)
                    if zc.any():
                        sg = s.bsign(a[0], v[0]); k = k | (zc & (sg != 0)); r = np.where(zc, sg < 0, r)
                return Tri(k, r)
            return Tri(np.zeros(n, bool), np.zeros(n, bool))
        # integers
        if op == 'bitcast' and at in ('f', 'd'):
            A = v[0]; k = A.const() & (A.c[0] != 0) if a[0] != s.x else A.const() & (A.c[0] != 0)
            val = P.tobits(A.c[0].astype(DT[at]), at)
            zero = A.const() & (A.c[0] == 0)
            m = np.where(k, CONST, np.where(np.isfinite(A.r), BITS, UNK)).astype(np.int8)
            if P.NODES[a[0]][0] == 'const': m[:] = CONST; val = np.full(n, P.NODES[a[0]][2], U64)
            b = B(m, np.where(m == CONST, val, U64(0)), A)
            return b
        if op == 'bitcast' : return v[0]
        if op in ('cvtt', 'fptosi', 'cvtn'):
            lo, hi = v[0].lohi(); f = np.trunc if op != 'cvtn' else np.rint
            l, h = f(lo), f(hi); w = P.width(ty)
            k = (l == h) & np.isfinite(v[0].r) & (np.abs(l) < 2.0 ** (w - 1))
            val = np.where(k, l, 0).astype(np.int64).view(U64) & P._mask(w)
            return B(np.where(k, CONST, UNK).astype(np.int8), val, None)
        if op == 'sext' and isinstance(v[0], Tri):
            return B(np.where(v[0].k, CONST, UNK).astype(np.int8), np.where(v[0].v, P._mask(P.width(ty)), U64(0)), None)
        if op == 'zext' and isinstance(v[0], Tri):
            return B(np.where(v[0].k, CONST, UNK).astype(np.int8), np.where(v[0].v, U64(1), U64(0)), None)
        if op == 'select':
            m = np.where(v[0].k, np.where(v[0].v, v[1].mode, v[2].mode), UNK).astype(np.int8)
            return B(m, np.where(v[0].v, v[1].val, v[2].val), fwhere(v[0].v, v[1].f, v[2].f))
        if op in ('and', 'or', 'xor'): return s.bitop(op, ty, a, v)
        if op == 'sub' or op == 'add':
            pass
        if all(isinstance(z, B) for z in v) and op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'sext', 'zext', 'extract', 'concat'):
            k = np.ones(n, bool)
            for z in v: k &= z.mode == CONST
            try: r = P._ev(t, op, ty, c, a, [z.val for z in v], {}, 0, n)
            except P.NoEval: k[:] = False; r = np.zeros(n, U64)
            return B(np.where(k, CONST, UNK).astype(np.int8), np.where(k, r, U64(0)), None)
        return B(np.full(n, UNK, np.int8), np.zeros(n, U64), None)

    def setsign(s, A, sg, want):
        k = sg != 0
        f = np.where(sg * want >= 0, 1.0, -1.0)
        return fwhere(k, F(A.c * f, A.r, A.g), unknown(s.n))

    def bsign(s, node, b):
        """sign of the float whose bits b are"""
        op, ty, c, a = P.NODES[node]
        if op == 'bitcast' and a[0] == s.x: return s.xsign
        return np.where(b.mode == BITS, sign_of(b.f) if b.f is not None else 0, 0)

    def tofloat(s, b, ty):
        n = s.n
        with np.errstate(all='ignore'): x = P.frombits(b.val, ty).astype(np.float64)
        k = b.mode == CONST
        r = fwhere(k, fconst(np.where(k, x, 0.0)), unknown(n))
        if b.f is not None: r = fwhere(b.mode == BITS, b.f, r)
        return r

    def bitop(s, op, ty, a, v):
        n = s.n; w = P.width(ty); M = P._mask(w)
        sb = U64(1 << (w - 1)); ab = U64((1 << (w - 1)) - 1)
        fr = {32: 23, 64: 52}.get(w, 0)
        ex = U64((((1 << (w - 1)) - 1) >> fr << fr)) if fr else U64(0)
        sm = M ^ ex
        A, C = v
        f3 = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[op]
        both = (A.mode == CONST) & (C.mode == CONST)
        mode = np.where(both, CONST, UNK).astype(np.int8); val = np.where(both, f3(A.val, C.val), U64(0)); f = None
        for X, Y, ax in ((A, C, a[0]), (C, A, a[1])):
            yc = Y.mode == CONST
            todo = (mode == UNK) & yc & (X.mode != CONST)

            def put(m, md, vv=None, ff=None):
                nonlocal mode, val, f
                if not m.any(): return
                mode = np.where(m, md, mode).astype(np.int8)
                if vv is not None: val = np.where(m, vv, val)
                if ff is not None: f = fwhere(m, ff, f) if f is not None else fwhere(m, ff, unknown(n))
            if op == 'and':
                put(todo & (Y.val == 0), CONST, np.zeros(n, U64))
                put(todo & (Y.val == M) & (X.mode != UNK), X.mode, None, X.f)
                xb = todo & (X.mode == BITS)
                if xb.any():
                    sg = s.bsign(ax, X)
                    put(xb & (Y.val == sb) & (sg != 0), CONST, np.where(sg < 0, sb, U64(0)))
                    q = xb & (Y.val == ab) & (sg != 0)
                    if q.any(): put(q, BITS, None, s.setsign(X.f, sg, 1))
                    bo, e = binade(X.f)
                    bias = (1 << (w - fr - 2)) - 1
                    nz = e - 1 + bias > 0
                    put(xb & (Y.val == ex) & bo & nz, CONST, (np.clip(e - 1 + bias, 0, None).astype(U64) << U64(fr)))
                    put(xb & (Y.val == sm) & bo & nz, MANT, None, X.f)
            else:
                put(todo & (Y.val == 0) & (X.mode != UNK), X.mode, None, X.f)
                xb = todo & (X.mode == BITS)
                if xb.any():
                    if op == 'xor':
                        q = xb & (Y.val == sb)
                        if q.any(): put(q, BITS, None, F(-X.f.c, X.f.r, X.f.g))
                    else:
                        sg = s.bsign(ax, X); q = xb & (Y.val == sb) & (sg != 0)
                        if q.any(): put(q, BITS, None, s.setsign(X.f, sg, -1))
                xm = todo & (X.mode == MANT)
                if xm.any() and op in ('or', 'xor'):
                    ok = xm & ((Y.val & ~ex) == 0)
                    E2 = (Y.val >> U64(fr)).astype(np.int64)
                    bias = (1 << (w - fr - 2)) - 1
                    ok &= (E2 > 0) & (E2 < 2 * bias + 1)
                    bo, e = binade(X.f)
                    k = np.where(ok, E2 - bias - (e - 1), 0)
                    sc = np.ldexp(1.0, np.clip(k, -1000, 1000).astype(int))
                    put(ok, BITS, None, F(X.f.c * sc, X.f.r * sc, X.f.g + k))
        # combination of two disjoint float selections: or(x & m, y & ~m) has one side CONST 0 and is covered above
        return B(mode, val, f)

    def call(s, nm, ty, v, a):
        n = s.n
        base = nm[:-1] if nm.endswith('f') else nm
        base = base.replace('.', '')
        A = v[0]
        try:
            if base == 'exp': r = texp(A)
            elif base == 'exp2': r = texp(tscale(A, math.log(2)))
            elif base == 'log': r = tlog(A)
            elif base == 'log2': r = tscale(tlog(A), 1 / math.log(2))
            elif base == 'log10': r = tscale(tlog(A), 1 / math.log(10))
            elif base == 'sin': r = tsincos(A)[0]
            elif base == 'cos': r = tsincos(A)[1]
            elif base == 'tan': q = tsincos(A); r = tdiv(q[0], q[1])
            elif base == 'sqrt': r = tsqrt(A)
            elif base == 'pow':
                kb = A.const(); ke = v[1].const()
                if kb.all() and (A.c[0] > 0).all(): r = texp(tmul(v[1], tlog(A)))
                else: r = texp(tmul(v[1], tlog(A)))
            elif base == 'fabs': return s.setsign(A, s.fsign(a[0], A), 1)
            else: return unknown(n)
        except IndexError: return unknown(n)
        # the library function is assumed to be accurate to LIBM_ULP units in the last place; constants stay sound through the remainder
        return rounded(r, ty, None, LIBM_ULP)


# ------------------------------------------------------------------------------------------------ references
LN2 = math.log(2.0); LN10 = math.log(10.0)
SMALL = 0.25


def _series():
    from fractions import Fraction as Q
    N = 14
    sin = [Q((-1) ** k, math.factorial(2 * k + 1)) for k in range(N)]
    cos = [Q((-1) ** k, math.factorial(2 * k)) for k in range(N)]
    atan = [Q((-1) ** k, 2 * k + 1) for k in range(N)]
    asin = [Q(math.factorial(2 * k), 4 ** k * math.factorial(k) ** 2 * (2 * k + 1)) for k in range(N)]
    tan = []
    for k in range(N):      # tan = sin/cos as odd series
        tan.append(sin[k] - sum(tan[j] * cos[k - j] for j in range(k)))
    tanh = [(-1) ** k * c for k, c in enumerate(tan)]
    return {'sin': sin, 'atan': atan, 'asin': asin, 'tan': tan, 'tanh': tanh}


SERIES = _series()


def odd_small(fn, X):
    """f(x) = x * G(x^2) near zero, with a remainder relative to x (all coefficients of G decrease and |x| <= SMALL)"""
    co = SERIES[fn]; N = 10
    Z = tmul(X, X)
    acc = fconst(np.full(X.c.shape[1], float(co[N - 1])))
    for k in range(N - 2, -1, -1):
        acc = tmul(acc, Z); acc.c = acc.c.copy(); acc.c[0] += float(co[k]); acc.r = acc.r + abs(float(co[k])) * SLOP
    acc.r = acc.r + abs(float(co[N])) * SMALL ** (2 * N) * 1.1
    return tmul(X, acc)


def ref_tm(fn, I):
    R = ref_tm0(fn, I)
    if fn in SERIES:
        small = np.maximum(np.abs(I.lo), np.abs(I.hi)) <= SMALL
        if small.any(): R = fwhere(small, odd_small(fn, I.xf), R)
    return R


def ref_tm0(fn, I):
    X = I.xf; lo, hi = I.lo, I.hi
    if fn == 'exp':
        top = lo > 88.7229; bot = hi < -104.0
        Y = fwhere(top | bot, fconst(np.zeros(I.n)), X)
        r = fwhere(top, fconst(np.full(I.n, FMAX['f'])), fwhere(bot, fconst(np.zeros(I.n)), texp(Y)))
        return fwhere((hi > 88.7228) & ~top, unknown(I.n), r)
    if fn == 'log': return tlog(X)
    if fn == 'log2': return tscale(tlog(X), 1 / LN2)
    if fn == 'log10': return tscale(tlog(X), 1 / LN10)
    if fn == 'sin': return tsincos(X)[0]
    if fn == 'cos': return tsincos(X)[1]
    if fn == 'tan': q = tsincos(X); return tdiv(q[0], q[1])
    if fn == 'atan': return better(integrate(tinv(tadd(fconst(np.ones(I.n)), tmul(X, X))), X, np.arctan(X.c[0])), monotone(np.arctan, lo, hi))
    if fn in ('asin', 'acos'):
        sq = tinv(tsqrt(tadd(fconst(np.ones(I.n)), tmul(X, X), -1.0)))
        f = np.arcsin if fn == 'asin' else np.arccos
        g = lambda z: np.where(np.abs(z) <= 1, f(np.clip(z, -1, 1)), 0.0)
        if fn == 'acos': sq = tscale(sq, -1.0)
        r = better(integrate(sq, X, g(X.c[0])), monotone(g, lo, hi))
        out = (lo > 1) | (hi < -1)
        mix = ((lo <= 1) & (hi > 1)) | ((lo < -1) & (hi >= -1))
        r = fwhere(out, fconst(np.zeros(I.n)), r)
        return fwhere(mix, unknown(I.n), r)
    if fn == 'tanh':
        big = np.minimum(np.abs(lo), np.abs(hi)) * (lo * hi > 0) > 25
        Y = fwhere(big, fconst(np.zeros(I.n)), X)
        one = fconst(np.ones(I.n))
        r = tadd(one, tscale(tinv(tadd(texp(tscale(Y, 2.0)), one)), 2.0), -1.0)
        r = better(r, monotone(np.tanh, lo, hi))
        return r
    ab = lambda: I.setsign(X, I.xsign, 1)
    if fn == 'midi2freq': return tscale(texp(tscale(X, LN2 / 12, -69 * LN2 / 12)), 440.0)
    if fn == 'freq2midi': return tscale(tlog(ab()), 12 / LN2, 69 - 12 * math.log2(440.0))
    if fn == 'midi2ratio': return texp(tscale(X, LN2 / 12))
    if fn == 'ratio2midi': return tscale(tlog(X), 12 / LN2)
    if fn == 'oct2freq': return tscale(texp(tscale(X, LN2, -4.75 * LN2)), 440.0)
    if fn == 'freq2oct': return tscale(tlog(ab()), 1 / LN2, 4.75 - math.log2(440.0))
    if fn == 'amp2db': return tscale(tlog(ab()), 20 / LN10)
    if fn == 'db2amp': return texp(tscale(X, LN10 / 20))
    raise KeyError(fn)


def ref_pt(fn, x):
    """point reference in extended precision"""
    ty = 'f' if x.dtype == np.float32 else 'd'
    L = np.longdouble; x = x.astype(L)
    l2 = np.log(L(2)); l10 = np.log(L(10))
    with np.errstate(all='ignore'):
        if fn in ('asin', 'acos'):
            f = np.arcsin if fn == 'asin' else np.arccos
            return np.where(abs(x) <= 1, f(np.clip(x, -1, 1)), L(0))
        if fn == 'exp' and ty == 'f': return np.minimum(np.exp(x), L(FMAX['f']))
        if fn in ('sin', 'cos', 'tan', 'tanh', 'exp', 'log', 'log2', 'log10'): return getattr(np, fn)(x)
        if fn == 'atan': return np.arctan(x)
        if fn == 'midi2freq': return 440 * np.exp((x - 69) / 12 * l2)
        if fn == 'freq2midi': return 69 + 12 * np.log(abs(x) / 440) / l2
        if fn == 'midi2ratio': return np.exp(x / 12 * l2)
        if fn == 'ratio2midi': return 12 * np.log(x) / l2
        if fn == 'oct2freq': return 440 * np.exp((x - L(4.75)) * l2)
        if fn == 'freq2oct': return L(4.75) + np.log(abs(x) / 440) / l2
        if fn == 'amp2db': return 20 * np.log(abs(x)) / l10
        if fn == 'db2amp': return np.exp(x / 20 * l10)
    raise KeyError(fn)


# domain (list of [lo,hi] with their sign), tolerance(lower bound of |ref|, largest |x| of the cell), same on points
def _abs(t): return lambda ref, ax: t + 0 * ref
def _rel(t): return lambda ref, ax: t * ref
def _mix(t): return lambda ref, ax: t * np.maximum(1.0, ref)
def _odd(r, t): return lambda ref, ax: np.where(ax <= SMALL, np.maximum(r * ref, 1e-42), t + 0 * ref)


ALL = [(-FMAX['f'], FMAX['f'])]; POS = [(2.0 ** -126, FMAX['f'])]; FRQ = [(-1e30, -1e-30), (1e-30, 1e30)]
SPEC = {
    'f': {
        'exp': (ALL, lambda ref, ax: np.maximum(5e-7 * ref, 2.0 ** -126)),
        'log': (POS, _mix(5e-7)), 'log2': (POS, _mix(5e-7)), 'log10': (POS, _mix(5e-7)),
        'sin': ([(-8192.0, 8192.0)], _odd(5e-7, 3e-7)), 'cos': ([(-8192.0, 8192.0)], _abs(3e-7)), 'tan': ([(-8192.0, 8192.0)], lambda ref, ax: np.where(ax <= SMALL, np.maximum(5e-7 * ref, 1e-42), 5e-7 * (1 + ref * ref))),
        'asin': (ALL, _odd(5e-7, 7e-7)), 'acos': (ALL, _abs(1e-6)), 'atan': (ALL, _odd(5e-7, 5e-7)), 'tanh': (ALL, _odd(5e-7, 4e-7)),
        'midi2freq': ([(-120.0, 250.0)], _mix(2e-5)), 'midi2ratio': ([(-120.0, 250.0)], _mix(2e-5)), 'oct2freq': ([(-12.0, 22.0)], _mix(2e-5)), 'db2amp': ([(-500.0, 500.0)], _mix(2e-5)),
        'freq2midi': (FRQ, _mix(2e-5)), 'freq2oct': (FRQ, _mix(2e-5)), 'amp2db': (FRQ, _mix(2e-5)), 'ratio2midi': ([(1e-30, 1e30)], _mix(2e-5)),
    }}
SPEC['d'] = {k: (d, _mix(1e-9)) for k, (d, t) in SPEC['f'].items() if k in ('midi2freq', 'midi2ratio', 'oct2freq', 'db2amp', 'freq2midi', 'freq2oct', 'amp2db', 'ratio2midi')}


def ordi(x, ty):
    """monotone integer code of representable numbers"""
    if ty == 'f': b = x.astype(np.float32).view(np.int32).astype(np.int64); m = np.int64(0x7fffffff)
    else: b = x.view(np.int64); m = np.int64(0x7fffffffffffffff)
    return np.where(b < 0, -(b & m), b)


def unord(o, ty):
    if ty == 'f':
        b = np.where(o < 0, (-o) | np.int64(0x80000000), o).astype(np.uint32); return b.view(np.float32).astype(np.float64)
    b = np.where(o < 0, (-o).astype(np.uint64) | U64(1 << 63), o.astype(np.uint64)); return b.view(np.float64)


def initial(fn, ty, dom):
    lo, hi = [], []
    dt = DT[ty]
    for a, b in dom:
        a, b = float(dt(a)), float(dt(b))
        for s, (x, y) in ((-1, (a, min(b, 0.0))), (1, (max(a, 0.0), b))):
            if x > y or (x == y == 0.0 and a != b): continue
            # geometric from the top down, linear inside large trigonometric ranges
            m = max(abs(x), abs(y)); n = min(abs(x), abs(y))
            edges = [m]
            if fn in ('sin', 'cos', 'tan'):
                edges = [float(dt(z)) for z in np.arange(m, 8.0, -0.5)] + [float(dt(z)) for z in np.linspace(8, 0.0, 65)]
            else:
                while edges[-1] > max(n, 2.0 ** -40 if n == 0 else n): edges.append(edges[-1] / 2 if edges[-1] / 2 > n else n)
                edges.append(n)
            edges = sorted(set(float(dt(e)) for e in edges))
            for p, q in zip(edges, edges[1:]):
                if s > 0: lo.append(p); hi.append(q)
                else: lo.append(-q); hi.append(-p)
    return np.array(lo), np.array(hi)


def dense_points(fn, t, ty, dom):
    from . import decide as D
    dt = DT[ty]; pts = []
    rng = np.random.default_rng(1)
    for a, b in dom:
        pts.append(np.linspace(a, b, 20001) if b < 1e20 else np.linspace(-100, 100, 20001))
        for s in (-1, 1):
            x = s * np.geomspace(1e-30, 1e30, 8001); pts.append(x)
            x = s * np.geomspace(1e-4, 100, 8001); pts.append(x)
        o = rng.integers(ordi(np.array([a]), ty)[0], ordi(np.array([b]), ty)[0], 20000) if ty == 'f' else np.zeros(0, np.int64)
        pts.append(unord(o, ty))
        pts.append(np.array([a, b, 0.0, -0.0]))
        ks = np.arange(0, 12000) * (math.pi / 4)
        for e in (-1e-3, 0, 1e-3): pts += [ks + e, -(ks + e)]
    cs = [c for c in D.consts_of(t, ty) if c < FMAX[ty]]
    for c in cs:
        for s in (1, -1):
            z = dt(s * c)
            pts.append(np.array([z, np.nextafter(z, dt(np.inf)), np.nextafter(z, dt(-np.inf)), z * dt(0.999), z * dt(1.001), z / dt(2), z * dt(2)], dtype=np.float64))
    x = np.concatenate([np.asarray(p, dtype=np.float64) for p in pts]).astype(dt)
    inside = np.zeros(len(x), bool)
    for a, b in dom: inside |= (x >= dt(a)) & (x <= dt(b))
    # functions specified on the whole line: the infinities are two further points
    inf = [np.inf, -np.inf] if ty == 'f' and fn in SPEC['f'] and dom == ALL else []
    return np.concatenate([x[inside], np.array(inf, dtype=dt)])


def violates(fn, t, ty, leaf, x, tol):
    """first point of x (array of dt) whose exact template value misses the tolerance, or None"""
    got = P.evaluate([t], {leaf: x})[0].astype(np.longdouble)
    ref = ref_pt(fn, x)
    with np.errstate(all='ignore'):
        tl = tol(np.abs(ref).astype(np.float64), np.abs(x).astype(np.float64))
        bad = ~(np.abs(got - ref) <= tl * (1 + 1e-6) + (1e-44 if ty == 'f' else 1e-300)) & np.isfinite(ref)
    if bad.any():
        k = int(np.argmax(bad)); return '%s=%r -> %r instead of %.9g' % ('x', x[k].item(), float(got[k]), float(ref[k]))
    return None


START = time.time(); TOTAL = 420.0 if os.environ.get('VERIF_TIER') != 'thorough' else 3000.0   # seconds after which undecidable templates get a short attempt only


def analyse(fn, t, ty, leaf, spec=None, budget=40.0, maxcells=6000000, stats=None):
    """('proved', cells, worst) | ('violated', witness) | ('open', why)"""
    dom, tol = spec or SPEC[ty][fn]
    t0 = time.time()
    budget = min(budget, max(6.0, TOTAL - (t0 - START)))
    w = violates(fn, t, ty, leaf, dense_points(fn, t, ty, dom), tol)
    if w: return ('violated', w)
    lo, hi = initial(fn, ty, dom)
    total = 0; worst = 0.0; points = 0
    CH = 8192
    while len(lo):
        if time.time() - t0 > budget or total > maxcells:
            return ('open', 'budget exhausted with %d cells left near x=%r' % (len(lo), lo[0].item()))
        nlo, nhi = [], []
        for p in range(0, len(lo), CH):
            l, h = lo[p:p + CH], hi[p:p + CH]; total += len(l)
            sg = np.where((h > 0) | ((h == 0) & (l == 0) & ~np.signbit(l)), 1, -1)
            I = Interp(l, h, leaf, ty, sg)
            V = I.run(t)
            with np.errstate(all='ignore'):
                R = ref_tm(fn, I)
                D = tadd(V, R, -1.0)
                err = np.abs(D.c).sum(0) + D.r
                rl, rh = R.lohi(); mn = np.where(rl * rh > 0, np.minimum(np.abs(rl), np.abs(rh)), 0.0)
                tl = tol(mn, np.where(l * h > 0, np.minimum(np.abs(l), np.abs(h)), 0.0))
                ok = np.isfinite(D.r) & (err <= tl)
                if ok.any(): worst = max(worst, float((err / tl)[ok & (tl > 0)].max(initial=0)))
            bad = ~ok
            if not bad.any(): continue
            l, h = l[bad], h[bad]
            ol, oh = ordi(l, ty), ordi(h, ty)
            leafc = oh - ol <= 1
            if leafc.any():
                pts = np.concatenate([l[leafc], h[leafc]]); points += len(pts)
                w = violates(fn, t, ty, leaf, pts.astype(DT[ty]), tol)
                if w: return ('violated', w)
            l, h, ol, oh = l[~leafc], h[~leafc], ol[~leafc], oh[~leafc]
            if len(l):
                mid = unord(ol + (oh - ol) // 2, ty)
                w = violates(fn, t, ty, leaf, mid.astype(DT[ty]), tol)
                if w: return ('violated', w)
                nlo += [l, mid]; nhi += [mid, h]
        lo = np.concatenate(nlo) if nlo else np.zeros(0); hi = np.concatenate(nhi) if nhi else np.zeros(0)
    if stats is not None: stats.update(cells=total, points=points, worst=worst, secs=time.time() - t0)
    return ('proved', total, points, worst)
