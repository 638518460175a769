"""Per-sample decision of the unary/binary mathematical functions: region specialisation (sign, magnitude regions cut out by the constants of
the term), rounding-function rules, library-call identity, Taylor models and composition."""
import math
from fractions import Fraction
import numpy as np
from . import pool as P, decide as D, taylor as TY

N = P.NODES


# ------------------------------------------------------------------------------------------------ region specialisation
class Region:
    """facts about leaf x: sign s (+1/-1), magnitude strictly between lo and hi (hi may be inf)"""
    def __init__(s, x, ty, sign, lo, hi): s.x = x; s.ty = ty; s.sign = sign; s.lo = lo; s.hi = hi

    def __str__(s): return '%s%g..%s%g' % ('-' if s.sign < 0 else '', s.lo, '-' if s.sign < 0 else '', s.hi)


def cst(v, ty): return P.mk('const', ty, D.bits(v, ty))


def tru(b): return P.mk('const', 'i1', 1 if b else 0)


def isc(t, ty=None): return N[t][0] == 'const'


def neg(t):
    if N[t][0] == 'fneg': return N[t][3][0]
    return P.mk('fneg', N[t][1], None, (t,))


def nonneg(t, R):
    op, ty, c, a = N[t]
    if op in ('sqrt', 'fabs', 'call:exp', 'call:expf'): return True
    if op in ('call:pow', 'call:powf') and nonneg(a[0], R): return True
    if t == R.x: return R.sign > 0
    if op == 'fneg' and a[0] == R.x: return R.sign < 0
    if op in ('rint', 'round', 'floor', 'ceil', 'ftrunc') and op != 'floor': return nonneg(a[0], R)
    if op == 'const' and ty in 'fd': return P.constval(t) >= 0 and not math.copysign(1, P.constval(t)) < 0
    return False


def mag_of(t, R):
    """t = x or -x -> (sign of t)"""
    if t == R.x: return R.sign
    if N[t][0] == 'fneg' and N[t][3][0] == R.x: return -R.sign
    return 0


def unbit(t):
    """float node whose bits t is, or None"""
    op, ty, c, a = N[t]
    if op == 'bitcast' and N[a[0]][1] in ('f', 'd'): return a[0]
    if op == 'const' and ty in ('i32', 'i64'): return P.mk('const', 'f' if ty == 'i32' else 'd', c)
    return None


def bitsof(t):
    op, ty, c, a = N[t]
    ity = 'i32' if ty == 'f' else 'i64'
    if op == 'const': return P.mk('const', ity, c)
    if op == 'bitcast': return a[0]
    return P.mk('bitcast', ity, None, (t,))


def specialise(t, R, assume=None, memo=None):
    """bottom-up simplification under the facts of the region; assume: {i1 node: bool}"""
    memo = {} if memo is None else memo
    st = [t]
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        op, ty, c, a = N[x]
        need = [y for y in a if y not in memo]
        if need: st += need; continue
        na = tuple(memo[y] for y in a)
        r = simp(op, ty, c, na, R)
        if assume and r in assume: r = tru(assume[r])
        memo[x] = r; st.pop()
    return memo[t]


def simp(op, ty, c, a, R):
    if op in ('leaf', 'const', 'undef'): return P.mk(op, ty, c, a)
    if op == 'select':
        if isc(a[0]): return a[1] if N[a[0]][2] & 1 else a[2]
        if a[1] == a[2]: return a[1]
    if all(isc(y) for y in a) and not op.startswith('call:') and op not in ('rcp', 'rsqrt'):
        try:
            v = P._ev(-1, op, ty, c, a, [P._ev(-1, 'const', N[y][1], N[y][2], (), [], {}, 0, 1) for y in a], {}, 0, 1)
            with np.errstate(all='ignore'): return P.mk('const', ty, int(P.tobits(np.asarray(v), ty)[0]))
        except (P.NoEval, FloatingPointError): pass
    at = N[a[0]][1] if a else None
    if op == 'bitcast':
        o = N[a[0]]
        if o[0] == 'bitcast' and N[o[3][0]][1] == ty: return o[3][0]
        if o[1] == ty: return a[0]
        if o[0] == 'select' and ty in 'fd':
            return P.mk('select', ty, None, (o[3][0], simp('bitcast', ty, None, (o[3][1],), R), simp('bitcast', ty, None, (o[3][2],), R)))
    if op == 'fabs':
        s = mag_of(a[0], R)
        if s: return a[0] if s > 0 else neg(a[0])
        if nonneg(a[0], R): return a[0]
    if op == 'fneg' and N[a[0]][0] == 'fneg': return N[a[0]][3][0]
    if op == 'fsub' and isc(a[1]) and P.constval(a[1]) == 0: return a[0]
    if op == 'fsub' and isc(a[0]) and N[a[0]][2] == D.bits(-0.0, ty): return neg(a[1])
    if op == 'fsub' and isc(a[0]) and P.constval(a[0]) == 0 and mag_of(a[1], R): return neg(a[1])
    if op == 'fadd':
        for i in (0, 1):
            if isc(a[i]) and P.constval(a[i]) == 0 and (mag_of(a[1 - i], R) or N[a[1 - i]][0] in ('rint', 'floor', 'ceil', 'round')): return a[1 - i]
    if op == 'fmul':
        for i in (0, 1):
            if isc(a[i]) and P.constval(a[i]) in (1.0, -1.0): return a[1 - i] if P.constval(a[i]) > 0 else neg(a[1 - i])
    if op in ('rint', 'round', 'ftrunc') and N[a[0]][0] == 'fneg': return neg(P.mk(op, ty, None, (N[a[0]][3][0],)))
    if op == 'floor' and N[a[0]][0] == 'fneg': return neg(P.mk('ceil', ty, None, (N[a[0]][3][0],)))
    if op == 'ceil' and N[a[0]][0] == 'fneg': return neg(P.mk('floor', ty, None, (N[a[0]][3][0],)))
    if op in ('rint', 'round', 'ftrunc', 'floor', 'ceil') and (mag_of(a[0], R) and R.lo >= 2.0 ** (TY.PREC[R.ty] - 1)): return a[0]
    if op == 'fsub' and isc(a[1]) and N[a[0]][0] == 'fadd':       # (y + 2^p) - 2^p
        k = P.constval(a[1]); base = 2.0 ** (TY.PREC[ty] - 1)
        for i in (0, 1):
            y = N[a[0]][3]
            if isc(y[i]) and P.constval(y[i]) == k:
                z = y[1 - i]; s = mag_of(z, R)
                if s and (k == base and s > 0 and R.hi <= base or k == 1.5 * base and R.hi <= base / 2): return simp('rint', ty, None, (z,), R)
    if op == 'sitofp' and N[a[0]][0] in ('cvtt', 'fptosi') and P.width(N[a[0]][1]) >= 32:
        z = N[a[0]][3][0]
        if N[z][1] == ty and mag_of(z, R) and R.hi <= 2.0 ** (P.width(N[a[0]][1]) - 1): return simp('ftrunc', ty, None, (z,), R)
    if op in ('folt', 'fole', 'foeq', 'funo'):
        r = compare(op, a, R)
        if r is not None: return tru(r)
    if op == 'not' and isc(a[0]): return tru(not N[a[0]][2] & 1)
    if op in ('and', 'or', 'xor') and ty in ('i32', 'i64', 'i1'):
        r = bitrule(op, ty, a, R)
        if r is not None: return r
    if op == 'slt' and isc(a[1]) and N[a[1]][2] == 0:
        f = unbit(a[0])
        if f is not None and mag_of(f, R): return tru(mag_of(f, R) < 0)
    if op == 'copysign':
        s = mag_of(a[1], R)
        if s and nonneg(a[0], R): return a[0] if s > 0 else neg(a[0])
    return P.mk(op, ty, c, a)


def span(t, R):
    """open interval (lo, hi) of possible values of t in the region (or a point [v,v])"""
    if isc(t) and N[t][1] in 'fd': v = P.constval(t); return (v, v)
    s = mag_of(t, R)
    if s > 0: return (R.lo, R.hi)
    if s < 0: return (-R.hi, -R.lo)
    return None


def compare(op, a, R):
    if op == 'funo':
        return False if all(span(y, R) is not None for y in a) else None
    if a[0] == a[1] and span(a[0], R) is not None: return op != 'folt'
    p, q = span(a[0], R), span(a[1], R)
    if p is None or q is None: return None
    pp, qp = p[0] == p[1], q[0] == q[1]
    if op == 'foeq':
        if p[1] <= q[0] and not (pp and qp) or p[0] >= q[1] and not (pp and qp): return False
        return None
    if p[1] <= q[0] and not (pp and qp): return True
    if p[0] >= q[1] and not (pp and qp): return False
    return None


def bitrule(op, ty, a, R):
    w = P.width(ty); M = (1 << w) - 1; S = 1 << (w - 1)
    for i in (0, 1):
        k, y = a[i], a[1 - i]
        if not isc(k):
            # x & sext(c) with x the bits of something -> select
            if op == 'and' and N[k][0] == 'sext' and N[N[k][3][0]][1] == 'i1':
                return P.mk('select', ty, None, (N[k][3][0], y, P.mk('const', ty, 0)))
            if op == 'and' and N[k][0] == 'xor':
                z = N[k][3]
                for j in (0, 1):
                    if isc(z[j]) and N[z[j]][2] == M and N[z[1 - j]][0] == 'sext' and N[N[z[1 - j]][3][0]][1] == 'i1':
                        return P.mk('select', ty, None, (N[z[1 - j]][3][0], P.mk('const', ty, 0), y))
            continue
        v = N[k][2]
        if ty == 'i1':
            v &= 1
            if op == 'and': return y if v else k
            if op == 'or': return k if v else y
            return P.mk('not', 'i1', None, (y,)) if v else y
        if op == 'and':
            if v == 0: return k
            if v == M: return y
            f = unbit(y)
            if f is not None and mag_of(f, R):
                if v == S: return P.mk('const', ty, S if mag_of(f, R) < 0 else 0)
                if v == S - 1: return bitsof(f if mag_of(f, R) > 0 else neg(f))
        elif v == 0: return y
        elif op == 'xor' and v == S:
            f = unbit(y)
            if f is not None: return bitsof(neg(f))
            if N[y][0] == 'select':
                fs = [unbit(z) for z in N[y][3][1:]]
                if all(z is not None for z in fs): return P.mk('select', ty, None, (N[y][3][0], bitsof(neg(fs[0])), bitsof(neg(fs[1]))))
        elif op == 'or' and v == S:
            f = unbit(y)
            if f is not None and nonneg(f, R): return bitsof(neg(f))
    if op in ('or', 'xor') and N[a[0]][0] == 'select' and N[a[1]][0] == 'select' and N[a[0]][3][0] == N[a[1]][3][0]:
        c, p, q = N[a[0]][3]; _, r, s = N[a[1]][3]
        z = lambda t: isc(t) and N[t][2] == 0
        if z(q) and z(r): return P.mk('select', ty, None, (c, p, s))
        if z(p) and z(s): return P.mk('select', ty, None, (c, r, q))
    return None


def regions(t, x, ty, extra=()):
    """open magnitude intervals x sign between the constants of the term, and the cut points themselves"""
    mx = float(np.finfo(D.DT[ty]).max)
    cs = {c for c in D.consts_of(t, ty) if 0 < c <= mx} | {float(e) for e in extra}
    pts = sorted(cs)
    out = []
    for lo, hi in zip([0.0] + pts, pts + [float('inf')]):
        for s in (1, -1): out.append(Region(x, ty, s, lo, hi))
    return out, [0.0, -0.0] + [s * p for p in pts for s in (1, -1)]


# ------------------------------------------------------------------------------------------------ C04
def o_softclip(x, ty):
    with np.errstate(all='ignore'):
        e = np.where(np.abs(x) < 0.5, x.astype(D.LD), (np.abs(x).astype(D.LD) - D.LD(0.25)) / x.astype(D.LD))
    return e


def region_fn(fn, t, ty, x):
    u = D.UROUND[ty]
    v = D.reps(ty, {c for c in D.consts_of(t, ty) if c < 1e38} | {0.5, 0.25}, dense=40, extra=[0.1 * k for k in range(1, 60)] + [float(z) for z in np.geomspace(1e-6, 1e6, 300)], nan=False)
    v = v[np.isfinite(v)]
    try: got = P.evaluate([t], {x: v})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    with np.errstate(all='ignore'):
        if fn == 'softclip':
            exp = o_softclip(v, ty); tol = np.where(np.abs(v) < 0.5, D.LD(0), 8 * u * abs(exp))
        else: exp = np.sign(v).astype(D.LD) * np.sqrt(np.abs(v).astype(D.LD)); tol = 3 * u * abs(exp)
        bad = ~(abs(got.astype(D.LD) - exp) <= tol)
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r -> %r instead of %.9g' % (v[k].item(), got[k].item(), float(exp[k])), 'representative')
    rs, pts = regions(t, x, ty, [0.5] if fn == 'softclip' else [])
    X = {((x, 1),): Fraction(1)}
    for R in rs:
        r = specialise(t, R)
        if fn == 'softclip':
            if R.hi <= 0.5: good = r == x
            else:
                s = {D.ONE: Fraction(R.sign), ((x, -1),): Fraction(-1, 4)}
                good = D.poly_proves(r, s, {D.ONE: 1.0, ((x, -1),): 1.0}, ty, 4.0)
        else:
            good = r == (P.mk('sqrt', ty, None, (x,)) if R.sign > 0 else P.mk('fneg', ty, None, (P.mk('sqrt', ty, None, (neg(x),)),)))
        if not good: return D.Verdict(D.OPEN, 'region %s: %s' % (R, P.show(r, 6)))
    return D.Verdict(D.PROVED, dom='sign/magnitude regions')


# ------------------------------------------------------------------------------------------------ C05
_rr = {}


def round_points(ty):
    if ty in _rr: return _rr[ty]
    dt = D.DT[ty]; p = TY.PREC[ty]
    v = []
    ks = list(range(0, 70)) + [2 ** i for i in range(7, 64)] + [2 ** i - 1 for i in range(7, p)] + [2 ** i + 1 for i in range(7, p)] + [10 ** i for i in range(2, 15)] + [3 * 2 ** (p - 2), 2 ** (p - 1) + 3, 2 ** p - 3, 2 ** 31, 2 ** 31 - 1, 2 ** 32, 2 ** 62 + 2 ** 40]
    for k in ks:
        for f in (0.0, 0.25, 0.5, 0.75):
            z = dt(k + f); v += [z, np.nextafter(z, dt(np.inf)), np.nextafter(z, dt(-np.inf))]
    v = np.array(v, dtype=dt)
    rng = np.random.default_rng(7)
    v = np.concatenate([v, rng.uniform(-100, 100, 4000).astype(dt), np.geomspace(1e-30, 1e30, 4000).astype(dt), np.array(D.special(ty)[:-1], dtype=dt), (rng.integers(0, 2 ** 31, 2000) + 0.5).astype(dt)])
    v = np.unique(np.concatenate([v, -v])); _rr[ty] = v[np.isfinite(v)]
    return _rr[ty]


def round_bad(fn, v, got):
    with np.errstate(all='ignore'):
        g = got.astype(D.LD); x = v.astype(D.LD)
        if fn in ('floor', 'ceil', 'trunc'): e = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc}[fn](v); return ~(got == e), e
        if fn == 'round': e = np.rint(v); return ~((np.floor(got) == got) & (abs(g - x) <= D.LD(0.5))), e
        e = (v - np.floor(v)); return ~((got == e) & (got >= 0) & (got <= 1)), e


def is_floor(y, R):
    x = R.x; ty = R.ty
    rint = P.mk('rint', ty, None, (x,)); big = R.lo >= 2.0 ** (TY.PREC[ty] - 1)
    if y == P.mk('floor', ty, None, (x,)) or big and y == x: return True
    if R.sign > 0 and y == P.mk('ftrunc', ty, None, (x,)): return True
    return near_case(y, R, rint, 'folt', (x, rint), 'fsub')


def is_ceil(y, R):
    x = R.x; ty = R.ty
    rint = P.mk('rint', ty, None, (x,)); big = R.lo >= 2.0 ** (TY.PREC[ty] - 1)
    if y == P.mk('ceil', ty, None, (x,)) or big and y == x: return True
    if R.sign < 0 and y == P.mk('ftrunc', ty, None, (x,)): return True
    return near_case(y, R, rint, 'folt', (rint, x), 'fadd')


def near_case(y, R, rint, cop, cargs, aop):
    """y = nearest integer r, corrected by one when r lies on the wrong side of x: exact because |r - x| <= 1/2 and |r| <= 2^p when r != x"""
    ty = R.ty
    if R.hi > 2.0 ** (TY.PREC[ty] - 1): return False
    one = cst(1.0, ty)
    adj = {P.mk(aop, ty, None, (rint, one)), P.mk('fadd' if aop == 'fsub' else 'fsub', ty, None, (rint, cst(-1.0, ty)))}
    for nr in (rint, neg(P.mk('rint', ty, None, (neg(R.x),)))):
        for r0 in ('rint', 'round'):
            r = P.mk(r0, ty, None, (R.x,))
            ca = tuple(r if z == rint else z for z in cargs)
            c = P.mk(cop, 'i1', None, ca)
            le = P.mk('fole', 'i1', None, (ca[1], ca[0]))
            ad = {P.rebuild(z, lambda q: r if q == rint else None) for z in adj}
            t1 = specialise(y, R, {c: True, le: False}); t0 = specialise(y, R, {c: False, le: True})
            if t1 in ad and t0 == r: return True
    return False


def round_fn(fn, t, ty, x):
    v = round_points(ty)
    cs = [c for c in D.consts_of(t, ty) if 0 < c < 1e30]
    if cs:
        e = np.array([f for c in cs for f in (c, c * 0.75, c * 1.5, c - 0.5, c + 0.5, c - 0.25)], dtype=D.DT[ty])
        e = np.concatenate([e, np.nextafter(e, D.DT[ty](np.inf)), np.nextafter(e, D.DT[ty](0))]); v = np.unique(np.concatenate([v, e, -e]))
    try: got = P.evaluate([t], {x: v})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    bad, exp = round_bad(fn, v, got)
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r -> %r instead of %r' % (v[k].item(), got[k].item(), exp[k].item()), 'representative')
    rs, pts = regions(t, x, ty, [2.0 ** (TY.PREC[ty] - 1)])
    for R in rs:
        r = specialise(t, R)
        if fn == 'floor': ok = is_floor(r, R)
        elif fn == 'ceil': ok = is_ceil(r, R)
        elif fn == 'trunc': ok = r == P.mk('ftrunc', ty, None, (x,)) or (is_floor(r, R) if R.sign > 0 else is_ceil(r, R))
        elif fn == 'round': ok = r in (P.mk('rint', ty, None, (x,)), P.mk('round', ty, None, (x,))) or r == x and R.lo >= 2.0 ** (TY.PREC[ty] - 1)
        else:
            ok = False
            if N[r][0] == 'fsub' and N[r][3][0] == x: ok = is_floor(N[r][3][1], R)
            elif isc(r) and P.constval(r) == 0 and R.lo >= 2.0 ** (TY.PREC[ty] - 1): ok = True
        if not ok: return D.Verdict(D.OPEN, 'region %s: %s' % (R, P.show(r, 6)))
    pv = np.array(pts, dtype=D.DT[ty]); bad, exp = round_bad(fn, pv, P.evaluate([t], {x: pv})[0])
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r gives a wrong result' % pv[k].item())
    return D.Verdict(D.PROVED, dom='rounding regions' if len(P.subterms(t)) > 6 else 'rounding identity')


# ------------------------------------------------------------------------------------------------ C06 - C09
UN = ['exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh']
CONV = ['midi2freq', 'freq2midi', 'midi2ratio', 'ratio2midi', 'oct2freq', 'freq2oct', 'amp2db', 'db2amp']


def call_of(fn, t, ty, x):
    return t in (P.mk('call:' + fn, ty, None, (x,)), P.mk('call:' + fn + 'f', ty, None, (x,)) if ty == 'f' else -1)


STRICT_DOM = {'exp': {'f': (-87.0, 88.0), 'd': (-700.0, 700.0)}, 'sin': (-1e4, 1e4), 'cos': (-1e4, 1e4), 'tan': (-1e4, 1e4), 'asin': (-1.0, 1.0), 'acos': (-1.0, 1.0), 'atan': (-1e30, 1e30), 'tanh': (-1e30, 1e30),
              'log': (1e-37, 1e37), 'log2': (1e-37, 1e37), 'log10': (1e-37, 1e37)}


def scaled_log(fn, t, ty, x):
    """log(x) * c with c the element-type rounding (one unit) of 1/ln 2: three roundings, relative error below 3 units"""
    if fn != 'log2' or N[t][0] != 'fmul': return False
    for a, b in (N[t][3], N[t][3][::-1]):
        if not P.leaves(b) and call_of('log', a, ty, x):
            try: c = D.LD(np.ravel(P.evaluate([b], {})[0])[0])
            except P.NoEval: return False
            return bool(abs(c * np.log(D.LD(2)) - 1) <= 2.0 ** (1 - TY.PREC[ty]))
    return False


def strict(fn, t, ty, x):
    """the standard function itself, in the precision of the element type"""
    if call_of(fn, t, ty, x): return D.Verdict(D.PROVED, dom='library call identity')
    sc = scaled_log(fn, t, ty, x)
    if sc: return D.Verdict(D.PROVED, dom='library log times the rounded factor')
    d = STRICT_DOM[fn]; d = d[ty] if isinstance(d, dict) else d
    v = TY.dense_points(fn, t, ty, [d])
    try: got = P.evaluate([t], {x: v})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    with np.errstate(all='ignore'):
        ref = TY.ref_pt(fn, v)
        # a few units in the last place of the result, plus the effect of one unit of the argument
        tol = (6 * 2.0 ** -TY.PREC[ty]) * np.maximum(abs(ref), 0) + TY.EMINV[ty]
        bad = ~(abs(got.astype(D.LD) - ref) <= tol) & np.isfinite(ref)
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r -> %r instead of %.17g' % (v[k].item(), got[k].item(), float(ref[k])), 'representative')
    return D.Verdict(D.OPEN, 'not the library call: %s' % P.show(t, 4))


def approx(fn, t, ty, x, budget=60.0, stats=None):
    if (ty, fn) != ('d', fn) and call_of(fn, t, ty, x): return D.Verdict(D.PROVED, dom='library call identity')
    if ty == 'd' and fn in UN: return strict(fn, t, ty, x)
    und = [l for l in P.leaves(t) if l != x]
    if und: return D.Verdict(D.OPEN, 'depends on %s' % P.show(und[0]))
    st = {}
    try: r = TY.analyse(fn, t, ty, x, budget=budget, stats=st)
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    if r[0] == 'violated': return D.Verdict(D.BAD, r[1], 'tolerance')
    if r[0] == 'proved':
        if stats is not None: stats.append((fn, st))
        return D.Verdict(D.PROVED, dom='Taylor models')
    return D.Verdict(D.OPEN, r[1])


def match(pat, t, px, bind):
    """does t equal pat with leaf px replaced by one common subterm? (commutative operands tried both ways)"""
    memo = {}

    def go(p, q):
        if p == px:
            if bind[0] is None: bind[0] = q; return True
            return bind[0] == q
        if (p, q) in memo: return memo[(p, q)]
        a, b = N[p], N[q]
        if px not in P.leaves(p): r = p == q
        elif a[0] != b[0] or a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]): r = False
        elif a[0] in P.COMM:
            s = bind[0]
            r = go(a[3][0], b[3][0]) and go(a[3][1], b[3][1])
            if not r:
                bind[0] = s
                r = go(a[3][0], b[3][1]) and go(a[3][1], b[3][0])
                if not r: bind[0] = s
        else: r = all(go(y, z) for y, z in zip(a[3], b[3]))
        if r: memo[(p, q)] = r
        return r
    return go(pat, t)


def match_sub(pat, t, px, cands):
    """bindings of px for which pat[px := s] == t, s among the candidates"""
    for s in cands:
        if P.rebuild(pat, lambda q: s if q == px else None) == t: return s
    return None


EXPS = set(); LOGS = set()      # proved float templates (node over x0)
X0 = {ty: P.leaf(('x', 0), ty) for ty in 'fd'}


def note(fn, t, ty, x):
    if ty == 'f':
        s = P.rebuild(t, lambda q: X0['f'] if q == x else None)
        if fn == 'exp': EXPS.add(s)
        if fn == 'log': LOGS.add(s)


def pow_fn(fn, t, ty, x, y, tight=False):
    if P.leaves(t) - {x, y}: return D.Verdict(D.OPEN, 'depends on other values')
    xs = np.concatenate([np.geomspace(1e-10, 1e10, 161), [1.0, 2.0, 10.0, 0.5, 1.0000001, 0.99999994, 3.0, 440.0]])
    ys = np.concatenate([np.linspace(-10, 10, 81), [0.5, 1 / 3, 2.0, 3.0, -1.0, 1e-3, 12.5, -12.5, 1e-20]])
    cs = [c for c in D.consts_of(t, ty) if 1e-5 < c < 1e5]
    xs = np.concatenate([xs, cs[:40]]); ys = np.concatenate([ys, cs[:10]])
    xv, yv = D.product([xs.astype(D.DT[ty]), ys.astype(D.DT[ty])])
    with np.errstate(all='ignore'):
        lg = yv.astype(D.LD) * np.log(xv.astype(D.LD))
        ref = np.exp(lg); keep = np.abs(lg) < 69
        xv, yv, ref, lg = xv[keep], yv[keep], ref[keep], lg[keep]
        big = np.maximum(1, np.abs(np.log(xv.astype(D.LD))))
        rel = 1e-6 * (1 + np.abs(yv) * big) if ty == 'f' else 1e-13 * (1 + np.abs(yv) * big)
        if tight: rel = 2e-7 + 0 * big if ty == 'f' else 8e-16 + 1e-17 * np.abs(lg)
    for s in ((1,) if fn == 'pow' else (1, -1)):
        try: got = P.evaluate([t], {x: (s * xv).astype(D.DT[ty]), y: yv})[0]
        except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
        bad = ~(abs(got.astype(D.LD) - s * ref) <= rel * ref)
        if bad.any():
            k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r, y=%r -> %r instead of %.9g' % (s * xv[k].item(), yv[k].item(), got[k].item(), float(s * ref[k])), 'tolerance')
    if tight and fn == 'pow':
        xn, yn = D.product([np.array([-0.5, -1.0, -2.0, -3.0, -10.0, 0.0], dtype=D.DT[ty]), np.array([1.0, 2.0, 3.0, 4.0, 5.0], dtype=D.DT[ty])])
        got = P.evaluate([t], {x: xn, y: yn})[0]; exp = np.power(xn, yn)
        bad = ~(abs(got.astype(D.LD) - exp) <= 1e-6 * abs(exp))
        if bad.any():
            k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'x=%r, y=%r -> %r instead of %.9g' % (xn[k].item(), yn[k].item(), got[k].item(), float(exp[k])), 'representative')
    calls = lambda a: {P.mk('call:pow', ty, None, (a, y)), P.mk('call:powf', ty, None, (a, y))}
    for s in ((1,) if fn == 'pow' else (1, -1)):
        R = Region(x, ty, s, 0.0, float('inf'))
        r = specialise(t, R)
        arg = x if s > 0 else neg(x)
        if s > 0 and r in calls(x) or s < 0 and r in {neg(z) for z in calls(arg)}: continue
        if r in calls(x) and fn == 'pow': continue
        if ty == 'f' and composed(r, R, x, y, s): continue
        return D.Verdict(D.OPEN, 'sign %+d: %s' % (s, P.show(r, 5)))
    return D.Verdict(D.PROVED, dom='library call identity' if not (EXPS and ty == 'f' and len(P.subterms(t)) > 20) else 'composition exp(y*log x) of proved templates')


def composed(r, R, x, y, s):
    """r == +-EXP(y * LOG(|x|)) for proved templates EXP, LOG"""
    ty = 'f'; arg = x if s > 0 else neg(x)
    if s < 0:
        if N[r][0] != 'fneg':
            # sign may sit in a bit operation on the (non-negative) result
            f = N[r]
            if f[0] == 'bitcast' and N[f[3][0]][0] == 'or':
                o = N[f[3][0]][3]
                k = [z for z in o if isc(z) and N[z][2] == 0x80000000]; q = [z for z in o if not (isc(z) and N[z][2] == 0x80000000)]
                if len(k) != 1 or len(q) != 1: return False
                r = simp('bitcast', 'f', None, (q[0],), R)
            else: return False
        else: r = N[r][3][0]
    xs = P.leaf(('x', 'm'), ty)
    for L in LOGS:
        l0 = P.rebuild(L, lambda q: xs if q == X0['f'] else None)
        l1 = specialise(P.rebuild(l0, lambda q: arg if q == xs else None), R)
        m = P.mk('fmul', ty, None, (y, l1))
        for E in EXPS:
            e1 = specialise(P.rebuild(E, lambda q: m if q == X0['f'] else None), R)
            if e1 == r: return True
    return False


def verdict(fn, ar, node, ty, leafs, lv, raw, plain=False):
    if raw: return D.Verdict(D.OPEN, 'unrecognised ramp expression')
    if fn in ('softclip', 'signed_sqrt'): return region_fn(fn, node, ty, lv[0])
    if fn in ('floor', 'ceil', 'trunc', 'round', 'frac'): return round_fn(fn, node, ty, lv[0])
    if fn in ('pow', 'spow'):
        if len(set(leafs)) != 2: return D.Verdict(D.OPEN, 'aliased arguments')
        return pow_fn(fn, node, ty, leafs[0], leafs[1], plain or ty == 'd')
    if fn in UN and (plain or ty == 'd'):
        v = strict(fn, node, ty, lv[0])
        if v.st == D.PROVED: note(fn, node, ty, lv[0])
        return v
    if fn in UN or fn in CONV:
        v = approx(fn, node, ty, lv[0])
        if v.st == D.PROVED: note(fn, node, ty, lv[0])
        return v
    try: D.order_oracle(fn, ty)
    except KeyError: return D.Verdict(D.OPEN, 'no domain for %s' % fn)
    return D.order_verdict(fn, node, ty, lv)


# ------------------------------------------------------------------------------------------------ checks
GROUP = {'C04': ['abs', 'sgn', 'undenormalize', 'softclip', 'signed_sqrt'], 'C05': ['floor', 'ceil', 'trunc', 'round', 'frac'], 'C06': ['exp', 'log', 'log2', 'log10', 'pow', 'spow'],
         'C07': ['sin', 'cos', 'tan'], 'C08': ['asin', 'acos', 'atan', 'tanh'], 'C09': CONV}


def run_group(pid, rep, tier):
    from . import buf
    fns = GROUP[pid]
    un = [f for f in fns if f not in ('pow', 'spow')]
    ns = buf.nsel_std if tier == 'thorough' else buf.nsel_few
    cfgs = buf.ALLCFG + ['cxx98']
    buf.run_values(rep, un, cfgs, ns)
    if pid == 'C06': buf.run_values(rep, ['pow', 'spow'], cfgs, ns)


def c04(rep, tier):
    run_group('C04', rep, tier)
    return rep.finish('Region abstraction: the input line is cut at zero, the class boundaries and every constant of the extracted term; per region the term is specialised by sign and magnitude facts and compared with the '
                      'specified expression (order-only terms: complete enumeration of orderings); refutation by exact evaluation on region representatives.', {'calls': 200, 'templates': 200})


def c05(rep, tier):
    run_group('C05', rep, tier)
    return rep.finish('Region abstraction with rounding-function rules (adding and subtracting 2^p is round-to-nearest below 2^p; truncation through integers is exact inside the integer range; nearest integer corrected by one '
                      'is floor/ceil); refutation by exact evaluation on representatives of every binade and fraction class.', {'calls': 200, 'templates': 200})


def c06(rep, tier):
    run_group('C06', rep, tier)
    return rep.finish('Taylor-model abstract interpretation of the extracted expression over a cell cover of the whole argument range (all positive normals / all finite numbers), bit-level exponent arithmetic included; pow and spow '
                      'by composition exp(y*log|x|) of proved templates; plain and double forms by identity with the library call. A violation is a single argument whose exact template value misses the tolerance.', {'calls': 250, 'templates': 250})


def c07(rep, tier):
    run_group('C07', rep, tier)
    return rep.finish('Taylor-model abstract interpretation of sin, cos and tan over a cell cover of [-8192, 8192] (quadrant integers tracked exactly); plain and double forms by identity with the library call.', {'calls': 120, 'templates': 120})


def c08(rep, tier):
    run_group('C08', rep, tier)
    return rep.finish('Taylor-model abstract interpretation of asin, acos, atan and tanh over a cell cover of all finite numbers, branch masks tracked per cell; plain and double forms by identity with the library call.', {'calls': 150, 'templates': 150})


def c09(rep, tier):
    run_group('C09', rep, tier)
    return rep.finish('Taylor-model abstract interpretation of the conversion formulas over a cell cover of the stated argument ranges, library calls modelled by the exact function with two units of error.', {'calls': 300, 'templates': 300})
