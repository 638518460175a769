"""Per-element value templates of a unit: import into the pool with positional leaves, ramp tokenisation, linear forms."""
from fractions import Fraction
from . import pool as P
from . import engine as E

UROUND = {'f': 2.0 ** -24, 'd': 2.0 ** -53}
ETY = {'float': 'f', 'double': 'd'}


# ---------------------------------------------------------------- linear forms over leaves, exact coefficients plus rounding-error coefficients
_lin = {}


def lin(t):
    """(coef: {leaf: Fraction}, const: Fraction, err: {leaf or 1: float}) or None when not linear.
    |computed - exact| <= sum err[l]*|l| + err[1]"""
    if t in _lin: return _lin[t]
    st = [t]
    while st:
        x = st[-1]
        if x in _lin: st.pop(); continue
        op, ty, c, a = P.NODES[x]
        if op in ('fadd', 'fsub', 'fmul', 'fma', 'fneg', 'fpext', 'fptrunc', 'fdiv'):
            need = [y for y in a if y not in _lin]
            if need: st += need; continue
        _lin[x] = _lin1(op, ty, c, a, x); st.pop()
    return _lin[t]


def _add(d, e, s=1):
    r = dict(d)
    for k, v in e.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0: del r[k]
    return r


def _eadd(*ds):
    r = {}
    for d in ds:
        for k, v in d.items(): r[k] = r.get(k, 0.0) + v
    return r


def _round(co, k0, er, ty):
    u = UROUND[ty]
    r = dict(er)
    for l in set(co) | set(er):
        if l == 1: continue
        r[l] = r.get(l, 0.0) + u * (abs(float(co.get(l, 0))) + er.get(l, 0.0))
    r[1] = r.get(1, 0.0) + u * (abs(float(k0)) + er.get(1, 0.0))
    return {k: v for k, v in r.items() if v}


def _pow2(f):
    f = abs(f)
    return f != 0 and (f.numerator & (f.numerator - 1)) == 0 and (f.denominator & (f.denominator - 1)) == 0


def _lin1(op, ty, c, a, x):
    if op == 'leaf' and ty in 'fd': return ({x: Fraction(1)}, Fraction(0), {})
    if op == 'const' and ty in 'fd':
        v = P.constval(x)
        if v != v or v in (float('inf'), float('-inf')): return None
        return ({}, Fraction(v), {})
    if op not in ('fadd', 'fsub', 'fmul', 'fma', 'fneg', 'fpext', 'fptrunc', 'fdiv'): return None
    L = [_lin[y] for y in a]
    if any(l is None for l in L): return None
    if op == 'fneg': return ({k: -v for k, v in L[0][0].items()}, -L[0][1], L[0][2])
    if op == 'fpext': return L[0]
    if op == 'fptrunc': return (L[0][0], L[0][1], _round(*L[0], 'f'))
    if op in ('fadd', 'fsub'):
        s = 1 if op == 'fadd' else -1
        co = _add(L[0][0], L[1][0], s); k0 = L[0][1] + s * L[1][1]; er = _eadd(L[0][2], L[1][2])
        if not L[0][0] and L[0][1] == 0 and not L[0][2]: return (co, k0, er)      # 0 + x is exact
        if not L[1][0] and L[1][1] == 0 and not L[1][2]: return (co, k0, er)
        # magnitude of the rounded value bounded through the result's own coefficients
        return (co, k0, _round(co, k0, er, ty))

    def scale(l, f):
        return ({k: v * f for k, v in l[0].items() if v * f}, l[1] * f, {k: v * abs(float(f)) for k, v in l[2].items()})
    if op == 'fmul':
        for i in (0, 1):
            if not L[i][0] and not L[i][2]:
                r = scale(L[1 - i], L[i][1])
                return r if _pow2(L[i][1]) or L[i][1] == 0 else (r[0], r[1], _round(*r, ty))
        return None
    if op == 'fdiv':
        if not L[1][0] and not L[1][2] and L[1][1] != 0:
            r = scale(L[0], 1 / L[1][1])
            return r if _pow2(L[1][1]) else (r[0], r[1], _round(*r, ty))
        return None
    if op == 'fma':
        for i in (0, 1):
            if not L[i][0] and not L[i][2]:
                r = scale(L[1 - i], L[i][1]); co = _add(r[0], L[2][0]); k0 = r[1] + L[2][1]
                return (co, k0, _round(co, k0, _eadd(r[2], L[2][2]), ty))
        return None


class Elem:
    __slots__ = ('buf', 'i', 'node', 'ramps', 'raw')


def zero_split(t, slopes, ty, depth=3):
    """case distinction on tests `slope == 0`: list of (term, positions whose slope is zero)"""
    out = [(t, frozenset())]
    zero = P.mk('const', ty, 0)
    for _ in range(depth):
        new = []; ch = False
        for x, zs in out:
            cond = None
            for y in P.subterms(x):
                if P.NODES[y][0] == 'foeq':
                    a, b = P.NODES[y][3]
                    for l, k in ((a, b), (b, a)):
                        if l in slopes and P.constval(k) == 0: cond = (y, l)
                if cond: break
            if not cond: new.append((x, zs)); continue
            ch = True; y, l = cond
            new.append((decide_cond(x, y, True, {l: zero}), zs | {slopes[l]}))
            new.append((decide_cond(x, y, False, {}), zs))
        out = new
        if not ch: break
    return out


def decide_cond(t, c, val, sub):
    """t with condition c fixed and leaves substituted"""
    tr = P.mk('const', 'i1', 1 if val else 0)

    def fold(x):
        op, ty, k, a = P.NODES[x]
        if op == 'select':
            v = P.NODES[a[0]]
            if v[0] == 'const': return a[1] if v[2] else a[2]
        if op in ('and', 'or', 'not') and ty == 'i1':
            v = [P.NODES[z] for z in a]
            if op == 'not' and v[0][0] == 'const': return P.mk('const', 'i1', 1 - v[0][2])
            for i in range(len(a)):
                if v[i][0] == 'const' and op != 'not': return a[1 - i] if bool(v[i][2]) == (op == 'and') else a[i]
        return x
    memo = {}

    def go(x):
        st = [x]
        while st:
            z = st[-1]
            if z in memo: st.pop(); continue
            if z == c: memo[z] = tr; st.pop(); continue
            if z in sub: memo[z] = sub[z]; st.pop(); continue
            op, ty, k, a = P.NODES[z]
            need = [w for w in a if w not in memo]
            if need: st += need; continue
            na = tuple(memo[w] for w in a)
            memo[z] = z if na == a else fold(P.mk(op, ty, k, na)); st.pop()
        return memo[x]
    return go(t)


def elements(u, job, res):
    """-> ([Elem], leaf table) for elementwise units; problems -> list of (kind, text, elem)"""
    es = E.ELEM[u['T']]
    ty = ETY[u['T']]
    obj = {int(k): v for k, v in job['bufobj'].items()}
    first = {}
    pos = []
    for p, a in enumerate(u['args']):
        nm = 'A%d' % a['i']
        if a['k'] == 'v':
            q = first.setdefault(nm, p); pos.append(q)
        else: pos.append(p)
    argleaf = {}
    for p, a in enumerate(u['args']):
        if a['k'] == 's': argleaf[a['i']] = P.leaf(('x', p), ty)
        if a['k'] == 'r': argleaf[a['i']] = P.leaf(('a', p), ty); argleaf[a['j']] = P.leaf(('s', p), ty)

    def lm(x):
        if x.op == 'arg': return argleaf.get(x.c)
        if x.op == 'ldr':
            nm = obj.get(x.c)
            if nm in first: return P.leaf(('x', first[nm]) if x.off == 0 else ('x', first[nm], x.off // es if x.off % es == 0 else x.off / es), x.ty)
            return P.leaf(('out', nm, x.off), x.ty)
        return None
    out = []
    for o in u['outs']:
        ent = job['mem'].get('A%d' % o, [])
        nodes = P.import_terms(res, [t for _, _, t in ent], lm)
        for (off, size, t), nd in zip(ent, nodes):
            e = Elem(); e.buf = o; e.i = off // es if off % es == 0 and size == es else None; e.raw = nd; e.node = nd; e.ramps = []
            out.append(e)
    ramps = [p for p, a in enumerate(u['args']) if a['k'] == 'r']
    if ramps:
        slopes = {P.leaf(('s', p), ty): p for p in ramps}
        more = []
        for e in out:
            if e.i is None: continue
            vs = zero_split(e.raw, slopes, ty) if 'foeq' in P.ops(e.raw) else [(e.raw, ())]
            for k, (t, zs) in enumerate(vs):
                if k: d = Elem(); d.buf = e.buf; d.i = e.i; d.raw = t; more.append(d)
                else: d = e
                d.node, d.ramps = tokenise(t, e.i, ramps, ty, zs)
        out += more
    return out, pos


def tokenise(t, i, ramps, ty, zero=()):
    """replace sub-expressions that denote value+i*slope of one ramp by the position leaf; report the forms met: [(p, k, err)]"""
    pair = {}
    for p in ramps:
        pair[P.leaf(('a', p), ty)] = p; pair[P.leaf(('s', p), ty)] = p
    met = []

    def fn(x):
        op = P.NODES[x][0]
        if op == 'const': return x
        if P.NODES[x][1] != ty and op not in ('fpext', 'fptrunc'): return None
        ls = P.leaves(x)
        if not ls: return None
        ps = {pair.get(l) for l in ls}
        if len(ps) != 1 or None in ps: return None
        p = ps.pop(); a = P.leaf(('a', p), ty); s = P.leaf(('s', p), ty)
        f = lin(x)
        if f is None: return None
        ca = f[0].get(a, 0); cs = f[0].get(s, 0)
        if ca == 0: return None
        k = cs / ca if p not in zero else Fraction(i)
        if ca == 1 and f[1] == 0 and P.NODES[x][1] == ty:
            met.append((p, k, f[2].get(a, 0.0), f[2].get(s, 0.0), f[2].get(1, 0.0), x))
            return P.leaf(('x', p) if k == i else ('xk', p, k - i), ty)
        return None
    return P.rebuild(t, fn), met
