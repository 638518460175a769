"""Global hash-consed expression pool shared by all units and configurations, with the generic evaluator used by the region abstraction."""
import numpy as np, sys, struct, math
from fractions import Fraction

sys.setrecursionlimit(200000)
NODES = []          # id -> (op, ty, c, args)
_IDX = {}


_HASC = {'const', 'leaf', 'extract'}
COMM = {'fadd', 'fmul', 'foeq', 'funo', 'eq', 'and', 'or', 'xor', 'add', 'mul'}


def mk(op, ty, c=None, args=()):
    if op not in _HASC: c = None
    if op in COMM and args[0] > args[1]: args = (args[1], args[0])
    elif op == 'select' and args[1] == args[2]: return args[1]
    k = (op, ty, c, args)
    i = _IDX.get(k)
    if i is None:
        i = len(NODES); NODES.append(k); _IDX[k] = i
    return i


def leaf(name, ty): return mk('leaf', ty, name)


def import_terms(res, roots, leafmap):
    """copy terms of a Result into the pool; leafmap(term) -> pool id or None"""
    memo = {}
    out = []
    for r in roots:
        st = [r]
        while st:
            t = st[-1]
            if t in memo: st.pop(); continue
            x = res.terms[t]
            if x.op in ('ld', 'ldr', 'arg', 'ptr'):
                m = leafmap(x)
                memo[t] = m if m is not None else leaf((x.op, x.c, x.off), x.ty)
                st.pop(); continue
            need = [a for a in x.a if a not in memo]
            if need: st += need; continue
            memo[t] = mk(x.op, x.ty, x.c, tuple(memo[a] for a in x.a)) if x.op != 'const' else mk('const', x.ty, x.c)
            st.pop()
        out.append(memo[r])
    return out


def rebuild(i, fn, memo=None):
    """bottom-up rewriting: fn(node id) -> replacement id or None (checked top-down before descending)"""
    memo = {} if memo is None else memo
    st = [i]
    while st:
        t = st[-1]
        if t in memo: st.pop(); continue
        r = fn(t)
        if r is not None: memo[t] = r; st.pop(); continue
        op, ty, c, a = NODES[t]
        need = [x for x in a if x not in memo]
        if need: st += need; continue
        na = tuple(memo[x] for x in a)
        memo[t] = t if na == a else mk(op, ty, c, na)
        st.pop()
    return memo[i]


def subterms(i):
    seen = {i}; st = [i]
    while st:
        t = st.pop()
        for x in NODES[t][3]:
            if x not in seen: seen.add(x); st.append(x)
    return seen


_leafmemo = {}


def leaves(i):
    r = _leafmemo.get(i)
    if r is not None: return r
    st = [i]
    while st:
        t = st[-1]
        if t in _leafmemo: st.pop(); continue
        op, ty, c, a = NODES[t]
        need = [x for x in a if x not in _leafmemo]
        if need: st += need; continue
        if op == 'leaf': s = frozenset([t])
        elif op == 'undef': s = frozenset([t])
        elif not a: s = frozenset()
        elif len(a) == 1: s = _leafmemo[a[0]]
        else: s = frozenset().union(*[_leafmemo[x] for x in a])
        _leafmemo[t] = s; st.pop()
    return _leafmemo[i]


_opsmemo = {}


def ops(i):
    """set of operators of a term (memoised, subsets are shared)"""
    st = [i]
    while st:
        t = st[-1]
        if t in _opsmemo: st.pop(); continue
        op, ty, c, a = NODES[t]
        need = [x for x in a if x not in _opsmemo]
        if need: st += need; continue
        s = None
        for x in sorted(a, key=lambda x: -len(_opsmemo[x])):
            if s is None: s = _opsmemo[x]
            elif not _opsmemo[x] <= s: s = s | _opsmemo[x]
        _opsmemo[t] = frozenset([op]) if s is None else s if op in s else s | {op}
        st.pop()
    return _opsmemo[i]


def constval(t):
    """value of a float constant node as python float (exact)"""
    op, ty, c, a = NODES[t]
    if op != 'const': return None
    if ty == 'f': return struct.unpack('<f', struct.pack('<I', c))[0]
    if ty == 'd': return struct.unpack('<d', struct.pack('<Q', c))[0]
    return None


def show(i, depth=6):
    op, ty, c, a = NODES[i]
    if op == 'leaf': return str(c if isinstance(c, str) else '.'.join(map(str, c)))
    if op == 'const':
        v = constval(i)
        return ('%.9g' % v) if v is not None else '#%x' % c
    if op == 'undef': return 'UNDEF'
    if depth == 0: return '…'
    sym = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'folt': '<', 'fole': '<=', 'foeq': '==', 'and': '&', 'or': '|', 'xor': '^'}.get(op)
    s = [show(x, depth - 1) for x in a]
    if sym: return '(%s %s %s)' % (s[0], sym, s[1])
    if op == 'select': return '(%s ? %s : %s)' % tuple(s)
    if op in ('bitcast',): return s[0]
    return '%s(%s)' % (op + ('@%d' % c if op == 'extract' else ''), ', '.join(s))


# ------------------------------------------------------------------------------------------------ evaluation on arrays of representatives
def width(ty): return 32 if ty == 'f' else 64 if ty in ('d', 'p') else int(ty[1:])


U64 = np.uint64


def _mask(w): return U64((1 << w) - 1)


def tobits(v, ty):
    if ty == 'f': return v.view(np.uint32).astype(np.uint64)
    if ty == 'd': return v.view(np.uint64)
    if ty == 'i1': return v.astype(np.uint64)
    return v


def frombits(b, ty):
    if ty == 'f': return (b & _mask(32)).astype(np.uint32).view(np.float32)
    if ty == 'd': return b.astype(np.uint64).view(np.float64)
    if ty == 'i1': return (b & U64(1)).astype(bool)
    return b & _mask(width(ty))


def sx(v, w):
    """sign extend masked uint64 to int64"""
    s = np.int64(64 - w)
    return (v.astype(np.uint64) << U64(64 - w)).view(np.int64) >> s


class NoEval(Exception): pass


MATH = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'tanh': np.tanh, 'log': np.log, 'log2': np.log2, 'log10': np.log10,
        'exp': np.exp, 'exp2': np.exp2, 'sqrt': np.sqrt, 'fabs': np.abs, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'expm1': np.expm1, 'log1p': np.log1p,
        'sinh': np.sinh, 'cosh': np.cosh, 'cbrt': np.cbrt, 'rint': np.rint, 'nearbyint': np.rint}


def cround(x):
    """C round(): half away from zero"""
    t = np.trunc(x)
    d = np.abs(x - t)
    return np.where(d >= 0.5, t + np.copysign(np.ones_like(x), x), t).astype(x.dtype)


def fcvt(x, w, trunc=True, inval=None):
    """float -> signed integer of width w, result as masked uint64; out of range -> inval (hardware 'integer indefinite')"""
    y = np.trunc(x) if trunc else np.rint(x)
    lim = float(2 ** (w - 1))
    ok = (y >= -lim) & (y < lim)
    z = np.where(ok, y, 0).astype(np.float64).astype(np.int64).astype(np.uint64) & _mask(w)
    return np.where(ok, z, U64(1 << (w - 1)) if inval is None else U64(inval)), ok


def fma(a, b, c, ty):
    if ty == 'f':
        p = a.astype(np.float64) * b.astype(np.float64)
        s = p + c.astype(np.float64)          # product exact; the sum may be rounded twice (flagged by callers as +-1 ulp)
        return s.astype(np.float32)
    p = a.astype(np.longdouble) * b.astype(np.longdouble) + c.astype(np.longdouble)
    return p.astype(np.float64)


def evaluate(roots, env, undef=0, memo=None):
    """env: leaf id -> numpy array; returns list of arrays. undef: bit pattern used for undefined values"""
    memo = {} if memo is None else memo
    n = None
    for v in env.values(): n = len(v); break
    n = n or 1
    with np.errstate(all='ignore'):
        for r in roots:
            st = [r]
            while st:
                t = st[-1]
                if t in memo: st.pop(); continue
                op, ty, c, a = NODES[t]
                need = [x for x in a if x not in memo]
                if need: st += need; continue
                memo[t] = _ev(t, op, ty, c, a, [memo[x] for x in a], env, undef, n)
                st.pop()
    return [memo[r] for r in roots]


def _ev(t, op, ty, c, a, v, env, undef, n):
    if op == 'leaf':
        if t not in env: raise NoEval('leaf %s' % (c,))
        return env[t]
    if op == 'const': return np.broadcast_to(frombits(np.array([c], dtype=np.uint64), ty), (n,)).copy()
    if op == 'undef': return frombits(np.full(n, undef & ((1 << width(ty)) - 1), dtype=np.uint64), ty)
    at = NODES[a[0]][1] if a else None
    if op == 'p2i': return v[0] & _mask(width(ty))
    if op == 'fadd': return v[0] + v[1]
    if op == 'fsub': return v[0] - v[1]
    if op == 'fmul': return v[0] * v[1]
    if op == 'fdiv': return v[0] / v[1]
    if op == 'frem': return np.fmod(v[0], v[1])
    if op == 'fma': return fma(v[0], v[1], v[2], ty)
    if op == 'select': return np.where(v[0], v[1], v[2])
    if op == 'bitcast': return frombits(tobits(v[0], at), ty)
    if op == 'folt': return v[0] < v[1]
    if op == 'fole': return v[0] <= v[1]
    if op == 'foeq': return v[0] == v[1]
    if op == 'funo': return np.isnan(v[0]) | np.isnan(v[1])
    if op == 'not': return ~v[0]
    if op in ('and', 'or', 'xor'):
        f = {'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}[op]
        return f(v[0], v[1])
    if op == 'eq': return v[0] == v[1]
    if op == 'ult': return tobits(v[0], at) < tobits(v[1], at)
    if op == 'slt': return sx(tobits(v[0], at), width(at)) < sx(tobits(v[1], at), width(at))
    if op == 'minps': return np.where(v[0] < v[1], v[0], v[1])
    if op == 'maxps': return np.where(v[0] > v[1], v[0], v[1])
    if op in ('minnum',): return np.fmin(v[0], v[1])
    if op in ('maxnum',): return np.fmax(v[0], v[1])
    if op == 'fneg': return frombits(tobits(v[0], ty) ^ U64(1 << (width(ty) - 1)), ty)
    if op == 'fabs': return frombits(tobits(v[0], ty) & U64((1 << (width(ty) - 1)) - 1), ty)
    if op == 'copysign':
        s = U64(1 << (width(ty) - 1)); return frombits((tobits(v[0], ty) & ~s) | (tobits(v[1], ty) & s), ty)
    if op == 'sqrt': return np.sqrt(v[0])
    if op == 'floor': return np.floor(v[0])
    if op == 'ceil': return np.ceil(v[0])
    if op == 'ftrunc': return np.trunc(v[0])
    if op in ('rint', 'rint_dyn'): return np.rint(v[0])
    if op == 'round': return cround(v[0])
    if op == 'rcp':
        # any value within the documented relative error is possible; representative: 1/x with the maximal negative error is avoided, the exact reciprocal rounded to 12 bits is used
        r = (np.float32(1) / v[0]).astype(np.float32)
        return frombits(tobits(r, 'f') & U64(0xfffff000), 'f')
    if op == 'rsqrt':
        r = (np.float32(1) / np.sqrt(v[0])).astype(np.float32)
        return frombits(tobits(r, 'f') & U64(0xfffff000), 'f')
    if op == 'fpext': return v[0].astype(np.float64)
    if op == 'fptrunc': return v[0].astype(np.float32)
    if op in ('sitofp',):
        return sx(tobits(v[0], at), width(at)).astype(np.float32 if ty == 'f' else np.float64)
    if op == 'uitofp': return tobits(v[0], at).astype(np.float32 if ty == 'f' else np.float64)
    if op == 'cvtt': return fcvt(v[0], width(ty))[0]
    if op == 'cvtn': return fcvt(v[0], width(ty), trunc=False)[0]
    if op in ('fptosi', 'fptoui'):
        w = width(ty)
        if op == 'fptoui':
            y = np.trunc(v[0]).astype(np.float64); ok = (y > -1) & (y < float(2 ** w))
            z = np.where(ok, y, 0).astype(np.uint64) & _mask(w)
        else: z, ok = fcvt(v[0], w)
        return np.where(ok, z, U64(undef & ((1 << w) - 1)) if undef else U64(1 << (w - 1)))
    w = width(ty)
    if op == 'add': return (v[0] + v[1]) & _mask(w)
    if op == 'sub': return (v[0] - v[1]) & _mask(w)
    if op == 'mul': return (v[0] * v[1]) & _mask(w)
    if op == 'shl': return np.where(v[1] < U64(w), (v[0] << (v[1] & U64(63))) & _mask(w), U64(0))
    if op == 'lshr': return np.where(v[1] < U64(w), v[0] >> (v[1] & U64(63)), U64(0))
    if op == 'ashr': return (sx(v[0], w) >> np.minimum(v[1], U64(w - 1)).astype(np.int64)).view(np.uint64) & _mask(w)
    if op in ('udiv', 'urem'):
        d = np.where(v[1] == 0, U64(1), v[1]); return v[0] // d if op == 'udiv' else v[0] % d
    if op == 'zext': return tobits(v[0], at)
    if op == 'sext':
        if at == 'i1': return np.where(v[0], _mask(w), U64(0))
        return sx(v[0], width(at)).view(np.uint64) & _mask(w)
    if op == 'concat': return v[0] | (v[1] << U64(width(at)))
    if op == 'extract': return frombits((tobits(v[0], at) >> U64(c)) & _mask(w), ty)
    if op.startswith('call:'):
        nm = op[5:]
        base = nm[:-1] if nm.endswith('f') and nm[:-1] in MATH or nm[:-1] in ('pow', 'round', 'fmod', 'atan2', 'fmin', 'fmax', 'copysign', 'lround') and nm.endswith('f') else nm
        if base in MATH:
            x = MATH[base](v[0].astype(np.float64))
            return x.astype(np.float32 if ty == 'f' else np.float64)
        if base == 'pow': return np.power(v[0].astype(np.float64), v[1].astype(np.float64)).astype(np.float32 if ty == 'f' else np.float64)
        if base == 'round': return cround(v[0])
        if base == 'fmin': return np.fmin(v[0], v[1])
        if base == 'fmax': return np.fmax(v[0], v[1])
        if base == 'fmod': return np.fmod(v[0], v[1])
    raise NoEval(op)
