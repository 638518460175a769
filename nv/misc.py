"""Fill/copy/accumulate, slope and exponential fills, panning, reductions and peak meters."""
import numpy as np
from fractions import Fraction
from . import units as U, engine as E, pool as P, decide as D, tmpl as T
from .buf import ALLCFG, analyse_lengths, length, loc_of, undef_bad

F1 = Fraction(1)
LD = np.longdouble


def import_mem(u, j, res, out):
    """{element index: node}, leaves ('in', buffer, element offset) and ('arg', index)"""
    es = E.ELEM[u['T']]; obj = {int(k): v for k, v in j['bufobj'].items()}; ty = T.ETY[u['T']]

    def lm(x):
        if x.op == 'arg': return P.leaf(('arg', x.c), x.ty)
        if x.op == 'ldr': return P.leaf(('in', obj.get(x.c), x.off // es if x.off % es == 0 else x.off / es), x.ty)
        return None
    ent = j['mem'].get('A%d' % out, [])
    nd = P.import_terms(res, [t for _, _, t in ent], lm)
    return {(off // es if off % es == 0 and size == es else None): t for (off, size, t), t in zip(ent, nd)}


def bit_same(t, want, ty):
    """exact identity, refuted at representatives (NaN, signed zero, denormals included)"""
    if t == want: return D.Verdict(D.PROVED, dom='identity')
    lv = sorted(set(P.leaves(t)) | set(P.leaves(want)))
    real = [l for l in lv if P.NODES[l][0] == 'leaf']
    if any(P.NODES[l][0] == 'undef' for l in lv) and undef_bad(t, [], ty): return D.Verdict(D.BAD, 'depends on an undefined value')
    if len(real) > 4: return D.Verdict(D.OPEN, 'many leaves')
    v = D.reps(ty, [1.5, 1e5, 1e-5], dense=1) if len(real) < 3 else D.cast([0.0, -0.0, 1.5, float('nan'), -7.0, 1e-40, 3e38], ty)
    env = {}
    if real:
      with np.errstate(all='ignore'):
        for l, a in zip(real, D.product([v] * len(real))): env[l] = a if P.NODES[l][1] == ty else a.astype(D.DT[P.NODES[l][1]]) if P.NODES[l][1] in 'fd' else np.arange(len(a), dtype=np.uint64) * np.uint64(4)
    try: a, b = P.evaluate([t, want], env)
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    ba, bb = P.tobits(a, P.NODES[t][1]), P.tobits(b, ty)
    bad = (ba != bb) & ~(np.isnan(b) & np.isnan(a.astype(float)))
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, D.witness(real, env, k, a, repr(b[k].item())) if real else '%r instead of %r' % (a[k].item(), b[k].item()))
    return D.Verdict(D.OPEN, 'graph differs without a witness')


def fill_precise(t, i, ty, f, s):
    """linear fill f + i*s"""
    x = T.lin(t)
    u = T.UROUND[ty]
    ba, bs = 2 * (i + 4) * u, 2 * (i + 4) * (i + 1) * u
    if x is not None:
        if x[0].get(f, 0) == 1 and x[0].get(s, 0) == i and x[1] == 0 and set(x[0]) <= {f, s}:
            if x[2].get(f, 0) <= ba and x[2].get(s, 0) <= bs and not x[2].get(1): return D.Verdict(D.PROVED, dom='linear form')
    return fill_eval(t, i, ty, f, s, ba, bs, lambda a, b: a + LD(i) * b)


def fill_eval(t, i, ty, f, s, ba, bs, fn, exp=False):
    und = [l for l in P.leaves(t) if l not in (f, s)]
    if und:
        if undef_bad(t, [], ty): return D.Verdict(D.BAD, 'depends on an undefined value')
        return D.Verdict(D.OPEN, 'depends on %s' % P.show(und[0]))
    v = D.cast([1.0, 0.1, -0.7, 3.3333333, 123.456, 1e-3, 7e5, 0.0], ty); w = D.cast([0.1, -0.3, 1e-3, 0.7777777, 13.7, 0.0] if not exp else [1.0, 1.01, 0.97, 0.5, 1.1, -0.9, 1.5, 0.0], ty)
    A, S = D.product([v, w])
    try: got = P.evaluate([t], {f: A, s: S})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    a, b = A.astype(LD), S.astype(LD)
    with np.errstate(all='ignore'):
        ex = fn(a, b)
        lim = (LD(ba) * abs(a) + LD(bs) * abs(b)) if not exp else LD(ba) * abs(ex)
        ok = abs(ex) < LD(2.0) ** (100 if ty == 'f' else 900)
        if exp: ok &= (abs(ex) > LD(2.0) ** (-100 if ty == 'f' else -900)) | (a == 0) | ((b == 0) & (i > 0))
        bad = ok & ~(abs(got.astype(LD) - ex) <= lim + LD(D.MINNORM[ty]))
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'start %r, step %r -> %r at sample %d instead of %r' % (A[k].item(), S[k].item(), got[k].item(), i, float(ex[k])))
    return D.Verdict(D.OPEN, 'fill outside the linear domain')


def exp_fill(t, i, ty, f, s):
    u = T.UROUND[ty]; b = 4 * (i + 8) * u
    p = D.poly(t)
    if p is not None:
        m = {D.mmul(((f, 1),), ((s, i),) if i else ()): F1}
        if p[0] == m and set(p[1]) <= set(m) and all(c <= b for c in p[1].values()): return D.Verdict(D.PROVED, dom='monomial')
    return fill_eval(t, i, ty, f, s, b, 0, lambda x, y: x * y ** LD(i), exp=True)


_mem = {}


def mem_verdict(u, i, t, ty, out=0):
    key = (u['fam'], u['fn'], u.get('var'), tuple(u.get('alias') or ()), ty, out, i, t)
    if key not in _mem: _mem[key] = _mem_verdict(u, i, t, ty, out)
    return _mem[key]


def _mem_verdict(u, i, t, ty, out):
    arg = lambda k: P.leaf(('arg', k), ty)
    fn = u['fn']
    if u['fam'] == 'mem':
        base = fn.split('_')[0]; src = 'A0' if u.get('alias') else 'A1'
        if base == 'zerovec': return bit_same(t, P.mk('const', ty, 0), ty)
        if base == 'setvec': return bit_same(t, arg(1), ty)
        if base == 'copyvec': return bit_same(t, P.leaf(('in', src, 0), ty), ty)
        if base == 'addvec':
            old = P.leaf(('in', 'A0', 0), ty)
            if u['var'] == 'buffer': x = P.leaf(('in', src, 0), ty)
            else: x = arg(1)
            if u['var'] == 'ramp':
                lv = [old, arg(1), arg(2)]
                return generic(t, ty, {((old, 1),): F1, ((arg(1), 1),): F1, **({((arg(2), 1),): Fraction(i)} if i else {})}, lv, ulps=4.0 + 4 * i)
            if x == old: return generic(t, ty, {((old, 1),): Fraction(2)}, [old], ulps=1.5)
            return generic(t, ty, {((old, 1),): F1, ((x, 1),): F1}, [old, x], ulps=1.5, extreme='plus')
    if u['fam'] == 'fill':
        return (fill_precise if fn == 'set_slope_vec' else exp_fill)(t, i, ty, arg(1), arg(2))
    if u['fam'] == 'pan':
        x = P.leaf(('in', 'A%d' % u['inp'], 0), ty)
        if u['var'] == 'const':
            g = arg(u['s0'] + out); return generic(t, ty, {D.mmul(((x, 1),), ((g, 1),)): F1}, [x, g], ulps=1.5, extreme='times')
        g, s = arg(u['s0'] + 2 * out), arg(u['s0'] + 2 * out + 1)
        return generic(t, ty, {D.mmul(((x, 1),), ((g, 1),)): F1, **({D.mmul(((x, 1),), ((s, 1),)): Fraction(i)} if i else {})}, [x, g, s], ulps=4.0 + 4 * i)
    raise KeyError(fn)


def generic(t, ty, spec, lv, ulps, extreme=None):
    und = [l for l in P.leaves(t) if P.NODES[l][0] == 'undef']
    if und and undef_bad(t, lv, ty): return D.Verdict(D.BAD, 'depends on an undefined value')
    v = D.Verdict(D.OPEN, 'outside the polynomial domain')
    if D.poly_proves(t, spec, D.pabs(spec), ty, ulps): v = D.Verdict(D.PROVED, dom='polynomial')
    alien = [l for l in P.leaves(t) if l not in lv]
    if alien:
        if v.st == D.PROVED: return v
        from .buf import depends
        w = depends(t, alien, ty)
        if w: return D.Verdict(D.BAD, 'depends on %s: %s' % (P.show(alien[0]), w))
        return D.Verdict(D.OPEN, 'depends on %s' % P.show(alien[0]))
    if v.st != D.PROVED:
        vals = D.cast(D.grid(len(lv)), ty)
        env = dict(zip(lv, D.product([vals] * len(lv))))
        try: got = P.evaluate([t], env)[0]
        except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
        exp, mg = D.polyval(spec, env)
        with np.errstate(all='ignore'): bad = (mg < LD(2.0) ** 100) & ~(abs(got.astype(LD) - exp) <= LD(ulps * T.UROUND[ty]) * mg + LD(D.MINNORM[ty]) * 8)
        if bad.any():
            k = int(np.argmax(bad)); return D.Verdict(D.BAD, D.witness(lv, env, k, got, '%.9g' % float(exp[k])))
    if extreme:
        w = D.extreme_verdict(extreme, t, ty, lv)
        if w.st == D.BAD: return w
    return v


def run_mem(rep, us, cfg, nsel):
    con = E.consts(cfg)
    for u, j, res in analyse_lengths(us, cfg, nsel, 'r', 2100, 8)[0]:
        lab = '%s [%s]' % (u['label'], cfg)
        rep.count('calls')
        if j['err']: rep.undecided(lab, j['err']); continue
        ty = T.ETY[u['T']]; n = length(u, j, con[u['T']][1])
        for o in u['outs']:
            els = import_mem(u, j, res, o)
            al = u['fam'] == 'pan' and o == u['inp'] or u['fam'] == 'mem' and u.get('alias')      # an unwritten sample keeps its input value
            done = set()
            for i in range(n):
                rep.count('samples')
                if i not in els:
                    if al: els[i] = P.leaf(('in', 'A%d' % o, 0), ty)
                if i not in els:
                    rep.bad(lab, 'sample %d of output %d is not written' % (i, o), loc_of(j, 'S'), key=(u['label'], cfg)); break
                dep = u['fam'] == 'fill' or u.get('var') == 'ramp'
                k = (els[i], i if dep else 0)
                if k in done: continue
                done.add(k)
                v = mem_verdict(u, i if dep else 0, els[i], ty, o)
                if v.st == D.BAD: v = D.Verdict(v.st, 'sample %d: %s' % (i, v.why), v.dom)
                rep.take(v, u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg))
                if v.st == D.BAD: break
                if v.st == D.PROVED and i == min(3, n - 1): rep.sample('%s sample %d = %s : %s' % (lab, i, P.show(els[i], 4), v.dom))


def nsel_mem(u, l, s):
    if u['form'] == 'plain': return [1, 2, 3, 7, s + 1]
    if u['form'] == 'simd': return [s, 2 * s, 3 * s]
    return [None]


def nsel_fill(u, l, s):
    if u['form'] == 'plain': return [1, 2, 17, 40]
    return [s, 2 * s, 5 * s]


def c11(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        run_mem(rep, [u for Ty in ('float', 'double') for u in U.memory(Ty) if u['fam'] == 'mem'], cfg, nsel_mem)
    return rep.finish('Value graph of every destination sample: fills and copies must be the argument or source sample itself (graph identity, bit-exact), accumulations the polynomial old + increment with one rounding.',
                      {'calls': 700, 'samples': 8000})


def c12(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        run_mem(rep, [u for Ty in ('float', 'double') for u in U.memory(Ty) if u['fam'] == 'fill'], cfg, nsel_fill)
        from . import vecs
        vecs.slopes(rep, cfg)
    return rep.finish('Linear forms start + i*slope (exact rational coefficients, rounding-error coefficients of an accumulation in the element type) and monomials start*curve^i for every destination sample and lane, '
                      'and for the step returned by set_slope/set_exp.', {'calls': 190, 'samples': 3000})


def c22(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        run_mem(rep, [u for Ty in ('float', 'double') for u in U.pan(Ty)], cfg, nsel_mem)
    return rep.finish('Polynomial normal form of both outputs: in*factor, respectively in*factor + i*in*slope, with distinct and with aliased buffers.', {'calls': 500, 'samples': 10000})


# ------------------------------------------------------------------------------------------------ reductions
def is_abs(t):
    """|y| written in any way -> y"""
    op, ty, c, a = P.NODES[t]
    if op == 'fabs': return a[0]
    if op == 'bitcast' and ty in 'fd':
        o2, t2, c2, a2 = P.NODES[a[0]]
        if o2 == 'and':
            for i in (0, 1):
                k, z = P.NODES[a2[i]], P.NODES[a2[1 - i]]
                if k[0] == 'const' and k[2] == (1 << (P.width(ty) - 1)) - 1 and z[0] == 'bitcast' and P.NODES[z[3][0]][1] == ty: return z[3][0]
    return None


_ext = {}


def extremes(t, kind):
    """set of (leaf, absolute?) whose minimum/maximum t is, for NaN-free inputs; None when t is no such term"""
    key = (t, kind)
    if key in _ext: return _ext[key]
    st = [t]
    while st:
        x = st[-1]
        if (x, kind) in _ext: st.pop(); continue
        op, ty, c, a = P.NODES[x]
        r = None; need = []
        if op == 'leaf': r = frozenset([(x, False)])
        elif is_abs(x) is not None:
            y = is_abs(x); ys = P.NODES[y]
            if ys[0] == 'leaf': r = frozenset([(y, True)])
        elif op == 'const' and ty in 'fd':
            v = P.constval(x)
            if v == (float('inf') if kind == 'min' else float('-inf')): r = frozenset()
            elif v == 0 and kind == 'max': r = frozenset([(None, False)])       # zero: neutral among absolute values
        else:
            ab = None
            if op in ('minps', 'maxps', 'minnum', 'maxnum') and op.startswith(kind): ab = a
            elif op == 'select':
                co = P.NODES[a[0]]; neg = False
                if co[0] == 'not': co = P.NODES[co[3][0]]; neg = True
                if co[0] in ('folt', 'fole'):
                    l, g = co[3]                    # l < g selects a[1]
                    lo, hi = (a[1], a[2]) if not neg else (a[2], a[1])
                    if (lo, hi) == (l, g) and kind == 'min': ab = a[1:]
                    if (lo, hi) == (g, l) and kind == 'max': ab = a[1:]
            elif op == 'fpext' or op == 'fptrunc': ab = None
            if ab is not None:
                need = [y for y in ab if (y, kind) not in _ext]
                if need: st += need; continue
                q = [_ext[(y, kind)] for y in ab]
                r = q[0] | q[1] if q[0] is not None and q[1] is not None else None
        _ext[(x, kind)] = r; st.pop()
    return _ext[key]


def extreme_reps(lv, kind, ty, mode):
    """rows: one leaf is the unique extreme, for several ranges of values; plus constant buffers"""
    inf = float('inf'); big = float(np.finfo(D.DT[ty]).max); den = float(np.nextafter(D.DT[ty](0), D.DT[ty](1)))
    pairs = [(0.0, -1.0), (5.0, 3.0), (-5.0, -7.0), (inf, big), (inf, -inf), (big, 1.0), (-1.0, -inf), (den, -den), (2 * den, den), (1.0000001, 1.0), (-1e-30, -1e30)]
    if kind == 'max': pairs = [(-a, -b) for a, b in pairs]
    if mode == 'abs': pairs = [(0.0, 1.0), (0.0, -1.0), (3.0, -5.0), (-3.0, 5.0), (-3.0, -5.0), (0.0, den), (1.0, inf), (1.0, -inf), (0.0, 1e-20), (1.0, -1.0000001), (big, -inf), (1e-30, 1e30)]
    n = len(lv); rows = []
    for b, x in pairs:
        m = np.full((n + 2, n), b); np.fill_diagonal(m, x); m[n] = b; m[n + 1] = x
        rows.append(m)
    # strictly monotone ramps
    r = np.arange(n, dtype=float)
    for s in (1.0, -1.0, 0.001, -0.001): rows.append(np.stack([r * s, r * s - n, r * s + 1e3, (r - n / 2) * s]))
    m = np.concatenate(rows).astype(D.DT[ty])
    return {l: m[:, k].copy() for k, l in enumerate(lv)}, m


def red_terms(u, j, res):
    es = E.ELEM[u['T']]; obj = {int(k): v for k, v in j['bufobj'].items()}

    def lm(x):
        if x.op == 'arg': return P.leaf(('arg', x.c), x.ty)
        if x.op in ('ld', 'ldr'): return P.leaf(('el', obj.get(x.c), x.off // es if x.off % es == 0 else x.off / es), x.ty)
        return None
    r = {}
    if j.get('ret'): r['ret'] = P.import_terms(res, [j['ret'][0]], lm)[0]
    for s in u.get('states') or []:
        for off, size, t in j['mem'].get('A%d' % s, []):
            if off == 0: r['A%d' % s] = P.import_terms(res, [t], lm)[0]
    return r


def red_extreme(t, kind, els, ty, states=(), mode=''):
    """t == min/max of the elements (absolute values in mode abs, with the incoming state)"""
    if any(P.NODES[l][0] == 'undef' for l in P.leaves(t)):
        env, m = extreme_reps(els + list(states), kind, ty, mode)
        try: a, b = [P.evaluate([t], env, k)[0] for k in (0, 0x7f7000007f700000)]
        except P.NoEval: return D.Verdict(D.OPEN, 'no evaluation')
        if not np.array_equal(a, b, equal_nan=True): return D.Verdict(D.BAD, 'depends on an undefined value')
    ab = mode == 'abs'
    want = {(l, ab) for l in els} | {(l, False) for l in states}
    s = extremes(t, kind)
    if s is not None and ab: s = frozenset(x for x in s if x[0] is not None)
    if s is not None and set(s) == want: return D.Verdict(D.PROVED, dom='operand set of a %simum' % kind)
    lv = els + list(states)
    if not set(P.leaves(t)) <= set(lv): return D.Verdict(D.BAD, 'uses %s' % ', '.join(P.show(l) for l in sorted(set(P.leaves(t)) - set(lv)))[:120]) if all(P.NODES[l][0] == 'leaf' for l in P.leaves(t)) else D.Verdict(D.OPEN, 'undefined leaf')
    env, m = extreme_reps(lv, kind, ty, mode)
    for st in states: env[st] = np.abs(env[st])
    try: got = P.evaluate([t], env)[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    vals = np.stack([np.abs(env[l]) if ab else env[l] for l in els] + [env[l] for l in states])
    exp = vals.min(0) if kind == 'min' else vals.max(0)
    bad = ~(got == exp)
    if bad.any():
        k = int(np.argmax(bad)); row = [float(env[l][k]) for l in lv]
        return D.Verdict(D.BAD, 'buffer %s -> %r instead of %r' % ([float('%.9g' % x) for x in row[:24]], got[k].item(), exp[k].item()))
    return D.Verdict(D.OPEN, 'not a plain %simum tree' % kind)


def red_sum(t, els, ty, squares=False, old=None):
    n = len(els); u = T.UROUND[ty]
    spec = {((l, 2 if squares else 1),): F1 for l in els}
    if old is not None: spec[((old, 1),)] = F1
    bound = (n + 4) * u * 1.1
    if not squares:
        f = T.lin(t)
        if f is not None:
            if f[1] == 0 and set(f[0]) == {((l)) for l in els} | ({old} if old is not None else set()) and all(c == 1 for c in f[0].values()):
                if all(c <= bound for k, c in f[2].items()): return D.Verdict(D.PROVED, dom='linear form')
            else:
                for l in els + ([old] if old is not None else []):
                    if f[0].get(l, 0) != 1: return D.Verdict(D.BAD, '%s enters the sum %s times' % (P.show(l), f[0].get(l, 0)))
                if f[1] != 0: return D.Verdict(D.BAD, 'constant %s added' % float(f[1]))
    else:
        p = D.poly(t)
        if p is not None and p[0] == spec and all(c <= bound * 2 and m in spec for m, c in p[1].items()): return D.Verdict(D.PROVED, dom='polynomial')
    lv = els + ([old] if old is not None else [])
    if any(P.NODES[l][0] == 'undef' for l in P.leaves(t)) and any(True for _ in [0]):
        env = {l: D.cast([1.0, 0.5], ty) for l in lv}
        try:
            a, b = [P.evaluate([t], env, k)[0] for k in (0, 0x4060000040600000)]
            if not np.array_equal(a, b, equal_nan=True): return D.Verdict(D.BAD, 'depends on an undefined value')
        except P.NoEval: pass
        return D.Verdict(D.OPEN, 'undefined leaf')
    if not set(P.leaves(t)) <= set(lv): return D.Verdict(D.OPEN, 'other leaves')
    m = np.concatenate([np.eye(n + (old is not None)), np.eye(n + (old is not None)) * -3, 0.1 * (1 + np.arange((n + (old is not None)) * 3).reshape(3, -1) % 7), np.ones((1, n + (old is not None))) * 1e-3,
                        1 + np.eye(n + (old is not None)) * 1e-4]).astype(D.DT[ty])
    env = {l: m[:, k].copy() for k, l in enumerate(lv)}
    try: got = P.evaluate([t], env)[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, 'no evaluation of %s' % e)
    x = m.astype(LD); 
    if squares: x = np.concatenate([x[:, :n] ** 2, x[:, n:]], 1)
    exp = x.sum(1); mag = abs(x).sum(1)
    bad = ~(abs(got.astype(LD) - exp) <= LD(bound * 3) * mag)
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'buffer %s -> %r instead of %r' % ([float('%.9g' % v) for v in m[k][:24]], got[k].item(), float(exp[k])))
    return D.Verdict(D.OPEN, 'outside the linear domain')


def nsel_red(u, l, s):
    if u['form'] == 'plain': return [1, 2, 3, 7, 33]
    return sorted({s, 2 * s, 3 * s, 5 * s, 9 * s})


def c13(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = [u for Ty in ('float', 'double') for u in U.reductions(Ty) if u['fam'] == 'red']
        con = E.consts(cfg)
        for u, j, res in analyse_lengths(us, cfg, nsel_red, 'x', 2100, 8)[0]:
            lab = '%s [%s]' % (u['label'], cfg); rep.count('calls')
            if j['err']: rep.undecided(lab, j['err']); continue
            ty = T.ETY[u['T']]; n = length(u, j, con[u['T']][1]); rep.count('samples', n)
            els = [P.leaf(('el', 'A%d' % u['inp'], i), ty) for i in range(n)]
            r = red_terms(u, j, res)
            want = {'horizontal_min': {'ret': 'min'}, 'horizontal_max': {'ret': 'max'}, 'horizontal_sum': {'ret': 'sum'}, 'horizontal_minmax': {'A0': 'min', 'A1': 'max'}, 'horizontal_maxsum': {'A0': 'max', 'A1': 'sum'}}[u['fn']]
            for w, k in want.items():
                if w not in r: rep.bad(lab, 'result %s is not produced' % w, key=(u['label'], cfg)); continue
                v = red_sum(r[w], els, ty) if k == 'sum' else red_extreme(r[w], k, els, ty)
                if v.st == D.BAD: v = D.Verdict(v.st, '%s of %d samples: %s' % (k, n, v.why))
                rep.take(v, u['label'], cfg, loc_of(j, 'L'), key=(u['label'], cfg))
                if v.st == D.PROVED: rep.sample('%s n=%d %s: %s' % (lab, n, k, v.dom))
        from . import vecs
        vecs.horizontals(rep, cfg)
    return rep.finish('Every reduction result is normalised: sums to linear forms in which each of the n loads must have coefficient exactly 1, minima and maxima to the set of operands of a tree of selections, '
                      'which must be all n loads plus neutral elements.', {'calls': 600, 'samples': 10000})


def c14(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = [u for Ty in ('float', 'double') for u in U.reductions(Ty) if u['fam'] == 'peak']
        con = E.consts(cfg)
        for u, j, res in analyse_lengths(us, cfg, nsel_red, 'x', 2100, 8)[0]:
            lab = '%s [%s]' % (u['label'], cfg); rep.count('calls')
            if j['err']: rep.undecided(lab, j['err']); continue
            ty = T.ETY[u['T']]; n = length(u, j, con[u['T']][1]); rep.count('samples', n)
            els = [P.leaf(('el', 'A0', i), ty) for i in range(n)]
            r = red_terms(u, j, res)
            todo = []
            old = P.leaf(('el', 'A1', 0), ty)
            todo.append(('peak', lambda t: red_extreme(t, 'max', els, ty, [old], 'abs'), r.get('A1', old)))
            if u['fn'] == 'peak': todo.append(('returned value', lambda t: last_abs(t, els, ty), r.get('ret')))
            else: todo.append(('squared sum', lambda t: red_sum(t, els, ty, True, P.leaf(('el', 'A2', 0), ty)), r.get('A2', P.leaf(('el', 'A2', 0), ty))))
            for nm, f, t in todo:
                if t is None: rep.bad(lab, '%s missing' % nm, key=(u['label'], cfg, nm)); continue
                v = f(t)
                if v.st == D.BAD: v = D.Verdict(v.st, '%s over %d samples: %s' % (nm, n, v.why))
                rep.take(v, u['label'], cfg, loc_of(j, 'L'), key=(u['label'], cfg, nm))
                if v.st == D.PROVED: rep.sample('%s n=%d %s: %s' % (lab, n, nm, v.dom))
    return rep.finish('Peak: operand set of the maximum must be |every sample| and the old peak; squared sum: polynomial with coefficient exactly 1 on every squared sample and on the old sum; returned value: |last sample|.',
                      {'calls': 250, 'samples': 3500})


def last_abs(t, els, ty):
    y = is_abs(t)
    if y == els[-1]: return D.Verdict(D.PROVED, dom='identity')
    n = len(els)
    if not set(P.leaves(t)) <= set(els):
        if any(P.NODES[l][0] == 'undef' for l in P.leaves(t)) and undef_bad(t, els, ty): return D.Verdict(D.BAD, 'depends on an undefined value')
        return D.Verdict(D.OPEN, 'other leaves')
    m = np.stack([1 + np.arange(n), -1.0 - np.arange(n), np.full(n, -0.5), (np.arange(n) == n - 1) * -2.0, (np.arange(n) != n - 1) * -2.0]).astype(D.DT[ty])
    try: got = P.evaluate([t], {l: m[:, k].copy() for k, l in enumerate(els)})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
    got = np.broadcast_to(got, (len(m),))
    bad = got != np.abs(m[:, -1])
    if bad.any():
        k = int(np.argmax(bad)); return D.Verdict(D.BAD, 'buffer %s -> %r' % ([float(v) for v in m[k][:24]], got[k].item()))
    return D.Verdict(D.OPEN, 'not |last sample|')
