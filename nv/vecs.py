"""vec members: load/store/element access, lane-wise operators, slopes, horizontal members, integer companion."""
import numpy as np
from fractions import Fraction
from . import units as U, engine as E, pool as P, decide as D, tmpl as T
from .buf import ALLCFG, loc_of, undef_bad
from . import misc as M

F1 = Fraction(1)
NOACC = ('-fno-access-control',)
_io = {}


def lab(u, cfg): return '%s [%s]' % (u['label'], cfg)


def A(k, ty, off=0): return P.leaf(('in', 'A%d' % k, off), ty)


def G(k, ty): return P.leaf(('arg', k), ty)


def run_io(cfg):
    if cfg not in _io:
        us = [u for Ty in ('float', 'double') for u in U.vecio(Ty)]
        if cfg != 'gen': us += [u for u in U.utils() if u['fam'] == 'vecutil']
        _io[cfg] = E.analyse(us, cfg, lambda u, l, s: [None], extra=NOACC, flags_='r')
    return _io[cfg]


PAT = {'zero': (0, 0), 'one': (0x3f800000, 0x3ff0000000000000), '05': (0x3f000000, 0x3fe0000000000000), '025': (0x3e800000, 0x3fd0000000000000), 'sign_mask': (0x80000000, 1 << 63), 'abs_mask': (0x7fffffff, (1 << 63) - 1),
       'ones': (0xffffffff, (1 << 64) - 1), 'exp_mask': (0x7f800000, 0x7ff0000000000000), 'exp_mask_1': (0x3f000000, 0x3fe0000000000000)}


def generic(cfg, Ty): return cfg == 'gen' or (cfg == 'sse' and Ty == 'double')


def c15(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        con = E.consts(cfg)
        out, errs = run_io(cfg)
        for u, j, res in out:
            size, spl, by = con[u['T']]; size = u.get('nl') or size
            sp = u['spec']; ty = T.ETY[u['T']]; es = E.ELEM[u['T']]
            if sp in ('slope', 'exp', 'is_aligned') or sp[0] == 'h': continue
            if isinstance(sp, tuple) and sp[0] in ('get', 'set') and sp[1] >= size: continue
            if sp == ('const', 'ones') and generic(cfg, u['T']): continue
            rep.count('members')
            if j['err']:
                if j['err'] == 'aborts': rep.bad(lab(u, cfg), 'aborts on every path', key=(u['label'], cfg))
                else: rep.undecided(lab(u, cfg), j['err'])
                continue
            els = M.import_mem(u, j, res, 0)
            lanes = range(size) if not (isinstance(sp, tuple) and sp[0] == 'get') else [0]
            # footprint: exactly the lanes
            bad = None
            nread = {'load': size, 'load_aligned': size, 'load_first': 1}.get(u.get('ld'))
            for a in j['acc']:
                if a[8]: continue
                lim = (nread or 0) if a[0] == 'L' else len(lanes)
                if a[2] < 0 or a[2] + a[3] > lim * es or (a[0] == 'L' and a[1] != 'A1') or (a[0] == 'S' and a[1] != 'A0'):
                    bad = '%s bytes %d..%d of %s' % ('reads' if a[0] == 'L' else 'writes', a[2], a[2] + a[3] - 1, a[1]); rep.bad(lab(u, cfg), bad, a[6].replace(E.REPO + '/', ''), key=(u['label'], cfg)); break
            if bad: continue
            for i in lanes:
                rep.count('lanes')
                if i not in els: rep.bad(lab(u, cfg), 'lane %d is not written' % i, loc_of(j, 'S'), key=(u['label'], cfg)); break
                zero = P.mk('const', ty, 0)
                if sp == 'copy': want = A(1, ty)
                elif sp == 'negated': want = P.mk('fneg', ty, None, (A(1, ty),))
                elif sp == 'first': want = A(1, ty) if i == 0 else zero
                elif sp == 'zero': want = zero
                elif sp == 'bcast': want = G(1, ty)
                elif sp == 'bcast_ext': want = P.mk('fpext', 'd', None, (G(1, 'f'),))
                elif sp[0] == 'get': want = A(1, ty, sp[1])
                elif sp[0] == 'set': want = G(2, ty) if i == sp[1] else A(1, ty)
                elif sp[0] == 'const': want = P.mk('const', ty, PAT[sp[1]][0 if ty == 'f' else 1])
                v = same_bits(els[i], want, ty)
                if v.st == D.BAD: v = D.Verdict(v.st, 'lane %d: %s' % (i, v.why))
                rep.take(v, u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg))
                if v.st == D.BAD: break
                if i == 1: rep.sample('%s lane %d = %s : %s' % (lab(u, cfg), i, P.show(els[i], 4), v.dom))
    return rep.finish('Value graph of every lane after each load, store, constructor, element access and constant of vec: graph identity with the memory element, argument or documented bit pattern of that lane; '
                      'footprint of each access is exactly the lanes.', {'members': 360, 'lanes': 1100})


def same_bits(t, want, ty):
    v = M.bit_same(t, want, ty)
    if v.st == D.OPEN and v.why == 'graph differs without a witness' and not P.leaves(t) and not P.leaves(want): return D.Verdict(D.PROVED, dom='constant evaluation')
    if v.st == D.OPEN and P.leaves(t) == P.leaves(want) and D.order_only(t, ty): return D.Verdict(D.PROVED, dom='bit representatives')
    return v


# ------------------------------------------------------------------------------------------------ lane-wise operators
_vo = {}


def vo_verdict(u, t, ty, cfg):
    key = (u['fn'], ty, t)
    if key not in _vo: _vo[key] = _vo_verdict(u, t, ty)
    return _vo[key]


def _vo_verdict(u, t, ty):
    sp = u['spec']; na = u['na']
    x = [A(1 + k, ty) for k in range(na)]; s = G(1 + na, ty)
    k = sp[0]
    und = [l for l in P.leaves(t) if P.NODES[l][0] == 'undef']
    if und and undef_bad(t, [], ty): return D.Verdict(D.BAD, 'depends on an undefined value')
    allowed = set(x) | ({s} if u['ns'] else set())
    alien = [l for l in P.leaves(t) if l not in allowed and P.NODES[l][0] == 'leaf']
    if alien:
        from .buf import depends
        w = depends(t, alien, ty)
        if w: return D.Verdict(D.BAD, 'depends on another lane or operand %s: %s' % (P.show(alien[0]), w))
        return D.Verdict(D.OPEN, 'depends on %s' % P.show(alien[0]))
    one = lambda l: {((l, 1),): F1}

    def arith(op, a, b):
        nm = {'+': 'plus', '-': 'minus', '*': 'times', '/': 'over'}[op]
        sps, mag = D.arith_spec(nm, 2, [one(a), one(b)])
        v = D.arith_verdict(nm, 2, t, ty, [one(a), one(b)], [a, b], ulps=1.5)
        if v.st != D.BAD:
            w = D.extreme_verdict(nm, t, ty, [a, b])
            if w.st == D.BAD: return w
        return v
    if k == 'arith': return arith(sp[1], x[0], x[1])
    if k == 'arith_vs': return arith(sp[1], x[0], s)
    if k == 'arith_sv': return arith(sp[1], s, x[0])
    if k == 'arith1':
        v = D.arith_verdict(sp[1], 1, t, ty, [one(x[0])], [x[0]], ulps=3.0)
        if v.st != D.BAD and sp[1] in D.EXTREME:
            w = D.extreme_verdict(sp[1], t, ty, [x[0]])
            if w.st == D.BAD: return w
        return v
    if k == 'neg': return value_eval(t, ty, x, lambda a: -a, D.poly(t) is not None and D.poly(t)[0] == {((x[0], 1),): -F1} and not D.poly(t)[1])
    if k == 'madd': return D.arith_verdict('muladd', 3, t, ty, [one(l) for l in x], x, ulps=3.0)
    if k == 'ord': return D.order_verdict(sp[1], t, ty, x)
    if k == 'sqrt':
        n = P.NODES[t]
        pr = n[0] in ('sqrt', 'call:sqrtf', 'call:sqrt') and n[3] == (x[0],)
        return value_eval(t, ty, x, lambda a: np.sqrt(a), pr)
    if k == 'mask':
        ar, orc = D.order_oracle(sp[1], ty)
        v = D.reps(ty, D.consts_of(t, ty) - {float('inf')}, dense=2)
        env = dict(zip(x, D.product([v, v])))
        try: got = P.tobits(P.evaluate([t], env)[0], ty)
        except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
        exp = np.where(orc(env[x[0]], env[x[1]])[0] == 1, np.uint64((1 << P.width(ty)) - 1), np.uint64(0))
        bad = got != exp
        if bad.any():
            i = int(np.argmax(bad)); return D.Verdict(D.BAD, '%r, %r -> mask %#x instead of %#x' % (env[x[0]][i].item(), env[x[1]][i].item(), int(got[i]), int(exp[i])))
        return D.Verdict(D.PROVED, dom='all orderings') if D.order_only(t, ty) else D.Verdict(D.OPEN, 'not comparison-only')
    if k == 'bits': return bits_eval(t, ty, x, {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'andnot': lambda a, b: ~a & b}[sp[1]])
    if k == 'select':
        v = D.cast([0.0, 1.0, -1.0, 2.5, float('inf'), -float('inf'), float('nan'), 1e-40 if ty == 'f' else 1e-310, -7.0, 3e38], ty)
        env = dict(zip(x, D.product([v] * 4)))
        try: got = P.evaluate([t], env)[0]
        except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
        c = (env[x[2]] < env[x[3]]) if sp[1] == 'lt' else (env[x[2]] != env[x[3]])
        exp = np.where(c, env[x[1]], env[x[0]])
        bad = (P.tobits(got, ty) != P.tobits(exp, ty))
        if bad.any():
            i = int(np.argmax(bad)); return D.Verdict(D.BAD, D.witness(x, env, i, got, repr(exp[i].item())))
        return D.Verdict(D.PROVED, dom='all orderings') if D.order_only(t, ty) else D.Verdict(D.OPEN, 'not comparison-only')
    raise KeyError(k)


def value_eval(t, ty, x, fn, proof):
    v = D.reps(ty, list(D.consts_of(t, ty) - {float('inf')})[:20] + [2.0, 1e5, 1e-5, 3.3], dense=4)
    env = dict(zip(x, D.product([v] * len(x))))
    try: got = P.evaluate([t], env)[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
    with np.errstate(all='ignore'): exp = fn(*[env[l] for l in x])
    bad = ~((got == exp) | (np.isnan(got) & np.isnan(exp)))
    if bad.any():
        i = int(np.argmax(bad)); return D.Verdict(D.BAD, D.witness(x, env, i, got, repr(exp[i].item())))
    return D.Verdict(D.PROVED, dom='graph identity') if proof else D.Verdict(D.OPEN, 'graph differs without a witness')


BITOPS = {'leaf', 'const', 'and', 'or', 'xor', 'not', 'bitcast'}


def bits_eval(t, ty, x, fn, whole=True):
    w = P.width(ty); m = (1 << w) - 1
    rng = np.random.RandomState(1)
    a = [0, m, 0x5555555555555555 & m, 0x3333333333333333 & m, 1, 1 << (w - 1), 0x7f800000 & m, 0x3f800000 & m] + [int(z) & m for z in rng.randint(0, 2 ** 62, 40, dtype=np.int64)]
    arr = np.array(a, dtype=np.uint64)
    prod = D.product([arr] * len(x))
    env = {l: P.frombits(v, ty) for l, v in zip(x, prod)}
    try: got = P.tobits(P.evaluate([t], env)[0], P.NODES[t][1])
    except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
    exp = fn(*prod) & np.uint64(m)
    bad = got != exp
    if bad.any():
        i = int(np.argmax(bad)); return D.Verdict(D.BAD, '%s -> %#x instead of %#x' % (', '.join('%#x' % int(p[i]) for p in prod), int(got[i]), int(exp[i])))
    # bitwise terms act on every bit position alike: all combinations of operand bits occur in the representatives
    if whole and P.ops(t) <= BITOPS and all(P.NODES[z][2] in (0, m) for z in P.subterms(t) if P.NODES[z][0] == 'const'): return D.Verdict(D.PROVED, dom='bit truth table')
    return None


def int_verdict(u, t):
    """integer companion vectors: 32-bit lanes viewed as float bit patterns"""
    ty = 'f'; x = [A(1 + k, ty) for k in range(u['na'])]
    und = [l for l in P.leaves(t) if P.NODES[l][0] == 'undef']
    if und and undef_bad(t, [], ty): return D.Verdict(D.BAD, 'depends on an undefined value')
    alien = [l for l in P.leaves(t) if l not in x]
    if alien:
        from .buf import depends
        w = depends(t, alien, ty)
        return D.Verdict(D.BAD, 'depends on another lane %s: %s' % (P.show(alien[0]), w)) if w else D.Verdict(D.OPEN, 'depends on %s' % P.show(alien[0]))
    sp = u['spec']; k = sp[0]; m32 = np.uint64(0xffffffff)
    s = lambda a: (a << np.uint64(32)).view(np.int64)
    b = lambda c: np.where(c, m32, np.uint64(0))
    bc = lambda n: P.mk('bitcast', 'i32', None, (n,))
    C = lambda v: P.mk('const', 'i32', v & 0xffffffff)
    X = [bc(l) for l in x]
    fl = lambda n: P.mk('bitcast', 'f', None, (n,))
    if k == 'cvtt':
        # float -> int: hardware truncation; out of range gives the integer indefinite value
        v = D.reps('f', [1.0, 2.0 ** 23, 2.0 ** 31, 2.0 ** 30, 0.5, 1.5, 100.25], dense=3)
        try: got = P.tobits(P.evaluate([t], {x[0]: v})[0], P.NODES[t][1])
        except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
        exp = P.fcvt(v, 32)[0]; bad = (got != exp) & (np.abs(v) < 2.0 ** 31)
        if bad.any():
            i = int(np.argmax(bad)); return D.Verdict(D.BAD, '%r -> %#x instead of %#x' % (v[i].item(), int(got[i]), int(exp[i])))
        return D.Verdict(D.PROVED, dom='graph identity') if t == fl(P.mk('cvtt', 'i32', None, (x[0],))) else D.Verdict(D.OPEN, 'graph differs without a witness')
    if k == 'cvt':
        r = conv_eval(t, x[0])
        if r: return r
        return D.Verdict(D.PROVED, dom='graph identity') if t == P.mk('sitofp', 'f', None, (X[0],)) else D.Verdict(D.OPEN, 'graph differs without a witness')
    F = {'iadd': lambda p, q: p + q, 'isub': lambda p, q: p - q, 'iand': lambda p, q: p & q, 'iandnot': lambda p, q: ~p & q, 'ilt': lambda p, q: b(s(p) < s(q)), 'igt': lambda p, q: b(s(p) > s(q)),
         'ieq': lambda p, q: b(p == q)}
    if k in F: fn = F[k]
    elif k == 'slli': fn = lambda p: p << np.uint64(sp[1]) if sp[1] < 32 else p * np.uint64(0)
    elif k == 'srli': fn = lambda p: p >> np.uint64(sp[1]) if sp[1] < 32 else p * np.uint64(0)
    else: fn = lambda p: p & np.uint64(sp[1] & 0xffffffff)
    v = bits_eval(t, ty, x, fn, whole=True)
    if v is not None: return v
    sx = lambda c: fl(P.mk('sext', 'i32', None, (c,)))
    want = {'iadd': lambda: fl(P.mk('add', 'i32', None, (X[0], X[1]))), 'isub': lambda: fl(P.mk('sub', 'i32', None, (X[0], X[1]))), 'ilt': lambda: sx(P.mk('slt', 'i1', None, (X[0], X[1]))),
            'igt': lambda: sx(P.mk('slt', 'i1', None, (X[1], X[0]))), 'ieq': lambda: sx(P.mk('eq', 'i1', None, (X[0], X[1]))), 'slli': lambda: fl(P.mk('shl', 'i32', None, (X[0], C(sp[1])))),
            'srli': lambda: fl(P.mk('lshr', 'i32', None, (X[0], C(sp[1])))), 'iandc': lambda: fl(P.mk('and', 'i32', None, (X[0], C(sp[1]))))}
    if k in want and t == want[k](): return D.Verdict(D.PROVED, dom='graph identity')
    if k == 'iandc' and P.ops(t) <= BITOPS: return D.Verdict(D.PROVED, dom='bit truth table')
    return D.Verdict(D.OPEN, 'graph differs without a witness: %s' % P.show(t))


def conv_eval(t, x):
    a = np.array([0, 1, 2, 7, 8388607, 8388608, 16777217, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 123456789], dtype=np.uint64)
    try: got = P.evaluate([t], {x: P.frombits(a, 'f')})[0]
    except P.NoEval as e: return D.Verdict(D.OPEN, str(e))
    exp = P.sx(a, 32).astype(np.float32); bad = got != exp
    if bad.any():
        i = int(np.argmax(bad)); return D.Verdict(D.BAD, '%#x -> %r instead of %r' % (int(a[i]), got[i].item(), exp[i].item()))
    return None


def c16(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        con = E.consts(cfg)
        us = [u for Ty in ('float', 'double') for u in U.vecops(Ty, cfg)]
        if cfg not in ('gen', 'sse'): us += U.intvec()
        if cfg != 'gen': us += [u for u in U.utils() if u['fam'] == 'vec']
        out, errs = E.analyse(us, cfg, lambda u, l, s: [None], flags_='r')
        for u, j, res in out:
            rep.count('operations')
            if j['err']: rep.undecided(lab(u, cfg), j['err']); continue
            size = u.get('nl') or con[u['T']][0]; ty = T.ETY[u['T']]
            els = M.import_mem(u, j, res, 0)
            for i in range(size):
                rep.count('lanes')
                if i not in els: rep.bad(lab(u, cfg), 'lane %d is not produced' % i, loc_of(j, 'S'), key=(u['label'], cfg)); break
                v = int_verdict(u, els[i]) if u['fam'] == 'intvec' else vo_verdict(u, els[i], ty, cfg)
                if v.st == D.BAD: v = D.Verdict(v.st, 'lane %d: %s' % (i, v.why))
                rep.take(v, u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg))
                if v.st == D.BAD: break
                if i == size - 1: rep.sample('%s lane %d = %s : %s' % (lab(u, cfg), i, P.show(els[i], 4), v.dom))
    return rep.finish('Value graph of every result lane of every operator: leaves must be the operands at the same lane; the graph is decided by polynomial normal form, enumeration of orderings, bit truth tables or '
                      'graph identity with the scalar operation.', {'operations': 450, 'lanes': 1800})


# ------------------------------------------------------------------------------------------------ parts of C12 and C13
def slopes(rep, cfg):
    con = E.consts(cfg)
    for u, j, res in run_io(cfg)[0]:
        if u['spec'] not in ('slope', 'exp'): continue
        rep.count('calls')
        if j['err']: rep.undecided(lab(u, cfg), j['err']); continue
        size = u.get('nl') or con[u['T']][0]; ty = T.ETY[u['T']]
        els = M.import_mem(u, j, res, 0)
        f, s = G(1, ty), G(2, ty)
        for i in range(size + 1):
            rep.count('samples')
            if i not in els: rep.bad(lab(u, cfg), 'lane %d is not produced' % i, loc_of(j, 'S'), key=(u['label'], cfg)); break
            if i == size and u['spec'] == 'slope':       # returned step size*slope
                t = els[i]; x = T.lin(t); b = 8 * T.UROUND[ty] * size
                if x is not None and x[0] == {s: size} and x[1] == 0 and x[2].get(s, 0) <= b: v = D.Verdict(D.PROVED, dom='linear form')
                else: v = M.fill_eval(t, size, ty, f, s, 0.0, b, lambda a, c: size * c)
            else: v = (M.fill_precise if u['spec'] == 'slope' else M.exp_fill)(els[i], i, ty, f, s)
            if v.st == D.BAD: v = D.Verdict(v.st, ('returned step: ' if i == size else 'lane %d: ' % i) + v.why)
            rep.take(v, u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg))
            if v.st == D.BAD: break


def horizontals(rep, cfg):
    con = E.consts(cfg)
    for u, j, res in run_io(cfg)[0]:
        if not (isinstance(u['spec'], tuple) and u['spec'][0] == 'h'): continue
        rep.count('calls')
        if j['err']: rep.undecided(lab(u, cfg), j['err']); continue
        size = u.get('nl') or con[u['T']][0]; ty = T.ETY[u['T']]; rep.count('samples', size)
        els = [P.leaf(('el', 'A0', i), ty) for i in range(size)]
        t = M.red_terms(u, j, res).get('ret')
        k = u['spec'][1]
        v = M.red_sum(t, els, ty) if k == 'sum' else M.red_extreme(t, k, els, ty)
        rep.take(v, u['label'], cfg, loc_of(j, 'L'), key=(u['label'], cfg))
