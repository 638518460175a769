"""Checks of the buffer functions: footprint, formulas, selection, ramps, in-place use, uniformity."""
import os
import time
import numpy as np
from fractions import Fraction
from . import units as U, engine as E, pool as P, decide as D, tmpl as T
from .report import Report

ALLCFG = E.Configs(c for c in U.CONFIGS if c != 'cxx98')
CLS = {'arith': ['plus', 'minus', 'times', 'over', 'square', 'cube', 'muladd', 'ampmod', 'mix', 'sum', 'reciprocal'],
       'order': ['min', 'max', 'clip', 'clip2', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'notequal']}


LONGKINDS = ('v', 'vv', 'vr', 'rv', 'sv', 'rr', 'vvv', 'rvr', 'vsr', 'vvvv', 'vrvr', 'rrrr')


def ew_units(cfg, fns=None, full=None, forms=('plain', 'simd', 'ct'), alias=False, only_kinds=None):
    """all elementwise units of a configuration; the full product of argument kinds in the two main configurations, a pairwise covering array elsewhere"""
    full = cfg in ('sse2', 'avx') if full is None else full
    out = []
    for (fn, ar) in U.ARITY:
        if fns is not None and fn not in fns: continue
        ks = U.ew_kinds(ar, True) if full or ar <= 2 else U.ew_kinds(4, False) if ar == 4 else ['vvv', 'vss', 'vrr', 'svr', 'rsv', 'srs', 'vsv', 'rvr', 'sss', 'rrr', 'vrs', 'srv', 'rvs']
        if ar == 4 and cfg != 'sse2': ks = U.ew_kinds(4, False)
        if only_kinds: ks = [k for k in ks if only_kinds(k)]
        for Ty in ('float', 'double'):
            for k in ks:
                for form in forms:
                    ctns = [None] if form != 'ct' else (U.CTN if ar <= 2 or k in ('vvv', 'vrs', 'vvvv', 'vrvr') else U.CTN[1:])
                    if form == 'ct' and cfg in ('sse2', 'avx') and k in LONGKINDS: ctns = ctns + [U.LONG]
                    for c in ctns:
                        if not alias: out.append(U.elementwise(fn, ar, Ty, k, form, c))
                        else:
                            vs = [p for p in range(ar) if k[p] == 'v']
                            als = [(p,) for p in vs] + ([tuple(vs)] if len(vs) > 1 else [])
                            for a in als: out.append(U.elementwise(fn, ar, Ty, k, form, c, alias=a))
        if not alias and ar >= 2:
            for Ty in ('float', 'double'):
                for k in ('v' * ar, 'vsr'[:ar] if ar < 4 else 'vsrv', 'r' * ar):
                    if only_kinds and not only_kinds(k): continue
                    for form in forms: out.append(U.elementwise(fn, ar, Ty, k, form, U.CTN[0] if form == 'ct' else None, wrap=True))
    return out


def nsel_std(u, lanes, spl):
    if u['form'] == 'plain': return [1, 2, 3, 5, spl + 1]
    if u['form'] == 'simd': return [spl, 2 * spl, 3 * spl]
    return [None]


def nsel_few(u, lanes, spl):
    if u['form'] == 'plain': return [1, 3]
    if u['form'] == 'simd': return [spl, 3 * spl]
    return [None]


FAR = 70000                      # largest length walked when the code mentions a threshold beyond the usual limit
NEAR_BUDGET, FAR_BUDGET = 20, 12  # seconds per call spent on such lengths (round robin over the kinds of units)


def mixed(us):
    """units in an order that alternates between the kinds"""
    cls = {}
    for u in us: cls.setdefault((u['fam'], u['form'], u['T'], u.get('kinds') or u.get('fn')), []).append(u)
    out = []; k = 0
    while any(len(l) > k for l in cls.values()):
        out += [l[k] for l in cls.values() if len(l) > k]; k += 1
    return out


def analyse_lengths(us, cfg, nsel, flags_='x', limit=5000, most=12):
    """E.analyse plus the lengths around every integer literal the walked code contains (possible thresholds, in samples or bytes);
    lazily, so that the time spent on the additional lengths can be limited"""
    errs = {}
    return _lengths(us, cfg, nsel, flags_, limit, most, errs), errs


def _lengths(us, cfg, nsel, flags_, limit, most, errs):
    out, er = E.analyse(us, cfg, nsel, flags_=flags_)
    errs.update(er)
    con = E.consts(cfg)
    near = {}; done = {}; far = {}
    for u, j, _ in out: done.setdefault(u['name'], set()).add(j['n'])
    for u, j, _ in out:
        if u['form'] not in ('plain', 'simd'): continue
        spl = con[u['T']][1]; es = E.ELEM[u['T']]
        for q, c in [(0, c) for c in j['cmpc']] + [(1, c // es) for c in j['cmpc'] if c >= 256 and c % es == 0]:
            for d in ((c - 1, c, c + 1) if u['form'] == 'plain' else (c // spl * spl, c // spl * spl + spl)):
                if d <= 0 or d in done[u['name']]: continue
                if d <= limit: near.setdefault(u['name'], {}).setdefault(d, q)
                elif d <= (FAR if 'r' not in (u.get('kinds') or u.get('roles') or '') and u.get('var') != 'ramp' else 6000) and d >= c: far.setdefault(u['name'], {}).setdefault(d, q)
    for x in out: yield x
    del out
    def pick(w):
        l = sorted(w, key=lambda d: (w[d], d)); m = max(d for d in w if w[d] == w[l[0]])
        return sorted(([m] + [d for d in l if d != m])[:most])
    for w, most, budget, step in ((near, most, NEAR_BUDGET, 96), (far, 3, FAR_BUDGET, 4)):
        sub = mixed([u for u in us if u['name'] in w]); t0 = time.time()
        if w is near and len(sub) * 2 < 96: step = max(8, len(sub))
        while sub and time.time() - t0 < budget:
            for x in E.analyse(sub[:step], cfg, lambda u, l, s: pick(w[u['name']]), flags_=flags_)[0]:
                yield x
                if time.time() - t0 > 2 * budget: return
            sub = sub[step:]


def length(u, job, spl): return job['n'] if u['form'] in ('plain', 'simd') else E.ct_len(u, spl)


def loc_of(job, kinds='SL'):
    for a in job['acc']:
        if a[0] in kinds: return a[6].replace(E.REPO + '/', '')
    return ''


def nodes_of(u, j, res):
    return T.elements(u, j, res)


# ------------------------------------------------------------------------------------------------ C01
def buffers(u):
    """buffer name -> (is input, is output, element count or None for n)"""
    b = {}
    if u['fam'] == 'ew':
        b['A0'] = [False, True, None]
        for a in u['args']:
            if a['k'] == 'v': b.setdefault('A%d' % a['i'], [False, False, None])[0] = True
    elif u['fam'] in ('mem', 'fill'):
        b['A0'] = [u['fn'] == 'addvec', True, None]
        for i, r in enumerate(u['roles']):
            if r == 'v': b['A%d' % i] = [True, False, None]
    elif u['fam'] == 'pan':
        for o in u['outs']: b['A%d' % o] = [False, True, None]
        b.setdefault('A%d' % u['inp'], [False, False, None])[0] = True
    elif u['fam'] in ('red', 'peak'):
        b['A%d' % u['inp']] = [True, False, None]
        for s in u.get('states') or []: b['A%d' % s] = [u['fam'] == 'peak', True, 1]
    return b


def cover(iv, lo, hi):
    """first byte of [lo,hi) not covered by the intervals, or None"""
    p = lo
    for a, b in sorted(iv):
        if a > p: return p
        p = max(p, b)
        if p >= hi: return None
    return p if p < hi else None


def c01(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = ew_units(cfg)
        for Ty in ('float', 'double'): us += U.memory(Ty) + U.pan(Ty) + U.reductions(Ty)
        con = E.consts(cfg)
        out, errs = analyse_lengths(us, cfg, nsel_std)
        for u, j, res in out:
            rep.count('calls_walked'); rep.count('accesses', len(j['acc']))
            spl = con[u['T']][1]; es = E.ELEM[u['T']]; n = length(u, j, spl)
            check_foot(rep, u, j, cfg, n, es)
        # loop summaries for arbitrary lengths
        sc = [u for u in us if u['form'] in ('plain', 'simd') and (u['fam'] != 'ew' or len(u['kinds']) <= 2 or not u['wrap'])]
        if tier == 'quick': sc = [u for u in sc if u['fam'] != 'ew' or len(u['kinds']) <= 2 or u['kinds'] in ('vvv', 'vrs', 'vvvv', 'vrvr', 'rsv')]
        big = lambda u, l, s: [b + (3 if u['form'] == 'plain' else s) for b in ((256, 65536, 2 ** 31) if tier == 'quick' else (256, 4096, 65536, 2 ** 24, 2 ** 31))] + [2 ** 32 - s]
        for u, n, r in E.scev(sc, cfg, big):
            check_scev(rep, u, n, r, cfg, E.ELEM[u['T']])
    return rep.finish('Footprint analysis: for every entry point, argument combination, element type and configuration the value-flow extraction of the unoptimised IR yields every load and '
                      'store with its exact byte range; obligation per call and buffer: all ranges inside [0,n), reads/writes cover [0,n). For lengths up to 2^32 the loops are summarised by scalar evolution '
                      '(exact trip counts and strides).', {'calls_walked': 9000, 'loop_summaries': 3000})


def check_foot(rep, u, j, cfg, n, es):
    lab = u['label']; B = buffers(u)
    hard = None
    for k, obj, off, size, al, cond, loc, fn, isg in j['acc']:
        if isg: continue
        if obj not in B:
            continue
        cnt = B[obj][2] or n
        if off < 0 or off + size > cnt * es:
            hard = True
            rep.bad('%s [%s]' % (lab, cfg), '%s bytes %d..%d of buffer %s holding %d samples (n=%s)' % ('reads' if k == 'L' else 'writes', off, off + size - 1, obj, cnt, n), loc.replace(E.REPO + '/', ''), key=(lab, cfg, k))
            break
        if k == 'S' and not B[obj][1]:
            hard = True
            rep.bad('%s [%s]' % (lab, cfg), 'writes the input buffer %s' % obj, loc.replace(E.REPO + '/', ''), key=(lab, cfg, 'wi')); break
    if hard: return
    if j['err']:
        if j['err'].startswith('step limit'):
            rep.bad('%s [%s]' % (lab, cfg), 'does not terminate within the step limit for n=%s' % n, j['err'].split('@')[-1].strip(), key=(lab, cfg, 'loop'))
        elif j['err'] == 'aborts': rep.bad('%s [%s]' % (lab, cfg), 'aborts on every path for n=%s' % n, key=(lab, cfg, 'abort'))
        else: rep.undecided('%s [%s]' % (lab, cfg), j['err'])
        return
    for obj, (inp, outp, cnt) in B.items():
        cnt = cnt or n
        for k, flag in (('L', inp), ('S', outp)):
            if not flag: continue
            iv = [(a[2], a[2] + a[3]) for a in j['acc'] if a[0] == k and a[1] == obj]
            g = cover(iv, 0, cnt * es)
            if g is not None:
                if k == 'L' and obj == 'A0' and u['fam'] == 'peak': continue
                rep.bad('%s [%s]' % (lab, cfg), 'does not %s sample %d of buffer %s (n=%s)' % ('read' if k == 'L' else 'write', g // es, obj, n), loc_of(j, k), key=(lab, cfg, 'cov' + k))
                return
    # a write must be unconditional: the final content may not be the initial content on some path
    for obj, (inp, outp, cnt) in B.items():
        if outp and cnt is None:
            have = {o for o, s, t in j['mem'].get(obj, [])}
            und = [i for i in range(n) if i * es not in have]
            # an entry missing here means the final value is the initial one; acceptable only when that is the right value (in place identity), which the value checks decide
            if und and not inp and u['fam'] != 'peak':
                rep.bad('%s [%s]' % (lab, cfg), 'leaves sample %d of %s unwritten (n=%s)' % (und[0], obj, n), loc_of(j, 'S'), key=(lab, cfg, 'unw')); return
    rep.ok('exact footprint')


def check_scev(rep, u, n, r, cfg, es):
    lab = u['label']; B = buffers(u)
    rep.count('loop_summaries')
    if r.get('err'):
        rep.undecided('%s [%s]' % (lab, cfg), 'loop summary: ' + r['err']); return
    got = {}
    for k, obj, start, size, steps, unc, loc in r['acc']:
        if obj not in B: continue
        cnt = (B[obj][2] or n) * es
        lo = hi = start
        for st, c in steps:
            if st >= 0: hi += st * (c - 1)
            else: lo += st * (c - 1)
        if lo < 0 or hi + size > cnt:
            rep.bad('%s [%s]' % (lab, cfg), '%s bytes up to %d of buffer %s holding %d bytes (n=%d, strides %s)' % ('reads' if k == 'L' else 'writes', hi + size - 1, obj, cnt, n, steps), loc.replace(E.REPO + '/', ''), key=(lab, cfg, k)); return
        got.setdefault((k, obj), []).append((start, size, steps, unc))
    for obj, (inp, outp, cnt) in B.items():
        for k, flag in (('L', inp), ('S', outp)):
            if not flag or cnt: continue
            if u['fam'] == 'peak' and k == 'L' and obj != 'A%d' % u['inp']: continue
            acc = got.get((k, obj), [])
            tot = covered(acc, n * es)
            if tot is None: rep.undecided('%s [%s]' % (lab, cfg), 'loop summary: irregular strides'); return
            if tot < n * es:
                if any(not a[3] for a in acc): rep.undecided('%s [%s]' % (lab, cfg), 'loop summary: conditional access'); return
                rep.bad('%s [%s]' % (lab, cfg), '%s only %d of %d bytes of buffer %s (n=%d)' % ('reads' if k == 'L' else 'writes', tot, n * es, obj, n), '', key=(lab, cfg, 'cov' + k)); return
    rep.ok('loop summary')


def covered(acc, total):
    """number of bytes covered by start + step*i accesses (single loops tiled by their stride)"""
    groups = {}
    segs = []
    for start, size, steps, unc in acc:
        # inner loops that tile a contiguous block
        rest = []
        for st, c in sorted(steps, key=lambda z: abs(z[0])):
            if st < 0: start, st = start + st * (c - 1), -st
            if c == 1 or st == 0: continue
            if st <= size and not rest: size += st * (c - 1)
            else: rest.append((st, c))
        steps = rest
        if not steps: segs.append((start, start + size)); continue
        if len(steps) != 1: return None
        st, c = steps[0]
        groups.setdefault((st, c), []).append((start, size))
    for (st, c), l in groups.items():
        l.sort()
        # contiguous run of accesses tiling one stride
        runs = []
        for s, z in l:
            if runs and s <= runs[-1][1]: runs[-1][1] = max(runs[-1][1], s + z)
            else: runs.append([s, s + z])
        for a, b in runs:
            if b - a >= st: segs.append((a, a + st * (c - 1) + (b - a)))
            elif c <= 4: segs += [(a + st * i, b + st * i) for i in range(c)]
            else:
                # part of the stride: maybe completed by a shifted run of the same loop
                rest = [(x % st, y - x) for x, y in runs]
                ms = sum(z for _, z in rest)
                if ms < st: return min(total - 1, c * ms)
                return None
    segs.sort(); p = 0; cov = 0
    for a, b in segs:
        a = max(a, p)
        if b > a: cov += b - a; p = b
    return cov


# ------------------------------------------------------------------------------------------------ value checks of elementwise functions
_ev = {}


def undef_bad(node, leafs, ty):
    """does the value change with the contents of an undefined value?"""
    if not any(P.NODES[l][0] == 'undef' for l in P.leaves(node)): return None
    real = [l for l in P.leaves(node) if P.NODES[l][0] != 'undef']
    v = D.cast([0.0, 1.0, -0.7, 0.3, 5.5, -123.4, 1e5, 1e-6], ty)
    if len(real) > 4: return None
    env = {}
    if real:
        arrs = D.product([v] * len(real))
        for l, a in zip(real, arrs): env[l] = a.astype(D.DT[P.NODES[l][1]]) if P.NODES[l][1] in 'fd' else a.astype(np.uint64)
    try:
        r = [P.tobits(x, P.NODES[node][1]) for x in (P.evaluate([node], env, 0)[0], P.evaluate([node], env, 0x3f9d70a33f9d70a3)[0], P.evaluate([node], env, 0xc15b22d0c15b22d0)[0])]
    except P.NoEval: return None
    if not (np.array_equal(r[0], r[1]) and np.array_equal(r[0], r[2])): return True
    return None


def value_verdict(fn, ar, ty, node, leafs, ramps=None, i=0, plain=False):
    """verdict of one value template; leafs: leaf node per argument position"""
    key = (fn, ar, ty, node, tuple(leafs), i if ramps else 0, plain)
    if key in _ev: return _ev[key]
    _ev[key] = v = _value_verdict(fn, ar, ty, node, leafs, ramps, i, plain)
    return v


def _value_verdict(fn, ar, ty, node, leafs, ramps, i, plain=False):
    if undef_bad(node, leafs, ty): return D.Verdict(D.BAD, 'the result depends on an undefined value: %s' % P.show(node, 4), 'undefined')
    polys = []
    lv = []
    raw = False
    for p, l in enumerate(leafs):
        a = P.leaf(('a', p), ty)
        if ramps and p in ramps and (a in P.leaves(node) or P.leaf(('s', p), ty) in P.leaves(node)):
            s = P.leaf(('s', p), ty); raw = True
            polys.append({((a, 1),): Fraction(1), ((s, 1),): Fraction(i)} if i else {((a, 1),): Fraction(1)}); lv += [a] + ([s] if True else [])
        else: polys.append({((l, 1),): Fraction(1)}); lv.append(l)
    lv = list(dict.fromkeys(lv))
    alien = [l for l in P.leaves(node) if P.NODES[l][0] == 'leaf' and l not in lv and P.NODES[l][2][0] in ('x', 'out')]
    if alien:
        # the specified value does not depend on samples of another index: two inputs that differ only there and give clearly different results refute
        w = depends(node, alien, ty, 1e-3)
        return D.Verdict(D.BAD, 'depends on %s: %s' % (P.show(alien[0]), w), 'foreign sample') if w else D.Verdict(D.OPEN, 'depends on %s' % P.show(alien[0]))
    if fn in CLS['arith']:
        rel = None
        if fn == 'reciprocal' and ty == 'f': rel = 5e-7
        v = D.arith_verdict(fn, ar, node, ty, polys, lv, rel=rel, extra_mag=(1.0 if not raw else 2.0 + i / 2.0))
        if fn in D.EXTREME and not raw and len(lv) == ar and v.st != D.BAD:
            w = D.extreme_verdict(fn, node, ty, lv)
            if w.st == D.BAD: return w
        return v
    from . import num
    return num.verdict(fn, ar, node, ty, leafs, lv, raw, plain)


def run_values(rep, fns, cfgs, nsel=nsel_few, tier='quick', full=None, forms=('plain', 'simd', 'ct'), only_kinds=None):
    for cfg in cfgs:
        rep.configs.add(cfg)
        us = ew_units(cfg, fns, full=full, forms=forms, only_kinds=only_kinds)
        out, errs = analyse_lengths(us, cfg, nsel, 'r', 2100, 8)
        con = E.consts(cfg)
        for u, j, res in out:
            rep.count('calls')
            if j['err']: rep.undecided('%s [%s]' % (u['label'], cfg), j['err']); continue
            ty = T.ETY[u['T']]; es = E.ELEM[u['T']]; n = length(u, j, con[u['T']][1])
            els, pos = T.elements(u, j, res)
            leafs = [D.X(p, ty) for p in pos]
            ramps = [p for p, k in enumerate(u['kinds']) if k == 'r']
            seen = set(); have = set()
            for e in els:
                have.add(e.i); rep.count('samples')
                bad = [m for m in e.ramps if m[1] != e.i]
                if bad:
                    rep.bad('%s [%s]' % (u['label'], cfg), 'sample %d is computed with argument %d at value + %s*slope' % (e.i, bad[0][0], bad[0][1]), loc_of(j, 'S'), key=(u['label'], cfg)); break
                k = (e.node, e.i if any(P.NODES[l][2][0] in ('a', 's') for l in P.leaves(e.node) if P.NODES[l][0] == 'leaf') else 0)
                if k in seen: continue
                seen.add(k); rep.count('templates')
                v = value_verdict(u['fn'], u['ar'], ty, e.node, leafs, ramps, e.i, u['form'] == 'plain')
                rep.take(v, u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg, 'v'))
                if v.st == D.BAD: break
                if v.st == D.PROVED: rep.sample('%s [%s] sample %d = %s : %s' % (u['label'], cfg, e.i, P.show(e.node, 4), v.dom))
            miss = [i for i in range(n) if i not in have]
            if miss and not (u['alias'] and u['fn'] not in ()):
                rep.bad('%s [%s]' % (u['label'], cfg), 'sample %d is not written' % miss[0], loc_of(j, 'S'), key=(u['label'], cfg, 'm'))


def c02(rep, tier):
    run_values(rep, CLS['arith'], ALLCFG, nsel_std if tier == 'thorough' else nsel_few)
    return rep.finish('Polynomial normal form of every output sample (exact rational coefficients, rounding-error coefficient per monomial, one noise symbol per reciprocal approximation) compared with the '
                      'formula; refutation by exact IEEE evaluation of the extracted expression on region representatives.', {'calls': 4000, 'templates': 4000})


def c03(rep, tier):
    run_values(rep, CLS['order'], ALLCFG, nsel_std if tier == 'thorough' else nsel_few)
    return rep.finish('Comparison-only terms decided by enumerating all orderings of the arguments against each other and against every constant of the term (NaN, infinities, signed zero, denormals included).',
                      {'calls': 3000, 'templates': 3000})


# ------------------------------------------------------------------------------------------------ C10 ramps
def ramp_precise(x, p, i, ty, zero=False):
    """None when the error bound of a ramp sub-expression is fine, else a witness or ''"""
    a = P.leaf(('a', p), ty); s = P.leaf(('s', p), ty); u = T.UROUND[ty]
    f = T.lin(x)
    ba, bs = 2 * (i + 4) * u, 2 * (i + 4) * (i + 1) * u
    if f[2].get(a, 0.0) <= ba and f[2].get(s, 0.0) <= bs and f[2].get(1, 0.0) == 0: return None
    v = D.cast([1.0, 0.1, -0.7, 3.3333333, 123.456, 1e-3, 7e5, 1.1, 0.0], ty); w = D.cast([0.1, -0.3, 1e-3, 0.7777777, 1e-7, 13.7, 0.0], ty)
    A, S = D.product([v, w])
    try: got = P.evaluate([x], {a: A, s: S})[0]
    except P.NoEval: return ''
    LD = np.longdouble
    ex = A.astype(LD) + LD(i) * S.astype(LD)
    bad = ~(abs(got.astype(LD) - ex) <= LD(ba) * abs(A.astype(LD)) + LD(bs) * abs(S.astype(LD)) + LD(D.MINNORM[ty]))
    if bad.any():
        k = int(np.argmax(bad)); return 'value %r, slope %r -> %r at sample %d instead of %r' % (A[k].item(), S[k].item(), got[k].item(), i, float(ex[k]))
    return ''


def nsel_ramp(u, lanes, spl):
    if u['form'] == 'plain': return [1, 7]
    if u['form'] == 'simd': return [spl, 4 * spl]
    return [None]


def c10(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = ew_units(cfg, only_kinds=lambda k: 'r' in k)
        out, errs = analyse_lengths(us, cfg, nsel_ramp, 'r', 2100, 8)
        for u, j, res in out:
            rep.count('calls')
            if j['err']: rep.undecided('%s [%s]' % (u['label'], cfg), j['err']); continue
            ramp_unit(rep, u, j, res, cfg)
        us = [u for Ty in ('float', 'double') for u in U.memory(Ty) + U.pan(Ty) if u.get('var') == 'ramp']
        from . import misc
        misc.run_mem(rep, us, cfg, nsel_ramp)
    return rep.finish('Linear forms over (value, slope) of every ramp sub-expression reaching output sample i: the slope coefficient must be exactly i (rational arithmetic), the rounding-error coefficients must be '
                      'those of an accumulation in the element type; the remaining expression is decided by the formula domains.', {'calls': 5000, 'ramp_forms': 5000})


def ramp_unit(rep, u, j, res, cfg):
    ty = T.ETY[u['T']]
    els, pos = T.elements(u, j, res)
    ramps = [p for p, k in enumerate(u['kinds']) if k == 'r']
    leafs = [D.X(p, ty) for p in pos]
    lab = '%s [%s]' % (u['label'], cfg)
    seen = set()
    for e in els:
        if e.i is None: continue
        rep.count('samples')
        for (p, k, ea, es, e1, x) in e.ramps:
            rep.count('ramp_forms')
            if k != e.i:
                # definite: exact coefficient differs
                rep.bad(lab, 'sample %d uses argument %d at value + %s*slope' % (e.i, p, k), loc_of(j, 'S'), key=(u['label'], cfg)); return
            if (x, e.i) in seen: rep.ok('linear form'); continue
            seen.add((x, e.i))
            w = ramp_precise(x, p, e.i, ty) if P.leaf(('s', p), ty) in P.leaves(x) else None
            if w is None: rep.ok('linear form')
            elif w: rep.bad(lab, w, loc_of(j, 'S'), key=(u['label'], cfg, 'prec')); return
            else: rep.undecided(lab, 'ramp error bound')
        lv = P.leaves(e.node)
        for p in ramps:
            a, s = P.leaf(('a', p), ty), P.leaf(('s', p), ty)
            if a in lv or s in lv:
                if u['fn'] in CLS['arith']:
                    rep.take(value_verdict(u['fn'], u['ar'], ty, e.node, leafs, ramps, e.i), u['label'], cfg, loc_of(j, 'S'), key=(u['label'], cfg, 'v'))
                else:
                    w = ramp_witness(e.node, p, e.i, u, ty, leafs)
                    if w: rep.bad(lab, w, loc_of(j, 'S'), key=(u['label'], cfg, 'w')); return
                    rep.undecided(lab, 'ramp enters outside a linear form')
                break
            if leafs[p] not in lv:
                rep.bad(lab, 'sample %d does not depend on ramped argument %d' % (e.i, p), loc_of(j, 'S'), key=(u['label'], cfg, 'dep')); return


_rw = {}


def ramp_witness(node, p, i, u, ty, leafs):
    """order functions with a ramp that is not recognised: compare with the oracle at representatives"""
    try: ar, orc = D.order_oracle(u['fn'], ty)
    except KeyError: return None
    key = (node, p, i, u['fn'])
    if key in _rw: return _rw[key]
    lv = sorted(P.leaves(node))
    v = D.cast([0.0, 1.0, -0.7, 2.5, 123.0, -64.0, 0.25], ty)
    if len(lv) > 6 or any(P.NODES[l][0] != 'leaf' or P.NODES[l][2][0] not in ('x', 'a', 's') or len(P.NODES[l][2]) != 2 for l in lv): return None
    env = dict(zip(lv, D.product([v] * len(lv))))
    n = len(next(iter(env.values())))
    args = []
    for q, k in enumerate(u['kinds']):
        x = D.X(q, ty); a, s = P.leaf(('a', q), ty), P.leaf(('s', q), ty)
        if x in env: args.append(env[x])
        elif a in env or s in env: args.append((env.get(a, np.zeros(n, D.DT[ty])) + D.DT[ty](i) * env.get(s, np.zeros(n, D.DT[ty]))).astype(D.DT[ty]))
        else: _rw[key] = None; return None
    try: got = P.evaluate([node], env)[0]
    except P.NoEval: _rw[key] = None; return None
    exp, valid, mode = orc(*args)
    # representatives are small dyadic numbers times small integers: the ramp is exact unless a decimal fraction is involved
    ok = valid
    for q in args: ok = ok & np.isfinite(q) & (q * 4 == np.rint(q * 4))
    for l in lv: ok = ok & (env[l] * 4 == np.rint(env[l] * 4))
    bad = ~((got == exp) | (np.isnan(got) & np.isnan(exp))) & ok
    _rw[key] = D.witness(lv, env, int(np.argmax(bad)), got, repr(exp[int(np.argmax(bad))].item())) if np.any(bad) else None
    return _rw[key]


# ------------------------------------------------------------------------------------------------ C18 / C23
_cmp = {}


def same_value(t, r, ty, exact=False, finite_domain=None):
    """compare two templates: True (identical), text (they differ at a representative), None (no difference found, not identical)"""
    if t == r: return True
    key = (t, r, exact)
    if key in _cmp: return _cmp[key]
    _cmp[key] = v = _same_value(t, r, ty, exact)
    return v


def _same_value(t, r, ty, exact):
    lv = sorted(P.leaves(t) | P.leaves(r), key=lambda l: str(P.NODES[l]))
    lv = [l for l in lv if P.NODES[l][0] != 'undef']
    if any(P.NODES[l][1] not in 'fd' for l in lv): return None
    k = len(lv)
    if k == 0: vals = [0.0]
    elif k == 1: vals = [0.0] + [s * float(x) for x in np.geomspace(1e-6, 1e6, 300) for s in (1, -1)] + [s * x for x in (0.5, 1.0, 1.5, 2.0, 2.5, 20.0, 80.0, 100.0, 8388609.0, 3e9, 1e19) for s in (1, -1)]
    elif k == 2: vals = [0.0, 1.0, -1.0, 0.3, -0.7, 0.5, 2.5, -3.25, 17.3, -90.5, 123.456, -1e4, 1e-4, 3e-6, 7e6]
    elif k == 3: vals = [0.0, 1.0, -0.7, 0.3, 2.5, -17.3, 123.456, 1e-4]
    elif k <= 5: vals = [0.3, -0.7, 2.5, -17.3, 1.0]
    elif k <= 8: vals = [0.3, -0.7, 2.5]
    else: return None
    cs = []
    for z in (t, r):
        for c in sorted(D.consts_of(z, ty)):
            if 1e-30 < c < 1e30 and k <= 2: cs += [c, -c, float(D.nxt(c, ty)), -float(D.nxt(c, ty, -1))]
    arr = D.cast(sorted(set(vals) | set(cs[:60])), ty)
    env = dict(zip(lv, [x.astype(D.DT[P.NODES[l][1]]) for l, x in zip(lv, D.product([arr] * k))])) if k else {}
    try:
        a, b = P.evaluate([t, r], env)
        if any(P.NODES[l][0] == 'undef' for l in P.leaves(t) | P.leaves(r)):
            a2, b2 = P.evaluate([t, r], env, 0x3f9d70a33f9d70a3)
    except P.NoEval: return None
    if a.dtype.kind != 'f' or b.dtype.kind != 'f':
        a, b = D.P.tobits(a, P.NODES[t][1]).astype(np.float64), D.P.tobits(b, P.NODES[r][1]).astype(np.float64)
    with np.errstate(all='ignore'):
        LD = np.longdouble; u = LD(T.UROUND[ty])
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        near = np.isfinite(a) & np.isfinite(b) & (abs(a.astype(LD) - b.astype(LD)) <= (0 if exact else 64 * u * (1 + abs(a.astype(LD)) + abs(b.astype(LD)))))
        bad = ~(same | near)
        if not exact: bad &= np.isfinite(a) | np.isfinite(b)
    if bad.any():
        i = int(np.argmax(bad)); return D.witness(lv, env, i, a, repr(b[i].item())) if k else '%r instead of %r' % (a[0].item(), b[0].item())
    return None


def c18(rep, tier):
    from . import misc as M
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        M.run_mem(rep, [u for Ty in ('float', 'double') for u in U.memory_inplace(Ty) + [v for v in U.pan(Ty) if v['alias']]], cfg, M.nsel_mem)
        al = ew_units(cfg, alias=True, only_kinds=lambda k: 'v' in k)
        if tier == 'quick' and cfg not in ('sse2', 'avx', 'gen'): al = [u for u in al if u['ar'] < 3 or u['kinds'] in ('vvv', 'vsr', 'srv', 'rvs', 'vvvv', 'vrvr')]
        base = {}
        for u in al: base.setdefault((u['fn'], u['ar'], u['T'], u['kinds'], u['form'], u['ctn']), None)
        bu = [U.elementwise(fn, ar, Ty, k, form, c) for fn, ar, Ty, k, form, c in base]
        ns = lambda u, l, s: [1, 5] if u['form'] == 'plain' else [s, 2 * s] if u['form'] == 'simd' else [None]
        ref = {}
        for u, j, res in analyse_lengths(bu, cfg, ns, 'r', 2100, 8)[0]:
            if j['err']: continue
            els, pos = T.elements(u, j, res)
            ref[(u['fn'], u['ar'], u['T'], u['kinds'], u['form'], u['ctn'], j['n'])] = {e.i: e.node for e in els}
        sub = {}
        for u, j, res in analyse_lengths(al, cfg, ns, 'r', 2100, 8)[0]:
            lab = '%s [%s]' % (u['label'] + ' arguments %s are the output' % ','.join(map(str, u['alias'])), cfg)
            rep.count('calls')
            if j['err']: rep.undecided(lab, j['err']); continue
            r = ref.get((u['fn'], u['ar'], u['T'], u['kinds'], u['form'], u['ctn'], j['n']))
            if r is None: rep.undecided(lab, 'no reference'); continue
            ty = T.ETY[u['T']]
            els, pos = T.elements(u, j, res)
            m = {D.X(p, ty): D.X(q, ty) for p, q in enumerate(pos) if p != q}
            got = {e.i: e.node for e in els}
            memo = sub.setdefault((ty, tuple(sorted(m.items()))), {})
            verdict = True
            own = D.X(u['alias'][0], ty)
            for i, t in r.items():
                rep.count('samples')
                w = P.rebuild(t, lambda x: m.get(x) if P.NODES[x][0] == 'leaf' else None, memo) if m else t
                g = got.get(i, own)         # unwritten: keeps the input value
                s = same_value(g, w, ty)
                if s is True: continue
                if s: rep.bad(lab, 'sample %s: %s' % (i, s), loc_of(j, 'S'), key=(u['label'], cfg)); verdict = False; break
                verdict = None
            if verdict: rep.ok('identical value graph')
            elif verdict is None: rep.undecided(lab, 'value graphs differ without a witness')
    return rep.finish('For every set of aliased buffer arguments (also addvec, the SIMD copies and pan2) the value graph of each output sample extracted with output and input being one object must equal the graph extracted with distinct objects '
                      '(leaves identified); graphs that differ are compared on region representatives.', {'calls': 6000, 'samples': 30000})


def c23(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = ew_units(cfg)
        ns = lambda u, l, s: [1, 2, 5] if u['form'] == 'plain' else [s, 3 * s] if u['form'] == 'simd' else [None]
        con = E.consts(cfg)
        proto = {}
        for u, j, res in analyse_lengths(us, cfg, ns, 'r', 2100, 8)[0]:
            lab = '%s [%s]' % (u['label'], cfg)
            rep.count('calls')
            if j['err']: rep.undecided(lab, j['err']); continue
            ty = T.ETY[u['T']]; n = length(u, j, con[u['T']][1])
            els, pos = T.elements(u, j, res)
            leafs = [D.X(p, ty) for p in pos]
            ok = True
            have = {e.i for e in els}
            miss = [i for i in range(n) if i not in have]
            if miss: rep.bad(lab, 'sample %d is skipped (n=%d)' % (miss[0], n), loc_of(j, 'S'), key=(u['label'], cfg)); continue
            for e in els:
                rep.count('samples')
                lv = P.leaves(e.node)
                raw = any(P.NODES[l][0] == 'leaf' and P.NODES[l][2][0] in ('a', 's') for l in lv)
                lost = [p for p, l in enumerate(leafs) if l not in lv and not (u['kinds'][p] == 'r' and raw)]
                if lost: rep.bad(lab, 'sample %d does not depend on argument %d at the same index' % (e.i, lost[0]), loc_of(j, 'S'), key=(u['label'], cfg)); ok = False; break
                alien = [l for l in lv if P.NODES[l][0] == 'leaf' and l not in leafs and P.NODES[l][2][0] not in ('a', 's')]
                if alien:
                    w = depends(e.node, alien, ty)
                    if w: rep.bad(lab, 'sample %d depends on %s: %s' % (e.i, P.show(alien[0]), w), loc_of(j, 'S'), key=(u['label'], cfg)); ok = False; break
                    rep.undecided(lab, 'other leaves'); ok = None; break
                if undef_bad(e.node, leafs, ty): rep.bad(lab, 'sample %d depends on an undefined lane' % e.i, loc_of(j, 'S'), key=(u['label'], cfg)); ok = False; break
                if raw: ok = None if ok else ok; continue
                k = (u['name'], e.node)
                if u['name'] not in proto: proto[u['name']] = (e.node, e.i, n); continue
                pn, pi, pnn = proto[u['name']]
                s = same_value(e.node, pn, ty)
                if s is True: continue
                if s: rep.bad(lab, 'sample %d of %d is computed differently from sample %d of %d: %s' % (e.i, n, pi, pnn, s), loc_of(j, 'S'), key=(u['label'], cfg)); ok = False; break
                ok = None
            if ok: rep.ok('one value graph for all samples')
            elif ok is None: rep.undecided(lab, 'value graphs differ without a witness')
    return rep.finish('Dependence analysis: the leaves of the value graph of output sample i must be exactly the arguments at index i, and the graph must be the same (hash-consed identity) for every i, lane and length.',
                      {'calls': 15000, 'samples': 100000})


def depends(node, alien, ty, margin=0.0):
    """definite influence of a foreign leaf, shown at representatives: the own arguments are kept and the foreign samples varied"""
    lv = sorted(l for l in P.leaves(node) if P.NODES[l][0] == 'leaf')
    own = [l for l in lv if l not in alien]
    rng = np.random.RandomState(11)
    vals = [0.3, -0.7, 2.5, 0.0, -40.25, 0.5, 1.0, -1.0, 4.0, -4.0, -0.3, 1e-40, 1e20, float('inf'), float('nan')]
    k = len(alien)
    # foreign assignments: independent, all equal, balanced (sum zero), one exceptional sample
    A = rng.choice(len(vals) - 2, (160, k))
    rows = [np.array(vals)[A], np.repeat(np.array(vals)[:, None], k, 1)]
    base = rng.choice([0.0, 0.3, 1.0, 4.0, 2.5], (60, k)); sg = np.where(np.arange(k) % 2, -1.0, 1.0)
    rows += [np.repeat(base[:, :1], k, 1) * sg, np.where(np.arange(k) < 2, base[:, :1] * sg, 0.0), np.where(np.arange(k) == 0, base[:, :1], 0.0)]
    for v in vals: rows.append(np.where(np.eye(k, dtype=bool), v, 0.3))
    F_ = np.concatenate(rows)
    O = rng.choice(vals[:11], (24, max(1, len(own)))); O[:11] = np.array(vals[:11])[:, None]
    fo = len(F_); n = fo * len(O)

    def col(l, x): return x.astype(D.DT[P.NODES[l][1]]) if P.NODES[l][1] in 'fd' else np.zeros(n, np.uint64)
    with np.errstate(all='ignore'):
        env = {l: col(l, np.repeat(O[:, j], fo)) for j, l in enumerate(own)}
        env.update({l: col(l, np.tile(F_[:, j], len(O))) for j, l in enumerate(alien)})
        try: a = np.broadcast_to(P.evaluate([node], env)[0], (n,)).reshape(len(O), fo)
        except P.NoEval: return None
        b = a[:, :1]
        d = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if margin: d &= np.isfinite(a) & np.isfinite(b) & (abs(a - b) > margin * (1 + abs(a) + abs(b)))
    if d.any():
        i, j = np.unravel_index(int(np.argmax(d)), d.shape)
        return 'value %r becomes %r for %s' % (b[i, 0].item(), a[i, j].item(), ', '.join('%s=%g' % (P.show(l), F_[j, q]) for q, l in enumerate(alien[:4])))
    return None
