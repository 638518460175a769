"""Alignment, effects, usability and undefined-value checks."""
import os, re, json, subprocess
import numpy as np
from . import units as U, engine as E, pool as P, decide as D, tmpl as T, buf as B, misc as M, vecs as V
from .buf import ALLCFG, analyse_lengths, length, loc_of


def all_units(cfg, ew=True, full=False, vec=True):
    us = B.ew_units(cfg, full=full) if ew else []
    for Ty in ('float', 'double'):
        us += U.memory(Ty) + U.pan(Ty) + U.reductions(Ty)
        if vec: us += U.vecops(Ty, cfg) + U.vecio(Ty)
    if vec and cfg not in ('gen', 'sse'): us += U.intvec()
    return us


# ------------------------------------------------------------------------------------------------ C17
def align_bound(u, obj, vb):
    """alignment the caller guarantees for buffer obj of unit u (bytes); vb: size of one vec"""
    es = E.ELEM[u['T']]
    if u['fam'] in ('vec', 'intvec'): return es
    if u['fam'] == 'vecio':
        if obj == 'A0': return vb if u.get('st') in ('store_aligned', 'store_aligned_stream') else es
        return vb if u.get('ld') == 'load_aligned' else es
    if u['form'] == 'plain': return es
    fn = u['fn']
    if fn in ('zerovec_na', 'setvec_na'): return es
    if fn.startswith('copyvec_'):
        src, dst = fn[8], fn[9]
        return vb if (dst if obj == 'A0' else src) == 'a' else es
    if u['fam'] in ('red', 'peak') and obj in ['A%d' % s for s in u.get('states') or []]: return es
    return vb


def cond_holds(j, res, u, cond, obj, off, al):
    """is (address of obj + off) a multiple of al whenever cond holds?  decided over all residues modulo 64 of all buffer addresses"""
    es = E.ELEM[u['T']]
    names = {}

    def lm(x):
        if x.op == 'ptr': return P.leaf(('ptr', x.c, x.off), 'p')
        return None
    t = P.import_terms(res, [cond], lm)[0]
    objs = {int(k): v for k, v in j['bufobj'].items()}
    lv = list(P.leaves(t))
    used = sorted({objs.get(P.NODES[l][2][1]) for l in lv if P.NODES[l][0] == 'leaf' and P.NODES[l][2][0] == 'ptr'} | {obj})
    if None in used or len(used) > 3: return None
    r = np.arange(0, 64, es, dtype=np.uint64)
    res_ = dict(zip(used, D.product([r] * len(used))))
    env = {}
    for l in lv:
        if P.NODES[l][0] == 'leaf' and P.NODES[l][2][0] == 'ptr': env[l] = res_[objs[P.NODES[l][2][1]]] + np.uint64(4096) + np.uint64(P.NODES[l][2][2] & ((1 << 64) - 1))
        else: return None          # depends on data
    try: c = P.evaluate([t], env)[0]
    except P.NoEval: return None
    mis = ((res_[obj].astype(np.int64) + off) % al) != 0
    return not bool(np.any(c & mis))


def c17(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        con = E.consts(cfg)
        us = all_units(cfg, full=False)
        ns = lambda u, l, s: [None] if u['form'] in ('ct', 'vec') else [s + 1] if u['form'] == 'plain' else [2 * s]
        need = {'float': 1, 'double': 1}
        alg = {}
        for u, j, res in analyse_lengths(us, cfg, ns, 'x', 600, 6)[0]:
            lab = '%s [%s]' % (u['label'], cfg)
            if u['fam'] == 'vecio' and u['spec'] == 'is_aligned': alg[u['T']] = (u, j, res); continue
            rep.count('calls')
            if j['err'] and not j['acc']: rep.undecided(lab, j['err']); continue
            vb = con[u['T']][2]; good = True
            for k, obj, off, size, al, cond, loc, fn, isg in j['acc']:
                if isg or not re.match(r'A\d+$', obj): continue
                rep.count('accesses')
                if u['fam'] == 'vecio' and ((k == 'L' and u.get('ld') == 'load_aligned' and obj == 'A1') or (k == 'S' and 'aligned' in (u.get('st') or '') and obj == 'A0')): need[u['T']] = max(need[u['T']], al)
                b = align_bound(u, obj, vb)
                # alignment of the address guaranteed by the caller
                if al <= b and off % al == 0: continue
                if al <= E.ELEM[u['T']] and off % al == 0: continue
                if b % al == 0 and off % al == 0: continue
                ct = res.terms.get(cond)
                if ct is not None and not (ct.op == 'const'):
                    h = cond_holds(j, res, u, cond, obj, off, al)
                    if h: rep.ok('guarded by an alignment test'); continue
                    if h is None: rep.undecided(lab, 'access under a data-dependent condition'); good = None; continue
                rep.bad(lab, '%s of %s at byte %d assumes %d-byte alignment (the caller guarantees %d)' % ('load' if k == 'L' else 'store', obj, off, al, b), loc.replace(E.REPO + '/', ''), key=(u['label'], cfg)); good = False; break
            if good: rep.ok('alignment attributes')
        for Ty, (u, j, res) in alg.items():
            lab = '%s [%s]' % (u['label'], cfg)
            rep.count('predicates')
            if j['err']: rep.undecided(lab, j['err']); continue
            es = E.ELEM[Ty]
            t = P.import_terms(res, [j['ret'][0]], lambda x: P.leaf('addr', 'p') if x.op == 'ptr' else None)[0]
            r = np.arange(0, 256, es, dtype=np.uint64)
            try: got = P.evaluate([t], {P.leaf('addr', 'p'): r + np.uint64(1 << 20)})[0]
            except P.NoEval as e: rep.undecided(lab, str(e)); continue
            got = np.broadcast_to(got, r.shape).astype(np.uint64) & np.uint64(1)
            exp = (r % np.uint64(max(need[Ty], es)) == 0).astype(np.uint64)
            if np.array_equal(got, exp): rep.ok('residues modulo 256')
            else:
                k = int(np.argmax(got != exp)); rep.bad(lab, 'is_aligned is %s for an address that is %d modulo %d while the aligned accesses need %d bytes' % (bool(got[k]), int(r[k]), 256, need[Ty]), 'is_aligned', key=(u['label'], cfg))
    return rep.finish('Alignment attribute of every load and store instruction on a caller buffer against the guarantee of the called form (element size for plain and unaligned forms, one vec for aligned forms); '
                      'guards that test addresses are evaluated over all residues; is_aligned is evaluated over all residues modulo 256.', {'calls': 9000, 'accesses': 40000, 'predicates': 14})


# ------------------------------------------------------------------------------------------------ C19
MATHFN = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'pow', 'sqrt', 'cbrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'rint',
          'nearbyint', 'fmod', 'fmin', 'fmax', 'copysign', 'lround', 'lrint', 'llrint', 'llround', 'ldexp', 'scalbn', 'hypot', 'remainder', 'fma', 'fdim', 'ilogb', 'logb', 'erf', 'erfc', 'exp10', 'asinh', 'acosh', 'atanh', 'nextafter', 'abs', 'labs'}
MEMFN = {'memcpy', 'memset', 'memmove', 'memcmp', '__assert_fail', '__clang_call_terminate', '__assert_rtn', 'abort'}


def pure(n):
    if n in MEMFN: return True
    for s in ('', 'f', 'l'):
        if n.endswith(s) and (n[:len(n) - len(s)] if s else n) in MATHFN: return True
    return bool(re.match(r'__(isnan|isinf|finite|signbit|fpclassify|isnormal|issignaling)[fl]?$', n))


def c19(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = all_units(cfg, full=False)
        byname = {u['name']: u for u in us}
        for extra in ((), ('-DNDEBUG',)) if tier == 'thorough' or cfg in ('gen', 'sse2', 'avx') else ((),):
            ms, errs = E.graph(us, cfg, extra=('-fexceptions',) + extra)
            stored = {e[0].split()[-1] for m in ms for x in m['units'].values() for e in x['eff'] if e[0].startswith(('stores global', 'passes mutable'))}
            if any(m['ctors'] for m in ms): rep.bad('static initialisation [%s]' % cfg, 'the headers define objects with dynamic initialisation', key=('ctor', cfg))
            for m in ms:
                und = set(m['undefined'])
                for nm, x in m['units'].items():
                    u = byname[nm]; lab = '%s [%s]' % (u['label'], cfg); good = True
                    rep.count('functions', x['fns']); rep.count('instructions', x['insts']); rep.count('entry_points')
                    for what, where in x['eff']:
                        w = None; where = where.replace(E.REPO + '/', '')
                        if what.startswith('call '):
                            n = what[5:]
                            if not pure(n) and not (n == '__gxx_personality_v0'): w = 'calls %s' % demangle(n)
                        elif what.startswith('stores global'): w = 'writes the global %s' % demangle(what.split()[-1])
                        elif what.startswith('loads mutable global'):
                            g = what.split()[-1]
                            if g in stored or g in und: w = 'reads the mutable global %s' % demangle(g)
                        elif what.startswith('passes mutable'): w = 'passes the address of the mutable global %s' % demangle(what.split()[-1])
                        elif what in ('atomic', 'asm'): w = 'uses %s' % what
                        if w: rep.bad(lab, w, where, key=(u['label'], cfg, what)); good = False
                    if good: rep.ok('reachable effects')
        # exact: every store of the walked program goes to an output argument
        ns = lambda u, l, s: [None] if u['form'] in ('ct', 'vec') else [3] if u['form'] == 'plain' else [s]
        for u, j, res in E.analyse(us, cfg, ns)[0]:
            rep.count('walks')
            outs = {'A%d' % o for o in u['outs']} | {'A%d' % s for s in u.get('states') or []}
            bad = [a for a in j['acc'] if a[0] == 'S' and a[1] not in outs] + [a for a in j['acc'] if a[8] and a[0] == 'S']
            if bad: rep.bad('%s [%s]' % (u['label'], cfg), 'writes %s, which is no output argument' % bad[0][1], bad[0][6].replace(E.REPO + '/', ''), key=(u['label'], cfg, 'w'))
            elif j['err']: rep.undecided('%s [%s]' % (u['label'], cfg), j['err'])
            else: rep.ok('stores only to outputs')
    return rep.finish('Effect analysis over the call graph reachable from every entry point (direct calls, address-taken functions, intrinsics): external calls outside the list of pure math and memory-block routines, stores to '
                      'globals, loads of globals that are written anywhere, guards, atomics and inline assembly are violations; the walked program additionally resolves every store to an output argument.',
                      {'entry_points': 15000, 'walks': 10000})


def demangle(n):
    try: return subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip() or n
    except OSError: return n


# ------------------------------------------------------------------------------------------------ C20
def unavailable():
    p = os.path.join(E.VERIF, 'nv', 'unavailable.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def c20(rep, tier):
    na = unavailable()
    variants = [(), ('-DNDEBUG',), ('-std=gnu++98',)] + ([('-std=gnu++98', '-DNDEBUG'), ('-std=gnu++17',), ('-std=gnu++20',)] if tier == 'thorough' else [])
    for cfg in ALLCFG.names:
        rep.configs.add(cfg)
        try: E.consts(cfg)
        except E.Broken as e: rep.bad('headers [%s]' % cfg, str(e), key=('hdr', cfg)); continue
        for ex in variants:
            us = all_units(cfg, full=ex == () and cfg in ('sse2', 'avx'))
            if ex != () and tier == 'quick':
                us = [u for u in us if u['fam'] != 'ew' or u['ar'] < 2 or u['kinds'] in ('vv', 'vs', 'sv', 'vr', 'rv', 'vvv', 'vsr', 'srv', 'rvs', 'vvvv', 'vrvr', 'svrs')]
            byname = {u['name']: u for u in us}
            ms, errs = E.graph(us, cfg, extra=ex)
            tag = ' '.join(ex)
            if '<header>' in errs and not ms: rep.bad('headers [%s %s]' % (cfg, tag), 'do not compile: %s' % errs['<header>'][:300], key=('hdr', cfg)); continue
            for n, e in errs.items():
                if n in na.get(cfg, ()) or n == '<header>': continue
                rep.bad('%s [%s %s]' % (byname[n]['label'], cfg, tag), 'cannot be instantiated: %s' % e.split(os.sep)[-1][:200], e.split(': ')[0].replace(E.REPO + '/', '') if not e.startswith('/verif') else '', key=(n, cfg))
            ok = len([u for u in us if u['name'] not in errs]); rep.count('instantiations', ok); rep.proved += ok
            rep.domains['type check and instantiation'] = rep.domains.get('type check and instantiation', 0) + ok
            seen = set()
            for m in ms:
                for s in m['strong']:
                    if s not in byname and not s.startswith('nv_') and s not in seen:
                        seen.add(s); rep.bad('%s [%s]' % (demangle(s), cfg), 'non-inline definition in a header: duplicate symbol when two translation units include it', key=('strong', s, cfg))
                for s in m['undefined']:
                    if s.startswith('_Z') and 'nova' in s and s not in seen:
                        seen.add(s); rep.bad('%s [%s]' % (demangle(s), cfg), 'used but never defined: the program does not link', key=('undef', s, cfg))
            rep.count('modules', len(ms))
        con = E.consts(cfg)
        for Ty in ('float', 'double'):
            size, spl, by = con[Ty]
            if not (size > 0 and spl > 0 and spl % size == 0): rep.bad('unroll_constraints<%s> [%s]' % (Ty, cfg), 'samples_per_loop %d is no positive multiple of vec size %d' % (spl, size), 'simd_unroll_constraints.hpp', key=('spl', cfg, Ty))
            elif by < size * E.ELEM[Ty]: rep.bad('vec<%s> [%s]' % (Ty, cfg), 'has %d bytes for %d elements' % (by, size), 'vec', key=('bytes', cfg, Ty))
            else: rep.ok('constants')
    # every header on its own
    heads = sorted(f for f in os.listdir(E.REPO) if f.endswith('.hpp')) + sorted('vec/' + f for f in ('vec_base.hpp', 'vec_generic.hpp') if os.path.exists(os.path.join(E.REPO, 'vec', f)))
    jobs = [(h, cfg, ex) for h in heads for cfg in ALLCFG.names for ex in ((), ('-std=gnu++98',), ('-DNDEBUG',))]
    if tier == 'quick': jobs = [x for x in jobs if x[2] == () or x[1] in ('gen', 'sse2', 'avx')]

    def one(x):
        h, cfg, ex = x
        r = subprocess.run([E.CXX] + E.flags(cfg, ex) + ['-fsyntax-only', '-x', 'c++', '-'], input='#include "%s"\n#include "%s"\n' % (h, h), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return x, r.returncode, r.stderr
    for (h, cfg, ex), rc, err in E.pmap(one, jobs):
        rep.count('headers_alone')
        if rc: rep.bad('%s [%s %s]' % (h, cfg, ' '.join(ex)), 'does not compile on its own: %s' % ([l for l in err.splitlines() if 'error:' in l] or [err[:200]])[0].replace(E.REPO + '/', ''), h, key=(h, cfg))
        else: rep.ok('stand-alone header')
    return rep.finish('Type-level analysis: every entry point x argument combination x element type is instantiated by the front end in every configuration and language variant; header linkage is read from the IR '
                      '(no strong definitions, no undefined nova symbols); each header is compiled alone.', {'instantiations': 20000, 'headers_alone': 100})


# ------------------------------------------------------------------------------------------------ C21
_und = {}


def undef_witness(t, ty):
    """does t depend on an undefined value (undef leaf, out-of-range conversion)?  text / None / True when it certainly does not"""
    if t in _und: return _und[t]
    ops = P.ops(t)
    risky = any(P.NODES[l][0] == 'undef' for l in P.leaves(t)) or ops & {'fptosi', 'fptoui'} or (ops & {'shl', 'lshr', 'ashr'} and varshift(t))
    if not risky: _und[t] = True; return True
    lv = [l for l in P.leaves(t) if P.NODES[l][0] == 'leaf']
    k = len(lv)
    cs = [c for c in D.consts_of(t, ty) if c == c and c < float('inf')]
    base = [2.0 ** 31, 2.0 ** 32, 2.0 ** 63, 2.0 ** 64, 1e10, 0.5, 1.5]
    if k <= 1: v = D.reps(ty, cs + base, dense=3)
    elif k == 2: v = D.reps(ty, cs[:8] + base, dense=1)
    else: v = D.cast([0.0, 1.0, -0.7, 2.5, 1e10, -1e10, 1e20, float('inf'), -float('inf'), float('nan'), 1e-6, 123.4], ty)
    if k <= 3: arrs = D.product([v] * k) if k else []
    else:
        rng = np.random.RandomState(7); arrs = [v[rng.randint(0, len(v), 600)] for _ in lv]
    with np.errstate(all='ignore'):
        env = {l: (a.astype(D.DT[P.NODES[l][1]]) if P.NODES[l][1] in 'fd' else np.zeros(len(a), np.uint64)) for l, a in zip(lv, arrs)}
    try: r = [np.broadcast_to(P.tobits(P.evaluate([t], env, z)[0], P.NODES[t][1]), (len(arrs[0]) if arrs else 1,)) for z in (1, 0x3f9d70a33f9d70a3, 0xc15b22d0c15b22d0)]
    except P.NoEval as e: _und[t] = None; return None
    bad = (r[0] != r[1]) | (r[0] != r[2])
    if bad.any():
        f = [P.frombits(x.astype(np.uint64), P.NODES[t][1]) for x in r]
        if f[0].dtype.kind == 'f': bad &= ~(np.isnan(f[0]) & np.isnan(f[1]) & np.isnan(f[2]))
    if bad.any():
        i = int(np.argmax(bad)); _und[t] = 'for %s the result is undefined' % (', '.join('%s=%r' % (P.show(l), env[l][i].item()) for l in lv[:6]) or 'any input')
    else: _und[t] = None
    return _und[t]


def varshift(t):
    return any(P.NODES[x][0] in ('shl', 'lshr', 'ashr') and P.NODES[P.NODES[x][3][1]][0] != 'const' for x in P.subterms(t))


def outputs(u, j, res):
    """all result terms of a walk: {name: node} (leaf names by buffer and element relative to the result)"""
    r = {}
    es = E.ELEM[u['T']]
    if u['fam'] in ('red', 'peak') or (u['fam'] == 'vecio' and not u['outs']):
        return {k: t for k, t in M.red_terms(u, j, res).items()}
    for o in u['outs']:
        for i, t in M.import_mem(u, j, res, o).items(): r[(o, i)] = t
    return r


def c21(rep, tier):
    for cfg in ALLCFG:
        rep.configs.add(cfg)
        us = all_units(cfg, full=False)
        if tier == 'quick': us = [u for u in us if u['fam'] != 'ew' or u['ar'] < 3 or u['kinds'] in ('vvv', 'vsr', 'srv', 'rvs', 'sss', 'rrr', 'vvvv', 'vrvr', 'svrs')]
        ns = lambda u, l, s: [None] if u['form'] in ('ct', 'vec') else [1, 5] if u['form'] == 'plain' else [s, 2 * s]
        rel = [u for u in us if u['fam'] not in ('red', 'peak') and not (u['fam'] == 'vecio' and not u['outs'])]
        ab = [u for u in us if u not in rel] if False else [u for u in us if u['fam'] in ('red', 'peak') or (u['fam'] == 'vecio' and not u['outs'])]
        base = {}
        for grp, fl in ((rel, 'r'), (ab, 'x')):
            for u, j, res in analyse_lengths(grp, cfg, ns, fl, 1100, 6)[0]:
                lab = '%s [%s]' % (u['label'], cfg); rep.count('calls')
                con = E.consts(cfg)[u['T']][0]
                if isinstance(u.get('spec'), tuple) and u['spec'][0] in ('get', 'set') and u['fam'] == 'vecio' and u['spec'][1] >= con: continue
                for w in j['ub']: rep.bad(lab, 'undefined operation: %s' % w.split(' @ ')[0], w.split(' @ ')[-1].replace(E.REPO + '/', ''), key=(u['label'], cfg, 'ub'))
                if j['err']:
                    rep.undecided(lab, j['err']); continue
                outs = outputs(u, j, res); base[(u['name'], j['n'])] = outs
                good = True; seen = set()
                for k, t in outs.items():
                    rep.count('results')
                    if t in seen: continue
                    seen.add(t)
                    w = undef_witness(t, T.ETY[u['T']])
                    if w is True: continue
                    if w: rep.bad(lab, '%s: %s' % (k, w), loc_of(j, 'S') or loc_of(j, 'L'), key=(u['label'], cfg)); good = False; break
                    good = None
                # branches on undefined values
                if good: rep.ok('no undefined leaf')
                elif good is None: rep.ok('undefined leaves masked at all representatives')
        # release build computes the same
        for grp, fl in ((rel, 'r'), (ab, 'x')):
            for u, j, res in E.analyse(grp, cfg, ns, extra=('-DNDEBUG',), flags_=fl)[0]:
                b = base.get((u['name'], j['n']))
                if b is None: continue
                lab = '%s [%s]' % (u['label'], cfg); rep.count('release_calls')
                if j['err']: rep.undecided(lab, 'release: ' + j['err']); continue
                outs = outputs(u, j, res); good = True
                if set(outs) != set(b): rep.bad(lab, 'debug and release builds write different elements', key=(u['label'], cfg, 'nd')); continue
                for k, t in outs.items():
                    if t == b[k]: continue
                    s = B.same_value(t, b[k], T.ETY[u['T']], exact=True)
                    if s and s is not True: rep.bad(lab, 'release build differs from debug build at %s: %s' % (k, s), loc_of(j, 'S'), key=(u['label'], cfg, 'nd')); good = False; break
                    if s is None: good = None
                if good: rep.ok('release = debug')
                elif good is None: rep.undecided(lab, 'release graph differs without a witness')
    return rep.finish('Undefined-value analysis: no result graph may contain an undefined leaf or an out-of-range conversion that can reach the result (shown at region representatives by varying the undefined bits); undefined '
                      'operations met on the way are reported; debug and release builds must have identical value graphs.', {'calls': 9000, 'release_calls': 8000})
