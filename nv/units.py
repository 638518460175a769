"""Catalogue of the public API of nova-simd and generator of the analysis units.

A unit is one extern "C" function calling one API entry point with one combination of arguments.  Units are only ever
compiled to LLVM IR and analysed; they are never linked or run.
"""
import itertools

HEADERS = ['simd_binary_arithmetic.hpp', 'simd_horizontal_functions.hpp', 'simd_math.hpp', 'simd_memory.hpp',
           'simd_mix.hpp', 'simd_pan.hpp', 'simd_peakmeter.hpp', 'simd_ternary_arithmetic.hpp',
           'simd_unary_arithmetic.hpp', 'simd_unit_conversion.hpp', 'simd_unroll_constraints.hpp',
           'softclip.hpp', 'vec.hpp']

BASE = ['-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-gline-tables-only', '-fno-exceptions',
        '-fno-math-errno', '-w', '-fconstexpr-steps=1000000', '-ftemplate-depth=4096']
CONFIGS = {
    'gen':    ['-U__SSE__', '-U__SSE2__', '-U__SSE_MATH__', '-U__SSE2_MATH__'],
    'sse':    ['-U__SSE2__', '-U__SSE2_MATH__'],
    'sse2':   [],
    'sse3':   ['-msse3'],
    'sse41':  ['-msse4.1'],
    'avx':    ['-mavx'],
    'avxfma': ['-mavx', '-mfma'],
    'cxx98':  ['-std=gnu++98'],
}
# lanes of vec<T> and samples_per_loop are read from the analysed program, not assumed (see engine.consts)

UNARY = ['abs', 'sgn', 'square', 'cube', 'round', 'frac', 'ceil', 'floor', 'trunc', 'undenormalize', 'reciprocal',
         'softclip', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'log', 'log2', 'log10', 'exp', 'signed_sqrt',
         'midi2freq', 'freq2midi', 'midi2ratio', 'ratio2midi', 'oct2freq', 'freq2oct', 'amp2db', 'db2amp']
BINARY = ['plus', 'minus', 'times', 'over', 'min', 'max', 'less', 'less_equal', 'greater', 'greater_equal', 'equal',
          'notequal', 'clip2', 'pow', 'spow', 'sum']
TERNARY = ['clip', 'muladd', 'ampmod', 'sum']
QUART = ['mix', 'sum']
ARITY = {}
for f in UNARY: ARITY[(f, 1)] = 1
for f in BINARY: ARITY[(f, 2)] = 2
for f in TERNARY: ARITY[(f, 3)] = 3
for f in QUART: ARITY[(f, 4)] = 4
CT = {'float': 'float', 'double': 'double'}


class Unit(dict):
    __getattr__ = dict.get


_seq = itertools.count()


def _mk(name, sig, body, **meta):
    return Unit(meta, src='extern "C" %s { %s }' % (sig.replace('@', name), body), name=name)


def key(*parts):
    s = '_'.join(str(p) for p in parts)
    return 'u_' + ''.join(c if c.isalnum() else '_' for c in s)


def elementwise(fn, ar, T, kinds, form, ctn=None, alias=(), wrap=False, cfg=''):
    """kinds: string over v (buffer) s (scalar) r (ramp); form: plain, simd, ct; alias: positions that are the output buffer."""
    params = ['%s* out' % T]
    args = []
    call = []
    idx = 1
    for p, k in enumerate(kinds):
        if k == 'v' and p in alias:
            args.append({'k': 'v', 'i': 0})
            e = 'out'
            e = '(const %s*)out' % T
        elif k == 'v':
            params.append('const %s* a%d' % (T, p)); args.append({'k': 'v', 'i': idx}); idx += 1
            e = 'a%d' % p
        elif k == 's':
            params.append('%s a%d' % (T, p)); args.append({'k': 's', 'i': idx}); idx += 1
            e = 'a%d' % p
        else:
            params.append('%s a%d, %s s%d' % (T, p, T, p)); args.append({'k': 'r', 'i': idx, 'j': idx + 1}); idx += 2
            e = 'nova::slope_argument(a%d,s%d)' % (p, p)
        if wrap and k == 'v': e = 'nova::vector_argument(%s)' % e
        if wrap and k == 's': e = 'nova::scalar_argument(%s)' % e
        if wrap and k == 'r': e = 'nova::wrap_argument(a%d,s%d)' % (p, p)
        call.append(e)
    nm = key('ew', fn, ar, T, kinds, form, ctn or '', 'al' + ''.join(map(str, alias)) if alias else '', 'w' if wrap else '')
    if form == 'ct':
        sig = 'void @(%s)' % ', '.join(params)
        body = 'nova::%s_vec_simd<%s>(out, %s);' % (fn, ctn, ', '.join(call))
    else:
        sig = 'void @(%s, unsigned n)' % ', '.join(params)
        body = 'nova::%s_vec%s(out, %s, n);' % (fn, '_simd' if form == 'simd' else '', ', '.join(call))
    return _mk(nm, sig, body, fam='ew', fn=fn, ar=ar, T=T, kinds=kinds, form=form, ctn=ctn, args=args, outs=[0], alias=list(alias), wrap=wrap,
               label='%s%s%s<%s>(%s)%s' % (fn, '_vec' if form == 'plain' else '_vec_simd', '<%s>' % ctn if form == 'ct' else '', T, kinds, ' in place' if alias else ''))


def ew_kinds(ar, full=True):
    if ar == 1: return ['v']
    if ar <= 3 or full: return [''.join(k) for k in itertools.product('vsr', repeat=ar)]
    # covering array of strength 2 over three kinds in four columns (9 rows) plus homogeneous rows
    rows = []
    for a in range(3):
        for b in range(3):
            rows.append('vsr'[a] + 'vsr'[b] + 'vsr'[(a + b) % 3] + 'vsr'[(a + 2 * b) % 3])
    return sorted(set(rows + ['vvvv', 'ssss', 'rrrr', 'vsvs', 'vrvr']))


def memory(T):
    """fill / copy / accumulate family: list of units"""
    out = []

    def add(fn, params, call_args, roles, forms=('plain', 'simd', 'ct'), base=None, **meta):
        for form in forms:
            for ctn in ([None] if form != 'ct' else CTN + [LONG]):
                b = base or fn
                if form == 'plain':
                    sig = 'void @(%s, unsigned n)' % params; body = 'nova::%s(%s, n);' % (fn, call_args)
                elif form == 'simd':
                    sig = 'void @(%s, unsigned n)' % params; body = 'nova::%s_simd(%s, n);' % (fn, call_args)
                else:
                    sig = 'void @(%s)' % params; body = 'nova::%s_simd<%s>(%s);' % (fn, ctn, call_args)
                nm = key('mem', fn, meta.get('var', ''), T, form, ctn or '')
                lab = '%s%s%s<%s>%s' % (fn, '' if form == 'plain' else '_simd', '<%s>' % ctn if ctn else '', T, ' ' + meta['var'] if meta.get('var') else '')
                out.append(_mk(nm, sig, body, fam='mem', fn=fn, T=T, form=form, ctn=ctn, roles=roles, outs=[0], label=lab, **meta))
    P = '%s* dest' % T
    add('zerovec', P, 'dest', ['o'])
    add('zerovec_na', P, 'dest', ['o'], forms=('simd', 'ct'))
    add('setvec', P + ', %s f' % T, 'dest, f', ['o', 's'])
    add('setvec_na', P + ', %s f' % T, 'dest, f', ['o', 's'], forms=('simd', 'ct'))
    add('copyvec', P + ', const %s* src' % T, 'dest, src', ['o', 'v'])
    for v in ('aa', 'na', 'an', 'nn'):
        add('copyvec_' + v, P + ', const %s* src' % T, 'dest, src', ['o', 'v'], forms=('simd', 'ct'))
    add('addvec', P + ', const %s* src' % T, 'dest, src', ['o', 'v'], var='buffer')
    add('addvec', P + ', %s f' % T, 'dest, f', ['o', 's'], var='scalar')
    add('addvec', P + ', %s f, %s s' % (T, T), 'dest, f, s', ['o', 's', 's'], var='ramp')
    # slope / exponential fills (no compile-time form)
    for fn in ('set_slope_vec', 'set_exp_vec'):
        for form in ('plain', 'simd'):
            out.append(_mk(key('fill', fn, T, form), 'void @(%s* dest, %s f, %s s, unsigned n)' % (T, T, T),
                           'nova::%s%s(dest, f, s, n);' % (fn, '' if form == 'plain' else '_simd'),
                           fam='fill', fn=fn, T=T, form=form, roles=['o', 's', 's'], outs=[0], label='%s%s<%s>' % (fn, '' if form == 'plain' else '_simd', T)))
    return out


def memory_inplace(T):
    """addvec and the SIMD copies with the destination as their own source"""
    out = []
    for fn in ('addvec', 'copyvec', 'copyvec_aa', 'copyvec_na', 'copyvec_an', 'copyvec_nn'):
        for form in ('plain', 'simd', 'ct') if fn == 'addvec' else ('simd', 'ct'):
            for ctn in ([None] if form != 'ct' else CTN + [LONG]):
                f = '%s%s' % (fn, '' if form == 'plain' else '_simd')
                out.append(_mk(key('memip', fn, T, form, ctn or ''), 'void @(%s* dest%s)' % (T, '' if ctn else ', unsigned n'), 'nova::%s%s(dest, (const %s*)dest%s);' % (f, '<%s>' % ctn if ctn else '', T, '' if ctn else ', n'),
                               fam='mem', fn=fn, T=T, form=form, ctn=ctn, roles=['o'], outs=[0], alias=[1], var='buffer', label='%s%s<%s> in place' % (f, '<%s>' % ctn if ctn else '', T)))
    return out


CTN = ['SPL', '3*SPL']      # compile-time lengths, in samples_per_loop of the configuration
LONG = '16*SPL'             # additionally for the memory and panning functions and, in two configurations, for some argument kinds of each elementwise function


def pan(T):
    out = []
    for var, pars, ca in (('const', '%s f0, %s f1' % (T, T), 'f0, f1'), ('ramp', '%s f0, %s s0, %s f1, %s s1' % (T, T, T, T), 'f0, s0, f1, s1')):
        for alias in (None, 0, 1):
            for form in ('plain', 'simd', 'ct'):
                for ctn in ([None] if form != 'ct' else CTN + [LONG]):
                    if alias is None: p = '%s* o0, %s* o1, const %s* in, ' % (T, T, T); c = 'o0, o1, in, '
                    else: p = '%s* o0, %s* o1, ' % (T, T); c = 'o0, o1, (const %s*)o%d, ' % (T, alias)
                    if form == 'ct': sig = 'void @(%s)' % (p + pars); body = 'nova::pan2_vec_simd<%s>(%s);' % (ctn, c + ca)
                    else: sig = 'void @(%s, unsigned n)' % (p + pars); body = 'nova::pan2_vec%s(%s, n);' % ('_simd' if form == 'simd' else '', c + ca)
                    out.append(_mk(key('pan', var, T, form, ctn or '', 'al%s' % alias if alias is not None else ''), sig, body, fam='pan', fn='pan2', var=var, T=T, form=form,
                                   ctn=ctn, alias=[] if alias is None else [alias], outs=[0, 1], inp=2 if alias is None else alias, s0=3 if alias is None else 2,
                                   label='pan2_vec%s%s<%s> %s%s' % ('' if form == 'plain' else '_simd', '<%s>' % ctn if ctn else '', T, var, '' if alias is None else ' in==out%d' % alias)))
    return out


def reductions(T):
    out = []
    for fn in ('horizontal_min', 'horizontal_max', 'horizontal_sum'):
        for form in ('plain', 'simd'):
            sfx = '' if form == 'plain' else '_simd'
            out.append(_mk(key('red', fn, T, form), '%s @(const %s* in, unsigned n)' % (T, T), 'return nova::%s_vec%s(in, n);' % (fn, sfx),
                           fam='red', fn=fn, T=T, form=form, inp=0, outs=[], label='%s_vec%s<%s>' % (fn, sfx, T)))
    for fn in ('horizontal_minmax', 'horizontal_maxsum'):
        for form in ('plain', 'simd'):
            sfx = '' if form == 'plain' else '_simd'
            out.append(_mk(key('red', fn, T, form), 'void @(%s* r0, %s* r1, const %s* in, unsigned n)' % (T, T, T), 'nova::%s_vec%s(*r0, *r1, in, n);' % (fn, sfx),
                           fam='red', fn=fn, T=T, form=form, inp=2, outs=[], states=[0, 1], label='%s_vec%s<%s>' % (fn, sfx, T)))
    for form in ('plain', 'simd'):
        sfx = '' if form == 'plain' else '_simd'
        out.append(_mk(key('peak', T, form), '%s @(const %s* in, %s* peak, unsigned n)' % (T, T, T), 'return nova::peak_vec%s(in, peak, n);' % sfx,
                       fam='peak', fn='peak', T=T, form=form, inp=0, outs=[], states=[1], label='peak_vec%s<%s>' % (sfx, T)))
        out.append(_mk(key('peak_rms', T, form), 'void @(const %s* in, %s* peak, %s* sq, unsigned n)' % (T, T, T), 'nova::peak_rms_vec%s(in, peak, sq, n);' % sfx,
                       fam='peak', fn='peak_rms', T=T, form=form, inp=0, outs=[], states=[1, 2], label='peak_rms_vec%s<%s>' % (sfx, T)))
    return out


# ---------------------------------------------------------------- vec members: result stored to out with plain loops over get()/store
def vecops(T, cfg):
    """lane-wise operations of vec<T>: out = op(a, b, c) with load/store of unaligned vectors"""
    V = 'nova::vec<%s>' % T
    u = []

    def add(tag, expr, na, spec, opt=False, alts=(), scal=(), post='r.store(out);', **meta):
        params = ['%s* out' % T] + ['const %s* a%d' % (T, i) for i in range(na)] + ['%s s%d' % (T, i) for i in range(len(scal))]
        pre = ''.join('%s x%d; x%d.load(a%d); ' % (V, i, i, i) for i in range(na))
        u.append(_mk(key('vo', tag, T), 'void @(%s)' % ', '.join(params), 'using namespace nova; typedef %s V; %s V r = %s; %s' % (V, pre, expr, post),
                     fam='vec', fn=tag, T=T, spec=spec, na=na, ns=len(scal), opt=opt, outs=[0], form='vec', label='vec<%s> %s' % (T, tag), **meta))
    for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
        add('op_' + nm, 'x0 %s x1' % op, 2, ('arith', op))
        u.append(_mk(key('vo', 'opassign_' + nm, T), 'void @(%s* out, const %s* a0, const %s* a1)' % (T, T, T),
                     'nova::vec<%s> x0, x1; x0.load(a0); x1.load(a1); x0 %s= x1; x0.store(out);' % (T, op),
                     fam='vec', fn='opassign_' + nm, T=T, spec=('arith', op), na=2, ns=0, outs=[0], form='vec', label='vec<%s> operator%s=' % (T, op)))
        add('scalar_rhs_' + nm, 'V(x0 %s s0)' % op, 1, ('arith_vs', op), opt=True, scal='s')
        add('scalar_lhs_' + nm, 'V(s0 %s x0)' % op, 1, ('arith_sv', op), opt=True, scal='s')
    add('neg', '-x0', 1, ('neg',), opt=True)
    add('madd', 'madd(x0, x1, x2)', 3, ('madd',))
    add('abs', 'abs(x0)', 1, ('ord', 'abs'))
    add('sign', 'sign(x0)', 1, ('ord', 'sgn'))
    add('square', 'square(x0)', 1, ('arith1', 'square'))
    add('cube', 'cube(x0)', 1, ('arith1', 'cube'))
    add('sqrt', 'sqrt(x0)', 1, ('sqrt',), opt=True)
    add('max_', 'max_(x0, x1)', 2, ('ord', 'max'))
    add('min_', 'min_(x0, x1)', 2, ('ord', 'min'))
    for nm, op, f in (('lt', '<', 'less'), ('le', '<=', 'less_equal'), ('gt', '>', 'greater'), ('ge', '>=', 'greater_equal'), ('eq', '==', 'equal'), ('neq', '!=', 'notequal')):
        add('rel_' + nm, 'V(x0 %s x1)' % op, 2, ('ord', f))
        add('mask_' + nm, 'mask_%s(x0, x1)' % nm, 2, ('mask', f), opt=True)
    add('and', 'x0 & x1', 2, ('bits', 'and'), opt=True)
    add('or', 'x0 | x1', 2, ('bits', 'or'), opt=True)
    add('xor', 'x0 ^ x1', 2, ('bits', 'xor'), opt=True)
    add('andnot', 'andnot(x0, x1)', 2, ('bits', 'andnot'), opt=True)
    # select with a proper mask: produced by a comparison where the type has masks, by a 0/1 relational result otherwise
    if cfg == 'gen' or (cfg == 'sse' and T == 'double'):
        add('select_lt', 'select(x0, x1, V(x2 < x3))', 4, ('select', 'lt'))
        add('select_neq', 'select(x0, x1, V(x2 != x3))', 4, ('select', 'neq'))
    else:
        add('select_lt', 'select(x0, x1, mask_lt(x2, x3))', 4, ('select', 'lt'))
        add('select_neq', 'select(x0, x1, mask_neq(x2, x3))', 4, ('select', 'neq'))
    return u


def vecio(T):
    V = 'nova::vec<%s>' % T
    u = []

    def add(tag, params, body, spec, ret='void', **meta):
        u.append(_mk(key('vi', tag, T), '%s @(%s)' % (ret, params), 'typedef %s V; %s' % (V, body), fam='vecio', fn=tag, T=T, spec=spec, form='vec', outs=meta.pop('outs', [0]),
                     label='vec<%s>::%s' % (T, tag), **meta))
    for ld in ('load', 'load_aligned'):
        for st in ('store', 'store_aligned', 'store_aligned_stream'):
            add('%s_%s' % (ld, st), '%s* out, const %s* a' % (T, T), 'V x; x.%s(a); x.%s(out);' % (ld, st), 'copy', ld=ld, st=st)
    add('load_first', '%s* out, const %s* a' % (T, T), 'V x; x.load_first(a); x.store(out);', 'first', ld='load_first', st='store')
    add('clear', '%s* out' % T, 'V x; x.clear(); x.store(out);', 'zero', st='store')
    add('set_vec', '%s* out, %s s' % (T, T), 'V x; x.set_vec(s); x.store(out);', 'bcast', st='store')
    add('ctor_scalar', '%s* out, %s s' % (T, T), 'V x(s); x.store(out);', 'bcast', st='store')
    if T == 'double':
        add('ctor_float', '%s* out, float s' % T, 'V x(s); x.store(out);', 'bcast_ext', st='store')
    add('ctor_copy', '%s* out, const %s* a' % (T, T), 'V y; y.load(a); V x(y); x.store(out);', 'copy', ld='load', st='store')
    add('assign', '%s* out, const %s* a' % (T, T), 'V y; y.load(a); V x; x = y; x.store(out);', 'copy', ld='load', st='store')
    for i in range(8):
        add('get_%d' % i, '%s* out, const %s* a' % (T, T), 'if (%d < V::size) { V x; x.load(a); out[0] = x.get(%d %% V::size); }' % (i, i), ('get', i), ld='load')
        add('set_%d' % i, '%s* out, const %s* a, %s s' % (T, T, T), 'if (%d < V::size) { V x; x.load(a); x.set(%d %% V::size, s); x.store(out); }' % (i, i), ('set', i), ld='load', st='store')
    add('set_slope', '%s* out, %s f, %s s' % (T, T, T), 'V x; out[V::size] = x.set_slope(f, s); x.store(out);', 'slope', st='store')
    add('set_exp', '%s* out, %s f, %s s' % (T, T, T), 'V x; out[V::size] = x.set_exp(f, s); x.store(out);', 'exp', st='store')
    add('gen_zero', '%s* out' % T, 'V x(V::gen_zero()); x.store(out);', ('const', 'zero'), st='store')
    for c in ('gen_one', 'gen_05', 'gen_sign_mask', 'gen_abs_mask', 'gen_ones', 'gen_exp_mask', 'gen_exp_mask_1'):
        add(c, '%s* out' % T, 'V x(V::%s()); x.store(out);' % c, ('const', c[4:]), st='store', opt=True)
    for h in ('min', 'max', 'sum'):
        add('horizontal_' + h, 'const %s* a' % T, 'V x; x.load(a); return x.horizontal_%s();' % h, ('h', h), ret=T, outs=[], ld='load')
    add('is_aligned', '%s* a' % T, 'return V::is_aligned(a);', 'is_aligned', ret='bool', outs=[])
    add('collect', '%s* out, const %s* a' % (T, T), 'V x; x.load(a); V y(x.collect(nv_negate())); y.store(out);', 'negated', ld='load', st='store')
    return u


def utils():
    """free helpers of simd_utils.hpp (SSE and later)"""
    u = []

    def add(tag, params, body, spec, ret='void', **meta):
        u.append(_mk(key('vu', tag), '%s @(%s)' % (ret, params), body, fam='vecutil', fn=tag, T='float', spec=spec, form='vec', outs=meta.pop('outs', [0]), label='detail::%s' % tag, nl=4, **meta))
    for c in ('sign_mask', 'abs_mask', 'one', '05', '025'):
        add('gen_' + c, 'float* out', '_mm_storeu_ps(out, nova::detail::gen_%s());' % c, ('const', c))
    for i in (0, 3):
        add('extract_%d' % i, 'float* out, const float* a', 'out[0] = nova::detail::extract_%d(_mm_loadu_ps(a));' % i, ('get', i), ld='load')
    for h in ('min', 'max'):
        add('horizontal_' + h, 'const float* a', 'return nova::detail::horizontal_%s(_mm_loadu_ps(a));' % h, ('h', h), ret='float', outs=[], ld='load')
    for nm, f in (('lt', 'cmplt'), ('neq', 'cmpneq')):
        u.append(_mk(key('vu', 'select', nm), 'void @(float* out, const float* a0, const float* a1, const float* a2, const float* a3)',
                     '_mm_storeu_ps(out, nova::detail::select_vector(_mm_loadu_ps(a0), _mm_loadu_ps(a1), _mm_%s_ps(_mm_loadu_ps(a2), _mm_loadu_ps(a3))));' % f,
                     fam='vec', fn='select_vector_' + nm, T='float', spec=('select', nm), na=4, ns=0, outs=[0], form='vec', label='detail::select_vector ' + nm, nl=4))
    return u


def intvec(T='float'):
    """integer companion vector of vec<float> (SSE2 and later)"""
    u = []
    I = 'nova::vec<float>::int_vec'

    def add(tag, expr, na, spec, inttypes=True):
        params = ['float* out'] + ['const float* a%d' % i for i in range(na)]
        pre = ''.join('V v%d; v%d.load(a%d); I x%d(v%d); ' % (i, i, i, i, i) for i in range(na))
        u.append(_mk(key('iv', tag), 'void @(%s)' % ', '.join(params), 'using namespace nova; typedef nova::vec<float> V; typedef %s I; %s V r(%s); r.store(out);' % (I, pre, expr),
                     fam='intvec', fn=tag, T='float', spec=spec, na=na, ns=0, outs=[0], form='vec', label='int_vec %s' % tag))
    add('add', 'x0 + x1', 2, ('iadd',)); add('sub', 'x0 - x1', 2, ('isub',)); add('and', 'x0 & x1', 2, ('iand',)); add('andnot', 'andnot(x0, x1)', 2, ('iandnot',))
    add('lt', 'mask_lt(x0, x1)', 2, ('ilt',)); add('gt', 'mask_gt(x0, x1)', 2, ('igt',)); add('eq', 'mask_eq(x0, x1)', 2, ('ieq',))
    for k in (0, 1, 7, 16, 23, 24, 29, 31, 32, 64):
        add('slli_%d' % k, 'slli(x0, %d)' % k, 1, ('slli', k)); add('srli_%d' % k, 'srli(x0, %d)' % k, 1, ('srli', k))
    add('splat', 'I(-2) & I(x0)', 1, ('iandc', -2))
    add('convert', 'V(x0.convert_to_float())', 1, ('cvt',))
    add('truncate', 'V(v0.truncate_to_int())', 1, ('cvtt',))
    return u


PRELUDE = ''.join('#include "%s"\n' % h for h in HEADERS) + '''#ifdef __SSE__
#include "simd_utils.hpp"
#endif
struct nv_negate { float operator()(float x) const { return -x; } double operator()(double x) const { return -x; } };
'''
CONSTS = '''
extern "C" { extern const int nv_const_%(T)s[]; const int nv_const_%(T)s[] = { nova::vec<%(T)s>::size, (int)sizeof(nova::vec<%(T)s>), (int)nova::unroll_constraints<%(T)s>::samples_per_loop, nova::vec<%(T)s>::objects_per_cacheline }; }
'''
