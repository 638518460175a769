"""Build the analyser, compile analysis units from the current /repo tree to LLVM IR, run the value-flow extraction, load the results."""
import os, subprocess, hashlib, json, re, sys, fcntl, time, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from . import units as U

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NV_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')
CXX = 'clang++-18'
NCPU = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """analysis machinery could not be applied (error exit)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, 'nvir', 'nvir.cpp')
    key = _sha(open(src, 'rb').read())
    exe = os.path.join(BUILD, 'nvir-' + key)
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        fl = [f for f in sh(['llvm-config-18', '--cxxflags']).stdout.split() if not f.startswith('-std=')]
        ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
        r = sh([CXX, '-std=c++17', '-O2'] + fl + ['-fexceptions', '-w', src, '-o', exe + '.tmp'] + ld + ['-lLLVM-18'])
        if r.returncode: raise Broken('cannot build nvir: ' + r.stderr[-2000:])
        for old in glob.glob(os.path.join(BUILD, 'nvir-*')):
            if not old.endswith('.tmp'): os.unlink(old)
        os.rename(exe + '.tmp', exe)
    return exe


_srchash = None


def srchash():
    """content hash of every header of the repository: cache key of everything derived from it"""
    global _srchash
    if _srchash is None:
        fs = []
        for d, dn, fn in os.walk(REPO):
            dn[:] = [x for x in dn if x not in ('.git', '_build', 'testsuite', 'benchmarks')]
            fs += [os.path.join(d, f) for f in fn if f.endswith(('.hpp', '.h', '.ipp', '.inl', '.cpp', '.inc')) or 'hpp' in f]
        h = hashlib.sha256()
        for f in sorted(fs):
            h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, 'rb').read())
        _srchash = h.hexdigest()[:24]
    return _srchash


def workdir():
    d = os.path.join(BUILD, 'ir-' + srchash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        ds = sorted(glob.glob(os.path.join(BUILD, 'ir-*')), key=os.path.getmtime)
        for old in ds[:-3]:
            if old != d: shutil.rmtree(old, ignore_errors=True)
    return d


def flags(cfg, extra=()):
    return U.BASE + U.CONFIGS[cfg] + ['-I' + REPO] + list(extra)


def tu_text(us):
    head = U.PRELUDE + '#define SPL_float nova::unroll_constraints<float>::samples_per_loop\n#define SPL_double nova::unroll_constraints<double>::samples_per_loop\n'
    head += ''.join('extern "C" int nv_size_%s() { return nova::vec<%s>::size; } extern "C" int nv_spl_%s() { return nova::unroll_constraints<%s>::samples_per_loop; } extern "C" int nv_bytes_%s() { return sizeof(nova::vec<%s>); }\n' % ((T,) * 6) for T in ('float', 'double'))
    lines = head.count('\n')
    body = []
    for u in us: body.append(u['src'].replace('SPL>', 'SPL_%s>' % u['T']))
    return head + '\n'.join(body) + '\n', lines + 1


def compile_units(us, cfg, extra=(), tag=''):
    """returns (bitcode path, {unit name: error text}) ; failing units are dropped from the bitcode"""
    wd = workdir()
    key = _sha(tu_text(us)[0], ' '.join(flags(cfg, extra)))
    bc = os.path.join(wd, key + '.bc'); ej = os.path.join(wd, key + '.err.json')
    if os.path.exists(bc) and os.path.exists(ej): return bc, json.load(open(ej))
    live = list(us); errs = {}
    for it in range(40):
        text, first = tu_text(live)
        cpp = os.path.join(wd, key + '.%d.cpp' % os.getpid())
        open(cpp, 'w').write(text)
        r = sh([CXX] + flags(cfg, extra) + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-emit-llvm', '-c', cpp, '-o', bc + '.%d' % os.getpid()])
        if r.returncode == 0: break
        bad = set(); cur = None
        blocks = re.split(r'(?m)^(?=[^\n:]+:\d+:\d+: (?:fatal )?error: )', r.stderr)
        for b in blocks:
            m = re.match(r'([^\n:]+):(\d+):\d+: (?:fatal )?error: (.*)', b)
            if not m: continue
            ls = [int(x) for x in re.findall(re.escape(cpp) + r':(\d+):', b)]
            ls = [l for l in ls if l >= first]
            msg = '%s:%s: %s' % (m.group(1).replace(REPO + '/', ''), m.group(2), m.group(3))
            for l in ls:
                bad.add(l - first); errs.setdefault(live[l - first]['name'], msg)
            if not ls: errs.setdefault('<header>', msg)
        if not bad:
            open(ej + '.%d' % os.getpid(), 'w').write('{}'); os.unlink(ej + '.%d' % os.getpid())
            os.unlink(cpp)
            return None, dict(errs, **{'<header>': errs.get('<header>') or r.stderr[-1500:]})
        live = [u for i, u in enumerate(live) if i not in bad]
    os.unlink(cpp)
    os.rename(bc + '.%d' % os.getpid(), bc)
    with open(ej + '.%d' % os.getpid(), 'w') as f: json.dump(errs, f)
    os.rename(ej + '.%d' % os.getpid(), ej)
    return bc, errs


class Term:
    __slots__ = ('id', 'op', 'ty', 'a', 'c', 'off')

    def __repr__(self): return 't%d:%s' % (self.id, self.op)


class Result:
    """analysis result of one nvir run"""

    def __init__(self, js):
        self.terms = {}
        for t in js['terms']:
            x = Term(); x.id = t[0]; x.op = t[1]; x.ty = t[2]; x.a = (); x.c = None; x.off = None
            if x.op == 'const': x.c = t[3]
            elif x.op in ('arg', 'ld', 'ldr', 'ptr'): x.c = t[3]; x.off = t[4]
            elif x.op != 'undef': x.c = t[3]; x.a = tuple(t[4])
            self.terms[x.id] = x
        self.jobs = js['jobs']


JOB_TIMEOUT = 240


def dead_job(fn, n, why):
    return {'fn': fn, 'n': n, 'err': why, 'acc': [], 'mem': {}, 'bufobj': {}, 'ret': None, 'cmpc': [], 'ub': [], 'steps': 0, 'dead': True}


def run_nvir(bc, jobs, tag=''):
    """jobs: list of (fn, n or None, elem, flags); the extraction of the whole batch"""
    r = _nvir(bc, jobs)
    if isinstance(r, str): raise Broken('nvir failed: %s' % r)
    return r


def _nvir(bc, jobs, timeout=JOB_TIMEOUT):
    text = ''.join('%s %s %d %s\n' % (f, '-' if n is None else n, e, fl or 'x') for f, n, e, fl in jobs)
    key = _sha(text, os.path.basename(tool()))
    out = bc + '.' + key + '.json'
    if not os.path.exists(out):
        jf = out + '.jobs.%d.%d' % (os.getpid(), threading.get_ident())
        open(jf, 'w').write(text)
        tmp = out + '.%d' % os.getpid()
        try: r = sh([tool(), bc, jf, tmp], timeout=timeout)
        except subprocess.TimeoutExpired: return 'time limit'
        finally: os.unlink(jf)
        if r.returncode: return 'rc %s %s' % (r.returncode, r.stderr[-300:])
        os.rename(tmp, out)
    return Result(json.load(open(out)))


_deadline = time.time() + 420


def run_jobs(bc, jobs):
    """list of (job dict, Result) in the order of the jobs; a batch on which the extractor fails is divided until the failing job is known, which is reported as undecided"""
    if not jobs: return []
    left = _deadline - time.time()
    r = _nvir(bc, jobs, max(20, min(JOB_TIMEOUT, left)))
    if not isinstance(r, str): return [(j, r) for j in r.jobs]
    if len(jobs) == 1 or (r == 'time limit' and left < 0):
        e = Result({'terms': [], 'jobs': []})
        return [(dead_job(f, n, 'extractor: ' + r), e) for f, n, _, _ in jobs]
    h = len(jobs) // 2
    return run_jobs(bc, jobs[:h]) + run_jobs(bc, jobs[h:])


def pmap(f, xs, threads=NCPU):
    xs = list(xs)
    if len(xs) <= 1: return [f(x) for x in xs]
    with ThreadPoolExecutor(threads) as ex: return list(ex.map(f, xs))


_consts = {}


def consts(cfg):
    """(lanes, samples_per_loop, bytes) of vec<float> and vec<double> as compiled in configuration cfg"""
    if cfg in _consts: return _consts[cfg]
    bc, errs = compile_units([], cfg)
    if bc is None: raise Broken('headers do not compile in configuration %s: %s' % (cfg, errs.get('<header>')))
    fs = ['nv_%s_%s' % (k, T) for T in ('float', 'double') for k in ('size', 'spl', 'bytes')]
    r = run_nvir(bc, [(f, None, 4, 'x') for f in fs])
    v = []
    for j in r.jobs:
        t = r.terms[j['ret'][0]] if j.get('ret') else None
        if t is None or t.op != 'const': raise Broken('constant %s not found' % j['fn'])
        v.append(t.c)
    _consts[cfg] = {'float': tuple(v[:3]), 'double': tuple(v[3:])}
    return _consts[cfg]


ELEM = {'float': 4, 'double': 8}
SKIPPED = {}    # configurations whose headers do not compile: {name: first error}; property C20 reports them, the others leave them out


KNOWN_COND = {'__cplusplus >= 201103L', '!(__cplusplus >= 201103L)', 'defined(__GNUC__) && defined(NDEBUG)', '__SSE4_1__', '__SSE2__', '__FMA__', '__SSE3__', '__AVX__', 'defined(__SSE2__)', '__SSE__', 'defined(__SSE__)', 'defined(__AVX__)', 'defined(__FMA__)',
              'defined(__SSE3__)', 'defined(__SSE4_1__)'}
# macros of which a conditional in the headers adds a configuration: (name, extra flags, base)
NOCLANG = ['-include', os.path.join(VERIF, 'nv', 'noclang.h')]
EXTRA = {'NDEBUG': [('sse2', ['-DNDEBUG']), ('avx', ['-DNDEBUG'])], '__AVX2__': [('avx', ['-mavx2']), ('avxfma', ['-mavx2'])], '__SSE4_2__': [('sse41', ['-msse4.2'])], '__SSSE3__': [('sse3', ['-mssse3'])],
         '__AVX512F__': [('avxfma', ['-mavx2', '-mavx512f'])], '__F16C__': [('avx', ['-mf16c'])], '__BMI__': [('avx', ['-mbmi'])], '__POPCNT__': [('sse41', ['-mpopcnt'])], '__LZCNT__': [('avx', ['-mlzcnt'])],
         '__FAST_MATH__': [('sse2', ['-D__FAST_MATH__'])], '__OPTIMIZE__': [('sse2', ['-U__OPTIMIZE__'])], '__OPTIMIZE_SIZE__': [('sse2', ['-D__OPTIMIZE_SIZE__'])], '__clang__': [('sse2', NOCLANG), ('avx', NOCLANG)], '__clang_major__': [('sse2', NOCLANG), ('avx', NOCLANG)],
         '__cplusplus': [('sse2', ['-std=gnu++98']), ('sse2', ['-std=gnu++17']), ('sse2', ['-std=gnu++20'])], '__STRICT_ANSI__': [('sse2', ['-std=c++14'])], '__GNUC__': [], '__SSE__': [], '__SSE2__': [], '__SSE3__': [], '__SSE4_1__': [],
         '__AVX__': [], '__FMA__': []}
_extra = None


def extra_configs():
    """configurations added for conditionals of the headers on macros that the standard configurations do not vary"""
    global _extra
    if _extra is not None: return _extra
    _extra = []
    macros = set()
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if x not in ('.git', '_build', 'testsuite', 'benchmarks')]
        for f in fn:
            if not f.endswith(('.hpp', '.h', '.ipp', '.inl', '.inc')): continue
            text = re.sub(r'\\\n', ' ', open(os.path.join(d, f), errors='replace').read())
            ls = text.split('\n')
            for i, l in enumerate(ls):
                m = re.match(r'\s*#\s*(if|ifdef|ifndef|elif)\b\s*(.*)', l)
                if not m: continue
                c = re.sub(r'\s*(//.*|/\*.*)$', '', m.group(2)).strip()
                if c == 'defined(__GNUC__) && defined(NDEBUG)' and (i + 1 >= len(ls) or not re.match(r'\s*#\s*define always_inline\b', ls[i + 1])): c += ' '
                if c in KNOWN_COND: continue
                macros |= set(re.findall(r'[A-Za-z_]\w*', c))
    for m in sorted(macros):
        for base, fl in EXTRA.get(m, []):
            name = '%s%s' % (base, ''.join(fl) if fl != NOCLANG else '-U__clang__')
            U.CONFIGS[name] = U.CONFIGS[base] + fl
            if name not in _extra: _extra.append(name)
    return _extra


class Configs:
    """the configurations in which the headers compile, with those added for further conditionals"""

    def __init__(self, names): self.names = list(names)

    def __iter__(self):
        ok = []
        for c in self.names + [x for x in extra_configs() if x not in self.names]:
            if c in extra_configs():
                try: consts(c); ok.append(c)
                except Exception: pass
                continue
            try: consts(c); ok.append(c)
            except Broken as e: SKIPPED[c] = str(e)[:300]
        if not ok: raise Broken('; '.join(SKIPPED.values()) or 'no configuration')
        return iter(ok)

    def __len__(self): return len(self.names)

    def __add__(self, more): return Configs(self.names + list(more))


def analyse(us, cfg, nsel, extra=(), chunk=60, flags_='x'):
    """Compile and extract units; nsel(unit, lanes, spl) -> list of n (None for forms without length).
    Yields (unit, job dict, Result); compile errors are returned separately."""
    con = consts(cfg)
    errs = {}
    us = list(us)
    nch = max(1, min(NCPU, (len(us) + 11) // 12), (len(us) + chunk - 1) // chunk)
    chunks = [us[i::nch] for i in range(nch)]

    def one(ch):
        bc, er = compile_units(ch, cfg, extra)
        if bc is None: return None, er, []
        jobs = []; meta = []
        for u in ch:
            if u['name'] in er: continue
            size, spl, by = con[u['T']]
            for n in nsel(u, size, spl):
                jobs.append((u['name'], n, ELEM[u['T']], flags_)); meta.append((u, n))
        if not jobs: return None, er, []
        return run_jobs(bc, jobs), er, meta
    out = []
    for res, er, meta in pmap(one, chunks):
        errs.update(er)
        if res is None: continue
        for (u, n), (j, r) in zip(meta, res): out.append((u, j, r))
    return out, errs


def scev(us, cfg, nsel, extra=()):
    """loop summaries of the units for the lengths nsel(unit, lanes, spl): list of (unit, n, summary)"""
    con = consts(cfg)
    us = list(us)
    nch = max(1, min(NCPU * 2, (len(us) + 7) // 8))

    def one(ch):
        bc, er = compile_units(ch, cfg, extra)
        if bc is None: return []
        jobs = []
        for u in ch:
            if u['name'] in er: continue
            size, spl, by = con[u['T']]
            jobs += [(u, n) for n in nsel(u, size, spl)]
        if not jobs: return []
        text = ''.join('%s %d\n' % (u['name'], n) for u, n in jobs)
        out = bc + '.' + _sha('scev', text, os.path.basename(tool())) + '.json'
        if not os.path.exists(out):
            jf = out + '.jobs.%d' % os.getpid()
            open(jf, 'w').write(text)
            r = sh([tool(), bc, jf, out + '.%d' % os.getpid(), 'scev'])
            os.unlink(jf)
            if r.returncode: raise Broken('nvir scev failed: rc %s %s' % (r.returncode, r.stderr[-500:]))
            os.rename(out + '.%d' % os.getpid(), out)
        return [(u, n, x['r']) for (u, n), x in zip(jobs, json.load(open(out)))]
    return [z for l in pmap(one, [us[i::nch] for i in range(nch)]) for z in l]


def graph(us, cfg, extra=(), chunk=60):
    """effects reachable from every unit and linkage of the modules: list of module dicts, compile errors"""
    us = list(us); errs = {}
    nch = max(1, min(NCPU, (len(us) + 11) // 12), (len(us) + chunk - 1) // chunk)

    def one(ch):
        bc, er = compile_units(ch, cfg, extra)
        if bc is None: return None, er
        text = ''.join(u['name'] + '\n' for u in ch if u['name'] not in er)
        out = bc + '.' + _sha('graph', text, os.path.basename(tool())) + '.json'
        if not os.path.exists(out):
            jf = out + '.jobs.%d' % os.getpid(); open(jf, 'w').write(text)
            r = sh([tool(), bc, jf, out + '.%d' % os.getpid(), 'graph'])
            os.unlink(jf)
            if r.returncode: raise Broken('nvir graph failed: rc %s %s' % (r.returncode, r.stderr[-500:]))
            os.rename(out + '.%d' % os.getpid(), out)
        return json.load(open(out)), er
    ms = []
    for m, er in pmap(one, [us[i::nch] for i in range(nch)]):
        errs.update(er)
        if m: ms.append(m)
    return ms, errs


def ct_len(u, spl):
    """number of samples of a compile-time unit"""
    m = re.match(r'(?:(\d+)\*)?SPL$', u['ctn'])
    return int(m.group(1) or 1) * spl
