"""Shared machinery of the checks: builds the executor and the encodings, runs
them, replays counterexamples on a native build and writes the evidence."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'
BC_FLAGS = ('-O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-strict-aliasing '
            '-D_GLIBCXX_ASSERTIONS -D__NO_INLINE__ -U_FORTIFY_SOURCE -fno-pic -fno-discard-value-names -w').split()
NAT_FLAGS = ('-O1 -g -fno-strict-aliasing -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS '
             '-fsanitize=address,undefined -fno-sanitize-recover=undefined -w').split()
MODS = {'thortho': [], 'sylstring': ['thortho'], 'lattice': ['sylstring'], 'dict': [],
        'parser': ['lattice', 'dict', 'thortho'], 'output': ['lattice'], 'thpronun': ['parser', 'output']}
DEFS = ['-DEXCEPT_DICT_DIR="/nonexistent"', '-DVERSION="0"']


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise CheckError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout


def engine():
    """Path of the executor, built when missing or out of date."""
    out = os.path.join(BUILD, 'symx')
    src = sorted(glob.glob(os.path.join(VERIF, 'engine', '*')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = out + '.stamp'
    if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        sh(['make', '-s', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + tmp])
        os.rename(tmp, out)
        open(stamp, 'w').write(h)
    return out


def closure(mods):
    seen = []
    def go(m):
        if m in seen:
            return
        for d in MODS.get(m, []):
            go(d)
        seen.append(m)
    for m in mods:
        go(m)
    return seen


def repo_sources(mods, extra=()):
    src = []
    for m in closure(mods):
        src += sorted(f for f in glob.glob(os.path.join(REPO, m, '*')) if re.search(r'\.(cxx|cpp|cc)$', f))
    return src + [os.path.join(REPO, e) for e in extra]


def flags_for(f, job, native):
    fl = ['-x', 'c', '-std=gnu11'] if f.endswith('.c') else ['-std=c++14']
    if f.endswith('.c') and not native:
        fl += ['-Wno-implicit-function-declaration']
    return fl


def defs_for(f, job):
    d = list(DEFS)
    for suffix, opts in job.get('file_flags', {}).items():
        if f.endswith(suffix):
            d += opts
    return d


def compile_all(job, defs, work, native):
    """Compile repository sources, models and harness; returns the bitcode / the executable."""
    srcs = [(f, 'r') for f in repo_sources(job['mods'], job.get('extra', ()))]
    srcs.append((os.path.join(VERIF, 'harness', job['harness']), 'h'))
    srcs.append((os.path.join(VERIF, 'models', 'brk.cpp'), 'h'))
    if native:
        srcs.append((os.path.join(VERIF, 'native', 'sx_native.cpp'), 'h'))
    else:
        srcs += [(os.path.join(VERIF, 'models', n), 'm') for n in ('rt.cpp', 'cenv.cpp')]
        gt = os.path.join(work, 'gen_thai')
        if not os.path.exists(os.path.join(work, 'thai.cpp')):
            sh(['gcc', '-O1', os.path.join(VERIF, 'models', 'gen_thai.c'), '-o', gt, '-lthai'])
            open(os.path.join(work, 'thai.cpp'), 'wb').write(sh([gt]))
        srcs.append((os.path.join(work, 'thai.cpp'), 'm'))
    objs, cmds = [], []
    for i, (f, k) in enumerate(srcs):
        o = os.path.join(work, '%s%d.%s' % ('n' if native else 'b', i, 'o' if native else 'bc'))
        inc = ['-I' + os.path.join(VERIF, 'models', 'api'), '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]
        if not native:
            inc = ['-I' + os.path.join(VERIF, 'models', 'include')] + inc
        if native:
            c = ['g++'] + flags_for(f, job, True) + NAT_FLAGS + ['-DSX_REPLAY']
        else:
            c = [CLANG] + flags_for(f, job, False) + BC_FLAGS + ['-emit-llvm']
        cmds.append(c + defs_for(f, job) + inc + (defs if k == 'h' else []) + ['-c', f, '-o', o])
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: sh(c, cwd=REPO), cmds))
    if native:
        for (f, k), o in zip(srcs, objs):       # programs under test: main() becomes callable from the harness
            if k == 'r' and any(f.endswith(x) for x in job.get('mains', ())):
                sh(['objcopy', '--redefine-sym', 'main=sx_prog_main', '--redefine-sym', 'exit=sx_exit', o])
        exe = os.path.join(work, 'replay')
        sh(['g++', '-fsanitize=address,undefined'] + objs + ['-o', exe, '-lthai', '-ldatrie'])
        return exe
    bc = os.path.join(work, 'all.bc')
    sh(['llvm-link-18'] + objs + ['-o', bc])
    return bc


def merge(outdir):
    m = {'num': {}, 'reach': {}, 'unsup': {}, 'check_msgs': {}, 'functions': {}, 'violations': [], 'samples': []}
    seen = set()
    for f in sorted(glob.glob(os.path.join(outdir, 'res.*.json'))):
        d = json.load(open(f))
        for k, v in d.items():
            if isinstance(v, (int, float)):
                m['num'][k] = max(m['num'].get(k, 0), v) if k == 'max_query_s' else m['num'].get(k, 0) + v
        for k in ('reach', 'unsup', 'check_msgs'):
            for a, b in d[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for k, v in d['functions'].items():
            m['functions'][k] = [max(m['functions'].get(k, [0, 0])[0], v[0]), v[1]]
        for v in d['violations']:
            key = (v['kind'], v['msg'], v['loc'].split(' < ')[0])
            if key not in seen:
                seen.add(key)
                m['violations'].append(v)
        m['samples'] += d['samples']
    return m


def replay(exe, assign, tmo=60):
    """Run the native harness on an assignment. -> (status, text, dumps)"""
    d = tempfile.mkdtemp(prefix='sxr.')
    try:
        a = os.path.join(d, 'assign')
        with open(a, 'w') as f:
            for k, v in assign.items():
                f.write('%s %d\n' % (k, v))
        t = os.path.join(d, 'tmp')
        os.mkdir(t)
        lg = os.path.join(d, 'log')
        env = dict(os.environ, SX_ASSIGN=a, SX_TMP=t, SX_LOG=lg, LC_ALL='C',
                   ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=4096:allocator_may_return_null=0:max_allocation_size_mb=4096',
                   UBSAN_OPTIONS='print_stacktrace=1')
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, timeout=tmo, cwd=t)
            rc, err = r.returncode, r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', 'no end within %d s' % tmo
        ltxt = open(lg, errors='replace').read() if os.path.exists(lg) else ''
        dumps = [l.split(' ')[1:] for l in ltxt.splitlines() if l.startswith('DUMP ')]
        dumps = [[' '.join(x[:-1]), int(x[-1])] for x in dumps]
        st = 'ok' if rc == 0 else 'assume' if rc == 77 else 'unsupported' if rc == 78 else 'fail'
        return st, (ltxt[-500:] if rc == 99 else '') + err[:3000], dumps
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_job(job, tier, budget, work):
    """-> dict of results of one job."""
    t0 = time.time()
    defs = ['-D' + x for x in job.get('defs', {}).get(tier, job.get('defs', {}).get('quick', []))]
    os.makedirs(work)
    bc = compile_all(job, defs, work, False)
    tc = time.time() - t0
    out = os.path.join(work, 'out')
    os.mkdir(out)
    limit = min(job.get('time', {}).get(tier, budget), budget)
    cmd = [engine(), '--out', out, '--max-time', str(int(max(5, limit - tc))), '--max-viol', str(job.get('max_viol', 3)),
           '--max-steps', str(job.get('max_steps', 50000000)), bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    m = merge(out)
    m['rc'] = r.returncode
    m['err'] = r.stdout.decode(errors='replace')[-2000:]
    m['time_total'] = time.time() - t0
    m['time_compile'] = tc
    m['defs'] = defs
    return m
