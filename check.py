#!/usr/bin/env python3
"""Run the check of one property:  check.py C14 [--tier quick|thorough]
Exit 0: holds on everything explored; 1: violation (replayed on a native build);
2: the check itself could not give an answer."""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import log, CheckError
from checks import CHECKS


def known_findings(prop):
    p = os.path.join(sxlib.VERIF, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                site, what = l.split(' ', 2)[2].split(' :: ', 1)
                r.append((site, what))
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--job') + 1] if '--job' in sys.argv else None
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[prop]
    t0 = time.time()
    total = 780 if tier == 'quick' else 10800
    work = tempfile.mkdtemp(prefix='sx.%s.' % prop)
    evdir = os.path.join(sxlib.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = {'queries': 0, 'solver_s': 0.0, 'jobs': [], 'functions_encoded': {}, 'samples': []}
    violations, problems, warnings, known = [], [], [], []
    states = transitions = validated = 0
    try:
        try:
            sxlib.engine()
            for job in c['jobs']:
                if only and job['name'] != only:
                    continue
                if tier == 'quick' and job.get('thorough_only'):
                    continue
                left = total - (time.time() - t0)
                if left < 20:
                    warnings.append('job %s not run: time budget used up' % job['name'])
                    continue
                jd = os.path.join(work, job['name'])
                m = sxlib.run_job(job, tier, left - 60 if tier == 'quick' else left, jd)
                n = m['num']
                states += n.get('paths', 0)
                transitions += n.get('forks', 0)
                if m['rc'] not in (0, 4) or not n:
                    problems.append('job %s: executor failed (%s): %s' % (job['name'], m['rc'], m['err']))
                    continue
                complete = not (n['timeouts'] or n['unsupported'] or n['unknowns'] or m['rc'] == 4)
                missing = [l for l in job.get('reach', []) if l not in m['reach']]
                exe = None
                jv = []
                kf = known_findings(prop)
                if m['violations']:
                    exe = sxlib.compile_all(job, m['defs'], jd, True)
                    for v in m['violations']:
                        st, txt, _ = sxlib.replay(exe, v['assign'], job.get('replay_timeout', 60))
                        v['replay'] = st
                        v['replay_output'] = txt
                        if st == 'fail':
                            k = [w for s, w in kf if s in v['loc'] or s == v['msg']]
                            (known if k else jv).append(v)
                        else:
                            problems.append('job %s: counterexample did not reproduce natively (%s): %s %s at %s with %s %s' % (
                                job['name'], st, v['kind'], v['msg'], v['loc'][:300], json.dumps(v['assign'])[:600], txt[:300]))
                # cross-check sampled paths against the native build
                nsamp = job.get('validate', {}).get(tier, 6 if tier == 'quick' else 25)
                if m['samples'] and nsamp and not jv:
                    exe = exe or sxlib.compile_all(job, m['defs'], jd, True)
                    sm = sorted(m['samples'], key=lambda s: json.dumps(s))
                    step = max(1, len(sm) // nsamp)
                    for s in sm[::step][:nsamp]:
                        st, txt, dumps = sxlib.replay(exe, s['assign'], job.get('replay_timeout', 60))
                        if st == 'ok' and dumps == s['dumps']:
                            validated += 1
                        elif st == 'fail':
                            jv.append({'kind': 'native', 'msg': 'path accepted symbolically fails natively: ' + txt[:200], 'loc': '', 'assign': s['assign'], 'replay': st, 'replay_output': txt})
                        else:
                            problems.append('job %s: native run differs from the symbolic one (%s) for %s: %s vs %s' % (job['name'], st, json.dumps(s['assign'])[:400], dumps[:60], s['dumps'][:60]))
                for v in jv:
                    v['job'] = job['name']
                    v['defs'] = m['defs']
                violations += jv
                if missing and not jv:
                    (problems if complete else warnings).append('job %s: vacuity witness not reached: %s' % (job['name'], missing))
                if n.get('paths_completed', 0) == 0 and not jv and not known:
                    problems.append('job %s: no path completed; %s' % (job['name'], list(m['unsup'].items())[:3]))
                if not complete:
                    warnings.append('job %s incomplete: timeouts=%d unsupported=%d unknown=%d rc=%d %s' % (
                        job['name'], n['timeouts'], n['unsupported'], n['unknowns'], m['rc'], list(m['unsup'].items())[:3]))
                for k, v in m['functions'].items():
                    o = cov['functions_encoded'].get(k, [0, v[1]])
                    cov['functions_encoded'][k] = [max(o[0], v[0]), v[1]]
                cov['queries'] += n['queries'] + n['domain_sat'] + n['domain_unsat']
                cov['solver_s'] += n['solver_s']
                cov['jobs'].append({'name': job['name'], 'bounds': job.get('bounds', {}).get(tier, job.get('bounds', {}).get('quick', '')) if isinstance(job.get('bounds'), dict) else job.get('bounds', ''),
                                    'complete': complete, 'defs': m['defs'], 'wall_s': round(m['time_total'], 2), 'compile_s': round(m['time_compile'], 2),
                                    'reach': m['reach'], 'assertions': m['check_msgs'], 'unsupported_sites': dict(list(m['unsup'].items())[:5]),
                                    **{k: (round(v, 3) if isinstance(v, float) else v) for k, v in n.items()}})
                cov['samples'] += [s['assign'] for s in m['samples'][:3]]
                log('%s/%s: paths=%d checks=%d queries=%d+%d solver=%.1fs wall=%.1fs complete=%s%s' % (
                    prop, job['name'], n['paths'], n['checks_solver'] + n['checks_const'], n['queries'], n['domain_sat'] + n['domain_unsat'],
                    n['solver_s'], m['time_total'], complete, ' VIOLATIONS=%d' % len(jv) if jv else ''))
                if '-v' in sys.argv:
                    log('   reach', m['reach'], 'msgs', m['check_msgs'], 'compile', round(m['time_compile'], 1), {k: n[k] for k in ('paths_completed', 'assume_pruned', 'steps', 'timeouts', 'unsupported')})
                shutil.rmtree(jd, ignore_errors=True)
                if jv:
                    break
        except CheckError as e:
            problems.append(str(e))
        replay_path = None
        if violations:
            rd = os.path.join(evdir, 'replay')
            os.makedirs(rd, exist_ok=True)
            replay_path = os.path.join(rd, prop + '.json')
            json.dump(violations, open(replay_path, 'w'), indent=1, ensure_ascii=False)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': states, 'transitions': transitions, 'traces_validated_against_impl': validated,
                           'bounds': c['bounds'], 'complete_within_bounds': not warnings and not problems,
                           'warnings': warnings, 'problems': [p[:1500] for p in problems], **cov},
              'assumptions': c.get('assumes', []) + COMMON, 'wall_s': round(time.time() - t0, 2),
              'violations': len(violations)}
        ev['coverage']['solver_s'] = round(cov['solver_s'], 3)
        ev['coverage']['functions_encoded_count'] = len(cov['functions_encoded'])
        json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1, ensure_ascii=False)
        for v in known:
            log('KNOWN-FINDING: property=%s %s at %s' % (prop, v['msg'], v['loc'][:120]))
        for w in warnings:
            log('warning:', w[:600])
        if violations:
            for v in violations:
                log('%s: %s: %s' % (v['job'], v['kind'], v['msg']))
                log('   at', v['loc'][:500])
                log('   input', json.dumps(v['assign'])[:800])
                log('   native replay:', v['replay_output'][:600].replace('\n', '\n      '))
            for p in problems:
                log('note:', p[:600])
            log('VIOLATION property=%s replay=%s' % (prop, replay_path))
            return 1
        if problems:
            for p in problems:
                log('problem:', p[:3000])
            return 2
        return 0
    finally:
        if '--keep' in sys.argv:
            log('work', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


COMMON = [
    'clang 18 -O1 IR of the working tree is executed; libstdc++ container headers are executed as compiled, except unordered_map/unordered_set and iostreams, which are replaced by simple models',
    'memory is allocated without reuse of addresses; allocation never fails; new memory is filled with 0xBE',
    'libthai character classes are tabulated from the installed library; libdatrie is modelled as an association list, stdio as in-memory files',
]
if __name__ == '__main__':
    sys.exit(main())
