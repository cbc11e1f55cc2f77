#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  check.py ID [--tier quick|thorough] [--unit NAME] [--repo DIR]
  check.py --replay FILE

Every run recompiles the harnesses against the current source tree to LLVM IR, executes them
symbolically (build/abcsym), replays every counterexample and a sample of the completed paths
on a native build of the same sources, and rewrites evidence/ID.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""
import hashlib, sys, os, json, subprocess, time, shutil, glob, argparse, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from units import PROPS

BUILD = os.path.join(HERE, 'build')
LLVMLINK = '/usr/lib/llvm-18/bin/llvm-link'
COMMON = ['-std=c++11', '-D__ABC__LINUX=1', '-D_FILE_OFFSET_BITS=64', '-w', '-fcxx-exceptions']
IRFLAGS = ['-O1', '-fno-pie', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin',
           '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-emit-llvm', '-c']
NATFLAGS = ['-O0', '-g1', '-fsanitize=address,bounds,integer-divide-by-zero,shift,signed-integer-overflow,return', '-fno-sanitize-recover=all']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def need_engine():
    if not os.path.exists(os.path.join(BUILD, 'abcsym')):
        r = sh(['bash', os.path.join(HERE, 'engine', 'build.sh')])
        if r.returncode: fail('engine build failed\n' + r.stdout)

class Broken(Exception): pass
def fail(msg): raise Broken(msg)

def defs(u, tier):
    d = dict(u.get('defs', {})); d.update(u.get(tier, {}))
    return ['-D%s=%s' % kv for kv in sorted(d.items())]

def bounds(u, tier):
    d = dict(u.get('defs', {})); d.update(u.get(tier, {}))
    return d

def incs(u, repo):
    r = []
    if u.get('shim'): r += ['-I' + os.path.join(HERE, 'shim')]
    return r + ['-I' + repo, '-I' + os.path.join(HERE, 'rt'), '-I' + os.path.join(HERE, 'harness')]

def compile_ir(u, tier, d, repo):
    src = os.path.join(HERE, 'harness', u['h'] + '.cpp')
    cf = [x for x in COMMON] + IRFLAGS + incs(u, repo) + ['-include', os.path.join(HERE, 'rt', 'pre.h')]
    san = u.get('san', 'array-bounds,return')
    s = ['-fsanitize=' + san, '-fsanitize-trap=' + san] if san else []
    r = sh(['clang++-18'] + cf + s + defs(u, tier) + u.get('flags', []) + [src, '-o', d + '/h.bc'])
    if r.returncode: fail('cannot lower %s\n%s' % (u['h'], r.stdout[-4000:]))
    r = sh(['clang++-18'] + cf + [os.path.join(HERE, 'rt', 'rt.cpp'), '-o', d + '/rt.bc'])
    if r.returncode: fail('cannot lower rt\n' + r.stdout[-4000:])
    r = sh([LLVMLINK, d + '/h.bc', d + '/rt.bc', '-o', d + '/m.bc'])
    if r.returncode: fail('link\n' + r.stdout[-4000:])

def compile_native(u, tier, d, repo):
    src = os.path.join(HERE, 'harness', u['h'] + '.cpp')
    txt, seen, todo = '', set(), [src]
    while todo:
        p = todo.pop()
        if p in seen or not os.path.exists(p): continue
        seen.add(p); t = open(p).read(); txt += t
        todo += [os.path.join(HERE, 'harness', m) for m in re.findall(r'#include "([^"/]+)"', t)]
    wraps = sorted(set(re.findall(r'__wrap_(\w+)\s*\(', txt)))
    cf = [x for x in COMMON if x != '-fcxx-exceptions'] + NATFLAGS + incs(u, repo) + defs(u, tier) + u.get('flags', [])
    r = sh(['g++'] + cf + ['-DHARNESS_ENTRY=' + u['entry'], src, os.path.join(HERE, 'rt', 'native.cpp'), '-o', d + '/native', '-pthread'] + ['-Wl,--wrap=' + w for w in wraps])
    if r.returncode: fail('cannot build the native replay of %s\n%s' % (u['h'], r.stdout[-4000:]))

def run_native(d, inp, timeout=40):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=45:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=46'
    try:
        r = subprocess.run([d + '/native', inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return 'violation', 'does not terminate', ''
    err = r.stderr.decode('utf-8', 'replace')
    if r.returncode == 0: return 'ok', '', err
    if r.returncode in (77, 78, 79): return 'diverged', err.strip()[-200:], err
    m = re.search(r'REPLAY-VIOLATION: (.*)', err) or re.search(r'(AddressSanitizer: [^\n]*)', err) or re.search(r'(runtime error: [^\n]*)', err)
    return 'violation', m.group(1) if m else 'exit status %d' % r.returncode, err

def write_inputs(path, head, inputs):
    with open(path, 'w') as f:
        for h in head: f.write('# ' + h.replace('\n', '\n# ') + '\n')
        for n, v in inputs: f.write('input %s %s\n' % (n, ' '.join(map(str, v))))

def run_engine(u, tier, d, jobs, tmax):
    for f in glob.glob(d + '/out.*'): os.remove(f)
    cmd = [os.path.join(BUILD, 'abcsym'), '-entry', u['entry'], '-out', d + '/out', '-jobs', str(jobs), '-time', str(tmax),
           '-steps', str(u.get('steps', 400000)), '-qtimeout', str(u.get('qtimeout', 120000)), '-cov', u['_repo'] + '/', '-maxerr', '2'] + u.get('engine', []) + [d + '/m.bc']
    t0 = time.time()
    try: r = sh(cmd, timeout=tmax + 240)
    except subprocess.TimeoutExpired: return None, 'engine did not stop', time.time() - t0
    outs = []
    for f in sorted(glob.glob(d + '/out.*')):
        try: outs.append(json.load(open(f)))
        except Exception as e: return None, 'unreadable engine result %s (%s)' % (f, e), time.time() - t0
    if r.returncode or not outs: return None, r.stdout[-2000:], time.time() - t0
    m = {'functions': set(), 'reach': set(), 'unsupported': set(), 'errors': [], 'samples': [], 'timedOut': False, 'maxQuery': 0.0, 'procs': len(outs), 'stderr': r.stdout}
    for o in outs:
        for k, v in o.items():
            if k in ('functions', 'reach', 'unsupported'): m[k] |= set(v)
            elif k in ('errors', 'samples'): m[k] += v
            elif k == 'timedOut': m[k] = m[k] or v
            elif k == 'maxQuery': m[k] = max(m[k], v)
            elif k == 'sites': pass
            elif isinstance(v, (int, float)): m[k] = m.get(k, 0) + v
    return m, '', time.time() - t0

def known_findings(prop):
    r = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) id=(KF-\w+) (.*)', l)
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r

def other(repo): # work on another tree is kept apart
    return '' if os.path.realpath(repo) == '/repo' else 'alt-' + hashlib.md5(repo.encode()).hexdigest()[:10]

def check(prop, tier, only, repo):
    t00 = time.time()
    P = PROPS[prop]
    need_engine()
    units = [dict(u) for u in P['units'] if (not only or u['name'] == only) and not (tier == 'quick' and u.get('thorough_only'))]
    budget = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    for u in units:
        u['_repo'] = repo
        u['_d'] = d = os.path.join(BUILD, other(repo) or 'run', tier, prop, u['name'])
        os.makedirs(d, exist_ok=True)
    ncpu = os.cpu_count() or 8
    par = min(len(units), P.get('par', 3))
    known = known_findings(prop)
    seen_known, viol, notes, broken = set(), [], [], []
    tot = {}
    funcs, samples, unitrep = set(), [], []
    validated = 0
    rdir = os.path.join(BUILD, other(repo), 'replay', prop) if other(repo) else os.path.join(HERE, 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    with ThreadPoolExecutor(max_workers=ncpu) as comp, ThreadPoolExecutor(max_workers=par) as eng:
        for u in units: u['_ir'] = comp.submit(compile_ir, u, tier, u['_d'], repo)
        for u in units: u['_nat'] = comp.submit(compile_native, u, tier, u['_d'], repo)
        def job(u):
            u['_ir'].result()
            left = budget - (time.time() - t00)
            tmax = min(u.get('time', {}).get(tier, budget), max(10, left))
            return run_engine(u, tier, u['_d'], u.get('jobs', max(2, ncpu // par + 1)), tmax)
        for u in units: u['_run'] = eng.submit(job, u)
        for u in units:
            try:
                m, err, wall = u['_run'].result(); u['_nat'].result()
            except Broken as e:
                broken.append('%s: %s' % (u['name'], e)); continue
            if m is None: broken.append('%s: %s' % (u['name'], err)); continue
            d = u['_d']
            name = u['name']
            # replay the counterexamples
            errs = [e for e in m['errors'] if e['kind'] != 'unsupported']
            errs.sort(key=lambda e: sum(len(v) for _, v in e['inputs']))
            groups = {}
            for e in errs: groups.setdefault((e['kind'], e['msg'][:60], '' if e['kind'] == 'steps' else e['loc']), []).append(e)
            uviol = 0
            for key, es in list(groups.items())[:40]:
                e = es[0]
                tag = re.match(r'\[(KF-\w+)\]', e['msg'])
                if not tag and (uviol >= 5 or time.time() - t00 > 700): continue	# enough is confirmed
                n = len(os.listdir(rdir)) if os.path.isdir(rdir) else 0
                os.makedirs(rdir, exist_ok=True)
                for e in es[:4]:
                    path = os.path.join(rdir, '%s-%d.txt' % (name, n))
                    write_inputs(path, ['property %s unit %s tier %s' % (prop, name, tier), 'replay: python3 check.py --replay ' + path, e['kind'] + ': ' + e['msg'], 'at ' + e['loc'] + ' in ' + e['func'], e['stack']], e['inputs'])
                    st, why, out = run_native(d, path)
                    if st == 'violation': break
                if st != 'violation':
                    notes.append('%s: UNCONFIRMED %s: %s at %s (%s)' % (name, e['kind'], e['msg'], e['loc'], st)); continue
                if tag and tag.group(1) in known and '[%s]' % tag.group(1) in why:
                    seen_known.add(tag.group(1)); continue
                if uviol < 5: viol.append((prop, path, '%s: %s [%s] at %s' % (name, e['msg'], why, e['loc'])))
                uviol += 1
            # execute a sample of the completed paths on the real code and compare what they report
            val = div = 0
            ss = m['samples']; step = max(1, len(ss) // 12)
            for i, s in enumerate(ss[::step][:12]):
                path = os.path.join(d, 'sample-%d.txt' % i)
                write_inputs(path, ['property %s unit %s tier %s' % (prop, name, tier)], s['inputs'])
                st, why, out = run_native(d, path)
                obs = [[x[4:].partition('|')[0], [int(y) for y in x.partition('|')[2].split()]] for x in out.splitlines() if x.startswith('OBS ') and '|' in x]
                if st == 'violation':
                    os.makedirs(rdir, exist_ok=True)
                    p2 = os.path.join(rdir, '%s-s%d.txt' % (name, i)); shutil.copy(path, p2)
                    viol.append((prop, p2, '%s: native run of a symbolic path fails: %s' % (name, why))); continue
                if st == 'ok' and obs == s['obs']: val += 1
                else: div += 1; notes.append('%s: sample %d: native run differs (%s %s)' % (name, i, st, why))
            validated += val
            if len(samples) < 6 and ss: samples.append({'unit': name, 'path_input': ss[0]['inputs'][:12], 'observed': ss[0]['obs'][:12]})
            missing = [r for r in u.get('reach', []) if r not in m['reach']]
            if missing and not errs and not m['timedOut'] and not m['unsupported'] and not m['unknown'] and m['paths'] and ss:
                # each label is something that has to be possible ("a connection is accepted"); all inputs within the bounds were decided, and none does it
                os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, '%s-never.txt' % name)
                write_inputs(path, ['property %s unit %s tier %s' % (prop, name, tier), 'replay: python3 check.py --replay ' + path, 'never: %s' % ', '.join(missing), 'one of the %d paths, none of which gets there:' % m['paths']], ss[0]['inputs'])
                viol.append((prop, path, '%s: no input within the bounds reaches: %s' % (name, ', '.join(missing))))
            elif missing and not errs and not m['timedOut']: broken.append('%s: vacuous: never reached %s; unsupported: %s' % (name, missing, sorted(m['unsupported'])[:5]))
            if m['timedOut']: notes.append('%s: exploration stopped by the time limit, %d states left' % (name, m['left']))
            if m['unsupported']: notes.append('%s: paths ended at unmodelled operations: %s' % (name, sorted(m['unsupported'])[:6]))
            if m['unknown']: notes.append('%s: %d branch queries undecided' % (name, m['unknown']))
            funcs |= m['functions']
            for k in ('paths', 'errPaths', 'bounded', 'steps', 'forks', 'asserts', 'assumeKilled', 'unknown', 'memChecks', 'queries', 'sat', 'unsat', 'cacheHits', 'assertQueries', 'solverTime'): tot[k] = tot.get(k, 0) + m.get(k, 0)
            tot['maxQuery'] = max(tot.get('maxQuery', 0), m['maxQuery'])
            unitrep.append({'unit': name, 'harness': u['h'] + '.cpp:' + u['entry'], 'bounds': bounds(u, tier), 'claim': u.get('claim', ''), 'complete': not m['timedOut'] and not m['unsupported'] and not m['unknown'],
                            'paths': m['paths'], 'forks': m['forks'], 'instructions': m['steps'], 'assertions_checked': m['asserts'], 'memory_checks': m['memChecks'], 'queries': m['queries'], 'sat': m['sat'], 'unsat': m['unsat'],
                            'cache_hits': m['cacheHits'], 'solver_s': round(m['solverTime'], 3), 'wall_s': round(wall, 2), 'reached': sorted(m['reach']), 'errors': len(groups), 'validated': val, 'diverged': div})
    for k in sorted(seen_known): print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
    for n in notes: print('note:', n)
    for u in unitrep: print('unit %s: %s, %d paths, %d queries, solver %.1fs, wall %.1fs, validated %d' % (u['unit'], 'complete' if u['complete'] else 'INCOMPLETE', u['paths'], u['queries'], u['solver_s'], u['wall_s'], u['validated']))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot.get('paths', 0) + tot.get('forks', 0), 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': validated, 'samples': samples,
                       'method': 'bounded symbolic execution of the LLVM IR of the current sources; branch, memory-safety and assertion conditions decided by Z3 (QF_BV / QF_FP) for every value within the bounds',
                       'paths_completed': tot.get('paths', 0), 'assertion_checks': tot.get('asserts', 0), 'memory_checks': tot.get('memChecks', 0),
                       'solver_queries': tot.get('queries', 0), 'sat': tot.get('sat', 0), 'unsat': tot.get('unsat', 0), 'undecided': tot.get('unknown', 0), 'solver_seconds': round(tot.get('solverTime', 0), 3), 'longest_query_s': tot.get('maxQuery', 0),
                       'functions_encoded': sorted(funcs), 'units': unitrep, 'exhaustive': bool(unitrep) and all(u['complete'] for u in unitrep), 'outside_the_claim': P.get('outside', ''), 'notes': notes, 'known_findings_seen': sorted(seen_known)},
          'assumptions': P.get('assume', []), 'wall_s': round(time.time() - t00, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not other(repo):
      with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    for v in viol: print('  ' + v[2])
    for v in viol: print('VIOLATION property=%s replay=%s' % (v[0], v[1]))
    if viol: return 1
    if broken:
        for b in broken: print('CHECK FAILED:', b)
        return 2
    return 0

def replay(path, repo):
    l = open(path).readline()
    m = re.match(r'# property (\w+) unit (\S+) tier (\w+)', l)
    if '\n# never: ' in open(path).read(): return check(m.group(1), m.group(3), m.group(2), repo)		# about all inputs: decided again
    u = dict([x for x in PROPS[m.group(1)]['units'] if x['name'] == m.group(2)][0])
    d = os.path.join(BUILD, 'run', 'replay'); os.makedirs(d, exist_ok=True)
    compile_native(u, m.group(3), d, repo)
    st, why, out = run_native(d, os.path.abspath(path))
    print(out); print(st, why)
    return 1 if st == 'violation' else 0

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--unit'); ap.add_argument('--replay'); ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    try: sys.exit(replay(a.replay, a.repo) if a.replay else check(a.id, a.tier, a.unit, a.repo))
    except Broken as e: print('CHECK FAILED:', e); sys.exit(2)
