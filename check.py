#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree by symbolic execution of its compiled code.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
"""
import concurrent.futures, fcntl, hashlib, json, os, random, re, subprocess, sys, tempfile, threading, time, traceback

V = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, V)
import jobs as J

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CPUS = os.cpu_count() or 4
LL = V + '/harness/target/harness.ll'
BIN = V + '/harness/target/sym/harness'
SYMX = V + '/engine/target/release/symx'
COUNTS = ['paths', 'killed', 'steps', 'forks', 'queries', 'arith_queries', 'solver_ms', 'solver_unknown', 'branch_decisions', 'checks', 'violating_paths']
MAXES = ['max_call_depth', 'max_path_steps', 'solver_max_ms']


class Broken(Exception):
    pass


def build():
    p = subprocess.run([V + '/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('the build failed:\n' + p.stdout[-4000:])


def symx(job, out, workers, limit):
    cmd = [SYMX, '--ll', LL, '--entry', job.entry, '-p', ','.join(map(str, job.params)), '--out', out, '-j', str(workers),
           '--timeout', str(max(5, int(limit))), '--seed', str(SEED), '--samples', '6']
    for k, v in job.opts.items(): cmd += ['--' + k, str(v)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Broken('%s: the symbolic executor failed (%d): %s' % (job.name, p.returncode, p.stderr[-2000:]))
    L = [json.loads(l) for l in open(out)]
    os.unlink(out)
    r = {'head': L[0], 'violations': [], 'incomplete': {}, 'reach': {}, 'panics': {}, 'samples': [], 'functions': {}}
    for k in COUNTS + MAXES: r[k] = 0
    for d in L[1:]:
        for k in COUNTS: r[k] += d.get(k, 0)
        for k in MAXES: r[k] = max(r[k], d.get(k, 0))
        r['violations'] += d.get('violations', [])
        r['samples'] += d.get('samples', [])
        for k in ('incomplete', 'reach', 'panics'):
            for a, n in d.get(k, {}).items(): r[k][a] = r[k].get(a, 0) + n
        for a, n in d.get('functions', []): r['functions'][a] = r['functions'].get(a, 0) + n
    return r


def native(job, inputs, limit=60, valgrind=False):
    """Runs the real code on one recorded assignment. Returns (exit status, output)."""
    with tempfile.NamedTemporaryFile('w', suffix='.replay', delete=False) as f:
        for w, v in inputs: f.write('%d %d\n' % (w, v))
    env = dict(os.environ, SYM_REPLAY=f.name, SYM_PARAMS=','.join(map(str, job.params)))
    cmd = [BIN, job.entry]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=71'] + cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=limit)
        return p.returncode, p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stderr or b'').decode('utf8', 'replace')
    finally:
        os.unlink(f.name)


def confirm(job, v):
    """Does the counterexample show on the real code? Returns (confirmed, description)."""
    kind = v['kind']
    rc, err = native(job, v['inputs'], 20 if kind == 'steps' else 120)
    m = re.search(r'SYM CHECK FAILED: (.*)', err)
    if rc == 70 and m: return True, m.group(1)
    p = re.findall(r'SYM PANIC (\S+) \[(.*)', err)
    if kind == 'check': return False, 'native run ended with %s: %s' % (rc, err[-300:])
    if rc == 101: return True, 'panic at %s: %s' % p[-1] if p else 'panic'
    if isinstance(rc, int) and rc < 0: return True, ('stack overflow' if 'stack' in err else 'killed by signal %d' % -rc)
    if rc == 'timeout': return kind == 'steps', 'no result within the time limit'
    if kind in ('memory', 'ub'):
        rc, err = native(job, v['inputs'], 300, True)
        if rc == 71 or (isinstance(rc, int) and rc < 0): return True, 'valgrind reports an invalid access'
    return False, 'native run ended with %s: %s' % (rc, err[-300:])


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        d = p.stdout.split('\n')[:len(names)]
    except OSError:
        d = list(names)
    return [re.sub(r'\[[0-9a-f]{8,}\]', '', x) for x in d]


def own(names):
    """the functions of /repo among them"""
    r = set()
    for n in demangle(sorted(names)):
        if re.match(r'^(<+)?(dyn )?typelalr::', n) or ' for typelalr' in n: r.add(n)
    return sorted(r)


def run(pid, todo, budget):
    """Runs all jobs, at most CPUS worker processes at a time."""
    res = {}
    sem = threading.Semaphore(CPUS)
    errs = []

    def one(job):
        w = min(CPUS, job.workers)
        got = 0
        with lock:
            for _ in range(w): sem.acquire()
        try:
            left = budget - (time.time() - T0)
            if left < 5:
                res[job.name] = None
                return
            out = tempfile.mktemp(prefix='symx-', dir=TMP)
            res[job.name] = symx(job, out, w, min(left, job.timeout))
        except Exception as e:
            errs.append(e)
        finally:
            for _ in range(w): sem.release()
    lock = threading.Lock()
    with tempfile.TemporaryDirectory(prefix='symx') as TMP:
        with concurrent.futures.ThreadPoolExecutor(max_workers=len(todo) or 1) as ex:
            list(ex.map(one, todo))
    if errs: raise errs[0]
    return res


def known():
    r = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known': r.append(d)
    return r


def main():
    pid = sys.argv[1]
    todo = J.jobs(pid, TIER)
    if len(sys.argv) > 2: todo = [j for j in todo if any(a in j.name for a in sys.argv[2:])]
    budget = 780 if TIER == 'quick' else 6 * 3600
    build()
    tb = time.time() - T0
    res = run(pid, todo, budget)
    finds = [k for k in known() if k['property'] == pid]
    reported, nviol, suppressed, shown = [], 0, {}, {}
    incomplete, notes = {}, []
    tot = {k: 0 for k in COUNTS}
    mx = {k: 0 for k in MAXES}
    validated, samples, funcs, per = 0, [], {}, []
    rnd = random.Random(SEED)
    rdir = V + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rdir, f))
    unconfirmed = []
    for job in todo:
        r = res.get(job.name)
        if r is None:
            incomplete['%s: not started for lack of time' % job.name] = 1
            continue
        for k in COUNTS: tot[k] += r[k]
        for k in MAXES: mx[k] = max(mx[k], r[k])
        for k, n in r['functions'].items(): funcs[k] = funcs.get(k, 0) + n
        for k, n in r['incomplete'].items(): incomplete['%s: %s' % (job.name, k)] = n
        # violations: each distinct one is replayed against the real code
        groups = {}
        for v in r['violations']:
            groups.setdefault((v['kind'], v['msg'], v['loc'] if v['kind'] != 'check' else ''), []).append(v)
        for key, vs in sorted(groups.items()):
            kind, msg, loc = key
            n = sum(v['count'] for v in vs)
            hit = next((k for k in finds if k['entry'] == job.entry and k['message'] == msg), None)
            if hit:
                suppressed[hit['what']] = suppressed.get(hit['what'], 0) + n
                continue
            vs.sort(key=lambda v: len(v['inputs']))
            ok, what = False, ''
            for v in vs[:3]:
                ok, what = confirm(job, v)
                if ok: break
            if not ok:
                unconfirmed.append('%s %s: %s %s -- %s' % (job.name, kind, msg, loc, what))
                continue
            nviol += n
            h = hashlib.sha1(('%s %s' % (job.name, key)).encode()).hexdigest()[:10]
            path = '%s/%s-%s.json' % (rdir, pid, h)
            json.dump({'property': pid, 'job': job.name, 'entry': job.entry, 'params': list(job.params), 'kind': kind, 'message': msg,
                       'location': loc, 'paths': n, 'inputs': v['inputs'], 'native': what,
                       'replay': 'SYM_PARAMS=%s SYM_REPLAY=<file with one "width value" line per input> %s %s' % (','.join(map(str, job.params)), BIN, job.entry)}, open(path, 'w'), indent=1)
            reported.append((path, '%s: %s %s (%s) on %d path(s); native: %s' % (job.name, kind, msg, loc, n, what)))
        # sampled paths: the real code must produce what the symbolic executor computed
        sm = sorted(r['samples'], key=lambda s: (s['steps'], json.dumps(s)))
        rnd.shuffle(sm)
        sm = sm[:job.validate if TIER == 'quick' else job.validate * 4]
        def chk(s):
            rc, err = native(job, s['inputs'])
            m = re.search(r'SYM OK ([0-9a-f]{16}) (\d+)', err)
            return rc, err, (m.group(1), int(m.group(2))) if m else None
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            for s, (rc, err, got) in zip(sm, ex.map(chk, sm)):
                if rc != 0 or got != (s['outs'], s['nouts']):
                    raise Broken('%s: the real code and the symbolic executor disagree on %s: native %s %s, symbolic %s %s\n%s' % (job.name, s['inputs'], rc, got, s['outs'], s['nouts'], err[-500:]))
                validated += 1
        if sm: samples.append({'job': job.name, 'inputs': sm[0]['inputs'][:60], 'steps': sm[0]['steps'], 'outputs_digest': sm[0]['outs']})
        miss = [x for x in job.reach if str(x) not in r['reach']]
        if miss and not r['violations'] and not r['incomplete']:
            raise Broken('%s: situations %s were never reached, so the check says nothing about them' % (job.name, miss))
        per.append({'job': job.name, 'about': job.about, 'bounds': job.bounds, 'paths': r['paths'], 'infeasible': r['killed'], 'queries': r['queries'],
                    'branch_decisions': r['branch_decisions'], 'assertions': r['checks'], 'steps': r['steps'], 'solver_s': round(r['solver_ms'] / 1000, 3),
                    'wall_s': round(r['head']['wall_ms'] / 1000, 3), 'reached': r['reach'], 'caught_panics': r['panics'], 'incomplete': r['incomplete'], 'complete': not r['incomplete']})
    if tot['paths'] == 0: raise Broken('nothing was explored')
    fn = own(funcs)
    prop = J.PROPS[pid]
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'explanation': 'Symbolic execution of the LLVM IR compiled from /repo: every path within the bounds, each branch and assertion decided by z3 over all inputs of the path.',
            'states': tot['paths'] + tot['forks'], 'transitions': tot['branch_decisions'] + tot['checks'],
            'paths_completed': tot['paths'], 'paths_infeasible': tot['killed'], 'forks': tot['forks'], 'instructions': tot['steps'], 'assertions_evaluated': tot['checks'],
            'solver_queries': tot['queries'], 'solver_queries_as_integer_arithmetic': tot['arith_queries'], 'solver_time_s': round(tot['solver_ms'] / 1000, 3), 'solver_slowest_ms': mx['solver_max_ms'],
            'solver_unknown': tot['solver_unknown'], 'solver': 'z3 ' + next((r['head']['z3'] for r in res.values() if r), '?'),
            'traces_validated_against_impl': validated, 'samples': samples[:12],
            'functions_encoded': fn, 'functions_encoded_total': len(funcs), 'deepest_call': mx['max_call_depth'], 'longest_path_instructions': mx['max_path_steps'],
            'jobs': per, 'bounds': prop.get('bounds', ''), 'outside_bounds': prop.get('outside', ''), 'exhaustive': not incomplete and not unconfirmed,
            'incomplete': incomplete, 'build_s': round(tb, 1),
        },
        'assumptions': J.ASSUMPTIONS + prop.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': nviol,
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    tmp = V + '/evidence/.%s.%d' % (pid, os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, V + '/evidence/%s.json' % pid)
    print('%s %s: %d paths, %d queries (%.1f s in the solver), %d assertions, %d native replays, %.1f s' % (pid, TIER, tot['paths'], tot['queries'], tot['solver_ms'] / 1000, tot['checks'], validated, time.time() - T0))
    for k, n in incomplete.items(): print('INCOMPLETE: %s (%d)' % (k, n))
    for what in suppressed: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for path, what in reported:
        print(what)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if reported: return 1
    if unconfirmed: raise Broken('counterexamples that the real code does not show: ' + '; '.join(unconfirmed))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as e:
        print('ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
