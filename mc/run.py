#!/usr/bin/env python3
"""Runs the exhaustive explorations that decide one property.

  run.py <ID> quick|thorough      decide a property on /repo's working tree
  run.py --replay <file>          re-run one recorded violation
  run.py --list <ID>              list the explorations of a property
  run.py --setup                  check the tools

Every exploration is a C++ driver of this directory, compiled against /repo's headers; it enumerates a finite space
completely and compares every transition with the reference model. Exit: 0 the property held on everything explored,
1 a violation (or a driver that no longer compiles, dies or hangs).
"""
import concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('GATL_REPO', '/repo')
CXX = 'g++-11'
EVID = os.path.join(ROOT, 'evidence')
sys.path.insert(0, HERE)
BUDGET = {'quick': 840, 'thorough': 6 * 3600}

def limits(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def call(cmd, cwd, timeout):
    """returns (rc or None on timeout, stdout, stderr); kills the whole group on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=limits(0))
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        return None, o, e

class Mem:
    """keeps the sum of the compilers' expected memory below a bound"""
    def __init__(self, total): self.total, self.used, self.cv = total, 0, threading.Condition()
    def get(self, n):
        n = min(n, self.total)
        with self.cv:
            while self.used + n > self.total: self.cv.wait()
            self.used += n
        return n
    def put(self, n):
        with self.cv: self.used -= n; self.cv.notify_all()

def available_gb():
    try:
        for l in open('/proc/meminfo'):
            if l.startswith('MemAvailable'): return int(l.split()[1]) / 1048576
    except OSError: pass
    return 16

def compile_cmd(job, exe):
    return [CXX, '-std=c++17', job.get('opt', '-O1'), '-w', '-I', os.path.join(REPO, 'cpp/include'), '-I', HERE] + job.get('flags', []) + \
        ['-D%s' % d for d in job.get('defs', [])] + [os.path.join(HERE, job['src']), '-o', exe]

def build(job, exe, tmo):
    rc, o, e = call(compile_cmd(job, exe), HERE, tmo)
    return rc, e

def first_errors(e):
    ls = [l for l in e.splitlines() if 'error:' in l or 'undefined reference' in l or 'Killed' in l or 'out of memory' in l]
    return ' | '.join(re.sub(r'\s+', ' ', l)[:300] for l in ls[:3]) or e[-300:]

def parse(o):
    r = dict(fails=[], done=None, crash=None)
    for l in o.splitlines():
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except ValueError: continue
        if 'done' in d: r['done'] = d
        elif 'crash' in d: r['crash'] = d
        elif 'fail' in d: r['fails'].append(d)
    return r

def run_job(job, tmp, mem, deadline, build_mem=None):
    """explores one driver; returns a result record"""
    name = job['name']
    res = dict(name=name, ok=False, violations=[], wall=0)
    exe = os.path.join(tmp, re.sub(r'[^A-Za-z0-9_.-]', '_', name))
    g = mem.get(job.get('mem', 1.0))
    t = time.time()
    try:
        lim = max(20, min(job.get('ctimeout', 420), deadline - time.time()))
        rc, e = build(job, exe, lim)
        if rc is None or rc < 0 or 'Killed' in e or 'out of memory' in e or 'internal compiler error' in e:  # memory pressure or a busy machine: once more
            rc, e = build(job, exe, max(20, min(lim, deadline - time.time())))
        res['compile_s'] = round(time.time() - t, 1)
    finally:
        mem.put(g)
    if rc is None or rc < 0 or (rc != 0 and ('Killed' in e or 'out of memory' in e)):  # a slow or full machine says nothing about the library
        res['skipped'] = 'compiling did not end (time or memory)'
        return res
    if rc != 0:
        res['violations'].append(dict(key='compile', what='does not compile: ' + first_errors(e)))
        return res
    t = time.time()
    env_cmd = [exe]
    lim = max(10, min(job.get('timeout', 300), deadline - time.time()))
    rc, o, e = call(env_cmd, tmp, lim)
    r = parse(o)
    res['run_s'] = round(time.time() - t, 1)
    if rc is None and not r['fails'] and lim < min(60, job.get('timeout', 300)):
        res['skipped'] = 'no time left'
    elif rc is None:
        res['violations'] += [dict(key=f['fail'], what=f['what']) for f in r['fails']]
        res['violations'].append(dict(key='hang', what='the exploration does not end (time limit)'))
    elif r['done'] is None or (rc not in (0, 3)):
        if rc == 9 and 'reference model' in e:
            print('ERROR: reference model inconsistent'); res['error'] = True
        where = (r['crash'] or {}).get('where', '')
        msg = 'the library died (exit status %s) at %s' % (rc, where)
        for l in e.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate' in l: msg += ' : ' + l.strip()[:300]; break
        res['violations'] += [dict(key=f['fail'], what=f['what']) for f in r['fails']]
        res['violations'].append(dict(key='crash/' + where, what=msg))
    else:
        res['done'] = r['done']
        for f in r['fails']: res['violations'].append(dict(key=f['fail'], what=f['what']))
        if r['done']['fails'] and not r['fails']: res['violations'].append(dict(key='fails', what='%d failing transitions' % r['done']['fails']))
        if r['done']['transitions'] == 0: res['violations'].append(dict(key='empty', what='the exploration visited nothing'))
        for v in res['violations'][:3]:  # confirm by replaying the single transition
            rc2, o2, _ = call([exe, '--only', v['key']], tmp, max(10, min(job.get('timeout', 300), deadline - time.time())))
            r2 = parse(o2)
            v['replayed'] = any(f['fail'] == v['key'] for f in r2['fails'])
    res['ok'] = not res['violations'] and not res.get('skipped')
    try: os.remove(exe)
    except OSError: pass
    return res

def known_findings():
    """lines 'known: property=<id> job=<name> key=<key>' suppress exactly that violation; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) job=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m: out[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        rc, o, e = call([CXX, '--version'], HERE, 60)
        print(o.splitlines()[0] if o else 'no compiler'); os.makedirs(EVID, exist_ok=True)
        sys.exit(0 if rc == 0 else 1)
    import spec
    if a and a[0] == '--list':
        for j in spec.jobs(a[1], 'thorough'): print(j['name'], j['tier'], ' '.join(compile_cmd(j, 'x')))
        return
    tmp = tempfile.mkdtemp(prefix='gatl-mc-')
    try:
        if a and a[0] == '--replay':
            d = json.load(open(a[1])); job = d['job']; exe = os.path.join(tmp, 'x')
            rc, e = build(job, exe, 900)
            if rc != 0: print('does not compile:', first_errors(e)); sys.exit(1)
            rc, o, e = call([exe] + (['--only', d['key']] if d['key'] not in ('hang', 'fails') and not d['key'].startswith('crash') else []), tmp, 900)
            print(o[-4000:]); print(e[-2000:]); sys.exit(0 if rc == 0 else 1)
        sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'), tmp, spec))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(pid, tier, tmp, spec):
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    jobs = sorted(spec.jobs(pid, tier), key=lambda j: -j.get('cost', 5))
    only = os.environ.get('MC_JOBS')
    if only: jobs = [j for j in jobs if re.search(only, j['name'])]
    workers = int(os.environ.get('MC_WORKERS', '8'))
    mem = Mem(max(3.0, min(26.0, available_gb() * 0.8)))
    results = []
    with cf.ThreadPoolExecutor(workers) as ex:
        for r in ex.map(lambda j: run_job(j, tmp, mem, deadline), jobs):
            results.append(r)
            if os.environ.get('MC_PROGRESS') and not r['ok']: print('progress: %s %s' % (r['name'], (r.get('skipped') or r['violations'])), file=sys.stderr, flush=True)
    byname = {j['name']: j for j in jobs}
    known = known_findings()
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith('replay-%s-' % pid): os.remove(os.path.join(EVID, f))
    nviol = 0; nknown = 0; lines = []
    show = int(os.environ.get('MC_SHOW', '20'))
    for r in results:
        shown = 0
        for v in r['violations']:
            k = (pid, r['name'], v['key'])
            if k in known:
                nknown += 1; lines.append('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[k], v['key'])); continue
            nviol += 1
            path = os.path.join(EVID, 'replay-%s-%d.json' % (pid, nviol))
            shown += 1
            if len(lines) < 2 * show and shown <= 4:
                json.dump(dict(property=pid, exploration=r['name'], key=v['key'], what=v['what'], replayed=v.get('replayed'), job=byname[r['name']],
                    replay_cmd='python3 %s --replay %s' % (os.path.join(HERE, 'run.py'), path)), open(path, 'w'), indent=1)
                lines.append('VIOLATION property=%s replay=%s' % (pid, path))
                lines.append('  %s: %s: %s' % (r['name'], v['key'], v['what'][:400]))
    for r in results:
        if r.get('skipped'): print('INCOMPLETE: %s: %s' % (r['name'], r['skipped']))
    done = [r['done'] for r in results if r.get('done')]
    samples = []
    for r in results:
        for s in (r.get('done') or {}).get('samples', [])[:2]: samples.append(r['name'] + ': ' + s)
    cov = dict(
        states=sum(d['states'] for d in done), transitions=sum(d['transitions'] for d in done),
        traces_validated_against_impl=sum(d['traces'] for d in done),
        distinct_outcomes=sum(d['outcomes'] for d in done),
        explorations=len(jobs), explorations_completed=len(done),
        exhaustive=len(done) == len(jobs),
        samples=samples[:40] or ['none completed'],
        bounds=[j['name'] + (': ' + j['bound'] if j.get('bound') else '') for j in jobs],
        explanation='Each exploration enumerates its finite space completely. states: distinct multivector states (value x representation x space) visited; '
            'transitions: operations executed on the real library and compared with the reference model; traces: complete histories (operand rows or operation sequences) replayed on the implementation.',
        per_exploration=[dict(name=r['name'], ok=r['ok'], compile_s=r.get('compile_s'), run_s=r.get('run_s'), **{k: (r.get('done') or {}).get(k) for k in ('states', 'transitions', 'traces')}) for r in results])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov,
        assumptions=spec.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    print('%s %s: %d explorations, %d states, %d transitions, %d violations, %d known, %.1f s' % (pid, tier, len(jobs), cov['states'], cov['transitions'], nviol, nknown, ev['wall_s']))
    return 1 if nviol else 0

if __name__ == '__main__':
    main()
