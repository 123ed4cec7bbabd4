#!/usr/bin/env python3
"""Creates and confirms planted bugs. tools/plant.py FILE.py [id...]: FILE defines BUGS = {id: dict(property, file, edits, needs,
breaks, demo)}; each is applied to a scratch worktree of /repo's HEAD, built and tested there by the repository's own scripts'
compile commands, and kept under seeded/<id>/ when its demonstration passes without and fails with it."""
import json, os, subprocess, sys, runpy
REPO = '/repo'; OUT = '/verif/seeded'
def sh(c, **k):
    try: return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', 'timeout')
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd at the repository's root
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -r -f "$t"' EXIT
g++-11 -std=c++17 -w -O0 -I"$PWD/cpp/include" "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
'''
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in b:
        if isinstance(b[k], list): return set(b[k])
def tests():
    if sh('bash /opt/vp/build.sh').returncode: return False
    sh('bash /opt/vp/test.sh /tmp/w/plant_out.json')
    o = json.load(open('/tmp/w/plant_out.json')); return set(o['passed'])
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; ids = sys.argv[2:] or list(bugs)
    assert not sh('git -C %s status --porcelain -uno' % REPO).stdout.strip(), 'repo not clean'
    for i in ids:
        b = bugs[i]; d = os.path.join(OUT, i); os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        try:
            r0 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
            bad = None
            for f, old, new in b['edits']:
                p = os.path.join(REPO, 'cpp/include/gatl', f); s = open(p).read()
                if s.count(old) < 1: bad = 'edit not found: ' + old[:60]; break
                open(p, 'w').write(s.replace(old, new, 1))
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
            base = BASE
            t = tests() if not bad else set()
            r1 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
            missing = STABLE - t if t else 'build failed'
            ok = r0.returncode == 0 and r1.returncode != 0 and not missing and not bad
            print(i, 'OK' if ok else 'REJECT', 'clean', r0.returncode, 'patched', r1.returncode, 'tests lost', missing if missing else 0, bad or '', (r0.stderr[-200:] if r0.returncode else ''), ('demo does not compile with the patch' if r1.returncode == 2 else ''))
            if ok and os.environ.get('CHECK', '1') == '1':
                c = sh('python3 /verif/mc/run.py %s quick' % b['property'], timeout=1200)
                v = [l for l in c.stdout.splitlines() if l.startswith('  ')]
                print('   caught' if c.returncode == 1 else '   MISSED', len(v), c.stdout.splitlines()[-1][:160], (v[0][:200] if v else ''))
        finally:
            sh('git -C %s checkout -- .' % REPO)
        sys.stdout.flush()
STABLE = BASE = None
if __name__ == '__main__':
    STABLE = stable(); main(); sh('bash /opt/vp/build.sh')
