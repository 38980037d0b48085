#!/usr/bin/env python3
"""Plant one bug: seed.py ID  (reads seeded/ID/{patch.diff,demo.sh,meta.json}), or
seed.py new ID PROP file 'old' 'new' : builds patch.diff by one textual replacement.
Confirms: applies, builds, tests pass, demo 0 on clean / nonzero with patch; then runs the check of the property."""
import sys, os, json, subprocess, shutil
V, R = '/verif', '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def confirm(i, tests=True, check=True):
    d = f'{V}/seeded/{i}'; prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    res = {}
    try:
        if tests: sh('bash /opt/vp/build.sh', cwd=R)
        res['demo_clean'] = sh(f'timeout 300 bash {d}/demo.sh', cwd=R).returncode
        a = sh(f'git -C {R} apply {d}/patch.diff'); res['apply'] = a.returncode
        if a.returncode: print(a.stdout); return res
        if tests:
            b = sh('bash /opt/vp/build.sh', cwd=R); res['build'] = b.returncode
            if b.returncode: print(b.stdout[-1500:])
            sh('timeout 150 bash /opt/vp/test.sh /tmp/seed_out.json; pkill -f _unittests', cwd=R)
            base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/seed_out.json'))
            def names(o):
                for k in ('stable', 'passed', 'tests', 'pass'):
                    if isinstance(o, dict) and k in o: return set(o[k]) if not isinstance(o[k], dict) else {t for t, v in o[k].items() if v in ('pass', 'passed', True)}
                return set(o)
            res['failed_tests'] = sorted(names(base) - names(out))[:5]
        dm = sh(f'timeout 300 bash {d}/demo.sh', cwd=R); res['demo_bug'] = dm.returncode
        print(dm.stdout[-400:])
        if check:
            c = sh(f'python3 -m vf.check {prop} --tier quick', cwd=V); res['check'] = c.returncode
            res['out'] = [l for l in c.stdout.splitlines() if 'VIOLATION' in l] or c.stdout.splitlines()[-3:]
    finally:
        sh('git -C /repo checkout -- .'); 
        if tests: sh('bash /opt/vp/build.sh', cwd=R)
    return res
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        _, i, prop, f, old, new = a
        d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
        s = open(f'{R}/{f}').read(); assert s.count(old) == 1, s.count(old)
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout); sh('git -C /repo checkout -- .')
    else:
        for i in [x for x in a if not x.startswith('-')]:
            r = confirm(i, '-t' not in a, '-c' not in a)
            print(i, json.dumps(r, indent=0).replace('\n', ' '), flush=True)
