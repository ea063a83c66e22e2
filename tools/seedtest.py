#!/usr/bin/env python3
"""Validate planted bugs in a scratch copy: tools/seedtest.py ID... (names under /verif/seeded).
Checks: applies, builds, stable tests pass, demo passes without and fails with the patch; then runs this property's check on the patched tree."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/seedcopy'
def sh(c, cwd=None, t=1200, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
def prep():
    if os.path.exists(SC): shutil.rmtree(SC)
    sh('cp -a /repo %s && cd %s && git checkout -q -- . && sed -i "s#/repo#%s#g" _build/CMakeCache.txt && rm -rf _build' % (SC, SC, SC))
    for n in ('build.sh', 'test.sh', 'run_catch.py', 'results.py', 'BUILD.json'):
        s = open('/opt/vp/' + n).read().replace('/repo', SC)
        s = s.replace('/opt/vp', SC + '/vp')
        os.makedirs(SC + '/vp', exist_ok=True); open(SC + '/vp/' + n, 'w').write(s)
    return sh('bash %s/vp/build.sh' % SC)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r = prep(); assert r.returncode == 0, r.stdout[-500:]
for n in sys.argv[1:]:
    d = V + '/seeded/' + n
    meta = json.load(open(d + '/meta.json')); pid = meta['property']
    dd = '/tmp/seeddemo-' + n
    shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    def demo():
        # the demo runs with cwd = the tree under test
        return sh('timeout 300 bash %s/demo.sh' % dd, cwd=SC)
    a = demo()
    p = sh('git apply %s/patch.diff' % d, cwd=SC)
    res = {'demo_clean': a.returncode, 'apply': p.returncode}
    if p.returncode == 0:
        b = sh('bash %s/vp/build.sh' % SC); res['build'] = b.returncode
        t = sh('bash %s/vp/test.sh %s/vp/o.json' % (SC, SC))
        o = json.load(open(SC + '/vp/o.json'))
        res['missing'] = sorted(stable - set(o['passed']))[:5]
        c = demo(); res['demo_bug'] = c.returncode
        k = sh('MAEC_REPO=%s MAEC_EVID=/tmp/seedev ./check.sh %s' % (SC, pid), cwd=V)
        res['check'] = k.returncode
        det = [l for l in k.stdout.split('\n') if ': rule ' in l or l.startswith('ANALYSIS')]
        res['det'] = det[0][:260] if det else ''
    sh('git checkout -q -- . ', cwd=SC); sh('bash %s/vp/build.sh' % SC)
    good = res.get('demo_clean') == 0 and res.get('build') == 0 and not res.get('missing') and res.get('demo_bug', 0) != 0
    print('%s %s %s %s' % ('VALID ' if good else 'INVALID', 'CAUGHT' if res.get('check') == 1 else 'MISSED', n, res), flush=True)
    if not good: print(a.stdout[-300:], a.stderr[-600:], c.stdout[-300:] if 'demo_bug' in res else '', flush=True)
    shutil.rmtree(dd, ignore_errors=True)
shutil.rmtree(SC, ignore_errors=True)
