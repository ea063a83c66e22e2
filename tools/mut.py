#!/usr/bin/env python3
"""Test the checks both ways on scratch copies: tools/mut.py ID... ; corpus in tools/muts/<ID>.py:
MUTS = [(kind 'bug'|'same', name, [(file, old, new), ...]), ...].  'bug' must be reported (exit 1), 'same' must stay quiet (exit 0)."""
import sys, os, shutil, subprocess, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/muts")
def load(pid):
    s = importlib.util.spec_from_file_location('m', '%s/tools/muts/%s.py' % (V, pid)); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.MUTS
def run(job):
    pid, kind, name, edits = job
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        r = d + '/repo'; os.makedirs(r)
        for x in ('include', 'src'):
            shutil.copytree('/repo/' + x, r + '/' + x)
        for fn, old, new in edits:
            p = r + '/' + fn; s = open(p).read()
            if s.count(old) < 1:
                return job, 'NOMATCH', old[:60]
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, MAEC_REPO=r, MAEC_EVID=d)
        o = subprocess.run([V + '/check.sh', pid], capture_output=True, text=True, env=env)
        lines = [l for l in o.stdout.split('\n') if l.strip()]
        det = [l for l in lines if ': rule ' in l or l.startswith('ANALYSIS')]
        if 'internal' in o.stdout: det = [o.stdout[-900:]]
        return job, o.returncode, (det[0] if det else '')[:900]
    finally:
        shutil.rmtree(d, ignore_errors=True)
jobs = []
for pid in sys.argv[1:]:
    sel = None
    if ':' in pid:
        pid, sel = pid.split(':')
    jobs += [(pid,) + m for m in load(pid) if sel is None or sel in m[1]]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for job, rc, det in ex.map(run, jobs):
        want = 1 if job[1] == 'bug' else 0
        ok = rc == want
        bad += not ok
        print('%s %-4s %-4s %-34s rc=%s %s' % ('    ' if ok else '!!! ', job[0], job[1], job[2], rc, det if (not ok or os.environ.get('V')) else ''))
print('%d jobs, %d unexpected' % (len(jobs), bad))
