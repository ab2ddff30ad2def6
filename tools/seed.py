#!/usr/bin/env python3
"""Development aid: confirm seeded bugs in a scratch copy of /repo.

seed.py ID...: in a private mount namespace where a copy of /repo is mounted
over /repo: the patch applies, builds, passes the stable tests; demo.sh passes
without the patch and fails with it."""
import json, os, subprocess, sys
S = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, **k).returncode
def inner(i):
    d = '/verif/seeded/' + i
    os.chdir('/repo')
    log = '/tmp/seed_%s.log' % i
    out = open(log, 'w')
    def run(c): return sh(c, stdout=out, stderr=subprocess.STDOUT)
    run('git checkout -q -- . && git clean -fdq')
    if run('bash /opt/vp/build.sh'): print(i, 'base build fails'); return 1
    if run('bash %s/demo.sh' % d): print(i, 'demo fails on the unchanged tree, see', log); return 1
    if run('git apply %s/patch.diff' % d): print(i, 'patch does not apply'); return 1
    try:
        if run('bash /opt/vp/build.sh'): print(i, 'patched build fails', log); return 1
        r = run('bash %s/demo.sh' % d)
        run('bash /opt/vp/test.sh /tmp/seed_t.json')
        b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seed_t.json'))
        bad = [x for x in b['stable'] if x not in t['passed']]
        print(i, 'demo with patch: exit', r, '' if r else '*** NOT DETECTED', '| stable tests failing:', bad)
        return 0 if r and not bad else 1
    finally:
        run('git checkout -q -- .')
if sys.argv[1] == '--inner':
    sys.exit(max([inner(i) for i in sys.argv[2:]]))
head = subprocess.check_output('git -C /repo rev-parse HEAD', shell=True, text=True).strip()
if not os.path.isdir(S): sh('cp -a /repo ' + S)
sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard %s' % (S, head))
sys.exit(sh("unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && exec python3 /verif/tools/seed.py --inner %s'" % (S, ' '.join(sys.argv[1:]))))
