#!/usr/bin/env python3
"""Development aid: catch.py ID[:PROP]...: runs the quick check of the property of each
seeded bug on a patched copy of /repo, mounted over /repo in a private namespace."""
import json, os, subprocess, sys
S, V = '/tmp/seedrepo', '/tmp/verifc'
def sh(c, **k): return subprocess.run(c, shell=True, **k)
if sys.argv[1] == '--inner':
    for a in sys.argv[2:]:
        i, _, prop = a.partition(':')
        d = '/verif/seeded/' + i
        props = [prop] if prop else [json.load(open(d + '/meta.json'))['property']]
        if prop == 'all': props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
        os.chdir('/repo')
        sh('git checkout -q -- .')
        if sh('git apply %s/patch.diff' % d).returncode: print(i, 'patch does not apply'); continue
        for p in props:
            os.chdir('/verif')
            r = sh('VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s' % p, capture_output=True, text=True)
            v = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l or 'class' in l or 'fail' in l.lower()]
            open('/tmp/catch_%s_%s.log' % (i, p), 'w').write(r.stdout + r.stderr)
            print('%-28s %s exit %d %s' % (i, p, r.returncode, ' | '.join(v)[:300]), flush=True)
        os.chdir('/repo')
        sh('git checkout -q -- .')
    sys.exit(0)
head = subprocess.check_output('git -C /repo rev-parse HEAD', shell=True, text=True).strip()
if not os.path.isdir(S): sh('cp -a /repo ' + S)
sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard %s' % (S, head))
sh('mkdir -p %s && rsync -a --delete /verif/ %s/ || (rm -rf %s && cp -a /verif %s)' % (V, V, V, V))
sys.exit(sh("unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && mount --bind %s /verif && exec python3 /verif/tools/catch.py --inner %s'" % (S, V, ' '.join(sys.argv[1:]))).returncode)
