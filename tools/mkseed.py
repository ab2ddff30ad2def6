#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines BUGS: dicts id, property, edits [(file, old, new)], needs, breaks, demo."""
import json, os, runpy, shutil, subprocess, sys
S = '/tmp/seedrepo'
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % S, shell=True, check=True)
    for f, old, new in b['edits']:
        p = os.path.join(S, 'src/joedb', f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', S, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write('#include "demo.h"\n' + b.get('demo', '').lstrip('\n'))
    for x in ('demo.sh', 'demo.h'): shutil.copy('/verif/tools/demo/' + x, d)
    if b.get('py'):
        # a script that drives the programs of /repo/_build
        os.unlink(d + '/demo.cpp'); os.unlink(d + '/demo.h')
        open(d + '/demo.py', 'w').write(b['py'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write("""#!/bin/bash
# Runs demo.py, which drives the programs of /repo/_build, in a scratch directory.
# Exit code: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
cd "$t" || exit 2
timeout 120 python3 "$here/demo.py"
r=$?
echo "exit code $r"
exit $r
""")
    for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t.lstrip('\n'))
    if b.get('schema'):
        # compiles schema.joedbi with the compiler of the repository first
        t = open(d + '/demo.sh').read()
        t = t.replace('g++ -std', 'for s in "$here"/*.joedbi; do cp "$s" "${s%i}c" "$t"/; (cd "$t" && /repo/_build/joedbc "$(basename "${s%.joedbi}")") || exit 2; done\ng++ -std', 1)
        t = t.replace('-I"$here"', '-I"$here" -I"$t"', 1)
        open(d + '/demo.sh', 'w').write(t)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'], check=True)
    print(b['id'])
