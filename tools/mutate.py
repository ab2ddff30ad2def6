#!/usr/bin/env python3
"""Development aid: mutation campaign.

mutate.py SEED HOURS [FILE-REGEX]: in a private mount namespace, with a copy of
/repo mounted over /repo: random small mutations of the sources that build and
pass the stable tests are given to the simulators.  What no simulator detects is
written to /tmp/mut/survivors for inspection."""
import json, os, random, re, subprocess, sys, time
S, V, M = '/tmp/mut/repo', '/tmp/mut/verif', '/tmp/mut'
def sh(c, **k): return subprocess.run(c, shell=True, **k)
FILES = {
 r'journal/(Posix_File|Abstract_File|File)': 'P01 P06 P07 P21 P20 P03 P02 P18 P04',
 r'journal/': 'P01 P02 P03 P23 P05 P06 P07 P04 P20 P21 P18 P14 P17 P19 P22 P08',
 r'concurrency/Server\.|concurrency/Async|asio/': 'P27 P08 P09 P12 P13 P16 P22 P14 P11 P10 P15 P23',
 r'concurrency/(Server_|Robust|Keep|Local|Connection|Channel|Thread)': 'P27 P26 P10 P08 P12 P14 P11 P22 P13 P09 P23',
 r'concurrency/': 'P27 P04 P08 P20 P02 P18 P09 P05 P14 P22 P06 P03 P10 P17 P01 P24 P25',
 r'rpc/': 'P27 P15 P26 P16',
 r'compiler/': 'P17 P20 P15 P23 P05 P04',
 r'interpreted/|Freedom|Multiplexer|Writable|Selective': 'P23 P04 P19 P17 P20 P05 P02',
 r'ui/(Client_Command|Parsed_|Connection_Parser|File_Parser|Arguments|Command_|interruptible|joedb_(multi_)?server|joedb_client|.*Builder|write_lock|.*Command_Processor|Interpreter)': 'P25 P22 P19',
 r'ui/': 'P25 P19 P18 P21 P22 P23',
}
SKIP = re.compile(r'filebuf|fstream|iostream|Stream_File|SFTP|Brotli|SSH|Websocket|websocket|Curl|CURL|sftp|Portable_File|Windows|Progress|doxygen|diagnostics|time_string|minimal|Memory_File|base64|joedbc|Destructor|Parsed_Logger')
def candidates(path):
    out = []
    lines = open(path).read().split('\n')
    for i, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(('//', '#', '*', '/*', 'out <<', '<<', 'log(', 'throw', 'std::cerr', 'using', 'namespace', 'class', 'struct', 'const ', 'static', 'include', 'LOG')): continue
        def put(new, what):
            if new != l: out.append((i, new, what))
        if re.match(r'^[\w:\.\->\(\)\*\[\]&]+(\(.*\)|\s*[\+\-]?=\s.*|\+\+|--);\s*\\?$', t) and not t.startswith(('return', 'co_return')):
            tail = '\\' if t.endswith('\\') else ''
            put(re.match(r'\s*', l)[0] + ';' + tail, 'delete statement')
        for a, b in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'), ('if (!', 'if ('), ('else if (', 'else if (!'), ('soft_checkpoint', 'hard_checkpoint'), ('hard_checkpoint()', 'soft_checkpoint()'), ('std::min', 'std::max'), ('std::max', 'std::min')):
            if a in l and not (a == ' < ' and ('template' in l or 'cpp' in l)): put(l.replace(a, b, 1), a + '->' + b)
        if re.match(r'^if \(.*\)$', t): put(l.replace('if (', 'if (false && ', 1), 'never'); put(l.replace('if (', 'if (true || ', 1), 'always')
        if i + 1 < len(lines) and t.endswith(';') and lines[i + 1].strip().endswith(';') and re.match(r'\s*', l)[0] == re.match(r'\s*', lines[i + 1])[0] and not path.endswith('.h') and not t.startswith('return') and not lines[i + 1].strip().startswith(('return', 'break', 'throw', 'co_return')):
            out.append((i, (lines[i + 1], l), 'swap'))
    return out
def inner(seed, hours, rx):
    r = random.Random(seed)
    os.chdir('/repo')
    files = [f for f in subprocess.check_output('git ls-files src/joedb', shell=True, text=True).split() if re.search(r'\.(cpp|h)$', f) and not SKIP.search(f) and re.search(rx, f) and any(re.search(k, f) for k in FILES)]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    sh('bash /opt/vp/build.sh > /tmp/mut/build.log 2>&1')
    end = time.time() + hours * 3600
    pool = [(f, c) for f in files for c in candidates(f)]
    log = open(M + '/log', 'a')
    def say(*a):
        print(*a, flush=True); print(*a, file=log, flush=True)
    say('candidates', len(pool), 'files', len(files))
    # every file has the same weight
    by = {}
    for f, c in pool: by.setdefault(f, []).append(c)
    env = dict(os.environ, VERIF_REPO='/repo', VERIF_BUILD=M + '/build')
    n = 0
    while time.time() < end:
        f = r.choices(list(by), [len(x) ** 0.6 for x in by.values()])[0]
        i, new, what = r.choice(by[f])
        sh('git checkout -q -- .')
        lines = open(f).read().split('\n')
        old = lines[i]
        if what == 'swap': lines[i], lines[i + 1] = new; shown = ' <-> '.join(x.strip() for x in new)
        else: lines[i] = new; shown = old.strip() + '  ==>  ' + new.strip()
        open(f, 'w').write('\n'.join(lines))
        n += 1
        tag = '%s:%d %s' % (f[10:], i + 1, shown)
        t0 = time.time()
        if sh('timeout 900 bash /opt/vp/build.sh > /tmp/mut/build.log 2>&1').returncode: say('nobuild ', tag); continue
        try:
            if sh('timeout 200 bash /opt/vp/test.sh /tmp/mut/t.json > /tmp/mut/test.log 2>&1').returncode == 124: say('tested  ', tag); continue
            bad = [x for x in base if x not in json.load(open('/tmp/mut/t.json'))['passed']]
        except Exception: bad = ['?']
        if bad: say('tested  ', tag); continue
        props = next(v for k, v in FILES.items() if re.search(k, f)).split()
        found = None
        for p in props:
            if subprocess.run(['timeout', '600', 'python3', V + '/tools/build.py', p], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: found = p + ' does not build'; break
            sh('mkdir -p %s/w && rm -f %s/w/*' % (M, M))
            q = sh('timeout 300 %s/build/sim_%s explore --prop %s --seed %d --tier quick --seconds 20 --workers 8 --minimise 0 --dir %s/w --out %s/w/o.json --replay %s/w/r' % (M, p, p, seed * 1000 + n, M, M, M), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q.returncode == 1:
                o = json.load(open(M + '/w/o.json', errors='replace'))
                found = p + ' ' + o.get('violation_class', '?'); break
        if found: say('CAUGHT  ', tag, '|', found, '%.0fs' % (time.time() - t0))
        else:
            say('SURVIVED', tag, '| tried', ' '.join(props), '%.0fs' % (time.time() - t0))
            with open(M + '/survivors', 'a') as s: s.write('=== %s\n%s\n' % (tag, subprocess.check_output('git diff', shell=True, text=True)))
    sh('git checkout -q -- .')
if __name__ == '__main__':
    if sys.argv[1] == '--inner': inner(int(sys.argv[2]), float(sys.argv[3]), os.environ.get('MUT_RX', '.')); sys.exit(0)
    os.makedirs(M, exist_ok=True)
    head = subprocess.check_output('git -C /repo rev-parse HEAD', shell=True, text=True).strip()
    if not os.path.isdir(S): sh('cp -a /repo ' + S)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard %s' % (S, head))
    sh('rsync -a --delete --exclude build --exclude evidence /verif/ %s/ || cp -a /verif %s' % (V, V))
    sys.exit(sh("unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && exec nice -n 5 python3 %s/tools/mutate.py --inner %s'" % (S, V, ' '.join(sys.argv[1:3])), env=dict(os.environ, MUT_RX=sys.argv[3] if len(sys.argv) > 3 else '.')).returncode)
