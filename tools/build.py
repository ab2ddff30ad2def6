#!/usr/bin/env python3
"""Builds the simulator binary of one property from /repo's current tree.

Nothing is written outside the build directory (git-ignored).  Objects are
cached by the content of everything they include, so a change anywhere in
/repo/src recompiles exactly what it affects.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(REPO, 'src')
OBJ = os.path.join(BUILD, 'obj')
CXX = os.environ.get('VERIF_CXX', 'g++')
GUARD = 'JOEDB_SIMULATION'

DEFS = ['-DJOEDB_HAS_ASIO', '-DJOEDB_HAS_BOOST', '-DJOEDB_HAS_BROTLI',
        '-DJOEDB_VERSION=100402', '-D_FILE_OFFSET_BITS=64',
        '-D_GLIBCXX_ASSERTIONS', '-D' + GUARD]
OPT = ['-std=c++20', '-O1', '-g1', '-pipe', '-fmacro-prefix-map=%s/=/joedb/' % REPO, '-w']
SKIP = re.compile(r'Windows|Android|Apple|CURL|wide_char_for_windows|minimal_runtime|Posix_File\.cpp|Portable_File\.cpp')
BROTLI = ['-lbrotlienc', '-lbrotlidec', '-lbrotlicommon']

_hash_lock = threading.Lock()
_hashes = {}

def file_hash(path):
    with _hash_lock:
        if path in _hashes:
            return _hashes[path]
    try:
        with open(path, 'rb') as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = None
    with _hash_lock:
        _hashes[path] = h
    return h

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=cwd)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

def parse_deps(depfile):
    with open(depfile) as f:
        text = f.read().replace('\\\n', ' ')
    text = text.split(':', 1)[1]
    return [d.replace('\\ ', ' ') for d in re.split(r'(?<!\\)\s+', text.strip()) if d]

def compile_one(src, flags):
    key = hashlib.sha1(('\0'.join([CXX, src] + flags)).encode()).hexdigest()[:20]
    obj = os.path.join(OBJ, os.path.basename(src)[:-4] + '-' + key + '.o')
    meta = obj + '.json'
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            with open(meta) as f:
                deps = json.load(f)
            if all(file_hash(p) == h for p, h in deps.items()):
                return obj
        except (OSError, ValueError):
            pass
    dep = obj + '.d'
    run([CXX] + flags + ['-MMD', '-MF', dep, '-c', src, '-o', obj])
    deps = {}
    for d in parse_deps(dep):
        d = os.path.normpath(os.path.join(os.getcwd(), d))
        if not d.startswith('/usr/'):
            deps[d] = file_hash(d)
    os.unlink(dep)
    tmp = meta + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(deps, f)
    os.rename(tmp, meta)
    return obj

_include = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)

class Scanner:
    """transitive include closure inside the repository (textual)"""
    def __init__(self):
        self.memo = {}

    def includes(self, path):
        if path in self.memo:
            return self.memo[path]
        self.memo[path] = set()
        try:
            with open(path, encoding='utf-8', errors='replace') as f:
                names = _include.findall(f.read())
        except OSError:
            return self.memo[path]
        result = set()
        for n in names:
            result.add(n)
            for base in (SRC, os.path.dirname(path)):
                p = os.path.normpath(os.path.join(base, n))
                if os.path.isfile(p):
                    result |= self.includes(p)
                    break
        self.memo[path] = result
        return result

_main = re.compile(r'^\s*(int|auto)\s+w?main\s*\(', re.M)

def repo_sources():
    result = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        rel = os.path.relpath(root, SRC)
        if rel.startswith('joedb/db/') or rel.startswith('joedb/ssh'):
            continue
        for f in sorted(files):
            if f.endswith('.cpp') and not SKIP.search(f):
                result.append(os.path.join(root, f))
    return result

def has_main(path):
    with open(path, encoding='utf-8', errors='replace') as f:
        return bool(_main.search(f.read()))

def directives(path):
    result = {'MAINS': [], 'SCHEMAS': []}
    with open(path) as f:
        for line in f:
            m = re.match(r'//\s*(MAINS|SCHEMAS):\s*(.*)', line)
            if m:
                result[m.group(1)] += m.group(2).split()
    return result

def build(prop, quiet=True):
    t0 = time.time()
    os.makedirs(OBJ, exist_ok=True)
    jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
    scen_dir = os.path.join(VERIF, 'scenarios')
    scen = sorted(os.path.join(scen_dir, f) for f in os.listdir(scen_dir)
                  if f.endswith('.cpp') and (prop is None or f.startswith(prop + '_') or f.startswith('common')))
    mains, schemas = set(), set()
    for s in scen:
        d = directives(s)
        mains |= set(d['MAINS'])
        schemas |= set(d['SCHEMAS'])

    gen = os.path.join(BUILD, 'gen')
    base = OPT + DEFS
    lib_flags = base + ['-I' + gen, '-I' + SRC]
    sim_flags = lib_flags + ['-I' + VERIF]

    scanner = Scanner()
    first, second, need_gen, main_src = [], [], [], {}
    for s in repo_sources():
        if has_main(s):
            main_src[os.path.basename(s)[:-4]] = s
            continue
        inc = scanner.includes(s)
        if any(i.startswith('joedb/db/') for i in inc):
            need_gen.append(s)
        elif any(i.startswith(('boost/', 'libssh', 'curl')) for i in inc):
            second.append(s)
        else:
            first.append(s)
    if 'joedbc' not in main_src:
        raise BuildError('joedbc main not found')

    pool = concurrent.futures.ThreadPoolExecutor(jobs)
    joedbc_main = pool.submit(compile_one, main_src['joedbc'], lib_flags)
    f_first = [pool.submit(compile_one, s, lib_flags) for s in first]
    kernel = [pool.submit(compile_one, os.path.join(VERIF, 'sim', f), sim_flags)
              for f in ('kernel.cpp', 'main.cpp')]
    f_second = [pool.submit(compile_one, s, lib_flags) for s in second]

    early = []
    late = []
    for s in scen:
        d = directives(s)
        inc = scanner.includes(s)
        if d['SCHEMAS'] or any(i.startswith('joedb/db/') for i in inc):
            late.append(s)
        else:
            early.append(s)
    f_scen = [pool.submit(compile_one, s, sim_flags) for s in early]

    # main keeps its name until it is compiled: it may have no return statement
    def compile_main(m):
        o = compile_one(main_src[m], lib_flags + ['-DVERIF_MAIN_%s' % m])
        r = o + '.renamed.o'
        if not os.path.exists(r) or os.path.getmtime(r) < os.path.getmtime(o):
            tmp = r + '.tmp%d' % os.getpid()
            n = m + '_main'
            run(['objcopy', '--redefine-sym', 'main=_Z%d%siPPc' % (len(n), n), o, tmp])
            os.rename(tmp, r)
        return r
    f_main = []
    late_mains = []
    for m in sorted(mains):
        if any(i.startswith('joedb/db/') for i in scanner.includes(main_src[m])):
            late_mains.append(m)
        else:
            f_main.append(pool.submit(compile_main, m))

    # generated code (encoded_file is part of the library)
    objs1 = [f.result() for f in f_first]
    joedbc = os.path.join(BUILD, 'joedbc-%d' % os.getpid())
    ar = os.path.join(BUILD, 'joedbc-%d.a' % os.getpid())
    def link_joedbc(objs):
        if os.path.exists(ar):
            os.unlink(ar)
        run(['ar', 'qcs', ar] + objs)
        run([CXX, joedbc_main.result(), ar, ar, '-Wl,--allow-multiple-definition', '-o', joedbc, '-lpthread'] + BROTLI)
    try:
        try:
            link_joedbc(objs1)
        except BuildError:
            objs1b = objs1 + [f.result() for f in f_second]
            link_joedbc(objs1b)
        generate(joedbc, os.path.join(SRC, 'joedb', 'db'), os.path.join(gen, 'joedb', 'db'), ['encoded_file'])
        if schemas:
            generate(joedbc, os.path.join(VERIF, 'scenarios', 'schemas'), os.path.join(gen, 'schemas'), sorted(schemas))
    finally:
        for p in (joedbc, ar):
            if os.path.exists(p):
                os.unlink(p)
    gen_src = []
    dirs = [os.path.join(gen, 'joedb', 'db', 'encoded_file')]
    dirs += [os.path.join(gen, 'schemas', s) for s in sorted(schemas)]
    for d in dirs:
        for f in sorted(os.listdir(d)):
            # one TU per schema: readonly.cpp / writable.cpp include the others
            if f == 'writable.cpp':
                gen_src.append(os.path.join(d, f))
    f_late = [pool.submit(compile_one, s, sim_flags) for s in late]
    f_late += [pool.submit(compile_main, m) for m in late_mains]
    f_late += [pool.submit(compile_one, s, lib_flags) for s in need_gen + gen_src]

    scen_objs = [f.result() for f in kernel + f_scen + f_main + f_late]
    lib_objs = objs1 + [f.result() for f in f_second]
    out = os.path.join(BUILD, 'sim_' + (prop or 'all'))
    tmp = out + '.tmp%d' % os.getpid()
    run([CXX] + scen_objs + lib_objs +
        ['-rdynamic', '-Wl,--allow-multiple-definition', '-o', tmp, '-lbrotlienc', '-lbrotlidec', '-lbrotlicommon', '-ldl', '-lpthread'])
    os.rename(tmp, out)
    pool.shutdown()
    return out, time.time() - t0

def generate(joedbc, src_dir, out_dir, names):
    """joedbc writes next to its working directory: run it in out_dir and only
    touch what changed"""
    import shutil, tempfile
    os.makedirs(out_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    shutil.copy(joedbc, os.path.join(tmp, 'joedbc'))
    try:
        for n in names:
            for f in os.listdir(src_dir):
                if f.startswith(n + '.'):
                    p = os.path.join(src_dir, f)
                    if os.path.isfile(p):
                        shutil.copy(p, tmp)
                    else:
                        shutil.copytree(p, os.path.join(tmp, f))
            run(['./joedbc', n], cwd=tmp)
        for n in names:
            new = os.path.join(tmp, n)
            old = os.path.join(out_dir, n)
            same = subprocess.run(['diff', '-rq', new, old], stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL).returncode == 0
            if not same:
                shutil.rmtree(old, ignore_errors=True)
                shutil.move(new, old)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    try:
        path, wall = build(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != 'all' else None)
    except BuildError as e:
        sys.stderr.write(str(e) + '\n')
        sys.exit(2)
    print(path, '%.1fs' % wall)
