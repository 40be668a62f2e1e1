"""Builds the harnesses against the current working tree of /repo.

Objects are reused only when the content of every file they were made from is
unchanged (sha256 of the source and of each header the compiler read), so a
change in /repo is always seen, whatever its time stamp.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

SAN = ['-O1', '-g1', '-fno-omit-frame-pointer',
       '-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero,vla-bound',
       '-fno-sanitize-recover=all']
FAST = ['-O2', '-g1']
TSAN = ['-O1', '-g1', '-fsanitize=thread']
VARIANT = {'san': SAN, 'fast': FAST, 'tsan': TSAN}
LINK = {'san': ['-fsanitize=address,undefined'], 'fast': [], 'tsan': ['-fsanitize=thread']}
INC = ['-I%s/src' % REPO, '-I%s/src/openfst/include' % REPO, '-I%s/src/gemmlowp' % REPO]
WARN = ['-w', '-fno-diagnostics-show-caret', '-ftrack-macro-expansion=0']

_hash_cache = {}


class BuildError(Exception):
    pass


def sha(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash_cache[path] = h
    return h


def compile_one(src, obj, flags):
    cmd = ['g++'] + flags + ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj]
    meta = obj + '.meta'
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['cmd'] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in m['deps'].items()):
            return obj, False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('cannot compile %s\n%s' % (src, r.stdout[-4000:]))
    with open(obj + '.d') as f:
        text = f.read().replace('\\\n', ' ')
    deps = text.split(':', 1)[1].split()
    # System headers do not change within a sandbox
    deps = [d for d in deps if not d.startswith('/usr/')]
    with open(meta, 'w') as f:
        json.dump({'cmd': cmd, 'deps': {d: sha(d) for d in deps}}, f)
    return obj, True


def lib_sources(kind):
    """Sources of the library: core leaves out the parts that need openfst."""
    src = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))
    heavy = ('ce_stt.cc', 'decoder.cc')
    out = []
    for s in src:
        b = os.path.basename(s)
        if b == 'main.cc':
            continue
        if kind == 'core' and b in heavy:
            continue
        if os.path.getsize(s) == 0:
            continue
        out.append(s)
    out.append(os.path.join(REPO, 'src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc'))
    if kind == 'full':
        out += sorted(glob.glob(os.path.join(REPO, 'src/openfst/lib/*.cc')))
    return out


def build(name, harness_sources, kind='core', variant='san', std='gnu++14', extra_main=None, defines=()):
    """Compiles and links BUILD/<variant>/<name>; returns its path."""
    vdir = os.path.join(BUILD, variant)
    os.makedirs(vdir, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        for s in lib_sources(kind) + ([extra_main] if extra_main else []):
            rel = os.path.relpath(s, REPO).replace('/', '__')
            jobs.append((s, os.path.join(vdir, 'repo', rel + '.o'), VARIANT[variant] + WARN + ['-std=c++11'] + INC))
        for s in harness_sources:
            rel = os.path.relpath(s, VERIF).replace('/', '__')
            tag = hashlib.sha1(' '.join(defines).encode()).hexdigest()[:6] if defines else 'h'
            jobs.append((s, os.path.join(vdir, tag, rel + '.o'),
                         VARIANT[variant] + WARN + ['-std=' + std] + list(defines) + INC + ['-I%s/lib' % VERIF, '-I%s/props' % VERIF]))
        # Slow ones first
        def cost(j):
            try:
                t = open(j[0]).read()
            except OSError:
                t = ''
            return -(1000000 if ('decoder.h' in t or 'fstlib.h' in t or 'ref_graph.h' in t) else 0) - len(t)
        jobs.sort(key=cost)
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            res = list(ex.map(lambda j: compile_one(*j), jobs))
        exe = os.path.join(vdir, name)
        objs = sorted(o for o, _ in res)
        sig = hashlib.sha256()
        for o in objs:
            sig.update(o.encode())
            with open(o, 'rb') as f:
                sig.update(hashlib.sha256(f.read()).digest())
        sig = sig.hexdigest()
        try:
            with open(exe + '.sig') as f:
                if f.read() == sig and os.path.exists(exe):
                    return exe
        except OSError:
            pass
        r = subprocess.run(['g++'] + LINK[variant] + ['-o', exe] + objs + ['-lopenblas', '-pthread', '-lm', '-ldl'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError('cannot link %s\n%s' % (name, r.stdout[-4000:]))
        with open(exe + '.sig', 'w') as f:
            f.write(sig)
        return exe
