#!/usr/bin/env python3
"""check.py <property id> [--seed N] [--tier quick|thorough] [--replay FILE]

Builds the harness of a property from /repo's working tree, runs it, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored. 1: violated. 3: the check could not run.
"""
import json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build
from table import TABLE, BINARIES
from meta import META


def known_findings():
    """Lines of known_findings.txt: 'finding: property=<id> match=<regex> <what fails>' (open findings)."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) match="([^"]*)" (.*)', line.strip())
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def build_binary(name, variant):
    b = BINARIES[name]
    srcs = [os.path.join(HERE, 'lib', 'pbt.cc')] + [os.path.join(HERE, 'props', s) for s in b['src']]
    return build.build(name, srcs, kind=b.get('kind', 'core'), variant=variant)


def env():
    e = dict(os.environ)
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['OMP_NUM_THREADS'] = '1'
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=4096:'
                         'malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=32:'
                         'detect_odr_violation=0:malloc_context_size=8')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1'
    e['LC_ALL'] = 'C'
    return e


def main():
    args = sys.argv[1:]
    pid = args[0]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    scale = '1'
    replay = None
    only = None
    i = 1
    while i < len(args):
        if args[i] == '--seed': seed = args[i + 1]; i += 2
        elif args[i] == '--tier': tier = args[i + 1]; i += 2
        elif args[i] == '--scale': scale = args[i + 1]; i += 2
        elif args[i] == '--replay': replay = args[i + 1]; i += 2
        elif args[i] == '--only': only = args[i + 1]; i += 2
        else: print('unknown argument', args[i]); return 3
    t0 = time.time()
    entry = TABLE[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    results = []
    rc_all = 0
    ncores = os.cpu_count() or 8
    for run in entry['runs']:
        try:
            exe = build_binary(run['bin'], run.get('variant', 'san'))
            extra_env = {}
            for k, b in run.get('helpers', {}).items():
                extra_env[k] = b(build)
        except build.BuildError as e:
            print('cannot build the harness for %s:\n%s' % (pid, e))
            return 3
        e = env()
        e.update(extra_env)
        if replay:
            r = subprocess.run([exe, '--replay', replay], env=e)
            if r.returncode != 3:
                return r.returncode
            continue
        out = tempfile.NamedTemporaryFile(prefix='pbt-out-', suffix='.json', delete=False)
        out.close()
        cmd = [exe, '--check', pid, '--seed', str(seed), '--tier', tier, '--workers', str(run.get('workers', max(2, min(8, ncores)))),
               '--replay-dir', rdir, '--out', out.name, '--scale', str(float(scale) * run.get('scale', 1.0)),
               '--time-cap', str(run.get('cap', 90) if tier == 'quick' else run.get('thorough_cap', 900))]
        sel = only or run.get('only')
        if sel:
            cmd += ['--only', sel]
        r = subprocess.run(cmd, env=e, cwd=HERE)
        try:
            with open(out.name, encoding='utf-8', errors='replace') as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        os.unlink(out.name)
        if res is None and r.returncode == 1:     # a violation was found, only the report of it is damaged
            new = [os.path.join(rdir, f) for f in os.listdir(rdir) if f.startswith(pid + '-') and os.path.getmtime(os.path.join(rdir, f)) >= t0 - 1]
            if new:
                print('VIOLATION property=%s replay=%s' % (pid, max(new, key=os.path.getmtime)))
                return 1
        if res is None or r.returncode not in (0, 1):
            print('harness %s ended with status %d' % (run['bin'], r.returncode))
            return 3
        for x in res:
            x['variant'] = run.get('variant', 'san')
        results += res
        if r.returncode == 1:
            break
    if replay:
        return 3
    known = [k for k in known_findings() if k[0] == pid]
    violations = 0
    for x in results:
        v = x.get('violation')
        if not v:
            continue
        hit = None
        for k in known:
            if re.search(k[1], v['message'] + '\n' + v.get('notes', '')):
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[2]))
        else:
            violations += 1
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    samples = []
    for x in results:
        for s in x['samples'][:2]:
            samples.append('%s: %s' % (x['name'], s))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': sum(x['cases'] for x in results),
            'distinct_nontrivial': sum(x['distinct_nontrivial'] for x in results),
            'rule': META[pid]['rule'],
            'samples': samples[:12],
            'properties': [{k: x[k] for k in ('name', 'variant', 'cases', 'planned', 'nontrivial', 'distinct_nontrivial', 'discarded', 'inconclusive_workers', 'labels', 'wall_s')} for x in results],
        },
        'assumptions': META[pid]['assume'],
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], violations, ev['wall_s']))
    if ev['coverage']['evaluations'] == 0 and not violations:
        print('nothing was explored')
        return 3
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
