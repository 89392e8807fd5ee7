#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree together with the
harness of the property, explores its bounded space in parallel shards, confirms
every failure by replaying it, and rewrites evidence/<property>.json.

  run.py C01              quick check (or $VERIF_TIER)
  run.py C01 thorough     deeper bounds
  run.py --replay out/C01-replay.json     repeat a reported violation
  run.py --setup          build everything once
"""
import fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mc'))
sys.dont_write_bytecode = True
from checks import CHECKS                                            # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
OUT = os.path.join(HERE, 'out')
EVID = os.path.join(HERE, 'evidence')
NPROC = max(1, min(8, os.cpu_count() or 1))
CXX = os.environ.get('CXX', 'g++')

COMMON = ['-g1', '-pthread', '-w', '-I' + os.path.join(REPO, 'genex'), '-I' + os.path.join(HERE, 'mc')]
FLAVOURS = {
    # memory errors and undefined behaviour stop the program; uninitialised memory is poisoned
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-fno-sanitize=vptr', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'],
    'plain': ['-O1', '-ftrivial-auto-var-init=pattern'],
    # every memory access is reported to our own runtime (mc/sched.cpp), not to libtsan
    'sched': ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
}
LIBS = ['-lboost_serialization', '-lboost_iostreams', '-lpthread', '-ldl']
ASAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:exitcode=86:'
                    'allocator_may_return_null=0:hard_rss_limit_mb=3000:quarantine_size_mb=8:'
                    'detect_stack_use_after_return=0:handle_segv=1:malloc_context_size=2:detect_container_overflow=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=87',
}


class CheckError(Exception):
    pass


def sources(sub):
    return sorted(glob.glob(os.path.join(REPO, sub, '**', '*.cpp'), recursive=True))


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for sub in ('genex', 'cli', 'pygenex'):
        for root, dirs, names in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            files += [os.path.join(root, n) for n in sorted(names)]
    files += sorted(glob.glob(os.path.join(HERE, 'mc', '*')))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    h.update(json.dumps(extra).encode())
    return h.hexdigest()[:20]


def sh(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        with open(log, 'ab') as f:
            f.write((' '.join(cmd) + '\n').encode() + p.stdout)
        raise CheckError('build failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))


def build(spec):
    """Compiles the library of the working tree and the harness; returns the binary."""
    flavour = spec['flavour']
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        flags = FLAVOURS[flavour]
        key = tree_hash([flavour, flags, COMMON, REPO])
        d = os.path.join(BUILD, flavour + '-' + key)
        exe = os.path.join(d, spec['harness'][0].replace('.cpp', ''))
        if os.path.exists(exe):
            os.utime(d)
            return exe
        # keep the number of old builds small
        old = sorted((x for x in glob.glob(os.path.join(BUILD, '*-*')) if os.path.isdir(x) and x != d),
                     key=os.path.getmtime)
        for x in old[:-5]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        log = os.path.join(d, 'build.log')
        jobs, lib = [], []
        for s in sources('genex'):
            o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
            lib.append(o)
            if not os.path.exists(o):
                jobs.append([CXX, '-std=c++11'] + flags + COMMON + ['-c', s, '-o', o])
        own = []
        for s in spec['harness']:
            o = os.path.join(d, 'h_' + s + '.o')
            own.append(o)
            fl = [] if s in spec.get('uninstrumented', []) else flags
            if not os.path.exists(o):
                jobs.insert(0, [CXX, '-std=gnu++17'] + (fl or ['-O2']) + COMMON + spec.get('cxxflags', []) +
                            ['-c', os.path.join(HERE, 'mc', s), '-o', o])
        if spec.get('cli'):
            for s in sources('cli'):
                o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
                own.append(o)
                if not os.path.exists(o):
                    jobs.insert(0, [CXX, '-std=c++11'] + flags + COMMON +
                                ['-I' + os.path.join(REPO, 'cli'), '-Dmain=genexcli_main', '-c', s, '-o', o])

        if spec.get('bindings'):
            for s in sources('pygenex'):
                o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
                own.append(o)
                if not os.path.exists(o):
                    jobs.insert(0, [CXX, '-std=c++11'] + flags + COMMON + spec.get('cxxflags', []) + ['-c', s, '-o', o])

        def one(cmd):
            tmp = cmd[-1] + '.part'
            sh(cmd[:-1] + [tmp], log)
            os.rename(tmp, cmd[-1])
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))
        link = [CXX] + [f for f in flags if not (flavour == 'sched' and f.startswith('-fsanitize'))] + \
            ['-pthread'] + own + lib + LIBS + spec.get('libs', []) + ['-o', exe + '.part']
        sh(link, log)
        os.rename(exe + '.part', exe)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class Run:
    """One execution of the harness binary."""

    def __init__(self, exe, spec, tier, scratch, tag, args, hang):
        self.tag = tag
        self.out = os.path.join(scratch, tag + '.json')
        self.prog = os.path.join(scratch, tag + '.prog')
        self.err = os.path.join(scratch, tag + '.err')
        env = dict(os.environ)
        env.update(ASAN_ENV)
        env.update(spec.get('env', {}))
        if spec.get('asan'):
            env['ASAN_OPTIONS'] += ':' + spec['asan']
        env['LC_ALL'] = 'C'
        cmd = [exe, '--tier', tier, '--out', self.out, '--scratch', os.path.join(scratch, tag + '.d'),
               '--progress', self.prog, '--repo', REPO, '--hang', str(hang)] + args
        if spec.get('no_aslr'):
            cmd = ['setarch', '-R'] + cmd
        self.errf = open(self.err, 'wb')
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=self.errf, env=env, start_new_session=True)

    def wait(self, timeout=None):
        try:
            self.code = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            self.code = 'timeout'
        self.errf.close()
        try:
            with open(self.out) as f:
                self.res = json.load(f)
        except (OSError, ValueError):
            self.res = None
        return self

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def unit(self):
        try:
            with open(self.prog, 'rb') as f:
                return int.from_bytes(f.read(8), 'little', signed=True)
        except OSError:
            return -1

    def note(self):
        try:
            with open(self.prog, 'rb') as f:
                b = f.read()[20:]
            return b.split(b'\0')[0].decode(errors='replace')
        except OSError:
            return ''

    def desc(self):
        try:
            with open(self.out + '.desc') as f:
                return f.read()
        except OSError:
            return ''

    def stderr(self, n=4000):
        with open(self.err, 'rb') as f:
            return f.read()[:n].decode(errors='replace')


def failure(run):
    """None if the run explored its space completely, else (kind, message)."""
    if run.code == 0 and run.res is not None:
        return None
    if run.code == 1 and run.res is not None:
        return 'violated', run.res['message']
    if run.code in (3, 'timeout'):
        return 'hang', 'no progress in %s' % (run.note() or 'a library call')
    if run.code in (96, 97):
        raise CheckError('harness problem: ' + run.stderr())
    return 'crash', 'ended with code %s in %s\n%s' % (run.code, run.note() or 'a library call', run.stderr())


def known_findings(prop):
    keys = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                key, _, text = line.split(None, 2)[2].partition(' ')
                keys[key] = text.strip()
    return keys


def run_check(prop, tier, only=None, slow=1):
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    exe = build(spec)
    t1 = time.time()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and not spec.get('disk') else None
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=base)
    known = known_findings(prop)
    kargs = [a for k in known for a in ('--known', k)]
    hang = spec.get('hang', 25) * slow
    limit = spec.get('limit', {}).get(tier, 800 if tier == 'quick' else 6 * 3600)
    runs = []
    try:
        if only is not None:
            r = Run(exe, spec, tier, scratch, 'only', ['--only', str(only)] + kargs, hang * 2).wait(limit)
            return failure(r), r, spec
        n = spec.get('shards', NPROC)
        claim = os.path.join(scratch, 'claim')
        with open(claim, 'wb') as f:
            f.write(bytes(8))
        runs = [Run(exe, spec, tier, scratch, 's%d' % i, ['--claim', claim, '--shard', str(i)] + kargs, hang) for i in range(n)]
        pending, done = list(runs), []
        bad = None
        deadline = time.time() + limit
        while pending:
            for r in list(pending):
                if r.p.poll() is not None or time.time() > deadline:
                    late = r.p.poll() is None
                    if late:
                        r.kill()
                    r.wait()
                    if late:
                        raise CheckError('exploration did not finish in %d s (unit %d, %s)' % (limit, r.unit(), r.note()))
                    pending.remove(r)
                    done.append(r)
                    if failure(r) and bad is None:
                        bad = r
            if bad:
                for r in pending:
                    r.kill()
                break
            if pending:
                time.sleep(0.05)
        if bad:
            kind, msg = failure(bad)
            unit = bad.res['unit'] if bad.res else bad.unit()
            # replay the unit alone before reporting it; a hang gets a longer limit
            again = []
            for k in range(2):
                a = Run(exe, spec, tier, scratch, 'c%d' % k, ['--only', str(unit)] + kargs, hang * 3).wait(limit)
                again.append(a)
                if not failure(a):
                    break
            if all(failure(a) for a in again) and len(again) == 2:
                a = again[-1]
                kind, msg = failure(a)
                desc = a.res['desc'] if a.res and a.res.get('desc') else a.desc()
                args = ['--only', str(unit)]
            else:
                # depends on the units this process ran before: replay all of them
                units = os.path.join(OUT, prop + '-units.bin')
                shutil.copy(bad.out + '.units', units)
                a = Run(exe, spec, tier, scratch, 'c9', ['--units', units] + kargs, hang * 2).wait(limit)
                if not failure(a) and kind == 'hang' and slow == 1:
                    # the machine may have been busy: explore everything again with more patience
                    print('%s: a case made no progress for %d s but ends when repeated; exploring again' % (prop, hang))
                    return run_check(prop, tier, slow=4)
                if not failure(a):
                    raise CheckError('a failure did not reproduce: %s %s' % (kind, msg))
                kind, msg = failure(a)
                desc = a.res['desc'] if a.res and a.res.get('desc') else 'unit %d after the units listed in %s' % (a.unit(), units)
                args = ['--units', units]
            replay = os.path.join(OUT, prop + '-replay.json')
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'args': args, 'kind': kind, 'case': desc, 'message': msg}, f, indent=1)
            evidence(prop, spec, tier, seed, done, t0, [{'kind': kind, 'case': desc[:2000], 'message': msg[:4000], 'replay': replay}])
            print('%s: %s\n  case: %s\n  %s' % (prop, kind, desc[:3000], msg[:6000]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        ev = evidence(prop, spec, tier, seed, done, t0, [])
        for k in sorted({k for r in done for k in r.res['known']}):
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k, known[k]))
        c = ev['coverage']
        print('%s %s ok: build %.1f s, explore %.1f s, %s' % (
            prop, tier, t1 - t0, time.time() - t1,
            ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, (int, bool)))))
        return 0
    finally:
        for r in runs:
            if r.p.poll() is None:
                r.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(prop, spec, tier, seed, runs, t0, violations):
    def total(key):
        return sum(r.res[key] for r in runs if r.res)
    outcomes, counters, states, samples = {}, {}, set(), []
    for r in runs:
        if not r.res:
            continue
        for k, v in r.res['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r.res['counters'].items():
            counters[k] = counters.get(k, 0) + v
        states.update(r.res['states'])
        samples += r.res['samples'][:2]
    cov = {}
    if spec['level'] == 'model_checking':
        cov['states'] = len(states) + counters.get('visited', 0)
        cov['transitions'] = counters.pop('transitions', 0)
        cov['traces_validated_against_impl'] = counters.pop('traces', 0)
    else:
        cov['evaluations'] = total('evals')
        cov['distinct_nontrivial'] = total('nontrivial')
        cov['rule'] = spec['rule']
    cov['samples'] = samples[:8]
    cov['exhaustive'] = not violations and not counters.get('capped', 0)
    cov['bounds'] = spec['bounds'].get(tier) if isinstance(spec['bounds'], dict) else spec['bounds']
    cov['units'] = total('units')
    cov['outcomes'] = outcomes
    cov.update(counters)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': spec.get('assumptions', []), 'violations': violations}
    path = os.path.join(EVID, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(path + '.tmp', path)
    return ev


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        done = set()
        for p, s in CHECKS.items():
            if s['harness'][0] not in done:
                done.add(s['harness'][0])
                build(s)
        return 0
    if a[0] == '--replay':
        r = json.load(open(a[1]))
        spec = CHECKS[r['property']]
        exe = build(spec)
        scratch = tempfile.mkdtemp(prefix='vf-replay-')
        try:
            x = Run(exe, spec, r['tier'], scratch, 'replay', r['args'], 120).wait()
            f = failure(x)
            print(f[0] + ': ' + f[1] if f else 'did not fail')
            return 1 if f else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run_check(a[0], tier)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK-ERROR ' + str(e))
        sys.exit(2)
