"""Build, run in shards, collect, conclude."""
import fcntl, hashlib, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NCPU = max(2, os.cpu_count() or 2)
CXX = 'g++'
SHARD_TIMEOUT = {'quick': 700, 'thorough': 6 * 3600}

BASE = ['-std=c++14', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-DBUILD_TESTS', '-ffp-contract=off',
        '-w', '-pipe', '-pthread']
PLAIN = BASE + ['-O1', '-ftrivial-auto-var-init=pattern']
ASAN = BASE + ['-O1', '-fsanitize=address', '-ftrivial-auto-var-init=pattern']
# the build with BUILD_TESTS off, as installed for users (assertions off, more optimisation)
PROD = [f for f in ASAN if f not in ('-DBUILD_TESTS', '-O1')] + ['-O2', '-DNDEBUG']
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(VERIF, 'harness')]


class CheckError(Exception):
    pass


class Result:
    def __init__(self):
        self.violations = []  # dicts: case, desc, msg, extra
        self.states = self.transitions = self.traces = 0
        self.counters = {}
        self.samples = []
        self.exhaustive = True
        self.notes = {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def compile_obj(src, flags, tag=''):
    """Object file cached by the hash of the preprocessed source, the flags and the compiler."""
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run([CXX, '-E', '-P'] + [f for f in flags if f not in ('-pipe',)] + [src], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode:
        raise CheckError('cannot preprocess %s:\n%s' % (src, p.stderr.decode(errors='replace')[-3000:]))
    h = hashlib.sha256(p.stdout + repr((flags, src, tag)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'o-%s.o' % h)
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([CXX, '-c'] + flags + [src, '-o', tmp])
    if r.returncode:
        raise CheckError('cannot compile %s:\n%s' % (src, r.stdout[-3000:]))
    os.rename(tmp, out)
    return out


def compile_many(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda j: compile_obj(*j), jobs))


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, 'src/cpu/**/*.cc'), recursive=True) +
               glob.glob(os.path.join(REPO, 'src/cpu/**/*.cpp'), recursive=True))
    if not s:
        raise CheckError('no library sources found under %s/src/cpu' % REPO)
    return s


def link(objs, extra, flags):
    h = hashlib.sha256(repr((sorted(objs), objs, extra, flags)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'x-%s' % h)
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + objs + extra + ['-o', tmp])
    if r.returncode:
        raise CheckError('cannot link:\n%s' % r.stdout[-3000:])
    os.rename(tmp, out)
    return out


def prune():
    """Keep the build cache bounded (by age; the newest 400 files stay)."""
    try:
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
        for f in fs[400:]:
            if time.time() - os.path.getmtime(f) > 3600:
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    except OSError:
        pass


def build_harness(name, libflags=ASAN, extra_link=(), extra_srcs=(), harness_flags=None, exclude=()):
    prune()
    jobs = [(s, libflags + INC) for s in lib_sources() if not any(e in s for e in exclude)]
    jobs += [(s, libflags + INC + list(f)) for s, f in extra_srcs]
    jobs += [(os.path.join(VERIF, 'harness', name), (harness_flags or libflags) + INC)]
    objs = compile_many(jobs)
    return link(objs, list(extra_link) + ['-lyaml-cpp', '-ldl'], [f for f in libflags])


def env_for(tmp):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=171:max_free_fill_size=1073741824:abort_on_error=0:exitcode=43:allocator_may_return_null=0:handle_abort=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['LC_ALL'] = 'C'
    e['MALLOC_PERTURB_'] = '85'
    e['VERIF_SCRATCH'] = tmp
    e.pop('LD_PRELOAD', None)
    return e


def parse(out):
    viol, done = None, None
    for line in out.splitlines():
        if line.startswith('@VIOL '):
            viol = json.loads(line[6:])
        elif line.startswith('@DONE '):
            done = json.loads(line[6:])
    return viol, done


GRACE = 20  # once one shard has found a violation the others get this long


def run_one(cmd, tmp, timeout, stop=None):
    os.makedirs(tmp, exist_ok=True)
    flag = stop
    with open(os.path.join(tmp, '.stdout'), 'w+b') as so, open(os.path.join(tmp, '.stderr'), 'w+b') as se:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, cwd=tmp, env=env_for(tmp),
                             start_new_session=True)
        to = False
        end = time.time() + timeout
        while True:
            try:
                rc = p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                if stop is not None and stop.is_set():
                    end = min(end, time.time() + GRACE)
                    stop = None
                if time.time() > end:
                    to = True
                    rc = -1
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        so.seek(0)
        se.seek(0)
        out = so.read().decode(errors='replace')
        err = se.read()[-20000:].decode(errors='replace')
    viol, done = parse(out)
    if viol is not None and flag is not None:
        flag.set()
    return dict(started='@START' in out, rc=rc, viol=viol, done=done, err=err, timeout=to, cmd=cmd)


def run_shards(exe, tier, replay=None, args=(), shards=NCPU, traces='cases'):
    """Runs the explorer; every explored case executes the real code, so traces validated = cases executed."""
    res = Result()
    base = tempfile.mkdtemp(prefix='verif-')
    os.chmod(base, 0o711)
    try:
        ex_args = list(args) + (['--thorough'] if tier == 'thorough' else [])
        if replay is not None:
            cmds = [[exe, '--case', str(replay)] + ex_args]
        else:
            cmds = [[exe, '--shard', str(i), '--shards', str(shards)] + ex_args for i in range(shards)]
        with ThreadPoolExecutor(len(cmds)) as tp:
            stop = threading.Event()
            rs = list(tp.map(lambda t: run_one(t[1], os.path.join(base, 's%d' % t[0]), SHARD_TIMEOUT[tier], stop),
                             enumerate(cmds)))
        totals = set()
        found = any(r['viol'] is not None for r in rs)
        for i, r in enumerate(rs):
            if found and r['viol'] is None:
                continue
            if r['viol'] is None and r['done'] is None and not r['timeout']:
                # died without saying why: run it once more, alone, before believing it
                r = run_one(cmds[i], os.path.join(base, 'r%d' % i), SHARD_TIMEOUT[tier])
                if r['viol'] is None and r['done'] is None and not r['timeout']:
                    if not r['started']:
                        raise CheckError('explorer did not start: %s' % r['err'][-500:])
                    if r['rc'] == 113:
                        raise CheckError('the program cannot be loaded or controlled: %s' % r['err'][-500:])
                    if r['rc'] in (-9, 137):
                        raise CheckError('explorer was killed (rc %s)' % r['rc'])
                    r['viol'] = dict(case=-1, desc='shard %d' % i, msg='process ended abnormally, rc %s' % r['rc'])
            if r['viol'] is not None:
                v = dict(r['viol'])
                v['stderr'] = r['err'][-6000:]
                v['args'] = ex_args
                res.violations.append(v)
                continue
            if r['timeout'] or r['done'] is None:
                raise CheckError('explorer did not finish within its time')
            d = r['done']
            totals.add(d['cases_total'])
            res.traces += d['cases']
            res.states += d['states']
            res.transitions += d['transitions']
            for k, v in d['counters'].items():
                res.counters[k] = res.counters.get(k, 0) + v
            res.samples += d['samples'][:3]
        if not res.violations and replay is None:
            if len(totals) != 1 or res.traces != totals.pop():
                raise CheckError('shards disagree on the case list: %s vs %d' % (totals, res.traces))
            if res.states == 0:
                raise CheckError('nothing was explored')
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def merged(runs):
    """Several explorations of one property as one result; runs are (mode, function returning a Result)."""
    res = None
    for mode, f in runs:
        r = f()
        for v in r.violations:
            v['mode'] = mode
        if res is None:
            res = r
        else:
            res.violations += r.violations
            res.states += r.states
            res.transitions += r.transitions
            res.traces += r.traces
            for k, v in r.counters.items():
                res.counters[k] = res.counters.get(k, 0) + v
        if res.violations:
            break
    return res


def wanted(runs, replay):
    """When replaying, only the mode in which the violation was found."""
    mode = json.load(open(replay))['violation'].get('mode') if replay else None
    return [r for r in runs if mode in (None, r[0])]


def known_findings():
    """Lines 'finding: property=<id> key=<regex> <what fails>' of KNOWN_FINDINGS.md."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out.append(m.groups())
    return out


def conclude(pid, tier, spec, res, wall, replaying):
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    kf = [(k, w) for p, k, w in known_findings() if p == pid]
    real = []
    for k, w in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for v in res.violations:
        if any(re.search(k, v['desc'] + ' :: ' + v['msg']) for k, _ in kf):
            continue
        real.append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                            samples=res.samples[:10] or [v['desc'] for v in real[:3]], exhaustive=res.exhaustive and not real,
                            counters=res.counters, bounds=spec['bounds'], notes=res.notes),
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(real))
    if not replaying:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    if not real:
        print('OK property=%s tier=%s traces=%d states=%d transitions=%d wall=%.1fs' %
              (pid, tier, res.traces, res.states, res.transitions, wall))
        return 0
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'replay', pid + '.json')
    real.sort(key=lambda v: (v.get('case', -1) < 0, v.get('case', -1)))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, violation=real[0], others=real[1:],
                       how='python3 check.py %s --tier %s --replay %s' % (pid, tier, path)), f, indent=1)
        f.write('\n')
    for v in real[:4]:
        print('  case %s [%s]: %s' % (v.get('case'), v['desc'], v['msg'].replace('\n', ' | ')))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay_case(path):
    if not path:
        return None
    return json.load(open(path))['violation'].get('case')
