#!/usr/bin/env python3
"""Development helper: hand-written changes (BUGS = [(name, checks, [(file, old, new), ...]), ...] in a Python file) in a scratch
copy of the repository, each against the repository's tests and the named checks.

batch.py BUGS.py OUT.jsonl [--only REGEX] [--quiet]: --quiet expects every change to leave the checks quiet."""
import argparse, json, os, re, runpy, shutil, subprocess, tempfile, time

ap = argparse.ArgumentParser()
ap.add_argument('bugs')
ap.add_argument('out')
ap.add_argument('--only', default='.')
ap.add_argument('--quiet', action='store_true')
a = ap.parse_args()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = runpy.run_path(a.bugs)['BUGS']


def run(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return None


base = tempfile.mkdtemp(prefix='bat-')
repo, ver, mk = base + '/repo', base + '/verif', base + '/t'
done = {json.loads(l)['name'] for l in open(a.out)} if os.path.exists(a.out) else set()
try:
    shutil.copytree('/repo', repo, symlinks=True)
    shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replay'))
    os.makedirs(mk)
    src = [x for x in subprocess.check_output(['git', '-C', repo, 'ls-files', 'src/cpu', 'tests'], text=True).split() if x.endswith('.cc')]
    with open(mk + '/Makefile', 'w') as g:
        g.write('all: t\nt: %s\n\tg++ -o $@ $^ -lyaml-cpp -lgtest -lgtest_main -lpthread\n' % ' '.join(x.replace('/', '_') + '.o' for x in src))
        for x in src:
            g.write('%s.o: %s/%s\n\tg++ -std=c++14 -w -O0 -DBUILD_TESTS -MMD -I%s/include -I%s/stubs -c $< -o $@\n' % (x.replace('/', '_'), repo, x, repo, ver))
        g.write('-include *.d\n')
    for name, checks, edits in bugs:
        if name in done or not re.search(a.only, name):
            continue
        rec = dict(name=name)
        t0 = time.time()
        try:
            bad = None
            lib = False
            for f, old, new in edits:
                p = repo + '/' + f
                t = open(p, errors='surrogateescape').read()
                if old is None:
                    t = new
                elif old.startswith('@ALL') and old[4:] in t:
                    t = t.replace(old[4:], new)
                elif t.count(old) < 1:
                    bad = '%s: text not found: %s' % (f, old[:60])
                    break
                else:
                    t = t.replace(old, new, 1)
                open(p, 'w', errors='surrogateescape').write(t)
                lib |= 'reference/' not in f and 'applications' not in f
            if bad:
                rec['verdict'] = 'BADEDIT ' + bad
                continue
            if lib:
                r = run(['make', '-j8', '-C', mk])
                if r is None or r.returncode:
                    rec['verdict'] = 'nocompile ' + (r.stdout[-700:] if r else '')
                    continue
                r = run([mk + '/t'], timeout=60, cwd=repo + '/_build/tests')
                if r is None or r.returncode:
                    rec['verdict'] = 'tests'
                    continue
            res = []
            for c in checks.split():
                t1 = time.time()
                r = run(['python3', ver + '/check.py', c], env=dict(os.environ, VERIF_REPO=repo), timeout=1500)
                v = 'TIMEOUT' if r is None else {0: 'quiet', 1: 'caught'}.get(r.returncode, 'ERROR ' + r.stdout[-500:])
                res.append('%s %s %.0fs' % (c, v, time.time() - t1))
                if v == 'caught':
                    rec['msg'] = [l for l in r.stdout.splitlines() if l.startswith('  case')][:1]
            rec['verdict'] = '; '.join(res)
        finally:
            subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
            rec['s'] = round(time.time() - t0, 1)
            if 'verdict' in rec:
                with open(a.out, 'a') as g:
                    g.write(json.dumps(rec) + '\n')
                miss = ('caught' in rec['verdict']) if a.quiet else ('caught' not in rec['verdict'])
                print('***' if miss or 'ERROR' in rec['verdict'] else '   ', name, rec['verdict'][:300], (rec.get('msg') or [''])[0][:160], flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
