#!/usr/bin/env python3
"""Development helper: small syntactic changes of a scratch copy of the repository, against the checks of the touched files.

mutate.py OUT.jsonl [--every N] [--offset K] [--files REGEX]: works in a scratch copy under /tmp that it removes.
A change that does not compile or that the repository's tests catch is not counted."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ap = argparse.ArgumentParser()
ap.add_argument('out')
ap.add_argument('--every', type=int, default=7)
ap.add_argument('--offset', type=int, default=0)
ap.add_argument('--files', default='.')
a = ap.parse_args()

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r'utilities/grid\.h|cpu/grid\.cc', 'C01 C02 C03 C12 C05 C08 C10 C11'),
    (r'utilities/array\.h|cpu/array\.cc', 'C04 C05 C12 C10 C11 C20'),
    (r'levelset-velocity|cpu/levelset|gals/cpu/levelset', 'C04 C10 C11 C13'),
    (r'analytical', 'C13 C11 C12 C20'),
    (r'gradient', 'C05 C06 C11 C12 C20'),
    (r'interpolation/linear|interpolate', 'C07 C08 C11 C12'),
    (r'hermite', 'C08 C09 C10 C11 C12 C20'),
    (r'temporal|euler', 'C10 C11 C12 C20'),
    (r'input', 'C14 C17'),
    (r'vec3|mat3|vec_n', 'C15 C08 C10 C12'),
    (r'file-utils', 'C16 C17'),
    (r'utilities\.h', 'C15 C16 C09'),
    (r'applications', 'C17'),
    (r'reference/CUDA', 'C22'),
    (r'reference/SerialCode', 'C21'),
    (r'reference/GALS_Advection_MPI\.cpp', 'C19'),
    (r'reference/GALS_Advection_MPI_OpenMP', 'C19 C18'),
    (r'reference/GALS_Advection_OpenMP', 'C18'),
    (r'reference/', 'C18 C19'),
]
SKIP = re.compile(r'OldSerial|src/main\.cc|\.m$|Makefile|README|ofrun|Setting\.h|defineMPI')


def checks_for(f):
    for r, c in MAP:
        if re.search(r, f):
            return c.split()
    return []


RULES = [
    (r'(?<=[\w\)\]]) \+ (?=[\w\(\.-])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(\.])', ' + '), (r'(?<=[\w\)\]]) \* (?=[\w\(\.-])', ' / '),
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '),
    (r'\bnx\b', 'ny'), (r'\bny\b', 'nx'), (r'\bdx\b', 'dy'), (r'\bdy\b', 'dx'), (r'(?<=\[)0(?=\])', '1'), (r'(?<=\[)1(?=\])', '0'),
    (r'(?<=\[)2(?=\])', '1'), (r'(?<=\[)i(?=\])', 'j'), (r'(?<=\[)j(?=\])', 'i'), (r'(?<=[^\w.\[])0(?=[;,\) ])', '1'), (r'(?<=[^\w.\[])1(?=[;,\) ])', '2'),
    (r'(?<=[^\w.])1\.0?(?=\D)', '2.'), (r'(?<=[^\w.])2(?=[;,\) ])', '1'), (r'\bdim == 2\b', 'dim == 3'), (r'\+\+', '--'), (r'true', 'false'), (r'false', 'true'),
    (r'(\w)x\b', r'\1y'), (r'(\w)y\b', r'\1x'), (r'static_cast<int>', ''), (r'\bconst\s+auto&', 'static auto'), (r'std::max', 'std::min'), (r'std::min', 'std::max'), (r'\bi\b', 'j'), (r'\bj\b', 'k'),
    (r'\bdouble\b', 'float'), (r'\bdouble\b', 'static double'), (r'&(?=\s*\w+[,\)])', ''),
]


def mutants(path, text):
    out = []
    body = text.find('#include')
    pos = 0
    incom = False
    for ln, line in enumerate(text.split('\n')):
        start = pos
        pos += len(line) + 1
        s = line.strip()
        if s.startswith('/*'):
            incom = True
        if incom:
            incom = '*/' not in s
            continue
        if start < body or not s or s.startswith(('//', '#include', '*', 'namespace', 'template', 'using')):
            continue
        code = line.split('//')[0]
        for r, rep in RULES:
            for m in re.finditer(r, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                out.append((ln + 1, line, new))
        if s.endswith(';') and not re.match(r'(return|const|int|double|auto|T |unsigned|char|std::|bool|virtual|typedef|static|class|struct|\w+ \w+\()', s):
            out.append((ln + 1, line, ''))
    return out


def run(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return None


base = tempfile.mkdtemp(prefix='mut-')
repo = base + '/repo'
try:
    shutil.copytree('/repo', repo, symlinks=True)
    ver = base + '/verif'
    shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replay'))
    files = subprocess.check_output(['git', '-C', repo, 'ls-files', 'src', 'include', 'applications'], text=True).split()
    todo = []
    for f in files:
        if SKIP.search(f) or not f.endswith(('.h', '.cc', '.cpp', '.cu')) or not checks_for(f) or not re.search(a.files, f):
            continue
        text = open(repo + '/' + f, errors='surrogateescape').read()
        for m in mutants(f, text):
            key = hashlib.md5(repr((f, m)).encode(errors='surrogateescape')).hexdigest()
            todo.append((key, f, text, m))
    todo.sort(key=lambda t: t[0])
    todo = todo[a.offset::a.every]
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['key'] for l in open(a.out)}
    print(len(todo), 'mutants,', len(done), 'done', flush=True)
    for key, f, text, (ln, old, new) in todo:
        if key in done:
            continue
        lines = text.split('\n')
        lines[ln - 1] = new
        p = repo + '/' + f
        open(p, 'w', errors='surrogateescape').write('\n'.join(lines))
        rec = dict(key=key, file=f, line=ln, old=old.strip(), new=new.strip())
        t0 = time.time()
        try:
            isref = 'reference/' in f
            if not isref and 'applications' not in f:
                # the repository's own tests, outside /repo
                src = [x for x in subprocess.check_output(['git', '-C', repo, 'ls-files', 'src/cpu', 'tests'], text=True).split() if x.endswith('.cc')]
                mk = base + '/t'
                os.makedirs(mk, exist_ok=True)
                if not os.path.exists(mk + '/Makefile'):
                    o = ' '.join(x.replace('/', '_') + '.o' for x in src)
                    with open(mk + '/Makefile', 'w') as g:
                        g.write('all: t\nt: %s\n\tg++ -o $@ $^ -lyaml-cpp -lgtest -lgtest_main -lpthread\n' % o)
                        for x in src:
                            g.write('%s.o: %s/%s\n\tg++ -std=c++14 -w -O0 -DBUILD_TESTS -MMD -I%s/include -I%s/stubs -c $< -o $@\n' % (x.replace('/', '_'), repo, x, repo, ver))
                        g.write('-include *.d\n')
                r = run(['make', '-j8', '-C', mk])
                if r is None or r.returncode:
                    rec['verdict'] = 'nocompile'
                    if not done and 'first' not in globals():
                        print(r.stdout[-800:] if r else '')
                    continue
                r = run([mk + '/t'], timeout=60, cwd=repo + '/_build/tests')
                globals()['first'] = 1
                if r is None or r.returncode:
                    rec['verdict'] = 'tests'
                    continue
            rec['verdict'] = 'SURVIVED'
            rec['ran'] = []
            for c in checks_for(f):
                env = dict(os.environ, VERIF_REPO=repo)
                r = run(['python3', ver + '/check.py', c], env=env, timeout=1500)
                rec['ran'].append(c)
                if r is None:
                    rec['verdict'] = 'TIMEOUT ' + c
                    break
                if r.returncode == 1:
                    rec['verdict'] = 'caught ' + c
                    break
                if r.returncode != 0:
                    if 'cannot compile' in r.stdout or 'cannot preprocess' in r.stdout:
                        rec['verdict'] = 'nocompile'
                        break
                    rec['verdict'] = 'ERROR %s: %s' % (c, r.stdout[-600:])
                    break
        finally:
            open(p, 'w', errors='surrogateescape').write(text)
            rec['s'] = round(time.time() - t0, 1)
            if 'verdict' in rec:
                with open(a.out, 'a') as g:
                    g.write(json.dumps(rec) + '\n')
                print(rec['verdict'][:60], f, ln, '|', rec['old'][:70], '->', rec['new'][:70], rec['s'], flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
