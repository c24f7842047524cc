"""Property table: how each property is built, run and bounded."""
import core


def simple(name, **kw):
    def run(pid, tier, replay):
        exe = core.build_harness(name, **kw)
        return core.run_shards(exe, tier, core.replay_case(replay))
    return run


def both(name):
    """The test build and the build with BUILD_TESTS off."""
    def run(pid, tier, replay):
        def one(flags, args=()):
            return lambda: core.run_shards(core.build_harness(name, libflags=flags), tier, core.replay_case(replay), args)
        return core.merged(core.wanted([('tests', one(core.ASAN)), ('production', one(core.PROD, ['--lite']))], replay))
    return run


STEP = ('_ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEE7computeEdRKNS3_16LevelsetVelocity'
        'IS5_dEERNS3_8LevelsetIS5_dEE')


def app(pid, tier, replay):
    def one(flags):
        def go():
            exe = core.build_harness('c17.cc', libflags=flags, extra_link=['-Wl,--wrap=' + STEP],
                                     extra_srcs=[(core.REPO + '/applications/advection/main.cc', ['-Dmain=app_main'])],
                                     harness_flags=flags + ['-DREAL_STEP=__real_' + STEP, '-DWRAP_STEP=__wrap_' + STEP])
            return core.run_shards(exe, tier, core.replay_case(replay))
        return go
    return core.merged(core.wanted([('tests', one(core.ASAN)), ('production', one(core.PROD))], replay))


ENUM = 'explicit enumeration of all executions in a bounded space on the real code'
FAM = ('size family: all cell counts up to the stated full range per axis, plus medium (7..50) and large (63..4097 in 1D, '
       '..1025 in 2D, ..257 in 3D) sizes around powers of two and grids of more than 65536 nodes')
GENERIC = 'one generic (structure-free, fixed) data set per grid stands for all data of the same grid where the operation is linear; linearity is exercised by the complete basis fields on the small grids'
SPECS = {}


def add(pid, run, technique, bounds, assumptions=()):
    SPECS[pid] = dict(run=run, technique=technique, bounds=bounds, assumptions=list(assumptions))


add('C01', simple('c01.cc'), 'exhaustive enumeration of grids and configuration histories on the real code, closed-form index model',
    'dim 1-3; ' + FAM + ' (full: 60 / 16x16 / 6^3, thorough 40x40 / 12^3); padding 0..64 on small grids; every node of each grid; index maps of huge grids; counts on inactive axes; all set-padding/generate histories to depth 3 (thorough 4)')
add('C02', simple('c02.cc'), 'exhaustive enumeration of grids, boxes and regenerate histories on the real code, closed-form geometry model',
    'dim 1-3; ' + FAM + ' (full: 40 / 12x12 / 5^3, thorough 30x30 / 9^3); padding 0..40 on small grids; 10 boxes; every node; all 27 patterns of changed faces; all histories of 15 (padding, box) actions to depth 3 (thorough 4), last state compared bit for bit with a fresh grid',
    ['floating-point tolerance 1e-13 of the box scale'])
add('C03', simple('c03.cc'), 'exhaustive enumeration of grids, cells and positions in the cell, enclosing-cell predicate',
    'dim 1-3; ' + FAM + ' (full: 40 / 7x7 / 3^3, thorough 20x20 / 6^3); padding 0..33; 10 boxes; every node and a lattice of offsets (to 2^-49) in every cell, all axis combinations on small grids; exact ties on dyadic boxes; all histories of 5 (thorough 6) of 6 regenerate/switch operations with the same points looked up',
    ['points within rounding (1e-9 cell) of a cell face may be attributed to either cell unless the geometry is exactly representable'])
add('C04', simple('c04.cc'), 'explicit-state search over operation sequences on real arrays and containers against a map model',
    'dim 1-3 x all element types; all sequences of accessor writes/assignments over two arrays and several slots to depth 3 (thorough 4); whole-array sweeps of every slot on ' + FAM + '; assignments between all pairs of 6 sizes; containers: every ordered pair of fields')
add('C05', simple('c05.cc'), 'exhaustive enumeration of basis fields, stencil values and grids on the real code, stencil and polynomial oracles',
    'dim 1-3; both schemes; ' + FAM + '; padding {1(2),3,4,6}; 10 boxes; outputs on other grids; all histories of 4 (3D: 3, thorough 5) of 7 in-place changes; all nodal basis fields on small grids, all stencil value combinations over a 5-value alphabet, all monomials of the exactness order', [GENERIC])
add('C06', simple('c06.cc'), 'exhaustive enumeration of basis fields, components, stencil values and grids on the real code',
    'as C05 for every (component, axis) pair; entries of inactive axes compared bit for bit', [GENERIC])
add('C07', simple('c07.cc'), 'exhaustive enumeration of 1D grids, cells, fractions and end-value pairs on the real code',
    '1D cells 1..40 and the size family, padding {1,2,3,5,8}, 10 boxes, all cells x fraction lattice; all histories of 5 (thorough 6) of 7 in-place changes; all basis fields; all pairs of end values of a lattice; all data/query grid pairs for the array form', [GENERIC])
add('C08', simple('c08.cc'), 'exhaustive enumeration of nodal degrees of freedom (alone and in pairs), cells, fractions and grids, long-double tensor-product model',
    'dim 1-3; ' + FAM + '; padding {1,2,3,5}; 10 boxes; all histories of 4 (3D: 3, thorough 5) of 7-8 in-place changes; every cell; all fraction combinations; every single nodal degree of freedom and every pair; array form with query grids of equal and smaller size', [GENERIC])
add('C09', simple('c09.cc'), 'exhaustive enumeration of an integer lattice of edge data including all ties, limiter rule oracle',
    'all (phi0, psi0, phi1, psi1) of an integer lattice with 11^4 (1D) / 9^4 (2D, 3D; thorough 11^4) points, all axes and sides, 3 spacings; generic data on all grid lines, limited and unlimited; all histories of 5 (3D: 4, thorough 6) of 6 in-place changes')
add('C10', simple('c10.cc'), 'exhaustive enumeration of steps and step histories on the real code, long-double characteristic model',
    'dim 1-3; ' + FAM + '; padding 1-4; boxes; dt lattice incl. 0 and negative; generic data and velocity keeping roots inside the padded nodes; dt and velocity scales 1e-30..1e30; all histories of 4 (thorough 5) steps over a dt/velocity menu; all histories of 3-4 (thorough 5) of 9 in-place changes', [GENERIC])
add('C11', simple('c11.cc'), 'exhaustive enumeration of operators x grids with bitwise before/after snapshots of all state',
    'all 16 operators x dim 1-3 x ' + FAM + ' x padding 1-4 x data sets; two poison patterns decide "written"')
add('C12', simple('c12.cc', libflags=core.PLAIN), 'explicit exploration of all call histories, each result compared bit for bit with a fresh process',
    'all ordered pairs of 16 operators x dims x 7 configurations, one argument changed in place on the same objects, every operator 7000 (thorough 70000) times in a row on the same and on new objects, all triples over a reduced alphabet (thorough: larger); every result and the whole world compared with the run in a forked fresh process',
    ['beyond three different calls in a row only repetitions of one operator are explored'])
add('C13', both('c13.cc'), 'exhaustive enumeration of grids x centres x radii x times x names on the real code, formula oracle',
    'test build and (smaller bounds) production build; dim 1-3; ' + FAM + '; padding 0-4; 10 boxes; 5 centres x 5 radii x 4 times (small grids 60) x 5 schemes x fresh/used containers; unknown names one edit away from the known ones; all histories of 4 (thorough 6) of 8 in-place changes',
    ['CIRCULAR in 1D is documented as not implemented and not claimed'])
add('C14', both('c14.cc'), 'exhaustive enumeration of input files and parse histories on the real parser, record model',
    'test and production build; all 326 ordered section subsets x 3 styles; all key orders of each section (7! for grid); all literal forms; all pairs of keys over value lattices; all 2^k-1 missing-key sets; short and non-numeric values; all file histories of length 4 (thorough 5) over 11 files and two objects')
add('C15', both('c15.cc'), 'exhaustive enumeration of a component lattice for all operations on the real code, exact arithmetic oracle',
    'test and production build; all pairs of vectors over a 7-value (thorough 10) component lattice for int and double; all 3^9 matrices x 27 vectors; all subsets of perturbed entries for equality; all min triples over a 7-value extreme lattice; division by zero')
add('C16', simple('c16.cc'), 'explicit-state model checking of the file operations: every transition of a complete file-tree model executed on the real code',
    'all 124 states of trees over 5 names x all operations x 5 path spellings; all histories of length 3 (thorough 4) over 30 calls from the empty tree; file names of many lengths and characters at 3 depths; root-directory twins; written fields of all types on ' + FAM,
    ['the ext/filesystem submodule is absent offline: a stand-in with its interface is used', 'removeFile on a directory is not claimed (the library calls remove())', 'numbers are compared to the 6 digits the writer prints'])
add('C17', app, 'exhaustive enumeration of a bounded family of input files, each run of the real program monitored (ASan, time steps, output tree)',
    'test and production build; all cells 1..10^2 (thorough 16^2) x 5 boxes x both step controls; 5 starts x 5 dts x 30 ends x both step controls; runs of 300, 1000, 4000 steps; 8 output directories x 4 prior states; level set, gradient and velocity compared at the entry of every step; names, schemes, centres, radii; larger grids to 64x67; missing argument/file',
    ['nz = 1 and boxes of positive extent', 'time steps are observed at the scheme entry through the linker (--wrap)'])


WRAPS = ['free', 'malloc', 'calloc', '__cxa_allocate_exception', 'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'sprintf', 'snprintf', '__cxa_guard_acquire', '__cxa_guard_release',
         '__cxa_guard_abort', 'pthread_mutex_lock', 'pthread_mutex_unlock']


def concurrent(pid, tier, replay):
    """Instrumented objects (-fsanitize=thread) linked with our recorder instead of the sanitizer's runtime."""
    core.prune()
    inst = core.BASE + ['-O1', '-fno-pie', '-fsanitize=thread', '-fno-toplevel-reorder', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin-memcpy',
                        '-fno-builtin-memmove', '-fno-builtin-memset'] + core.INC
    plain = core.BASE + ['-O2', '-fno-pie'] + core.INC
    h = core.VERIF + '/harness/'
    objs = core.compile_many([(s, inst) for s in core.lib_sources()] + [(h + 'c20.cc', inst), (h + 'rec.cc', plain)])
    wraps = ['-Wl,--wrap=' + w for w in WRAPS]
    exe = core.link(objs, wraps + ['-lyaml-cpp', '-ldl'], ['-no-pie', '-rdynamic', '-pthread'])
    return core.run_shards(exe, tier, core.replay_case(replay))


add('C20', concurrent, 'stateless exploration of two logical threads on the real code with complete access recording (dependence analysis: '
    'pairs without conflicting accesses have one class of interleavings, which is executed)',
    'all ordered pairs of 25 operations in one dimension sharing grid and inputs, all pairs on separate grids, all pairs across dimensions; '
    'every operation against itself, a step and a point interpolation in 6 further configurations (sizes, boxes, data with ties, time steps; thorough: every pair); '
    'both orders; cold (pristine process image) and warm; each result compared bit for bit with the operation alone',
    ['yaml-cpp and the C++ stream library are not instrumented: conflicts inside them are not seen',
     'two threads, one call each', 'grids of up to 33 cells per axis'])


# ---- reference programs ----
import hashlib, json, os, re, shutil

NUMS = ['xlim1', 'xlim2', 'ylim1', 'ylim2', 'nx', 'ny', 'dt', 'Tfinal', 'option', 'printstep', 'T_period']
STRS = ['psischeme', 'backtrace_scheme']
LIT = r'[-+*/().\s0-9eEuUlLfF]*[0-9][-+*/().\s0-9eEuUlLfF]*'


# what the comments beside the settings say; finds a setting whose variable was renamed
SAID = {'xlim1': 'Lower limit on x', 'xlim2': 'Upper limit on x', 'nx': 'nodes in x-dir', 'ylim1': 'Lower limit on y', 'ylim2': 'Upper limit on y',
        'ny': 'Number of nodes INCLUDING', 'dt': 'Length of time step', 'Tfinal': 'Total time period', 'option': 'if you need animation',
        'printstep': 'How frequently', 'T_period': 'Period of the velocity', 'psischeme': "'SuperConsistent' or", 'backtrace_scheme': "'Euler' or 'RK3'"}


def override(text, nums=NUMS):
    """Settings with literal initialisers become run-time values; returns the text and the names found."""
    found = set()
    for n in nums + STRS:
        if n in SAID and not re.search(r'\b%s\b' % n, strip_comments(text)):
            if n in STRS:
                text, k = re.subn(r'\bchar\s+(\w+)\s*\[[^\]\n]*\]\s*=\s*"[^"\n]*"(?=\s*;\s*//[^\n]*%s)' % re.escape(SAID[n]), r'char *\1 = verif_str("%s")' % n, text)
            else:
                text, k = re.subn(r'(?<![\w.>])(\w+)\s*=(?!=)\s*%s(?=;[ \t]*//[^\n]*%s)' % (LIT, re.escape(SAID[n])), r'\1 = verif_num("%s")' % n, text)
            if k:
                found.add(n)
    text = strip_comments(text)
    for n in nums:
        text, k = re.subn(r'(?<![\w.>])%s\s*=(?!=)\s*%s(?=[;,])' % (n, LIT), '%s = verif_num("%s")' % (n, n), text)
        text, k2 = re.subn(r'(?<![\w.>])%s\s*\{%s\}' % (n, LIT), '%s = verif_num("%s")' % (n, n), text)
        if k + k2:
            found.add(n)
    for n in STRS:
        text, k = re.subn(r'char\s+%s\s*\[[^\]]*\]\s*=?\s*\{?\s*"[^"]*"\s*\}?' % n, 'char *%s = verif_str("%s")' % (n, n), text)
        if not k:
            text, k = re.subn(r'(?<![\w.>])%s\s*=\s*"[^"]*"' % n, '%s = verif_str("%s")' % (n, n), text)
        if k:
            found.add(n)
    return text, found


def strip_comments(t):
    """Comments become spaces (a launch inside one must not be rewritten); string literals stay."""
    return re.sub(r'("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\')|//[^\n]*|/\*.*?\*/', lambda m: m.group(1) or re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S)


def closure(files, start):
    """The files of the tree a program includes, directly or not."""
    seen, todo = set(), [start]
    while todo:
        p = todo.pop()
        if p in seen or p not in files:
            continue
        seen.add(p)
        for q in re.findall(r'#\s*include\s*["<]([^">\n]+)[">]', files[p]):
            todo += [os.path.normpath(os.path.join(os.path.dirname(p), q)), os.path.normpath(q)]
    return seen


def settle(files, found, want, inside):
    """Settings whose initialiser is not a literal (a named constant, an expression): the first declaration in a file with settings."""
    have = set().union(*[v for k, v in found.items() if inside(k)])
    for n in sorted(want - have):
        for p in sorted((k for k in files if inside(k)), key=lambda k: (-len(found[k]), k)):
            t, k = re.subn(r'(\b(?:double|float|int|unsigned|size_t|long|auto|const)\s+(?:const\s+)?%s)(?:\s*=(?!=)\s*[^;,{}"]+|\s*\{[^;,{}"]+\}|\s*\([^;,{}"]+\))(?=[;,])' % n,
                           r'\1 = verif_num("%s")' % n, files[p], count=1)
            if k:
                files[p], have = t, have | {n}
                found[p] = found[p] | {n}
                break
    # members given a value (settings.nx = 129), and strings given by a constructor or by copying
    for n in sorted(want - have):
        for p in sorted((k for k in files if inside(k)), key=lambda k: (-len(found[k]), k)):
            if n in STRS:
                t, k = re.subn(r'(\bstring\s+%s)\s*[({]\s*"[^"]*"\s*[)}]' % n, r'\1 = verif_str("%s")' % n, files[p])
                if not k:
                    t, k = re.subn(r'(\bstrn?cpy\s*\(\s*(?:\w+(?:\.|->))?%s\s*,\s*)"[^"]*"' % n, r'\1verif_str("%s")' % n, files[p])
                if not k:
                    t, k = re.subn(r'((?:\.|->)%s)[ \t]*=[ \t]*"[^"]*"' % n, r'\1 = verif_str("%s")' % n, files[p])
            else:
                t, k = re.subn(r'((?:\.|->)%s)[ \t]*=(?!=)[ \t]*%s(?=[;,])' % (n, LIT), r'\1 = verif_num("%s")' % n, files[p])
            if k:
                files[p], have = t, have | {n}
                found[p] = found[p] | {n}
                break
    for p in files:
        if 'verif_num' in files[p] or 'verif_str' in files[p]:
            files[p] = re.sub(r'\bconstexpr\b(?=[^;\n]*verif_(?:num|str)\()', 'const', files[p])
    return want - have


def ref_tree(generic):
    """A scratch copy of src/reference (sources of the current tree) with settings as run-time values."""
    root = core.REPO + '/src/reference'
    files, found = {}, {}
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.inc')):
                p = os.path.relpath(os.path.join(d, f), root)
                files[p], found[p] = override(open(os.path.join(d, f), errors='surrogateescape').read())
    missing = {}
    for prog in PROGRAMS:
        reach = closure(files, prog)
        missing[prog] = settle(files, found, set(NUMS) | set(STRS), lambda k: k in reach)
    v = core.VERIF + '/ref/generic/'
    inc = open(v + 'fields.inc').read()
    for d in ('', 'SerialCode/'):
        files[d + 'verif_fields.inc'] = inc
        if generic:
            for f in ('VortexVelocity.h', 'InitializeLevelSet.h'):
                if d + f in files:
                    files[d + f] = open(v + f).read()
    h = hashlib.sha256(repr(sorted(files.items())).encode(errors='surrogateescape')).hexdigest()[:20]
    out = os.path.join(core.BUILD, 'ref-' + h)
    if not os.path.isdir(out):
        tmp = out + '.%d.tmp' % os.getpid()
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(tmp, p)), exist_ok=True)
            with open(os.path.join(tmp, p), 'w', errors='surrogateescape') as f:
                f.write(t)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out, missing


def ref_program(prog, generic, flags, linkflags):
    """Shared object of one reference program."""
    tree, missing = ref_tree(generic)
    if missing[prog]:
        raise core.CheckError('settings %s not found in %s' % (sorted(missing[prog]), prog))
    fl = flags + ['-fPIC', '-fvisibility=hidden', '-I' + core.VERIF + '/stubs', '-include', core.VERIF + '/ref/refcfg.h',
                  '-DVERIF_PROGRAM="%s/%s"' % (tree, prog)]
    o = core.compile_obj(core.VERIF + '/ref/prog.cc', fl)
    return core.link([o], [], linkflags + ['-shared', '-fPIC', '-Wl,-Bsymbolic'])


def with_env(exe, tier, replay, env):
    old = dict(os.environ)
    os.environ.update(env)
    try:
        return core.run_shards(exe, tier, core.replay_case(replay))
    finally:
        for k in env:
            del os.environ[k]
        os.environ.update(old)


def try_generic(build):
    try:
        return build()
    except core.CheckError:
        return None


SERIAL = 'SerialCode/GALS_Advection.cpp'
PROGRAMS = [SERIAL, 'GALS_Advection_OpenMP.cpp', 'GALS_Advection_MPI.cpp', 'GALS_Advection_MPI_OpenMP.cpp']


def serial_ref(pid, tier, replay):
    core.prune()
    fl = [f for f in core.ASAN if f != '-DBUILD_TESTS']
    env = {'VERIF_PROG0': ref_program(SERIAL, False, fl, ['-fsanitize=address'])}
    g = try_generic(lambda: ref_program(SERIAL, True, fl, ['-fsanitize=address']))
    if g:
        env['VERIF_PROG1'] = g
    tree, _ = ref_tree(False)
    o = core.compile_obj(core.VERIF + '/harness/c21.cc', core.ASAN + core.INC + ['-I' + tree])
    exe = core.link([o], ['-ldl'], core.ASAN + ['-rdynamic'])
    return with_env(exe, tier, replay, env)


add('C21', serial_ref, 'exhaustive enumeration of bounded runs of the real program, each compared with an independent long-double model of the whole run',
    'all node counts 3..10 squared (thorough 20) x 7 boxes x 4 scheme pairs x time steps; 16..129 nodes; all step counts 0..7 x print intervals 1..8 x options x fractional ends (thorough 12 x 13); dt lattice 3e-9..1 x 5 flow strengths x 3 periods; histories of 64 (256) to 1100 steps; repository fields and generic fields',
    ['settings are given by replacing the literals a user edits; velocity and level-set headers are also replaced by generic ones, as the README tells users to do',
     'output compared to the ten printed decimals', 'runs in which a root lies on the box boundary up to rounding are not judged (counted as undecided_by_rounding)'])


def ref_env(which, fl_serial, fl, link_serial, lnk, omp):
    """Paths of the shared objects: serial program and the others, repository and generic fields."""
    env = {}
    jobs = [('VERIF_PROG', SERIAL, fl_serial, link_serial)]
    for name, prog, threaded in which:
        jobs.append((name, prog, fl + (omp if threaded else []), lnk))
    for name, prog, f, l in jobs:
        env[name + '0'] = ref_program(prog, False, f, l)
        g = try_generic(lambda: ref_program(prog, True, f, l))
        if g:
            env[name + '1'] = g
    return env


OMPRT = ['rec.cc', 'omp_rt.cc']


def parallel_exe(name, asan=()):
    plain = core.BASE + ['-O2', '-fno-pie'] + core.INC + list(asan)
    objs = core.compile_many([(core.VERIF + '/harness/' + f, plain) for f in [name] + OMPRT])
    return core.link(objs, ['-Wl,--wrap=' + w for w in WRAPS] + ['-ldl'], ['-no-pie', '-rdynamic', '-pthread'] + list(asan))


def threaded_ref(pid, tier, replay):
    core.prune()
    base = [f for f in core.BASE if f != '-DBUILD_TESTS'] + ['-O1']
    inst = ['-fsanitize=thread', '-fno-toplevel-reorder', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset']
    wraps = ['-Wl,--wrap=' + w for w in WRAPS]
    env = ref_env([('VERIF_OMP', 'GALS_Advection_OpenMP.cpp', True), ('VERIF_HYB', 'GALS_Advection_MPI_OpenMP.cpp', True)],
                  base, base, [], wraps, ['-fopenmp'] + inst)
    return with_env(parallel_exe('c18.cc'), tier, replay, env)


def mpi_ref(pid, tier, replay):
    core.prune()
    asan = ['-fsanitize=address']
    base = [f for f in core.BASE if f != '-DBUILD_TESTS'] + ['-O1']
    env = ref_env([('VERIF_MPI', 'GALS_Advection_MPI.cpp', False), ('VERIF_HYB', 'GALS_Advection_MPI_OpenMP.cpp', True)],
                  base + asan, base + asan, asan, asan, ['-fopenmp'])
    return with_env(parallel_exe('c19.cc', asan), tier, replay, env)


add('C18', threaded_ref, 'stateless exploration of the real programs under a controlled OpenMP runtime with complete access recording '
    '(dependence analysis between barriers), several thread orders executed',
    'grids 3..4 squared (thorough 6) with every thread count from 1 to one iteration per thread plus one, 3 (6) thread orders, 4 scheme pairs, both fields; grids to 33x32 with thread counts up to 129; threaded and hybrid program; output compared with the serial program',
    ['thread switches inside an iteration are covered by the absence of conflicting accesses', 'calls into libm and iostream are not recorded'])
add('C19', mpi_ref, 'explicit-state exploration of the pair of real processes under a controlled network: every transition of every reachable communication state executed',
    'all completion orders and buffering decisions for 4..6 x 3..5 nodes (thorough 10 x 7), 0..2 (4) steps, 4 scheme pairs, both fields, message-passing and hybrid program; four extreme network behaviours on grids to 128x128',
    ['even node counts in x (documented restriction)', 'a stand-in for the MPI library with blocking, synchronous and non-blocking point-to-point calls, barrier and broadcast'])


# ---- the CUDA program ----
def balanced(text, i):
    """Index after the parenthesis that closes the one at text[i]."""
    d = 0
    while i < len(text):
        if text[i] in '([{':
            d += 1
        elif text[i] in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        elif text[i] == '"':
            i += 1
            while i < len(text) and text[i] != '"':
                i += 2 if text[i] == '\\' else 1
        i += 1
    raise core.CheckError('unbalanced parentheses in a kernel launch')


def launches(text):
    """kernel<<<config>>>(arguments) -> verif_launch(verif_cfg(config), kernel, arguments)"""
    out, pos = '', 0
    for m in re.finditer(r'([A-Za-z_][\w:]*(?:<[^<>;]*>)?)\s*<<<', text):
        if m.start() < pos:
            continue
        e = text.index('>>>', m.end())
        k = e + 3
        while text[k].isspace():
            k += 1
        if text[k] != '(':
            continue
        end = balanced(text, k)
        args = text[k + 1:end - 1].strip()
        out += text[pos:m.start()] + 'verif_launch(verif_cfg(%s), %s%s)' % (text[m.end():e], m.group(1), ', ' + args if args else '')
        pos = end
    out += text[pos:]
    return re.sub(r'extern\s+__shared__\s+([\w:]+)\s+(\w+)\s*\[\s*\]\s*;', r'\1 *\2 = (\1 *)verif_dynshared();', out)


CUDA_MAIN = 'GALS_Advection.cu'
CUDA_NUMS = NUMS + ['TileSize']


def cuda_tree(generic):
    root = core.REPO + '/src/reference/CUDA'
    files, where = {}, {}
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.cuh', '.cu', '.cpp', '.inc')):
                p = os.path.relpath(os.path.join(d, f), root)
                t, found = override(open(os.path.join(d, f), errors='surrogateescape').read(), CUDA_NUMS)
                where[p] = found
                files[p] = launches(t)
    reach = closure(files, CUDA_MAIN)
    missing = settle(files, where, set(CUDA_NUMS) | set(STRS), lambda k: k in reach)
    if missing:
        raise core.CheckError('settings %s not found in the CUDA program' % sorted(missing))
    files['verif_fields.inc'] = open(core.VERIF + '/ref/generic/fields.inc').read()
    if generic:
        files['VortexVelocityCUDA.cu'] = open(core.VERIF + '/ref/generic_cuda/VortexVelocityCUDA.cu').read()
    h = hashlib.sha256(repr(sorted(files.items())).encode(errors='surrogateescape')).hexdigest()[:20]
    out = os.path.join(core.BUILD, 'cuda-' + h)
    if not os.path.isdir(out):
        tmp = out + '.%d.tmp' % os.getpid()
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(tmp, p)), exist_ok=True)
            with open(os.path.join(tmp, p), 'w', errors='surrogateescape') as f:
                f.write(t)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def cuda_ref(pid, tier, replay):
    core.prune()
    plain = [f for f in core.BASE if f != '-DBUILD_TESTS']
    cu = ['-I' + core.VERIF + '/stubs/cuda', '-include', core.VERIF + '/stubs/cuda/verif_cuda.h', '-include', core.VERIF + '/ref/refcfg.h']
    runs = []
    for mode, pf, pl, hf, hl in (
            ('record', plain + ['-O1', '-fsanitize=thread', '-fno-toplevel-reorder', '-fno-builtin-memcpy', '-fno-builtin-memset'], [], plain + ['-O2', '-fno-pie'], ['-no-pie', '-rdynamic', '-pthread']),
            ('asan', plain + ['-O1', '-fsanitize=address'], ['-fsanitize=address'], plain + ['-O1', '-fsanitize=address', '-DVERIF_ASAN'], ['-fsanitize=address', '-rdynamic', '-pthread'])):
        def prog(generic):
            tree = cuda_tree(generic)
            o = core.compile_obj(core.VERIF + '/ref/prog.cc', pf + cu + ['-fPIC', '-DVERIF_PROGRAM="%s/%s"' % (tree, CUDA_MAIN)])
            return core.link([o], [], pl + ['-shared', '-fPIC', '-Wl,-Bsymbolic'])
        env = {'VERIF_PROG0': prog(False)}
        g = try_generic(lambda: prog(True))
        if g:
            env['VERIF_PROG2'] = g
        o = core.compile_obj(core.VERIF + '/harness/c22.cc', hf + core.INC + ['-I' + core.VERIF + '/stubs/cuda', '-I' + cuda_tree(False)])
        exe = core.link([o], ['-ldl'], hl)
        if replay and mode not in json.load(open(replay))['violation'].get('mode', mode):
            continue
        r = with_env(exe, tier, replay, env)
        for v in r.violations:
            v['mode'] = mode
        runs.append(r)
        if r.violations:
            break
    res = runs[0]
    for r in runs[1:]:
        res.violations += r.violations
        res.states += r.states
        res.transitions += r.transitions
        res.traces += r.traces
        for k, v in r.counters.items():
            res.counters[k] = res.counters.get(k, 0) + v
    return res


add('C22', cuda_ref, 'stateless exploration of the real CUDA sources under a controlled CUDA runtime with complete access recording (dependence analysis '
    'inside each kernel launch), several block and thread orders executed, each run compared with an independent long-double model',
    'all node counts 3..10 squared (thorough 20) x 7 tile sizes x block/thread orders (thorough 16) x 5 boxes x immediate/deferred execution (streams and events: issue order and latest first); grids to 128x128 with several tiles of 16 and 32 per direction; all step counts 0..6 x print intervals 1..7 x options; dt lattice 3e-9..1 x 5 flow strengths x 3 periods; histories of 64 (256) steps; repository and generic velocity',
    ['no CUDA toolkit or GPU here: the sources are compiled for the host with a stand-in of the toolkit (kernel launches rewritten as calls)',
     'device arithmetic is assumed to be IEEE double without contraction differences above the printed precision',
     'output compared to the ten printed decimals; roots on the box boundary up to rounding are not judged'])
