"""Per-property configuration of the monitors (see DESIGN.md)."""
DEFAULT_VARIANTS = ['src-asan', 'single-asan', 'src-rel']
THOROUGH_VARIANTS = ['src-asan', 'single-asan', 'src-rel', 'single-rel']
ASSUMPTIONS = ['g++ 13 and libstdc++ behave as documented', 'the reference model in /verif/src is right where it disagrees with the library']
CHECKS = {}
def check(pid, file, rule, **kw):
    CHECKS[pid] = dict(file=file, rule=rule, **kw)

check('C01', 'c01.cpp', 'all token sequences over a hostile alphabet up to a length bound, plus random byte strings, mutated valid expressions, oversized tokens and nests; a case is distinct by its input text')
check('C02', 'c02.cpp', 'all strings over three small alphabets (structure, number spelling, operators) up to a length bound, random expressions in random spellings, and strings one edit away from them; distinct by text')
check('C03', 'c03.cpp', 'all token strings over an error-prone alphabet up to a length bound and damaged random expressions; only rejected inputs count; distinct by text')
check('C04', 'c04.cpp', 'all nestings of two and three operators in both operand positions, and random expressions over five constant profiles, built in several ways; distinct by expression')
check('C05', 'c05.cpp', 'doubles of every magnitude class and their neighbours; matrices, symbolic matrices and tables of them; distinct by value or text')
check('C06', 'c06.cpp', 'every operator on a table of special values, and random expressions over five constant profiles, with and without throwing configured; distinct by expression')
check('C07', 'c07.cpp', 'random histories of construction, assignment, move, substitution, differentiation, simplification, calculation and destruction over a pool of handles, judged after every step against a persistent-tree model; distinct by history')
check('C08', 'c08.cpp', 'deep expressions of 26 shapes (one operator, alternating, random), every operation run in a thread with a 256 KB stack; an overflow kills the monitored process; distinct by shape and depth', min_distinct=20, variants=['src-asan', 'single-asan', 'src-rel', 'single-rel', 'src-dbg', 'single-dbg'])
check('C09', 'c09.cpp', 'every differentiation rule over a table of inner expressions, random smooth expressions, orders 1 to 4, mixed and stepwise, at points inside the well-conditioned domain; reference: Taylor arithmetic in long double; distinct by expression, variable and order')
check('C10', 'c10.cpp', 'random expressions with hostile constants, with and without % & | at random places, orders 1 to 3, both throwing configurations; Jacobians of them; distinct by expression, variable and order')
check('C11', 'c11.cpp', 'every operator over a table of operand pairs and random expressions rich in 0 and 1, judged by value at points where the original has one, by structure, and by idempotence; distinct by expression')
check('C12', 'c12.cpp', 'random expressions with permutations, self-containing, overlapping and fresh replacements, through every form of substitution; distinct by expression and replacement')
check('C13', 'c13.cpp', 'random shapes and contents (small, moderate, extreme), binary, vector, comparison and in-place histories with aliasing, against a plain array model; distinct by operands or history')
check('C14', 'c14.cpp', 'integer matrices of ten structures (regular, singular, definite, triangular, permutation) judged exactly, real matrices judged with permanent-based rounding bounds; distinct by matrix')
check('C15', 'c15.cpp', 'integer systems of controlled rank and consistency in all shapes, classified exactly by rational elimination, and well-conditioned real systems with known solution; distinct by system')
check('C16', 'c16.cpp', 'random systems of seven families (planted roots, affine, polynomial, non-square, degenerate, hostile, classic hard cases) under random configurations, both methods and all entry points; a returned table is judged by evaluating every equation with the reference evaluator; distinct by system, start and configuration')
check('C17', 'c17.cpp', 'random and known-hard systems under a ladder of iteration limits; work is measured by an allocation clock against the cost of one evaluation, Newton steps against a reference Newton iteration; a solve that never ends stops the progress counter and is confirmed by a rerun; distinct by system and configuration')
check('C18', 'c18.cpp', 'planted roots with a start satisfying a sampled Newton-Kantorovich condition, affine systems of bounded condition from near and far starts, polynomials with several roots; both methods, table and initial value; distinct by system and start')
check('C19', 'c19.cpp', 'random symbolic matrices of all shapes with exact integer and smooth real entries; products, differences, conversions, substitutions, Jacobians and refused shapes, evaluated symbolically last and first; distinct by operands')
check('C20', 'c20.cpp', 'histories of construction (three ways), copying, assignment, moving, swapping and updating a pool of tables, every observer of every table compared with a plain model after every step; distinct by history')
# ---------------------------------------------------------------- C21: first use of the library by several threads at once
def post_c21(ck):
    import os, glob, subprocess
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(ck.dir, 'first')
    os.makedirs(d, exist_ok=True)
    main = os.path.join(ck.verif, 'src/c21first/first.cpp')
    flags = ['-std=c++14', '-w', '-O1', '-g1', '-fsanitize=thread', '-pthread']
    env = dict(os.environ, LC_ALL='C', TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1')
    def run(cmd, t=600):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        except subprocess.TimeoutExpired:
            return 124, 'no end after %d s' % t
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    jobs, dists = [], [('src', os.path.join(ck.repo, 'src')), ('single', os.path.join(ck.repo, 'single/include'))]
    for dist, inc in dists:
        for s in [main] + (sorted(glob.glob(os.path.join(ck.repo, 'src/tomsolver/*.cpp'))) if dist == 'src' else []):
            jobs.append((dist, ['g++'] + flags + ['-I', inc, '-c', s], os.path.join(d, dist + '_' + os.path.basename(s)[:-4] + '.o')))
    with ThreadPoolExecutor(8) as ex:
        for (dist, cmd, o), (rc, out) in zip(jobs, ex.map(lambda j: run(j[1] + ['-o', j[2]]), jobs)):
            if rc:
                raise RuntimeError('compiling: ' + out[-2000:])
    runs = 0
    for dist, inc in dists:
        exe = os.path.join(d, 'first_' + dist)
        rc, out = run(['g++'] + flags + [o for (q, c, o) in jobs if q == dist] + ['-o', exe])
        if rc:
            raise RuntimeError('linking: ' + out[-2000:])
        n = int(run([exe])[1])
        todo = [(v, t) for rep in range(12 if ck.thorough else 2) for t in (2, 3, 8) for v in range(3 * n)]
        with ThreadPoolExecutor(3) as ex:
            for (v, t), (rc, out) in zip(todo, ex.map(lambda j: run([exe, str(j[0]), str(j[1])], 60), todo)):
                runs += 1
                if rc or not out.startswith('OK'):
                    ck.violations.append(dict(variant=dist + '-first', index=0, idx=v, key='first-use', msg='exit %d: %s' % (rc, out[:2500]),
                                              case='first_%s %d %d: %d threads use the library first' % (dist, v, t, t)))
    ck.extra['first_use_processes'] = runs

check('C21', 'c21.cpp', 'concurrent programs of 3 to 8 threads over the whole interface, own objects and shared constant objects, same or different work, with injected delays, first use included; ThreadSanitizer watches every access and every result is compared with a single-threaded run; distinct by result', variants=['src-tsan', 'single-tsan', 'src-rel'], thorough_variants=['single-rel'], shards=4, post=post_c21)
check('C22', 'c22.cpp', 'random programs over the whole interface under random configurations: run in a fresh process, in a process with a long history, repeated, after failures, at every log level with standard output and error captured, and under another stream locale; all result texts must be identical; distinct by result')


# ---------------------------------------------------------------- C23: recordings of the two distributions
import os, re, glob, math, subprocess
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')

def lines_differ(a, b):
    """texts are the same; numbers may differ by rounding (the order of a sum, constant-folded library calls)"""
    if a == b:
        return False
    if NUM.sub('#', a) != NUM.sub('#', b):
        return True
    us, vs = [float(x) for x in NUM.findall(a)], [float(x) for x in NUM.findall(b)]
    if us == vs:
        return False
    big = max([0.0] + [abs(x) for x in us + vs if math.isfinite(x)])
    for u, v in zip(us, vs):
        if u == v or u != u and v != v:
            continue
        if not (math.isfinite(u) and math.isfinite(v)):
            if big < 1e100: # else: the order of a sum or a product decides whether it overflows
                return True
        elif abs(u - v) > 1e-9 * max(abs(u), abs(v)) + 1e-13 + 1e-14 * big:
            return True
    return False

def read_trace(v):
    cases = {}
    for f in glob.glob(v.cwd + '/*.trace'):
        cur = None
        for line in open(f):
            line = line.rstrip('\n')
            if line.startswith('#case '):
                _, idx, cfg = line.split(' ', 2)
                cur = cases.setdefault(int(idx), [])
                cur.append(cfg)
            elif cur is not None:
                cur.append(line)
    return cases

def post_c23(ck):
    from concurrent.futures import ThreadPoolExecutor
    vs = {v.name: v for v in ck.variants}
    compared = lines = rounding = 0
    for m in ('asan', 'rel'):
        if 'src-' + m not in vs or 'single-' + m not in vs:
            continue
        a, b = read_trace(vs['src-' + m]), read_trace(vs['single-' + m])
        for i in sorted(set(a) & set(b)):
            compared += 1
            for k in range(max(len(a[i]), len(b[i]))):
                x = a[i][k] if k < len(a[i]) else '(nothing)'
                y = b[i][k] if k < len(b[i]) else '(nothing)'
                lines += 1
                if x[:1] == '~' or y[:1] == '~':
                    rounding += 1
                    continue
                if lines_differ(x, y):
                    ck.violations.append(dict(variant='single-' + m, index=vs['single-' + m].index, idx=i, key='distributions-differ',
                                              msg='library: %s ; single header: %s' % (x[:700], y[:700]), case=a[i][0] if a[i] else ''))
                    break
    ck.extra['compared_programs'] = compared
    ck.extra['compared_results'] = lines - rounding
    ck.extra['decided_by_rounding'] = rounding
    # several translation units, static initialisation, link orders
    d = os.path.join(ck.dir, 'link')
    os.makedirs(d, exist_ok=True)
    L = os.path.join(ck.verif, 'src/link')
    src = sorted(glob.glob(os.path.join(ck.repo, 'src/tomsolver/*.cpp')))
    inc = {'src': os.path.join(ck.repo, 'src'), 'single': os.path.join(ck.repo, 'single/include')}
    def run(cmd, t=600):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    jobs = []
    for dist in ('src', 'single'):
        for s in [L + '/a.cpp', L + '/b.cpp'] + (src if dist == 'src' else []):
            jobs.append((dist, s, os.path.join(d, dist + '_' + os.path.basename(s)[:-4] + '.o')))
    flags = ['-std=c++14', '-w', '-O1', '-pthread', '-D_GLIBCXX_ASSERTIONS']
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(['g++'] + flags + ['-I', inc[j[0]], '-c', j[1], '-o', j[2]]), jobs))
        std = ['-std=c++17', '-std=c++20'] if ck.thorough else ['-std=c++17']
        comp = [(dist, s) for dist in ('src', 'single') for s in std]
        res2 = list(ex.map(lambda j: run(['g++', j[1], '-w', '-fsyntax-only', '-I', inc[j[0]], L + '/b.cpp']), comp))
    bad = {}
    for (dist, s, o), (rc, out) in zip(jobs, res):
        if rc:
            bad[dist] = 'compiling %s: %s' % (s, out[-1500:])
    for (dist, s), (rc, out) in zip(comp, res2):
        if rc:
            bad.setdefault(dist, 'compiling with %s: %s' % (s, out[-1500:]))
    outs = {}
    if not bad:
        for dist in ('src', 'single'):
            a, b = d + '/' + dist + '_a.o', d + '/' + dist + '_b.o'
            lib = [o for (q, s, o) in jobs if q == dist and o not in (a, b)]
            orders = {'ab': [a, b] + lib, 'ba': [b, a] + lib}
            if lib:
                orders.update({'lib first': lib + [b, a], 'lib reversed': lib[::-1] + [a, b]})
            for name, o in orders.items():
                exe = d + '/' + dist + name.replace(' ', '_')
                rc, out = run(['g++', '-pthread'] + o + ['-o', exe])
                if rc:
                    bad[dist] = 'linking order %s: %s' % (name, out[-1500:])
                    continue
                rc, out = run([exe], 60)
                outs[(dist, name)] = out
                if rc or not out.startswith('OK'):
                    bad[dist] = 'link order %s: exit %d: %s' % (name, rc, out[-1500:])
        if len(set(outs.values())) > 1 and not bad:
            bad['single'] = 'the programs print different results: %s' % outs
    for dist, msg in bad.items():
        ck.violations.append(dict(variant=dist + '-link', index=0, idx=0, key='several-translation-units', msg=msg, case='two translation units using %s' % dist))
    ck.extra['linked_programs'] = len(outs)

check('C23', 'c23.cpp', 'random programs over the whole interface under random configurations, run against the library and against the single header with every result recorded and compared; two translation units linked in several orders with use during static initialisation; distinct by result', variants=['src-asan', 'single-asan', 'src-rel', 'single-rel'], same_seed=True, trace=True, post=post_c23)
check('C24', 'c24.cpp', 'random programs over the whole interface and cases of the workloads of eight other checks, each repeated under allocation accounting; the address and undefined-behaviour sanitizers and valgrind watch the accesses and the use of uninitialised values; distinct by program', more_files=['c24/mod_a.cpp', 'c24/mod_b.cpp', 'c24/mod_c.cpp'], variants=['src-rel', 'single-rel', 'src-asan', 'src-vg'], thorough_variants=['single-asan', 'single-vg'], vg_fraction=0.06, shards=4)
check('C25', 'c25.cpp', 'expressions of 30 shapes with five kinds of leaves, texts of 17 kinds, tables, vectors, matrices, long systems, solutions and Jacobians, each at four sizes; the work of every operation is measured by a logical clock (executed basic blocks, bytes moved by the C library, allocations) and its growth judged; distinct by family', more_files=['c25/clock.cpp'], variants=['src-cov', 'single-cov'], thorough_variants=[], min_distinct=100)
check('C26', 'c26.cpp', 'all strings of one and two bytes and mutated identifiers judged by the identifier rule; pairs of confusable names through every operation; random expressions whose names are exchanged for confusable ones, every operation compared with its renamed result; distinct by names and expression')
check('C27', 'c27.cpp', 'histories of failing operations of every kind (parsing, evaluation, differentiation, names, lookups, shapes, linear and nonlinear systems), in place or in another thread; every error is judged against its cause, stored as copies of its class, of its base and as exception pointer, and judged again after the arguments are gone and more errors were raised; distinct by cause')
check('C28', 'c28.cpp', 'random residual functions of nine kinds (affine, polynomial, exponential, oscillating, steep, partly undefined, overflowing, stepwise) with exact, zero, arbitrary and partly invalid Jacobians, starts, directions and accuracies, symbolic functions that search themselves, functions that throw; distinct by function, start and direction')
check('C29', 'c29.cpp', 'random programs over the whole interface repeated with one setting changed (also to extreme values) or several; every result of an operation that does not document the setting must stay, every success must survive a relaxed limit, and the configuration is compared after every step; distinct by result')
