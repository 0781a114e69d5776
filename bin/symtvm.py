#!/usr/bin/python3
"""symtvm driver: builds the instrumented / native versions of the code of /repo and of the harnesses, runs the
symbolic exploration, replays the counterexamples against the native build, writes the evidence.

  symtvm.py setup
  symtvm.py check <ID> [--tier quick|thorough]
  symtvm.py replay <ID> <file>
"""
import bisect, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMTVM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(VERIF, 'engine')
HARNESS = os.path.join(VERIF, 'harness')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
LLVM = '/usr/lib/llvm-18'
CLANG = LLVM + '/bin/clang++'
GXX = '/usr/bin/g++'
JOBS = os.cpu_count() or 8

INC = ['-I' + REPO + '/include', '-I' + ENGINE, '-I' + HARNESS, '-I' + HARNESS + '/stubs', '-I' + ENGINE + '/gen/include', '-I' + REPO + '/3rd-party', '-I' + REPO + '/src', '-isystem', '/usr/include/eigen3']
DEFS = ['-std=c++17', '-DTVM_EXPORTS', '-DEIGEN_RUNTIME_NO_MALLOC', '-w']
SYMFLAGS = DEFS + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off',
                   '-fno-pic', '-fno-strict-aliasing', '-fno-unroll-loops', '-fno-discard-value-names']
NATFLAGS = DEFS + ['-O0', '-g0', '-fno-pic']
UNSUPPORTED = re.compile(r'/(Robot|robot/.*|sch|LSSOL\w*|QLD\w*|Quadprog\w*|LexLS\w*|defaultLeastSquareSolver)\.cpp$')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def fhash(p, _c={}):
    if p not in _c:
        try:
            with open(p, 'rb') as f:
                _c[p] = hashlib.sha256(f.read()).hexdigest()[:24]
        except OSError:
            _c[p] = 'missing'
    return _c[p]


def mkdirs(p):
    os.makedirs(p, exist_ok=True)


class BuildError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ engine
def engine():
    mkdirs(BUILD)
    out = {}
    jobs = []

    def add(name, srcs, cmd):
        key = hashlib.sha256((' '.join(cmd) + ''.join(fhash(s) for s in srcs)).encode()).hexdigest()[:16]
        path = os.path.join(BUILD, '%s-%s%s' % (os.path.splitext(name)[0], key, os.path.splitext(name)[1]))
        out[name] = path
        if not os.path.exists(path):
            tmp = '%s.%d.tmp' % (path, os.getpid())
            jobs.append((cmd + ['-o', tmp], tmp, path))

    add('SymPass.so', [ENGINE + '/SymPass.cpp'],
        [CLANG, '-std=c++17', '-fPIC', '-shared', '-fno-rtti', '-fno-exceptions', '-O1', '-I' + LLVM + '/include', ENGINE + '/SymPass.cpp'])
    add('sym_rt.o', [ENGINE + '/sym_rt.cpp', ENGINE + '/sym.h'],
        [GXX, '-std=c++17', '-O2', '-fno-pic', '-w', '-I' + Z3 + '/include', '-c', ENGINE + '/sym_rt.cpp'])
    add('sym_native.o', [ENGINE + '/sym_native.cpp', ENGINE + '/sym.h'],
        [GXX, '-std=c++17', '-O1', '-fno-pic', '-w', '-c', ENGINE + '/sym_native.cpp'])

    def one(j):
        r = sh(j[0])
        if r.returncode:
            raise BuildError(r.stderr)
        os.rename(j[1], j[2])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    return out


# ------------------------------------------------------------------------------------------------ object cache
class Objs:
    def __init__(self, mode, eng):
        self.mode = mode
        self.eng = eng
        self.dir = os.path.join(BUILD, 'obj', mode)
        mkdirs(self.dir)
        if mode == 'sym':
            self.flags = SYMFLAGS + ['-fpass-plugin=' + eng['SymPass.so']]
            self.cc = CLANG
        else:
            self.flags = NATFLAGS
            self.cc = GXX
        self.salt = hashlib.sha256((' '.join(self.flags) + self.cc + (REPO if REPO != '/repo' else '')).encode()).hexdigest()[:8]

    def name(self, src):
        return re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/'))

    def lookup(self, src):
        for d in glob.glob(os.path.join(self.dir, self.name(src) + '.' + self.salt + '.*.dep')):
            try:
                deps = json.load(open(d))
            except Exception:
                continue
            if all(fhash(p) == h for p, h in deps.items()) and os.path.exists(d[:-4] + '.o'):
                return d[:-4] + '.o'
        return None

    def any(self, src):
        l = glob.glob(os.path.join(self.dir, self.name(src) + '.*.o'))
        return l[0] if l else None

    def compile(self, src):
        o = self.lookup(src)
        if o:
            return o
        base = os.path.join(self.dir, '%s.%s.%d_%d' % (self.name(src), self.salt, int(time.time() * 1e6), os.getpid()))
        cmd = [self.cc] + self.flags + INC + ['-c', src, '-o', base + '.o.tmp', '-MD', '-MF', base + '.d']
        r = sh(cmd)
        if r.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
        txt = open(base + '.d').read().replace('\\\n', ' ')
        deps = txt.split(':', 1)[1].split()
        deps = {p: fhash(p) for p in deps if not p.startswith('/usr/')}
        os.unlink(base + '.d')
        os.rename(base + '.o.tmp', base + '.o')
        with open(base + '.dep.tmp', 'w') as f:
            json.dump(deps, f)
        os.rename(base + '.dep.tmp', base + '.dep')
        return base + '.o'


def nm(obj, _c={}):
    if obj in _c:
        return _c[obj]
    r = sh(['nm', '-P', obj])
    d, u = set(), set()
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) < 2:
            continue
        if p[1] == 'U':
            u.add(p[0])
        elif p[1] in 'TDBRVWtuvw' and p[1] not in 'w':
            d.add(p[0])
        if p[1] == 'T' or p[1] in 'DBR':
            d.add(p[0])
    _c[obj] = (d, u)
    return _c[obj]


def sources():
    l = []
    for r, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            p = os.path.join(r, f)
            if p.endswith('.cpp') and not UNSUPPORTED.search(p):
                l.append(p)
    return sorted(l)


def link(mode, eng, harness, out):
    """links `harness` (a .cpp) with the translation units of /repo/src it needs"""
    ob = Objs(mode, eng)
    srcs = sources()
    hintf = os.path.join(BUILD, 'hint_' + os.path.basename(harness) + '.json')
    hint = []
    if os.path.exists(hintf):
        try:
            hint = [s for s in json.load(open(hintf)) if s in srcs]
        except Exception:
            pass
    objs = {}

    def comp(lst):
        lst = [s for s in lst if s not in objs]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for s, o in zip(lst, ex.map(ob.compile, lst)):
                objs[s] = o
    comp([harness] + hint)
    # resolve
    while True:
        defs, und = set(), set()
        for o in objs.values():
            d, u = nm(o)
            defs |= d
            und |= u
        und = {u for u in und - defs if '3tvm' in u}
        if not und:
            break
        need = set()
        missing = set(und)
        for s in srcs:
            if s in objs:
                continue
            o = ob.lookup(s) or ob.any(s)
            if not o:
                continue
            d = nm(o)[0] & missing
            if d:
                need.add(s)
                missing -= d
        if not need:
            rest = [s for s in srcs if s not in objs]
            if not rest:
                break
            need = rest
        comp(need)
    used = [s for s in objs if s != harness]
    # forget the hinted units that are not needed
    try:
        tmp = hintf + '.%d' % os.getpid()
        json.dump(sorted(used), open(tmp, 'w'))
        os.rename(tmp, hintf)
    except OSError:
        pass
    cmd = [GXX, '-no-pie', '-o', out] + list(objs.values())
    if mode == 'sym':
        cmd += [eng['sym_rt.o'], Z3 + '/lib/libz3.so', '-Wl,-rpath,' + Z3 + '/lib', '-lgmpxx', '-lgmp', '-lpthread']
    else:
        cmd += [eng['sym_native.o']]
    r = sh(cmd)
    if r.returncode:
        rest = [s for s in srcs if s not in objs]
        if rest:
            comp(rest)
            cmd = cmd[:4] + list(objs.values()) + cmd[4 + len(used) + 1:]
            r = sh(cmd)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
    return used


# ------------------------------------------------------------------------------------------------ check
def meta(pid):
    m = {}
    p = os.path.join(HARNESS, pid + '.json')
    if os.path.exists(p):
        m = json.load(open(p))
    return m


def harness_of(pid):
    l = sorted(glob.glob(os.path.join(HARNESS, pid + '.cpp')) + glob.glob(os.path.join(HARNESS, pid + '_*.cpp')))
    return l


def findings():
    """known findings: list of (property, pattern, text)"""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', l)
            if m:
                res.append(m.groups())
    return res


def symbols(exe, pcs):
    r = sh(['nm', '-C', '-n', '--defined-only', exe])
    adr, names = [], []
    for l in r.stdout.splitlines():
        p = l.split(' ', 2)
        if len(p) == 3 and p[1] in 'tTwWvV':
            adr.append(int(p[0], 16))
            names.append(p[2])
    out = {}
    for x in pcs:
        i = bisect.bisect_right(adr, x) - 1
        if i >= 0:
            out[names[i]] = out.get(names[i], 0) + 1
    return out


def run_native(exe, f, tier, timeout=90):
    env = dict(os.environ, SYM_TIER=str(tier), MALLOC_PERTURB_='165')
    try:
        r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
        return r.returncode, r.stdout + r.stderr[-500:]
    except subprocess.TimeoutExpired:
        return 124, 'REPLAY-FAIL hang (timeout)'


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    m = meta(pid)
    hs = harness_of(pid)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {}, 'assumptions': m.get('assumptions', []), 'wall_s': 0, 'violations': 0}
    known = [k for k in findings() if k[0] == pid]
    code = 0
    tot = {}
    incompl, reach, viol, outside, samples, funcs = {}, {}, {}, {}, [], {}
    confirmed, unconfirmed, knownhit = [], [], set()
    validated = 0
    rep = os.path.join(VERIF, 'build', 'replay', pid)
    mkdirs(rep)
    tmpdir = tempfile.mkdtemp(prefix='symtvm_%s_' % pid, dir=BUILD)
    labels = set()
    units = set()
    try:
        eng = engine()
        for h in hs:
            base = os.path.splitext(os.path.basename(h))[0]
            wd = os.path.join(tmpdir, base)
            mkdirs(wd)
            exe = os.path.join(wd, 'sym')
            nat = os.path.join(wd, 'nat')
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                f1 = ex.submit(link, 'sym', eng, h, exe)
                f2 = ex.submit(link, 'nat', eng, h, nat)
                units |= set(f1.result())
                f2.result()
            src = open(h).read()
            for inc in re.findall(r'#include "(p\d+.*\.h)"', src):
                src += open(os.path.join(HARNESS, inc)).read()
            labels |= set(re.findall(r'sym_reach\("([^"]*)"\)', src))
            env = dict(os.environ, VERIF_SEED=str(seed), SYM_KNOWN='\n'.join(k[1] for k in known), MALLOC_PERTURB_='165')
            # the whole check must fit in 900 s, compilation included
            total = m.get('budget', {}).get(tier, 560 if tier == 'quick' else 700)
            budget = max(60, int((total - (time.time() - t0)) / (len(hs) - hs.index(h))))
            r = subprocess.run(['setarch', '-R', exe, wd, str(budget), '1' if tier == 'thorough' else '0', str(JOBS)],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 150)
            if os.environ.get('SYM_VERBOSE'):
                sys.stderr.write(r.stdout + r.stderr)
            res = os.path.join(wd, 'result.txt')
            if not os.path.exists(res):
                incompl['the engine did not produce a result: ' + r.stderr[-300:]] = 1
                continue
            pcs = []
            for l in open(res, errors='replace'):
                k, v, t = l.rstrip('\n').split('\t', 2)
                if k == 'stat':
                    tot[t] = tot.get(t, 0) + int(v)
                elif k == 'incomplete':
                    incompl[t] = incompl.get(t, 0) + int(v)
                elif k == 'reach':
                    reach[t] = reach.get(t, 0) + int(v)
                elif k == 'outside':
                    outside[t] = outside.get(t, 0) + int(v)
                elif k == 'viol':
                    viol[t] = viol.get(t, 0) + int(v)
                elif k == 'sample':
                    samples.append('%s: %s' % (base, t))
                elif k == 'pc':
                    pcs.append(int(v, 16))
            for n, c in symbols(exe, pcs).items():
                funcs[n] = funcs.get(n, 0) + c
            ti = 1 if tier == 'thorough' else 0
            # replay of the candidates
            cands = sorted(glob.glob(wd + '/cand_*.txt'), key=lambda p: int(re.findall(r'cand_(\d+)', p)[0]))
            done = {}
            for c in cands:
                msg = open(c).readline()[2:].strip()
                if done.get(msg) == 'ok' or list(done).count(msg) > 6:
                    continue
                rc, out = run_native(nat, c, ti)
                validated += 1
                if rc not in (0, 4):
                    done[msg] = 'ok'
                    line = next((x for x in out.splitlines() if x.startswith('REPLAY-FAIL')), 'REPLAY-FAIL ?')
                    full = msg + ' | ' + line[12:]
                    hit = [k for k in known if k[1] in msg]
                    if hit:
                        knownhit.update(hit)
                    else:
                        dst = os.path.join(rep, '%s_%s' % (base, os.path.basename(c)))
                        shutil.copy(c, dst)
                        confirmed.append((full, dst))
                else:
                    done.setdefault(msg, 'no')
            for msg, st in done.items():
                if st == 'no':
                    hit = [k for k in known if k[1] in msg]
                    unconfirmed.append(msg)
            # cross-validation of explored paths on the native build
            traces = sorted(glob.glob(wd + '/trace_*.txt'))
            if not viol:
                with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                    for tr, (rc, out) in zip(traces, ex.map(lambda x: run_native(nat, x, ti), traces)):
                        if rc == 0:
                            validated += 1
                        elif rc == 4:
                            pass
                        else:
                            line = next((x for x in out.splitlines() if x.startswith('REPLAY-FAIL')), 'REPLAY-FAIL ?')
                            dst = os.path.join(rep, '%s_%s' % (base, os.path.basename(tr)))
                            shutil.copy(tr, dst)
                            confirmed.append(('native run of an explored path: ' + line[12:], dst))
    except BuildError as e:
        print('BUILD-ERROR', e)
        incompl['build error'] = 1
    finally:
        if os.environ.get('SYM_KEEP'):
            print('kept: ' + tmpdir)
        else:
            shutil.rmtree(tmpdir, ignore_errors=True)

    missing = sorted(l for l in labels if not reach.get(l))
    for k in known:
        if k in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
        elif not confirmed and not incompl:
            print('note: the known finding "%s" no longer occurs' % k[1])
    # a deep exploration holds on what was explored, which the evidence reports as not exhaustive
    cut_ok = {'time budget exhausted'}
    nv = 0
    if confirmed:
        code = 1
        seen = set()
        for msg, p in confirmed:
            if msg in seen:
                continue
            seen.add(msg)
            nv += 1
            print('counterexample: %s' % msg)
        print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][1]))
    elif unconfirmed or (set(incompl) - (cut_ok if tier == 'thorough' else set())) or (missing and not (tier == 'thorough' and incompl)):
        code = 2
    for u in unconfirmed:
        print('UNCONFIRMED: solver model not reproduced natively: %s' % u)
    for k, v in incompl.items():
        print('INCOMPLETE: %s (%d)' % (k, v))
    for l in missing:
        print('VACUOUS: %s never reached' % l)
    tvm = sorted([(c, n) for n, c in funcs.items() if 'tvm::' in n], reverse=True)
    cov = {
        'states': tot.get('paths', 0),
        'transitions': tot.get('forks', 0) + tot.get('decisions', 0),
        'traces_validated_against_impl': validated,
        'samples': samples[:6],
        'exhaustive': not incompl and code == 0,
        'paths': tot.get('paths', 0),
        'symbolic_decisions': tot.get('decisions', 0),
        'solver_queries': tot.get('queries', 0),
        'queries_unsat': tot.get('qunsat', 0), 'queries_sat': tot.get('qsat', 0), 'queries_unknown': tot.get('qunk', 0),
        'solver_time_s': round(tot.get('solver_us', 0) / 1e6, 3),
        'obligations_checked': tot.get('checks', 0),
        'obligations_by_solver': tot.get('checksSolver', 0),
        'obligations_by_term_identity': tot.get('checksId', 0),
        'obligations_by_polynomial_identity': tot.get('checksPoly', 0),
        'polynomial_identities_confirmed_by_solver': tot.get('polyConfirmed', 0),
        'obligations_concrete_on_a_path': tot.get('checksConc', 0),
        'obligations_equal_up_to_rounding': tot.get('rounding', 0),
        'symbolic_operations': tot.get('symops', 0),
        'functions_encoded': [n[:160] for c, n in tvm][:60],
        'functions_encoded_count': len(tvm),
        'translation_units': sorted(os.path.relpath(u, REPO) for u in units),
        'bounds': m.get('bounds', ''),
        'paths_outside_model': outside,
        'reached': reach,
        'incomplete': incompl,
        'explanation': 'Symbolic execution of the compiled LLVM IR of the listed translation units, regenerated from /repo on this run; '
                       'states = complete paths, transitions = forks + solver-decided branches.',
    }
    ev['coverage'] = cov
    ev['violations'] = nv
    ev['wall_s'] = round(time.time() - t0, 2)
    mkdirs(os.path.join(VERIF, 'evidence'))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d decisions, %d queries (%d unsat, %d sat, %d unknown), %.2f s solver, %d obligations (%d solver, %d identity, %d poly, %d concrete), %d validated natively, %.1f s, exit %d'
          % (pid, tier, tot.get('paths', 0), tot.get('decisions', 0), tot.get('queries', 0), tot.get('qunsat', 0), tot.get('qsat', 0), tot.get('qunk', 0),
             tot.get('solver_us', 0) / 1e6, tot.get('checks', 0), tot.get('checksSolver', 0), tot.get('checksId', 0), tot.get('checksPoly', 0),
             tot.get('checksConc', 0), validated, ev['wall_s'], code))
    return code


def setup():
    eng = engine()
    s, n = Objs('sym', eng), Objs('nat', eng)
    hs = sorted(glob.glob(HARNESS + '/[A-Z]*.cpp'))
    jobs = [(o, f) for f in hs + sources() for o in (s, n)]
    errs = []

    def one(j):
        try:
            j[0].compile(j[1])
        except BuildError as e:
            errs.append(str(e))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    for e in errs:
        print('BUILD-ERROR', e)
    # prime the link hints
    d = tempfile.mkdtemp(dir=BUILD)
    for h in hs:
        try:
            link('sym', eng, h, d + '/x')
        except BuildError as e:
            errs.append(str(e))
            print('LINK-ERROR', h, e)
    shutil.rmtree(d)
    return 1 if errs else 0


def gc():
    for mode in ('sym', 'nat'):
        d = os.path.join(BUILD, 'obj', mode)
        by = {}
        for f in glob.glob(d + '/*.dep'):
            by.setdefault(os.path.basename(f).split('.')[0], []).append(f)
        for k, l in by.items():
            for f in sorted(l, key=os.path.getmtime)[:-3]:
                for x in (f, f[:-4] + '.o'):
                    if os.path.exists(x):
                        os.unlink(x)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup':
        sys.exit(setup())
    if a[0] == 'gc':
        gc()
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    if a[0] == 'replay':
        eng = engine()
        h = harness_of(a[1])
        f = a[2]
        hh = [x for x in h if os.path.basename(f).startswith(os.path.splitext(os.path.basename(x))[0] + '_')] or h
        hh.sort(key=len, reverse=True)
        d = tempfile.mkdtemp(dir=BUILD)
        link('nat', eng, hh[0], d + '/nat')
        rc, out = run_native(d + '/nat', f, 0)
        shutil.rmtree(d)
        print(out)
        sys.exit(rc)
