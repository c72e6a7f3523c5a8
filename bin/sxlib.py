"""Build, run, replay and report: the driver behind every check (see DESIGN.md)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
NCPU = os.cpu_count() or 4
ENG = os.path.join(VERIF, 'engine')
HAR = os.path.join(VERIF, 'harness')

COMMON = ['-std=c++17', '-DHAVE_CSTDDEF', '-DGRAZER_VERSION=0.2.4', '-D_GLIBCXX_ASSERTIONS', '-Wno-everything', '-fPIC']
SXFLAGS = COMMON + ['-O1', '-gline-tables-only', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
                    '-DEIGEN_DONT_VECTORIZE', '-DSX_SYMBOLIC=1']
NATFLAGS = ['-std=c++17', '-DHAVE_CSTDDEF', '-DGRAZER_VERSION=0.2.4', '-D_GLIBCXX_ASSERTIONS', '-w', '-fPIC', '-O0']
# not part of the built program here: third-party glue that needs libraries the sandbox does not have, and main functions
EXCLUDE = {'Grazer/grazer.cpp', 'IpoptWrapper/Adaptor.cpp', 'Optimization_helpers/EquationDerivativeCache.cpp',
           'Auxillary/Matrixhandler/Costgradienthandler.cpp'}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def fhash(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return 'missing'


class BuildError(Exception):
    pass


_hcache = {}


def chash(path):
    st = os.stat(path) if os.path.exists(path) else None
    k = (path, st.st_mtime_ns if st else 0, st.st_size if st else -1)
    if k not in _hcache:
        _hcache[k] = fhash(path)
    return _hcache[k]


def ensure_dir(d):
    os.makedirs(d, exist_ok=True)
    return d


def atomic_build(out, cmdf):
    tmp = out + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
    r = sh(cmdf(tmp))
    if r.returncode != 0:
        try:
            os.remove(tmp)
        except OSError:
            pass
        raise BuildError('%s\n%s' % (' '.join(cmdf(tmp)), r.stdout[-6000:]))
    os.rename(tmp, out)


def tools():
    """Builds the pass plugin and the runtime (keyed by their sources)."""
    ensure_dir(CACHE)
    src = [os.path.join(ENG, p) for p in ('pass/SxPass.cpp', 'rt/rt.cpp', 'rt/poly.hpp', 'include/sx.hpp')]
    hp = hashlib.sha256(fhash(src[0]).encode()).hexdigest()[:16]
    hr = hashlib.sha256(''.join(fhash(s) for s in src[1:]).encode()).hexdigest()[:16]
    P = os.path.join(CACHE, 'SxPass-%s.so' % hp)
    R = os.path.join(CACHE, 'libsxrt-%s.so' % hr)
    jobs = []
    if not os.path.exists(P):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        jobs.append((P, lambda o: ['clang++-18', '-fPIC', '-shared', '-O1'] + fl + ['-fno-rtti', src[0], '-o', o]))
    if not os.path.exists(R):
        jobs.append((R, lambda o: ['g++', '-std=c++17', '-O2', '-fPIC', '-shared', '-fvisibility=hidden', '-Wl,-Bsymbolic',
                                   '-I' + Z3 + '/include', src[1], '-o', o, '-L' + Z3 + '/lib', '-lz3',
                                   '-Wl,-rpath,' + Z3 + '/lib', '-lgmpxx', '-lgmp']))
    # precompiled third-party headers
    inc = ['-I' + os.path.join(ENG, 'include')] + sysincludes()
    h = os.path.join(ENG, 'pch/pch.hpp')
    kp = hashlib.sha256(json.dumps([fhash(h), fhash(os.path.join(ENG, 'include/nlohmann/detail/conversions/to_chars.hpp')), fhash(os.path.join(ENG, 'include/nlohmann/detail/input/lexer.hpp')), SXFLAGS, NATFLAGS, inc]).encode()).hexdigest()[:16]
    d = os.path.join(CACHE, 'pch-' + kp)
    ensure_dir(d)
    if not os.path.exists(os.path.join(d, 'pch.hpp')):
        shutil.copy(h, os.path.join(d, 'pch.hpp.tmp'))
        os.rename(os.path.join(d, 'pch.hpp.tmp'), os.path.join(d, 'pch.hpp'))
    sxp, natp = os.path.join(d, 'sx.pch'), os.path.join(d, 'pch.hpp.gch')
    if not os.path.exists(sxp):
        jobs.append((sxp, lambda o: ['clang++-18'] + SXFLAGS + inc + ['-fpch-instantiate-templates', '-Xclang', '-fno-pch-timestamp', '-x', 'c++-header', os.path.join(d, 'pch.hpp'), '-o', o]))
    if not os.path.exists(natp):
        jobs.append((natp, lambda o: ['g++'] + NATFLAGS + inc + ['-x', 'c++-header', os.path.join(d, 'pch.hpp'), '-o', o]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: atomic_build(*j), jobs))
    return P, R, sxp, os.path.join(d, 'pch.hpp')


def sysincludes():
    inc = []
    for x in ('/usr/include/eigen3', '/opt/vp/ipopt/include/coin-or', REPO + '/pcg-cpp/include', REPO + '/Randutils/include', REPO + '/CLI11/include'):
        if os.path.isdir(x):
            inc += ['-isystem', x]
    return inc


def includes():
    inc = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        if os.path.basename(d) == 'include':
            inc.append('-I' + d)
    inc += ['-I' + os.path.join(ENG, 'include'), '-I' + HAR, '-I' + os.path.join(HAR, 'stubs')]
    inc += sysincludes()
    return inc


def sources():
    out = []
    base = os.path.join(REPO, 'src')
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.cpp'):
                rel = os.path.relpath(os.path.join(d, f), base)
                if rel not in EXCLUDE:
                    out.append(rel)
    return out


def parse_deps(depfile):
    with open(depfile) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    return [x for x in t.split() if x]


def compile_one(path, mode, tool, extra=()):
    """Compiles one source in mode 'sx' or 'nat'; objects are cached by the content of everything that was included."""
    P, R, sxp, natp = tool
    inc = includes()
    if mode == 'sx':
        base = ['clang++-18'] + SXFLAGS + ['-include-pch', sxp, '-fpass-plugin=' + P] + list(extra) + inc
    elif mode == 'sxplain':
        base = ['clang++-18'] + SXFLAGS + list(extra) + inc
    else:
        base = ['g++'] + NATFLAGS + ['-include', natp] + list(extra) + inc
    key = hashlib.sha256('\0'.join([mode, path, ' '.join(base)]).encode()).hexdigest()[:24]
    d = ensure_dir(os.path.join(CACHE, 'obj'))
    man = os.path.join(d, key + '.json')
    try:
        with open(man) as f:
            for ent in json.load(f):
                if all(chash(p) == h for p, h in ent['deps']) and os.path.exists(ent['obj']):
                    return ent['obj']
    except (OSError, ValueError):
        pass
    tmp = tempfile.mkdtemp(prefix='cc', dir=d)
    try:
        o, dep = os.path.join(tmp, 'o.o'), os.path.join(tmp, 'o.d')
        r = sh(base + ['-MMD', '-MF', dep, '-c', path, '-o', o])
        if r.returncode != 0:
            raise BuildError('compiling %s (%s):\n%s' % (path, mode, r.stdout[-5000:]))
        deps = [(p, chash(p)) for p in parse_deps(dep) if not p.startswith('/usr/')]
        if path not in [p for p, _ in deps]:
            deps.append((path, chash(path)))
        h = hashlib.sha256(json.dumps([key, deps]).encode()).hexdigest()[:24]
        obj = os.path.join(d, h + '.o')
        os.rename(o, obj)
        ents = []
        try:
            with open(man) as f:
                ents = json.load(f)
        except (OSError, ValueError):
            pass
        ents = [e for e in ents if e['obj'] != obj][-3:] + [dict(obj=obj, deps=deps)]
        with open(man + '.t%d' % os.getpid(), 'w') as f:
            json.dump(ents, f)
        os.rename(man + '.t%d' % os.getpid(), man)
        return obj
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_harness(h, tool, workdir):
    """h: dict(src=..., uses=[path prefixes below /repo/src], stubs=[harness-side sources]).  Returns (sx exe, native exe)."""
    uses = h.get('uses')
    srcs = sources() + [e for e in sorted(EXCLUDE) if uses and e[:-4] in uses]
    sel = [s for s in srcs if uses is None or any(s == u or s.startswith(u) for u in uses)]
    own = [os.path.join(HAR, h['src'])] + [os.path.join(HAR, s) for s in h.get('stubs', [])]
    defs = ['-D%s=%s' % kv for kv in sorted(h.get('defs', {}).items())]
    if h.get('main'):
        defs.append('-DSX_MAIN="%s"' % os.path.join(REPO, 'src', h['main']))

    def attempt(sel, tolerant):
        tasks = []
        for m in ('sx', 'nat'):
            for s in own:
                tasks.append((s, m, defs, False))
        tasks.append((os.path.join(ENG, 'rt/main.cpp'), 'sxplain', [], False))
        tasks.append((os.path.join(ENG, 'rt/native.cpp'), 'nat', [], False))
        for s in sel:
            for m in ('sx', 'nat'):
                tasks.append((os.path.join(REPO, 'src', s), m, [], True))

        def comp(t):
            try:
                return compile_one(t[0], t[1], tool, t[2])
            except BuildError:
                if tolerant and t[3]:
                    return None
                raise
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(comp, tasks))
        name = h['name']
        # programs of their own: their main becomes tool_<name>
        for t in h.get('tools', []):
            for m in ('sx', 'nat'):
                o = compile_one(os.path.join(REPO, 'helper_functions', t + '.cpp'), m, tool)
                c = os.path.join(workdir, '%s.%s.%s.o' % (name, t, m))
                # symbols of one program may have the name of symbols of another
                mine = [x.split()[-1] for x in sh(['nm', '--defined-only', o]).stdout.splitlines() if len(x.split()) == 3 and x.split()[1] in 'TDBR']
                r = sh(['objcopy', '--redefine-sym', 'main=tool_' + t] + ['--localize-symbol=' + x for x in mine if x != 'main'] + [o, c])
                if r.returncode:
                    raise BuildError(r.stdout)
                objs.append(c)
                tasks.append((t, m, [], False))
        sx, nat = os.path.join(workdir, name + '.sx'), os.path.join(workdir, name + '.nat')

        def lib(tag, modes):
            o = [x for x, t in zip(objs, tasks) if x and t[3] and t[1] in modes]
            a = os.path.join(workdir, name + '.' + tag + '.a')
            if os.path.exists(a):
                os.remove(a)
            r = sh(['ar', 'rcsT', a] + o)
            if r.returncode:
                raise BuildError(r.stdout)
            return [x for x, t in zip(objs, tasks) if x and not t[3] and t[1] in modes] + [a]
        sxo, nato = lib('sx', ('sx', 'sxplain')), lib('nat', ('nat',))
        wraps = ['-Wl,--wrap=' + w for w in h.get('wrap', [])]
        links = [['clang++-18', '-pie'] + sxo + wraps + ['-Wl,--version-script=' + os.path.join(ENG, 'exe.map')] + ['-Wl,--export-dynamic-symbol=' + f for f in h.get('interpose', [])] + [tool[1], '-Wl,-rpath,' + os.path.dirname(tool[1]), '-o', sx, '-ldl'],
                 ['g++'] + nato + wraps + ['-o', nat, '-ldl']]
        with ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(sh, links))
        return rs, sx, nat

    rs, sx, nat = attempt(sel, False)
    if any(r.returncode for r in rs):
        sys.stderr.write('note: %s needs more sources: %s\n' % (h['name'], '; '.join(sorted(set(re.findall(r"undefined reference to `([^']*)'", rs[1].stdout)))[:8])))
        if len(sel) < len(srcs):
            rs, sx, nat = attempt(srcs, True)
        if any(r.returncode for r in rs):
            raise BuildError('linking %s:\n%s' % (h['name'], '\n'.join(r.stdout[-3000:] for r in rs if r.returncode)))
    return sx, nat


def run_harness(h, exes, workdir, tier, jobs, budget, log):
    sx, nat = exes
    out = ensure_dir(os.path.join(workdir, h['name'] + '.out'))
    env = dict(os.environ)
    params = dict(h.get('params', {}))
    params.update(h.get(tier, {}))
    for k, v in params.items():
        env['SXP_' + k] = str(v)
    scratch = ensure_dir(os.path.join(workdir, h['name'] + '.scratch'))
    env['SX_SCRATCH'] = scratch
    cmd = [sx, '-o', out, '-n', h['name'], '-t', str(budget), '-j', str(jobs), '-w', str(h.get('witnesses', 8))]
    if 'qtimeout' in h:
        cmd += ['-q', str(h['qtimeout'])]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', env=env,
                           timeout=budget + 120, cwd=scratch, start_new_session=True)
        err = r.stderr
    except subprocess.TimeoutExpired as e:
        err = 'timeout'
        subprocess.run(['pkill', '-9', '-f', sx])
    recs = []
    try:
        with open(os.path.join(out, 'log.jsonl')) as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    recs.append(dict(kind='inconclusive', what='unreadable log line: ' + line[:200]))
    except OSError:
        pass
    summ = [x for x in recs if x.get('kind') == 'summary']
    funcs = set()
    try:
        with open(os.path.join(out, 'functions.txt')) as f:
            funcs = set(l.strip() for l in f if l.strip())
    except OSError:
        pass
    res = dict(name=h['name'], summary=summ[0] if summ else None, recs=recs, funcs=funcs, err=err, env={k: v for k, v in env.items() if k.startswith('SX')},
               wall=time.time() - t0, nat=nat, params=params)
    return res


def native(nat, wit, env, timeout=120):
    e = dict(os.environ)
    e.update(env)
    sc = tempfile.mkdtemp(prefix='nat')
    e['SX_SCRATCH'] = sc
    try:
        r = subprocess.run([nat, wit], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=e, timeout=timeout, cwd=sc)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, 'TIMEOUT'
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def parse_obs(path):
    obs = []
    with open(path) as f:
        for l in f:
            p = l.rstrip('\n').split(' ')
            if p[0] == 'obs2':
                obs.append((' '.join(p[3:]), float(p[1]), float(p[2])))
            elif p[0] == 'obs1':
                obs.append((' '.join(p[2:]), float(p[1]), None))
    return obs


def validate_witness(nat, wit, env):
    """Replays a path witness natively and compares every observed value with the encoding's evaluation."""
    rc, out = native(nat, wit, env)
    if rc != 0:
        return False, 'exit %s: %s' % (rc, out[-600:])
    exp = parse_obs(wit)
    got = []
    for l in out.splitlines():
        p = l.split(' ')
        if p[0] == 'OBS2':
            got.append((' '.join(p[3:]), float(p[1]), float(p[2])))
        elif p[0] == 'OBS1':
            got.append((' '.join(p[2:]), float(p[1]), None))
    if len(got) != len(exp):
        return False, 'number of observations %d (native) vs %d (encoding)' % (len(got), len(exp))
    for (l1, a1, b1), (l2, a2, b2) in zip(exp, got):
        if l1 != l2:
            return False, 'label %s vs %s' % (l1, l2)
        for x, y in ((a1, a2), (b1, b2)):
            if x is None:
                continue
            if x != x or y != y or abs(x) == float('inf'):
                continue
            if abs(x - y) > 1e-6 + 1e-4 * (abs(x) + abs(y)):
                return False, '%s: encoding %r, native %r' % (l1, x, y)
    return True, ''
