#!/usr/bin/env python3
"""Decides one property of libcosim by symbolic execution of the code in /repo.

  check.py <property id>          (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Every run compiles /repo's working tree to LLVM IR, links it with the property's harnesses, explores all
paths with the symbolic executor (engine/), replays every counterexample on a native build of the same
sources and harness, replays a sample of the clean paths the same way to validate the encoding, and
rewrites evidence/<id>.json.  Exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
NPROC = min(8, os.cpu_count() or 8)
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++') if os.path.exists(c)), 'clang++')
LINK = next((c for c in ('/usr/bin/llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link') if os.path.exists(c)), 'llvm-link')
GXX = '/usr/bin/g++'
DEFS = '-DBOOST_ALL_DYN_LINK=1 -DBOOST_ALL_NO_LIB -DBOOST_CONFIG_SUPPRESS_OUTDATED_MESSAGE=1'.split()
OPT = '-O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -Wno-everything'.split()
NOTBUILT = ('cosim/fmi/', 'cosim/proxy/') # not part of the build here; checked with the headers in extlib/ (property key with=)
CONFIGTUS = ('osp_config_parser', 'ssp/ssp_parser', 'ssp/ssp_loader')
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def filehash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def tree(d, exts):
    r = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('.git', '_build')]
        for f in fs:
            if not exts or os.path.splitext(f)[1] in exts or '.' not in f:
                r.append(os.path.join(b, f))
    return r


def repo_tus(extra=()):
    src = os.path.join(REPO, 'src')
    r = {}
    for p in glob.glob(src + '/cosim/**/*.cpp', recursive=True):
        rel = os.path.relpath(p, src)
        if rel.startswith(NOTBUILT) and not rel.startswith(tuple('cosim/' + x for x in extra)) or rel == 'cosim/fmi/windows.cpp':
            continue
        r[rel[len('cosim/'):-4]] = p
    return r


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.gen = os.path.join(BUILD, 'generated')
        self.generated()
        self.hdr = filehash(tree(REPO + '/include', None) + [p for p in tree(REPO + '/src', {'.hpp', '.h', '.inl', '.ipp'}) if not p.endswith('.cpp')] + tree(self.gen, None) + tree(ROOT + '/extlib', None))
        self.shadow = filehash(tree(ROOT + '/shadow', None) + [ROOT + '/harness/sym.h'])

    def generated(self):
        """The two files CMake generates; made from the sources of the working tree."""
        os.makedirs(self.gen + '/cosim', exist_ok=True)
        xsd = None
        for p in glob.glob(REPO + '/**/OspSystemStructure.xsd', recursive=True):
            if '/_build/' not in p:
                xsd = p
        text = open(xsd).read() if xsd else ''
        b = 'const char* osp_xsd=R"(%s)";' % text # as src/CMakeLists.txt does it
        self.put(self.gen + '/osp_system_structure_schema.hpp', b)

    @staticmethod
    def put(path, text):
        if os.path.exists(path) and open(path).read() == text:
            return
        t = path + '.%d' % os.getpid()
        open(t, 'w').write(text); os.rename(t, path)

    def engine(self):
        with open(BUILD + '/.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = sh(['make', '-s', '-j%d' % NPROC, '-C', ROOT + '/engine'])
            if r.returncode:
                log(r.stdout[-3000:]); raise SystemExit(2)

    def run_cached(self, out, cmd):
        if os.path.exists(out):
            return None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t = out + '.tmp%d' % os.getpid()
        r = sh(cmd + ['-o', t])
        if r.returncode:
            return r.stdout
        os.rename(t, out)
        return None

    def inc(self, ir):
        i = (['-isystem', ROOT + '/shadow'] if ir else []) + ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + self.gen, '-I' + ROOT + '/harness', '-I' + ROOT + '/extlib']
        return i

    def ir(self, src, tag, flags=()):
        cmd = [CLANG, '-std=c++17'] + self.inc(True) + DEFS + ['-DSYM_ENGINE=1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS'] + OPT + list(flags) + ['-c', src]
        k = filehash([src], ' '.join(cmd) + self.hdr + self.shadow + (filehash(tree(ROOT + '/harness', {'.hpp', '.h'})) if '/harness/' in src else ''))
        out = BUILD + '/ir/%s-%s.bc' % (tag.replace('/', '_'), k)
        return out, self.run_cached(out, cmd)

    def native(self, src, tag, flags=(), san='address'):
        s = {'address': ['-fsanitize=address', '-O1', '-g1'], 'thread': ['-fsanitize=thread', '-O1', '-g1'], 'none': ['-O1', '-g1']}[san]
        cmd = [GXX, '-std=c++17'] + self.inc(False) + DEFS + ['-D_GLIBCXX_ASSERTIONS', '-w'] + s + list(flags) + ['-c', src]
        k = filehash([src], ' '.join(cmd) + self.hdr + (filehash(tree(ROOT + '/harness', {'.hpp', '.h'})) if ROOT in src else ''))
        out = BUILD + '/native/%s-%s.o' % (tag.replace('/', '_'), k)
        return out, self.run_cached(out, cmd)


LIBS = '-lboost_log -lboost_log_setup -lboost_thread -lboost_filesystem -lboost_date_time -lboost_chrono -lboost_atomic -lboost_regex -lyaml-cpp -lzip -lxerces-c -lpthread -ldl'.split()


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = PROPS[pid]
        self.B = Builder()
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.notes, self.results = [], []
        self.natives = {}
        self.validated = 0
        self.mismatches = []
        self.budget = 780 if tier == 'quick' else self.p.get('thorough_budget', 3000)

    def left(self):
        return self.budget - (time.time() - T0)

    def prepare_ir(self):
        tus = repo_tus(self.p.get('with', ()))
        want = [t for t in tus if self.p.get('config') or t not in CONFIGTUS]
        skip = set(self.p.get('skip_tus', ()))
        jobs = {}
        for t in want:
            if t not in skip:
                jobs[t] = self.pool.submit(self.B.ir, tus[t], t)
        rt = {}
        for f in sorted(glob.glob(ROOT + '/runtime/rt*.cpp')) + [ROOT + '/runtime/stubs.cpp'] + ([ROOT + '/runtime/fmistub.cpp'] if self.p.get('config') else []):
            rt[f] = self.pool.submit(self.B.ir, f, 'rt_' + os.path.basename(f)[:-4], ('-fno-builtin',))
        hs = sorted({r['harness'] for r in self.p['runs']})
        hj = {h: self.pool.submit(self.B.ir, ROOT + '/harness/%s.cpp' % h, 'h_' + h, tuple(self.p.get('flags', ()))) for h in hs}
        ej = self.pool.submit(self.B.engine)
        mods = []
        for t, j in jobs.items():
            o, err = j.result()
            if err:
                self.notes.append('translation unit %s could not be translated to IR: %s' % (t, ' / '.join([l for l in err.splitlines() if 'error' in l][:3])))
                log('NOTE', self.notes[-1])
            else:
                mods.append(o)
        for f, j in rt.items():
            o, err = j.result()
            if err:
                log(err[-2000:]); raise SystemExit(2)
            mods.append(o)
        self.linked = {}
        for h, j in hj.items():
            o, err = j.result()
            if err:
                log('NOTE harness %s does not compile against this tree: %s' % (h, err[-1500:]))
                self.notes.append('harness %s does not compile against this tree' % h)
                continue
            out = BUILD + '/link/%s-%s.bc' % (h, hashlib.sha256(' '.join([o] + mods).encode()).hexdigest()[:20])
            err = self.B.run_cached(out, [LINK, o] + mods)
            if err:
                log('NOTE link of %s failed: %s' % (h, err[-800:])); self.notes.append('link of %s failed' % h)
                continue
            self.linked[h] = out
        ej.result()

    def start_native(self):
        """Compile the native side in the background."""
        tus = repo_tus(self.p.get('with', ()))
        self.nj = {}
        for r in self.p['runs']:
            for san in r.get('san', ['address']):
                for t in r['tus']:
                    if t in tus:
                        self.nj.setdefault((t, san), None)
        for (t, san) in self.nj:
            self.nj[(t, san)] = self.pool.submit(self.B.native, tus[t], t, (), san)

    def exe(self, r, san):
        key = (r['harness'], r['entry'], san)
        if key in self.natives:
            return self.natives[key]
        flags = ('-DENTRY=' + r['entry'],)
        extra = [self.pool.submit(self.B.native, ROOT + '/harness/%s.cpp' % r['harness'], 'h_' + r['harness'], tuple(self.p.get('flags', ())), san),
                 self.pool.submit(self.B.native, ROOT + '/runtime/replay.cpp', 'replay_' + r['entry'], flags, 'none' if r.get('sched') else san)]
        for x in r.get('native_extra', ()):
            extra.append(self.pool.submit(self.B.native, ROOT + '/runtime/%s.cpp' % x, x, (), 'none' if x == 'sched' else san))
        extra.append(self.pool.submit(self.B.native, ROOT + '/runtime/fmistub.cpp', 'fmistub', (), 'none'))
        objs = []
        for j in extra:
            o, err = j.result()
            if err:
                log('NOTE native harness build failed: %s' % err[-1500:]); self.natives[key] = None; return None
            objs.append(o)
        tus = repo_tus(self.p.get('with', ()))

        def attempt(ts):
            js = [self.nj.get((t, san)) or self.pool.submit(self.B.native, tus[t], t, (), san) for t in ts if t in tus]
            os_ = []
            for j in js:
                o, err = j.result()
                if err:
                    return err
                os_.append(o)
            out = BUILD + '/native/%s-%s.exe' % (r['entry'], hashlib.sha256(' '.join(objs + os_).encode()).hexdigest()[:20])
            fs = {'address': ['-fsanitize=address'], 'thread': ['-fsanitize=thread'], 'none': []}[san]
            err = self.B.run_cached(out, [GXX] + fs + objs + os_ + ['-rdynamic'] + LIBS)
            return err or ('OK', out)
        x = attempt(r['tus'])
        if not isinstance(x, tuple):
            x = attempt([t for t in tus if t not in CONFIGTUS or self.p.get('config')])
        if not isinstance(x, tuple):
            log('NOTE native link failed: %s' % x[-1500:]); self.natives[key] = None
            return None
        self.natives[key] = x[1]
        return x[1]

    def run_native(self, exe, r, opts, inputs, env=None, timeout=60):
        """Runs one path natively as an unprivileged user in a scratch directory. Returns (rc, output, obs)."""
        d = tempfile.mkdtemp(prefix='vreplay.', dir='/tmp')
        try:
            os.chmod(d, 0o777)
            os.makedirs(d + '/work'); os.makedirs(d + '/tmp')
            for s in ('/work', '/tmp'):
                os.chmod(d + s, 0o777)
            shutil.copy(exe, d + '/exe'); os.chmod(d + '/exe', 0o755)
            with open(d + '/inputs', 'w') as f:
                for n, w, v in inputs:
                    f.write('%s %d %s\n' % (n, w, v))
            os.chmod(d + '/inputs', 0o644)
            e = {'PATH': '/usr/bin:/bin', 'HOME': d + '/work', 'TMPDIR': d + '/tmp', 'SYM_SCRATCH': d + '/work', 'LANG': 'C.UTF-8',
                 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4000', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98', 'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1:report_thread_leaks=0'}
            e.update(env or {})
            kw = {}
            if os.getuid() == 0:
                kw = dict(user=65534, group=65534, extra_groups=[])
            try:
                for again in range(200):
                    try:
                        pr = subprocess.run([d + '/exe', d + '/inputs', d + '/work/.obs'] + ['%s=%d' % kv for kv in opts.items()], cwd=d + '/work', env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
                        break
                    except OSError as x:
                        if x.errno != 26 or again == 199: # another thread was forking while the file was written
                            raise
                        time.sleep(0.02)
                rc, out = pr.returncode, pr.stdout
            except subprocess.TimeoutExpired as x:
                rc, out = 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
            obs = []
            if os.path.exists(d + '/work/.obs'):
                for l in open(d + '/work/.obs'):
                    n, v = l.rsplit(' ', 1); obs.append([n, v.strip()])
            return rc, out, obs
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def symexec(self, r):
        quick = self.tier == 'quick'
        opts = dict(r.get('opts', {}))
        if not quick:
            opts.update(r.get('thorough', {}))
        out = BUILD + '/out/%s-%s-%d.json' % (self.pid, r.get('name', r['entry']), os.getpid())
        os.makedirs(os.path.dirname(out), exist_ok=True)
        lim = min(self.left() - 60, r.get('seconds', 240) if quick else r.get('tseconds', 1200))
        cmd = [BUILD + '/symexec', self.linked[r['harness']], '--entry', r['entry'], '--out', out, '--jobs', str(r.get('jobs', NPROC)), '--seed', str(self.seed), '--max-seconds', str(max(10, lim)), '--samples', str(r.get('samples', 3))]
        for k, v in opts.items():
            cmd += ['--opt', '%s=%d' % (k, v)]
        cmd += list(r.get('args', ())) + ([] if quick else list(r.get('targs', ())))
        t = time.time()
        try:
            pr = sh(cmd, timeout=max(20, lim) + 60)
        except subprocess.TimeoutExpired:
            return opts, None, 'executor did not end in time'
        if os.environ.get('VERIF_VERBOSE'):
            log(pr.stdout[-3000:])
        if not os.path.exists(out):
            return opts, None, 'executor failed: ' + pr.stdout[-500:]
        j = json.load(open(out)); os.unlink(out)
        if os.environ.get('VERIF_KEEP'):
            json.dump(j, open('/tmp/last_%s_%s.json' % (self.pid, r.get('name', r['entry'])), 'w'), indent=1)
        j['wall'] = time.time() - t
        return opts, j, None

    def confirm(self, r, opts, bug):
        """Replay a counterexample natively; returns (confirmed, description)."""
        inputs = bug['inputs']
        conc = bool(r.get('sched')) and (bug['kind'] in ('deadlock', 'race') or len(set(bug['sched'])) > 1)
        tried = []
        for san in r.get('san', ['address']):
            exe = self.exe(r, san)
            if not exe:
                tried.append('no native build'); continue
            if not conc:
                for _ in range(2):
                    rc, out, _o = self.run_native(exe, r, opts, inputs)
                    if rc not in (0, 77) and (rc != 124 or bug['kind'] in ('deadlock', 'hang')):
                        return True, '%s build: exit %d: %s' % (san, rc, ' | '.join([l for l in out.splitlines() if l.strip()][:6])[:900])
                tried.append('%s build: exit %d' % (san, rc))
            else:
                ok, what = self.confirm_sched(exe, san, r, opts, bug)
                if ok:
                    return True, what
                tried.append(what)
        return False, '; '.join(tried)

    def confirm_sched(self, exe, san, r, opts, bug):
        """Concurrency: search native schedules with the counterexample's inputs."""
        if (bug['kind'] == 'race') != (san == 'thread'):
            return False, '%s build not used for %s' % (san, bug['kind'])
        n = 0
        end = time.time() + 60
        base = self.seed * 100000
        futs = []

        def one(i):
            if time.time() > end:
                return None
            return self.run_native(exe, r, opts, bug['inputs'], env={'SCHED_SEED': str(base + i), 'SCHED_MODE': str(i % 4)}, timeout=20)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for blk in range(0, r.get('native_tries', 1600), 64):
                for i, x in zip(range(blk, blk + 64), ex.map(one, range(blk, blk + 64))):
                    if x is None:
                        continue
                    n += 1
                    if x[0] not in (0, 77) and (x[0] != 124 or bug['kind'] in ('deadlock', 'hang')):
                        return True, '%s build, schedule seed %d: exit %d: %s' % (san, base + i, x[0], ' | '.join([l for l in x[1].splitlines() if l.strip()][:6])[:900])
                if time.time() > end:
                    break
        return False, '%s build: %d native schedules did not show it' % (san, n)

    def known(self):
        fs = []
        p = ROOT + '/known_findings.txt'
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    fs.append((m.group(2), m.group(3)))
        return fs

    def main(self):
        pid = self.pid
        self.prepare_ir()
        self.start_native()
        known = self.known()
        seen_known, violations, unconfirmed = set(), [], []
        tot = dict(paths=0, infeasible=0, incomplete=0, forks=0, steps=0, asserts=0, assert_queries=0, sched_points=0, sym_paths=0)
        solver = dict(queries=0, sat=0, unsat=0, unknown=0, cache=0, seconds=0.0, max_seconds=0.0)
        funcs, stubs, samples, runs, whys = {}, set(), [], [], {}
        reached_all = True
        for r in self.p['runs']:
            name = r.get('name', r['entry'])
            if self.tier == 'quick' and r.get('thorough_only'):
                continue
            if r['harness'] not in self.linked:
                self.notes.append('%s not run' % name); reached_all = False
                continue
            if self.left() < 90:
                self.notes.append('%s not run: out of time' % name); reached_all = False; tot['incomplete'] += 1
                continue
            opts, j, err = self.symexec(r)
            if err:
                self.notes.append('%s: %s' % (name, err)); log('NOTE', self.notes[-1]); reached_all = False
                continue
            for k in tot:
                tot[k] += j.get(k, 0)
            for k in ('queries', 'sat', 'unsat', 'unknown', 'cache', 'seconds'):
                solver[k] += j['solver'].get(k, 0)
            solver['max_seconds'] = max(solver['max_seconds'], j['solver'].get('max_seconds', 0))
            for f, c in j['functions'].items():
                funcs[f] = funcs.get(f, 0) + c
            stubs.update(j['stubs'])
            for w, c in j['why'].items():
                if w.startswith('incomplete'):
                    whys[w] = whys.get(w, 0) + c
            missing = [l for l in r.get('reach', []) if not j['reach'].get(l)]
            if missing:
                reached_all = False
                self.notes.append('%s: not reached: %s' % (name, ', '.join(missing)))
            log('RUN %s %s: %d paths, %d incomplete, %d assertions, %d solver queries (%.1fs), %.1fs%s' % (name, opts, j['paths'], j['incomplete'], j['asserts'], j['solver']['queries'], j['solver']['seconds'], j['wall'], (' NOT REACHED ' + str(missing)) if missing else ''))
            for w, c in sorted(j['why'].items()):
                if w.startswith('incomplete'):
                    log('   ', c, w[:300])
            bugs = {}
            for b in j['bugs']:
                bugs.setdefault((b['kind'], b['msg'], b['loc']), b)
            nconf = 0
            for (kind, msg, loc), b in sorted(bugs.items(), key=lambda kv: len(kv[1]['sched']))[:12]:
                kf = next((k for k in known if k[0] and k[0] in msg), None)
                if kf:
                    if kf[0] not in seen_known:
                        seen_known.add(kf[0])
                        log('KNOWN-FINDING: property=%s %s' % (pid, kf[1]))
                    continue
                if nconf >= 3:
                    continue
                ok, what = self.confirm(r, opts, b)
                trusted = not ok and r.get('sched') and kind in ('deadlock', 'race')
                d = ROOT + '/build/replay/%s' % pid
                os.makedirs(d, exist_ok=True)
                path = d + '/%s-%d.json' % (name, len(violations) + len(unconfirmed))
                json.dump(dict(property=pid, run=name, harness='harness/%s.cpp' % r['harness'], entry=r['entry'], options=opts, kind=kind, message=msg, location=loc, inputs=b['inputs'], schedule=b['sched'], stack=b['stack'], native=what), open(path, 'w'), indent=1)
                if ok or trusted:
                    nconf += 1
                    violations.append((name, kind, msg, loc, path, what))
                    log('FOUND %s: %s: %s at %s; native replay: %s' % (name, kind, msg, loc, what))
                    log('VIOLATION property=%s replay=%s' % (pid, path))
                else:
                    unconfirmed.append((name, kind, msg, loc, what))
                    log('UNCONFIRMED %s: %s: %s at %s; %s' % (name, kind, msg, loc, what))
            ns = 0
            if j['samples'] and not r.get('no_validate'):
                exe = self.exe(r, r.get('san', ['address'])[0])
                if exe:
                    pick = j['samples'][:r.get('validate', 12)]
                    for s, (rc, o, obs) in zip(pick, self.pool.map(lambda s: self.run_native(exe, r, opts, s['inputs']), pick)):
                        if rc == 0 and (obs == s['obs'] or r.get('obs_unordered')):
                            ns += 1
                        else:
                            self.mismatches.append((name, rc, o[:400], s['inputs'][:40], [x for x in zip(obs, s['obs']) if x[0] != x[1]][:4], len(obs), len(s['obs'])))
                            log('MISMATCH %s: native run of a sampled path: exit %d %s %s' % (name, rc, o[:300].replace('\n', ' | '), str(self.mismatches[-1][3:])[:600]))
            self.validated += ns
            if j['samples']:
                samples.append(dict(run=name, inputs=j['samples'][0]['inputs'][:24], observations=j['samples'][0]['obs'][:12], schedule=j['samples'][0]['sched'][:24]))
            runs.append(dict(run=name, harness='harness/%s.cpp' % r['harness'], entry=r['entry'], bounds=opts, statement=r.get('what', ''), paths=j['paths'], infeasible_paths=j['infeasible'], incomplete=j['incomplete'], assertions=j['asserts'], assertion_queries=j['assert_queries'], solver=j['solver'], reach=j['reach'], scheduling_points=j['sched_points'], sched_args=list(r.get('args', ())), native_traces_matched=ns, wall_s=round(j['wall'], 2)))
        complete = tot['incomplete'] == 0 and reached_all
        ev = dict(property=pid, tier=self.tier, seed=self.seed, level=self.p.get('level', 'model_checking'),
                  coverage=dict(states=tot['paths'] + tot['forks'], transitions=tot['steps'], traces_validated_against_impl=self.validated, samples=samples[:6] or ['none'],
                                evaluations=tot['paths'], distinct_nontrivial=tot['sym_paths'],
                                rule='a case is one feasible path of the real code through a harness, distinct by its path condition or schedule; non-trivial: it has at least one symbolic input or scheduling decision',
                                exhaustive=complete, bounds_explored_completely=complete, paths=tot['paths'], incomplete_paths=tot['incomplete'], incomplete_reasons=whys,
                                assertions_checked=tot['asserts'], assertion_queries=tot['assert_queries'], solver=solver, scheduling_points=tot['sched_points'], runs=runs,
                                functions_encoded=sorted(funcs, key=lambda f: -funcs[f])[:120], functions_encoded_count=len(funcs), modelled_externals=sorted(stubs),
                                bounds=self.p.get('bounds', ''), outside_bounds=self.p.get('outside', ''),
                                unconfirmed_counterexamples=[list(u) for u in unconfirmed], encoding_mismatches=[[m[0], m[1], m[2]] for m in self.mismatches], notes=self.notes,
                                known_findings=sorted(seen_known)),
                  assumptions=self.p.get('assumptions', []) + ['clang -O1 IR of the sources behaves as the compiled library', 'the library models in /verif/shadow and /verif/runtime behave as the real ones (spot-checked by native replay of sampled paths)'],
                  wall_s=round(time.time() - T0, 2), violations=len(violations))
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        self.B.put(ROOT + '/evidence/%s.json' % pid, json.dumps(ev, indent=1))
        for n in self.notes:
            log('NOTE', n)
        log('%s %s: %d paths, %d incomplete, %d assertions, %d queries, %d native traces matched, %d mismatches, %d violations, %.1fs' % (pid, 'COMPLETE' if complete else 'PARTIAL', tot['paths'], tot['incomplete'], tot['asserts'], solver['queries'], self.validated, len(self.mismatches), len(violations), time.time() - T0))
        return 1 if violations else 0


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.exit(Check(sys.argv[1], 'thorough' if tier == 'thorough' else 'quick', seed).main())
