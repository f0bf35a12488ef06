"""Orchestration: TLC explores a specification, its behaviours are turned into C++ programs compiled against /repo's
headers, every call's result is compared with the value the specification prescribes."""
import concurrent.futures as cf
import hashlib, json, math, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_INC = '/repo/cpp/include'
LIB = os.path.join(VERIF, 'lib')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = shutil.which('g++-11') or shutil.which('g++')
CXXFLAGS = ['-std=c++17', '-O0', '-w', '-fmax-errors=2', '-I' + REPO_INC, '-I' + LIB]
sys.path.insert(0, LIB)
import algebras, calls, wide


class Infra(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.pool = cf.ThreadPoolExecutor(8)
        self.tlc_pool = cf.ThreadPoolExecutor(4)
        self.lock = threading.Lock()
        self.states = self.transitions = self.validated = self.calls = self.programs = 0
        self.undefined = 0
        self.cover, self.samples, self.assumptions, self.notes = {}, [], [], []
        self.violations, self.futures, self.tlc_runs = [], [], []
        self.known, self.known_hit = [], {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts, inv=(), props=(), spec='Spec', extra='', name=None):
        """Runs TLC on spec/<module>.tla with the given constants; returns the JSON records it printed."""
        name = name or module
        with self.lock:
            k = len(self.tlc_runs)
            self.tlc_runs.append(name)
        d = os.path.join(self.work, 'tlc%d' % k)
        os.makedirs(d)

        def lit(v):
            if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
            if isinstance(v, (list, tuple, set, frozenset)): return '{' + ', '.join(lit(x) for x in sorted(v)) + '}'
            return str(v) if isinstance(v, int) else '"%s"' % v
        cfg = 'CONSTANTS\n' + ''.join('  %s = %s\n' % (c, lit(v)) for c, v in consts.items())
        cfg += 'SPECIFICATION %s\n' % spec + ''.join('INVARIANT %s\n' % i for i in inv) + ''.join('PROPERTY %s\n' % p for p in props)
        cfg += 'CHECK_DEADLOCK FALSE\n' + extra
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
        open(os.path.join(d, 'M.cfg'), 'w').write(cfg)
        cmd = ['java', '-Xmx3g', '-XX:+UseSerialGC', '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC', '-workers', '1', '-metadir', os.path.join(d, 'meta'),
               '-config', 'M.cfg', module]
        out = None
        for attempt in (1, 2, 3):
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
            out = p.stdout
            if 'Model checking completed. No error has been found.' in out: break
            time.sleep(4 * attempt)
            shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        else:
            open(os.path.join(d, 'out.txt'), 'w').write(out + p.stderr)
            raise Infra('TLC failed on %s %s:\n%s' % (name, consts, '\n'.join(l[:300] for l in out.splitlines() if not l.startswith('"@@'))[-2500:]))
        recs = []
        for line in out.splitlines():
            if line.startswith('"@@'): recs.append(json.loads(json.loads('"' + line[3:-1] + '"') if '\\' in line else line[3:-1]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        with self.lock:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        shutil.rmtree(d, ignore_errors=True)
        return recs

    def tlc_later(self, module, consts, inv=(), props=(), name=None):
        self.futures.append(self.tlc_pool.submit(self.tlc, module, consts, inv, props, 'Spec', '', name))

    # ---------------------------------------------------------------- C++
    def compile(self, src, exe, timeout=400, flags=()):
        """Returns None, or the compiler's complaint. A failure that is not about the source is tried again."""
        err = ''
        for attempt in (1, 2, 3):
            try:
                p = subprocess.run([CXX] + CXXFLAGS + list(flags) + [src, '-o', exe], capture_output=True, text=True, timeout=timeout, errors='replace')
                if p.returncode == 0: return None
                err = p.stderr
                if 'error:' in err and 'Killed' not in err and 'virtual memory' not in err and 'No space left' not in err: break
            except subprocess.TimeoutExpired:
                err = 'TIMEOUT: the compiler did not finish in %d s' % timeout
            if 'TIMEOUT' in err and attempt == 2: break
            time.sleep(4 * attempt)
        if 'error:' not in err and 'TIMEOUT' not in err: raise Infra('compiler failed on %s: %s' % (src, err[-1500:]))
        if 'TIMEOUT' not in err and ('Killed' in err or 'virtual memory' in err or 'No space left' in err):
            raise Infra('compiler out of resources on %s: %s' % (src, err[-500:]))
        return '\n'.join(l[:400] for l in err.splitlines() if 'error' in l or 'TIMEOUT' in l)[:2000]

    def execute(self, exe, datafile=None, timeout=120):
        cmd = [exe] + ([datafile] if datafile else [])
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', stdin=subprocess.DEVNULL)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, what, files=None):
        """key identifies the failing input or call; files: name -> content saved for the replay."""
        for k in self.known:
            if re.fullmatch(k['match'], key):
                with self.lock: self.known_hit.setdefault(k['id'], (k, key))
                return
        with self.lock:
            if len(self.violations) >= 40:
                self.violations.append((key, what, self.replays)); return
            d = os.path.join(self.replays, hashlib.sha1(key.encode()).hexdigest()[:10])
            os.makedirs(d, exist_ok=True)
            for fn, content in (files or {}).items(): open(os.path.join(d, fn), 'w').write(content)
            open(os.path.join(d, 'violation.txt'), 'w').write(key + '\n\n' + what + '\n')
            self.violations.append((key, what, d))

    def covered(self, what, k=1):
        with self.lock: self.cover[what] = self.cover.get(what, 0) + k

    def submit(self, fn, *a):
        self.futures.append(self.pool.submit(fn, *a))

    def finish(self, rule='', exhaustive=None):
        try:
            i = 0
            while i < len(self.futures):
                self.futures[i].result()
                i += 1
        except Infra as e:
            print('ERROR: %s' % e); sys.stdout.flush()
            os._exit(2)
        if self.calls == 0 and not self.violations:
            print('ERROR: nothing was compared'); sys.stdout.flush(); os._exit(2)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated, samples=self.samples[:4] or ['none'],
                   programs=self.programs, calls_compared=self.calls, runs_ended_early_outside_a_precondition=self.undefined,
                   tlc_configurations=self.tlc_runs, per_call=dict(sorted(self.cover.items())), rule=rule)
        if exhaustive is not None: cov['exhaustive'] = exhaustive
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions + ['floating point results are compared with a relative tolerance of 1e-9',
                                                  'g++-11 -std=c++17 -O0; one process per harness'],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in self.known:
            hit = self.known_hit.get(k['id'])
            if hit: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for key, what, d in self.violations[:12]:
            print('  %s: %s' % (key, what[:500].replace('\n', ' | ')))
        print('%s %s: %d states, %d traces replayed, %d calls compared, %d violations, %.1f s' %
              (self.prop, self.tier, self.states, self.validated, self.calls, len(self.violations), time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][2]))
            sys.stdout.flush(); os._exit(1)
        sys.stdout.flush(); os._exit(0)

    # ---------------------------------------------------------------- comparison of components
    @staticmethod
    def parse_components(toks):
        m = {}
        for t in toks:
            b, v = t.split(':')
            m[int(b)] = m.get(int(b), 0.0) + float(v)
        return m

    @staticmethod
    def same(got, exp, tol=1e-9):
        scale = max([1.0] + [abs(x) for x in exp.values()])
        for b in set(got) | set(exp):
            g, e = got.get(b, 0.0), exp.get(b, 0.0)
            if not (abs(g - e) <= tol * scale): return False
        return True

    @staticmethod
    def parallel(got, exp, tol=1e-7):
        """equal up to a non-zero factor"""
        ng = math.sqrt(sum(x * x for x in got.values())); ne = math.sqrt(sum(x * x for x in exp.values()))
        if not (math.isfinite(ng) and math.isfinite(ne)): return False
        if ne == 0: return ng <= tol
        if ng <= tol * 1e-3: return False
        for sgn in (1, -1):
            if all(abs(got.get(b, 0.0) / ng - sgn * exp.get(b, 0.0) / ne) <= tol for b in set(got) | set(exp)): return True
        return False

    # ---------------------------------------------------------------- sessions
    def session(self, alg, profile, ops=('gp',), nprog=40, nval=4, per_tu=5, invs=('WellFormed',), seed=None, consts=None, flags=()):
        self.futures.append(self.tlc_pool.submit(self._session, alg, profile, ops, nprog, nval, per_tu, invs, seed, consts or {}, flags))

    def _session(self, alg, profile, ops, nprog, nval, per_tu, invs, seed, consts, flags):
        c = dict(AlgName=alg, Profile=profile, Ops=set(ops), NProg=nprog, NVal=nval, Seed=(self.seed if seed is None else seed) % 1000)
        c.update(consts)
        recs = self.tlc('Session', c, inv=invs, props=('Stable',), name='Session %s/%s' % (alg, profile))
        progs = {r['prog']: r for r in recs if 'prog' in r}
        runs = {}
        for r in recs:
            if 'run' in r: runs.setdefault(r['run'], []).append(r)
        with self.lock:
            self.programs += len(progs)
            self.sess = getattr(self, 'sess', 0) + 1
            tag = 's%d' % self.sess
        # programs with nothing to compare are not worth compiling
        ids = [i for i in sorted(progs) if any(len(r['regs']) > len(progs[i]['in']) for r in runs.get(i, []))]
        self.undefined += sum(1 for i in runs for r in runs[i] if r['why'] != 'run')
        # calls outside their precondition for every valuation are not part of the program
        for i in ids: progs[i]['steps'] = progs[i]['steps'][:max(len(r['regs']) for r in runs[i]) - len(progs[i]['in'])]
        for j in range(0, len(ids), per_tu):
            self.submit(self._session_tu, alg, profile, [progs[i] for i in ids[j:j + per_tu]], runs, flags, tag)

    def _session_tu(self, alg, profile, progs, runs, flags=(), tag=''):
        base = os.path.join(self.work, '%s_%s_%d%s' % (alg, profile, progs[0]['prog'], tag))
        src = calls.generate(alg, profile, progs)
        open(base + '.cpp', 'w').write(src)
        err = self.compile(base + '.cpp', base, flags=flags)
        if err is not None:
            if len(progs) > 1:
                for p in progs: self._session_tu(alg, profile, [p], runs, flags, tag + 'x')
                return
            p = progs[0]
            self.violation('%s/%s/%s/compile' % (alg, profile, calls.signature(p)),
                           'a program the library accepts does not compile any more:\n' + calls.body(alg, profile, p) + '\n' + err, {'program.cpp': src})
            return
        data = ''.join('%d %d %d %s\n' % (r['run'], r['val'], len(r['data']), ' '.join(repr(calls.num(x)) for x in r['data']))
                       for p in progs for r in runs[p['prog']])
        open(base + '.dat', 'w').write(data)
        rc, out = self.execute(base, base + '.dat')
        got, exc, last = {}, {}, None
        for line in out.splitlines():
            t = line.split(' ', 4)
            if t[0] == 'B': last = (int(t[1]), int(t[2]))
            elif t[0] == 'R': got[(int(t[1]), int(t[2]), int(t[3]))] = ('R', t[4] if len(t) > 4 else '')
            elif t[0] == 'T': got[(int(t[1]), int(t[2]), int(t[3]))] = ('T', t[4] if len(t) > 4 else '')
            elif t[0] == 'X': exc[(int(t[1]), int(t[2]))] = line.split(' ', 3)[3]
        crashed = last if not out.rstrip().endswith('END') else None
        for p in progs:
            for r in runs[p['prog']]:
                key = (p['prog'], r['val'])
                if crashed is not None and key not in exc and not any(g[:2] == key for g in got):
                    if key != crashed: continue
                self._compare_run(alg, profile, p, r, got, exc.get(key), rc if crashed == key else None, src, data)
        for f in (base, base + '.cpp', base + '.dat'):
            if os.path.exists(f): os.unlink(f)

    def _compare_run(self, alg, profile, p, r, got, exc, crash, src, data):
        nin = len(p['in'])
        ok = True
        for k in range(nin, len(r['regs'])):
            st = p['steps'][k - nin]
            g = got.get((p['prog'], r['val'], k))
            if g is None and calls.silent(st): continue
            exp = calls.expected(r['regs'][k])
            why = None
            if g is None:
                why = ('the program threw: %s' % exc) if exc else ('the program crashed (exit %s)' % crash) if crash is not None else 'no result was recorded'
            else: why = calls.compare(self, alg, p, st, g, exp, r, got)
            with self.lock:
                self.calls += 1
                name = calls.describe(p, st)
                self.cover[name] = self.cover.get(name, 0) + 1
            if why:
                ok = False
                body = calls.body(alg, profile, p)
                self.violation('%s/%s/%s/%s' % (alg, profile, calls.signature(p), st['op']),
                               'algebra %s, program %d, valuation %d, call %d (%s): %s\nprogram: %s\ninputs: %s\nspecified: %s\nobserved:  %s' %
                               (alg, p['prog'], r['val'], k - nin + 1, calls.describe(p, st), why, body, r['data'], exp, g),
                               {'program.cpp': src, 'data.txt': data, 'README': 'g++ -std=c++17 -I/repo/cpp/include -I/verif/lib program.cpp -o program && ./program data.txt\n'})
                break
        with self.lock:
            self.validated += 1
            if ok and len(self.samples) < 4 and len(r['regs']) > nin and (self.validated % 37 == 1):
                self.samples.append(dict(algebra=alg, program=calls.body(alg, profile, p), inputs=r['data'],
                                         specified=[{str(b): '%d/%d' % (c, x['d']) for b, c in x['c']} for x in r['regs'][nin:]]))

    # ---------------------------------------------------------------- spaces of many dimensions
    def wide(self, pqr, ops, unops=(), nprog=24, per_tu=4, seed=None, flags=()):
        self.futures.append(self.tlc_pool.submit(self._wide, pqr, ops, unops, nprog, per_tu, seed, flags))

    def _wide(self, pqr, ops, unops, nprog, per_tu, seed, flags):
        recs = self.tlc('Wide', dict(P=pqr[0], Q=pqr[1], R=pqr[2], Ops=set(ops), UnOps=set(unops), NProg=nprog, Seed=(self.seed if seed is None else seed) % 1000),
                        inv=('WellFormed', 'Associative'), name='Wide %s' % wide.name(pqr))
        progs = sorted(recs, key=lambda p: p['id'])
        with self.lock: self.programs += len(progs)
        for j in range(0, len(progs), per_tu): self.submit(self._wide_tu, pqr, progs[j:j + per_tu], flags)

    def _wide_tu(self, pqr, progs, flags, alone=False):
        tag = hashlib.sha1(repr((pqr, flags, progs, alone)).encode()).hexdigest()[:10]
        base = os.path.join(self.work, 'wide_%s' % tag)
        src = wide.generate(pqr, progs)
        open(base + '.cpp', 'w').write(src)
        err = self.compile(base + '.cpp', base, flags=flags)
        key = 'wide/%s%s' % (wide.name(pqr), ''.join(flags))
        if err is not None:
            if len(progs) > 1:
                for p in progs: self._wide_tu(pqr, [p], flags, True)
                return
            self.violation('%s/%d/compile' % (key, progs[0]['id']), 'a program the library accepts does not compile any more:\n' + '\n'.join(wide.body(progs[0])) + '\n' + err, {'program.cpp': src})
            return
        rc, out = self.execute(base)
        got = {}
        for line in out.splitlines():
            t = line.split()
            if t and t[0] == 'W': got[(int(t[1]), int(t[2]))] = self.parse_components(t[3:])
        for p in progs:
            n = len(p['in'])
            for j, st in enumerate(p['steps']):
                r = p['regs'][n + j]
                if r['d'] == 0: continue
                exp = {wide.mask(r['b']): r['k'] / r['d']} if r['k'] else {}
                g = got.get((p['id'], n + j))
                nm = '%s(%s)' % (st['op'], ','.join(p['in'][a - 1]['rep'] for a in st['a']))
                with self.lock:
                    self.calls += 1
                    self.cover[nm] = self.cover.get(nm, 0) + 1
                if g is None or not self.same(g, exp):
                    self.violation('%s/%d/%s' % (key, p['id'], st['op']), 'signature %s, program %d, call %d %s: specified %s, observed %s (exit %s)\n%s' %
                                   (pqr, p['id'], j + 1, nm, exp, g, rc, '\n'.join(wide.body(p))), {'program.cpp': src})
                    break
            with self.lock: self.validated += 1
        for f in (base, base + '.cpp'):
            if os.path.exists(f): os.unlink(f)

    # ---------------------------------------------------------------- tables
    OPNO = {'gp': 0, 'op': 1, 'rp': 2, 'dot': 3, 'hip': 4, 'lcont': 5, 'rcont': 6, 'sp': 7}

    def tables(self, alg, ops, modes, split=1, va=2.0, vb=3.0, flags=()):
        self.futures.append(self.tlc_pool.submit(self._tables, alg, ops, modes, split, va, vb, flags))

    def _tables(self, alg, ops, modes, split, va, vb, flags):
        recs = self.tlc('Table', dict(AlgName=alg, Ops=set(ops)), inv=('GradesRight',), name='Table ' + alg)
        tab = {}
        for r in recs: tab[(r['op'], r['a'])] = r['row']
        for op in ops:
            for mode in modes: self.submit(self._table_tu, alg, op, mode, split, tab, va, vb, flags)

    def _table_tu(self, alg, op, mode, split, tab, va, vb, flags=()):
        n = algebras.dim(alg)
        S = 'std::make_integer_sequence<unsigned, %du>{}' % (1 << n)
        no = self.OPNO[op]
        v = '%r, %r' % (va, vb)
        stmts = {
            'VV': ['rt::const_row<%d, 0, 0, %d>("VV", mtr, %s, %s);' % (no, a, v, S) for a in range(1 << n)],
            'TT': ['rt::const_row<%d, 0, 0, %d>("TT", mtr, %s, %s);' % (no, a, v, S) for a in range(1 << n) if bin(a).count('1') >= n - 1],
            'KK': ['rt::const_row<%d, 1, 1, %d>("KK", mtr, %s, %s);' % (no, a, v, S) for a in range(1 << n)],
            'KV': ['rt::const_row<%d, 1, 0, %d>("KV", mtr, %s, %s);' % (no, a, v, S) for a in range(1 << n)],
            'VK': ['rt::const_row<%d, 0, 1, %d>("VK", mtr, %s, %s);' % (no, a, v, S) for a in range(1 << n)],
            'DD': ['rt::dyn_dyn<%d, %d>("DD", mtr, %s);' % (no, n, v)],
            'GG': ['rt::dyn_grade<%d, %d, %d, %d>("GG", mtr, %s);' % (no, g, h, n, v) for g in range(1, n + 1) for h in range(1, n + 1)],
            'RR': ['rt::dyn_range<%d, %d, %d, %d, %d, %d>("RR", mtr, %s);' % (no, n, g[0], g[1], h[0], h[1], v) for g in self.ranges(n) for h in self.ranges(n)],
            'VD': ['rt::const_dyn<%d, %d, 0>("VD", mtr, %s, %s);' % (no, n, v, S)],
            'KD': ['rt::const_dyn<%d, %d, 1>("KD", mtr, %s, %s);' % (no, n, v, S)],
            'DV': ['rt::dyn_const<%d, %d, 0>("DV", mtr, %s, %s);' % (no, n, v, S)],
            'DK': ['rt::dyn_const<%d, %d, 1>("DK", mtr, %s, %s);' % (no, n, v, S)],
        }[mode]
        k = min(split, len(stmts)) if mode in ('VV', 'TT', 'KK', 'KV', 'VK', 'GG', 'RR') else 1
        for part in range(k):
            self.submit(self._table_part, alg, op, mode, part, stmts[part::k], tab, va if mode[0] != 'K' else 2.0, vb if mode[1] != 'K' else 3.0, flags)

    @staticmethod
    def ranges(n):
        return [(lo, hi) for lo in range(n + 1) for hi in range(max(lo, 1), min(n, lo + 2) + 1)]

    UNO = {'reverse': 0, 'involute': 1, 'conjugate': 2}

    def utables(self, alg, ops=('reverse', 'involute', 'conjugate')):
        """the sign changes of every basis blade, in every representation"""
        self.futures.append(self.tlc_pool.submit(self._utables, alg, ops))

    def _utables(self, alg, ops):
        tab = {(r['op'], r['a']): r['row'] for r in self.tlc('UTable', dict(AlgName=alg, Ops=set(ops)), inv=('Axioms',), name='UTable ' + alg)}
        n = algebras.dim(alg)
        for op in ops:
            st = ['rt::change_const<%d>(2.0, std::make_integer_sequence<unsigned, %du>{});' % (self.UNO[op], 1 << n)]
            st += ['rt::change_range<%d, %d, %d, %d>(2.0);' % (self.UNO[op], n, a, b) for a, b in self.ranges(n) + [(0, n)]]
            self.submit(self._table_part, alg, op, 'unary', 0, st, tab, 2.0, 1.0)

    def _table_part(self, alg, op, mode, part, stmts, tab, va, vb, flags=()):
        base = os.path.join(self.work, 'table_%s_%s_%s_%d%s' % (alg, op, mode, part, hashlib.sha1(repr(flags).encode()).hexdigest()[:4] if flags else ''))
        src = algebras.prologue(alg) + '#include "table_rt.hpp"\nint main() {\n    using namespace ga;\n    %s const mtr;\n    %s\n    rt::flush();\n    std::puts("END");\n}\n' % (
            algebras.space_type(alg), '\n    '.join(stmts))
        open(base + '.cpp', 'w').write(src)
        err = self.compile(base + '.cpp', base, flags=flags)
        if err is not None:
            self.violation('table/%s/%s/%s/compile' % (alg, op, mode), 'the table of %s does not compile any more: %s' % (op, err), {'program.cpp': src}); return
        rc, out = self.execute(base)
        bad, cnt = [], 0
        for line in out.splitlines():
            t = line.split()
            if not t or t[0] != 'P': continue
            a, b = int(t[3]), int(t[4])
            got = self.parse_components(t[5:])
            exp = {r: c * va * vb for r, c in tab[(op, a)][b]}
            cnt += 1
            if not self.same(got, exp): bad.append((a, b, got, exp))
        if rc != 0 or not out.rstrip().endswith('END'): bad.append((-1, -1, 'exit %s' % rc, {}))
        with self.lock:
            self.calls += cnt
            self.validated += 1
            nm = 'table %s %s %s' % (alg, op, mode)
            self.cover[nm] = self.cover.get(nm, 0) + cnt
        for a, b, got, exp in bad[:3]:
            self.violation('table/%s/%s/%s/%d/%d' % (alg, op, mode, a, b),
                           '%s of basis blades %d and %d (coefficients %g and %g) in %s, representations %s: specified %s, observed %s' % (op, a, b, va, vb, alg, mode, exp, got),
                           {'program.cpp': src})
        os.unlink(base) if os.path.exists(base) else None
