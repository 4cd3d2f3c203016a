"""The machinery shared by the checks: building the harness, running TLC, verdicts, evidence."""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The check could not be run: neither a pass nor a violation."""


class Stop(Exception):
    """A violation was found which ends the check."""


def real_crash(stderr):
    """How the code under test ended the process, if it did: a failure of the Go runtime which
    cannot be recovered, or a panic in a goroutine of its own."""
    m = re.search(r'^fatal error: (.*)$', stderr, re.M)
    if m and 'out of memory' not in m.group(1):
        return m.group(1)
    m = re.search(r'^panic: (.*)$', stderr, re.M)
    if m:
        for f in re.findall(r'^(\S+)\(.*\)$', stderr[m.end():], re.M):
            if f.startswith(('panic', 'runtime', 'testing', 'log.', 'main.(*clock)')):
                continue
            return m.group(1) if f.startswith('github.com/leftmike/maho') else None
    return None


def hang_line(trace):
    """The line number of the last line of a trace, if it says that a call did not return."""
    with open(trace) as f:
        lines = f.read().rstrip('\n').split('\n')
    try:
        e = json.loads(lines[-1])
    except ValueError:
        return None
    return len(lines) if isinstance(e, dict) and e.get('op') == 'hang' else None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []
        self.findings = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': []}
        self.assumptions = []
        self.known = known_findings(prop)
        self.harness = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def path(self, name):
        return os.path.join(self.scratch, name)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(s)

    # -- building

    def goenv(self):
        env = dict(os.environ)
        env.update(GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
                   GOMODCACHE='/root/go/pkg/mod')
        cache = '/root/.cache/go-build'
        try:
            os.makedirs(cache, exist_ok=True)
            ok = os.access(cache, os.W_OK)
        except OSError:
            ok = False
        env['GOCACHE'] = cache if ok else self.path('gocache')
        return env

    def build(self, race=False, paused=False):
        """Build the harness against /repo's working tree.  When paused, with the packages vsync and vatomic in
        the place of sync and sync/atomic."""
        out = self.path('harness-race' if race else 'harness-paused' if paused else 'harness')
        if os.path.exists(out):
            return out
        src = self.path('src')
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
        cmd = ['go', 'build'] + (['-race'] if race else []) + (['-overlay', self.paused()] if paused else []) + ['-o', out, '.']
        r = subprocess.run(cmd, cwd=src, env=self.goenv(), capture_output=True, text=True)
        if r.returncode != 0 and paused:
            self.cov['files_with_pauses'] = 0  # they use sync in another way
            return self.build()
        if r.returncode != 0:
            raise ToolError('cannot build the harness:\n' + r.stdout + r.stderr)
        if not race and not paused:
            self.harness = out
        return out

    def paused(self):
        """An overlay in which maho imports vsync and vatomic in the place of sync and sync/atomic."""
        over = {}
        for d, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if not x.startswith('.')]
            for f in files:
                if not f.endswith('.go') or f.endswith('_test.go'):
                    continue
                fn = os.path.join(d, f)
                with open(fn, encoding='utf-8', errors='surrogateescape') as g:
                    old = g.read()
                new = re.sub(r'(?m)^([ \t]*(?:import[ \t]+)?)(?:([\w.]+)[ \t]+)?"sync(/atomic)?"',
                             lambda m: '%s%s "verif/harness/%s"' % (
                                 m[1], m[2] or ('atomic' if m[3] else 'sync'), 'vatomic' if m[3] else 'vsync'), old)
                if new != old:
                    over[fn] = self.path('paused-%d.go' % len(over))
                    with open(over[fn], 'w', encoding='utf-8', errors='surrogateescape') as g:
                        g.write(new)
        with open(self.path('paused.json'), 'w') as g:
            json.dump({'Replace': over}, g)
        self.cov['files_with_pauses'] = len(over)
        return self.path('paused.json')

    def run(self, args, timeout=300, race=False, ok_codes=(0,), env=None, stdin=None, paused=False):
        exe = self.build(race, paused)
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True,
                               timeout=timeout, cwd=self.scratch, env=e, input=stdin)
        except subprocess.TimeoutExpired:
            raise ToolError('harness timed out: %s' % args)
        if race and 'WARNING: DATA RACE' in r.stderr:
            i = r.stderr.find('WARNING: DATA RACE')
            rep = r.stderr[i:r.stderr.find('==================', i)]
            if 'github.com/leftmike/maho/' not in rep:
                raise ToolError('data race in the harness:\n' + rep)
            self.violation({'kind': 'race', 'what': 'the real code races with itself',
                            'command': [str(a) for a in args], 'report': rep})
            raise Stop()
        if r.returncode not in ok_codes:
            crash = real_crash(r.stderr)
            if crash:
                self.violation({'kind': 'crash', 'what': 'the real code crashed the process',
                                'command': [str(a) for a in args], 'crash': crash,
                                'stderr': r.stderr[:6000]})
                raise Stop()
            raise ToolError('harness failed: %s: %d\n%s' % (args, r.returncode, r.stderr[-4000:]))
        return r

    # -- TLC

    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap='3g', name=None):
        name = name or module
        d = self.path('tlc-%s-%d' % (name, time.time_ns()))
        os.makedirs(d)
        cfgfile = os.path.join(d, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC',
                                                        '-XX:ParallelGCThreads=4']
        cmd = (['java', '-Xmx' + heap, '-Xss128m', '-Djava.io.tmpdir=' + d] + gc +
               ['-cp', JAR, 'tlc2.TLC', '-config', cfgfile, '-workers', str(workers),
                '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE', '-checkpoint', '0'] +
               list(extra) + [os.path.join(SPEC, module + '.tla')])
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d,
                               errors='replace')
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out: %s' % module)
        out = r.stdout + r.stderr
        shutil.rmtree(d, ignore_errors=True)
        res = TLCResult(module, r.returncode, out, time.time() - t)
        return res

    # -- trace validation

    def validate(self, module, traces, cfg=None, env=None, timeout=600, jobs=8):
        """Validate traces (files) against a trace specification, in parallel.

        Returns the mismatches as (file, line number, wanted, line)."""
        if cfg is None:
            with open(os.path.join(SPEC, module + '.cfg')) as f:
                cfg = f.read()

        def one(tr):
            e = {'TRACE': tr}
            e.update(env or {})
            return tr, self.tlc(module, cfg, env=e, timeout=timeout,
                                name=module + os.path.basename(tr))
        bad = []
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for tr, res in ex.map(one, traces):
                m = res.mismatches()
                hung = None if res.ok else hang_line(tr)
                if m:
                    bad.append((tr,) + m[0])
                elif hung:
                    bad.append((tr, hung, 'the call to return', ''))
                elif not res.ok:
                    raise ToolError('%s on %s:\n%s' % (module, tr, res.tail()))
                self.add('states', res.distinct)
                self.add('transitions', max(res.generated - 1, 0))
        return bad

    def trace_violations(self, bad, what, reset='reset'):
        for tr, n, want, _ in bad:
            with open(tr) as f:
                lines = f.read().split('\n')
            first = n - 1
            while reset and first > 0 and '"op":"%s"' % reset not in lines[first]:
                first -= 1
            ev = [json.loads(x) for x in lines[first:n]]
            self.violation({'kind': 'trace', 'what': what, 'specification_expects': want,
                            'events': ev, 'failed_event': ev[-1]})

    # -- replaying paths written by TLC

    def replay(self, cmd, paths, what, args=(), timeout=600):
        out = self.path('bad-%d.ndjson' % time.time_ns())
        r = self.run([cmd, '-in', paths, '-out', out] + list(args), timeout=timeout)
        s = json.loads(r.stdout.strip().split('\n')[-1])
        with open(out) as f:
            for line in f:
                m = json.loads(line)
                m.update(kind='replay', description=what)
                self.violation(m)
        self.add('traces_validated_against_impl', s['paths'])
        self.add('events_replayed', s['events'])
        os.unlink(out)
        return s

    def violation(self, detail):
        key = json.dumps(detail.get('input', detail), sort_keys=True)
        self.violations.append((key, detail))

    def finding(self, text):
        self.findings.append(text)

    # -- the end

    def finish(self):
        self.cov['samples'] = self.cov['samples'][:4]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': LEVEL.get(self.prop, 'model_checking'), 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f))
        if not self.violations:
            print('OK property=%s tier=%s seed=%d wall=%.1fs %s' % (
                self.prop, self.tier, self.seed, time.time() - self.start,
                json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})))
            return 0
        d = os.path.join(VERIF, 'out', self.prop)
        os.makedirs(d, exist_ok=True)
        for i, (_, v) in enumerate(self.violations[:5]):
            p = os.path.join(d, 'violation-%s-%d-%d.json' % (self.tier, self.seed, i))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
                f.write('\n')
            print(json.dumps({k: x for k, x in v.items() if k not in ('events', 'path')})[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


LEVEL = {}


class TLCResult:
    def __init__(self, module, code, out, wall):
        self.module, self.code, self.out, self.wall = module, code, out, wall
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = code == 0 and 'No error has been found' in out

    def tail(self):
        i = self.out.find('Error:')
        return self.out[i:i + 4000] if i >= 0 else self.out[-4000:]

    def mismatches(self):
        """Lines <<"MISMATCH", n, "wanted", "line">> printed by trace specifications."""
        ms = []
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*("(?:[^"\\]|\\.)*")(?:,\s*("(?:[^"\\]|\\.)*"))?',
                             self.out):
            ms.append((int(m.group(1)), json.loads(m.group(2)),
                       json.loads(m.group(3)) if m.group(3) else ''))
        return ms


def known_findings(prop):
    """The keys of the findings listed for a property, with what fails."""
    fs = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                fs[m.group(2)] = m.group(3)
    return fs


def mc(ck, module, consts, cfg, out=None, workers=8, timeout=800, extra=(), heap='6g',
       name=None):
    """Model check a bounded model: its invariants are about the specification, so a violation
    of one is an error of the check and not of the code."""
    c = cfg
    for k, v in consts.items():
        c, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % re.escape(k),
                       lambda m: m.group(1) + (v if isinstance(v, str) else str(v)), c)
        if n != 1:
            raise ToolError('constant %s of %s' % (k, module))
    env = {'OUT': out} if out else {}
    r = ck.tlc(module, c, env=env, workers=workers, timeout=timeout, extra=extra, heap=heap, name=name)
    if r.code != 0 if '-simulate' in extra else not r.ok:
        raise ToolError('%s %s:\n%s' % (module, consts, r.tail()))
    ck.add('states', r.distinct)
    ck.add('transitions', r.generated)
    return r


def walks(ck, module, consts, cmd, what, timeout=800):
    """Random paths of a bounded model, longer than those to each state, to find what is in the
    state of the code and not in that of the model."""
    n, depth = (1200, 40) if ck.thorough else (120, 25)
    c = dict(consts, Walk=depth)

    def one(i):
        out = ck.path('walks-%d' % i)
        mc(ck, module, c, spec_cfg(module), out=out, workers=1, heap='2g', timeout=timeout, name='%s-%d' % (module, i),
           extra=('-simulate', 'num=%d' % n, '-depth', str(depth + 1), '-seed', str(ck.seed * 1000 + i)))
        return out
    for out in parallel([lambda i=i: one(i) for i in range(8)]):
        s = ck.replay(cmd, out, what, timeout=timeout)
        if s['paths'] == 0:
            raise ToolError('no paths')
        ck.add('random_model_paths_replayed', s['paths'])
        os.unlink(out)


def spec_cfg(module):
    with open(os.path.join(SPEC, module + '.cfg')) as f:
        return f.read()


def parallel(fns, jobs=8):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]
