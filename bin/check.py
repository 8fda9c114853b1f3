#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Decides one property of /repo's working tree with the specifications in
/verif/spec (see DESIGN.md):
  1. TLC checks the specification's own invariants at a small bound,
  2. the driver (harness/, built against /repo) runs the real code and records traces,
  3. TLC checks that every recorded trace is a behaviour of the specification.
Exit 0: held. Exit 1: `VIOLATION property=.. replay=..`. Exit 2: no verdict.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import plan

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOENV = dict(PATH='/opt/veriftools/go1.23.12/bin:' + os.environ.get('PATH', '/usr/bin:/bin'), GOTOOLCHAIN='local', GOPROXY='off',
             GOFLAGS='-mod=mod -buildvcs=false', GOENV='off', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'), GOSUMDB='off')


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tlc(module, cfg, env, work, workers=1, timeout=800, heap='2g'):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta, '-config', cfg, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


def counts(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(',', '')), int(g.replace(',', ''))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.replays = os.path.join(VERIF, 'evidence', 'replays')
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.known = [], [], {}
        self.parts = []
        self.distinct = {}

    def build(self):
        env = dict(os.environ, **GOENV)
        if not os.access(os.path.dirname(GOENV['GOCACHE']) or '/', os.W_OK) and not os.access(GOENV['GOCACHE'], os.W_OK):
            env['GOCACHE'] = os.path.join(self.work, 'gocache')
        shutil.copytree(os.path.join(VERIF, 'harness'), os.path.join(self.work, 'harness'))
        race = ['race'] if any(c.get('race') for c in plan.CHECKS[self.prop]['parts']) else []
        def go(out, extra):
            r = subprocess.run(['go', 'build'] + extra + ['-o', out, '.'], cwd=os.path.join(self.work, 'harness'), env=env, capture_output=True, text=True)
            if r.returncode:
                raise NoVerdict('the driver does not build:\n' + (r.stdout + r.stderr)[-4000:])
        self.drv = os.path.join(self.work, 'vdrv')
        go(self.drv, [])
        if race:
            self.drv_race = os.path.join(self.work, 'vdrv-race')
            go(self.drv_race, ['-race', '-gcflags=all=-d=checkptr=0'])

    # ---- parts
    def mc(self, part):
        out = tlc(part['module'], part['cfg'], part.get('env', {}), self.work, workers=part.get('workers', 8), heap='8g')
        d, g = counts(out)
        if 'Model checking completed. No error has been found' not in out:
            raise NoVerdict('specification %s fails its own check:\n%s' % (part['module'], out[-3000:]))
        self.states += d
        self.transitions += g
        self.distinct[part['cfg']] = d
        self.parts.append({'mc': part['module'], 'cfg': part['cfg'], 'distinct': d, 'generated': g})

    def shard(self, part, k):
        """one driver run and the check of its trace"""
        trace = os.path.join(self.work, '%s-%s-%d-%d.ndjson' % (part['scenario'], part.get('mode', ''), part['index'], k))
        tmp = tempfile.mkdtemp(dir=self.work)
        seed = self.seed * 1000003 + k * 7919 + part.get('salt', 0)
        cmd = [self.drv_race if part.get('race') else self.drv, part['scenario'], '-seed', str(seed), '-n', str(part['n']), '-len', str(part['len']),
               '-mode', part.get('mode', ''), '-out', trace, '-tmp', tmp, '-facets', ','.join(part['facets']),
               '-shard', str(k), '-shards', str(part['shards'])]
        cmd += part.get('args', [])
        env = dict(os.environ, GOMEMLIMIT='3GiB', TMPDIR=tmp, GORACE='halt_on_error=1 exitcode=66')
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=part.get('timeout', 600), cwd=tmp)
        except subprocess.TimeoutExpired:
            shutil.rmtree(tmp, ignore_errors=True)
            return dict(error='driver timed out: ' + ' '.join(cmd))
        shutil.rmtree(tmp, ignore_errors=True)
        crash = None
        if p.returncode not in (0, 4):
            err = p.stderr
            fatal = re.search(r'(fatal error: .*|panic: .*|WARNING: DATA RACE.*)', err)
            # a crash inside the library while it runs valid operations
            if fatal and re.search(r'soft\.go/ecore\.|/ecore/', err):
                crash = fatal.group(1) + '\n' + err[-6000:]
            else:
                return dict(error='driver failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), err[-3000:]))
        if crash and os.path.exists(trace):  # the last line may be cut
            data = open(trace, 'rb').read()
            open(trace, 'wb').write(data[:data.rfind(b'\n') + 1])
        if not os.path.exists(trace):
            return dict(error='driver wrote no trace', crash=crash)
        lines = sum(1 for _ in open(trace))
        try:
            out = tlc(part['module'], part.get('cfg', part['module'] + '.cfg'), dict(TRACE=trace), self.work, timeout=part.get('tlc_timeout', 800), heap=part.get('heap', '3g'))
        except NoVerdict as e:
            if not crash:
                return dict(error=str(e))
            out = ''
        d, g = counts(out)
        res = dict(states=d, transitions=g, lines=lines, known=set(re.findall(r'KNOWN (\S+?)"', out)), skipped=len(re.findall(r'SKIPPED', out)))
        m = re.search(r'STATES (\d+)', out)
        if m and part.get('match') and int(m.group(1)) != self.distinct.get(part['match']) and 'is violated' not in out:
            return dict(error='the implementation has %s states where %s has %s' % (m.group(1), part['match'], self.distinct.get(part['match'])))
        head = []
        with open(trace) as f:
            for l in f:
                if '"ev":"reset"' in l or '"ev": "reset"' in l:
                    res['resets'] = res.get('resets', 0) + 1
                if len(head) < 3:
                    head.append(l[:400])
        res['sample'] = head[-1] if head else ''
        if 'Invariant NotBad is violated' in out:
            rej = re.findall(r'^.*(?:REJECTED|HANG|CRASH).*$', out, re.M)
            res['violation'] = (trace, '\n'.join(rej)[-4000:] or out[-3000:], cmd)
        elif crash:
            res['violation'] = (trace, 'crash of the code under test: ' + crash, cmd)
        elif 'Model checking completed. No error has been found' not in out:
            m = re.search(r'(Error: .*)', out, re.S)
            return dict(error='TLC on %s (%s): %s' % (trace, ' '.join(cmd), (m.group(1) if m else out)[:3000]), keep=trace)
        else:
            os.unlink(trace)
        return res

    def run(self):
        spec = plan.CHECKS[self.prop]
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(self.replays, f))
        self.build()
        errors = []
        for part in spec['parts']:
            if 'cfg_mc' in part:
                pass
            if part.get('kind') == 'mc':
                if part.get('tier', self.tier) == self.tier:
                    self.mc(part)
        jobs = []
        for index, part in enumerate(spec['parts']):
            if part.get('kind', 'trace') != 'trace' or part.get('tier', self.tier) != self.tier:
                continue
            part = dict(part, index=index)
            part.setdefault('shards', 8)
            part['facets'] = part.get('facets', spec.get('facets', []))
            n = part['shards']
            if self.tier == 'thorough':
                n = part['shards'] = part.get('shards_thorough', n if part.get('match') else n * 4)
                part['n'] = part.get('n_thorough', part['n'])
            jobs += [(part, k) for k in range(n)]
        with ThreadPoolExecutor(max_workers=8) as ex:
            for (part, k), r in zip(jobs, ex.map(lambda j: self.shard(*j), jobs)):
                if 'error' in r:
                    errors.append(r['error'])
                    if r.get('keep') and os.path.exists(r['keep']):
                        shutil.copy(r['keep'], os.path.join(self.replays, '%s-error.ndjson' % self.prop))
                    continue
                self.states += r['states']
                self.transitions += max(0, r['transitions'] - 1)
                self.traces += r.get('resets', 1)
                self.events += r['lines']
                if len(self.samples) < 3:
                    self.samples.append(r['sample'])
                for kf in r['known']:
                    self.known[kf] = self.known.get(kf, 0) + 1
                self.parts.append({'scenario': part['scenario'], 'mode': part.get('mode', ''), 'shard': k, 'events': r['lines'], 'skipped': r['skipped']})
                if 'violation' in r:
                    self.violations.append((part, k) + r['violation'])
        self.finish(errors)

    def finish(self, errors):
        listed = plan.known_findings(VERIF)
        for kf in sorted(self.known):
            if kf in listed and listed[kf][0] == self.prop:
                log('KNOWN-FINDING: property=%s %s %s' % (self.prop, kf, listed[kf][1]))
            elif kf not in listed:
                self.violations.append((None, 0, None, 'deviation %s is not a listed finding' % kf, []))
        level = plan.CHECKS[self.prop].get('level', 'model_checking')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, wall_s=round(time.time() - T0, 1),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events=self.events, samples=self.samples, parts=self.parts[:60], known=sorted(self.known),
                                errors=errors[:5]))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for n, (part, k, trace, why, cmd) in enumerate(self.violations[:5]):
                base = os.path.join(self.replays, '%s-%d' % (self.prop, n))
                with open(base + '.txt', 'w') as f:
                    f.write('property %s\ndriver: %s\nspecification: %s\n\n%s\n' % (self.prop, ' '.join(cmd), part and part['module'], why))
                path = base + '.txt'
                if trace and os.path.exists(trace):
                    shutil.copy(trace, base + '.ndjson')
                    path = base + '.ndjson'
                log(why[:600])
                log('VIOLATION property=%s replay=%s' % (self.prop, path))
            return self.done(1)
        if errors:
            log('\n'.join(errors[:3]))
            return self.done(2)
        log('%s held: %d histories, %d events, %d states, %.0f s' % (self.prop, self.traces, self.events, self.states, time.time() - T0))
        self.done(0)

    def done(self, rc):
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(rc)


T0 = time.time()


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    a = sys.argv[2:]
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    r = Run(prop, tier, seed)
    try:
        r.run()
    except NoVerdict as e:
        log('no verdict: ' + str(e))
        r.done(2)


if __name__ == '__main__':
    main()
