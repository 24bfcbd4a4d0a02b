"""The engine shared by all checks: generation with Hypothesis in several
processes, shrinking, replay files, evidence.

A check module (checks/<id>.py) defines
  ID, RULE
  make(g, tier)          -> a JSON-able case, all the random choices through g
  run(case, ctx)         -> iterable of labels; raises Violation
  directed(tier)         -> optional, list of hand-written cases (run first)
  nontrivial(labels)     -> optional, bool; by default 'nt' in labels
  EXAMPLES = {'quick': n, 'thorough': n}    number of generated cases (all shards)
  SECONDS = {'quick': s, 'thorough': s}     cap on the time of the generation
  VARIANTS               what must be built before starting
"""
import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
if LIB not in sys.path:
    sys.path.insert(0, LIB)
if os.path.join(VERIF, 'checks') not in sys.path:
    sys.path.insert(0, os.path.join(VERIF, 'checks'))

import build as B                                       # noqa: E402
import workers as W                                     # noqa: E402
import layout                                           # noqa: E402
from schema import Schema                               # noqa: E402

NSHARDS = 8


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is not in the domain (e.g. the schema is refused by capnp)"""


def jhash(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


class Ctx(object):
    """What a case needs to run: workers, loaded schemas"""

    def __init__(self, mod, tier='quick'):
        self.mod = mod
        self.tier = tier
        self.workers = {}
        self.schemas = {}
        self.plugins = [os.path.join(VERIF, 'checks', p) for p in getattr(mod, 'PLUGINS', [])]
        self.hang = getattr(mod, 'HANG', 60)

    def worker(self, backend):
        """backend: pyx | pure | pypy | asan"""
        if backend not in self.workers:
            self.workers[backend] = W.Worker(backend, self.plugins)
        return self.workers[backend]

    def schema(self, files, main='sch.capnp', **kw):
        """-> Schema. kw as in the class"""
        hook = kw.get('field_hook')
        key = repr((sorted(files.items()) if isinstance(files, dict) else files, main,
                    sorted((k, repr(v)) for k, v in kw.items() if k != 'field_hook'),
                    getattr(hook, '__name__', None)))
        s = self.schemas.get(key)
        if s is None:
            if len(self.schemas) > 40:
                for k in list(self.schemas)[:-6]:       # a case may use several
                    self.schemas.pop(k).forget()
            try:
                s = Schema(files, main, **kw)
            except layout.SchemaError as e:
                raise Skip('schema: %s' % str(e)[:300])
            self.schemas[key] = s
        return s

    def load(self, config, schema):
        """Compile and load the schema; a failure is a violation"""
        w = self.worker(BACKEND[config])
        if schema.spec['pyx']:
            import pyxpool
            pyxpool.ensure(schema)
        try:
            e = w.load(schema.spec)
        except W.WorkerDied as x:
            raise Violation('[%s] loading the schema killed the interpreter: %s' % (config, x))
        if e is not None:
            raise Violation('[%s] the schema does not load: %s: %s\n%s'
                            % (config, e[0], e[1][:600], e[2]))

    def run(self, config, prog, timeout=None):
        w = self.worker(BACKEND[config])
        try:
            return w.run(prog, timeout or self.hang)
        except W.WorkerDied as x:
            raise Violation('[%s] the interpreter crashed: %s' % (config, str(x)[-2500:]))

    def close(self):
        for w in self.workers.values():
            w.kill()
        self.workers = {}


# configuration -> backend. 'pyxmode' = schema compiled to Cython on the compiled runtime
BACKEND = {'pyx': 'pyx', 'pure': 'pure', 'pypy': 'pypy', 'pyxmode': 'pyx', 'asan': 'asan',
           'asanpyx': 'asan'}


def val(ans, what='', config=''):
    """The value of an answer; an exception is a violation"""
    if 'exc' in ans:
        raise Violation('[%s] %s raised %s: %s' % (config, what, ans['exc'][0], ans['exc'][1]))
    if 'dep' in ans:
        raise Violation('[%s] %s could not run' % (config, what))
    return ans['v']


# --------------------------------------------------------------------------

class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.inconclusive = 0
        self.labels = {}
        self.seen = set()
        self.samples = []
        self.violation = None
        self.error = None
        self.skips = {}

    def add(self, mod, case, labels):
        self.evaluations += 1
        labels = set(labels or ())
        for x in labels:
            self.labels[x] = self.labels.get(x, 0) + 1
        nt = mod.nontrivial(labels) if hasattr(mod, 'nontrivial') else 'nt' in labels
        if nt:
            h = jhash(case)
            if h not in self.seen:
                self.seen.add(h)
                n = len(self.seen)
                if n in (1, 7, 40) or n == 200:
                    self.samples.append(sample(case))

    def json(self):
        return {'evaluations': self.evaluations, 'skipped': self.skipped,
                'inconclusive': self.inconclusive,
                'labels': self.labels, 'seen': sorted(self.seen), 'samples': self.samples[:4],
                'violation': self.violation, 'error': self.error, 'skips': self.skips}


def sample(case):
    s = json.dumps(case)
    if len(s) > 3000:
        return s[:3000] + '...'
    return case


class G(object):
    """Random choices, drawn from Hypothesis"""
    _cache = {}

    def __init__(self, draw):
        self._draw = draw
        from hypothesis import strategies as st
        self.st = st

    def int(self, a, b):
        if a == b:
            return a
        s = self._cache.get((a, b))
        if s is None:
            s = self._cache[a, b] = self.st.integers(a, b)
        return self._draw(s)

    def pick(self, xs):
        return xs[self.int(0, len(xs) - 1)]

    def chance(self, percent):
        """True with the given probability; shrinks to False"""
        return self.int(0, 99) >= 100 - percent

    def bytes(self, n):
        s = self._cache.get(('b', n))
        if s is None:
            s = self._cache['b', n] = self.st.binary(min_size=n, max_size=n)
        return self._draw(s)

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        k = self.int(0, total - 1)
        for x, w in pairs:
            if k < w:
                return x
            k -= w

    def shuffled(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.int(0, i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class RandG(G):
    """The same interface on random.Random"""

    def __init__(self, seed):
        import random
        self.r = random.Random(seed)

    def int(self, a, b):
        return self.r.randint(a, b)

    def bytes(self, n):
        return bytes(self.r.getrandbits(8) for _ in range(n))


def shard_main(mod, tier, seed, shard, nshards, out, examples, seconds):
    stats = Stats()
    ctx = Ctx(mod, tier)
    t0 = time.monotonic()

    def flush():
        with open(out + '.tmp', 'w') as f:
            json.dump(stats.json(), f)
        os.rename(out + '.tmp', out)

    def term(*a):
        flush()
        ctx.close()
        import shutil
        if layout._dir:
            shutil.rmtree(layout._dir, ignore_errors=True)
        os._exit(0)
    signal.signal(signal.SIGTERM, term)
    best = {}
    shrink_limit = {'quick': 25, 'thorough': 90}[tier]

    def note(case, e):
        n = len(json.dumps(case))
        if not best or n < best['n']:
            best.update(n=n, case=case, msg=str(e))
            stats.violation = {'case': case, 'msg': str(e)}
            flush()
        best.setdefault('t', time.monotonic())

    slow = os.environ.get('VERIF_SLOW')

    def one(case):
        try:
            t1 = time.monotonic()
            try:
                labels = mod.run(case, ctx)
            finally:
                if slow and time.monotonic() - t1 > float(slow):
                    write_replay(mod, {'case': case, 'msg': 'slow %.1f' % (time.monotonic() - t1)}, tier, seed)
        except Skip as e:
            stats.skipped += 1
            k = str(e)[:100]
            if len(stats.skips) < 30 or k in stats.skips:
                stats.skips[k] = stats.skips.get(k, 0) + 1
            return
        except W.WorkerHang as e:
            # once more, alone, before believing it
            try:
                ctx.close()
                mod.run(case, ctx)
                stats.inconclusive += 1
                return
            except W.WorkerHang as e2:
                used = float(str(e2).split('(')[1].split('s')[0])
                if used < ctx.hang * .6 or not getattr(mod, 'HANGS_ARE_VIOLATIONS', True):
                    stats.inconclusive += 1
                    return
                v = Violation('no answer: %s' % e2)
                note(case, v)
                raise v
        except Violation as e:
            note(case, e)
            raise
        stats.add(mod, case, labels)

    try:
        cases = list(mod.directed(tier)) if hasattr(mod, 'directed') else []
        for i, case in enumerate(cases):
            if i % nshards == shard:
                try:
                    one(case)
                except Violation:
                    flush()
                    term()
        if hasattr(mod, 'make') and examples > 0:
            import hypothesis
            from hypothesis import given, settings, HealthCheck, Phase
            from hypothesis import strategies as st

            stopped = [False]

            @hypothesis.seed(seed * 1000 + shard)
            @settings(max_examples=examples, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], print_blob=False)
            @given(st.data())
            def test(data):
                now = time.monotonic()
                if stopped[0] or (not best and now - t0 > seconds):
                    stopped[0] = True
                    return
                if best and now - best['t'] > shrink_limit:
                    return
                case = mod.make(G(data.draw), tier)
                if best and len(json.dumps(case)) > 3 * best['n'] + 2000:
                    return
                one(case)
            try:
                test()
            except Violation:
                pass
            except hypothesis.errors.HypothesisException:
                # not drawing anything after the time cap is "flaky" for Hypothesis
                if not best and not stopped[0]:
                    raise
            except BaseException as e:
                if not best:
                    raise
            if stopped[0]:
                stats.labels['(stopped by the time cap)'] = 1
    except BaseException:
        if not best:
            stats.error = traceback.format_exc()
    flush()
    ctx.close()


def confirm(mod, tier, viol, times=2):
    """Run the reported case again, on fresh workers -> message or None"""
    for _ in range(times):
        ctx = Ctx(mod, tier)
        try:
            mod.run(viol['case'], ctx)
        except Violation as e:
            return str(e)
        except W.WorkerHang as e:
            return 'no answer: %s' % e
        except Skip:
            return None
        finally:
            ctx.close()
    return None


def write_replay(mod, viol, tier, seed, extra=None):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    data = {'property': mod.ID, 'tier': tier, 'seed': seed, 'message': viol['msg'],
            'case': viol['case']}
    data.update(extra or {})
    p = os.path.join(d, '%s-%s.json' % (mod.ID, jhash(viol['case'])))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def known_findings(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = {}
    with open(p) as f:
        for line in f:
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' ', 1)
                out[key] = text
    return out


def write_evidence(mod, tier, seed, cov, wall, nviol, assumptions=None):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
          'wall_s': round(wall, 2), 'violations': nviol}
    a = assumptions or getattr(mod, 'ASSUMPTIONS', None)
    if a:
        ev['assumptions'] = a
    with open(os.path.join(d, mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--examples', type=int)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--shards', type=int, default=NSHARDS)
    ap.add_argument('--replay')
    args = ap.parse_args(argv)
    mod = importlib.import_module(args.id.lower())
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    examples = args.examples if args.examples is not None else getattr(mod, 'EXAMPLES', {}).get(args.tier, 0)
    seconds = args.seconds or getattr(mod, 'SECONDS', {}).get(args.tier, 30)

    if args.shard is not None:
        if hasattr(mod, 'shard_main'):
            return mod.shard_main(args.tier, args.seed, args.shard, args.shards, args.out,
                                  examples, seconds)
        return shard_main(mod, args.tier, args.seed, args.shard, args.shards, args.out,
                          -(-examples // args.shards), seconds)

    t0 = time.monotonic()
    try:
        B.build(getattr(mod, 'VARIANTS', ('pure', 'pyx')))
    except B.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        return 2
    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        if hasattr(mod, 'prepare'):
            mod.prepare(args.tier, args.seed)
        msg = confirm(mod, args.tier, {'case': data['case']}, 1)
        if msg is None:
            print('replay: the property held')
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' % (mod.ID, args.replay))
        return 1
    if hasattr(mod, 'prepare'):
        mod.prepare(args.tier, args.seed)

    tmp = tempfile.mkdtemp(prefix='verif-drv-')
    procs = []
    try:
        for k in range(args.shards):
            out = os.path.join(tmp, '%d.json' % k)
            log = open(os.path.join(tmp, '%d.log' % k), 'wb')
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), args.id,
                                  '--tier', args.tier, '--seed', str(args.seed), '--shard', str(k),
                                  '--shards', str(args.shards), '--out', out,
                                  '--examples', str(examples), '--seconds', str(seconds)],
                                 stdout=log, stderr=subprocess.STDOUT,
                                 env=dict(os.environ, PYTHONHASHSEED='0'))
            procs.append((k, p, out))
        limit = t0 + seconds + {'quick': 300, 'thorough': 1200}[args.tier]
        pending = dict((k, (p, out)) for k, p, out in procs)
        found_at = None
        while pending:
            time.sleep(.05)
            for k in list(pending):
                p, out = pending[k]
                if p.poll() is not None:
                    del pending[k]
            if found_at is None:
                for k, p, out in procs:
                    if k not in pending and os.path.exists(out):
                        with open(out) as f:
                            if json.load(f)['violation']:
                                found_at = time.monotonic()
            if (found_at and time.monotonic() > found_at + 1) or time.monotonic() > limit:
                for p, out in pending.values():
                    p.terminate()
                t = time.monotonic() + 10
                for p, out in pending.values():
                    try:
                        p.wait(max(.1, t - time.monotonic()))
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                break
        stats, errors = [], []
        for k, p, out in procs:
            if os.path.exists(out):
                with open(out) as f:
                    s = json.load(f)
                stats.append(s)
                if s['error']:
                    errors.append(s['error'])
            else:
                with open(os.path.join(tmp, '%d.log' % k)) as f:
                    errors.append('shard %d ended with %s\n%s' % (k, p.returncode, f.read()[-3000:]))
    finally:
        for k, p, out in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    labels, seen, samples, skips = {}, set(), [], {}
    for s in stats:
        for k, n in s['labels'].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in s['skips'].items():
            skips[k] = skips.get(k, 0) + n
        seen.update(s['seen'])
        samples.extend(s['samples'])
    if not samples:
        for s in stats:
            samples.extend(s['samples'])
    cov = {'evaluations': sum(s['evaluations'] for s in stats), 'distinct_nontrivial': len(seen),
           'rule': mod.RULE, 'samples': samples[:6] or ['(none)'],
           'out_of_domain': sum(s['skipped'] for s in stats), 'out_of_domain_reasons': skips,
           'inconclusive': sum(s['inconclusive'] for s in stats),
           'labels': dict(sorted(labels.items()))}
    viols = sorted((s['violation'] for s in stats if s['violation']),
                   key=lambda v: len(json.dumps(v['case'])))
    for s in stats:
        if s.get('extra'):
            for k, v in s['extra'].items():
                cov[k] = cov.get(k, 0) + v if isinstance(v, int) else v
    rc = 0
    if viols:
        v = viols[0]
        msg = None
        if not hasattr(mod, 'NO_CONFIRM'):
            msg = confirm(mod, args.tier, v)
        if msg is None and not hasattr(mod, 'NO_CONFIRM'):
            v['msg'] += '\n(seen during the run, in a process which had run other cases before; ' \
                        'not seen again when run alone)'
        elif msg is not None:
            v['msg'] = msg
        path = write_replay(mod, v, args.tier, args.seed)
        print(v['msg'])
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print(e)
        print('HARNESS ERROR in %d shard(s)' % len(errors))
        rc = 2
    elif cov['evaluations'] == 0:
        print('HARNESS ERROR: nothing was run')
        rc = 2
    if rc == 0 and hasattr(mod, 'findings'):
        known = known_findings(mod.ID)
        rc = run_findings(mod, args, known, cov)
    write_evidence(mod, args.tier, args.seed, cov, time.monotonic() - t0, int(rc == 1))
    print('%s %s: %d cases, %d distinct non-trivial, %d out of domain, %.1fs'
          % (mod.ID, args.tier, cov['evaluations'], cov['distinct_nontrivial'],
             cov['out_of_domain'], time.monotonic() - t0))
    B.prune()
    return rc


def run_findings(mod, args, known, cov):
    """mod.findings() -> [(key, case)]: the inputs which are known to fail. A
    failure which is not listed in KNOWN_FINDINGS.txt is a violation"""
    rc = 0
    n = 0
    ctx = Ctx(mod, args.tier)
    try:
        for key, case in mod.findings():
            n += 1
            try:
                mod.run(case, ctx)
            except Violation as e:
                if key in known:
                    print('KNOWN-FINDING: property=%s %s %s' % (mod.ID, key, known[key]))
                else:
                    v = {'case': case, 'msg': str(e)}
                    path = write_replay(mod, v, args.tier, args.seed)
                    print(e)
                    print('VIOLATION property=%s replay=%s' % (mod.ID, path))
                    rc = 1
    finally:
        ctx.close()
    cov['known_finding_inputs'] = n
    return rc
