"""Runs the checks of one property in parallel shards and writes evidence / replay files.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: error of the check.
"""
import argparse
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pkgutil
import resource
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_LIMIT = {'quick': 600.0, 'thorough': 14400.0}
SHARDS = 8


def load_props():
    from . import props
    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
        importlib.import_module('melver.props.' + m)
    from .lib import REGISTRY
    return REGISTRY


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def brief(case, limit=600) -> object:
    s = canon(case)
    return case if len(s) <= limit else s[:limit] + '...'


def derive_seed(seed: int, *parts) -> int:
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def blames_repo(exc: BaseException) -> bool:
    """The exception passed through code of /repo, or exhausted the interpreter while running it."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith('/repo/'):
            return True
        tb = tb.tb_next
    # Every case runs cleanly while the property holds, so where the harness trips over a value it was given (None for a track, a
    # special method that returns the wrong type), the value is what is wrong; only trouble of the environment stays a harness error.
    return isinstance(exc, (RecursionError, MemoryError, AttributeError, TypeError, ValueError, LookupError, ArithmeticError))


class Stop(BaseException):
    pass


class Shard:
    """One worker process: one sub-check, one seed."""

    def __init__(self, prop_id, sub, tier, seed, index, nshards, out, deadline):
        self.prop_id, self.sub, self.tier, self.seed = prop_id, sub, tier, seed
        self.index, self.nshards, self.out, self.deadline = index, nshards, out, deadline
        self.evaluations = 0
        self.labels = collections.Counter()
        self.nontrivial = set()
        self.samples = []
        self.failure = None          # (case, message)
        self.harness_error = None
        self.truncated = False
        self.recent = collections.deque(maxlen=40)
        self.current = None

    # -- one case ---------------------------------------------------------------------------------
    def execute(self, case):
        from .lib import Violation, fresh_case
        self.current = case
        signal.setitimer(signal.ITIMER_VIRTUAL, self.sub.cpu_limit)
        try:
            fresh_case()
            labels = list(self.sub.run(case) or ())
        except Violation as e:
            self.failure = (case, str(e)[:2000])
            raise
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            if blames_repo(e):
                msg = 'unexpected %s: %s\n%s' % (
                    type(e).__name__, str(e)[:300], ''.join(traceback.format_exception(e, limit=-6))[-1500:])
                self.failure = (case, msg)
                raise Violation(msg.splitlines()[0]) from e
            self.harness_error = traceback.format_exc()
            self.failure = None
            raise Stop() from e
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return labels

    def record(self, case, labels):
        self.evaluations += 1
        for l in labels:
            self.labels[l] += 1
        if 'nontrivial' in labels:
            h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and len(self.nontrivial) % 7 == 3:
                    self.samples.append(brief(case))

    def on_cpu(self, *_):
        self.failure = (self.current, 'the code under test did not return within %g s of CPU time' % self.sub.cpu_limit)
        self.finish(flaky=True)
        os._exit(0)

    # -- drivers ----------------------------------------------------------------------------------
    def run(self):
        signal.signal(signal.SIGVTALRM, self.on_cpu)
        soft = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
        flaky = False
        try:
            if self.sub.enumerate is not None:
                self.run_enumerated()
            if self.failure is None and self.sub.strategy is not None:
                flaky = self.run_random()
        except Stop:
            pass
        except BaseException:                       # noqa: BLE001
            if self.failure is None:
                self.harness_error = traceback.format_exc()
        self.finish(flaky)

    def run_enumerated(self):
        from .lib import Violation
        for case in itertools.islice(self.sub.enumerate(self.tier), self.index, None, self.nshards):
            if time.monotonic() > self.deadline:
                self.truncated = True
                return
            try:
                labels = self.execute(case)
            except Violation:
                return
            self.record(case, labels)
            self.recent.append(case)

    def run_random(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from .lib import Violation
        total = self.sub.quick if self.tier == 'quick' else self.sub.thorough
        n = max(1, -(-total // self.nshards))
        me = self
        history_at_failure = []

        @hypothesis.seed(derive_seed(self.seed, self.prop_id, self.sub.name, self.index))
        @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @given(self.sub.strategy(self.tier))
        def test(case):
            if time.monotonic() > me.deadline:
                me.truncated = True
                return
            try:
                labels = me.execute(case)
            except Violation:
                if not history_at_failure:
                    history_at_failure.extend(me.recent)
                raise
            if me.failure is None:
                me.record(case, labels)
                me.recent.append(case)

        try:
            test()
        except Violation:
            return False
        except Stop:
            raise
        except Exception as e:                       # noqa: BLE001
            if self.failure is not None:
                # did not reproduce on replay: the code under test keeps state between cases
                self.recent = collections.deque(history_at_failure)
                return True
            raise
        return False

    def finish(self, flaky=False):
        from .lib import KNOWN_SEEN
        res = dict(sub=self.sub.name, index=self.index, evaluations=self.evaluations, labels=dict(self.labels),
                   nontrivial=[h.hex() for h in self.nontrivial], samples=self.samples, truncated=self.truncated,
                   harness_error=self.harness_error, known=dict(KNOWN_SEEN))
        if self.failure is not None:
            res['failure'] = dict(case=self.failure[0], message=self.failure[1], flaky=flaky,
                                  history=list(self.recent) if flaky else [])
        with open(self.out, 'w') as f:
            json.dump(res, f)


def worker(args):
    try:
        Shard(*args).run()
    except BaseException:                            # noqa: BLE001
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def run_tasks(tasks, jobs):
    """tasks: list of (args) for worker; runs at most `jobs` at a time; yields nothing, files hold results."""
    ctx = mp.get_context('fork')
    pending, running = list(tasks), []
    while pending or running:
        while pending and len(running) < jobs:
            p = ctx.Process(target=worker, args=(pending.pop(0),))
            p.start()
            running.append(p)
        still = []
        for p in running:
            p.join(timeout=0.02)
            if p.is_alive():
                still.append(p)
        running = still


def replay(prop, path):
    """Re-runs the saved case without the library: exit 1 if it still fails."""
    from .lib import Violation, fresh_case
    with open(path) as f:
        data = json.load(f)
    sub = next(s for s in prop.subs if s.name == data['sub'])
    signal.signal(signal.SIGVTALRM, lambda *_: (print('did not return'), sys.stdout.flush(), os._exit(1)))
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_limit * (1 + len(data.get('history', []))))
    for case in data.get('history', []):
        try:
            fresh_case()
            sub.run(case)
        except Exception:                            # noqa: BLE001
            pass
    try:
        fresh_case()
        sub.run(data['case'])
    except Violation as e:
        print('reproduced:', e)
        return 1
    except Exception as e:                           # noqa: BLE001
        traceback.print_exc()
        return 1 if blames_repo(e) else 2
    print('not reproduced')
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--sub', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    sys.set_int_max_str_digits(0)
    t0 = time.monotonic()
    registry = load_props()
    prop = registry[a.property]
    if a.replay:
        return replay(prop, a.replay)
    scratch = os.environ.get('MELVER_SCRATCH') or '/tmp'
    jobs = a.jobs or os.cpu_count() or 4
    deadline = t0 + WALL_LIMIT[tier]
    subs = [s for s in prop.subs if a.sub is None or s.name == a.sub]
    tasks = []
    for i in range(SHARDS):
        for s in subs:
            out = os.path.join(scratch, f'{prop.id}-{s.name}-{i}.json')
            tasks.append((prop.id, s, tier, seed, i, SHARDS, out, deadline))
    run_tasks(tasks, jobs)

    results = []
    errors = []
    for t in tasks:
        try:
            with open(t[6]) as f:
                results.append(json.load(f))
        except (OSError, ValueError):
            errors.append(f'{t[1].name} shard {t[4]} ended without a result')
    errors += [f"{r['sub']} shard {r['index']}: {r['harness_error']}" for r in results if r['harness_error']]

    if prop.fuzz is not None and tier == 'thorough' and a.sub is None:
        fz = prop.fuzz(seed, scratch)
        results.append(fz)
        if fz.get('harness_error'):
            errors.append('fuzzer: ' + fz['harness_error'])

    per_sub, samples, labels_all = {}, [], {}
    evaluations = 0
    distinct = 0
    known_seen = collections.Counter()
    truncated = any(r['truncated'] for r in results)
    names = [s.name for s in subs] + [r['sub'] for r in results if r['sub'] not in {s.name for s in subs}]
    for name in names:
        rs = [r for r in results if r['sub'] == name]
        ev = sum(r['evaluations'] for r in rs)
        nt = set()
        for r in rs:
            nt.update(r['nontrivial'])
        labels = collections.Counter()
        for r in rs:
            labels.update(r['labels'])
            known_seen.update(r.get('known', {}))
        smp = [x for r in rs for x in r['samples']][:3]
        evaluations += ev
        distinct += len(nt)
        per_sub[name] = dict(evaluations=ev, distinct_nontrivial=len(nt), labels=dict(sorted(labels.items())))
        samples += [dict(check=name, case=x) for x in smp]
    failures = [r for r in results if r.get('failure')]
    wall = time.monotonic() - t0
    coverage = dict(
        evaluations=evaluations, distinct_nontrivial=distinct,
        rule='; '.join(f'{s.name}: {s.rule}' for s in subs), samples=samples[:12], checks=per_sub)
    if truncated:
        coverage['truncated_by_time_budget'] = True
    if known_seen:
        coverage['known_findings_met'] = dict(known_seen)
    evidence = dict(property=prop.id, tier=tier, seed=seed, level='exploration', coverage=coverage,
                    assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(failures))
    if a.sub is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if a.v:
        print(json.dumps(evidence, indent=1))

    if failures:
        r = failures[0]
        order = {s.name: i for i, s in enumerate(subs)}
        failures.sort(key=lambda r: (r['failure']['flaky'], order.get(r['sub'], 99), len(canon(r['failure']['case']))))
        r = failures[0]
        fl = r['failure']
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        digest = hashlib.sha256(canon([r['sub'], fl['case']]).encode()).hexdigest()[:12]
        path = os.path.join(HERE, 'replays', f'{prop.id}-{r["sub"]}-{digest}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop.id, sub=r['sub'], seed=seed, message=fl['message'], case=fl['case'],
                           history=fl['history'], rerun=f'./check {prop.id} --replay {path}'), f, indent=1)
        print(f'{prop.id} [{r["sub"]}] {fl["message"]}')
        print(f'case: {brief(fl["case"])}')
        print(f'VIOLATION property={prop.id} replay={path}')
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    from .lib import KNOWN
    for key, (pid, text) in sorted(KNOWN.items()):
        if pid == prop.id and known_seen.get(key):
            print(f'KNOWN-FINDING: property={pid} {text}')
    print(f'{prop.id} held: {evaluations} cases, {distinct} distinct non-trivial, {wall:.1f} s'
          + (' (stopped by the time budget)' if truncated else ''))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:                            # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
