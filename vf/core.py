"""The runner shared by all of the checks.

A check is a module vf/checks/<id>.py with a list SUBS of Sub objects. A Sub pairs a Hypothesis strategy, which makes
plain JSON-able cases, with a function deciding one case. Cases are spread over forked worker processes; every random
choice is made by Hypothesis from VERIF_SEED. A failing case is shrunk and saved as the replay file.
"""
import argparse
import errno
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pkgutil
import resource
import shutil
import signal
import sys
import time
import traceback
import warnings

from vf import boot

WORKERS = 8
CPU_LIMIT = 60
SHRINK_SECONDS = 20


class Violation(Exception):
    """The code under test broke the property on a case."""


class HarnessError(Exception):
    """The machinery itself could not decide."""


class Sub(object):
    """One generated check: cases from `strategy`, decided by `decide(case, ctx)`."""

    def __init__(self, name, strategy, decide, quick=400, thorough=8000, fixed=(), known=None):
        self.name = name
        self.strategy = strategy
        self.decide = decide
        self.quick = quick
        self.thorough = thorough
        self.fixed = list(fixed)      # cases always tried
        self.known = known            # predicate: the case runs into a known finding (excluded, and counted)


class Ctx(object):
    """What a decide function reports about the case it is looking at."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.reset()

    def reset(self):
        self.is_nontrivial = False
        self.tags = []

    def nontrivial(self, yes=True):
        self.is_nontrivial = bool(yes)

    def tag(self, *names):
        self.tags.extend(names)

    def sut(self, what=''):
        return _Sut(what)

    def dir(self):
        """A new, empty folder, removed after the case."""
        path = os.path.join(self.scratch, 'case')
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        return path


class _Sut(object):
    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, etype, e, tb):
        if e is not None and isinstance(e, Exception) and not isinstance(e, (Violation, HarnessError)):
            _reraise_environment(e)
            raise Violation('%s raised %s: %s\n%s' % (self.what or 'the code under test', etype.__name__, e,
                                                      ''.join(traceback.format_tb(tb)[-3:])))
        return False


def _reraise_environment(e):
    if isinstance(e, MemoryError) or (isinstance(e, OSError) and
                                      e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EROFS)):
        raise HarnessError('environment: %r' % (e,))


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


# ---------------------------------------------------------------------------------------------------------------------

def case_key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()


def decide_case(sub, case, ctx):
    """Returns None or the text of the violation."""
    import numpy as np
    ctx.reset()
    cwd = os.getcwd()
    # Processor time, not wall-clock time: some thousand times what a case takes, so this is a case that never ends
    signal.signal(signal.SIGPROF, _out_of_time)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            sub.decide(json.loads(json.dumps(case)), ctx)
        return None
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except Exception as e:
        # The oracles are total over what the unchanged code returns; an answer they choke on is a broken answer.
        _reraise_environment(e)
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_exc().splitlines(True)[-8:]))
    except _OutOfTime:
        return 'no answer after %d s of processor time' % CPU_LIMIT
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)


class _OutOfTime(BaseException):
    pass


def _out_of_time(signum, frame):
    raise _OutOfTime()


class _Failed(Exception):
    pass


def run_shard(sub, shard, n, seed, deadline, scratch):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    ctx = Ctx(scratch)
    stats = dict(evaluations=0, nontrivial=set(), tags={}, samples=[], failure=None, skipped=0, excluded=0)
    flag = os.path.join(boot.SCRATCH, 'failed-' + sub.name)     # another worker has a failure: stop looking
    state = dict(first_fail=None, best=None, best_key=None)

    def account(case, key):
        stats['evaluations'] += 1
        if ctx.is_nontrivial:
            stats['nontrivial'].add(key[:16])
            if len(stats['samples']) < 1:
                stats['samples'].append(case)
        for t in ctx.tags:
            stats['tags'][t] = stats['tags'].get(t, 0) + 1

    def one(case):
        key = case_key(case)
        if state['first_fail'] is not None and time.time() - state['first_fail'] > SHRINK_SECONDS:
            # Shrinking has had its time: keep to the smallest failure known.
            if key == state['best_key']:
                raise _Failed(state['best'][1])
            return
        if state['first_fail'] is None and (time.time() > deadline or os.path.exists(flag)):
            stats['skipped'] += 1
            return
        if sub.known is not None and sub.known(case):
            stats['excluded'] += 1
            return
        text = decide_case(sub, case, ctx)
        account(case, key)
        if text is not None:
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
                open(flag, 'w').close()
            state['best'], state['best_key'] = (case, text), key
            raise _Failed(text)

    try:
        if shard == 0:
            for case in sub.fixed:
                one(case)
        if n > 0:
            test = given(sub.strategy)(one)
            test = hypothesis.seed(int(hashlib.md5(('%s/%s/%s' % (seed, sub.name, shard)).encode()).hexdigest()[:12], 16))(test)
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                            verbosity=hypothesis.Verbosity.quiet)(test)
            test()
    except HarnessError:
        raise
    except BaseException as e:
        if state['best'] is None or isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
    if state['best'] is not None:
        stats['failure'] = dict(case=state['best'][0], text=state['best'][1])
    stats['nontrivial'] = sorted(stats['nontrivial'])
    return stats


def _worker(sub, shard, n, seed, deadline, scratch, out):
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(scratch, 'cwd'), exist_ok=True)
    os.chdir(os.path.join(scratch, 'cwd'))
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('VERIF_VERBOSE'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        try:
            result = run_shard(sub, shard, n, seed, deadline, scratch)
        except BaseException:
            result = dict(error=traceback.format_exc())
        with open(out + '.part', 'w') as f:
            json.dump(result, f)
        os.rename(out + '.part', out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def load(pid):
    return importlib.import_module('vf.checks.' + pid)


def prepare():
    """Import the code under test once, before forking."""
    logging.disable(logging.CRITICAL)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.RLIM_INFINITY))
    warnings.simplefilter('ignore')
    import cis
    where = os.path.realpath(os.path.dirname(cis.__file__))
    if where != os.path.realpath(os.path.join(boot.REPO, 'cis')):
        raise HarnessError('cis imported from ' + where)


def known_findings(pid):
    path = os.path.join(boot.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == pid]


def write_replay(pid, sub, failure):
    folder = os.path.join(boot.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s-%s.json' % (pid, sub.name, case_key(failure['case'])[:10]))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, sub=sub.name, case=failure['case'], text=failure['text'],
                       how='/verif/run.py --replay ' + path), f, indent=1)
    return path


def run_check(pid, tier, seed, only=None, cases=None):
    t0 = time.time()
    prepare()
    module = load(pid)
    subs = [s for s in module.SUBS if only is None or s.name == only]
    budget = 240 if tier == 'quick' else 3000
    deadline = t0 + budget
    status = 0

    for finding in known_findings(pid):
        sub = [s for s in module.SUBS if s.name == finding['sub']][0]
        ctx = Ctx(os.path.join(boot.SCRATCH, 'known'))
        if decide_case(sub, finding['case'], ctx) is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, finding['what']))
        else:
            print('note: known finding %s no longer shows' % finding['id'])

    tasks = []
    for sub in subs:
        n = cases if cases is not None else (sub.quick if tier == 'quick' else sub.thorough)
        shards = min(WORKERS, max(1, n // 10))
        for shard in range(shards):
            tasks.append((sub, shard, n // shards + (1 if shard < n % shards else 0)))
    # Spread the work: the first shards of all of the subs first, so that each gets its share early.
    tasks.sort(key=lambda t: t[1])

    ctxm = multiprocessing.get_context('fork')
    results, running, queue = [], [], list(enumerate(tasks))
    sys.stdout.flush()
    hard = deadline + 120
    while queue or running:
        while queue and len(running) < WORKERS:
            i, (sub, shard, n) = queue.pop(0)
            out = os.path.join(boot.SCRATCH, 'result-%d' % i)
            p = ctxm.Process(target=_worker, args=(sub, shard, n, seed, deadline,
                                                   os.path.join(boot.SCRATCH, 'w%d' % i), out))
            p.start()
            running.append((p, sub, shard, out))
        still = []
        for p, sub, shard, out in running:
            p.join(0)
            if p.is_alive():
                if time.time() > hard:
                    p.kill()
                    p.join()
                    results.append((sub, shard, dict(error='worker over its time limit')))
                else:
                    still.append((p, sub, shard, out))
            elif os.path.exists(out):
                results.append((sub, shard, json.load(open(out))))
            else:
                results.append((sub, shard, dict(error='worker died, exit code %s' % p.exitcode)))
        running = still
        time.sleep(0.02)

    per_sub, samples, errors, failures = {}, [], [], {}
    for sub, shard, r in sorted(results, key=lambda x: (x[0].name, x[1])):
        if 'error' in r:
            errors.append('%s/%d: %s' % (sub.name, shard, r['error']))
            continue
        d = per_sub.setdefault(sub.name, dict(evaluations=0, nontrivial=set(), tags={}, skipped=0, excluded_known=0))
        d['evaluations'] += r['evaluations']
        d['skipped'] += r['skipped']
        d['excluded_known'] += r['excluded']
        d['nontrivial'].update(r['nontrivial'])
        for k, v in r['tags'].items():
            d['tags'][k] = d['tags'].get(k, 0) + v
        if shard < 2:
            samples.extend(dict(sub=sub.name, case=c) for c in r['samples'])
        if r['failure']:
            best = failures.get(sub.name)
            size = len(json.dumps(r['failure']['case']))
            if best is None or size < best[0]:
                failures[sub.name] = (size, sub, r['failure'])
    for name in sorted(failures):
        size, sub, failure = failures[name]
        # Believe it only if the plain replay shows it again.
        text = decide_case(sub, failure['case'], Ctx(os.path.join(boot.SCRATCH, 'again')))
        if text is None:
            errors.append('%s: failure does not replay: %s\n%s' % (name, json.dumps(failure['case'])[:2000],
                                                                    failure['text']))
            continue
        path = write_replay(pid, sub, failure)
        print('%s/%s: %s' % (pid, name, text))
        print('case: %s' % json.dumps(failure['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1

    for d in per_sub.values():
        d['nontrivial'] = len(d['nontrivial'])
    evaluations = sum(d['evaluations'] for d in per_sub.values())
    nontrivial = sum(d['nontrivial'] for d in per_sub.values())
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=evaluations, distinct_nontrivial=nontrivial, rule=module.RULE,
                                  samples=[_short(s) for s in samples[:12]], per_sub=per_sub),
                    assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
                    wall_s=round(time.time() - t0, 2), violations=len(failures))
    if only is None:
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(boot.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s' %
          (pid, tier, seed, evaluations, nontrivial, time.time() - t0))
    for name in sorted(per_sub):
        d = per_sub[name]
        print('  %-28s %6d cases %6d non-trivial%s%s  %s' %
              (name, d['evaluations'], d['nontrivial'],
               ' %d skipped (time)' % d['skipped'] if d['skipped'] else '',
               ' %d known' % d['excluded_known'] if d['excluded_known'] else '',
               ' '.join('%s=%d' % kv for kv in sorted(d['tags'].items()))))
    if errors and status == 0:
        sys.stderr.write('harness error:\n' + '\n'.join(errors[:5]) + '\n')
        return 3
    return status


def _short(sample):
    text = json.dumps(sample)
    return sample if len(text) < 4000 else dict(sub=sample['sub'], case_json_prefix=text[:3000])


def replay(path):
    prepare()
    r = json.load(open(path))
    sub = [s for s in load(r['property']).SUBS if s.name == r['sub']][0]
    text = decide_case(sub, r['case'], Ctx(os.path.join(boot.SCRATCH, 'replay')))
    if text is None:
        print('property %s holds on this case' % r['property'])
        return 0
    print(text)
    print('VIOLATION property=%s replay=%s' % (r['property'], os.path.abspath(path)))
    return 1


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    p.add_argument('--sub')
    p.add_argument('--cases', type=int)
    p.add_argument('--replay')
    p.add_argument('--list', action='store_true')
    a = p.parse_args(argv)
    try:
        if a.list:
            for m in pkgutil.iter_modules([os.path.join(boot.VERIF, 'vf', 'checks')]):
                mod = load(m.name)
                print(m.name, [s.name for s in mod.SUBS])
            return 0
        if a.replay:
            return replay(os.path.join(boot.VERIF, a.replay) if not os.path.isabs(a.replay) else a.replay)
        return run_check(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.sub, a.cases)
    except Exception:
        traceback.print_exc()
        return 3
