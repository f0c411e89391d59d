"""Running one property: cases, counting, shrinking, replay, evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('OCCU_EVIDENCE') or os.path.join(VERIF, 'evidence')    # overridden only when developing
IDS = ['C%02d' % i for i in range(1, 45)]


class Violation(AssertionError):
    """The property does not hold for the current case."""


class Test:
    """One executable form of a property.

    strategy: Hypothesis strategy of JSON-able cases (called lazily, returns strategy)
    check:    check(case, rec) raises Violation; rec(label, ..., nontrivial=bool)
    """

    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Hang(BaseException):
    """A single case did not come to an end."""


HANG_S = 150        # a case takes milliseconds to seconds
SHRINK_S = 75       # time to shrink a failing case, per shard
GRACE_S = 200       # time for the other shards once one has found a failing case


class Rec:
    """What one case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def known(self, fid, message):
        """This input fails in the way of a listed finding; a violation when it is not listed."""
        if fid not in known_findings():
            raise Violation(message)
        self.labels.add('known finding: ' + fid)

    def __call__(self, *labels, nontrivial=None):
        self.labels.update(labels)
        if nontrivial:
            self.nontrivial = True


def known_findings():
    """id -> (property, text) of the findings recorded, not repaired (see DESIGN.md)."""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
        for line in fh:
            m = re.match(r'KNOWN: property=(C\d\d) id=(\S+) (.*)', line)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def _on_hang(signum, frame):
    raise Hang()


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


@contextlib.contextmanager
def sut(what):
    """Calls into the code under test on valid input: any exception breaks the property."""
    try:
        yield
    except Violation:
        raise
    except Exception as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        where = ''
        for fr in tb:
            if '/occuprob/' in fr.filename:
                where = f' ({os.path.basename(fr.filename)}:{fr.name})'
        raise Violation(f'{what}: raised {type(exc).__name__}: {exc}{where}') from exc


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def shorten(obj, limit=1500):
    text = canon(obj)
    if len(text) <= limit:
        return obj
    return {'truncated_json': text[:limit] + '...', 'length': len(text)}


def load_tests(pid):
    mod = importlib.import_module(f'occu_pbt.props.{pid.lower()}')
    return mod.TESTS


def run_test(test, n, seed, out, early=None):
    """Run one Test under Hypothesis; fills `out`; returns None or (case, message).

    early(case, message) is told of the first failing case, before it is shrunk.
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    stats = out['tests'].setdefault(test.name, {'evaluations': 0, 'nontrivial': 0, 'labels': {}})
    state = {'fail': None, 'msg': None, 'since': 0.0, 'seen': {}, 'kind': Violation}

    def failed(case, message):
        if state['fail'] is None:
            state['since'] = time.time()
            if early:
                early(case, message)
        state['fail'], state['msg'] = case, message
        state['seen'][canon(case)] = message

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(test.strategy())
    def prop(case):
        rec = Rec()
        if state['fail'] is None:
            stats['evaluations'] += 1
        elif time.time() - state['since'] > SHRINK_S:
            # time to stop shrinking: nothing new is tried, what failed before fails again
            if canon(case) in state['seen']:
                raise state['kind'](state['seen'][canon(case)])
            return
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            test.check(case, rec)
        except Hang:
            if state['fail'] is None:
                failed(case, f'did not come to an end within {HANG_S} s')
                state['kind'], state['since'] = Hang, 0.0
            raise
        except Violation as exc:
            failed(case, str(exc))
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if state['fail'] is None:
            for label in rec.labels:
                stats['labels'][label] = stats['labels'].get(label, 0) + 1
            if rec.nontrivial:
                stats['nontrivial'] += 1
                digest = hashlib.blake2b((test.name + canon(case)).encode(), digest_size=8).hexdigest()
                if digest not in out['hashes']:
                    out['hashes'].add(digest)
                    kept = out['samples'].setdefault(test.name, [])
                    if not kept or (len(kept) == 1 and stats['nontrivial'] >= 25):
                        kept.append(shorten(case))
    try:
        prop()
    except (Violation, Hang):
        return state['fail'], state['msg']
    except hypothesis.errors.Flaky as exc:
        # Did not fail again when Hypothesis re-ran it.  Decide on the saved case itself.
        if state['fail'] is not None:
            for _ in range(3):
                try:
                    test.check(state['fail'], Rec())
                except Violation as v:
                    return state['fail'], str(v)
        raise env.HarnessError(f'{test.name}: not reproducible: {exc}') from exc
    return None


def derive(seed, *parts):
    h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=6).hexdigest()
    return int(h, 16)


def worker(pid, tier, seed, shard, nshards, resultfile, scratch):
    """One shard, in its own process."""
    signal.signal(signal.SIGALRM, _on_hang)
    os.chdir(scratch)
    env.bootstrap(scratch)
    random.seed(seed)
    out = {'tests': {}, 'hashes': set(), 'samples': {}, 'failures': [], 'rules': {}, 'known': []}
    if shard == 0:
        listed = known_findings()
        mod = importlib.import_module(f'occu_pbt.props.{pid.lower()}')
        for fid, probe in getattr(mod, 'KNOWN', {}).items():
            failing = probe()
            if failing and fid in listed:
                out['known'].append(f'KNOWN-FINDING: property={pid} {listed[fid][1]}')
            elif failing:
                out['failures'].append({'test': 'known:' + fid, 'case': {'known': fid}, 'message': failing})
    for test in load_tests(pid):
        out['rules'][test.name] = test.rule
        total = test.quick if tier == 'quick' else test.thorough
        total = max(1, int(total * float(os.environ.get('OCCU_PBT_SCALE') or 1)))    # scaled only when developing
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        t0 = time.time()

        def early(case, message, name=test.name):
            with open(resultfile + '.part', 'w') as fh:
                json.dump({'test': name, 'case': case, 'message': message}, fh)
            os.rename(resultfile + '.part', resultfile + '.fail')
        try:
            bad = run_test(test, n, derive(seed, pid, test.name, shard), out, early)
        except env.HarnessError:
            if os.path.exists(resultfile + '.fail'):
                os.remove(resultfile + '.fail')
            raise
        out['tests'][test.name]['cpu_s'] = round(time.time() - t0, 2)
        if bad:
            out['failures'].append({'test': test.name, 'case': bad[0], 'message': bad[1]})
            break
    out['hashes'] = sorted(out['hashes'])
    with open(resultfile, 'w') as fh:
        json.dump(out, fh)


def replay(path):
    with open(path) as fh:
        rep = json.load(fh)
    scratch = env.make_scratch('replay')
    try:
        os.chdir(scratch)
        env.bootstrap(scratch)
        signal.signal(signal.SIGALRM, _on_hang)
        signal.setitimer(signal.ITIMER_REAL, 2 * HANG_S)
        try:
            if rep['test'].startswith('known:'):
                mod = importlib.import_module(f"occu_pbt.props.{rep['property'].lower()}")
                require(not mod.KNOWN[rep['case']['known']](), 'still fails')
            else:
                test = {t.name: t for t in load_tests(rep['property'])}[rep['test']]
                test.check(rep['case'], Rec())
        except Hang:
            print('the case did not come to an end')
            print(f"VIOLATION property={rep['property']} replay={path}")
            return 1
        except Violation as exc:
            print(exc)
            print(f"VIOLATION property={rep['property']} replay={path}")
            return 1
        print('the property holds for this case')
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def evidence_path(pid):
    return os.path.join(EVIDENCE, pid + '.json')


def wait_all(procs, limit):
    """Wait for the shards; once one has found a failing case the others get GRACE_S to finish."""
    grace = 0.0 if os.environ.get('OCCU_PBT_FAILFAST') else GRACE_S      # FAILFAST: only when developing
    while any(proc.poll() is None for _, proc, _, _ in procs) and time.time() < limit:
        time.sleep(0.1)
        if any(os.path.exists(res + '.fail') for _, _, res, _ in procs):
            limit = min(limit, time.time() + grace)
            grace = max(grace, GRACE_S)
    for _, proc, _, _ in procs:
        if proc.poll() is None:
            proc.kill()


def main_check(pid, tier, seed):
    t0 = time.time()
    nshards = int(os.environ.get('OCCU_PBT_SHARDS') or max(1, min(8, os.cpu_count() or 1)))
    scratch = env.make_scratch(pid)
    procs, rc = [], 0
    try:
        for i in range(nshards):
            sdir = os.path.join(scratch, f's{i}')
            os.makedirs(sdir)
            res = os.path.join(scratch, f'r{i}.json')
            e = dict(os.environ, **env.THREAD_ENV)
            for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTEST_ADDOPTS'):
                e.pop(k, None)
            e.update(HOME=sdir, TMPDIR=sdir, PYTHONPATH=VERIF, GIT_OPTIONAL_LOCKS='0',
                     GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1')
            cmd = [sys.executable, '-m', 'occu_pbt.worker', pid, tier, str(seed), str(i),
                   str(nshards), res, sdir]
            log = open(os.path.join(scratch, f'l{i}.txt'), 'w')
            procs.append((i, subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT,
                                              stdin=subprocess.DEVNULL, cwd=sdir), res, log))
        results, errors, partial = [], [], []
        limit = t0 + float(os.environ.get('OCCU_PBT_LIMIT', '850' if tier == 'quick' else '14000'))
        wait_all(procs, limit)
        for i, proc, res, log in procs:
            code = proc.wait()
            log.close()
            if not os.path.exists(res) and os.path.exists(res + '.fail'):
                with open(res + '.fail') as fh:
                    partial.append(json.load(fh))
            elif code != 0 or not os.path.exists(res):
                with open(log.name) as fh:
                    errors.append(f'shard {i} exit {code}: ' + fh.read()[-3000:])
            else:
                with open(res) as fh:
                    results.append(json.load(fh))
        failures = [f for r in results for f in r['failures']] or partial
        failures.sort(key=lambda f: (len(canon(f['case'])), canon(f['case'])))
        tests, hashes, samples = {}, set(), []
        for r in results:
            hashes.update(r['hashes'])
            for name, s in r['tests'].items():
                d = tests.setdefault(name, {'evaluations': 0, 'nontrivial': 0, 'labels': {}})
                d['evaluations'] += s['evaluations']
                d['nontrivial'] += s['nontrivial']
                for k, v in s['labels'].items():
                    d['labels'][k] = d['labels'].get(k, 0) + v
            for name, cs in r['samples'].items():
                if sum(1 for x in samples if x['test'] == name) < 2:
                    samples += [{'test': name, 'case': c} for c in cs[-1:]]
        for d in tests.values():
            d['labels'] = dict(sorted(d['labels'].items()))
        rules = {k: v for r in results for k, v in r['rules'].items()}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {
                  'evaluations': sum(d['evaluations'] for d in tests.values()),
                  'distinct_nontrivial': len(hashes),
                  'rule': 'Cases are drawn by Hypothesis; non-trivial per test: '
                          + ' | '.join(f'{k}: {v}' for k, v in rules.items()),
                  'samples': samples or [f for f in failures[:1]],
                  'per_test': tests, 'shards': nshards},
              'assumptions': ['third-party packages (numpy, ase, pymatgen, matplotlib, mpmath, '
                              'hypothesis) are the installed versions and are not under test'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(failures)}
        os.makedirs(os.path.dirname(evidence_path(pid)), exist_ok=True)
        with open(evidence_path(pid), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for r in results:
            for line in r['known']:
                print(line)
        if failures:
            f = failures[0]
            rdir = os.path.join(EVIDENCE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{pid}-{f["test"]}.json')
            with open(path, 'w') as fh:
                json.dump({'property': pid, **f}, fh, indent=1)
            print(f'{f["test"]}: {f["message"]}')
            print(f'case: {canon(shorten(f["case"]))}')
            print(f'VIOLATION property={pid} replay={path}')
            rc = 1
        elif errors:
            print('\n'.join(errors))
            print(f'{pid}: harness error, no verdict')
            rc = 2
        else:
            print(f"{pid}: held on {ev['coverage']['evaluations']} cases "
                  f"({len(hashes)} distinct non-trivial), {ev['wall_s']} s")
        return rc
    finally:
        for _, proc, _, _ in procs:
            if proc.poll() is None:
                proc.kill()
        shutil.rmtree(scratch, ignore_errors=True)
