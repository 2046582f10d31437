"""Exhaustive bounded exploration driver shared by every check.

A check is a module in /verif/checks exposing an object CHECK (subclass of Check):

  spaces(tier) -> list of (space_name, iterator of JSON-able case descriptors)
        The iterator *is* the bounded space: every descriptor it yields is executed.
  run(case)   -> an observed outcome (hashable), or raises Violation.
        One case may itself explore a family of executions (all schedules of one workload, ...):
        it reports how many with self.count(executions=..., states=..., transitions=...).

The driver enumerates everything, splits it over forked workers, never samples, and turns the
simplest (first in enumeration order) violation into a replayable artefact.
"""
import argparse
import collections
import hashlib
import importlib
import itertools
import json
import os
import re
import resource
import signal
import sys
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


class Check:
    id = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    case_timeout = 60
    workers = 8
    chunk = 1            # cases per scheduling unit
    bound = {}           # tier -> text
    exhaustive = True

    def __init__(self):
        self.stats = collections.Counter()
        self.tier = 'quick'

    # -- to be defined by the check
    def spaces(self, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def outcome(self):
        """what a case came to, where run() returns nothing"""
        from . import v8conf
        return v8conf.LAST[0]

    def setup(self):
        """once per process, before the first case"""

    def conformance(self):
        """model/seam validation against the real thing; returns number of traces validated"""
        return 0

    # -- helpers
    def count(self, **kw):
        self.stats.update(kw)

    def fail(self, message, key=None):
        raise Violation(message, key)


def _alarm(signum, frame):
    raise CaseTimeout()


def from_code_under_test(tb):
    """Did the exception come out of the code under test (or something it called)?"""
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(env.SRC + os.sep):
            return True
        tb = tb.tb_next
    return False


def short(err):
    text = str(err).strip() or err.__class__.__name__
    text = re.sub(r'/(dev/shm|tmp)/v8mc-[^/\s]*', '<scratch>', text)
    return f'{err.__class__.__name__}: {text[:600]}'


STOP_AFTER = int(os.environ.get('VERIF_STOP', '40'))


def execute(check, case):
    """-> (outcome, None) | (None, violation dict). Harness errors propagate."""
    env.ENV.reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, check.case_timeout)
    try:
        outcome = check.run(case)
        return check.outcome() if outcome is None else outcome, None
    except Violation as err:
        return None, dict(message=err.message, key=err.key)
    except CaseTimeout:
        return None, dict(message=f'did not finish within {check.case_timeout} s', key=None)
    except (MemoryError, RecursionError) as err:
        return None, dict(message=f'exhausted resources: {err.__class__.__name__}', key=None)
    except Exception as err:
        if from_code_under_test(err.__traceback__):
            return None, dict(message='unexpected failure of the code under test: ' + short(err), key=None)
        if isinstance(err, OSError) and not isinstance(err, (FileNotFoundError, NotADirectoryError, IsADirectoryError)):
            raise
        # no case does this on the unchanged tree: the results are not of the form they have to have
        where = err.__traceback__
        while where.tb_next:
            where = where.tb_next
        where = f'{os.path.basename(where.tb_frame.f_code.co_filename)}:{where.tb_lineno}'
        return None, dict(message=f'results the check can make nothing of ({where}): ' + short(err), key=None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def canon(obj):
    return json.dumps(obj, ensure_ascii=False, sort_keys=True)


def _outcome_hash(outcome):
    return hashlib.sha1(repr(outcome).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def _worker(check, wid, nworkers, spaces, out_fd, deadline, stride=1):
    """Worker wid executes the scheduling units u with u % nworkers == wid."""
    env.worker_scratch(f'w{wid}')
    env.drop_privileges()
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = open(1, 'w', closefd=False)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    res = dict(cases=collections.Counter(), outcomes=set(), violations=[], error=None, samples=[],
               capped=False)
    try:
        check.setup()
        index = 0
        nviol = 0
        for space, cases in spaces:
            for case in cases:
                unit = index // check.chunk
                index += 1
                if unit % nworkers != wid or unit % stride:
                    continue
                if deadline and time.time() > deadline:
                    res['capped'] = True
                    break
                outcome, violation = execute(check, case)
                res['cases'][space] += 1
                if violation is not None:
                    violation.update(index=index - 1, space=space, case=case)
                    res['violations'].append(violation)
                    nviol += 1
                    if nviol >= STOP_AFTER:
                        res['capped'] = True
                        break
                else:
                    res['outcomes'].add(_outcome_hash(outcome))
                    if len(res['samples']) < 2:
                        res['samples'].append(dict(space=space, case=case, outcome=repr(outcome)[:200]))
            if res['capped']:
                break
    except BaseException as err:  # harness error
        res['error'] = traceback.format_exc() + f'\ncase={locals().get("case")!r}'[:2000]
    res['outcomes'] = sorted(res['outcomes'])
    res['cases'] = dict(res['cases'])
    res['stats'] = dict(check.stats)
    data = json.dumps(res, ensure_ascii=False).encode()
    with os.fdopen(out_fd, 'wb') as f:
        f.write(data)
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path, encoding='utf-8') as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--workers', type=int)
    parser.add_argument('--space', help='only spaces whose name contains this')
    parser.add_argument('--no-evidence', action='store_true')
    parser.add_argument('--stride', type=int, default=1,
                        help='for tools/mutate.py only: every Nth case, no evidence')
    args = parser.parse_args(argv)
    if args.stride != 1 and not args.no_evidence:
        parser.error('--stride needs --no-evidence')
    seed = os.environ.get('VERIF_SEED', '1')
    begin = time.time()
    env.install()
    env.scratch()
    module = importlib.import_module('checks.' + args.property)
    check = module.CHECK
    check.tier = args.tier

    if args.replay:
        return replay(check, args.replay)

    spaces = check.spaces(args.tier)
    if args.space:
        spaces = [s for s in spaces if args.space in s[0]]
    n = args.workers or check.workers
    sys.stdout.flush()
    sys.stderr.flush()
    pipes = []
    for wid in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _ in pipes:
                os.close(rr)
            _worker(check, wid, n, spaces, w, None, args.stride)
        os.close(w)
        pipes.append((r, pid))
    results = []
    for r, pid in pipes:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            print(f'{args.property}: worker died (killed?)', file=sys.stderr)
            return 2
        results.append(json.loads(data))

    errors = [x['error'] for x in results if x['error']]
    cases = collections.Counter()
    stats = collections.Counter()
    outcomes = set()
    violations, samples = [], []
    for x in results:
        cases.update(x['cases'])
        stats.update(x['stats'])
        outcomes.update(x['outcomes'])
        violations.extend(x['violations'])
        samples.extend(x['samples'])
    violations.sort(key=lambda v: v['index'])
    validated = 0
    if not errors and not violations:
        old = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(devnull, 1)
        try:
            env.worker_scratch('main')
            check.setup()
            validated = check.conformance()
        except Violation as err:
            violations.append(dict(message=err.message, key=err.key, index=-1, space='conformance',
                                   case='conformance'))
        except Exception as err:
            if from_code_under_test(err.__traceback__):
                violations.append(dict(message='unexpected failure of the code under test: ' + short(err),
                                       key=None, index=-1, space='conformance', case='conformance'))
            else:
                errors.append(traceback.format_exc())
        finally:
            sys.stdout.flush()
            os.dup2(old, 1)

    known = [k for k in load_known() if k.get('property') == args.property and 'key' in k
             and not k.get('fixed')]
    known_keys = {k['key']: k for k in known}
    seen_known = collections.OrderedDict()
    fresh = []
    for v in violations:
        if v['key'] is not None and v['key'] in known_keys:
            seen_known[v['key']] = known_keys[v['key']]
        else:
            fresh.append(v)
    for k in seen_known.values():
        print(f'KNOWN-FINDING: property={args.property} {k["what"]}')

    total = sum(cases.values())
    executions = stats.get('executions', 0) or total
    states = stats.get('states', 0) or total
    transitions = stats.get('transitions', 0) or executions
    traces = stats.get('traces', 0) + validated
    wall = round(time.time() - begin, 2)
    capped = any(x['capped'] for x in results)

    rc = 0
    replay_path = None
    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        replay_path = os.path.join(VERIF, 'evidence', 'replay', f'{args.property}.json')
        with open(replay_path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=args.property, tier=args.tier, space=v['space'], case=v['case'],
                           message=v['message'], key=v['key'],
                           how='cd /verif && ./check %s --replay %s' % (args.property, replay_path)),
                      f, ensure_ascii=False, indent=1)
        rc = 1

    if not args.no_evidence:
        coverage = dict(
            states=max(1, states), transitions=max(1, transitions),
            traces_validated_against_impl=max(traces, executions),
            evaluations=executions, distinct_nontrivial=len(outcomes),
            rule=check.rule or (check.__doc__ or '').strip(),
            cases_per_space=dict(cases), exhaustive=bool(check.exhaustive and not capped and not args.space),
            bound=check.bound.get(args.tier, ''), extra=dict(stats),
            samples=[canon(s)[:400] for s in samples[:6]] or ['none'],
        )
        evidence = dict(property=args.property, tier=args.tier, seed=int(seed) if seed.isdigit() else seed,
                        level=check.level, coverage=coverage, wall_s=wall,
                        assumptions=list(check.assumptions), violations=len(fresh),
                        known_findings=sorted(seen_known))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{args.property}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, ensure_ascii=False, indent=1)

    if fresh:
        print(f'VIOLATION property={args.property} replay={replay_path}')
        v = fresh[0]
        print(f'  [{v["space"]}] {v["message"][:1500]}')
        print(f'  case: {canon(v["case"])[:700]}')
        if len(fresh) > 1:
            print(f'  ({len(fresh)} failing cases in all)')
        if os.environ.get('VERIF_ALL'):
            groups = collections.OrderedDict()
            for v in fresh:
                groups.setdefault((v['space'], v['message'][:int(os.environ.get('VERIF_GROUP', 60))]), []).append(v)
            for (space, _), vs in list(groups.items())[:int(os.environ['VERIF_ALL'])]:
                print(f'  - {len(vs)}x [{space}] {vs[0]["message"][:300]} :: {canon(vs[0]["case"])[:300]}')
    if errors:
        print(f'{args.property}: harness error\n{errors[0]}', file=sys.stderr)
        if not fresh:
            return 2
    print(f'{args.property} {args.tier}: cases={total} executions={executions} states={states} '
          f'transitions={transitions} outcomes={len(outcomes)} validated={validated} '
          f'violations={len(fresh)} known={len(seen_known)} wall={wall}s')
    return rc


def replay(check, path):
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    env.worker_scratch('replay')
    check.tier = data.get('tier', 'quick')
    check.setup()
    if data['case'] == 'conformance':
        try:
            check.conformance()
            violation = None
        except Violation as err:
            violation = dict(message=err.message)
    else:
        _, violation = execute(check, data['case'])
        _, again = execute(check, data['case'])
        if (violation is None) != (again is None):
            print('replay is not deterministic', file=sys.stderr)
            return 2
    if violation:
        print(f'VIOLATION property={check.id} replay={path}')
        print('  ' + violation['message'][:3000])
        return 1
    print('not reproduced')
    return 0


# ---------------------------------------------------------------------------------------------
# Stateless exploration by replayed choice prefixes
# ---------------------------------------------------------------------------------------------

class Chooser:
    """Deterministic choice oracle: replays a prefix, then answers 0; records the branching."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []      # (choice, n)

    def __call__(self, n, label=None):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(f'replay diverged: choice {c} of {n} at {i}')
        self.trace.append((c, n))
        return c


def explore(body, max_deviations=None, limit=None):
    """Runs body(chooser) for every sequence of choices (with at most max_deviations non-zero)."""
    stack = [()]
    runs = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        yield ch, body(ch)
        runs += 1
        if limit and runs >= limit:
            raise RuntimeError('exploration limit hit')
        dev = sum(1 for c in prefix if c)
        if max_deviations is not None and dev >= max_deviations:
            continue
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            base = tuple(c for c, _ in ch.trace[:i])
            for alt in range(ch.trace[i][1] - 1, 0, -1):
                stack.append(base + (alt,))


def product(**axes):
    """All combinations as dicts, last axis fastest."""
    keys = list(axes)
    for values in itertools.product(*axes.values()):
        yield dict(zip(keys, values))
