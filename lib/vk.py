"""Bounded exhaustive exploration driver.

A check module (/verif/checks/<ID>.py) defines

    PROPERTY = '<ID>'
    def groups(tier): -> list of Group

Each Group is a finite, completely enumerated space of executions of the real code: `cases` is a list of plain
(JSON-able) descriptions ordered simplest first, `fn(case)` drives the real code for that case and compares what it
does with the reference model, raising `Fail` on disagreement and returning a hashable digest of the observed
behaviour.  Nothing is sampled: a run ends only when every case of every group has been executed (or when the first
failing cases of a group have been found).  The counters reported in the evidence are measured:

  states       = number of distinct (group, case) input/configuration/history states driven
  transitions  = number of calls into the code under test counted by `tick()`
  outcomes     = number of distinct observed behaviours
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.modules.setdefault('vk', sys.modules[__name__])

NPROC = int(os.environ.get("VK_NPROC", 8))
MAX_FAIL = 3            # failing cases kept per group
WALL_LIMIT = 780.0      # a quick check gets 900 s; normal runs take well under 100 s
_ticks = 0
_KNOWN = {}             # recorded findings of this property: they do not end the exploration of a group


class Fail(Exception):
    """The observed behaviour contradicts the reference model."""


def tick(n=1):
    global _ticks
    _ticks += n


class Group(object):
    def __init__(self, name, cases, fn, chunk=None, note='', serial=False):
        self.name, self.cases, self.fn = name, list(cases), fn
        self.chunk, self.note, self.serial = chunk, note, serial


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, complex):
        return 'complex(%r,%r)' % (x.real, x.imag)
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


def casekey(case):
    return json.dumps(jsonable(case), sort_keys=True)


def _digest(out):
    if out is None:
        return None
    return hashlib.blake2b(repr(out).encode(), digest_size=8).digest()


def run_cases(fn, cases, first_index):
    """Run fn on each case; returns (n, ticks, digests, failures)."""
    global _ticks
    t0 = _ticks
    digests, failures = set(), []
    n = 0
    for k, case in enumerate(cases):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = fn(case)
            d = _digest(out)
            if d is not None:
                digests.add(d)
        except Fail as e:
            failures.append((first_index + k, case, 'FAIL: ' + str(e)))
        except Exception as e:  # the code under test raised where the model says it must answer
            failures.append((first_index + k, case, 'EXCEPTION: %s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc(limit=-4))))
        n += 1
        if len(failures) >= MAX_FAIL + len(_KNOWN):
            break
    return n, _ticks - t0, digests, failures


_CURRENT = []


def _worker(conn):
    """Receives (group index, start, stop), answers with results; one worker process per core."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)       # chatter of the code under test must not reach the verdict channel
    os.dup2(devnull, 2)
    while True:
        job = conn.recv()
        if job is None:
            return
        gi, start, stop = job
        g = _CURRENT[gi]
        try:
            res = run_cases(g.fn, g.cases[start:stop], start)
        except BaseException as e:   # never lose a verdict because of a strange exception
            res = (0, 0, set(), [(start, g.cases[start], 'EXCEPTION: %r' % (e,))])
        conn.send((gi, start, stop, res))


def explore(groups, deadline, report):
    """Run every case of every group over NPROC processes.  A worker that dies (crash in compiled code) or does not
    answer before the deadline is itself a failure of the case it was running."""
    global _CURRENT
    _CURRENT = groups
    jobs = []
    for gi, g in enumerate(groups):
        n = len(g.cases)
        chunk = g.chunk or max(1, min(2000, (n + 4 * NPROC - 1) // (4 * NPROC)))
        if g.serial:
            chunk = max(1, n)
        for s in range(0, n, chunk):
            jobs.append((gi, s, min(n, s + chunk)))
    jobs.reverse()
    ctx = mp.get_context('fork')
    stats = [dict(n=0, ticks=0, digests=set(), failures=[]) for _ in groups]
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return p, a

    def feed(w):
        while jobs:
            job = jobs.pop()
            if len(stats[job[0]]['failures']) >= MAX_FAIL + len(_KNOWN):
                continue          # verdict for this group is already known
            w['job'] = job
            w['conn'].send(job)
            return True
        w['job'] = None
        return False

    for k in range(min(NPROC, len(jobs))):
        p, a = spawn()
        w = dict(p=p, conn=a, job=None)
        workers[k] = w
        feed(w)
    while any(w['job'] is not None for w in workers.values()):
        busy = {w['conn']: w for w in workers.values() if w['job'] is not None}
        ready = mp.connection.wait(list(busy), timeout=max(0.0, min(5.0, deadline - time.time())))
        for c in ready:
            w = busy[c]
            try:
                gi, s, e, (n, t, dg, fl) = c.recv()
                st = stats[gi]
                st['n'] += n
                st['ticks'] += t
                st['digests'] |= dg
                st['failures'].extend(fl)
            except (EOFError, OSError):
                gi, s, e = w['job']
                w['p'].join(5)
                stats[gi]['failures'].append(
                    (s, dict(range=[s, e], first=groups[gi].cases[s], last=groups[gi].cases[e - 1]),
                     'CRASH: the process running these cases died (exit code %s)' % w['p'].exitcode))
                w['p'], w['conn'] = spawn()
            feed(w)
        if time.time() > deadline:
            for w in workers.values():
                if w['job'] is not None:
                    gi, s, e = w['job']
                    stats[gi]['failures'].append(
                        (s, dict(range=[s, e], first=groups[gi].cases[s], last=groups[gi].cases[e - 1]),
                         'HANG: these cases did not finish within the time limit'))
                w['p'].kill()
            break
    for w in workers.values():
        if w['p'].is_alive():
            try:
                w['conn'].send(None)
            except (OSError, ValueError):
                pass
            w['p'].join(2)
            if w['p'].is_alive():
                w['p'].kill()
    return stats


def load_known():
    """known_findings.txt: lines `known: property=<id> group=<name> case=<json> :: <what fails>`"""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                head, what = line[len('known:'):].split(' :: ', 1)
                fields = head.strip().split(' ', 2)
                pid = fields[0].split('=', 1)[1]
                grp = fields[1].split('=', 1)[1]
                case = json.dumps(json.loads(fields[2].split('=', 1)[1]), sort_keys=True)
                known[(pid, grp, case)] = what
    return known


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    known = load_known()
    _KNOWN.update((k, v) for k, v in known.items() if k[0] == pid)
    limit = WALL_LIMIT if tier == 'quick' else 6 * 3600.0
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    failures, per_group, level, assumptions, groups, stats = [], {}, 'model_checking', [], [], []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod = __import__(pid)
            level = getattr(mod, 'LEVEL', 'model_checking')
            assumptions = getattr(mod, 'ASSUMPTIONS', [])
            groups = mod.groups(tier)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/repo/' in fr.filename for fr in tb):
            # the library cannot even be imported / initialised
            failures.append(('import', 0, 'import', 'EXCEPTION: %s' % traceback.format_exc(limit=-6)))
        else:
            traceback.print_exc()
            return 3
    if groups:
        stats = explore(groups, t0 + limit, None)
    states = transitions = 0
    outcomes = 0
    samples = []
    complete = True
    for g, st in zip(groups, stats):
        states += st['n']
        transitions += st['ticks']
        outcomes += len(st['digests'])
        per_group[g.name] = dict(cases=st['n'], of=len(g.cases), calls=st['ticks'],
                                 distinct_outcomes=len(st['digests']), note=g.note)
        complete = complete and st['n'] == len(g.cases)
        if g.cases:
            for idx in sorted({0, len(g.cases) // 2, len(g.cases) - 1}):
                samples.append(dict(group=g.name, index=idx, case=jsonable(g.cases[idx])))
        for idx, case, msg in sorted(st['failures'], key=lambda z: z[0]):
            failures.append((g.name, idx, case, msg))
    lines, violations, shown = [], 0, {}
    for name, idx, case, msg in failures:
        key = (pid, name, casekey(case))
        if key in known:
            lines.append('KNOWN-FINDING: property=%s group=%s case=%s %s' % (pid, name, casekey(case), known[key]))
            continue
        violations += 1
        shown[name] = shown.get(name, 0) + 1
        if shown[name] > 2 or sum(min(v, 2) for v in shown.values()) > 16:
            continue
        path = os.path.join(evdir, 'replay-%s-%d.json' % (pid, violations))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, group=name, index=idx, case=jsonable(case), observed=msg), f,
                      indent=1)
        lines.append('  group=%s index=%d case=%s\n  %s' % (name, idx, casekey(case)[:600], msg.strip()[:900]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=states,
               distinct_outcomes=outcomes, samples=samples[:40], groups=per_group,
               exhaustive=bool(complete and not violations))
    cov['evaluations'] = transitions
    cov['distinct_nontrivial'] = outcomes
    cov['rule'] = ('every case of every group is enumerated (see groups); a case is counted as distinct and '
                   'non-trivial when the observed behaviour of the real code differs from every other case of its '
                   'group')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=list(assumptions), violations=violations)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for name, d in per_group.items():
        print('%s %-28s cases %7d/%-7d calls %8d outcomes %7d' % (
            pid, name, d['cases'], d['of'], d['calls'], d['distinct_outcomes']))
    print('%s %s: states=%d transitions=%d outcomes=%d wall=%.1fs' % (
        pid, tier, states, transitions, outcomes, time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if violations else 0


def replay(path):
    """Re-execute one recorded violation outside the explorer."""
    with open(path) as f:
        r = json.load(f)
    mod = __import__(r['property'])
    for g in mod.groups(r['tier']):
        if g.name == r['group']:
            case = g.cases[r['index']]
            print('group', g.name, 'case', casekey(case))
            print('observed', g.fn(case))
            return 0
    print('no such group')
    return 3


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
