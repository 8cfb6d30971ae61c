"""Bounded exhaustive exploration driver shared by every check.

A check module provides
  PID, LEVEL, ASSUMPTIONS, BOUND (text)
  cases(tier)      -> iterable of JSON-able cases: the whole bounded space, simplest first, no sampling
  run_case(case)   -> Result: drive the real code through that case and compare with the reference model
optional: setup(), finish(results summary) -> list of problems that need the whole run.
Each case may itself be an explicit-state exploration and reports the states and transitions it covered.
"""
import json, os, sys, time, traceback, signal, fnmatch, multiprocessing as mp
from dataclasses import dataclass, field
from . import env


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


@dataclass
class Result:
    states: int = 1            # distinct states (inputs, model states) this case covered
    transitions: int = 1       # steps of the real implementation that were compared with the model
    traces: int = 1            # whole behaviours replayed on the implementation
    outcome: object = None     # canonical observed outcome (to show that the exploration is not vacuous)
    problems: list = field(default_factory=list)   # (key, message)
    nontrivial: bool = True


def from_repo(tb):
    src = str(env.REPO / 'src')
    hit = False
    for fr, _ in traceback.walk_tb(tb):
        if fr.f_code.co_filename.startswith(src):
            hit = True
    return hit


def describe(exc):
    tb = exc.__traceback__
    src = str(env.REPO / 'src')
    where = ''
    for fr, line in traceback.walk_tb(tb):
        if fr.f_code.co_filename.startswith(src):
            where = f'{fr.f_code.co_filename[len(src) + 1:]}:{fr.f_code.co_name}'
    return f'{type(exc).__name__}: {str(exc)[:200]} [{where}]'


SETUP_SECONDS = 500
QUICK_SECONDS = 700   # once something was found, a quick check does not go on for longer than this
CASE_SECONDS = int(os.environ.get('MC_CASE_SECONDS', '240'))


def _alarm(*_):
    raise CaseTimeout()


def guarded(module, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(module, 'CASE_SECONDS', CASE_SECONDS))
    try:
        r = module.run_case(case)
        return r
    except CaseTimeout:
        return Result(problems=[('timeout', f'no result within the case time limit')])
    except RecursionError as e:
        return Result(problems=[('exception', describe(e))])
    except Exception as e:
        if from_repo(e.__traceback__):
            return Result(problems=[('exception', describe(e))])
        # the oracle could not make sense of what the implementation produced: that is a difference too
        return Result(problems=[('uninterpretable', f'{type(e).__name__}: {str(e)[:300]} at ' +
                                 ' <- '.join(f'{f.name}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))])
    finally:
        signal.alarm(0)


_MODULE = None


WORKER_BYTES = 5 << 30


def _limit():
    # code under test which never stops allocating ends in an exception instead of taking the whole machine with it
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))


def _work(case):
    return case, guarded(_MODULE, case)


def _work_all(cases):
    return [_work(case) for case in cases]


def _results(pool, it, lost):
    """The results in order; ends early, with the reason in lost, if a worker is gone and so its results never come"""
    workers = [p.pid for p in pool._pool]
    while True:
        try:
            yield from it.next(5)
        except StopIteration:
            return
        except mp.TimeoutError:
            gone = set(workers) - {p.pid for p in pool._pool if p.exitcode is None}
            if gone:
                try:
                    yield from it.next(60)
                    continue
                except StopIteration:
                    return
                except mp.TimeoutError:
                    lost.append(f'{len(gone)} of the processes which run the cases ended unexpectedly')
                    return
            yield None


def load_known(pid):
    path = env.VERIF / 'known_findings.json'
    if not path.exists():
        return []
    return [x for x in json.loads(path.read_text()) if x.get('property') == pid and x.get('status') == 'known']


def case_key(case):
    return json.dumps(case, sort_keys=True, default=str)


def main(module, tier):
    global _MODULE
    _MODULE = module
    t0 = time.time()
    pid = module.PID
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if hasattr(module, 'setup'):
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(SETUP_SECONDS if tier == 'quick' else 0)
            try:
                module.setup(tier)
            finally:
                signal.alarm(0)
        except (Exception, CaseTimeout) as e:
            if not isinstance(e, CaseTimeout) and not from_repo(e.__traceback__):
                raise
            return report(module, tier, seed, t0, dict(states=1, transitions=1, traces=1, evaluations=1, nontrivial=1), {},
                          [], [(dict(setup=True), 'exception', describe(e))])
    todo = list(module.cases(tier))
    if not todo:
        raise HarnessError('empty case space')
    tot = dict(states=0, transitions=0, traces=0, evaluations=0, nontrivial=0)
    outcomes, problems, samples = {}, [], []
    every = max(1, len(todo) // 5)
    procs = getattr(module, 'PROCS', min(8, os.cpu_count() or 1))
    lost = []
    if procs > 1 and len(todo) > 1:
        ctx = mp.get_context('fork')
        chunk = getattr(module, 'CHUNK', max(1, min(200, len(todo) // (procs * 8))))
        pool = ctx.Pool(procs, initializer=_limit)
        it = _results(pool, pool.imap(_work_all, [todo[i:i + chunk] for i in range(0, len(todo), chunk)]), lost)
    else:
        pool, it = None, map(_work, todo)
    cut = False
    try:
        i = -1
        for result in it:
            if problems and tier == 'quick' and (time.time() - t0 > QUICK_SECONDS or sum(p[1] == 'timeout' for p in problems) > 2):
                cut = True
                break
            if result is None:
                continue
            i += 1
            case, r = result
            tot['states'] += r.states
            tot['transitions'] += r.transitions
            tot['traces'] += r.traces
            tot['evaluations'] += 1
            tot['nontrivial'] += bool(r.nontrivial)
            k = case_key(r.outcome)
            outcomes[k] = outcomes.get(k, 0) + 1
            for key, msg in r.problems:
                problems.append((case, key, msg))
            if i % every == 0 and len(samples) < 6:
                samples.append(dict(case=case, outcome=r.outcome))
            if len(problems) > 400 and len({p[1] for p in problems}) > 3 and i > 2000:
                cut = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    problems += [(todo[i + 1] if i + 1 < len(todo) else None, 'ended', why) for why in lost]
    cut = cut or bool(lost)
    if hasattr(module, 'finish') and not cut:
        for case, key, msg in module.finish(tot):
            problems.append((case, key, msg))
    return report(module, tier, seed, t0, tot, outcomes, samples, problems, cut)


def report(module, tier, seed, t0, tot, outcomes, samples, problems, cut=False):
    pid = module.PID
    known = load_known(pid)
    hit, fresh = {}, []
    for case, key, msg in problems:
        full = f'{key} :: {case_key(case)}'
        for k in known:
            if full in k.get('cases', []) or (k.get('case') == full):
                hit.setdefault(k['id'], (k, []))[1].append(full)
                break
        else:
            fresh.append((case, key, msg))
    for kid, (k, hits) in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={pid} {kid}: {k['what']} ({len(hits)} cases)")
    out = env.VERIF / 'evidence'
    rep = out / 'replay'
    rep.mkdir(parents=True, exist_ok=True)
    for old in rep.glob(f'{pid}-*.json'):
        old.unlink()
    by_key = {}
    for case, key, msg in fresh:
        by_key.setdefault(key, []).append((case, msg))
    n = 0
    for key, lst in by_key.items():
        lst.sort(key=lambda cm: len(case_key(cm[0])))
        for case, msg in lst[:2]:
            f = rep / f'{pid}-{n}.json'
            f.write_text(json.dumps(dict(property=pid, key=key, message=msg, case=case,
                                         replay=f'./run.sh --replay {f}'), indent=1, default=str))
            print(f'VIOLATION property={pid} replay={f}')
            print(f'  {key}: {msg[:600]}')
            n += 1
        if n > 12:
            break
    cov = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
               samples=samples or [dict(case='none')], evaluations=tot['evaluations'], distinct_nontrivial=tot['nontrivial'],
               distinct_outcomes=len(outcomes), rule=module.BOUND, exhaustive=not cut)
    ev = dict(property=pid, tier=tier, seed=seed, level=module.LEVEL, coverage=cov, assumptions=list(module.ASSUMPTIONS),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    (out / f'{pid}.json').write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} {tier}: cases={tot['evaluations']} states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} outcomes={len(outcomes)} violations={len(fresh)} known={sum(len(h[1]) for h in hit.values())} "
          f"wall={ev['wall_s']}s")
    return 1 if fresh else 0
