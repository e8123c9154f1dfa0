"""Bounded exhaustive explorer.

A check module (mc/checks/cNN.py) gives

    BOUNDS   {'quick': text, 'thorough': text}: the bound, stated
    RULE     how states are made and what makes one non-trivial
    cases(tier)      every case of the bounded space, simplest first, as JSON
    check(case, ctx) runs the real code on one case and compares every
                     observation with the reference model

The explorer runs *every* case (no sampling, no seed), in worker processes, and
counts, on the run itself:

    states       distinct model states reached (ctx.state)
    transitions  model steps compared with the real code (ctx.step)
    traces       complete executions of the real code replayed against the model
    outcomes     distinct observations made (ctx.outcome): one outcome from many
                 executions means nothing was exercised
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
CASE_SECONDS = 240
MAX_VIOLATIONS = 12


def digest(obj):
    """Short stable digest of a (nested) observation"""
    import numpy as np
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(f'{o.shape}{o.dtype.kind}'.encode())
            h.update(o.tobytes())
        elif isinstance(o, str):
            h.update(o.encode())
        elif isinstance(o, dict):
            h.update(b'{')
            for k in o:
                feed(k)
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'(')
            for k in o:
                feed(k)
        else:
            h.update(repr(o).encode())
        h.update(b';')
    feed(obj)
    return h.hexdigest()


class Stop(Exception):
    """Enough violations in this case"""


class Ctx:
    """What one case observed"""

    def __init__(self, tier, known=()):
        self.tier = tier
        self.known = known
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.violations = []     # (key, message)

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *obs):
        self.outcomes.add(digest(obs))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def fail(self, key, message):
        if key in self.known and any(k == key for k, _ in self.violations):
            return
        self.violations.append((key, str(message)[:1500]))
        if sum(k not in self.known for k, _ in self.violations) >= 5:
            raise Stop

    # -- comparisons ------------------------------------------------------
    def close(self, key, got, want, rtol=1e-8, atol=1e-10, shape=True):
        """got equals want: same shape, nan where want is nan"""
        import numpy as np
        self.transitions += 1
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            self.fail(key, f'not a numeric array: {got!r:.200}')
            return False
        w = np.asarray(want, dtype=float)
        if shape and g.shape != w.shape:
            self.fail(key, f'shape {g.shape}, expected {w.shape}')
            return False
        try:
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except ValueError:
            self.fail(key, f'shape {g.shape}, expected {w.shape}')
            return False
        if not ok.all():
            ok, g, w = np.broadcast_arrays(ok, g, w)
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            self.fail(key, f'at {i}: got {g[i]!r}, expected {w[i]!r} '
                           f'({int((~ok).sum())} of {ok.size} differ)')
            return False
        return True

    def equal(self, key, got, want):
        self.transitions += 1
        if isinstance(got, bool) or isinstance(want, bool) or \
                got is None or want is None:
            same = got is want or (got is not None and want is not None
                                   and bool(got == want))
        else:
            same = bool(got == want)
        if not same:
            self.fail(key, f'got {got!r:.300}, expected {want!r:.300}')
        return same

    def true(self, key, cond, message=''):
        self.transitions += 1
        if not cond:
            self.fail(key, message or 'condition does not hold')
        return bool(cond)

    def raises(self, key, exc, fun):
        self.transitions += 1
        try:
            r = fun()
        except exc as e:
            return e
        except Exception as e:
            self.fail(key, f'raised {type(e).__name__}: {e}, expected '
                           f'{exc}')
            return None
        self.fail(key, f'returned {r!r:.200} instead of raising {exc}')
        return None


class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout


def run_case(mod, case, tier, known=()):
    """One case; whatever the real code raises on it is a violation"""
    import warnings
    ctx = Ctx(tier, known)
    seconds = getattr(mod, 'CASE_SECONDS', CASE_SECONDS)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.check(case, ctx)
    except Stop:
        pass
    except _Timeout:
        ctx.violations.append(('timeout', f'no answer within {seconds} s'))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.name}'
                          for f in tb[-4:])
        ctx.violations.append((f'raised:{type(e).__name__}',
                               f'{type(e).__name__}: {e} ({where})'))
    finally:
        signal.alarm(0)
    return ctx


_MOD = None
_TIER = None
_KNOWN = ()


def _init(name, tier, known):
    global _MOD, _TIER, _KNOWN
    _MOD = importlib.import_module(name)
    _TIER = tier
    _KNOWN = known


class _Result:
    """What a case run in a process of its own sent back"""


def run_forked(mod, case, tier, known=()):
    """run_case in a new process: no history but that of the case"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            c = run_case(mod, case, tier, known)
            data = pickle.dumps({k: getattr(c, k) for k in (
                'states', 'outcomes', 'transitions', 'traces', 'skipped',
                'violations')})
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = _Result()
    if not data:
        res.__dict__.update(states=set(), outcomes=set(), transitions=0,
                            traces=0, skipped=0,
                            violations=[('died', 'the process died')])
    else:
        res.__dict__.update(pickle.loads(data))
    return res


def run_one(mod, case, tier, known=()):
    run = run_forked if getattr(mod, 'FORK', False) else run_case
    return run(mod, case, tier, known)


def _work(chunk):
    out = []
    for idx, case in chunk:
        c = run_one(_MOD, case, _TIER, _KNOWN)
        out.append((idx, c.states, c.outcomes, c.transitions, c.traces,
                    c.skipped, c.violations))
        if any(key not in _KNOWN for key, _ in c.violations):
            break
    return out


def in_new_process(fun, *args):
    """fun(*args) computed in a process without history"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    data = pickle.dumps((True, fun(*args)))
                except Exception as e:
                    data = pickle.dumps((False, f'{type(e).__name__}: {e}'))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data)
    return ok, v


def product(**domains):
    """Every combination, as dicts, last name fastest"""
    names = list(domains)
    for values in itertools.product(*domains.values()):
        yield dict(zip(names, values))


def bounded(domains, k, bases=({},)):
    """Deviation-bounded exploration of a configuration space

    domains: name -> values, the default first. Yields every configuration
    that differs from one of the bases in at most k parameters, those with
    fewest deviations first, without repetition.
    """
    seen = set()
    names = list(domains)
    for dev in range(k + 1):
        for base in bases:
            b = {n: base.get(n, domains[n][0]) for n in names}
            for chosen in itertools.combinations(names, dev):
                opts = [[v for v in domains[n] if not _same(v, b[n])]
                        for n in chosen]
                for values in itertools.product(*opts):
                    c = dict(b)
                    c.update(zip(chosen, values))
                    key = json.dumps(c, sort_keys=True)
                    if key not in seen:
                        seen.add(key)
                        yield c


def _same(a, b):
    return type(a) is type(b) and a == b


def load_known(prop):
    """Keys of the known findings of a property"""
    known = {}
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d['property'] == prop and d['status'] == 'known':
                    known[d['key']] = d['what']
    return known


def explore(prop, tier):
    name = f'mc.checks.{prop.lower()}'
    mod = importlib.import_module(name)
    t0 = time.time()
    broken = None
    if hasattr(mod, 'prepare'):
        try:
            mod.prepare(tier)
        except Exception as e:
            broken = (0, 'prepare', f'{type(e).__name__}: {e}')
    cases = [{'prepare': True}] if broken else list(mod.cases(tier))
    assert cases, 'empty space'
    json.dumps(cases[0])
    jobs = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1)),
               len(cases), getattr(mod, 'MAX_JOBS', 64))
    size = max(1, min(64, len(cases) // (jobs * 6) or 1))
    size = getattr(mod, 'CHUNK', size)
    indexed = list(enumerate(cases))
    chunks = [indexed[i:i + size] for i in range(0, len(cases), size)]

    known = load_known(prop)
    states, outcomes = set(), set()
    transitions = traces = skipped = done = 0
    found = []                       # (idx, key, msg), unlisted
    listed = {}                      # key -> idx
    capped = False

    def take(res):
        nonlocal transitions, traces, skipped, done
        for idx, st, oc, tr, tc, sk, vio in res:
            states.update(st)
            outcomes.update(oc)
            transitions += tr
            traces += tc
            skipped += sk
            done += 1
            for key, msg in vio:
                if key in known:
                    listed.setdefault(key, idx)
                else:
                    found.append((idx, key, msg))

    if broken:
        found.append(broken)
    elif jobs <= 1:
        _init(name, tier, known)
        for ch in chunks:
            take(_work(ch))
            if len(found) >= MAX_VIOLATIONS:
                capped = True
                break
    else:
        ctxm = mp.get_context('fork')
        with ctxm.Pool(jobs, _init, (name, tier, known)) as pool:
            for res in pool.imap_unordered(_work, chunks):
                take(res)
                if len(found) >= MAX_VIOLATIONS:
                    capped = True
                    pool.terminate()
                    break

    wall = time.time() - t0
    return dict(mod=mod, cases=cases, states=states, outcomes=outcomes,
                transitions=transitions, traces=traces, skipped=skipped,
                done=done, found=found, listed=listed, known=known,
                wall=wall, capped=capped, jobs=jobs)


def main(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVIDENCE, exist_ok=True)
    r = explore(prop, tier)
    mod = r['mod']
    found = sorted(r['found'])
    cases = r['cases']

    for key, idx in sorted(r['listed'].items()):
        print(f'KNOWN-FINDING: property={prop} {r["known"][key]} '
              f'(first: {json.dumps(cases[idx])[:200]})')

    exhaustive = r['done'] == len(cases)
    picks = sorted({0, len(cases) // 2, len(cases) - 1})
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': {
            'states': len(r['states']),
            'transitions': r['transitions'],
            'traces_validated_against_impl': r['traces'],
            'cases_enumerated': r['done'],
            'cases_in_bound': len(cases),
            'distinct_outcomes': len(r['outcomes']),
            'skipped_ill_conditioned': r['skipped'],
            'exhaustive': exhaustive and not r['capped'],
            'bound': mod.BOUNDS[tier],
            'rule': mod.RULE,
            'samples': [cases[i] for i in picks],
            'explanation': 'every case of the bound was executed on the real '
                           'code and compared with the reference model; no '
                           'sampling, independent of the seed',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(r['wall'], 3),
        'violations': len(found),
    }
    if mod.LEVEL == 'exploration':
        evidence['coverage']['evaluations'] = r['transitions']
        evidence['coverage']['distinct_nontrivial'] = len(r['outcomes'])
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    print(f'{prop} [{tier}] {r["done"]}/{len(cases)} cases, '
          f'{len(r["states"])} states, {r["transitions"]} transitions, '
          f'{r["traces"]} traces, {len(r["outcomes"])} outcomes, '
          f'{r["wall"]:.1f} s on {r["jobs"]} processes')

    if found:
        idx, key, msg = found[0]
        path = os.path.join(EVIDENCE, f'replay-{prop}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'case': cases[idx],
                       'key': key, 'message': msg,
                       'replay': f'/verif/run.sh replay {path}'}, f, indent=1,
                      default=str)
        for i, k, m in found[:6]:
            print(f'  case {i}: [{k}] {m}')
            print(f'    {json.dumps(cases[i])[:400]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if not exhaustive:
        print(f'{prop}: only {r["done"]} of {len(cases)} cases were run')
        return 2
    return 0


def replay(path):
    """Re-runs one recorded case twice: same violation both times"""
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(f'mc.checks.{d["property"].lower()}')
    if hasattr(mod, 'prepare'):
        try:
            mod.prepare(d['tier'])
        except Exception as e:
            print(f'[prepare] {type(e).__name__}: {e}\nVIOLATION reproduced')
            return 1
    runs = [run_one(mod, d['case'], d['tier']).violations for _ in range(2)]
    for key, msg in runs[0]:
        print(f'[{key}] {msg}')
    if runs[0] != runs[1]:
        print('REPLAY DIVERGED')
        return 2
    print('VIOLATION reproduced' if runs[0] else 'no violation')
    return 1 if runs[0] else 0
