"""Generated-input search engine.

A check is a list of suites; a suite is (strategy, run).  The strategy generates a *spec*: a plain JSON value that
describes one case completely.  run(spec, ctx) executes the case against the real code and raises Violation when
the oracle of the property fails.  Hypothesis drives generation and shrinking; the shrunk spec is written to a
replay file which is executed without Hypothesis (`check.sh --replay FILE`).
"""
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

from . import boot
from hypothesis import given, settings, seed as hyp_seed, Phase, HealthCheck, Verbosity
import hypothesis.internal.conjecture.engine as _hce

NWORKERS = int(os.environ.get("PBT_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, "%s: %s" % (sig, msg))
        self.sig = sig
        self.msg = msg


class CaseTimeout(BaseException):
    """Wall-clock guard of a single case; inconclusive, never a violation."""


class Suite(object):
    def __init__(self, name, strategy, run, quick, thorough, case_limit_s=60):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.case_limit_s = case_limit_s


def to_plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): to_plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [to_plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return to_plain(o.tolist())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return o


def strict(o):
    """non-finite floats are written as strings in evidence files"""
    if isinstance(o, dict):
        return {k: strict(v) for k, v in o.items()}
    if isinstance(o, list):
        return [strict(v) for v in o]
    if isinstance(o, float) and not (o - o == 0.0):
        return str(o)
    return o


def canon(spec):
    return json.dumps(to_plain(spec), sort_keys=True)


def digest(spec):
    return hashlib.sha1(canon(spec).encode()).digest()[:8]


class Ctx(object):
    """Per-worker statistics; run() uses label()/nontrivial()."""

    def __init__(self):
        self.labels = {}
        self.evaluations = 0
        self.seen = set()
        self.seen_nontrivial = set()
        self.samples = []
        self.inconclusive = 0
        self.known_hits = 0
        self.excluded = {}
        self._nontrivial = False
        self._labels_case = None

    def begin(self):
        self._nontrivial = False
        self._labels_case = set()

    def label(self, *names):
        for name in names:
            self._labels_case.add(str(name))

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def exclude(self, name):
        self.excluded[name] = self.excluded.get(name, 0) + 1

    def end(self, spec):
        d = digest(spec)
        self.evaluations += 1
        if d not in self.seen:
            self.seen.add(d)
            for l in self._labels_case:
                self.labels[l] = self.labels.get(l, 0) + 1
        if self._nontrivial and d not in self.seen_nontrivial:
            self.seen_nontrivial.add(d)
            if len(self.samples) < 2 and self.evaluations > 3:
                self.samples.append(to_plain(spec))

    def export(self):
        return dict(labels=self.labels, evaluations=self.evaluations, seen=self.seen,
                    seen_nontrivial=self.seen_nontrivial, samples=self.samples, inconclusive=self.inconclusive,
                    known_hits=self.known_hits, excluded=self.excluded)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(suite, spec, ctx):
    """Run one case. Returns None or a Violation. Harness errors propagate."""
    ctx.begin()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, suite.case_limit_s)
    try:
        suite.run(spec, ctx)
        return None
    except Violation as v:
        return v
    except CaseTimeout:
        ctx.inconclusive += 1
        ctx.label('INCONCLUSIVE:case-timeout')
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.end(spec)


class _Fail(Exception):
    pass


def _worker(wid, nworkers, suites, tier, base_seed, stop, outpath, t_end, corpus, known):
    ctx = Ctx()
    per_suite = {}
    out = dict(wid=wid, violation=None, error=None)
    _hce.MAX_SHRINKING_SECONDS = 45
    known_set = set((k['sig'], canon(k['spec'])) for k in known if k.get('status') == 'known' and not k.get('call_site'))
    # findings identified by a call site: the check gives them a signature of their own, raised only under the conditions stated there
    known_sites = set((k['sig'], k['suite_prefix']) for k in known if k.get('status') == 'known' and k.get('call_site'))
    try:
        def is_known(suite, spec, v):
            return (v.sig, canon(spec)) in known_set or any(v.sig == sg and suite.name.startswith(pre) for sg, pre in known_sites)

        # replay tier: saved specs first
        for i, (sname, spec) in enumerate(corpus):
            if i % nworkers != wid or stop.is_set():
                continue
            su = [s for s in suites if s.name == sname]
            if not su:
                continue
            v = run_case(su[0], spec, ctx)
            if v is not None and not is_known(su[0], spec, v):
                out['violation'] = dict(suite=sname, spec=to_plain(spec), sig=v.sig, msg=v.msg, source='corpus')
                stop.set()
                break
        ncorpus = ctx.evaluations
        if out['violation'] is None:
            for si, su in enumerate(suites):
                total = su.quick if tier == 'quick' else su.thorough
                share = total // nworkers + (1 if wid < total % nworkers else 0)
                before = ctx.evaluations
                if share <= 0:
                    continue
                fail = {}

                def body(spec):
                    if not fail and (stop.is_set() or time.time() > t_end):
                        if time.time() > t_end:
                            out['truncated'] = True
                        return
                    v = run_case(su, spec, ctx)
                    if v is None:
                        return
                    if is_known(su, spec, v):
                        ctx.known_hits += 1
                        return
                    size = len(canon(spec))
                    if not fail or (v.sig == fail['sig'] and size <= fail['size']) :
                        fail.update(suite=su.name, spec=to_plain(spec), sig=v.sig, msg=v.msg, size=size,
                                    source='generated')
                    if v.sig == fail['sig']:
                        raise _Fail(v.sig)
                    return

                test = given(su.strategy)(body)
                test = settings(max_examples=share, database=None, deadline=None, derandomize=False,
                                phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                                suppress_health_check=list(HealthCheck), print_blob=False,
                                verbosity=Verbosity.quiet)(test)
                test = hyp_seed(base_seed * 1000003 + wid * 101 + si * 7919)(test)
                try:
                    test()
                except _Fail:
                    pass
                except BaseException:
                    if not fail:
                        raise
                per_suite[su.name] = ctx.evaluations - before
                if fail:
                    out['violation'] = dict(fail)
                    stop.set()
                    break
        out['ncorpus'] = ncorpus
    except BaseException:
        out['error'] = traceback.format_exc()
        stop.set()
    out['per_suite'] = per_suite
    out['ctx'] = ctx.export()
    with open(outpath, 'wb') as f:
        pickle.dump(out, f)


def load_known(prop):
    path = os.path.join(boot.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def load_corpus(prop, check):
    """corpus/<PROP>.json: [{suite, spec, note}], corpus/solver.json: shared solver specs."""
    res = []
    path = os.path.join(boot.VERIF, 'corpus', prop + '.json')
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f):
                res.append((e['suite'], e['spec']))
    shared = getattr(check, 'SHARED_CORPUS_SUITE', None)
    if shared:
        path = os.path.join(boot.VERIF, 'corpus', 'solver.json')
        if os.path.exists(path):
            adapt = getattr(check, 'adapt_shared', lambda s: s)
            with open(path) as f:
                for e in json.load(f):
                    s = adapt(e['spec'])
                    if s is not None:
                        res.append((shared, s))
    return res


def run_check(prop, tier, check):
    t0 = time.time()
    base_seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    suites = check.SUITES
    known = load_known(prop)
    corpus = load_corpus(prop, check)
    scale = float(os.environ.get('PBT_SCALE', '1'))
    if scale != 1:
        for s in suites:
            s.quick = int(s.quick * scale)
            s.thorough = int(s.thorough * scale)
    soft = getattr(check, 'SOFT_QUICK', 330) if tier == 'quick' else getattr(check, 'SOFT_THOROUGH', 3 * 3600)
    hard = soft + 150
    t_end = t0 + soft
    stop = mp.Event()
    tmp = tempfile.mkdtemp(prefix='pbt_')
    procs = []
    sys.stdout.flush()
    for w in range(NWORKERS):
        p = mp.Process(target=_worker, args=(w, NWORKERS, suites, tier, base_seed, stop,
                                             os.path.join(tmp, 'w%d' % w), t_end, corpus, known))
        p.start()
        procs.append(p)
    killed = 0
    for p in procs:
        p.join(max(1.0, t0 + hard - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
            killed += 1
    outs = []
    crashed = 0
    for w in range(NWORKERS):
        path = os.path.join(tmp, 'w%d' % w)
        if os.path.exists(path):
            with open(path, 'rb') as f:
                outs.append(pickle.load(f))
            os.remove(path)
        else:
            crashed += 1
    crashed -= killed
    os.rmdir(tmp)

    # merge
    labels, excluded, seen, seen_nt, samples, per_suite = {}, {}, set(), set(), [], {}
    evals = inconc = ncorpus = known_hits = 0
    truncated = killed > 0
    for o in outs:
        c = o['ctx']
        evals += c['evaluations']
        inconc += c['inconclusive']
        known_hits += c['known_hits']
        ncorpus += o.get('ncorpus', 0)
        truncated = truncated or o.get('truncated', False)
        seen |= c['seen']
        seen_nt |= c['seen_nontrivial']
        samples += c['samples'][:1]
        for k, v in c['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in c['excluded'].items():
            excluded[k] = excluded.get(k, 0) + v
        for k, v in o['per_suite'].items():
            per_suite[k] = per_suite.get(k, 0) + v
    errors = [o['error'] for o in outs if o['error']]
    viols = [o['violation'] for o in outs if o['violation']]

    for k in known:
        if k.get('status') != 'known':
            continue
        su = [s for s in suites if s.name == k['suite']]
        ctx = Ctx()
        v = run_case(su[0], k['spec'], ctx) if su else None
        if v is not None and v.sig == k['sig']:
            print("KNOWN-FINDING: property=%s %s" % (prop, k['what']))
        elif v is not None:
            viols.append(dict(suite=k['suite'], spec=k['spec'], sig=v.sig, msg=v.msg, source='known-finding input'))
        else:
            print("note: known finding no longer reproduces: %s" % k['what'])

    rc = 0
    if viols:
        viols.sort(key=lambda v: len(canon(v['spec'])))
        for v in viols[:1]:
            path = write_replay(prop, v)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s: %s" % (v['suite'], v['sig'], v['msg'][:2000]))
        rc = 1
    elif errors or crashed:
        for e in errors[:2]:
            print("HARNESS ERROR\n" + e, file=sys.stderr)
        if crashed:
            print("HARNESS ERROR: %d worker(s) died" % crashed, file=sys.stderr)
        rc = 3

    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_cases=len(seen), distinct_nontrivial=len(seen_nt), rule=check.RULE,
               samples=samples[:4], per_suite=per_suite, labels=dict(sorted(labels.items(), key=lambda t: -t[1])),
               corpus_replayed=ncorpus, inconclusive_cases=inconc, excluded_by_construction=excluded,
               truncated_by_time=bool(truncated), known_finding_hits=known_hits)
    ev = dict(property=prop, tier=tier, seed=base_seed, level=check.LEVEL, coverage=cov,
              assumptions=check.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(strict(ev), f, indent=1, sort_keys=True, allow_nan=False)
        f.write('\n')
    print("%s %s seed=%d: %d cases (%d distinct, %d non-trivial), %d inconclusive%s, %.1fs -> exit %d" % (
        prop, tier, base_seed, evals, len(seen), len(seen_nt), inconc, ', TRUNCATED' if truncated else '', wall, rc))
    return rc


def write_replay(prop, v):
    d = os.path.join(boot.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    rec = dict(property=prop, suite=v['suite'], sig=v['sig'], msg=v['msg'], source=v.get('source'), spec=to_plain(v['spec']))
    h = hashlib.sha1(canon(rec['spec']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def replay(path, get_check):
    with open(path) as f:
        rec = json.load(f)
    check = get_check(rec['property'])
    su = [s for s in check.SUITES if s.name == rec['suite']][0]
    ctx = Ctx()
    v = run_case(su, rec['spec'], ctx)
    if v is None:
        print("replay: property %s holds on this case (labels: %s)" % (rec['property'], sorted(ctx.labels)))
        return 0
    print("VIOLATION property=%s replay=%s" % (rec['property'], path))
    print("  [%s] %s: %s" % (su.name, v.sig, v.msg))
    return 1
