"""Runs the analyses a property needs, confirms failures, writes evidence and reports."""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)
import core
import facts
import machine
import spec
import world
import rules

VERIF = facts.VERIF
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)

_W = None
_END = 0


class Out:
    """picklable outcome of one task"""

    def __init__(self):
        self.recs = {}
        self.errors = []
        self.paths = 0
        self.fns = set()
        self.wall = 0.0


class Late(Exception):
    pass


def late(*a):
    raise Late()


LIMIT = {'inv': 200, 'reach1': 60, 'reach2': 100, 'reach3': 100}      # seconds for one analysis
INFER = 150                          # seconds for the inference of class invariants
SEARCH = 600                         # seconds for a whole check, after which no search is started


def do_task(t):
    t0 = time.time()
    o = Out()
    t, sought = t
    left = min(LIMIT[t[-1]], _END - t0)
    if left < 2:
        o.errors.append((str(t), 'no time left', ''))
        return t, o
    if sought:
        machine.SOUGHT = set(sought)
    _W.made = []
    done = False
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        rules.run_task(_W, t, o)
        done = True
    except machine.Found:
        pass
    except Late:
        o.errors.append((str(t), 'out of time', ''))
    except Exception as e:
        o.errors.append((str(t), '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-600:]))
    signal.setitimer(signal.ITIMER_REAL, 0)
    if not sought and not done:
        # unfinished: nothing counts as proved, what failed so far is looked at again
        o.recs = {}
        seen = {}
        for m in _W.made:
            if id(m.recs) not in seen:
                seen[id(m.recs)] = m.recs
                rules.add_recs(o, m.recs)
        for r in o.recs.values():
            r.undecided.append(dict(msg='the analysis did not finish', taint=['unfinished'], approx=[], info=None, stack=[], trail=[]))
    if sought:
        # a failure found on the way counts even if the search did not finish
        o.recs = {}
        seen = {}
        for m in _W.made:
            if id(m.recs) not in seen:
                seen[id(m.recs)] = m.recs
                rules.add_recs(o, m.recs)
        machine.SOUGHT = set()
    _W.made = None
    o.wall = time.time() - t0
    return t, o


def pool_map(tasks):
    tasks = sorted(tasks, key=lambda x: rules.cost(x[0]), reverse=True)
    if NPROC == 1 or len(tasks) == 1:
        return [do_task(t) for t in tasks]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(NPROC) as p:
        return p.map(do_task, tasks, chunksize=1)


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: '):
                d = {}
                head, _, what = ln[len('finding: '):].partition(' :: ')
                for part in head.split(' | '):
                    k, _, v = part.partition('=')
                    d[k] = v
                d['what'] = what
                out.append(d)
    return out


def main(prop, tier, seed, quiet=False):
    global _W, _END
    t0 = time.time()
    _END = t0 + SEARCH
    configs = ['--all-features']
    if tier == 'thorough':
        configs.append('--no-default-features')
    total = dict(obligations=0, discharged=0, undecided=0, paths=0, tasks=0)
    fns = set()
    proved = []
    undecided = []
    confirmed = []
    errors = []
    natives_used = set()
    inv_used = {}
    for cfg in configs:
        path = facts.extract(cfg)
        try:
            P = core.Program(path)
        finally:
            os.unlink(path)
        w = world.World(P)
        _W = w
        tasks = rules.tasks(w, prop)
        if not tasks:
            continue
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, INFER)
        try:
            w.need(rules.need_types(w, tasks))
        except Exception as e:      # without invariants less is proved
            errors.append((cfg, 'invariants', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-600:]))
            for key in list(w.inv):
                w.inv[key] = []
        signal.setitimer(signal.ITIMER_REAL, 0)
        outs = pool_map([(t + ('inv',), None) for t in tasks])
        failing = []
        for t, o in outs:
            total['tasks'] += 1
            total['paths'] += o.paths
            fns |= o.fns
            errors += [(cfg,) + tuple(e) for e in o.errors]
            bad = []
            for k, r in o.recs.items():
                if prop not in rules.props_of(w, t, k):
                    continue
                total['obligations'] += 1
                if not r.failed and not r.undecided:
                    total['discharged'] += 1
                    proved.append(dict(rule=k[1], at=k[2], cases=r.proved))
                else:
                    bad.append((k, r))
            if bad:
                failing.append((t, bad))
        # second opinion on what could not be proved: concrete construction histories, no invariants, no widening
        hitmap = {}
        for depth in rules.DEPTHS:
            redo = []
            for t, bad in failing:
                sought = {k for k, r in bad if (t[:-1], k) not in hitmap}
                if sought:
                    redo.append((t[:-1] + ('reach%d' % depth,), sought))
            for t, o2 in (pool_map(redo) if redo else []):
                errors += [(cfg,) + tuple(e) for e in o2.errors]
                for k, r2 in o2.recs.items():
                    h = [d for d in r2.failed if not d['approx'] and not d['taint']]
                    if h:
                        hitmap.setdefault((t[:-1], k), h)
        for t, bad in failing:
            for k, r in bad:
                hits = hitmap.get((t[:-1], k))
                if hits:
                    confirmed.append((k, hits[0], len(hits)))
                else:
                    d = (r.failed + r.undecided)[0]
                    undecided.append(dict(rule=k[1], at=k[2], why=d['msg'], imprecision=list(d['taint'])[:3] + list(d['approx'])[:3]))
                    total['undecided'] += 1
        for key, inv in w.inv.items():
            inv_used['%s[%s]' % key] = len(inv)
    known = [f for f in load_known() if f.get('property') == prop]
    viol, found = [], []
    for k, d, n in confirmed:
        m = [f for f in known if f['rule'] == k[1] and f['at'] == k[2]]
        (found if m else viol).append((k, d, n, m))
    ev = dict(property=prop, tier=tier, seed=seed, level=rules.LEVEL.get(prop, 'proof'),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    cov = dict(obligations=total['obligations'], discharged=total['discharged'],
               checker_cmd='python3 bin/check %s --tier %s' % (prop, tier),
               trusted_base=rules.TRUSTED,
               rule=rules.RULETEXT.get(prop, ''),
               undecided=total['undecided'], paths_explored=total['paths'], analyses=total['tasks'],
               functions_analysed=sorted(fns), configurations=configs,
               class_invariants=inv_used,
               known_findings=[dict(rule=k[1], at=k[2], what=m[0]['what']) for k, d, n, m in found],
               proved=sorted(proved, key=lambda x: (x['rule'], str(x['at'])))[:400],
               not_decided=undecided[:100], gave_up=[list(e) for e in errors[:40]])
    if ev['level'] == 'other':
        cov['explanation'] = rules.RULETEXT.get(prop, '')
    ev['coverage'] = cov
    ev['assumptions'] = rules.ASSUMPTIONS
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', '%s.violation.json' % prop)
    if viol:
        json.dump([dict(rule=k[1], at=k[2], message=d['msg'], site=d['info'], call_stack=d['stack'], path=d['trail'], paths=n)
                   for k, d, n, m in viol], open(rp, 'w'), indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w'), indent=1)
    for k, d, n, m in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, m[0]['what']))
    for k, d, n, m in viol:
        print('%s: %s: %s' % (k[1], k[2], d['msg']))
        if d['trail']:
            print('    path: ' + ' -> '.join(d['trail'][-8:]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s: %d obligations, %d proved, %d undecided, %d known findings, %d violations; %d paths in %d functions, %.1f s' % (
        prop, total['obligations'], total['discharged'], total['undecided'], len(found), len(viol), total['paths'], len(fns), time.time() - t0))
    if total['obligations'] == 0:
        print('no obligation was generated')
        return 2
    return 1 if viol else 0
