"""Runs the contracts of one property in parallel, decides, writes evidence."""
import argparse
import fcntl
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
MEM = 6 << 30

TRUSTED = [
    'engine/interp.py: symbolic semantics of the Python subset (cross-checked on every run by executing the same contracts under CPython)',
    'engine/arrays.py, engine/npmod.py: contracts assumed for the NumPy functions listed under numpy_contracts',
    'engine/norm.py: polynomial/sum normal form and its rewrite rules',
    'z3 (python bindings)',
    'real and complex machine arithmetic treated as exact (no rounding, no overflow)',
    'denominators that are not constant are assumed nonzero when fractions are cancelled',
]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                d = json.loads(line[7:])
                if d['property'] == prop:
                    out.append(d)
    return out


class Task:
    def __init__(self, key, fn, args, limit):
        self.key, self.fn, self.args, self.limit = key, fn, args, limit


def run_tasks(tasks, workers=WORKERS):
    """fork one process per task; {key: result or {'crash': reason}}"""
    res = {}
    todo = list(tasks)
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            t = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setsid()
                    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    if not os.environ.get('VERIF_DEBUG'):
                        os.dup2(null, 2)
                    try:
                        out = t.fn(*t.args)
                    except MemoryError:
                        out = {'crash': 'memory limit'}
                    except BaseException:
                        out = {'crash': traceback.format_exc()[-1500:]}
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (t, pid, time.time(), [])
        ready, _, _ = select.select(list(live), [], [], 0.2)
        for r in ready:
            t, pid, t0, buf = live[r]
            data = os.read(r, 1 << 20)
            if data:
                buf.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[t.key] = pickle.loads(b''.join(buf))
            except Exception:
                res[t.key] = {'crash': 'process died'}
            del live[r]
        for r in list(live):
            t, pid, t0, buf = live[r]
            if time.time() - t0 > t.limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(r)
                res[t.key] = {'crash': 'time limit'}
                del live[r]
    return res


def repo_state():
    h = hashlib.sha256()
    base = os.environ.get('VERIF_REPO', '/repo')
    for d, _, fs in sorted(os.walk(os.path.join(base, 'elphmod'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode() + open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.property.upper()
    from . import contract as C
    importlib.import_module('contracts.' + prop.lower())
    contracts = C.REG[prop]
    if a.replay:
        return replay(C, prop, contracts, a.replay)

    thorough = a.tier == 'thorough'
    tasks = []
    index = {}
    for c in contracts:
        if a.only and a.only not in c.name:
            continue
        for k in range(len(c.cases)):
            index[c.id(k)] = (c, k)
            if c.extra.get('thorough_only') and not thorough:
                continue
            if c.proof:
                b = c.budget * (3 if thorough else 1)
                tasks.append(Task(('sym', c.id(k)), C.run_symbolic, (c, k, b), b + 30))
            n = c.trials * (20 if thorough else 1)
            lim = 300.0 if thorough else float(c.extra.get('climit', 25))
            seeds = [seed * 1000003 + 7919 * j for j in range(n)]
            tasks.append(Task(('conc', c.id(k)), C.run_concrete, (c, k, seeds, None, lim), lim * 2 + 60))
    tasks.sort(key=lambda t: -t.limit)
    res = run_tasks(tasks)

    # failed obligations: search a failing input on the real code
    retry = []
    for (kind, cid), r in res.items():
        if kind != 'sym' or 'crash' in r:
            continue
        bad = [o for o in r['obligations'] if o['status'] == 'failed' and not (o.get('safety'))]
        if not bad:
            continue
        cr = res.get(('conc', cid), {})
        if cr.get('failures'):
            continue
        c, k = index[cid]
        sets = [None]
        for o in bad:
            ov = {n: v for n, v in (o.get('overrides') or {}).items()}
            if ov and ov not in sets:
                sets.append(ov)
        for i, ov in enumerate(sets[:6]):
            seeds = [seed * 999983 + 104729 * j + i for j in range(200)]
            retry.append(Task(('retry', cid, i), C.run_concrete, (c, k, seeds, ov, 30.0), 80))
    more = run_tasks(retry) if retry else {}

    violations = []
    known = known_findings(prop)
    seen_known = []
    undecided = []
    obligations = discharged = 0
    functions, assumed, numpyc, notes = {}, set(), set(), set()
    solver = dict(z3_queries=0, z3_time=0.0)
    per = {}
    bounded_info = []
    evals = trials = distinct = 0
    samples = []

    def record(cid, f, extra=None):
        for kf in known:
            if kf['contract'] == cid and kf['obligation'] == f['obligation'] and matches(kf, f):
                seen_known.append(kf)
                return
        violations.append((cid, f, extra))

    for c in contracts:
        for k in range(len(c.cases)):
            cid = c.id(k)
            r = res.get(('sym', cid))
            fails = list(res.get(('conc', cid), {}).get('failures', ()))
            for key, m in more.items():
                if key[1] == cid:
                    fails += m.get('failures', [])
            if r is not None:
                if 'crash' in r:
                    undecided.append((cid, r['crash']))
                    per[cid] = dict(status='undecided', why=r['crash'][-300:])
                else:
                    n = len(r['obligations'])
                    p = sum(o['status'] == 'proved' for o in r['obligations'])
                    obligations += n
                    discharged += p
                    functions.update(r['interpreted'])
                    assumed.update(r['assumed'])
                    numpyc.update(r['numpy'])
                    notes.update(r['notes'])
                    solver['z3_queries'] += r['stats']['z3_queries']
                    solver['z3_time'] += r['stats']['z3_time']
                    per[cid] = dict(status=r['status'], obligations=n, discharged=p, paths=r['paths'],
                                    feasible_paths=r['covered'], wall_s=r['wall'],
                                    obligation_names=sorted({o['name'] for o in r['obligations']})[:60])
                    if r['status'] != 'ok':
                        undecided.append((cid, r['why']))
                        per[cid]['why'] = r['why']
                        if r.get('trace'):
                            per[cid]['trace'] = r['trace'][-600:]
                    if not n:
                        undecided.append((cid, 'no obligation generated'))
                    for o in r['obligations']:
                        if o['status'] == 'proved':
                            continue
                        definite = o['status'] == 'failed'
                        if not fails and definite and r['status'] == 'ok':
                            record(cid, dict(obligation=o['name'], detail='the obligation fails on this source; path facts: %s'
                                             % (o.get('facts'),), inputs=o.get('overrides'), seed=None, large=None), 'no-failing-input-found')
                        else:
                            undecided.append((cid + ': ' + o['name'], o.get('why') or o.get('residual') or 'not proved'))
            cr = res.get(('conc', cid))
            if cr is not None:
                if 'crash' in cr:
                    undecided.append((cid + ' (bounded)', cr['crash']))
                else:
                    evals += cr['evaluated']
                    trials += cr['trials']
                    distinct += cr['distinct']
                    samples += [dict(contract=cid, input=s) for s in cr['samples']]
                    bounded_info.append(dict(contract=cid, kind='cross-check and counterexample search' if c.proof else 'bounded stand-in',
                                             trials=cr['trials'], rejected=cr['rejected'], evaluations=cr['evaluated'],
                                             max_size=c.large + c.extra.get('grow', 2), harness_errors=len(cr['errors'])))
                    for e in cr['errors'][:1]:
                        undecided.append((cid + ' (bounded)', 'harness error ' + e['detail']))
            for f in fails[:2]:
                record(cid, f)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    lines = []
    for n, (cid, f, extra) in enumerate(violations):
        path = os.path.join(HERE, 'replay', '%s-%d.json' % (prop, n))
        with open(path, 'w') as g:
            json.dump(dict(property=prop, contract=cid, failure=f, repo=repo_state(),
                           how='python3-vt -W ignore /verif/run.py %s --replay %s' % (prop, path)), g, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, ' ' + extra if extra else ''))
    for kf in known:
        hit = kf in seen_known
        print('KNOWN-FINDING: property=%s %s%s' % (prop, kf['what'], '' if hit else ' (not reproduced in this run)'))
    proof = any(c.proof for c in contracts)
    level = 'proof' if proof else 'exploration'
    cov = dict(evaluations=evals, distinct_nontrivial=distinct,
               rule='seeded random inputs of the stated maximal size per contract; a case is non-trivial when it satisfies the contract\'s precondition and its drawn inputs differ from all other cases of the same contract',
               samples=samples[:6])
    coverage = dict(bounded=dict(cov, contracts=bounded_info))
    if proof:
        coverage.update(obligations=obligations, discharged=discharged,
                        checker_cmd='python3-vt -W ignore /verif/run.py %s --tier %s' % (prop, a.tier),
                        trusted_base=TRUSTED, backend='normal form of exact polynomial/exponential/sum terms, z3 %s' % z3v(),
                        solver=dict(z3_queries=solver['z3_queries'], z3_time_s=round(solver['z3_time'], 2)),
                        functions_under_contract=[dict(function=q, source_sha256=s) for q, s in sorted(functions.items())],
                        assumed_callee_contracts=sorted(assumed), numpy_contracts=sorted(numpyc),
                        contracts=per, undecided=[dict(what=w, why=str(y)[:300]) for w, y in undecided])
    else:
        coverage = dict(cov, contracts=bounded_info, undecided=[dict(what=w, why=str(y)[:300]) for w, y in undecided])
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=coverage,
              assumptions=sorted(notes) + [c.note for c in contracts if c.note],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    path = os.path.join(HERE, 'evidence', prop + '.json')
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'w') as g:
        json.dump(ev, g, indent=1, default=str)
    os.replace(tmp, path)
    print('%s: %d/%d obligations discharged, %d bounded evaluations (%d cases), %d undecided, %.1f s'
          % (prop, discharged, obligations, evals, trials, len(undecided), time.time() - t0))
    for w, y in undecided[:12]:
        print('  undecided: %s: %s' % (w, str(y).replace('\n', ' ')[:200]))
    for cid, f, extra in violations:
        print('  %s: %s: %s' % (cid, f['obligation'], str(f['detail'])[:400]))
    for l in lines:
        print(l)
    return 1 if lines else 0


def matches(kf, f):
    m = kf.get('match')
    if not m:
        return True
    return m in str(f.get('detail', '')) + str(f.get('cause') or '')


def z3v():
    import z3
    return z3.get_version_string()


def replay(C, prop, contracts, path):
    d = json.load(open(path))
    f = d['failure']
    for c in contracts:
        for k in range(len(c.cases)):
            if c.id(k) == d['contract']:
                if f.get('seed') is None:
                    r = C.run_symbolic(c, k, c.budget)
                    bad = [o for o in r['obligations'] if o['status'] != 'proved' and o['name'] == f['obligation']]
                    for o in bad:
                        print('fails:', o['name'], o.get('facts'))
                    return 1 if bad else 0
                import numpy as np
                np.seterr(all='ignore')
                v = C.ConcV(c, c.cases[k], f['seed'], f.get('overrides') or {}, f['large'])
                try:
                    c.fn(v, **c.cases[k])
                    v.check_frozen()
                except C.Reject:
                    print('input rejected')
                    return 0
                except Exception as e:
                    for n, x in v.inputs.items():
                        print('  input', n, '=', C.describe(x)[:400])
                    print('fails: %s' % e)
                    return 1
                print('holds on this input')
                return 0
    print('no such contract')
    return 0
