"""Runs all harnesses of a property, replays counterexamples on the unmodified code, writes evidence."""
from __future__ import annotations
import contextlib
import importlib
import inspect
import io
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


def _limit_mem(gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except Exception:
        pass


def trace_functions():
    """record which /repo functions run (by qualified name)"""
    seen = set()
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return seen
    prefix = os.path.join(REPO, 'PyNite')

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(prefix) and code.co_name != '<module>':
            seen.add(os.path.basename(fn)[:-3] + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    return seen


def run_task(task):
    """symbolic execution of one (harness, params); runs in its own process"""
    prop, idx, params, deadline_s = task
    t0 = time.time()
    res = dict(idx=idx, params=params, cex=[], errors=[], unknown=[], reached=0, discharged=0, paths=0,
               forks=0, queries=0, unsat=0, sat=0, solver_time=0.0, functions=[], witness=None, name='?')
    try:
        _limit_mem(9)
        from . import loader, sym, paths, harness
        mod = importlib.import_module('checks.' + prop)
        h_ = harness.REGISTRY[prop][idx]
        res['name'] = h_['name']
        loader.install()
        seen = trace_functions()
        ex = paths.Explorer(timeout_ms=h_['qtimeout'], max_paths=h_['max_paths'], deadline=t0 + deadline_s)
        col = harness.Collector()
        # a property with recorded findings is always explored to the end: a finding must not hide another violation
        col.patience = None if any(k.get('property') == prop for k in load_known()) else 60
        h = harness.HSym(ex, col)

        def one():
            for k in [k for k in sys.modules if k == 'PyNite' or k.startswith('PyNite.')]:
                del sys.modules[k]
            h.begin()
            n0 = col.reached
            del sym.FATAL[:]
            try:
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        h_['fn'](h, **params)
                finally:
                    if sym.FATAL:
                        raise sym.FATAL[0]
                h.flush()
            except (sym.EngineError, paths.Budget, MemoryError):
                raise
            except paths.Hang:
                paths.DOG.stop()
                info = traceback.format_exc(limit=-6)
                cands = h._candidates(sym.TRUE, ex.model_env, None)
                col.add_cex('does not finish', cands[:1], kind='hang', info=info)
                raise paths.Budget('no progress for %d s of processor time' % hang)
            except Exception as e:
                info = traceback.format_exc(limit=-6)
                h.flush()
                r, m = ex.solve(None, want_model=True)
                if r == 'unsat':
                    return
                label = 'exception:' + type(e).__name__
                if label not in col.failed_labels:
                    col.failed_labels.add(label)
                    cands = h._candidates(sym.TRUE, m, None) if m is not None else []
                    col.add_cex(label, cands, kind='exception', info=info)
                return
            if col.witness is None and col.reached > n0:
                cands = h._candidates(sym.TRUE, ex.model_env, None)
                if cands:
                    w = cands[0]
                    env = {}
                    vals = []
                    try:
                        from fractions import Fraction
                        full = {i: Fraction(w[n]) for n, i in h.inputs.items()}
                        occ = {}
                        for label, a, b in h.values[:4000]:
                            vs = a.vars() | b.vars()
                            occ[label] = k = occ.get(label, -1) + 1
                            if all(v in full for v in vs):
                                vals.append(('%s #%d' % (label, k), float(sym.eval_sym(a, full)), float(sym.eval_sym(b, full))))
                    except ZeroDivisionError:
                        pass
                    col.witness = dict(values=w, trace=vals)

        hang = max(100, deadline_s / 4)
        paths.DOG.start(hang)
        try:
            ex.run(one)
        except (sym.EngineError, paths.Budget, MemoryError) as e:
            res['errors'].append('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
        paths.DOG.stop()
        st = ex.stats
        res.update(cex=col.cex, unknown=col.unknown, reached=col.reached, discharged=col.discharged,
                   paths=st.paths, forks=st.forks, queries=st.queries, unsat=st.unsat, sat=st.sat,
                   solver_time=st.time, functions=sorted(seen), witness=col.witness,
                   nvars=len(col.inputs))
        if not col.reached and not col.cex and not res['errors']:
            res['errors'].append('vacuous: no assertion was reached')
    except Exception as e:
        res['errors'].append('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8)))
    res['wall'] = time.time() - t0
    return res


def replay_batch(prop, jobs, timeout=300):
    """jobs: [{idx, params, values}] -> [{failures, exception, checked, trace}] from the unmodified code"""
    inp = json.dumps(dict(prop=prop, jobs=jobs))
    env = dict(os.environ)
    env['PYTHONPATH'] = REPO + os.pathsep + ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['VERIF_REPO'] = REPO
    py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
    try:
        p = subprocess.run([py, '-m', 'engine.replay'], input=inp, capture_output=True, text=True, env=env,
                           cwd=ROOT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    for line in p.stdout.splitlines()[::-1]:
        if line.startswith('REPLAY '):
            return json.loads(line[7:])
    sys.stderr.write(p.stderr[-2000:])
    return None


def load_known():
    """known_findings.txt: lines  'known: property=<id> harness=<name> label=<label prefix> -- text'"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                head, _, text = line[6:].partition(' -- ')
                d = dict(x.split('=', 1) for x in head.split() if '=' in x)
                d['text'] = text
                out.append(d)
    return out


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--first', action='store_true', help='stop at the first counterexample (development aid)')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    t0 = time.time()
    sys.dont_write_bytecode = True
    budget = a.budget or (780 if tier == 'quick' else 3 * 3600)
    from . import harness
    mod = importlib.import_module('checks.' + prop)
    tasks = []
    for idx, h in enumerate(harness.REGISTRY.get(prop, [])):
        if h['tier'] == 'thorough' and tier != 'thorough':
            continue
        if a.only and a.only not in h['name']:
            continue
        for p in h['params']:
            if p.get('_tier') == 'thorough' and tier != 'thorough':
                continue
            p2 = {k: v for k, v in p.items() if not k.startswith('_')}
            tasks.append((prop, idx, p2, h['timeout'] if tier == 'quick' else h['timeout'] * 4))
    results = []
    known = load_known()
    confirmed = any(k.get('property') == prop for k in known)
    tasks.sort(key=lambda t: -t[3])
    with ctx_pool(a.jobs) as pool:
        it = pool.imap_unordered(run_task, tasks, chunksize=1)
        pend = len(tasks)
        while pend:
            try:
                r = it.next(timeout=max(1.0, budget - (time.time() - t0)))
            except mp.TimeoutError:
                results.append(dict(idx=-1, name='budget', params={}, errors=['check budget exceeded'], cex=[], unknown=[],
                                    reached=0, discharged=0, paths=0, forks=0, queries=0, unsat=0, sat=0,
                                    solver_time=0, functions=[], witness=None, wall=0))
                pool.terminate()
                break
            pend -= 1
            results.append(r)
            if a.first and r['cex'] and pend:
                pool.terminate()
                pend = 0
            if r['cex'] and pend and not confirmed and tier == 'quick':
                # a confirmed violation decides the check: the other instances get a minute more
                jobs = [dict(idx=r['idx'], params=r['params'], values=v) for c in r['cex'][:10] for v in c['candidates']]
                lab = {_stem(c['label']) for c in r['cex']}
                if any(_stem(f[0]) in lab for o in replay_batch(prop, jobs, 60) or [] for f in o['failures']):
                    confirmed = True
                    budget = min(budget, time.time() - t0 + 60)
            if a.v:
                print('  %-40s %-60s paths=%d obl=%d disch=%d q=%d t=%.1fs solver=%.1fs cex=%d err=%d unk=%d' % (
                    r['name'], json.dumps(r['params'])[:60], r['paths'], r['reached'], r['discharged'], r['queries'], r['wall'],
                    r['solver_time'], len(r['cex']), len(r['errors']), len(r['unknown'])), flush=True)
                for e in r['errors']:
                    print('     ERR', e)
                for c in r['cex']:
                    print('     CEX', c['label'], c['candidates'][:1], c['info'][-900:])
    results.sort(key=lambda r: (r['idx'], json.dumps(r['params'], sort_keys=True)))

    # ---- replay counterexamples on the unmodified code
    violations, unconfirmed, known_hits = [], [], []
    jobs, meta = [], []
    for r in results:
        for c in r['cex']:
            for v in c['candidates']:
                jobs.append(dict(idx=r['idx'], params=r['params'], values=v))
                meta.append((r, c))
    rep = replay_batch(prop, jobs) if jobs else []
    done = {}
    if rep is None:
        unconfirmed = [(r, c, 'replay failed') for r in results for c in r['cex']]
    else:
        for (r, c), job, out in zip(meta, jobs, rep):
            k = (id(c))
            if k in done and done[k][0]:
                continue
            if c['kind'] == 'hang':
                ok = bool(out.get('hang'))
            elif c['kind'] == 'exception':
                ok = bool(out['exception'])
            else:
                # the same assertion (up to its component index), or another one that the solver refuted too
                lab = {_stem(x['label']) for x in r['cex']}
                ok = any(_stem(f[0]) in lab for f in out['failures'])
            done[k] = (ok, r, c, job, out)
        for r in results:
            for c in r['cex']:
                d = done.get(id(c))
                if d and d[0]:
                    kf = [x for x in known if x.get('property') == prop and x.get('harness') == r['name']
                          and _label_match(c['label'], x.get('label', '')) and _params_match(r['params'], x.get('params'))]
                    (known_hits if kf else violations).append((r, c, d, kf))
                else:
                    unconfirmed.append((r, c, 'not reproduced: %s' % (d[4] if d else 'no candidate')))

    # ---- validate the encoding: run reachability witnesses on the unmodified code
    wjobs = [dict(idx=r['idx'], params=r['params'], values=r['witness']['values']) for r in results if r['witness']]
    wres = [r for r in results if r['witness']]
    wout = replay_batch(prop, wjobs) if wjobs else []
    validated, disagreements = 0, []
    for r, o in zip(wres, wout or []):
        if o['exception']:
            disagreements.append('%s %s: real code raised %s' % (r['name'], r['params'], o['exception'][-300:]))
            continue
        tr, occ = {}, {}
        for l, x, y in o['trace']:
            occ[l] = k = occ.get(l, -1) + 1
            tr['%s #%d' % (l, k)] = (x, y)
        bad = None
        for l, x, y in r['witness']['trace']:
            if l in tr:
                validated += 1
                for p_, q_ in zip((x, y), tr[l]):
                    if abs(p_ - q_) > 1e-5 * max(1.0, abs(p_), abs(q_)):
                        bad = '%s %s %s: symbolic %r real %r' % (r['name'], r['params'], l, (x, y), tr[l])
        if bad:
            disagreements.append(bad)

    errors = [(r['name'], r['params'], e) for r in results for e in r['errors']]
    unknown = [(r['name'], r['params'], u) for r in results for u in r['unknown']]
    wall = time.time() - t0

    funcs = sorted({f for r in results for f in r['functions']})
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
        coverage=dict(
            explanation='Symbolic execution of the real /repo sources (loaded afresh on this run) over exact reals; every '
                        'assertion of every feasible path was a z3 query of path condition AND NOT assertion. '
                        + (getattr(mod, 'BOUNDS', '')),
            bounds=getattr(mod, 'BOUNDS', ''),
            harness_instances=len(results), symbolic_inputs=sum(r.get('nvars', 0) for r in results),
            paths=sum(r['paths'] for r in results), forks=sum(r['forks'] for r in results),
            obligations=sum(r['reached'] for r in results), discharged=sum(r['discharged'] for r in results),
            solver_queries=sum(r['queries'] for r in results), unsat=sum(r['unsat'] for r in results),
            sat=sum(r['sat'] for r in results), solver_seconds=round(sum(r['solver_time'] for r in results), 3),
            functions_encoded=funcs, reachability_witnesses_run_on_real_code=len(wjobs),
            witness_values_compared=validated, witness_disagreements=disagreements[:20],
            instances=[dict(harness=r['name'], params=r['params'], paths=r['paths'], obligations=r['reached'],
                            wall_s=round(r['wall'], 2)) for r in results][:400],
            samples=[dict(harness=r['name'], params=r['params'], witness=r['witness']['values'])
                     for r in results if r['witness']][:5],
            inconclusive=[list(map(str, x)) for x in errors + unknown][:20],
            unconfirmed_counterexamples=[(r['name'], c['label'], w[:300]) for r, c, w in unconfirmed][:20],
        ),
        assumptions=COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for r, c, d, kf in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]['text']))
    print('%s %s: %d instances, %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs, witness values %d, disagreements %d' % (
        prop, tier, len(results), ev['coverage']['paths'], ev['coverage']['obligations'], ev['coverage']['discharged'],
        ev['coverage']['solver_queries'], ev['coverage']['solver_seconds'], wall, validated, len(disagreements)))
    for d in disagreements[:10]:
        print('  witness disagreement:', d)
    if violations:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        r, c, d, _ = violations[0]
        path = os.path.join(rd, '%s-%s.json' % (prop, r['name']))
        with open(path, 'w') as f:
            json.dump(dict(prop=prop, harness=r['name'], label=c['label'], kind=c['kind'], info=c['info'],
                           jobs=[d[3]], result=d[4]), f, indent=1, default=str)
        for r2, c2, d2, _ in violations[:10]:
            print('  counterexample: %s %s %s values=%s real-code result=%s %s' % (
                r2['name'], r2['params'], c2['label'], json.dumps(d2[3]['values'])[:400], d2[4]['failures'][:3], d2[4]['exception'][-300:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  (re-run: %s -m engine.replay < %s  in /verif with PYTHONPATH=/repo:/verif)' % (VENV_PY, path))
        return 1
    if unconfirmed or errors or unknown or disagreements:
        for r, c, w in unconfirmed[:10]:
            print('  INCONCLUSIVE counterexample not reproduced: %s %s %s %s' % (r['name'], r['params'], c['label'], w[:1500]))
            print(c['info'])
        for n, p, e in errors[:5]:
            print('  INCONCLUSIVE %s %s: %s' % (n, p, e))
        for n, p, u in unknown[:5]:
            print('  INCONCLUSIVE %s %s: solver answered unknown for %s' % (n, p, u))
        # An instance without an answer claims nothing; it is listed in the evidence.  The check as a whole has an
        # answer as long as most of its instances were decided.
        und = {id(r) for r in results if r['errors'] or r['unknown']} | {id(r) for r, c, w in unconfirmed}
        print('  %d of %d instances undecided' % (len(und), len(results)))
        return 2 if 2 * len(und) > len(results) else 0
    return 0


COMMON_ASSUMPTIONS = [
    'Floating-point arithmetic is modelled by exact real arithmetic; decimal literals are read as the decimals they spell.',
    'round(x, n) with n > 0 of a symbolic value is the identity and isclose(a, b) of symbolic values is exact equality unless a tolerance above 1e-8 (math) or 1e-5 relative (numpy) is given.',
    'numpy / scipy.sparse primitives are replaced by exact counterparts (linear solves by exact elimination).',
    'Counterexamples are replayed on the unmodified package with real numpy/scipy before being reported.',
]


def _stem(a):
    return a.split('[')[0]


def _label_match(label, pat):
    if not pat:
        return False
    if pat.endswith('*'):
        return label.startswith(pat[:-1])
    return label == pat


def _params_match(params, pat):
    if not pat:
        return True
    want = dict(x.split(':', 1) for x in pat.split(','))
    return all(str(params.get(k)) == v for k, v in want.items())


def ctx_pool(n):
    return mp.get_context('fork').Pool(n, maxtasksperchild=1)
