#!/usr/bin/env python3
"""Run checks against planted changes in scratch copies of /repo: tools/detect.py [--all|--checks A,B] [-j N] ID...
By default only the check of the seed's own property runs.  (development aid)"""
import argparse, json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ap = argparse.ArgumentParser()
ap.add_argument('--all', action='store_true')
ap.add_argument('--checks')
ap.add_argument('--tier', default='quick')
ap.add_argument('-j', type=int, default=2)
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(V + '/seeded'))


def one(s):
    w = tempfile.mkdtemp(prefix='det_', dir='/tmp')
    try:
        r, v = w + '/repo', w + '/verif'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        shutil.copytree(V, v, ignore=shutil.ignore_patterns('__pycache__', '.git', 'seeded', 'evidence'))
        p = s if os.path.exists(s) else V + '/seeded/' + s + '/patch.diff'
        q = subprocess.run(['git', 'apply', os.path.abspath(p)], cwd=r, capture_output=True, text=True)
        if q.returncode:
            return s + ' PATCH ' + q.stderr
        props = a.checks.split(',') if a.checks else None
        if props is None and not a.all and os.path.exists(V + '/seeded/' + s + '/meta.json'):
            props = [json.load(open(V + '/seeded/' + s + '/meta.json'))['property']]
        if props is None:
            props = sorted(f[:-3] for f in os.listdir(v + '/checks') if f[0] in 'MASPGEC' and f[1:3].isdigit())
        out = []
        for c in props:
            if not os.path.exists(v + '/checks/%s.py' % c):
                out.append(c + ':none')
                continue
            t = time.time()
            q = subprocess.run(['python3-vt', 'check.py', c, '--first', '--tier', a.tier], cwd=v, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
            hit = 'VIOLATION property=%s' % c in q.stdout
            if q.returncode or hit or len(props) < 4:
                out.append('%s:%d%s(%.0fs)' % (c, q.returncode, 'V' if hit else '', time.time() - t))
            if q.returncode == 1 and len(props) < 4:
                out.append('\n      ' + '\n      '.join([l for l in q.stdout.splitlines() if 'VIOLATION' in l or 'label' in l][:2]))
            if q.returncode not in (0, 1):
                out.append('\n' + (q.stdout + q.stderr)[-800:])
        return s + ' ' + ' '.join(out)
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(a.j) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
