#!/usr/bin/env python3
"""Confirm a planted change in a scratch copy of /repo: tools/seed.py ID...  (development aid, no check uses it)

A seed folder holds patch.diff, demo.py or demo.sh and meta.json.  The tool copies /repo to /tmp, runs the demo, applies the
patch, runs the demo again and then the repository's stable tests."""
import json, os, shutil, subprocess, sys, tempfile

VENV = '/opt/venv/bin/python'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONPATH=cwd + ':' + os.path.dirname(cwd))
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, **kw)


def main():
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in sys.argv[1:]:
        d = '/verif/seeded/' + s
        w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        shutil.copytree('/repo', w + '/r', symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        r = w + '/r'
        open(w + '/skip_testing_init.py', 'w').write(open('/opt/vp/lib/skip_testing_init.py').read().replace('/repo/', r + '/'))
        try:
            a = sh('bash %s/demo.sh' % d, r)
            p = sh('git apply %s/patch.diff' % d, r)
            b = sh('bash %s/demo.sh' % d, r)
            t = sh('%s -m pytest -q -c /dev/null --rootdir=%s -p skip_testing_init -p no:cacheprovider -n 4 --continue-on-collection-errors --timeout=300 Testing' % (VENV, r), r)
            ok = a.returncode == 0 and p.returncode == 0 and b.returncode != 0
            print(s, 'OK' if ok else 'BAD', 'clean', a.returncode, 'apply', p.returncode, 'patched', b.returncode, '|', t.stdout.strip().splitlines()[-1])
            for l in t.stdout.splitlines():
                n = l.split(' ')[1].replace('/', '.').replace('.py::', '.') if l.startswith(('FAILED', 'ERROR')) else ''
                if n in base['stable'] or l.startswith('ERROR'):
                    print('   BREAKS', l)
            if not ok:
                print(a.stdout[-800:], a.stderr[-800:], p.stderr, b.stdout[-800:], b.stderr[-500:])
            else:
                print('   ', (b.stderr or b.stdout).strip().splitlines()[-1][:200])
        finally:
            shutil.rmtree(w)


main()
