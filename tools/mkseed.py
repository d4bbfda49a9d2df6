#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text).  Writes /verif/seeded/ID."""
import difflib, json, os, subprocess, sys, textwrap

BASE = '8263576'


def original(fn):
    out = subprocess.run(['git', '-C', '/repo', 'blame', '-l', BASE + '..HEAD', '--', fn], capture_output=True, text=True).stdout
    return [l.startswith('^') for l in out.splitlines()]


for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for S in ns['SEEDS']:
        d = '/verif/seeded/' + S['id']
        os.makedirs(d, exist_ok=True)
        files = {}
        for fn, old, new in S['edits']:
            t = files.get(fn) or (open('/repo/' + fn, newline='').read(),) * 2
            o, c = t
            if '\r\n' in o:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if c.count(old) != 1:
                sys.exit('%s: %d matches of %r in %s' % (S['id'], c.count(old), old[:80], fn))
            files[fn] = (o, c.replace(old, new))
        for fn, (o, c) in files.items():
            org = original(fn)
            a, b = o.splitlines(True), c.splitlines(True)
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
                if tag in ('replace', 'delete') and not all(org[i1:i2]):
                    print('   NOT ORIGINAL', S['id'], fn, i1 + 1, i2)
                if tag == 'insert':
                    print('   insert only', S['id'], fn, i1 + 1)
        with open(d + '/patch.diff', 'w', newline='') as out:
            for fn, (o, c) in files.items():
                for l in difflib.unified_diff(o.splitlines(True), c.splitlines(True), 'a/' + fn, 'b/' + fn):
                    out.write(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n')
        open(d + '/demo.py', 'w').write(textwrap.dedent(S['demo']).lstrip())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd is the repository; exit 0 when the property holds\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', S['id'])
