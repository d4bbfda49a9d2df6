"""Writes DESIGN.md from design_head.md, the properties, the bounds in the checks, the evidence, the seeds and design_tail.md."""
import glob, importlib, json, os, sys
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from tools.design_notes import NOTES
from tools.gen_manifest import NA
out = open('tools/design_head.md').read().rstrip('\n') + '\n\n'
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if not os.path.exists('checks/%s.py' % i):
        continue
    m = importlib.import_module('checks.' + i)
    cost = ''
    try:
        e = json.load(open('evidence/%s.json' % i))
        c = e['coverage']
        cost = ' Cost: %d s, %d instances, %d paths, %d assertions, %d solver queries (%s tier).' % (
            e['wall_s'], c['harness_instances'], c['paths'], c['obligations'], c['solver_queries'], e['tier'])
    except OSError:
        pass
    out += '### %s %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    out += '*Oracle and reach.* %s\n\n' % NOTES[i]
    out += '*Bounds.* %s' % m.BOUNDS.strip()
    if getattr(m, 'ASSUMPTIONS', ()):
        out += ' *Assumptions.* ' + ' '.join(m.ASSUMPTIONS)
    out += '%s\n\n' % cost
out += '## 4. Not applicable\n\n' + ''.join('* **%s** %s\n' % (k, v) for k, v in sorted(NA.items())) + '\n'
out += open('tools/design_mid.md').read().rstrip('\n') + '\n\n'
det = json.load(open('tools/detected.json')) if os.path.exists('tools/detected.json') else {}
out += '| change | property | what it breaks, what it needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/meta.json')):
    s = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    clean = lambda t: ' '.join(str(t).split()).replace('|', '/')
    out += '| %s | %s | %s — needs: %s | %s |\n' % (n, s['property'], clean(s['what_it_breaks']), clean(s['needs']), ', '.join(det.get(n, ['?'])))
out += '\n' + open('tools/design_tail.md').read()
open('DESIGN.md', 'w').write(out)
