"""Writes /verif/MANIFEST.json from the checks that exist and the list of properties."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
    'X01': 'The pushover analysis is unfinished in this commit (its only test is disabled, the driver calls methods with arguments they do not have, and a run raises before any step is complete), so there is no behaviour to encode; only the yield function and its gradient, which it would use, are decided (C01).',
    'X02': 'The engine decides over exact reals. A bound on accumulated rounding for every model would need an SMT floating-point encoding of matrix factorisations inside numpy/SuperLU (compiled code, no source here), far beyond bit-blasting.',
}
NOTE = {}
if __name__ == '__main__':
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'checks', i + '.py')):
            checks.append(dict(
                property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                technique='symbolic execution of the real Python source over exact reals, each assertion decided by SMT (z3)',
                level='other',
                level_note=NOTE.get(i, 'Solver verdict for all symbolic values within the stated structural bounds (BOUNDS in checks/%s.py, '
                                       'repeated in the evidence); exact reals instead of floats; counterexamples replayed on the unmodified package.' % i)))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'No check has been built yet.')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the engine loads the unmodified sources through an import hook that replaces numpy/scipy/math by exact symbolic counterparts.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks;', [x['property'] for x in na])
