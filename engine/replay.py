"""Concrete replay on the unmodified package: python -m engine.replay < job.json"""
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings


class Hang(BaseException):
    pass


HANG_CPU = 40


def fire(*_):
    raise Hang()


def main():
    sys.dont_write_bytecode = True
    data = json.load(sys.stdin)
    prop = data['prop']
    warnings.simplefilter('ignore')
    from engine import harness
    importlib.import_module('checks.' + prop)
    regs = harness.REGISTRY[prop]
    out = []
    hung = 0
    signal.signal(signal.SIGPROF, fire)
    for job in data['jobs']:
        if 'idx' not in job:
            continue
        for k in [k for k in sys.modules if k == 'PyNite' or k.startswith('PyNite.')]:
            del sys.modules[k]
        h = harness.HFloat(job['values'])
        exc = ''
        if hung >= 3:
            out.append(dict(failures=[], exception='', checked=0, trace=[], mismatch='not run: earlier replays did not finish'))
            continue
        signal.setitimer(signal.ITIMER_PROF, HANG_CPU, 5)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                regs[job['idx']]['fn'](h, **job['params'])
        except harness.ReplayMismatch as e:
            out.append(dict(failures=[], exception='', checked=h.checked, trace=[], mismatch=str(e)))
            continue
        except Hang:
            hung += 1
            out.append(dict(failures=[[a, b] for a, b in h.failures[:50]], checked=h.checked, trace=[], hang=True,
                            exception='Hang: not finished after %d s of processor time\n%s' % (HANG_CPU, traceback.format_exc(limit=-3))))
            continue
        except Exception as e:
            exc = type(e).__name__ + ': ' + str(e) + '\n' + traceback.format_exc(limit=-5)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        out.append(dict(failures=[[a, b] for a, b in h.failures[:50]], exception=exc, checked=h.checked,
                        trace=[list(t) for t in h.trace[:6000]]))
    for o, j in zip(out, data['jobs']):
        if 'jobs' in data and data.get('label'):
            sys.stderr.write('label %s\nfailures %s\nexception %s\n' % (data['label'], o['failures'][:5], o['exception']))
    print('REPLAY ' + json.dumps(out))


if __name__ == '__main__':
    main()
