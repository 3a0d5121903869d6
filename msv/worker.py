"""Worker: runs the cases of one shard of one check and reports each of them
as a JSON line."""
import importlib
import json
import os
import signal
import sys
import time
import traceback


class CaseTimeout(BaseException):
    pass


def on_alarm(*_):
    raise CaseTimeout()


def clean(o):
    """JSON-clean numpy scalars."""
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(x) for x in o]
    if hasattr(o, 'item') and getattr(o, 'size', 1) == 1:
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


def main():
    prop, cf, of = sys.argv[1:4]
    if os.environ.get('MSV_COV'):
        # development aid: which lines of the package do the workloads reach
        os.environ['COVERAGE_CORE'] = 'sysmon'
        import atexit
        import coverage
        cv = coverage.Coverage(data_file=os.path.join(os.environ['MSV_COV'], 'c.' + prop), data_suffix=True,
                               include=[os.path.join(os.environ.get('MSV_REPO', '/repo'), 'multisim', '*')])
        cv.start()
        atexit.register(lambda: (cv.stop(), cv.save()))
    mod = importlib.import_module('msv.checks.' + prop)
    with open(cf) as f:
        cases = json.load(f)
    signal.signal(signal.SIGALRM, on_alarm)
    with open(of, 'w') as out:
        for c in cases:
            t = time.time()
            signal.alarm(int(c.get('timeout', 240)))
            try:
                r = mod.run(c)
            except CaseTimeout:
                r = dict(viol=[dict(key='hang', msg='case did not finish in %ss'
                                    % c.get('timeout', 240))])
            except MemoryError:
                raise
            except BaseException as e:  # noqa
                if isinstance(e, (KeyboardInterrupt, OSError)) and not in_repo(e):
                    raise
                r = dict(viol=[dict(
                    key='exception:' + type(e).__name__,
                    msg='%s: %s\n%s' % (type(e).__name__, str(e)[:300],
                                        ''.join(traceback.format_tb(e.__traceback__)[-4:])[-900:]))])
            finally:
                signal.alarm(0)
            r['id'] = c['id']
            r['sec'] = round(time.time() - t, 2)
            out.write(json.dumps(clean(r)) + '\n')
            out.flush()


def in_repo(e):
    return any('/multisim/' in f.filename for f in traceback.extract_tb(e.__traceback__))


if __name__ == '__main__':
    main()
