"""Worker process: runs one driver function on a list of cases and writes one record per line."""
import faulthandler
import importlib
import json
import logging
import os
import signal
import sys
import traceback


class CaseTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise CaseTimeout()


def _only_surrogate_free(value):
    if isinstance(value, str):
        return value.encode('utf-8', 'replace').decode('utf-8')
    return value


def main():
    driver, inp, outp = sys.argv[1:4]
    faulthandler.enable()
    logging.disable(logging.CRITICAL)
    timeout = int(float(os.environ.get('VERIF_CASE_TIMEOUT', '30')))
    mod_name, func_name = driver.split(':')
    func = getattr(importlib.import_module(mod_name), func_name)
    with open(inp) as f:
        cases = json.load(f)
    print('WORKER-READY', flush=True)
    signal.signal(signal.SIGALRM, _on_alarm)
    with open(outp, 'w') as out:
        for case in cases:
            signal.alarm(timeout)
            try:
                rec = func(case)
                signal.alarm(0)
                rec.setdefault('exc', '')
            except CaseTimeout:
                rec = {'exc': 'did not finish within %d s' % timeout, 'case': case}
            except Exception as e:  # pylint: disable=broad-except
                signal.alarm(0)
                rec = {
                    'exc': '%s: %s' % (type(e).__name__, e), 'case': case,
                    'tb': traceback.format_exc()[-1500:]
                }
            signal.alarm(0)
            out.write(json.dumps(rec) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
