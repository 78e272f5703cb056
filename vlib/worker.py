"""Executes the cases of one driver against the real code, one JSON line per
case.  Run as: worker.py <driver> <cases.json> <out.jsonl>"""
import ctypes
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def main():
    driver, cases_file, out_file = sys.argv[1:4]
    try:                                # end with the check that started it
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    sys.path.insert(0, VERIF)
    mem = int(os.environ.get('VERIF_CASE_MEM', str(3 << 30)))
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module('drivers.' + driver)
    with open(cases_file) as f:
        cases = json.load(f)
    if hasattr(mod, 'setup'):
        mod.setup()
    with open(out_file, 'a') as out:
        for idx, case in cases:
            out.write(json.dumps({'start': idx, 't': time.time()}) + '\n')
            out.flush()
            try:
                trace = mod.run(case)
            except Exception as e:   # an exception nobody expected is an observation
                trace = [{'op': 'raised', 'name': type(e).__name__,
                          'msg': str(e)[:300],
                          'tb': traceback.format_exc()[-1500:]}]
            out.write(json.dumps({'idx': idx, 'trace': trace}) + '\n')
            out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
