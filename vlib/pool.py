"""Run driver cases in worker subprocesses; a worker that dies or hangs is an
observation about the case it was running, not an error of the machinery."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def worker_env(libdir, scratch, extra=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
         'HOME': scratch, 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
         'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
         'OMP_NUM_THREADS': '1', 'PYTHONPATH': libdir + ':' + REPO,
         'VERIF_SCRATCH': scratch, 'VERIF_LIBDIR': libdir, 'VERIF_REPO': REPO,
         'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
         'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'),
         'MPLCONFIGDIR': scratch}
    e.update(extra or {})
    return e


def chunks(n, jobs=8, chunk=None, **_):
    """The cases each worker process runs, in order."""
    if chunk is None:
        chunk = max(1, min(40, (n + jobs * 3 - 1) // (jobs * 3)))
    # neighbours often cost alike: deal them out
    nch = (n + chunk - 1) // chunk
    return [list(range(i, n, nch)) for i in range(nch)]


def run_cases(driver, cases, libdir, jobs=8, case_timeout=120, chunk=None, env_extra=None):
    """cases: list of JSON-able dicts.  Returns list of traces, same order; None
    for cases that were not run because too many hang."""
    n = len(cases)
    traces = [None] * n
    lock = threading.Lock()
    queue = chunks(n, jobs, chunk)
    root = tempfile.mkdtemp(prefix='verif-run-')
    errors = []
    hangs = []

    def one_chunk(ids):
        todo = list(ids)
        fails_to_start = 0
        # a few sessions that never end decide the matter: the others (None) are not run
        while todo and len(hangs) < 3:
            scratch = tempfile.mkdtemp(prefix='w-', dir=root)
            cf, of = os.path.join(scratch, 'cases.json'), os.path.join(scratch, 'out.jsonl')
            ef = os.path.join(scratch, 'err')
            with open(cf, 'w') as f:
                json.dump([[i, cases[i]] for i in todo], f)
            open(of, 'w').close()
            with open(ef, 'wb') as errf:
                p = subprocess.Popen(['/usr/bin/python3', '-X', 'faulthandler',
                                      os.path.join(VERIF, 'vlib', 'worker.py'),
                                      driver, cf, of], cwd=scratch,
                                     env=worker_env(libdir, scratch, env_extra),
                                     stdin=subprocess.DEVNULL, stdout=errf, stderr=errf,
                                     start_new_session=True)
            hang = stopped = False
            t_last, size_last = time.time(), 0
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    s = os.path.getsize(of)
                    if s != size_last:
                        size_last, t_last = s, time.time()
                    elif time.time() - t_last > case_timeout:
                        hang = True
                        break
                    if len(hangs) >= 3:
                        stopped = True
                        break
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            started, done = None, set()
            with open(of) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in d:
                        started = d['start']
                    else:
                        traces[d['idx']] = d['trace']
                        done.add(d['idx'])
            with open(ef, 'rb') as f:
                err = f.read()[-3000:].decode('utf-8', 'replace')
            shutil.rmtree(scratch, ignore_errors=True)
            rest = [i for i in todo if i not in done]
            if not rest or stopped:
                return
            if started is not None and started not in done:
                # the worker ended while this case was running
                if hang:
                    hangs.append(started)
                traces[started] = [{'op': 'hang' if hang else 'died',
                                    'rc': p.returncode if not hang else 0,
                                    'msg': err[-600:]}]
                rest.remove(started)
            else:
                # ended between cases, or never started
                if not done:
                    fails_to_start += 1
                    if fails_to_start >= 2:
                        for i in rest:
                            traces[i] = [{'op': 'nostart', 'rc': p.returncode or 0,
                                          'msg': err[-1500:]}]
                        with lock:
                            errors.append(err)
                        return
            todo = rest

    def loop():
        while True:
            with lock:
                if not queue:
                    return
                ids = queue.pop(0)
            one_chunk(ids)

    ts = [threading.Thread(target=loop) for _ in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(root, ignore_errors=True)
    return traces
