#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: builds hermipy from /repo's working tree, model checks
the specification of the area, drives the real library, and has TLC validate
every recorded session against the specification."""
import argparse
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build as vbuild    # noqa: E402
from vlib import pool, tlc          # noqa: E402

FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
ERR_STARTUP = 'nostart'


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def known_findings(pid):
    """lines  known: property=<id> key=<case key> <what fails>"""
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)$', line.strip())
                if m and m.group(1) == pid:
                    res[m.group(2)] = m.group(3)
    return res


def clean_tmp():
    """The library keeps compiled integrands as /tmp/<number>.{cpp,so}; those of a check running now are left alone."""
    for f in os.listdir('/tmp'):
        m = re.match(r'^[0-9]+(\.([0-9]+)\.[0-9]+)?\.(cpp|so)$', f)
        if m and not (m.group(2) and os.path.exists('/proc/' + m.group(2))):
            try:
                if time.time() - os.path.getmtime('/tmp/' + f) > 1000:
                    os.unlink('/tmp/' + f)
            except OSError:
                pass


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = importlib.import_module('drivers.' + pid.lower())
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.trans = 0
        self.mc_info = []
        self.validated = 0
        self.libdir = None
        self.more = {}

    # -- model checking of the specification itself ------------------------
    def run_mc(self):
        jobs = list(getattr(self.mod, 'MC', []))
        if self.tier == 'thorough':
            jobs += list(getattr(self.mod, 'MC_THOROUGH', []))
        for job in jobs:
            module, cfg = job[0], job[1]
            kw = dict(job[2]) if len(job) > 2 else {}
            kw.setdefault('deadlock', False)
            kw.setdefault('timeout', 800 if self.tier == 'quick' else 7200)
            r = tlc.run(module, cfg, **kw)
            if r.kind != 'ok':
                raise Machinery('model %s/%s: %s\n%s' % (module, cfg, r, r.out[-3000:]))
            self.states += r.distinct
            self.trans += r.states
            self.mc_info.append({'model': module, 'config': cfg, 'distinct': r.distinct,
                                 'generated': r.states, 'wall_s': round(r.wall, 1)})

    # -- validation of recorded sessions -----------------------------------
    def validate(self, traces, module, name='t', count=True):
        """Returns list of (index, event position) of rejected traces."""
        f = os.path.join(self.work, name + '.json')
        with open(f, 'w') as fd:
            json.dump({'traces': traces}, fd)
        kw = dict(getattr(self.mod, 'TLC_KW', {}))
        kw.setdefault('workers', 8)
        kw.setdefault('heap', '6g')
        kw.setdefault('timeout', 820 if self.tier == 'quick' else 14400)
        r = tlc.run(module, getattr(self.mod, 'TRACE_CFG', None) or module,
                    env={'TRACE_FILE': f}, deadlock=True, **kw)
        if count and r.kind == 'ok':
            self.states += r.distinct
            self.trans += r.states
        return r

    def rejected(self, traces, module, name='t'):
        """First rejected trace as (index, event index, TLC result) or None."""
        r = self.validate(traces, module, name)
        if r.kind == 'ok':
            return None
        if r.kind in ('rejected', 'invariant') and 'tid' in r.last:
            return int(r.last['tid']) - 1, int(r.last['l']) - 1, r
        if r.kind == 'timeout' or 'semantic analysis failed' in r.out or 'OutOfMemory' in r.out or 'StackOverflow' in r.out \
                or 'Starting...' not in r.out:
            raise Machinery('TLC %s\n%s' % (r, r.out[-3000:]))
        # evaluation error: find the trace the specification cannot even read
        lo, hi = 0, len(traces)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            q = self.validate(traces[lo:mid], module, name + 'b', count=False)
            if q.kind == 'ok':
                lo = mid
            else:
                hi = mid
        q = self.validate(traces[lo:hi], module, name + 'b', count=False)
        if q.kind == 'ok':
            raise Machinery('TLC %s\n%s' % (r, r.out[-3000:]))
        return lo, int(q.last.get('l', '1')) - 1, q

    def execute(self, cases, **more):
        kw = dict(getattr(self.mod, 'POOL_KW', {}), **more)
        traces = pool.run_cases(self.pid.lower(), cases, self.libdir, **kw)
        bad = [t for t in traces if t and t[0].get('op') == ERR_STARTUP]
        if bad:
            raise Machinery('library worker does not start:\n' + bad[0][0]['msg'])
        return traces

    def in_one_process(self, before, case):
        """The trace of a case run after others in the same process."""
        cs = list(before) + [case]
        return self.execute(cs, jobs=1, chunk=len(cs))[-1]

    def history(self, cases, i):
        """The cases that ran before case i in its process."""
        for ids in pool.chunks(len(cases), **dict(getattr(self.mod, 'POOL_KW', {}), **self.more)):
            if i in ids:
                return [cases[j] for j in ids[:ids.index(i)]]
        return []

    def replay_file(self, case, trace, pos, out, before=()):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        blob = json.dumps({'property': self.pid, 'case': case, 'before': list(before), 'event_index': pos,
                           'event': trace[pos] if 0 <= pos < len(trace) else None,
                           'trace': trace, 'tlc': out[-4000:]}, indent=1)
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.pid, h))
        with open(p, 'w') as f:
            f.write(blob)
        return p

    def main(self, replay=None):
        t0 = time.time()
        clean_tmp()
        mc_err = []

        def bg():
            try:
                self.run_mc()
            except BaseException as e:
                mc_err.append(e)
        th = threading.Thread(target=bg)
        th.start()
        self.libdir = vbuild.build()
        t_build = time.time() - t0
        module = self.mod.TRACE
        known = known_findings(self.pid)
        if replay:
            with open(replay) as f:
                saved = json.load(f)
            cases = saved.get('before', []) + [saved['case']]
            self.more = {'jobs': 1, 'chunk': len(cases)}
        else:
            cases, seen = [], set()
            for i in range(getattr(self.mod, 'ROUNDS', 3) if self.tier == 'quick' else 1):
                for c in self.mod.cases(self.seed + 7919 * i, self.tier, self):
                    key = json.dumps(c, sort_keys=True)
                    if key not in seen:
                        seen.add(key)
                        cases.append(c)
        self.n_cases = len(cases)
        traces = self.execute(cases, **self.more)
        t_exec = time.time() - t0
        th.join()
        if mc_err:
            raise mc_err[0]
        # sessions left out because several never ended
        skipped = {i for i, t in enumerate(traces) if t is None}
        kidx = [i for i, c in enumerate(cases) if c.get('key') in known and i not in skipped]
        nidx = [i for i in range(len(cases)) if i not in set(kidx) | skipped]
        # sessions of listed findings: reported, never silently dropped
        for i in kidx:
            rej = self.rejected([traces[i]], module, 'k')
            if rej:
                log('KNOWN-FINDING: property=%s %s' % (self.pid, known[cases[i]['key']]))
        # what tells one session from another; the rest is detail
        live = list(nidx)
        unrepeated = 0
        violation = None
        while live:
            rej = self.rejected([traces[i] for i in live], module)
            if rej is None:
                break
            i, pos, r = live[rej[0]], rej[1], rej[2]
            again = None
            for _ in range(getattr(self.mod, 'CONFIRM', 1)):
                t2 = self.execute([cases[i]])[0]
                again = self.rejected([t2], module, 'again')
                if again:
                    break
            if again:
                violation = (i, t2, again[1], again[2], ())
                break
            unrepeated += 1
            # the same session after what came before it: state kept between requests
            before = self.history(cases, i)
            if before and unrepeated <= 3:
                t2 = self.in_one_process(before, cases[i])
                again = self.rejected([t2], module, 'again')
                if again:
                    violation = (i, t2, again[1], again[2], before)
                    break
            log('NOTE: rejected once, not repeated on re-run: case %s'
                % json.dumps(cases[i])[:300])
            log('  event %d: %s' % (pos, json.dumps(traces[i][pos])[:600] if pos < len(traces[i]) else '(end)'))
            live.remove(i)
            if unrepeated > 5:
                raise Machinery('too many unrepeatable rejections')
        if skipped and not violation:
            raise Machinery('%d sessions were not run: too many never ended, but not again' % len(skipped))
        self.validated = len(live)
        wall = time.time() - t0
        ev = self.evidence(cases, traces, wall, 1 if violation else 0, unrepeated)
        ev['coverage']['build_s'] = round(t_build, 1)
        ev['coverage']['execute_s'] = round(t_exec - t_build, 1)
        if not replay:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
                f.write('\n')
        if violation:
            i, t2, pos, r, before = violation
            if before:
                log('only after %d earlier sessions in the same process' % len(before))
            p = self.replay_file(cases[i], t2, pos, r.out, before)
            log('case: %s' % json.dumps(cases[i])[:600])
            if 0 <= pos < len(t2):
                log('event %d: %s' % (pos, json.dumps(t2[pos])[:1200]))
            log('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        log('%s ok: %d sessions, %d events, %d states, build %.0fs exec %.0fs total %.0fs'
            % (self.pid, len(live), sum(len(traces[i]) for i in live), self.states,
               t_build, t_exec - t_build, wall))
        return 0

    def evidence(self, cases, traces, wall, nviol, unrepeated):
        events = sum(len(t) for t in traces if t)
        ops = {}
        for t in traces:
            for e in t or []:
                ops[e.get('op', '?')] = ops.get(e.get('op', '?'), 0) + 1
        sig = set()
        for c in cases:
            sig.add(json.dumps(c, sort_keys=True))
        samples = []
        for i in sorted(set([0, len(cases) // 3, (2 * len(cases)) // 3, len(cases) - 1])):
            if 0 <= i < len(cases):
                samples.append({'case': json.dumps(cases[i])[:500],
                                'session': json.dumps(traces[i])[:700]})
        cov = {'states': self.states, 'transitions': self.trans,
               'traces_validated_against_impl': self.validated,
               'evaluations': events, 'distinct_nontrivial': len(sig),
               'rule': getattr(self.mod, 'RULE',
                               'one session per generated case; sessions with the same case '
                               'counted once; every event is a real library call or its result'),
               'events_by_operation': ops, 'models': self.mc_info,
               'unrepeated_rejections': unrepeated, 'samples': samples}
        if hasattr(self.mod, 'coverage'):
            cov.update(self.mod.coverage(cases, traces))
        return {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
                'level': getattr(self.mod, 'LEVEL', 'model_checking'), 'coverage': cov,
                'assumptions': getattr(self.mod, 'ASSUMPTIONS', []),
                'wall_s': round(wall, 1), 'violations': nviol}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.environ['VERIF_TIER'] = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_SEED'] = str(seed)
    c = None
    try:
        c = Check(a.property, a.tier, seed)
        rc = c.main(a.replay)
    except Machinery as e:
        log('ERROR of the machinery: %s' % e)
        rc = 2
    except vbuild.BuildError as e:
        log('ERROR: /repo does not build:\n%s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if c is not None:
            shutil.rmtree(c.work, ignore_errors=True)
        clean_tmp()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
