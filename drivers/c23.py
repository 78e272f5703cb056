"""C23: histories of instrumented calls, generated by TLC, under a virtual clock."""
import contextlib
import io
import json
import random
import re
import time

from drivers.common import as_int, hermipy, rng

TRACE = 'T_Stats'
MC = [('MC_Stats', 'MC_Stats')]
ASSUMPTIONS = ['a call that raises is not a completed call', 'the clock is that of the time module']
CLOCK = {'on': False, 't': 0.}


def setup():
    """Before the library is imported: a clock that only moves when told."""
    for name in ('time', 'perf_counter', 'monotonic', 'process_time'):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: CLOCK['t'] if CLOCK['on'] else real())
    for name in ('time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: int(CLOCK['t'] * 10 ** 9) if CLOCK['on'] else real())


def histories(num, seed):
    from vlib import tlc
    r = tlc.run('MC_Stats', 'GenStats', deadlock=False, simulate=num, depth=45, seed=seed, workers=1, timeout=300)
    if r.kind != 'ok':
        raise RuntimeError('TLC %s\n%s' % (r, r.out[-2000:]))
    seen, out = set(), []
    for line in r.out.split('\n'):
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            key = json.dumps(h[:-1])
            if key not in seen:
                seen.add(key)
                out.append(h)
    return out


def cases(seed, tier, ctx):
    r = rng(seed, 'c23')
    out = []
    for i, h in enumerate(histories(150 if tier == 'quick' else 3000, r.randint(1, 10 ** 6))):
        out.append({'t': 'hist', 'h': h, 'wrap': ['plain', 'debug', 'core', 'force'][i % 4], 'ask': int(i % 3 == 2),
                    'seed': r.randint(0, 10 ** 9)})
    for i in range(6 if tier == 'quick' else 40):
        out.append({'t': 'crowd', 'n': r.choice([30, 60, 120, 260]), 'seed': r.randint(0, 10 ** 9)})
    for i in range(12 if tier == 'quick' else 80):
        out.append({'t': 'real', 'seed': r.randint(0, 10 ** 9), 'ask': int(i % 4 == 3)})
    return out


class Boom(Exception):
    pass


class Quit(SystemExit):
    pass


class Stop(KeyboardInterrupt):
    pass


FAIL = (Boom, Quit, Stop)


def run(case):
    hm = hermipy()
    try:
        return globals()['r_' + case['t']](hm, case)
    finally:
        CLOCK['on'] = False
        hm.settings['trails'] = hm.settings['debug'] = hm.settings['cache'] = False


def stats_of(hs, keys, base):
    c = [as_int(hs.stats.get(k, {'Calls': 0})['Calls'] - base[k][0]) for k in keys]
    t = [as_int(hs.stats.get(k, {'Time': 0})['Time'] - base[k][1]) for k in keys]
    return c, t


def r_hist(hm, case):
    import hermipy.stats as hs
    from hermipy.cache import cache
    rr = random.Random(case['seed'])
    h = case['h']
    uid = 'm%d' % rr.randrange(10 ** 9)
    names = [('f', uid + 'a'), ('f', uid + 'b'), ('g', uid + 'a'), ('fg', uid + 'b')]
    keys = [n + '-' + m for n, m in names]
    base = {k: (0, 0) for k in keys}
    d0 = hs.indent
    tr = [{'op': 'start', 'n': 4}]
    pos = [0]
    out = io.StringIO()
    depth_raised = []

    def look(ev):
        c, t = stats_of(hs, keys, base)
        ev.update(depth=hs.indent - d0, calls=c, time=t, out=len(out.getvalue()))
        tr.append(ev)

    def body(top):
        """Runs the script from pos on, as the inside of one call (or the outside)."""
        while pos[0] < len(h):
            e = h[pos[0]]
            pos[0] += 1
            if e['op'] == 'tick':
                CLOCK['t'] += e['k']
                look({'op': 'tick', 'k': e['k']})
            elif e['op'] == 'call':
                f = e['f']
                token = object()
                a, kw = rr.choice([((token,), {}), ((token, 1), {'k': 2}), ((), {'token': token}), ((token, None), {'a': [1]})])
                try:
                    want[f].append((a, kw))
                    res = wrapped[f](*a, **kw)
                    look({'op': 'ret', 'f': f, 'same': int(res is last[0])})
                except FAIL as b:
                    look({'op': 'raise', 'f': f, 'same': int(b is last[0])})
                    if not top:
                        if pos[0] < len(h) and h[pos[0]]['op'] == 'handle':
                            pos[0] += 1
                        elif pos[0] < len(h) and h[pos[0]]['op'] == 'raise':
                            pos[0] += 1
                            if rr.random() < .5:
                                raise
                            last[0] = rr.choice(FAIL)()
                            raise last[0]
            elif e['op'] == 'ret':
                last[0] = rr.choice([None, 0, [1], object(), 1.5, ''])
                return last[0]
            elif e['op'] == 'raise':
                last[0] = rr.choice(FAIL)()
                raise last[0]
        if not top:       # the script ends here
            last[0] = [len(tr)]
            return last[0]

    last = [None]
    want = {i: [] for i in range(1, 5)}
    wrapped = {}
    for i, (n, m) in enumerate(names):
        def make(i):
            def fun(*a, **kw):
                wa, wk = want[i + 1].pop()
                ok = len(a) == len(wa) and all(x is y for x, y in zip(a, wa)) and sorted(kw) == sorted(wk) \
                    and all(kw[k] is wk[k] for k in kw)
                look({'op': 'call', 'f': i + 1, 'args': int(ok)})
                return body(False)
            return fun
        fun = make(i)
        fun.__name__, fun.__module__ = n, m
        w = hs.log_stats(force=case['wrap'] == 'force' and i == 0)(fun)
        if case['wrap'] in ('debug', 'core'):
            w = hs.debug()(w)
        tr.append({'op': 'same', 'a': n + m, 'b': w.__name__ + w.__module__})
        wrapped[i + 1] = w
    asked = bool(case['ask']) or case['wrap'] == 'force'
    tr.append({'op': 'ask', 'on': int(asked)})
    hm.settings['trails'] = bool(case['ask'])
    hm.settings['debug'] = bool(case['ask'] and rr.random() < .5)
    CLOCK['t'] = float(rr.randrange(1000))
    CLOCK['on'] = True
    try:
        with contextlib.redirect_stdout(out):
            body(True)
    finally:
        CLOCK['on'] = False
    tr.append({'op': 'same', 'a': int(bool(out.getvalue())), 'b': int(case['ask'] == 1 and any(e['op'] == 'call' for e in h))}
              if case['wrap'] != 'force' else {'op': 'same', 'a': 0, 'b': 0})
    # what is printed on request is what was counted
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        hs.print_stats()
    lines = buf.getvalue().split('\n')
    for k in keys:
        told = [[float(x) for x in re.findall(r'[0-9.]+(?:e-?[0-9]+)?', ln.split(k, 1)[1])] for ln in lines if re.search(r'(?<!\w)%s(?!\w)' % k, ln)]
        have = hs.stats.get(k)
        tr.append({'op': 'same', 'a': [[as_int(x) for x in t] for t in told], 'b': [[as_int(have['Calls']), as_int(have['Time'])]] if have else []})
    return tr


def r_crowd(hm, case):
    """Many functions at once: nothing of what was counted is forgotten."""
    import hermipy.stats as hs
    rr = random.Random(case['seed'])
    uid = 'm%d' % rr.randrange(10 ** 9)
    n = case['n']
    names = [('f%d' % i, uid) for i in range(n)]
    keys = [a + '-' + b for a, b in names]
    base = {k: (0, 0) for k in keys}
    watch = sorted(rr.sample(range(n), 6))
    wkeys = [keys[i] for i in watch]
    d0 = hs.indent
    tr = [{'op': 'start', 'n': len(watch)}, {'op': 'ask', 'on': 0}]
    out = io.StringIO()

    def look(ev):
        c, t = stats_of(hs, wkeys, base)
        ev.update(depth=hs.indent - d0, calls=c, time=t, out=len(out.getvalue()))
        tr.append(ev)
    wrapped = []
    for i, (a, b) in enumerate(names):
        def fun(i=i):
            if i in watch:
                look({'op': 'call', 'f': watch.index(i) + 1, 'args': 1})
            if i in watch and rr.random() < .5:
                k = rr.randint(1, 3)
                CLOCK['t'] += k
                look({'op': 'tick', 'k': k})
            return i
        fun.__name__, fun.__module__ = a, b
        wrapped.append(hs.log_stats()(fun))
    CLOCK['t'] = float(rr.randrange(1000))
    CLOCK['on'] = True
    try:
        with contextlib.redirect_stdout(out):
            for rnd in range(3):
                for i in rr.sample(range(n), n):
                    res = wrapped[i]()
                    if i in watch:
                        look({'op': 'ret', 'f': watch.index(i) + 1, 'same': int(res == i)})
    finally:
        CLOCK['on'] = False
    return tr


def r_real(hm, case):
    """Functions of the library, valid and invalid requests."""
    import numpy as np
    import hermipy.core as core
    import hermipy.stats as hs
    rr = random.Random(case['seed'])
    names = ['iterator_size', 'iterator_list_indices', 'iterator_index', 'iterator_get_degree', 'tensorize', 'project', 'inner']
    keys = [n + '-hermipy.core' for n in names]
    base = {k: (hs.stats.get(k, {'Calls': 0})['Calls'], hs.stats.get(k, {'Time': 0})['Time']) for k in keys}
    d0 = hs.indent
    tr = [{'op': 'start', 'n': len(keys)}, {'op': 'ask', 'on': case['ask']}]
    hm.settings['trails'] = bool(case['ask'])
    out = io.StringIO()
    s = lambda: rr.choice(['triangle', 'cube', 'cross', 'nonsense', 'rectangle'])

    def look(ev):
        c, t = stats_of(hs, keys, base)
        ev.update(depth=hs.indent - d0, calls=c, time=t, out=len(out.getvalue()))
        tr.append(ev)
    v = np.arange(6.)
    CLOCK['on'] = True
    try:
        with contextlib.redirect_stdout(out):
            for _ in range(40):
                i = rr.randrange(len(names))
                fn = getattr(core, names[i])
                calls = {
                    0: lambda: fn(rr.randint(1, 3), rr.randint(0, 4), index_set=s()),
                    1: lambda: fn(rr.randint(1, 3), rr.randint(0, 4), index_set=s()),
                    2: lambda: fn([rr.randint(0, 2) for _ in range(2)], index_set=s()),
                    3: lambda: fn(2, rr.choice([1, 3, 6, 7, 10]), index_set=rr.choice(['triangle', 'cube', 'bad'])),
                    4: lambda: fn([v[:rr.choice([2, 3])], v[:3]], index_set=rr.choice(['triangle', 'bad'])),
                    5: lambda: fn(v, 2, rr.choice([[0], [1], [5], [0, 1]]), index_set=rr.choice(['triangle', 'bad'])),
                    6: lambda: fn(v[:3], v[:rr.choice([2, 3])], [0], [0], index_set=rr.choice(['triangle', 'bad'])),
                }
                # the recorder cannot look from inside: entering is taken as read
                c, t = stats_of(hs, keys, base)
                tr.append({'op': 'call', 'f': i + 1, 'args': 1, 'depth': hs.indent - d0 + 1, 'calls': c, 'time': t, 'out': len(out.getvalue())})
                try:
                    calls[i]()
                    ok = True
                except Exception:
                    ok = False
                look({'op': 'ret' if ok else 'raise', 'f': i + 1, 'same': 1})
    finally:
        CLOCK['on'] = False
    return tr
