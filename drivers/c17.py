"""C17: histories with damage and with processes that die while writing."""
import os
import random
import resource
import shutil
import signal

from drivers import cachelib as cl
from drivers.common import hermipy, rng

TRACE = 'T_Cache'
MC = [('MC_Cache', 'MC_Cache')]
ASSUMPTIONS = ['damage is truncation, emptying or replacement by junk; a well formed file with other numbers in it cannot be told apart',
               'entries are files of the cache directory that a call writes']
SMALL = ['int', 'float', 'npf', 'arr', 'mat', 'imat', 'cplx', 'csr', 'csrpat', 'bool', 'cube', 'last']


def cases(seed, tier, ctx):
    r = rng(seed, 'c17')
    out = []
    num = 120 if tier == 'quick' else 1500
    for i, h in enumerate(cl.histories('GenCacheF', num, r.randint(1, 10 ** 6))):
        out.append({'t': 'hist', 'h': h, 'kind': cl.KINDS[i % len(cl.KINDS)], 'quiet': int(i % 5 == 4),
                    'seed': r.randint(0, 10 ** 9)})
    for kind in SMALL:
        out.append({'t': 'every', 'kind': kind, 'step': 1, 'seed': 1})
    out.append({'t': 'every', 'kind': 'big', 'step': 97 if tier == 'quick' else 7, 'seed': 2})
    for kind in ('float', 'mat', 'csr', 'int', 'big'):
        for how in ('kill', 'error'):
            out.append({'t': 'crash', 'kind': kind, 'how': how, 'step': {'big': 613}.get(kind, 9 if tier == 'quick' else 1),
                        'seed': r.randint(0, 10 ** 9)})
    for kind in cl.KINDS:
        out.append({'t': 'junk', 'kind': kind, 'seed': r.randint(0, 10 ** 9)})
    for i in range(6 if tier == 'quick' else 30):
        out.append({'t': 'real', 'seed': r.randint(0, 10 ** 9)})
    return out


def run(case):
    hm = hermipy()
    dirs = [cl.newdir()]
    try:
        return globals()['r_' + case['t']](hm, case, dirs)
    finally:
        hm.settings['cache'] = False
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def junk(rr, size, good=b''):
    k = rr.randrange(8)
    if k == 0:
        return bytes(rr.randrange(256) for _ in range(max(size, 1)))
    if k == 1:
        return b'\0' * max(size, 1)
    if k == 2:
        return b'not an entry\n'
    if k == 3:
        return b'\x93NUMPY'
    if k == 4:
        return b'PK\x03\x04' + b'\0' * 30
    if k == 5:
        return b'\x80\x04N.'
    if k == 6:
        return b'PK\x05\x06' + b'\0' * 18           # an archive of nothing
    return b'\x93NUMPY\x01\x00\x76\x00' + b' ' * 117 + b'\n'


def damage(R, rr, k, how):
    """Damages the entry of k, if there is one; True if it did."""
    fs = R.entry(k)
    if not fs:
        return False
    for f in fs:
        with open(f, 'rb') as fd:
            data = fd.read()
        if how == 'trunc':
            new = data[:rr.randrange(len(data))] if data else b''
        elif how == 'empty':
            new = b''
        else:
            new = junk(rr, len(data), data)
        with open(f, 'wb') as fd:
            fd.write(new)
    return True


def crash(R, rr, k, args, kw, limit, how):
    """A process uses the cache for the call and cannot write more than limit
    bytes to a file: it is killed there, or sees an error."""
    before = cl.snapshot(R.cdir)
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == 'kill' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            R.cur = k
            R.funs[0](*args, **dict(kw, cache=True))
        except BaseException:
            pass
        os._exit(0)
    os.waitpid(pid, 0)
    after = cl.snapshot(R.cdir)
    ch = [f for f in set(before) | set(after) if before.get(f) != after.get(f)]
    if ch:
        R.files.setdefault(k, set()).update(os.path.join(R.cdir, f) for f in ch)
    R.tr.append({'op': 'crash', 'k': k})


def r_hist(hm, case, dirs):
    rr = random.Random(case['seed'])
    R = cl.Recorder(hm, dirs, case['kind'], bool(case['quiet']), n=3, on=case['h'][0]['on'])
    pool = cl.pool()
    pick = {k: pool[i] for k, i in zip((1, 2, 3), rr.sample(range(len(pool)), 3))}
    for e in case['h'][1:]:
        if e['op'] == 'set':
            R.setting(e['on'])
        elif e['op'] == 'change':
            R.change(e['k'])
        elif e['op'] == 'call':
            R.call(e['k'], *pick[e['k']], use=e['use'])
        elif e['op'] == 'damage':
            if damage(R, rr, e['k'], e['how']):
                R.tr.append({'op': 'damage', 'k': e['k']})
        elif e['op'] == 'remove':
            for f in R.entry(e['k']):
                os.unlink(f)
            R.tr.append({'op': 'remove', 'k': e['k']})
        elif e['op'] == 'crash':
            crash(R, rr, e['k'], *pick[e['k']], limit=rr.choice([0, 1, rr.randrange(130), rr.randrange(130), rr.randrange(1200)]),
                  how=rr.choice(['kill', 'kill', 'error']))
    for k in (1, 2, 3):        # whatever happened, it is repaired
        R.call(k, *pick[k], use='f')
        R.call(k, *pick[k], use='t')
        R.call(k, *pick[k], use='t')
    return R.tr


def r_every(hm, case, dirs):
    """An entry cut at every length."""
    rr = random.Random(case['seed'])
    R = cl.Recorder(hm, dirs, case['kind'], n=1, on=True)
    c = ((3, 'x'), {})
    R.call(1, *c)
    size = max(os.path.getsize(f) for f in R.entry(1))
    for n in range(0, size, case['step']):
        for f in R.entry(1):
            with open(f, 'rb+') as fd:
                fd.truncate(min(n, os.path.getsize(f) - 1))
        R.tr.append({'op': 'damage', 'k': 1})
        if n % 5 == 0:
            R.call(1, *c, use='f')
        R.call(1, *c)
        R.call(1, *c)
    return R.tr


def r_junk(hm, case, dirs):
    rr = random.Random(case['seed'])
    R = cl.Recorder(hm, dirs, case['kind'], n=2, on=True)
    c, d = ((3, 'x'), {}), ((3, 'y'), {})
    R.call(1, *c)
    R.call(2, *d)
    for i in range(30):
        damage(R, rr, 1, 'junk')
        R.tr.append({'op': 'damage', 'k': 1})
        if rr.random() < .3:
            R.call(1, *c, use='f')
        R.call(1, *c, use=rr.choice('nt'))
        R.call(1, *c)
        R.call(2, *d)
    return R.tr


def r_crash(hm, case, dirs):
    rr = random.Random(case['seed'])
    R = cl.Recorder(hm, dirs, case['kind'], n=1, on=True)
    c = ((4, 'z'), {})
    R.call(1, *c)
    size = max(os.path.getsize(f) for f in R.entry(1))
    for n in range(0, size + case['step'], case['step']):
        for f in R.entry(1):
            os.unlink(f)
        R.tr.append({'op': 'remove', 'k': 1})
        crash(R, rr, 1, *c, limit=n, how=case['how'])
        if rr.random() < .4:
            R.call(1, *c, use='f')
        if rr.random() < .2:
            crash(R, rr, 1, *c, limit=rr.randrange(size), how=case['how'])
        R.call(1, *c)
        R.call(1, *c)
    return R.tr


def r_real(hm, case, dirs):
    """Functions of the library over damaged entries."""
    import hermipy.core as core
    import hermipy.stats as hs
    from drivers import c16
    rr = random.Random(case['seed'])
    calls = c16.real_calls(rr)[:25]
    ref = [getattr(core, f)(*a, **dict(k, cache=False)) for f, a, k in calls]
    hm.settings['cachedir'] = dirs[0]
    hm.settings['cache'] = True
    tr = [{'op': 'start', 'n': len(calls), 'on': 1}]
    files = {}
    for step in range(120):
        k = rr.randrange(len(calls))
        f, a, kw = calls[k]
        present = [p for p in files.get(k, ()) if os.path.isfile(p)]
        if present and rr.random() < .5:
            for p in present:
                with open(p, 'rb') as fd:
                    data = fd.read()
                new = rr.choice([lambda: data[:rr.randrange(len(data) or 1)], lambda: b'', lambda: junk(rr, len(data))])()
                with open(p, 'wb') as fd:
                    fd.write(new)
            tr.append({'op': 'damage', 'k': k + 1})
        use = rr.choice('nntf')
        key = f + '-hermipy.core'
        c0 = hs.stats.get(key, {'Calls': 0})['Calls']
        b = cl.snapshot(dirs[0])
        kw = dict(kw)
        if use != 'n':
            kw['cache'] = use == 't'
        try:
            res = getattr(core, f)(*a, **kw)
            ret = 0 if cl.same(res, ref[k], 1e-12) else cl.BAD
        except Exception:
            ret = -3
        c1 = hs.stats.get(key, {'Calls': 0})['Calls']
        e = cl.snapshot(dirs[0])
        ch = [p for p in set(b) | set(e) if b.get(p) != e.get(p)]
        files.setdefault(k, set()).update(os.path.join(dirs[0], p) for p in ch)
        tr.append({'op': 'call', 'k': k + 1, 'use': use, 'quiet': 0, 'storable': 1, 'exec': c1 - c0, 'ret': ret,
                   'written': int(bool(ch))})
    return tr
