"""C17: disk saving does not change results."""
import os
import shutil

import numpy as np
import pandas as pd

from .. import lib, nets

RULE = ('one evaluation = one network simulated in memory and again with disk saving; every record left in memory, returned by the '
        'environment and found in the file is compared bit for bit with the records of the first run; distinct = (network, relation of the '
        'write interval to the number of steps, number of writes, compression)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'runs are deterministic (C19)', 'local file system without faults']

TAB = dict(dm='res_dm', res='res', heating='res_dQ', Pel='res_Pel', Pgas='res_Pgas', chp_state='_chp_state')


def chp(r, tf):
    from . import c15
    return c15.build(dict(tf=tf, hot=False), r)[0]


def gen(tier, seed):
    n = 80 if tier == 'quick' else 1000
    fams = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'heated', 'rnet', 'chp', 'hexu', 'hexi', 'enlarge', 'chain',
            'tes', 'heated']
    out = []
    for i in range(n):
        r = lib.rng('c17', seed, i)
        f = fams[i % len(fams)]
        tf = r.choice([3.0, 10.0, 30.0])
        if 'hex' in f:
            tf = 3.0
        if f == 'chp':
            tf = 60.0
        out.append(dict(fam=f, seed='c17_%d_%d' % (seed, i), tf=tf,
                        rel=['K', 'K-1', 'K+1', 'half', 'div', 'rand', 'tiny', 'big'][(i + i // len(fams)) % 8],
                        comp=r.choice([(0, 'zlib'), (5, 'zlib'), (9, 'zlib'), (3, 'blosc'), (0, 'blosc')]), w=1))
    out += [dict(out[-1 - 2 * i], fam='hexc', seed='c17_x%d_%d' % (seed, i), tf=5.0) for i in range(4 if tier == 'quick' else 40)]
    return out


def interval(r, rel, K):
    if rel == 'K':
        return K
    if rel == 'K-1':
        return max(2, K - 1)
    if rel == 'K+1':
        return K + 1
    if rel == 'half':
        return max(2, K // 2)
    if rel == 'div':
        d = [x for x in range(2, K) if K % x == 0 or (K - 1) % x == 0]
        return r.choice(d) if d else K
    if rel == 'rand':
        return r.randint(2, K + 2)
    if rel == 'tiny':
        return r.randint(2, 5)
    return 100000


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    if c['fam'] == 'chp':
        s = chp(r, c['tf'])
    elif c['fam'] == 'enlarge':
        s = lib.fam_spec(dict(c, fam=r.choice(['chain', 'tes', 'heated', 'valve']), tf=r.choice([1.0, 2.0]),
                              tfkw=dict(max_stepsize=r.choice([0.002, 0.004]))))
    else:
        s = lib.fam_spec(dict(c, tfkw=dict(max_stepsize=r.choice([100.0, 1.0]))))
    if r.random() < 0.4 and c['fam'] != 'chp':
        for q in s['bcs']:
            if r.random() < 0.5 and q.get('const', True):
                q.update(const=False, T=nets.ts([round(r.uniform(15, 80), 2) for _ in range(int(c['tf']) + 3)], 1.0))
    a = scen.run(s)
    tr = scen.trace(a)
    t = tr['t']
    K = len(t)
    se = dict(sys_trnc_err=np.array(a._sys_trnc_err), failed_steps=np.array(a._failed_steps), solver_state=np.array(a._solver_state))
    if c['fam'] == 'enlarge':
        v.chk(K > 100 * s['tf'], 'reach', lambda: 'the run was not longer than the memory allocated first (%d)' % K)
    n = interval(r, c['rel'], K)
    o, d = lib.disk(save_every_n_steps=n, complevel=c['comp'][0], complib=c['comp'][1], create_new_folder=r.random() < 0.5)
    start = r.choice(['2019-09-01 00:00:00', '2020-02-29 13:37:02', '2021-12-31 23:59:58'])
    if any('__ts__' in q['T'] for q in s['bcs'] if isinstance(q['T'], dict)):
        start = lib.START
    o['start_date'] = start
    e = scen.run(dict(s, disk=o))
    cfg = 'write interval %d, %d rows, compression %s' % (n, K, c['comp'])
    nv = 0
    dd = lib.diff_traces(tr, scen.trace(e))
    v.chk(dd is None, 'memory', lambda: '%s: after saving, %s' % (cfg, dd))

    def table(kind, nm, df, want):
        nonlocal nv
        x = df.to_numpy(dtype=float)
        w = np.asarray(want, dtype=float).reshape(K, -1)
        if not v.chk(x.shape == w.shape, kind + ' shape', lambda: '%s: table %s of the %s has shape %s instead of %s' % (cfg, nm, kind, x.shape, w.shape)):
            return
        nv += x.size
        if not np.array_equal(x, w):
            j = np.unravel_index(int(np.argmax(~(x == w))), x.shape)
            v.add(kind, '%s: table %s of the %s differs at row %d, column %d: %r instead of %r' % (cfg, nm, kind, j[0], j[1], x[j], w[j]))
        ix = (df.index - pd.Timestamp(start)).total_seconds().to_numpy()
        v.chk(np.abs(ix - t).max() < 2e-6, kind + ' times', lambda: '%s: times of table %s of the %s' % (cfg, nm, kind))

    def tables(kind, get, have):
        for p in tr:
            if p in ('t', 'dtv'):
                continue
            for nm, attr in TAB.items():
                if attr not in tr[p]:
                    continue
                if not v.chk(have(p, nm), kind + ' missing', lambda: '%s: table %s of part %s is missing in the %s' % (cfg, nm, p, kind)):
                    continue
                table(kind, '%s/%s' % (p, nm), get(p, nm), tr[p][attr])
        q = get('sim_vecs', None)
        want = dict(time=t, timestep=tr['dtv'], **se)
        v.chk(set(q.columns) == set(want), kind + ' sim_vecs', lambda: '%s: solver records %s' % (cfg, list(q.columns)))
        for k2, w in want.items():
            if k2 in q:
                table(kind, 'sim_vecs/' + k2, q[[k2]], w)
    R = e.return_stored_data()
    tables('returned data', lambda p, nm: R[p][nm] if nm else R[p], lambda p, nm: p in R and nm in R[p])
    fs = [os.path.join(x, f) for x, _, ff in os.walk(d) for f in ff]
    h5 = [f for f in fs if f.endswith('.h5')]
    if v.chk(len(h5) == 1, 'files', lambda: '%s: files %s' % (cfg, [os.path.basename(f) for f in fs])):
        with pd.HDFStore(h5[0], mode='r') as st:
            ks = set(st.keys())
            tables('file', lambda p, nm: st['/%s/%s' % (p, nm) if nm else '/' + p], lambda p, nm: '/%s/%s' % (p, nm) in ks)
        L = scen.ms.ut.load_sim_results(h5[0], path='', multiindex=False)
        tables('loaded results', lambda p, nm: L[p][nm] if nm else L[p], lambda p, nm: p in L and nm in L[p])
    shutil.rmtree(d, ignore_errors=True)
    w = K // n
    return dict(viol=v, keys=['%s %s %d %s' % (c['fam'], c['rel'], min(w, 6), c['comp'][0] > 0)],
                stats=dict(values=nv, rows=K, writes=w + 1, exact_boundary=int(K % n == 0 or (K - 1) % n == 0), enlarged=int(c['fam'] == 'enlarge')),
                sample=dict(c, rows=K, interval=n, writes=w + 1))


def finish(results, by_id, stats):
    if len(results) > 60 and stats.get('exact_boundary', 0) < 5:
        return [dict(key='reach', msg='hardly any run ended at a write: %s' % stats)]
    return []
