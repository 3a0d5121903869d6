"""C18: store selections, resampling, loading."""
import os
import shutil

import numpy as np
import pandas as pd

from .. import lib, nets
from .c16 import means
from .c17 import TAB

RULE = ('one evaluation = one network simulated in memory and again with disk saving, random selections of the cells to store and '
        'possibly resampling; every stored table is compared with the selected columns of the full records, resampled independently; '
        'distinct = (network, kinds of selections, resampling, compression)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25', 'runs are deterministic (C19)',
               'selections are indices into the (flattened) cells of the part; tables without one column per cell are stored completely',
               'resampling: means of the records in each interval, intervals without a record interpolated linearly']


def gen(tier, seed):
    n = 80 if tier == 'quick' else 1000
    fams = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'heated', 'rnet', 'chp', 'hexu', 'hexi', 'tes', 'chain']
    out = []
    for i in range(n):
        r = lib.rng('c18', seed, i)
        f = fams[i % len(fams)]
        tf = r.choice([3.0, 10.0, 30.0])
        if 'hex' in f:
            tf = 3.0
        if f == 'chp':
            tf = 60.0
        out.append(dict(fam=f, seed='c18_%d_%d' % (seed, i), tf=tf, freq=[None, 1.0, None, 0.5, 2.0, 0.05, None, 0.3][i % 8],
                        comp=r.choice([0, 0, 5]), n=r.choice([7, 50, 100000]), w=1))
    out += [dict(out[-1 - 2 * i], fam='hexc', seed='c18_x%d_%d' % (seed, i), tf=5.0, freq=None) for i in range(4 if tier == 'quick' else 40)]
    return out


def selection(r, n):
    """(python selection as JSON, expected columns, kind)"""
    k = r.choice(['all', 'none', 'int', 'int', 'list', 'list', 'tuple', 'slice', 'one', 'last'])
    if k == 'all':
        return True, list(range(n)), k
    if k == 'none':
        return False, None, k
    if k == 'int':
        i = r.randrange(n)
        return i, [i], k
    if k == 'last':
        return n - 1, [n - 1], k
    if k == 'one':
        i = r.randrange(n)
        return [i], [i], k
    if k == 'slice':
        a = r.randrange(n)
        b = r.randint(a + 1, n)
        st = r.choice([1, 1, 2])
        return {'__slice__': [a, b, st]}, list(range(a, b, st)), k
    c = r.sample(range(n), r.randint(1, n))
    if r.random() < 0.5:
        c.sort()
    return ({'__tup__': c} if k == 'tuple' else c), c, k


def run(c):
    from .. import scen
    from .c17 import chp
    v, r = lib.V(), lib.rng(c['seed'])
    s = chp(r, c['tf']) if c['fam'] == 'chp' else lib.fam_spec(dict(c, tfkw=dict(max_stepsize=r.choice([100.0, 1.0]))))
    a = scen.run(s)
    tr = scen.trace(a)
    t = tr['t']
    K = len(t)
    sel, kinds = {}, set()
    s2 = dict(s, parts=[dict(p) for p in s['parts']])
    for p in s2['parts']:
        g = p['kw'].get('grid_points')
        if g is None:
            q, cols, k = selection(r, 1)
            if k not in ('none', 'all'):
                q, cols, k = True, [0], 'all'
            w = int(np.prod(tr[p['n']]['res'].shape[1:]))
            cols = None if cols is None else list(range(w))
        else:
            q, cols, k = selection(r, g)
            if k == 'all':
                cols = list(range(int(np.prod(tr[p['n']]['res'].shape[1:]))))
            elif k == 'slice' and p['t'] == 'HexNum':
                q, cols, k = [0], [0], 'one'
        p['store'] = q
        sel[p['n']] = (cols, k, g)
        kinds.add(k)
    f = c['freq']
    kw = dict(save_every_n_steps=c['n'], complevel=c['comp'])
    if f:
        kw.update(resample_final=True, resample_freq='%dms' % round(f * 1000))
    o, d = lib.disk(**kw)
    e = scen.run(dict(s2, disk=o))
    dd = lib.diff_traces(tr, scen.trace(e))
    v.chk(dd is None, 'memory', lambda: 'with store selections %s, %s' % ({p: x[1] for p, x in sel.items()}, dd))
    nv = 0
    start = pd.Timestamp(lib.START)

    def table(kind, nm, df, want, cols, g):
        nonlocal nv
        w = np.asarray(want, dtype=float).reshape(K, -1)
        if g is None or w.shape[1] < g:
            cols = list(range(w.shape[1]))
        elif w.shape[1] == g and cols is not None and max(cols) >= g:
            cols = list(range(g))
        w = w[:, cols]
        ctx = 'table %s of the %s (cells %s, resampling %s s, compression %d)' % (nm, kind, cols, f, c['comp'])
        # the cells of a flue gas exchanger have names
        names = {x: i for i, x in enumerate(('water_in', 'fluegas_in', 'water_out', 'fluegas_out'))}
        if nm.endswith('dm'):
            names = dict(water=0, fluegas=1)
        v.chk([names[x] if x in names else int(x) for x in df.columns] == cols, kind + ' columns', lambda: '%s has columns %s' % (ctx, list(df.columns)))
        x = df.to_numpy(dtype=float)
        gt = t
        if f:
            w2 = []
            for j in range(w.shape[1]):
                y, gt = means(t, w[:, j], f, 0.0)
                w2.append(y)
            w = np.array(w2).T
        if not v.chk(x.shape == w.shape, kind + ' shape', lambda: '%s has shape %s instead of %s' % (ctx, x.shape, w.shape)):
            return
        nv += x.size
        tol = 0.0 if not f else 1e-10 * (1 + np.abs(w))
        bad = ~(np.abs(x - w) <= tol)
        if bad.any():
            j = np.unravel_index(int(np.argmax(bad)), x.shape)
            v.add(kind, '%s: row %d, column %d: %r instead of %r' % (ctx, j[0], j[1], x[j], w[j]))
        ix = (df.index - start).total_seconds().to_numpy()
        v.chk(np.abs(ix - gt).max() < 2e-6, kind + ' times', lambda: '%s: times differ by up to %.3g s' % (ctx, np.abs(ix - gt).max()))

    def tables(kind, get, have):
        for p, (cols, k, g) in sel.items():
            for nm, attr in TAB.items():
                if attr not in tr[p]:
                    continue
                if cols is None:
                    v.chk(not have(p, nm), kind + ' extra', lambda: 'table %s of part %s is in the %s but was not to be stored' % (nm, p, kind))
                    continue
                if v.chk(have(p, nm), kind + ' missing', lambda: 'table %s of part %s (cells %s) is missing in the %s' % (nm, p, cols, kind)):
                    table(kind, '%s/%s' % (p, nm), get(p, nm), tr[p][attr], cols, g)
        q = get('sim_vecs', None)
        v.chk(len(q) == K and np.array_equal(q['time'].to_numpy(), t), kind + ' sim_vecs', 'time vector of the %s' % kind)
    R = e.return_stored_data()
    tables('returned data', lambda p, nm: R[p][nm] if nm else R[p], lambda p, nm: p in R and nm in R[p])
    h5 = [f2 for f2 in os.listdir(d) if f2.endswith('.h5')]
    if v.chk(len(h5) == 1, 'files', lambda: 'files %s' % os.listdir(d)):
        with pd.HDFStore(os.path.join(d, h5[0]), mode='r') as st:
            ks = set(st.keys())
            tables('file', lambda p, nm: st['/%s/%s' % (p, nm) if nm else '/' + p], lambda p, nm: '/%s/%s' % (p, nm) in ks)
        ut = scen.ms.ut
        how = r.choice(['full', 'dir', 'dirsep'])
        fa = dict(full=(os.path.join(d, h5[0]), ''), dir=(h5[0], d), dirsep=(h5[0], d + os.sep))[how]
        L = ut.load_sim_results(fa[0], path=fa[1], multiindex=False)
        tables('loaded results', lambda p, nm: L[p][nm] if nm else L[p], lambda p, nm: p in L and nm in L[p])
        stored = [p for p in sel if sel[p][0] is not None]
        if stored:
            L2 = ut.load_sim_results(fa[0], path=fa[1], multiindex=True)
            D = L2['data']
            tables('loaded multiindex', lambda p, nm: D[p][nm] if nm else L2['sim_vecs'],
                   lambda p, nm: p in D.columns.get_level_values(0) and nm in D[p].columns.get_level_values(0))
            p = r.choice(stored)
            key = p + '/res'
            L3 = ut.load_sim_results(fa[0], path=fa[1], keys=r.choice([key, [key], (key,), '/' + key]), multiindex=False)
            v.chk(list(L3) == [p] and list(L3[p]) == ['res'], 'loaded key', lambda: 'loading key %s returned %s' % (key, {k: list(x) for k, x in L3.items()}))
            if p in L3:
                table('loaded key', key, L3[p]['res'], tr[p]['res'], sel[p][0], sel[p][2])
    shutil.rmtree(d, ignore_errors=True)
    return dict(viol=v, keys=['%s %s %s %d' % (c['fam'], '+'.join(sorted(kinds)), f, c['comp'] > 0)],
                stats=dict(values=nv, rows=K, selections=sum(x[1] not in ('all',) for x in sel.values()), resampled=int(bool(f))),
                sample=dict(c, kinds=sorted(kinds), values=nv))
